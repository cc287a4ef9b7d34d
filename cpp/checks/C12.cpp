// C12: forced reconnection recovers from the death of any participant at any point of any operation.
#include "common.hpp"
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/StringTensor.hpp>
using namespace sim;
using namespace EigenIPC;

// A tensor server or client of any type, driven without knowing it. Nothing of it is ever destroyed by itself: the dead do not clean up.
struct AnyS { virtual ~AnyS() {} virtual void make(int r, int q, bool force, bool safe, int verb) = 0; virtual void run() = 0; virtual void stop() = 0; virtual void close() = 0; virtual void destroy() = 0; virtual bool running() = 0; virtual void use(int what) = 0; virtual int count() = 0; virtual void leak() = 0; };
struct AnyC { virtual ~AnyC() {} virtual void make(bool safe, int verb) = 0; virtual void attach() = 0; virtual void detach() = 0; virtual void close() = 0; virtual void destroy() = 0; virtual void use(int what) = 0; virtual void leak() = 0; };
template <class B, class T> static void use_it(B& b, int what) {
    Tensor<typename T::S, T::L> t(1, 1); t(0, 0) = (typename T::S)1;
    switch (what) { case 0: b->write(t, 0, 0); break; case 1: b->read(t, 0, 0); break; default: b->dataSemAcquire(); if (what == 3) yield("holding the data lock"); b->write(t, 0, 0); b->dataSemRelease(); }
}
template <class T> struct SOf : AnyS { Box<Srv<T>> b; void make(int r, int q, bool f, bool s, int v) override { b.make(r, q, "t", "n", v > 0, vlevel_of(v - 1), f, s); } void run() override { b->run(); } void stop() override { b->stop(); } void close() override { b->close(); } void destroy() override { b.destroy(); } bool running() override { return (bool)b && b->isRunning(); } void use(int w) override { use_it<Box<Srv<T>>, T>(b, w); } int count() override { return b->getNClients(); } void leak() override { b.leak(); } };
template <class T> struct COf : AnyC { Box<Cli<T>> b; void make(bool s, int v) override { b.make("t", "n", v > 0, vlevel_of(v - 1), s); } void attach() override { b->attach(); } void detach() override { b->detach(); } void close() override { b->close(); } void destroy() override { b.destroy(); } void use(int w) override { use_it<Box<Cli<T>>, T>(b, w); } void leak() override { b.leak(); } };
static AnyS* anys(int k) { AnyS* r = nullptr; dispatch(k, [&](auto t) { r = new SOf<decltype(t)>; }); return r; }
static AnyC* anyc(int k) { AnyC* r = nullptr; dispatch(k, [&](auto t) { r = new COf<decltype(t)>; }); return r; }

struct ServerPlan { bool force; int R, C, verb; bool safe; std::vector<int> ops; };
static const char* sop[] = {"write", "read", "lock", "lock for longer", "stop and run", "count", "close and re-create"};
static const char* cop[] = {"write", "read", "lock", "lock for longer", "detach and attach", "close and attach", "destroy and re-create"};

// Everything a new server and the clients attaching afterwards are promised.
template <class T> static void fresh(Case& c, Srv<T>& s, int R, int C, int sp, int m, const std::vector<char>& csafe, const char* who) {
    using S = typename T::S; constexpr int L = T::L; Model<S> M; M.init(R, C);
    std::vector<std::unique_ptr<Box<Cli<T>>>> cl; std::vector<int> cp;
    for (int i = 0; i < m; ++i) { cp.push_back(new_process()); cl.emplace_back(new Box<Cli<T>>); }
    CHECK(s.isRunning(), "%s: the new server does not run", who);
    CHECK(s.getNRows() == R && s.getNCols() == C, "%s: the new server reports %dx%d instead of %dx%d", who, s.getNRows(), s.getNCols(), R, C);
    CHECK(s.getNClients() == 0, "%s: the new server counts %d clients before any attached", who, s.getNClients());
    std::string d = differs<T>(s, M); CHECK(d.empty(), "%s: the new server's tensor: %s", who, d.c_str());
    for (int i = 0; i < m; ++i) {
        As as(cp[i]); cl[i]->make("t", "n", false, VLevel::V0, csafe[i]); (*cl[i])->attach();
        CHECK((*cl[i])->isAttached(), "%s: client %d is not attached", who, i);
        CHECK((*cl[i])->getNRows() == R && (*cl[i])->getNCols() == C, "%s: client %d sees %dx%d instead of %dx%d", who, i, (*cl[i])->getNRows(), (*cl[i])->getNCols(), R, C);
        d = differs<T>(**cl[i], M); CHECK(d.empty(), "%s: client %d's tensor: %s", who, i, d.c_str());
        As a2(sp); int n = s.getNClients(); CHECK(n == i + 1, "%s: the new server counts %d clients, %d are attached", who, n, i + 1);
    }
    Case::Stream st = c.stream();
    for (int w = 0; w <= m; ++w) {
        As as(w ? cp[w - 1] : sp); Tensor<S, L> t(R, C);
        for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { t(i, j) = rnd_val<S>(st); M.set(i, j, t(i, j)); }
        CHECK(w ? (*cl[w - 1])->write(t) : s.write(t), "%s: participant %d's write was refused", who, w);
        for (int v = 0; v <= m; ++v) { As a2(v ? cp[v - 1] : sp); d = v ? differs<T>(**cl[v - 1], M) : differs<T>(s, M); CHECK(d.empty(), "%s: after participant %d's write, participant %d: %s", who, w, v, d.c_str()); }
    }
    for (int w = 0; w <= m; ++w) {   // the lock is there exactly once
        As as(w ? cp[w - 1] : sp); if (w) (*cl[w - 1])->dataSemAcquire(); else s.dataSemAcquire();
        for (int v = 0; v < m; ++v) if (csafe[v]) { As a2(cp[v]); Tensor<S, L> t(1, 1); CHECK(!(*cl[v])->read(t), "%s: client %d reads although participant %d holds the data lock", who, v, w); }
        if (w) (*cl[w - 1])->dataSemRelease(); else s.dataSemRelease();
    }
    for (int i = 0; i < m; ++i) { As as(cp[i]); if (i & 1) (*cl[i])->close(); cl[i]->destroy(); As a2(sp); int n = s.getNClients(); CHECK(n == m - i - 1, "%s: the new server counts %d clients, %d are attached", who, n, m - i - 1); }
}

static void tensors(Case& c) {
    int crashes = 1 + c.small(3); bool any_died = false, inside = false;
    for (int g = 0; g < crashes; ++g) {
        // --- a generation in which one or two participants die
        int k = c.draw(8), nc = c.draw(4); ServerPlan P; P.force = g > 0 || c.chance(0.3); P.R = 1 + c.draw(5); P.C = c.pick(std::vector<int>{1, 3, 7, 1100}); P.verb = c.draw_biased(5, 0.15); P.safe = !c.chance(0.3);
        for (int i = c.draw(5); i-- > 0;) P.ops.push_back(c.draw(7));
        struct CP { int k; bool safe; int verb, pause; std::vector<int> ops; }; std::vector<CP> cps;
        for (int i = 0; i < nc; ++i) { CP q; q.k = c.chance(0.1) ? (int)c.draw(8) : k; q.safe = !c.chance(0.3); q.verb = c.draw_biased(5, 0.15); q.pause = c.draw(12); for (int j = c.draw(4); j-- > 0;) q.ops.push_back(c.draw(7)); cps.push_back(q); }
        int victim = c.draw(nc + 1), second = nc && c.chance(0.2) ? (int)c.draw(nc + 1) : -1;
        long at = 1 + c.draw(c.pick(std::vector<int>{30, 80, 10, 200})), at2 = 1 + c.draw(80);
        c.note("generation %d: %s server %dx%d kind %d safe=%d%s", g, P.force ? "forcing" : "plain", P.R, P.C, k, P.safe, victim == 0 ? " (victim)" : "");
        for (int o : P.ops) c.note("server: %s", sop[o]);
        for (int i = 0; i < nc; ++i) { c.note("client %d kind %d safe=%d%s", i + 1, cps[i].k, cps[i].safe, victim == i + 1 ? " (victim)" : ""); for (int o : cps[i].ops) c.note("client %d: %s", i + 1, cop[o]); }
        c.note("participant %d dies at its scheduling point %ld", victim, at); if (second >= 0 && second != victim) c.note("participant %d dies at its scheduling point %ld", second, at2);
        AnyS* s = anys(k); std::vector<AnyC*> cl; std::vector<int> pr, ids; bool refused = false;
        for (int i = 0; i <= nc; ++i) pr.push_back(new_process());
        for (int i = 0; i < nc; ++i) cl.push_back(anyc(cps[i].k));
        bool srv_ok = true;
        // the program owns what its tasks need after their death
        auto up = std::make_shared<bool>(false); auto sid = std::make_shared<int>(-1);
        auto* prog = new std::vector<std::function<void()>>;
        std::shared_ptr<ServerPlan> sp = std::make_shared<ServerPlan>(P);
        prog->push_back([=, &refused, &srv_ok] {
            try { s->make(sp->R, sp->C, sp->force, sp->safe, sp->verb); s->run(); } catch (std::exception&) { refused = true; srv_ok = false; return; }
            *up = true;
            for (int o : sp->ops) { if (o < 4) s->use(o); else if (o == 4) { s->stop(); yield("stopped"); s->run(); } else if (o == 5) s->count(); else { s->close(); s->destroy(); yield("closed"); s->make(sp->R, sp->C, sp->force, sp->safe, sp->verb); s->run(); } }
        });
        for (int i = 0; i < nc; ++i) { AnyC* x = cl[i]; auto q = std::make_shared<CP>(cps[i]); prog->push_back([=] {
            // attaching to what a dead generation left, while a new one starts, is not promised to work: wait for the server
            if (g > 0) { wait_until([=] { return *up || dead(*sid); }, "waiting for the server"); if (!*up) return; }
            for (int j = 0; j < q->pause; ++j) yield("pausing");
            try {
                x->make(q->safe, q->verb); x->attach();
                for (int o : q->ops) { if (o < 4) x->use(o); else if (o == 4) { x->detach(); x->attach(); } else if (o == 5) { x->close(); x->attach(); } else { x->destroy(); x->make(q->safe, q->verb); x->attach(); } }
            } catch (std::exception&) {}      // other types are rejected
        }); }
        for (int i = 0; i <= nc; ++i) { auto f = (*prog)[i]; ids.push_back(spawn(i ? "client" + std::to_string(i) : "server", pr[i], [f] { f(); })); if (!i) *sid = ids[0]; }
        kill_at(ids[victim], at); if (second >= 0 && second != victim) kill_at(ids[second], at2);
        limit_vtime(60); End e = run();   // whoever depends on the dead may wait forever
        (void)e; bool vd = dead(ids[victim]); any_died |= vd;
        if (vd) { c.label(victim ? "a client died" : "the server died"); inside = true; if (!strcmp(blocked_on(ids[victim]), "pausing")) c.label("died before doing anything"); }
        limit_vtime(10000);
        bool server_alive = finished(ids[0]), one_died = false; for (int i : ids) one_died |= dead(i);
        if (e == End::Deadlock || e == End::Limit) { c.label("a survivor waits for a dead participant"); bool recreates = std::count(P.ops.begin(), P.ops.end(), 6) > 0;   // (attaching while the server closes is not promised to end)
            CHECK(one_died || recreates, "nobody died, but not everybody comes to an end\n%s", report().c_str()); }
        if (g > 0 && server_alive) CHECK(srv_ok, "the server of generation %d was constructed with forced reconnection, but failed", g);
        for (int i = 0; i <= nc; ++i) if (blocked(ids[i])) kill(ids[i]);   // the operator ends whoever hangs
        // survivors may leave in order, clients first, or are ended as well
        bool order = c.chance(0.5); std::vector<char> gone(nc + 1, 0);
        if (order) {
            if (server_alive && !refused) {
                // (detaching waits for the data lock, which may have died with its owner: such clients are ended)
                std::vector<int> d; limit_vtime(60); for (int i = 0; i < nc; ++i) if (finished(ids[i + 1]) && c.chance(0.7)) { AnyC* x = cl[i]; d.push_back(spawn("leaving" + std::to_string(i + 1), pr[i + 1], [x] { x->destroy(); })); gone[i + 1] = 1; }
                run(); for (int i : d) if (blocked(i)) kill(i);
                limit_vtime(10000);
            }
        }
        bool closed = false;
        if (server_alive && (refused || c.chance(0.7))) {
            closed = true; gone[0] = 1;
            must_finish(c, solo("closing", pr[0], [s] { s->destroy(); }), "closing the surviving server");
        }
        c.note("%s; the server %s", vd ? "died" : "did not get there", closed ? "closed in order" : server_alive ? "was ended" : "is dead");
        for (int i = 0; i <= nc; ++i) if (!gone[i]) { if (i) cl[i - 1]->leak(); else s->leak(); }
        // --- optionally a plain server first: works as well, or throws
        int k2 = c.draw(8), R = 1 + c.draw(6), C = c.pick(std::vector<int>{1, 2, 5, 1100}), m = c.draw(4), verb = c.draw_biased(5, 0.15); bool safe = !c.chance(0.3); std::vector<char> csafe; for (int i = 0; i < m; ++i) csafe.push_back(!c.chance(0.3));
        bool plain = c.chance(0.5), last = g == crashes - 1;
        if (!plain && !last) continue;    // the next generation's forcing server comes first, and may die as well
        bool done = false;
        dispatch(k2, [&](auto t) {
            using T = decltype(t); int p = new_process();
            auto attempt = [&](bool force, const char* who) {
                bool threw = false; Box<Srv<T>> n; Box<Cli<T>> early; int ep = -1, eid = -1; bool wait_first = c.chance(0.3), esafe = c.chance(0.7);
                auto timed = [&](auto f) { int64_t t0 = now_ns(); f(); CHECK(now_ns() - t0 < 3000000000ll, "%s: constructing or running took %ld ms", who, (long)((now_ns() - t0) / 1000000)); };
                must_finish(c, solo("newserver", p, [&] { timed([&] { try { n.make(R, C, "t", "n", verb > 0, vlevel_of(verb - 1), force, safe); } catch (std::exception& x) { threw = true; CHECK(!force, "constructing a server with forced reconnection failed: %s", x.what()); } }); }), who);
                if (!threw && wait_first) {   // a client that comes between construction and run waits for the run
                    c.label("client came before the new server ran"); ep = new_process(); limit_vtime(20);
                    eid = spawn("early client", ep, [&] { early.make("t", "n", false, VLevel::V0, esafe); early->attach(); });
                    run(); limit_vtime(10000);
                    CHECK(!finished(eid), "%s: a client's attach returned before the new server was run", who);
                }
                if (!threw) {
                    spawn("newserver", p, [&] { timed([&] { try { n->run(); } catch (std::exception& x) { threw = true; CHECK(!force, "running a server with forced reconnection failed: %s", x.what()); } }); });
                    if (eid < 0) must_finish(c, run(), who);
                    else { limit_vtime(3000); End e = run(); limit_vtime(10000); if (threw) kill(eid); else must_finish(c, e, who); }
                }
                if (!threw) must_finish(c, solo("newserver", p, [&] {
                    if (eid >= 0) { As as(ep); CHECK(early->isAttached() && early->getNRows() == R && early->getNCols() == C, "%s: the client that waited sees %dx%d instead of %dx%d", who, early->getNRows(), early->getNCols(), R, C); early.destroy(); }
                    fresh<T>(c, *n, R, C, p, m, csafe, who); n.destroy(); }), who);
                else { must_finish(c, solo("newserver", p, [&] { n.destroy(); }), who); if (eid >= 0) early.leak(); }
                return !threw;
            };
            if (plain) { done = attempt(false, "a new server without forced reconnection"); c.label(done ? "plain server works" : "plain server refused"); c.note("plain server %s", done ? "works" : "refused"); }
            if (last) attempt(true, "a new server with forced reconnection");
            if (last && done) attempt(false, "a plain server after an orderly end");
        });
    }
    if (any_died && inside) c.nontrivial();
}
PROPERTY(tensor_crashes, 16000, 1500000, "chains of 1-4 generations of a server and 0-3 clients (any types) running lifecycle, read/write and lock programs, in which one or two participants die at a random scheduling point (system call, page access, sleep), then plain and forcing servers and new clients with everything they are promised; non-trivial: a participant did die") {
    Options o; o.page_yield = c.chance(0.5); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); o.max_vtime_ms = 3000; reset(c, o); tensors(c);
}

// every crash point of one participant's whole life, one after the other, in a fixed scenario
PROPERTY(every_point, 8000, 400000, "the whole life of one participant (construct, run/attach, write, lock, stop/run or detach/attach, close) is cut at its k-th scheduling point, k enumerated, with page-wise points, in a small world of every type; non-trivial: the participant died there") {
    int which = c.draw(2), k = (pbt::g_index * 7) % 8, R = 1 + c.draw(3), C = c.pick(std::vector<int>{1, 2, 1100}), verb = c.draw_biased(5, 0.1); bool oldforce = c.chance(0.5), safe = !c.chance(0.3), peer = c.chance(0.7), force = c.chance(0.7), orderly = c.chance(0.5);
    long at = 1 + (pbt::g_index / 8) % 200;
    Options o; o.page_yield = true; o.p_switch = 0.05; o.max_vtime_ms = 3000; reset(c, o);
    AnyS* s = anys(k); AnyC* x = anyc(k); int ps = new_process(), pc = new_process();
    c.note("the %s dies at point %ld of its life (kind %d, %dx%d, force=%d); then a %s server", which ? "client" : "server", at, k, R, C, oldforce, force ? "forcing" : "plain");
    auto life_s = [=] { s->make(R, C, oldforce, safe, verb); s->run(); s->use(0); s->use(2); s->stop(); s->run(); s->count(); s->close(); s->destroy(); };
    auto life_c = [=] { x->make(safe, verb); x->attach(); x->use(0); x->use(2); x->detach(); x->attach(); x->close(); x->attach(); x->destroy(); };
    int v, other = -1; bool died;
    if (which == 0) { v = spawn("server", ps, life_s); if (peer) other = spawn("client", pc, [=] { try { x->make(safe, 0); x->attach(); x->use(1); } catch (std::exception&) {} }); }
    else { must_finish(c, solo("server", ps, [=] { s->make(R, C, oldforce, safe, 0); s->run(); }), "the server"); v = spawn("client", pc, life_c); }
    kill_at(v, at); limit_vtime(60); run(); limit_vtime(10000); died = dead(v); if (other >= 0 && blocked(other)) kill(other); if (blocked(v)) kill(v);
    if (which == 1 && orderly) must_finish(c, solo("closing", ps, [=] { s->destroy(); }), "closing the surviving server");
    s->leak(); x->leak();
    if (died) { c.nontrivial(); c.label(which ? "the client died" : "the server died"); }
    int k2 = c.draw(8), m = c.draw(3), R2 = 1 + c.draw(4), C2 = 1 + c.draw(4); std::vector<char> cs; for (int i = 0; i < m; ++i) cs.push_back(!c.chance(0.3));
    dispatch(k2, [&](auto t) { using T = decltype(t); int p = new_process();
        for (int pass = force ? 1 : 0; pass < 2; ++pass) {
            bool threw = false; Box<Srv<T>> n; const char* who = pass ? "a new server with forced reconnection" : "a new server without forced reconnection";
            must_finish(c, solo("newserver", p, [&] { try { n.make(R2, C2, "t", "n", false, VLevel::V0, pass == 1, true); n->run(); } catch (std::exception& e) { threw = true; CHECK(pass == 0, "constructing and running a server with forced reconnection failed: %s", e.what()); }
                if (!threw) fresh<T>(c, *n, R2, C2, p, m, cs, who); n.destroy(); }), who);
            if (pass == 0) { c.label(threw ? "plain server refused" : "plain server works"); }
        } });
}

// clients of the dead server go on, leave, or come over to the new one
PROPERTY(left_overs, 9000, 500000, "1-3 clients of a server that died (also while it held the lock) write, read, lock, leave and attach again while a forcing server and its clients are at work; after every step the new server and everybody attached to it are asked for everything they are promised; non-trivial: a client of the dead server left or attached again after the new one ran") {
    int k = c.draw(8), n = 1 + c.draw(3), m = c.draw(3), R = 1 + c.draw(4), C = 1 + c.draw(4), R2 = c.chance(0.5) ? R : 1 + (int)c.draw(4), C2 = c.chance(0.5) ? C : 1 + (int)c.draw(4), steps = 2 + c.draw(c.tier_ ? 24 : 12), verb = c.draw_biased(5, 0.1);
    bool locked = c.chance(0.3), oldforce = c.chance(0.5); Options o; o.p_switch = 0.1; o.max_vtime_ms = 10000; reset(c, o);
    c.note("kind %d, %dx%d; the server dies%s; %d clients of it, then a server %dx%d and %d clients", k, R, C, locked ? " holding the data lock" : "", n, R2, C2, m);
    dispatch(k, [&](auto t) {
        using T = decltype(t); using V = typename T::S; constexpr int L = T::L;
        Box<Srv<T>> old, s; std::vector<std::unique_ptr<Box<Cli<T>>>> cl; std::vector<int> pr, in(n + m, 0), gone(n + m, 0), safe; int po = new_process(), ps = new_process(), pe = new_process();   // in: attached to the new server
        for (int i = 0; i < n + m; ++i) { pr.push_back(new_process()); cl.emplace_back(new Box<Cli<T>>); safe.push_back(!c.chance(0.3)); }
        must_finish(c, solo("the first generation", po, [&] {
            old.make(R, C, "t", "n", false, VLevel::V0, oldforce, true); old->run();
            for (int i = 0; i < n; ++i) { As as(pr[i]); cl[i]->make("t", "n", verb > 0, vlevel_of(verb - 1), safe[i]); (*cl[i])->attach(); Tensor<V, L> x(1, 1); x(0, 0) = (V)1; (*cl[i])->write(x); }
            if (locked) old->dataSemAcquire();
        }), "the first generation");
        old.leak(); Model<V> M; M.init(R2, C2); Case::Stream st = c.stream();
        auto attached = [&] { int q = 0; for (int x : in) q += x; return q; };
        auto look = [&](const char* what) {
            must_finish(c, solo("looking", pe, [&] {
                for (int w = -1; w < n + m; ++w) if (w < 0 || in[w]) { As as(w < 0 ? ps : pr[w]);
                    int r = w < 0 ? s->getNRows() : (*cl[w])->getNRows(), q = w < 0 ? s->getNCols() : (*cl[w])->getNCols(); CHECK(r == R2 && q == C2, "%s: participant %d of the new server sees %dx%d instead of %dx%d", what, w, r, q, R2, C2);
                    std::string d = w < 0 ? differs<T>(*s, M) : differs<T>(**cl[w], M); CHECK(d.empty(), "%s: participant %d of the new server: %s", what, w, d.c_str()); }
                As as(ps); int q = s->getNClients(); CHECK(q == attached(), "%s: the new server counts %d clients, %d are attached", what, q, attached());
                s->dataSemAcquire(); Tensor<V, L> x(1, 1); for (int w = 0; w < n + m; ++w) if (in[w] && safe[w]) { As a2(pr[w]); CHECK(!(*cl[w])->read(x), "%s: participant %d reads although the new server holds the data lock", what, w); } s->dataSemRelease();
            }), what);
        };
        must_finish(c, solo("the new server", ps, [&] { s.make(R2, C2, "t", "n", false, VLevel::V0, true, true); s->run(); }), "the new server");
        look("start"); bool came = false;
        for (int i = 0; i < steps; ++i) {
            int w = c.draw(n + m), op = c.weighted({3, 2, 2, 3, 2, 2, 3}); std::string what;
            if (gone[w]) continue;
            if (w >= n || in[w]) {      // one of the new server's
                if (!in[w]) { what = "attaching"; c.note("client %d attaches", w); must_finish(c, solo("attaching", pr[w], [&] { if (!*cl[w]) cl[w]->make("t", "n", verb > 0, vlevel_of(verb - 1), safe[w]); (*cl[w])->attach(); }), "attaching to the new server"); in[w] = 1; }
                else if (op < 5) { c.note("client %d writes to the new tensor", w); int a = c.draw(R2), b = c.draw(C2); Tensor<V, L> x(1, 1); x(0, 0) = rnd_val<V>(st); must_finish(c, solo("writing", pr[w], [&] { CHECK((*cl[w])->write(x, a, b), "client %d's write to the new tensor was refused", w); }), "writing"); M.set(a, b, x(0, 0)); what = "a write"; }
                else { what = "detaching"; c.note("client %d detaches", w); must_finish(c, solo("detaching", pr[w], [&] { (*cl[w])->detach(); }), "detaching"); in[w] = 0; }
            } else {                    // still one of the dead server's (or of none)
                static const char* nm[] = {"writes", "reads", "locks and releases", "detaches", "closes", "goes", "attaches again"}; c.note("client %d of the dead server %s", w, nm[op]); what = std::string("a client of the dead server ") + nm[op];
                auto done = std::make_shared<bool>(false); Box<Cli<T>>* b = cl[w].get();
                int id = spawn("left over", pr[w], [=] { Tensor<V, L> x(1, 1); x(0, 0) = (V)1;
                    switch (op) { case 0: (*b)->write(x); break; case 1: (*b)->read(x); break; case 2: if ((*b)->isAttached()) { (*b)->dataSemAcquire(); (*b)->dataSemRelease(); } break; case 3: (*b)->detach(); break; case 4: (*b)->close(); break; case 5: b->destroy(); break; default: (*b)->detach(); (*b)->attach(); }
                    *done = true; });
                limit_vtime(60); run(); limit_vtime(10000);
                if (blocked(id)) { CHECK(locked, "%s, but does not come to an end\n%s", what.c_str(), report().c_str()); kill(id); b->leak(); gone[w] = 1; }   // (waiting for a lock which died with its owner)
                else if (op == 5) { gone[w] = 1; came = true; }
                else if (op == 6) { in[w] = 1; came = true; }
                else if (op == 3 || op == 4) came = true;
            }
            look(what.c_str());
        }
        if (came) c.nontrivial(); if (locked) c.label("the lock had died with the server");
        must_finish(c, solo("the end", ps, [&] { for (int w = n + m; w-- > 0;) if (!gone[w] && in[w]) { As as(pr[w]); cl[w]->destroy(); gone[w] = 1; } s.destroy(); }), "the end");
        for (int w = 0; w < n + m; ++w) if (!gone[w]) cl[w]->leak();
    });
}

// producers and consumers
PROPERTY(trigger_crashes, 10000, 800000, "a producer and 1-3 consumers in their rounds of trigger, wait and acknowledge, one of which dies at a random scheduling point; then a plain or forcing producer with new consumers, which must complete rounds; non-trivial: a participant did die") {
    Options o; o.page_yield = c.chance(0.5); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); o.max_vtime_ms = 3000; reset(c, o);
    int gens = 1 + c.small(2); bool died = false;
    for (int g = 0; g < gens; ++g) {
        int n = 1 + c.draw(3), rounds = c.draw(4), victim = c.draw(n + 1), verb = c.draw_biased(5, 0.1); long at = 1 + c.draw(c.pick(std::vector<int>{60, 150, 400})); bool force = g > 0 || c.chance(0.4), timed = c.chance(0.3), cyc = c.chance(0.3);
        auto* p = new Box<Producer>; std::vector<Box<Consumer>*> cs; for (int i = 0; i < n; ++i) cs.push_back(new Box<Consumer>);
        std::vector<int> pr, ids; for (int i = 0; i <= n; ++i) pr.push_back(new_process());
        c.note("generation %d: %s producer and %d consumers, %d rounds; participant %d dies at point %ld", g, force ? "forcing" : "plain", n, rounds, victim, at);
        auto* ready = new int(0); auto up = std::make_shared<bool>(false); auto pid = std::make_shared<int>(-1);
        ids.push_back(spawn("producer", pr[0], [=] { p->make("pc", "n", verb > 0, vlevel_of(verb - 1), force); (*p)->run(); *up = true; wait_until([=] { return *ready == n; }, "consumers ready"); for (int r = 0; r < rounds; ++r) { (*p)->trigger(); if (!(*p)->wait_ack_from(n, timed ? 200 : -1)) return; } if (cyc) { (*p)->close(); (*p).destroy(); } })); *pid = ids[0];
        for (int i = 0; i < n; ++i) { Box<Consumer>* x = cs[i]; ids.push_back(spawn("consumer" + std::to_string(i + 1), pr[i + 1], [=] { if (g > 0) { wait_until([=] { return *up || dead(*pid); }, "waiting for the producer"); if (!*up) return; } x->make("pc", "n", verb > 0, vlevel_of(verb - 1)); (*x)->run(); ++*ready; for (int r = 0; r < rounds; ++r) { if (!(*x)->wait(timed ? 100 : -1)) return; if (i & 1) yield("triggered"); (*x)->ack(); } if (cyc) (*x)->close(); })); }
        kill_at(ids[victim], at); limit_vtime(500); run(); limit_vtime(10000);
        bool vd = dead(ids[victim]); died |= vd; if (vd) c.label(victim ? "a consumer died" : "the producer died");
        for (int i : ids) if (blocked(i)) kill(i);
        bool closed = false; if (finished(ids[0]) && c.chance(0.6)) { closed = true; must_finish(c, solo("closing", pr[0], [=] { p->destroy(); }), "closing the surviving producer"); }
        if (!closed) p->leak();
        for (auto* x : cs) x->leak();
        bool last = g == gens - 1, plain = c.chance(0.4); if (!last && !plain) continue;
        for (int pass = plain ? 0 : 1; pass < (last ? 2 : 1); ++pass) {
            const char* who = pass ? "a new producer with forced reconnection" : "a new producer without forced reconnection";
            Box<Producer> q; std::vector<std::unique_ptr<Box<Consumer>>> ns; std::vector<int> np; int pp = new_process(), m = 1 + c.draw(3), rd = 1 + c.draw(3); bool threw = false;
            must_finish(c, solo("newproducer", pp, [&] { int64_t t0 = now_ns(); try { q.make("pc", "n", false, VLevel::V0, pass == 1); q->run(); } catch (std::exception& e) { threw = true; CHECK(pass == 0, "constructing and running a producer with forced reconnection failed: %s", e.what()); } CHECK(now_ns() - t0 < 3000000000ll, "%s: took too long", who); if (threw) q.destroy(); }), who);
            c.note("%s %s", who, threw ? "refused" : "runs"); if (threw) { c.label("plain producer refused"); continue; } if (!pass) c.label("plain producer works");
            int rdy = 0, got = 0;
            for (int i = 0; i < m; ++i) { np.push_back(new_process()); ns.emplace_back(new Box<Consumer>); }
            spawn("newproducer", pp, [&] { wait_until([&] { return rdy == m; }, "new consumers ready"); for (int r = 0; r < rd; ++r) { CHECK(got == r * m, "%s: %d triggers were received before trigger %d", who, got, r + 1); q->trigger(); CHECK(q->wait_ack_from(m, -1), "%s: untimed wait returned false", who); CHECK(got == (r + 1) * m, "%s: all acknowledgements seen after %d of %d", who, got - r * m, m); } });
            for (int i = 0; i < m; ++i) spawn("newconsumer" + std::to_string(i), np[i], [&, i] { Box<Consumer>& x = *ns[i]; x.make("pc", "n", false, VLevel::V0); x->run(); ++rdy; for (int r = 0; r < rd; ++r) { CHECK(x->wait(-1), "%s: an untimed wait returned false", who); ++got; CHECK(x->ack(), "%s: ack failed", who); } CHECK(!x->wait(2), "%s: a consumer was triggered although nobody did", who); });
            must_finish(c, run(), who);
            must_finish(c, solo("teardown", pp, [&] { for (int i = 0; i < m; ++i) { As as(np[i]); ns[i]->destroy(); } q.destroy(); }), "teardown");
        }
    }
    if (died) c.nontrivial();
}
