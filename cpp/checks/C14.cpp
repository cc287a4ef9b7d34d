// C14: stop/run keeps the data; close/re-create starts a fresh generation that stale clients cannot disturb.
#include "common.hpp"
using namespace sim;
using namespace EigenIPC;
typedef Ty<double, ColMajor> U;   // servers of another type in between

template <class T> struct Hist {
    using S = typename T::S; static constexpr int L = T::L;
    Case& c; Case::Stream st; int R = 1, C = 1, gen = 0; Model<S> M; Box<Srv<T>> s; Box<Srv<U>> u; Model<double> MU; bool run = false, other = false, exists = false; int sp;
    struct Cl { Box<Cli<T>> b; int proc; int gen = -1; bool safe = true; int verb = 0; };   // gen: generation attached to
    std::vector<std::unique_ptr<Cl>> cl; int holder = -2;   // -1 server, i client of the current generation
    std::map<int, int> stale_holder;   // generation -> client who still holds the lock of a closed server
    int stale_ops = 0, reruns = 0, regens = 0;
    Hist(Case& c_) : c(c_), st(c_.stream()) { sp = new_process(); }
    int attached() { int n = 0; for (auto& x : cl) n += x->gen == gen; return n; }
    void verify(const char* when) {
        if (!exists) return;
        As as(sp);
        if (other) {
            if (run) { std::string d = differs<U>(*u, MU); CHECK3(d.empty(), when, "the server", d); }
            int n = count(); if (n != 0) c.fail("%s: the server counts %d clients, none is attached", when, n); return;
        }
        bool held = holder != -2;
        if (s->getNRows() != R || s->getNCols() != C) c.fail("%s: the server reports %dx%d instead of %dx%d", when, s->getNRows(), s->getNCols(), R, C);
        if (s->isRunning() != run) c.fail("%s: the server reports running=%d", when, s->isRunning());
        if (!held) { int n = count(); if (n != attached()) c.fail("%s: the server counts %d clients, %d are attached", when, n, attached()); }
        if (run && (!held || !ssafe)) { std::string d = differs<T>(*s, M); CHECK3(d.empty(), when, "the server", d); }
        for (auto& x : cl) if (x->gen == gen && (!held || !x->safe)) { As a(x->proc); std::string d = differs<T>(*x->b, M); CHECK3(d.empty(), when, "a client", d); }
    }
    bool ssafe = true;
    int count() { return other ? u->getNClients() : s->getNClients(); }
    void CHECK3(bool b, const char* when, const char* who, const std::string& d) { if (!b) c.fail("%s: %s: %s", when, who, d.c_str()); }
    void create() {
        As as(sp); other = c.chance(0.15); R = 1 + c.draw(5); C = c.pick(std::vector<int>{1, 2, 5, 1100}); ++gen; int v = c.draw_biased(5, 0.1); bool force = c.chance(0.2); ssafe = !c.chance(0.3);
        if (other) { MU.init(R, C); u.make(R, C, "t", "n", v > 0, vlevel_of(v - 1), force, ssafe); } else { M.init(R, C); s.make(R, C, "t", "n", v > 0, vlevel_of(v - 1), force, ssafe); }
        exists = true; run = false; holder = -2; if (gen > 1) ++regens; c.note("generation %d: %s %dx%d created", gen, other ? "double server" : "server", R, C);
    }
    void end(bool destroy) { As as(sp); if (holder == -1) { s->dataSemRelease(); holder = -2; } if (holder >= 0) stale_holder[gen] = holder; if (other) { if (destroy) u.destroy(); else u->close(); } else { if (destroy) s.destroy(); else s->close(); } exists = run = false; holder = -2; c.note("server %s", destroy ? "destroyed" : "closed"); }
    template <class O> bool put(O& o, bool mine, int r0, int c0, int n, int m) { Tensor<S, L> t(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) t(i, j) = rnd_val<S>(st); bool ok = o.write(t, r0, c0); if (ok && mine) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) M.set(r0 + i, c0 + j, t(i, j)); return ok; }
    void step() {
        int k = c.draw((uint32_t)cl.size() + 1);
        if (k == 0) {
            if (!exists) { if (s) s.destroy(); if (u) u.destroy(); create(); if (c.chance(0.8)) { As as(sp); other ? u->run() : s->run(); run = true; } return; }
            As as(sp);
            switch (c.weighted({4, 4, 3, 3, 1, 1})) {
                case 0: if (run) { if (other) { Tensor<double, ColMajor> t(1, 1); t(0, 0) = 1.5 + gen; if (u->write(t)) MU.set(0, 0, t(0, 0)); } else { int r = c.draw(R), q = c.draw(C), n = 1 + c.draw(R - r), m = 1 + c.draw(C - q); bool ok = put(*s, true, r, q, n, m); CHECK3(ok || (ssafe && holder != -2), "history", "the server", "write refused although nobody holds the lock"); } } break;
                case 1: if (run) { other ? u->stop() : s->stop(); run = false; c.note("stop"); if (!other) { Tensor<S, L> t(1, 1); t.setZero(); CHECK3(!s->write(t) && !s->read(t), "stopped", "the server", "reads or writes although it is stopped"); } } else { other ? u->run() : s->run(); run = true; ++reruns; c.note("run"); } break;
                case 2: end(false); break;
                case 3: end(true); break;
                case 4: if (!other && run && holder == -2) { s->dataSemAcquire(); holder = -1; c.note("server acquires the data lock"); } else if (!other && holder == -1) { s->dataSemRelease(); holder = -2; c.note("server releases the data lock"); } break;
                default: if (!other && holder == -1) { s->dataSemRelease(); holder = -2; } break;
            }
            return;
        }
        Cl& x = *cl[k - 1]; As as(x.proc); bool stale = x.gen != -1 && (x.gen != gen || !exists); if (stale) ++stale_ops;
        if (stale && stale_holder.count(x.gen) && stale_holder[x.gen] == k - 1 && c.chance(0.5)) { x.b->dataSemRelease(); stale_holder.erase(x.gen); c.note("stale client %d releases its lock", k); return; }
        bool blocked = (stale && stale_holder.count(x.gen)) || (holder != -2 && x.gen == gen && exists && holder != k - 1); if (!stale && holder == k - 1) blocked = true;
        switch (c.weighted({4, 4, 2, 2, 2, 1, 1})) {
            case 0: case 1: if (x.gen == -1) { if (exists && run && !other && holder == -2) { x.b.make("t", "n", x.verb > 0, vlevel_of(x.verb - 1), x.safe); x.b->attach(); x.gen = gen; c.note("client %d attaches to generation %d", k, gen); if (x.b->getNRows() != R || x.b->getNCols() != C) c.fail("client %d sees %dx%d instead of %dx%d", k, x.b->getNRows(), x.b->getNCols(), R, C); } }
                else { int R0 = x.b->getNRows(), C0 = x.b->getNCols(), r = c.draw(R0), q = c.draw(C0), n = 1 + c.draw(R0 - r), m = 1 + c.draw(C0 - q); bool ok = put(*x.b, !stale, r, q, n, m); c.note("%s client %d writes: %d", stale ? "stale" : "attached", k, ok); if (!stale) CHECK3(ok || (x.safe && holder != -2), "history", "an attached client", "write refused although nobody holds the lock"); } break;
            case 2: if (x.gen != -1) { Tensor<S, L> t(1, 1); x.b->read(t); } break;
            case 3: if (x.gen != -1 && !blocked) { x.b->detach(); c.note("%s client %d detaches", stale ? "stale" : "attached", k); x.gen = -1; } break;
            case 4: if (x.gen != -1 && !blocked) { if (c.chance(0.5)) { x.b->close(); } else x.b.destroy(); c.note("%s client %d closes", stale ? "stale" : "attached", k); x.gen = -1; } break;
            case 5: if (x.gen == gen && exists && holder == -2) { x.b->dataSemAcquire(); holder = k - 1; c.note("client %d acquires the data lock", k); } else if (x.gen == gen && exists && holder == k - 1) { x.b->dataSemRelease(); holder = -2; c.note("client %d releases the data lock", k); } break;
            default: if (x.gen != -1 && stale && !blocked && exists && run && !other && holder == -2 && c.chance(0.7)) { x.b->close(); x.b->attach(); x.gen = gen; c.note("stale client %d re-attaches to generation %d", k, gen); } break;
        }
    }
};
template <class T> static void history(Case& c) {
    Hist<T> h(c); int nc = 1 + c.draw(4), steps = 6 + c.draw(c.tier_ ? 60 : 34);
    for (int i = 0; i < nc; ++i) { h.cl.emplace_back(new typename Hist<T>::Cl); h.cl[i]->proc = new_process(); h.cl[i]->safe = !c.chance(0.3); h.cl[i]->verb = c.draw_biased(5, 0.1); }
    sequential(c, [&] {
        for (int i = 0; i < steps; ++i) {
            h.step(); h.verify("history");
        }
        int left = h.exists && h.holder >= 0 ? h.holder : -1; if (left >= 0) { As a(h.cl[left]->proc); h.cl[left]->b->dataSemRelease(); h.holder = -2; } else if (h.exists && h.holder == -1) { As a(h.sp); h.s->dataSemRelease(); h.holder = -2; }
        h.verify("finally");
    });
    // leave in any order; stale holders of a lock may block other stale clients' detaching, so all are ended instead
    for (auto& x : h.cl) { if (x->gen == h.gen && h.exists && x->b) { Box<Cli<T>>& b = x->b; solo("leaving", x->proc, [&] { b.destroy(); }); } else x->b.leak(); }
    solo("teardown", h.sp, [&] { h.s.destroy(); h.u.destroy(); });
    if ((h.reruns && nc) || (h.regens && h.stale_ops)) c.nontrivial();
    if (h.reruns) c.label("run again"); if (h.stale_ops && h.regens) c.label("stale client used");
}
PROPERTY(generations, 45000, 1500000, "sequential histories of creating, running, stopping, closing and re-creating servers (other dimensions, other types) with 1-4 clients that attach, use, lock, detach and close, also after their server is gone; content, count, lock and dimensions of the current generation are compared with a model after every step; non-trivial: a server was run again, or a stale client was used while a later generation existed") {
    reset(c); dispatch(c.draw(8), [&](auto t) { history<decltype(t)>(c); });
}

// stale clients at work during the construction and use of the next generation
template <class T> static void overlap(Case& c) {
    using S = typename T::S; constexpr int L = T::L;
    int ns = 1 + c.draw(3), nn = c.draw(3), R0 = 1 + c.draw(4), C0 = c.pick(std::vector<int>{1, 3, 1100}), R = 1 + c.draw(4), C = c.pick(std::vector<int>{1, 3, 1100}), verb = c.draw_biased(5, 0.1); bool reuse = c.chance(0.5), ssafe = !c.chance(0.3), destroy = c.chance(0.5), force = c.chance(0.2), stopped_first = c.chance(0.3);
    c.note("%s: %dx%d with %d clients, then %dx%d with %d clients", tyname<T>().c_str(), R0, C0, ns, R, C, nn);
    int sp = new_process(); Box<Srv<T>> s0, s1; std::vector<std::unique_ptr<Box<Cli<T>>>> cl, nl; std::vector<int> cp, np; std::vector<char> safe;
    for (int i = 0; i < ns; ++i) { cl.emplace_back(new Box<Cli<T>>); cp.push_back(new_process()); safe.push_back(!c.chance(0.3)); }
    for (int i = 0; i < nn; ++i) { nl.emplace_back(new Box<Cli<T>>); np.push_back(new_process()); }
    must_finish(c, solo("setup", sp, [&] { s0.make(R0, C0, "t", "n", false, VLevel::V0, false, ssafe); s0->run(); for (int i = 0; i < ns; ++i) { As a(cp[i]); cl[i]->make("t", "n", false, VLevel::V0, safe[i]); (*cl[i])->attach(); } }), "setting up");
    std::vector<std::vector<int>> plan(ns); for (int i = 0; i < ns; ++i) { for (int k = 1 + c.draw(8); k-- > 0;) plan[i].push_back(c.weighted({5, 3, 2, 2, 1})); if (c.chance(0.7)) plan[i].insert(plan[i].begin() + c.draw((uint32_t)plan[i].size()), 5); for (int o : plan[i]) c.note("stale client %d: %s", i, std::vector<const char*>{"write", "read", "lock", "detach", "close", "wait for the new server"}[o]); }
    int npw = 1 + c.draw(3), stale_after = 0; bool created = false; Model<S> M; M.init(R, C); Case::Stream st = c.stream();
    std::vector<int> wr; for (int i = 0; i < npw; ++i) wr.push_back(c.draw(nn + 1));
    spawn("server", reuse ? sp : sp, [&] {
        if (stopped_first) { s0->stop(); yield("stopped"); }
        if (destroy) s0.destroy(); else s0->close();
        s1.make(R, C, "t", "n", verb > 0, vlevel_of(verb - 1), force, true); created = true; s1->run();
        { Tensor<S, L> t; std::string d = differs<T>(*s1, M); CHECK(d.empty(), "a new generation: %s", d.c_str()); CHECK(s1->getNClients() == 0, "a new generation counts %d clients", s1->getNClients()); }
        for (int i = 0; i < nn; ++i) { As a(np[i]); nl[i]->make("t", "n", false, VLevel::V0, true); (*nl[i])->attach(); CHECK((*nl[i])->getNRows() == R && (*nl[i])->getNCols() == C, "a client of the new generation sees %dx%d instead of %dx%d", (*nl[i])->getNRows(), (*nl[i])->getNCols(), R, C); }
        for (int w : wr) {
            Tensor<S, L> t(R, C); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { t(i, j) = rnd_val<S>(st); M.set(i, j, t(i, j)); }
            { As a(w ? np[w - 1] : sp); CHECK(w ? (*nl[w - 1])->write(t) : s1->write(t), "a write in the new generation was refused: its lock is not free"); }
            yield("written");
            for (int v = 0; v <= nn; ++v) { As a(v ? np[v - 1] : sp); std::string d = v ? differs<T>(**nl[v - 1], M) : differs<T>(*s1, M); CHECK(d.empty(), "in the new generation, participant %d: %s", v, d.c_str()); }
            CHECK(s1->getNClients() == nn, "the new generation counts %d clients, %d are attached", s1->getNClients(), nn);
            s1->dataSemAcquire(); yield("holding"); yield("holding");
            for (int v = 0; v < nn; ++v) { As a(np[v]); Tensor<S, L> x(1, 1); CHECK(!(*nl[v])->read(x), "in the new generation a client reads although the server holds the data lock"); }
            s1->dataSemRelease();
        }
    });
    for (int i = 0; i < ns; ++i) spawn("stale" + std::to_string(i), cp[i], [&, i] { Cli<T>& x = **cl[i]; bool att = true; for (int o : plan[i]) { Tensor<S, L> t(R0, C0); t.setConstant((S)1); if (o == 5) { wait_until([&] { return created; }, "the new server"); continue; } if (created) ++stale_after;
        switch (o) { case 0: x.write(t); break; case 1: x.read(t); break; case 2: if (att) { x.dataSemAcquire(); yield("stale holder"); x.dataSemRelease(); } break; case 3: x.detach(); att = false; break; default: x.close(); att = false; } yield("stale"); } });
    must_finish(c, run(), "stale clients and a new generation");
    must_finish(c, solo("teardown", sp, [&] { for (int i = 0; i < ns; ++i) { As a(cp[i]); cl[i]->destroy(); } CHECK(s1->getNClients() == nn, "after the stale clients' destruction the new generation counts %d clients, %d are attached", s1->getNClients(), nn); std::string d = differs<T>(*s1, M); CHECK(d.empty(), "after the stale clients' destruction: %s", d.c_str()); s0.destroy(); d = differs<T>(*s1, M); CHECK(d.empty(), "after the destruction of the closed server: %s", d.c_str());
        { As a(new_process()); Box<Cli<T>> k; k.make("t", "n", false, VLevel::V0, true); k->attach(); d = differs<T>(*k, M); CHECK(d.empty(), "a client attaching at the end: %s", d.c_str()); k.destroy(); }
        for (int i = 0; i < nn; ++i) { As a(np[i]); nl[i]->destroy(); } s1.destroy(); }), "the end");
    if (stale_after) c.nontrivial();
}
PROPERTY(stale_clients, 35000, 1500000, "clients of a server being closed go on writing, reading, locking, detaching and closing concurrently with the construction and use of the next generation by its server and clients; non-trivial: a stale client acted after the new server was constructed") {
    Options o; o.page_yield = c.chance(0.3); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); reset(c, o);
    dispatch(c.draw(8), [&](auto t) { overlap<decltype(t)>(c); });
}

// stop/run cycles concurrent with the clients' work
template <class T> static void cycles(Case& c) {
    using S = typename T::S; constexpr int L = T::L;
    int nc = 1 + c.draw(3), R = 1 + c.draw(4), C = c.pick(std::vector<int>{1, 3, 1100}), cyc = 1 + c.draw(4); bool ssafe = !c.chance(0.3);
    c.note("%s %dx%d, %d clients, %d stop/run cycles", tyname<T>().c_str(), R, C, nc, cyc);
    int sp = new_process(), done = 0, oks = 0; Box<Srv<T>> s; std::vector<std::unique_ptr<Box<Cli<T>>>> cl; std::vector<int> cp; Model<S> M; M.init(R, C); Case::Stream st = c.stream();
    for (int i = 0; i < nc; ++i) { cl.emplace_back(new Box<Cli<T>>); cp.push_back(new_process()); }
    int rows = nc;   // client i alone writes column-block i: last successful write wins
    R = std::max(R, rows); M.init(R, C);
    must_finish(c, solo("setup", sp, [&] { s.make(R, C, "t", "n", false, VLevel::V0, false, ssafe); s->run(); for (int i = 0; i < nc; ++i) { As a(cp[i]); cl[i]->make("t", "n", false, VLevel::V0, i % 2 == 0); (*cl[i])->attach(); } }), "setting up");
    std::vector<int> nw; for (int i = 0; i < nc; ++i) { nw.push_back(1 + c.draw(6)); c.note("client %d: %d writes", i, nw[i]); }
    spawn("server", sp, [&] { for (int i = 0; i < cyc; ++i) { s->stop(); CHECK(!s->isRunning(), "runs after stop"); yield("stopped"); s->run(); CHECK(s->isRunning(), "does not run after run"); yield("running"); } ++done; });
    for (int i = 0; i < nc; ++i) spawn("client" + std::to_string(i), cp[i], [&, i] { for (int k = 0; k < nw[i]; ++k) { Tensor<S, L> t(1, C); for (int j = 0; j < C; ++j) t(0, j) = rnd_val<S>(st); if ((*cl[i])->write(t, i, 0)) { ++oks; for (int j = 0; j < C; ++j) M.set(i, j, t(0, j)); } Tensor<S, L> r(1, C); if ((*cl[i])->read(r, i, 0)) for (int j = 0; j < C; ++j) CHECK(same((S)r(0, j), M.get(i, j)), "client %d reads %s, it wrote %s", i, hex((S)r(0, j)).c_str(), hex(M.get(i, j)).c_str()); } });
    must_finish(c, run(), "stop/run cycles");
    must_finish(c, solo("check", sp, [&] {
        std::string d = differs<T>(*s, M); CHECK(d.empty(), "after the cycles: %s", d.c_str()); CHECK(s->getNClients() == nc, "after the cycles the server counts %d clients, %d are attached", s->getNClients(), nc);
        for (int i = 0; i < nc; ++i) { As a(cp[i]); CHECK((*cl[i])->isAttached(), "a client is not attached anymore"); d = differs<T>(**cl[i], M); CHECK(d.empty(), "after the cycles, client %d: %s", i, d.c_str()); }
        s->dataSemAcquire(); for (int i = 0; i < nc; i += 2) { As a(cp[i]); Tensor<S, L> t(1, 1); CHECK(!(*cl[i])->read(t), "client %d reads although the server holds the data lock", i); } s->dataSemRelease();
        for (int i = 0; i < nc; ++i) { As a(cp[i]); cl[i]->destroy(); } s.destroy();
    }), "after the cycles");
    c.note("%d of the writes succeeded", oks); if (oks) c.nontrivial();
}
PROPERTY(stop_run, 20000, 800000, "stop/run cycles concurrent with 1-3 writing and reading clients; non-trivial: a client's write succeeded") {
    Options o; o.page_yield = c.chance(0.3); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); reset(c, o);
    dispatch(c.draw(8), [&](auto t) { cycles<decltype(t)>(c); });
}
