// C06: at most one server runs per tensor, and a rejected one does no harm.
#include "common.hpp"
using namespace sim;
using namespace EigenIPC;

// A server of any type, driven without knowing it.
struct AnyServer { virtual ~AnyServer() {} virtual void make(int r, int q, bool verb, VLevel v, bool safe) = 0; virtual void run() = 0; virtual bool running() = 0; virtual void destroy() = 0; virtual void close() = 0; };
template <class T> struct ServerOf : AnyServer { Box<Srv<T>> b; void make(int r, int q, bool verb, VLevel v, bool safe) override { b.make(r, q, "t", "n", verb, v, false, safe); } void run() override { b->run(); } bool running() override { return (bool)b && b->isRunning(); } void destroy() override { b.destroy(); } void close() override { if (b) b->close(); } };
static std::unique_ptr<AnyServer> any(int k) { std::unique_ptr<AnyServer> r; dispatch(k, [&](auto t) { r.reset(new ServerOf<decltype(t)>); }); return r; }

struct Rival { int k, r, q, verb; bool safe; int pause1, pause2; bool close_first; };
static Rival gen_rival(Case& c, int k0, int R, int C) { Rival v; v.k = c.chance(0.5) ? (int)c.draw(8) : k0; v.r = c.chance(0.5) ? R : 1 + (int)c.draw(8); v.q = c.chance(0.5) ? C : 1 + (int)c.draw(8); v.verb = c.draw_biased(5, 0.3); v.safe = !c.chance(0.3); v.pause1 = c.draw(5); v.pause2 = c.draw(5); v.close_first = c.chance(0.3); return v; }

template <class T> static void established(Case& c, int k0) {
    using S = typename T::S; constexpr int L = T::L;
    int R = 1 + c.draw(6), C = 1 + c.draw(6), nc = c.draw(3), nr = 1 + c.draw(3), verb = c.draw_biased(5, 0.2); bool ssafe = !c.chance(0.3), run_first = c.draw(5) != 4; int cycles = c.draw_biased(3, 0.35);
    std::vector<Rival> rv; for (int i = 0; i < nr; ++i) rv.push_back(gen_rival(c, k0, R, C));
    c.note("%s %dx%d established server (safe=%d) %s, %d clients, %d rivals", tyname<T>().c_str(), R, C, ssafe, run_first ? "running" : "not run yet", nc, nr);
    for (auto& r : rv) c.note("rival of kind %d, %dx%d", r.k, r.r, r.q);
    if (run_first && cycles) c.note("stopped and run again %d times before the rivals come", cycles);
    int sp = new_process(); std::vector<int> cp; Box<Srv<T>> s; std::vector<std::unique_ptr<Box<Cli<T>>>> cl; std::vector<char> csafe;
    for (int i = 0; i < nc; ++i) { cp.push_back(new_process()); cl.emplace_back(new Box<Cli<T>>); csafe.push_back(!c.chance(0.3)); }
    Model<S> M; M.init(R, C); Case::Stream st = c.stream();
    auto fill = [&](auto& o) { Tensor<S, L> t(R, C); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) t(i, j) = rnd_val<S>(st); if (o.write(t)) { for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) M.set(i, j, t(i, j)); return true; } return false; };
    must_finish(c, solo("setup", sp, [&] {
        s.make(R, C, "t", "n", verb > 0, vlevel_of(verb - 1), false, ssafe);
        if (!run_first) return;
        s->run(); fill(*s);
        for (int i = 0; i < nc; ++i) { As as(cp[i]); cl[i]->make("t", "n", verb > 0, vlevel_of(verb - 1), csafe[i]); (*cl[i])->attach(); }
        for (int i = 0; i < cycles; ++i) { s->stop(); s->run(); }
    }), "setting up");
    int writer = c.draw(nc + 1), nops = c.draw(6), wrote = 0, rejected = 0; bool late_run = !run_first && c.chance(0.5), same_proc = c.chance(0.3);
    // one participant keeps using the tensor meanwhile; somebody may hold the data lock
    spawn("user", writer && run_first ? cp[writer - 1] : sp, [&] {
        if (!run_first) { if (late_run) { for (int i = 0; i < nops; ++i) yield("not run yet"); s->run(); } return; }
        for (int i = 0; i < nops; ++i) {
            if (i % 3 == 2) { if (writer) { (*cl[writer - 1])->dataSemAcquire(); } else s->dataSemAcquire(); yield("holding"); yield("holding"); if (writer) (*cl[writer - 1])->dataSemRelease(); else s->dataSemRelease(); continue; }
            wrote += writer ? fill(**cl[writer - 1]) : fill(*s); yield("between writes");
        }
    });
    std::vector<std::unique_ptr<AnyServer>> rs;
    for (int i = 0; i < nr; ++i) {
        rs.push_back(any(rv[i].k));
        spawn("rival" + std::to_string(i), same_proc ? sp : new_process(), [&, i] {
            Rival& v = rv[i]; bool threw = false;
            try { rs[i]->make(v.r, v.q, v.verb > 0, vlevel_of(v.verb - 1), v.safe); for (int k = 0; k < v.pause1; ++k) yield("rival constructed"); rs[i]->run(); }
            catch (std::exception&) { threw = true; }
            CHECK(threw && !rs[i]->running(), "rival %d runs on the name of the %s server", i, run_first ? "running" : "initialised");
            ++rejected;
            for (int k = 0; k < v.pause2; ++k) yield("rival rejected");
            if (v.close_first) rs[i]->close();
            rs[i]->destroy();
        });
    }
    must_finish(c, run(), "rivals against an established server");
    must_finish(c, solo("check", sp, [&] {
        if (!run_first) {
            CHECK(late_run == s->isRunning(), "the established server reports running=%d", s->isRunning());
            if (!late_run) s->run();
            CHECK(s->isRunning(), "the established server does not run anymore");
            { Tensor<S, L> t; CHECK(read_all<T>(*s, t, R, C), "the established server cannot read its tensor"); CHECK(differs<T>(*s, M).empty(), "the established server: %s", differs<T>(*s, M).c_str()); }
            fill(*s);
            for (int i = 0; i < nc; ++i) { As as(cp[i]); cl[i]->make("t", "n", false, VLevel::V0, csafe[i]); (*cl[i])->attach(); }
        }
        CHECK(s->isRunning(), "the established server does not run anymore");
        CHECK(s->getNRows() == R && s->getNCols() == C, "dimensions changed");
        CHECK(s->getNClients() == nc, "the server counts %d clients, %d are attached", s->getNClients(), nc);
        std::string d = differs<T>(*s, M); CHECK(d.empty(), "the established server: %s", d.c_str());
        for (int i = 0; i < nc; ++i) { As as(cp[i]); d = differs<T>(**cl[i], M); CHECK(d.empty(), "client %d: %s", i, d.c_str()); }
        // writes still reach everybody, also somebody who attaches only now
        { As as(new_process()); Box<Cli<T>> n; n.make("t", "n", false, VLevel::V0, true); n->attach(); CHECK(n->getNRows() == R && n->getNCols() == C, "a client attaching afterwards sees %dx%d", n->getNRows(), n->getNCols());
          d = differs<T>(*n, M); CHECK(d.empty(), "a client attaching afterwards: %s", d.c_str()); CHECK(fill(*n), "a client attaching afterwards cannot write");
          { As a2(sp); CHECK(s->getNClients() == nc + 1, "the server counts %d clients, %d are attached", s->getNClients(), nc + 1); }
          n.destroy(); }
        d = differs<T>(*s, M); CHECK(d.empty(), "after a later client's write, the established server: %s", d.c_str());
        // the data lock is there exactly once
        s->dataSemAcquire();
        for (int i = 0; i < nc; ++i) if (csafe[i]) { As as(cp[i]); Tensor<S, L> t(1, 1); CHECK(!(*cl[i])->read(t), "client %d reads although the server holds the data lock", i); }
        s->dataSemRelease();
        // a further rival is still rejected; once the server is closed, a new one runs
        { As as(new_process()); bool threw = false; auto x = any(rv[0].k); try { x->make(rv[0].r, rv[0].q, false, VLevel::V0, true); x->run(); } catch (std::exception&) { threw = true; } CHECK(threw, "a later rival runs"); x->destroy(); }
        for (int i = nc; i-- > 0;) { As as(cp[i]); cl[i]->destroy(); }
        if (rv[0].close_first) s->close(); else s.destroy();
        { As as(new_process()); auto x = any(rv[0].k); x->make(rv[0].r, rv[0].q, false, VLevel::V0, true); x->run(); CHECK(x->running(), "a new server does not run after the first was closed"); x->destroy(); }
        s.destroy();
    }), "afterwards");
    if (rejected && (wrote || late_run || nc)) c.nontrivial();
    if (!run_first) c.label("established server not run yet"); if (wrote) c.label("tensor in use meanwhile"); if (same_proc) c.label("rivals in the server's process");
}
PROPERTY(rivals, 30000, 1000000, "an established server (running, or only initialised and run meanwhile) with 0-2 clients in use against 1-3 rival servers of any type and size; everything about the established one is compared afterwards; non-trivial: a rival was rejected while the tensor was in use, clients were attached, or the server was being run") {
    Options o; o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); reset(c, o);
    int k = c.draw(8); dispatch(k, [&](auto t) { established<decltype(t)>(c, k); });
}

PROPERTY(races, 40000, 1500000, "2-4 servers of any type and size race to construct and run on a name nobody serves, in several generations, the winner of each closes after all others were rejected; non-trivial: at least one server won and one was rejected in the same generation") {
    Options o; o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); reset(c, o);
    int gens = 1 + c.draw(3); bool mix = false;
    for (int g = 0; g < gens; ++g) {
        int n = 2 + c.draw(3), winners = 0, tried = 0, running = 0, lost = 0; std::vector<Rival> rv; std::vector<std::unique_ptr<AnyServer>> rs;
        bool one_proc = c.chance(0.2); int p0 = new_process();
        for (int i = 0; i < n; ++i) { rv.push_back(gen_rival(c, c.draw(8), 2, 3)); rs.push_back(any(rv[i].k)); c.note("generation %d: server %d of kind %d, %dx%d", g, i, rv[i].k, rv[i].r, rv[i].q); }
        for (int i = 0; i < n; ++i) spawn("server" + std::to_string(i), one_proc ? p0 : new_process(), [&, i] {
            Rival& v = rv[i]; bool threw = false;
            for (int k = 0; k < v.pause2; ++k) yield("before");
            try { rs[i]->make(v.r, v.q, v.verb > 0, vlevel_of(v.verb - 1), v.safe); for (int k = 0; k < v.pause1; ++k) yield("constructed"); rs[i]->run(); }
            catch (std::exception&) { threw = true; }
            if (threw) { ++tried; ++lost; rs[i]->destroy(); return; }
            CHECK(rs[i]->running(), "server %d was run without exception, but does not run", i);
            ++running; ++winners; CHECK(running == 1, "server %d runs while another one does", i);
            ++tried; wait_until([&] { return tried == n; }, "all servers tried");
            CHECK(rs[i]->running(), "server %d stopped running by itself", i);
            --running; if (v.close_first) rs[i]->close(); rs[i]->destroy();
        });
        must_finish(c, run(), "servers racing for a name");
        CHECK(winners <= 1, "%d servers ran", winners);
        if (winners && lost) mix = true;
    }
    must_finish(c, solo("last", new_process(), [&] { auto x = any(0); x->make(2, 2, false, VLevel::V0, true); x->run(); CHECK(x->running(), "no server can run on the name after all others were closed"); x->destroy(); }), "a last server");
    if (mix) c.nontrivial();
}
