// C04: the manual data lock is exclusive, and never lost or doubled.
#include "common.hpp"
using namespace sim;
using namespace EigenIPC;
typedef Ty<int, RowMajor> T;
typedef Srv<T> S; typedef Cli<T> C;

enum Step { LOCK, READ, WRITE, REATTACH, CLOSE_ATTACH, STOPRUN, MISMATCH, RIVAL, COUNT };
static const char* stepname[] = {"critical section", "read", "write", "detach and attach", "close and attach", "stop and run", "mismatching client", "rival server", "ask for the client count"};

static void world(Case& c, bool sequential_history) {
    int nc = 1 + c.draw(3), verb = c.draw_biased(5, 0.15); bool rivals = c.chance(0.3);
    std::vector<char> safe; for (int i = 0; i <= nc; ++i) safe.push_back(!c.chance(0.4));
    struct St { Step s; int a, b; };
    std::vector<std::vector<St>> plan(nc + 1); int nsec = 0;
    std::vector<std::pair<int, St>> seq;
    auto gen = [&](int w) {
        Step s; switch (c.weighted({10, 4, 4, 3, 2, 3, 2, 2, 1})) { case 0: s = LOCK; break; case 1: s = READ; break; case 2: s = WRITE; break; case 3: s = w ? REATTACH : LOCK; break; case 4: s = w ? CLOSE_ATTACH : LOCK; break;
            case 5: s = w ? READ : (rivals ? LOCK : STOPRUN); break; case 6: s = MISMATCH; break; case 7: s = rivals ? RIVAL : WRITE; break; default: s = w ? LOCK : COUNT; }
        St st{s, (int)c.draw(4), (int)c.draw(3)}; nsec += s == LOCK; return st;
    };
    int nsteps = sequential_history ? 3 + c.draw(c.tier_ ? 30 : 14) : 0;
    for (int i = 0; i < nsteps; ++i) { int w = c.draw(nc + 1); seq.push_back({w, gen(w)}); }
    if (!sequential_history) for (int w = 0; w <= nc; ++w) for (int i = 1 + c.draw(4); i-- > 0;) plan[w].push_back(gen(w));
    c.note("%d clients; safe:", nc); for (int w = 0; w <= nc; ++w) c.note("%s %s", w ? ("client " + std::to_string(w)).c_str() : "server", safe[w] ? "safe" : "unsafe");
    for (auto& e : seq) c.note("participant %d: %s", e.first, stepname[e.second.s]);
    for (int w = 0; w <= nc; ++w) for (auto& e : plan[w]) c.note("participant %d: %s", w, stepname[e.s]);
    const int R = 2, Cc = c.pick(std::vector<int>{1, 1100});
    int sp = new_process(), op = new_process(); std::vector<int> cp; Box<S> s; Box<C> peek; std::vector<std::unique_ptr<Box<C>>> cl;
    for (int i = 0; i < nc; ++i) { cp.push_back(new_process()); cl.emplace_back(new Box<C>); }
    must_finish(c, solo("setup", sp, [&] {
        s.make(R, Cc, "t", "n", verb > 0, vlevel_of(verb - 1), false, safe[0]); s->run();
        { As as(op); peek.make("t", "n", false, VLevel::V0, false); peek->attach(); }
        for (int i = 0; i < nc; ++i) { As as(cp[i]); cl[i]->make("t", "n", verb > 0, vlevel_of(verb - 1), safe[i + 1]); (*cl[i])->attach(); }
    }), "setting up");
    int holder = -1; long sections = 0; long clk = 0, held_since = 0; int contended = 0, lifecycle = 0; bool stopped = false;
    auto acquire = [&](int w) { if (w == 0) s->dataSemAcquire(); else (*cl[w - 1])->dataSemAcquire(); };
    auto release = [&](int w) { if (w == 0) s->dataSemRelease(); else (*cl[w - 1])->dataSemRelease(); };
    // the tensor's two rows are equal except inside critical sections
    auto raw = [&](int r) { Tensor<int> t(1, 1); As as(op); CHECK(peek->read(t, r, 0), "the observer cannot read"); return (int)t(0, 0); };
    auto rawset = [&](int r, int v) { Tensor<int> t(1, 1); t(0, 0) = v; As as(op); CHECK(peek->write(t, r, 0), "the observer cannot write"); };
    auto unsafe_race = [&](int w) { return !safe[w]; };
    auto step = [&](int w, St st) {
        switch (st.s) {
        case LOCK: {
            bool was = holder != -1; acquire(w); contended += was;
            CHECK(holder == -1, "participant %d acquired the data lock while participant %d holds it", w, holder);
            holder = w; held_since = ++clk; ++sections;
            int v = raw(0), u = raw(1); CHECK(v == u, "participant %d acquired the data lock inside another one's section or write: rows hold %d and %d", w, v, u);
            rawset(0, v + 1);
            for (int i = 0; i < st.a; ++i) yield("in the critical section");
            if (st.b == 1 && sequential_history == false) sleep_ms(1);
            int v2 = raw(0), u2 = raw(1);
            CHECK(v2 == v + 1 && u2 == u, "while participant %d held the data lock, the tensor was changed: rows %d,%d -> %d,%d", w, v + 1, u, v2, u2);
            rawset(1, v + 1);
            CHECK(holder == w, "participant %d's lock was taken by participant %d", w, holder);
            holder = -1; ++clk; release(w); break; }
        case READ: case WRITE: {
            Tensor<int> t(R, Cc); if (unsafe_race(w)) break;   // unsafe objects do not respect the lock
            long inv = clk; int h0 = holder; bool ok;
            t.setConstant(st.s == WRITE ? 1000 + (int)(clk % 7) * 10 + w : -1);
            if (st.s == WRITE) ok = w == 0 ? s->write(t) : (*cl[w - 1])->write(t); else ok = w == 0 ? s->read(t) : (*cl[w - 1])->read(t);
            if (ok) {
                CHECK(!(h0 != -1 && h0 == holder && clk == inv), "participant %d's safe %s succeeded while participant %d held the data lock all the time", w, stepname[st.s], h0);
                if (st.s == READ) CHECK(t(0, 0) == t(1, 0), "participant %d's safe read saw the inside of a critical section: %d and %d", w, (int)t(0, 0), (int)t(1, 0));
            } else ++contended;
            break; }
        case REATTACH: { bool was = holder != -1; (*cl[w - 1])->detach(); (*cl[w - 1])->attach(); contended += was; ++lifecycle; break; }
        case CLOSE_ATTACH: (*cl[w - 1])->close(); (*cl[w - 1])->attach(); ++lifecycle; break;
        case STOPRUN: s->stop(); stopped = true; yield("stopped"); s->run(); stopped = false; ++lifecycle; break;
        case MISMATCH: {
            Box<Cli<Ty<float, RowMajor>>> m1; Box<Cli<Ty<int, ColMajor>>> m2; bool threw = false; int p = process(); (void)p; ++lifecycle;
            try { if (st.b == 0) { m1.make("t", "n", verb > 0, vlevel_of(verb - 1), true); m1->attach(); } else { m2.make("t", "n", verb > 0, vlevel_of(verb - 1), true); m2->attach(); } } catch (std::exception&) { threw = true; }
            CHECK(threw, "a client of another %s attached", st.b == 0 ? "type" : "layout");
            m1.destroy(); m2.destroy(); break; }
        case RIVAL: {
            As as(new_process()); Box<S> r; bool threw = false; ++lifecycle;
            try { r.make(R, Cc, "t", "n", verb > 0, vlevel_of(verb - 1), false, true); } catch (std::exception&) { threw = true; }
            CHECK(threw, "a second server was constructed on the name of a running server");
            r.destroy(); break; }
        case COUNT: s->getNClients(); break;
        }
    };
    if (sequential_history) {
        must_finish(c, solo("history", sp, [&] { for (auto& e : seq) { As as(e.first ? cp[e.first - 1] : sp); step(e.first, e.second); } }), "history");
    } else {
        for (int w = 0; w <= nc; ++w) spawn(w ? "client" + std::to_string(w) : "server", w ? cp[w - 1] : sp, [&, w] { for (auto& e : plan[w]) step(w, e); });
        must_finish(c, run(), "lock program");
    }
    // the lock is available exactly once
    int second = c.draw(nc + 1), first = (second + 1 + c.draw(nc)) % (nc + 1); bool got2 = false, released = false;
    int t1 = spawn("first", first ? cp[first - 1] : sp, [&] {
        acquire(first);
        for (int w = 0; w <= nc; ++w) if (safe[w]) { As as(w ? cp[w - 1] : sp); Tensor<int> t(1, 1); bool ok = w == 0 ? s->read(t) : (*cl[w - 1])->read(t); CHECK(!ok, "finally: participant %d reads although participant %d holds the data lock", w, first); }
        sleep_ms(20); CHECK(!got2, "finally: participants %d and %d both hold the data lock", first, second);
        released = true; release(first);
    });
    int t2 = spawn("second", second ? cp[second - 1] : sp, [&] { sleep_ms(5); acquire(second); CHECK(released, "finally: participant %d acquired the data lock while participant %d held it", second, first); got2 = true; release(second); });
    (void)t1; (void)t2;
    must_finish(c, run(), "finally acquiring the data lock in turn");
    must_finish(c, solo("after", sp, [&] { for (int w = 0; w <= nc; ++w) if (safe[w]) { As as(w ? cp[w - 1] : sp); Tensor<int> t(1, 1); CHECK(w == 0 ? s->read(t) : (*cl[w - 1])->read(t), "finally: participant %d is refused although the data lock is free", w); } }), "reading finally");
    if (nsec >= 1 && (contended || lifecycle)) c.nontrivial();
    if (contended) c.label("contention"); if (lifecycle) c.label("lifecycle calls in between"); if (rivals) c.label("rival servers");
    solo("teardown", sp, [&] { for (int i = nc; i-- > 0;) { As as(cp[i]); cl[i]->destroy(); } { As as(op); peek.destroy(); } s.destroy(); });
}
PROPERTY(lock_programs, 50000, 2000000, "concurrent programs of critical sections, safe reads/writes, detach/attach, close, stop/run, mismatching clients and rival servers; non-trivial: a critical section together with contention or a lifecycle call") {
    Options o; o.page_yield = c.chance(0.4); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); reset(c, o); world(c, false);
}
PROPERTY(lock_histories, 45000, 2000000, "sequential histories of the same operations, ended by a hand-over between two participants; non-trivial: a critical section together with a lifecycle call") {
    reset(c); world(c, true);
}

// one call after the other, with the answer of every safe read and write predicted; the server may be alone, and
// may stop and run again inside its own critical section
static void model_history(Case& c) {
    int nc = c.draw(3), verb = c.draw_biased(5, 0.15), n = 4 + c.draw(c.tier_ ? 60 : 24);
    enum { ACQ, REL, STOP, RUN, RD, WR, ATT, DET, CLO, CNT }; static const char* nm[] = {"acquires", "releases", "stops", "runs", "reads", "writes", "attaches", "detaches", "closes", "asks for the client count"};
    int sp = new_process(); std::vector<int> cp; Box<S> s; std::vector<std::unique_ptr<Box<C>>> cl; std::vector<char> att(nc + 1, 0), safe(nc + 1, 1);
    for (int i = 0; i < nc; ++i) { cp.push_back(new_process()); cl.emplace_back(new Box<C>); } for (auto& x : safe) x = !c.chance(0.2);
    c.note("%d clients", nc); for (int w = 0; w <= nc; ++w) if (!safe[w]) c.note("participant %d is unsafe", w);
    int holder = -1, sections = 0, lifecycle = 0, refused = 0; bool running = true;
    must_finish(c, solo("history", sp, [&] {
        s.make(2, 3, "t", "n", verb > 0, vlevel_of(verb - 1), false, safe[0]); s->run(); att[0] = 1;
        for (int i = 0; i < nc; ++i) { As as(cp[i]); cl[i]->make("t", "n", verb > 0, vlevel_of(verb - 1), safe[i + 1]); if (c.chance(0.3)) { (*cl[i])->attach(); att[i + 1] = 1; } }
        auto rw = [&](int w, bool wr) { Tensor<int> t(2, 3); t.setConstant(w + 1); As as(w ? cp[w - 1] : sp); return w == 0 ? (wr ? s->write(t) : s->read(t)) : (wr ? (*cl[w - 1])->write(t) : (*cl[w - 1])->read(t)); };
        auto probe = [&] {
            for (int w = 0; w <= nc; ++w) if (att[w] && safe[w] && (w || running)) { bool ok = rw(w, false); refused += !ok;
                if (holder >= 0) CHECK(!ok, "participant %d reads while participant %d holds the data lock", w, holder); else CHECK(ok, "participant %d is refused although nobody holds the data lock", w); } };
        for (int i = 0; i < n; ++i) {
            int w = c.chance(0.5) ? 0 : (int)c.draw(nc + 1), op;
            switch (c.weighted({8, 8, 4, 4, 3, 3, 3, 2, 1, 1})) { case 0: op = ACQ; break; case 1: op = REL; break; case 2: op = w ? ACQ : STOP; break; case 3: op = w ? REL : RUN; break; case 4: op = RD; break; case 5: op = WR; break;
                case 6: op = w ? ATT : RUN; break; case 7: op = w ? DET : STOP; break; case 8: op = w ? CLO : ACQ; break; default: op = w ? RD : CNT; }
            // calls that would wait for the lock, or that are not for this participant now
            if (op == ACQ && (holder >= 0 || !att[w] || !running)) continue;
            if (op == REL && holder != w) continue;
            if ((op == RD || op == WR) && (!att[w] || !(w || running))) continue;
            if (op == ATT && (holder >= 0 || att[w] || !running)) continue;
            if ((op == DET || op == CLO) && (holder >= 0 || !att[w])) continue;
            if (op == CNT && holder >= 0) continue;
            c.note("participant %d %s", w, nm[op]); As as(w ? cp[w - 1] : sp);
            switch (op) {
            case ACQ: if (w) (*cl[w - 1])->dataSemAcquire(); else s->dataSemAcquire(); holder = w; ++sections; break;
            case REL: if (w) (*cl[w - 1])->dataSemRelease(); else s->dataSemRelease(); holder = -1; break;
            case STOP: s->stop(); running = false; lifecycle += holder >= 0; break;
            case RUN: s->run(); running = true; lifecycle += holder >= 0; break;
            case RD: case WR: { bool ok = rw(w, op == WR); if (safe[w]) CHECK(ok == (holder < 0), "participant %d's %s returned %d; the data lock is held by %d", w, op == WR ? "write" : "read", ok, holder); break; }
            case ATT: (*cl[w - 1])->attach(); att[w] = 1; break;
            case DET: (*cl[w - 1])->detach(); att[w] = 0; break;
            case CLO: (*cl[w - 1])->close(); att[w] = 0; break;
            case CNT: { int k = 0; for (int j = 1; j <= nc; ++j) k += att[j]; CHECK(s->getNClients() == k, "the server counts other than %d clients", k); break; }
            }
            probe();
        }
        if (holder >= 0) { As as(holder ? cp[holder - 1] : sp); if (holder) (*cl[holder - 1])->dataSemRelease(); else s->dataSemRelease(); holder = -1; probe(); }
        if (!running) s->run();
        // free exactly once
        s->dataSemAcquire(); Tensor<int> t(2, 3); if (safe[0]) CHECK(!s->read(t), "finally: the server reads although it holds the data lock"); s->dataSemRelease(); if (safe[0]) CHECK(s->read(t), "finally: the server is refused");
        for (int i = nc; i-- > 0;) { As as(cp[i]); cl[i]->destroy(); } s.destroy();
    }), "history");
    if (sections && (refused || lifecycle)) c.nontrivial();
    if (lifecycle) c.label("stop or run inside a critical section"); if (!nc) c.label("server alone");
}
PROPERTY(lock_model, 40000, 1500000, "sequential histories of acquiring, releasing, stopping and running (also inside the critical section), attaching, leaving and counting by a server and 0-2 clients, every participant's safe read predicted after every call; non-trivial: a critical section in which a read was refused or the server stopped or ran") {
    reset(c); model_history(c);
}

// A signal may interrupt a participant which waits for the lock: its call throws, or it returns holding the lock.
PROPERTY(interrupted, 12000, 500000, "a server and 1-3 clients entering critical sections, some of whose calls (acquiring, safe reads and writes) are interrupted by a signal while the lock is free or held: whoever's call returned holds the lock alone, nobody else does, and finally the lock is free exactly once; non-trivial: an acquiring call was interrupted") {
    Options o; o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); reset(c, o);
    int nc = 1 + c.draw(3), verb = c.draw_biased(5, 0.2), cut = 0, threw = 0, contended = 0;
    int sp = new_process(), op = new_process(); std::vector<int> pr{sp}; Box<S> s; Box<C> peek; std::vector<std::unique_ptr<Box<C>>> cl;
    for (int i = 0; i < nc; ++i) { pr.push_back(new_process()); cl.emplace_back(new Box<C>); }
    must_finish(c, solo("setup", sp, [&] {
        s.make(2, 1, "t", "n", verb > 0, vlevel_of(verb - 1), false, true); s->run();
        { As as(op); peek.make("t", "n", false, VLevel::V0, false); peek->attach(); }
        for (int i = 0; i < nc; ++i) { As as(pr[i + 1]); cl[i]->make("t", "n", verb > 0, vlevel_of(verb - 1), true); (*cl[i])->attach(); }
    }), "setting up");
    struct St { int kind; bool sig; int stay; }; std::vector<std::vector<St>> plan(nc + 1);
    for (int w = 0; w <= nc; ++w) { for (int i = 1 + c.draw(4); i-- > 0;) plan[w].push_back({c.weighted({5, 1, 1}), c.chance(0.5), (int)c.draw(4)}); for (auto& e : plan[w]) c.note("participant %d: %s%s", w, e.kind == 0 ? "critical section" : e.kind == 1 ? "safe read" : "safe write", e.sig ? ", interrupted" : ""); }
    int holder = -1; long clk = 0; Tensor<int> one(1, 1);
    auto acquire = [&](int w) { if (w == 0) s->dataSemAcquire(); else (*cl[w - 1])->dataSemAcquire(); };
    auto release = [&](int w) { if (w == 0) s->dataSemRelease(); else (*cl[w - 1])->dataSemRelease(); };
    auto rw = [&](int w, bool wr, Tensor<int>& t) { return w == 0 ? (wr ? s->write(t) : s->read(t)) : (wr ? (*cl[w - 1])->write(t) : (*cl[w - 1])->read(t)); };
    auto section = [&](int w, St e) {
        for (bool sig = e.sig;; sig = false) {
            bool got = true, was = holder >= 0; if (sig) fault_at(pr[w], 1, 0);
            try { acquire(w); } catch (std::exception&) { got = false; }
            bool fired = sig && fault_fired(pr[w]); if (sig) clear_fault(pr[w]); cut += fired; contended += was;
            if (got) break;
            CHECK(fired, "participant %d's acquiring call threw although no signal interrupted it", w); ++threw;
            c.note("participant %d's interrupted acquiring call threw", w);
        }
        CHECK(holder == -1, "participant %d's acquiring call returned while participant %d holds the data lock", w, holder);
        holder = w; ++clk; Tensor<int> t(2, 1); { As as(op); CHECK(peek->read(t), "the observer cannot read"); }
        CHECK(t(0, 0) == t(1, 0), "participant %d acquired the data lock inside another one's section or write: rows hold %d and %d", w, (int)t(0, 0), (int)t(1, 0));
        int v = t(0, 0); t.setConstant(v); t(0, 0) = v + 1; { As as(op); peek->write(t); }
        for (int i = 0; i < e.stay; ++i) yield("in the critical section");
        if (e.stay == 3) sleep_ms(1);
        Tensor<int> u(2, 1); { As as(op); peek->read(u); } CHECK(u(0, 0) == v + 1 && u(1, 0) == v, "while participant %d held the data lock, the tensor was changed", w);
        t.setConstant(v + 1); { As as(op); peek->write(t); } CHECK(holder == w, "participant %d's lock was taken by participant %d", w, holder); holder = -1; ++clk; release(w);
    };
    auto access = [&](int w, St e) {
        Tensor<int> t(2, 1); t.setConstant(100 * w + (int)clk % 50); int h0 = holder; long inv = clk; bool ok = false, thrown = false; if (e.sig) fault_at(pr[w], 1, 0);
        try { ok = rw(w, e.kind == 2, t); } catch (std::exception&) { thrown = true; }
        bool fired = e.sig && fault_fired(pr[w]); if (e.sig) clear_fault(pr[w]);
        CHECK(fired || !thrown, "participant %d's safe access threw although no signal interrupted it", w);
        if (ok) { CHECK(!(h0 != -1 && h0 == holder && clk == inv), "participant %d's safe access succeeded while participant %d held the data lock all the time", w, h0);
            if (e.kind == 1) CHECK(t(0, 0) == t(1, 0), "participant %d's safe read saw the inside of a critical section", w); }
    };
    for (int w = 0; w <= nc; ++w) spawn(w ? "client" + std::to_string(w) : "server", pr[w], [&, w] { for (auto& e : plan[w]) if (e.kind == 0) section(w, e); else access(w, e); });
    must_finish(c, run(), "interrupted lock program");
    must_finish(c, solo("after", sp, [&] {
        for (int h = 0; h <= nc; ++h) { { As as(pr[h]); acquire(h); }
            for (int w = 0; w <= nc; ++w) { As as(pr[w]); Tensor<int> t(2, 1); CHECK(!rw(w, false, t), "finally: participant %d reads although participant %d holds the data lock", w, h); }
            As as(pr[h]); release(h); }
        for (int w = 0; w <= nc; ++w) { As as(pr[w]); Tensor<int> t(2, 1); CHECK(rw(w, false, t), "finally: participant %d is refused although the data lock is free", w); }
    }), "using the data lock finally");
    if (cut) c.nontrivial(); if (contended) c.label("contention"); if (threw) c.label("an interrupted call threw");
    solo("teardown", sp, [&] { for (int i = nc; i-- > 0;) { As as(pr[i + 1]); cl[i]->destroy(); } { As as(op); peek.destroy(); } s.destroy(); });
}
