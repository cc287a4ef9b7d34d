// C13: a failing system call during set-up surfaces as an exception (or is coped with), harmlessly.
#include "common.hpp"
#include <EigenIPC/StringTensor.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
using namespace sim;
using namespace EigenIPC;

enum Step { CONSTRUCT, RUN, CONSTRUCT_RUN, RERUN, ATTACH, REATTACH, NSTEP };
static const char* stepname[] = {"constructing a server", "running a server", "constructing and running a server", "running a stopped server again", "attaching a client", "attaching a client again"};

template <class T> struct Ctx {
    using S = typename T::S; static constexpr int L = T::L;
    Case& c; int R, C; Box<Srv<T>>* s = nullptr; int sp; std::vector<std::unique_ptr<Box<Cli<T>>>> cl; std::vector<int> cp; std::vector<char> safe; Model<S> M; Case::Stream st;
    // all participants see each other's writes, are counted, and share one free lock
    void works(const char* when) {
        int m = (int)cl.size(); As as(sp); Srv<T>& srv = **s;
        CHECK2(srv.isRunning(), "the server does not run", when);
        CHECK2(srv.getNRows() == R && srv.getNCols() == C, "the server's dimensions are wrong", when);
        for (int i = 0; i < m; ++i) { CHECK2((*cl[i])->isAttached(), "a client is not attached", when); CHECK2((*cl[i])->getNRows() == R && (*cl[i])->getNCols() == C, "a client sees other dimensions", when); }
        int n = srv.getNClients(); if (n != m) c.fail("%s: the server counts %d clients, %d are attached", when, n, m);
        for (int w = 0; w <= m; ++w) { As a(w ? cp[w - 1] : sp); std::string d = w ? differs<T>(**cl[w - 1], M) : differs<T>(srv, M); if (!d.empty()) c.fail("%s: participant %d: %s", when, w, d.c_str()); }
        for (int w = 0; w <= m; ++w) {
            As a(w ? cp[w - 1] : sp); fill(w, when);
            for (int v = 0; v <= m; ++v) { As b(v ? cp[v - 1] : sp); std::string d = v ? differs<T>(**cl[v - 1], M) : differs<T>(srv, M); if (!d.empty()) c.fail("%s: after participant %d's write, participant %d: %s", when, w, v, d.c_str()); }
        }
        for (int w = 0; w <= m; ++w) {
            As a(w ? cp[w - 1] : sp); if (w) (*cl[w - 1])->dataSemAcquire(); else srv.dataSemAcquire();
            for (int v = 0; v < m; ++v) if (safe[v]) { As b(cp[v]); Tensor<S, L> t(1, 1); if ((*cl[v])->read(t)) c.fail("%s: client %d reads although participant %d holds the data lock", when, v, w); }
            if (w) (*cl[w - 1])->dataSemRelease(); else srv.dataSemRelease();
        }
    }
    void fill(int w, const char* when) { Tensor<S, L> t(R, C); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { t(i, j) = rnd_val<S>(st); M.set(i, j, t(i, j)); } if (!(w ? (*cl[w - 1])->write(t) : (*s)->write(t))) c.fail("%s: participant %d's write was refused", when, w); }
    void CHECK2(bool b, const char* what, const char* when) { if (!b) c.fail("%s: %s", when, what); }
};

template <class T> static void faulty(Case& c) {
    using S = typename T::S; constexpr int L = T::L; (void)L;
    Step step = (Step)c.weighted({5, 2, 5, 1, 6, 2}); long at = 1 + (pbt::g_index % 44); int sel = c.draw(6), verb = c.draw_biased(5, 0.3);
    if (step == RUN || step == RERUN) at = 1;
    bool server_step = step <= CONSTRUCT_RUN, force = server_step && c.chance(0.3), safe = !c.chance(0.3), same_object = c.chance(0.3), leftover = server_step && c.chance(0.3), waiting = server_step && c.chance(0.3), rival = server_step && !force && !leftover && !waiting && c.chance(0.25), busy = c.chance(0.4);
    int R = 1 + c.draw(5), C = c.pick(std::vector<int>{1, 3, 1100}), m = server_step && !rival ? 0 : c.draw(3);
    c.note("%s: %s of a %dx%d tensor, call %ld fails (kind %d)%s%s%s%s; %d established clients", tyname<T>().c_str(), stepname[step], R, C, at, sel, force ? ", forcing" : "", leftover ? ", on a name used before" : "", waiting ? ", a client is waiting" : "", rival ? ", while another server runs" : "", m);
    int sp = new_process(), fp = step == RERUN ? sp : new_process();
    Box<Srv<T>> est, n, retry; Box<Cli<T>> fc, wc; Ctx<T> x{c, R, C, nullptr, sp, {}, {}, {}, {}, c.stream()}; x.M.init(R, C);
    for (int i = 0; i < m; ++i) { x.cl.emplace_back(new Box<Cli<T>>); x.cp.push_back(new_process()); x.safe.push_back(!c.chance(0.3)); }
    bool established = !server_step || rival;
    if (established) must_finish(c, solo("setup", sp, [&] {
        est.make(R, C, "t", "n", false, VLevel::V0, false, true); est->run(); x.s = &est;
        for (int i = 0; i < m; ++i) { As a(x.cp[i]); x.cl[i]->make("t", "n", false, VLevel::V0, x.safe[i]); (*x.cl[i])->attach(); }
        x.fill(0, "set-up");
        if (step == REATTACH) { As a(fp); fc.make("t", "n", verb > 0, vlevel_of(verb - 1), safe); fc->attach(); if (sel & 1) fc->detach(); else fc->close(); }
        if (step == RERUN) est->stop();
    }), "setting up");
    else if (leftover) must_finish(c, solo("setup", sp, [&] { Box<Srv<T>> o; o.make(R + 1, C + 1, "t", "n", false, VLevel::V0, false, true); o->run(); { As a(new_process()); Box<Cli<T>> k; k.make("t", "n", false, VLevel::V0, true); k->attach(); Tensor<S, T::L> t(R + 1, C + 1); t.setConstant((S)1); k->write(t); k.destroy(); } o.destroy(); }), "setting up");
    int wproc = new_process(), wt = -1; bool wdone = false;
    if (waiting) wt = spawn("waiting client", wproc, [&] { wc.make("t", "n", false, VLevel::V0, true); wc->attach(); wdone = true; });
    bool threw = false, fired = false; std::string why, ftext; int done = 0;
    auto faulted = [&] {
        if (waiting) for (int i = c.draw(6); i-- > 0;) yield("before the fault");
        fault_at(fp, at, sel);
        try {
            switch (step) {
                case CONSTRUCT: n.make(R, C, "t", "n", verb > 0, vlevel_of(verb - 1), force, safe); break;
                case RUN: clear_fault(fp); n.make(R, C, "t", "n", verb > 0, vlevel_of(verb - 1), force, safe); fault_at(fp, at, sel); n->run(); break;
                case CONSTRUCT_RUN: n.make(R, C, "t", "n", verb > 0, vlevel_of(verb - 1), force, safe); n->run(); break;
                case RERUN: est->run(); break;
                case ATTACH: fc.make("t", "n", verb > 0, vlevel_of(verb - 1), safe); fc->attach(); break;
                default: fc->attach();
            }
        } catch (std::exception& e) { threw = true; why = e.what(); }
        fired = fault_fired(fp); ftext = fault_text(fp); clear_fault(fp); ++done;
    };
    spawn("faulty", fp, faulted);
    // others go on meanwhile
    if (established && busy && step != RERUN) { spawn("user", sp, [&] { for (int i = 0; i < 3; ++i) { Tensor<S, T::L> t(1, 1); est->read(t); est->dataSemAcquire(); yield("holding"); est->dataSemRelease(); } }); }
    if (waiting) { spawn("guard", new_process(), [&] { wait_until([&] { return done > 0; }, "fault over"); if (threw || step == CONSTRUCT) { if (wt >= 0) CHECK(!wdone, "a client attached although no server runs"); } }); }
    limit_vtime(waiting ? 30 : 5000); End e = run(); limit_vtime(5000);
    CHECK(done == 1, "%s %s although only this failed: %s\n%s", stepname[step], e == End::Deadlock ? "blocks forever" : "does not end", ftext.c_str(), report().c_str());
    c.note("%s -> %s", fired ? ftext.c_str() : "no call failed", threw ? "exception" : "completed");
    if (fired) { c.nontrivial(); c.label(threw ? "exception" : "coped with"); } else if (!rival) CHECK(!threw, "no call failed, but %s threw: %s", stepname[step], why.c_str());
    if (rival) { CHECK(threw || (step == CONSTRUCT), "a second server runs on the name of a running one"); c.label("second server"); }
    // the aftermath
    bool server_ok = server_step && !threw && !rival;
    auto aftermath = [&] {
        if (threw) {
            // the failed object releases what it acquired
            if (same_object && (step == RERUN)) { est->run(); c.label("repeated with the same object"); }
            if (step == RERUN && !est->isRunning()) { for (int i = m; i-- > 0;) { As a(x.cp[i]); std::string d = differs<T>(**x.cl[i], x.M); CHECK(d.empty(), "after the failed run, client %d: %s", i, d.c_str()); } est->run(); }
            if (server_step) { As a(fp); if (same_object && n) n->close(); n.destroy(); }
            else if (step != RERUN) { As a(fp); CHECK(!fc->isAttached(), "attach threw (%s), but the client reports being attached", why.c_str()); Tensor<S, T::L> t(1, 1); t.setZero(); CHECK(!fc->write(t) && !fc->read(t), "a client whose attach threw reads or writes"); if (same_object) fc->close(); fc.destroy(); }
            if (step != RERUN) { Res r = resources(fp); CHECK(r.fds == 0 && r.maps == 0 && r.sems == 0, "after %s failed (%s) and the object was destroyed, the process still holds: %s", stepname[step], ftext.c_str(), resources_text(fp).c_str()); }
        }
        if (rival) { As a(fp); n.destroy(); }
        if (established) {
            if (!threw && (step == ATTACH || step == REATTACH)) { x.cl.emplace_back(new Box<Cli<T>>(std::move(fc))); x.cp.push_back(fp); x.safe.push_back(safe); }
            x.works(threw ? "after the failure" : "after the step completed");
        } else if (server_ok) {
            x.s = &n; x.sp = fp; As a(fp); if (step == CONSTRUCT) n->run();
        } else { // the same step succeeds with a fresh object now
            x.s = &retry; As a(sp); retry.make(R, C, "t", "n", false, VLevel::V0, false, true); retry->run();
        }
    };
    must_finish(c, solo("aftermath", sp, aftermath), "afterwards");
    if (waiting) {
        // a client waiting all the time meets the server
        if (!wdone && wt >= 0) must_finish(c, run(), "the waiting client after the server came up");
        CHECK(wdone, "the waiting client did not attach"); x.cl.emplace_back(new Box<Cli<T>>(std::move(wc))); x.cp.push_back(wproc); x.safe.push_back(1);
    }
    must_finish(c, solo("use", x.sp, [&] {
        if (!established) x.works(server_ok ? "after the construction completed" : "after the construction was repeated");
        // fresh clients attach now
        for (int i = 0; i < 2; ++i) { x.cp.push_back(new_process()); x.cl.emplace_back(new Box<Cli<T>>); x.safe.push_back(1); { As a(x.cp.back()); x.cl.back()->make("t", "n", false, VLevel::V0, true); (*x.cl.back())->attach(); } x.works("with a client attached later"); }
        for (size_t i = x.cl.size(); i-- > 0;) { As a(x.cp[i]); x.cl[i]->destroy(); Res r = resources(x.cp[i]); CHECK(r.fds == 0 && r.maps == 0 && r.sems == 0, "a destroyed client's process still holds: %s", resources_text(x.cp[i]).c_str()); }
        x.cl.clear(); x.cp.clear(); x.safe.clear(); x.works("after all clients left");
        { As a(x.sp); x.s->destroy(); Res r = resources(x.sp); CHECK(r.fds == 0 && r.maps == 0 && r.sems == 0, "the destroyed server's process still holds: %s", resources_text(x.sp).c_str()); }
        { As a(new_process()); Box<Srv<T>> z; z.make(1, 1, "t", "n", false, VLevel::V0, false, true); z->run(); CHECK(z->isRunning(), "no new server runs after the end"); z.destroy(); }
    }), "using the tensor afterwards");
}
PROPERTY(single_faults, 30000, 2500000, "one system call (its position enumerated by the case index, the error drawn) fails while a server is constructed or run (plain or forcing, on a fresh or used name, with a waiting client or an established server) or while a client attaches (with other clients and a busy lock); handles, lock, content and count are checked afterwards and the step is repeated; non-trivial: the fault did occur") {
    Options o; o.p_switch = c.pick(std::vector<double>{0.2, 0.05, 0.6}); o.max_vtime_ms = 5000; reset(c, o);
    dispatch(c.draw(8), [&](auto t) { faulty<decltype(t)>(c); });
}

// a wait interrupted by a signal must not keep anybody from leaving
PROPERTY(interrupted_leaving, 24000, 800000, "a client, string client or consumer detaches, closes or is destroyed while another participant works with the lock, and one of its waits is interrupted by a signal: it must complete, release everything and be counted out, and the others work on; non-trivial: a wait was interrupted") {
    Options o; o.p_switch = c.pick(std::vector<double>{0.2, 0.5}); o.max_vtime_ms = 5000; reset(c, o);
    int kind = c.weighted({6, 2, 2}), how = c.draw(3), verb = c.draw_biased(5, 0.3), m = kind == 2 ? 0 : c.draw(3); long at = 1 + c.draw(kind == 2 ? 2 : 1); bool busy = c.chance(0.6);
    const char* kinds[] = {"client", "string client", "consumer"}; const char* hows[] = {"detaches or closes", "closes", "is destroyed"};
    c.note("a %s %s, wait %ld is interrupted, %d others%s", kinds[kind], hows[how], at, m, busy ? ", one works with the lock" : "");
    int sp = new_process(), fp = new_process(); bool v = verb > 0; VLevel vl = vlevel_of(verb - 1);
    Box<Server<int>> s; Box<Client<int>> k; std::vector<std::unique_ptr<Box<Client<int>>>> others; std::vector<int> op; Box<StringTensor<StrServer>> ss; Box<StringTensor<StrClient>> sc; Box<Producer> p; Box<Consumer> co;
    must_finish(c, solo("setup", sp, [&] {
        if (kind == 0) { s.make(2, 3, "t", "n", false, VLevel::V0, false, true); s->run(); }
        else if (kind == 1) { ss.make(2, "t", "n", false, VLevel::V0, false, true); ss->run(); }
        else { p.make("t", "n", false, VLevel::V0); p->run(); }
        for (int i = 0; kind == 0 && i < m; ++i) { op.push_back(new_process()); As a(op.back()); others.emplace_back(new Box<Client<int>>); others.back()->make("t", "n", false, VLevel::V0, true); (*others.back())->attach(); }
        As a(fp);
        if (kind == 0) { k.make("t", "n", v, vl, true); k->attach(); } else if (kind == 1) { sc.make("t", "n", v, vl, true); sc->run(); } else { co.make("t", "n", v, vl); co->run(); }
    }), "setting up");
    bool fired = false, left = false; std::string why;
    spawn("leaver", fp, [&] {
        fault_at(fp, at, 0);
        try {
            if (how == 2) { k.destroy(); sc.destroy(); co.destroy(); }
            else if (kind == 0) { if (how) k->close(); else k->detach(); }
            else if (kind == 1) sc->close(); else co->close();
        } catch (std::exception& e) { why = e.what(); }
        fired = fault_fired(fp); clear_fault(fp); left = true;
    });
    if (busy && kind == 0) spawn("user", sp, [&] { for (int i = 0; i < 3; ++i) { s->dataSemAcquire(); yield("holding"); yield("holding"); s->dataSemRelease(); (void)s->getNClients(); } });
    must_finish(c, run(), "leaving");
    CHECK(left && why.empty(), "the %s throws when it %s and a wait is interrupted: %s", kinds[kind], hows[how], why.c_str());
    must_finish(c, solo("afterwards", sp, [&] {
        if (kind == 0) {
            int n = s->getNClients(); CHECK(n == m, "%d clients are counted, %d are attached", n, m); Tensor<int> t(2, 3), u(2, 3); t.setConstant(41); u.setZero();
            CHECK(s->write(t), "the server cannot write"); for (int i = 0; i < m; ++i) { As a(op[i]); CHECK((*others[i])->read(u) && u(1, 2) == 41, "another client cannot read"); }
            if (how < 2) {
                { As a(fp); CHECK(!k->isAttached(), "the client is still attached"); k->attach(); CHECK(k->isAttached() && k->read(u) && u(0, 0) == 41, "the client cannot attach again"); }
                n = s->getNClients(); CHECK(n == m + 1, "it is not counted again");
            }
        } else if (kind == 1) { int n = ss->getNClients(); CHECK(n == 0, "%d clients are counted, none is there", n); std::string x = "abc"; CHECK(ss->write(x, 1) && ss->read(x, 1) && x == "abc", "the server cannot write and read"); }
        else { p->trigger(); CHECK(!p->wait_ack_from(1, 1), "an acknowledgement is invented"); }
        { As a(fp); k.destroy(); sc.destroy(); co.destroy(); Res r = resources(fp); CHECK(r.fds == 0 && r.maps == 0 && r.sems == 0, "the process which left still holds: %s", resources_text(fp).c_str()); }
        for (auto& x : others) { As a(op[&x - &others[0]]); x->destroy(); } s.destroy(); ss.destroy(); p.destroy();
    }), "going on afterwards");
    if (fired) c.nontrivial();
}
