// C07: attaching clients meet the running server in any start order.
#include "common.hpp"
using namespace sim;
using namespace EigenIPC;

template <class T> static void rendezvous(Case& c, int late) {
    using S = typename T::S; constexpr int L = T::L;
    // earlier generations are stopped (or were never run) whenever a client may be attaching
    struct Gen { int R, C; bool runs, destroyed, same_proc; int pause[6]; int cycles; char asks; };
    int ng = 1 + c.draw_biased(3, 0.5), nc = 1 + c.draw(4);
    std::vector<Gen> g;
    for (int i = 0; i < ng; ++i) { Gen x; x.R = 1 + c.draw(5); x.C = 1 + c.draw(5); if (c.chance(0.1)) x.C = 1500; x.runs = c.chance(0.7); x.destroyed = c.chance(0.5); x.same_proc = c.chance(0.5); for (auto& p : x.pause) p = c.chance(0.3) ? c.draw(30) : c.draw(5); x.cycles = c.draw_biased(3, 0.4); x.asks = c.chance(0.4); g.push_back(x); }
    struct Cl { int verb; bool safe, before, closes, constructed_early; int pause; bool reattach; };
    std::vector<Cl> cs;
    for (int i = 0; i < nc; ++i) { Cl x; x.verb = c.draw_biased(5, 0.15); x.safe = !c.chance(0.3); x.before = ng > 1 && g[0].runs && c.chance(0.3); x.closes = c.chance(0.5); x.constructed_early = c.chance(0.5); x.pause = c.chance(0.3) ? c.draw(60) : c.draw(8); x.reattach = c.chance(0.2); cs.push_back(x); }
    int sverb = c.draw_biased(5, 0.15); 
    for (int i = 0; i < ng; ++i) c.note("%s server generation %d: %dx%d%s%s", tyname<T>().c_str(), i, g[i].R, g[i].C, i + 1 < ng ? (g[i].runs ? ", runs and stops before the clients start" : ", never runs") : "", i + 1 < ng ? (g[i].destroyed ? ", destroyed" : ", closed") : (", stop/run cycles: " + std::to_string(g[i].cycles)).c_str());
    for (int i = 0; i < nc; ++i) c.note("client %d starts after %d steps%s", i, cs[i].pause, cs[i].before ? ", was attached to the first generation" : "");
    int sp = new_process(); std::vector<int> cp, ssp; std::vector<std::unique_ptr<Box<Srv<T>>>> s; std::vector<std::unique_ptr<Box<Cli<T>>>> cl;
    for (int i = 0; i < ng; ++i) { s.emplace_back(new Box<Srv<T>>); ssp.push_back(g[i].same_proc ? sp : new_process()); }
    for (int i = 0; i < nc; ++i) { cp.push_back(new_process()); cl.emplace_back(new Box<Cli<T>>); }
    auto make_server = [&](int i) { s[i]->make(g[i].R, g[i].C, "t", "n", sverb > 0, vlevel_of(sverb - 1), false, true); };
    auto make_client = [&](int i) { cl[i]->make("t", "n", cs[i].verb > 0, vlevel_of(cs[i].verb - 1), cs[i].safe); };
    bool first_made = ng > 1 && c.chance(0.7), any_before = false;
    for (auto& x : cs) any_before |= x.before;
    if (any_before) first_made = true;
    if (first_made) must_finish(c, solo("first generation", ssp[0], [&] {
        make_server(0); if (g[0].runs) (*s[0])->run();
        for (int i = 0; i < nc; ++i) if (cs[i].before) { As as(cp[i]); make_client(i); (*cl[i])->attach(); if (cs[i].closes) (*cl[i])->close(); else (*cl[i])->detach(); }
        if (g[0].runs) (*s[0])->stop();
    }), "first generation");
    for (int i = 0; i < nc; ++i) if (cs[i].constructed_early && !cs[i].before) { As as(cp[i]); make_client(i); }
    int stage = 0, returned = 0, waited = 0, early = 0; bool reached = false, down = false; int runs = 0;
    int fin = ng - 1;
    spawn("server", ssp[0], [&] {
        for (int i = 0; i < ng; ++i) {
            As as(ssp[i]); auto pause = [&](int k) { for (int j = 0; j < g[i].pause[k]; ++j) { if (j % 4 == 3) sleep_ms(1); else yield("server pauses"); } };
            if (i == fin && late) { c.label("the server comes many seconds later"); sleep_ms(late); }
            pause(0); if (!(i == 0 && first_made)) make_server(i); ++stage; pause(1); if (g[i].asks) (*s[i])->getNClients();
            if (i == fin) {
                reached = true;   // from now on a client may return
                (*s[i])->run();
                for (int k = 0; k < g[i].cycles; ++k) { pause(2); (*s[i])->stop(); down = true; pause(3); down = false; ++runs; (*s[i])->run(); }
                break;
            }
            if (g[i].runs && !(i == 0 && first_made)) pause(4); // initialised, but never run while clients wait
            if (g[i].destroyed) s[i]->destroy(); else (*s[i])->close();
            pause(5);
        }
    });
    for (int i = 0; i < nc; ++i) spawn("client" + std::to_string(i), cp[i], [&, i] {
        for (int k = 0; k < cs[i].pause; ++k) { if (k % 6 == 5) sleep_ms(1); else yield("client pauses"); }
        if (!*cl[i]) make_client(i);
        auto att = [&] {
            if (!reached || down) ++early; bool d0 = down; int r0 = runs; long b = blocking_calls();
            (*cl[i])->attach();
            CHECK(reached, "client %d: attach returned although no server on the name has been run", i);
            CHECK(!(d0 && down && runs == r0), "client %d: attach returned although the server was stopped all the time", i);
            if (blocking_calls() > b) ++waited;
            CHECK((*cl[i])->isAttached(), "client %d: attach returned, but it is not attached", i);
            CHECK((*cl[i])->getNRows() == g[fin].R && (*cl[i])->getNCols() == g[fin].C, "client %d sees %dx%d, the running server has %dx%d", i, (*cl[i])->getNRows(), (*cl[i])->getNCols(), g[fin].R, g[fin].C);
        };
        att(); if (cs[i].reattach) { if (cs[i].closes) (*cl[i])->close(); else (*cl[i])->detach(); yield("between attachments"); att(); }
        ++returned;
    });
    must_finish(c, run(), "clients attaching to a starting server");
    auto& S1 = *s[fin]; int R = g[fin].R, C = g[fin].C;
    must_finish(c, solo("check", ssp[fin], [&] {
        Model<S> M; M.init(R, C); Case::Stream st{77};
        CHECK(S1->getNClients() == nc, "the server counts %d clients, %d are attached", S1->getNClients(), nc);
        for (int w = -1; w < nc; ++w) {
            Tensor<S, L> t(R, C); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { t(i, j) = rnd_val<S>(st); M.set(i, j, t(i, j)); }
            bool ok; if (w < 0) ok = S1->write(t); else { As as(cp[w]); ok = (*cl[w])->write(t); }
            CHECK(ok, "%s cannot write", w < 0 ? "the server" : ("client " + std::to_string(w)).c_str());
            std::string d = differs<T>(*S1, M); CHECK(d.empty(), "after client %d's write, the server: %s", w, d.c_str());
            for (int k = 0; k < nc; ++k) { As as(cp[k]); d = differs<T>(**cl[k], M); CHECK(d.empty(), "after %s's write, client %d: %s", w < 0 ? "the server" : ("client " + std::to_string(w)).c_str(), k, d.c_str()); }
        }
        for (int i = nc; i-- > 0;) { As as(cp[i]); cl[i]->destroy(); }
        s[fin]->destroy();
    }), "memory shared by server and clients");
    for (int i = 0; i < ng; ++i) { As as(ssp[i]); s[i]->destroy(); }
    if (early) c.nontrivial();
    if (early && ng > 1) c.label("attach began before the server of a later generation ran"); if (waited) c.label("attach had to wait"); if (any_before) c.label("client of an earlier generation");
}
PROPERTY(start_orders, 38000, 1500000, "1-4 clients starting at random points against 1-3 server generations of different dimensions, the last of which runs (possibly with stop/run cycles); non-trivial: a client's attach began before the final server ran") {
    Options o; o.page_yield = c.chance(0.25); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); o.p_timepass = c.pick(std::vector<double>{0, 0.1, 0.4}); reset(c, o);
    int late = c.chance(0.004) ? 4000 + (int)c.draw(c.tier_ ? 300000 : 60000) : 0;   // the last server may come long after its clients
    if (late) { limit_vtime(60000 + 2 * late); limit_steps(200000 + 20 * late); }
    int k = c.draw(8); dispatch(k, [&](auto t) { rendezvous<decltype(t)>(c, late); });
}
