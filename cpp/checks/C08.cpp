// C08: the client count equals the number of attached clients.
#include "strings.hpp"
using namespace sim;
using namespace EigenIPC;

enum Step { ATTACH, DETACH, CLOSE, DESTROY, AGAIN, IO, MISMATCH, TWICE };
static const char* stepname[] = {"attach", "detach", "close", "destroy", "attach repeatedly", "read or write", "mismatching client", "detach repeatedly"};

template <class T> static void count(Case& c) {
    using S = typename T::S; constexpr int L = T::L; constexpr int OL = L == RowMajor ? ColMajor : RowMajor;
    int R = 1 + c.draw(4), C = 1 + c.draw(4), nc = crowd(c, 4), nph = 1 + c.draw(3), verb = c.draw_biased(5, 0.15); bool ssafe = !c.chance(0.3);
    struct Cl { bool safe, late_proc; }; std::vector<Cl> cs; for (int i = 0; i < nc; ++i) cs.push_back({!c.chance(0.3), c.chance(0.3)});
    int sp = new_process(); std::vector<int> cp; Box<Srv<T>> s; std::vector<std::unique_ptr<Box<Cli<T>>>> cl; std::vector<char> att(nc, 0);
    for (int i = 0; i < nc; ++i) { cp.push_back(cs[i].late_proc && i ? cp[0] : new_process()); cl.emplace_back(new Box<Cli<T>>); }
    int progress = 0, changes = 0, concurrent = 0, cycles = 0; long version = 0, attached = 0; bool running = false;
    must_finish(c, solo("setup", sp, [&] {
        s.make(R, C, "t", "n", verb > 0, vlevel_of(verb - 1), false, ssafe);
        if (c.chance(0.5)) CHECK(s->getNClients() == 0, "a server which was not run yet counts %d clients", s->getNClients());
        s->run(); running = true; CHECK(s->getNClients() == 0, "a new server counts %d clients", s->getNClients());
        if (c.chance(0.003)) { int k = 260 + c.draw(200); c.note("client 0 attaches and detaches %d times", k); c.label("hundreds of cycles"); bool each = c.chance(0.3);
            As a(cp[0]); cl[0]->make("t", "n", false, VLevel::V0, cs[0].safe);
            for (int i = 0; i < k; ++i) { if (each && i % 16 == 0) { cl[0]->destroy(); cl[0]->make("t", "n", false, VLevel::V0, cs[0].safe); } (*cl[0])->attach(); if (i > 250) { As s2(sp); CHECK(s->getNClients() == 1, "the server counts %d clients in cycle %d", s->getNClients(), i); } (*cl[0])->detach(); }
            As s2(sp); CHECK(s->getNClients() == 0, "the server counts %d clients after %d cycles", s->getNClients(), k); }
    }), "setting up");
    for (int ph = 0; ph < nph; ++ph) {
        std::vector<std::vector<std::pair<Step, int>>> plan(nc); std::vector<int> srv;
        for (int i = 0; i < nc; ++i) for (int k = c.draw(4); k-- > 0;) { Step st = (Step)c.weighted({8, 6, 3, 2, 2, 2, 1, 1}); plan[i].push_back({st, (int)c.draw(4)}); c.note("phase %d, client %d: %s", ph, i, stepname[st]); }
        for (int k = c.draw(5); k-- > 0;) { srv.push_back(c.draw(4)); c.note("phase %d, server: %s", ph, srv.back() == 0 ? "stop/run" : srv.back() == 1 ? "write" : "count"); }
        bool end_stopped = ph + 1 < nph && c.chance(0.2);
        for (int i = 0; i < nc; ++i) spawn("client" + std::to_string(i), cp[i], [&, i] {
            auto change = [&](bool to, auto&& f) { if ((bool)att[i] != to) { ++changes; } ++progress; ++version; if (progress > 1) ++concurrent; f(); if ((bool)att[i] != to) { att[i] = to; attached += to ? 1 : -1; } --progress; ++version; };
            auto mk = [&] { if (!*cl[i]) cl[i]->make("t", "n", verb > 0, vlevel_of(verb - 1), cs[i].safe); };
            for (auto& e : plan[i]) switch (e.first) {
                case ATTACH: change(true, [&] { mk(); (*cl[i])->attach(); }); break;
                case DETACH: change(false, [&] { mk(); (*cl[i])->detach(); }); break;
                case TWICE: change(false, [&] { mk(); (*cl[i])->detach(); (*cl[i])->detach(); }); break;
                case CLOSE: change(false, [&] { mk(); (*cl[i])->close(); if (e.second == 0) (*cl[i])->close(); }); break;
                case DESTROY: change(false, [&] { cl[i]->destroy(); }); break;
                case AGAIN: change(true, [&] { mk(); (*cl[i])->attach(); (*cl[i])->attach(); }); break;
                case IO: if (att[i]) { Tensor<S, L> t(R, C); t.setZero(); if (e.second & 1) (*cl[i])->write(t); else (*cl[i])->read(t); } break;
                case MISMATCH: change(att[i], [&] { bool threw = false; Box<Client<S, OL>> x; try { x.make("t", "n", false, VLevel::V0, true); x->attach(); } catch (std::exception&) { threw = true; } CHECK(threw, "a client of another layout attached"); x.destroy(); }); break;
            }
        });
        spawn("server", sp, [&] {
            if (!s->isRunning()) { s->run(); }
            for (int k : srv) {
                if (k == 0) { s->stop(); ++cycles; long v = version; int n = s->getNClients(); if (!progress && v == version) CHECK(n == attached, "the stopped server counts %d clients, %ld are attached", n, attached); yield("stopped"); s->run(); }
                else if (k == 1) { Tensor<S, L> t(R, C); t.setZero(); s->write(t); }
                else { bool quiet = !progress; long v = version; int n = s->getNClients(); if (quiet && v == version) CHECK(n == attached, "the server counts %d clients, %ld are attached", n, attached); }
                yield("server pauses");
            }
        });
        must_finish(c, run(), "attaching and detaching");
        must_finish(c, solo("check", sp, [&] {
            CHECK(s->getNClients() == attached, "the server counts %d clients, %ld are attached", s->getNClients(), attached);
            for (int i = 0; i < nc; ++i) if (*cl[i]) CHECK((bool)att[i] == (*cl[i])->isAttached(), "client %d reports attached=%d", i, (*cl[i])->isAttached());
            if (end_stopped) { s->stop(); CHECK(s->getNClients() == attached, "the stopped server counts %d clients, %ld are attached", s->getNClients(), attached); }
        }), "asking for the client count");
    }
    bool close_first = c.chance(0.4);
    must_finish(c, solo("end", sp, [&] {
        if (close_first) { s->close(); (void)s->getNClients(); c.label("count asked after close"); }
        for (int i = nc; i-- > 0;) { As as(cp[i]); cl[i]->destroy(); if (att[i]) { att[i] = 0; --attached; } if (!close_first) { As a2(sp); CHECK(s->getNClients() == attached, "after a client's destruction the server counts %d clients, %ld are attached", s->getNClients(), attached); } }
        s.destroy();
    }), "the end");
    if (concurrent && changes >= 2) c.nontrivial();
    if (cycles) c.label("stop/run cycles");
}
PROPERTY(client_counts, 60000, 2000000, "1-4 clients attaching, detaching, closing, being destroyed and rejected concurrently, with server stop/run cycles, in 1-3 phases; non-trivial: at least two changes of the number of attached clients and two attach/detach calls in progress at once") {
    Options o; o.page_yield = !c.chance(0.3); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); o.p_timepass = c.pick(std::vector<double>{0, 0.2}); reset(c, o);
    int k = c.draw(8); dispatch(k, [&](auto t) { count<decltype(t)>(c); });
}

PROPERTY(string_clients, 12000, 500000, "1-4 clients of a string tensor running, reading, writing, closing and being destroyed concurrently in 1-4 phases, the string server's count compared after each phase, along with what every object says about itself; non-trivial: at least two changes of the number of running clients and two calls in progress at once") {
    Options o; o.page_yield = c.chance(0.3); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); o.p_timepass = c.pick(std::vector<double>{0, 0.2}); reset(c, o);
    int nc = crowd(c, 4), nph = 1 + c.draw(4), len = 1 + c.draw(5), verb = c.draw_biased(5, 0.15), changes = 0, concurrent = 0, progress = 0; bool ssafe = !c.chance(0.3), exact = c.chance(0.5); std::string base = exact ? "t" : "some.name_", ns = c.chance(0.5) ? "n" : "";
    std::vector<std::unique_ptr<StrPart>> ps; for (int i = 0; i <= nc; ++i) { ps.emplace_back(new StrPart); ps[i]->proc = new_process(); ps[i]->server = i == 0; ps[i]->safe = i ? !c.chance(0.3) : ssafe; }
    auto about = [&](int i) { StrPart& p = *ps[i]; bool sv = p.server;
        CHECK((sv ? p.s->isServer() : p.c->isServer()) == sv, "participant %d says isServer() = %d", i, !sv);
        CHECK((sv ? p.s->getBasename() : p.c->getBasename()) == base, "participant %d calls itself %s", i, (sv ? p.s->getBasename() : p.c->getBasename()).c_str());
        CHECK((sv ? p.s->getNamespace() : p.c->getNamespace()) == ns, "participant %d gives the namespace %s", i, (sv ? p.s->getNamespace() : p.c->getNamespace()).c_str());
        CHECK(p.isRunning() == p.up, "participant %d says isRunning() = %d", i, !p.up); if (p.up) CHECK(p.length() == len, "participant %d says length %d instead of %d", i, p.length(), len); };
    auto counted = [&](const char* when) { int want = 0; for (int i = 1; i <= nc; ++i) want += ps[i]->up; int got = ps[0]->s->getNClients(); CHECK(got == want, "%s: the string server counts %d clients, %d are running", when, got, want); };
    must_finish(c, solo("setup", ps[0]->proc, [&] { ps[0]->s.make(len, base, ns, verb > 0, vlevel_of(verb - 1), false, ssafe); if (c.chance(0.5)) counted("before the server's run"); ps[0]->run(); counted("at first"); about(0); }), "setting up");
    for (int ph = 0; ph < nph; ++ph) {
        std::vector<std::vector<int>> plan(nc + 1); for (int i = 1; i <= nc; ++i) for (int k = c.draw(4); k-- > 0;) { plan[i].push_back(c.weighted({8, 4, 3, 2, 2})); c.note("phase %d, client %d: %s", ph, i, (const char*[]){"run", "close", "destroy", "read and write", "close twice"}[plan[i].back()]); }
        for (int i = 1; i <= nc; ++i) spawn("client" + std::to_string(i), ps[i]->proc, [&, i] { StrPart& p = *ps[i];
            for (int k : plan[i]) { bool was = p.up; if (++progress > 1) ++concurrent; if (!p.c && k != 2) p.c.make(base, ns, verb > 0, vlevel_of(verb - 1), p.safe);
                switch (k) { case 0: p.run(); break; case 1: p.close(); break; case 2: p.destroy(); break; case 3: if (p.up) { std::string t; p.write("text", 0); p.read(t, 0); } break; default: p.close(); p.close(); }
                changes += was != p.up; if (p.c) about(i); --progress; } });
        must_finish(c, run(), "string clients");
        must_finish(c, solo("check", ps[0]->proc, [&] { counted("between phases"); about(0); }), "asking for the client count");
    }
    bool first = c.chance(0.4);
    must_finish(c, solo("end", ps[0]->proc, [&] { if (first) ps[0]->close(); for (int i = nc; i >= 1; --i) { { As as(ps[i]->proc); ps[i]->destroy(); } if (!first) counted("in the end"); } ps[0]->destroy(); }), "the end");
    if (concurrent && changes >= 2) c.nontrivial();
}

// many clients at once
PROPERTY(many_clients, 400, 20000, "1 to 450 clients (of tensors or string tensors) attach to one server, leave and come back in a generated order, the count being asked for again and again; non-trivial: at least twenty were attached at once") {
    reset(c); bool str = c.chance(0.15); int n = c.chance(0.5) ? 1 + c.draw(60) : 1 + c.draw(450), steps = n + c.draw(n + 1), top = 0; c.note("%d %s clients, %d steps", n, str ? "string" : "tensor", steps);
    int np = 1 + c.draw(4); std::vector<int> pr; for (int i = 0; i < np; ++i) pr.push_back(new_process()); double leave = c.pick(std::vector<double>{0.1, 0.3, 0.5}); auto st = c.stream(); auto roll = [&](double p) { return (st.next() >> 11) / 9007199254740992.0 < p; };
    sequential(c, [&] {
        typedef Ty<int, RowMajor> T; Box<Srv<T>> s; Box<StringTensor<StrServer>> ss; if (str) { ss.make(2, "t", "n", false, VLevel::V0, false, true); ss->run(); } else { s.make(2, 2, "t", "n", false, VLevel::V0, false, true); s->run(); }
        std::vector<std::unique_ptr<Box<Cli<T>>>> cl(n); std::vector<std::unique_ptr<Box<StringTensor<StrClient>>>> sc(n); std::vector<char> in(n, 0); int k = 0;
        for (int i = 0; i < n; ++i) { cl[i].reset(new Box<Cli<T>>); sc[i].reset(new Box<StringTensor<StrClient>>); }
        auto move = [&](int i) { As as(pr[i % np]);
            if (!in[i]) { if (str) { if (!*sc[i]) sc[i]->make("t", "n", false, VLevel::V0, true); (*sc[i])->run(); } else { if (!*cl[i]) cl[i]->make("t", "n", false, VLevel::V0, true); (*cl[i])->attach(); } ++k; }
            else { if (str) { if (st.next() & 1) (*sc[i])->close(); else sc[i]->destroy(); } else switch (st.next() % 3) { case 0: (*cl[i])->detach(); break; case 1: (*cl[i])->close(); break; default: cl[i]->destroy(); } --k; }
            in[i] ^= 1; };
        auto ask = [&] { int m = str ? ss->getNClients() : s->getNClients(); CHECK(m == k, "the server counts %d clients, %d are attached", m, k); top = std::max(top, k); };
        for (int q = 0; q < steps; ++q) { int i = q < n && !roll(leave) ? q : (int)(st.next() % (unsigned)std::min(n, q + 1)); move(i); if (roll(0.3) || q % 64 == 63) ask(); }
        ask(); for (int i = 0; i < n; ++i) if (in[i]) { move(i); if (roll(0.1)) ask(); } ask(); CHECK(k == 0, "model");
        for (int i = 0; i < n; ++i) { As as(pr[i % np]); cl[i]->destroy(); sc[i]->destroy(); } s.destroy(); ss.destroy();
    });
    if (top >= 20) c.nontrivial(); if (top > 255) c.label("more than 255 at once");
}
