// C09: incompatible clients are rejected without side effects.
#include "common.hpp"
using namespace sim;
using namespace EigenIPC;

struct AnyClient { virtual ~AnyClient() {} virtual void make(bool verb, VLevel v, bool safe) = 0; virtual void attach() = 0; virtual void detach() = 0; virtual bool attached() = 0; virtual void destroy() = 0; virtual void close() = 0; virtual bool made() = 0; virtual int rows() = 0; virtual int cols() = 0; virtual std::string name() = 0; virtual bool read11() = 0; };
template <class T> struct ClientOf : AnyClient { Box<Cli<T>> b; void make(bool verb, VLevel v, bool safe) override { b.make("t", "n", verb, v, safe); } void attach() override { b->attach(); } void detach() override { b->detach(); } bool attached() override { return (bool)b && b->isAttached(); } void destroy() override { b.destroy(); } void close() override { b->close(); } bool made() override { return (bool)b; } int rows() override { return b->getNRows(); } int cols() override { return b->getNCols(); } std::string name() override { return tyname<T>(); }
    bool read11() override { Tensor<typename T::S, T::L> t(1, 1); return b->read(t, 0, 0); } };
static std::unique_ptr<AnyClient> any(int k) { std::unique_ptr<AnyClient> r; dispatch(k, [&](auto t) { r.reset(new ClientOf<decltype(t)>); }); return r; }
template <class S> static S rv(Case::Stream& st) { return rnd_val<S>(st); }

template <class T> static void rejected(Case& c, int ks) {
    using S = typename T::S; constexpr int L = T::L;
    int R = 1 + c.draw(6), C = 1 + c.draw(6), verb = c.draw_biased(5, 0.2), nc = c.draw(3), nx = 1 + c.draw(2); bool ssafe = !c.chance(0.3), conc = c.chance(0.6);
    std::vector<int> kx; for (int i = 0; i < nx; ++i) { int k = c.draw(7); if (k >= ks) ++k; kx.push_back(k); }
    struct X { int verb; bool safe; int pause; std::vector<int> acts; bool same_proc; }; std::vector<X> xs;
    for (int i = 0; i < nx; ++i) { X x; x.verb = c.draw_biased(5, 0.3); x.safe = !c.chance(0.3); x.pause = c.draw(6); x.same_proc = c.chance(0.3); for (int k = 1 + c.draw(4); k-- > 0;) x.acts.push_back(c.weighted({6, 2, 2, 1, 1})); xs.push_back(x); }
    c.note("server %s %dx%d safe=%d, %d compatible clients", tyname<T>().c_str(), R, C, ssafe, nc);
    for (int i = 0; i < nx; ++i) { c.note("client of %s: ", any(kx[i])->name().c_str()); for (int a : xs[i].acts) c.note("%s", a == 0 ? "attach" : a == 1 ? "close" : a == 2 ? "destroy" : a == 3 ? "detach" : "read"); }
    int sp = new_process(); std::vector<int> cp, xp; Box<Srv<T>> s; std::vector<std::unique_ptr<Box<Cli<T>>>> cl; std::vector<char> csafe; std::vector<std::unique_ptr<AnyClient>> xc;
    for (int i = 0; i < nc; ++i) { cp.push_back(new_process()); cl.emplace_back(new Box<Cli<T>>); csafe.push_back(!c.chance(0.3)); }
    for (int i = 0; i < nx; ++i) { xp.push_back(xs[i].same_proc ? sp : new_process()); xc.push_back(any(kx[i])); }
    Model<S> M; M.init(R, C); Case::Stream st = c.stream();
    auto fill = [&](auto& o) { Tensor<S, L> t(R, C); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) t(i, j) = rnd_val<S>(st); if (!o.write(t)) return false; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) M.set(i, j, t(i, j)); return true; };
    bool late_server = conc && c.chance(0.25), late_clients = conc && c.chance(0.3), cycle = conc && c.chance(0.3);
    auto start = [&] { s.make(R, C, "t", "n", verb > 0, vlevel_of(verb - 1), false, ssafe); s->run(); };
    auto attach = [&](int i) { As as(cp[i]); cl[i]->make("t", "n", verb > 0, vlevel_of(verb - 1), csafe[i]); (*cl[i])->attach(); };
    int rejections = 0, io = 0;
    auto act = [&](int i, int a) {
        auto& x = *xc[i];
        if (!x.made()) x.make(xs[i].verb > 0, vlevel_of(xs[i].verb - 1), xs[i].safe);
        if (a == 0) {
            bool threw = false; try { x.attach(); } catch (std::exception&) { threw = true; }
            CHECK(threw, "a client of %s attached to a server of %s", x.name().c_str(), tyname<T>().c_str());
            CHECK(!x.attached(), "a rejected client reports to be attached"); ++rejections;
        } else if (a == 1) x.close(); else if (a == 2) x.destroy(); else if (a == 3) x.detach(); else CHECK(!x.read11(), "a rejected client reads");
    };
    if (!late_server) must_finish(c, solo("setup", sp, [&] { start(); CHECK(fill(*s), "write refused"); if (!late_clients) for (int i = 0; i < nc; ++i) attach(i); }), "setting up");
    if (conc) {
        int nops = c.draw(7), writer = late_server || late_clients ? 0 : (int)c.draw(nc + 1);
        spawn("user", writer ? cp[writer - 1] : sp, [&] {
            if (late_server) { yield("before"); yield("before"); start(); fill(*s); }
            for (int i = 0; i < nops; ++i) {
                if (i % 3 == 2) { if (writer) (*cl[writer - 1])->dataSemAcquire(); else s->dataSemAcquire(); yield("holding"); yield("holding"); if (writer) (*cl[writer - 1])->dataSemRelease(); else s->dataSemRelease(); continue; }
                if (cycle && !writer && i == 1) { s->stop(); yield("stopped"); s->run(); continue; }
                io += writer ? fill(**cl[writer - 1]) : fill(*s); yield("between writes");
            }
        });
        if (late_clients || late_server) for (int i = 0; i < nc; ++i) spawn("client" + std::to_string(i), cp[i], [&, i] { attach(i); });
        for (int i = 0; i < nx; ++i) spawn("rejected" + std::to_string(i), xp[i], [&, i] { for (int k = 0; k < xs[i].pause; ++k) yield("before"); for (int a : xs[i].acts) act(i, a); });
        must_finish(c, run(), "rejected clients with others in use");
    } else must_finish(c, solo("history", sp, [&] { for (int i = 0; i < nx; ++i) { As as(xp[i]); for (int a : xs[i].acts) { act(i, a); As a2(sp); io += fill(*s); } } }), "rejected clients");
    int last = c.draw(nx); bool replaced = c.chance(0.4); int x_end = c.draw(3);
    must_finish(c, solo("check", sp, [&] {
        CHECK(s->getNClients() == nc, "the server counts %d clients, %d are attached", s->getNClients(), nc);
        std::string d = differs<T>(*s, M); CHECK(d.empty(), "the server: %s", d.c_str());
        for (int i = 0; i < nc; ++i) { As as(cp[i]); d = differs<T>(**cl[i], M); CHECK(d.empty(), "client %d: %s", i, d.c_str()); }
        { As as(new_process()); Box<Cli<T>> n; n.make("t", "n", false, VLevel::V0, true); n->attach(); CHECK(n->getNRows() == R && n->getNCols() == C, "a later compatible client sees %dx%d", n->getNRows(), n->getNCols()); d = differs<T>(*n, M); CHECK(d.empty(), "a later compatible client: %s", d.c_str()); CHECK(fill(*n), "a later compatible client cannot write"); { As a2(sp); CHECK(s->getNClients() == nc + 1, "the server counts %d clients, %d are attached", s->getNClients(), nc + 1); } n.destroy(); }
        d = differs<T>(*s, M); CHECK(d.empty(), "the server: %s", d.c_str());
        s->dataSemAcquire(); for (int i = 0; i < nc; ++i) if (csafe[i]) { As as(cp[i]); Tensor<S, L> t(1, 1); CHECK(!(*cl[i])->read(t), "client %d reads although the server holds the data lock", i); } s->dataSemRelease();
        if (replaced) {   // the rejected client meets a compatible server next
            for (int i = nc; i-- > 0;) { As as(cp[i]); cl[i]->destroy(); }
            { As as(xp[last]); if (!xc[last]->made()) { xc[last]->make(false, VLevel::V0, true); } bool threw = false; try { xc[last]->attach(); } catch (std::exception&) { threw = true; } CHECK(threw, "a client of %s attached to a server of %s", xc[last]->name().c_str(), tyname<T>().c_str()); }
            s.destroy();
            dispatch(kx[last], [&](auto t2) {
                using T2 = decltype(t2); As as(new_process()); Box<Srv<T2>> s2; s2.make(C + 1, R + 2, "t", "n", false, VLevel::V0, false, true); s2->run();
                { As a2(xp[last]); xc[last]->attach(); CHECK(xc[last]->attached() && xc[last]->rows() == C + 1 && xc[last]->cols() == R + 2, "a once rejected client sees %dx%d at a compatible server of %dx%d", xc[last]->rows(), xc[last]->cols(), C + 1, R + 2); CHECK(xc[last]->read11(), "a once rejected client cannot read from a compatible server"); }
                CHECK(s2->getNClients() == 1, "the compatible server counts %d clients", s2->getNClients());
                { As a2(xp[last]); xc[last]->destroy(); } CHECK(s2->getNClients() == 0, "the compatible server counts %d clients after the only one was destroyed", s2->getNClients()); s2.destroy();
            });
        }
        for (int i = 0; i < nx; ++i) { As as(xp[i]); if (xc[i]->made() && x_end == 1) xc[i]->close(); xc[i]->destroy(); Res r = resources(xp[i]); if (!xs[i].same_proc) CHECK(r.fds == 0 && r.maps == 0 && r.sems == 0, "a destroyed rejected client left behind: %s", resources_text(xp[i]).c_str()); }
        if (s) { CHECK(s->getNClients() == nc, "the server counts %d clients, %d are attached", s->getNClients(), nc); CHECK(fill(*s), "write refused"); }
        for (int i = nc; i-- > 0;) { As as(cp[i]); cl[i]->destroy(); }
        s.destroy();
    }), "afterwards");
    if (rejections && (io || nc || replaced)) c.nontrivial();
    if (rejections > 1) c.label("rejected repeatedly"); if (replaced) c.label("later attached to a compatible server"); if (late_server) c.label("client waited for the server");
    for (int i = 0; i < nx; ++i) { int a = kx[i] / 2, b = ks / 2; c.label(a == b ? "layout only" : (kx[i] & 1) == (ks & 1) ? "type only" : "type and layout"); }
}
PROPERTY(rejections, 60000, 2000000, "every pair of different (type, layout) configurations, 0-2 compatible clients and a user of the tensor at the same time, rejected clients attaching repeatedly, being closed and destroyed, and attaching to a compatible server later; non-trivial: a rejection together with other use of the tensor") {
    Options o; o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); reset(c, o);
    int k = c.draw(8); dispatch(k, [&](auto t) { rejected<decltype(t)>(c, k); });
}
