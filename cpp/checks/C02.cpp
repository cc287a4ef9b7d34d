// C02: a refused read or write returns false and has no effect.
#include "common.hpp"
using namespace sim;

static const std::vector<int> extreme = {-1, -2, -7, INT32_MIN, INT32_MIN + 1, INT32_MAX, INT32_MAX - 1, 1 << 16, 1 << 30, -(1 << 30), 65536, 256, -256};

template <class T> static void refusals(Case& c) {
    using S = typename T::S; constexpr int L = T::L;
    int R = gen_dim(c), C = gen_dim(c); huge(c, R, C); bool ssafe = !c.chance(0.25); int v = c.draw_biased(5, 0.3);
    c.note("%s server %dx%d safe=%d verbosity=%d", tyname<T>().c_str(), R, C, ssafe, v);
    sequential(c, [&] {
        int sp = process(), op = new_process();
        Box<Srv<T>> s; Box<Cli<T>> obs;                       // obs: an unsafe observer of the tensor
        std::vector<std::unique_ptr<Box<Cli<T>>>> cl; std::vector<int> cp; std::vector<char> att, safe;
        s.make(R, C, "t", "n", v > 0, vlevel_of(v - 1), false, ssafe);
        bool running = false, closed = false;
        Model<S> M; M.init(R, C); int holder = -2; // -2 nobody, -1 server, i client, 99 observer
        int ncl = c.draw(3);
        auto attach = [&](int i) { As as(cp[i]); (*cl[i])->attach(); att[i] = 1; };
        for (int i = 0; i < ncl; ++i) { cl.emplace_back(new Box<Cli<T>>); cp.push_back(new_process()); att.push_back(0); safe.push_back(!c.chance(0.3)); As as(cp[i]); cl[i]->make("t", "n", v > 0, vlevel_of(v - 1), safe[i]); }
        int nops = 2 + c.draw(c.tier_ ? 40 : 20), refused = 0, kinds = 0;
        bool obs_on = false, stopped_once = false;
        auto check_tensor = [&](const char* when) {
            if (!obs_on) return;
            As as(op); std::string d = differs<T>(*obs, M); CHECK(d.empty(), "%s: %s", when, d.c_str());
        };
        if (c.draw(8) != 7) {
            s->run(); running = true; { As ao(op); obs.make("t", "n", false, VLevel::V0, false); obs->attach(); obs_on = true; }
            for (int i = 0; i < ncl; ++i) if (c.draw(3) != 2) { c.note("client %d attaches", i); attach(i); }
        }
        for (int k = 0; k < nops; ++k) {
            int what = c.weighted({14, 3, 3, 3, 2});
            if (what == 1) { if (closed) continue; As as(sp);
                if (running) { c.note("server stops"); s->stop(); running = false; stopped_once = true; }
                else if (holder != -1) { c.note("server runs"); s->run(); running = true; if (!obs_on) { As ao(op); obs.make("t", "n", false, VLevel::V0, false); obs->attach(); obs_on = true; } }
                continue; }
            if (what == 2 && ncl) { int i = c.draw(ncl);
                if (!att[i] && running && holder == -2) { c.note("client %d attaches", i); attach(i); }
                else if (att[i] && holder == -2) { As as(cp[i]); if (c.chance(0.5)) { c.note("client %d detaches", i); (*cl[i])->detach(); } else { c.note("client %d closes", i); (*cl[i])->close(); } att[i] = 0; }
                continue; }
            if (what == 3 && (running || stopped_once)) {       // hold or release the data lock
                if (holder == -2) { int h = (int)c.draw(ncl + 2) - 1; if (h == ncl) h = 99; if (h >= 0 && h < 99 && !att[h]) h = -1; if (h == 99 && !obs_on) h = -1; if (h == -1 && closed) continue;
                    c.note("%s acquires the data lock", h == -1 ? "server" : h == 99 ? "observer" : ("client " + std::to_string(h)).c_str());
                    As as(h == -1 ? sp : h == 99 ? op : cp[h]); if (h == -1) s->dataSemAcquire(); else if (h == 99) obs->dataSemAcquire(); else (*cl[h])->dataSemAcquire(); holder = h; }
                else { c.note("the data lock is released"); As as(holder == -1 ? sp : holder == 99 ? op : cp[holder]); if (holder == -1) s->dataSemRelease(); else if (holder == 99) obs->dataSemRelease(); else (*cl[holder])->dataSemRelease(); holder = -2; }
                continue; }
            if (what == 4) { if (c.chance(0.1) && !closed && holder == -2 && obs_on) { c.note("server closes"); As as(sp); s->close(); running = false; closed = true; } continue; }
            // a read or write, usually one that must be refused
            int who = (int)c.draw(ncl + 1) - 1;
            int n = 1 + c.draw(std::min(R, 12) + 2), m = 1 + c.draw(std::min(C, 12) + 2), r, q;
            if (c.chance(0.06)) n = R + 1 + c.draw(3); if (c.chance(0.06)) m = C + 1 + c.draw(3);
            if (c.chance(0.02)) n = 0; if (c.chance(0.02)) m = 0;
            auto off = [&](int dim, int len) { switch (c.weighted({8, 4, 2, 3})) { case 0: return (int)c.draw(std::max(1, dim - len + 1)); case 1: return dim - len + 1 + (int)c.draw(len + 2); case 2: return -1 - (int)c.draw(3); default: return c.pick(extreme); } };
            r = off(R, n); q = off(C, m);
            bool wr = c.draw(2) == 0;
            Block<S, L> b; b.gen(c, n, m);
            bool up = who < 0 ? running : att[who], sf = who < 0 ? ssafe : safe[who];
            bool fits = M.fits(r, q, n, m), empty = n == 0 || m == 0;
            bool may = up && !(sf && holder != -2);
            As as(who < 0 ? sp : cp[who]); bool ok = false;
            std::string w = who < 0 ? "server" : "client " + std::to_string(who);
            c.note("%s %s %s at (%d,%d)%s", w.c_str(), wr ? "writes" : "reads", b.text().c_str(), r, q, !up ? " while not running/attached" : !may ? " while the lock is held" : fits ? "" : " out of bounds");
            bool threw = false; std::string what_;
            try { if (wr) ok = who < 0 ? b.write_to(*s, r, q) : b.write_to(**cl[who], r, q); else ok = who < 0 ? b.read_from(*s, r, q) : b.read_from(**cl[who], r, q); }
            catch (std::exception& e) { threw = true; what_ = e.what(); }
            CHECK(!threw, "%s: %s threw: %s", w.c_str(), wr ? "write" : "read", what_.c_str());
            if (!empty || !may) CHECK(ok == (may && fits), "%s: %s of %dx%d at (%d,%d) of a %dx%d tensor returned %d", w.c_str(), wr ? "write" : "read", n, m, r, q, R, C, ok);
            bool done = may && fits && !empty;
            std::string u = b.untouched(!wr && done); CHECK(u.empty(), "%s: %s", w.c_str(), u.c_str());
            if (done) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { if (wr) M.set(r + i, q + j, b.at(i, j)); else CHECK(same(b.at(i, j), M.get(r + i, q + j)), "read wrong value at (%d,%d)", r + i, q + j); }
            else { ++refused; kinds |= !up ? 1 : !may ? 2 : 4; if (c.chance(0.5)) check_tensor("after a refused operation"); }
        }
        check_tensor("finally");
        if (obs_on && running) {      // the data lock is exactly as available as the history says
            As as(sp);
            if (holder == -2) {
                s->dataSemAcquire();
                for (int i = 0; i < ncl; ++i) if (att[i] && safe[i]) { EigenIPC::Tensor<S, L> t(1, 1); As a2(cp[i]); CHECK(!(*cl[i])->read(t, 0, 0), "finally: client %d reads although the server holds the data lock", i); }
                s->dataSemRelease();
                for (int i = 0; i < ncl; ++i) if (att[i] && safe[i]) { EigenIPC::Tensor<S, L> t(1, 1); As a2(cp[i]); CHECK((*cl[i])->read(t, 0, 0), "finally: client %d is refused although nobody holds the data lock", i); }
                if (ssafe) { EigenIPC::Tensor<S, L> t(1, 1); CHECK(s->read(t, 0, 0), "finally: the server is refused although nobody holds the data lock"); }
            }
        }
        if (kinds & 1) c.label("not running or not attached"); if (kinds & 2) c.label("data lock held"); if (kinds & 4) c.label("out of bounds"); if (closed) c.label("server closed");
        if (refused >= 2) c.nontrivial();
        if (holder != -2) { As as(holder == -1 ? sp : holder == 99 ? op : cp[holder]); if (holder == -1) s->dataSemRelease(); else if (holder == 99) obs->dataSemRelease(); else (*cl[holder])->dataSemRelease(); }
        for (size_t i = cl.size(); i-- > 0;) { As as(cp[i]); cl[i]->destroy(); }
        { As as(op); obs.destroy(); }
        s.destroy();
    });
}
PROPERTY(refused_operations, 110000, 2000000, "histories of run/stop, attach/detach/close, lock holding and reads/writes with offsets up to the extremes of int; non-trivial: at least two operations were refused") {
    reset(c); int k = c.draw(8); dispatch(k, [&](auto t) { refusals<decltype(t)>(c); });
}
