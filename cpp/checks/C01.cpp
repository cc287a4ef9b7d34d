// C01: block reads and writes are exact and visible to every participant.
#include "common.hpp"
using namespace sim;

template <class T> static void history(Case& c) {
    using S = typename T::S; constexpr int L = T::L;
    int R = gen_dim(c), C = gen_dim(c); huge(c, R, C); bool ssafe = !c.chance(0.3); int v = c.draw_biased(5, 0.3); // 0 = not verbose
    c.note("%s server %dx%d safe=%d verbosity=%d", tyname<T>().c_str(), R, C, ssafe, v);
    int nc0 = c.draw(3);
    sequential(c, [&] {
        int sp = process(); Box<Srv<T>> s; std::vector<std::unique_ptr<Box<Cli<T>>>> cl; std::vector<int> cp;
        s.make(R, C, "t", "n", v > 0, vlevel_of(v - 1), false, ssafe);
        s->run();
        Model<S> M; M.init(R, C);
        auto attach = [&] {
            bool safe = !c.chance(0.3); int p = new_process(); As as(p);
            cl.emplace_back(new Box<Cli<T>>); cp.push_back(p); cl.back()->make("t", "n", v > 0, vlevel_of(v - 1), safe); (*cl.back())->attach();
            c.note("client %d attaches (safe=%d)", (int)cl.size() - 1, safe);
            CHECK((*cl.back())->getNRows() == R && (*cl.back())->getNCols() == C, "client sees %dx%d", (*cl.back())->getNRows(), (*cl.back())->getNCols());
        };
        for (int i = 0; i < nc0; ++i) attach();
        int nops = 1 + c.draw(c.tier_ ? 40 : 18); int writes = 0, reads = 0, crossreads = 0, lastw = -2;
        for (int k = 0; k < nops; ++k) {
            int op = c.weighted({10, 10, 1, 1});
            if (op == 2) { if (cl.size() < 4) attach(); continue; }
            if (op == 3) { c.note("server stops and runs again"); s->stop(); s->run(); continue; }
            int who = (int)c.draw((uint32_t)cl.size() + 1) - 1;
            int n = 1 + c.draw(R), m = 1 + c.draw(C); if (c.chance(0.2)) { n = R; m = C; } if (c.chance(0.03)) n = 0; if (c.chance(0.03)) m = 0;
            int r = c.draw(std::max(1, R - n + 1)), q = c.draw(std::max(1, C - m + 1)); bool def = c.chance(0.5);
            Block<S, L> b; b.gen(c, n, m);
            As as(who < 0 ? sp : cp[who]);
            bool ok, wr = op == 0;
            if (wr) ok = who < 0 ? b.write_to(*s, r, q, def) : b.write_to(**cl[who], r, q, def);
            else ok = who < 0 ? b.read_from(*s, r, q, def) : b.read_from(**cl[who], r, q, def);
            std::string w = who < 0 ? "server" : "client " + std::to_string(who);
            c.note("%s %s %s at (%d,%d)", w.c_str(), wr ? "writes" : "reads", b.text().c_str(), r, q);
            if (n && m) CHECK(ok, "%s: %s of a fitting block was refused", w.c_str(), wr ? "write" : "read");
            std::string u = b.untouched(!wr); CHECK(u.empty(), "%s: %s", w.c_str(), u.c_str());
            if (!n || !m) continue;
            for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
                if (wr) M.set(r + i, q + j, b.at(i, j));
                else CHECK(same(b.at(i, j), M.get(r + i, q + j)), "%s read %s at (%d,%d), the tensor holds %s", w.c_str(), hex(b.at(i, j)).c_str(), r + i, q + j, hex(M.get(r + i, q + j)).c_str());
            }
            if (wr) { ++writes; lastw = who; } else { ++reads; if (lastw != who && lastw != -2) ++crossreads; }
        }
        { As as(sp); std::string d = differs<T>(*s, M); CHECK(d.empty(), "finally the server: %s", d.c_str()); }
        for (size_t i = 0; i < cl.size(); ++i) { As as(cp[i]); std::string d = differs<T>(**cl[i], M); CHECK(d.empty(), "finally client %zu: %s", i, d.c_str()); }
        if (writes && (crossreads || !cl.empty())) c.nontrivial();
        if (cl.empty()) c.label("no client"); if (!ssafe) c.label("unsafe server"); if (R * C * (int)sizeof(S) > 4096) c.label("tensor larger than a page"); if (sizeof(S) == 1) c.label("bool");
        for (size_t i = cl.size(); i-- > 0;) { As as(cp[i]); cl[i]->destroy(); }
        s.destroy();
    });
}
PROPERTY(block_history, 60000, 1200000, "random dims, dtype, layout, participants and blocks (owned, sub-block, view, strided), compared with a reference matrix; non-trivial: a write happened and a participant other than the writer read the tensor") {
    reset(c); int k = c.draw(8); dispatch(k, [&](auto t) { history<decltype(t)>(c); });
}
