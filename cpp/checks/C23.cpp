// C23: tensor views alias exactly the requested block.
#include "common.hpp"
using namespace sim;

template <class T> static void views(Case& c) {
    using S = typename T::S; constexpr int L = T::L; using namespace EigenIPC;
    int R = gen_dim(c), C = gen_dim(c); huge(c, R, C); Case::Stream st = c.stream();
    c.note("%s tensor %dx%d", tyname<T>().c_str(), R, C);
    Tensor<S, L> P(R, C); Model<S> M; M.init(R, C);
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { P(i, j) = rnd_val<S>(st); M.set(i, j, P(i, j)); }
    auto agree = [&](const char* when) { for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) CHECK(same((S)P(i, j), M.get(i, j)), "%s: element (%d,%d) is %s, expected %s", when, i, j, hex((S)P(i, j)).c_str(), hex(M.get(i, j)).c_str()); };
    static const std::vector<int> ext = {-1, -3, INT32_MIN, INT32_MAX, 1 << 30, 65536, -65536};
    sequential(c, [&] {
        int sp = process(), cpid = new_process(); Box<Srv<T>> s; Box<Cli<T>> cl; Model<S> SH; bool shared = c.chance(0.6);
        int r2 = R + c.draw(3), c2 = C + c.draw(3);
        if (shared) { s.make(r2, c2, "v", ""); s->run(); As as(cpid); cl.make("v", ""); cl->attach(); SH.init(r2, c2); }
        int nops = 1 + c.draw(10); int good = 0, bad = 0, rt = 0;
        for (int k = 0; k < nops; ++k) {
            int n = 1 + c.draw(R), m = 1 + c.draw(C), r = c.draw(R - n + 1), q = c.draw(C - m + 1);
            bool invalid = c.chance(0.3);
            if (invalid) switch (c.draw(6)) {
                case 0: r = R - n + 1 + c.draw(3); break; case 1: q = C - m + 1 + c.draw(3); break;
                case 2: r = -1 - (int)c.draw(3); break; case 3: q = -1 - (int)c.draw(3); break;
                case 4: (c.draw(2) ? r : q) = c.pick(ext); break; default: (c.draw(2) ? n : m) = c.draw(2) ? -1 - (int)c.draw(3) : 91 + (int)c.draw(4); }
            bool fits = M.fits(r, q, n, m);
            c.note("view %dx%d at (%d,%d)", n, m, r, q);
            if (!fits) {
                bool threw = false; try { auto v = helpers::createViewFrom<S, L>(P, r, q, n, m); } catch (std::exception&) { threw = true; }
                CHECK(threw, "a view of %dx%d at (%d,%d) of a %dx%d tensor was created", n, m, r, q, R, C); agree("after a refused view"); ++bad; continue;
            }
            auto v = helpers::createViewFrom<S, L>(P, r, q, n, m); ++good;
            CHECK(v.rows() == n && v.cols() == m, "view has size %ldx%ld", (long)v.rows(), (long)v.cols());
            for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { CHECK(&v.coeffRef(i, j) == &P.coeffRef(r + i, q + j), "view element (%d,%d) is not tensor element (%d,%d)", i, j, r + i, q + j); CHECK(same((S)v(i, j), M.get(r + i, q + j)), "view reads a wrong value at (%d,%d)", i, j); }
            switch (c.draw(shared ? 6 : 3)) {
                case 0: { int i = c.draw(n), j = c.draw(m); S x = rnd_val<S>(st); v(i, j) = x; M.set(r + i, q + j, x); c.note("  element (%d,%d) set", i, j); break; }
                case 1: { Tensor<S, L> t(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { t(i, j) = rnd_val<S>(st); M.set(r + i, q + j, t(i, j)); } v = t; c.note("  assigned"); break; }
                case 2: { for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { P(r + i, q + j) = rnd_val<S>(st); M.set(r + i, q + j, P(r + i, q + j)); CHECK(same((S)v(i, j), (S)P(r + i, q + j)), "view does not follow the tensor at (%d,%d)", i, j); } c.note("  tensor changed under the view"); break; }
                case 3: case 4: { bool cli = c.draw(2); int y = c.draw(r2 - n + 1), x = c.draw(c2 - m + 1); c.note("  written to shared memory at (%d,%d) by the %s", y, x, cli ? "client" : "server"); As as(cli ? cpid : sp);
                    CHECK(cli ? cl->write(v, y, x) : s->write(v, y, x), "shared write from the view refused");
                    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) SH.set(y + i, x + j, M.get(r + i, q + j));
                    std::string d = cli ? differs<T>(*cl, SH) : differs<T>(*s, SH); CHECK(d.empty(), "after writing from a view: %s", d.c_str()); ++rt; break; }
                default: { bool cli = c.draw(2); int y = c.draw(r2 - n + 1), x = c.draw(c2 - m + 1); c.note("  read from shared memory at (%d,%d) by the %s", y, x, cli ? "client" : "server"); As as(cli ? cpid : sp);
                    CHECK(cli ? cl->read(v, y, x) : s->read(v, y, x), "shared read into the view refused");
                    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) M.set(r + i, q + j, SH.get(y + i, x + j)); ++rt; break; }
            }
            agree("after using the view");
        }
        if (good && (bad || rt || good > 1)) c.nontrivial();
        if (bad) c.label("refused view"); if (rt) c.label("shared memory through a view"); if (L == EigenIPC::ColMajor) c.label("column-major");
        { As as(cpid); cl.destroy(); } s.destroy();
    });
}
PROPERTY(views_alias, 170000, 2500000, "random tensors, types and layouts; views valid and invalid, used for element and block access and as source/destination of shared reads and writes, next to a reference matrix; non-trivial: a valid view plus a refused one, a shared access or a second view") {
    reset(c); int k = c.draw(8); dispatch(k, [&](auto t) { views<decltype(t)>(c); });
}
