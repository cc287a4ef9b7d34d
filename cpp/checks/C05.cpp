// C05: run-time reads and writes never block, allocate or print.
#include "common.hpp"
#include "quiet.hpp"
#include "strings.hpp"
using namespace sim;

template <class T> static void realtime(Case& c) {
    using S = typename T::S; constexpr int L = T::L;
    int R = gen_dim(c), C = gen_dim(c), nc = 1 + c.draw(3), total = nc + 1;
    if (c.chance(0.1)) { C = 1 + (c.chance(0.05) ? 2500000 : 70000) / R / (int)sizeof(S); }
    struct P { char safe; int verb; }; std::vector<P> ps;
    for (int i = 0; i < total; ++i) ps.push_back({(char)!c.chance(0.2), (int)c.draw(5)});
    struct Act { int kind; int n, m, r, q, hold; std::unique_ptr<Block<S, L>> b; std::unique_ptr<EigenIPC::TensorView<S, L>> v; bool fits; };
    std::vector<std::vector<Act>> plan(total);
    c.note("%s %dx%d, %d clients", tyname<T>().c_str(), R, C, nc);
    for (int w = 0; w < total; ++w) {
        c.note("participant %d: safe=%d verbosity=%d", w, ps[w].safe, ps[w].verb);
        for (int i = 1 + c.draw(c.tier_ ? 12 : 6); i-- > 0;) {
            Act a; a.kind = c.weighted({6, 6, 3}); a.hold = c.draw(6);
            a.n = 1 + c.draw(R); a.m = 1 + c.draw(C); if (c.chance(0.3)) { a.n = R; a.m = C; } if (c.chance(0.1)) a.n = R + 1 + c.draw(3);
            a.r = c.draw(std::max(1, R - a.n + 1)); a.q = c.draw(std::max(1, C - a.m + 1));
            if (c.chance(0.1)) a.r = c.chance(0.5) ? -1 : R; if (c.chance(0.05)) a.q = c.chance(0.5) ? INT32_MAX : INT32_MIN;
            a.fits = a.r >= 0 && a.q >= 0 && (long)a.r + a.n <= R && (long)a.q + a.m <= C;
            a.b.reset(new Block<S, L>); a.b->gen(c, a.n, a.m); auto* b = a.b.get();
            if (b->kind == Block<S, L>::VIEW) a.v.reset(new EigenIPC::TensorView<S, L>(EigenIPC::helpers::createViewFrom<S, L>(b->parent, b->r0, b->c0, b->n, b->m)));
            if (b->kind == Block<S, L>::STRIDED) a.v.reset(new EigenIPC::TensorView<S, L>(b->buf + b->base, b->n, b->m, EigenIPC::DStrides(b->outer, b->inner)));
            c.note("participant %d: %s %s at (%d,%d)", w, a.kind == 2 ? "holds the data lock, then" : a.kind ? "read" : "write", b->text().c_str(), a.r, a.q);
            plan[w].push_back(std::move(a));
        }
    }
    int sp = new_process(); std::vector<int> cp; Box<Srv<T>> s; std::vector<std::unique_ptr<Box<Cli<T>>>> cl;
    for (int i = 0; i < nc; ++i) { cp.push_back(new_process()); cl.emplace_back(new Box<Cli<T>>); }
    must_finish(c, solo("setup", sp, [&] {
        s.make(R, C, "t", "n", ps[0].verb > 0, vlevel_of(ps[0].verb - 1), false, ps[0].safe); s->run();
        for (int i = 0; i < nc; ++i) { As as(cp[i]); cl[i]->make("t", "n", ps[i + 1].verb > 0, vlevel_of(ps[i + 1].verb - 1), ps[i + 1].safe); (*cl[i])->attach(); }
    }), "setting up");
    int contended = 0, ops = 0, holding = 0; bool held_some = false;
    auto op = [&](int w, Act& a, bool wr) {
        auto* b = a.b.get(); bool ok = false;
        auto call = [&](auto& o) {
            long b0 = blocking_calls(); count_allocs(true);
            if (a.v) ok = wr ? o.write(*a.v, a.r, a.q) : o.read(*a.v, a.r, a.q);
            else if (b->kind == Block<S, L>::OWNED) ok = wr ? o.write(b->parent, a.r, a.q) : o.read(b->parent, a.r, a.q);
            else ok = wr ? o.write(b->parent.block(b->r0, b->c0, b->n, b->m), a.r, a.q) : o.read(b->parent.block(b->r0, b->c0, b->n, b->m), a.r, a.q);
            count_allocs(false); long al = allocs(), bl = blocking_calls() - b0;
            CHECK(bl == 0, "participant %d: a %s (%s at (%d,%d)) waited or slept %ld time(s)%s", w, wr ? "write" : "read", b->text().c_str(), a.r, a.q, bl, holding ? " while the data lock is held" : "");
            CHECK(al == 0, "participant %d: a %s (%s at (%d,%d), returning %d) allocated heap memory %ld time(s)", w, wr ? "write" : "read", b->text().c_str(), a.r, a.q, ok, al);
        };
        if (w == 0) call(*s); else call(**cl[w - 1]);
        if (!ok && a.fits) ++contended;
        CHECK(!ok || a.fits, "a block that does not fit was accepted"); ++ops;
    };
    int victim = c.chance(0.5) ? (int)c.draw(total) : -1; long at = victim >= 0 ? 1 + c.draw(c.pick(std::vector<int>{12, 4, 40})) : 0;
    if (victim >= 0) c.note("participant %d dies at its scheduling point %ld", victim, at);
    std::vector<int> ids;
    {
        Quiet q;
        for (int w = 0; w < total; ++w) ids.push_back(spawn("participant" + std::to_string(w), w ? cp[w - 1] : sp, [&, w] {
            for (auto& a : plan[w]) {
                if (a.kind < 2) { op(w, a, a.kind == 0); continue; }
                if (ps[w].verb > 1) { op(w, a, true); continue; }  // acquiring may print, which is not what is checked here
                if (w == victim) { if (w == 0) s->dataSemAcquire(); else (*cl[w - 1])->dataSemAcquire(); }
                else { if (holding || victim >= 0) { op(w, a, false); continue; } if (w == 0) s->dataSemAcquire(); else (*cl[w - 1])->dataSemAcquire(); }
                ++holding; held_some = true;
                for (int i = 0; i < a.hold; ++i) yield("holding the data lock");
                op(w, a, false);
                --holding;
                if (w == 0) s->dataSemRelease(); else (*cl[w - 1])->dataSemRelease();
            }
        }));
        if (victim >= 0) kill_at(ids[victim], at);
        must_finish(c, run(), "reads and writes");
        std::string out = q.text();
        CHECK(out.empty(), "reads and writes printed: %.200s", out.c_str());
    }
    bool died = victim >= 0 && dead(ids[victim]);
    // everybody left still returns at once, and works normally if nobody died
    Quiet q2; std::string out;
    must_finish(c, solo("after", sp, [&] {
        for (int w = 0; w < total; ++w) if (!(died && w == victim)) { As as(w ? cp[w - 1] : sp); for (auto& a : plan[w]) { int before = contended; op(w, a, a.kind == 0); if (!died && a.fits) CHECK(contended == before, "participant %d: operation refused although the data lock is free again", w); if (!a.fits) continue; break; } }
    }), "operations afterwards");
    out = q2.text(); CHECK(out.empty(), "reads and writes printed: %.200s", out.c_str());
    if (ops && (contended || died)) c.nontrivial();
    if (contended) c.label("refused because the lock was held"); if (died) c.label("a participant died"); if (held_some) c.label("lock held explicitly");
    solo("teardown", sp, [&] {
        if (died) { for (auto& x : cl) x->leak(); s.leak(); return; }
        for (int i = nc; i-- > 0;) { As as(cp[i]); cl[i]->destroy(); } s.destroy(); });
}
PROPERTY(realtime_calls, 60000, 1500000, "concurrent reads, writes and lock holding by 2-4 participants of any verbosity, with fitting and not fitting blocks of every kind, where one may die at a random scheduling point; blocking calls, heap allocations and output are counted during every call; non-trivial: an operation met a held lock or a participant died") {
    Options o; o.page_yield = c.chance(0.4); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); reset(c, o);
    int k = c.draw(8); dispatch(k, [&](auto t) { realtime<decltype(t)>(c); });
}

// String tensors: reads and writes of texts never wait or print either (a text that is read may need memory).
PROPERTY(string_calls, 14000, 500000, "concurrent reads and writes of single texts and of vectors of texts, fitting or not, by a string server and 1-3 string clients of any verbosity, while one of them holds the data lock or dies; blocking calls and output are counted during every call; non-trivial: a call met a held lock or a participant died") {
    Options o; o.page_yield = c.chance(0.3); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); reset(c, o);
    int N = 1 + c.draw(6), nc = 1 + c.draw(3), total = nc + 1; std::vector<StrPart> ps(total); std::vector<int> verb;
    struct Act { int kind, i, hold; std::vector<std::string> x; bool vec, fits; }; std::vector<std::vector<Act>> plan(total);
    for (int w = 0; w < total; ++w) {
        ps[w].server = w == 0; ps[w].safe = !c.chance(0.2); verb.push_back(c.draw(5)); ps[w].proc = new_process();
        for (int k = 1 + c.draw(5); k-- > 0;) {
            Act a; a.kind = c.weighted({6, 6, 3}); a.vec = c.chance(0.5); a.hold = c.draw(6); a.i = c.chance(0.15) ? c.pick(std::vector<int>{-1, N, N + 3, INT32_MAX, INT32_MIN}) : (int)c.draw(N);
            int n = a.vec ? (int)c.draw(N + 2) : 1; a.fits = a.i >= 0 && a.i < N && (long)a.i + n <= N;
            for (int j = 0; j < n; ++j) { a.x.push_back(c.chance(0.05) ? std::string(1025 + c.draw(40), 'q') : gen_text(c)); if (a.x.back().size() > 1024 && a.kind == 0) a.fits = false; }
            c.note("participant %d: %s%s %d texts at %d", w, a.kind == 2 ? "holds the data lock, then reads" : a.kind ? "reads" : "writes", a.vec ? " a vector of" : "", n, a.i); plan[w].push_back(a);
        }
        c.note("participant %d: safe=%d verbosity=%d", w, ps[w].safe, verb[w]);
    }
    must_finish(c, solo("setup", ps[0].proc, [&] {
        for (int w = 0; w < total; ++w) { As as(ps[w].proc); if (w == 0) ps[w].s.make(N, "t", "n", verb[w] > 0, vlevel_of(verb[w] - 1), false, ps[w].safe); else ps[w].c.make("t", "n", verb[w] > 0, vlevel_of(verb[w] - 1), ps[w].safe); ps[w].run(); }
    }), "setting up");
    int refused = 0, ops = 0, holding = 0;
    auto op = [&](int w, Act& a, bool wr) {
        std::vector<std::string> x = a.x; std::string one = a.vec ? "" : a.x[0]; long b0 = blocking_calls(); bool ok;
        if (a.vec) ok = wr ? ps[w].write(x, a.i) : ps[w].read(x, a.i); else ok = wr ? ps[w].write(one, a.i) : ps[w].read(one, a.i);
        long bl = blocking_calls() - b0;
        CHECK(bl == 0, "participant %d: a string %s (%zu texts at %d) waited or slept %ld time(s)%s", w, wr ? "write" : "read", x.size(), a.i, bl, holding ? " while the data lock is held" : "");
        if (!ok && a.fits) ++refused; ++ops;
    };
    int victim = c.chance(0.4) ? (int)c.draw(total) : -1; long at = victim >= 0 ? 1 + c.draw(c.pick(std::vector<int>{12, 4, 40})) : 0;
    if (victim >= 0) c.note("participant %d dies at its scheduling point %ld", victim, at);
    std::vector<int> ids; std::string out;
    {
        Quiet q;
        for (int w = 0; w < total; ++w) ids.push_back(spawn("participant" + std::to_string(w), ps[w].proc, [&, w] {
            for (auto& a : plan[w]) {
                if (a.kind < 2) { op(w, a, a.kind == 0); continue; }
                if (verb[w] > 1 || (w != victim && (holding || victim >= 0))) { op(w, a, false); continue; }   // acquiring may print, and the victim's lock is not waited for
                ps[w].acquire(); ++holding; for (int i = 0; i < a.hold; ++i) yield("holding the data lock");
                op(w, a, false); --holding; ps[w].release();
            }
        }));
        if (victim >= 0) kill_at(ids[victim], at);
        must_finish(c, run(), "string reads and writes"); out = q.text();
    }
    CHECK(out.empty(), "string reads and writes printed: %.200s", out.c_str());
    bool died = victim >= 0 && dead(ids[victim]);
    if (refused || died) c.nontrivial();
    if (refused) c.label("refused because the lock was held"); if (died) c.label("a participant died");
    solo("teardown", ps[0].proc, [&] { if (died) { for (auto& p : ps) { p.c.leak(); p.s.leak(); } return; } for (int w = total; w-- > 0;) { As as(ps[w].proc); ps[w].destroy(); } });
}
