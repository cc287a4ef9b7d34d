// C03: safe reads and writes are atomic (linearizable) under every interleaving.
#include "common.hpp"
#include <EigenIPC/StringTensor.hpp>
using namespace sim;

// An operation of a concurrent history over a grid of cells; stamp 0 is the initial content.
struct Op {
    int who; bool wr; int r0, r1, c0, c1;   // cells [r0,r1) x [c0,c1)
    int stamp = 0; bool ok = false; long inv = 0, res = 0; std::vector<int> seen;
};
static long g_clock;

// Is there an order of the successful operations, consistent with real time, that explains every read?
static bool linearizable(const std::vector<Op>& h, int cols, std::vector<int>& grid, unsigned done, std::set<std::pair<unsigned, std::vector<int>>>& dead_ends) {
    unsigned all = (1u << h.size()) - 1;
    if (done == all) return true;
    if (!dead_ends.empty() && dead_ends.count({done, grid})) return false;
    long lim = LONG_MAX;
    for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) lim = std::min(lim, h[i].res);
    for (size_t i = 0; i < h.size(); ++i) {
        if (done >> i & 1 || h[i].inv > lim) continue;
        const Op& o = h[i]; int k = 0; bool ok = true; std::vector<int> old;
        if (!o.wr) { for (int r = o.r0; r < o.r1 && ok; ++r) for (int q = o.c0; q < o.c1; ++q) if (grid[r * cols + q] != o.seen[k++]) { ok = false; break; } }
        if (!ok) continue;
        if (o.wr) { old = grid; for (int r = o.r0; r < o.r1; ++r) for (int q = o.c0; q < o.c1; ++q) grid[r * cols + q] = o.stamp; }
        if (linearizable(h, cols, grid, done | 1u << i, dead_ends)) return true;
        if (o.wr) grid = old;
    }
    dead_ends.insert({done, grid});
    return false;
}
static std::string show(const std::vector<Op>& h) {
    std::string s;
    for (auto& o : h) { char b[160]; snprintf(b, sizeof b, "  [%ld,%ld] participant %d %s cells %d-%d x %d-%d ", o.inv, o.res, o.who, o.wr ? "writes" : "reads", o.r0, o.r1, o.c0, o.c1); s += b; if (o.wr) s += std::to_string(o.stamp); else { s += "->"; for (int v : o.seen) s += " " + std::to_string(v); } s += "\n"; }
    return s;
}
static bool overlapping(const std::vector<Op>& h) {
    for (auto& a : h) for (auto& b : h) if (&a != &b && a.who != b.who && (a.wr || b.wr) && a.inv < b.res && b.inv < a.res) return true;
    return false;
}

template <class T> static void concurrent(Case& c) {
    using S = typename T::S; constexpr int L = T::L;
    // the tensor spans several pages, so that copies can be interrupted
    int bytes = 4096 + c.draw(3 * 4096), n = std::max(2, bytes / (int)sizeof(S)), k = 1 + c.draw(6), R = k, C = std::max(1, n / k);
    if (c.chance(0.5)) std::swap(R, C);
    std::vector<int> rc = {0, R}, cc = {0, C};
    for (int i = c.draw(3); i-- > 0;) rc.push_back(c.draw(R + 1));
    for (int i = c.draw(3); i-- > 0;) cc.push_back(c.draw(C + 1));
    for (auto* v : {&rc, &cc}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
    int GR = (int)rc.size() - 1, GC = (int)cc.size() - 1;
    int nc = 1 + c.draw(2), verb = c.draw_biased(5, 0.15); bool late = c.chance(0.15);
    c.note("%s %dx%d, %d clients%s, rows cut at", tyname<T>().c_str(), R, C, nc, late ? " (the last attaches meanwhile)" : "");
    std::string cuts; for (int x : rc) cuts += " " + std::to_string(x); cuts += ", columns at"; for (int x : cc) cuts += " " + std::to_string(x); c.note("%s", cuts.c_str());
    std::vector<std::vector<Op>> plan(nc + 1); int stamp = 0, total = 0;
    for (int w = 0; w <= nc; ++w) for (int i = 1 + c.draw(3); i-- > 0;) {
        Op o; o.who = w; o.wr = c.draw(2) == 0;
        o.r0 = 0; o.r1 = GR; o.c0 = 0; o.c1 = GC;
        if (c.chance(0.4)) { o.r0 = c.draw(GR); o.r1 = o.r0 + 1 + c.draw(GR - o.r0); }
        if (c.chance(0.4)) { o.c0 = c.draw(GC); o.c1 = o.c0 + 1 + c.draw(GC - o.c0); }
        if (o.wr) o.stamp = ++stamp;
        c.note("participant %d: %s cells %d-%d x %d-%d %s", w, o.wr ? "write" : "read", o.r0, o.r1, o.c0, o.c1, o.wr ? std::to_string(o.stamp).c_str() : "");
        plan[w].push_back(o); ++total;
    }
    std::vector<int> form(64); for (auto& f : form) f = c.draw(2);
    int sp = new_process(), used = 0; std::vector<int> cp;
    Box<Srv<T>> s; std::vector<std::unique_ptr<Box<Cli<T>>>> cl;
    for (int i = 0; i < nc; ++i) { cp.push_back(new_process()); cl.emplace_back(new Box<Cli<T>>); }
    g_clock = 0;
    must_finish(c, solo("setup", sp, [&] {
        s.make(R, C, "t", "n", verb > 0, vlevel_of(verb - 1), false, true); s->run();
        for (int i = 0; i < nc; ++i) { As as(cp[i]); cl[i]->make("t", "n", verb > 0, vlevel_of(verb - 1), true); if (!(late && i == nc - 1)) (*cl[i])->attach(); }
    }), "setting up");
    std::vector<Op> hist;
    auto work = [&](int w) {
        for (Op o : plan[w]) {
            int fm = form[(used++) % 64];
            int r = rc[o.r0], q = cc[o.c0], n = rc[o.r1] - r, m = cc[o.c1] - q;
            EigenIPC::Tensor<S, L> buf(n, m); S untouched = (S)-7;
            for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) buf(i, j) = o.wr ? (S)o.stamp : untouched;
            o.inv = ++g_clock; yield("invoke");
            if (fm) { EigenIPC::TensorView<S, L> v(buf.data(), n, m, EigenIPC::DStrides(buf.outerStride(), 1));
                if (w == 0) o.ok = o.wr ? s->write(v, r, q) : s->read(v, r, q); else o.ok = o.wr ? (*cl[w - 1])->write(v, r, q) : (*cl[w - 1])->read(v, r, q); }
            else { if (w == 0) o.ok = o.wr ? s->write(buf, r, q) : s->read(buf, r, q); else o.ok = o.wr ? (*cl[w - 1])->write(buf, r, q) : (*cl[w - 1])->read(buf, r, q); }
            yield("respond"); o.res = ++g_clock;
            if (!o.wr && !o.ok) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) CHECK(same((S)buf(i, j), untouched), "a read that reported failure changed the caller's buffer");
            if (!o.wr && o.ok) for (int a = o.r0; a < o.r1; ++a) for (int b = o.c0; b < o.c1; ++b) {
                S x = buf(rc[a] - r, cc[b] - q);
                for (int i = rc[a] - r; i < rc[a + 1] - r; ++i) for (int j = cc[b] - q; j < cc[b + 1] - q; ++j)
                    CHECK(same((S)buf(i, j), x), "participant %d read a mixture of writes: (%d,%d) holds %g, (%d,%d) holds %g, which every write of one covers together", w, rc[a], cc[b], (double)x, r + i, q + j, (double)buf(i, j));
                o.seen.push_back((int)x);
            }
            if (o.ok) hist.push_back(o);
        }
    };
    bool stopping = c.chance(0.15);
    for (int w = 0; w <= nc; ++w) spawn(w ? "client" + std::to_string(w) : "server", w ? cp[w - 1] : sp, [&, w] {
        if (late && w == nc) (*cl[w - 1])->attach();
        work(w);
        if (w == 0 && stopping) { s->stop(); s->run(); }
    });
    must_finish(c, run(), "concurrent reads and writes");
    must_finish(c, solo("finally", sp, [&] {
        Op o; o.who = 99; o.wr = false; o.r0 = 0; o.r1 = GR; o.c0 = 0; o.c1 = GC; o.inv = ++g_clock;
        EigenIPC::Tensor<S, L> buf(R, C); bool ok = s->read(buf); o.res = ++g_clock; o.ok = ok;
        CHECK(ok, "the tensor cannot be read although nobody uses it anymore");
        for (int a = 0; a < GR; ++a) for (int b = 0; b < GC; ++b) { S x = buf(rc[a], cc[b]); for (int i = rc[a]; i < rc[a + 1]; ++i) for (int j = cc[b]; j < cc[b + 1]; ++j) CHECK(same((S)buf(i, j), x), "finally the tensor holds a mixture of writes: %g at (%d,%d), %g at (%d,%d)", (double)x, rc[a], cc[b], (double)buf(i, j), i, j); o.seen.push_back((int)x); }
        hist.push_back(o);
    }), "final read");
    std::vector<int> grid(GR * GC, 0); std::set<std::pair<unsigned, std::vector<int>>> de;
    CHECK(linearizable(hist, GC, grid, 0, de), "no order of the successful operations explains the results:\n%s", show(hist).c_str());
    if (overlapping(hist)) c.nontrivial();
    if ((int)hist.size() - 1 < total) c.label("an operation was refused because of contention"); if (late) c.label("attach during operations");
    solo("teardown", sp, [&] { for (int i = nc; i-- > 0;) { As as(cp[i]); cl[i]->destroy(); } s.destroy(); });
}
PROPERTY(block_atomicity, 50000, 1500000, "2-3 participants with 1-3 block reads or stamped writes each on a tensor of 1-4 pages, context switches at system calls and inside the copies; non-trivial: two successful operations of different participants, one a write, overlapped in time") {
    Options o; o.page_yield = true; o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); reset(c, o);
    using namespace EigenIPC;
    switch (c.draw(6)) { case 0: concurrent<Ty<int, RowMajor>>(c); break; case 1: concurrent<Ty<int, ColMajor>>(c); break; case 2: concurrent<Ty<float, RowMajor>>(c); break;
        case 3: concurrent<Ty<float, ColMajor>>(c); break; case 4: concurrent<Ty<double, RowMajor>>(c); break; default: concurrent<Ty<double, ColMajor>>(c); }
}

// ---------------------------------------------------------------- string tensor
typedef EigenIPC::StringTensor<EigenIPC::StrServer> SS; typedef EigenIPC::StringTensor<EigenIPC::StrClient> SC;
static std::string text_of(int stamp, int len) { std::string s = stamp ? "<" + std::to_string(stamp) + ">" : ""; while (stamp && (int)s.size() < len) s += (char)('a' + (stamp + s.size()) % 26); return s; }

PROPERTY(string_atomicity, 30000, 800000, "2-3 participants with 1-3 whole, partial or single reads and stamped writes each on a safe string tensor, context switches at system calls and inside the copies; non-trivial: two successful operations of different participants, one a write, overlapped in time") {
    Options op; op.page_yield = true; op.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); reset(c, op);
    int N = 1 + c.draw(5), nc = 1 + c.draw(2); std::vector<std::vector<Op>> plan(nc + 1); std::vector<int> len(1, 0); int total = 0;
    c.note("string tensor of %d entries, %d clients", N, nc);
    for (int w = 0; w <= nc; ++w) for (int i = 1 + c.draw(3); i-- > 0;) {
        Op o; o.who = w; o.wr = c.draw(2) == 0; o.r0 = 0; o.r1 = 1; o.c0 = 0; o.c1 = N;
        if (c.chance(0.5)) { o.c0 = c.draw(N); o.c1 = o.c0 + 1 + c.draw(N - o.c0); }
        if (o.wr) { o.stamp = (int)len.size(); len.push_back(c.pick(std::vector<int>{4, 1024, 0, 500, 1023}) ); }
        c.note("participant %d: %s entries %d-%d %s", w, o.wr ? "write" : "read", o.c0, o.c1, o.wr ? (std::to_string(o.stamp) + " of length " + std::to_string(text_of(o.stamp, len[o.stamp]).size())).c_str() : "");
        plan[w].push_back(o); ++total;
    }
    std::vector<int> form(64); for (auto& f : form) f = c.draw(2);
    int sp = new_process(), used = 0; std::vector<int> cp; Box<SS> s; std::vector<std::unique_ptr<Box<SC>>> cl;
    for (int i = 0; i < nc; ++i) { cp.push_back(new_process()); cl.emplace_back(new Box<SC>); }
    g_clock = 0;
    must_finish(c, solo("setup", sp, [&] { s.make(N, "t", "n", false, VLevel::V0, false, true); s->run(); for (int i = 0; i < nc; ++i) { As as(cp[i]); cl[i]->make("t", "n", false, VLevel::V0, true); (*cl[i])->run(); } }), "setting up");
    std::vector<Op> hist;
    auto stamp_of = [&](const std::string& x, int entry, int w) {
        if (x.empty()) return 0;
        int st = x[0] == '<' ? atoi(x.c_str() + 1) : -1;
        CHECK(st > 0 && st < (int)len.size() && x == text_of(st, len[st]), "participant %d read a text nobody wrote as entry %d: \"%.40s\" (length %zu)", w, entry, x.c_str(), x.size());
        return st;
    };
    auto one = [&](int w, Op o, bool single) {
        o.inv = ++g_clock; yield("invoke");
        if (o.wr) {
            std::string x = text_of(o.stamp, len[o.stamp]);
            if (single) o.ok = w == 0 ? s->write(x, o.c0) : (*cl[w - 1])->write(x, o.c0);
            else { std::vector<std::string> v(o.c1 - o.c0, x); o.ok = w == 0 ? s->write(v, o.c0) : (*cl[w - 1])->write(v, o.c0); }
            yield("respond"); o.res = ++g_clock;
        } else {
            std::vector<std::string> v(o.c1 - o.c0, "@");
            if (single) o.ok = w == 0 ? s->read(v[0], o.c0) : (*cl[w - 1])->read(v[0], o.c0);
            else o.ok = w == 0 ? s->read(v, o.c0) : (*cl[w - 1])->read(v, o.c0);
            yield("respond"); o.res = ++g_clock;
            for (int i = 0; i < (int)v.size(); ++i) if (o.ok) o.seen.push_back(stamp_of(v[i], o.c0 + i, w)); else CHECK(v[i] == "@", "a read that reported failure changed the caller's strings");
        }
        if (o.ok) hist.push_back(o);
    };
    for (int w = 0; w <= nc; ++w) spawn(w ? "client" + std::to_string(w) : "server", w ? cp[w - 1] : sp, [&, w] { for (Op o : plan[w]) { bool single = o.c1 - o.c0 == 1 && form[(used++) % 64]; one(w, o, single); } });
    must_finish(c, run(), "concurrent string operations");
    must_finish(c, solo("finally", sp, [&] { Op o; o.who = 0; o.wr = false; o.r0 = 0; o.r1 = 1; o.c0 = 0; o.c1 = N; size_t before = hist.size(); one(0, o, false); CHECK(hist.size() == before + 1, "the string tensor cannot be read although nobody uses it anymore"); }), "final read");
    std::vector<int> grid(N, 0); std::set<std::pair<unsigned, std::vector<int>>> de;
    CHECK(linearizable(hist, N, grid, 0, de), "no order of the successful operations explains the results:\n%s", show(hist).c_str());
    if (overlapping(hist)) c.nontrivial();
    if ((int)hist.size() - 1 < total) c.label("an operation was refused because of contention");
    solo("teardown", sp, [&] { for (int i = nc; i-- > 0;) { As as(cp[i]); cl[i]->destroy(); } s.destroy(); });
}
