// C16: out-of-range or oversized string operations, and those on objects not running, are refused cleanly.
#include "strings.hpp"
using namespace sim;
using namespace EigenIPC;

static int bad_index(Case& c, int len) { switch (c.draw(7)) { case 0: return -1; case 1: return len; case 2: return -1 - (int)c.draw(100); case 3: return len + c.draw(100); case 4: return INT_MIN + (int)c.draw(3); case 5: return INT_MAX - (int)c.draw(3); default: return -len; } }
static std::string oversized(Case& c) { return text_of(c, c.pick(std::vector<int>{1025, 1026, 1027, 1028, 1029, 1100, 2048, 4096, 5000, 70000})); }

PROPERTY(refusals, 45000, 1500000, "histories of a string server and 1-3 clients in which valid writes alternate with refused operations (bad single indices, ranges beyond the end, overflowing indices, oversized texts alone or within vectors, objects not run yet or closed, lock held); after each refusal all entries are compared on every participant; non-trivial: at least two refusals between valid writes") {
    reset(c); int nc = 1 + c.draw(3), len = c.chance(0.003) ? 200 + c.draw(1000) : 1 + c.draw(12), steps = 3 + c.draw(c.tier_ ? 24 : 12), verb = c.draw_biased(5, 0.2), refused = 0, valid = 0, mix = 0;
    std::vector<std::unique_ptr<StrPart>> ps; for (int i = 0; i <= nc; ++i) { ps.emplace_back(new StrPart); ps[i]->proc = new_process(); ps[i]->server = i == 0; ps[i]->safe = !c.chance(0.3); }
    std::vector<std::string> M(len); int holder = -1; bool server_up = false; c.note("length %d, %d clients", len, nc);
    auto usable = [&](int w) { return ps[w]->up && (w == 0 || server_up); };
    auto verify = [&](const char* when) {
        for (int w = 0; w <= nc; ++w) { StrPart& p = *ps[w]; if (!usable(w) || (holder != -1 && p.safe)) continue; As as(p.proc);
            std::vector<std::string> v(len, "old"); CHECK(p.read(v, 0), "after %s: participant %d: reading all strings was refused", when, w);
            for (int i = 0; i < len; ++i) CHECK(v[i] == M[i], "after %s: participant %d reads %s at index %d, expected %s", when, w, show(v[i]).c_str(), i, show(M[i]).c_str()); }
    };
    auto refuse = [&](int w) {       // one operation that must be refused
        StrPart& p = *ps[w]; As as(p.proc); bool wr = c.chance(0.6), single = c.chance(0.5); bool closed = !p.up; bool contended = !closed && holder != -1 && holder != w && p.safe;
        int i = c.draw(len), n = 1 + c.draw(len - i); bool r; std::string what;
        int how = closed ? c.draw(4) : contended ? 0 : 1 + c.draw(wr ? 3 : 2);
        std::string x = gen_text(c); std::vector<std::string> v; for (int j = 0; j < n; ++j) v.push_back(wr && j ? gen_text(c) : "caller's text " + std::to_string(j));
        if (how == 1) { i = bad_index(c, len); }
        else if (how == 2) { single = false; n = len - i + 1 + c.draw(c.pick(std::vector<int>{1, 5, 2000})); while ((int)v.size() < n) v.push_back("x"); }
        else if (how == 3) { x = oversized(c); v[c.draw((uint32_t)v.size())] = x; wr = true; }
        if (!single && how == 1 && v.empty()) v.push_back("y");
        auto x0 = x; auto v0 = v;
        if (wr) r = single ? p.write(x, i) : p.write(v, i); else r = single ? p.read(x, i) : p.read(v, i);
        char b[200]; snprintf(b, sizeof b, "%s %s %s at index %d of %d%s%s", wr ? "writing" : "reading", single ? "a string of" : "strings:", single ? show(x0).c_str() : std::to_string(v.size()).c_str(), i, len, closed ? " on an object not running" : "", contended ? " while the lock is held" : ""); what = b;
        c.note("participant %d: %s", w, what.c_str());
        CHECK(!r, "%s succeeded", what.c_str());
        CHECK(x == x0 && v == v0, "%s was refused, but changed the caller's strings", what.c_str());
        CHECK(p.isRunning() == p.up, "after %s, participant %d reports running=%d", what.c_str(), w, p.isRunning());
        ++refused; verify(what.c_str());
    };
    sequential(c, [&] {
        { As as(ps[0]->proc); ps[0]->s.make(len, "t", "n", verb > 0, vlevel_of(verb - 1), false, ps[0]->safe); }
        for (int i = 1; i <= nc; ++i) { As as(ps[i]->proc); ps[i]->c.make("t", "n", verb > 0, vlevel_of(verb - 1), ps[i]->safe); }
        for (int k = c.draw(3); k-- > 0;) refuse(c.draw(nc + 1));                       // nothing runs yet
        { As as(ps[0]->proc); ps[0]->run(); server_up = true; }
        for (int i = 1; i <= nc; ++i) if (c.chance(0.8)) { As as(ps[i]->proc); ps[i]->run(); }
        for (int k = 0; k < steps; ++k) {
            int w = c.draw(nc + 1); StrPart& p = *ps[w];
            switch (c.weighted({6, 4, 1, 1})) {
                case 0: refuse(w); break;
                case 1: if (usable(w) && (holder == -1 || !p.safe)) { As as(p.proc); int i = c.draw(len); if (c.chance(0.5)) { std::string x = gen_text(c); CHECK(p.write(x, i), "participant %d: writing %s at index %d of %d was refused", w, show(x).c_str(), i, len); M[i] = x; } else { int n = 1 + c.draw(len - i); std::vector<std::string> v; for (int j = 0; j < n; ++j) v.push_back(gen_text(c)); CHECK(p.write(v, i), "participant %d: writing %d strings at index %d of %d was refused", w, n, i, len); for (int j = 0; j < n; ++j) M[i + j] = v[j]; } if (refused && valid) ++mix; ++valid; c.note("participant %d writes", w); verify("a valid write"); } break;
                case 2: if (p.up && holder == -1) { As as(p.proc); p.acquire(); holder = w; c.note("participant %d acquires the lock", w); } else if (holder != -1) { As as(ps[holder]->proc); ps[holder]->release(); holder = -1; c.note("the lock is released"); verify("releasing the lock"); } break;
                default: if (w && holder == -1) { As as(p.proc); if (p.up) { p.close(); c.note("client %d closes", w); } else { p.run(); c.note("client %d runs", w); } verify("closing or running a client"); } break;
            }
        }
        if (holder != -1) { As as(ps[holder]->proc); ps[holder]->release(); holder = -1; }
        verify("the history");
        for (int w = nc; w >= 0; --w) { As as(ps[w]->proc); ps[w]->close(); if (w == 0) server_up = false; if (c.chance(0.5)) refuse(w); ps[w]->destroy(); }
    });
    if (refused >= 2 && mix) c.nontrivial();
}
