// C15: strings survive the shared string tensor byte for byte.
#include "strings.hpp"
using namespace sim;
using namespace EigenIPC;

PROPERTY(round_trips, 45000, 1500000, "sequential histories of single and vector writes and reads, at any index, by a string server and 0-3 clients (some attached in the middle of the history), compared with a vector of strings after each write; non-trivial: an entry was overwritten by a shorter text, or a text of 1000 or more bytes or with bytes above 127 was read back") {
    reset(c); int nc = c.draw(4), len = c.chance(0.003) ? 200 + c.draw(1000) : c.weighted({3, 1}) ? 1 + c.draw(40) : 1 + c.draw(6), steps = 2 + c.draw(c.tier_ ? 24 : 12), verb = c.draw_biased(5, 0.1);
    std::vector<std::unique_ptr<StrPart>> ps; for (int i = 0; i <= nc; ++i) { ps.emplace_back(new StrPart); ps[i]->proc = new_process(); ps[i]->server = i == 0; ps[i]->safe = !c.chance(0.4); }
    c.note("length %d, %d clients", len, nc);
    std::vector<std::string> M(len); bool interesting = false; std::vector<char> never(len, 1);
    auto verify = [&](int w, const char* when) {
        StrPart& p = *ps[w]; As as(p.proc); if (!p.up) return;
        CHECK(p.length() == len, "participant %d reports length %d instead of %d", w, p.length(), len);
        std::vector<std::string> v(len, "old"); CHECK(p.read(v, 0), "%s: participant %d: reading all %d strings was refused", when, w, len);
        CHECK((int)v.size() == len, "%s: participant %d: reading changed the number of strings to %zu", when, w, v.size());
        for (int i = 0; i < len; ++i) CHECK(v[i] == M[i], "%s: participant %d reads %s at index %d, written was %s%s", when, w, show(v[i]).c_str(), i, show(M[i]).c_str(), never[i] ? " (nothing)" : "");
    };
    sequential(c, [&] {
        { As as(ps[0]->proc); ps[0]->s.make(len, "t", "n", verb > 0, vlevel_of(verb - 1), false, ps[0]->safe); ps[0]->run(); CHECK(ps[0]->isRunning(), "the server does not run"); }
        for (int i = 1; i <= nc; ++i) { As as(ps[i]->proc); ps[i]->c.make("t", "n", verb > 0, vlevel_of(verb - 1), ps[i]->safe); if (c.chance(0.7)) ps[i]->run(); }
        for (int k = 0; k < steps; ++k) {
            int w = c.draw(nc + 1); StrPart& p = *ps[w]; As as(p.proc);
            if (!p.up) { p.run(); c.note("client %d attaches", w); verify(w, "on attaching"); continue; }
            int i = c.draw(len);
            switch (c.weighted({5, 5, 3, 3, 1})) {
                case 0: { std::string x = gen_text(c); c.note("participant %d writes %s at %d", w, show(x).c_str(), i); CHECK(p.write(x, i), "participant %d: writing %s at index %d of %d was refused", w, show(x).c_str(), i, len); if (x.size() < M[i].size() || x.size() >= 1000) interesting = true; for (char b : x) interesting |= (b & 0x80) != 0; M[i] = x; never[i] = 0; break; }
                case 1: { int n = c.draw(len - i + 1); std::vector<std::string> v; for (int j = 0; j < n; ++j) v.push_back(gen_text(c)); c.note("participant %d writes %d strings at %d", w, n, i); for (auto& x : v) c.note("%s", show(x).c_str()); auto w0 = v; CHECK(p.write(v, i), "participant %d: writing %d strings at index %d of %d was refused", w, n, i, len); CHECK(v == w0, "writing changed the caller's strings"); for (int j = 0; j < n; ++j) { if (v[j].size() < M[i + j].size() || v[j].size() >= 1000) interesting = true; M[i + j] = v[j]; never[i + j] = 0; } break; }
                case 2: { std::string x = c.chance(0.5) ? "previous content" : ""; CHECK(p.read(x, i), "participant %d: reading index %d of %d was refused", w, i, len); CHECK(x == M[i], "participant %d reads %s at index %d, written was %s", w, show(x).c_str(), i, show(M[i]).c_str()); continue; }
                case 3: { int n = c.draw(len - i + 1); std::vector<std::string> v(n, c.chance(0.5) ? "previous content" : ""); CHECK(p.read(v, i), "participant %d: reading %d strings at index %d of %d was refused", w, n, i, len); CHECK((int)v.size() == n, "reading %d strings gave %zu", n, v.size()); for (int j = 0; j < n; ++j) CHECK(v[j] == M[i + j], "participant %d reads %s at index %d (range of %d from %d), written was %s", w, show(v[j]).c_str(), i + j, n, i, show(M[i + j]).c_str()); continue; }
                default: if (w) { if (c.chance(0.5)) p.destroy(); else p.close(); if (!p.c) p.c.make("t", "n", verb > 0, vlevel_of(verb - 1), p.safe); c.note("client %d leaves", w); } continue;
            }
            verify(c.draw(nc + 1), "after a write");
        }
        for (int w = 0; w <= nc; ++w) verify(w, "finally");
        for (int w = nc; w >= 0; --w) { As as(ps[w]->proc); ps[w]->destroy(); }
    });
    if (interesting) c.nontrivial();
}

// every length and every byte value at every position modulo the packing, exhaustively
PROPERTY(every_length, 1025, 1025, "every length 0 to 1024 once (the case index): written by the server over a full-length text and by a client into a fresh entry, read singly and as vectors on both sides, with every byte value passing through every position of the packed words; non-trivial: the length is positive") {
    reset(c); int n = (int)(pbt::g_index % 1025); c.note("length %d", n);
    sequential(c, [&] {
        StrPart s, k; s.server = true; s.proc = process(); k.proc = new_process();
        s.s.make(3, "t", "n", false, VLevel::V0, false, true); s.run(); { As as(k.proc); k.c.make("t", "n", false, VLevel::V0, true); k.run(); }
        std::string x, full(1024, '\xff'); for (int i = 0; i < n; ++i) x += (char)(1 + (i + n * 7 + i / 255) % 255);
        CHECK(s.write(std::vector<std::string>{full, full, full}, 0), "writing full-length texts was refused");
        CHECK(s.write(x, 1), "writing %s was refused", show(x).c_str());
        { As as(k.proc); CHECK(k.write(std::vector<std::string>{x}, 2), "writing %s was refused", show(x).c_str()); }
        for (StrPart* p : {&s, &k}) { As as(p->proc); std::vector<std::string> v(3, "q"); CHECK(p->read(v, 0), "read refused"); CHECK(v[0] == full && v[1] == x && v[2] == x, "a text of %d bytes is read as %s and %s (next to it: %s)", n, show(v[1]).c_str(), show(v[2]).c_str(), show(v[0]).c_str());
            for (int i = 1; i < 3; ++i) { std::string y = "zz"; CHECK(p->read(y, i) && y == x, "a text of %d bytes is read singly as %s", n, show(y).c_str()); } }
        { As as(k.proc); k.destroy(); } s.destroy();
    });
    if (n) c.nontrivial();
}
