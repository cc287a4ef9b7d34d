// C11: every lifecycle path releases its resources exactly once.
// The simulated kernel fails a case as soon as a handle is closed or used that the process does not own.
#include "slots.hpp"

PROPERTY(lifecycles, 90000, 2500000, "up to 8 objects of all kinds on shared names, in separate or shared processes, driven through random sequences of every lifecycle call; handles are booked on the object that obtained them; non-trivial: at least three objects were destroyed or closed, one of them more than once or without ever being run") {
    reset(c); World w{c, {}};
    int n = 1 + c.draw(8), p0 = new_process(); bool share = c.chance(0.3);
    for (int i = 0; i < n; ++i) {
        int p = share && c.chance(0.6) ? p0 : new_process(), v = c.draw_biased(5, 0.1), k = c.weighted({6, 8, 3, 3, 4, 3, 4, 4, 2}); std::string t = c.chance(0.7) ? "ta" : "tb"; Slot* s;
        switch (k) { case 0: s = new TensorServer(w, p, t, v); break; case 1: s = new TensorClient<CI>(w, p, t, v); break; case 2: s = c.chance(0.5) ? (Slot*)new TensorClient<CD>(w, p, t, v) : (Slot*)new TensorClient<CC>(w, p, t, v); break;
            case 3: s = new StrServerSlot(w, p, "str", v); break; case 4: s = new StrClientSlot(w, p, "str", v); break; case 5: s = new ProdSlot(w, p, "pc", v); break; case 6: s = new ConsSlot(w, p, "pc", v); break; case 7: s = new CondSlot(w, p, "cv", v); break; default: s = new TensorServer(w, p, t, v); }
        w.slots.emplace_back(s);
    }
    int steps = 4 + c.draw(c.tier_ ? 60 : 34), ended = 0, odd = 0; bool ordered = c.chance(0.5);
    sequential(c, [&] {
        std::vector<int> was_closed(n, 0), was_run(n, 0);
        auto owner = [](Slot* s) { if (auto* x = dynamic_cast<TensorServer*>(s)) return x->alive(); if (auto* x = dynamic_cast<StrServerSlot*>(s)) return x->alive(); if (auto* x = dynamic_cast<ProdSlot*>(s)) return x->alive(); if (auto* x = dynamic_cast<CondSlot*>(s)) return x->alive(); return false; };
        auto after = [&](int i, const std::string& what) {
            // what belongs to an open server, producer or condition variable is released by nobody else
            for (auto& x : w.slots) {
                if (!owner(x.get())) { x->mine.clear(); continue; }
                auto now = linked_names(x->name);
                for (auto& m : x->mine) CHECK(std::find(now.begin(), now.end(), m) != now.end(), "\"%s\" of %s %d removed %s, which belongs to the open %s (%s)", what.c_str(), w.slots[i]->kind(), i, m.c_str(), x->kind(), x->name.c_str());
                if (x.get() == w.slots[i].get()) x->mine = now;
            }
            Slot& s = *w.slots[i]; bool closed = what == "close", gone = what == "destroyed" || what == "opening refused" || what == "creation refused";
            if (what == "run" || what == "attach" || what == "created" || what == "opened") was_run[i] = 1;
            if (closed || gone) { ++ended; if (was_closed[i]++ || !was_run[i]) ++odd; if (gone) was_closed[i] = was_run[i] = 0; }
            bool cond_closed = closed && dynamic_cast<CondSlot*>(&s);   // destroying releases the mappings of a condition variable
            if ((closed && !cond_closed) || gone) { std::string l = s.leak(); CHECK(l.empty(), "after \"%s\", %s %d (%s) still holds %s: %s", what.c_str(), s.kind(), i, s.name.c_str(), l.c_str(), resources_text(s.proc).c_str()); }
            if (closed || gone) {
                bool sem; if (dynamic_cast<TensorServer*>(&s) || dynamic_cast<StrServerSlot*>(&s)) { bool live_other = s.open(); for (auto& x : w.slots) if (x.get() != &s && x->name == s.name && x->open() && (dynamic_cast<TensorServer*>(x.get()) || dynamic_cast<StrServerSlot*>(x.get()))) live_other = true;
                    if (!live_other) { int k = linked(s.name, sem); std::string all; for (auto& x : names()) all += x + " "; CHECK(k <= 1 && !sem, "after \"%s\" of the %s (%s), names of the tensor remain: %s", what.c_str(), s.kind(), s.name.c_str(), all.c_str()); } }
                if (dynamic_cast<ProdSlot*>(&s)) { bool live_other = false; for (auto& x : w.slots) if (auto* q = dynamic_cast<ProdSlot*>(x.get())) live_other |= q->alive(); if (!live_other) { int k = linked("pc", sem); std::string all; for (auto& x : names()) all += x + " "; CHECK(k <= 2 && !sem, "after \"%s\" of the producer, names remain: %s", what.c_str(), all.c_str()); } }
                if (auto* q = dynamic_cast<CondSlot*>(&s)) if (q->srv && what != "opening refused" && what != "creation refused") { bool live_other = false; for (auto& x : w.slots) if (auto* y = dynamic_cast<CondSlot*>(x.get())) live_other |= y->alive(); if (!live_other) { int k = linked("cv", sem); CHECK(k == 0, "after \"%s\" of the condition variable's creator its names remain", what.c_str()); } }
            }
        };
        for (int k = 0; k < steps; ++k) {
            int i = ordered ? (k < n ? k : (int)c.draw(n)) : (int)c.draw(n), op = c.draw(24), a = c.draw(60); if (ordered && k >= n && k < 2 * n) { i = k - n; op = 0; }
            std::string what = w.slots[i]->step(op, a); if (what.empty()) continue;
            c.note("%s %d (%s): %s", w.slots[i]->kind(), i, w.slots[i]->name.c_str(), what.c_str());
            after(i, what);
        }
        int first = c.draw(n);
        for (int k = 0; k < n; ++k) { int i = (first + k) % n; w.slots[i]->destroy(); c.note("%s %d: destroyed", w.slots[i]->kind(), i); after(i, "destroyed"); }
        for (auto& s : w.slots) { Res r = resources(s->proc); CHECK(r.fds == 0 && r.maps == 0 && r.sems == 0, "after the destruction of all objects the process still holds: %s", resources_text(s->proc).c_str()); }
    });
    if (ended - n >= 2 && odd) c.nontrivial();
    if (share) c.label("objects share a process");
}
