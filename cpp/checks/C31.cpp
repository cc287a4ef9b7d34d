// C31: verbosity changes the output and nothing else.
#include "slots.hpp"
#include "quiet.hpp"

struct Step { int i, op, a; };
struct Plan { struct O { int kind, proc, verb[2]; std::string name; }; std::vector<O> objs; int procs; std::vector<Step> steps; int fault_proc = -1, fault_n = 0, fault_err = 0, fault_step = 0; };

static bool has(const std::string& s, const char* x) { return s.find(x) != std::string::npos; }

// carries out the plan with one of its two settings; returns what each step did
static std::vector<std::string> carry_out(Case& c, const Plan& p, int setting, bool& failing, int& printed) {
    reset(c); World w{c, {}}; std::vector<int> procs; std::vector<std::string> res;
    for (int i = 0; i < p.procs; ++i) procs.push_back(new_process());
    for (auto& o : p.objs) {
        Slot* s; int q = procs[o.proc], v = o.verb[setting];
        switch (o.kind) { case 0: s = new TensorServer(w, q, o.name, v); break; case 1: s = new TensorClient<CI>(w, q, o.name, v); break; case 2: s = new TensorClient<CD>(w, q, o.name, v); break; case 3: s = new TensorClient<CC>(w, q, o.name, v); break;
            case 4: s = new StrServerSlot(w, q, "str", v); break; case 5: s = new StrClientSlot(w, q, "str", v); break; case 6: s = new ProdSlot(w, q, "pc", v); break; case 7: s = new ConsSlot(w, q, "pc", v); break; default: s = new CondSlot(w, q, "cv", v); }
        w.slots.emplace_back(s);
    }
    Quiet q; size_t seen = 0; failing = false; printed = 0;
    sequential(c, [&] {
        auto one = [&](size_t k, int i, const std::function<std::string()>& f) {
            Slot& s = *w.slots[i]; s.detail.clear(); int64_t t0 = now_ns(); std::string what; bool threw = false;
            try { what = f(); } catch (std::exception&) { what = "exception"; threw = true; }
            std::string out = q.text(); out.erase(0, std::min(seen, out.size())); seen += out.size();
            if (what.empty()) { res.push_back(""); return; }
            what += "; " + s.detail + "; " + std::to_string((now_ns() - t0) / 1000) + " us; " + resources_text(s.proc);
            res.push_back(what);
            bool ff = p.fault_proc >= 0 && fault_fired(procs[p.fault_proc]);
            bool bad = threw || ff || has(what, "refused") || has(what, "rejected");
            failing |= bad; printed += !out.empty();
            const char* kind = s.kind(); int v = s.verb;
            if (v == 0 && !bad) CHECK(out.empty(), "step %zu: %s %d, which is not verbose, prints at \"%s\": %.200s", k, kind, i, what.c_str(), out.c_str());
            if (v == 0) CHECK(!has(out, "[STAT]") && !has(out, "[INFO]"), "step %zu: %s %d, which is not verbose, reports at \"%s\": %.200s", k, kind, i, what.c_str(), out.c_str());
            if (v > 0 && v - 1 < 2) CHECK(!has(out, "[STAT]"), "step %zu: %s %d prints statistics at level V%d: %.200s", k, kind, i, v - 1, out.c_str());
            if (v > 0 && v - 1 < 3) CHECK(!has(out, "[INFO]"), "step %zu: %s %d prints additional information at level V%d: %.200s", k, kind, i, v - 1, out.c_str());
        };
        for (size_t k = 0; k < p.steps.size(); ++k) {
            if (p.fault_proc >= 0 && (int)k == p.fault_step) fault_at(procs[p.fault_proc], p.fault_n, p.fault_err);
            one(k, p.steps[k].i, [&] { return w.slots[p.steps[k].i]->step(p.steps[k].op, p.steps[k].a); });
        }
        if (p.fault_proc >= 0) clear_fault(procs[p.fault_proc]);
        for (size_t i = 0; i < w.slots.size(); ++i) one(p.steps.size() + i, i, [&] { w.slots[i]->destroy(); return std::string("destroyed"); });
        std::string all; for (auto& x : names()) all += x + " ";
        res.push_back("names left: " + all);
    });
    return res;
}

PROPERTY(verbosity, 26000, 1500000, "the same history of up to 8 objects of all kinds, with refused calls, rejected objects and failing system calls, under two assignments of verbosity levels: results, exceptions, contents read, time taken, handles and names left must be equal, silent objects print nothing unless a call fails and lower levels nothing of higher ones; non-trivial: something failed, and one of the two runs printed") {
    Plan p; int n = 1 + c.draw(8); p.procs = 1 + c.draw(std::min(n, 4)); bool all_silent = c.chance(0.3);
    for (int i = 0; i < n; ++i) {
        Plan::O o; o.kind = c.weighted({8, 8, 1, 1, 3, 3, 4, 3, 4}); o.proc = c.draw(p.procs); o.verb[0] = all_silent ? 0 : c.draw(5); o.verb[1] = c.draw(5); if (all_silent && c.chance(0.5)) o.verb[1] = 4; o.name = c.chance(0.8) ? "ta" : "tb";
        p.objs.push_back(o);
    }
    int steps = 4 + c.draw(c.tier_ ? 50 : 30); bool ordered = c.chance(0.6);
    for (int k = 0; k < steps; ++k) { Step s{ordered ? (k < n ? k : (int)c.draw(n)) : (int)c.draw(n), (int)c.draw(24), (int)c.draw(60)}; if (ordered && k >= n && k < 2 * n) { s.i = k - n; s.op = 0; } p.steps.push_back(s); }
    if (c.chance(0.4)) { p.fault_proc = c.draw(p.procs); p.fault_step = c.draw(std::min(steps, 14)); p.fault_n = 1 + c.draw(c.chance(0.5) ? 6 : 40); p.fault_err = c.draw(8); }
    bool fa, fb; int pa, pb;
    auto a = carry_out(c, p, 0, fa, pa), b = carry_out(c, p, 1, fb, pb);
    for (size_t i = 0; i < p.objs.size(); ++i) c.note("object %zu: kind %d, verbosity %d and %d", i, p.objs[i].kind, p.objs[i].verb[0], p.objs[i].verb[1]);
    if (p.fault_proc >= 0) c.note("call %d of process %d from step %d on fails (%d)", p.fault_n, p.fault_proc, p.fault_step, p.fault_err);
    for (size_t k = 0; k < a.size() || k < b.size(); ++k) {
        std::string x = k < a.size() ? a[k] : "nothing", y = k < b.size() ? b[k] : "nothing"; int i = k < p.steps.size() ? p.steps[k].i : (int)(k - p.steps.size());
        if (!x.empty()) c.note("step %zu, object %d: %s", k, i, x.c_str());
        if (x != y) { int va = i < n ? p.objs[i].verb[0] : -1, vb = i < n ? p.objs[i].verb[1] : -1; CHECK(false, "step %zu (object %d, verbosity %d/%d): \"%s\" becomes \"%s\" with other verbosity settings", k, i, va, vb, x.c_str(), y.c_str()); }
    }
    if ((fa || fb) && pa + pb > 0) c.nontrivial();
    if (p.fault_proc >= 0) c.label("with a failing system call");
}

PROPERTY(waiting, 14000, 600000, "a client or consumer of any verbosity waits for a server or producer that appears later (with stops in between), under two assignments of verbosity levels: it must get there at the same virtual time, up to two polling intervals of 1 s (the schedules differ); non-trivial: it waited for more than 10 ms") {
    bool sync = c.chance(0.3); int v[2][2]; for (auto& x : v) for (auto& y : x) y = c.draw(5);
    int d1 = c.draw_biased(3000, 0.1), d2 = c.draw_biased(3000, 0.2), d3 = c.draw_biased(200, 0.3); bool stop = !sync && c.chance(0.3);
    int64_t when[2] = {0, 0};
    c.note("%s, server after %d ms, runs after %d ms%s, verbosity %d/%d and %d/%d", sync ? "consumer" : "client", d1, d2, stop ? ", with an earlier generation" : "", v[0][0], v[0][1], v[1][0], v[1][1]);
    for (int k = 0; k < 2; ++k) {
        Options o; o.p_switch = 0; reset(c, o); int sp = new_process(), cp = new_process(); Quiet q;
        Box<SI> s; Box<CI> cl; Box<Producer> p; Box<Consumer> co; bool sv = v[k][0] > 0, cv = v[k][1] > 0; VLevel sl = vlevel_of(v[k][0] - 1), cll = vlevel_of(v[k][1] - 1);
        spawn("server", sp, [&] {
            if (d1) sleep_ms(d1);
            if (sync) { p.make("t", "n", sv, sl); if (d2) sleep_ms(d2); p->run(); }
            else { if (stop) { s.make(2, 2, "t", "n", sv, sl); if (d3) sleep_ms(d3); s->close(); s.destroy(); } s.make(2, 3, "t", "n", sv, sl); if (d2) sleep_ms(d2); s->run(); }
        });
        spawn("client", cp, [&] { if (sync) { co.make("t", "n", cv, cll); co->run(); } else { cl.make("t", "n", cv, cll); cl->attach(); CHECK(cl->getNCols() == 3, "attached to %d columns", cl->getNCols()); } when[k] = now_ns(); });
        must_finish(c, run(), "waiting for the server");
        { As as(cp); cl.destroy(); co.destroy(); } { As as(sp); s.destroy(); p.destroy(); }
        if (v[k][1] == 0) { std::string t = q.text(); if (v[k][0] == 0) CHECK(t.empty(), "silent objects print: %.200s", t.c_str()); }
    }
    CHECK(std::llabs(when[0] - when[1]) <= 2100000000ll, "the wait ends after %.3f ms with verbosity %d/%d and after %.3f ms with %d/%d", when[0] / 1e6, v[0][0], v[0][1], when[1] / 1e6, v[1][0], v[1][1]);
    if (d1 + d2 > 10) c.nontrivial();
}
