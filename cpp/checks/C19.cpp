// C19: timed waits respect their timeout (virtual time; each scheduling step takes one microsecond).
#include "common.hpp"
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/CondVar.hpp>
using namespace sim;
using namespace EigenIPC;
static const int64_t MS = 1000000, SLACK = 4 * MS, TRUNC = 2000;
static Options opts(Case& c) { Options o; o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); o.max_vtime_ms = 40000000000ll;
    // any time zone, any date, also hours around a change of daylight saving time
    static const char* tz[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "CET-1CEST,M3.5.0,M10.5.0/3", "LINT-14", "AoE12"}; static const int64_t days[] = {0, 1772953190, 1793511590, 1774745995, 4102444790, 1709164795};
    int z = c.draw_biased(6, 0.7), d = c.draw_biased(6, 0.5); setenv("TZ", tz[z], 1); tzset(); o.start_s = days[d]; c.note("time zone %s, start at %ld s", tz[z], (long)o.start_s); return o; }
static int gen_ms(Case& c) { switch (c.weighted({5, 3, 1, 1})) { case 0: return 1 + c.draw(20); case 1: return 1 + c.draw(500); case 2: return c.pick(std::vector<int>{1000, 1001, 60000, 86400000, INT_MAX}); default: return c.pick(std::vector<int>{0, -1, -1000, INT_MIN}); } }
// when the event happens, relative to the wait's start: before it, inside its time, near its end, after its end, or never (-1)
static int64_t gen_event(Case& c, int ms) { switch (c.weighted({2, 4, 2, 3, 3})) { case 0: return 0; case 1: return ms > 0 ? (int64_t)c.draw((uint32_t)std::min(ms, 2000) + 1) * MS / 1 : (int64_t)c.draw(300) * MS; case 2: return ms > 0 && ms < 100000 ? (int64_t)ms * MS + ((int64_t)c.draw(5) - 2) * MS : 3 * MS; case 3: if (c.chance(0.15) && (ms <= 0 || ms > 100000)) return (ms <= 0 ? 60 : ms == INT_MAX ? 20 : 0) * (int64_t)86400000 * MS + 444 * MS; return ms > 0 && ms < 100000 ? (int64_t)ms * MS * 2 : (int64_t)(500 + c.draw(5000)) * MS; default: return ms > 0 && ms < 100000 ? -1 : 1234 * MS; } }
struct Times { int64_t t0 = 0, t1 = 0, ev0 = -1, ev1 = -1; bool ret = false; };
// verdict over one wait: [t0,t1], the event's call [ev0,ev1] (or none)
static void judge(Case& c, const char* who, int ms, const Times& t, int64_t extra = 0) {
    int64_t d = (int64_t)ms * MS, el = t.t1 - t.t0;
    if (ms <= 0) { CHECK(t.ret, "%s with timeout %d (unlimited) returned false after %ld us", who, ms, (long)(el / 1000)); }
    if (!t.ret) {
        CHECK(el >= d - TRUNC, "%s with a timeout of %d ms returned false after %ld us", who, ms, (long)(el / 1000));
        CHECK(el <= d + extra + SLACK, "%s with a timeout of %d ms returned only after %ld us", who, ms, (long)(el / 1000));
        CHECK(!(t.ev1 >= 0 && t.ev1 <= t.t0 + d - MS), "%s with a timeout of %d ms returned false although the event happened %ld us after it began", who, ms, (long)((t.ev1 - t.t0) / 1000));
    } else {
        CHECK(t.ev0 >= 0 && t.ev0 <= t.t1, "%s returned true without the event", who);
        int64_t from = std::max(t.ev1 >= 0 ? t.ev1 : t.t1, t.t0);
        CHECK(t.t1 - from <= SLACK, "%s with a timeout of %d ms returned true %ld us after the event (at %ld us)", who, ms, (long)((t.t1 - from) / 1000), (long)((t.ev1 - t.t0) / 1000));
    }
    if (t.ev1 >= 0) CHECK(t.ev1 - t.ev0 <= SLACK, "%s: the other side was held up for %ld us", who, (long)((t.ev1 - t.ev0) / 1000));
}

PROPERTY(trigger_waits, 22000, 1500000, "rounds of 1-3 consumers waiting for a trigger with timeouts from 1 ms to INT_MAX, zero and negative ones, the trigger coming before, during, at the end of, after or never within the wait; non-trivial: a wait timed out, or the trigger came while waiting with a timeout") {
    reset(c, opts(c)); int n = 1 + c.draw(3), rounds = 1 + c.draw(4), ready = 0, left = n, go = -1; bool nt = false; std::vector<int64_t> ev; std::vector<std::vector<int>> ms(rounds);
    std::vector<int> waited(rounds, 0), acked(rounds, 0); std::vector<char> late(rounds, 0); std::vector<int64_t> e0(rounds, -1), e1(rounds, -1);
    for (int r = 0; r < rounds; ++r) { int m = gen_ms(c); for (int i = 0; i < n; ++i) ms[r].push_back(c.chance(0.6) ? m : gen_ms(c)); ev.push_back(gen_event(c, m)); for (int i = 0; i < n; ++i) if (ms[r][i] <= 0 || ms[r][i] > 10000) { if (ev[r] < 0) ev[r] = 777 * MS; } c.note("round %d: event at %ld us; timeouts", r, (long)(ev[r] / 1000)); for (int x : ms[r]) c.note("%d ms", x); }
    Box<Producer> p; std::vector<std::unique_ptr<Box<Consumer>>> cs; std::vector<int> pr; for (int i = 0; i < n; ++i) { cs.emplace_back(new Box<Consumer>); pr.push_back(new_process()); }
    spawn("producer", new_process(), [&] { p.make("pc", "n", false, VLevel::V0, false); p->run(); wait_until([&] { return ready == n; }, "ready");
        for (int r = 0; r < rounds; ++r) {
            auto fire = [&] { e0[r] = now_ns(); p->trigger(); e1[r] = now_ns(); };
            if (ev[r] == 0) fire();
            go = r;
            if (ev[r] > 0) { sleep_ms(ev[r] / MS); fire(); }
            wait_until([&] { return waited[r] == n; }, "all waits over");
            if (e0[r] < 0) p->trigger();
            late[r] = 1; wait_until([&] { return acked[r] == n; }, "round over");
            CHECK(p->wait_ack_from(n, -1), "an untimed wait for acknowledgements returned false");
        }
        wait_until([&] { return left == 0; }, "left"); p.destroy(); });
    for (int i = 0; i < n; ++i) spawn("consumer" + std::to_string(i), pr[i], [&, i] { auto& x = *cs[i]; x.make("pc", "n", false, VLevel::V0); x->run(); ++ready;
        for (int r = 0; r < rounds; ++r) {
            wait_until([&] { return go >= r; }, "round"); Times t; t.t0 = now_ns(); t.ret = x->wait(ms[r][i]); t.t1 = now_ns(); if (e0[r] >= 0) wait_until([&] { return e1[r] >= 0; }, "trigger over"); t.ev0 = e0[r]; t.ev1 = e1[r]; ++waited[r];
            char who[60]; snprintf(who, 60, "consumer %d's wait", i); judge(c, who, ms[r][i], t); if (!t.ret || (ms[r][i] > 0 && t.ev0 > t.t0)) nt = true;
            if (!t.ret) { wait_until([&] { return late[r] == 1; }, "late trigger"); Times u; u.t0 = now_ns(); u.ret = x->wait(50); u.t1 = now_ns(); CHECK(u.ret, "consumer %d: after a timed-out wait, the trigger issued later is not received", i); CHECK(u.t1 - u.t0 <= SLACK, "consumer %d: a wait for an already issued trigger took %ld us", i, (long)((u.t1 - u.t0) / 1000)); }
            int64_t a0 = now_ns(); CHECK(x->ack(), "an acknowledgement failed"); CHECK(now_ns() - a0 <= SLACK, "acknowledging took %ld us", (long)((now_ns() - a0) / 1000)); ++acked[r]; }
        x.destroy(); --left; });
    must_finish(c, run(), "timed waits for triggers");
    if (nt) c.nontrivial();
}

PROPERTY(ack_waits, 22000, 1500000, "a producer waiting for the acknowledgements of 1-3 consumers with the same timeouts, the acknowledgements coming at different times (each may restart the timeout); non-trivial: the wait timed out, or was completed while waiting with a timeout") {
    reset(c, opts(c)); int n = 1 + c.draw(3), rounds = 1 + c.draw(4), ready = 0, left = n, go = -1, finished_ = 0; bool nt = false; std::vector<int> ms; std::vector<std::vector<int64_t>> at(rounds);
    for (int r = 0; r < rounds; ++r) { int m = gen_ms(c); ms.push_back(m); int64_t e = gen_event(c, m); for (int i = 0; i < n; ++i) { int64_t a = c.chance(0.5) ? e : gen_event(c, m); at[r].push_back(a); } c.note("round %d: timeout %d ms; acknowledgements at", r, m); for (auto a : at[r]) c.note("%ld us", (long)(a / 1000)); }
    Box<Producer> p; std::vector<std::unique_ptr<Box<Consumer>>> cs; std::vector<int> pr; std::vector<int64_t> a0(n), a1(n); for (int i = 0; i < n; ++i) { cs.emplace_back(new Box<Consumer>); pr.push_back(new_process()); }
    bool release = false; int begun = 0; int64_t start = -1;
    spawn("producer", new_process(), [&] { p.make("pc", "n", false, VLevel::V0, false); p->run(); wait_until([&] { return ready == n; }, "ready");
        for (int r = 0; r < rounds; ++r) {
            finished_ = begun = 0; release = false; start = -1; for (int i = 0; i < n; ++i) a0[i] = a1[i] = -1; go = r; int pre = 0; for (auto a : at[r]) pre += a == 0; wait_until([&] { return finished_ == pre; }, "those before the wait");
            Times t; start = t.t0 = now_ns(); t.ret = p->wait_ack_from(n, ms[r]); t.t1 = now_ns();
            for (int i = 0; i < n; ++i) if (a0[i] >= 0) wait_until([&] { return a1[i] >= 0; }, "ack over");
            int k = 0; int64_t d = (int64_t)ms[r] * MS; t.ev0 = t.ev1 = 0; for (int i = 0; i < n; ++i) { if (a0[i] < 0) { t.ev0 = t.ev1 = -1; break; } t.ev0 = std::max(t.ev0, a0[i]); t.ev1 = std::max(t.ev1, a1[i]); }
            for (int i = 0; i < n; ++i) if (a0[i] >= 0 && a0[i] > t.t0) { ++k; CHECK(a1[i] - a0[i] <= SLACK, "acknowledging took %ld us", (long)((a1[i] - a0[i]) / 1000)); }
            judge(c, "the wait for acknowledgements", ms[r], t, k * d); if (!t.ret || (ms[r] > 0 && t.ev0 > t.t0)) nt = true;
            release = true; wait_until([&] { return finished_ == n; }, "all acknowledged");
            if (!t.ret) { int64_t b = now_ns(); CHECK(p->wait_ack_from(n, 50), "after a timed-out wait, the acknowledgements given before and after do not complete the round"); CHECK(now_ns() - b <= SLACK, "a wait for acknowledgements already given took %ld us", (long)((now_ns() - b) / 1000)); }
        }
        wait_until([&] { return left == 0; }, "left"); p.destroy(); });
    for (int i = 0; i < n; ++i) spawn("consumer" + std::to_string(i), pr[i], [&, i] { auto& x = *cs[i]; x.make("pc", "n", false, VLevel::V0); x->run(); ++ready;
        for (int r = 0; r < rounds; ++r) { wait_until([&] { return go == r; }, "round"); int64_t a = at[r][i]; if (ms[r] <= 0 || ms[r] > 10000) { if (a < 0) a = 333 * MS; }
            if (a != 0) { wait_until([&] { return start >= 0; }, "start"); if (a > 0) { sleep_ms(a / MS); } else wait_until([&] { return release; }, "never within the wait"); }
            a0[i] = now_ns(); CHECK(x->ack(), "ack failed"); a1[i] = now_ns(); ++finished_; }
        x.destroy(); --left; });
    must_finish(c, run(), "timed waits for acknowledgements");
    if (nt) c.nontrivial();
}

PROPERTY(condvar_waits, 30000, 1500000, "a condition variable's timedwait and timedwait_for, with the notification (and the predicate turning true) before, during, after or never within the wait, and useless notifications in between; non-trivial: a wait timed out, or was notified while waiting") {
    reset(c, opts(c)); int rounds = 1 + c.draw(4); bool nt = false; int go = -1, over = -1, handed = -1; bool ready = false, flag = false, sv = c.chance(0.5), useless_only = false; (void)useless_only; int64_t e0 = -1, e1 = -1;
    struct R { int ms; int64_t at; bool pred, all; int useless; }; std::vector<R> rs; for (int i = 0; i < rounds; ++i) { R r; do r.ms = gen_ms(c); while (r.ms < 0 || r.ms == INT_MAX); r.at = gen_event(c, r.ms); r.pred = c.chance(0.5); r.all = c.chance(0.5); r.useless = r.pred ? c.draw(4) : 0; if (!r.pred && r.at == 0) r.at = -1; if ((r.ms > 5000000 && r.at < 0) || (!r.ms && r.at > 86400000 * MS)) r.at = 555 * MS; rs.push_back(r); c.note("round %d: %s %d ms, event at %ld us", i, r.pred ? "timedwait_for" : "timedwait", r.ms, (long)(r.at / 1000)); }
    Box<ConditionVariable> a, b; int pa = new_process(), pb = new_process();
    spawn("waiter", pa, [&] { if (!sv) wait_until([&] { return ready; }, "created"); a.make(sv, "cv", "n", false, VLevel::V0, false); if (sv) ready = true;
        for (int i = 0; i < rounds; ++i) { R& r = rs[i]; auto l = a->lock(); flag = false; e0 = e1 = -1; if (r.at == 0) { flag = true; } go = i; Times t; t.t0 = now_ns();
            t.ret = r.pred ? a->timedwait_for(l, (unsigned)r.ms, [&] { return flag; }) : a->timedwait(l, (unsigned)r.ms); t.t1 = now_ns(); bool f = flag; ConditionVariable::unlock(l); over = i;
            if (r.pred) CHECK(t.ret == f, "timedwait_for returned %d, the predicate is %d", t.ret, f);
            if (e0 >= 0) wait_until([&] { return e1 >= 0; }, "notified"); t.ev0 = e0; t.ev1 = e1; if (r.at == 0) t.ev0 = t.ev1 = t.t0; if (e0 >= 0 && e0 > t.t1) t.ev0 = t.ev1 = -1;
            int64_t d = (int64_t)r.ms * MS;
            if (r.ms == 0) { CHECK(t.t1 - t.t0 <= SLACK, "a wait of 0 ms took %ld us", (long)((t.t1 - t.t0) / 1000)); if (t.ret) CHECK(t.ev0 >= 0, "a wait of 0 ms returned true without the event"); }
            else judge(c, r.pred ? "timedwait_for" : "timedwait", r.ms, t); (void)d; if (!t.ret || (e0 > t.t0)) nt = true;
            wait_until([&] { return handed >= i; }, "handed over"); } });
    spawn("notifier", pb, [&] { if (sv) wait_until([&] { return ready; }, "created"); b.make(!sv, "cv", "n", false, VLevel::V0, false); ready = true;
        for (int i = 0; i < rounds; ++i) { R& r = rs[i]; wait_until([&] { return go >= i; }, "round");
            for (int k = 0; k < r.useless; ++k) { auto l = b->lock(); b->notify_all(); ConditionVariable::unlock(l); }
            if (r.at > 0) { sleep_ms(r.at / MS); auto l = b->lock(); if (go == i && over < i) { e0 = now_ns(); flag = true; if (r.all) b->notify_all(); else b->notify_one(); } ConditionVariable::unlock(l); if (e0 >= 0) e1 = now_ns(); }
            wait_until([&] { return over >= i; }, "over"); handed = i; } });
    must_finish(c, run(), "timed waits of a condition variable");
    solo("teardown", pa, [&] { { As x(pb); if (sv) b.destroy(); } a.destroy(); { As x(pb); b.destroy(); } });
    if (nt) c.nontrivial();
}
