// C17: each trigger wakes every running consumer exactly once, and none is lost.
#include "common.hpp"
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
using namespace sim;
using namespace EigenIPC;

PROPERTY(rounds, 20000, 2500000, "1-12 lock-step rounds of a producer and 1-5 consumers that run before the first trigger (in any start order), each side with untimed or timed waits, pauses and other calls in between, under random schedules, spurious wake-ups and jumps of time; every return of every wait is compared with the number of triggers issued; non-trivial: at least two rounds, and a wait timed out, met an already issued trigger, or two consumers took part") {
    Options o; o.page_yield = c.chance(0.3); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6, 0.9}); o.p_spurious = c.chance(0.3) ? 0.3 : 0; o.p_timepass = c.chance(0.4) ? 0.1 : 0; o.max_vtime_ms = 600000; o.max_steps = 3000000; reset(c, o);
    int n = crowd(c, 5), rounds = 1 + c.draw(c.tier_ ? 30 : 12), verb = c.draw_biased(5, 0.05), timeouts = 0; if (c.chance(0.002)) { n = 1 + c.draw(2); rounds = 250 + c.draw(100); verb = 0; c.label("hundreds of rounds"); } int late = 0; bool force = c.chance(0.2), one_proc = c.chance(0.2);
    struct Plan { int ms, pause, sleep, acklater; bool both; }; std::vector<std::vector<Plan>> plan(n); std::vector<Plan> pp;
    auto gen = [&] { Plan p; p.ms = c.chance(0.5) ? (int)c.pick(std::vector<int>{1, 2, 5, 50}) : c.pick(std::vector<int>{-1, 0, -100}); p.pause = c.draw(6); p.sleep = c.chance(0.2) ? 1 + c.draw(8) : 0; p.acklater = c.draw(4); p.both = c.chance(0.2); return p; };
    for (int r = 0; r < rounds; ++r) { pp.push_back(gen()); for (auto& v : plan) v.push_back(gen()); }
    c.note("%d consumers, %d rounds, spurious %.1f, time passing %.1f", n, rounds, o.p_spurious, o.p_timepass);
    for (int r = 0; r < rounds && r < 4; ++r) { c.note("round %d: producer sleeps %d, waits %d ms", r, pp[r].sleep, pp[r].ms); for (int i = 0; i < n; ++i) c.note("consumer %d sleeps %d, waits %d ms", i, plan[i][r].sleep, plan[i][r].ms); }
    int ready = 0, issued = 0, completed = 0; std::vector<int> got(n, 0); bool over = false; int left = n;
    Box<Producer> p; std::vector<std::unique_ptr<Box<Consumer>>> cs; std::vector<int> pr; int p0 = new_process();
    for (int i = 0; i < n; ++i) { cs.emplace_back(new Box<Consumer>); pr.push_back(one_proc ? p0 : new_process()); }
    auto idle = [&](Plan& q) { for (int k = 0; k < q.pause; ++k) yield("pausing"); if (q.sleep) sleep_ms(q.sleep); };
    spawn("producer", p0, [&] {
        idle(pp[0]); p.make("pc", "n", verb > 0, vlevel_of(verb - 1), force); p->run();
        wait_until([&] { return ready == n; }, "all consumers ready");
        for (int r = 0; r < rounds; ++r) {
            idle(pp[r]);
            for (int i = 0; i < n; ++i) CHECK(got[i] == r, "consumer %d received %d triggers before trigger %d was issued", i, got[i], r + 1);
            ++issued; p->trigger(); ++completed;
            while (!p->wait_ack_from(n, pp[r].ms)) { CHECK(pp[r].ms > 0, "an untimed wait for acknowledgements returned false"); ++timeouts; }
            for (int i = 0; i < n; ++i) CHECK(got[i] == r + 1, "after round %d completed, consumer %d has received %d triggers", r + 1, i, got[i]);
        }
        over = true;
        wait_until([&] { return left == 0; }, "all consumers left"); p.destroy();
    });
    for (int i = 0; i < n; ++i) spawn("consumer" + std::to_string(i), pr[i], [&, i] {
        auto& x = *cs[i]; idle(plan[i][0]); x.make("pc", "n", verb > 0, vlevel_of(verb - 1)); x->run(); ++ready;
        for (int r = 0; r < rounds; ++r) {
            Plan& q = plan[i][r]; idle(q);
            for (;;) {
                bool before = completed > r; bool ok = x->wait(q.ms);
                if (ok) { CHECK(issued > r, "consumer %d: a wait returned true for trigger %d, only %d were issued", i, r + 1, issued); late += before; break; }
                CHECK(q.ms > 0, "consumer %d: an untimed wait returned false", i); CHECK(!before, "consumer %d: a wait begun after trigger %d was issued returned false", i, r + 1); ++timeouts;
            }
            ++got[i]; CHECK(got[i] == r + 1, "consumer %d: received %d triggers in round %d", i, got[i], r + 1);
            if (q.both) { CHECK(!x->wait(1), "consumer %d: trigger %d was received twice", i, r + 1); }
            for (int k = 0; k < q.acklater; ++k) yield("before acknowledging");
            CHECK(x->ack(), "consumer %d: acknowledging failed", i);
        }
        wait_until([&] { return over; }, "all rounds over");
        CHECK(!x->wait(2), "consumer %d: a further wait returned true after all %d triggers were received", i, rounds);
        x.destroy(); --left;
    });
    must_finish(c, run(), "rounds of triggers");
    c.note("%d timed-out waits, %d late waits", timeouts, late);
    if (rounds >= 2 && (timeouts || late || n > 1)) c.nontrivial();
    if (timeouts) c.label("a wait timed out"); if (late) c.label("wait begun after the trigger"); if (o.p_spurious > 0) c.label("spurious wake-ups");
}

// consumers running before the first trigger, driven by wait_and_ack and joined at different times
PROPERTY(wait_and_ack_rounds, 8000, 1000000, "the same with consumers using wait_and_ack in a loop; non-trivial: at least two rounds and a wait timed out or two consumers took part") {
    Options o; o.page_yield = c.chance(0.3); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6, 0.9}); o.p_spurious = c.chance(0.3) ? 0.3 : 0; o.p_timepass = c.chance(0.4) ? 0.1 : 0; o.max_vtime_ms = 600000; reset(c, o);
    int n = crowd(c, 4), rounds = 1 + c.draw(c.tier_ ? 30 : 10), timeouts = 0, ready = 0, issued = 0, left = n; std::vector<int> got(n, 0); std::vector<int> ms; for (int i = 0; i <= n; ++i) ms.push_back(c.chance(0.5) ? -1 : c.pick(std::vector<int>{1, 3, 20}));
    c.note("%d consumers, %d rounds; timeouts:", n, rounds); for (int m : ms) c.note("%d", m);
    std::vector<int> pause; for (int i = 0; i < rounds; ++i) pause.push_back(c.chance(0.3) ? 1 + c.draw(6) : 0);
    Box<Producer> p; std::vector<std::unique_ptr<Box<Consumer>>> cs; std::vector<int> pr; for (int i = 0; i < n; ++i) { cs.emplace_back(new Box<Consumer>); pr.push_back(new_process()); }
    spawn("producer", new_process(), [&] { p.make("pc", "n", false, VLevel::V0, false); p->run(); wait_until([&] { return ready == n; }, "all consumers ready");
        for (int r = 0; r < rounds; ++r) { if (pause[r]) sleep_ms(pause[r]); ++issued; p->trigger(); while (!p->wait_ack_from(n, ms[0])) { CHECK(ms[0] > 0, "an untimed wait for acknowledgements returned false"); ++timeouts; } for (int i = 0; i < n; ++i) CHECK(got[i] == r + 1, "after round %d completed, consumer %d has received %d triggers", r + 1, i, got[i]); }
        wait_until([&] { return left == 0; }, "all consumers left"); p.destroy(); });
    for (int i = 0; i < n; ++i) spawn("consumer" + std::to_string(i), pr[i], [&, i] { auto& x = *cs[i]; x.make("pc", "n", false, VLevel::V0); x->run(); ++ready;
        while (got[i] < rounds) { int g = got[i]; bool ok = x->wait_and_ack([&] { CHECK(issued > got[i], "consumer %d: callback %d ran, only %d triggers were issued", i, got[i] + 1, issued); ++got[i]; if (i & 1) yield("in the callback"); return true; }, ms[i + 1]); CHECK(ok == (got[i] == g + 1), "consumer %d: wait_and_ack returned %d after %d callbacks", i, ok, got[i] - g); if (!ok) { CHECK(ms[i + 1] > 0, "an untimed wait_and_ack returned false"); ++timeouts; } }
        x.destroy(); --left; });
    must_finish(c, run(), "rounds of triggers");
    c.note("%d timed-out waits", timeouts);
    if (rounds >= 2 && (timeouts || n > 1)) c.nontrivial();
}
