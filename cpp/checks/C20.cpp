// C20: wait_and_ack runs its callback once, between trigger and acknowledgement.
#include "common.hpp"
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
using namespace sim;
using namespace EigenIPC;

PROPERTY(callbacks, 22000, 2500000, "1-8 rounds of a producer and 1-4 consumers calling wait_and_ack with any timeout and callbacks that pause, sleep, look at the producer's progress and return true or false; the producer triggers, sometimes too late; callback count, order, return values and acknowledgements are compared; non-trivial: a wait_and_ack timed out or a callback returned false, and one succeeded") {
    Options o; o.page_yield = c.chance(0.3); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6, 0.9}); o.p_spurious = c.chance(0.2) ? 0.3 : 0; o.p_timepass = c.chance(0.3) ? 0.1 : 0; o.max_vtime_ms = 600000; reset(c, o);
    int n = crowd(c, 4), rounds = 1 + c.draw(c.tier_ ? 20 : 8), verb = c.draw_biased(5, 0.05);
    struct A { int pause, sleep, ms; bool result; }; std::vector<std::vector<A>> plan(n); std::vector<A> pp;
    auto gen = [&] { A a; a.pause = c.draw(6); a.sleep = c.chance(0.3) ? 1 + c.draw(8) : 0; a.ms = c.chance(0.5) ? c.pick(std::vector<int>{1, 2, 4, 20}) : c.pick(std::vector<int>{-1, 0}); a.result = !c.chance(0.3); return a; };
    for (int r = 0; r < rounds; ++r) { pp.push_back(gen()); for (auto& v : plan) v.push_back(gen()); }
    c.note("%d consumers, %d rounds", n, rounds); for (int r = 0; r < rounds; ++r) for (int i = 0; i < n; ++i) c.note("round %d consumer %d: callback sleeps %d, returns %d; timeout %d", r, i, plan[i][r].sleep, plan[i][r].result, plan[i][r].ms);
    int ready = 0, issued = 0, seen = 0, timeouts = 0, neg = 0, good = 0, left = n; std::vector<int> cb(n, 0), acking(n, 0);
    Box<Producer> p; std::vector<std::unique_ptr<Box<Consumer>>> cs; std::vector<int> pr; for (int i = 0; i < n; ++i) { cs.emplace_back(new Box<Consumer>); pr.push_back(new_process()); }
    spawn("producer", new_process(), [&] { p.make("pc", "n", verb > 0, vlevel_of(verb - 1), false); p->run(); wait_until([&] { return ready == n; }, "all consumers ready");
        for (int r = 0; r < rounds; ++r) {
            for (int k = 0; k < pp[r].pause; ++k) yield("pausing"); if (pp[r].sleep) sleep_ms(pp[r].sleep);
            for (int i = 0; i < n; ++i) CHECK(cb[i] == r, "consumer %d: %d callbacks ran before trigger %d", i, cb[i], r + 1);
            if (pp[r].result && r % 2) { CHECK(!p->wait_ack_from(n, 1), "acknowledgements of round %d are seen before its trigger", r + 1); }   // timed-out or refused waits acknowledge nothing
            ++issued; p->trigger();
            while (!p->wait_ack_from(n, pp[r].ms)) CHECK(pp[r].ms > 0, "an untimed wait for acknowledgements returned false");
            for (int i = 0; i < n; ++i) { CHECK(cb[i] == r + 1, "round %d was acknowledged by all, but consumer %d's callback ran %d times", r + 1, i, cb[i] - r); CHECK(acking[i] == r + 1, "round %d was acknowledged by all while consumer %d's callback was still running", r + 1, i); }
            seen = r + 1;
        }
        CHECK(!p->wait_ack_from(n, 2), "an acknowledgement too many is seen");
        wait_until([&] { return left == 0; }, "all consumers left"); p.destroy(); });
    for (int i = 0; i < n; ++i) spawn("consumer" + std::to_string(i), pr[i], [&, i] {
        auto& x = *cs[i]; x.make("pc", "n", verb > 0, vlevel_of(verb - 1)); x->run(); ++ready;
        for (int r = 0; r < rounds; ++r) {
            A& a = plan[i][r];
            for (int k = 0; k < a.pause; ++k) yield("pausing");
            for (;;) {
                int before = cb[i]; bool had = issued > r && false; (void)had;
                bool ok = x->wait_and_ack([&]() -> bool {
                    CHECK(issued > r, "consumer %d: the callback ran before trigger %d", i, r + 1); ++cb[i]; CHECK(cb[i] == r + 1, "consumer %d: the callback ran %d times in round %d", i, cb[i] - r, r + 1);
                    CHECK(seen == r, "consumer %d: round %d completed before its callback", i, r + 1);
                    for (int k = 0; k < a.pause; ++k) yield("in the callback"); if (a.sleep) sleep_ms(a.sleep);
                    CHECK(seen == r, "consumer %d: round %d completed during its callback", i, r + 1);
                    acking[i] = r + 1; return a.result; }, a.ms);
                if (cb[i] == before) { CHECK(!ok, "consumer %d: wait_and_ack returned true without calling back", i); CHECK(a.ms > 0, "consumer %d: an untimed wait_and_ack returned without calling back", i); ++timeouts; continue; }
                CHECK(ok == a.result, "consumer %d: the callback returned %d, wait_and_ack %d", i, a.result, ok); good += ok; neg += !ok; break;
            }
        }
        int b = cb[i]; bool ok = x->wait_and_ack([&] { ++cb[i]; return true; }, 2); CHECK(!ok && cb[i] == b, "consumer %d: a callback ran without a trigger", i);
        x.destroy(); --left; });
    must_finish(c, run(), "wait_and_ack rounds");
    if (good && (timeouts || neg)) c.nontrivial();
    if (timeouts) c.label("timed out"); if (neg) c.label("callback returned false");
}
