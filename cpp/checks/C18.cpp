// C18: the producer sees all acknowledgements, none lost, none invented.
#include "common.hpp"
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
using namespace sim;
using namespace EigenIPC;

PROPERTY(acknowledgements, 20000, 2500000, "1-10 rounds in which each of 1-5 consumers acknowledges once, with or without triggers, before, during or after the producer's waits, which may be untimed or time out any number of times; the result of each wait is compared with the acknowledgements begun and finished at that moment; non-trivial: a wait timed out, acknowledgements preceded the wait, or two consumers acknowledged concurrently") {
    Options o; o.page_yield = c.chance(0.4); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6, 0.9}); o.p_spurious = c.chance(0.3) ? 0.3 : 0; o.p_timepass = c.chance(0.3) ? 0.1 : 0; o.max_vtime_ms = 600000; o.max_steps = 3000000; reset(c, o);
    int n = crowd(c, 5), rounds = 1 + c.draw(c.tier_ ? 24 : 10), verb = c.draw_biased(5, 0.05); bool trig = c.chance(0.5); if (c.chance(0.002)) { n = 1 + c.draw(3); rounds = (250 + c.draw(100)) / n; verb = 0; c.label("hundreds of acknowledgements"); }
    struct W { int pause, sleep; std::vector<int> ms; }; std::vector<W> pw; std::vector<std::vector<W>> cw(n);
    for (int r = 0; r < rounds; ++r) {
        W w; w.pause = c.draw(20); w.sleep = c.chance(0.3) ? 1 + c.draw(8) : 0; for (int k = c.draw(4); k-- > 0;) w.ms.push_back(c.pick(std::vector<int>{1, 2, 10})); w.ms.push_back(c.pick(std::vector<int>{-1, 0, 30})); pw.push_back(w);
        for (auto& v : cw) { W q; q.pause = c.draw(20); q.sleep = c.chance(0.3) ? 1 + c.draw(8) : 0; v.push_back(q); }
    }
    c.note("%d consumers, %d rounds, %s triggers", n, rounds, trig ? "with" : "without");
    int ready = 0, round = -1, begun = 0, finished_ = 0, timeouts = 0, early = 0, left = n; bool overlap = false; int acking = 0; std::string pat;
    Box<Producer> p; std::vector<std::unique_ptr<Box<Consumer>>> cs; std::vector<int> pr; for (int i = 0; i < n; ++i) { cs.emplace_back(new Box<Consumer>); pr.push_back(new_process()); }
    spawn("producer", new_process(), [&] {
        p.make("pc", "n", verb > 0, vlevel_of(verb - 1), false); p->run(); wait_until([&] { return ready == n; }, "all consumers ready");
        for (int r = 0; r < rounds; ++r) {
            if (r == 0 || true) { CHECK(begun == r * n, "harness"); }
            bool w0 = false; if (r == 0 && n > 0 && pw[r].sleep) { w0 = p->wait_ack_from(n, 1); CHECK(!w0, "nobody has acknowledged, but waiting for %d acknowledgements returned true", n); ++timeouts; }
            round = r; if (trig) p->trigger();
            for (int k = 0; k < pw[r].pause; ++k) yield("pausing"); if (pw[r].sleep) sleep_ms(pw[r].sleep);
            for (size_t k = 0;; ) {
                int ms = pw[r].ms[k], f0 = finished_; early += begun > r * n; bool ok = p->wait_ack_from(n, ms); pat += ok ? 'T' : 'f';
                if (ok) { CHECK(begun == (r + 1) * n, "round %d: waiting for %d acknowledgements returned true after %d", r + 1, n, begun - r * n); break; }
                CHECK(ms > 0, "an untimed wait for acknowledgements returned false"); CHECK(f0 < (r + 1) * n, "round %d: waiting for %d acknowledgements returned false, although all had been given before", r + 1, n); ++timeouts;
                if (k + 1 < pw[r].ms.size()) ++k;
            }
        }
        CHECK(!p->wait_ack_from(n, 2), "after %d rounds were completed, a further wait returned true without new acknowledgements", rounds);
        wait_until([&] { return left == 0; }, "all consumers left"); p.destroy();
    });
    for (int i = 0; i < n; ++i) spawn("consumer" + std::to_string(i), pr[i], [&, i] {
        auto& x = *cs[i]; x.make("pc", "n", verb > 0, vlevel_of(verb - 1)); x->run(); ++ready;
        for (int r = 0; r < rounds; ++r) {
            wait_until([&] { return round >= r; }, "next round");
            if (trig) CHECK(x->wait(-1), "an untimed wait returned false");
            for (int k = 0; k < cw[i][r].pause; ++k) yield("pausing"); if (cw[i][r].sleep) sleep_ms(cw[i][r].sleep);
            ++begun; if (acking++) overlap = true; CHECK(x->ack(), "acknowledging failed"); --acking; ++finished_;
        }
        x.destroy(); --left;
    });
    must_finish(c, run(), "acknowledgements");
    c.note("%s", pat.c_str());
    if (timeouts || early || overlap) c.nontrivial();
    if (timeouts) c.label("a wait timed out"); if (early) c.label("acknowledged before the wait"); if (overlap) c.label("concurrent acknowledgements");
}

// a subset of the consumers takes part in each round
PROPERTY(subsets, 8000, 1000000, "rounds in which the producer waits for a varying number m of acknowledgements (0 to n), given by m of the n consumers; non-trivial: two rounds with different m") {
    Options o; o.page_yield = c.chance(0.3); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6, 0.9}); o.p_spurious = c.chance(0.2) ? 0.3 : 0; o.max_vtime_ms = 600000; reset(c, o);
    int n = crowd(c, 5), rounds = 2 + c.draw(6); std::vector<std::vector<char>> who; std::vector<int> m, ms; bool differ = false;
    for (int r = 0; r < rounds; ++r) { std::vector<char> w(n, 0); int k = 0; for (int i = 0; i < n; ++i) if (c.chance(0.6)) { w[i] = 1; ++k; } if (!k && !c.chance(0.3)) { w[c.draw(n)] = 1; k = 1; } who.push_back(w); m.push_back(k); ms.push_back(c.pick(std::vector<int>{-1, 0, 1, 5})); differ |= k != m[0]; c.note("round %d: %d of %d, timeout %d", r, k, n, ms[r]); }
    int ready = 0, round = -1, begun = 0, sum = 0, left = n;
    Box<Producer> p; std::vector<std::unique_ptr<Box<Consumer>>> cs; std::vector<int> pr; for (int i = 0; i < n; ++i) { cs.emplace_back(new Box<Consumer>); pr.push_back(new_process()); }
    spawn("producer", new_process(), [&] { p.make("pc", "n", false, VLevel::V0, false); p->run(); wait_until([&] { return ready == n; }, "ready");
        for (int r = 0; r < rounds; ++r) { sum += m[r]; round = r; while (!p->wait_ack_from(m[r], ms[r])) CHECK(ms[r] > 0, "an untimed wait for acknowledgements returned false"); CHECK(begun == sum, "round %d: waiting for %d acknowledgements returned true after %d", r + 1, m[r], begun - sum + m[r]); }
        wait_until([&] { return left == 0; }, "left"); p.destroy(); });
    for (int i = 0; i < n; ++i) spawn("consumer" + std::to_string(i), pr[i], [&, i] { auto& x = *cs[i]; x.make("pc", "n", false, VLevel::V0); x->run(); ++ready; for (int r = 0; r < rounds; ++r) { wait_until([&] { return round >= r; }, "next round"); if (!who[r][i]) continue; ++begun; CHECK(x->ack(), "acknowledging failed"); } x.destroy(); --left; });
    must_finish(c, run(), "acknowledgements");
    if (differ) c.nontrivial();
}
