// C21: named condition variables give mutual exclusion and lose no wake-up.
#include "common.hpp"
#include <EigenIPC/CondVar.hpp>
using namespace sim;
using namespace EigenIPC;
typedef ConditionVariable CV;
static Options opts(Case& c, bool spurious) { Options o; o.page_yield = c.chance(0.3); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6, 0.9}); o.p_spurious = spurious && c.chance(0.4) ? 0.3 : 0; o.p_timepass = c.chance(0.3) ? 0.1 : 0; o.max_vtime_ms = 600000; return o; }

// a bounded buffer and a shared counter, driven through every locking and waiting call
PROPERTY(programs, 60000, 1500000, "2-5 processes run random programs of lock/unlock sections, (timed) waits, (timed) predicate waits and notifications on 1-2 shared condition variables; the lock's owner, predicate values and progress are checked; non-trivial: a waiter was woken or a lock was contended") {
    reset(c, opts(c, true)); int n = 2 + c.draw(4), steps = 1 + c.draw(6), verb = c.draw_biased(5, 0.05); bool force = c.chance(0.2);
    enum K { SECTION, PRODUCE, CONSUME, TIMED_CONSUME, TIMED, NOTIFY }; struct St { K k; int ms, pause; bool all, helper; }; std::vector<std::vector<St>> plan(n); int need = 0;
    for (auto& p : plan) for (int i = 0; i < steps; ++i) { St s; s.k = (K)c.weighted({3, 4, 3, 2, 2, 1}); s.ms = 1 + c.draw(10); s.pause = c.draw(4); s.all = c.chance(0.5); s.helper = c.chance(0.3); need += s.k == CONSUME || s.k == TIMED_CONSUME; p.push_back(s); }
    static const char* nm[] = {"section", "produce", "consume", "timed consume", "timed wait", "notify"};
    for (int w = 0; w < n; ++w) for (auto& s : plan[w]) c.note("process %d: %s %d ms", w, nm[s.k], s.ms);
    int avail = 0, owner = -1, ready = 0, woken = 0, contended = 0; std::vector<std::unique_ptr<Box<CV>>> cv; std::vector<int> pr;
    for (int i = 0; i < n; ++i) { cv.emplace_back(new Box<CV>); pr.push_back(new_process()); }
    auto enter = [&](int w) { CHECK(owner == -1, "process %d has the lock while process %d has it", w, owner); owner = w; }; auto leave = [&](int w) { CHECK(owner == w, "process %d's lock was taken by process %d", w, owner); owner = -1; };
    for (int w = 0; w < n; ++w) spawn("process" + std::to_string(w), pr[w], [&, w] {
        auto& b = *cv[w]; if (w) wait_until([&] { return ready > 0; }, "created"); b.make(w == 0, "cv", "n", verb > 0, vlevel_of(verb - 1), w == 0 && force); ++ready;
        auto consume = [&](CV::ScopedLock& l, bool timed, int ms, bool helper) {
            // the feeder provides one item for every consuming step, so waiting always ends
            auto pred = [&] { CHECK(owner == -1 || owner == w, "a predicate is evaluated by process %d without the lock", w); owner = w; bool v = avail > 0; if (!v) owner = -1; return v; };
            if (!timed) { if (helper) { int g = 0; while (avail <= 0) { leave(w); b->wait(l); enter(w); ++g; } woken += g > 0; } else { leave(w); b->wait_for(l, pred); CHECK(owner == w, "wait_for returned without its predicate holding"); ++woken; CHECK(avail > 0, "wait_for returned although its predicate is false"); } }
            else { leave(w); int64_t t0 = now_ns(); bool r = b->timedwait_for(l, (unsigned)ms, pred); if (owner == -1) owner = w; CHECK(owner == w, "process %d returned from a timed wait while process %d has the lock", w, owner); bool v = avail > 0; CHECK(r == v, "timedwait_for returned %d, its predicate is %d", r, v); if (!r) CHECK(now_ns() - t0 >= ms * 1000000ll - 2000, "a timed predicate wait of %d ms returned false after %ld us", ms, (long)((now_ns() - t0) / 1000)); woken += r; if (!r) return; }
            if (avail > 0) --avail;
        };
        for (auto& s : plan[w]) {
            contended += owner != -1;
            if (s.k == NOTIFY) { if (s.all) b->notify_all(); else { auto l = b->lock(); enter(w); b->notify_all(); leave(w); } continue; }
            if (s.k == SECTION && s.helper) {   // the same lock through its name
                CV::NamedMutex m = CV::create_named_mutex(b->mutex_path()); CV::ScopedLock l = CV::lock(m); enter(w);
                for (int i = 0; i < s.pause; ++i) yield("in the section");
                leave(w); if (s.all) CV::unlock(l); continue;
            }
            auto l = b->lock(); enter(w);
            for (int i = 0; i < s.pause; ++i) yield("in the section");
            switch (s.k) {
                case PRODUCE: ++avail; b->notify_all(); break;
                case CONSUME: consume(l, false, 0, s.helper); break;
                case TIMED_CONSUME: consume(l, true, s.ms, false); break;
                case TIMED: { leave(w); int64_t t = now_ns(); bool r = b->timedwait(l, (unsigned)s.ms); enter(w); woken += r; if (!r) CHECK(now_ns() - t >= s.ms * 1000000ll - 2000, "a timed wait of %d ms returned false after %ld us", s.ms, (long)((now_ns() - t) / 1000)); break; }
                default: break;
            }
            for (int i = 0; i < s.pause; ++i) yield("in the section");
            leave(w); if (s.helper) CV::unlock(l);
        }
    });
    Box<CV> fb; int fp = new_process(); int pace = c.draw(8);
    spawn("feeder", fp, [&] { wait_until([&] { return ready > 0; }, "created"); fb.make(false, "cv", "n", false, VLevel::V0, false); for (int i = 0; i < need; ++i) { if (pace) sleep_ms(pace); auto l = fb->lock(); enter(n); ++avail; fb->notify_all(); leave(n); } });
    must_finish(c, run(), "programs on a condition variable");
    solo("teardown", pr[0], [&] { { As a(fp); fb.destroy(); } for (int i = n; i-- > 0;) { As a(pr[i]); cv[i]->destroy(); } });
    c.note("%d wake-ups, %d contended", woken, contended); if (woken || contended) c.nontrivial();
}

// exact wake-ups: waiters known to wait before a notification under the lock
PROPERTY(wakeups, 40000, 1500000, "k waiters are known to be waiting (they entered the wait under the lock); then m notifications are sent under the lock, one at a time or to all: exactly min(k, m) of them (all, for notify_all) return, the others stay until notified; non-trivial: at least two waiters") {
    Options o = opts(c, false); o.p_timepass = 0; reset(c, o); int k = crowd(c, 5), waiting = 0, back = 0, expect = 0, owner = -1; bool created = false; int timed = 0; std::vector<char> tm; for (int i = 0; i < k; ++i) { tm.push_back(c.chance(0.3)); timed += tm[i]; }
    std::vector<int> notes; for (int left = k; left > 0;) { bool all = c.chance(0.25); notes.push_back(all ? 0 : 1); left = all ? 0 : left - 1; } c.note("%d waiters (%d timed), notifications:", k, timed); for (int x : notes) c.note("%s", x ? "one" : "all");
    Box<CV> b; std::vector<std::unique_ptr<Box<CV>>> cv; std::vector<int> pr; for (int i = 0; i < k; ++i) { cv.emplace_back(new Box<CV>); pr.push_back(new_process()); } int pb = new_process();
    for (int i = 0; i < k; ++i) spawn("waiter" + std::to_string(i), pr[i], [&, i] { wait_until([&] { return created; }, "created"); auto& x = *cv[i]; x.make(false, "cv", "n", false, VLevel::V0, false); auto l = x->lock(); CHECK(owner == -1, "two owners"); ++waiting; bool r = true; if (tm[i]) r = x->timedwait(l, 300000); else x->wait(l); CHECK(owner == -1, "waiter %d returned while process %d holds the lock", i, owner); CHECK(r, "a notified waiter's timed wait returned false"); owner = i; ++back; CHECK(back <= expect, "%d waiters returned after notifications for %d", back, expect); yield("woken"); owner = -1; });
    spawn("notifier", pb, [&] { b.make(true, "cv", "n", false, VLevel::V0, false); created = true; wait_until([&] { return waiting == k; }, "all entered");
        for (int x : notes) { { auto l = b->lock(); CHECK(owner == -1, "two owners"); owner = 99; expect = x ? expect + 1 : k; if (x) b->notify_one(); else b->notify_all(); yield("notified"); owner = -1; } wait_until([&] { return back == expect; }, "the notified waiters"); sleep_ms(3); CHECK(back == expect, "%d waiters returned after notifications for %d", back, expect); } });
    limit_vtime(200000); must_finish(c, run(), "waking waiters up");
    solo("teardown", pb, [&] { for (int i = 0; i < k; ++i) { As a(pr[i]); cv[i]->destroy(); } b.destroy(); });
    if (k >= 2) c.nontrivial();
}

PROPERTY(creation, 40000, 800000, "sequential and racing histories of creating, opening, closing, destroying and re-creating condition variables: opening without creator and creating twice without force throws, force and closed creators make way; non-trivial: something threw and something was re-created") {
    bool race = c.chance(0.3); reset(c, opts(c, false));
    if (race) {
        int n = 2 + c.draw(3), won = 0, lost = 0, tried = 0; std::vector<std::unique_ptr<Box<CV>>> cv; for (int i = 0; i < n; ++i) cv.emplace_back(new Box<CV>); c.note("%d racing creators", n);
        for (int i = 0; i < n; ++i) spawn("creator" + std::to_string(i), new_process(), [&, i] { bool t = false; try { cv[i]->make(true, "cv", "n", false, VLevel::V0, false); } catch (std::exception&) { t = true; } ++tried; if (t) ++lost; else { ++won; wait_until([&] { return tried == n; }, "all tried"); { auto l = (*cv[i])->lock(); (*cv[i])->notify_all(); } cv[i]->destroy(); } });
        must_finish(c, run(), "racing creators"); CHECK(won <= 1, "%d processes created the same condition variable", won); if (won == 1 && lost) c.nontrivial();
        return;
    }
    struct O { Box<CV> b; int proc; bool creator = false, closed = false, gone = false; int id = 0; }; int n = 2 + c.draw(4), steps = 3 + c.draw(14), cur = 0, next = 1, threw = 0, again = 0; std::vector<std::unique_ptr<O>> os; for (int i = 0; i < n; ++i) { os.emplace_back(new O); os[i]->proc = new_process(); }
    sequential(c, [&] {
        for (int k = 0; k < steps; ++k) {
            O& o = *os[c.draw(n)]; As a(o.proc);
            if (!o.b) {
                bool srv = c.chance(0.5), force = srv && c.chance(0.3), t = false; int verb = c.draw_biased(5, 0.1);
                try { o.b.make(srv, "cv", "n", verb > 0, vlevel_of(verb - 1), force); } catch (std::exception&) { t = true; }
                bool want = srv ? (cur != 0 && !force) : cur == 0;
                CHECK(t == want, "%s %s although %s", srv ? (force ? "creating with force" : "creating") : "opening", t ? "threw" : "succeeded", cur ? "it exists" : "it does not exist");
                if (t) { ++threw; o.b.leak(); } else { o.creator = srv; o.closed = o.gone = false; if (srv) { if (next > 1) ++again; for (auto& q : os) if (q.get() != &o && q->creator) q->closed = q->closed || force; cur = next++; } o.id = cur; }
                c.note("%s%s: %s", srv ? "create" : "open", force ? " with force" : "", t ? "threw" : "ok"); continue;
            }
            if (o.creator && o.id != cur && cur != 0 && !o.gone) { c.note("a replaced creator is left alone"); continue; }   // closing it would remove its successor's names: the price of force
            bool owner = o.creator && o.id == cur && !o.closed;
            switch (c.draw(4)) {
                case 0: o.b->close(); o.closed = o.gone = true; if (owner) cur = 0; c.note("close%s", o.creator ? " (creator)" : ""); break;
                case 1: o.b.destroy(); if (owner) cur = 0; o.creator = false; c.note("destroy"); break;
                default: { auto l = o.b->lock(); CHECK(!o.b->timedwait(l, 1), "a timed wait was woken by nobody"); CV::unlock(l); o.b->notify_one(); auto l2 = o.b->lock(); CHECK(!o.b->timedwait_for(l2, 1, [] { return false; }), "timedwait_for returned true for a false predicate"); CHECK(o.b->timedwait_for(l2, 1, [] { return true; }), "timedwait_for returned false for a true predicate"); }
            }
        }
        for (auto& o : os) { if (o->creator && o->id != cur && !o->gone) o->b.leak(); else { As a(o->proc); bool owner = o->creator && o->id == cur && !o->closed; o->b.destroy(); if (owner) cur = 0; } }
    });
    if (threw && again) c.nontrivial();
}
