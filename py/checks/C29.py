"""C29: producers and consumers keep lock-step between real processes, written in C++ or in Python."""
from pbtlib import *
from agents import *

# (waits without end, and long ones at the limits of narrower integers and of products with 1000 and 1000000)
MS = st.sampled_from([-1, -1, 0, -7, -2147483648, 60000, 60000, 65536 + 9, 2147483 + 1, 4294967 + 12, 16777216 + 3, 2147483647])


@st.composite
def rounds(draw, n):
    who = st.lists(st.integers(0, n - 1), max_size=n, unique=True)
    perm = draw(st.permutations(list(range(n))))
    # rarely the event comes so late that a wait with a hidden limit would have given up
    late = [1300, 1300, 1300, 5300][draw(st.integers(0, 3))] if draw(st.integers(0, 119)) == 77 else 0
    r = dict(late=late, early=draw(who), ms=[draw(MS) for _ in range(n)], short=draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, 25)), max_size=1)) if draw(st.integers(0, 3)) == 0 else [],
                ack=perm, via=[draw(st.booleans()) for _ in range(n)], wack=draw(st.integers(0, n)), wms=draw(MS), wshort=draw(st.integers(1, 25)) if draw(st.integers(0, 4)) == 0 else 0)
    if late:
        r["wack"] = 0
        if draw(st.booleans()):
            r["ms"] = [-1] * n; r["wms"] = -1
    return r


@st.composite
def cases(draw):
    gens = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3]))):
        n = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
        gens.append(dict(prod=draw(st.integers(0, 1)), cons=[draw(st.integers(0, 1)) for _ in range(n)], early=draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True)),
                         force=draw(st.booleans()), rounds=draw(st.lists(rounds(n), max_size=5)),
                         end=draw(st.sampled_from(["close", "close", "close", "quit", "kill", "kill", "killbusy"])), keep=draw(st.booleans())))
    return dict(verbose=draw(st.booleans()), vl=draw(st.integers(0, 3)), gens=gens)


def slow(t, ms):
    """the wait did not end noticeably before its time"""
    return t >= ms / 1000.0 - 0.0015


@sub("chains of 1-3 producer generations with 1-4 consumers, each in a process of its own in either language, go through up to 5 rounds: consumers wait before or after the trigger with or without timeouts, waits that time out before, acknowledgements before, during and after the producer's wait; the processes then close, exit or are killed (also while waiting) and the next producer starts, with forced reconnection after a death; non-trivial: both languages took part in a completed round", cases(), 2600, 160000)
def lockstep(c, case):
    v, l = int(case["verbose"]), case["vl"]
    clean = True; old = []
    for g in case["gens"]:
        cons = []
        if not clean:
            # a death leaves names behind; attaching to leftovers is outside the domain, and only force is sure to recover
            g["early"] = []; g["force"] = True
        for k, lang in enumerate(g["cons"]):
            a = Agent(c, LANGS[lang]); cons.append(a)
            if k in g["early"]:
                a.call("new", 1, "cons", "p", c.ns, v, l); a.send("run", 1)
        p = Agent(c, LANGS[g["prod"]])
        check(not any(cons[k].poll() for k in g["early"]), "a consumer's run returns before there is a producer")
        p.call("new", 1, "prod", "p", c.ns, v, l, g["force"])
        check(p.raises("trigger", 1) and p.raises("wack", 1, 0, 5), "a producer which was not run triggers or waits")
        check(not any(cons[k].poll() for k in g["early"]), "a consumer's run returns before the producer runs")
        p.call("run", 1)
        for k, a in enumerate(cons):
            if k not in g["early"]:
                a.call("new", 1, "cons", "p", c.ns, v, l)
                if k & 1:
                    check(a.raises("wait", 1, 5) and a.raises("ack", 1), "a consumer which was not run waits or acknowledges")
                a.send("run", 1)
        for a in cons:
            a.result()
        for x in old:
            # those of the generation before leave late: the new one must not notice
            x.call("close", 1); x.kill()
        old = []
        n = len(cons)
        for r, rd in enumerate(g["rounds"]):
            name = "round %d" % r
            for k, ms in rd["short"]:
                w, t, res = [None] * 3
                cons[k].send("wait", 1, ms); w, t, res = cons[k].recv()
                check(w == "r" and res == ["0"], "%s: a wait of %d ms without a trigger gives %s %s", name, ms, w, res)
                check(slow(t, ms), "%s: a wait of %d ms gives up after %g ms", name, ms, t * 1e3)
            for k in rd["early"]:
                cons[k].send("wait", 1, rd["ms"][k])
            early = rd["early"]
            check(not any(cons[k].poll(0.001 if j == 0 and r == 0 else 0) for j, k in enumerate(early)), "%s: a wait returns before the trigger", name)
            if rd["late"] and early:
                check(not cons[early[0]].poll(rd["late"] / 1000.0) and not any(cons[k].poll() for k in early), "%s: a wait returns before the trigger", name); c.label("late events")
            p.call("trigger", 1)
            for k in range(n):
                if k not in early:
                    cons[k].send("wait", 1, rd["ms"][k])
            for k in range(n):
                check(cons[k].result() == ["1"], "%s: a wait does not give true for the trigger", name)
            # a second wait sees no second trigger
            if rd["wshort"] and rd["ack"][0] & 1 == 0:
                k = rd["ack"][0]
                cons[k].send("wait", 1, rd["wshort"]); w, t, res = cons[k].recv()
                check(w == "r" and res == ["0"] and slow(t, rd["wshort"]), "%s: a second wait of %d ms gives %s %s after %g ms", name, rd["wshort"], w, res, t * 1e3)
            waiting = False
            for j, k in enumerate(rd["ack"]):
                if j == rd["wack"] and not waiting:
                    if rd["wshort"]:
                        p.send("wack", 1, n, rd["wshort"]); w, t, res = p.recv()
                        check(w == "r" and res == ["0"], "%s: the producer's wait of %d ms gives %s %s after %d of %d acknowledgements", name, rd["wshort"], w, res, j, n)
                        check(slow(t, rd["wshort"]), "%s: the producer's wait of %d ms gives up after %g ms", name, rd["wshort"], t * 1e3)
                    p.send("wack", 1, n, rd["wms"]); waiting = True
                if waiting:
                    check(not p.poll(rd["late"] / 1000.0 if j == n - 1 else 0), "%s: the producer's wait returns after %d of %d acknowledgements", name, j, n)
                check(cons[k].call("ack", 1) == ["1"], "%s: an acknowledgement fails", name)
            if not waiting:
                p.send("wack", 1, n, rd["wms"])
            check(p.result() == ["1"], "%s: the producer's wait for all acknowledgements does not give true", name)
            if len(set([g["prod"]] + g["cons"])) > 1:
                c.nontrivial()
        # how they leave
        P = [p] + cons
        if g["end"] == "close":
            p.call("close", 1)
            check(p.raises("trigger", 1), "a closed producer triggers")
            if g["keep"]:
                old = cons
            else:
                for a in cons:
                    a.call("close", 1); check(a.raises("wait", 1, 5), "a closed consumer waits")
            p.kill()
            clean = True
        elif g["end"] == "quit":
            p.quit()
            for a in cons:
                a.quit()
            clean = True
        else:
            if g["end"] == "killbusy":
                for a in cons[::2]:
                    a.send("wait", 1, -1)
                if n > 1 and g["keep"]:
                    cons[1].call("ack", 1); p.send("wack", 1, n, -1)
            for a in P if g["keep"] else P[::-1]:
                a.kill()
            clean = False
        c.label(g["end"])
    for x in old:
        x.call("close", 1)


@st.composite
def races(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5]))
    return dict(prod=draw(st.integers(0, 1)), cons=[draw(st.integers(0, 1)) for _ in range(n)], k=[draw(st.integers(1, 120)) for _ in range(draw(st.integers(1, 3)))], pms=draw(MS), ms=[draw(MS) for _ in range(n)])


@sub("a producer and 1-5 consumers in processes of both languages run through blocks of 1-120 rounds each at full speed, in parallel, without any coordination but their own; every round must complete and no call hang; non-trivial: both languages took part", races(), 1400, 90000, confirm=12)
def races(c, case):
    n = len(case["cons"])
    p = Agent(c, LANGS[case["prod"]]); cons = [Agent(c, LANGS[l]) for l in case["cons"]]
    p.call("new", 1, "prod", "p", c.ns, 0, 0, 0); p.call("run", 1)
    for a in cons:
        a.call("new", 1, "cons", "p", c.ns, 0, 0); a.call("run", 1)
    for k in case["k"]:
        for j, a in enumerate(cons[::2]):
            a.send("loop", 1, k, case["ms"][2 * j])
        p.send("loop", 1, k, n, case["pms"])
        for j, a in enumerate(cons[1::2]):
            a.send("loop", 1, k, case["ms"][2 * j + 1])
        for a in [p] + cons:
            r = a.result()
            check(r == [str(k)], "%s of %d rounds completed for a %s process (%d consumers)", r[0], k, a.lang, n)
    if len(set([case["prod"]] + case["cons"])) > 1:
        c.nontrivial()
