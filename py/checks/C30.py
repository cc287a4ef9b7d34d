"""C30: C++ and Python processes share the same tensors and string tensors."""
from pbtlib import *
from agents import *

DTS = [np.bool_, np.int32, np.float32, np.float64]
DIM = st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 24))
NAMES = ["t", "data", "a_b", "T0"]


@st.composite
def cases(draw):
    def block():
        return [draw(st.integers(0, 2**31)) for _ in range(5)]
    ops = []
    for _ in range(draw(st.integers(3, 24))):
        k = draw(st.sampled_from(["w"] * 5 + ["r"] * 4 + ["attach"] * 3 + ["detach", "close", "stop", "run", "hold", "hold", "free", "contend", "mismatch", "rival", "outside", "killclient", "regen", "regen"]))
        ops.append([k, draw(st.integers(0, 4))] + block())
    return dict(dt=draw(st.integers(0, 3)), lay=draw(st.integers(0, 1)), safe=draw(st.integers(0, 3)) > 0, verbose=draw(st.booleans()), vl=draw(st.integers(0, 3)), name=draw(st.integers(0, 3)),
                procs=draw(st.lists(st.integers(0, 1), min_size=2, max_size=4)), home=[draw(st.integers(0, 3)) for _ in range(5)], dims=[draw(st.tuples(DIM, DIM)) for _ in range(4)],
                start=draw(st.lists(st.integers(1, 4), max_size=4, unique=True)), ops=ops, bye=draw(st.sampled_from(["close", "quit", "kill"])))


class World:
    """participant 0 is the server; 1-4 are clients; each lives in one of the processes"""

    def __init__(self, c, case):
        self.c, self.case = c, case
        self.dt = case["dt"]; self.nd = np.dtype(DTS[self.dt]); self.lay = case["lay"]; self.safe = case["safe"]
        self.tail = "%d %d" % (case["verbose"], case["vl"]); self.base = NAMES[case["name"]]
        self.A = [Agent(c, LANGS[l]) for l in case["procs"]]
        self.h = 10; self.stale = []; self.gen = 0; self.counted = True; self.crashed = False; self.stuck = False
        self.where = {}; self.up = {}; self.pending = set(); self.held = None; self.last = None
        for k in range(5):
            self.place(k)

    def place(self, k):
        self.h += 1; self.where[k] = (case_agent(self.A, self.case["home"][k]), self.h); self.up[k] = False

    def agent(self, k):
        return self.where[k][0]

    def call(self, k, cmd, *a):
        return self.where[k][0].call(cmd, self.where[k][1], *a)

    def send(self, k, cmd, *a):
        self.where[k][0].send(cmd, self.where[k][1], *a)

    def create(self, k, dims=None, force=False):
        if k == 0:
            self.R, self.C = dims
            self.call(0, "new", "srv", self.base, self.c.ns, self.dt, self.lay, dims[0], dims[1], self.tail, force, self.safe)
            self.model = np.zeros(dims, dtype=self.nd)
        else:
            self.call(k, "new", "cli", self.base, self.c.ns, self.dt, self.lay, self.tail, self.safe)

    def free(self):
        if self.held is not None:
            self.call(self.held, "free"); self.held = None

    def everyone(self, what):
        """every attached participant reads the whole tensor"""
        if self.safe and (self.held is not None or self.stuck):
            return
        for k in range(5):
            if self.up[k] and self.agent(k).alive and not self.agent(k).pending:
                r = self.call(k, "r", 0, 0, self.R, self.C)
                check(r[0] == "1", "%s: participant %d (%s) cannot read the tensor", what, k, self.agent(k).lang)
                got = np.frombuffer(unhx(r[1]), dtype=self.nd).reshape(self.R, self.C)
                check(bits(got) == bits(self.model), "%s: participant %d (%s) reads\n%s\ninstead of\n%s", what, k, self.agent(k).lang, got, self.model)
                if self.last is not None and self.agent(self.last).lang != self.agent(k).lang:
                    self.c.nontrivial()
        if self.up[0] and self.counted and self.held is None and not self.stuck and not self.agent(0).pending and self.agent(0).alive:
            n = int(self.call(0, "nc")[0]); m = sum(self.up[k] for k in range(1, 5))
            check(n == m, "%s: %d clients reported, %d attached", what, n, m)


def case_agent(A, i):
    return A[i % len(A)]


@sub("a server and up to four clients, placed in 2-4 C++ and Python processes, of every dtype, layout and safety: block writes and reads at valid and invalid places, attach before and after the server runs, detach, close, stop/run, held and contended locks, mismatching clients, rival servers, killed processes (also holding the lock), new generations with other dimensions in other processes, closed or killed predecessors with forced reconnection; non-trivial: a block written by one language was read by the other", cases(), 3600, 220000)
def tensors(c, case):
    w = World(c, case)
    for k in case["start"]:
        # these attach before there is a server
        if not w.agent(k).pending and w.agent(k) is not w.agent(0):
            w.create(k); w.send(k, "attach"); w.pending.add(k)

    def arrive(what):
        for k in sorted(w.pending):
            w.agent(k).result(); w.up[k] = True
            check(w.call(k, "dims") == [str(w.R), str(w.C)], "%s: client %d attached to a tensor of other dimensions", what, k)
        w.pending.clear()
        w.everyone(what)
    w.create(0, case["dims"][0])
    check(not any(w.agent(k).poll() for k in w.pending), "a client attaches before the server runs")
    for k in range(1, 5):
        if k not in w.pending and not w.agent(k).pending:
            w.create(k)
    w.call(0, "run"); w.up[0] = True
    arrive("start")
    made = {k for k in range(5)}
    for k in range(1, 5):
        if k not in case["start"] or not w.up[k]:
            w.create(k); w.call(k, "attach"); w.up[k] = True
    w.everyone("all attached")
    for n_op, (op, k, a, b, d, e, seed) in enumerate(case["ops"]):
        x = w.agent(k)
        name = "%s of participant %d (%s, %s)" % (op, k, x.lang, "x".join(map(str, (w.R, w.C))))
        if op not in ("regen", "killclient") and (not x.alive or x.pending):
            continue
        if op in ("w", "r", "outside"):
            if w.held == k:
                w.free()
            n, m = 1 + a % w.R, 1 + b % w.C
            row, col = d % (w.R - n + 1), e % (w.C - m + 1)
            if op == "outside":
                row, col = [(-1 - d % 3, col), (row, w.C - m + 1 + e % 3), (w.R - n + 1, col), (2147483647, col)][seed % 4]
                op = "wr"[seed // 4 % 2]; ok = False
            else:
                ok = w.up[k] and not (w.safe and (w.held is not None or w.stuck))
            if op == "w":
                v = raw_values(np.random.default_rng(seed), (n, m), w.nd)
                r = w.call(k, "w", row, col, n, m, hx(v.tobytes()))
                check(r == [str(int(ok))], "%s at (%d,%d) of %dx%d returns %s", name, row, col, n, m, r)
                if ok:
                    w.model[row:row + n, col:col + m] = v; w.last = k
            else:
                r = w.call(k, "r", row, col, n, m)
                check(r[0] == str(int(ok)), "%s at (%d,%d) of %dx%d returns %s", name, row, col, n, m, r[0])
                got = np.frombuffer(unhx(r[1]), dtype=w.nd).reshape(n, m)
                want = w.model[row:row + n, col:col + m] if ok else np.frombuffer(b"\1" * (n * m * w.nd.itemsize), dtype=w.nd).reshape(n, m)
                check(bits(got) == bits(want), "%s at (%d,%d) gives\n%s\ninstead of\n%s", name, row, col, got, want)
        elif op == "attach" and k and not w.stuck:
            w.free()
            if not w.up[k]:
                if d % 2:
                    w.place(k); w.create(k) if not w.agent(k).pending and w.agent(k).alive else None
                    if w.agent(k).pending or not w.agent(k).alive:
                        continue
                if w.up[0]:
                    w.call(k, "attach"); w.up[k] = True
                elif w.agent(k) is not w.agent(0):
                    w.send(k, "attach"); w.pending.add(k)
        elif op in ("detach", "close") and k and not w.stuck:
            w.free()
            if w.up[k]:
                w.call(k, op); w.up[k] = False
                if op == "close":
                    w.place(k)
                    if w.agent(k).alive and not w.agent(k).pending:
                        w.create(k)
        elif op == "stop" and w.up[0] and not w.stuck and w.agent(0).alive and not w.agent(0).pending:
            w.free(); w.call(0, "stop"); w.up[0] = False
        elif op == "run" and not w.up[0] and not w.stuck and w.agent(0).alive and not w.agent(0).pending:
            check(not any(w.agent(q).poll(0.0005) for q in w.pending), "%s: a client attached while the server was stopped", name)
            w.call(0, "run"); w.up[0] = True; arrive(name)
        elif op == "hold" and w.held is None and w.up[k] and not w.stuck:
            w.call(k, "hold"); w.held = k
        elif op == "free":
            w.free()
        elif op == "contend" and w.held is not None and w.up[k] and x is not w.agent(w.held):
            w.send(k, "hold")
            check(not x.poll(0.001), "%s: acquires the lock participant %d holds", name, w.held)
            w.free(); x.result(); w.held = k
        elif op == "mismatch" and w.up[0]:
            w.free()
            if w.stuck:
                continue
            o = (w.dt * 2 + w.lay + 1 + d % 7) % 8
            x.call("new", 5, "cli", w.base, c.ns, o // 2, o % 2, w.tail, w.safe)
            check(x.raises("attach", 5), "%s: a client of another type or layout attaches", name)
            x.call("del", 5)
        elif op == "rival" and w.up[0]:
            w.free()
            if w.stuck:
                continue
            if not x.raises("new", 5, "srv", w.base, c.ns, e % 4, seed % 2, 1 + a % 5, 1 + b % 5, w.tail, 0, w.safe):
                check(x.raises("run", 5), "%s: a second server runs", name)
                x.call("del", 5)
        elif op == "killclient":
            q = w.agent(k)
            if q is w.agent(0) or not q.alive:
                continue
            if w.held is not None and w.agent(w.held) is q:
                w.stuck = True; w.held = None
            q.kill(); w.crashed = True; w.counted = False
            for j in range(1, 5):
                if w.agent(j) is q:
                    w.up[j] = False; w.pending.discard(j)
        elif op == "regen":
            # a new generation, in the process of another participant perhaps
            mode = "kill" if w.stuck or not w.agent(0).alive or w.agent(0).pending else ["close", "kill", "killall"][a % 3]
            if mode == "close":
                w.free(); w.call(0, "close")
                if b % 2:
                    w.call(0, "del")
            elif mode == "kill":
                w.agent(0).kill(); w.crashed = True
                if w.held is not None and w.agent(w.held).alive:
                    w.free()
                elif w.held is not None:
                    w.stuck = True
            if mode == "killall" or w.stuck:
                # (leaving a tensor waits for its lock, which is lost with a dead holder)
                for q in w.A if b % 2 else w.A[::-1]:
                    q.kill()
                w.crashed = True
            if w.crashed:
                # what waits for or is attached to the dead generation is replaced
                for j in sorted(w.pending):
                    w.agent(j).kill()
                w.pending.clear()
            left = []
            for j in range(1, 5):
                if w.agent(j).alive and j not in w.pending:
                    left.append(w.where[j])
            w.held = None; w.stuck = False; w.counted = True; w.last = None
            for i, q in enumerate(w.A):
                if not q.alive:
                    w.A[i] = Agent(c, q.lang)
            w.case["home"][0] = w.case["home"][0] + (d % 2)
            was = dict(w.where)
            for j in range(5):
                if j not in w.pending:
                    w.place(j)
            # the server must not be created in a process which is blocked in an attach
            for i in range(len(w.A)):
                if w.agent(0).pending:
                    w.case["home"][0] += 1; w.place(0)
            if w.agent(0).pending:
                for j in sorted(w.pending):
                    w.agent(j).kill()
                return
            w.gen += 1; w.create(0, case["dims"][w.gen % 4], force=w.crashed or e % 2 == 1)
            check(not any(w.agent(j).poll() for j in w.pending), "%s: a client attaches before the next server runs", name)
            w.call(0, "run"); w.up[0] = True; w.crashed = False
            arrive("generation %d" % w.gen)
            for j in range(1, 5):
                if not w.up[j] and not w.agent(j).pending and w.agent(j).alive:
                    w.create(j)
                    if (seed >> j) & 1:
                        w.call(j, "attach"); w.up[j] = True
            w.everyone("generation %d" % w.gen)
            for q, h in left:
                # leaving late disturbs nobody
                if q.alive and not q.pending:
                    q.call(["close", "del"][seed >> 6 & 1], h)
        if op in ("w", "attach", "detach", "close", "run", "mismatch", "rival", "regen"):
            w.everyone("after " + name)
    if not w.stuck:
        w.free()
    if case["bye"] == "close" and not w.stuck and w.agent(0).alive and not w.pending and not w.crashed:
        for k in (0, 1, 2, 3, 4) if case["home"][1] & 1 else (4, 3, 2, 1, 0):
            if w.agent(k).alive:
                w.call(k, "close")
        left = [os.path.basename(p) for p in glob.glob("/dev/shm/*" + c.ns + "*")]
        check(len(left) <= 1, "after everyone closed there remain %s", left)
    elif case["bye"] == "quit":
        if w.stuck or w.pending:
            return
        for q in w.A:
            if q.alive and not q.pending:
                q.quit()


TEXTS = st.tuples(st.sampled_from([1] * 10 + [16, 128, 255, 256, 341, 1023, 1024, 1025]), st.text(st.one_of(st.characters(min_codepoint=1, exclude_categories=["Cs"]), st.sampled_from("aé€😀\x7f \n")), max_size=6))


@st.composite
def texts(draw):
    n = draw(st.integers(1, 9)); who = st.integers(0, 3); ix = st.one_of(st.integers(0, n), st.integers(0, n), st.sampled_from([-2147483648, -1, 1024, 2147483647]))
    op = st.one_of(st.tuples(st.just("wv"), who, ix, st.lists(TEXTS, max_size=n + 1)), st.tuples(st.just("ws"), who, ix, TEXTS), st.tuples(st.just("rv"), who, ix, st.integers(0, n + 1)),
                   st.tuples(st.just("rs"), who, ix, st.none()), st.tuples(st.sampled_from(["close", "regen", "killregen"]), who, ix, st.none()))
    return dict(n=n, safe=draw(st.booleans()), verbose=draw(st.booleans()), vl=draw(st.integers(0, 3)), langs=[draw(st.integers(0, 1)) for _ in range(4)], lens=[draw(st.integers(1, 9)) for _ in range(3)],
                early=draw(st.integers(0, 7)), ops=draw(st.lists(op, min_size=2, max_size=16)))


@sub("a string-tensor server and up to three clients, each in a C++ or Python process, write and read Unicode texts singly and as vectors, inside and outside, with clients that start before the server, leave and come back, and servers which are closed or killed and replaced by others of other lengths; non-trivial: a text written by one language was read by the other", texts(), 2600, 160000)
def strings(c, case):
    tail = "%d %d" % (case["verbose"], case["vl"]); safe = case["safe"]
    A = [Agent(c, LANGS[l]) for l in case["langs"]]; up = [False] * 4; n = case["n"]; h = 1; gen = 0
    model = [""] * n; writer = [None] * n

    def read(k, what):
        r = A[k].call("rv", h, 0, n)
        check(r[0] == "1", "%s: participant %d (%s) cannot read everything", what, k, A[k].lang)
        got = [unhx(x).decode() for x in r[1:]]
        check(got == model, "%s: participant %d (%s) reads %r instead of %r", what, k, A[k].lang, got, model)
        if any(w is not None and m and A[w].lang != A[k].lang for w, m in zip(writer, model)):
            c.nontrivial()

    def start(force):
        early = [k for k in (1, 2, 3) if case["early"] >> (k - 1) & 1 and not force]
        for k in early:
            A[k].call("new", h, "scli", "s", c.ns, tail, safe); A[k].send("run", h)
        A[0].call("new", h, "ssrv", "s", c.ns, n, tail, force, safe)
        check(not any(A[k].poll() for k in early), "a client runs before the server does")
        A[0].call("run", h); up[0] = True
        for k in (1, 2, 3):
            if k in early:
                A[k].result()
            else:
                A[k].call("new", h, "scli", "s", c.ns, tail, safe); A[k].call("run", h)
            up[k] = True
            check(A[k].call("len", h) == [str(n)], "client %d reports length %s", k, n)
    start(False)

    def fit(t):
        return len(t.encode()) <= 1024
    for op, k, index, arg in case["ops"]:
        name = "%s of participant %d (%s) at %d of %d" % (op, k, A[k].lang, index, n)
        if op == "wv":
            l = [t * m for m, t in arg]; ok = up[k] and index >= 0 and index + len(l) <= n and all(fit(t) for t in l)
            r = A[k].call("wv", h, index, len(l), *[hx(t.encode()) for t in l])
            if l:
                check(r == [str(int(ok))], "%s of %s bytes returns %s", name, [len(t.encode()) for t in l], r)
            if r == ["1"]:
                model[index:index + len(l)] = l; writer[index:index + len(l)] = [k] * len(l)
        elif op == "ws":
            t = arg[1] * arg[0]; ok = up[k] and 0 <= index < n and fit(t)
            r = A[k].call("ws", h, index, hx(t.encode()))
            check(r == [str(int(ok))], "%s of %d bytes returns %s", name, len(t.encode()), r)
            if ok:
                model[index] = t; writer[index] = k
        elif op == "rv":
            ok = up[k] and index >= 0 and index + arg <= n; r = A[k].call("rv", h, index, arg)
            if arg:
                check(r[0] == str(int(ok)), "%s of %d returns %s", name, arg, r[0])
            got = [unhx(x).decode() for x in r[1:]]
            check(got == (model[index:index + arg] if r[0] == "1" else ["old"] * arg), "%s of %d gives %r instead of %r", name, arg, got, model[index:index + arg])
        elif op == "rs":
            ok = up[k] and 0 <= index < n; r = A[k].call("rs", h, index)
            check(r[0] == str(int(ok)), "%s returns %s", name, r[0])
            if ok:
                check(unhx(r[1]).decode() == model[index], "%s gives %r instead of %r", name, unhx(r[1]).decode(), model[index])
        elif op == "close" and k:
            if up[k]:
                A[k].call("close", h); up[k] = False
            else:
                A[k].call("new", h, "scli", "s", c.ns, tail, safe); A[k].call("run", h); up[k] = True
        elif op in ("regen", "killregen"):
            if op == "regen":
                A[0].call("close", h); up[0] = False
            else:
                A[0].kill(); A[0] = Agent(c, LANGS[(case["langs"][0] + index) % 2])
            for j in (1, 2, 3):
                if index >> j & 1:
                    A[j].kill(); A[j] = Agent(c, LANGS[case["langs"][j]])
            gen += 1; h += 1; n = case["lens"][gen % 3]; model = [""] * n; writer = [None] * n
            start(op == "killregen" or index >> 1 & 7 != 0)
            for j in (1, 2, 3):
                if not index >> j & 1 and index & 1:
                    A[j].call("close", h - 1)
        if op in ("wv", "ws", "close", "regen", "killregen"):
            for q in range(4):
                if up[q]:
                    read(q, "after " + name)


@st.composite
def races_(draw):
    kind = draw(st.sampled_from(["rw", "rw", "inc", "inc", "str"]))
    n = draw(st.integers(2, 5)); dt = draw(st.integers(1, 3))
    return dict(kind=kind, dt=dt, lay=draw(st.integers(0, 1)), langs=[draw(st.integers(0, 1)) for _ in range(n)], dims=draw(st.sampled_from([(1, 1), (3, 5), (1, 700), (40, 40), (200, 100), (300, 300)])), len=draw(st.integers(1, 12)),
                k=draw(st.integers(5, 120)), writer=[draw(st.booleans()) for _ in range(n)])


@sub("2-5 processes of both languages work in parallel at full speed: whole-tensor writes of one value against whole-tensor reads (no mixture may be read), numbers increased under the manual lock (none may be lost), whole-vector texts written and read; non-trivial: both languages took part, and somebody succeeded", races_(), 700, 45000, confirm=12)
def parallel(c, case):
    A = [Agent(c, LANGS[l]) for l in case["langs"]]; kind, k = case["kind"], case["k"]; R, C = case["dims"]
    if kind == "str":
        A[0].call("new", 1, "ssrv", "s", c.ns, case["len"], 0, 0, 0, 1); A[0].call("run", 1)
        for a in A[1:]:
            a.call("new", 1, "scli", "s", c.ns, 0, 0, 1); a.call("run", 1)
    else:
        safe = kind == "rw"
        A[0].call("new", 1, "srv", "t", c.ns, case["dt"], case["lay"], R, C, 0, 0, 0, safe); A[0].call("run", 1)
        for a in A[1:]:
            a.call("new", 1, "cli", "t", c.ns, case["dt"], case["lay"], 0, 0, safe); a.call("attach", 1)
    both = len(set(case["langs"])) > 1
    if kind == "inc":
        for a in A:
            a.send("inc", 1, k)
        for a in A:
            r = a.result(); check(r == ["0"], "%s times a %s process found the tensor changed inside its critical section", r[0], a.lang)
        r = A[-1].call("r", 1, 0, 0, R, C)
        got = np.frombuffer(unhx(r[1]), dtype=DTS[case["dt"]])
        check(r[0] == "1" and (got == k * len(A)).all(), "%d participants increased %d times each and the tensor holds %s", len(A), k, got[0])
        if both:
            c.nontrivial()
        return
    done = 0
    for i, a in enumerate(A):
        if case["writer"][i]:
            a.send("sw", 1, k, 1 + i * 100000)
        else:
            a.send("sr", 1, k)
    for i, a in enumerate(A):
        r = a.result(); done += int(r[0])
        if not case["writer"][i]:
            check(r[1] == "0", "%s of %s reads of a %s process give a mixture of writes", r[1], r[0], a.lang)
    # and in quiet everything works
    for a in A:
        check(a.call("sw", 1, 1, 7) == ["1"] and a.call("sr", 1, 1) == ["1", "0"], "afterwards a %s process cannot write and read", a.lang)
    if both and done:
        c.nontrivial()
