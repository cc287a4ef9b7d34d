"""C27: the tensor dictionary maps each name to its own block."""
import json, os, select, signal, time
from pbtlib import *
from EigenIPC.PyEigenIPC import VLevel
import EigenIPC.PyEigenIPCExt.wrappers.shared_data_view as sdv
import EigenIPC.PyEigenIPCExt.wrappers.shared_tensor_dict as std

VL = [VLevel.V0, VLevel.V1, VLevel.V2, VLevel.V3]
NAME = st.one_of(st.text("abxy_/ ", min_size=1, max_size=4), st.text(st.characters(min_codepoint=1, exclude_categories=["Cs"]), max_size=12), st.sampled_from(["a" * 1024, "é" * 512, "a", "aa", "", " "]))


@st.composite
def names_dims(draw, most=8):
    names = draw(st.lists(NAME, min_size=1, max_size=most, unique=True))
    return names, [draw(st.one_of(st.integers(1, 4), st.integers(1, 12))) for _ in names]


@st.composite
def cases(draw):
    names, dims = draw(names_dims()); k = len(names)
    op = st.one_of(st.tuples(st.just("write"), st.integers(0, 2), st.integers(0, k - 1), st.integers(0, 2**32), st.integers(0, 9)),
                   st.tuples(st.sampled_from(["synch", "get", "get", "unknown", "clients"]), st.integers(0, 2), st.integers(0, k - 1), st.integers(0, 2**32), st.integers(0, 9)))
    return dict(names=names, dims=dims, nodes=draw(st.one_of(st.integers(1, 5), st.integers(1, 20))), safe=draw(st.booleans()), verbose=draw(st.booleans()), vl=draw(st.integers(0, 3)), late=draw(st.integers(0, 8)), ops=draw(st.lists(op, min_size=5, max_size=25)))


@sub("a dictionary server and two clients (one of them late) write, synchronise and get blocks under 1-8 distinct names (any text up to 1024 bytes) of dimensions 1-12 and 1-20 nodes; blocks that do not fit and unknown names are tried; non-trivial: a block written by one participant was got by another with at least two names", cases(), 9000, 700000, share=0.6)
def histories(c, case):
    names, dims, N = case["names"], case["dims"], case["nodes"]; T = sum(dims); off = [sum(dims[:i]) for i in range(len(dims))]
    kw = dict(namespace=c.ns, verbose=case["verbose"], vlevel=VL[case["vl"]], safe=case["safe"])
    srv = std.SharedTensorDict(names=list(names), dimensions=list(dims), n_nodes=N, is_server=True, **kw)
    P = [srv, std.SharedTensorDict(**kw), std.SharedTensorDict(**kw)]
    c.closers += [p.close for p in P]
    up = [False] * 3
    tensor = np.full((T, N), np.nan, np.float32); mirror = [tensor.copy() for _ in range(3)]; by = [None] * len(names)

    def start(i):
        P[i].run(); up[i] = True
        check(list(P[i].names) == names, "participant %d sees the names %r instead of %r", i, P[i].names, names)
        check(list(P[i].dimensions) == dims, "participant %d sees the dimensions %r instead of %r", i, P[i].dimensions, dims)
        for k, n in enumerate(names):
            g = P[i].get(n); check(g.shape == (dims[k], N) and np.isnan(g).all(), "participant %d gets\n%s\nfor unsynchronised data", i, g)

    def inspect(i, what, k=None):
        for j, n in enumerate(names):
            g = P[i].get(n); w = mirror[i][off[j]:off[j] + dims[j]]
            check(bits(g) == bits(w) and g.shape == w.shape, "after %s: participant %d gets\n%s\nunder name %d instead of\n%s", what, i, g, j, w)
            g[:] = 12345   # a copy: must not reach the data
    start(0); start(1)
    for t, (op, who, k, seed, how) in enumerate(case["ops"]):
        if t == case["late"] and not up[2]:
            start(2)
        if not up[who]:
            continue
        p = P[who]; what = "%s of name %d of dimensions %s by %d" % (op, k, dims, who); sl = slice(off[k], off[k] + dims[k])
        if op == "write":
            rng = np.random.default_rng(seed); rows, cols = dims[k], N
            if how == 7:
                rows += 1 + seed % 3
            elif how == 8:
                cols += 1 + seed % 3
            d = raw_values(rng, (rows, cols), np.float32)
            if how == 6 and dims[k] == 1:
                d = d[0]
            keep = d.copy()
            try:
                r = p.write(d, names[k], retry=False) if how % 2 else p.write(d, names[k]) if how == 0 else p.write(d, names[k], retry=True); err = None
            except Exception as e:
                r = False; err = e
            check(bits(d) == bits(keep), "%s changed its source", what)
            if how in (7, 8):
                check(not r, "%s of %dx%d values was accepted for a %dx%d block", what, rows, cols, dims[k], N)
            else:
                check(r is True, "%s returned %s (%s)", what, r, err)
                tensor[sl] = d; mirror[who][sl] = d; by[k] = who
        elif op == "synch":
            check(p.synch(retry=bool(how % 2)) is True, "%s was refused", what)
            mirror[who] = tensor.copy()
            if len(names) > 1 and any(b not in (None, who) for b in by):
                c.nontrivial()
        elif op == "unknown":
            for f in (lambda: p.get("no such\x02name"), lambda: p.write(np.zeros((1, N), np.float32), "no such\x02name")):
                try:
                    r = f()
                except Exception:
                    continue
                check(False, "an unknown name is accepted: %s", r)
        elif op == "clients":
            check(srv.data.get_n_clients() == up[1] + up[2], "%d clients of the data reported", srv.data.get_n_clients())
        inspect(who, what)
    for i in range(3):
        if up[i]:
            check(P[i].synch() is True, "the last synch of participant %d was refused", i); mirror[i] = tensor.copy(); inspect(i, "the end")


class Slow:
    """delays every call of an object by the next of the given delays (ms)"""
    def __init__(self, obj, delays):
        self.__dict__["o"] = obj; self.__dict__["d"] = delays

    def __getattr__(self, n):
        v = getattr(self.o, n)
        if not callable(v) or n.startswith("get") or n == "isRunning":
            return v
        d = self.d

        def f(*a, **k):
            x = d.pop(0) if d else 0
            if x:
                time.sleep(x / 1000)
            return v(*a, **k)
        return f


def slow_down(delays):
    for mod, names in ((sdv, ("ServerFactory", "ClientFactory")), (std, ("StringTensorServer", "StringTensorClient"))):
        for n in names:
            if hasattr(mod, n):
                setattr(mod, n, (lambda cls: lambda *a, **k: Slow(cls(*a, **k), delays))(getattr(mod, n)))


@st.composite
def races(draw):
    names, dims = draw(names_dims(5)); D = st.lists(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 8]), max_size=14)
    return dict(names=names, dims=dims, nodes=draw(st.integers(1, 4)), safe=draw(st.booleans()), server=draw(D), clients=[[draw(st.integers(0, 12)), draw(D)] for _ in range(draw(st.integers(1, 2)))], before=draw(st.booleans()))


@sub("a dictionary server and 1-2 clients start in different processes at different times, every call to the underlying tensors delayed by 0-8 ms; on return of run a client must see the names and dimensions, and the NaN fill after synchronising; non-trivial: a client began before the server was done", races(), 1500, 60000, share=0.4, confirm=8)
def start_races(c, case):
    names, dims, N = case["names"], case["dims"], case["nodes"]
    r, w = os.pipe(); pids = []; t0 = time.monotonic()
    saved = [(m, n, getattr(m, n)) for m, n in ((sdv, "ServerFactory"), (sdv, "ClientFactory"), (std, "StringTensorServer"), (std, "StringTensorClient")) if hasattr(m, n)]
    for delay, ds in case["clients"]:
        pid = os.fork()
        if pid == 0:
            res = {"err": "?"}
            try:
                signal.alarm(0); os.close(r); slow_down(ds); time.sleep(delay / 1000)
                began = time.monotonic()
                p = std.SharedTensorDict(namespace=c.ns, safe=case["safe"]); p.run()
                res = dict(names=list(p.names), dims=list(p.dimensions), began=began)
                p.synch(retry=True)
                res["nan"] = all(bool(np.isnan(p.get(n)).all()) and p.get(n).shape == (d, N) for n, d in zip(names, dims)) if res["names"] == names else None
                p.close()
            except BaseException as e:
                res = dict(err=text(e))
            os.write(w, (json.dumps(res) + "\n").encode())
            os._exit(0)
        pids.append(pid)
    os.close(w); err = None; srv = None; done = None
    try:
        if not case["before"]:
            time.sleep(0.002)
        slow_down(list(case["server"]))
        srv = std.SharedTensorDict(names=list(names), dimensions=list(dims), n_nodes=N, is_server=True, namespace=c.ns, safe=case["safe"])
        srv.run(); done = time.monotonic()
    except Exception as e:
        err = e
    buf = b""; end = time.monotonic() + 15; got = []
    while len(got) < len(pids) and time.monotonic() < end and err is None:
        if select.select([r], [], [], 0.2)[0]:
            x = os.read(r, 65536)
            if not x:
                break
            buf += x; *l, buf = buf.split(b"\n"); got += [json.loads(y) for y in l]
    for p in pids:
        if err is not None or len(got) < len(pids):
            os.kill(p, signal.SIGKILL)
        os.waitpid(p, 0)
    os.close(r)
    for m, n, v in saved:
        setattr(m, n, v)
    if srv is not None:
        c.closers.append(srv.close)
    check(err is None, "the server's start fails: %s", err)
    check(len(got) == len(pids), "a client's run does not return within 15 s")
    for g in got:
        check("err" not in g, "a client's start fails: %s", g.get("err"))
        check(g["names"] == names, "a client sees the names %r instead of %r", g["names"], names)
        check(g["dims"] == dims, "a client sees the dimensions %r instead of %r", g["dims"], dims)
        check(g["nan"], "a client does not get the NaN fill of unwritten data")
        if done and g["began"] < done:
            c.nontrivial()


@st.composite
def takeovers(draw):
    a, b = draw(names_dims(4)), draw(names_dims(4))
    return dict(names=[a[0], b[0]], dims=[a[1], b[1]], nodes=[draw(st.integers(1, 4)), draw(st.integers(1, 4))], safe=[draw(st.booleans()), draw(st.booleans())], died=draw(st.booleans()), ran=draw(st.booleans()), seed=draw(st.integers(0, 2**32)))


@sub("a dictionary server whose namespace is in use by a running one is refused and harms nobody; one with forced reconnection takes over from a process which died and starts with its own names, dimensions and NaN; non-trivial: it died running, or was refused", takeovers(), 1200, 50000, share=0.3)
def takeover(c, case):
    rng = np.random.default_rng(case["seed"])

    def server(k, force):
        return std.SharedTensorDict(names=list(case["names"][k]), dimensions=list(case["dims"][k]), n_nodes=case["nodes"][k], namespace=c.ns, is_server=True, safe=case["safe"][k], force_reconnection=force)

    def compare(p, k, blocks, what):
        names, dims = case["names"][k], case["dims"][k]
        check(list(p.names) == names and list(p.dimensions) == dims, "%s: names %r and dimensions %r instead of %r and %r", what, p.names, p.dimensions, names, dims)
        check(p.synch() is True, "%s: the synch was refused", what)
        for i, n in enumerate(names):
            g = p.get(n); w = blocks.get(n, np.full((dims[i], case["nodes"][k]), np.nan, np.float32))
            check(g.shape == w.shape and bits(g) == bits(w), "%s: name %d holds\n%s\ninstead of\n%s", what, i, g, w)
    if case["died"]:
        pid = os.fork()
        if pid == 0:
            try:
                a = server(0, False)
                if case["ran"]:
                    a.run()
                    for n, d in zip(case["names"][0], case["dims"][0]):
                        a.write(raw_values(rng, (d, case["nodes"][0]), np.float32), n)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        b = server(1, True); c.closers.append(b.close); b.run(); k = 1
        if case["ran"]:
            c.nontrivial()
    else:
        b = server(0, False); c.closers.append(b.close); b.run(); k = 0
        try:
            x = server(1, False); x.run(); done = True; x.close()
        except Exception:
            done = False
        check(not done, "a second dictionary server runs in the same namespace")
        c.nontrivial()
    cl = std.SharedTensorDict(namespace=c.ns, safe=case["safe"][k]); c.closers.append(cl.close); cl.run()
    compare(cl, k, {}, "the client at the start"); compare(b, k, {}, "the server at the start")
    blocks = {}
    for i, n in enumerate(case["names"][k]):
        blocks[n] = raw_values(rng, (case["dims"][k][i], case["nodes"][k]), np.float32)
        check((cl, b)[i % 2].write(blocks[n], n) is True, "the write of name %d was refused", i)
    compare(cl, k, blocks, "the client"); compare(b, k, blocks, "the server")


class Flaky:
    """an object of the bindings whose reads and writes are refused now and then, as if the lock were held by somebody else"""
    def __init__(self, obj, plan, what):
        self.__dict__["o"], self.__dict__["plan"], self.__dict__["what"] = obj, plan, what

    def __getattr__(self, n):
        v = getattr(self.o, n)
        if n not in self.what:
            return v

        def f(*a, **k):
            return False if self.plan and self.plan.pop(0) else v(*a, **k)
        return f


@st.composite
def contentions(draw):
    names, dims = draw(names_dims(4)); B = st.lists(st.booleans(), max_size=5)
    op = st.tuples(st.sampled_from(["write", "write_default", "write_once", "synch", "synch_once"]), st.integers(0, 1), st.integers(0, len(names) - 1), st.integers(0, 2**32), B)
    return dict(names=names, dims=dims, nodes=draw(st.integers(1, 4)), start=[draw(B), draw(B), draw(B)], ops=draw(st.lists(op, min_size=2, max_size=10)))


@sub("a dictionary server and client on bindings which refuse reads and writes now and then (as when the lock is held): both start completely, retrying writes and synchronisations get through, the others report the refusal; finally the client closes and is counted nowhere, and the closed server's namespace is free; non-trivial: the start and a retrying call were refused", contentions(), 4000, 300000, share=0.3)
def contention(c, case):
    if not all(hasattr(m, n) for m, n in ((sdv, "ServerFactory"), (sdv, "ClientFactory"), (std, "StringTensorServer"), (std, "StringTensorClient"))):
        return
    names, dims, N = case["names"], case["dims"], case["nodes"]; plans = [list(x) for x in case["start"]]
    saved = sdv.ServerFactory, sdv.ClientFactory, std.StringTensorClient; keep = []
    RW = ("read", "write")
    sdv.ServerFactory = lambda *a, **k: Flaky(saved[0](*a, **k), plans[0], RW)
    sdv.ClientFactory = lambda *a, **k: Flaky(saved[1](*a, **k), plans[1], RW)
    std.StringTensorClient = lambda *a, **k: keep.append(saved[2](*a, **k)) or Flaky(keep[-1], plans[2], ("read_vec",))
    try:
        P = [std.SharedTensorDict(names=list(names), dimensions=list(dims), n_nodes=N, is_server=True, namespace=c.ns), std.SharedTensorDict(namespace=c.ns)]
        c.closers += [p.close for p in P]
        for p in P:
            p.run()
    finally:
        sdv.ServerFactory, sdv.ClientFactory, std.StringTensorClient = saved
    started = any(case["start"][0][:1]) or any(case["start"][1][:1])
    check(list(P[1].names) == names and list(P[1].dimensions) == dims, "the client sees names %r and dimensions %r instead of %r and %r", P[1].names, P[1].dimensions, names, dims)
    off = [sum(dims[:i]) for i in range(len(dims))]; tensor = np.full((sum(dims), N), np.nan, np.float32); mirror = [tensor.copy(), tensor.copy()]

    def inspect(what):
        for i in range(2):
            for j, n in enumerate(names):
                g = P[i].get(n); w = mirror[i][off[j]:off[j] + dims[j]]
                check(g.shape == w.shape and bits(g) == bits(w), "%s: participant %d gets\n%s\nunder name %d instead of\n%s", what, i, g, j, w)
    inspect("start")
    for op, i, k, seed, plan in case["ops"]:
        plans[0][:] = plan if i == 0 else []; plans[1][:] = plan if i == 1 else []
        fail = bool(plan and plan[0]); what = "%s of name %d by %d (refused as %s)" % (op, k, i, plan); sl = slice(off[k], off[k] + dims[k])
        if op.startswith("write"):
            d = raw_values(np.random.default_rng(seed), (dims[k], N), np.float32)
            res = P[i].write(d, names[k]) if op == "write_default" else P[i].write(d, names[k], retry=op == "write")
            ok = not fail or op != "write_once"
            check(res is ok, "%s returned %s", what, res)
            if ok:
                tensor[sl] = d
            if ok or bits(P[i].get(names[k])) == bits(d):
                mirror[i][sl] = d
        else:
            res = P[i].synch(retry=op == "synch"); ok = not fail or op != "synch_once"
            check(res is ok, "%s returned %s", what, res)
            if ok:
                mirror[i] = tensor.copy()
        if fail and ok and started:
            c.nontrivial()
        inspect(what)
    for q in plans:
        q[:] = []
    for p in P:
        check(p.synch() is True, "the last synch was refused")
    mirror = [tensor.copy()] * 2; inspect("the end")
    check(P[0].data.get_n_clients() == 1, "%d clients of the data reported instead of 1", P[0].data.get_n_clients())
    P[1].close()
    check(P[0].data.get_n_clients() == 0, "%d clients of the data reported after the only one closed", P[0].data.get_n_clients())
    P[0].close()
    b = std.SharedTensorDict(names=list(reversed(names)), dimensions=list(reversed(dims)), n_nodes=N + 1, is_server=True, namespace=c.ns); c.closers.append(b.close); b.run()
    cl = std.SharedTensorDict(namespace=c.ns); c.closers.append(cl.close); cl.run()
    check(list(cl.names) == names[::-1] and list(cl.dimensions) == dims[::-1], "the successor of a closed server has names %r and dimensions %r", cl.names, cl.dimensions)
