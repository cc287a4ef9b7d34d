"""C26: the tensor wrapper's mirror moves only what was asked for."""
from pbtlib import *
from EigenIPC.PyEigenIPC import dtype as DT, VLevel, ClientFactory, RowMajor
from EigenIPC.PyEigenIPCExt.wrappers.shared_data_view import SharedTWrapper

DTS = [(DT.Bool, np.bool_), (DT.Int, np.int32), (DT.Float, np.float32), (DT.Double, np.float64)]
VL = [VLevel.V0, VLevel.V1, VLevel.V2, VLevel.V3]
SCAL = st.one_of(st.tuples(st.sampled_from(["int", "float", "f32", "f64"]), st.integers(-1000, 1000)), st.tuples(st.just("bool"), st.integers(0, 1)), st.tuples(st.sampled_from(["nan", "inf"]), st.just(0)))


@st.composite
def cases(draw):
    R, C = draw(st.one_of(st.integers(1, 5), st.integers(1, 12))), draw(st.one_of(st.integers(1, 5), st.integers(1, 12)))

    @st.composite
    def block(d):
        n, m = d(st.integers(1, R)), d(st.integers(1, C))
        if d(st.integers(0, 5)) == 0:
            return [d(st.integers(-R - 1, R + 1)), d(st.integers(-C - 1, C + 1)), d(st.integers(-2, R + 1)), d(st.integers(-2, C + 1))]
        return [d(st.integers(0, R - n)), d(st.integers(0, C - m)), n, m]
    who = st.integers(0, 2)
    op = st.one_of(st.tuples(st.sampled_from(["write", "write_retry"]), who, block(), st.integers(0, 2**32), st.integers(0, 6)),
                   st.tuples(st.sampled_from(["read", "read_retry", "synch", "push", "synch_retry", "push_retry"]), who, block(), st.integers(0, 2**32), st.integers(0, 6)),
                   st.tuples(st.sampled_from(["scalar", "scalar_retry"]), who, block(), SCAL, st.integers(0, 6)),
                   st.tuples(st.sampled_from(["readscalar", "readscalar_retry"]), who, block(), st.none(), st.integers(0, 6)),
                   st.tuples(st.sampled_from(["mirror", "mirror", "all_read", "all_push", "all_read_retry", "all_push_retry", "zero", "hold", "release", "clients"]), who, block(), st.integers(0, 2**32), st.integers(0, 6)))
    return dict(dt=draw(st.integers(0, 3)), R=R, C=C, safe=draw(st.booleans()), verbose=draw(st.booleans()), vl=draw(st.integers(0, 3)), fill=draw(st.sampled_from([None, 0, 1, -1, 7, 0.5, "nan"])), ops=draw(st.lists(op, min_size=4, max_size=25)))


@sub("a wrapper server and two wrapper clients of every dtype write, read and synchronise scalars and blocks (fitting or not), clear, hold the lock and edit their mirrors; after every call the three mirrors and the tensor are compared with a model; non-trivial: a sub-block moved between two participants and something was refused", cases(), 14000, 1000000)
def histories(c, case):
    dt, nd = DTS[case["dt"]]; R, C, safe = case["R"], case["C"], case["safe"]
    fill = float("nan") if case["fill"] == "nan" else case["fill"]
    if case["fill"] == "nan" and nd in (np.int32, np.bool_):
        fill = None
    kw = dict(namespace=c.ns, basename="w", verbose=case["verbose"], vlevel=VL[case["vl"]], dtype=dt, safe=safe)
    srv = SharedTWrapper(is_server=True, n_rows=R, n_cols=C, fill_value=fill, **kw)
    P = [srv, SharedTWrapper(**kw), SharedTWrapper(fill_value=fill, **kw)]
    c.closers += [p.close for p in P]
    check(not srv.is_running(), "running before run")
    for p in P:
        p.run(); check(p.is_running(), "not running after run")
    ver = ClientFactory(basename="w", namespace=c.ns, dtype=dt, layout=RowMajor, safe=False); ver.attach(); c.closers.append(ver.close)
    init = np.full((R, C), 0 if fill is None else fill, dtype=nd)
    tensor = init.copy(); mirror = [init.copy(), np.zeros((R, C), nd), init.copy()]; full = np.zeros((R, C), nd)
    held = None; touched = [[False] * 3 for _ in range(1)]; last = None; moved = refused = 0

    def inspect(what):
        check(ver.read(full, 0, 0), "%s: the tensor cannot be read", what)
        check(bits(full) == bits(tensor), "%s: the tensor holds\n%s\ninstead of\n%s", what, full, tensor)
        for i, p in enumerate(P):
            m = p.get_numpy_mirror()
            check(m.shape == (R, C) and m.dtype == nd and bits(m) == bits(mirror[i]), "%s: the mirror of participant %d holds\n%s\ninstead of\n%s", what, i, m, mirror[i])
    inspect("start")

    def attempt(f):
        try:
            return f(), None
        except Exception as e:
            return False, e
    for op, who, (r, k, n, m), arg, pad in case["ops"]:
        p = P[who]; base = op.replace("_retry", ""); retry = op.endswith("_retry"); what = "%s by %d of %dx%d at (%d,%d)" % (op, who, n, m, r, k)
        if held is not None and (held == who and base not in ("release", "mirror") or base == "clients"):
            P[held].data_sem_release(); held = None      # counting waits for the lock; the holder's own access is not specified
        if retry and held is not None and safe:
            P[held].data_sem_release(); held = None
        locked = safe and held is not None
        if base in ("scalar", "readscalar"):
            n = m = 1
        neg = min(r, k, n, m) < 0
        fits = not neg and r + n <= R and k + m <= C
        sl = (slice(r, r + n), slice(k, k + m))
        if retry and not (fits and n and m) and base not in ("all_read", "all_push"):
            continue                                # retrying until success what cannot succeed
        if base == "write":
            if n < 0 or m < 0:
                continue
            rng = np.random.default_rng(arg)
            d = raw_values(rng, (n, m), nd if pad < 5 else [np.int32, np.float64][pad - 5])
            if d.dtype != nd:
                d = np.nan_to_num(d % 100, nan=1, posinf=1, neginf=1).astype(d.dtype)
            src = d.copy(order="CF"[pad % 2]) if pad < 3 else np.pad(d, ((1, 1), (0, 2)))[1:1 + n, 0:m]
            keep = src.copy()
            res, err = attempt(lambda: p.write_retry(src, r, k) if retry else p.write(src, r, k))
            if retry:
                check(err is None, "%s raised %s", what, err); res = True
            check(bits(src) == bits(keep), "%s changed its source", what)
            if fits and n and m:
                check(err is None and res is (not locked), "%s returned %s (%s)", what, res, err)
                if res or bits(p.get_numpy_mirror()[sl]) == bits(d.astype(nd)):   # whether a refused write stays in the mirror is not specified
                    mirror[who][sl] = d.astype(nd)
                if res:
                    tensor[sl] = d.astype(nd)
                    if n * m < R * C:
                        last = who
            elif not fits:
                check(not res, "%s was accepted", what); refused += 1
                # what does not fit is refused before anything is touched
        elif base == "scalar":
            kind, v = arg
            if kind in ("nan", "inf", "float", "f32", "f64") and nd in (np.int32, np.bool_) and kind in ("nan", "inf"):
                continue
            v = {"int": int, "float": lambda x: x / 4, "f32": lambda x: np.float32(x / 4), "f64": lambda x: np.float64(x / 4), "bool": bool, "nan": lambda x: float("nan"), "inf": lambda x: float("inf")}[kind](v)
            res, err = attempt(lambda: p.write_retry(v, r, k) if retry else p.write(v, r, k))
            if retry:
                check(err is None, "%s raised %s", what, err); res = True
            if fits:
                check(err is None and res is (not locked), "%s returned %s (%s)", what, res, err)
                v = np.array([v]).astype(nd)[0]
                if res or bits(p.get_numpy_mirror()[r:r + 1, k]) == bits(np.array([v])):
                    mirror[who][r, k] = v
                if res:
                    tensor[r, k] = mirror[who][r, k]; last = who
            else:
                check(not res, "%s was accepted", what); refused += 1
        elif base == "read":
            if n < 0 or m < 0:
                continue
            rng = np.random.default_rng(arg)
            parent = raw_values(rng, (n + 2, m + 3), nd); before = parent.copy(); dst = parent[1:1 + n, 2:2 + m]
            res, err = attempt(lambda: p.read_retry(r, k, dst) if retry else p.read(r, k, dst))
            done = res is not False and err is None and res[1]
            if fits and n and m:
                check(err is None and done is (not locked), "%s returned %s (%s)", what, res, err)
                if done:
                    mirror[who][sl] = tensor[sl]; before[1:1 + n, 2:2 + m] = tensor[sl]
                    if last not in (None, who):
                        moved += 1
            elif not fits:
                check(not done, "%s was accepted", what); refused += 1
            check(bits(parent) == bits(before), "%s: the array holds\n%s\ninstead of\n%s", what, parent, before)
        elif base == "readscalar":
            if retry and not fits:
                continue
            res, err = attempt(lambda: p.read_retry(r, k) if retry else p.read(r, k))
            done = res is not False and err is None and res[1]
            if fits:
                check(err is None and done is (not locked), "%s returned %s (%s)", what, res, err)
                if done:
                    mirror[who][r, k] = tensor[r, k]
                    check(bits(np.array([res[0]], dtype=nd)) == bits(tensor[r:r + 1, k:k + 1]) or np.isnan(res[0]) and np.isnan(tensor[r, k]), "%s returned %r instead of %r", what, res[0], tensor[r, k])
                    moved += last not in (None, who)
            else:
                check(not done, "%s was accepted", what); refused += 1
        elif base in ("synch", "push", "all_read", "all_push"):
            rd = base in ("synch", "all_read")
            if base.startswith("all"):
                sl = (slice(0, R), slice(0, C)); fits = True; n, m = R, C
                res, err = attempt(lambda: p.synch_all(read=rd, retry=retry))
            elif retry:
                res, err = attempt(lambda: p.synch_retry(r, k, n, m, read=rd)); res = True
            else:
                res, err = attempt(lambda: p.synch(r, k, n, m, read=rd))
            if fits and n and m:
                check(err is None and res is (not locked), "%s returned %s (%s)", what, res, err)
                if res and rd:
                    mirror[who][sl] = tensor[sl]; moved += last not in (None, who) and n * m < R * C
                elif res:
                    tensor[sl] = mirror[who][sl]; last = who
            elif not fits:
                check(not res, "%s was accepted", what); refused += 1
        elif base == "mirror":
            if fits and n and m:
                d = raw_values(np.random.default_rng(arg), (n, m), nd); p.get_numpy_mirror()[sl] = d; mirror[who][sl] = d
        elif base == "zero":
            if held is not None:
                P[held].data_sem_release(); held = None
            p.to_zero(); mirror[who][:, :] = 0; tensor[:, :] = 0
        elif base == "hold":
            if held is None:
                p.data_sem_acquire(); held = who
        elif base == "release":
            if held is not None:
                P[held].data_sem_release(); held = None
        elif base == "clients":
            check(srv.get_n_clients() == 3, "%d clients reported instead of 3", srv.get_n_clients())
            res, err = attempt(lambda: P[1].get_n_clients()); check(err is not None, "a client reports %s clients", res)
        inspect(what)
    if held is not None:
        P[held].data_sem_release()
    if moved and refused:
        c.nontrivial()


class FakeTorch:
    """What the wrapper uses of torch, on NumPy arrays: CPU tensors share their memory with the array, GPU tensors own theirs,
    and a non-blocking copy to the CPU is not there yet when the call returns."""
    class T:
        def __init__(self, a, dev):
            self.a, self.dev = a, dev

        def requires_grad_(self, *_):
            return self

        def to(self, dev, non_blocking=False):
            dev = str(dev).split(":")[0]
            if dev == self.dev:
                return self
            a = self.a.copy()
            if dev == "cpu" and non_blocking:
                a.view(np.uint8)[...] ^= 0x5a
            return FakeTorch.T(a, dev)

        def cpu(self):
            return self.to("cpu")

        def cuda(self, non_blocking=False):
            return self.to("cuda", non_blocking)

        def clone(self):
            return FakeTorch.T(self.a.copy(), self.dev)

        def detach(self):
            return self

        def numpy(self):
            return self.a

        def zero_(self):
            self.a[...] = 0
            return self

        def fill_(self, v):
            self.a[...] = v
            return self

        def copy_(self, o, non_blocking=False):
            self.a[...] = o.to(self.dev, non_blocking).a
            return self

        def __setitem__(self, k, v):
            self.a[k] = v.a if isinstance(v, FakeTorch.T) else v

        def __getitem__(self, k):
            return FakeTorch.T(self.a[k], self.dev)
        shape = property(lambda s: s.a.shape)

    class cuda:
        available = True

        @staticmethod
        def is_available():
            return FakeTorch.cuda.available

        @staticmethod
        def synchronize(*_):
            pass

    @staticmethod
    def from_numpy(a):
        return FakeTorch.T(a, "cpu")


@st.composite
def torch_cases(draw):
    R, C = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    op = st.tuples(st.sampled_from(["edit_np", "edit_torch", "edit_gpu", "to_gpu", "to_gpu_nb", "from_gpu", "from_gpu_nb", "push", "pull", "zero", "write", "read"]), st.integers(0, 1), st.integers(0, 2**32))
    return dict(dt=draw(st.integers(0, 3)), R=R, C=C, fill=draw(st.sampled_from([None, 0, 1, 3])), torch=[draw(st.integers(0, 4)) > 0 for _ in range(2)], gpu=[draw(st.integers(0, 3)) > 0 for _ in range(2)], cuda=draw(st.integers(0, 7)) > 0, ops=draw(st.lists(op, min_size=3, max_size=20)))


@sub("a wrapper server and a wrapper client with or without torch view and GPU mirror (on a stand-in for torch) edit any of the views, synchronise, clear: the torch view always is the mirror, the GPU mirror moves only when asked; non-trivial: a GPU mirror was synchronised in both directions", torch_cases(), 6000, 400000, share=0.5)
def torch_views(c, case):
    import sys
    old = sys.modules.get("torch"); sys.modules["torch"] = FakeTorch; FakeTorch.cuda.available = case["cuda"]
    try:
        torch_history(c, case)
    finally:
        if old is None:
            del sys.modules["torch"]
        else:
            sys.modules["torch"] = old


def torch_history(c, case):
    dt, nd = DTS[case["dt"]]; R, C = case["R"], case["C"]; fill = case["fill"]
    kw = dict(namespace=c.ns, basename="w", verbose=False, vlevel=VL[0], dtype=dt, safe=False)
    P = [SharedTWrapper(is_server=i == 0, n_rows=R if i == 0 else -1, n_cols=C if i == 0 else -1, fill_value=fill, with_torch_view=case["torch"][i], with_gpu_mirror=case["gpu"][i], **kw) for i in range(2)]
    c.closers += [p.close for p in P]
    on = [case["torch"][i] and case["gpu"][i] for i in range(2)]
    if any(on) and not case["cuda"]:
        for i in range(2):
            try:
                P[i].run(); ok = True
            except Exception:
                ok = False
            check(ok or on[i], "participant %d without GPU mirror cannot run without CUDA", i)
            check(not (ok and on[i]), "participant %d has a GPU mirror without CUDA", i)
            if not ok and i == 0:
                return
        return
    for p in P:
        p.run()
    init = np.full((R, C), 0 if fill is None else fill, dtype=nd)
    tensor = init.copy(); mirror = [init.copy(), init.copy()]; gpu = [init.copy(), init.copy()]; full = np.zeros((R, C), nd)
    ver = ClientFactory(basename="w", namespace=c.ns, dtype=dt, layout=RowMajor, safe=False); ver.attach(); c.closers.append(ver.close)

    def raises(f):
        try:
            f()
        except Exception:
            return True
        return False

    def inspect(what):
        check(ver.read(full, 0, 0) and bits(full) == bits(tensor), "%s: the tensor holds\n%s\ninstead of\n%s", what, full, tensor)
        for i, p in enumerate(P):
            check(bits(p.get_numpy_mirror()) == bits(mirror[i]), "%s: the mirror of %d holds\n%s\ninstead of\n%s", what, i, p.get_numpy_mirror(), mirror[i])
            check(p.torch_view_exists() == case["torch"][i] and p.gpu_mirror_exists() == on[i], "%s: views of %d: torch %s, GPU %s", what, i, p.torch_view_exists(), p.gpu_mirror_exists())
            if case["torch"][i]:
                t = p.get_torch_mirror()
                check(t.dev == "cpu" and np.shares_memory(t.a, p.get_numpy_mirror()) and bits(t.a) == bits(mirror[i]), "%s: the torch view of %d is not its mirror", what, i)
            else:
                check(raises(p.get_torch_mirror), "%s: a torch view of %d was returned", what, i)
            if on[i]:
                g = p.get_torch_mirror(gpu=True)
                check(g.dev == "cuda" and bits(g.a) == bits(gpu[i]), "%s: the GPU mirror of %d holds\n%s\ninstead of\n%s", what, i, g.a, gpu[i])
    inspect("start")
    seen = [set(), set()]
    for op, i, arg in case["ops"]:
        p = P[i]; what = "%s by %d" % (op, i); d = raw_values(np.random.default_rng(arg), (R, C), nd)
        if op == "edit_np":
            p.get_numpy_mirror()[:, :] = d; mirror[i] = d.copy()
        elif op == "edit_torch" and case["torch"][i]:
            p.get_torch_mirror().a[:, :] = d; mirror[i] = d.copy()
        elif op == "edit_gpu" and on[i]:
            p.get_torch_mirror(gpu=True).a[:, :] = d; gpu[i] = d.copy()
        elif op in ("to_gpu", "to_gpu_nb", "from_gpu", "from_gpu_nb"):
            frm = op.startswith("from")
            if on[i]:
                p.synch_mirror(from_gpu=frm, non_blocking=op.endswith("nb"))
                if frm:
                    mirror[i] = gpu[i].copy()
                else:
                    gpu[i] = mirror[i].copy()
                seen[i].add(frm)
            else:
                check(raises(lambda: p.synch_mirror(from_gpu=frm)), "%s was accepted without GPU mirror", what)
        elif op in ("push", "pull"):
            check(p.synch_all(read=op == "pull", retry=bool(arg & 1)) is True, "%s failed", what)
            if op == "pull":
                mirror[i] = tensor.copy()
            else:
                tensor = mirror[i].copy()
        elif op == "zero":
            p.to_zero(); mirror[i][:, :] = 0; tensor[:, :] = 0; gpu[i][:, :] = 0
        elif op == "write":
            check(p.write(d, 0, 0) is True, "%s failed", what); mirror[i] = d.copy(); tensor = d.copy()
        elif op == "read":
            out = np.zeros((R, C), nd); check(p.read(0, 0, out)[1] is True, "%s failed", what); mirror[i] = tensor.copy()
            check(bits(out) == bits(tensor), "%s returned\n%s\ninstead of\n%s", what, out, tensor)
        inspect(what)
    if any(len(s) == 2 for s in seen):
        c.nontrivial()


@st.composite
def takeovers(draw):
    d = st.integers(1, 5)
    return dict(dt=draw(st.integers(0, 3)), a=[draw(d), draw(d)], b=[draw(d), draw(d)], safe=[draw(st.booleans()), draw(st.booleans())], died=draw(st.booleans()), ran=draw(st.booleans()), lock=draw(st.booleans()), fill=[draw(st.sampled_from([None, 0, 1])), draw(st.sampled_from([None, 0, 1]))], seed=draw(st.integers(0, 2**32)))


@sub("a wrapper server whose name is in use by a running one is refused and harms nobody; one with forced reconnection takes over from a process which died (running or not, holding the lock or not) and starts from its own shape and fill value; non-trivial: it died holding the lock, or was refused", takeovers(), 1600, 60000, share=0.3)
def takeover(c, case):
    import os
    dt, nd = DTS[case["dt"]]; rng = np.random.default_rng(case["seed"])

    def server(k, force):
        n, m = case["ab"[k]]
        return SharedTWrapper(namespace=c.ns, basename="w", is_server=True, n_rows=n, n_cols=m, dtype=dt, safe=case["safe"][k], fill_value=case["fill"][k], force_reconnection=force)
    if case["died"]:
        pid = os.fork()
        if pid == 0:
            try:
                a = server(0, False)
                if case["ran"]:
                    a.run(); a.write(raw_values(rng, tuple(case["a"]), nd), 0, 0)
                    if case["lock"]:
                        a.data_sem_acquire()
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        b = server(1, True); c.closers.append(b.close); b.run()
        cl = SharedTWrapper(namespace=c.ns, basename="w", dtype=dt, safe=True); c.closers.append(cl.close); cl.run()
        want = np.full(tuple(case["b"]), case["fill"][1] or 0, nd)
        check(cl.get_numpy_mirror().shape == want.shape, "the client sees the shape %s instead of %s", cl.get_numpy_mirror().shape, want.shape)
        check(cl.synch_all(read=True) is True and bits(cl.get_numpy_mirror()) == bits(want), "the new tensor starts from\n%s\ninstead of\n%s", cl.get_numpy_mirror(), want)
        d = raw_values(rng, want.shape, nd)
        check(cl.write(d, 0, 0) is True and b.synch_all(read=True) is True and bits(b.get_numpy_mirror()) == bits(d), "what the client writes does not arrive")
        check(b.get_n_clients() == 1, "%d clients reported instead of 1", b.get_n_clients())
        if case["lock"] and case["ran"]:
            c.nontrivial()
        return
    a = server(0, False); c.closers.append(a.close); a.run()
    d = raw_values(rng, tuple(case["a"]), nd); check(a.write(d, 0, 0) is True, "the write was refused")
    cl = SharedTWrapper(namespace=c.ns, basename="w", dtype=dt, safe=case["safe"][1]); c.closers.append(cl.close); cl.run()
    try:
        b = server(1, False); b.run(); done = True; b.close()
    except Exception:
        done = False
    check(not done, "a second server runs under the same name")
    check(cl.synch_all(read=True) is True and bits(cl.get_numpy_mirror()) == bits(d), "after the refused server the client reads\n%s\ninstead of\n%s", cl.get_numpy_mirror(), d)
    d = raw_values(rng, tuple(case["a"]), nd)
    check(a.write(d, 0, 0) is True and cl.synch_all(read=True) is True and bits(cl.get_numpy_mirror()) == bits(d), "after the refused server data does not arrive")
    check(a.get_n_clients() == 1, "%d clients reported instead of 1", a.get_n_clients())
    c.nontrivial()


class Flaky:
    """an object of the bindings whose reads and writes are refused now and then, as if the lock were held by somebody else"""
    def __init__(self, obj, plan):
        self.__dict__["o"], self.__dict__["plan"] = obj, plan

    def __getattr__(self, n):
        v = getattr(self.o, n)
        if n not in ("read", "write"):
            return v

        def f(*a, **k):
            if self.plan and self.plan.pop(0):
                self.__dict__["refused"] = True
                return False
            return v(*a, **k)
        return f


@st.composite
def contentions(draw):
    R, C = draw(st.integers(1, 5)), draw(st.integers(1, 5)); n, m = draw(st.integers(1, R)), draw(st.integers(1, C))
    op = st.tuples(st.sampled_from(["write", "write_retry", "scalar_retry", "read", "read_retry", "readscalar_retry", "synch_retry", "push_retry", "all_read", "all_read_retry", "all_push_retry", "zero"]), st.integers(0, 1), st.integers(0, 2**32), st.lists(st.booleans(), max_size=4))
    return dict(dt=draw(st.integers(0, 3)), R=R, C=C, at=[draw(st.integers(0, R - n)), draw(st.integers(0, C - m)), n, m], fill=draw(st.sampled_from([None, 0, 1, 3])), plans=[draw(st.lists(st.booleans(), max_size=4)) for _ in range(2)], ops=draw(st.lists(op, min_size=2, max_size=12)))


@sub("a wrapper server and client on bindings which refuse reads and writes now and then (as when the lock is held): the retrying calls, clearing and the initial fill get through nevertheless, the others report the refusal and leave the tensor alone; finally both close, after which the name is free and nobody is counted; non-trivial: a retrying call was refused", contentions(), 8000, 500000, share=0.3)
def contention(c, case):
    import EigenIPC.PyEigenIPCExt.wrappers.shared_data_view as sdv
    if not (hasattr(sdv, "ServerFactory") and hasattr(sdv, "ClientFactory")):
        return
    saved = sdv.ServerFactory, sdv.ClientFactory; plans = [list(x) for x in case["plans"]]; fl = []

    def flaky(f, k):
        def g(*a, **kw):
            fl.append(Flaky(f(*a, **kw), plans[k])); return fl[-1]
        return g
    dt, nd = DTS[case["dt"]]; R, C, fill = case["R"], case["C"], case["fill"]; r, k, n, m = case["at"]; sl = (slice(r, r + n), slice(k, k + m))
    kw = dict(namespace=c.ns, basename="w", dtype=dt, fill_value=fill)
    sdv.ServerFactory, sdv.ClientFactory = flaky(saved[0], 0), flaky(saved[1], 1)
    try:
        P = [SharedTWrapper(is_server=True, n_rows=R, n_cols=C, **kw), SharedTWrapper(**kw)]
    finally:
        sdv.ServerFactory, sdv.ClientFactory = saved
    c.closers += [p.close for p in P]
    for p in P:
        p.run()
    ver = ClientFactory(basename="w", namespace=c.ns, dtype=dt, layout=RowMajor, safe=False); ver.attach(); c.closers.append(ver.close)
    tensor = np.full((R, C), 0 if fill is None else fill, dtype=nd); mirror = [tensor.copy(), tensor.copy()]; full = np.zeros((R, C), nd)

    def inspect(what):
        check(ver.read(full, 0, 0) and bits(full) == bits(tensor), "%s: the tensor holds\n%s\ninstead of\n%s", what, full, tensor)
        for i in range(2):
            check(bits(P[i].get_numpy_mirror()) == bits(mirror[i]), "%s: the mirror of %d holds\n%s\ninstead of\n%s", what, i, P[i].get_numpy_mirror(), mirror[i])
    inspect("start")
    for op, i, seed, plan in case["ops"]:
        p = P[i]; plans[i][:] = plan; what = "%s by %d (refused as %s) of %dx%d at (%d,%d)" % (op, i, plan, n, m, r, k)
        d = raw_values(np.random.default_rng(seed), (n, m), nd); fail = bool(plan and plan[0])
        if op == "write":
            check(p.write(d, r, k) is (not fail), "%s: wrong result", what)
            if not fail:
                tensor[sl] = d
            if not fail or bits(p.get_numpy_mirror()[sl]) == bits(d):
                mirror[i][sl] = d
        elif op == "write_retry":
            p.write_retry(d, r, k); tensor[sl] = d; mirror[i][sl] = d
        elif op == "scalar_retry":
            p.write_retry(float(seed % 2), r, k); tensor[r, k] = seed % 2; mirror[i][r, k] = seed % 2
        elif op in ("read", "read_retry"):
            was = d.copy(); res = p.read(r, k, d) if op == "read" else p.read_retry(r, k, d)
            if op == "read" and fail:
                check(not res[1] and bits(d) == bits(was), "%s: %s, and the array holds\n%s", what, res, d)
            else:
                check(res[1] is True and bits(d) == bits(tensor[sl]), "%s: %s, and the array holds\n%s", what, res, d); mirror[i][sl] = d
        elif op == "readscalar_retry":
            v, done = p.read_retry(r, k); check(done is True and (bits(np.array([v], nd)) == bits(tensor[r:r + 1, k]) or np.isnan(v) and np.isnan(tensor[r, k])), "%s: %s", what, v); mirror[i][r, k] = tensor[r, k]
        elif op in ("synch_retry", "push_retry"):
            p.synch_retry(r, k, n, m, read=op[0] == "s")
            if op[0] == "s":
                mirror[i][sl] = tensor[sl]
            else:
                tensor[sl] = mirror[i][sl]
        elif op.startswith("all"):
            res = p.synch_all(read="read" in op, retry=op.endswith("retry"))
            check(res is (not fail or op.endswith("retry")), "%s: returned %s", what, res)
            if res and "read" in op:
                mirror[i] = tensor.copy()
            elif res:
                tensor = mirror[i].copy()
        else:
            p.to_zero(); tensor[:] = 0; mirror[i][:] = 0
        if fail and (op.endswith("retry") or op == "zero"):
            c.nontrivial()
        inspect(what)
    ver.close()
    check(P[0].get_n_clients() == 1, "%d clients reported instead of 1", P[0].get_n_clients())
    P[1].close()
    check(P[0].get_n_clients() == 0, "%d clients reported after the only one closed", P[0].get_n_clients())
    P[0].close()
    b = SharedTWrapper(is_server=True, n_rows=C, n_cols=R, **kw); c.closers.append(b.close); b.run()    # the name is free
    cl = SharedTWrapper(**kw); c.closers.append(cl.close); cl.run()
    check(cl.synch_all(read=True) is True and bits(cl.get_numpy_mirror()) == bits(np.full((C, R), 0 if fill is None else fill, dtype=nd)), "the successor of a closed server starts from\n%s", cl.get_numpy_mirror())
