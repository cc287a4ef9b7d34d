"""C25: Python string tensors keep and return exact texts."""
from pbtlib import *
from EigenIPC.PyEigenIPC import StringTensorServer, StringTensorClient, VLevel

VL = [VLevel.V0, VLevel.V1, VLevel.V2, VLevel.V3]
ALPHA = st.one_of(st.characters(min_codepoint=1, exclude_categories=["Cs"]), st.sampled_from("aé€😀\x01\x7f\x80ÿ߿ࠀ￿\U0010ffff \n\t"))
# (repeat, text): long texts without long draws
TEXT = st.tuples(st.sampled_from([1] * 12 + [2, 16, 64, 128, 255, 256, 257, 341, 342, 1023, 1024, 1025, 1026, 2000]), st.text(ALPHA, max_size=8))
INDEX = st.one_of(st.integers(0, 8), st.integers(0, 8), st.sampled_from([-2147483648, -1025, -2, -1, 9, 1024, 2147483647]))


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 30)))
    op = st.one_of(st.tuples(st.just("write_vec"), st.integers(0, 2), INDEX, st.lists(TEXT, max_size=min(n + 2, 8)), st.booleans()),
                   st.tuples(st.just("write_str"), st.integers(0, 2), INDEX, TEXT, st.booleans()),
                   st.tuples(st.just("read_vec"), st.integers(0, 2), INDEX, st.integers(0, n + 2), st.booleans()),
                   st.tuples(st.just("read_str"), st.integers(0, 2), INDEX, st.none(), st.booleans()),
                   st.tuples(st.sampled_from(["info", "close", "raw", "fullread"]), st.integers(0, 2), st.just(0), st.none(), st.booleans()))
    return dict(n=n, safe=draw(st.booleans()), verbose=draw(st.booleans()), vl=draw(st.integers(0, 3)), late=draw(st.integers(0, 6)), ops=draw(st.lists(op, min_size=3, max_size=20)))


def text_of(t):
    return t[1] * t[0]


@sub("a string-tensor server and two clients write and read lists and single texts (any Unicode text without NUL, lengths around 0, 1024 and beyond) at indices inside and outside; non-trivial: a non-ASCII or overwriting text was read back by another participant", cases(), 16000, 1200000)
def texts(c, case):
    n = case["n"]; kw = dict(basename="s", name_space=c.ns, verbose=case["verbose"], vlevel=VL[case["vl"]], safe=case["safe"])
    srv = StringTensorServer(length=n, **kw); cli = [StringTensorClient(**kw) for _ in range(2)]
    P = [srv] + cli; up = [False] * 3; closed = [False] * 3
    c.closers += [x.close for x in P]
    model = [""] * n; writer = [None] * n; over = [False] * n

    def fit(t):
        return len(t.encode()) <= 1024
    check(srv.write_str("x", 0) is False and not srv.isRunning(), "a server which was not run accepts a write")
    srv.run(); up[0] = True
    cli[0].run(); up[1] = True
    for k, (op, who, index, arg, dflt) in enumerate(case["ops"]):
        if k == case["late"] and not up[2] and up[0]:
            cli[1].run(); up[2] = True
        x = P[who]; name = "%s of participant %d at %d of %d" % (op, who, index, n)
        if closed[who] and op != "info":
            # a closed object refuses
            if op == "write_str":
                check(x.write_str("z", 0) is False, "%s: a closed object accepts it", name)
            elif op == "read_str":
                check(x.read_str(0)[1] is False, "%s: a closed object accepts it", name)
            continue
        if not up[who]:
            if op == "write_str":
                check(x.write_str("z", 0) is False, "%s: accepted before run", name)
            elif op == "read_vec":
                l = ["keep"] * n; check(x.read_vec(l, 0) is False and l == ["keep"] * n, "%s: accepted before run", name)
            continue
        if op == "write_vec":
            l = [text_of(t) for t in arg]; given = list(l)
            r = x.write_vec(l) if dflt and index == 0 else x.write_vec(l, index=index) if dflt else x.write_vec(l, index)
            ok = index >= 0 and index + len(l) <= n and all(fit(t) for t in l)
            if l:
                check(r is ok, "%s of %d texts of %s bytes returned %s", name, len(l), [len(t.encode()) for t in l], r)
            check(l == given, "%s changed the given list", name)
            if r:
                for i, t in enumerate(l):
                    over[index + i] = len(model[index + i]) > len(t); model[index + i] = t; writer[index + i] = who
        elif op == "write_str":
            t = text_of(arg)
            r = x.write_str(t) if dflt and index == 0 else x.write_str(index=index, to_write=t) if dflt else x.write_str(t, index)
            ok = 0 <= index < n and fit(t)
            check(r is ok, "%s of %d bytes returned %s", name, len(t.encode()), r)
            if r:
                over[index] = len(model[index]) > len(t); model[index] = t; writer[index] = who
        elif op == "read_vec":
            l = ["" if dflt != bool((k + i) % 2) else "old%d" % i for i in range(arg)]; given = list(l)
            r = x.read_vec(l) if dflt and index == 0 else x.read_vec(index=index, str_list=l) if dflt else x.read_vec(l, index)
            ok = index >= 0 and index + arg <= n
            if arg:
                check(r is ok, "%s of %d texts returned %s", name, arg, r)
            check(l == (model[index:index + arg] if r else given), "%s (%s): the list is %r instead of %r", name, r, l, model[index:index + arg] if r else given)
        elif op == "read_str":
            s, r = x.read_str() if dflt and index == 0 else x.read_str(index=index) if dflt else x.read_str(index)
            check(r is (0 <= index < n), "%s returned %s", name, r)
            if r:
                check(s == model[index], "%s: %r instead of %r", name, s, model[index])
                if writer[index] not in (None, who) and (over[index] or not s.isascii()):
                    c.nontrivial()
        elif op == "info":
            check(x.getBasename() == "s" and x.getNamespace() == c.ns, "%s: names %r %r", name, x.getNamespace(), x.getBasename())
            check(x.isRunning() == up[who], "%s: isRunning is %s", name, x.isRunning())
            if up[who] and not closed[who]:
                check(x.length() == n, "%s: length %d", name, x.length())
        elif op == "raw":
            b = x.get_raw_buffer(); check(b.shape[1] == n and b.dtype == np.int32, "%s: shape %s of %s", name, b.shape, b.dtype)
            m = x.get_shared_mem(); check(m.getNCols() == n and m.isRunning() and m.getBasename() == "s", "%s: the shared memory object has %d columns", name, m.getNCols())
        elif op == "close" and who > 0 and dflt:
            x.close(); closed[who] = True; up[who] = False
        # every participant sees the same
        if op in ("write_vec", "write_str", "fullread", "close"):
            for q in range(3):
                if up[q] and not closed[q]:
                    l = [""] * n; check(P[q].read_vec(l, 0) is True, "after %s: participant %d cannot read everything", name, q)
                    check(l == model, "after %s: participant %d reads %r instead of %r", name, q, l, model)
                    if any(w not in (None, q) and (o or not t.isascii()) for w, o, t in zip(writer, over, l)):
                        c.nontrivial()


@st.composite
def lives(draw):
    steps = st.lists(st.tuples(st.sampled_from(["drop server", "drop client", "drop handle", "drop client's handle", "drop buffer", "write", "read", "rival", "collect"]), st.integers(0, 5), st.text(ALPHA, max_size=4)), min_size=2, max_size=12)
    return dict(n=draw(st.integers(1, 6)), safe=draw(st.booleans()), steps=draw(steps))


@sub("the objects handed out by string tensors (the tensors of get_shared_mem, the arrays of get_raw_buffer) outlive the Python references to the string tensors in every order: as long as one is held, the tensor is served, refuses rivals and is readable; when the last is gone, the name is free again; non-trivial: a handle was used after its string tensor was dropped", lives(), 4000, 200000, share=0.2)
def lifetimes(c, case):
    import gc
    n = case["n"]; kw = dict(basename="s", name_space=c.ns, verbose=False, vlevel=VL[0], safe=case["safe"]); model = [""] * n
    o = {}; c.closers.append(o.clear)
    o["server"] = StringTensorServer(length=n, **kw); o["server"].run()
    o["client"] = StringTensorClient(**kw); o["client"].run()
    o["handle"] = o["server"].get_shared_mem(); o["client's handle"] = o["client"].get_shared_mem(); o["buffer"] = o["server"].get_raw_buffer()
    first = o["buffer"].copy()

    def watch(what):
        if "server" in o or "handle" in o:
            h = o["handle"] if "handle" in o else o["server"].get_shared_mem()
            check(h.isRunning() and h.getNCols() == n and h.getBasename() == "s", "after %s: the server's tensor is not running any more", what)
            k = h.getNClients(); check(k == ("client" in o or "client's handle" in o), "after %s: the server counts %d clients", what, k)
        if "client's handle" in o and ("server" in o or "handle" in o):
            h = o["client's handle"]; m = np.full((h.getNRows(), n), -1, dtype=np.int32)
            check(h.isRunning() and h.read(m, 0, 0), "after %s: the client's tensor cannot be read", what)
            check([bytes(m[:, j].astype(np.int32).tobytes()).rstrip(b"\0").decode() for j in range(n)] == model, "after %s: the client's tensor holds other texts than %r", what, model)
        if "buffer" in o:
            check(np.array_equal(o["buffer"], first), "after %s: an array of get_raw_buffer has changed", what)
    for what, i, t in case["steps"]:
        if what.startswith("drop"):
            o.pop(what[5:], None)
        elif what == "write" and i < n and (o.get("server") or o.get("client")):
            x = o.get("server") if i & 1 and "server" in o else o.get("client") or o.get("server")
            if x is o.get("client") and not ("server" in o or "handle" in o):
                x = None; continue
            check(x.write_str(t, i) is True, "a text is refused"); model[i] = t; x = None
        elif what == "read" and "client" in o and ("server" in o or "handle" in o):
            l = [""] * n; check(o["client"].read_vec(l) is True and l == model, "the client reads %r instead of %r", l, model)
        elif what == "rival" and ("server" in o or "handle" in o):
            try:
                r = StringTensorServer(length=n + 1, **kw); r.run(); won = True
            except Exception:
                won = False
            r = None; check(not won, "a rival takes the name of a tensor which is still held")
        elif what == "collect":
            gc.collect(0)
        if "server" not in o and "handle" in o or "client" not in o and "client's handle" in o:
            c.nontrivial()
        watch("'%s'" % what)
    for k in list(o):
        if k not in ("server", "handle"):
            o.pop(k)
    watch("dropping the clients")
    o.clear()
    s = StringTensorServer(length=n + 1, **kw); o["server"] = s; s.run(); l = ["x"] * (n + 1)
    check(s.read_vec(l) and l == [""] * (n + 1), "after all references were dropped, a new tensor of the name holds %r", l)
