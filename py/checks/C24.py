"""C24: NumPy arrays are exchanged faithfully or refused without effect."""
from pbtlib import *
from EigenIPC.PyEigenIPC import ServerFactory, ClientFactory, dtype as DT, VLevel, RowMajor, ColMajor, toNumpyDType

DTS = [(DT.Bool, np.bool_), (DT.Int, np.int32), (DT.Float, np.float32), (DT.Double, np.float64)]
OTHER = [np.bool_, np.int32, np.float32, np.float64, np.int64, np.uint32, np.uint8, np.int16, np.float16, np.complex64, ">f4", ">i4", ">f8", "O", "U3"]
LAY = [RowMajor, ColMajor]
VL = [VLevel.V0, VLevel.V1, VLevel.V2, VLevel.V3]
KINDS = ["plain"] * 14 + ["revrows", "revcols", "readonly", "field", "broadcast", "1d", "3d", "0d", "matrix", "transposed", "list"]
DIM = st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 40))


@st.composite
def arrays(draw, rows, cols):
    whole = draw(st.integers(0, 4)) == 0
    n = rows if whole else draw(st.one_of(st.integers(0, rows), st.integers(1, rows + 2)))
    m = cols if whole else draw(st.one_of(st.integers(0, cols), st.integers(1, cols + 2)))
    inside = draw(st.integers(0, 5)) > 0
    row = draw(st.integers(0, max(rows - n, 0)) if inside else st.sampled_from([-2147483648, -rows, -1, 0, 1, rows - 1, rows, rows + 1, 2147483647, 2147483646]))
    col = draw(st.integers(0, max(cols - m, 0)) if inside or draw(st.booleans()) else st.sampled_from([-2147483648, -1, 1, cols - 1, cols, 2147483647]))
    return dict(n=n, m=m, row=row, col=col, kind=draw(st.sampled_from(KINDS)), other=draw(st.sampled_from([-1] * 40 + list(range(len(OTHER))))), order=draw(st.sampled_from([0, 0, 0, 1])),
                pad=[draw(st.integers(0, 3)) for _ in range(4)], step=[draw(st.sampled_from([1, 1, 1, 2, 3])) for _ in range(2)], seed=draw(st.integers(0, 2**32)), defaults=draw(st.booleans()))


@st.composite
def cases(draw):
    rows, cols = draw(DIM), draw(DIM)
    op = st.one_of(st.tuples(st.sampled_from(["write", "read", "write", "read", "write", "read"]), st.integers(0, 2), arrays(rows, cols)),
                   st.tuples(st.sampled_from(["attach", "detach", "close", "stop", "run", "hold", "release", "info"]), st.integers(0, 2), st.none()))
    return dict(dt=draw(st.integers(0, 3)), lay=draw(st.integers(0, 1)), rows=rows, cols=cols, safe=draw(st.booleans()), verbose=draw(st.booleans()), vl=draw(st.integers(0, 3)), ops=draw(st.lists(op, min_size=4, max_size=30)))


def make_array(a, dt, lay):
    """(array given to the call, its parent, regular): regular arrays that fit must be accepted"""
    rng = np.random.default_rng(a["seed"])
    n, m, k = a["n"], a["m"], a["kind"]
    (r0, r1, c0, c1), (rs, cs) = a["pad"], a["step"]
    order = "CF"[lay if a["order"] == 0 else 1 - lay]
    d = np.dtype(dt if a["other"] < 0 else OTHER[a["other"]])
    shape = (r0 + n * rs + r1, c0 + m * cs + c1)
    if k == "field":
        parent = np.zeros(shape, dtype=np.dtype([("x", d), ("y", np.uint8 if a["seed"] & 1 else d), ("z", np.uint8 if a["seed"] & 2 else d)]), order=order)
        if d.kind in "biuf" and d.isnative:
            parent["x"] = raw_values(rng, shape, d)
        v = parent["x"][r0:r0 + n * rs:rs, c0:c0 + m * cs:cs]
        # its strides may happen to be whole elements
        return v, parent, False
    if k == "broadcast":
        parent = np.asarray(raw_values(rng, (1, m) if a["seed"] & 1 else (n, 1), dt)).astype(d)
        return np.broadcast_to(parent, (n, m)), parent, False
    if k == "transposed":
        order = "FC"["CF".index(order)]
        shape = shape[::-1]
    if d.kind in "biuf" and d.isnative:
        parent = np.array(raw_values(rng, shape, d), order=order)
    else:
        parent = np.zeros(shape, dtype=d, order=order)
    base = parent.T if k == "transposed" else parent
    v = base[r0:r0 + n * rs:rs, c0:c0 + m * cs:cs]
    regular = k in ("plain", "transposed", "readonly", "matrix") and a["other"] < 0 and (a["order"] == 0 or n == 1 or m == 1) and n > 0 and m > 0  # a row or column has both layouts
    if k == "revrows":
        v = v[::-1]
    elif k == "revcols":
        v = v[:, ::-1]
    elif k == "readonly":
        v = v[:, :]; v.flags.writeable = False
    elif k == "1d":
        v = v.reshape(-1) if a["seed"] & 1 else v[:, 0] if m else v.reshape(-1)
    elif k == "3d":
        v = v[:, :, None]
    elif k == "0d":
        v = np.array(v.flat[0] if v.size else 0, dtype=d); parent = v
    elif k == "matrix":
        v = v.view(np.matrix)
    return v, parent, regular


@sub("a server and up to three clients (factories) of every dtype, layout and safety exchange blocks with arrays of every kind: owned, slices with steps, padding and reversed axes, transposed, read-only, structured fields, broadcast, other dimensionalities, dtypes and orders, at offsets inside and outside; mixed with attach, detach, close, stop, run and held locks; non-trivial: a sub-block was transferred and something was refused", cases(), 12000, 1000000)
def histories(c, case):
    dt, nd = DTS[case["dt"]]; lay = LAY[case["lay"]]; R, C, safe = case["rows"], case["cols"], case["safe"]
    kw = dict(basename="b", namespace=c.ns, verbose=case["verbose"], vlevel=VL[case["vl"]], dtype=dt, layout=lay)
    srv = ServerFactory(n_rows=R, n_cols=C, safe=safe, **kw); c.closers.append(srv.close)
    ver = ClientFactory(basename="b", namespace=c.ns, dtype=dt, layout=lay, safe=False)
    cli = [ClientFactory(safe=safe, **kw) for _ in range(2)]
    for x in cli + [ver]:
        c.closers.append(x.close)
    P = [srv] + cli; up = [False, False, False]; held = None; closed = False
    model = np.zeros((R, C), dtype=nd); full = np.zeros((R, C), dtype=nd, order="CF"[case["lay"]]); moved = refused = 0

    def inspect(what):
        check(ver.read(full, 0, 0), "%s: the tensor cannot be read afterwards", what)
        check(bits(full) == bits(model), "%s: the tensor holds\n%s\ninstead of\n%s", what, full, model)

    def free():
        nonlocal held
        if held is not None:
            P[held].dataSemRelease(); held = None
    a0 = np.zeros((R, C), dtype=nd, order="CF"[case["lay"]])
    check(srv.write(a0, 0, 0) is False and srv.read(a0, 0, 0) is False, "access before run is not refused")
    srv.run(); up[0] = True
    ver.attach()
    inspect("start")
    for op, who, a in case["ops"]:
        x = P[who]
        if op in ("read", "write"):
            if held == who:
                free()
            v, parent, regular = make_array(a, nd, case["lay"])
            if a["kind"] == "list":
                v = v.tolist()
            before = bits(parent) if parent.dtype.names is None else parent.tobytes()
            dflt = a["defaults"] and a["row"] == 0 and a["col"] == 0
            row, col = a["row"], a["col"]
            err = None
            try:
                f = getattr(x, op); how = a["seed"] >> 2 & 3; word = "data" if op == "write" else "tensor"
                if dflt:
                    r = f(v)
                elif how == 0 and col == 0:
                    r = f(v, row)
                elif how == 1:
                    r = f(v, row=row) if col == 0 else f(v, col=col) if row == 0 else f(v, col=col, row=row)
                elif how == 2:
                    r = f(**{"row": row, "col": col, word: v})
                else:
                    r = f(v, row, col)
            except Exception as e:
                err = e; r = False
            what = "%s by %s of a %s %s array at (%d,%d) of a %dx%d %s tensor" % (op, ["the server", "client 1", "client 2"][who], a["kind"], getattr(v, "dtype", "list"), row, col, R, C, nd.__name__)
            check(r is True or r is False, "%s returned %r", what, r)
            wrong = a["kind"] == "list" or (isinstance(v, np.ndarray) and v.dtype != np.dtype(nd))
            if wrong:
                check(err is not None, "%s did not raise", what)
            two = isinstance(v, np.ndarray) and v.ndim == 2
            fits = two and row >= 0 and col >= 0 and row + v.shape[0] <= R and col + v.shape[1] <= C
            # clearly the other layout (both strides positive and in the other order)
            other = two and min(v.shape) > 1 and min(v.strides) > 0 and (v.strides[0] > v.strides[1] if case["lay"] else v.strides[0] < v.strides[1])
            may = fits and not wrong and not other and up[who] and not (safe and held is not None) and not (op == "read" and not v.flags.writeable)
            if not may:
                check(not r, "%s was accepted", what)
            elif regular:
                check(r, "%s was refused%s", what, " (%s)" % err if err else "")
            if r:
                n, m = v.shape
                if op == "write":
                    model[row:row + n, col:col + m] = v
                else:
                    check(bits(v) == bits(model[row:row + n, col:col + m]), "%s: the array holds\n%s\ninstead of\n%s", what, v, model[row:row + n, col:col + m])
                    # everything around the block is as before
                    _, parent2, _ = make_array(a, nd, case["lay"])
                    mask = np.zeros(parent2.shape, bool)
                    (r0, r1, c0, c1), (rs, cs) = a["pad"], a["step"]
                    sl = mask.T if a["kind"] == "transposed" else mask
                    if parent2.dtype.names is None:
                        sl[r0:r0 + n * rs:rs, c0:c0 + m * cs:cs] = True
                        check(bits(parent[~mask]) == bits(parent2[~mask]), "%s: the parent array changed around the block", what)
                    else:
                        p2 = parent2.copy()
                        p2["x"][r0:r0 + n * rs:rs, c0:c0 + m * cs:cs] = v
                        check(p2["y"].tobytes() == parent["y"].tobytes() and p2["z"].tobytes() == parent["z"].tobytes() and bits(p2["x"]) == bits(parent["x"]), "%s: the parent array changed around the block", what)
                if 0 < n * m < R * C:
                    moved += 1
            else:
                refused += 1
            if not r or op == "write":
                check((bits(parent) if parent.dtype.names is None else parent.tobytes()) == before, "%s (%s): the array changed", what, "refused" if not r else "done")
            inspect(what)
        elif op == "hold":
            if held is None and up[who]:
                x.dataSemAcquire(); held = who
        elif op == "release":
            free()
        elif op == "info":
            check(x.getScalarType() == dt and toNumpyDType(x.getScalarType()) == np.dtype(nd), "scalar type %s instead of %s", x.getScalarType(), dt)
            check(x.getBasename() == "b" and x.getNamespace() == c.ns, "names %s %s", x.getNamespace(), x.getBasename())
            if who == 0 or up[who]:
                check((x.getNRows(), x.getNCols()) == (R, C), "dimensions %dx%d instead of %dx%d", x.getNRows(), x.getNCols(), R, C)
            check(x.isRunning() == up[who], "isRunning of participant %d is %s", who, x.isRunning())
        else:
            free()
            if who == 0:
                if op in ("stop",) and up[0]:
                    x.stop(); up[0] = False
                elif op == "run" and not up[0]:
                    x.run(); up[0] = True
            else:
                if op == "attach" and not up[who] and up[0]:
                    x.attach(); up[who] = True
                elif op in ("detach", "close") and up[who]:
                    getattr(x, op)(); up[who] = False
            check(srv.getNClients() == 1 + up[1] + up[2], "%d clients reported, %d attached", srv.getNClients(), 1 + up[1] + up[2])
            inspect(op)
    free()
    if moved and refused:
        c.nontrivial()
