"""C28: the ROS bridge relays tensors element for element (over a simulated message transport)."""
import collections, sys, threading, time, types
from pbtlib import *
from EigenIPC.PyEigenIPC import dtype as DT, VLevel, ClientFactory, ServerFactory, StringTensorServer, StringTensorClient, RowMajor, ColMajor

DTS = [(DT.Bool, np.bool_), (DT.Int, np.int32), (DT.Float, np.float32), (DT.Double, np.float64)]
VL = [VLevel.V0, VLevel.V1, VLevel.V2, VLevel.V3]


# ---- the transport: topics carry serialised messages; the last ones published stay available to late subscribers ----
class Topic:
    def __init__(self):
        self.sent = []; self.subs = []; self.depth = 1; self.kind = None


class Broker:
    def __init__(self):
        self.topics = collections.defaultdict(Topic)

    def advertise(self, name, kind, depth):
        t = self.topics[name]; t.depth = max(1, depth); t.kind = kind
        return t

    def publish(self, t, msg):
        assert type(msg) is t.kind, "published a %s on a topic of %s" % (type(msg).__name__, t.kind.__name__)
        d = msg.serialise(); t.sent.append(d)
        for s in t.subs:
            s.push(d)

    def subscribe(self, name, kind, cb, depth, latched):
        s = Subscription(self.topics[name], kind, cb, max(1, depth))
        for d in s.topic.sent[-latched(s.topic):]:
            s.push(d)
        s.topic.subs.append(s)
        return s


class Subscription:
    def __init__(self, topic, kind, cb, depth):
        self.topic, self.kind, self.cb, self.queue = topic, kind, cb, collections.deque(maxlen=depth); self.last = None

    def push(self, d):
        self.queue.append(d)

    def deliver(self):
        if not self.queue:
            return False
        d = self.queue.popleft()
        self.cb(self.kind(data=d)); self.last = d
        return True

    def unregister(self):
        if self in self.topic.subs:
            self.topic.subs.remove(self)
    destroy = unregister


BROKER = [Broker()]


def message(name, nd, array):
    class M:
        def __init__(self, data=None):
            self.data = data if data is not None else ([] if array else nd(0).item())

        def serialise(self):
            if array:
                a = np.array(self.data)
                assert a.ndim == 1, "the data of an array message is not one-dimensional"
                assert a.size == 0 or nd in (np.float32, np.float64) or a.dtype.kind in "biu", "%s carries %s" % (name, a.dtype)
                return tuple(a.astype(nd).tolist())
            return nd(self.data).item()
    M.__name__ = name
    return M


class Publisher:
    def __init__(self, name, kind, depth):
        self.topic = BROKER[0].advertise(name, kind, depth)

    def publish(self, msg):
        BROKER[0].publish(self.topic, msg)

    def unregister(self):
        pass
    destroy = unregister


class Node:
    def create_publisher(self, msg_type, topic, qos_profile, **kw):
        return Publisher(topic, msg_type, qos_profile.depth)

    def create_subscription(self, msg_type, topic, callback, qos_profile, **kw):
        return BROKER[0].subscribe(topic, msg_type, callback, qos_profile.depth, lambda t: t.depth)

    def destroy_publisher(self, p):
        pass

    def destroy_subscription(self, s):
        s.unregister()


class QoSProfile:
    def __init__(self, depth=1, **kw):
        self.depth = depth


def module(name, **kw):
    m = types.ModuleType(name); m.__dict__.update(kw); sys.modules[name] = m
    return m


_msgs = module("std_msgs.msg", **{n: message(n, nd, n.endswith("Array")) for n, nd in (("Bool", np.bool_), ("Int32", np.int32), ("Float32", np.float32), ("Float64", np.float64), ("Int32MultiArray", np.int32), ("Float32MultiArray", np.float32), ("Float64MultiArray", np.float64))})
module("std_msgs", msg=_msgs)
_ps = module("perf_sleep.pyperfsleep", PerfSleep=type("PerfSleep", (), {"thread_sleep": staticmethod(lambda ns: time.sleep(ns * 1e-9))}))
module("perf_sleep", pyperfsleep=_ps)
module("rospy", Publisher=lambda name, data_class, queue_size=1, latch=False, **kw: Publisher(name, data_class, 1 if latch else 0),
       Subscriber=lambda name, data_class, callback, queue_size=1, **kw: BROKER[0].subscribe(name, data_class, callback, queue_size or 1000, lambda t: 1))
_node = module("rclpy.node", Node=Node)
_qos = module("rclpy.qos", QoSProfile=QoSProfile, **{n: type(n, (), dict.fromkeys(v, 1)) for n, v in (("ReliabilityPolicy", ["RELIABLE", "BEST_EFFORT"]), ("DurabilityPolicy", ["TRANSIENT_LOCAL", "VOLATILE"]), ("HistoryPolicy", ["KEEP_LAST", "KEEP_ALL"]), ("LivelinessPolicy", ["AUTOMATIC"]))})
module("rclpy", node=_node, qos=_qos)

from EigenIPC.PyEigenIPCExt.extensions.ros_bridge.to_ros import ToRos
from EigenIPC.PyEigenIPCExt.extensions.ros_bridge.from_ros import FromRos


def same(a, b):
    """equal elements, signs of zeros included; a NaN's payload does not survive a message"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind != "f":
        return bool((a == b).all())
    return bool((((a == b) & (np.signbit(a) == np.signbit(b))) | (np.isnan(a) & np.isnan(b))).all())


def server_of(fr, base, ns):
    for v in list(vars(fr).values()):
        if "Server" in type(v).__name__ and hasattr(v, "getBasename"):
            return v.getBasename(), v.getNamespace()
    return base + "AAAAAA", ns


class Tensor:
    """one relayed tensor: the origin, the two ends of the bridge and the mirrored tensor"""
    def __init__(self, c, base, cfg, node, backend):
        self.c, self.base, self.cfg, self.backend = c, base, cfg, backend
        self.dt, self.nd = DTS[cfg["dt"]]; self.R, self.C = cfg["R"], cfg["C"]; lay = [RowMajor, ColMajor][cfg["col"]]; self.order = "CF"[cfg["col"]]
        self.srv = ServerFactory(n_rows=self.R, n_cols=self.C, basename=base, namespace=c.ns, verbose=False, vlevel=VL[0], force_reconnection=False, dtype=self.dt, layout=lay, safe=cfg["safe"]); c.closers.append(self.srv.close)
        self.srv.run()
        self.cli = ClientFactory(basename=base, namespace=c.ns, verbose=False, vlevel=VL[0], dtype=self.dt, layout=lay, safe=cfg["safe"]); c.closers.append(self.cli.close)
        self.peek = ClientFactory(basename=base, namespace=c.ns, dtype=self.dt, layout=lay, safe=False); self.peek.attach(); c.closers.append(self.peek.close)
        if cfg["attached"]:
            self.cli.attach()
        self.model = np.zeros((self.R, self.C), self.nd)
        kw = dict(queue_size=cfg["queue"], ros_backend=backend, node=node)
        self.to = ToRos(client=self.cli, **kw); self.fr = None; self.kw = kw; self.running = False; self.mirror = None; self.stored = None; self.updates = 0

    def topic(self, last):
        return BROKER[0].topics["%s/%s/%s" % (self.c.ns, self.base, last)]

    def arr(self, a):
        return np.asarray(a, order=self.order)

    def write(self, r, k, d):
        check(self.srv.write(self.arr(d), r, k), "the origin server could not write")
        self.model[r:r + d.shape[0], k:k + d.shape[1]] = d

    def start_to(self):
        self.to.run()
        check(self.cli.isRunning(), "the bridge's client is not attached after run")
        self.running = True
        for last, v in (("NRows", self.R), ("NCols", self.C)):
            check(self.topic(last).sent and self.topic(last).sent[-1] == v, "%s of %s: published %s instead of %d", last, self.base, self.topic(last).sent, v)

    def start_from(self):
        self.fr = FromRos(basename=self.base, namespace=self.c.ns, vlevel=VL[0], verbose=False, force_reconnection=True, **self.kw)

    def data_sub(self):
        subs = self.topic("Data").subs
        return subs[0] if subs else None

    def run_from(self, must):
        ok = self.fr.run()
        check(ok or not must, "the receiving side of %s does not start although its metadata was delivered", self.base)
        if ok and self.mirror is None:
            b, n = server_of(self.fr, self.base, self.c.ns)
            self.mirror = ClientFactory(basename=b, namespace=n, dtype=self.dt, layout=RowMajor, safe=False)
            self.mirror.attach(); self.c.closers.append(self.mirror.close); self.c.closers.append(self.fr.close)
            check((self.mirror.getNRows(), self.mirror.getNCols()) == (self.R, self.C), "the mirrored tensor is %dx%d", self.mirror.getNRows(), self.mirror.getNCols())
        return ok

    def update_to(self, locked, d):
        n = len(self.topic("Data").sent); t = None
        if locked and self.cfg["safe"]:
            self.srv.dataSemAcquire()
            h = self.R // 2 + 1
            self.peek.write(self.arr(d[:h]), 0, 0)

            def rest():
                time.sleep(0.002)
                if h < self.R:
                    self.peek.write(self.arr(d[h:]), h, 0)
                self.srv.dataSemRelease()
            t = threading.Thread(target=rest); self.model[:, :] = d; t.start()
        res = self.to.update()
        if t:
            t.join()
        self.updates += 1
        check(res, "%s: update of the sending side returned %s", self.base, res)
        new = self.topic("Data").sent[n:]
        check(len(new) == 1, "%s: an update published %d data messages", self.base, len(new))
        check(same(np.array(new[0], dtype=self.nd).reshape(-1), self.model.reshape(-1)), "%s (%s, %s): published\n%s\nwhile the tensor holds\n%s", self.base, self.nd.__name__, self.order, new[0], self.model)

    def update_from(self, locked):
        if not self.mirror:
            check(self.fr.update() is False, "the receiving side updates although it does not run")
            return
        t = None
        if locked:
            b, n = server_of(self.fr, self.base, self.c.ns)
            h = ClientFactory(basename=b, namespace=n, dtype=self.dt, layout=RowMajor, safe=True); h.attach(); h.dataSemAcquire()

            def rel():
                time.sleep(0.002); h.dataSemRelease()
            t = threading.Thread(target=rel); t.start()
        res = self.fr.update()
        if t:
            t.join(); h.close()
        check(res, "%s: update of the receiving side returned %s", self.base, res)
        s = self.data_sub()
        self.stored = s.last if s and s.last is not None else "fill"

    def inspect(self, what):
        o = np.empty((self.R, self.C), self.nd, order=self.order)
        check(self.peek.read(o, 0, 0) and bits(o) == bits(self.model), "%s: the origin %s holds\n%s\ninstead of\n%s", what, self.base, o, self.model)
        if not self.mirror:
            return
        m = np.empty((self.R, self.C), self.nd); check(self.mirror.read(m, 0, 0), "%s: the mirrored tensor cannot be read", what)
        if self.stored is None or self.stored == "fill":
            fill = not m.any() or self.nd in (np.float32, np.float64) and np.isnan(m).all()
            check(fill, "%s: nothing was delivered but the mirrored %s holds\n%s", what, self.base, m)
        else:
            w = np.array(self.stored).reshape(self.R, self.C).astype(self.nd)
            check(same(m, w), "%s: the mirrored %s holds\n%s\ninstead of the message delivered last\n%s", what, self.base, m, w)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 2)); ts = []
    for _ in range(n):
        ts.append(dict(dt=draw(st.integers(0, 3)), R=draw(st.integers(1, 7)), C=draw(st.integers(1, 7)), col=draw(st.booleans()), safe=draw(st.integers(0, 3)) > 0, attached=draw(st.booleans()), queue=draw(st.integers(1, 4)), first=draw(st.booleans())))
    op = st.tuples(st.sampled_from(["write", "write", "to", "to", "to_locked", "deliver", "deliver", "from", "from", "from_locked", "run_from"]), st.integers(0, n - 1), st.integers(0, 2**32))
    return dict(backend=draw(st.sampled_from(["ros1", "ros2"])), tensors=ts, ops=draw(st.lists(op, min_size=4, max_size=20)))


@sub("one or two tensors of every dtype, layout and shape are relayed over a simulated transport with queues and latched topics: writes, updates of both sides, deliveries, both sides starting in either order, locks held (and the tensor half written) while a side updates; every published message and the mirrored tensor after every step are compared with the model; non-trivial: two messages that differ were relayed, or one got lost in a queue", cases(), 9000, 400000)
def relays(c, case):
    BROKER[0] = Broker(); node = Node() if case["backend"] == "ros2" else None
    T = [Tensor(c, "t%d" % i, cfg, node, case["backend"]) for i, cfg in enumerate(case["tensors"])]
    for t in T:
        if t.cfg["first"]:
            t.start_from()
            check(t.fr.run() is False, "the receiving side starts without metadata")
    for t in T:
        t.start_to()
        if not t.cfg["first"]:
            t.start_from()
    meta_done = set()

    def meta(t):
        for last in ("NRows", "NCols", "DType"):
            check(t.topic(last).subs, "nobody listens to the %s of %s", last, t.base)
            for s in t.topic(last).subs:
                while s.deliver():
                    pass
        meta_done.add(t)
    distinct = set(); lost = False
    for op, i, arg in case["ops"]:
        t = T[i]; rng = np.random.default_rng(arg)
        if op == "write":
            r, k = rng.integers(0, t.R), rng.integers(0, t.C)
            t.write(int(r), int(k), raw_values(rng, (rng.integers(1, t.R - r + 1), rng.integers(1, t.C - k + 1)), t.nd))
        elif op in ("to", "to_locked"):
            t.update_to(op == "to_locked", raw_values(rng, (t.R, t.C), t.nd))
            s = t.data_sub(); lost |= s is not None and len(s.queue) == s.queue.maxlen
        elif op == "run_from":
            meta(t); t.run_from(True)
        elif op == "deliver":
            s = t.data_sub()
            for _ in range(1 + arg % 3):
                if s and s.deliver():
                    distinct.add((i, repr(s.last)))
        elif op in ("from", "from_locked"):
            t.update_from(op == "from_locked")
        for x in T:
            x.inspect(op)
    for t in T:                                     # finally everything arrives
        if t.mirror is None:
            meta(t); t.run_from(True)
        t.update_to(False, None)
        s = t.data_sub(); check(s is not None, "nobody listens to the data of %s", t.base)
        while s.deliver():
            distinct.add((T.index(t), repr(s.last)))
        t.update_from(False)
        m = np.empty((t.R, t.C), t.nd); check(t.mirror.read(m, 0, 0), "the mirrored tensor cannot be read")
        check(same(m, t.model), "finally the mirrored %s holds\n%s\ninstead of\n%s", t.base, m, t.model)
        t.inspect("end")
    if len(distinct) > len(T) or lost:
        c.nontrivial()


WORD = st.text(alphabet=st.one_of(st.characters(codec="utf-8", exclude_characters="\x00"), st.sampled_from("ab ;é日😀")), max_size=12)


def fill(w, n):
    """w repeated to at most n bytes"""
    r, k = [], 0
    while True:
        for ch in w:
            k += len(ch.encode())
            if k > n:
                return "".join(r)
            r.append(ch)


LONG = st.builds(fill, WORD.filter(lambda w: len(w) > 0), st.one_of(st.integers(13, 1024), st.integers(1000, 1024), st.just(1024)))   # 1024 bytes is the limit


@st.composite
def words(draw):
    n = draw(st.integers(1, 6))
    return dict(backend=draw(st.sampled_from(["ros1", "ros2"])), n=n, queue=draw(st.integers(1, 3)), rounds=draw(st.lists(st.lists(st.one_of(WORD, WORD, st.none(), st.none(), LONG), min_size=n, max_size=n), min_size=1, max_size=4)))


@sub("string tensors are relayed: a server writes texts (any Unicode, up to the longest possible), the bridge publishes and mirrors them, a client of the mirrored tensor reads them back; non-trivial: a text changed between two relays", words(), 4000, 200000, share=0.4)
def strings(c, case):
    BROKER[0] = Broker(); node = Node() if case["backend"] == "ros2" else None; n = case["n"]
    srv = StringTensorServer(length=n, basename="s", name_space=c.ns, verbose=False, vlevel=VL[0], force_reconnection=False, safe=True); srv.run(); c.closers.append(srv.close)
    cli = StringTensorClient(basename="s", name_space=c.ns, verbose=False, vlevel=VL[0], safe=True); c.closers.append(cli.close)
    kw = dict(queue_size=case["queue"], ros_backend=case["backend"], node=node)
    to = ToRos(client=cli, **kw); to.run(); fr = FromRos(basename="s", namespace=c.ns, vlevel=VL[0], verbose=False, **kw)
    for last in ("NRows", "NCols", "DType"):
        for s in BROKER[0].topics["%s/s/%s" % (c.ns, last)].subs:
            while s.deliver():
                pass
    check(fr.run(), "the receiving side does not start"); c.closers.append(fr.close)
    b, ns = server_of(fr, "s", c.ns)
    far = StringTensorClient(basename=b, name_space=ns, verbose=False, vlevel=VL[0], safe=True); far.run(); c.closers.append(far.close)
    model = [""] * n; changed = 0
    for rnd in case["rounds"]:
        for i, w in enumerate(rnd):
            if w is not None:
                if model[i] != w and model[i]:
                    changed += 1
                check(srv.write_str(w, i) if hasattr(srv, "write_str") else srv.write_vec([w], i), "a text was refused"); model[i] = w
        check(to.update(), "update of the sending side failed")
        subs = BROKER[0].topics["%s/s/Data" % c.ns].subs; check(subs, "nobody listens to the data")
        while subs[0].deliver():
            pass
        check(fr.update(), "update of the receiving side failed")
        got = [""] * n; check(far.read_vec(got, 0), "the mirrored string tensor cannot be read")
        check(got == model, "the mirrored string tensor holds %r instead of %r", got, model)
    if changed:
        c.nontrivial()
