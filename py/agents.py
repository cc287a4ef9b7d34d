"""Real processes, in C++ (cpp/agent.cpp) and Python, which carry out commands on EigenIPC objects of their own."""
import ctypes, os, select, signal, subprocess, sys, time
import numpy as np
from EigenIPC import PyEigenIPC as E      # (imported once; forked agents make the objects)

LANGS = ["cpp", "py"]
LIMIT = 20.0            # seconds after which a call that must return counts as hanging
_fds = set()            # of the driver: closed in forked agents


def hx(b):
    return "=" + bytes(b).hex()


def unhx(s):
    return bytes.fromhex(s[1:])


def longtext(v):
    return ("%d," % v) * (1 + v % 97)


class Agent:
    """one process; at most one command is pending"""

    def __init__(self, c, lang):
        self.lang = lang; self.buf = b""; self.pending = None; self.alive = True
        ir, iw = os.pipe(); rr, rw = os.pipe()
        null = os.open("/dev/null", os.O_WRONLY)
        if lang == "cpp":
            # descriptor 3 of the agent is its reply pipe
            self.pid = os.posix_spawn(os.environ["VERIF_PKG"] + "/agent", ["agent"], os.environ,
                                      file_actions=[(os.POSIX_SPAWN_DUP2, rw, 200), (os.POSIX_SPAWN_DUP2, ir, 0), (os.POSIX_SPAWN_DUP2, null, 1), (os.POSIX_SPAWN_DUP2, null, 2), (os.POSIX_SPAWN_DUP2, 200, 3), (os.POSIX_SPAWN_CLOSE, 200)])
        else:
            self.pid = os.fork()
            if self.pid == 0:
                try:
                    for f in list(_fds) + [iw, rr]:
                        os.close(f)
                    os.dup2(null, 1); os.dup2(null, 2)
                    serve(ir, rw)
                finally:
                    os._exit(7)
        for f in (ir, rw, null):
            os.close(f)
        self.i, self.o = iw, rr
        _fds.update((iw, rr))
        c.closers.append(self.kill)

    def send(self, *words):
        assert self.pending is None, "driver: %s is still pending" % self.pending
        self.pending = " ".join(str(int(w)) if isinstance(w, (bool, np.bool_)) else str(w) for w in words)
        try:
            os.write(self.i, self.pending.encode() + b"\n") if len(self.pending) < 4000 else self._write(self.pending.encode() + b"\n")
        except BrokenPipeError:
            raise AssertionError("the %s process is gone before '%s'" % (self.lang, self.pending[:200]))

    def _write(self, b):
        while b:
            b = b[os.write(self.i, b):]

    def poll(self, seconds=0.0):
        """whether the pending command has returned"""
        end = time.monotonic() + seconds
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if not select.select([self.o], [], [], max(left, 0))[0]:
                return False
            d = os.read(self.o, 1 << 16)
            if not d:
                self.alive = False
                _, s = os.waitpid(self.pid, 0); self.pid = None
                raise AssertionError("the %s process ends (status %d) during '%s'" % (self.lang, s, self.pending and self.pending[:200]))
            self.buf += d
        return True

    def recv(self, limit=LIMIT):
        """(status, seconds, words)"""
        if not self.poll(limit):
            raise AssertionError("'%s' of a %s process does not return within %g s" % (self.pending[:200], self.lang, limit))
        l, self.buf = self.buf.split(b"\n", 1)
        w = l.decode().split(); self.last, self.pending = self.pending, None
        return w[0], int(w[1]) / 1e6, w[2:]

    def call(self, *words, limit=LIMIT):
        """must succeed; returns the result words"""
        self.send(*words)
        return self.result(limit)

    def result(self, limit=LIMIT):
        s, _, w = self.recv(limit)
        if s != "r":
            raise AssertionError("'%s' of a %s process raises: %s" % (self.last[:200], self.lang, unhx(w[0]).decode(errors="replace")[:300]))
        return w

    def raises(self, *words, limit=LIMIT):
        self.send(*words)
        s, _, w = self.recv(limit)
        return s == "x"

    def kill(self):
        if self.pid is not None:
            os.kill(self.pid, signal.SIGKILL); os.waitpid(self.pid, 0); self.pid = None
        self._shut()

    def quit(self):
        self.call("quit")
        _, s = os.waitpid(self.pid, 0); self.pid = None; self._shut()
        if s:
            raise AssertionError("a %s process ends with status %d" % (self.lang, s))

    def _shut(self):
        self.alive = False
        for f in (self.i, self.o):
            if f in _fds:
                _fds.discard(f); os.close(f)


def serve(i, o):
    """a Python agent's life"""
    ctypes.CDLL(None).prctl(1, 9)
    signal.alarm(0)
    DT = [(E.dtype.Bool, np.bool_), (E.dtype.Int, np.int32), (E.dtype.Float, np.float32), (E.dtype.Double, np.float64)]
    LAY = [(E.RowMajor, "C"), (E.ColMajor, "F")]
    VL = [E.VLevel.V0, E.VLevel.V1, E.VLevel.V2, E.VLevel.V3]
    objs, meta = {}, {}

    def make(a):
        k, b, n = a[:3]; a = [int(x) for x in a[3:]]
        if k == "srv":
            dt, lay, r, c, v, l, f, s = a
            return E.ServerFactory(n_rows=r, n_cols=c, basename=b, namespace=n, verbose=bool(v), vlevel=VL[l], safe=bool(s), force_reconnection=bool(f), dtype=DT[dt][0], layout=LAY[lay][0]), (dt, lay)
        if k == "cli":
            dt, lay, v, l, s = a
            return E.ClientFactory(basename=b, namespace=n, verbose=bool(v), vlevel=VL[l], safe=bool(s), dtype=DT[dt][0], layout=LAY[lay][0]), (dt, lay)
        if k == "ssrv":
            n_, v, l, f, s = a
            return E.StringTensorServer(length=n_, basename=b, name_space=n, verbose=bool(v), vlevel=VL[l], force_reconnection=bool(f), safe=bool(s)), None
        if k == "scli":
            v, l, s = a
            return E.StringTensorClient(basename=b, name_space=n, verbose=bool(v), vlevel=VL[l], safe=bool(s)), None
        if k == "prod":
            v, l, f = a
            return E.Producer(b, n, bool(v), VL[l], bool(f)), None
        v, l = a
        return E.Consumer(b, n, bool(v), VL[l]), None

    def B(x):
        if not isinstance(x, bool):
            raise TypeError("agent: returned %r instead of a truth value" % (x,))
        return str(int(x))

    def block(h, a):
        dt, lay = meta[h]
        row, col, n, m = [int(x) for x in a[:4]]
        return DT[dt][1], LAY[lay][1], row, col, n, m

    def do(c, h, a):
        if c == "new":
            objs.pop(h, None)
            objs[h], meta[h] = make(a)
            return ""
        if c == "del":
            objs.pop(h, None); return ""
        x = objs[h]
        if c in ("run", "stop", "close", "attach", "detach", "trigger"):
            getattr(x, c)(); return ""
        if c == "w":
            t, order, row, col, n, m = block(h, a)
            d = np.array(np.frombuffer(unhx(a[4]), dtype=t).reshape(n, m), order=order)
            return B(x.write(d, row, col))
        if c == "r":
            t, order, row, col, n, m = block(h, a)
            d = np.array(np.frombuffer(b"\1" * (n * m * np.dtype(t).itemsize), dtype=t).reshape(n, m), order=order)
            ok = x.read(d, row, col)
            return B(ok) + " " + hx(np.ascontiguousarray(d).tobytes())
        if c in ("sw", "sr") and meta[h] is None:
            n = x.length(); okn = torn = 0
            for i in range(int(a[0])):
                if c == "sw":
                    okn += x.write_vec([longtext(int(a[1]) + i)] * n, 0)
                else:
                    l = [""] * n
                    if x.read_vec(l, 0):
                        okn += 1; torn += len(set(l)) > 1 or (l[0] != "" and l[0] != longtext(int(l[0].split(",")[0] or 0)))
            return "%d" % okn if c == "sw" else "%d %d" % (okn, torn)
        if c == "sw":
            t, order = DT[meta[h][0]][1], LAY[meta[h][1]][1]; okn = 0
            d = np.zeros((x.getNRows(), x.getNCols()), dtype=t, order=order)
            for i in range(int(a[0])):
                d[:, :] = (int(a[1]) + i) & (1 if t == np.bool_ else 0xffffff); okn += x.write(d, 0, 0)
            return "%d" % okn
        if c == "sr":
            t, order = DT[meta[h][0]][1], LAY[meta[h][1]][1]; okn = torn = 0
            d = np.zeros((x.getNRows(), x.getNCols()), dtype=t, order=order)
            for i in range(int(a[0])):
                d[:, :] = 0
                if x.read(d, 0, 0):
                    okn += 1; torn += bool((d != d[0, 0]).any())
            return "%d %d" % (okn, torn)
        if c == "inc":
            t, order = DT[meta[h][0]][1], LAY[meta[h][1]][1]; bad = 0
            d = np.zeros((x.getNRows(), x.getNCols()), dtype=t, order=order)
            for i in range(int(a[0])):
                x.dataSemAcquire()
                bad += not x.read(d, 0, 0) or bool((d != d[0, 0]).any()); d[:, :] = d[0, 0] + 1; bad += not x.write(d, 0, 0)
                x.dataSemRelease()
            return "%d" % bad
        if c == "loop":
            if isinstance(x, E.Producer):
                okn = 0
                for i in range(int(a[0])):
                    x.trigger(); okn += x.wait_ack_from(int(a[1]), int(a[2]))
                return "%d" % okn
            return "%d" % sum(x.wait(int(a[1])) and x.ack() for i in range(int(a[0])))
        if c == "dims":
            return "%d %d" % (x.getNRows(), x.getNCols())
        if c == "nc":
            return "%d" % x.getNClients()
        if c == "up":
            return B(x.isRunning())
        if c == "len":
            return "%d" % x.length()
        if c == "hold":
            x.dataSemAcquire(); return ""
        if c == "free":
            x.dataSemRelease(); return ""
        if c == "ws":
            return B(x.write_str(unhx(a[1]).decode(), int(a[0])))
        if c == "rs":
            s, ok = x.read_str(int(a[0])); return B(ok) + " " + hx(s.encode())
        if c == "wv":
            return B(x.write_vec([unhx(t).decode() for t in a[2:]], int(a[0])))
        if c == "rv":
            l = ["old"] * int(a[1]); ok = x.read_vec(l, int(a[0]))
            return " ".join([B(ok)] + [hx(s.encode()) for s in l])
        if c == "wack":
            return B(x.wait_ack_from(int(a[0]), int(a[1])) if int(a[1]) != -1 else x.wait_ack_from(int(a[0])))
        if c == "wait":
            return B(x.wait(int(a[0])) if int(a[0]) != -1 else x.wait())
        if c == "ack":
            return B(x.ack())
        raise RuntimeError("agent: unknown command")
    with os.fdopen(i, "rb") as f:
        for line in f:
            a = line.decode().split()
            if a[0] == "quit":
                objs.clear()
                os.write(o, b"r 0\n")
                os._exit(0)
            t0 = time.monotonic()
            try:
                s, r = "r", do(a[0], a[1], a[2:])
            except Exception as e:
                s, r = "x", hx(str(e).encode() or b"?")
            b = ("%s %d %s\n" % (s, (time.monotonic() - t0) * 1e6, r)).encode()
            while b:
                b = b[os.write(o, b):]
    os._exit(0)
