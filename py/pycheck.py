"""Builds the Python package from the repository's sources and drives the Hypothesis checks of py/checks/<ID>.py.

Every sub-property runs in several worker processes (py/worker.py), so that a crash or a hang of the code under test is
attributed to the case being run; failures are confirmed in fresh processes before they are reported."""
import concurrent.futures, glob, hashlib, itertools, json, os, shutil, signal, subprocess, sys, sysconfig, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "python3-vt" if shutil.which("python3-vt") else sys.executable


def _out(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, text=True).stdout.strip()


def build(rm):
    """compiles the library and the bindings; returns the directory to put on sys.path"""
    src, bind = rm.SRC, rm.SRC + "/bindings/PyEigenIPC"
    inc = _out([PY, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"])
    suffix = _out([PY, "-c", "import sysconfig; print(sysconfig.get_config_var('EXT_SUFFIX'))"])
    flags = ["-O1", "-g1", "-std=c++17", "-DNDEBUG", "-DLIBRARY_NAME=EigenIPC", "-DIS_RELEASE=1", "-DWITH_PYTHON", "-fPIC", "-fvisibility=hidden",
             "-I/usr/include/eigen3", "-I" + src + "/include", "-I" + src + "/src", "-I" + bind, "-I" + bind + "/include", "-I" + bind + "/src", "-I" + inc]
    files = lambda d: [p for p in glob.glob(d + "/**/*", recursive=True) if os.path.isfile(p)]
    lib_headers = files(src + "/include") + glob.glob(src + "/src/*.h*")
    py_headers = files(bind + "/include") + glob.glob(bind + "/src/*.hpp") + glob.glob(bind + "/src/*.inl") + glob.glob(bind + "/*.hpp")
    units = [(p, lib_headers) for p in sorted(glob.glob(src + "/src/*.cpp"))]
    units += [(p, lib_headers + py_headers) for p in sorted(glob.glob(bind + "/src/*.cpp")) + [bind + "/PyEigenIPC.cpp"]]
    agent = VERIF + "/cpp/agent.cpp"
    units.append((agent, lib_headers))
    units.sort(key=lambda u: -os.path.getsize(u[0]))
    obj = rm.BUILD + "/obj"
    os.makedirs(obj, exist_ok=True)
    objs, todo = [], []
    for p, deps in units:
        o = "%s/py-%s-%s.o" % (obj, os.path.basename(p)[:-4], rm.digest([p] + deps, [rm.CXX] + flags))
        objs.append(o)
        if not os.path.exists(o):
            todo.append((p, o))

    def comp(t):
        tmp = t[1] + ".%d.tmp.o" % os.getpid()
        r = subprocess.run([rm.CXX] + flags + ["-c", t[0], "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            os.replace(tmp, t[1])
        return t[0], r
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as ex:
        for p, r in ex.map(comp, todo):
            if r.returncode != 0:
                print("build failed: %s\n%s" % (p, r.stdout[-6000:]))
                sys.exit(2)
    agent_objs = [o for o in objs if os.path.basename(o).startswith("py-agent-")] + [o for u, o in zip(units, objs) if u[0].startswith(src + "/src/")]
    objs = [o for o in objs if o not in agent_objs[:1]]
    pys = [p for p in files(bind) if p.endswith(".py")]
    key = hashlib.sha256("\0".join(objs + agent_objs[:1] + [rm.digest(pys, [suffix])]).encode()).hexdigest()[:16]
    root = rm.BUILD + "/py-" + key
    if not os.path.exists(root):
        tmp = root + ".%d.tmp" % os.getpid()
        pkg = tmp + "/EigenIPC"
        os.makedirs(pkg + "/PyEigenIPCExt")
        rm.sh([rm.CXX, "-shared", "-o", pkg + "/PyEigenIPC" + suffix] + objs + ["-lpthread", "-lrt"], "Python extension")
        rm.sh([rm.CXX, "-o", tmp + "/agent"] + agent_objs + ["-lpthread", "-lrt"], "C++ agent process")
        shutil.copy(bind + "/__init__.py", pkg); shutil.copy(bind + "/__init__.py", pkg + "/PyEigenIPCExt")
        for d in ("wrappers", "extensions"):
            shutil.copytree(bind + "/" + d, pkg + "/PyEigenIPCExt/" + d)
        try:
            os.rename(tmp, root)
        except OSError:
            if not os.path.exists(root):
                raise
    return root


def env_for(root):
    e = dict(os.environ)
    e["PYTHONPATH"] = root + ":" + VERIF + "/py"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["VERIF_PKG"] = root
    return e


_serial = itertools.count()


def replay_once(pid, sub, case, root, tmp, verbose=False, limit=40):
    """runs one case in a fresh process; returns None if it passes, else what failed"""
    f = tmp + "/replay-%d-%d.json" % (os.getpid(), int(time.time() * 1e6))
    json.dump({"property": pid, "sub": sub, "case": case}, open(f, "w"))
    e = env_for(root); e["VERIF_NS"] = ns = "vp%d_r%d_" % (os.getpid(), next(_serial)); e["VERIF_LIMIT"] = str(limit)
    try:
        r = subprocess.run([PY, VERIF + "/py/worker.py", pid, "--replay", f], env=e, stdout=None if verbose else subprocess.DEVNULL, stderr=None if verbose else subprocess.DEVNULL, timeout=limit + 20)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = -signal.SIGALRM
    msg = None
    if rc == -signal.SIGALRM:
        msg = "does not come to an end within %d s" % limit
    elif rc < 0:
        msg = "the interpreter dies with signal %s" % signal.Signals(-rc).name
    elif rc == 1:
        msg = open(f + ".msg").read() if os.path.exists(f + ".msg") else "failed"
    elif rc != 0:
        msg = None if rc == 3 else "BROKEN worker status %d" % rc
    for p in [f, f + ".msg"] + glob.glob("/dev/shm/*" + ns + "*"):
        if os.path.exists(p):
            os.unlink(p)
    return msg


def shrink_ops(pid, sub, case, root, tmp, budget=40):
    """for crashes and hangs, where Hypothesis cannot shrink: drops operations one by one"""
    end = time.time() + budget
    again = True
    while again and time.time() < end:
        again = False
        for k in [k for k in case if isinstance(case[k], list)]:
            i = 0
            while i < len(case[k]) and time.time() < end:
                c = dict(case); c[k] = case[k][:i] + case[k][i + 1:]
                if (replay_once(pid, sub, c, root, tmp, limit=6) or "")[:12] in ("does not com", "the interpre"):
                    case = c; again = True
                else:
                    i += 1
    return case


def run(pid, mode, seed, args, t0, rm):
    root = build(rm)
    tb = time.time() - t0
    tmp = rm.BUILD + "/tmp-%s-%d" % (pid, os.getpid())
    os.makedirs(tmp, exist_ok=True)
    try:
        return _run(pid, mode, seed, args, t0, rm, root, tb, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        for p in glob.glob("/dev/shm/*vp%d_*" % os.getpid()):
            os.unlink(p)


def _run(pid, mode, seed, args, t0, rm, root, tb, tmp):
    if mode == "replay":
        j = json.load(open(args[0]))
        m = replay_once(pid, j["sub"], j["case"], root, tmp, verbose=True)
        print("case: " + json.dumps(j["case"]))
        print("FAILS: " + m if m else "passes")
        return 1 if m else 0
    only = args[args.index("--only") + 1] if "--only" in args else None
    scale = float(args[args.index("--scale") + 1]) if "--scale" in args else 1.0
    budget = float(os.environ.get("VERIF_BUDGET", "150" if mode == "quick" else "700"))
    listing = json.loads(_out_env([PY, VERIF + "/py/worker.py", pid, "--list"], env_for(root)))
    replay_path = rm.EVID + "/%s.replay" % pid
    os.makedirs(rm.EVID, exist_ok=True)
    if os.path.exists(replay_path):
        os.unlink(replay_path)
    subs, viol, unrepro, kfs = [], None, 0, []
    jobs = os.cpu_count()
    for s in listing:
        if only and s["name"] != only:
            continue
        total = max(1, int((s["quick"] if mode == "quick" else s["thorough"]) * scale))
        jn = min(jobs, total)
        ts = time.time()
        left = budget * s["share"]
        procs = []
        for w in range(jn):
            o = "%s/%s-%d" % (tmp, s["name"], w)
            n = total // jn + (1 if w < total % jn else 0)
            e = env_for(root); e["VERIF_NS"] = "vp%d_%s_%d_" % (os.getpid(), s["name"][:3], w)
            procs.append((o, subprocess.Popen([PY, VERIF + "/py/worker.py", pid, "--sub", s["name"], "--seed", str(seed * 1000003 + w), "--cases", str(n), "--budget", str(left), "--out", o], env=e, stdout=subprocess.DEVNULL, stderr=open(o + ".err", "w"))))
        cand = None
        pending = list(procs)
        while pending:
            for x in list(pending):
                rc = x[1].poll()
                if rc is None:
                    continue
                pending.remove(x)
                if rc == 0:
                    continue
                if rc == 1:
                    j = json.load(open(x[0] + ".fail")); c = (j["case"], j["msg"], False)
                elif rc < 0 and os.path.exists(x[0] + ".cur"):
                    c = (json.load(open(x[0] + ".cur")), "does not come to an end" if rc == -signal.SIGALRM else "the interpreter dies with " + signal.Signals(-rc).name, True)
                else:
                    for _, q in pending:
                        q.kill()
                    print("check of %s failed to run (worker status %d)\n%s" % (pid, rc, open(x[0] + ".err").read()[-3000:]))
                    return 2
                if cand is None:
                    # confirm in fresh processes before believing it
                    m = None
                    for _ in range(s["confirm"]):
                        m = replay_once(pid, s["name"], c[0], root, tmp)
                        if m:
                            break
                    if m and m.startswith("BROKEN"):
                        print("check of %s failed to run: %s" % (pid, m)); return 2
                    if m:
                        cand = (c[0], m, c[2])
                        for _, q in pending:
                            q.kill()
                    else:
                        unrepro += 1
            time.sleep(0.02)
        agg = {"name": s["name"], "rule": s["rule"], "evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "samples": [], "wall_s": 0.0, "kf": [], "labels": {}}
        fps = set()
        for o, _ in procs:
            if os.path.exists(o + ".json"):
                j = json.load(open(o + ".json"))
                agg["evaluations"] += j["evaluations"]; agg["nontrivial"] += j["nontrivial"]; fps.update(j["fingerprints"])
                agg["samples"] += j["samples"][:1]; agg["cut"] = agg.get("cut") or j["cut"]; agg["kf"] = sorted(set(agg["kf"]) | set(j["kf"]))
                for k, v in j["labels"].items():
                    agg["labels"][k] = agg["labels"].get(k, 0) + v
        agg["distinct_nontrivial"] = len(fps)
        agg["wall_s"] = round(time.time() - ts, 2)
        if not agg.get("cut"):
            agg.pop("cut", None)
        kfs += agg["kf"]
        subs.append(agg)
        if cand:
            case, msg, crashed = cand
            if crashed:
                case = shrink_ops(pid, s["name"], case, root, tmp)
            json.dump({"property": pid, "sub": s["name"], "case": case, "message": msg}, open(replay_path, "w"), indent=1)
            viol = "  %s: %s\n  case: %s" % (s["name"], msg, json.dumps(case)[:1500])
            break
    levels = json.load(open(VERIF + "/MANIFEST.json"))["checks"] if os.path.exists(VERIF + "/MANIFEST.json") else []
    level = next((c["level"] for c in levels if c["property"] == pid), "exploration")
    return rm.finish(pid, mode, seed, level, subs, viol, replay_path, sorted(set(kfs)), t0,
                     ["real shared memory and semaphores of this machine, objects of one process (C24-C28) or of several C++ and Python processes (C29, C30)", "the Python extension is compiled by this check from /repo's sources"],
                     {"build_s": round(tb, 1)}, unrepro)


def _out_env(cmd, env):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    if r.returncode != 0:
        print("check failed to start:\n" + r.stderr[-3000:])
        sys.exit(2)
    return r.stdout
