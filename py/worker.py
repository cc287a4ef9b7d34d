"""One worker process of a Python check: generates cases with Hypothesis and runs them (see pycheck.py)."""
import argparse, hashlib, importlib.util, json, os, signal, sys, time
import pbtlib

HERE = os.path.dirname(os.path.abspath(__file__))
CASE_LIMIT = 40


def load(pid):
    spec = importlib.util.spec_from_file_location("check_" + pid, HERE + "/checks/%s.py" % pid)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return pbtlib.SUBS


def main():
    a = argparse.ArgumentParser()
    a.add_argument("pid"); a.add_argument("--list", action="store_true"); a.add_argument("--replay"); a.add_argument("--sub")
    a.add_argument("--seed", type=int); a.add_argument("--cases", type=int); a.add_argument("--budget", type=float); a.add_argument("--out")
    a = a.parse_args()
    real_out = os.dup(1)
    if not a.replay:
        os.dup2(os.open("/dev/null", os.O_WRONLY), 1)    # the library reports refusals on its standard output
    os.environ.setdefault("VERIF_NS", "vp%d_r_" % os.getppid())
    subs = load(a.pid)
    if a.list:
        os.write(real_out, json.dumps([dict(name=s.name, rule=s.rule, quick=s.quick, thorough=s.thorough, share=s.share, confirm=s.confirm) for s in subs]).encode())
        return 0
    signal.signal(signal.SIGALRM, signal.SIG_DFL)        # kills the process even inside C++: the driver reports the case
    if a.replay:
        sys.stdout.flush(); j = json.load(open(a.replay))
        s = next(s for s in subs if s.name == j["sub"])
        signal.alarm(int(os.environ.get("VERIF_LIMIT", CASE_LIMIT)))
        c = pbtlib.Ctx()
        try:
            s.run(c, j["case"])
        except pbtlib.Invalid:
            return 0
        except Exception as e:
            if not isinstance(e, AssertionError):
                import traceback; traceback.print_exc()
            open(a.replay + ".msg", "w").write(pbtlib.text(e))
            return 1
        finally:
            c.cleanup()
        return 0
    from hypothesis import given, settings, seed, HealthCheck, Phase
    s = next(s for s in subs if s.name == a.sub)
    st = dict(evaluations=0, nontrivial=0, samples=[], cut=False, kf=[], labels={})
    fps = set(); best = [None]; first_fail = [0.0]; t0 = time.time()
    cur = open(a.out + ".cur", "w+")

    def dump():
        st["fingerprints"] = sorted(fps)
        json.dump(st, open(a.out + ".json", "w"))

    def fail_exit():
        json.dump(best[0], open(a.out + ".fail", "w"))
        dump()
        os._exit(1)

    class Cut(BaseException):
        pass

    @seed(a.seed)
    @settings(max_examples=a.cases, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False, report_multiple_bugs=False)
    @given(s.strategy)
    def prop(case):
        if best[0] is None and time.time() - t0 > a.budget:
            raise Cut()
        js = json.dumps(case)
        cur.seek(0); cur.write(js); cur.truncate(); cur.flush()
        signal.alarm(int(os.environ.get("VERIF_LIMIT", CASE_LIMIT)))
        c = pbtlib.Ctx()
        try:
            s.run(c, json.loads(js))
        except pbtlib.Invalid:
            return
        except Exception as e:
            if best[0] is None:
                first_fail[0] = time.time()
            if best[0] is None or len(js) <= len(json.dumps(best[0]["case"])):
                best[0] = {"case": json.loads(js), "msg": pbtlib.text(e)}
            if time.time() - first_fail[0] > 25:
                fail_exit()
            raise
        finally:
            c.cleanup()
            signal.alarm(0)
        if best[0] is None:
            st["evaluations"] += 1
            for l in c.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            st["kf"] = sorted(set(st["kf"]) | c.kfs)
            if c.nt:
                st["nontrivial"] += 1
                fps.add(hashlib.sha1(js.encode()).hexdigest()[:14])
                if len(st["samples"]) < 2 and st["nontrivial"] in (3, 40):
                    st["samples"].append(js[:600])
        elif time.time() - first_fail[0] > 25:
            fail_exit()
    try:
        prop()
    except Cut:
        st["cut"] = True
    except BaseException:
        if best[0] is None:
            raise
    if best[0]:
        fail_exit()
    dump()
    return 0


sys.exit(main())
