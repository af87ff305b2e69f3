"""Runner shared by all monitors: case generation, parallel execution, verdicts,
shrinking, replay files and evidence."""
import argparse
import importlib
import json
import logging
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = None
REPO = None
HANG_S = int(os.environ.get("VERIF_HANG_S", "60"))


class Violation(Exception):
    """The oracle refuted the property on an observed execution."""

    def __init__(self, kind, detail=""):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = str(detail)


class Hang(BaseException):
    pass


class Discard(Exception):
    """The case fell outside the property's domain."""


class Check:
    id = None
    rule = ""
    level = "exploration"
    assumptions = []
    quick = (100, 60)  # cases, soft wall-clock cap in seconds
    thorough = (1000, 600)
    workers = 7
    min_nontrivial = 20
    hang_is_violation = True
    # counters that must be non-zero, otherwise the run is inconclusive
    required = ()

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, case, cx):
        raise NotImplementedError

    def shrink(self, case):
        yield from generic_shrink(case)

    def sample(self, case):
        return case

    def setup(self, cx):
        pass

    def final(self, stats):
        """Called in the parent with merged counters; may return a problem string
        (inconclusive)."""
        return None


def generic_shrink(case):
    """Drop elements of lists found under case (bottom-up deletions)."""
    if not isinstance(case, dict):
        return
    for key in sorted(case):
        v = case[key]
        if isinstance(v, list) and key in ("ops", "slides", "steps", "items", "calls"):
            n = len(v)
            size = max(1, n // 2)
            while size >= 1:
                for start in range(0, n, size):
                    nv = v[:start] + v[start + size:]
                    if len(nv) < n:
                        c = dict(case)
                        c[key] = nv
                        yield c
                if size == 1:
                    break
                size //= 2
            for i, x in enumerate(v):
                if isinstance(x, dict):
                    for sub in generic_shrink(x):
                        c = dict(case)
                        c[key] = v[:i] + [sub] + v[i + 1:]
                        yield c
        elif isinstance(v, dict) and key in ("deck", "slide"):
            for sub in generic_shrink(v):
                c = dict(case)
                c[key] = sub
                yield c


class Cx:
    """Per-worker context handed to Check.run."""

    def __init__(self, check, scratch):
        self.check = check
        self.scratch = scratch
        self._shell = None
        self.counters = {}
        self.sigs = set()
        self.n_dirs = 0
        self.case_checks = 0
        self.case_sig = None

    # ---- bookkeeping used by the oracles
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def ok(self, name="oracle_evaluations", n=1):
        self.case_checks += n
        self.count(name, n)

    def seen(self, sig):
        self.case_sig = sig

    def fail(self, kind, detail=""):
        raise Violation(kind, detail)

    def expect(self, cond, kind, detail=""):
        self.ok()
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def near(self, a, b, kind, detail="", tol=1e-6):
        self.ok()
        if a is None or b is None or not (abs(a - b) <= tol * max(1.0, abs(a), abs(b))):
            raise Violation(
                kind, "%s: observed %r expected %r" % (detail() if callable(detail) else detail, a, b))

    # ---- resources
    def dir(self):
        self.n_dirs += 1
        d = os.path.join(self.scratch, "d%d" % self.n_dirs)
        os.mkdir(d)
        return d

    def clean(self):
        for n in os.listdir(self.scratch):
            if n.startswith("d"):
                shutil.rmtree(os.path.join(self.scratch, n), ignore_errors=True)

    def fake_bin(self):
        p = os.path.join(self.scratch, "inkscape-standin")
        if not os.path.exists(p):
            with open(p, "w") as f:
                f.write(
                    "#!/bin/sh\nexec %s -I -u -B %s \"$@\"\n"
                    % (sys.executable, os.path.join(HERE, "vlib", "fakeink.py"))
                )
            os.chmod(p, 0o755)
        return p

    def shell(self):
        if self._shell is None or self._shell.process.poll() is not None:
            from elsie.render.inkscape import InkscapeShell

            self._shell = InkscapeShell(self.fake_bin())
        return self._shell

    def close(self):
        if getattr(self, "rasteriser", None) is not None:
            self.rasteriser.stop()
        if self._shell is not None:
            try:
                self._shell.process.stdin.close()
                self._shell.process.wait(5)
            except Exception:
                try:
                    self._shell.process.kill()
                except Exception:
                    pass


def _alarm(signum, frame):
    raise Hang()


def in_repo(tb):
    """Does an exception originate at or below a frame of the code under test?"""
    pkg = os.path.join(os.path.realpath(REPO), "elsie") + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(pkg):
            return fr
    return None


def run_case(check, case, cx):
    """-> (status, kind, detail); status in ok, discard, violation, error"""
    cx.case_checks = 0
    cx.case_sig = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_S, 5)  # again, if a handler waits too
    out = sys.stdout
    try:
        sys.stdout = open(os.devnull, "w")
        try:
            check.run(case, cx)
        finally:
            sys.stdout.close()
            sys.stdout = out
            signal.alarm(0)
        return ("ok", None, None)
    except Discard as e:
        return ("discard", str(e), None)
    except Violation as e:
        return ("violation", e.kind, e.detail)
    except Hang:
        if cx._shell is not None:
            try:
                cx._shell.process.kill()
            except Exception:
                pass
            cx._shell = None
        return ("hang", "hang", "no result within %d s" % HANG_S)
    except Exception as e:
        fr = in_repo(e.__traceback__)
        txt = traceback.format_exc()
        if cx._shell is not None:
            # the protocol state of the shared shell is unknown now
            try:
                cx._shell.process.kill()
            except Exception:
                pass
            cx._shell = None
        if fr is not None:
            # the deepest elsie frame names the mechanism
            return ("violation", "exception:%s" % type(e).__name__, txt[-1800:])
        return ("error", "harness:%s" % type(e).__name__, txt[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        cx.clean()


def worker(check, idx, nworkers, n, deadline, seed, tier, scratch, conn):
    try:
        os.setsid()
        d = os.path.join(scratch, "w%d" % idx)
        os.mkdir(d)
        os.environ["TMPDIR"] = d
        tempfile.tempdir = d
        os.chdir(d)
        logging.disable(logging.CRITICAL)
        cx = Cx(check, d)
        check.setup(cx)
        res = {"done": 0, "nontrivial": 0, "discard": 0, "viol": [], "errors": [],
               "sigs": [], "samples": [], "hangs": 0, "known": {}, "cut": False}
        known = load_known(check.id)
        for i in range(idx, n, nworkers):
            if time.monotonic() > deadline:
                res["cut"] = True
                break
            rng = random.Random("%s:%s:%d" % (seed, check.id, i))
            try:
                case = check.gen(rng, i, tier)
            except Exception:
                res["errors"].append((i, "gen", traceback.format_exc()[-2000:]))
                continue
            case = json.loads(json.dumps(case))
            st, kind, detail = run_case(check, case, cx)
            if st == "hang":
                st, kind, detail = run_case(check, case, cx)  # once more
                if st == "hang":
                    if check.hang_is_violation:
                        st = "violation"
                    else:
                        res["errors"].append((i, kind, detail))
                        continue
            res["done"] += 1
            if st == "discard":
                res["discard"] += 1
            elif st == "ok":
                if cx.case_checks > 0:
                    sig = cx.case_sig if cx.case_sig is not None else json.dumps(case, sort_keys=True)
                    h = hash_sig(sig)
                    if h not in cx.sigs:
                        cx.sigs.add(h)
                        if len(res["samples"]) < 2:
                            res["samples"].append(check.sample(case))
            elif st == "violation":
                k = match_known(known, kind, detail, case)
                if k is not None:
                    res["known"][k] = res["known"].get(k, 0) + 1
                    continue
                res["viol"].append((i, kind, detail, case))
                if len(res["viol"]) >= 3:
                    break
            else:
                res["errors"].append((i, kind, detail))
                if len(res["errors"]) >= 5:
                    break
        cx.close()
        res["sigs"] = sorted(cx.sigs)
        res["counters"] = cx.counters
        conn.send(res)
    except BaseException:
        conn.send({"fatal": traceback.format_exc()})
    finally:
        conn.close()
        os._exit(0)


def hash_sig(sig):
    import hashlib

    return hashlib.sha1(repr(sig).encode()).hexdigest()[:16]


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def match_known(known, kind, detail, case):
    for k in known:
        if k["kind"] == kind and (k.get("detail_contains") or "") in (detail or ""):
            return k["id"]
    return None


def shrink_case(check, case, kind, scratch, budget_s=40, budget_n=400):
    """Greedy shrinking in a child process; keeps cases failing with the same kind."""
    parent, child = multiprocessing.Pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            d = os.path.join(scratch, "shrink")
            os.mkdir(d)
            os.environ["TMPDIR"] = d
            tempfile.tempdir = d
            os.chdir(d)
            logging.disable(logging.CRITICAL)
            cx = Cx(check, d)
            check.setup(cx)
            best = case
            t0 = time.monotonic()
            n = 0
            progress = True
            while progress and time.monotonic() - t0 < budget_s and n < budget_n:
                progress = False
                for c in check.shrink(best):
                    n += 1
                    if time.monotonic() - t0 > budget_s or n > budget_n:
                        break
                    c = json.loads(json.dumps(c))
                    st, k, det = run_case(check, c, cx)
                    if st == "violation" and k == kind:
                        best = c
                        progress = True
                        child.send((best, det))
                        break
            cx.close()
        except BaseException:
            pass
        finally:
            child.close()
            os._exit(0)
    child.close()
    best, det = case, None
    end = time.monotonic() + budget_s + 70
    try:
        while time.monotonic() < end:
            if parent.poll(0.5):
                best, det = parent.recv()
    except EOFError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    return best, det


def main(argv, here, repo):
    global HERE, REPO
    HERE, REPO = here, repo
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--case", type=int)
    ap.add_argument("--no-shrink", action="store_true")
    args = ap.parse_args(argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    import elsie

    if not os.path.realpath(elsie.__file__).startswith(os.path.realpath(repo) + os.sep):
        print("INCONCLUSIVE: elsie imported from", elsie.__file__)
        sys.exit(3)
    mod = importlib.import_module("checks.%s" % args.prop.lower())
    check = mod.CHECK
    if os.environ.get("VERIF_SPLIT"):
        pass
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % check.id)
    code = 3
    try:
        if args.replay or args.case is not None:
            code = replay(check, args, tier, seed, scratch)
        else:
            code = explore(check, args, tier, seed, scratch)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def replay(check, args, tier, seed, scratch):
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        case = rep["case"]
    else:
        rng = random.Random("%s:%s:%d" % (seed, check.id, args.case))
        case = json.loads(json.dumps(check.gen(rng, args.case, tier)))
        print(json.dumps(case, indent=1)[:6000])
    d = os.path.join(scratch, "w0")
    os.mkdir(d)
    os.environ["TMPDIR"] = d
    tempfile.tempdir = d
    os.chdir(d)
    cx = Cx(check, d)
    check.setup(cx)
    st, kind, detail = run_case(check, case, cx)
    cx.close()
    print("status:", st, kind or "")
    print(detail or "")
    print("counters:", cx.counters)
    if st == "violation":
        print("VIOLATION property=%s replay=%s" % (check.id, args.replay or "case-%s" % args.case))
        return 1
    return 0 if st in ("ok", "discard") else 3


def explore(check, args, tier, seed, scratch):
    t0 = time.monotonic()
    n, cap = check.quick if tier == "quick" else check.thorough
    if args.cases:
        n = args.cases
    deadline = t0 + cap
    nw = min(int(os.environ.get("VERIF_WORKERS", 0)) or check.workers, n)
    procs = []
    for i in range(nw):
        a, b = multiprocessing.Pipe(False)
        pid = os.fork()
        if pid == 0:
            a.close()
            worker(check, i, nw, n, deadline, seed, tier, scratch, b)
            os._exit(0)
        b.close()
        procs.append((pid, a))
    results = []
    fatal = []
    for pid, a in procs:
        left = max(1.0, deadline + 4 * HANG_S - time.monotonic())
        try:
            if a.poll(left):
                r = a.recv()
                if "fatal" in r:
                    fatal.append(r["fatal"])
                else:
                    results.append(r)
            else:
                fatal.append("worker timed out")
        except EOFError:
            fatal.append("worker died without a result")
    for pid, _ in procs:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass

    counters = {}
    sigs = set()
    viol = []
    errors = []
    samples = []
    known_hits = {}
    done = discard = 0
    cut = False
    for r in results:
        done += r["done"]
        discard += r["discard"]
        cut = cut or r["cut"]
        sigs.update(r["sigs"])
        viol += r["viol"]
        errors += r["errors"]
        samples += r["samples"]
        for k, v in r["known"].items():
            known_hits[k] = known_hits.get(k, 0) + v
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v

    known = load_known(check.id)
    code = 0
    for k in known:
        print("KNOWN-FINDING: property=%s %s (%s; hit %d times in this run)"
              % (check.id, k["what"], k["id"], known_hits.get(k["id"], 0)))
    viol.sort(key=lambda v: v[0])
    seen_kinds = set()
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    for i, kind, detail, case in viol:
        if kind in seen_kinds:
            continue
        seen_kinds.add(kind)
        if len(seen_kinds) > 4:
            break
        det = detail
        if not args.no_shrink and len(seen_kinds) <= 2 and kind != "hang":
            case2, det2 = shrink_case(check, case, kind, os.path.join(scratch))
            shutil.rmtree(os.path.join(scratch, "shrink"), ignore_errors=True)
            case, det = case2, det2 or detail
        path = os.path.join(
            HERE, "evidence", "replays",
            "%s-%s.json" % (check.id, "".join(c if c.isalnum() else "_" for c in kind)[:60]))
        with open(path, "w") as f:
            json.dump({"property": check.id, "seed": seed, "tier": tier, "index": i,
                       "kind": kind, "detail": det, "case": case}, f, indent=1)
        print("violation kind=%s case=%d: %s" % (kind, i, str(det)[:1500]))
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        code = 1

    problems = []
    if fatal:
        problems += ["fatal: " + f[-1500:] for f in fatal]
    if errors:
        problems += ["harness error in case %s: %s %s" % e for e in errors[:3]]
    if len(sigs) < min(check.min_nontrivial, n):
        problems.append("only %d distinct non-trivial cases observed (need %d)"
                        % (len(sigs), check.min_nontrivial))
    for name in check.required:
        if not counters.get(name):
            problems.append("the monitor never observed: " + name)
    p = check.final(counters)
    if p:
        problems.append(p)
    if code == 0 and problems:
        code = 3
    for p in problems:
        print("INCONCLUSIVE: " + p)

    wall = time.monotonic() - t0
    rnd = random.Random(seed)
    rnd.shuffle(samples)
    ev = {
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(sigs),
            "rule": check.rule,
            "samples": [trim(s) for s in samples[:3]],
            "discarded": discard,
            "cut_by_time": cut,
            "monitor_counters": {k: counters[k] for k in sorted(counters)},
            "known_finding_hits": known_hits,
        },
        "assumptions": list(check.assumptions),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1fs%s -> %s" % (
        check.id, tier, seed, done, len(sigs), discard, wall, " (time cap)" if cut else "",
        {0: "held on what was observed", 1: "VIOLATED", 3: "inconclusive"}[code]))
    print("  " + ", ".join("%s=%s" % kv for kv in sorted(counters.items())))
    return code


def trim(s, n=4000):
    t = json.dumps(s)
    if len(t) <= n:
        return s
    return {"truncated_json": t[:n]}
