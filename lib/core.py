"""Shared runner of the generated-input checks.

A check module (checks/cNN.py) defines

    PROP   = "C01"
    RULE   = "how cases are made; what makes one non-trivial"
    SUBS   = [Sub("name", strategy, check, quick=1000, thorough=20000), ...]

A strategy generates a *plain* case (JSON data); check(case, ctx) raises on a
violation (any exception counts: inputs are constructed to be valid) and tells
the runner by ctx.nontrivial(...) / ctx.label(...) what the case exercised.
All random choices live in Hypothesis; a case alone reproduces a verdict.
"""
import hashlib, json, os, signal, sys, tempfile, time, traceback, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Violation(Exception):
    """The property does not hold for this case."""


class Skip(Exception):
    """The case is outside of the property's domain (counted, never reported)."""


class Hang(BaseException):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, tol, msg, *args):
    """|a-b| <= tol for numbers or flat sequences (nan never passes)"""
    if hasattr(a, "__len__"):
        ok = len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))
    else:
        ok = abs(a - b) <= tol
    if not ok:
        raise Violation("%s: got %r, expected %r (tol %g)" % (msg % args if args else msg, a, b, tol))


class Sub:
    def __init__(self, name, strategy, check, quick=400, thorough=None, shards=8, examples=(), cpu=60):
        self.name = name
        self.strategy = strategy          # a strategy or a function returning one
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.examples = list(examples)    # plain cases that run first, always
        self.cpu = cpu


class Ctx:
    def __init__(self):
        self.nt = False
        self.labels = {}
        self.tmp = None

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, name, cond=True):
        if cond:
            self.labels[name] = self.labels.get(name, 0) + 1


def _onprof(signum, frame):
    raise Hang("CPU time limit of a single case exceeded")


def run_case(sub, case, ctx):
    """one evaluation; raises on violation"""
    old = signal.signal(signal.SIGPROF, _onprof)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu)
    try:
        try:
            sub.check(case, ctx)
        except Hang as e:
            raise Violation("hang: %s" % e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def describe(exc):
    s = "%s: %s" % (type(exc).__name__, exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ["%s:%d %s" % (os.path.relpath(f.filename, "/"), f.lineno, f.name) for f in tb][-4:]
    return s[:1500], where


HARNESS_ERRORS = (MemoryError, KeyboardInterrupt, SystemExit)


def is_env_error(e):
    import errno
    return isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN)


def derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:7], "big")


def shard_run(mod, sub, shard, nshards, n, seed, deadline, outfile):
    """executed in a forked process; explores n cases of sub"""
    from hypothesis import settings, given, seed as hseed, HealthCheck, Phase
    res = dict(sub=sub.name, shard=shard, evaluations=0, skipped=0, cut=0, labels={}, hashes=[], samples=[],
               failure=None, error=None)
    hashes = set()
    history = []
    state = dict(best=None, first=None)

    class Cut(BaseException):
        pass

    def one(case, shrinking=False):
        txt = json.dumps(case)
        case = json.loads(txt)
        ctx = Ctx()
        history.append(txt)
        try:
            run_case(sub, case, ctx)
        except Skip:
            res["skipped"] += 1
            return
        except HARNESS_ERRORS:
            raise
        except Exception as e:
            if is_env_error(e):
                raise SystemExit("environment error: %r" % e)
            if state["first"] is None:
                state["first"] = (time.time(), len(history))
            if state["best"] is None or len(txt) <= len(state["best"][0]):
                state["best"] = (txt,) + describe(e) + (len(history),)
            raise
        if state["first"] is None:
            res["evaluations"] += 1
            for k, v in ctx.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + v
            if ctx.nt:
                h = hashlib.sha1(txt.encode()).hexdigest()[:12]
                if h not in hashes:
                    hashes.add(h)
                    if len(res["samples"]) < 3 and len(txt) < 1500:
                        res["samples"].append(dict(sub=sub.name, case=case))

    strategy = sub.strategy() if callable(sub.strategy) and not hasattr(sub.strategy, "example") else sub.strategy

    def test(case):
        now = time.time()
        if state["first"] is not None:
            if now - state["first"][0] > float(os.environ.get("VERIF_SHRINK", "20")):
                raise Cut()
        elif now > deadline:
            res["cut"] += 1
            return
        one(case)

    try:
        failed = False
        if shard == 0:
            for ex in sub.examples:
                try:
                    one(ex)
                except Exception:
                    failed = True
                    break
        if not failed and n > 0:
            t = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                         phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                         print_blob=False, derandomize=False, verbosity=_quiet())(
                hseed(derive(seed, mod.PROP, sub.name, shard))(given(strategy)(test)))
            try:
                t()
            except Cut:
                pass
            except HARNESS_ERRORS:
                raise
            except BaseException as e:
                if state["best"] is None:
                    res["error"] = "".join(traceback.format_exception(e))[-3000:]
    except BaseException as e:
        res["error"] = "".join(traceback.format_exception(e))[-3000:]
    res["hashes"] = sorted(hashes)
    if state["best"] is not None:
        res["failure"] = dict(case=json.loads(state["best"][0]), what=state["best"][1], where=state["best"][2],
                              history=history[:state["first"][1]])
    with open(outfile, "w") as f:
        json.dump(res, f)


def _quiet():
    from hypothesis import Verbosity
    return Verbosity.quiet


def in_fork(fn):
    """run fn() in a forked child; returns its JSON-able result"""
    fd, name = tempfile.mkstemp()
    os.close(fd)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            with open(name, "w") as f:
                json.dump(fn(), f)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.waitpid(pid, 0)
    with open(name) as f:
        txt = f.read()
    os.unlink(name)
    return json.loads(txt) if txt else None


def try_cases(sub, cases):
    """verdict of a sequence of cases in a fresh process: None or [what, where] of the last one failing"""
    def fn():
        verdict = None
        for c in cases:
            verdict = None
            try:
                run_case(sub, c, Ctx())
            except Skip:
                pass
            except HARNESS_ERRORS:
                raise
            except Exception as e:
                if is_env_error(e):
                    return dict(env=True)
                verdict = describe(e)
        return dict(verdict=verdict)
    r = in_fork(fn)
    if r is None:
        return None
    return r.get("verdict")


def load_known(prop):
    name = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(name):
        return []
    with open(name) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == prop]


def run_check(mod, tier, seed, only=None, scale=1.0):
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "400" if tier == "quick" else "6000"))
    deadline = t0 + budget
    if hasattr(mod, "prepare"):
        mod.prepare()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % mod.PROP)
    os.chmod(tmp, 0o777)
    tempfile.tempdir = tmp
    os.chdir(tmp)
    subs = [s for s in mod.SUBS if only is None or s.name in only]
    byname = {s.name: s for s in mod.SUBS}
    tasks = []
    for s in subs:
        n = int((s.quick if tier == "quick" else s.thorough) * scale)
        shards = max(1, min(s.shards, max(1, n // 5)))
        per = max(1, -(-n // shards)) if n else 0
        for i in range(shards):
            tasks.append((s, i, shards, per))
    # interleave: biggest shards first would need cost knowledge; round robin over subs is good enough
    tasks.sort(key=lambda t: t[1])
    results, running = [], {}
    failed_subs = set()
    k = 0
    while k < len(tasks) or running:
        while k < len(tasks) and len(running) < NPROC:
            s, i, ns, per = tasks[k]
            k += 1
            if s.name in failed_subs:
                continue
            out = os.path.join(tmp, "r%d.json" % k)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    wd = os.path.join(tmp, "w%d" % k)
                    os.mkdir(wd)
                    os.chdir(wd)
                    tempfile.tempdir = wd
                    shard_run(mod, s, i, ns, per, seed, deadline, out)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            running[pid] = (s, i, out, os.path.join(tmp, "w%d" % k))
        if not running:
            continue
        pid, status = os.wait()
        if pid not in running:
            continue
        s, i, out, wd = running.pop(pid)
        shutil.rmtree(wd, ignore_errors=True)
        try:
            with open(out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            r = dict(sub=s.name, shard=i, evaluations=0, skipped=0, cut=0, labels={}, hashes=[], samples=[],
                     failure=None, error="shard process ended with status %d" % status)
        results.append(r)
        if r["failure"]:
            failed_subs.add(s.name)

    errors = ["%s[%d]: %s" % (r["sub"], r["shard"], r["error"]) for r in results if r["error"]]
    violations, flaky, known_lines = [], [], []

    # listed findings: re-run the exact input
    for e in load_known(mod.PROP):
        if only is not None and e["sub"] not in only:
            continue
        v = try_cases(byname[e["sub"]], [e["case"]])
        if v is not None:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (mod.PROP, e["what"]))

    seen = set()
    for r in sorted((r for r in results if r["failure"]), key=lambda r: (r["sub"], len(json.dumps(r["failure"]["case"])))):
        if r["sub"] in seen:
            continue
        s = byname[r["sub"]]
        f = r["failure"]
        cases = [f["case"]]
        v = try_cases(s, cases)
        if v is None:
            cases = [json.loads(h) for h in f["history"]]
            v = try_cases(s, cases)
            if v is not None:      # depends on what ran before: reduce the history
                last, chunk, t1 = cases[-1], max(1, (len(cases) - 1) // 2), time.time()
                pre = cases[:-1]
                while chunk >= 1 and time.time() - t1 < 40:
                    j, changed = 0, False
                    while j < len(pre) and time.time() - t1 < 40:
                        cand = pre[:j] + pre[j + chunk:]
                        w = try_cases(s, cand + [last])
                        if w is not None:
                            pre, v, changed = cand, w, True
                        else:
                            j += chunk
                    if not changed:
                        chunk //= 2
                cases = pre + [last]
        if v is None:
            flaky.append("%s: %s" % (r["sub"], f["what"]))
            continue
        seen.add(r["sub"])
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (mod.PROP, r["sub"]))
        with open(path, "w") as fo:
            json.dump(dict(property=mod.PROP, sub=r["sub"], cases=cases, what=v[0], where=v[1]), fo, indent=1)
        violations.append((path, r["sub"], v))

    nthashes = set()
    for r in results:
        nthashes.update(r["sub"] + ":" + h for h in r["hashes"])
    persub = {}
    for r in results:
        d = persub.setdefault(r["sub"], dict(evaluations=0, nontrivial=0, labels={}))
        d["evaluations"] += r["evaluations"]
        for lk, lv in r["labels"].items():
            d["labels"][lk] = d["labels"].get(lk, 0) + lv
    for name in persub:
        persub[name]["nontrivial"] = sum(1 for h in nthashes if h.startswith(name + ":"))
    samples, got = [], {}
    for r in sorted(results, key=lambda r: (r["shard"], r["sub"])):
        for smp in r["samples"]:
            if got.get(r["sub"], 0) < 2:
                got[r["sub"]] = got.get(r["sub"], 0) + 1
                samples.append(smp)
    wall = time.time() - t0
    evidence = dict(property=mod.PROP, tier=tier, seed=seed, level="exploration",
                    coverage=dict(evaluations=sum(r["evaluations"] for r in results),
                                  distinct_nontrivial=len(nthashes), rule=mod.RULE, samples=samples,
                                  per_subproperty=persub,
                                  out_of_domain=sum(r["skipped"] for r in results),
                                  cut_by_time_budget=sum(r["cut"] for r in results),
                                  not_reproduced=flaky),
                    assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(violations))
    if only is None:
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        tmpname = os.path.join(edir, ".%s.tmp" % mod.PROP)
        with open(tmpname, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmpname, os.path.join(edir, "%s.json" % mod.PROP))
    os.chdir(VERIF)
    shutil.rmtree(tmp, ignore_errors=True)
    for name in sorted(persub):
        d = persub[name]
        print("%s %-28s evaluations=%d nontrivial=%d %s" % (mod.PROP, name, d["evaluations"], d["nontrivial"],
              " ".join("%s=%d" % kv for kv in sorted(d["labels"].items()))))
    for x in flaky:
        print("NOTE not reproduced in a fresh process (not reported): " + x)
    for line in known_lines:
        print(line)
    for path, name, v in violations:
        print("%s.%s: %s" % (mod.PROP, name, v[0]))
        print("    at " + " <- ".join(reversed(v[1])))
        print("VIOLATION property=%s replay=%s" % (mod.PROP, path))
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s" % (
        mod.PROP, tier, seed, evidence["coverage"]["evaluations"], len(nthashes), len(violations), wall))
    if violations:
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors), file=sys.stderr)
        return 2
    return 0


def replay(mod, path):
    with open(path) as f:
        data = json.load(f)
    sub = {s.name: s for s in mod.SUBS}[data["sub"]]
    if hasattr(mod, "prepare"):
        mod.prepare()
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    tempfile.tempdir = tmp
    os.chdir(tmp)
    v = try_cases(sub, data["cases"])
    os.chdir(VERIF)
    shutil.rmtree(tmp, ignore_errors=True)
    if v is None:
        print("%s: replay holds" % mod.PROP)
        return 0
    print("%s.%s: %s" % (mod.PROP, data["sub"], v[0]))
    print("    at " + " <- ".join(reversed(v[1])))
    print("VIOLATION property=%s replay=%s" % (mod.PROP, os.path.abspath(path)))
    return 1
