"""Explorer shared by all checks.

A check gives `cases(tier)`: a finite, ordered (simplest first) list of JSON
values, each naming one execution or one small family of executions of the
real code, and `run(case, ctx)`, which performs them and compares every step
with a reference model.  The engine runs *all* cases (forked workers, fixed
assignment), watches for executions that never end, confirms a violation by
running the case again, writes the replay file and the evidence.
"""
import hashlib
import json
import multiprocessing as mp
import os
import select
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

# Soft end of exploration: the cases left over are reported as not covered.
SOFT = {"quick": 420.0, "thorough": 3 * 3600.0}
# Largest CPU time of one case before it is taken to be stuck.
CASE_CPU = {"quick": 200.0, "thorough": 900.0}


class Violation(Exception):
    def __init__(self, message, sig=None):
        super().__init__(message)
        self.message = message
        self.sig = sig


class Check:
    id = None
    level = "exploration"
    rule = ""
    assumptions = ()
    nproc = {"quick": 8, "thorough": 8}
    bounds = {}

    def setup(self):
        """Import the code under test (before workers are forked)."""

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError


class Ctx:
    """Counters of what was explored; `fail` reports a violation."""

    def __init__(self, scratch, tier="quick"):
        self.tier = tier
        self.scratch = scratch
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = set()
        self.known = []
        self._n = 0

    def path(self, name="f"):
        """A fresh path inside the scratch directory of this worker."""
        self._n += 1
        d = os.path.join(self.scratch, str(self._n))
        os.makedirs(d)
        return os.path.join(d, name)

    def clean(self):
        for n in os.listdir(self.scratch):
            shutil.rmtree(os.path.join(self.scratch, n), ignore_errors=True)

    def ev(self, n=1):
        self.evaluations += n

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def state(self, key):
        self.states.add(_h(key))

    def outcome(self, key):
        self.outcomes.add(_h(key))

    def fail(self, message, sig=None):
        raise Violation(message, sig)

    def check(self, cond, message, sig=None):
        if not cond:
            raise Violation(message() if callable(message) else message, sig)


def _h(key):
    return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()


def in_repo_traceback(tb):
    root = os.path.realpath(REPO) + os.sep
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(root):
            return True
    return False


def _not_compiled(e):
    """numba could not compile code of the repository"""
    return type(e).__module__.startswith("numba.") and "CHECLabPy" in str(e)


def _unusable(e):
    """Raised by the comparison on a result of another type or shape. (On the
    unchanged tree no comparison raises.) A private name that is gone says
    nothing about the behaviour and stays an error of the harness."""
    if isinstance(e, AttributeError):
        return not str(getattr(e, "name", "_") or "_").startswith("_")
    return isinstance(e, (TypeError, LookupError, ValueError, StopIteration,
                          ArithmeticError))


def run_case(check, case, ctx):
    """None, or (message, sig) of a violation. Harness errors propagate."""
    try:
        check.run(case, ctx)
        return None
    except Violation as e:
        return e.message, e.sig
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if in_repo_traceback(e.__traceback__) or _not_compiled(e):
            tb = traceback.format_exception(type(e), e, e.__traceback__)
            return ("the code raised where the property requires a result: "
                    + "".join(tb[-6:])[-1500:],
                    "exception:" + type(e).__name__)
        if _unusable(e):
            tb = traceback.format_exception(type(e), e, e.__traceback__)
            return ("the result is not of the form the property requires: "
                    + "".join(tb[-4:])[-1500:],
                    "unusable:" + type(e).__name__)
        raise
    finally:
        ctx.clean()


def load_known(prop):
    """signatures of recorded findings (not of fixed ones)"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("KNOWN-FINDING: property=%s " % prop):
                    words = line.split()
                    sig = [w[4:] for w in words if w.startswith("sig=")]
                    if sig:
                        out[sig[0]] = line.strip()
    return out


def _silence():
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def _worker(check, cases, wid, n, scratch, progress, deadline, known, tier,
            conn):
    _silence()
    ctx = Ctx(scratch, tier)
    done = 0
    capped = False
    samples = []
    try:
        for i in range(wid, len(cases), n):
            if time.time() > deadline:
                capped = True
                break
            if i > progress[3 * n]:  # a simpler case already failed
                break
            progress[3 * wid] = i
            progress[3 * wid + 1] = progress[3 * wid + 1] + 1
            res = run_case(check, cases[i], ctx)
            done += 1
            if len(samples) < 2:
                samples.append(cases[i])
            if res is not None:
                message, sig = res
                if sig in known:
                    conn.send(("known", i, sig, message))
                    continue
                progress[3 * n] = min(progress[3 * n], i)
                second = os.path.join(scratch, "again")
                os.makedirs(second)
                again = run_case(check, cases[i], Ctx(second, tier))
                message += ("\n(running the case again: %s)" % (
                    "not reproduced, depends on what ran before it"
                    if again is None else
                    "same" if again[0] == message else again[0][:500]))
                conn.send(("violation", i, sig, message))
                break
        progress[3 * wid] = -1
        conn.send(("done", dict(
            done=done, capped=capped, samples=samples,
            evaluations=ctx.evaluations, transitions=ctx.transitions,
            traces=ctx.traces, states=ctx.states, outcomes=ctx.outcomes)))
    except BaseException:
        conn.send(("error", progress[3 * wid], traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def _cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            v = f.read().rsplit(")", 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def write_replay(check, tier, case, message, sig):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(),
                           digest_size=5).hexdigest()
    path = os.path.join(d, "%s-%s.json" % (check.id, name))
    with open(path, "w") as f:
        json.dump(dict(property=check.id, tier=tier, case=case,
                       message=message, sig=sig), f, indent=1)
        f.write("\n")
    return path


def run_check(check, tier, seed, nproc=None):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="mc_%s_" % check.id)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = None
    try:
        return _run_check(check, tier, seed, nproc, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _setup_quiet(check):
    """setup() with the code's own output silenced"""
    sys.stdout.flush()
    save1, save2 = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        check.setup()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(save1, 1)
        os.dup2(save2, 2)
        for fd in (null, save1, save2):
            os.close(fd)


def _run_check(check, tier, seed, nproc, scratch, t0):
    known = load_known(check.id)
    violations = []
    known_seen = {}
    errors = []
    totals = dict(done=0, evaluations=0, transitions=0, traces=0)
    states, outcomes = set(), set()
    samples = []
    capped = False
    n_cases = 0
    try:
        _setup_quiet(check)
        setup_failed = None
    except Violation as e:
        setup_failed = e.message
    except BaseException as e:
        if not in_repo_traceback(e.__traceback__):
            print("ERROR: harness: " + traceback.format_exc())
            return 2
        setup_failed = "importing the code failed: " + traceback.format_exc()
    if setup_failed:
        violations.append((0, None, setup_failed, {"setup": True}))
    else:
        cases = list(check.cases(tier))
        n_cases = len(cases)
        n = check.nproc[tier]
        if nproc and n > 1:  # 1: the check works on a copy of its own
            n = nproc
        n = max(1, min(n, n_cases, os.cpu_count() or 1))
        progress = mp.get_context("fork").Array("q", 3 * n + 1, lock=False)
        progress[3 * n] = n_cases
        for w in range(n):
            progress[3 * w] = -1
        deadline = t0 + float(os.environ.get("VERIF_SOFT", SOFT[tier]))
        conns, procs = [], []
        ctx = mp.get_context("fork")
        for w in range(n):
            d = os.path.join(scratch, "w%d" % w)
            os.makedirs(d)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=(
                check, cases, w, n, d, progress, deadline, known, tier, b))
            p.start()
            b.close()
            conns.append(a)
            procs.append(p)
        open_ = dict(zip((c.fileno() for c in conns), range(n)))
        mark = {w: (-2, 0.0, 0) for w in range(n)}
        while open_:
            ready, _, _ = select.select(list(open_), [], [], 2.0)
            for fd in ready:
                w = open_[fd]
                try:
                    msg = conns[w].recv()
                except EOFError:
                    del open_[fd]
                    procs[w].join()
                    if mark[w] is not None:
                        errors.append("worker %d died in case %d: %s" % (
                            w, progress[3 * w], procs[w].exitcode))
                        # killed by a signal inside the code under test
                        i = progress[3 * w]
                        if i >= 0 and (procs[w].exitcode or 0) in (
                                -11, -6, -8, -7):
                            errors.pop()
                            violations.append((
                                i, "crash", "the process crashed (signal %d)"
                                % -procs[w].exitcode, cases[i]))
                    continue
                if msg[0] == "violation":
                    violations.append((msg[1], msg[2], msg[3],
                                       cases[msg[1]]))
                elif msg[0] == "known":
                    known_seen.setdefault(msg[2], []).append(msg[1])
                elif msg[0] == "error":
                    i = msg[1]
                    errors.append("case %s: %s" % (
                        cases[i] if i >= 0 else None, msg[2]))
                    mark[w] = None
                elif msg[0] == "done":
                    mark[w] = None
                    r = msg[1]
                    for k in totals:
                        totals[k] += r[k]
                    states |= r["states"]
                    outcomes |= r["outcomes"]
                    samples.extend(r["samples"])
                    capped = capped or r["capped"]
            for fd, w in list(open_.items()):
                if mark[w] is None:
                    continue
                i, cpu0, cnt = mark[w]
                cnt_now = progress[3 * w + 1]
                cpu = _cpu(procs[w].pid)
                now = time.time()
                if cnt_now != cnt or i == -2:
                    mark[w] = (progress[3 * w], cpu, cnt_now)
                    progress[3 * w + 2] = int(now)
                elif progress[3 * w] >= 0 and (
                        cpu - cpu0 > CASE_CPU[tier]
                        or now - progress[3 * w + 2] > 2 * CASE_CPU[tier]):
                    i = progress[3 * w]
                    procs[w].kill()
                    procs[w].join()
                    mark[w] = None
                    violations.append((
                        i, "hang", "execution did not end (cut after %.0f s "
                        "of CPU time)" % (cpu - cpu0), cases[i]))
        for p in procs:
            p.join()

    wall = time.time() - t0
    out = sys.stdout
    for sig, idx in sorted(known_seen.items()):
        out.write("%s (reproduced in %d of %d cases)\n" % (
            known[sig], len(idx), n_cases))
    code = 0
    violations.sort(key=lambda v: v[0])
    if violations:
        i, sig, message, case = violations[0]
        path = write_replay(check, tier, case, message, sig)
        out.write("case: %s\n" % json.dumps(case)[:2000])
        out.write("%s\n" % message[:3000])
        out.write("VIOLATION property=%s replay=%s\n" % (check.id, path))
        code = 1
    elif errors:
        out.write("ERROR: harness: %s\n" % errors[0])
        code = 2

    cov = dict(
        cases=n_cases, cases_completed=totals["done"],
        evaluations=totals["evaluations"],
        distinct_nontrivial=len(outcomes),
        rule=check.rule,
        bounds=check.bounds.get(tier, check.bounds),
        samples=samples[:6] if samples else [None],
        exhaustive=(not capped and code == 0),
        known_findings_reproduced=len(known_seen),
    )
    if check.level == "model_checking":
        cov.update(states=len(states), transitions=totals["transitions"],
                   traces_validated_against_impl=totals["traces"])
    elif states:
        cov.update(states=len(states), transitions=totals["transitions"])
    if capped:
        cov["cap"] = ("time cap: %d of %d cases completed"
                      % (totals["done"], n_cases))
    ev = dict(property=check.id, tier=tier, seed=seed, level=check.level,
              coverage=cov, assumptions=list(check.assumptions),
              wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    out.write("%s %s: cases=%d/%d evaluations=%d states=%d transitions=%d "
              "traces=%d distinct=%d wall=%.1fs%s\n" % (
                  check.id, tier, totals["done"], n_cases,
                  totals["evaluations"], len(states), totals["transitions"],
                  totals["traces"], len(outcomes), wall,
                  " CAPPED" if capped else ""))
    return code


def replay(check, rec):
    scratch = tempfile.mkdtemp(prefix="mc_%s_" % check.id)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = None
    try:
        _setup_quiet(check)
        if rec["case"] == {"setup": True}:
            print("the code imports: not reproduced")
            return 0
        save = os.dup(1)
        _silence()
        try:
            res = run_case(check, rec["case"], Ctx(scratch, rec["tier"]))
        finally:
            sys.stdout.flush()
            os.dup2(save, 1)
        if res is None:
            print("not reproduced: the property holds on this case")
            return 0
        print(res[0])
        print("VIOLATION property=%s replayed" % check.id)
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
