"""
Runner shared by all the checks.

A check module (mc/checks/<id>.py) defines
  ID, LEVEL, RULE, ASSUMPTIONS
  shards(tier)        -> list of shards (repr-able values); the union of the shards is the bounded space
  cases(shard)        -> iterator over the (repr-able) cases of a shard, simplest first
  check(case, st)     -> runs the real code on this case; raises Violation when the property is broken
or, for explicit-state explorers,
  explore(shard, st)  -> explores a shard itself; it raises Violation(..., case=<replayable case>)
  check(case, st)     -> replays one such case
The whole space is enumerated: there is no sampling, no time cap and no early stop but a violation.
"""
import ast, importlib, json, os, resource, signal, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"
CASE_CPU_S = 60            # CPU seconds that one case may take (the slowest legitimate case takes < 6 s)
MEM_BYTES = 3 << 30


class Violation(Exception):
    def __init__(self, msg, key=None, case=None):
        super().__init__(msg)
        self.msg, self.key, self.case = msg, key, case


class Hang(BaseException):
    pass


def require(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.nontrivial = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = {}
        self.notes = {}
        self.known = {}

    def begin(self, case):
        self.evaluations += 1
        self.case = case
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)

    def interesting(self):
        """The current case is non-trivial by the check's RULE (counted once per distinct case)."""
        h = hash(repr(self.case))
        if h not in self.seen:
            self.seen.add(h)
            self.nontrivial += 1
            if len(self.samples) < 3 or (self.nontrivial & (self.nontrivial - 1)) == 0 and len(self.samples) < 16:
                self.samples.append(repr(self.case)[:600])

    def outcome(self, key):
        key = str(key)
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def note_max(self, key, value):
        if value > self.notes.get(key, -1):
            self.notes[key] = value

    def export(self):
        return dict(evaluations=self.evaluations, seen=self.seen, states=self.states,
                    transitions=self.transitions, traces=self.traces, samples=self.samples,
                    outcomes=self.outcomes, notes=self.notes, known=self.known)

    def merge(self, d):
        self.evaluations += d["evaluations"]
        self.seen |= d["seen"]
        self.states += d["states"]
        self.transitions += d["transitions"]
        self.traces += d["traces"]
        self.samples += d["samples"]
        for k, n in d["outcomes"].items():
            self.outcomes[k] = self.outcomes.get(k, 0) + n
        for k, n in d["notes"].items():
            self.note_max(k, n)
        for k, v in d["known"].items():
            self.known.setdefault(k, v)


def load_known():
    """Entries 'KNOWN-FINDING: property=<id> key=<key> <what fails>' of /verif/known_findings."""
    known = {}
    try:
        with open(os.path.join(VERIF, "known_findings")) as f:
            for line in f:
                if line.startswith("KNOWN-FINDING: "):
                    parts = line[len("KNOWN-FINDING: "):].strip().split(" ", 2)
                    known[(parts[0].split("=", 1)[1], parts[1].split("=", 1)[1])] = parts[2]
    except FileNotFoundError:
        pass
    return known


KNOWN = load_known()


def _on_vtalrm(signum, frame):
    raise Hang()


def _init_worker():
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
    devnull = os.open(os.devnull, os.O_WRONLY)   # the code under test may print
    os.dup2(devnull, 1)
    import pybgl
    assert os.path.realpath(pybgl.__file__).startswith(REPO_SRC + "/"), pybgl.__file__


def load(pid):
    return importlib.import_module("mc.checks.%s" % pid.lower())


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ["%s:%s in %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-4:]
    return "%s: %s [%s]" % (type(e).__name__, str(e)[:300], " < ".join(reversed(where)))


def guarded(mod, case, st):
    """Run one case. Returns None or (message, key)."""
    try:
        mod.check(case, st)
        return None
    except Violation as v:
        return (v.msg, v.key)
    except Hang:
        return ("no result after %d s of CPU time (non-termination)" % CASE_CPU_S, None)
    except (Exception, RecursionError) as e:
        return ("the code under test raised " + describe_exc(e), None)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def run_shard(pid, shard):
    t0 = time.time()
    try:
        return run_shard_(pid, shard)
    finally:
        if os.environ.get("MC_PROFILE"):
            sys.stderr.write("%7.2fs %s\n" % (time.time() - t0, repr(shard)[:150]))


def run_shard_(pid, shard):
    mod = load(pid)
    st = Stats()
    if hasattr(mod, "explore"):
        try:
            mod.explore(shard, st)
        except Violation as v:
            return st.export(), dict(shard=repr(shard), case=repr(v.case), message=v.msg, prefix=False)
        except Hang:
            return st.export(), dict(shard=repr(shard), case=repr(st.case), prefix=False,
                                     message="no result after %d s of CPU time (non-termination)" % CASE_CPU_S)
        except Exception as e:
            return st.export(), dict(shard=repr(shard), case=repr(getattr(st, "case", None)), prefix=False,
                                     message="the code under test raised " + describe_exc(e))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return st.export(), None
    for i, case in enumerate(mod.cases(shard)):
        st.begin(case)
        t0 = time.process_time()
        bad = guarded(mod, case, st)
        if os.environ.get("MC_PROFILE") and time.process_time() - t0 > 4:
            sys.stderr.write("SLOW CASE %s %.1fs %s\n" % (pid, time.process_time() - t0, repr((shard, case))[:150]))
        if bad is not None:
            msg, key = bad
            if key is not None and (pid, key) in KNOWN:
                st.known.setdefault(key, repr(case))
                continue
            return st.export(), dict(shard=repr(shard), case=repr(case), message=msg, index=i, prefix=False)
    return st.export(), None


def reproduces(pid, info):
    """In a fresh process: does the single case fail again?"""
    mod = load(pid)
    st = Stats()
    if info.get("prefix"):
        r = run_shard(pid, ast.literal_eval(info["shard"]))[1]
        return r["message"] if r else None
    case = ast.literal_eval(info["case"])
    st.begin(case)
    bad = guarded(mod, case, st)
    return bad[0] if bad else None


def executor(n):
    return ProcessPoolExecutor(n, mp_context=multiprocessing.get_context("fork"), initializer=_init_worker)


def run_check(pid, tier, seed):
    t0 = time.time()
    mod = load(pid)
    shards = list(mod.shards(tier))
    st = Stats()
    viol = None
    broken = None
    ex = executor(int(os.environ.get("MC_PROCS", 0)) or min(8, os.cpu_count() or 1))
    try:
        futs = [ex.submit(run_shard, pid, s) for s in shards]
        for f in as_completed(futs):
            d, v = f.result()
            st.merge(d)
            if v is not None:
                viol = v
                break
    except BrokenProcessPool:
        broken = "a worker process died"
    except Exception as e:
        broken = "internal error: " + describe_exc(e)
    for p in list((ex._processes or {}).values()):
        p.kill()
    ex.shutdown(wait=False, cancel_futures=True)
    if broken:
        print("ERROR property=%s %s" % (pid, broken))
        return 2
    wall = time.time() - t0
    samples = sorted(set(st.samples), key=len)
    if len(samples) > 8:
        samples = [samples[i * (len(samples) - 1) // 7] for i in range(8)]
    cov = dict(samples=samples or ["(none)"], shards=len(shards), exhaustive=(viol is None),
               rule=mod.RULE, distinct_outcomes=len(st.outcomes), bound=getattr(mod, "BOUND", {}).get(tier, ""))
    if st.outcomes and len(st.outcomes) <= 40:
        cov["outcomes"] = dict(sorted(st.outcomes.items()))
    if st.notes:
        cov["maxima"] = st.notes
    if mod.LEVEL == "model_checking":
        cov.update(states=st.states, transitions=st.transitions, traces_validated_against_impl=st.traces)
    cov.update(evaluations=st.evaluations, distinct_nontrivial=len(st.seen))
    if viol is not None:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s.json" % pid)
        with executor(1) as ex1:
            try:
                msg = ex1.submit(reproduces, pid, viol).result()
                if msg is None:
                    viol["prefix"] = True   # the failure needs the cases before it: replay the whole shard
                    viol["note"] = "the case alone passes; the failure needs the calls made before it in its shard"
            except Exception as e:
                viol["note"] = "replay did not complete: %s" % e
        viol["property"] = pid
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
    evidence = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
                    assumptions=list(mod.ASSUMPTIONS), wall_s=round(wall, 2), violations=0 if viol is None else 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(evidence, f, indent=1)
    for key in sorted(st.known):
        print("KNOWN-FINDING: property=%s %s" % (pid, KNOWN[(pid, key)]))
    if viol is not None:
        print("  shard   %s" % viol["shard"][:300])
        print("  case    %s" % viol["case"][:1500])
        print("  reason  %s" % viol["message"][:2000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s tier=%s evaluations=%d nontrivial=%d states=%d transitions=%d outcomes=%d wall=%.1fs" % (
        pid, tier, st.evaluations, len(st.seen), st.states, st.transitions, len(st.outcomes), wall))
    return 0


def main(argv):
    if len(argv) == 2 and argv[0] == "replay":
        with open(argv[1]) as f:
            info = json.load(f)
        with executor(1) as ex:
            msg = ex.submit(reproduces, info["property"], info).result()
        print("case    %s" % info["case"])
        if msg:
            print("reason  %s" % msg)
            print("VIOLATION property=%s replay=%s" % (info["property"], argv[1]))
            return 1
        print("the case passes")
        return 0
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if argv[0] == "all":
        with open(os.path.join(VERIF, "MANIFEST.json")) as f:
            ids = [c["property"] for c in json.load(f)["checks"]]
        worst = 0
        for pid in ids:
            worst = max(worst, run_check(pid, tier, seed))
        return worst
    return run_check(argv[0], tier, seed)
