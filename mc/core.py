"""
Common machinery of all checks: violation reporting, replay files, known
findings, evidence, and exhaustive parallel exploration of an indexed space.
"""
import argparse
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE_DIR = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class Violation(Exception):
    """Raised by an oracle: message explains, key identifies the failing input."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def load_known(prop):
    """
    Known findings file: JSON list of
      {"status": "known"|"fixed", "property", "key", "what", ["commit"]}
    Only status == "known" suppresses, and only the exact key.
    """
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path, encoding="utf-8") as fh:
        items = json.load(fh)
    return {it["key"]: it for it in items if it["property"] == prop and it["status"] == "known"}


class NoAnswer(BaseException):
    """A case did not end in time.  (Not an Exception: the code under test must not catch it.)"""


class limited:    # pylint: disable=invalid-name
    """Context in which the code under test has to give an answer within some seconds"""
    SECONDS = 60
    over = 0

    def __enter__(self):
        signal.signal(signal.SIGALRM, self.expired)
        signal.setitimer(signal.ITIMER_REAL, self.SECONDS)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)

    @staticmethod
    def expired(_signum, _frame):
        limited.over += 1
        raise NoAnswer(f"no result within {limited.SECONDS} seconds")

    @staticmethod
    def exhausted():
        """True when so many cases of this process gave no answer that it had better stop"""
        return limited.over >= 3


def limit_memory():
    """A case that eats all memory is to fail, not to have its process ended"""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Check:
    """
    One run of one property check.
    """

    def __init__(self, prop, level="model_checking"):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
        ap.add_argument("--replay", default=None)
        ap.add_argument("--all", action="store_true", help="report every violation instead of the first 20")
        self.args = ap.parse_args()
        self.prop = prop
        self.level = level
        self.tier = self.args.tier
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.violations = {}      # key -> (msg, replay data)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.outcomes = {}
        self.calls = 0
        self.known = load_known(prop)
        self.known_hit = set()

    # -- accounting -------------------------------------------------------
    def count(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, item, limit=6):
        if len(self.samples) < limit:
            self.samples.append(item)

    # -- violations -------------------------------------------------------
    def violation(self, key, msg, data=None):
        key = str(key)
        if key in self.known:
            self.known_hit.add(key)
            return
        if key not in self.violations:
            self.violations[key] = (msg, data)

    def merge(self, part):
        """
        Merge a worker result:
        dict(states, transitions, traces, outcomes, samples, violations=[(key,msg,data)])
        """
        self.count(part.get("states", 0), part.get("transitions", 0), part.get("traces", 0))
        for k, n in part.get("outcomes", {}).items():
            self.outcome(k, n)
        for s in part.get("samples", []):
            self.sample(s)
        for k, m, d in part.get("violations", []):
            self.violation(k, m, d)

    def run_parallel(self, worker, tasks, chunk=None):
        """
        worker(task) -> part dict.  Every task is executed exactly once; a
        worker that dies or raises is a hard error of the check.
        """
        tasks = list(tasks)
        self.calls += 1
        if "VERIF_TASKS" in os.environ or "VERIF_COVER" in os.environ:
            self.run_for_mutants(worker, tasks)
            return
        if JOBS <= 1 or len(tasks) <= 1:
            for t in tasks:
                self.merge(worker(t))
            return
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(JOBS, len(tasks)), limit_memory) as pool:
            for part in pool.imap_unordered(worker, tasks, chunksize=chunk or 1):
                self.merge(part)

    def run_for_mutants(self, worker, tasks):
        """
        Runs of tools/mutants.py: VERIF_COVER=FILE records which lines of the library each task runs,
        VERIF_TASKS=FILE runs only the tasks listed there and ends after the first one with violations.
        """
        if "VERIF_COVER" in os.environ:
            global _COVERED_WORKER   # pylint: disable=global-statement
            _COVERED_WORKER = worker
            with multiprocessing.get_context("fork").Pool(JOBS, limit_memory, maxtasksperchild=1) as pool:
                for k, part, lines in pool.imap_unordered(covered, list(enumerate(tasks)), chunksize=1):
                    self.merge(part)
                    with open(os.environ["VERIF_COVER"], "a", encoding="utf-8") as fh:
                        fh.write(json.dumps([self.calls, k, lines]) + "\n")
            return
        with open(os.environ["VERIF_TASKS"], encoding="utf-8") as fh:
            chosen = [k for call, k in json.load(fh) if call == self.calls]
        for k in chosen:
            if not self.violations:
                self.merge(worker(tasks[k]))

    # -- finish -----------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        coverage = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["(none)"],
            "distinct_outcomes": self.outcomes,
        }
        coverage.update(self.extra)
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 3),
            "violations": len(self.violations),
        }
        os.makedirs(EVIDENCE_DIR, exist_ok=True)
        path = os.path.join(EVIDENCE_DIR, self.prop + ".json")
        with open(path + ".tmp", "w", encoding="utf-8") as fh:
            json.dump(evidence, fh, indent=1, default=str)
            fh.write("\n")
        os.replace(path + ".tmp", path)
        for key in sorted(self.known):
            if key in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {self.known[key]['what']} [{key}]")
        if self.states == 0:
            print(f"{self.prop}: explored nothing", file=sys.stderr)
            sys.exit(2)
        if self.violations:
            rdir = os.path.join(EVIDENCE_DIR, "replay")
            os.makedirs(rdir, exist_ok=True)
            items = sorted(self.violations.items(), key=lambda kv: (len(json.dumps(kv[1][1], default=str)), kv[0]))
            shown = items if self.args.all else items[:20]
            for n, (key, (msg, data)) in enumerate(shown):
                h = hashlib.sha1(key.encode()).hexdigest()[:10]
                rpath = os.path.join(rdir, f"{self.prop}-{h}.json")
                with open(rpath, "w", encoding="utf-8") as fh:
                    json.dump({"property": self.prop, "key": key, "message": msg, "data": data}, fh,
                              indent=1, default=str)
                print(f"VIOLATION property={self.prop} replay={rpath}")
                print(f"  {key}: {msg}"[:1500])
            print(f"{self.prop}: {len(self.violations)} violation(s), {self.states} states, "
                  f"{self.transitions} transitions, {wall:.1f}s")
            sys.exit(1)
        print(f"{self.prop}: ok, {self.states} states, {self.transitions} transitions, "
              f"{self.traces} traces against implementation, outcomes={self.outcomes}, {wall:.1f}s")
        sys.exit(0)


_COVERED_WORKER = None


def covered(item):
    """-> (number of the task, its result, lines of the library that ran)"""
    k, task = item
    lines = set()

    def line(code, number):
        if "/autosar/" in code.co_filename:
            lines.add((code.co_filename.rpartition("/autosar/")[2], number))
        return sys.monitoring.DISABLE

    sys.monitoring.use_tool_id(sys.monitoring.COVERAGE_ID, "verif")
    sys.monitoring.register_callback(sys.monitoring.COVERAGE_ID, sys.monitoring.events.LINE, line)
    sys.monitoring.set_events(sys.monitoring.COVERAGE_ID, sys.monitoring.events.LINE)
    part = _COVERED_WORKER(task)
    sys.monitoring.set_events(sys.monitoring.COVERAGE_ID, 0)
    return k, part, sorted(lines)


class Part:
    """Accumulator used inside workers."""

    def __init__(self):
        self.d = dict(states=0, transitions=0, traces=0, outcomes={}, samples=[], violations=[])

    def count(self, states=0, transitions=0, traces=0):
        self.d["states"] += states
        self.d["transitions"] += transitions
        self.d["traces"] += traces

    def outcome(self, name, n=1):
        self.d["outcomes"][name] = self.d["outcomes"].get(name, 0) + n

    def sample(self, s):
        if len(self.d["samples"]) < 1:
            self.d["samples"].append(s)

    def violation(self, key, msg, data=None):
        if len(self.d["violations"]) < 200:
            self.d["violations"].append((str(key), msg, data))


def exc_str(ex):
    """Short description of an exception, with the innermost library frame"""
    tb = traceback.extract_tb(ex.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/autosar/" in fr.filename:
            where = f" at {os.path.basename(fr.filename)}:{fr.name}"
            break
    return f"{type(ex).__name__}: {str(ex)[:200]}{where}"


def guarded(func, *args):
    """
    Verdict of one case.  An exception that escapes is a violation as well: no case
    of the unchanged tree raises one.  So is giving no answer.
    """
    try:
        with limited():
            return func(*args)
    except NoAnswer as ex:
        return str(ex)
    except Exception as ex:   # pylint: disable=broad-except
        return f"raised {exc_str(ex)} [{traceback.format_tb(ex.__traceback__)[-1].strip()[:200]}]"
