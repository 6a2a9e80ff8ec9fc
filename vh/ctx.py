"""Per-worker context: randomness, observations, violations."""
import contextlib
import hashlib
import json
import os
import random
import shutil
import signal
import tempfile
import time
import traceback
from pathlib import Path


class Violation(Exception):
    """Raised (and recorded) when an oracle refutes the property."""


class HangDetected(BaseException):
    """Raised by the CPU-time watchdog inside a case."""


class Skip(Exception):
    """The generated case is outside the property's domain."""


def digest(obj) -> str:
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


class Ctx:
    def __init__(self, prop: str, tier: str, seed: int, shard: int, nshards: int, scratch: Path, budget: float):
        self.prop, self.tier, self.seed, self.shard, self.nshards = prop, tier, seed, shard, nshards
        self.scratch_root = scratch
        self.quick = tier == "quick"
        self.t0 = time.monotonic()
        self.budget = budget
        self.case = -1
        self.rng = random.Random(0)
        self.evaluations = 0
        self.distinct_set: set[str] = set()
        self.counters: dict[str, int] = {}
        self.samples: list = []
        self.violations: list[dict] = []
        self.errors: list[str] = []
        self.skipped = 0
        self.case_log: dict = {}
        self._dirs: list[Path] = []
        self.max_violations = 3

    # -- cases -----------------------------------------------------------------------------
    def begin(self, case: int) -> None:
        self.case = case
        self.rng = random.Random(f"{self.seed}|{self.prop}|{self.tier}|{case}")
        self.case_log = {}

    def sub_rng(self, *parts) -> random.Random:
        return random.Random("|".join(map(str, (self.seed, self.prop, self.tier, self.case) + parts)))

    def out_of_time(self) -> bool:
        return time.monotonic() - self.t0 > self.budget

    def dir(self, name: str = "d") -> Path:
        d = Path(tempfile.mkdtemp(prefix=name + "-", dir=self.scratch_root))
        self._dirs.append(d)
        return d

    def cleanup_case(self) -> None:
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []

    # -- observations ----------------------------------------------------------------------
    def evaluated(self, n: int = 1) -> None:
        self.evaluations += n

    def distinct(self, *key) -> None:
        self.distinct_set.add(digest(key))

    def count(self, name: str, n: int = 1) -> None:
        self.counters[name] = self.counters.get(name, 0) + n

    def peak(self, name: str, n: int) -> None:
        self.counters[name] = max(self.counters.get(name, 0), n)

    def sample(self, obj) -> None:
        if len(self.samples) < 3:
            self.samples.append(obj)

    def note(self, **kw) -> None:
        """Details of the running case, stored with a violation."""
        self.case_log.update(kw)

    # -- verdicts --------------------------------------------------------------------------
    def record(self, msg: str, mech: str | None = None, **detail) -> None:
        self.violations.append(dict(case=self.case, msg=msg[:2000], mech=mech or "unclassified",
                                    detail=_plain({**self.case_log, **detail})))

    def fail(self, msg: str, mech: str | None = None, **detail):
        self.record(msg, mech, **detail)
        raise Violation(msg)

    def check(self, cond, msg: str, mech: str | None = None, **detail) -> None:
        if not cond:
            self.fail(msg, mech, **detail)

    @contextlib.contextmanager
    def cpu_limit(self, seconds: float, what: str, mech: str | None = None):
        """Bounded progress: the operation must finish within this much CPU time (not wall-clock)."""

        def handler(signum, frame):
            raise HangDetected(what)

        old = signal.signal(signal.SIGPROF, handler)
        prev = signal.setitimer(signal.ITIMER_PROF, seconds)
        try:
            yield
        except HangDetected:
            where = traceback.format_exc().splitlines()[-8:]
            signal.setitimer(signal.ITIMER_PROF, 0)
            self.record(f"no progress after {seconds} s of CPU time: {what}", mech or "hang", where=where)
            self.violations[-1]["hang"] = True
            raise Violation(what)  # pylint: disable=raise-missing-from
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
            if prev[0] > 0:
                signal.setitimer(signal.ITIMER_PROF, max(prev[0], 1.0))

    def result(self) -> dict:
        return dict(evaluations=self.evaluations, distinct=sorted(self.distinct_set), counters=self.counters,
                    samples=_plain(self.samples), violations=self.violations, errors=self.errors,
                    skipped=self.skipped, wall=time.monotonic() - self.t0)


def _plain(obj, depth: int = 0):
    if depth > 8:
        return repr(obj)[:200]
    if isinstance(obj, dict):
        return {str(k)[:200]: _plain(v, depth + 1) for k, v in list(obj.items())[:200]}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [_plain(v, depth + 1) for v in list(obj)[:200]]
    if isinstance(obj, (int, float, bool)) or obj is None:
        return obj
    if isinstance(obj, str):
        return obj[:2000]
    return repr(obj)[:1000]


def blame(exc: BaseException) -> str:
    """'repo' if the exception arose in code under test, 'harness' if in our own code."""
    repo = os.path.realpath(os.environ.get("VH_REPO", "/repo")) + "/"
    verif = str(Path(__file__).resolve().parent.parent) + "/"
    last = "harness"
    seen = False
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(repo):
            last, seen = "repo", True
        elif f.startswith(verif):
            last, seen = "harness", True
        tb = tb.tb_next
    if not seen:
        # pool workers attach the remote traceback as text
        cause = "".join(traceback.format_exception(exc))
        return "repo" if repo in cause else "harness"
    if last == "harness":
        # A signature mismatch on a call into the code under test is raised in our frame: that is our problem.
        return "harness"
    return last
