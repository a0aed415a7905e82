"""What a property module sees while one case runs: the violation type and the recorder of a run."""
import hashlib
import os
import traceback


class Violation(Exception):
    """The property does not hold. `sig` names the failure narrowly enough to tell two failures apart."""

    def __init__(self, sig, message=""):
        super().__init__(f"{sig}: {message}")
        self.sig = sig
        self.message = message


class Ctx:
    """Counters and the running digest of one simulated execution."""

    def __init__(self, shim=None):
        self.counts = {}
        self.states = set()
        self.steps = 0
        self.checks = 0
        self._digest = hashlib.sha256()
        self.shim = shim
        self.trace = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fault(self, kind, n=1):
        self.count("fault." + kind, n)

    def event(self, *parts):
        text = "|".join(map(str, parts))
        self._digest.update(text.encode("utf-8", "replace") + b"\n")
        if len(self.trace) < 4000:
            self.trace.append(text[:200])

    def state(self, *parts):
        """Marks an abstract state as reached (coverage measure, never a verdict)."""
        if len(self.states) < 400:
            h = hashlib.sha256("\x1f".join(map(str, parts)).encode()).digest()
            self.states.add(int.from_bytes(h[:6], "big"))

    def check(self, ok, sig, message=""):
        self.checks += 1
        if not ok:
            raise Violation(sig, message() if callable(message) else message)

    def digest(self):
        return self._digest.hexdigest()[:16]


def repo_site(exc):
    """file:function of the innermost frame of the tree under test (or of its compiled modules)."""
    site = "?"
    for frame in traceback.extract_tb(exc.__traceback__):
        name = frame.filename
        if "mmcore" in name or name.endswith(".pyx"):
            site = os.path.basename(name) + ":" + frame.name
    return site


def exception_violation(exc):
    tb = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-6:])
    return Violation(f"unexpected-exception:{type(exc).__name__}@{repo_site(exc)}", tb[-1500:])
