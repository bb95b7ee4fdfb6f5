"""
Run-time monitoring core: cases, monitors, violations, evidence.

A check module defines
    PROPERTY = "C01"
    RULE     = text: how cases are made, what makes one non-trivial
    def plan(tier) -> list of (scenario_name, count)
    SCENARIOS = {name: function(case)}
and optionally REQUIRED = {monitor name: minimum number of observations}.

Each case runs the real EMC2 code (imported from /repo's working tree) under a generated workload and lets
monitors observe.  `case.see(monitor, n)` counts observations, `case.state(...)` records a distinct observed state,
`case.fail(monitor, message, ...)` reports a violation.
"""
import collections
import contextlib
import io
import json
import os
import signal
import sys
import time
import traceback
import zlib

import numpy as np

REPO = os.environ.get("RV_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


rtol_floor = 0.0     # raised by a workload whose inputs are in single precision


class Violation(Exception):
    """A monitor saw the property broken (used to leave a case early)."""


class Stuck(BaseException):
    """A case ran for CASE_LIMIT seconds (they normally take a few)."""


CASE_LIMIT = int(os.environ.get("RV_CASE_LIMIT", "270"))


def _alarm(*_):
    raise Stuck()


class Inconclusive(Exception):
    """The harness itself could not do what it meant to do."""


def _short(x, n=400):
    s = str(x)
    return s if len(s) <= n else s[:n] + "..."


class Case:
    def __init__(self, prop, scenario, index, seed, tier):
        self.prop, self.scenario, self.index, self.seed, self.tier = prop, scenario, index, seed, tier
        self.entropy = [seed, zlib.crc32(prop.encode()), zlib.crc32(scenario.encode()), index]
        self.rng = np.random.default_rng(np.random.SeedSequence(self.entropy))
        self.np_seed = int(np.random.SeedSequence(self.entropy + [7]).generate_state(1)[0])
        self.seen = collections.Counter()
        self.states = set()
        self.violations = []
        self.info = {}
        self.nontrivial = False

    # -- monitors -----------------------------------------------------------
    def see(self, monitor, n=1):
        self.seen[monitor] += int(n)

    def state(self, *key):
        self.states.add("|".join(str(k) for k in key))

    def fail(self, monitor, message, key=None, **detail):
        self.violations.append(dict(monitor=monitor, message=_short(message, 2000), key=key or monitor,
                                    detail={k: _short(v) for k, v in detail.items()}))

    def check(self, cond, monitor, message, **detail):
        self.see(monitor)
        if not bool(cond):
            self.fail(monitor, message, **detail)
            return False
        return True

    def equal(self, monitor, actual, expected, rtol=1e-9, atol=0.0, what="", nan_equal=True, where=None,
              zero_is_nan=False):
        """Element-wise comparison of an observed array with the oracle's; counts every compared element."""
        a = np.asarray(actual, dtype=float)
        e = np.asarray(expected, dtype=float)
        if a.shape != e.shape:
            try:
                e = np.broadcast_to(e, a.shape)
            except ValueError:
                self.see(monitor)
                self.fail(monitor, f"{what}: shape {a.shape} != expected {e.shape}")
                return False
        rtol = max(rtol, rtol_floor)
        if rtol_floor and monitor.startswith(("ze", "empirical")):
            atol = max(atol, rtol_floor)      # dB
        if zero_is_nan:
            a = np.where(a == 0, np.nan, a)
            e = np.where(e == 0, np.nan, e)
        with np.errstate(all="ignore"):
            ok = np.abs(a - e) <= max(atol, 1e-290) + rtol * np.abs(e)   # subnormal numbers carry no digits
            ok |= (a == e)
        if nan_equal:
            ok |= np.isnan(a) & np.isnan(e)
        if where is not None:
            w = np.broadcast_to(where, a.shape)
            ok = ok | ~w
            n = int(w.sum())
        else:
            n = a.size
        self.see(monitor, n)
        if n and np.isfinite(e if where is None else e[w]).any():
            self.nontrivial = True
        if not ok.all():
            idx = tuple(int(i) for i in np.argwhere(~ok)[0]) if a.ndim else ()
            self.fail(monitor, f"{what}: {int((~ok).sum())} of {n} observed values differ from the oracle; first at "
                               f"{idx}: observed {a[idx]!r}, expected {e[idx]!r}")
            return False
        return True

    def raises(self, monitor, exc, func, *a, **k):
        self.see(monitor)
        try:
            func(*a, **k)
        except exc:
            self.nontrivial = True
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(monitor, f"expected {exc}, got {type(e).__name__}: {e}")
            return False
        self.fail(monitor, f"expected {exc}, but the request was accepted")
        return False

    def get(self, ds, name):
        """Read an output variable; a missing output is itself a violation."""
        if name not in ds.variables:
            self.fail("output-present", f"output '{name}' is missing")
            raise Violation(name)
        return ds[name]

    def to_json(self):
        return dict(scenario=self.scenario, index=self.index, seed=self.seed, tier=self.tier)


@contextlib.contextmanager
def quiet():
    """Silence the simulator's progress chatter (the monitors do not read it)."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def run_case(mod, scenario, index, seed, tier):
    import warnings
    warnings.simplefilter("ignore")
    global rtol_floor
    rtol_floor = 0.0
    case = Case(mod.PROPERTY, scenario, index, seed, tier)
    t0 = time.time()
    err = None
    np.random.seed(case.np_seed % (2 ** 32))
    old = np.seterr(all="ignore")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with quiet():
            mod.SCENARIOS[scenario](case)
    except Violation:
        pass
    except Inconclusive as e:
        err = f"{scenario}#{index}: inconclusive: {e}"
    except Stuck as e:
        f = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(os.path.join(REPO, "emc2"))]
        case.see("terminates")
        where = f" in {os.path.relpath(f[-1].filename, REPO)}:{f[-1].lineno} ({f[-1].name})" if f else ""
        if f:
            case.fail("terminates", f"no result after {CASE_LIMIT} s{where}", key="stuck")
        else:
            err = f"{scenario}#{index}: harness took over {CASE_LIMIT} s"
    except MemoryError as e:
        err = f"{scenario}#{index}: {e!r}"
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        repo_frames = [f for f in tb if os.path.abspath(f.filename).startswith(os.path.join(REPO, "emc2"))]
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if repo_frames:
            f = repo_frames[-1]
            case.see("no-unexpected-exception")
            case.fail("no-unexpected-exception",
                      f"{type(e).__name__}: {_short(e)} raised by emc2 ({os.path.relpath(f.filename, REPO)}:"
                      f"{f.lineno} in {f.name}) on valid input", key="exception:" + type(e).__name__, tb=text[-1500:])
        elif isinstance(e, OSError):
            err = f"{scenario}#{index}: harness error\n{text}"
        else:
            # deterministic on a given tree: the monitors could not even read the outputs (shape, dims, dtype, ...)
            case.see("well-formed-output")
            case.fail("well-formed-output", f"outputs could not be interpreted: {type(e).__name__}: {_short(e)}",
                      key="malformed:" + type(e).__name__, tb=text[-1500:])
    finally:
        signal.alarm(0)
        np.seterr(**old)
    return dict(scenario=scenario, index=index, seen=dict(case.seen), states=sorted(case.states),
                violations=case.violations, info=case.info, nontrivial=case.nontrivial or bool(case.states),
                err=err, wall=time.time() - t0)
