"""Stateless exploration of choice sequences, coverage accounting, parallel driver, reporting."""
import contextlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

from mc import REPO, VERIF

OUT = VERIF if REPO == "/repo" else REPO + "_out"


class Violation(Exception):
    def __init__(self, message, **detail):
        super().__init__(message)
        self.message, self.detail = message, detail


class Nondeterminism(Exception):
    """Replaying a prefix of choices met a different choice point: an error of the harness."""


class Truncated(Exception):
    """A path exceeded the bound on choice points (retry loops)."""


class Chooser:
    def __init__(self, prefix=(), limit=None):
        self.prefix, self.trace, self.limit = list(prefix), [], limit
        self.weight = 1.0

    def __call__(self, n, weights=None, what=""):
        return self.pick(n, weights, what)

    def pick(self, n, weights=None, what=""):
        if weights is not None:
            alive = [i for i in range(n) if weights[i] > 0]
        else:
            alive = list(range(n))
        m = len(alive)
        if m == 1:
            k = 0
        else:
            i = len(self.trace)
            if self.limit is not None and i >= self.limit:
                raise Truncated()
            if i < len(self.prefix):
                want_m, k = self.prefix[i]
                if want_m != m or k >= m:
                    raise Nondeterminism("choice point %d: %d alternatives, expected %d (%s)" % (i, m, want_m, what))
            else:
                k = 0
            self.trace.append((m, k))
        j = alive[k]
        self.weight *= (weights[j] if weights is not None else 1.0 / m)
        return j

    def of(self, options, weights=None, what=""):
        return options[self.pick(len(options), weights, what)]

    @property
    def choices(self):
        return [k for _, k in self.trace]


def explore(run, limit=None, max_deviations=None):
    """Yield (chooser, outcome) for every choice sequence of run(chooser).

    outcome is None for a truncated path.  With max_deviations, only sequences with at most that
    many non-default (non-zero) choices are enumerated.
    """
    stack = [[]]
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix, limit)
        try:
            out = run(ch)
            truncated = False
        except Truncated:
            out, truncated = None, True
        if len(ch.trace) < len(prefix):
            raise Nondeterminism("replay ended after %d of %d choices" % (len(ch.trace), len(prefix)))
        ch.truncated = truncated
        yield ch, out
        base = sum(1 for _, k in prefix if k)
        if max_deviations is not None and base >= max_deviations:
            continue
        for i in range(len(ch.trace) - 1, len(prefix) - 1, -1):
            m, _ = ch.trace[i]
            for alt in range(m - 1, 0, -1):
                stack.append(ch.trace[:i] + [(m, alt)])


class Coverage:
    """What one unit of work covered; merged over units."""

    def __init__(self):
        self.states, self.transitions, self.executions, self.truncated = 0, 0, 0, 0
        self.outcomes = set()
        self.samples = []
        self.extra = {}

    def sample(self, s, cap=2):
        if len(self.samples) < cap:
            self.samples.append(s)

    def add(self, name, k=1):
        self.extra[name] = self.extra.get(name, 0) + k

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.executions += o.executions
        self.truncated += o.truncated
        if len(self.outcomes) < 200000:
            self.outcomes |= o.outcomes
        for s in o.samples:
            self.sample(s, 4)
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        out, err = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = _Null()
        try:
            yield
        finally:
            sys.stdout, sys.stderr = out, err


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


UNIT_TIMEOUT = 300
QUICK_BUDGET = 780      # seconds after which a quick run reports what it covered; today's tree needs a tenth of it


def run_unit(check, item):
    """Run one unit; returns ('ok', Coverage) | ('violation', message, detail) | ('error', text)."""
    from mc import rng
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(UNIT_TIMEOUT)
    rng._active = None
    try:
        with quiet():
            cov = check.run(item)
        return ("ok", cov)
    except Violation as v:
        return ("violation", v.message, v.detail)
    except Nondeterminism as e:
        # every draw, thread switch and input is controlled: a different continuation means state of an earlier run survived
        return ("violation", "the same inputs and draws led to different behaviour (hidden state survives between runs): %s" % e,
                {"traceback": traceback.format_exc()[-2000:]})
    except Hang:
        return ("violation", "the operation did not terminate within %d s" % UNIT_TIMEOUT,
                {"traceback": traceback.format_exc()[-3000:]})
    except RecursionError:
        return ("violation", "the code under test recursed without end", {"traceback": traceback.format_exc()[-1500:]})
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        # an exception that passes through the code under test is its failure to provide the behaviour
        in_repo = any(f.filename.startswith(REPO + "/") for f in tb)
        text = traceback.format_exc()
        if in_repo:
            return ("violation", "unexpected %s: %s" % (type(e).__name__, e), {"traceback": text[-3000:]})
        if isinstance(e, (AttributeError, TypeError, ValueError, LookupError, ArithmeticError)):
            # the oracle could not evaluate what the code returned: not of the promised shape (never happens on the unchanged tree)
            return ("violation", "a result does not have the promised form: %s: %s" % (type(e).__name__, e), {"traceback": text[-3000:]})
        return ("error", text)
    finally:
        signal.alarm(0)
        rng._active = None


_CHECK = None


def _pool_unit(item):
    return item, run_unit(_CHECK, item)


def _pool_chunk(items):
    out = []
    for item in items:
        out.append(_pool_unit(item))
        if out[-1][1][0] != "ok":
            break
    return out


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line[len("known: property=%s " % pid):])
    return out


def main(check, pid, tier, replay=None, procs=None):
    global _CHECK
    _CHECK = check
    global UNIT_TIMEOUT
    os.environ["MC_TIER"] = tier
    if tier != "quick":
        UNIT_TIMEOUT = 7200
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if replay:
        items = [json.load(open(replay))["item"]]
    else:
        items = list(check.items(tier))
    total, violations, errors = Coverage(), [], []
    if procs is None:
        procs = min(8, os.cpu_count() or 1)
    if getattr(check, "SERIAL", False) or len(items) == 1:
        procs = 1
    if procs > 1:
        import multiprocessing
        ctx = multiprocessing.get_context("fork")
        # interleave so that expensive neighbouring units spread over workers
        chunk = max(1, min(32, len(items) // (procs * 8) or 1))
        if getattr(check, "MAXTASKS", None):
            chunk = 1
        with ctx.Pool(procs, maxtasksperchild=getattr(check, "MAXTASKS", None)) as pool:
            chunks = [items[i:i + chunk] for i in range(0, len(items), chunk)]
            results = pool.imap_unordered(_pool_chunk, chunks)
            left = len(items)
            for _ in chunks:
                try:
                    got = results.next(timeout=None if tier != "quick" else max(1.0, t0 + QUICK_BUDGET - time.time()))
                except multiprocessing.TimeoutError:
                    total.add("units_cut_short", left)
                    pool.terminate()
                    break
                left -= len(got)
                if not all(_handle(item, res, total, violations, errors) for item, res in got):
                    pool.terminate()
                    break
    else:
        for item in items:
            if not _handle(*_pool_unit(item), total, violations, errors):
                break
    if hasattr(check, "finish") and not violations and not errors and not replay:
        try:
            check.finish(total)
        except Violation as v:
            violations.append((None, v.message, v.detail))
    wall = time.time() - t0
    cov = {"states": total.states, "transitions": total.transitions,
           "traces_validated_against_impl": total.executions,
           "samples": total.samples, "exhaustive": not violations and not errors and not total.extra.get("units_cut_short"),
           "units": len(items), "distinct_outcomes": len(total.outcomes),
           "truncated_retry_paths": total.truncated, "bounds": check.bounds(tier)}
    cov.update(total.extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(check, "LEVEL", "model_checking"),
          "coverage": cov, "assumptions": getattr(check, "ASSUMPTIONS", []), "wall_s": round(wall, 3),
          "violations": len(violations)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_js)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s: units=%d states=%d transitions=%d executions=%d outcomes=%d truncated=%d %s wall=%.1fs" % (
        pid, tier, len(items), total.states, total.transitions, total.executions, len(total.outcomes), total.truncated,
        " ".join("%s=%s" % kv for kv in sorted(total.extra.items())), wall))
    if violations:
        item, msg, detail = violations[0]
        d = os.path.join(OUT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".json")
        with open(path, "w") as f:
            json.dump({"property": pid, "item": item, "message": msg, "detail": detail,
                       "rerun": "cd /verif && ./check %s --replay %s" % (pid, path)}, f, indent=1, default=_js)
        print("  " + msg)
        for k, v in detail.items():
            print("    %s: %s" % (k, str(v)[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0][1])
        return 2
    return 0


def _js(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


def _handle(item, res, total, violations, errors):
    if res[0] == "ok":
        total.merge(res[1])
        return True
    if res[0] == "violation":
        violations.append((item, res[1], res[2]))
        return False
    errors.append((item, res[1]))
    return False


# ---------------------------------------------------------------- assertions used by the checks
def need(cond, message, **detail):
    if not cond:
        raise Violation(message, **detail)


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def need_close(a, b, message, rtol=1e-9, atol=1e-9, **detail):
    try:
        ok = close(a, b, rtol, atol)
    except (TypeError, ValueError):
        ok = False
    if not ok:
        raise Violation(message, got=a, expected=b, **detail)
