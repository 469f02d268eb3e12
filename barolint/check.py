"""Obligations, verdicts and reports."""

import builtins
import json
import os
import signal
import sys
import time
import traceback

from . import arrays, obs, reval, poly as P
from .context import Ctx, Missing, quiet, warm_ups, N, REPO
from .interp import Unsupported
from .poly import ONE, ZERO, AND, NOT, OR, atom, topoly, const
from .reify import reify
from .values import *
from .values import Num, Const

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


def alarm(sig, frame):
    raise Timeout()


class Run:
    """Outcome of one abstract evaluation."""

    def __init__(self, C, f, pre=ONE):
        I = C.I
        st = I.save()
        before = set(I.analysed)
        I.analysed = set()
        s0 = I.sites
        I.pc = pre
        n = len(I.raises), len(I.effects), len(I.events)
        try:
            v = I.alive(lambda: f(I))
            self.node = I.alive(lambda: obs.observe(I, v))
            if not I.pc.terms:
                self.node = obs.Node("num", ZERO)
            self.pc = I.pc
            self.changed = changed_cells(I, st[0])
            self.raises = I.raises[n[0]:]
            self.effects = I.effects[n[1]:]
            self.events = I.events[n[2]:]
        finally:
            self.functions = I.analysed
            self.sites = I.sites - s0
            I.analysed = before | I.analysed
            I.restore(st)


def changed_cells(I, heap):
    """Cells that outlive the evaluation and that it changed, except states (whose fields are cached)."""
    out = []
    for i, c in heap.items():
        d = I.heap.get(i, c)
        if d is c or isinstance(c, InstC) and c.cls.name == "State":
            continue
        if isinstance(c, FrameC) and isinstance(d, FrameC) and all(
                k in c.vars and (c.vars[k] is d.vars[k] or I.same(c.vars[k], d.vars[k])) for k in d.vars):
            continue
        out.append(i)
    return out


def related(a, b):
    """Is one of two exception types the other or a base of it?"""
    x, y = (getattr(builtins, n or "", None) for n in (a, b))
    if not isinstance(x, type) or not isinstance(y, type):
        return True
    return issubclass(x, y) or issubclass(y, x)


class Obligation:
    def __init__(self, label, rule, where):
        self.label, self.rule, self.where = label, rule, where
        self.status = None
        self.detail = ""

    def json(self):
        return {"obligation": self.label, "rule": self.rule, "where": self.where, "status": self.status,
                "detail": self.detail[:600]}


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obl = []
        self.functions = set()
        self.sites = 0
        self.models = 0
        self.t0 = time.time()
        self.size = None            # number of latitude intervals (None: any)
        self.limit = 300 if tier == "quick" else 600
        self.budget = 660 if tier == "quick" else 7200     # for the whole check

    # contexts

    def ctx(self, **kw):
        kw.setdefault("size", self.size)
        return Ctx(**kw)

    # recording

    def add(self, label, rule, where=""):
        o = Obligation(label + (" [%d latitudes]" % (self.size + 1) if self.size else ""), rule, where)
        self.obl.append(o)
        return o

    def note_run(self, r):
        self.functions |= {f for f in r.functions if not f.startswith(("obligation", "spec", "spharm"))}
        self.sites += r.sites

    def where(self, C, anchor):
        """file:line (function) of an anchored public name."""
        if anchor is None:
            return ""
        try:
            v = quiet(C.I, lambda: C.attr(anchor))
        except (Missing, Unsupported):
            raise Missing("anchor %s" % anchor)
        return describe_anchor(C, v, anchor)

    # rules

    def equiv(self, C, label, anchor, code, spec, pre=ONE, fixed=None, raises=True, values=True, may_fail=False,
              rule="value numbering: the function's value graph equals the specified one"):
        """The value (and the raising condition) of `code` equals that of `spec` under `pre`."""
        o = self.add(label, rule)
        try:
            o.where = self.where(C, anchor)
            rc = Run(C, code, pre)
            self.note_run(rc)
            rs = Run(C, spec, pre)
        except P.TooLarge as e:
            o.status, o.detail = "undecided", "construct outside the analysis: %s at %s" % (e, getattr(e, "loc", None))
            return o
        except Missing:
            raise
        except RecursionError as e:
            if os.environ.get("BAROLINT_DEBUG"):
                print([(f.name, f.lineno) for f in traceback.extract_tb(e.__traceback__)[-60:]])
            o.status, o.detail = "undecided", "recursion limit"
            return o
        if not rs.pc.terms and not may_fail:
            o.status = "undecided" if not rc.pc.terms else "violated"
            o.detail = "the specified expression always raises (%s)" % "; ".join(
                sorted({"%s at %s" % (r.exc, loc(r.loc)) for r in rs.raises}))
            return o
        if not raises and not rc.pc.terms:
            o.status, o.detail = "undecided", "always raises: %s" % "; ".join(
                sorted({"%s %s at %s" % (r.exc, r.msg, loc(r.loc)) for r in rc.raises}))
            return o
        if raises and not rs.pc.terms and not rc.pc.terms:
            want, got = {r.exc for r in rs.raises}, {r.exc for r in rc.raises}
            if "AssertionError" not in want and not any(related(a, b) for a in want for b in got):
                o.status = "violated"
                o.detail = "raises %s, specified: %s" % ("; ".join(sorted({"%s at %s" % (r.exc, loc(r.loc)) for r in rc.raises})),
                                                         ", ".join(sorted(want)))
                return o
        leaves = []
        if raises and rc.pc is not rs.pc and not obs.same_poly(rc.pc, rs.pc, pre):
            leaves.append(("<raises>", pre, obs.Node("num", rc.pc), obs.Node("num", rs.pc)))
        if values:
            both = AND(rc.pc, rs.pc) if rc.pc is not rs.pc else rc.pc
            obs.diff(rc.node, rs.node, both, "", leaves)
        self.settle(C, o, leaves, fixed, rc, rs)
        if rc.changed and o.status in ("proved", "indistinguishable") and hasattr(code, "env"):
            self.warm(C, o, code, spec, pre, fixed, raises, rc)
        return o

    def warm(self, C, o, code, spec, pre, fixed, raises, r0):
        """What evaluations leave behind must not affect later ones with other arguments."""
        I = C.I
        for label, other, when in warm_ups(code.env(), I.heap):
            st = I.save()
            try:
                I.pc = AND(pre, when)
                I.alive(lambda: code(I, other))
                pc = I.pc
                if not pc.terms:
                    continue
                rw = Run(C, code, pc)
            finally:
                I.restore(st)
            leaves = []
            if rw.pc is r0.pc or obs.same_poly(rw.pc, AND(r0.pc, pc), pc):
                obs.diff(rw.node, r0.node, rw.pc, "", leaves)
                if not leaves:
                    continue
            leaves = []
            rc = rw
            rs = Run(C, spec, pc)
            if raises and rc.pc is not rs.pc and not obs.same_poly(rc.pc, rs.pc, pc):
                leaves.append(("<raises>", pc, obs.Node("num", rc.pc), obs.Node("num", rs.pc)))
            obs.diff(rc.node, rs.node, AND(rc.pc, rs.pc), "", leaves)
            self.settle(C, o, leaves, fixed, rc, rs)
            if o.status not in ("proved", "indistinguishable"):
                o.detail = "after an evaluation with %s: %s" % (label, o.detail)
                break

    def eq(self, C, label, anchor, code, spec, vars=None, **kw):
        """equiv() on two snippets"""
        v = vars or {}
        return self.guarded(label, lambda: self.equiv(
            C, label, anchor, C.code(code, **v) if isinstance(code, str) else code,
            C.code(spec, **v) if isinstance(spec, str) else spec, **kw))

    def settle(self, C, o, leaves, fixed=None, rc=None, rs=None):
        if not leaves:
            o.status, o.detail = "proved", "identical normal forms"
            return o
        seeds = 8 if self.tier == "quick" else 24
        known = reval.unmodelled([l[3] for l in leaves] + ([rs.pc, rs.node] if rs is not None else []))
        extra = [reval.unmodelled([l[2]]) - known for l in leaves]
        # a difference due to an operation that has no meaning here decides nothing
        for some in ([l for l, x in zip(leaves, extra) if not x], [l for l, x in zip(leaves, extra) if x]):
            if some:
                verdict, info = reval.distinguish(some, seeds, fixed, self.seed)
                self.models += seeds * 2
                if verdict != "equal":
                    break
        if verdict == "different":
            path, d, a, b, cond = info
            ops = reval.unmodelled([a]) - known
            o.status = "undecided" if ops else "violated"
            if path == "<raises>":
                o.detail = "raises under a different condition: code raises [%s], specified: raises [%s]" % (
                    "; ".join(sorted({"%s at %s" % (r.exc, loc(r.loc)) for r in rc.raises})) if rc else "",
                    "; ".join(sorted({"%s" % (r.exc,) for r in rs.raises})) if rs else "")
            else:
                o.detail = "result%s: code %s; specified %s" % (path, obs.show_node(a, 400), obs.show_node(b, 400))
            if ops:
                o.detail = "depends on operations without a model (%s): %s" % (
                    ", ".join(sorted(" ".join(x) for x in ops)), o.detail)
        elif verdict == "equal":
            o.status, o.detail = "indistinguishable", "normal forms differ, terms agree in %s random models" % info
        else:
            o.status, o.detail = "undecided", "%s: %s" % (verdict, info)
        return o

    def holds(self, C, label, anchor, cond, rule, detail="", where=None):
        """A fact found (not found) in the value graph."""
        o = self.add(label, rule, where if where is not None else self.where(C, anchor) if C is not None else "")
        if cond is None:
            o.status, o.detail = "undecided", detail
        else:
            o.status, o.detail = ("proved" if cond else "violated"), detail
        return o

    def guarded(self, label, f):
        """Run a rule; constructs outside the analysis leave it undecided."""
        n = len(self.obl)
        msg = None
        t0 = time.time()
        left = int(self.budget - (t0 - self.t0))
        if left < 1:
            o = self.add(label, "")
            o.status, o.detail = "undecided", "time budget of the check used up"
            return o
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(min(self.limit, left))
        try:
            return f()
        except Missing:
            raise
        except Timeout:
            msg = "no answer within %d s" % min(self.limit, left)
        except P.TooLarge as e:
            msg = "construct outside the analysis: %s at %s" % (e, loc(getattr(e, "loc", None)))
        except RecursionError:
            msg = "recursion limit"
        except Exception as e:
            msg = "analysis error %s: %s at %s" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1])
        finally:
            signal.alarm(0)
            if os.environ.get("BAROLINT_TRACE"):
                import resource
                print("# %6.1f s %5d MB %s" % (time.time() - t0, resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024, label), flush=True)
        o = self.obl[n] if len(self.obl) > n else self.add(label, "")
        o.status, o.detail = "undecided", msg
        return o

    # report

    def finish(self, known=()):
        bad = [o for o in self.obl if o.status == "violated"]
        und = [o for o in self.obl if o.status in ("undecided", None)]
        ok = [o for o in self.obl if o.status in ("proved", "indistinguishable")]
        new, old = [], []
        for o in bad:
            (old if any(k in ("%s | %s" % (o.label, o.detail)) for k in known) else new).append(o)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Static value-graph analysis of the current source of the package; nothing of it is executed. "
                               "%d obligations: %d decided by identical normal forms, %d by random interpretation of the "
                               "two terms, %d undecided, %d violated." % (
                                   len(self.obl), sum(o.status == "proved" for o in self.obl),
                                   sum(o.status == "indistinguishable" for o in self.obl), len(und), len(bad)),
                "obligations": len(self.obl),
                "discharged": len(ok),
                "by_normal_form": sum(o.status == "proved" for o in self.obl),
                "by_random_interpretation": sum(o.status == "indistinguishable" for o in self.obl),
                "undecided": [o.json() for o in und],
                "functions_analysed": sorted(self.functions),
                "functions_count": len(self.functions),
                "expressions_analysed": self.sites,
                "rules": [o.json() for o in self.obl],
                "checker_cmd": "python -m barolint %s" % self.pid,
                "trusted_base": TRUSTED,
            },
            "assumptions": TRUSTED,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        out = os.environ.get("BAROLINT_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, self.pid + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        shown = ("violated", "undecided", "indistinguishable") if os.environ.get("BAROLINT_VERBOSE") else ("violated", "undecided")
        for o in self.obl:
            if o.status in shown:
                print("%s [%s] %s" % (o.status.upper(), o.label, o.where))
                print("    rule: %s" % o.rule)
                print("    %s" % o.detail)
        print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d expressions, %.1f s" % (
            self.pid, len(self.obl), len(ok), len(und), len(bad), len(self.functions), self.sites, time.time() - self.t0))
        for o in old:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, o.label))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if not ok:
            print("no obligation could be decided", file=sys.stderr)
            return 2
        return 0


TRUSTED = [
    "the value-graph analysis in /verif/barolint (transfer functions of the Python subset and of numpy, scipy, xarray, "
    "pyspharm and matplotlib operations used by the package)",
    "real arithmetic: rounding is not modelled except where a rule says so",
    "spherical harmonic transforms are uninterpreted linear operators",
    "grids have at least 12 latitudes, or 5 or 6 where rules are also applied to small grids",
]


def loc(l):
    if not l:
        return "?"
    f = l[0]
    if f.startswith(REPO):
        f = os.path.relpath(f, REPO)
    return "%s:%s %s" % (f, l[1], l[2])


def describe_anchor(C, v, anchor):
    f = v
    while True:
        if isinstance(f, (Bound,)):
            f = f.func
        elif isinstance(f, (ClsMeth, StaticMeth, Memo)):
            f = f.f
        elif isinstance(f, Prop):
            f = f.fget
        elif isinstance(f, Partial):
            f = f.func
        else:
            break
    if isinstance(f, (Func, Cls)):
        mod = C.I.modules.get(f.module) if isinstance(f.module, str) else f.module
        path = getattr(mod, "path", None) or str(f.module)
        if path.startswith(REPO):
            path = os.path.relpath(path, REPO)
        return "%s:%d %s" % (path, f.node.lineno, anchor)
    return anchor
