"""C31 Fit-parameter history: undo restores exactly the earlier state."""
import math

import elli.fitting  # noqa: F401  (loads the plotting and widget libraries once)
import pandas as pd

from props.common import make_result
from symx.harness import Registry

R = Registry()
BOUNDS = ("every sequence of 2 operations out of 12, and of 3 where the last one reads the history (thorough: all of 3 and 4) from a start with two parameters and an empty or one-entry history, with symbolic values and bounds; "
          "the operation at each step is itself a symbolic choice; four given sequences of 16 and 17 operations; a dozen parameters with reverts to any position; long histories against every maximum length from 1 to 4 and the default 50")
OUTSIDE = "parameters given by expressions; values on or outside their bounds (lmfit clips them); the internal minimiser coordinates of lmfit"
ASSUMPTIONS = ["lmfit's own Parameter and Parameters classes are executed symbolically from their installed source, without the internal minimiser coordinates"]

OPS = ("value a", "value b", "add", "merge", "commit", "undo", "revert last", "revert first", "revert outside", "direct", "remove", "maximum")


def params(h):
    return h.mod("elli.fitting.params_hist").ParamsHist()


def number(h, name):
    return h.real(name, lo=-1, hi=1)


def low(h, name):
    return h.real(name, lo=-3, hi=-2)


def high(h, name):
    return h.real(name, lo=2, hi=3)


INF = float("inf")


class Model:
    """what the operations are documented to do, on plain dictionaries name -> (value, min, max, vary)"""

    def __init__(self, maximum=50):
        self.cur, self.hist, self.max = {}, [], maximum

    def commit(self):
        if len(self.hist) >= self.max:
            self.hist = self.hist[1:]
        self.hist.append(dict(self.cur))


def bound(h, name, got, want):
    if isinstance(want, float) and math.isinf(want):
        h.true(name, isinstance(got, float) and got == want)
    else:
        h.eq(name, got, want)


def same_state(h, name, got, want):
    h.true(f"{name} names", set(got) == set(want))
    for k, (v, lo, hi, vary) in want.items():
        if k in got:
            h.eq(f"{name} {k}", got[k].value, v)
            bound(h, f"{name} {k} min", got[k].min, lo)
            bound(h, f"{name} {k} max", got[k].max, hi)
            h.true(f"{name} {k} vary", got[k].vary is vary and got[k].name == k)


def check(h, name, P, M):
    same_state(h, name, P, M.cur)
    h.true(f"{name} length", P.history_len == len(M.hist) == len(P.history) and P.history_len <= P.max_history_len)
    for i, (g, w) in enumerate(zip(P.history, M.hist)):
        same_state(h, f"{name} history {i}", g, w)


def step(h, i, op, P, M):
    v = number(h, f"v{i}")
    if op in ("value a", "value b"):
        k = op[-1]
        if k not in M.cur:
            return
        P.update_value(k, v)
        M.commit()
        M.cur[k] = (v,) + M.cur[k][1:]
    elif op == "add":
        lo, hi = low(h, f"lo{i}"), high(h, f"hi{i}")
        P.tracked_add(f"n{i}", v, min=lo, max=hi, vary=False)
        M.commit()
        M.cur[f"n{i}"] = (v, lo, hi, False)
    elif op == "merge":
        q = h.mod("elli.fitting.params_hist").Parameters()
        lo = low(h, f"lo{i}")
        q.add("a", v, min=lo, vary=False)
        q.add("m", 2 * v)
        P.update_params(q)
        M.commit()
        M.cur = {**M.cur, "a": (v, lo, INF, False), "m": (2 * v, -INF, INF, True)}
        # the object given stays the caller's
        q["a"].value = v / 3
        q["m"].max = 2.5
    elif op == "commit":
        P.commit()
        M.commit()
    elif op == "undo":
        before = dict(M.cur)
        r = P.pop()
        if M.hist:
            same_state(h, f"{i} undo returns", r, before)
            M.cur = M.hist.pop()
            # the returned state is the caller's
            for k in list(r):
                r[k].value = v
            r.add("z", v)
        else:
            h.true(f"{i} nothing to undo", r is None)
    elif op.startswith("revert"):
        n = len(M.hist)
        pos = {"last": -1, "first": 0}.get(op.split()[1])
        if pos is None:
            for p in (n, -n - 1, n + 3):
                P.revert(p)
        else:
            P.revert(pos)
            if n:
                M.cur = dict(M.hist[pos])
    elif op == "direct":
        # changes which are not tracked
        lo = low(h, f"lo{i}")
        for k in list(M.cur):
            P[k].value = v
            P[k].min = lo
            M.cur[k] = (v, lo) + M.cur[k][2:]
        P.add(f"d{i}", v)
        M.cur[f"d{i}"] = (v, -INF, INF, True)
    elif op == "remove":
        if "a" in M.cur:
            del P["a"]
            M.cur = {k: w for k, w in M.cur.items() if k != "a"}
    elif op == "maximum":
        P.max_history_len = 1
        M.max = 1
        M.hist = M.hist[-1:]
    else:
        raise ValueError(op)


def choose(h, i, ops):
    """a symbolic choice"""
    s = h.integer(f"op{i}", 0, len(ops) - 1)
    for k in range(len(ops) - 1):
        if h.branch(s == k):
            return ops[k]
    return ops[-1]


def start(h, committed):
    P, M = params(h), Model()
    a, b, lo, hi = number(h, "a"), number(h, "b"), low(h, "alo"), high(h, "ahi")
    P.add("a", a, min=lo, max=hi)
    P.add("b", b, vary=False)
    M.cur = {"a": (a, lo, hi, True), "b": (b, -INF, INF, False)}
    if committed:
        c = number(h, "c")
        P.update_value("a", c)
        M.commit()
        M.cur["a"] = (c, lo, hi, True)
    return P, M


READING = ("undo", "revert last", "revert first", "maximum")


def sequence(h, prefix, n, committed, last=OPS):
    P, M = start(h, committed)
    check(h, "start", P, M)
    for i in range(n):
        op = prefix[i] if i < len(prefix) else choose(h, i, last if i == n - 1 else OPS)
        step(h, i, op, P, M)
        # shorter sequences are cases of their own
        if i == n - 1 or n < 3:
            check(h, f"{i} {op}", P, M)


for _a in OPS:
    R.case(name="sequences", first=_a, n=2, committed=True, opts={"max_paths": 400, "timeout": 400})(lambda h, first, n, committed: sequence(h, [first], n, committed))
    R.case(name="sequences", first=_a, n=2, committed=False, opts={"max_paths": 400, "timeout": 400})(lambda h, first, n, committed: sequence(h, [first], n, committed))
    R.case(name="sequences ending with the history read", first=_a, n=3, committed=False, opts={"max_paths": 400, "timeout": 400})(lambda h, first, n, committed: sequence(h, [first], n, committed, READING))
    R.case(name="sequences", first=_a, n=3, committed=False, quick=False, opts={"max_paths": 400, "timeout": 600})(lambda h, first, n, committed: sequence(h, [first], n, committed))
    for _b in OPS:
        R.case(name="longer", first=_a, second=_b, n=4, quick=False, opts={"max_paths": 400, "timeout": 800})(lambda h, first, second, n: sequence(h, [first, second], n, True))


@R.case(maximum=1)
@R.case(maximum=2)
@R.case(maximum=4)
@R.case(maximum=3, quick=False)
def length(h, maximum):
    """never longer than the maximum, the oldest go first, and everything left can be undone in reverse order"""
    P, M = start(h, False)
    P.max_history_len = maximum
    M.max = maximum
    for i in range(6):
        v = number(h, f"v{i}")
        P.update_value("a", v)
        M.commit()
        M.cur["a"] = (v,) + M.cur["a"][1:]
        check(h, f"change {i}", P, M)
    h.true("full", P.history_len == maximum == P.max_history_len)
    # a longer maximum keeps what is there, a shorter one keeps the newest
    P.max_history_len = maximum + 2
    M.max = maximum + 2
    check(h, "longer", P, M)
    for i in range(3):
        P.commit()
        M.commit()
        check(h, f"commit {i}", P, M)
    n = max(1, maximum - 1)
    P.max_history_len = n
    M.hist, M.max = M.hist[-n:], n
    check(h, "shorter", P, M)
    for i in range(n):
        r = P.pop()
        same_state(h, f"undo {i} returns", r, M.cur)
        M.cur = M.hist.pop()
        check(h, f"undo {i}", P, M)
    h.true("nothing left", P.pop() is None)
    check(h, "after the last", P, M)


PROGRAMS = (
    "value a|value b|add|commit|revert first|value a|undo|undo|direct|value b|revert last|undo|undo|merge|undo|undo",
    "add|merge|remove|value b|undo|revert first|commit|direct|undo|revert outside|add|value a|maximum|value b|undo|undo|value a",
    "value a|commit|value a|commit|revert last|add|add|revert first|undo|value b|remove|undo|merge|merge|undo|undo|undo",
    "undo|direct|commit|undo|remove|add|undo|value a|value b|value a|value b|revert last|revert last|undo|undo|revert first|undo",
)


@R.case(program=0)
@R.case(program=1)
@R.case(program=2)
@R.case(program=3)
def long_sequences(h, program):
    """given sequences of 16 or 17 operations, the state compared after each"""
    P, M = start(h, True)
    for i, op in enumerate(PROGRAMS[program].split("|")):
        step(h, i, op, P, M)
        check(h, f"{i} {op}", P, M)


@R.case()
def many_parameters(h):
    """a model of a dozen parameters: a revert to any position restores every one of them"""
    P, M = params(h), Model()
    v = [number(h, f"v{i}") for i in range(12)]
    for i in range(12):
        P.add(f"p{i}", v[i], vary=i % 3 != 1)
        M.cur[f"p{i}"] = (v[i], -INF, INF, i % 3 != 1)
    order = [3, 7, 3, 0, 11, 5, 5, 1, 10, 2]
    for n, i in enumerate(order):
        w = v[(i + n + 1) % 12]
        P.update_value(f"p{i}", w)
        M.commit()
        M.cur[f"p{i}"] = (w,) + M.cur[f"p{i}"][1:]
    check(h, "changed", P, M)
    for pos in (4, 9, 0, -1, -10, 7, -3, 4):
        P.revert(pos)
        M.cur = dict(M.hist[pos])
        check(h, f"revert {pos}", P, M)
    for i in range(10):
        P.pop()
        M.cur = M.hist.pop()
        check(h, f"undo {i}", P, M)


@R.case()
def default_length(h):
    P = params(h)
    v = [number(h, f"v{i}") for i in range(3)]
    P.add("a", v[0])
    h.true("fifty", P.max_history_len == 50 and P.history_len == 0)
    for i in range(52):
        P.update_value("a", v[i % 3])
    h.true("limited", P.history_len == 50 == len(P.history))
    h.eq("oldest left", P.history[0]["a"].value, v[1])
    h.eq("newest", P.history[-1]["a"].value, v[2])
    h.eq("current", P["a"].value, v[0])
    P.clear_history()
    h.true("cleared", P.history_len == 0 and P.pop() is None)
    h.eq("current kept", P["a"].value, v[0])


@R.case()
def rejected(h):
    P, M = start(h, True)
    for bad in (0, -1, -50, 1.5, "3", None, 2.0):
        h.raises(f"maximum {bad!r}", ValueError, lambda: setattr(P, "max_history_len", bad))
        check(h, f"after {bad!r}", P, M)
    h.true("maximum kept", P.max_history_len == 50)


@R.case()
def values_in_use(h):
    """the restored object is the same object, so a model using it sees the values"""
    P, M = start(h, False)
    v = number(h, "v")
    P.update_value("a", v)
    d = P.valuesdict()
    h.eq("dict", [d["a"], d["b"]], [v, M.cur["b"][0]])
    P.pop()
    d = P.valuesdict()
    h.eq("dict after undo", [d["a"], d["b"]], [M.cur["a"][0], M.cur["b"][0]])
    P.update_value("a", v)
    c = P.copy()
    c["a"].value = v / 2
    h.eq("copies are separate", P["a"].value, v)
    h.eq("copies carry values", [c["a"].value, c["b"].value], [v / 2, M.cur["b"][0]])


BUTTONS = ("enter a", "enter b", "fit", "undo", "redo", "vary")


@R.case(n=3, kind="rho", first="enter a")
@R.case(n=3, kind="rho", first="fit")
@R.case(n=2, kind="rho", first=None)
@R.case(n=2, kind="mueller", first=None)
@R.case(n=4, kind="rho", first="enter a", quick=False, opts={"max_paths": 2000, "timeout": 800})
@R.case(n=4, kind="rho", first="fit", quick=False, opts={"max_paths": 2000, "timeout": 800})
@R.case(n=3, kind="mueller", first="enter b", quick=False)
@R.case(n=3, kind="mueller", first="fit", quick=False)
def buttons(h, n, kind, first):
    """the interactive fit: every entered value and every fit is one step of the history"""
    from props import gui

    gui.stubs(h)
    P, M = start(h, False)
    lam = [300.0]
    shown = []

    def model(lbda, p):
        shown.append((p["a"].value, p["b"].value))
        return make_result(h, [[[0.5, 0], [0, 1]]], [[[1, 0], [0, 1]]])

    if kind == "rho":
        mod = h.mod("elli.fitting.decorator_psi_delta")
        F = mod.FitRho(pd.DataFrame({"Ψ": [30.0], "Δ": [10.0]}, index=lam), P, model)
    else:
        mod = h.mod("elli.fitting.decorator_mmatrix")
        F = mod.FitMuellerMatrix(pd.DataFrame({f"M{i}{j}": [0.0] for i in range(1, 5) for j in range(1, 5)}, index=lam), P, model, display_single=True)
    button = {b.description: b for b in gui.Button.made}
    h.true("buttons", {"Fit", "Undo", "Redo"} <= set(button))
    fits, last = [], None

    def minimize(fcn, params, **k):
        q = params.copy()
        for name in q:
            q[name].value = number(h, f"fit{len(fits)}{name}")
        fits.append(q)

        class Res:
            pass

        r = Res()
        r.params = q
        return r

    mod.minimize = minimize
    for i in range(n):
        op = choose(h, i, BUTTONS) if i or not first else first
        v = number(h, f"v{i}")
        if op.startswith("enter"):
            k = op[-1]
            F.param_widgets[k].enter(v)
            M.commit()
            M.cur[k] = (v,) + M.cur[k][1:]
        elif op == "fit":
            button["Fit"].press()
            M.commit()
            for k in M.cur:
                M.cur[k] = (fits[-1][k].value,) + M.cur[k][1:]
        elif op == "undo":
            button["Undo"].press()
            last = None
            if M.hist:
                last, M.cur = M.cur, M.hist.pop()
        elif op == "redo":
            button["Redo"].press()
            if last is not None:
                M.commit()
                M.cur, last = dict(last), None
        else:
            F.set_vary_param(type("Change", (), {"owner": type("O", (), {"description_tooltip": "a"}), "new": False}))
            M.cur["a"] = M.cur["a"][:3] + (False,)
        check(h, f"{i} {op}", F.params, M)
        h.true(f"{i} {op} same object", F.params is P)
        for k in ("a", "b"):
            h.eq(f"{i} {op} widget {k}", F.param_widgets[k].value if not hasattr(F.param_widgets[k].value, "value") else F.param_widgets[k].value.value, M.cur[k][0])
        h.eq(f"{i} {op} shown", list(shown[-1]), [M.cur["a"][0], M.cur["b"][0]])


@R.case(kind="rho")
@R.case(kind="mueller")
def plain_parameters(h, kind):
    """the interactive fit also takes lmfit parameters without history"""
    from props import gui

    gui.stubs(h)
    P = h.mod("elli.fitting.params_hist").Parameters()
    a, v, f, w = (number(h, x) for x in "avfw")
    P.add("a", a)
    model = lambda lbda, p: make_result(h, [[[0.5, 0], [0, 1]]], [[[1, 0], [0, 1]]])
    if kind == "rho":
        mod = h.mod("elli.fitting.decorator_psi_delta")
        F = mod.FitRho(pd.DataFrame({"Ψ": [30.0], "Δ": [10.0]}, index=[300.0]), P, model)
    else:
        mod = h.mod("elli.fitting.decorator_mmatrix")
        F = mod.FitMuellerMatrix(pd.DataFrame({f"M{i}{j}": [0.0] for i in range(1, 5) for j in range(1, 5)}, index=[300.0]), P, model, display_single=True)

    def minimize(fcn, params, **k):
        r = type("Res", (), {})()
        r.params = params.copy()
        r.params["a"].value = f
        return r

    mod.minimize = minimize
    F.param_widgets["a"].enter(v)
    h.eq("entered", F.params["a"].value, v)
    {b.description: b for b in gui.Button.made}["Fit"].press()
    h.eq("fitted", [F.params["a"].value, F.fitted_params["a"].value, F.param_widgets["a"].value], [f, f, f])
    F.param_widgets["a"].enter(w)
    h.eq("entered after the fit", [F.params["a"].value, F.fitted_params["a"].value], [w, f])
    h.eq("start values kept", F.initial_params["a"].value, a)
