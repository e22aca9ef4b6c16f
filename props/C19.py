"""C19 Dispersion parameters are filled, checked and stored as documented."""
from symx.harness import Registry

from .models import MODELS

R = Registry()
BOUNDS = ("all parameter values (symbolic), every built-in parametric model, every split between positional and keyword arguments, keywords in template and reversed order, "
          "up to three added oscillators, tables of 3 rows")
OUTSIDE = "parameter values of non-numeric type; the formula dispersions (C25)"
# The CauchyUrbach docstring gives other defaults for Eg and Eu than its template; the template values are taken.


def bad(h):
    return h.mod("elli.dispersions.base_dispersion").InvalidParameters


def values(h, names, tag):
    return {n: h.real(f"{tag}_{n}") for n in names}


def check_params(h, what, got, want):
    h.same(what + " names", list(got), list(want))
    for n in want:
        h.eq(f"{what} {n}", got[n], want[n])


def singles_of(h, cls, spec, how):
    """all ways of giving the single parameters"""
    names = [n for n, _ in spec]
    dflt = dict(spec)
    v = values(h, names, "v")
    for k in range(len(names) + 1):
        rest = names[k:]
        for m in range(len(rest) + 1):
            # k positional, then every run of keywords (template order and reversed); the others default
            kws = rest[len(rest) - m:]
            for order in (kws, kws[::-1]):
                d = how(*[v[n] for n in names[:k]], **{n: v[n] for n in order})
                want = {n: (v[n] if n in names[:k] or n in kws else dflt[n]) for n in names}
                check_params(h, f"{k} positional {m} keywords", d.single_params, want)
                h.same("no repeated", len(d.rep_params), 0)
    return v


def rejections(h, call, names, v, surplus):
    B = bad(h)
    h.raises("unknown keyword", B, lambda: call(no_such_parameter=v))
    h.raises("too many positional", B, lambda: call(*([v] * (len(names) + 1))))
    if names:
        h.raises("unknown with known", B, lambda: call(**{names[0]: v, "no_such_parameter": v}))
        h.raises("surplus", B, lambda: call(*([v] * len(names)), **{names[-1]: v}))
        if len(names) > 1:
            h.raises("duplicate", B, lambda: call(v, **{names[0]: v}))
            h.raises("duplicate last", B, lambda: call(*([v] * (len(names) - 1)), **{names[-2]: v}))


def case_single(h, model):
    E = h.elli
    _, singles, reps = MODELS[model]
    cls = getattr(E, model)
    t1, t2 = dict(cls.single_params_template), dict(cls.rep_params_template)
    h.same("documented single", t1, dict(singles))
    h.same("documented repeated", t2, dict(reps))
    singles_of(h, cls, singles, cls)
    names = [n for n, _ in singles]
    rejections(h, cls, names, h.real("w"), None)
    if names:
        # an explicit None is "missing"
        h.raises("missing value", bad(h), lambda: cls(**{names[0]: None}))
    h.same("template kept", dict(cls.single_params_template), t1)
    h.same("rep template kept", dict(cls.rep_params_template), t2)
    # defaults are not disturbed by what was built before
    d = cls()
    check_params(h, "defaults again", d.single_params, dict(singles))


def case_factory(h, model):
    E = h.elli
    _, singles, reps = MODELS[model]
    F = E.DispersionFactory.get_dispersion
    names = [n for n, _ in singles]
    v = values(h, names, "v")
    for k in range(len(names) + 1):
        a, kw = [v[n] for n in names[:k]], {n: v[n] for n in names[k:]}
        d = F(model, *a, **kw)
        h.true("type", type(d) is getattr(E, model))
        check_params(h, f"factory {k}", d.single_params, v)
    d = F(model)
    check_params(h, "factory defaults", d.single_params, dict(singles))
    B = bad(h)
    h.raises("factory unknown keyword", B, lambda: F(model, no_such_parameter=1.0))
    h.raises("factory surplus", B, lambda: F(model, *[1.0] * (len(names) + 1)))
    h.raises("unknown name", ValueError, lambda: F(model + "X"))


def case_reps(h, model):
    E = h.elli
    _, singles, reps = MODELS[model]
    cls = getattr(E, model)
    names = [n for n, _ in reps]
    dflt = dict(reps)
    d, other = cls(), cls()
    if not reps:
        # nothing to add: any parameter is surplus
        h.raises("surplus repeated", bad(h), lambda: d.add(h.real("w")))
        h.raises("unknown repeated", bad(h), lambda: d.add(no_such_parameter=h.real("w2")))
        h.same("nothing stored", len(d.rep_params), 0)
        return
    want = []
    v = [values(h, names, f"v{i}") for i in range(3)]
    r = d.add(*[v[0][n] for n in names])
    h.true("returns itself", r is d)
    want.append(v[0])
    for k in range(len(names) + 1):
        rest = names[k:]
        for m in range(len(rest) + 1):
            kws = rest[len(rest) - m:]
            for order in (kws, kws[::-1]):
                i = len(want) % 3
                d.add(*[v[i][n] for n in names[:k]], **{n: v[i][n] for n in order})
                want.append({n: (v[i][n] if n in names[:k] or n in kws else dflt[n]) for n in names})
    h.same("count", len(d.rep_params), len(want))
    for i, w in enumerate(want):
        check_params(h, f"oscillator {i}", d.rep_params[i], w)
    n0 = len(want)
    rejections(h, d.add, names, v[0][names[0]], None)
    h.same("rejected nothing stored", len(d.rep_params), n0)
    h.same("other untouched", len(other.rep_params), 0)
    other.add(*[v[2][n] for n in names])
    h.same("own list", (len(d.rep_params), len(other.rep_params)), (n0, 1))
    h.same("template kept", dict(cls.rep_params_template), dflt)
    check_params(h, "singles kept", d.single_params, dict(singles))
    # chained calls
    c = cls().add(*[v[0][n] for n in names]).add(**v[1]).add(*[v[2][n] for n in names])
    h.same("chain length", len(c.rep_params), 3)
    for i in range(3):
        check_params(h, f"chain {i}", c.rep_params[i], v[i])


for _m in MODELS:
    R.case(model=_m)(case_single)
    R.case(model=_m)(case_factory)
    R.case(model=_m)(case_reps)


@R.case(model="TableEpsilon", col="epsilon")
@R.case(model="Table", col="n")
def mandatory_tables(h, model, col):
    E = h.elli
    B = bad(h)
    cls = getattr(E, model)
    F = E.DispersionFactory.get_dispersion
    lb = h.np.array([100.0, 200.0, 300.0])
    y = h.arr([h.cplx(f"y{i}") for i in range(3)])
    for nm, mk in (("class", cls), ("factory", lambda *a, **k: F(model, *a, **k))):
        h.raises(nm + " nothing", B, mk)
        h.raises(nm + " only wavelengths", B, lambda: mk(lb))
        h.raises(nm + " only wavelengths by name", B, lambda: mk(lbda=lb))
        h.raises(nm + " only values", B, lambda: mk(**{col: y}))
        h.raises(nm + " unknown", B, lambda: mk(lbda=lb, values=y))
        h.raises(nm + " surplus", B, lambda: mk(lb, y, y))
        h.raises(nm + " duplicate", B, lambda: mk(lb, lbda=lb))
        h.raises(nm + " no repeated", B, lambda: mk(lb, y).add(1.0))
        for d in (mk(lb, y), mk(lb, **{col: y}), mk(lbda=lb, **{col: y}), mk(**{col: y, "lbda": lb})):
            h.same("names", list(d.single_params), ["lbda", col])
            h.eq("lbda", d.single_params["lbda"], lb)
            h.eq("values", d.single_params[col], y)
    h.same("template kept", dict(cls.single_params_template), {"lbda": None, col: None})


@R.case()
def mandatory_pseudo(h):
    E = h.elli
    B = bad(h)
    cls = E.PseudoDielectricFunction
    lb = [100.0, 200.0, 300.0, 400.0]
    args = {"angle": 70, "lbda": h.np.array(lb), "psi": h.np.array([20.0, 21.0, 22.0, 23.0]), "delta": h.np.array([100.0, 110.0, 120.0, 130.0])}
    names = list(args)
    for n in names:
        h.raises("without " + n, B, lambda: cls(**{k: v for k, v in args.items() if k != n}))
    for k in range(4):
        h.raises(f"only {k} positional", B, lambda: cls(*[args[n] for n in names[:k]]))
    h.raises("unknown", B, lambda: cls(**args, rho=1))
    h.raises("surplus", B, lambda: cls(*args.values(), 1))


@R.case()
def factory_names(h):
    E = h.elli
    F = E.DispersionFactory.get_dispersion
    for nm in ("Dispersion", "", "NoSuchDispersion", "Sellmeir"):
        h.raises("unknown name " + nm, ValueError, lambda: F(nm))
    h.raises("module name", Exception, lambda: F("cauchy"))
    a, b = h.real("a"), h.real("b")
    d1, d2 = F("Sellmeier"), F("Sellmeier")
    d1.add(a, b)
    h.same("factory objects are separate", (len(d1.rep_params), len(d2.rep_params)), (1, 0))
    d2.add(B=a)
    check_params(h, "second", d2.rep_params[0], {"A": 0, "B": a})
    check_params(h, "first", d1.rep_params[0], {"A": a, "B": b})


@R.case()
def behaviour(h):
    """the stored parameters are the ones evaluated, whichever way they are given"""
    E = h.elli
    n = [h.real(f"n{i}") for i in range(3)]
    k = [h.real(f"k{i}") for i in range(3)]
    lam = h.real("lam", positive=True, sample=(1.0, 3.0))
    x = h.np.array([lam])
    ref = E.Cauchy(*n, *k).refractive_index(x)
    h.eq("keywords", E.Cauchy(k2=k[2], n1=n[1], k0=k[0], n0=n[0], k1=k[1], n2=n[2]).refractive_index(x), ref)
    h.eq("mixed", E.Cauchy(n[0], n[1], k2=k[2], k1=k[1], k0=k[0], n2=n[2]).refractive_index(x), ref)
    h.eq("factory", E.DispersionFactory.get_dispersion("Cauchy", n[0], k0=k[0], n2=n[2], k1=k[1], n1=n[1], k2=k[2]).refractive_index(x), ref)
    a, b = E.CauchyCustomExponent(n[0]), E.CauchyCustomExponent(n0=n[0])
    a.add(k[0], 2).add(k[1], 3)
    b.add(f=k[0], e=2).add(e=3, f=k[1])
    h.eq("added", a.refractive_index(x), b.refractive_index(x))
    h.eq("value", a.refractive_index(x), [n[0] + k[0] * lam ** 2 + k[1] * lam ** 3])
