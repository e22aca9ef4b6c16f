"""C20 Adding dispersions adds their values and leaves the operands alone."""
import itertools

from symx.harness import Registry

from .common import lin_disp, table_disp

R = Registry()
BOUNDS = ("sums of up to four operands in every order-preserving grouping and of 8 to 11 operands folded four ways, operands: user models, built-in models, sums, numbers, tables; values symbolic; "
          "chains of up to three further additions on operands that were already summed")
OUTSIDE = "in-place += on a sum (mutates by Python semantics); adding two tables or a pseudo-dielectric table (documented as unsupported, rejection checked)"


def groupings(items):
    """all binary trees over the items in order"""
    if len(items) == 1:
        yield items[0]
        return
    for k in range(1, len(items)):
        for a in groupings(items[:k]):
            for b in groupings(items[k:]):
                yield (a, b)


def build(tree, leaves):
    if isinstance(tree, tuple):
        a, b = build(tree[0], leaves), build(tree[1], leaves)
        return a + b
    return leaves[tree]


def is_num(x):
    return not hasattr(x, "get_dielectric")


def val(h, d, x, kind):
    if is_num(d):
        return h.np.array([d for _ in x])
    r = d.dielectric_function(x) if kind == "eps" else d.refractive_index(x)
    return h.np.asarray(r) + 0 * x


def check_sum(h, tag, s, ops, x, kind):
    want = sum(val(h, o, x, kind) for o in ops)
    h.eq(tag, val(h, s, x, kind), want)
    # both views of the sum
    if kind == "eps":
        h.eq(tag + " get_dielectric", s.get_dielectric(x), want)
    else:
        h.eq(tag + " get_index", s.get_refractive_index(x), want)
        h.eq(tag + " get_dielectric", s.get_dielectric(x), want * want)


def leaves_for(h, n, kind):
    return [lin_disp(h, h.cplx(f"a{kind}{i}"), h.cplx(f"b{kind}{i}"), index=(kind == "n")) for i in range(n)]


XS = [100.0, 200.0, 300.0]


@R.case(kind="eps")
@R.case(kind="n")
def grouping(h, kind):
    x = h.np.array(XS)
    leaves = leaves_for(h, 4, kind)
    for n in (2, 3, 4):
        ops = leaves[:n]
        before = [val(h, o, x, kind) for o in ops]
        for t in groupings(list(range(n))):
            if not isinstance(t, tuple):
                continue
            check_sum(h, f"{n}: {t}", build(t, ops), ops, x, kind)
        for o, b in zip(ops, before):
            h.eq("operand kept", val(h, o, x, kind), b)


@R.case(kind="eps")
@R.case(kind="n")
def orders(h, kind):
    x = h.np.array(XS)
    ops = leaves_for(h, 3, kind)
    ref = sum(val(h, o, x, kind) for o in ops)
    for p in itertools.permutations(range(3)):
        a, b, c = (ops[i] for i in p)
        h.eq(f"{p} left", val(h, (a + b) + c, x, kind), ref)
        h.eq(f"{p} right", val(h, a + (b + c), x, kind), ref)
    h.eq("builtin sum", val(h, sum(ops), x, kind), ref)
    h.eq("one twice", val(h, ops[0] + ops[0], x, kind), 2 * val(h, ops[0], x, kind))


@R.case(kind="eps")
@R.case(kind="n")
def long_sums(h, kind):
    """many operands, on many wavelengths, folded from the left, from the right and in halves"""
    x = h.np.array([100.0 * (i % 7) + 50.0 + i for i in range(15)])
    ops = leaves_for(h, 9, kind)
    mixed = ops[:4] + [2] + ops[4:7] + [ops[0], -1.5] + ops[7:]

    def right(o):
        return o[0] if len(o) == 1 else o[0] + right(o[1:])

    def halves(o):
        return o[0] if len(o) == 1 else halves(o[: len(o) // 2]) + halves(o[len(o) // 2:])

    def left(o):
        s = o[0]
        for p in o[1:]:
            s = s + p
        return s

    for nm, o in (("nine", ops), ("mixed", mixed), ("same", [ops[0]] * 8)):
        for f in (left, right, halves, sum):
            check_sum(h, f"{nm} {f.__name__}", f(o), o, x, kind)


@R.case(kind="eps")
@R.case(kind="n")
def numbers(h, kind):
    x = h.np.array(XS)
    d, e = leaves_for(h, 2, kind)
    vd, ve = val(h, d, x, kind), val(h, e, x, kind)
    for nm, k in ((2, 2), (0.5, 0.5), (-1.25, -1.25), (1.75, 1.75), (0, 0), ("k", h.real("k")), ("m", h.integer("m", lo=-3, hi=5))):
        h.eq(f"d+{nm}", val(h, d + k, x, kind), vd + k)
        h.eq(f"{nm}+d", val(h, k + d, x, kind), vd + k)
        h.eq(f"d+{nm}+e", val(h, d + k + e, x, kind), vd + ve + k)
        h.eq(f"{nm}+(d+e)", val(h, k + (d + e), x, kind), vd + ve + k)
        h.eq(f"(d+e)+{nm}", val(h, (d + e) + k, x, kind), vd + ve + k)
        h.eq(f"{nm}+d+{nm}", val(h, k + d + k, x, kind), vd + 2 * k)
        s = d + e
        s2 = s + k
        s3 = k + s
        h.eq(f"{nm}: sum kept", val(h, s, x, kind), vd + ve)
        h.eq(f"{nm}: s2", val(h, s2, x, kind), vd + ve + k)
        h.eq(f"{nm}: s3", val(h, s3, x, kind), vd + ve + k)
    h.eq("operand kept", val(h, d, x, kind), vd)


@R.case(kind="eps")
@R.case(kind="n")
def shared_sums(h, kind):
    """sums used as operands again keep their own value"""
    x = h.np.array(XS)
    a, b, c, d = leaves_for(h, 4, kind)
    va, vb, vc, vd = (val(h, o, x, kind) for o in (a, b, c, d))
    s = a + b
    t = c + d
    u = s + t
    v = t + s
    w = s + s
    y = c + s
    z = s + c
    zz = z + d
    for nm, o, want in (("s", s, va + vb), ("t", t, vc + vd), ("s+t", u, va + vb + vc + vd), ("t+s", v, va + vb + vc + vd),
                        ("s+s", w, 2 * (va + vb)), ("c+s", y, va + vb + vc), ("s+c", z, va + vb + vc), ("z+d", zz, va + vb + vc + vd)):
        h.eq(nm, val(h, o, x, kind), want)
    # later changes to one sum do not reach the others
    s2 = s + 1
    s2 += d
    h.eq("augmented copy", val(h, s2, x, kind), va + vb + vd + 1)
    h.eq("s after", val(h, s, x, kind), va + vb)
    h.eq("u after", val(h, u, x, kind), va + vb + vc + vd)


def builtins(h):
    E = h.elli
    v = [h.real(f"p{i}", positive=True, sample=(0.5, 2.0)) for i in range(8)]
    eps = [E.EpsilonInf(v[0]), E.Sellmeier().add(v[1], v[2]), E.Poles(v[3], v[4], v[5]), E.LorentzEnergy().add(v[6], v[1], v[7]), E.DrudeEnergy(v[2], v[5])]
    idx = [E.ConstantRefractiveIndex(v[0]), E.Cauchy(v[1], v[2], v[3]), E.CauchyCustomExponent(v[4]).add(v[5], 2)]
    return eps, idx


@R.case(kind="eps")
@R.case(kind="n")
def models(h, kind):
    """built-in models, including those returning plain scalars"""
    eps, idx = builtins(h)
    ops = eps if kind == "eps" else idx
    x = h.np.array(XS)
    vs = [val(h, o, x, kind) for o in ops]
    for i, j in itertools.permutations(range(len(ops)), 2):
        s = ops[i] + ops[j]
        h.eq(f"{i}+{j}", val(h, s, x, kind), vs[i] + vs[j])
        h.eq(f"1+{i}+{j}", val(h, 1 + ops[i] + ops[j], x, kind), vs[i] + vs[j] + 1)
    total = ops[0]
    for o in ops[1:]:
        total = total + o
    check_sum(h, "all", total, ops, x, kind)
    for o, w in zip(ops, vs):
        h.eq("operand kept", val(h, o, x, kind), w)
    # scalar wavelength
    f = (lambda d: d.dielectric_function(200.0)) if kind == "eps" else (lambda d: d.refractive_index(200.0))
    h.eq("scalar", f(ops[0] + ops[1]), f(ops[0]) + f(ops[1]))


@R.case(kind="eps")
@R.case(kind="n")
def tables(h, kind):
    E = h.elli
    x = h.np.array(XS)
    ys = [h.cplx(f"y{i}") for i in range(3)]
    T = E.TableEpsilon if kind == "eps" else E.Table
    t = T(h.np.array(XS), h.arr(ys))
    d, e = leaves_for(h, 2, kind)
    vt, vd, ve = val(h, t, x, kind), val(h, d, x, kind), val(h, e, x, kind)
    h.eq("table", vt, ys)
    mid = h.np.array([150.0])
    mt = val(h, t, mid, kind)
    for nm, s, want, mw in (("t+d", lambda: t + d, vt + vd, [d]), ("d+t", lambda: d + t, vt + vd, [d]), ("t+1.5", lambda: t + 1.5, vt + 1.5, [1.5]),
                            ("2+t", lambda: 2 + t, vt + 2, [2]), ("t+d+e", lambda: t + d + e, vt + vd + ve, [d, e]), ("t+(d+e)", lambda: t + (d + e), vt + vd + ve, [d, e]),
                            ("(d+e)+t", lambda: (d + e) + t, vt + vd + ve, [d, e]), ("d+t+e", lambda: d + t + e, vt + vd + ve, [d, e]), ("1+t+d", lambda: 1 + t + d, vt + vd + 1, [1, d])):
        r = s()
        h.eq(nm, val(h, r, x, kind), want)
        h.eq(nm + " between", val(h, r, mid, kind), mt + sum(val(h, o, mid, kind) for o in mw))
    s = d + e
    u, w = t + s, s + t
    h.eq("sum kept", val(h, s, x, kind), vd + ve)
    h.eq("u", val(h, u, x, kind), vt + vd + ve)
    h.eq("w", val(h, w, x, kind), vt + vd + ve)
    h.eq("table kept", val(h, t, x, kind), ys)
    t2 = T(h.np.array(XS), h.arr(ys[::-1]))
    h.raises("two tables", NotImplementedError, lambda: t + t2)


@R.case()
def kinds_do_not_mix(h):
    E = h.elli
    x = h.np.array(XS)
    eps, idx = builtins(h)
    te = E.TableEpsilon(h.np.array(XS), h.arr([h.cplx(f"te{i}") for i in range(3)]))
    ti = E.Table(h.np.array(XS), h.arr([h.cplx(f"ti{i}") for i in range(3)]))
    ue, ui = leaves_for(h, 1, "eps")[0], leaves_for(h, 1, "n")[0]
    es = [eps[0], eps[1], eps[0] + eps[1], te, ue, te + ue]
    ns = [idx[0], idx[1], idx[0] + idx[1], ti, ui, ti + ui]
    ev = [val(h, d, x, "eps") for d in es]
    nv = [val(h, d, x, "n") for d in ns]
    for i, a in enumerate(es):
        for j, b in enumerate(ns):
            h.raises(f"eps{i}+n{j}", TypeError, lambda: a + b)
            h.raises(f"n{j}+eps{i}", TypeError, lambda: b + a)
        h.raises(f"eps{i}+text", TypeError, lambda: a + "1")
        h.raises(f"eps{i}+None", TypeError, lambda: a + None)
    for j, b in enumerate(ns):
        h.raises(f"n{j}+text", TypeError, lambda: b + "1")
        h.raises(f"n{j}+None", TypeError, lambda: b + None)
    h.raises("inplace eps", TypeError, lambda: es[2].__iadd__(ns[0]))
    h.raises("inplace n", TypeError, lambda: ns[2].__iadd__(es[0]))
    for d, w in zip(es, ev):
        h.eq("eps kept", val(h, d, x, "eps"), w)
    for d, w in zip(ns, nv):
        h.eq("n kept", val(h, d, x, "n"), w)


@R.case(opts={"prove_timeout": 20000})
def converted(h):
    """as_index keeps the values and can be added to index models"""
    E = h.elli
    x = h.np.array(XS)
    n = [h.cplx(f"n{i}") for i in range(3)]
    for z in n:
        h.assume(h.np.real(z) > 0)
        h.hint(z)
    d = table_disp(h, [z * z for z in n])
    te = E.TableEpsilon(h.np.array(XS), h.arr([z * z for z in n]))
    sm = te + 0
    ui = leaves_for(h, 1, "n")[0]
    vi = val(h, ui, x, "n")
    for nm, o in (("user", d), ("table", te), ("sum", sm)):
        i = o.as_index()
        h.true("index kind", isinstance(i, h.mod("elli.dispersions.base_dispersion").IndexDispersion))
        h.eq(nm + " index", i.refractive_index(x), n)
        h.eq(nm + " eps", i.dielectric_function(x), [z * z for z in n])
        h.eq(nm + " get index", i.get_refractive_index(x), n)
        h.eq(nm + " + index", val(h, i + ui, x, "n"), vi + h.arr(n))
        h.eq(nm + " index +", val(h, ui + i, x, "n"), vi + h.arr(n))
        h.eq(nm + " + number", val(h, i + 1, x, "n"), h.arr(n) + 1)
        h.eq(nm + " original kept", val(h, o, x, "eps"), [z * z for z in n])
        h.raises(nm + " no eps", TypeError, lambda: i + d)


@R.case()
def converted_models(h):
    """conversion keeps parameters and oscillators of the built-in models"""
    E = h.elli
    x = h.np.array([2.0, 4.0])
    a, b, g = (h.real(k, positive=True, sample=(0.5, 2.0)) for k in "abg")
    for nm, d in (("inf", E.EpsilonInf(a)), ("poles", E.Poles(a, b, g)), ("sellmeier", E.Sellmeier().add(a, b).add(g, a)), ("polynomial", E.Polynomial(a).add(b, 2))):
        i = d.as_index()
        h.eq(nm + " eps", i.dielectric_function(x), d.dielectric_function(x))
        m = i.refractive_index(x)
        h.eq(nm + " squared", m * m, d.dielectric_function(x))
        h.same(nm + " names", list(i.single_params), list(d.single_params))
