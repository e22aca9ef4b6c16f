"""Exact sparse polynomials over Z in packed-exponent form, and the atom registry.

A polynomial is a dict {key: int}.  A key packs one 16-bit exponent per atom.  Atom 0 is the
imaginary unit i (i*i = -1).  Algebraic atoms carry a relation r**m = p (p a polynomial in
lower atoms); products are reduced to degree < m in every algebraic atom, so that two equal
elements of the residue field have cross-multiplied numerators that reduce to the same dict.
"""
from math import gcd

W = 16
MASK = (1 << W) - 1


class Unsupported(Exception):
    """The encoding cannot represent what the code asked for (check is inconclusive)."""


class Alg:
    __slots__ = ("shift", "m", "p")

    def __init__(self, shift, m, p):
        self.shift = shift
        self.m = m
        self.p = p


class Registry:
    """Atoms of the current symbolic context."""

    def __init__(self):
        self.atoms = []
        self.algs = []  # algebraic atoms other than i, increasing shift
        self.algmask = 0  # full mask of algebraic fields (other than i)


REG = Registry()


def set_registry(r):
    global REG
    REG = r


ONE = {0: 1}
ZERO = {}


def pconst(c):
    return {0: c} if c else {}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for k, c in b.items():
        v = r.get(k, 0) + c
        if v:
            r[k] = v
        else:
            del r[k]
    return r


def pneg(a):
    return {k: -c for k, c in a.items()}


def psub(a, b):
    r = dict(a)
    for k, c in b.items():
        v = r.get(k, 0) - c
        if v:
            r[k] = v
        else:
            del r[k]
    return r


def pscale(a, s):
    if s == 1:
        return a
    if s == 0:
        return {}
    return {k: c * s for k, c in a.items()}


SIZE_LIMIT = 400000


def _rawmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 60_000_000:
        raise Unsupported(f"polynomial product too large ({len(a)} x {len(b)})")
    if len(a) == 1:
        ((ka, ca),) = a.items()
        if ka == 0:
            return pscale(b, ca)
        return {k + ka: c * ca for k, c in b.items()}
    r = {}
    get = r.get
    for ka, ca in a.items():
        for kb, cb in b.items():
            k = ka + kb
            r[k] = get(k, 0) + ca * cb
    r = {k: c for k, c in r.items() if c}
    if len(r) > SIZE_LIMIT:
        raise Unsupported("polynomial too large")
    return r


def preduce(r):
    """Reduce i*i=-1 and the algebraic relations."""
    for k in r:
        if k & 2:
            out = {}
            for k2, c in r.items():
                if k2 & 2:
                    e = k2 & MASK
                    k2 = k2 - e + (e & 1)
                    if (e >> 1) & 1:
                        c = -c
                v = out.get(k2, 0) + c
                if v:
                    out[k2] = v
                else:
                    out.pop(k2, None)
            r = out
            break
    if REG.algmask:
        am = REG.algmask
        for alg in reversed(REG.algs):
            sh, m = alg.shift, alg.m
            need = False
            for k in r:
                if k & am and ((k >> sh) & MASK) >= m:
                    need = True
                    break
            if need:
                groups = {}
                for k, c in r.items():
                    e = (k >> sh) & MASK
                    q, rem = divmod(e, m)
                    k2 = k - ((e - rem) << sh)
                    g = groups.setdefault(q, {})
                    v = g.get(k2, 0) + c
                    if v:
                        g[k2] = v
                    else:
                        g.pop(k2, None)
                acc = groups.pop(0, {})
                pw = ONE
                last = 0
                for q in sorted(groups):
                    while last < q:
                        pw = pmul(pw, alg.p)
                        last += 1
                    acc = padd(acc, pmul(groups[q], pw))
                r = acc
    return r


def pmul(a, b):
    if not a or not b:
        return {}
    return preduce(_rawmul(a, b))


def ppow(a, n):
    r = ONE
    base = a
    while n:
        if n & 1:
            r = pmul(r, base)
        n >>= 1
        if n:
            base = pmul(base, base)
    return r


def pcontent(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def mono_content(a):
    """gcd monomial (per-atom minimum exponents) of all keys, over non-algebraic atoms."""
    it = iter(a)
    m = next(it)
    for k in it:
        if m == 0:
            return 0
        # fieldwise min
        out = 0
        sh = 0
        mm = m
        while mm:
            e = mm & MASK
            if e:
                f = (k >> sh) & MASK
                if f:
                    out |= (e if e < f else f) << sh
            mm >>= W
            sh += W
        m = out
    m &= ~(REG.algmask | MASK)
    return m


def key_divides(kb, ka):
    """monomial kb | ka"""
    while kb:
        if (kb & MASK) > (ka & MASK):
            return False
        kb >>= W
        ka >>= W
    return True


def pdivexact(a, f):
    """a / f if exact else None.  f must not contain i or algebraic atoms."""
    if not a:
        return {}
    if len(f) == 1:
        ((kf, cf),) = f.items()
        out = {}
        for k, c in a.items():
            if c % cf or not key_divides(kf, k):
                return None
            out[k - kf] = c // cf
        return out
    # quick rejection by degree in each atom of f is implicit in leading/trailing checks
    lf = max(f)
    tf = min(f)
    la = max(a)
    ta = min(a)
    if not key_divides(lf, la) or not key_divides(tf, ta):
        return None
    if a[la] % f[lf] or a[ta] % f[tf]:
        return None
    if len(a) < 2:
        return None
    import heapq

    rem = dict(a)
    heap = [-k for k in rem]
    heapq.heapify(heap)
    q = {}
    cf = f[lf]
    rest = [(k, c) for k, c in f.items() if k != lf]
    steps = 0
    while heap:
        k = -heapq.heappop(heap)
        c = rem.pop(k, 0)
        if not c:
            continue
        if c % cf or not key_divides(lf, k):
            return None
        kq = k - lf
        cq = c // cf
        q[kq] = cq
        steps += 1
        if steps > 200000:
            return None
        for k2, c2 in rest:
            kk = k2 + kq
            v = rem.get(kk)
            if v is None:
                rem[kk] = -c2 * cq
                heapq.heappush(heap, -kk)
            else:
                rem[kk] = v - c2 * cq
    return q


def atoms_of(a):
    m = 0
    for k in a:
        m |= k
    out = []
    i = 0
    while m:
        if m & MASK:
            out.append(i)
        m >>= W
        i += 1
    return out


def split_by(a, idx):
    """{exp: poly} by exponent of atom idx"""
    sh = idx * W
    out = {}
    for k, c in a.items():
        e = (k >> sh) & MASK
        out.setdefault(e, {})[k - (e << sh)] = c
    return out


def isqrt_exact(c):
    from math import isqrt

    if c < 0:
        return None
    s = isqrt(c)
    return s if s * s == c else None


def psqrt(a, limit=4000):
    """polynomial square root (no algebraic atoms besides i) or None"""
    if not a:
        return {}
    if len(a) > limit:
        return None
    am = REG.algmask
    if am:
        for k in a:
            if k & am:
                return None
    lead = max(a)
    c = a[lead]
    if lead & 1:  # leading coefficient imaginary: unsupported
        return None
    neg = c < 0
    s = isqrt_exact(-c if neg else c)
    if s is None:
        return None
    k = lead
    half = 0
    sh = 0
    kk = k
    while kk:
        e = kk & MASK
        if e & 1:
            return None
        half |= (e >> 1) << sh
        kk >>= W
        sh += W
    if neg:
        # root = i*root(-a)
        r = psqrt(pneg(a), limit)
        if r is None:
            return None
        return pmul({1: 1}, r)
    q = {half: s}
    rem = psub(a, pmul(q, q))
    n = 0
    maxterms = len(a) + 5
    while rem:
        lk = max(k2 & ~MASK for k2 in rem)
        # gather both real and imaginary coefficient of that monomial
        cands = [k2 for k2 in rem if (k2 & ~MASK) == lk]
        base = half & ~MASK
        if not key_divides(base, lk):
            return None
        t = {}
        for k2 in cands:
            c2 = rem[k2]
            if c2 % (2 * s):
                return None
            t[(lk - base) | (k2 & MASK)] = c2 // (2 * s)
        if max(t) >= half and (max(t) & ~MASK) >= base:
            return None
        # rem -= 2 q t + t^2
        rem = psub(rem, padd(pscale(pmul(q, t), 2), pmul(t, t)))
        q = padd(q, t)
        n += 1
        if n > maxterms:
            return None
    return q
