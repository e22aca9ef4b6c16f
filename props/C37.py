"""C37 The index-database catalogue lists its pages and filters them by range."""
import os
import pathlib
import shutil
import tempfile

import pandas as pd

from symx.harness import Registry

R = Registry()
BOUNDS = "catalogues of 4 pages in 2 shelves with symbolic ranges, every wavelength (one, or lists of up to 3; lists of 6 with one narrow page) of the filter; exact queries in each column; the page-name layouts of the database in BOUNDS' catalogue"
OUTSIDE = "approximate (fuzzy) queries beyond containing the exact matches; page names with separate ranges for n and k; the content of the real database (absent in this build)"
ASSUMPTIONS = ["a scratch catalogue takes the place of the database folder; a numeral in its files stands for the symbolic number wherever the code turns it into a number"]

# shelf, book divider, book, book name, page divider, page, name layout, author, year, comment
PAGES = [
    ("main", "Ag - Silver", "Ag", "Ag (Silver)", "Experimental data", "Johnson", "Johnson and Christy 1972: n,k {0}{dash}{1} \u00b5m", "Johnson and Christy", 1972, ""),
    ("main", "Ag - Silver", "Ag", "Ag (Silver)", "Models", "Rakic-BB", "Raki\u0107 et al. 1998: Brendel-Bormann model; n,k {0}{dash}{1} \u00b5m", "Raki\u0107 et al.", 1998, "Brendel-Bormann model"),
    ("main", "Au - Gold", "Au", "Au (Gold)", None, "Johnson", "Johnson and Christy 1972b: Thin film; n {0}{dash}{1} \u00b5m; 25 \u00b0C", "Johnson and Christy", 1972, "Thin film 25 \u00b0C"),
    ("glass", None, "SCHOTT-BK", "SCHOTT - BK", None, "N-BK7", "SCHOTT Zemax catalog 2017-01-20b: n {0}{dash}{1} \u00b5m", "SCHOTT Zemax catalog", 2017, ""),
]


def catalogue(h, ranges, dash, plain=()):
    """an RII object on a scratch catalogue"""
    d = tempfile.mkdtemp()
    try:
        out, shelf, book, bdiv = [], None, None, None
        for i, p in enumerate(PAGES):
            if p[0] != shelf:
                out += [f"- SHELF: {p[0]}", f'  name: "{p[0]} shelf"', "  content:"]
                shelf, bdiv = p[0], None
            if p[1] != bdiv:
                out += [f'    - DIVIDER: "{p[1]}"']
                bdiv = p[1]
            if p[2] != book:
                out += [f"    - BOOK: {p[2]}", f'      name: "{p[3]}"', "      content:"]
                book = p[2]
            if p[4]:
                out += [f'        - DIVIDER: "{p[4]}"']
            name = "no structure" if i in plain else p[6].format(h.numeral(ranges[i][0]), h.numeral(ranges[i][1]), dash=dash)
            out += [f"        - PAGE: {p[5]}", f'          name: "{name}"', f'          data: "{p[0]}/{p[2]}/{p[5]}.yml"']
        out += ['- DIVIDER: "end"']
        with open(os.path.join(d, "catalog-nk.yml"), "w", encoding="utf8") as o:
            o.write("\n".join(out) + "\n")
        m = h.mod("elli.database.refractive_index_info")
        m.files = lambda *a: pathlib.Path(d)
        return m.RII()
    finally:
        shutil.rmtree(d)


def ranges(h):
    out = []
    for i in range(len(PAGES)):
        lo = h.real(f"lo{i}", lo=0.05, hi=10, sample=(0.2, 1.0))
        out.append((lo, lo + h.real(f"w{i}", lo=0, hi=100, sample=(0.1, 1.0))))
    return out


def keys(t):
    return [(b, p) for b, p in zip(t["book"], t["page"])]


ALL = [(p[2], p[5]) for p in PAGES]


@R.case(dash="-")
@R.case(dash="\u2013")
def listing(h, dash):
    rg = ranges(h)
    t = catalogue(h, rg, dash).catalog
    h.same("pages", keys(t), ALL)
    none = lambda v: None if v is None or v is pd.NA or v != v else v
    for i, p in enumerate(PAGES):
        r = t.iloc[i]
        h.same(f"texts {i}", [r["shelf"], r["shelf_longname"], none(r["book_divider"]), r["book_longname"], r["author"], int(r["year"]), r["comment"]],
               [p[0], f"{p[0]} shelf", p[1], p[3], p[7], p[8], p[9]])
        h.same(f"file {i}", pathlib.PurePath(r["path"]).as_posix(), f"data/{p[0]}/{p[2]}/{p[5]}.yml")
        h.eq(f"range {i}", [r["lower_range"], r["upper_range"]], [1000 * v for v in rg[i]])


@R.case()
def page_types(h):
    """the heading of a page holds until the next heading or book"""
    t = catalogue(h, ranges(h), "-").catalog
    none = lambda v: None if v is pd.NA else v
    h.same("page types", [none(v) for v in t["page_type"]], ["Experimental data", "Models", None, None])


@R.case(n=0)
@R.case(n=1)
@R.case(n=2)
@R.case(n=3, quick=False)
@R.case(n=3, narrow=True)
@R.case(n=6, narrow=True)
def wavelengths(h, n, narrow=False):
    """exactly the pages whose range holds every given wavelength"""
    rg = [(h.const(0.25), h.const(1.75))] + [(h.const(0.03125), h.const(8.0))] * 3 if narrow else ranges(h)[: 1 if n >= 2 else 2]
    rg += [(h.const(0.3), h.const(2.0)), (h.const(0.5), h.const(1.0)), (h.const(0.9), h.const(1.2))][: 4 - len(rg)]
    r = catalogue(h, rg, "-")
    q = [h.real(f"q{i}", lo=50, hi=3000) for i in range(max(n, 1))]
    t = r.search(["main shelf", "main", "glass"], column="shelf", wavelength_filter=q[0] if n == 0 else q, fuzzy=False)
    got = keys(t)
    h.true("no others, once each", len(set(got)) == len(got) and set(got) <= set(ALL))
    for k, (lo, hi) in zip(ALL, rg):
        for j, x in enumerate(q):
            if k in got:
                h.le(f"{k} holds {j} from below", 1000 * lo, x)
                h.le(f"{k} holds {j} from above", x, 1000 * hi)
        if k not in got:
            out = None
            for x in q:
                c = h.np.logical_or(x < 1000 * lo, x > 1000 * hi)
                out = c if out is None else h.np.logical_or(out, c)
            h.true(f"{k} is outside", out)


@R.case()
def queries(h):
    r = catalogue(h, ranges(h), "-", plain=(3,))
    exp = {
        ("Ag", "book"): [0, 1], ("Au", "book"): [2], ("Johnson", "page"): [0, 2], ("main", "shelf"): [0, 1, 2], ("Johnson and Christy", "author"): [0, 2], ("A", "book"): [], ("ag", "book"): [],
        ("Ag (Silver)", "book_longname"): [0, 1], ("no structure", "comment"): [3], ("Au", "page"): [], ("Brendel-Bormann model", "comment"): [1],
        (("Ag", "Au"), "book"): [0, 1, 2], (("Johnson",), ("page", "book")): [0, 2], (("Au", "Rakic-BB"), ("page", "book")): [1, 2], ("Johnson", "all"): [0, 2], ("Ag", "all"): [0, 1],
    }
    for (q, c), want in exp.items():
        t = r.search(q if isinstance(q, str) else list(q), column=c if isinstance(c, str) else list(c), fuzzy=False)
        h.same(f"{q} in {c}", keys(t), [ALL[i] for i in want])
        if "shelf" in c:
            continue
        f = keys(r.search(q if isinstance(q, str) else list(q), column=c if isinstance(c, str) else list(c)))
        if c != "all":
            h.true(f"fuzzy {q} in {c}", set(ALL[i] for i in want) <= set(f))
    # a page without a range is never within one
    h.same("no range", keys(r.search("SCHOTT-BK", column="book", wavelength_filter=500.0, fuzzy=False)), [])
    for bad in ("500", {"a": 1}):
        h.raises(f"filter {bad!r}", ValueError, lambda: r.search("Ag", column="book", wavelength_filter=bad, fuzzy=False))
