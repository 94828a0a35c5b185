"""Integer terms: linear forms over opaque atoms, kept in a canonical shape so that equality of
values is equality of terms (value numbering).  Pointers: ('p', oid, off)."""

def C(n): return ("c", n)
ZERO = C(0); ONE = C(1)

def is_c(t): return t[0] == "c"

def lin_parts(t):
    """term -> (const, {atom: coef})"""
    if t[0] == "c": return t[1], {}
    if t[0] == "lin": return t[1], dict(t[2])
    return 0, {t: 1}

def mk_lin(c, d):
    items = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: repr(x[0])))
    if not items: return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return ("lin", c, items)

def add(a, b, sb=1):
    if a[0] == "p" and b[0] != "p": return ("p", a[1], add(a[2], b, sb))
    if b[0] == "p" and a[0] != "p" and sb == 1: return ("p", b[1], add(b[2], a))
    if a[0] == "p" and b[0] == "p" and sb == -1 and a[1] == b[1]: return add(a[2], b[2], -1)
    if a[0] == "p" or b[0] == "p": return ("op", "ptrarith", a, b, sb)
    ca, da = lin_parts(a); cb, db = lin_parts(b)
    for k, v in db.items(): da[k] = da.get(k, 0) + sb * v
    return mk_lin(ca + sb * cb, da)

def sub(a, b): return add(a, b, -1)

def mulc(a, n):
    c, d = lin_parts(a)
    return mk_lin(c * n, {k: v * n for k, v in d.items()})

def mul(a, b):
    if is_c(a): return mulc(b, a[1])
    if is_c(b): return mulc(a, b[1])
    ca, da = lin_parts(a); cb, db = lin_parts(b)
    c = ca * cb; d = {}
    for k, v in da.items(): d[k] = d.get(k, 0) + v * cb
    for k, v in db.items(): d[k] = d.get(k, 0) + v * ca
    for k, v in da.items():
        for k2, v2 in db.items():
            fs = []
            for q in (k, k2):
                if q[0] == "prod": fs += list(q[1])
                else: fs.append(q)
            at = ("prod", tuple(sorted(fs, key=repr)))
            d[at] = d.get(at, 0) + v * v2
    return mk_lin(c, d)

def atoms(t, acc=None):
    if acc is None: acc = set()
    if isinstance(t, tuple):
        if t and t[0] in ("s",): acc.add(t)
        for x in t[1:]:
            if isinstance(x, tuple): atoms(x, acc)
    return acc
