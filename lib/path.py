"""Queries on one abstract path: what do its branch conditions imply about a comparison?"""
import absint
from absint import C, add, isnum, affparts, mkaff
from S02 import strip, subterms, all_terms

NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def norm(t):
    """term without version numbers, as (coefficients, constant)"""
    d, k = affparts(t)
    r = {}
    for x, q in d.items():
        m = None
        if x[0] == 'op' and len(x) == 4:       # real division by, or product with, a constant
            if x[1] == '/' and isnum(x[3]) and x[3][1]: m = x[2], 1.0 / x[3][1]
            elif x[1] == '*' and isnum(x[3]): m = x[2], x[3][1]
            elif x[1] == '*' and isnum(x[2]): m = x[3], x[2][1]
        if m:
            e, j = norm(m[0]); k += q * m[1] * j
            for y, z in e.items(): r[y] = r.get(y, 0) + q * m[1] * z
        else:
            y = strip(x); r[y] = r.get(y, 0) + q
    return {x: q for x, q in r.items() if q}, k


def diff(a, b):
    da, ka = norm(a); db, kb = norm(b)
    for x, q in db.items():
        da[x] = da.get(x, 0) - q
    return {x: q for x, q in da.items() if q}, ka - kb


def conds(o, after=0):
    """(op, coefficients, constant): 'coefficients + constant op 0' holds on the path"""
    cn = getattr(o, 'cn', None)
    if cn is None:
        cn = []
        for cc, tv, *_ in o.conds:
            if cc[0] == 'cmp':
                op = cc[1] if tv else NEG[cc[1]]
                d, k = diff(cc[2], cc[3])
            else:
                op = '!=' if tv else '=='
                d, k = norm(cc)
            cn.append((op, d, k))
        o.cn = cn
    return cn[after:] if after else cn


def n_before(L):
    """number of conditions met before entering the loop of event L"""
    return len(list(absint._unroll(L[5])))


def holds(o, op, a, b, after=0, integer=True):
    """True/False/None: does the path decide  a op b ?"""
    d, k = diff(a, b)
    if not d:
        return {'<': k < 0, '<=': k <= 0, '>': k > 0, '>=': k >= 0, '==': k == 0, '!=': k != 0}[op]
    lo, los, hi, his, ne = -absint.INF, False, absint.INF, False, set()   # bounds of the coefficient part
    for op2, e, j in conds(o, after):
        if e == d: s = 1
        elif e == {x: -q for x, q in d.items()}: s = -1
        else: continue
        # s*D + j op2 0   =>   D op3 v
        v = -j * s; op3 = op2 if s == 1 else FLIP[op2]
        if op3 == '==': lo, los, hi, his = v, False, v, False
        elif op3 == '!=': ne.add(v)
        elif op3 in ('<', '<='):
            strict = op3 == '<'
            if integer and strict: v, strict = v - 1, False
            if v < hi or v == hi and strict: hi, his = v, strict
        else:
            strict = op3 == '>'
            if integer and strict: v, strict = v + 1, False
            if v > lo or v == lo and strict: lo, los = v, strict
    if integer:
        while lo in ne and not los: lo += 1
        while hi in ne and not his: hi -= 1
    q = -k          # D op q
    if op == '<': return True if hi < q or hi == q and his else False if lo >= q else None
    if op == '<=': return True if hi <= q else False if lo > q or lo == q and los else None
    if op == '>': return True if lo > q or lo == q and los else False if hi <= q else None
    if op == '>=': return True if lo >= q else False if hi < q or hi == q and his else None
    eq = True if lo == hi == q and not los and not his else False if q in ne or lo > q or hi < q or lo == q and los or hi == q and his else None
    return eq if op == '==' else None if eq is None else not eq


def index(o):
    """terms of the path by shape"""
    ix = getattr(o, 'ix', None)
    if ix is None:
        ix = o.ix = {}
        for t in set(all_terms(o)):
            ix.setdefault(strip(t), set()).add(t)
    return ix


def decide(I, o, op, a, b, after=0, integer=True):
    """like holds, also using what the interpreter knows about terms of the same shape"""
    r = holds(o, op, a, b, after, integer)
    if r is not None: return r
    r = I.compare(o.st, op, a, b)
    if r is not None: return r
    ix = index(o)
    ta = ix.get(strip(a), set()) | {a}; tb = ix.get(strip(b), set()) | {b}
    for x in ta:
        for y in tb:
            r = I.compare(o.st, op, x, y)
            if r is not None: return r
    return None


def eq(a, b):
    return diff(a, b) == ({}, 0)


def step(o, loc, s):
    """change of a location over the iteration, as a term"""
    return add(o.st.env.get(loc, s), s, -1)
