"""Abstract evaluation of a function under one predicate cube (a valuation of named atoms)."""
import absint
from absint import Interp, C, show


class Cube(Interp):
    """Interp whose entry state is seeded by `seed(st)` and whose calls are decided by `calls(name, args, node)`."""
    def __init__(s, prog, calls=None, **kw):
        Interp.__init__(s, prog, **kw)
        s.calls = calls; s.nullderef = []

    def on_call(s, st, fn, args, node, line, caller):
        return s.calls(st, fn, args, node, line, caller) if s.calls else None

    def on_read(s, st, lv, line, fn):
        if lv[0] in ('fld', 'elem') and lv[1] == C(0):
            s.nullderef.append((fn, line, lv))


def nz(label):
    """an unknown value known to be non-zero / non-null"""
    return ('sym', '!' + label, 0)


def same(a, b, eps=1e-12):
    if a == b:
        return True
    if a is None or b is None:
        return False
    d = absint.add(a, b, -1)
    return d[0] == 'c' and isinstance(d[1], (int, float)) and abs(d[1]) < eps


def zone_le(st, lo_t, hi_t, strict=False):
    """decide lo_t <= hi_t from the difference facts of the state (zone domain, closed transitively)"""
    if absint.add(lo_t, hi_t, -1) == C(0):
        return not strict
    edges = {}
    terms = set([lo_t, hi_t])

    def edge(x, y, w, s):       # x - y <= w   (s: strict)
        terms.add(x); terms.add(y)
        o = edges.get((x, y))
        if o is None or (w, not s) < (o[0], not o[1]):
            edges[(x, y)] = (w, s)
    Z = C(0)
    terms.add(Z)
    for k, (lo, ls, hi, hs, ne) in st.facts.items():
        x = y = None
        if k[0] == 'aff' and len(k[1]) == 2:
            (t1, c1), (t2, c2) = k[1]
            if c1 == 1 and c2 == -1: x, y = t1, t2
            elif c1 == -1 and c2 == 1: x, y = t2, t1
        elif k[0] != 'aff':
            x, y = k, Z
        if x is None:
            # general affine difference: match against registered compound terms below
            continue
        if hi != absint.INF: edge(x, y, hi, hs)
        if lo != -absint.INF: edge(y, x, -lo, ls)
    # compound terms: lo_t and hi_t themselves and any extra terms
    extra = getattr(st, 'zterms', None) or []
    ts = [lo_t, hi_t] + list(extra)
    for i, a in enumerate(ts):
        for b in ts[i + 1:]:
            d = absint.add(a, b, -1)
            if d[0] == 'c':
                edge(a, b, d[1], False); edge(b, a, -d[1], False); continue
            parts, c = absint.affparts(d)
            for k, (lo, ls, hi, hs, ne) in st.facts.items():
                kd = absint.add(d, k, -1); ks = absint.add(d, k)
                if kd[0] == 'c':      # d = k + c
                    if hi != absint.INF: edge(a, b, hi + kd[1], hs)
                    if lo != -absint.INF: edge(b, a, -(lo + kd[1]), ls)
                if ks[0] == 'c':      # d = -k + c
                    if lo != -absint.INF: edge(a, b, ks[1] - lo, ls)
                    if hi != absint.INF: edge(b, a, hi - ks[1], hs)
    # Bellman-Ford from lo_t
    best = {lo_t: (0, False)}
    for _ in range(len(terms) + 1):
        ch = False
        for (x, y), (w, s) in edges.items():
            if x in best:
                nw = best[x][0] + w; ns = best[x][1] or s
                o = best.get(y)
                if o is None or (nw, not ns) < (o[0], not o[1]):
                    best[y] = (nw, ns); ch = True
        if not ch:
            break
    r = best.get(hi_t)
    # path weight: lo_t - hi_t <= w
    return r is not None and (r[0] < 0 or (r[0] == 0 and (r[1] or not strict)))


def zone_min(st, v, cands):
    """v is <= every candidate; cands also act as intermediate terms"""
    class S: pass
    x = S(); x.facts = st.facts; x.zterms = list(cands)
    return all(zone_le(x, v, c) for c in cands)
