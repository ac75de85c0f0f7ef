"""One step of a loop, written in terms of the number k of steps already taken.

For a path that returns to the head of a loop, every location that moves by a constant d per step is start + d*k at the head;
conditions and places of the step are then compared as terms in k, whatever variable (index, pointer, countdown) the source uses."""
import absint
from absint import C, add, isnum, affparts
from S02 import strip, subterms

K = ('sym', 'k', 0)


class Step:
    def __init__(s, o, L):
        s.o, s.L = o, L
        s.sub = {}
        for loc, (p, y) in L[3].items():
            e = o.st.env.get(loc, y)
            d = add(e, y, -1)
            if isnum(d) and isinstance(d[1], int) and d[1] != 0: s.sub[y] = (p, d[1], loc)
        s.n0 = len(list(absint._unroll(L[5])))
        s.conds = o.conds[s.n0:]

    def now(s, t):
        """t with every moving location replaced by its value after k steps"""
        d, c0 = affparts(t)
        r = C(c0)
        for x, v in d.items():
            if x in s.sub:
                p, m, _ = s.sub[x]
                y = add(p, absint.mkaff({K: m}, 0))
            else: y = s.deep(x)
            r = add(r, absint.scale(y, v)) if v != 1 else add(r, y)
        return r

    def deep(s, x):
        if not isinstance(x, tuple): return x
        if x[0] == 'init' and x[1][0] == 'elem':
            b = add(s.now(x[1][1]), s.now(x[1][2]))
            return ('at', strip(b))
        if x[0] == 'init': return strip(x)
        return x

    def place(s, loc):
        """address of an element as a term in k"""
        return s.now(add(loc[1], loc[2])) if loc[0] == 'elem' else None

    def limits(s):
        """upper limits u with: the step is only taken while k < u (conditions of the step that compare k with something fixed)"""
        r = []
        for cc, tv, line, f in s.conds:
            if cc[0] != 'cmp': continue
            op = cc[1] if tv else {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[cc[1]]
            d = s.now(add(cc[2], cc[3], -1))
            dd, c0 = affparts(d)
            kk = dd.pop(K, 0)
            if kk == -1:
                dd = {x: -v for x, v in dd.items()}; c0 = -c0; kk = 1
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]
            if kk != 1 or any(K in subterms(x) for x in dd): continue
            u = absint.mkaff({x: -v for x, v in dd.items()}, -c0)       # k op u
            if op in ('<', '!='): r.append((u, line))
            elif op == '<=': r.append((add(u, C(1)), line))
        return r


def overrun(o, backs):
    """the path needs a counter to have passed a limit which no step of its loop lets it pass: it counts up by one from zero, only while below the limit"""
    L = {}
    for e in o.events:
        if e[0] == 'loop':
            for loc, (p, y) in e[3].items(): L[y] = (e, loc, p)
    past = set(); off = set()
    for cc, tv, line, f in o.conds:
        if cc[0] != 'cmp': continue
        for a, b, op in ((cc[2], cc[3], cc[1]), (cc[3], cc[2], {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(cc[1], cc[1]))):
            if a not in L: continue
            if (op, bool(tv)) in (('<', False), ('>=', True)): past.add((a, strip(b)))
            if (op, bool(tv)) in (('==', False), ('!=', True)): off.add((a, strip(b)))
    for y, b in past & off:
        e, loc, p = L[y]
        if not (isnum(p) and p[1] <= 0): continue
        bs = backs.get((e[1], e[2]), [])
        ok = bool(bs)
        for q in bs:
            LL = next((x for x in reversed(q.events) if x[0] == 'loop' and (x[1], x[2]) == (e[1], e[2])), None)
            if LL is None or loc not in LL[3]: ok = False; break
            S = Step(q, LL); z = LL[3][loc][1]
            if z not in S.sub or S.sub[z][1] != 1 or not any(strip(add(u, LL[3][loc][0])) == b for u, l in S.limits()): ok = False; break
        if ok: return True
    return False
