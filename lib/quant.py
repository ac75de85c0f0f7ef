"""Inference of what a counter or a printed number means.

Quantities are linear forms over base categories (C,S,D,I,M,P words; w* weighted; NS, SE sentences; +K sentences
with a K error), percentages of two such forms, and statistics of those.  Variables, array elements and record
fields get the set of quantities that the program's assignments, loop deltas and label tests give them (least
fixpoint); every value term of the abstract interpreter can then be typed."""
import itertools
import ir, absint
from absint import C, show, add, isnum, affparts
from util import Rec, last_loop_of

FIELDS = {'corr': 'C', 'sub': 'S', 'del': 'D', 'ins': 'I', 'merges': 'M', 'splits': 'P', 'mrg': 'M', 'spl': 'P', 'nsent': 'NS', 'serr': 'SE',
          'weight_corr': 'wC', 'weight_sub': 'wS', 'weight_del': 'wD', 'weight_ins': 'wI', 'weight_merges': 'wM', 'weight_splits': 'wP', 'weight_ref': 'wR'}


def lin(*ks, lvl=2):
    """quantity counting categories ks; lvl says over what it ranges (1 an utterance, 2 a speaker, 3 everything)"""
    d = {}
    for k in ks: d[(k, lvl)] = d.get((k, lvl), 0) + 1
    return ('lin', tuple(sorted(d.items())))


ZERO = ('lin', ())


def norm(d):
    """a running total plus the part about to be added to it is the running total"""
    top = {}
    for (k, l), v in d.items():
        if v: top.setdefault(k, {})[l] = v
    r = {}
    for k, m in top.items():
        hi = max(m)
        if all(v == m[hi] for v in m.values()): r[(k, hi)] = m[hi]
        else: r.update({(k, l): v for l, v in m.items()})
    return ('lin', tuple(sorted(r.items())))


def ladd(parts):
    d = {}
    for q, c in parts:
        for k, v in q[1]: d[k] = d.get(k, 0) + v * c
    return norm(d)


def up(q, n):
    if q[0] == 'lin': return ('lin', tuple(sorted(((k, l + n), v) for (k, l), v in q[1])))
    return q


def flat(q):
    """(categories, level) of a quantity whose parts all range over the same thing"""
    if q[0] != 'lin' or not q[1]: return None
    ls = {l for (k, l), v in q[1]}
    if len(ls) != 1: return None
    return tuple((k, v) for (k, l), v in q[1]), ls.pop()


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): yield x
            st.extend(y for y in x if isinstance(y, tuple))


def evalmask(cond, val):
    """truth of a condition on an item's label when the label is val (None: depends on something else)"""
    def ev(t):
        if t[0] == 'c': return t[1]
        if t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == 'eval': return val
        if t[0] == 'op' and len(t) == 4:
            a, b = ev(t[2]), ev(t[3])
            if a is None or b is None: return None
            return {'&': lambda: a & b, '|': lambda: a | b}.get(t[1], lambda: None)()
        if t[0] == 'cmp':
            a, b = ev(t[2]), ev(t[3])
            if a is None or b is None: return None
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[t[1]]
        return None
    r = ev(cond)
    return None if r is None else bool(r)


class QInterp(Rec):
    """heap objects named by allocation site; statistics and formatting kept symbolic; nothing else inlined unless small"""
    def on_call(s, st, name, args, node, line, caller):
        if name in ('malloc', 'calloc', 'realloc'):
            return ('sym', '!heap', '%s:%d:%d' % (caller.qn, line, s.siteno(node)))
        if name == 'rsprintf':
            return ('rs',) + tuple(args)
        if name and name.startswith('calc_mean_var_std_dev_Zstat'):
            for what, a in zip(('mean', 'var', 'sd', 'median', 'z'), args[2:]):
                l = a[1] if a[0] == 'addr' else s.mkelem(a, C(0))
                v = ('stat', what, args[0], args[1])
                s.event(st, ('set', l, v, line, caller))
                s.write(st, l, v)
            return C(0)
        if name == 'pow' and all(isnum(a) for a in args):
            return C(float(args[0][1]) ** args[1][1])
        return Rec.on_call(s, st, name, args, node, line, caller)

    stop_fmt = None

    def enter_block(s, st, fn, g, b, fr):
        for e in absint._last(st.events, 6):
            if s.stop_fmt and e[0] == 'call' and e[1] in ('fprintf', 'printf') and any(a[0] == 'c' and isinstance(a[1], str) and s.stop_fmt in a[1] for a in e[2]):
                return absint.Outcome('stop', None, st, 0, fn)
        return Rec.enter_block(s, st, fn, g, b, fr)

    def siteno(s, node):
        if not hasattr(s, 'sites'): s.sites = {}
        return s.sites.setdefault(id(node), len(s.sites))


class Quant:
    def __init__(s, prog, labels):
        s.prog = prog; s.labels = labels
        s.eqs = {}       # key -> list of (kind, term, symmap)
        s.T = {}         # key -> set of quantities
        s.sym = {}       # fresh symbol -> location (the interpreter numbers symbols uniquely)
        s.outs = {}; s.pre = {}; s.subst = {}; s.first = {}; s.idle = {}; s.accs = {}
        s.paramids = set()

    # ---- collection
    def run(s, fn, flags=None, tag='', opaque=(), maxpaths=60000, inline=None, stop_fmt=None, merge=False):
        I = QInterp(s.prog, {}, opaque=opaque, maxpaths=maxpaths, inline=inline, maxsteps=8000000)
        if merge: I.visited = set(); I.project = lambda st: (frozenset((k, v) for k, v in st.env.items() if v[0] != 'ite'), tuple(sorted(st.visits.items(), key=str)))
        I.stop_fmt = stop_fmt
        I.fresh_n = len(s.sym) + 1000000 * len(s.outs)
        args = [None] * len(fn.params)
        for i, p in enumerate(fn.params):
            if flags and p['n'] in flags: args[i] = C(flags[p['n']])
        s.paramids |= {(p.get('id'), p['n']) for p in fn.params}
        outs = I.run(fn, args)
        s.outs[(fn.qn, tag)] = outs
        for o in outs:
            for e in o.events:
                if e[0] == 'loop':
                    for loc, (pre, sy) in e[3].items():
                        s.sym[sy] = (loc, e[1], e[2])
                        s.pre.setdefault(sy, pre)
        inlabel = {}; counts = {}
        for o in outs:
            for e in o.events:
                if e[0] == 'loop':
                    for loc, (pre, sy) in e[3].items():
                        if pre[0] == 'undef' or s.own(pre, loc): continue
                        s.eq(s.key(loc), 'set', pre)
                elif e[0] == 'set' and e[1][0] in ('fld', 'elem'):
                    s.memset(e[1], e[2])
            if o.kind == 'back':
                L = last_loop_of(o, o.value)
                n0 = len(list(absint._unroll(L[5])))
                conds = [(c, t) for c, t, l, f in o.conds[n0:]]
                lab = [(c, t) for c, t in conds if any(x[0] == 'init' and x[1][0] == 'fld' and x[1][2] == 'eval' for x in subterms(c))]
                ok = [n for n, v in s.labels.items() if all(evalmask(c, v) in (t, None) for c, t in lab)]
                for loc, (pre, sy) in L[3].items():
                    end = o.st.env.get(loc, sy)
                    k = s.key(loc)
                    carry = s.carry(loc, pre)
                    if end == sy: s.idle.setdefault((o.fn.qn, o.value, k), []).append((conds, o))
                    if end == sy or s.own(end, loc) or end[0] == 'undef':
                        if lab:
                            iv = inlabel.setdefault((o.fn.qn, o.value), {}).setdefault((k, carry), {})
                            for n in ok: iv.setdefault(n, set()).add(0)
                        continue
                    d = s.delta(end, loc, sy)
                    if d is None:
                        if not (isnum(end) and end[1] == 0): s.eq(k, 'set', end)
                        continue
                    # net change in one iteration; inner-loop symbols of the same variable are part of the running total
                    if isnum(d):
                        if lab:
                            iv = inlabel.setdefault((o.fn.qn, o.value), {}).setdefault((k, carry), {})
                            for n in ok: iv.setdefault(n, set()).add(d[1])
                        else:
                            cs = counts.setdefault((o.fn.qn, o.value, k, d[1], carry), None)
                            nc = {(s.canon(c), t) for c, t in conds}
                            cs = nc if cs is None else cs & nc
                            counts[(o.fn.qn, o.value, k, d[1], carry)] = cs
                    else:
                        s.eq(k, 'acc', (d, carry))
                        s.accs.setdefault((o.fn.qn, o.value, k), []).append((d, o, L))
                    if isnum(d) and lab and d[1]: s.accs.setdefault((o.fn.qn, o.value, k), []).append((None, o, L))
        for (q, h, k, d, carry), cs in counts.items():
            s.eq(k, 'cnt', (d, carry, tuple(sorted(cs, key=str))))
        for h, kv in inlabel.items():
            for (k, carry), v in kv.items():
                if all(v.get(n) == {1} for n in s.labels): continue        # index
                if all(v.get(n, {0}) == {0} for n in s.labels): 
                    continue
                if all(len(v.get(n, {0})) == 1 for n in s.labels):
                    s.eq(k, 'lab', up(ladd([(lin(n, lvl=0), list(v.get(n, {0}))[0]) for n in s.labels]), carry))
                else:
                    s.eq(k, 'lab', ('unk', 'counts labels irregularly: %s' % v))
        return outs

    def canon(s, t):
        """the same loop symbol met on different paths gets one name"""
        if t in s.sym: return s.first.setdefault((s.key(s.sym[t][0]), s.sym[t][1], s.sym[t][2]), t)
        return tuple(s.canon(x) if isinstance(x, tuple) else x for x in t)

    def own(s, t, loc):
        if t[0] == 'init': return t[1][0] == 'v' and s.key(t[1]) == s.key(loc)
        return t[0] == 'sym' and t in s.sym and s.key(s.sym[t][0]) == s.key(loc)

    def delta(s, end, loc, sy):
        """end minus the running total it continues (None: not a continuation)"""
        d, c = affparts(end)
        own = [t for t in d if s.own(t, loc)]
        if len(own) != 1 or d[own[0]] != 1: return None
        r = add(end, own[0], -1)
        return None if any(s.own(x, loc) for x in subterms(r)) else r

    def carry(s, loc, pre):
        """number of nested loops over which the variable accumulates"""
        n = 1
        while s.own(pre, loc):
            n += 1
            pre = s.pre.get(pre, C(0))
            if n > 8: break
        return n

    def eq(s, k, kind, term):
        l = s.eqs.setdefault(k, [])
        if (kind, term) not in l: l.append((kind, term))

    def memset(s, loc, v):
        if v[0] == 'sym' and v[1] == '!heap': return          # rows of a multi-dimensional array
        d, c = affparts(v)
        own = [t for t in d if t[0] == 'init' and s.same(t[1], loc) and d[t] == 1]
        if own:
            r = add(v, own[0], -1)
            if isnum(r): s.eq(s.key(loc), 'cnt', (r[1], 1, ()))
            else: s.eq(s.key(loc), 'acc', (r, 1))
        else:
            s.eq(s.key(loc), 'set', v)

    def same(s, a, b):
        return s.strip(a) == s.strip(b)

    def strip(s, t):
        if isinstance(t, tuple):
            if t and t[0] == 'init': return ('init', s.strip(t[1]))
            return tuple(s.strip(x) for x in t)
        return t

    def key(s, loc):
        if loc[0] == 'v': return ('L', loc[2], loc[3])
        if loc[0] == 'fld': return ('F', loc[2])
        if loc[0] == 'elem':
            r = s.root(loc[1])
            i = s.subst.get(loc[2], loc[2])
            return ('A', r, i[1] if isnum(i) else None)
        if loc[0] == 'g': return loc
        return ('?', str(loc)[:40])

    def root(s, b):
        if b[0] == 'sym' and b[1] == '!heap': return b
        if b[0] == 'sym' and b in s.sym: return s.key(s.sym[b][0])
        if b[0] == 'init':
            l = b[1]
            if l[0] == 'elem': return s.root(l[1])
            return s.key(l)
        if b[0] == 'addr':
            l = b[1]
            return s.root(l[1]) if l[0] == 'elem' else s.key(l)
        if b[0] == 'aff':
            for t, c in b[1]:
                if c == 1: return s.root(t)
        return ('?', show(b))

    # ---- typing
    def solve(s):
        for _ in range(16):
            new = {}
            for k, l in s.eqs.items():
                cur = new.setdefault(k, set())
                for kind, t in l:
                    if kind == 'lab': cur.add(t)
                    elif kind == 'cnt': cur |= s.cntype(t)
                    elif kind == 'acc': cur |= {up(q, t[1]) for q in s.ty(t[0])}
                    else: cur |= s.ty(t)
                if len(cur) > 1: cur.discard(ZERO)
            if new == s.T: return True
            s.T = new
        return False

    def cntype(s, t):
        n, carry, conds = t
        ks = set()
        for c, tv in conds:
            if c[0] == 'cmp' and c[3] == C(0) and (c[1] in ('>', '!=') and tv or c[1] in ('==', '<=') and not tv):
                for q in s.ty(c[2]):
                    f = flat(q)
                    if f and len(f[0]) == 1 and f[0][0][0] in s.labels and n == 1: ks.add((f[0][0][0], f[1]))
        if len(ks) == 1:
            k, l = ks.pop()
            return {up(lin('+' + k, lvl=l), carry)}
        return {('unk', 'a count of iterations')} if conds else set()

    def at(s, key):
        r = set(s.T.get(key, ()))
        if key[0] == 'A' and key[2] is not None: r |= s.T.get(('A', key[1], None), set())
        elif key[0] == 'A':
            for k in s.T:
                if k[0] == 'A' and k[1] == key[1]: r |= s.T[k]
        return r

    def ty(s, t, depth=0):
        if depth > 12: return {('unk', 'deep')}
        k = t[0]
        if k == 'c':
            if not isinstance(t[1], (int, float)): return {('str', t[1])}
            return {ZERO} if t[1] == 0 else {('num', t[1])}
        if k == 'undef': return {('bad', 'a value that was never set')}
        if k == 'sym':
            if t in s.sym: return s.at(s.key(s.sym[t][0])) or set()
            return {('unk', show(t))}
        if k == 'init':
            l = t[1]
            if l[0] == 'fld':
                if l[2] in FIELDS: return {lin(FIELDS[l[2]])}
                if l[2] == 'num': return {lin('N', lvl=1)}
                return s.at(('F', l[2])) or {('bad', 'the field %s' % l[2])}
            if l[0] == 'elem': return s.at(s.key(l)) or set()
            if l[0] == 'v': return s.at(s.key(l)) or ({('unk', show(t))} if s.isparam(l) else set())
            return {('unk', show(t))}
        if k == 'ite':
            a, b = s.ty(t[2], depth + 1), s.ty(t[3], depth + 1)
            return a | b if a and b else set()
        if k == 'stat':
            b = s.root(t[2])
            qs = s.at(('A', b, None)) if b[0] != '?' else set()
            return {('stat', t[1], q) for q in qs if q[0] != 'stat'} or set()
        if k == 'aff':
            parts = [(s.ty(x, depth + 1), c, x) for x, c in t[1] if not (x[0] == 'ite' and isnum(x[2]) and isnum(x[3]) and {abs(x[2][1]), abs(x[3][1])} == {0.5})]
            if any(not p[0] for p in parts): return set()
            res = set()
            for combo in itertools.islice(itertools.product(*[p[0] for p in parts]), 512):
                res.add(s.comb([(q, p[1]) for q, p in zip(combo, parts)], t[2]))
            return res
        if k == 'op' and t[1] == '/':
            if s.ispow(t[3]): return s.ty(s.unround(t[2], t[3]), depth + 1)
            a, b = s.ty(t[2], depth + 1), s.ty(t[3], depth + 1)
            return {('ratio', x, y) if x[0] == 'lin' and y[0] == 'lin' else x if x[0] == 'bad' else y if y[0] == 'bad' else ('unk', show(t)) if x != ZERO else ZERO for x in a for y in b if y != ZERO}
        if k == 'op' and t[1] == 'i/':
            a, b = s.ty(t[2], depth + 1), s.ty(t[3], depth + 1)
            return {('bad', 'an integer division of %s by %s' % (showq(x), showq(y))) if x[0] == 'lin' and y[0] == 'lin' and x != ZERO else ('unk', show(t)) for x in a for y in b}
        if k == 'op' and t[1] == '*' and len(t) == 4:
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if s.ispow(y): return s.ty(x, depth + 1)
        if k == 'cast': return s.ty(t[2], depth + 1)
        return {('unk', show(t))}

    def isparam(s, l):
        return (l[2], l[3]) in s.paramids

    def ispow(s, t):
        return isnum(t) and t[1] in (1, 1.0, 10.0, 100.0, 1000.0) or t[0] == 'call' and t[1] == 'pow' or t[0] == 'sym' and t[1] == 'pow'

    def unround(s, t, p):
        """argument of the rounding macro: (x*10^p +- 0.5) / 10^p"""
        d, c = affparts(t)
        if isnum(p):
            d = {k: v / p[1] for k, v in d.items()}
        d2 = {}
        for k, v in d.items():
            if k[0] == 'ite' and isnum(k[2]) and isnum(k[3]): continue      # the +-0.5
            if k[0] == 'op' and k[1] == '*':
                for x, y in ((k[2], k[3]), (k[3], k[2])):
                    if s.ispow(y): k = x; break
            if abs(v - round(v)) < 1e-9: v = round(v)
            kd, kc = affparts(k)
            for kk, vv in kd.items(): d2[kk] = d2.get(kk, 0) + vv * v
            if kc: c = c + kc
        if isnum(p): c = c / p[1]
        if abs(c) <= 0.5: c = 0
        return absint.mkaff(d2, c)

    def comb(s, parts, const):
        if all(q[0] == 'lin' for q, c in parts):
            if const: return ('bad', 'a count plus %s' % const)
            return ladd(parts)
        nz = [(q, c) for q, c in parts if q != ZERO]
        if len(nz) == 1:
            q, c = nz[0]
            if q[0] == 'ratio' and c == 100 and not const: return ('pct', q[1], q[2])
            if q[0] == 'ratio' and c == -100 and const == 100: return ('cpl', q[1], q[2])
            if q[0] == 'pct' and c == -1 and const == 100: return ('cpl', q[1], q[2])
            if c == 1 and not const: return q
        kind = 'unk' if any(q[0] in ('unk', 'num', 'str') for q, c in parts) else 'bad'
        return (kind, ' + '.join(('%g*' % c if c != 1 else '') + showq(q) for q, c in parts) + (' + %g' % const if const else ''))


def showq(q):
    if q[0] == 'lin': return '+'.join(('%g*' % v if v != 1 else '') + k + "'" * l for (k, l), v in q[1]) or '0'
    if q[0] in ('pct', 'ratio'): return ('%' if q[0] == 'pct' else '') + '(%s)/(%s)' % (showq(q[1]), showq(q[2]))
    if q[0] == 'cpl': return '100-%%(%s)/(%s)' % (showq(q[1]), showq(q[2]))
    if q[0] == 'stat': return '%s of %s' % (q[1], showq(q[2]))
    return str(q[1:])


