"""S19: the paired significance tests count each utterance and speaker once and decide by what they counted."""
import math
from absint import C, show, showloc, add, isnum, affparts, mkaff
from util import *
from S02 import strip, param, subterms
from S09 import lkey, lookup, since
from S12 import rec
from S17 import W, the, fld, bits
from S18 import ofgroup, elem, ispath
from path import *


def check(c):
    prog = c.prog('sclite')
    c.part(table, c, prog)
    c.part(mcnemar, c, prog)
    c.part(signs, c, prog)
    c.part(signdec, c, prog)
    c.part(named, c, prog)
    c.part(pairs, c, prog)
    c.part(binomial, c, prog)
    c.part(choose, c, prog)
    c.part(normal, c, prog)
    c.part(rates, c, prog)
    c.part(matrix, c, prog)


def run(c, prog, name, T, seed={}):
    fn = the(prog, name)
    if not fn: return None, None, None
    fn = c.fn(fn)
    T = dict(T); T['malloc'] = T['calloc'] = lambda s, st, args, node, line, caller: ('sym', '!new%d' % line, ())
    for n in ('fprintf', 'free', 'fflush', 'fclose', 'sprintf', 'strcat', 'printf'): T.setdefault(n, ignore)
    I = W(prog, T, None, maxpaths=20000); st = I.start(fn); I.fix = {}
    for k, p in enumerate(fn.params):
        if k in seed: st.env[('v', 1, p['id'], p['n'])] = seed[k]
    return fn, I, I.run(st)


def reporter(c, rule, fn):
    bad = set()
    def no(key, msg, o=None):
        if key not in bad: bad.add(key); c.bad(rule + ':' + key, where(fn, fn.line), msg, condlist(o) if o else ())
    return no


# --------------------------------------------------------------------------------------------------- the sentences compared

def side(t, fn):
    """(system 0/1, speaker, sentence) if t is a path of one of the two systems"""
    arr, k = elem(t)
    g = ofgroup(arr, 'path') if arr is not None else None
    if not g: return None
    for n in (0, 1):
        if strip(g[0]) == strip(param(fn, 1, n)): return n, g[1], k
    return None


def table(c, prog):
    c.rule('table', 'the two systems are compared on every pair of utterances with the same speaker and id, and each is wrong exactly when one of its words is')
    fn, I, outs = run(c, prog, 'do_McNemar_by_sent', {'do_McNemar': rec('mcn', ('sym', 'decided', ())), 'strcmp': pure('strcmp')})
    if not fn: c.notes.append("McNemar's test is not recognised"); return
    no = reporter(c, 'table', fn); B = bits(prog); corr = C(B['P_CORR'])
    def cmps(o, f):
        """what the path knows of the comparisons of this field"""
        r = []
        for cc, tv, *_ in o.conds:
            if cc[0] == 'cmp' and cc[1] in ('==', '!=') and C(0) in cc[2:4]:
                x = cc[2] if cc[3] == C(0) else cc[3]
                if x[0] == 'call' and x[1] == 'strcmp': r.append((x[2], tv == (cc[1] == '==')))
            elif cc[0] == 'call' and cc[1] == 'strcmp': r.append((cc[2], not tv))
        return [(a, t) for a, t in r if all(fld(x)[1] == f for x in a)]
    cells = set(); tabs = set()
    for o in outs:
        if o.kind != 'back': continue
        evs = since(o, lkey(o))
        st = [e for e in evs if e[0] == 'set' and e[1][0] == 'elem' and (e[1][1][0] == 'init' and e[1][1][1][0] == 'elem' or e[1][1][0] == 'elem')]
        ids = [(a, t) for a, t in cmps(o, 'id')]
        L = lookup(o, lkey(o))
        mine = [(a, t) for a, t in ids if any(side(fld(x)[0], fn) and any(eq(s, side(fld(x)[0], fn)[2]) for l, (q, s) in L[3].items()) for x in a)]
        if st and any(e[0] == 'call' and e[1] == 'mcn' for e in o.events): continue
        if not st and not (ids and mine and any(t for a, t in mine) and not any(e[0] == 'loop' for e in evs)): continue
        if not ids: 
            if st and any(eq(e[2], C(0)) for e in st): continue
            no('ids', 'utterances are compared without their ids', o); continue
        a, same = ids[-1]
        p = [side(fld(x)[0], fn) for x in a]
        if not all(p) or {x[0] for x in p} != {0, 1}: no('ids', 'the ids compared are %s' % [show(x) for x in a], o); continue
        if len(lookup(o, lkey(o))[3]) and not any(eq(s, x[2]) for x in p for l, (q, s) in L[3].items()): continue
        c.ob('pair of utterances')
        if not same:
            if st: no('other', 'utterances with different ids are compared', o)
            continue
        if not st:
            # inside a loop over the words?
            continue
        if len(st) != 1: no('once', 'a pair of utterances is counted %d times' % len(st), o); continue
        e = st[0]; row = e[1][1]
        row = row[1] if row[0] == 'init' else row
        ix = (row[2], e[1][2]); tabs.add(strip(row[1]))
        if not eq(add(e[2], C(-1)), ('init', e[1], 0)) and strip(add(e[2], C(-1))) != strip(('init', e[1], 0)): no('once', 'the table is changed to %s' % show(e[2]), o)
        byside = {x[0]: fld(y)[0] for x, y in zip(p, a)}
        for n in (0, 1):
            pt = strip(byside[n])
            wrong = [tv == (cc[1] == '!=') for cc, tv, *_ in o.conds if cc[0] == 'cmp' and cc[1] in ('==', '!=') and corr in cc[2:4] for x in cc[2:4] if fld(x)[1] == 'eval' and evalof(x) == pt]
            num = [t for t in index(o) if fld(t)[1] == 'num' and strip(fld(t)[0]) == pt]
            wl = [(x, s) for x in evs if x[0] == 'loop' for l, (q, s) in x[3].items() if q == C(0)]
            if ix[n] == C(1):
                if True not in wrong: no('wrong', 'an utterance of system %d is counted as wrong without a wrong word' % (n + 1), o)
            elif ix[n] == C(0):
                done = [x for x, s in wl for m in num if decide(I, o, '>=', s, m, 0, True) is True]
                if not done or True in wrong: no('right', 'an utterance of system %d is counted as right before its last word' % (n + 1), o); continue
                for q_ in outs:
                    if q_.kind == 'back' and lkey(q_) == (done[-1][1], done[-1][2]):
                        Lq = lookup(q_, lkey(q_)); nb = n_before(done[-1])
                        if n_before(Lq) != nb or any(x[:2] != y[:2] for x, y in zip(o.conds[:nb], q_.conds[:nb])): continue
                        c.ob('word')
                        k = [s for l, (q, s) in Lq[3].items() if q == C(0) and eq(step(q_, l, s), C(1))]
                        w = [tv == (cc[1] == '==') for cc, tv, *_ in q_.conds if cc[0] == 'cmp' and cc[1] in ('==', '!=') and corr in cc[2:4] for x in cc[2:4] if fld(x)[1] == 'eval' and evalof(x) == pt and k and eq(evalix(x), k[0])]
                        flag = any(eq(add(step(q_, l, s), s), C(1)) for l, (q, s) in Lq[3].items() if q == C(0))
                        if k and not any(decide(I, q_, '<', k[0], m, 0, True) is True for m in num): no('last', 'words behind the last of an utterance are looked at', q_)
                        if len(k) != 1 or True not in w and not flag: no('words', 'a wrong word of an utterance is passed over', q_)
            else:
                # a flag kept while the words are gone through
                fl = [(x, l) for x in evs if x[0] == 'loop' for l, (q, s) in x[3].items() if q == C(0) and s == ix[n]]
                if not fl: no('cell', 'the cell counted is %s' % [show(x) for x in ix], o); continue
                x, l = fl[-1]; nb = n_before(x)
                if not any(decide(I, o, '>=', s, m, 0, True) is True for l2, (q, s) in x[3].items() if q == C(0) for m in num) and holds(o, '!=', ix[n], C(0)) is not True: no('right', 'an utterance of system %d is counted before its last word' % (n + 1), o)
                for q_ in outs:
                    if q_.kind != 'back' or lkey(q_) != (x[1], x[2]): continue
                    Lq = lookup(q_, lkey(q_))
                    if n_before(Lq) != nb or any(y[:2] != w[:2] for y, w in zip(o.conds[:nb], q_.conds[:nb])): continue
                    c.ob('word')
                    k = [s for l2, (q, s) in Lq[3].items() if q == C(0) and l2 != l and eq(step(q_, l2, s), C(1))]
                    if len(k) != 1 or not any(decide(I, q_, '<', k[0], m, 0, True) is True for m in num): no('last', 'words behind the last of an utterance are looked at', q_); continue
                    w = [tv == (cc[1] == '!=') for cc, tv, *_ in q_.conds[nb:] if cc[0] == 'cmp' and cc[1] in ('==', '!=') and corr in cc[2:4] for y in cc[2:4] if fld(y)[1] == 'eval' and evalof(y) == pt and eq(evalix(y), k[0])]
                    v = q_.st.env.get(l, Lq[3][l][1])
                    if v[0] == 'op' and v[1] == '|' and Lq[3][l][1] in v[2:]:
                        x_ = v[3] if v[2] == Lq[3][l][1] else v[2]
                        if x_[0] == 'cmp' and x_[1] == '!=' and corr in x_[2:4] and any(fld(y)[1] == 'eval' and evalof(y) == pt and eq(evalix(y), k[0]) for y in x_[2:4]): continue
                    if v == Lq[3][l][1]:
                        if True in w or not w: no('words', 'a wrong word of an utterance is passed over', q_)
                    elif v != C(1) or True not in w: no('wrong', 'an utterance of system %d is counted as wrong without a wrong word' % (n + 1), q_)
        # speakers of the same name
        nm = [(x, t) for x, t in cmps(o, 'name')]
        spk = {x[0]: x[1] for x in p}
        good = False
        for x, t in nm:
            own = [fld(y)[0] for y in x]
            own = [y[1] if y[0] == 'addr' else y for y in own]
            if t and all(y[0] == 'elem' for y in own) and {strip(y[2]) for y in own} == {strip(spk[0]), strip(spk[1])}: good = True
        if not good: notfound(I, o, spk, fn, outs, no); continue
        cells |= {(C(x), C(y)) for x in (0, 1) for y in (0, 1) if ix[0] in (C(x), ix[0] if not isnum(ix[0]) else None) and ix[1] in (C(y), ix[1] if not isnum(ix[1]) else None)}
        # all of them
        for n in (0, 1):
            for idx, lim in ((p[[x[0] for x in p].index(n)][2], 'num_path'), (spk[n], 'num_grp')):
                lp = [(x, l, q, s) for x in o.events if x[0] == 'loop' for l, (q, s) in x[3].items() if eq(s, idx)]
                if not lp or lp[-1][2] != C(0): no('from', 'the %s of system %d are not gone through from the first' % ('utterances' if lim == 'num_path' else 'speakers', n + 1), o); continue
                x, l, q, s = lp[-1]
                backs = [b for b in outs if b.kind == 'back' and lkey(b) == (x[1], x[2])]
                for b in backs:
                    if not eq(step(b, l, lookup(b, lkey(b))[3][l][1]), C(1)): no('step', 'the %s of system %d are not gone through one after the other' % ('utterances' if lim == 'num_path' else 'speakers', n + 1), b)
                if not any(decide(I, o, '<', s, t, 0, True) is True or decide(I, o, '!=', s, t, 0, True) is True for t in index(o) if fld(t)[1] == lim and ofside(t, n, spk[n], fn)): no('to', 'the %s of system %d are not gone through to the last' % ('utterances' if lim == 'num_path' else 'speakers', n + 1), o)
                if lim == 'num_grp' and n == 1: continue
                over = [b for b in outs if b.kind in ('back', 'ret') and any(y[0] == 'loop' and (y[1], y[2]) == (x[1], x[2]) for y in b.events) and not (b.kind == 'back' and lkey(b) == (x[1], x[2]))]
                for b in over:
                    y = lookup(b, (x[1], x[2])); s2 = y[3][l][1]
                    if b.kind == 'ret' and decide(I, b, '>=', s2, [t for t in index(b) if fld(t)[1] == lim][0] if [t for t in index(b) if fld(t)[1] == lim] else C(0), 0, True) is not True: no('to', 'the %s of system %d are not gone through to the last' % ('utterances' if lim == 'num_path' else 'speakers', n + 1), b)
    for x in (0, 1):
        for y in (0, 1):
            if (C(x), C(y)) not in cells: no('none%d%d' % (x, y), 'no pair of utterances is counted as %s by the first and %s by the second system' % (('right', 'wrong')[x], ('right', 'wrong')[y]))
    for o in outs:
        if o.kind == 'ret':
            m = [e for e in o.events if e[0] == 'call' and e[1] == 'mcn']
            if len(m) != 1: no('call', 'the table is not tested', o); continue
            if {strip(m[0][2][0])} != tabs: no('tested', 'the table tested is %s' % show(m[0][2][0]), o)
            if strip(m[0][2][5]) != strip(param(fn, 1, 4)): no('conf', 'the probability is not given back', o)
            if o.value != ('sym', 'decided', ()): no('answer', 'the answer is %s' % show(o.value), o)
    c.floor('table', 3)


def ofside(t, n, spk, fn):
    """is t a count of system n, and of its speaker spk if it is one of a speaker?"""
    p, f = fld(t)
    if f == 'num_grp': return strip(p) == strip(param(fn, 1, n))
    p = p[1] if p[0] == 'addr' else p
    return p[0] == 'elem' and fld(p[1])[1] == 'grp' and strip(fld(p[1])[0]) == strip(param(fn, 1, n)) and eq(p[2], spk)


def evalof(x):
    """the path whose word's evaluation this is"""
    e = fld(x)[0]
    if e is None: return None
    if e[0] == 'addr': e = e[1]
    if e[0] != 'elem': return None
    return strip(fld(e[1])[0]) if fld(e[1])[1] == 'pset' else None


def evalix(x):
    e = fld(x)[0]
    if e[0] == 'addr': e = e[1]
    return e[2]


def notfound(I, o, spk, fn, outs, no):
    """no names are equal on this path: it must be one that cannot be, the search past the last speaker"""
    for n in (1, 0):
        for x in o.events:
            if x[0] != 'loop': continue
            for l, (q, s) in x[3].items():
                if eq(s, spk[n]) and any(decide(I, o, '>', s, t, 0, True) is True for t in index(o) if fld(t)[1] == 'num_grp' and strip(fld(t)[0]) == strip(param(fn, 1, n))): return
    no('names', 'utterances of speakers with different names are compared', o)


# --------------------------------------------------------------------------------------------------------------- decisions

def nm(t):
    """z % 2 is z - 2 (z / 2)"""
    if not isinstance(t, tuple): return t
    d, k = affparts(t)
    r = C(k) if not isinstance(k, tuple) else k
    r = C(k)
    for x, q in d.items():
        if x[0] == 'op' and x[1] == '%' and x[3] == C(2): y = add(x[2], scale2(('op', 'i/', x[2], C(2)), 2), -1)
        elif x[0] == 'call': y = ('call', x[1], tuple(nm(z) for z in x[2]), 0)
        else: y = x
        r = add(r, scale2(y, q))
    return r


def scale2(t, q):
    d, k = affparts(t)
    return mkaff({x: v * q for x, v in d.items()}, k * q)


class Path_:
    def __init__(s, o):
        s.conds = [(('cmp', cc[1], nm(cc[2]), nm(cc[3])) if cc[0] == 'cmp' else nm(cc), tv) for cc, tv, *_ in o.conds]


def know(o, op, a, b, integer=True):
    p = getattr(o, 'nmed', None)
    if p is None: p = o.nmed = Path_(o)
    return holds(p, op, nm(a), nm(b), 0, integer)


def decision(c, o, conf, a, b, alpha, no, sign):
    """conf = 2 P(min(a,b); a+b, 1/2) or 1 when they are equal; a difference when below alpha"""
    c.ob('decision')
    v = o.value
    if conf is None: no('p', 'no probability is given', o); return
    conf = nm(conf)
    if conf == C(1) or conf == C(1.0):
        z = know(o, '==', a, C(0)) is True and know(o, '==', b, C(0)) is True
        if not z and know(o, '==', a, b) is not True: no('equal', 'different counts are taken as equal', o)
        if v != C(0): no('equal', 'a difference is found for equal counts', o)
        return
    d, k = affparts(conf); x = next(iter(d), None)
    if len(d) != 1 or k or d[x] != 2 or x[0] != 'call' or x[1] != 'binom': no('p', 'the probability is %s' % show(conf), o); return
    m, s, p = x[2]
    if not eq(s, nm(add(a, b))): no('total', 'the number of cases is %s' % show(s), o)
    if not isnum(p) or p[1] != 0.5: no('half', 'the probability of a case is %s' % show(p), o)
    if eq(m, nm(a)): ok = know(o, '<=', a, b)
    elif eq(m, nm(b)): ok = know(o, '<=', b, a)
    else: ok = None
    if ok is not True: no('smaller', 'the count tested is %s' % show(m), o)
    t = know(o, '<', conf, alpha, False)
    if t is None: no('level', 'the decision does not compare the probability with the level', o)
    elif not t and v != C(0): no('decide', 'a difference is found above the level', o)
    elif t:
        w = sign(o)
        if w is None or v != C(w): no('better', 'the better system is given as %s' % show(v), o)


def mcnemar(c, prog):
    c.rule('mcnemar', "McNemar's test decides by the utterances only one of the systems gets right, at the 5 % level, for the system with fewer errors")
    fn, I, outs = run(c, prog, 'do_McNemar', {'compute_acc_binomial': pure('binom')}, {3: C(0)})
    if not fn or len(fn.params) != 6: c.notes.append("McNemar's decision is not recognised"); return
    no = reporter(c, 'mcnemar', fn); T = param(fn, 1, 0)
    def cell(i, j): return ('init', ('elem', ('init', ('elem', T, C(i)), 0), C(j)), 0)
    t01, t10 = cell(0, 1), cell(1, 0)
    for o in outs:
        if o.kind != 'ret': continue
        conf = last(o, param(fn, 1, 5))
        def sign(o): return 1 if know(o, '>', t10, t01) is True else -1 if know(o, '<', t10, t01) is True else None
        decision(c, o, conf, t10, t01, C(0.05), no, sign)
    c.floor('mcnemar', 3)


def last(o, ptr):
    r = None
    for e in o.events:
        if e[0] == 'set' and (e[1] == ('elem', ptr, C(0)) or strip(e[1]) == strip(('elem', ptr, C(0))) or e[1][0] == 'deref' and strip(e[1][1]) == strip(ptr)): r = e[2]
    return r


def signdec(c, prog):
    c.rule('sign', 'the sign test gives half of the equal speakers to each side, and decides at the given level for the side its measure prefers')
    fn, I, outs = run(c, prog, 'sign_test_analysis', {'compute_acc_binomial': pure('binom')}, {6: C(0.05), 7: C(0)})
    if not fn or len(fn.params) != 14: c.notes.append('the decision of the sign test is not recognised'); return
    no = reporter(c, 'sign', fn)
    a, b, z = (param(fn, 1, k) for k in range(3))
    h = ('op', 'i/', z, C(2))
    A = add(a, h); Bt = add(add(b, z), h, -1)
    for o in outs:
        if o.kind != 'ret': continue
        zb = param(fn, 1, 11)
        def sign(o):
            t = know(o, '!=', zb, C(0))
            return None if t is None else 1 if t else -1
        decision(c, o, last(o, param(fn, 1, 13)), A, Bt, C(0.05), no, sign)
    c.floor('sign', 3)


def named(c, prog):
    c.rule('named', 'the analysis printed names the better system')
    for name, conf, vb, kw in (('do_McNemar', (1, 2), 3, {}), ('sign_test_analysis', (8, 9), 7, {6: C(0.05)})):
        fn, I, outs = run(c, prog, name, {'compute_acc_binomial': pure('binom'), 'fprintf': rec('print', C(0)), 'form_feed': ignore}, {**kw, vb: C(1)})
        if not fn: continue
        no = reporter(c, 'named:' + name, fn); t1, t2 = (strip(param(fn, 1, k)) for k in conf)
        for o in outs:
            if o.kind != 'ret': continue
            c.ob('analysis')
            if not isnum(o.value): continue
            for e in o.events:
                if e[0] != 'call' or e[1] != 'print' or len(e[2]) < 2 or not isinstance(e[2][1][1], str): continue
                g = {n for n, t in ((1, t1), (2, t2)) if any(strip(x) == t for x in e[2][2:])}
                if 'Further' in e[2][1][1] or 'better' in e[2][1][1]:
                    if g and g != ({1: {2}, -1: {1}}.get(o.value[1])): no('better', 'the better system is named as %s when the result is %s' % (' and '.join('the first' if x == 1 else 'the second' for x in sorted(g)), show(o.value)), o)
                elif 'no statistical difference' in e[2][1][1] and o.value != C(0): no('same', 'no difference is reported when the result is %s' % show(o.value), o)
    c.floor('named', 4)


def signs(c, prog):
    c.rule('signs', 'every speaker is counted once, by the sign of the difference of the two systems')
    T = {'sign_test_analysis': rec('analysis', ('sym', 'result', ())), 'fabs': pure('fabs'), 'strlen': pure('len'), 'center': pure('center')}
    fn, I, outs = run(c, prog, 'compute_signtest_for_treatment', T, {5: C(0)})
    if not fn or len(fn.params) != 9: c.notes.append('the counts of the sign test are not recognised'); return
    no = reporter(c, 'signs', fn)
    rank = param(fn, 1, 0); nblk = ('init', ('fld', rank, 'n_blk'), 0)
    tr = (param(fn, 1, 1), param(fn, 1, 2))
    def which(o, t):
        """the treatment an index stands for"""
        for n in (0, 1):
            if strip(t) == strip(tr[n]): return n
        if t[0] == 'init' and t[1][0] == 'elem':
            v = [e[2] for e in o.events if e[0] == 'set' and strip(e[1]) == strip(t[1])]
            if v: return which(o, v[-1])
        return None
    def pct(o, t):
        """(block, treatment)"""
        arr, k = elem(t)
        r, b = elem(arr) if arr is not None else (None, None)
        if r is None or fld(r)[1] != 'pcts': return None
        return b, which(o, k)
    seen = set()
    for o in outs:
        if o.kind != 'ret': continue
        m = [e for e in o.events if e[0] == 'call' and e[1] == 'analysis']
        if len(m) != 1: no('call', 'the counts are not tested once', o); continue
        a = m[0][2]; c.ob('counts tested')
        if not isnum(a[6]) or a[6][1] != 0.05: no('level', 'the level is %s' % show(a[6]), o)
        if strip(a[11]) != strip(param(fn, 1, 6)) or strip(a[13]) != strip(param(fn, 1, 8)): no('args', 'the direction or the probability is not passed on', o)
        first = which(o, ('init', ('elem', a[10], C(0)), 0))
        # order: the first is the one with the larger sum
        Ls = {}
        for n, w in ((0, 'plus'), (1, 'minus'), (2, 'equal')):
            lp = [(e, l, q) for e in o.events if e[0] == 'loop' for l, (q, s) in e[3].items() if s == a[n]]
            if not lp or lp[-1][2] != C(0): no('count', 'the count tested is %s' % show(a[n]), o); continue
            Ls[w] = lp[-1]
        if len(Ls) != 3: continue
        e = Ls['plus'][0]; key = (e[1], e[2]); nb = n_before(e)
        if not any(decide(I, o, '>=', s, nblk, 0, True) is True for l, (q, s) in e[3].items() if q == C(0)): no('all', 'not all the speakers are counted', o)
        for p in outs:
            if p.kind != 'back' or lkey(p) != key or not all(x[0] == y[0] and x[1] == y[1] for x, y in zip(o.conds[:nb], p.conds[:nb])): continue
            c.ob('speaker counted')
            L = lookup(p, key)
            k = [s for l, (q, s) in L[3].items() if q == C(0) and eq(step(p, l, s), C(1)) and decide(I, p, '<', s, nblk, 0, True) is True]
            if len(k) != 1: no('all', 'the speakers are not counted one after the other', p); continue
            st = {w: step(p, Ls[w][1], L[3][Ls[w][1]][1]) for w in Ls}
            one = [w for w in st if eq(st[w], C(1))]
            if len(one) != 1 or any(not eq(st[w], C(0)) for w in st if w not in one): no('once', 'a speaker is counted %d times' % len(one), p); continue
            kind = None
            th = [(cc, tv) for cc, tv, *_ in p.conds[nb:] if cc[0] == 'cmp' and any(t[0] == 'call' and t[1] == 'fabs' for t in subterms(cc))]
            eqv = None; fa = None
            for cc, tv in th:
                x = next(t for t in subterms(cc) if t[0] == 'call' and t[1] == 'fabs'); fa = x
                lim = [t for t in cc[2:4] if isnum(t)]
                if not lim: continue
                eqv = holds(p, '<=', x, lim[0], nb, False)
                if lim[0][1] != 0.005: no('threshold', 'speakers are equal up to %s' % show(lim[0]), p)
            if eqv is None or fa is None: no('equal', 'it is not known whether the two systems differ on a speaker', p); continue
            prs = [(pct(p, t), q) for t, q in affparts(fa[2][0])[0].items()]
            if len(prs) != 2 or any(x is None or not eq(x[0], k[0]) for x, q in prs) or {x[1] for x, q in prs} != {0, 1} or {q for x, q in prs} != {1, -1}: no('diff', 'the systems are compared by %s' % show(fa), p); continue
            if eqv: kind = 'equal'
            else:
                X = next(t for t, q in affparts(fa[2][0])[0].items() if pct(p, t)[1] == first); Y = next(t for t, q in affparts(fa[2][0])[0].items() if pct(p, t)[1] != first)
                lt = holds(p, '<', X, Y, nb, False)
                kind = None if lt is None else 'minus' if lt else 'plus'
            seen.add(kind)
            if kind != one[0]: no('sign', 'a speaker on which the first system is %s is counted as %s' % ({'equal': 'equal', 'minus': 'smaller', 'plus': 'larger'}.get(kind, '?'), one[0]), p)
        # the result is turned round when the systems are
        v = o.value
        d, q = affparts(v); r = d.get(('sym', 'result', ()))
        cons = [(tv == (cc[1] == '==')) for cc, tv, *_ in o.conds if cc[0] == 'cmp' and cc[1] in ('==', '!=') and any(strip(x) == strip(tr[0]) for x in cc[2:4]) and any(elem(x)[0] is not None for x in cc[2:4])]
        if cons and cons[-1] != (first == 0): continue        # not possible
        if q or r not in (1, -1) or len(d) != 1 or first is None or r != (1 if first == 0 else -1): no('turn', 'the result is %s when the first system is number %s' % (show(v), first), o)
    if seen != {'plus', 'minus', 'equal'}: no('kinds', 'only %s speakers are counted' % ' '.join(sorted(str(x) for x in seen)))
    c.floor('signs', 6)


# -------------------------------------------------------------------------------------------------------------------- pairs

PRINT = ('print_compare_matrix_for_sent_M', 'print_trt_comp_matrix_for_RANK_one_winner', 'print_compare_matrix_for_sys')


def iszero(z, f, e, o):
    if z[0] == 'cmp': return z[1] == '==' and {strip(z[2]), strip(z[3])} == {strip(f), e}
    if isnum(z): return holds(o, '==', f, e) == (z != C(0))
    return None


PAIRS = {'McNemar_sent': ('do_McNemar_by_sent', 'scor', 4), 'do_mtch_pairs': ('do_mtch_pairs_on_sys', 'ind', 13), 'perform_signtest': ('compute_signtest_for_treatment', 'rank', 8), 'perform_wilcoxon': ('compute_wilcoxon_for_treatment', 'rank', 8)}


def pairs(c, prog):
    c.rule('pairs', 'every two systems are tested once, and the result and its probability are kept for them')
    for name, (sub, kind, cf) in PAIRS.items():
        T = {sub: rec('one', ('sym', 'res', ())), 'strcmp': pure('strcmp'), 'fopen': pure('fopen')}
        for n in ('form_feed', 'rsprintf'): T[n] = ignore
        for n in PRINT: T[n] = rec('matrix', C(0))
        fn = the(prog, name)
        if not fn: c.notes.append('%s is not there' % name); continue
        seed = {k: C(0) for k, p in enumerate(fn.params) if p['n'] in ('verbose', 'feedback')}
        fn, I, outs = run(c, prog, name, T, seed)
        no = reporter(c, 'pairs:' + name, fn)
        got = False
        for o in outs:
            if o.kind != 'back': continue
            evs = since(o, lkey(o)); m = [e for e in evs if e[0] == 'call' and e[1] == 'one']
            if not m or any(e[0] == 'loop' for e in evs): continue
            got = True; c.ob('pair of systems')
            if len(m) != 1: no('once', 'two systems are tested more than once', o); continue
            a = m[0][2]
            i, j = (a[1], a[2]) if kind == 'rank' else (a[2], a[3]) if kind == 'ind' else (elem(a[0])[1], elem(a[1])[1])
            if i is None or j is None: no('args', 'the systems tested are %s' % [show(x) for x in a[:3]], o); continue
            if kind == 'scor' and (strip(elem(a[0])[0]) != strip(param(fn, 1, 0)) or strip(elem(a[1])[0]) != strip(param(fn, 1, 0))) or kind != 'scor' and strip(a[0]) != strip(param(fn, 1, 0)): no('args', 'the systems tested are others', o)
            if kind == 'rank':
                z = a[6]; e_ = C(ord('E')); f = [x for x in index(o) if strip(x) == strip(param(fn, 1, 4))] or [param(fn, 1, 4)]
                if not iszero(z, f[0], e_, o): no('best', 'whether smaller is better is given as %s' % show(z), o)
            L = lookup(o, lkey(o))
            lj = [(l, q) for l, (q, s) in L[3].items() if eq(s, j)]
            if not lj or not eq(lj[0][1], add(i, C(1))) or not eq(step(o, lj[0][0], L[3][lj[0][0]][1]), C(1)): no('second', 'the second system does not go through those behind the first', o); continue
            out = [(e, l, q) for e in o.events if e[0] == 'loop' for l, (q, s) in e[3].items() if eq(s, i)]
            if not out or out[-1][2] != C(0): no('first', 'the first system does not start with the first', o); continue
            # kept
            outp = {strip(e[1]): e[2] for e in o.events if e[0] == 'set'}
            given = [v for k_, v in outp.items() if k_[0] in ('elem', 'deref') and any(strip(k_[1]) == strip(param(fn, 1, x)) for x in range(len(fn.params)))]
            st = [e for e in evs if e[0] == 'set' and e[1][0] == 'elem']
            if not any(strip(e[2]) == ('sym', 'res', ()) and eq(e[1][2], j) and eq(two(e[1]), i) for e in st): no('kept', 'the result is not kept for the two systems', o)
            w = a[cf]
            if w[0] == 'addr': w = w[1]
            else:
                d_, k_ = affparts(w); b_ = [t for t in d_ if d_[t] == 1 and elem(t)[0] is not None]
                if len(b_) == 1: w = ('elem', b_[0], add(w, b_[0], -1))
            for x in [e[1] for e in st if strip(e[2]) == ('sym', 'res', ())] + [w]:
                r = x[1][1] if x[1][0] == 'init' else x[1]
                if r[0] != 'elem' or strip(r[1]) not in [strip(v) for v in given]: no('given', '%s is not given back' % show(r[1] if r[0] == 'elem' else r), o)
            if w[0] != 'elem' or not eq(w[2], j) or not eq(two(w), i): no('prob', 'the probability is kept as %s' % show(a[cf]), o)
            n = [t for t in index(o) if fld(t)[1] == 'n_trt'] if kind == 'rank' else [param(fn, 1, 1)]
            ke, ki = (out[-1][0][1], out[-1][0][2]), out[-1][1]
            for p in outs:
                if p.kind == 'back' and lkey(p) == ke:
                    Lp = lookup(p, ke)
                    if not eq(step(p, ki, Lp[3][ki][1]), C(1)): no('first', 'the first system does not go through all', p)
                    inn = [e for e in since(p, ke) if e[0] == 'loop' and (e[1], e[2]) == lkey(o)]
                    if not inn or not any(decide(I, p, '>=', inn[-1][3][lj[0][0]][1], t, 0, True) is True for t in n): no('second', 'the second system does not go through all', p)
                elif p.kind == 'ret':
                    e = lookup(p, ke)
                    rp = [k_ for k_, x in enumerate(fn.params) if x['n'] in ('print_results', 'report', 'print_report')]
                    mt = [x for x in p.events if x[0] == 'call' and x[1] == 'matrix']
                    if rp and holds(p, '!=', param(fn, 1, rp[0]), C(0)) is True and (len(mt) != 1 or not any(strip(x) in [strip(v) for v in given] for x in mt[0][2])): no('report', 'the results are not printed', p)
                    if not e or not any(decide(I, p, '>=', e[3][ki][1], add(t, C(-1)), 0, True) is True for t in n): no('first', 'the first system does not go through all', p)
        if not got: no('none', 'no systems are tested')
    c.floor('pairs', 3)


def two(loc):
    r = loc[1]
    if r[0] == 'init': r = r[1]
    return r[2] if r[0] == 'elem' else C(-99)


# ------------------------------------------------------------------------------------------------------------- the binomial

class Unknown(Exception): pass


def value(t, env):
    """the value of an expression for given values of its variables"""
    if isnum(t): return float(t[1])
    s = strip(t)
    if s in env: return env[s]
    if t[0] in ('init', 'sym', 'v', 'undef'): raise Unknown(show(t))
    if t[0] == 'call':
        a = [value(x, env) for x in t[2]]
        return {'choose': lambda n, r: env['choose'](n, r), 'product': lambda f, t: env['product'](f, t), 'pow': lambda x, y: x ** y, 'sqrt': math.sqrt, 'fabs': abs, 'normprob': lambda z: env['normprob'](z)}[t[1]](*a)
    if t[0] == 'op' and len(t) == 4:
        a, b = value(t[2], env), value(t[3], env)
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[t[1]]()
    d, k = affparts(t)
    if len(d) == 1 and t in d: raise KeyError(show(t))
    return k + sum(q * value(x, env) for x, q in d.items())


def binomial(c, prog):
    c.rule('binomial', 'the probability of at most R of n cases is the sum of the terms of the binomial distribution, or the normal distribution at R + 1/2')
    T = {n: pure(m) for n, m in (('n_CHOOSE_r', 'choose'), ('pow', 'pow'), ('normprob', 'normprob'), ('sqrt', 'sqrt'), ('fabs', 'fabs'))}
    fn, I, outs = run(c, prog, 'compute_acc_binomial', T)
    if not fn or len(fn.params) != 3: c.notes.append('the binomial distribution is not recognised'); return
    no = reporter(c, 'binomial', fn)
    R, n, p = (param(fn, 1, k) for k in range(3))
    Phi = lambda z: 0.5 * (1 + math.erf(z / math.sqrt(2)))
    pts = [(r, m, q) for m, q in ((7, 0.5), (20, 0.5), (21, 0.5), (30, 0.25), (41, 0.5), (100, 0.3)) for r in (0, 3, 6)] + [(20, 41, 0.5), (25, 41, 0.5), (55, 100, 0.3)]
    def envs():
        for r, m, q in pts: yield (r, m, q), {strip(R): float(r), strip(n): float(m), strip(p): q, 'choose': lambda a, b: math.comb(int(a), int(b)), 'normprob': Phi}
    def fits(o, env):
        """do the conditions of the path hold? unknown ones do"""
        for cc, tv, *_ in o.conds:
            if cc[0] != 'cmp': continue
            try: a, b = value(cc[2], env), value(cc[3], env)
            except (KeyError, Unknown): continue
            if {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[cc[1]] != tv: return False
        return True
    ex = nr = 0
    for o in outs:
        if o.kind != 'ret': continue
        lp = [(e, l, q) for e in o.events if e[0] == 'loop' for l, (q, s) in e[3].items() if s == o.value]
        c.ob('probability')
        if lp:
            ex += 1; e, l, q = lp[-1]
            if q != C(0): no('sum', 'the sum begins at %s' % show(q), o)
            for b in outs:
                if b.kind != 'back' or lkey(b) != (e[1], e[2]): continue
                L = lookup(b, lkey(b))
                k = [(l2, s) for l2, (q2, s) in L[3].items() if q2 == C(0) and eq(step(b, l2, s), C(1)) and l2 != l]
                if len(k) != 1: no('terms', 'the terms are not added one after the other', b); continue
                t = step(b, l, L[3][l][1])
                if decide(I, b, '<=', k[0][1], R, 0, True) is not True or decide(I, o, '>', e[3][k[0][0]][1], R, 0, True) is not True: no('terms', 'the terms added are not those up to R', b)
                for (r, m, q_), env in envs():
                    if not fits(o, env): continue
                    if m * q_ * (1 - q_) > 5: no('range', 'the sum is used for %d cases' % m, o)
                    env[strip(k[0][1])] = float(min(r, m)); c.ob('term')
                    try: v = value(t, env)
                    except (Unknown, ZeroDivisionError, ValueError): no('term', 'a term of the sum is %s' % show(t), b); break
                    except (KeyError, ZeroDivisionError, ValueError) as x: c.notes.append('a term of the binomial distribution is not recognised'); return
                    w = math.comb(m, min(r, m)) * q_ ** min(r, m) * (1 - q_) ** (m - min(r, m))
                    if abs(v - w) > 1e-9 * max(1e-12, w): no('term', 'a term of the sum is %s' % show(t), b); break
        else:
            nr += 1
            for (r, m, q_), env in envs():
                try:
                    if not fits(o, env): continue
                    v = value(o.value, env)
                except (Unknown, ZeroDivisionError, ValueError): no('normal', 'the approximation is %s' % show(o.value), o); break
                except (KeyError, ZeroDivisionError, ValueError): c.notes.append('the normal approximation is not recognised'); return
                c.ob('approximation')
                if m * q_ * (1 - q_) <= 5: no('range', 'the approximation is used for %d cases' % m, o)
                w = Phi((r + 0.5 - m * q_) / math.sqrt(m * q_ * (1 - q_)))
                if abs(v - w) > 1e-9: no('normal', 'the approximation is %s' % show(o.value), o); break
    for (r, m, q_), env in envs():
        if not any(o.kind == 'ret' and fits(o, env) for o in outs): no('none', 'no probability is computed for %d of %d cases' % (r, m)); break
    c.floor('binomial', 3)


def choose(c, prog):
    c.rule('choose', 'the number of ways to choose r of n is the product of r+1 .. n over that of 1 .. n-r')
    fn, I, outs = run(c, prog, 'n_CHOOSE_r', {'seq_mult': pure('product')})
    if not fn or len(fn.params) != 2: c.notes.append('the binomial coefficient is not recognised'); return
    no = reporter(c, 'choose', fn)
    n, r = (param(fn, 1, k) for k in range(2))
    def product(a, b): return float(math.prod(range(int(a), int(b) + 1)))
    for o in outs:
        if o.kind != 'ret': continue
        for N, R in ((1, 0), (1, 1), (6, 0), (6, 2), (6, 6), (20, 9), (15, 14)):
            env = {strip(n): float(N), strip(r): float(R), 'product': product}
            try: v = value(o.value, env)
            except (Unknown, ZeroDivisionError, ValueError): no('value', 'it is %s' % show(o.value), o); break
            except (KeyError, ZeroDivisionError, ValueError): c.notes.append('the binomial coefficient is not recognised'); return
            c.ob('coefficient')
            if abs(v - math.comb(N, R)) > 1e-6 * max(1, v): no('value', 'it is %s' % show(o.value), o); break
    fn, I, outs = run(c, prog, 'seq_mult', {})
    if not fn or len(fn.params) != 2: c.floor('choose', 3); return
    no = reporter(c, 'product', fn)
    if not any(o.kind == 'ret' for o in outs): no('none', 'the product is never finished')
    f, t = (param(fn, 1, k) for k in range(2))
    for o in outs:
        if o.kind != 'ret': continue
        lp = [(e, l, q) for e in o.events if e[0] == 'loop' for l, (q, s) in e[3].items() if s == o.value]
        if not lp: c.notes.append('the product is not recognised'); return
        e, l, q = lp[-1]; c.ob('product')
        if q != C(1): no('one', 'the product begins with %s' % show(q), o)
        for b in outs:
            if b.kind != 'back' or lkey(b) != (e[1], e[2]): continue
            L = lookup(b, lkey(b)); c.ob('factor')
            k = [(l2, s) for l2, (q2, s) in L[3].items() if l2 != l and eq(q2, f) and eq(step(b, l2, s), C(1))]
            v = b.st.env.get(l)
            if len(k) != 1 or decide(I, b, '<=', k[0][1], t, 0, True) is not True or decide(I, o, '>', e[3][k[0][0]][1], t, 0, True) is not True: no('all', 'the factors are not those from the first to the last', b); continue
            try: ok = all(abs(value(v, {strip(L[3][l][1]): x, strip(k[0][1]): y, strip(t): y + 3, strip(f): 1.0}) - x * y) < 1e-9 for x, y in ((2.0, 3.0), (5.0, 7.0)))
            except Exception: ok = False
            if not ok: no('factor', 'the product becomes %s' % show(v), b)
    c.floor('choose', 3)


def normal(c, prog):
    c.rule('normal', 'the normal distribution is read off a table that is right at every point, at the largest point not above the value')
    fn, I, outs = run(c, prog, 'normprob', {'fabs': pure('fabs')})
    if not fn or len(fn.params) != 1: c.notes.append('the normal distribution is not recognised'); return
    no = reporter(c, 'normal', fn)
    tab = {}
    for k, g in prog.globs.items():
        e = g.get('init', {}).get('els') if isinstance(g.get('init'), dict) else None
        if e and len(e) > 100 and all(x.get('k') in ('flt', 'int') for x in e): tab[k if isinstance(k, str) else k[0]] = [float(x['v']) for x in e]
    Phi = lambda z: 0.5 * (1 + math.erf(z / math.sqrt(2)))
    def arr(t):
        a, k = elem(t)
        if a is None: return None, None
        a = a[1] if a[0] in ('addr', 'init') else a
        n = next((x for x in tab if any(isinstance(y, str) and y == x for y in a)), None)
        return n, k
    used = {arr(t)[0] for o in outs for t in index(o)} | {arr(o.value)[0] for o in outs if o.kind == 'ret'}
    used.discard(None)
    F = {arr(o.value)[0] for o in outs if o.kind == 'ret'}
    if len(F) != 1 or None in F or len(used) != 2: c.notes.append('the table of the normal distribution is not recognised'); return
    F = F.pop(); Z = (used - {F}).pop(); f, z = tab[F], tab[Z]
    if len(f) != len(z): no('size', 'the tables have %d and %d entries' % (len(z), len(f)))
    for x, (a, b) in enumerate(zip(z, f)):
        c.ob('entry')
        if abs(Phi(a) - b) > 2e-6: no('entry%d' % x, 'entry %d of the table is %g at %g' % (x, b, a)); break
        if x and a <= z[x - 1]: no('order', 'entry %d of the table is not above the one before' % x); break
    def sizes(t): return t[0] == 'init' and any(g.get('init', {}).get('v') == len(z) for x, g in prog.globs.items() if isinstance(g.get('init'), dict) and g['init'].get('k') == 'int' and (x if isinstance(x, str) else x[0]) in list(walkstr(t)))
    got = {}
    for o in outs:
        if o.kind == 'back':
            L = lookup(o, lkey(o)); nb = n_before(L)
            k = [(l, q, s) for l, (q, s) in L[3].items() if any(arr(t)[0] == Z and eq(arr(t)[1], s) for t in index(o))]
            if len(k) != 1: no('points', 'the points are not gone through', o); continue
            l0, q0, s0 = k[0]
            if q0 not in (C(0), C(1)) or not eq(step(o, l0, s0), C(1)): no('points', 'the points are not gone through one after the other', o)
            t = [t for t in index(o) if arr(t)[0] == Z and eq(arr(t)[1], s0)][-1]; c.ob('point')
            z0 = param(fn, 1, 0)
            v = [x for x in [z0, add(C(0), z0, -1)] + [u for u in index(o) if u[0] == 'call' and u[1] == 'fabs'] if any(holds(o, p, x, t, 0, False) is not None for p in ('<', '==', '>'))]
            if not v: no('value', 'the point is not compared with the value', o); continue
            if (v[0] == z0 and holds(o, '>=', z0, C(0), 0, False) is not True) or (v[0] == add(C(0), z0, -1) and holds(o, '<=', z0, C(0), 0, False) is not True): no('size', 'the value compared is %s' % show(v[0]), o)
            if not any(holds(o, '<', s0, x) is True for x in [y for y in index(o) if sizes(y)] + [C(len(z))]): no('end', 'points behind the last are looked at', o)
            lt, e_ = holds(o, '<', v[0], t, 0, False), holds(o, '==', v[0], t, 0, False)
            if lt is None and e_ is False: lt = holds(o, '<=', v[0], t, 0, False)
            new = [(l, o.st.env.get(l)) for l, (q, s) in L[3].items() if l != l0 and o.st.env.get(l) not in (None, s)]
            want = add(s0, C(-1)) if lt else s0 if e_ else None
            if want is None:
                if new: no('found', 'a point below the value is taken', o)
                continue
            at = [l for l, x in new if eq(x, want) and not isnum(x)]; flag = [l for l, x in new if isnum(x) and x != C(0) and L[3][l][0] == C(0)]
            if not at: no('point', 'the point taken is %s' % [show(x) for l, x in new], o); continue
            if not any(holds(o, '==', L[3][l][1], C(0)) is True for l in flag): no('stop', 'the search goes on behind the point', o); continue
            got[lkey(o)] = (at[0], flag)
    for o in outs:
        if o.kind != 'ret': continue
        k = arr(o.value)[1]; E = [(e, got[(e[1], e[2])]) for e in o.events if e[0] == 'loop' and (e[1], e[2]) in got]
        if not E: continue
        e, (l, flag) = E[-1]; c.ob('value')
        fl = [holds(o, '!=', e[3][x][1], C(0)) for x in flag if x in e[3]]
        if True in fl: ok = eq(k, e[3][l][1])
        elif False in fl:
            nn = [prog.globs[x]['init']['v'] for x in prog.globs if isinstance(prog.globs[x].get('init'), dict) and prog.globs[x]['init'].get('k') == 'int' and any(y == (x if isinstance(x, str) else x[0]) for u in subterms(k) for y in walkstr(u))]
            kk = affparts(k)
            ok = (kk[1] + nn[0] if nn and len(kk[0]) == 1 else kk[1] if not kk[0] else None) == len(f) - 1
        else: ok = None
        if not ok: no('read', 'the value given is %s' % show(o.value), o)
    c.floor('normal', 100)


def walkstr(u):
    if isinstance(u, str): yield u
    elif isinstance(u, tuple):
        for x in u: yield from walkstr(x)


def rates(c, prog):
    c.rule('rates', 'the speakers are compared by the rates of their own counts')
    fn, I, outs = run(c, prog, 'init_RANK_struct_from_SCORES', {'rank_on_pcts': ignore, 'strcpy': rec('copy', C(0)), 'strlen': pure('len'), 'strcmp': pure('strcmp')})
    if not fn or len(fn.params) != 4: c.notes.append('the rates of the speakers are not recognised'); return
    no = reporter(c, 'rates', fn); seen = set(); named_ = set()
    def put(t, a, m):
        if t == a: return m
        return tuple(put(x, a, m) for x in t) if isinstance(t, tuple) else t
    def names(o):
        for cc, tv, *_ in o.conds:
            x = cc if cc[0] == 'call' else next((y for y in cc[2:4] if y[0] == 'call'), None) if cc[0] == 'cmp' and cc[1] in ('==', '!=') and C(0) in cc[2:4] else None
            if x and x[1] == 'strcmp' and (not tv if cc[0] == 'call' else tv == (cc[1] == '==')) and any(fld(y)[1] == 'name' for y in x[2]): yield x[2]
    def block(t, o):
        a, k = elem(t)
        return a is not None and (fld(a)[1] == 'blk_name' or strip(a) in [strip(x[2]) for x in o.events if x[0] == 'set' and x[1][0] == 'fld' and x[1][2] == 'blk_name'])
    def group(t):
        p = fld(t)[0]
        if p is None: return None
        p = p[1] if p[0] == 'addr' else p
        if p[0] != 'elem' or fld(p[1])[1] != 'grp': return None
        a, k = elem(fld(p[1])[0])
        return (k, p[2]) if a is not None and strip(a) == strip(param(fn, 1, 1)) else None
    for o in outs:
        if o.kind != 'back': continue
        evs = since(o, lkey(o))
        for e in evs:
            if e[0] != 'set' or e[1][0] != 'elem': continue
            r = e[1][1]; r = r[1] if r[0] == 'init' else r
            if r[0] != 'elem' or fld(r[1])[1] != 'pcts' and strip(r[1]) not in [strip(x[2]) for x in o.events if x[0] == 'set' and x[1][0] == 'fld' and x[1][2] == 'pcts']: continue
            g, n = r[2], e[1][2]; val = e[2]
            k = [f for f in 'REW' if any(cc[0] == 'cmp' and (cc[1] == '==') == tv and C(ord(f)) in cc[2:4] for cc, tv, *_ in o.conds)]
            if len(k) != 1: no('formula', 'a rate is set for no formula', o); continue
            cnt = {}; who = set()
            for t in list(index(o)) + list(subterms(val)):
                if not isinstance(t, tuple) or fld(t)[1] not in ('corr', 'sub', 'del', 'ins'): continue
                q = group(t)
                if q is None: continue
                if not eq(q[0], n): no('other', 'a rate uses %s' % show(t), o)
                who.add(q[1])
                cnt[fld(t)[1]] = strip(t)
            c.ob('rate')
            if who == {C(-1)}: continue              # not found: not possible for a speaker all systems have
            if len(who) == 1 and any(fld(x)[1] == 'num_grp' and elem(fld(x)[0])[0] is not None and eq(elem(fld(x)[0])[1], n) and holds(o, '<', list(who)[0], x) is False for x in index(o)): continue    # likewise
            by = [x for nm_ in names(o) for y, x in (nm_, nm_[::-1]) if len(who) == 1 and group(y) and eq(group(y)[0], n) and eq(group(y)[1], list(who)[0]) and g in subterms(x) and n not in subterms(x) and (fld(x)[1] == 'name' or block(x, o))]
            if who and not by: no('speaker', 'the rates of a speaker are not those of the speaker with the same name', o); continue
            named_ |= {strip(put(x, g, '#')) for x in by if not block(x, o)}
            seen.add(k[0])
            for t, lim, w_ in ((g, [x[2] for x in o.events if x[0] == 'set' and x[1][0] == 'fld' and x[1][2] == 'n_blk'], 'speakers'), (n, [param(fn, 1, 2)], 'systems')):
                lp = [(x, l, q, s_) for x in o.events if x[0] == 'loop' for l, (q, s_) in x[3].items() if eq(s_, t)]
                if not lp or lp[-1][2] != C(0) or not any(holds(o, '<', t, y) is True for y in lim): no('all' + w_, 'the rates are not those of all the %s' % w_, o); continue
                for b in outs:
                    if b.kind == 'back' and lkey(b) == (lp[-1][0][1], lp[-1][0][2]) and not eq(step(b, lp[-1][1], lookup(b, lkey(b))[3][lp[-1][1]][1]), C(1)): no('all' + w_, 'the rates are not those of all the %s' % w_, b)
            for a, b, d, i in ((3, 2, 4, 1), (10, 0, 0, 3), (1, 7, 2, 9), (0, 0, 0, 0), (0, 0, 0, 5)):
                env = {x: float(v) for x, v in ((cnt.get('corr'), a), (cnt.get('sub'), b), (cnt.get('del'), d), (cnt.get('ins'), i)) if x}
                try:
                    ok = True
                    for cc, tv, *_ in o.conds:
                        if cc[0] != 'cmp': continue
                        try: x, y = value(cc[2], env), value(cc[3], env)
                        except (Unknown, KeyError): continue
                        if {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[cc[1]] != tv: ok = False
                    if not ok: continue
                    v = value(val, env)
                except Unknown: no('rate', 'a rate is %s' % show(val), o); break
                except (KeyError, ZeroDivisionError, ValueError): c.notes.append('a rate is not recognised'); return
                N = a + b + d; er = 100.0 * (b + d + i) / N if N else 0.0
                w = {'R': 100.0 * a / N if N else 0.0, 'E': er, 'W': 100 - er}[k[0]]
                if abs(v - w) > 1e-6: no('rate' + k[0], 'the rate is %s' % show(val), o); break
    for o in outs:
        if o.kind != 'back': continue
        for e in since(o, lkey(o)):
            if e[0] != 'call' or e[1] != 'copy': continue
            r, i = elem(e[2][0])
            if r is None or fld(r)[1] != 'blk_name' and strip(r) not in [strip(x[2]) for x in o.events if x[0] == 'set' and x[1][0] == 'fld' and x[1][2] == 'blk_name']: continue
            c.ob('name')
            if not (strip(put(e[2][1], i, '#')) in named_ if named_ else group(e[2][1]) and group(e[2][1])[0] == C(0)): no('name', 'the name of a speaker is %s' % show(e[2][1]), o)
    if seen != set('REW'): no('all', 'there are rates only for %s' % ' '.join(sorted(seen)))
    c.floor('rates', 3)


def probs(c, I, fn, outs, ck, no):
    Cn = strip(param(fn, 1, ck)); loops = set()
    def cell(t):
        a, j = elem(t)
        r, i = elem(a) if a is not None else (None, None)
        return (i, j) if r is not None and strip(r) == Cn else None
    def pr(o): return [x for e in since(o, lkey(o)) if e[0] == 'call' and e[1] == 'print' for y in e[2] if y[0] == 'call' and y[1] == 'text' for x in y[2][1:]]
    for o in outs:
        if o.kind != 'back' or any(e[0] == 'loop' for e in since(o, lkey(o))): continue
        k = [cell(t) for t in list(index(o)) + pr(o) if cell(t)]
        if not k: continue
        L = lookup(o, lkey(o)); i, j = k[-1]
        if not any(eq(s, y[1]) for l, (q, s) in L[3].items() for y in k): continue
        if any(not eq(y[0], i) or not eq(y[1], j) for y in k): no('pcell', 'the probabilities of different pairs are mixed', o); continue
        loops.add(lkey(o)); c.ob('probability'); v = pr(o)
        if holds(o, '<', i, j) is not True: no('pbelow', 'the probability of a pair not tested is printed', o)
        t = [t for t in index(o) if cell(t)]
        if len(v) != 1: no('pone', 'the probability is not printed', o)
        elif cell(v[0]):
            if not (eq(cell(v[0])[0], i) and eq(cell(v[0])[1], j)): no('pcell', 'the probability printed is %s' % show(v[0]), o)
        elif not isnum(v[0]) or v[0][1] > 0.001 or not any(holds(o, '<', x, C(0.001), 0, False) is True or holds(o, '<=', x, C(0.001), 0, False) is True for x in t): no('pcell', 'the probability printed is %s' % show(v[0]), o)
    if not loops: no('pnone', 'no probabilities are printed')
    for o in outs:
        if o.kind == 'back' and lkey(o) in loops and not [1 for t in list(index(o)) + pr(o) if cell(t)]:
            L = lookup(o, lkey(o)); s = [s for l, (q, s) in L[3].items() if q == C(0)]
            if not any(holds(o, '>=', x, y) is True for y in s for e in o.events if e[0] == 'loop' for l2, (q, x) in e[3].items() if x != y): no('pleft', 'the probability of two systems is left out', o)


def matrix(c, prog):
    c.rule('matrix', 'the cell of two systems names the one the test found better, or none')
    for name in PRINT:
        T = {'fprintf': rec('print', C(0)), 'Desc_set_iterated_value': rec('print', C(0)), 'rsprintf': pure('text'), 'strlen': pure('len')}
        for n in ('center', 'form_feed', 'set_pad', 'set_pad_cent_n', 'strcpy', 'Desc_erase', 'Desc_set_page_center', 'Desc_add_row_values', 'Desc_add_row_separation', 'Desc_set_iterated_format', 'Desc_flush_iterated_row', 'Desc_dump_report'): T[n] = ignore
        fn, I, outs = run(c, prog, name, T)
        if not fn: c.notes.append('%s is not there' % name); continue
        no = reporter(c, 'matrix:' + name, fn)
        wk = [k for k, p in enumerate(fn.params) if p['n'] == 'winner']
        if len(wk) != 1: wk = [0] if 'RANK' in name else [2]
        Wn = strip(param(fn, 1, wk[0])); keys = {}; terms = set()
        def wcell(t):
            a, j = elem(t)
            r, i = elem(a) if a is not None else (None, None)
            return (i, j) if r is not None and strip(r) == Wn else None
        def ownname(t, k):
            if t[0] == 'addr': t = t[1]
            for x in subterms(t):
                if fld(x)[1] in ('title', 'trt_name') or elem(x)[0] is not None and fld(elem(x)[0])[1] == 'trt_name':
                    if elem(x)[0] is not None and fld(elem(x)[0])[1] == 'trt_name': return eq(elem(x)[1], k)
                    if fld(x)[1] == 'title': return elem(fld(x)[0])[0] is not None and eq(elem(fld(x)[0])[1], k)
            return False
        for o in outs:
            if o.kind != 'back': continue
            evs = since(o, lkey(o)); L = lookup(o, lkey(o)); nb = n_before(L)
            cells = [(wcell(t), t) for cc, tv, *_ in o.conds[nb:] if cc[0] == 'cmp' for t in cc[2:4] if wcell(t)]
            if not cells: continue
            (i, j), t = cells[-1]; c.ob('cell')
            lj = [(l, q, s) for l, (q, s) in L[3].items() if eq(s, j)]
            if not lj or lj[0][1] != C(0) or not eq(step(o, lj[0][0], lj[0][2]), C(1)): no('row', 'the cells of a row are not printed one after the other', o); continue
            li = [(x, l, q) for x in o.events if x[0] == 'loop' for l, (q, s) in x[3].items() if eq(s, i)]
            if not li or li[-1][2] != C(0): no('rows', 'the rows do not start with the first system', o)
            keys[lkey(o)] = (lj[0][0], i); terms.add(t)
            N = [x for x in index(o) if fld(x)[1] == 'n_trt'] + [param(fn, 1, k) for k, p in enumerate(fn.params) if p['n'] == 'nscor']
            if not any(holds(o, '<', j, x) is True for x in N): no('end', 'cells behind the last system are printed', o)
            if li:
                ke = (li[-1][0][1], li[-1][0][2])
                for b in outs:
                    if b.kind == 'back' and lkey(b) == ke and not eq(step(b, li[-1][1], lookup(b, ke)[3][li[-1][1]][1]), C(1)): no('rows', 'the rows are not printed one after the other', b)
            if holds(o, '<', i, j) is not True: no('below', 'the cell of a pair not tested is looked at', o)
            pr = [x for e in evs if e[0] == 'call' and e[1] == 'print' for x in e[2]]
            sg = 0 if holds(o, '==', t, C(0)) is True else 1 if holds(o, '>', t, C(0)) is True else -1 if holds(o, '<', t, C(0)) is True else -1 if holds(o, '!=', t, C(1)) is True and holds(o, '!=', t, C(0)) is True else None
            if sg is None: no('sign', 'the result of the test is not looked at', o); continue
            same_ = any(x == C('same') or x[0] in ('str', 'c') and x[1] == 'same' for x in pr)
            na_, nb_ = any(ownname(x, i) for x in pr), any(ownname(x, j) for x in pr)
            if (same_, na_, nb_) != {0: (True, False, False), -1: (False, True, False), 1: (False, False, True)}[sg]: no('cell', 'the cell does not name the %s system' % {0: 'same', -1: 'first', 1: 'second'}[sg], o)
        if not keys: no('none', 'the results are not printed')
        ck = [k for k, p in enumerate(fn.params) if p['n'] == 'conf']
        if ck: probs(c, I, fn, outs, ck[0], no)
        for o in outs:
            if o.kind == 'back' and lkey(o) in keys:
                L = lookup(o, lkey(o)); nb = n_before(L); l, i = keys[lkey(o)]
                if any(wcell(t) for cc, tv, *_ in o.conds[nb:] if cc[0] == 'cmp' for t in cc[2:4]): continue
                s = L[3][l][1]
                df = [t for t in terms if eq(wcell(t)[1], s) and decide(I, o, '!=', t, C(0), 0, True) is True and decide(I, o, '!=', t, C(1), 0, True) is True]
                if df:             # the default of a switch
                    pr = [x for e in since(o, lkey(o)) if e[0] == 'call' and e[1] == 'print' for x in e[2]]
                    if not any(ownname(x, wcell(df[0])[0]) for x in pr): no('cell', 'the cell does not name the first system', o)
                    continue
                if not any(holds(o, '>=', x, s) is True for e in o.events if e[0] == 'loop' for l2, (q, x) in e[3].items() if x != s): no('left', 'the cell of two systems is left out', o)
    c.floor('matrix', 6)
