"""S04: every alignment item is accounted for exactly once, in its own category (totals, weights, sentence counts)."""
import facts, ir, absint
from absint import C, show, showloc, add, isnum
from cubes import same
from util import *
from S02 import strip, param, subterms
from util import run_loop

CATS = ['corr', 'sub', 'ins', 'del']
WTS = ['weight_corr', 'weight_sub', 'weight_ins', 'weight_del', 'weight_ref']


def check(c):
    prog = c.prog('sclite'); mac = facts.macros('sclite')
    LAB = {k: mac['P_' + k.upper()] for k in CATS}
    fn = c.fn(prog.get('add_PATH_score'))
    I = Rec(prog, {}); outs = I.run(fn)
    sc, path, g = param(fn, 1, 0), param(fn, 1, 1), param(fn, 1, 2)
    c.rule('category', 'adding a path increments exactly the counter of each item\'s category by one and adds exactly the weights that category calls for')
    n = 0; hdr = None; errloc = None
    for o in outs:
        if o.kind != 'back':
            continue
        L = last_loop_of(o, o.value)
        evs = [t for k in o.st.facts for t in subterms(k) if t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == 'eval']
        idx = [(loc, p, s) for loc, (p, s) in L[3].items() if same(o.st.env.get(loc, s), add(s, C(1))) and p == C(0)]
        w = where(fn, o.line)
        if not evs:
            continue
        hdr = o.value
        e = evs[0]
        item = e[1][1]
        idx = [x for x in idx if x[2] in list(subterms(item))]
        ptr = lambda f: ('init', ('fld', item, f), 0)
        poss = [k for k in CATS if I.compare(o.st, '==', e, C(LAB[k])) is not False]
        delta = {}
        for l, v in o.st.env.items():
            if l[0] == 'fld' and l[2] in CATS + WTS + ['nsent', 'serr', 'num_path', 'merges', 'splits'] and strip(l[1]) == strip(grp(sc, g)):
                delta[l[2]] = add(v, ('init', l, o.st.ep.get(absint.cls2(l), 0)), -1)
        other = [l for l in o.st.env if l[0] == 'fld' and l[2] in CATS + WTS and strip(l[1]) != strip(grp(sc, g))]
        if other:
            c.bad('category:group', w, 'counts are stored outside the group the path belongs to: %s' % showloc(other[0]))
        for k in poss:
            n += 1; c.ob('item labelled %s: %s' % (k, {x: show(y) for x, y in delta.items()}))
            wa = ('init', ('fld', ptr('a_ptr'), 'weight'), 0); wb = ('init', ('fld', ptr('b_ptr'), 'weight'), 0)
            want = {x: C(1 if x == k else 0) for x in CATS}
            W = {'ins': {'weight_ins': wb}, 'del': {'weight_del': wa, 'weight_ref': wa}, 'corr': {'weight_ref': wa, 'weight_corr': wb}, 'sub': {'weight_sub': add(wa, wb), 'weight_ref': wa}}[k]
            for x in WTS: want[x] = W.get(x, C(0))
            for x, v in want.items():
                got = delta.get(x, C(0))
                if strip(add(got, v, -1)) != C(0) and not same(unver(got), unver(v)):
                    c.bad('category:%s:%s' % (k, x), w, 'an item labelled %s changes %s by %s, required %s' % (k, x, show(got), show(v)), condlist(o))
            # error flag of the sentence
            errs = [(loc, p, s, add(o.st.env.get(loc, s), s, -1)) for loc, (p, s) in L[3].items() if p == C(0) and loc not in [i[0] for i in idx]]
            if k == 'corr':
                if any(d != C(0) for _, _, _, d in errs):
                    c.bad('category:corr:err', w, 'a correct item marks the sentence as erroneous', condlist(o))
            else:
                hit = [loc for loc, p, s, d in errs if isnum(d) and d[1] > 0]
                if not hit:
                    c.bad('category:%s:err' % k, w, 'an item labelled %s does not mark the sentence as erroneous' % k, condlist(o))
                else:
                    errloc = hit[0]
                    if narrow(prog, fn, errloc) and strip(o.st.env.get(errloc, C(0)))[0] != 'c':
                        c.bad('category:err:narrow', w, 'errors of the sentence are counted in a variable of type %s, which returns to 0' % narrow(prog, fn, errloc))
        if not idx:
            c.bad('category:walk', w, 'the items are not visited one by one from the first')
        elif strip(item) != strip(('addr', ('elem', ('init', ('fld', path, 'pset'), 0), idx[0][2]))) and not any(x[2] in list(subterms(item)) for x in idx):
            c.bad('category:walk2', w, 'the item examined is not the current one')
    for x in CATS + ['nsent', 'serr', 'num_path']:
        if narrow(prog, fn, ('fld', None, x)):
            c.bad('category:%s:narrow' % x, where(fn, fn.line), 'the counter %s has the type %s, which cannot hold every count' % (x, narrow(prog, fn, ('fld', None, x))))
    c.need(n >= 4, 'the accounting loop was not recognised')
    c.rule('sentence', 'every path adds one sentence, one erroneous sentence exactly if some item is an error, and is kept exactly once if requested')
    for o in outs:
        if o.kind != 'ret':
            continue
        w = where(fn, o.line)
        L = [e for e in o.events if e[0] == 'loop' and e[2] == hdr][-1]
        # loop left only when all items were seen
        num = ('init', ('fld', path, 'num'), 0)
        ctr = [s for loc, (p, s) in L[3].items() if p == C(0)]
        c.ob('sentence totals')
        if not any(I.compare(o.st, '>=', s, x) is True for s in ctr for x in fnum(o, path)):
            c.bad('sentence:early', w, 'accounting can stop before the last item', condlist(o))
        d = {}
        for e in o.events:
            if e[0] == 'set' and e[1][0] == 'fld' and e[1][2] in ('nsent', 'serr', 'num_path'):
                d.setdefault(e[1][2], []).append(e)
        if len(d.get('nsent', [])) != 1 or not plus1(d['nsent'][0]):
            c.bad('sentence:nsent', w, 'the sentence count does not grow by exactly one', condlist(o))
        errs = L[3].get(errloc)
        bad = I.compare(o.st, '>', errs[1], C(0)) if errs else None
        if bad is None and errs:
            bad = I.compare(o.st, '!=', errs[1], C(0))
        got = len(d.get('serr', []))
        if bad is None or got != (1 if bad else 0) or (got and not plus1(d['serr'][0])):
            c.bad('sentence:serr', w, 'the erroneous-sentence count changes by %d when errors%s were seen' % (got, '' if bad else ' possibly not'), condlist(o))
        keep = I.compare(o.st, '!=', param(fn, 1, 3), C(0))
        st = [e for e in o.events if e[0] == 'set' and e[1][0] == 'elem' and e[2] == path]
        if keep is True and (len(st) != 1 or len(d.get('num_path', [])) != 1) or keep is False and (st or 'num_path' in d):
            c.bad('sentence:keep', w, 'the path is stored %d times (requested: %s)' % (len(st), keep), condlist(o))
    # ------------------------------------------------------------ the printed per-utterance counts
    c.rule('printed', 'wherever per-utterance counts are recomputed from the items, each category variable counts exactly its own label')
    for f in sorted(prog.all(), key=lambda f: (f.file, f.line)):
        recount(c, prog, f, LAB)
    c.notes.append('loops recounting the items: %d obligations' % c.rules['printed']['obligations'])


def unver(t):
    s = strip(t)
    return s


def plus1(e):
    loc, v = e[1], e[2]
    d = add(v, ('init', loc, 0), -1)
    if d == C(1): return True
    # version differs
    p, k = absint.affparts(v)
    return k == 1 and len(p) == 1 and list(p.values()) == [1] and strip(list(p)[0]) == strip(('init', loc, 0))


def fnum(o, path):
    return [t for k in o.st.facts for t in subterms(k) if t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == 'num' and strip(t[1][1]) == strip(path)]


def grp(sc, g):
    return ('addr', ('elem', ('init', ('fld', sc, 'grp'), 0), g))


def recount(c, prog, f, LAB):
    """loops that count labels with local counters: derived from the function, whatever the variables are called"""
    gcf = ir.cfg(f)
    def uses_eval(b):
        t = gcf.blocks[b].term
        return any(x[0] == 'fld' and x[2] == 'eval' for e in ir.term_exprs(t) for x in ir.walk_expr(e))
    hs = [h for h, body in gcf.loops.items() if any(uses_eval(b) for b in body)]
    for h in hs:
        body = gcf.loops[h]
        if any(o != h and o in body for o in gcf.loops):
            continue
        incs = {i[1] for b in body for i in gcf.blocks[b].ins if i[0] == 'set' and i[1][0] == 'v' and i[2][0] == 'op' and i[2][1] == '+' and i[2][3] == ('c', 1)}
        if len(incs) < 4:
            continue
        outs = run_loop(prog, f, gcf, h)
        vec = {}
        for o, I in outs:
            evs = {t for k in o.st.facts for t in subterms(k) if t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == 'eval'}
            evs = [t for t in evs]
            L = last_loop_of(o, h)
            for k, val in LAB.items():
                I2 = I
                feasible = True
                # exact label value: decide every condition on the eval field under eval == val
                for cond, tv, line, ff in o.conds_in(h):
                    r = evalcond(cond, val)
                    if r is not None and r != tv: feasible = False
                if not feasible: continue
                for loc, (p, s) in L[3].items():
                    d = add(o.st.env.get(loc, s), s, -1)
                    if isnum(d): vec.setdefault(loc, {}).setdefault(k, set()).add(d[1])
        counters = {l: v for l, v in vec.items() if not all(x == {1} for x in v.values()) and any(x != {0} for x in v.values())}
        c.fn(f)
        got = {}
        for l, v in counters.items():
            c.ob('%s: variable %s counts %s' % (f.qn, l[3], v))
            if narrow(prog, f, l):
                c.bad('printed:%s:%s:narrow' % (f.qn, l[3]), where(f, f.line), 'the counter %s has the type %s, which cannot hold every count' % (l[3], narrow(prog, f, l)))
            key = [k for k in LAB if v.get(k) == {1}]
            if any(x not in ({0}, {1}) for x in v.values()) or len(key) != 1:
                c.bad('printed:%s:%s' % (f.qn, l[3]), where(f, f.line), 'the counter %s of the item loop does not count exactly one category: %s' % (l[3], v)); continue
            got.setdefault(key[0], []).append(l)
        for k in LAB:
            c.ob()
            if len(got.get(k, [])) != 1:
                c.bad('printed:%s:%s' % (f.qn, k), where(f, f.line), 'items labelled %s are counted by %d of the loop\'s counters' % (k, len(got.get(k, []))))


def evalcond(cond, val):
    """truth of a condition when the eval field has this value; None if it does not depend on it alone"""
    def ev(t):
        if t[0] == 'c': return t[1]
        if t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == 'eval': return val
        if t[0] == 'op' and len(t) == 4:
            a, b = ev(t[2]), ev(t[3])
            if a is None or b is None: return None
            return {'&': lambda: a & b, '|': lambda: a | b, '+': lambda: a + b, '-': lambda: a - b}.get(t[1], lambda: None)()
        if t[0] == 'cmp':
            a, b = ev(t[2]), ev(t[3])
            if a is None or b is None: return None
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[t[1]]
        return None
    r = ev(cond)
    return None if r is None else bool(r)


