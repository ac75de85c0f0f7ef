"""S09: rover's vote -- candidate statistics, score formula, selection and output of every correspondence set."""
import random
from fractions import Fraction
import facts, ir, absint
from absint import C, show, showloc, add, isnum, affparts
from util import *
from S02 import strip, param, subterms

FORM = {  # method name -> score of a word (o occurrences of n arcs, s sum of confidences, m largest, t total of the set)
    'meth1': lambda a, o, n, s, m, t: a * o / n + (1 - a) * s / o,
    'maxconf': lambda a, o, n, s, m, t: a * o / n + (1 - a) * m,
    'avgconf': lambda a, o, n, s, m, t: a * o / n + (1 - a) * s / t,
}
TEXTS = {'meth1': 'alpha*occ/n + (1-alpha)*mean confidence', 'maxconf': 'alpha*occ/n + (1-alpha)*largest confidence', 'avgconf': 'alpha*occ/n + (1-alpha)*share of the confidences'}


class Ev(Exception):
    pass


def num(t, env):
    """exact value of an arithmetic term under env(term)->Fraction or None (polynomial identity testing)"""
    v = env(t)
    if v is not None: return v
    k = t[0]
    if isnum(t): return Fraction(t[1]).limit_denominator(10**9)
    if k == 'aff':
        r = Fraction(t[2]).limit_denominator(10**9)
        for x, q in t[1]: r += Fraction(q).limit_denominator(10**9) * num(x, env)
        return r
    if k == 'op' and len(t) == 4:
        a, b = num(t[2], env), num(t[3], env)
        if t[1] == '*': return a * b
        if t[1] == '/':
            if b == 0: raise Ev('division by zero')
            return a / b
        if t[1] == 'i/':
            if b == 0: raise Ev('division by zero')
            q = abs(a) // abs(b)
            return Fraction(q if (a < 0) == (b < 0) else -q)
    if k == 'ite': return num(t[2], env) if truth(t[1], env) else num(t[3], env)
    if k == 'cast': return num(t[2], env)
    raise Ev('no value for ' + show(t))


def truth(t, env):
    if t[0] == 'cmp':
        a, b = num(t[2], env), num(t[3], env)
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[t[1]]
    return num(t, env) != 0


class Vote(Rec):
    pass


def lkey(o):
    """(function, header) of the loop a 'back' outcome belongs to"""
    for e in reversed(o.events):
        if e[0] == 'loop' and e[2] == o.value and e[1] == o.fn.qn: return (e[1], e[2])
    return (o.fn.qn, o.value)


def lookup(o, key):
    r = None
    for e in o.events:
        if e[0] == 'loop' and (e[1], e[2]) == key: r = e
    return r


def since(o, key):
    r = []; on = False
    for e in o.events:
        if e[0] == 'loop' and (e[1], e[2]) == key: on = True; r = []
        elif on: r.append(e)
    return r


def methods(c, prog):
    """method names and codes: from the chain of comparisons that parses -m"""
    codes = {}
    for fn in prog.all():
        if not fn.rel().endswith('rover.c'): continue
        g = ir.cfg(fn)
        if not any(i[0] == 'call' and i[2] == 'strcmp' and ('c', 'maxconf') in i[4] for b in g.blocks for i in b.ins): continue
        c.fn(fn)
        for h in g.loops:
            res = run_loop(prog, fn, g, h, {'atof': pure('atof'), 'atoi': pure('atoi')}, maxpaths=3000)
            for o, I in res:
                for k, f in o.st.facts.items():
                    if k[0] == 'strcmp' and f[0] == f[2] == 0 and isinstance(k[3][1], str) and not k[3][1].startswith('-'):
                        v = [e for e in o.events if e[0] == 'set' and e[1][0] in ('elem', 'fld') and isnum(e[2])]
                        for e in v: codes.setdefault(k[3][1], set()).add(e[2][1])
    return codes


def check(c):
    prog = c.prog('sclite')
    c.rule('method', 'each voting method named on the command line selects its own code')
    codes = methods(c, prog)
    for n in ('meth1', 'maxconf', 'avgconf', 'oracle', 'putat'):
        c.ob('method %s has code %s' % (n, codes.get(n)))
        if n not in codes or len(codes[n]) != 1: c.bad('method:' + n, 'src/sclite/rover.c (proc_args)', 'the method %s is not turned into one method code (%s)' % (n, codes.get(n)))
    codes = {k: min(v) for k, v in codes.items() if len(v) == 1}
    for a in codes:
        for b in codes:
            if a < b and codes[a] == codes[b]: c.bad('method:%s:%s' % (a, b), 'src/sclite/rover.c (proc_args)', 'the methods %s and %s are not distinguished' % (a, b))
    fn = voter(prog)
    c.need(fn, 'the voting function is not recognised')
    c.fn(fn)
    for n in ('meth1', 'maxconf', 'avgconf', 'oracle', 'putat'):
        if n in codes: vote(c, prog, fn, n, codes[n])
    c.part(wiring, c, prog)


def voter(prog):
    for f in prog.all():
        if f.rel().endswith('rover.c') and len(f.params) == 2 and 'node' in f.type(f.params[0]['t']).lower() and \
           any(i[0] == 'call' and i[2] == 'fprintf' for b in ir.cfg(f).blocks for i in b.ins): return f
    return None


def vote(c, prog, fn, name, code):
    own = {f.qn for f in prog.all() if f.rel().endswith('rover.c')}
    def ind(s, st, args, node, line, caller):
        fv = node['fv']; n = fv[1][2] if fv[0] == 'init' and fv[1][0] == 'fld' else show(fv)
        return ('call', n, tuple(sorted(args, key=repr)), 0)
    eq2 = lambda s, st, a, node, line, caller: ('call', 'equal', tuple(sorted(a, key=repr)), 0)
    I = Vote(prog, {'equal_WORD2': eq2, 'equal_WORD': eq2}, ind, opaque=[f.qn for f in prog.all() if f.qn not in own], maxpaths=20000)
    st = I.start(fn)
    st.env[('g', 'mfdb')] = C(0)
    node, p = param(fn, 1, 0), param(fn, 1, 1)
    st.env[('fld', p, 'method')] = C(code)
    st.env[('fld', p, 'putat_format')] = C(1 if name == 'putat' else 0)
    st.env[('fld', p, 'ctm_format')] = C(0 if name == 'putat' else 1)
    outs = I.run(st)
    arcs = ('init', ('fld', node, 'out_arcs'), 0)
    key = 'vote:' + name
    # ------------------------------------------------------------ roles of the accumulated quantities
    c.rule('candidates', 'every arc of the set is visited once; it adds 1, its times and its confidence to the entry of the word it equals, or opens a new entry after the last; all entries start at zero')
    role = {}      # stripped array base -> role
    acc = None; zero = {}; scal = {}; cnt = None; wl = None
    backs = [o for o in outs if o.kind == 'back']
    for o in backs:
        k = lkey(o); L = lookup(o, k); ev = since(o, k)
        parc = [(loc, pre, s) for loc, (pre, s) in L[3].items() if strip(pre) == strip(arcs) and strip(o.st.env.get(loc, s)) == strip(('init', ('fld', s, 'next'), 0))]
        inc = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem' and add(e[2], ('init', e[1], 0), -1) == C(1) or e[0] == 'set' and e[1][0] == 'elem' and strip(add(e[2], ('init', e[1], o.st.ep.get('elem', 0)), -1)) == C(1)]
        if parc and inc: acc = k
    if not acc:
        c.bad(key + ':collect', where(fn, fn.line), 'no loop counts the arcs of the set per word'); return
    maxes = {}
    for o in backs:
        if lkey(o) != acc: continue
        L = lookup(o, acc); ev = since(o, acc)
        parc = [(loc, s) for loc, (pre, s) in L[3].items() if strip(pre) == strip(arcs)]
        if not parc: c.bad(key + ':arcs', where(o.fn, o.fn.line), 'the candidates are not collected from the first arc of the set on'); continue
        nxt = o.st.env.get(parc[0][0], parc[0][1])
        if strip(nxt) != strip(('init', ('fld', parc[0][1], 'next'), 0)):
            c.bad(key + ':next', where(o.fn, o.fn.line), 'the arc after the current one is not the next to be considered (%s)' % show(nxt), condlist(o)); continue
        D = ('init', ('fld', ('init', ('fld', parc[0][1], 'arc'), 0), 'data'), 0)
        fld = lambda f: strip(('init', ('fld', D, f), 0))
        n0 = len(list(absint._unroll(L[5])))
        w = where(o.fn, next((e[3] for e in ev if e[0] == 'set'), o.fn.line))
        c.ob('%s: arc path %s' % (name, ' '.join(('' if tv else '!') + show(cc)[:40] for cc, tv, *_ in o.conds[n0:])))
        # last value stored per cell
        fin = {}
        for e in ev:
            if e[0] == 'set' and e[1][0] == 'elem': fin[(strip(e[1][1]), e[1][2])] = (e[2], e[1], e[3])
        got = {}
        idx = {i for (b, i) in fin}
        if len(idx) != 1: c.bad(key + ':entry', w, 'one arc changes %d entries' % len(idx), condlist(o)); continue
        i, = idx
        for (b, _), (v, l, ln) in fin.items():
            d = strip(add(v, ('init', l, 0), -1)); d2 = add(v, ('init', l, o.st.ep.get('elem', 0)), -1)
            self_ = [x for x in subterms(v) if x[0] == 'init' and strip(x[1]) == strip(l)]
            base = add(v, self_[0], -1) if self_ else None
            if strip(v) == strip(D): got['word'] = b
            elif base == C(1): got['occ'] = b
            elif base is not None and strip(base) == fld('T1'): got['t1'] = b
            elif base is not None and strip(base) == fld('T2'): got['t2'] = b
            elif base is not None and strip(base) == fld('conf'): got['sum'] = b
            elif strip(v) == fld('conf') or base == C(0): maxes.setdefault(b, []).append((o, v, l, D, ln))
            else: c.bad(key + ':add', where(o.fn, ln), 'an arc changes %s to %s' % (showloc(l), show(v)), condlist(o))
        for r in ('occ', 't1', 't2', 'sum'):
            if r not in got: c.bad(key + ':' + r, w, {'occ': 'an arc does not count as one occurrence of its word', 't1': 'the begin time of an arc is not added to its word', 't2': 'the end time of an arc is not added to its word', 'sum': 'the confidence of an arc is not added to its word'}[r], condlist(o))
        for r, b in got.items():
            if role.setdefault(b, r) != r: c.bad(key + ':mixed', w, 'one table collects both %s and %s' % (role[b], r))
        if 'word' in got: wl = got['word']
        # scalars
        for loc, (pre, s) in L[3].items():
            d = add(o.st.env.get(loc, s), s, -1)
            if strip(d) == fld('conf'): scal.setdefault(loc, set()).add('tot')
            elif d == C(1) and 'word' in got and add(i, s, -1) is not None: scal.setdefault(loc, set()).add('new')
            elif d == C(0): scal.setdefault(loc, set()).add('same' if 'word' not in got else 'same-new')
            elif d == C(1): scal.setdefault(loc, set()).add('one')
            if loc in scal and ('new' in scal[loc] or 'tot' in scal[loc]) and pre != C(0):
                c.bad(key + ':start:' + loc[3], w, '%s starts from %s' % (loc[3], show(pre)))
        # entry: an equal word, or a new one behind the last
        eq = [x for x in o.st.facts if x[0] == 'call' and x[1] == 'equal' and any(strip(y) == strip(D) for y in x[2])]
        hit = [x for x in eq if I.compare(o.st, '==', x, C(0)) is True and any(y[0] == 'init' and y[1][0] == 'elem' and y[1][2] == i for y in x[2])]
        cnts = [(loc, s) for loc, (pre, s) in L[3].items() if pre == C(0) and add(o.st.env.get(loc, s), s, -1) == C(1) and (I.compare(o.st, '==', i, s) is True or i[0] == 'sym' and I.compare(o.st, '>=', i, s) is True)]
        if 'word' in got:
            lastn = [loc for loc, s in cnts]
            if not lastn: c.bad(key + ':append', w, 'a new word is not entered behind the last entry and counted', condlist(o))
            if hit: c.bad(key + ':duplicate', w, 'a word that is already listed is entered again', condlist(o))
            for loc in lastn: cnt = loc
        elif not hit:
            # the search ended at the end of the list: not a feasible path without a new entry
            if not any(I.compare(o.st, '<', i, s) is False and I.compare(o.st, '==', i, s) is False for loc, (pre, s) in L[3].items() if pre == C(0)):
                c.bad(key + ':lump', w, 'an arc is added to the entry of a word it does not equal', condlist(o))
    if wl is None or cnt is None:
        c.bad(key + ':listed', where(fn, fn.line), 'no table of the different words of the set is filled'); return
    role[wl] = 'word'
    # largest confidence
    for b, l in maxes.items():
        good = True
        for o, v, loc, D, ln in l:
            conf = ('init', ('fld', D, 'conf'), 0)
            conf = next((x for e in since(o, acc) if e[0] == 'set' for x in subterms(e[2]) if strip(x) == strip(conf)), conf)
            old = ('init', loc, 0)
            old = next((x for k in list(o.st.facts) + [v] for x in subterms(k) if x[0] == 'init' and strip(x[1]) == strip(loc)), old)
            occ = [k for k, r in role.items() if r == 'occ']
            first = any(first_occ(I, o, e, occ) for e in since(o, acc) if e[0] == 'set')
            if strip(v) == strip(conf) and first: continue
            if I.compare(o.st, '>=', v, conf) is True and I.compare(o.st, '>=', v, old) is True: continue
            good = False
            if name == 'maxconf': c.bad(key + ':max', where(o.fn, ln), 'the largest confidence of a word becomes %s, not the larger of it and the arc\'s' % show(v), condlist(o))
        if good: role[b] = 'max'
    # zeroing
    for o in backs:
        k = lkey(o)
        if k == acc: continue
        L = lookup(o, k)
        for e in since(o, k):
            if e[0] == 'set' and e[1][0] == 'elem' and strip(e[1][1]) in role and e[2] == C(0): zero.setdefault(strip(e[1][1]), []).append((o, L, e))
    for b, r in role.items():
        if r in ('word', 'max'): continue
        c.ob('table of %s starts at zero' % r)
        z = zero.get(b)
        decl = any(e[0] == 'set' and e[1][0] == 'v' and strip(e[2]) == b for o in outs for e in o.events)
        if not z:
            if b[0] == 'undef': c.bad(key + ':zero:' + r, where(fn, fn.line), 'the table of %s is not cleared before the set is examined' % r)
            continue
        o, L, e = z[0]
        for loc, (pre, s) in L[3].items():
            if e[1][2] == s and (not isnum(pre) or pre[1] != 0): c.bad(key + ':zero:' + r, where(o.fn, e[3]), 'clearing the table of %s starts at entry %s' % (r, show(pre)))
    # arcs counted
    narc = {}
    for o in backs:
        k = lkey(o); L = lookup(o, k)
        par = [(loc, s) for loc, (pre, s) in L[3].items() if strip(pre) == strip(arcs) and strip(o.st.env.get(loc, s)) == strip(('init', ('fld', s, 'next'), 0))]
        if not par: continue
        n0 = len(list(absint._unroll(L[5])))
        for loc, (pre, s) in L[3].items():
            d = add(o.st.env.get(loc, s), s, -1)
            narc.setdefault((k, loc), set()).add((pre, d))
    narc = {k for k, v in narc.items() if v == {(C(0), C(1))}}
    if name in FORM and not narc: c.bad(key + ':arccount', where(fn, fn.line), 'the arcs of the set are not counted from zero, one by one')

    def roleof(o, t, want_idx=None):
        """role of a term in outcome o: ('occ', index) ..., 'n', 'tot', 'alpha'"""
        if t[0] == 'init' and t[1][0] == 'elem' and strip(t[1][1]) in role: return role[strip(t[1][1])], t[1][2]
        if t[0] == 'init' and t[1][0] == 'elem' and strip(t[1][1]) in scoretab: return 'score', t[1][2]
        if strip(t) == strip(('init', ('fld', p, 'alpha'), 0)): return 'alpha', None
        for k, loc in narc:
            L = lookup(o, k)
            if L and L[3].get(loc, (None, None))[1] == t: return 'n', None
        L = lookup(o, acc)
        if L:
            for loc, (pre, s) in L[3].items():
                if s == t and scal.get(loc) == {'tot'}: return 'tot', None
        return None
    scoretab = {}

    def value(o, t, idx, s):
        """value of term t for sample s if its tables are all read at idx"""
        def env(x):
            r = roleof(o, x)
            if r is None: return None
            if r[1] is not None and r[1] != idx: raise Ev('an entry other than the current one is used: ' + show(x))
            if r[0] not in s: raise Ev('the score uses ' + r[0])
            return s[r[0]]
        return num(t, env)
    rnd = random.Random(7)
    samples = []
    for _ in range(6):
        o_ = rnd.randint(1, 5); n_ = o_ + rnd.randint(0, 4); m_ = Fraction(rnd.randint(1, 99), 100); s_ = m_ * o_ * Fraction(rnd.randint(50, 99), 100); t_ = s_ + Fraction(rnd.randint(0, 200), 100)
        samples.append({'occ': Fraction(o_), 'n': Fraction(n_), 'sum': s_, 'max': m_, 'tot': t_, 'alpha': Fraction(rnd.randint(1, 9), 10), 't1': Fraction(rnd.randint(1, 500), 7), 't2': Fraction(rnd.randint(600, 900), 7)})
    if name in FORM:
        for s in samples: s['score'] = expected(name, s)
        selection(c, I, fn, name, backs, acc, cnt, role, scoretab, value, samples, key, outs)
    output(c, I, fn, name, outs, backs, acc, cnt, role, value, samples, key, p, node, arcs, wl)
    refusals(c, prog, I, fn, name, outs, backs, acc, cnt, role, key, node, arcs, wl)


def dims(prog, fn, b):
    """number of elements of a local array, None if it is not one of fixed size"""
    if b[0] != 'undef': return None
    for t in ctypes(prog, fn, b[1]):
        m = re.search(r'\[(\d+)\]', t)
        if m: return int(m.group(1))
    return None


def refusals(c, prog, I, fn, name, outs, backs, acc, cnt, role, key, node, arcs, wl):
    c.rule('refusal', 'every node with arcs is voted on; the run stops only if the arcs do not lead to one node, if the table of candidates is full, or if there is no candidate; no entry beyond the tables is used')
    size = min([d for d in (dims(prog, fn, b) for b in role) if d] or [0])
    def limits(o, t):
        """constants the index t is compared with on this path: (op, constant)"""
        for cc, tv, *_ in o.conds:
            if cc[0] != 'cmp': continue
            for x, y, fl in ((cc[2], cc[3], 0), (cc[3], cc[2], 1)):
                if not isnum(y): continue
                d = add(x, t, -1)
                if not isnum(d):
                    if I.compare(o.st, '==', x, t) is not True and I.compare(o.st, '>=', x, t) is not True: continue      # a search that stops at the end of the list
                    d = C(0)
                op = cc[1] if tv else {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[cc[1]]
                if fl: op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                k = y[1] - d[1]
                yield {'<=': '<', '>': '>='}.get(op, op), k + 1 if op in ('<=', '>') else k
    seen = set()
    for o in outs:
        A = lookup(o, acc)
        if A and not any(x[0] == 'strcmp' and I.compare(o.st, '!=', x, C(0)) is True and C('STOP') in x for x in o.st.facts) and I.compare(o.st, '!=', arcs, C(0)) is not True:
            c.bad(key + ':end', where(fn, fn.line), 'the last node, which has no arcs, is voted on', condlist(o))
        if o.kind == 'ret':
            c.ob('%s: return' % name)
            if A: continue
            if I.compare(o.st, '==', node, C(0)) is True: continue
            if any(x[0] == 'strcmp' and I.compare(o.st, '==', x, C(0)) is True and C('STOP') in x for x in o.st.facts): continue
            if I.compare(o.st, '==', arcs, C(0)) is True: continue
            w = where(o.fn, o.conds[-1][2] if o.conds else fn.line)
            c.bad(key + ':skip', w, 'a node with arcs is passed over', condlist(o))
        elif o.kind == 'stop':
            w = where(o.fn, o.conds[-1][2] if o.conds else fn.line)
            c.ob('%s: stop' % name)
            if any(cc[0] == 'cmp' and all(x[0] == 'init' and x[1][0] == 'fld' and x[1][2] == 'to_node' for x in cc[2:4]) and I.compare(o.st, '!=', cc[2], cc[3]) is True for cc, *_ in o.conds): continue
            if any(x[0] == 'call' and x[1] in ('malloc', 'calloc') and I.compare(o.st, '==', x, C(0)) is True for x in o.st.facts): continue
            best = getattr(c, 'best', None); L = lookup(o, best[0]) if best else None
            if L and best[1] in L[3] and I.compare(o.st, '<', L[3][best[1]][1], C(0)) is True: continue
            if A and cnt in A[3]:
                lim = [k for op, k in limits(o, A[3][cnt][1]) if op in ('==', '>=')]
                if lim and max(lim) >= max(size - 1, 1): continue
            c.bad(key + ':refused', w, 'the run stops although the set can be voted on', condlist(o))
    for o in backs:
        if lkey(o) != acc: continue
        for e in since(o, acc):
            if e[0] != 'set' or e[1][0] != 'elem' or strip(e[1][1]) != wl: continue
            d = dims(prog, fn, strip(e[1][1])); c.ob('%s: room for a new word' % name)
            if not size: continue
            if not any(op in ('<', '!=') and k <= size for op, k in limits(o, e[1][2])): c.bad(key + ':room', where(o.fn, e[3]), 'a word is entered without room for it (%d entries)' % size, condlist(o))


def above(I, st, t, k):
    """t > k for an integer term (True/False/None)"""
    cmp = lambda op, v: I.compare(st, op, t, C(v)) is True
    if cmp('>', k) or cmp('>=', k + 1) or cmp('>=', k) and cmp('!=', k): return True
    if cmp('<=', k) or cmp('<', k + 1) or cmp('<=', k + 1) and cmp('!=', k + 1) or cmp('<', k + 2) and cmp('!=', k + 1): return False
    return None


def first_occ(I, o, e, occ):
    """the entry has exactly one occurrence on this path"""
    if e[1][0] == 'elem' and strip(e[1][1]) in occ:
        for k in o.st.facts:
            if strip(k) == strip(e[2]) or k[0] == 'init' and strip(k[1]) == strip(e[1]):
                if I.compare(o.st, '==', e[2], C(1)) is True: return True
        return I.compare(o.st, '==', e[2], C(1)) is True
    return False


def expected(name, s):
    return FORM[name](s['alpha'], s['occ'], s['n'], s['sum'], s['max'], s['tot'])


def covers(c, o, L, s, pre, cnt, acc, key, what):
    """the loop visits entries 0 .. count-1, one by one"""
    n0 = len(list(absint._unroll(L[5])))
    w = where(o.fn, o.conds[n0][2] if len(o.conds) > n0 else o.fn.line)
    if pre != C(0): c.bad(key + ':first', w, '%s starts with entry %s' % (what, show(pre)))
    A = lookup(o, acc); n = A[3][cnt][1] if A and cnt in A[3] else None
    for cc, tv, line, f in o.conds[n0:n0 + 1]:
        if cc[0] != 'cmp' or s not in subterms(cc): continue
        d = add(cc[2], cc[3], -1)
        op = cc[1] if tv else {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[cc[1]]
        # entry condition must be exactly s < n
        want = add(s, n, -1) if n is not None else None
        ok = want is not None and (op == '<' and d == want or op == '<=' and add(d, C(-1)) == want or op == '>' and add(d, want) == C(0) or op == '!=' and (d == want or add(d, want) == C(0)) or op == '>=' and add(add(d, want), C(1)) == C(0))
        if not ok: c.bad(key + ':last', w, '%s goes on while %s %s %s, not over exactly the entries' % (what, show(cc[2]), op, show(cc[3])))


def zerotot(o, L, b):
    """the path takes the branch for a set whose confidences sum to zero"""
    n0 = len(list(absint._unroll(L[5])))
    return any(cc[0] == 'cmp' and cc[1] in ('==', '!=') and cc[3] == C(0) and (cc[1] == '==') == tv and cc[2] != b for cc, tv, *_ in o.conds[n0:])


def selection(c, I, fn, name, backs, acc, cnt, role, scoretab, value, samples, key, outs):
    c.rule('score', 'the score of a word is ' + '; '.join('%s: %s' % kv for kv in TEXTS.items()))
    # tables holding the score
    stores = {}
    for o in backs:
        k = lkey(o)
        if k == acc: continue
        L = lookup(o, k)
        for e in since(o, k):
            if e[0] == 'set' and e[1][0] == 'elem' and strip(e[1][1]) not in role and e[2] != C(0):
                zt = zerotot(o, L, None)
                ss = samples if not zt else [dict(s, tot=Fraction(0), sum=Fraction(0)) for s in samples]
                try: ok = all(value(o, e[2], e[1][2], s) == (s['alpha'] * s['occ'] / s['n'] if zt else expected(name, s)) for s in ss)
                except Ev as x: ok = False
                c.ob('%s: score stored on path ending at line %s' % (name, e[3]))
                stores.setdefault(strip(e[1][1]), []).append((ok, o, e))
    for b, l in stores.items():
        if not any(ok for ok, o, e in l): continue
        scoretab[b] = 1
        for ok, o, e in l:
            if not ok: c.bad(key + ':formula', where(o.fn, e[3]), 'the score of a word is %s; method %s requires %s' % (show(e[2]), name, TEXTS[name]), condlist(o))
    c.rule('selection', 'the word written is one with the highest score: the running best is replaced exactly by a word with a higher score, and every word is examined')
    sel = None
    for o in backs:
        k = lkey(o)
        if k == acc: continue
        L = lookup(o, k)
        ind = [(loc, pre, s) for loc, (pre, s) in L[3].items() if add(o.st.env.get(loc, s), s, -1) == C(1) and loc[0] == 'v']
        for loc, (pre, s) in L[3].items():
            now = o.st.env.get(loc, s)
            for il, ip, is_ in ind:
                if now == is_ and loc != il: sel = (k, loc, il)
    if sel is None:
        c.bad(key + ':none', where(fn, fn.line), 'no loop remembers the best word'); return
    k, B, il = sel
    # the remembered score: variable changed on exactly the paths where B changes
    upd = [o for o in backs if lkey(o) == k]
    M = None
    for o in upd:
        L = lookup(o, k); i = L[3][il][1]
        if o.st.env.get(B, L[3][B][1]) != i: continue
        for loc, (pre, s) in L[3].items():
            v = o.st.env.get(loc, s)
            if loc in (B, il) or v == s or isnum(v): continue
            try: vals = [value(o, v, i, s_) for s_ in samples]
            except Ev: continue
            M = M or loc
    if M is None:
        c.bad(key + ':score', where(fn, fn.line), 'the score remembered with the best word is not computed from the statistics of that word'); return
    for o in upd:
        L = lookup(o, k); i, ip = L[3][il][1], L[3][il][0]; b = L[3][B][1]; m = L[3][M][1]
        w = where(o.fn, o.conds[-1][2] if o.conds else o.fn.line)
        c.ob('%s: selection path' % name)
        covers(c, o, L, i, ip, cnt, acc, key + ':select', 'the selection of the best word')
        n0 = len(list(absint._unroll(L[5])))
        zt = zerotot(o, L, b)
        ss = samples if not zt else [dict(s, tot=Fraction(0), sum=Fraction(0)) for s in samples]
        want = [s['alpha'] * s['occ'] / s['n'] if zt else expected(name, s) for s in ss]

        def isscore(t):
            if t[0] == 'init' and t[1][0] == 'elem' and strip(t[1][1]) in scoretab: return t[1][2] == i
            try: return [value(o, t, i, s) for s in ss] == want
            except Ev: return False
        nb, nm = o.st.env.get(B, b), o.st.env.get(M, m)
        if nb == i and nm != m:
            if not isscore(nm):
                c.bad(key + ':formula', w, 'the score of a word is %s; method %s requires %s' % (show(nm), name, TEXTS[name]), condlist(o)); continue
            none = I.compare(o.st, '<', b, C(0)) is True or I.compare(o.st, '==', b, C(-1)) is True
            if not none and I.compare(o.st, '>=', nm, m) is not True:
                c.bad(key + ':worse', w, 'a word replaces the best one although its score is not known to be higher', condlist(o))
        elif nb == b and nm == m:
            ok = False
            for cc, tv, *_ in o.conds[n0:]:
                if cc[0] != 'cmp': continue
                x, y, op = cc[2], cc[3], cc[1]
                if not tv: op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
                # canonical: the compare may have been moved to one side
                for s_, other in ((x, y), (y, x)):
                    if other == m and isscore(s_) and (op if s_ is x else {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]) in ('<=', '<', '=='): ok = True
            if not ok: c.bad(key + ':missed', w, 'a word is passed over although its score is not known to be at most the best so far (method %s: %s)' % (name, TEXTS[name]), condlist(o))
        else:
            c.bad(key + ':pair', w, 'best word and best score are not replaced together', condlist(o))
    c.best = (k, B)
    for o in outs:
        L = lookup(o, k)
        if L and I.compare(o.st, '>=', L[3][B][0], C(0)) is True: c.bad(key + ':initial', where(fn, fn.line), 'the best word is initially entry %s' % show(L[3][B][0]))
        if L and I.compare(o.st, '<', L[3][B][0], C(0)) is True and L[3][M][0][0] == 'undef': pass


FP = {'%s': 's', '%.3f': 'f', '%.6f': 'f'}


def written(o, p, ev):
    """text and arguments written to the output file"""
    fmt = ''; args = []
    for e in ev:
        if e[0] == 'call' and e[1] in ('fprintf', 'fputs', 'fputc', 'putc', 'fwrite'):
            if e[1] == 'fprintf':
                if strip(e[2][0]) != strip(('init', ('fld', p, 'fpout'), 0)): continue
                if e[2][1][0] != 'c': return None
                fmt += e[2][1][1]; args += e[2][2:]
            else: return None
    return fmt, args


def subst(fmt, args):
    """constant string arguments are part of the text"""
    import re
    parts = re.split(r'(%[-0-9.]*l?[sdf])', fmt); out = []; rest = []; n = 0; text = ''
    for x in parts:
        if x.startswith('%') and len(x) > 1:
            a = args[n] if n < len(args) else None; n += 1
            if a is not None and a[0] == 'c' and isinstance(a[1], str) and x == '%s': text += a[1]
            else: text += x; rest.append(a)
        else: text += x
    return text, rest


def output(c, I, fn, name, outs, backs, acc, cnt, role, value, samples, key, p, node, arcs, wl):
    c.rule('output', 'the winning word is written once with file, channel, mean begin time, mean duration and mean confidence, nothing is written for the null word; oracle writes all words of the set as alternates, putat every arc')
    f_ = lambda b, f: ('init', ('fld', b, f), 0)

    def line(o, args, idx, w, what):
        fail = None
        if len(args) != 6: fail = 'has %d values' % len(args)
        elif strip(args[0]) != strip(f_(p, 'file')) or strip(args[1]) != strip(f_(p, 'chan')): fail = 'does not begin with the file and channel'
        elif not (args[4][0] == 'init' and args[4][1][0] == 'fld' and args[4][1][2] == 'value' and args[4][1][1][0] == 'init' and args[4][1][1][1][0] == 'elem' and strip(args[4][1][1][1][1]) == wl and args[4][1][1][1][2] == idx): fail = 'names %s instead of the word chosen' % show(args[4])
        else:
            for n, (lab, wv) in {2: ('begin time', lambda s: s['t1'] / s['occ']), 3: ('duration', lambda s: (s['t2'] - s['t1']) / s['occ']), 5: ('confidence', lambda s: s['sum'] / s['occ'])}.items():
                try: ok = all(value(o, args[n], idx, s) == wv(s) for s in samples)
                except Ev as x: ok = False
                if not ok: fail = 'gives %s as the %s, not the mean over the arcs of the word' % (show(args[n]), lab)
        c.ob('%s: %s' % (name, what))
        if fail: c.bad(key + ':line', w, '%s %s' % (what, fail), condlist(o))
    if name in FORM:
        n = 0
        for o in outs:
            if o.kind != 'ret': continue
            best = getattr(c, 'best', None)
            if not best or not lookup(o, best[0]): continue
            L = lookup(o, best[0]); b = L[3][best[1]][1]
            ev = since(o, best[0])
            wr = written(o, p, ev)
            if wr is None: c.notes.append('%s: output not understood' % name); continue
            text, args = subst(*wr)
            isnull = None
            for x in o.st.facts:
                if x[0] == 'call' and x[1] == 'equal' and any(strip(y) == strip(f_(p, 'null_alt')) for y in x[2]) and any(y[0] == 'init' and y[1][0] == 'elem' and strip(y[1][1]) == wl and y[1][2] == b for y in x[2]):
                    isnull = I.compare(o.st, '==', x, C(0))
            w = where(o.fn, next((e[3] for e in ev if e[0] == 'call' and e[1] == 'fprintf'), fn.line)); n += 1
            if isnull is True:
                c.ob('%s: the null word wins' % name)
                if args or text.strip(): c.bad(key + ':null', w, 'a line is written although the null word won', condlist(o))
            elif isnull is None: c.bad(key + ':nulltest', w, 'whether the null word won is not considered', condlist(o))
            else:
                if text != '%s %s %.3f %.3f %s %.6f\n': c.bad(key + ':form', w, 'the winning word is written as %r' % text, condlist(o))
                else: line(o, args, b, w, 'the line of the winning word')
        if not n: c.bad(key + ':silent', where(fn, fn.line), 'nothing is written for the winning word')
    elif name == 'oracle':
        n = 0
        for o in backs:
            k = lkey(o); L = lookup(o, k)
            wr = written(o, p, since(o, k))
            if wr is None or not wr[0]: continue
            text, args = subst(*wr)
            ind = [(loc, pre, s) for loc, (pre, s) in L[3].items() if add(o.st.env.get(loc, s), s, -1) == C(1)]
            w = where(o.fn, next(e[3] for e in since(o, k) if e[0] == 'call' and e[1] == 'fprintf'))
            if not ind: c.bad(key + ':walk', w, 'the alternates are not written one after the other'); continue
            il, ip, i = ind[0]
            covers(c, o, L, i, ip, cnt, acc, key + ':alts', 'the list of alternates')
            A = lookup(o, acc); nw = A[3][cnt][1] if A and cnt in A[3] else None
            many = above(I, o.st, nw, 1) if nw else None
            lastw = above(I, o.st, add(i, nw, -1), -2) if nw else None
            n += 1
            if text.split('\n')[0] != '%s %s %.3f %.3f %s %.6f': c.bad(key + ':form', w, 'an alternate is written as %r' % text, condlist(o)); continue
            line(o, args[:6], i, w, 'the line of an alternate')
            rest = text.split('\n', 1)[1]
            want = '' if many is False else '%s %s * * <ALT_END>\n' if lastw is True else '%s %s * * <ALT>\n' if lastw is False else None
            if many is None or want is None or rest != want:
                c.bad(key + ':marks', w, 'an alternate (%s) is followed by %r' % ('only one' if many is False else 'last' if lastw else 'not last', rest), condlist(o))
        if not n: c.bad(key + ':silent', where(fn, fn.line), 'no alternates are written')
        for o in outs:
            if o.kind != 'ret': continue
            A = lookup(o, acc)
            if not A: continue
            nw = A[3][cnt][1]; many = above(I, o.st, nw, 1)
            wr = written(o, p, o.events)
            if wr is None: continue
            text, args = subst(*wr); c.ob()
            if many is None or many is True and text != '%s %s * * <ALT_BEGIN>\n' or many is False and text: c.bad(key + ':begin', where(fn, fn.line), 'a set with %s words is introduced by %r' % ('several' if many else 'one', text), condlist(o))
    else:
        n = 0
        for o in backs:
            k = lkey(o); L = lookup(o, k)
            wr = written(o, p, since(o, k))
            if wr is None or not wr[0]: continue
            text, args = subst(*wr)
            par = [(loc, s) for loc, (pre, s) in L[3].items() if strip(pre) == strip(arcs) and strip(o.st.env.get(loc, s)) == strip(('init', ('fld', s, 'next'), 0))]
            w = where(o.fn, next(e[3] for e in since(o, k) if e[0] == 'call' and e[1] == 'fprintf')); n += 1; c.ob('putat arc')
            if not par: c.bad(key + ':walk', w, 'not every arc of the set is written', condlist(o)); continue
            D = ('init', ('fld', ('init', ('fld', par[0][1], 'arc'), 0), 'data'), 0)
            want = [strip(f_(D, x)) for x in ('value', 'T1', 'T2', 'conf', 'tag1')]
            import re
            labs = re.findall(r'(\w+)="(%[-0-9.]*\w|)"', text)
            exp = dict(zip(('tag', 't1', 't2', 'conf', 'tag1'), want))
            a = iter(args)
            for lab, f in labs:
                if not f: continue
                v = next(a, C(0))
                if lab in exp and strip(v) != exp[lab]: c.bad(key + ':' + lab, w, 'the attribute %s is %s' % (lab, show(v)), condlist(o))
            if not {'tag', 't1', 't2', 'conf', 'tag1'} <= {l for l, f in labs}: c.bad(key + ':attribs', w, 'an arc is written as %r' % text)
        if not n: c.bad(key + ':silent', where(fn, fn.line), 'no arcs are written')


def wiring(c, prog):
    c.rule('settings', 'alpha, the null confidence and the method given on the command line are the ones used by the vote')
    fn = prog.get('mfalign_ctm_files_v1', 'rover.c', required=False) if False else next((f for f in prog.all() if f.rel().endswith('rover.c') and any(i[0] == 'set' and i[1][0] == 'fld' and i[1][2] == 'null_conf' for b in ir.cfg(f).blocks for i in b.ins)), None)
    if fn is None: c.notes.append('the vote settings are not set in rover.c'); return
    c.fn(fn)
    src = {}
    g = ir.cfg(fn)
    for b in g.reach:
        for i in g.blocks[b].ins:
            if i[0] == 'set' and i[1][0] == 'fld' and i[1][2] in ('alpha', 'null_conf', 'method'):
                v = i[2]
                src.setdefault(i[1][2], set()).add(v[2] if v[0] == 'v' else str(v)); c.ob('%s = %s' % (i[1][2], v))
    pos = {q['n']: n for n, q in enumerate(fn.params)}
    # follow the argument back through the caller to the option that sets it
    opts = option_targets(prog)
    for k, o in (('alpha', '-a'), ('null_conf', '-c'), ('method', '-m')):
        s = src.get(k, set())
        if len(s) != 1 or next(iter(s)) not in pos: c.bad('settings:' + k, where(fn, fn.line), 'the vote uses %s as its %s' % (sorted(s), k)); continue
        n = pos[next(iter(s))]
        for f in prog.all():
            if not f.rel().endswith('rover.c'): continue
            for b in ir.cfg(f).blocks:
                for i in b.ins:
                    if i[0] == 'call' and i[2] == fn.qn and i[4][n][0] == 'v':
                        var = i[4][n][2]
                        # the variable handed to the option parser by address
                        for b2 in ir.cfg(f).blocks:
                            for j in b2.ins:
                                if j[0] == 'call' and j[2] in opts:
                                    ix = [m for m, a in enumerate(j[4]) if a[0] == 'addr' and a[1][0] == 'v' and a[1][2] == var]
                                    tgt = opts[j[2]].get(o)
                                    c.ob('%s: option %s stores argument %s' % (k, o, tgt))
                                    if tgt is not None and ix and tgt != ix[0]: c.bad('settings:' + k, where(f, i[5]), 'the %s used by the vote is not the one given with %s' % (k, o))


def option_targets(prog):
    """function -> option text -> number of the pointer parameter it stores through"""
    res = {}
    for fn in prog.all():
        if not fn.rel().endswith('rover.c'): continue
        g = ir.cfg(fn)
        if not any(i[0] == 'call' and i[2] == 'strcmp' and ('c', '-a') in i[4] for b in g.blocks for i in b.ins): continue
        for h in g.loops:
            for o, I in run_loop(prog, fn, g, h, {'atof': pure('atof'), 'atoi': pure('atoi')}, maxpaths=3000):
                lit = [k[3][1] for k, f in o.st.facts.items() if k[0] == 'strcmp' and f[0] == f[2] == 0 and isinstance(k[3][1], str) and k[3][1].startswith('-')]
                for e in o.events:
                    if e[0] == 'set' and e[1][0] == 'elem' and e[1][1][0] == 'init' and e[1][1][1][0] == 'v' and lit:
                        names = [q['n'] for q in fn.params]
                        if e[1][1][1][3] in names: res.setdefault(fn.qn, {})[lit[0]] = names.index(e[1][1][1][3])
    return res
