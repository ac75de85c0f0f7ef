"""S06: when two words are equal (whole words, optionally deletable words, word fragments) and the string comparison below it."""
import itertools
import absint
from absint import C, show, add, isnum, affparts, mkaff
from cubes import nz, same
from util import *
from S02 import subterms

W = {1: nz('w1'), 2: nz('w2')}
DASH = 45


class Eq(Rec):
    """pointer arithmetic on the two strings is kept as (string, offset)"""
    def mkelem(s, p, i):
        t = add(p, i)
        d, k = affparts(t)
        for b in s.bases:
            if d.get(b) == 1:
                d = dict(d); del d[b]
                return ('elem', b, mkaff(d, k))
        return Rec.mkelem(s, p, i)


def spec(v, it, l):
    if v['n1'] or v['n2']:
        return 'differ'
    a, b = it[1], it[2]
    if v['fc1'] or v['fc2']:
        if v['d1'] and v['g1']:
            return 'differ' if v['s12'] else ('B', add(a, C(1)), add(add(b, l[2]), add(C(1), l[1], -1)), add(l[1], C(-1)))
        if v['e1'] and v['g1']:
            return ('B', a, b, add(l[1], C(-1)))
        if v['d2'] and v['g2']:
            return 'differ' if v['s21'] else ('B', add(add(a, l[1]), add(C(1), l[2], -1)), add(b, C(1)), add(l[2], C(-1)))
        if v['e2'] and v['g2']:
            return ('B', a, b, add(l[2], C(-1)))
    return ('W', a, b)


def term(w):
    return ('cmpB',) + tuple(sorted(w[1:3], key=repr)) + (w[3],) if w[0] == 'B' else ('cmpW',) + tuple(sorted(w[1:3], key=repr))


def text(v):
    n = {'n1': 'first absent', 'n2': 'second absent', 'od1': 'first optionally deletable', 'od2': 'second optionally deletable', 'fc1': 'fragments allowed (1)', 'fc2': 'fragments allowed (2)',
         'd1': 'first starts with "-"', 'e1': 'first ends with "-"', 'g1': 'first longer than 1', 'd2': 'second starts with "-"', 'e2': 'second ends with "-"', 'g2': 'second longer than 1', 's12': 'second too short', 's21': 'first too short'}
    return ', '.join(t for k, t in n.items() if v.get(k)) or 'two ordinary words'


def cubes():
    for n1, n2 in ((1, 0), (0, 1), (1, 1)):
        yield dict(n1=n1, n2=n2, od1=0, od2=0, fc1=0, fc2=0, d1=0, e1=0, g1=1, d2=0, e2=0, g2=1, s12=0, s21=0)
    for od1, od2 in itertools.product((0, 1), repeat=2):
        for fc1, fc2 in itertools.product((0, 1), repeat=2):
            for x in itertools.product((0, 1), repeat=8):
                v = dict(zip(('d1', 'e1', 'g1', 'd2', 'e2', 'g2', 's12', 's21'), x))
                if v['s12'] and v['s21'] or v['s12'] and not v['g1'] or v['s21'] and not v['g2']: continue
                # l2 < l1-1 with l2 > 1 is possible; l2 < l1-1 means the first is the longer one
                if not v['g1'] and v['d1'] != v['e1'] or not v['g2'] and v['d2'] != v['e2']: continue
                v.update(n1=0, n2=0, od1=od1, od2=od2, fc1=fc1, fc2=fc2)
                yield v


def check(c):
    prog = c.prog('sclite')
    c.rule('word-equality', 'for every valuation of (absent, optionally deletable, fragment matching, leading/trailing hyphen, lengths) two words compare equal exactly when the required strings are compared and agree')
    fn = c.fn(prog.get('equal_WORD2'))
    for v in cubes():
        it = {i: ('sym', '!it%d%s' % (i, 'i' if v['od%d' % i] else 'v'), 0) for i in (1, 2)}
        ln = {i: ('sym', 'len%d' % i, 0) for i in (1, 2)}

        def strlen(s, st, args, node, line, caller):
            for i in (1, 2):
                if args[0] == it[i]: return ln[i]
            return ('call', 'TEXT_strlen', tuple(args), 0)

        def cmpW(s, st, args, node, line, caller):
            return ('cmpW',) + tuple(sorted(map(flat, args[:2]), key=repr))

        def cmpB(s, st, args, node, line, caller):
            return ('cmpB',) + tuple(sorted(map(flat, args[:2]), key=repr)) + (args[2],)
        T = {'TEXT_strlen': strlen, 'strlen': strlen, 'TEXT_strcmp': cmpW, 'strcmp': cmpW, 'TEXT_strBcmp': cmpB, 'strncmp': cmpB}
        I = Eq(prog, T); I.bases = [it[1], it[2]]; I.nullderef = []
        I.on_read = lambda st, lv, line, f, I=I: I.nullderef.append((line, f)) if lv[0] in ('fld', 'elem') and lv[1] == C(0) else None
        st = I.start(fn, [C(0) if v['n1'] else W[1], C(0) if v['n2'] else W[2]])
        for i in (1, 2):
            if v['n%d' % i]: continue
            st.env[('fld', W[i], 'opt_del')] = C(v['od%d' % i])
            st.env[('fld', W[i], 'frag_corr')] = C(v['fc%d' % i])
            for f in ('value', 'intern_value'):
                st.env[('fld', W[i], f)] = it[i] if (f == 'intern_value') == bool(v['od%d' % i]) else ('sym', '!other%d' % i, 0)
            st.env[('elem', it[i], C(0))] = C(DASH) if v['d%d' % i] else C(97)
            st.env[('elem', it[i], add(ln[i], C(-1)))] = C(DASH) if v['e%d' % i] else C(97)
            I.assume_cmp(st, '>=', ln[i], C(0))
            I.assume_cmp(st, '>' if v['g%d' % i] else '<=', ln[i], C(1))
        if not v['n1'] and not v['n2']:
            I.assume_cmp(st, '<' if v['s12'] else '>=', ln[2], add(ln[1], C(-1)))
            I.assume_cmp(st, '<' if v['s21'] else '>=', ln[1], add(ln[2], C(-1)))
        want = spec(v, it, ln)
        c.ob('%s -> %s' % (text(v), want if want == 'differ' else show_(want)) if c.obl % 16 == 0 else None)
        outs = I.run(st)
        for line, f in I.nullderef:
            c.bad('null', where(f, line), 'an absent word is dereferenced')
        for o in outs:
            if o.kind != 'ret' or o.value is None:
                c.bad('ret:' + text(v), where(fn, o.line), 'no comparison result when: ' + text(v), condlist(o)); continue
            if want == 'differ':
                ok = I.compare(o.st, '!=', o.value, C(0)) is True
            else:
                t = term(want)
                ok = o.value == t or o.value == absint.scale(t, -1)
                if not ok and isnum(o.value):
                    r = I.compare(o.st, '==', t, C(0))
                    ok = r is not None and r == (o.value[1] == 0)
                if not ok and o.value[0] == 'cmp' and o.value[2] == t and o.value[3] == C(0):
                    ok = o.value[1] == '!='
            if not ok:
                c.bad('eq:%s' % (want if want == 'differ' else show_(want)), where(fn, o.line), 'the words are compared by %s, required %s, when: %s' % (show(o.value), 'unequal' if want == 'differ' else show_(want), text(v)), condlist(o))
    c.part(master, c, prog)
    c.part(wrappers, c, prog)


def show_(w):
    return ('compare first %s bytes of %s and %s' % (show(w[3]), show(w[1]), show(w[2])) if w[0] == 'B' else 'whole-string comparison').replace('!', '')


# ---------------------------------------------------------------- the string comparison itself
def master(c, prog):
    c.rule('string-comparison', 'the comparison loop reports a difference only with a witness (one string ends, character sizes or bytes differ) and equality only at the end of both strings or of the requested count; every character consumed was compared, all its bytes, on both sides alike')
    fn = prog.get('TEXT_strcmp_master', required=False)
    if fn is None:
        c.notes.append('TEXT_strcmp_master not found: comparison loop not analysed'); return
    c.fn(fn)
    p = [('init', ('v', 1, q['id'], q['n']), 0) for q in fn.params]

    def nbytes(s, st, args, node, line, caller):
        return ('call', 'nbytes', tuple(args), 0)
    n = 0
    for docase in (0, 1):
        low = {}

        def fold(s, st, args, node, line, caller):
            if args[0][0] == 'addr':
                s.write(st, args[0][1], ('sym', '!fold', args[2]))
                s.event(st, ('call', 'fold', (args[2], args[3]), line, caller))
            return C(0)
        I = Rec(prog, {'TEXT_nbytes_of_char': nbytes, 'TEXT_str_case_change_with_mem_expand_from_array2': fold})
        st = I.start(fn); st.env[('v', 1, fn.params[3]['id'], fn.params[3]['n'])] = C(docase)
        outs = I.run(st)
        for o in outs:
            if o.kind == 'stop': continue
            org = {}      # symbol -> side
            roots = {}
            for i in (0, 1):
                roots[p[i]] = i + 1
                if docase: roots[('sym', '!fold', p[i])] = i + 1
            org.update(roots)
            if docase: org.pop(p[0], 0), org.pop(p[1], 0)
            for e in o.events:
                if e[0] == 'loop':
                    for loc, (pre, s) in e[3].items():
                        sd = {org[t] for t in subterms(pre) if t in org}
                        if len(sd) == 1: org[s] = sd.pop()

            def side(t):
                sd = {org[x] for x in subterms(t) if x in org}
                return sd.pop() if len(sd) == 1 else 0
            reads = lambda t: t[0] == 'init' and t[1][0] == 'elem'
            eq = False; diff = False; end = {}
            rd = {1: [], 2: []}; nb = {1: [], 2: []}
            for cond, tv, line, f in o.conds:
                for t in subterms(cond):
                    if reads(t) and side(t) and t not in rd[side(t)]: rd[side(t)].append(t)
                    if t[0] == 'call' and t[1] == 'nbytes' and side(t) and t not in nb[side(t)]: nb[side(t)].append(t)
            for i in (1, 2):
                for t in rd[i]:
                    z = I.compare(o.st, '==', t, C(0))
                    if z is not None: end[i] = z
            for a in rd[1]:
                for b in rd[2]:
                    if I.compare(o.st, '==', a, b) is True: eq = True
                    if I.compare(o.st, '!=', a, b) is True: diff = True
            if any(I.compare(o.st, '!=', a, b) is True for a in nb[1] for b in nb[2]): diff = True
            w = where(fn, o.line); n += 1
            c.ob('case folding %d: %s at line %d' % (docase, o.kind + ' ' + (show(o.value) if o.kind == 'ret' and o.value else ''), o.line) if n < 30 else None)
            null = [I.compare(o.st, '==', p[i], C(0)) for i in (0, 1)]
            if o.kind == 'ret':
                if o.value is None or not isnum(o.value): continue
                done = counted(o, I, p[2], '>=')
                if o.value[1] == 0:
                    ok = null[0] and null[1] or (not any(null)) and (end.get(1) and end.get(2) or done and eq or done and any(e[0] == 'loop' for e in list(o.events)[1:]) and inner_done(o, I))
                    if not ok:
                        c.bad('master:equal:%d' % docase, w, 'strings are reported equal although neither both ended nor the requested number of characters was compared', condlist(o))
                else:
                    ok = diff or end.get(1) is not None and end.get(2) is not None and end[1] != end[2] or null[0] is not None and null[1] is not None and null[0] != null[1] or end.get(2) or end.get(1)
                    if not ok:
                        c.bad('master:differ:%d' % docase, w, 'strings are reported different without a witness', condlist(o))
                    sg = None
                    if null[0] is not None and null[1] is not None and null[0] != null[1]: sg = 1 if null[1] else -1
                    elif end.get(1) is not None and end.get(2) is not None and end[1] != end[2]: sg = 1 if end[2] else -1
                    else:
                        lt = {I.compare(o.st, '<', a, b) for x, y in ((rd[1], rd[2]), (nb[1], nb[2])) for a in x for b in y if I.compare(o.st, '!=', a, b) is True}
                        if len(lt) == 1 and None not in lt: sg = -1 if lt.pop() else 1
                    if sg is not None and (o.value[1] > 0) != (sg > 0):
                        c.bad('master:order:%d' % docase, w, 'the string that comes %s is reported to come %s: lists sorted and searched by this comparison lose words' % (('first', 'second') if sg < 0 else ('second', 'first')), condlist(o))
                if not docase and any(e[0] == 'call' and e[1] == 'fold' for e in o.events):
                    c.bad('master:nofold', w, 'a case-sensitive comparison folds case', condlist(o))
                if docase and not any(null) and {e[2][0] for e in o.events if e[0] == 'call' and e[1] == 'fold'} != {p[0], p[1]}:
                    c.bad('master:fold', w, 'not both strings are case-folded before a case-insensitive comparison', condlist(o))
                if docase and len({e[2][1] for e in o.events if e[0] == 'call' and e[1] == 'fold'}) > 1:
                    c.bad('master:fold2', w, 'the two strings are folded in different directions', condlist(o))
            elif o.kind == 'back':
                L = last_loop_of(o, o.value)
                if o.value == outer(o) and I.compare(o.st, '!=', p[2], C(-1)) is True and not counted(o, I, p[2], '<'):
                    c.bad('master:count', w, 'the comparison goes on although the requested number of characters was compared', condlist(o))
                inner = [e for e in after_loop(o, o.value) if e[0] == 'loop']
                if inner:
                    if not inner_done(o, I):
                        c.bad('master:bytes', w, 'a multi-byte character is passed over before all of its bytes were compared', condlist(o))
                else:
                    d = {1: set(), 2: set()}
                    for loc, (pre, s) in L[3].items():
                        if s in org and loc in o.st.env: d[org[s]].add(add(o.st.env[loc], s, -1))
                    if not eq:
                        c.bad('master:skip:%d' % docase, w, 'characters are passed over without having been found equal', condlist(o))
                    elif d[1] != d[2]:
                        c.bad('master:step', w, 'the two strings advance by different amounts (%s, %s)' % ([show(x) for x in d[1]], [show(x) for x in d[2]]), condlist(o))
    c.floor('string-comparison', 8)


def outer(o):
    ls = [e for e in o.events if e[0] == 'loop']
    return ls[0][2] if ls else None


def counted(o, I, n, op):
    """a counter that started at 0 and grows by 1 per character stands in this relation to n"""
    ls = [e for e in o.events if e[0] == 'loop']
    if not ls: return False
    for loc, (pre, s) in ls[0][3].items():
        v = o.st.env.get(loc, s)
        if pre == C(0) and add(v, s, -1) == C(1) and I.compare(o.st, op, v, n) is True: return True
        if pre == n and add(v, s, -1) == C(-1) and I.compare(o.st, {'>=': '<=', '<': '>'}[op], v, C(0)) is True: return True
    return False


def inner_done(o, I):
    """the (last) inner loop was left with its counter, which started at 0, at the number of bytes"""
    ls = [e for e in o.events if e[0] == 'loop']
    if not ls: return False
    for loc, (pre, s) in ls[-1][3].items():
        if pre == C(0):
            for k in o.st.facts:
                for t in subterms(k):
                    if t[0] == 'call' and t[1] == 'nbytes' and I.compare(o.st, '>=', s, t) is True: return True
    return False


WRAP = {'TEXT_strcmp': (-1, 0), 'TEXT_strcasecmp': (-1, 1), 'TEXT_strCcmp': ('n', 0), 'TEXT_strCcasecmp': ('n', 1)}


def wrappers(c, prog):
    c.rule('wrappers', 'the whole-string, counted and case-insensitive comparisons pass both strings, the count and the case flag on unchanged')
    for name, (n, cs) in WRAP.items():
        fn = prog.get(name, required=False)
        if fn is None: continue
        c.fn(fn)
        I = Rec(prog, {'TEXT_strcmp_master': lambda s, st, a, node, line, caller: ('call', 'master', tuple(a), 0)})
        outs = I.run(fn)
        p = [('init', ('v', 1, q['id'], q['n']), 0) for q in fn.params]
        for o in outs:
            c.ob(name)
            v = o.value
            if o.kind != 'ret' or v is None or v[0] != 'call' or v[1] != 'master':
                c.notes.append('%s no longer a plain wrapper: %s' % (name, show(v) if v else None)); continue
            a = v[2]
            want = (p[0], p[1], C(-1) if n == -1 else p[2])
            if a[:3] != want or (a[3] != C(0)) != bool(cs) or not isnum(a[3]):
                c.bad('wrap:' + name, where(fn, o.line), '%s compares with arguments (%s)' % (name, ', '.join(map(show, a))))
    fn = prog.get('TEXT_strBcmp', required=False)
    if fn:
        c.fn(fn)
        I = Rec(prog, {'strncmp': lambda s, st, a, node, line, caller: ('call', 'strncmp', tuple(a), 0)})
        p = [('init', ('v', 1, q['id'], q['n']), 0) for q in fn.params]
        for o in I.run(fn):
            c.ob('TEXT_strBcmp')
            if o.value is not None and o.value[0] == 'call' and o.value[1] == 'strncmp' and o.value[2] != tuple(p):
                c.bad('wrap:TEXT_strBcmp', where(fn, o.line), 'the byte comparison is called with (%s)' % ', '.join(map(show, o.value[2])))
