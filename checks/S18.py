"""S18: the printed alignments show every word of every utterance once."""
import re
from absint import C, show, add, isnum, affparts
from util import *
from S02 import strip, param, subterms
from S09 import lkey, lookup, since
from S17 import W, bits, the, fld, wordof, precision
from path import *

LINES = {'REF:  ': ('a', 'value', None), 'R_T1: ': ('a', 'T1', 'REF_WTIMES'), 'R_T2: ': ('a', 'T2', 'REF_WTIMES'), 'RCNF: ': ('a', 'conf', 'REF_CONF'), 'HYP:  ': ('b', 'value', None),
         'H_T1: ': ('b', 'T1', 'HYP_WTIMES'), 'H_T2: ': ('b', 'T2', 'HYP_WTIMES'), 'CONF: ': ('b', 'conf', 'HYP_CONF'), 'R_WE: ': ('a', 'weight', 'REF_WEIGHT'), 'H_WE: ': ('b', 'weight', 'HYP_WEIGHT'),
         'Eval: ': (None, None, None)}
EVALS = {'CORR': '', 'SUB': 'S', 'INS': 'I', 'DEL': 'D'}
AUXB = ('REF_WTIMES', 'HYP_WTIMES', 'REF_CONF', 'HYP_CONF', 'REF_WEIGHT', 'HYP_WEIGHT')


def check(c):
    prog = c.prog('sclite')
    B = bits(prog)
    if not B: c.notes.append('the attribute bits of a path are not recognised'); return
    c.part(words, c, prog, B)
    c.part(header, c, prog, B)
    c.part(system, c, prog, B)


class P(W):
    def compare(s, st, op, a, b):
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'c' and isinstance(x[1], str) and y[0] == 'init': return op == '!='     # a word is not the literal
        for x, y, p in ((a, b, op), (b, a, FLIP[op])):
            if x[0] == 'call' and x[1] == 'len' and isnum(y) and y[1] <= 0:                            # a length is not negative
                if p == '>=' or p == '>' and y[1] < 0: return True
                if p == '<' or p == '<=' and y[1] < 0: return False
        return W.compare(s, st, op, a, b)


def printed(evs, upto=None):
    """what the printing calls produce: literals and (conversion, width, term)"""
    r, fm = [], {}
    def text(f, a):
        q = []; a = list(a)
        for x in re.split(r'(%%|%[-0-9.*]*l?[a-zA-Z])', f):
            if x == '%%': q.append('%')
            elif x.startswith('%'):
                w = None
                if '*' in x:
                    if x.count('*') > 1 or '.*' in x or not a: return None
                    w = a.pop(0)
                else:
                    g = re.match(r'%-?(\d+)', x)
                    if g: w = C(int(g.group(1)))
                if not a: return None
                t = a.pop(0); q.append((x, w, t))
            elif x: q.append(x)
        return q
    for e in evs:
        if e[0] != 'call': continue
        n, a = e[1], e[2]
        if n in ('sprintf', 'snprintf'):
            k = 1 if n == 'sprintf' else 2
            fm[strip(a[0])] = text(a[k][1], a[k + 1:]) if a[k][0] == 'c' and isinstance(a[k][1], str) else None
            continue
        if n == 'fputs': q = [a[0][1]] if a[0][0] == 'c' and isinstance(a[0][1], str) else [('%s', None, a[0])]
        elif n in ('fputc', 'putc'): q = [chr(a[0][1])] if isnum(a[0]) else [('%c', None, a[0])]
        elif n == 'fprintf':
            f = a[1]
            if f[0] == 'c' and isinstance(f[1], str): q = text(f[1], a[2:])
            else:
                m = fm.get(strip(f))
                if not m: return None
                s, ws = '', []
                for x in m:
                    if isinstance(x, str): s += x
                    elif x[0] == '%d' and x[1] is None: s += '*'; ws.append(x[2])
                    elif x[0] == '%s' and x[2][0] == 'c' and isinstance(x[2][1], str): s += x[2][1]
                    else: return None
                if len(ws) > 1: return None
                q = text(s, tuple(ws) + tuple(a[2:]))
        else: continue
        if q is None: return None
        for x in q:
            if not isinstance(x, str) and x[1] is None and x[0] == '%s' and x[2][0] == 'c' and isinstance(x[2][1], str): x = x[2][1]
            if isinstance(x, str) and r and isinstance(r[-1], str): r[-1] += x
            elif x != '': r.append(x)
    return r


def outs_of(fn, k):
    def mk(n):
        def h(s, st, args, node, line, caller):
            a = tuple(args) if n in ('fprintf', 'sprintf', 'snprintf') else tuple(args[:1])
            if n not in ('sprintf', 'snprintf') and strip(args[0 if n == 'fprintf' else 1]) != strip(param(fn, 1, k)): s.event(st, ('call', 'elsewhere', (), line, caller))
            s.event(st, ('call', n, a, line, caller)); return C(0)
        return h
    T = {n: mk(n) for n in ('fprintf', 'fputs', 'fputc', 'putc', 'sprintf', 'snprintf')}
    T['fflush'] = ignore
    return T


def runs(prog, fn, B, ev, at, null=()):
    T = outs_of(fn, 1)
    T['TEXT_strlen'] = pure('len'); T['strlen'] = pure('len'); T['TEXT_str_to_master'] = pure('master')
    I = P(prog, T, None, maxpaths=20000); st = I.start(fn)
    I.fix = {'attrib': C(sum(B['PA_' + x] for x in at)), 'eval': C(B['P_' + ev])}
    for n in ('id', 'labels', 'file', 'channel'): I.fix[n] = C(0) if n in null else ('sym', '!' + n, ())
    return I, I.run(st)


def enclosing(o, key):
    """events of the loops around the loop key, outermost first, and the text since the innermost of them"""
    L = lookup(o, key); k = max(n for n, e in enumerate(o.events) if e is L)
    return L, o.events[:k]


def words(c, prog, B):
    c.rule('words', 'a printed alignment shows, in each of its lines, every word of the path once and in order: the word or asterisks for a missing one, its own values, and the letter of its evaluation')
    fn = the(prog, 'PATH_print')
    if not fn or len(fn.params) != 3: c.notes.append('the printing of an alignment is not recognised'); return
    fn = c.fn(fn); path = param(fn, 1, 0); w0 = where(fn, fn.line)
    if the(prog, 'PATH_n_print'): c.fn(the(prog, 'PATH_n_print'))
    num = ('init', ('fld', path, 'num'), 0)
    bad = set()
    def no(key, msg, o=None):
        if key not in bad: bad.add(key); c.bad('words:' + key, w0, msg, condlist(o) if o else ())
    jobs = [(at, ev) for at in ((), AUXB, ('CASE_SENSE',)) for ev in EVALS] + [((x,), 'CORR') for x in AUXB] + [(('CHAR_ALIGN', 'REF_TIMES', 'HYP_TIMES'), 'SUB')] + [(tuple(x for x in AUXB if x != y), 'SUB') for y in AUXB[:4:2]]
    if c.tier != 'quick': jobs += [(at, ev) for at in [(x,) for x in AUXB] + [tuple(x for x in AUXB if x != y) for y in AUXB] + [AUXB + ('CASE_SENSE',)] for ev in EVALS]
    for at, ev in jobs:
        I, outs = runs(prog, fn, B, ev, at)
        if any(e[0] == 'call' and e[1] == 'elsewhere' for o in outs for e in o.events): no('stream', 'a part of an alignment is printed elsewhere', next(o for o in outs if any(e[0] == 'call' and e[1] == 'elsewhere' for e in o.events)))
        want = {l for l, (s, f, b) in LINES.items() if b is None or b in at}
        seen, U, pref = {}, set(), {}
        for o in outs:
            if o.kind != 'back': continue
            L, before = enclosing(o, lkey(o)); evs = since(o, lkey(o))
            if any(e[0] == 'loop' for e in evs): continue
            cell = printed(evs)
            if cell is None: c.notes.append('the words are not printed with formats made on the spot'); return
            if not cell: continue
            head = printed(before)
            if head is None: c.notes.append('the lines are not printed with literal formats'); return
            # a cell of a word?
            t = head[-1] if head and isinstance(head[-1], str) else ''
            lab = t.rsplit('\n', 1)[-1]
            if lab.startswith('>> '): lab = lab[3:]
            ctx = impossible(o, L, lab)
            if ctx: continue
            if lab not in LINES: no('label', 'a line of words begins with %s' % repr(lab), o); continue
            c.ob('printed word')
            cells(c, I, o, L, lab, cell, ev, at, no)
            # where the line begins and ends
            k = [(l, q, s) for l, (q, s) in L[3].items() if eq(step(o, l, s), C(1))]
            if len(k) != 1: no('step', 'the words of a line are not printed one after the other', o); continue
            k = k[0]
            if not used(cell, k[2], ev, lab): no('index:' + lab, 'the line %s shows a word other than the one it has come to' % lab, o)
            if decide(I, o, '<', k[2], num, 0, True) is not True: no('end', 'a word behind the last is printed', o)
            u = [(e, l, s) for e in before if e[0] == 'loop' for l, (q, s) in e[3].items() if strip(s) == strip(k[1])]
            if not u:
                no('begin', 'a line of words begins with word %s' % show(k[1]), o); continue
            U.add(((u[-1][0][1], u[-1][0][2]), u[-1][1])); seen.setdefault(lab, []).append(o)
            pref.setdefault(lkey(o), []).append(o)
        for l in sorted(want - set(seen)): no('line:' + l, 'the line %s is not printed (attributes %s)' % (l, ' '.join(at) or 'none'))
        for l in sorted(set(seen) - want): no('line:' + l, 'the line %s is printed without its attribute' % l, seen[l][0])
        if len(U) != 1:
            if seen: no('blocks', 'the lines do not begin with the same word')
            continue
        (bk, ul), = U
        blocks(c, I, outs, bk, ul, pref, num, no)
    c.floor('words', 500)


def impossible(o, L, lab):
    """the path takes a value of a loop counter below where that counter starts"""
    for e in o.events:
        if e[0] != 'loop': continue
        for l, (q, s) in e[3].items():
            if isnum(q) and holds(o, '<', s, q) is True: return True
            if isnum(q) and holds(o, '==', s, add(q, C(-1))) is True: return True
    return False


def used(cell, k, ev, lab):
    """the terms of the cell are those of element k"""
    r = True
    for x in cell:
        if isinstance(x, str): continue
        for t in subterms(x[2]):
            for s in 'ab':
                w = wordof(t, s)
                if w and not eq(w[1], k): r = False
    return r


def cells(c, I, o, L, lab, cell, ev, at, no):
    side, f, bit = LINES[lab]
    if len(cell) != 2 or isinstance(cell[0], str) or cell[1] != ' ': no('cell:' + lab, 'a word of the line %s is printed as %s' % (lab, [x if isinstance(x, str) else x[0] for x in cell]), o); return
    conv, wid, t = cell[0]
    missing = side and (side == 'a' and ev == 'INS' or side == 'b' and ev == 'DEL')
    # the width
    lens = []
    for n, e in (('a', 'INS'), ('b', 'DEL')):
        if ev == e: lens.append(C(1))
        else:
            q = [x for x in index(o) if x[0] == 'call' and x[1] == 'len' and fld(x[2][0])[1] == 'value' and wordof(fld(x[2][0])[0], n)]
            if not q: no('width', 'the width of a column does not depend on the word', o); return
            lens += q[:1]
    aux = 7 if set(at) & set(AUXB) else 0
    def ge(x, y): return decide(I, o, '>=', x, y, 0, True) is True
    if wid is None or any(not ge(wid, x) and not any(ge(wid, y) and ge(y, x) for y in lens + [C(aux)]) for x in lens + [C(aux)]): no('width:' + lab, 'the column of a word is not wide enough in line %s' % lab, o)
    def word(t, sd, name):
        ow, n = fld(t)
        return n == name and ow is not None and wordof(ow, sd)
    if lab == 'Eval: ':
        if t != C(EVALS[ev]): no('eval:' + ev, 'a word with evaluation %s is shown as %s' % (ev, show(t)), o)
        return
    if f == 'value':
        if missing:
            d, k = affparts(t)
            st = [x for x in d if x[0] == 'c' and isinstance(x[1], str)]
            if t[0] == 'c' and isinstance(t[1], str): st = [t]
            if not st or set(st[0][1]) != {'*'}: no('missing:' + lab, 'a missing word is shown as %s' % show(t), o); return
            n = len(st[0][1]); off = add(t, st[0], -1); other = [x for x in lens if x != C(1)]
            if other and eq(off, add(C(n), other[0], -1)):
                if decide(I, o, '<=', other[0], C(n), 0, True) is not True: no('asterisks', 'the asterisks for a missing word begin before their text', o)
            elif not (off == C(0) and (not other or decide(I, o, '>=', other[0], C(n), 0, True) is True)): no('asterisks', 'a missing word is shown as %s' % show(t), o)
            return
        want = t
        if ev == 'SUB' or ev in ('INS', 'DEL'):
            if 'CASE_SENSE' not in at:
                if t[0] == 'call' and t[1] == 'master': want = t[2][0]
                else: no('case:' + lab, 'a wrong word is not shown in capitals', o)
        if not word(want, side, 'value') or conv.strip('%-0123456789*') != 's' or '.' in conv: no('value:' + lab, 'a word of the line %s is shown as %s' % (lab, show(t)), o)
        return
    if missing:
        if t != C(''): no('novalue:' + lab, 'the line %s shows %s for a missing word' % (lab, show(t)), o)
    elif not word(t, side, f) or not re.fullmatch(r'%-?[0-9*]*\.[2-9]f', conv): no('value:' + lab, 'the line %s shows %s as %s' % (lab, show(t), conv), o)


def blocks(c, I, outs, bk, ul, pref, num, no):
    """the words printed in one block are those between where it begins and where the next begins"""
    ends = [o for o in outs if o.kind == 'back' and lkey(o) == bk]
    if not ends: no('again', 'only one block of lines is printed'); return
    for o in ends:
        c.ob('block of lines')
        L = lookup(o, bk); q, s = L[3][ul]
        if q != C(0): no('first', 'the first block begins with word %s' % show(q), o)
        N = add(step(o, ul, s), s)
        if decide(I, o, '>', N, s, 0, True) is not True: no('progress', 'the next block of lines may begin with the same word again', o)
        # the lines of this block
        ev = since(o, bk); inner = [e for e in ev if e[0] == 'loop']
        n = 0
        for p in outs:
            if p.kind != 'back' or lkey(p) == bk: continue
            wl = [e for e in p.events if e[0] == 'loop' and (e[1], e[2]) in pref]
            if not wl or lkey(p) in pref: continue
            if not any(e[0] == 'loop' and (e[1], e[2]) == lkey(p) for e in inner): continue
            if not same(o, p, n_before(lookup(p, lkey(p)))): continue
            n += 1
            full(I, p, wl[-1], N, num, no)
        if not n:
            for e in inner:
                if (e[1], e[2]) in pref: full(I, o, e, N, num, no)
    for o in outs:
        if o.kind == 'ret':
            L = lookup(o, bk)
            if L and decide(I, o, '>=', L[3][ul][1], num, 0, True) is not True: no('rest', 'the printing ends before the last word', o)
            if not L and decide(I, o, '<=', num, C(0), 0, True) is not True: no('rest', 'no word is printed', o)


def same(o, p, n):
    return all(a[0] == b[0] and a[1] == b[1] for a, b in zip(o.conds[:n], p.conds[:n])) and len(o.conds) >= n


def full(I, p, e, N, num, no):
    for l, (q, s) in e[3].items():
        if any(decide(I, p, '>=', s, x, 0, True) is True for x in (N, num)): return
    no('full', 'a line ends before the word the next block begins with', p)


# ------------------------------------------------------------------------------------------------------------------ header

def header(c, prog, B):
    c.rule('header', 'the lines before the words name the utterance, its attributes and the number of its words with each evaluation')
    fn = the(prog, 'PATH_print')
    if not fn: return
    path = param(fn, 1, 0); w0 = where(fn, fn.line); num = ('init', ('fld', path, 'num'), 0)
    bad = set()
    def no(key, msg, o=None):
        if key not in bad: bad.add(key); c.bad('header:' + key, w0, msg, condlist(o) if o else ())
    sets = [()] + [(x,) for x in ('CHAR_ALIGN', 'CASE_SENSE', 'REF_WEIGHT', 'HYP_WEIGHT', 'REF_TIMES', 'HYP_TIMES')] + [('CHAR_ALIGN', 'CASE_SENSE', 'REF_WEIGHT', 'HYP_WEIGHT', 'REF_TIMES', 'HYP_TIMES')]
    for at, ev, null in [(a, 'CORR', ('labels', 'file', 'channel')) for a in sets] + [((), 'CORR', n) for n in ((), ('id',), ('labels',), ('file',), ('channel',))] + [((), e, ()) for e in ('SUB', 'INS', 'DEL')]:
        I, outs = runs(prog, fn, B, ev, at, null)
        for o in outs:
            if o.kind != 'ret': continue
            c.ob('header')
            m = printed(o.events)
            if m is None: c.notes.append('the header of an alignment is not printed with literal formats'); return
            t, args = '', []
            for x in m:
                if isinstance(x, str): t += x
                else: t += '\0'; args.append(x)
            lines = [l for l in t.split('\n')]
            want = {}
            if 'id' not in null: want['id:'] = ('id: \0', ['id'])
            else: want['id:'] = ('id: ', [])
            for n in ('labels', 'file', 'channel'):
                if n not in null: want[n.capitalize() + ':'] = (n.capitalize() + ': \0', [n])
            for n, b in (('Ref', 'REF_TIMES'), ('Hyp', 'HYP_TIMES')):
                if b in at: want[n + ' times:'] = (n + ' times: t1= \0 t2= \0', [n.lower() + '_t1', n.lower() + '_t2'])
            got = {}
            for l in lines:
                n = l.count('\0'); a = args[:n]; args = args[n:]
                k = l.split(':')[0] + ':'
                if l and k in got: no('twice:' + k, 'the line %s is printed twice' % k, o)
                if l: got[k] = (l, a)
            for k, (l, f) in want.items():
                if k not in got: no('no:' + k, 'the line %s is not printed' % k, o); continue
                l2, a = got[k]
                for x, n in zip(a, f):
                    ok = strip(x[2]) == ('sym', '!' + n, ()) if n in ('id', 'labels', 'file', 'channel') else fld(x[2])[1] == n and precision(x[0]) is not None
                    if not ok: no('field:' + k, 'the line %s shows %s' % (k, show(x[2])), o)
                if l2 != l or len(a) != len(f): no('text:' + k, 'the line %s is printed as %s' % (k, repr(l2)), o)
            words_ = {'CHAR_ALIGN': 'Character_align', 'CASE_SENSE': 'Case_sens', 'REF_WEIGHT': 'Ref_weight', 'HYP_WEIGHT': 'Hyp_weight'}
            al = got.get('Attributes:', ('', []))[0]
            for b, w in words_.items():
                if (w in al) != (b in at): no('attribute:' + b, 'the attribute %s is %sprinted' % (w, 'not ' if b in at else ''), o)
            for k in set(got) - set(want) - {'Scores:', 'Attributes:'}: no('extra:' + k, 'the line %s is printed for a path without it' % k, o)
            # the counts
            l, a = got.get('Scores:', ('', []))
            g = re.fullmatch(r'Scores: \(((?:#\w+ ?)+)\)((?: \0)+)', l)
            names = g.group(1).split() if g else []
            if names[:4] != ['#C', '#S', '#D', '#I'] or len(a) != len(names): no('scores', 'the counts are printed as %s' % repr(l), o); continue
            for n, x in zip(names[:4], a):
                e = {'#C': 'CORR', '#S': 'SUB', '#D': 'DEL', '#I': 'INS'}[n]
                tally(c, I, outs, o, x[2], n, e == ev, num, no)
    c.floor('header', 30)


def tally(c, I, outs, o, t, n, on, num, no):
    Ls = [(e, l, q) for e in o.events if e[0] == 'loop' for l, (q, s) in e[3].items() if s == t]
    if not Ls:
        if t == C(0) and decide(I, o, '<=', num, C(0), 0, True) is True: return
        if t == C(0) and not on: return
        no('count:' + n, '%s is %s' % (n, show(t)), o); return
    e, l, q = Ls[-1]; key = (e[1], e[2])
    if q != C(0): no('count:' + n, '%s begins at %s' % (n, show(q)), o)
    for p in outs:
        if p.kind == 'back' and lkey(p) == key:
            L = lookup(p, key); c.ob('word counted')
            if not eq(step(p, l, L[3][l][1]), C(1 if on else 0)): no('count:' + n, '%s is %s for a word with %s evaluation' % (n, show(step(p, l, L[3][l][1])), 'this' if on else 'another'), p)
            ix = [(l2, s2) for l2, (q2, s2) in L[3].items() if q2 == C(0) and eq(step(p, l2, s2), C(1)) and decide(I, p, '<', s2, num, 0, True) is True]
            if not ix: no('counted', 'the words are not counted one after the other', p)
            elif not any(decide(I, o, '>=', e[3][l2][1], num, 0, True) is True for l2, s2 in ix): no('counted', 'not all the words are counted', o)


# ------------------------------------------------------------------------------------------------------------------ system

def elem(t):
    """(array, index) of an element that is read"""
    if t[0] == 'init' and t[1][0] == 'elem': return t[1][1], t[1][2]
    return None, None


def ofgroup(t, f):
    """(scores, group) if t is field f of a group of the scores"""
    ow, n = fld(t)
    if n != f or ow is None: return None
    if ow[0] == 'addr': ow = ow[1]
    if ow[0] == 'elem' and fld(ow[1])[1] == 'grp': return fld(ow[1])[0], ow[2]
    return None


def ispath(t):
    """(group, index of the path in it) if t is a path of the scores"""
    arr, k = elem(t)
    g = ofgroup(arr, 'path') if arr is not None else None
    return (g[1], k) if g else None


FIELDS = {'System name:': 'title', 'Ref file:': 'ref_fname', 'Hyp file:': 'hyp_fname', 'Creation date:': 'creation_date', 'Word Weight Aligned by file:': 'weight_file', 'Speaker Count:': 'num_grp'}


def system(c, prog, B):
    c.rule('system', 'every path of every speaker is printed once, in the full report by its number, and is left as it was')
    fn = the(prog, 'dump_SCORES_alignments')
    if not fn or len(fn.params) != 4: c.notes.append('the printing of the alignments of a system is not recognised'); return
    fn = c.fn(fn); sc = param(fn, 1, 0); w0 = where(fn, fn.line)
    ngrp = ('init', ('fld', sc, 'num_grp'), 0)
    bad = set()
    def no(key, msg, o=None):
        if key not in bad: bad.add(key); c.bad('system:' + key, w0, msg, condlist(o) if o else ())
    def pp(s, st, args, node, line, caller):
        s.event(st, ('call', 'path', tuple(args) + (s.read(st, ('fld', args[0], 'attrib')),), line, caller)); return C(0)
    def pn(s, st, args, node, line, caller):
        if len(args) == 5 and args[2] == C(0): return pp(s, st, (args[0], args[1], args[4]), node, line, caller)
        return None
    for full in (0, 1):
        for some, frag in ((0, 0), (1, 0), (1, 1)):
            T = outs_of(fn, 1)
            T['PATH_print'] = pp; T['PATH_n_print'] = pn; T['free'] = ignore
            T['malloc'] = T['calloc'] = lambda s, st, args, node, line, caller: ('sym', '!new%d' % line, ())
            I = W(prog, T, None, maxpaths=20000); st = I.start(fn)
            I.fix = {'weight_ali': C(some), 'frag_corr': C(frag), 'opt_del': C(some)}
            for n in ('ref_fname', 'hyp_fname', 'creation_date', 'weight_file'): I.fix[n] = ('sym', '!' + n, ()) if some else C(0)
            st.env[('v', 1, fn.params[3]['id'], fn.params[3]['n'])] = C(full)
            outs = I.run(st)
            if any(e[0] == 'call' and e[1] == 'elsewhere' for o in outs for e in o.events): no('stream', 'a part of the alignments is printed elsewhere')
            show_ = {}
            for o in outs:
                if o.kind != 'back': continue
                evs = since(o, lkey(o))
                ps = [e for e in evs if e[0] == 'call' and e[1] == 'path']
                if not ps: continue
                if any(e[0] == 'loop' for e in evs[evs.index(ps[-1]):]): continue
                c.ob('path printed')
                one(c, I, o, ps, evs, fn, full, sc, ngrp, outs, no, B)
                show_.setdefault(lkey(o), []).append(o)
            if not show_: no('none', 'no path is printed (%s report)' % ('full' if full else 'short')); continue
            for o in outs:
                if o.kind == 'ret': last(c, I, o, show_, full, some, frag, sc, ngrp, outs, no)
            names(c, I, outs, ngrp, no)
    c.floor('system', 20)


def one(c, I, o, ps, evs, fn, full, sc, ngrp, outs, no, B):
    if len(ps) != 1: no('twice', 'a path is printed more than once', o); return
    a = ps[0][2]; g = ispath(a[0])
    if not g: no('path', 'the path printed is %s' % show(a[0]), o); return
    if strip(a[2]) != strip(param(fn, 1, 2)) or strip(a[1]) != strip(param(fn, 1, 1)): no('args', 'a path is printed with another line width', o)
    L = lookup(o, lkey(o)); g, k = g
    l, s = [(l, s) for l, (q, s) in L[3].items() if eq(s, k)][:1] and [(l, s) for l, (q, s) in L[3].items() if eq(s, k)][0] or (None, None)
    if l is not None:
        if L[3][l][0] != C(0) or not eq(step(o, l, s), C(1)): no('paths', 'the paths of a speaker are not printed one after the other', o)
        if not any(decide(I, o, '<', s, t, 0, True) is True for t in index(o) if ofgroup(t, 'num_path') and eq(ofgroup(t, 'num_path')[1], g)): no('many', 'a path behind the last of a speaker is printed', o)
        out = [(e, l2) for e in o.events if e[0] == 'loop' for l2, (q, s2) in e[3].items() if eq(s2, g)]
        if not out or out[-1][0][3][out[-1][1]][0] != C(0): no('speakers', 'the speakers are not gone through from the first', o); return
        e, l2 = out[-1]; key = (e[1], e[2])
        for p in outs:
            if p.kind == 'back' and lkey(p) == key and same(o, p, n_before(e)):
                Lp = lookup(p, key); s2 = Lp[3][l2][1]; c.ob('speaker')
                if not eq(step(p, l2, s2), C(1)): no('speakers', 'the speakers are not gone through one after the other', p)
                inner = [x for x in since(p, key) if x[0] == 'loop' and (x[1], x[2]) == lkey(o)]
                if not inner: no('speakers', 'the paths of a speaker are not printed', p)
                elif not any(decide(I, p, '>=', inner[-1][3][l][1], t, 0, True) is True for t in index(p) if ofgroup(t, 'num_path') and eq(ofgroup(t, 'num_path')[1], s2)): no('allpaths', 'not all the paths of a speaker are printed', p)
                head = printed([x for x in since(p, key) if x[0] == 'call'])
                if not head or not any(not isinstance(x, str) and ofgroup(x[2], 'name') and eq(ofgroup(x[2], 'name')[1], s2) for x in head): no('name', 'the name of the speaker is not printed with the paths', p)
    else: ordered(c, I, o, L, g, k, evs, ngrp, outs, no)
    if not full:
        f = a[-1]
        sets = [e for e in evs if e[0] == 'set' and e[1][0] == 'fld' and e[1][-1] == 'attrib']
        cs = B['PA_CASE_SENSE']
        on = next((tv for cc, tv, *_ in reversed(o.conds) if cc[0] == 'cmp' and any(fld(t)[1] == 'attrib' for t in subterms(cc)) and C(cs) in list(subterms(cc))), None)
        if not isnum(f) or on is None or f[1] != (cs if on != (next(cc for cc, tv, *_ in reversed(o.conds) if cc[0] == 'cmp' and any(fld(t)[1] == 'attrib' for t in subterms(cc)))[1] == '==') else 0): no('attributes', 'in the short report a path is printed with the attributes %s' % show(f), o)
        if sets and (fld(sets[-1][2])[1] != 'attrib' or strip(sets[-1][1]) != strip(sets[-1][2][1])): no('restore', 'the attributes of a path are %s after it is printed' % show(sets[-1][2]), o)
    elif any(e[0] == 'set' and e[1][0] == 'fld' and e[1][-1] in ('attrib', 'num', 'pset', 'num_path') for e in evs): no('restore', 'a path is changed when it is printed', o)


def ordered(c, I, o, L, g, k, evs, ngrp, outs, no):
    """the next path is the one with the smallest number of those not yet printed"""
    cur, kg = elem(k)
    if cur is None or not eq(kg, g): no('next', 'the path printed is not the next of its speaker', o); return
    st = [e for e in evs if e[0] == 'set' and e[1][0] == 'elem' and strip(e[1][1]) == strip(cur)]
    if len(st) != 1 or not eq(st[0][1][2], g) or not eq(add(st[0][2], k, -1), C(1)): no('advance', 'a printed path is not passed over', o)
    sel = [(e, l) for e in evs if e[0] == 'loop' for l, (q, s) in e[3].items() if eq(s, g)]
    if not sel: no('select', 'the next speaker is not looked for', o); return
    e, gl = sel[-1]; key = (e[1], e[2])
    if decide(I, o, '<', e[3][gl][0], C(0)) is not True: no('select', 'before the search the next speaker is %s' % show(e[3][gl][0]), o)
    nb = n_before(e); ct = None; rows = []
    for p in outs:
        if p.kind != 'back' or lkey(p) != key or not same(o, p, nb): continue
        c.ob('speaker looked at')
        Lp = lookup(p, key); gs = Lp[3][gl][1]
        ct = [(l, s) for l, (q, s) in Lp[3].items() if q == C(0) and eq(step(p, l, s), C(1))]
        if len(ct) != 1: no('select', 'the speakers are not looked at one after the other', p); return
        ct, i = ct[0]
        def cu(t): return elem(t)[0] is not None and strip(elem(t)[0]) == strip(cur) and eq(elem(t)[1], i)
        seq = [t for t in index(p) if fld(t)[1] == 'sequence' and ispath(fld(t)[0]) and eq(ispath(fld(t)[0])[0], i) and cu(ispath(fld(t)[0])[1])]
        npth = [t for t in index(p) if ofgroup(t, 'num_path') and eq(ofgroup(t, 'num_path')[1], i)]
        has = next((decide(I, p, '<', x, y, 0, True) for x in index(p) if cu(x) for y in npth), None)
        new = add(step(p, gl, gs), gs)
        if not eq(new, i) and not eq(new, gs): no('select', 'the speaker chosen is %s' % show(new), p); return
        rows.append((p, Lp, gs, i, seq, has, eq(new, i)))
    # the variable that keeps the number of the chosen path
    keep = None
    for p, Lp, gs, i, seq, has, on in rows:
        k_ = {l for l, (q, s) in Lp[3].items() if l not in (gl, ct) and (any(eq(add(step(p, l, s), s), t) for t in seq) if on else eq(step(p, l, s), C(0)))}
        keep = k_ if keep is None else keep & k_
    found = any(r[-1] for r in rows)
    if found and not keep: no('number', 'the number of the chosen path is not kept', next(r[0] for r in rows if r[-1])); return
    for p, Lp, gs, i, seq, has, on in rows:
        if on:
            if has is not True: no('select', 'a speaker without paths left is chosen', p)
            if decide(I, p, '<', gs, C(0)) is not True and not any(decide(I, p, '<=', t, Lp[3][l][1], 0, True) is True for l in keep for t in seq): no('order', 'a path with a larger number is chosen', p)
        elif has is not False:
            if decide(I, p, '<', gs, C(0)) is not False and not ne1(I, p, gs, e[3][gl][0]): no('skip', 'a speaker with paths left is passed over though none is chosen yet', p)
            elif not any(decide(I, p, '>=', t, Lp[3][l][1], 0, True) is True for l in keep for t in seq): no('skip', 'a path with a smaller number is passed over', p)
    if not found: no('select', 'no speaker is chosen', o); return
    if decide(I, o, '>=', e[3][ct][1], ngrp, 0, True) is not True: no('select', 'not all the speakers are looked at', o)
    for p in outs:
        if p.kind == 'back' and lkey(p) == lkey(o) and not any(x[0] == 'call' and x[1] == 'path' for x in since(p, lkey(o))): no('idle', 'a chosen path is not printed', p)
    head = printed([x for x in evs if x[0] == 'call'])
    if not head or not any(not isinstance(x, str) and ofgroup(x[2], 'name') and eq(ofgroup(x[2], 'name')[1], g) for x in head): no('name', 'the name of the speaker is not printed with the path', o)
    # the search starts from the first path of every speaker
    z = [p for p in outs if p.kind == 'back' and any(x[0] == 'set' and x[1][0] == 'elem' and strip(x[1][1]) == strip(cur) and x[2] == C(0) for x in since(p, lkey(p)))]
    if cur[0] == 'sym' and not any(counted(p) for p in z): no('start', 'the search does not start with the first path of every speaker', o)


def ne1(I, p, g, first):
    """the choice is known not to be what it was before the search"""
    return decide(I, p, '==', g, first, 0, True) is False


def counted(p):
    L = lookup(p, lkey(p))
    return any(q == C(0) and eq(step(p, l, s), C(1)) for l, (q, s) in L[3].items())


def last(c, I, o, show_, full, some, frag, sc, ngrp, outs, no):
    m = printed(o.events) or []
    text = ''.join(x if isinstance(x, str) else '\0' for x in m)
    c.ob('report')
    inl = [e for e in o.events if e[0] == 'loop']
    main = [e for e in inl if covers_paths(e, show_)]
    if not main:
        # nothing to print
        srch = [p for p in outs if p.kind == 'back' and not any(e[0] == 'call' for e in since(p, lkey(p))) and any(ofgroup(t, 'num_path') for t in index(p)) and any((e[1], e[2]) == lkey(p) for e in inl)]
        for p in srch:
            s = [s for l, (q, s) in lookup(p, lkey(p))[3].items() if q == C(0) and eq(step(p, l, s), C(1))]
            if not s or not any(decide(I, p, '<=', t, C(0), 0, True) is True for t in index(p) if ofgroup(t, 'num_path') and eq(ofgroup(t, 'num_path')[1], s[0])): no('empty', 'a speaker with paths is taken to have none', p)
        nul = any(cc[0] == 'cmp' and tv and cc[1] == '==' and C(0) in cc[2:4] and any(ispath(x) for x in cc[2:4]) for cc, tv, *_ in o.conds)
        end = any(decide(I, o, '>=', s, ngrp, 0, True) is True for e in inl if any((e[1], e[2]) == lkey(p) for p in srch) for l, (q, s) in e[3].items())
        if not nul and not (srch and end): no('nothing', 'the report ends without the paths', o)
    else:
        e = main[-1]
        gone = any(decide(I, o, '>=', s, ngrp, 0, True) is True for l, (q, s) in e[3].items() if q == C(0))
        if (e[1], e[2]) in show_:      # one after the other by number
            sel = [x for x in inl if x is not e and inl.index(x) > inl.index(e)]
            gone = any(decide(I, o, '<', s, C(0)) is True for x in sel for l, (q, s) in x[3].items() if isnum(q) and q[1] < 0)
        if not gone: no('all', 'the report ends before the last path', o)
    got = {}
    for n, x in enumerate(m):
        if not isinstance(x, str): got.setdefault(m[n - 1].rsplit('\n', 1)[-1].strip(' "') if n and isinstance(m[n - 1], str) else '', x)
    for lab, f in FIELDS.items():
        x = got.get(lab)
        want = f == 'title' or full and (f == 'num_grp' or some)
        if x is None:
            if want: no('line:' + lab, 'the line %s is not printed' % lab, o)
        elif not want: no('line:' + lab, 'the line %s is printed without its value' % lab, o)
        elif not (fld(x[2])[1] == f and strip(fld(x[2])[0]) == strip(sc)) and x[2] != ('sym', '!' + f, ()): no('line:' + lab, 'the line %s shows %s' % (lab, show(x[2])), o)
    for w, f in (('Fragment Correct Flag Set', frag), ('Optionally Deletable Flag Set', some)):
        if (w in text) != bool(full and f): no('flag:' + w, '"%s" is %sprinted' % (w, '' if w in text else 'not '), o)


def covers_paths(e, show_):
    """the loop is one in which the paths are printed"""
    return any((e[1], e[2]) == (x[1], x[2]) and inside(p, x) for ps in show_.values() for p in ps for x in p.events if x[0] == 'loop')


def inside(p, x):
    """is the path printed in loop x, or in a loop inside it that goes through the paths of one speaker?"""
    key = lkey(p)
    if (x[1], x[2]) == key: return True
    if p.events.index(x) > p.events.index(lookup(p, key)): return False
    g = [e for e in p.events if e[0] == 'call' and e[1] == 'path'][-1][2][0]
    return any(eq(s, ispath(g)[0]) for l, (q, s) in x[3].items()) if ispath(g) else False


def names(c, I, outs, ngrp, no):
    """the list of the speakers"""
    ok = False
    for o in outs:
        if o.kind != 'back': continue
        evs = since(o, lkey(o)); m = printed(evs)
        if not m or any(e[0] == 'loop' or e[0] == 'call' and e[1] == 'path' for e in evs): continue
        x = [y for y in m if not isinstance(y, str) and ofgroup(y[2], 'name')]
        if not x: continue
        L = lookup(o, lkey(o)); r = [(l, s) for l, (q, s) in L[3].items() if q == C(0) and eq(step(o, l, s), C(1))]
        c.ob('speaker listed')
        if len(r) != 1 or not eq(ofgroup(x[0][2], 'name')[1], r[0][1]) or decide(I, o, '<', r[0][1], ngrp, 0, True) is not True: no('list', 'the speakers are not listed one after the other', o)
        else:
            ok = True
            for p in outs:
                if p.kind == 'ret':
                    e = lookup(p, lkey(o))
                    if e and decide(I, p, '>=', e[3][r[0][0]][1], ngrp, 0, True) is not True: no('list', 'not all the speakers are listed', p)
    if not ok: no('list', 'the speakers are not listed')
