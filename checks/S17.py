"""S17: alignments written as SGML are read back as the same alignments."""
import os, re
import facts, ir, absint
from absint import C, show, showloc, add, isnum, affparts
from util import *
from S02 import strip, param, subterms
from S09 import lkey, lookup, since
from S12 import rec
from S16 import fmtflat
from path import *

AUX = {'r_t1+t2': ('REF_WTIMES', 'a', ('T1', 'T2')), 'h_t1+t2': ('HYP_WTIMES', 'b', ('T1', 'T2')), 'r_conf': ('REF_CONF', 'a', ('conf',)), 'h_conf': ('HYP_CONF', 'b', ('conf',)),
       'r_weight': ('REF_WEIGHT', 'a', ('weight',)), 'h_weight': ('HYP_WEIGHT', 'b', ('weight',))}
LETTER = {'CORR': 'C', 'SUB': 'S', 'INS': 'I', 'DEL': 'D', 'MRG': 'M', 'SPL': 'T'}
TIMES = {'R_T1': ('ref_t1', 'REF_TIMES'), 'R_T2': ('ref_t2', 'REF_TIMES'), 'H_T1': ('hyp_t1', 'HYP_TIMES'), 'H_T2': ('hyp_t2', 'HYP_TIMES')}
FLAGS = {'char_align': 'CHAR_ALIGN', 'case_sense': 'CASE_SENSE', 'hyp_weight': 'HYP_WEIGHT', 'ref_weight': 'REF_WEIGHT'}
TEXTS = {'labels': 'labels', 'file': 'file', 'channel': 'channel'}
TOK = ('sym', '!tok', ())
LINE = ('sym', '!line', ())


def check(c):
    prog = c.prog('sclite')
    B = bits(prog)
    if not B: c.notes.append('the attribute bits of a path are not recognised'); return
    lay = {}
    c.part(writer, c, prog, B, lay)
    c.part(reader, c, prog, B, lay)
    c.part(elements, c, prog)
    c.part(tags, c, prog)


def bits(prog):
    r = {}
    try: s = open(os.path.join(facts.REPO, 'src/sclite/path.h'), encoding='latin1').read()
    except OSError: return None
    for n, v in re.findall(r'^[ \t]*#[ \t]*define[ \t]+(PA?_\w+)[ \t]+\(?(0x[0-9A-Fa-f]+|\d+)\)?', s, re.M): r[n] = int(v, 0)
    need = ['PA_' + x for x in 'CHAR_ALIGN CASE_SENSE HYP_WTIMES REF_WTIMES HYP_TIMES REF_TIMES HYP_CONF REF_CONF HYP_WEIGHT REF_WEIGHT'.split()] + ['P_' + x for x in LETTER]
    return r if all(n in r for n in need) else None


def the(prog, name):
    return next((g for g in prog.all() if g.qn == name and '/sclite/' in '/' + g.rel()), None)


# ---------------------------------------------------------------------------------------------------------------- writing

class W(Rec):
    """the fields in 'fix' have known values"""
    fix = {}

    def read(s, st, loc, *a):
        if loc[0] == 'fld' and loc[-1] in s.fix: return s.fix[loc[-1]]
        return Rec.read(s, st, loc, *a)


def pieces(e):
    """the text one printing call produces: literals (str) and (conversion, term) pairs; None if unknown"""
    n, a = e[1], e[2]
    if n == 'fputs': return [a[0][1]] if a[0][0] == 'c' and isinstance(a[0][1], str) else [('%s', a[0])]
    if n in ('fputc', 'putc'): return [chr(a[0][1])] if isnum(a[0]) else [('%c', a[0])]
    f, a = a[1], list(a[2:])
    if f[0] != 'c' or not isinstance(f[1], str): return None
    r = []
    for x in re.split(r'(%%|%[-0-9.*]*l?[a-zA-Z])', f[1]):
        if x == '%%': r.append('%')
        elif x.startswith('%'):
            if not a or '*' in x: return None
            t = a.pop(0)
            if x == '%s' and t[0] == 'c' and isinstance(t[1], str): r.append(t[1])
            elif x == '%c' and isnum(t): r.append(chr(t[1]))
            else: r.append((x, t))
        elif x: r.append(x)
    return r


def merged(evs):
    r = []
    for e in evs:
        if e[0] != 'call' or e[1] not in ('fprintf', 'fputs', 'fputc', 'putc'): continue
        p = pieces(e)
        if p is None: return None
        for x in p:
            if isinstance(x, str) and r and isinstance(r[-1], str): r[-1] += x
            elif x != '': r.append(x)
    return r


def wordof(t, side):
    """is t the word on this side of element n of a path? gives (path, n)"""
    if t[0] == 'init' and t[1][0] == 'fld' and t[1][-1] == side + '_ptr':
        e = t[1][1]
        if e[0] == 'addr': e = e[1]
        if e[0] == 'elem' and e[1][0] == 'init' and e[1][1][0] == 'fld' and e[1][1][-1] == 'pset': return e[1][1][1], e[2]
    return None


def fld(t):
    """(owner, name) of a field that is read"""
    return (t[1][1], t[1][-1]) if t[0] == 'init' and t[1][0] == 'fld' else (None, None)


def precision(f):
    m = re.fullmatch(r'%[-0]?\d*(?:\.(\d+))?l?f', f)
    return None if not m else 6 if m.group(1) is None else int(m.group(1))


def writer(c, prog, B, lay):
    c.rule('write', 'every system, speaker, path and word of the scores is written once, with each of its attributes under its own name, and the values of a word in the order their names are listed')
    fn = the(prog, 'dump_SCORES_sgml')
    if not fn or len(fn.params) != 4: c.notes.append('the writer of SGML alignments is not recognised'); return
    fn = c.fn(fn); fw = the(prog, 'formatWordForSGML'); w0 = where(fn, fn.line)
    if not fw: c.notes.append('the text of a word is not written by one function'); return
    def word(s, st, args, node, line, caller): return ('call', 'word', tuple(args), 0)
    def out(n):
        def h(s, st, args, node, line, caller):
            a = tuple(args) if n == 'fprintf' else tuple(args[:1])
            if strip(args[0 if n == 'fprintf' else 1]) != strip(param(fn, 1, 1)): s.event(st, ('call', 'elsewhere', (), line, caller))
            s.event(st, ('call', n, a, line, caller)); return C(0)
        return h
    T = {n: out(n) for n in ('fprintf', 'fputs', 'fputc', 'putc')}
    T['formatWordForSGML'] = word
    T['malloc'] = lambda s, st, args, node, line, caller: ('sym', '!new%d' % line, ())
    T['free'] = ignore
    bad = set()
    def no(key, msg, o):
        if key not in bad: bad.add(key); c.bad('write:' + key, where(fn, fn.line), msg, condlist(o))
    sys_, spk = set(), set()
    def run(ev, at, text, flags):
        I = W(prog, T, None, maxpaths=3000); st = I.start(fn)
        I.fix = {'attrib': C(at), 'eval': C(ev), 'frag_corr': C(flags & 1), 'opt_del': C(flags >> 1 & 1), 'weight_ali': C(flags >> 2 & 1)}
        for n in TEXTS: I.fix[n] = ('sym', '!' + n, ()) if n in text else C(0)
        for k, p in enumerate(fn.params):
            if k >= 2: st.env[('v', 1, p['id'], p['n'])] = C(':' if k == 2 else ',')
        return I, I.run(st)
    auxbits = [B['PA_' + x[0]] for x in AUX.values()]
    jobs = []
    for m in range(64):
        at = sum(b for k, b in enumerate(auxbits) if m >> k & 1)
        jobs += [(ev, at, (), 0) for ev in LETTER]
    oth = [B['PA_' + x] for x in ('REF_TIMES', 'HYP_TIMES', 'CHAR_ALIGN', 'CASE_SENSE')]
    for m in range(16):
        at = sum(b for k, b in enumerate(oth) if m >> k & 1)
        for a2 in (0, B['PA_REF_WEIGHT'], B['PA_HYP_WEIGHT'], B['PA_REF_CONF']):
            jobs += [('CORR', at | a2, tx, 0) for tx in (('labels', 'file', 'channel'), ('labels',), ('file',), ('channel',))] if m % 5 == 0 else [('CORR', at | a2, ('file', 'channel'), 0)]
    jobs += [('CORR', 0, (), f) for f in range(1, 8)]
    nw = 0
    for ev, at, text, flags in jobs:
        I, outs = run(B['P_' + ev], at, text, flags)
        if any(e[0] == 'call' and pieces(e) is None for o in outs for e in o.events if e[0] == 'call' and e[1] == 'fprintf'): c.notes.append('the alignments are not written with literal formats'); return
        wl = {}       # loop -> pieces of one word
        heads = []
        for o in outs:
            if any(e[0] == 'call' and e[1] == 'elsewhere' for e in o.events): no('stream', 'a part of the alignments is written elsewhere', o)
            if o.kind != 'back': continue
            L = lookup(o, lkey(o)); evs = since(o, lkey(o)); m = merged(evs)
            ws = [x for x in m if isinstance(x, tuple) and x[1][0] == 'call' and x[1][1] == 'word']
            inner = [e for e in evs if e[0] == 'loop']
            if ws and not inner:
                oneword(c, I, o, L, m, evs, ev, at, B, no, lay); nw += 1
                wl[lkey(o)] = 1
            elif m and isinstance(m[0], str) and m[0].startswith('<PATH'):
                heads.append((o, L, m, evs, inner))
            elif m and isinstance(m[0], str) and m[0].startswith('<SPEAKER'):
                speaker(c, I, o, L, m, inner, no, spk)
            elif m and isinstance(m[0], str) and m[0].startswith('<LABEL') or m and isinstance(m[0], str) and m[0].startswith('<CATEGORY'):
                label(c, I, o, L, m, no, sys_)
        if not heads: c.bad('write:path', w0, 'no path is written'); return
        if len(wl) != 1: c.bad('write:words', w0, 'the words of a path are not written in one loop (letter %s)' % LETTER[ev]); return
        for o, L, m, evs, inner in heads: pathhead(c, I, o, L, m, inner, wl, at, text, B, no, lay, ev)
        for o in outs:
            if o.kind == 'ret': whole(c, I, o, flags, fn, no)
            elif o.kind == 'stop' and not exits(o): no('stop', 'the writer stops', o)
    if not {'LABEL', 'CATEGORY'} <= sys_: c.bad('write:labels', w0, 'the labels and categories are not written')
    if not spk: c.bad('write:speaker', w0, 'the speakers are not written')
    # the order of the values is the order of the names
    for key, v in lay.items():
        if isinstance(key, tuple) and 'names' in v and 'values' in v:
            c.ob('order of the values')
            if v['names'] != v['values']: c.bad('write:order', w0, 'the names are written as %s, the values as %s' % (v['names'], v['values'])); return
    if nw: c.floor('write', 400)


def counter(o, L, limit=None, I=None):
    """the index of a loop that goes up by one from zero"""
    r = [(l, s) for l, (q, s) in L[3].items() if q == C(0) and eq(step(o, l, s), C(1))]
    if len(r) != 1: return None, None
    if limit and not any(decide(I, o, '<', r[0][1], y, 0, True) is True for y in index(o) if y[0] == 'init' and y[1][0] == 'fld' and y[1][-1] == limit): return None, None
    return r[0]


def bufs(m):
    seen = {}
    for x in m:
        if isinstance(x, tuple) and x[1][0] == 'call' and x[1][1] == 'word':
            b = strip(x[1][2][1]) if len(x[1][2]) > 1 else None
            seen.setdefault(b, set()).add(strip(x[1][2][0]))
    return seen


def oneword(c, I, o, L, m, evs, ev, at, B, no, lay):
    c.ob('word written')
    l, k = counter(o, L, 'num', I)
    if l is None: no('step', 'the words are not written one after the other', o); return
    for e in evs:
        if e[0] == 'call' and e[1] == 'fprintf':
            if any(len(v) > 1 for v in bufs(pieces(e)).values()): no('buffer', 'two words are written from one buffer', o)
    # body: letter , "ref" , "hyp"
    txt, args = '', []
    for x in m:
        if isinstance(x, str): txt += x
        else: txt += '\0'; args.append(x)
    owner = [None]
    def isw(x, side):
        if not (x[0] == '%s' and x[1][0] == 'call' and x[1][1] == 'word'): return False
        w = wordof(x[1][2][0], side)
        if not w or not eq(w[1], k): return False
        owner[0] = strip(w[0]); return True
    last = decide(I, o, '>=', add(k, C(1)), ('init', ('fld', I_path(args), 'num'), 0), 0, True) if args and I_path(args) else None
    if txt.endswith(':'):
        txt = txt[:-1]
        if last is not False: no('separator', 'the word separator is written behind the last word', o)
    elif last is not True: no('separator', 'two words are not separated', o)
    L1 = LETTER[ev]
    lead = {'INS': 'I,,"\0"', 'DEL': 'D,"\0",'}.get(ev, L1 + ',"\0","\0"')
    if not txt.startswith(lead): no('letter:' + ev, 'a word with evaluation %s is written as %s' % (ev, txt[:14].replace('\0', '%s')), o); return
    sides = {'INS': 'b', 'DEL': 'a'}.get(ev, 'ab')
    for s, x in zip(sides, args):
        if not isw(x, s): no('word:%s:%s' % (ev, s), 'the %s word of an alignment is written as %s' % ({'a': 'reference', 'b': 'hypothesis'}[s], show(x[1])), o); return
    lay.setdefault('body', {})[ev] = (lead, sides)
    rest = txt[len(lead):]; args = args[len(sides):]
    if rest and rest[0] != ',': no('aux', 'what follows the words begins with %s' % rest[0], o); return
    items = rest[1:].split(',') if rest else []
    want = [n for n, (b, s, f) in AUX.items() if at & B['PA_' + b]]
    if len(items) != len(want): no('aux:%s:%x' % (ev, at), '%d values are written for the %d attributes of a word' % (len(items), len(want)), o); return
    values = []
    for it in items:
        if it == '': values.append(None); continue
        xs = args[:it.count('\0')]; args = args[len(xs):]
        f = [fld(x[1]) for x in xs]; got = None
        for n, (b, s, fs) in AUX.items():
            if tuple(y[1] for y in f) != fs or n not in want: continue
            if all(y[0] is not None and wordof(y[0], s) and eq(wordof(y[0], s)[1], k) and strip(wordof(y[0], s)[0]) == owner[0] for y in f): got = n
        if got is None or it != '+'.join(['\0'] * len(xs)): no('value:%s' % ev, 'a value of a word is written from %s' % [show(x[1]) for x in xs], o); return
        if any((precision(x[0]) or 0) < 3 for x in xs): no('precision:' + got, '%s is written with %s' % (got, xs[0][0]), o)
        values.append(got)
    # the empty ones are those of the missing word, in the order seen elsewhere
    miss = [n for n in want if (AUX[n][1] == 'a' and ev == 'INS') or (AUX[n][1] == 'b' and ev == 'DEL')]
    if sorted(x for x in values if x) != sorted(n for n in want if n not in miss): no('values:%s' % ev, 'the values written are %s, set are %s' % (values, want), o); return
    lay.setdefault((ev, at), {})['vals'] = values


def I_path(args):
    for x in args:
        t = x[1][2][0] if x[1][0] == 'call' and x[1][1] == 'word' else None
        if t is not None:
            for s in 'ab':
                w = wordof(t, s)
                if w: return w[0]
    return None


def attributes(m):
    """' name="value"' items of a tag: {name: text or (conversion, term)}, tag, rest; None if it is not of that form"""
    r, order = {}, []
    t, args = '', []
    for x in m:
        if isinstance(x, str): t += x
        else: t += '\0'; args.append(x)
    g = re.match(r'<(\w+)', t); tag = g.group(1); p = g.end()
    while True:
        g = re.compile(r' (\w+)="([^"]*)"').match(t, p)
        if not g: break
        v = g.group(2); n = v.count('\0')
        if n == 0: r[g.group(1)] = v
        elif v == '\0': r[g.group(1)] = args[0]
        else: r[g.group(1)] = None
        args = args[n:]; p = g.end()
    return tag, r, t[p:]


def ofpath(x, f, e):
    """the term is field f of the record e"""
    return isinstance(x, tuple) and fld(x[1])[1] == f and strip(fld(x[1])[0]) == strip(e)


def pathhead(c, I, o, L, m, inner, wl, at, text, B, no, lay, ev):
    c.ob('path written')
    l, k = counter(o, L, 'num_path', I)
    if l is None: no('pathstep', 'the paths are not written one after the other', o); return
    tag, at_, rest = attributes(m)
    if tag != 'PATH' or rest != '>\n\n</PATH>\n': no('pathtag', 'a path is written as <%s ... %s' % (tag, repr(rest)), o); return
    wloop = [e for e in inner if e[2] in {x[1] for x in wl}]
    if len(inner) != 1 or not wloop: no('pathwords', 'the words of a path are not written with it', o); return
    idx = at_.get('id'); p = fld(idx[1])[0] if isinstance(idx, tuple) else None
    pe = strip(p) if p else None
    ok = p is not None and p[0] == 'init' and p[1][0] == 'elem' and eq(p[1][2], k)
    if not ok: no('path', 'the path written is %s' % (show(p) if p else '?'), o); return
    # all the words
    wk = [(l2, s2) for l2, (q, s2) in wloop[0][3].items() if q == C(0)]
    num = ('init', ('fld', p, 'num'), 0)
    if not any(decide(I, o, '>=', s2, num, 0, True) is True for l2, s2 in wk): no('all', 'not all the words of a path are written', o)
    exp = {'id': ('%s', 'id'), 'word_cnt': ('%d', 'num'), 'sequence': ('%d', 'sequence')}
    for a, f in exp.items():
        if a not in at_ or not ofpath(at_[a], f[1], pe) or at_[a][0] != f[0]: no('attr:' + a, '%s of a path is written as %s' % (a, at_.get(a)), o)
    want = set(exp)
    for a, f in TEXTS.items():
        if f in text:
            want.add(a)
            if at_.get(a) != ('%s', ('sym', '!' + f, ())): no('attr:' + a, '%s of a path is written as %s' % (a, at_.get(a)), o)
    for a, (f, b) in TIMES.items():
        if at & B['PA_' + b]:
            want.add(a); v = at_.get(a)
            if not v or not ofpath(v, f, pe) or (precision(v[0]) or 0) < 3: no('attr:' + a, '%s of a path is written as %s' % (a, v), o)
    for a, b in FLAGS.items():
        if at & B['PA_' + b]:
            want.add(a)
            if not isinstance(at_.get(a), str) or not at_[a]: no('attr:' + a, 'the attribute %s is not written' % a, o)
    names = [n for n, (b, s, f) in AUX.items() if at & B['PA_' + b]]
    if names:
        want.add('word_aux'); v = at_.get('word_aux')
        got = v.split(',') if isinstance(v, str) else []
        if sorted(got) != sorted(names): no('aux', 'the attributes of the words are listed as %s' % v, o)
        else:
            y = lay.setdefault((ev, at), {}); y['names'] = got
            if 'vals' in y: y['values'] = [a if a else b for a, b in zip(y['vals'], got)] if all(a or (AUX[b][1] == 'a') == (ev == 'INS') and ev in ('INS', 'DEL') for a, b in zip(y['vals'], got)) else y['vals']
    for a in set(at_) - want: no('extra:' + a, 'the attribute %s is written for a path without it' % a, o)


def speaker(c, I, o, L, m, inner, no, seen):
    c.ob('speaker written'); l, k = counter(o, L, 'num_grp', I)
    tag, at, rest = attributes(m)
    x = at.get('id'); e = fld(x[1])[0] if isinstance(x, tuple) else None
    if e is not None and e[0] == 'addr': e = e[1]
    if l is None or tag != 'SPEAKER' or set(at) != {'id'} or fld(x[1])[1] != 'name' or e[0] != 'elem' or not eq(e[2], k) or rest != '>\n</SPEAKER>\n' : no('speaker', 'a speaker is written as %s' % m, o); return
    if len(inner) != 1: no('speakerpaths', 'the paths of a speaker are not written with it', o); return
    if not any(decide(I, o, '>=', s, t, 0, True) is True for l2, (q, s) in inner[0][3].items() if q == C(0) for t in index(o) if t[0] == 'init' and t[1][0] == 'fld' and t[1][-1] == 'num_path'): no('paths', 'not all the paths of a speaker are written', o)
    seen.add(1)


def label(c, I, o, L, m, no, seen):
    c.ob('label written'); tag, at, rest = attributes(m)
    l, k = counter(o, L, 'num_plab' if tag == 'LABEL' else 'num_cat', I)
    if l is None or set(at) != {'id', 'title', 'desc'} or rest != '>\n</%s>\n' % tag: no('label', 'a label is written as %s' % m, o); return
    for a, x in at.items():
        ow, f = fld(x[1]) if isinstance(x, tuple) else (None, None)
        if ow is not None and ow[0] == 'addr': ow = ow[1]
        arr = {'LABEL': 'plab', 'CATEGORY': 'cat'}[tag]
        if f != a or ow[0] != 'elem' or not eq(ow[2], k) or arr not in [y[1][-1] for y in subterms(ow[1]) if y[0] == 'init' and y[1][0] == 'fld']: no('label:' + a, '%s of a %s is written as %s' % (a, tag, show(x[1]) if isinstance(x, tuple) else x), o)
    seen.add(tag)


def whole(c, I, o, flags, fn, no):
    m = merged(o.events)
    if not m or not isinstance(m[0], str) or not m[0].startswith('<SYSTEM'): no('system', 'the system is written as %s' % m[:1], o); return
    c.ob('system written')
    sc = param(fn, 1, 0)
    tag, at, rest = attributes(m)
    for a in ('title', 'ref_fname', 'hyp_fname', 'creation_date'):
        if not ofpath(at.get(a), a, sc): no('attr:' + a, '%s of a system is written as %s' % (a, at.get(a)), o)
    for k, a in enumerate(('frag_corr', 'opt_del', 'weight_ali')):
        if at.get(a) != ('TRUE' if flags >> k & 1 else 'FALSE'): no('attr:' + a, '%s is written as %s' % (a, at.get(a)), o)
    w = at.get('weight_filename')
    if flags >> 2 & 1 and not ofpath(w, 'weight_file', sc): no('attr:weight', 'the weight file is written as %s' % (w,), o)
    if not rest.startswith('>\n') or not rest.endswith('</SYSTEM>\n'): no('systemtag', 'the system is written with %s' % repr(rest[:40]), o)
    for a, n in (('num_plab', 'labels'), ('num_cat', 'categories'), ('num_grp', 'speakers')):
        if not any(decide(I, o, '>=', s, t, 0, True) is True for e in o.events if e[0] == 'loop' for l, (q, s) in e[3].items() if q == C(0) for t in index(o) if t[0] == 'init' and t[1][0] == 'fld' and t[1][-1] == a): no('all:' + n, 'not all the %s of a system are written' % n, o)


# ---------------------------------------------------------------------------------------------------------------- reading

class R(Rec):
    line = name = end = ''; attrs = {}; aux = None; lay = None; sg = None

    def read(s, st, loc, *a):
        if loc[0] == 'elem':
            t = add(loc[1], loc[2])
            if t == LINE or isnum(add(t, LINE, -1)):
                k = add(t, LINE, -1)[1]; return C(ord(s.line[k]) if k < len(s.line) else 0)
            for x in affparts(t)[0]:
                if x[0] == 'call' and x[1] == 'strlen' and eq(t, add(x[2][0], x)): return C(0)
            v = s.at(t)
            if v is not None and loc not in st.env: return v
        if loc[0] == 'fld' and loc[-1] == 'name' and loc[1][0] in ('elem', 'addr'):
            e = loc[1][1] if loc[1][0] == 'addr' else loc[1]
            return C(s.name) if e[0] == 'elem' and e[2] == C(2) else ('sym', 'othername', ())
        if loc[0] == 'fld' and loc[-1] == 'num_tags': return C(3)
        if loc[0] == 'fld' and loc[-1] == 'attrib': return st.env.get(loc, C(0))
        return Rec.read(s, st, loc, *a)

    def compare(s, st, op, a, b):
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if y == C(0) and affparts(x)[0].get(TOK) == 1: return op == '!='
        return Rec.compare(s, st, op, a, b)

    def pos(s, t):
        """index into the layout of the item a pointer into the token points at"""
        if s.lay is None: return None
        d, k = affparts(t)
        if d.get(TOK) != 1: return None
        q = C(0)
        for n, x in enumerate(s.lay + ['']):
            if add(add(TOK, q), t, -1) == C(0): return n
            q = add(q, C(1) if isinstance(x, str) else ('sym', 'len', (C(x),)))
        return None

    def ptr(s, n):
        q = TOK
        for x in s.lay[:n]: q = add(q, C(1) if isinstance(x, str) else ('sym', 'len', (C(x),)))
        return q

    def at(s, t):
        n = s.pos(t)
        if n is None: return None
        if n == len(s.lay): return C(0)
        x = s.lay[n]
        return C(ord(x)) if isinstance(x, str) else None

    def enter_block(s, st, fn, g, b, fr):
        r = Rec.enter_block(s, st, fn, g, b, fr)
        if r is None and s.lay is not None and b in g.loops:
            e = next(iter(reversed(list(absint._unroll(st.events)))), None)
            if e and e[0] == 'loop' and e[2] == b:
                for l, (q, y) in e[3].items():
                    if q == TOK: st.env[l] = TOK
        return r


def handlers():
    def fgets(s, st, args, node, line, caller):
        if args[0][0] == 'addr': s.write(st, args[0][1], LINE)
        return LINE
    def attr(s, st, args, node, line, caller):
        n = args[2]
        if args[1] != C(2) or s.sg is not None and args[0] != s.sg: return ('call', 'attr', tuple(args), 0)
        return s.attrs.get(n[1], C('')) if n[0] == 'c' else ('call', 'attr', tuple(args), 0)
    def cmp(s, st, args, node, line, caller):
        a, b = args[:2]
        if a[0] == 'c' and b[0] == 'c': return C(int(a != b))
        if b == C('') and a[0] == 'sym' and a[1] == '!attr' or a == C('') and b[0] == 'sym' and b[1] == '!attr': return C(1)
        return ('call', 'cmp', tuple(args), 0)
    def ccmp(s, st, args, node, line, caller):
        a, b, n = args[:3]
        if s.aux and b[0] == 'c' and isnum(n): return C(int((s.aux + ',')[:n[1]] != (b[1] + '\0')[:n[1]]))
        return ('call', 'ccmp', tuple(args), 0)
    def chr_(s, st, args, node, line, caller):
        n = s.pos(args[0])
        if n is not None and isnum(args[1]):
            for j in range(n, len(s.lay)):
                if s.lay[j] == chr(args[1][1]): return s.ptr(j)
                if not isinstance(s.lay[j], str) and args[1][1] != 34: break
            else: return C(0)
        return ('call', 'strchr', tuple(args), 0)
    def len_(s, st, args, node, line, caller):
        if s.pos(args[0]) is not None: return add(s.ptr(len(s.lay)), args[0], -1)
        return ('call', 'strlen', tuple(args), 0)
    def tag(s, st, args, node, line, caller):
        s.sg = args[0]
        return C(1)
    def tok(s, st, args, node, line, caller):
        s.event(st, ('call', 'tok', tuple(args), line, caller))
        return TOK if args[0] != C(0) else ('sym', 'next', ())
    T = {'TEXT_ensure_fgets': fgets, 'get_SGML_attrib': attr, 'TEXT_strcmp': cmp, 'TEXT_strCcmp': ccmp, 'TEXT_strBcmp': ccmp, 'TEXT_strchr': chr_, 'TEXT_strlen': len_, 'TEXT_strqtok': tok,
         'add_SGML_tag': tag, 'delete_SGML_tag': lambda s, st, a, *r: C(s.end), 'rsprintf': pure('rsprintf'), 'feof': ignore, 'free': ignore, 'init_SGML': ignore,
         'SCORES_get_grp': rec('group', lambda a: ('sym', 'grp', tuple(a))), 'SCORES_init': rec('SCORES_init', lambda a: ('sym', '!scor', ())), 'TEXT_strdup': pure('dup'), 'atoi': pure('num'), 'atof': pure('num'),
         'PATH_alloc': rec('PATH_alloc', lambda a: ('sym', '!path', ())), 'add_PATH_score': rec('add_PATH_score'), 'parse_input_comment_line': rec('comment'), 'setWordFromSGML': rec('word'),
         'new_WORD': lambda s, st, args, node, line, caller: ('sym', '!new%d' % line, tuple(args)), 'check_space_in_PATH': rec('room')}
    T.update({n: ignore for n in ('fprintf', 'printf', 'fputs', 'puts', 'dump_SGML_tag')})
    return T


def reader(c, prog, B, lay):
    c.rule('read', 'every attribute and word in an SGML alignment is read into the field it was written from, and a line that is not in the format is refused')
    fn = the(prog, 'load_SCORES_sgml')
    if not fn or len(fn.params) != 4: c.notes.append('the reader of SGML alignments is not recognised'); return
    fn = c.fn(fn); w0 = where(fn, fn.line); T = handlers()
    bad = set()
    def no(key, msg, o=None):
        if key not in bad: bad.add(key); c.bad('read:' + key, where(fn, o.line if o is not None and o.kind == 'ret' and o.line else fn.line), msg, condlist(o) if o is not None else None)
    NS = ('v', 0, 'nscor', 'nscor')
    def run(line, name='', end='', attrs={}, aux=None, layout=None):
        I = R(prog, T, None, maxpaths=20000); I.line = line; I.name = name; I.end = end; I.aux = aux; I.lay = layout
        I.attrs = {k: ('sym', '!attr', (C(k),)) if v is True else C(v) for k, v in attrs.items()}
        st = I.start(fn); p = fn.params[2]; st.env[('v', 1, p['id'], p['n'])] = ('addr', NS)
        return I, I.run(st)
    A = lambda k: ('sym', '!attr', (C(k),))
    V = lambda k: ('call', 'num', (A(k),), 0)
    arr, maxn = param(fn, 1, 1), param(fn, 1, 3)
    def mains(outs):
        """outcomes of one line, with the loop over the lines"""
        r = []
        for o in outs:
            if o.kind != 'back': continue
            L = lookup(o, lkey(o))
            if LINE in [o.st.env.get(l, s) for l, (q, s) in L[3].items()] and not any(e[0] == 'loop' and e is not L and LINE in [o.st.env.get(l, s) for l, (q, s) in e[3].items()] for e in o.events[:o.events.index(L)]):
                r.append((o, L))
        return r
    role = {}
    # <SYSTEM>
    I, outs = run('<S', 'SYSTEM', attrs={'title': True})
    for o, L in mains(outs):
        for l, (q, s) in L[3].items():
            if o.st.env.get(l, s) == ('sym', '!scor', ()): role['scor'] = l
    I, outs = run('<S', 'SPEAKER', attrs={'id': True})
    for o, L in mains(outs):
        for l, (q, s) in L[3].items():
            v = o.st.env.get(l, s)
            if v[0] == 'sym' and v[1] == 'grp': role['spk'] = l
    I, outs = run('<P', 'PATH', attrs={'id': True})
    for o, L in mains(outs):
        for l, (q, s) in L[3].items():
            if o.st.env.get(l, s) == ('sym', '!path', ()): role['path'] = l
    for t, n in (('SYSTEM', 'SCORES_init'), ('SPEAKER', 'group'), ('PATH', 'PATH_alloc')):
        I, os_ = run('<S', t, attrs={'title': True, 'id': True})
        if not any(e[0] == 'call' and e[1] == n for o in os_ if o.kind == 'back' for e in o.events): no('tag:' + t, 'a %s is not read' % t)
    if bad: return
    if set(role) != {'scor', 'spk', 'path'}: c.notes.append('the state of the SGML reader is not recognised'); return
    cur = lambda L, n: L[3][role[n]][1]
    for n, v in (('scor', C(0)), ('path', C(0)), ('spk', C(-1))):
        o, L = mains(outs)[0]
        if L[3][role[n]][0] != v: no('begin:' + n, 'before the first line the %s is %s' % (n, show(L[3][role[n]][0])), o)

    def refused(I, outs, ok, what):
        for o in outs:
            if o.kind == 'ret' and any(e[0] == 'loop' and role['path'] in e[3] for e in o.events) and (o.value == C(0)) :
                c.ob('line refused')
                L = next(e for e in o.events if e[0] == 'loop' and role['path'] in e[3])
                if not ok(I, o, L): no('refused:' + what, 'a %s line is refused' % what, o)
            elif o.kind == 'ret' and o.value is not None and o.value != C(1) and o.value != C(0): no('value', 'the reader returns %s' % show(o.value), o)

    # systems
    for fr, od, wt in [(a, b, d) for a in ('TRUE', 'FALSE') for b in ('TRUE', 'FALSE') for d in ('TRUE', 'FALSE')]:
        I, outs = run('<S', 'SYSTEM', attrs={'title': True, 'ref_fname': True, 'hyp_fname': True, 'creation_date': True, 'frag_corr': fr, 'opt_del': od, 'weight_ali': wt, 'weight_filename': True})
        ms = mains(outs)
        if not ms: no('system', 'a system is not read'); break
        refused(I, outs, lambda I, o, L: decide(I, o, '>=', L[3][NS][1] if NS in L[3] else C(0), maxn, 0, True) is True, 'SYSTEM')
        for o, L in ms:
            c.ob('system read'); evs = since(o, lkey(o)); S = ('sym', '!scor', ())
            ini = [e for e in evs if e[0] == 'call' and e[1] == 'SCORES_init']
            if len(ini) != 1 or ini[0][2][0] != A('title'): no('title', 'the title of a system is read from %s' % [show(x) for e in ini for x in e[2][:1]], o)
            f = {e[1][-1]: e[2] for e in evs if e[0] == 'set' and e[1][0] == 'fld' and strip(e[1][1]) == S}
            exp = {n: ('call', 'dup', (A(n),), 0) for n in ('ref_fname', 'hyp_fname', 'creation_date')}
            exp.update(frag_corr=C(int(fr == 'TRUE')), opt_del=C(int(od == 'TRUE')), weight_ali=C(int(wt == 'TRUE')))
            if wt == 'TRUE': exp['weight_file'] = ('call', 'dup', (A('weight_filename'),), 0)
            for n, v in exp.items():
                if f.get(n) is None or strip(f[n]) != strip(v): no('system:' + n, '%s of a system is set to %s' % (n, show(f[n]) if n in f else 'nothing'), o)
            for n in set(f) - set(exp): no('system:' + n, '%s of a system is set to %s' % (n, show(f[n])), o)
            put = [e for e in evs if e[0] == 'set' and e[1][0] == 'elem' and strip(e[1][1]) == strip(arr)]
            ns = L[3].get(NS, (None, None))[1]
            if ns is None or len(put) != 1 or not eq(put[0][1][2], ns) or put[0][2] != S or not eq(o.st.env.get(NS, ns), add(ns, C(1))): no('systems', 'the systems are not kept one after the other', o); continue
            if decide(I, o, '<', ns, maxn, 0, True) is not True: no('room', 'there may be no room for a system', o)
            if o.st.env.get(role['scor']) != S or o.st.env.get(role['spk'], cur(L, 'spk')) != C(-1): no('system:state', 'behind a SYSTEM tag the speaker is %s' % show(o.st.env.get(role['spk'], cur(L, 'spk'))), o)
    # speakers
    I, outs = run('<S', 'SPEAKER', attrs={'id': True}); ms = mains(outs)
    refused(I, outs, lambda I, o, L: decide(I, o, '==', cur(L, 'scor'), C(0)) is True, 'SPEAKER')
    for o, L in ms:
        c.ob('speaker read'); v = o.st.env.get(role['spk'], cur(L, 'spk'))
        if strip(v) != strip(('sym', 'grp', (cur(L, 'scor'), A('id')))): no('speaker', 'the speaker is %s' % show(v), o)
        if decide(I, o, '!=', cur(L, 'scor'), C(0)) is not True: no('speaker:system', 'a speaker outside of a system is accepted', o)
    # paths
    names = list(TEXTS) + ['sequence'] + list(TIMES) + list(FLAGS)
    sets = [set(names), set()] + [{n} for n in names] + [set(names) - {n} for n in names]
    for given in sets:
        I, outs = run('<P', 'PATH', attrs={k: True for k in given | {'id', 'word_cnt'}}); ms = mains(outs)
        if not ms: no('path', 'a path is not read'); break
        refused(I, outs, lambda I, o, L: decide(I, o, '==', cur(L, 'spk'), C(-1)) is True, 'PATH')
        for o, L in ms:
            c.ob('path read'); pathread(c, prog, I, o, since(o, lkey(o)), given, A, V, B, no)
            if o.st.env.get(role['path']) != ('sym', '!path', ()): no('path:state', 'the path is not kept', o)
            if decide(I, o, '!=', cur(L, 'spk'), C(-1)) is not True: no('path:speaker', 'a path outside of a speaker is accepted', o)
            if any(o.st.env.get(role[n], cur(L, n)) != cur(L, n) for n in ('scor', 'spk')): no('path:other', 'a PATH tag changes the speaker', o)
    # what the words carry
    code, tbl = {}, None
    for x in AUX:
        I, outs = run('<P', 'PATH', attrs={'id': True, 'word_cnt': True, 'word_aux': True}, aux=x)
        got = []
        for o in outs:
            if o.kind != 'back': continue
            L = lookup(o, lkey(o)); tp = [(l, q, s) for l, (q, s) in L[3].items() if q == A('word_aux')]
            if len(tp) != 1: continue
            c.ob('attribute of the words'); evs = since(o, lkey(o))
            put = [e for e in evs if e[0] == 'set' and e[1][0] == 'elem' and isnum(e[2])]
            cn = [(l, s) for l, (q, s) in L[3].items() if q == C(0) and l != tp[0][0]]
            at = [e for e in evs if e[0] == 'set' and e[1][0] == 'fld' and e[1][-1] == 'attrib']
            if len(cn) != 1 or len(put) != 1 or not eq(put[0][1][2], cn[0][1]) or not eq(step(o, *cn[0]), C(1)): no('aux:' + x, 'the attribute %s of the words is not noted' % x, o); continue
            if not at or not isnum(at[-1][2]) or at[-1][2][1] != B['PA_' + AUX[x][0]]: no('auxbit:' + x, '%s marks the path with %s' % (x, show(at[-1][2]) if at else 'nothing'), o)
            got.append(put[0][2][1]); tbl = strip(put[0][1][1]); role['naux'] = cn[0][0]
            cap = [t for t in ctypes(prog, fn, put[0][1][1][1])] if put[0][1][1][0] in ('addr',) else []
            mv = step(o, tp[0][0], tp[0][2]); t = tp[0][2]
            comma = [y for y in index(o) if y[0] == 'call' and y[1] == 'strchr' and strip(y[2][0]) == strip(t) and y[2][1] == C(44)]
            yes = [y for y in comma if decide(I, o, '!=', y, C(0)) is True]
            end = add(yes[0], t, -1) if yes else ('call', 'strlen', (t,), 0)
            if strip(mv) != strip(end) and not (yes and eq(mv, add(end, C(1)))): no('auxstep', 'behind %s reading goes on at %s' % (x, show(add(t, mv))), o)
            if yes and eq(mv, end) and not any(decide(I, o, '!=', y, C(44)) is True for y in index(o) if y[0] == 'init' and y[1][0] == 'elem' and strip(add(y[1][1], y[1][2])) == strip(yes[0])): no('auxcomma', 'the comma behind %s is not passed' % x, o)
        if not got: no('aux:' + x, 'the attribute %s of the words is not read' % x); continue
        code[x] = got[0]
        if len(set(got)) > 1: no('aux:' + x, '%s is noted in several ways' % x)
    if len(set(code.values())) < len(code): no('codes', 'two attributes of the words are noted as the same')
    # labels
    for t in ('LABEL', 'CATEGORY'):
        I, outs = run('<L', t, attrs={'id': True, 'title': True, 'desc': True})
        for o, L in mains(outs):
            c.ob('label read'); s = cur(L, 'scor'); ev = [e for e in since(o, lkey(o)) if e[0] == 'call' and e[1] == 'comment']
            if decide(I, o, '==', s, C(0)) is True: continue
            f = fmtflat(ev[0][2][1]) if len(ev) == 1 else None
            if not f or strip(ev[0][2][0]) != strip(s) or f != [C(';; %s id="' % t), A('id'), C('" title="'), A('title'), C('" desc="'), A('desc'), C('"\n')]: no('label', 'a %s is not kept' % t, o)
    # ends
    for t in ('SYSTEM', 'SPEAKER', 'PATH'):
        I, outs = run('</', end=t); ms = mains(outs)
        if not ms: no('end:' + t, 'the end of a %s is not read' % t)
        for o, L in ms:
            c.ob('end read'); ev = [e for e in since(o, lkey(o)) if e[0] == 'call' and e[1] == 'add_PATH_score']
            v = {n: o.st.env.get(role[n], cur(L, n)) for n in role if n != 'naux'}
            exp = {'SYSTEM': ('scor', 'spk', 'path'), 'SPEAKER': ('spk', 'path'), 'PATH': ('path',)}[t]
            for n in ('scor', 'spk', 'path'):
                w = (C(-1) if n == 'spk' else C(0)) if n in exp else cur(L, n)
                if v[n] != w: no('end:%s:%s' % (t, n), 'behind </%s> the %s is %s' % (t, n, show(v[n])), o)
            if t == 'PATH':
                if len(ev) != 1 or [strip(x) for x in ev[0][2]] != [strip(cur(L, n)) for n in ('scor', 'path', 'spk')] + [C(1)]: no('score', 'a path is added as %s' % [show(x) for e in ev for x in e[2]], o)
            elif ev: no('score:' + t, 'a path is added at the end of a %s' % t, o)
    # words
    body = lay.get('body')
    if not body or set(body) != set(LETTER): c.notes.append('the layout of a word is not known'); return
    found = set()
    for ev, (lead, sides) in body.items():
        pl = []; k = 0
        for ch in lead:
            if ch == '\0': pl.append(ord(sides[k])); k += 1
            else: pl.append(ch)
        for aux in (False, True):
            I, outs = run(lead[0], layout=pl + ([','] if aux else []))
            wordread(c, I, outs, ev, lead, sides, pl, aux, B, role, cur, code, tbl, found, no)
    need = {(x, ev) for x in code for ev in LETTER if not (AUX[x][1] == 'a' and ev == 'INS') and not (AUX[x][1] == 'b' and ev == 'DEL')}
    for x, ev in sorted(need - found): no('lost:%s' % x, '%s of a word with evaluation %s is not read' % (x, ev))
    c.floor('read', 200)


def pathread(c, prog, I, o, evs, given, A, V, B, no):
    P = ('sym', '!path', ())
    al = [e for e in evs if e[0] == 'call' and e[1] == 'PATH_alloc']
    if len(al) != 1 or strip(al[0][2][0]) != strip(V('word_cnt')): no('alloc', 'a path is made with room for %s words' % [show(e[2][0]) for e in al], o)
    f = {e[1][-1]: e[2] for e in evs if e[0] == 'set' and e[1][0] == 'fld' and strip(e[1][1]) == P}
    exp = {'num': C(0), 'id': ('call', 'dup', (A('id'),), 0)}
    for a, n in TEXTS.items():
        if a in given: exp[n] = ('call', 'dup', (A(a),), 0)
    exp['sequence'] = V('sequence') if 'sequence' in given else C(-1)
    m = 0
    for a, (n, b) in TIMES.items():
        if a in given: exp[n] = V(a); m |= B['PA_' + b]
    for a, b in FLAGS.items():
        if a in given: m |= B['PA_' + b]
    if m: exp['attrib'] = C(m)
    for n, v in exp.items():
        if n == 'num' and n not in f: continue                  # PATH_alloc does so
        if n not in f or strip(f[n]) != strip(v): no('path:' + n, '%s of a path is set to %s' % (n, show(f[n]) if n in f else 'nothing'), o)
    for n in set(f) - set(exp): no('path:' + n, '%s of a path is set to %s' % (n, show(f[n])), o)


def wordread(c, I, outs, ev, lead, sides, pl, aux, B, role, cur, code, tbl, found, no):
    toks = 0
    for o in outs:
        Ls = [e for e in o.events if e[0] == 'loop']
        P0 = next((e for e in Ls if role['path'] in e[3]), None)
        if P0 is None: continue
        path = cur(P0, 'path')
        tl = next((e for e in Ls if any(q == TOK for q, s in e[3].values())), None)
        if o.kind == 'ret' and o.value == C(0):
            # inside the values of a word: only for a time without '+'
            if len(Ls) and Ls[-1] is not tl and tl is not None and any(y[0] == 'call' and y[1] == 'strchr' and y[2][1] == C(43) and decide(I, o, '==', y, C(0)) is True for y in index(o)): continue
            no('word:refused:' + ev, 'a word written as %s is refused' % lead.replace('\0', 'w'), o); continue
        if tl is None or o.kind != 'back': continue
        evs = o.events[o.events.index(tl):]
        if decide(I, o, '!=', path, C(0)) is not True: no('nopath', 'words outside of a path are read', o); continue
        tloc = next(l for l, (q, s) in tl[3].items() if q == TOK)
        al = [e for e in evs if e[0] == 'loop' and e is not tl]
        num = None
        # what the word became
        st = {}; order = []
        for e in evs:
            if e[0] == 'set' and e[1][0] == 'fld' and e[1][-1] in ('eval', 'a_ptr', 'b_ptr'):
                el = e[1][1][1] if e[1][1][0] == 'addr' else e[1][1]
                if el[0] != 'elem' or el[1][0] != 'init' or el[1][1][0] != 'fld' or el[1][1][-1] != 'pset' or strip(el[1][1][1]) != strip(path): no('where', 'a word is stored to %s' % showloc(e[1]), o); return
                if strip(el[2]) != strip(('init', ('fld', path, 'num'), 0)): no('where', 'a word is stored at index %s' % show(el[2]), o); return
                st[e[1][-1]] = e[2]; order.append('store')
            elif e[0] == 'call' and e[1] == 'room':
                if strip(e[2][0]) == strip(path): order.append('room')
        if 'store' in order and 'room' not in order[:order.index('store')] and decide(I, o, '<', ('init', ('fld', path, 'num'), 0), ('init', ('fld', path, 'max'), 0), 0, True) is not True: no('space', 'a word is stored although there may be no room in the path', o)
        if st.get('eval') != C(B['P_' + ev]): no('eval:' + ev, 'the letter %s is read as evaluation %s' % (lead[0], show(st['eval']) if 'eval' in st else 'nothing'), o)
        ws = {}
        for s in 'ab':
            v = st.get(s + '_ptr')
            if s not in sides:
                if v is not None and v != C(0): no('side:%s:%s' % (ev, s), 'a word with letter %s gets a word on the other side' % lead[0], o)
                if v is None: no('side:%s:%s' % (ev, s), 'the missing word of a word with letter %s is not set' % lead[0], o)
            else:
                if v is None or v[0] != 'sym' or not v[1].startswith('!new'): no('side:%s:%s' % (ev, s), 'a word with letter %s has no %s word' % (lead[0], s), o); return
                ws[s] = v
        if len(ws) == 2 and ws['a'] == ws['b']: no('shared', 'both sides share one word', o)
        rd = [e for e in evs if e[0] == 'call' and e[1] == 'word']
        for s in sides:
            n = pl.index(ord(s)); r = [e for e in rd if e[2][0] == ws[s]]
            c.ob('word read')
            if len(r) != 1 or not eq(r[0][2][1], I.ptr(n)) or not eq(r[0][2][2], ('sym', 'len', (C(ord(s)),))): no('text:%s:%s' % (ev, s), 'the %s word of %s is read from %s' % (s, lead.replace('\0', 'w'), [(show(e[2][1]), show(e[2][2])) for e in r]), o); return
        if len(rd) != len(sides): no('text:' + ev, 'a word is read twice', o)
        L = lookup(o, lkey(o))
        if L is tl:
            toks += 1; c.ob('token read')
            if strip(o.st.env.get(('fld', path, 'num'), C(0))) != strip(add(('init', ('fld', path, 'num'), 0), C(1))): 
                inc = [e for e in evs if e[0] == 'set' and e[1][0] == 'fld' and e[1][-1] == 'num' and strip(e[1][1]) == strip(path)]
                if len(inc) != 1 or not eq(inc[0][2], add(('init', ('fld', path, 'num'), 0), C(1))): no('count', 'a word is not counted', o)
            nt = [e for e in evs if e[0] == 'call' and e[1] == 'tok']
            if len(nt) != 1 or nt[0][2][0] != C(0) or o.st.env.get(tloc) != ('sym', 'next', ()): no('next', 'behind a word the next one is not read', o)
            t1 = [e for e in o.events[:o.events.index(tl)] if e[0] == 'call' and e[1] == 'tok']
            for e in nt + t1[-1:]:
                s = e[2][1][1] if e[2][1][0] == 'c' and isinstance(e[2][1][1], str) else ''
                if set(s) != {':', '\n'}: no('split', 'words are separated at %s' % repr(s), o)
            if aux and not al and not decide(I, o, '<=', cur2(o, role, P0), C(0), 0, True): no('skip', 'the values of a word are not read', o)
        elif L in al:
            c.ob('value of a word')
            cn = [(l, s) for l, (q, s) in L[3].items() if q == C(0) and eq(step(o, l, s), C(1))]
            pp = [(l, q, s) for l, (q, s) in L[3].items() if q == I.ptr(len(pl)) and any(y[0] == 'init' and y[1][0] == 'elem' and strip(add(y[1][1], y[1][2])) == strip(s) for y in index(o))]
            if len(cn) != 1: no('auxcount', 'the values of a word are not counted', o); continue
            if len(pp) != 1: no('auxstart:' + ev, 'the values of a word written as %s are not read from behind it' % lead.replace('\0', 'w'), o); continue
            pl_, q, s = pp[0]; cv = cn[0][1]
            comma = [y for y in index(o) if y[0] == 'call' and y[1] == 'strchr' and y[2][1] == C(44)]
            for y in comma:
                if not eq(y[2][0], add(s, C(1))): no('auxend', 'the end of a value is looked for from %s' % show(y[2][0]), o)
            yes = [y for y in comma if decide(I, o, '!=', y, C(0)) is True]
            end = yes[0] if yes else add(s, ('call', 'strlen', (s,), 0))
            new = o.st.env.get(pl_, s)
            if not eq(strip(new), strip(end)) and not (eq(new, add(s, C(1))) and decide(I, o, '==', end, add(s, C(1))) is True): no('auxnext', 'behind a value reading goes on at %s' % show(new), o)
            if role.get('naux') and not (decide(I, o, '<', cv, cur2(o, role, P0), 0, True) is True or decide(I, o, '!=', cv, cur2(o, role, P0), 0, True) is True): no('auxroom', 'a value is read although none is left in the list of values', o)
            put = [e for e in since(o, lkey(o)) if e[0] == 'set']
            f = {}
            for e in put:
                if e[1][0] == 'fld':
                    w = [x for x, v in ws.items() if strip(e[1][1]) == v]
                    if not w: no('auxword', 'a value is stored to %s' % showloc(e[1]), o); continue
                    f[(w[0], e[1][-1])] = e[2]
            ks = [y for y in index(o) if y[0] == 'init' and y[1][0] == 'elem' and strip(y[1][1]) == tbl and eq(y[1][2], cv)]
            x = next((x for x, k in code.items() if any(decide(I, o, '==', y, C(k), 0, True) is True for y in ks)), None)
            if x is None:
                if f: no('auxunknown', 'an unknown value is stored to %s' % f, o)
                continue
            b, side, fs = AUX[x]
            if side not in sides:
                if f: no('auxside:' + x, '%s of a missing word is stored' % x, o)
                continue
            # an unread empty value
            if not f and decide(I, o, '==', end, add(s, C(1))) is True: continue
            if set(f) != {(side, n) for n in fs}: no('aux:value:' + x, '%s is stored to %s' % (x, sorted(f)), o); continue
            plus = [y for y in index(o) if y[0] == 'call' and y[1] == 'strchr' and y[2][1] == C(43)]
            st_ = [add(s, C(1))] + ([add(plus[0], C(1))] if plus else [])
            for n, at in zip(fs, st_):
                v = f[(side, n)]
                if v[0] != 'call' or v[1] != 'num' or not eq(v[2][0], at): no('aux:from:%s:%s' % (x, n), '%s is read from %s' % (n, show(v)), o)
            if len(fs) == 2:
                if not plus or not (eq(plus[0][2][0], s) or eq(plus[0][2][0], add(s, C(1)))): no('aux:plus', 'the second time is not looked for behind a +', o)
                elif decide(I, o, '!=', plus[0], C(0)) is not True: no('aux:noplus', 'a time without + is accepted', o)
            found.add((x, ev))
            # the line is as it was
            mem = {}
            for e in put:
                if e[1][0] == 'elem' and strip(e[1][1]) != tbl: mem.setdefault(str(strip(add(e[1][1], e[1][2]))), []).append(e)
            for k, es in mem.items():
                v = es[-1][2]; t = add(es[-1][1][1], es[-1][1][2])
                if v == C(43) and plus and eq(t, plus[0]): continue
                if v[0] == 'init' and v[1][0] == 'elem' and strip(add(v[1][1], v[1][2])) == strip(t): continue
                if v == C(0) and not yes and eq(t, end): continue
                if isnum(v) and v[1] == 44 and yes and eq(t, yes[0]): continue
                no('aux:restore', 'the line is changed where a value ends', o)
    if not toks and not outs: return
    if not toks: no('token:' + ev, 'a word written as %s is not read' % lead.replace('\0', 'w'))


def cur2(o, role, P0):
    l = role.get('naux')
    return P0[3][l][1] if l in P0[3] else o.st.env.get(l, C(0))


# ---------------------------------------------------------------------------------------------------------------- words and tags

def elements(c, prog):
    c.rule('element', 'the text of a word with its tags is written so that each can be told apart, in a buffer with room for it')
    fn = the(prog, 'formatWordForSGML')
    if not fn or len(fn.params) < 2: c.notes.append('the text of a word is not written by one function'); return
    fn = c.fn(fn); w = param(fn, 1, 0)
    def copy(esc):
        def h(s, st, args, node, line, caller):
            s.event(st, ('call', 'copy', (args[0], args[1], args[2] if esc else None), line, caller)); return args[0]
        return h
    T = {'TEXT_strcpy_escaped': copy(True), 'TEXT_strcpy': copy(False), 'strcpy': copy(False), 'TEXT_strlen': pure('strlen'), 'free': ignore,
         'malloc': rec('malloc', lambda a: ('sym', '!new', tuple(a)))}
    I = Rec(prog, T, None, maxpaths=3000); st = I.start(fn)
    BUF, LEN = ('v', 0, 'buf', 'buf'), ('v', 0, 'len', 'len')
    if len(fn.params) == 3:
        for k, l in ((1, BUF), (2, LEN)): p = fn.params[k]; st.env[('v', 1, p['id'], p['n'])] = ('addr', l)
    outs = I.run(st)
    F = lambda n: ('init', ('fld', w, n), 0)
    for o in outs:
        if o.kind != 'ret': continue
        c.ob('word formatted')
        v = o.value; t = []
        t1, t2 = [decide(I, o, '!=', F(n), C(0)) for n in ('tag1', 'tag2')]
        for e in o.events:
            if e[0] != 'call' or e[1] != 'copy': continue
            dst, src, esc = e[2]
            d = add(dst, v, -1)
            if not t and d != C(0): c.bad('element:first', where(fn, e[3]), 'the text of a word is not written to the start of the buffer', condlist(o)); return
            if t and not (d[0] == 'call' and d[1] == 'strlen' and eq(d[2][0], v)): c.bad('element:append', where(fn, e[3]), 'the text of a word is written to %s' % show(dst), condlist(o)); return
            if esc is None: t.append(src[1] if src[0] == 'c' else ('raw', strip(src)))
            elif esc != C(59): c.bad('element:escape', where(fn, e[3]), 'another character than the separator is escaped', condlist(o)); return
            else: t.append('' if src == C('') else strip(src))
        g = lambda n, y: strip(F(n)) if y is True else ''
        exp = [strip(F('value'))]
        if t1 is not False or t2 is not False: exp += [';', g('tag1', t1), ';', g('tag2', t2)]
        if t != exp: c.bad('element:text', where(fn, fn.line), 'a word is written as %s' % [x if isinstance(x, str) else show(x) for x in t], condlist(o)); return
        if len(fn.params) == 3:
            ln = o.st.env.get(LEN, ('init', LEN, 0))
            ms = [e for e in o.events if e[0] == 'call' and e[1] == 'malloc']
            need = C(3)
            for n, y in (('value', True), ('tag1', t1), ('tag2', t2)):
                if y is True: need = add(need, absint.scale(('call', 'strlen', (F(n),), 0), 2))
            if t1 is False and t2 is False: need = add(need, C(-2))
            if ms:
                d, k = diff(ms[-1][2][0], need); ok = k >= 0 and all(q >= 0 for q in d.values())
                if v != ('sym', '!new', tuple(ms[-1][2])): c.bad('element:buffer', where(fn, fn.line), 'the buffer that was made is not used', condlist(o)); return
            else:
                ok = False
                for op, d, k in conds(o):           # something op 0
                    if op not in ('<', '<=', '>', '>='): continue
                    if op in ('>', '>='): d = {x: -q for x, q in d.items()}; k = -k
                    lt = strip(('init', LEN, 0))
                    if d.get(lt) != -1: continue
                    e, j = norm(need)
                    if k >= j and all(d.get(x, 0) >= q for x, q in e.items()): ok = True
            if not ok: c.bad('element:room', where(fn, fn.line), 'there may be no room for the text of a word', condlist(o)); return
    if not any(o.kind == 'ret' for o in outs): c.notes.append('the text of a word is not followed')


def tags(c, prog):
    c.rule('tag', 'the attributes of a tag are kept by name, as many as there is room for, and found by their name')
    fn = the(prog, 'get_SGML_attrib')
    if fn and len(fn.params) == 3:
        fn = c.fn(fn); sg, tn, nm = [param(fn, 1, k) for k in range(3)]
        I = Rec(prog, {'TEXT_strcmp': pure('cmp'), 'strcmp': pure('cmp')}, None, maxpaths=500); outs = I.run(I.start(fn))
        def part(t, n):
            """index of attribute n of tag tn"""
            if t[0] == 'init' and t[1][0] == 'elem' and any(y[0] == 'fld' and y[-1] == n for y in subs(t[1][1])) and any(y[0] == 'elem' and eq(y[2], tn) for y in subs(t[1][1])): return t[1][2]
            return None
        found = False
        for o in outs:
            L = next((e for e in o.events if e[0] == 'loop'), None)
            if o.kind == 'back':
                c.ob('attribute passed')
                l, k = counter(o, L, 'attrib_num', I)
                if l is None: c.bad('tag:step', where(fn, fn.line), 'the attributes of a tag are not looked at one after the other', condlist(o)); return
                if not any(y[0] == 'call' and y[1] == 'cmp' and decide(I, o, '!=', y, C(0)) is True and isname(y, part, nm, k) for y in index(o)): c.bad('tag:pass', where(fn, fn.line), 'an attribute with the name is passed over', condlist(o)); return
            elif o.kind == 'ret':
                c.ob('attribute found')
                if o.value == C(''):
                    if L and not any(decide(I, o, '>=', s, y, 0, True) is True for l, (q, s) in L[3].items() if q == C(0) for y in index(o) if y[0] == 'init' and y[1][0] == 'fld' and y[1][-1] == 'attrib_num'): c.bad('tag:lost', where(fn, o.line), 'not all the attributes are looked at', condlist(o)); return
                    continue
                k = part(o.value, 'attrib_value')
                if k is None: c.bad('tag:value', where(fn, o.line), 'the value of an attribute is %s' % show(o.value), condlist(o)); return
                if not any(y[0] == 'call' and y[1] == 'cmp' and decide(I, o, '==', y, C(0)) is True and isname(y, part, nm, k) for y in index(o)): c.bad('tag:value', where(fn, o.line), 'the value of another attribute is returned', condlist(o)); return
                found = True
        if outs and not found: c.bad('tag:none', where(fn, fn.line), 'no attribute is found')
    fn = the(prog, 'add_SGML_tag')
    if not fn or len(fn.params) != 2: return
    fn = c.fn(fn); txt = param(fn, 1, 1)
    T = {'TEXT_strBdup': rec('dup', lambda a: ('call', 'dup', tuple(a), 0)), 'TEXT_strchr': pure('strchr'), 'TEXT_strcspn': pure('cspn'), 'TEXT_strspn': pure('spn'), 'fprintf': ignore, 'strcspn': pure('cspn'), 'strspn': pure('spn')}
    I = Rec(prog, T, None, maxpaths=2000); outs = I.run(I.start(fn))
    n = 0
    for o in outs:
        if o.kind == 'back':
            c.ob('attribute kept'); L = lookup(o, lkey(o)); evs = since(o, lkey(o)); n += 1
            put = [e for e in evs if e[0] == 'set' and e[1][0] == 'elem']
            nm = [e for e in put if any(y[0] == 'fld' and y[-1] == 'attrib_name' for y in subs(e[1][1]))]; vl = [e for e in put if any(y[0] == 'fld' and y[-1] == 'attrib_value' for y in subs(e[1][1]))]
            ct = [e for e in evs if e[0] == 'set' and e[1][0] == 'fld' and e[1][-1] == 'attrib_num']
            if len(nm) != 1 or len(vl) != 1 or len(ct) != 1: c.notes.append('the attributes of a tag are not kept one by one'); return
            w = where(fn, nm[0][3]); k = nm[0][1][2]
            if not eq(vl[0][1][2], k) or not eq(ct[0][2], add(k, C(1))): c.bad('tag:index', w, 'the name and the value of an attribute are kept at different places', condlist(o)); return
            a, b = nm[0][2], vl[0][2]
            if a[:2] != ('call', 'dup') or b[:2] != ('call', 'dup'): c.notes.append('the text of an attribute is not copied as expected'); return
            at, l1 = a[2]; vt, l2 = b[2]
            if not (l1[:2] == ('call', 'cspn') and eq(l1[2][0], at) and l1[2][1][0] == 'c' and '=' in l1[2][1][1]): c.bad('tag:name', w, 'the name of an attribute is %s bytes long' % show(l1), condlist(o)); return
            if not eq(vt, add(add(at, l1), C(2))): c.bad('tag:from', w, 'the value of an attribute is read from %s' % show(vt), condlist(o)); return
            if not (l2[:2] == ('call', 'cspn') and eq(l2[2][0], vt) and l2[2][1] == C('"')): c.bad('tag:upto', w, 'the value of an attribute is %s bytes long' % show(l2), condlist(o)); return
            st0 = [(l, s) for l, (q, s) in L[3].items() if any(eq(at, add(s, y)) for y in [C(0)] + [y for y in index(o) if y[0] == 'call' and y[1] == 'spn' and eq(y[2][0], s)])]
            if len(st0) != 1: c.bad('tag:start', w, 'the name of an attribute is read from %s' % show(at), condlist(o)); return
            e1 = add(add(vt, l2), C(1)); new = o.st.env.get(*st0[0])
            if not any(eq(new, add(e1, y)) for y in [C(0)] + [y for y in index(o) if y[0] == 'call' and y[1] == 'spn' and eq(y[2][0], e1)] + [y for y in subterms(new) if y[0] == 'call' and y[1] == 'spn' and eq(y[2][0], e1)]): c.bad('tag:next', w, 'behind an attribute reading goes on at %s' % show(new), condlist(o)); return
            if not eq(L[3][st0[0][0]][0], add(('call', 'strchr', (add(txt, C(1)), C(32)), 0), C(1))) and not eq(L[3][st0[0][0]][0], ('call', 'strchr', (add(txt, C(1)), C(32)), 0)): c.bad('tag:begin', w, 'the attributes of a tag are read from %s' % show(L[3][st0[0][0]][0]), condlist(o)); return
            zero = [e for e in o.events[:o.events.index(L)] if e[0] == 'set' and e[1][0] == 'fld' and e[1][-1] == 'attrib_num']
            if not zero or zero[-1][2] != C(0): c.bad('tag:zero', w, 'a tag begins with %s attributes' % (show(zero[-1][2]) if zero else '?'), condlist(o)); return
            cap = dim(prog, 'attrib_name')
            if cap and decide(I, o, '<', k, C(cap), 0, True) is not True: c.bad('tag:room', w, 'there is room for %d attributes, which is not checked' % cap, condlist(o)); return
        elif o.kind == 'ret' and o.value == C(1):
            c.ob('tag kept')
            nm = [e for e in o.events if e[0] == 'set' and e[1][0] == 'fld' and e[1][-1] == 'name']; ct = [e for e in o.events if e[0] == 'set' and e[1][0] == 'fld' and e[1][-1] == 'num_tags']
            if len(nm) != 1 or len(ct) != 1: c.bad('tag:kept', where(fn, fn.line), 'a tag is not kept', condlist(o)); return
            v = nm[0][2]
            if v[:2] != ('call', 'dup') or not eq(v[2][0], add(txt, C(1))) or not eq(add(v[2][0], v[2][1]), ('call', 'strchr', (add(txt, C(1)), C(32)), 0)): c.bad('tag:tagname', where(fn, nm[0][3]), 'the name of a tag is %s' % show(v), condlist(o)); return
            cap = dim(prog, 'tags')
            t = ct[0][2]
            if cap and decide(I, o, '<', add(t, C(-1)), C(cap), 0, True) is not True: c.bad('tag:tags', where(fn, ct[0][3]), 'there is room for %d tags, which is not checked' % cap, condlist(o)); return


def subs(x):
    if isinstance(x, tuple):
        yield x
        for y in x: yield from subs(y)


def isname(y, part, nm, k):
    a, b = y[2][:2]
    for p, q in ((a, b), (b, a)):
        if strip(q) == strip(nm) and part(p, 'attrib_name') is not None and eq(part(p, 'attrib_name'), k): return True
    return False


def dim(prog, field):
    try: s = open(os.path.join(facts.REPO, 'src/sclite/sgml.h'), encoding='latin1').read()
    except OSError: return None
    m = re.search(r'\b%s\s*\[\s*(\w+)\s*\]' % field, s)
    if not m: return None
    if m.group(1).isdigit(): return int(m.group(1))
    d = re.search(r'define\s+%s\s+(\d+)' % m.group(1), s)
    return int(d.group(1)) if d else None
