"""S16: sclite's options -- each has its documented effect, conflicting ones are refused, every system gets its own reports."""
import re
import facts, ir, absint
from absint import C, show, showloc, add, isnum
from util import *
from S02 import strip, param, subterms, all_terms
from S09 import lkey, lookup, since
from S12 import rec, copies
from path import *

OUT = {'sum': 1, 'rsum': 2, 'pralign': 4, 'pra': 4, 'lur': 8, 'sgml': 16, 'stdout': 32, 'snt': 64, 'spk': 128, 'dtl': 256, 'prf': 512, 'wws': 1024, 'nl.sgml': 2048, 'all': 7, 'none': None}
CONF = {'det': 1, 'bhist': 2, 'hist': 4, 'sbhist': 8, 'none': None}
FLAG = {'-s': 'case_sense', '-F': 'frag_correct', '-D': 'opt_del', '-T': 'time_align', '-d': 'use_diff', '-p': 'pipeout', '-P': 'pipein'}
ARG = {'-l': 'linewidth', '-f': 'feedback', '-L': 'lm_file', '-O': 'out_dir', '-n': 'out_name', '-w': 'wwl_file', '-i': 'id'}
LIST = {'-o': ('outputs', OUT, '^'), '-C': ('conf_outputs', CONF, '^'), '-m': ('stm2ctm_reduce', {'ref': 1, 'hyp': 2}, '|'), '-c': ('char_align', {'NOASCII': 2, 'DH': 4}, '|')}
DEFAULT = {'linewidth': 1000, 'feedback': 1, 'left_to_right': 1}
IDS = {'swb': 'SWB', 'rm': 'RM', 'wsj': 'WSJ', 'atis': 'ATIS', 'spu_id': 'SPUID', 'sp': 'SP'}
NAMES = ('rname rfmt nhyps id_type case_sense outputs feedback linewidth use_diff out_dir out_name char_align pipeout pipein infered_wordseg lexicon frag_correct opt_del inf_flags '
         'stm2ctm_reduce time_align conf_outputs left_to_right wwl_file lm_file').split()


def check(c):
    prog = c.prog('sclite')
    c.part(options, c, prog)
    c.part(systems, c, prog)


class Opt(Rec):
    """either the iterations of the first loop only, or only what comes behind it, with some variables fixed"""
    first = None; fixed = None; cut = True

    def enter_block(s, st, fn, g, b, fr):
        if s.first is None and b in g.loops: s.first = (fn, b, fr, len(st.stack))
        f = s.first
        if f and s.cut and st.visits.get((f[2], f[1])) and (len(st.stack) < f[3] or fn is f[0] and len(st.stack) == f[3] and b not in g.loops[f[1]]):
            return absint.Outcome('left', b, st, fn.line, fn)
        r = Rec.enter_block(s, st, fn, g, b, fr)
        if f and not s.cut and (fn, b, fr) == f[:3] and r is None:
            for l, v in s.fixed.items(): st.env[l] = v
        return r


def the(prog, name):
    return next((g for g in prog.all() if g.qn == name and g.rel().endswith('sclite/sclite.c')), None)


def strcmps(o):
    """(text, literal, equal?) for the comparisons on a path"""
    for x, tr, l, g in o.conds:
        tr = bool(tr)
        while x[0] == 'not': x = x[1]; tr = not tr
        if x[0] == 'cmp' and x[1] in ('==', '!=') and x[3] == C(0) and x[2][0] == 'strcmp': same = (x[1] == '==') == tr; x = x[2]
        elif x[0] == 'strcmp': same = not tr
        else: continue
        a, b = x[2], x[3]
        if a[0] == 'c': a, b = b, a
        if b[0] == 'c' and isinstance(b[1], str): yield a, b[1], same


def eqs(o, t, lit, extra=None):
    """is the text t the literal on this path?"""
    if t == C(0): return None
    if t[0] == 'c' and isinstance(t[1], str): return t[1] == lit
    r = None
    for a, b, same in strcmps(o):
        if strip(a) != strip(t): continue
        if same: return b == lit
        if b == lit: r = False
    return r


def lits(o, t, since=0):
    """the literal t is known to equal, and those it differs from"""
    yes, no = None, set()
    for a, b, same in strcmps(o):
        if strip(a) != strip(t): continue
        if same: yes = b
        else: no.add(b)
    return yes, no


def options(c, prog):
    c.rule('option', 'each option changes exactly the setting it is documented for, takes its arguments and no other, and one that is unknown or lacks an argument ends the run with an error')
    fn = the(prog, 'proc_args'); fn = c.fn(fn) if fn else None
    ps = {p['n']: p for p in fn.params} if fn else {}
    if not fn or any(n not in ps for n in NAMES + ['argc', 'argv', 'hname', 'hfmt', 'title']): c.notes.append('the options of sclite are not recognised'); return
    T = {n: pure(n) for n in ('rsprintf', 'atoi', 'stat', 'TEXT_set_encoding', 'TEXT_set_lang_prof', 'access')}
    T.update({n: ignore for n in ('fprintf', 'printf', 'puts', 'fputs')})
    V = {n: ('v', 0, n, n) for n in NAMES}
    def begin(fixed=None):
        I = Opt(prog, T, None, maxpaths=100000); st = I.start(fn)
        if fixed: I.cut = False; I.fixed = fixed
        for n in NAMES: st.env[('v', 1, ps[n]['id'], n)] = ('addr', V[n])
        return I, st
    I, st = begin()
    P = lambda n: ('init', ('v', 1, ps[n]['id'], n), 0)
    argc, argv = P('argc'), P('argv')
    outs = I.run(st); w0 = where(fn, fn.line)
    hdr = next((e for o in outs for e in o.events if e[0] == 'loop'), None)
    if not hdr: c.notes.append('proc_args has no loop over the options'); return
    main = hdr[1:3]
    arg = lambda L, os_, k: ('init', ('elem', argv, add(os_, C(k))), 0)
    seen, seenin, bad = {}, {}, set()
    for o in outs:
        for x, tr, l, g in o.conds:
            if x[0] == 'cmp' and x[2][0] == 'strcmp' and any(strip(argv) in map(strip, subterms(y)) for y in x[2][2:4]) and not any(y[0] == 'c' for y in x[2][2:4]):
                c.notes.append('the options are not compared with literals'); return
    def no(key, msg, o):
        if key not in bad: bad.add(key); c.bad('options:' + key, where(fn, o.line or fn.line), msg, condlist(o))
    role = {}
    todo = []
    mh = maxhyps(prog)
    for o in outs:
        L = next((e for e in o.events if e[0] == 'loop'), None)
        if not L: continue
        ol = [(l, s) for l, (q, s) in L[3].items() if q == C(1) and l[0] == 'v' and l not in V.values() and any(strip(('init', ('elem', argv, s), 0)) in map(strip, subterms(x[0])) for x in o.conds)]
        if len(ol) != 1: continue
        (opl, ops) = ol[0]
        todo.append((o, L, opl, ops))
    if not todo: c.notes.append('the loop over the options is not recognised'); return
    # what is set before the first option
    L = todo[0][1]; pre = {l: q for l, (q, s) in L[3].items()}
    def first(o, t): return [x for x in index(o) if x[0] == 'init' and x[1][0] == 'elem' and strip(x[1][1]) == strip(t) and x[1][2] == C(0)]
    def dash(o, t):
        r = [decide(I, o, '==', x, C(45)) for x in first(o, t)]
        return True if True in r else False if False in r else None
    for o, L, opl, ops in todo:
        if o.kind == 'back' and lookup(o, lkey(o)) is L and lits(o, arg(L, ops, 0))[0] in ('-i', '-f', '-p'):
            lit = lits(o, arg(L, ops, 0))[0]
            for l, (q, s) in L[3].items():
                if l not in V.values() and l != opl and o.st.env.get(l, s) != s: role[{'-i': 'id', '-f': 'fbset', '-p': 'outset'}[lit]] = l
    known = set(FLAG) | set(ARG) | set(LIST) | {'-r', '-h', '-e', '-S'}
    met = {lits(o, arg(L, ops, 0))[0] for o, L, opl, ops in todo if o.kind == 'back'}
    if len(known & met) >= 10 and known - met:
        for x in sorted(known - met): no('missing:' + x, '%s is not handled' % x, todo[0][0])
        return
    if set(role) != {'id', 'fbset', 'outset'} or len(set(role.values())) != 3: c.notes.append('the locals of proc_args are not recognised'); return
    loc = dict(V); loc.update(role); name = {l: n for n, l in loc.items()}
    c.ob('initial values')
    o0 = todo[0][0]
    for n, l in loc.items():
        if n in ('id_type',): continue
        v = pre.get(l, o0.st.env.get(l)) if l in pre or o0.kind == 'back' else None
        if v is None: v = o0.st.env.get(l, ('init', l, 0))
        if v != C(DEFAULT.get(n, 0)): no('default:' + n, '%s begins with %s' % (n, show(v)), o0)
    for o, L, opl, ops in todo:
        opt, unk = lits(o, arg(L, ops, 0)); A = lambda k: arg(L, ops, k)
        here = decide(I, o, '<', ops, argc, 0, True), dash(o, A(0))
        inner = o.kind == 'back' and lookup(o, lkey(o)) is not L
        if here[0] is False or here[1] is False:
            continue                             # behind the options
        if o.kind == 'stop':
            c.ob('option refused'); x = exits(o)
            if x is None or x == C(0): no('status:%s' % opt, 'after an error in the options the run ends with status %s' % (show(x) if x else '?'), o)
            if opt is None: continue
            if opt in FLAG: no('refused:' + opt, '%s is refused' % opt, o); continue
            r = [decide(I, o, '<=', argc, add(ops, C(k)), 0, True) for k in (1, 2)] + [dash(o, A(k)) for k in (1, 2)]
            calls = [t for t in o.st.facts if t[0] == 'call' and t[1] in ('stat', 'access', 'TEXT_set_encoding', 'TEXT_set_lang_prof')]
            r += [I.compare(o.st, '!=' if t[1] in ('stat', 'access') else '==', t, C(0)) for t in calls]
            n = 1 if opt != '-S' else 2
            ok = True in r[:n] or opt in ('-r', '-h', '-e') and r[2] is True or opt == '-S' and True in r[2:4] or True in r[4:]
            if opt == '-h' and mh and decide(I, o, '>=', read(o, L, V['nhyps'], True), C(mh), 0, True) is True: ok = True
            if not ok and opt in ('-m', '-c', '-S'):
                for t in {strip(a) for a, b, same in strcmps(o)}:
                    y, u = lits(o, t)
                    if y is None and u >= (set(LIST[opt][1]) if opt in LIST else {'algo1', 'algo2'}) or opt == '-S' and y is None and u >= {'ASCIITOO'}: ok = True
            if not ok: no('refused:' + opt, '%s is refused although its arguments are given' % opt, o)
            continue
        if o.kind != 'back': 
            if opt is not None and o.kind not in ('seen', 'cut'): no('left:' + opt, 'the options behind %s are not read' % opt, o)
            continue
        if opt is None: no('unknown', 'an unknown option is accepted', o); continue
        c.ob('option handled')
        if inner: inside(c, I, o, opt, argc, argv, dash, no, loc, opl, ops, seenin); continue
        seen[opt] = seen.get(opt, 0) + 1
        ch = {name.get(l, showloc(l)): o.st.env.get(l, s) for l, (q, s) in L[3].items() if l != opl and l in name and o.st.env.get(l, s) != s}
        sets = {showloc(e[1][1]) if e[1][1][0] == 'v' else strip(e[1][1])[1][-1] if strip(e[1][1])[0] == 'init' else '?': (e[1][2], e[2]) for e in since(o, lkey(o)) if e[0] == 'set' and e[1][0] == 'elem'}
        stepd = step(o, opl, ops)
        have = lambda k: decide(I, o, '<', add(ops, C(k)), argc, 0, True) is True
        def taken(k, dashed=False):
            if not have(k): no('argument:' + opt, 'argument %d of %s is used although there may be none' % (k, opt), o)
            if dashed and dash(o, A(k)) is not False: no('dash:' + opt, 'an option is taken as an argument of %s' % opt, o)
        def nottaken(k):
            if not (decide(I, o, '<=', argc, add(ops, C(k)), 0, True) is True or dash(o, A(k)) is True): no('left:' + opt, 'argument %d of %s is not taken' % (k, opt), o)
        def want(exp, n):
            if not eq(stepd, C(n + 1)): no('step:' + opt, '%s consumes %s' % (opt, show(stepd)), o)
            for k, v in exp.items():
                got = ch.get(k)
                if got is None or (strip(got) != strip(v) and not eq(got, v)): no('value:%s:%s' % (opt, k), '%s sets %s to %s' % (opt, k, show(got) if got else 'nothing'), o)
            for k in ch:
                if k not in exp: no('other:%s:%s' % (opt, k), '%s also changes %s to %s' % (opt, k, show(ch[k])), o)
        if opt in FLAG:
            want({FLAG[opt]: C(1), **({'outset': C(1)} if opt == '-p' else {})}, 0)
        elif opt in ARG:
            taken(1); v = A(1) if opt not in ('-l', '-f') else ('call', 'atoi', (A(1),), 0)
            got = ch.get(ARG[opt])
            if opt in ('-l', '-f') and got is not None and got[0] == 'call' and got[1] == 'atoi': v = ('call', 'atoi', (A(1),)) + got[3:]
            want({ARG[opt]: v, **({'fbset': C(1)} if opt == '-f' else {})}, 1)
        elif opt == '-r':
            taken(1, True)
            if 'rfmt' in ch: taken(2, True); want({'rname': A(1), 'rfmt': A(2)}, 2)
            else: nottaken(2); want({'rname': A(1)}, 1)
        elif opt == '-h':
            taken(1, True); nh = read(o, L, V['nhyps'], True); m = 1
            exp = {'hname': A(1), 'hfmt': C('trn'), 'title': A(1)}
            if sets.get('hfmt', (0, C('trn')))[1] != C('trn'): exp['hfmt'] = A(2); taken(2, True); m = 2
            else: nottaken(2)
            if m == 2:
                if strip(sets.get('title', (0, A(1)))[1]) != strip(A(1)): exp['title'] = A(3); taken(3, True); m = 3
                else: nottaken(3)
            want({'nhyps': add(nh, C(1))}, m)
            for k, v in exp.items():
                if k not in sets or not eq(sets[k][0], nh) or strip(sets[k][1]) != strip(v): no('hyp:' + k, '-h sets %s to %s' % (k, show(sets[k][1]) if k in sets else 'nothing'), o)
            if set(sets) - set(exp): no('hyp:other', '-h writes something else', o)
            if mh and decide(I, o, '<', nh, C(mh), 0, True) is not True: no('room', 'there is room for %d hypothesis files, which is not checked' % mh, o)
        elif opt == '-e':
            taken(1, True); fs = [t for t in o.st.facts if t[0] == 'call' and t[1] in ('TEXT_set_encoding', 'TEXT_set_lang_prof') and I.compare(o.st, '!=', t, C(0)) is True]
            en = [t for t in fs if t[1] == 'TEXT_set_encoding' and strip(t[2][0]) == strip(A(1))]; lp = [t for t in fs if t[1] == 'TEXT_set_lang_prof']
            if not en: no('encoding', 'the encoding is not set, or a failure is ignored', o)
            if lp:
                taken(2, True)
                if strip(lp[0][2][0]) != strip(A(2)): no('encoding', 'the language is taken from %s' % show(lp[0][2][0]), o)
            else: nottaken(2)
            want({}, 2 if lp else 1)
        elif opt == '-S':
            taken(1, True); taken(2, True); al = lits(o, A(1))[0]; ws = read(o, L, V['infered_wordseg'], True)
            bit = {'algo1': 1, 'algo2': 2}.get(al)
            got = ch.get('infered_wordseg'); v = [('op', k, a, b) for k in '^|' for a, b in ((C(bit), ws), (ws, C(bit)))] + [C(bit)]
            exp = {'infered_wordseg': got if got is not None and any(strip(got) == strip(x) for x in v) else C(bit), 'lexicon': A(2)}
            if not any(t[0] == 'call' and t[1] in ('stat', 'access') and strip(t[2][0]) == strip(A(2)) and I.compare(o.st, '==', t, C(0)) is True for t in o.st.facts): no('lexicon', 'a lexicon that does not exist is accepted', o)
            if 'inf_flags' in ch:
                taken(3, True)
                if lits(o, A(3))[0] != 'ASCIITOO': no('ascii', 'another word than ASCIITOO is taken for it', o)
                g = ch['inf_flags']; fl = read(o, L, V['inf_flags'], True)
                if strip(g) in (strip(('op', '|', C(1), fl)), strip(('op', '|', fl, C(1))), C(1)): exp['inf_flags'] = g
                else: exp['inf_flags'] = C(1)
                want(exp, 3)
            else: nottaken(3); want(exp, 2)
        elif opt in LIST:
            what, words, how = LIST[opt]; L2 = [e for e in since(o, lkey(o)) if e[0] == 'loop']
            if len(L2) != 1: no('list:' + opt, 'the words behind %s are not read one after the other' % opt, o); continue
            L2 = L2[0]; os2 = L2[3].get(opl, (None, None))[1]; v2 = L2[3].get(loc[what], (None, None))[1]
            if os2 is None or v2 is None: no('list:' + opt, 'the words behind %s are not read' % opt, o); continue
            end = o.st.env.get(opl, ops)
            nxt = os2 if how == '^' else add(os2, C(1))       # first word not taken
            at = ('init', ('elem', argv, nxt), 0)
            over = decide(I, o, '>=', nxt, argc, 0, True) is True; dsh = dash(o, at)
            if not (over or dsh is True): no('left:' + opt, 'words behind %s are not taken' % opt, o)
            if not over and not eq(end, nxt): no('step:' + opt, 'the option behind %s is passed over' % opt, o)
            if over and decide(I, o, '>=', end, argc, 0, True) is not True: no('step:' + opt, 'a word behind %s is read again' % opt, o)
            q0 = L2[3][loc[what]][0]
            st0 = read(o, L, loc[what], True) if how == '^' else C(0) if opt == '-m' else C(1)
            if strip(q0) != strip(st0): no('list0:' + opt, '%s begins with %s' % (opt, show(q0)), o)
            if not eq(L2[3][opl][0], add(ops, C(1 if how == '^' else 0))): no('first:' + opt, 'the words behind %s are not read from the first one on' % opt, o)
            exp = {what: v2, **({'outset': C(1)} if how == '^' else {})}
            if opt == '-m':
                z = decide(I, o, '==', v2, C(0)); exp[what] = C(1) if z else v2
                if z is None and ch.get(what) != C(1): no('reduce', '-m without an argument does not mean ref', o)
                if z is None: exp[what] = ch.get(what)
            for k, v in exp.items():
                got = ch.get(k, read(o, L, loc[k], True))
                if strip(got) != strip(v): no('value:%s:%s' % (opt, k), '%s sets %s to %s' % (opt, k, show(got)), o)
            for k in ch:
                if k not in exp: no('other:%s:%s' % (opt, k), '%s also changes %s' % (opt, k), o)
        else: no('extra:' + opt, 'the option %s is not a documented one' % opt, o)
    for k in list(FLAG) + list(ARG) + list(LIST) + ['-r', '-h', '-e', '-S']:
        if not seen.get(k): c.bad('options:none:' + k, w0, 'the documented option %s is not known' % k)
    for k, (what, words, how) in LIST.items():
        for x in words:
            if x not in seenin.get(k, set()): c.bad('options:none:%s:%s' % (k, x), w0, 'the documented word %s of option %s is not known' % (x, k))
    found = set(); ref = ('sym', '!ref', ())
    runs = [{'rname': ref, 'nhyps': C(1), 'pipein': C(0), 'rfmt': C('ctm'), 'id': C(0), 'frag_correct': C(0), 'opt_del': C(0), 'use_diff': C(0), 'stm2ctm_reduce': C(0), 'char_align': C(0), 'time_align': C(0), 'infered_wordseg': C(0)}]
    runs += [{'outputs': C(1), 'outset': C(1), 'fbset': C(0), 'pipeout': C(0), 'feedback': C(1), 'wwl_file': C(0), 'lm_file': C(0), 'infered_wordseg': C(0), 'opt_del': C(0)}]
    runs += [{**runs[0], 'outputs': C(1), 'outset': C(1), 'fbset': C(0), 'pipeout': C(0), 'feedback': C(1)}]
    for k in ('frag_correct', 'opt_del', 'use_diff', 'char_align', 'time_align', 'infered_wordseg'): del runs[2][k]
    for fx in runs:
        J, st = begin({**{loc[n]: v for n, v in fx.items()}, opl: argc})
        res = J.run(st)
        if any(flagged(o) for o in res if o.kind == 'back'): c.notes.append('the checks of the options keep their result in a variable: conflicts not decided'); return
        combine(c, prog, J, fn, res, loc, P, opl, fx, dash, found)
    for k in ('pipe', 'input', 'noref', 'nohyp', 'ref', 'rfmt', 'id', 'time', 'idtype', 'reduce', 'chars', 'diff', 'weights', 'wws', 'h:hfmt', 'h:hyp', 'h:id', 'h:time', 'h:reduce', 'h:chars'):
        c.ob('conflict found')
        if k not in found: c.bad('conflict:none:' + k, where(fn, fn.line), 'nothing refuses the conflict %s' % k)


def flagged(o):
    """a loop behind the options that computes something besides counting"""
    L = lookup(o, lkey(o))
    if L is next(e for e in o.events if e[0] == 'loop'): return False
    ch = [(l, s) for l, (q, s) in L[3].items() if o.st.env.get(l, s) != s]
    return any(not isnum(step(o, l, s)) for l, s in ch) or len(ch) > 1


def read(o, L, l, at0=False):
    return L[3][l][1] if l in L[3] else o.st.env.get(l, ('init', l, 0))


def inside(c, I, o, opt, argc, argv, dash, no, loc, opl, ops, seenin):
    """one word of a list"""
    if opt not in LIST: no('list:' + opt, 'more words than documented are read behind %s' % opt, o); return
    what, words, how = LIST[opt]; L = lookup(o, lkey(o)); s = L[3].get(opl); v = L[3].get(loc[what])
    if not s or not v: no('list:' + opt, 'the words behind %s are not read' % opt, o); return
    A = ('init', ('elem', argv, s[1] if how == '^' else add(s[1], C(1))), 0); k = A[1][2]
    word, un = lits(o, A)
    if decide(I, o, '<', k, argc, 0, True) is not True or dash(o, A) is not False: no('word:' + opt, 'something else than a word behind %s is taken for one' % opt, o)
    if not eq(step(o, opl, s[1]), C(1)): no('word:' + opt, 'words behind %s are passed over or read twice' % opt, o)
    old, new = v[1], o.st.env.get(loc[what], v[1])
    b = words.get(word, 0) if word else 0
    if word is None and (how == '|' or not un >= set(words)): no('word:' + opt, 'an unknown word behind %s is accepted' % opt, o); return
    if word is not None and word not in words: no('word:%s:%s' % (opt, word), '%s is not a documented word of %s' % (word, opt), o); return
    seenin.setdefault(opt, set()).add(word)
    good = new == C(0) if b is None else strip(new) == strip(old) if b == 0 else any(strip(new) == strip(('op', h, a, d)) for h in ('^|' if how == '^' else '|') for a, d in ((C(b), old), (old, C(b))))
    if not good: no('word:%s:%s' % (opt, word), '%s of %s makes %s of %s' % (word, opt, show(new), show(old)), o)
    for l, (q, x) in L[3].items():
        if l in loc.values() and l != loc[what] and o.st.env.get(l, x) != x: no('word:other:' + opt, 'a word of %s changes something else' % opt, o)


def maxhyps(prog):
    """room for systems in main"""
    m = the(prog, 'main')
    d = [int(x.group(1)) for n, ty in (v[:2] for v in ir.cfg(m).vars.values()) for x in [re.search(r'\*\s*\[(\d+)\]', ty)] if x] if m else []
    return min(d) if d else None


def conflicts(c, prog, I, fn, outs, loc, P, opl, fx):
    c.rule('conflict', 'options that exclude each other, missing input and unknown formats or id types end the run with an error, every other combination is accepted; the default reports and messages are chosen as documented')
    bad = set()
    def no(key, msg, o):
        if key not in bad: bad.add(key); c.bad('conflict:' + key, where(fn, o.line or fn.line), msg, condlist(o))
    hfmt, hname = P('hfmt'), P('hname')
    for o in outs:
        if o.kind not in ('ret', 'stop', 'back'): continue
        L = next((e for e in o.events if e[0] == 'loop'), None)
        if L is None or o.kind == 'back' and lookup(o, lkey(o)) is L: continue
        S = {n: fx[n] if n in fx else (L[3][l][1] if l in L[3] else C(DEFAULT.get(n, 0))) for n, l in loc.items()}
        def val(x):
            if x[0] == 'c': return x[1] if isinstance(x[1], int) else None
            if strip(x) == strip(S['outputs']) and I.compare(o.st, '==', x, C(0)) is True: return 0
            if x[0] == 'op' and x[1] in '&|^' and len(x) == 4:
                a, b = val(x[2]), val(x[3])
                if a is not None and b is not None: return a & b if x[1] == '&' else a | b if x[1] == '|' else a ^ b
            return None
        if any(val(x) is not None and True in (I.compare(o.st, '>', x, C(0)), I.compare(o.st, '!=', x, C(0))) and val(x) == 0 or val(x) and I.compare(o.st, '>', x, C(0)) is False for x in o.st.facts if x[0] == 'op' and x[1] == '&'): continue
        E = {n: o.st.env.get(l, S[n]) for n, l in loc.items()}
        nz = lambda n: decide(I, o, '!=', S[n], C(0))
        def bit(n, b, t=None):
            t = t or S[n]
            if t[0] == 'c': return bool(t[1] & b)
            r = [I.compare(o.st, k, x, C(0)) for k in ('!=', '>') for x in o.st.facts if x[0] == 'op' and x[1] == '&' and set(map(strip, x[2:])) == {strip(t), C(b)}]
            if True in r: return True
            if False in r: return False
            z = decide(I, o, '==', t, C(0))
            return False if z is True else None
        n3 = lambda v: None if v is None else not v
        def all3(*v): return False if False in v else None if None in v else True
        def any3(*v): return True if True in v else None if None in v else False
        rf = E['rfmt']; setr = S['rfmt']
        def rfis(x):
            if rf == C(0): return False
            if strip(rf) == strip(setr) and nz('rfmt') is False: return False
            return eqs(o, rf, x)
        calls = lambda name, t: next((I.compare(o.st, '!=', x, C(0)) for x in o.st.facts if x[0] == 'call' and x[1] == name and strip(x[2][0]) == strip(t)), None)
        files = all3(nz('rname'), decide(I, o, '>', S['nhyps'], C(0), 0, True))
        given = any3(nz('pipein'), files)
        out = S['outputs']
        K = {
            'pipe': all3(nz('pipeout'), bit('outputs', 32)),
            'input': n3(given),
            'noref': all3(n3(nz('rname')), decide(I, o, '>', S['nhyps'], C(0), 0, True)),
            'nohyp': all3(nz('rname'), decide(I, o, '==', S['nhyps'], C(0), 0, True)),
            'ref': all3(files, calls('stat', S['rname'])),
            'rfmt': all3(files, n3(any3(*(rfis(x) for x in ('trn', 'ctm', 'tmk', 'stm'))))),
            'id': all3(files, n3(nz('id')), rfis('trn')),
            'time': all3(files, nz('time_align'), n3(rfis('ctm'))),
            'idtype': all3(nz('id'), n3(any3(*(eqs(o, S['id'], x) for x in IDS)))),
            'reduce': all3(nz('stm2ctm_reduce'), any3(n3(rfis('stm')), nz('use_diff'))),
            'chars': all3(nz('char_align'), nz('use_diff')),
            'diff': all3(nz('use_diff'), any3(nz('frag_correct'), nz('opt_del'))),
            'weights': all3(nz('wwl_file'), nz('lm_file')),
            'wws': all3(bit('outputs', 1024), n3(nz('wwl_file')), n3(nz('lm_file')))}
        for k in ('wwl_file', 'lm_file'):
            for x in ('time_align', 'char_align', 'infered_wordseg', 'use_diff'): K['%s:%s' % (k, x)] = all3(nz(k), nz(x))
        # the same for one of the hypotheses
        H = {}
        els = [t for t in index(o) if t[0] == 'init' and t[1][0] == 'elem' and strip(t[1][1]) == strip(hfmt)]
        idx = []
        for t in els:
            if t[1][2] not in idx: idx.append(t[1][2])
        def hf(i, x):
            for t in els:
                if eq(t[1][2], i):
                    r = eqs(o, t, x)
                    if r is not None: return r
            return None
        for i in idx:
            H['hfmt'] = any3(H.get('hfmt', False), n3(any3(*(hf(i, x) for x in ('trn', 'ctm', 'tmk', 'txt')))))
            H['id'] = any3(H.get('id', False), all3(n3(nz('id')), hf(i, 'trn')))
            H['time'] = any3(H.get('time', False), all3(nz('time_align'), n3(hf(i, 'ctm'))))
            H['reduce'] = any3(H.get('reduce', False), all3(nz('stm2ctm_reduce'), n3(hf(i, 'ctm'))))
            H['chars'] = any3(H.get('chars', False), all3(nz('char_align'), rfis('stm'), hf(i, 'txt')))
        H['hyp'] = any3(*([False] + [I.compare(o.st, '!=', x, C(0)) for x in o.st.facts if x[0] == 'call' and x[1] == 'stat' and strip(x[2][0])[0] == 'init' and strip(x[2][0])[1][0] == 'elem' and strip(x[2][0])[1][1] == strip(hname)]))
        yield o, L, S, E, K, H, nz, bit, rfis, all3, any3, n3, hf, idx, no, files


def combine(c, prog, I, fn, outs, loc, P, opl, fx, dash, found):
    for o, L, S, E, K, H, nz, bit, rfis, all3, any3, n3, hf, idx, no, files in conflicts(c, prog, I, fn, outs, loc, P, opl, fx):
        if o.kind == 'stop':
            c.ob('combination refused'); x = exits(o); r = list(K.values()) + list(H.values())
            if x is None or x == C(0): no('status', 'the run ends with status %s' % (show(x) if x else '?'), o)
            if True not in r: no('refused', 'a combination of options that does not conflict is refused', o)
            found |= {k for k, v in K.items() if v is True} | {'h:' + k for k, v in H.items() if v is True}
        elif o.kind == 'ret':
            c.ob('combination accepted')
            for k, v in K.items():
                if v is not False: no('accepted:' + k, 'conflicting options are accepted: ' + k, o)
            # what is in force afterwards
            none = all3(decide(I, o, '==', S['outputs'], C(0)), n3(nz('outset')))
            b = E['outputs']
            if none is None or (strip(b) in [strip(('op', '|', C(33), S['outputs'])), strip(('op', '|', S['outputs'], C(33))), C(33)]) is not none: no('default', 'the default reports are %s' % show(b), o)
            elif not none and strip(b) != strip(S['outputs']): no('outputs', 'the reports become %s' % show(b), o)
            std = bit('outputs', 32) if not none else True
            quiet = any3(nz('pipeout'), all3(std, nz('outset'), n3(nz('fbset')), decide(I, o, '>', S['feedback'], C(0), 0, True)))
            fb = E['feedback']
            if quiet is True and fb != C(0) or quiet is False and strip(fb) != strip(S['feedback']) or quiet is None and not (fb == C(0) and decide(I, o, '==', S['feedback'], C(0)) is True): no('feedback', 'the level of messages becomes %s' % show(fb), o)
            if strip(E['rfmt']) != strip(S['rfmt']) and not (E['rfmt'] == C('trn') and nz('rfmt') is False) or files is True and nz('rfmt') is not True and E['rfmt'] != C('trn'): no('format', 'the format of the reference becomes %s' % show(E['rfmt']), o)
            for n in S:
                if n not in ('outputs', 'feedback', 'rfmt', 'id_type') and strip(E[n]) != strip(S[n]): no('changed:' + n, '%s becomes %s' % (n, show(E[n])), o)
            if nz('id') is True:
                k = [x for x in IDS if eqs(o, S['id'], x) is True]; v = E['id_type']
                if len(k) == 1 and v != C(enumv(prog, IDS[k[0]])): no('idtype:' + k[0], 'the id type %s becomes %s' % (k[0], show(v)), o)
        else:
            c.ob('hypothesis accepted'); L2 = lookup(o, lkey(o))
            for k, v in H.items():
                if v is True and {'id': 'id', 'time': 'time_align', 'reduce': 'stm2ctm_reduce', 'chars': 'char_align'}.get(k) not in fx: no('hyp:' + k, 'a hypothesis that conflicts with the options is accepted: ' + k, o)
            i = [(l, q, s) for l, (q, s) in L2[3].items() if o.st.env.get(l, s) != s]
            if len(i) == 1 and i[0][0] not in loc.values():
                up = i[0][1] == C(0) and eq(step(o, i[0][0], i[0][2]), C(1)); down = eq(i[0][1], add(S['nhyps'], C(1), -1)) and eq(step(o, i[0][0], i[0][2]), C(-1))
                if not up and not down: no('every', 'not every hypothesis is looked at', o)
                if up and decide(I, o, '<', i[0][2], S['nhyps'], 0, True) is not True: no('beyond', 'more hypotheses are looked at than there are', o)


def enumv(prog, name, memo={}):
    """value of an enumeration constant, as another function uses it"""
    if not memo:
        def scan(x):
            if isinstance(x, dict):
                if x.get('dk') == 'enum': memo.setdefault(x.get('n'), x.get('v'))
                for v in x.values(): scan(v)
            elif isinstance(x, list):
                for v in x: scan(v)
        g = prog.get('extract_speaker'); scan(g.body if hasattr(g, 'body') else g.d)
    return memo.get(name)


ALIGNERS = {  # what each argument of an alignment is
    'align_trans_mode_dp': ['ref', 'hyp', 'title', 1, 'case_sense', 'feedback', 'char_align', 'id_type', 'infered_wordseg', 'lexicon', 'frag_correct', 'opt_del', 'inf_flags', 'wwl', 'lm_file'],
    'align_trans_mode_diff': ['ref', 'hyp', 'title', 1, 'case_sense', 'feedback', 'id_type'],
    'align_ctm_to_stm_dp': ['ref', 'hyp', 'title', 1, 'case_sense', 'feedback', 'char_align', 'id_type', 'infered_wordseg', 'lexicon', 'frag_correct', 'opt_del', 'inf_flags', 'reduce1', 'reduce2', 'left_to_right', 'wwl', 'lm_file'],
    'align_ctm_to_stm_diff': ['ref', 'hyp', 'title', 1, 'case_sense', 'feedback', 'id_type'],
    'align_ctm_to_ctm': ['hyp', 'ref', 'title', 'feedback', 'frag_correct', 'opt_del', 'case_sense', 'time_align', 'left_to_right', 'wwl', 'lm_file'],
    'align_text_to_stm': ['ref', 'hyp', 'title', 1, 'case_sense', 'feedback', 'id_type']}
REPORT = {1: [('print_system_summary', ['sc', 'to', 0, 0, 0, 'fb'])], 2: [('print_system_summary', ['sc', 'to', 0, 1, 0, 'fb'])], 1024: [('print_system_summary', ['sc', 'to', 0, 0, 1, 'fb'])],
          64: [('score_dtl_sent', ['sc', 'to', 'fb'])], 128: [('score_dtl_spkr', ['sc', 'to', 'fb'])], 256: [('score_dtl_overall', ['sc', 'to', 'fb'])], 8: [('print_lur', ['sc', 'to', 'fb'])],
          4: [('dump_SCORES_alignments', ['sc', '.pra', 'width', 0])], 512: [('dump_SCORES_alignments', ['sc', '.prf', 'width', 1])],
          16: [('dump_SCORES_sgml', ['sc', '.sgml', ':', ','])], 2048: [('dump_SCORES_sgml', ['sc', '.nl.sgml', '\n', '\n'])], 32: []}
CREPORT = {1: [('make_SCORES_DET_curve', ['&sc', 1, 'root', 'fb', ''])], 2: [('make_binned_confidence', ['sc', 'root', 'fb'])], 4: [('make_confidence_histogram', ['sc', 'root', 'fb'])], 8: [('make_scaled_binned_confidence', ['sc', 'root', 20, 'fb'])]}


def systems(c, prog):
    c.rule('system', 'every system, piped or from a file, is scored by the alignment its formats ask for, with the options given, and gets the reports asked for, from its own scores, under its own name')
    fn = the(prog, 'main'); pa = the(prog, 'proc_args')
    if not fn or not pa: c.notes.append('main of sclite is not recognised'); return
    c.fn(fn); names = [p['n'] for p in pa.params]
    missing = [n for n in REPORT if not all(prog.get(x[0]) for x in REPORT[n])]
    val = {}
    def args(s, st, a, node, line, caller):
        for n, x in zip(names, a):
            if x[0] == 'addr' and x[1][0] == 'v' and n not in ('argv', 'prog', 'hname', 'hfmt', 'title'):
                s.write(st, x[1], s.given.get(n, ('sym', n, ())))
                val[n] = s.given.get(n, ('sym', n, ()))
            elif n in ('hname', 'hfmt', 'title'): val[n] = x
        return C(0)
    def load(s, st, a, node, line, caller):
        s.event(st, ('call', 'load', tuple(a) + (s.read(st, a[2][1]) if a[2][0] == 'addr' else None,), line, caller))
        if a[2][0] == 'addr': s.write(st, a[2][1], ('sym', 'piped', ()))
        return ('sym', 'loaded', ())
    def wwl(s, st, a, node, line, caller):
        s.event(st, ('call', 'load_WWL', tuple(a), line, caller))
        if a[0][0] == 'addr': s.write(st, a[0][1], ('sym', '!wwl', (a[1],)))
        return ('sym', 'wwlrc', ())
    T = {'proc_args': args, 'load_SCORES_sgml': load, 'load_WWL': wwl, 'fopen': pure('fopen'), 'fclose': ignore, 'rsprintf': pure('rsprintf'), 'strrchr': lambda s, st, a, *r: ('sym', 'slash', (a[0],)),
         'SCORES_free': rec('free'), 'free_WWL': ignore, 'free': ignore, 'malloc': lambda s, st, a, node, line, caller: ('sym', '!new%d' % line, (a[0],)), 'TEXT_strlen': pure('TEXT_strlen'), 'strlen': pure('strlen'), 'TEXT_strcmp': lambda s, st, a, *r: ('strcmp', False, a[0], a[1]), 'memset': ignore}
    def sprintf(s, st, a, node, line, caller):
        s.event(st, ('call', 'copy', (a[0], ('call', 'rsprintf', tuple(a[1:]), 0), None, 'sprintf'), line, caller)); return C(0)
    T['sprintf'] = sprintf
    T.update({n: ignore for n in ('fprintf', 'printf', 'puts', 'fputs', 'fflush')}); T.update(copies())
    for n in ALIGNERS: T[n] = rec(n, lambda a, n=n: ('sym', 'scored', (C(n),)))
    for L in list(REPORT.values()) + list(CREPORT.values()):
        for n, a in L: T[n] = rec(n) if not n.startswith('make_') else rec(n, lambda a, n=n: ('sym', 'rc', (C(n),)))
    bad = set(); reached = set()
    def no(key, msg, o):
        if key not in bad: bad.add(key); c.bad('system:' + key, where(fn, o.line or fn.line), msg, condlist(o))
    base = {'feedback': C(0), 'wwl_file': C(0)}
    runs = [('align', {**base, 'outputs': C(0), 'conf_outputs': C(0), 'pipeout': C(0), 'out_dir': C(0), 'out_name': C(0)}), ('name', {**base, 'outputs': C(0), 'conf_outputs': C(0), 'pipeout': C(0), 'use_diff': C(0), 'rfmt': C('ctm')})]
    runs += [('report', {**base, 'outputs': C(b + k), 'conf_outputs': C(0), 'pipeout': C(0), 'out_dir': C(0), 'out_name': C(0), 'use_diff': C(0), 'rfmt': C('ctm'), 'pipein': C(0)}) for b in REPORT if b != 32 for k in (0, 32)]
    runs += [('report', {**base, 'outputs': C(4095), 'conf_outputs': C(15), 'pipeout': C(1), 'out_dir': C(0), 'out_name': C(0), 'use_diff': C(0), 'rfmt': C('ctm'), 'pipein': C(0)})]
    runs += [('report', {**base, 'outputs': C(0), 'conf_outputs': C(b), 'pipeout': C(0), 'out_dir': C(0), 'out_name': C(0), 'use_diff': C(0), 'rfmt': C('ctm'), 'pipein': C(0)}) for b in CREPORT]
    runs += [('pipe', {**base, 'outputs': C(0), 'conf_outputs': C(0), 'out_dir': C(0), 'out_name': C(0), 'use_diff': C(0), 'rfmt': C('ctm')}), ('weights', {'feedback': C(0), 'outputs': C(0), 'conf_outputs': C(0), 'out_dir': C(0), 'out_name': C(0), 'use_diff': C(0), 'rfmt': C('ctm'), 'pipein': C(0), 'pipeout': C(0)})]
    for what, given in runs:
        val.clear(); I = Rec(prog, T, None, maxpaths=60000); I.given = given
        outs = I.run(I.start(fn))
        if 'rname' not in val or 'nhyps' not in val or 'hname' not in val: c.notes.append('main does not take its options from proc_args'); return
        hs = {lkey(o) for o in outs if o.kind == 'back' and any(e[0] == 'call' and e[1] in ALIGNERS for e in since(o, lkey(o)))}
        if len(hs) != 1: c.notes.append('the loop over the systems is not recognised'); return
        I.main = next(iter(hs))
        for o in outs: system(c, prog, I, fn, o, what, given, val, no, reached)
    for k in list(ALIGNERS) + ['piped', 'dump', 'done']:
        if k not in reached and (k not in ALIGNERS or prog.get(k)): c.notes.append('no path reaches ' + k)


def fmtflat(t):
    """the pieces of a formatted text"""
    if t[0] != 'call' or t[1] != 'rsprintf': return [t]
    f, a = t[2][0], list(t[2][1:]); r = []
    if f[0] != 'c': return [t]
    for i, x in enumerate(re.split(r'%s', f[1])):
        if i: r += fmtflat(a.pop(0)) if a else [None]
        if x: r.append(C(x))
    m = []
    for x in r:
        if x == C(''): continue
        if m and x is not None and x[0] == 'c' and m[-1] is not None and m[-1][0] == 'c' and isinstance(x[1], str) and isinstance(m[-1][1], str): m[-1] = C(m[-1][1] + x[1])
        else: m.append(x)
    return m


def system(c, prog, I, fn, o, what, given, val, no, reached):
    loops = [e for e in o.events if e[0] == 'loop']
    if lookup(o, I.main) in loops: loops = loops[loops.index(lookup(o, I.main)):]
    elif o.kind != 'stop': return
    nhyps = val['nhyps']
    if o.kind == 'stop':
        c.ob('run ended'); x = exits(o)
        if x is None or x == C(0): no('status', 'the run ends with status %s' % (show(x) if x else '?'), o)
        y = lambda t, op, v=C(0): decide(I, o, op, t, v) is True
        hfm = next((t for t in index(o) if t[0] == 'init' and t[1][0] == 'elem' and strip(t[1][1]) == strip(val['hfmt'])), None)
        pairs = [(eqs(o, val['rfmt'], a), eqs(o, hfm, b) if hfm else None) for a, b in (('trn', 'trn'), ('stm', 'ctm'), ('ctm', 'ctm'), ('stm', 'txt'))]
        why = y(('sym', 'loaded', ()), '==') or y(('sym', 'wwlrc', ()), '!=') or y(val['left_to_right'], '==') or any(y(('sym', 'scored', (C(n),)), '==') for n in ALIGNERS) or bool(pairs) and all(False in p for p in pairs)
        d = maxhyps(prog)
        if not why and not (d and decide(I, o, '>', add(nhyps, ('sym', 'piped', ())), C(d), 0, True) is True): no('refused', 'a run is given up without a reason', o)
    if o.kind == 'back':
        L = lookup(o, lkey(o)); ev = since(o, lkey(o))
        n = [(l, q, s) for l, (q, s) in L[3].items() if o.st.env.get(l, s) != s and q == C(0) and eq(step(o, l, s), C(1))]
        calls = [e for e in ev if e[0] == 'call']
        al = [e for e in calls if e[1] in ALIGNERS]
        first = L is loops[0]
        if not first:
            # behind the reports: piping and freeing
            du = [e for e in calls if e[1] == 'dump_SCORES_sgml']
            if du:
                reached.add('dump'); c.ob('system piped')
                if len(n) != 1 or len(du) != 1: no('pipe', 'not every system is piped once', o); return
                a = du[0][2]; t = strip(a[0])
                if t[0] != 'init' or t[1][0] != 'elem' or not eq(t[1][2], strip(n[0][2])): no('pipe', 'the scores of another system are piped', o)
                if strip(a[1]) != ('init', ('g', 'stdout')) or a[2] != C(':') or a[3] != C(','): no('pipe:format', 'the alignments are piped in a format that cannot be read back', o)
            return
        c.ob('system handled')
        if len(n) > 1: n = [x for x in n if any(any(strip(s2) == strip(x[2]) for s2 in subterms(y[0])) and any(s2 == nhyps for s2 in subterms(y[0])) for y in o.conds)]
        if len(n) != 1: no('every', 'not every system is scored', o); return
        nl, q, k = n[0]; piped = ('sym', 'piped', ()) if given.get('pipein') != C(0) and decide(I, o, '!=', val['pipein'], C(0)) is True else C(0)
        if decide(I, o, '<', k, add(nhyps, piped), 0, True) is not True: no('beyond', 'more systems are scored than there are', o)
        if decide(I, o, '<', k, C(0), 0, True) is True: return                # counted from 0 upwards
        isp = decide(I, o, '<', k, piped, 0, True) if piped != C(0) else False
        sc = None
        for e in ev:
            if e[0] == 'set' and e[1][0] == 'elem' and e[2][0] == 'sym' and e[2][1] == 'scored': sc = e[1]
        if isp is None: no('which', 'a piped system is taken for one from a file, or the other way round', o); return
        lp = [e for e in o.events if e[0] == 'call' and e[1] == 'load']
        if piped != C(0):
            if len(lp) != 1 or decide(I, o, '!=', ('sym', 'loaded', ()), C(0)) is not True: no('loaded', 'scores that could not be read are used', o)
            if lp and (lp[0][2][4] != C(0) or maxhyps(prog) and not (lp[0][2][3][0] == 'c' and 0 < lp[0][2][3][1] <= maxhyps(prog))): no('load', 'piped systems are not read from the first one on into the room there is', o)
            room = [d for d in [maxhyps(prog)] if d]
            if room and decide(I, o, '<=', add(piped, nhyps), C(room[0]), 0, True) is not True: no('room', 'there is room for %d systems, which is not checked' % room[0], o)
        if isp:
            reached.add('piped')
            if al: no('piped', 'a piped system is scored again', o)
            h = None; src = lp[0][2][1] if lp else None
            want = strip(('init', ('elem', src, k), 0)) if src is not None else None
        else:
            if len(al) != 1 or sc is None: no('align', 'a hypothesis file is scored %d times' % len(al), o); return
            h = add(k, piped, -1)
            def el(nm):
                return strip(('init', ('elem', val[nm], h), 0))
            nm, a = al[0][1], al[0][2]; reached.add(nm)
            same = lambda x, y: strip(x) == strip(y) or eq(x, y)
            for x, role in zip(a, ALIGNERS[nm]):
                if role in ('ref', 'hyp', 'title'):
                    t = {'ref': val['rname'], 'hyp': el('hname'), 'title': el('title')}[role]
                    if strip(x) == strip(t): continue
                    xs = strip(x)
                    if role != 'ref' and xs[0] == 'init' and xs[1][0] == 'elem' and xs[1][1] == strip(t)[1][1] and eq(xs[1][2], strip(t)[1][2]): continue
                    no('%s:%s' % (nm, role), 'the %s of the alignment is %s' % (role, show(x)), o); continue
                if role == 1: ok = x == C(1)
                elif role == 'wwl': ok = x == C(0) if what != 'weights' else (x[0] == 'sym' and x[1] == '!wwl') is (decide(I, o, '!=', val['wwl_file'], C(0)) is True)
                elif role in ('reduce1', 'reduce2'):
                    b = C(int(role[-1])); r = val['stm2ctm_reduce']
                    m = [('op', '&', p, q_) for p, q_ in ((b, r), (r, b))]
                    mt = next((I.compare(o.st, op_, y, C(0)) for op_ in ('!=', '>') for y in o.st.facts if strip(y) in map(strip, m) and I.compare(o.st, op_, y, C(0)) is not None), None)
                    ok = strip(x) in [strip(y) for z in m for y in (z, ('cmp', '!=', z, C(0)), ('cmp', '>', z, C(0)))] or (x == C(1) and mt is True) or (x == C(0) and mt is False)
                else: ok = strip(x) == strip(val[role])
                if not ok: no('%s:%s' % (nm, role), 'the argument %s of %s is %s' % (role, nm, show(x)), o)
            # the right one for the formats
            rf = val['rfmt']; hfm = next((t for t in index(o) if t[0] == 'init' and t[1][0] == 'elem' and strip(t[1][1]) == strip(val['hfmt'])), None)
            if hfm is None or not eq(strip(hfm[1][2]), strip(h)): no('format', 'the format of another file is looked at', o)
            else:
                f2 = lambda t, x: eqs(o, t, x)
                diff = decide(I, o, '!=', val['use_diff'], C(0))
                pick = ('align_trans_mode_diff' if diff else 'align_trans_mode_dp') if f2(rf, 'trn') and f2(hfm, 'trn') else ('align_ctm_to_stm_diff' if diff else 'align_ctm_to_stm_dp') if f2(rf, 'stm') and f2(hfm, 'ctm') else 'align_ctm_to_ctm' if f2(rf, 'ctm') and f2(hfm, 'ctm') else 'align_text_to_stm' if f2(rf, 'stm') and f2(hfm, 'txt') else None
                if pick != nm or diff is None and pick not in ('align_ctm_to_ctm', 'align_text_to_stm'): no('formats:' + nm, '%s is used for formats that ask for %s' % (nm, pick), o)
            if not eq(strip(sc[2]), strip(k)): no('slot', 'the scores of the system are kept at %s' % show(sc[2]), o); return
            if decide(I, o, '!=', ('sym', 'scored', (C(nm),)), C(0)) is not True: no('failed', 'an alignment that failed is reported', o)
            want = None
        if what == 'weights' and decide(I, o, '!=', val['wwl_file'], C(0)) is True and decide(I, o, '==', ('sym', 'wwlrc', ()), C(0)) is not True: no('weights', 'weights that could not be read are used', o)
        rcs = [decide(I, o, '!=', t, C(0)) for t in o.st.facts if t[0] == 'sym' and t[1] == 'rc']
        more = [l for l, (q_, s_) in L[3].items() if l != nl and l[0] == 'v' and q_ == C(0) and o.st.env.get(l, s_) != s_ and isnum(step(o, l, s_)) and step(o, l, s_)[1] > 0]
        if True in rcs and not more: no('errors', 'a report that could not be made is not counted as an error', o)
        # the name of the output
        cp = [e[2] for e in calls if e[1] == 'copy' and e[2][1][0] == 'call' and e[2][1][1] == 'rsprintf']
        root = cp[-1][0] if cp else None
        if len(cp) != 1: no('name', 'the name of the output is not made', o)
        elif what in ('name', 'align', 'report', 'pipe', 'weights'):
            own = el('hname') if h is not None else strip(('init', ('fld', ('init', ('elem', src, k), 0), 'title'), 0))
            pc = [strip(x) if x is not None else None for x in fmtflat(cp[0][1])]
            sl = [t for t in index(o) if t[0] == 'sym' and t[1] == 'slash']; has = decide(I, o, '!=', sl[0], C(0)) if sl else None
            if not sl or not samep(sl[0][2][0], own): no('name', 'the name of the output is not made from that of the file', o)
            else:
                hroot = add(sl[0], C(1)) if has else sl[0][2][0]
                od, on = val['out_dir'], val['out_name']
                isod, ison = (decide(I, o, '!=', t, C(0)) for t in (od, on))
                several = decide(I, o, '>', add(nhyps, piped), C(1), 0, True)
                tail = [strip(hroot)] if ison is False else [strip(on)] + ([C('.'), strip(hroot)] if several else []) if ison and several is not None else None
                if tail is None: no('name', 'the name of the output does not depend on -n and the number of systems', o)
                else:
                    def cat(l):
                        return l
                    got = list(pc); d = None
                    if isod: good = got == cat([strip(od), C('/')] + tail)
                    elif len(got) > len(tail): 
                        d = got[0]; good = got[1:] == [C('/')] + tail
                        dcp = [e[2] for e in calls if e[1] == 'copy' and strip(e[2][0]) == strip(d)]
                        dir_ok = has is True and any(samep(e[1], own) and e[2] is not None and eq(strip(e[2]), strip(add(sl[0], sl[0][2][0], -1))) for e in dcp) or has is False and any(e[1] == C('.') for e in dcp)
                        good = good and dir_ok
                    else: good = got == tail
                    if not good: no('name', 'the output of the system is named %s' % ' '.join(show(x) for x in pc if x), o)
                    reached.add('name')
        # the reports
        exp = []
        outp, conf = given['outputs'][1], given['conf_outputs'][1]; std = bool(outp & 32)
        rp = [e for e in calls if e[1] in {x[0] for l in list(REPORT.values()) + list(CREPORT.values()) for x in l}]
        for b in (1, 1024, 2, 64, 128, 256, 8, 4, 512, 16, 2048):
            if outp & b: exp += [(x, b) for x in REPORT[b]]
        for b in (1, 2, 4, 8):
            if conf & b: exp += [(x, -b) for x in CREPORT[b]]
        def own(t):
            t = strip(t)
            if t[0] == 'sym' and t[1] == 'scored': return not isp
            return t[0] == 'init' and t[1][0] == 'elem' and eq(t[1][2], strip(k))
        def fits(e, sp):
            for x, r in zip(e[2], sp[1]):
                xs = strip(x)
                if r == 'sc': ok = own(x)
                elif r == '&sc': ok = x[0] == 'addr' and x[1][0] == 'elem' and eq(strip(x[1][2]), strip(k)) or x[0] == 'aff' or own(('init', ('elem', x, C(0)), 0)) or (flat(x)[0] == 'aff')
                elif r == 'to': ok = x == C('-') if std else strip(x) == strip(root) if root is not None else True
                elif r == 'root': ok = root is None or strip(x) == strip(root)
                elif r == 'fb': ok = x == C(0)
                elif r == 'width': ok = strip(x) == strip(val['linewidth'])
                elif isinstance(r, str) and r.startswith('.'):
                    fo = [t for t in index(o) if t[0] == 'call' and t[1] == 'fopen' and fmtflat(t[2][0]) in ([strip(root), C(r)], [root, C(r)])] if root is not None else []
                    so = ('init', ('g', 'stdout'))
                    ok = xs == so if std else bool(fo) and t_mode(fo[0]) and (xs == strip(fo[0]) or xs == so and decide(I, o, '==', fo[0], C(0)) is True)
                elif isinstance(r, str): ok = x == C(r)
                else: ok = x == C(r)
                if not ok: return False
            return len(e[2]) == len(sp[1])
        left = list(rp)
        for sp, b in exp:
            c.ob('report made')
            m = next((e for e in left if e[1] == sp[0] and fits(e, sp)), None)
            if b == 1024:
                wa = [decide(I, o, '!=', t, C(0)) for t in index(o) if t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == 'weight_ali']
                if wa and wa[0] is False:
                    if m is not None and not (outp & 3): no('wws', 'weights are reported although there are none', o)
                    continue
            if m is None: no('report:%s:%d' % (sp[0], b), 'a report asked for is not made as documented: %s' % sp[0], o)
            else: left.remove(m)
        if left: no('extra:' + left[0][1], 'a report is made that was not asked for: %s' % left[0][1], o)
    elif o.kind == 'ret' and loops:
        c.ob('run finished'); reached.add('done')
        L = loops[0]
        n = [(l, q, s) for l, (q, s) in L[3].items() if q == C(0) and any(any(strip(s2) == strip(s) for s2 in subterms(y[0])) and any(s2 == nhyps for s2 in subterms(y[0])) for y in o.conds)]
        piped = ('sym', 'piped', ()) if given.get('pipein') != C(0) and decide(I, o, '!=', val['pipein'], C(0)) is True else C(0)
        tot = add(nhyps, piped)
        if not any(decide(I, o, '>=', s, tot, 0, True) is True for l, q, s in n): no('end', 'the scoring ends before the last system', o)
        po = decide(I, o, '!=', val['pipeout'], C(0))
        d = [L2 for L2 in loops[1:]]
        if po is True and not any(decide(I, o, '>=', s, tot, 0, True) is True for L2 in loops[1:2] for l, (q, s) in L2[3].items() if q == C(0)): no('pipe:end', 'the piping ends before the last system', o)
        er = [l for l, (q, s) in L[3].items() if q == C(0) and l not in [x[0] for x in n]]
        v = o.value
        if given['conf_outputs'] != C(0):
            es = [L[3][l][1] for l in er if l[0] == 'v']
            zero = [decide(I, o, '==', s, C(0)) for s in es]
            if v == C(0) and True not in zero: no('failure', 'the run succeeds although a report could not be made', o)
        if v != C(0) and given['conf_outputs'] == C(0) and not (er and v[0] != 'c') : 
            es = [L[3][l][1] for l in er if l[0] == 'v']
            if not any(decide(I, o, '!=', s, C(0)) is True for s in es): no('result', 'a run without an error returns %s' % show(v), o)


def t_mode(t):
    return t[2][1] == C('w')


def samep(a, b):
    a, b = strip(a), strip(b)
    if a == b: return True
    return a[0] == b[0] == 'init' and a[1][0] == b[1][0] == 'elem' and a[1][1] == b[1][1] and eq(a[1][2], b[1][2]) or a[0] == b[0] == 'init' and a[1][0] == b[1][0] == 'fld' and a[1][2] == b[1][2] and samep(a[1][1], b[1][1])
