"""S15: scoring by characters -- every word replaced by its own characters."""
import absint
from absint import C, show, showloc, add, isnum
from util import *
from S02 import strip, param, subterms
from S09 import lkey, lookup, since
from S12 import f, rec, copies
from path import *


def check(c):
    prog = c.prog('sclite')
    c.part(chars, c, prog)
    c.part(split, c, prog)
    c.part(copy, c, prog)
    c.part(escape, c, prog)
    c.part(setters, c, prog)


def chars(c, prog):
    c.rule('word', 'a word of more than one byte is replaced by the network of its characters, between the same nodes, with the times of the word divided evenly, its confidence and its mark as optionally deletable')
    fn = c.fn(prog.get('expand_words_to_chars')); arc, ptr = param(fn, 1, 0), param(fn, 1, 1)
    W = f(arc, 'data'); V = f(W, 'value')
    T = {'TEXT_strlen': pure('TEXT_strlen'), 'free': ignore, 'sprintf': ignore, 'rsprintf': ignore, 'malloc': lambda s, st, a, node, line, caller: ('sym', '!new%d' % line, tuple(a)),
         'Network_create_from_TEXT': rec('net', lambda a: ('call', 'net', (a[0],), 0))}
    for n in ('TEXT_separate_chars', 'TEXT_strcpy_escaped', 'Network_merge_network', 'Network_delete_arc'): T[n] = rec(n)
    def trav(s, st, args, node, line, caller):
        v = s.read(st, args[4][1]) if args[4][0] == 'addr' else args[4]
        s.event(st, ('call', 'walk', (args[0], args[3], v, args[5]), line, caller)); return C(0)
    T['Network_traverse'] = trav
    I = Rec(prog, T, None)
    for o in I.run(I.start(fn)):
        if o.kind != 'ret': continue
        c.ob('word split into characters'); w = where(fn, o.line)
        ev = [e for e in o.events if e[0] == 'call' and e[1] in ('TEXT_separate_chars', 'TEXT_strcpy_escaped', 'net', 'walk', 'Network_merge_network', 'Network_delete_arc')]
        one = decide(I, o, '<=', ('call', 'TEXT_strlen', (V,), 0), C(1), 0, True)
        if one is True and not ev: continue
        if one is not False: c.bad('chars:short', w, 'a word of one byte is split, or a longer one is not', condlist(o)); continue
        od = decide(I, o, '!=', f(W, 'opt_del'), C(0))
        sp = [e[2] for e in ev if e[1] == 'TEXT_separate_chars']
        txt = f(W, 'intern_value') if od else V
        if len(sp) != 1 or od is None or strip(sp[0][0]) != strip(txt) or strip(sp[0][3]) != strip(('init', ('elem', ptr, C(0)), 0)): c.bad('chars:text', w, 'not the text of the word is split', condlist(o)); continue
        if sp[0][1][0] != 'addr': c.notes.append('characters are not separated into a buffer'); continue
        es = [e[2] for e in ev if e[1] == 'TEXT_strcpy_escaped']; net = [e for e in ev if e[1] == 'net']
        buf = o.st.env.get(sp[0][1][1], ('init', sp[0][1][1], 0))
        if strip(sp[0][1]) == strip(sp[0][2]): c.bad('chars:buffer', w, 'the buffer is taken for its size', condlist(o))
        same = None
        for t in o.st.facts:
            if t[0] == 'strcmp' and len(t) == 4 and not t[1] and any(strip(x) == strip(V) for x in t[2:]): same = I.compare(o.st, '==', t, C(0))
        N = ('call', 'net', tuple(net[0][2][:1]), 0) if net else None
        made = decide(I, o, '!=', N, C(0)) if N else None
        rest = [e for e in ev if e[1] in ('walk', 'Network_merge_network', 'Network_delete_arc')]
        if same is True:
            if rest or net: c.bad('chars:same', w, 'a word that is a single character is replaced', condlist(o))
            continue
        if len(net) != 1 or len(es) != 1 or net[0][2][0] != es[0][0] or es[0][2] != C(59) or es[0][0][0] == 'sym' and strip(es[0][1]) == strip(es[0][0]): c.bad('chars:net', w, 'the characters of a word do not become a network', condlist(o)); continue
        if es[0][0][:1] == ('sym',) and es[0][0][2]:
            ln = o.st.env.get(sp[0][2][1], ('init', sp[0][2][1], 0)) if sp[0][2][0] == 'addr' else None
            d = absint.affparts(es[0][0][2][0])
            if ln is not None and (len(d[0]) != 1 or next(iter(d[0].values())) < 2) and not isnum(es[0][0][2][0]): c.bad('chars:room', w, 'there may be no room for the escaped characters', condlist(o))
        AF = [a for a in net[0][2][2:]]
        if made is not True:
            if rest: c.bad('chars:none', w, 'a network that could not be made is used', condlist(o))
            continue
        walks = [(e[2][1][1] if e[2][1][0] == 'fn' else None, e[2][2]) for e in ev if e[1] == 'walk' and e[2][0] == N]
        k = [x[0] for x in walks]
        val = dict(walks)
        want = ['set_word_duration', 'set_word_start', 'set_word_conf'] + (['set_word_opt_del', 'decode_opt_del'] if od else [])
        if sorted(x or '' for x in k) != sorted(want): c.bad('chars:attributes', w, 'the characters get %s' % ', '.join(str(x) for x in k), condlist(o)); continue
        if k.index('set_word_duration') > k.index('set_word_start') or od and k.index('set_word_opt_del') > k.index('decode_opt_del'): c.bad('chars:order', w, 'attributes of the characters are set in the wrong order', condlist(o))
        cnt = f(N, 'arc_count'); dur = val['set_word_duration']
        if not (dur[0] == 'op' and dur[1] == '/' and strip(dur[2]) == strip(f(W, 'T_dur')) and cnt_of(dur[3], cnt)): c.bad('chars:duration', w, 'the duration of a character is %s' % show(dur), condlist(o))
        if strip(val['set_word_start']) != strip(f(W, 'T1')): c.bad('chars:start', w, 'the first character begins at %s' % show(val['set_word_start']), condlist(o))
        if strip(val['set_word_conf']) != strip(f(W, 'conf')): c.bad('chars:conf', w, 'the confidence of a character is %s' % show(val['set_word_conf']), condlist(o))
        if od and decide(I, o, '!=', val['set_word_opt_del'], C(0)) is not True: c.bad('chars:od', w, 'the characters of an optionally deletable word are not', condlist(o))
        mg = [e[2] for e in ev if e[1] == 'Network_merge_network']; dl = [e[2] for e in ev if e[1] == 'Network_delete_arc']
        if len(mg) != 1 or strip(mg[0][0]) != strip(f(arc, 'from_node')) or strip(mg[0][1]) != strip(f(arc, 'to_node')) or mg[0][2] != N: c.bad('chars:place', w, 'the characters do not take the place of the word', condlist(o))
        if len(dl) != 1 or strip(dl[0][0]) != strip(arc): c.bad('chars:word', w, 'the word stays beside its characters', condlist(o))
        elif mg and ev.index(next(e for e in ev if e[1] == 'Network_merge_network')) > ev.index(next(e for e in ev if e[1] == 'Network_delete_arc')): c.bad('chars:late', w, 'the word is removed before its characters take its place', condlist(o))


def cnt_of(t, cnt):
    return any(strip(x) == strip(cnt) for x in subterms(t)) and (t[0] in ('init', 'cast', 'conv') or strip(t) == strip(cnt) or t[0] == 'call')


def setters(c, prog):
    c.rule('attributes', 'every character gets the duration and confidence handed on and begins where the one before ends')
    for name, fd in (('set_word_duration', 'T_dur'), ('set_word_conf', 'conf')):
        fn = c.fn(prog.get(name)); W = f(param(fn, 1, 0), 'data'); p = ('init', ('elem', param(fn, 1, 1), C(0)), 0)
        I = Rec(prog, {}, None)
        for o in I.run(I.start(fn)):
            if o.kind != 'ret': continue
            c.ob(name); s = [e for e in o.events if e[0] == 'set']
            if len(s) != 1 or strip(s[0][1]) != strip(('fld', W, fd)) or strip(s[0][2]) != strip(p): c.bad('chars:' + name, where(fn, o.line), '%s sets %s' % (name, [showloc(e[1]) for e in s]), condlist(o))
    fn = c.fn(prog.get('set_word_start')); W = f(param(fn, 1, 0), 'data'); P = ('v', 0, 'p', 'p')
    I = Rec(prog, {}, None); st = I.start(fn); st.env[param(fn, 1, 1)[1]] = ('addr', P)
    for o in I.run(st):
        if o.kind != 'ret': continue
        c.ob('set_word_start'); t = ('init', P, 0); d = f(W, 'T_dur')
        get = lambda n: next((e[2] for e in reversed(o.events) if e[0] == 'set' and strip(e[1]) == strip(('fld', W, n))), None)
        if get('T1') is None or get('T2') is None or strip(get('T1')) != strip(t) or not eq(get('T2'), add(t, d)) or not eq(o.st.env.get(P, t), add(t, d)) or get('T_dur') is not None: c.bad('chars:set_word_start', where(fn, o.line), 'a character does not begin where the one before ends', condlist(o))

    fn = c.fn(prog.get('set_word_opt_del')); W = f(param(fn, 1, 0), 'data'); p = ('init', ('elem', param(fn, 1, 1), C(0)), 0); V = f(W, 'value')
    I = Rec(prog, {'TEXT_strdup': pure('TEXT_strdup'), 'rsprintf': pure('rsprintf'), 'free': ignore, 'TEXT_free': ignore}, None)
    for o in I.run(I.start(fn)):
        if o.kind != 'ret': continue
        c.ob('set_word_opt_del'); on = decide(I, o, '!=', p, C(0)); v = next((e[2] for e in reversed(o.events) if e[0] == 'set' and strip(e[1]) == strip(('fld', W, 'value'))), None)
        t = v[2][0] if v is not None and v[0] == 'call' and v[1] == 'TEXT_strdup' else v
        good = v is None if on is False else t is not None and t[0] == 'call' and t[1] == 'rsprintf' and len(t[2]) == 2 and t[2][0] == C('(%s)') and strip(t[2][1]) == strip(V)
        if not good: c.bad('chars:set_word_opt_del', where(fn, o.line), 'the text of a character of an optionally deletable word is %s' % (show(v) if v else 'not changed'), condlist(o))


def escape(c, prog):
    c.rule('escape', 'a text is copied byte by byte to its end, with a backslash before each byte that needs one')
    fn = c.fn(prog.get('TEXT_strcpy_escaped')); I = Rec(prog, {}, None); d, s_, ch = (param(fn, 1, i) for i in range(3))
    for o in I.run(I.start(fn)):
        L = next((e for e in o.events if e[0] == 'loop'), None); w = where(fn, o.line or fn.line)
        if not L: c.notes.append('TEXT_strcpy_escaped has no loop'); return
        p = [(loc, s) for loc, (q, s) in L[3].items() if q == d]; q = [(loc, s) for loc, (r, s) in L[3].items() if r == s_]
        if len(p) != 1 or len(q) != 1: c.notes.append('TEXT_strcpy_escaped is not recognised'); return
        (pl, ps), (ql, qs) = p[0], q[0]; at = ('init', ('elem', qs, C(0)), 0)
        sets = [(add(flat(e[1][1]), e[1][2]), e[2]) for e in o.events[o.events.index(L):] if e[0] == 'set' and e[1][0] == 'elem']
        if o.kind == 'back':
            c.ob('byte escaped'); e = [decide(I, o, '==', t, ch) for t in index(o) if t[0] == 'init' and t[1][0] == 'elem' and eq(add(flat(t[1][1]), t[1][2]), qs)]
            e = True if True in e else False if False in e else None
            want = [(ps, C(92)), (add(ps, C(1)), at)] if e else [(ps, at)]
            good = e is not None and len(sets) == len(want) and all(eq(a, x) and strip(b) == strip(y) for (a, b), (x, y) in zip(sets, want)) and eq(step(o, pl, ps), C(len(want))) and eq(step(o, ql, qs), C(1))
            if not good: c.bad('chars:escape', w, 'a byte is not copied exactly once, with an escape if it needs one', condlist(o))
        elif o.kind == 'ret':
            c.ob('text escaped')
            if not (sets and eq(sets[-1][0], ps) and sets[-1][1] == C(0)) or not any(decide(I, o, '==', t, C(0)) is True for t in index(o) if t[0] == 'init' and t[1][0] == 'elem' and eq(add(flat(t[1][1]), t[1][2]), qs)): c.bad('chars:escaped', w, 'the text is not copied to its end', condlist(o))


def split(c, prog):
    """TEXT_separate_chars"""
    c.rule('split', 'every character is copied once, in order and whole; a blank comes between two of them unless one is a blank or both are ASCII and NOASCII was asked for; a hyphen is left out only with DH')
    fn = c.fn(prog.get('TEXT_separate_chars')); fr, flag = param(fn, 1, 0), param(fn, 1, 3)
    T = {n: pure(n) for n in ('TEXT_nbytes_of_char', 'TEXT_strlen', 'is_ASCII')}
    T.update({'TEXT_strCcpy': rec('cc'), 'free': ignore, 'malloc': lambda s, st, a, *r: ('sym', '!new', tuple(a))}); T.update(copies())
    I = Rec(prog, T, None, maxpaths=20000); st = I.start(fn)
    TO, SZ = ('v', 0, 'to', 'to'), ('v', 0, 'size', 'size')
    st.env[param(fn, 1, 1)[1]] = ('addr', TO); st.env[param(fn, 1, 2)[1]] = ('addr', SZ)
    bad = set()
    for o in I.run(st):
        if o.kind != 'back': continue
        L = lookup(o, lkey(o)); ev = since(o, lkey(o)); w = where(fn, fn.line)
        F = [(loc, s) for loc, (q, s) in L[3].items() if q == fr]; Pt = [(loc, s) for loc, (q, s) in L[3].items() if strip(q) == strip(('init', TO, 0)) and loc != TO]
        A = [(loc, s) for loc, (q, s) in L[3].items() if q == C(0)]; S = [(loc, s) for loc, (q, s) in L[3].items() if q == C(1)]
        if len(F) != 1 or len(Pt) != 1 or len(A) != 1 or len(S) != 1: c.notes.append('TEXT_separate_chars is not recognised'); return
        (fl, fs), (pl, ps), (al, as_), (sl, ss) = F[0], Pt[0], A[0], S[0]
        c.ob('character separated')
        def no(key, msg):
            if key not in bad: bad.add(key); c.bad('chars:' + key, w, msg, condlist(o))
        at = lambda i: [t for t in index(o) if t[0] == 'init' and t[1][0] == 'elem' and eq(add(flat(t[1][1]), t[1][2]), add(fs, C(i)))]
        def isc(i, v):
            r = [decide(I, o, '==', t, C(v)) for t in at(i)]
            return True if True in r else False if False in r else None
        bit = lambda b: next((I.compare(o.st, '!=', t, C(0)) for t in o.st.facts if t[0] == 'op' and t[1] == '&' and set(t[2:]) == {flag, C(b)}), None)
        cs = ('call', 'TEXT_nbytes_of_char', (fs,), 0); single = decide(I, o, '==', cs, C(1))
        both = lambda a, b: False if False in (a, b) else True if a and b else None
        hyph, spc = both(single, isc(0, 45)), both(single, isc(0, 32))
        to0 = L[3][TO][1] if TO in L[3] else ('init', TO, 0); to1 = o.st.env.get(TO, to0); sz0 = L[3][SZ][1] if SZ in L[3] else ('init', SZ, 0); sz1 = o.st.env.get(SZ, sz0)
        grown = to1 != to0
        cc = [e[2] for e in ev if e[0] == 'call' and e[1] == 'cc']
        t0 = add(to1, ('call', 'TEXT_strlen', (to1,), 0)) if grown else ps
        alt0 = add(to1, add(ps, to0, -1)) if grown else ps
        end = o.st.env.get(pl, ps); a1, s1 = o.st.env.get(al, as_), o.st.env.get(sl, ss)
        if cc and eq(cc[0][0], alt0): t0 = alt0
        if grown:
            cp = [e[2] for e in ev if e[0] == 'call' and e[1] == 'copy']
            zero = decide(I, o, '==', sz0, C(0)) is True or decide(I, o, '==', absint.scale(sz0, 2), C(0)) is True
            d = absint.affparts(sz1)
            if len(cp) != 1 or cp[0][0] != to1 or strip(cp[0][1]) != strip(to0) or not eq(cp[0][2], sz0): no('grow', 'the characters separated so far are not taken along')
            if not zero and (not eq(to1[2][0], sz1) or list(d[0]) != [sz0] or d[0][sz0] < 2): no('size', 'the new buffer has room for %s, recorded as %s' % (show(to1[2][0]), show(sz1)))
        big = bool(cc) and cc[-1][2] == C(2)
        lp = [t for t in o.st.facts if t[0] == 'init' and t[1][0] == 'g' and 'LPROF' in t[1][1]]
        prof = next((decide(I, o, '==', lp[0], C(k)) for k in range(1, 40) if decide(I, o, '==', lp[0], C(k)) is True), None) if lp else None
        gt = both(both(isc(1, 0xCC), isc(2, 0x83)), True if True in (isc(0, 71), isc(0, 103)) else False if isc(0, 71) is False and isc(0, 103) is False else None)
        if big:
            if prof is not True or gt is not True: no('guarani', 'a character is joined with the next one')
        elif prof is True and gt is True: no('guarani', 'the two-character letter of Guarani is split')
        dele = both(bit(4), hyph)
        if not cc:
            if dele is not True: no('lost', 'a character is left out')
            if not eq(end, t0) and not (grown and eq(end, alt0)) or not eq(a1, as_) or not eq(s1, ss): no('hyphen', 'a hyphen left out has an effect')
        else:
            if not big and dele is not False: no('deleted', 'a hyphen is kept although it is to be left out')
            sp = len(cc) == 2
            first, last = decide(I, o, '==', t0, to1), decide(I, o, '!=', ss, C(0))
            if len(cc) > 2 or sp and (cc[0][1] not in (C(' '),) or cc[0][2] != C(1)) or strip(cc[-1][1]) != strip(fs) or cc[-1][2] not in (C(1), C(2)): no('copy', 'not the character is copied'); continue
            n = C(3) if big else cs; e = add(t0, C(1)) if sp else t0
            if not eq(cc[0][0], t0) or not eq(cc[-1][0], e) or not eq(end, add(e, n)): no('at', 'a character is copied to the wrong place')
            asc = I.compare(o.st, '!=', a1, C(0))
            if big and asc is not False: no('ascii', 'the two-character letter of Guarani is remembered as ASCII, or what it is is not remembered')
            if not big and a1 == as_: no('ascii', 'it is not remembered whether the last character is ASCII')
            en = [t for t in o.st.facts if t[0] == 'init' and t[1][0] == 'g' and t[1][1].endswith('STATIC_ENCODING')]
            e8 = [I.compare(o.st, '==', en[0], C(k)) for k in (0, 1)] if en else [None]
            hi = [I.compare(o.st, '==', t, C(0)) for t in o.st.facts if t[0] == 'op' and t[1] == '&' and C(128) in t[2:] and any(strip(x) == strip(y) for x in t[2:] for y in at(0))]
            isa = True if True in e8 or True in hi else False if False in hi and e8 == [False, False] else None
            if not big and isa is not None and asc is not None and asc is not isa: no('ascii', 'a character is remembered as %sASCII' % ('' if asc else 'not '))
            if big:
                if sp is not (last is False) or last is None: no('blank', 'characters are not separated, or twice')
            else:
                keep = [bit(2), asc, decide(I, o, '!=', as_, C(0))]
                if sp:
                    if not (first is False and last is False and spc is False and False in keep): no('blank', 'a blank is added where none belongs')
                elif not (first is True or last is True or spc is True or all(k is True for k in keep)): no('joined', 'two characters are not separated')
            if I.compare(o.st, '!=', s1, C(0)) is not (False if big else spc): no('last', 'it is not remembered whether the last character is a blank')
            if not eq(end, e) and not grown:
                need = add(add(add(ps, to0, -1), add(n, C(2 if not big else 2))), C(0))
                if big: need = add(add(ps, to0, -1), add(cs, C(4)))
                if decide(I, o, '<=', need, sz0, 0, True) is not True: no('full', 'a character is copied where there may be no room')
        if not eq(o.st.env.get(fl, fs), add(fs, C(3) if big else cs)): no('next', 'characters are passed over or taken twice')


def trips(I, o, L, op, n):
    """the rounds done by a counter of the loop compared with n"""
    for loc, (q, s) in L[3].items():
        if q[0] == 'undef': continue
        for d in (1, -1):
            if decide(I, o, op, absint.scale(add(s, q, -1), d), n, 0, True) is True and (op != '<' or eq(step(o, loc, s), C(d))): return True
    return False


def copy(c, prog):
    c.rule('copy', 'copying n characters copies all bytes of n characters, in order, and ends the text')
    fn = c.fn(prog.get('TEXT_strCcpy')); d, s_, n = (param(fn, 1, i) for i in range(3))
    I = Rec(prog, {'TEXT_nbytes_of_char': pure('TEXT_nbytes_of_char')}, None)
    for o in I.run(I.start(fn)):
        w = where(fn, o.line or fn.line); Ls = [e for e in o.events if e[0] == 'loop']
        if not Ls: c.notes.append('TEXT_strCcpy has no loop'); return
        if o.kind == 'back':
            L = lookup(o, lkey(o)); ev = since(o, lkey(o))
            inner = len(Ls) == 2 and L is Ls[-1]
            if not inner:
                if not any(e[0] == 'loop' and e is not L for e in ev): c.notes.append('TEXT_strCcpy is not recognised'); return
                c.ob('character copied'); M = Ls[-1]
                src = [s for loc, (q, s) in L[3].items() if q == s_]
                nb = ('call', 'TEXT_nbytes_of_char', (src[0],), 0) if src else None
                if not trips(I, o, L, '<', n): c.bad('copy:count', w, 'not the number of characters asked for is copied', condlist(o))
                if not nb or not trips(I, o, M, '>=', nb): c.bad('copy:whole', w, 'not all bytes of a character are copied', condlist(o))
                continue
            c.ob('byte copied')
            q = [(loc, s) for loc, (r, s) in L[3].items() if loc in Ls[0][3] and Ls[0][3][loc][0] == d]; p = [(loc, s) for loc, (r, s) in L[3].items() if loc in Ls[0][3] and Ls[0][3][loc][0] == s_]
            if len(q) != 1 or len(p) != 1: c.notes.append('TEXT_strCcpy is not recognised'); return
            sets = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem']
            y = [1 for loc, (r, s) in L[3].items() if loc not in (q[0][0], p[0][0]) and (eq(step(o, loc, s), C(1)) or eq(step(o, loc, s), C(-1)))]
            good = len(sets) == 1 and eq(add(flat(sets[0][1][1]), sets[0][1][2]), q[0][1]) and sets[0][2][0] == 'init' and sets[0][2][1][0] == 'elem' and eq(add(flat(sets[0][2][1][1]), sets[0][2][1][2]), p[0][1])
            good = good and all(eq(step(o, loc, s), C(1)) for loc, s in q + p) and y
            if not good: c.bad('copy:byte', w, 'a byte is not copied exactly once', condlist(o))
        elif o.kind == 'ret':
            c.ob('characters copied'); L = Ls[0]
            q = [s for loc, (r, s) in L[3].items() if r == d]
            sets = [e for e in o.events if e[0] == 'set' and e[1][0] == 'elem']
            if not q or not sets or sets[-1][2] != C(0) or not eq(add(flat(sets[-1][1][1]), sets[-1][1][2]), q[0]): c.bad('copy:end', w, 'the copy is not ended', condlist(o))
            if not trips(I, o, L, '>=', n): c.bad('copy:early', w, 'copying stops before the last character', condlist(o))
