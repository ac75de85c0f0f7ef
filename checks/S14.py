"""S14: from text to word network -- every word becomes one arc, in order; alternatives are parallel paths."""
import absint, ir
from absint import C, show, showloc, add, isnum
from util import *
from S02 import strip, param, subterms, all_terms
from S09 import lkey, lookup, since
from path import holds, decide, eq, norm
import walk, nets

X = ('v', 0, 'x', 'x')
CUR = [X]           # the variable running along the text


def ischr(t, p):
    """t is the character at place p"""
    return isinstance(t, tuple) and t[0] == 'init' and t[1][0] == 'elem' and strip(add(t[1][1], t[1][2])) == strip(p)


def chars(o, p):
    """condition terms on the character at place p: (term, truth)"""
    for cc, tv, *_ in o.conds:
        if any(ischr(t, p) for t in subterms(cc)): yield cc, tv


def ischar(o, p, ch):
    """True/False/None: the character at p is ch"""
    known = None
    for cc, tv in chars(o, p):
        if cc[0] == 'cmp' and ischr(cc[2], p) and isnum(cc[3]) or cc[0] == 'cmp' and ischr(cc[3], p) and isnum(cc[2]):
            v = cc[3][1] if isnum(cc[3]) else cc[2][1]
            op = cc[1] if tv else {'==': '!=', '!=': '=='}.get(cc[1])
            if op == '==': return v == ch
            if op == '!=' and v == ch: known = False
        elif ischr(cc, p) and ch == 0: return not tv
    return known


def space(o, p, I=None):
    """True/False/None: the character at p is white space"""
    r = None
    for c_ in (0, 47, 123, 125):
        if ischar(o, p, c_) is True: return False
    for cc, tv, *_ in o.conds:
        if cc[0] == 'cmp' and cc[2][:2] == ('call', 'size') and cc[3] == C(2) and strip(cc[2][2][0]) == strip(p):
            if (cc[1] == '==') == tv: return False
        ts = [t for t in subterms(cc) if t[0] == 'op' and t[1] == '&' and any(ischr(u, p) for u in subterms(t))]
        for t in ts:
            m = next((q for q in t[2:4] if isnum(q)), None)
            if m is None: continue
            set_ = tv if cc == t else (cc[1] == '!=') == tv if cc[0] == 'cmp' and cc[3] == C(0) else None
            if set_ is None: continue
            if m == C(128) and set_: return False
            if m == C(8192): r = bool(set_)
        if cc[0] == 'call' and cc[1] == 'isspace' and ischr(cc[2][0], p): r = bool(tv)
        if cc[0] == 'cmp' and cc[2][:2] == ('call', 'isspace') and ischr(cc[2][2][0], p) and cc[3] == C(0): r = (cc[1] == '!=') == tv
    return r


def size(o, p):
    return next((t for t in all_terms(o) if t[:2] == ('call', 'size') and strip(t[2][0]) == strip(p)), None)


def scanner(c, prog, name, alt):
    """find_next_TEXT_token (alt False) / find_next_TEXT_alternation (alt True)"""
    fn = prog.get(name)
    if fn is None: c.notes.append('%s is gone' % name); return
    c.fn(fn)
    T = {'TEXT_nbytes_of_char': pure('size'), 'fprintf': ignore, 'printf': ignore, '__ctype_b_loc': pure('ctype'), 'isspace': pure('isspace')}
    I = Rec(prog, T, None, maxpaths=20000)
    st = I.start(fn); st.env[('g', 'db')] = C(0)
    P = [('v', 1, p['id'], p['n']) for p in fn.params]
    st.env[P[0]] = ('addr', X); st.env[X] = ('sym', '!text', ())
    tok, room = ('init', P[1], 0), ('init', P[2], 0)
    outs = I.run(st)
    CUR[0] = X
    if not any(X in lookup(o, lkey(o))[3] for o in outs if o.kind == 'back'):       # a local runs along the text
        cs = {l for o in outs for e in o.events if e[0] == 'loop' for l, (p, s_) in e[3].items() if l[0] == 'v' and p == ('sym', '!text', ())}
        if len(cs) == 1:
            CUR[0], = cs
            for o in outs:
                if o.kind == 'ret' and o.st.env.get(X) != o.st.env.get(CUR[0]): c.bad('%s:back' % name, where(fn, o.line or fn.line), 'the place reached in the text is not given back', condlist(o))
    key = lambda k: '%s:%s' % (name, k)
    backs = [o for o in outs if o.kind == 'back']
    W = lambda o: where(fn, o.conds[-1][2] if o.conds else fn.line)
    tokloc = lambda L: [l for l, (p, s) in L[3].items() if l != CUR[0] and (l == P[1] or strip(p) == strip(tok) or any(t == s for t in [s]) and False)]
    stored = lambda ev: [e for e in ev if e[0] == 'set' and e[1][0] == 'elem' and not isnum(e[2])]
    inner = {}       # copying loops
    for o in backs:
        k = lkey(o); ev = since(o, k)
        if stored(ev) and not any(e[0] == 'loop' for e in ev): inner[k] = 1
    outer = {k for o in backs for k in [lkey(o)] if any(e[0] == 'loop' and (e[1], e[2]) in inner for e in since(o, k))}
    copyk = set(inner) | outer
    if not copyk:
        if any(e[0] == 'call' and e[1] in ('memcpy', 'strncpy', 'memmove', 'strlcpy', 'TEXT_strBcpy') for o in outs for e in o.events): c.notes.append('%s: the copying is not understood' % name)
        else: c.bad(key('never'), where(fn, fn.line), 'no token is ever read')
        return
    # the loops by which the token is built, from outside: those not inside another one of them
    tops = copyk - {k for k in inner if any(any(e[0] == 'loop' and (e[1], e[2]) == k for e in since(o, k2)) for o in backs for k2 in [lkey(o)] if k2 != k and k2 in copyk)}
    for o in backs:
        k = lkey(o); L = lookup(o, k); ev = since(o, k); w = W(o)
        if CUR[0] not in L[3]:
            if not L[3]: c.bad(key('stuck'), w, 'a loop changes nothing and never ends', condlist(o))
            else: c.notes.append('%s: a loop that does not move along the text' % name)
            continue
        p0, xs = L[3][CUR[0]]; xe = o.st.env.get(CUR[0], xs); dx = add(xe, xs, -1)
        c.ob('%s: step of a loop' % name)
        if k not in copyk:
            ok = space(o, xs) is True or alt and ischar(o, xs, 47) is True
            if not ok: c.bad(key('skip'), w, 'a character that is %s is skipped' % ('neither white space nor a slash' if alt else 'not white space'), condlist(o))
            if not (dx == C(1) or dx[:2] == ('call', 'size') and strip(dx[2][0]) == strip(xs)): c.bad(key('skipstep'), w, 'skipping moves by %s' % show(dx), condlist(o))
            if not eq(p0, ('sym', '!text', ())): c.bad(key('start'), w, 'skipping starts at %s' % show(p0), condlist(o))
            continue
        tl = [l for l, (p, s) in L[3].items() if l != CUR[0] and any(e[1][1] == s or strip(add(e[1][1], s, -1)) == C(0) or isnum(add(add(e[1][1], e[1][2]), s, -1)) for e in stored(ev))]
        if k in inner and not any(e[0] == 'loop' for e in ev):
            S = stored(ev)
            if not tl: c.bad(key('over'), w, 'the bytes of a token are written to the same place', condlist(o)); continue
            ts = L[3][tl[0]][1]; dt = add(o.st.env.get(tl[0], ts), ts, -1)
            n = len(S)
            for j, e in enumerate(S):
                if add(add(e[1][1], e[1][2]), ts, -1) != C(j): c.bad(key('place'), where(fn, e[3]), 'a byte of the token is written to %s' % showloc(e[1]), condlist(o))
                src = e[2]
                if not (src[0] == 'init' and src[1][0] == 'elem' and add(add(src[1][1], src[1][2]), xs, -1) == C(j)): c.bad(key('byte'), where(fn, e[3]), 'a byte of the token is %s, not that of the text' % show(src), condlist(o))
            if dt != C(n) or dx != C(n): c.bad(key('move'), w, '%d bytes are copied, the text moves by %s and the token by %s' % (n, show(dx), show(dt)), condlist(o))
            # room: a counter of the bytes copied is below the room given
            cn = [(l, s) for l, (p, s) in L[3].items() if l not in (CUR[0], tl[0]) and add(o.st.env.get(l, s), s, -1) == C(n) and holds(o, '<', o.st.env[l], room) is not None]
            if not cn: c.bad(key('room'), w, 'the room for the token is not considered', condlist(o))
            for l, s in cn:
                if holds(o, '<', o.st.env[l], room) is not True: c.bad(key('room'), w, 'a byte and the end of the token may not fit into the room given', condlist(o))
            if k not in tops:
                up = [e for e in o.events if e[0] == 'loop' and (e[1], e[2]) in tops]
                hx = up[-1][3][CUR[0]][1] if up and CUR[0] in up[-1][3] else None
                sz = size(o, hx) if hx is not None else None
                q = walk.Step(o, L)
                if sz is None or not any(strip(u) == strip(sz) for u, l in q.limits()): c.bad(key('char'), w, 'not all bytes of one character are copied', condlist(o))
                if hx is not None and not eq(p0, hx): c.bad(key('copystart'), w, 'a character is copied from %s on' % show(p0), condlist(o))
        if k in tops:
            if not stored(ev) and not any(e[0] == 'loop' and (e[1], e[2]) in inner for e in ev): c.bad(key('dropped'), w, 'a character of the token is left out', condlist(o))
            depth_(c, o, L, k, key, w, alt, room, ev, inner)
            d = depth(L, o, ev)
            # going on
            if ischar(o, xe, 0) is not False: c.bad(key('past'), w, 'the token can go on past the end of the text', condlist(o))
            if alt:
                deep = None if d is None else holds(o, '>', d[1], C(0))
                for ch in (47, 125):
                    if ischar(o, xe, ch) is not False and deep is not True: c.bad(key('ends'), w, 'an alternative goes on past %r outside of inner alternations' % chr(ch), condlist(o))
            elif opened(o):
                deep = None if d is None else holds(o, '>', d[1], C(0))
                if deep is not True: c.bad(key('ends'), w, 'an alternation goes on although its braces are closed', condlist(o))
            elif space(o, xe) is not False: c.bad(key('ends'), w, 'a word goes on over white space', condlist(o))
    # results
    for o in outs:
        if o.kind != 'ret': continue
        c.ob('%s: result' % name); w = where(fn, o.line or fn.line)
        v = o.value; xe = o.st.env.get(CUR[0])
        top = [e for e in o.events if e[0] == 'loop' and (e[1], e[2]) in tops]
        skip = [e for e in o.events if e[0] == 'loop' and (e[1], e[2]) not in copyk]
        x0 = next((e[3][CUR[0]][1] for e in reversed(skip) if CUR[0] in e[3]), ('sym', '!text', ()))
        if not isnum(v): c.notes.append('%s: returns %s' % (name, show(v))); continue
        if not top:
            if v != C(0): c.bad(key('empty'), w, 'a token is reported although nothing was copied', condlist(o))
            elif ischar(o, x0, 0) is not True: c.bad(key('missed'), w, 'no token is found although the text is not used up', condlist(o))
            z = [e for e in o.events if e[0] == 'set' and e[1][0] == 'elem' and e[2] == C(0) and eq(add(e[1][1], e[1][2]), tok)]
            if v == C(0) and not z: c.bad(key('stale'), w, 'without a token its space is left as it was', condlist(o))
            continue
        L = top[-1]; ev = since(o, (L[1], L[2])); d = depth(L, o, ev)
        if not eq(L[3][CUR[0]][0], x0): c.bad(key('first'), w, 'the token begins at %s' % show(L[3][CUR[0]][0]), condlist(o))
        if ischar(o, x0, 0) is not False: c.bad(key('atend'), w, 'a token is read although the text may be used up', condlist(o))
        if alt and ischar(o, x0, 47) is not False: c.bad(key('slash'), w, 'an alternative can begin with a slash', condlist(o))
        if not alt and not opened(o) and ischar(o, x0, 123) is not False: c.bad(key('brace'), w, 'an alternation is read as a word', condlist(o))
        if space(o, x0) is not False: c.bad(key('lead'), w, 'the token can begin with white space', condlist(o))
        full = any(holds(o, '>=', t, room) is True for t in all_terms(o) if t[0] in ('sym', 'aff') and holds(o, '>=', t, room) is True) or any(cc[0] == 'cmp' and any(strip(x) == strip(room) for x in subterms(cc)) and holds(o, '<', cc[2], cc[3]) is (not tv if cc[1] == '<' else None) for cc, tv, *_ in [])
        full = full or any(cc[0] == 'cmp' and strip(room) in [strip(x) for x in cc[2:4]] and holds(o, '<', *( (cc[2], cc[3]) if strip(cc[3]) == strip(room) else (cc[3], cc[2]))) is False for cc, tv, *_ in o.conds)
        deep = None if d is None else holds(o, '>', d[1], C(0))
        if v == C(0):
            if full: continue
            if not alt and opened(o) and deep is True: continue
            c.bad(key('lost'), w, 'a token that was read is not reported', condlist(o)); continue
        if full: c.bad(key('cut'), w, 'a token that does not fit is reported as complete', condlist(o)); continue
        end = ischar(o, xe, 0) is True
        if alt:
            if not end and not ((ischar(o, xe, 47) is True or ischar(o, xe, 125) is True) and deep is False): c.bad(key('early'), w, 'an alternative ends before its slash or closing brace', condlist(o))
        elif opened(o):
            if deep is not False: c.bad(key('early'), w, 'an alternation is reported although its braces are not closed', condlist(o))
        elif not end and space(o, xe) is not True: c.bad(key('early'), w, 'a word ends before white space', condlist(o))
        z = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem' and e[2] == C(0)]
        tl = [l for l, (p, s) in L[3].items() if l != CUR[0] and strip(p) == strip(tok)]
        te = [o.st.env.get(l) for l in tl]
        if not any(eq(add(e[1][1], e[1][2]), t) for e in z for t in te if t is not None): c.bad(key('close'), w, 'the token is not closed behind its last byte', condlist(o))
        if not tl: c.notes.append('%s: the place the token is written to is not recognised' % name)


def opened(o):
    """the token on this path is an alternation: some text place before the copying is known to hold an opening brace"""
    L = next((e for e in o.events if e[0] == 'loop' and 0), None)
    ps = []
    first = ('sym', '!text', ())
    for e in o.events:
        if e[0] == 'loop' and CUR[0] in e[3]:
            ps.append(e[3][CUR[0]][0])
    return any(ischar(o, p, 123) is True for p in ps + [first])


def depth(L, o, ev):
    """(at the head, now) of the count of open braces: starts at zero, and some step changes it by one"""
    for l, (p, s) in L[3].items():
        if l == CUR[0] or p != C(0): continue
        v = o.st.env.get(l, s); d = add(v, s, -1)
        if isnum(d) and any(cc[0] == 'cmp' and cc[3] == C(0) and (s in subterms(cc[2])) for cc, *_ in o.conds): return s, v, l
    return None


def depth_(c, o, L, k, key, w, alt, room, ev, inner):
    d = depth(L, o, ev)
    if d is None: return
    s, v, l = d; xs = L[3][CUR[0]][1]
    op, cl = ischar(o, xs, 123), ischar(o, xs, 125)
    m = add(v, s, -1)
    sz = size(o, xs)
    if op is None and cl is None and sz is not None and holds(o, '>', sz, C(1)) is True: op = cl = False
    want = 1 if op is True else -1 if cl is True else 0 if op is False and cl is False else None
    if want is None or m != C(want): c.bad(key('depth'), w, 'reading %s changes the count of open braces by %s' % ('an opening brace' if op else 'a closing brace' if cl else 'another character', show(m)), condlist(o))




def hand(nm, ret=None):
    def h(s, st, a, node, line, caller):
        s.event(st, ('call', nm, tuple(a), line, caller))
        if ret is not None: return ret
        return ('sym', '!new%s%d' % (nm, line), tuple(a[:1]) if nm in ('word',) else ())
    return h


def okh(nm):
    def h(s, st, a, node, line, caller):
        s.event(st, ('call', nm, tuple(a), line, caller)); return ('sym', 'ok%s%d' % (nm, line), ())
    return h


def tokh(s, st, a, node, line, caller):
    s.event(st, ('call', 'token', tuple(a), line, caller))
    if a[0][0] != 'addr': raise absint.AnalysisError('the place of the text is %s' % show(a[0]))
    l = a[0][1]; old = s.read(st, l)
    s.write(st, l, ('sym', '!rest', (old,)))
    return ('sym', 'got', (old,))


def createh(s, st, a, node, line, caller):
    s.event(st, ('call', 'create', tuple(a), line, caller)); return ('sym', 'created', (a[0],))


PURE = {n: pure(n[5:]) for n in ('TEXT_strchr', 'TEXT_strrchr', 'TEXT_strdup', 'TEXT_strcasecmp', 'TEXT_strCcasecmp', 'TEXT_strcmp', 'TEXT_strlen')}


def table(*without):
    T = {'fprintf': ignore, 'printf': ignore, 'sprintf': ignore, 'snprintf': ignore, 'free': ignore, 'TEXT_free': ignore,
         'find_next_TEXT_token': tokh, 'find_next_TEXT_alternation': tokh, 'Network_init': hand('init'), 'new_WORD_parseText': hand('word'), 'new_WORD': hand('raw'),
         'Network_add_arc_to_tail': okh('tail'), 'Network_add_arc_to_head': okh('head'), 'Network_add_net_to_tail': okh('ntail'), 'Network_add_net_to_head': okh('nhead'),
         'Network_traverse': hand('traverse', C(0)), 'Network_merge_network': okh('merge'), 'Network_delete_arc': okh('delete'), 'Network_create_from_TEXT': createh, 'strcmp': pure('strcmp')}
    T.update(PURE)
    for w in without: T.pop(w, None)
    return T


def calls(ev, *names):
    return [e for e in ev if e[0] == 'call' and e[1] in names]


def known(o, t):
    """truth of the term t on the path"""
    for cc, tv, *_ in reversed(o.conds):
        if cc == t: return bool(tv)
        if cc[0] == 'cmp' and cc[2] == t and cc[3] == C(0) and cc[1] in ('!=', '=='): return bool(tv) == (cc[1] == '!=')
    return None


def positive(o, t):
    r = holds(o, '>', t, C(0))
    if r is None and known(o, t) is False: r = False
    if r is None and known(o, t) is True: r = True
    return r


def room_of(prog, fn, b):
    """bytes of the local array b"""
    import re
    if not (isinstance(b, tuple) and b[0] == 'undef'): return None
    for t in ctypes(prog, fn, b[1]) or []:
        m = re.search(r'\[(\d+)\]', str(t))
        if m: return int(m.group(1))
    return None


def cursor(o, k, ev):
    """(token event, text local, its value before) of the one token read in these events"""
    T = calls(ev, 'token')
    if len(T) != 1: return None
    return T[0], T[0][2][0][1]


def start(prog, fn, T, ind=None):
    I = Rec(prog, T, ind or hand('indirect', C(0)), maxpaths=20000)
    st = I.start(fn)
    for g in ('db', 'db_level'): st.env[('g', g)] = C(0)
    return I, st


def tokens(c, prog, fn, name, key, outs, what):
    """the loop reading all tokens of a text: (backs, loc, key) or None"""
    rd = [o for o in outs if o.kind == 'back' and calls(since(o, lkey(o)), 'token')]
    if not rd:
        if not any(calls(o.events, 'token') for o in outs): c.bad(key('none'), where(fn, fn.line), 'the text is never read'); return None
        c.bad(key('once'), where(fn, fn.line), 'only the first %s of the text is read' % what); return None
    k = lkey(rd[0])
    for o in rd:
        ev = since(o, k); T = calls(ev, 'token'); L = lookup(o, k)
        c.ob('%s: a step along the text' % name)
        w = where(fn, T[0][3])
        if len(T) != 1: c.notes.append('%s: more than one token read in a step' % name); continue
        a = T[0][2]; l = a[0][1]
        d = room_of(prog, fn, a[1])
        if isnum(a[2]) and d is not None and a[2][1] > d: c.bad(key('room'), w, 'a token of up to %d bytes is read into %d bytes' % (a[2][1], d), condlist(o))
        if isnum(a[2]) and a[2][1] < 10000: c.notes.append('%s: tokens are limited to %d bytes' % (name, a[2][1]))
        if l in L[3] and strip(o.st.env.get(l)) != strip(('sym', '!rest', (L[3][l][1],))): c.bad(key('skips'), w, 'text is skipped between two tokens', condlist(o))
    return rd, k


def endread(o, k, T):
    """the text is known to be used up when the loop k is left"""
    L = lookup(o, k)
    l = T[2][0][1]
    return L is not None and l in L[3] and ischar(o, L[3][l][1], 0) is True


def words(c, prog):
    name = 'Network_create_from_TEXT'; fn = prog.get(name)
    if fn is None: c.notes.append('%s is gone' % name); return
    c.fn(fn); key = lambda k: '%s:%s' % (name, k)
    I, st = start(prog, fn, table(name)); outs = I.run(st)
    P = [param(fn, 1, i) for i in range(len(fn.params))]
    r = tokens(c, prog, fn, name, key, outs, 'word')
    if r is None: return
    rd, k = r; T0 = calls(since(rd[0], k), 'token')[0]; buf = T0[2][1]; l = T0[2][0][1]
    L = lookup(rd[0], k)
    if l in L[3] and strip(L[3][l][0]) != strip(P[0]): c.bad(key('start'), where(fn, T0[3]), 'the text is read from %s on' % show(L[3][l][0]), [])
    for o in outs:
        if o.kind not in ('back', 'ret'): continue
        ini = calls(o.events, 'init')
        w = where(fn, o.line or (o.conds[-1][2] if o.conds else fn.line)); c.ob('%s: a path' % name)
        if len(ini) != 1: c.bad(key('init'), w, '%d networks are begun' % len(ini), condlist(o)); continue
        net = ('sym', '!newinit%d' % ini[0][3], ())
        if [strip(a) for a in ini[0][2][:8]] != [strip(p) for p in P[2:10]]: c.bad(key('funcs'), where(fn, ini[0][3]), 'the network does not get the functions given', condlist(o))
        ev = since(o, k) if lookup(o, k) is not None else o.events
        T = calls(ev, 'token'); W = calls(ev, 'word', 'raw'); A = calls(ev, 'tail', 'head')
        got = known(o, ('sym', 'got', (L[3][l][1],))) if T and l in L[3] else None
        for e in W:
            if e[1] != 'word': c.bad(key('raw'), where(fn, e[3]), 'the word is not taken apart into its tags', condlist(o))
            if strip(e[2][0]) != strip(buf): c.bad(key('word'), where(fn, e[3]), 'the word is made from %s' % show(e[2][0]), condlist(o))
            if e[1] == 'word' and (e[2][5] != C(0) or e[2][6] != C(0)): c.bad(key('flags'), where(fn, e[3]), 'every word is marked as fragment or optional', condlist(o))
        for e in A:
            if e[1] != 'tail': c.bad(key('order'), where(fn, e[3]), 'a word is not added at the end of the network', condlist(o))
            if e[2][0] != net or not any(e[2][1][0] == 'sym' and e[2][1][1] == '!new%s%d' % (x[1], x[3]) for x in W): c.bad(key('arc'), where(fn, e[3]), 'what is added is not the word read', condlist(o))
        if o.kind == 'back' and lkey(o) == k:
            if got is True and (len(W) != 1 or len(A) != 1): c.bad(key('count'), w, 'a word read is added %d times' % len(A), condlist(o))
            if got is False and (W or A): c.bad(key('phantom'), w, 'a word is added although none was read', condlist(o))
            if got is None and T: c.bad(key('unasked'), w, 'it is not asked whether a word was read', condlist(o))
            if got is False and ischar(o, buf, 0) is not True: c.bad(key('lost'), w, 'text that is not a complete word is dropped without an error', condlist(o))
            for e in A:
                if positive(o, ('sym', 'oktail%d' % e[3], ())) is not False: c.bad(key('failed'), w, 'a word that could not be added is passed over', condlist(o))
        elif o.kind == 'ret':
            if o.value == net:
                if not endread(o, k, T0) or T: c.bad(key('early'), w, 'the network is returned before the text is used up', condlist(o))
                tr = [e for e in calls(o.events, 'traverse') if e[2][0] == net and e[2][3] == ('fn', 'expand_alternates')]
                if len(tr) != 1: c.bad(key('expand'), w, 'the alternations of the text are expanded %d times' % len(tr), condlist(o))
            elif o.value == C(0):
                bad = any(positive(o, ('sym', 'oktail%d' % e[3], ())) is True for e in A) or got is False and ischar(o, buf, 0) is False
                if not bad: c.bad(key('refused'), w, 'no network is made of a text although nothing is wrong with it', condlist(o))
            else: c.bad(key('other'), w, 'returns %s' % show(o.value), condlist(o))


def alternates(c, prog):
    name = 'expand_alternates'; fn = prog.get(name)
    if fn is None: c.notes.append('%s is gone' % name); return
    c.fn(fn); key = lambda k: '%s:%s' % (name, k)
    I, st = start(prog, fn, table(name)); outs = I.run(st)
    arc = param(fn, 1, 0)
    r = tokens(c, prog, fn, name, key, outs, 'alternative')
    if r is None: return
    rd, k = r; T0 = calls(since(rd[0], k), 'token')[0]; buf = T0[2][1]; l = T0[2][0][1]
    L0 = lookup(rd[0], k); src = L0[3][l][0] if l in L0[3] else None
    has = next((t for o in outs for t in all_terms(o) if t[:2] == ('call', 'strchr') and t[2][1] == C(123)), None)
    if has is None: c.notes.append('%s: how alternations are told from words is not recognised' % name); return
    value = has[2][0]
    want = ('call', 'strdup', (add(value, C(1)),))
    if src is None or strip(src)[:2] != strip(want)[:2] or strip(add(src[2][0], value, -1)) != C(1): c.bad(key('text'), where(fn, T0[3]), 'the alternatives are read from %s, not behind the opening brace' % show(src), [])
    fields = ['print', 'equal', 'destroy', 'is_null_alt', 'is_opt_del', 'copy', 'make_empty', 'use_count']
    keep = None           # local holding the network of the first alternative
    for o in outs:
        if o.kind == 'back' and lkey(o) == k:
            for lo, (p, s) in lookup(o, k)[3].items():
                v = o.st.env.get(lo, s)
                for m in calls(since(o, k), 'merge'):
                    if any(strip(t) == strip(s) for t in subterms(m[2][0])): keep = lo
    for o in outs:
        if o.kind not in ('back', 'ret', 'stop'): continue
        w = where(fn, o.line or (o.conds[-1][2] if o.conds else fn.line)); c.ob('%s: a path' % name)
        is_alt = known(o, has)
        L = lookup(o, k)
        if L is None:
            if o.kind == 'ret':
                if is_alt is not False: c.bad(key('skipped'), w, 'an alternation is not expanded', condlist(o))
                if [e for e in o.events if e[0] == 'call' and e[1] not in ('traverse',)]: c.notes.append('%s: a word without alternation is changed' % name)
            continue
        if is_alt is not True: c.bad(key('plain'), w, 'a word without alternation is expanded', condlist(o))
        ev = since(o, k)
        T, M, N, D = calls(ev, 'token'), calls(ev, 'merge'), calls(ev, 'create'), calls(ev, 'delete')
        got = known(o, ('sym', 'got', (L[3][l][1],))) if T else None
        for e in N:
            if strip(e[2][0]) != strip(buf): c.bad(key('alt'), where(fn, e[3]), 'the network of an alternative is made from %s' % show(e[2][0]), condlist(o))
            for f, a in zip(fields, e[2][2:10]):
                if not any(t[0] == 'fld' and t[2] == f for t in locs(a)): c.bad(key('funcs'), where(fn, e[3]), 'the words of an alternative get %s for %s' % (show(a), f), condlist(o))
        # cut at the last closing brace
        cut = [e for e in o.events if e[0] == 'set' and e[1][0] == 'elem' and e[2] == C(0)]
        rr = next((t for t in all_terms(o) if t[:2] == ('call', 'strrchr') and t[2][1] == C(125)), None)
        if rr is None: c.notes.append('%s: the closing brace is not looked for with strrchr' % name)
        elif known(o, rr) is not False and not any(strip(add(e[1][1], e[1][2])) == strip(rr) for e in cut): c.bad(key('close'), w, 'the closing brace is left in the text of the last alternative', condlist(o))
        sub = ('sym', 'created', (N[0][2][0],)) if N else None
        if o.kind == 'back' and lkey(o) == k:
            if got is True:
                if len(N) != 1: c.bad(key('made'), w, 'an alternative is read and %d networks made of it' % len(N), condlist(o)); continue
                if known(o, sub) is not True: c.bad(key('null'), w, 'an alternative of which no network could be made is used', condlist(o))
                stop = next((t for t in all_terms(o) if t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == 'stop_node' and strip(t[1][1]) == strip(sub)), None)
                if stop is None or known(o, stop) is not True: c.bad(key('void'), w, 'an alternative without a word is used', condlist(o))
                kv = o.st.env.get(keep) if keep is not None else None
                ks = L[3][keep][1] if keep in L[3] else None
                if not M:
                    if keep is None or kv != sub: c.bad(key('drop'), w, 'an alternative is neither kept nor joined to the others', condlist(o))
                    # only for the first one: some flag that is set at the start and not later
                    if not firstonly(o, outs, L, k, keep): c.bad(key('replace'), w, 'a later alternative replaces the ones before', condlist(o))
                elif len(M) == 1:
                    a = M[0][2]
                    f = [t[1][2] if t[0] == 'init' and t[1][0] == 'fld' else None for t in a[:2]]; b = [t[1][1] if t[0] == 'init' and t[1][0] == 'fld' else None for t in a[:2]]
                    if f != ['start_node', 'stop_node'] or b[0] != b[1] or strip(b[0]) != strip(ks): c.bad(key('merge'), where(fn, M[0][3]), 'an alternative is joined between %s and %s' % (show(a[0]), show(a[1])), condlist(o))
                    if a[2] != sub: c.bad(key('merged'), where(fn, M[0][3]), 'what is joined is %s, not the alternative read' % show(a[2]), condlist(o))
                    if kv is not None and kv != ks: c.bad(key('replace'), w, 'the alternatives joined so far are lost', condlist(o))
                    if not (ks is not None and known(o, ks) is True or any(isnum(p) and known(o, s) is not None and known(o, s) != bool(p[1]) for q, (p, s) in L[3].items() if q != keep)): c.bad(key('mergefirst'), where(fn, M[0][3]), 'the first alternative is joined to alternatives that do not exist', condlist(o))
                else: c.bad(key('twice'), w, 'an alternative is joined %d times' % len(M), condlist(o))
            elif got is False and (N or M): c.bad(key('phantom'), w, 'an alternative is made although none was read', condlist(o))
            elif got is None: c.bad(key('unasked'), w, 'it is not asked whether an alternative was read', condlist(o))
            if D: c.bad(key('delete'), w, 'the arc of the alternation is deleted before all alternatives are read', condlist(o))
        elif o.kind == 'ret':
            ks = L[3][keep][1] if keep in L[3] else None
            if not endread(o, k, T0) or T: c.bad(key('early'), w, 'not all alternatives are read', condlist(o))
            last = [m for m in M if m[2][2] == ks]
            if len(M) != 1 or len(last) != 1: c.bad(key('insert'), w, 'the alternatives are put into the network %d times' % len(last), condlist(o)); continue
            a = last[0][2]
            f = [t[1][2] if t[0] == 'init' and t[1][0] == 'fld' and t[1][1] == arc else None for t in a[:2]]
            if f != ['from_node', 'to_node']: c.bad(key('between'), where(fn, last[0][3]), 'the alternatives are put between %s and %s, not where the alternation was' % (show(a[0]), show(a[1])), condlist(o))
            if ks is not None and known(o, ks) is not True: c.bad(key('none'), w, 'an alternation without alternatives is used', condlist(o))
            if len(D) != 1 or D[0][2][0] != arc or ev.index(D[0]) < ev.index(last[0]): c.bad(key('remove'), w, 'the alternation itself is not taken out of the network afterwards', condlist(o))
        elif o.kind == 'stop':
            ks = L[3][keep][1] if keep in L[3] else None
            bad = sub is not None and (known(o, sub) is False or any(known(o, t) is False for t in all_terms(o) if t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == 'stop_node' and strip(t[1][1]) == strip(sub))) or not N and ks is not None and known(o, ks) is False
            if not bad: c.bad(key('stop'), w, 'the program stops although the alternation is well formed', condlist(o))


def locs(t):
    """locations mentioned in a term"""
    out = []
    def go(x):
        if isinstance(x, tuple):
            if x and x[0] in ('fld', 'elem', 'g', 'v') and len(x) >= 2: out.append(x)
            for y in x: go(y)
    go(t); return out


def firstonly(o, outs, L, k, keep):
    """the condition under which this path keeps an alternative as the first holds at the start of the loop only"""
    # the kept network itself is known to be null, and it is null at the start
    if keep is not None and keep in L[3]:
        p, s = L[3][keep]
        if known(o, s) is False and p == C(0): return True
    # or a flag: true at the start, made false by every step that keeps or joins
    for l, (p, s) in L[3].items():
        t = known(o, s)
        if t is None or not isnum(p) or bool(p[1]) != t: continue
        if all(isnum(q.st.env.get(l, s)) and bool(q.st.env[l][1]) != t for q in outs if q.kind == 'back' and lkey(q) == k and calls(since(q, k), 'create')) and all(l not in lookup(q, k)[3] or q.st.env.get(l) == lookup(q, k)[3][l][1] or calls(since(q, k), 'create') for q in outs if q.kind == 'back' and lkey(q) == k): return True
    return False


def item(t, f, wt, i):
    """t is field f of the word with index i of the token list"""
    if not (isinstance(t, tuple) and t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == f): return False
    b = t[1][1]
    if not (b[0] == 'addr' and b[1][0] == 'elem'): return isinstance(b, tuple) and strip(b) == strip(add(b, C(0))) and False
    e = b[1]
    base = e[1]
    return base[0] == 'init' and base[1][0] == 'fld' and base[1][2] == 'word' and strip(base[1][1]) == strip(wt) and strip(e[2]) == strip(i)


def fieldof(o, f, wt, i):
    """truth of a flag field of word i on the path"""
    for t in all_terms(o):
        if item(t, f, wt, i):
            v = known(o, t)
            if v is not None: return v
    return None


def tag(o, text, wt, i):
    """True/False/None: word i is (for text '<ALT': begins with) the mark"""
    for t in all_terms(o):
        if t[0] == 'call' and t[1] in ('strcasecmp', 'strCcasecmp', 'strcmp') and any(a == ('c', text) for a in t[2][:2]) and any(item(a, 'sp', wt, i) for a in t[2][:2]):
            if text == '<ALT' and (t[1] != 'strCcasecmp' or t[2][2] != C(4)): continue
            v = known(o, t)
            if v is not None: return not v
    return None


def ctm(c, prog):
    name = 'Network_create_from_WTOKE'; fn = prog.get(name)
    if fn is None: c.notes.append('%s is gone' % name); return
    c.fn(fn); key = lambda k: '%s:%s' % (name, k)
    I, st = start(prog, fn, table(name)); outs = I.run(st)
    pn = [p['n'] for p in fn.params]; P = [param(fn, 1, i) for i in range(len(pn))]
    wt, first, last, ltr = P[0], P[1], P[2], P[-1]
    backs = [o for o in outs if o.kind == 'back']
    cand = {(lkey(o), l) for o in backs for l, (p, s) in lookup(o, lkey(o))[3].items() if strip(p) == strip(first)}
    if len({k for k, l in cand}) != 1 or len({l for k, l in cand}) != 1: c.notes.append('%s: the loop over the words is not recognised' % name); return
    (K, i), = cand
    n = ('fld', wt, 'n')
    isn = lambda t: t[0] == 'init' and t[1] == n
    def inside(o, x):
        nt = next((t for t in all_terms(o) if isn(t)), None)
        return nt is not None and holds(o, '<=', x, nt) is True and holds(o, '<=', x, last) is True
    def outside(o, x):
        nt = next((t for t in all_terms(o) if isn(t)), None)
        return nt is not None and holds(o, '<=', x, nt) is False or holds(o, '<=', x, last) is False
    def made(o, e, x, where_):
        a = e[2]; w = where(fn, e[3])
        if e[1] != 'word': c.bad(key('raw'), w, 'a word is not taken apart into its tags', condlist(o)); return
        if not item(a[0], 'sp', wt, x): c.bad(key('word'), w, 'the word is made from %s' % show(a[0]), condlist(o))
        if not item(a[2], 't1', wt, x): c.bad(key('begin'), w, 'the word begins at %s' % show(a[2]), condlist(o))
        d = add(a[3], a[2], -1)
        if not item(d, 'dur', wt, x): c.bad(key('end'), w, 'the word ends at %s' % show(a[3]), condlist(o))
        hc = next((known(o, t) for t in all_terms(o) if t[0] == 'init' and t[1] == ('fld', wt, 'has_conf')), None)
        okc = item(a[4], 'confidence', wt, x) if hc is True else a[4] == C(-1) if hc is False else a[4][0] == 'ite'
        if not okc: c.bad(key('conf'), w, 'a word gets %s for its confidence' % show(a[4]), condlist(o))
        if a[5] != C(0) or a[6] != C(0): c.bad(key('flags'), w, 'every word is marked as fragment or optional', condlist(o))
    def side(o, e, net, W, tailn, headn):
        """the word or network is added on the side of the direction"""
        w = where(fn, e[3])
        d = known(o, ltr)
        if d is not None and e[1] != (tailn if d else headn): c.bad(key('side'), w, 'the word is added at the wrong end of the network', condlist(o))
        if d is None: c.bad(key('side'), w, 'the direction is not considered', condlist(o))
        if net is not None and e[2][0] != net: c.bad(key('net'), w, 'the word is added to another network', condlist(o))
    isword = lambda e, W: any(e[2][1][0] == 'sym' and e[2][1][1] == '!new%s%d' % (x[1], x[3]) for x in W)
    def good(o, A):
        for e in A:
            if positive(o, ('sym', 'ok%s%d' % (e[1], e[3]), ())) is not False: c.bad(key('failed'), where(fn, e[3]), 'a failure to add is passed over', condlist(o))
    inner = {lkey(o) for o in backs} - {K}
    kinds = {}
    for o in backs:
        k = lkey(o)
        if k == K: continue
        ev = since(o, k)
        t = 'words' if calls(ev, 'word') and not calls(ev, 'init') else 'alts' if calls(ev, 'init', 'merge') else 'skip'
        kinds.setdefault(k, set()).add(t)
        if t == 'words':
            for l, (p, s) in lookup(o, k)[3].items(): kinds.setdefault(('step', k, l), set()).add(add(o.st.env.get(l, s), s, -1))
    for o in backs:
        k = lkey(o); L = lookup(o, k); ev = since(o, k); w = where(fn, o.conds[-1][2]); c.ob('%s: a step' % name)
        if i not in L[3]: c.bad(key('stuck'), w, 'a loop does not move along the words', condlist(o)); continue
        x0, xs = L[3][i]; xe = o.st.env.get(i, xs)
        net = next(('sym', '!newinit%d' % e[3], ()) for e in o.events if e[:2] == ('call', 'init')) if calls(o.events, 'init') else None
        IL = [e for e in ev if e[0] == 'loop' and i in e[3]]
        W = calls(ev, 'word', 'raw'); A = calls(ev, 'tail', 'head', 'ntail', 'nhead')
        if k == K and not IL:
            ig, al = fieldof(o, 'ignore', wt, xs), fieldof(o, 'alternate', wt, xs)
            if xe != add(xs, C(1)): c.bad(key('step'), w, 'the loop moves by %s words' % show(add(xe, xs, -1)), condlist(o))
            if not inside(o, xs): c.bad(key('range'), w, 'a word outside of the range given is used', condlist(o))
            if ig is True:
                if W or A: c.bad(key('ignored'), w, 'a word to be ignored is added', condlist(o))
            elif ig is False and al is False:
                if len(W) != 1 or len(A) != 1 or not isword(A[0], W): c.bad(key('count'), w, 'a word is added %d times' % len(A), condlist(o)); continue
                made(o, W[0], xs, 'plain'); side(o, A[0], net, W, 'tail', 'head'); good(o, A)
            else: c.bad(key('unsorted'), w, 'a word is used without asking whether it is to be ignored or begins an alternation', condlist(o))
        elif k == K:
            y = IL[-1][3][i][1]
            if fieldof(o, 'ignore', wt, xs) is not False or fieldof(o, 'alternate', wt, xs) is not True: c.bad(key('alternate'), w, 'a word that does not begin an alternation is used as one', condlist(o))
            if not eq(IL[0][3][i][0], xs): c.bad(key('altstart'), w, 'an alternation is read from %s on' % show(IL[0][3][i][0]), condlist(o))
            if tag(o, '<ALT_END>', wt, y) is not True and not outside(o, y): c.bad(key('altend'), w, 'the alternation ends before its closing mark', condlist(o))
            if xe != add(y, C(1)): c.bad(key('altskip'), w, 'after an alternation the reading goes on %s words behind its closing mark' % show(add(add(xe, y, -1), C(1), -1)), condlist(o))
            N = [e for e in A if e[1] in ('ntail', 'nhead')]
            if len(N) != 1: c.bad(key('altcount'), w, 'the alternatives are added %d times' % len(N), condlist(o)); continue
            side(o, N[0], net, W, 'ntail', 'nhead'); good(o, N)
            onealt(o, ev, IL, w, net, c, key, fn, wt, i, isword, good, kinds, final=N[0][2][1])
        elif 'words' in kinds.get(k, ()):
            if xe != add(xs, C(1)): c.bad(key('step'), w, 'the loop moves by %s words' % show(add(xe, xs, -1)), condlist(o))
            if not inside(o, xs): c.bad(key('range'), w, 'a word outside of the range given is used', condlist(o))
            if tag(o, '<ALT', wt, xs) is not False: c.bad(key('mark'), w, 'a mark is used as a word', condlist(o))
            if len(W) != 1 or len(A) != 1 or not isword(A[0], W): c.bad(key('count'), w, 'a word is added %d times' % len(A), condlist(o)); continue
            made(o, W[0], xs, 'alt'); side(o, A[0], None, W, 'tail', 'head'); good(o, A)
            alt = calls(o.events, 'init')[-1:]
            if alt and A[0][2][0] != ('sym', '!newinit%d' % alt[0][3], ()) or A[0][2][0] == net: c.bad(key('net'), w, 'a word of an alternative is added to another network', condlist(o))
        elif 'alts' in kinds.get(k, ()):
            if not IL: c.notes.append('%s: alternatives are read without a loop' % name); continue
            y = IL[-1][3][i][1]
            if not eq(IL[0][3][i][0], xs): c.bad(key('altfirst'), w, 'an alternative is read from %s on' % show(IL[0][3][i][0]), condlist(o))
            if not inside(o, y) or tag(o, '<ALT_END>', wt, y) is not False: c.bad(key('altpast'), w, 'another alternative is read past the end of the alternation', condlist(o))
            if xe != add(y, C(1)): c.bad(key('altmark'), w, 'the reading goes on %s words behind the mark between two alternatives' % show(add(add(xe, y, -1), C(1), -1)), condlist(o))
            onealt(o, ev, IL, w, net, c, key, fn, wt, i, isword, good, kinds, final=None)
        else:
            if W or A: c.notes.append('%s: an unknown loop' % name); continue
            if tag(o, '<ALT_BEGIN>', wt, xs) is not True: c.bad(key('skips'), w, 'a word other than the mark at the beginning of an alternation is passed over', condlist(o))
            if xe != add(xs, C(1)): c.bad(key('step'), w, 'the loop moves by %s words' % show(add(xe, xs, -1)), condlist(o))
            if not inside(o, xs): c.bad(key('range'), w, 'a word outside of the range given is used', condlist(o))
    for o in outs:
        if o.kind != 'ret': continue
        c.ob('%s: result' % name); w = where(fn, o.line or fn.line)
        L = lookup(o, K)
        net = next(('sym', '!newinit%d' % e[3], ()) for e in o.events if e[:2] == ('call', 'init')) if calls(o.events, 'init') else None
        if o.value == net and net is not None:
            if L is None or not outside(o, L[3][i][1]) or any(e[0] == 'call' for e in since(o, K)): c.bad(key('early'), w, 'the network is returned before all words are read', condlist(o))
        elif o.value == C(0):
            A = calls(o.events, 'tail', 'head', 'ntail', 'nhead', 'merge')
            if not any(positive(o, ('sym', 'ok%s%d' % (e[1], e[3]), ())) is True for e in A) and not any(cc[0] == 'cmp' and cc[3] == C(0) and (cc[1] == '==') == tv and cc[2][0] == 'sym' and not cc[2][1].startswith('ok') for cc, tv, *_ in o.conds[-1:]): c.bad(key('refused'), w, 'no network is made although nothing is wrong', condlist(o))
        else: c.bad(key('other'), w, 'returns %s' % show(o.value), condlist(o))
    ini = {tuple(strip(a) for a in e[2][:8]) for o in outs for e in calls(o.events, 'init')}
    want = tuple(strip(p) for p in P[4:12])
    if ini - {want}: c.bad(key('funcs'), where(fn, fn.line), 'a network does not get the functions given')


def onealt(o, ev, IL, w, net, c, key, fn, wt, i, isword, good, kinds, final):
    """the end of one alternative: the null word if it is empty, and joining it to those before"""
    ini = calls(ev, 'init')
    if not ini: c.bad(key('altnet'), w, 'an alternative gets no network of its own', condlist(o)); return
    alt = ('sym', '!newinit%d' % ini[-1][3], ())
    wl = IL[-1]                                    # the loop over the words of the alternative
    pos = ev.index(wl)
    R = calls(ev[pos:], 'raw', 'word'); A = calls(ev[pos:], 'tail', 'head'); M = calls(ev[pos:], 'merge')
    # the count of words: a local starting at zero and stepping with each word, or the index itself
    empty = None
    for l, (p, s) in wl[3].items():
        if l == i: continue
        if p == C(0) and any(cc[0] == 'cmp' and s in subterms(cc[2]) or cc == s for cc, *_ in o.conds):
            r = holds(o, '==', s, C(0)); r = r if r is not None else (None if known(o, s) is None else not known(o, s))
            if r is not None:
                empty = r
                if any(not isnum(d) or d[1] <= 0 for d in kinds.get(('step', (wl[1], wl[2]), l), ())): c.bad(key('counter'), w, 'the count of words of an alternative does not grow with each word', condlist(o))
    if empty is None:
        r = holds(o, '==', wl[3][i][1], wl[3][i][0]); empty = r
    if empty is None:
        st_ = next((t for t in all_terms(o) if t[0] == 'init' and t[1] == ('fld', alt, 'stop_node')), None)
        if st_ is not None and known(o, st_) is not None: empty = not known(o, st_)
    if empty is True:
        if len(R) != 1 or len(A) != 1 or not isword(A[0], R) or R[0][2][0] != ('c', '@'): c.bad(key('empty'), w, 'an empty alternative does not become one null word', condlist(o))
        else:
            good(o, A)
            if A[0][2][0] != alt: c.bad(key('empty'), w, 'the null word is added to another network', condlist(o))
    elif empty is False:
        if R or A: c.bad(key('null'), w, 'an alternative with words gets another word', condlist(o))
    else: c.bad(key('emptyask'), w, 'it is not asked whether the alternative is empty', condlist(o))
    up = [e for e in o.events if e[0] == 'loop' and 'alts' in kinds.get((e[1], e[2]), ())]
    if not up: c.notes.append('Network_create_from_WTOKE: the loop over alternatives is not recognised'); return
    L = up[-1]
    keep = [l for l, (p, s) in L[3].items() if p == C(0) and (o.st.env.get(l) == alt or any(s in subterms(m[2][0]) for m in M))]
    ks = [L[3][l][1] for l in keep]
    if len(M) == 1:
        a = M[0][2]
        ok = a[2] == alt and all(t[0] == 'init' and t[1][0] == 'fld' for t in a[:2]) and [t[1][2] for t in a[:2]] == ['start_node', 'stop_node'] and a[0][1][1] == a[1][1][1] and a[0][1][1] in ks
        if not ok: c.bad(key('merge'), where(fn, M[0][3]), 'an alternative is joined between %s and %s' % (show(a[0]), show(a[1])), condlist(o))
        if final is not None and final not in ks: c.bad(key('altout'), w, 'what is added is %s, not the joined alternatives' % show(final), condlist(o))
        later = any(known(o, s) is True for s in ks) or any(isnum(p) and known(o, s) is not None and known(o, s) != bool(p[1]) for l, (p, s) in L[3].items() if l not in keep)
        if not later: c.bad(key('mergefirst'), where(fn, M[0][3]), 'the first alternative is joined to alternatives that do not exist', condlist(o))
    elif not M:
        if not any(o.st.env.get(l) == alt for l in keep) and final != alt: c.bad(key('drop'), w, 'an alternative is neither kept nor joined to the others', condlist(o))
        if final is not None and final != alt: c.bad(key('altout'), w, 'what is added is %s, not the alternative' % show(final), condlist(o))
        # only the first one may be kept as it is
        ok = any(known(o, s) is not None and isnum(p) and bool(p[1]) == known(o, s) for l, (p, s) in L[3].items())
        if not ok: c.bad(key('replace'), w, 'a later alternative replaces the ones before', condlist(o))
    else: c.bad(key('twice'), w, 'an alternative is joined %d times' % len(M), condlist(o))


# ---- linking of arcs and nodes -------------------------------------------------------------------------------
F = lambda b, f: ('fld', b, f)


def setev(s, st, loc, v, line, caller):
    s.event(st, ('set', loc, v, line, caller)); s.write(st, loc, v)


def arch(s, st, a, node, line, caller):
    r = ('sym', '!newarc%d' % line, ())
    s.event(st, ('call', 'arc', tuple(a), line, caller))
    for f, v in (('data', a[0]), ('net', C(0)), ('from_node', a[1]), ('to_node', a[2])): setev(s, st, F(r, f), v, line, caller)
    if a[3][0] == 'addr': s.write(st, a[3][1], C(0))
    return r


def nodeh(s, st, a, node, line, caller):
    r = ('sym', '!newnode%d' % line, ())
    s.event(st, ('call', 'node', tuple(a), line, caller))
    for f, x in (('in_arcs', a[2]), ('out_arcs', a[3])):
        setev(s, st, F(r, f), C(0), line, caller)
        if x != C(0): setev(s, st, F(r, f), ('call', 'list', (C(0), x)), line, caller)
    setev(s, st, F(r, 'net'), a[1], line, caller)
    setev(s, st, F(r, 'name'), a[0], line, caller)
    if a[5][0] == 'addr': s.write(st, a[5][1], C(0))
    return r


def listh(s, st, a, node, line, caller):
    s.event(st, ('call', 'addlist', tuple(a), line, caller))
    if a[2][0] == 'addr': s.write(st, a[2][1], C(0))
    return ('call', 'list', (a[0], a[1]))


def delh(s, st, a, node, line, caller):
    s.event(st, ('call', 'dellist', tuple(a), line, caller))
    if a[2][0] == 'addr': s.write(st, a[2][1], C(0))
    old = s.read(st, a[0][1]) if a[0][0] == 'addr' else a[0]
    v = ('sym', 'without', (old, a[1]))
    if a[0][0] == 'addr': s.write(st, a[0][1], v)
    return v


def indh(s, st, a, node, line, caller):
    s.event(st, ('call', 'indirect', (node.get('fv') if isinstance(node, dict) else None,) + tuple(a), line, caller)); return C(0)


def links():
    T = table('Network_add_arc_to_tail', 'Network_add_arc_to_head')
    T.update({'make_arc': arch, 'make_node': nodeh, 'add_to_arc_list': listh, 'del_from_arc_list': delh, 'kill_node2': hand('killnode', C(0)), 'kill_arc': hand('killarc', C(0)),
              'reset_net_pointer': hand('reset', C(0)), 'Network_destroy': hand('destroy', C(0)), 'NETWORK_insert_arc_after_node': okh('after'), 'NETWORK_insert_arc_before_node': okh('before')})
    return T


class Wiring:
    """what one path through a linking function does to arcs and nodes"""
    def __init__(w, o, outs):
        w.o = o; w.moves = []; w.order = []
        for n, e in enumerate(o.events):
            if e[0] != 'loop': continue
            k = (e[1], e[2])
            for q in outs:
                if q.kind != 'back' or lkey(q) != k or q.events[:n] != o.events[:n]: continue
                m = Wiring.move(q, k)
                w.order.append((n, m))

    @staticmethod
    def move(q, k):
        """('move', from list, to list, pointer field, node) / ('drop', list) / ('walk', list) / None: what a step of a loop over a list of arcs does"""
        L = lookup(q, k); ev = since(q, k)
        S = [e for e in ev if e[0] == 'set']
        D = calls(ev, 'dellist')
        for l, (p, s) in L[3].items():
            if strip(q.st.env.get(l, s)) != strip(('init', F(s, 'next'), 0)): continue
            if p[0] != 'init' or p[1][0] != 'fld': continue
            if holds(q, '!=', s, C(0)) is not True and known(q, s) is not True: return None
            src = p[1]
            item_ = lambda t: t[0] == 'init' and t[1] == F(s, 'arc')
            A = calls(ev, 'addlist')
            if not A and not D and not S: return ('walk', src)
            if D and not A:
                if len(D) == 1 and D[0][2][0] == ('addr', src) and item_(D[0][2][1]): return ('drop', src)
                return None
            if len(A) != 1 or not item_(A[0][2][1]): return None
            to = [e for e in S if e[2] == ('call', 'list', A[0][2][:2])]
            pt = [e for e in S if e[1][0] == 'fld' and e[1][2] in ('from_node', 'to_node') and item_(e[1][1])]
            rest = [e for e in S if e not in to and e not in pt]
            if len(to) != 1 or len(pt) != 1 or rest: return None
            if strip(A[0][2][0]) != strip(('init', to[0][1], 0)): return None
            return ('move', src, to[0][1], pt[0][1][2], pt[0][2])
        return None

    def final(w, loc):
        """last value given to loc: ('start', ) if none"""
        for e in reversed(w.o.events):
            if e[0] == 'set' and e[1] == loc: return e[2]
        return None

    def ops(w, loc):
        """what happens to the list at loc, in order"""
        out = []
        for n, e in enumerate(w.o.events):
            for m, mv in w.order:
                if m == n and mv is not None and mv[0] in ('move', 'drop'):
                    if mv[0] == 'move' and mv[2] == loc: out.append(('move', mv[1], mv[3], mv[4]))
                    if mv[0] == 'drop' and mv[1] == loc: out.append(('empty',))
            if e[0] == 'set' and e[1] == loc:
                v = e[2]
                if v == C(0): out.append(('clear',))
                elif v[:2] == ('call', 'list'): out.append(('add', v[2][1]) if strip(v[2][0]) == strip(w.before(n, loc)) else ('bad', v))
                elif v[0] == 'sym' and v[1] == 'without': out.append(('del', v[2][1]))
                else: out.append(('bad', v))
        res = []
        for x in out:
            if x == ('clear',) : res = [y for y in res if y[0] == 'cleared'][:0] + [('clear',)]
            elif x not in res: res.append(x)
        return res

    def before(w, n, loc):
        for e in reversed(w.o.events[:n]):
            if e[0] == 'set' and e[1] == loc: 
                if any(m < n and mv is not None and mv[0] in ('move', 'drop') and (mv[2] if mv[0] == 'move' else mv[1]) == loc for m, mv in w.order): break
                return e[2]
        return ('init', loc, 0)


def linking(c, prog):
    def run(name, T=None):
        fn = prog.get(name)
        if fn is None: c.notes.append('%s is gone' % name); return None
        c.fn(fn); T = T or links(); T.pop(name, None)
        I, st = start(prog, fn, T, indh); outs = I.run(st)
        if any(o.kind == 'cut' for o in outs): c.notes.append('%s is cut short' % name); return None
        return fn, outs, [param(fn, 1, i) for i in range(len(fn.params))]
    init = lambda loc: ('init', loc, 0)
    def expect(c, name, fn, o, W, spec):
        """spec: list of (what, got, want)"""
        w = where(fn, o.line or fn.line)
        for k, text, got, want in spec:
            c.ob('%s: %s' % (name, k))
            if (strip(got) if isinstance(got, tuple) else got) != (strip(want) if isinstance(want, tuple) else want): c.bad('%s:%s' % (name, k), w, text, condlist(o))
    # insertion at a node
    for name, mine, other, mypt, otherpt in (('NETWORK_insert_arc_after_node', 'out_arcs', 'in_arcs', 'from_node', 'to_node'), ('NETWORK_insert_arc_before_node', 'in_arcs', 'out_arcs', 'to_node', 'from_node')):
        r = run(name)
        if r is None: continue
        fn, outs, P = r; net, at, data = P[:3]
        for o in outs:
            if o.kind != 'ret': continue
            if o.value != C(0): c.bad('%s:fails' % name, where(fn, o.line), 'adding an arc reports %s' % show(o.value), condlist(o)); continue
            A, N = calls(o.events, 'arc'), calls(o.events, 'node')
            if len(A) != 1 or len(N) != 1: c.bad('%s:made' % name, where(fn, o.line), '%d arcs and %d nodes are made' % (len(A), len(N)), condlist(o)); continue
            a, n = ('sym', '!newarc%d' % A[0][3], ()), ('sym', '!newnode%d' % N[0][3], ())
            W = Wiring(o, outs)
            stop = next((known(o, t) for t in all_terms(o) if t == init(F(net, 'stop_node'))), None)
            sp = [('data', 'the new arc does not carry the word', W.final(F(a, 'data')), data),
                  ('net', 'the new arc does not belong to the network', W.final(F(a, 'net')), net),
                  (mypt, 'the new arc is not tied to the node it is inserted at', W.final(F(a, mypt)), at),
                  (otherpt, 'the new arc is not tied to the new node', W.final(F(a, otherpt)), n),
                  ('nnet', 'the new node does not belong to the network', W.final(F(n, 'net')), net),
                  ('new' + other, 'the new node does not know the new arc', W.ops(F(n, other)), [('clear',), ('add', a)]),
                  ('new' + mine, 'the new node does not take over all arcs of the old one', W.ops(F(n, mine)), [('clear',), ('move', F(at, mine), mypt, n)]),
                  ('old' + mine, 'the old node is not left with just the new arc', W.ops(F(at, mine)), [('clear',), ('add', a)]),
                  ('arcs', 'the count of arcs is not one more', W.final(F(net, 'arc_count')), add(init(F(net, 'arc_count')), C(1))),
                  ('nodes', 'the count of nodes is not one more', W.final(F(net, 'node_count')), add(init(F(net, 'node_count')), C(1)))]
            fl = W.final(F(n, 'flag2'))
            sp.append(('flag', 'the new node does not get the marks of visits of the others', fl, init(F(init(F(net, 'start_node')), 'flag2'))))
            if mine == 'out_arcs':
                sp.append(('stop', 'the network does not get its last node' if stop is False else 'the last node of the network is replaced' if stop is True else 'it is not asked whether the network has a last node', W.final(F(net, 'stop_node')), n if stop is False else None if stop is True else 0))
                sp.append(('name', 'the new node has the wrong name', W.final(F(n, 'name')), C('STOP') if stop is False else C(0)))
            else:
                sp.append(('stop', 'the last node of the network is replaced', W.final(F(net, 'stop_node')), None))
                sp.append(('name', 'the new node has the wrong name', W.final(F(n, 'name')), C(0)))
            expect(c, name, fn, o, W, sp)
            # lists are moved before the old one is cleared
            clr = [j for j, e in enumerate(o.events) if e[0] == 'set' and e[1] == F(at, mine) and e[2] == C(0)]
            mv = [j for j, m in W.order if m is not None and m[0] == 'move']
            if clr and mv and min(clr) < max(mv): c.bad('%s:early' % name, where(fn, o.line), 'the arcs of the old node are dropped before they are moved', condlist(o))
    r = run('NETWORK_insert_arc_between_node')
    if r is not None:
        fn, outs, P = r; net, fr, to, data = P[:4]
        for o in outs:
            if o.kind != 'ret' or o.value != C(0): continue
            A = calls(o.events, 'arc'); a = ('sym', '!newarc%d' % A[0][3], ()) if A else None
            W = Wiring(o, outs)
            expect(c, fn.name, fn, o, W, [('data', 'the new arc does not carry the word', W.final(F(a, 'data')), data), ('net', 'the new arc does not belong to the network', W.final(F(a, 'net')), net),
                ('from', 'the new arc does not begin at the node given', W.final(F(a, 'from_node')), fr), ('to', 'the new arc does not end at the node given', W.final(F(a, 'to_node')), to),
                ('out', 'the first node does not know the new arc', W.ops(F(fr, 'out_arcs')), [('add', a)]), ('in', 'the last node does not know the new arc', W.ops(F(to, 'in_arcs')), [('add', a)]),
                ('arcs', 'the count of arcs is not one more', W.final(F(net, 'arc_count')), add(init(F(net, 'arc_count')), C(1)))])
    # adding at the ends
    for name in ('Network_add_arc_to_tail', 'Network_add_arc_to_head'):
        r = run(name)
        if r is None: continue
        fn, outs, P = r; net, data = P[:2]
        for o in outs:
            if o.kind != 'ret': continue
            c.ob('%s: a path' % name); w = where(fn, o.line or fn.line)
            E = calls(o.events, 'after', 'before')
            stop = next((known(o, t) for t in all_terms(o) if t == init(F(net, 'stop_node'))), None)
            want = ('after', 'start_node') if name.endswith('head') or stop is False else ('before', 'stop_node') if stop is True else None
            if len(E) != 1 or E[0][2][0] != net or E[0][2][2] != data or want is None or E[0][1] != want[0] or E[0][2][1] != init(F(net, want[1])): c.bad('%s:place' % name, w, 'the word is not added once, %s' % ('behind the first node' if name.endswith('head') else 'before the last node (behind the first node of an empty network)'), condlist(o))
            elif o.value != ('sym', 'ok%s%d' % (E[0][1], E[0][3]), ()): c.bad('%s:result' % name, w, 'returns %s' % show(o.value), condlist(o))
    for name, pos in (('Network_add_net_to_tail', 'tail'), ('Network_add_net_to_head', 'head')):
        T = links(); T.update({'Network_add_arc_to_tail': okh('tail'), 'Network_add_arc_to_head': okh('head')})
        r = run(name, T)
        if r is None: continue
        fn, outs, P = r; net, sub = P[:2]
        for o in outs:
            if o.kind != 'ret': continue
            c.ob('%s: a path' % name); w = where(fn, o.line or fn.line)
            E = calls(o.events, 'tail', 'head', 'merge', 'delete'); ok = lambda e: positive(o, ('sym', 'ok%s%d' % (e[1], e[3]), ()))
            if o.value != C(0):
                if not any(ok(e) is True for e in E): c.bad('%s:fails' % name, w, 'reports a failure although nothing failed', condlist(o))
                continue
            if [e[1] for e in E] != [pos, 'merge', 'delete'] or any(ok(e) is not False for e in E): c.bad('%s:steps' % name, w, 'the network is not added in place of one new arc', condlist(o)); continue
            a, m, d = E
            if a[2][0] != net or a[2][1] != C(0): c.bad('%s:null' % name, w, 'the place for the network is not made with an empty arc', condlist(o))
            node, lst = ('stop_node', 'in_arcs') if pos == 'tail' else ('start_node', 'out_arcs')
            x = d[2][0]
            exp = init(F(init(F(init(F(net, node)), lst)), 'arc'))
            if strip(x) != strip(exp): c.bad('%s:which' % name, w, 'the arc taken out is %s' % show(x), condlist(o))
            f = init(F(x, 'from_node')); t = init(F(x, 'to_node'))
            if strip(m[2][0]) not in (strip(f),) + ((strip(init(F(net, 'start_node'))),) if pos == 'head' else ()) or strip(m[2][1]) not in (strip(t),) + ((strip(init(F(net, 'stop_node'))),) if pos == 'tail' else ()) or m[2][2] != sub: c.bad('%s:between' % name, w, 'the network is put between %s and %s' % (show(m[2][0]), show(m[2][1])), condlist(o))
    # merging
    r = run('Network_merge_network')
    if r is not None:
        fn, outs, P = r; fr, to, sub = P[:3]; name = fn.name
        net = init(F(fr, 'net')); s0, s1 = init(F(sub, 'start_node')), init(F(sub, 'stop_node'))
        for o in outs:
            if o.kind != 'ret' or o.value != C(0): continue
            W = Wiring(o, outs); w = where(fn, o.line or fn.line)
            rs = calls(o.events, 'reset'); ds = calls(o.events, 'destroy'); kn = calls(o.events, 'killnode')
            ac = W.final(F(net, 'arc_count'))
            drop = [m[1] for n_, m in W.order if m is not None and m[0] == 'drop']
            expect(c, name, fn, o, W, [
                ('out', 'the first arcs of the network are not all tied to the first node', W.ops(F(fr, 'out_arcs')), [('move', F(s0, 'out_arcs'), 'from_node', fr)]),
                ('in', 'the last arcs of the network are not all tied to the last node', W.ops(F(to, 'in_arcs')), [('move', F(s1, 'in_arcs'), 'to_node', to)]),
                ('arcs', 'the count of arcs does not grow by those of the network', ac, add(init(F(net, 'arc_count')), init(F(sub, 'arc_count')))),
                ('reset', 'the arcs put in do not belong to the network', [(strip(e[2][0]), strip(e[2][1])) for e in rs], [(strip(s0), strip(net))]),
                ('keep', 'the arcs put in are not taken off the network that is destroyed', {strip(x) for x in drop} >= {strip(F(s0, 'out_arcs')), strip(F(s1, 'in_arcs'))}, True),
                ('destroy', 'the empty network is not destroyed', [e[2][0] for e in ds], [sub]),
                ('kill', 'the last node of the empty network is not freed', [strip(e[2][0]) for e in kn], [strip(s1)]),
                ('nostop', 'the last node of the empty network is used after it was freed', W.final(F(sub, 'stop_node')), C(0))])
            order = [j for j, m in W.order if m is not None and m[0] == 'move'], [j for j, m in W.order if m is not None and m[0] == 'drop'], [o.events.index(e) for e in rs]
            if order[0] and order[1] and min(order[1]) < max(order[0]): c.bad('%s:order' % name, w, 'arcs are taken off before they are moved', condlist(o))
            if order[0] and order[2] and min(order[2]) > min(order[0]): c.bad('%s:resetorder' % name, w, 'the arcs are marked after they were joined to the whole network', condlist(o))
    # deleting
    r = run('Network_delete_arc')
    if r is not None:
        fn, outs, P = r; arc = P[0]; name = fn.name
        net, fr, to = init(F(arc, 'net')), init(F(arc, 'from_node')), init(F(arc, 'to_node'))
        for o in outs:
            if o.kind != 'ret' or o.value != C(0): continue
            W = Wiring(o, outs); w = where(fn, o.line or fn.line); c.ob('%s: a path' % name)
            D = calls(o.events, 'dellist'); K = [strip(e[2][0]) for e in calls(o.events, 'killnode')]
            if sorted((strip(e[2][0]), strip(e[2][1])) for e in D) != sorted(((('addr', strip(F(fr, 'out_arcs'))), strip(arc)), (('addr', strip(F(to, 'in_arcs'))), strip(arc)))): c.bad('%s:lists' % name, w, 'the arc is not taken off the lists of both of its nodes', condlist(o))
            if [e[2][0] for e in calls(o.events, 'killarc')] != [arc]: c.bad('%s:kill' % name, w, 'the arc is freed %d times' % len(calls(o.events, 'killarc')), condlist(o))
            if [strip(e[2][1]) for e in calls(o.events, 'indirect')] != [strip(init(F(arc, 'data')))]: c.bad('%s:data' % name, w, 'the word of the arc is not given back once', condlist(o))
            if strip(W.final(F(net, 'arc_count')) or C(0)) != strip(add(init(F(net, 'arc_count')), C(1), -1)): c.bad('%s:arcs' % name, w, 'the count of arcs is not one less', condlist(o))
            ein = empties(o, F(to, 'in_arcs'), arc); eout = empties(o, F(fr, 'out_arcs'), arc)
            mv = [m for j, m in W.order if m is not None and m[0] == 'move']
            lost = [m for j, m in W.order if m is None]
            if lost: c.notes.append('%s: a loop is not understood' % name)
            mvd = {(strip(m[1]), strip(m[2]), m[3], strip(m[4])) for m in mv}
            if strip(to) in K and not lost:
                good_ = (strip(F(to, 'out_arcs')), strip(F(fr, 'out_arcs')), 'from_node', strip(fr)) in mvd or is_name(o, fr, 'START')
                if not good_: c.bad('%s:cutoff' % name, w, 'a node is deleted and the arcs behind it are not tied to the node before', condlist(o))
                if ein is False and not is_name(o, fr, 'START'): c.bad('%s:alive' % name, w, 'a node that still has arcs is deleted', condlist(o))
                if is_name(o, fr, 'START') and (strip(F(to, 'out_arcs')), strip(F(fr, 'out_arcs')), 'from_node', strip(fr)) not in mvd and W.final(F(net, 'stop_node')) != C(0): c.bad('%s:stop' % name, w, 'the last node is deleted and still used', condlist(o))
            if strip(fr) in K and strip(to) in K and not is_name(o, to, 'STOP') and not is_name(o, fr, 'START'): continue      # no node but the last is without arcs behind it
            if known(o, to) is False or known(o, fr) is False: continue                                                       # an arc has both nodes
            if strip(fr) in K and not lost:
                if (strip(F(fr, 'in_arcs')), strip(F(to, 'in_arcs')), 'to_node', strip(to)) not in mvd: c.bad('%s:cutoff' % name, w, 'a node is deleted and the arcs before it are not tied to the node behind', condlist(o))
                if eout is False and ein is False: c.bad('%s:alive' % name, w, 'a node that still has arcs is deleted', condlist(o))
            if ein is False and eout is False and (K or mv): c.bad('%s:both' % name, w, 'nodes that still have arcs are changed', condlist(o))
            if not K and (ein is not False or eout is not False): c.bad('%s:dangling' % name, w, 'a node without arcs is left in the network', condlist(o))


def is_name(o, node, text):
    for t in all_terms(o):
        if t[0] in ('strcmp', 'call') and (t[0] == 'strcmp' or t[1] == 'strcmp'):
            a = t[2] if t[0] == 'call' else t[2:4]
            if any(x == C(text) for x in a) and any(x[0] == 'init' and strip(x[1]) == strip(('fld', node, 'name')) for x in a if isinstance(x, tuple)):
                v = known(o, t)
                if v is not None: return not v
    return None


def empties(o, loc, arc):
    """the list at loc is known to be empty (True) or not (False) once the arc is off"""
    for cc, tv, *_ in o.conds:
        for t in subterms(cc):
            if t[0] == 'sym' and t[1] == 'without' and strip(t[2][1]) == strip(arc) and strip(t[2][0]) == strip(('init', loc, 0)):
                v = known(o, t)
                if v is not None: return not v
    return None


def iscall(t, name, *args):
    return isinstance(t, tuple) and t[:2] == ('call', name) and len(t[2]) == len(args) and all(strip(x) == strip(y) for x, y in zip(t[2], args))


def theterm(o, name, *args):
    """the term for this call as it occurs on the path"""
    return next((t for t in all_terms(o) if iscall(t, name, *args)), ('call', name, tuple(args)))


def wordh(s, st, a, node, line, caller):
    s.event(st, ('call', 'word', tuple(a), line, caller)); return ('sym', '!newword%d' % line, ())


def making(c, prog):
    """new_WORD, new_WORD_parseText, nextColon, TEXT_strBdup_noEscape, copy_WORD"""
    def run(name, T):
        fn = prog.get(name)
        if fn is None: c.notes.append('%s is gone' % name); return None
        c.fn(fn)
        T = dict(T); T.update({'fprintf': ignore, 'printf': ignore, 'free': ignore}); T.update({n: f for n, f in PURE.items() if n not in T})
        I, st = start(prog, fn, T); return fn, I.run(st), [param(fn, 1, i) for i in range(len(fn.params))], I
    P_ = {n: pure(n[5:]) for n in ('TEXT_strBdup', 'TEXT_strBdup_noEscape', 'TEXT_strstr', 'TEXT_strchr')}
    new = lambda s, st, a, node, line, caller: ('sym', '!newobj%d' % line, ())
    # -- fields
    r = run('new_WORD', {**P_, 'malloc': new})
    if r is not None:
        fn, outs, P, I = r; name = fn.name; n = {p['n']: P[i] for i, p in enumerate(fn.params)}
        t, id_, t1, t2, conf, tag1, tag2, fcorr, odel, weight = P[:10]
        for o in outs:
            if o.kind != 'ret': continue
            c.ob('%s: a path' % name); w = where(fn, o.line)
            def fin(f):
                for e in reversed(o.events):
                    if e[0] == 'set' and e[1] == ('fld', o.value, f): return e[2]
            b = lambda k, msg: c.bad('%s:%s' % (name, k), w, msg, condlist(o))
            for f, v in (('value_id', id_), ('T1', t1), ('T2', t2), ('conf', conf), ('frag_corr', fcorr), ('opt_del', odel), ('weight', weight), ('use', C(1))):
                if fin(f) != v: b(f, 'a word gets %s for %s' % (show(fin(f) or ('sym', 'nothing', ())), f))
            if fin('T_dur') != add(t2, t1, -1): b('T_dur', 'the duration of a word is %s' % show(fin('T_dur') or ('sym', 'nothing', ())))
            for f, v in (('tag1', tag1), ('tag2', tag2)):
                g = fin(f); nul = known(o, v)
                if not (nul is False and g in (v, C(0)) or nul is True and iscall(g, 'strdup', v)): b(f, '%s of a word is %s' % (f, show(g or ('sym', 'nothing', ()))))
            v = fin('value')
            if known(o, t) is False: ok = v == C(0)
            elif iscall(v, 'strdup', t): ok = nostar(o, t)
            elif v is not None and v[:2] == ('call', 'strBdup'):
                ln = theterm(o, 'strlen', t)
                ok = v[2][0] == t and add(v[2][1], ln, -1) == C(-1) and star(o, t) and holds(o, '>', ln, C(1)) is True
            else: ok = False
            if not ok: b('value', 'the text of a word is %s' % show(v or ('sym', 'nothing', ())))
    # -- taking apart
    cols = lambda s, st, a, node, line, caller: ('sym', '!colon', (a[0],))
    r = run('new_WORD_parseText', {**P_, 'nextColon': cols, 'new_WORD': wordh})
    if r is not None:
        fn, outs, P, I = r; name = fn.name; t = P[0]
        for o in outs:
            if o.kind != 'ret': continue
            c.ob('%s: a path' % name); w = where(fn, o.line)
            E = calls(o.events, 'word')
            if len(E) != 1 or o.value != ('sym', '!newword%d' % E[0][3], ()): c.bad('%s:made' % name, w, '%d words are made' % len(E), condlist(o)); continue
            a = E[0][2]
            if a[1:5] + a[7:10] != (P[1], P[2], P[3], P[4], P[5], P[6], P[7]): c.bad('%s:passed' % name, w, 'times, confidence or flags of the word are not those given', condlist(o))
            br = ischar(o, t, 123)
            e1 = ('sym', '!colon', (t,)); f1 = add(e1, C(1)); e2 = ('sym', '!colon', (f1,)); f2 = add(e2, C(1)); e3 = ('sym', '!colon', (f2,))
            piece = lambda b, e: (b, add(e, b, -1))
            if br is True: want = (t, C(0), C(0))
            elif br is False:
                z1, z2 = ischar(o, e1, 0), ischar(o, e2, 0)
                if z1 is None or z1 is False and z2 is None: c.bad('%s:ends' % name, w, 'it is not asked whether the word has tags', condlist(o)); continue
                want = (piece(t, e1), C(0) if z1 else piece(f1, e2), C(0) if z1 or z2 else piece(f2, e3))
            else: c.bad('%s:brace' % name, w, 'it is not asked whether the word is an alternation', condlist(o)); continue
            for k, g, x in zip(('text', 'tag1', 'tag2'), (a[0], a[5], a[6]), want):
                if not (iscall(g, 'strBdup_noEscape', *x) if x[0] != 'c' and x != t else strip(g) == strip(x)): c.bad('%s:%s' % (name, k), w, 'the %s of the word is %s' % (k, show(g)), condlist(o))
    r = run('nextColon', P_)
    if r is not None:
        fn, outs, P, I = r; name = fn.name; t = P[0]
        for o in outs:
            if o.kind not in ('ret', 'back'): continue
            c.ob('%s: a path' % name); w = where(fn, o.line or o.conds[-1][2])
            if any(tv and cc[0] == 'sym' and isinstance(cc[1], str) and lookup_flag(o, cc) for cc, tv, *_ in o.conds): continue
            hit = next((x for x in all_terms(o) if x[0] == 'call' and x[1] in ('strstr', 'strchr')), None)
            if hit is None: c.notes.append('%s: how the separator is found is not recognised' % name); continue
            found = known(o, hit)
            before = add(hit, C(1), -1)
            esc = ischar(o, before, 92)
            at0 = holds(o, '>', hit, t)
            if at0 is None: at0 = holds(o, '!=', hit, t)
            if any(ischr(x, before) for cc, *_ in o.conds for x in subterms(cc)) and at0 is not True: c.bad('%s:before' % name, w, 'the byte before the word is read', condlist(o))
            if o.kind == 'ret':
                if found is False:
                    if strip(o.value) != strip(add(t, theterm(o, 'strlen', t))): c.bad('%s:end' % name, w, 'without a separator the field ends at %s' % show(o.value), condlist(o))
                elif found is True:
                    if strip(o.value) != strip(hit) or esc is not False and at0 is not False: c.bad('%s:field' % name, w, 'the field ends at %s' % show(o.value), condlist(o))
                else: c.bad('%s:asked' % name, w, 'it is not asked whether there is a separator', condlist(o))
            else:
                if found is not True or esc is not True: c.bad('%s:missed' % name, w, 'a separator that is not escaped is passed over', condlist(o))
                L = lookup(o, lkey(o))
                nxt = [strip(add(add(o.st.env.get(l, s), t), hit, -1)) for l, (p, s) in L[3].items()] + [strip(add(o.st.env.get(l, s), hit, -1)) for l, (p, s) in L[3].items()]
                if C(1) not in nxt: c.bad('%s:step' % name, w, 'the search does not go on behind an escaped separator', condlist(o))
    r = run('TEXT_strBdup_noEscape', {'malloc': lambda s, st, a, node, line, caller: ('sym', '!newmem', (a[0],))})
    if r is not None:
        fn, outs, P, I = r; name = fn.name; p, n = P[:2]
        for o in outs:
            if o.kind == 'ret':
                c.ob('%s: a path' % name); w = where(fn, o.line)
                v = o.value
                if v[:2] != ('sym', '!newmem'): c.notes.append('%s: returns %s' % (name, show(v))); continue
                sz = strip(add(v[2][0], n, -1))
                if not (isnum(sz) and sz[1] >= 1): c.bad('%s:room' % name, w, 'the room for %s bytes is %s' % (show(n), show(v[2][0])), condlist(o))
                z = [e for e in o.events if e[0] == 'set' and e[1][0] == 'elem' and e[2] == C(0)]
                if not z: c.bad('%s:close' % name, w, 'the copy is not closed', condlist(o))
            if o.kind != 'back': continue
            c.ob('%s: a step' % name); k = lkey(o); L = lookup(o, k); ev = since(o, k); w = where(fn, o.conds[-1][2])
            src = [(l, s) for l, (q, s) in L[3].items() if strip(q) == strip(p)]; dst = [(l, s) for l, (q, s) in L[3].items() if q[:2] == ('sym', '!newmem')]
            if len(src) != 1 or len(dst) != 1: c.notes.append('%s: the copying is not understood' % name); continue
            (pl, ps), (dl, ds) = src[0], dst[0]
            S = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem']; esc = ischar(o, ps, 92)
            if add(o.st.env.get(pl, ps), ps, -1) != C(1): c.bad('%s:skip' % name, w, 'the text moves by %s' % show(add(o.st.env.get(pl, ps), ps, -1)), condlist(o))
            if esc is True:
                if S or o.st.env.get(dl, ds) != ds: c.bad('%s:escape' % name, w, 'an escaping backslash is copied', condlist(o))
            elif esc is False:
                ok = len(S) == 1 and add(S[0][1][1], S[0][1][2]) == ds and ischr(S[0][2], ps) and add(o.st.env.get(dl, ds), ds, -1) == C(1)
                if not ok: c.bad('%s:byte' % name, w, 'a byte is not copied as it is', condlist(o))
            else: c.bad('%s:asked' % name, w, 'it is not asked whether a byte is a backslash', condlist(o))
            st_ = [l for l, (q, s) in L[3].items() if q == C(0) and add(o.st.env.get(l, s), s, -1) == C(1) and holds(o, '<', s, n) is True]
            if not st_: c.bad('%s:bound' % name, w, 'not just the bytes of the field are copied', condlist(o))
    r = run('copy_WORD', {'new_WORD': wordh})
    if r is not None:
        fn, outs, P, I = r; name = fn.name; p = P[0]
        for o in outs:
            if o.kind != 'ret': continue
            c.ob('%s: a path' % name); E = calls(o.events, 'word')
            if known(o, p) is False:
                if o.value != C(0): c.bad('%s:none' % name, where(fn, o.line), 'the copy of no word is %s' % show(o.value), condlist(o))
                continue
            if not E and o.value == C(0): c.bad('%s:lost' % name, where(fn, o.line), 'a word is not copied', condlist(o)); continue
            if len(E) == 1 and o.value != ('sym', '!newword%d' % E[0][3], ()): c.bad('%s:returned' % name, where(fn, o.line), 'the copy returned is %s' % show(o.value), condlist(o))
            fs = ['value', 'value_id', 'T1', 'T2', 'conf', 'tag1', 'tag2', 'frag_corr', 'opt_del', 'weight']
            if len(E) != 1: c.notes.append('%s: copies in another way' % name); continue
            for f, a in zip(fs, E[0][2]):
                if strip(a) != strip(('init', ('fld', p, f), 0)): c.bad('%s:%s' % (name, f), where(fn, o.line), '%s of the copy is %s' % (f, show(a)), condlist(o))


def lookup_flag(o, t):
    """t is the loop value of a flag that starts at zero and is only raised on leaving"""
    for e in o.events:
        if e[0] == 'loop':
            for l, (p, s) in e[3].items():
                if s == t and p == C(0): return True
    return False


def star(o, t):
    """the text is known to end with a star (and to be longer than that)"""
    ln = theterm(o, 'strlen', t)
    return ischar(o, add(add(t, ln), C(1), -1), 42) is True and holds(o, '>', ln, C(1)) is True


def nostar(o, t):
    """the text is known not to end with a star, or to be no longer than that"""
    ln = theterm(o, 'strlen', t)
    return ischar(o, add(add(t, ln), C(1), -1), 42) is False or holds(o, '>', ln, C(1)) is False


def check(c):
    prog = c.prog('sclite')
    c.rule('token', 'a token is the next run of characters other than white space, or the next alternation up to its closing brace; every byte is copied once and in order, whole characters only, within the room given')
    c.part(scanner, c, prog, 'find_next_TEXT_token', False)
    c.rule('alternative', 'an alternative is the text up to the next slash or closing brace outside inner alternations')
    c.part(scanner, c, prog, 'find_next_TEXT_alternation', True)
    c.rule('words', 'each token of the text becomes one word at the end of the network, until the text is used up; then the alternations are expanded; text that is not a complete word is an error')
    c.part(words, c, prog)
    c.rule('alternates', 'each alternative between the braces becomes a network of its own; all are joined between the nodes of the alternation, which is then taken out')
    c.part(alternates, c, prog)
    c.rule('ctm words', 'each word of the range that is not to be ignored becomes one word with its times and confidence, at the end (or, backwards, at the beginning) of the network; alternations between marks become parallel paths, an empty one a null word')
    c.part(ctm, c, prog)
    c.rule('linking', 'an arc put into the network carries its word, is known to both of its nodes and takes over the arcs of the node it is inserted at; merging ties all outer arcs; deleting leaves no arc cut off')
    c.part(linking, c, prog)
    c.rule('lists', 'an arc is put into the list of a node once and at its end, and taken off without disturbing the others; new arcs, nodes and networks get what they are given and nothing else')
    c.part(nets.lists, c, prog)
    c.part(nets.making, c, prog)
    c.rule('walk', 'a walk over a network visits every node reached once, in an ordered walk only after all nodes in front of it, and every arc once')
    c.part(nets.walkrules, c, prog)
    c.rule('making', 'a word gets the text up to the first unescaped separator, its tags the fields behind, without escaping backslashes, and the times, confidence and flags given')
    c.part(making, c, prog)
