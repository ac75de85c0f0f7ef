"""S13: reading time-marked input -- every ctm line one word, every stm line one segment, each field in its place."""
import facts, ir, absint
from absint import C, show, showloc, add, isnum, affparts
from util import *
from S02 import strip, param, subterms, all_terms
from S09 import lkey, lookup, since
from S11 import seed
from S12 import rec, COPY, HAS, no_utt
from path import *

f = lambda t, n: ('init', ('fld', t, n), 0)
EMPTY = ('sym', 'empty', ())
WS = set(' \t\n')


def check(c):
    prog = c.prog('sclite')
    c.part(line, c, prog)
    c.part(token, c, prog)
    c.part(ctm, c, prog)
    c.part(stm, c, prog)
    c.part(stm_read, c, prog)
    c.part(stm_fill, c, prog)


# ---------------------------------------------------------------- strings
def tokn(t): return t[2][0][1] if t[0] == 'sym' and t[1] == 'tok' else None


def text(s, st, p):
    """what a pointer points at: a token, the empty text, or an unknown text"""
    if tokn(p) or p[0] == 'c': return p
    v = s.read(st, s.mkelem(p, C(0)))
    if v == C(0): return EMPTY
    if v[0] == 'sym' and v[1] == '!first': return v[2][0]
    return ('sym', 'text', (p,))


def strs():
    def tok(s, st, args, node, line, caller):
        prev = None
        for e in reversed(list(absint._unroll(st.events))):
            if e[0] == 'call' and e[1] == 'tok': prev = e; break
        if args[0] != C(0): k, base = 1, args[0]
        elif prev: k, base = prev[2][0][1] + 1, prev[2][1]
        else: k, base = 1, ('sym', '!unknown', ())
        s.event(st, ('call', 'tok', (C(k), base, args[1]), line, caller))
        if any(s.compare(st, '==', ('sym', 'tok', (C(j), base)), C(0)) is True for j in range(1, k)): return C(0)
        return ('sym', 'tok', (C(k), base))

    def copy(k):
        def h(s, st, args, node, line, caller):
            s.event(st, ('call', 'copy', (args[0], args[1], args[k] if k is not None else None), line, caller))
            s.write(st, s.mkelem(args[0], C(0)), ('sym', '!first', (text(s, st, args[1]),)))
            return args[0]
        return h

    def use(n):
        def h(s, st, args, node, line, caller):
            if tokn(args[0]): s.event(st, ('call', 'use', (args[0],), line, caller))
            d, k = affparts(args[0])
            if len(d) == 1 and list(d.values()) == [1]:
                b = next(iter(d))
                if not tokn(b) and k == 0: return ('call', n, (text(s, st, b), C(0)), 0)
                return ('call', n, (text(s, st, b), C(k)), 0)
            return ('call', n, (args[0], C(0)), 0)
        return h

    def cmp(nocase):
        def h(s, st, args, node, line, caller):
            a, b = args[:2]
            if b == ('c', '') or a == ('c', ''):
                t = text(s, st, a if b == ('c', '') else b)
                if t == EMPTY: return C(0)
                if tokn(t): return C(1)
                return ('call', 'nonempty', (t,), 0)
            return ('strcmp', nocase, text(s, st, a), text(s, st, b)) + ((args[2],) if len(args) > 2 else ())
        return h

    def length(s, st, args, node, line, caller):
        t = text(s, st, args[0])
        return C(0) if t == EMPTY else ('call', 'strlen', (args[0],), 0)

    def fgets(s, st, args, node, line, caller):
        s.event(st, ('call', 'fgets', tuple(args), line, caller))
        if args[0][0] == 'addr': s.write(st, args[0][1], ('sym', '!newline', ()))
        return ('sym', 'got', ())

    def free(s, st, args, node, line, caller):
        s.event(st, ('call', 'free', tuple(args), line, caller)); return C(0)
    T = {'TEXT_strtok': tok, 'strtok': tok, 'TEXT_ensure_fgets': fgets, 'free': free, 'TEXT_free': free, 'TEXT_str_case_change_with_mem_expand': rec('fold'),
         'malloc': lambda s, st, a, node, line, caller: ('sym', '!new%d' % line, tuple(a))}
    for n, k in COPY.items(): T[n] = copy(k)
    for n in ('memcpy', 'memmove'): T[n] = rec(n)
    for n in ('atof', 'TEXT_atof', 'strtod'): T[n] = use('atof')
    for n in ('TEXT_strdup', 'strdup'): T[n] = use('dup')
    for n in ('strcmp', 'TEXT_strcmp'): T[n] = cmp(0)
    for n in ('strcasecmp', 'TEXT_strcasecmp', 'TEXT_strCcasecmp', 'strncasecmp'): T[n] = cmp(1)
    for n in ('TEXT_strCcmp', 'TEXT_strBcmp', 'strncmp'): T[n] = cmp(0)
    for n in ('TEXT_strlen', 'strlen'): T[n] = length
    for n in ('TEXT_strspn', 'TEXT_skip_wspace', 'TEXT_strcspn') + HAS: T[n] = pure(n)
    return T


def outp(I, st, fn, names):
    r = {}
    for p in fn.params:
        if p['n'] in names: r[p['n']] = ('v', 0, p['n'], p['n']); st.env[('v', 1, p['id'], p['n'])] = ('addr', r[p['n']])
    return r


# ---------------------------------------------------------------- a line of any length
def line(c, prog):
    c.rule('line', 'a line is read as a whole whatever its length: reading goes on at the end of what was read, within the new space, until a newline, a part shorter than the space, or the end of the file')
    fn = c.fn(prog.get('TEXT_ensure_fgets'))
    if len(fn.params) != 3: c.notes.append('TEXT_ensure_fgets has other parameters'); return
    A, N = ('v', 0, 'arr', 'arr'), ('v', 0, 'len', 'len')
    k = [0]

    def nread(st): return sum(1 for e in absint._unroll(st.events) if e[0] == 'call' and e[1] == 'fgets')

    def fgets(s, st, args, node, line, caller):
        s.event(st, ('call', 'fgets', tuple(args), line, caller)); return ('sym', 'got%d' % nread(st), ())

    def length(s, st, args, node, line, caller): return ('call', 'strlen', (args[0], C(nread(st))), 0)
    T = {'fgets': fgets, 'TEXT_strlen': length, 'strlen': length, 'free': rec('free'), 'strcpy': rec('copy'), 'TEXT_strcpy': rec('copy'), 'memcpy': rec('copy'), 'memmove': rec('copy'),
         'malloc': lambda s, st, a, node, line, caller: ('sym', '!new%d' % line, tuple(a)), 'realloc': lambda s, st, a, node, line, caller: ('sym', '!newr%d' % line, (a[1], a[0]))}
    I = Rec(prog, T, None); st = I.start(fn)
    a0, l0 = ('sym', '!buf', ()), ('sym', 'room', ())
    st.env[A] = a0; st.env[N] = l0
    for p, v in zip(fn.params, (('addr', A), ('addr', N))): st.env[('v', 1, p['id'], p['n'])] = v
    n = 0
    for o in I.run(st):
        if o.kind == 'stop': continue
        ev = list(o.events); lo = [i for i, e in enumerate(ev) if e[0] == 'loop' and A in e[3]]
        rd = [(i, e) for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'fgets']
        L = ev[lo[-1]] if lo else None; w = where(fn, o.line or fn.line)
        c.ob('part of a line')
        arr, room = (L[3][A][1] if L else a0), (L[3][N][1] if L and N in L[3] else l0)
        if not rd: c.bad('line:none', w, 'nothing is read', condlist(o)); continue
        f0 = rd[0][1]
        if lo and rd[0][0] > lo[0]: continue
        if not eq(f0[2][0], a0) or not eq(f0[2][1], l0): c.bad('line:first', where(fn, f0[3]), 'the first part is read as %s characters at %s' % (show(f0[2][1]), show(f0[2][0])), condlist(o))
        more = [e for i, e in rd if lo and i > lo[-1]]
        if len(more) > 1: c.notes.append('more than one part is read per iteration'); continue
        if any(op == '==' and k == 0 and len(d) == 1 and strip(room) in d for op, d, k in conds(o)): continue      # there is always some space
        ends = [s for loc, (q, s) in (L[3].items() if L else ()) if loc != A and eq(add(q, a0, -1), ('call', 'strlen', (a0, C(1)), 0))]      # where the text read so far ends
        ends += [add(arr, x) for t in index(o) for x in index(o)[t] if x[0] == 'call' and x[1] == 'strlen' and x[2][0] == arr]
        fill = lambda: [decide(I, o, '<', add(x, arr, -1), add(room, C(-1))) for x in ends]
        if more:
            n += 1; e = more[0]; w = where(fn, e[3]); new = o.st.env.get(A)
            off = add(e[2][0], new, -1)
            cap = new[2][0] if new and new[0] == 'sym' and new[1].startswith('!new') else None
            if cap is None: c.bad('line:space', w, 'the line is read on without more space', condlist(o)); continue
            if not eq(off, add(room, C(-1))) and not any(eq(off, add(x, arr, -1)) for x in ends): c.bad('line:offset', w, 'the next part is read to offset %s of the space' % show(off), condlist(o))
            d = diff(add(off, e[2][1]), cap)
            if d[0] and not (decide(I, o, '<=', add(off, e[2][1]), cap) is True) or not d[0] and d[1] > 0: c.bad('line:overrun', w, 'the next part may be longer than the space left for it', condlist(o))
            cp = [x for x in ev[lo[-1]:] if x[0] == 'call' and x[1] == 'copy']
            if not new[1].startswith('!newr') and not (len(cp) == 1 and cp[0][2][0] == new and cp[0][2][1] == arr and ev.index(cp[0]) < ev.index(e)): c.bad('line:copy', w, 'the part already read is not taken along', condlist(o))
            if False not in fill(): c.bad('line:full', w, 'reading goes on although the part read did not fill the space', condlist(o))
            if o.kind == 'back':
                if not eq(o.st.env.get(N, room), cap): c.bad('line:room', w, 'the space of %s is taken to be %s' % (show(cap), show(o.st.env.get(N, room))), condlist(o))
                if I.compare(o.st, '!=', ('sym', 'got2', ()), C(0)) is not True: c.bad('line:eof', w, 'the end of the file is not noticed', condlist(o))
                for loc, (q, s) in L[3].items():
                    if s in ends and not eq(add(o.st.env.get(loc, s), new, -1), ('call', 'strlen', (new, C(2)), 0)): c.bad('line:end', w, 'the end of the text is taken to be %s' % show(o.st.env.get(loc, s)), condlist(o))
        if o.kind == 'ret':
            first = I.compare(o.st, '!=', ('sym', 'got1', ()), C(0))
            v = True if eq(o.value, o.st.env.get(A)) else I.compare(o.st, '!=', o.value, C(0))
            if first is not v or first is None: c.bad('line:return', where(fn, o.line), 'the value returned does not tell whether a line was read', condlist(o)); continue
            if first is False: continue
            if not eq(o.value, o.st.env.get(A)): c.bad('line:value', where(fn, o.line), '%s is returned' % show(o.value), condlist(o))
            nl = any(x[0] == 'init' and x[1][0] == 'elem' and any(eq(add(flat(x[1][1]), x[1][2]), add(y, C(-1))) for y in ends) and decide(I, o, '==', x, C(10)) is True for t in index(o) for x in index(o)[t])
            end = more and I.compare(o.st, '==', ('sym', 'got2', ()), C(0)) is True
            if not (nl or True in fill() or end): c.bad('line:part', where(fn, o.line), 'a line is returned in part', condlist(o))
    c.need(n, 'TEXT_ensure_fgets never reads a second part')


# ---------------------------------------------------------------- tokens
def token(c, prog):
    c.rule('fields', 'fields are separated by the characters given and nothing else: leading ones are skipped, the field ends before the next one and the search goes on after it')
    fn = c.fn(prog.get('TEXT_strtok')); p, t = (param(fn, 1, i) for i in range(2))
    T = {'strchr': pure('strchr'), 'TEXT_strchr': pure('strchr'), 'TEXT_nbytes_of_char': pure('size')}
    I = Rec(prog, T, None); outs = I.run(I.start(fn))
    def dec(o, q, op=None):
        """is the character at q a separator (True/False/None); op '0': is it the end of the text"""
        for a in index(o):
            for b in index(o)[a]:
                x = b[2][1] if b[0] == 'call' and b[1] == 'strchr' and op is None else b if op and b[0] == 'init' else None
                if x and x[0] == 'init' and x[1][0] == 'elem' and add(flat(x[1][1]), x[1][2]) == q:
                    d = decide1(o, '!=' if op is None else '==', b)
                    if d is not None: return d
        return None

    def decide1(o, op, t):
        for cc, tv, *_ in o.conds:
            if cc[0] == 'cmp' and cc[2] == t and cc[3] == C(0) and cc[1] in ('==', '!='): return (cc[1] == op) == tv
            if cc == t: return (op == '!=') == tv
        return I.compare(o.st, op, t, C(0))
    zero = lambda o, q: dec(o, q, '0')

    def places(o, k):
        """(location, place at the head of the loop) of everything the loop moves"""
        L = lookup(o, k); g = {e[1] for x in outs if x.kind == 'back' and lkey(x) == k for e in since(x, k) if e[0] == 'set' and e[1][0] == 'g'}
        ty = lambda loc: ctypes(prog, fn, loc)
        return [(loc, s) for loc, (q, s) in L[3].items() if any('*' in t for t in ctypes(prog, fn, loc))] + [(loc, ('init', loc, L[6].get(absint.cls2(loc), 0))) for loc in g]
    keys = []
    for o in outs:
        for e in o.events:
            if e[0] == 'loop' and (e[1], e[2]) not in keys: keys.append((e[1], e[2]))
    if not keys: c.bad('fields:none', where(fn, fn.line), 'no field is ever looked for')
    if len(keys) != 2: c.notes.append('TEXT_strtok: %d loops' % len(keys)); return
    k1, k2 = keys
    for o in outs:
        if o.kind != 'back': continue
        k = lkey(o); mv = [(loc, s, add(o.st.env.get(loc, s), s, -1)) for loc, s in places(o, k)]
        mv = [x for x in mv if x[2] != C(0)]
        c.ob('character'); w = where(fn, o.line or fn.line)
        for loc, s, d in mv:
            if not (d[0] == 'call' and d[1] == 'size' or d == C(1)): c.bad('fields:step', w, 'the search moves by %s' % show(d), condlist(o))
        if not mv: c.bad('fields:stay', w, 'the search does not move', condlist(o)); continue
        s = next((s for loc, s, d in mv if zero(o, s) is not None), mv[0][1])
        if zero(o, s) is not False: c.bad('fields:end', w, 'the search runs past the end of the text', condlist(o))
        if k == k1:
            if dec(o, s) is not True: c.bad('fields:skip', w, 'a character that is no separator is skipped', condlist(o))
            if len({show(d) for _, _, d in mv}) != 1: c.bad('fields:apart', w, 'the places move apart', condlist(o))
        else:
            one = [decide(I, o, '==', b, C(1)) for a in index(o) for b in index(o)[a] if b[0] == 'call' and b[1] == 'size']
            if dec(o, s) is not False and not any(x is False for x in one): c.bad('fields:over', w, 'a separator becomes part of a field', condlist(o))
            if mv[0][2] == C(1) and not any(x is True for x in one): c.bad('fields:cut', w, 'a character of several bytes is taken apart', condlist(o))
    # the place where the last search ended: the variable that is looked at when no text is given
    saved = {cc[2][1] for o in outs for cc, *_ in o.conds if cc[0] == 'cmp' and cc[3] == C(0) and cc[2][0] == 'init' and cc[2][1][0] == 'g' and cc[2][2] == 0}
    if len(saved) != 1:      # the variable that is left just behind the field
        saved = {loc for o in outs if o.kind == 'ret' and lookup(o, k2) for loc, v in o.st.env.items() if loc[0] == 'g' for _, s_ in places(o, k2) if v == add(s_, C(1))}
    if len(saved) != 1: c.notes.append('TEXT_strtok: the place to go on from is not recognised')
    def before(o, L):
        ev = list(o.events)
        return ev[:next(i for i, e in enumerate(ev) if e is L or e == L)]

    def begins(o, k):
        """values the places of loop k start from"""
        L = lookup(o, k); r = [q for loc, (q, s_) in L[3].items() if zero(o, s_) is not None]
        for loc, s_ in places(o, k):
            if loc[0] != 'g' or zero(o, s_) is None: continue
            v = [e[2] for e in before(o, L) if e[0] == 'set' and e[1] == loc]
            r.append(v[-1] if v else ('init', loc, 0))
        return r
    for o in outs:
        if o.kind != 'ret': continue
        L1, L2 = lookup(o, k1), lookup(o, k2); c.ob('field'); w = where(fn, o.line)
        base_ = [o.st.env.get(loc, next((s_ for l2, s_ in (places(o, k2) if L2 else []) + (places(o, k1) if L1 else []) if l2 == loc), None)) for loc in saved]
        given = I.compare(o.st, '==', p, C(0))
        start = None if given is None or len(saved) != 1 else p if given is False else ('init', next(iter(saved)), 0)
        if L2 is None:
            if o.value != C(0): c.bad('fields:empty', w, 'a field is returned although the text is used up', condlist(o))
            elif start is not None and not (L1 is not None and any(zero(o, s_) is True for _, s_ in places(o, k1)) or L1 is None and (zero(o, start) is True or given and I.compare(o.st, '==', start, C(0)) is True)):
                c.bad('fields:missed', w, 'no field is found although the text is not used up', condlist(o))
            continue
        if start is not None and not any(b == start for b in begins(o, k1)):
            c.bad('fields:start', w, 'the search does not start at %s' % ('the text given' if given is False else 'the place where the last one ended'), condlist(o))
        if not any(o.value == s and (dec(o, s) is False or zero(o, s) is False) for loc, s in places(o, k1)): c.bad('fields:begin', w, 'the field does not begin at the first character that is no separator', condlist(o)); continue
        end = next((s for loc, s in places(o, k2) if zero(o, s) is not None), None)
        if end is None: c.bad('fields:noend', w, 'the end of a field is not looked for', condlist(o)); continue
        cut = [e for e in since(o, k2) if e[0] == 'set' and e[1][0] == 'elem' and e[2] == C(0)]
        if zero(o, end) is True:
            if base_ and not any(b == end for b in base_): c.bad('fields:next', w, 'the next search does not start at the end of the text', condlist(o))
        else:
            if len(cut) != 1 or add(flat(cut[0][1][1]), cut[0][1][2]) != end or dec(o, end) is not True: c.bad('fields:close', w, 'the field is not closed at the next separator', condlist(o))
            if base_ and not any(b == add(end, C(1)) for b in base_): c.bad('fields:next', w, 'the next search does not start after the separator', condlist(o))


# ---------------------------------------------------------------- ctm
FLD = {'conv': ('dup', 1), 'turn': ('dup', 2), 't1': ('atof', 3), 'dur': ('atof', 4), 'sp': ('dup', 5)}
FLAGS = ('overlapped', 'comment', 'unsure', 'mispronounced', 'crosstalk', 'ignore')


def ctm(c, prog):
    c.rule('ctm', 'every line that is no comment becomes exactly one word, with the fields file, channel, begin, duration, word, confidence in that order; a line without one of the first five is an error; '
           'reading stops only at the end of the file or when a word of another file was read')
    fn = c.fn(prog.get('fill_mark_struct')); P = {p['n']: ('init', ('v', 1, p['id'], p['n']), 0) for p in fn.params}
    WT = next((('init', ('v', 1, p['id'], p['n']), 0) for p in fn.params if 'WTOKE' in fn.type(p['t'])), None)
    c.need(WT is not None, 'fill_mark_struct: no word list')
    n = 0
    for cs in (0, 1):
        I = Rec(prog, strs(), None, maxpaths=30000); st = I.start(fn)
        seed(I, st, prog, fn, {'case_sense': C(cs)}); out = outp(I, st, fn, ('perr', 'end_of_file'))
        outs = I.run(st)
        rk = {lkey(o) for o in outs if o.kind == 'back' and any(e[0] == 'call' and e[1] == 'tok' for e in since(o, lkey(o)))}
        if len(rk) != 1: c.notes.append('the loop reading ctm lines is not recognised'); return
        rk, = rk
        for o in outs:
            L = lookup(o, rk)
            if not L: copy_down(c, I, fn, o, WT, 'ctm'); continue
            if o.kind == 'stop': continue
            if o.kind == 'back' and lkey(o) != rk: continue
            n += 1; c.ob('ctm line')
            ctm_line(c, I, fn, o, L, rk, cs, WT, out)
    c.floor('ctm', 300)


def needed(I, o, base, k): return decide(I, o, '!=', ('sym', 'tok', (C(k), base)), C(0))


def ctm_line(c, I, fn, o, L, rk, cs, WT, out):
    ev = since(o, rk); w = where(fn, o.line or fn.line)
    cnt = [(loc, s) for loc, (p, s) in L[3].items() if norm(p)[0].get(strip(f(WT, 'n'))) == 1 and not any(x for x in norm(p)[0] if x not in (strip(f(WT, 'n')), strip(f(WT, 's'))))]
    if not cnt: c.notes.append('ctm: the number of words is not recognised'); return
    loc, n0 = cnt[0]
    pre = L[3][loc][0]; moved = decide(I, o, '>', f(WT, 's'), C(1))
    first = [e for e in o.events if e[0] == 'loop' and (e[1], e[2]) == rk]
    if moved is True and not eq(pre, add(add(f(WT, 'n'), f(WT, 's'), -1), C(1))) or moved is False and not eq(pre, f(WT, 'n')): c.bad('ctm:start', w, 'reading starts with %s words' % show(pre), condlist(o))
    rd = [e for e in ev if e[0] == 'call' and e[1] == 'fgets']; tk = [e for e in ev if e[0] == 'call' and e[1] == 'tok']
    LN = ('sym', '!newline', ())
    sets = {}
    for e in ev:
        if e[0] == 'set' and e[1][0] == 'fld' and e[1][1][0] == 'addr' and e[1][1][1][0] == 'elem' and strip(e[1][1][1][1]) == strip(f(WT, 'word')): sets.setdefault(e[1][2], []).append(e)
    got = decide(I, o, '!=', ('sym', 'got', ()), C(0)) if rd else None
    at = lambda q, i: ('init', ('elem', q, C(i)), 0)
    cmt = decide(I, o, '==', at(LN, 0), C(59)) if rd else None
    if o.kind == 'ret':
        err = o.st.env.get(out.get('perr')); e_ = I.compare(o.st, '!=', err, C(0)) if err else None
        if e_ is True:       # refused
            if not rd or not tk and decide(I, o, '==', at(LN, 0), C(0)) is not True and not any(I.read(o.st, I.mkelem(LN, C(0))) == C(0) for _ in [0]): c.bad('ctm:refused', w, 'an error is reported without a faulty line', condlist(o)); return
            if tk and all(needed(I, o, tk[0][2][1], k) is not False for k in range(1, 6)): c.bad('ctm:refused', w, 'a line with all fields is refused', condlist(o))
            return
        if e_ is None: c.bad('ctm:status', w, 'it is not told whether the lines could be read', condlist(o)); return
        if rd and got is True: c.bad('ctm:lost', w, 'reading stops with a line that is not taken', condlist(o)); return
        eof = o.st.env.get(out.get('end_of_file')); last = [s for l, (p, s) in L[3].items() if p == C(0)]
        e1 = I.compare(o.st, '==', eof, C(1)) if eof else None
        if rd and e1 is not True: c.bad('ctm:eof', w, 'the end of the file is not noted', condlist(o))
        if not rd:
            if e1 is True and not any(decide(I, o, '==', s, C(0)) is True for s in last): c.bad('ctm:early', w, 'the end of the file is noted although lines may be left', condlist(o))
            if decide(I, o, '>=', add(n0, C(1)), f(WT, 'max')) is not True: c.bad('ctm:stop', w, 'reading stops although lines and space are left', condlist(o))
        for fld, v in (('n', n0), ('s', C(1))):
            x = o.st.env.get(('fld', WT, fld))
            if x is not None and not eq(x, v) or x is None and not (fld == 's' and moved is False): c.bad('ctm:' + fld, w, 'the list ends up with %s = %s' % (fld, show(x) if x else None), condlist(o))
        return
    if not rd or got is not True: c.bad('ctm:unread', w, 'a word is taken without a line read', condlist(o)); return
    if cmt is None:
        c.bad('ctm:comment', w, 'comment lines are not told apart by their first character', condlist(o)); return
    d = step(o, loc, n0)
    if cmt:
        if d != C(0) or sets: c.bad('ctm:comment', w, 'a comment line becomes a word', condlist(o))
        return
    new = add(n0, C(1))
    if not eq(d, C(1)): c.bad('ctm:count', w, 'a line counts for %s words' % show(d), condlist(o)); return
    fold = [e for e in ev if e[0] == 'call' and e[1] == 'fold']
    if len(fold) != (0 if cs else 1) or fold and (fold[0][2][2] != C(1) or not tk or ev.index(fold[0]) > ev.index(tk[0])): c.bad('ctm:case', w, 'case is %s' % ('changed although it matters' if cs else 'not folded before the fields are taken'), condlist(o))
    if not tk: c.bad('ctm:blank', w, 'a line without fields becomes a word', condlist(o)); return
    b = tk[0][2][1]
    db, kb = affparts(b)
    if not (eq(b, LN) or any(x[0] == 'call' and x[1] == 'TEXT_strspn' for x in db) and LN in db or b[0] == 'call' and b[1] == 'TEXT_skip_wspace' and b[2][0] == LN): c.bad('ctm:line', w, 'the fields are taken from %s' % show(b), condlist(o))
    for e in tk:
        if e[2][2][0] != 'c' or set(e[2][2][1]) - {'\r'} != WS: c.bad('ctm:separators', where(fn, e[3]), 'fields are separated by %s' % show(e[2][2]), condlist(o))
    for k in range(1, 6):
        if needed(I, o, b, k) is not True: c.bad('ctm:missing%d' % k, w, 'a line without field %d is accepted' % k, condlist(o)); return
    for e in ev:
        if e[0] == 'call' and e[1] == 'copy':
            src, m, dst = e[2][1], e[2][2], e[2][0]
            if tokn(src) and dst[0] == 'sym' and dst[1].startswith('!new') and isnum(dst[2][0]) and (m is None or not isnum(m) or m[1] + 1 > dst[2][0][1]): c.bad('ctm:space', where(fn, e[3]), 'a field may be longer than the space it is copied to (%s + 1 of %s)' % (show(m) if m else 'any', dst[2][0][1]), condlist(o))
    T = lambda k: ('sym', 'tok', (C(k), b))
    for fld, l in sets.items():
        for e in l:
            if not eq(e[1][1][1][2], new): c.bad('ctm:index:' + fld, where(fn, e[3]), 'the %s of word %s is set for word %s' % (fld, show(new), show(e[1][1][1][2])), condlist(o))
    val = lambda fld: sets[fld][-1][2] if fld in sets else None
    amp = all(decide(I, o, '==', x, C(38)) is True for x in [('sym', '!first', (T(3),))]) if False else None
    for fld, (op, k) in FLD.items():
        v = val(fld); c.ob('field ' + fld)
        if v is None or v[0] != 'call' or v[1] != op or v[2][0] != T(k) or fld != 't1' and v[2][1] != C(0): c.bad('ctm:' + fld, where(fn, sets[fld][-1][3] if fld in sets else fn.line), 'the %s of a word is %s, not its field %d' % (fld, 'not set' if v is None else show(v) + (' of field %s' % tokn(v[2][0]) if v[0] == 'call' and tokn(v[2][0]) else ''), k), condlist(o))
    v = val('t1'); bm = val('bad_marking')
    if v and v[0] == 'call':
        marks = [decide(I, o, '==', x, C(38)) for a in index(o) for x in index(o)[a] if x == ('sym', '!first', (T(3),)) or x[0] == 'init' and x[1][0] == 'elem' and x[1][2] in (C(0), C(1)) and (x[1][1] == T(3) or text(I, o.st, x[1][1]) == T(3))]
        both = marks.count(True) >= 2
        if (v[2][1] == C(2)) != both: c.bad('ctm:marked', w, 'the begin time is read from position %s of the field' % show(v[2][1]), condlist(o))
        if bm is not None and (bm == C(1)) != both: c.bad('ctm:bad', w, 'a time marked as bad is not noted, or another is', condlist(o))
    # confidence
    v = val('confidence'); c.ob('confidence'); has6, has7 = needed(I, o, b, 6), needed(I, o, b, 7)
    na = next((I.compare(o.st, '==', t, C(0)) for t in o.st.facts if t[0] == 'strcmp' and t[1] and ('c', 'NA') in t and (T(6) in t)), None)
    hc = [e for e in ev if e[0] == 'set' and e[1] == ('fld', WT, 'has_conf')]
    if has6 is True and na is False or has6 is True and na is None:
        if not (v and v[0] == 'call' and v[1] == 'atof' and v[2] == (T(6), C(0))): c.bad('ctm:confidence', w, 'the confidence is %s' % (show(v) if v else 'not set'), condlist(o))
        elif len(hc) != 1 or hc[0][2] != C(1): c.bad('ctm:hasconf', w, 'it is not noted that confidences are given', condlist(o))
    elif v != C(0): c.bad('ctm:noconf', w, 'a word without confidence gets %s' % (show(v) if v else 'none'), condlist(o))
    elif hc: c.bad('ctm:hasconf', w, 'a word without confidence counts as having one', condlist(o))
    for fld in FLAGS:
        if val(fld) != C(0): c.bad('ctm:flag:' + fld, w, 'a new word has %s = %s' % (fld, show(val(fld)) if val(fld) else None), condlist(o))
    alternate(c, I, fn, o, sets, n0, new, T(5), WT, w)
    # growth
    full = decide(I, o, '>=', new, add(f(WT, 'max'), C(-1)))
    if full is not False:
        wd = lambda i: f(('addr', ('elem', f(WT, 'word'), i)), 'conv')
        other = None
        for t in o.st.facts:
            if t[0] == 'strcmp' and len(t) == 4 and not t[1]:
                x = {show(y[2][0]) if y[0] == 'sym' and y[1] == 'text' else y for y in t[2:4]}
                ok = any('[1]' in y and 'conv' in y for y in x if isinstance(y, str)) and any(not isinstance(y, str) and (y == T(1) or y[0] == 'call' and y[1] == 'dup' and y[2][0] == T(1)) or isinstance(y, str) and ('dup' in y) for y in x)
                if ok: other = I.compare(o.st, '!=', t, C(0))
        cp = [e for e in ev if e[0] == 'call' and e[1] in ('memcpy', 'memmove', 'copy')and strip(e[2][1]) == strip(f(WT, 'word'))]
        if other is True:
            return
        if not cp: c.bad('ctm:full', w, 'words of the same file may be lost when the list is full', condlist(o)); return
        e = cp[-1]; nw = o.st.env.get(('fld', WT, 'word'))
        dn, kn = norm(e[2][2]); q = dn.get(strip(n0), 0)
        if nw != e[2][0]: c.bad('ctm:grown', where(fn, e[3]), 'the words are copied to a list that is not used', condlist(o))
        if len(dn) != 1 or q <= 0 or kn < 2 * q: c.bad('ctm:taken', where(fn, e[3]), 'not all words are taken along when the list grows', condlist(o))
        mx = o.st.env.get(('fld', WT, 'max'))
        if nw and nw[0] == 'sym' and nw[1].startswith('!new') and mx is not None:
            cap = nw[2][0]; dm = diff(cap, ('op', '*', mx, C(q)))
            if q and dm[0] and norm(cap) != norm(('op', '*', C(q), mx)) and diff(cap, absint.scale(mx, q)) not in (({}, 0),): c.bad('ctm:max', where(fn, e[3]), 'the space of the list is noted wrongly', condlist(o))


def alternate(c, I, fn, o, sets, n0, new, word, WT, w):
    c.ob('alternation flag')
    v = sets['alternate'][-1][2] if 'alternate' in sets else None
    pa = ('fld', ('addr', ('elem', f(WT, 'word'), n0)), 'alternate')
    prev = None
    for a in index(o):
        if a[0] == 'init' and a[1][0] == 'fld' and a[1][2] == 'alternate' and a[1] == strip(pa):
            for x in index(o)[a]: prev = decide(I, o, '!=', x, C(0)) if decide(I, o, '!=', x, C(0)) is not None else decide(I, o, '==', x, C(1))
    first = decide(I, o, '>', new, C(1))
    end = own = None
    for t in o.st.facts:
        if t[0] == 'strcmp' and t[1]:
            if ('c', '<ALT_END>') in t: end = I.compare(o.st, '==', t, C(0))
            if ('c', '<ALT') in t and len(t) == 5 and t[4] == C(4): own = I.compare(o.st, '==', t, C(0))
    if v is None: c.bad('ctm:alternate', w, 'it is not noted whether a word is part of an alternation', condlist(o)); return
    r = own is True or first is True and prev is True and end is False
    no = own is False and (first is False or prev is False or end is True)
    if not r and not no: c.bad('ctm:alternate', w, 'it is not decided whether a word is part of an alternation', condlist(o))
    elif v != C(1 if r else 0): c.bad('ctm:alternate', w, 'a word %s alternation is noted as %s' % ('in an' if r else 'outside any', show(v)), condlist(o))


def copy_down(c, I, fn, o, WT, tag):
    """before reading: what was used up is released and the rest moved to the front"""
    if o.kind != 'back': return
    k = lkey(o); L = lookup(o, k); ev = since(o, k); w = where(fn, fn.line)
    arr, cnt, lo, org = ('word', 'n', f(WT, 's'), 1) if tag == 'ctm' else ('seg', 'num', f(WT, 's'), 0)
    for e in ev:
        if e[0] == 'call' and e[1] == 'free':
            ix = [x[1][1][1][2] for x in subterms(e[2][0]) if x[0] == 'init' and x[1][0] == 'fld' and x[1][1][0] == 'addr' and x[1][1][1][0] == 'elem']
            for i in ix:
                c.ob('release')
                if decide(I, o, '<', i, lo) is not True: c.bad(tag + ':release', where(fn, e[3]), 'a %s not yet used is released' % ('word' if tag == 'ctm' else 'segment'), condlist(o))
    mv = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem' and strip(e[1][1]) == strip(f(WT, arr)) and e[2][0] == 'init' and e[2][1][0] == 'elem']
    if not mv: return
    c.ob('move to the front')
    e = mv[0]; i = e[2][1][2]; vs = [(loc, p, s) for loc, (p, s) in L[3].items() if s == i]
    if not eq(e[1][2], add(add(i, lo, -1), C(org))): c.bad(tag + ':move', where(fn, e[3]), '%s moves to %s' % (show(i), show(e[1][2])), condlist(o))
    if not vs or not eq(vs[0][1], lo) or not eq(step(o, vs[0][0], vs[0][2]), C(1)): c.bad(tag + ':moveall', where(fn, e[3]), 'the moving does not start with the first one left, one by one', condlist(o))
    # the bound is checked on the way out
    n = f(WT, cnt); hi = add(n, C(0 if tag == 'ctm' else -1))
    strict = [decide(I, o, '<=', i, x) for x in (hi, add(hi, C(1)))]
    if True not in strict: c.bad(tag + ':movebound', where(fn, e[3]), 'the moving is not bounded by the number read', condlist(o))
    if decide(I, o, '<=', i, add(hi, C(-1))) is True: c.bad(tag + ':movelast', where(fn, e[3]), 'the last one is not moved', condlist(o))


# ---------------------------------------------------------------- stm
def stm(c, prog):
    c.rule('stm', 'a segment line is file, channel, speaker, begin, end, an optional label that begins with "<", and the whole rest as text; a line without the first five fields is a failure')
    fn = c.fn(prog.get('parse_stm_line')); ps = [('init', ('v', 1, p['id'], p['n']), 0) for p in fn.params]
    names = [p['n'] for p in fn.params]
    if names[:4] != ['seg', 'buf_ptr', 'buf_len', 'case_sense']:
        c.notes.append('parse_stm_line has other parameters'); 
    SG = ps[0]; n = 0
    for cs in (0, 1):
        I = Rec(prog, strs(), None, maxpaths=8000); st = I.start(fn)
        B = ('v', 0, 'buf', 'buf'); st.env[B] = ('sym', '!newline', ())
        st.env[('v', 1, fn.params[1]['id'], fn.params[1]['n'])] = ('addr', B)
        if len(fn.params) > 3: st.env[('v', 1, fn.params[3]['id'], fn.params[3]['n'])] = C(cs)
        if len(fn.params) > 4: st.env[('v', 1, fn.params[4]['id'], fn.params[4]['n'])] = C(0)
        LN = st.env[B]
        for o in I.run(st):
            tk = [e for e in o.events if e[0] == 'call' and e[1] == 'tok']; w = where(fn, o.line or fn.line)
            b = tk[0][2][1] if tk else None
            T = lambda k: ('sym', 'tok', (C(k), b))
            has = lambda k: needed(I, o, b, k)
            for e in o.events:
                if e[0] == 'call' and e[1] == 'use' and decide(I, o, '!=', e[2][0], C(0)) is not True: c.bad('stm:absent', where(fn, e[3]), 'field %d is used without asking whether it is there' % tokn(e[2][0]), condlist(o)); break
            if o.kind == 'stop':
                if tk and exits(o) is not None:
                    if all(has(k) is not False for k in range(1, 6)): c.bad('stm:refused', w, 'a segment with all fields is refused', condlist(o))
                    if decide(I, o, '!=', exits(o), C(0)) is not True: c.bad('stm:exit', w, 'the failure exits with status 0', condlist(o))
                continue
            if o.kind != 'ret': continue
            c.ob('stm line')
            if not tk:
                if decide(I, o, '==', ('init', ('elem', LN, C(0)), 0), C(0)) is not True: c.bad('stm:unparsed', w, 'a segment is not parsed', condlist(o))
                continue
            n += 1
            if not eq(b, LN) and not (b[0] == 'call' and b[1] == 'TEXT_skip_wspace'): c.bad('stm:line', w, 'the fields are taken from %s' % show(b), condlist(o))
            for e in tk:
                if e[2][2][0] != 'c' or set(e[2][2][1]) - {'\r'} != WS: c.bad('stm:separators', where(fn, e[3]), 'fields are separated by %s' % show(e[2][2]), condlist(o))
            fold = [e for e in o.events if e[0] == 'call' and e[1] == 'fold']
            if len(fold) != (0 if cs else 1) or fold and (fold[0][2][2] != C(1) or list(o.events).index(fold[0]) > list(o.events).index(tk[0])): c.bad('stm:case', w, 'case is %s' % ('changed although it matters' if cs else 'not folded before the fields are taken'), condlist(o))
            miss = [k for k in range(1, 6) if has(k) is not True]
            if miss: c.bad('stm:missing', w, 'a segment without field %d is accepted' % miss[0], condlist(o)); continue
            V = lambda x: o.st.env.get(('fld', SG, x))
            for x, op, k in (('file', 'dup', 1), ('chan', 'dup', 2), ('spkr', 'dup', 3), ('t1', 'atof', 4), ('t2', 'atof', 5)):
                c.ob('field ' + x); v = V(x)
                if v is None or v[0] != 'call' or v[1] != op or v[2] != (T(k), C(0)): c.bad('stm:' + x, w, 'the %s of a segment is %s' % (x, show(v) + (' of field %s' % tokn(v[2][0]) if v[0] == 'call' and tokn(v[2][0]) else '') if v else 'not set'), condlist(o))
            if V('flag1') != C(0): c.bad('stm:flag', w, 'a new segment is flagged', condlist(o))
            lab = None
            if has(6) is True: lab = next((decide(I, o, '==', x, C(60)) for a in index(o) for x in index(o)[a] if x[0] == 'init' and x[1] == ('elem', T(6), C(0)) and decide(I, o, '==', x, C(60)) is not None), None)
            elif has(6) is False: lab = False
            if lab is None: c.bad('stm:label?', w, 'it is not decided whether a segment has a label', condlist(o)); continue
            v = V('labels'); c.ob('label')
            if lab and not (v and v[0] == 'call' and v[1] == 'dup' and v[2] == (T(6), C(0))) or not lab and v != C(0): c.bad('stm:label', w, 'the label of a segment is %s' % (show(v) if v else 'not set'), condlist(o))
            k = 7 if lab else 6; v = V('text'); c.ob('text')
            if has(k) is None: c.bad('stm:text?', w, 'it is not decided whether a segment has a text', condlist(o)); continue
            if has(k) is False:
                if not (v and v[0] == 'call' and v[1] == 'dup' and v[2][0] in (('c', ''), EMPTY)): c.bad('stm:notext', w, 'the text of a segment without words is %s' % (show(v) if v else 'not set'), condlist(o))
                continue
            if not (v and v[0] == 'call' and v[1] == 'dup' and v[2] == (T(k), C(0))): c.bad('stm:text', w, 'the text of a segment is %s' % (show(v) if v else 'not set'), condlist(o)); continue
            if [e for e in tk if e[2][0][1] > k]: c.bad('stm:torn', w, 'the text of a segment is cut at its second word', condlist(o))
            end = add(T(k), ('call', 'strlen', (T(k),), 0))
            fix = [e for e in o.events if e[0] == 'set' and e[1][0] == 'elem' and e[2] == C(32) and eq(add(flat(e[1][1]), e[1][2]), end)]
            last = decide(I, o, '<', end, add(LN, ('call', 'strlen', (LN,), 0)))
            if last is not False and not fix: c.bad('stm:rest', w, 'only the first word of a segment is kept', condlist(o))
            if last is not True and fix: c.bad('stm:beyond', w, 'the end of the line is overwritten', condlist(o))
            kl = [e for e in o.events if e[0] == 'call' and e[1] == 'strlen']
            cut = [e for e in o.events if e[0] == 'set' and e[1][0] == 'elem' and e[2] == C(0) and strip(flat(e[1][1])) == strip(v)]
            for e in cut:
                nl = any(decide(I, o, '==', x, C(10)) is True for a in index(o) for x in index(o)[a] if x[0] == 'init' and strip(x[1]) == strip(e[1]))
                if not nl: c.bad('stm:chop', where(fn, e[3]), 'the text of a segment loses a character that is no newline', condlist(o))
    if not n: c.notes.append('parse_stm_line does not return')


def stm_read(c, prog):
    c.rule('stm lines', 'a line that is neither comment nor blank is never passed over, and no other line is taken for a segment')
    fn = c.fn(prog.get('read_stm_line')); B = ('v', 0, 'buf', 'buf'); N = ('v', 0, 'len', 'len')
    def fgets(s, st, args, node, line, caller):
        k = 1 + sum(1 for e in absint._unroll(st.events) if e[0] == 'call' and e[1] == 'fgets')
        s.event(st, ('call', 'fgets', tuple(args), line, caller))
        if args[0][0] == 'addr': s.write(st, args[0][1], ('sym', '!newline%d' % k, ()))
        return ('sym', 'got%d' % k, ())

    def is_(n):
        def h(s, st, args, node, line, caller):
            v = s.read(st, s.mkelem(args[0], C(0)))
            if v == C(0): return C(1 if n == 'TEXT_is_empty' else 0)
            return ('call', n, (args[0],), 0)
        return h
    T = {'TEXT_ensure_fgets': fgets, 'feof': pure('feof')}
    for x in HAS: T[x] = is_(x)
    I = Rec(prog, T, None); st = I.start(fn)
    st.env[B] = ('sym', '!newline0', ()); st.env[N] = ('sym', 'len', ())
    for p, l in zip(fn.params, (B, N)): st.env[('v', 1, p['id'], p['n'])] = ('addr', l)
    n = 0
    for o in I.run(st):
        ev = list(o.events); rd = [e for e in ev if e[0] == 'call' and e[1] == 'fgets']; w = where(fn, o.line or fn.line)
        L = next((e for e in ev if e[0] == 'loop'), None)
        if o.kind == 'back':
            c.ob('line passed over'); n += 1
            old = L[3][B][1] if L and B in L[3] else None
            if not rd: c.bad('stmlines:loop', w, 'nothing is read', condlist(o)); continue
            i = ev.index(rd[0])
            if old is None or no_utt(I, o, old) is not True: c.bad('stmlines:pass', w, 'a segment is passed over', condlist(o))
            continue
        if o.kind != 'ret': continue
        c.ob('line taken'); cur = o.st.env.get(B)
        first = I.read(o.st, I.mkelem(cur, C(0)))
        if first == C(0):
            # nothing: only if the line was a comment or blank
            z = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem' and e[2] == C(0)]
            if no_utt(I, o, cur) is not True and not any(I.compare(o.st, '==', ('sym', 'got%d' % k, ()), C(0)) is True for k in range(1, 3)): c.bad('stmlines:dropped', w, 'a segment is dropped', condlist(o))
            elif not any(I.compare(o.st, '==', ('sym', 'got%d' % k, ()), C(0)) is True for k in range(1, 3)) and not any(t[0] == 'call' and t[1] == 'feof' and I.compare(o.st, '!=', t, C(0)) is True for t in o.st.facts):
                c.bad('stmlines:end', w, 'the end of the input is reported at a comment or blank line', condlist(o))
            continue
        if no_utt(I, o, cur) is not False: c.bad('stmlines:taken', w, 'a comment or blank line is taken for a segment', condlist(o))
    if not n: c.notes.append('read_stm_line: no loop')


def stm_fill(c, prog):
    c.rule('stm list', 'every segment read is parsed into the next free place and counted once; what is left of earlier segments is moved to the front first; reading stops only at the end of the file or when the list is full')
    fn = c.fn(prog.get('fill_STM'))
    SG = next((('init', ('v', 1, p['id'], p['n']), 0) for p in fn.params if 'stm' in fn.type(p['t']).lower()), None)
    if SG is None: c.notes.append('fill_STM: no list'); return
    T = strs()
    def rl(s, st, args, node, line, caller):
        s.event(st, ('call', 'read', tuple(args), line, caller))
        if args[0][0] == 'addr': s.write(st, args[0][1], ('sym', '!newline', ()))
        return C(0)
    k = [0]
    def feof(s, st, args, node, line, caller):
        q = sum(1 for e in absint._unroll(st.events) if e[0] == 'call' and e[1] == 'read'); return ('sym', 'feof%d' % q, tuple(args))
    T.update({'read_stm_line': rl, 'parse_stm_line': rec('parse'), 'feof': feof})
    I = Rec(prog, T, None, maxpaths=8000); st = I.start(fn); out = outp(I, st, fn, ('perr', 'end_of_file'))
    outs = I.run(st)
    rk = {lkey(o) for o in outs if o.kind == 'back' and any(e[0] == 'call' and e[1] == 'read' for e in since(o, lkey(o)))}
    if len(rk) != 1: c.notes.append('the loop reading segments is not recognised'); return
    rk, = rk
    NUM = ('fld', SG, 'num')
    for o in outs:
        L = lookup(o, rk)
        if not L: copy_down(c, I, fn, o, SG, 'stm'); continue
        ev = since(o, rk); w = where(fn, o.line or fn.line); c.ob('segment read')
        rd = [e for e in ev if e[0] == 'call' and e[1] == 'read']; pa = [e for e in ev if e[0] == 'call' and e[1] == 'parse']
        moved = decide(I, o, '>', f(SG, 's'), C(1))
        pre = [e for e in o.events[:list(o.events).index(L)] if e[0] == 'set' and e[1] == NUM]
        if moved is True and (not pre or not eq(pre[-1][2], add(f(SG, 'num'), f(SG, 's'), -1))): c.bad('stmlist:start', w, 'reading starts with a wrong number of segments', condlist(o))
        if moved is False and pre: c.bad('stmlist:start', w, 'the number of segments changes although none was moved', condlist(o))
        blank = decide(I, o, '==', ('init', ('elem', ('sym', '!newline', ()), C(0)), 0), C(0)) if rd else None
        cnt = [e for e in ev if e[0] == 'set' and e[1] == NUM]
        if o.kind == 'back':
            if len(rd) != 1: c.bad('stmlist:read', w, '%d lines are read at a time' % len(rd), condlist(o)); continue
            if blank is True:
                if pa or cnt: c.bad('stmlist:blank', w, 'a segment is added without a line', condlist(o))
                continue
            if blank is None or len(pa) != 1: c.bad('stmlist:parse', w, 'a segment is parsed %d times' % len(pa), condlist(o)); continue
            a = pa[0][2]
            num = [t[1][2] for t in [a[0]] if t[0] == 'addr' and t[1][0] == 'elem' and strip(t[1][1]) == strip(f(SG, 'seg'))] or [x for x in [add(a[0], f(SG, 'seg'), -1)]]
            if strip(num[0]) != strip(('init', NUM, 0)): c.bad('stmlist:place', where(fn, pa[0][3]), 'a segment is put at %s' % show(num[0]), condlist(o))
            if a[1] != rd[0][2][0] or strip(a[3]) != strip(next(('init', ('v', 1, p['id'], p['n']), 0) for p in fn.params if p['n'] == 'case_sense')): c.bad('stmlist:args', where(fn, pa[0][3]), 'the segment is parsed with other arguments', condlist(o))
            if len(cnt) != 1 or norm(cnt[0][2]) != ({strip(('init', NUM, 0)): 1}, 1): c.bad('stmlist:count', w, 'a segment is counted %s' % [show(e[2]) for e in cnt], condlist(o))
            if decide(I, o, '<', num[0], f(SG, 'max')) is not True and not any(decide(I, o, '<', x, y) is True for a1 in index(o) if a1 == strip(num[0]) for x in index(o)[a1] for y in index(o).get(strip(f(SG, 'max')), ())): c.bad('stmlist:space', w, 'a segment may be put behind the end of the list', condlist(o))
        elif o.kind == 'ret':
            if rd: c.bad('stmlist:lost', w, 'reading stops with a line that is not taken', condlist(o)); continue
            fe = next((I.compare(o.st, '!=', t, C(0)) for t in o.st.facts if t[0] == 'sym' and t[1].startswith('feof')), None)
            room = [decide(I, o, '<', add(x, C(1)), y) for x in index(o).get(strip(('init', NUM, 0)), ()) for y in index(o).get(strip(f(SG, 'max')), ())]
            if fe is not True and not any(r is False for r in room): c.bad('stmlist:stop', w, 'reading stops although lines and space are left', condlist(o))
            eof = o.st.env.get(out.get('end_of_file'))
            if eof is None or not (eof[0] == 'sym' and eof[1].startswith('feof')) and I.compare(o.st, '!=', eof, C(0)) is not fe: c.bad('stmlist:eof', w, 'the end of the file is noted wrongly', condlist(o))
            er = o.st.env.get(out.get('perr'))
            if er is not None and er != C(0): c.bad('stmlist:error', w, 'an error is reported', condlist(o))
