"""S07: case folding and character boundaries (language profiles, encodings)."""
import absint, unicodedata, itertools, walk
from absint import C, show, add, isnum, affparts
from util import *
from S02 import subterms

# letters each profile has to fold (upper, lower); beyond ASCII, which the C library folds
T = lambda up: {(ord(u), ord(u.lower())) for u in up}
ALPHABET = {
    'generic': set(),
    'babel_turkish': T('ÇÖÜĞŞ') | {(0x130, 0x69), (0x49, 0x131)},
    'babel_lithuanian': T('ĄČĘĖĮŠŲŪŽ'),
    'babel_kurmanji': T('ÇÊÎÛŞ'),
    'babel_cebuano': T('Ñ'),
    'babel_guarani': T('ÃÁẼÉĨÍÕÓŨÚỸÝÑ'),
    'babel_kazakh': T('АӘБВГҒДЕЁЖЗИЙКҚЛМНҢОӨПРСТУҰҮФХҺЦЧШЩЪЫІЬЭЮЯ'),
    'babel_mongolian': T('ЁАБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯҮӨ'),
    'babel_vietnamese': T('ĐÁÀẢÃẠĂẮẰẲẴẶÂẤẦẨẪẬÉÈẺẼẸÊẾỀỂỄỆÍÌỈĨỊÓÒỎÕỌƠỚỜỞỠỢÔỐỒỔỖỘÚÙỦŨỤƯỨỪỬỮỰÝỲỶỸỴ'),
    'ukrainian': T('АБВГҐДЕЄЖЗИІЇЙКЛМНОПРСТУФХЦЧШЩЬЮЯЁЪЫЭЎЂЃЅЈЉЊЋЌЏ'),
}
ENC = {'ASCII': 'ASCII', 'EXT_ASCII': 'EXT', 'GB': 'GB', 'EUC': 'GB', 'UTF-8': 'UTF8'}


def gname(t):
    """name of the global array a term reads from, or None"""
    for x in subterms(t):
        if x[0] == 'g': return x[1]
    return None


def glob(prog, name):
    for k, g in prog.globs.items():
        if (k if isinstance(k, str) else k[0]) == name and 'init' in g: return g
    return None


def lit(e):
    while e and e.get('k') == 'cast' and 'cv' not in e: e = e['e']
    return e.get('v', e.get('cv')) if e else None


def table(prog, name):
    g = glob(prog, name)
    if not g or g['init'].get('k') != 'init': return None
    rows = []
    for r in g['init']['els']:
        if r.get('k') != 'init': return None
        rows.append(tuple(lit(x) for x in r['els']))
    return rows


def setters(c, prog, fname, names):
    """{option word: (variable, value)} for a routine that stores an enumeration by name"""
    fn = c.fn(prog.get(fname))
    arg = ('init', ('v', 1, fn.params[0]['id'], fn.params[0]['n']), 0)
    res = {}; unknown = []
    I = Rec(prog, {n: (lambda s, st, a, node, line, caller: s.strcmp(st, 'strcasecmp', a)) for n in ('TEXT_strcasecmp', 'strcasecmp')})
    for o in I.run(fn):
        sets = [e for e in o.events if e[0] == 'set' and e[1][0] == 'g']
        hit = [k[3][1] for k, f in o.st.facts.items() if k[0] == 'strcmp' and f[0] == f[2] == 0]
        ok = o.kind == 'ret' and o.value is not None and isnum(o.value) and o.value[1] != 0
        if hit:
            if not ok or len(sets) != 1: c.bad('%s:%s' % (fname, hit[0]), where(fn, o.line), 'the name %r is not accepted or not stored' % hit[0], condlist(o)); continue
            res[hit[0].lower()] = (sets[0][1], sets[0][2])
        elif ok or sets:
            c.bad('%s:unknown' % fname, where(fn, o.line), 'an unknown name is accepted', condlist(o))
    return res


def check(c):
    prog = c.prog('sclite')
    # ------------------------------------------------------------ names -> profiles -> tables
    c.rule('profile-tables', 'every language profile folds exactly its letters: the table selected for the profile pairs each letter with its own Unicode case counterpart, without duplicates, covers the alphabet of the language, and its stated length is its length')
    prof = setters(c, prog, 'TEXT_set_lang_prof', ALPHABET)
    fn = c.fn(prog.get('getKnownUFTCaseCP'))
    inCP = ('init', ('v', 1, fn.params[0]['id'], fn.params[0]['n']), 0)
    mods = modified_globals(prog)
    for name, alpha in ALPHABET.items():
        if name not in prof:
            c.bad('profile:' + name, where(prog.get('TEXT_set_lang_prof'), 0), 'language profile %s is not recognised' % name); continue
        var, val = prof[name]
        for low in (1, 0):
            I = Rec(prog, {}); st = I.start(fn)
            st.env[var] = val; st.env[('v', 1, fn.params[1]['id'], fn.params[1]['n'])] = C(low)
            src, dst = (0, 1) if low else (1, 0)
            key = '%s:%s' % (name, 'lower' if low else 'upper')
            found = None; full = True; unbounded = False; most = 0
            for o in I.run(st):
                w = where(fn, o.line)
                if o.kind == 'stop': continue
                eqs = [(cc, tv) for cc, tv, _, _ in o.conds if cc[0] == 'cmp' and cc[1] in ('==', '!=') and inCP in cc[2:4]]
                if o.kind == 'back':
                    L = last_loop_of(o, o.value)
                    ix = [s for loc, (p, s) in L[3].items() if p == C(0) and add(o.st.env.get(loc, s), s, -1) == C(1)]
                    if not eqs: full = False
                    if not ix: full = False
                    if alpha and ix:
                        S = walk.Step(o, L); lim = []
                        for u, line in S.limits():
                            n = u[1] if isnum(u) else (lit(glob(prog, gname(u))['init']) if u[0] == 'init' and gname(u) and glob(prog, gname(u)) and gname(u) not in mods else None)
                            if isinstance(n, int): lim.append(n)
                        if not lim: unbounded = True
                        else: most = max(most, min(lim))
                    continue
                v = o.value
                if isnum(v):
                    if v[1] > 0: c.bad('profile:const:' + key, w, 'a fixed character is returned', condlist(o))
                    if not alpha: continue
                    # the table was searched to its end
                    Ls = [e for e in o.events if e[0] == 'loop']
                    done = False
                    for e in Ls:
                        for loc, (p, s) in e[3].items():
                            if p != C(0): continue
                            for cc, tv, _, _ in o.conds:
                                if cc[0] == 'cmp' and s in cc[2:4]:
                                    b = cc[3] if cc[2] == s else cc[2]
                                    n = b[1] if isnum(b) else (lit(glob(prog, gname(b))['init']) if gname(b) and glob(prog, gname(b)) and gname(b) not in mods else None)
                                    if n is not None and I.compare(o.st, '>=', s, b) is True: done = n
                    if done is False: c.bad('profile:search:' + key, w, 'profile %s gives up without searching a table to its end' % name, condlist(o))
                    elif found is None: found = (None, done)
                    else: found = (found[0], done)
                    continue
                # a table entry
                T = gname(v)
                idx = [x for x in (v[1][2],) if v[0] == 'init' and v[1][0] == 'elem']
                okc = v[0] == 'init' and v[1][0] == 'elem' and v[1][2] == C(dst) and any(
                    (cc[1] == '==') == tv and any(x[0] == 'init' and x[1][0] == 'elem' and x[1][2] == C(src) and x[1][1] == v[1][1] for x in cc[2:4]) for cc, tv in eqs)
                if not okc:
                    c.bad('profile:entry:' + key, w, 'the counterpart returned (%s) is not the other half of the table entry that matched' % show(v), condlist(o)); continue
                if found is not None and found[0] not in (None, T):
                    c.bad('profile:two:' + key, w, 'profile %s uses two tables' % name)
                found = (T, found[1] if found else None)
            c.ob('%s -> %s' % (key, found[0] if found else 'no table'))
            if not alpha:
                if found and found[0]: c.bad('profile:generic', where(fn, 0), 'the generic profile folds by table %s' % found[0])
                continue
            if not found or not found[0]:
                c.bad('profile:none:' + key, where(fn, 0), 'profile %s folds no letters' % name); continue
            if not full: c.bad('profile:walk:' + key, where(fn, 0), 'table %s is not walked entry by entry' % found[0])
            rows = table(prog, found[0])
            c.need(rows, 'initialiser of %s not understood' % found[0])
            g = glob(prog, found[0]); wt = '%s (%s)' % (g['file'].replace(facts_repo() + '/', ''), found[0])
            if unbounded or most > len(rows): c.bad('table:over:' + name, wt, 'the search of table %s goes on past its last entry' % found[0])
            if found[1] is not None and found[1] != len(rows):
                c.bad('table:len:' + name, wt, 'table %s has %d entries but %d are searched' % (found[0], len(rows), found[1]))
            if low: check_rows(c, name, alpha, rows, wt)
    # ------------------------------------------------------------ character boundaries
    encs = setters(c, prog, 'TEXT_set_encoding', ENC)
    c.part(boundaries, c, prog, encs)
    c.part(codepoints, c, prog, encs)
    c.part(folding, c, prog, encs)


def facts_repo():
    import facts
    return facts.REPO


def modified_globals(prog):
    import ir
    res = set()
    for f in prog.all():
        g = ir.cfg(f)
        for b in g.reach:
            for i in g.blocks[b].ins:
                if i[0] == 'set' and i[1][0] == 'g': res.add(i[1][1])
    return res


def check_rows(c, name, alpha, rows, w):
    ups = {}; lows = {}
    for n, r in enumerate(rows):
        c.ob('%s: U+%04X/U+%04X' % (name, r[0], r[1]) if n < 3 else None)
        u, l = r
        if not ((u, l) in alpha or (chr(u).lower() == chr(l) and chr(l).upper() == chr(u) and u != l)):
            c.bad('table:pair:%s:%x' % (name, u), w, 'entry %d pairs U+%04X (%s) with U+%04X (%s), which are not upper and lower case of one letter' % (n, u, unicodedata.name(chr(u), '?'), l, unicodedata.name(chr(l), '?')))
        if u in ups or l in lows:
            c.bad('table:dup:%s:%x' % (name, u), w, 'U+%04X/U+%04X occurs twice' % (u, l))
        ups[u] = lows[l] = n
        if not (0 < u < 0x10000 and 0 < l < 0x10000): c.bad('table:range:%s:%x' % (name, u), w, 'code point out of range')
    for u, l in sorted(alpha - set(rows)):
        c.bad('table:miss:%s:%x' % (name, u), w, 'the letter U+%04X (%s) of the %s alphabet is not folded' % (u, unicodedata.name(chr(u), '?'), name))
    c.ob('%s covers its alphabet' % name)


def ev(t, env):
    """value of a pure term under env (term -> int); None if unknown"""
    if t in env: return env[t]
    if t[0] == 'c': return t[1] if isinstance(t[1], int) else None
    if t[0] == 'op' and len(t) == 4:
        a, b = ev(t[2], env), ev(t[3], env)
        if a is None or b is None: return None
        try: return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '>>': lambda: a >> b, '<<': lambda: a << b, '/': lambda: a // b, 'i/': lambda: a // b, '%': lambda: a % b, '*': lambda: a * b}[t[1]]()
        except (KeyError, ZeroDivisionError): return None
    if t[0] == 'aff':
        s = t[2]
        for x, k in t[1]:
            v = ev(x, env)
            if v is None: return None
            s += k * v
        return s
    if t[0] == 'cmp':
        a, b = ev(t[2], env), ev(t[3], env)
        if a is None or b is None: return None
        return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[t[1]])
    return None


def boundaries(c, prog, encs):
    c.rule('character-size', 'for each encoding every lead byte yields the length that encoding prescribes; impossible UTF-8 lead bytes end the program with an error')
    fn = c.fn(prog.get('TEXT_nbytes_of_char'))
    for en, kind in ENC.items():
        if en.lower() not in encs:
            c.bad('encoding:' + en, where(prog.get('TEXT_set_encoding'), 0), 'encoding %s is not recognised' % en); continue
        var, val = encs[en.lower()]
        I = Rec(prog, {}); st = I.start(fn); st.env[var] = val
        outs = I.run(st)
        byte = None
        for o in outs:
            for cc, tv, _, _ in o.conds:
                for t in subterms(cc):
                    if t[0] == 'init' and t[1][0] == 'elem': byte = t
        for b in range(256):
            if kind in ('ASCII', 'EXT'): want = 1
            elif b < 0x80: want = 1
            elif kind == 'GB': want = 2
            else: want = next((n for n, m, v in ((2, 0xE0, 0xC0), (3, 0xF0, 0xE0), (4, 0xF8, 0xF0), (5, 0xFC, 0xF8), (6, 0xFE, 0xFC)) if b & m == v), 'error')
            c.ob('%s lead byte %02x -> %s' % (en, b, want) if b % 64 == 0 else None)
            hits = []
            for o in outs:
                r = [ev(cc, {byte: b}) if byte else None for cc, tv, _, _ in o.conds]
                if all(x is None or bool(x) == tv for x, (cc, tv, _, _) in zip(r, o.conds)): hits.append(o)
            for o in hits:
                got = 'error' if o.kind == 'stop' else (ev(o.value, {byte: b} if byte else {}) if o.value else None)
                if got is None: continue
                if got == 'error' and want == 'error' and exits(o) == C(0): c.bad('size:exit', where(fn, o.line), 'an invalid byte ends the program with status 0')
                if got != want:
                    c.bad('size:%s:%s' % (kind, want), where(fn, o.line), 'in %s a character starting with byte 0x%02x is taken to be %s bytes long, required %s' % (en, b, got, want), condlist(o))


# ---------------------------------------------------------------- bit provenance
def prov(t, src, width, facts):
    """list of 32 entries 0 | 1 | (source, bit), or None; src: term -> (name, number of bits)"""
    W = 32
    if t in src:
        n, k = src[t]
        return [(n, i) if i < k else 0 for i in range(W)]
    if isnum(t):
        if not isinstance(t[1], int) or t[1] < 0: return None
        return [(t[1] >> i) & 1 for i in range(W)]
    if t[0] == 'op' and len(t) == 4:
        a, b = t[2], t[3]
        if t[1] in ('<<', '>>', '/', 'i/', '%') and isnum(b):
            x = prov(a, src, width, facts)
            if x is None: return None
            k = b[1]
            if t[1] in ('/', 'i/', '%'):
                if k <= 0 or k & (k - 1): return None
                s = k.bit_length() - 1
                return x[s:] + [0] * s if t[1] in ('/', 'i/') else x[:s] + [0] * (W - s)
            return ([0] * k + x[:W - k]) if t[1] == '<<' else x[k:] + [0] * k
        x, y = prov(a, src, width, facts), prov(b, src, width, facts)
        if x is None or y is None: return None
        if t[1] == '&':
            r = []
            for p, q in zip(x, y):
                if p == 0 or q == 0: r.append(0)
                elif p == 1: r.append(q)
                elif q == 1 or p == q: r.append(p)
                else: return None
            return r
        if t[1] == '|': return merge(x, y, True)
        if t[1] == '*': return None
        return None
    if t[0] == 'aff':
        x = prov(C(t[2]), src, width, facts)
        if x is None: return None
        for u, k in t[1]:
            if k <= 0 or k & (k - 1) if isinstance(k, int) else True: return None
            y = prov(u, src, width, facts)
            if y is None: return None
            s = k.bit_length() - 1
            x = merge(x, [0] * s + y[:W - s], False)
            if x is None: return None
        return x
    return None


def merge(x, y, orr):
    r = []
    for p, q in zip(x, y):
        if p == 0: r.append(q)
        elif q == 0: r.append(p)
        elif orr and (p == 1 or q == 1): r.append(1)
        else: return None
    return r


def codepoints(c, prog, encs):
    c.rule('code-points', 'decoding places every payload bit of a UTF-8 sequence at its place in the code point and encoding is its inverse (bit-provenance domain)')
    var, val = encs.get('utf-8', (None, None))
    if var is None: return
    fn = c.fn(prog.get('TEXT_getUTFCodePoint')); buf = ('init', ('v', 1, fn.params[0]['id'], fn.params[0]['n']), 0)
    payload = {1: 7, 2: 5, 3: 4, 4: 3, 5: 2}
    for n in range(1, 6):
        I = Rec(prog, {'TEXT_nbytes_of_char': lambda s, st, a, node, line, caller: C(n)}); st = I.start(fn)
        st.env[var] = val; st.env[('v', 1, fn.params[0]['id'], fn.params[0]['n'])] = ('sym', '!buf', 0)
        for o in I.run(st):
            c.ob('decode %d bytes' % n)
            if o.kind == 'stop':
                if n <= 4: c.bad('decode:%d:stop' % n, where(fn, o.line), 'a %d-byte character cannot be decoded' % n)
                continue
            if o.kind != 'ret' or o.value is None: continue
            src = {('init', ('elem', ('sym', '!buf', 0), C(i)), 0): (i, 7 if n == 1 else 8) for i in range(n)}
            got = prov(o.value, src, 32, None)
            if got is None:
                if n == 5: continue
                over = [t for t in subterms(o.value) if t[0] == 'init' and t[1][0] == 'elem' and t[1][1] == ('sym', '!buf', 0) and isnum(t[1][2]) and not 0 <= t[1][2][1] < n]
                if over: c.bad('decode:%d:beyond' % n, where(fn, o.line), 'decoding a %d-byte character uses byte %s' % (n, show(over[0][1][2]))); continue
                lead = {1: range(1, 128, 7), 2: (0xC3, 0xC4, 0xD0, 0xD9, 0xDF), 3: (0xE0, 0xE1, 0xE3, 0xEA, 0xEF), 4: (0xF0, 0xF1, 0xF3, 0xF4)}[n]
                wrong = None; some = False
                for bs in itertools.product(lead, *[(0x80, 0x81, 0x95, 0xAA, 0xBF)] * (n - 1)):
                    g = ev(o.value, {('init', ('elem', ('sym', '!buf', 0), C(i)), 0): b for i, b in enumerate(bs)})
                    if g is None: continue
                    some = True
                    w_ = bs[0] & ((1 << payload[n]) - 1)
                    for b in bs[1:]: w_ = w_ << 6 | b & 0x3F
                    if g != w_: wrong = (bs, g, w_); break
                if wrong: c.bad('decode:%d' % n, where(fn, o.line), 'decoding the bytes %s gives code point %d, required %d' % (' '.join('%02x' % b for b in wrong[0]), wrong[1], wrong[2]))
                elif not some: c.bad('decode:%d:value' % n, where(fn, o.line), 'the code point of a %d-byte character is %s, not a function of its bytes' % (n, show(o.value)))
                else: c.notes.append('decoding of %d-byte characters not in bit form: agrees on the byte values at the limits, not decided for all' % n)
                continue
            want = []
            for i in reversed(range(n)):
                want += [(i, b) for b in range(6 if i else payload[n])]
            want += [0] * (32 - len(want))
            if n == 5: continue       # not Unicode
            if got != want:
                bad = [i for i in range(32) if got[i] != want[i]]
                c.bad('decode:%d' % n, where(fn, o.line), 'decoding a %d-byte character puts the wrong bits at positions %s of the code point' % (n, bad))
    fn = c.fn(prog.get('TEXT_UTFCodePointToTEXT')); cp = ('init', ('v', 1, fn.params[0]['id'], fn.params[0]['n']), 0)
    I = Rec(prog, {}); st = I.start(fn); st.env[var] = val
    seen = set()
    for o in I.run(st):
        if o.kind != 'ret': continue
        lo, ls, hi, hs, ne = o.st.facts.get(cp, (-absint.INF, 0, absint.INF, 0, ()))
        base = o.value
        by = {}
        for e in o.events:
            if e[0] != 'set': continue
            l = e[1]
            if ('addr', l) == base or l == ('elem', base, C(0)): by[0] = e[2]
            elif l[0] == 'elem' and l[1] == base and isnum(l[2]): by[l[2][1]] = e[2]
        if hi == absint.INF: c.bad('encode:range', where(fn, o.line), 'a code point of unbounded size is encoded'); continue
        top = int(hi) - 1 if hs else int(hi)
        n = max(by) + 1 if by else 0
        nb = top.bit_length()
        got = []
        for i in range(n):
            r = prov(by[i], {cp: ('c', nb)}, 32, None) if i in by else None
            if r is None: got = None; break
            got.append(r[:8])
        c.ob('encode code points below %d as %d bytes' % (top + 1, n))
        low = 0 if lo == -absint.INF else lo + (1 if ls else 0)
        w = where(fn, o.line)
        if got is None:
            wrong = None; some = False
            for x in sorted({low, low + 1, low + 63, low + 64, low + 65, (low + top) // 2, (low + top) // 3, top - 64, top - 63, top - 1, top}):
                if not low <= x <= top: continue
                e_ = [ev(by[i], {cp: x}) if i in by else None for i in range(n)]
                if any(y is None for y in e_): continue
                some = True
                if bytes(y % 256 for y in e_) != chr(x).encode('utf-8', 'surrogatepass'): wrong = (x, e_); break
            if wrong: c.bad('encode:%d' % n, w, 'code point %d is encoded as the bytes %s' % (wrong[0], ' '.join('%02x' % (y % 256) for y in wrong[1])), condlist(o))
            elif not some: c.bad('encode:%d:value' % n, w, 'the bytes of code points %d to %d are not a function of the code point' % (low, top), condlist(o))
            else: c.notes.append('encoding not in bit form: agrees at the limits of the range, not decided for all')
            continue
        lead = {1: ([0], 7), 2: ([0, 1, 1], 5), 3: ([0, 1, 1, 1], 4), 4: ([0, 1, 1, 1, 1], 3)}
        if n not in lead or not (n == 1 and top < 0x80 or n == 2 and 0x80 <= low and top < 0x800 or n == 3 and low >= 0x800 and top < 0x10000 or n == 4 and low >= 0x10000 and top < 0x200000):
            c.bad('encode:len:%d' % n, w, 'code points %d to %d are encoded in %d bytes' % (low, top, n), condlist(o)); continue
        want = []; pos = 6 * (n - 1); pay = lead[n][1]
        bit = lambda j: ('c', j) if j < nb else 0
        want.append([bit(pos + j) for j in range(pay)] + lead[n][0])
        for i in range(1, n):
            pos -= 6; want.append([bit(pos + j) for j in range(6)] + [0, 1])
        if got != want:
            k = [i for i in range(n) if got[i] != want[i]]
            c.bad('encode:%d' % n, w, 'byte %s of a %d-byte character is not encoded as UTF-8 prescribes' % (k, n), condlist(o))


def room(c, I, o, L, fn, cp, key, P):
    """before a character is appended to the result, the result has room for it and the terminator, or has just been made larger"""
    dest, src = cp[2][0], cp[2][1]
    w = where(fn, cp[3])
    since = after_loop(o, L[2])
    new = [e for e in since if e[0] == 'set' and e[2][0] == 'call' and e[2][1] in ('malloc', 'calloc', 'realloc')]
    if new:
        base = new[-1][2]
        off = add(dest, base, -1)
        if base in affparts(off)[0]:
            c.bad('fold:moved:' + key, w, 'after the result was made larger the character is still written to the old place', condlist(o))
        return
    nbs = ('call', 'nbytes')
    best = None
    for cc, tv, line, f in o.conds[len(list(absint._unroll(L[5]))):]:
        if cc[0] != 'cmp': continue
        d, k = affparts(add(cc[2], cc[3], -1))
        t = next((x for x in d if x[:2] == nbs), None)
        if t is None or abs(d[t]) != 1 or len(d) < 3: continue
        op = cc[1] if tv else {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[cc[1]]
        if d[t] < 0: d = {x: -v for x, v in d.items()}; k = -k; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        best = op == '<=' and k >= 1 or op == '<' and k >= 0
        if best: break
    if best is False: c.bad('fold:room:' + key, w, 'a character is appended although the result has no room for it and the terminator', condlist(o))
    if best is None:
        if any(e[0] == 'call' and e[1] in ('malloc', 'calloc') and any(t[:2] == ('call', 'strlen') for t in subterms(e[2][0])) for e in o.events): c.notes.append('the result of case conversion is sized in advance: room not decided'); return
        c.bad('fold:room:' + key, w, 'a character is appended without making sure that the result has room for it', condlist(o))


def folding(c, prog, encs):
    c.rule('folding', 'each character of a string is converted once, by the rule of its encoding, copied whole and followed by the next one')
    fn = prog.get('TEXT_str_to_master', required=False)
    if fn is None:
        c.notes.append('TEXT_str_to_master not found: folding loop not analysed'); return
    c.fn(fn)
    def ccpy(s, st, a, node, line, caller):
        v = s.read(st, s.mkelem(a[1], C(0)))
        s.event(st, ('call', 'ccpy', tuple(a) + (v,), line, caller))
        s.write(st, s.mkelem(a[0], C(0)), v)
        return a[0]
    def bcpy(s, st, a, node, line, caller):
        v = s.read(st, s.mkelem(a[1], C(0)))
        ok = a[2] in (('call', 'nbytes', (a[1],), 0),) or a[2] == ('call', 'nbytes', (a[0],), 0)
        s.event(st, ('call', 'ccpy', (a[0], a[1], C(1) if ok else a[2], v), line, caller))
        s.write(st, s.mkelem(a[0], C(0)), v)
        return a[0]
    TB = {'TEXT_nbytes_of_char': pure('nbytes'), 'TEXT_strCcpy': ccpy, 'TEXT_strBcpy': bcpy, 'strncpy': bcpy, 'TEXT_getUTFCodePoint': pure('cp'), 'getKnownUFTCaseCP': pure('known'), 'TEXT_UTFCodePointToTEXT': pure('enc'),
          'TEXT_strlen': pure('strlen'), 'tolower': pure('tolower'), 'toupper': pure('toupper'), 'TEXT_chrlen': pure('chrlen')}
    P = ('init', ('v', 1, fn.params[0]['id'], fn.params[0]['n']), 0)
    for en, kind in ENC.items():
        if en.lower() not in encs: continue
        var, val = encs[en.lower()]
        for low in (0, 1):
            I = Rec(prog, TB); st = I.start(fn); st.env[var] = val
            st.env[('v', 1, fn.params[1]['id'], fn.params[1]['n'])] = C(low)
            for o in I.run(st):
                if o.kind not in ('back', 'ret'): continue
                ls = [e for e in o.events if e[0] == 'loop' and any(p == P for p, s in e[3].values())]
                if not ls:
                    if o.kind == 'ret' and not any(e[0] == 'loop' for e in o.events):
                        z = ('init', ('elem', P, C(0)), 0)
                        zs = [z] + [t for cc, tv, _, _ in o.conds for t in subterms(cc) if t[0] == 'init' and t[1][0] == 'elem' and t[1][1] == P and t[1][2] == C(0)]
                        if not (I.compare(o.st, '==', P, C(0)) is True or any(I.compare(o.st, '==', t, C(0)) is True for t in zs)):
                            c.bad('fold:early:%s' % kind, where(fn, o.line), 'a text that is not empty is returned without having been converted', condlist(o))
                    continue
                L = ls[-1]
                if o.kind == 'back' and o.value != L[2]: continue
                loc, cur = next((l, s) for l, (p, s) in L[3].items() if p == P)
                ch = lambda s: ('init', ('elem', cur, C(0)), 0)
                cps = [e for e in after_loop(o, L[2]) if e[0] == 'call' and e[1] == 'ccpy']
                w = where(fn, cps[-1][3] if cps else o.line)
                key = '%s:%s' % (kind, 'lower' if low else 'upper')
                if not cps:
                    c.notes.append('folding loop has another shape: not decided'); continue
                hold = cps[-1][2][1]
                n = cps[-1][2][3]
                origin = [e for e in cps[:-1] if e[2][0] == hold]
                if not origin and (hold == cur or hold[0] == 'call'):
                    origin = [cps[-1]]; n = I.read(o.st.copy(), I.mkelem(cps[-1][2][0], C(0)))
                c.ob('%s: %s' % (key, show(n)))
                if not origin:
                    c.bad('fold:none:' + key, w, 'converting to %s case in %s: the character written is not taken from the string' % ('lower' if low else 'upper', en), condlist(o)); continue
                odd = [e for e in cps if e[2][2] != C(1)]
                if odd: c.bad('fold:count:' + key, where(fn, odd[0][3]), 'converting to %s case in %s copies %s characters instead of one' % ('lower' if low else 'upper', en, show(odd[0][2][2])), condlist(o))
                room(c, I, o, L, fn, cps[-1], key, P)
                frm = origin[-1][2][1]
                fo = ('call', 'tolower' if low else 'toupper')
                b0 = [t for t in subterms(n) if t[0] == 'init' and t[1][0] == 'elem' and t[1][1] == cur]
                nb = ('call', 'nbytes', (cur,), 0)
                byk = next((k for k, v in ((1, True), (0, False)) if I.compare(o.st, '==', nb, C(1)) is v), None)
                known = ('call', 'known', (('call', 'cp', (cur,), 0), C(low)), 0)
                kn = I.compare(o.st, '>', known, C(0))
                def plainbyte(t): return t[0] == 'init' and t[1] == ('elem', cur, C(0))
                def isfold(t): return t[0] == 'call' and t[1] == fo[1] and plainbyte(t[2][0])
                bad = None
                if kind == 'UTF8' and frm != cur:
                    if frm != ('call', 'enc', (known,), 0) or kn is not True: bad = 'a character is replaced by %s' % show(frm)
                elif kind == 'UTF8' and kn is not False and not (kn is None): bad = 'a letter of the profile is not replaced by its counterpart'
                elif kind == 'UTF8' and kn is None: bad = 'the language profile is not consulted'
                elif frm != cur: bad = 'a character is replaced by %s' % show(frm)
                elif kind in ('GB', 'UTF8'):
                    if byk is None: bad = 'single- and multi-byte characters are not told apart'
                    elif byk and not isfold(n): bad = 'a single-byte character becomes %s' % show(n)
                    elif not byk and not plainbyte(n): bad = 'a multi-byte character is changed to %s' % show(n)
                elif kind == 'ASCII':
                    if not isfold(n): bad = 'a character becomes %s' % show(n)
                else:
                    # extended ASCII: enumerate the bytes compatible with the path
                    rd = {t for cc, tv, _, _ in o.conds for t in subterms(cc) if plainbyte(t)} | {t for t in subterms(n) if plainbyte(t)}
                    for x in range(1, 256):
                        env = {t: x for t in rd}
                        if not all(r is None or bool(r) == tv for r, tv in ((ev(cc, env), tv) for cc, tv, _, _ in o.conds)): continue
                        want = x + 32 if low and 192 <= x <= 223 else x - 32 if not low and x >= 224 else x
                        if x < 128:
                            if not isfold(n): bad = 'the ASCII character %d becomes %s' % (x, show(n))
                        else:
                            g = ev(n, env)
                            if g is None or g % 256 != want: bad = 'byte %d becomes %s, required %d' % (x, show(n), want)
                if bad: c.bad('fold:' + key, w, 'converting to %s case in %s: %s' % ('lower' if low else 'upper', en, bad), condlist(o))
                if o.kind == 'back':
                    d = add(o.st.env.get(loc, cur), cur, -1)
                    if d != nb: c.bad('fold:step:' + key, w, 'the next character is looked for %s bytes on instead of at the end of the current one' % show(d), condlist(o))
    c.floor('folding', 12)
