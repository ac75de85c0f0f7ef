"""S08: the word lists of the detailed reports (confusion pairs, insertions, deletions, ...) and the lexicon that counts them."""
import facts, ir, absint
from absint import C, show, add, isnum, affparts
from util import *
from S02 import strip, subterms, param
from S04 import evalcond
import walk
from S02 import all_terms

LISTS = {'CONFUSION PAIRS': ('sub', 'ab'), 'INSERTIONS': ('ins', 'b'), 'DELETIONS': ('del', 'a'), 'SUBSTITUTIONS': ('sub', 'a'), 'FALSELY RECOGNIZED': ('sub', 'b')}


def text(t):
    return t[1] if t[0] == 'c' and isinstance(t[1], str) else None


def word(t):
    """('a'|'b', item) if the term is the text of one side of an alignment item"""
    if t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == 'value' and t[1][1][0] == 'init' and t[1][1][1][0] == 'fld' and t[1][1][1][2] in ('a_ptr', 'b_ptr'):
        return t[1][1][1][2][0], t[1][1][1][1]
    return None


def walks(c, o, L, key, what):
    """the loop visits every element from the first to the last, one by one"""
    n0 = len(list(absint._unroll(L[5])))
    for loc, (pre, sy) in L[3].items():
        end = o.st.env.get(loc, sy)
        if end != add(sy, C(1)): continue
        for cc, tv, line, f in o.conds[n0:n0 + 1]:
            if cc[0] != 'cmp' or sy not in subterms(cc): continue
            if isnum(pre) and pre[1] != 0:
                c.bad(key + ':from', where(o.fn, line), '%s start at element %s' % (what, show(pre)))
            b, k = affparts(cc[3])
            if tv and cc[2] == sy and b and (cc[1] == '<' and k != 0 or cc[1] == '<=' and k != -1):
                c.bad(key + ':to', where(o.fn, line), '%s end at %s %s %s' % (what, show(sy), cc[1], show(cc[3])))
            return True
    return False


def lists(c, prog):
    c.rule('lists', 'each list of error words of the detailed reports takes up exactly the items of its category, the word of the right side of each, once, and nothing else')
    mac = facts.macros('sclite'); LAB = {k: mac['P_' + k.upper()] for k in ('corr', 'sub', 'ins', 'del')}
    keep = {f.qn for f in prog.all() if any(i[0] == 'call' and i[2] == 'AUTO_LEX_insert' for b in ir.cfg(f).blocks for i in b.ins)}
    tops = [f for f in prog.all() if any(i[0] == 'call' and i[2] == 'AUTO_LEX_printout' for b in ir.cfg(f).blocks for i in b.ins)]
    opq = [f.qn for f in prog.all() if f.qn not in keep and f.qn not in {t.qn for t in tops}]
    found = {}
    for top in tops:
        if top.qn.startswith('AUTO_LEX') or top.qn.startswith('dump_'): continue
        rec = lambda n: (lambda s, st, a, node, line, caller: (s.event(st, ('call', n, tuple(a), line, caller)), ('call', n, tuple(a), 0))[1])
        H = {'AUTO_LEX_insert': rec('AUTO_LEX_insert'), 'rsprintf': lambda s, st, a, node, line, caller: ('rs',) + tuple(a)}
        callees = {f.qn for f in prog.all() if f.qn in keep or callers(prog, f, keep)}
        I = Rec(prog, H, opaque=[q for q in opq if q not in callees], maxpaths=60000, maxsteps=8000000)
        I.visited = set(); I.project = lambda st: (frozenset((k, v) for k, v in st.env.items() if v[0] != 'ite'), tuple(sorted(st.visits.items(), key=str)))
        try: outs = I.run(c.fn(top))
        except facts.AnalysisError as e:
            c.notes.append('%s: lists not analysed: %s' % (top.qn, e)); continue
        title = {}; eff = {}
        for o in outs:
            seg = None; first = None
            for e in o.events:
                if e[0] == 'call' and e[1] == 'AUTO_LEX_init': seg = True; first = None
                elif e[0] == 'loop' and seg and first is None: first = (e[1], e[2])
                elif e[0] == 'call' and e[1] == 'AUTO_LEX_printout':
                    t = text(e[2][2])
                    if t in LISTS and first is not None: title.setdefault(first, set()).add(t)
                    th = e[2][3]
                    if t in LISTS and th != C(1):
                        c.bad('lists:%s:%s:threshold' % (top.qn, t), where(e[4], e[3]), 'the list %s leaves out words that occur fewer than %s times' % (t, show(th)))
                    seg = None
            if o.kind == 'back' and seg and first:
                eff.setdefault(first, []).append(o)
        for k, ts in title.items():
            for t in ts: one(c, top, t, eff.get(k, []), LAB, found)
    for t in LISTS:
        if not any(x[1] == t for x in found): c.notes.append('no list titled %s was found' % t)
    c.need(len(found) >= 5, 'the lists of error words are not recognised')


def callers(prog, f, keep):
    return any(i[0] == 'call' and i[2] in keep for b in ir.cfg(f).blocks for i in b.ins)


def one(c, top, t, outs, LAB, found):
    want, side = LISTS[t]
    done = {k: 0 for k in LAB}
    for o in outs:
        L = last_loop_of(o, o.value)
        n0 = len(list(absint._unroll(L[5])))
        conds = o.conds[n0:]
        walks(c, o, L, 'lists:%s:%s' % (top.qn, t), 'the items of the list %s' % t)
        onitem = any(x[0] == 'init' and x[1][0] == 'fld' and x[1][2] == 'eval' for cc, *_ in conds for x in subterms(cc))
        ev = after_loop(o, o.value)
        ins = [e for e in ev if e[0] == 'call' and e[1] == 'AUTO_LEX_insert']
        if not onitem and not ins: continue
        for k, v in LAB.items():
            if any(evalcond(cc, v) not in (tv, None) for cc, tv, l, f in conds): continue
            done[k] += 1
            c.ob('%s: list %s, an item labelled %s enters %d words' % (top.qn, t, k, len(ins)))
            w = where(o.fn, ins[0][3] if ins else o.fn.line)
            if len(ins) != (1 if k == want else 0):
                c.bad('lists:%s:%s:%s' % (top.qn, t, k), w, 'an item labelled %s enters %d words into the list %s' % (k, len(ins), t), condlist(o)); continue
            if not ins: continue
            e = ins[0]; a = e[2][1]
            if side == 'ab':
                parts = [word(x) for x in a[2:]] if a[0] == 'rs' and text(a[1]) and text(a[1]).count('%s') == len(a) - 2 else []
                ok = [p and p[0] for p in parts] == ['a', 'b']
            else: ok = word(a) is not None and word(a)[0] == side
            if not ok: c.bad('lists:%s:%s:word' % (top.qn, t), w, 'the list %s takes up %s' % (t, show(a)), condlist(o))
            items = {strip(x[1]) for x in ([word(a)] if side != 'ab' else [word(y) for y in a[2:]] if a[0] == 'rs' else []) if x}
            lab = {strip(x[1][1]) for cc, *_ in conds for x in subterms(cc) if x[0] == 'init' and x[1][0] == 'fld' and x[1][2] == 'eval'}
            if ok and len(items | lab) != 1: c.bad('lists:%s:%s:item' % (top.qn, t), w, 'the word entered into the list %s is not that of the item examined' % t, condlist(o))
            ret = ('call', 'AUTO_LEX_insert', tuple(e[2]), 0)
            sets = [x for x in ev if x[0] == 'set' and x[1][0] == 'elem' and any(y[0] == 'fld' and y[2] == 'field_a' for y in subterms(x[1][1]))]
            good = len(sets) == 1 and sets[0][1][2] == ret
            if good:
                d, kk = affparts(sets[0][2])
                good = kk == 1 and len(d) == 1 and list(d.values()) == [1] and strip(list(d)[0]) == strip(('init', sets[0][1], 0))
            if not good: c.bad('lists:%s:%s:count' % (top.qn, t), w, 'taking up a word does not add one to the count of that word (%s)' % ', '.join('%s = %s' % (absint.showloc(x[1]), show(x[2])) for x in sets), condlist(o))
    found[(top.qn, t)] = 1
    for k in LAB:
        if k == want and not done[k]: c.bad('lists:%s:%s:none' % (top.qn, t), where(top, top.line), 'no items enter the list %s' % t)


# ---------------------------------------------------------------------------------------------- the lexicon
def lexicon(c, prog):
    c.rule('lexicon', 'looking a word up by bisection loses no part of the list, a hit is a word that compares equal, a miss yields its place in the order; an insertion shifts the following entries by one, adds the word under a new number and keeps every earlier entry and count')
    fn = prog.get('index_search', required=False)
    if fn is None:
        c.notes.append('index_search not found: bisection not analysed')
    else:
        c.fn(fn)
        bisect(c, prog, fn)
    for name in ('AUTO_LEX_insert', 'AUTO_LEX_find'):
        fn = prog.get(name, required=False)
        if fn is None: continue
        c.fn(fn)
        alex, new = param(fn, 1, 0), param(fn, 1, 1)
        def search(s, st, a, node, line, caller):
            s.write(st, a[2][1] if a[2][0] == 'addr' else s.mkelem(a[2], C(0)), ('sym', 'success', 0))
            s.event(st, ('call', 'index_search', tuple(a), line, caller))
            return ('sym', 'rank', 0)
        I = Rec(prog, {'index_search': search, 'TEXT_strdup': pure('dup'), 'malloc': fresh(), 'calloc': fresh()}, maxpaths=4000)
        outs = I.run(fn)
        for o in outs:
            if o.kind != 'ret': continue
            se = [e for e in o.events if e[0] == 'call' and e[1] == 'index_search']
            w = where(fn, o.line); suc = ('sym', 'success', 0); rank = ('sym', 'rank', 0)
            c.ob('%s path at line %s' % (name, o.line))
            if not se or se[-1][2][0] != alex or se[-1][2][1] != new:
                c.bad(name + ':search', w, 'the word is not looked up', condlist(o)); continue
            yes = I.compare(o.st, '!=', suc, C(0))
            if yes is None: c.bad(name + ':flag', w, 'the result of the search is not consulted', condlist(o)); continue
            v = o.value
            if yes:
                if not (v[0] == 'init' and v[1][0] == 'elem' and v[1][2] == rank and strip(v[1][1]) == held(o, alex, 'sort')):
                    c.bad(name + ':found', w, 'for a known word the result is %s, not the number of its entry' % show(v), condlist(o))
                continue
            if name.endswith('find'):
                if not (isnum(v) and v[1] < 0): c.bad(name + ':missing', w, 'an unknown word yields %s' % show(v), condlist(o))
                continue
            sets = [e for e in o.events if e[0] == 'set' and e[1][0] in ('elem', 'fld')]
            num = [e for e in sets if e[1] == ('fld', alex, 'num')]
            strs = [e for e in sets if e[1][0] == 'elem' and e[2] == ('call', 'dup', (new,), 0)]
            srt = [e for e in sets if e[1][0] == 'elem' and e[1][2] == rank and strip(e[1][1]) == held(o, alex, 'sort')]
            strs = [e for e in strs if strip(e[1][1]) == held(o, alex, 'str')]
            n0 = ('init', ('fld', alex, 'num'), 0)
            ok = len(num) == 1 and len(strs) == 1 and len(srt) >= 1 and affparts(num[0][2])[1] == 1 and all(strip(x) == strip(n0) for x in affparts(num[0][2])[0])
            ok = ok and strip(strs[0][1][2]) == strip(n0) and strip(srt[-1][2]) == strip(n0) and strip(v) == strip(n0)
            if not ok: c.bad(name + ':new', w, 'a new word is not stored under the next number, at its place in the order, and counted', condlist(o))
            mx = ('init', ('fld', alex, 'max'), 0)
            if not any(e[0] == 'set' and e[1] == ('fld', alex, 'max') for e in o.events) and I.compare(o.st, '<', n0, mx) is not True:
                c.bad(name + ':room', w, 'a new word can be stored beyond the end of the arrays', condlist(o))
        if name.endswith('insert'): shifts(c, I, fn, alex, outs)
    grow(c, prog)


def fresh():
    n = [0]
    def f(s, st, a, node, line, caller):
        n[0] += 1
        return ('sym', '!new%d' % n[0], line)
    return f


def held(o, alex, f):
    """the array a field of the lexicon holds at the end of the path"""
    return strip(o.st.env.get(('fld', alex, f), ('init', ('fld', alex, f), 0)))


def bisect(c, prog, fn):
    alex, goal, suc = (param(fn, 1, i) for i in range(3))
    num = ('init', ('fld', alex, 'num'), 0)
    I = Rec(prog, {'TEXT_strcmp': pure('cmp')})
    for o in I.run(fn):
        cmps = {x for cc, *_ in o.conds for x in subterms(cc) if x[0] == 'call' and x[1] == 'cmp'}
        w = where(fn, o.line)
        L = next((e for e in reversed(o.events) if e[0] == 'loop'), None)
        flag = [e for e in o.events if e[0] == 'set' and e[1] == ('elem', suc, C(0))]
        sv = flag[-1][2] if flag else None
        mid = None; sign = 1
        for x in cmps:
            for n_, y in enumerate(x[2]):
                if y[0] == 'init' and y[1][0] == 'elem' and x[2][1 - n_] == goal and y[1][2][0] == 'init' and y[1][2][1][0] == 'elem':
                    mid = y[1][2][1][2]; sign = 1 if n_ == 1 else -1; cm = x
        c.ob('bisection path at line %s' % o.line)
        def cmpv(op): return I.compare(o.st, op if sign == 1 else {'<': '>', '>': '<', '==': '=='}[op], cm, C(0))
        lt = gt = eq = None
        if mid is not None:
            lt, gt, eq = cmpv('<'), cmpv('>'), cmpv('==')
            if eq is False and lt is False: gt = True
            if eq is False and gt is False: lt = True
        lo = hi = closed = None
        if L is not None:
            for loc, (p, s) in L[3].items():
                if p == C(0) and (mid is None or s in subterms(mid)): lo = (s, o.st.env.get(loc, s))
                if p == add(num, C(-1)): hi = (s, o.st.env.get(loc, s)); closed = True
                if p == num: hi = (s, o.st.env.get(loc, s)); closed = False
        if o.kind == 'ret':
            if sv is None or not isnum(sv):
                c.bad('search:flag', w, 'the result does not say whether the word was found', condlist(o)); continue
            if sv[1] != 0:
                if mid is None or o.value != mid or eq is not True:
                    c.bad('search:hit', w, 'a word is reported found at %s without having compared equal there' % show(o.value), condlist(o))
                continue
            if L is None:
                if I.compare(o.st, '<', num, C(1)) is not True: c.bad('search:empty', w, 'a word is reported missing although the list has entries', condlist(o))
                if o.value != C(0): c.bad('search:place', w, 'the place of the first word is %s' % show(o.value), condlist(o))
                continue
            if mid is not None and eq is not False: c.bad('search:miss', w, 'a word that compares equal can be reported missing', condlist(o))
        if lo is None or hi is None:
            if mid is None: c.notes.append('the bounds of the bisection are not recognised')
            else: c.bad('search:bounds', w, 'the part of the list searched is not from the first to the last entry, or does not shrink (place compared: %s)' % show(mid), condlist(o))
            continue
        if mid is None:
            if o.kind == 'ret' and o.value != lo[1]: c.bad('search:place', w, 'the place of a missing word is %s, not the lower bound' % show(o.value), condlist(o))
            continue
        inside = [x for x in ((l_, h_) for h_ in range(0, 9) for l_ in range(0, h_ + (1 if closed else 0))) if not within(mid, lo[0], hi[0], x, closed)]
        if inside: c.bad('search:middle', w, 'the place compared, %s, can lie outside the part still searched (%s to %s)' % ((show(mid),) + inside[0]), condlist(o))
        if not inclusive(I, o, lo[0], hi[0], closed) and not (I.compare(o.st, '>', num, C(0)) is True and (o.kind != 'back' or inclusive(I, o, lo[1], hi[1], closed))):
            c.bad('search:nothing', w, 'an entry is compared although none is left to search', condlist(o))
        for what, (s, e), moves, val in (('lower', lo, gt, add(mid, C(1))), ('upper', hi, lt, add(mid, C(-1)) if closed else mid)):
            if e == s: continue
            if moves is not True or e != val:
                c.bad('search:%s' % what, w, 'after a comparison the %s bound becomes %s, losing the half of the list in which the word may be' % (what, show(e)), condlist(o))
        if lo[0] == lo[1] and hi[0] == hi[1] and o.kind == 'back':
            c.bad('search:progress', w, 'a comparison does not narrow the search', condlist(o))
        if o.kind == 'ret':
            if I.compare(o.st, '>' if closed else '>=', lo[1], hi[1]) is not True:
                c.bad('search:early', w, 'a word is reported missing before the whole list was searched', condlist(o))
            if o.value != lo[1]: c.bad('search:place', w, 'the place of a missing word is %s, not the lower bound' % show(o.value), condlist(o))


def inclusive(I, o, a, b, closed):
    return I.compare(o.st, '<=' if closed else '<', a, b) is True


def within(t, lo, hi, v, closed):
    def ev(x):
        if x == lo: return v[0]
        if x == hi: return v[1]
        if isnum(x): return x[1]
        d, k = affparts(x)
        if list(d) != [x]: 
            r = k
            for y, m in d.items():
                e = ev(y)
                if e is None: return None
                r += m * e
            return r
        if x[0] == 'op' and len(x) == 4:
            a, b = ev(x[2]), ev(x[3])
            if a is None or b is None: return None
            if x[1] in ('/', 'i/'): return int(a / b) if b else None
            if x[1] == '>>': return a >> b
            if x[1] == '*': return a * b
            if x[1] == '-': return a - b
            if x[1] == '+': return a + b
        return None
    r = ev(t)
    return r is not None and v[0] <= r and (r <= v[1] if closed else r < v[1])


def shifts(c, I, fn, alex, outs):
    """the entries from the insertion place on move up by one, last first, none left out"""
    rank = ('sym', 'rank', 0); n0 = ('init', ('fld', alex, 'num'), 0); seen = False
    for o in outs:
        if o.kind != 'back': continue
        L = last_loop_of(o, o.value)
        sub = {}
        for loc, (p, s) in L[3].items():
            if add(o.st.env.get(loc, s), s, -1) == C(-1): sub[s] = p
        if not sub: continue
        k = ('sym', 'step', 0)                                   # number of steps already taken
        def now(t): 
            d, c0 = affparts(t); r = C(c0)
            for x, v in d.items():
                y = add(sub[x], k, -1) if x in sub else x
                for _ in range(abs(v)): r = add(r, y, 1 if v > 0 else -1)
            return r
        n1 = len(list(absint._unroll(L[5])))
        for e in after_loop(o, o.value):
            if e[0] != 'set' or e[1][0] != 'elem' or e[2][0] != 'init' or e[2][1][0] != 'elem': continue
            dst = now(add(e[1][1], e[1][2])); src = now(add(e[2][1][1], e[2][1][2]))
            if add(dst, src, -1) != C(1): continue
            base = [x for x in affparts(dst)[0] if strip(x) == held(o, alex, 'sort')]
            seen = True; w = where(fn, e[3])
            if len(base) != 1: c.bad('AUTO_LEX_insert:shift:array', w, 'the entries moved up, %s, are not those of the order' % show(dst), condlist(o)); continue
            idx = add(dst, base[0], -1)
            c.ob('shift of entry %s' % show(idx))
            first = add(idx, k, 1)
            if strip(first) != strip(n0): c.bad('AUTO_LEX_insert:shift:first', w, 'moving the entries up starts at %s, not behind the last entry' % show(first), condlist(o))
            hc = o.conds[n1] if len(o.conds) > n1 else None
            if hc is None: c.bad('AUTO_LEX_insert:shift:last', w, 'moving the entries up has no end', condlist(o))
            if hc and hc[0][0] == 'cmp' and hc[1]:
                op, a, b_ = hc[0][1:4]
                a, b_ = now(a), now(b_)
                if op in ('<', '<='): a, b_ = b_, a; op = '>' if op == '<' else '>='
                gap = add(add(add(a, b_, -1), idx, -1), rank)       # (a-b) - (idx-rank)
                okk = isnum(gap) and (op == '>' and gap[1] == 0 or op == '>=' and gap[1] == -1)
                if not okk and not (op == '!=' and gap == C(0)):
                    c.bad('AUTO_LEX_insert:shift:last', w, 'the entries moved up end at %s %s %s, not at the place of the new word' % (show(hc[0][2]), hc[0][1], show(hc[0][3])), condlist(o))
    if not seen:
        if any(e[0] == 'call' and e[1] == 'memmove' for o in outs for e in o.events): c.notes.append('entries are shifted by memmove: not decided')
        else: c.bad('AUTO_LEX_insert:shift', where(fn, fn.line), 'the entries behind the new word are not moved up by one')


def grow(c, prog):
    """when the lexicon grows, every parallel array is copied whole into one at least as large as the new capacity"""
    c.rule('growth', 'enlarging the lexicon copies every one of its arrays completely and the new capacity is the size allocated')
    fn = prog.get('AUTO_LEX_insert', required=False)
    if fn is None: return
    alex = param(fn, 1, 0)
    rec = prog.recs.get('AUTO_LEX') or prog.recs.get('AUTO_LEX_struct')
    arrays = {q['n'] for q in rec['fields'] if rec['types'][q['t']].endswith('*')} if rec else {'str', 'sort', 'field_a', 'field_b', 'field_c'}
    n = [0]
    def alloc(s, st, a, node, line, caller):
        n[0] += 1
        v = ('sym', '!new%d' % n[0], line)
        s.event(st, ('call', 'malloc', tuple(a) + (v,), line, caller)); return v
    def copy(s, st, a, node, line, caller):
        s.event(st, ('call', 'memcpy', tuple(a), line, caller)); return a[0]
    I = Rec(prog, {'malloc': alloc, 'calloc': alloc, 'realloc': alloc, 'memcpy': copy, 'memmove': copy, 'index_search': lambda s, st, a, node, line, caller: ('sym', 'rank', 0)}, maxpaths=4000)
    any_ = False
    outs = I.run(fn)
    fills = {}
    for o in outs:
        if o.kind != 'back': continue
        S = walk.Step(o, last_loop_of(o, o.value))
        for e in after_loop(o, o.value):
            if e[0] == 'set' and e[1][0] == 'elem' and e[1][1][0] == 'sym': fills[e[1][1][2]] = (e[2], [u for u, l in S.limits()], S.place(e[1]) == add(e[1][1], walk.K), e[3])
    for o in outs:
        if o.kind != 'ret': continue
        freed = [strip(e[2][0]) for e in o.events if e[0] == 'call' and e[1] == 'free']
        for f in sorted(arrays):
            if strip(o.st.env.get(('fld', alex, f), ('init', ('fld', alex, f), 0))) in freed: c.bad('grow:%s:freed' % f, where(fn, fn.line), 'the array %s in use has been released' % f, condlist(o))
        if len(freed) != len(set(freed)): c.bad('grow:twice', where(fn, fn.line), 'an array is released twice', condlist(o))
        mx = [e for e in o.events if e[0] == 'set' and e[1] == ('fld', alex, 'max')]
        if not mx: continue
        any_ = True
        newmax = mx[-1][2]; old = ('init', ('fld', alex, 'max'), 0)
        size = {e[2][-1]: e[2][:-1] for e in o.events if e[0] == 'call' and e[1] == 'malloc'}
        cp = {e[2][0]: e[2][1:] for e in o.events if e[0] == 'call' and e[1] == 'memcpy'}
        for f in sorted(arrays):
            c.ob('array %s' % f)
            v = o.st.env.get(('fld', alex, f))
            if v is None or v[0] != 'sym' or v not in size:
                c.bad('grow:%s' % f, where(fn, fn.line), 'the array %s is not enlarged with the others' % f, condlist(o)); continue
            esz = elsize(rec, f)
            if f == 'field_a':
                fl = fills.get(v[2])
                zero = any(e[0] == 'call' and e[1] == 'memset' and e[2][0] == v and e[2][1] == C(0) for e in o.events) or any(e[0] == 'call' and e[1] == 'calloc' and e[2][-1] == v for e in o.events)
                if not zero and (fl is None or fl[0] != C(0) or not fl[2] or not any(strip(u) == strip(newmax) for u in fl[1])):
                    c.bad('grow:%s:zero' % f, where(fn, fl[3] if fl else fn.line), 'the counts of the words still to come are not all zero (%s)' % (show(fl[0]) if fl else 'not set'), condlist(o))
            tot = size[v][0] if len(size[v]) == 1 else None
            cpy = cp.get(v)
            if esz and tot is not None and not (isnum(add(tot, scale(newmax, esz), -1)) and add(tot, scale(newmax, esz), -1)[1] >= 0):
                c.bad('grow:%s:size' % f, where(fn, fn.line), 'the array %s is allocated %s bytes for a capacity of %s' % (f, show(tot), show(newmax)), condlist(o))
            if cpy is None or strip(cpy[0]) != strip(('init', ('fld', alex, f), 0)) or esz and cpy[1] not in (scale(old, esz),):
                num = ('init', ('fld', alex, 'num'), 0)
                if not (cpy and strip(cpy[0]) == strip(('init', ('fld', alex, f), 0)) and esz and cpy[1] == scale(num, esz)):
                    c.bad('grow:%s:copy' % f, where(fn, fn.line), 'the earlier entries of %s are not all kept (%s)' % (f, ', '.join(map(show, cpy)) if cpy else 'not copied'), condlist(o))
    if not any_: c.notes.append('growth of the lexicon not recognised')
    fn = prog.get('AUTO_LEX_init', required=False)
    if fn is None: return
    c.fn(fn); alex, size = param(fn, 1, 0), param(fn, 1, 1); n[0] = 0; fills.clear()
    I = Rec(prog, {'malloc': alloc, 'calloc': alloc}, maxpaths=4000)
    outs = I.run(fn)
    for o in outs:
        if o.kind != 'back': continue
        S = walk.Step(o, last_loop_of(o, o.value))
        for e in after_loop(o, o.value):
            if e[0] == 'set' and e[1][0] == 'elem': fills[field_of(e[1][1], o, alex)] = (e[2], [u for u, l in S.limits()], strip(S.place(e[1])) == strip(add(e[1][1], walk.K)), e[3])
    for o in outs:
        if o.kind != 'ret': continue
        mx = o.st.env.get(('fld', alex, 'max')); nm = o.st.env.get(('fld', alex, 'num'))
        if mx is None or nm != C(0): c.bad('init:num', where(fn, fn.line), 'a new lexicon is not empty', condlist(o)); break
        size_ = {e[2][-1]: e[2][:-1] for e in o.events if e[0] == 'call' and e[1] in ('malloc', 'calloc')}
        for f in sorted(arrays):
            c.ob('new array %s' % f); v = o.st.env.get(('fld', alex, f)); esz = elsize(rec, f)
            if v not in size_: c.bad('init:%s' % f, where(fn, fn.line), 'the array %s of a new lexicon is not allocated' % f, condlist(o)); continue
            d = add(size_[v][0], scale(mx, esz), -1) if esz and len(size_[v]) == 1 else None
            if d is not None and not (isnum(d) and d[1] >= 0): c.bad('init:%s:size' % f, where(fn, fn.line), 'the array %s is allocated %s bytes for a capacity of %s' % (f, show(size_[v][0]), show(mx)), condlist(o))
        fl = fills.get('field_a')
        zero = any(e[0] == 'call' and e[1] == 'memset' and e[2][0] == o.st.env.get(('fld', alex, 'field_a')) and e[2][1] == C(0) for e in o.events) or any(e[0] == 'call' and e[1] == 'calloc' and e[2][-1] == o.st.env.get(('fld', alex, 'field_a')) for e in o.events)
        if not zero and (fl is None or fl[0] != C(0) or not fl[2] or not any(u in (mx, size) or strip(u) in (strip(mx), strip(('init', ('fld', alex, 'max'), 0))) for u in fl[1])):
            c.bad('init:field_a:zero', where(fn, fl[3] if fl else fn.line), 'the counts of a new lexicon are not all zero (%s)' % (show(fl[0]) if fl else 'not set'), condlist(o)); break


def field_of(b, o, alex):
    for f in ('field_a', 'field_b', 'field_c', 'str', 'sort'):
        if o.st.env.get(('fld', alex, f)) == b or b[0] == 'init' and b[1] == ('fld', alex, f): return f
    return None


def elsize(rec, f):
    for q in rec['fields']:
        if q['n'] == f:
            t = rec['types'][q['t']]
            return 8 if t.count('*') > 1 or 'double' in t else 4 if 'int' in t else None
    return None


def scale(t, k):
    d, c0 = affparts(t)
    return absint.mkaff({x: v * k for x, v in d.items()}, c0 * k)


def printout(c, prog):
    c.rule('printout', 'each line of a list prints the count and the text of one and the same word, every word gets exactly one line unless it occurs fewer times than the threshold, in decreasing order of the counts and, for equal counts, in the order of the words; the totals add the printed counts and words')
    fn = prog.get('AUTO_LEX_printout', required=False)
    if fn is None: return
    c.fn(fn); alex, fp, ttl, thr = (param(fn, 1, i) for i in range(4))
    num = strip(('init', ('fld', alex, 'num'), 0)); fb = strip(('init', ('fld', alex, 'field_b'), 0))
    H = {n: (lambda n: lambda s, st, a, node, line, caller: (s.event(st, ('call', n, tuple(a), line, caller)), C(0))[1])(n) for n in ('sort_int_arr', 'qsort')}
    I = Rec(prog, H, maxpaths=8000)
    outs = I.run(fn)
    backs = {}
    for o in outs:
        if o.kind == 'back': backs.setdefault(key(last_loop_of(o, o.value)), []).append(o)
    outs = [o for o in outs if not walk.overrun(o, backs)]
    backs = {h: [o for o in os if not walk.overrun(o, backs)] for h, os in backs.items()}
    rets = [o for o in outs if o.kind == 'ret']
    prints = ('fprintf', 'printf', 'fputs')
    def lines(ev): return [e for e in ev if e[0] == 'call' and e[1] in prints and any(isfld(v, 'str') for v in e[2])]
    heads = {h for h, os in backs.items() if any(lines(after_loop(o, o.value)) for o in os)}
    w0 = where(fn, fn.line)
    if not heads: c.bad('printout:none', w0, 'the words of a list are not printed'); return
    for h in heads:
        for o in backs[h]:
            L = last_loop_of(o, o.value); S = walk.Step(o, L); pr = lines(after_loop(o, o.value))
            small = [(cc, tv, l) for cc, tv, l, f in S.conds if thr in subterms(cc)]
            c.ob('step of the lines, %d printed' % len(pr))
            w = where(fn, pr[0][3] if pr else o.conds[-1][2] if o.conds else fn.line)
            below = [x for x in small if lower(x[0], x[1], thr) is True]
            for cc, tv, l in small:
                if lower(cc, tv, thr) is None: c.bad('printout:threshold', where(fn, l), 'whether a word is listed depends on %s' % show(cc), condlist(o))
                elif lower(cc, tv, thr) == bool(pr): c.bad('printout:threshold', where(fn, l), 'a word is %slisted when %s is %s' % ('' if pr else 'not ', show(cc), tv), condlist(o))
            lim = [u for u, l in S.limits()]
            if not any(strip(u) == num for u in lim): c.bad('printout:to', w, 'the lines of the list do not end with the last word (%s)' % ', '.join(map(show, lim)), condlist(o))
            if len(pr) != 1:
                if pr or not below: c.bad('printout:line', w, 'a word gets %d lines' % len(pr), condlist(o))
                if any(isfld(add(o.st.env.get(loc, s), s, -1), 'field_a') for loc, (p, s) in L[3].items()): c.bad('printout:total', w, 'the count of a word not printed enters the total', condlist(o))
                continue
            vals = pr[0][2][1:]
            cnt = [v for v in vals if isfld(v, 'field_a')]; txt = [v for v in vals if isfld(v, 'str')]
            if len(cnt) != 1 or len(txt) != 1 or ix(cnt[0]) is None or strip(ix(cnt[0])) != strip(ix(txt[0])):
                c.bad('printout:pair', w, 'a line shows the count %s beside the word %s' % (', '.join(map(show, cnt)), ', '.join(map(show, txt)))); continue
            i = ix(cnt[0])
            if i[0] == 'init' and i[1][0] == 'elem' and isfld(i, 'field_b'):
                at = strip(S.place(i[1]))
                if at != strip(add(fb, walk.K)): c.bad('printout:order', w, 'line k of the list shows entry %s of the order' % show(at), condlist(o))
            else: c.bad('printout:order', w, 'the lines do not follow the order by counts but %s' % show(i), condlist(o))
            tot = [loc for loc, (p, s) in L[3].items() if strip(add(o.st.env.get(loc, s), s, -1)) == strip(cnt[0])]
            if not tot: c.bad('printout:total', w, 'the printed total does not add the printed count', condlist(o)); continue
            for r in rets:
                LR = next((e for e in reversed(r.events) if e[0] == 'loop' and key(e) == h), None)
                if LR is None: c.bad('printout:skipped', w, 'the list can end without its lines', condlist(r)); continue
                p, y = LR[3].get(tot[0], (None, None))
                if p != C(0): c.bad('printout:total:start', w, 'the total starts at %s' % (show(p) if p else '?'), condlist(r))
                after = r.events[r.events.index(LR):]
                if not any(e[0] == 'call' and e[1] in prints and y in e[2] for e in after): c.bad('printout:total:shown', where(fn, r.line or fn.line), 'the total of the counts is not printed', condlist(r))
    for r in rets:
        ev = [e for e in r.events if e[0] == 'call' and e[1] in prints]
        c.ob('heading of the list')
        if not any(ttl in e[2] and any(strip(x) == num for x in e[2]) for e in ev): c.bad('printout:heading', w0, 'the title and the number of words of a list are not printed', condlist(r)); break
        for e in ev:
            if thr not in e[2]: continue
            ys = [x for x in e[2] if x[0] == 'sym']
            src = [(q, loc) for q in r.events[:r.events.index(e)] if q[0] == 'loop' for loc, (p, y) in q[3].items() if y in ys]
            for q, loc in src:
                if q[3][loc][0] != C(0): c.bad('printout:frequent', where(fn, e[3]), 'the number of frequent words starts at %s' % show(q[3][loc][0]), condlist(r))
                for o in backs.get(key(q), []):
                    LO = last_loop_of(o, o.value)
                    if loc not in LO[3]: continue
                    d = add(o.st.env.get(loc, LO[3][loc][1]), LO[3][loc][1], -1); S = walk.Step(o, LO)
                    lo = [lower(cc, tv, thr) for cc, tv, l, f in S.conds if thr in subterms(cc)]
                    if None in lo or (d == C(1)) != (lo == [False]) or d not in (C(0), C(1)): c.bad('printout:frequent', where(fn, e[3]), 'the number of words that occur at least as often as the threshold changes by %s in a step' % show(d), condlist(o))
                    if not any(strip(u) == num for u, l in S.limits()): c.bad('printout:frequent', where(fn, e[3]), 'the number of frequent words is not taken over all words', condlist(o))
            if len(src) < 1 and not any(strip(x) == num for x in e[2]): c.bad('printout:frequent', where(fn, e[3]), 'the number of frequent words is printed as %s' % ', '.join(map(show, e[2][1:])), condlist(r))
        so = [e for e in r.events if e[0] == 'call' and e[1] == 'sort_int_arr']
        if not so and not any(e[0] == 'call' and e[1] == 'qsort' for e in r.events): c.bad('printout:sorted', w0, 'the words are not put in the order of their counts', condlist(r)); break
        dec = facts.macros('sclite').get('DECREASING', 1)
        for e in so[:1]:
            a = [strip(x) for x in e[2]]
            if not isfld(e[2][0], 'field_a', True) or a[1] != num or a[2] != fb or e[2][3] != C(dec): c.bad('printout:sorted', where(fn, e[3]), 'the words are ordered by sort_int_arr(%s)' % ', '.join(map(show, e[2])), condlist(r))
    ties(c, I, fn, outs, backs, fb, num)
    sorter(c, prog)


def key(L): return (L[1], L[2])


def ix(v): return v[1][2] if v[0] == 'init' and v[1][0] == 'elem' else None


def isfld(v, f, itself=False):
    """an element of the array field f (or the array itself)"""
    if itself: return v[0] == 'init' and v[1][0] == 'fld' and v[1][2] == f
    return v[0] == 'init' and v[1][0] == 'elem' and isfld(v[1][1], f, True)


def lower(cc, tv, thr):
    """True/False if the condition says that a word's count is / is not below the threshold; None if it says something else"""
    if cc[0] != 'cmp': return None
    op, a, b = cc[1:4]
    if a == thr: a, b = b, a; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]
    if b != thr or not isfld(a, 'field_a'): return None
    i = ix(a)
    if not (i[0] == 'sym' or isfld(i, 'sort') or isfld(i, 'field_b')): return None
    if op == '<': return tv
    if op == '>=': return not tv
    return None


def ties(c, I, fn, outs, backs, fb, num):
    """runs of equal counts: positions in field_b are exchanged for ranks, sorted, and exchanged back, over one and the same run"""
    def writes(o): return [e for e in after_loop(o, o.value) if e[0] == 'set' and e[1][0] == 'elem' and isfld(e[1][1], 'field_b', True)]
    A, B = {}, {}; other = None
    for h, os in backs.items():
        for o in os:
            S = walk.Step(o, last_loop_of(o, o.value))
            ws = writes(o)
            inner = [e for e in after_loop(o, o.value) if e[0] == 'loop']
            for e in ws:
                dst = strip(S.place(e[1])); v = e[2]
                if walk.K not in affparts(dst)[0]: continue                # a write of a loop inside this one
                if isfld(v, 'sort') and isfld(v[1][2], 'field_b') and strip(S.place(v[1][2][1])) == dst: B.setdefault(h, []).append((o, S, e, dst)); continue
                eq = [1 for cc, tv, l, f in S.conds if cc[0] == 'cmp' and (cc[1] == '==') == bool(tv) and cc[1] in ('==', '!=') and any(isfld(x, 'sort') and x[1][2] == v and isfld(y, 'field_b') and strip(S.place(y[1])) == dst for x, y in ((cc[2], cc[3]), (cc[3], cc[2])))]
                if eq: A.setdefault(h, []).append((o, S, e, dst)); continue
                other = e
    w0 = where(fn, fn.line)
    c.ob('runs of equal counts')
    if other is not None and (A or B): c.bad('ties:write', where(fn, other[3]), 'the order of the words is overwritten with %s' % show(other[2])); return
    if not A and not B:
        q = [e for o in outs for e in o.events if e[0] == 'call' and e[1] == 'qsort']
        if other is None and not q: c.bad('ties:none', w0, 'words of equal count are not put in order')
        elif other is not None and not q: c.bad('ties:write', where(fn, other[3]), 'the order of the words is overwritten with %s' % show(other[2]))
        else: c.notes.append('the ordering of words of equal count is not recognised')
        return
    if not A or not B: c.bad('ties:half', w0, 'positions are exchanged for ranks %s' % ('but not back' if A else 'back without having been exchanged')); return
    for h, xs in B.items():
        for o, S, e, dst in xs:
            beg = add(dst, add(fb, walk.K), -1)
            lim = [u for u, l in S.limits()]
            ev = o.events[:o.events.index(S.L)]
            la = next((x for x in reversed(ev) if x[0] == 'loop' and key(x) in A), None)
            q = next((x for x in reversed(ev) if x[0] == 'call' and x[1] == 'qsort'), None)
            w = where(fn, e[3])
            if la is None or q is None or ev.index(q) < ev.index(la): c.bad('ties:sort', w, 'the ranks of words of equal count are not sorted before they are exchanged back', condlist(o)); continue
            n = S.now(q[2][1])
            if strip(add(q[2][0], fb, -1)) != strip(beg) and strip(S.now(q[2][0])) != strip(add(fb, beg)): c.bad('ties:sort:from', where(fn, q[3]), 'the words of equal count are sorted from %s on' % show(q[2][0]), condlist(o))
            if not any(strip(u) == strip(n) for u in lim): c.bad('ties:sort:number', where(fn, q[3]), 'of the words of equal count %s are sorted but %s exchanged' % (show(n), ', '.join(map(show, lim))), condlist(o))
            if q[2][2] != C(4): c.bad('ties:sort:size', where(fn, q[3]), 'the elements sorted have %s bytes' % show(q[2][2]))
            # the same run in the first exchange
            ao, aS, ae, adst = A[key(la)][0]
            abeg = None
            for loc, (p, y) in la[3].items():
                ya = aS.L[3].get(loc, (None, None))[1]
                if ya in aS.sub and aS.sub[ya][1] == 1 and strip(ae[1][2]) == strip(ya):
                    abeg = p
                    stop = [cc for cc, tv, l, f in o.conds if cc[0] == 'cmp' and y in subterms(cc)]
            if abeg is None or strip(abeg) != strip(beg): c.bad('ties:from', w, 'ranks are taken from position %s on and exchanged back from %s on' % (show(abeg) if abeg else '?', show(beg)), condlist(o))
            else:
                end = add(beg, n)
                if not any(strip(x) == strip(end) and cc[1] in ('<', '!=', '>=', '==', '>') for cc in stop for x in (cc[2], cc[3])): c.bad('ties:to', w, 'ranks are taken up to %s but exchanged back up to %s' % (', '.join(map(show, stop)), show(end)), condlist(o))
            # the run itself
            end = add(beg, n)
            g = next((x for x in ev if x[0] == 'loop' and any(y == end for p, y in x[3].values())), None)
            if g is None: c.notes.append('the run of equal counts is not recognised'); continue
            gl = next(loc for loc, (p, y) in g[3].items() if y == end)
            if strip(g[3][gl][0]) != strip(beg): c.bad('ties:run', w, 'a run of equal counts is sought from %s on, its start is %s' % (show(g[3][gl][0]), show(beg)), condlist(o))
            for go in backs.get(key(g), []):
                G = walk.Step(go, last_loop_of(go, go.value))
                y = G.L[3][gl][1]
                c.ob('extension of a run')
                if y not in G.sub or G.sub[y][1] != 1: c.bad('ties:run:step', where(fn, go.line or fn.line), 'a run of equal counts grows by other than one', condlist(go))
                same = [cc for cc, tv, l, f in G.conds if cc[0] == 'cmp' and cc[1] in ('==', '!=') and (cc[1] == '==') == bool(tv) and all(isfld(x, 'field_a') and isfld(ix(x), 'field_b') for x in cc[2:4])]
                if not any({strip(ix(ix(x))) for x in cc[2:4]} == {strip(y), strip(G.L[3][gl][0])} for cc in same): c.bad('ties:run:equal', where(fn, G.conds[0][2] if G.conds else fn.line), 'a word joins a run of equal counts without having the same count', condlist(go))
                if not any(strip(add(u, G.sub[y][0])) == num for u, l in G.limits() if y in G.sub): c.bad('ties:run:end', where(fn, fn.line), 'a run of equal counts can extend beyond the last word', condlist(go))
            for r in outs:
                if r.kind != 'ret': continue
                # the last run ends with the last word
                og = [x for x in r.events if x[0] == 'loop' and gl in x[3]]
                if og and og[0][3][gl][0] != C(0): c.bad('ties:first', w, 'the ordering of words of equal count starts at word %s' % show(og[0][3][gl][0]), condlist(r)); break
                if og and I.compare(r.st, '>=', r.st.env.get(gl, og[-1][3][gl][1]), next((t for t in all_terms(r) if strip(t) == num), num)) is not True and I.compare(r.st, '>=', og[0][3][gl][1], next((t for t in all_terms(r) if strip(t) == num), num)) is not True:
                    c.bad('ties:all', w, 'the ordering of words of equal count ends before the last word', condlist(r)); break
            # ranks: the search for the rank ends with the entry found, or the program
    return


def sorter(c, prog):
    c.rule('order', 'sort_int_arr yields a rearrangement of all indices, by falling or rising values as asked')
    fn = prog.get('sort_int_arr', required=False)
    if fn is None: return
    c.fn(fn); arr, num, ptr, order = (param(fn, 1, i) for i in range(4))
    I = Rec(prog, {'qsort': lambda s, st, a, node, line, caller: (s.event(st, ('call', 'qsort', tuple(a), line, caller)), C(0))[1]})
    outs = I.run(fn); inc = facts.macros('sclite').get('INCREASING', 0); init = False
    for o in outs:
        if o.kind == 'back':
            S = walk.Step(o, last_loop_of(o, o.value))
            for e in after_loop(o, o.value):
                if e[0] == 'set' and e[1][0] == 'elem':
                    d = S.place(e[1]); c.ob('initial index')
                    if strip(d) == strip(add(ptr, walk.K)) and S.now(e[2]) == walk.K and any(strip(u) == strip(num) for u, l in S.limits()): init = True
                    else: c.bad('order:init', where(fn, e[3]), 'the indices start as %s = %s' % (show(d), show(S.now(e[2]))), condlist(o))
            continue
        if o.kind != 'ret': continue
        q = [e for e in o.events if e[0] == 'call' and e[1] == 'qsort']
        c.ob('call of qsort')
        if len(q) != 1 or q[0][2][0] != ptr or q[0][2][1] != num or q[0][2][2] != C(4): c.bad('order:sort', where(fn, fn.line), 'not all indices are sorted', condlist(o)); continue
        f = q[0][2][3]
        cmpf = prog.get(f[1], required=False) if f[0] == 'fn' else None
        if cmpf is None: c.notes.append('comparison of sort_int_arr unknown'); continue
        up = I.compare(o.st, '==', order, C(inc))
        if up is None: c.bad('order:direction', where(fn, q[0][3]), 'the direction of the order is not consulted', condlist(o)); continue
        J = Rec(prog, {}); p, p1 = (param(cmpf, 1, i) for i in range(2))
        for r in J.run(c.fn(cmpf)):
            if r.kind != 'ret': continue
            g = {s: ('init', ('elem', ('init', b, 0), ('init', ('elem', s, C(0)), 0)), 0) for s in (p, p1) for b in [base(r.value)] if b}
            if len(g) < 2: c.notes.append('comparison %s not recognised' % cmpf.qn); continue
            lo, hi = (p, p1) if up else (p1, p)
            want = add(g[lo], g[hi], -1)
            if r.value != want and not isnum(r.value): c.bad('order:compare:%s' % cmpf.qn, where(cmpf, r.line), 'for %s order the comparison is %s' % ('rising' if up else 'falling', show(r.value)), condlist(r))
            setg = [e for e in o.events if e[0] == 'set' and e[1] == base(r.value)]
            if not setg or setg[-1][2] != arr: c.bad('order:values', where(fn, fn.line), 'the values compared are not those to be ordered', condlist(o))
    if not init: c.bad('order:init', where(fn, fn.line), 'the indices to be sorted are not set')


def base(v):
    for x in subterms(v):
        if x[0] == 'init' and x[1][0] == 'elem' and x[1][1][0] == 'init' and x[1][1][1][0] == 'g': return x[1][1][1]
    return None


def lattice(c, prog):
    c.rule('lattice', 'in a multi-system alignment every reference word counts once, as an error exactly if no system has it correct, and is then counted once in the list of such words')
    fn = prog.get('lattice_error', required=False)
    if fn is None:
        c.notes.append('lattice_error not found: the multi-system word list is not analysed'); return
    c.fn(fn); mac = facts.macros('sclite'); LAB = {k: mac['P_' + k.upper()] for k in ('corr', 'sub', 'ins', 'del')}
    rw, er, lex = (param(fn, 1, i) for i in (2, 3, 4))
    H = {'TEXT_strcmp': pure('cmp'), 'AUTO_LEX_find': pure('find'), 'AUTO_LEX_insert': pure('insert'), 'exit': None}
    I = Rec(prog, H, maxpaths=4000, maxsteps=8000000)
    n = 0; marks = {}
    def heap(b): return b[0] == 'call' and b[1] in ('malloc', 'calloc') or b[0] == 'sym'
    def arr(x): return x[0] == 'init' and x[1][0] == 'elem' and heap(x[1][1])
    def isev(x): return x[0] == 'init' and x[1][0] == 'fld' and x[1][2] == 'eval'
    def val(cc, sel, v):
        def ev(t):
            if t[0] == 'c': return t[1]
            if sel(t): return v
            if t[0] == 'op' and t[1] in ('&', '|') and len(t) == 4:
                a, b = ev(t[2]), ev(t[3])
                return None if a is None or b is None else a & b if t[1] == '&' else a | b
            return None
        if cc[0] != 'cmp': return None
        a, b = ev(cc[2]), ev(cc[3])
        if a is None or b is None or not any(sel(x) for x in subterms(cc)): return None
        return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[cc[1]]
    for o in I.run(fn):
        if o.kind != 'back': continue
        L = last_loop_of(o, o.value); n0 = len(list(absint._unroll(L[5]))); conds = o.conds[n0:]
        ev = after_loop(o, o.value)
        if any(arr(x) for cc, *_ in conds for x in subterms(cc)):
            walks(c, o, L, 'lattice:count', 'the words counted')
            for k, v in LAB.items():
                if any(val(cc, arr, v) not in (tv, None) for cc, tv, l, f in conds): continue
                n += 1; c.ob('a word marked %s' % k)
                inc = lambda p: [e for e in ev if e[0] == 'set' and e[1] == ('elem', p, C(0))]
                cnt = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem' and any(y[0] == 'fld' and y[2] == 'field_a' for y in subterms(e[1][1]))]
                w = where(fn, o.conds[-1][2])
                def plus(es, m):
                    return len(es) == m and all(affparts(e[2])[1] == 1 and len(affparts(e[2])[0]) == 1 for e in es)
                if not plus(inc(rw), 0 if k == 'ins' else 1): c.bad('lattice:words:%s' % k, w, 'an item marked %s changes the number of reference words %d times' % (k, len(inc(rw))), condlist(o))
                err = k in ('sub', 'del')
                if not plus(inc(er), 1 if err else 0): c.bad('lattice:errors:%s' % k, w, 'an item marked %s changes the number of missed reference words %d times' % (k, len(inc(er))), condlist(o))
                last = cnt[-1:] if cnt else []
                if bool(cnt) != err: c.bad('lattice:list:%s' % k, w, 'an item marked %s is %sentered in the list of missed words' % (k, '' if cnt else 'not '), condlist(o))
                elif err:
                    i = last[0][1][2]
                    ok = i[0] == 'call' and i[1] in ('find', 'insert') and i[2][0] == lex and word(i[2][1]) and word(i[2][1])[0] == 'a'
                    known = i[0] == 'call' and i[1] == 'find'
                    new = I.compare(o.st, '<', ('call', 'find', i[2], 0), C(0)) if i[0] == 'call' else None
                    if not ok: c.bad('lattice:list:word', w, 'the word counted as missed is %s' % show(i), condlist(o))
                    elif known and new is not False: c.bad('lattice:list:unknown', w, 'a word not yet in the list is counted without being entered', condlist(o))
                    one_ = affparts(last[0][2])
                    if not (one_[1] == 1 and (len(one_[0]) == 1 or not one_[0] and new is True)): c.bad('lattice:list:count', w, 'counting a missed word sets its count to %s' % show(last[0][2]), condlist(o))
        for e in ev:
            if e[0] == 'set' and e[1][0] == 'elem' and heap(e[1][1]) and isev(e[2]):
                marks[0] = 1
                src = e[2][1][1]
                if src[0] == 'addr' and src[1][0] == 'elem' and strip(src[1][2]) != strip(e[1][2]):
                    c.bad('lattice:fill', where(fn, e[3]), 'the mark of word %s is taken from word %s' % (show(e[1][2]), show(src[1][2])), condlist(o))
                walks(c, o, L, 'lattice:fill', 'the marks taken from the first system')
            if e[0] == 'set' and e[1][0] == 'elem' and heap(e[1][1]) and e[2] == C(LAB['corr']):
                # only where this system has the word correct
                for k, v in LAB.items():
                    if k != 'corr' and all(val(cc, isev, v) in (tv, None) for cc, tv, l, f in conds[-1:]):
                        c.bad('lattice:mark', where(fn, e[3]), 'a word is taken as recognised by a system that has it marked %s' % k, condlist(o))
                marks[1] = 1
    if not n: c.notes.append('the counting loop of lattice_error is not recognised')
    elif 1 not in marks: c.bad('lattice:none', where(fn, fn.line), 'no system\'s correct words are taken into account beyond the first')


def check(c):
    prog = c.prog('sclite')
    ir.ITE = True
    c.part(lists, c, prog)
    c.part(lexicon, c, prog)
    c.part(printout, c, prog)
    c.part(lattice, c, prog)
