"""S12: transcript scoring -- every hypothesis utterance once, with the reference of its id, under its speaker."""
import facts, ir, absint
from absint import C, show, showloc, add, isnum
from util import *
from S02 import strip, param, subterms, all_terms
from S09 import lkey, lookup, since
from S11 import named, seed, ALIGN
from path import *

f = lambda t, n: ('init', ('fld', t, n), 0)
HAS = ('TEXT_is_empty', 'TEXT_is_comment', 'TEXT_is_comment_info')
COPY = {'TEXT_strcpy': None, 'strcpy': None, 'TEXT_strBcpy': 2, 'strncpy': 2, 'memcpy': 2, 'memmove': 2}


def check(c):
    prog = c.prog('sclite')
    c.part(comment, c, prog)
    c.part(remove_id, c, prog)
    c.part(speaker, c, prog)
    c.part(refs, c, prog)
    c.part(utterances, c, prog)
    c.part(groups, c, prog)
    c.part(pipeline, c, prog)
    c.part(marks, c, prog)


def rec(n, ret=C(0)):
    def h(s, st, args, node, line, caller):
        s.event(st, ('call', n, tuple(args), line, caller)); return ret(args) if callable(ret) else ret
    return h


def copies():
    def mk(n, k):
        def h(s, st, args, node, line, caller):
            s.event(st, ('call', 'copy', (args[0], args[1], args[k] if k is not None else None, n), line, caller)); return args[0]
        return h
    return {n: mk(n, k) for n, k in COPY.items()}


def table(prog, hyp=None):
    def feof(s, st, args, node, line, caller):
        k = 1 + sum(1 for e in absint._unroll(st.events) if e[0] == 'call' and e[1] == 'feof')
        s.event(st, ('call', 'feof', tuple(args), line, caller)); return ('sym', 'feof%d' % k, tuple(args))

    def fgets(s, st, args, node, line, caller):
        k = 1 + sum(1 for e in absint._unroll(st.events) if e[0] == 'call' and e[1] == 'fgets')
        s.event(st, ('call', 'fgets', tuple(args), line, caller))
        if args[0][0] == 'addr': s.write(st, args[0][1], ('sym', '!line', ()))
        return ('sym', 'got%d' % k, ())

    def rid(s, st, args, node, line, caller):
        s.event(st, ('call', 'remove_id', tuple(args), line, caller))
        if args[1][0] == 'addr': s.write(st, args[1][1], ('sym', '!id', (args[0],)))
        return C(0)

    def fold(s, st, args, node, line, caller):
        s.event(st, ('call', 'fold', tuple(args), line, caller))
        if args[0][0] == 'addr': s.write(st, args[0][1], ('sym', '!fold', (s.read(st, args[0][1]), args[2])))
        return C(0)

    def fopen(s, st, args, node, line, caller): return ('sym', 'file', (args[0],))

    def load(s, st, args, node, line, caller):
        s.event(st, ('call', 'load_refs', tuple(args), line, caller))
        for p, a in named(prog, 'load_refs', args).items():
            if p in ('rset', 'refid', 'refcnt') and a[0] == 'addr': s.write(st, a[1], ('sym', '!' + p, ()))
        return C(0)
    T = {'feof': feof, 'TEXT_ensure_fgets': fgets, 'remove_id': rid, 'TEXT_str_case_change_with_mem_expand': fold, 'fopen': fopen, 'fclose': ignore, 'free': ignore,
         'load_refs': load, 'parse_input_comment_line': lambda s, st, a, *r: ('call', 'TEXT_is_comment', (a[1],), 0),
         'extract_speaker': rec('extract_speaker', lambda a: ('call', 'extract_speaker', (a[0], a[2]), 0)),
         'malloc': lambda s, st, a, node, line, caller: ('sym', '!new%d' % line, tuple(a)),
         'SCORES_init': lambda *a: ('sym', '!newscor', ())}
    for n in HAS + ('SCORES_get_grp', 'TEXT_strdup', 'rsprintf', 'get_date'): T[n] = pure(n)
    for n in ('add_PATH_score', 'qsort', 'bsearch'): T[n] = rec(n)
    T['bsearch'] = rec('bsearch', lambda a: ('call', 'bsearch', tuple(a), 0))
    for n in ('PATH_free', 'PATH_print', 'free_refs'): T[n] = ignore
    for n in ALIGN: T[n] = rec(n, ('sym', '!path', ()))
    T.update(copies())
    return T


def no_utt(I, o, buf):
    """True/False/None: the buffer holds no utterance"""
    r = []
    for n in HAS:
        v = None
        for t in o.st.facts:
            if t[0] == 'call' and t[1] == n and strip(t[2][0]) == strip(buf): v = I.compare(o.st, '!=', t, C(0))
        if v is True: return True
        r.append(v)
    return False if all(v is False for v in r) else None


def base(t):
    """a text without case folding"""
    while t[0] == 'sym' and t[1] == '!fold': t = t[2][0]
    return t


def folded(t): return t[0] == 'sym' and t[1] == '!fold' and t[2][1] == C(1)


def reading(c, I, fn, outs, prog, name):
    """the loop that reads utterances from a file: {key: [(outcome, calls)]}, with the exits checked"""
    res = {}
    for o in outs:
        if o.kind != 'back': continue
        k = lkey(o); ev = since(o, k)
        if any(e[0] == 'call' and e[1] == 'remove_id' for e in ev): res.setdefault(k, [])
    for k in res:
        res[k] = [o for o in outs if o.kind == 'back' and lkey(o) == k]
        for o in outs:
            L = lookup(o, k)
            if o.kind == 'stop' or not L or o.kind == 'back' and lkey(o) == k: continue
            ev = since(o, k)
            cut = next((i for i, e in enumerate(ev) if e[0] == 'loop' and i and ((e[1], e[2]) in res or not inside(fn, k, e))), len(ev))
            ev = ev[:cut]
            if o.kind == 'back' and any(e[0] == 'loop' and (e[1], e[2]) == lkey(o) for e in ev): continue    # still inside
            c.ob('%s: end of the input' % name)
            rd = [e for e in ev if e[0] == 'loop'] or [e for e in ev if e[0] == 'call' and e[1] == 'fgets']
            used = [e for e in ev if e[0] == 'call' and e[1] == 'remove_id']
            if used: c.bad('%s:left' % name, where(fn, used[0][3]), 'reading stops after an utterance that is not taken', condlist(o)); continue
            before = {x: sum(1 for e in o.events[:o.events.index(L)] if e[0] == 'call' and e[1] == x) for x in ('feof', 'fgets')}
            feof = any(I.compare(o.st, '!=', t, C(0)) is True for t in o.st.facts if t[0] == 'sym' and t[1].startswith('feof') and int(t[1][4:]) > before['feof']) or any(I.compare(o.st, '==', t, C(0)) is True for t in o.st.facts if t[0] == 'sym' and t[1].startswith('got') and int(t[1][3:]) > before['fgets'])
            bufs = {t[2][0] for t in o.st.facts if t[0] == 'call' and t[1] in HAS}
            if rd and not any(no_utt(I, o, b) is True for b in bufs): c.bad('%s:dropped' % name, where(fn, rd[0][3] if rd[0][0] == 'call' else fn.line), 'reading stops although the line read last may hold an utterance', condlist(o))
            if not feof: c.bad('%s:early' % name, where(fn, fn.line), 'reading stops before the end of the file', condlist(o))
        for o in res[k]: lengths(c, o, lookup(o, k), since(o, k), fn, name)
        for o in outs:      # a loop that looks for the next utterance
            if o.kind != 'back' or lkey(o) == k or not lookup(o, k): continue
            j = lkey(o); ev = since(o, j); fg = [e for e in ev if e[0] == 'call' and e[1] == 'fgets']
            if not fg or any(e[0] == 'call' and e[1] == 'remove_id' for e in ev) or fg[0][2][0][0] != 'addr': continue
            if not any(e[0] == 'loop' and (e[1], e[2]) == j for e in since(o, k)) or not inside(fn, k, ('loop',) + j): continue
            loc = fg[0][2][0][1]; L = lookup(o, j)
            if loc not in L[3]: continue
            c.ob('%s: line passed over' % name)
            if no_utt(I, o, L[3][loc][1]) is not True and no_utt(I, o, ('sym', '!line', ())) is not True: c.bad('%s:over' % name, where(fn, fg[0][3]), 'a line is read although the one before may hold an utterance', condlist(o))
        for o in outs:
            for e in since(o, k) if lookup(o, k) else ():
                if e[0] == 'call' and e[1] in ('fgets', 'feof'):
                    f_ = e[2][2 if e[1] == 'fgets' else 0]
                    if decide(I, o, '!=', f_, C(0)) is not True: c.bad('%s:open' % name, where(fn, e[3]), 'a file is read although it may not have been opened', condlist(o)); break
    return res


def opened(c, I, fn, outs, name, files):
    """reading does not stop before the file for a file that could be opened"""
    for o in outs:
        if o.kind != 'stop' or not any(e[0] == 'call' and e[1] == 'exit' for e in o.events) or any(e[0] == 'call' and e[1] == 'load_refs' for e in o.events) or len(source(o.events)) == len(files): continue
        tests = [t for t in o.st.facts if t[0] == 'sym' and t[1] == 'file']
        why = False
        for p in files:
            why = why or decide(I, o, '==', p, C(0)) is True or decide(I, o, '==', ('init', ('elem', p, C(0)), 0), C(0)) is True
        why = why or any(decide(I, o, '==', t, C(0)) is True for t in tests)
        if not why: c.bad('%s:refused' % name, where(fn, o.line or fn.line), 'a file that can be opened is refused', condlist(o))


def lengths(c, o, L, ev, fn, name):
    """a buffer that may grow goes with the variable that holds its size"""
    size = {}; back = {}
    for e in ev:
        if e[0] != 'call' or e[1] not in ('fgets', 'remove_id', 'fold'): continue
        b, n = e[2][1:3] if e[1] == 'remove_id' else e[2][:2]
        if b[0] != 'addr' or n[0] != 'addr' or b[1] not in L[3] or n[1] not in L[3]: continue
        c.ob('%s: buffer' % name)
        pb, pn = L[3][b[1]][0], L[3][n[1]][0]
        if size.setdefault(b[1], n[1]) != n[1] or back.setdefault(n[1], b[1]) != b[1] or pb[0] == 'undef' or pb[0] == 'sym' and pb[1].startswith('!new') and isinstance(pb[2], tuple) and pb[2] and not eq(pb[2][0], pn):
            c.bad('%s:buffer' % name, where(fn, e[3]), '%s is taken for the size of %s' % (showloc(n[1]), showloc(b[1])), condlist(o))


def source(ev):
    """the file read"""
    return {e[2][2 if e[1] == 'fgets' else 0] for e in ev if e[0] == 'call' and e[1] in ('fgets', 'feof')}


def inside(fn, k, e):
    if e[1] != k[0]: return True
    g = ir.cfg(fn)
    return fn.qn != e[1] or e[2] in g.loops.get(k[1], ())


# ---------------------------------------------------------------- the id of a line
def comment(c, prog):
    c.rule('lines', 'a line beginning with two comment characters is no utterance; nothing else is taken for a comment')
    for name, ch in (('TEXT_is_comment', 59), ('TEXT_is_comment_info', 42)):
        fn = c.fn(prog.get(name)); s = param(fn, 1, 0)
        I = Rec(prog, {}, None)
        at = lambda i: ('init', ('elem', s, C(i)), 0)
        for o in I.run(I.start(fn)):
            if o.kind != 'ret': continue
            c.ob(name); both = [decide(I, o, '==', at(i), C(ch)) for i in (0, 1)]
            v = I.compare(o.st, '!=', o.value, C(0))
            want = True if both == [True, True] else False if False in both else None
            if want is None or v is not want: c.bad('lines:' + name, where(fn, o.line), '%s decides on %s' % (name, both), condlist(o))
    fn = c.fn(prog.get('parse_input_comment_line'))
    I = Rec(prog, {n: pure(n) for n in ('TEXT_is_comment', 'TEXT_strchr', 'TEXT_strBdup')}, None)
    buf = param(fn, 1, 1)
    for o in I.run(I.start(fn)):
        if o.kind != 'ret': continue
        c.ob('comment line'); v = I.compare(o.st, '!=', o.value, C(0)); d = decide(I, o, '!=', ('call', 'TEXT_is_comment', (buf,), 0), C(0))
        if d is None or v is not d: c.bad('lines:comment', where(fn, o.line), 'a line is taken for a comment although it is none, or the reverse', condlist(o)); break


def remove_id(c, prog):
    c.rule('id', 'the id of an utterance is the text from its last "(" to its last ")", the words are what precedes it; a line with only one of them or with both in the wrong order is refused')
    fn = c.fn(prog.get('remove_id')); utt, idp = param(fn, 1, 0), param(fn, 1, 1)
    T = copies()
    def rchr(s, st, a, *r): return ('call', 'last', (a[0], a[1]), 0)
    T.update({'TEXT_strrchr': rchr, 'strrchr': rchr, 'free': ignore, 'malloc': lambda s, st, a, *r: ('sym', '!new', tuple(a))})
    I = Rec(prog, T, None); idl, lnl = ('v', 0, 'id', 'id'), ('v', 0, 'len', 'len')
    st = I.start(fn); st.env[idp[1]] = ('addr', idl); st.env[param(fn, 1, 2)[1]] = ('addr', lnl)
    R, L = ('call', 'last', (utt, C(41)), 0), ('call', 'last', (utt, C(40)), 0)
    n = 0
    for o in I.run(st):
        r, l = (decide(I, o, '!=', x, C(0)) for x in (R, L)); w = where(fn, o.line or fn.line)
        if o.kind == 'stop':
            if any(e[0] == 'call' and e[1] == 'exit' for e in o.events) and decide(I, o, '==', exits(o) or C(1), C(0)) is not False: c.bad('id:status', w, 'the failure exits with status 0', condlist(o))
            if any(e[0] == 'call' and e[1] == 'exit' for e in o.events) and l is not False and r is not False and decide(I, o, '<=', R, L) is not True and decide(I, o, '<', R, L) is not True: c.bad('id:refused', w, 'a line with an id is refused', condlist(o))
            continue
        if o.kind != 'ret': continue
        cp = [e[2] for e in o.events if e[0] == 'call' and e[1] == 'copy']; n += 1; c.ob('id of a line')
        cut = [e for e in o.events if e[0] == 'set' and e[1][0] == 'elem' and e[2] == C(0) and eq(add(flat(e[1][1]), e[1][2]), L)]
        if l is False and r is False:
            if cp or cut: c.bad('id:none', w, 'a line without an id gets one', condlist(o))
            if not any(e[0] == 'set' and e[1][0] == 'elem' and e[2] == C(0) and strip(add(flat(e[1][1]), e[1][2])) == strip(('init', idl, 0)) for e in o.events): c.bad('id:old', w, 'a line without an id keeps the id of the line before', condlist(o))
            continue
        if not (l is True and r is True): c.bad('id:half', w, 'a line with only one parenthesis is not refused', condlist(o)); continue
        if decide(I, o, '>=', R, L) is not True and decide(I, o, '>', R, L) is not True: c.bad('id:order', w, 'a line whose last ")" precedes its last "(" is not refused', condlist(o))
        if len(cp) != 1 or not eq(cp[0][1], L) or cp[0][2] is None or not eq(cp[0][2], add(add(R, L, -1), C(1))): c.bad('id:text', w, 'the id is not the text from the last "(" to the last ")"', condlist(o)); continue
        if not cut: c.bad('id:cut', w, 'the words do not end where the id begins', condlist(o))
        dst, _, n_, nm = cp[0]; room = add(n_, C(1)); ln = ('init', lnl, 0)
        if nm != 'TEXT_strBcpy' and not any(e[0] == 'set' and e[1][0] == 'elem' and e[2] == C(0) and eq(add(flat(e[1][1]), e[1][2]), add(flat(dst), n_)) for e in o.events): c.bad('id:end', w, 'the id copied is not ended', condlist(o))
        if dst[:2] == ('sym', '!new'):
            if not atl(dst[2][0], room): c.bad('id:room', w, 'the id needs %s bytes, %s are allocated' % (show(room), show(dst[2][0])), condlist(o))
            if o.st.env.get(idl) != dst or not eq(o.st.env.get(lnl, ln), dst[2][0]): c.bad('id:kept', w, 'the new room for the id, or its size, is not handed back', condlist(o))
        elif strip(dst) == strip(('init', idl, 0)):
            if decide(I, o, '<=', room, ln, 0, True) is not True: c.bad('id:room', w, 'an id is copied into room it may not fit in', condlist(o))
            if not eq(o.st.env.get(lnl, ln), ln): c.bad('id:kept', w, 'the size of the room for the id is changed without need', condlist(o))
        else: c.bad('id:place', w, 'the id is copied to %s' % show(dst), condlist(o))
    if not n: c.notes.append('remove_id does not return')


def atl(a, b):
    """a >= b, by a constant difference"""
    d, k = diff(a, b)
    return not d and k >= 0


def enums(prog):
    r = {}
    def walk(x):
        if isinstance(x, dict):
            if x.get('dk') == 'enum' and 'v' in x: r[x.get('n')] = int(x['v'])
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    for fn in prog.all():
        if fn.qn in ('extract_speaker', 'proc_args'): walk(fn.j if hasattr(fn, 'j') else fn.__dict__)
    return r


def option_values(prog):
    """{option word: value stored for it} from the option parser of sclite"""
    r = {}
    for fn in prog.all():
        if not fn.rel().endswith('sclite/sclite.c'): continue
        g = ir.cfg(fn)
        tgt = {}
        for b in g.blocks:
            for i in b.ins:
                if i[0] == 'set' and i[1][0] in ('deref', 'v', 'elem') and (i[1][1] if i[1][0] == 'deref' else i[1])[-1] == 'id_type' and i[2][0] == 'c': tgt[b.id] = i[2][1]
        for b in g.blocks:
            if b.term[0] != 'br': continue
            lits = [i[4] for i in b.ins if i[0] == 'call' and i[2] in ('strcmp', 'TEXT_strcmp', 'strcasecmp', 'TEXT_strcasecmp')]
            for a in lits:
                w = [x[1] for x in a if x[0] == 'c' and isinstance(x[1], str)]
                hit = [s for s in ir.succ(b.term) if s in tgt]
                if len(w) == 1 and len(hit) == 1: r[w[0]] = tgt[hit[0]]
    return r


def speaker(c, prog):
    c.rule('speaker', 'the speaker is the id up to the first hyphen, or else underscore (rm, swb, spu_id), its first three characters (wsj, atis) or all of it (sp); an id without a speaker is a failure')
    fn = c.fn(prog.get('extract_speaker')); idp, sn, ty = (param(fn, 1, i) for i in range(3))
    names = option_values(prog)
    kinds = {'sp': 'all', 'wsj': 'three', 'atis': 'three', 'rm': 'sep', 'swb': 'sep', 'spu_id': 'sep'}
    if not names: c.notes.append('option words for id types not recognised')
    val = {}
    for n, k in kinds.items():
        if not names: break
        if n not in names: c.bad('speaker:name:' + n, 'src/sclite/sclite.c:1 (proc_args)', 'the id type %s is not accepted' % n); continue
        if val.setdefault(names[n], k) != k: c.bad('speaker:value:' + n, where(fn, fn.line), 'the id type %s is stored as another kind' % n)
    T = copies(); T.update({'TEXT_strchr': pure('first'), 'strchr': pure('first')})
    I = Rec(prog, T, None)
    H, U = (('call', 'first', (idp, C(x)), 0) for x in (45, 95))
    seen = set()
    for o in I.run(I.start(fn)):
        if o.kind != 'ret': continue
        k = next((x for v, x in val.items() if decide(I, o, '==', ty, C(v)) is True), None)
        ok = I.compare(o.st, '==', o.value, C(0)); w = where(fn, o.line); c.ob('speaker of an id')
        cp = [e[2] for e in o.events if e[0] == 'call' and e[1] == 'copy']
        if k is None:
            if val and all(decide(I, o, '==', ty, C(v)) is False for v in val) and ok is not False: c.bad('speaker:unknown', w, 'an unknown id type is accepted', condlist(o))
            continue
        seen.add(k)
        if k == 'all':
            good = len(cp) == 1 and eq(cp[0][1], idp) and cp[0][2] is None and ok is True
        elif k == 'three':
            good = len(cp) == 1 and eq(cp[0][1], add(idp, C(1))) and cp[0][2] == C(3) and ok is True
        else:
            h, u = (decide(I, o, '!=', x, C(0)) for x in (H, U))
            p = H if h is True else U if h is False and u is True else None
            if p is None: good = h is False and u is False and ok is False
            else: good = ok is True and len(cp) == 1 and eq(cp[0][1], add(idp, C(1))) and cp[0][2] is not None and eq(cp[0][2], add(add(p, idp, -1), C(-1)))
        if good and ok is True and strip(cp[0][0]) != strip(sn): good = False
        if good and ok is True and cp[0][3] not in ('TEXT_strBcpy', 'strcpy', 'TEXT_strcpy') and not any(e[0] == 'set' and e[1][0] == 'elem' and e[2] == C(0) and eq(add(flat(e[1][1]), e[1][2]), add(flat(sn), cp[0][2])) for e in o.events): c.bad('speaker:end', w, 'the name of the speaker is not ended', condlist(o))
        if not good: c.bad('speaker:' + k, w, 'the speaker is taken as %s' % ([(show(x[1]), show(x[2]) if x[2] else 'all') for x in cp] or 'unchanged, without failure'), condlist(o))
    if val and seen != set(kinds.values()): c.notes.append('id types recognised: %s' % sorted(seen))


# ---------------------------------------------------------------- references
def refs(c, prog):
    c.rule('references', 'the ids of all hypothesis utterances are collected and sorted; every reference text is kept under its id if a hypothesis has it; a second, different text for an id, or an id without a text, makes the run fail')
    fn = c.fn(prog.get('load_refs')); P = {p['n']: ('init', ('v', 1, p['id'], p['n']), 0) for p in fn.params}
    out = {}
    I = Rec(prog, table(prog), None, maxpaths=20000)
    st = I.start(fn); seed(I, st, prog, fn, {})
    for p in fn.params:
        if p['n'] in ('rset', 'refid', 'refcnt'):
            out[p['n']] = ('v', 0, p['n'], p['n']); st.env[('v', 1, p['id'], p['n'])] = ('addr', out[p['n']])
    outs = I.run(st)
    rd = reading(c, I, fn, outs, prog, 'references')
    hyp = {}; ref = {}
    for k, l in rd.items():
        for o in l:
            ev = since(o, k)
            (ref if any(e[0] == 'call' and e[1] == 'bsearch' for x in l for e in since(x, k)) else hyp).setdefault(k, l)
    if len(hyp) != 1 or len(ref) != 1: c.notes.append('the loops reading hypothesis and reference are not recognised'); return
    (hk, hl), = hyp.items(); (rk, rl), = ref.items()
    opened(c, I, fn, outs, 'references', (P['hyp_file'], P['ref_file']))
    for l, k, p in ((hl, hk, 'hyp_file'), (rl, rk, 'ref_file')):
        for o in l:
            for t in source(since(o, k)):
                if t[:2] == ('sym', 'file') and strip(t[2][0]) != strip(P[p]): c.bad('references:file:' + p, where(fn, fn.line), '%s is read where %s is meant' % (show(t[2][0]), p), condlist(o))
    cs = P['case_sense']
    # hypothesis ids
    cnt = None
    for o in hl:
        L = lookup(o, hk); ev = since(o, hk); w = where(fn, fn.line); c.ob('hypothesis id')
        r = [e for e in ev if e[0] == 'call' and e[1] == 'remove_id']
        sets = [e for e in ev if e[0] == 'set' and e[2][0] == 'call' and e[2][1] == 'TEXT_strdup']
        ups = [(loc, s) for loc, (p, s) in L[3].items() if p == C(0) and eq(step(o, loc, s), C(1))]
        if not r:
            if sets or ups: c.bad('references:hypnone', w, 'an id is added without an utterance', condlist(o))
            bufs = {t[2][0] for t in o.st.facts if t[0] == 'call' and t[1] in HAS}
            if not any(no_utt(I, o, b) is True for b in bufs): c.bad('references:hypskip', w, 'an utterance of the hypothesis is passed over', condlist(o))
            continue
        ids(c, I, o, r, cs, w, 'references:hyp', sets[0][2][2][0] if sets else r[0][2][0])
        if len(sets) != 1 or len(ups) != 1: c.bad('references:hypadd', w, 'the id of an utterance is not added exactly once', condlist(o)); continue
        cnt = ups[0][0]
        e = sets[0]
        if e[1][0] != 'elem' or not eq(e[1][2], ups[0][1]) or base(e[2][2][0])[:2] != ('sym', '!id'): c.bad('references:hypid', where(fn, e[3]), '%s is stored at %s' % (show(e[2]), showloc(e[1])), condlist(o)); continue
        arr = e[1][1]; vars_ = [loc for loc, (p, s) in L[3].items() if s == arr]
        room(c, I, o, L, arr, ups[0], where(fn, e[3]))
        if not vars_:       # grown: the old ids must have been copied
            cp = [x[2] for x in ev if x[0] == 'call' and x[1] == 'copy' and x[2][0] == arr]
            if len(cp) != 1 or cp[0][1] not in [s for p, s in L[3].values()] or not eq(cp[0][2], ('op', '*', ups[0][1], C(8))) and diff(cp[0][2], scale8(ups[0][1])) != ({}, 0):
                c.bad('references:grow', where(fn, e[3]), 'the ids collected so far are not taken along when the list grows', condlist(o))
    # references
    fail = None
    kept = {loc for o in rl if any(e[0] == 'set' and e[1][0] == 'elem' and e[2][0] == 'call' and e[2][1] == 'TEXT_strdup' for e in since(o, rk))
            for loc, (p, s) in lookup(o, rk)[3].items() if p == C(0) and eq(step(o, loc, s), C(1))}
    for o in rl:
        L = lookup(o, rk); ev = since(o, rk); w = where(fn, fn.line); c.ob('reference')
        r = [e for e in ev if e[0] == 'call' and e[1] == 'remove_id']; b = [e for e in ev if e[0] == 'call' and e[1] == 'bsearch']
        if not r:
            bufs = {t[2][0] for t in o.st.facts if t[0] == 'call' and t[1] in HAS}
            if not any(no_utt(I, o, x) is True for x in bufs): c.bad('references:skip', w, 'a reference text is passed over', condlist(o))
            continue
        ids(c, I, o, r, cs, w, 'references:ref', b[0][2][0] if b else r[0][2][0])
        if len(b) != 1: c.bad('references:search', w, 'an id is not searched exactly once', condlist(o)); continue
        w = where(fn, b[0][3]); a = b[0][2]
        idset = a[1]
        if base(a[0])[:2] != ('sym', '!id') or a[3] != C(8): c.bad('references:key', w, '%s is searched' % show(a[0]), condlist(o))
        hL = next((e for e in o.events if e[0] == 'loop' and (e[1], e[2]) == hk), None)
        if hL and cnt and (cnt not in hL[3] or not eq(a[2], hL[3][cnt][1])): c.bad('references:searchall', w, 'the id is searched among %s' % show(a[2]), condlist(o))
        q = [e for e in o.events if e[0] == 'call' and e[1] == 'qsort']
        if not q or strip(q[-1][2][0]) != strip(idset) or not eq(q[-1][2][1], a[2]) or q[-1][2][2] != C(8): c.bad('references:sort', w, 'the ids are not sorted before they are searched', condlist(o))
        elif cmpf(prog, q[-1][2][3]) != (1, 1) or cmpf(prog, a[4]) != (0, 1): c.bad('references:order', w, 'ids are not sorted and searched by the same comparison of their whole text', condlist(o))
        ptr = ('call', 'bsearch', tuple(a), 0)
        hit = decide(I, o, '!=', ptr, C(0), n_before(L))
        sets = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem' and e[2][0] == 'call' and e[2][1] == 'TEXT_strdup']
        ups = [(loc, s) for loc, (p, s) in L[3].items() if p == C(0) and eq(step(o, loc, s), C(1)) and loc in kept]
        flags = [(loc, s, o.st.env.get(loc, s)) for loc, (p, s) in L[3].items() if p == C(0) and loc not in kept and loc != cnt
                 and (isnum(o.st.env.get(loc, s)) and o.st.env[loc] != C(0) or isnum(step(o, loc, s)) and step(o, loc, s)[1] > 0)]
        if hit is not True:
            if sets or ups or flags: c.bad('references:other', w, 'a reference without a hypothesis has an effect', condlist(o))
            continue
        slot = [t for t in index(o) if t[0] == 'init' and t[1][0] == 'elem' and eq(t[1][2], add(ptr, idset, -1))]
        empty = None
        for x in slot:
            d = decide(I, o, '==', x, C(0)); empty = d if d is not None else empty
        if empty is None: c.notes.append('slot of a reference text is not recognised'); continue
        sl = slot[0][1][1]
        if sl[0] == 'sym' and sl[1].startswith('!new'):
            if not sl[2] or not (diff(sl[2][0], scale8(a[2])) == ({}, 0) or decide(I, o, '==', scale8(a[2]), C(0)) is True): c.bad('references:slots', w, 'there is not one place for the text of each id', condlist(o))
            zero = [x for x in outs if x.kind == 'back' and any(e[0] == 'set' and e[1][0] == 'elem' and e[1][1] == sl and e[2] == C(0) and e[1][2] in [s for q, s in lookup(x, lkey(x))[3].values() if q == C(0)] for e in since(x, lkey(x)))]
            if not zero and not any(e[0] == 'call' and e[1] == 'memset' and e[2][0] == sl for e in o.events): c.bad('references:empty', w, 'the places for the texts are not empty at first', condlist(o))
        if empty:
            if len(sets) != 1 or not eq(sets[0][1][2], add(ptr, idset, -1)) or not strip(sets[0][1]) == strip(slot[0][1]) or base(sets[0][2][2][0]) != base(r[0][2][0]): c.bad('references:store', w, 'the text of an id is not kept in its place', condlist(o))
            if ev.index(r[0]) > ev.index(sets[0]) if sets else False: c.bad('references:cut', w, 'the text is kept with its id', condlist(o))
            if len(ups) != 1: c.bad('references:count', w, 'a text is not counted once', condlist(o))
            if flags: c.bad('references:fail1', w, 'a first text for an id is a failure', condlist(o))
        else:
            same = None
            for t in o.st.facts:
                if t[0] == 'strcmp' and len(t) == 4 and not t[1] and {base(strip(t[2])), base(strip(t[3]))} == {base(strip(r[0][2][0])), base(strip(slot[0]))}: same = I.compare(o.st, '==', t, C(0))
            if sets or ups: c.bad('references:twice', w, 'a second text for an id is counted or kept', condlist(o))
            if same is None: c.bad('references:double', w, 'a second text for an id is accepted without comparing it with the first as a whole', condlist(o))
            elif same is False and not flags: c.bad('references:differ', w, 'a second, different text for an id is accepted', condlist(o))
            elif same is True and flags: c.bad('references:same', w, 'a second, equal text for an id is refused', condlist(o))
            if flags: fail = flags[0][0]
        if fail is not None and fail in L[3]:
            v = o.st.env.get(fail, L[3][fail][1])
            if isnum(v) and v[1] == 0: c.bad('references:forget', w, 'a failure is forgotten', condlist(o))
    # the end
    n = 0
    for o in outs:
        L = lookup(o, rk)
        if o.kind not in ('ret', 'stop') or not L or o.kind == 'stop' and not any(e[0] == 'call' and e[1] == 'exit' for e in o.events): continue
        if o.kind == 'stop':
            if decide(I, o, '!=', exits(o), C(0)) is not True: c.bad('references:status', where(fn, o.line), 'a failure exits with status 0', condlist(o))
            continue
        if fail in L[3] and any(decide(I, o, '==', add(L[3][fail][1], C(k)), C(0)) is True for k in (1, 2)): continue      # a count of failures is never below 0
        n += 1; c.ob('references complete'); w = where(fn, o.line)
        hL = next((e for e in o.events if e[0] == 'loop' and (e[1], e[2]) == hk), None)
        nref = [s for loc, (p, s) in L[3].items() if p == C(0) and loc != fail]
        if cnt and not any(decide(I, o, '==', s, hL[3][cnt][1]) is True for s in nref): c.bad('references:missing', w, 'an id without a reference text does not make the run fail', condlist(o))
        if fail is not None and not (fail in L[3] and decide(I, o, '==', L[3][fail][1], C(0)) is True): c.bad('references:failed', w, 'different texts for an id do not make the run fail', condlist(o))
        q = [e for e in o.events if e[0] == 'call' and e[1] == 'qsort']
        ri = o.st.env.get(out.get('refid')); 
        cp = [x[2] for x in o.events if x[0] == 'call' and x[1] == 'copy' and x[2][0] == ri]
        if q and not (ri == q[-1][2][0] or cp and strip(cp[-1][1]) == strip(q[-1][2][0]) and any(diff(cp[-1][2], scale8(s)) == ({}, 0) for s in nref + [hL[3][cnt][1]])): c.bad('references:ids', w, 'the ids handed on are not all the sorted ones', condlist(o))
        rc = o.st.env.get(out.get('refcnt'))
        if rc is None or not any(eq(rc, s) for s in nref + [hL[3][cnt][1]]): c.bad('references:refcnt', w, 'the number of references is %s' % (show(rc) if rc else None), condlist(o))
    if not n: c.notes.append('load_refs does not return')


def room(c, I, o, L, arr, count, w):
    """the array written has room for one more: count (or count + 1) <= size, kept by every step"""
    n0, n = L[3][count[0]][0], count[1]
    A = [loc for loc, (p, s) in L[3].items() if p[0] == 'sym' and p[1].startswith('!new') and p[2] and (s == arr or o.st.env.get(loc) == arr)]
    if len(A) != 1: c.notes.append('the list of ids is not recognised'); return
    size = L[3][A[0]][0][2][0]
    for cap, (p, s) in L[3].items():
        if not isnum(p) or cap == count[0] or diff(size, scale8(p)) != ({}, 0): continue
        if p[1] > 0 and any(decide(I, o, '==', absint.scale(s, k), C(0)) is True for k in (1, 8, 16, 2, 3, 4, 24, 32)): return      # the size never shrinks to 0
        new = o.st.env.get(cap, s); grown = arr != L[3][A[0]][1]
        if grown and (arr[0] != 'sym' or not arr[2] or diff(arr[2][0], scale8(new)) != ({}, 0)): continue
        if not grown and not eq(new, s): continue
        for d in (1, 0):
            if not p[1] - n0[1] >= d: continue
            def pos(t, k):      # t >= k under: n >= n0, s >= p, s >= n + d
                v, q = absint.affparts(t); a, b = v.pop(s, 0), v.pop(n, 0)
                if v: return False
                corners = [(n0[1], max(p[1], n0[1] + d))] + ([(p[1] - d, p[1])] if p[1] - d >= n0[1] else [])
                return a >= 0 and a + b >= 0 and all(a * y + b * x + q >= k for x, y in corners)
            def le(x, y): return pos(add(y, x, -1), 0) or decide(I, o, '<=', x, y, n_before(L), True) is True
            if le(add(n, C(1)), new) and le(add(add(n, C(1)), C(d)), new): return
    c.bad('references:room', w, 'an id is stored where there may be no room for it', condlist(o))


def scale8(t):
    d, k = absint.affparts(t)
    return absint.mkaff({x: 8 * q for x, q in d.items()}, 8 * k)


def ids(c, I, o, r, cs, w, key, used):
    """case of the line the id is taken from"""
    s = decide(I, o, '!=', cs, C(0))
    t, lower, chg = used, False, False
    while t[0] == 'sym' and t[1] in ('!fold', '!id'):
        if t[1] == '!fold': lower = lower or t[2][1] == C(1); chg = True
        t = t[2][0]
    if s is not True and not lower: c.bad(key + ':case', w, 'upper and lower case of an id may be told apart', condlist(o))
    if s is not False and chg or chg and not lower: c.bad(key + ':fold', w, 'the case of an id is changed although upper and lower case are told apart, or not to lower case', condlist(o))
    if len(r) != 1: c.bad(key + ':once', w, 'the id is removed %d times' % len(r), condlist(o))
    if no_utt(I, o, base(r[0][2][0])) is not False: c.bad(key + ':nothing', where(r[0][4], r[0][3]) if hasattr(r[0][4], 'line') else w, 'a line that may be empty or a comment is taken for an utterance', condlist(o))


def cmpf(prog, fv):
    """(levels of indirection of both arguments) of a comparison function that compares whole texts, or None"""
    if fv[0] != 'fn': return None
    fn = prog.get(fv[1])
    I = Rec(prog, {}, None)
    r = set()
    for o in I.run(I.start(fn)):
        if o.kind != 'ret' or o.value[0] != 'strcmp' or o.value[1] or len(o.value) != 4: return None
        p = [param(fn, 1, 0), param(fn, 1, 1)]
        lv = []
        for q in p:
            m = [0 if strip(t) == strip(q) else 1 for t in o.value[2:] if strip(t) == strip(q) or strip(t) == strip(('init', ('elem', q, C(0)), 0))]
            if len(m) != 1: return None
            lv.append(m[0])
        r.add(tuple(lv))
    return r.pop() if len(r) == 1 else None


# ---------------------------------------------------------------- utterances
def utterances(c, prog):
    c.rule('utterances', 'every utterance of the hypothesis is aligned once with the reference text of its id and scored once under its speaker; reading ends with the file')
    fn = c.fn(prog.get('align_trans_mode_dp')); P = {p['n']: ('init', ('v', 1, p['id'], p['n']), 0) for p in fn.params}
    I = Rec(prog, table(prog), None, maxpaths=20000)
    st = I.start(fn); seed(I, st, prog, fn, {'feedback': C(0)})
    outs = I.run(st)
    rd = reading(c, I, fn, outs, prog, 'utterances')
    if len(rd) != 1: c.notes.append('the loop over the utterances is not recognised'); return
    (k, l), = rd.items()
    opened(c, I, fn, outs, 'utterances', (P['hyp_file'],))
    for o in l:
        for t in source(since(o, k)):
            if t[:2] == ('sym', 'file') and strip(t[2][0]) != strip(P['hyp_file']): c.bad('utterances:file', where(fn, fn.line), '%s is read' % show(t[2][0]), condlist(o))
    RS, RI, RC = (('sym', '!' + x, ()) for x in ('rset', 'refid', 'refcnt'))
    seen = set()
    for o in l:
        ev = since(o, k); calls = [e for e in ev if e[0] == 'call']; w = where(fn, fn.line); L = lookup(o, k); n0 = n_before(L)
        r = [e for e in calls if e[1] == 'remove_id']
        if not r:
            bufs = {t[2][0] for t in o.st.facts if t[0] == 'call' and t[1] in HAS}
            if not any(no_utt(I, o, x) is True for x in bufs): c.bad('utterances:skip', w, 'an utterance is passed over', condlist(o))
            continue
        c.ob('utterance'); ids(c, I, o, r, P['case_sense'], w, 'utterances:id', next((e[2][0] for e in calls if e[1] == 'bsearch'), r[0][2][0]))
        line = r[0][2][0]
        isid = lambda t: base(t) == ('sym', '!id', (line,))
        x = [e for e in calls if e[1] == 'extract_speaker']; b = [e for e in calls if e[1] == 'bsearch']; al = [e for e in calls if e[1] in ALIGN]; sc = [e for e in calls if e[1] == 'add_PATH_score']
        if len(sc) != 1 or len(al) != 1: c.bad('utterances:once', w, 'an utterance is aligned %d times and scored %d times' % (len(al), len(sc)), condlist(o)); continue
        w = where(fn, sc[0][3]); s = sc[0][2]
        if len(b) != 1 or not isid(b[0][2][0]) or b[0][2][1] != RI or b[0][2][2] != RC or b[0][2][3] != C(8) or cmpf(prog, b[0][2][4]) != (0, 1): c.bad('utterances:search', w, 'the reference is not searched by the id of the utterance', condlist(o)); continue
        ptr = ('call', 'bsearch', tuple(b[0][2]), 0)
        if decide(I, o, '!=', ptr, C(0), n0) is not True: c.bad('utterances:found', w, 'an utterance without a reference is scored', condlist(o))
        if len(x) != 1 or not isid(x[0][2][0]) or strip(x[0][2][2]) != strip(P['idt']): c.bad('utterances:speaker', w, 'the speaker is not taken from the id of the utterance', condlist(o)); continue
        if decide(I, o, '==', ('call', 'extract_speaker', (x[0][2][0], x[0][2][2]), 0), C(0), n0) is not True: c.bad('utterances:nospeaker', where(fn, x[0][3]), 'an utterance whose id names no speaker is scored', condlist(o))
        grp = ('call', 'SCORES_get_grp', (('sym', '!newscor', ()), x[0][2][1]), 0)
        if strip(s[2]) != strip(grp) or s[0] != ('sym', '!newscor', ()) or s[1] != ('sym', '!path', ()) or strip(s[3]) != strip(P['keep_path']): c.bad('utterances:score', w, 'an utterance is scored under %s' % show(s[2]), condlist(o))
        a = named(prog, al[0][1], al[0][2]); w = where(fn, al[0][3])
        if base(a['hyp']) != base(line) or a['hnet'] != C(0) or ev.index(r[0]) > ev.index(al[0]): c.bad('utterances:hyp', w, 'the words aligned are not those of the utterance without its id', condlist(o))
        want = ('init', ('elem', RS, add(ptr, RI, -1)), 0)
        if strip(a['ref']) != strip(want) or a.get('rnet', C(0)) != C(0): c.bad('utterances:ref', w, 'the utterance is aligned with %s' % show(a['ref']), condlist(o))
        if not isid(a['id']): c.bad('utterances:uttid', w, 'the utterance is recorded as %s' % show(a['id']), condlist(o))
        for nm, pn in (('lex_fname', 'lexicon'), ('flags', 'inf_no_ascii')):
            if nm in a and strip(a[nm]) != strip(P[pn]): c.bad('utterances:opt:' + nm, w, 'the alignment gets %s as %s' % (show(a[nm]), pn), condlist(o))
        for nm in ('case_sense', 'fcorr', 'opt_del', 'char_align', 'wwl', 'lm_file'):
            if nm in a and strip(a[nm]) != strip(P[nm]): c.bad('utterances:opt:' + nm, w, 'the alignment gets %s as %s' % (show(a[nm]), nm), condlist(o))
        if 'time_align' in a and a['time_align'] != C(0): c.bad('utterances:time', w, 'words without times are aligned by time', condlist(o))
        alg = decide(I, o, '==', P['infer_word_seg'], C(ALIGN.index(al[0][1])))
        if alg is not True: c.bad('utterances:algo', w, '%s is used for another word segmentation method' % al[0][1], condlist(o))
        seen.add(al[0][1])
    for o in outs:
        ld = [e for e in o.events if e[0] == 'call' and e[1] == 'load_refs']
        if o.kind == 'ret':
            c.ob('scores returned')
            if o.value != ('sym', '!newscor', ()): c.bad('utterances:result', where(fn, o.line), 'the result is %s' % show(o.value), condlist(o))
            S = ('sym', '!newscor', ()); w = where(fn, o.line); got = {e[1][2]: e[2] for e in o.events if e[0] == 'set' and e[1][0] == 'fld' and e[1][1] == S}
            for fd, p in (('frag_corr', 'fcorr'), ('opt_del', 'opt_del')):
                if fd not in got or strip(got[fd]) != strip(P[p]): c.bad('utterances:kept:' + fd, w, 'the scores do not record that %s' % fd, condlist(o))
            for fd, p in (('ref_fname', 'ref_file'), ('hyp_fname', 'hyp_file')):
                if fd not in got or strip(got[fd]) != strip(('call', 'TEXT_strdup', (P[p],), 0)): c.bad('utterances:kept:' + fd, w, 'the scores do not name the file %s' % p, condlist(o))
            ww, lm = (decide(I, o, '!=', P[x], C(0)) for x in ('wwl', 'lm_file'))
            v = I.compare(o.st, '!=', got['weight_ali'], C(0)) if 'weight_ali' in got else None
            if (ww is True or lm is True) and v is not True or ww is not True and lm is not True and (v is not False or ww is None or lm is None): c.bad('utterances:kept:weight', w, 'the scores do not record whether words were weighted', condlist(o))
            a = named(prog, 'load_refs', ld[0][2]) if len(ld) == 1 else None
            if not a or strip(a['hyp_file']) != strip(P['hyp_file']) or strip(a['ref_file']) != strip(P['ref_file']) or strip(a['case_sense']) != strip(P['case_sense']): c.bad('utterances:load', where(fn, fn.line), 'the references are not loaded once for these files', condlist(o))
        elif o.kind == 'stop' and any(e[0] == 'call' and e[1] == 'exit' for e in o.events) and decide(I, o, '!=', exits(o), C(0)) is not True: c.bad('utterances:status', where(fn, o.line), 'a failure exits with status 0', condlist(o))
    for a in ALIGN:
        if a not in seen: c.bad('utterances:none:' + a, where(fn, fn.line), '%s is never used' % a)


def groups(c, prog):
    c.rule('groups', 'a speaker\'s scores are found by the exact name; a new speaker starts with all counts at zero')
    fn = c.fn(prog.get('SCORES_get_grp')); sc, name = param(fn, 1, 0), param(fn, 1, 1)
    T = copies(); T.update({'malloc': lambda s, st, a, *r: ('sym', '!new', tuple(a)), 'free': ignore, 'TEXT_strdup': pure('dup'), 'strdup': pure('dup')})
    I = Rec(prog, T, None)
    G = f(sc, 'grp'); n = f(sc, 'num_grp')
    rec_ = next((r for r in prog.recs.values() if {'nsent', 'serr', 'weight_ref'} <= {q['n'] for q in r['fields']}), None)
    cnts = [q['n'] for q in rec_['fields'] if rec_['types'][q['t']] in ('int', 'double', 'float') and not q['n'].startswith('max_')] if rec_ else []
    for o in I.run(I.start(fn)):
        L = next((e for e in o.events if e[0] == 'loop'), None); w = where(fn, o.line or fn.line)
        if o.kind == 'back' and L:
            x = [s for loc, (p, s) in L[3].items() if p == C(0) and eq(step(o, loc, s), C(1))]
            if not x: c.notes.append('loop over the speakers is not recognised'); continue
            d = cmpname(I, o, name, G, x[0]); c.ob('another speaker')
            if d is not False: c.bad('groups:pass', w, 'a speaker is passed over although the name was not found different', condlist(o))
        if o.kind != 'ret': continue
        c.ob('speaker found')
        x = [s for loc, (p, s) in L[3].items() if p == C(0)] if L else []
        hit = [s for s in x if eq(o.value, s)]
        if hit:
            if cmpname(I, o, name, G, hit[0]) is not True or decide(I, o, '<', hit[0], n) is not True: c.bad('groups:found', w, 'a speaker with another name is returned', condlist(o))
            continue
        if not any(decide(I, o, '>=', s, n) is True for s in x): c.bad('groups:all', w, 'a new speaker is added without looking at all others', condlist(o))
        if not eq(o.value, n): c.bad('groups:new', w, 'the new speaker is not the one returned (%s)' % show(o.value), condlist(o))
        if not eq(o.st.env.get(('fld', sc, 'num_grp'), n), add(n, C(1))): c.bad('groups:count', w, 'the new speaker is not counted', condlist(o))
        sets = {}
        for e in o.events:
            if e[0] == 'set' and e[1][0] == 'fld' and e[1][1][0] == 'addr' and e[1][1][1][0] == 'elem' and eq(e[1][1][1][2], n): sets[e[1][2]] = e
        grp = {strip(e[1][1][1][1]) for e in sets.values()}
        if {t for t in grp if t[:2] != ('sym', '!new')} - {strip(G)}: c.bad('groups:place', w, 'the new speaker is stored elsewhere', condlist(o))
        mg = f(sc, 'max_grp'); m2 = o.st.env.get(('fld', sc, 'max_grp'), mg)
        if any(t[:2] == ('sym', '!new') for t in grp):
            t = next(t for t in grp if t[:2] == ('sym', '!new'))
            cp = [e[2] for e in o.events if e[0] == 'call' and e[1] == 'copy']
            q, d = absint.affparts(m2), absint.affparts(t[2][0]); unit = next(iter(absint.affparts(cp[0][2])[0].values()), 0) if cp and cp[0][2] else 0
            zero = decide(I, o, '==', absint.scale(m2, unit), C(0)) is True
            if not zero and (list(q[0]) != [mg] or q[0][mg] < 1 or q[0][mg] == 1 and q[1] < 2 or d != ({strip(mg): unit * q[0][mg]}, unit * q[1])): c.bad('groups:room', w, 'the list of speakers grows to %s, recorded as %s' % (show(t[2][0]), show(m2)), condlist(o))
        elif decide(I, o, '<', n, mg, 0, True) is not True: c.bad('groups:room', w, 'a speaker is added although there may be no room', condlist(o))
        if 'max_path' in sets and 'path' in sets:
            a, b = sets['path'][2], sets['max_path'][2]
            if a[:2] == ('sym', '!new') and isnum(a[2][0]) and isnum(b) and a[2][0][1] < 8 * b[1]: c.bad('groups:paths', w, 'a new speaker has less room for utterances than recorded', condlist(o))
        if any(t[:2] == ('sym', '!new') for t in grp):
            cp = [e[2] for e in o.events if e[0] == 'call' and e[1] == 'copy']
            if len(cp) != 1 or strip(cp[0][1]) != strip(G) or len(grp) != 1 or set(absint.affparts(cp[0][2])[0]) != {n} or absint.affparts(cp[0][2])[1]: c.bad('groups:grow', w, 'the speakers found so far are not taken along', condlist(o))
        for x in cnts:
            if x not in sets or sets[x][2] != C(0): c.bad('groups:zero:' + x, w, 'a new speaker does not start with %s = 0' % x, condlist(o))
        if 'name' not in sets or strip(sets['name'][2]) != strip(('call', 'dup', (name,), 0)): c.bad('groups:name', w, 'a new speaker gets another name', condlist(o))


def cmpname(I, o, name, G, i):
    nm = f(('addr', ('elem', G, i)), 'name')
    for t in o.st.facts:
        if t[0] == 'strcmp' and not t[1] and len(t) == 4 and {strip(t[2]), strip(t[3])} == {strip(name), strip(nm)}: return I.compare(o.st, '==', t, C(0))
    return None


# ---------------------------------------------------------------- options applied to both sides
PASS = (('opt_del', 'decode_opt_del'), ('fcorr', 'decode_fragment'), ('char_align', 'expand_words_to_chars'), ('wwl', 'lookup_word_weight'), ('lm_file', 'lookup_lm_word_weight'))
AFTER = (('decode_opt_del', 'decode_fragment'), ('decode_opt_del', 'expand_words_to_chars'), ('decode_opt_del', 'lookup_word_weight'), ('expand_words_to_chars', 'lookup_word_weight'), ('expand_words_to_chars', 'lookup_lm_word_weight'))


def pipeline(c, prog):
    c.rule('options', 'reference and hypothesis words are treated alike: each option that is set is applied once to both before they are aligned, an option that is not set to neither; weights are used when given')
    for name in ALIGN: pipeline1(c, prog, name)


def pipeline1(c, prog, name):
    fn = c.fn(prog.get(name)); P = {p['n']: ('init', ('v', 1, p['id'], p['n']), 0) for p in fn.params}
    T = {n: rec(n) for n in ('Network_traverse', 'Network_fully_connect_cond', 'Network_dpalign', 'PATH_add_utt_id', 'PATH_set_sequence')}
    T['Network_create_from_TEXT'] = rec('net', lambda a: ('sym', '!net', (a[0],)))
    T.update({n: pure(n) for n in ('TEXT_str_to_master', 'TEXT_strdup')}); T.update({'free': ignore, 'Network_destroy': ignore})
    def dp(s, st, args, node, line, caller):
        s.event(st, ('call', 'Network_dpalign', tuple(args), line, caller))
        a = named(prog, 'Network_dpalign', args); p = args[3]
        if p[0] == 'addr': s.write(st, p[1], ('sym', '!path', ()))
        return C(0)
    T['Network_dpalign'] = dp; T['load_TEXT_LIST'] = lambda *a: ('sym', '!list', ()); T['TEXT_chrlen'] = pure('TEXT_chrlen')
    seen = set()
    for ref_text in (0, 1) if 'rnet' in P else (1,):
        for hyp_text in (0, 1):
            I = Rec(prog, T, None, maxpaths=20000)
            st = I.start(fn); seed(I, st, prog, fn, {('ref' if not ref_text else 'rnet'): C(0), ('hyp' if not hyp_text else 'hnet'): C(0),
                                                     ('rnet' if not ref_text else 'ref'): ('sym', '!r', ()), ('hnet' if not hyp_text else 'hyp'): ('sym', '!h', ())})
            res = I.run(st)
            if not any(o.kind == 'ret' for o in res): c.bad('options:refused', where(fn, fn.line), 'no alignment is made of a %s and a %s' % (('network', 'text')[ref_text], ('network', 'text')[hyp_text]))
            lists(c, I, res, fn)
            for o in res:
                if o.kind == 'stop' and any(e[0] == 'call' and e[1] == 'exit' for e in o.events): c.bad('options:refused', where(fn, o.line or fn.line), 'the alignment is refused', condlist(o))
                if o.kind != 'ret': continue
                c.ob('alignment'); w = where(fn, o.line)
                calls = [e for e in o.events if e[0] == 'call']
                d = [e for e in calls if e[1] == 'Network_dpalign']
                if len(d) != 1 or o.value != ('sym', '!path', ()): c.bad('options:once', w, 'the texts are not aligned once', condlist(o)); continue
                R, H, fun = d[0][2][:3]
                cs = decide(I, o, '!=', P['case_sense'], C(0))
                for x, t, y, side in ((R, ref_text, '!r', 'reference'), (H, hyp_text, '!h', 'hypothesis')):
                    y = ('sym', y, ())
                    if not t: good = x == y
                    elif x[0] != 'sym' or x[1] != '!net': good = False
                    else:
                        u = x[2][0]
                        while u[0] == 'call' and u[1] == 'TEXT_strdup': u = u[2][0]
                        fo = u[0] == 'call' and u[1] == 'TEXT_str_to_master' and u[2][1] == C(1)
                        good = (u[2][0] if fo else u) == y and cs is (not fo)
                    if not good: c.bad('options:text:' + side, w, 'the %s aligned is %s' % (side, show(x)), condlist(o))
                for e in calls:
                    if e[1] == 'net':
                        a = named(prog, 'Network_create_from_TEXT', e[2])
                        if ('fn', 'equal_WORD2') not in e[2]: c.bad('options:equal', where(fn, e[3]), 'words are not compared with equal_WORD2', condlist(o))
                tr = [(e[2][0], e[2][3][1] if e[2][3][0] == 'fn' else None, i, e) for i, e in enumerate(calls) if e[1] == 'Network_traverse']
                on = {}
                for p, g in PASS:
                    v = on[p] = decide(I, o, '!=', P[p], C(0)) if p in P else False
                    if p not in P and p == 'char_align':    # only the side whose words are inferred
                        x = H if name == 'infer_word_seg_algo1' else R
                        k = [t[0] for t in tr if t[1] == g]; fc = [e[2] for e in calls if e[1] == 'Network_fully_connect_cond']
                        if fc and decide(I, o, '!=', fc[0][4], C(0)) is not True: c.bad('options:lexicon', w, 'the lexicon may not have been loaded', condlist(o))
                        both = decide(I, o, '==', P['flags'], C(1))      # INF_ASCII_TOO
                        for t in tr:
                            if t[1] == g:
                                v = o.st.env.get(t[3][2][4][1]) if t[3][2][4][0] == 'addr' else None
                                if v is None or both is None or not eq(v, C(1 if both else 3)): c.bad('options:ascii', where(fn, t[3][3]), 'ASCII words are%s split although asked otherwise' % ('' if v == C(1) else ' not'), condlist(o))
                        if k != [x]: c.bad('options:chars', w, 'not the words to be inferred are split into characters', condlist(o))
                        if len(fc) != 1 or fc[0][0] != x: c.bad('options:connect', w, 'not the characters of the words to be inferred are joined to words', condlist(o))
                        continue
                    for x, side in ((R, 'reference'), (H, 'hypothesis')):
                        k = [t for t in tr if t[0] == x and t[1] == g]
                        if v is not None: seen.add((p, v))
                        if len(k) != (1 if v else 0): c.bad('options:%s:%s' % (p, side), w, '%s is applied %d times to the %s although the option is %s' % (g, len(k), side, 'set' if v else 'not set'), condlist(o))
                        for t in k:
                            want = {'char_align': lambda z: z[0] == 'addr', 'wwl': lambda z: strip(z) == strip(P['wwl']), 'lm_file': lambda z: strip(z) == strip(P['lm_file'])}.get(p)
                            if want and not want(t[3][2][4]): c.bad('options:arg:' + p, where(fn, t[3][3]), '%s gets %s' % (g, show(t[3][2][4])), condlist(o))
                for a, b in AFTER:
                    for x in (R, H):
                        i = [t[2] for t in tr if t[0] == x and t[1] == a]; j = [t[2] for t in tr if t[0] == x and t[1] == b]
                        if i and j and max(i) > min(j): c.bad('options:order:%s:%s' % (a, b), w, '%s is applied before %s' % (b, a), condlist(o))
                for t in tr:
                    m = t[3][2][5]
                    if t[1] in [g for p, g in PASS] and not isnum(m): c.notes.append('walk mode is not a constant')
                    elif t[1] in [g for p, g in PASS] and m[1] & ~0x8111: c.bad('options:walk', where(fn, t[3][3]), 'the words are walked in mode 0x%x' % m[1], condlist(o))
                if tr and max(t[2] for t in tr) > calls.index(d[0]): c.bad('options:late', w, 'an option is applied after the alignment', condlist(o))
                wt = True if True in (on['wwl'], on['lm_file']) else False
                tm = decide(I, o, '!=', P['time_align'], C(0)) if 'time_align' in P else False
                want = 'wwd_time_WORD' if tm is True else 'wwd_weight_WORD' if wt else 'wwd_WORD'
                if fun != ('fn', want): c.bad('options:distance', where(fn, d[0][3]), 'the distance used is %s' % show(fun), condlist(o))
                u = [e for e in calls if e[1] == 'PATH_add_utt_id']
                if len(u) != 1 or u[0][2][0] != ('sym', '!path', ()) or strip(u[0][2][1]) != strip(P['id']): c.bad('options:id', w, 'the alignment does not carry the id of the utterance', condlist(o))
                at = o.st.env.get(('fld', ('sym', '!path', ()), 'attrib'))
                bits = bits_of(at) if at is not None else set()
                for b, v in ((1, on['char_align']), (2, cs), (0x100, wt), (0x200, wt)):
                    if v is None and b in bits or v is not None and (b in bits) != v: c.bad('options:attrib:%x' % b, w, 'the alignment is %smarked %s' % ('' if b in bits else 'not ', {1: 'as by characters', 2: 'as case sensitive'}.get(b, 'as weighted')), condlist(o))
    for p, g in PASS:
        if p not in P: continue
        if (p, True) not in seen or (p, False) not in seen: c.bad('options:unused:' + p, where(fn, fn.line), 'the option %s has no effect on the words' % p)


def lists(c, I, outs, fn):
    """the longest word of the lexicon bounds the words inferred"""
    for o in outs:
        if o.kind != 'back': continue
        L = lookup(o, lkey(o)); ev = since(o, lkey(o))
        cl = [t for t in index(o) if t[0] == 'call' and t[1] == 'TEXT_chrlen']
        fc = {e[2][1][1] for x in outs for e in x.events if e[0] == 'call' and e[1] == 'Network_fully_connect_cond' and e[2][1][0] == 'init'}
        if not cl or len(fc) != 1: continue
        loc, = fc; v = o.st.env.get(loc)
        if v is None: v = next((t for t in index(o) if t[0] == 'init' and t[1] == loc), ('init', loc, 0))
        c.ob('word of the lexicon')
        if not any(eq(v, t) or decide(I, o, '>=', v, t, 0, True) is True for t in cl): c.bad('options:longest', where(fn, fn.line), 'the longest word of the lexicon is not found', condlist(o))


def bits_of(t):
    """constants or-ed together"""
    r = set()
    while True:
        if t[0] == 'op' and t[1] == '|' and len(t) == 4:
            a, b = t[2], t[3]
            if isnum(b): r.add(b[1]); t = a; continue
            if isnum(a): r.add(a[1]); t = b; continue
        if isnum(t): r.add(t[1])
        return r


def marks(c, prog):
    c.rule('marks', 'a word in parentheses is optionally deletable, its text is what is between them; a word beginning or ending with a hyphen (in an optionally deletable word: before the closing parenthesis) is a fragment; '
           'missing, null and optionally deletable words weigh nothing, every other word what the weight list says')
    for name in ('decode_opt_del', 'decode_fragment', 'lookup_word_weight'):
        fn = c.fn(prog.get(name)); arc = param(fn, 1, 0)
        T = {n: pure(n) for n in ('TEXT_strlen', 'TEXT_strBdup', 'Weight_wwl')}
        I = Rec(prog, T, None)
        W = f(arc, 'data'); V = f(W, 'value'); ln = ('call', 'TEXT_strlen', (V,), 0)
        at = lambda i: [t for t in index(o) if t[0] == 'init' and t[1][0] == 'elem' and eq(add(flat(t[1][1]), t[1][2]), add(V, i))]
        def ch(o, i, v):
            r = None
            for t in index(o):
                if t[0] == 'init' and t[1][0] == 'elem' and eq(add(flat(t[1][1]), t[1][2]), add(V, i)):
                    d = decide(I, o, '==', t, C(v)); r = d if d is not None else r
            return r
        for o in I.run(I.start(fn)):
            if o.kind != 'ret': continue
            c.ob(name); w = where(fn, o.line)
            sets = {e[1][2]: e for e in o.events if e[0] == 'set' and e[1][0] == 'fld' and strip(e[1][1]) == strip(W)}
            has = decide(I, o, '!=', V, C(0))
            if name == 'decode_opt_del':
                a, b = ch(o, C(0), 40), ch(o, add(ln, C(-1)), 41)
                is_ = has is True and a is True and b is True
                if not is_ and not (has is False or a is False or b is False): c.bad('marks:opt_del:unknown', w, 'parentheses are not looked for', condlist(o)); continue
                if ('opt_del' in sets) != is_ or is_ and I.compare(o.st, '!=', sets['opt_del'][2], C(0)) is not True: c.bad('marks:opt_del', w, 'a word is%s marked optionally deletable' % ('' if 'opt_del' in sets else ' not'), condlist(o)); continue
                if is_ and ('intern_value' not in sets or not (lambda v: v[0] == 'call' and eq(v[2][0], add(V, C(1))) and eq(v[2][1], add(ln, C(-2))))(sets['intern_value'][2])): c.bad('marks:intern', w, 'the text of an optionally deletable word is %s' % (show(sets['intern_value'][2]) if 'intern_value' in sets else 'not set'), condlist(o))
            elif name == 'decode_fragment':
                e1, e2, e3 = ch(o, add(ln, C(-1)), 45), ch(o, C(0), 45), ch(o, add(ln, C(-2)), 45)
                od = decide(I, o, '!=', f(W, 'opt_del'), C(0))
                is_ = has is True and (e1 is True or e2 is True or od is True and e3 is True)
                no = has is False or e1 is False and e2 is False and (od is False or e3 is False)
                if not is_ and not no: c.bad('marks:frag:unknown', w, 'hyphens are not looked for', condlist(o)); continue
                if ('frag_corr' in sets) != is_ or is_ and I.compare(o.st, '!=', sets['frag_corr'][2], C(0)) is not True: c.bad('marks:frag', w, 'a word is%s marked as a fragment' % ('' if 'frag_corr' in sets else ' not'), condlist(o))
            else:
                nul = None
                for t in o.st.facts:
                    if t[0] == 'strcmp' and len(t) == 4 and C('@') in t[2:] and any(strip(x) == strip(V) for x in t[2:]): nul = I.compare(o.st, '==', t, C(0))
                od = decide(I, o, '!=', f(W, 'opt_del'), C(0))
                none = has is False or nul is True or od is True
                v = sets['weight'][2] if 'weight' in sets else None
                if none: good = v == C(0)
                else: good = has is True and nul is False and od is False and v is not None and v[0] == 'call' and v[1] == 'Weight_wwl' and strip(v[2][0]) == strip(V) and strip(v[2][1]) == strip(param(fn, 1, 1))
                if not good: c.bad('marks:weight', w, 'the weight is %s' % (show(v) if v else 'not set'), condlist(o))
