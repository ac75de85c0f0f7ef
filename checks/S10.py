"""S10: rover's combination of the systems -- chunking of the input, word networks, merging of one system after the other."""
import facts, ir, absint
from absint import C, show, showloc, add, isnum, affparts
from util import *
from cubes import nz
from S02 import strip, param, subterms, cellfld, finalsel, all_terms
from S09 import lkey, lookup, since, above

BETWEEN, BEFORE, AFTER = 'NETWORK_insert_arc_between_node', 'NETWORK_insert_arc_before_node', 'NETWORK_insert_arc_after_node'


def check(c):
    prog = c.prog('sclite')
    c.rule('end point', 'the merge of a system starts from the cheapest pair of final arcs')
    c.part(finalsel, c, prog, 'create_alinged_NETWORK')
    c.part(merge, c, prog)
    c.part(series, c, prog)
    c.part(links, c, prog)
    c.part(copies, c, prog)
    c.part(source, c, prog)
    c.part(systems, c, prog)
    c.part(chunks, c, prog)
    c.part(boundary, c, prog)


def ind(s, st, args, node, line, caller):
    fv = node['fv']
    n = fv[1][2] if fv[0] == 'init' and fv[1][0] == 'fld' else show(fv)
    return ('call', n, tuple(args), 0)


# ------------------------------------------------------------------ one step of the merge
def merge(c, prog):
    c.rule('merge', 'each step of the back trace: paired word -> one arc with a copy of the word between the nodes of the arc of the merged network; '
           'arc without a partner -> one null arc between its nodes; word without a partner -> one new arc with a copy of the word and, parallel to it, one null arc per earlier system')
    fn = c.fn(prog.get('create_alinged_NETWORK', 'net_dp.c'))

    def between(s, st, args, node, line, caller):
        s.event(st, ('call', 'between', tuple(args), line, caller)); return C(0)

    def before(s, st, args, node, line, caller):
        s.event(st, ('call', 'before', tuple(args), line, caller))
        t = args[1]; nn = ('sym', '!newnode', (t,)); nl = ('sym', '!newlist', (t,)); na = ('sym', '!newarc', (t,))
        if t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == 'to_node': s.write(st, ('fld', t[1][1], 'to_node'), nn)
        for p, f, v in ((nn, 'out_arcs', nl), (nl, 'arc', na), (nl, 'next', C(0)), (na, 'data', args[2]), (na, 'from_node', nn), (na, 'to_node', t), (na, 'net', args[0])):
            s.write(st, ('fld', p, f), v)
        return C(0)
    T = {'print_arc': ignore, 'print_node': ignore, 'getenv': C(0), 'find_arcset_id': pure('find_arcset_id'), BETWEEN: between, BEFORE: before}
    I = Rec(prog, T, ind, maxpaths=20000); I.rec_locals = False
    st = I.start(fn)
    outs = I.run(st)
    net, A, B, null, it = (param(fn, 1, i) for i in range(5))
    arcof = lambda s, i: ('init', ('elem', ('init', ('fld', ('addr', ('fld', net, 'arcset_' + s)), 'arcs'), 0), i), 0)
    f = lambda t, n: ('init', ('fld', t, n), 0)
    S = strip
    kinds = {}; headers = set(); nulls = {}
    # parallel null arcs: the loop that adds them
    for o in outs:
        if o.kind != 'back': continue
        k = lkey(o); ev = since(o, k); L = lookup(o, k)
        cs = [e for e in ev if e[0] == 'call' and e[1] in ('between', 'before')]
        if [e[1] for e in cs] == ['between'] and is_copy(cs[0][2][3], null) and not any(e[0] == 'loop' for e in ev):
            cnt = [(loc, p, s) for loc, (p, s) in L[3].items() if p == C(0) and add(o.st.env.get(loc, s), s, -1) == C(1)]
            cnt2 = [(loc, p, s) for loc, (p, s) in L[3].items() if p == it and add(o.st.env.get(loc, s), s, -1) == C(-1)]
            if cnt or cnt2: nulls[k] = (cnt + cnt2)[0]
    for o in outs:
        if o.kind != 'back': continue
        k = lkey(o); L = lookup(o, k); ev = since(o, k)
        var = {}
        for loc, (p, s) in L[3].items():
            now = S(o.st.env.get(loc, s))
            if now[0] == 'init' and now[1][0] == 'fld' and now[1][2] in ('back_a', 'back_b'): var[now[1][2]] = (loc, s)
        if set(var) != {'back_a', 'back_b'}: continue
        headers.add((k, var['back_a'][0], var['back_b'][0]))
        a, b = var['back_a'][1], var['back_b'][1]
        w = where(fn, next((e[3] for e in ev if e[0] == 'call'), fn.line))
        for x in ('back_a', 'back_b'):
            if S(o.st.env[var[x][0]]) != S(('init', cellfld(net, a, b, x), 0)): c.bad('merge:step', w, 'the back trace does not follow the back pointers of the current cell')
        ba = [t for t in all_terms(o) if S(t) == S(('init', cellfld(net, a, b, 'back_a'), 0))]
        bb = [t for t in all_terms(o) if S(t) == S(('init', cellfld(net, a, b, 'back_b'), 0))]
        ins = I.compare(o.st, '==', a, ba[0]) if ba else None
        dele = I.compare(o.st, '==', b, bb[0]) if bb else None
        if ins is True and dele is True: continue
        kind = 'INS' if ins is True else 'DEL' if dele is True else 'SUB' if ins is False and dele is False else None
        c.ob('merge step %s' % kind)
        if kind is None: c.bad('merge:kind', w, 'a step is handled without telling which move it is', condlist(o)); continue
        kinds[kind] = kinds.get(kind, 0) + 1
        aa, bbarc = arcof('a', a), arcof('b', b)
        calls = [e for e in ev if e[0] == 'call' and e[1] in ('between', 'before')]
        if kind in ('SUB', 'DEL'):
            what = f(bbarc, 'data') if kind == 'SUB' else null
            txt = 'a copy of the word' if kind == 'SUB' else 'a null word'
            if len(calls) != 1 or calls[0][1] != 'between':
                c.bad('merge:' + kind, w, 'a %s step makes %d new arcs instead of one parallel arc' % ({'SUB': 'pairing', 'DEL': 'skipping'}[kind], len(calls)), condlist(o)); continue
            args = calls[0][2]
            if S(args[1]) != S(f(aa, 'from_node')) or S(args[2]) != S(f(aa, 'to_node')):
                c.bad('merge:%s:nodes' % kind, where(fn, calls[0][3]), 'the arc of a %s step is put between %s and %s' % (kind, show(args[1]), show(args[2])), condlist(o))
            if not is_copy(args[3], what): c.bad('merge:%s:data' % kind, where(fn, calls[0][3]), 'the arc of a %s step carries %s, not %s' % (kind, show(args[3]), txt), condlist(o))
            continue
        bf = [e for e in calls if e[1] == 'before']
        if len(bf) != 1 or calls[0] is not bf[0]:
            c.bad('merge:INS', w, 'a word without a partner opens %d new sets' % len(bf), condlist(o)); continue
        args = bf[0][2]
        if S(args[1]) != S(f(aa, 'to_node')): c.bad('merge:INS:place', where(fn, bf[0][3]), 'the new set is opened at %s' % show(args[1]), condlist(o))
        if not is_copy(args[2], f(bbarc, 'data')): c.bad('merge:INS:data', where(fn, bf[0][3]), 'the new set carries %s, not a copy of the word' % show(args[2]), condlist(o))
        # null arcs come from exactly one counting loop
        nl = [e for e in ev if e[0] == 'loop' and (e[1], e[2]) in nulls]
        extra = [e for e in calls[1:] if not is_copy(e[2][3], null)]
        if len(nl) != 1 or extra or len(calls) > 1:
            c.bad('merge:INS:nulls', w, 'the earlier systems do not get exactly one null word each in a new set', condlist(o)); continue
        loc, p, s = nulls[(nl[0][1], nl[0][2])]
        s2 = nl[0][3][loc][1]
        left = [(cc, tv) for cc, tv, ln, ff in o.conds if s2 in subterms(cc)]
        up = p == C(0)
        bound = [cc for cc, tv in left]
        ok = False
        for cc, tv in left:
            if cc[0] != 'cmp': continue
            op = cc[1] if not tv else {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[cc[1]]
            # goes on while (cc op) holds; op is the negation of the exit condition
            d = add(cc[2], cc[3], -1)
            if up: ok = ok or op == '<' and d == add(s2, it, -1) or op == '>' and d == add(it, s2, -1) or op == '!=' and d in (add(s2, it, -1), add(it, s2, -1)) or op == '<=' and d == add(add(s2, it, -1), C(1)) or op == '>=' and d == add(add(it, s2, -1), C(-1))
            else: ok = ok or op == '>' and d == s2 or op == '<' and d == add(C(0), s2, -1) or op == '!=' and d == s2 or op == '>=' and d == add(s2, C(-1))
        if not ok: c.bad('merge:INS:count', w, 'the number of null words in a new set is not the number of systems merged before (%s)' % ' '.join(show(x) for x in bound), condlist(o))
    for k in ('SUB', 'DEL', 'INS'):
        if k not in kinds: c.bad('merge:none:' + k, where(fn, fn.line), 'no step of the merge handles the move %s' % k)
    # the null arcs of a new set go between the nodes of the new arc
    for o in outs:
        if o.kind != 'back' or lkey(o) not in nulls: continue
        ev = since(o, lkey(o)); c.ob('parallel null arc')
        e = [e for e in ev if e[0] == 'call' and e[1] == 'between'][0]
        bf = [x for x in o.events if x[0] == 'call' and x[1] == 'before'][-1]
        t = bf[2][1]; nn = ('sym', '!newnode', (t,))
        def ends(x, n, want):
            if x == want: return True
            if x[0] != 'init' or x[1][0] != 'fld' or x[1][2] != n: return False
            arc = x[1][1]      # an arc known to carry the copy
            if arc == ('sym', '!newarc', (t,)): return True
            want = strip(('init', ('fld', arc, 'data'), 0))
            return any(cc[0] == 'cmp' and (cc[1] == '==') == bool(tv) and cc[1] in ('==', '!=') and {strip(cc[2]), strip(cc[3])} == {want, strip(bf[2][2])} for cc, tv, *_ in o.conds)
        if not ends(e[2][1], 'from_node', nn) or not ends(e[2][2], 'to_node', t):
            c.bad('merge:INS:parallel', where(fn, e[3]), 'the null words of a new set are put between %s and %s' % (show(e[2][1]), show(e[2][2])), condlist(o))
    c.rule('complete', 'the merge ends only at the origin of both networks')
    for o in outs:
        if o.kind != 'ret': continue
        for k, la, lb in headers:
            L = lookup(o, k)
            if not L: continue
            c.ob('end of the merge')
            for l in (la, lb):
                s = L[3][l][1]
                if I.compare(o.st, '<=', s, C(0)) is not True:
                    if err_return(I, o, k): continue
                    c.bad('complete', where(fn, o.line), 'the merge can end before every word of both networks is used', condlist(o))
    c.need(headers, 'the back trace of the merge is not recognised')


def err_return(I, o, k):
    """left the loop because the arc just inserted is not found among the arcs of its node (an internal error, reported)"""
    for e in since(o, k):
        if e[0] == 'loop':
            for loc, (p, s) in e[3].items():
                if p[0] == 'sym' and p[1] == '!newlist' and I.compare(o.st, '==', s, C(0)) is True: return True
    return False


def is_copy(t, what):
    return t[0] == 'call' and t[1] == 'copy' and strip(t[2][0]) == strip(what)


# ------------------------------------------------------------------ all systems, one after the other
def series(c, prog):
    c.rule('series', 'every system is copied with a null head, and systems 1, 2, ... are aligned with and merged into the copy of the first, whose null heads are then removed')
    fn = c.fn(prog.get('Network_dpalign_n_networks', 'net_dp.c'))
    names = ('setup_NET_ALIGN', 'calculate_margin_cells', 'calculate_internal_cells', 'create_alinged_NETWORK', 'add_null_network_heads', 'Network_delete_null_arcs', 'Network_destroy')
    def rec(n):
        def h(s, st, args, node, line, caller):
            s.event(st, ('call', n, tuple(args), line, caller)); return C(0)
        return h
    T = {n: rec(n) for n in names}
    T['Network_copy'] = lambda s, st, a, *r: nz('copy of ' + repr(strip(a[0]))) if False else ('sym', '!copy', (strip(a[0]),))
    T.update({'getenv': C(0), 'dump_NET_ALIGN': ignore, 'Network_traverse': ignore})
    I = Rec(prog, T, ind, maxpaths=5000)
    st = I.start(fn)
    for k, g in prog.globs.items():
        n = k if isinstance(k, str) else k[0]
        if n == 'db': st.env[('g', n)] = C(0)
    outs = I.run(st)
    nets, cnt, wwd, out, null = (param(fn, 1, i) for i in range(5))
    arr = None; ncopy = nmerge = 0
    for o in outs:
        if o.kind != 'back': continue
        k = lkey(o); L = lookup(o, k); ev = since(o, k)
        ivar = [(loc, p, s) for loc, (p, s) in L[3].items() if add(o.st.env.get(loc, s), s, -1) == C(1)]
        cp = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem' and e[2][0] == 'sym' and e[2][1] == '!copy']
        w = where(fn, next((e[3] for e in ev if e[0] in ('set', 'call')), fn.line))
        if cp:
            ncopy += 1; c.ob('copy of one system')
            e = cp[0]; i = e[1][2]; arr = strip(e[1][1])
            if strip(e[2][2][0]) != strip(('init', ('elem', nets, i), 0)): c.bad('series:copy', w, 'system %s is replaced by a copy of %s' % (show(i), show(e[2][2][0])))
            h = [x for x in ev if x[0] == 'call' and x[1] == 'add_null_network_heads']
            if len(h) != 1 or strip(h[0][2][0]) not in (strip(e[2]), strip(('init', e[1], 0))): c.bad('series:head', w, 'a copied network does not get exactly one null head', condlist(o))
            if not any(s == i and p == C(0) and runs(o, L, s, cnt) for loc, p, s in ivar): c.bad('series:copies', w, 'not every system from the first to the last is copied', condlist(o))
        m = [e for e in ev if e[0] == 'call' and e[1] == 'create_alinged_NETWORK']
        if m:
            nmerge += 1; c.ob('merge of one system')
            order = [e[1] for e in ev if e[0] == 'call' and e[1] in names[:4]]
            if order != list(names[:4]): c.bad('series:order', w, 'a system is merged in the steps %s' % order, condlist(o)); continue
            calls = {e[1]: e[2] for e in ev if e[0] == 'call' and e[1] in names[:4]}
            s = [x for x in ivar if x[1] == C(1)]
            if not s or not runs(o, L, s[0][2], cnt): c.bad('series:all', w, 'the systems merged are not 1, 2, ... up to the last', condlist(o)); continue
            n = s[0][2]
            # arguments: the copies 0 and n
            def sysno(t):
                t = strip(t)
                if t[0] == 'init' and t[1][0] == 'elem': return t[1][2]
                if t[0] == 'sym' and t[1] == '!copy' and t[2][0][0] == 'init' and t[2][0][1][0] == 'elem': return t[2][0][1][2]
                return None
            for nm in names[:4]:
                a = calls[nm]
                if strip(sysno(a[1]) or C(-9)) != C(0) or strip(sysno(a[2]) or C(-9)) != strip(n):
                    c.bad('series:which', w, '%s works on systems %s and %s instead of the merged one and the next' % (nm, show(sysno(a[1]) or C(-9)), show(sysno(a[2]) or C(-9))), condlist(o))
            if strip(calls[names[3]][3]) != strip(null): c.bad('series:null', w, 'the null word used is %s' % show(calls[names[3]][3]))
            if strip(calls[names[3]][4]) != strip(n): c.bad('series:count', w, 'the number of systems merged before is given as %s' % show(calls[names[3]][4]))
            for nm in names[1:3]:
                if strip(calls[nm][3]) != strip(wwd): c.bad('series:wwd', w, 'the alignment uses the distance %s' % show(calls[nm][3]))
    if not ncopy: c.bad('series:nocopy', where(fn, fn.line), 'the systems are not copied one by one')
    if not nmerge: c.bad('series:nomerge', where(fn, fn.line), 'the systems are not merged one by one')
    for o in outs:
        if o.kind != 'ret' or not isnum(o.value) or o.value[1] != 0: continue
        c.ob('end of the series')
        d = [e for e in o.events if e[0] == 'call' and e[1] == 'Network_delete_null_arcs']
        res = [e for e in o.events if e[0] == 'set' and e[1] in (('elem', out, C(0)),)]
        if len(d) != 1: c.bad('series:heads', where(fn, o.line), 'the null heads are removed %d times' % len(d), condlist(o))
        if len(res) != 1 or d and strip(res[0][2]) != strip(d[0][2][0]): c.bad('series:result', where(fn, o.line), 'the result is not the merged network', condlist(o))


def runs(o, L, s, n):
    """the loop goes on exactly while s < n"""
    n0 = len(list(absint._unroll(L[5])))
    for cc, tv, line, f in list(o.conds)[n0:]:
        if cc[0] != 'cmp' or s not in subterms(cc): continue
        op = cc[1] if tv else {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[cc[1]]
        d, want = strip(add(cc[2], cc[3], -1)), strip(add(s, n, -1)); neg = strip(add(n, s, -1))
        if op == '<' and d == want or op == '>' and d == neg or op == '!=' and d in (want, neg) or op == '<=' and d == strip(add(want, C(1))) or op == '>=' and d == strip(add(neg, C(-1))): return True
        return False
    return False
# ------------------------------------------------------------------ new arcs
def links(c, prog):
    c.rule('links', 'a new arc carries the given word and is entered with both of its nodes; opening a new set before (after) a node moves all arcs ending (starting) there to the new node')
    S = strip
    f = lambda t, n: ('init', ('fld', t, n), 0)

    def alloc(s, st, args, node, line, caller):
        return ('sym', '!new%s' % caller.qn, ())

    def addlist(s, st, args, node, line, caller):
        s.event(st, ('call', 'addlist', (args[0], args[1]), line, caller))
        if args[2][0] == 'addr': s.write(st, args[2][1], C(0))
        else: s.write(st, s.mkelem(args[2], C(0)), C(0))
        return ('sym', '!newlist', (args[0], args[1]))
    T = {'malloc_safe': alloc, 'malloc': alloc, 'add_to_arc_list': addlist, 'strdup_safe': pure('strdup'), 'sprintf': ignore, 'free': ignore, 'db_enter_msg': ignore, 'db_leave_msg': ignore, 'printf': ignore}
    for name in (BETWEEN, BEFORE, AFTER):
        fn = c.fn(prog.get(name, 'net_adt.c'))
        I = Rec(prog, T, ind, maxpaths=3000)
        st = I.start(fn)
        st.env[('g', 'db_level')] = C(0)
        outs = I.run(st)
        arc, new = ('sym', '!newmake_arc', ()), ('sym', '!newmake_node', ())
        P = [param(fn, 1, i) for i in range(len(fn.params))]
        data = P[-1]
        for o in outs:
            w = where(fn, o.line)
            g = lambda t, n: next((e[2] for e in reversed(o.events) if e[0] == 'set' and e[1] == ('fld', t, n)), None)
            if o.kind == 'ret' and o.value == C(0):
                c.ob('%s links its arc' % name)
                fr, to = {BETWEEN: (P[1], P[2] if len(P) > 3 else None), BEFORE: (new, P[1]), AFTER: (P[1], new)}[name]
                if g(arc, 'data') != data: c.bad('links:%s:data' % name, w, 'the new arc carries %s' % show(g(arc, 'data') or C(0)), condlist(o))
                if g(arc, 'from_node') != fr: c.bad('links:%s:from' % name, w, 'the new arc starts at %s' % show(g(arc, 'from_node') or C(0)), condlist(o))
                if g(arc, 'to_node') != to: c.bad('links:%s:to' % name, w, 'the new arc ends at %s' % show(g(arc, 'to_node') or C(0)), condlist(o))
                lists = {(x, n): o.st.env.get(('fld', x, n)) for x in (fr, to) for n in ('out_arcs', 'in_arcs')}
                for x, n in ((fr, 'out_arcs'), (to, 'in_arcs')):
                    v = lists[(x, n)]
                    if not (v and v[0] == 'sym' and v[1] == '!newlist' and v[2][1] == arc):
                        c.bad('links:%s:%s' % (name, n), w, 'the new arc is not entered in %s of %s' % (n, show(x)), condlist(o)); continue
                    old = v[2][0]
                    if name == BETWEEN and S(old) != S(f(x, n)): c.bad('links:%s:%s' % (name, n), w, 'the arcs already in %s of %s are lost' % (n, show(x)), condlist(o))
                    if name != BETWEEN and x == new and old != C(0): c.bad('links:%s:%s' % (name, n), w, 'the new node has other arcs in %s' % n, condlist(o))
                    if name != BETWEEN and x != new and old != C(0): c.bad('links:%s:%s' % (name, n), w, 'arcs moved to the new node stay in %s' % n, condlist(o))
            elif o.kind == 'back' and name != BETWEEN:
                k = lkey(o); L = lookup(o, k)
                n = 'in_arcs' if name == BEFORE else 'out_arcs'; end = 'to_node' if name == BEFORE else 'from_node'
                old = P[1]
                it = [(loc, p, s) for loc, (p, s) in L[3].items() if S(p) == S(f(old, n))]
                mv = [e for e in since(o, k) if e[0] == 'call' and e[1] == 'addlist']
                fr = any(S(o.st.env.get(loc, s)) == S(f(s, 'next')) for loc, p, s in it)
                if mv:
                    c.ob('%s moves an arc' % name)
                    a = f(it[0][2], 'arc') if it else None
                    if not it or not fr: c.bad('links:%s:walk' % name, w, 'not every arc of the node is moved', condlist(o)); continue
                    if S(mv[0][2][1]) != S(a): c.bad('links:%s:moved' % name, w, 'the arc entered at the new node is %s' % show(mv[0][2][1]), condlist(o))
                    v = [e for e in since(o, k) if e[0] == 'set' and e[1][0] == 'fld' and e[1][2] == end]
                    if len(v) != 1 or S(v[0][1][1]) != S(a) or v[0][2] != new: c.bad('links:%s:end' % name, w, 'a moved arc does not get the new node as its %s' % end, condlist(o))


# ------------------------------------------------------------------ words keep their text, times and confidence
def copies(c, prog):
    c.rule('copy', 'the copy of a word has its text, times and confidence')
    fn = c.fn(prog.get('copy_WORD', 'word.c'))
    I = Rec(prog, {'get_WORD': lambda s, st, a, *r: ('sym', '!newword', ()), 'TEXT_strdup': pure('dup'), 'TEXT_strBdup': pure('bdup'), 'TEXT_strlen': pure('TEXT_strlen')}, ind)
    p = param(fn, 1, 0); new = ('sym', '!newword', ())
    n = 0
    for o in I.run(I.start(fn)):
        if o.kind != 'ret' or o.value == C(0): continue
        n += 1; c.ob('copy of a word')
        for x in ('T1', 'T2', 'conf', 'opt_del', 'frag_corr', 'weight'):
            v = o.st.env.get(('fld', new, x))
            if v is None or strip(v) != strip(('init', ('fld', p, x), 0)): c.bad('copy:' + x, where(fn, o.line), 'the copy of a word has %s as its %s' % (show(v) if v else 'nothing', x), condlist(o))
        v = o.st.env.get(('fld', new, 'value')); own = strip(('init', ('fld', p, 'value'), 0))
        if v is None or not (v[0] == 'call' and v[1] in ('dup', 'bdup') and strip(v[2][0]) == own):
            if not (v is None and I.compare(o.st, '==', next((t for t in all_terms(o) if strip(t) == own), C(1)), C(0)) is True):
                c.bad('copy:value', where(fn, o.line), 'the copy of a word has %s as its text' % (show(v) if v else 'nothing'), condlist(o))
    c.need(n, 'copy_WORD returns no word')


# ------------------------------------------------------------------ words of a system
def source(c, prog):
    c.rule('words', 'the network of a system holds, in order, one arc for each of its words that is not marked as ignored, with its text, begin time, end time and confidence')
    fn = c.fn(prog.get('Network_create_from_WTOKE', 'net_adt.c'))

    def word(s, st, args, node, line, caller):
        t = ('sym', '!newword', tuple(args)); s.event(st, ('call', 'word', tuple(args), line, caller)); return t

    def rec(n):
        def h(s, st, args, node, line, caller):
            s.event(st, ('call', n, tuple(args), line, caller)); return C(0)
        return h
    def mknet(s, st, args, node, line, caller):
        return ('sym', '!newnet', (line, caller.qn))
    T = {'new_WORD_parseText': word, 'new_WORD': word, 'Network_init': mknet, 'Network_add_arc_to_tail': rec('tail'), 'Network_add_arc_to_head': rec('head'),
         'Network_add_net_to_tail': rec('nettail'), 'Network_add_net_to_head': rec('nethead'), 'Network_merge_network': rec('netmerge'),
         'TEXT_strcasecmp': pure('cmp'), 'TEXT_strCcasecmp': pure('cmp')}
    I = Rec(prog, T, ind, maxpaths=20000)
    st = I.start(fn)
    wt, start, end = (param(fn, 1, i) for i in range(3))
    ltr = st.env[('v', 1, fn.params[-1]['id'], fn.params[-1]['n'])] = C(1)
    for k in prog.globs:
        n = k if isinstance(k, str) else k[0]
        if n == 'db': st.env[('g', n)] = C(0)
    S = strip
    F = lambda i, x: ('init', ('fld', ('addr', ('elem', ('init', ('fld', wt, 'word'), 0), i)), x), 0)
    seen = set()
    for o in I.run(st):
        if o.kind != 'back': continue
        k = lkey(o); L = lookup(o, k); ev = since(o, k)
        iv = [(loc, p, s) for loc, (p, s) in L[3].items() if S(p) == S(start)]
        if not iv: continue
        loc, p, i = iv[0]
        def truth(x):
            for t in all_terms(o):
                if S(t) == S(F(i, x)):
                    r = I.compare(o.st, '!=', t, C(0))
                    if r is not None: return r
            return None
        ig, alt = truth('ignore'), truth('alternate')
        adds = [e for e in ev if e[0] == 'call' and e[1] in ('tail', 'head', 'nettail', 'nethead')]
        ws = [e for e in ev if e[0] == 'call' and e[1] == 'word']
        w = where(fn, next((e[3] for e in ev if e[0] == 'call'), o.line))
        if ig is True:
            seen.add('ignored'); c.ob('ignored word')
            if adds: c.bad('words:ignored', w, 'an ignored word is added', condlist(o))
        elif alt is not True and alt is not None or (ig is False and alt is None):
            seen.add('plain'); c.ob('plain word')
            if len(adds) != 1 or len(ws) != 1 or adds[0][1] != 'tail':
                c.bad('words:one', w, 'a word becomes %d arcs' % len(adds), condlist(o)); continue
            a = ws[0][2]
            want = [F(i, 'sp'), None, F(i, 't1'), add(F(i, 't1'), F(i, 'dur'))]
            for n, x in enumerate(want):
                if x is not None and S(a[n]) != S(x): c.bad('words:arg%d' % n, where(fn, ws[0][3]), 'a word gets %s as its %s' % (show(a[n]), ('text', '', 'begin time', 'end time')[n]), condlist(o))
            hc = next((I.compare(o.st, '!=', t, C(0)) for t in all_terms(o) if S(t) == S(('init', ('fld', wt, 'has_conf'), 0)) and I.compare(o.st, '!=', t, C(0)) is not None), None)
            conf = a[4]
            if conf[0] == 'ite': okc = S(conf[2]) == S(F(i, 'confidence')) and conf[3] == C(-1) or S(conf[3]) == S(F(i, 'confidence'))
            else: okc = S(conf) == S(F(i, 'confidence')) if hc is not False else conf == C(-1)
            if not okc: c.bad('words:conf', where(fn, ws[0][3]), 'a word gets %s as its confidence' % show(conf), condlist(o))
            if adds[0][2][1] != ('sym', '!newword', tuple(a)): c.bad('words:which', w, 'another word than the current one is added', condlist(o))
        else:
            seen.add('alternate'); c.ob('alternation')
            if [e[1] for e in adds if e[1].startswith('net')] != ['nettail']: c.bad('words:alts', w, 'an alternation is not added once', condlist(o))
            continue
        if add(o.st.env.get(loc, i), i, -1) != C(1): c.bad('words:next', w, 'after word i comes word %s' % show(o.st.env.get(loc, i)), condlist(o))
        n0 = len(list(absint._unroll(L[5])))
        ent = [(cc, tv) for cc, tv, *_ in list(o.conds)[n0:] if i in subterms(cc) and cc[0] == 'cmp' and not any(t[0] == 'elem' for t in subterms(cc))][:2]
        n_ = ('init', ('fld', wt, 'n'), 0)
        gone = {S(add(i, n_, -1)): 'n', S(add(i, end, -1)): 'end'}
        got = set()
        for cc, tv in ent:
            d = S(add(cc[2], cc[3], -1)); nd = S(add(cc[3], cc[2], -1))
            op = cc[1] if tv else {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[cc[1]]
            for x, nm in gone.items():
                if d == x and op == '<=' or nd == x and op == '>=' or d == S(add(x, C(-1))) and op == '<' or nd == S(add(x, C(-1))) and op == '>': got.add(nm)
        if got != {'n', 'end'}: c.bad('words:range', w, 'the words taken are not exactly those up to the end of the section', condlist(o))
    for x in ('plain', 'ignored'):
        if x not in seen: c.bad('words:' + x, where(fn, fn.line), 'no iteration handles a word that is %s' % x)


# ------------------------------------------------------------------ the systems of one section
def systems(c, prog):
    c.rule('systems', 'every system contributes the words from its current one to the end of the section; the null word is "@" with the null confidence; the time-based distance is used exactly when requested')
    n = 0
    for fn in prog.all():
        g = ir.cfg(fn)
        if not any(i[0] == 'call' and i[2] == 'Network_dpalign_n_networks' for b in g.blocks for i in b.ins): continue
        if fn.qn.startswith('Network_'): continue
        if not fn.rel().endswith(('rover.c',)): continue
        n += 1; c.fn(fn)

        def rec(nm, v=C(0)):
            def h(s, st, args, node, line, caller):
                s.event(st, ('call', nm, tuple(args), line, caller)); return v(args) if callable(v) else v
            return h
        T = {'Network_create_from_WTOKE': rec('create', lambda a: ('sym', '!net', tuple(a[:3]))), 'Network_dpalign_n_networks': rec('align'), 'Network_destroy': ignore,
             'Network_traverse': ignore, 'new_WORD': rec('word', lambda a: ('sym', '!newword', tuple(a))), 'release_WORD': ignore, 'rsprintf': pure('rsprintf'), 'free': ignore}
        I = Rec(prog, T, ind, maxpaths=5000)
        outs = I.run(I.start(fn))
        ctm = [param(fn, 1, i) for i, q in enumerate(fn.params) if 'WTOKE' in fn.type(q['t'])]
        ints = {q['n']: param(fn, 1, i) for i, q in enumerate(fn.params)}
        cnt = [param(fn, 1, i) for i, q in enumerate(fn.params) if fn.type(q['t']) == 'int']
        endp = [param(fn, 1, i) for i, q in enumerate(fn.params) if fn.type(q['t']).replace(' ', '') == 'int*']
        dbl = [param(fn, 1, i) for i, q in enumerate(fn.params) if fn.type(q['t']) == 'double']
        c.need(ctm and len(cnt) == 2 and endp, 'parameters of %s are not recognised' % fn.qn)
        seen = 0
        for o in outs:
            if o.kind == 'back':
                ev = since(o, lkey(o)); L = lookup(o, lkey(o))
                cr = [e for e in ev if e[0] == 'call' and e[1] == 'create']
                if not cr: continue
                seen += 1; c.ob('network of one system')
                iv = [(loc, p, s) for loc, (p, s) in L[3].items() if p == C(0) and add(o.st.env.get(loc, s), s, -1) == C(1)]
                w = where(fn, cr[0][3])
                if not iv or not runs(o, L, iv[0][2], cnt[0]): c.bad('systems:all', w, 'not every system gets its network', condlist(o)); continue
                i = iv[0][2]; a = cr[0][2]
                me = ('init', ('elem', ctm[0], i), 0)
                if strip(a[0]) != strip(me): c.bad('systems:which', w, 'system i is built from %s' % show(a[0]))
                if strip(a[1]) != strip(('init', ('fld', me, 's'), 0)): c.bad('systems:first', w, 'the words of a system are taken from %s on' % show(a[1]))
                if strip(a[2]) != strip(('init', ('elem', endp[0], i), 0)): c.bad('systems:last', w, 'the words of a system are taken up to %s' % show(a[2]))
                if a[-1] != C(1): c.bad('systems:order', w, 'the words of a system are not taken in their order')
                st_ = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem' and e[2] == ('sym', '!net', tuple(a[:3]))]
                if not st_ or strip(st_[0][1][2]) != strip(i): c.bad('systems:slot', w, 'the network of a system is stored in another place', condlist(o))
            elif o.kind == 'ret':
                al = [e for e in o.events if e[0] == 'call' and e[1] == 'align']
                w = where(fn, al[0][3] if al else o.line); c.ob('alignment of the systems')
                if len(al) != 1: c.bad('systems:align', w, 'the systems are aligned %d times' % len(al), condlist(o)); continue
                a = al[0][2]
                if strip(a[1]) != strip(cnt[0]): c.bad('systems:count', w, '%s systems are aligned' % show(a[1]))
                tt = next((I.compare(o.st, '!=', t, C(0)) for t in [cnt[1]]), None)
                d = a[2]
                want = {True: 'wwd_time_WORD', False: 'wwd_WORD_rover'}
                def fname(t): return t[1] if t[0] == 'fn' else t[1][1] if t[0] in ('addr', 'init') and isinstance(t[1][1], str) else show(t)
                if d[0] == 'ite':
                    yes, no = fname(d[2]), fname(d[3])
                    ok = {yes, no} == {'wwd_time_WORD', 'wwd_WORD_rover'}
                else: ok = tt is not None and want[tt] in fname(d)
                if not ok: c.bad('systems:distance', w, 'with time alignment %s the distance is %s' % (tt, show(d)), condlist(o))
                nul = a[4]
                if nul[0] != 'sym' or nul[1] != '!newword' or nul[2][0] != ('c', '@') or dbl and strip(nul[2][4]) != strip(dbl[0]): c.bad('systems:null', w, 'the null word is %s' % show(nul))
                if not seen and not any(x.kind == 'back' and any(e[0] == 'call' and e[1] == 'create' for e in x.events) for x in outs): c.bad('systems:none', w, 'no networks are built')
    if not n: c.notes.append('no function of rover.c aligns the systems')


# ------------------------------------------------------------------ sections
def chunks(c, prog):
    c.rule('sections', 'each system\'s part of a section ends between the word before its current one and the last of its channel, and the next section starts with the following word, so that no word is left out or used twice')
    gap = c.fn(prog.get('gap_at_times', 'mfa.c'))
    I = Rec(prog, {'overlap': pure('overlap')}, ind)
    ctm, end = param(gap, 1, 0), param(gap, 1, 1)
    out = ('elem', param(gap, 1, 4), C(0))
    sv = ('init', ('fld', ctm, 's'), 0)
    n = 0
    for o in I.run(I.start(gap)):
        if o.kind != 'ret' or o.value == C(0): continue
        n += 1; c.ob('gap found')
        v = o.st.env.get(out)
        if v is None: c.bad('sections:gap:unset', where(gap, o.line), 'a gap is reported without its position', condlist(o)); continue
        empty = I.compare(o.st, '>', sv, end)
        if empty is True: ok = add(v, sv, -1) == C(-1)
        else:
            # a loop variable that starts at the current word, goes up one by one, and is at most end
            ok = False
            for e in o.events:
                if e[0] == 'loop':
                    for loc, (p, s) in e[3].items():
                        if s == v and strip(p) == strip(sv) and I.compare(o.st, '<=', v, end) is True: ok = True
        if not ok: c.bad('sections:gap', where(gap, o.line), 'the part of a system ends at %s%s' % (show(v), ' although it has no words left' if empty else ''), condlist(o))
    c.need(n, 'gap_at_times reports no gap')
    for o in I.run(I.start(gap)):
        if o.kind == 'back':
            L = lookup(o, lkey(o))
            iv = [(loc, s) for loc, (p, s) in L[3].items() if strip(p) == strip(sv)]
            if iv and add(o.st.env.get(iv[0][0], iv[0][1]), iv[0][1], -1) != C(1): c.bad('sections:gapstep', where(gap, o.line), 'gaps are not tried word by word')
    fn = c.fn(prog.get('find_common_silence', 'mfa.c'))
    P = [param(fn, 1, i) for i in range(5)]

    def gapcall(s, st, args, node, line, caller):
        s.event(st, ('call', 'gap', tuple(args), line, caller)); return ('call', 'gap', tuple(args[:2]), 0)
    I = Rec(prog, {'gap_at_times': gapcall, 'getenv': C(0)}, ind, maxpaths=20000)
    outs = I.run(I.start(fn))
    ctms, nctm, cend, sil = P[:4]
    el = lambda a, i: ('init', ('elem', a, i), 0)
    s0 = ('init', ('fld', el(ctms, C(0)), 's'), 0)
    nrun = nall = 0
    for o in outs:
        if o.kind == 'back':
            k = lkey(o); L = lookup(o, k); ev = since(o, k)
            w = where(fn, next((e[3] for e in ev if e[0] in ('call', 'set')), o.line))
            gc = [e for e in ev if e[0] == 'call' and e[1] == 'gap']
            inner = any(e[0] == 'loop' for e in ev)
            if gc and not inner:
                nrun += 1; c.ob('gap of another system')
                iv = [(loc, p, s) for loc, (p, s) in L[3].items() if p == C(1) and add(o.st.env.get(loc, s), s, -1) == C(1)]
                if not iv or not runs(o, L, iv[0][2], nctm): c.bad('sections:others', w, 'not every other system is asked for the gap', condlist(o)); continue
                i = iv[0][2]; a = gc[0][2]
                if strip(a[0]) != strip(el(ctms, i)) or strip(a[1]) != strip(el(cend, i)) or a[4] not in (('addr', ('elem', sil, i)), add(sil, i)): c.bad('sections:args', w, 'the gap of system i is looked for in %s up to %s' % (show(a[0]), show(a[1])), condlist(o))
                continue
            st_ = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem' and strip(e[1][1]) == strip(sil)]
            if st_ and not inner:
                e = st_[-1]
                if strip(e[2]) == strip(el(cend, e[1][2])):
                    nall += 1; c.ob('remaining words of one system')
                    iv = [(loc, p, s) for loc, (p, s) in L[3].items() if p == C(0) and add(o.st.env.get(loc, s), s, -1) == C(1)]
                    if not iv or not runs(o, L, iv[0][2], nctm) or strip(e[1][2]) != strip(iv[0][2]): c.bad('sections:rest', w, 'the words left over are not taken from every system', condlist(o))
                    # more data exactly if a system has words left
                    i = e[1][2]
                    left = [I.compare(o.st, '<=', a, b) for a in all_terms(o) if strip(a) == strip(('init', ('fld', el(ctms, i), 's'), 0)) for b in all_terms(o) if strip(b) == strip(el(cend, i))]
                    left = next((x for x in left if x is not None), None)
                    ch = [(loc, o.st.env.get(loc, s), s) for loc, (p, s) in L[3].items() if p == C(0) and loc != iv[0][0]] if iv else []
                    for loc, v, s in ch:
                        if left is True and v != C(1) and not (isnum(v) and v[1] != 0): c.bad('sections:more', w, 'words left over in a system are not reported', condlist(o))
                        if left is False and v != s: c.bad('sections:more', w, 'a system without words left changes the answer', condlist(o))
                    if left is None and ch: c.bad('sections:more', w, 'whether words are left over is decided by something else than their number', condlist(o))
        elif o.kind == 'ret' and o.value != C(0):
            fin = o.st.env.get(('elem', sil, C(0)))
            allset = any(e[0] == 'loop' for e in o.events) and o.value[0] != 'c'
            if o.value == C(1) and fin is not None and fin != strip(el(cend, C(0))):
                pass
    if not nrun: c.bad('sections:norun', where(fn, fn.line), 'the other systems are not asked for a gap')
    if not nall: c.bad('sections:norest', where(fn, fn.line), 'the words after the last gap are not taken')
    # the section found ends inside the channel and needs a gap in every system
    for o in outs:
        if o.kind != 'ret' or o.value != C(1): continue
        c.ob('section found')
        w = where(fn, o.line)
        gl = [e for e in o.events if e[0] == 'loop' and any(p == C(1) for loc, (p, s) in e[3].items())]
        v = next((t for t in all_terms(o) if t[0] == 'init' and t[1] == ('elem', sil, C(0))), None)
        mast = [cc for cc, tv, *_ in o.conds if cc[0] == 'cmp' and any(strip(t) == strip(el(cend, C(0))) for t in subterms(cc)) and any(t[0] in ('init', 'sym') and t[1] == ('elem', sil, C(0)) or t == v for t in subterms(cc))]
        if gl:
            # all systems asked, none refused
            i = [s for loc, (p, s) in gl[-1][3].items() if p == C(1)][0]
            done = I.compare(o.st, '>=', i, nctm) is True
            for b in outs:
                if b.kind != 'back' or lkey(b) != (gl[-1][1], gl[-1][2]): continue
                gr = [t for t in b.st.facts if t[0] == 'call' and t[1] == 'gap']
                if any(I.compare(b.st, '==', t, C(1)) is True for t in gr): continue
                B = lookup(b, lkey(b))
                if not any(isnum(b.st.env.get(l, x)) and l in gl[-1][3] and I.compare(o.st, '==', gl[-1][3][l][1], b.st.env[l]) is False for l, (p, x) in B[3].items()):
                    c.bad('sections:refused', w, 'a section is accepted although a system has no gap there', condlist(o)); break
            if not done and not impossible(I, outs, o): c.bad('sections:some', w, 'a section is accepted although a system may have no gap there', condlist(o))
    ng = [o for o in outs if o.kind == 'back' and any(e[0] == 'call' and e[1] == 'gap' for e in since(o, lkey(o)))]
    advance(c, prog)


def impossible(I, outs, o):
    """a flag that only ever holds a few constants would have to hold another one"""
    for e in o.events:
        if e[0] != 'loop': continue
        for loc, (p, s) in e[3].items():
            if not isnum(p): continue
            vals = {p}
            for b in outs:
                if b.kind == 'back' and lkey(b) == (e[1], e[2]):
                    L = lookup(b, lkey(b))
                    if loc in L[3]:
                        v = b.st.env.get(loc, L[3][loc][1])
                        if v != L[3][loc][1]: vals.add(v)
            if all(isnum(v) for v in vals) and all(I.compare(o.st, '==', s, v) is False for v in vals): return True
    return False


def advance(c, prog):
    c.rule('advance', 'after a section each system continues with the word after its part, and the run ends only when every file is read and every word used')
    n = 0
    for fn in prog.all():
        g = ir.cfg(fn)
        calls = {i[2] for b in g.blocks for i in b.ins if i[0] == 'call'}
        if not {'find_common_silence', 'locate_next_file_channel'} <= calls: continue
        c.fn(fn); n += 1
        def sil(s, st, args, node, line, caller):
            s.event(st, ('call', 'silence', tuple(args), line, caller)); return ('call', 'silence', (), 0)
        def rec(nm):
            def h(s, st, args, node, line, caller):
                s.event(st, ('call', nm, tuple(args), line, caller)); return ('sym', '!new' + nm, ())
            return h
        ali = {x for x in calls if x and x.startswith('perform_mfalign')}
        T = {'find_common_silence': sil, 'locate_next_file_channel': rec('locate'), 'Network_traverse': rec('traverse'), 'Network_destroy': ignore, 'new_WORD': pure('new_WORD'), 'WTOKE_STR1_init': pure('WTOKE_STR1_init'),
             'getenv': C(0), 'fopen': lambda s, st, a, *r: ('sym', '!file', ()), 'fclose': ignore, 'free_mark_file': ignore, 'release_WORD': ignore, 'cleanup_NET_ALIGN': ignore, 'Network_WORD_to_CORES': rec('cores'), 'free': ignore}
        for a in ali: T[a] = rec('align')
        def back(s, st, args, node, line, caller): return C(0)
        T['fopen'] = lambda s, st, a, *r: ('sym', '!file', tuple(a))
        def trav(s, st, args, node, line, caller):
            p_ = args[2]; F = ()
            if p_[0] == 'addr': F = tuple((f, s.read(st, ('fld', p_, f))) for f in ('method', 'alpha', 'null_conf', 'ctm_format', 'putat_format', 'null_alt', 'fpout', 'file', 'chan'))
            s.event(st, ('call', 'traverse', tuple(args) + (F,), line, caller)); return C(0)
        T['Network_traverse'] = trav
        for m_ in ('malloc', 'calloc'): T[m_] = lambda s, st, a, node, line, caller: ('sym', '!newmem%d' % line, ())
        I = Rec(prog, T, back, maxpaths=20000)
        outs = I.run(I.start(fn))
        rounds(c, prog, fn, I, outs)
        cnt = [param(fn, 1, i) for i, q in enumerate(fn.params) if q['n'] == 'nhyps'] or [param(fn, 1, 1)]
        k_ = 0
        for o in outs:
            if o.kind != 'back': continue
            k = lkey(o); L = lookup(o, k); ev = since(o, k)
            if any(e[0] == 'loop' for e in ev): continue
            st_ = [e for e in ev if e[0] == 'set' and e[1][0] == 'fld' and e[1][2] == 's']
            if not st_: continue
            k_ += 1; c.ob('%s: advance of one system' % fn.qn)
            e = st_[-1]; w = where(fn, e[3])
            al = [x for x in o.events if x[0] == 'call' and x[1] == 'align']
            si = [x for x in o.events if x[0] == 'call' and x[1] == 'silence']
            if not al or not si: c.bad('advance:order', w, 'a system advances before its words are aligned', condlist(o)); continue
            endarr = al[-1][2][2]; cend = si[-1][2][2]
            if strip(si[-1][2][3]) != strip(endarr): c.bad('advance:end', w, 'the words aligned do not end where the section ends')
            iv = [(loc, p, s) for loc, (p, s) in L[3].items() if p == C(0) and add(o.st.env.get(loc, s), s, -1) == C(1)]
            if not iv or not runs(o, L, iv[0][2], cnt[0]): c.bad('advance:all', w, 'not every system advances', condlist(o)); continue
            i = iv[0][2]
            x = ('init', ('elem', endarr, i), 0)
            d = strip(add(e[2], x, -1)) if False else None
            xs = [t for t in subterms(e[2]) if strip(t) == strip(x)]
            d = add(e[2], xs[0], -1) if xs else None
            ys = [t for t in all_terms(o) if strip(t) == strip(('init', ('elem', cend, i), 0))]
            over = any(I.compare(o.st, '>', xs[0], y) is True for y in ys) if xs else False
            if strip(e[1][1]) != strip(('init', ('elem', al[-1][2][0], i), 0)): c.bad('advance:which', w, 'the advance is stored in %s' % showloc(e[1]), condlist(o))
            if d is not None and d[0] == 'ite' and d[2] == C(1): d = C(1)
            if d != C(1) and not over: c.bad('advance:step', w, 'the next section of a system starts at %s' % show(e[2]), condlist(o))
            # done
            dn = [(loc, p, s) for loc, (p, s) in L[3].items() if p == C(1)]
            eof = [a_ for x_ in o.events if x_[0] == 'call' and x_[1] == 'locate' for a_ in [x_[2][4]]]
            if dn and eof:
                loc, p, s = dn[0]; v = o.st.env.get(loc, s)
                ef = next((I.compare(o.st, '!=', t, C(0)) for t in all_terms(o) if strip(t) == strip(('init', ('elem', eof[-1], i), 0)) and I.compare(o.st, '!=', t, C(0)) is not None), None)
                me = ('init', ('elem', al[-1][2][0], i), 0)
                nn = [t for t in all_terms(o) if strip(t) == strip(('init', ('fld', me, 'n'), 0))]
                left = next((r for t in nn for r in [I.compare(o.st, '<=', e[2], t)] if r is not None), None)
                c.ob('%s: end of the run' % fn.qn)
                if v == C(0):
                    if not (ef is False or left is True): c.bad('advance:done', w, 'the run goes on for another reason than words left', condlist(o))
                elif v == s:
                    if not (ef is True and left is False): c.bad('advance:done', w, 'the run can end although a system still has words', condlist(o))
                else: c.bad('advance:done', w, 'the end of the run is decided by %s' % show(v), condlist(o))
            else: c.notes.append('%s: the end of the run is not recognised' % fn.qn)
        if not k_: c.bad('advance:none:' + fn.qn, where(fn, fn.line), 'no system advances after a section')
        for o in outs:
            if o.kind != 'back': continue
            ev = since(o, lkey(o)); al = [e for e in ev if e[0] == 'call' and e[1] == 'align']
            if al and not any(e[0] == 'loop' for e in ev): c.bad('advance:stuck', where(fn, al[0][3]), 'systems do not advance after a section', condlist(o))
    c.need(n, 'no function processes the sections')


def rounds(c, prog, fn, I, outs):
    """opening the files, one round per file and channel, what the vote is told"""
    P = {q['n']: param(fn, 1, i) for i, q in enumerate(fn.params)}
    hyp, n = param(fn, 1, 0), param(fn, 1, 1)
    S = strip
    # ------------------------------------------------------------ every branch is decided by something that was set
    for o in outs:
        for cc, tv, line, f in o.conds:
            u = [t for t in subterms(cc) if t[0] == 'undef' and t[1][0] == 'v' and ('cmp' == cc[0] and t in cc[2:4] or t == cc)]
            if u: c.bad('advance:unset:' + u[0][1][3], where(f, line), '%s is used before it is set' % u[0][1][3])
    # ------------------------------------------------------------ opening
    opened = None
    for o in outs:
        if o.kind != 'back': continue
        k = lkey(o); L = lookup(o, k); ev = since(o, k)
        if any(e[0] == 'call' and e[1] in ('locate', 'silence', 'align') for e in o.events): continue
        op = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem' and e[2][:2] == ('sym', '!file')]
        ini = [e for e in ev if e[0] == 'set' and e[1][0] == 'elem' and e[2][:2] == ('call', 'WTOKE_STR1_init')]
        if not op and not ini: continue
        w = where(fn, (op or ini)[0][3]); c.ob('%s: opening one input' % fn.qn)
        iv = [(loc, p, s) for loc, (p, s) in L[3].items() if p == C(0) and add(o.st.env.get(loc, s), s, -1) == C(1)]
        if not iv or not runs(o, L, iv[0][2], n): c.bad('advance:open', w, 'not every input file is opened', condlist(o)); continue
        i = iv[0][2]
        for e in op:
            if S(e[2][2][0]) != S(('init', ('elem', hyp, i), 0)) or e[1][2] != i: c.bad('advance:open', w, 'file %s is opened as input %s' % (show(e[2][2][0]), show(e[1][2])), condlist(o))
            elif not (e[2][2][1][0] == 'c' and e[2][2][1][1].startswith('r') and '+' not in e[2][2][1][1]): c.bad('advance:mode', w, 'an input file is opened with mode %s' % show(e[2][2][1]))
        if op and ini: opened = (S(op[0][1][1]), S(ini[0][1][1]))
    if opened is None: c.notes.append('%s: opening of the inputs not recognised' % fn.qn)
    # ------------------------------------------------------------ rounds
    loc_ = ('sym', '!newlocate', ())
    for o in outs:
        lo = [e for e in o.events if e[0] == 'call' and e[1] == 'locate']; si = [e for e in o.events if e[0] == 'call' and e[1] == 'silence']; al = [e for e in o.events if e[0] == 'call' and e[1] == 'align']
        for e in lo:
            a = e[2]; w = where(fn, e[3]); c.ob('%s: next file and channel' % fn.qn)
            if len(a) < 7: c.notes.append('locate_next_file_channel has other parameters'); break
            if S(a[1]) != S(n) or S(a[3]) != S(hyp) or opened and (S(a[0]) != opened[1] or S(a[2]) != opened[0]): c.bad('advance:locate', w, 'the next file and channel is not looked for in all of the inputs')
            if 'case_sense' in P and S(a[6]) != S(P['case_sense']): c.bad('advance:case', w, 'the words are read with case sensitivity %s' % show(a[6]))
        for e in si:
            a = e[2]; w = where(fn, e[3])
            if not lo or S(a[0]) != S(lo[-1][2][0]) or S(a[1]) != S(n) or S(a[2]) != S(lo[-1][2][5]): c.bad('advance:section', w, 'the end of the section is not looked for within the current file and channel of all inputs')
        for e in al:
            if not lo or S(e[2][0]) != S(lo[-1][2][0]) or S(e[2][1]) != S(n): c.bad('advance:align', where(fn, e[3]), 'not all of the inputs are aligned')
            if I.compare(o.st, '!=', ('call', 'silence', (), 0), C(0)) is not True: c.bad('advance:found', where(fn, e[3]), 'words are aligned although no section was found', condlist(o))
        if o.kind == 'back' and lo and lookup(o, lkey(o)):
            k = lkey(o); L = lookup(o, k); ev = since(o, k)
            if any(e is lo[-1] for e in ev) and I.compare(o.st, '==', ('call', 'silence', (), 0), C(1)) is True and not any(e[0] == 'call' and e[1] == 'align' for e in ev[ev.index(si[-1]):] if si): c.bad('advance:dropped', where(fn, si[-1][3]), 'a section that was found is not aligned', condlist(o))
            if any(e is lo[-1] for e in ev) and not any(e[0] == 'call' and e[1] == 'align' for e in o.events):
                # no section in this round: the condition of the loop must fail
                c.ob('%s: a round without a section' % fn.qn)
                ends = False; base = len(list(absint._unroll(L[5])))
                now_ = lambda cc, s_, v_: I.compare(o.st, cc[1], v_ if cc[2] == s_ else cc[2], v_ if cc[3] == s_ else cc[3]) if cc[0] == 'cmp' else bool(v_[1]) if cc == s_ else None
                for e in ev:        # the path needs a section after all
                    if e[0] == 'loop' and any(isnum(p_) and s_ in subterms(cc) and now_(cc, s_, p_) is (not tv) for l_, (p_, s_) in e[3].items() for cc, tv, *_ in o.conds[base:]): ends = True
                for cc, tv, *_ in o.conds[base:]:
                    for l_, (p_, s_) in L[3].items():
                        if isnum(p_) and s_ in subterms(cc) and now_(cc, s_, p_) is (not tv): c.bad('advance:never', where(fn, lo[-1][3]), 'no file and channel is ever looked for', condlist(o))
                for cc, tv, *_ in o.conds[base:]:
                    for l_, (p_, s_) in L[3].items():
                        v_ = o.st.env.get(l_, s_)
                        for e in reversed(ev):      # left unchanged by a loop that is not entered
                            if e[0] == 'loop' and l_ in e[3] and e[3][l_][1] == v_: v_ = e[3][l_][0]
                        if s_ not in subterms(cc) or not isnum(v_): continue
                        now = I.compare(o.st, cc[1], v_ if cc[2] == s_ else cc[2], v_ if cc[3] == s_ else cc[3]) if cc[0] == 'cmp' else bool(v_[1]) if cc == s_ else None
                        if now is not None and now != tv: ends = True
                if not ends: c.bad('advance:hang', where(fn, lo[-1][3]), 'the run goes on for ever when no input has any words', condlist(o))
        for e in o.events:
            if e[0] != 'call' or e[1] != 'traverse' or not e[2][-1]: continue
            F = dict(e[2][-1]); w = where(fn, e[3]); c.ob('%s: what the vote is told' % fn.qn)
            ct = lo[-1][2][0] if lo else None
            W = lambda x: S(('init', ('fld', ('addr', ('elem', ('init', ('fld', ('init', ('elem', ct, C(0)), 0), 'word'), 0), ('init', ('fld', ('init', ('elem', ct, C(0)), 0), 's'), 0))), x), 0)) if ct else None
            for f, x, t in (('file', 'conv', 'file name'), ('chan', 'turn', 'channel')):
                if F[f][0] == 'init' and F[f][1][0] == 'fld' and S(F[f]) == W(x): continue
                c.bad('advance:' + f, w, 'the %s written with the words is %s, not that of the section' % (t, show(F[f])), condlist(o))
            na = F['null_alt']
            if na[:2] != ('call', 'new_WORD') or not na[2] or na[2][0] != C('@'): c.bad('advance:null', w, 'the null word of the vote is %s' % show(na))
            if 'out_name' in P and S(F['fpout']) != S(('sym', '!file', (P['out_name'], C('w')))) and I.compare(o.st, '==', P['out_name'], C(0)) is not True: c.bad('advance:out', w, 'the words are written to %s' % show(F['fpout']))
            m = F['method']; cd = c_codes(c, prog)
            put = I.compare(o.st, '==', m, C(cd['putat'])) if 'putat' in cd else None
            fm = (F['ctm_format'], F['putat_format'])
            if put is None: c.bad('advance:format', w, 'the output format does not depend on the method', condlist(o))
            elif not all(isnum(x) for x in fm) or (bool(fm[0][1]), bool(fm[1][1])) != (not put, put): c.bad('advance:format', w, 'the method %s writes ctm format %s, putative format %s' % ('putat' if put else 'chosen', show(fm[0]), show(fm[1])), condlist(o))


def c_codes(c, prog):
    if not hasattr(c, 'codes'):
        from S09 import methods
        c.codes = {k: min(v) for k, v in methods(c, prog).items() if len(v) == 1}
    return c.codes


def boundary(c, prog):
    c.rule('boundary', 'the words of the current file and channel are those from the current one up to the one before the first that differs; systems that are not at the same file and channel are refused')
    fn = c.fn(prog.get('locate_boundary', 'fillmrks.c'))
    I = Rec(prog, {}, ind)
    st = I.start(fn)
    seg, start = param(fn, 1, 0), param(fn, 1, 1)
    for i in (2, 3): st.env[('v', 1, fn.params[i]['id'], fn.params[i]['n'])] = C(1)
    out = ('elem', param(fn, 1, 4), C(0))
    F = lambda i, x: ('init', ('fld', ('addr', ('elem', ('init', ('fld', seg, 'word'), 0), i)), x), 0)
    outs = I.run(st); S = strip
    nn = ('init', ('fld', seg, 'n'), 0)
    nb = 0
    for o in outs:
        w = where(fn, o.line)
        if o.kind == 'ret':
            c.ob('end of a channel')
            v = o.st.env.get(out)
            if v is None: c.bad('boundary:unset', w, 'no end is given', condlist(o)); continue
            its = [(l, p, x) for e in o.events if e[0] == 'loop' for l, (p, x) in e[3].items() if S(p) == S(start)]
            at_n = any(I.compare(o.st, '==', start, t) is True for t in all_terms(o) if S(t) == S(nn))
            past = any(I.compare(o.st, '>', x, t) is True for l, p, x in its for t in all_terms(o) if S(t) == S(nn))
            differs = any(t[0] == 'strcmp' and I.compare(o.st, '!=', t, C(0)) is True and {S(t[2]), S(t[3])} == {S(F(start, y)), S(F(x, y))} for t in o.st.facts for l, p, x in its for y in ('conv', 'turn'))
            lims = [x for e in o.events if e[0] == 'loop' for l, (p, x) in e[3].items() if p == C(0)]
            ok = S(v) in (S(nn), S(start)) and at_n or S(v) == S(nn) and past or v in lims and I.compare(o.st, '!=', v, C(0)) is True or any(add(v, x, -1) == C(-1) and (past or differs) for l, p, x in its)
            if not ok: c.bad('boundary:end', w, 'the channel is said to end at %s' % show(v), condlist(o))
        if o.kind == 'back':
            k = lkey(o); L = lookup(o, k)
            iv = [(loc, p, s) for loc, (p, s) in L[3].items() if S(p) == S(start)]
            if not iv: continue
            loc, p, i = iv[0]; nb += 1; c.ob('word of a channel')
            if add(o.st.env.get(loc, i), i, -1) != C(1): c.bad('boundary:step', w, 'the words are not compared one by one', condlist(o))
            eq = {}
            for t, f in o.st.facts.items():
                if t[0] == 'strcmp':
                    for x in ('conv', 'turn'):
                        if {S(t[2]), S(t[3])} == {S(F(start, x)), S(F(i, x))}: eq[x] = I.compare(o.st, '==', t, C(0))
            lim = [(l, o.st.env.get(l, s), s) for l, (p, s) in L[3].items() if p == C(0)]
            for l, v, s in lim:
                if v == s:
                    if eq.get('conv') is not True or eq.get('turn') is not True: c.bad('boundary:same', w, 'a word counts as belonging to the channel although its file or channel was not compared equal', condlist(o))
                elif add(v, i, -1) == C(-1):
                    if eq.get('conv') is True and eq.get('turn') is True: c.bad('boundary:diff', w, 'a word of the same file and channel ends it', condlist(o))
                elif not isnum(v): c.bad('boundary:limit', w, 'the channel ends at %s' % show(v), condlist(o))
    if not nb: c.notes.append('the loop of locate_boundary is not recognised')
    loc = c.fn(prog.get('locate_next_file_channel', 'mfa.c'))
    def rec(nm):
        def h(s, st, args, node, line, caller):
            s.event(st, ('call', nm, tuple(args), line, caller)); return C(0)
        return h
    I = Rec(prog, {'fill_WTOKE_structure': rec('fill'), 'locate_boundary': rec('bound')}, ind, maxpaths=5000)
    st = I.start(loc)
    outs = I.run(st)
    ctms, nctm = param(loc, 1, 0), param(loc, 1, 1)
    el = lambda i: ('init', ('elem', ctms, i), 0)
    W = lambda i, x: ('init', ('fld', ('addr', ('elem', ('init', ('fld', el(i), 'word'), 0), ('init', ('fld', el(i), 's'), 0))), x), 0)
    nb = nx = 0
    for o in outs:
        if o.kind == 'stop':
            nx += 1; c.ob('mismatch'); ex = exits(o)
            if ex is None or not isnum(ex) or ex[1] == 0: c.bad('boundary:exit', where(loc, o.line), 'systems at different files are reported with success status', condlist(o))
        if o.kind != 'back': continue
        k = lkey(o); L = lookup(o, k); ev = since(o, k)
        if not any(e[0] == 'call' and e[1] == 'bound' for e in ev): continue
        nb += 1; c.ob('next channel of one system')
        w = where(loc, next(e[3] for e in ev if e[0] == 'call'))
        iv = [(l, p, s) for l, (p, s) in L[3].items() if p == C(0) and add(o.st.env.get(l, s), s, -1) == C(1)]
        if not iv or not runs(o, L, iv[0][2], nctm): c.bad('boundary:systems', w, 'not every system is positioned', condlist(o)); continue
        i = iv[0][2]
        b = [e for e in ev if e[0] == 'call' and e[1] == 'bound'][0][2]; fl = [e for e in ev if e[0] == 'call' and e[1] == 'fill']
        if not fl or strip(fl[0][2][0]) != strip(el(i)) or ev.index(fl[0]) > [e[1] for e in ev].index('bound'): c.bad('boundary:fill', w, 'the words of a system are not read before its channel is located', condlist(o))
        if strip(b[0]) != strip(el(i)) or strip(b[1]) != strip(('init', ('fld', el(i), 's'), 0)) or not (isnum(b[2]) and b[2][1] and isnum(b[3]) and b[3][1]): c.bad('boundary:args', w, 'the end of the channel is not looked for by file and channel from the current word on', condlist(o))
        # system i >= 1 with words left must have been compared with system 0
        first = above(I, o.st, i, 0)
        has = [I.compare(o.st, '<=', a, b_) for a in all_terms(o) if strip(a) == strip(('init', ('fld', el(i), 's'), 0)) for b_ in all_terms(o) if strip(b_) == strip(('init', ('fld', el(i), 'n'), 0))]
        has = next((x for x in has if x is not None), None)
        if first is False or has is False: continue
        eq = {}
        for t in o.st.facts:
            if t[0] == 'strcmp':
                for x in ('conv', 'turn'):
                    if {strip(t[2]), strip(t[3])} == {strip(W(C(0), x)), strip(W(i, x))}: eq[x] = I.compare(o.st, '==', t, C(0))
        for x, tx in (('conv', 'file'), ('turn', 'channel')):
            if eq.get(x) is not True: c.bad('boundary:compare:' + x, w, 'a system with words left is combined with the first without its %s being compared equal' % tx, condlist(o))
    if not nb: c.bad('boundary:none', where(loc, loc.line), 'the systems are not positioned one by one')
