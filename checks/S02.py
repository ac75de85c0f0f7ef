"""S02: the word alignment is a cheapest one (DP recurrence, selection, back trace)."""
import functools
import absint, ir
from absint import C, show, showloc, add, isnum
from cubes import zone_le, zone_min, same
from util import *

PR = {'print_arc': ignore, 'print_node': ignore, 'dump_NET_ALIGN': ignore}


def cellfld(net, a, b, f):
    row = ('init', ('elem', ('init', ('fld', net, 'cell'), 0), a), 0)
    return ('fld', ('addr', ('elem', row, b)), f)


@functools.lru_cache(maxsize=500000)
def strip(t):
    """term without version numbers, for comparison by shape"""
    if isinstance(t, tuple):
        if t and t[0] == 'init':
            return ('init', strip(t[1]))
        if t and t[0] == 'addr' and t[1][0] == 'elem' and t[1][2] == C(0):
            return strip(t[1][1])
        return tuple(strip(x) for x in t)
    return t


def param(fn, fr, n):
    p = fn.params[n]
    return ('init', ('v', fr, p['id'], p['n']), 0)


def check(c):
    prog = c.prog('sclite')
    net_dp = 'net_dp.c'
    # ---------------------------------------------------------------- cell recurrence
    c.rule('cell-min', 'each interior cell stores the least of (insert, delete, substitute) predecessor cost plus edit cost, with the '
           'back pointers of the chosen move; every cell of the matrix is visited in increasing order')
    fn = c.fn(prog.get('calculate_internal_cells', net_dp))
    T = dict(PR)
    T['calc_minimum_insert'] = bump_out('ins', [3, 4])
    T['calc_minimum_delete'] = bump_out('del', [3, 4])
    T['calc_minimum_substi'] = bump_out('sub', [3, 4, 5])
    I = Rec(prog, T)
    outs = I.run(fn)
    net = param(fn, 1, 0)
    backs = [o for o in outs if o.kind == 'back']
    c.need(backs, 'no loop found in calculate_internal_cells')
    inner = max((len(loops(o)) for o in backs))
    hdrs = set()
    for o in backs:
        w = where(fn, o.line)
        L = last_loop_of(o, o.value)
        ev = after_loop(o, o.value)
        hdrs.add(o.value)
        if any(e[0] == 'loop' for e in ev):
            continue        # outer loop; the inner loop is judged by its own iteration
        stores = [e for e in ev if e[0] == 'set' and e[1][0] == 'fld' and e[1][2] in ('min_d', 'back_a', 'back_b')]
        calls = [e for e in ev if e[0] == 'call' and e[1] in ('ins', 'del', 'sub')]
        c.ob('path through the interior-cell computation at line %s' % (stores[-1][3] if stores else o.line))
        if not calls and not stores:
            # an outer iteration with an empty inner loop
            continue
        args = {e[1]: e[2] for e in calls}
        if set(args) != {'ins', 'del', 'sub'} or not stores:
            c.bad('cell:moves', w, 'a cell is computed without considering all of insertion, deletion and substitution (%s)' % sorted(args)); continue
        a, b = args['sub'][1], args['sub'][2]
        if any(x[1] != a or x[2] != b for x in args.values()):
            c.bad('cell:index', w, 'the three moves are costed for different cells'); continue
        final = {}
        for e in stores:
            final[strip(e[1])] = (e[2], e[3])
        arc = lambda s, i: ('init', ('fld', ('init', ('elem', ('init', ('fld', ('addr', ('fld', net, 'arcset_' + s)), 'arcs'), 0), i), 0), 'data'), 0)
        wd = lambda x, y: [t for t in costs if strip(t[2][0]) == strip(x) and strip(t[2][1]) == strip(y)]
        costs = set()
        for k in o.st.facts:
            for t in subterms(k):
                if t[0] == 'call' and t[1] == 'wwd': costs.add(t)
        for v, _ in final.values():
            for t in subterms(v):
                if t[0] == 'call' and t[1] == 'wwd': costs.add(t)
        key = lambda f: strip(cellfld(net, a, b, f))
        if set(final) != {key('min_d'), key('back_a'), key('back_b')}:
            c.bad('cell:target', w, 'stores %s instead of exactly the cost and both back pointers of the current cell' % sorted(showloc(e[1]) for e in stores)); continue
        v, ln = final[key('min_d')]; ba = final[key('back_a')][0]; bb = final[key('back_b')][0]
        A, B = arc('a', a), arc('b', b)
        sym = lambda l, n: ('sym', '%s.%d' % (l, n), (net, a, b))
        cand = []
        for lab, x, y, pa, pb in (('sub', A, B, sym('sub', 1), sym('sub', 2)), ('del', A, C(0), sym('del', 1), b), ('ins', C(0), B, a, sym('ins', 1))):
            m = wd(x, y)
            cand.append((lab, add(sym(lab, 0), m[0]) if m else None, pa, pb))
        if any(x[1] is None for x in cand):
            miss = [x[0] for x in cand if x[1] is None]
            # a candidate whose cost never enters a comparison or the result
            c.bad('cell:cost', w, 'the edit cost of %s does not take part in the choice of the cell value' % miss, condlist(o)); continue
        chosen = [x for x in cand if same(x[1], v)]
        if not chosen:
            c.bad('cell:value', where(fn, ln), 'the cell cost %s is none of the three candidate costs' % show(v), condlist(o)); continue
        if not zone_min(o.st, v, [x[1] for x in cand]):
            c.bad('cell:min', where(fn, ln), 'on this path the %s cost is stored although it is not the least of the three' % chosen[0][0], condlist(o)); continue
        if not any(same(ba, x[2]) and same(bb, x[3]) for x in chosen):
            c.bad('cell:back', where(fn, ln), 'the back pointers stored with the %s cost are (%s,%s), required (%s,%s)' % (chosen[0][0], show(ba), show(bb), show(chosen[0][2]), show(chosen[0][3])), condlist(o))
        # loop ranges: from 1 in steps of one
    c.floor('cell-min', 4)
    c.part(ranges, c, fn, I, outs, net, {'arcset_a': 1, 'arcset_b': 1}, 'cell')
    # ---------------------------------------------------------------- margins
    c.rule('margin', 'the first row/column accumulates insertion/deletion cost from the cheapest predecessor')
    fn = c.fn(prog.get('calculate_margin_cells', net_dp))
    I = Rec(prog, T); outs = I.run(fn); net = param(fn, 1, 0)
    kinds = set()
    for o in [o for o in outs if o.kind == 'back']:
        ev = after_loop(o, o.value)
        calls = [e for e in ev if e[0] == 'call' and e[1] in ('ins', 'del', 'sub')]
        stores = {strip(e[1]): (e[2], e[3]) for e in ev if e[0] == 'set' and e[1][0] == 'fld' and e[1][2] in ('min_d', 'back_a', 'back_b')}
        w = where(fn, o.line)
        c.ob('margin iteration %s' % [e[1] for e in calls])
        if len(calls) != 1:
            c.bad('margin:calls', w, 'a margin cell is not computed from exactly one predecessor minimum'); continue
        k, a, b = calls[0][1], calls[0][2][1], calls[0][2][2]
        kinds.add(k)
        if k == 'ins' and a != C(0) or k == 'del' and b != C(0) or k == 'sub':
            c.bad('margin:kind', w, 'margin cell (%s,%s) is reached by %s' % (show(a), show(b), k)); continue
        key = lambda f: strip(cellfld(net, a, b, f))
        if set(stores) != {key('min_d'), key('back_a'), key('back_b')}:
            c.bad('margin:target', w, 'stores %s' % [showloc(e[1]) for e in ev if e[0] == 'set']); continue
        v, ln = stores[key('min_d')]
        sym = lambda n: ('sym', '%s.%d' % (k, n), (net, a, b))
        rest = add(v, sym(0), -1)
        arc = ('init', ('fld', ('init', ('elem', ('init', ('fld', ('addr', ('fld', net, 'arcset_b' if k == 'ins' else 'arcset_a')), 'arcs'), 0), b if k == 'ins' else a), 0), 'data'), 0)
        okc = rest[0] == 'call' and rest[1] == 'wwd' and (strip(rest[2][0]), strip(rest[2][1])) == ((C(0), strip(arc)) if k == 'ins' else (strip(arc), C(0)))
        if not okc:
            c.bad('margin:value:' + k, where(fn, ln), 'margin cost is %s' % show(v)); continue
        wantb = (C(0), sym(1)) if k == 'ins' else (sym(1), C(0))
        if not (same(stores[key('back_a')][0], wantb[0]) and same(stores[key('back_b')][0], wantb[1])):
            c.bad('margin:back:' + k, where(fn, ln), 'margin back pointers are (%s,%s)' % (show(stores[key('back_a')][0]), show(stores[key('back_b')][0])))
    if kinds != {'ins', 'del'}:
        c.bad('margin:both', where(fn, fn.line), 'both margins must be initialised, found %s' % sorted(kinds))
    c.part(ranges, c, fn, I, outs, net, {'arcset_a': 1, 'arcset_b': 1}, 'margin')
    # ---------------------------------------------------------------- origin
    c.rule('origin', 'the alignment starts from one zero-cost cell')
    fn = c.fn(prog.get('setup_NET_ALIGN', net_dp))
    T2 = dict(PR); T2['alloc_NET_ALIGN'] = pure('alloc'); T2['Network_traverse'] = rec_call('Network_traverse')
    I = Rec(prog, T2); outs = I.run(fn)
    n = 0
    for o in outs:
        if o.kind == 'ret' and o.value == C(0):
            n += 1; c.ob('origin cell')
            st = {e[1][2]: e[2] for e in o.events if e[0] == 'set' and e[1][0] == 'fld' and e[1][2] in ('min_d', 'back_a', 'back_b')
                  and cell00(e[1])}
            if not (st.get('min_d') in (C(0), C(0.0))):
                c.bad('origin', where(fn, o.line), 'the origin cell is not initialised to cost 0: %s' % {k: show(v) for k, v in st.items()})
            tr = [e for e in o.events if e[0] == 'call' and e[1] == 'Network_traverse']
            sides = sorted({x for e in tr for x in ('arcset_a', 'arcset_b') if x in show(e[2][4])})
            nets = [(show(e[2][0]), show(e[2][4])) for e in tr]
            if len(tr) != 2 or not any('net_a' in x and 'arcset_a' in y for x, y in nets) or not any('net_b' in x and 'arcset_b' in y for x, y in nets):
                c.bad('origin:sides', where(fn, o.line), 'the two networks are not each loaded into their own arc set: %s' % nets)
            al = [t for t in all_terms(o) if t[0] == 'call' and t[1] == 'alloc']
            if al and any('net_b' in show(t[2][1]) or 'net_a' in show(t[2][2]) or 'arc_count' not in show(t[2][1]) for t in al):
                c.bad('origin:size', where(fn, o.line), 'the matrix is not sized by the two networks: %s' % show(al[0]))
            # forward in-order traversal of both
            if len({strip(e[2][5]) for e in tr}) > 1:
                c.bad('origin:order', where(fn, o.line), 'the two networks are traversed in different orders')
    c.need(n, 'no successful return from setup_NET_ALIGN')
    c.part(arcindex, c, prog)
    c.part(room, c, prog)
    c.part(pipeline, c, prog)
    import nets
    c.rule('walk', 'the arcs are numbered in an order in which every arc comes after those leading to it: the walk visits a node only after all nodes in front of it, and every node and arc once')
    c.part(nets.walkrules, c, prog, (0x110,))
    # ---------------------------------------------------------------- predecessor minima
    c.rule('pred-min', 'a predecessor search visits every incoming arc and keeps the least cell cost with the matching indices')
    for name, sides in (('calc_minimum_delete', 'a'), ('calc_minimum_insert', 'b'), ('calc_minimum_substi', 'ab')):
        predmin(c, prog, name, sides)
    # ---------------------------------------------------------------- final selection
    c.rule('final-min', 'the end point of the alignment is the cheapest pair of arcs entering the two stop nodes')
    for name in ('extract_NET_ALIGN_result', 'create_alinged_NETWORK'):
        finalsel(c, prog, name)


def arcindex(c, prog):
    c.rule('arc index', 'the position of an arc: a position is returned only if the arc stands there, and only when no position from the given one down to 0 holds it is none returned')
    fn = c.fn(prog.get('find_arcset_id', 'net_dp.c'))
    I = Rec(prog, {}); outs = I.run(fn)
    S, arc, frm = (param(fn, 1, i) for i in range(3))
    arcs = arcs_of(S)
    n = 0
    for o in outs:
        w = where(fn, o.line)
        # pointers that walk along the array together with an index
        walk = {}
        for e in o.events:
            if e[0] != 'loop': continue
            for l1, (p1, s1) in e[3].items():
                for l2, (p2, s2) in e[3].items():
                    if l1 != l2 and strip(add(p1, p2, -1)) == arcs and together(outs, e[2], l1, l2):
                        walk[s1] = s2

        def at(t):
            # the position whose content the term is, or None
            if t[0] == 'init' and t[1][0] == 'elem':
                if strip(t[1][1]) == arcs: return t[1][2]
                if t[1][1] in walk: return add(walk[t[1][1]], t[1][2])
            return None
        hit = None
        for t in all_terms(o):
            k = at(t)
            if k is not None and I.compare(o.st, '==', t, arc) is True: hit = k
        if o.kind == 'back':
            n += 1; c.ob('search step')
            continue
        if o.kind != 'ret':
            c.bad('arc index:stop', w, 'the search does not return'); continue
        c.ob('result %s' % show(o.value))
        neg = I.compare(o.st, '<', o.value, C(0))
        if neg is not True:
            if hit is None or not same(hit, o.value):
                c.bad('arc index:wrong', w, 'returns position %s without having found the arc there' % show(o.value), condlist(o))
            continue
        ok = False
        for e in o.events:
            if e[0] != 'loop': continue
            for l, (p0, s0) in e[3].items():
                if I.compare(o.st, '<', s0, C(0)) is True and any(step(q, e[2], l) == C(-1) for q in outs if q.kind == 'back' and q.value == e[2]) \
                        and all(examined(I, q, e[2], l, arc, arcs, outs) for q in outs if q.kind == 'back' and q.value == e[2]) \
                        and any(same(p0, add(x, C(-1))) or same(p0, frm) and I.compare(o.st, '==', frm, x) is False or same(p0, add(frm, C(-1))) and I.compare(o.st, '==', frm, x) is True
                                for x in versions(o, ('init', ('fld', S, 'num'), 0))):
                    ok = True
        if not ok:
            c.bad('arc index:lost', w, 'reports the arc as missing although not every position from the given one down to 0 was examined', condlist(o))
    c.need(n, 'no search loop in find_arcset_id')
    # storing
    fn = c.fn(prog.get('add_to_arcset', 'net_dp.c'))
    I = Rec(prog, {}); outs = I.run(fn); arc, S = param(fn, 1, 0), param(fn, 1, 1)
    for o in outs:
        c.ob('an arc is added')
        num = ('init', ('fld', S, 'num'), 0)
        st = [e for e in o.events if e[0] == 'set' and e[1][0] == 'elem']
        if o.kind != 'ret' or len(st) != 1 or st[0][2] != arc or strip(st[0][1]) != ('elem', arcs_of(S), strip(num)) or not same(o.st.env.get(('fld', S, 'num'), num), add(num, C(1))):
            c.bad('arc index:add', where(fn, o.line), 'an arc of the network is not appended to the arc set')


def arcs_of(S):
    return strip(('init', ('fld', S, 'arcs'), 0))


def step(o, h, loc):
    L = last_loop_of(o, h)
    return add(o.st.env.get(loc, L[3][loc][1]), L[3][loc][1], -1) if loc in L[3] else None


def together(outs, h, l1, l2):
    b = [o for o in outs if o.kind == 'back' and o.value == h]
    return all(l1 in last_loop_of(o, h)[3] and l2 in last_loop_of(o, h)[3] and step(o, h, l1) == step(o, h, l2) and step(o, h, l1)[0] == 'c' for o in b)


def examined(I, o, h, loc, arc, arcs, outs):
    """the iteration goes on only because the element at the current position is another arc"""
    L = last_loop_of(o, h); s0 = L[3][loc][1]
    for t in all_terms(o):
        if t[0] == 'init' and t[1][0] == 'elem' and I.compare(o.st, '==', t, arc) is False:
            b, k = t[1][1], t[1][2]
            if strip(b) == arcs and same(k, s0): return True
            for l1, (p1, s1) in L[3].items():
                if s1 == b and k == C(0) and strip(add(p1, L[3][loc][0], -1)) == arcs and together(outs, h, l1, loc): return True
    return False


CAP = {'unsigned short': 65535, 'short': 32767, 'int': 2 ** 31 - 1, 'unsigned int': 2 ** 32 - 1, 'long': 2 ** 63 - 1, 'unsigned long': 2 ** 64 - 1, 'unsigned char': 255, 'char': 127, 'signed char': 127}


def room(c, prog):
    c.rule('room', 'the matrix has a row for every arc of one network and a column for every arc of the other, whatever alignment came before, and a back pointer can hold every index; larger networks are refused')
    fn = c.fn(prog.get('alloc_NET_ALIGN', 'net_dp.c'))
    k = [0]

    def mal(s, st, a, *r):
        k[0] += 1
        return ('sym', '!new%d' % k[0], a[0])
    I = Rec(prog, {'malloc': mal, 'free': ignore})
    st = I.start(fn); st.env[('g', 'db')] = C(0)
    A = {'a': param(fn, 1, 1), 'b': param(fn, 1, 2)}
    # the least size, raised to a minimum: compare with the parameters as given
    outs = I.run(st)
    rows = set()
    fld = next(r for n, r in prog.recs.items() if any(f['n'] == 'back_a' for f in r['fields']))
    cap = {f['n']: CAP.get(fld['types'][f['t']].replace('const ', ''), None) for f in fld['fields']}
    n = 0
    for o in outs:
        if o.kind != 'ret': continue
        n += 1; c.ob('path to a matrix')
        w = where(fn, o.line); v = o.value
        for sd in 'ab':
            base = ('addr', ('fld', v, 'arcset_' + sd))
            mx = ('fld', base, 'max')
            last = lambda l: next((e[2] for e in reversed(o.events) if e[0] == 'set' and strip(e[1]) == strip(l)), None)
            mv = last(mx)
            if not any(atleast(I, o, x, A[sd]) for x in ([mv] if mv is not None else versions(o, ('init', mx, 0)))):
                c.bad('room:' + sd, w, 'there may be fewer places than arcs of network %s' % sd, condlist(o))
            nm = ('fld', base, 'num')
            if last(nm) != C(0):
                c.bad('room:num:' + sd, w, 'the arc set of network %s does not start empty' % sd, condlist(o))
            for f in ('back_a', 'back_b'):
                if f[-1] == sd and cap[f] is not None and I.compare(o.st, '<=', A[sd], C(cap[f])) is not True:
                    c.bad('room:cap:' + sd, w, 'an index of network %s may not fit into its back pointer (%d)' % (sd, cap[f]), condlist(o))
            ar = ('fld', base, 'arcs')
            if mv is not None and mv != C(0):
                av = last(ar)
                if av is None or av[0] != 'sym' or not any(prop_to(av[2], x) for x in versions(o, ('init', mx, 0)) | {mv}):
                    c.bad('room:arcs:' + sd, w, 'the arc list of network %s is not allocated with its size' % sd, condlist(o))
            elif mv is not None:
                c.bad('room:gone:' + sd, w, 'the arc list of network %s is given up without a new one' % sd, condlist(o))
        cell = [e for e in o.events if e[0] == 'set' and strip(e[1]) == strip(('fld', v, 'cell'))]
        grown = any(e[0] == 'set' and e[1][0] == 'fld' and e[1][2] == 'max' for e in o.events)
        if grown and (not cell or cell[-1][2][0] != 'sym'):
            c.bad('room:cell', w, 'the matrix is not allocated anew with the arc lists', condlist(o))
    for o in outs:
        if o.kind == 'back':
            for e in after_loop(o, o.value):
                if e[0] == 'set' and e[1][0] == 'elem' and e[2][0] == 'sym' and e[2][1].startswith('!new'):
                    mb = [x[2] for x in o.events if x[0] == 'set' and x[1][0] == 'fld' and x[1][2] == 'max' and 'arcset_b' in showloc(x[1])][-1:]
                    c.ob('row of the matrix'); rows.add(o.value)
                    vs = set(mb) | {t for t in all_terms(o) if t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == 'max' and 'arcset_b' in showloc(t[1])}
                    if not any(prop_to(e[2][2], m) for m in vs):
                        c.bad('room:row', where(fn, e[3]), 'a row of the matrix is not as long as the arc list of the second network: %s' % show(e[2][2]), condlist(o))
    c.need(n and rows, 'allocation of the matrix not recognised')


def atleast(I, o, x, y):
    if I.compare(o.st, '>=', x, y) is True: return True
    ks = {t for cc, _, _, _ in o.conds for t in subterms(cc) if isnum(t)}
    return any(I.compare(o.st, '>=', x, k) is True and I.compare(o.st, '<=', y, k) is True for k in ks)


def prop_to(size, n):
    if n[0] == 'c' and isnum(n):
        return isnum(size) and n[1] > 0 and size[1] % n[1] == 0 and size[1] > n[1]
    for k in (1, 4, 8, 12, 16, 20, 24, 32):
        if same(size, absint.scale(n, k)) or same(add(size, absint.scale(n, k), -1), C(1)): return True
    return False


def pipeline(c, prog):
    c.rule('pipeline', 'an alignment prepares both networks, fills the margins and then the interior with the given costs, and returns the path extracted from that matrix')
    fn = c.fn(prog.get('Network_dpalign', 'net_dp.c'))
    T = dict(PR); T['getenv'] = C(0); T['destroy_NET_ALIGN'] = ignore
    ORDER = ['add_null_network_heads', 'setup_NET_ALIGN', 'calculate_margin_cells', 'calculate_internal_cells', 'extract_NET_ALIGN_result']
    for x in ORDER:
        def h(s, st, a, node, line, caller, x=x):
            s.event(st, ('call', x, tuple(a), line, caller))
            return ('call', x, tuple(a), 0)
        T[x] = h
    I = Rec(prog, T); st = I.start(fn); st.env[('g', 'db')] = C(0)
    NA, NB, W, OUT, NUL = (param(fn, 1, i) for i in range(5))
    ali = ('init', ('g', 'net_ali'))
    ok = 0
    for o in I.run(st):
        if o.kind != 'ret' or I.compare(o.st, '==', o.value, C(0)) is False: continue
        ok += 1; c.ob('successful alignment')
        w = where(fn, o.line)
        ev = [e for e in o.events if e[0] == 'call' and e[1] in ORDER]
        heads = {e[2][0] for e in ev if e[1] == ORDER[0]}
        rest = [(e[1], tuple(strip(x) for x in e[2])) for e in ev if e[1] != ORDER[0]]
        S = strip
        want = [('setup_NET_ALIGN', (S(('addr', ('g', 'net_ali'))), S(NA), S(NB))), ('calculate_margin_cells', (ali, S(NA), S(NB), S(W))),
                ('calculate_internal_cells', (ali, S(NA), S(NB), S(W))), ('extract_NET_ALIGN_result', (ali, S(NA), S(NB), S(NUL)))]
        i = next((i for i, e in enumerate(ev) if e[1] != ORDER[0]), 0)
        if heads != {NA, NB} or any(e[1] == ORDER[0] for e in ev[i:]) or sum(e[1] == ORDER[0] for e in ev) != 2:
            c.bad('pipeline:heads', w, 'the networks are not each given one leading null arc before the alignment', condlist(o)); continue
        if rest != want:
            c.bad('pipeline:order', w, 'the steps of the alignment are %s' % [x[0] for x in rest], condlist(o)); continue
        res = [e for e in o.events if e[0] == 'set' and strip(e[1]) == ('elem', strip(OUT), C(0))]
        if not res or res[-1][2][0] != 'call' or res[-1][2][1] != 'extract_NET_ALIGN_result':
            c.bad('pipeline:out', w, 'the extracted path is not handed back', condlist(o))
    c.need(ok, 'no successful return from Network_dpalign')


class Prefix(Rec):
    """explores a function only up to the n-th distinct loop of its own body"""
    def __init__(s, prog, table, fn, n):
        Rec.__init__(s, prog, table); s.pfn = fn; s.pn = n

    def enter_block(s, st, fn, g, b, fr):
        if fn is s.pfn and b in g.loops and (fr, b) not in st.visits:
            if sum(1 for k in st.visits if k[0] == fr) >= s.pn:
                return absint.Outcome('cut', None, st, fn.line, fn)
        return Rec.enter_block(s, st, fn, g, b, fr)


def cell00(loc):
    p = loc[1]
    row = p[1][1] if p[0] == 'addr' and p[1][0] == 'elem' and p[1][2] == C(0) else p
    if p[0] == 'addr' and p[1][0] == 'elem' and p[1][2] != C(0):
        return False
    return row[0] == 'init' and row[1][0] == 'elem' and row[1][2] == C(0) or row[0] == 'init' and row[1][0] == 'fld'


def rec_call(label):
    def h(s, st, args, node, line, caller):
        s.event(st, ('call', label, tuple(args), line, caller))
        return C(0)
    return h


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


def versions(o, t):
    """the term as of any moment of the path"""
    w = strip(t)
    return {t} | {x for x in all_terms(o) if strip(x) == w}


def ranges(c, fn, I, outs, net, bounds, tag):
    """each loop of fn counts a local from `lo` by one up to the number of arcs of one side"""
    done = {}
    for o in outs:
        if o.kind != 'back':
            continue
        L = last_loop_of(o, o.value)
        pre, fr = L[3], L[4]
        ok = False
        for loc, (p, s) in pre.items():
            now = o.st.env.get(loc)
            if now is None: continue
            if same(now, add(s, C(1))) and p == C(1):
                for side in bounds:
                    num = ('init', ('fld', ('addr', ('fld', net, side)), 'num'), 0)
                    if any(I.compare(o.st, '<', s, n2) is True for n2 in versions(o, num)):
                        ok = True; done.setdefault(o.value, set()).add(side)
        c.ob()
        if not ok:
            c.bad('%s:range:%d' % (tag, 0), where(fn, o.line), 'a matrix loop does not run from 1 in steps of one up to the number of arcs')
    # exits: a return must be because the counters reached the bounds
    sides = set().union(*done.values()) if done else set()
    if sides != set(bounds):
        c.bad(tag + ':sides', where(fn, fn.line), 'loops cover only %s' % sorted(sides))
    for o in outs:
        if o.kind == 'ret':
            c.ob()
            for e in o.events:
                if e[0] != 'loop': continue
                ctr = [s for loc, (p, s) in e[3].items() if p == C(1)]
                good = False
                for s in ctr:
                    for side in bounds:
                        num = ('init', ('fld', ('addr', ('fld', net, side)), 'num'), 0)
                        if any(I.compare(o.st, '>=', s, n2) is True for n2 in versions(o, num)):
                            good = True
                if not good:
                    c.bad(tag + ':exit', where(fn, o.line), 'a matrix loop is left before its last cell', condlist(o))


def predmin(c, prog, name, sides):
    fn = c.fn(prog.get(name, 'net_dp.c'))
    T = dict(PR); T['find_arcset_id'] = pure('find_arcset_id')
    I = Rec(prog, T); outs = I.run(fn)
    net, A, B = param(fn, 1, 0), param(fn, 1, 1), param(fn, 1, 2)
    arcof = lambda s, i: ('init', ('elem', ('init', ('fld', ('addr', ('fld', net, 'arcset_' + s)), 'arcs'), 0), i), 0)
    head = lambda s: ('init', ('fld', ('init', ('fld', arcof(s, A if s == 'a' else B), 'from_node'), 0), 'in_arcs'), 0)
    minimum(c, fn, I, outs, net, sides, head, lambda s: A if s == 'a' else B, ('elem', param(fn, 1, 3), C(0)),
            [('elem', param(fn, 1, 4 + i), C(0)) for i in range(len(sides))], {'a': A, 'b': B}, name)


def finalsel(c, prog, name):
    fn = c.fn(prog.get(name, 'net_dp.c'))
    T = dict(PR); T['find_arcset_id'] = pure('find_arcset_id')
    net = param(fn, 1, 0)
    nets = {'a': param(fn, 1, 1), 'b': param(fn, 1, 2)}

    T['getenv'] = C(0); T['NETWORK_insert_arc_between_node'] = pure('ins'); T['NETWORK_insert_arc_before_node'] = pure('ins'); T['NETWORK_insert_arc_after_node'] = pure('ins')
    T['PATH_alloc'] = pure('PATH_alloc')
    I = Prefix(prog, T, fn, 4 if name == 'extract_NET_ALIGN_result' else 3); I.rec_locals = True
    st = I.start(fn); st.env[('g', 'db')] = C(0)
    outs = I.run(st)
    # the minimum is the local float compared with the cell costs; find it from the stores
    loc = None
    for o in outs:
        for e in o.events:
            if e[0] == 'set' and e[1][0] == 'v' and e[2][0] == 'init' and e[2][1][0] == 'fld' and e[2][1][2] == 'min_d':
                loc = e[1]
    if loc is None:
        c.bad(name + ':sel', where(fn, fn.line), 'no end point is selected from the cell costs'); return
    idx = []
    for o in outs:
        ev = o.events
        for i, e in enumerate(ev):
            if e[0] == 'set' and e[1] == loc and e[2][0] == 'init':
                ids = [e2[1] for e2 in ev[max(0, i - 3):i + 4] if e2[0] == 'set' and e2[1][0] == 'v' and e2[2][0] == 'call' and e2[2][1] == 'find_arcset_id']
                for x in ids:
                    if x not in idx: idx.append(x)
    num = lambda s: ('init', ('fld', ('addr', ('fld', net, 'arcset_' + s)), 'num'), 0)
    head = lambda s: ('init', ('fld', ('init', ('fld', nets[s], 'stop_node'), 0), 'in_arcs'), 0)
    sel = minimum(c, fn, I, outs, net, 'ab', head, num, loc, None, None, name)
    tracestart(c, fn, I, outs, sel, name)


def minimum(c, fn, I, outs, net, sides, head, start, mloc, ilocs, fixed, name):
    n = 0; walked = set(); sel = {'iter': [], 'outer': []}
    for o in outs:
        w = where(fn, o.line)
        if o.kind == 'stop':
            ex = exits(o); c.ob()
            if ex is None or not isnum(ex) or ex[1] == 0:
                c.bad(name + ':stop', w, 'stops without a failure status')
            elif fixed is not None and not any(I.compare(o.st, '<', t, C(0)) is True for t in all_terms(o) if t[0] == 'call' and t[1] == 'find_arcset_id'):
                c.bad(name + ':stop', w, 'stops although every arc was found in its arc set', condlist(o))
            continue
        if o.kind == 'back':
            # list iteration?
            L = last_loop_of(o, o.value); fr = L[4]
            iters = []
            for e in o.events:
                if e[0] != 'loop': continue
                for loc, (p, s) in e[3].items():
                    for sd in sides:
                        if strip(p) == strip(head(sd)):
                            iters.append((e[2], loc, s, sd))
            mine = [x for x in iters if x[0] == o.value]
            if not mine:
                if fixed is not None:
                    c.bad(name + ':list', w, 'a loop does not walk the list of incoming arcs')
                continue
            h, loc, s, sd = mine[-1]
            n += 1; walked.add(sd)
            c.ob('%s: iteration over the arcs of side %s' % (name, sd))
            if strip(o.st.env.get(loc, s)) != ('init', ('fld', strip(s), 'next')):
                c.bad(name + ':next', w, 'the list of incoming arcs is not walked element by element'); continue
            ev = after_loop(o, o.value)
            if any(e[0] == 'loop' for e in ev):
                # outer loop of two: the minimum must not change between the inner loop and here
                tail = []
                for e in ev:
                    tail = [] if e[0] == 'loop' else tail + [e]
                pre = [e for e in ev[:ev.index([e for e in ev if e[0] == 'loop'][0])]]
                for e in pre + tail:
                    if e[0] == 'set' and e[1] == mloc:
                        c.bad(name + ':outer', where(fn, e[3]), 'the running minimum is overwritten outside the comparison', condlist(o))
                sel['outer'].append(o)
                for hh, l2, s2, sd2 in iters:
                    if hh != o.value and any(e[0] == 'loop' and e[2] == hh for e in ev) and I.compare(o.st, '==', s2, C(0)) is not True:
                        c.bad(name + ':early', w, 'the search can stop before the end of the list of arcs', condlist(o))
                continue
            # ids of the arcs on the enclosing iterations
            ids = {}
            for hh, l2, s2, sd2 in iters:
                ids[sd2] = [t for t in all_terms(o) if t[0] == 'call' and t[1] == 'find_arcset_id'
                            and strip(t[2][0]) == strip(('addr', ('fld', net, 'arcset_' + sd2))) and strip(t[2][1]) == ('init', ('fld', strip(s2), 'arc'))]
            if any(len(set(map(strip, v))) != 1 for v in ids.values()) or set(ids) != set(sides):
                c.bad(name + ':ids', w, 'an iteration does not look up the current arc of each side exactly once'); continue
            for sd2, v in ids.items():
                if strip(v[0][2][2]) != strip(start(sd2)):
                    c.bad(name + ':start', w, 'the arc look-up for side %s starts at %s' % (sd2, show(v[0][2][2])))
            ia = ids['a'][0] if 'a' in ids else fixed['a']
            ib = ids['b'][0] if 'b' in ids else fixed['b']
            want = strip(('init', cellfld(net, ia, ib, 'min_d')))
            x = [t for t in all_terms(o) if strip(t) == want]
            sets = [e for e in ev if e[0] == 'set' and e[1] == mloc]
            if not x:
                c.bad(name + ':cand', w, 'an iteration ignores the cost of its predecessor cell', condlist(o)); continue
            x = x[0]
            inner = last_loop_of(o, o.value)
            m0 = inner[3][mloc][1] if mloc in inner[3] else ('init', mloc, o.st.ep.get(absint.cls2(mloc), 0))
            sel['iter'].append((o, ids, bool(sets)))
            if sets:
                v = sets[-1][2]
                if not (same(v, x) and zone_le(o.st, x, m0)):
                    c.bad(name + ':min', where(fn, sets[-1][3]), 'the running minimum becomes %s although that is not known to be the smaller value' % show(v), condlist(o))
                if ilocs:
                    got = {e[1]: e[2] for e in ev if e[0] == 'set'}
                    for l, sd2 in zip(ilocs, sides):
                        if l not in got or strip(got[l]) != strip(ids[sd2][0]):
                            c.bad(name + ':idx', where(fn, sets[-1][3]), 'the minimum is stored without the matching index of side %s' % sd2, condlist(o))
                else:
                    got = [strip(e[2]) for e in ev if e[0] == 'set' and e[1][0] == 'v']
                    for sd2 in sides:
                        if got.count(strip(ids[sd2][0])) < 2 and got.count(strip(ids[sd2][0])) < 1:
                            c.bad(name + ':idx', where(fn, sets[-1][3]), 'the minimum is stored without the matching index of side %s' % sd2, condlist(o))
            else:
                if not zone_le(o.st, m0, x):
                    c.bad(name + ':skip', w, 'an iteration keeps the old minimum although the candidate may be smaller', condlist(o))
                if ilocs and any(e[0] == 'set' and e[1] in ilocs for e in ev):
                    c.bad(name + ':idx2', w, 'an index changes without the minimum', condlist(o))
        else:
            c.ob()
            # returns: list loops end only at the end of the list; the initial minimum is a huge constant
            first = next((i for i, e in enumerate(o.events) if e[0] == 'loop'), len(o.events))
            init = [e for e in o.events[:first] if e[0] == 'set' and e[1] == mloc]
            if not init or not isnum(init[-1][2]) or init[-1][2][1] < 999999:
                c.bad(name + ':init', w, 'the running minimum is not initialised to a value no cost reaches')
            for e in o.events:
                if e[0] != 'loop': continue
                for loc, (p, s) in e[3].items():
                    if any(strip(p) == strip(head(sd)) for sd in sides):
                        if I.compare(o.st, '==', s, C(0)) is not True:
                            # inner loops may not have been entered on this path: they then have no fact either
                            c.bad(name + ':early', w, 'the search can stop before the end of the list of arcs', condlist(o))
            for e in o.events[first:]:
                if e[0] == 'set' and e[1] == mloc and fixed is not None:
                    c.bad(name + ':late', where(fn, e[3]), 'the running minimum is overwritten after the search', condlist(o))
    if walked != set(sides):
        c.bad(name + ':loops', where(fn, fn.line), 'only the arcs of side %s are searched' % sorted(walked))
    return sel


def tracestart(c, fn, I, outs, sel, name):
    """every back trace begins at the selected pair of arcs and goes on until both sides are at the origin"""
    X = {'a': None, 'b': None}
    hs = {o.value for o, _, _ in sel['iter']} | {o.value for o in sel['outer']}
    for o, ids, taken in sel['iter']:
        L = last_loop_of(o, o.value)
        for sd in 'ab':
            ok = {loc for loc, (p, s) in L[3].items() if
                  strip(o.st.env.get(loc, s)) == (strip(ids[sd][0]) if taken else strip(s))}
            X[sd] = ok if X[sd] is None else X[sd] & ok
    for o in sel['outer']:
        inner = [e for e in after_loop(o, o.value) if e[0] == 'loop' and e[2] in hs]
        if not inner: continue
        for sd in 'ab':
            X[sd] = {loc for loc in X[sd] or () if loc in inner[-1][3] and o.st.env.get(loc) == inner[-1][3][loc][1]}
    for sd in 'ab':
        c.ob('%s: index of side %s kept with the minimum' % (name, sd))
        if not X[sd]:
            c.bad(name + ':kept:' + sd, where(fn, fn.line), 'the index of side %s is not kept together with the least final cost' % sd); return
    n = 0; bad = set()
    for o in outs:
        sl = [e for e in o.events if e[0] == 'loop' and e[2] in hs]
        if o.kind != 'back' or o.value in hs or not sl:
            continue
        L = last_loop_of(o, o.value)
        var = {}
        for loc, (p, s) in L[3].items():
            now = strip(o.st.env.get(loc, s))
            if now[0] == 'init' and now[1][0] == 'fld' and now[1][2] in ('back_a', 'back_b'):
                var[now[1][2][-1]] = (loc, p, s)
        if set(var) != {'a', 'b'}:
            continue
        n += 1; c.ob('%s: back trace from line %d' % (name, o.line or 0))
        outer = sl[0]
        for sd in 'ab':
            good = [outer[3][x][1] for x in X[sd] if x in outer[3]]
            if var[sd][1] not in good and ('start', sd, o.value) not in bad:
                bad.add(('start', sd, o.value))
                c.bad(name + ':start:' + sd, where(fn, o.line), 'the back trace does not begin at the selected arc of side %s but at %s' % (sd, show(var[sd][1])))
        if I.compare(o.st, '>', var['a'][2], C(0)) is not True and I.compare(o.st, '>', var['b'][2], C(0)) is not True:
            c.bad(name + ':beyond', where(fn, o.line), 'the back trace takes a step from the origin', condlist(o))
    c.need(n, 'back trace of %s not recognised' % name)


def all_terms(o):
    for k in o.st.facts:
        for t in subterms(k): yield t
    for k, v in o.st.env.items():
        for t in subterms(v): yield t
    for e in o.events:
        if e[0] == 'set':
            for t in subterms(e[2]): yield t
