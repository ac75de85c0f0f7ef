"""S03: the back trace turns every step of the chosen path into the right alignment item, exactly once."""
import facts, ir, absint
from absint import C, show, showloc, add, isnum
from cubes import same, nz
from util import *
from S02 import strip, cellfld, param, all_terms


def check(c):
    prog = c.prog('sclite'); mac = facts.macros('sclite')
    fn = c.fn(prog.get('extract_NET_ALIGN_result', 'net_dp.c'))
    LAB = {mac[k]: k for k in ('P_CORR', 'P_SUB', 'P_INS', 'P_DEL')}

    def indirect(s, st, args, node, line, caller):
        fv = node['fv']
        name = fv[1][2] if fv[0] == 'init' and fv[1][0] == 'fld' else show(fv)
        if name in ('is_null_alt', 'is_opt_del', 'equal'):
            if name == 'equal':
                args = sorted(args, key=repr)
            return ('call', name, tuple(args), 0)
        if name == 'make_empty':
            return nz('empty')
        s.event(st, ('call', name, tuple(args), line, caller))
        return C(0)
    T = {'print_arc': ignore, 'dump_NET_ALIGN': ignore, 'find_arcset_id': pure('find_arcset_id'), 'PATH_alloc': lambda s, st, a, *r: ('sym', '!path', (a[0],)), 'getenv': C(0)}
    I = Rec(prog, T, indirect)
    st = I.start(fn)
    for k, g in prog.globs.items():
        n = k if isinstance(k, str) else k[0]
        if n == 'db':
            st.env[('g', n)] = C(0)
    outs = I.run(st)
    net = param(fn, 1, 0); incl = ('init', ('v', 1, fn.params[3]['id'], fn.params[3]['n']), 0)
    data = lambda s, i: ('init', ('fld', ('init', ('elem', ('init', ('fld', ('addr', ('fld', net, 'arcset_' + s)), 'arcs'), 0), i), 0), 'data'), 0)
    c.rule('item', 'every step of the back trace yields the item its move calls for: an insertion/deletion without/with the other word, an optionally '
           'deletable word as correct, a pairing as correct exactly when the words compare equal; steps over null words yield no item unless requested')
    c.rule('count', 'the number of items counted for allocation equals the number of items stored, step by step')
    nlab = ncnt = 0; headers = {}; stuck = []
    for o in outs:
        if o.kind != 'back':
            continue
        L = last_loop_of(o, o.value)
        # loop variables that move along the back pointers
        var = {}
        for loc, (p, s) in L[3].items():
            now = strip(o.st.env.get(loc, s))
            if now[0] == 'init' and now[1][0] == 'fld' and now[1][2] in ('back_a', 'back_b'):
                var[now[1][2]] = (loc, s)
        if set(var) != {'back_a', 'back_b'}:
            stuck.append(o)
            continue
        headers.setdefault(o.value, set()).update((var['back_a'][0], var['back_b'][0]))
        a, b = var['back_a'][1], var['back_b'][1]
        if strip(o.st.env[var['back_a'][0]]) != strip(('init', cellfld(net, a, b, 'back_a'), 0)) or \
           strip(o.st.env[var['back_b'][0]]) != strip(('init', cellfld(net, a, b, 'back_b'), 0)):
            c.bad('trace:step', where(fn, o.line), 'the back trace does not follow the back pointers of the current cell'); continue
        ev = after_loop(o, o.value)
        sets = {}
        for e in ev:
            if e[0] == 'set' and e[1][0] == 'fld' and e[1][2] in ('a_ptr', 'b_ptr', 'eval'):
                sets[e[1][2]] = (e[1], e[2], e[3])
        labelling = any(e[0] == 'call' and e[1] == 'use_count' for e in ev) or sets or any(e[0] == 'set' and e[1][0] == 'fld' and e[1][2] == 'num' for e in ev)
        A, B = data('a', a), data('b', b)

        def truth(t):
            for x in o.st.facts:
                if strip(x) == strip(t):
                    return I.compare(o.st, '!=', x, C(0))
            return None

        def eqt():
            for x in o.st.facts:
                if x[0] == 'call' and x[1] == 'equal' and {strip(y) for y in x[2]} == {strip(A), strip(B)}:
                    return I.compare(o.st, '==', x, C(0))
            return None
        ba = [t for t in all_terms(o) if strip(t) == strip(('init', cellfld(net, a, b, 'back_a'), 0))]
        bb = [t for t in all_terms(o) if strip(t) == strip(('init', cellfld(net, a, b, 'back_b'), 0))]
        atoms = {'ins': I.compare(o.st, '==', a, ba[0]) if ba else None, 'del': I.compare(o.st, '==', b, bb[0]) if bb else None,
                 'incl': truth(incl), 'na': truth(('call', 'is_null_alt', (A,), 0)), 'nb': truth(('call', 'is_null_alt', (B,), 0)),
                 'oa': truth(('call', 'is_opt_del', (A,), 0)), 'ob': truth(('call', 'is_opt_del', (B,), 0)), 'eq': eqt()}

        def emit(v):
            if v['incl']: return True
            if v['ins']: return not v['nb']
            if v['del']: return not v['na']
            return not (v['na'] and v['nb'])
        # the labelling loop of this path: decided per path set, see below
        hdr = o.value
        cnt = [(loc, p, s) for loc, (p, s) in L[3].items() if loc not in (var['back_a'][0], var['back_b'][0])]
        is_label = hdr in label_headers(outs)
        comps = list(completions(atoms, lambda v: not (v['ins'] and v['del'])))
        if not is_label:
            ncnt += 1
            c.cur = 'count'; c.ob('counting step ' + desc(atoms))
            # exactly one counter must move by emit(v)
            # a counter: starts at 0 before the loop
            ok = False; seen = None
            for loc, p, s in cnt:
                if p != C(0): continue
                d = add(o.st.env.get(loc, s), s, -1)
                seen = d
                if d[0] == 'c' and all(d[1] == (1 if emit(v) else 0) for v in comps):
                    ok = True
            if not ok:
                c.bad('count:' + desc(atoms), where(fn, o.line), 'the item counter changes by %s on a step where %s' % (show(seen) if seen else 'nothing', desc(atoms)), condlist(o))
            continue
        nlab += 1
        c.cur = 'item'; c.ob('labelling step ' + desc(atoms))
        num = [add(o.st.env.get(e[1], e[2]), ('init', e[1], L[6].get(absint.cls2(e[1]), 0)), -1) for e in ev if e[0] == 'set' and e[1][0] == 'fld' and e[1][2] == 'num']
        moved = None
        for loc, p, s in cnt:
            now = o.st.env.get(loc, s)
            d = add(now, s, -1)
            if d == C(-1): moved = (loc, s)
        stored = None
        if sets:
            stored = (sets.get('a_ptr', (None, None))[1], sets.get('b_ptr', (None, None))[1], sets.get('eval', (None, None))[1])
        uses = [e[2][0] for e in ev if e[0] == 'call' and e[1] == 'use_count']
        for v in comps:
            bad = None
            if not emit(v):
                if stored or moved or uses:
                    bad = 'an item is stored for a step over a null word'
            else:
                if v['ins']:
                    want = (nz('empty'), B, 'P_CORR') if v['ob'] else (C(0), B, 'P_INS')
                elif v['del']:
                    want = (A, nz('empty'), 'P_CORR') if v['oa'] else (A, C(0), 'P_DEL')
                else:
                    want = (A, B, 'P_CORR' if v['eq'] else 'P_SUB')
                if not stored or None in stored:
                    bad = 'no complete item is stored'
                else:
                    lab = LAB.get(stored[2][1]) if isnum(stored[2]) else None
                    if strip(stored[0]) != strip(want[0]) or strip(stored[1]) != strip(want[1]) or lab != want[2]:
                        bad = 'stored (%s, %s, %s), required (%s, %s, %s)' % (show(stored[0]), show(stored[1]), lab, show(want[0]), show(want[1]), want[2])
                    elif not moved or not num or num[-1] != C(1):
                        bad = 'the item is stored but the path position or length does not advance by one'
                    elif any(x[1][0] == 'addr' and x[1][1][0] == 'elem' and x[1][1][2] != moved[1] for x in (sets['a_ptr'][0], sets['b_ptr'][0], sets['eval'][0])):
                        bad = 'the three parts of the item go to different positions'
                    else:
                        for x in (want[0], want[1]):
                            if x not in (C(0), nz('empty')) and strip(x) not in [strip(u) for u in uses]:
                                bad = 'a stored word is not marked as in use'
            if bad:
                c.bad('item:' + desc(atoms), where(fn, sets['eval'][2] if 'eval' in sets else o.line), bad + '; on a step where ' + desc({k: v[k] for k in v}), condlist(o)); break
    for o in stuck:
        if o.value in headers:
            c.cur = 'item'; c.bad('trace:stuck', where(fn, o.line), 'a step of the back trace does not move on to the cell before', condlist(o))
    if nlab < 6 or ncnt < 3:
        from facts import AnalysisError
        raise AnalysisError('back trace loops not recognised (%d labelling, %d counting paths)' % (nlab, ncnt))
    # the item array is as long as the count, filled from the end
    c.rule('length', 'the item array is allocated with the counted length and filled from its last position')
    okn = 0
    for o in outs:
        if o.kind == 'back' and o.value in label_headers(outs):
            L = last_loop_of(o, o.value)
            sz = [v[2][0] for loc, (p, s) in L[3].items() for v in [p] if False]
            pos = [(loc, p, s) for loc, (p, s) in L[3].items() if add(o.st.env.get(loc, s), s, -1) == C(-1)]
            pal = [t for e in o.events if e[0] == 'set' for t in absint_sub(e[1]) if t[0] == 'sym' and t[1] == '!path']
            for loc, p, s in pos:
                okn += 1; c.ob()
                if pal and not same(add(p, C(1)), pal[0][2][0]):
                    c.bad('length', where(fn, o.line), 'filling starts at %s although %s items were allocated' % (show(p), show(pal[0][2][0])))
    c.need(okn, 'item array position not recognised')
    c.rule('complete', 'the back trace ends only at the origin: no leading word is left out')
    nret = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        for e in o.events:
            if e[0] == 'loop' and e[2] in headers:
                for s in headers[e[2]]:
                    sym = [y for l, (p, y) in e[3].items() if l == s][0]
                    nret += 1; c.ob()
                    if I.compare(o.st, '<=', sym, C(0)) is not True:
                        c.bad('complete', where(fn, o.line), 'the back trace can end before both sequences are used up', condlist(o))
    c.need(nret, 'no return after the back trace found')


_lh = {}


def label_headers(outs):
    k = id(outs)
    if k not in _lh:
        s = set()
        for o in outs:
            if o.kind == 'back' and any(e[0] == 'set' and e[1][0] == 'fld' and e[1][2] == 'eval' for e in after_loop(o, o.value)):
                s.add(o.value)
        _lh[k] = s
    return _lh[k]


def absint_sub(t):
    from S02 import subterms
    return subterms(t)


NAMES = {'ins': 'move is an insertion', 'del': 'move is a deletion', 'incl': 'null words requested', 'na': 'reference word is null', 'nb': 'hypothesis word is null',
         'oa': 'reference word optionally deletable', 'ob': 'hypothesis word optionally deletable', 'eq': 'words equal'}


def desc(v):
    return '; '.join(('' if x else 'not: ') + NAMES[k] for k, x in v.items() if x is not None)
