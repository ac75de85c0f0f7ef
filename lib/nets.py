"""Rules for the basic operations on word networks: lists of arcs, nodes, and walks over a network."""
import absint
from absint import C, show, add, isnum
from util import *


def helpers():
    import S02, S09, S14, path
    return S02, S09, S14, path


F = lambda b, f: ('fld', b, f)
init = lambda loc: ('init', loc, 0)


def start(prog, fn, T, ind=None, **k):
    I = Rec(prog, T, ind, maxpaths=20000, **k)
    st = I.start(fn)
    for g in ('db', 'db_level'): st.env[('g', g)] = C(0)
    return I, st


BASE = {n: ignore for n in ('fprintf', 'printf', 'free', 'db_enter_msg', 'db_leave_msg', 'print_node', 'print_arc')}


def mem(s, st, a, node, line, caller):
    s.event(st, ('call', 'new', tuple(a), line, caller)); return ('sym', '!newmem%d' % line, ())


def lists(c, prog):
    """an arc is put into a list once and at its end, and taken off a list without disturbing the others"""
    S02, S09, S14, path = helpers(); strip, known = S02.strip, S14.known
    fn = prog.get('add_to_arc_list')
    if fn is not None:
        c.fn(fn); name = fn.name
        I, st = start(prog, fn, {**BASE, 'malloc_safe': mem, 'malloc': mem}); outs = I.run(st)
        lst, arc = S02.param(fn, 1, 0), S02.param(fn, 1, 1)
        for o in outs:
            w = where(fn, o.line or fn.line); N = [e for e in o.events if e[0] == 'call' and e[1] == 'new']
            if o.kind == 'back':
                c.ob('%s: a step' % name)
                if any(e[0] in ('set', 'call') for e in S09.since(o, S09.lkey(o)) if e[0] != 'set' or e[1][0] != 'v'): c.bad('%s:search' % name, w, 'the list is changed while it is searched', condlist(o))
                L = S09.lookup(o, S09.lkey(o)); w = where(fn, o.conds[-1][2])
                cur = [(l, s) for l, (p, s) in L[3].items() if strip(p) == strip(lst) and known(o, s) is True]
                if len(cur) == 1:
                    l, s = cur[0]
                    if strip(o.st.env.get(l)) != strip(init(F(s, 'next'))): c.bad('%s:walk' % name, w, 'the search goes on at %s' % show(o.st.env.get(l)), condlist(o))
                    hit = next((tv == (cc[1] == '==') for cc, tv, *_ in o.conds if cc[0] == 'cmp' and cc[1] in ('==', '!=') and {strip(x) for x in cc[2:4]} == {strip(arc), strip(init(F(s, 'arc')))}), None)
                    if hit is True and not any(p == C(0) and isnum(o.st.env.get(q)) and o.st.env[q][1] for q, (p, s2) in L[3].items()): c.bad('%s:unnoticed' % name, w, 'an arc that is in the list is put into it again', condlist(o))
                continue
            if o.kind != 'ret': continue
            c.ob('%s: a path' % name)
            S = {strip(e[1]): e[2] for e in o.events if e[0] == 'set' and e[1][0] == 'fld'}
            if not N:
                if strip(o.value) != strip(lst): c.bad('%s:list' % name, w, 'the list becomes %s' % show(o.value), condlist(o))
                hit = any(cc[0] == 'cmp' and cc[1] in ('==', '!=') and tv == (cc[1] == '==') and any(strip(x) == strip(arc) for x in cc[2:4]) for cc, tv, *_ in o.conds) or found(o, outs, arc, strip, known)
                if not hit: c.bad('%s:lost' % name, w, 'an arc that is not in the list is not put into it', condlist(o))
                continue
            a = ('sym', '!newmem%d' % N[0][3], ())
            if len(N) != 1 or S.get(F(a, 'arc')) != arc: c.bad('%s:arc' % name, w, 'the new entry is not the arc', condlist(o)); continue
            e = known(o, lst)
            if e is False:
                if o.value != a or S.get(F(a, 'next')) != C(0) or S.get(F(a, 'prev')) != C(0): c.bad('%s:first' % name, w, 'the first arc of a list is not its only entry', condlist(o))
            else:
                p = S.get(F(a, 'prev'))
                if strip(o.value) != strip(lst): c.bad('%s:list' % name, w, 'the list becomes %s' % show(o.value), condlist(o))
                if p is None or p == C(0) or S.get(F(strip(p), 'next')) != a: c.bad('%s:linked' % name, w, 'the new entry is not linked to the one before', condlist(o)); continue
                n = S.get(F(a, 'next'))
                if n is None or not (n == C(0) or strip(n) == strip(init(F(p, 'next')))): c.bad('%s:next' % name, w, 'behind the new entry the list goes on with %s' % (show(n) if n else 'nothing defined'), condlist(o))
                if n == C(0) and not last(o, p, strip, known): c.bad('%s:cutoff' % name, w, 'the entries behind the new one are lost', condlist(o))
    else: c.notes.append('add_to_arc_list is gone')
    fn = prog.get('del_from_arc_list')
    if fn is not None:
        c.fn(fn); name = fn.name
        def freed(s, st, a, node, line, caller):
            for f in ('next', 'prev', 'arc'): s.write(st, F(a[0], f), ('sym', 'freed', ()))
            return C(0)
        I, st = start(prog, fn, {**BASE, 'free': freed}); X = ('v', 0, 'x', 'x'); head = ('sym', '!head', ())
        P = [('v', 1, p['id'], p['n']) for p in fn.params]
        st.env[P[0]] = ('addr', X); st.env[X] = ('init', X, 0); arc = S02.param(fn, 1, 1); outs = I.run(st)
        for o in outs:
            w = where(fn, o.line or (o.conds[-1][2] if o.conds else fn.line))
            if o.kind == 'ret':
                c.ob('%s: result' % name)
                if strip(o.value) != strip(o.st.env.get(X)): c.bad('%s:list' % name, w, 'the list returned is %s' % show(o.value), condlist(o))
            if o.kind != 'back': continue
            c.ob('%s: a step' % name); k = S09.lkey(o); L = S09.lookup(o, k); ev = S09.since(o, k)
            cur = [(l, s) for l, (p, s) in L[3].items() if strip(p) == strip(init(X)) and l != X]
            if len(cur) != 1: c.notes.append('%s: the walk along the list is not recognised' % name); continue
            l, p = cur[0]
            if strip(o.st.env.get(l)) != strip(init(F(p, 'next'))): c.bad('%s:walk' % name, w, 'the walk goes on at %s' % show(o.st.env.get(l)), condlist(o))
            hit = None
            for cc, tv, *_ in o.conds:
                if cc[0] == 'cmp' and cc[1] in ('==', '!=') and {strip(x) for x in cc[2:4]} == {strip(arc), strip(init(F(p, 'arc')))}: hit = tv == (cc[1] == '==')
            S = {strip(e[1]): strip(e[2]) for e in ev if e[0] == 'set' and (e[1][0] == 'fld' or e[1] == X)}
            nx, pv = init(F(p, 'next')), init(F(p, 'prev'))
            if hit is False: want = {}
            elif hit is True:
                n_, p_ = kn(o, nx, strip, known), kn(o, pv, strip, known)
                if n_ is None or p_ is None: c.bad('%s:ends' % name, w, 'it is not asked whether the entry is the first or last one', condlist(o)); continue
                want = {}
                if n_: want[strip(F(nx, 'prev'))] = strip(pv)
                if p_: want[strip(F(pv, 'next'))] = strip(nx)
                else: want[X] = strip(nx)
            else: c.bad('%s:which' % name, w, 'entries are not compared with the arc', condlist(o)); continue
            S.pop(X, None); xs = L[3][X][1] if X in L[3] else init(X)
            if strip(o.st.env.get(X, xs)) != strip(xs): S[X] = strip(o.st.env[X])
            if S != want: c.bad('%s:unlink' % name, w, 'taking the arc off changes %s' % (', '.join(showloc_(x) for x in set(S) ^ set(want)) or 'the wrong entries'), condlist(o))
    else: c.notes.append('del_from_arc_list is gone')


def showloc_(x):
    return absint.showloc(x)


def kn(o, t, strip, known):
    for x in S_all(o):
        if strip(x) == strip(t):
            v = known(o, x)
            if v is not None: return v
    return None


def S_all(o):
    import S02
    return S02.all_terms(o)


def found(o, outs, arc, strip, known):
    """a flag of the searching loop, only raised where the entry is the arc, is known to be up"""
    import S09
    for e in o.events:
        if e[0] != 'loop': continue
        for l, (p, s) in e[3].items():
            if p == C(0) and known(o, s) is True:
                ok = True
                for q in outs:
                    if q.kind == 'back' and S09.lkey(q) == (e[1], e[2]):
                        v = q.st.env.get(l)
                        hit = any(cc[0] == 'cmp' and cc[1] in ('==', '!=') and tv == (cc[1] == '==') and any(strip(x) == strip(arc) for x in cc[2:4]) for cc, tv, *_ in q.conds)
                        if isnum(v) and v[1] != 0 and not hit: ok = False
                if ok: return True
    return False


def last(o, p, strip, known):
    """entry p is known to be the last one of the list"""
    if kn(o, init(F(p, 'next')), strip, known) is False: return True
    # p trails the walk which has reached the end
    for e in o.events:
        if e[0] == 'loop':
            for l, (q, s) in e[3].items():
                if s == p: return any(known(o, s2) is False for l2, (q2, s2) in e[3].items() if l2 != l)
    return False


def making(c, prog):
    S02, S09, S14, path = helpers(); strip = S02.strip
    fn = prog.get('make_arc')
    if fn is not None:
        c.fn(fn); I, st = start(prog, fn, {**BASE, 'malloc_safe': mem, 'malloc': mem})
        P = [S02.param(fn, 1, i) for i in range(4)]
        for o in I.run(st):
            if o.kind != 'ret': continue
            c.ob('make_arc: a path')
            S = {e[1]: e[2] for e in o.events if e[0] == 'set'}
            for f, v in (('data', P[0]), ('from_node', P[1]), ('to_node', P[2]), ('net', C(0))):
                if S.get(F(o.value, f)) != v: c.bad('make_arc:%s' % f, where(fn, o.line), 'a new arc gets %s for %s' % (show(S[F(o.value, f)]) if F(o.value, f) in S else 'nothing', f), condlist(o))
    fn = prog.get('make_node')
    if fn is not None:
        def addl(s, st, a, node, line, caller):
            if a[2][0] == 'addr': s.write(st, a[2][1], C(0))
            return ('call', 'list', (a[0], a[1]))
        c.fn(fn); I, st = start(prog, fn, {**BASE, 'malloc_safe': mem, 'malloc': mem, 'add_to_arc_list': addl, 'strdup_safe': pure('strdup'), 'TEXT_strdup': pure('strdup'), 'sprintf': ignore, 'snprintf': ignore, 'strdup': pure('strdup')})
        P = [S02.param(fn, 1, i) for i in range(5)]
        for o in I.run(st):
            if o.kind != 'ret' or o.value == C(0): continue
            c.ob('make_node: a path'); w = where(fn, o.line)
            S = {e[1]: e[2] for e in o.events if e[0] == 'set'}
            g = lambda f: S.get(F(o.value, f))
            if g('net') != P[1]: c.bad('make_node:net', w, 'a new node does not belong to the network', condlist(o))
            for f, p in (('in_arcs', P[2]), ('out_arcs', P[3])):
                k = S14.known(o, p)
                want = C(0) if k is False else ('call', 'list', (C(0), p))
                if k is None or g(f) != want: c.bad('make_node:%s' % f, w, 'a new node gets %s for %s' % (show(g(f)) if g(f) else 'nothing', f), condlist(o))
            if g('flag2') != C(0) or g('flag1') != C(0): c.bad('make_node:flags', w, 'the marks of a new node are not cleared', condlist(o))
            k = S14.known(o, P[0]); nm = g('name')
            if nm is None or nm[:2] != ('call', 'strdup') or k is True and nm[2][0] != P[0]: c.bad('make_node:name', w, 'the name of a new node is %s' % (show(nm) if nm else 'not set'), condlist(o))
    fn = prog.get('Network_init')
    if fn is not None:
        def nodeh(s, st, a, node, line, caller):
            s.event(st, ('call', 'node', tuple(a), line, caller))
            if a[5][0] == 'addr': s.write(st, a[5][1], C(0))
            return ('sym', '!newnode', ())
        c.fn(fn); I, st = start(prog, fn, {**BASE, 'malloc': mem, 'calloc': mem, 'make_node': nodeh, 'TEXT_strdup': pure('strdup')})
        P = [S02.param(fn, 1, i) for i in range(9)]
        for o in I.run(st):
            if o.kind != 'ret' or o.value == C(0): continue
            c.ob('Network_init: a path'); w = where(fn, o.line)
            S = {strip(e[1]): e[2] for e in o.events if e[0] == 'set'}
            N = [e for e in o.events if e[0] == 'call' and e[1] == 'node']
            def g(f): return next((v for l, v in S.items() if l[0] == 'fld' and l[2] == f), None)
            for f, v in (('stop_node', C(0)), ('start_node', ('sym', '!newnode', ())), ('node_count', C(1)), ('arc_count', C(0)), ('highest_nnode_name', C(0)), ('print', P[0]), ('equal', P[1]), ('destroy', P[2]), ('is_null_alt', P[3]), ('is_opt_del', P[4]), ('copy', P[5]), ('make_empty', P[6]), ('use_count', P[7])):
                if g(f) is None or strip(g(f)) != strip(v): c.bad('Network_init:%s' % f, w, 'a new network gets %s for %s' % (show(g(f)) if g(f) else 'nothing', f), condlist(o))
            if len(N) != 1 or N[0][2][0] != C('START') or N[0][2][1] != o.value or N[0][2][2] != C(0) or N[0][2][3] != C(0): c.bad('Network_init:start', w, 'a new network does not have one first node without arcs', condlist(o))
    fn = prog.get('reset_net_pointer')
    if fn is not None:
        def rech(s, st, a, node, line, caller): s.event(st, ('call', 'again', tuple(a), line, caller)); return C(0)
        c.fn(fn); I, st = start(prog, fn, {**BASE, 'reset_net_pointer': rech}); node, net = S02.param(fn, 1, 0), S02.param(fn, 1, 1)
        outs = I.run(st); backs = [o for o in outs if o.kind == 'back']
        for o in outs:
            w = where(fn, o.line or (o.conds[-1][2] if o.conds else fn.line)); c.ob('reset_net_pointer: a path')
            if o.kind == 'ret':
                L = [e for e in o.events if e[0] == 'loop']
                S = {strip(e[1]): strip(e[2]) for e in o.events if e[0] == 'set'}
                none = S14.known(o, node) is False or kn(o, init(F(node, 'out_arcs')), strip, S14.known) is False
                if not L and not none: c.bad('reset_net_pointer:skips', w, 'the arcs behind a node are passed over', condlist(o))
                if L:
                    if S.get(strip(F(node, 'net'))) != strip(net) and 0: pass
                    fl = S.get(strip(F(node, 'flag2')))
                    if fl != strip(init(F(init(F(net, 'start_node')), 'flag2'))): c.bad('reset_net_pointer:flag', w, 'a node put into the network does not get the marks of visits of the others', condlist(o))
            elif o.kind == 'back':
                k = S09.lkey(o); L = S09.lookup(o, k); ev = S09.since(o, k)
                cur = [(l, s) for l, (p, s) in L[3].items() if strip(p) == strip(init(F(node, 'out_arcs')))]
                if len(cur) != 1: c.bad('reset_net_pointer:walk', w, 'the walk does not begin at the first arc of the node', condlist(o)); continue
                l, p = cur[0]; a = init(F(p, 'arc'))
                if strip(o.st.env.get(l)) != strip(init(F(p, 'next'))): c.bad('reset_net_pointer:walk', w, 'the walk goes on at %s' % show(o.st.env.get(l)), condlist(o))
                if not any(e[0] == 'set' and strip(e[1]) == strip(F(a, 'net')) and e[2] == net for e in ev): c.bad('reset_net_pointer:arc', w, 'an arc is not told of its network', condlist(o))
                R = [e for e in ev if e[0] == 'call' and e[1] == 'again']
                if len(R) != 1 or strip(R[0][2][0]) != strip(init(F(a, 'to_node'))) or R[0][2][1] != net: c.bad('reset_net_pointer:deeper', w, 'the arcs behind an arc are passed over', condlist(o))
        if not backs: c.bad('reset_net_pointer:none', where(fn, fn.line), 'the arcs of a network are not told of their network')


def walkrules(c, prog, modes=(0, 0x110)):
    """Network_traverse: every node reached once, in-order: after all its predecessors; every arc once"""
    S02, S09, S14, path = helpers(); strip, known = S02.strip, S14.known
    fn = prog.get('Network_traverse')
    if fn is None: c.notes.append('Network_traverse is gone'); return
    c.fn(fn); name = fn.name
    P = [('v', 1, p['id'], p['n']) for p in fn.params]; V = [S02.param(fn, 1, i) for i in range(6)]
    def put(nm):
        def h(s, st, a, node, line, caller): s.event(st, ('call', nm, tuple(a), line, caller)); return C(1)
        return h
    def get(s, st, a, node, line, caller):
        s.event(st, ('call', 'get', tuple(a), line, caller))
        if a[1][0] != 'addr': raise absint.AnalysisError('the node is fetched to %s' % show(a[1]))
        s.write(st, a[1][1], ('sym', '!node', ()))
        return C(1)
    def again(s, st, a, node, line, caller): s.event(st, ('call', 'again', tuple(a), line, caller)); return C(0)
    def ind(s, st, a, node, line, caller):
        s.event(st, ('call', 'op', (node.get('fv') if isinstance(node, dict) else None,) + tuple(a), line, caller)); return C(0)
    node = ('sym', '!node', ())
    for mode in modes:
        T = {**BASE, 'LL_init': ignore, 'LL_empty': pure('empty'), 'LL_get_first': get, 'LL_put_front': put('push'), 'LL_put_tail': put('append'), 'Network_traverse': again}
        I, st = start(prog, fn, T, ind); st.env[P[5]] = C(mode); outs = I.run(st)
        key = lambda k: '%s:%s' % (name, k)
        inorder = bool(mode & 0x10)
        calls = S14.calls
        main = {S09.lkey(o) for o in outs if o.kind == 'back' and calls(S09.since(o, S09.lkey(o)), 'get')}
        if len(main) != 1: c.notes.append('%s: the loop over the nodes is not recognised' % name); return
        K, = main
        for o in outs:
            w = where(fn, o.line or (o.conds[-1][2] if o.conds else fn.line))
            if o.kind not in ('back', 'ret'): continue
            if known(o, V[0]) is False: continue
            c.ob('%s: a path (%s)' % (name, 'in order' if inorder else 'depth first'))
            pre = o.events[:next((j for j, e in enumerate(o.events) if e[0] == 'loop' and (e[1], e[2]) == K), len(o.events))]
            if S09.lookup(o, K) is None:
                if o.kind == 'ret': c.bad(key('never'), w, 'a network is not walked', condlist(o))
                continue
            ps = calls(pre, 'push', 'append'); ag = calls(pre, 'again')
            begin = init(F(V[0], 'start_node'))
            if len(ps) != 1 or strip(ps[0][2][1]) != strip(begin): c.bad(key('begin'), w, 'the walk does not begin at the first node', condlist(o))
            if inorder and not (len(ag) == 1 and ag[0][2][0] == V[0] and ag[0][2][1] == ('fn', 'set_node_flag1_to_inarc_count')): c.bad(key('counts'), w, 'the arcs into each node are not counted before a walk in order', condlist(o))
            if not inorder and ag: c.notes.append('%s: another walk before a plain one' % name)
            bit = next((e[2] for e in pre if e[0] == 'set' and e[1][0] == 'fld' and e[1][2] == 'flag2' and strip(e[1][1]) == strip(begin)), None)
            if bit is None or bit[:2] != ('op', '^'): c.bad(key('mark'), w, 'the first node is not marked as visited', condlist(o)); continue
            B = next((x for x in bit[2:4] if not (x[0] == 'init' and x[1][0] == 'fld' and x[1][2] == 'flag2')), None)
            if o.kind == 'ret': 
                ids = [l for l in o.st.env if l[0] == 'g' and l[1].startswith('Network_traverse::') and any(l in S14.locs(cc) for cc, *_ in o.conds)]
                for l in ids:
                    d = add(strip(o.st.env[l]), strip(init(l)), -1)
                    if d != C(0): c.bad(key('id'), w, 'after a walk %s is changed by %s: later walks run out of marks' % (l[1].split('::')[1], show(d)), condlist(o))
                if not any(known(o, t) is True for t in S02.all_terms(o) if t[:2] == ('call', 'empty')): c.bad(key('early'), w, 'the walk ends before all nodes are visited', condlist(o))
                continue
            k = S09.lkey(o); L = S09.lookup(o, k); ev = S09.since(o, k)
            if k == K:
                G = calls(ev, 'get'); ops = calls(ev, 'op')
                if len(G) != 1: c.bad(key('fetch'), w, 'nodes are dropped', condlist(o)); continue
                nop = [e for e in ops if e[2][1] == node]
                kn_ = known(o, V[1])
                if kn_ is True and (len(nop) != 1 or nop[0][2][0] != V[1] or nop[0][2][2] != V[2]): c.bad(key('node'), w, 'the operation for nodes is called %d times for a node' % len(nop), condlist(o))
                if kn_ is not False and kn_ is not True and nop: c.bad(key('nullop'), w, 'an operation that is not given is called', condlist(o))
                LL = [e for e in ev if e[0] == 'loop']
                succ = [e for e in LL if any(strip(p) == strip(init(F(node, 'out_arcs'))) for l, (p, s) in e[3].items())]
                pl = [e for e in succ if kinds(e, outs, S09, S14) == 'push']; al = [e for e in succ if kinds(e, outs, S09, S14) == 'op']
                if len(pl) != 1: c.bad(key('succ'), w, 'the nodes behind a node are looked at %d times' % len(pl), condlist(o))
                ka, oa = known(o, V[3]), kn(o, init(F(node, 'out_arcs')), strip, known)
                if ka is True and oa is not False and len(al) != 1: c.bad(key('arcs'), w, 'the arcs of a node are visited %d times' % len(al), condlist(o))
                if ka is None and al: c.bad(key('nullop'), w, 'an operation that is not given is called', condlist(o))
                if pl and al and ev.index(al[0]) < ev.index(pl[0]): c.bad(key('order'), w, 'arcs are visited (and may be removed) before the nodes behind them are noted', condlist(o))
                if pl and nop and ev.index(nop[0]) > ev.index(pl[0]): c.notes.append('%s: the node is visited after its successors are noted' % name)
                # the pass must have reached the end of the list
                for e in pl + al:
                    s = next(s for l, (p, s) in e[3].items() if strip(p) == strip(init(F(node, 'out_arcs'))))
                    if known(o, s) is not False: c.bad(key('cut'), w, 'not all arcs of a node are looked at', condlist(o))
                continue
            kd = kinds(('loop', k[0], k[1]), outs, S09, S14)
            if kd == 'op':
                cur = [(l, s) for l, (p, s) in L[3].items() if strip(p) == strip(init(F(node, 'out_arcs')))]
                A = calls(ev, 'op')
                if not cur: 
                    if mode & 0x200 == 0: c.bad(key('back'), w, 'arcs are visited although that was not asked for', condlist(o))
                    continue
                l, s = cur[0]
                if len(A) != 1 or A[0][2][0] != V[3] or strip(A[0][2][1]) != strip(init(F(s, 'arc'))) or A[0][2][2] != V[4]: c.bad(key('arc'), w, 'the operation for arcs is not called once for an arc', condlist(o))
                if strip(o.st.env.get(l)) != strip(init(F(s, 'next'))): c.bad(key('walk'), w, 'arcs are passed over', condlist(o))
                elif A and o.st.env.get(l) != init_before(o, s, A, ev): c.bad(key('after'), w, 'the next arc is read from an entry the operation may have freed', condlist(o))
            elif kd == 'push':
                cur = [(l, s) for l, (p, s) in L[3].items() if strip(p) == strip(init(F(node, 'out_arcs')))]
                if not cur: c.bad(key('succlist'), w, 'the nodes looked at are not those behind the node', condlist(o)); continue
                l, s = cur[0]; to = init(F(init(F(s, 'arc')), 'to_node'))
                if strip(o.st.env.get(l)) != strip(init(F(s, 'next'))): c.bad(key('walk'), w, 'arcs are passed over', condlist(o))
                dec = [e for e in ev if e[0] == 'set' and e[1][0] == 'fld' and e[1][2] == 'flag1']
                if not inorder and dec: c.notes.append('%s: counts are changed in a plain walk' % name)
                left = None
                if inorder:
                    ok = len(dec) == 1 and strip(dec[0][1][1]) == strip(to) and add(strip(dec[0][2]), strip(init(dec[0][1])), -1) == C(-1)
                    if not ok: c.bad(key('count'), w, 'the count of arcs into a node is not one less', condlist(o)); continue
                    left = path.holds(o, '>', dec[0][2], C(0))
                pu = calls(ev, 'push', 'append')
                A_, B_ = visited(o, begin, to, B, strip, known)
                flips = [e for e in ev if e[0] == 'set' and e[1][0] == 'fld' and e[1][2] == 'flag2']
                if A_ == 'no': continue
                if not pu:
                    if flips: c.bad(key('markonly'), w, 'a node is marked as visited and not visited', condlist(o))
                    if inorder and left is True: continue
                    if A_ is None or B_ is None or A_ == B_: c.bad(key('lost'), w, 'a node that was not visited is passed over', condlist(o))
                else:
                    if len(pu) != 1 or strip(pu[0][2][1]) != strip(to): c.bad(key('push'), w, 'the node noted is %s' % show(pu[0][2][1]), condlist(o)); continue
                    if inorder and left is not False: c.bad(key('before'), w, 'a node is visited before all nodes in front of it', condlist(o))
                    if A_ is None or B_ is None or A_ != B_:
                        if not (inorder and left is False): c.bad(key('again'), w, 'a node already visited is visited again', condlist(o))
                    if len(flips) != 1 or strip(flips[0][1][1]) != strip(to) or flips[0][2][:2] != ('op', '^') or not any(strip(x) == strip(B) for x in flips[0][2][2:4]): c.bad(key('mark'), w, 'a node is visited and not marked as visited', condlist(o))
    fn = prog.get('set_node_flag1_to_inarc_count')
    if fn is not None:
        c.fn(fn); I, st = start(prog, fn, BASE); nd = S02.param(fn, 1, 0); outs = I.run(st)
        for o in outs:
            w = where(fn, o.line or fn.line); c.ob('%s: a path' % fn.name)
            if o.kind == 'ret' and known(o, nd) is not False:
                S = [e for e in o.events if e[0] == 'set' and e[1] == F(nd, 'flag1')]
                L = [e for e in o.events if e[0] == 'loop']
                ok = len(S) == 1 and L and any(s == S[0][2] and p == C(0) for l, (p, s) in L[-1][3].items())
                if not ok: c.bad('%s:stored' % fn.name, w, 'the count stored is %s' % (show(S[-1][2]) if S else 'missing'), condlist(o))
            if o.kind == 'back':
                L = S09.lookup(o, S09.lkey(o))
                cur = [(l, s) for l, (p, s) in L[3].items() if strip(p) == strip(init(F(nd, 'in_arcs')))]
                cnt = [l for l, (p, s) in L[3].items() if p == C(0) and add(o.st.env.get(l), s, -1) == C(1)]
                if not cur or not cnt or strip(o.st.env.get(cur[0][0])) != strip(init(F(cur[0][1], 'next'))): c.bad('%s:count' % fn.name, w, 'not every arc into the node is counted once', condlist(o))


def init_before(o, s, A, ev):
    """the value of s->next as it was before the operation"""
    for l, v in o.st.env.items():
        if isinstance(v, tuple) and v[0] == 'init' and v[1] == F(s, 'next'):
            return v if v[2] == min([x[2] for x in o.st.env.values() if isinstance(x, tuple) and x[0] == 'init' and x[1] == F(s, 'next')]) else None
    return None


def kinds(e, outs, S09, S14):
    k = (e[1], e[2])
    for q in outs:
        if q.kind == 'back' and S09.lkey(q) == k:
            ev = S09.since(q, k)
            if S14.calls(ev, 'push', 'append') and not S14.calls(ev, 'get'): return 'push'
            if S14.calls(ev, 'op') and not S14.calls(ev, 'get'): return 'op'
    return None


def visited(o, begin, to, B, strip, known):
    """(mark of the first node at the start, mark of the node): truths; ('no', _) if they contradict each other"""
    A_ = B_ = None
    isA = lambda t: t[:2] == ('op', '&') and any(strip(x) == strip(init(F(begin, 'flag2'))) for x in t[2:4])
    isB = lambda t: t[:2] == ('op', '&') and any(strip(x) == strip(init(F(to, 'flag2'))) for x in t[2:4])
    eqs = []
    for cc, tv, *_ in o.conds:
        if cc[0] == 'cmp' and (isA(cc[2]) and isB(cc[3]) or isB(cc[2]) and isA(cc[3])) and cc[1] in ('==', '!='): eqs.append((cc[1] == '==') == tv)
        for is_, which in ((isA, 'A'), (isB, 'B')):
            v = None
            if cc[0] == 'cmp' and is_(cc[2]) and cc[3] == C(0): v = {'==': not tv, '!=': tv, '>': tv, '<=': not tv}.get(cc[1])
            elif is_(cc): v = bool(tv)
            if v is None: continue
            if which == 'A':
                if A_ is not None and A_ != v: return 'no', None
                A_ = v
            else:
                if B_ is not None and B_ != v: return 'no', None
                B_ = v
    if eqs and A_ is None and B_ is None: A_, B_ = True, eqs[-1]
    return A_, B_
