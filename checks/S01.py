"""S01: the edit costs of the word alignments (sclite, rover)."""
import itertools
from cubes import Cube, nz, same
from absint import C, show, add
import harness

W1, W2 = nz('w1'), nz('w2')
SYNC = '%sync%time'


def cubes(atoms):
    for vals in itertools.product((0, 1), repeat=len(atoms)):
        yield dict(zip(atoms, vals))


def seedargs(v):
    return (C(0) if v['n1'] else W1, C(0) if v['n2'] else W2)


def run(c, prog, fn, v, cmp_fn):
    p1, p2 = seedargs(v)

    def valof(t):
        for i, w in ((1, W1), (2, W2)):
            if isinstance(t, tuple) and t[0] == 'init' and t[1] == ('fld', w, 'value'):
                return i
        return 0

    def calls(st, name, args, node, line, caller):
        if name in ('TEXT_strcmp', 'strcmp') and len(args) == 2:
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                if valof(a) and b == C('@'):
                    return C(0) if v['at%d' % valof(a)] else nz('neq')
            if valof(args[0]) and valof(args[1]) and valof(args[0]) != valof(args[1]):
                return C(0) if v.get('same') else nz('neq')
        if name in ('TEXT_strstr', 'strstr') and valof(args[0]) and args[1] == C(SYNC):
            return nz('found') if v.get('sync%d' % valof(args[0])) else C(0)
        if name is None and node.get('fv') == cmp_fn:
            if len(args) == 2 and set(args) == {p1, p2} and not v['n1'] and not v['n2']:
                return C(0) if v['eq'] else nz('cmpne')
        return None
    I = Cube(prog, calls)
    st = I.start(fn, [p1, p2, cmp_fn])
    for i, w in ((1, W1), (2, W2)):
        st.env[('fld', w, 'opt_del')] = C(v['od%d' % i])
    outs = I.run(st)
    return I, outs


def F(w, f):
    return ('init', ('fld', w, f), 0)


def spec_common(v):
    if v['n1'] and v['n2']:
        return 'exit'
    if v['n2'] and v['at1'] or v['n1'] and v['at2']:
        return C(0.001)


def spec_word(v):
    s = spec_common(v)
    if s: return s
    if v['n1'] or v['n2']:
        return C(2.0) if (v['od2'] if v['n1'] else v['od1']) else C(3.0)
    if v['at1'] and v['at2']: return C(1.0)
    return C(0.0) if v['eq'] else C(4.0)


def spec_rover(v):
    s = spec_common(v)
    if s: return s
    if not v['n1'] and not v['n2'] and (v['sync1'] or v['sync2']):
        return C(-3.0) if v['same'] else C(20.0)
    if v['n1'] or v['n2']:
        if v['sync2'] if v['n1'] else v['sync1']: return C(0.00001)
        return C(2.0) if (v['od2'] if v['n1'] else v['od1']) else C(3.0)
    if v['at1'] and v['at2']: return C(1.0)
    if v['eq']: return C(0.0)
    return C(1.0) if v['at1'] or v['at2'] else C(4.0)


def fab(t):
    import absint
    return absint.mkabs(t)


def spec_time(v):
    s = spec_common(v)
    if s: return s
    if v['n1']: return F(W2, 'T_dur')
    if v['n2']: return F(W1, 'T_dur')
    t = add(fab(add(F(W1, 'T1'), F(W2, 'T1'), -1)), fab(add(F(W1, 'T2'), F(W2, 'T2'), -1)))
    return t if v['eq'] else add(t, C(0.001))


def spec_weight(v):
    s = spec_common(v)
    if s: return s
    if v['n1']: return F(W2, 'weight')
    if v['n2']: return F(W1, 'weight')
    return C(0.0) if v['eq'] else add(F(W1, 'weight'), F(W2, 'weight'))


BASE = ['n1', 'n2', 'at1', 'at2', 'od1', 'od2', 'eq']
TABLES = [('wwd_WORD', spec_word, BASE), ('wwd_WORD_rover', spec_rover, BASE + ['sync1', 'sync2', 'same']),
          ('wwd_time_WORD', spec_time, BASE), ('wwd_weight_WORD', spec_weight, BASE)]


def consistent(v):
    for i in ('1', '2'):
        if v['n' + i] and (v['at' + i] or v['od' + i] or v.get('sync' + i)):
            return False
        if v['at' + i] and v.get('sync' + i):
            return False
    if v['n1'] or v['n2']:
        return not v['eq'] and not v.get('same')
    if v.get('same') and (v['at1'] != v['at2'] or v.get('sync1') != v.get('sync2')):
        return False
    return True


def describe(v):
    return ' '.join(k for k, x in v.items() if x) or 'two different ordinary words'


def check(c):
    prog = c.prog('sclite')
    c.rule('edit-cost', 'for every valuation of the atoms (side absent, word is the null marker, optionally deletable, words equal, '
           'sync word) the cost function returns exactly the tabulated cost on every path and never dereferences an absent word')
    cmp_fn = ('sym', 'cmp', 0)
    for name, spec, atoms in TABLES:
        fn = c.fn(prog.get(name))
        for v in cubes(atoms):
            if not consistent(v):
                continue
            want = spec(v)
            I, outs = run(c, prog, fn, v, cmp_fn)
            c.ob('%s: %s -> %s' % (name, describe(v), want if want == 'exit' else show(want)))
            for f, line, lv in I.nullderef:
                c.bad('%s:null' % name, '%s:%s (%s)' % (f.rel(), line, f.qn), 'dereferences an absent word when: ' + describe(v))
            if not outs:
                c.bad('%s:none' % name, '%s:%d' % (fn.rel(), fn.line), 'no outcome when: ' + describe(v))
            for o in outs:
                got = 'exit' if o.kind == 'stop' else o.value
                ok = (want == 'exit' and o.kind == 'stop') or (want != 'exit' and o.kind == 'ret' and same(got, want))
                if not ok:
                    c.bad('%s:%s' % (name, describe(v)), '%s:%d (%s)' % (o.fn.rel(), o.line, name),
                          'returns %s, required %s, when: %s' % (got if isinstance(got, str) else (show(got) if isinstance(got, tuple) and got else repr(got)), want if want == 'exit' else show(want), describe(v)),
                          ['%s:%d %s is %s' % (f.rel(), l, show(cc), t) for cc, t, l, f in o.conds])
