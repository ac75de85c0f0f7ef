"""Small helpers shared by the checks."""
import itertools, re
import absint
from absint import Interp, C, show, showloc, add, cls2


class Rec(Interp):
    """Interp that records stores to memory as events and answers calls through a table."""
    def __init__(s, prog, table=None, indirect=None, **kw):
        Interp.__init__(s, prog, **kw)
        s.table = table or {}; s.indirect = indirect

    def on_call(s, st, name, args, node, line, caller):
        if name is None:
            if s.indirect:
                return s.indirect(s, st, args, node, line, caller)
            return ('call', show(node['fv']), tuple(args), 0)
        h = s.table.get(name)
        if h is None:
            return None
        return h(s, st, args, node, line, caller) if callable(h) else h

    def on_set(s, st, loc, val, line, fn):
        if loc[0] in ('fld', 'elem', 'g') or getattr(s, 'rec_locals', False):
            s.event(st, ('set', loc, val, line, fn))


def pure(name):
    """model a call as an uninterpreted function of its arguments"""
    def h(s, st, args, node, line, caller):
        return ('call', name, tuple(args), 0)
    return h


def ignore(s, st, args, node, line, caller):
    return C(0)


def bump_out(label, idx):
    """call that stores a fresh symbol through pointer arguments idx"""
    def h(s, st, args, node, line, caller):
        s.event(st, ('call', label, tuple(args), line, caller))
        for n, i in enumerate(idx):
            a = args[i]
            l = a[1] if a[0] == 'addr' else s.mkelem(a, C(0))
            s.write(st, l, ('sym', '%s.%d' % (label, n), tuple(x for j, x in enumerate(args) if j not in idx)))
        return C(0)
    return h


def where(fn, line):
    return '%s:%d (%s)' % (fn.rel(), line or fn.line, fn.qn)


def condlist(o):
    return ['%s:%d  %s  is %s' % (f.rel(), l, show(c), 'true' if t else 'false') for c, t, l, f in o.conds]


def loops(o):
    return [e for e in o.events if e[0] == 'loop']


def last_loop_of(o, header):
    r = None
    for e in o.events:
        if e[0] == 'loop' and e[2] == header:
            r = e
    return r


def after_loop(o, header):
    """events after the (last) entry to the loop"""
    r = []; on = False
    for e in o.events:
        if e[0] == 'loop' and e[2] == header:
            on = True; r = []
        elif on:
            r.append(e)
    return r


def tri(I, st, op, a, b):
    return I.compare(st, op, a, b)


def completions(atoms, ok=lambda v: True):
    """atoms: name -> True/False/None; yields the total valuations compatible with it"""
    names = list(atoms)
    for vals in itertools.product((False, True), repeat=len(names)):
        v = dict(zip(names, vals))
        if all(atoms[n] is None or bool(atoms[n]) == v[n] for n in names) and ok(v):
            yield v


def exits(o):
    """exit status term of a 'stop' outcome, or None"""
    for e in reversed(o.events):
        if e[0] == 'call' and e[1] in ('exit', '_exit'):
            return e[2][0]
        if e[0] == 'call' and e[1] in ('abort', '__assert_fail', 'throw'):
            return C(134)
    return None


def noreturn(prog):
    """names of functions from which control never returns"""
    import ir
    nr = set(ir.NORETURN)
    while True:
        new = set()
        for f in prog.all():
            if f.qn in nr:
                continue
            g = ir.cfg(f)
            seen = set(); st = [g.entry]; ret = False
            while st and not ret:
                b = st.pop()
                if b in seen: continue
                seen.add(b)
                blk = g.blocks[b]; dead = False
                for i in blk.ins:
                    if i[0] == 'call' and i[2] in nr:
                        dead = True; break
                if dead: continue
                if blk.term[0] == 'ret': ret = True
                st.extend(ir.succ(blk.term))
            if not ret:
                new.add(f.qn)
        if not new:
            return nr
        nr |= new


class LoopOnly(Rec):
    """explores iterations of one loop only: paths are cut when they leave it"""
    def enter_block(s, st, fn, g, b, fr):
        if fn is s.lfn and len(st.stack) == 1 and b not in g.loops[s.lh]:
            return absint.Outcome('left', b, st, fn.line, fn)
        return Rec.enter_block(s, st, fn, g, b, fr)


def run_loop(prog, f, g, h, table=None, indirect=None, seed=None, keep_all=False, cls=LoopOnly, **kw):
    """abstract iterations of one loop, started at its header with everything unknown"""
    I = cls(prog, table or {}, indirect, maxpaths=kw.pop('maxpaths', 5000), **kw)
    I.lfn = f; I.lh = h
    st = I.start(f)
    st.stack[-1][1] = h
    if seed:
        seed(I, st)
    res = []
    for o in I.run(st):
        if keep_all or (o.kind == 'back' and o.value == h and o.fn is f):
            o.conds_in = lambda hh, o=o: o.conds
            res.append((o, I))
    return res


def flat(t):
    """&p[i] and p+i are the same pointer"""
    if t[0] == 'addr' and t[1][0] == 'elem':
        return add(flat(t[1][1]), t[1][2])
    return t


def ctypes(prog, fn, loc):
    """declared types of a local variable, or of every field of that name"""
    import ir
    if loc[0] == 'v':
        fns = [fn] + [f for f in prog.all() if f is not fn]
        for f in fns:
            t = ir.cfg(f).vars.get(loc[2])
            if t and t[0] == loc[3]: return {t[1]}
        return set()
    if loc[0] == 'fld':
        return {r['types'][q['t']] for r in prog.recs.values() for q in r['fields'] if q['n'] == loc[2] and q['t'] >= 0}
    return set()


NARROW = re.compile(r'^(const |volatile |unsigned |signed )*(char|short|short int|bool|_Bool|TEXT)$')


def narrow(prog, fn, loc):
    """type of a counter too small for a count of words or utterances, or None"""
    for t in ctypes(prog, fn, loc):
        if NARROW.match(t): return t
    return None
