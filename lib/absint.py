"""Path-sensitive abstract interpretation over the IR (finite predicate/interval/affine-term domain).

Values are terms in normal form (constants, affine combinations, known-bits words, opaque symbols); branch
conditions that the current abstract state decides are pruned, the others split the state.  Loops are widened
at their header (everything the loop may modify becomes unknown), so each loop body is analysed once for an
arbitrary iteration.  No program input is ever chosen and no program code is run."""
import ir
from facts import AnalysisError

INF = float('inf')
PURE_STR = {'strcmp', 'strcasecmp', 'TEXT_strcmp', 'TEXT_strcasecmp', 'strncmp', 'strncasecmp', 'TEXT_strCcmp', 'TEXT_strCcasecmp', 'TEXT_strBcmp'}
PRINTF = {'printf', 'fprintf', 'fflush', 'puts', 'fputs', 'putc', 'fputc', 'putchar', 'perror', 'fwrite', 'vfprintf'}
PURE = {'strlen', 'atoi', 'atof', 'toupper', 'tolower', 'isspace', 'isdigit', 'isalpha', 'strchr', 'strrchr', 'strstr', 'fabs', 'sqrt',
        'TEXT_strlen', 'TEXT_atof', 'feof', 'TEXT_strchr', 'TEXT_strstr', 'TEXT_strdup', 'strdup', 'abs', 'floor', 'ceil', 'log', 'exp', 'pow', 'isprint', '__ctype_b_loc', 'malloc', 'calloc', 'free', 'getenv', 'time', 'ctime', 'stat'} | PRINTF


# ---------------------------------------------------------------- terms
def C(v):
    return ('c', v)


def isnum(t):
    return t[0] == 'c' and isinstance(t[1], (int, float))


def affparts(t):
    """(dict term->coef, const) or None"""
    if t[0] == 'c':
        return ({}, t[1]) if isinstance(t[1], (int, float)) else ({t: 1}, 0)
    if t[0] == 'aff':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mkaff(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return ('c', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('aff', tuple(sorted(d.items(), key=repr)), c)


def add(a, b, sb=1):
    da, ca = affparts(a); db, cb = affparts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sb * v
    return mkaff(d, ca + sb * cb)


def scale(a, k):
    d, c = affparts(a)
    return mkaff({t: v * k for t, v in d.items()}, c * k)


def mkabs(t):
    if isnum(t):
        return C(abs(t[1]))
    return ('call', 'fabs', (min(t, scale(t, -1), key=repr),), 0)


def bits_of(t):
    """(known mask, value) over 64 bits"""
    if t[0] == 'c' and isinstance(t[1], int):
        return (2**64 - 1, t[1] % 2**64)
    if t[0] == 'bits':
        return t[1], t[2]
    return 0, 0


def mkbits(m, v, uid):
    m %= 2**64; v = v % 2**64 & m
    if m == 2**64 - 1:
        return ('c', v if v < 2**63 else v - 2**64)
    return ('bits', m, v, uid)


def size(t, lim=400):
    n = 0; st = [t]
    while st:
        x = st.pop(); n += 1
        if n > lim:
            return n
        if isinstance(x, tuple):
            st.extend(y for y in x if isinstance(y, tuple))
    return n


class State:
    __slots__ = ('env', 'facts', 'events', 'stack', 'ep', 'conds', 'data', 'visits')

    def __init__(s):
        s.env = {}; s.facts = {}; s.events = (); s.stack = []; s.ep = {}; s.conds = (); s.data = {}; s.visits = {}

    def copy(s):
        n = State.__new__(State)
        n.env = dict(s.env); n.facts = dict(s.facts); n.events = s.events
        n.stack = [list(f) for f in s.stack]; n.ep = dict(s.ep); n.conds = s.conds; n.data = dict(s.data); n.visits = dict(s.visits)
        return n


class Outcome:
    def __init__(s, kind, value, st, line, fn):
        s.kind = kind; s.value = value; s.st = st; s.line = line; s.fn = fn
        s.events = list(_unroll(st.events)); s.conds = list(_unroll(st.conds))

    def __repr__(s):
        return '<%s %r @%s:%s>' % (s.kind, s.value, s.fn and s.fn.name, s.line)


def _last(l, n):
    while l and n:
        yield l[1]
        l = l[0]; n -= 1


def _unroll(l):
    r = []
    while l:
        r.append(l[1]); l = l[0]
    return reversed(r)


_modcache = {}


def modset(prog, fn, seen=None):
    """classes of locations fn may modify, transitively: ('fld',name) ('g',qn) 'mem' 'elem'"""
    key = id(fn)
    if key in _modcache:
        return _modcache[key]
    if seen is None:
        seen = set()
    if key in seen:
        return set()
    seen.add(key)
    res = set()
    g = ir.cfg(fn)
    for b in g.reach:
        for i in g.blocks[b].ins:
            res |= insmods(prog, fn, i, seen)
    if len(seen) == 1 or True:
        _modcache[key] = res
    return res


def insmods(prog, fn, i, seen=None):
    res = set()
    if i[0] == 'set':
        c = cls(i[1])
        if c:
            res.add(c)
    elif i[0] == 'call':
        if i[2]:
            d = prog.resolve(i[2], fn)
            if d is not None:
                res |= modset(prog, d, seen)
    return res


def cls(lv):
    if lv[0] == 'fld':
        return ('fld', lv[2])
    if lv[0] == 'g':
        return lv
    if lv[0] in ('deref', 'elem'):
        return 'elem'
    return None


class Interp:
    def __init__(s, prog, maxpaths=20000, depth=6, opaque=(), inline=None, unroll=0, loop='havoc', maxsteps=2000000, nomem=False):
        s.prog = prog; s.maxpaths = maxpaths; s.depth = depth; s.opaque = set(opaque); s.inline_pred = inline
        s.unroll = unroll; s.fresh_n = 0; s.nframe = 0; s.steps = 0; s.maxsteps = maxsteps
        s.visited = None; s.project = None; s.nomem = nomem; s.funcs_seen = set()
        s.globals_const = True

    # -------- hooks (override or assign)
    def on_call(s, st, fn, args, node, line, caller):
        """return a value to short-circuit the call, a list of (value, facts) alternatives, or None"""
        return None

    def on_set(s, st, loc, val, line, fn):
        pass

    def on_branch(s, st, cond, line, fn):
        return None

    def on_read(s, st, lv, line, fn):
        """called for every fld/elem dereference with the (evaluated) pointer term"""
        pass

    def fresh(s, label):
        s.fresh_n += 1
        return ('sym', label, s.fresh_n)

    # -------- locations
    def loc(s, st, lv, fr):
        k = lv[0]
        if k == 'v':
            key = ('v', fr, lv[1], lv[2])
            ref = st.env.get(('ref', fr, lv[1]))
            return ref if ref is not None else key
        if k == 't':
            return ('t', fr, lv[1])
        if k == 'g':
            return lv
        if k == 'fld':
            p = s.val(st, lv[1], fr)
            return s.mkfld(p, lv[2])
        if k == 'deref':
            p = s.val(st, lv[1], fr)
            return s.mkelem(p, C(0))
        if k == 'elem':
            return s.mkelem(s.val(st, lv[1], fr), s.val(st, lv[2], fr))
        # value used as an lvalue (e.g. temporary object)
        return ('obj', s.val(st, lv, fr))

    def mkfld(s, p, name):
        return ('fld', p, name)

    def mkelem(s, p, i):
        if p[0] == 'addr' and i == C(0):
            return p[1]
        if p[0] == 'aff' and p[2] != 0:
            base = mkaff(dict(p[1]), 0)
            return ('elem', base, add(i, C(p[2])))
        if p[0] == 'addr' and p[1][0] == 'elem':
            return ('elem', p[1][1], add(p[1][2], i))
        return ('elem', p, i)

    def read(s, st, loc):
        if loc in st.env:
            return st.env[loc]
        if loc[0] == 'obj':
            return loc[1]
        return s.initial(st, loc)

    def initial(s, st, loc):
        c = cls2(loc)
        return ('init', loc, st.ep.get(c, 0))

    def write(s, st, loc, v):
        if loc[0] in ('fld', 'elem'):
            # weak aliasing: other bases with the same field/element class may be the same object
            c = cls2(loc)
            for k in list(st.env):
                if k[0] == loc[0] and k != loc and cls2(k) == c and s.mayalias(st, k, loc):
                    del st.env[k]
            st.ep[c] = st.ep.get(c, 0) + (1 if s.bump(st, loc) else 0)
        st.env[loc] = v

    def bump(s, st, loc):
        return False

    def mayalias(s, st, a, b):
        if a[1] == b[1]:
            if a[0] == 'elem':
                d = add(a[2], b[2], -1)
                return not (d[0] == 'c' and d[1] != 0)
            return False
        pa, pb = a[1], b[1]
        if pa[0] == 'addr' and pb[0] == 'addr' and pa[1][0] in ('v', 'g') and pb[1][0] in ('v', 'g'):
            return False
        if s.distinct(pa, pb):
            return False
        return True

    def distinct(s, pa, pb):
        """two pointer terms known to denote different objects (parameters of the analysed entry point)"""
        if pa[0] == 'undef' and pb[0] == 'undef':
            return pa != pb          # two local arrays
        if pa[0] == 'undef' and pb[0] in ('init', 'addr') or pb[0] == 'undef' and pa[0] in ('init', 'addr'):
            return True              # a local array and something that existed before
        for x, y in ((pa, pb), (pb, pa)):
            if x[0] == 'sym' and str(x[1]).startswith('!new') and (y[0] in ('init', 'addr') or y[0] == 'sym' and str(y[1]).startswith('!new')): return x != y      # a new object
        return pa[0] == 'init' and pb[0] == 'init' and pa[1][0] == 'v' and pb[1][0] == 'v'

    # -------- expression evaluation
    def val(s, st, e, fr):
        k = e[0]
        if k == 'c' or k == 'fn':
            return e
        if k in ('v', 't', 'g', 'fld', 'deref', 'elem'):
            l = s.loc(st, e, fr)
            if k in ('fld', 'deref', 'elem'):
                s.on_read(st, l, s.curline, s.curfn)
            return s.read(st, l)
        if k == 'this':
            return s.read(st, ('v', fr, 'this', 'this'))
        if k == 'addr':
            l = s.loc(st, e[1], fr)
            if l[0] == 'elem' and l[2] == C(0):
                return l[1]
            if l[0] == 'obj':
                return ('addr', l)
            return ('addr', l)
        if k == 'cast':
            v = s.val(st, e[2], fr)
            if v[0] == 'c' and isinstance(v[1], float) and ('int' in e[1] or e[1] in ('long', 'short', 'char')):
                return C(int(v[1]))
            return v
        if k == 'op':
            if e[1] == '?:':
                c = s.val(st, e[2], fr); tv = s.truth(st, c)
                if tv is not None:
                    return s.val(st, e[3] if tv else e[4], fr)
                a = s.val(st, e[3], fr); b = s.val(st, e[4], fr)
                return a if a == b else ('ite', c, a, b)
            if len(e) == 3:
                a = s.val(st, e[2], fr)
                return s.unop(st, e[1], a)
            a = s.val(st, e[2], fr); b = s.val(st, e[3], fr)
            return s.binop(st, e[1], a, b)
        if k == 'init':
            return ('initlist',) + tuple(s.val(st, x, fr) for x in e[1])
        if k == 'unk':
            return s.fresh(e[1])
        return s.fresh('?' + str(k))

    def unop(s, st, op, a):
        if op == 'u-':
            if a[0] == 'c' and isinstance(a[1], (int, float)) or a[0] in ('aff', 'sym', 'init', 'call', 'op'):
                return scale(a, -1)
        if op == 'u~':
            m, v = bits_of(a)
            if m:
                return mkbits(m, ~v, ('~', a))
        return ('op', op, a)

    def binop(s, st, op, a, b):
        if op == '+':
            return add(a, b)
        if op == '-':
            return add(a, b, -1)
        if op == '*':
            if isnum(a):
                return scale(b, a[1])
            if isnum(b):
                return scale(a, b[1])
            x, y = sorted((a, b), key=repr)
            return ('op', '*', x, y)
        if op in ('/', 'i/'):
            if isnum(a) and isnum(b) and b[1] != 0:
                if op == 'i/':
                    q = abs(a[1]) // abs(b[1]); return C(q if (a[1] < 0) == (b[1] < 0) else -q)
                return C(a[1] / b[1])
            if a == C(0) and not isnum(b):
                return C(0)
            if b == C(1):
                return a
            return ('op', op, a, b)
        if op in ('&', '|', '^'):
            ma, va = bits_of(a); mb, vb = bits_of(b)
            if ma or mb:
                if op == '&':
                    m = (ma & mb) | (ma & ~va) | (mb & ~vb); v = va & vb
                elif op == '|':
                    m = (ma & mb) | (ma & va) | (mb & vb); v = va | vb
                else:
                    m = ma & mb; v = va ^ vb
                m %= 2**64
                if m == 2**64 - 1:
                    return mkbits(m, v, None)
                # keep known bits; the rest depends on (a,b)
                if m and not (isnum(a) or isnum(b)) or m and (a[0] == 'bits' or b[0] == 'bits'):
                    return mkbits(m, v, (op, a, b))
            x, y = sorted((a, b), key=repr)
            return ('op', op, x, y)
        if op in ('<<', '>>', '%'):
            if isnum(a) and isnum(b) and isinstance(a[1], int) and isinstance(b[1], int) and b[1] > 0:
                return C({'<<': a[1] << b[1], '>>': a[1] >> b[1]}[op]) if op != '%' else C(a[1] % b[1] if a[1] >= 0 else -((-a[1]) % b[1]))
            return ('op', op, a, b)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            r = s.compare(st, op, a, b)
            if r is not None:
                return C(1 if r else 0)
            return ('cmp', op, a, b)
        return ('op', op, a, b)

    # -------- comparisons
    def norm(s, d):
        """affine difference -> (key term, sign, const): d = sign*key + const"""
        parts, c = affparts(d)
        items = sorted(parts.items(), key=repr)
        k0 = items[0][1]
        scale_ = abs(k0)
        sg = 1 if k0 > 0 else -1
        if len(items) == 1:
            return items[0][0], sg * scale_, c
        key = ('aff', tuple((t, v * sg / scale_ if scale_ != 1 else v * sg) for t, v in items), 0)
        return key, sg * scale_, c

    def nonnull(s, t):
        return t[0] in ('addr', 'fn') or (t[0] == 'c' and isinstance(t[1], str)) or t[0] == 'obj' or (t[0] == 'sym' and str(t[1]).startswith('!')) or \
            (t[0] == 'init' and t[1][0] == 'g' and t[1][1] in s.garrays())

    def garrays(s):
        if not hasattr(s.prog, '_garr'):
            s.prog._garr = {(k if isinstance(k, str) else k[0]) for k, g in s.prog.globs.items() if '[' in (g['types'][g['t']] if g['t'] >= 0 else '')}
        return s.prog._garr

    def compare(s, st, op, a, b):
        if a == b:
            return op in ('==', '<=', '>=')
        if isnum(a) and isnum(b):
            x, y = a[1], b[1]
            return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if op in ('==', '!='):
            for p, q in ((a, b), (b, a)):
                if q == C(0) and s.nonnull(p):
                    return op == '!='
                if q[0] == 'c' and isinstance(q[1], int) and p[0] == 'bits':
                    if (q[1] ^ p[2]) & p[1] % 2**64:
                        return op == '!='
            if a[0] == 'addr' and b[0] == 'addr' and a[1][0] in ('v', 'g') and b[1][0] in ('v', 'g') and a != b:
                return op == '!='
            if a[0] == 'fn' and b[0] == 'fn':
                return (a == b) == (op == '==')
            if a[0] == 'c' and b[0] == 'c' and type(a[1]) != type(b[1]):
                return op == '!='
        if op in ('==', '!=') and (a[0] in ('cmp', 'not')) and isnum(b):
            tv = s.truth(st, a)
            if tv is not None:
                r = (1 if tv else 0) == b[1]
                return r == (op == '==')
        d = add(a, b, -1)
        if d[0] == 'c':
            return s.compare(st, op, d, C(0))
        key, k, c = s.norm(d)
        lo, ls, hi, hs, ne = st.facts.get(key, (-INF, False, INF, False, frozenset()))
        # k*key + c OP 0   <=>   key OP' -c/k
        bound = -c / k if (c % k if isinstance(c, int) and isinstance(k, int) else True) else -c // k
        o = op if k > 0 else {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
        if o == '==' or o == '!=':
            eq = None
            if bound < lo or bound > hi or (bound == lo and ls) or (bound == hi and hs) or bound in ne:
                eq = False
            elif lo == hi == bound:
                eq = True
            if eq is None:
                return None
            return eq == (o == '==')
        if o == '<':
            if hi < bound or (hi == bound and hs): return True
            if lo >= bound: return False
        elif o == '<=':
            if hi <= bound: return True
            if lo > bound or (lo == bound and ls): return False
        elif o == '>':
            if lo > bound or (lo == bound and ls): return True
            if hi <= bound: return False
        elif o == '>=':
            if lo >= bound: return True
            if hi < bound or (hi == bound and hs): return False
        return None

    def truth(s, st, v):
        if v[0] == 'c':
            return bool(v[1]) if not isinstance(v[1], str) else True
        if s.nonnull(v):
            return True
        if v[0] == 'cmp':
            return s.compare(st, v[1], v[2], v[3])
        if v[0] == 'bits' and v[2]:
            return True
        return s.compare(st, '!=', v, C(0))

    def assume(s, st, v, tv):
        """add the fact that v is true/false; False if contradictory"""
        if v[0] == 'cmp':
            op = v[1]
            if not tv:
                op = {'==': '!=', '!=': '==', '<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
            return s.assume_cmp(st, op, v[2], v[3])
        if v[0] == 'c':
            return bool(v[1]) == tv
        return s.assume_cmp(st, '!=' if tv else '==', v, C(0))

    def assume_cmp(s, st, op, a, b):
        r = s.compare(st, op, a, b)
        if r is not None:
            return r
        if a[0] in ('cmp',) and isnum(b) and op in ('==', '!='):
            if b[1] in (0, 1):
                want = (b[1] == 1) == (op == '==')
                return s.assume(st, a, want)
        d = add(a, b, -1)
        if d[0] == 'c':
            return True
        key, k, c = s.norm(d)
        lo, ls, hi, hs, ne = st.facts.get(key, (-INF, False, INF, False, frozenset()))
        bound = -c / k if (c % k if isinstance(c, int) and isinstance(k, int) else True) else -c // k
        o = op if k > 0 else {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
        if o == '==':
            lo = hi = bound; ls = hs = False
        elif o == '!=':
            ne = ne | {bound}
            if lo == bound and not ls: ls = True
            if hi == bound and not hs: hs = True
        elif o == '<':
            if bound <= hi: hi, hs = bound, True
        elif o == '<=':
            if bound < hi: hi, hs = bound, False
            if hi == bound and hi in ne: hs = True
        elif o == '>':
            if bound >= lo: lo, ls = bound, True
        elif o == '>=':
            if bound > lo: lo, ls = bound, False
            if lo == bound and lo in ne: ls = True
        st.facts[key] = (lo, ls, hi, hs, ne)
        return not (lo > hi or (lo == hi and (ls or hs)))

    # -------- running
    def event(s, st, ev):
        st.events = (st.events, ev)

    def start(s, fn, args=None, this=None):
        st = State()
        s.push(st, fn, args if args is not None else [None] * len(fn.params), None, this)
        return st

    def push(s, st, fn, args, dest, this=None):
        g = ir.cfg(fn)
        s.nframe += 1
        fr = s.nframe
        for p, a in zip(fn.params, args):
            if a is not None:
                t = fn.type(p['t'])
                if t.endswith('&') and a[0] == 'addrref':
                    st.env[('ref', fr, p['id'])] = a[1]
                else:
                    st.env[('v', fr, p['id'], p['n'])] = a
        if this is not None:
            st.env[('v', fr, 'this', 'this')] = this
        st.stack.append([fn, g.entry, 0, dest, fr])
        s.funcs_seen.add((fn.qn, fn.rel()))
        return fr

    def run(s, fn_or_state, args=None, this=None):
        st0 = fn_or_state if isinstance(fn_or_state, State) else s.start(fn_or_state, args, this)
        work = [st0]; out = []
        while work:
            st = work.pop()
            r = s.step_path(st, work)
            if r is not None:
                out.append(r)
                if len(out) > s.maxpaths:
                    raise AnalysisError('too many abstract paths')
        return out

    def step_path(s, st, work):
        while True:
            fn, b, i, dest, fr = st.stack[-1]
            g = ir.cfg(fn)
            blk = g.blocks[b]
            s.curfn = fn
            if i == 0:
                r = s.enter_block(st, fn, g, b, fr)
                if r is not None:
                    return r
            n = len(blk.ins)
            redo = False
            while i < n:
                s.steps += 1
                if s.steps > s.maxsteps:
                    raise AnalysisError('abstract interpretation budget exceeded in ' + fn.qn)
                ins = blk.ins[i]; i += 1
                if ins[0] == 'set':
                    s.curline = ins[3] or getattr(s, 'curline', fn.line)
                    v = s.val(st, ins[2], fr)
                    l = s.loc(st, ins[1], fr)
                    if l[0] in ('fld', 'elem'):
                        s.on_read(st, l, s.curline, fn)
                    if size(v) > 300:
                        v = s.fresh('big')
                    s.on_set(st, l, v, s.curline, fn)
                    s.write(st, l, v)
                elif ins[0] == 'decl':
                    l = s.loc(st, ins[1], fr)
                    st.env[l] = ('undef', l) if not ins[2].startswith('std::') and not ins[2].startswith('class') else ('init', l, 0)
                elif ins[0] == 'call':
                    st.stack[-1][2] = i
                    s.curline = ins[5]
                    r = s.do_call(st, fn, ins, fr, work)
                    if r == 'pushed':
                        redo = True; break
                    if r == 'dead':
                        return None
            if redo:
                continue
            t = blk.term
            if t[0] == 'jmp':
                s.move(st, t[1])
            elif t[0] == 'br':
                s.curline = t[4]
                v = s.val(st, t[1], fr)
                tv = s.on_branch(st, v, t[4], fn)
                if tv is None:
                    tv = s.truth(st, v)
                if tv is None:
                    o = st.copy()
                    ok2 = s.assume(o, v, False)
                    o.conds = (o.conds, (v, False, t[4], fn))
                    s.move(o, t[3])
                    ok1 = s.assume(st, v, True)
                    st.conds = (st.conds, (v, True, t[4], fn))
                    s.move(st, t[2])
                    if ok1 and ok2:
                        work.append(o)
                    elif ok2:
                        st = o
                    elif not ok1:
                        return None
                else:
                    s.move(st, t[2] if tv else t[3])
            elif t[0] == 'sw':
                v = s.val(st, t[1], fr)
                if v[0] == 'c':
                    tgt = t[3]
                    for cv, cb in t[2]:
                        if cv == v[1]:
                            tgt = cb; break
                    s.move(st, tgt)
                else:
                    o = st.copy(); ok = True
                    for cv, cb in t[2]:
                        if cv is None:
                            continue
                        n_ = st.copy()
                        if s.assume_cmp(n_, '==', v, C(cv)):
                            n_.conds = (n_.conds, (('cmp', '==', v, C(cv)), True, t[4], fn))
                            s.move(n_, cb); work.append(n_)
                        ok = ok and s.assume_cmp(o, '!=', v, C(cv))
                    if not ok:
                        return None
                    s.move(o, t[3])
                    st = o
            elif t[0] == 'ret':
                s.curline = t[2]
                v = s.val(st, t[1], fr) if t[1] is not None else None
                st.stack.pop()
                if not st.stack:
                    return Outcome('ret', v, st, t[2], fn)
                s.on_return(st, fn, v)
                dl = s.loc(st, dest, st.stack[-1][4])
                s.write(st, dl, v if v is not None else ('unkret',))
                # drop the callee's locals
            elif t[0] == 'stop':
                return Outcome('stop', None, st, t[1], fn)

    def on_return(s, st, fn, v):
        pass

    def move(s, st, b):
        st.stack[-1][1] = b; st.stack[-1][2] = 0

    def enter_block(s, st, fn, g, b, fr):
        if s.project is not None:
            key = (tuple((f[0].qn, f[1]) for f in st.stack), s.project(st))
            if key in s.visited:
                return Outcome('seen', None, st, 0, fn)
            s.visited.add(key)
        if b in g.loops:
            k = (fr, b)
            n = st.visits.get(k, 0)
            st.visits[k] = n + 1
            if n > s.unroll:
                return Outcome('back', b, st, 0, fn)
            if n == s.unroll:
                pre = s.havoc_loop(st, fn, g, b, fr)
                s.event(st, ('loop', fn.qn, b, pre, fr, st.conds, dict(st.ep)))
        return None

    def havoc_loop(s, st, fn, g, h, fr):
        cl = set(); pre = {}; ptrs = []
        for b in g.loops[h]:
            for i in g.blocks[b].ins:
                if i[0] in ('set', 'call', 'decl'):
                    d = i[1]
                    if i[0] == 'set' and d[0] in ('v', 't'):
                        if d[0] == 'v':
                            l = s.loc(st, d, fr)
                            if l not in pre:
                                pre[l] = (s.read(st, l), s.fresh(d[2]))
                                st.env[l] = pre[l][1]
                    elif i[0] == 'set':
                        # store through a pointer to a known local
                        try: l = s.loc(st, d, fr)
                        except Exception: l = None
                        if l is not None and l[0] == 'v' and l not in pre:
                            pre[l] = (s.read(st, l), s.fresh(l[3]))
                            ptrs.append(l)
                        elif l is not None and l[0] in ('fld', 'g'): cl.add(cls2(l))
                    if i[0] == 'call':
                        for a in i[4]:
                            # address-taken locals passed to calls in the loop
                            if a[0] == 'addr' and a[1][0] == 'v' and not s.keeps(i[2]):
                                l = s.loc(st, a[1], fr)
                                if l not in pre: pre[l] = (s.read(st, l), s.fresh(a[1][2]))
                                st.env[l] = pre[l][1]
                            elif a[0] == 'v' and not s.keeps(i[2]):
                                # a pointer to a known local handed on
                                v = s.read(st, s.loc(st, a, fr))
                                if v[0] == 'addr' and v[1][0] == 'v' and v[1] not in pre:
                                    pre[v[1]] = (s.read(st, v[1]), s.fresh(v[1][3])); ptrs.append(v[1])
                        if i[2] and i[2] in s.opaque:
                            continue
                    cl |= insmods(s.prog, fn, i)
        for l in ptrs: st.env[l] = pre[l][1]
        if cl:
            for k in list(st.env):
                c = cls2(k)
                if c in cl:
                    del st.env[k]
            for c in cl:
                st.ep[c] = st.ep.get(c, 0) + 1
        return pre

    def keeps(s, fn):
        return fn in PURE or fn in PURE_STR

    def do_call(s, st, fn, ins, fr, work):
        _, dest, name, fexpr, args, line, node = ins
        vals = [s.val(st, a, fr) for a in args]
        if name is None and fexpr is not None:
            fv = s.val(st, fexpr, fr)
            if fv[0] == 'fn':
                name = fv[1]
            else:
                name = None
                node = dict(node); node['fv'] = fv
        r = s.on_call(st, name, vals, node, line, fn)
        if r == 'dead':
            return 'dead'
        dl = s.loc(st, dest, fr)
        if isinstance(r, list):
            # alternatives: (value, [(cond,truth)...])
            alts = []
            for v, conds in r:
                n = st.copy(); ok = True
                for c, tv in conds:
                    ok = ok and s.assume(n, c, tv)
                if ok:
                    s.write(n, dl, v); alts.append(n)
            if not alts:
                return 'dead'
            for n in alts[1:]:
                work.append(n)
            a = alts[0]
            for f in State.__slots__:
                setattr(st, f, getattr(a, f))
            return None
        if r is not None:
            s.write(st, dl, r)
            return None
        if name in PURE_STR and len(vals) >= 2:
            s.write(st, dl, s.strcmp(st, name, vals))
            return None
        d = s.prog.resolve(name, fn) if name else None
        if d is None and name and '::' in name:
            d = s.resolve_method(name, len(vals), node, fn)
        if d is not None and name not in s.opaque and len(st.stack) <= s.depth and not any(f[0] is d for f in st.stack) and (s.inline_pred is None or s.inline_pred(d)):
            this = None; a = vals
            if d.cls and node.get('k') == 'mcall':
                this = vals[0]; a = vals[1:]
            st.data['line:%d' % len(st.stack)] = line
            s.push(st, d, a, dest, this)
            return 'pushed'
        s.event(st, ('call', name, tuple(vals), line, fn))
        if name == 'exit':
            pass
        s.havoc_args(st, name, vals, d)
        s.write(st, dl, s.opaque_result(st, name, vals, node))
        return None

    def resolve_method(s, name, n, node, fn):
        return None

    def opaque_result(s, st, name, vals, node):
        if name in ('fabs', 'abs', 'fabsf') and len(vals) == 1:
            return mkabs(vals[0])
        if name in PURE or (node.get('k') == 'mcall' and node.get('const')):
            return ('call', name, tuple(vals), st.ep.get('elem', 0))
        return s.fresh(name or 'indirect')

    def havoc_args(s, st, name, vals, d):
        if name in PURE or name in PURE_STR:
            return
        for v in vals:
            if v[0] == 'addr':
                l = v[1]
                if l in st.env or l[0] in ('v', 'g', 'fld', 'elem'):
                    st.env[l] = s.fresh('out:' + str(name))
                for k in list(st.env):
                    if k[0] in ('fld', 'elem') and k[1] == v:
                        del st.env[k]
        cl = None
        if d is not None:
            cl = modset(s.prog, d)
            for k in list(st.env):
                if cls2(k) in cl:
                    del st.env[k]
            for c in cl:
                st.ep[c] = st.ep.get(c, 0) + 1
        elif name is None:
            for k in list(st.env):
                if k[0] in ('g', 'fld', 'elem'):
                    del st.env[k]

    def strcmp(s, st, name, vals):
        a, b = vals[0], vals[1]
        nocase = 'case' in name
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], str) and isinstance(b[1], str) and len(vals) == 2:
            x, y = (a[1].lower(), b[1].lower()) if nocase else (a[1], b[1])
            return C((x > y) - (x < y))
        lit, oth = (a, b) if a[0] == 'c' else (b, a)
        if lit[0] == 'c' and isinstance(lit[1], str) and len(vals) == 2:
            for k, f in st.facts.items():
                if k[0] == 'strcmp' and k[2] == oth and len(k) == 4 and f[0] == f[2] == 0:
                    x, y = (k[3][1].lower(), lit[1].lower()) if nocase else (k[3][1], lit[1])
                    if k[1] and not nocase and x != y and k[3][1].lower() == lit[1].lower():
                        continue
                    return C(0) if x == y else C(1)
            return ('strcmp', nocase, oth, lit)
        return ('strcmp', nocase) + tuple(sorted(vals[:2], key=repr)) + tuple(vals[2:])


def cls2(loc):
    if loc[0] == 'fld':
        return ('fld', loc[2])
    if loc[0] == 'elem':
        return 'elem'
    if loc[0] == 'g':
        return loc
    return None


def show(t):
    """short human-readable form of a term"""
    k = t[0]
    if k == 'c':
        return repr(t[1])
    if k == 'init':
        return showloc(t[1])
    if k == 'aff':
        return '+'.join(('%s*' % c if c != 1 else '') + show(x) for x, c in t[1]) + ('%+g' % t[2] if t[2] else '')
    if k == 'cmp':
        return '%s %s %s' % (show(t[2]), t[1], show(t[3]))
    if k == 'strcmp':
        return 'strcmp(%s,%s)' % (show(t[2]), show(t[3]))
    if k == 'op':
        return '(%s)' % (' %s ' % t[1]).join(show(x) for x in t[2:]) if len(t) > 3 else t[1] + show(t[2])
    if k == 'addr':
        return '&' + showloc(t[1])
    if k == 'sym':
        return str(t[1])
    if k == 'call':
        return '%s(%s)' % (t[1], ','.join(show(x) for x in t[2]))
    if k == 'fn':
        return t[1]
    return str(t)[:60]


def showloc(l):
    k = l[0]
    if k == 'v':
        return l[3]
    if k == 'g':
        return l[1]
    if k == 'fld':
        return '%s->%s' % (show(l[1]), l[2])
    if k == 'elem':
        return '%s[%s]' % (show(l[1]), show(l[2]))
    if k == 't':
        return 't%s' % l[2]
    return str(l)[:60]
