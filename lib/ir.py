"""Lowering of the extractor's syntax trees to a control-flow graph with side-effect-free expressions.

Expressions (tuples):
  ('c',v)                     constant (int, float, str) ; ('fn',qn) function designator
  ('v',id,name)               local/parameter   ('g',qn) global   ('t',n) temporary   ('this',)
  ('fld',ptr,name)            field of the object ptr points to   ('deref',ptr)   ('elem',ptr,index)
  ('addr',lvalue)
  ('op',name,a[,b])           arithmetic/comparison      ('cast',type,e)     ('unk',label)
Instructions: ('set',lv,expr,line)  ('call',dest,fn,fexpr,args,line,node)  ('decl',var,type,line)
Terminators:  ('jmp',b) ('br',expr,bt,bf,line) ('sw',expr,[(v,b)],default,line) ('ret',expr,line) ('stop',line)
"""
import facts, re


class Block:
    __slots__ = ('id', 'ins', 'term', 'loop')

    def __init__(s, i):
        s.id = i; s.ins = []; s.term = None; s.loop = None


class CFG:
    def __init__(s, fn):
        s.fn = fn; s.blocks = []; s.entry = None; s.vars = {}   # id -> (name,type)
        s.loops = {}     # header block id -> set(block ids)
        s.loopinfo = {}


ITE = False       # set by checks that want side-effect-free ?: kept as a value instead of a branch
INTEGRAL = re.compile(r'^(const |volatile )*((unsigned|signed)( (char|short|int|long|long long|short int|long int))?|char|short|int|long|long long|short int|long int|bool|_Bool|size_t|enum .*)$')
NORETURN = {'exit', '_exit', 'abort', '__assert_fail'}


class Lower:
    def __init__(s, fn):
        s.fn = fn; s.g = CFG(fn); s.nt = 0; s.labels = {}; s.brk = []; s.cont = []
        s.cur = s.new(); s.g.entry = s.cur.id
        for p in fn.params:
            s.g.vars[p['id']] = (p['n'], fn.type(p['t']))
        for i in fn.inits:
            if 'n' in i:
                e = i.get('e')
                v = s.E(e) if e else ('c', 0)
                s.emit(('set', ('fld', ('this',), i['n']), v, fn.line))
        s.S(fn.body)
        if s.cur is not None:
            s.cur.term = ('ret', None, fn.endline)
        for b in s.g.blocks:
            if b.term is None:
                b.term = ('stop', fn.endline)
        s.prune()

    def new(s):
        b = Block(len(s.g.blocks)); s.g.blocks.append(b); return b

    def emit(s, i):
        if s.cur is None:
            s.cur = s.new()       # unreachable code
        s.cur.ins.append(i)

    def tmp(s):
        s.nt += 1
        return ('t', s.nt)

    def end(s, term):
        if s.cur is not None and s.cur.term is None:
            s.cur.term = term
        s.cur = None

    def goto(s, b):
        s.end(('jmp', b.id))

    def ty(s, e):
        return s.fn.type(e.get('t', -1))

    # ---- expressions
    def L(s, e):
        """lvalue"""
        k = e['k']
        if k == 'ref':
            dk = e.get('dk')
            if dk in ('var', 'parm'):
                return ('v', e['id'], e['n'])
            if dk == 'enum':
                return ('c', e['v'])
            if dk == 'func':
                return ('fn', e['qn'])
            if dk == 'slocal':
                return ('g', s.fn.qn + '::' + e['n'])
            if dk == 'sglobal':
                return ('g', e['n'])
            return ('g', e.get('qn', e['n']))
        if k == 'mem':
            if e.get('ar'):
                return ('fld', s.E(e['b']), e['n'])
            return ('fld', s.addr(s.L(e['b'])), e['n'])
        if k == 'idx':
            b = s.E(e['b']); i = s.E(e['i'])
            return ('elem', b, i)
        if k == 'un' and e['op'] == '*':
            return s.deref(s.E(e['e']))
        if k == 'cast':
            return s.L(e['e'])
        if k == 'asg' or (k == 'un' and e['op'] in ('++', '--')):
            s.E(e)
            return s.L(e['a'] if k == 'asg' else e['e'])
        if k == 'bin' and e['op'] == ',':
            s.E(e['a']); return s.L(e['b'])
        if k == 'cond':
            return s.E(e)
        return s.E(e)

    def addr(s, lv):
        if lv[0] == 'deref':
            return lv[1]
        return ('addr', lv)

    def deref(s, p):
        if p[0] == 'addr':
            return p[1]
        return ('deref', p)

    def B(s, e, bt, bf):
        """branch on e"""
        if e is None:
            s.goto(bt); return
        k = e['k']
        if k == 'bin' and e['op'] == '&&':
            m = s.new(); s.B(e['a'], m, bf); s.cur = m; s.B(e['b'], bt, bf); return
        if k == 'bin' and e['op'] == '||':
            m = s.new(); s.B(e['a'], bt, m); s.cur = m; s.B(e['b'], bt, bf); return
        if k == 'un' and e['op'] == '!':
            s.B(e['e'], bf, bt); return
        if k == 'cast' and 'cv' not in e and e.get('ck') in ('IntegralCast', 'IntegralToBoolean', 'PointerToBoolean'):
            s.B(e['e'], bt, bf); return
        v = s.E(e)
        s.end(('br', v, bt.id, bf.id, e['l']))

    def E(s, e):
        if e is None:
            return ('unk', 'none')
        k = e['k']
        if 'cv' in e and k in ('un', 'bin', 'cond', 'cast', 'sizeof', 'other') and k != 'call':
            return ('c', e['cv'])
        if k in ('int', 'flt', 'str'):
            return ('c', e['v'])
        if k in ('ref', 'mem', 'idx'):
            return s.L(e)
        if k == 'this':
            return ('this',)
        if k == 'un':
            op = e['op']
            if op == '*':
                return s.L(e)
            if op == '&':
                lv = s.L(e['e'])
                return lv if lv[0] == 'fn' else s.addr(lv)
            if op in ('++', '--'):
                lv = s.L(e['e'])
                s.emit(('set', lv, ('op', op[0], lv, ('c', 1)), e['l']))
                return lv
            if op in ('p++', 'p--'):
                lv = s.L(e['e'])
                t = s.tmp(); s.emit(('set', t, lv, e['l']))
                s.emit(('set', lv, ('op', op[1], t, ('c', 1)), e['l']))
                return t
            if op == '!':
                return s.boolval(e)
            if op == '+':
                return s.E(e['e'])
            return ('op', 'u' + op, s.E(e['e']))
        if k == 'asg':
            op = e['op']
            # right before left is fine for the analysed code; evaluate rhs first so that lvalue reads are current
            if op == '=':
                r = s.E(e['b']); lv = s.L(e['a'])
                s.emit(('set', lv, r, e['l']))
                return lv
            r = s.E(e['b']); lv = s.L(e['a'])
            s.emit(('set', lv, ('op', 'i/' if op == '/=' and s.integral(e['a']) and s.integral(e['b']) else op[:-1], lv, r), e['l']))
            return lv
        if k == 'bin':
            op = e['op']
            if op == ',':
                s.E(e['a']); return s.E(e['b'])
            if op in ('&&', '||'):
                return s.boolval(e)
            a = s.E(e['a']); a = s.pin(a, e['b']); b = s.E(e['b'])
            if op == '/' and s.integral(e): op = 'i/'
            return ('op', op, a, b)
        if k == 'cond' and ITE and not s.hasfx(e) and not s.hasbool(e['c']):
            c = s.E(e['c'])
            return ('op', '?:', c, s.E(e['a']), s.E(e['b']))
        if k == 'cond':
            t = s.tmp(); bt = s.new(); bf = s.new(); j = s.new()
            s.B(e['c'], bt, bf)
            s.cur = bt; s.emit(('set', t, s.E(e['a']), e['l'])); s.goto(j)
            s.cur = bf; s.emit(('set', t, s.E(e['b']), e['l'])); s.goto(j)
            s.cur = j
            return t
        if k == 'cast':
            v = s.E(e['e'])
            if e.get('ck') in ('IntegralToFloating', 'FloatingToIntegral', 'IntegralCast'):
                return ('cast', s.ty(e), v)
            return v
        if k == 'sizeof':
            return ('unk', 'sizeof')
        if k in ('call', 'mcall', 'op', 'ctor'):
            fexpr = None; fn = e.get('fn')
            args = []
            if k == 'mcall':
                o = e['obj']
                args.append(s.E(o) if e.get('ar') else s.addr(s.L(o)))
            if fn is None and k == 'call':
                fexpr = s.E(e['f'])
                if fexpr[0] == 'deref':
                    fexpr = fexpr[1]
                if fexpr[0] == 'fn':
                    fn = fexpr[1]; fexpr = None
            al = e['args']
            for n, a in enumerate(al):
                v = s.E(a)
                for rest in al[n + 1:]:
                    v = s.pin(v, rest)
                args.append(v)
            d = s.tmp()
            s.emit(('call', d, fn, fexpr, args, e['l'], e))
            if e.get('nr') or fn in NORETURN:
                s.end(('stop', e['l']))
                s.cur = s.new()
            return d
        if k == 'new':
            d = s.tmp(); args = []
            if e.get('n'):
                args.append(s.E(e['n']))
            if e.get('e') and e['e'].get('k') == 'ctor':
                args += [s.E(a) for a in e['e']['args']]
            s.emit(('call', d, 'operator new:' + s.fn.type(e['ty']), None, args, e['l'], e))
            return d
        if k == 'del':
            v = s.E(e['e']); d = s.tmp()
            s.emit(('call', d, 'operator delete', None, [v], e['l'], e))
            return d
        if k == 'throw':
            if e.get('e'):
                s.E(e['e'])
            s.emit(('call', s.tmp(), 'throw', None, [], e['l'], e))
            s.end(('stop', e['l'])); s.cur = s.new()
            return ('unk', 'throw')
        if k == 'init':
            return ('init', tuple(s.E(x) for x in e['els']))
        if k == 'stmtexpr':
            s.S(e['body']); return ('unk', 'stmtexpr')
        if k == 'lambda':
            return ('unk', 'lambda')
        if k == 'other':
            for x in e.get('kids', []):
                s.E(x)
            return ('unk', e.get('cls'))
        return ('unk', k)

    def integral(s, e):
        return INTEGRAL.match(s.ty(e)) is not None

    def hasfx(s, e):
        if isinstance(e, dict):
            if e.get('k') in ('asg', 'call', 'mcall', 'op', 'new') or (e.get('k') == 'un' and '++' in e.get('op', '') or e.get('k') == 'un' and '--' in e.get('op', '')):
                return True
            return any(s.hasfx(v) for v in e.values() if isinstance(v, (dict, list)))
        if isinstance(e, list):
            return any(s.hasfx(v) for v in e)
        return False

    def hasbool(s, e):
        if isinstance(e, dict):
            return e.get('k') == 'bin' and e.get('op') in ('&&', '||') or e.get('k') == 'stmtexpr' or any(s.hasbool(v) for v in e.values() if isinstance(v, (dict, list)))
        return isinstance(e, list) and any(s.hasbool(v) for v in e)

    def pin(s, v, later):
        """fix the value of v before evaluating `later` if that has side effects"""
        if v[0] in ('c', 't', 'fn', 'addr', 'unk') or not s.hasfx(later):
            return v
        t = s.tmp(); s.emit(('set', t, v, 0))
        return t

    def boolval(s, e):
        t = s.tmp(); bt = s.new(); bf = s.new(); j = s.new()
        s.B(e, bt, bf)
        s.cur = bt; s.emit(('set', t, ('c', 1), e['l'])); s.goto(j)
        s.cur = bf; s.emit(('set', t, ('c', 0), e['l'])); s.goto(j)
        s.cur = j
        return t

    # ---- statements
    def S(s, n):
        if n is None:
            return
        k = n['s']
        if s.cur is None:
            s.cur = s.new()
        if k == 'expr':
            s.E(n['e'])
        elif k == 'block':
            for x in n['b']:
                s.S(x)
        elif k == 'decl':
            for d in n['d']:
                s.g.vars[d['id']] = (d['n'], s.fn.type(d['t']))
                v = ('v', d['id'], d['n'])
                if d.get('static'):
                    continue
                s.emit(('decl', v, s.fn.type(d['t']), d['l']))
                if d.get('init'):
                    i = d['init']
                    if i['k'] == 'init':
                        s.initlist(v, i, d['l'])
                    elif i['k'] == 'ctor' and not i['args']:
                        s.emit(('call', v, i['fn'], None, [], d['l'], i))
                    else:
                        r = s.E(i)
                        if s.fn.type(d['t']).endswith('&'):
                            r = s.E(i)
                        s.emit(('set', v, r, d['l']))
        elif k == 'if':
            if n.get('init'):
                s.S(n['init'])
            if n.get('cv'):
                s.S({'s': 'decl', 'd': [n['cv']], 'l': n['l']})
            bt = s.new(); j = s.new(); bf = s.new() if n.get('b') else j
            s.B(n['c'], bt, bf)
            s.cur = bt; s.S(n['a'])
            if s.cur is not None:
                s.goto(j)
            if n.get('b'):
                s.cur = bf; s.S(n['b'])
                if s.cur is not None:
                    s.goto(j)
            s.cur = j
        elif k == 'while':
            h = s.new(); b = s.new(); x = s.new()
            s.goto(h); s.cur = h; s.B(n['c'], b, x)
            s.brk.append(x); s.cont.append(h)
            s.cur = b; s.S(n['b'])
            if s.cur is not None:
                s.goto(h)
            s.brk.pop(); s.cont.pop(); s.cur = x
        elif k == 'do':
            b = s.new(); c = s.new(); x = s.new()
            s.goto(b); s.brk.append(x); s.cont.append(c)
            s.cur = b; s.S(n['b'])
            if s.cur is not None:
                s.goto(c)
            s.cur = c
            if n['c'].get('k') == 'int' and not n['c']['v']:
                s.goto(x)
            else:
                s.B(n['c'], b, x)
            s.brk.pop(); s.cont.pop(); s.cur = x
        elif k == 'for':
            if n.get('i'):
                s.S(n['i'])
            h = s.new(); b = s.new(); c = s.new(); x = s.new()
            s.goto(h); s.cur = h; s.B(n.get('c'), b, x)
            s.brk.append(x); s.cont.append(c)
            s.cur = b; s.S(n['b'])
            if s.cur is not None:
                s.goto(c)
            s.cur = c
            if n.get('n'):
                s.E(n['n'])
            s.goto(h)
            s.brk.pop(); s.cont.pop(); s.cur = x
        elif k == 'rfor':
            r = s.E(n['r'])
            h = s.new(); b = s.new(); x = s.new()
            s.goto(h); s.cur = h
            t = s.tmp(); s.emit(('call', t, 'range-next', None, [r], n['l'], n))
            s.end(('br', t, b.id, x.id, n['l']))
            s.brk.append(x); s.cont.append(h)
            s.cur = b
            d = n['v']; s.g.vars[d['id']] = (d['n'], s.fn.type(d['t']))
            t2 = s.tmp(); s.emit(('call', t2, 'range-elem', None, [r], n['l'], n))
            s.emit(('set', ('v', d['id'], d['n']), t2, n['l']))
            s.S(n['b'])
            if s.cur is not None:
                s.goto(h)
            s.brk.pop(); s.cont.pop(); s.cur = x
        elif k == 'switch':
            v = s.E(n['c'])
            t = s.tmp(); s.emit(('set', t, v, n['l']))
            head = s.cur; s.cur = None
            x = s.new(); cases = []; dflt = [None]
            s.brk.append(x)
            s.sw(n['b'], cases, dflt)
            if s.cur is not None:
                s.goto(x)
            s.brk.pop()
            head.term = ('sw', t, cases, (dflt[0] or x).id, n['l'])
            s.cur = x
        elif k in ('case', 'default'):
            # case outside its switch's top level (handled through s.swctx)
            b = s.new()
            if s.cur is not None:
                s.goto(b)
            s.cur = b
            cases, dflt = s.swctx
            if k == 'case':
                cases.append((n.get('cv'), b.id))
            else:
                dflt[0] = b
            s.S(n['b'])
        elif k == 'ret':
            v = s.E(n['e']) if n.get('e') else None
            s.end(('ret', v, n['l']))
        elif k == 'break':
            s.goto(s.brk[-1])
        elif k == 'cont':
            s.goto(s.cont[-1])
        elif k == 'goto':
            s.goto(s.label(n['n']))
        elif k == 'label':
            b = s.label(n['n'])
            if s.cur is not None:
                s.goto(b)
            s.cur = b
            s.S(n['b'])
        elif k == 'try':
            # handlers may run after any point of the body: model as a nondeterministic choice
            b = s.new(); j = s.new()
            hs = [s.new() for _ in n['h']]
            t = s.tmp(); s.emit(('call', t, 'try-choice', None, [], n['l'], n))
            s.end(('sw', t, [(i + 1, h.id) for i, h in enumerate(hs)], b.id, n['l']))
            s.cur = b; s.S(n['b'])
            if s.cur is not None:
                s.goto(j)
            for h, hb in zip(hs, n['h']):
                s.cur = h; s.S(hb)
                if s.cur is not None:
                    s.goto(j)
            s.cur = j

    def label(s, n):
        if n not in s.labels:
            s.labels[n] = s.new()
        return s.labels[n]

    def sw(s, body, cases, dflt):
        old = getattr(s, 'swctx', None)
        s.swctx = (cases, dflt)
        if body is not None:
            items = body['b'] if body['s'] == 'block' else [body]
            for x in items:
                if s.cur is None and x['s'] not in ('case', 'default', 'label'):
                    s.cur = s.new()
                if x['s'] in ('case', 'default'):
                    if s.cur is None:
                        s.cur = s.new(); s.S(x)
                        continue
                s.S(x)
        s.swctx = old

    def initlist(s, v, i, line):
        s.emit(('set', v, s.E(i), line))

    def prune(s):
        g = s.g
        seen = set(); st = [g.entry]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st.extend(succ(g.blocks[b].term))
        g.reach = seen
        # natural loops by DFS back edges
        color = {}; order = []
        stack = [(g.entry, iter(succ(g.blocks[g.entry].term)))]
        color[g.entry] = 1
        back = []
        while stack:
            b, it = stack[-1]
            adv = False
            for n in it:
                if color.get(n, 0) == 0:
                    color[n] = 1; stack.append((n, iter(succ(g.blocks[n].term)))); adv = True; break
                elif color.get(n) == 1:
                    back.append((b, n))
            if not adv:
                color[b] = 2; order.append(b); stack.pop()
        preds = {}
        for b in seen:
            for n in succ(g.blocks[b].term):
                preds.setdefault(n, set()).add(b)
        g.preds = preds
        for b, h in back:
            body = g.loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x); w.extend(preds.get(x, ()))
        g.rpo = order[::-1]


def succ(t):
    if t is None:
        return ()
    if t[0] == 'jmp':
        return (t[1],)
    if t[0] == 'br':
        return (t[2], t[3])
    if t[0] == 'sw':
        return tuple(b for _, b in t[2]) + (t[3],)
    return ()


_cache = {}


def cfg(fn):
    k = id(fn)
    if k not in _cache:
        _cache[k] = (Lower(fn).g, fn)
    return _cache[k][0]


def walk_expr(e):
    """all sub-expressions, including e"""
    if not isinstance(e, tuple):
        return
    yield e
    for x in e[1:]:
        if isinstance(x, tuple):
            for y in walk_expr(x):
                yield y


def ins_exprs(i):
    if i[0] == 'set':
        yield i[2]
        lv = i[1]
        for x in lv[1:]:
            if isinstance(x, tuple):
                yield x
    elif i[0] == 'call':
        if i[3]:
            yield i[3]
        for a in i[4]:
            yield a


def term_exprs(t):
    if t[0] in ('br', 'sw'):
        yield t[1]
    elif t[0] == 'ret' and t[1] is not None:
        yield t[1]
