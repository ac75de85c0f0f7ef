"""S05: every number printed in a scoring report is the quantity its label or column heading names."""
import re
import ir
import facts, absint, quant, walk
from absint import C, show, isnum
from quant import Quant, flat, showq, ZERO, QInterp
from util import where, condlist, last_loop_of, NARROW

R = [('C', 'S', 'D'), ('C', 'S', 'D', 'M', 'P')]
E = [('S', 'D', 'I'), ('S', 'D', 'I', 'M', 'P')]


def cats(ks):
    return tuple(sorted((k, 1) for k in ks))


def st(l):
    return {cats(x) for x in l}


BASE = {'C': st(['C']), 'S': st(['S']), 'D': st(['D']), 'I': st(['I']), 'E': st(E), 'R': st(R), 'H': st([('C', 'S', 'I')]), 'A': st([('C', 'S', 'D', 'I'), ('N',)]),
        'NS': {(('NS', 1),)}, 'SE': {(('SE', 1),)}, '+S': {(('+S', 1),)}, '+D': {(('+D', 1),)}, '+I': {(('+I', 1),)}, 'M': st(['M']), 'P': st(['P'])}
WT = {k: {tuple(sorted(('w' + x, v) for x, v in c)) for c in BASE[k]} for k in 'CSDIEMP'}
WT['R'] = {(('wR', 1),)}
LINE = [(r'Scores: \(#C #S #D #I', None), (r'Word Accuracy', 'ACC'), (r'Total Error', 'E'), (r'Correct', 'C'), (r'Substitution', 'S'), (r'Deletion', 'D'), (r'Insertion', 'I'), (r'Errors ', 'E'),
        (r'Ref\. words', 'R'), (r'Hyp\. words', 'H'), (r'Aligned words', 'A'), (r'^ sentences ', 'NS'), (r' with errors', 'SE'),
        (r' with substitutions', '+S'), (r' with deletions', '+D'), (r' with insertions', '+I')]
COL = {'# Snt': 'NS', '# Wrd': 'R', '# Chr': 'R', '# Ref': 'R', 'Corr': 'C', 'Sub': 'S', 'Del': 'D', 'Ins': 'I', 'Err': 'E', 'S.Err': 'SE', 'Mrg': 'M', 'Spl': 'P'}
ROWSTAT = {'Mean': 'mean', 'S.D.': 'sd', 'StdDev': 'sd', 'Median': 'median'}
CONV = re.compile(r'%[-+ #0]*\d*(?:\.\d+)?(?:l|h)*([a-zA-Z%])')
DESC = ('Desc_add_row_values', 'Desc_set_iterated_format', 'Desc_set_iterated_value', 'Desc_flush_iterated_row', 'Desc_erase')


def den_of(kind):
    return 'NS' if kind in ('SE', '+S', '+D', '+I') else 'R'


def okcount(q, kind, tab=BASE):
    f = flat(q)
    return q == ZERO or f is not None and f[0] in tab.get(kind, ())


def okpct(q, kind, tabs=(BASE,), tag='pct'):
    if q[0] != tag: return False
    a, b = flat(q[1]), flat(q[2])
    if a is None or b is None or a[1] != b[1]: return False
    return any(a[0] in t.get(kind, BASE.get(kind, ())) and b[0] in t.get(den_of(kind), BASE['NS']) for t in tabs)


def nz(qs):
    """zero results and numeric markers beside real quantities do not change what a value is"""
    def dull(q): return q == ZERO or q[0] == 'num' or q[0] == 'stat' and dull(q[2])
    return {q for q in qs if not dull(q)} or qs


def mixed(qs):
    """the same kind of count ranging over different things depending on the path, or carried beyond its scope"""
    by = {}
    for q in qs:
        kind = q[:2] if q[0] == 'stat' else None
        while q[0] == 'stat': q = q[2]
        for p in (q[1:] if q[0] in ('pct', 'cpl', 'ratio') else (q,)):
            f = flat(p) if p[0] == 'lin' else None
            if f is None: continue
            if f[1] > 3: return True
            if q[0] == 'lin': by.setdefault((kind, f[0]), set()).add(f[1])
    return any(len(v) > 1 for v in by.values())


def decided(qs):
    return qs and not any(q[0] in ('unk', 'num', 'str') or q[0] in ('stat', 'pct', 'cpl', 'ratio') and not decided(set(x for x in q[1:] if isinstance(x, tuple))) for q in qs)


def text(t):
    """string constant of a term, or of every alternative of it"""
    if t[0] == 'c' and isinstance(t[1], str): return t[1]
    if t[0] == 'ite':
        a, b = text(t[2]), text(t[3])
        return a if a is not None and b is not None and COL.get(a.strip()) == COL.get(b.strip()) else None
    if t[0] == 'rs' and len(t) == 2: return text(t[1])
    return None


class Report:
    def __init__(s, c, Q, fn, tag, raw, weighted):
        s.c = c; s.Q = Q; s.fn = fn; s.tag = tag; s.raw = raw; s.tabs = (WT,) if weighted else (BASE,); s.weighted = weighted
        s.und = set(); s.levels = {}; s.seen = set()

    def bad(s, what, line, f, msg, o):
        s.c.bad('%s:%s' % (s.fn.qn, what), where(f, line), msg, condlist(o))

    def lines(s, o, name, args, line, f):
        fi = {'fprintf': 1, 'printf': 0, 'sprintf': 1}.get(name)
        if fi is None or len(args) <= fi or args[fi][0] != 'c' or not isinstance(args[fi][1], str): return
        fmt = args[fi][1]
        kind = None
        for pat, k in LINE:
            if re.search(pat, fmt): kind = k; break
        else: return
        convs = [m for m in CONV.finditer(fmt) if m.group(1) != '%']
        vals = args[fi + 1:]
        if kind is None: kinds = ['C', 'S', 'D', 'I'] + ['?'] * max(0, len(convs) - 4)
        else: kinds = [kind] * len(convs)
        plevel = None
        for n, (m, k) in enumerate(zip(convs, kinds)):
            if k == '?' or n >= len(vals): continue
            if m.group(1) == 's': continue
            qs = nz(s.Q.ty(vals[n]))
            ispct = fmt[m.end():m.end() + 2] == '%%'
            if never(vals[n], qs): s.bad('line:%s:%d:never' % (fmt.split('=')[0].strip()[:30], n), line, f, 'the value printed after "%s" is always zero' % fmt.split('%')[0].strip(), o); continue
            key = (line, n, fmt)
            if not decided(qs):
                s.und.add('%s:%d argument %d' % (f.rel(), line, n + 1)); continue
            if mixed(qs): s.bad('line:%s:%d:reset' % (fmt.split('=')[0].strip()[:30], n), line, f, 'the value printed after "%s" carries over counts from outside its scope: %s' % (fmt.split('%')[0].strip(), ', '.join(map(showq, qs))), o)
            if key not in s.seen:
                s.seen.add(key)
                s.c.ob('%s: "%s" argument %d is %s' % (where(f, line), fmt.strip()[:30], n + 1, ', '.join(map(showq, qs))))
            for q in qs:
                if k == 'ACC': good = okpct(q, 'E', s.tabs, 'cpl')
                elif ispct: good = okpct(q, k, s.tabs)
                else: good = okcount(q, k)
                if not good:
                    s.bad('line:%s:%d' % (re.sub(r'\s+', ' ', fmt.split('=')[0].strip())[:30], n), line, f,
                          'the value printed after "%s" is %s' % (re.sub(r'\s+', ' ', fmt.split('%')[0].strip()), showq(q)), o)
                elif k == 'ACC' or ispct:
                    plevel = flat(q[1])[1]; s.levels.setdefault(plevel, (line, f))
                elif plevel is not None and q != ZERO and n == 1 and flat(q)[1] != plevel:
                    s.bad('line:%s:scope' % fmt.split('=')[0].strip()[:30], line, f, 'the percentage ranges over %s but the count beside it over %s' % (LV(plevel), LV(flat(q)[1])), o)

    def rows(s, o):
        head = None; cells = None; loops = 0
        if s.islur: s.lur(o)
        for e in o.events:
            if e[0] == 'loop': loops += 1
            if e[0] != 'call': continue
            name, args, line, f = e[1], e[2], e[3], e[4]
            s.lines(o, name, args, line, f)
            if name == 'Desc_erase': head = None; cells = None
            elif name == 'Desc_add_row_values':
                row = [text(a) for a in args[1:]]
                if sum(1 for x in row if x is not None and x.strip() in COL) >= 3: head = row
            elif name == 'Desc_set_iterated_format': cells = []; l0 = loops
            elif name == 'Desc_set_iterated_value' and cells is not None: cells.append((args[0], line, f))
            elif name == 'Desc_flush_iterated_row' and cells is not None:
                row = [text(a) for a, _, _ in cells]
                if sum(1 for x in row if x is not None and x.strip() in COL) >= 3: head = row
                elif head is not None and len(head) > 1: s.row(o, head, row, cells, line, f, loops - l0)
                cells = None

    def lur(s, o):
        """rows of the per-label report: pairs (reference words, error rate)"""
        label = None; sect = ''; cells = []
        for e in o.events:
            if e[0] != 'call': continue
            if e[1] == 'Desc_set_iterated_format': label = None
            elif e[1] == 'Desc_add_row_values':
                sect = next((text(a) for a in e[2][1:] if text(a) and re.search('Mean|Median|Deviation|Average', text(a))), '')
            elif e[1] == 'Desc_set_iterated_value':
                if label is None: label = (text(e[2][0]) or sect).strip()
                else: cells.append((label, e[2][0], e[3], e[4]))
        s.Q.subst = {c_[2]: c_[3] for c_, t, l, ff in o.conds if t and c_[0] == 'cmp' and c_[1] == '==' and c_[2][0] == 'sym' and isnum(c_[3])}
        for label, v, ln, fl in cells:
            stat = next((v_ for k_, v_ in ROWSTAT.items() if k_ in label), None) or ('sd' if 'Standard Deviation' in label else None)
            if v[0] != 'rs' or len(v) < 3: continue
            fmt = text(v[1]) or ''
            qs = nz(s.Q.ty(v[2]))
            if not decided(qs):
                s.und.add('%s:%d' % (fl.rel(), ln)); continue
            key = (ln, label)
            if mixed(qs): s.bad('lur:%s:reset' % fmt, ln, fl, 'the cell carries over counts from outside its scope: %s' % ', '.join(map(showq, qs)), o)
            if key not in s.seen:
                s.seen.add(key); s.c.ob('%s: row %s cell %s is %s' % (where(fl, ln), label or '<name>', fmt, ', '.join(map(showq, qs))))
            for q in qs:
                q0 = q
                if stat and not (q[0] == 'stat' and q[1] == stat) or not stat and q[0] == 'stat' and label:
                    s.bad('lur:%s:%s' % (label[:20], fmt), ln, fl, 'row "%s" prints %s' % (label, showq(q)), o); continue
                if q[0] == 'stat': q = q[2]
                if not (okpct(q, 'E') if 'f' in fmt else okcount(q, 'E') if '*' in fmt else okcount(q, 'R')):
                    s.bad('lur:%s:%s' % (label[:20], fmt), ln, fl, 'row "%s" prints %s where %s belongs' % (label, showq(q0), 'the word error rate' if 'f' in fmt else 'the word count'), o)
        s.Q.subst = {}

    def row(s, o, head, row, cells, line, f, nl):
        label = (row[0] or '').strip()
        label = next((k for k in ROWSTAT if label.startswith(k)), label)
        stat = ROWSTAT.get(label)
        if len(cells) != len(head):
            if nl == 0 or stat: s.bad('row:%s:width' % label, line, f, 'a row of %d cells under %d column headings' % (len(cells), len(head)), o)
            return
        for i, (h, (v, ln, fl)) in enumerate(zip(head, cells)):
            k = COL.get((h or '').strip())
            if k is None or v[0] != 'rs' or len(v) < 3: continue
            qs = nz(s.Q.ty(v[2]))
            if never(v[2], qs): s.bad('col:%s:%s:never' % (h.strip(), label), ln, fl, 'the %s cell of row %s is always zero' % (h.strip(), label or '<speaker>'), o); continue
            if not decided(qs):
                s.und.add('%s:%d column %s' % (fl.rel(), ln, h.strip())); continue
            key = (ln, h, label)
            if mixed(qs): s.bad('col:%s:reset' % h.strip(), ln, fl, 'the %s column carries over counts from outside its scope: %s' % (h.strip(), ', '.join(map(showq, qs))), o)
            if key not in s.seen:
                s.seen.add(key)
                s.c.ob('%s: column %s row %s is %s' % (where(fl, ln), h.strip(), label or '<name>', ', '.join(map(showq, qs))))
            body = set()
            for q in qs:
                if stat:
                    if q[0] != 'stat' or q[1] != stat:
                        s.bad('col:%s:%s' % (h.strip(), label), ln, fl, 'the %s cell of the %s row is %s' % (h.strip(), label, showq(q)), o); continue
                    q = q[2]
                    s.dropped(v[2], h, label, ln, fl, o)
                elif q[0] == 'stat':
                    s.bad('col:%s:%s' % (h.strip(), label), ln, fl, 'the %s cell of row %s is %s' % (h.strip(), label or 'speaker', showq(q)), o); continue
                body.add(q)
            wantpct = not s.raw and k not in ('NS', 'R')
            haspct = any(q[0] == 'pct' for q in body)
            for q in body:
                if k in ('NS', 'R'): good = okcount(q, k)
                elif s.raw: good = okcount(q, k)
                else: good = okpct(q, k, s.tabs) or haspct and okcount(q, k)
                if not good:
                    s.bad('col:%s:%s' % (h.strip(), label), ln, fl, 'the %s cell of row %s is %s' % (h.strip(), label or '<speaker>', showq(q)), o)


    def dropped(s, t, h, label, ln, fl, o):
        st = next((x for x in quant.subterms(t) if x[0] == 'stat' and len(x) == 4), None)
        if st is None: return
        d, k = absint.affparts(st[3])
        fewer = any(v < 0 for v in d.values()) or k < 0
        comp = s.Q.root(st[2]) in s.Q.shifted
        if fewer != comp and (fewer or s.Q.shifted):
            s.bad('col:%s:%s:dropped' % (h.strip(), label), ln, fl, 'the %s of the %s column is taken over %s entries, but those to be ignored were %sremoved from it' % (label, h.strip(), 'fewer' if fewer else 'all', '' if comp else 'not '), o)


def never(t, qs):
    """a variable to which nothing but zero is ever assigned"""
    return qs == {ZERO}


def LV(l):
    return {1: 'an utterance', 2: 'a speaker', 3: 'the whole test'}.get(l, 'level %d' % l)


def generic(c, Q, fn, tag):
    """every percentage of word or sentence counts has the matching base"""
    n = 0
    for k, qs in Q.T.items():
        for q in qs:
            while q[0] == 'stat': q = q[2]
            if q[0] not in ('pct', 'cpl'): continue
            yield k, q


def okany(q):
    return any(okpct(q, k, (BASE, WT), q[0]) for k in BASE)


def complete(c, Q, name):
    """totals leave nothing out: the loop starts at the first element, runs to the last and skips none that could count"""
    for (fq, h, k), l in Q.accs.items():
        real = [(d, o, L) for d, o, L in l if any(flat(q) for q in (Q.ty(d) if d is not None else Q.T.get(k, ())))]
        if not real: continue
        var = k[-1] if k[0] == 'L' else k[1] if k[0] == 'F' else 'total'
        for d, o, L in real:
            pres = [pre for loc, (pre, sy) in L[3].items() if Q.key(loc) == k]
            if pres and isnum(pres[0]) and pres[0][1] != 0:
                c.bad('%s:%s:start' % (name, var), where(o.fn, o.line), 'the total %s starts at %s' % (var, show(pres[0])), condlist(o))
            if pres and pres[0][0] == 'undef' or pres and pres[0][0] == 'init' and Q.own(pres[0], pres[0][1]):
                c.bad('%s:%s:init' % (name, var), where(o.fn, o.line), 'the total %s is not set to zero before its items are added' % var, condlist(o))
        d, o, L = real[0]
        ty = ir.cfg(o.fn).vars.get(k[1], ('', ''))[1] if k[0] == 'L' else ''
        qs = set().union(*[Q.ty(d) for d, o, L in real if d is not None] or [set()])
        if NARROW.match(ty):
            c.bad('%s:%s:narrow' % (name, var), where(o.fn, o.line), 'the total %s has the type %s, which cannot hold every total' % (var, ty))
        if re.match(r'(unsigned |const )*(int|long|short|char)( int)?$', ty):
            for x in sorted({x for q in qs if flat(q) for x, v in flat(q)[0] if x.startswith('w')}):
                c.bad('%s:integer:%s' % (name, x), where(o.fn, o.line), 'the total %s of real-valued weights (%s) is kept in a variable of type %s, losing the fractions' % (var, x, ty))
        c.ob('%s: total %s accumulated in the loop at %s' % (name, var, where(o.fn, o.line)))
        n0 = len(list(absint._unroll(L[5])))
        hc = o.conds[n0] if len(o.conds) > n0 else None
        if hc and hc[0][0] == 'cmp' and hc[1]:
            cond, line = hc[0], hc[2]
            for loc, (pre, sy) in L[3].items():
                end = o.st.env.get(loc, sy)
                if end == absint.add(sy, C(1)) and cond[1] in ('<', '<=', '!=') and cond[2] == sy:
                    if isnum(pre) and pre[1] != 0:
                        c.bad('%s:%s:from' % (name, var), where(o.fn, line), 'the total %s is summed from element %s on' % (var, show(pre)))
                    b, k0 = absint.affparts(cond[3])
                    if b and (k0 != 0 and cond[1] != '<=' or cond[1] == '<=' and k0 != -1):
                        c.bad('%s:%s:to' % (name, var), where(o.fn, line), 'the total %s is summed over elements %s %s %s' % (var, show(sy), cond[1], show(cond[3])))
        if d is None: continue
        need = {x for q in Q.ty(d) if flat(q) for x, v in flat(q)[0]}
        for conds, o2 in Q.idle.get((fq, h, k), []):
            def none(cc, t):
                if cc[0] != 'cmp' or not isnum(cc[3]) or cc[3][1] != 0: return False
                if not (cc[1] == '==' and t or cc[1] in ('!=', '>') and not t or cc[1] in ('<=',) and t): return False
                return any(flat(q) and need <= {x for x, v in flat(q)[0]} for q in Q.ty(cc[2]))
            if not any(none(cc, t) for cc, t in conds):
                c.bad('%s:%s:skip' % (name, var), where(o2.fn, o2.line), 'some iterations add nothing to the total %s' % var, condlist(o2))


def compaction(c, Q, outs, name):
    """elements dropped from parallel arrays: the test that drops them must go on looking at the elements it means"""
    shifted = {}
    for o in outs:
        if o.kind != 'back': continue
        sh = [e for e in o.events if e[0] == 'set' and e[1][0] == 'elem' and e[2][0] == 'init' and e[2][1][0] == 'elem' and e[2][1][1] == e[1][1] and e[2][1][2] == absint.add(e[1][2], C(1))]
        loops = [e for e in o.events if e[0] == 'loop']
        if not sh or len(loops) < 2 or loops[-1][2] != o.value: continue
        inner, outer = loops[-1], loops[-2]
        outsy = {sy: loc for loc, (pre, sy) in outer[3].items()}
        frm = [pre for loc, (pre, sy) in inner[3].items() if sh[0][1][2] == sy]
        if not frm or frm[0] not in outsy: continue
        so = frm[0]
        roots = {Q.root(e[1][1]) for e in sh if e[1][2] == sh[0][1][2]}
        n0 = len(list(absint._unroll(outer[5])))
        guards = [cc for cc, tv, l, f in o.conds[n0:] if cc[0] == 'cmp' and cc[2][0] == 'init' and cc[2][1][0] == 'elem' and cc[2][1][2] == so]
        for r in roots: shifted.setdefault(r, o)
        for g in guards:
            G = Q.root(g[2][1][1])
            steps = set()
            for o2 in outs:
                if o2.kind != 'back' or o2.value != outer[2] or o2.fn is not o.fn: continue
                L = last_loop_of(o2, o2.value)
                if not any(cc[0] == 'cmp' and cc[1] == g[1] and cc[3] == g[3] and cc[2][0] == 'init' and cc[2][1][0] == 'elem' and Q.root(cc[2][1][1]) == G and tv for cc, tv, l, f in o2.conds[len(list(absint._unroll(L[5]))):]): continue
                sy = L[3][outsy[so]][1] if outsy[so] in L[3] else None
                if sy: steps.add(absint.add(o2.st.env.get(outsy[so], sy), sy, -1))
            c.ob('%s: elements are dropped in the loop at %s, stepping by %s' % (name, where(o.fn, o.conds[-1][2]), ', '.join(map(show, steps))))
            if C(1) in steps:
                c.bad('%s:compaction' % name, where(o.fn, o.conds[-1][2]), 'elements are dropped from the arrays while walking upwards, so after the first one the test looks at %s' % ('entries of other speakers' if G not in roots else 'every other entry only'), condlist(o))
    Q.shifted = shifted


SIZE = {'grp': 'num_grp', 'path': 'num_path', 'pset': 'num'}


def counters(o):
    """loop symbol -> (loop, expression X if the loop runs over 0..X-1, whether the path is inside an iteration)"""
    r = {}
    for e in o.events:
        if e[0] != 'loop': continue
        n0 = len(list(absint._unroll(e[5])))
        for loc, (pre, y) in e[3].items():
            X = inside = None
            for cc, tv, l, f in o.conds[n0:]:
                if cc[0] != 'cmp' or cc[2] != y and cc[3] != y: continue
                op, b = (cc[1], cc[3]) if cc[2] == y else ({'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(cc[1], cc[1]), cc[2])
                if op in ('<', '!=') or op == '>=' and not (isnum(b) and b[1] == 0): 
                    X = b if isnum(pre) and pre[1] == 0 else None; inside = bool(tv) == (op != '>=')
                elif op == '<=': X = absint.add(b, C(1)) if isnum(pre) and pre[1] == 0 else None; inside = bool(tv)
                elif op in ('>=', '>') and isnum(b): X = absint.add(pre, C(1)) if b[1] == (0 if op == '>=' else -1) else None; inside = bool(tv)
                break
            r[y] = (e, X, inside)
    return r


def elems(t):
    for x in quant.subterms(t):
        if x[0] == 'elem' and len(x) == 3 and isinstance(x[1], tuple): yield x


def scope(c, Q, fn, outs, name):
    """counts are those of the speaker, utterance or system whose turn it is"""
    sys = next((p for p in fn.params if p['n'] == 'nsc'), None)
    seen = {}
    def kind(b):
        if b[0] == 'init' and b[1][0] == 'fld' and b[1][2] in SIZE: return SIZE[b[1][2]]
        if sys and b[0] == 'init' and b[1][0] == 'v' and b[1][3] == 'sc': return 'nsc'
        if b[0] == 'sym' and b[1] == '!heap' or b[0] == 'init' and b[1][0] == 'elem' and b[1][1][0] == 'sym': return 'table'
        return None
    def size(X):
        if X is None: return None
        if X[0] == 'init' and X[1][0] == 'fld': return X[1][2]
        if X[0] == 'init' and X[1][0] == 'v': return X[1][3]
        d, k = absint.affparts(X)
        if len(d) == 1 and k == 5: return 'with statistics'
        return None
    def look(o, cn, t, what, line, f):
        idx = {}
        for x in elems(t):
            k = kind(x[1]); i = x[2]
            if k is None: continue
            if isnum(i) and k != 'table':
                if k in ('num_grp', 'num_path', 'num') or k == 'nsc' and counted(t, x): c.bad('%s:one:%s' % (name, what), where(f, line), '%s is taken from element %s only' % (what, show(i)), condlist(o))
                continue
            if k == 'table' and (isnum(i) or i in cn) and dims.get(dim(x)):
                got = 'a fixed place' if isnum(i) else size(cn[i][1])
                if got is not None and got not in dims[dim(x)] and 'with statistics' not in (got,): c.bad('%s:dim:%s' % (name, what), where(f, line), '%s is taken from place %s of a table whose places are numbered by %s' % (what, show(i), ', '.join(sorted(dims[dim(x)]))), condlist(o)); continue
            if i in cn:
                e, X, inside = cn[i]
                if inside is None: c.bad('%s:index:%s' % (name, what), where(f, line), '%s is taken from element %s, which no loop steps through' % (what, show(i)), condlist(o)); continue
                if inside is False: c.bad('%s:after:%s' % (name, what), where(f, line), '%s is taken from element %s after the loop over it has ended' % (what, show(i)), condlist(o))
                elif k != 'table' and X is not None and size(X) != k: c.bad('%s:wrong:%s' % (name, what), where(f, line), '%s is taken from element %s, which counts %s' % (what, show(i), show(X)), condlist(o))
                else: idx.setdefault(k, set()).add(i)
            elif isnum(i) or i[0] == 'aff' or i[0] == 'init' and i[1][0] == 'fld': pass
            else: c.bad('%s:index:%s' % (name, what), where(f, line), '%s is taken from element %s, which no loop steps through' % (what, show(i)), condlist(o))
        return idx
    def counted(t, x):
        return any(y[0] == 'init' and y[1][0] == 'fld' and y[1][2] in quant.FIELDS and x in list(elems(y)) for y in quant.subterms(t))
    def dim(x):
        n_ = 0; b = x[1]
        while b[0] == 'init' and b[1][0] == 'elem': n_ += 1; b = b[1][1]
        return Q.root(x[1]), n_
    dims = {}
    for o in outs:
        cn = counters(o)
        for e in o.events:
            if e[0] == 'set' and e[1][0] == 'elem' and kind(e[1][1]) == 'table' and e[2][0] != 'c' and e[2][0] != 'stat' and not (e[2][0] == 'sym' and e[2][1] == '!heap'):
                x = e[1]
                while x and x[0] == 'elem':
                    sz = 'a fixed place' if isnum(x[2]) else size(cn[x[2]][1]) if x[2] in cn else None
                    if sz: dims.setdefault(dim(x), set()).add(sz)
                    x = x[1][1] if x[1][0] == 'init' and x[1][1][0] == 'elem' else None
    at = set()
    for o in outs:
        cn = counters(o)
        for e in o.events:
            if e[0] == 'call' and (e[1] == 'Desc_set_iterated_value' and e[2] and e[2][0][0] == 'rs' or e[1] in ('fprintf', 'printf')):
                k = (e[3], e[2])
                if k in seen: continue
                seen[k] = 1
                for v in (e[2][0][2:] if e[1].startswith('Desc') else e[2][1:]):
                    if v[0] == 'c': continue
                    at.add((e[3], v[0])); look(o, cn, v, 'the value printed', e[3], e[4])
            elif e[0] == 'set' and e[1][0] == 'elem' and kind(e[1][1]) == 'table' and e[2][0] != 'c':
                k = (e[3], e[1], e[2])
                if k in seen: continue
                seen[k] = 1; at.add(e[3])
                idx = look(o, cn, e[2], 'the value entered in a table', e[3], e[4])
                dst = set(); b = e[1]
                while b and b[0] == 'elem':
                    if b[2] in cn: dst.add(b[2])
                    b = b[1][1] if b[1][0] == 'init' and b[1][1][0] == 'elem' else None
                src = set().union(*[v for k_, v in idx.items() if k_ in ('num_grp', 'nsc')] or [set()])
                acc = any(y[0] == 'init' and Q.same(y[1], e[1]) for y in quant.subterms(e[2]))
                if src and (not acc and src != dst or acc and not dst <= src):
                    c.bad('%s:row' % name, where(e[4], e[3]), 'the entry for %s of a table is computed from %s' % (', '.join(map(show, dst)) or 'a fixed place', ', '.join(map(show, src))), condlist(o))
        if o.kind != 'back': continue
        L = last_loop_of(o, o.value)
        for loc, (pre, sy) in L[3].items():
            d = Q.delta(o.st.env.get(loc, sy), loc, sy)
            if d is None or isnum(d) or not any(flat(q) for q in Q.ty(d)): continue
            k = (loc, d)
            if k in seen: continue
            seen[k] = 1; at.add(loc[3] if loc[0] == 'v' else loc[0])
            look(o, cn, d, 'the amount added to %s' % (loc[3] if loc[0] == 'v' else 'a total'), o.conds[-1][2] if o.conds else o.fn.line, o.fn)
    if at: c.ob('%s: %d values printed, entered or added, each from the element whose turn it is' % (name, len(at)), len(at))


def nsystems(c, Q, outs, name, raw):
    """the table of word errors by speaker and system"""
    def val(t):
        xs = {x for x in quant.subterms(t) if x[0] == 'init' and x[1][0] == 'elem'}
        xs = {x for x in xs if not any(x in list(quant.subterms(y[1])) for y in xs if y != x)}
        return xs.pop() if len(xs) == 1 else t
    stats = {}
    for o in outs:
        for e in o.events:
            if e[0] == 'set' and e[1][0] == 'elem' and e[2][0] == 'stat':
                d, k = absint.affparts(e[1][2])
                stats.setdefault((Q.root(e[1][1]), k), set()).add((e[2][1], Q.root(e[2][2]), len(d) == 1 and any(x[0] == 'init' and x[1][-1] == 'num_grp' for x in d), e[1][1] == e[2][2] if e[2][2][0] == 'init' else None, Q.strip(e[2][3])))
    rows = {}
    for o in outs:
        if o.kind != 'back': continue
        L = last_loop_of(o, o.value)
        ev = list(o.events)
        fm = max([i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'Desc_set_iterated_format'], default=None)
        if fm is None: continue
        cells = [(i, e) for i, e in enumerate(ev) if i > fm and e[0] == 'call' and e[1] == 'Desc_set_iterated_value']
        inner = [(i, e) for i, e in cells if i > ev.index(L)]
        if len(cells) < 2 or cells[0][0] > ev.index(L) or len(inner) != 1 or any(e[0] == 'call' and e[1] == 'Desc_flush_iterated_row' for e in ev[fm:]): 
            if cells and cells[0][0] < ev.index(L) and len(inner) != 1 and not any(e[0] == 'call' and e[1] == 'Desc_flush_iterated_row' for e in ev[fm:]): c.bad('%s:cells' % name, where(o.fn, cells[0][1][3]), 'a system gets %d cells in a row' % len(inner), condlist(o))
            continue
        label = text(cells[0][1][2][0]); e = inner[0][1]; v = e[2][0]
        if v[0] != 'rs' or len(v) < 3: continue                                   # headings
        lab = (label or '').strip(); t = val(v[2]); w = where(e[4], e[3])
        cn = counters(o)
        stat = next((x for k, x in ROWSTAT.items() if lab.startswith(k)), None)
        rows.setdefault(lab, set()).add(e[3])
        c.ob('%s: row %s' % (name, lab or '<speaker>'))
        if t[0] == 'init' and t[1][0] == 'elem':
            root = Q.root(t[1][1]); i = t[1][2]
            if stat or not lab:
                qs = {q for q in Q.at(('A', root, None)) if q[0] != 'stat'}
                qs = nz(qs)
                for q in qs:
                    if not (okcount(q, 'E') if raw else okpct(q, 'E')): c.bad('%s:cell' % name, w, 'the table of word errors holds %s' % showq(q), condlist(o))
            if stat:
                # position of the cell among the statistics, from the row's number
                off = None
                eqs = {cc[2]: cc[3][1] for cc, tv, l, f in o.conds if tv and cc[0] == 'cmp' and cc[1] == '==' and cc[2][0] == 'sym' and isnum(cc[3])}
                outer = next((x for x in reversed(ev[:fm]) if x[0] == 'loop' and any(y in eqs or y == i for p, y in x[3].values())), None)
                if isnum(i): off = None
                elif outer:
                    pres = {y: p for p, y in outer[3].values()}
                    d, k = absint.affparts(i)
                    r = C(k)
                    step = next((eqs[y] - (pres[y][1] if isnum(pres[y]) else 0) for y in pres if y in eqs), None)
                    for x, m in d.items():
                        r = absint.add(r, absint.add(pres[x], C(step)) if x in pres and step is not None else x)
                    d, k = absint.affparts(r)
                    if len(d) == 1 and any(x[0] == 'init' and x[1][-1] == 'num_grp' for x in d): off = k
                if off is None: c.notes.append('%s: position of the %s row not recognised' % (name, lab)); continue
                kinds = stats.get((root, off), set())
                if {x[0] for x in kinds} != {stat}: c.bad('%s:stat:%s' % (name, lab), w, 'the row %s prints %s' % (lab, ', '.join(x[0] for x in kinds) or 'something that is not a statistic'), condlist(o))
                for x in kinds:
                    if x[1] != root or not x[2] or x[3] is False or not (x[4][0] == 'init' and x[4][1][-1] == 'num_grp'): c.bad('%s:stat:%s:of' % (name, lab), w, 'the %s is taken over something else than the errors of all speakers' % lab, condlist(o))
                continue
            if not lab: continue
        qs = nz(Q.ty(v[2]))
        if not decided(qs): c.notes.append('%s: row %s not decided' % (name, lab)); continue
        for q in qs:
            if not raw and q[0] == 'pct' and q[1] == ZERO: continue
            if not (okcount(q, 'E') if raw else okpct(q, 'E')): c.bad('%s:row:%s' % (name, lab), w, 'the row %s prints %s' % (lab or '<speaker>', showq(q)), condlist(o))
    for want in ('', 'Mean', 'StdDev', 'Median', 'Sum' if raw else 'Average'):
        if not any(r == want for r in rows): c.bad('%s:norow:%s' % (name, want), where(outs[0].fn, outs[0].fn.line), 'the table of word errors has no %s row' % (want or 'speaker'))


def removal(c, Q, outs, name):
    """every entry to be ignored is removed, and all entries behind it move up"""
    for o in outs:
        if o.kind != 'back': continue
        L = last_loop_of(o, o.value)
        for e in o.events[o.events.index(L):]:
            if e[0] != 'set' or e[1][0] != 'elem' or e[2][0] != 'init' or e[2][1][0] != 'elem' or e[2][1][1] != e[1][1]: continue
            if absint.add(e[2][1][2], e[1][2], -1) != C(1): continue
            S = walk.Step(o, L)
            fr = S.now(e[1][2]); beg = absint.add(fr, walk.K, -1)
            lim = [absint.add(u, beg) for u, l in S.limits()]
            c.ob('%s: entries from %s on move up' % (name, show(beg)))
            w = where(o.fn, e[3])
            def last(x):
                d, k = absint.affparts(x)
                return k == -1 and len(d) == 1 and list(d)[0][0] == 'init' and list(d)[0][1][-1] == 'num_grp'
            if not any(last(u) for u in lim): c.bad('%s:removal:last' % name, w, 'the entries moved up end at %s, not with the last one' % ', '.join(map(show, lim)), condlist(o))
            cn = counters(o)
            if beg in cn:
                L2, X, inside = cn[beg]
                if X is None or X[0] != 'init' or X[1][-1] != 'num_grp': c.bad('%s:removal:all' % name, w, 'not every entry is examined for removal (%s)' % (show(X) if X else 'not from the last to the first'), condlist(o))


TOP = [('print_system_summary', [dict(do_sm=0, do_raw=r, do_weighted=w) for r, w in ((0, 0), (1, 0), (0, 1))]),
       ('print_N_system_summary', [dict(do_raw=0), dict(do_raw=1)]), ('print_N_system_executive_summary', [dict(do_raw=0), dict(do_raw=1)]),
       ('score_dtl_sent', [{}]), ('score_dtl_spkr', [{}]), ('score_dtl_overall', [{}]), ('PATH_n_print', [{}]), ('PATH_n_print_html', [dict(header=1)]), ('print_lur', [{}]), ('print_N_lur', [{}])]


def check(c):
    ir.ITE = True
    prog = c.prog('sclite'); mac = facts.macros('sclite')
    LAB = {'C': mac['P_CORR'], 'S': mac['P_SUB'], 'I': mac['P_INS'], 'D': mac['P_DEL']}
    c.rule('printed', 'every labelled line and every table cell of the scoring reports prints the quantity its label, column and row name')
    c.rule('total', 'every total sums over all speakers, utterances or items of its scope and starts from zero for each')
    c.rule('base', 'every percentage divides a word count by the reference words of the same scope, or a sentence count by its sentences')
    c.rule('scope', 'what is printed, tabulated or added for a speaker, utterance or system comes from the element whose turn it is in a loop over all of them')
    opq = [f.qn for f in prog.all() if f.qn.startswith(('Desc_', 'AUTO_LEX', 'locate_'))] + ['compute_SCORE_nce', 'hyp_confidences_available', 'center', 'malloc_died', 'get_date']
    done = 0
    for name, combos in TOP:
        fn = prog.get(name)
        if fn is None: c.notes.append('report function %s not found' % name); continue
        fn = c.fn(fn); done += 1
        o2 = opq + ([] if name.startswith('PATH') else ['PATH_print', 'PATH_n_print'])
        for fl in combos:
            tag = ','.join('%s=%s' % x for x in fl.items())
            Q = Quant(prog, LAB)
            try: outs = Q.run(fn, fl, opaque=o2, stop_fmt='Scores: (' if name.startswith('PATH') else None, merge=name.startswith('PATH'))
            except facts.AnalysisError as e:
                c.notes.append('%s (%s): not analysed: %s' % (name, tag, e)); continue
            if not Q.solve(): c.notes.append('%s (%s): quantities did not settle' % (name, tag))
            c.cur = 'printed'
            rp = Report(c, Q, fn, tag, fl.get('do_raw', 0), fl.get('do_weighted', 0))
            rp.islur = any(e[0] == 'call' and e[1] == 'Desc_set_iterated_value' and '%WE' in (text(e[2][0]) or '') for o in outs for e in o.events)
            c.cur = 'total'; compaction(c, Q, outs, name); c.cur = 'printed'
            for o in outs: rp.rows(o)
            if len(rp.levels) > 1 and name != 'score_dtl_sent':
                a, b = sorted(rp.levels)[:2]
                rp.c.bad('%s:scope' % name, where(rp.levels[a][1], rp.levels[a][0]), 'some percentages of this report range over %s, others over %s' % (LV(a), LV(b)))
            for u in sorted(rp.und): c.notes.append('%s (%s): not decided: %s' % (name, tag, u))
            c.cur = 'total'; complete(c, Q, name); removal(c, Q, outs, name)
            if name == 'print_N_system_summary': c.cur = 'printed'; nsystems(c, Q, outs, name, fl.get('do_raw', 0))
            c.cur = 'scope'; scope(c, Q, fn, outs, name)
            c.cur = 'base'
            for k, q in generic(c, Q, fn, tag):
                f1, f2 = q[1], q[2]
                if not decided({q}): continue
                c.ob('%s %s: %s' % (name, k[-1] if k[0] == 'L' else k[0], showq(q)))
                if not okany(q):
                    c.bad('%s:base:%s' % (name, showq(q)), where(fn, fn.line), 'a percentage is computed as %s' % showq(q))
    c.need(done >= 6, 'the report functions are not found')
    c.floor('printed', 60)
