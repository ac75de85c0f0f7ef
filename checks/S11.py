"""S11: scoring of time-marked input -- every reference segment once, against the words that fall into it."""
import facts, ir, absint
from absint import C, show, showloc, add, isnum, scale
from util import *
from S02 import strip, param, subterms, all_terms
from S09 import lkey, lookup, since
from path import *

SEG, WORD = 'segment_hyp_for_utt', 'Network_create_from_WTOKE'
ALIGN = ('network_dp_align_texts', 'infer_word_seg_algo1', 'infer_word_seg_algo2')
LIT = ('IGNORE_TIME_SEGMENT_IN_SCORING', 'IGNORETIMESEGMENTINSCORING')


def check(c):
    prog = c.prog('sclite')
    c.part(driver, c, prog)
    c.part(cut, c, prog)
    c.part(stm_bound, c, prog)
    c.part(word_bound, c, prog)
    c.part(load, c, prog)
    c.part(reduce_, c, prog)


def seed(I, st, prog, fn, vals):
    for k in prog.globs:
        n = k if isinstance(k, str) else k[0]
        if n in ('db', 'db_level'): st.env[('g', n)] = C(0)
    for p in fn.params:
        if p['n'] in vals: st.env[('v', 1, p['id'], p['n'])] = vals[p['n']]


def named(prog, name, args):
    """arguments of a call by parameter name"""
    f = prog.get(name)
    return {p['n']: a for p, a in zip(f.params, args)}


def table(prog):
    def rec(n, ret=C(0)):
        def h(s, st, args, node, line, caller):
            s.event(st, ('call', n, tuple(args), line, caller)); return ret(args) if callable(ret) else ret
        return h

    def seg(s, st, args, node, line, caller):
        s.event(st, ('call', 'segment', tuple(args), line, caller))
        a = named(prog, SEG, args)['curhend']
        s.write(st, a[1] if a[0] == 'addr' else s.mkelem(a, C(0)), ('sym', 'cut', ()))
        return C(0)

    def fill(kind, fs):
        def h(s, st, args, node, line, caller):
            s.event(st, ('call', kind, tuple(args), line, caller))
            if args[0] != C(0):
                for f in fs: s.write(st, ('fld', args[0], f), ('sym', kind + '.' + f, ()))
            return C(0)
        return h
    T = {n: rec(n) for n in ('PATH_add_label', 'PATH_add_file', 'PATH_add_channel', 'add_PATH_score', 'load_comment_labels_from_file')}
    T.update({n: ignore for n in ('free_mark_file', 'free_STM', 'PATH_free', 'PATH_print', 'reset_WTOKE_flag', 'fclose', 'dump_word_tokens2', 'dump_STM', 'fflush')})
    T.update({'fill_STM_structure': fill('stm', ('s', 'num')), 'fill_WTOKE_structure': fill('ctm', ('s', 'n')),
              'locate_WTOKE_boundary': bump_out('wbound', [4]), 'locate_STM_boundary': bump_out('sbound', [4]), SEG: seg})
    for n in ALIGN: T[n] = rec(n, ('sym', '!path', ()))
    T[WORD] = rec(WORD, ('sym', 'net', ()))
    for n in ('SCORES_get_grp', 'rsprintf', 'get_date', 'TEXT_strlen', 'TEXT_strdup', 'TEXT_strstr', 'TEXT_chrlen', 'TEXT_strCcasecmp', 'TEXT_strcasecmp'): T[n] = pure(n)
    T['WTOKE_STR1_init'] = lambda s, st, a, *r: ('sym', '!newctm', ())
    T['alloc_STM'] = lambda s, st, a, *r: ('sym', '!newstm', ())
    T['SCORES_init'] = lambda s, st, a, *r: ('sym', '!newscor', ())
    T['fopen'] = lambda s, st, a, *r: ('sym', '!file', ())
    return T


HYP, STM, SC = ('sym', '!newctm', ()), ('sym', '!newstm', ()), ('sym', '!newscor', ())
f = lambda t, n: ('init', ('fld', t, n), 0)
HS, HN, RS, RN = ('sym', 'ctm.s', ()), ('sym', 'ctm.n', ()), ('sym', 'stm.s', ()), ('sym', 'stm.num', ())
RN2 = ('init', ('fld', STM, 'num'), 0)      # the same number, read again inside a loop
sg = lambda i, n: f(('addr', ('elem', f(STM, 'seg'), i)), n)
wd = lambda i, n: f(('addr', ('elem', f(HYP, 'word'), i)), n)


def driver(c, prog):
    fn = c.fn(prog.get('align_ctm_to_stm_dp', 'stm2ctm.c'))
    P = {p['n']: ('init', ('v', 1, p['id'], p['n']), 0) for p in fn.params}
    nseg = set()
    for red in (0, 1):
        I = Rec(prog, table(prog), None, maxpaths=60000)
        st = I.start(fn)
        seed(I, st, prog, fn, {'feedback': C(0), 'reduce_ref': C(red), 'reduce_hyp': C(0), 'char_align': C(0) if red else P.get('char_align', C(0))})
        outs = I.run(st)
        segkey = {lkey(o) for o in outs if o.kind == 'back' and any(e[0] == 'call' and e[1] == 'segment' for e in since(o, lkey(o))) and not any(e[0] == 'loop' for e in since(o, lkey(o)))}
        top = {lkey(o) for o in outs if o.kind == 'back' and any(e[0] == 'call' and e[1] == 'stm' for e in since(o, lkey(o)))}
        c.need(segkey, 'the loop over the reference segments is not recognised')
        c.need(top, 'the loop over files and channels is not recognised')
        segments(c, prog, I, outs, segkey, P, red, nseg)
        if not red: channels(c, prog, I, outs, segkey, top)
    for x in ('scored', 'ignored', 'skipped'):
        if x not in nseg: c.bad('segments:' + x, where(fn, fn.line), 'no segment is %s' % x, rule='segments')


def ends(o):
    """end of the reference and of the hypothesis part given to the segments on this path"""
    r = [e for e in o.events if e[0] == 'call' and e[1] == 'sbound']
    return ('sym', 'sbound.0', tuple(x for j, x in enumerate(r[-1][2]) if j != 4)) if r else None


def segments(c, prog, I, outs, segkey, P, red, nseg):
    c.rule('segments', 'every segment from the first to the last of its channel gets the words cut for it, and is scored once under its own speaker, label, file, channel and times, unless its text says it is to be ignored '
           '(or, with -m ref, it was marked as out of range); the next segment starts with the word after them')
    for o in outs:
        if o.kind == 'stop': continue
        if o.kind != 'back' or lkey(o) not in segkey: continue
        k = lkey(o); L = lookup(o, k); ev = since(o, k); n0 = n_before(L)
        fn = o.fn; calls = [e for e in ev if e[0] == 'call']
        w = where(fn, next((e[3] for e in calls), fn.line))
        iv = [(loc, s) for loc, (p, s) in L[3].items() if strip(p) == strip(RS) and step(o, loc, s) == C(1)]
        if not iv: c.bad('segments:walk', w, 'the segments are not taken one by one from the first', condlist(o)); continue
        rs = iv[0][1]; rend = ends(o)
        flag = decide(I, o, '!=', sg(rs, 'flag1'), C(0), n0)
        seg = [e for e in calls if e[1] == 'segment']; score = [e for e in calls if e[1] == 'add_PATH_score']
        if red and flag is False:
            nseg.add('skipped'); c.ob('segment out of range')
            if score: c.bad('segments:skip', w, 'a segment marked as out of range is scored', condlist(o))
            if seg: c.bad('segments:skipwords', w, 'a segment marked as out of range takes words', condlist(o))
            continue
        if len(seg) != 1: c.bad('segments:cut', w, 'the words of a segment are cut %d times' % len(seg), condlist(o)); continue
        a = named(prog, SEG, seg[0][2])
        for nm, want in (('hyp_segs', HYP), ('stm', STM), ('rs', rs), ('r_end', rend)):
            if nm in a and not eq(a[nm], want): c.bad('segments:arg:' + nm, where(fn, seg[0][3]), 'the words of a segment are cut with %s = %s' % (nm, show(a[nm])), condlist(o))
        cur, end = a['curhyp'], a['curhend']
        if cur[0] != 'addr' or end[0] != 'addr' or cur[1] not in L[3] or end[1] not in L[3]: c.notes.append('word range is not kept in locals'); continue
        cur, end = cur[1], end[1]
        p, s = L[3][cur]; q, es = L[3][end]; cutv = ('sym', 'cut', ())
        # the word a segment starts with is kept in a variable, or is the one after those used
        starts = (s, add(es, C(1)))
        if not eq(p, HS) or not eq(o.st.env.get(cur, s), add(cutv, C(1))):
            if any(e[0] == 'call' and e[1] == WORD and strip(e[2][1]) == strip(s) for x in outs if lkey(x) == k for e in since(x, k)): c.bad('segments:next', w, 'after a segment the next one starts at %s, not with the word after it (the first: %s)' % (show(o.st.env.get(cur, s)), show(p)), condlist(o))
        if not eq(q, add(HS, C(-1))): c.bad('segments:firstend', w, 'before the first segment of a channel the words used end at %s' % show(q))
        if o.st.env.get(end) != cutv: c.bad('segments:end', w, 'the end of the words used is changed to %s' % show(o.st.env.get(end)), condlist(o))
        # ignored?
        ig = []
        for lit in LIT:
            for t in o.st.facts:
                if t[0] == 'call' and t[1] == 'TEXT_strstr' and strip(t[2][0]) == strip(sg(rs, 'text')) and t[2][1] == C(lit):
                    r = I.compare(o.st, '!=', t, C(0))
                    if r is not None: ig.append((lit, r))
        ignored = any(r for _, r in ig)
        if ignored:
            nseg.add('ignored'); c.ob('ignored segment')
            if score: c.bad('segments:ignored', w, 'a segment whose text says it is to be ignored is scored', condlist(o))
            continue
        nseg.add('scored'); c.ob('scored segment')
        if len(score) != 1:
            c.bad('segments:once', w, 'a segment is scored %d times' % len(score), condlist(o)); continue
        if {l for l, r in ig} != set(LIT): c.bad('segments:ignoretest', w, 'a segment is scored without looking for %s in its text' % (set(LIT) - {l for l, r in ig}), condlist(o))
        sc = score[0][2]; ln = where(fn, score[0][3])
        grp = ('call', 'SCORES_get_grp', (SC, sg(rs, 'spkr')), 0)
        if strip(sc[0]) != SC or strip(sc[2]) != strip(grp): c.bad('segments:spkr', ln, 'a segment is scored under %s, not under its own speaker' % show(sc[2]), condlist(o))
        if strip(sc[3]) != strip(P['keep_path']): c.bad('segments:keep', ln, 'a scored segment is kept if %s' % show(sc[3]))
        al = [e for e in calls if e[1] in ALIGN]; net = [e for e in calls if e[1] == WORD]
        if len(al) != 1 or len(net) != 1 or sc[1] != ('sym', '!path', ()): c.bad('segments:align', ln, 'what is scored is not the one alignment of the segment', condlist(o)); continue
        b = named(prog, al[0][1], al[0][2]); v = named(prog, WORD, net[0][2])
        al_w = where(fn, al[0][3])
        if strip(b['ref']) != strip(sg(rs, 'text')): c.bad('segments:ref', al_w, 'a segment is aligned with the reference %s' % show(b['ref']), condlist(o))
        if b['hnet'] != ('sym', 'net', ()) or b.get('hyp', C(0)) != C(0): c.bad('segments:hyp', al_w, 'a segment is aligned with %s' % show(b['hnet']), condlist(o))
        got = list(net[0][2])[:3]
        if not (strip(got[0]) == HYP and any(eq(got[1], x) for x in starts) and eq(got[2], cutv)): c.bad('segments:words', where(fn, net[0][3]), 'a segment is aligned with the words from %s to %s' % (show(got[1]), show(got[2])), condlist(o))
        for nm in ('case_sense', 'fcorr', 'opt_del', 'char_align', 'wwl', 'lm_file'):
            if nm in b and nm in P and strip(b[nm]) != strip(P[nm]) and not (nm == 'char_align' and red): c.bad('segments:opt:' + nm, al_w, 'the alignment gets %s as %s' % (show(b[nm]), nm), condlist(o))
        if 'time_align' in b and b['time_align'] != C(0): c.bad('segments:opt:time', al_w, 'words are aligned by time', condlist(o))
        alg = decide(I, o, '==', P['infer_word_seg'], C(ALIGN.index(al[0][1])))
        if alg is not True: c.bad('segments:algo', al_w, '%s is used for another word segmentation method' % al[0][1], condlist(o))
        ids = [t for t in subterms(b['id']) if t[0] == 'call' and t[1] == 'rsprintf']
        nsent = f(('addr', ('elem', f(SC, 'grp'), grp)), 'nsent')
        if not ids or {strip(x) for x in ids[0][2][1:]} != {strip(sg(rs, 'spkr')), strip(nsent)}:
            c.bad('segments:id', al_w, 'the id of the utterance is not made of its speaker and its number', condlist(o))
        for nm, fld in (('PATH_add_label', 'labels'), ('PATH_add_file', 'file'), ('PATH_add_channel', 'chan')):
            e = [x for x in calls if x[1] == nm]
            if len(e) != 1 or e[0][2][0] != ('sym', '!path', ()) or strip(e[0][2][1]) != strip(sg(rs, fld)): c.bad('segments:' + fld, ln, 'a scored segment does not carry its own %s' % fld, condlist(o))
        for nm in ('1', '2'):
            e = [x for x in ev if x[0] == 'set' and x[1] == ('fld', ('sym', '!path', ()), 'ref_t' + nm)]
            if len(e) != 1 or strip(e[0][2]) != strip(sg(rs, 't' + nm)): c.bad('segments:ref_t' + nm, ln, 'a scored segment does not carry its own time', condlist(o))
    # no segment left out at the end
    c.rule('all segments', 'the segments of a channel are left only after the last one')
    for o in outs:
        if o.kind == 'stop': continue
        for k in segkey:
            L = lookup(o, k)
            if not L or o.kind == 'back' and lkey(o) == k: continue
            if o.kind == 'ret' and o.value == C(0) and I.compare(o.st, '==', ('sym', 'net', ()), C(0)) is True: continue
            c.ob('end of a channel'); n0 = n_before(L)
            iv = [s for loc, (p, s) in L[3].items() if strip(p) == strip(RS)]
            r = ends(o)
            if not any(decide(I, o, '>=', s, RN, n0) is True or decide(I, o, '>=', s, RN2, n0) is True or r and decide(I, o, '>', s, r, n0) is True for s in iv):
                c.bad('all segments', where(o.fn, o.line), 'segments of a channel can be left unscored', condlist(o))


def channels(c, prog, I, outs, segkey, top):
    c.rule('channels', 'reference and hypothesis are read, the part of the next file and channel is located in both; it gets the hypothesis words of the same file and channel or none; both continue after their part, until both are used up; '
           'hypothesis words beyond the reference make the alignment fail')
    kinds = {}
    for o in outs:
        L = next((lookup(o, k) for k in top if lookup(o, k)), None)
        if not L: continue
        tk = (L[1], L[2]); ev = since(o, tk); n0 = n_before(L)
        calls = [e for e in ev if e[0] == 'call']
        names = [e[1] for e in calls if e[1] in ('stm', 'ctm', 'wbound', 'sbound')]
        if 'wbound' not in names or 'sbound' not in names: continue
        fn = prog.get('align_ctm_to_stm_dp', 'stm2ctm.c'); w = where(fn, o.line if o.fn is fn else fn.line)
        sb = [e for e in calls if e[1] == 'sbound'][-1]; wb = [e for e in calls if e[1] == 'wbound'][-1]
        if names.index('stm') > names.index('sbound') or names.index('ctm') > names.index('wbound'): c.bad('channels:read', w, 'a channel is located before the file is read')
        for e, x, s, nm in ((sb, STM, RS, 'reference'), (wb, HYP, HS, 'hypothesis')):
            if strip(e[2][0]) != x or not eq(e[2][1], s) or e[2][2] != C(1) or e[2][3] != C(1): c.bad('channels:bound:' + nm, w, 'the next part of the %s is not located by file and channel from the current position' % nm)
        full = ('sym', 'wbound.0', tuple(x for j, x in enumerate(wb[2]) if j != 4)); rend = ends(o)
        S = [lookup(o, k) for k in segkey if lookup(o, k)]
        none = decide(I, o, '>', HS, HN, n0)
        over = decide(I, o, '>', RS, RN, n0)
        same = {}
        for t in o.st.facts:
            if t[0] == 'strcmp':
                for x, y in (('conv', 'file'), ('turn', 'chan')):
                    if {strip(t[2]), strip(t[3])} == {strip(wd(HS, x)), strip(sg(RS, y))}: same[x] = I.compare(o.st, '==', t, C(0))
        kind = 'none' if none is True else 'over' if over is True and none is False else 'same' if same.get('conv') is True and same.get('turn') is True else 'other' if False in same.values() else None
        if S or o.kind in ('ret', 'back'):
            if not S and kind != 'over': c.ob('no segments'); continue
            if kind is None: c.bad('channels:kind', w, 'a channel is scored without comparing file and channel of reference and hypothesis', condlist(o)); continue
            kinds[kind] = kinds.get(kind, 0) + 1; c.ob('channel: ' + kind)
            if kind == 'over':
                if o.kind != 'ret' or o.value != C(0): c.bad('channels:over', w, 'hypothesis words beyond the end of the reference do not make the alignment fail', condlist(o))
                continue
            seg = [e for e in calls if e[1] == 'segment']
            he = None
            if seg:
                he = named(prog, SEG, seg[-1][2])['h_end']
                ok = {'same': eq(he, full), 'other': eq(he, add(HS, C(-1))), 'none': eq(he, full) or eq(he, add(HS, C(-1)))}[kind]
                if not ok: c.bad('channels:words:' + kind, w, {'same': 'a channel does not get all its hypothesis words', 'other': 'a channel without hypothesis words gets those of another channel', 'none': 'a channel without hypothesis words gets some'}[kind] + ' (up to %s)' % show(he), condlist(o))
            leaves = o.kind == 'back' and lkey(o) == tk or o.kind == 'ret' and o.value == SC
            if not leaves: continue
            hs, rs = o.st.env.get(('fld', HYP, 's')), o.st.env.get(('fld', STM, 's'))
            want = {'same': [add(full, C(1))], 'other': [HS], 'none': [HS, add(full, C(1))]}[kind]
            if not any(eq(hs, x) for x in want): c.bad('channels:nexthyp:' + kind, w, 'the hypothesis continues at %s' % show(hs), condlist(o))
            if not eq(rs, add(rend, C(1))): c.bad('channels:nextref', w, 'the reference continues at %s' % show(rs), condlist(o))
            left = decide(I, o, '<=', hs, HN, n0); more = decide(I, o, '<', rs, RN, n0)
            if more is None: more = decide(I, o, '<', rs, RN2, n0)
            c.ob('end of input' if o.kind == 'ret' else 'more input')
            if o.kind == 'ret' and not (left is False and more is False): c.bad('channels:end', w, 'the alignment can end although %s is left' % ('hypothesis' if left is not False else 'reference'), condlist(o))
            if o.kind == 'back' and not (left is True or more is True): c.bad('channels:more', w, 'the alignment goes on although nothing is left', condlist(o))
    for x in ('same', 'other', 'none', 'over'):
        if x not in kinds: c.bad('channels:no:' + x, 'src/sclite/stm2ctm.c', 'no path handles a channel that is: %s' % x)


# ------------------------------------------------------------------ the words of one segment
def cut(c, prog):
    c.rule('cut', 'the last segment of a channel takes all words left; any other takes one word after the other while its midpoint lies before the end of the segment, an alternation as a whole if the largest midpoint of its words does')
    fn = c.fn(prog.get(SEG, 'stm2ctm.c'))
    I = Rec(prog, {'TEXT_strcasecmp': pure('cmp'), 'TEXT_strCcasecmp': pure('ccmp')}, None, maxpaths=20000)
    st = I.start(fn)
    P = {p['n']: ('init', ('v', 1, p['id'], p['n']), 0) for p in fn.params}
    ce = ('v', 0, 'used', 'used')
    for p in fn.params:
        if p['n'] == 'curhend': st.env[('v', 1, p['id'], p['n'])] = ('addr', ce)
    st.env[ce] = ('init', ce, 0)
    outs = I.run(st)
    hyp, stm, rs, rend, hend = P['hyp_segs'], P['stm'], P['rs'], P['r_end'], P['h_end']
    W = lambda i, n: f(('addr', ('elem', f(hyp, 'word'), i)), n)
    t2 = f(('addr', ('elem', f(stm, 'seg'), rs)), 't2')
    mid = lambda i: add(W(i, 't1'), scale(W(i, 'dur'), 0.5))
    def midterm(i):
        m = mid(i)
        return norm(m)
    num = f(stm, 'num')
    seen = set()
    def lit(t, s): return t[0] == 'call' and s in t[2]
    # inner loops
    for o in outs:
        w = where(fn, o.line or fn.line)
        last = decide(I, o, '==', rs, rend) is True or decide(I, o, '==', rs, add(num, C(-1))) is True
        notlast = decide(I, o, '==', rs, rend) is False and decide(I, o, '==', rs, add(num, C(-1))) is False
        L = next((e for e in o.events if e[0] == 'loop'), None)
        if o.kind == 'ret' and not L:
            seen.add('last'); c.ob('last segment')
            if not last: c.bad('cut:last', w, 'a segment that is not the last takes its words without looking at times', condlist(o))
            if not eq(o.st.env.get(ce, ('init', ce, 0)), hend): c.bad('cut:rest', w, 'the last segment ends at word %s, not at the last of the channel' % show(o.st.env.get(ce, ('init', ce, 0))), condlist(o))
            continue
        if L and not notlast: c.bad('cut:notlast', w, 'the last segment may not take all words left', condlist(o))
        if not L or ce not in L[3]: continue
        outer = (L[1], L[2]); s = L[3][ce][1]; n0 = n_before(L)
        i = add(s, C(1))
        alt = decide(I, o, '!=', W(i, 'alternate'), C(0), n0)
        now = o.st.env.get(ce, s)
        inner = [e for e in o.events if e[0] == 'loop' and (e[1], e[2]) != outer]
        if o.kind == 'back' and lkey(o) == outer:
            if decide(I, o, '<=', i, hend, n0) is not True: c.bad('cut:range', w, 'words beyond the channel are looked at', condlist(o)); continue
            if alt is False:
                seen.add('plain'); c.ob('plain word')
                before = side(o, midterm(i), t2, n0)
                if eq(now, add(s, C(1))):
                    if before is not True: c.bad('cut:take', w, 'a word is taken although its midpoint was not found before the end of the segment', condlist(o))
                elif eq(now, s):
                    if before is not False: c.bad('cut:leave', w, 'a word is left although its midpoint was not found at or after the end of the segment', condlist(o))
                else: c.bad('cut:step', w, 'one word more makes %s' % show(now), condlist(o))
            elif alt is True:
                seen.add('alternation'); c.ob('alternation')
                m = [(l, x) for e in inner for l, (p, x) in e[3].items() if isnum(p) and p[1] == 0 and l != ce]
                dec = [r for l, x in m for r in [side(o, norm(x), t2, n0)] if r is not None]
                if not dec: c.bad('cut:alt', w, 'an alternation is taken or left without comparing a midpoint', condlist(o)); continue
                if dec[0] is False and not eq(now, s): c.bad('cut:altleave', w, 'an alternation is taken although its midpoint is not before the end', condlist(o))
                if dec[0] is True:
                    wl = [e for e in inner if ce in e[3]]
                    if not wl: c.bad('cut:alttake', w, 'an alternation is left although its midpoint is before the end', condlist(o)); continue
                    x = wl[-1][3][ce][1]
                    at = [t for t in o.st.facts if t[0] == 'call' and t[1] == 'cmp' and any(strip(y) == strip(W(add(x, C(1)), 'sp')) for y in t[2]) and lit(t, C('<ALT_END>')) and I.compare(o.st, '==', t, C(0)) is True]
                    if eq(now, add(x, C(1))) and at: pass
                    elif decide(I, o, '>', x, hend, n0) is True: pass
                    else: c.bad('cut:altend', w, 'an alternation is not taken up to its end (%s)' % show(now), condlist(o))
            else: c.bad('cut:unknown', w, 'words are taken without looking whether they are part of an alternation', condlist(o))
        elif o.kind == 'back':
            k = lkey(o); M = lookup(o, k)
            if ce in M[3]:
                x = M[3][ce][1]; c.ob('walk to the end of an alternation')
                if not eq(now, add(x, C(1))): c.bad('cut:altwalk', w, 'the walk over an alternation goes to %s' % show(now), condlist(o))
                at = [t for t in o.st.facts if t[0] == 'call' and t[1] == 'cmp' and any(strip(y) == strip(W(add(x, C(1)), 'sp')) for y in t[2]) and lit(t, C('<ALT_END>')) and I.compare(o.st, '==', t, C(0)) is False]
                if not at: c.bad('cut:altwalkend', w, 'the walk over an alternation does not look for its end', condlist(o))
            else:
                iv = [(l, p, x) for l, (p, x) in M[3].items() if eq(p, i) and eq(step(o, l, x), C(1))]
                m = [(l, x) for l, (p, x) in M[3].items() if isnum(p) and p[1] == 0]
                if not iv or not m: c.bad('cut:altmid', w, 'not every word of an alternation is looked at', condlist(o)); continue
                ch = iv[0][2]; l, x = m[0]; v = o.st.env.get(l, x); c.ob('midpoint of a word of an alternation')
                mark = [I.compare(o.st, '==', t, C(0)) for t in o.st.facts if t[0] == 'call' and t[1] == 'ccmp' and any(strip(y) == strip(W(ch, 'sp')) for y in t[2]) and lit(t, C('<ALT'))]
                if True in mark:
                    if v != x: c.bad('cut:altmark', w, 'the time of an alternation mark counts', condlist(o))
                else:
                    bigger = side(o, midterm(ch), x, 0)
                    if v != x and norm(v) != midterm(ch): c.bad('cut:altmax', w, 'the midpoint of an alternation becomes %s' % show(v), condlist(o))
                    elif v == x and bigger is not True and bigger is not None or v == x and le(o, midterm(ch), x) is not True: c.bad('cut:altmax', w, 'a larger midpoint in an alternation is not taken', condlist(o))
                    elif v != x and le(o, midterm(ch), x) is not False: c.bad('cut:altmax', w, 'a smaller midpoint in an alternation replaces a larger one', condlist(o))
        elif o.kind == 'ret':
            c.ob('end of a segment')
            if decide(I, o, '>', i, hend, n0) is True: continue
            fl = [(l, x) for l, (p, x) in L[3].items() if isnum(p) and l[0] == 'v' and decide(I, o, '==', x, p, n0) is False]
            b = side(o, midterm(i), t2, n0)
            if not fl and b is not False and not (alt is True): c.bad('cut:stop', w, 'a segment can stop taking words before one lies after its end', condlist(o))
            # a stop flag must only be raised together with leaving the word
            for b2 in outs:
                if b2.kind == 'back' and lkey(b2) == outer:
                    L2 = lookup(b2, outer)
                    for l, x in fl:
                        if l in L2[3] and b2.st.env.get(l, L2[3][l][1]) != L2[3][l][1] and not eq(b2.st.env.get(ce, L2[3][ce][1]), L2[3][ce][1]):
                            c.bad('cut:flag', w, 'taking a word ends the segment', condlist(b2))
    for x in ('last', 'plain', 'alternation'):
        if x not in seen: c.bad('cut:no:' + x, where(fn, fn.line), 'no path handles: ' + x)


def side(o, m, t, n0):
    """is the quantity m (normal form) known to lie before (<) t?"""
    r = le_lt(o, m, t, n0)
    return r[0]


def le(o, m, t):
    return le_lt(o, m, t, 0)[1]


def le_lt(o, m, t, n0):
    td, tk = norm(t)
    d = dict(m[0]); k = m[1] - tk
    for x, q in td.items(): d[x] = d.get(x, 0) - q
    d = {x: q for x, q in d.items() if q}
    lt = le = None
    for op, e, j in conds(o, n0):
        if e == d and j == k: pass
        elif e == {x: -q for x, q in d.items()} and j == -k: op = FLIP[op]
        else: continue
        if op == '<': lt = True; le = True
        elif op == '>=': lt = False
        elif op == '<=': le = True
        elif op == '>': le = False; lt = False
    return lt, le


# ------------------------------------------------------------------ the part of a file and channel
def stm_bound(c, prog):
    c.rule('part', 'the part of a file and channel reaches up to the one before the first entry whose file or channel differs')
    fn = c.fn(prog.get('locate_STM_boundary', 'stm.c'))
    part(c, prog, fn, 'seg', 'num', ('file', 'chan'), last=False)


def word_bound(c, prog):
    fn = c.fn(prog.get('locate_WTOKE_boundary', 'fillmrks.c'))
    part(c, prog, fn, 'word', 'n', ('conv', 'turn'), last=True)


def part(c, prog, fn, arr, cnt, flds, last):
    I = Rec(prog, {}, None)
    st = I.start(fn)
    seg, start = param(fn, 1, 0), param(fn, 1, 1)
    for i in (2, 3): st.env[('v', 1, fn.params[i]['id'], fn.params[i]['n'])] = C(1)
    out = ('v', 0, 'end', 'end')
    st.env[('v', 1, fn.params[4]['id'], fn.params[4]['n'])] = ('addr', out)
    F = lambda i, x: f(('addr', ('elem', f(seg, arr), i)), x)
    n = f(seg, cnt); nm = fn.qn
    nb = 0
    outs = I.run(st)
    # a found end may be kept in a variable that starts with an impossible position
    for o in outs:
        w = where(fn, o.line or fn.line)
        L = next((e for e in o.events if e[0] == 'loop'), None)
        if o.kind == 'ret':
            c.ob(nm + ': end'); v = o.st.env.get(out)
            if v is None: c.bad('part:%s:unset' % nm, w, 'no end is given', condlist(o)); continue
            if not L:
                empty = decide(I, o, '>=', start, n) is True or decide(I, o, '==', start, n) is True
                if not empty or not any(eq(v, x) for x in (start, n)): c.bad('part:%s:early' % nm, w, 'the part is said to end at %s without looking at the entries' % show(v), condlist(o))
                continue
            n0 = n_before(L)
            iv = [(l, x) for l, (p, x) in L[3].items() if eq(p, start)]
            past = any(decide(I, o, '>' if last else '>=', x, n, n0) is True for l, x in iv)
            lim = [(l, p, x) for l, (p, x) in L[3].items() if isnum(p)]
            found = any(decide(I, o, '!=', x, p, n0) is True for l, p, x in lim)
            diffs = [t for t in o.st.facts if t[0] == 'strcmp' and any({strip(t[2]), strip(t[3])} == {strip(F(start, y)), strip(F(x, y))} for y in flds for l, x in iv) and I.compare(o.st, '!=', t, C(0)) is True]
            ok = past and not found and eq(v, n) or found and any(v == x for l, p, x in lim) or any(eq(v, add(x, C(-1))) and (diffs or past and last) for l, x in iv)
            if not ok: c.bad('part:%s:end' % nm, w, 'the part is said to end at %s' % show(v), condlist(o))
        elif o.kind == 'back':
            iv = [(l, x) for l, (p, x) in L[3].items() if eq(p, start) and eq(step(o, l, x), C(1))]
            if not iv: c.bad('part:%s:step' % nm, w, 'the entries are not compared one by one', condlist(o)); continue
            x = iv[0][1]; nb += 1; c.ob(nm + ': one entry'); n0 = n_before(L)
            if decide(I, o, '<=' if last else '<', x, n, n0) is not True: c.bad('part:%s:range' % nm, w, 'entries beyond the last are looked at', condlist(o))
            same = {}
            for t in o.st.facts:
                if t[0] == 'strcmp':
                    for y in flds:
                        if {strip(t[2]), strip(t[3])} == {strip(F(start, y)), strip(F(x, y))}: same[y] = I.compare(o.st, '==', t, C(0))
            eqs = all(same.get(y) is True for y in flds)
            if not eqs and not any(isnum(p) for p, s in L[3].values()): c.bad('part:%s:same' % nm, w, 'an entry counts as part of the channel although its file or channel was not compared equal', condlist(o))
            for l, (p, s) in L[3].items():
                if not isnum(p): continue
                v = o.st.env.get(l, s)
                if v == s:
                    if not eqs: c.bad('part:%s:same' % nm, w, 'an entry counts as part of the channel although its file or channel was not compared equal', condlist(o))
                elif eq(v, add(x, C(-1))):
                    if eqs or False not in same.values(): c.bad('part:%s:differs' % nm, w, 'an entry of the same file and channel ends the part', condlist(o))
                elif isnum(v) is False: c.bad('part:%s:limit' % nm, w, 'the part ends at %s' % show(v), condlist(o))
    if not nb: c.notes.append('the loop of %s is not recognised' % nm)


def load(c, prog):
    c.rule('whole file', 'reading goes on until another file begins or the input ends, so that all entries of a file are there')
    for name, arr, cnt, bound, more in (('fill_STM_structure', 'seg', 'num', 'locate_STM_boundary', 'fill_STM'), ('fill_WTOKE_structure', 'word', 'n', 'locate_WTOKE_boundary', 'fill_mark_struct')):
        fn = c.fn(prog.get(name))
        def fillh(s, st, args, node, line, caller):
            s.event(st, ('call', 'more', tuple(args), line, caller))
            s.write(st, ('fld', args[1], cnt), ('sym', 'newcnt', ())); s.write(st, ('fld', args[1], 's'), ('sym', 'news', ()))
            for a in args[3:5]:
                if a[0] == 'addr' or a[0] == 'init':
                    l = a[1] if a[0] == 'addr' else s.mkelem(a, C(0))
                    s.write(st, l, ('sym', 'neweof', ()))
            if len(args) > 5:
                for a in args[3:]:
                    if a[0] == 'addr' and a[1][0] in ('v', 'g'): s.write(st, a[1], ('sym', 'new:%s' % a[1][-1], ()))
            return C(0)
        T = {bound: bump_out('bound', [4]), more: fillh, 'expand_STM': ignore, 'feof': pure('feof')}
        I = Rec(prog, T, None)
        n = 0
        for o in I.run(I.start(fn)):
            if o.kind != 'ret' or not any(e[0] == 'loop' for e in o.events): continue
            n += 1; c.ob(name + ' returns')
            b = [e for e in o.events if e[0] == 'call' and e[1] == 'bound']
            m = [i for i, e in enumerate(o.events) if e[0] == 'call' and e[1] == 'more']
            if not b: c.bad('whole:%s:bound' % name, where(fn, o.line), 'the end of the file is not looked for', condlist(o)); continue
            if m and m[-1] > o.events.index(b[-1]): c.bad('whole:%s:order' % name, where(fn, o.line), 'after reading, the end of the file is not looked for again', condlist(o)); continue
            e = b[-1]
            x = ('sym', 'bound.0', tuple(y for j, y in enumerate(e[2]) if j != 4))
            if e[2][2] != C(1) or e[2][3] != C(0): c.bad('whole:%s:by' % name, where(fn, e[3]), 'the end of the file is not looked for by file alone', condlist(o))
            if not eq(e[2][1], f(e[2][0], 's')): c.bad('whole:%s:from' % name, where(fn, e[3]), 'the end of the file is not looked for from the current entry', condlist(o))
            end = decide(I, o, '==', x, f(e[2][0], cnt))
            eof = any(I.compare(o.st, '!=', t, C(0)) is True for t in o.st.facts if t[0] == 'call' or t[0] == 'sym' and t[1].startswith('new') and t[1] not in ('newcnt', 'news') or t[0] == 'init' and t[1][0] != 'v' and not any(y[0] == 'fld' for y in subterms(t)))
            if end is not False and not eof: c.bad('whole:%s' % name, where(fn, o.line), 'reading can end inside a file', condlist(o))
        c.need(n, '%s does not return' % name)


def reduce_(c, prog):
    c.rule('reduce', 'with -m ref exactly the segments that end before the first or begin after the last hypothesis word of the channel are left out, with -m hyp exactly the words that end before the first or begin after the last scored segment; an alternation is left out only as a whole')
    fns = [fn for fn in prog.all() if fn.rel().endswith('stm2ctm.c') and any(i[0] == 'set' and i[1][0] == 'fld' and i[1][2] == 'flag1' for b in ir.cfg(fn).blocks for i in b.ins)]
    if len(fns) != 1 or not {'hyp_segs', 'stm', 'h_st', 'h_end', 'r_st', 'r_end', 'reduce_ref', 'reduce_hyp'} <= {p['n'] for p in fns[0].params}:
        c.notes.append('the function marking segments and words is not recognised'); return
    fn = c.fn(fns[0])
    P = {p['n']: ('init', ('v', 1, p['id'], p['n']), 0) for p in fn.params}
    hyp, stm, hs, he, rs_, re_ = (P[x] for x in ('hyp_segs', 'stm', 'h_st', 'h_end', 'r_st', 'r_end'))
    G = lambda i, n: f(('addr', ('elem', f(stm, 'seg'), i)), n)
    W = lambda i, n: f(('addr', ('elem', f(hyp, 'word'), i)), n)
    T = table(prog); T[SEG] = lambda *a: 'dead'
    T['TEXT_strcasecmp'] = pure('cmp'); T['TEXT_strCcasecmp'] = pure('ccmp')
    seen = set()
    def cmpq(I, o, a, op, b, n0=0): return holds(o, op, a, b, n0, integer=False)
    for rr, rh in ((1, 0), (0, 1)):
        I = Rec(prog, T, None, maxpaths=40000)
        st = I.start(fn)
        seed(I, st, prog, fn, {'feedback': C(0), 'reduce_ref': C(rr), 'reduce_hyp': C(rh)})
        outs = I.run(st)
        backs = [o for o in outs if o.kind == 'back']
        keys = {}
        for o in backs: keys.setdefault(lkey(o), []).append(o)
        own = lambda o, k: [e for e in since(o, k) if e[0] == 'set']
        marks = {'flag1': 0, 'ignore': 0}
        for k, l in keys.items():
            sets = [e for o in l for e in own(o, k) if not any(x[0] == 'loop' for x in since(o, k))]
            fl = {e[1][2] for e in sets if e[1][0] == 'fld'}
            if 'flag1' in fl:
                zero = any(e[2] == C(0) for e in sets)
                for o in l:
                    L = lookup(o, k); n0 = n_before(L); w = where(fn, o.line or fn.line)
                    iv = [x for loc, (p, x) in L[3].items() if eq(p, rs_) and eq(step(o, loc, x), C(1))]
                    if not iv or decide(I, o, '<=', iv[0], re_, n0) is not True or decide(I, o, '<', iv[0], f(stm, 'num'), n0) is not True: c.bad('reduce:segs', w, 'not exactly the segments of the channel are marked', condlist(o)); continue
                    x = iv[0]
                    e = [e for e in own(o, k) if e[1] == ('fld', ('addr', ('elem', e[1][1][1][1], x)), 'flag1')] if own(o, k) else []
                    e = [e for e in own(o, k) if e[1][2] == 'flag1']
                    if e and strip(e[-1][1]) != strip(('fld', ('addr', ('elem', f(stm, 'seg'), x)), 'flag1')): c.bad('reduce:which', w, 'another segment is marked', condlist(o)); continue
                    if not zero:
                        marks['flag1'] += 1; c.ob('segment starts as in range')
                        if not e or e[-1][2] != C(1): c.bad('reduce:init', w, 'a segment does not start as in range', condlist(o))
                        continue
                    seen.add('ref'); c.ob('segment in or out of range')
                    some = decide(I, o, '>=', he, hs, n0)
                    early = cmpq(I, o, W(hs, 't1'), '>=', G(x, 't2'), n0); late = cmpq(I, o, add(W(he, 't1'), W(he, 'dur')), '<=', G(x, 't1'), n0)
                    if e and e[-1][2] == C(0):
                        if not (some is True and (early is True or late is True)): c.bad('reduce:out', w, 'a segment is marked as out of range although it was not found before the first or after the last word', condlist(o))
                    elif not e:
                        if not (some is False or early is False and late is False): c.bad('reduce:in', w, 'a segment is kept in range although it may lie before the first or after the last word', condlist(o))
            if 'ignore' in fl and rh:
                for o in l:
                    L = lookup(o, k); n0 = n_before(L); w = where(fn, o.line or fn.line)
                    e = [e for e in own(o, k) if e[1][2] == 'ignore']
                    if any(x[0] == 'loop' for x in since(o, k)): continue
                    first = [x for loc, (p, x) in L[3].items() if eq(p, hs) and eq(step(o, loc, x), C(1))]
                    if first:
                        x = first[0]
                        if decide(I, o, '<=', x, he, n0) is not True: c.bad('reduce:words', w, 'words of another channel are marked', condlist(o))
                        mark = [I.compare(o.st, '==', t, C(0)) for t in o.st.facts if t[0] == 'call' and t[1] == 'ccmp' and C('<ALT') in t[2] and any(strip(y) == strip(W(x, 'sp')) for y in t[2])]
                        if True in mark:
                            if e: c.bad('reduce:alt', w, 'an alternation mark is marked by its time', condlist(o))
                            continue
                        seen.add('hyp'); c.ob('word in or out of range')
                        bt, et = limits(o, stm, rs_)
                        if bt is None or et is None: c.bad('reduce:span', w, 'the span of the scored segments is not their smallest begin and largest end time', condlist(o)); continue
                        late = cmpq(I, o, W(x, 't1'), '>', et, n0); early = cmpq(I, o, add(W(x, 't1'), W(x, 'dur')), '<', bt, n0)
                        if e:
                            if e[-1][2] == C(0) or strip(e[-1][1]) != strip(('fld', ('addr', ('elem', f(hyp, 'word'), x)), 'ignore')) or not (late is True or early is True): c.bad('reduce:wout', w, 'a word is left out although it was not found outside the scored segments', condlist(o))
                        elif not (late is False and early is False): c.bad('reduce:win', w, 'a word is kept although it may lie outside the scored segments', condlist(o))
                    else:
                        c.ob('word of an alternation'); seen.add('alt')
                        us = [y for ev in o.events if ev[0] == 'loop' for loc, (p, y) in ev[3].items() if p == C(0)]
                        d = [holds(o, '>', y, C(0)) for y in us]
                        for ev in e:
                            v = ev[2]
                            if v[0] == 'ite':
                                cc = v[1]
                                good = cc[0] == 'cmp' and any(diff(cc[2], cc[3]) == diff(y, C(0)) for y in us) and cc[1] in ('>', '!=') and v[2] == C(0) and v[3] != C(0)
                            else: good = v == C(0) and True in d or v != C(0) and False in d
                            if not good: c.bad('reduce:alts', w, 'a word of an alternation is marked as %s' % show(v), condlist(o))
        walked(c, I, fn, outs, keys, rs_, re_, f(stm, 'num'), hs, he)
        if rh: span(c, I, fn, keys, own, rs_, G)
        if not marks['flag1']: c.bad('reduce:noinit', where(fn, fn.line), 'segments do not start as in range')
        if rh:
            for o in backs:     # counting the usable words of an alternation
                k = lkey(o); L = lookup(o, k)
                if own(o, k): continue
                cnt = [(loc, x) for loc, (p, x) in L[3].items() if p == C(0)]
                iv = [x for loc, (p, x) in L[3].items() if p[0] == 'sym' and eq(step(o, loc, x), C(1)) and not any(e[0] == 'loop' for e in since(o, k))]
                if not cnt or not iv: continue
                x = iv[0]
                ign = decide(I, o, '!=', W(x, 'ignore'), C(0))
                mark = [I.compare(o.st, '==', t, C(0)) for t in o.st.facts if t[0] == 'call' and t[1] == 'ccmp' and C('<ALT') in t[2] and any(strip(y) == strip(W(x, 'sp')) for y in t[2])]
                up = any(eq(step(o, loc, y), C(1)) for loc, y in cnt if loc[0] == 'v' and y != x)
                if not mark and ign is None: continue
                c.ob('usable word of an alternation')
                if up != (False in mark and ign is False): c.bad('reduce:usable', where(fn, fn.line), 'usable words of an alternation are miscounted', condlist(o))
    for x in ('ref', 'hyp', 'alt'):
        if x not in seen: c.notes.append('no loop recognised for the reduction of: ' + x)


def walked(c, I, fn, outs, keys, rs_, re_, num, hs, he):
    """the loops that mark or measure are left only after the last segment or word"""
    for k, l in keys.items():
        if any(e[0] == 'loop' for o in l for e in since(o, k)): continue
        L0 = lookup(l[0], k)
        what = None
        for loc, (p, x) in L0[3].items():
            if all(eq(step(o, loc, lookup(o, k)[3][loc][1]), C(1)) for o in l if loc in lookup(o, k)[3]):
                if eq(p, rs_): what = (loc, 's')
                elif eq(p, hs): what = (loc, 'w')
        if not what: continue
        for o in outs:
            L = lookup(o, k)
            if o.kind == 'stop' or not L or o.kind == 'back' and lkey(o) == k or what[0] not in L[3]: continue
            x = L[3][what[0]][1]; n0 = n_before(L); c.ob('end of a marking loop')
            ok = decide(I, o, '>', x, re_, n0) is True or decide(I, o, '>=', x, num, n0) is True if what[1] == 's' else decide(I, o, '>', x, he, n0) is True
            if not ok: c.bad('reduce:all:' + what[1], where(fn, fn.line), 'not all %s of the channel are looked at' % ('segments' if what[1] == 's' else 'words'), condlist(o)); break


def span(c, I, fn, keys, own, rs_, G):
    """the span of the scored segments: smallest begin, largest end"""
    n = 0
    for k, l in keys.items():
        for o in l:
            L = lookup(o, k); n0 = n_before(L)
            lim = {}
            for loc, (p, x) in L[3].items():
                if isnum(p) and p[1] >= 999999: lim['min'] = (loc, x)
                if isnum(p) and p[1] <= -999: lim['max'] = (loc, x)
            iv = [x for loc, (p, x) in L[3].items() if eq(p, rs_) and eq(step(o, loc, x), C(1))]
            if not lim or not iv: continue
            x = iv[0]; n += 1; c.ob('span of the scored segments')
            inr = decide(I, o, '!=', G(x, 'flag1'), C(0), n0)
            for m, (loc, s) in lim.items():
                t = G(x, 't1' if m == 'min' else 't2'); v = o.st.env.get(loc, s)
                ops = ('>', '>=') if m == 'min' else ('<', '<=')
                if eq(v, s):
                    if inr is False or holds(o, ops[0], s, t, n0, integer=False) is False: continue
                elif eq(v, t):
                    if inr is True and (holds(o, ops[0], s, t, n0, integer=False) is True or holds(o, ops[1], s, t, n0, integer=False) is True): continue
                elif v[0] == 'ite':
                    cc = v[1]
                    if inr is True and cc[0] == 'cmp' and {strip(v[2]), strip(v[3])} == {strip(s), strip(t)}: continue
                c.bad('reduce:span:' + m, where(fn, fn.line), 'the %s time of the scored segments is taken as %s' % ('begin' if m == 'min' else 'end', show(v)), condlist(o))
    if not n: c.notes.append('the loop measuring the scored segments is not recognised')


def limits(o, stm, rs_):
    """symbols for the smallest begin and the largest end time, from the loop that measured them"""
    bt = et = None
    for e in o.events:
        if e[0] != 'loop': continue
        for loc, (p, x) in e[3].items():
            if isnum(p) and p[1] >= 999999: bt = x
            if isnum(p) and p[1] <= -999: et = x
    return bt, et
