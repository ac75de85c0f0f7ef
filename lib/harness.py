"""Common driver of all checks: collects obligations, reports, writes evidence, decides the exit status."""
import os, sys, json, time, traceback
sys.setrecursionlimit(20000)
import facts
from facts import AnalysisError, VERIF, REPO

KNOWN = os.path.join(VERIF, 'known-findings.txt')


def load_known(pid):
    """lines: 'known: property=<id> key=<key> :: text'  /  'fixed: property=<id> <commit> text'"""
    res = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding='utf8'):
            l = l.strip()
            if not l.startswith('known:'):
                continue
            head, _, text = l[6:].partition('::')
            d = dict(x.split('=', 1) for x in head.split() if '=' in x)
            if d.get('property') == pid:
                res[d['key']] = text.strip()
    return res


class Ctx:
    def __init__(s, pid, tier):
        s.pid = pid; s.tier = tier; s.thorough = tier == 'thorough'
        s.viol = []; s.obl = 0; s.groups = {}; s.rules = {}; s.funcs = set(); s.assume = []; s.progs = {}
        s.t0 = time.time(); s.notes = []; s.samples = {}; s.undecided = []; s.ready = False

    def prog(s, group):
        if group not in s.progs:
            s.ready = False
            s.progs[group] = facts.get_program(group)
            s.ready = True
        return s.progs[group]

    def part(s, f, *args):
        """one group of rules: if its subject is not recognised it abstains (reported as undecided), the others go on"""
        try: return f(*args)
        except AnalysisError as e:
            if not s.ready: raise
            s.undecided.append('%s: %s' % (f.__name__, e))
        except Exception:
            s.undecided.append('%s: %s' % (f.__name__, traceback.format_exc().strip().split('\n')[-1]))
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()

    def perl(s, path):
        import perlfacts
        return perlfacts.load(path)

    def rule(s, name, text):
        s.rules.setdefault(name, {'rule': text, 'obligations': 0, 'violations': 0})
        s.cur = name

    def ob(s, what=None, n=1, rule=None):
        """one obligation examined (and, unless bad() is called for it, discharged)"""
        s.obl += n
        r = s.rules[rule or s.cur]; r['obligations'] += n
        if what is not None:
            l = s.samples.setdefault(rule or s.cur, [])
            if len(l) < 400:
                l.append(str(what))

    def fn(s, f):
        if f is not None:
            s.funcs.add('%s:%s' % (f.rel(), f.qn))
        return f

    def bad(s, key, where, msg, path=None, rule=None):
        """violation: key identifies the construct (stable under line moves)"""
        if any(v['key'] == key for v in s.viol):
            return
        s.viol.append({'key': key, 'where': where, 'msg': msg, 'path': path or [], 'rule': rule or getattr(s, 'cur', None)})
        r = s.rules.get(rule or getattr(s, 'cur', None))
        if r:
            r['violations'] += 1

    def need(s, cond, msg):
        if not cond:
            raise AnalysisError(msg)

    def floor(s, rule, n):
        """a rule that matched fewer places than it must is a broken analysis, not a pass"""
        got = s.rules.get(rule, {}).get('obligations', 0)
        if got < n:
            raise AnalysisError('rule %s examined only %d places (expected at least %d): the analysis no longer finds its subject' % (rule, got, n))


def main(pid, check, level='other', argv=None):
    argv = argv if argv is not None else sys.argv[1:]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    c = Ctx(pid, tier)
    status = 0; err = None
    try:
        c.part(check, c)
        if c.obl == 0:
            c.undecided.append('nothing was examined')
    except AnalysisError as e:
        status = 2; err = str(e)            # the sources could not be read
    except Exception as e:
        status = 2; err = 'internal error: ' + traceback.format_exc()
    known = load_known(pid)
    new = [v for v in c.viol if v['key'] not in known]
    old = [v for v in c.viol if v['key'] in known]
    if new:
        status = 1      # a definite violation stands even if another part of the analysis gave up
    evd = os.path.join(VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': level,
        'coverage': {
            'explanation': 'Static analysis of the current sources in %s; every obligation below was decided from the parsed source. No code under analysis was run.' % REPO,
            'obligations': c.obl, 'discharged': c.obl - len(c.viol), 'functions_analysed': len(c.funcs), 'functions': sorted(c.funcs)[:400],
            'rules': c.rules, 'samples': ['%s: %s' % (k, x) for k, l in c.samples.items() for x in l], 'notes': c.notes, 'undecided': c.undecided, 'analysis_error': err,
        },
        'assumptions': c.assume, 'violations': len(new), 'wall_s': round(time.time() - c.t0, 3),
        'known_findings': [v['key'] for v in old],
    }
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for v in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, v['key'], known[v['key']] or v['msg']))
    if err:
        print('ANALYSIS-ERROR property=%s %s' % (pid, err), file=sys.stderr)
    for u in c.undecided:
        print('UNDECIDED: property=%s %s' % (pid, u))
    if new:
        rp = os.path.join(evd, pid + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1, default=str)
        for v in new:
            print('%s: [%s] %s: %s' % (pid, v['rule'], v['where'], v['msg']))
            for p in v['path'][:30]:
                print('      ' + str(p))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    elif status == 0:
        print('OK property=%s obligations=%d functions=%d (%.1fs)' % (pid, c.obl, len(c.funcs), time.time() - c.t0))
    return status
