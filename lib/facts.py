"""Front end: runs the clang-based extractor over /repo's current sources and loads the facts.

Nothing from /repo is executed.  A source that no longer type-checks raises AnalysisError (exit 2)."""
import os, sys, json, glob, subprocess, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.path.join(VERIF, 'build')
RES = '/usr/lib/llvm-18/lib/clang/18'


class AnalysisError(Exception):
    pass


def build_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d.tmp' % os.getpid()
    cxx = '/usr/lib/llvm-18/bin/clang++'
    if not os.path.exists(cxx):
        cxx = 'g++'
    cmd = [cxx, '-std=c++17', '-O1', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise AnalysisError('cannot build the extractor:\n' + p.stdout[-2000:])
    os.rename(tmp, exe)
    return exe


C89 = ['-x', 'c', '-std=gnu89', '-w', '-resource-dir', RES, '-I.']
GROUPS = {
    'sclite': ('sclite', '*.c', C89 + ['-DDIFF_EXE="diff"', '-DWITH_SLM', '-DHAVE_LIBM=1', '-DSTDC_HEADERS=1', '-DHAVE_UNISTD_H=1']),
    'slm': ('sclite/slm_v2/src', '*.c', C89),
    'rfilter1': ('rfilter1', '*.c', C89 + ['-DNEED_STRCMP=1']),
    'asclite': ('asclite/core', '*.cpp', ['-x', 'c++', '-std=gnu++17', '-w', '-resource-dir', RES, '-I.']),
}
# sources present in the directories that no makefile compiles
SKIP = {'sclite': set(), 'slm': set(), 'rfilter1': set(), 'asclite': set()}


def _run(exe, cwd, files, flags):
    p = subprocess.run([exe, SRC] + files + ['--'] + flags, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        err = '\n'.join(l for l in p.stderr.decode('utf8', 'replace').split('\n') if 'error' in l)[:1500]
        raise AnalysisError('source does not type-check in %s: %s' % (cwd, err or p.returncode))
    return [json.loads(l) for l in p.stdout.decode('utf8').split('\n') if l.strip()]


class Func:
    def __init__(s, d, tu, group):
        s.d = d; s.name = d['n']; s.qn = d['qn']; s.file = d['file']; s.line = d['l']; s.endline = d['el']
        s.params = d['params']; s.body = d['body']; s.tu = tu; s.group = group
        s.static = d.get('static', False); s.cls = d.get('cls'); s.id = d['id']
        s.types = tu['types']; s.over = d.get('over', [])
        s.inits = d.get('inits', []); s.is_ctor = d.get('ctor', False); s.is_dtor = d.get('dtor', False)

    def rel(s):
        return os.path.relpath(s.file, REPO)

    def type(s, i):
        return s.types[i] if isinstance(i, int) and i >= 0 else ''

    def __repr__(s):
        return '<%s %s:%d>' % (s.qn, s.rel(), s.line)


class Program:
    """All functions of one group of translation units."""
    def __init__(s, group):
        s.group = group
        exe = build_tool()
        sub, pat, flags = GROUPS[group]
        cwd = os.path.join(SRC, sub)
        files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(cwd, pat)) if os.path.basename(f) not in SKIP[group])
        if not files:
            raise AnalysisError('no sources in ' + cwd)
        n = 8
        # biggest first, round robin
        files.sort(key=lambda f: -os.path.getsize(os.path.join(cwd, f)))
        chunks = [files[i::n] for i in range(n) if files[i::n]]
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda c: _run(exe, cwd, [os.path.join(cwd, f) for f in c], flags), chunks))
        s.tus = sorted((t for r in res for t in r), key=lambda t: t['tu'])
        s.index()

    def index(s):
        group = s.group
        s.funcs = {}      # qn -> [Func]
        s.byfile = {}
        s.recs = {}
        s.globs = {}
        s.tufuncs = {}    # tu -> {decl id: Func}
        seen = set()
        for tu in s.tus:
            m = s.tufuncs.setdefault(tu['tu'], {})
            for d in tu['fns']:
                f = Func(d, tu, group)
                m[d['id']] = f
                key = (f.qn, f.file, f.line)
                if key in seen:
                    continue
                seen.add(key)
                s.funcs.setdefault(f.qn, []).append(f)
                s.byfile.setdefault(os.path.basename(f.file), []).append(f)
            for r in tu['recs']:
                k = r['n']
                if k not in s.recs:
                    r = dict(r); r['types'] = tu['types']
                    s.recs[k] = r
                    if r['tag'] and r['tag'] not in s.recs:
                        s.recs[r['tag']] = r
            for g in tu['globs']:
                k = g['qn'] if not g['static'] else (g['qn'], g['file'])
                if k not in s.globs or (g['def'] and 'init' in g):
                    g = dict(g); g['types'] = tu['types']
                    s.globs[k] = g
        s.nfuncs = len(seen)

    def all(s):
        for l in s.funcs.values():
            for f in l:
                yield f

    def get(s, qn, file=None, required=True):
        l = [f for f in s.funcs.get(qn, []) if file is None or os.path.basename(f.file) == file]
        if not l:
            if required:
                raise AnalysisError('function %s%s not found: the anchor of this property is gone' % (qn, ' in ' + file if file else ''))
            return None
        return l[0]

    def resolve(s, fn, caller):
        """Definition a direct call to qualified name fn in caller refers to, or None."""
        l = s.funcs.get(fn)
        if not l:
            return None
        if len(l) == 1:
            f = l[0]
            if f.static and f.file != caller.file and not f.cls:
                return None
            return f
        for f in l:
            if f.file == caller.file:
                return f
        l2 = [f for f in l if not f.static]
        return l2[0] if l2 else None


def _key(group):
    sub, pat, flags = GROUPS[group]
    h = hashlib.sha256()
    h.update(repr((SRC, group, flags)).encode())
    h.update(open(os.path.join(VERIF, 'tool', 'extract.cpp'), 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    for d, _, fs in sorted(os.walk(os.path.join(SRC, sub))):
        for f in sorted(fs):
            if f.endswith(('.c', '.h', '.cpp', '.cc', '.hpp', '.inc')):
                h.update(os.path.join(d, f).encode()); h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:24]


def get_program(group):
    """Program for the sources as they are now.  The parse result is cached under build/ by content hash."""
    import pickle
    fn = os.path.join(BUILD, 'facts-%s-%s.pkl' % (group, _key(group)))
    if os.path.exists(fn):
        try:
            p = Program.__new__(Program); p.group = group
            p.tus = pickle.load(open(fn, 'rb'))
            p.index()
            return p
        except Exception:
            pass
    p = Program(group)
    try:
        for old in sorted(glob.glob(os.path.join(BUILD, 'facts-%s-*.pkl' % group)), key=os.path.getmtime)[:-6]:
            os.unlink(old)
        tmp = fn + '.%d' % os.getpid()
        pickle.dump(p.tus, open(tmp, 'wb'), -1); os.rename(tmp, fn)
    except OSError:
        pass
    return p


def macros(sub):
    """numeric object-like macros of the headers in src/<sub>"""
    import re
    res = {}
    for f in sorted(glob.glob(os.path.join(SRC, sub, '*.h'))):
        for l in open(f, encoding='latin1'):
            m = re.match(r'\s*#\s*define\s+(\w+)\s+\(?\s*(-?(?:0[xX][0-9a-fA-F]+|\d+))\s*\)?\s*(?:/\*.*)?$', l)
            if m:
                res.setdefault(m.group(1), int(m.group(2), 0))
    return res


if __name__ == '__main__':
    print(build_tool())
