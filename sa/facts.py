"""Extraction and loading of the type-checked program."""
import glob, hashlib, json, os, pickle, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KIO_REPO', '/repo')
KX = os.path.join(VERIF, 'build', 'kx')
BUILD = os.environ.get('KIO_CACHE', os.path.join(VERIF, 'build'))


class CheckError(Exception):
    """The check cannot decide: neither a pass nor a violation."""


FLAGS = ['-xc++', '-std=gnu++23', '-D_GNU_SOURCE', '-D__cpp_concepts=202002L',
         '-D__GCC_DESTRUCTIVE_SIZE=64', '-D__GCC_CONSTRUCTIVE_SIZE=64', '-DNDEBUG',
         '-Wno-builtin-macro-redefined', '-w', '-I' + REPO,
         '-I' + os.path.join(VERIF, 'stubs'), '-include', os.path.join(VERIF, 'stubs/pre.h'),
         '-resource-dir=/usr/lib/llvm-18/lib/clang/18', '-ferror-limit=0']


def sources():
    src = []
    for pat in ('kio/**/*.cpp', 'bitcask/src/**/*.cpp'):
        for f in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
            if '/tests/' in f:
                continue
            src.append(f)
    src.append(os.path.join(VERIF, 'units/headers.cpp'))
    return src


def tree_files():
    out = []
    for pat in ('kio/**/*.cpp', 'kio/**/*.h', 'kio/**/*.hpp', 'bitcask/src/**/*', 'bitcask/include/**/*'):
        out += glob.glob(os.path.join(REPO, pat), recursive=True)
    out += glob.glob(os.path.join(VERIF, 'stubs/**/*'), recursive=True)
    out += glob.glob(os.path.join(VERIF, 'units/**/*'), recursive=True)
    return sorted(f for f in set(out) if os.path.isfile(f))


def tree_key():
    h = hashlib.sha256()
    for f in tree_files() + [KX]:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repr(FLAGS).encode())
    return h.hexdigest()[:24]


def extract_one(src, outdir):
    out = os.path.join(outdir, hashlib.md5(src.encode()).hexdigest() + '.json')
    r = subprocess.run([KX, out, REPO + '/kio,' + REPO + '/bitcask,' + VERIF + '/units', src, '--'] + FLAGS,
                       capture_output=True, text=True, cwd=outdir)
    if not os.path.exists(out):
        raise CheckError('extractor failed on %s (rc %d): %s' % (src, r.returncode, r.stderr[-2000:]))
    with open(out) as fh:
        d = json.load(fh)
    os.unlink(out)
    if d['errors'] or r.returncode:
        raise CheckError('%s does not compile: %s' % (src, '\n'.join(
            l for l in r.stderr.splitlines() if 'error' in l)[:2000]))
    return src, d


class Program:
    def __init__(self):
        self.functions = {}   # id -> fn
        self.classes = {}     # type -> class
        self.classq = {}      # qname -> [class]
        self.enums = {}
        self.globals = {}
        self.units = []
        self.files = set()

    def add(self, src, d):
        self.units.append(src)
        for f in d['functions']:
            old = self.functions.get(f['id'])
            if old is None or ('body' not in old and 'body' in f):
                self.functions[f['id']] = f
        for c in d['classes']:
            self.classes.setdefault(c['t'], c)
        for e in d['enums']:
            self.enums.setdefault(e['q'], e)
        for g in d['globals']:
            self.globals.setdefault(g['q'], g)
        self.files.update(d['files'])

    def finish(self):
        self.byq = {}
        for f in self.functions.values():
            self.byq.setdefault(f['q'], []).append(f)
        for c in self.classes.values():
            self.classq.setdefault(c['q'], []).append(c)

    def link(self):
        from . import ir
        for c in self.classes.values():
            for m in c.get('methods', []):
                if m.get('ck') == 'dtor' or m.get('n', '').startswith('~'):
                    f = self.functions.get(m['id'])
                    if f is not None and 'body' in f and not f.get('implicit') and not f.get('defaulted'):
                        ir.RAII.add(ir.qn(c['q']).rsplit('::', 1)[-1])

    # ---- lookup helpers (a vanished anchor is an error, never a pass)
    def fns(self, q, need=True, body=True):
        r = [f for f in self.byq.get(q, []) if not body or 'body' in f]
        if need and not r:
            raise CheckError('anchor vanished: no function %s' % q)
        return r

    def fn(self, q, pred=None):
        r = [f for f in self.fns(q) if pred is None or pred(f)]
        if not r:
            raise CheckError('anchor vanished: no matching function %s' % q)
        return r[0]

    def cls(self, q):
        r = self.classq.get(q)
        if not r:
            raise CheckError('anchor vanished: no class %s' % q)
        return r[0]

    def enum(self, q):
        if q not in self.enums:
            raise CheckError('anchor vanished: no enum %s' % q)
        return self.enums[q]


def rel(path):
    if path.startswith(REPO + '/'):
        return path[len(REPO) + 1:]
    return path


_prog = None


def load():
    global _prog
    if _prog is not None:
        return _prog
    if not os.path.exists(KX):
        r = subprocess.run(['bash', os.path.join(VERIF, 'extractor/build.sh')], capture_output=True, text=True)
        if r.returncode:
            raise CheckError('cannot build the extractor: ' + r.stderr[-2000:])
    key = tree_key()
    cache = os.path.join(BUILD, 'facts-%s.pickle' % key)
    if os.path.exists(cache):
        try:
            with open(cache, 'rb') as fh:
                _prog = pickle.load(fh)
            _prog.link()
            return _prog
        except Exception:
            pass
    p = Program()
    with tempfile.TemporaryDirectory(prefix='kx') as tmp:
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(lambda s: extract_one(s, tmp), sources()))
    for s, d in res:
        p.add(s, d)
    p.finish()
    p.link()
    for old in glob.glob(os.path.join(BUILD, 'facts-*.pickle')):
        try:
            os.unlink(old)
        except OSError:
            pass
    os.makedirs(BUILD, exist_ok=True)
    tmpf = cache + '.%d.tmp' % os.getpid()
    with open(tmpf, 'wb') as fh:
        pickle.dump(p, fh, protocol=4)
    os.replace(tmpf, cache)
    _prog = p
    return p


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print('%d units, %d functions (%d with bodies), %d classes, %d enums in %.1fs' % (
        len(p.units), len(p.functions), sum('body' in f for f in p.functions.values()),
        len(p.classes), len(p.enums), time.time() - t))
