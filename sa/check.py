"""The check driver: runs the rules of one property, writes evidence, reports."""
import importlib, json, os, sys, time, traceback
from . import facts, ir
from .engine import Engine, Rule, Violation
from .facts import CheckError, VERIF, rel
from .terms import *

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Check:
    """collects the obligations and violations of one property"""

    def __init__(self, pid, prog, tier, seed):
        self.pid, self.prog, self.tier, self.seed = pid, prog, tier, seed
        self.obs = {}           # (rule, where) -> [discharged, note]
        self.viol = {}
        self.entries = []
        self.functions = set()
        self.steps = 0
        self.calls = 0
        self.samples = []
        self.notes = {}
        self.errors = []

    def thorough(self):
        return self.tier == 'thorough'

    # ---- obligations
    def ob(self, rule, where, ok=True, note=''):
        k = (rule, where)
        o = self.obs.get(k)
        if o is None:
            self.obs[k] = [bool(ok), note]
        elif not ok:
            o[0] = False

    def fail(self, rule, key, file, line, msg, path=None):
        v = Violation(rule, key, file, line, msg, path)
        self.viol.setdefault(v.ident(), v)
        self.ob(rule, '%s:%s' % (rel(file), line), False, msg)

    def require(self, rule, key, file, line, cond, msg, path=None):
        if cond:
            self.ob(rule, '%s:%s %s' % (rel(file), line, key))
        else:
            self.fail(rule, key, file, line, msg, path)
        return cond

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    # ---- engine runs
    def run(self, rule, f, budget=400000, **kw):
        rule.chk = self
        eng = Engine(self.prog, rule, budget)
        rule.eng = eng
        eng.entry(f, **kw)
        self.absorb(eng, f)
        return eng

    def absorb(self, eng, f):
        self.steps += eng.steps
        self.calls += eng.stats['calls']
        self.functions.add(f['id'])
        self.functions |= eng.stats['functions']
        self.entries.append('%s (%s:%s)' % (ir.qn(f['q']), rel(f['file']), f['line']))
        for i, v in eng.viol.items():
            self.viol.setdefault(v.ident(), v)
            self.ob(v.rule, '%s:%s' % (v.file, v.line), False, v.msg)


class R(Rule):
    """rule base with obligation counting"""
    chk = None
    label = 'rule'

    def need(self, eng, st, ins, ok, what, msg, key=None):
        """one obligation at this construct"""
        fn = st.top.fn
        line = ins.line if ins is not None else fn.f['line']
        where = '%s:%s [%s] %s' % (rel(fn.file), line, fn.qn, what)
        self.chk.ob(self.label, where, ok)
        if not ok:
            eng.report(st, ins, self.label, msg, key=key or '%s|%s' % (fn.qn, what))
        return ok


def known_findings():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith('finding:'):
                continue
            # finding: property=<id> key=<ident> :: text
            head, _, text = l[len('finding:'):].partition(' :: ')
            d = dict(x.split('=', 1) for x in head.split() if '=' in x)
            out[(d['property'], d['key'])] = text.strip()
    return out


def slug(ident):
    return ident.replace(' ', '_')


def run_property(pid, tier, seed):
    from rules import REGISTRY
    t0 = time.time()
    if pid not in REGISTRY:
        print('unknown property ' + pid)
        return 2
    try:
        prog = facts.load()
    except CheckError as e:
        print('ERROR property=%s %s' % (pid, e))
        return 2
    spec = REGISTRY[pid]
    chk = Check(pid, prog, tier, seed)
    mod = importlib.import_module('rules.' + spec['module'])
    for name in spec['run']:
        try:
            getattr(mod, name)(chk)
        except CheckError as e:
            chk.errors.append('%s: %s' % (name, e))
        except RecursionError as e:
            chk.errors.append('%s: recursion' % name)
        except Exception as e:
            chk.errors.append('%s: internal: %s' % (name, traceback.format_exc()))
    if not chk.obs and not chk.errors:
        chk.errors.append('no obligation was generated (vanished anchors)')
    known = known_findings()
    fresh, seen = [], []
    for i, v in sorted(chk.viol.items()):
        k = (pid, slug(i))
        if k in known:
            seen.append((k, v))
        else:
            fresh.append(v)
    nob = len(chk.obs)
    nok = sum(1 for o in chk.obs.values() if o[0])
    byrule = {}
    for (r, w), o in chk.obs.items():
        byrule.setdefault(r, [0, 0])
        byrule[r][0] += 1
        byrule[r][1] += o[0]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': spec['level'],
        'coverage': {
            'explanation': spec['explain'],
            'units_parsed': len(prog.units),
            'functions_in_program': len(prog.functions),
            'functions_analysed': len(chk.functions),
            'entry_points': sorted(set(chk.entries)),
            'abstract_steps': chk.steps,
            'call_sites_evaluated': chk.calls,
            'obligations': nob, 'discharged': nok,
            'obligations_by_rule': {r: {'total': a, 'discharged': b} for r, (a, b) in sorted(byrule.items())},
            'samples': ['%s @ %s' % k for k in sorted(chk.obs)[:12]],
            **chk.notes,
        },
        'assumptions': spec.get('assumptions', []) + TRUST,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    if seen:
        ev['coverage']['known_findings'] = [v.ident() for k, v in seen]
    if chk.errors:
        ev['coverage']['errors'] = chk.errors
    evd = os.environ.get('KIO_EVID', os.path.join(VERIF, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write('\n')
    for k, v in seen:
        print('KNOWN-FINDING: property=%s %s:%s %s [%s]' % (pid, v.file, v.line, v.msg, known[k]))
    if fresh:
        rp = os.path.join(evd, pid + '.violations.txt')
        with open(rp, 'w') as fh:
            for v in fresh:
                fh.write('%s:%s: [%s] %s\n  key: %s\n' % (v.file, v.line, v.rule, v.msg, slug(v.ident())))
                for p in v.path:
                    fh.write('    via %s\n' % p)
        for v in fresh:
            print('%s:%s: [%s] %s  (key %s)' % (v.file, v.line, v.rule, v.msg, slug(v.ident())))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if chk.errors:
        for e in chk.errors:
            print('ERROR property=%s %s' % (pid, e))
        return 2
    print('OK property=%s obligations=%d discharged=%d functions=%d steps=%d %.1fs' % (
        pid, nob, nok, len(chk.functions), chk.steps, time.time() - t0))
    return 0


TRUST = [
    'clang 18 front end: the syntax tree it hands to the extractor is the program (templates in instantiated form)',
    'the abstract semantics of the standard library, liburing and OpenSSL calls in sa/models.py and the rule',
    'loop and recursion summaries are computed to a fixpoint; no executable is run',
]


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
        argv = [a for a in argv if a != '--thorough']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.setrecursionlimit(20000)
    rc = 0
    for pid in argv:
        r = run_property(pid, tier, seed)
        rc = max(rc, r) if rc != 1 and r != 1 else 1
    return rc
