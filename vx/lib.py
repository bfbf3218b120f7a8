"""Check framework: obligations, violations with line-free keys, floors, known findings, evidence."""
import json, os, sys, time, re, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vx'))
import facts as factsmod
from ir import *
from engine import *

OP = 'vortex::compute::compare::Operator'
EOP = 'vortex_expr::operators::Operator'
PTYPE = 'vortex_dtype::ptype::PType'
DTYPE = 'vortex_dtype::dtype::DType'
NULLABILITY = 'vortex_dtype::nullability::Nullability'
VALIDITY = 'vortex::validity::Validity'

class Check:
    def __init__(self, pid, F, info):
        self.pid, self.F, self.info = pid, F, info
        self.viols = {}; self.obl = {}; self.samples = {}; self.floors = {}; self.fns = set(); self.notes = []
        self.t0 = time.time()
    # -- obligations
    def ob(self, kind, sample=None, n=1):
        self.obl[kind] = self.obl.get(kind, 0) + n
        if sample is not None:
            l = self.samples.setdefault(kind, [])
            if len(l) < 6: l.append(str(sample)[:240])
    def viol(self, key, msg, where=None):
        self.viols.setdefault(key, (msg, where))
    def req(self, cond, kind, key, msg, where=None, sample=None):
        self.ob(kind, sample if sample is not None else key)
        if not cond: self.viol(key, msg, where)
        return bool(cond)
    def floor(self, kind, n):
        self.floors[kind] = n
    def body(self, path):
        b = self.F.bodies.get(path)
        if b is None: self.viol('anchor-missing:' + path, 'the function this rule is anchored on no longer exists: ' + path)
        else: self.fns.add(path)
        return b
    def where(self, path, line=None):
        b = self.F.bodies.get(path)
        return '%s:%s (%s)' % (b['file'].replace('/repo/', '') if b else '?', line or (b['line'] if b else '?'), short(path))
    def ev(self, **k):
        return Eval(self.F, **k)
    def run(self, path, args=None, facts=None, **k):
        """evaluate one function; None (and a violation) when the anchor is gone"""
        if self.body(path) is None: return None
        e = self.ev(**k)
        r = e.run(path, args, facts=facts)
        r.e = e
        self.fns.update(e.visited)
        return r

    def finish(self, title, rule):
        for k, n in self.floors.items():
            got = self.obl.get(k, 0)
            if got < n: self.viol('coverage:' + k, 'only %d obligations of kind %s were found in the tree (at least %d expected): the code the rule is about is no longer where the rule looks' % (got, k, n))
        known = load_known().get(self.pid, {})
        tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        new = {k: v for k, v in self.viols.items() if k not in known}
        old = {k: v for k, v in self.viols.items() if k in known}
        for k in sorted(known):
            if k in old: print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, k, known[k]))
            else: self.notes.append('known finding no longer present: ' + k)
        nob = sum(self.obl.values())
        cov = {'explanation': '%s. Rule: %s. Analysed %d functions (in calling context) of %d in the workspace; %d obligations (call sites, table rows, paths), %d violated.' % (title, rule, len(self.fns), len(self.F.bodies), nob, len(self.viols)),
               'functions_analysed': len(self.fns), 'workspace_functions': len(self.F.bodies), 'obligations': nob, 'discharged': nob - len(self.viols) if nob >= len(self.viols) else 0,
               'obligations_by_kind': self.obl, 'floors': self.floors, 'samples_by_kind': self.samples, 'violations': {k: v[0] for k, v in new.items()}, 'known_findings': sorted(old), 'notes': self.notes,
               'facts_rebuilt_packages': self.info.get('rebuilt'), 'facts_seconds': round(self.info.get('seconds', 0), 2)}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump({'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - self.t0 + self.info.get('seconds', 0), 2)},
                  open(os.path.join(V, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        print('%s: %d obligations over %d functions, %d violations (%d known)' % (self.pid, nob, len(self.fns), len(self.viols), len(old)))
        rp = os.path.join(V, 'evidence', self.pid + '.violations.txt')
        if os.path.exists(rp): os.remove(rp)
        if new:
            with open(rp, 'w') as f:
                for k, (m, w) in sorted(new.items()): f.write('%s\n    %s\n    at %s\n' % (k, m, w))
            for k, (m, w) in sorted(new.items())[:40]: print('  %s\n      %s\n      at %s' % (k, m, w))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0

def load_known():
    out = {}
    p = os.path.join(V, 'known_findings.json')
    if os.path.exists(p):
        for x in json.load(open(p))['findings']: out.setdefault(x['property'], {})[x['key']] = x['what']
    return out

def main(mods, argv):
    ids = argv or sorted(mods)
    d, info = factsmod.build()
    F = Facts(d)
    rc = 0
    for i in ids:
        m = mods[i]
        c = Check(i, F, info)
        try: m.run(c)
        except Budget as ex: c.viol('cannot-analyse', 'the analysis budget was exceeded in ' + str(ex))
        except Exception as ex:
            traceback.print_exc(file=sys.stdout)
            c.viol('cannot-analyse', 'the analysis could not complete: %r' % (ex,))
        rc |= c.finish(m.TITLE, m.RULE)
    return rc

# ------------------------------------------------------------------ term helpers
def has_arg(t, i, ev=None):
    return mentions(t, lambda x: x.op == 'arg' and x.a[0] == i, ev)
def is_call(t, *names):
    return t.op == 'call' and any(t.a[0] == n or t.a[0].endswith(n) for n in names)
def fact(facts, t, val):
    """is `t == val` a must-fact?"""
    f = facts.get(t)
    return f is not None and f[0] == 'in' and f[1] == frozenset([val])
def dfact(facts, x, var):
    return fact(facts, mk('D', x), var)
def cmp_holds(facts, op, a, b, cv=None):
    """does the must-fact map entail a op b (op in Lt, Le, Eq)?"""
    if isk(a) and isk(b):
        x, y = num(kv(a)), num(kv(b))
        if x is not None and y is not None: return {'Lt': x < y, 'Le': x <= y, 'Eq': x == y}[op]
    if a is b and op in ('Le', 'Eq'): return True
    lt, gt = mk('cmp', 'Lt', a, b), mk('cmp', 'Lt', b, a)
    le, ge = mk('cmp', 'Le', a, b), mk('cmp', 'Le', b, a)
    p, q = (a, b) if a.id < b.id else (b, a)
    eq = mk('cmp', 'Eq', p, q)
    T_ = lambda t: fact(facts, t, True)
    N_ = lambda t: fact(facts, t, False)
    if op == 'Eq': return T_(eq)
    if op == 'Lt': return T_(lt) or N_(ge)
    return T_(le) or N_(gt) or T_(eq) or T_(lt) or N_(ge)
