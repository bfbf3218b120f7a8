"""Normal forms: a canonical, syntax-independent text of what a term denotes (success values only)."""
from lib import *
ADD, SUB, MUL = 'Add', 'Sub', 'Mul'
STRIP = re.compile(r'(::into_array|::clone|::to_owned|Into<.*>::into|::into_iter|::as_ref|::to_array|::into_inner|::as_slice|::iter|::borrow|::deref|::into_primitive|::into_canonical|::into_bool|::into_varbin|::into_varbinview|::into_struct|::into_extension|::into_null|::boxed|IntoArray::into_array|Box<T>::new)$')
LAST = re.compile(r'([A-Za-z_0-9]+)$')
PUSH = ('push', 'push_back', 'append_value', 'append')
RANKED = ('into_primitive', 'into_bool', 'into_struct', 'into_varbin', 'into_varbinview', 'into_extension', 'into_null', 'into_canonical')

def root(t):
    while t.op in ('f', 'setf'): t = t.a[0]
    return t.a[0] if t.op == 'call' else ''
def neg(x): return None if x is None else x[1:] if x.startswith('!') else '!' + x
def isint(x): return re.match(r'\d+$', x)
def compare(op, x, y):
    """comparisons in terms of Eq and Lt; constants to the left: k < x, and 0 < x reads x != 0"""
    x, y = str(x), str(y)
    if op == 'Eq':
        x, y = min(x, y), max(x, y)
        for b, y2 in ((x, y), (y, x)):
            if b in ('True', 'False') and y2.startswith('!'): return compare('Eq', 'False' if b == 'True' else 'True', y2[1:])
        if x == '1' and (y.startswith('rem(') and y.endswith(', 2)') or y.startswith('bitand(1, ')): return neg('Eq(0, %s)' % (y if y[0] == 'r' else 'rem(%s, 2)' % y[10:-1]))
        if x == '0' and y.startswith('bitand(1, '): y = 'rem(%s, 2)' % y[10:-1]
        return 'Eq(%s, %s)' % (x, y)
    if op == 'Ne': return neg(compare('Eq', x, y))
    if op == 'Gt': return compare('Lt', y, x)
    if op == 'Ge': return neg(compare('Lt', x, y))
    if op == 'Le': return neg(compare('Lt', y, x))
    if op != 'Lt': return '%s(%s, %s)' % (op, x, y)
    if isint(y) and int(y) > 0: return neg(compare('Lt', str(int(y) - 1), x))
    if x == '0': return neg(compare('Eq', x, y))
    return 'Lt(%s, %s)' % (x, y)
def minmax(o, xs):
    xs = sorted(set(map(str, xs)))
    if o == 'max' and len(xs) > 1 and '0' in xs: xs.remove('0')       # usize
    return xs[0] if len(xs) == 1 else '%s(%s)' % (o, ', '.join(xs))
def unslice(x):
    y = lentext(x); return y[4:-1]
def position(x):
    """the index that runs along x"""
    return 'pos(%s)' % unslice(x)
def indexed(x, i):
    m = re.match(r'pos\((.*)\)$', str(i))
    if m and unslice(x) == m.group(1): return 'elem(%s)' % x
    return 'index(%s, %s)' % (x, i)
def lentext(x):
    m = re.match(r'maybe_null_slice\((.*)\)$', str(x))
    if m and m.group(1).count('(') == m.group(1).count(')'):
        d = 0
        for ch in m.group(1):
            d += (ch == '(') - (ch == ')')
            if d < 0: break
        else: x = m.group(1)
    return 'len(%s)' % x
def ungard(x):
    from spec import split_top
    y = split_top(x, ' <- ')
    return y[0], split_top(y[1], ' & ') if len(y) > 1 else []
def regard(h, gs): return h + (' <- ' + ' & '.join(sorted(gs)) if gs else '')
def merge(xs):
    """`A <- t is A` for a variant without payload reads `t <- t is A`; alternatives with the same value are merged"""
    ys = []
    for x in xs:
        h, gs = ungard(x)
        if re.match(r'[A-Z][A-Za-z0-9]*$', h) and len(gs) == 1 and gs[0].endswith(' is ' + h): h = gs[0][:-len(' is ' + h)] if h != 'None' else h
        ys.append((h, gs))
    out = []
    for h, gs in ys:
        same = [g for k, g in ys if k == h]
        if len(same) > 1 and all(len(g) == 1 and g[0].startswith(h + ' is ') for g in same):
            gs = ['%s is %s' % (h, '|'.join(sorted(v for g in same for v in g[0][len(h) + 4:].split('|'))))]
        r = regard(h, gs)
        if r not in out: out.append(r)
    if len(out) > 1:                                                       # one field of either variant, whichever it is
        ms = [re.match(r'(.*)@([A-Za-z0-9]+)\.0 <- (.*) is ([A-Za-z0-9]+)$', x) for x in out]
        if all(m and m.group(1) == m.group(3) == ms[0].group(1) and m.group(2) == m.group(4) for m in ms): return [ms[0].group(1) + '@*']
    return out
def ormerge(xs):
    """matching on an optional value is map_or_else"""
    al = [ungard(x) for x in xs]; done = True
    while done:
        done = False
        for i, (h, g) in enumerate(al):
            for q in g:
                if not q.endswith((' is Some', ' is Ok')) or q[:q.rindex(' is ')] not in h or h in ('None', 'Err'): continue
                o = q[:-4] + 'None' if q.endswith('Some') else q[:-2] + 'Err'
                r = sorted(x for x in g if x != q)
                for j, (h2, g2) in enumerate(al):
                    if j != i and o in g2 and sorted(x for x in g2 if x != o) == r and h2 != 'None':
                        al = [y for k, y in enumerate(al) if k not in (i, j)] + [('or(%s, %s)' % (h, h2), r)]; done = True; break
                if done: break
            if done: break
    return sorted(regard(h, g) for h, g in al)
def tidy(xs):
    """an optional value: None where the source is None is what map() gives; None in one further case is filter(); and/or of booleans"""
    al = [ungard(x) for x in xs]
    nones = [g for h, g in al if h == 'None']; rest = [(h, g) for h, g in al if h != 'None']
    if nones and rest:
        for q in list(nones[0]):
            if q.endswith(' is None'):
                s = q[:-4] + 'Some'
                if all(s in g for _, g in rest) and len(nones[0]) == 1: return [regard(h, [y for y in g if y != s]) for h, g in rest]
        if len(rest) == 1:
            h, g = rest[0]; g = [y for y in g if not y.endswith(' is Some')]
            return [h if not g else 'optfilter(%s, %s)' % (h, ' & '.join(sorted(g)))]
    if len(al) == 2:
        for (h, g), (h2, g2) in ((al[0], al[1]), (al[1], al[0])):
            if h == 'False' and len(g2) == 1 and g == [neg(g2[0])]: return ['and(%s)' % ', '.join(sorted([g2[0], h2]))]
            if h == 'True' and len(g) == 1 and g2 == [neg(g[0])]: return ['!and(%s)' % ', '.join(sorted([neg(g[0]), neg(h2)]))]
            if h == 'True' and h2 == 'False' and len(g) == 1 and g2 == [neg(g[0])]: return [g[0]]
    return xs
# ---- boolean conditions: sets of conjunctions (sets of tests)
OPP = {}; FULL = set(); COMPL = {}
def variants(F):
    if FULL: return
    fulls = {frozenset(v[0] for v in a['v']) for q, a in list(F.adts.items()) if re.match(r'(py)?vortex', q) and a['k'] == 'enum' and len(a['v']) > 1 and len(a['v']) < 40 and not a['v'][0][0].startswith('__')}
    std = [frozenset(x) for x in (('None', 'Some'), ('Ok', 'Err'), ('Occupied', 'Vacant'), ('Nullable', 'NonNullable'), ('Data', 'View'), ('Less', 'Equal', 'Greater'))]
    fulls |= set(std)
    for f in fulls: FULL.add('|'.join(sorted(f)))
    of = {}
    for f in fulls:
        for v in f: of.setdefault(v, []).append(f)
    for f in std:
        for v in f: of[v] = [f]
    OPP.update(of)
import functools
@functools.lru_cache(None)
def isvar(q):
    m = re.match(r'(.*) is ([A-Z][A-Za-z0-9]*(?:\|[A-Z][A-Za-z0-9]*)*)$', q)
    return (m.group(1), frozenset(m.group(2).split('|'))) if m and not q.startswith('!') else None
def variant(t, vs): return '%s is %s' % (t, '|'.join(sorted(vs)))
def opposite(q):
    r = COMPL.get(q)
    if r is None:
        m = isvar(q); r = neg(q)
        if m:
            fs = [f for f in OPP.get(next(iter(m[1])), ()) if m[1] < f]
            if len(fs) == 1: r = variant(m[0], fs[0] - m[1])
        COMPL[q] = r
    return r
@functools.lru_cache(100000)
def clash(q, p):
    """the two tests cannot both hold"""
    if opposite(q) == p: return True
    x, y = isvar(q), isvar(p)
    return bool(x and y and x[0] == y[0] and not x[1] & y[1] and kin(x[1], y[1]))
@functools.lru_cache(None)
def kin(a, b):
    """variants of one enum (a value and what it wraps have the same text)"""
    return any(a <= f and b <= f for f in OPP.get(next(iter(a)), ()))
def conj(w):
    """a conjunction without tests that others of it imply; None when it cannot hold"""
    pos = []; no = []; out = set()
    for q in w:
        m = isvar(q); k = isvar(q[1:]) if q.startswith('!') else None
        if m:
            for i, (t, vs) in enumerate(pos):
                if t == m[0] and kin(vs, m[1]): pos[i] = (t, vs & m[1]); break
            else: pos.append(m)
            if any(not vs for _, vs in pos): return None
        elif k: no.append(k)
        else: out.add(q)
    for t, vs in no:
        hit = False
        for i, (u, ws) in enumerate(pos):
            if u == t and kin(vs, ws): pos[i] = (u, ws - vs); hit = True
            if not pos[i][1]: return None
        if not hit: out.add('!' + variant(t, vs))
    for t, vs in pos: out.add(variant(t, vs))
    return None if any(neg(q) in out for q in out) else frozenset(out)
def conjs(ws): return {c for w in ws for c in [conj(w)] if c is not None}
@functools.lru_cache(200000)
def entails(w, u):
    """whenever the conjunction w holds, so does u"""
    if u <= w: return True
    for q in u - w:
        x = isvar(q)
        if not x or not any(y and y[0] == x[0] and y[1] < x[1] for y in map(isvar, w)): return False
    return True
def primes(ways, cap=48):
    """the shortest conditions whose disjunction is that of the given conjunctions"""
    ws = set()
    for w in ways:
        w = frozenset(w)
        if not any(opposite(q) in w for q in w): ws.add(w)
    ws = options(ws)
    while True:
        ws = {w for w in ws if not any(u != w and entails(w, u) for u in ws)}
        if len(ws) > cap: return ws
        new = set()
        for a in ws:
            for b in ws:
                if a is b: continue
                d = [q for q in a if opposite(q) in b]
                if len(d) == 1: c = (a | b) - {d[0], opposite(d[0])}
                elif not d and len(a - b) == 1 and len(b - a) == 1:
                    x, y = isvar(next(iter(a - b))), isvar(next(iter(b - a)))
                    if not (x and y and x[0] == y[0]): continue
                    q = variant(x[0], x[1] | y[1]); c = (a & b) | (set() if q.rpartition(' is ')[2] in FULL else {q})
                else: continue
                c = frozenset(c)
                if any(clash(p, q) for p in c for q in c if p < q): continue
                if not any(entails(c, u) for u in ws): new.add(c)
        if not new: break
        ws |= new
    return {unoption(w) for w in ws}
EQ = re.compile(r'!?Eq\((\d+|True|False), (.*)\)$')
def options(ws):
    """an absent value equals nothing: x == Some(c) and a test of the payload after one of the variant read alike"""
    es = {m.group(2): 'Eq(%s, %s)' % m.groups() for w in ws for q in w for m in [EQ.match(q)] if m}
    ns = {t for t in es if any(t + ' is None' in w or t + ' is Some' in w for w in ws)}
    if not ns: return ws
    out = set()
    for w in ws:
        for t in ns:
            if t + ' is None' in w:
                if es[t] in w: break
                w = w | {'!' + es[t]}
            if es[t] in w: w = w - {t + ' is Some'}
        else: out.add(frozenset(w))
    return out
def unoption(w): return frozenset(q for q in w if not (q.startswith('!Eq(') and EQ.match(q) and EQ.match(q).group(2) + ' is None' in w))
def parens(s, name):
    """the arguments of s when it reads name(...) as a whole"""
    if not s.startswith(name + '(') or not s.endswith(')'): return None
    from spec import split_top
    inner = s[len(name) + 1:-1]; d = 0
    for ch in inner:
        d += (ch in '([{') - (ch in ')]}')
        if d < 0: return None
    return split_top(inner, ', ')
def dnf(s):
    if s == 'True' or s == '!False': return {frozenset()}
    if s == 'False' or s == '!True': return set()
    ps = parens(s, 'and')
    if ps:
        r = {frozenset()}
        for p in ps:
            r = {a | b for a in r for b in dnf(p)}
            if len(r) > 64: return {frozenset([s])}
        return r
    ps = parens(s[1:], 'and') if s.startswith('!') else None
    if ps:
        r = set()
        for p in ps: r |= dnf(neg(p))
        return r if len(r) <= 64 else {frozenset([s])}
    return {frozenset([opposite(s[1:]) if s.startswith('!') and isvar(s[1:]) else s])}
def conjuncts(q):
    if not q.startswith(('and(', '!and(')): return {q}
    d = dnf(q)
    return set(next(iter(d))) if len(d) == 1 else {q}
def boolnf(P):
    if not P: return 'False'
    if frozenset() in P: return 'True'
    cl = [next(iter(c)) if len(c) == 1 else 'and(%s)' % ', '.join(sorted(c)) for c in P]
    return cl[0] if len(cl) == 1 else '!and(%s)' % ', '.join(sorted(neg(c) for c in cl))
def boolcanon(s): return boolnf(primes(dnf(s)))
BITS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}
def narrows(t): return t.a[0] in ('IntToInt', 'as_') and BITS.get(t.a[3], 999) < BITS.get(t.a[2], 0)
def padd(x, y):
    r = dict(x)
    for k, c in y.items(): r[k] = r.get(k, 0) + c
    return {k: c for k, c in r.items() if c}
OPTV = frozenset(['Some', 'None'])
UNITS = frozenset('U8 U16 U32 U64 I8 I16 I32 I64 F16 F32 F64 Nullable NonNullable'.split())
IOFX = {'read_into', 'read_at_into', 'write_all', 'flush', 'shutdown', 'write_flatbuffer', 'poll_next', 'next', 'try_next', 'write_message', 'write_dtype', 'write_batch', 'write_page'}     # what moves along in a reader or writer: not part of what it is
def changed(t):
    while t.op == 'setf': t = t.a[0]
    return t
class NF:
    def __init__(self, e, names=None, keep_cast=False, sub=None, maxd=40):
        variants(e.F)
        self.e, self.memo, self.stack, self.kc, self.sub, self.polys, self.lnames = e, {}, [], keep_cast, sub, {}, {}
    def __call__(self, t, facts=None, errs=False):
        """success normal forms of t, each with the facts that tell it apart from the others"""
        if not facts and not errs and t.op == 'phi' and not self.show:
            b = self.truth(t)
            if b: return [b]
        return self.guarded([(y, f) for y, f in alts(self.e, t, facts)], errs, self.flat(t, facts))
    def flat(self, t, facts=None, depth=0):
        """the leaves of nested merges, each with the ways (conjunctions of tests) in which it is selected; None when there are too many"""
        al = self.e.alts_.get(t) if t.op == 'phi' else None; js = self.e.altj.get(t)
        if al is None or any(b for _, _, b in al) or not js or len(js) != len(al) or depth > 5: return [(t, {frozenset()})]
        out = []
        for (x, f, _), j in zip(al, js):
            if facts:
                if self.e.contradict(facts, f): continue
                f = dict(f)
                for k, v in facts.items(): f[k] = v if k not in f else and_vals(f[k], v)
            rs = self.rows(f, j)
            sub = self.flat(x, facts, depth + 1)
            if sub is None: return None
            for y, r2 in sub:
                if len(rs) * len(r2) > 64: return None
                w = {a | b for a in rs for b in r2}
                w = conjs(w)
                if w: out.append((y, w))
        return out if len(out) <= 24 else None
    def exact(self, fl, errs):
        """text -> the shortest conditions under which it is the value"""
        by = {}
        for y, w in fl or ():
            x = self.nf(y)
            if x == 'never' or x is None and not errs: continue
            by.setdefault(x, set()).update(w)
        if len(by) < 2 or sum(map(len, by.values())) > 64: return {}
        lits = {x: {q for w in ws for q in w} for x, ws in by.items()}
        out = {}
        for x, ws in by.items():
            if x is None: continue
            others = {q for y in by if y != x and y is not None for q in lits[y]}; bad = lits.get(None, ())
            keep = {q for q in lits[x] if any(clash(q, p) for p in others) or not q.endswith((' is Some', ' is Ok', ' is Continue')) and any(clash(q, p) for p in bad)}
            out[x] = primes({frozenset(q for q in w if q in keep) for w in ws})
        return out
    def literal(self, k, v):
        if k.op == 'phi' and v[0] == 'in' and len(v[1]) == 1 and v[1] <= {True, False}:
            b = self.truth(k)
            return b and (b if True in v[1] else neg(b))
        return self.guard(k, v)
    def implied(self, q, w):
        if q.endswith(' is Some') and any('Eq(%s, %s)' % (b, y) in w for b in ('True', 'False') for y in (q[:-8], 'TryFrom.try_from(%s)' % q[:-8])): return True
        return 'Eq(True, %s)' % q in w or q.startswith('!') and 'Eq(False, %s)' % q[1:] in w
    def rows(self, facts, join, noise=None):
        """the conditions under which a place is reached: conjunctions of tests"""
        out = set()
        for f in self.e.reach(facts, join):
            cs = {frozenset()}
            for k, v in f.items():
                q = self.literal(k, v)
                if not q or q.rpartition(' is ')[2] in FULL or noise is not None and (k not in noise or re.search(r' is (Ok|Continue|Err|Break)$|next\(|\bloop\b', q)): continue
                cs = {a | b for a in cs for b in dnf(q)}
                if len(cs) > 64: return {frozenset()}
            out |= conjs(cs)
        out = {frozenset(q for q in w if not self.implied(q, w)) for w in out}
        return out
    def truth(self, t):
        """the canonical text of a boolean that short-circuit tests put together, or None"""
        al = self.e.alts_.get(t); js = self.e.altj.get(t)
        if not al or not js or len(js) != len(al) or any(b for _, _, b in al) or len(self.stack) > 40: return None
        def isbool(x): return x.op in ('cmp', 'not', 'isv', 'isvar') or x.op == 'k' and x.a[0] == 'bool'
        if not any(isbool(x) for x, _, _ in al): return None
        yes, no = set(), set()
        for (x, f, _), j in zip(al, js):
            v = self.nf(x)
            if v in ('never', None): continue
            if v[0] == '{' or 'loop' in v: return None
            rs = self.rows(f, j)
            d, u = dnf(v), dnf(neg(v))
            if len(rs) * max(len(d), len(u)) > 96: return None
            yes |= {a | b for a in rs for b in d}; no |= {a | b for a in rs for b in u}
        yes, no = conjs(yes), conjs(no)
        lits = {q for w in yes | no for q in w}
        one = {q for q in lits if opposite(q) not in lits and not (isvar(q) and any(isvar(o) and isvar(o)[0] == isvar(q)[0] and o != q for o in lits))}
        yes, no = ({w - one for w in s} for s in (yes, no))
        if any(not any(opposite(q) in b or isvar(q) and any(isvar(o) and isvar(o)[0] == isvar(q)[0] and not isvar(o)[1] & isvar(q)[1] for o in b) for q in a) for a in yes for b in no): return None
        if primes(yes | no) != {frozenset()}: 
            com = frozenset.intersection(*(yes | no)) if yes | no else frozenset()
            yes, no = ({w - com for w in s} for s in (yes, no))
            if primes(yes | no) != {frozenset()}: return None
        P = primes(yes)
        return boolnf(P) if len(P) < 5 else None
    def splits(self, f, depth=0):
        """the separate ways of failing: a failure that was merged (a helper that checks several things) is taken apart again"""
        for k, v in f.items():
            if k.op != 'D' or v[0] != 'in' or not v[1] <= {'Err', 'Break'}: continue
            x = k.a[0]
            while x.op in ('branch', 'maperr', 'optmap'): x = x.a[0]
            al = self.e.alts_.get(x) if x.op == 'phi' else None
            if not al or depth > 3 or any(b for _, _, b in al): continue
            out = []
            def leaves(x, f, d):
                al = self.e.alts_.get(x) if x.op == 'phi' and d < 5 else None
                if not al or any(b for _, _, b in al): out.extend(self.splits(f, depth + 1)); return
                for y, g, _ in al:
                    vs = self.e.variants(y, g)
                    if vs is not None and not vs & {'Err', 'Break'} or self.e.contradict(f, g): continue
                    leaves(y, {**g, **{a: and_vals(g[a], b) if a in g else b for a, b in f.items() if a != k}}, d + 1)
            leaves(x, f, 0)
            if len(out) > 1 and len(out) <= 16: return out
        return [f]
    def guarded(self, al, errs=False, fl=None):
        by = {}; bad = []; ex = self.exact(fl, errs) if fl and not self.show else {}
        for y, f in al:
            x = self.nf(y)
            if x is None or x == 'never':
                if errs and x is None: bad.append(f)
                continue
            by.setdefault(x, []).append(f)
        if bad: bad = [z for f in bad for z in self.splits(f)]
        g = {}
        for x, fs in by.items():                                          # x == Unit::Variant: the value and the variant are the same
            y = x; ff = meet_facts(fs)
            for k, v in ff.items():
                if k.op != 'D' or v[0] != 'in' or len(v[1]) != 1 or not v[1] <= UNITS: continue
                w = self.nf(k.a[0])
                if w and len(w) > 3 and w in y: y = re.sub(r'(?<![A-Za-z_0-9.@])%s(?![A-Za-z_0-9.@])' % re.escape(w), next(iter(v[1])), y)
            g.setdefault(y, []).extend(fs)
        out = []
        for x in sorted(g):
            mine = meet_facts(g[x])
            gs = set()
            for k, v in mine.items():
                for fs in [g[y] for y in g if y != x] + [bad]:
                    if any(k in f and not self._compat(v, f[k]) for f in fs):
                        q = self.guard(k, v)
                        if q and not (fs is bad and q.endswith((' is Some', ' is Ok', ' is Continue'))): gs |= conjuncts(q)
                        break
                else:
                    if self.show:                                # show=REGEX: tests that must hold although failing them is an error
                        q = self.guard(k, v)
                        if q and re.search(self.show, q): gs |= conjuncts(q)
            if not gs and x in ('True', 'False') and len(g) == 2:          # a short-circuit chain: the ways of leaving it early
                ot = meet_facts([f for y in g if y != x for f in g[y]]); ways = set()
                for f in g[x]:
                    qs = {q for k, v in f.items() if ot.get(k) != v for q in [self.guard(k, v)] if q}
                    if qs: ways.add(' & '.join(sorted(qs)))
                if len(ways) > 0: out += ['%s <- %s' % (x, w) for w in sorted(ways) if not any(set(u.split(' & ')) < set(w.split(' & ')) for u in ways)]; continue
            P = ex.get(x)
            if P and len(P) <= self.maxp and frozenset() not in P: gs = {q for q in gs if not q.startswith('!and(')}
            gs = set(conj(gs) or gs)
            if P and 1 < len(P) <= self.maxp and frozenset() not in P: out += [regard(x, conj(gs | w) or gs | w) for w in P]; continue
            if P and len(P) == 1: gs |= next(iter(P)); gs = set(conj(gs) or gs)
            out.append(x + (' <- ' + ' & '.join(sorted(gs)) if gs else ''))
        return ormerge(merge(out))
    def _compat(self, a, b):
        r = and_vals(a, b)
        return r[0] == 'out' or bool(r[1])
    def guard(self, k, v):
        if v[0] == 'in' and {True, False} <= set(v[1]): return None
        if (k.op in ('phi', 'branch', 'chk') or k.op == 'D' and k.a[0].op in ('phi', 'branch', 'chk')) and not (self.named and k.op == 'D' and k.a[0].op == 'phi' and (self.nf(k.a[0]) or '').startswith('cur(')): return None
        kind, vs = v
        if k.op == 'D':
            x = k.a[0]
            while x.op in ('transpose', 'transposed') and len(x.a) and x.a[0].op == 'optmap' and vs <= OPTV: x = x.a[0].a[0]
            if kind == 'in' and len(vs) == 1 and vs <= OPTV and (x.op == 'optfilter' or x.op == 'call' and LAST.search(x.a[0]) and LAST.search(x.a[0]).group(1) == 'zip' and 'Option' in x.a[0] or x.op == 'both'):
                p = self.guard(mk('D', x.a[0]), ('in', frozenset(['Some']))); c = self.nf(x.a[1]) if x.op == 'optfilter' else self.guard(mk('D', x.a[1]), ('in', frozenset(['Some'])))
                if x.op == 'optfilter' and x.a[0].op == 'agg' and x.a[0].a[1] == 'Some' and c: return c if 'Some' in vs else neg(c)
                if p and c:
                    r = boolcanon('and(%s, %s)' % (p, c))
                    return r if 'Some' in vs else boolcanon(neg(r))
            if x.op in ('optmap', 'maperr', 'okor', 'okopt', 'andthen'): return None
            t = self.nf(x)
            if t is None or 'loop' in t and len(t) > 300: return None
            return '%s %s %s' % (t, 'is' if kind == 'in' else 'not', '|'.join(sorted(map(str, vs))))
        t = self.nf(k)
        if t is None: return None
        if kind == 'in' and vs == frozenset([True]) and type(next(iter(vs))) is bool: return t
        if kind == 'in' and vs == frozenset([False]) and type(next(iter(vs))) is bool: return neg(t)
        if len(vs) == 1 and isinstance(next(iter(vs)), int): 
            r = 'Eq(%s)' % ', '.join(sorted((str(next(iter(vs))), t)))
            return r if kind == 'in' else '!' + r
        return '%s %s %s' % (t, '=' if kind == 'in' else '!=', '|'.join(sorted(map(str, vs))))
    def many(self, xs): return [self.nf(x) for x in xs]
    def nf(self, t):
        if isinstance(t, tuple): return '(' + ', '.join(map(str, self.many(t))) + ')'
        if not isinstance(t, T): return str(t)
        if t in self.memo: return self.memo[t]
        if t in self.stack: return 'loop'
        if len(self.stack) > 60: return '…'
        self.stack.append(t)
        r = self._nf(t)
        self.stack.pop()
        if r is None or 'loop' not in r: self.memo[t] = r
        return r
    def poly(self, t):
        """integer polynomial as {monomial(tuple of atoms): coeff}"""
        if t.op == 'k':
            v = num(t.a[1])
            if isinstance(v, int) and not isinstance(v, bool): return {(): v} if v else {}
        if t.op == 'bin' and t.a[0] in (ADD, SUB, MUL):
            x, y = self.poly(t.a[1]), self.poly(t.a[2])
            if t.a[0] == MUL:
                r = {}
                for a, ca in x.items():
                    for b, cb in y.items():
                        k = tuple(sorted(a + b)); r[k] = r.get(k, 0) + ca * cb
            else:
                s = 1 if t.a[0] == ADD else -1; r = dict(x)
                for b, cb in y.items(): r[b] = r.get(b, 0) + s * cb
            return {k: v for k, v in r.items() if v}
        if t.op == 'bin' and t.a[0].startswith('Shl') and isint(str(self.nf(t.a[2]))) and int(self.nf(t.a[2])) < 64:
            return {k: c << int(self.nf(t.a[2])) for k, c in self.poly(t.a[1]).items()}
        if t.op in ('cast',) and t.a[0] in ('IntToInt', 'as_') and not self.kc and not narrows(t): return self.poly(t.a[1])
        if t.op == 'vf' and t.a[1] in ('Ok', 'Some') and t.a[0].op == 'call' and re.search(r'checked_(add|sub|mul)$', t.a[0].a[0]):
            o = {'add': ADD, 'sub': SUB, 'mul': MUL}[t.a[0].a[0][-3:]]
            return self.poly(mk('bin', o, *t.a[0].a[2]))
        return {(self.nf(t),): 1}
    def divrem(self, p):
        """x - m*(x / m) is x % m, and x - x % m is m*(x / m)"""
        for k, c in list(p.items()):
            for i, at in enumerate(k):
                m = re.match(r'(div|rem)\((.*)\)$', at)
                if not m or c != -1 and not (m.group(1) == 'div' and len(k) == 1 and c < 0): continue
                from spec import split_top
                xs = split_top(m.group(2), ', ')
                if len(xs) != 2: continue
                x, d = xs; r = k[:i] + k[i + 1:]
                if m.group(1) == 'div' and not ((c == -1 and '*'.join(r) == d) or (not r and str(-c) == d)): continue
                if m.group(1) == 'rem' and r: continue
                px = self.polys.get(x, {(x,): 1})
                if any(p.get(q, 0) != w for q, w in px.items()) or k in px: continue
                q = {y: w for y, w in p.items() if y not in px and y != k}
                z = ('rem(%s, %s)' % (x, d),) if m.group(1) == 'div' else None
                if z is None:
                    at = 'div(%s, %s)' % (x, d); z, w = ((at,), int(d)) if isint(d) else (tuple(sorted([at] + d.split('*'))), 1)
                else: w = 1
                q[z] = q.get(z, 0) + w
                return self.divrem({y: w for y, w in q.items() if w})
        return p
    def ptext(self, p):
        p = self.divrem(p)
        r = self.ptext_(p)
        if r[:1] == '[': self.polys[r] = p
        return r
    def ptext_(self, p):
        if not p: return '0'
        parts = []
        for k in sorted(p, key=lambda k: (-len(k), k)):
            c = p[k]; m = '*'.join(k)
            s = str(abs(c)) if not m else m if abs(c) == 1 else '%d*%s' % (abs(c), m)
            parts.append((' - ' if c < 0 else ' + ') + s)
        r = ''.join(parts)
        r = r[3:] if r.startswith(' + ') else '-' + r[3:]
        return r if len(p) == 1 and list(p.values())[0] == 1 else '[%s]' % r
    def _nf(self, t):
        o, a = t.op, t.a
        if self.sub:
            r = self.sub(self, t)
            if r is not None: return r
        n = self.nf
        if o == 'k':
            v = num(a[1])
            if v is not None: return str(v)
            x = as_adt(a[1])
            if x: return x[1] + ('(%s)' % ', '.join(n(f) for f in agg_fields(t)) if x[2] else '')
            if a[1] is None: return LAST.search(a[2] or a[0]).group(1) if LAST.search(a[2] or a[0]) else (a[2] or a[0])
            if isinstance(a[1], tuple) and len(a[1]) == 2 and a[1][0] == '#' and a[1][1][0] == 'tup' and len(a[1][1][1]) > 3 and len(set(a[1][1][1])) == 1: return 'rep(%s, %d)' % (a[1][1][1][0], len(a[1][1][1]))
            return repr(a[1])
        if o == 'icall': return 'icall(%s)' % ', '.join(map(str, [n(a[0])] + [n(x) for x in a[1]]))
        if o == 'arg': return a[1] if len(a) > 1 else 'arg%s' % a[0]
        if o == 'agg':
            if a[1] in ('Ok', 'Some') and a[0].startswith('core::'): return n(a[2][0])
            if a[1] == 'Err' and a[0].startswith('core::'): return None
            nm = a[1] if a[0].rsplit('::', 1)[1] != a[1] else a[1]
            if nm == 'Range' and len(a[2]) == 2: return '%s..%s' % (n(a[2][0]), n(a[2][1]))
            return nm + ('(%s)' % ', '.join(map(str, self.many(a[2]))) if a[2] else '')
        if o == 'vf':
            if a[1] in ('Ok', 'Some', 'Continue'): return n(a[0])
            return '%s@%s.%s' % (n(a[0]), a[1], a[2])
        if o == 'f':
            if a[1] in ('array', 'typed') : return n(a[0])
            if a[0].op == 'call' and a[0].a[0].endswith('::metadata') and len(a[0].a[2]) == 1: return '%s(%s)' % (a[1], n(a[0].a[2][0]))
            if a[0].op == 'phi':
                al = self.e.alts_.get(a[0])
                if al and not any(back for _, _, back in al):
                    ls = alts(self.e, a[0])
                    if all(x.op in ('tup', 'agg', 'never') and (x.op != 'tup' or str(a[1]).isdigit()) for x, _ in ls):
                        q = [(x.a[0][int(a[1])], f) if x.op == 'tup' else (x, f) if x.op == 'never' else (x.a[2][int(a[1])], f) if str(a[1]).isdigit() and int(a[1]) < len(x.a[2]) else (None, f) for x, f in ls]
                        if all(x is not None for x, _ in q):
                            xs = tidy(self.guarded(q))
                            return None if not xs else xs[0] if len(xs) == 1 else '{%s}' % ' | '.join(xs)
            return '%s(%s)' % (a[1], n(a[0])) if a[1] == 'dtype' else '%s.%s' % (n(a[0]), a[1])        # a field and the accessor of that name
        if o == 'optmap':
            if a[1].op == 'never': return None
            r = n(a[1]); x = a[0]; g = set()
            while x.op in ('optmap', 'optfilter', 'andthen'):
                if x.op == 'optfilter': g.add(str(n(x.a[1])))
                x = x.a[1] if x.op == 'andthen' else x.a[0]
            return 'optfilter(%s, %s)' % (r, ' & '.join(sorted(g))) if g and r is not None else r
        if o in ('maperr', 'okopt', 'okor', 'transposed', 'transpose', 'unwrapit', 'chk', 'collect'): return n(a[0])
        if o == 'andthen': return n(a[1])
        if o == 'orelse':
            x, d = n(a[0]), n(a[1])
            if d is None or d == 'never': return x
            if x is None or x == 'never': return d
            if d == 'False': return compare('Eq', 'True', x)
            if d == 'True': return neg(compare('Eq', 'False', x))
            return 'or(%s, %s)' % (x, d)
        if o == 'map':
            cs = []; x = a[0]
            while isinstance(x, T) and x.op in ('map', 'filtered', 'enumerate', 'call', 'unwrapit'):
                if x.op == 'filtered': cs.append(str(n(x.a[1])))
                elif x.op == 'call' and not re.search(r'(enumerate|copied|cloned|into_iter|by_ref|peekable)$', x.a[0]): break
                x = x.a[0] if x.op != 'call' else x.a[2][0]
            return 'each(%s%s)' % (n(a[1]) if len(a) > 1 else n(a[0]), ' if ' + ' & '.join(sorted(set(cs))) if cs else '')
        if o == 'elem':
            x = str(n(a[0])); m = re.match(r'0\.\.(len\(.*\))$', x)
            if m and lentext(m.group(1)[4:-1]) == m.group(1): return 'pos(%s)' % m.group(1)[4:-1]
            return 'elem(%s)' % x
        if o == 'pos':
            x = a[0]
            while x.op in ('map', 'collect', 'unwrapit'): x = x.a[0]
            return position(n(x))
        if o == 'index': return self.index(t, a[0], a[1])
        if o == 'bin':
            if a[0] in (ADD, SUB, MUL): return self.ptext(self.poly(t))
            x, y = n(a[1]), n(a[2])
            if a[0].startswith('Shl') and isint(str(y)) and int(y) < 64: return self.ptext(self.poly(t))
            if a[0].startswith('Shr') and isint(str(y)) and int(y) < 64: return 'div(%s, %d)' % (x, 1 << int(y))          # powers of two
            if a[0] == 'BitAnd':
                for p, q in ((x, y), (y, x)):
                    if isint(str(q)) and int(q) & int(q) + 1 == 0 and not isint(str(p)): return 'rem(%s, %d)' % (p, int(q) + 1)
            if a[0] in ('BitAnd', 'BitOr') and any(isinstance(z, T) and z.op in ('not', 'cmp', 'isv', 'isvar') for z in a[1:3]):      # booleans
                return boolcanon('and(%s, %s)' % (x, y) if a[0] == 'BitAnd' else '!and(%s, %s)' % (neg(x), neg(y)))
            if a[0] in ('BitAnd', 'BitOr', 'BitXor') and y < x: x, y = y, x
            return '%s(%s, %s)' % (a[0].lower(), x, y)
        if o == 'cast':
            if len(a) > 2 and a[2] == 'bool' and a[0] == 'IntToInt': return '{0 <- %s | 1 <- %s}' % (neg(n(a[1])), n(a[1]))
            if narrows(t) and not self.kc: return 'as_%s(%s)' % (a[3], n(a[1]))
            return n(a[1]) if not self.kc else 'cast<%s>(%s)' % (a[3], n(a[1]))
        if o in ('min', 'max'): return minmax(o, self.many(a))
        if o == 'isv': return '%s is %s' % (n(a[0]), a[1])
        if o == 'not' and a[0].op == 'isv' and len(a[0].a) > 2 and a[0].a[1] in a[0].a[2]: return '%s is %s' % (n(a[0].a[0]), '|'.join(sorted(v for v in a[0].a[2] if v != a[0].a[1])))
        if o == 'not': return neg(n(a[0]))
        if o == 'cmp': return compare(a[0], n(a[1]), n(a[2]))
        if o == 'optfilter': return 'optfilter(%s, %s)' % (n(a[0]), n(a[1]))
        if o == 'len': return lentext(n(a[0]))
        if o == 'call':
            nm, g, v = a[0], a[1], a[2]
            if STRIP.search(nm) and len(v) == 1: return n(v[0])
            m = LAST.search(nm); l = m.group(1) if m else nm
            so = re.match(r'<(?:.*::)?([A-Za-z0-9_]+)(?:<.*>)?(?: as .*)?>::', nm)
            if l == 'len' and len(v) == 1: return lentext(n(v[0]))
            if l == 'from' and len(v) == 1: return n(v[0])
            if l == 'index' and len(v) == 2: return self.index(t, v[0], v[1])
            if l in ('min', 'max'): return minmax(l, self.many(v))
            if l == 'is_valid' and len(v) == 1: return neg('is_null(%s)' % n(v[0]))
            if l == 'is_null' and len(v) == 2: return neg('is_valid(%s)' % ', '.join(map(str, self.many(v))))
            if l == 'is_empty' and len(v) == 1: return compare('Eq', '0', lentext(n(v[0])))
            if nm.endswith('RangeInclusive<Idx>>::new') or nm.endswith('RangeInclusive::new'): return '%s..%s' % (n(v[0]), self.ptext(self.poly(mk('bin', ADD, v[1], mk('k', 'usize', 1, None)))))
            if l == 'collect_bool' and len(v) == 2:
                b = n(v[1]); c = str(n(v[0]))
                if b and b.startswith('fn(') and c.startswith('len('):
                    y = b[3:-1]
                    for x in (c[4:-1], 'maybe_null_slice(%s)' % c[4:-1]): y = y.replace('index(%s, $0)' % x, 'elem(%s)' % x)
                    if '$0' in y and '$1' not in y: y = y.replace('$0', 'pos(%s)' % c[4:-1])
                    if '$0' not in y: return 'each(%s)' % y
            if l in ('wrapping_add', 'wrapping_mul') and len(v) == 2: return '%s(%s)' % (l, ', '.join(sorted(map(str, self.many(v)))))
            if l == 'with_capacity' and len(v) == 1 or nm.endswith('BooleanBufferBuilder::new'): v = ()          # how much is allocated ahead
            pre = so.group(1) + '.' if so and l in ('try_new', 'new', 'from', 'from_vec') or so and l.startswith(('try_new', 'from_', 'try_from', 'with_')) else ''
            return '%s%s(%s)' % (pre, l, ', '.join(map(str, self.many(v))))
        if o == 'phi':
            al = self.e.alts_.get(t)
            if al is None: return 'phi'
            return self.phi(t, al)
        if o == 'acc': return 'acc'
        if o == 'fold': return 'fold(%s)' % ', '.join(str(n(x)) for x in a[1:4])
        if o == 'upd':
            if getattr(self, 'origin', False) and (LAST.search(a[0]).group(1) in IOFX or 'FlatBufferBuilder' in a[0]): return n(a[2])
            l = LAST.search(a[0]).group(1)
            if l == 'clone_from' and len(a[3]) == 1: return n(a[3][0])
            return '%s.%s(%s)' % (n(a[2]), l, ', '.join(map(str, self.many(a[3]))))
        if o == 'arr': return '[%s]' % ', '.join(map(str, self.many(a[0])))
        if o == 'setf': return n(a[2]) if 'new_uninit' in root(a[0]) else 'with(%s.%s=%s)' % (n(a[0]), a[1], n(a[2]))
        if o == 'discr': return 'discr(%s)' % n(a[0])
        if o == 'isvar': return 'is%s(%s)' % (a[1], n(a[0]))
        if o in ('iall', 'iany') and len(a) == 2:
            x, cs = a[0], []
            while isinstance(x, T) and x.op in ('map', 'collect', 'unwrapit', 'filtered'):
                if x.op == 'filtered': cs.append(str(n(x.a[1])))
                x = x.a[0]
            p = str(n(a[1])); q = p if o == 'iall' else neg(p)
            if cs: q = neg('and(%s)' % ', '.join(sorted(cs + [neg(q)])))
            r = 'iall(%s, %s)' % (n(x), q)
            return r if o == 'iall' else neg(r)
        if o == 'clo':
            r = self.e.clores.get(t)
            return 'closure' if r is None else 'fn(%s)' % n(r)
        if o == 'cbarg': return '$%d' % a[2]
        if o == 'mref':
            return 'mut'
        if o == 'tup': return '(%s)' % ', '.join(map(str, self.many(a[0])))
        if o == 'fn': return 'fn:' + short(a[1] or a[0])
        return '%s(%s)' % (o, ', '.join(str(n(x)) if isinstance(x, (T, tuple)) else str(x) for x in a))
    def span(self, i):
        """(start, end | None) of a range"""
        if i.op == 'agg' and i.a[0].startswith('core::ops::range::'):
            k, v = i.a[1], i.a[2]
            if k == 'Range' and len(v) == 2: return self.poly(v[0]), self.poly(v[1])
            if k == 'RangeFrom': return self.poly(v[0]), None
            if k == 'RangeTo': return {}, self.poly(v[0])
            if k == 'RangeFull': return {}, None
        return None
    def parts(self, t):
        """a subslice: (whole, start, end)"""
        x = None
        if t.op == 'index': x = t.a
        elif t.op == 'call' and len(t.a[2]) == 2 and LAST.search(t.a[0]) and LAST.search(t.a[0]).group(1) == 'index': x = t.a[2]
        if x and isinstance(x[1], T):
            s = self.span(x[1])
            if s:
                b, s0, e0 = self.parts(x[0])
                return b, padd(s0, s[0]), e0 if s[1] is None else padd(s0, s[1])
        return t, {}, None
    def index(self, t, x, i):
        if isinstance(i, T) and self.span(i):
            b, s, e = self.parts(t); b = self.nf(b)
            if e is None: return 'index(%s, RangeFrom(%s))' % (b, self.ptext(s)) if s else b
            return 'index(%s, %s..%s)' % (b, self.ptext(s), self.ptext(e))
        b, s, e = self.parts(x)
        if (s or e is not None) and isinstance(i, T) and i.op not in ('elem', 'pos'): return 'index(%s, %s)' % (self.nf(b), self.ptext(padd(s, self.poly(i))))
        return indexed(self.nf(x), self.nf(i))
    short = False; show = None; named = False; maxp = 4
    def memo_builder(self, step, t):
        ys = [y for x in step for y, _ in alts(self.e, x) if y is not t]
        return bool(ys) and all(y.op == 'upd' and LAST.search(y.a[0]).group(1) in PUSH for y in ys) and len({y.a[3] for y in ys}) == 1
    def init(self, xs, t):
        """what a loop-carried value starts with, when that depends on the way in"""
        r = sorted({y for x in xs for y in self(x) if y})
        return r[0] if len(r) == 1 else '{%s}' % ' | '.join(r) if r else None
    def phi(self, t, al):
        """loop-built vectors read like the iterator chain that builds them"""
        init = [x for x, f, back in al if not back]; step = [x for x, f, back in al if back]
        if step and self.short and not self.memo_builder(step, t):
            if self.named:                                          # a loop-carried value goes by the value it starts with
                if t not in self.lnames:
                    self.lnames[t] = 'L'
                    ini = {s for x in init for y, _ in alts(self.e, x) if y is not t for s in [self.nf(changed(y))]}
                    x = next(iter(ini)) if len(ini) == 1 else None
                    if x is None and 1 < len(init) + len(ini) and not step[1:]: x = self.init(init, t)
                    if x and len(x) <= 200 and 'loop' not in x and x != '0': self.lnames[t] = 'cur(%s)' % x
                return self.lnames[t]
            return 'L'
        if step:
            out = set()
            for x in step:
                for y, _ in alts(self.e, x):
                    if y is t: continue
                    if y.op == 'upd' and LAST.search(y.a[0]).group(1) in PUSH:
                        base = [b for b, _ in alts(self.e, y.a[2])]
                        if y.a[2] is not t and t in base and any(b is not t and not (b.op == 'upd' and LAST.search(b.a[0]).group(1) in PUSH) for b in base): out.add('afresh')      # emptied on the way
                        out.add('each(%s)' % ', '.join(map(str, self.many(y.a[3]))))
                    else:
                        s = self.nf(y)
                        if s is not None: out.add(s)
                fl = self.flat(x)                                   # a step that is not always taken
                if fl and any(y is t for y, _ in fl) and any(y is not t for y, _ in fl):
                    ex = self.exact(fl, False)
                    for y, P in ex.items():
                        if y in out and P and len(P) <= 4 and frozenset() not in P: out.discard(y); out |= {regard(y, w) for w in P}
            ini = {s for x in init for y, _ in alts(self.e, x) for s in [self.nf(y)] if s is not None and y is not t}
            ini = {s for s in ini if not re.match(r'(Vec\.)?(new|with_capacity)\(.*\)$|\[\]$', s)}
            if len(step) == len(init) == 1 and ini == {'0'} and step[0].op == 'bin' and step[0].a[0] == ADD:
                p = dict(self.poly(step[0]))
                if p.pop(('loop',), 0) == 1 and p and not any('loop' in m for k in p for m in k): return 'sum(each(%s))' % self.ptext(p)
            xs = sorted(ini | out)
            if getattr(self, "origin", False) and len(xs) == 2 and 'loop' in xs: xs.remove('loop')
            return xs[0] if len(xs) == 1 else 'loop{%s}' % ' | '.join(xs)
        b = self.truth(t)
        if b: return b
        xs = self.guarded([(x, f) for x, f in alts(self.e, t) if x is not t], fl=self.flat(t))
        if not xs: return None
        xs = tidy(xs)
        return xs[0] if len(xs) == 1 else '{%s}' % ' | '.join(xs)
