"""Array model: what every encoding's constructor stores, what its accessors read and what its visitor visits."""
from lib import *
CHILD, BUFFER, LEN = '<vortex::Array>::child', '<vortex::Array>::buffer', '<vortex::Array>::len'
OPQ = ['<vortex::Array>::', 'vortex::validity', '<vortex_dtype', 'try_from_parts', 'TypedArray<D>>::', 'ArrayDType', 'vortex_error', 'vortex_scalar', 'BooleanBuffer', 'vortex_buffer']
OPQ_ACC = [x for x in OPQ if x != 'vortex::validity'] + ['<vortex::validity::Validity>', '<vortex::validity::Validity as']
VISIT = 'vortex::array::visitor::ArrayVisitor::'

def self_of(n):
    m = re.match(r'<([A-Za-z_0-9:]+Array)( as [^>]*)?>::', n)
    return m.group(1) if m else None

def rebuild(e, t, leaf, memo=None):
    """bottom-up rewrite with the engine's folding rules and value-preserving normalisation"""
    memo = {} if memo is None else memo
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        if x in memo: return memo[x]
        memo[x] = x
        r = leaf(x)
        if r is None:
            a = tuple(go(y) for y in x.a)
            r = fold(e, x.op, a)
        memo[x] = r
        return r
    return go(t)

DT_IS_PRIM = ('is_int', 'is_unsigned_int', 'is_signed_int', 'is_float', 'is_primitive')
def fold(e, op, a):
    if op == 'f' and len(a) == 2 and a[0].op in ('agg', 'tup'):
        t = a[0]
        if t.op == 'tup' and a[1].isdigit(): return t.a[0][int(a[1])]
        ad = e.F.adts.get(t.a[0]) if t.op == 'agg' else None
        if ad:
            names = [f[0] for f in ad['v'][0][2]]
            if a[1] in names: return t.a[2][names.index(a[1])]
    if op == 'vf' and a[0].op == 'agg' and a[0].a[1] == a[1] and a[2] == '0': return a[0].a[2][0]
    if op == 'cast' and a[0] in ('IntToInt', 'as_'): return a[1]
    if op == 'bin': return e.binop(*a)
    if op == 'cmp': return e.cmp(*a)
    if op == 'not': return e.neg(a[0])
    if op == 'call':
        n, v = a[0], a[2]
        s = n.rsplit('::', 1)[1]
        if n.startswith('<vortex_dtype') or n.startswith('core::convert') or 'core::convert::' in n:
            if s in ('from', 'into') and len(v) == 1 and ('DType as core::convert::From<vortex_dtype::ptype::PType' in n or (s == 'into')): return agg(DTYPE, 'Primitive', (v[0], unit_(NULLABILITY, 'NonNullable')))
            if s == 'with_nullability' and v[0].op == 'agg' and v[0].a[1] == 'Primitive': return agg(DTYPE, 'Primitive', (v[0].a[2][0], v[1]))
            if s == 'as_nullable': return fold(e, 'call', (n.replace('as_nullable', 'with_nullability'), (), (v[0], unit_(NULLABILITY, 'Nullable')), None))
            if s == 'nullability' and v[0].op == 'agg' and v[0].a[1] == 'Primitive': return v[0].a[2][1]
            if s == 'nullability' and v[0].op == 'call' and v[0].a[0].endswith('with_nullability'): return v[0].a[2][1]
            if s == 'try_from' and 'PType as' in n:
                if v[0].op == 'agg' and v[0].a[1] == 'Primitive': return Ok(v[0].a[2][0])
                return mk('call', 'ptype-of', (), (v[0],), None)
        if n.endswith('ArrayDType>::dtype') or n == 'vortex::ArrayDType::dtype': return mk('call', 'dtype', (), v, None)
        return mk('call', n, (), v, a[3] if len(a) > 3 else None)
    return mk(op, *a)
def unit_(adt, v): return agg(adt, v)

def kconst(t):
    """enum constants appear as literals or aggregates: make them aggregates"""
    if t.op == 'k':
        x = as_adt(t.a[1])
        if x and x[0] in (NULLABILITY, PTYPE, DTYPE): return agg(x[0], x[1], tuple(kconst(f) for f in agg_fields(t)))
    return t

class Ctor: pass
class Acc: pass

_mem = {}
def model(c):
    F = c.F
    if 'm' in _mem: return _mem['m']
    ctors, accs, visits = {}, {}, {}
    for n in sorted(F.bodies):
        b = F.bodies[n]
        direct = {t[1][1]['fn']['p'] for st, t in b['b'] if t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]}
        if any(x.endswith('TypedArray<D>>::try_from_parts') or x.endswith('::try_from_parts') for x in direct) and not b.get('exp'):
            so = self_of(n)
            if so is None: continue
            e = c.ev(opaque=OPQ, maxdepth=4); r = e.run(n)
            for x in r.events:
                if not x.p.endswith('try_from_parts') or x.fn != n and not x.fn.startswith(n): continue
                m = x.vals[2]
                if not (m.op == 'agg' or m.op == 'phi'): pass
                k = Ctor(); k.path, k.dtype, k.len, k.meta, k.buffer, k.children, k.stats = n, *(x.vals[:2]), m, (x.vals[3] if len(x.vals) == 6 else NONE), x.vals[-2], x.vals[-1]
                k.facts, k.ev, k.event = x.facts, e, x
                ctors.setdefault(so, []).append(k)
        p = n[:n.find('::{closure')] if '::{closure' in n else n
        if CHILD in direct and self_of(p):
            accs.setdefault(self_of(p), {}).setdefault(p, None)
    out = {}
    for so in accs:
        for p in accs[so]:
            e = c.ev(opaque=OPQ_ACC, maxdepth=4); r = e.run(p)
            a = Acc(); a.path, a.ev, a.r = p, e, r
            a.reads = [x for x in r.events if x.p == CHILD]
            accs[so][p] = a
    for so, d in sorted(F.timpl.get('vortex::array::visitor::AcceptArrayVisitor', {}).items()):
        p = d['accept']
        e = c.ev(opaque=OPQ_ACC, maxdepth=5); r = e.run(p)
        visits[so] = (p, e, r, [x for x in r.events if x.p.startswith(VISIT)])
    _mem['m'] = (ctors, accs, visits)
    return _mem['m']

def slot(t):
    """canonical slot of a child index term"""
    if isk(t): return (kv(t),)
    if t.op == 'bin' and t.a[1 - 1] == 'Add':
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if isk(x): return (kv(x), 'var' if has_pos(y) else fmt_len(y))
    if has_pos(t): return (0, 'var')
    return (0, fmt_len(t))
def has_pos(t): return mentions(t, lambda x: x.op in ('elem', 'pos', 'next') or x.op == 'arg' and x.a[0] != 1)
def fmt_len(t): return 'n'

def index_alts(ev, t):
    """the values an index may take; a truth value turned into a number is 1 or 0"""
    out = []
    for x, f in alts(ev, t):
        if x.op == 'cast' and 'bool' in x.a:
            b = next(y for y in x.a if isinstance(y, type(x)))
            for n, v in ((1, True), (0, False)): out.append((K(n, 'usize'), dict(f) | {b: ('in', frozenset([v]))}))
        else: out.append((x, f))
    return out
def slots(ev, t):
    return sorted({slot(x) for x, _ in index_alts(ev, t)}, key=str)

def chained(x):
    """the two sides of `a.chain(b)` under a collect"""
    t = x.a[0]
    while t.op in ('call', 'collect') and t.op == 'call' and re.search(r'::(into_iter|iter|cloned|copied)$', t.a[0]): t = t.a[2][0]
    if t.op == 'call' and t.a[0].endswith('::chain'): return t.a[2][0], t.a[2][1]
def is_option(ev, t):
    """an optional value handed to `extend` adds at most one element"""
    return t.op == 'call' and t.a[0].endswith('Validity>::into_array') or t.op == 'arg' and getattr(ev, 'argtys', {}).get(t.a[0], '').startswith('core::option::Option<')
def contents(ev, t, facts=None, d=0):
    """alternatives of a vector-building term: list of (list of parts, facts); a part is ('one', x) or ('many', iterator term)"""
    out = []
    for x, f in alts(ev, t, facts):
        o = x.op
        if d > 12: out.append(([('?', x)], f)); continue
        if o == 'arr': out.append(([('one', y) for y in x.a[0]], f))
        elif o == 'call' and re.search(r'Vec<.*>>::(new|with_capacity)$', x.a[0]): out.append(([], f))
        elif o == 'default': out.append(([], f))
        elif o == 'call' and x.a[0].endswith('::into') or o == 'call' and x.a[0].endswith('::from') or o == 'call' and x.a[0].endswith('into_iter'): out += contents(ev, x.a[2][0], f, d + 1)
        elif o == 'upd':
            nm = x.a[0].rsplit('::', 1)[1]
            for base, bf in contents(ev, x.a[2], f, d + 1):
                if nm == 'push': out.append((base + [('one', x.a[3][0])], bf))
                elif nm == 'extend' and is_option(ev, x.a[3][0]):
                    o = x.a[3][0]
                    for v in (True, False): out.append((base + [('one', mk('vf', o, 'Some', '0'))] * v, dict(bf) | {mk('isvar', o, 'Some'): ('in', frozenset([v]))}))
                elif nm in ('extend', 'extend_from_slice', 'append'): out.append((base + [('many', x.a[3][0])], bf))
                else: out.append((base + [('?', x)], bf))
        elif o == 'collect' and chained(x):
            for base, bf in contents(ev, chained(x)[0], f, d + 1):
                y = chained(x)[1]
                if is_option(ev, y):
                    for v in (True, False): out.append((base + [('one', mk('vf', y, 'Some', '0'))] * v, dict(bf) | {mk('isvar', y, 'Some'): ('in', frozenset([v]))}))
                else: out += [(base + b2, dict(bf) | f2) for b2, f2 in contents(ev, y, bf, d + 1)]
        elif o == 'collect':
            out.append(([('many', x.a[0])], f))
        else: out.append(([('many', x)], f))
    return out
def show(x): return fmt(x)[:200]
