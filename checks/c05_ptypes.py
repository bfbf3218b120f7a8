from lib import *
ID = 'C05'
TITLE = 'Physical types are classified, converted and dispatched consistently'
RULE = ('every table over PType (classification, widths, maxima, sign partners, text, DType views, native-type associations, NaN/total-order/bit-equality) is extracted by conditional constant propagation with PType bound to each variant and compared with the '
        'definition of the type; in every function of the workspace that dispatches on a PType, the code an arm runs may be instantiated at the arm\'s own native type, its sign/float partner, or a type every arm uses - never at another arm\'s type')
NAT = {'U8': 'u8', 'U16': 'u16', 'U32': 'u32', 'U64': 'u64', 'I8': 'i8', 'I16': 'i16', 'I32': 'i32', 'I64': 'i64', 'F16': 'half::binary16::f16', 'F32': 'f32', 'F64': 'f64'}
INV = {v: k for k, v in NAT.items()}
W = {k: int(k[1:]) for k in NAT}
SIGNED = {k: 'I' + k[1:] if k[0] == 'U' else k for k in NAT}
UNSIGNED = {k: 'U' + k[1:] if k[0] == 'I' else k for k in NAT}
NP = 'vortex_dtype::ptype::NativePType'
STR = [('Null', None), ('Bool', 0), ('Primitive', 1), ('Utf8', 0), ('Binary', 0), ('Struct', 1), ('List', 1), ('Extension', 1)]
# arms that legitimately carry another native type (the format or library has no such type)
OK = {('pyvortex::expr::scalar_value', 'F16', 'F32'): 'Python has one float type; f16 is extracted as f32 and rounded',
      ('pyvortex::scalar::scalar_value_into_py', 'F16', 'F32'): 'Python has one float type; f16 is widened to f32',
      ('vortex::array::arbitrary::random_array', 'F16', 'U16'): 'test-data generator', ('vortex_scalar::arbitrary::random_pvalue', 'F16', 'U16'): 'test-data generator'}

def one(r):
    l = alts(r.e, r.ret) if r.ret is not None else []
    return l[0][0] if len(l) == 1 else None

def num(t):
    x = t.a[1]
    return int(x[1][1]) if isinstance(x, tuple) and x[0] == '#' and isinstance(x[1], tuple) and x[1][0] == 'big' else kv(t)

def tables(c):
    w = lambda m: c.where(m)
    for v in NAT:
        pt = agg(PTYPE, v)
        exp = {'is_unsigned_int': v[0] == 'U', 'is_signed_int': v[0] == 'I', 'is_int': v[0] in 'UI', 'is_float': v[0] == 'F', 'byte_width': W[v] // 8, 'bit_width': W[v]}
        if v[0] != 'F': exp['max_value'] = 2 ** W[v] - 1 if v[0] == 'U' else 2 ** (W[v] - 1) - 1
        for m, x in exp.items():
            p = '<%s>::%s' % (PTYPE, m)
            r = c.run(p, {1: pt}, depthlimit=12) if False else c.run(p, {1: pt})
            if r is None: continue
            t = one(r)
            c.req(t is not None and isk(t) and num(t) == x, 'ptype table', '%s:%s' % (p, v), '%s(%s) must be %s, is %s' % (m, v, x, fmt(t) if t is not None else None), w(p), sample='%s(%s)=%s' % (m, v, x))
        for m, x in (('to_signed', SIGNED[v]), ('to_unsigned', UNSIGNED[v])):
            p = '<%s>::%s' % (PTYPE, m); r = c.run(p, {1: pt})
            if r is None: continue
            t = one(r); g = variant_name(t) if t is not None else None
            c.req(g == x, 'ptype table', '%s:%s' % (p, v), '%s(%s) must be %s, is %s' % (m, v, x, g), w(p))
        # text
        p = '<%s as core::fmt::Display>::fmt' % PTYPE; r = c.run(p, {1: pt})
        if r is not None:
            txt = {kv(x) for e in r.events for a in e.vals for x in walk(a) if isk(x) and isinstance(kv(x), str)}
            c.req(txt == {v.lower()}, 'ptype table', p + ':' + v, 'PType::%s prints as %s' % (v, sorted(txt)), w(p))
        # PType <-> DType
        for p in ('<&%s as core::convert::From<%s>>::from' % (DTYPE, PTYPE), '<%s as core::convert::From<%s>>::from' % (DTYPE, PTYPE)):
            r = c.run(p, {1: pt})
            if r is None: continue
            t = kc(one(r))
            c.req(t == agg(DTYPE, 'Primitive', (pt, agg(NULLABILITY, 'NonNullable'))), 'ptype dtype', p + ':' + v, 'the DType of PType::%s must be the non-nullable primitive of that type, is %s' % (v, fmt(t) if t is not None else None), w(p))
        for n in ('Nullable', 'NonNullable'):
            p = '<%s as core::convert::TryFrom<&%s>>::try_from' % (PTYPE, DTYPE)
            r = c.run(p, {1: agg(DTYPE, 'Primitive', (pt, agg(NULLABILITY, n)))})
            if r is None: continue
            t = one(r)
            c.req(t is not None and t.op == 'agg' and t.a[1] == 'Ok' and variant_name(t.a[2][0]) == v, 'ptype dtype', '%s:%s:%s' % (p, v, n), 'PType of Primitive(%s, %s) is %s' % (v, n, fmt(t) if t is not None else None), w(p))
            for m in ('is_unsigned_int', 'is_signed_int', 'is_int', 'is_float', 'is_boolean', 'is_struct'):
                q = '<%s>::%s' % (DTYPE, m); r = c.run(q, {1: agg(DTYPE, 'Primitive', (pt, agg(NULLABILITY, n)))})
                if r is None: continue
                t = one(r)
                c.req(t is not None and isk(t) and kv(t) == exp.get(m, False), 'ptype dtype', '%s:%s:%s' % (q, v, n), 'DType::%s of Primitive(%s, %s) is %s' % (m, v, n, fmt(t) if t is not None else None), w(q))
        # native type
        nt = NAT[v]
        k = '<%s as %s>::PTYPE' % (nt, NP)
        x = c.F.consts.get(k)
        g = (x or {}).get('v', {}).get('var') if isinstance((x or {}).get('v'), dict) else None
        c.req(g == v, 'native type', k, 'the native type %s is registered as PType::%s' % (nt, g), k)
        a, b = mk('arg', 1, 'self'), mk('arg', 2, 'other')
        for m in ('is_nan', 'compare', 'is_eq'):
            p = '<%s as %s>::%s' % (nt, NP, m); r = c.run(p)
            if r is None: continue
            t = one(r)
            ok = t is not None and native(t, m, v, nt)
            c.req(ok, 'native type', p, {'is_nan': 'is_nan must be the IEEE test for floats and false for integers', 'compare': 'compare must be the total order of the type', 'is_eq': 'is_eq must be bit equality'}[m] + ' for %s, computes %s' % (nt, fmt(t) if t is not None else None), w(p))
        p = '<%s as vortex_dtype::ptype::ToBytes>::to_le_bytes' % nt; r = c.run(p)
        if r is not None:
            t = one(r)
            lens = [kv(e.vals[1]) for e in r.events if e.p.endswith('from_raw_parts') and isk(e.vals[1])]
            own = any(e.p.endswith('to_le_bytes') or e.p.endswith('to_ne_bytes') for e in r.events)
            c.req(own or lens == [W[v] // 8], 'native type', p, 'to_le_bytes of %s must expose exactly its %d bytes, exposes %s' % (nt, W[v] // 8, lens), w(p))
        p = '<%s as vortex_dtype::ptype::TryFromBytes>::try_from_le_bytes' % nt; r = c.run(p)
        if r is not None:
            fs = {e.name for e in r.events if re.search(r'::from_(le|be|ne)_bytes$', e.name)}
            c.req(fs and all(f.endswith('::from_le_bytes') and ('<%s>' % nt) in f.replace('core::num::', '') or f == '<%s>::from_le_bytes' % nt for f in fs), 'native type', p, 'try_from_le_bytes of %s must read little-endian bytes of that type, uses %s' % (nt, sorted(fs)), w(p))
    # non-primitive dtypes
    for d, k in STR:
        if d == 'Primitive': continue
        for n in ('Nullable', 'NonNullable'):
            val = mkd(d, k, n)
            for m in ('is_unsigned_int', 'is_signed_int', 'is_int', 'is_float', 'is_boolean', 'is_struct'):
                q = '<%s>::%s' % (DTYPE, m); r = c.run(q, {1: val})
                if r is None: continue
                t = one(r); want = m == {'Bool': 'is_boolean', 'Struct': 'is_struct'}.get(d)
                c.req(t is not None and isk(t) and kv(t) == want, 'dtype class', '%s:%s:%s' % (q, d, n), 'DType::%s of a %s is %s' % (m, d, fmt(t) if t is not None else None), w(q))
            p = '<%s as core::convert::TryFrom<&%s>>::try_from' % (PTYPE, DTYPE); r = c.run(p, {1: val})
            if r is not None:
                t = one(r)
                c.req(t is not None and t.op == 'agg' and t.a[1] == 'Err', 'dtype class', '%s:%s' % (p, d), 'a %s dtype must have no PType, gives %s' % (d, fmt(t) if t is not None else None), w(p))
    # nullability accessors
    pt = agg(PTYPE, 'I32')
    for d, k in STR:
        for n in ('Nullable', 'NonNullable'):
            val = mkd(d, k, n)
            nn = 'Nullable' if d == 'Null' else n
            q = '<%s>::is_nullable' % DTYPE; r = c.run(q, {1: val})
            if r is not None: c.req(one(r) is not None and isk(one(r)) and kv(one(r)) == (nn == 'Nullable'), 'nullability', q + ':' + d + n, 'is_nullable of %s(%s) is %s' % (d, n, r.ret), w(q))
            q = '<%s>::nullability' % DTYPE; r = c.run(q, {1: val})
            if r is not None: c.req(one(r) is not None and variant_name(one(r)) == nn, 'nullability', q + ':' + d + n, 'nullability of %s(%s) is %s' % (d, n, r.ret), w(q))
            for m, to in (('as_nonnullable', 'NonNullable'), ('as_nullable', 'Nullable')):
                q = '<%s>::%s' % (DTYPE, m); r = c.run(q, {1: val})
                if r is not None:
                    t = kc(one(r)); want = mkd(d, k, to)
                    c.req(t == want, 'nullability', q + ':' + d + n, '%s of %s is %s, must be %s' % (m, fmt(val), fmt(t) if t is not None else None, fmt(want)), w(q))
            for to in ('Nullable', 'NonNullable'):
                q = '<%s>::with_nullability' % DTYPE; r = c.run(q, {1: val, 2: agg(NULLABILITY, to)})
                if r is not None:
                    t = kc(one(r)); want = mkd(d, k, to)
                    c.req(t == want, 'nullability', q + ':' + d + n + to, 'with_nullability(%s) of %s is %s, must be %s' % (to, fmt(val), fmt(t) if t is not None else None, fmt(want)), w(q))

def mkd(d, k, n):
    if k is None: return agg(DTYPE, d)
    if d == 'Primitive': return agg(DTYPE, d, (agg(PTYPE, 'I32'), agg(NULLABILITY, n)))
    return agg(DTYPE, d, ((mk('arg', 'inner'),) if k else ()) + (agg(NULLABILITY, n),))

def kc(t):
    if t is None: return None
    if t.op == 'k':
        x = as_adt(t.a[1])
        if x: return agg(x[0], x[1], tuple(kc(f) for f in agg_fields(t)))
        return t
    if t.op == 'agg': return mk('agg', t.a[0], t.a[1], tuple(kc(f) for f in t.a[2]))
    if t.op == 'call' and t.a[0].endswith('::clone'): return kc(t.a[2][0])
    return t

def native(t, m, v, nt):
    a1 = lambda x: x.op == 'arg' and x.a[0] == 1
    a2 = lambda x: x.op == 'arg' and x.a[0] == 2
    if m == 'is_nan':
        if v[0] != 'F': return isk(t) and kv(t) is False
        if t.op == 'call': return t.a[0].endswith('::is_nan') and nt in t.a[0] and a1(t.a[2][0])
        return t.op == 'not' and t.a[0].op == 'cmp' and t.a[0].a[0] == 'Eq' and all(a1(x) for x in t.a[0].a[1:])
    if m == 'compare':
        if t.op != 'call' or not (a1(t.a[2][0]) and a2(t.a[2][1])): return False
        return t.a[0].endswith('::total_cmp') and nt in t.a[0] if v[0] == 'F' else t.a[0].endswith('Ord>::cmp') and nt in t.a[0]
    if t.op != 'cmp' or t.a[0] != 'Eq': return False
    x, y = t.a[1:]
    if v[0] == 'F':
        if not all(z.op == 'call' and re.search(r'::to_(bits|[lnb]e_bytes)$', z.a[0]) and nt in z.a[0] for z in (x, y)) or x.a[0] != y.a[0]: return False
        x, y = x.a[2][0], y.a[2][0]
    return a1(x) and a2(y) or a2(x) and a1(y)

def dispatch(c):
    nd = 0
    for p, b in sorted(c.F.bodies.items()):
        if not any('ptype::PType' in str(l) or 'dtype::DType' in str(l) for l in b['locals']): continue
        try: e = c.ev(maxdepth=0); r = e.run(p)
        except Exception: continue
        arms = {}                                   # ptype -> {(callee, native)}
        ln = {}
        for x in r.events:
            ls = [next(iter(v[1])) for t, v in x.facts.items() if t.op == 'D' and v[0] == 'in' and len(v[1]) == 1 and next(iter(v[1])) in NAT]
            if not ls: continue
            l = ls[-1]
            if any(q != l for q in ls): continue
            g = {INV[y] for z in (x.g or ()) for y in natives(z)}
            if x.p.endswith('_iter') or x.p.endswith('_accessor'):
                m = re.search(r'PrimitiveArrayTrait::(\w+?)_(iter|accessor)$', x.p)
                if m and m.group(1).upper() in NAT: g = {m.group(1).upper()}
            arms.setdefault(l, set())
            for y in g:
                nm = x.p if not x.p.endswith(('_iter', '_accessor')) else 'PrimitiveArrayTrait::iter'
                arms[l].add((nm, y)); ln[(l, nm, y)] = (x.fn, x.line)
        if sum(1 for a in arms.values() if a) < 2: continue
        c.fns.add(p); nd += 1
        root = p.split('::{closure')[0]
        for l, us in sorted(arms.items()):
            if us: c.ob('dispatch arm', '%s %s' % (short(p), l))
            for nm, y in sorted(us):
                if W[y] == W[l]:
                    # own type or partner: but a partner used where the others use their own type is a slip
                    if y == l: continue
                    others = [o for o in arms if o != l and o[0] == l[0] and arms[o]]
                    same = sum(1 for o in others if (nm, y[0] + o[1:]) in arms[o])
                    own = sum(1 for o in others if (nm, o) in arms[o] and (nm, y[0] + o[1:]) not in arms[o])
                    bad = own > same and (nm, l) not in us and len(others) >= 2
                else:
                    others = [o for o in arms if o != l and arms[o] and o != y]
                    has = sum(1 for o in others if (nm, y) in arms[o])
                    bad = has == 0 and len(others) >= 1 if len(others) < 2 else 2 * has < len(others)
                    # a width pattern shared by the class (e.g. u8 -> u16 widening) is not a slip
                    if bad and len(others) >= 2:
                        k = W[y] - W[l]
                        bad = not any((nm, q) in arms[o] for o in others if o[0] == l[0] for q in NAT if q[0] == y[0] and (W[q] * W[l] == W[y] * W[o]) and q != o)
                if bad and (root, l, y) in OK: c.ob('documented exception', '%s %s as %s: %s' % (root, l, y, OK[(root, l, y)])); continue
                f, line = ln[(l, nm, y)]
                c.req(not bad, 'dispatch use', '%s:%s:%s:%s' % (root, l, short(nm), y), 'the arm for PType::%s runs %s at native type %s' % (l, short(nm), NAT[y]), c.where(f, line))
    return nd

def natives(g):
    return [x for x in re.findall(r'half::binary16::f16|\b[uif](?:8|16|32|64)\b', g) if x in INV] if isinstance(g, str) else []

def accessors(c):
    """PrimitiveArrayTrait: x_iter wraps x_accessor; an implementation hands out x_accessor exactly for arrays of type x"""
    TR = 'vortex::variants::PrimitiveArrayTrait'
    for v in NAT:
        p = '%s::%s_iter' % (TR, v.lower())
        r = c.run(p)
        if r is not None:
            n = [e.p for e in r.events if e.p.startswith(TR) and e.p.endswith('_accessor')]
            c.req(n == ['%s::%s_accessor' % (TR, v.lower())], 'accessor', p, '%s_iter iterates %s' % (v.lower(), n), c.where(p))
    for so, d in sorted(c.F.timpl.get(TR, {}).items()):
        for m in sorted(d):
            if not m.endswith('_accessor'): continue
            v = m[:-9].upper()
            for q in NAT:
                p = d[m]
                if c.body(p) is None: continue
                dt = agg(DTYPE, 'Primitive', (agg(PTYPE, q), agg(NULLABILITY, 'NonNullable')))
                def hook(ev, fr, s, pp, rr, g, args, V):
                    n = rr or pp
                    if n.endswith('ArrayDType>::dtype') or n.endswith('ArrayDType::dtype') or n.endswith('::dtype'): return dt
                    if n.endswith('::ptype'): return agg(PTYPE, q)
                e = c.ev(hook=hook, maxdepth=4); r = e.run(p)
                vs = {variant_name(t) if t.op in ('agg', 'k') else '?' for t, _ in alts(e, r.ret)} if r.ret is not None else {'?'}
                c.req(vs == ({'Some'} if q == v else {'None'}), 'accessor', '%s:%s' % (p, q), '%s of an array of %s returns %s' % (m, q, sorted(vs)), c.where(p))

def run(c):
    c.req(sorted(c.F.variants(PTYPE) or []) == sorted(NAT), 'enum', 'PType', 'the variants of PType changed')
    tables(c); accessors(c); dispatch(c)
    c.floor('ptype table', 80); c.floor('native type', 50); c.floor('dispatch arm', 150); c.floor('nullability', 60); c.floor('accessor', 80)
