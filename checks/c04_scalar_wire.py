from wire import *
ID = 'C04'
TITLE = 'Scalar values survive the wire: read back with the value they were written with'
RULE = ('round trip by composition, on every ScalarValue variant x PValue variant: the protobuf encoder\'s result term is fed to the decoder, each serde serialisation is matched with the visitor methods its data-model kind may be '
        'delivered to (any width of the same signedness), and each wire PValue is read as its dtype; a read may only apply conversions that are value-preserving (widening of the same signedness, checked narrowing, f16 <-> its bits); '
        'equality and ordering of scalars are evaluated on every pair of wire widths and must compare those values')
SV, PV, SC, PS = ('vortex_scalar::' + x for x in ('value::ScalarValue', 'pvalue::PValue', 'Scalar', 'primitive::PrimitiveScalar'))
PE = '<vortex_proto::scalar::ScalarValue as core::convert::From<&%s>>::from' % SV
U, I, FL = ['U8', 'U16', 'U32', 'U64'], ['I8', 'I16', 'I32', 'I64'], ['F16', 'F32', 'F64']
CLS = {v: c for c in (U, I, FL) for v in c}
RT = {'F16': 'half::binary16::f16'}
rt = lambda v: RT.get(v, v.lower())
NNUL = agg(NULLABILITY, 'NonNullable')
OPQ = ['vortex_buffer']
x, y = mk('arg', 71, 'x'), mk('arg', 72, 'y')
class Lossy(Exception): pass

def width(t):
    m = re.search(r'([uif])(\d+|size)$', t)
    if not m: raise Lossy('unknown numeric type ' + t)
    return m.group(1), 64 if m.group(2) == 'size' else int(m.group(2))
def okconv(a, b, checked):
    (ka, wa), (kb, wb) = width(a), width(b)
    if 'f' in (ka, kb): return ka == kb and wa <= wb
    if checked: return True
    return wb >= wa if ka == kb else (ka == 'u' and wb > wa)
def strip(t):
    """the value a term denotes, after removing conversions that cannot change it"""
    if t.op == 'cast':
        a, b = t.a[2], t.a[3]
        if not okconv(a, b, False): raise Lossy('the cast %s -> %s can change the value' % (a, b))
        return strip(t.a[1])
    if t.op == 'call' and t.a[0].endswith(('::from_bits', '::to_bits')):
        inner = strip(t.a[2][0])
        other = '::to_bits' if t.a[0].endswith('::from_bits') else '::from_bits'
        if inner.op == 'call' and inner.a[0].endswith(other) and inner.a[0].split('::')[:-1] == t.a[0].split('::')[:-1]: return inner.a[2][0]
        return mk('call', t.a[0], t.a[1], (inner,), None)
    if t.op == 'chk': return strip(t.a[0])
    if t.op == 'vf' and t.a[1] in ('Ok', 'Some') and t.a[0].op in ('call', 'okopt', 'optmap'):
        s = success(t.a[0])
        if len(s) == 1: return s[0]
    return t
def success(t):
    """payloads of the successful outcomes of an Option/Result term"""
    if t.op == 'agg':
        return [strip(t.a[2][0])] if t.a[1] in ('Ok', 'Some') else []
    if t.op in ('okor', 'okopt', 'maperr'): return success(t.a[0])
    if t.op == 'optmap': return [strip(t.a[1])] if success(t.a[0]) else []
    if t.op == 'call' and re.search(r'(NumCast>?::from|TryFrom.*::try_from|ToPrimitive.*::to_\w+)$', t.a[0]):
        b, a = t.a[1][0], t.a[1][1] if len(t.a[1]) > 1 else t.a[1][0]
        if not okconv(a, b, True): raise Lossy('the conversion %s -> %s can change the value' % (a, b))
        return [strip(t.a[2][0])]
    raise Lossy('not recognised as a value-preserving read: ' + fmt(t)[:160])

def successes(e, ret):
    out = []
    for t, f in alts(e, ret): out += success(norm(e, t))
    return out
def wire_of(v):
    """wire PValue variants (with the written value) a value of PType v may come back as"""
    bits = mk('call', '<half::binary16::f16>::to_bits', (), (x,), None)
    if v == 'F16': return [(w, mk('call', '<half::binary16::f16>::to_bits', (), (x,), None)) for w in U] + [('F16', x)]
    if v in FL: return [(w, x) for w in FL if FL.index(w) and FL.index(w) <= FL.index(v)] + ([('F32', x)] if v == 'F64' else [])
    return [(w, x) for w in CLS[v]]

def run(c):
    F = c.F
    c.req(sorted(F.variants(SV) or []) == ['Bool', 'Buffer', 'BufferString', 'List', 'Null', 'Primitive'], 'enum', 'ScalarValue', 'the variants of ScalarValue changed')
    c.req(sorted(F.variants(PV) or []) == sorted(U + I + FL), 'enum', 'PValue', 'the variants of PValue changed')
    proto(c); reads(c); serde(c); flat(c); compare(c); casts(c)
    c.floor('protobuf', 18); c.floor('read', 50); c.floor('serde', 40); c.floor('compare', 60); c.floor('cast', 60); c.floor('flatbuffer', 3)

def same(t, base): return t is base or norm_eq(t, base)
def norm_eq(t, b): return t.op == b.op == 'call' and t.a[0] == b.a[0] and t.a[2] == b.a[2]

def proto(c):
    F = c.F
    ds = [p for p in F.bodies if p.startswith('vortex_scalar::serde::proto::') and p.endswith('deserialize_scalar_value')]
    top_e = '<vortex_proto::scalar::Scalar as core::convert::From<&%s>>::from' % SC
    top_d = '<%s as core::convert::TryFrom<&vortex_proto::scalar::Scalar>>::try_from' % SC
    if c.body(PE) is None or c.body(top_e) is None or c.body(top_d) is None: return

    # the dtype is taken as round tripping (C03); what remains is dtype+value composition
    def hook(ev, fr, s, p, r, g, args, V):
        n = r or p
        if n == '<vortex_proto::dtype::DType as core::convert::From<&%s>>::from' % DTYPE: return mk('enc', 'dtype', V(0))
        if 'TryFrom<&vortex_proto::dtype::DType>' in n or 'TryFrom<vortex_proto::dtype::DType>' in n:
            z = V(0)
            if z.op == 'enc': return Ok(z.a[1])
        # recursion into list elements: elementwise induction
        if n == PE and ev.stack.count(PE) >= 1 and any('elem' == z.op for z in walk(V(0))): return mk('enc', 'sv', V(0))
        return None
    def go(dt, val, key, depth=8):
        sc = agg(SC, 'Scalar', tuple({'dtype': dt, 'value': val}[f[0]] for f in F.adts[SC]['v'][0][2]))
        e = c.ev(hook=hook, opaque=OPQ, maxdepth=depth)
        r = e.run(top_e, {1: sc})
        if r.ret is None: return None
        r2 = e.run(top_d, {1: r.ret})
        c.fns.update(e.visited)
        out = []
        for t, f in alts(e, r2.ret):
            t = norm(e, t)
            if t.op == 'agg' and t.a[1] == 'Ok':
                s = t.a[2][0]; fl = dict(zip([z[0] for z in F.adts[SC]['v'][0][2]], s.a[2]))
                out.append((fl['dtype'], fl['value'], f))
            elif t.op == 'agg' and t.a[1] == 'Err': out.append((None, t, f))
            else: out.append((None, t, f))
        return out, r.ret, e
    w = c.where(top_d)
    for v in U + I + FL:
        dt = agg(DTYPE, 'Primitive', (agg(PTYPE, v), NNUL))
        res = go(dt, agg(SV, 'Primitive', (agg(PV, v, (x,)),)), v)
        if res is None: continue
        good, why = False, ''
        for d, t, f in res[0]:
            if d is None:
                # the only failure that may remain possible is a checked narrowing of the f16 bits
                if v != 'F16': why = 'decoding can fail: ' + fmt(t)[:200]; break
                continue
            if d is not dt: why = 'dtype comes back as ' + fmt(d); break
            try:
                val = norm(res[2], t)
                ok = val.op == 'agg' and val.a[1] == 'Primitive' and val.a[2][0].op == 'agg'
                pv = val.a[2][0] if ok else None
                if ok and pv.a[1] in CLS and CLS[pv.a[1]] is CLS[v] and strip_eq(strip(pv.a[2][0]), x): good = True
                else: why = 'value comes back as ' + fmt(val)[:200]; good = False; break
            except Lossy as ex: why = str(ex); good = False; break
        c.req(good and not why, 'protobuf', 'proto:Primitive:' + v, 'a %s scalar does not survive protobuf: %s' % (v, why or 'no successful outcome'), w)
    nn = NNUL
    simple = [('Null', agg(DTYPE, 'Utf8', (agg(NULLABILITY, 'Nullable'),)), ()), ('Bool', agg(DTYPE, 'Bool', (nn,)), (x,)), ('Buffer', agg(DTYPE, 'Binary', (nn,)), (x,)), ('BufferString', agg(DTYPE, 'Utf8', (nn,)), (x,))]
    for v, dt, a in simple:
        res = go(dt, agg(SV, v, a), v)
        if res is None: continue
        oks = [(d, t) for d, t, f in res[0]]
        good = bool(oks) and all(d is dt and t.op == 'agg' and t.a[1] == v and (not a or bytes_of(t.a[2][0]) is x) for d, t in oks)
        c.req(good, 'protobuf', 'proto:' + v, 'a %s scalar comes back as %s' % (v, [(fmt(d) if d else '', fmt(t)[:160]) for d, t in oks]), w)
    # null of every nullable dtype
    N_ = agg(NULLABILITY, 'Nullable')
    for v, dt in [('Null', agg(DTYPE, 'Null'))] + [(z, agg(DTYPE, z, (N_,))) for z in ('Bool', 'Utf8', 'Binary')] + [('Primitive', agg(DTYPE, 'Primitive', (agg(PTYPE, 'F16'), N_))), ('List', agg(DTYPE, 'List', (mk('arg', 73, 'edt'), N_))), ('Struct', agg(DTYPE, 'Struct', (mk('arg', 74, 'sdt'), N_)))]:
        res = go(dt, agg(SV, 'Null'), 'null')
        if res is None: continue
        c.req(bool(res[0]) and all(d is dt and t.op == 'agg' and t.a[1] == 'Null' for d, t, f in res[0]), 'protobuf', 'proto:Null:' + v, 'a null %s scalar comes back as %s' % (v, [fmt(t)[:160] for d, t, f in res[0]]), w)
    # lists: each element encoded once, decoded once with the element dtype
    lst = mk('arg', 75, 'elems')
    r = c.run(PE, {1: agg(SV, 'List', (lst,))}, hook=hook, opaque=OPQ)
    if r is not None:
        built = [z for z in walk(r.ret, r.e)]
        each = [z for z in built if z.op == 'enc' and z.a[0] == 'sv' or z.op == 'call' and z.a[0] == PE]
        bad = [z.op for z in built if z.op in ('rev', 'filtered', 'skip', 'takeN')]
        c.req(bool(each) and not bad and all(mentions(z, lambda q_: q_ is lst, r.e) for z in each), 'protobuf', 'proto:list:encode', 'every list element must be encoded once, in order: ' + fmt(r.ret)[:200], c.where(PE))
    for d in ds:
        for kind in ('List', 'Struct'):
            inner = mk('arg', 76, 'inner'); vals = mk('arg', 77, 'values')
            dt = agg(DTYPE, kind, (inner, nn))
            lv = agg('vortex_proto::scalar::ListValue', 'ListValue', (vals,))
            kd = agg('vortex_proto::scalar::scalar_value::Kind', 'ListValue', (lv,))
            r = c.run(d, {1: dt, 2: agg('vortex_proto::scalar::ScalarValue', 'ScalarValue', (Some(kd),))}, opaque=OPQ)
            if r is None: continue
            rec = [z for z in r.events if z.p == d or z.r == d]
            okd = [z for z in rec if (z.vals[0] is inner if kind == 'List' else mentions(z.vals[0], lambda q_: q_ is inner, r.e) and z.vals[0] is not inner) and mentions(z.vals[1], lambda q_: q_ is vals, r.e)]
            oks = [t for t, _ in alts(r.e, r.ret) if t.op == 'agg' and t.a[1] == 'Ok']
            bad = [z.op for t in oks for z in walk(t, r.e) if z.op in ('rev', 'filtered', 'skip', 'takeN')]
            c.req(bool(okd) and okd == rec and bool(oks) and not bad and all(t.a[2][0].op == 'agg' and t.a[2][0].a[1] == 'List' for t in oks), 'protobuf', 'proto:list:decode:' + kind, 'list elements must each be decoded once, with the dtype of the element: %s' % rec, c.where(d))

def strip_eq(t, b): return t is b
def bytes_of(t):
    """the buffer/string a chain of copying conversions denotes"""
    while t.op == 'call' and re.search(r'::(as_slice|as_str|from|to_vec|to_string|into|as_ref|deref|to_owned|clone|as_bytes|from_vec)$', t.a[0]) and len(t.a[2]) == 1: t = t.a[2][0]
    return t

def reads(c):
    """T::try_from(PValue) gives the written value back for every PValue variant it may come back as"""
    F = c.F
    for v in U + I + FL:
        p = '<%s as core::convert::TryFrom<%s>>::try_from' % (rt(v), PV)
        for w, val in wire_of(v):
            r = c.run(p, {1: agg(PV, w, (val,))})
            if r is None: break
            try: s = successes(r.e, r.ret)
            except Lossy as ex: c.req(False, 'read', 'read:%s:%s' % (v, w), 'reading a %s that came back as %s: %s' % (v, w, ex), c.where(p)); continue
            c.req(bool(s) and all(same(z, x) for z in s), 'read', 'read:%s:%s' % (v, w), 'reading a %s that came back as %s gives %s' % (v, w, [fmt(z)[:120] for z in s] or 'an error'), c.where(p))
        # the typed scalar applies that read to the value, and null stays null
        p2 = '<%s>::try_new' % PS
        dt = agg(DTYPE, 'Primitive', (agg(PTYPE, v), NNUL))
        for w, val in wire_of(v) + [('Null', None)]:
            r = c.run(p2, {1: dt, 2: agg(SV, 'Null') if val is None else agg(SV, 'Primitive', (agg(PV, w, (val,)),))})
            if r is None: break
            good, n = True, 0
            for t, f in alts(r.e, r.ret):
                t = norm(r.e, t)
                if not (t.op == 'agg' and t.a[1] == 'Ok'): continue
                n += 1
                fl = dict(zip([z[0] for z in F.adts[PS]['v'][0][2]], t.a[2][0].a[2])) if t.a[2][0].op == 'agg' else {}
                pv = fl.get('pvalue')
                good &= variant_name(fl.get('ptype')) == v if fl else False
                if pv is None: good = False; continue
                if val is None: good &= variant_name(pv) == 'None'; continue
                try:
                    good &= pv.op == 'agg' and pv.a[1] == 'Some' and pv.a[2][0].op == 'agg' and pv.a[2][0].a[1] == v and same(strip(pv.a[2][0].a[2][0]), x)
                except Lossy as ex: good = False
            c.req(good and n > 0, 'read', 'typed:%s:%s' % (v, w), 'a %s scalar whose value came back as %s is not read as that value: %s' % (v, w, [fmt(norm(r.e, t))[:160] for t, _ in alts(r.e, r.ret)][:3]), c.where(p2))
    # null of each accessor
    for m, v in (('as_bool', 'Bool'), ('as_pvalue', 'Primitive'), ('as_buffer', 'Buffer'), ('as_buffer_string', 'BufferString'), ('as_list', 'List')):
        p = '<%s>::%s' % (SV, m)
        for var in F.variants(SV):
            if m == 'as_buffer_string' and var == 'Buffer': continue
            r = c.run(p, {1: agg(SV, var, () if var == 'Null' else (x,))}, opaque=OPQ)
            if r is None: break
            o = [norm(r.e, t) for t, _ in alts(r.e, r.ret)]
            if var == 'Null': good = o == [Ok(NONE)] or all(t.op == 'agg' and t.a[1] == 'Ok' and variant_name(t.a[2][0]) == 'None' for t in o)
            elif var == v: good = all(t.op == 'agg' and t.a[1] == 'Ok' and t.a[2][0].op == 'agg' and t.a[2][0].a[1] == 'Some' and bytes_of(t.a[2][0].a[2][0]) is x for t in o)
            else: good = all(t.op == 'agg' and t.a[1] == 'Err' for t in o)
            c.req(bool(o) and good, 'read', '%s:%s' % (m, var), '%s of a %s value is %s' % (m, var, [fmt(t)[:120] for t in o]), c.where(p))

KIND = {'bool': 'bool', 'str': 'str', 'bytes': 'bytes', 'unit': 'unit', 'seq': 'seq', 'none': 'unit', 'u8': 'u', 'u16': 'u', 'u32': 'u', 'u64': 'u', 'i8': 'i', 'i16': 'i', 'i32': 'i', 'i64': 'i', 'f32': 'f', 'f64': 'f'}
GSELF = {'bool': 'bool', 'str': 'str', '()': 'unit', 'alloc::string::String': 'str', 'serde_bytes::Bytes': 'bytes'}
VISIT = {'u': ['visit_u8', 'visit_u16', 'visit_u32', 'visit_u64'], 'i': ['visit_i8', 'visit_i16', 'visit_i32', 'visit_i64'], 'f': ['visit_f32', 'visit_f64'], 'bool': ['visit_bool'], 'str': ['visit_str'], 'bytes': ['visit_bytes'], 'unit': ['visit_unit'], 'seq': ['visit_seq']}
DEFAULT = {'visit_u8': 'visit_u64', 'visit_u16': 'visit_u64', 'visit_u32': 'visit_u64', 'visit_i8': 'visit_i64', 'visit_i16': 'visit_i64', 'visit_i32': 'visit_i64', 'visit_f32': 'visit_f64'}

def serde(c):
    F = c.F
    ser = '<%s as serde::ser::Serialize>::serialize' % SV
    vis = {}
    for p in F.bodies:
        m = re.match(r'^<.*ScalarValue.*as serde::de::Visitor>::(visit_\w+)$', p)
        if m: vis.setdefault(m.group(1), []).append(p)
    if not vis: c.viol('anchor-missing:visitor', 'no serde visitor for ScalarValue found'); return
    def deliver(kind, key, want):
        for m in VISIT[kind]:
            ps = vis.get(m) or vis.get(DEFAULT.get(m, ''))
            if not c.req(bool(ps), 'serde', '%s:%s' % (key, m), '%s has no visitor method %s: a value serialised this way cannot be read back' % (key, m), c.where(ser)): continue
            for p in ps:
                r = c.run(p, opaque=OPQ)
                if r is None: continue
                oks = [norm(r.e, t) for t, _ in alts(r.e, r.ret)]
                oks = [t for t in oks if t.op == 'agg' and t.a[1] == 'Ok']
                val = next((r.e_args for _ in ()), None)
                c.req(bool(oks) and all(want(t.a[2][0], r) for t in oks), 'serde', '%s:%s' % (key, m), 'a %s value delivered to %s comes back as %s' % (key, m, [fmt(t)[:140] for t in oks] or 'an error'), c.where(p))
    def arg2(t): return t.op == 'arg' and t.a[0] == 2
    def prim(cls):
        def f(t, r):
            if not (t.op == 'agg' and t.a[1] == 'Primitive' and t.a[2][0].op == 'agg'): return False
            pv = t.a[2][0]
            if pv.a[1] not in cls: return False
            try: return arg2(strip(pv.a[2][0]))
            except Lossy: return False
        return f
    def simple(v): return lambda t, r: t.op == 'agg' and t.a[1] == v and (not t.a[2] or arg2(bytes_of(t.a[2][0])))
    def lst(t, r):
        if not (t.op == 'agg' and t.a[1] == 'List'): return False
        ne = [z for z in r.events if z.p.endswith('SeqAccess::next_element')]
        bad = [z.op for z in walk(t, r.e) if z.op in ('rev', 'filtered', 'skip', 'takeN')]
        return bool(ne) and not bad and mentions(t, lambda q_: q_.op == 'call' and q_.a[0].endswith('next_element'), r.e)
    for v in F.variants(SV):
        for pv in (F.variants(PV) if v == 'Primitive' else [None]):
            key = v if pv is None else pv
            a = agg(SV, v, () if v == 'Null' else (agg(PV, pv, (x,)),) if pv else (x,))
            r = c.run(ser, {1: a}, opaque=OPQ)
            if r is None: return
            got = []
            for z in r.events:
                n = z.p.rsplit('::', 1)[1]
                if z.p.startswith('serde::ser::Serializer::serialize_'): got.append((KIND.get(n[10:]), n[10:], z.vals[1] if len(z.vals) > 1 else None))
                elif z.p.endswith('Serialize::serialize') and (z.g[0] in GSELF): got.append((GSELF[z.g[0]], z.g[0], z.vals[0]))
                elif z.p.endswith('Serialize::serialize') and SV in z.g[0] and z.g[0] != SV: got.append(('seq', 'seq', z.vals[0]))
            kinds = {k for k, _, _ in got}
            if not c.req(len(kinds) == 1 and None not in kinds, 'serde', key + ':kind', 'a %s value must be serialised as exactly one serde kind, is %s' % (key, [(k, n) for k, n, _ in got]), c.where(ser)): continue
            k, n, val = got[-1]
            try: base = strip(val) if val is not None else None
            except Lossy as ex: c.req(False, 'serde', key + ':value', 'a %s value is serialised through a lossy conversion: %s' % (key, ex), c.where(ser)); continue
            if pv == 'F16': okv = base.op == 'call' and base.a[0].endswith('f16>::to_bits') and base.a[2][0] is x and k == 'u'
            elif v == 'Null': okv = k == 'unit'
            else: okv = bytes_of(base) is x
            c.req(okv, 'serde', key + ':value', 'a %s value is serialised as %s %s' % (key, n, fmt(val)[:120] if val is not None else ''), c.where(ser))
            if pv:
                cls = U if pv == 'F16' else CLS[pv]
                c.req(k == {id(U): 'u', id(I): 'i', id(FL): 'f'}[id(cls)], 'serde', key + ':class', 'a %s value is serialised as kind %s' % (key, n), c.where(ser))
                deliver(k, key, prim(cls if cls is not FL else [w for w in FL if w != 'F16']))
            elif v == 'List': deliver('seq', key, lst)
            else: deliver(k, key, simple(v))

def flat(c):
    F = c.F
    enc, dec = '<%s as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer' % SC, '<%s as core::convert::TryFrom<vortex_flatbuffers::scalar::Scalar>>::try_from' % SC
    dt, val = mk('arg', 78, 'dtype'), mk('arg', 79, 'value')
    sc = agg(SC, 'Scalar', tuple({'dtype': dt, 'value': val}[f[0]] for f in F.adts[SC]['v'][0][2]))
    base = fbhook(F)
    def hook(ev, fr, s, p, r, g, args, V):
        n = r or p
        if n.endswith('DType as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer'): return mk('enc', 'dtype', V(0))
        if 'TryFrom<vortex_flatbuffers::dtype::DType>' in n and V(0).op == 'enc' and V(0).a[0] == 'dtype': return Ok(V(0).a[1])
        if 'FlexbufferSerializer' in n and n.endswith('::new') or n.endswith('FlexbufferSerializer as core::default::Default>::default'): return mk('arg', 80, 'flexser')
        if n.endswith('ScalarValue as serde::ser::Serialize>::serialize'):
            ev.event_value = V(0)
            hook.ser.append((V(0), V(1))); return Ok(mk('tup', ()))
        if 'FlexbufferSerializer' in n and n.rsplit('::', 1)[1] in ('view', 'take_buffer'):
            return mk('enc', 'flex', hook.ser[-1][0]) if hook.ser else None
        if 'flexbuffers::reader::Reader' in n and n.endswith('::get_root'):
            return Ok(V(0))
        if n.endswith('ScalarValue as serde::de::Deserialize>::deserialize'):
            z = V(0)
            while z.op in ('collect',) or z.op == 'map': z = z.a[0]
            if z.op == 'enc' and z.a[0] == 'flex': return Ok(z.a[1])
        return base(ev, fr, s, p, r, g, args, V)
    hook.ser = []
    if c.body(enc) is None or c.body(dec) is None: return
    for nm, e_, d_, v in (('Scalar', enc, dec, sc), ('ScalarValue', enc.replace(SC, SV), '<%s as core::convert::TryFrom<vortex_flatbuffers::scalar::ScalarValue>>::try_from' % SV, val)):
        hook.ser = []
        if c.body(e_) is None or c.body(d_) is None: continue
        e = c.ev(hook=hook, opaque=OPQ, maxdepth=8)
        r = e.run(e_, {1: v})
        r2 = e.run(d_, {1: r.ret})
        c.fns.update(e.visited)
        oks = [norm(e, t) for t, _ in alts(e, r2.ret)]
        oks = [t for t in oks if not (t.op == 'agg' and t.a[1] == 'Err')]
        c.req(bool(oks) and all(t is Ok(v) for t in oks), 'flatbuffer', 'flatbuffer:' + nm, 'a %s written to a flatbuffer is read back as %s' % (nm, [fmt(t)[:200] for t in oks]), c.where(d_))
        c.req(len(hook.ser) >= 1 and all(z[0] is val for z in hook.ser), 'flatbuffer', 'flatbuffer:payload:' + nm, 'the serialised payload must be the scalar value', c.where(e_))

def eqpair(t):
    """operands of an equality, through identical enum wrappers"""
    if not (t.op == 'cmp' and t.a[0] == 'Eq'): return None
    a, b = t.a[1], t.a[2]
    while a.op == 'agg' and b.op == 'agg' and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]) == 1: a, b = a.a[2][0], b.a[2][0]
    return {strip(a), strip(b)}
def fits(ev, fr, s, p, r, g, args, V):
    """a checked conversion of a value that was written from the narrower type succeeds"""
    n = r or p
    if len(args) == 1 and len(g) > 1 and re.search(r'(NumCast>?::from|TryFrom(<\w+>>)?::try_from)$', n) and g[0] in NUMT and g[1] in NUMT and okconv(g[1], g[0], True):
        return (Ok if n.endswith('try_from') else Some)(mk('chk', V(0)))
    return None
NUMT = set('u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 usize half::binary16::f16'.split())
def expand(e, t, f):
    """a comparison whose operands depend on the path -> one comparison per pair of paths"""
    def ops(z, i): return [(norm(e, q_), g) for q_, g in alts(e, z)]
    if t.op == 'cmp': return [(mk('cmp', t.a[0], a, b), {**f, **fa, **fb}) for a, fa in ops(t.a[1], 0) for b, fb in ops(t.a[2], 1)]
    if t.op == 'call' and len(t.a[2]) == 2: return [(mk('call', t.a[0], t.a[1], (a, b), None), {**f, **fa, **fb}) for a, fa in ops(t.a[2][0], 0) for b, fb in ops(t.a[2][1], 1)]
    return [(norm(e, t), f)]
def ordpair(t):
    if t.op == 'call' and t.a[0].endswith('partial_cmp') and len(t.a[2]) == 2:
        a, b = t.a[2]
        while a.op == 'agg' and b.op == 'agg' and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]) == 1: a, b = a.a[2][0], b.a[2][0]
        return strip(a), strip(b)
    ov = ordval(t.a[2][0]) if t.op == 'agg' and t.a[1] == 'Some' else None
    return ov and (strip(ov[0]), strip(ov[1]))
def ordval(t):
    """(a, b) compared by an ordering term"""
    if t.op == 'call' and re.search(r'::(cmp|total_cmp|compare)$', t.a[0]) and len(t.a[2]) == 2: return t.a[2]
    return None
def compare(c):
    F = c.F
    pe, po = '<%s as core::cmp::PartialEq<%s>>::eq' % (PV, PV), '<%s as core::cmp::PartialOrd<%s>>::partial_cmp' % (PV, PV)
    for a in U + I + FL:
        for b in U + I + FL:
            if a in FL and a != b and b in FL: continue
            samec = CLS[a] is CLS[b]
            if not samec: continue
            r = c.run(pe, {1: agg(PV, a, (x,)), 2: agg(PV, b, (y,))})
            if r is not None:
                good = r.ret.op == 'cmp' and r.ret.a[0] == 'Eq'
                if good:
                    try: good = {strip(r.ret.a[1]), strip(r.ret.a[2])} == {x, y}
                    except Lossy: good = False
                c.req(good, 'compare', 'eq:%s:%s' % (a, b), 'equality of a %s with a %s value does not compare the values: %s' % (a, b, fmt(r.ret)[:160]), c.where(pe))
            r = c.run(po, {1: agg(PV, a, (x,)), 2: agg(PV, b, (y,))})
            if r is not None:
                t = norm(r.e, r.ret)
                ov = ordval(t.a[2][0]) if t.op == 'agg' and t.a[1] == 'Some' else None
                try: good = ov is not None and (strip(ov[0]), strip(ov[1])) == (x, y)
                except Lossy: good = False
                c.req(good, 'compare', 'ord:%s:%s' % (a, b), 'ordering of a %s against a %s value does not compare the values in that order: %s' % (a, b, fmt(t)[:160]), c.where(po))
    se, so = '<%s as core::cmp::PartialEq<%s>>::eq' % (SC, SC), '<%s as core::cmp::PartialOrd<%s>>::partial_cmp' % (SC, SC)
    def scalar(v, w, val):
        return agg(SC, 'Scalar', tuple({'dtype': agg(DTYPE, 'Primitive', (agg(PTYPE, v), NNUL)), 'value': agg(SV, 'Primitive', (agg(PV, w, (val,)),))}[f[0]] for f in F.adts[SC]['v'][0][2]))
    for v in U + I + FL:
        for w, val in wire_of(v):
            for m, p in (('eq', se), ('ord', so)):
                r = c.run(p, {1: scalar(v, w, val), 2: scalar(v, v, y)}, hook=fits)
                if r is None: continue
                good, n, shown = True, 0, []
                for t0, f0 in alts(r.e, r.ret):
                    for t, f in expand(r.e, t0, f0):
                        shown.append(fmt(t)[:160])
                        # the fallible read of a narrowed value may fall back to the raw value; that path is only reached when the read failed
                        if failed(f): continue
                        n += 1
                        try: good &= eqpair(t) == {x, y} if m == 'eq' else ordpair(t) == (x, y)
                        except Lossy: good = False
                c.req(good and n > 0, 'compare', 'scalar-%s:%s:%s' % (m, v, w), 'two %s scalars, one of which came back as %s, are not compared by value: %s' % (v, w, shown[:3]), c.where(p))
def failed(f):
    for t, v in f.items():
        if t.op == 'D' and v[0] == 'in' and v[1] <= frozenset(['Err', 'None']): return True
    return False

def casts(c):
    F = c.F
    p = '<%s>::cast' % PS
    if c.body(p) is None: return
    fl = [z[0] for z in F.adts[PS]['v'][0][2]]
    for v in U + I + FL:
        for q_ in U + I + FL:
            dt = agg(DTYPE, 'Primitive', (agg(PTYPE, q_), agg(NULLABILITY, 'Nullable')))
            sf = agg(PS, 'PrimitiveScalar', tuple({'dtype': agg(DTYPE, 'Primitive', (agg(PTYPE, v), NNUL)), 'ptype': agg(PTYPE, v), 'pvalue': Some(agg(PV, v, (x,)))}[f] for f in fl))
            r = c.run(p, {1: sf, 2: dt})
            oks = [norm(r.e, t) for t, _ in alts(r.e, r.ret)]
            oks = [t for t in oks if t.op == 'agg' and t.a[1] == 'Ok']
            def good(t):
                s = t.a[2][0]
                if s.op != 'agg' or s.a[0] != SC: return False
                g = dict(zip([z[0] for z in F.adts[SC]['v'][0][2]], s.a[2]))
                val = g['value']
                if norm(r.e, g['dtype']) is not dt: return False
                if not (val.op == 'agg' and val.a[1] == 'Primitive' and val.a[2][0].op == 'agg' and val.a[2][0].a[1] == q_): return False
                leaf = val.a[2][0].a[2][0]
                if v == q_ or CLS[v] is not FL and CLS[q_] is not FL:
                    try: return strip(leaf) is x
                    except Lossy: return False
                return mentions(leaf, lambda z: z is x, r.e)
            c.req(bool(oks) and all(good(t) for t in oks), 'cast', 'cast:%s:%s' % (v, q_), 'casting a %s scalar to %s gives %s' % (v, q_, [fmt(t)[:160] for t in oks] or 'only errors'), c.where(p))
        for n in ('Nullable', 'NonNullable'):
            dt = agg(DTYPE, 'Primitive', (agg(PTYPE, v), agg(NULLABILITY, n)))
            sf = agg(PS, 'PrimitiveScalar', tuple({'dtype': agg(DTYPE, 'Primitive', (agg(PTYPE, 'I64'), agg(NULLABILITY, 'Nullable'))), 'ptype': agg(PTYPE, 'I64'), 'pvalue': NONE}[f] for f in fl))
            r = c.run(p, {1: sf, 2: dt})
            oks = [norm(r.e, t) for t, _ in alts(r.e, r.ret)]
            if n == 'Nullable': good_ = len(oks) > 0 and all(t.op == 'agg' and t.a[1] == 'Ok' and t.a[2][0].op == 'agg' and any(z.op == 'agg' and z.a[0] == SV and z.a[1] == 'Null' for z in t.a[2][0].a[2]) and any(z is dt for z in t.a[2][0].a[2]) for t in oks)
            else: good_ = len(oks) > 0 and all(t.op == 'agg' and t.a[1] == 'Err' for t in oks)
            c.req(good_, 'cast', 'cast:null:%s:%s' % (v, n), 'casting a null scalar to %s %s gives %s' % (n, v, [fmt(t)[:160] for t in oks] or 'no normal outcome'), c.where(p))
