from wire import *
ID = 'C03'
TITLE = 'A DType survives every wire format and projection unchanged'
RULE = ('round trip by composition: the flatbuffer and protobuf encoders are evaluated on every DType variant x nullability x PType and their result term is fed to the matching decoder, which must give back exactly the original term; '
        'nullability/classification tables are extracted by constant propagation; schema projection must take name and dtype of a field at the same resolved index and keep the struct nullability')
D = '<vortex_dtype::dtype::DType as '
FE, FD = D + 'vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer', D + 'core::convert::TryFrom<vortex_flatbuffers::dtype::DType>>::try_from'
PE, PD = '<vortex_proto::dtype::DType as core::convert::From<&vortex_dtype::dtype::DType>>::from', D + 'core::convert::TryFrom<&vortex_proto::dtype::DType>>::try_from'
q = lambda x: '^' + re.escape(x) + '$'
N = ['NonNullable', 'Nullable']
def variants():
    yield 'Null', None, agg(DTYPE, 'Null')
    for n in N:
        nl = agg(NULLABILITY, n)
        for v in ('Bool', 'Utf8', 'Binary'): yield v, n, agg(DTYPE, v, (nl,))
        for v in ('Struct', 'List', 'Extension'): yield v, n, agg(DTYPE, v, (mk('arg', 7, v.lower()), nl))
    for p in PTYPES:
        for n in N: yield 'Primitive ' + p, n, agg(DTYPE, 'Primitive', (agg(PTYPE, p), agg(NULLABILITY, n)))
PTYPES = ['U8', 'U16', 'U32', 'U64', 'I8', 'I16', 'I32', 'I64', 'F16', 'F32', 'F64']

def run(c):
    F = c.F
    c.req(sorted(F.variants(DTYPE) or []) == sorted(['Null', 'Bool', 'Primitive', 'Utf8', 'Binary', 'Struct', 'List', 'Extension']), 'enum', 'DType:variants', 'DType variants changed: %s' % F.variants(DTYPE))
    c.req(sorted(F.variants(PTYPE) or []) == sorted(PTYPES), 'enum', 'PType:variants', 'PType variants changed')
    for nm, enc, dec in (('flatbuffer', FE, FD), ('protobuf', PE, PD)):
        hk = fbhook(F, [(q(enc), q(dec))])
        for v, n, t in variants():
            r = roundtrip(c, enc, dec, t, hook=hk)
            if r is None: continue
            out, en, e = r
            key = '%s:%s:%s' % (nm, v, n)
            c.req(out and all(x is Ok(t) for x, _ in out), 'round trip', key, 'a %s %s dtype encoded to %s comes back as %s' % (n, v, nm, [fmt(x)[:300] for x, _ in out]), c.where(dec), sample='%s %s %s' % (nm, v, n))
    # nullability
    for b in (True, False):
        want = N[b]
        p = '<%s as core::convert::From<bool>>::from' % NULLABILITY
        r = c.run(p, {1: K(b, 'bool')})
        if r: c.req(variant_name(r.ret) == want, 'nullability', p + str(b), 'Nullability::from(%s) is %s' % (b, r.ret), c.where(p))
        p = '<bool as core::convert::From<%s>>::from' % NULLABILITY
        r = c.run(p, {1: agg(NULLABILITY, want)})
        if r: c.req(isk(r.ret) and kv(r.ret) is b, 'nullability', p + want, 'bool::from(%s) is %s' % (want, r.ret), c.where(p))
    for b in (True, False):
        p = '<%s as serde::ser::Serialize>::serialize' % NULLABILITY
        r = c.run(p, {1: agg(NULLABILITY, N[b])})
        if r is not None:
            v = [e.vals[-2] for e in r.events if e.p.endswith('Serialize::serialize') and e.fn == p] + [e.vals[1] for e in r.events if e.p.endswith('Serializer::serialize_bool')]
            c.req(bool(v) and all(isk(x) and kv(x) is b for x in v), 'nullability', p + str(b), 'serialises %s as %s' % (N[b], v), c.where(p))
        p = '<%s as serde::de::Deserialize>::deserialize' % NULLABILITY
        def hook(ev, fr, s, pp, rr, g, args, V):
            if pp.endswith('Deserialize::deserialize') and len(g) > 0 and g[0] == 'bool': return Ok(K(b, 'bool'))
        r = c.run(p, hook=hook)
        if r is not None:
            got = [norm(r.e, t) for t, _ in alts(r.e, r.ret)]
            c.req(got == [Ok(agg(NULLABILITY, N[b]))], 'nullability', p + str(b), '%s deserialises to %s' % (b, got), c.where(p))
    # tables over DType
    for v, n, t in variants():
        r = c.run('<%s>::is_nullable' % DTYPE, {1: t})
        if r: c.req(isk(r.ret) and kv(r.ret) is (n != 'NonNullable'), 'nullability', 'is_nullable:%s:%s' % (v, n), 'is_nullable of %s is %s' % (t, r.ret), c.where('<%s>::is_nullable' % DTYPE))
        r = c.run('<%s>::nullability' % DTYPE, {1: t})
        if r: c.req(variant_name(r.ret) == (n or 'Nullable'), 'nullability', 'nullability:%s:%s' % (v, n), 'nullability of %s is %s' % (t, r.ret), c.where('<%s>::nullability' % DTYPE))
        for m, to in (('as_nullable', 'Nullable'), ('as_nonnullable', 'NonNullable')):
            p = '<%s>::%s' % (DTYPE, m)
            r = c.run(p, {1: t})
            if r is None: continue
            want = t if n is None else agg(t.a[0], t.a[1], t.a[2][:-1] + (agg(NULLABILITY, to),))
            got = norm(r.e, r.ret)
            c.req(got is want, 'nullability', '%s:%s:%s' % (m, v, n), '%s of %s is %s' % (m, t, got), c.where(p))
    projection(c)
    c.floor('round trip', 2 * 35); c.floor('nullability', 100); c.floor('projection', 8)

def projection(c):
    F = c.F
    names, dtypes, proj = (mk('arg', i, s) for i, s in ((11, 'names'), (12, 'dtypes'), (14, 'projection')))
    p = 'vortex_dtype::serde::flatbuffers::project::deserialize_and_project'
    ps = [x for x in F.bodies if x.endswith('::deserialize_and_project')]
    p = ps[0] if ps else p
    if c.body(p) is None: return
    sargs = next((a for a in F.adts if a == 'vortex_flatbuffers::dtype::Struct_Args'), None); dargs = 'vortex_flatbuffers::dtype::DTypeArgs'
    def args(adt, **k):
        fl = [f[0] for f in F.adts[adt]['v'][0][2]]
        return agg(adt, adt.rsplit('::', 1)[1], tuple(k[f] for f in fl))
    tag = next((K(None, '', k) for k in F.consts if k == '<vortex_flatbuffers::dtype::Type>::Struct_'), None)
    tag = mk('k', 'vortex_flatbuffers::dtype::Type', hv(F.consts['<vortex_flatbuffers::dtype::Type>::Struct_']['v']), None)
    for b in (True, False):
        st = mk('fbtab', 'dtype::Struct_', args(sargs, names=Some(names), dtypes=Some(dtypes), nullable=K(b, 'bool')))
        fb = mk('fbtab', 'dtype::DType', args(dargs, type_type=tag, type_=Some(st)))
        e = c.ev(hook=fbhook(F), opaque=['DType as core::convert::TryFrom', '::resolve_field'])
        r = e.run(p, {1: fb, 2: proj})
        c.fns.update(e.visited)
        oks = [t for t, _ in alts(e, r.ret) if t.op == 'agg' and t.a[1] == 'Ok']
        c.req(len(oks) == 1, 'projection', p + ':ok', 'must have one successful outcome, has %d' % len(oks), c.where(p))
        for t in oks:
            dt = t.a[2][0]
            ok = dt.op == 'agg' and dt.a[1] == 'Struct'
            if not c.req(ok, 'projection', p + ':struct', 'must return a struct dtype, returns ' + fmt(dt)[:200], c.where(p)): continue
            c.req(variant_name(kconst(dt.a[2][1])) == N[b], 'projection', p + ':nullability', 'the projected struct must keep the nullability of the stored struct: ' + fmt(dt.a[2][1]), c.where(p))
    gets = [x for x in r.events if x.p.rsplit('::', 1)[1] == 'get' and 'Vector' in x.p]
    gi = {('names' if mentions(x.vals[0], lambda y: y is names, e) else 'dtypes' if mentions(x.vals[0], lambda y: y is dtypes, e) else '?'): x for x in gets}
    c.req(set(gi) == {'names', 'dtypes'} and len(gets) == 2, 'projection', p + ':reads', 'must read one name and one dtype per projected field, reads ' + str(gets), c.where(p))
    if set(gi) == {'names', 'dtypes'}:
        i, j = gi['names'].vals[1], gi['dtypes'].vals[1]
        c.req(i is j, 'projection', p + ':index', 'the name is taken at %s but the dtype at %s' % (i, j), c.where(p))
        okidx = mentions(i, lambda y: y.op == 'call' and y.a[0].endswith('::resolve_field') and mentions(y.a[2][1], lambda z: z is proj), e)
        c.req(okidx and not mentions(i, lambda y: y.op == 'bin', e), 'projection', p + ':resolved', 'the index must be the resolved projection field, is ' + fmt(i), c.where(p))
        for t in oks:
            bad = [y.op for y in walk(t, e) if y.op in ('rev', 'filtered', 'skip', 'takeN', 'fmap')]
            c.req(not bad and mentions(t, lambda y: y is proj, e), 'projection', p + ':order', 'every projected field must appear once and in projection order, the result is built through ' + str(bad), c.where(p))
    # resolve_field
    p = p.rsplit('::', 1)[0] + '::resolve_field'
    FIELD = 'vortex_dtype::field::Field'
    for v in ('Index', 'Name'):
        x = mk('arg', 15, 'f')
        e = c.ev(hook=fbhook(F))
        if c.body(p) is None: break
        r = e.run(p, {1: st, 2: agg(FIELD, v, (x,))})
        oks = [t for t, _ in alts(e, r.ret)]
        if v == 'Index': c.req(oks == [Ok(x)], 'projection', p + ':Index', 'an index field must resolve to itself: ' + str(oks), c.where(p))
        else:
            good = len(oks) == 1 and oks[0].op == 'okor' and oks[0].a[0].op == 'iposition' and mentions(oks[0].a[0].a[0], lambda y: y is names)
            if good:
                pr = oks[0].a[0].a[1]; good = pr.op == 'cmp' and pr.a[0] == 'Eq' and x in pr.a[1:] and any(mentions(y, lambda z: z is names) for y in pr.a[1:])
            c.req(good, 'projection', p + ':Name', 'a name must resolve to the position of the equal name: ' + str(oks)[:300], c.where(p))
    # StructDType::field_info / project
    S = 'vortex_dtype::dtype::StructDType'
    s = agg(S, 'StructDType', tuple({'names': names, 'dtypes': dtypes}[f[0]] for f in F.adts[S]['v'][0][2]))
    p = '<%s>::field_info' % S
    for v in ('Index', 'Name'):
        x = mk('arg', 15, 'f')
        r = c.run(p, {1: s, 2: agg(FIELD, v, (x,))})
        if r is None: break
        for t, f in alts(r.e, r.ret):
            if t.op != 'agg' or t.a[1] != 'Ok': continue
            info = t.a[2][0]
            fl = dict(zip([z[0] for z in F.adts[info.a[0]]['v'][0][2]], info.a[2])) if info.op == 'agg' else {}
            i, nm, dt = fl.get('index'), fl.get('name'), fl.get('dtype')
            same = i is not None and nm is mk('index', names, i) and dt is mk('index', dtypes, i)
            if i is not None and i.op == 'phi':
                i2 = [y for y, _ in alts(r.e, i)]
            else: i2 = [i]
            c.req(same, 'projection', p + ':' + v, 'name, dtype and index must belong to one field, got index %s name %s dtype %s' % (i, nm, dt), c.where(p))
            if v == 'Index':
                c.req(i2 == [x], 'projection', p + ':idx', 'index fields denote themselves', c.where(p))
                c.req(cmp_holds(f, 'Lt', i, mk('len', names)), 'projection', p + ':bound', 'an out-of-range field index must be an error: the lookup is reached without index < number of fields', c.where(p))
            else: c.req(all(mentions(y, lambda z: z.op == 'iposition' and mentions(z, lambda w: w is x), r.e) for y in i2), 'projection', p + ':nm', 'name fields are found by name', c.where(p))
    p = '<%s>::project' % S
    e = c.ev(opaque=['::field_info'])
    if c.body(p):
        r = e.run(p, {1: s, 2: proj})
        c.fns.update(e.visited)
        for t, f in alts(e, r.ret):
            if t.op != 'agg' or t.a[1] != 'Ok': continue
            st_ = t.a[2][0]
            good = st_.op == 'agg'
            for k, nm in ((0, 'name'), (1, 'dtype')):
                if not good: break
                want = [z[0] for z in F.adts[S]['v'][0][2]]
                part = st_.a[2][want.index('names' if nm == 'name' else 'dtypes')]
                pushes = [y.a[3][0] for y in walk(part, e) if y.op == 'upd' and y.a[0].endswith('::push')] + [y.a[1] for y in walk(part, e) if y.op == 'map']
                other = 'dtype' if nm == 'name' else 'name'
                fld = lambda y, n_: mentions(y, lambda z: z.op == 'f' and z.a[1] == n_ and mentions(z.a[0], lambda w: w.op == 'call' and w.a[0].endswith('field_info'), e), e)
                good = bool(pushes) and all(fld(y, nm) and not fld(y, other) for y in pushes)
            c.req(good, 'projection', p, 'project must build names and dtypes from the looked-up field, in projection order', c.where(p))
