from arr import *
ID = 'C02'
TITLE = 'Array components are read back from where they were stored and all of them are serialised'
RULE = ('for every array encoding the constructor\'s children vector, metadata, buffer and validity are recovered as terms over the constructor arguments; every accessor must read the slot its argument was stored in, '
        'with the dtype and length that the constructor guarantees for it; accept() must visit the buffer, every child slot some accessor reads, in ascending slot order, and the validity, on every successful path')

A, E = 'vortex::array::', 'vortex_'
# public constructor (with-offset variant first), accessor -> constructor argument position
SPEC = {
 A + 'bool::BoolArray': (['try_new'], {}, 2),
 A + 'primitive::PrimitiveArray': (['new'], {}, 3),
 A + 'chunked::ChunkedArray': (['try_new'], {'chunk': 1}, None),
 A + 'extension::ExtensionArray': (['new'], {'storage': 2}, None),
 A + 'sparse::SparseArray': (['try_new_with_offset', 'try_new'], {'indices': 1, 'values': 2}, None),
 A + 'struct_::StructArray': (['try_new'], {'field': 2}, 4),
 A + 'varbin::VarBinArray': (['try_new'], {'offsets': 1, 'bytes': 2}, 4),
 A + 'varbinview::VarBinViewArray': (['try_new'], {'views': 1, 'buffer': 2}, 4),
 E + 'alp::alp::array::ALPArray': (['try_new'], {'encoded': 1, 'patches': 3}, None),
 E + 'alp::alp_rd::array::ALPRDArray': (['try_new'], {'left_parts': 2, 'right_parts': 4, 'left_parts_exceptions': 6}, None),
 E + 'bytebool::array::ByteBoolArray': (['try_new'], {}, 2),
 E + 'datetime_parts::array::DateTimePartsArray': (['try_new'], {'days': 2, 'seconds': 3, 'subsecond': 4}, None),
 E + 'dict::array::DictArray': (['try_new'], {'codes': 1, 'values': 2}, None),
 E + 'fastlanes::bitpacking::BitPackedArray': (['try_new_from_offset', 'try_new'], {'patches': 4}, 3),
 E + 'fastlanes::delta::DeltaArray': (['try_new'], {'bases': 1, 'deltas': 2}, 3),
 E + 'fastlanes::for::FoRArray': (['try_new'], {'encoded': 1}, None),
 E + 'fsst::array::FSSTArray': (['try_new'], {'symbols': 2, 'symbol_lengths': 3, 'codes': 4, 'uncompressed_lengths': 5}, None),
 E + 'runend::array::RunEndArray': (['with_offset_and_length', 'try_new'], {'ends': 1, 'values': 2}, 3),
 E + 'runend_bool::array::RunEndBoolArray': (['with_offset_and_size', 'try_new'], {'ends': 1}, 3),
 E + 'zigzag::array::ZigZagArray': (['try_new'], {'encoded': 1}, None),
 A + 'constant::ConstantArray': (['new'], {}, None),
 A + 'null::NullArray': (['new'], {}, None),
 E + 'roaring::boolean::RoaringBoolArray': (['try_new'], {}, None),
 E + 'roaring::integer::RoaringIntArray': (['try_new'], {}, None),
}
BUFFERS = {A + 'bool::BoolArray', A + 'primitive::PrimitiveArray', E + 'bytebool::array::ByteBoolArray', E + 'fastlanes::bitpacking::BitPackedArray', E + 'roaring::boolean::RoaringBoolArray', E + 'roaring::integer::RoaringIntArray'}
# (accessor, aspect) pairs whose agreement follows from facts that are not visible at the constructor (see DESIGN)
UNPROVED = {('ALPArray', 'encoded', 'dtype'), ('FoRArray', 'encoded', 'dtype'), ('DeltaArray', 'bases', 'len'), ('ChunkedArray', 'chunk', 'len'), ('ChunkedArray', 'chunk', 'dtype'),
            ('StructArray', 'field', 'len'), ('StructArray', 'field', 'dtype'), ('VarBinViewArray', 'buffer', 'len'), ('VarBinViewArray', 'buffer', 'dtype'), ('ALPRDArray', 'right_parts', 'dtype'),
            ('ALPArray', 'patches', 'dtype'), ('ALPArray', 'patches', 'len'), ('BitPackedArray', 'patches', 'dtype'), ('BitPackedArray', 'patches', 'len'), ('ZigZagArray', 'encoded', 'dtype'), ('FSSTArray', 'codes', 'dtype'),
            ('ALPRDArray', 'left_parts_exceptions', 'dtype'), ('ALPRDArray', 'left_parts_exceptions', 'len'), ('RunEndArray', 'values', 'len')}

def name(so): return so.rsplit('::', 1)[1]
def ctor(c, so):
    for nm in SPEC[so][0]:
        p = '<%s>::%s' % (so, nm)
        if p in c.F.bodies: break
    if c.body(p) is None: return None
    e = c.ev(opaque=OPQ, maxdepth=4); r = e.run(p)
    c.fns.update(e.visited)
    res = []
    for x in r.events:
        if not x.p.endswith('try_from_parts') or len(x.vals) < 5: continue
        # the array being built here, not a nested one of another type
        own = [g for g in (x.g or ()) if g]
        k = Ctor(); k.path, k.dtype, k.len, k.meta = p, x.vals[0], x.vals[1], x.vals[2]
        k.buffer = x.vals[3] if len(x.vals) == 6 else NONE
        k.children, k.facts, k.ev, k.event, k.own = x.vals[-2], x.facts, e, x, own
        res.append(k)
    enc = so.rsplit('::', 1)[1][:-5]
    mine = [k for k in res if k.meta.op == 'agg' and k.meta.a[1].startswith(enc + 'Metadata')] or [k for k in res if mentions(k.meta, lambda t: t.op == 'agg' and t.a[1].startswith(enc + 'Metadata'), e)]
    return mine[-1] if mine else None

def run(c):
    F = c.F
    acc, visits = model(c)[1:]
    for so in sorted(visits):
        if so not in SPEC: c.viol('unknown-encoding:' + so, 'an array type this rule has no component table for', visits[so][0])
    for so in sorted(SPEC):
        if so not in visits: c.viol('anchor-missing:' + so, 'no AcceptArrayVisitor impl', so); continue
        k = ctor(c, so)
        if k is None: c.viol('no-constructor:' + so, 'no try_from_parts call recovered from the constructor', so); continue
        check_access(c, so, k, acc.get(so, {}))
        check_visit(c, so, k, acc.get(so, {}), *visits[so])
    c.floor('slot', 30); c.floor('length', 20); c.floor('dtype', 14); c.floor('visit', 40); c.floor('buffer', 20)

def subst_of(c, so, k, ev):
    """leaf rewriting: accessor terms over self -> constructor terms"""
    meta = k.meta
    def leaf(x):
        if x.op == 'call':
            n = x.a[0]
            if n.endswith('TypedArray<D>>::metadata') or n == '<%s>::metadata' % so: return rebuild(ev, meta, lambda y: kc(y))
            if n == LEN and isself(x.a[2][0], so): return rebuild(ev, k.len, lambda y: kc(y))
            if (n.endswith('ArrayDType>::dtype') or n == 'vortex::ArrayDType::dtype') and isself(x.a[2][0], so): return rebuild(ev, k.dtype, lambda y: kc(y))
        return kc(x)
    return leaf
def kc(x):
    y = kconst(x)
    return y if y is not x else None
def isself(t, so):
    if t.op == 'arg': return t.a[0] == 1
    if t.op == 'call' and t.a[0].endswith('TypedArray<D>>::array') or t.op == 'call' and t.a[0].endswith('::as_ref') or t.op == 'call' and t.a[0].endswith('::deref'): return isself(t.a[2][0], so)
    if t.op == 'f': return isself(t.a[0], so)
    if t.op == 'call' and 'core::convert' in t.a[0]: return isself(t.a[2][0], so)
    return False

def nfacts(k):
    e = k.ev
    out = {}
    for t, v in k.facts.items():
        out[rebuild(e, t, kc)] = v
    return out

def eq_closure(facts):
    par = {}
    def find(x):
        while par.get(x, x) is not x: x = par[x]
        return x
    for t, v in facts.items():
        if t.op == 'cmp' and t.a[0] == 'Eq' and v == ('in', frozenset([True])):
            a, b = find(t.a[1]), find(t.a[2])
            if a is not b: par[a] = b
    return find

def prove_dtype(D, x, facts, find, k):
    """D is the dtype of stored child x (term `dtype(x)`)"""
    X = mk('call', 'dtype', (), (x,), None)
    if find(D) is find(X): return True
    if D.op == 'agg' and D.a[0] == DTYPE and D.a[1] == 'Primitive':
        pt, nl = D.a[2]
        if pt.op == 'agg':     # concrete ptype
            okp = fact(facts, mk('D', mk('vf', X, 'Primitive', '0')), pt.a[1])
        else:
            okp = pt == mk('vf', mk('call', 'ptype-of', (), (X,), None), 'Ok', '0') or pt == Ok_pt(X)
        if not okp: return False
        if nl.op == 'agg':
            want = nl.a[1]
            if fact(facts, mk('D', mk('vf', X, 'Primitive', '1')), want): return True
            for t, v in facts.items():
                if t.op == 'call' and t.a[0].endswith('is_nullable') and t.a[2] == (X,) and len(v[1]) == 1: return next(iter(v[1])) == (want == 'Nullable')
            return False
        if nl.op == 'call' and nl.a[0].endswith('nullability'):
            Y = nl.a[2][0]
            if Y is X: return True
            for t, v in facts.items():
                if t.op == 'cmp' and t.a[0] == 'Eq' and v == ('in', frozenset([True])):
                    l = {y.a[2][0] for y in t.a[1:] if y.op == 'call' and y.a[0].endswith(('is_nullable', 'nullability'))}
                    if l == {X, Y}: return True
        return False
    return False
def Ok_pt(X): return mk('vf', Ok(X), 'x', '0')

def optional(el): return el.op == 'vf' and el.a[1] == 'Some'

def check_access(c, so, k, acc):
    n = name(so)
    spec, vpos = SPEC[so][1], SPEC[so][2]
    conts = contents(k.ev, k.children, k.facts)
    facts = nfacts(k); find = eq_closure(facts)
    got = {}
    for p, a in acc.items(): got[p.rsplit('::', 1)[1]] = (p, a)
    for nm in spec:
        if nm not in got: c.viol('accessor:%s::%s' % (n, nm), 'no accessor reads this component any more', so)
    if vpos is not None and 'validity' not in got: c.viol('accessor:%s::validity' % n, 'the stored validity child is never read back', so)
    for nm, (p, a) in sorted(got.items()):
        if nm not in spec and nm != 'validity': continue
        c.fns.update(a.ev.visited)
        leaf = subst_of(c, so, k, a.ev)
        # the read whose value is returned
        reads = [x for x in a.reads if any(y.op == 'call' and y.a[0] == CHILD and y.a[2][1:] == x.vals[1:] for t, _ in ret_alts(a) for y in walk(t, a.ev))]
        final = main_reads(a)
        c.req(bool(final), 'reads', 'reads:%s::%s' % (n, nm), 'the accessor no longer returns a child of the array', c.where(p))
        for idx, D, L in final:
            for ix, fa in index_alts(a.ev, idx):
                ixs = rebuild(a.ev, ix, leaf)
                fas = {rebuild(a.ev, t, leaf): v for t, v in fa.items()}
                for parts, f in conts:
                    if conflict(k.ev, fas, f): continue
                    el = at(parts, ixs, k)
                    if nm == 'validity':
                        want = 'the validity argument'
                        if not any(mentions(x, lambda y: y.op == 'call' and y.a[0].endswith('Validity>::into_array') and has_arg(y, vpos, k.ev)) for _, x in parts): continue      # no validity stored on this path
                        ok = el is not None and mentions(el, lambda y: y.op == 'call' and y.a[0].endswith('into_array')) and has_arg(el, vpos, k.ev)
                    else:
                        i = spec[nm]
                        want = 'argument %d' % i
                        if any(mentions(x, lambda y: y.op == 'arg' and y.a[0] == i, k.ev) for _, x in parts) is False:
                            # optional component absent on this path
                            continue
                        ok = el is not None and has_arg(el, i, k.ev) and not any(has_arg(el, j, k.ev) for j in spec.values() if j != i)
                    c.req(ok, 'slot', 'slot:%s::%s' % (n, nm), 'reads child %s, where the constructor stores %s instead of %s' % (fmt(ixs), fmt(el)[:80] if el is not None else 'nothing', want), c.where(p), sample='%s::%s reads slot %s' % (n, nm, fmt(ixs)))
            if nm == 'validity':
                Lr = rebuild(a.ev, L, leaf); kl = rebuild(k.ev, k.len, kc)
                c.req(Lr is kl, 'length', 'len:%s::%s' % (n, nm), 'validity is read with length %s but the array has length %s' % (show(Lr), show(kl)), c.where(p))
                Dr = rebuild(a.ev, D, leaf)
                c.req(variant_name(Dr) == 'Bool' and variant_name(kconst(agg_fields(Dr)[0])) == 'NonNullable', 'dtype', 'dtype:%s::%s' % (n, nm), 'validity must be read as non-nullable bool, is read as ' + show(Dr), c.where(p))
                # metadata recorded for the same length
                tm = [y for y in walk(k.meta, k.ev) if y.op == 'call' and y.a[0].endswith('Validity>::to_metadata')]
                c.req(bool(tm) and all(rebuild(k.ev, y.a[2][1], kc) is kl and has_arg(y.a[2][0], vpos, k.ev) for y in tm), 'validity metadata', 'vmeta:' + n, 'validity metadata must be computed from the validity argument and the array length', c.where(k.path))
                continue
            i = spec[nm]
            arg = next((x for parts, _ in conts for kd, x in parts if kd == 'one' and has_arg(x, i, k.ev)), None)
            if arg is None: continue
            arg = rebuild(k.ev, arg, kc)
            if (n, nm, 'len') not in UNPROVED:
                Lr = rebuild(a.ev, L, leaf)
                ok = find(Lr) is find(mk('call', LEN, (), (arg,), None)) or len_implied(Lr, arg)
                c.req(ok, 'length', 'len:%s::%s' % (n, nm), 'reads the child with length %s, which the constructor does not guarantee to be its length' % show(Lr), c.where(p), sample='%s::%s length %s' % (n, nm, show(Lr)))
            if (n, nm, 'dtype') not in UNPROVED:
                Dr = rebuild(a.ev, D, leaf)
                c.req(prove_dtype(Dr, arg, facts, find, k), 'dtype', 'dtype:%s::%s' % (n, nm), 'reads the child with dtype %s, which the constructor does not guarantee to be its dtype' % show(Dr), c.where(p), sample='%s::%s dtype %s' % (n, nm, show(Dr)))

def len_implied(L, arg):
    a = mk('call', LEN, (), (arg,), None)
    # x-1+1, x/16*16 (whole views are guaranteed by the division constructor check)
    if L.op == 'bin' and L.a[0] in ('Add', 'Mul'):
        for x, y in ((L.a[1], L.a[2]), (L.a[2], L.a[1])):
            inv = {'Add': 'Sub', 'Mul': 'Div'}[L.a[0]]
            if x.op == 'bin' and x.a[0] == inv and x.a[1] is a and x.a[2] is y: return True
    return False

def ret_alts(a): return alts(a.ev, a.r.ret) if a.r.ret is not None else []
def main_reads(a):
    """child() calls the returned value is (not merely depends on)"""
    out = []
    seen = set()
    st = [a.r.ret] if a.r.ret is not None else []
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'phi': st += [x for x, _, _ in a.ev.alts_.get(t, ())]; continue
        if t.op == 'call':
            if t.a[0] == CHILD: out.append(t.a[2][1:4])
            continue
        if t.op in ('vf', 'f', 'optmap', 'okopt', 'maperr', 'then', 'andthen', 'residual', 'transpose', 'orelse', 'okor', 'isv'):
            st += [x for x in (t.a[1:] if t.op in ('optmap', 'then', 'andthen') else t.a) if isinstance(x, T)]
        elif t.op == 'agg': st += list(t.a[2])
    return out

def conflict(e, fa, fc):
    """do accessor branch facts (over constructor terms) contradict the constructor path?"""
    for t, v in fa.items():
        if t.op == 'k' and v[0] == 'in' and kv(t) not in v[1]: return True
        tt = t
        if t.op == 'isvar':
            d = fc.get(mk('D', t.a[0]))
            if d is not None and d[0] == 'in' and len(d[1]) == 1:
                val = t.a[1] in d[1]
                if v[0] == 'in' and val not in v[1]: return True
        w = fc.get(tt)
        if w is not None and v[0] == 'in' and w[0] == 'in' and not (v[1] & w[1]): return True
    return False

def at(parts, ix, k):
    """the stored part at index term ix"""
    if isk(ix) and isinstance(kv(ix), int):
        j = kv(ix); pos = 0
        for kd, x in parts:
            if kd == 'one':
                if pos == j: return x
                pos += 1
            elif kd == 'many':
                l = fixed(x)
                if l is not None:
                    if j - pos < len(l): return l[j - pos]
                    pos += len(l)
                else: return x if pos == j else None
        return None
    off, rest = 0, ix
    if ix.op == 'bin' and ix.a[0] == 'Add':
        for x, y in ((ix.a[1], ix.a[2]), (ix.a[2], ix.a[1])):
            if isk(x): off, rest = kv(x), y
    isn = rest.op == 'len' or is_call(rest, '::len', '::nfields')
    pos = 0
    for q, (kd, x) in enumerate(parts):
        if kd == 'one': pos += 1; continue
        if pos != off: return None
        if not isn: return x
        return parts[q + 1][1] if q + 1 < len(parts) else None
    return None
def fixed(x):
    """a literal array hidden behind vec![..]"""
    if x.op == 'arr': return list(x.a[0])
    for y in walk(x):
        if y.op == 'arr' and len(y.a[0]) > 0 and x.op in ('setf', 'call'): return list(y.a[0])
    return None

def topchild(t):
    """child() call whose payload the visited value is"""
    while t.op in ('vf', 'f', 'optmap', 'okopt', 'maperr'): t = t.a[0]
    return t if t.op == 'call' and t.a[0] == CHILD else None

def slotkey(s): return (s[0], 0) if len(s) == 1 else (s[0], 1 if s[1] == 'var' else 2)

def check_visit(c, so, k, acc, p, e, r, evs):
    n = name(so)
    c.fns.update(e.visited)
    stored = set()
    conts = contents(k.ev, k.children, k.facts)
    want_validity = SPEC[so][2] is not None
    # slots accessors read (validity is visited through visit_validity)
    need = {}
    for q, a in acc.items():
        nm = q.rsplit('::', 1)[1]
        if nm == 'validity' or nm not in SPEC[so][1] and nm != 'chunk_offsets': continue
        for idx, _, _ in main_reads(a):
            for s in slots(a.ev, idx): need[slotkey(s)] = nm
    seq = []
    for x in evs:
        kind = x.p.rsplit('::', 1)[1]
        if kind == 'visit_child':
            t = topchild(x.vals[-1])
            ss = slots(e, t.a[2][1]) if t is not None else []
            seq.append(('child', slotkey(ss[0]) if len(ss) == 1 else None, x))
        elif kind == 'visit_validity': seq.append(('validity', None, x))
        elif kind == 'visit_buffer': seq.append(('buffer', None, x))
    ch = [s for kd, s, _ in seq if kd == 'child']
    for s, nm in sorted(need.items()):
        c.req(ch.count(s) == 1, 'visit', 'visit:%s::%s' % (n, nm), 'accept() visits child slot %s %d times: the component %s is %s when the array is written' % (s, ch.count(s), nm, 'lost' if s not in ch else 'duplicated'), c.where(p), sample='%s visits %s' % (n, nm))
    c.req(set(ch) <= set(need), 'visit set', 'visit-extra:' + n, 'accept() visits %s, which no accessor reads' % sorted(x for x in ch if x not in need), c.where(p))
    c.req(ch == sorted(ch, key=lambda x: x or (99, 9)), 'visit order', 'visit-order:' + n, 'children are visited in the order %s, but the reader rebuilds them by position' % ch, c.where(p))
    nv = [x for kd, _, x in seq if kd == 'validity']
    if want_validity:
        c.req(len(nv) == 1 and any(y.op == 'call' and y.a[0] == CHILD or True for y in walk(nv[0].vals[-1], e)), 'visit', 'visit:%s::validity' % n, 'accept() never visits the validity: a written array loses its nulls', c.where(p))
        if nv:
            order = [kd for kd, _, _ in seq]
            c.req(order.index('validity') > max([i for i, kd in enumerate(order) if kd == 'child'] or [-1]), 'visit order', 'visit-order-validity:' + n, 'the validity child must be visited after the other children', c.where(p))
            own = [y for y in walk(nv[0].vals[-1], e) if y.op == 'call' and (y.a[0] == CHILD or y.a[0].endswith('::validity'))]
            c.req(bool(own), 'visit', 'visit-own-validity:' + n, 'the visited validity is not the array\'s own', c.where(p))
    nb = [x for kd, _, x in seq if kd == 'buffer']
    hasbuf = not (k.buffer.op == 'agg' and k.buffer.a[1] == 'None')
    if k.buffer.op in ('arr', 'tup'): hasbuf = False
    c.req((so in BUFFERS) == bool(nb) and len(nb) <= 1, 'buffer', 'visit-buffer:' + n, 'accept() visits %d buffers, the constructor stores %s' % (len(nb), 'one' if so in BUFFERS else 'none'), c.where(p))
    if so in BUFFERS:
        kb = next((y for y in walk(k.event.vals[3], k.ev)), None) if len(k.event.vals) >= 6 else None
        c.req(hasbuf or any(mentions(v, lambda y: y.op == 'agg' and y.a[1] == 'Some') for v in k.event.vals), 'buffer', 'ctor-buffer:' + n, 'the constructor must store its buffer', c.where(k.path))
    # mandatory visits happen on every successful return
    for t, f in (alts(e, r.ret) if r.ret is not None else ()):
        if t.op == 'agg' and t.a[1] == 'Err' or t.op == 'residual' or variants_err(e, t, f): continue
        for kd, s, x in seq:
            if kd == 'child' and (s is None or s[1] != 0 or opt_component(conts, need.get(s), so)): continue
            vt = mk('call', x.name, x.g, x.vals, None)
            done = any(y.op == 'call' and y.a[0] in (x.p, x.r, x.name) and y.a[2][1:] == x.vals[1:] for y in walk(t, e)) or \
                   any(v == ('in', frozenset(['Ok'])) and any(y.op == 'call' and y.a[0] in (x.p, x.name) and y.a[2][1:] == x.vals[1:] for y in walk(ft)) for ft, v in f.items() if ft.op == 'D')
            c.req(done, 'visit on every path', 'visit-path:%s:%s:%s' % (n, kd, s), 'accept() can succeed without having visited %s' % (kd if s is None else 'child %s' % (s,)), c.where(p))
def variants_err(e, t, f):
    v = e.variants(t, f)
    return v is not None and 'Ok' not in v
def opt_component(conts, nm, so):
    i = SPEC[so][1].get(nm)
    return any(not any(mentions(x, lambda y: y.op == 'arg' and y.a[0] == i) for _, x in parts) for parts, _ in conts)
