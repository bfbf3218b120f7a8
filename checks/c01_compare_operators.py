from lib import *
import spec
ID = 'C01'
TITLE = 'Comparison operators keep their meaning through every table, kernel and dispatch'
RULE = ('the finite operator tables are extracted by conditional constant propagation (operator bound to each variant) and compared with the algebra of =,!=,<,<=,>,>=; '
        'in every compare kernel each leaf comparison whose operands come from the two inputs must use exactly the requested operator (or its mirror image when the operands are exchanged); the normal form of every kernel and of the dispatching entry point is compared with the form that compares row by row: positions, operands, nulls and length of the result')
VS = ['Eq', 'NotEq', 'Gt', 'Gte', 'Lt', 'Lte']
INV = {'Eq': 'NotEq', 'NotEq': 'Eq', 'Gt': 'Lte', 'Gte': 'Lt', 'Lt': 'Gte', 'Lte': 'Gt'}
SWAP = {'Eq': 'Eq', 'NotEq': 'NotEq', 'Gt': 'Lt', 'Gte': 'Lte', 'Lt': 'Gt', 'Lte': 'Gte', 'And': 'And', 'Or': 'Or'}
TXT = {'Eq': '=', 'NotEq': '!=', 'Gt': '>', 'Gte': '>=', 'Lt': '<', 'Lte': '<=', 'And': 'and', 'Or': 'or'}
ARROW = {'arrow_ord::cmp::eq': 'Eq', 'arrow_ord::cmp::neq': 'NotEq', 'arrow_ord::cmp::gt': 'Gt', 'arrow_ord::cmp::gt_eq': 'Gte', 'arrow_ord::cmp::lt': 'Lt', 'arrow_ord::cmp::lt_eq': 'Lte',
         'arrow_ord::cmp::distinct': 'distinct', 'arrow_ord::cmp::not_distinct': 'not_distinct'}
CMPN = {'core::cmp::PartialEq::eq': 'Eq', 'core::cmp::PartialEq::ne': 'NotEq', 'core::cmp::PartialOrd::lt': 'Lt', 'core::cmp::PartialOrd::le': 'Lte', 'core::cmp::PartialOrd::gt': 'Gt', 'core::cmp::PartialOrd::ge': 'Gte'}
COMPARE = ('vortex::compute::compare::compare', 'vortex::compute::ArrayCompute::compare', 'vortex::compute::compare::CompareFn::compare', 'vortex::compute::compare::MaybeCompareFn::maybe_compare', 'vortex::compute::compare::scalar_cmp')

def unit(adt, v): return agg(adt, v)
def one(r):
    l = alts(r.e, r.ret)
    return l[0][0] if len(l) == 1 else None

def tables(c):
    for adt, vs in ((OP, VS), (EOP, VS + ['And', 'Or'])):
        got = c.F.variants(adt)
        c.req(got is not None and sorted(got) == sorted(vs), 'operator enum', adt + ':variants', 'operator enum variants changed: %s' % got, adt)
        for v in vs:
            for m, tab in (('inverse', INV), ('swap', SWAP)):
                p = '<%s>::%s' % (adt, m)
                r = c.run(p, {1: unit(adt, v)})
                if r is None: continue
                t = one(r)
                w = variant_name(t) if t is not None else None
                if adt == EOP and m == 'inverse':
                    if v in ('And', 'Or'):
                        c.req(w == 'None', 'table row', '%s:%s' % (p, v), '%s of %s must be None, is %s' % (m, v, t), c.where(p)); continue
                    w = variant_name(t.a[2][0]) if w == 'Some' and t.op == 'agg' else None
                c.req(w == tab[v], 'table row', '%s:%s' % (p, v), '%s(%s) must be %s, is %s' % (m, v, tab[v], w), c.where(p), sample='%s(%s)=%s' % (m, v, w))
            p = '<%s as core::fmt::Display>::fmt' % adt
            r = c.run(p, {1: unit(adt, v)})
            if r is not None:
                txt = [kv(x) for e in r.events for a in e.vals for x in walk(a) if isk(x) and isinstance(kv(x), str)]
                c.req(txt == [TXT[v]] , 'display row', '%s:%s' % (p, v), 'Display of %s must write "%s", writes %s' % (v, TXT[v], txt), c.where(p))
    # to_fn
    p = '<%s>::to_fn' % OP
    for v in VS:
        r = c.run(p, {1: unit(OP, v)})
        if r is None: continue
        t = one(r)
        ok = None
        if t is not None and t.op == 'clo':
            a, b = mk('arg', 'l'), mk('arg', 'r')
            e = c.ev(); rr = e.run(t.a[0], {2: a, 3: b})
            ok = rel(rr.ret, a, b)
        c.req(ok == v, 'to_fn row', p + ':' + v, 'to_fn(%s) computes l %s r' % (v, ok), c.where(p))

def rel(t, a, b):
    """which operator does the boolean term t express between a and b"""
    neg = False
    while t is not None and t.op == 'not': t = t.a[0]; neg = not neg
    if t is None or t.op != 'cmp': return None
    o, x, y = t.a
    r = {'Eq': 'Eq', 'Lt': 'Lt', 'Le': 'Lte'}[o]
    if (x, y) == (b, a): r = SWAP[r]
    elif (x, y) != (a, b): return None
    return INV[r] if neg else r

def side(t, ev):
    l = r = False
    for x in walk(t, ev):
        if x.op == 'arg':
            if x.a[0] == 1: l = True
            elif x.a[0] == 2: r = True
    return 'both' if l and r else 'l' if l else 'r' if r else None

def opv(t): return variant_name(t)

def leaves(r):
    """(event, operator, left operand, right operand)"""
    for e in r.events:
        n = e.name
        if e.p in ARROW and len(e.vals) >= 2: yield e, ARROW[e.p], e.vals[0], e.vals[1]
        elif e.p in CMPN and len(e.vals) == 2: yield e, CMPN[e.p], e.vals[0], e.vals[1]
        elif e.p in COMPARE or (e.r or '') in COMPARE or n.endswith('CompareFn>::compare') or n.endswith('MaybeCompareFn>::maybe_compare'):
            if len(e.vals) >= 3: yield e, opv(e.vals[2]), e.vals[0], e.vals[1]

META = re.compile(r'::(len|dtype|ptype|nchunks|is_encoding|encoding|id|ext_dtype)$')
def metadata_only(t):
    """comparisons of lengths / types / encodings are guards, not data comparisons"""
    if t.op in ('len', 'discr'): return True
    if t.op == 'call' and META.search(t.a[0]): return True
    if t.op in ('f', 'vf') : return metadata_only(t.a[0])
    if t.op == 'phi': return False
    return False

OPAQUE = ['<vortex::Array>::', '<vortex_scalar', 'vortex::validity', '<vortex_dtype', 'vortex_error', '::into_canonical', '::from_arrow', 'ConstantArray>::', 'BoolArray>::', 'ChunkedArray>::', 'PrimitiveArray>::', 'vortex::compute::compare::compare', 'scalar_cmp', 'ArrayView', 'ArrayData', 'core::convert', 'vortex::arrow', 'into_arrow', 'Canonical>']
def opaque(q):
    if q in ('vortex::compute::compare::compare',): return False
    return None

def kernels(c):
    ks = sorted(n for n in c.F.bodies if n.endswith('CompareFn>::compare') or n.endswith('MaybeCompareFn>::maybe_compare'))
    ks += ['vortex::compute::compare::compare', 'vortex::compute::compare::scalar_cmp']
    # blanket impl CompareFn for MaybeCompareFn types simply forwards
    for p in ks:
        for v in VS:
            r = c.run(p, {3: unit(OP, v)}, opaque=OPAQUE, maxdepth=6)
            if r is None: continue
            n = 0
            for e, op, a, b in leaves(r):
                sa, sb = side(a, r.e), side(b, r.e)
                if metadata_only(a) or metadata_only(b): continue
                if sa is None or sb is None: continue
                n += 1
                key = '%s:%s:%s' % (p, v, e.name)
                if sa == 'both' or sb == 'both' or sa == sb:
                    # cannot attribute the operands to one input each: at least the operator must be v or its mirror image
                    if e.p in CMPN: n -= 1; continue
                    c.req(op in (v, SWAP[v]), 'mixed-operand comparison', key, 'requested %s, comparison uses %s' % (v, op), c.where(e.fn, e.line)); continue
                want = v if sa == 'l' else SWAP[v]
                c.req(op == want, 'leaf comparison', key, 'the kernel was asked for lhs %s rhs but compares (%s, %s) with %s' % (TXT[v], 'lhs' if sa == 'l' else 'rhs', 'lhs' if sb == 'l' else 'rhs', op), c.where(e.fn, e.line),
                      sample='%s %s -> %s(%s,%s)' % (short(p), v, op, sa, sb))
            rets = [t for t, _ in alts(r.e, r.ret)] if r.ret is not None else []
            declines = rets and all(variant_name(t) == 'None' for t in rets)
            c.req(n > 0 or declines, 'kernel x operator', '%s:%s:no-comparison' % (p, v), 'no comparison of the two inputs is reached for operator %s' % v, c.where(p))

def binary_expr(c):
    p = '<vortex_expr::binary::BinaryExpr as vortex_expr::VortexExpr>::evaluate'
    ps = [n for n in c.F.bodies if n.startswith('<vortex_expr::binary::BinaryExpr as') and n.endswith('::evaluate')]
    if not ps: c.body(p); return
    p = ps[0]
    fields = [f[0] for f in c.F.adts['vortex_expr::binary::BinaryExpr']['v'][0][2]]
    lhs, rhs = mk('arg', 1, 'lhs'), mk('arg', 2, 'rhs')
    for v in VS + ['And', 'Or']:
        vals = {'lhs': lhs, 'rhs': rhs, 'operator': unit(EOP, v)}
        a = agg('vortex_expr::binary::BinaryExpr', 'BinaryExpr', tuple(vals.get(f, mk('arg', 0, f)) for f in fields))
        r = c.run(p, {1: a, 2: mk('arg', 9, 'batch')}, opaque=['<vortex::Array>::', 'vortex::compute::'], maxdepth=5)
        if r is None: continue
        res = [t for t, _ in alts(r.e, r.ret)]
        calls = [e for e in r.events if e.p.startswith('vortex::compute::') and e.p.rsplit('::', 1)[1] in ('compare', 'and', 'or', 'and_kleene', 'or_kleene')]
        want = {'And': 'and', 'Or': 'or'}.get(v, 'compare')
        ok = len(calls) == 1 and calls[0].p.rsplit('::', 1)[1] == want
        if ok:
            e = calls[0]; sa, sb = side(e.vals[0], r.e), side(e.vals[1], r.e)
            if want == 'compare':
                op = opv(e.vals[2])
                ok = (sa, sb, op) == ('l', 'r', v) or (sa, sb, op) == ('r', 'l', SWAP[v])
            else: ok = {sa, sb} == {'l', 'r'}
            ok = ok and any(is_call(x, e.p) for t in res for x in walk(t, r.e))
        c.req(ok, 'expression operator', p + ':' + v, 'BinaryExpr with %s evaluates %s' % (v, [repr(x)[:160] for x in calls]), c.where(p), sample='%s -> %s' % (v, calls[0] if calls else None))

def datafusion(c):
    p = '<vortex_expr::operators::Operator as core::convert::TryFrom<datafusion_expr_common::operator::Operator>>::try_from'
    DF = 'datafusion_expr_common::operator::Operator'
    M = {'Eq': 'Eq', 'NotEq': 'NotEq', 'Lt': 'Lt', 'LtEq': 'Lte', 'Gt': 'Gt', 'GtEq': 'Gte', 'And': 'And', 'Or': 'Or'}
    vs = c.F.variants(DF) or []
    c.req(len(vs) >= 20, 'operator enum', DF + ':variants', 'DataFusion operator enum not visible', DF)
    for v in vs:
        r = c.run(p, {1: unit(DF, v)}, maxdepth=2)
        if r is None: continue
        out = set()
        for t, _ in alts(r.e, r.ret):
            if t.op == 'agg' and t.a[1] == 'Ok': out.add(variant_name(t.a[2][0]))
            elif t.op == 'agg' and t.a[1] == 'Err': out.add('Err')
            else: out.add('?')
        w = {M[v]} if v in M else {'Err'}
        # additional supported operators would be fine only if we knew their meaning
        c.req(out == w, 'DataFusion operator row', p + ':' + v, 'DataFusion %s converts to %s, expected %s' % (v, out, w), c.where(p), sample='%s->%s' % (v, out))

PY = {'__eq__': 'Eq', '__ne__': 'NotEq', '__lt__': 'Lt', '__le__': 'Lte', '__gt__': 'Gt', '__ge__': 'Gte', '__and__': 'And', '__or__': 'Or'}
def python(c):
    seen = {}
    for n in c.F.bodies:
        m = re.match(r'<pyvortex::expr::PyExpr>::(__\w+__)$', n)
        if not m: continue
        d = m.group(1)
        if d not in PY and d.strip('_') not in ('neq',): continue
        r = c.run(n, {1: mk('arg', 1, 'self'), 2: mk('arg', 2, 'right')}, maxdepth=6, opaque=['pyvortex::expr::coerce_expr', 'vortex_scalar'])
        found = [e for e in r.events if e.name.endswith('BinaryExpr>::new')]
        seen[d] = n
        w = PY.get(d)
        if w is None:
            c.viol(n, 'Python never calls %s: the comparison it implements is not reachable through its operator' % d, c.where(n)); continue
        ok = len(found) == 1 and variant_name(found[0].vals[1]) == w and side(found[0].vals[0], r.e) == 'l' and side(found[0].vals[2], r.e) == 'r'
        c.req(ok, 'python expression operator', n, '%s must build BinaryExpr(self %s right), builds %s' % (d, w, [repr(x)[:200] for x in found]), c.where(n), sample='%s -> %s' % (d, w))
    for d in PY:
        c.req(d in seen, 'python dunder', '<pyvortex::expr::PyExpr>::%s' % d, 'PyExpr lacks %s, so Python falls back to identity comparison/TypeError for it' % d, 'pyvortex/src/expr.rs')
    for n in sorted(c.F.bodies):
        m = re.match(r'<pyvortex::array::PyArray>::(__\w+__|\w+)$', n)
        if not m: continue
        d = m.group(1)
        if d not in PY or d in ('__and__', '__or__'): continue
        r = c.run(n, maxdepth=3, opaque=['vortex::compute::', '<vortex'])
        found = [e for e in r.events if e.p == 'vortex::compute::compare::compare']
        ok = len(found) == 1 and opv(found[0].vals[2]) == PY[d] and side(found[0].vals[0], r.e) == 'l' and side(found[0].vals[1], r.e) == 'r'
        c.req(ok, 'python array operator', n, '%s must compare(self, other, %s): %s' % (d, PY[d], found), c.where(n))

KERN = r'''
@ <vortex::array::constant::ConstantArray as vortex::compute::compare::MaybeCompareFn>::maybe_compare args=self,other,operator ptype=I32
ConstantArray.new(scalar_cmp(owned_scalar(self), scalar_at(other, 0), operator), len(self)) <- Eq(True, TryFrom.try_from(get(other@*, IsConstant)))
ConstantArray.new(scalar_cmp(owned_scalar(self), scalar_at(other, 0), operator), len(self)) <- TryFrom.try_from(other) is Ok
None <- !Eq(True, TryFrom.try_from(get(other@*, IsConstant))) & TryFrom.try_from(other) is Err
@ <vortex::array::extension::ExtensionArray as vortex::compute::compare::MaybeCompareFn>::maybe_compare args=self,other,operator ptype=I32
None <- TryFrom.try_from(other) is Err
compare(storage(self), ConstantArray.new(Scalar(dtype(storage(self)), scalar_value(TryFrom.try_from(other))), len(TryFrom.try_from(other))), operator) <- TryFrom.try_from(other) is Ok
compare(storage(self), storage(TryFrom.try_from(other)), operator) <- TryFrom.try_from(other) is Err & TryFrom.try_from(other) is Ok
@ <vortex::array::primitive::PrimitiveArray as vortex::compute::compare::MaybeCompareFn>::maybe_compare args=self,other,operator ptype=I32
BoolArray.try_new(apply_predicate(maybe_null_slice(self), maybe_null_slice(TryFrom.try_from(other)), closure), into_nullable(and(validity(self), validity(TryFrom.try_from(other))))) <- TryFrom.try_from(other) is Err & TryFrom.try_from(other) is Ok
None <- TryFrom.try_from(other) is Err
primitive_const_compare(self, TryFrom.try_from(other), operator) <- TryFrom.try_from(other) is Ok
@ <vortex::array::varbin::VarBinArray as vortex::compute::compare::MaybeCompareFn>::maybe_compare args=self,other,operator ptype=I32
None <- TryFrom.try_from(other) is Err
compare_constant(self, TryFrom.try_from(other), operator) <- TryFrom.try_from(other) is Ok
@ <vortex::array::varbinview::VarBinViewArray as vortex::compute::compare::MaybeCompareFn>::maybe_compare args=self,other,operator ptype=I32
None <- TryFrom.try_from(other) is Err
compare_constant(self, TryFrom.try_from(other), operator) <- TryFrom.try_from(other) is Ok
@ <vortex_alp::alp::array::ALPArray as vortex::compute::compare::MaybeCompareFn>::maybe_compare args=self,other,operator ptype=I32
BoolArray.from_vec(from_elem(False, len(self)), AllInvalid) <- as_pvalue(scalar_at(other, 0).value) is None
None
alp_scalar_compare(self, as_pvalue(scalar_at(other, 0).value)@F32.0, operator) <- as_pvalue(scalar_at(other, 0).value) is F32 & as_pvalue(scalar_at(other, 0).value) is Some
alp_scalar_compare(self, as_pvalue(scalar_at(other, 0).value)@F64.0, operator) <- as_pvalue(scalar_at(other, 0).value) is F64 & as_pvalue(scalar_at(other, 0).value) is Some
@ <vortex_fsst::array::FSSTArray as vortex::compute::compare::MaybeCompareFn>::maybe_compare args=self,other,operator show=operator
None
compare_fsst_constant(self, TryFrom.try_from(other), operator is Eq) <- operator is Eq|NotEq
@ <vortex::array::chunked::ChunkedArray as vortex::compute::compare::CompareFn>::compare args=self,other,operator ptype=I32
ChunkedArray.try_new(each(compare(elem(chunks(self)), slice(other, sum(each(len(elem(chunks(self))))), [len(elem(chunks(self))) + sum(each(len(elem(chunks(self)))))]), operator)), Bool(Nullable))
@ vortex::array::primitive::compute::compare::primitive_const_compare args=self,other,operator ptype=I32
BoolArray.try_new(primitive_value_compare(self, as_primitive(I32(TryFrom.try_from(as_pvalue(scalar_value(other))))), operator), into_nullable(validity(self)))
@ vortex::array::primitive::compute::compare::apply_predicate args=lhs,rhs,f ptype=I32
BooleanBuffer.new({loop{MutableBuffer.new([8*ceil(len(lhs), 64)]) | loop.push_unchecked(loop{0 | bitor(loop, shl({0 <- !icall(f, get_unchecked(lhs, [elem(0..64) + 64*elem(0..div(len(lhs), 64))]), get_unchecked(rhs, [elem(0..64) + 64*elem(0..div(len(lhs), 64))])) | 1 <- icall(f, get_unchecked(lhs, [elem(0..64) + 64*elem(0..div(len(lhs), 64))]), get_unchecked(rhs, [elem(0..64) + 64*elem(0..div(len(lhs), 64))]))}, elem(0..64)))})} <- Eq(0, rem(len(lhs), 64)) | loop{MutableBuffer.new([8*ceil(len(lhs), 64)]) | loop.push_unchecked(loop{0 | bitor(loop, shl({0 <- !icall(f, get_unchecked(lhs, [elem(0..64) + 64*elem(0..div(len(lhs), 64))]), get_unchecked(rhs, [elem(0..64) + 64*elem(0..div(len(lhs), 64))])) | 1 <- icall(f, get_unchecked(lhs, [elem(0..64) + 64*elem(0..div(len(lhs), 64))]), get_unchecked(rhs, [elem(0..64) + 64*elem(0..div(len(lhs), 64))]))}, elem(0..64)))})}.push_unchecked(loop{0 | bitor(loop, shl({0 <- !icall(f, index(lhs, [64*div(len(lhs), 64) + elem(0..rem(len(lhs), 64))]), index(rhs, [64*div(len(lhs), 64) + elem(0..rem(len(lhs), 64))])) | 1 <- icall(f, index(lhs, [64*div(len(lhs), 64) + elem(0..rem(len(lhs), 64))]), index(rhs, [64*div(len(lhs), 64) + elem(0..rem(len(lhs), 64))]))}, elem(0..rem(len(lhs), 64))))}) <- !Eq(0, rem(len(lhs), 64))}, 0, len(lhs))
@ vortex::array::primitive::compute::compare::primitive_value_compare args=array,value,predicate
each(icall(closure, get_unchecked(maybe_null_slice(array), pos(array)), value))
@ vortex::array::varbin::compute::compare::compare_constant args=lhs,rhs,operator calls=compare_constant_arrow#0 voc=varbin_to_arrow n=4
compare_constant_arrow(as_binary(varbin_to_arrow(lhs)))
compare_constant_arrow(as_string(varbin_to_arrow(lhs)))
@ vortex::array::varbin::compute::compare::compare_constant args=lhs,rhs,operator calls=compare_constant_arrow#2 voc=varbin_to_arrow n=4
compare_constant_arrow(operator)
@ vortex::array::varbinview::compute::compare_constant args=lhs,rhs,operator
compare_constant_arrow(as_binary_view(into_arrow(lhs)), TryFrom.try_from(Scalar(dtype(rhs), scalar_value(rhs))), operator) <- data_type(into_arrow(lhs)) is BinaryView
compare_constant_arrow(as_string_view(into_arrow(lhs)), TryFrom.try_from(Scalar(dtype(rhs), scalar_value(rhs))), operator) <- data_type(into_arrow(lhs)) is Utf8View
@ vortex::array::varbin::compute::compare::compare_constant_arrow args=lhs,rhs,operator
FromArrowArray.from_arrow({eq(lhs, rhs) <- operator is Eq | gt(lhs, rhs) <- operator is Gt | gt_eq(lhs, rhs) <- operator is Gte | lt(lhs, rhs) <- operator is Lt | lt_eq(lhs, rhs) <- operator is Lte | neq(lhs, rhs) <- operator is NotEq}, True)
@ vortex::array::varbinview::compute::compare_constant_arrow args=lhs,rhs,operator
FromArrowArray.from_arrow({eq(lhs, rhs) <- operator is Eq | gt(lhs, rhs) <- operator is Gt | gt_eq(lhs, rhs) <- operator is Gte | lt(lhs, rhs) <- operator is Lt | lt_eq(lhs, rhs) <- operator is Lte | neq(lhs, rhs) <- operator is NotEq}, True)
@ vortex::compute::compare::compare args=left,right,operator errs=1 show=is_null|is_encoding
BoolArray.from_vec(Vec.new(), AllValid) <- Eq(0, len(left)) & Eq(len(left), len(right)) & eq_ignore_nullability(dtype(left), dtype(right))
ConstantArray.new(Scalar(Bool(Nullable), Null), len(left)) <- !Eq(0, len(left)) & Eq(len(left), len(right)) & eq_ignore_nullability(dtype(left), dtype(right)) & is_null(scalar_value(TryFrom.try_from(right)))
compare(right, left, {Eq <- !is_encoding(right, EncodingId('vortex.constant', 9)) & is_encoding(left, EncodingId('vortex.constant', 9)) & operator is Eq | Gt <- !is_encoding(right, EncodingId('vortex.constant', 9)) & is_encoding(left, EncodingId('vortex.constant', 9)) & operator is Lt | Gte <- !is_encoding(right, EncodingId('vortex.constant', 9)) & is_encoding(left, EncodingId('vortex.constant', 9)) & operator is Lte | Lt <- !is_encoding(right, EncodingId('vortex.constant', 9)) & is_encoding(left, EncodingId('vortex.constant', 9)) & operator is Gt | Lte <- !is_encoding(right, EncodingId('vortex.constant', 9)) & is_encoding(left, EncodingId('vortex.constant', 9)) & operator is Gte | NotEq <- !is_encoding(right, EncodingId('vortex.constant', 9)) & is_encoding(left, EncodingId('vortex.constant', 9)) & operator is NotEq}) <- !is_encoding(right, EncodingId('vortex.constant', 9)) & Eq(len(left), len(right)) & eq_ignore_nullability(dtype(left), dtype(right)) & is_encoding(left, EncodingId('vortex.constant', 9))
or(compare(left, right, operator), or(compare(right, left, {Gt <- operator is Lt | Gte <- operator is Lte | Lt <- operator is Gt | Lte <- operator is Gte | operator <- operator is Eq|NotEq}), FromArrowArray.from_arrow({eq(into_arrow(left), into_arrow(right)) <- operator is Eq | gt(into_arrow(left), into_arrow(right)) <- operator is Gt | gt_eq(into_arrow(left), into_arrow(right)) <- operator is Gte | lt(into_arrow(left), into_arrow(right)) <- operator is Lt | lt_eq(into_arrow(left), into_arrow(right)) <- operator is Lte | neq(into_arrow(left), into_arrow(right)) <- operator is NotEq}, True))) <- !Eq(0, len(left)) & Eq(len(left), len(right)) & eq_ignore_nullability(dtype(left), dtype(right))
@ vortex::compute::compare::scalar_cmp args=lhs,rhs,operator
Scalar(Bool(Nullable), Bool({!Eq(lhs, rhs) <- operator is NotEq | !Lt(lhs, rhs) <- operator is Gte | !Lt(rhs, lhs) <- operator is Lte | Eq(lhs, rhs) <- operator is Eq | Lt(lhs, rhs) <- operator is Lt | Lt(rhs, lhs) <- operator is Gt})) <- !bitor(is_null(lhs), is_null(rhs))
Scalar(Bool(Nullable), Null) <- bitor(is_null(lhs), is_null(rhs))
@ vortex_alp::alp::compute::alp_scalar_compare args=alp,rhs,operator ptype=F32 show=patches|encode_single
compare(alp, ConstantArray.new(rhs, len(alp)), operator) <- encode_single(rhs, exponents(alp)) is Err|Ok
compare(encoded(alp), ConstantArray.new(encode_single(rhs, exponents(alp)), len(alp)), operator) <- encode_single(rhs, exponents(alp)) is Ok & patches(alp) is None
@ vortex_fsst::compute::compare_fsst_constant args=left,right,equal
compare(codes(left), ConstantArray.new({Arrow(Buffer.from_vec(compress(build(loop{CompressorBuilder.new() | loop.insert(Symbol.from_slice(to_le_bytes(elem(maybe_null_slice(symbols(left))))), elem(maybe_null_slice(symbol_lengths(left))))}), as_buffer(scalar_value(right))@*))) <- dtype(left) is Binary | Arrow(Buffer.from_vec(compress(build(loop{CompressorBuilder.new() | loop.insert(Symbol.from_slice(to_le_bytes(elem(maybe_null_slice(symbols(left))))), elem(maybe_null_slice(symbol_lengths(left))))}), from_utf8_unchecked(as_buffer_string(scalar_value(right)).0@*)))) <- dtype(left) is Utf8}, len(left)), {Eq <- equal | NotEq <- !equal})
right
'''

def run(c):
    tables(c); kernels(c); binary_expr(c); datafusion(c); python(c)
    c.floor('table row', 12 + 16); c.floor('leaf comparison', 60); c.floor('kernel x operator', 60); c.floor('expression operator', 8); c.floor('python dunder', 8); c.floor('DataFusion operator row', 20)
    spec.run_tables(c, (('kernel form', KERN),), 'must compare each row with its counterpart', r'MaybeCompareFn>::maybe_compare$', ('kernel form', 14))
