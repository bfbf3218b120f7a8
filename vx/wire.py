"""Round trips by composition: the encoder is evaluated on each concrete variant, its result term is given to the decoder
(evaluated by the same dataflow), and the decoder's result is normalised and compared with the original."""
from arr import *
FB = re.compile(r'^<vortex_flatbuffers::([a-z_]+)::([A-Za-z_0-9]+)>::([a-z_0-9]+)$')
IDENT1 = ('create_string', 'create_vector', 'create_vector_from_iter', 'create_shared_string')
IDENT0 = ('as_union_value', 'iter', 'bytes', 'as_str', 'value')

def fbhook(F, induct=()):
    """induct: list of (encoder path regex, decoder path regex)"""
    def args_fields(adt):
        a = F.adts.get(adt)
        return [f[0] for f in a['v'][0][2]] if a else None
    def hook(ev, fr, s, p, r, g, args, V):
        n = r or p
        last = n.rsplit('::', 1)[1] if '::' in n else n
        for enc, dec in induct:
            if re.search(enc, n) or re.search(enc, p):
                if any(re.search(enc, q) for q in ev.stack): return mk('enc', enc, V(0))
            if re.search(dec, n) or re.search(dec, p):
                x = V(0)
                if x.op == 'enc' and x.a[0] == enc: return Ok(x.a[1])
        if 'FlatBufferBuilder' in n and last in IDENT1: return V(1)
        if last in IDENT0 and ('WIPOffset' in n or n.startswith('<flatbuffers::vector::Vector') or n.startswith('<flatbuffers::')): return V(0)
        m = FB.match(n)
        if not m: return None
        mod, ty, fn = m.groups()
        if fn == 'create' and len(args) == 2: return mk('fbtab', '%s::%s' % (mod, ty), V(1))
        if len(args) != 1: return None
        x = V(0)
        if x.op != 'fbtab' or x.a[1].op != 'agg': return None
        if x.a[0] != '%s::%s' % (mod, ty): return None
        names = args_fields(x.a[1].a[0])
        if names is None: return None
        fl = dict(zip(names, x.a[1].a[2]))
        if fn in fl:
            b = F.bodies.get(n)
            v = fl[fn]
            # a required field: the getter returns the value itself
            if b and not b['locals'][0][0].startswith('core::option::Option') and v.op == 'agg' and v.a[1] == 'Some': return v.a[2][0]
            return v
        u = re.match(r'(.+)_as_([a-z_0-9]+)$', fn)
        if u and u.group(1) in fl:
            tag = fl.get(u.group(1).rstrip('_') + '_type')
            if tag is None: return None
            want = union_tag(F, mod, u.group(1), u.group(2), tag)
            got = tagval(tag)
            if want is None or got is None: return None
            return fl[u.group(1)] if got == want else NONE
        return None
    return hook
def tagval(t):
    if t.op == 'agg' and len(t.a[2]) == 1: t = t.a[2][0]
    elif t.op == 'k':
        f = agg_fields(t)
        if f: t = f[0]
    return num(kv(t)) if isk(t) else None
def tagtype(t):
    if t.op == 'agg': return t.a[0]
    x = as_adt(t.a[1]) if t.op == 'k' else None
    return x[0] if x else None
def union_tag(F, mod, field, suffix, tag):
    ty = tagtype(tag)
    if ty is None: return None
    norm = lambda s: re.sub(r'[^a-z0-9]', '', s.lower())
    for k, c in F.consts.items():
        if k.startswith('<%s>::' % ty) and norm(k.rsplit('::', 1)[1]) == norm(suffix) and c['t'] == ty:
            return num(hv(c['v']['fields'][0]))
    return None

def root(t):
    while t.op in ('collect', 'map') and (t.op == 'collect' or t.a[1] is mk('elem', root(t.a[0]))): t = t.a[0]
    return t
def norm(e, t):
    """value-preserving normal form"""
    def leaf(x): 
        y = kconst(x)
        return y if y is not x else None
    def post(x): return x
    memo = {}
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        if x in memo: return memo[x]
        memo[x] = x
        r = leaf(x)
        if r is None:
            if x.op == 'phi':
                l = {go(y) for y, _ in alts(e, x)}
                r = l.pop() if len(l) == 1 else x
            else: r = rule(mk(x.op, *(go(y) for y in x.a)))
        memo[x] = r
        return r
    def rule(x):
        o, a = x.op, x.a
        if o == 'collect': return a[0]
        if o == 'elem' and a[0].op == 'map': return a[0].a[1]
        if o == 'map':
            if a[1].op == 'elem' and a[1].a[0] is a[0]: return a[0]
            if a[0].op == 'map': return rule(mk('map', a[0].a[0], a[1]))
        if o == 'unwrapit' and a[0].op == 'map':
            b = a[0].a[1]
            if b.op == 'agg' and b.a[1] == a[1] and b.a[2]: return rule(mk('map', a[0].a[0], b.a[2][0]))
        if o == 'optmap':
            if a[0].op == 'optmap': return rule(mk('optmap', a[0].a[0], a[1]))
            if a[1].op == 'vf' and a[1].a[0] is a[0]: return a[0]
        if o in ('f', 'vf', 'cmp', 'bin', 'not', 'cast'): return fold(e, o, a)
        if o == 'agg' and a[2] and a[0] in e.F.adts:
            ad = e.F.adts[a[0]]
            if len(ad['v']) == 1:
                names = [f[0] for f in ad['v'][0][2]]
                if all(y.op == 'f' and y.a[1] == nm and y.a[0] is a[2][0].a[0] for y, nm in zip(a[2], names)) and len(names) == len(a[2]): return a[2][0].a[0]
        return x
    return go(t)

def roundtrip(c, enc, dec, v, hook=None, opaque=(), prep=lambda x: x, dec_args=None, maxdepth=8):
    """[(normalised result, facts)], encoded term"""
    if c.body(enc) is None or c.body(dec) is None: return None
    e = c.ev(hook=hook, opaque=opaque, maxdepth=maxdepth)
    r = e.run(enc, {1: v})
    if r.ret is None: return None
    x = prep(r.ret)
    args = {1: x}
    args.update(dec_args or {})
    r2 = e.run(dec, args)
    c.fns.update(e.visited)
    out = []
    if r2.ret is not None:
        for t, f in alts(e, r2.ret): out.append((norm(e, t), f))
    return out, r.ret, e
