"""Flow-sensitive value-origin analysis over MIR.

A forward dataflow analysis.  The abstract value of a local is a *term* saying where the value came
from (argument, field of, call of, aggregate of, join of ...).  At control-flow joins differing
terms become a named phi whose alternatives are remembered together with the branch conditions
that hold on every path to that join edge.  Branch conditions are must-facts: a map
term -> set of values it can still have, met (set union / dropped) at joins.  Branches whose
discriminant is a known constant are pruned (conditional constant propagation), which is what makes
finite tables extractable.  Workspace helpers are analysed in their calling context (bounded depth,
no recursion), so extracting or inlining a helper does not change what is seen.  No solver and no
path enumeration is involved.
"""
import heapq, re, sys
from ir import base_ty, ty_args, split_args
sys.setrecursionlimit(20000)

class T:
    __slots__ = ('op', 'a', 'id', '__weakref__')
    def __repr__(self): return fmt(self)
_tab = {}
def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.id = len(_tab)
        _tab[k] = t
    return t
def hv(v):
    if isinstance(v, list): return tuple(hv(x) for x in v)
    if isinstance(v, dict): return ('#',) + tuple((k, hv(x)) for k, x in sorted(v.items()))
    return v
def K(v, ty='', path=None): return mk('k', ty, hv(v), path)
TRUE, FALSE, UNIT = K(True, 'bool'), K(False, 'bool'), mk('tup', ())
def isk(t): return t.op == 'k'
def kv(t): return t.a[1] if t.op == 'k' else None
def agg(path, var, fields=()): return mk('agg', path, var, tuple(fields))
def Ok(x): return agg('core::result::Result', 'Ok', (x,))
def Err(x): return agg('core::result::Result', 'Err', (x,))
def Some(x): return agg('core::option::Option', 'Some', (x,))
NONE = agg('core::option::Option', 'None')

def short(p):
    """drop module prefixes inside a path for display"""
    return re.sub(r'(?:[a-z_0-9]+::)+(?=[A-Za-z_{<])', '', p)
def fmt(t, d=0, full=False):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ','.join(fmt(x, d, full) for x in t) + ')'
        return str(t)
    if d > 14: return '…'
    o, a = t.op, t.a
    sh = (lambda p: p) if full else short
    f = lambda x: fmt(x, d + 1, full)
    if o == 'k':
        if a[1] is None: return 'const(%s)' % (sh(a[2]) if a[2] else sh(a[0]))
        v = a[1]
        if isinstance(v, tuple) and v and v[0] == '#':
            m = dict((x[0], x[1]) for x in v[1:])
            if 'adt' in m: return '%s::%s%s' % (sh(m['adt']), m.get('var'), m.get('fields') or '')
            if 'big' in m: return m['big']
        return repr(v)
    if o == 'arg': return 'arg%s' % (a[0],) if len(a) < 2 else '%s' % a[1]
    if o == 'agg': return '%s::%s%s' % (sh(a[0]), a[1], f(a[2]) if a[2] else '')
    if o == 'tup': return f(a[0])
    if o == 'f': return '%s.%s' % (f(a[0]), a[1])
    if o == 'vf': return '(%s as %s).%s' % (f(a[0]), a[1], a[2])
    if o == 'call': return '%s%s(%s)' % (sh(a[0]), ('<%s>' % ','.join(sh(x) for x in a[1]) if a[1] else ''), ', '.join(f(x) for x in a[2]))
    if o == 'cmp': return '%s(%s,%s)' % (a[0], f(a[1]), f(a[2]))
    if o == 'bin': return '%s(%s,%s)' % (a[0], f(a[1]), f(a[2]))
    if o == 'phi': return 'phi#%d' % t.id
    if o == 'fn': return 'fn:' + sh(a[1] or a[0])
    if o == 'clo': return 'closure:%s' % sh(a[0])
    if o == 'mref': return '&mut[%s]' % (a[0],)
    return '%s(%s)' % (o, ', '.join(f(x) if isinstance(x, T) else (fmt(x, d + 1, full) if isinstance(x, tuple) else str(x)) for x in a))

FALLIBLE = frozenset(['Ok', 'Err', 'Continue', 'Break'])
class State:
    __slots__ = ('env', 'facts', 'join')
    def __init__(self, env, facts, join=None): self.env = env; self.facts = facts; self.join = join      # join: the last place where several ways met, see Engine.ways
    def copy(self): return State(dict(self.env), dict(self.facts), self.join)

class Frame:
    __slots__ = ('body', 'ctx', 'tymap', 'depth', 'path', 'parent')
    def __init__(self, body, ctx, tymap, depth, parent):
        self.body, self.ctx, self.tymap, self.depth, self.parent = body, ctx, tymap, depth, parent
        self.path = body['n']

class Event:
    """one call site (in context)"""
    __slots__ = ('p', 'r', 'g', 'args', 'vals', 'facts', 'fn', 'line', 'ret', 'site', 'kind', 'dest', 'via', 'stack', 'blk', 'join')
    @property
    def name(self): return self.r or self.p
    def __repr__(self): return '%s(%s) @%s:%s' % (short(self.name), ', '.join(map(fmt, self.vals)), short(self.fn), self.line)

def meet_vals(a, b):           # join of two value sets (either path)
    (ka, sa), (kb, sb) = a, b
    if ka == 'in' and kb == 'in': return ('in', sa | sb)
    if ka == 'out' and kb == 'out':
        s = sa & sb
        return ('out', s) if s else None
    if ka == 'in': s = sb - sa
    else: s = sa - sb
    return ('out', s) if s else None
def and_vals(a, b):            # both hold
    (ka, sa), (kb, sb) = a, b
    if ka == 'in' and kb == 'in': return ('in', sa & sb)
    if ka == 'out' and kb == 'out': return ('out', sa | sb)
    return ('in', sa - sb) if ka == 'in' else ('in', sb - sa)
def meet_facts(fs):
    it = iter(fs)
    r = dict(next(it))
    for f in it:
        if not r: break
        for k in list(r):
            if k not in f: del r[k]
            elif r[k] != f[k]:
                v = meet_vals(r[k], f[k])
                if v is None: del r[k]
                else: r[k] = v
    return r

IDENT = re.compile(r"(?<![A-Za-z0-9_:])([A-Za-z_][A-Za-z0-9_]*)(?![A-Za-z0-9_]|::)")
def subst_ty(s, m):
    if not m or not s: return s
    s2 = IDENT.sub(lambda x: m.get(x.group(1), x.group(1)), s)
    return s2

# ---- transparent std calls: the result denotes the same value as argument 0
TRANSPARENT = {
 'core::clone::Clone::clone', 'core::ops::deref::Deref::deref', 'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow',
 'alloc::borrow::ToOwned::to_owned', 'core::borrow::BorrowMut::borrow_mut', 'core::convert::AsMut::as_mut',
 '<[T]>::iter', '<alloc::vec::Vec<T, A>>::iter', '<alloc::vec::Vec<T, A>>::as_slice', '<alloc::vec::Vec<T, A>>::into_boxed_slice',
 '<[T]>::to_vec', '<[T]>::into_vec', '<core::option::Option<T>>::as_ref', '<core::option::Option<T>>::as_mut', '<core::option::Option<T>>::as_deref',
 '<core::option::Option<&T>>::cloned', '<core::option::Option<&T>>::copied', '<core::result::Result<T, E>>::as_ref', '<core::result::Result<&T, E>>::cloned',
 'core::iter::traits::collect::IntoIterator::into_iter', 'core::iter::traits::iterator::Iterator::cloned', 'core::iter::traits::iterator::Iterator::copied',
 'core::iter::traits::iterator::Iterator::by_ref', 'core::iter::traits::iterator::Iterator::peekable', 'core::iter::traits::iterator::Iterator::fuse',
 'core::future::into_future::IntoFuture::into_future', '<alloc::boxed::Box<T, alloc::alloc::Global>>::new', '<alloc::boxed::Box<T, alloc::alloc::Global>>::pin',
 '<alloc::boxed::Box<T>>::pin', '<alloc::boxed::Box<T>>::new', '<alloc::rcs::arc::Arc<T>>::new', '<alloc::sync::Arc<T>>::new',
 '<alloc::rcs::arc::Arc<T, alloc::alloc::Global>>::new', '<alloc::rcs::rc::Rc<T, alloc::alloc::Global>>::new',
 '<core::pin::Pin<Ptr>>::new', '<core::pin::Pin<Ptr>>::new_unchecked', '<core::pin::Pin<Ptr>>::get_mut', '<core::pin::Pin<Ptr>>::as_mut', 'core::hint::must_use',
 '<alloc::string::String>::as_str', '<str>::as_bytes', '<str>::to_string', 'alloc::string::ToString::to_string', '<alloc::string::String>::as_bytes', '<alloc::string::String>::into_bytes', '<core::mem::manually_drop::ManuallyDrop<T>>::new',
 'alloc::boxed::box_assume_init_into_vec_unsafe', '<alloc::boxed::Box<T, A>>::as_ref',
 'futures_util::future::future::FutureExt::boxed', 'futures_util::future::future::FutureExt::boxed_local',
 'itertools::Itertools::collect_vec', '<core::num::wrapping::Wrapping<T>>::new',
 '<alloc::collections::vec_deque::VecDeque<T, A>>::iter', '<core::pin::Pin<&mut T>>::get_mut', '<core::pin::Pin<&mut T>>::get_unchecked_mut', '<core::pin::Pin<Ptr>>::get_unchecked_mut',
 '<core::option::Option<core::pin::Pin<&mut T>>>::as_pin_mut', '<alloc::vec::Vec<T, A>>::into_iter', 'core::iter::traits::double_ended::DoubleEndedIterator::rev_',
 '<core::pin::Pin<&mut core::option::Option<T>>>::as_pin_mut',
}
UNWRAP = {'<core::option::Option<T>>::unwrap': 'Some', '<core::option::Option<T>>::expect': 'Some', '<core::result::Result<T, E>>::unwrap': 'Ok',
 '<core::result::Result<T, E>>::expect': 'Ok', '<core::option::Option<T>>::unwrap_unchecked': 'Some', '<core::result::Result<T, E>>::unwrap_unchecked': 'Ok'}
BINNAME = {'core::ops::arith::Add::add': 'Add', 'core::ops::arith::Sub::sub': 'Sub', 'core::ops::arith::Mul::mul': 'Mul', 'core::ops::arith::Div::div': 'Div',
 'core::ops::arith::Rem::rem': 'Rem', 'core::ops::bit::Shl::shl': 'Shl', 'core::ops::bit::Shr::shr': 'Shr', 'core::ops::bit::BitAnd::bitand': 'BitAnd',
 'core::ops::bit::BitOr::bitor': 'BitOr', 'core::ops::bit::BitXor::bitxor': 'BitXor'}
ASSIGN = {'core::ops::arith::AddAssign::add_assign': 'Add', 'core::ops::arith::SubAssign::sub_assign': 'Sub', 'core::ops::arith::MulAssign::mul_assign': 'Mul'}
CMPS = {'core::cmp::PartialEq::eq': 'Eq', 'core::cmp::PartialEq::ne': 'Ne', 'core::cmp::PartialOrd::lt': 'Lt', 'core::cmp::PartialOrd::le': 'Le',
 'core::cmp::PartialOrd::gt': 'Gt', 'core::cmp::PartialOrd::ge': 'Ge'}
PRIM_SIZE = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'f32': 4, 'f64': 8, 'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16,
 'half::binary16::f16': 2, 'bool': 1, 'char': 4}
INTS = {'u8': (0, 2**8-1), 'i8': (-2**7, 2**7-1), 'u16': (0, 2**16-1), 'i16': (-2**15, 2**15-1), 'u32': (0, 2**32-1), 'i32': (-2**31, 2**31-1),
 'u64': (0, 2**64-1), 'i64': (-2**63, 2**63-1), 'usize': (0, 2**64-1), 'isize': (-2**63, 2**63-1), 'u128': (0, 2**128-1), 'i128': (-2**127, 2**127-1)}
def num(v):
    if isinstance(v, bool): return v
    if isinstance(v, int): return v
    if isinstance(v, tuple) and v and v[0] == '#' and len(v) == 2 and v[1][0] == 'big': return int(v[1][1])
    return None
def as_adt(v):
    """(adt, variant, fields) of a constant value"""
    if isinstance(v, tuple) and v and v[0] == '#':
        m = dict((x[0], x[1]) for x in v[1:])
        if 'adt' in m: return m['adt'], m.get('var'), m.get('fields')
        if 'ref' in m: return as_adt(m['ref'])
    return None
def variant_name(t):
    """variant of a fully known enum term, else None"""
    if t.op == 'agg': return t.a[1]
    if t.op == 'k':
        x = as_adt(t.a[1])
        if x: return x[1]
    return None

class Budget(Exception): pass

class Alts(dict):
    """alternatives of the phi terms; those of a field of a struct follow the alternatives of the struct"""
    def __init__(self, ev): self.ev = ev
    def get(self, t, d=None):
        if t.op == 'phi' and t.a[0] == 'fld':
            al = dict.get(self, t.a[1])
            return d if al is None else [(self.ev.fld(x, t.a[2], t.a[3]), f, b) for x, f, b in al]
        return dict.get(self, t, d)
    def __getitem__(self, t): return self.get(t)

class Joins(dict):
    def get(self, t, d=None): return self.get(t.a[1], d) if t.op == 'phi' and t.a[0] == 'fld' else dict.get(self, t, d)

class Eval:
    def __init__(self, F, opaque=(), inline=None, maxdepth=8, maxblocks=1200, budget=400000, closures=True, force=(), hook=None):
        self.hook = hook
        self.F = F; self.alts_ = Alts(self); self.vbusy = set(); self.stored = {}; self.joins = {}; self.sig = set(); self.altj = Joins(); self.clores = {}; self.events = {}; self.order = []; self.ctxs = {}; self.closures = closures
        self.opaque = opaque; self.inline_fn = inline; self.maxdepth = maxdepth; self.maxblocks = maxblocks
        self.budget = budget; self.steps = 0; self.stack = []; self.aggs = {}; self.visited = set(); self.force = set(force); self.truncated = []
        self.fnkeep = {}

    # ------------------------------------------------------------ entry
    def run(self, path, args=None, tymap=None, facts=None):
        b = self.F.bodies.get(path)
        if b is None: raise KeyError('anchor not found: ' + path)
        fr = Frame(b, self.ctx(None, 0, path), tymap or {}, 0, None); self.argtys = {i: b['locals'][i][0] for i in range(1, b['args'] + 1)}
        env = {}
        for i in range(1, b['args'] + 1):
            a = (args or {}).get(i)
            ty = b['locals'][i][0]; nm = b['locals'][i][1] if len(b['locals'][i]) > 1 else None
            if a is None: a = mk('arg', i, nm or 'arg%d' % i)
            if ty.startswith('&mut ') or ty.startswith('core::pin::Pin<&mut'):
                env[('A', i)] = a
                a = mk('mref', ('A', i), ())
            env[(fr.ctx, i)] = a
        st = State(env, dict(facts or {}))
        ret, out = self.body(fr, st)
        while ret is not None and ret.op == 'clo' and (self.F.bodies.get(ret.a[0]) or {}).get('cor') and out is not None:    # an async fn: what its future resolves to
            ret, out = self.closure(fr, out, ret, (mk('resume'),), (fr.ctx, -1), b.get('line'))
        r = Result(); r.ret = ret; r.out = out; r.ev = self
        r.events = [self.events[k] for k in self.order if k in self.events]
        return r

    def ctx(self, parent, blk, path):
        k = (parent, blk, path)
        c = self.ctxs.get(k)
        if c is None: c = self.ctxs[k] = len(self.ctxs) + 1
        return c

    # ------------------------------------------------------------ body fixpoint
    def rpo(self, b):
        r = b.get('_rpo')
        if r is not None: return r
        n = len(b['b']); succ = [succs(x[1]) for x in b['b']]
        seen = [False] * n; post = []
        stack = [(0, iter(succ[0]))]; seen[0] = True
        while stack:
            u, it = stack[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = True; stack.append((v, iter(succ[v]))); break
            else:
                post.append(u); stack.pop()
        r = {u: i for i, u in enumerate(reversed(post))}
        b['_rpo'] = r
        return r

    def body(self, fr, st):
        b = fr.body; rpo = self.rpo(b)
        self.stack.append(fr.path)
        ins = {0: {(-1, 0): st}}
        heap = [(0, 0)]; queued = {0}; visits = {}
        rets = {}
        last_in = {}
        while heap:
            _, u = heapq.heappop(heap); queued.discard(u)
            visits[u] = visits.get(u, 0) + 1
            if visits[u] > 12: continue
            self.steps += 1
            if self.steps > self.budget: raise Budget(fr.path)
            s = self.merge(fr, u, ins[u], rpo, visits[u] > 4)
            if s is None: continue
            li = last_in.get(u)
            if li is not None and li.env == s.env and li.facts == s.facts: continue
            last_in[u] = s
            s = s.copy()
            for tgt, idx, s2 in self.block(fr, u, s, rets):
                e = (u, idx)
                d = ins.setdefault(tgt, {})
                o = d.get(e)
                if o is not None and o.env == s2.env and o.facts == s2.facts: continue
                d[e] = s2
                if tgt not in queued: queued.add(tgt); heapq.heappush(heap, (rpo[tgt], tgt))
        self.stack.pop()
        if not rets: return None, None
        if len(rets) == 1:
            (u, s), = rets.items()
        else:
            s = self.merge(fr, 'ret', {(u, 0): x for u, x in rets.items()}, None, False)
        rt = s.env.get((fr.ctx, 0), UNIT)
        out = State({k: v for k, v in s.env.items() if k[0] != fr.ctx}, s.facts, s.join)
        return rt, out

    def merge(self, fr, u, ins, rpo, sticky):
        if len(ins) == 1: return next(iter(ins.values()))
        items = sorted(ins.items(), key=lambda x: str(x[0]))
        back = [rpo is not None and isinstance(u, int) and e[0] >= 0 and rpo[e[0]] >= rpo[u] for e, _ in items]
        fs = meet_facts([s.facts for _, s in items])
        envs = [s.env for _, s in items]
        first = envs[0]; env = {}
        for k, v in first.items():
            same = True
            for e in envs[1:]:
                w = e.get(k)
                if w is not v:
                    same = False
                    break
            if same: env[k] = v; continue
            vals = [e.get(k) for e in envs]
            if any(x is None for x in vals):
                # not initialised on some path: dead here unless conditionally moved
                vs = [(x, i) for i, x in enumerate(vals) if x is not None]
            else: vs = [(x, i) for i, x in enumerate(vals)]
            ph = mk('phi', fr.ctx, u, k)
            al = []
            for x, i in vs:
                if x is ph: continue
                al.append((x, items[i][1].facts, back[i]))
            distinct = {x for x, _, _ in al}
            if len(distinct) == 1 and not sticky:
                if len(vs) == len(al) or True: env[k] = al[0][0]; continue
            self.alts_[ph] = al; self.altj[ph] = [items[i][1].join for x, i in vs if x is not ph]
            env[k] = ph
        for e in envs[1:]:
            for k, v in e.items():
                if k not in first and k not in env: env[k] = v
        ways = [(s.facts, s.join) for (_, s), b in zip(items, back) if not b]
        if len(ways) == 1: return State(env, fs, ways[0][1])
        j = (fr.ctx, u); self.joins[j] = ways
        return State(env, fs, j)
    def ways(self, j, cap=64):
        """the ways of reaching the join j, each with the facts that hold on it; [{}] when there are too many"""
        memo = self.__dict__.setdefault('_ways', {})
        if memo.get('#') != len(self.joins) + self.steps: memo.clear(); memo['#'] = len(self.joins) + self.steps
        full = self.full_sets()
        def norm(f): return {k: v for k, v in f.items() if not (v[0] == 'in' and (v[1] in full or v[1] <= FALLIBLE))}
        def reduce(ws):                                        # two ways that differ in one test only: either outcome of it will do
            done = False
            while not done:
                done = True
                for a in range(len(ws)):
                    for b in range(a):
                        x, y = ws[b], ws[a]
                        if x.keys() != y.keys(): 
                            if x.items() <= y.items(): w = x
                            elif y.items() <= x.items(): w = y
                            else: continue
                        else:
                            d = [k for k in x if x[k] != y[k]]
                            if len(d) > 1: continue
                            w = dict(x)
                            if d:
                                m = meet_vals(x[d[0]], y[d[0]])
                                if m is None: del w[d[0]]
                                else: w[d[0]] = m; w = norm(w)
                        ws = [z for i, z in enumerate(ws) if i not in (a, b)] + [w]; done = False; break
                    if not done: break
            return ws
        def go(j, d):
            if j is None: return [{}]
            if j in memo: return memo[j]
            if d > 60: raise OverflowError
            out = []
            for f, p in self.joins[j]:
                for w in go(p, d + 1):
                    x = dict(w)
                    for k, v in norm(f).items():
                        o = x.get(k)
                        if o is None: x[k] = v
                        elif o[0] == v[0] == 'in': x[k] = ('in', o[1] & v[1])
                        elif v[0] == 'in': x[k] = v
                    if x not in out and not any(v == ('in', frozenset()) for v in x.values()): out.append(x)
            out = reduce(out)
            if len(out) > cap: raise OverflowError
            memo[j] = out
            return out
        try: return go(j, 0)
        except OverflowError: return [{}]
    def reach(self, facts, join):
        """the ways of reaching a state, each with everything that holds on it"""
        out = []
        for w in self.ways(join):
            x = dict(facts)
            for k, v in w.items():
                o = x.get(k)
                if o is None: x[k] = v
                elif o[0] == v[0] == 'in': x[k] = ('in', o[1] & v[1])
                elif v[0] == 'in': x[k] = v
            if x not in out and not any(v == ('in', frozenset()) for v in x.values()): out.append(x)
        return out
    def full_sets(self):
        r = getattr(self.F, '_full', None)
        if r is None:
            r = self.F._full = {frozenset([True, False])} | {frozenset(v[0] for v in a['v']) for a in list(self.F.adts.values()) if a['k'] == 'enum' and len(a['v']) > 1}
            r |= {frozenset(x) for x in (('None', 'Some'), ('Ok', 'Err'), ('Occupied', 'Vacant'))}
        return r
    # ------------------------------------------------------------ one block
    def block(self, fr, u, s, rets):
        st, term = fr.body['b'][u]
        ctx = fr.ctx
        for i, (pl, rv, line) in enumerate(st):
            v = self.rvalue(fr, s, rv, (ctx, u, i), line)
            if len(pl) > 1 and (pl[-1] == '*' or pl[-1][0] == 'f' and len(pl[-1]) > 2): self.stored[(ctx, u, i)] = ('*' if pl[-1] == '*' else pl[-1][2], v, dict(s.facts), s.join)
            self.store(fr, s, pl, v)
        k = term[0]
        if k == 'goto': return [(term[1], 0, s)]
        if k == 'drop': return [(term[2], 0, s)]
        if k == 'ret': rets[u] = s; return []
        if k in ('unreach', 'resume'): return []
        if k == 'assert':
            c = self.operand(fr, s, term[1])
            if not self.assume(s, c, ('in', frozenset([bool(term[2])]))): return []
            return [(term[3], 0, s)]
        if k == 'yield':
            self.store(fr, s, term[3], mk('resume'))
            return [(term[2], 0, s)]
        if k == 'switch':
            d = self.operand(fr, s, term[1])
            out = []; ty = term[4]
            vmap = None
            if d.op == 'discr' and d.a[1]:
                vmap = self.F.discr_map(d.a[1])
            allv = set(); idx = 0
            fails = failing(fr.body)
            real = len({x[1] for x in term[2]} - fails) + (term[3] not in fails and term[3] not in {x[1] for x in term[2]}) > 1       # a test whose outcome the caller can tell by more than an error
            before = dict(s.facts) if real else None
            def mark(s2):
                if real: self.sig.update(k for k, v in s2.facts.items() if before.get(k) != v)
            for v, tgt in term[2]:
                if ty == 'bool': val = bool(int(v))
                elif vmap is not None: val = vmap.get(self.sdisc(v, d.a[1]), str(v))
                elif d.op == 'discr': val = 'd%s' % v
                else: val = int(v)
                allv.add(val)
                s2 = s.copy()
                if self.assume(s2, d, ('in', frozenset([val]))): out.append((tgt, idx, s2)); mark(s2)
                idx += 1
            s2 = s
            if ty == 'bool': rest = ('in', frozenset([True, False]) - allv)
            elif vmap is not None: rest = ('in', frozenset(vmap.values()) - allv)
            else: rest = ('out', frozenset(allv))
            if rest[0] == 'out' or rest[1]:
                if self.assume(s2, d, rest): out.append((term[3], idx, s2)); mark(s2)
            return out
        if k == 'call': return self.callterm(fr, u, s, term)
        return []

    def sdisc(self, v, adt):
        v = str(v)
        m = self.F.discr_map(adt)
        if v in m: return v
        n = int(v)                          # negative discriminants printed unsigned
        for bits in (8, 16, 32, 64, 128):
            if str(n - (1 << bits)) in m: return str(n - (1 << bits))
        return v

    # ------------------------------------------------------------ places
    def proj(self, fr, s, e):
        if e[0] == 'f': return ('f', e[1], e[2] if len(e) > 2 and e[2] not in (None, '') else str(e[1]))
        if e[0] == 'v': return ('v', e[2] if len(e) > 2 else str(e[1]))
        if e[0] == 'i': return ('i', s.env.get((fr.ctx, e[1]), mk('undef', fr.ctx, e[1])))
        return tuple(hv(x) for x in e)
    def apply(self, t, pr, s):
        if pr[0] == 'f': return self.fld(t, pr[1], pr[2], s)
        if pr[0] == 'v': return mk('dc', t, pr[1])
        if pr[0] == 'i': return self.index(t, pr[1])
        return mk('sub', t, pr)
    def read(self, fr, s, place):
        t = s.env.get((fr.ctx, place[0]))
        if t is None: t = mk('undef', fr.ctx, place[0])
        for e in place[1:]:
            if t.op == 'mref': t = self.load(s, t)
            if e == '*': continue
            t = self.apply(t, self.proj(fr, s, e), s)
        return t
    def load(self, s, m):
        n = 0
        while m.op == 'mref' and n < 20:
            t = s.env.get(m.a[0])
            if t is None: t = mk('undef',) + () if False else mk('undefcell', m.a[0])
            for pr in m.a[1]:
                if t.op == 'mref': t = self.load(s, t)
                t = self.apply(t, pr, s)
            m = t; n += 1
        return m
    def loc(self, fr, s, place):
        key = (fr.ctx, place[0]); pr = []
        for e in place[1:]:
            if e == '*' or True:
                cur = s.env.get(key)
                if cur is not None:
                    for p in pr: cur = self.apply(cur, p, s)
                    n = 0
                    while cur is not None and cur.op == 'mref' and n < 20:
                        key = cur.a[0]; pr = list(cur.a[1]); n += 1
                        cur = s.env.get(key)
                        if cur is not None:
                            for p in pr: cur = self.apply(cur, p, s)
            if e == '*': continue
            pr.append(self.proj(fr, s, e))
        return key, pr
    def store(self, fr, s, place, v):
        if len(place) == 1: s.env[(fr.ctx, place[0])] = v; return
        key, pr = self.loc(fr, s, place)
        self.put(s, key, pr, v)
    def put(self, s, key, pr, v):
        base = s.env.get(key)
        if base is None: base = mk('undefcell', key)
        s.env[key] = self.setpath(base, pr, v, s)
    def setpath(self, base, pr, v, s):
        if not pr: return v
        p = pr[0]
        if p[0] == 'f':
            new = self.setpath(self.fld(base, p[1], p[2], s), pr[1:], v, s) if len(pr) > 1 else v
            if base.op == 'agg' and p[1] < len(base.a[2]):
                f = list(base.a[2]); f[p[1]] = new; return mk('agg', base.a[0], base.a[1], tuple(f))
            if base.op == 'tup' and p[1] < len(base.a[0]):
                f = list(base.a[0]); f[p[1]] = new; return mk('tup', tuple(f))
            if base.op == 'clo' and p[1] < len(base.a[1]):
                f = list(base.a[1]); f[p[1]] = new; return mk('clo', base.a[0], tuple(f), base.a[2])
            if base.op == 'setf' and base.a[1] == p[2]: base = base.a[0]
            return mk('setf', base, p[2], new)
        if p[0] == 'v':
            if len(pr) > 1:
                dc = mk('dc', base, p[1])
                q = pr[1]
                new = self.setpath(self.fld(dc, q[1], q[2], s), pr[2:], v, s)
                if base.op == 'agg' and base.a[1] == p[1]:
                    f = list(base.a[2]); f[q[1]] = new; return mk('agg', base.a[0], base.a[1], tuple(f))
                return mk('setv', base, p[1], q[2], new)
            return v
        cur = self.apply(base, p, s)
        new = self.setpath(cur, pr[1:], v, s)
        return mk('seti', base, p[1] if len(p) > 1 and isinstance(p[1], T) else str(p), new)

    def fld(self, t, i, name, s=None):
        o = t.op
        if o == 'dc': return self.vfield(t.a[0], t.a[1], i, name, s)
        if o == 'agg':
            return t.a[2][i] if i < len(t.a[2]) else mk('f', t, name)
        if o == 'tup': return t.a[0][i] if i < len(t.a[0]) else mk('f', t, name)
        if o == 'clo': return t.a[1][i] if i < len(t.a[1]) else mk('f', t, name)
        if o == 'setf':
            if t.a[1] == name: return t.a[2]
            return self.fld(t.a[0], i, name, s)
        if o == 'k':
            x = as_adt(t.a[1])
            if x and x[2] and i < len(x[2]): return K0(x[2][i])
            v = t.a[1]
            if isinstance(v, tuple) and v and v[0] == '#' and v[1][0] == 'tup' and i < len(v[1][1]): return K0(v[1][1][i])
        if o == 'phi':
            al = self.alts_.get(t)
            if al and all(x.op in ('agg', 'tup') for x, _, _ in al):
                r = {self.fld(x, i, name, s) for x, _, _ in al}
                if len(r) == 1: return r.pop()
            if al and t.a[0] != 'fld' and self.built(t):             # a struct changed on some of the paths: its field, per path
                me = mk('phi', 'fld', t, i, name)
                if (t, name) in self.vbusy: return me
                self.vbusy.add((t, name))
                try: r = {self.fld(x, i, name, s) for x, _, _ in al if x is not t} - {me}
                finally: self.vbusy.discard((t, name))
                return r.pop() if len(r) == 1 else me
        if o == 'cellcast': return self.fld(t.a[0], i, name, s)
        return mk('f', t, name)

    def built(self, t, seen=()):
        return any(x.op == 'setf' or x.op == 'phi' and x is not t and x not in seen and self.built(x, seen + (t,)) for x, _, _ in self.alts_.get(t) or ())

    def vfield(self, b, var, i, name, s=None):
        o = b.op
        if o == 'agg' and b.a[1] == var: return b.a[2][i] if i < len(b.a[2]) else mk('vf', b, var, name)
        if o == 'k':
            x = as_adt(b.a[1])
            if x and x[1] == var and x[2] and i < len(x[2]): return K0(x[2][i])
        if o == 'branch':
            x, kind = b.a
            if var == 'Continue': return self.payload(x, kind, s)
            return mk('residual', x)
        if o == 'poll' and var == 'Ready': return mk('await', b.a[0])
        if var in ('Some', 'Ok', 'Err'):
            if o == 'optmap': return b.a[1] if var != 'Err' else self.payload(b.a[0], 'Err', s)
            if o == 'maperr': return self.payload(b.a[0], 'Ok', s) if var == 'Ok' else b.a[1]
            if o == 'andthen':
                if var != 'Err': return self.payload(b.a[1], var, s)
            if o == 'okor': return self.payload(b.a[0], 'Some', s) if var == 'Ok' else b.a[1]
            if o == 'okopt': return self.payload(b.a[0], 'Ok', s)
            if o == 'then': return b.a[1]
            if o == 'optfilter': return self.payload(b.a[0], var, s)
            if o == 'next': return self.elem(b.a[0])
            if o == 'transpose': return mk('transposed', b.a[0])
            if o == 'transposed' and var == 'Some': return self.payload(self.payload(b.a[0], 'Some', s), 'Ok', s)
            if o == 'collect' and var in ('Ok', 'Some'): return mk('collect', mk('unwrapit', b.a[0], var))
        if o == 'phi' and (b, var, i) not in self.vbusy:
            self.vbusy.add((b, var, i))
            try:
                al = self.live_alts(b, ('in', frozenset([var])), s)
                if al is not None:
                    r = []
                    for x in al:
                        p = self.vfield(x, var, i, name, s)
                        if p not in r: r.append(p)
                    if len(r) == 1: return r[0]
            finally: self.vbusy.discard((b, var, i))
        return mk('vf', b, var, name)
    def payload(self, x, kind, s=None): return self.vfield(x, kind, 0, '0', s)

    def live_alts(self, ph, want, s, depth=0):
        """alternatives of a phi that can have a variant in `want`; None if phi unknown"""
        al = self.alts_.get(ph)
        if al is None or depth > 6: return None
        out = []
        for x, f, back in al:
            v = self.variants(x, f, depth + 1)
            if v is not None and not self.inter(v, want): continue
            if s is not None and not back and self.contradict(s.facts, f): continue
            out.append(x)
        return out
    @staticmethod
    def inter(v, want):
        return (v & want[1]) if want[0] == 'in' else (v - want[1])
    def contradict(self, fa, fb):
        if len(fa) > len(fb): fa, fb = fb, fa
        for k, v in fa.items():
            w = fb.get(k)
            if w is not None and w != v:
                c = and_vals(v, w)
                if c[0] == 'in' and not c[1]: return True
        return False

    # ------------------------------------------------------------ variants
    def variants(self, x, facts=None, depth=0):
        """set of possible enum variants (or bool values) of a term, None when unknown"""
        r = self.variants0(x, facts, depth)
        if facts is not None:
            f = facts.get(mk('D', x)) or facts.get(x)
            if f is not None:
                if r is not None: r = frozenset(self.inter(r, f))
                elif f[0] == 'in': r = f[1]
        return r
    def variants0(self, x, facts, depth):
        if depth > 12: return None
        o = x.op
        if o == 'agg': return frozenset([x.a[1]])
        if o == 'k':
            v = x.a[1]
            if isinstance(v, bool): return frozenset([v])
            a = as_adt(v)
            if a and a[1]: return frozenset([a[1]])
            return None
        up = lambda y: self.variants(y, facts, depth + 1)
        if o == 'branch':
            v = up(x.a[0])
            return None if v is None else frozenset('Continue' if y in ('Ok', 'Some') else 'Break' for y in v)
        if o == 'optmap' or o == 'maperr' : return up(x.a[0])
        if o == 'okor':
            v = up(x.a[0]); return None if v is None else frozenset('Ok' if y == 'Some' else 'Err' for y in v)
        if o == 'okopt':
            v = up(x.a[0]); return None if v is None else frozenset('Some' if y == 'Ok' else 'None' for y in v)
        if o == 'then':
            v = up(x.a[0]); return None if v is None else frozenset('Some' if y else 'None' for y in v)
        if o == 'andthen':
            a, b = up(x.a[0]), up(x.a[1])
            if a is not None and not (a & {'Some', 'Ok'}): return a
            if b is not None and a is not None and not (a - {'Some', 'Ok'}): return b
            return None
        if o == 'collect':
            v = self.variants(self.elem(x.a[0]), None, depth + 1)
            return v if v is not None and v in (frozenset(['Ok']), frozenset(['Some'])) else None
        if o == 'not':
            v = up(x.a[0]); return None if v is None else frozenset(not y for y in v)
        if o == 'phi':
            al = self.alts_.get(x)
            if al is None: return None
            r = frozenset()
            for y, f, back in al:
                v = self.variants(y, f if not back else None, depth + 1)
                if v is None: return None
                r |= v
            return r
        if o == 'orelse':
            a, b = self.variants(self.payload(x.a[0], x.a[2]), None, depth + 1), up(x.a[1])
            return a | b if a is not None and b is not None else None
        return None

    # ------------------------------------------------------------ assume
    def assume(self, s, t, vals, depth=0):
        """add the fact `t in vals` to state; False if infeasible"""
        o = t.op
        if depth > 20: return True
        if o == 'k':
            v = t.a[1]; n = num(v)
            if n is not None: v = n
            a = as_adt(v)
            if a: return True
            if v is None: return True
            return (v in vals[1]) if vals[0] == 'in' else (v not in vals[1])
        if o == 'not':
            if vals[0] == 'in': return self.assume(s, t.a[0], ('in', frozenset(not x for x in vals[1])), depth + 1)
            return True
        if o == 'discr':
            return self.assume_variant(s, t.a[0], vals, depth + 1)
        if o == 'isvar':                     # is_some(), is_ok()...
            if vals[0] == 'in' and len(vals[1]) == 1:
                want = next(iter(vals[1]))
                dom = {'Some': ('Some', 'None'), 'Ok': ('Ok', 'Err')}
                x, var = t.a
                allv = ('Some', 'None') if var in ('Some', 'None') else ('Ok', 'Err')
                sel = frozenset([var]) if want else frozenset(v for v in allv if v != var)
                return self.assume_variant(s, x, ('in', sel), depth + 1)
            return True
        if o == 'isv' and len(t.a) > 2 and t.a[1] in t.a[2] and vals[0] == 'in' and len(vals[1]) == 1:      # x == Enum::Variant
            return self.assume_variant(s, t.a[0], ('in', frozenset([t.a[1]]) if next(iter(vals[1])) else frozenset(v for v in t.a[2] if v != t.a[1])), depth + 1)
        if o == 'bin' and t.a[0] == 'BitAnd' and vals == ('in', frozenset([True])):
            if not self.assume(s, t.a[1], vals, depth + 1) or not self.assume(s, t.a[2], vals, depth + 1): return False
        if o == 'bin' and t.a[0] == 'BitOr' and vals == ('in', frozenset([False])):
            if not self.assume(s, t.a[1], vals, depth + 1) or not self.assume(s, t.a[2], vals, depth + 1): return False
        if o == 'phi':
            r = self.assume_phi(s, t, vals, depth, self.assume)
            if r is False: return False
        if o == 'orelse' and t.a[2] == 'Some' and vals[0] == 'in' and isinstance(kv(t.a[1]), bool):
            if kv(t.a[1]) not in vals[1]:
                if not self.assume_variant(s, t.a[0], ('in', frozenset(['Some'])), depth + 1): return False
                if not self.assume(s, self.payload(t.a[0], 'Some', s), vals, depth + 1): return False
        cur = s.facts.get(t)
        nv = vals if cur is None else and_vals(cur, vals)
        if nv[0] == 'in' and not nv[1]: return False
        s.facts[t] = nv
        return True

    def gate(self, fr, s, site, c, a, b):
        """the value of `if c { a } else { b }`"""
        al, js = [], []
        def go(c, f, j, d):
            if c.op == 'phi' and d < 6 and self.alts_.get(c) and not any(b for _, _, b in self.alts_[c]):
                for (x, g, _), k in zip(self.alts_[c], self.altj.get(c) or [None] * len(self.alts_[c])):
                    if not self.contradict(f, g): go(x, {**g, **{k: v if k not in g else and_vals(g[k], v) for k, v in f.items()}}, k, d + 1)
                return
            for v, x in ((True, a), (False, b)):
                s2 = State(s.env, dict(f), j)
                if self.assume(s2, c, ('in', frozenset([v]))): al.append((x, s2.facts, False)); js.append(j)
        go(c, s.facts, s.join, 0)
        if not al: return mk('then', c, a.a[2][0])
        if len({x for x, _, _ in al}) == 1: return al[0][0]
        ph = mk('phi', fr.ctx, 'gate', site)
        self.alts_[ph] = al; self.altj[ph] = js
        return ph

    def assume_phi(self, s, t, vals, depth, rec):
        al = self.alts_.get(t)
        if al is None: return True
        live = []
        for x, f, back in al:
            if back: live.append((x, None)); continue
            if self.contradict(s.facts, f): continue
            s2 = State(s.env, dict(f), s.join)
            if not rec(s2, x, vals, depth + 1): continue
            live.append((x, s2.facts))
        if not live: return False
        if all(f is not None for _, f in live):
            fs = meet_facts([f for _, f in live])
            for k, v in fs.items():
                cur = s.facts.get(k)
                nv = v if cur is None else and_vals(cur, v)
                if nv[0] == 'in' and not nv[1]: return False
                s.facts[k] = nv
        return True

    def assume_variant(self, s, x, vals, depth=0):
        o = x.op
        if depth > 20: return True
        if o in ('agg', 'k'):
            v = variant_name(x)
            if v is None:
                if o == 'k' and isinstance(x.a[1], bool): return True
                return True
            return (v in vals[1]) if vals[0] == 'in' else (v not in vals[1])
        if vals[0] == 'in':
            S = vals[1]
            def back(m): return ('in', frozenset(k for k, v in m.items() if v in S))
            r = True
            if o == 'branch':
                m = {'Ok': 'Continue', 'Err': 'Break'} if x.a[1] == 'Ok' else {'Some': 'Continue', 'None': 'Break'}
                r = self.assume_variant(s, x.a[0], back(m), depth + 1)
            elif o in ('optmap', 'maperr'): r = self.assume_variant(s, x.a[0], vals, depth + 1)
            elif o == 'okor': r = self.assume_variant(s, x.a[0], back({'Some': 'Ok', 'None': 'Err'}), depth + 1)
            elif o == 'okopt': r = self.assume_variant(s, x.a[0], back({'Ok': 'Some', 'Err': 'None'}), depth + 1)
            elif o == 'then': r = self.assume(s, x.a[0], ('in', frozenset(v for v, n in ((True, 'Some'), (False, 'None')) if n in S)), depth + 1)
            elif o == 'andthen' and not (S - {'Some', 'Ok'}):
                r = self.assume_variant(s, x.a[0], vals, depth + 1) and self.assume_variant(s, x.a[1], vals, depth + 1)
            elif o == 'collect':
                v = self.variants0(x, None, 0)
                r = v is None or bool(v & S)
            elif o == 'optfilter' and not (S - {'Some'}): r = self.assume_variant(s, x.a[0], vals, depth + 1) and self.assume(s, x.a[1], ('in', frozenset([True])), depth + 1)
            if not r: return False
        if o == 'phi':
            if self.assume_phi(s, x, vals, depth, self.assume_variant) is False: return False
        d = mk('D', x)
        cur = s.facts.get(d)
        nv = vals if cur is None else and_vals(cur, vals)
        if nv[0] == 'in' and not nv[1]: return False
        s.facts[d] = nv
        return True

    # ------------------------------------------------------------ values
    def operand(self, fr, s, o):
        if o[0] == 'k': return self.konst(fr, o[1])
        return self.read(fr, s, o[1])
    def ty(self, fr, t): return subst_ty(t, fr.tymap)
    def konst(self, fr, c):
        if 'fn' in c:
            f = c['fn']
            g = tuple(self.ty(fr, x) for x in f.get('g', ()))
            rg = tuple(self.ty(fr, x) for x in f.get('rg', ()))
            r = f.get('r')
            if f.get('tr') and not f.get('dyn') and (not r or fr.tymap):
                rr = self.resolve(f['p'], g)
                if rr and (not r or r == f['p'] or rr[0] != r and rr[0] in self.F.bodies and r not in self.F.bodies): r, rg = rr
            return mk('fn', f['p'], r, g, rg, f.get('via'), bool(f.get('dyn')))
        v = c.get('v'); d = c.get('r') or c.get('d')
        if v is None and c.get('d') and c.get('g'):
            g = tuple(self.ty(fr, x) for x in c['g'])
            rr = self.resolve(c['d'], g)
            if rr and rr[0] in self.F.consts:
                v = self.F.consts[rr[0]]['v']; d = rr[0]
            elif rr and rr[0] in self.F.bodies:
                cv = self.const_body(rr[0], g)
                if cv is not None: return cv
        if v is None and d in self.F.consts: v = self.F.consts[d]['v']
        return mk('k', self.ty(fr, c['t']), hv(v), d if (v is None or not isinstance(v, (bool, int))) else d)
    def const_body(self, path, g):
        if path in self.stack: return None
        b = self.F.bodies[path]
        fr = Frame(b, self.ctx('const', 0, path + str(g)), {}, 0, None)
        ev = self.events; self.events = {}
        r, _ = self.body(fr, State({}, {}))
        self.events = ev
        return r if r is not None and r.op == 'k' else None

    def resolve(self, p, g):
        """trait item path + generic args -> (impl item path, generic args of the impl item)"""
        i = p.rfind('::')
        tr, m = p[:i], p[i+2:]
        if not g: return None
        key = tr if len(g) == 1 else None
        selfty = g[0]
        tabs = []
        if len(g) > 1: tabs.append(self.F.timpl.get('%s<%s>' % (tr, ', '.join(g[1:]))))
        if len(g) == 1 or self.F.ntimpl[(tr, selfty)] < 2: tabs.append(self.F.timpl.get(tr))        # one of several instances of a generic trait: not known which
        for tab in tabs:
            if not tab: continue
            it = tab.get(selfty)
            if it and m in it: return it[m], ()
        # inherit default method
        if p in self.F.bodies:
            tab = self.F.timpl.get(tr) or {}
            if selfty in tab: return p, g
        return None

    def rvalue(self, fr, s, r, site, line):
        k = r[0]
        if k == 'use': return self.operand(fr, s, r[1])
        if k == 'ref':
            if r[1] == 'm':
                key, pr = self.loc(fr, s, r[2])
                return mk('mref', key, tuple(pr))
            return self.read(fr, s, r[2])
        if k == 'rawref' or k == 'raw':
            return self.read(fr, s, r[-1])
        if k == 'rep': return mk('rep', self.operand(fr, s, r[1]), str(r[2]))
        if k == 'bin':
            return self.binop(r[1], self.val(s, self.operand(fr, s, r[2])), self.val(s, self.operand(fr, s, r[3])))
        if k == 'un':
            x = self.val(s, self.operand(fr, s, r[2]))
            if r[1] == 'Not': return self.neg(x)
            n = num(kv(x)) if isk(x) else None
            if r[1] == 'Neg' and n is not None: return K(-n, x.a[0])
            if r[1] == 'PtrMetadata': return mk('len', x)
            return mk('un', r[1], x)
        if k == 'cast':
            x = self.operand(fr, s, r[2]); src, dst = self.ty(fr, r[3]), self.ty(fr, r[4])
            if r[1] in ('PointerCoercion', 'PtrToPtr', 'Transmute', 'FnPtrToPtr', 'Subtype'): return x
            x = self.val(s, x)
            n = num(kv(x)) if isk(x) else None
            if n is not None and dst in INTS and isinstance(n, int):
                lo, hi = INTS[dst]
                if lo <= int(n) <= hi: return K(int(n), dst)
            if src == dst: return x
            if x.op == 'discr':
                v = self.variants(x.a[0], s.facts)
                if v and len(v) == 1:
                    a = self.F.adts.get(x.a[1]) if x.a[1] else None
                    for vv in (a['v'] if a else ()):
                        if vv[0] in v and vv[1] is not None: return K(int(vv[1]), dst)
            return mk('cast', r[1], x, src, dst)
        if k == 'discr':
            x = self.val(s, self.read(fr, s, r[1])); ty = self.ty(fr, r[2])
            return mk('discr', x, base_ty(ty) if base_ty(ty) in self.F.adts else None)
        if k == 'agg':
            kind = r[1]
            ops = tuple(self.operand(fr, s, o) for o in r[3])
            if kind == 'tuple': return mk('tup', ops)
            if kind == 'array': return mk('arr', ops)
            if kind == 'adt':
                t = mk('agg', r[2], r[4], ops)
                self.aggs[site] = (t, fr.path, line, s.facts, tuple(self.ty(fr, x) for x in r[5]), tuple(self.val(s, o) for o in ops))
                return t
            if kind == 'closure': return mk('clo', r[2], ops, tuple(sorted(fr.tymap.items())))
            return mk('aggp', ops)
        if k == 'static': return mk('static', r[1])
        return mk('other', k, str(r[1:])[:80], site[0], site[1], site[2])

    def val(self, s, t):
        return self.load(s, t) if t.op == 'mref' else t

    def neg(self, x):
        if isk(x) and isinstance(kv(x), bool): return K(not kv(x), 'bool')
        if x.op == 'not': return x.a[0]
        return mk('not', x)

    def binop(self, op, a, b):
        if op.endswith('WithOverflow'):
            return mk('tup', (self.binop(op[:-12], a, b), FALSE))
        if op.endswith('Unchecked'): op = op[:-9]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return self.cmp(op, a, b)
        x, y = (num(kv(a)) if isk(a) else None), (num(kv(b)) if isk(b) else None)
        if x is not None and y is not None and not isinstance(x, bool) and not isinstance(y, bool):
            r = None
            if op == 'Add': r = x + y
            elif op == 'Sub': r = x - y
            elif op == 'Mul': r = x * y
            elif op == 'Div' and y: r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif op == 'Rem' and y: r = x - y * (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
            elif op == 'Shl' and 0 <= y < 128: r = x << y
            elif op == 'Shr' and 0 <= y < 128: r = x >> y
            elif op == 'BitAnd': r = x & y
            elif op == 'BitOr': r = x | y
            elif op == 'BitXor': r = x ^ y
            if r is not None:
                ty = a.a[0]
                if ty not in INTS or INTS[ty][0] <= r <= INTS[ty][1]:
                    return K(r if abs(r) < 10**15 else {'big': str(r)}, ty)
        if op in ('Add', 'Sub') and y == 0 and not isinstance(y, bool): return a
        if op == 'Add' and x == 0 and not isinstance(x, bool): return b
        if op == 'Mul' and y == 1 and not isinstance(y, bool): return a
        if op == 'BitAnd' and (x is True): return b
        if op == 'BitAnd' and (y is True): return a
        if op in ('BitAnd', 'BitOr', 'Add', 'Mul', 'BitXor') and a.id > b.id: a, b = b, a
        return mk('bin', op, a, b)

    def cmp(self, op, a, b):
        if op == 'Ne': return self.neg(self.cmp('Eq', a, b))
        if op == 'Gt': return self.cmp('Lt', b, a)
        if op == 'Ge': return self.cmp('Le', b, a)
        if isk(a) and isk(b):
            x, y = num(kv(a)), num(kv(b))
            if x is not None and y is not None:
                return K({'Eq': x == y, 'Lt': x < y, 'Le': x <= y}[op], 'bool')
            if op == 'Eq' and a.a[1] is not None and b.a[1] is not None:
                u, v = norm_ref(a.a[1]), norm_ref(b.a[1])
                return K(u == v, 'bool')
        if op == 'Eq':
            va, vb = variant_name(a), variant_name(b)
            if va is not None and vb is not None:
                if va != vb: return FALSE
                fa, fb = agg_fields(a), agg_fields(b)
                if not fa and not fb: return TRUE
                if len(fa) == len(fb):
                    rs = [self.cmp('Eq', x, y) for x, y in zip(fa, fb)]
                    if any(r is FALSE for r in rs): return FALSE
                    if all(r is TRUE for r in rs): return TRUE
            if a is b and a.op != 'phi': return TRUE
            if isk(a) and isinstance(kv(a), bool): return b if kv(a) else self.neg(b)
            if isk(b) and isinstance(kv(b), bool): return a if kv(b) else self.neg(a)
            # x == Enum::UnitVariant is a variant test
            for x, y in ((a, b), (b, a)):
                v = variant_name(y)
                if v is not None and not agg_fields(y) and variant_name(x) is None:
                    return mk('isv', x, v, tuple(self.F.variants(y.a[0] if y.op == 'agg' else as_adt(y.a[1])[0]) or ()))
            if a.id > b.id: a, b = b, a
        return mk('cmp', op, a, b)

    def index(self, t, i):
        if t.op == 'arr' and isk(i) and isinstance(kv(i), int) and kv(i) < len(t.a[0]): return t.a[0][kv(i)]
        return mk('index', t, i)

    # ------------------------------------------------------------ iterators
    def elem(self, it, d=0):
        o = it.op
        if d > 30: return mk('elem', it)
        if o == 'map': return it.a[1]
        if o == 'enumerate': return mk('tup', (mk('pos', it.a[0]), self.elem(it.a[0], d + 1)))
        if o == 'zip': return mk('tup', (self.elem(it.a[0], d + 1), self.elem(it.a[1], d + 1)))
        if o == 'filtered': return self.elem(it.a[0], d + 1)
        if o == 'collect': return self.elem(it.a[0], d + 1)
        if o == 'unwrapit': return self.payload(self.elem(it.a[0], d + 1), it.a[1])
        if o == 'fmap': return self.payload(it.a[1], 'Some')
        if o == 'rev': return self.elem(it.a[0], d + 1)
        if o == 'skip' and kv(it.a[1]) != 0: return mk('nth', self.elem(it.a[0], d + 1), it.a[1])        # the element that many places further on
        x = it.a if o == 'index' else it.a[2] if o == 'call' and len(it.a[2]) == 2 and re.search(r'\bindex$', it.a[0]) else None
        if x and x[1].op == 'agg' and x[1].a[0] == 'core::ops::range::RangeFrom' and isinstance(kv(x[1].a[2][0]), int):
            k = x[1].a[2][0]; y = self.elem(x[0], d + 1)          # the elements of xs[k..] are those of xs.iter().skip(k)
            return mk('nth', y, k) if kv(k) else y
        if o == 'skip' or o == 'takeN': return self.elem(it.a[0], d + 1)
        if o == 'arr':
            return it.a[0][0] if len(set(it.a[0])) == 1 else mk('elem', it)
        return mk('elem', it)

    # ------------------------------------------------------------ calls
    def callterm(self, fr, u, s, term):
        _, fo, ao, dest, tgt, line = term
        f = self.operand(fr, s, fo)
        args = tuple(self.operand(fr, s, a) for a in ao)
        site = (fr.ctx, u)
        ret, s2 = self.call(fr, s, f, args, site, line, tgt is None)
        if tgt is None or ret is None: return []
        self.store(fr, s2, dest, ret)
        return [(tgt, 0, s2)]

    def record(self, fr, s, p, r, g, args, site, line, kind='call', via=None):
        e = Event(); e.p, e.r, e.g, e.args = p, r, g, args
        e.vals = tuple(self.val(s, a) for a in args); e.facts = s.facts.copy(); e.join = s.join; e.fn = fr.path; e.line = line
        e.site = site; e.ret = None; e.kind = kind; e.via = via; e.blk = site[1] if len(site) > 1 else None
        e.stack = tuple(self.stack)
        k = (site, p)
        if k not in self.events: self.order.append(k)
        self.events[k] = e
        return e

    def call(self, fr, s, f, args, site, line, noret=False):
        """returns (term, state) or (None, None) when the call cannot return"""
        if f.op == 'mref': f = self.load(s, f)
        if f.op == 'clo':
            return self.closure(fr, s, f, args[0].a[0] if len(args) == 1 and args[0].op == 'tup' else args, site, line)
        if f.op != 'fn':
            vals = tuple(self.val(s, a) for a in args)
            e = self.record(fr, s, 'indirect', None, (), args, site, line)
            e.ret = mk('icall', f, vals, site)
            return (None, None) if noret else (e.ret, s)
        p, r, g, rg, via, dyn = f.a
        e = self.record(fr, s, p, r, g, args, site, line, via=via)
        if noret: return None, None
        ret, s2 = self.call2(fr, s, f, args, site, line, e)
        e.ret = ret
        return ret, s2

    def call2(self, fr, s, f, args, site, line, e):
        p, r, g, rg, via, dyn = f.a
        V = lambda i: self.val(s, args[i])
        # --- user-chosen models and ctor functions
        if p.endswith('{ctor}'):
            base = p[:-len('::{ctor}')]
            vals = args
            if base in self.F.adts: return agg(base, base.rsplit('::', 1)[1], vals), s
            a, v = base.rsplit('::', 1)
            return agg(a, v, vals), s
        if self.hook is not None:
            t = self.hook(self, fr, s, p, via or r, g, args, V)
            if t is not None: return t, s
        m = self.model(fr, s, f, args, site, line, V, e)
        if m is not None: return m
        # --- conversions
        if p in ('core::convert::Into::into', 'core::convert::From::from', 'core::convert::TryInto::try_into', 'core::convert::TryFrom::try_from'):
            tgtp = via or r
            if tgtp and tgtp in self.F.bodies and self.may_inline(tgtp, fr):
                return self.inline(fr, s, tgtp, args, site, (), line)
            src, dst = (g[0], g[1]) if p.endswith('nto::into') or p.endswith('try_into') else (g[1] if len(g) > 1 else '', g[0])
            if tgtp is None:
                # generic conversion whose types became concrete in this calling context
                q = '<%s as core::convert::%s<%s>>::%s' % (dst, *(('TryFrom', src, 'try_from') if 'Try' in p else ('From', src, 'from')))
                if q in self.F.bodies and self.may_inline(q, fr): return self.inline(fr, s, q, args, site, (), line)
            if p.endswith('into') and 'Try' not in p or p.endswith('From::from'):
                if tgtp is None or not self.is_ws(tgtp): 
                    if base_ty(src) == base_ty(dst) or not (src in PRIM_SIZE and dst in PRIM_SIZE): return mk('conv', V(0), src, dst) if self.keepconv(src, dst) else args[0], s
                    x = V(0)
                    return (K(kv(x), dst) if isk(x) else mk('cast', 'Into', x, src, dst)), s
            name = tgtp or p
            return self.opaque_call(fr, s, name, g, args, site, e)
        # --- inline workspace bodies
        for q, qg in ((r, rg), (p, g)):
            if q and q in self.F.bodies and not dyn and self.may_inline(q, fr):
                return self.inline(fr, s, q, args, site, qg if q == r and rg else g, line)
        return self.opaque_call(fr, s, r if r and r in self.F.bodies else (r or p), g, args, site, e)

    def keepconv(self, src, dst):
        return False
    def is_ws(self, path): return path in self.F.bodies

    def may_inline(self, q, fr):
        if q in self.stack: return False
        b = self.F.bodies[q]
        if q in self.force: return True
        if fr.depth >= self.maxdepth or len(b['b']) > self.maxblocks:
            self.truncated.append(q); return False
        if self.inline_fn is not None:
            d = self.inline_fn(q)
            if d is not None: return d
        for o in self.opaque:
            if o in q if not hasattr(o, 'search') else o.search(q): return False
        return True

    def inline(self, fr, s, q, args, site, g, line):
        b = self.F.bodies[q]
        tymap = {}
        gp = b.get('gp')
        if gp and g and len(gp) == len(g): tymap = {k: v for k, v in zip(gp, g) if k != v}
        elif gp and b.get('self'):
            tymap = {}
        nf = Frame(b, self.ctx(site[0], site[1:], q), tymap, fr.depth + 1, fr)
        s2 = s.copy()
        for i in range(1, b['args'] + 1):
            if i - 1 < len(args): s2.env[(nf.ctx, i)] = args[i-1]
        self.visited.add(q)
        ret, out = self.body(nf, s2)
        if out is None: return None, None
        if b.get('k') in ('Fn', 'AssocFn') and ret is not None: pass
        return ret, out

    def closure(self, fr, s, c, args, site, line, opt=False, again=False):
        q = c.a[0]
        b = self.F.bodies.get(q)
        if b is None or q in self.stack or fr.depth > self.maxdepth + 4:
            return mk('icall', c, tuple(self.val(s, a) for a in args), site), s
        tm = dict(c.a[2]) if len(c.a) > 2 else {}
        nf = Frame(b, self.ctx(site[0], site[1:], q), tm, fr.depth + 1, fr)
        s2 = s.copy()
        s2.env[(nf.ctx, 1)] = c
        if b['args'] >= 1 and len(b['locals']) > 1 and b['locals'][1][0].startswith('&mut '):
            # FnMut: captured state lives in the closure value; mrefs inside still point at the caller
            s2.env[(nf.ctx, 1)] = c
        for i, a in enumerate(args): s2.env[(nf.ctx, i + 2)] = a
        self.visited.add(q)
        ret, out = self.body(nf, s2)
        if out is None: return None, None
        if again:
            # runs once per element: what it changes is, at its start, what an earlier run left
            ch = [k for k, v in s.env.items() if out.env.get(k, v) is not v]
            if ch:
                s3 = s.copy(); s3.env.update(s2.env)
                for k in ch:
                    ph = mk('phi', nf.ctx, 'clo', k); s3.env[k] = ph
                    self.alts_[ph] = [(s.env[k], s.facts, False), (out.env[k], out.facts, True)]
                r3, o3 = self.body(nf, s3)
                if o3 is not None:
                    for k in ch: self.alts_[s3.env[k]] = [(s.env[k], s.facts, False), (o3.env[k], o3.facts, True)]
                    o2 = State({k: s3.env[k] if k in ch else v for k, v in s.env.items()}, dict(s.facts), s.join)
                    return r3, o2
        if opt:
            # may run zero or more times
            o2 = State({}, dict(s.facts), s.join)
            for k, v in s.env.items():
                w = out.env.get(k, v)
                if w is v: o2.env[k] = v
                else:
                    ph = mk('phi', nf.ctx, 'clo', k)
                    self.alts_[ph] = [(v, s.facts, False), (w, out.facts, True)]
                    o2.env[k] = ph
            return ret, o2
        return ret, out

    def apply_fn(self, fr, s, f, args, site, line, facts_on=None, opt=True, again=False):
        """apply a function value (closure / fn item / ctor) to args, optionally under an extra fact"""
        f = self.val(s, f)
        s1 = s
        if facts_on is not None:
            s1 = s.copy()
            if not self.assume_variant(s1, facts_on[0], ('in', frozenset([facts_on[1]]))): return None, s
        if f.op == 'clo':
            r, o = self.closure(fr, s1, f, args, site, line, opt=True, again=again)
        elif f.op == 'fn':
            r, o = self.call(fr, s1.copy(), f, args, site, line)
        else:
            return mk('icall', f, tuple(self.val(s, a) for a in args), site), s
        if o is None: return None, s
        return r, State(o.env, s.facts, s.join)

    def opaque_call(self, fr, s, name, g, args, site, e):
        mut = False
        vals = []
        for a in args:
            if a.op == 'mref': mut = True; vals.append(self.load(s, a))
            elif a.op == 'clo':
                vals.append(a)
                if any(x.op == 'mref' for x in a.a[1]): mut = True
            else: vals.append(a)
        vals = tuple(vals)
        s2 = s
        for i, a in enumerate(args):
            if a.op == 'clo' and self.closures and a.a[0] in self.F.bodies:
                b = self.F.bodies[a.a[0]]
                if 'oroutine' in str(b.get('cor', '')): continue
                n = b['args'] - 1
                r, o = self.closure(fr, s2, a, tuple(mk('cbarg', e.name, vals[:i] + vals[i+1:], j) for j in range(n)), site + (i,), e.line, opt=True)
                if o is not None and r is not None and r.op == 'clo' and (self.F.bodies.get(r.a[0]) or {}).get('cor'):      # an async closure: what its future resolves to
                    r2, o2 = self.closure(fr, o, r, (mk('resume'),), site + (i, 'await'), e.line, opt=True)
                    if o2 is not None and r2 is not None: r, o = r2, o2
                if o is not None: s2 = State(o.env, s.facts, s.join)
                if r is not None: self.clores[a] = r
        if mut:
            s2 = s2.copy()
            for i, a in enumerate(args):
                if a.op == 'mref':
                    old = self.load(s2, a)
                    others = tuple(v for j, v in enumerate(vals) if j != i)
                    self.put(s2, a.a[0], list(a.a[1]), self.upd(name, g, old, others, site))
            return mk('call', name, g, vals, site), s2
        return mk('call', name, g, vals, None), s2

    def upd(self, name, g, old, others, site):
        # repeated update at the same site inside a loop: keep the term bounded
        n = 0; t = old
        while t.op == 'upd' and n < 40:
            if t.a[4] == site: return t if n == 0 and t.a[3] == others else mk('upd', name, g, t.a[2], others, site)
            t = t.a[2]; n += 1
        if n >= 40: return mk('upd', name, g, t, others, site)
        return mk('upd', name, g, old, others, site)

    def model(self, fr, s, f, args, site, line, V, e):
        p, r, g, rg, via, dyn = f.a
        if p in TRANSPARENT:
            # user impls of Deref/AsRef/ToOwned in the workspace are inlined instead
            q = r if r and r in self.F.bodies else None
            if q and p not in ('core::clone::Clone::clone',) and self.may_inline(q, fr): return None
            if p == 'core::clone::Clone::clone' or args[0].op != 'mref': return V(0), s
            if p.startswith('<core::pin') or 'as_mut' in p or 'borrow_mut' in p or 'into_iter' in p or 'by_ref' in p or '::boxed' in p or 'IntoFuture' in p: return args[0], s
            return V(0), s
        if p in UNWRAP:
            k = UNWRAP[p]; x = V(0); s2 = s.copy()
            if not self.assume_variant(s2, x, ('in', frozenset([k]))): return None, None
            return self.payload(x, k, s2), s2
        n = p.rsplit('::', 1)[-1]
        if p == 'core::ops::deref::DerefMut::deref_mut': return args[0], s
        if p in ('core::ops::try_trait::Try::branch',):
            kind = 'Some' if g and base_ty(g[0]) == 'core::option::Option' else 'Ok'
            x = V(0)
            if g and base_ty(g[0]) == 'core::task::poll::Poll': return None
            return mk('branch', x, kind), s
        if p == 'core::ops::try_trait::FromResidual::from_residual':
            if g and base_ty(g[0]) == 'core::option::Option': return NONE, s
            if g and base_ty(g[0]) == 'core::result::Result':
                x = V(0)
                ee = self.payload(x.a[0], 'Err', s) if x.op == 'residual' else mk('errof', x)
                return Err(ee), s
            return None
        if p == 'core::ops::try_trait::Try::from_output': return (Some if base_ty(g[0]).endswith('Option') else Ok)(V(0)), s
        if p in CMPS:
            q = r if r and r in self.F.bodies else None
            return self.cmp(CMPS[p], V(0), V(1)), s
        if p in BINNAME:
            if r and r in self.F.bodies: return None
            return self.binop(BINNAME[p], V(0), V(1)), s
        if p in ASSIGN and args[0].op == 'mref':
            s2 = s.copy()
            self.put(s2, args[0].a[0], list(args[0].a[1]), self.binop(ASSIGN[p], V(0), V(1)))
            return UNIT, s2
        if p == 'core::ops::bit::Not::not':
            if r and r in self.F.bodies: return None
            return self.neg(V(0)), s
        if p.startswith('<core::option::Option') or p.startswith('<core::result::Result'):
            m = self.option_model(fr, s, p, n, g, args, site, line, V)
            if m is not None: return m
        if p in ('<bool>::then', '<bool>::then_some'):
            c = V(0)
            if n == 'then':
                s1 = s.copy()
                if not self.assume(s1, c, ('in', frozenset([True]))): return NONE, s
                x, o = self.apply_fn(fr, s1, args[1], (), site, line)
                if x is None: x = mk('never'); o = s
                return self.gate(fr, s, site, c, Some(x), NONE), State(o.env, s.facts, s.join)
            return self.gate(fr, s, site, c, Some(V(1)), NONE), s
        if p.startswith('core::iter::traits::') or p.startswith('itertools::Itertools') or p.startswith('futures_util::stream::stream::StreamExt') or p.startswith('futures_util::stream::try_stream'):
            m = self.iter_model(fr, s, p, n, g, args, site, line, V)
            if m is not None: return m
        if p == 'core::future::future::Future::poll':
            x = V(0)
            if x.op == 'clo' and x.a[0] in self.F.bodies:
                b = self.F.bodies[x.a[0]]
                if x.a[0] not in self.stack and fr.depth <= self.maxdepth + 4:
                    ret, o = self.closure(fr, s, x, (mk('resume'),), site, line)
                    if o is None: return None, None
                    return agg('core::task::poll::Poll', 'Ready', (ret,)), o
            return mk('poll', x), s
        if p in ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call'):
            ff = V(0)
            if ff.op in ('clo', 'fn'):
                a = V(1)
                aa = a.a[0] if a.op == 'tup' else (a,)
                return self.apply_seq(fr, s, ff, aa, site, line)
            return mk('icall', ff, V(1).a[0] if V(1).op == 'tup' else (V(1),), site), s
        if p == 'core::mem::size_of' and g and g[0] in PRIM_SIZE: return K(PRIM_SIZE[g[0]], 'usize'), s
        if p in ('core::mem::swap', 'core::mem::replace', 'core::mem::take'):
            if args[0].op == 'mref':
                old = V(0); s2 = s.copy()
                if n == 'replace': self.put(s2, args[0].a[0], list(args[0].a[1]), args[1]); return old, s2
                if n == 'take': self.put(s2, args[0].a[0], list(args[0].a[1]), mk('default', g[0] if g else '')); return old, s2
                o2 = V(1)
                self.put(s2, args[0].a[0], list(args[0].a[1]), o2)
                if args[1].op == 'mref': self.put(s2, args[1].a[0], list(args[1].a[1]), old)
                return UNIT, s2
        if p == 'core::mem::drop': return UNIT, s
        if p in ('core::ops::index::Index::index',):
            if r and r in self.F.bodies: return None
            return self.index(V(0), V(1)), s
        if p == 'core::ops::index::IndexMut::index_mut' and args[0].op == 'mref':
            if r and r in self.F.bodies: return None
            return mk('mref', args[0].a[0], args[0].a[1] + (('i', V(1)),)), s
        if p == '<[T]>::get' and len(g) > 1 and g[1] == 'usize':        # a checked index: there is an element where the index is below the length
            t = V(0)
            return mk('optfilter', agg('core::option::Option', 'Some', (self.index(t, V(1)),)), self.cmp('Lt', V(1), mk('len', t))), s
        if getattr(self, 'nullcanon', False) and p == '<vortex_dtype::dtype::DType>::is_nullable' and V(0).op != 'agg' and not self.may_inline('<vortex_dtype::dtype::DType>::nullability', fr):
            return mk('isv', mk('call', '<vortex_dtype::dtype::DType>::nullability', (), (V(0),), None), 'Nullable', ('NonNullable', 'Nullable')), s
        if n == 'len' and p in ('<[T]>::len', '<alloc::vec::Vec<T, A>>::len', '<str>::len', '<alloc::string::String>::len', 'core::iter::traits::exact_size::ExactSizeIterator::len'): return mk('len', V(0)), s
        if n == 'is_empty' and p in ('<[T]>::is_empty', '<alloc::vec::Vec<T, A>>::is_empty', '<str>::is_empty', '<alloc::string::String>::is_empty'): return self.cmp('Eq', mk('len', V(0)), K(0, 'usize')), s
        if p in ('num_traits::cast::AsPrimitive::as_',):
            x = V(0)
            return mk('cast', 'as_', x, g[0] if g else '', g[1] if len(g) > 1 else ''), s
        if p == '<vortex::Array>::with_dyn':
            ff = V(1)
            x, o = self.apply_seq(fr, s, ff, (V(0),), site, line)
            return x, o
        if p in ('core::default::Default::default',):
            if r and r in self.F.bodies: return None
            t = g[0] if g else ''
            if t in INTS: return K(0, t), s
            if t == 'bool': return FALSE, s
            return mk('default', t), s
        if p in ('vortex_error::VortexExpect::vortex_expect',) or p.endswith('::vortex_expect'):
            k = 'Some' if g and base_ty(g[0]).endswith('Option') or (r or '').startswith('<core::option') else 'Ok'
            x = V(0); s2 = s.copy()
            if not self.assume_variant(s2, x, ('in', frozenset([k]))): return None, None
            return self.payload(x, k, s2), s2
        if p.endswith('::vortex_unwrap'):
            x = V(0); s2 = s.copy()
            if not self.assume_variant(s2, x, ('in', frozenset(['Ok']))): return None, None
            return self.payload(x, 'Ok', s2), s2
        if p.endswith('VortexError>::with_context'): return V(0), s
        if p in ('core::cmp::Ord::min', 'core::cmp::min'): return mk('min', *sorted((V(0), V(1)), key=lambda t: t.id)), s
        if p in ('core::cmp::Ord::max', 'core::cmp::max'): return mk('max', *sorted((V(0), V(1)), key=lambda t: t.id)), s
        if p == '<core::ops::range::RangeInclusive<Idx>>::contains' or p == '<core::ops::range::Range<Idx>>::contains': return None
        return None

    def apply_seq(self, fr, s, f, args, site, line):
        f = self.val(s, f)
        if f.op == 'clo': return self.closure(fr, s, f, args, site, line)
        if f.op == 'fn': return self.call(fr, s, f, args, site + ('ap',), line)
        return mk('icall', f, args, site), s

    def option_model(self, fr, s, p, n, g, args, site, line, V):
        opt = p.startswith('<core::option')
        good, bad = ('Some', 'None') if opt else ('Ok', 'Err')
        x = V(0)
        vs = self.variants(x, s.facts)
        if n in ('is_some', 'is_none', 'is_ok', 'is_err'):
            want = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[n]
            if vs is not None and len(vs) == 1: return K(want in vs, 'bool'), s
            if vs is not None and want not in vs: return FALSE, s
            return mk('isvar', x, want), s
        if n in ('map', 'map_err', 'and_then', 'inspect'):
            sel = bad if n == 'map_err' else good
            y = self.payload(x, sel, s)
            if vs is not None and sel not in vs: return x, s
            rr, o = self.apply_fn(fr, s, args[1], (y,), site, line, (x, sel))
            if rr is None: rr = mk('never')
            only = vs is not None and len(vs) == 1
            if n == 'map':
                if only: return agg('core::option::Option' if opt else 'core::result::Result', good, (rr,)), o
                return mk('optmap', x, rr), o
            if n == 'map_err':
                if only: return Err(rr), o
                return mk('maperr', x, rr), o
            if n == 'and_then':
                if only: return rr, o
                return mk('andthen', x, rr), o
            return x, o
        if n in ('ok_or', 'ok_or_else'):
            if vs is not None and vs == {'Some'}: return Ok(self.payload(x, 'Some', s)), s
            if n == 'ok_or': return mk('okor', x, V(1)), s
            rr, o = self.apply_fn(fr, s, args[1], (), site, line, (x, 'None'))
            return mk('okor', x, rr if rr is not None else mk('never')), o
        if n == 'ok': return mk('okopt', x), s
        if n in ('unwrap_or', 'unwrap_or_else', 'unwrap_or_default'):
            if vs is not None and vs == {good}: return self.payload(x, good, s), s
            if n == 'unwrap_or': d = V(1); o = s
            elif n == 'unwrap_or_default':
                t = g[0] if g else ''
                d = K(0, t) if t in INTS else FALSE if t == 'bool' else mk('default', t); o = s
            else:
                a = () if opt else (self.payload(x, 'Err', s),)
                d, o = self.apply_fn(fr, s, args[1], a, site, line, (x, bad))
                if d is None:                 # diverges: unwrap
                    s2 = s.copy()
                    if not self.assume_variant(s2, x, ('in', frozenset([good]))): return None, None
                    return self.payload(x, good, s2), s2
            if vs is not None and good not in vs: return d, o
            return mk('orelse', x, d, good), o
        if n in ('map_or', 'map_or_else'):
            y = self.payload(x, good, s)
            rr, o = self.apply_fn(fr, s, args[2], (y,), site, line, (x, good))
            if rr is None: rr = mk('never')
            m = mk('optmap', x, rr)
            if n == 'map_or': d = V(1)
            else:
                d, o = self.apply_fn(fr, o, args[1], () if opt else (self.payload(x, bad, s),), site + ('e',), line, (x, bad))
                if d is None: d = mk('never')
            if vs is not None and vs == {good}: return rr, o
            if vs is not None and good not in vs: return d, o
            return mk('orelse', m, d, good), o
        if n in ('is_some_and', 'is_ok_and'):
            rr, o = self.apply_fn(fr, s, args[1], (self.payload(x, good, s),), site, line, (x, good))
            if vs is not None and vs == {good} and rr is not None: return rr, o
            if vs is not None and good not in vs: return FALSE, o
            return mk('orelse', mk('optmap', x, rr if rr is not None else mk('never')), FALSE, good), o
        if n == 'is_none_or':
            rr, o = self.apply_fn(fr, s, args[1], (self.payload(x, good, s),), site, line, (x, good))
            if vs is not None and vs == {good} and rr is not None: return rr, o
            if vs is not None and good not in vs: return TRUE, o
            return mk('orelse', mk('optmap', x, rr if rr is not None else mk('never')), TRUE, good), o
        if n == 'filter':
            rr, o = self.apply_fn(fr, s, args[1], (self.payload(x, good, s),), site, line, (x, good))
            return mk('optfilter', x, rr if rr is not None else mk('never')), o
        if n == 'transpose': return mk('transpose', x), s
        if n in ('or', 'or_else'):
            if n == 'or': return mk('or_', x, V(1)), s
            d, o = self.apply_fn(fr, s, args[1], (), site, line, (x, bad))
            return mk('or_', x, d if d is not None else mk('never')), o
        if n == 'flatten': return mk('andthen', x, self.payload(x, good, s)), s
        if n == 'take' and args[0].op == 'mref':
            s2 = s.copy(); self.put(s2, args[0].a[0], list(args[0].a[1]), NONE)
            return x, s2
        if n == 'unzip': return mk('tup', (mk('optmap', x, self.fld(self.payload(x, good, s), 0, '0')), mk('optmap', x, self.fld(self.payload(x, good, s), 1, '1')))), s
        if n == 'zip': return mk('optmap', mk('both', x, V(1)), mk('tup', (self.payload(x, 'Some', s), self.payload(V(1), 'Some', s)))), s
        return None

    def iter_model(self, fr, s, p, n, g, args, site, line, V):
        if n == 'next' and p.endswith('Iterator::next'):
            x = mk('next', V(0))
            if mk('D', x) in s.facts: s = s.copy(); del s.facts[mk('D', x)]     # asked again: another outcome
            return x, s
        if n in ('map', 'map_ok', 'for_each', 'filter_map', 'flat_map', 'try_for_each', 'inspect', 'flat_map_', 'then', 'and_then_'):
            it = V(0)
            el = self.elem(it)
            if n == 'map_ok': el = self.payload(el, 'Ok', s)
            rr, o = self.apply_fn(fr, s, args[1], (el,), site, line, again=n not in ('then', 'and_then_'))
            if rr is None: rr = mk('never')
            if n == 'map' or n == 'then': return mk('map', it, rr), o
            if n == 'map_ok': return mk('map', it, mk('optmap', self.elem(it), rr)), o
            if n == 'filter_map': return mk('fmap', it, rr), o
            if n == 'flat_map': return mk('flat', it, rr), o
            if n == 'inspect': return it, o
            if n == 'try_for_each': return mk('call', p, g, (it, rr), site), o
            return UNIT, o
        if n in ('filter', 'take_while', 'skip_while', 'all', 'any', 'position', 'find', 'partition', 'filter_ok', 'max_by_key', 'min_by_key', 'is_sorted_by'):
            it = V(0)
            rr, o = self.apply_fn(fr, s, args[1], (self.elem(it),), site, line, again=True)
            if rr is None: rr = mk('never')
            if n in ('filter', 'take_while', 'skip_while'): return mk('filtered', it, rr), o
            return mk('i' + n, it, rr), o
        if n == 'enumerate': return mk('enumerate', V(0)), s
        if n == 'zip' or n == 'zip_eq': return mk('zip', V(0), V(1)), s
        if n == 'rev': return mk('rev', V(0)), s
        if n == 'skip': return mk('skip', V(0), V(1)), s
        if n == 'take': return mk('takeN', V(0), V(1)), s
        if n in ('collect', 'try_collect', 'collect_vec'): return mk('collect', V(0)), s
        if n == 'scan':                                        # the state is what an earlier element left
            it = V(0); key = ('S',) + site; ph = mk('phi', site, 'scan')
            s2 = s.copy(); s2.env[key] = ph
            rr, o = self.apply_fn(fr, s2, args[2], (mk('mref', key, ()), self.elem(it)), site, line, again=True)
            if o is None: return None, None
            st = o.env.get(key, ph); self.alts_[ph] = [(V(1), s.facts, False), (st, o.facts, True)]
            return mk('fmap', it, rr if rr is not None else mk('never')), o
        if n in ('fold', 'try_fold', 'reduce'):
            it = V(0)
            if n == 'reduce': acc, fn = mk('acc', it, site), args[1]
            else: acc, fn = mk('acc', V(1), site), args[2]
            rr, o = self.apply_fn(fr, s, fn, (acc, self.elem(it)), site, line, again=True)
            return mk('fold', n, it, V(1) if n != 'reduce' else UNIT, rr if rr is not None else mk('never'), acc), o
        return None

class Result: pass

def K0(v):
    if isinstance(v, bool): return K(v, 'bool')
    a = as_adt(v)
    return mk('k', '', v, None)
def norm_ref(v):
    while isinstance(v, tuple) and len(v) == 2 and v[0] == '#' and v[1][0] == 'ref': v = v[1][1]
    return v
def agg_fields(t):
    if t.op == 'agg': return t.a[2]
    x = as_adt(t.a[1]) if t.op == 'k' else None
    return tuple(K0(v) for v in (x[2] or ())) if x else ()
def failing(body):
    """the blocks from which every way out is a panic or an error"""
    r = body.get('_failing')
    if r is None:
        bs = body['b']; ok = set()
        def err(i):
            st, t = bs[i]
            if any(pl == [0] and rv[0] == 'agg' and rv[1] == 'adt' and rv[-2:] and 'Err' in rv for pl, rv, _ in st): return True
            return t[0] == 'call' and t[1][0] == 'k' and isinstance(t[1][1], dict) and 'from_residual' in str(t[1][1].get('fn', {}).get('p'))
        pred = {}
        for i, (st, t) in enumerate(bs):
            for j in succs(t): pred.setdefault(j, []).append(i)
        todo = [i for i, (st, t) in enumerate(bs) if t[0] == 'ret' and not err(i)]
        while todo:
            i = todo.pop()
            if i in ok: continue
            ok.add(i)
            todo += [p for p in pred.get(i, ()) if not err(p)]
        r = body['_failing'] = set(range(len(bs))) - ok
    return r
def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'drop': return [t[2]]
    if k == 'assert': return [t[3]]
    if k == 'yield': return [t[2]]
    if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    return []

# ------------------------------------------------------------ queries on results
def alts(ev, t, facts=None, depth=0, seen=None):
    """flatten phis: list of (leaf term, facts on the way)"""
    facts = facts or {}
    if t.op == 'phi' and depth < 12:
        al = ev.alts_.get(t)
        seen = seen or frozenset()
        if al is not None and t not in seen and not (facts and depth and any(b for _, _, b in al)):      # what an earlier run left, read under a condition on this one
            out = []
            for x, f, back in al:
                if facts and not back and ev.contradict(facts, f): continue
                ff = dict(f) if not back else {}
                for k, v in facts.items():
                    ff[k] = v if k not in ff else and_vals(ff[k], v)
                out += alts(ev, x, ff, depth + 1, seen | {t})
            return out
    return [(t, facts)]

def walk(t, ev=None, seen=None, through_phi=True):
    """all sub-terms (through phi alternatives)"""
    seen = seen if seen is not None else set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, T) or x in seen: continue
        seen.add(x)
        yield x
        if x.op == 'phi' and ev is not None and through_phi:
            st.extend(a for a, _, _ in ev.alts_.get(x, ()))
        else: st.extend(x.a)
def mentions(t, pred, ev=None):
    return any(pred(x) for x in walk(t, ev))
