"""Spec tables: the denotation a function must have, written as normal forms (vx/nf.py).

A table is text; a block per function:
    @ <fn path>  [name=value ...]          options: args=self,start,stop   ptype=I32   depth=4
    expected alternative
    expected alternative <- guard & guard
The identifiers that occur in a block are the vocabulary: functions so named stay calls, everything else of the workspace is expanded, so that
moving code between helpers does not change the normal form."""
from lib import *
from nf import NF, neg, primes, conj
from engine import succs
import time
T0 = time.time()
ERRS = ['vortex_error', 'core::fmt', 'VortexExpect', 'VortexUnwrap', 'tracing', 'log::']
PRIM = ['into_canonical', 'into_primitive', 'into_bool', 'into_varbin', 'into_varbinview', 'into_struct', 'into_extension', 'as_primitive', 'as_bool_array', 'dtype', 'len', 'nullability', 'child', 'ptype', 'byte_width', 'into_arrow', 'from_arrow', 'TryFrom.try_from', 'into_value', 'as_bool', 'as_pvalue', 'with_dyn', 'maybe_null_slice', 'metadata']

class Block: pass
def parse(text):
    out = []; cur = None
    for l in text.split('\n'):
        if not l.strip() or l.startswith('#'): continue
        if l.startswith('@ '):
            cur = Block(); m = re.match(r'@ (.*?)((?:\s+\w+=\S+)*)\s*$', l)
            cur.path = m.group(1).strip(); cur.opt = dict(x.split('=', 1) for x in m.group(2).split()); cur.exp = []; out.append(cur)
        else: cur.exp.append(l.strip())
    return out
def vocab(texts):
    v = set()
    for t in texts: v |= set(re.findall(r'([A-Za-z_0-9.]+)\(', t))
    return v
def inliner(voc, extra=()):
    names = set(voc) | set(extra)
    bare = {x for x in names if '.' not in x} | {x.rsplit('.', 1)[1] for x in names if '.' in x and x.split('.')[0] in ('TryFrom', 'Try')}
    def f(q):
        l = re.search(r'([A-Za-z_0-9]+)$', q)
        if not l: return None                                  # closures
        l = l.group(1)
        for o in ERRS:
            if o in q: return False
        m = re.match(r'<(?:.*?::)?([A-Za-z0-9_]+)(?:<.*>)?(?: as .*)?>::', q)
        if m and '%s.%s' % (m.group(1), l) in names: return False
        if l in ('try_new', 'new') or l.startswith(('try_new', 'from_', 'try_from', 'with_', 'from')): 
            return False if l in bare and l not in ('new', 'try_new', 'from') else None
        if l in bare: return False
        return None
    return f

def hooks(opt):
    pt = opt.get('ptype')
    if not pt: return None
    pv = agg(PTYPE, pt)
    def hook(ev, fr, s, p, r, g, args, V):
        n = r or p
        if n.endswith('::ptype') and 'Array' in n: return pv
        if 'ptype::PType as core::convert::TryFrom<&' in n: return Ok(pv)
        if p.endswith('TryFrom::try_from') and g and g[0] == PTYPE: return Ok(pv)
        if p.endswith('TryInto::try_into') and len(g) > 1 and g[1] == PTYPE: return Ok(pv)
        return None
    return hook

def own(f, path, opt):
    """inl=NAME,...: these methods of the function's own type are expanded although functions so named are opaque"""
    so = re.match(r'<([A-Za-z_0-9:]+)', path)
    if not opt.get('inl') or not so: return f
    ns = opt['inl'].split(','); pre = ('<%s>::' % so.group(1), '<%s as ' % so.group(1))
    return lambda q: True if q.startswith(pre) and q.rsplit('::', 1)[1] in ns else f(q)
class Slow(Exception): pass
def limited(secs, f):
    """f() if it is done within the time allowed, else None: what takes longer is not judged"""
    import signal
    def stop(*_): raise Slow()
    old = signal.signal(signal.SIGALRM, stop); signal.setitimer(signal.ITIMER_REAL, secs, 1)
    try: return f()
    except Slow: return None
    finally: signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
def evaluate(c, path, opt, voc):
    b = c.F.bodies.get(path)
    if b is None: return None, None
    names = opt.get('args', '').split(',') if opt.get('args') else []
    args = {i + 1: mk('arg', i + 1, n) for i, n in enumerate(names)}
    facts = {}                                              # when=ARG:Variant,..: the block speaks about the case in which the arguments are so
    for x in filter(None, opt.get('when', '').split(',')):
        n, v = x.split(':'); facts[mk('D', args[names.index(n) + 1])] = ('in', frozenset(v.split('|')))
    d = int(opt.get('depth', 6))
    for depth in (d, 3, 1):
        e = c.ev(inline=own(inliner(voc, PRIM if opt.get('prim', '1') == '1' else ()), path, opt), maxdepth=depth, hook=hooks(opt), budget=150000)
        e.nullcanon = True
        try: r = e.run(path, args, facts=facts); break
        except Budget: r = None
    if r is None: return None, None
    c.fns.update(e.visited); c.fns.add(path); r.path = path
    return r, e

def outcomes(r, e, errs=False, short=False, show=None, flat=False):
    if r.ret is None: return ['never']
    n = NF(e); n.short = short; n.named = short == 'n'; n.show = show; n.origin = flat
    return n(r.ret, errs=errs)

def sequence(r, e, what, short=False):
    """seq=NAME|NAME: the order in which the evaluated code makes the named calls, as the pairs of calls that follow one another"""
    nm, _, only = what.partition('#'); only = [int(x) for x in only.split(',')] if only else None
    n = NF(e); n.short = short; n.named = short == 'n'; n.origin = True
    inv = {c: k for k, c in e.ctxs.items()}; nodes = []
    for ev in r.events:
        m = re.search(r'([A-Za-z_0-9]+)$', ev.r or ev.p or '')
        if not m or not re.fullmatch(nm, m.group(1)) or ev.ret is None: continue
        if ev.ret.op == 'clo' and (e.F.bodies.get(ev.ret.a[0]) or {}).get('cor'): continue     # runs where it is awaited
        x = n.nf(mk('call', m.group(1), (), tuple(v for i, v in enumerate(ev.vals) if only is None or i in only)))
        if x is None: continue
        c, b = ev.site[0], ev.site[1]; ch = [(c, b)]
        while c in inv and isinstance(inv[c][0], int):
            c, b = inv[c][0], inv[c][1]
            if isinstance(b, tuple): b = b[0]
            ch.append((c, b))
        nodes.append((x, ch[::-1]))
    nodes = [(x, p) for x, p in nodes if not any(len(q) > len(p) and q[:len(p)] == p for _, q in nodes)]      # a helper that was looked into
    def before(p, q):
        for (c1, b1), (c2, b2) in zip(p, q):
            if c1 != c2: return False
            if b1 == b2: continue
            bd = e.F.bodies.get(inv[c1][2])
            if bd is None or not isinstance(b1, int) or not isinstance(b2, int): return False
            if b1 < 0 or b2 < 0: return b1 >= 0
            rp = e.rpo(bd); seen = {b1}; w = [b1]               # forward edges only: the order within one turn of a loop
            while w:
                u = w.pop()
                for v in succs(bd['b'][u][1]):
                    if v not in seen and rp.get(v, -1) > rp.get(u, -1): seen.add(v); w.append(v)
            return b2 in seen
        return False
    N = range(len(nodes)); lt = {(i, j) for i in N for j in N if i != j and before(nodes[i][1], nodes[j][1])}
    out = {nodes[i][0] for i in N if not any(i in p for p in lt)}
    for i, j in lt:
        if not any((i, k) in lt and (k, j) in lt for k in N): out.add('%s ; %s' % (nodes[i][0], nodes[j][0]))
    return sorted(out)

def calls(r, e, name, under=False, only=None, short=False, apart=False):
    """normal forms of the calls of the named function that the evaluated code makes"""
    n = NF(e); n.short = short; n.named = short == 'n'; out = set(); ways = {}
    for ev in r.events:
        m = re.search(r'([A-Za-z_0-9]+)$', ev.r or ev.p or '')
        if m and m.group(1) == name and ev.ret is not None:
            x = n.nf(mk('call', name, (), tuple(v for i, v in enumerate(ev.vals) if only is None or i in only)))
            if x is None: continue
            if under == 'all': ways.setdefault((x, (ev.fn, ev.blk) if apart else ''), set()).update(n.rows(ev.facts, ev.join, noise=e.sig)); continue
            if under:
                g = {q for k, v in ev.facts.items() if k.op in ('cmp', 'call', 'not') for q in [n.guard(k, v)] if q}
                if g: x += ' <- ' + ' & '.join(sorted(g))
            out.add(x)
    for (x, _), ws in ways.items():                         # under=all (each=1: every call site by itself): the conditions under which the call is made, as prime implicants
        for w in primes(ws): out.add(x + (' <- ' + ' & '.join(sorted(w)) if w else ''))
    return sorted(out)
def sites(r, opt):
    """number of call sites of the function a calls= block speaks about"""
    nm = opt['calls'].partition('#')[0]
    return len({(ev.fn, ev.blk) for ev in r.events if re.search(r'\b%s$' % nm, ev.r or ev.p or '') and ev.ret is not None})
def observed(r, e, opt):
    short = {'0': True, '1': 'n'}.get(opt.get('loops'), False)
    if 'steps' in opt: return steps(r, e, opt['steps'])
    if 'seq' in opt: return sequence(r, e, opt['seq'], short)
    if 'calls' in opt:
        nm, _, only = opt['calls'].partition('#')
        return calls(r, e, nm, opt.get('under') == 'all' and 'all' or opt.get('under') in ('1', '2'), [int(x) for x in only.split(',')] if only else None, short, opt.get('each') == '1')
    if 'stores' in opt:                                     # stores=FIELD: what the code assigns to the field, and when
        n = NF(e); n.short = short; n.named = short == 'n'; ways = {}
        for f, v, facts, join in e.stored.values():
            if f == opt['stores']: ways.setdefault(n.nf(v), set()).update(n.rows(facts, join, noise=e.sig))
        return sorted({x + (' <- ' + ' & '.join(sorted(w)) if w else '') for x, ws in ways.items() for w in primes(ws) if x})
    if 'out' in opt: return outs(r, e, int(opt['out']), opt.get('show'))
    return outcomes(r, e, opt.get('errs') == '1', short, opt.get('show'), opt.get('flat') == '1')

def outs(r, e, i, show=None):
    """out=N: what the function leaves in the fields of its N-th argument"""
    from engine import alts
    if r.out is None: return ['never']
    n = NF(e); n.show = show
    cell = r.out.env.get(('A', i))
    if cell is None: return []
    b = e.F.bodies[r.path]
    ty = re.sub(r"^&mut |<.*$", '', re.sub(r"&'[a-z_]+ ", '&', b['locals'][i][0]))
    a = e.F.adts.get(ty)
    if not a or a['k'] != 'struct': return n(cell)
    out = []
    for k, (nm, *_) in enumerate(a['v'][0][2]):
        rows = n(e.fld(cell, k, nm))
        if len(rows) == 1 and re.fullmatch(r'dtype\([\w.$@]*\)', rows[0]) and nm == 'dtype': continue
        if len(rows) == 1 and rows[0].endswith('.' + nm) and ' <- ' not in rows[0] and '(' not in rows[0]: continue
        out += ['.%s = %s' % (nm, y) for x in rows for y in kept(x, '.' + nm)]
    return out
def kept(x, v):
    """a flag that a test clears or sets (x &= t, x |= t), as the two cases"""
    from nf import parens, dnf, neg, conjuncts
    for s, lit in (('and', 'False'), ('!and', 'True')):
        ps = parens(x[1:] if s[0] == '!' else x, 'and') if x.startswith(s + '(') else None
        if not ps: continue
        own = [p for p in ps if (p[1:] if lit == 'True' and p.startswith('!') else '-' if lit == 'True' else p).endswith(v) and '(' not in p]
        if len(own) != 1: continue
        rest = [p for p in ps if p is not own[0]]; q = rest[0] if len(rest) == 1 else 'and(%s)' % ', '.join(rest)
        return [own[0].lstrip('!') + ''.join(' <- ' + ' & '.join(sorted(w)) for w in [conjuncts(q)])] + sorted('%s <- %s' % (lit, ' & '.join(sorted(w))) for w in dnf(neg(q)))
    return [x]
def steps(r, e, what):
    """steps=NAME: one turn of the loop that carries NAME: what it leaves in NAME (field by field), and when"""
    from engine import mk
    n = NF(e); n.short = n.named = True; n.maxp = 12; out = []
    for t in list(e.alts_):
        al = e.alts_.get(t); js = e.altj.get(t)
        if t.a[0] == 'fld' or not al or not any(b for _, _, b in al) or not re.fullmatch(r'cur\((?:%s)\)' % what, n.nf(t) or ''): continue
        back = [(i, x, f) for i, (x, f, b) in enumerate(al) if b]
        s = mk('phi', 'step', t); e.alts_[s] = [(x, f, False) for _, x, f in back]
        if js: e.altj[s] = [js[i] for i, _, _ in back]
        fs = sorted(set_fields(e, s))
        if not fs: out += n(s); continue
        for k in fs: out += ['.%s = %s' % (k, x) for x in n(mk('phi', 'fld', s, 0, k))]
    return sorted(set(out))
def set_fields(e, t, seen=None):
    seen = set() if seen is None else seen
    if t in seen: return set()
    seen.add(t)
    if t.op == 'setf': return {t.a[1]} | set_fields(e, t.a[0], seen)
    return {k for x, _, _ in e.alts_.get(t) or () for k in set_fields(e, x, seen)} if t.op == 'phi' else set()
def clean(s):
    s = re.sub(r'\s+', ' ', s)
    return pushes(s) if '.push(' in s else s
def match_to(s, i):
    d = 0
    for k in range(i, len(s)):
        d += s[k] in '([{'; d -= s[k] in ')]}'
        if d == 0: return k
    return -1
def pushes(s):
    """a list built by pushing is the list"""
    s = re.sub(r'\bVec\.(new|with_capacity)\(\)(?=\.push\()', '[]', s); i = 0
    while True:
        i = s.find('].push(', i)
        if i < 0: return s
        d = 0; j = i
        while j >= 0:
            d += s[j] in ')]}'; d -= s[j] in '([{'
            if d == 0: break
            j -= 1
        k = match_to(s, i + 6)
        if j < 0 or k < 0 or s[j] != '[': i += 1; continue
        s = s[:i] + (', ' if i > j + 1 else '') + s[i + 7:k] + ']' + s[k + 1:]; i = j
def optional_last(exp, got):
    """`[a].extend(x)` for an optional x, where the rule has `or([a, x], [a])`"""
    for x in exp:
        for m in re.finditer(r'\bor\(\[', x):
            k = match_to(x, m.end() - 2)
            ys = split_top(x[m.end() - 1:k], ', ')
            if len(ys) != 2 or ys[0][:1] != '[' or ys[1][:1] != '[': continue
            a, b = (split_top(y[1:-1], ', ') if len(y) > 2 else [] for y in ys)
            if a[:-1] != b: continue
            for alt in ('%s.extend(%s)' % (ys[1] if b else 'Vec.new()', a[-1]), 'Vec.with_capacity().extend(%s)' % a[-1] if not b else '\0', 'chain(%s, %s)' % (ys[1], a[-1])): got = [g.replace(alt, x[m.start():k + 1]) for g in got]
    return got

def operand(s, j):
    """where the operand that ends before s[j] begins"""
    while j > 0:
        if s[j - 1] in ')]}':
            d = 0; k = j - 1
            while k >= 0:
                d += s[k] in ')]}'; d -= s[k] in '([{'
                if d == 0: break
                k -= 1
            j = k
        elif s[j - 1].isalnum() or s[j - 1] in '_.@*': j -= 1
        else: break
    return j
def some_rows(ys):
    """`o?` and `o.map(..)`: the row that gives nothing when o is nothing is left out, and so is the test that there is something where the value has it in it"""
    out = []
    for v, g in ys:
        gs = split_top(g, ' & ') if g else []
        if v == 'None' and (not gs or any(x.endswith(' is None') for x in gs)): continue
        gs = [x for x in gs if not (x.endswith(' is Some') and x[:-8] in v)]
        out.append((v, ' & '.join(gs)))
    return out
def canon_rows(rows):
    xs = [(split_top(canon(x), ' <- ') + [''])[:2] for x in rows]
    ys = some_rows([tuple(x) for x in xs]) or xs
    zs = []
    for v, g in ys:
        m = re.match(r'each\((.*)\)\.push\((.*)\)$', v)
        zs.append((('each(%s)' % m.group(1)) if m and m.group(1) == m.group(2) else v, g))
    if any(v.startswith('each(') for v, g in zs): zs = [(v, g) for v, g in zs if (v, g) != ('[]', '')]
    return sorted({v + (' <- ' + g if g else '') for v, g in zs})
def optional_truth(ys):
    """the cases of an optional truth value: `Some(true)` is the value itself, `None` goes with `Some(false)` where both give the same"""
    out = [(v, re.sub(r'\bEq\(True, (%s)\)' % PATHX, r'\1', g)) for v, g in ys]; gs = [set(split_top(g, ' & ')) if g else set() for _, g in out]; res = []
    for (v, _), g in zip(out, gs):
        g = {x for x in g if not (x.endswith(' is Some') and x[:-8] in g)}
        n = next((x for x in g if x.endswith(' is None')), None)
        if n and any(w == v and '!' + n[:-8] in h and h - {'!' + n[:-8]} == g - {n} for (w, _), h in zip(out, gs)): continue
        res.append((v, ' & '.join(sorted(g))))
    return res
PATHX = r'[\w.@*]+(?:\([\w.@*]*(?:\([\w.@*]*\))?\))?[\w.@*]*'
def implied(v, g):
    """a test for the variant whose part the value is made of says nothing more"""
    out = []
    for x in g:
        m = re.match(r'!?(%s)(?: is | != )(\w+)$' % PATHX, x)
        if m and re.search(re.escape(m.group(1)) + r'@(\w+)\.', v):
            w = set(re.findall(re.escape(m.group(1)) + r'@(\w+)\.', v)); neg = x[:1] == '!' or ' != ' in x
            if len(w) == 1 and (m.group(2) in w) != neg: continue
        out.append(x)
    return out
def null_test(exp, got):
    """`is_null` of a value that has a variant for it"""
    for x in {m for r in exp for m in re.findall(r'(?<![\w.])(%s) is Null\b' % PATHX, r)}:
        got = [r.replace('is_null(%s)' % x, x + ' is Null') for r in got]
    return got
def untold(exp, got):
    """a choice the rule leaves open, made by whether something is there"""
    def opt(ys): return all(len(y) == 2 and len(split_top(y[1], ' & ')) == 1 and y[1].endswith((' is Some', ' is None')) for y in ys)
    free = set()
    for x in exp:
        for m in re.finditer(r'\{', x):
            g = x[m.start():match_to(x, m.start()) + 1]
            if ' | ' in g and all(len(split_top(y, ' <- ')) == 1 for y in split_top(g[1:-1], ' | ')): free.add(tuple(sorted(split_top(g[1:-1], ' | '))))
    out = []
    for x in got:
        for m in reversed(list(re.finditer(r'\{', x)) if free else []):
            k = match_to(x, m.start()); ys = [split_top(y, ' <- ') for y in split_top(x[m.start() + 1:k], ' | ')]; t = tuple(sorted(y[0] for y in ys))
            if t in free and opt(ys): x = x[:m.start()] + '{%s}' % ' | '.join(t) + x[k + 1:]
        out.append(x)
    rows = [split_top(x, ' <- ') for x in out]
    if len(rows) > 1 and opt(rows) and sorted(y[0] for y in rows) == sorted(exp): return exp
    return out
def leaves(rows, cap=60):
    """every case a row of its own: a choice inside a value, and what comes when there is nothing (`o.map(..).unwrap_or(..)`, `if let`), told apart by their guards"""
    todo = [((split_top(x, ' <- ') + [''])[:2]) for x in rows]; todo = [(v, tuple(split_top(g, ' & ')) if g else ()) for v, g in todo]; out = set()
    while todo:
        if len(todo) + len(out) > cap: raise ValueError('too many cases')
        v, g = todo.pop()
        if whole(v, 'or'):
            ab = split_top(v[3:-1], ', ')
            if len(ab) == 2: todo += [(ab[0], g), (ab[1], g + ('?',))]; continue
        q = pieces(v); i = -1
        if v[:1] == '{' and match_to(v, 0) == len(v) - 1: args, i, f = [v], 0, '%s'
        elif len(q) == 3 and q[1][:1] == '(' and not q[2]:
            args = split_top(q[1][1:-1], ', '); f = q[0] + '(%s)'
            i = next((k for k, a in enumerate(args) if a[:1] == '{' and match_to(a, 0) == len(a) - 1), -1)
        if i >= 0:
            for y in split_top(args[i][1:-1], ' | '):
                a, h = (split_top(y, ' <- ') + [''])[:2]
                todo.append((f % ', '.join(args[:i] + [a] + args[i + 1:]), g + (tuple(split_top(h, ' & ')) if h else ())))
            continue
        g = implied(v, g); out.add((v, tuple(sorted(['?' for x in g if x == '?' or x.endswith(' is None')] + list({x for x in g if x != '?' and not x.endswith((' is None', ' is Some'))})))))
    return out
def merged_paths(exp, got):
    """the state a function leaves, joined over its paths: the same values under tests that agree, some of which the join no longer tells apart"""
    def row(x): v, g = (split_top(x, ' <- ') + [''])[:2]; return v, frozenset(y for y in split_top(g, ' & ') if not y.endswith(' is Ok')) if g else frozenset()
    def no(x): return x[:-8] + ' is None' if x.endswith(' is Some') else x[:-8] + ' is Some' if x.endswith(' is None') else x[1:] if x[:1] == '!' else '!' + x
    E, G = [row(x) for x in exp], [row(x) for x in got]; known = {a for _, g in E for a in g} | {no(a) for _, g in E for a in g}
    if {v for v, _ in E} != {v for v, _ in G} or any(not g <= known for _, g in G): return False
    return all(any(v == w and not any(no(a) in h for a in g) and (g <= h or h <= g) for w, h in E) for v, g in G)
def as_state(exp, got):
    """a truth value kept in the state, where the rule has two cases"""
    gs = {x.lstrip('!') for r in exp for y in (split_top(r, ' <- '),) if len(y) > 1 for x in split_top(y[1], ' & ')}
    return any(re.search(r'=!?%s\)' % re.escape(g), r) for r in got for g in gs if '(' in g)
def canon(row):
    """one way of writing what the code may write in several: the parts of a data type, an optional last child, a choice of one argument, a test that is 0 or 1"""
    s = row
    for _ in range(60):
        t = s; i = t.find('@Primitive.1')
        if i >= 0: j = operand(t, i); s = t[:j] + 'nullability(%s)' % t[j:i] + t[i + 12:]; continue
        s = re.sub(r'\bVec\.(?:new|with_capacity)\(\)', '[]', s); s = s.replace('[].extend([])', '[]')
        m = re.search(r'\[\]\.extend\(', s)
        if m: k = match_to(s, m.end() - 1); s = s[:m.start()] + s[m.end():k] + s[k + 1:]; continue
        m = re.search(r'(?<!!)\bEq\((?=Eq\()', s)
        if m:
            k = match_to(s, m.end() - 1); ab = split_top(s[m.end():k], ', ')
            if len(ab) == 2 and ab[1] == 'False': s = s[:m.start()] + '!' + ab[0] + s[k + 1:]; continue
        m = re.search(r'\band\(', s)
        if m:
            k = match_to(s, m.end() - 1); ab = split_top(s[m.end():k], ', '); z = [x for x in ab if not (x.endswith(' is Some') and any(x[:-8] in y for y in ab if y != x))]
            if z != ab: s = s[:m.start()] + (z[0] if len(z) == 1 else 'and(%s)' % ', '.join(z)) + s[k + 1:]; continue
        m = re.search(r'\bchain\((?=\[)', s)
        if m:
            k = match_to(s, m.end() - 1); ab = split_top(s[m.end():k], ', ')
            if len(ab) == 2: s = s[:m.start()] + '%s.extend(%s)' % tuple(ab) + s[k + 1:]; continue
        done = False
        for m in reversed(list(re.finditer(r'\bor\(', s))):
            k = match_to(s, m.end() - 1); ab = split_top(s[m.end():k], ', ')
            if len(ab) != 2: continue
            a, b = ab; z = None
            if a.startswith(b + '.push(') and match_to(a, len(b) + 5) == len(a) - 1: z = (b, a[len(b) + 6:-1])
            elif a[:1] == b[:1] == '[' and a[-1:] == b[-1:] == ']':
                x, y = split_top(a[1:-1], ', '), split_top(b[1:-1], ', ') if len(b) > 2 else []
                if x[:-1] == y: z = (b, x[-1])
            if z: s = s[:m.start()] + '%s.extend(%s)' % z + s[k + 1:]; done = True; break
        if done: continue
        for m in reversed(list(re.finditer(r'\{', s))):
            k = match_to(s, m.start()); ys = [(split_top(y, ' <- ') + [''])[:2] for y in split_top(s[m.start() + 1:k], ' | ')]
            zs = optional_truth(some_rows([tuple(y) for y in ys]))
            if zs and zs != [tuple(y) for y in ys]:
                s = s[:m.start()] + (zs[0][0] if len(zs) == 1 and not zs[0][1] else '{%s}' % ' | '.join(sorted(v + (' <- ' + g if g else '') for v, g in zs))) + s[k + 1:]; done = True; break
            if len(ys) < 2 or not all(g for _, g in ys): continue
            if len(ys) == 2 and sorted(v for v, _ in ys) == ['0', '1']:
                g = dict(ys)
                if g['0'] == '!' + g['1']: s = s[:m.start()] + g['1'] + s[k + 1:]; done = True; break
            ps = [pieces(v) for v, _ in ys]
            if all(len(q) == 3 and q[1][:1] == '(' and not q[2] and q[0] == ps[0][0] and q[0] for q in ps):
                zs = [split_top(q[1][1:-1], ', ') for q in ps]
                if len({len(z) for z in zs}) == 1:
                    df = [i for i in range(len(zs[0])) if len({z[i] for z in zs}) > 1]
                    if len(df) == 1:
                        zs[0][df[0]] = '{%s}' % ' | '.join(sorted('%s <- %s' % (z[df[0]], g) for z, (_, g) in zip(list(map(list, zs)), ys)))
                        s = s[:m.start()] + '%s(%s)' % (ps[0][0], ', '.join(zs[0])) + s[k + 1:]; done = True; break
        if done: continue
        if s == t: break
    y = split_top(s, ' <- ')
    if len(y) == 2:
        g = set()
        for x in split_top(y[1], ' & '):
            m = re.match(r'Eq\(Primitive\((\w+), (\w+)\), (.*)\)$', x)
            n = re.match(r'(.*) != ([\w|]+)$', x)
            if n: g |= {'!Eq(%s, %s)' % (w, n.group(1)) for w in n.group(2).split('|')}; continue
            g |= {'%s is Primitive' % m.group(3), '%s@Primitive.0 is %s' % (m.group(3), m.group(1)), 'nullability(%s) is %s' % (m.group(3), m.group(2))} if m and len(split_top(m.group(3), ', ')) == 1 else {x}
        s = y[0] + ' <- ' + ' & '.join(sorted(g))
    return s
# ---- comparing two normal forms: equal, different for sure, or different in a way this vocabulary cannot judge
OPEN, CLOSE = '([{', ')]}'
def split_top(s, sep):
    out = []; d = 0; i = 0; st = 0
    while i < len(s):
        ch = s[i]
        if ch in OPEN: d += 1
        elif ch in CLOSE: d -= 1
        elif d == 0 and s.startswith(sep, i): out.append(s[st:i]); i += len(sep); st = i; continue
        i += 1
    out.append(s[st:]); return out
def pieces(s):
    """'f(a, b).g(c)' -> ['f', '(a, b)', '.g', '(c)']"""
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in OPEN:
            if d == 0:
                out.append(cur); cur = ''
            d += 1; cur += ch
        elif ch in CLOSE:
            d -= 1; cur += ch
            if d == 0: out.append(cur); cur = ''
        else: cur += ch
    out.append(cur); return out
WORD = re.compile(r'[A-Za-z_][A-Za-z_0-9]*')
BASE = set('or_kleene and_kleene eq_ignore_nullability all_valid all_invalid is_null is_valid each iall and elem min max len rem div not or Eq Lt Le Gt Ge Some None Ok Err true false True False is in dtype nullability AllValid AllInvalid NonNullable Nullable Array validity offset length slice take filter neg shl shr bitand bitor bitxor un Neg Not saturating_sub saturating_add wrapping_add wrapping_sub with default new as_u8 as_u16 as_u32 as_u64 as_usize as_i8 as_i16 as_i32 as_i64 div_euclid rem_euclid round floor ceil trunc swap_bytes reverse_bits rotate_left rotate_right'.split())
# words of control structure: a difference in which these do not balance is another way of writing a loop, which the text comparison cannot judge
UNDECIDED = set('loop closure mut phi L each elem fn fmap filtered enumerate unzip pos collect_bool from_fn zip fold filter_map_ok unwrapit rep'.split())
LOOPY = [False]; ATOMS = [[]]
def atoms(texts):
    out = set()
    for t in texts:
        for m in re.finditer(r'\b(elem|each|pos)\(', t):
            d = 0
            for i in range(m.end() - 1, len(t)):
                d += t[i] in OPEN; d -= t[i] in CLOSE
                if d == 0: break
            else: continue
            x = t[m.start():i + 1]; r = re.match(r'(?:\.\d+|@\w+)+', t[i + 1:])
            if m.group(1) != 'elem' or 'L' not in WORD.findall(x): out.add(x)
            if r: out.add(x + r.group(0))
    return sorted(out, key=len, reverse=True)
def loops_in(e, visited):
    for p in visited:
        b = e.F.bodies.get(p)
        if b and any(r <= q for q, r in ((e.rpo(b).get(u), e.rpo(b).get(v)) for u in e.rpo(b) for v in succs(b['b'][u][1])) if r is not None): return True
    return False
EMPTY = re.compile(r'!?(Eq|Lt)\(0, |!?is_empty\(|.*\.\.\.|.*\u2026'); SUBS = [set()]; TRUST = [True]; POSN = re.compile(r'pos\('); LENS = re.compile(r'\[?len\(')
def subterms(texts):
    """every value the expectation names"""
    out = set()
    def go(s):
        if s in out or not s: return
        out.add(s)
        for x in pieces(s):
            if x[:1] in OPEN and x:
                for sep in (' | ',) if x[0] == '{' else (', ',):
                    for y in split_top(x[1:-1], sep): go(split_top(y, ' <- ')[0])
    for t in texts: go(split_top(t, ' <- ')[0])
    return out
def whole(s, f): y = pieces(s); return len(y) == 3 and y[0] == f and not y[2]
WRAP = set('min max saturating_sub saturating_add wrapping_add wrapping_sub L rem div neg not and or'.split())      # arithmetic around the expected value
def judge(e, g, known):
    if e == g: return 'ok'
    m = re.match(r'(?:skip|step_by)\((.*), [1-9]\d*\)$', g)
    if m and m.group(1) == e: return 'bad'                 # rows are left out
    if len(e) > 3 and '…' not in g and g.startswith('optfilter(' + e + ', ') and not [w for w in WORD.findall(re.sub(r"'[^']*'", '', g)) if w not in known and w != 'optfilter']: return 'bad'      # the expected value, dropped when some test fails
    def unk(e=e, g=g):
        if whole(e, 'elem') and whole(g, 'pos') and 'pos(' not in e: return 'bad'      # where an element stands, instead of what it is
        we, wg = WORD.findall(e), WORD.findall(g)
        if TRUST[0] and whole(e, 'elem') and e[5:-1] in g and '…' not in g and not re.search(r'\b(elem|pos|cur|nth|next|loop|index|fn|\w*iter\w*|get\w*)\b', g.replace(e[5:-1], '')) and re.search(r'\b(first|last)\(%s\)' % re.escape(e[5:-1]), g): return 'bad'      # one element for all turns
        if len(e) > 8 and e in g and not [w for w in WORD.findall(g.replace(e, '')) if w not in WRAP]: return 'bad'
        if TRUST[0] and len(g) > 3 and e != g and not POSN.match(e + g) and not LENS.match(g) and WORD.search(e) and WORD.search(g) and e in SUBS[0] and g in SUBS[0]: return 'bad'      # another one of the values the rule speaks about
        k = re.match(r'([A-Z][A-Za-z0-9]*)\((.*)\)$', g)
        if k and len(e) > 3:                                # a record put together from the wrong fields of the expected one
            fs = split_top(k.group(2), ', ')
            if len(fs) > 1 and all(re.match(re.escape(e) + r'\.\w+$', x) for x in fs): return 'bad'
        if '…' in g or [w for w in wg if w not in known and w not in UNDECIDED]: return 'unk'
        if not [w for w in UNDECIDED if we.count(w) != wg.count(w)]: return 'bad'
        if e in ('True', 'False') and re.match(r'!?(Eq|Lt|Le|Gt|Ge)\(', g): return 'bad'      # what always or never held is made to depend on a comparison
        for i, t in enumerate(ATOMS[0]): e, g = e.replace(t, '\u00a7%d' % i), g.replace(t, '\u00a7%d' % i)      # values of the loop that the expectation speaks about are names
        we, wg = WORD.findall(e), WORD.findall(g)
        if re.fullmatch('\u00a7\\d+', e) and POSN.match(ATOMS[0][int(e[1:])]) and re.search('\u00a7', g) and not re.fullmatch('\u00a7\\d+', g) and not [w for w in WORD.findall(g) if w not in WRAP and w not in ('len',)]: return 'bad'      # a position against arithmetic
        ae, ag = (set(re.findall('\u00a7\\d+', x)) for x in (e, g))
        if not ag <= ae and WORD.findall(e) != WORD.findall(g): return 'unk'              # other loop values in another shape
        return 'unk' if [w for w in UNDECIDED if we.count(w) != wg.count(w)] else 'bad'
    ee, gg = split_top(e, ' <- '), split_top(g, ' <- ')
    if len(ee) > 1 or len(gg) > 1:
        if ee[1:] == gg[1:] and ee[0] != gg[0] and same(ee[0], split_top(ee[1], ' & ')) == same(gg[0], split_top(gg[1], ' & ')): return 'ok'
        r = judge(ee[0], gg[0], known)
        if r != 'ok': return r
        if LOOPY[0] and len(ee) > 1 and (set(split_top(gg[1], ' & ')) if len(gg) > 1 else set()) < set(split_top(ee[1], ' & ')): return 'unk'   # a test inside a loop
        eg, g2 = set(split_top(ee[1], ' & ')) if len(ee) > 1 else set(), set(split_top(gg[1], ' & ')) if len(gg) > 1 else set()
        if eg == g2: return 'ok'
        if TRUST[0] and eg < g2 and all('loop' not in x and not EMPTY.match(x) and not [w for w in WORD.findall(x) if w not in known] for x in g2 - eg): return 'bad'      # done under a further test
        if len(eg - g2) == len(g2 - eg) == 1 and judge(*(eg - g2), *(g2 - eg), known) == 'bad': return 'bad'
        return unk(' '.join(sorted(eg - g2)), ' '.join(sorted(g2 - eg)))
    pe, pg = pieces(e), pieces(g)
    for i, x in enumerate(pe[:-1]):                       # the checked access does for the unchecked one
        if x == 'scalar_at_unchecked' and pg[i:i + 1] == ['scalar_at'] and not pg[i + 1].startswith('(self'): pg[i] = x
    if len(pe) != len(pg): return unk()
    worst = 'ok'
    for x, y in zip(pe, pg):
        if x == y: continue
        if x[:1] in OPEN and x[:1] == y[:1] if x else False:
            if x[0] == '{':
                xs, ys = split_top(x[1:-1], ' | '), split_top(y[1:-1], ' | ')
                r = judge_sets(xs, ys, known)[0]
                if r == 'unk' and pe[pe.index(x) - 1].endswith('loop') and len(xs) == len(ys) and len(set(xs) - set(ys)) == 1 and not any('loop' in z for z in set(xs) & set(ys)): r = update(*(set(xs) - set(ys)), *(set(ys) - set(xs)), known)
            elif x[0] == '[' and ',' not in x and not (x[:2] != '[{' and '{' in x and all(len(split_top(z[1:-1], ' + ')) == 1 == len(split_top(z[1:-1], '*')) for z in (x, y))): r = unk(x, y)
            else:
                xs, ys = split_top(x[1:-1], ', '), split_top(y[1:-1], ', ')
                if len(xs) != len(ys): return unk()
                rs = [judge(p, q, known) for p, q in zip(xs, ys)]
                r = 'bad' if 'bad' in rs else 'unk' if 'unk' in rs else 'ok'
        else: return unk()
        if r == 'bad': worst = 'bad'
        elif r == 'unk' and worst == 'ok': worst = 'unk'
    return worst
def update(e, g, known):
    """what a loop adds to a value that starts the same"""
    for i, t in enumerate(ATOMS[0]): e, g = e.replace(t, '\u00a7%d' % i), g.replace(t, '\u00a7%d' % i)
    ws = WORD.findall(e) + WORD.findall(g)
    return 'unk' if '…' in e + g or [w for w in ws if w not in known or w in UNDECIDED and w != 'loop'] else 'bad'
def flat(xs):
    out = []
    for x in xs:
        if x[:1] == '{' and len(pieces(x)) == 3 and x[-1] == '}': out += [y for y in split_top(x[1:-1], ' | ') if y not in out]
        elif x not in out: out.append(x)
    return out
def heads(xs):
    out = set()
    for x in xs:
        x = split_top(x, ' <- ')[0]; p = pieces(x)
        if p[0] == 'or' and len(p) == 3 and not p[2]: out |= heads(split_top(p[1][1:-1], ', '))
        elif x[:1] == '{' and len(p) == 3: out |= heads(split_top(x[1:-1], ' | '))
        else: out.add(x)
    return out
def judge_sets(exp, got, known):
    """(overall, [got alternatives that are wrong], [expected alternatives not met])"""
    import difflib
    exp, got = flat(exp), flat(got)
    hit = {e for e in exp if e in got}; best = {g: 'ok' for g in got if g in hit}
    rest = [e for e in exp if e not in hit]; outer = TRUST[0]; TRUST[0] = outer and len(rest) == len(got) - len(hit)
    for g in got:
        if g in best: continue
        cand = rest or exp; hd = split_top(g, ' <- ')[0]
        cand = [e for e in exp if split_top(e, ' <- ')[0] == hd] or cand
        e = max(cand, key=lambda e: difflib.SequenceMatcher(None, WORD.findall(e)[:400], WORD.findall(g)[:400], autojunk=False).ratio()) if len(cand) > 1 else cand[0]
        best[g] = judge(e, g, known)
        if best[g] == 'bad' and len(got) > 1 and ' <- ' not in g and ' <- ' in e and split_top(e, ' <- ')[0] == g: best[g] = 'unk'     # the test that selects it has no normal form
        if best[g] == 'ok': hit.add(e)
    TRUST[0] = outer
    wrong = [g for g in got if best[g] == 'bad']
    anyunk = 'unk' in best.values()
    missing = [] if anyunk else [e for e in exp if e not in hit]
    if wrong or missing or anyunk and any('{' in x for x in exp + got):
        a, b = expanded(exp), expanded(got)
        if a is not None and a == b: return 'ok', [], []
    if (wrong or missing) and any(x.startswith('or(') for x in exp) != any(x.startswith('or(') for x in got) and heads(exp) == heads(got): return 'unk', [], []    # the same alternatives, chosen by another test
    return ('bad' if wrong or missing else 'unk' if anyunk else 'ok'), wrong, missing

def expand(s, cap=40):
    """a value with alternatives inside it as plain values, each with the tests under which it is that value; None when there are too many"""
    y = split_top(s, ' <- '); g = frozenset(split_top(y[1], ' & ')) if len(y) > 1 else frozenset()
    rows = [('', g)]; ps = pieces(y[0])
    for i, p in enumerate(ps):
        if p[:1] == '{' and not ps[i - 1].endswith('loop'):
            sub = []
            for x in split_top(p[1:-1], ' | '):
                e = expand(x, cap)
                if e is None: return None
                sub += e
        elif p[:1] in OPEN and p and '{' in p and not re.search(r'\b(each|fn)$', ps[i - 1]) and ps[i - 1] != 'loop':
            sub = [(p[0], frozenset())]
            for k, x in enumerate(split_top(p[1:-1], ', ')):
                e = expand(x, cap)
                if e is None or len(e) * len(sub) > cap: return None
                sub = [(a + (', ' if k else '') + b, f | h) for a, f in sub for b, h in e]
            sub = [(a + p[-1], f) for a, f in sub]
        else: sub = [(p, frozenset())]
        if len(rows) * len(sub) > cap: return None
        rows = [(a + b, f | h) for a, f in rows for b, h in sub]
    return rows
def expanded(xs):
    by = {}
    for x in xs:
        e = expand(x)
        if e is None: return None
        for t, g in e:
            g = conj(frozenset(g))
            if g is not None: by.setdefault(same(t, g), set()).add(g)
    return {t: primes(ws) for t, ws in by.items()}
def sums(s):
    """sums inside sums are one sum"""
    r = ''
    for p in pieces(s):
        if p and p[0] in OPEN:
            b = p[1:-1]
            if p[0] == '[' and len(split_top(b, ', ')) == 1 and ' | ' not in b: r += polytext(poly(b)); continue
            sep = ' | ' if p[0] == '{' else ', '
            r += p[0] + sep.join(sums(x) for x in split_top(b, sep)) + p[-1]
        else: r += p
    return r
def poly(s):
    out = {}; sign = 1
    if s[:1] == '-': sign = -1; s = s[1:]
    for i, x in enumerate(split_top(s, ' + ')):
        for j, y in enumerate(split_top(x, ' - ')):
            sg = (sign if i == j == 0 else 1) * (-1 if j else 1)
            m = {(): sg}; f = ''; fs = []
            for k, p in enumerate(pieces(y)):
                if p[:1] in OPEN and p: f += p; continue
                z = re.split(r'(?<!@)\*', p); f += z[0]
                for w in z[1:]: fs.append(f); f = w
            fs.append(f)
            for f in fs:
                q = {(): int(f)} if f.isdigit() else poly(f[1:-1]) if f[:1] == '[' and len(pieces(f)) == 3 and f[-1] == ']' and len(split_top(f[1:-1], ', ')) == 1 else {(sums(f),): 1}
                n = {}
                for a, ca in m.items():
                    for b, cb in q.items(): k = tuple(sorted(a + b)); n[k] = n.get(k, 0) + ca * cb
                m = n
            for k, v in m.items():
                out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}
def polytext(p):
    if not p: return '0'
    r = ''
    for k in sorted(p, key=lambda k: (-len(k), k)):
        c = p[k]; m = '*'.join(k)
        r += (' - ' if c < 0 else ' + ') + (str(abs(c)) if not m else m if abs(c) == 1 else '%d*%s' % (abs(c), m))
    r = r[3:] if r.startswith(' + ') else '-' + r[3:]
    return r if len(p) == 1 and list(p.values())[0] == 1 else '[%s]' % r
def same(t, gs):
    """the value with equals put for equals"""
    for g in sorted(gs):
        m = re.match(r'Eq\((.*)\)$', g)
        ab = split_top(m.group(1), ', ') if m else ()
        if len(ab) != 2: continue
        a, b = sorted(ab, key=lambda x: (not x.isdigit(), len(x), x))
        if b.isdigit() or a in ('True', 'False'): continue
        t = re.sub(r'(?<![A-Za-z_0-9.@])%s(?![A-Za-z_0-9.@(])' % re.escape(b), lambda _: a, t)
    return sums(t) if '[' in t else t
CMP = {'Eq', 'Lt', 'Le'}
def weaker(y, ex, sp, known):
    """a call whose arguments are right but which one of the required tests does not dominate: say so when nothing unknown was tested instead"""
    t, g = sp(y); same = [(x, eg) for x, et, eg in ex if et == t]
    if not same: return y
    x, eg = min(same, key=lambda p: len(p[1] - g)); lack = eg - g; new = g - eg
    near = [q for q in new for l in lack if set(WORD.findall(q)) - CMP == set(WORD.findall(l)) - CMP]
    if near: return t + ' <- ' + ' & '.join(sorted((eg & g) | set(near)))
    if any(w not in known and w not in UNDECIDED for q in new for w in WORD.findall(q)) or LOOPY[0]: return y
    return t + (' <- ' + ' & '.join(sorted(eg & g)) if eg & g else '')
def LASTW(p): return re.search(r'([A-Za-z_0-9]+)$', p).group(1)
def ctor(n): return n in ('new', 'try_new') or n.startswith(('try_new', 'from_', 'try_from', 'with_', 'from'))
COMPUTE = '''and or compare scalar_cmp filter search_sorted search_sorted_many search_sorted_side_idx slice take try_cast fill_forward scalar_at scalar_at_unchecked subtract_scalar
    as_array into_array into_nullable is_empty is_null is_valid nullability to_logical to_metadata DTYPE eq_ignore_nullability'''
def base_voc(F):
    """always opaque: array constructors, the compute entry points and the operations of Validity"""
    r = F.__dict__.get('_base_voc')
    if r is None:
        r = set()
        for q in F.bodies:
            m = re.match(r'<(?:.*::)?([A-Za-z0-9_]+Array)>::([a-z_0-9]+)$', q)
            if m and ctor(m.group(2)): r.add('%s.%s' % m.groups())
        r |= set(COMPUTE.split())
        F._base_voc = r
    return r
def meta_fields(F):
    r = F.__dict__.get('_meta_fields')
    if r is None: r = F._meta_fields = {f[0] for p, a in F.adts.items() if p.startswith('vortex') and p.endswith('Metadata') and a['k'] == 'struct' for f in a['v'][0][2]}
    return r
def names(F):
    r = F.__dict__.get('_names')
    if r is None: r = F._names = {LASTW(p) for p in F.bodies if re.search(r'[A-Za-z_0-9]$', p)}
    return r
def check(c, kind, text, msg='must denote', extra=''):
    blocks = parse(text)
    known = BASE | set(PRIM) | set(WORD.findall(extra)) | meta_fields(c.F)
    for b in blocks:
        for x in b.exp: known |= set(WORD.findall(x))
        known |= set(WORD.findall(b.opt.get('voc', '')))
    soft = lambda b: b.opt.get('soft') == '1' or not re.match(r'<.* as .*>::\w+$', b.path)      # a helper may be renamed or merged into its callers, an operation of a trait may not
    gone = {LASTW(b.path) for b in blocks if soft(b) and b.path not in c.F.bodies}
    for b in blocks:
        voc = vocab(b.exp) | set(b.opt.get('voc', '').split(',')) | base_voc(c.F)
        if b.path not in c.F.bodies:
            if soft(b): c.notes.append('helper not present any more (not judged): ' + b.path); gone.add(LASTW(b.path)); continue
            c.viol('anchor-missing:' + b.path, 'the function this rule is anchored on no longer exists: ' + b.path); continue
        runs = []
        for pt in ptypes(b.opt):                            # a generic kernel is looked at for several native types
            o = dict(b.opt, ptype=pt) if pt else b.opt
            def look():
                try:
                    r, e = evaluate(c, b.path, o, voc)
                    return (r, e, flat([clean(x) for x in observed(r, e, o)])) if r is not None else None
                except (AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, RecursionError) as ex:
                    c.notes.append('not analysed (%r): %s' % (ex, b.path)); return None
            x = limited(40 if time.time() - T0 < 400 else 5, look)
            if x is None: c.notes.append('not analysed (budget): ' + b.path); continue
            r, e, got = x
            if pt != b.opt.get('ptype'):
                got = flat([as_type(x, pt, b.opt['ptype']) for x in got])
                if got in ([], ['never']): continue            # not a type this kernel takes
            if got not in [g for g, _, _ in runs]: runs.append((got, r, e))
        for got, r, e in runs: judge_block(c, kind, msg, b, got, r, e, known, gone)
def ptypes(opt):
    p = opt.get('ptype')
    if not p or opt.get('types') == '-': return [p]
    if 'types' in opt: return [p] + opt['types'].split(',')
    return [p] + [q for q in (('I32', 'U32', 'U64', 'I8') if p[0] in 'IU' else ('F32', 'F64')) if q != p]
def as_type(x, q, p):
    x = re.sub(r'\b(%s|%s|%s|%s)\b' % (p, q, p.lower(), q.lower()), lambda m: {q: p, p: q, q.lower(): p.lower(), p.lower(): q.lower()}[m.group(1)], x)
    return re.sub(r'(?<= is )[A-Z][A-Za-z0-9]*(?:\|[A-Z][A-Za-z0-9]*)+', lambda m: '|'.join(sorted(m.group(0).split('|'))), x)
def opt_rows(exp, got):
    """a filtered optional value against the same written as cases: its cases, those that give nothing left out"""
    o = [any(whole(split_top(x, ' <- ')[0], 'optfilter') for x in xs) for xs in (exp, got)]
    if o[0] == o[1]: return exp, got
    def rows(xs):
        out = []
        for x in xs:
            h, g = (split_top(x, ' <- ') + [''])[:2]; g = split_top(g, ' & ') if g else []
            if h == 'None': continue
            if whole(h, 'optfilter'):
                h, q = split_top(h[len('optfilter('):-1], ', '); g = g + split_top(q, ' & ')
            g = sorted({y for y in g if not (y.endswith(' is Some') and y[:-8] in h)}); out.append(h + (' <- ' + ' & '.join(g) if g else ''))
        return sorted(set(out))
    return rows(exp), rows(got)
def judge_block(c, kind, msg, b, got, r, e, known, gone):
        LOOPY[0] = loops_in(e, set(e.visited) | {b.path})
        exp = flat([clean(x) for x in b.exp]); ATOMS[0] = atoms(exp); SUBS[0] = subterms(exp)
        if b.opt.get('under') == '1':                       # the listed guards must hold; further ones (bounds checks passed on the way) may
            def sp(x): y = split_top(x, ' <- '); return y[0], set(split_top(y[1], ' & ')) if len(y) > 1 else set()
            ex = [(x, *sp(x)) for x in exp]
            got = sorted({next((x for x, t, g in ex if t == sp(y)[0] and g <= sp(y)[1]), None) or weaker(y, ex, sp, known) for y in got})
        if b.opt.get('guards') == '0': got, exp = (sorted({split_top(x, ' <- ')[0] for x in y}) for y in (got, exp))
        exp, got = opt_rows(exp, got)
        got = optional_last(exp, got)
        TRUST[0] = 'calls' not in b.opt or str(sites(r, b.opt)) == b.opt.get('n', str(sites(r, b.opt)))
        verdict, wrong, missing = judge_sets(exp, got, known)
        if verdict == 'bad':
            try: v2 = 'unk' if as_state(exp, got) else judge_sets(canon_rows(exp), canon_rows(got), known)[0]
            except (ValueError, IndexError): v2 = 'bad'
            if v2 == 'bad':
                try: v2 = 'ok' if leaves(map(canon, exp)) == leaves(map(canon, null_test(exp, untold(exp, got)))) else 'unk' if 'out' in b.opt and merged_paths(exp, got) else 'bad'
                except (ValueError, IndexError): pass
            if v2 != 'bad': verdict, wrong, missing = v2, [], []
        TRUST[0] = True
        if verdict == 'bad' and not wrong and re.match(r'(push|extend|index_mut|insert|append)\b', b.opt.get('calls', '')) and str(sites(r, b.opt)) != b.opt.get('n') and r.events: verdict = 'unk'; missing = []
        if verdict == 'bad' and not got and 'calls' in b.opt and b.opt['calls'].partition('#')[0] not in names(c.F) and r.events: verdict = 'unk'; missing = []     # a library operation that is not used any more
        if verdict == 'bad' and gone & {w for x in exp for w in WORD.findall(x)}: verdict = 'unk'; wrong = missing = []
        if verdict == 'unk':
            c.notes.append('not decided (unrecognised form): %s computes %s' % (b.path, ' || '.join(got)[:600])); 
        for x in wrong:
            c.req(False, kind, '%s:%s' % (b.path, 'result'), '%s %s\n          expected: %s\n          computes: %s' % (short(b.path), msg, '\n             or     '.join(exp), x), c.where(b.path))
        for x in missing:
            if wrong: break
            c.req(False, kind, '%s:%s' % (b.path, 'result'), '%s %s\n          expected: %s\n          computes: %s' % (short(b.path), msg, x, '\n             or     '.join(got)), c.where(b.path))
        for x in exp:
            if x in got: c.ob(kind, sample='%s = %s' % (short(b.path), x))
            elif not wrong and x not in missing: c.ob(kind + ' (undecided)')
        c.ob(kind + ' (functions)')

def borrow(file, name, rx=''):
    "blocks of another check's table: properties that rest on the same functions share their forms"
    import importlib.util
    s = importlib.util.spec_from_file_location('b_' + file, os.path.join(V, 'checks', file + '.py')); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    return '\n'.join(b for b in re.split(r'\n(?=@ )', getattr(m, name)) if re.search(rx, b.split('\n')[0] if b.strip().startswith('@') else b.strip().split('\n')[0]))
def run_tables(c, sections, msg, have=None, floor=None):
    listed = set()
    for kind, text in sections:
        check(c, kind, text, msg); listed |= {b.path for b in parse(text)}
    for p in sorted(p for p in c.F.bodies if have and re.search(have, p) and '{closure' not in p and p not in listed): c.notes.append('implementation outside the table (not judged): ' + p)
    if floor: c.floor(floor[0] + ' (functions)', floor[1])

if __name__ == '__main__':
    # dev: print current normal forms.  spec.py PATHREGEX args=.. voc=a,b,c
    opt = dict(x.split('=', 1) for x in sys.argv[2:])
    F = Facts(os.environ.get('VX_FACTS') or os.path.join(V, '.build/facts')); c = Check('X', F, {})
    import arr
    rx = re.compile(sys.argv[1])
    for p in sorted(F.bodies):
        if not rx.search(p) or '{closure' in p: continue
        so = arr.self_of(p)
        voc = set(opt.get('voc', '').split(','))
        voc |= base_voc(c.F)
        for q in F.bodies:
            m = re.match(r'<(?:.*::)?([A-Za-z0-9_]+Array)>::([a-z_0-9]+)$', q)
            if m and (so and q.startswith('<%s>' % so) or opt.get('all')) and not ctor(m.group(2)): voc.add(m.group(2))
        voc -= set(opt.get('drop', '').split(','))
        t = time.time()
        r, e = evaluate(c, p, opt, voc)
        print('@ %s%s' % (p, ''.join(' %s=%s' % (k, v) for k, v in opt.items() if k not in ('voc', 'all', 'drop'))), '' if time.time() - t < 5 else '# %.1fs' % (time.time() - t))
        if r is None: print('# budget'); continue
        for x in observed(r, e, opt): print(x[:int(opt.get('w', 3000))])
