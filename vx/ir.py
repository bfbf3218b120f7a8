"""Fact store: loads the JSON facts the rustc driver wrote and indexes them."""
import json, glob, os, re, collections

class Facts:
    def __init__(self, d, skip=()):
        self.bodies = {}; self.adts = {}; self.impls = []; self.consts = {}; self.crates = []
        self.crate_of = {}
        for f in sorted(glob.glob(os.path.join(d, '*.json'))):
            name = os.path.basename(f)[:-5]
            if name in skip or name.startswith('_'): continue
            j = json.load(open(f))
            self.crates.append(j['crate'])
            for b in j['bodies']:
                n = b['n']
                if n in self.bodies:            # two `const _: ()` blocks etc.
                    i = 1
                    while '%s@%d' % (n, i) in self.bodies: i += 1
                    n = b['n'] = '%s@%d' % (n, i)
                self.bodies[n] = b
                self.crate_of[n] = j['crate']
            for a in j['adts']:
                if a['n'] not in self.adts or 'file' in a: self.adts[a['n']] = a
            for i in j['impls']: i['crate'] = j['crate']; self.impls.append(i)
            for c in j['consts']: self.consts[c['n']] = c
        # trait -> selfty -> {name: itempath}
        self.timpl = collections.defaultdict(dict); self.ntimpl = collections.Counter()
        self.types = collections.defaultdict(dict)
        for i in self.impls:
            if not i['trait']: continue
            d = {}
            for it in i['items']: d[it.rsplit('::', 1)[1]] = it
            self.timpl[i['traitref']][i['self']] = d
            self.timpl[i['trait']].setdefault(i['self'], d)
            self.ntimpl[(i['trait'], i['self'])] += 1
            for nm, ty in i['types']: self.types[(i['trait'], i['self'])][nm] = ty
        self.children = collections.defaultdict(list)
        for n in self.bodies:
            p = n.rfind('::{closure#')
            if p > 0: self.children[n[:p]].append(n)

    def closures_of(self, n):
        r = []
        for c in self.children.get(n, ()):
            r.append(c); r += self.closures_of(c)
        return r

    def variants(self, adt):
        a = self.adts.get(adt)
        return None if not a else [v[0] for v in a['v']]

    def discr_map(self, adt):
        a = self.adts.get(adt)
        if not a or a['k'] != 'enum': return None
        m = {}
        for v in a['v']:
            if v[1] is None: return None
            m[str(v[1])] = v[0]
        return m

def base_ty(t):
    """strip references and generic arguments: '&mut a::B<C>' -> 'a::B'"""
    while True:
        if t.startswith('&mut '): t = t[5:]
        elif t.startswith('&'): t = t[1:]
        else: break
    i = t.find('<')
    if i > 0: t = t[:i]
    return t

def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([{': d += 1
        elif ch in '>)]}': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def ty_args(t):
    i = t.find('<')
    return split_args(t[i+1:-1]) if i > 0 and t.endswith('>') else []
