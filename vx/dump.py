import json,sys,glob
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='*'+s
        elif e[0]=='f': s+='.%s'%(e[2] if len(e)>2 and e[2] else e[1])
        elif e[0]=='v': s='(%s as %s)'%(s,e[2] if len(e)>2 else e[1])
        else: s+=str(e)
    return s
def op(o):
    if o[0] in 'cm' and len(o)==2 and o[0]!='k': return pl(o[1])
    k=o[1]
    if 'fn' in k:
        f=k['fn']; return 'fn '+str({a:b for a,b in f.items()})
    return 'const '+json.dumps(k)
def rv(r):
    return json.dumps(r)
def dump(b):
    print('##',b['n'],b['k'],b.get('file'),b.get('line'),{k:v for k,v in b.items() if k not in('b','locals','n','k','file','line')})
    for i,l in enumerate(b['locals']): print('  let _%d: %s'%(i,l))
    for i,(st,t) in enumerate(b['b']):
        if t==['resume'] and not st: continue
        print(' bb%d:'%i)
        for s in st: print('    %s = %s'%(pl(s[0]),json.dumps(s[1])))
        if t[0]=='call': print('    CALL %s = %s(%s) -> %s'%(pl(t[3]),op(t[1]),', '.join(op(a) for a in t[2]),t[4]))
        else: print('   ',json.dumps(t))
if __name__=='__main__':
    for f in glob.glob('/verif/.build/facts/*.json'):
        d=json.load(open(f))
        for b in d['bodies']:
            if sys.argv[1] in b['n']: dump(b)
