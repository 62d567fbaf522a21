"""Pretty printer for dumped MIR (debugging aid)."""
import json, sys
def tyname(D,i): return D['types'][i]['s']
def pl(p):
    s='_%d'%p['l']
    for e in p['p']:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        elif e[0]=='d': s+='@%d'%e[1]
        else: s+=str(e)
    return s
def op(D,o):
    if 'c' in o or 'const' in o: pass
    k=list(o.keys())
    if 'pl' in o: return ('move ' if o.get('mv') else '')+pl(o['pl'])
    return json.dumps({a:b for a,b in o.items() if a!='sp'})[:300]
def fn(D,o):
    return json.dumps(o)
def dump(D,key):
    b=D['bodies'][key]
    print(key,b['kind'],b['phase'],'args',b['args'],b['span'])
    for i,l in enumerate(b['locals']): print('  let _%d: %s  %s'%(i,tyname(D,l),b['names'].get(str(i),'') if isinstance(b['names'],dict) else ''))
    for i,blk in enumerate(b['blocks']):
        if not blk: continue
        print(' bb%d:'%i)
        for s in blk['s']:
            if s['k']=='=': 
                r=s['rv']; print('    %s = %s'%(pl(s['pl']),rv(D,r)))
            elif s['k'] in('dead','live'): pass
            else: print('    ',s)
        t=blk['t']; print('   ',term(D,t),'//',t['sp'])
def rv(D,r):
    k=r['r']
    if k=='use': return op(D,r['o'])
    if k=='ref': return '&'+pl(r['pl'])
    if k=='bin': return '%s(%s, %s)'%(r['op'],op(D,r['a']),op(D,r['b']))
    if k=='un': return '%s(%s)'%(r['op'],op(D,r['a']))
    if k=='cast': return '%s as %s [%s]'%(op(D,r['o']),tyname(D,r['ty']),r['k'])
    if k=='agg': return 'agg %s %s v%s (%s)'%(r['k'],tyname(D,r['ty']) if 'ty' in r else '',r.get('variant'),', '.join(op(D,x) for x in r['ops']))
    if k in('discr','copyderef'): return k+' '+pl(r['pl'])
    return json.dumps(r)[:200]
def callee(D,f):
    return json.dumps(f)[:250]
def term(D,t):
    k=t['k']
    if k=='call':
        f=t['f']; c=f.get('const',f)
        n=None
        x=f
        while isinstance(x,dict) and 'path' not in x:
            nx=None
            for q in ('fn','const','c','v'):
                if q in x and isinstance(x[q],dict): nx=x[q]; break
            if nx is None: break
            x=nx
        n=x.get('rpath') or x.get('path') or json.dumps(f)[:200]
        extra=' KEY' if x.get('key') else ' nokey'
        return '%s = call %s[%s%s](%s) -> %s'%(pl(t['dst']),n,x.get('ikind'),extra,', '.join(op(D,a) for a in t['args']),t['to'])
    if k=='switch': return 'switch %s %s else %s'%(op(D,t['o']),t['targets'],t['otherwise'])
    return json.dumps({a:b for a,b in t.items() if a!='sp'})[:300]
if __name__=='__main__':
    D=json.load(open('/verif/.work/dump.json'))
    for k in D['bodies']:
        if all(x in k for x in sys.argv[1:]): dump(D,k)
