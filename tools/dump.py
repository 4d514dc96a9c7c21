"""python3 tools/dump.py ID|substring : print an instance's MIR"""
import sys
sys.path.insert(0,'/verif')
from eastlint import facts
F=facts.load()
T=F.types
def tn(i):
    t=T[i];k=t['k']
    if k=='param' : return t.get('name','?')
    if k=='adt': return t['path'].split('::')[-1]+('<'+','.join(tn(a) if isinstance(a,int) else str(a) for a in t['args'])+'>' if t.get('args') else '')
    if k in('ref','ptr'): return ('&' if k=='ref' else '*')+('mut ' if t.get('mut') else '')+tn(t['t'])
    if k=='slice': return '['+tn(t['t'])+']'
    if k=='array': return '[%s;%s]'%(tn(t['t']),t.get('n'))
    if k=='tuple': return '('+','.join(map(tn,t['ts']))+')'
    if k=='int': return ('i' if t['signed'] else 'u')+str(t['bits'])
    return k+':'+str(t.get('path') or t.get('name') or i)
def pl(p):
    s='_%d'%p[0]
    for q in p[1:]:
        s+= '.*' if q=='*' else '.%d'%q[1] if q[0]=='f' else '[_%d]'%q[1] if q[0]=='i' else '.v%s'%q[1] if q[0]=='d' else str(q)
    return s
def op(o):
    if o[0] in('copy','move'): return ('' if o[0]=='copy' else 'mv ')+pl(o[1])
    if o[0]=='const':
        c=o[1]
        if 'fn' in c: return 'fn '+c['fn']['path']
        if len(str(c))>160: return 'const{%s}'%','.join(c)
        return 'const'+str(c)
    return str(o)
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k in('ref','raw'): return '&%s %s %s'%(k,r[1],pl(r[2]))
    if k=='cast': return 'cast %s %s as %s'%(r[1],op(r[2]),tn(r[3]))
    if k=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if k=='agg': return 'agg %s (%s)'%(r[1],','.join(map(op,r[2])))
    return str([x if not isinstance(x,list) else (op(x) if x and x[0] in('copy','move','const') else pl(x) if x and isinstance(x[0],int) else x) for x in r])
def dump(i):
    b=i['body']
    print('#%d %s args=%s %s'%(i['id'],i['path'],[tn(a) if isinstance(a,int) else a for a in i['args']],i.get('span')))
    if not b: print('  no body');return
    print('  argc',b['argc'],'spread',b.get('spread'))
    for n,l in enumerate(b['locals']): print('   _%d: %s'%(n,tn(l)), end=';')
    print()
    for bi,(ss,t,c) in enumerate(b['blocks']):
        print(' bb%d%s'%(bi,' (cleanup)' if c else ''))
        for s in ss:
            if s[0] in('live','dead'): continue
            print('    ', pl(s[1])+' = '+rv(s[2]) if s[0]=='=' else s)
        if t and t[0]=='call':
            f=t[1].get('fn') if isinstance(t[1],dict) else t[1]
            nm=('%s<%s>->%s#%s %s'%(f['path'],','.join(tn(a) if isinstance(a,int) else str(a) for a in f['targs']),f.get('rpath'),f.get('inst'),f.get('rkind'))) if isinstance(f,dict) else str(t[1])
            print('     call',pl(t[3]),'=',nm,'(',', '.join(map(op,t[2])),') ->',t[4],'unw',t[5])
        elif t and t[0]=='drop': print('     drop',pl(t[1]),tn(t[2]),'->',t[3],'unw',t[4])
        elif t and t[0]=='switch': print('     switch',op(t[1]),t[2],t[3])
        else: print('    ',t)
if __name__=='__main__':
    for a in sys.argv[1:]:
        for i in F.insts:
            if (a.isdigit() and i['id']==int(a)) or (not a.isdigit() and a in i['path']): dump(i)
