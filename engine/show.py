import json,sys
d=json.load(open(sys.argv[1]))
T=d['types']
def op(o):
    if o[0]=='k': return 'const(%s: %s%s)'%(json.dumps(o[2])[:80],T[o[1]]['s'][:60],' '+str(o[3]) if len(o)>3 and o[3] else '')
    return ('move ' if o[0]=='mv' else '')+pl(o[1])
def pl(p):
    s='_%d'%p[0]
    for x in p[1]:
        if x=='*': s='(*%s)'%s
        elif x[0]=='f': s+='.%d'%x[1]
        elif x[0]=='i': s+='[_%d]'%x[1]
        else: s+=str(x)
    return s
for i in map(int,sys.argv[2:]):
    f=d['fns'][i]
    print('###',i,f['p'],[T[t]['s'] for t in f['a']],'argc',f['argc'],'spread',f.get('spread'))
    for l,t in enumerate(f['locals']): print('  _%d: %s'%(l,T[t]['s'][:100]))
    print(f['names'])
    for bi,b in enumerate(f['blocks']):
        if b['c']: continue
        print(' bb%d:'%bi)
        for s in b['s']:
            if s[0]=='=':
                r=s[2]
                k=r[0]
                if k=='use': rs=op(r[1])
                elif k=='ref': rs='&'+str(r[1])+' '+pl(r[2])
                elif k=='cast': rs='cast '+r[1]+' '+op(r[2])+' -> '+T[r[3]]['s']
                elif k=='bin': rs=r[1]+'('+op(r[2])+', '+op(r[3])+')'
                elif k=='un': rs=r[1]+'('+op(r[2])+')'
                elif k=='discr': rs='discr '+pl(r[1])
                elif k=='agg': rs='agg %s [%s]'%(r[1],', '.join(map(op,r[2])))
                elif k=='repeat': rs='[%s; %s]'%(op(r[1]),r[2])
                else: rs=str(r)
                print('   ',pl(s[1]),'=',rs)
            else: print('   ',s)
        t=b['t']
        if t[0]=='call':
            c=t[1]
            print('   ',pl(t[3]),'= CALL',c.get('p') or c,[T[x]['s'] for x in c.get('a',[])],'->',c.get('r'),c.get('rk'),c.get('id'),'(',', '.join(map(op,t[2])),') ->',t[4], {k:v for k,v in c.items() if k not in('p','a','r','id','rk')})
        elif t[0]=='switch': print('    switch',op(t[1]),t[2],t[3])
        else: print('   ',t)
