import json,collections,sys
d=json.load(open('/verif/.cache/mir.json'))
c=collections.Counter()
for f in d['fns']:
    if not f['mono'] or 'blocks' not in f or f['k'] not in sys.argv[1:]: continue
    for b in f['blocks']:
        t=b['t']
        if t[0]=='call' and 'p' in t[1] and 'id' not in t[1]: c[t[1]['p']]+=1
for p,n in c.most_common(): print(n,p,end=' ; ')
print([k for k in list(d['impls'])[:5]])
