import json,sys
W=700
for f in sys.argv[1:]:
    if f.startswith('-w'): W=int(f[2:]); continue
    d=json.load(open(f)); v=d['first']; t=v['trace']; n=v['step']
    print('=====',f,d['occurrences'],v['clauses'],v['tag'],n,str({k:x for k,x in t.items() if k!='steps'})[:W])
    S=t['steps']
    for i in range(max(1,n-2),min(n,len(S))+1):
        s=S[i-1]
        for k in (s if isinstance(s,dict) else {}): print('  ',i,k,json.dumps(s[k])[:W])
    print('  EXP',json.dumps(v.get('expected'))[:W])
