import json, sys,sys
for f in sys.argv[1:]:
    d=json.load(open(f)); print('#',f,d['msg'][:300]); x=d['detail']
    if isinstance(x,dict):
        for k,v in x.items():
            if k=='events': print(' events:'); print('   '+'\n   '.join(v[:60]))
            elif k == 'calls':
                for c in v: print('  CALL', {a:b for a,b in c.items() if a!='events'}); print('     '+'\n     '.join(c.get('events',[])[:45]))
            else: print(' ',k,v)
    else: print(x)
