import json,sys
d=json.load(open(sys.argv[1]))
def show(x):
    p=x['detail']['prog']; print(x['what'][:200], 'sync',p['sync'],'roots',p['roots'])
    for i,t in enumerate(p['t'],1): print('  ',i,'raw' if t['raw'] else '',t['kind'],[(s['k'],s['n'],s['cs'],s['c']) for s in t['body']])
    if x['detail']['log']: print('   ',[(e['e'],e['t'],e['i'],e['r'],e['g']) for e in x['detail']['log']])
for x in sorted(d,key=lambda x:len(json.dumps(x['detail']['prog'])))[:int(sys.argv[2])]: show(x)
