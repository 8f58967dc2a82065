import json,sys,os,signal
signal.signal(signal.SIGPIPE, signal.SIG_DFL)
d=json.load(open('/verif/target/mir/%s.json'%sys.argv[1]))
T=d['types']
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        s+={'*':'.*','f':'.%s'%(e[1] if len(e)>1 else ''),'v':'@%s'%(e[1] if len(e)>1 else ''),'i':'[_%s]'%(e[1] if len(e)>1 else '')}.get(e[0],str(e))
    return s
def op(o):
    if o[0] in 'cm': return pl(o[1])
    if o[0]=='r': return 'RT'+o[1]
    k=o[1]
    return '{%s %s}'%(k['k'],(k.get('v') or k.get('key') or k.get('name') or (k.get('fn') or {}).get('rpath',''))) 
def rv(r):
    if r[0]=='use': return op(r[1])
    if r[0] in('ref','reborrow'): return '&%s %s'%(r[1],pl(r[2]))
    if r[0]=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if r[0]=='un': return '%s(%s)'%(r[1],op(r[2]))
    if r[0]=='cast': return 'cast[%s] %s -> %s'%(r[1],op(r[2]),T[r[3]]['s'])
    if r[0]=='discr': return 'discr '+pl(r[1])
    if r[0]=='agg': return 'agg %s (%s)'%(r[1][0]+(' '+T[r[1][1]]['s']+'#'+str(r[1][2]) if r[1][0]=='adt' else ''),', '.join(map(op,r[2])))
    return json.dumps(r)
for k,b in d['bodies'].items():
    if sys.argv[2] in k:
        print('=====',k, b['file'], b['line'],'argc',b['argc'], b['names'])
        for i,t in enumerate(b['locals']): print('  _%d: %s'%(i,T[t]['s']))
        for i,bl in enumerate(b['blocks']):
            if bl is None: continue
            print(' bb',i)
            for s in bl['s']: print('    ',(pl(s[1])+' = '+rv(s[2])) if s[0]=='=' else s)
            t=bl['t']
            if t[0]=='call':
                f=t[1][1].get('fn') if t[1][0]=='k' else None
                print('    -> %s = CALL %s <%s> [%s] (%s) -> %s'%(pl(t[3]), (f or {}).get('path',op(t[1])),','.join(T[x]['s'] for x in (f or {}).get('targs',[])), (f or {}).get('key') and 'B', ', '.join(map(op,t[2])), t[4]))
            else: print('    ->',json.dumps(t)[:300])
