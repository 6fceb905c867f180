import json,sys
seen=set(a for a in sys.argv[1:])
n={}
for l in open('/tmp/mut/log.jsonl'):
    d=json.loads(l); n[d['res']]=n.get(d['res'],0)+1
    if d['res'] in('SURVIVED','INFRA') and (not seen or d['f'] in seen): print('%s:%d %s\n    - %s\n    + %s %s'%(d['f'],d['i']+1,d['kind'],d['old'],d['new'].strip(), d['by'] if d['res']=='INFRA' else ''))
print(n)
