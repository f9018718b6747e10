#!/bin/bash
# t.sh config scen seed0 count [scenario] [seconds]   (development helper: 8 workers, summary of violation classes)
cd /verif; python3 build.py $1 $2 > /tmp/t_exe.$$ 2>/tmp/t_err.$$ || { grep -E "error|undefined" -A3 /tmp/t_exe.$$ | cut -c1-300 | head -40; exit 1; }
E=$(tail -1 /tmp/t_exe.$$)
for w in 0 1 2 3 4 5 6 7; do $E explore --scenario ${5:-$2} --seed0 $(($3+w)) --stride 8 --count $(($4/8)) --maxviol 1000 > /tmp/t_o.$$.$w 2>/dev/null & done; wait
cat /tmp/t_o.$$.* | python3 -c "
import sys,json,collections
c=collections.Counter(); ex={}; n=0; steps=0; st=collections.Counter()
for l in sys.stdin:
    try: r=json.loads(l)
    except ValueError: print('BAD', l[:200]); continue
    n+=1; steps+=r.get('steps',0); c[r['cls']]+=1
    for k,v in r.get('stats',{}).items(): st[k]+=v
    if r['cls']: ex.setdefault(r['cls'],[]).append((r.get('steps',0),r['seed'],r['msg']))
print(n,'runs',steps,'steps',dict(c)); print(dict(st))
for k,v in ex.items():
    for t,s,m in sorted(v)[:3]: print(k,s,t,m)
"; rm -f /tmp/t_*.$$*
