# regenerates Library.tla from the list of areas
AREAS=[l.split() for l in open('/verif/tools/areas.txt') if l.strip()]
import sys
sys.path.insert(0,'/verif/bin')
from plan import PLAN
out=['------------------------------ MODULE Library -------------------------------',
'(***************************************************************************)',
'(* The whole library: which operations belong to which property, what each *)',
'(* call may return, and how its arguments are drawn.                       *)',
'(***************************************************************************)',
'EXTENDS '+', '.join(m for m,_ in AREAS),'',
'PropOps == [']
rows=[]
for p,d in PLAN.items():
    if d.get('gen'): continue
    rows.append('    %s |-> << %s >>'%(p,', '.join('"%s"'%o for o in d['ops'])))
out.append(',\n'.join(rows)+' ]\n')
for name,sig in (('Accept','op, a, r'),('Gen','op, k'),('Directed','op')):
    out.append('%s(%s) =='%(name,sig))
    for i,(m,pre) in enumerate(AREAS):
        out.append('    %s op \\in %sOps -> %s%s(%s)'%('CASE' if i==0 else '  []',pre,pre,name,sig))
out.append('NoMix == '+' \\cup '.join(pre+'NoMix' for _,pre in AREAS))
out.append('='*77)
open('/verif/spec/Library.tla','w').write('\n'.join(out)+'\n')
