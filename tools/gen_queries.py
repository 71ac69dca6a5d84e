# Writes harness/src/qtable.rs: the fixed set of typed query tuples the workloads use.
import random
r=random.Random(20210308)
NK=24
out=["// generated by tools/gen_queries.py","use crate::kinds::*;","use crate::q;","use crate::queries::*;","use arche_tape::EcsIds;",""]
qs=[]
def add(parts): 
    if parts not in qs: qs.append(parts)
# single kinds, shared and mutable
for k in range(NK):
    add((("m" if k%2 else "r",k),))
add((("e",None),))
add((("e",None),("r",3)))
add((("r",3),("e",None)))
add((("e",None),("e",None)))
add((("r",3),("r",3)))
add((("r",14),("e",None),("r",14)))
for n in (2,2,2,2,2,2,3,3,3,3,3,3,4,4,4,4,4,5,5,5,5,6,6,6,7,7,7,8,8,8,9,9,9,10,10,10,10,10):
    ks=r.sample(range(NK),n)
    parts=[(r.choice("rm"),k) for k in ks]
    if r.random()<0.6:
        parts[r.randrange(n)]=("e",None)
    add(tuple(parts))
names=[]
for i,q in enumerate(qs):
    tys=[{"r":f"&'static C{k}","m":f"&'static mut C{k}","e":"EcsIds"}[m] for m,k in q]
    vs=[f"v{j}" for j in range(len(q))]
    out.append(f"q!(Q{i}, {', '.join(v+': '+t for v,t in zip(vs,tys))});")
    names.append(f"Q{i}")
out.append("")
out.append(f"pub static QUERIES: [Query; {len(names)}] = [{', '.join(names)}];")
open("/verif/harness/src/qtable.rs","w").write("\n".join(out)+"\n")
print(len(names))
