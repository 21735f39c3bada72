import sys,random
sys.path.insert(0,'/verif');sys.argv=[sys.argv[0]]+sys.argv[1:]
src=open('/verif/tools/test_expr.py').read().split("n=0\nfor it")[0]
exec(src)
from hmsym import solve as S
for it in range(600):
    w=random.choice([64,8,32,1])
    e,f=gen(w,random.randint(1,4))
    m={v:random.getrandbits(v.w) for v in vs}
    y=f(m)
    cons=[X.eq(v.w,v,m[v]) for v in vs]+[X.eq(w,e,y)]
    r=S.check(cons); assert r[0]=='sat',(e,r)
    cons[-1]=X.not_(cons[-1])
    r=S.check(cons); assert r[0]=='unsat' or r[0]=="unknown",(e,r)
print(S.stats.d())
