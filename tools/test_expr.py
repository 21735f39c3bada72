import random,sys
sys.path.insert(0,'/verif')
from hmsym import expr as X
import z3
random.seed(int(sys.argv[1]) if len(sys.argv)>1 else 1)
vs=[X.var("v%d"%i,64) for i in range(3)]+[X.var("b%d"%i,8) for i in range(2)]+[X.var("c%d"%i,1) for i in range(2)]
def raw(op,w,*a): return (op,w,a)
def gen(w,d):
    e,f=gen0(w,d)
    for k in range(3):
        m={v:random.choice([0,1,X.MASK[v.w],random.getrandbits(v.w)]) for v in vs}
        if X.ev(e,m)!=f(m):
            print("INNER",e,hex(X.ev(e,m)),hex(f(m)),m,LAST); sys.exit(1)
    return e,f
LAST=[None]
def gen0(w,d):
    """returns (E simplified, python closure evaluating naive)"""
    r=random.random()
    if d==0 or r<0.1:
        c=[v for v in vs if v.w==w]
        if c and random.random()<0.7:
            v=random.choice(c); return v,(lambda m,v=v:m[v])
        k=random.choice([0,1,X.MASK[w],1<<(w-1),random.getrandbits(w),random.getrandbits(w)&7 & X.MASK[w]])
        return k,(lambda m,k=k:k)
    M=X.MASK[w]
    ops=['add','sub','mul','and','or','xor','shl','lshr','ashr','ite','udiv','urem','zx','ex','cat','sx','sdiv','srem','cttz','ctlz','ctpop','fshl']
    if w==1: ops=['eq','ne','ult','ule','slt','sle','and','or','xor','ite','not']
    o=random.choice(ops)
    if o in('eq','ne','ult','ule','slt','sle'):
        ww=random.choice([64,8,1,16]); a,fa=gen(ww,d-1); b,fb=gen(ww,d-1)
        s=lambda v,ww=ww: v-(1<<ww) if v>>(ww-1) else v
        fn={'eq':lambda x,y:x==y,'ne':lambda x,y:x!=y,'ult':lambda x,y:x<y,'ule':lambda x,y:x<=y,'slt':lambda x,y:s(x)<s(y),'sle':lambda x,y:s(x)<=s(y)}[o]
        LAST[0]=(o,ww,a,b)
        return getattr(X,o)(ww,a,b),(lambda m:int(fn(fa(m),fb(m))))
    if o=='not':
        a,fa=gen(1,d-1); return X.not_(a),lambda m:1-fa(m)
    if o=='ite':
        c,fc=gen(1,d-1);a,fa=gen(w,d-1);b,fb=gen(w,d-1)
        LAST[0]=('ite',w,c,a,b)
        return X.ite(w,c,a,b),lambda m:fa(m) if fc(m) else fb(m)
    if o=='zx':
        ww=random.choice([x for x in(1,8,16,32,64) if x<=w] or [w]); a,fa=gen(ww,d-1); return X.zext(w,a),fa
    if o=='sx':
        ww=random.choice([x for x in(1,8,16,32,64) if x<=w] or [w]); a,fa=gen(ww,d-1)
        return X.sext(w,a,ww),lambda m:(lambda v:(v-(1<<ww) if v>>(ww-1) else v)&M)(fa(m))
    LAST[0]=o
    if o=='ex':
        ww=random.choice([x for x in(8,16,32,64,128) if x>=w]); lo=random.randint(0,ww-w); a,fa=gen(ww,d-1)
        return X.extract(a,lo+w-1,lo),lambda m:(fa(m)>>lo)&M
    if o=='cat':
        wb=random.choice([w//2, max(1,min(8,w-1))]); a,fa=gen(w-wb,d-1);b,fb=gen(wb,d-1)
        return X.concat(a,w-wb,b,wb),lambda m:(fa(m)<<wb)|fb(m)
    if o in('cttz','ctlz','ctpop'):
        a,fa=gen(w,d-1); return getattr(X,o)(w,a),lambda m:getattr(X,o)(w,fa(m))
    a,fa=gen(w,d-1);b,fb=gen(w,d-1)
    if o in('shl','lshr','ashr') and random.random()<0.6:
        k=random.randint(0,w-1);b=k;fb=lambda m:k
    if o in('and','or','xor','udiv','urem','mul','add') and random.random()<0.5:
        k=random.choice([0,1,7,15,0xff00,M,M-7&M,random.getrandbits(w)])&M;b=k;fb=lambda m:k
    if o=='fshl':
        k=random.randint(0,w-1)
        return X.fshl(w,a,b,k),lambda m:((fa(m)<<k)|(fb(m)>>(w-k)))&M
    LAST[0]=(o,w,a,b)
    name={'and':'and_','or':'or_'}.get(o,o)
    s=lambda v: v-(1<<w) if v>>(w-1) else v
    def sd(x,y):
        if y==0: return M if s(x)>=0 else 1
        x,y=s(x),s(y);q=abs(x)//abs(y); return (q if (x<0)==(y<0) else -q)&M
    def sr(x,y):
        if y==0:return x
        x,y=s(x),s(y);q=abs(x)%abs(y); return (q if x>=0 else -q)&M
    fn={'add':lambda x,y:(x+y)&M,'sub':lambda x,y:(x-y)&M,'mul':lambda x,y:(x*y)&M,'and':lambda x,y:x&y,'or':lambda x,y:x|y,'xor':lambda x,y:x^y,
     'shl':lambda x,y:(x<<y)&M if y<w else 0,'lshr':lambda x,y:x>>y,'ashr':lambda x,y:(s(x)>>min(y,w-1))&M,'udiv':lambda x,y:x//y if y else M,'urem':lambda x,y:x%y if y else x,'sdiv':sd,'srem':sr}[o]
    return getattr(X,name)(w,a,b),lambda m:fn(fa(m),fb(m))
n=0
for it in range(30000):
    w=random.choice([64,64,8,1,16,32,128])
    e,f=gen(w,random.randint(1,5))
    for k in range(4):
        m={v:random.choice([0,1,X.MASK[v.w],random.getrandbits(v.w),random.getrandbits(v.w)&15&X.MASK[v.w]]) for v in vs}
        x,y=X.ev(e,m),f(m)
        if x!=y: print("MISMATCH",e,hex(x),hex(y),m); sys.exit(1)
        if isinstance(e,X.E):
            assert e.lo<=y<=e.hi and y&e.kz==0,("range",e,e.lo,e.hi,hex(e.kz),hex(y))
            s=X.subst(e,m); assert s==y,("subst",s,y)
            n+=1
        else: assert e==y
print("ok",n)
