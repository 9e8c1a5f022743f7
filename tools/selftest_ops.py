import random,subprocess,os,shutil
random.seed(int(os.environ.get('S','1')))
T={'int8':(8,1),'uint8':(8,0),'int16':(16,1),'uint16':(16,0),'int32':(32,1),'uint32':(32,0),'int64':(64,1),'uint64':(64,0),'int':(64,1)}
def wrap(v,t):
    b,s=T[t]; v&=(1<<b)-1
    return v-(1<<b) if s and v>>(b-1) else v
def rng(t):
    b,s=T[t]; return (-(1<<(b-1)),(1<<(b-1))-1) if s else (0,(1<<b)-1)
def const(t,nz=False):
    lo,hi=rng(t)
    while True:
        c=random.choice([0,1,2,3,5,7,8,15,16,0x7f,0x80,0xff,0x7fff,hi,lo,lo+1,hi//2,-1,-2,-8,random.randint(lo,hi)])
        if lo<=c<=hi and not(nz and c==0): return c
def gen(t,d):
    # returns (expr string, eval func(env))
    if d==0:
        v=random.choice('xy'); 
        return f'{t}({v})',lambda e,v=v,t=t: wrap(e[v],t)
    k=random.choice(['bin','bin','bin','sh','conv','and','or','not','neg'])
    if k=='bin':
        op=random.choice('+-*/%')
        a,fa=gen(t,d-1)
        c=const(t,True) 
        if op in '/%':
            if c==-1: c=3
            def f(e):
                x=fa(e); q=abs(x)//abs(c); q=q if (x<0)==(c<0) else -q
                return wrap(q,t) if op=='/' else wrap(x-c*q,t)
            return f'({a} {op} ({c}))',f
        if random.random()<.5 or op=='*':
            return f'({a} {op} ({c}))',lambda e: wrap({'+':fa(e)+c,'-':fa(e)-c,'*':fa(e)*c}[op],t)
        b,fb=gen(t,d-1)
        return f'({a} {op} {b})',lambda e: wrap({'+':fa(e)+fb(e),'-':fa(e)-fb(e)}[op],t)
    if k=='sh':
        a,fa=gen(t,d-1); n=random.choice([0,1,2,3,4,7,8,15,31,33,63,64,70])
        if random.random()<.5: return f'({a} << {n})',lambda e: wrap(fa(e)<<n,t)
        return f'({a} >> {n})',lambda e: fa(e)>>n
    if k=='conv':
        t2=random.choice(list(T)); a,fa=gen(t2,d-1)
        return f'{t}({a})',lambda e: wrap(fa(e),t)
    if k=='and':
        a,fa=gen(t,d-1); c=const(t); op=random.choice(['&','&','&^'])
        return f'({a} {op} ({c}))',lambda e: wrap(fa(e)&c if op=='&' else fa(e)&~c,t)
    if k=='or':
        # mask low | high
        a,fa=gen(t,d-1); b,fb=gen(t,d-1); n=random.choice([1,3,4,7])
        return f'(({a} << {n}) | ({b} & {(1<<n)-1}))',lambda e: wrap((fa(e)<<n)|(fb(e)&((1<<n)-1)),t)
    if k=='not':
        a,fa=gen(t,d-1); return f'(^{a})',lambda e: wrap(~fa(e),t)
    a,fa=gen(t,d-1); return f'(-{a})',lambda e: wrap(-fa(e),t)
go=['package amino']; sp=[]; tests=[]
N=int(os.environ.get('N','150'))
for i in range(N):
    tx,ty,t=random.choice(list(T)),random.choice(list(T)),random.choice(list(T))
    e,f=gen(t,random.choice([1,2,2,3]))
    lx,hx=rng(tx); ly,hy=rng(ty)
    pts=[(random.choice([lx,hx,0 if lx==0 else -1,1,random.randint(lx,hx)]),random.choice([ly,hy,0 if ly==0 else -1,1,random.randint(ly,hy)])) for _ in range(6)]
    go.append(f'func zzop{i}(x {tx}, y {ty}) {t} {{ return {e} }}')
    go.append(f'func zzt{i}(x {tx}, y {ty}, v {t}) {{ if zzop{i}(x, y) != v {{ println("WRONG", {i}, x, y, v, zzop{i}(x, y)) }} }}')
    sp.append(f'func "zzop{i}" (x, y) (r)')
    for a,b in pts:
        v=f({'x':a,'y':b}); sp.append(f'  ensures x == {a} && y == {b} ==> r == {v}'); tests.append(f'  zzt{i}({a}, {b}, {v})')
go.append('func ZZ() {'); go+=tests; go.append('}')
import tempfile; _t=tempfile.mkdtemp(); R=_t+'/repo'; S=_t+'/spec'
for d in (R,S): subprocess.run(['rm','-rf',d])
shutil.copytree('/repo',R,ignore=shutil.ignore_patterns('.git')); shutil.copytree('/verif/contracts',S)
open(R+'/zzops.go','w').write('\n'.join(go)+'\n'); open(S+'/99ops.spec','w').write('\n'.join(sp)+'\n')
open(R+'/zz_x_test.go','w').write('package amino\nimport "testing"\nfunc TestZZ(t *testing.T) { ZZ() }\n')
o=subprocess.run(['go','test','-run','TestZZ','.'],cwd=R,capture_output=True,text=True); print('go:',o.stdout[-600:],o.stderr[-1500:])
keys=','.join(f'zzop{i}' for i in range(N))
o=subprocess.run(['/tmp/gover','-repo',R,'-spec',S,'-func',keys,'-procs','7'],capture_output=True,text=True).stdout
ok=sum(l.startswith('ok   zzop') for l in o.split('\n')); print('ok',ok,'of',N)
bad=[l for l in o.split('\n') if l.startswith('FAIL')]
for l in bad[:12]:
    i=int(l.split()[1][4:]); print(l[:100]); print('   ',go[1+2*i][:300])
