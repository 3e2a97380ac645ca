#!/usr/bin/env python3
"""qfbv.py SEED N: compares the values of N random QF_BV formulas in Smt.tla with z3's.

Validates the specification, not the code; no check depends on it.
"""
import tempfile, os, glob, shutil
import random,json,subprocess,sys
HERE=os.path.dirname(os.path.abspath(__file__))
TMP=tempfile.mkdtemp()
R=random.Random(int(sys.argv[1])); N=int(sys.argv[2])
def lit(w):
    v=R.choice([0,1,(1<<w)-1,1<<(w-1),R.randrange(1<<w)])%(1<<w)
    k=R.randrange(3)
    if k==0 and w%4==0: return '#x%0*x'%(w//4,v)
    if k==1: return '#b'+format(v,'0%db'%w)
    return '(_ bv%d %d)'%(v,w)
def term(w,d):
    if d<=0 or R.random()<.15:
        if w in VW and R.random()<.6: return R.choice(VW[w])
        return lit(w)
    k=R.randrange(24)
    t=lambda w=w:term(w,d-1)
    if k<5: return '(%s %s %s)'%(R.choice(['bvadd','bvsub','bvand','bvor','bvxor','bvmul']),t(),t())
    if k<6: return '(%s %s)'%(R.choice(['bvnot','bvneg']),t())
    if k<12: return '(%s %s %s)'%(R.choice("bvnand bvnor bvxnor bvudiv bvurem bvsdiv bvsrem bvsmod bvshl bvlshr bvashr bvmul".split()),t(),t() if R.random()<.6 else lit2(w))
    if k<13: return '(ite %s %s %s)'%(boo(d-1),t(),t())
    if k<14:
        w2=R.choice([1,3,8,16,w]); n='l%d'%R.randrange(1000)
        a=term(w2,d-1); VW.setdefault(w2,[]).append(n); r='(let ((%s %s)) %s)'%(n,a,term(w,d-1)); VW[w2].remove(n)
        if not VW[w2]: del VW[w2]
        return r
    if k<15: return '((_ %s %d) %s)'%(R.choice(['rotate_left','rotate_right']),R.randrange(0,2*w),t())
    if k<17 and w>1:
        w1=R.randrange(1,w); return '(concat %s %s)'%(term(w1,d-1),term(w-w1,d-1))
    if k<19:
        w2=w+R.randrange(0,9); j=R.randrange(0,w2-w+1); return '((_ extract %d %d) %s)'%(j+w-1,j,term(w2,d-1))
    if k<21 and w>1:
        w1=R.randrange(1,w+1); return '((_ %s %d) %s)'%(R.choice(['zero_extend','sign_extend']),w-w1,term(w1,d-1))
    if k<22 and w%2==0: return '((_ repeat 2) %s)'%term(w//2,d-1)
    if k<23 and w==1: return '(bvcomp %s %s)'%(term(8,d-1),term(8,d-1))
    return '(bvadd %s %s)'%(t(),t())
def lit2(w):
    v=R.randrange(0,2*w)%(1<<w); return '(_ bv%d %d)'%(v,w)
def boo(d):
    w=R.choice([1,3,8,8,16,32,64,7,12])
    if d<=0: return R.choice(['true','false','p','q'])
    k=R.randrange(6)
    if k<3: return '(%s %s %s)'%(R.choice("bvult bvule bvugt bvuge bvslt bvsle bvsgt bvsge = distinct".split()),term(w,d-1),term(w,d-1))
    if k<4: return '(not %s)'%boo(d-1)
    if k<5: return '(%s %s %s)'%(R.choice(['and','or','xor','=>','=']),boo(d-1),boo(d-1))
    return '(ite %s %s %s)'%(boo(d-1),boo(d-1),boo(d-1))
out=[];z=['(set-logic QF_BV)']
for i in range(N):
    VW={}
    vals={}
    for n,w in [('a',8),('b',16),('c',32),('d',64),('e',8),('f',64)]:
        VW.setdefault(w,[]).append(n); vals[n]=(w,R.choice([0,1,(1<<w)-1,1<<(w-1),R.randrange(1<<w)]))
    w=R.choice([8,16,32,64,1,5])
    f='(= %s %s)'%(term(w,R.choice([1,2,3])),term(w,R.choice([0,1]))) if R.random()<.3 else boo(R.choice([2,3]))
    out.append({'f':f,'v':{n:[(v>>(8*k))&255 for k in range(w//8)] for n,(w,v) in vals.items()}})
    z+=['(push)']+['(define-fun %s () (_ BitVec %d) (_ bv%d %d))'%(n,w,v,w) for n,(w,v) in vals.items()]+['(define-fun p () Bool true)','(define-fun q () Bool false)','(assert %s)'%f,'(check-sat)','(pop)']
open(TMP+'/t.z','w').write('\n'.join(z))
r=subprocess.run(['z3','-smt2',TMP+'/t.z'],capture_output=True,text=True).stdout.split('\n')
r=[x for x in r if x]
assert len(r)==N and set(r)<={'sat','unsat'},[x for x in r if x not in('sat','unsat')][:3]
for o,x in zip(out,r): o['w']=x=='sat'
print(sum(o['w'] for o in out),N)
open(TMP+'/t.ndjson','w').write('\n'.join(map(json.dumps,out))+'\n')
for f in glob.glob(HERE+'/../../spec/*.tla')+[HERE+'/QfBv.tla',HERE+'/../../spec/chars.json']: shutil.copy(f,TMP)
open(TMP+'/QfBv.cfg','w').write('INIT Init\nNEXT Next\n')
cp='/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
r=subprocess.run(['java','-Xss64m','-cp',cp,'tlc2.TLC','-workers','1','-deadlock','-noGenerateSpecTE','-metadir',TMP+'/md','QfBv.tla'],cwd=TMP,capture_output=True,text=True,timeout=900).stdout
shutil.rmtree(TMP)
bad=[l for l in r.split('\n') if 'WRONG' in l or '"SORT"' in l or 'rror:' in l]
print('\n'.join(bad[:10]) or 'agree')
sys.exit(1 if bad or 'No error has been found' not in r else 0)
