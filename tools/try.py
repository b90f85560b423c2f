import sys,random; sys.path.insert(0,"/verif/lib")
import vf, ref, gen, collections
n=int(sys.argv[1]); seed=sys.argv[2] if len(sys.argv)>2 else "0"
cases=[];exp=[];kinds=collections.Counter()
r=random.Random(seed)
while len(cases)<n:
    g=gen.Gen(random.Random(r.random()),wild=r.choice([0,0.005,0.02]),size=r.choice([8,15,30]))
    p=g.program()
    src=gen.source(p,r,r.randrange(2),r.choice([0,0,0.2]))
    it=ref.Interp()
    try: out,err=it.run(p)
    except ref.Uncertain as u: kinds["U "+str(u)]+=1; continue
    kinds["ok" if err is None else err.kind]+=1
    cases.append(vf.Case(src,heap=1<<18)); exp.append((out,err))
print(kinds)
bad=0
for c,r,(o,e) in zip(cases,vf.run_cases(cases),exp):
    if r.crashed or r.out!=o or bool(r.ok)!=(e is None) or (e and r.err!=e.kind):
        bad+=1
        if bad<4:
            print("-----");print(c.src.decode());print("GOT",r.crashed,r.ok,r.err,r.msg,r.out[-200:],r.stderr[-300:]);print("EXP",o[-200:],e and (e.kind,e.msg))
print("bad",bad,"of",n)
