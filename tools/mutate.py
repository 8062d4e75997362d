#!/usr/bin/env python3
"""Mutation campaign: applies small random changes to a scratch clone of /repo (never /repo itself)
and reports which checks notice. Usage: mutate.py CLONE ROOT FILE IDS SCEN N SEED [MULT]
  CLONE  scratch clone of /repo; ROOT scratch copy of /verif whose guest/Cargo.toml points to CLONE"""
import sys,re,random,subprocess,os,time
clone,root,file,ids,scen,n,seed=sys.argv[1:8]
mult=sys.argv[8] if len(sys.argv)>8 else "1"
lo,hi=(int(x) for x in os.environ.get("LINES","0-999999").split("-"))
path=os.path.join(clone,file)
src=open(path).read().split("\n")
rng=random.Random(int(seed))
muts=[]
intest=False
incom=False
asm=re.compile(r'^\s*"([^":]+)"(, ?.*)?$|^\s*concat!\("')
for i,l in enumerate(src):
    s=l.strip()
    if s.startswith("/*"): incom=True
    if incom:
        if "*/" in s: incom=False
        continue
    if not lo<=i+1<=hi: continue
    if re.match(r'(#\[cfg\(test\)\]|mod tests)',s): intest=True
    if intest or s.startswith("//") or s.startswith("#[") or s.startswith("use "): continue
    c=[]
    code=l.split(" // ")[0]
    m=re.search(r'^\s*"([a-z][^"]*)",',code) or re.search(r'^\s*concat!\("',code)
    if m:
        c.append(("delete",""))
        for a,b in [("ldaxp","ldxp"),("stlxp","stxp"),("ldar","ldr"),("stlr","str"),("ldap","ld"),("ishld","ishst"),("caspal","caspl"),("caspal","caspa"),("cbnz","cbz"),("b.ne","b.eq"),("jne","je"),("lo}","hi}"),("hi}","lo}"),("adds","subs"),("adc","sbc"),("csel","csinv"),("lock ",""),("mfence","lfence"),("cset","csetm"),(" eq"," ne"),(" lt"," gt"),(" lo"," hi"),("and","orr"),("eor","and"),("mvn","mov"),("$acquire",'""'),("$release",'""'),("_lo}","_hi}"),("prev_","out_")]:
            if a in code: c.append((a+"->"+b,code.replace(a,b,1)))
        rs=re.findall(r'\{[a-z_0-9]+\}',code)
        if len(rs)>=2: c.append(("swapregs",code.replace(rs[0],"@@").replace(rs[-1],rs[0]).replace("@@",rs[-1])))
    else:
        for a,b in [("==","!="),("!=","=="),(" < "," <= "),(" > "," >= "),(" + "," - "),(" - "," + "),("&&","||"),("||","&&"),(" & "," | "),(" | "," & "),(" ^ "," | "),("true","false"),("false","true"),("if !","if "),("Acquire","Relaxed"),("Release","Relaxed"),("SeqCst","Relaxed"),("SeqCst","AcqRel"),("AcqRel","Acquire"),("AcqRel","Release"),("wrapping_add","wrapping_sub"),("wrapping_sub","wrapping_add"),(" << "," >> "),(" >> "," << "),("!0","0"),("success","failure"),("failure","success"),("Ok(","Err("),("Err(","Ok("),("max","min"),("min","max"),("swap","load"),("0b","!0b"),(" 1"," 2"),(" 0"," 1"),("fetch_and","fetch_or"),("fetch_xor","fetch_or"),("old","new"),("new","old"),("prev","next"),("next","prev"),("$","")]:
            k=code.find(a)
            if k>=0 and not code.strip().startswith(("fn ","pub fn","///","mod ","macro_rules","#!","impl","pub(")): c.append((a+"->"+b,code[:k]+b+code[k+len(a):]))
        if code.rstrip().endswith(";") and not re.match(r'\s*(let|return|use|type|const|static)',code): c.append(("delete",""))
    for name,new in c: muts.append((i,name,new))
rng.shuffle(muts)
env=dict(os.environ,PASIM_ROOT=root,PASIM_SCEN=scen,PASIM_MULT=mult,VERIF_TIER="quick",PASIM_NOBUILD="")
done=0
for i,name,new in muts:
    if done>=int(n): break
    t=list(src); old=t[i]; t[i]=new
    open(path,"w").write("\n".join(t))
    caught=None; bad=False; t0=time.time()
    for id in ids.split(","):
        p=subprocess.run([root+"/pasim","check",id],env=env,capture_output=True,text=True)
        if "does not build" in p.stderr: bad=True; err="could not compile"; break
        if p.returncode==2 : bad=True; err=(p.stderr+p.stdout)[-300:]; break
        if p.returncode==1: caught=id; msg=[x for x in p.stdout.split("\n") if "VIOL" in x or "violation" in x.lower()]; break
    if bad and ("could not compile" in err or "failed" in err):
        continue
    done+=1
    print(f"{'BAD' if bad else 'caught '+caught if caught else 'MISSED'} {file}:{i+1} [{name}] {old.strip()[:110]} => {new.strip()[:80]}  ({time.time()-t0:.0f}s)",flush=True)
    if bad: print("   ",err.replace("\n"," | ")[-250:],flush=True)
open(path,"w").write("\n".join(src))
