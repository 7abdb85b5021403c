#!/usr/bin/env python3
"""Random mutation of the library, to find what the checks miss.
  mutate.py TREE OUT SEED N [path regex]    TREE: scratch clone of the repository (created if missing), OUT: jsonl of results
Each mutant changes one line; the checks responsible for the file are run (quick tier) until one reports it.
"""
import sys, os, re, json, random, subprocess, time, shutil
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tree,out,seed,n=sys.argv[1:5]; rx=re.compile(sys.argv[5] if len(sys.argv)>5 else ""); rnd=random.Random(int(seed))
MAP=[("algorithm/nd_sort",["C10","C11","C12"]),("algorithm/nsga2",["C12","C07"]),("algorithm/nsga3",["C13","C07"]),("algorithm/reference_lines",["C14","C13"]),("algorithm/soga_selection",["C09","C35"]),("algorithm/soga_replacement",["C08"]),("algorithm/",["C08","C09","C35","C34","C04","C07"]),
 ("core/candidate",["C33","C02","C17"]),("core/fitness",["C05","C03"]),("core/ga_base",["C05","C34","C35","C03","C02","C04","C07","C33"]),("core/",["C35","C05","C04","C11","C02","C09"]),
 ("crossover/crossover_base",["C18","C34","C02"]),("crossover/crossover_impl",["C15","C16"]),("crossover/perm",["C15"]),("crossover/neigh",["C15"]),("crossover/lambda",["C18"]),("crossover/",["C16","C18","C35"]),
 ("mutation/mutation_base",["C18","C34","C02"]),("mutation/",["C17","C18","C35"]),("encoding/",["C01","C07"]),("metrics/hypervolume",["C22","C21"]),("metrics/pop",["C36","C21","C22"]),("metrics/",["C21"]),("stop_condition/",["C19","C20","C35"]),("problems/",["C30"]),
 ("utility/rng",["C24","C06"]),("utility/qrng",["C14"]),("utility/math",["C23","C36","C10","C29"]),("utility/cache",["C26","C03"]),("utility/circular",["C26"]),("utility/small_vector",["C27"]),("utility/dynamic_bitset",["C28"]),("utility/matrix",["C28"]),("utility/cone_tree",["C29"]),
 ("utility/thread_pool",["C25","C06"]),("utility/spinlock",["C25","C32"]),("utility/shared_spinlock",["C25","C32"]),("utility/latch",["C25","C32"]),("utility/concurrent_queue",["C25"]),("utility/bounded_value",["C18"]),("utility/distribution",["C24"]),
 ("utility/",["C31","C27","C25","C24"])]
def checks(p):
    for k,v in MAP:
        if p.startswith(k): return v
    return ["C05"]
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors="replace",**k)
if not os.path.exists(tree): sh(f"git clone -q /repo {tree}")
sh(f"cd {tree} && git checkout -q -- . && git pull -q")
OPS=[(r"<=","<"),(r">=",">"),(r"(?<![<\-=])<(?![<=])","<="),(r"(?<![>\-=])>(?![>=])",">="),(r"==","!="),(r"!=","=="),(r"&&","||"),(r"\|\|","&&"),(r"(?<!\+)\+(?![+=])","-"),(r"(?<!-)-(?![-=>])","+"),(r"\+\+","--"),(r"\+=","-="),(r"-=","+="),(r"(?<![/*])\*(?![/*=])","/"),(r"/(?![/*=])","*"),
 (r"\btrue\b","false"),(r"\bfalse\b","true"),(r"(?<![.\d])\b0\b(?!\.)","1"),(r"(?<![.\d])\b1\b(?!\.)","2"),(r"(?<![.\d])\b1\b(?!\.)","0"),(r"(?<![.\d])\b2\b(?!\.)","3"),(r"\b0\.0\b","1.0"),(r"\b1\.0\b","1.1"),(r"\b0\.5\b","0.6"),(r"!(?=[a-z(])",""),(r"\bstd::min\b","std::max"),(r"\bstd::max\b","std::min"),(r"\bfirst\b","last"),(r"\blower\b","upper"),(r"\bupper\b","lower"),(r"%","/"),(r"&(?!&)","|"),(r"\bparent1\b","parent2"),(r"\bparent2\b","parent1"),(r"\bchild1\b","child2"),(r"\bchild2\b","child1"),(r"\bbreak\b","continue"),(r"\bcontinue\b","break"),(r"\bis_evaluated\b = true","is_evaluated = false"),(r"\bpush_back\b","push_front"),(r"\bfloatIsLess\b","floatIsLessNotGreater"),(r"\(([^()]+) \+ 1\)",r"(\1)"),(r"\+ 1\b",""),(r"- 1\b","")]
def mutants(p):
    s=open(f"{tree}/src/{p}",encoding="utf-8",newline="").read().split("\n"); r=[]; com=False
    for i,l in enumerate(s):
        t=l.strip()
        if com or t.startswith("/*"):
            com="*/" not in t; continue
        if not t or t.startswith(("//","*","#","GAPP_ASSERT","static_assert","template","requires","using","namespace","friend","[[")) or "GAPP_ASSERT" in t or "noexcept(" in t or "static_assert" in t: continue
        code=re.split(r"//|/\*",l)[0]
        if i==0: continue
        for a,b in OPS:
            for m in re.finditer(a,code):
                if a in (r"(?<![<\-=])<(?![<=])",r"(?<![>\-=])>(?![>=])") and not (code[max(0,m.start()-1)]==" " and code[m.end():m.end()+1]==" "): continue
                if a in(r"&(?!&)",r"(?<![/*])\*(?![/*=])",r"&&",r"(?<!-)-(?![-=>])",r"(?<!\+)\+(?![+=])",r"%") and not(code[max(0,m.start()-1)]==" " and code[m.end():m.end()+1]==" "): continue
                new=code[:m.start()]+re.sub(a,b,code[m.start():m.end()] if "(" not in b and "\\1" not in b and "?" not in a else m.group(0),count=1)+code[m.end():]
                if "\\1" in b: new=code[:m.start()]+m.expand(b)+code[m.end():]
                elif "?" in a: new=code[:m.start()]+b+code[m.end():]
                if new!=code: r.append((i,l,new+l[len(code):]))
        if t.endswith(";") and not t.startswith(("return","const ","constexpr","auto ","size_t ","double ","}","static","break","continue","bool ","public","private")) and re.match(r"[\w:>.\-\[\]*(]+[^=]*(=|\(|\+\+)",t) and not re.match(r"[\w:<>,&* ]+ \w+( =|;|\{|\()[^.]*$",t): r.append((i,l,re.match(r"\s*",l)[0]+";"+("\r" if l.endswith("\r") else "")))
        m=re.match(r"(\s*)(else )?if \((.*)\)(\s*\{?\s*\r?)$",l)
        if m: r.append((i,l,f"{m[1]}{m[2] or ''}if (!({m[3]})){m[4]}")); 
        if t.startswith("return ") and t.endswith(";") and "if" not in t: pass
    return s,r
files=[]
for d,_,fs in os.walk(tree+"/src"):
    for f in fs:
        p=os.path.relpath(d+"/"+f,tree+"/src")
        if f.endswith((".cpp",".hpp")) and rx.search(p) and "rcu" not in p and not p.startswith("gapp."): files.append(p)
files.sort(); allm=[(p,i,a,b) for p in files for i,a,b in mutants(p)[1]]
rnd.shuffle(allm); print(len(allm),"mutants",flush=True)
done=set()
if os.path.exists(out): done={(j["file"],j["line"],j["new"]) for j in map(json.loads,open(out))}
k=0
for p,i,a,b in allm:
    if k>=int(n): break
    if (p,i+1,b) in done: continue
    k+=1; f=f"{tree}/src/{p}"; orig=open(f,encoding="utf-8",newline="").read(); s=orig.split("\n"); s[i]=b
    res=dict(file=p,line=i+1,old=a,new=b); t=time.time()
    try:
        open(f,"w",encoding="utf-8",newline="").write("\n".join(s))
        res["result"]="survived"
        for c in checks(p):
            try: r=subprocess.run([sys.executable,HERE+"/check.py",c],env={**os.environ,"GAPP_REPO":tree,"VERIF_SEED":"1"},capture_output=True,text=True,errors="replace",timeout=400)
            except subprocess.TimeoutExpired: res["result"]="timeout "+c; break
            if r.returncode==2: res["result"]="no build"; break
            if r.returncode==1: res["result"]="caught "+c; break
            if r.returncode: res["result"]="rc%d %s"%(r.returncode,c); break
    finally: open(f,"w",encoding="utf-8",newline="").write(orig)
    res["s"]=round(time.time()-t)
    with open(out,"a") as o: o.write(json.dumps(res)+"\n")
    print(res["result"],p,i+1,b.strip()[:120],"%ds"%res["s"],flush=True)
