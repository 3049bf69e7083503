"""pile.py FILE [CHECK...]: development aid. Applies the behaviour-preserving rewrites of a file of tools/piles/ to a scratch copy of
/repo, all together, and runs the checks on it: all of them must stay quiet."""
import os,re,subprocess,sys,shutil,importlib.util
W="/tmp/pilerepo"; os.environ["OVERTHERE_REPO"]=W; os.environ["PYTHONHASHSEED"]="0"
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"sa"))
import build
from concurrent.futures import ThreadPoolExecutor
if not os.path.isdir(W): shutil.copytree("/repo",W,ignore=shutil.ignore_patterns("target",".git"))
shutil.rmtree(W+"/src"); shutil.copytree("/repo/src",W+"/src")
def sub(f,*pairs):
    p=W+"/src/"+f; s=open(p).read()
    for a,b in pairs:
        if a not in s: print("NOT FOUND",f,a[:80]); continue
        s=s.replace(a,b,1)
    open(p,"w").write(s)
def rsub(f,a,b,count=0,flags=re.S):
    p=W+"/src/"+f; s=open(p).read(); n,k=re.subn(a,b,s,count=count,flags=flags); print(f,k,"regex"); open(p,"w").write(n)
exec(open(sys.argv[1]).read())
try: fp=build.extract("all")
except build.BuildError as e:
    log=open(os.path.join(build.BUILD,"extract-all.log")).read(); i=log.find("\nerror"); print(log[i:i+3000]); sys.exit(1)
shutil.move(fp,"/tmp/pile.jsonl")
def run(pid):
    r=subprocess.run(["python3","sa/run.py",pid,"quick","/tmp/pile.jsonl"],cwd="/verif",capture_output=True,text=True)
    out=r.stdout+r.stderr
    v=[l.strip()[:260] for l in out.splitlines() if l.startswith("  [")]
    n=[l[:260] for l in out.splitlines() if l.startswith("NOTE")]
    if r.returncode or n or v: return "%s rc=%d %s %s"%(pid,r.returncode,v[:4],n[:4])
P=sys.argv[2:] or ["C%02d"%i for i in range(1,31)]
with ThreadPoolExecutor(6) as p:
    for x in p.map(run,P):
        if x: print(x,flush=True)
