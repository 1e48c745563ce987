import sys,subprocess,concurrent.futures as cf,re,collections
sys.path.insert(0,'/verif/lib'); import vb
vb.gen_protos()
fs=sys.argv[1:]
inc=["-I/verif/harness","-I/verif/shim",f"-I{vb.B}/pb",f"-I{vb.B}/pb/proto",f"-I{vb.SRC}"]
def go(f):
    r=subprocess.run(["g++","-std=c++17","-w","-fsyntax-only","-fmax-errors=400"]+vb.DEFS+inc+[f if f.startswith('/') else f"{vb.SRC}/{f}"],capture_output=True,text=True)
    return f,r.stderr
errs=collections.Counter()
with cf.ThreadPoolExecutor(8) as ex:
    for f,e in ex.map(go,fs):
        n=len(re.findall(r"error:",e)); print(f,n)
        for l in e.splitlines():
            if "error:" in l: errs[re.sub(r"^/repo/src/","",l)[:260]]+=1
for l,n in list(errs.items())[:int(__import__('os').environ.get('N','60'))]: print(n,l)
