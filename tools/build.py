#!/usr/bin/env python3
"""Builds the library from the repository's working tree (ASan) and the checks.
Usage: build.py [repo] [builddir].  Everything is written under the build dir."""
import os, re, sys, glob, subprocess, fcntl
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo=os.path.abspath(sys.argv[1] if len(sys.argv)>1 else os.environ.get("HEC_REPO","/repo"))
bd=os.path.abspath(sys.argv[2] if len(sys.argv)>2 else os.environ.get("HEC_BUILD",os.path.join(V,"build")))
os.makedirs(bd,exist_ok=True)
lock=open(os.path.join(bd,".lock"),"w"); fcntl.flock(lock,fcntl.LOCK_EX)
def listed(cm,base):
    try: t=open(cm,errors="replace").read()
    except OSError: return []
    t=re.sub(r"#.*","",t)
    return [os.path.join(base,x) for x in re.findall(r"[\w./+-]+\.c\b",t) if os.path.exists(os.path.join(base,x))]
hc=os.path.join(repo,"heclib/heclib_c")
lib=listed(os.path.join(hc,"CMakeLists.txt"),hc)
if len(lib)<100: lib=glob.glob(hc+"/src/**/*.c",recursive=True)
hd=os.path.join(repo,"heclib/hecdss")
dll=listed(os.path.join(hd,"CMakeLists.txt"),hd) or glob.glob(hd+"/*.c")
jd=os.path.join(repo,"heclib/javaHeclib")
lib=sorted(set(lib)); dll=sorted(set(dll))
SAN="-fsanitize=address -fno-omit-frame-pointer"
inc=f"-I{hc}/src/headers -I{hd}"
def q(p): return p.replace("$","$$").replace(" ","$ ").replace(":","$:")
o=[]
o.append("ninja_required_version = 1.3")
o.append(f"rule cc\n command = clang -std=gnu99 -O1 -g1 -fPIC {SAN} -w {inc} -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc")
o.append(f"rule cxx\n command = clang++ -std=c++17 -O1 -g1 {SAN} -Wall -Wno-misleading-indentation -Wno-writable-strings {inc} -I{V}/engine -I{V}/props -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc")
o.append("rule ar\n command = rm -f $out && ar crs $out $in")
WRAP="-Wl,--wrap=write -Wl,--wrap=usleep"
o.append(f"rule link\n command = clang++ {SAN} {WRAP} -o $out $in -lz -lm -lpthread $extra")
objs=[]
for s in lib+dll:
    ob="obj/"+os.path.relpath(s,repo).replace("/","_")+".o"; objs.append(ob)
    o.append(f"build {ob}: cc {q(s)}")
o.append("build libhec.a: ar "+" ".join(objs))
po=[]
for s in sorted(glob.glob(V+"/engine/*.cpp")+glob.glob(V+"/props/*.cpp")):
    ob="obj/v_"+os.path.basename(s)+".o"; po.append(ob)
    o.append(f"build {ob}: cxx {q(s)}")
o.append("build hecv: link "+" ".join(po)+" libhec.a")
o.append("default hecv")
new="\n".join(o)+"\n"
nf=os.path.join(bd,"build.ninja")
if not os.path.exists(nf) or open(nf).read()!=new: open(nf,"w").write(new)
r=subprocess.run(["ninja","-C",bd,"-j",str(os.cpu_count() or 8)]+(["-v"] if os.environ.get("V") else ["--quiet"]),stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
if r.returncode:
    sys.stdout.write(r.stdout.decode(errors="replace")[-6000:]); sys.exit(2)
