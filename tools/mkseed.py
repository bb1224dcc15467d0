# usage: mkseed.py ID PROP FILE  (reads OLD/NEW python from stdin spec)
import sys,os,json,subprocess
SRC=os.environ.get("SEEDSRC","/repo")
def mk(id, prop, edits, needs, breaks, libs, demo, extra=""):
    d="/verif/seeded/"+id; os.makedirs(d,exist_ok=True)
    st=subprocess.run(["git","-C",SRC,"status","--porcelain","-uno"],capture_output=True,text=True).stdout
    assert not st.strip(), st
    try:
        for f,o,n in edits:
            p=SRC+"/"+f; s=open(p).read(); assert s.count(o)==1,(f,o,s.count(o)); open(p,"w").write(s.replace(o,n))
        open(d+"/patch.diff","w").write(subprocess.run(["git","-C",SRC,"diff"],capture_output=True,text=True).stdout)
    finally:
        subprocess.run(["git","-C",SRC,"checkout","-q","--","."])
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    if demo is not None:
        open(d+"/demo.c","w").write(demo)
        L=" ".join("/repo/_build/"+x for x in libs.split())
        open(d+"/demo.sh","w").write(f'''#!/bin/bash
# exit 0 when the property holds for this case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap '/bin/rm -rf "$t"' EXIT
gcc -g -O1 -fsanitize=address -w -DBUILD_DEBUG -DFILE_BASENAME='"demo"' -I/repo -I/repo/_build -o "$t/demo" "$d/demo.c" {L} {extra} || exit 99
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo"
''')
