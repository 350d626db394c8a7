import sys,subprocess,os,json
def seed(id, prop, file, old, new, needs, breaks, files):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    edits=[(file,old,new)] if isinstance(file,str) else file
    for f,o,n in edits:
        p='/repo/'+f; s=open(p).read(); assert s.count(o)==1,(id,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C','/repo','diff'],text=True))
    subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    for n,c in files.items(): open(d+'/'+n,'w').write(c)
CDEMO='''#!/bin/bash
# Compiles the small program beside this file against the freshly built library and runs it in a scratch directory.
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
gcc -std=gnu99 -D_XOPEN_SOURCE=700 -D_DEFAULT_SOURCE -w -g -fsanitize=address -fno-sanitize-recover=all -I"$R" -I"$R/_build/src/autark-cache" "$H/demo.c" "$R/_build/src/autark-cache/libautark.a" -o "$T/demo" || exit 98
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
