import sys; sys.path.insert(0,'/verif/dev')
from edit import edit
import subprocess,os,json,shutil,sys
def seed(id, prop, edits, demo_cpp, needs, breaks, demo_sh=None, extra_files=()):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    w='/tmp/seedwork'; shutil.rmtree(w,True)
    subprocess.check_call(['git','-C','/repo','worktree','prune'])
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,old,new in edits:
        edit(os.path.join(w,f),(old,new))
    diff=subprocess.check_output(['git','-C',w,'diff'],text=False)
    open(d+'/patch.diff','wb').write(diff)
    if demo_cpp: open(d+'/demo.cpp','w').write(demo_cpp)
    open(d+'/demo.sh','w').write(demo_sh or DEMO)
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
DEMO='''#!/bin/bash
# Builds demo.cpp against the sources in the current directory and runs it.
H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -I "$PWD/include" -I "$PWD/_build" \\
  -include cstdint -include cstdio -include cstdlib -include type_traits -include utility -include iterator -include memory -include array \\
  "$H/demo.cpp" -o "$T/demo" -lpthread || exit 3
cd "$T" && timeout 120 ./demo
'''
