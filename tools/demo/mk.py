# mk(...): makes seeded/ID from an edit of /repo and a program that shows it (see seed.sh for confirming).
import os, subprocess, json, shutil, sys
W='/tmp/w'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
DEMO='''#!/bin/bash
# Exit 0: the programs behave as want.txt says.
set -u
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -g -O1 -w -fsanitize=address,undefined -fno-sanitize=signed-integer-overflow,alignment,float-cast-overflow,shift,nonnull-attribute -fno-sanitize-recover=undefined -fwrapv -fno-strict-aliasing %(defs)s -I. -I"$d" *.c DuckLib/*.c %(eng)s "$d/%(main)s" -o "$t/demo" -lm || exit 1
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo" %(opts)s %(files)s >"$t/out" 2>"$t/err"
echo "exit status $?" >>"$t/out"
diff "$t/out" "$d/want.txt"
'''
def mk(id, prop, needs, breaks, edits, progs=(), opts="", defs="-DUSE_STDLIB", want=None, main="demo.c", maintext=None):
    if not os.path.isdir(W):
        sh(f'git -C /repo worktree prune; git clone -q /repo {W}')
    sh(f'git -C {W} fetch -q origin; git -C {W} checkout -q -f origin/HEAD 2>/dev/null || git -C {W} pull -q')
    sh(f'git -C {W} checkout -q -- .')
    for ed in edits:
        f, old, new = ed[:3]
        p=f'{W}/{f}'; s=open(p).read()
        at=0
        if len(ed)>3:
            at=s.find(ed[3])
            if at<0: print(id,'no anchor',ed[3]); return
        elif s.count(old)!=1: print(id, 'edit matches', s.count(old), 'times:', old[:60]); return
        i=s.find(old,at)
        if i<0: print(id,'no match',old[:60]); return
        open(p,'w').write(s[:i]+new+s[i+len(old):])
    d=f'/verif/seeded/{id}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(sh(f'git -C {W} diff').stdout)
    sh(f'git -C {W} checkout -q -- .')
    if maintext is not None: open(f'{d}/{main}','w').write(maintext)
    else:
        for f in ('engine/engine.h','engine/engine.c','engine/rawapi.h','tools/demo/demo.c'): shutil.copy('/verif/'+f, d)
    # allocation counting in the demo is off: memory.c is not shimmed
    files=[]
    for i,pr in enumerate(progs):
        if pr[:1] in ('+','!'): files.append(f"'{pr}'"); continue
        open(f'{d}/{i+1:02d}.dl','wb').write(pr if isinstance(pr,bytes) else pr.encode()); files.append(f'"$d/{i+1:02d}.dl"')
    open(d+'/demo.sh','w').write(DEMO%dict(defs=defs,opts=opts,files=' '.join(files),main=main,eng='' if maintext is not None else '"$d/engine.c"'))
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/want.txt','w').write('')
    r=sh(f'bash {d}/demo.sh',cwd='/repo')
    got='\n'.join(l[2:] for l in r.stdout.split('\n') if l.startswith('< '))+'\n'
    open(d+'/want.txt','w').write(got)
    if want is not None and got.strip()!=want.strip(): print(id,'WANT MISMATCH\n',got,r.stderr[-500:])
    r0=sh(f'bash {d}/demo.sh',cwd='/repo')
    sh(f'git -C {W} apply {d}/patch.diff')
    r1=sh(f'bash {d}/demo.sh',cwd=W)
    sh(f'git -C {W} checkout -q -- .')
    print(id,'clean',r0.returncode,'patched',r1.returncode); 
    if '-v' in sys.argv or r0.returncode or not r1.returncode: print(got[:600]); print(r1.stdout[:600], r1.stderr[-300:])
