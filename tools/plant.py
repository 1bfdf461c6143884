#!/usr/bin/env python3
"""plant.py ID: makes /verif/seeded/ID from a spec on stdin (JSON-ish python dict):
 edits: [(file, old, new)], property, needs, breaks, demo (text of demo.mjs)"""
import sys, os, json, shutil, subprocess, tempfile
def plant(ID, property, needs, breaks, edits, demo):
    d=f'/verif/seeded/{ID}'; os.makedirs(d, exist_ok=True)
    t=tempfile.mkdtemp()
    subprocess.check_call(['git','-C','/repo','worktree','prune'])
    subprocess.check_call(f'git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm b', shell=True)
    for f,o,n in edits:
        p=f'{t}/{f}'; s=open(p).read()
        assert s.count(o)==1, (ID, f, s.count(o), o)
        open(p,'w').write(s.replace(o,n))
    base=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD']).decode().split()[0]
    orig=False
    for f in {e[0] for e in edits}:
        b=subprocess.check_output(['git','-C','/repo','show',f'{base}:{f}']).decode().splitlines()
        u0=subprocess.run(['git','-C',t,'diff','-U0','--',f],capture_output=True,text=True).stdout
        if any(l[0]=='-' and l[1:].strip() and l[1:] in b for l in u0.splitlines() if l and not l.startswith('---')): orig=True
    if not orig: print(ID,'WARNING: removes no original line')
    diff=subprocess.check_output(['git','-C',t,'diff']).decode()
    open(f'{d}/patch.diff','w').write(diff)
    shutil.rmtree(t)
    json.dump({'property':property,'needs':needs,'what_it_breaks':breaks}, open(f'{d}/meta.json','w'), indent=1)
    shutil.copy('/verif/tools/kit/demo.sh', f'{d}/demo.sh')
    k=f'{d}/kit'; shutil.rmtree(k, ignore_errors=True); os.makedirs(f'{k}/src')
    for s,t2 in [('/verif/harness/Cargo.toml','Cargo.toml'),('/verif/harness/Cargo.lock','Cargo.lock'),('/verif/harness/src/lib.rs','src/lib.rs'),('/verif/tools/kit/kit.mjs','kit.mjs'),('/verif/tools/kit/host.mjs','host.mjs')]:
        shutil.copy(s, f'{k}/{t2}')
    s=open(f'{k}/src/lib.rs').read(); open(f'{k}/src/lib.rs','w').write(s.replace('mod prog;\n','')) # demos need no programs
    open(f'{d}/demo.mjs','w').write("import { start, eq, MS } from './kit.mjs';\n"+demo.strip()+"\nconsole.log('ok');\n")
