"""mk(id, prop, [(file, old, new)...], main_rs, needs, breaks, facade=None): creates and confirms seeded/<id>."""
import json, os, subprocess, sys
V='/verif'; WT='/tmp/bugwt'
def sh(c): return subprocess.run(c, shell=True, text=True, capture_output=True)
def mk(id, prop, edits, main, needs, breaks, facade=None, confirm=True, hit=True):
    sh(f'bash {V}/tools/bug.sh fresh x')
    for f, a, b in edits:
        p=f'{WT}/crates/axmos-db/src/{f}'; s=open(p).read()
        assert s.count(a)==1, (id, f, s.count(a), a)
        open(p,'w').write(s.replace(a,b))
    print(sh(f'bash {V}/tools/bug.sh new {id}').stderr, end='')
    d=f'{V}/seeded/{id}'
    open(d+'/main.rs','w').write(main)
    if facade: open(d+'/facade.rs','w').write(open(f'{V}/facade/{facade}.rs').read())
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+'/meta.json','w'), indent=1)
    if confirm: print(id, sh(f'bash {V}/tools/bug.sh confirm {id}').stdout, end='')
    if hit: print(sh(f'bash {V}/tools/bug.sh hit {id}').stdout, end='')
    sys.stdout.flush()
