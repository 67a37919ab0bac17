"""mkbug.py SPEC.py : SPEC defines bug(id, property, needs, breaks, [(file, old, new)...], main_rs)"""
import sys, os, subprocess, json, shutil
V='/verif/seeded'; W='/tmp/sc/gen'
if not os.path.isdir(W):
    subprocess.check_call(['git','clone','-q','/repo',W])
subprocess.check_call('git fetch -q && git reset -q --hard origin/HEAD && git clean -qfd',shell=True,cwd=W)
only=sys.argv[2:]
def bug(id, prop, needs, breaks, edits, main, extra_deps='', features=None):
    if only and id not in only: return
    for f,o,n in edits:
        p=os.path.join(W,f); s=open(p).read()
        cnt=1
        if o.startswith('@2'): o=o[2:]; cnt=2
        assert s.count(o)==cnt,(id,f,s.count(o))
        open(p,'w').write(s.replace(o,n))
    d=subprocess.check_output(['git','diff'],cwd=W).decode()
    subprocess.check_call(['git','checkout','-q','--','.'],cwd=W)
    D=os.path.join(V,id); os.makedirs(D,exist_ok=True)
    open(D+'/patch.diff','w').write(d)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(D+'/meta.json','w'),indent=1)
    open(D+'/main.rs','w').write(main.lstrip())
    s=open('/verif/tools/demo.sh').read()
    if extra_deps: s=s.replace('[profile.dev]',extra_deps+'\n[profile.dev]')
    if features: s=s.replace('path = "$R/halo2_proofs" }','path = "$R/halo2_proofs", features = %s }'%json.dumps(features))
    open(D+'/demo.sh','w').write(s); os.chmod(D+'/demo.sh',0o755)
    print(id)
exec(open(sys.argv[1]).read())
