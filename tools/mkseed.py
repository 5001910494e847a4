import json,os,subprocess,shutil,tempfile
def mk(id, prop, needs, breaks, edits, demo):
    """edits: [(file, old, new)]; demo: bash text"""
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(dir='/tmp',prefix='mk')
    files=sorted({e[0] for e in edits})
    for f in files:
        for side in 'ab':
            p=os.path.join(w,side,f); os.makedirs(os.path.dirname(p),exist_ok=True)
            shutil.copy('/repo/'+f,p)
    for f,a,b in edits:
        p=os.path.join(w,'b',f); s=open(p,encoding='utf-8',errors='surrogateescape').read()
        assert s.count(a)==1,(id,f,a,s.count(a)); open(p,'w',encoding='utf-8',errors='surrogateescape').write(s.replace(a,b))
    r=subprocess.run(['git','diff','--no-index','--no-prefix','a','b'],cwd=w,capture_output=True,text=True)
    open(d+'/patch.diff','w').write(r.stdout)
    open(d+'/demo.sh','w').write('#!/bin/bash\n'+demo.strip()+'\n'); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
    c=subprocess.run(['git','apply','--check','-p0' if 0 else '-p1',d+'/patch.diff'],cwd='/repo',capture_output=True,text=True)
    base={}
    cur=None
    for l in open(d+'/patch.diff',errors='surrogateescape'):
        if l.startswith('--- '): cur=l.split()[1][2:]; continue
        if l.startswith('-') and l[1:].strip():
            if cur not in base: base[cur]=subprocess.run(['git','show','90a41e4:'+cur],cwd='/repo',capture_output=True).stdout.decode('utf-8','surrogateescape').split('\n')
            if l[1:].rstrip('\n') not in base[cur]: print(id,'NOT ORIGINAL:',l.rstrip())
    print(id,'ok' if c.returncode==0 else c.stderr)
def scm(prog, expect, variant='compact', args=''):
    """demo: run the program, compare stdout"""
    return f'''# runs a program with the interpreter built in /repo/_build/{variant}
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cat > "$D/t.scm" <<'SCM'
{prog.strip()}
(newline)
SCM
cat > "$D/expect" <<'OUT'
{expect.strip()}
OUT
ulimit -t 60
cd /repo && ./_build/{variant}/src/sscm --system-load-path /repo/lib {args} "$D/t.scm" > "$D/out" 2>"$D/err"
cat "$D/out"; head -c 600 "$D/err"
diff "$D/expect" "$D/out" >/dev/null'''
