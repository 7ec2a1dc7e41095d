import os,subprocess,json,shutil,sys,re
SEED='/verif/seeded'
def sh(*a,**k): return subprocess.run(a,check=True,capture_output=True,text=True,**k).stdout
DEMO='''#!/bin/bash
# Runs main.go against the amt package in the current directory. Exit 0: the property held.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp "$here"/*.go "$w/"
%(extra)s
cat > "$w/go.mod" <<M
module demo
go 1.21
require github.com/wdamron/amt v0.0.0
replace github.com/wdamron/amt => $repo
M
cd "$w" || exit 3
go build %(flags)s -o "$w/demo" . || exit 3
%(env)stimeout 200 "$w/demo"
'''
OVER='''# the standard hash/maphash with a hook that weakens the hash function (still a pure function of seed and bytes)
mkdir "$w/o"
src=$(go env GOROOT)/src/hash/maphash/maphash.go
sed 's/^func rthash(buf \\[\\]byte, seed uint64) uint64 {/var Weaken func(uint64) uint64\\nvar WeakenBytes func([]byte, uint64) uint64\\nfunc rthash(b []byte, s uint64) uint64 {\\n h := rthash0(b, s)\\n if Weaken != nil { h = Weaken(h) }\\n if WeakenBytes != nil { h = WeakenBytes(b, h) }\\n return h\\n}\\nfunc rthash0(buf []byte, seed uint64) uint64 {/' "$src" > "$w/o/maphash.go"
echo "{\\"Replace\\": {\\"$src\\": \\"$w/o/maphash.go\\"}}" > "$w/o/overlay.json"'''
BUGS=[]
def bug(id,prop,needs,breaks,edits,main,flags='',env='',over=False):
    BUGS.append((id,prop,needs,breaks,edits,main,flags,env,over))
exec(open('/verif/tools/seeded_bugs.py').read())
only=sys.argv[1:]
base='/tmp/mkseeded.base'
if os.path.exists(base): shutil.rmtree(base)
sh('git','clone','-q','/repo',base)
for id,prop,needs,breaks,edits,main,flags,env,over in BUGS:
    if only and id not in only: continue
    sh('git','-C',base,'checkout','-q','--','.')
    for e in edits:
        f,marker,old,new=e[:4]
        p=f'{base}/{f}'; s=open(p).read()
        i=s.index(marker) if marker else 0
        j=s.find(old,i)
        assert j>=0,(id,f,old)
        s=s[:j]+new+s[j+len(old):]
        open(p,'w').write(s)
    subprocess.run('. /opt/vp/env.sh; gofmt -l .',shell=True,cwd=base)
    d=sh('git','-C',base,'diff')
    D=f'{SEED}/{id}'
    os.makedirs(D,exist_ok=True)
    open(D+'/patch.diff','w').write(d)
    fl=flags
    if over: fl+=' -overlay "$w/o/overlay.json"'
    open(D+'/demo.sh','w').write(DEMO%dict(extra=OVER if over else '',flags=fl,env=env+' ' if env else ''))
    os.chmod(D+'/demo.sh',0o755)
    open(D+'/main.go','w').write(main.lstrip())
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(D+'/meta.json','w'),indent=1)
    # confirm
    import tempfile
    def demo(): 
        r=subprocess.run(['bash',D+'/demo.sh'],cwd=base,capture_output=True,text=True,timeout=400)
        return r.returncode,(r.stdout+r.stderr).strip()[-200:].replace('\n',' | ')
    b=subprocess.run('. /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./... 2>&1 | tail -3',shell=True,cwd=base,capture_output=True,text=True)
    tests='ok' if '\nok' in '\n'+b.stdout else 'TESTFAIL '+b.stdout+b.stderr
    bad=demo()
    sh('git','-C',base,'checkout','-q','--','.')
    good=demo()
    ok = tests=='ok' and bad[0]!=0 and bad[0]!=3 and good[0]==0
    print(id,'OK' if ok else 'PROBLEM',tests[:300],'patched',bad,'clean',good,flush=True)
shutil.rmtree(base)
