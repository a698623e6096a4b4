import os, json, subprocess, shutil
S='/tmp/mk/tree'
def seed(id, prop, edits, demo, needs, breaks, std='c++98', header=None, cdargs='-nodef -onbase -typeName -i demo.h pack unpack', extra='', cd=True, script=None):
    if os.path.exists(S): shutil.rmtree(S)
    os.makedirs(S); d='/verif/seeded/'+id; os.makedirs(d, exist_ok=True)
    subprocess.check_call('git -C /repo archive HEAD | tar x -C '+S, shell=True)
    subprocess.check_call('cd %s && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x'%S, shell=True)
    for f,o,n in edits:
        p=S+'/'+f; s=open(p).read(); assert s.count(o)==1, (id,f,o,s.count(o)); open(p,'w').write(s.replace(o,n))
    open(d+'/patch.diff','w').write(subprocess.run(['git','-C',S,'diff'],capture_output=True,text=True).stdout)
    open(d+'/demo.cc','w').write(demo)
    sh='#!/bin/bash\n# exit 0 if the behaviour is right; run in /repo after the build\nD=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ncp "$D"/demo.* "$T"; cd "$T" || exit 2\n'
    if header is not None:
        open(d+'/demo.h','w').write(header)
        sh+='"$R"/classdesc %s > demo.cd || exit 1\n'%cdargs
    if script: sh+=script
    else: sh+='g++ -std=%s -DTR1 -DHAVE_LONGLONG -w -g -I"$R" -I. demo.cc -o demo %s || exit 1\ntimeout 60 ./demo\n'%(std,extra)
    open(d+'/demo.sh','w').write(sh)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(S)
