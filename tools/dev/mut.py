import sys, subprocess, difflib, os, importlib.util, re
spec=importlib.util.spec_from_file_location('m',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
sel=sys.argv[2:]
out=[]
for x in m.MUT:
    name=x[0]
    if sel and not any(q in name for q in sel): continue
    edits=x[1] if isinstance(x[1],list) else [x[1:]]
    files={}
    for e in edits:
        f,old,new=e[:3]; nth=e[3] if len(e)>3 else 0
        p='/repo/'+f
        src=files.get(f) or open(p).read()
        pos=[i.start() for i in re.finditer(re.escape(old),src)]
        if nth>=len(pos): print('NOT FOUND',name,old[:60]); break
        i=pos[nth]
        files[f]=src[:i]+new+src[i+len(old):]
    else:
        d=''
        for f,t in files.items():
            d+=''.join(difflib.unified_diff(open('/repo/'+f).read().splitlines(True),t.splitlines(True),'a/'+f,'b/'+f))
        fn='/tmp/mut/%s.diff'%name
        open(fn,'w').write(d); out.append(fn)
r=subprocess.run(['python3','/verif/tools/bench.py','--workers','7']+out+(['--log'] if os.environ.get('LOG') else [])+(['--full'] if os.environ.get('FULL') else []),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
print('\n'.join(l[:int(os.environ.get('W','260'))] for l in r.stdout.splitlines()))
