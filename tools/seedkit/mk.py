import sys,os,subprocess,json,shutil
# mk.py: reads spec dict from python file: ID, PROP, NEEDS, BREAKS, edits[(file,old,new)], demo, flags
spec={}
exec(open(sys.argv[1]).read(),spec)
for s in spec['SEEDS']:
    d=os.environ.get('SD','/verif/seeded')+'/'+s['id']; os.makedirs(d,exist_ok=True)
    w='/tmp/mkwt'; shutil.rmtree(w,ignore_errors=True); subprocess.check_call(['git','clone','-q',os.environ.get('R','/repo'),w])
    base=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).strip()
    for f,old,new in s['edits']:
        p=w+'/'+f; t=open(p).read()
        assert t.count(old)==1,(s['id'],f,t.count(old),old)
        open(p,'w').write(t.replace(old,new))
    patch=subprocess.check_output(['git','-C',w,'diff'],text=True)
    open(d+'/patch.diff','w').write(patch)
    # original lines?
    for line in patch.splitlines():
        if line.startswith('-') and not line.startswith('---') and line[1:].strip():
            f=s['edits'][0][0]
            o=''.join(subprocess.check_output(['git','-C','/repo','show',base+':'+e[0]],text=True) for e in s['edits'])
            if line[1:] not in o: print('WARNING',s['id'],'line not original:',line)
    open(d+'/demo.cpp','w').write('#include "demo_util.hpp"\n'+s['demo'].lstrip())
    shutil.copy('/tmp/sd/demo_util.hpp',d)
    open(d+'/demo.sh','w').write(open('/tmp/sd/demo.sh').read().replace('FLAGS',s.get('flags','')))
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
