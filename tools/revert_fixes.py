import json,subprocess,re,sys,os,shutil
ks=[k['fixed'] for k in json.load(open('/verif/known_findings.json')) if k['status']=='fixed']
sel=sys.argv[1:]
for f in ks:
    m=re.match(r'fixed: property=(\w+) (\w+) (.*)',f); prop,c,what=m.groups()
    if sel and c not in sel: continue
    d='/tmp/rv'; shutil.rmtree(d,ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',d],check=True)
    r=subprocess.run(['git','-C',d,'revert','--no-edit',c],capture_output=True,text=True)
    if r.returncode: print(prop,c,'REVERT CONFLICT',what[:60],flush=True); continue
    r=subprocess.run(['/verif/bin/check',prop,'--no-model'],env=dict(os.environ,VT_REPO=d),capture_output=True,text=True)
    v=re.findall(r'VIOLATION property=\w+ replay=\S+violation_(\S+).json',r.stdout)
    print(prop,c,r.returncode,v[:4],'' if r.returncode==1 else what,flush=True)
    shutil.rmtree(d,ignore_errors=True)
