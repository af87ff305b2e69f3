import json,subprocess,sys
kf=json.load(open('/verif/known_findings.json'))
h={}
for l in subprocess.check_output(['git','-C','/repo','log','--oneline'],text=True).splitlines():
    a,b=l.split(' ',1); h[b]=a
def add(prop,prefix,what):
    m=[v for k,v in h.items() if k.startswith(prefix)]
    assert len(m)==1,prefix
    e="fixed: property=%s %s %s"%(prop,m[0],what)
    if e not in kf['fixed']: kf['fixed'].append(e)
for l in open(sys.argv[1]):
    if l.strip(): add(*l.strip().split('|'))
json.dump(kf,open('/verif/known_findings.json','w'),indent=1); open('/verif/known_findings.json','a').write('\n')
