import subprocess
m={'c104d33':'C01','ca60d4f':'C01','cf3adab':'C25','c5a6eb1':'C01','7a27224':'C01','e8d8a8e':'C15','50fec18':'C03','cbe41c6':'C18','95604f8':'C02','fdbe1f7':'C02','1dea64b':'C02','a30f1c1':'C01','6f01e03':'C19','d18722e':'C01','24bb154':'C03','b11a279':'C05','25ab6bb':'C05','3a7a6a0':'C06','36a85ba':'C09','8b3ccb8':'C13','6ccb556':'C13'}
extra={'extra letters':'C08','one colon':'C14','python:':'C23','java:':'C24','js:':'C26','noncharacters':'C05','voikkogc: count':'C22','voikkospell: collect':'C21','COMPARISON':'C14','autocorrect':'C16','over 200':'C16','cached grammar errors when hyphen':'C03','flag transitions':'C17','extend the sign':'C17','error model of suggestions':'C17','named grammar backend':'C19','word structure':'C01'}
out='''# Findings about voikko/corevoikko. "known:" entries are reported as KNOWN-FINDING by the check of that property
# (known: property=<id> key=<violation key> <what fails>); "fixed:" entries record repairs and suppress nothing.
'''
for l in reversed(subprocess.run(['git','-C','/repo','log','--format=%h %s','c311121..HEAD'],capture_output=True,text=True).stdout.splitlines()):
    h,sub=l.split(' ',1)
    h=h[:7]
    pid=m.get(h) or next((v for k,v in extra.items() if k in sub),None)
    if not sub.startswith('fix:'): continue
    assert pid,(h,sub)
    out+='fixed: property=%s %s %s\n'%(pid,h,sub[5:])
open('/verif/known_findings.txt','w').write(out)
