import json,subprocess
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],stdout=subprocess.PIPE,text=True).stdout.splitlines()
P={}
for t in '''96f7bbd C05;075df67 C05;849ba4d C03;88dcabc C04;4e5564f C20;f2819dc C07;78d0f8d C07;cada5d5 C07;2efbe4c C07;aba1fb5 C02;7187ea8 C06;06d7453 C07;739db01 C13;95f9090 C03;4b445a1 C09;27da5e6 C09;5a79ec9 C09;c163ef1 C10;6201e51 C11;43a5f30 C11;f93e282 C10;5de29f9 C13;38d7610 C11;ba0523c C15;4517b58 C15;840bcd7 C06;8943055 C06;a573480 C03;cdc5d16 C07;f5df57b C07;e6b18ac C09;8253498 C08;78d7f43 C08;56a06b0 C09;f28a553 C10;d015f36 C13;490361f C14;415a927 C14;f3af87d C14;21bdac3 C17;36f7cdf C17;64e1de1 C18;5af2460 C20'''.split(';'):
    h,p=t.split(); P[h]=p
k=json.load(open('/verif/known_findings.json'))
known=k['known']
fixed=[]
for l in log:
    h,s=l.split(' ',1)
    if s.startswith('fix:'):
        fixed.append('fixed: property=%s %s %s'%(P[h],h,s[4:].strip()))
json.dump(dict(known=known,fixed=fixed),open('/verif/known_findings.json','w'),indent=1)
print(len(fixed))
