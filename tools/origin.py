#!/usr/bin/env python3
"""Development tool: for each seeded patch, are the lines it removes lines of the original repository?"""
import subprocess, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root = subprocess.run(['git','-C','/repo','log','--format=%H','--grep=^fix:','--invert-grep','-1'],stdout=subprocess.PIPE,text=True).stdout.strip()
mine = set(subprocess.run(['git','-C','/repo','log','--format=%H',root+'..HEAD'],stdout=subprocess.PIPE,text=True).stdout.split())
cache={}
def blame(f):
    if f not in cache:
        out=subprocess.run(['git','-C','/repo','blame','-l','-s',f],stdout=subprocess.PIPE,text=True).stdout.splitlines()
        cache[f]=[l.split()[0].lstrip('^') for l in out]
    return cache[f]
for b in sorted(os.listdir(V+'/seeded')):
    p=V+'/seeded/%s/patch.diff'%b
    f=None; n=0; res=[]
    for l in open(p):
        if l.startswith('--- a/'): f=l[6:].strip()
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-'):
            res.append('own' if any(m.startswith(blame(f)[n-1]) or blame(f)[n-1].startswith(m[:39]) for m in mine) else 'orig'); n+=1
        elif l.startswith('+') or l.startswith('\\'): pass
        else: n+=1
    if 'own' in res or not res: print(b,res)
