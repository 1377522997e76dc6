import subprocess,re,sys,os
root=subprocess.run("git log --format='%h %s' | grep -v ' fix:' | head -1",shell=True,cwd="/repo",capture_output=True,text=True).stdout.split()[0]
mine=set(subprocess.run(f"git rev-list {root}..HEAD",shell=True,cwd="/repo",capture_output=True,text=True).stdout.split())
bl={}
def blame(f):
    if f not in bl:
        bl[f]=[l.split()[0].lstrip('^') for l in subprocess.run(["git","blame","-l","-s",f],cwd="/repo",capture_output=True,text=True).stdout.splitlines()]
    return bl[f]
for id in sorted(os.listdir("/verif/seeded")):
    f=None;n=0;orig=mn=add=0
    for l in open(f"/verif/seeded/{id}/patch.diff"):
        if l.startswith("--- a/"): f=l[6:].strip()
        elif l.startswith("@@"): n=int(re.match(r"@@ -(\d+)",l).group(1))
        elif l.startswith("---") or l.startswith("+++") or l.startswith("diff") or l.startswith("index"): pass
        elif l.startswith("-"):
            try:
              if blame(f)[n-1] in mine: mn+=1
              else: orig+=1
            except IndexError: print("idx",id)
            n+=1
        elif l.startswith("+"): add+=1
        elif l.startswith(" "): n+=1
    if mn or not orig: print(id,"orig",orig,"mine",mn,"add",add)
