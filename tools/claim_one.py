import sys,os
p,d=sys.argv[1],sys.argv[2]
f='/verif/tools/claims.py'; s=open(f).read()
i=s.index('}\nNA')
s=s[:i]+' "%s": "%s",\n'%(p,d)+s[i:]
open(f,'w').write(s)
os.system('python3 /verif/tools/manifest.py')
