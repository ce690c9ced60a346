import subprocess
M={'7506dde':'P13','e4bf756':'P13','d241d40':'P14','80e5841':'P14','0210091':'P14','fde4cb0':'P15','4bffc0b':'P18','3837ab3':'P19','146c538':'P19','c213d8a':'P16','fe7ca2d':'P16','6eaae1d':'P25','08b327a':'P16','b76d8e1':'P21','e14a57e':'P16','e0d3cf6':'P12','b90d0cc':'P12','4cede24':'P12','7b24baa':'P12','5d32a70':'P12','fb89b4d':'P12','5ea072e':'P07','5c18e8a':'P05','f4c4623':'P05','1ecab80':'P06','2789b57':'P06','b7d98a3':'P21','e8eaf34':'P05','a7d5d27':'P05','443ae08':'P05','96efb74':'P05','6f1d227':'P03','44971fb':'P04','61ea687':'P04','04f186f':'P21','49ae0ef':'P25','7427bbc':'P01','ff4a4c9':'P06','77e2a55':'P06','834df9c':'P26','98c9d2e':'P05','e5df7a2':'P25','eecaca2':'P05','c9c9c8f':'P10','c26dd09':'P08','e224d40':'P25','c6ac05e':'P10','8fd5c28':'P01','7cad05c':'P01','f03146c':'P01'}
import sys
sys.path.insert(0,'/verif/tools')
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
import os
old={}
out=["# Genuine defects of EarthScope/msi that the checks exposed. 'fixed:' entries suppress nothing.","# 'known:' entries (none at present) would name the specific failing input of a defect recorded but not repaired."]
p='/verif/known_findings.txt'
if os.path.exists(p):
    for l in open(p):
        if l.startswith('fixed:'):
            f=l.split(); old[f[2]]=f[1].split('=')[1]
extra=dict(a.split('=') for a in sys.argv[1:])
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    pid=extra.get(h) or M.get(h) or old.get(h)
    if not pid: print('UNMAPPED',l); continue
    out.append('fixed: property=%s %s %s'%(pid,h,s[5:]))
open(p,'w').write('\n'.join(out)+'\n')
