import sys,importlib.util,os
out=[]
def load(f):
    sp=importlib.util.spec_from_file_location('m'+os.path.basename(f)[:-3],f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m.M
M=[]
for f in ['keep','keep2','keep4','fresh1','fresh2']+['c%02d'%i for i in range(1,32)]:
    p='/verif/tools/muts/%s.py'%f
    if not os.path.exists(p): continue
    for n,pr,ed in load(p):
        if not pr.startswith('='): continue
        files={e[0] for e in ed}
        c=set()
        if 'cmd/horcrux/cmd/config.go' in files: c|={'C31'}
        if 'cmd/horcrux/cmd/cosigner.go' in files or 'signer/threshold_validator.go' in files: c|={'C30','C32'}
        if 'signer/Config.go' in files or 'signer/cosigner_key.go' in files: c|={'C32'}
        if 'signer/raft_store.go' in files: c|={'C30','C33'}
        if any('grpc_server' in x or 'leader_el' in x for x in files): c|={'C33'}
        if c: M.append((f+'.'+n,'='+','.join(sorted(c)),ed))
