import sys,time
sys.path.insert(0,'/verif/vc'); sys.path.insert(0,'/verif/contracts')
import cparse, contract, solve
import zq, word
def main(pats,v=1):
    prog=cparse.load('/repo')
    for k,c in list(contract.CONTRACTS.items()):
        if pats and not any(p in k for p in pats): continue
        for name,E,err in c.verify(prog,contract.CONTRACTS,verbose=v):
            print(name,'ERR' if err else '',err or '',f'{getattr(E,"secs",0):.1f}s')
            if E:
                for o in E.obs:
                    if not o.res.ok: print('   FAIL',o.kind,o.label,o.loc,o.res.status,o.res.why)
                print('   ',sum(o.res.ok for o in E.obs),'/',len(E.obs),'used',sorted(E.used),'inl',sorted(E.inlined))
if __name__=='__main__':
    v=1
    a=sys.argv[1:]
    if a and a[0]=='-vv': v=2; a=a[1:]
    main(a,v)
