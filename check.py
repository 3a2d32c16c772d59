#!/usr/bin/env python3-vt
"""check.py PROPERTY [--thorough] [--baseline] : decides one property on /repo's current working tree.

1. recompiles the sources to LLVM IR, 2. generates and discharges the obligations of every function under
contract of the property (specs/<property>.py), 3. runs the replay program of the property against the real
library: on failed obligations to find a failing input, and as the bounded stand-in for the functions the
verifier does not reach.  See DESIGN.md."""
import sys, os, time, json, importlib, traceback, signal, pickle, tempfile, select
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path[:0]=[HERE+'/irvc',HERE+'/irvc/specs']
sys.setrecursionlimit(20000); sys.dont_write_bytecode=True
T0=time.time()
def run_tasks(ctx,tasks,lib,limit,ncpu,scale=1):
    """every task in its own process; returns results in task order (None: not run / killed)"""
    res=[None]*len(tasks); q=list(range(len(tasks))); run={}
    end=time.time()+limit
    while q or run:
        while q and len(run)<ncpu and time.time()<end:
            i=q.pop(0); r,w=os.pipe(); pid=os.fork()
            if pid==0:
                try:
                    os.close(r); signal.signal(signal.SIGINT,signal.SIG_DFL)
                    if scale>1: lib.engine.SCALE=scale; tasks[i].deadline*=scale
                    out=lib.run_task(ctx,tasks[i])
                    with os.fdopen(w,'wb') as f: pickle.dump(out,f)
                except BaseException as x:
                    try: sys.stderr.write('task %s: %s\n'%(tasks[i].name,x)); traceback.print_exc()
                    except Exception: pass
                finally: os._exit(0)
            os.close(w); run[r]=(i,pid,time.time()+tasks[i].deadline*scale*1.6+20,[])
        if not run: break
        rd,_,_=select.select(list(run),[],[],0.5)
        for r in rd:
            i,pid,dl,buf=run[r]; b=os.read(r,1<<20)
            if b: buf.append(b); continue
            os.close(r); os.waitpid(pid,0); del run[r]
            try: res[i]=pickle.loads(b''.join(buf))
            except Exception: pass
        now=time.time()
        for r in list(run):
            i,pid,dl,buf=run[r]
            if now>dl or now>end+30:
                os.kill(pid,signal.SIGKILL)
                os.close(r); os.waitpid(pid,0); del run[r]
        if time.time()>=end: q=[]
    return res
def known(pid):
    """keys of the findings recorded for this property: (kind,key)->text"""
    k={}
    p=HERE+'/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l.startswith('KNOWN-FINDING: property=%s '%pid):
                body=l.split(' ',2)[2]; key,_,txt=body.partition(' :: ')
                k[key.strip()]=txt.strip()
    return k
def main():
    pid=sys.argv[1].upper(); tier='thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER')=='thorough' else 'quick'
    seed=int(os.environ.get('VERIF_SEED','1') or 1); ncpu=os.cpu_count() or 4
    import build, replay, lib
    try: d=build.build()
    except build.BuildError as x:
        print('ERROR: the tree does not compile: %s'%x); return 2
    ctx=lib.Ctx(d); sp=importlib.import_module(pid.lower())
    quiet=lambda *a: None
    try: tasks=sp.tasks(ctx,tier=='thorough')
    except Exception as x:
        # the specification cannot be generated for this tree (renamed declarations): everything is undischarged
        tasks=[]; quiet(x); gen=str(x)
        if '--baseline' in sys.argv: raise
        print('NOTE: contracts could not be generated for this tree: %s'%gen)
    if len(sys.argv)>2 and sys.argv[-1].startswith('='): tasks=[t for t in tasks if sys.argv[-1][1:] in t.name]
    blf=HERE+'/baseline/%s.json'%pid
    base=json.load(open(blf)) if os.path.exists(blf) else {}
    # replay library is compiled while the proofs run
    bp=os.fork()
    if bp==0:
        try:
            if getattr(sp,'REPLAY',None): replay.lib(d)
        except BaseException: pass
        os._exit(0)
    # slowest first (by the recorded times)
    tasks.sort(key=lambda t:-base.get(t.name,{}).get('t',5))
    t0=time.time()
    res=run_tasks(ctx,tasks,lib,getattr(sp,'LIMIT',420) if tier=='quick' else 3000,ncpu)
    os.waitpid(bp,0)
    # tasks proved on the reference tree but left open here: once more, with longer limits and half the processes
    left=(560 if tier=='quick' else 3600)-(time.time()-t0)
    again=[i for i,r in enumerate(res) if base.get(tasks[i].name,{}).get('ok') and (r is None or (any(o[1]=='unknown' for o in r.obs) or r.unsupported=='time budget') and not any(o[1]=='failed' for o in r.obs))]
    if again and left>40 and '--baseline' not in sys.argv:
        r2=run_tasks(ctx,[tasks[i] for i in again],lib,min(left,240),max(2,ncpu//2),3)
        for i,r in zip(again,r2): res[i]=r or res[i]
    kn=known(pid)
    nob=ndis=0; viol=[]; functions=[]; undis=[]; assum=set(); inl=set(); contr=set(); solver=0.0; nq=0; knownhit={}; newbase={}
    for t,r in zip(tasks,res):
        b=base.get(t.name,{})
        if r is None:
            functions.append(dict(task=t.name,status='not discharged',reason='time or memory limit')); undis.append(t.name); newbase[t.name]=dict(ok=False,t=t.deadline); continue
        if r.taint and os.environ.get('VTAINT'): print('TAINT',t.name,r.taint[:3])
        solver+=r.solver; nq+=r.nq; assum|=r.assumptions; inl|=r.inlined; contr|=r.contracts
        fl=[o for o in r.obs if o[1]=='failed']; un=[o for o in r.obs if o[1]=='unknown']
        okk=not r.unsupported and not fl and not un and not r.vacuous
        newbase[t.name]=dict(ok=okk,t=round(r.t,1),n=len(r.obs))
        if fl: newbase[t.name]['failed']=sorted(set(o[0] for o in fl))
        if okk:
            nob+=len(r.obs); ndis+=len(r.obs)
            functions.append(dict(task=t.name,status='proved',obligations=len(r.obs),paths=r.paths,s=round(r.t,1))); continue
        why=r.unsupported or ('vacuous: '+'; '.join(r.vacuous) if r.vacuous else '')
        definite=[o for o in fl if not r.taint and o[0] not in b.get('failed',[])]
        if (b.get('ok') or 'failed' in b) and definite and not r.vacuous:
            for o in definite:
                key='%s: %s'%(t.name,o[0])
                if key in kn: knownhit[key]=kn[key]; continue
                viol.append((key,o))
        nob+=len(r.obs); ndis+=len([o for o in r.obs if o[1]=='proved'])
        functions.append(dict(task=t.name,status='not discharged',reason=why or 'failed: %s; open: %s'%(sorted(set(o[0] for o in fl))[:4],sorted(set(o[0] for o in un))[:4]),obligations=len(r.obs),tainted=r.taint[:2]))
        undis.append(t.name)
    for t in tasks:
        for key in kn:
            if key.startswith(t.name+': ') and t.name in undis: knownhit.setdefault(key,kn[key])
    if '--baseline' in sys.argv:
        os.makedirs(HERE+'/baseline',exist_ok=True)
        json.dump(newbase,open(blf,'w'),indent=0,sort_keys=True)
    # ---- replay on the real library
    cases={}; note=''; rf=[]
    if getattr(sp,'REPLAY',None) and '--noreplay' not in sys.argv:
        n=getattr(sp,'REPLAY_N',200)*(1 if tier=='quick' else 20)
        rf,cases,note=replay.run(d,HERE+'/replay/'+sp.REPLAY,seed,n,timeout=200 if tier=='quick' else 1200)
        if viol and not [x for x in rf if 'replay:'+x[0] not in kn]:
            f2,c2,_=replay.run(d,HERE+'/replay/'+sp.REPLAY,seed+1,n*10,timeout=200); rf+=f2
    concrete=[]
    for k,txt in rf:
        if 'replay:'+k in kn: knownhit['replay:'+k]=kn['replay:'+k]
        else: concrete.append((k,txt))
    os.makedirs(HERE+'/evidence/replay',exist_ok=True)
    rp=HERE+'/evidence/replay/%s.txt'%pid
    lines=[]
    if concrete or viol:
        with open(rp,'w') as f:
            f.write('property %s\nreproduce: python3-vt /verif/check.py %s   (replay program: /verif/replay/%s SEED N)\n'%(pid,pid,getattr(sp,'REPLAY','')))
            for k,txt in concrete: f.write('\nfailing input on the real library [%s]\n  %s\n'%(k,txt))
            for key,o in viol: f.write('\nfailed obligation: %s\n  function %s line %s\n  verifier counterexample: %s\n'%(key,o[2],o[3],o[5]))
        if concrete: lines.append('VIOLATION property=%s replay=%s'%(pid,rp))
        else: lines.append('VIOLATION property=%s replay=%s no-failing-input-found'%(pid,rp))
    elif os.path.exists(rp): os.unlink(rp)
    for key in sorted(knownhit): print('KNOWN-FINDING: property=%s %s :: %s'%(pid,key,knownhit[key]))
    nev=sum(c[0] for c in cases.values()); nnt=sum(c[1] for c in cases.values())
    level=getattr(sp,'LEVEL','proof')
    cov=dict(obligations=nob,discharged=ndis,checker_cmd='python3-vt /verif/check.py %s'%pid+(' --thorough' if tier=='thorough' else ''),
        back_end='z3 4.x (python API), obligations generated from LLVM 18 bitcode of the current tree',solver_queries=nq,solver_s=round(solver,1),
        functions_under_contract=len([f for f in functions if f['status']=='proved']),functions_not_discharged=undis,functions=functions,
        callee_contracts=sorted(contr),inlined_bodies=sorted(inl),
        trusted_base=sorted(set(TRUST)|set(getattr(sp,'TRUST',[]))),
        bounded_standin=dict(label='bounded, not counted as proved',evaluations=nev,distinct_nontrivial=nnt,groups={k:v[0] for k,v in cases.items()},note=note,program=getattr(sp,'REPLAY',None)))
    if level!='proof': cov['explanation']=getattr(sp,'EXPLAIN','see DESIGN.md')
    ev=dict(property=pid,tier=tier,seed=seed,level=level,coverage=cov,assumptions=sorted(assum|set(getattr(sp,'ASSUME',[]))),wall_s=round(time.time()-T0,1),violations=len(concrete) or len(viol))
    json.dump(ev,open(HERE+'/evidence/%s.json'%pid,'w'),indent=1)
    print('%s: %d functions proved, %d not discharged; obligations %d, discharged %d; bounded stand-in: %d cases; %.0f s%s'%(pid,cov['functions_under_contract'],len(undis),nob,ndis,nev,time.time()-T0,('; '+note) if note else ''))
    if '-v' in sys.argv:
        for f in functions:
            if f['status']!='proved' or '-vv' in sys.argv: print('  ',f)
        for c in sorted(cases.items()): print('  ',c)
        for key,o in viol: print('   FAILED',key,o[2:4],o[5][:300])
    for k,txt in concrete[:20]: print('  failing input [%s] %s'%(k,txt[:400]))
    for l in lines: print(l)
    return 1 if lines else 0
TRUST=['the VC generator in /verif/irvc (symbolic semantics of LLVM IR, loop cutting by verified closed forms and inductive bounds)',
 'z3','clang 18 front end and the mem2reg/simplifycfg passes','models of the C++ standard library operations (irvc/models.py)',
 'machine doubles are treated as mathematical reals','objects reached through distinct addresses do not overlap; class layouts as reported by clang']
if __name__=='__main__':
    try: rc=main()
    except SystemExit: raise
    except BaseException as x:
        traceback.print_exc(); rc=2
    sys.stdout.flush(); os._exit(rc)
