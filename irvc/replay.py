"""Builds the library (address sanitizer) from /repo's working tree and runs a replay program against it."""
import os, subprocess, glob, sys
import build
def lib(d):
    """static archive with sanitizer, content addressed with the build directory"""
    a=d+'/asan/liball.a'
    if os.path.exists(a): return a
    os.makedirs(d+'/asan',exist_ok=True); cm=[];os_=[]
    for s in build.sources()+build.idfsources():
        if s.endswith('idf2igs.cpp') : continue
        o=f'{d}/asan/{os.path.basename(os.path.dirname(s))}_{os.path.basename(s)[:-4]}.o'; os_.append(o)
        cm.append(['clang++-18','-std=gnu++17','-w','-O1','-g1','-DNDEBUG','-fsanitize=address','-fno-omit-frame-pointer','-D_GLIBCXX_ASSERTIONS']+build.inc(d)+['-c',s,'-o',o])
    build.par(cm,'sanitizer build')
    subprocess.run(['ar','rcs',a+'.tmp']+os_,check=True); os.rename(a+'.tmp',a)
    return a
def prog(d,src):
    exe=d+'/asan/'+os.path.basename(src)[:-4]
    a=lib(d)
    c=['clang++-18','-std=gnu++17','-w','-O1','-g1','-fno-access-control','-DNDEBUG','-fsanitize=address','-D_GLIBCXX_ASSERTIONS']+build.inc(d)+['-I'+os.path.dirname(src),src,a,'-lsisl','-lm','-o',exe]
    r=subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: return None,r.stdout[:3000]
    return exe,''
def run(d,src,seed,n,flt='',timeout=300):
    """(fails [(key,text)], cases {group:(ev,nt)}, note)"""
    try: exe,err=prog(d,src)
    except build.BuildError as x: return [],{},'sanitizer build failed: %s'%str(x)[:500]
    if exe is None: return [],{},'replay program does not compile against this tree: '+err[:800]
    env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1')
    try: r=subprocess.run([exe,str(seed),str(n)]+([flt] if flt else []),stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,errors='replace',timeout=timeout,env=env); out=r.stdout
    except subprocess.TimeoutExpired as x: out=(x.stdout or b''); out=out.decode(errors='replace') if isinstance(out,bytes) else out
    fails=[];cases={};notes=[]
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            k,_,t=l[5:].partition(' | '); fails.append((k,t))
        elif l.startswith('CASES '):
            p=l.split(); cases[p[1]]=(int(p[2]),int(p[3]))
        elif l.startswith('TIMEOUT'): notes.append(l)
    return fails,cases,'; '.join(notes)
