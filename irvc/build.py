"""Rebuilds, from /repo's current working tree, what the checks consume: one optimisation-free LLVM bitcode
module of all library sources (mem2reg+simplifycfg only) and the record layouts of its classes."""
import os, re, subprocess, hashlib, glob, sys, tempfile, shutil, time
REPO=os.environ.get('VERIF_REPO','/repo')
HERE=os.path.dirname(os.path.abspath(__file__))
OUT=os.path.join(os.path.dirname(HERE),'.build')
CXX='clang++-18'
class BuildError(Exception): pass
def confdir(d):
    os.makedirs(d+'/conf',exist_ok=True)
    t=open(REPO+'/src/libigesconf.h.in').read()
    v=open(REPO+'/CMakeLists.txt').read()
    def ver(n,dflt):
        m=re.search(r'LIBIGES_%s_VERSION\s+(\d+)'%n,v,re.I) or re.search(r'VERSION_%s\s+(\d+)'%n,v,re.I)
        return m.group(1) if m else dflt
    o=[]
    for l in t.split('\n'):
        m=re.match(r'#\s*cmakedefine\s+(\w+)\s*(.*)',l)
        if m:
            n,val=m.group(1),m.group(2)
            if n=='STATIC_IGES': o.append('#define STATIC_IGES')
            elif n in('USE_SISL','HAS_NURBS_LIB'): o.append('#define %s'%n)
            else: o.append('#define %s %s'%(n,re.sub(r'@\w+@|\$\{\w+\}','0',val)))
            continue
        l=re.sub(r'[@$]\{?(\w*MAJOR\w*)\}?@?','0',l); l=re.sub(r'[@$]\{?(\w*MINOR\w*)\}?@?','3',l)
        l=re.sub(r'@\w+@','0',l)
        o.append(l)
    open(d+'/conf/libigesconf.h','w').write('\n'.join(o))
def sources():
    s=[]
    for sub in('entities','iges','dllapi','geom'): s+=sorted(glob.glob(f'{REPO}/src/{sub}/*.cpp'))
    return [x for x in s if not x.endswith('entity_template.cpp')]
def idfsources(): return sorted(glob.glob(f'{REPO}/src/idf/*.cpp'))
def treehash():
    h=hashlib.sha256()
    for p in sorted(glob.glob(REPO+'/src/**/*',recursive=True))+[os.path.join(HERE,'build.py')]:
        if os.path.isfile(p): h.update(p.encode()); h.update(open(p,'rb').read())
    return h.hexdigest()[:20]
FLAGS='-std=gnu++17 -w -DNDEBUG'.split()
def inc(d): return [f'-I{d}/conf',f'-I{REPO}/src/include',f'-I{REPO}/src/include/idf',f'-I{REPO}/src/idf']
def par(cmds,what):
    ps=[]; err=''; n=os.cpu_count() or 4; q=list(cmds); run=[]
    while q or run:
        while q and len(run)<n:
            c=q.pop(0); run.append((c,subprocess.Popen(c,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,text=True)))
        c,p=run.pop(0); e=p.communicate()[1]
        if p.returncode: raise BuildError(what+': '+' '.join(c[-3:])+'\n'+e[:2000])
def build():
    """returns the build directory (content-addressed by the source tree)"""
    d=os.path.join(OUT,treehash())
    if os.path.exists(d+'/done'): return d
    os.makedirs(OUT,exist_ok=True)
    # keep at most a few old directories
    old=sorted([x for x in glob.glob(OUT+'/*') if os.path.isdir(x) and os.path.basename(x)!='keep'],key=os.path.getmtime)
    for x in old[:-6]: shutil.rmtree(x,ignore_errors=True)
    t=tempfile.mkdtemp(dir=OUT); confdir(t); os.makedirs(t+'/bc')
    cm=[]; bcs=[]
    for s in sources()+idfsources():
        o=f'{t}/bc/{os.path.basename(os.path.dirname(s))}_{os.path.basename(s)[:-4]}.bc'
        idf='/src/idf/' in s
        (bcs if not idf else []).append(o)
        cm.append([CXX]+FLAGS+['-O0','-Xclang','-disable-O0-optnone','-gline-tables-only']+(['-fignore-exceptions'] if idf else ['-fno-exceptions'])+inc(t)+['-emit-llvm','-c',s,'-o',o])
    par(cm,'compile')
    def link(bcs,o):
        subprocess.run(['llvm-link-18']+bcs+['-o',o+'.raw.bc'],check=True)
        subprocess.run(['opt-18','-passes=function(mem2reg,simplifycfg)',o+'.raw.bc','-o',o],check=True)
    link(bcs,t+'/all.bc')
    idfb=[f'{t}/bc/idf_{os.path.basename(s)[:-4]}.bc' for s in idfsources()]
    ok=[b for b in idfb if os.path.exists(b)]
    try: link(ok,t+'/idf.bc')
    except subprocess.CalledProcessError: pass
    layouts(t)
    shutil.rmtree(t+'/bc',ignore_errors=True)
    open(t+'/done','w').write('')
    try: os.rename(t,d)
    except OSError:
        if not os.path.exists(d+'/done'): raise
        shutil.rmtree(t,ignore_errors=True)
    return d
def layouts(t):
    layouts1(t,[h for h in sorted(glob.glob(REPO+'/src/include/**/*.h',recursive=True)) if 'template' not in h and '/idf/' not in h],'layouts.txt')
    layouts1(t,sorted(glob.glob(REPO+'/src/idf/*.h')),'layouts_idf.txt')
def layouts1(t,hs,out):
    names=set()
    for h in hs:
        for m in re.finditer(r'^\s*(?:class|struct)\s+(?:MCAD_API\s+)?([A-Za-z_0-9]+)\s*(?::[^;{]*)?\{',re.sub(r'//[^\n]*|/\*.*?\*/','',open(h,errors='replace').read(),flags=re.S),re.M): names.add(m.group(1))
    # an incomplete or nested name is retried away
    src='#include <fstream>\n#include <sstream>\n#include <string>\n#include <list>\n#include <vector>\n#include <map>\n#include <ostream>\n'+''.join(f'#include "{h}"\n' for h in hs)
    for _ in range(30):
        f=t+'/lay.cpp'
        open(f,'w').write(src+''.join(f'int sz_{n}=sizeof({n});\n' for n in sorted(names)))
        p=subprocess.run([CXX]+FLAGS+['-fsyntax-only','-ferror-limit=0','-Xclang','-fdump-record-layouts']+inc(t)+[f],capture_output=True,text=True)
        if p.returncode==0: break
        bad=set(re.findall(r"error: .*'(\w+)'",p.stderr))&names
        if not bad: raise BuildError('layout: '+p.stderr[:2000])
        names-=bad
    open(t+'/'+out,'w').write(p.stdout)

class Layouts:
    def __init__(s,path):
        s.rec={}; s.size={}; s.base={}
        cur=None; base=0
        for blk in open(path).read().split('*** Dumping AST Record Layout'):
            lines=blk.strip('\n').split('\n')
            top=None; stack=[]
            for l in lines:
                m=re.match(r'\s*(\d+)(?::\S+)? \|(\s+)(.*)$',l)
                if not m:
                    m=re.match(r'\s+\| \[sizeof=(\d+)',l)
                    if m and top: s.size[top]=int(m.group(1))
                    continue
                off=int(m.group(1)); dep=(len(m.group(2))-1)//2; txt=m.group(3).rstrip()
                if dep==0:
                    q=re.match(r'(?:class|struct) ([\w:]+)$',txt)
                    if not q: break
                    top=q.group(1)
                    if top in s.rec: break
                    s.rec[top]=[]; s.base[top]=None; opaque=[]; path=[(0,'')]
                    skip=None
                    continue
                if top is None: break
                if skip is not None:
                    if dep>skip: continue
                    skip=None
                while len(path)>dep: path.pop()
                pre=path[-1][1]
                if txt.endswith('vtable pointer)'): continue
                if txt.endswith('base)') or txt.endswith('(empty)'):
                    b=re.sub(r' \((primary |virtual )?base\).*','',txt); b=re.sub(r'^(class|struct) ','',b)
                    if dep==1: s.base[top]=b
                    path.append((dep,pre)); continue
                if '(anonymous' in txt and txt.endswith(')'): path.append((dep,pre)); continue   # members of an unnamed union
                q=re.match(r'(.*?)\s*(\**)\s*(\w+)$',txt) if not txt.endswith(']') else None
                a=re.match(r'(.*\]) (\w+)$',txt)
                if a: ty,nm=a.group(1),a.group(2)
                else:
                    q=re.match(r'(.*) (\w+)$',txt)
                    if not q: skip=dep; continue
                    ty,nm=q.group(1),q.group(2)
                full=pre+nm
                k=kindof(ty)
                if k is None:      # nested record: descend
                    path.append((dep,full+'.')); s.rec[top].append((full,off,'rec',ty)); continue
                s.rec[top].append((full,off,k,ty)); skip=dep
    def fields(s,cls):
        return [(n,o,k,t) for n,o,k,t in s.rec[cls] if k!='rec']
    def off(s,cls,name):
        for n,o,k,t in s.rec[cls]:
            if n==name: return o
        raise KeyError(cls+'.'+name)
    def kind(s,cls,name):
        for n,o,k,t in s.rec[cls]:
            if n==name: return k
        raise KeyError(cls+'.'+name)
    def bases(s,cls):
        r=[]
        while cls: r.append(cls); cls=s.base.get(cls)
        return r
def enums(files):
    """values of the enumerators declared in the given headers"""
    r={}
    for f in files:
        for m in re.finditer(r'\benum\b[^{;]*\{([^}]*)\}',re.sub(r'//[^\n]*|/\*.*?\*/','',open(f,errors='replace').read(),flags=re.S)):
            v=-1
            for x in m.group(1).split(','):
                x=x.strip()
                if not x: continue
                n,_,k=x.partition('=')
                try: v=int(k.strip(),0) if k.strip() else v+1
                except ValueError: v=r.get(k.strip())
                if v is None: break
                r[n.strip()]=v
    return r
def kindof(ty):
    ty=ty.strip()
    if ty.endswith('*'): return 'ptr'
    if ty.startswith('class std::basic_string<') or re.match(r'class std::__cxx11::basic_string<',ty): return 'str'
    if ty.startswith('class std::list<'): return 'list'
    if ty.startswith('class std::vector<'): return 'vec'
    if ty.startswith('class std::map<'): return 'map'
    if ty in('double','float'): return 'f64'
    if ty in('_Bool','char','unsigned char'): return 'i8'
    if ty in('int','unsigned int'): return 'i32'
    if ty in('long','unsigned long','size_t','std::size_t'): return 'i64'
    if ty.endswith(']'): return 'arr'
    if ty.startswith('class ') or ty.startswith('struct ') or ty.startswith('union '): return None
    return 'i32'       # enumerations
if __name__=='__main__':
    t=time.time(); d=build(); print(d,time.time()-t)
    if '--setup' in sys.argv: sys.exit(0)
    L=Layouts(d+'/layouts.txt')
    for c in('IGES_ENTITY_144','IGES_ENTITY_124','IGES_ENTITY_126','DLL_IGES_ENTITY_100','MCAD_SEGMENT','MCAD_TRANSFORM','IGES'):
        print(c,L.base[c],[(n,o,k) for n,o,k,_ in L.fields(c)])
