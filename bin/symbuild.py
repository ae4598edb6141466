"""Build side of the symbolic executor: /repo sources + harness -> instrumented executable (and native replay build)."""
import os, subprocess, hashlib, glob, concurrent.futures as cf, shutil, sys, time, re
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('SYM_REPO','/repo'); SRC=REPO+'/src'
ENG=VERIF+'/engine'; BUILD=VERIF+'/build'; CACHE=BUILD+'/cache'
LLVM='/usr/lib/llvm-18'; Z3='/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
JOBS=int(os.environ.get('SYM_JOBS','8'))
class BuildError(Exception): pass
def run(cmd,**kw):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,**kw)
    if r.returncode: raise BuildError(' '.join(cmd)[:300]+'\n'+r.stderr[-3000:])
    return r.stdout
def sha(*parts):
    h=hashlib.sha256()
    for p in parts: h.update(p if isinstance(p,bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:32]
def fread(p):
    with open(p,'rb') as f: return f.read()
def put(tmp,dst): os.replace(tmp,dst)
def cached(key,suffix,make):
    os.makedirs(CACHE,exist_ok=True); p=f'{CACHE}/{key}{suffix}'
    if not os.path.exists(p):
        t=f'{p}.tmp{os.getpid()}.{time.monotonic_ns()}{suffix}'; make(t); put(t,p)
    return p
def engine():
    """plugin, runtime object, slatec archive: independent of the code under test except slatec (keyed by content)"""
    k=sha(fread(ENG+'/SymPass.cpp'))
    def mk1(t): run(['g++','-std=c++17','-O1','-w','-fPIC','-shared','-fno-rtti','-I'+LLVM+'/include','-D__STDC_LIMIT_MACROS','-D__STDC_CONSTANT_MACROS',ENG+'/SymPass.cpp','-o',t])
    k2=sha(fread(ENG+'/symrt.cpp'),fread(ENG+'/native.cpp'))
    def mk2(t):
        a,b=t+'.a.o',t+'.b.o'
        run(['g++','-std=c++17','-O2','-w','-I'+Z3+'/include','-c',ENG+'/symrt.cpp','-o',a]); run(['g++','-std=c++17','-O1','-w','-c',ENG+'/native.cpp','-o',b])
        run(['ld','-r',a,b,'-o',t]); os.remove(a); os.remove(b)
    fs=sorted(glob.glob(SRC+'/slatec/*.f')); k3=sha(*[fread(f) for f in fs])
    def mk3(t):
        d=t+'.d'; os.makedirs(d)
        with cf.ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda f: run(['gfortran','-w','-O1','-fPIC','-c',f,'-o',d+'/'+os.path.basename(f)+'.o']),fs))
        run(['ar','rcs',t]+glob.glob(d+'/*.o')); shutil.rmtree(d)
    with cf.ThreadPoolExecutor(3) as ex:
        a=ex.submit(cached,k,'.so',mk1); b=ex.submit(cached,k2,'.o',mk2); c=ex.submit(cached,k3,'.a',mk3)
        return a.result(),b.result(),c.result()
def gen():
    """protobuf code of the current tree"""
    protos=['tools/FileSingleHeader.proto','qdlib/GridSystem.proto','IACmds.proto']
    k=sha(*[fread(SRC+'/'+p) for p in protos]); d=f'{CACHE}/gen-{k}'
    if not os.path.isdir(d):
        t=d+f'.tmp{os.getpid()}'; os.makedirs(t)
        for p in protos:
            o=t+'/'+os.path.dirname(p); os.makedirs(o,exist_ok=True); run(['protoc','--proto_path='+os.path.dirname(SRC+'/'+p),'--cpp_out='+o,SRC+'/'+p])
        try: os.replace(t,d)
        except OSError: shutil.rmtree(t)
    return d
def flags(g,symbolic):
    f=['-I'+ENG+'/include_sym']+(['-I'+ENG+'/include'] if symbolic else [])+['-I'+ENG+'/config','-I'+g,'-I'+g+'/tools','-I'+g+'/qdlib','-I'+SRC,'-I/usr/include/libxml2','-DQD_SYS_MOD_PATH="/nonexistent/"',
       '-DQDNG_BUILD_DATE="x"','-DQDNG_BUILD_HOST="x"','-DQDNG_BUILD_MACH="x"','-DQDNG_REV="x"','-w','-std=gnu++17']
    return f
SYMF=['-O1','-fno-vectorize','-fno-slp-vectorize','-ffp-contract=off','-fopenmp','-fno-builtin-sincos','-fno-math-errno','-U_FORTIFY_SOURCE']
NATF=['-O1','-g1','-fopenmp','-fsanitize=address','-fno-omit-frame-pointer','-DSYM_REPLAY']
def srcpath(s,g):
    if s.endswith('.pb.cc'): return g+'/'+s
    return s if s.startswith('/') else SRC+'/'+s
def compile_one(path,fl,cc,ext,extra=()):
    args=[cc]+fl+list(extra)
    pre=subprocess.run(args+['-E',path],stdout=subprocess.PIPE,stderr=subprocess.PIPE)
    if pre.returncode: raise BuildError(f'{path}: '+pre.stderr.decode(errors='replace')[-2000:])
    body=re.sub(rb'(?m)^# \d+ "[^"]*".*$',b'',pre.stdout)
    k=sha(body,' '.join(args),os.path.basename(path))
    return cached(k,ext,lambda t: run(args+(['-emit-llvm'] if ext=='.bc' else [])+['-c',path,'-o',t]))
def expand(pats,g):
    out=[]
    for p in pats:
        if p.endswith('.pb.cc'): out.append(p); continue
        m=sorted(glob.glob(SRC+'/'+p))
        if not m: raise BuildError('no source matches '+p)
        for x in m:
            r=os.path.relpath(x,SRC)
            if r not in out: out.append(r)
    return out
def directives(h):
    d={'SRC':[],'LIBS':[],'DEFS':[]}
    for l in open(h):
        m=re.match(r'//(SRC|LIBS|DEFS|NOT|TEXT) (.*)',l)
        if m: d.setdefault(m.group(1),[]).extend(m.group(2).split())
    return d
def sources(h,g):
    d=directives(h); s=expand(d['SRC'],g); n=set(expand(d.get('NOT',[]),g)) if d.get('NOT') else set()
    return [x for x in s if x not in n],d
def build_sym(harness,out):
    """returns path of instrumented executable"""
    plug,rt,slatec=engine(); g=gen(); srcs,d=sources(harness,g)
    cc=LLVM+'/bin/clang++'; fl=(['-I'+ENG+'/include_text'] if 'TEXT' in d else [])+flags(g,True)+SYMF+['-I'+VERIF+'/harness']+['-D'+x for x in d['DEFS']]
    t0=time.time()
    jobs=[srcpath(s,g) for s in srcs]+[ENG+'/models.cpp',harness]
    jobs+= [ENG+'/'+x for x in d.get('MODELS',[])]
    with cf.ThreadPoolExecutor(JOBS) as ex: bcs=list(ex.map(lambda p: compile_one(p,fl,cc,'.bc'),jobs))
    t1=time.time()
    key=sha(*[os.path.basename(b) for b in bcs],os.path.basename(plug),os.path.basename(rt),os.path.basename(slatec),' '.join(d['LIBS']))
    def mk(t):
        bc=t+'.bc'; run([LLVM+'/bin/llvm-link']+bcs+['-o',bc]); 
        run([LLVM+'/bin/opt','-load-pass-plugin='+plug,'-passes=symprep,globaldce,function(lowerswitch),function(scalarizer),sympass,globaldce',bc,'-o',bc+'2'])
        # code generation in parallel parts
        n=JOBS; run([LLVM+'/bin/llvm-split','-j',str(n),bc+'2','-o',t+'.part'])
        parts=sorted(glob.glob(t+'.part*'))
        with cf.ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda p: run([LLVM+'/bin/llc','-O1','-relocation-model=pic','-filetype=obj',p,'-o',p+'.o']),parts))
        run(['g++','-fuse-ld=gold','-o',t,rt]+[p+'.o' for p in parts]+[slatec,'-L'+Z3+'/lib','-Wl,-rpath,'+Z3+'/lib','-lz3']+['-l'+x for x in d['LIBS']]+['-lgfortran','-ldl','-lpthread'])
        for p in parts: os.remove(p); os.remove(p+'.o')
        os.remove(bc); os.remove(bc+'2')
    exe=cached(key,'.exe',mk)
    return exe,{'sources':srcs,'frontend_s':round(t1-t0,1),'link_s':round(time.time()-t1,1)}
def build_native(harness,san=True):
    plug,rt,slatec=engine(); g=gen(); srcs,d=sources(harness,g)
    nf=[x for x in NATF if san or 'sanitize' not in x]
    fl=flags(g,False)+nf+['-I'+VERIF+'/harness']+['-D'+x for x in d['DEFS']]
    jobs=[srcpath(s,g) for s in srcs]+[ENG+'/replay.cpp',harness]
    with cf.ThreadPoolExecutor(JOBS) as ex: objs=list(ex.map(lambda p: compile_one(p,fl,'g++','.o'),jobs))
    key=sha(*[os.path.basename(b) for b in objs],'native',' '.join(d['LIBS']))
    return cached(key,'.rexe',lambda t: run(['g++','-fopenmp']+(['-fsanitize=address'] if san else [])+['-o',t]+objs+[slatec,'-Wl,-rpath,'+Z3+'/lib']+['-l'+x for x in d['LIBS'] if x!='fftw3']+['-lfftw3_omp','-lfftw3','-lgfortran','-ldl','-lpthread']))
