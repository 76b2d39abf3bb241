// C30: the Python module (cpypyqed/io.cc), loaded into an embedded interpreter, on genuine numpy arrays and on genuine state files.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "Evolution_.h"
#include "statefile.h"
#include "qharness.h"
using namespace q; using vmc::cat; using namespace mock;
extern "C" PyObject* PyInit_cpypyqed();
static PyObject* G=nullptr;
static const char* prelude=R"py(
import sys, os
sys.path += [p for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',) if p not in sys.path]
import numpy as np, cpypyqed
def data(dtype,shape):
    n=int(np.prod(shape)); x=np.arange(n)*0.37-1.25+np.exp(0.1*np.arange(n))
    if dtype=='complex': x=x-1j*(np.arange(n)**2*.11-.3)
    return x.reshape(shape)
def layouts(a): # the same values in other memory layouts
    yield 'C',a.copy(); yield 'F',np.asfortranarray(a); yield 'readonly',ro(a)
    yield 'reversed',np.ascontiguousarray(a[tuple(slice(None,None,-1) for _ in a.shape)])[tuple(slice(None,None,-1) for _ in a.shape)]
    for k in range(a.ndim):
        s=list(a.shape); s[k]=2*s[k]+1; b=np.full(s,77.,dtype=a.dtype); v=b[tuple(slice(1,None,2) if i==k else slice(None) for i in range(a.ndim))]; v[...]=a; yield 'strided%d'%k,v
    b=np.full([x+2 for x in a.shape],55.,dtype=a.dtype); v=b[tuple(slice(1,-1) for _ in a.shape)]; v[...]=a; yield 'inner',v
    for k in range(1,a.ndim):
        p=list(range(a.ndim)); p[0],p[k]=p[k],p[0]; yield 'swapped%d'%k,np.ascontiguousarray(a.transpose(p)).transpose(p)
    if a.dtype==complex: b=np.zeros(a.shape+(3,),dtype=complex); b[...,1]=a; yield 'column',b[...,1]
    else: yield 'realpart',(a+1j*(a+3)).real
def ro(a): a=a.copy(); a.setflags(write=False); return a
def same(x,y): return isinstance(x,np.ndarray) and x.dtype==y.dtype and x.shape==y.shape and x.tobytes()==np.ascontiguousarray(y).tobytes()
def expect(r,arrays,times,rank,ident,what):
    if len(r)!=3: return what+': the result is not (meta, states, times)'
    m,s,t=r
    if m.rank!=rank: return '%s: rank %s, expected %s'%(what,m.rank,rank)
    if m.trajectoryID!=ident: return '%s: trajectory %s, expected %s'%(what,m.trajectoryID,ident)
    if len(s)!=len(arrays) or len(t)!=len(times): return '%s: %d states and %d times, expected %d'%(what,len(s),len(t),len(arrays))
    for i in range(len(s)):
        if not same(s[i],arrays[i]): return '%s: state %d is %r, expected %r'%(what,i,s[i],arrays[i])
        if t[i]!=times[i]: return '%s: time %d is %r, expected %r'%(what,i,t[i],times[i])
    return ''
def arrays(r): return [a.copy() for a in r[1]]
def roundtrip(dtype,shape,times,fn='p.state'):
    a=data(dtype,shape)
    for name,b in layouts(a):
        if not same(np.ascontiguousarray(b),a): return 'harness: layout '+name
        for t in times:
            before=b.tobytes(); cpypyqed.write(fn,b,t)
            if b.tobytes()!=before: return name+': writing changed the array'
            e=expect(cpypyqed.read(fn),[a],[t],len(shape),'ArrayOnly','%s, time %r'%(name,t))
            if e: return e
    r=cpypyqed.read(fname=fn); q=cpypyqed.read(fn); q[1][0][...]=9. # the arrays are the caller's own
    e=expect(r,[a],[times[-1]],len(shape),'ArrayOnly','an array changed after reading')
    return e or expect(cpypyqed.read(fn),[a],[times[-1]],len(shape),'ArrayOnly','read again')
def overwrite(seq,fn='p.state'): # each write replaces what was there
    for i,(dtype,shape) in enumerate(seq):
        a=data(dtype,shape); cpypyqed.write(fname=fn,a=a,t=i*.5); e=expect(cpypyqed.read(fn),[a],[i*.5],len(shape),'ArrayOnly','write %d'%i)
        if e: return e
    return ''
def refused(expr,fn='p.state'):
    a=data('complex',(2,2)); cpypyqed.write(fn,a,.25); x=eval(expr)
    try: cpypyqed.write(fn,x,1.)
    except SystemError as e: return 'refused without saying why: %s'%e
    except Exception as e: pass
    else: return 'an array that cannot be written is not refused'
    return expect(cpypyqed.read(fn),[a],[.25],2,'ArrayOnly','a refused write damaged the file')
def unreadable(fn):
    try: r=cpypyqed.read(fn)
    except SystemError as e: return 'refused without saying why: %s'%e
    except Exception: return ''
    return 'read accepts it: %r'%(r[1:],)
def states(fn,dtype,shape,raw,times,ident):
    n=int(np.prod(shape))*(16 if dtype=='complex' else 8); a=[np.frombuffer(raw[i*n:(i+1)*n],dtype=dtype).reshape(shape) for i in range(len(times))]
    return expect(cpypyqed.read(fn),a,times,len(shape),ident,'states of a run')
def torn(fn,content,bounds,dtype,shape,raw,times,ident,lo,hi):
    n=int(np.prod(shape))*(16 if dtype=='complex' else 8); a=[np.frombuffer(raw[i*n:(i+1)*n],dtype=dtype).reshape(shape) for i in range(len(times))]
    for L in range(lo,hi):
        with open(fn,'wb') as f: f.write(content[:L])
        try: r=cpypyqed.read(fn)
        except Exception as e:
            if dict(bounds).get(L): return 'prefix of %d bytes, ending exactly after %d complete states, is refused: %s'%(L,dict(bounds)[L],e)
            continue
        k=dict(bounds).get(L)
        if not k: return 'prefix of %d bytes, which is not a sequence of complete states, is accepted'%L
        e=expect(r,a[:k],times[:k],len(shape),ident,'prefix of %d bytes'%L)
        if e: return e
    return ''
)py";
static std::string evaluate(const std::string& expr) { // the error the Python side reports, empty if there is none
  PyObject* r=PyRun_String(expr.c_str(),Py_eval_input,G,G);
  if (!r) { PyObject* e=PyErr_GetRaisedException(); std::string w="Python exception: "; PyObject* s=PyObject_Repr(e); if (s) {w+=PyUnicode_AsUTF8(s); Py_DECREF(s);} Py_XDECREF(e); PyErr_Clear(); return w; }
  std::string w=PyUnicode_Check(r) ? PyUnicode_AsUTF8(r) : "not a text"; Py_DECREF(r); return w; }
static void py(const std::string& expr) { auto e=evaluate(expr); vmc::check(e.empty(),[&]{return cat(expr.substr(0,200),": ",e);}); }
static void bytes(const char* name, const std::string& s) {PyObject* b=PyBytes_FromStringAndSize(s.data(),s.size()); PyDict_SetItemString(G,name,b); Py_DECREF(b);}
static std::string tup(const std::vector<int>& d) {std::string s="("; for (int x : d) s+=std::to_string(x)+","; return s+")";}
static std::string lst(const std::vector<double>& d) {std::string s="["; for (double x : d) s+=vmc::str(x)+","; return s+"]";}

template<typename T> auto sys(const Dims& d) { Tables t; int n=total(d); M h=genH(n,1), j=.5*genM(n,2); t.H=[=](double,double){return h;}; t.U=[=](double a, double b){return eye(n);}; t.J={[=](double){return j;}}; t.A={genH(n,3)}; return t; }
template<int R> auto whole(const Dims& d) {return makeWhole<R>(13,d,sys<int>(d));}
template<int R> auto mkMaster(const Dims& d) {return [d](auto& p){ using Eng=cppqedutils::ODE_EngineBoost<quantumdata::DensityOperatorLow<R>>; using T=Master<R,Eng>; auto s=whole<R>(d); return std::make_unique<T>(s,dop<R>(genRho(total(d),7),d),Eng(initialTimeStep<R>(s),p),0);}; }
template<int R> auto mkMCWF(const Dims& d) {return [d](auto& p){ using Eng=cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<R>>; using T=MCWF_Trajectory<R,Eng,pcg64>; auto s=whole<R>(d); return std::make_unique<T>(mcwf::make<Eng,pcg64>(s,sv<R>(genV(total(d),8),d),p));}; }
template<typename St> auto mkSim(const St& z) {return [z](auto& p){ using ENG=cppqedutils::ODE_EngineBoost<St>; using F=std::function<void(const St&,St&,double)>; F f=[](const St& y, St& d, double t){d=-y;}; using T=cppqedutils::Simulated<St,F,ENG>; return std::make_unique<T>(T(St(z.copy()),f,{},ENG(.01,p)));}; }
// the array and the instant a trajectory object holds, through its own snapshot
template<typename A> std::pair<std::string,double> held(const std::string& rec) { std::istringstream iss(rec,std::ios_base::binary); cppqedutils::iarchive ar(iss); cppqedutils::trajectory::SerializationMetadata m; A a; double t; ar & m & a & t; std::string raw; for (auto x : a) raw.append(reinterpret_cast<const char*>(&x),sizeof x); return {raw,t}; }

// what a run of this kind saves, read by Python: plain, compressed, appended to, torn; and what Python writes, as its initial condition
template<typename A, typename MK> void kind(const std::string& nm, const std::string& dtype, const std::vector<int>& shape, const std::string& ident, MK mk) {
  auto runTo=[&](double T, int sdf, const std::string& fn){ parameters::Table tab; evolution::Pars<> p(tab); auto o=mk(p); sf::Set s{T,0,.3,0,(unsigned)sdf,true,""}; sf::go(*o,p,s,fn); };
  auto want=[&](const std::string& fn, std::string& raw, std::vector<double>& t){ raw.clear(); t.clear(); for (auto& r : sf::records(fn)) {auto h=held<A>(r); raw+=h.first; t.push_back(h.second);} };
  for (int sdf : {0,1,2}) for (double T : {.3,.9,1.}) for (bool plain : {false,true}) for (bool again : {false,true}) vmc::scenario(cat("run/",nm,"/T=",T,"/sdf=",sdf,plain?"/plain":"/compressed",again?"/continued":""),[&]{ vmc::step();
    sf::wipe("w"); runTo(T,sdf,"w"); if (again) {if (plain) {auto c=sf::inflate("w.state"); mock::spit("w.state",c);} runTo(2*T,sdf,"w");} if (plain) {auto c=sf::inflate("w.state"); mock::spit("w.state",c);}
    std::string raw; std::vector<double> t; want("w.state",raw,t); bytes("raw",raw); vmc::state(raw); vmc::check(t.size()>0,"no states"); py(cat("states('w.state','",dtype,"',",tup(shape),",raw,",lst(t),",'",ident,"')")); });
  for (bool plain : {true,false}) { std::size_t n=0; if (vmc::ctx().haveOnly || true) { sf::wipe("w"); runTo(.6,1,"w"); if (plain) {auto c=sf::inflate("w.state"); mock::spit("w.state",c);} n=mock::slurp("w.state").size(); }
    auto content=mock::slurp("w.state"); std::string raw; std::vector<double> t; want("w.state",raw,t); std::string bounds="["; if (plain) {auto r=sf::records("w.state"); for (std::size_t i=1;i<=r.size();++i) bounds+=cat("(",sf::join(r,i).size(),",",i,"),");} else bounds+=cat("(",n,",",t.size(),")"); bounds+="]";
    for (std::size_t b=0;b<=n;b+=256) vmc::scenario(cat("torn/",nm,plain?"/plain":"/compressed","/block=",b),[&]{ vmc::step(std::min(n+1,b+256)-b); vmc::state(cat(b)); bytes("raw",raw); bytes("content",content);
      py(cat("torn('t.state',content,",bounds,",'",dtype,"',",tup(shape),",raw,",lst(t),",'",ident,"',",b,",",std::min(n+1,b+256),")")); }); }
  for (int lay=0; lay<6; ++lay) for (double tStart : {0.,.5}) for (double tArr : {0.,7.}) vmc::scenario(cat("initial/",nm,"/layout=",lay,"/t=",tStart,"/written=",tArr),[&]{ vmc::step();
    auto e=evaluate(cat("(lambda b: cpypyqed.write('i.state',b,",tArr,") or '')((lambda l: l[",lay,"%len(l)][1])(list(layouts(.25*data('",dtype,"',",tup(shape),")))))")); vmc::check(e.empty(),e);
    PyObject* b=PyRun_String(cat("np.ascontiguousarray(.25*data('",dtype,"',",tup(shape),")).tobytes()").c_str(),Py_eval_input,G,G); std::string raw(PyBytes_AsString(b),PyBytes_Size(b)); Py_DECREF(b);
    parameters::Table tab; evolution::Pars<> p(tab); auto o=mk(p); CaptureCout cap; if (tStart) cppqedutils::advanceTo(*o,tStart,std::cerr);
    p.initialFileName="i.state"; p.ofn="r"; sf::wipe("r"); p.T=tStart+.3; p.dc=0; p.Dt=.3; p.sdf=1; p.firstStateStream=true; cppqedutils::run(*o,p);
    auto h=held<A>(sf::records("r.state").at(0)); vmc::check(h.first==raw,"the run does not start from the array written"); vmc::near(h.second,tStart,"the instant at which it starts",1e-14); vmc::near(o->getTime(),tStart+.3,"final time"); vmc::state(raw); });
}

int main(int argc, char** argv) {
  vmc::init(argc,argv); const bool th=vmc::thorough();
  vstub::script()=[](uint64_t seed, uint64_t stream, uint64_t pos, uint64_t& out){ out=uint64_t((pos%3?.9:.002)*18446744073709551615.); return true; };
  PyImport_AppendInittab("cpypyqed",PyInit_cpypyqed); Py_InitializeEx(0); G=PyDict_New(); PyDict_SetItemString(G,"__builtins__",PyEval_GetBuiltins());
  if (PyObject* r=PyRun_String(prelude,Py_file_input,G,G)) Py_DECREF(r); else {PyErr_Print(); return 2;}
  // every shape up to the bound
  std::vector<std::vector<int>> shapes; std::function<void(std::vector<int>)> rec=[&](std::vector<int> s){ int n=1; for (int x : s) n*=x; if (n>(th?144:48)) return; if (!s.empty()) shapes.push_back(s); if ((int)s.size()<(th?5:4)) for (int x : {1,2,3,4}) {auto t=s; t.push_back(x); rec(t);} }; rec({});
  for (int r=5;r<=15;++r) { std::vector<int> a(r,1), b(r,1), c(r,1); a[0]=2; a[r-1]=3; b[r/2]=4; c[1]=2; c[2]=3; c[r-2]*=2; shapes.push_back(a); shapes.push_back(b); shapes.push_back(c); }
  shapes.push_back({300}); shapes.push_back({17,23}); shapes.push_back({1,1000});
  for (auto dtype : {"float","complex"}) for (auto& s : shapes) vmc::scenario(cat("array/",dtype,tup(s)),[&]{ vmc::step(); vmc::state(tup(s)+dtype); py(cat("roundtrip('",dtype,"',",tup(s),",[0.,-1.5,0.1,1e300])")); });
  // sequences of writes to one file
  const char* alpha[]={"('float',(3,))","('complex',(3,))","('float',(2,3))","('complex',(2,2,2))","('complex',(40,))","('float',(1,))"};
  for (int i=0;i<6;++i) for (int j=0;j<6;++j) for (int k=0;k<6;++k) vmc::scenario(cat("overwrite/",i,j,k),[&]{ vmc::step(3); vmc::state(cat(i,j,k)); py(cat("overwrite([",alpha[i],",",alpha[j],",",alpha[k],"])")); });
  // what cannot be represented is refused and leaves the file alone
  for (auto e : {"np.arange(3)","np.arange(3,dtype='int32')","np.array([True,False])","np.zeros(3,dtype='float32')","np.zeros((2,2),dtype='complex64')","np.zeros(3,dtype='>f8')","np.zeros(3,dtype='>c16')","np.array(1.5)","np.array(1.5+1j)","np.array(['a'])","np.array([None])","np.zeros((1,)*16)","np.zeros((1,)*17,dtype=complex)","[1.,2.]","(1.,2.)","None","1.5","'text'"}) vmc::scenario(cat("refused/",e),[&]{ vmc::step(); vmc::state(std::string(e)); py(cat("refused(\"\"\"",e,"\"\"\")")); });
  for (int i=0;i<4;++i) vmc::scenario(cat("unreadable/",i),[&]{ vmc::step(); vmc::state(cat(i)); if (i==1) mock::spit("u.state",""); if (i==2) mock::spit("u.state","# 1 2 3\n"); if (i==3) mock::spit("u.state","12345"); py(cat("unreadable('",i==0?"missing.state":"u.state","')")); });
  { DArray<1> d(3); d=1.,-.5,.25; CArray<1> c(2); c=dcomp(1.,.25),dcomp(0.,-.5); kind<DArray<1>>("simulated-real","float",{3},"Simulated",mkSim(d)); kind<CArray<1>>("simulated-complex","complex",{2},"Simulated",mkSim(c)); }
  kind<CArray<1>>("mcwf1","complex",{3},"MCWF_Trajectory",mkMCWF<1>({3})); kind<CArray<2>>("mcwf2","complex",{2,3},"MCWF_Trajectory",mkMCWF<2>({2,3})); kind<CArray<3>>("mcwf3","complex",{2,1,2},"MCWF_Trajectory",mkMCWF<3>({2,1,2}));
  kind<CArray<2>>("master1","complex",{3,3},"Master",mkMaster<1>({3})); kind<CArray<4>>("master2","complex",{2,3,2,3},"Master",mkMaster<2>({2,3}));
  return vmc::finish();
}
