// C08: decoding of malformed bytes.  Valid encodings are truncated, corrupted
// byte by byte, spliced; the outcome and the target's state are logged.
// mode "small": no giant declared sizes (run under the address sanitizer);
// mode "giant": declared sizes up to 2^31-1 with little memory; mode "deep": nesting.
#include "pvh.h"
#include "ctl.h"
#include <pv/status.h>
#include <pv/serializeHelper.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <new>
using namespace vh;
// a machine with little memory: large requests fail the standard way
static void* getmem(size_t n) { if(n>(64ul<<20)) throw std::bad_alloc(); void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return getmem(n); }
void* operator new[](size_t n) { return getmem(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
static bool giant;
static size_t pickcap(Rng& r) { static const size_t k[]={9,11,16,24,40,100,4096}; return k[r.below(7)]; }
static GenOpt opt() { GenOpt o; o.nan=true; o.maxf=3; return o; }
// a type may announce fixed arrays of billions of elements: instances are made of the others
static bool hugetype(const FieldConstPtr& f) {
    switch(f->getType()) {
    case scalarArray: { const ScalarArray* a=static_cast<const ScalarArray*>(f.get()); return a->getArraySizeType()==Array::fixed && a->getMaximumCapacity()>1000; }
    case structure: { const Structure* s=static_cast<const Structure*>(f.get()); for(size_t i=0;i<s->getNumberFields();i++) if(hugetype(s->getField(i))) return true; return false; }
    default: return false; } // unions and their arrays start empty
}
static void dtype(Ctx& c, const std::string& by, int bo) {
    Rng& r=c.rng; InCtl ic(r,by,pickcap(r),bo); FieldConstPtr f; std::string ex=exname([&]{ f=getFieldCreate()->deserialize(&ic.buf,&ic); });
    Obj e; e("op","type")("bo",boName(bo))("in",jbytes(by))("ok",ex.empty())("used",ic.used()); if(ex.empty()) { e("res",jtype(f)); if(f && hugetype(f)) e("inst","huge")("dflt",0); else if(f) { // usable: instances can be made
        PVFieldPtr p; std::string x2=exname([&]{ p=mkpv(f); }); e("inst",x2)("dflt",x2.empty()?jval(p):Raw("0")); } }
    c.log(e);
}
static void dval(Ctx& c, const FieldConstPtr& t, const PVFieldPtr& proto, const std::string& by, int bo, const BitSet* m) {
    Rng& r=c.rng; PVFieldPtr dst(mkpv(t)); if(proto) dst->copyUnchecked(*proto);
    Obj e; e("op",m?"mask":"val")("t",jtype(t))("bo",boName(bo))("in",jbytes(by))("pre",jval(dst));
    InCtl ic(r,by,pickcap(r),bo,r.chance(1,4)); BitSet mm; if(m) mm=*m;
    std::string ex=exname([&]{ if(m) static_cast<PVStructure*>(dst.get())->deserialize(&ic.buf,&ic,&mm); else dst->deserialize(&ic.buf,&ic); });
    e("ok",ex.empty())("used",ic.used())("res",jval(dst)); if(m) e("m",members(*m));
    // whatever happened, the target stays usable: a good value can still be decoded into it
    PVFieldPtr good(mkpv(t)); Rng r2(c.lines); gfill(r2,good.get(),opt()); OutCtl oc(r,64,bo); good->serialize(&oc.buf,&oc); std::string g(oc.finish());
    InCtl ic2(r,g,64,bo); std::string ex2=exname([&]{ dst->deserialize(&ic2.buf,&ic2); });
    e("ex2",ex2)("good",jval(good))("res2",jval(dst));
    c.log(e);
}
static void dbits(Ctx& c, const std::string& by, int bo) {
    Rng& r=c.rng; InCtl ic(r,by,pickcap(r),bo); BitSet b; b.set(3); b.set(200); std::string ex=exname([&]{ b.deserialize(&ic.buf,&ic); });
    Obj e; e("op","bits")("bo",boName(bo))("in",jbytes(by))("ok",ex.empty())("used",ic.used())("res",members(b)); c.log(e);
}
static void dstatus(Ctx& c, const std::string& by, int bo) {
    Rng& r=c.rng; InCtl ic(r,by,pickcap(r),bo); Status s(Status::STATUSTYPE_WARNING,"old","stack"); std::string ex; int k=0; std::string okall;
    Obj e; e("op","status")("bo",boName(bo))("in",jbytes(by)); std::vector<Raw> st; std::string dump;
    // as many as the input holds, into the same object
    while(ex.empty() && k<4 && (k==0 || ic.used()<by.size())) { size_t u0=ic.used(); ex=exname([&]{ s.deserialize(&ic.buf,&ic); }); k++;
        if(ex.empty()) { std::ostringstream o; o<<s; dump=o.str(); }
        Obj x; x("ok",ex.empty())("used",ic.used()-u0)("t",(int)s.getType())("m",jbytes(s.getMessage()))("k",jbytes(s.getStackDump())); st.push_back(x.done()); }
    e("st",st); c.log(e);
}
static void dstr(Ctx& c, const std::string& by, int bo) {
    Rng& r=c.rng; InCtl ic(r,by,pickcap(r),bo); std::string s, ex=exname([&]{ s=SerializeHelper::deserializeString(&ic.buf,&ic); });
    Obj e; e("op","str")("bo",boName(bo))("in",jbytes(by))("ok",ex.empty())("used",ic.used())("res",jbytes(s)); c.log(e);
}
template<class F> static void mutate(Rng& r, const std::string& by, size_t budget, F f) {
    if(by.size()>400) return;
    if(!giant && by.find('\xfe')!=std::string::npos) return;
    static const int K[]={0,1,2,3,4,5,6,7,8,9,10,16,20,0x20,0x2b,0x43,0x60,0x68,0x70,0x78,0x7f,0x80,0x81,0x82,0x83,0x84,0x88,0x89,0x8a,0x8b,0xa0,0xe0,0xfd,0xff};
    std::vector<std::string> all;
    for(size_t k=0;k<by.size();k++) all.push_back(by.substr(0,k));
    for(size_t p=0;p<by.size();p++) for(int j=0;j<4;j++) { std::string x(by); int v= j==0?255: j==1?((unsigned char)by[p]+1)%256: j==2?K[r.below(34)]:(int)r.below(256);
        if(giant && r.chance(1,2)) v=254; if(!giant && v==254) v=253; x[p]=char(v); all.push_back(x);
        if(giant && v==254 && r.chance(1,2)) { std::string z(x); z.insert(p+1,std::string(r.chance(1,2)?"\x7f\xff\xff\xff":"\xff\xff\xff\x7f",4)); all.push_back(z); } }
    for(int j=0;j<4 && by.size()>1;j++) { std::string x(by); size_t a=r.below(x.size()), n=1+r.below(3); if(j&1) x.erase(a,n); else x.insert(a,x.substr(r.below(x.size()),n)); all.push_back(x); }
    // random choice within the budget
    while(all.size()>budget) { size_t k=r.below(all.size()); all[k]=all.back(); all.pop_back(); }
    for(auto& x: all) f(x+"\x01\x02");
    if(all.size()) f(all[0]);
    f(by);
}
static std::string rnd(Rng& r, size_t n) { static const int K[]={0,1,2,3,0x08,0x20,0x2a,0x60,0x68,0x80,0x81,0x82,0x83,0x88,0x89,0x8a,0x10,0x78,0xff,'a'};
    std::string s; for(size_t i=0;i<n;i++) { int v=r.chance(2,3)?K[r.below(20)]:(int)r.below(254); s+=char(v); } return s; }
static void drive(Ctx& c) {
    Rng& r=c.rng; GenOpt o(opt()); FieldCreatePtr fc(getFieldCreate());
    if(c.mode=="deep") {
        struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); rl.rlim_cur=rl.rlim_max=4ul<<30; setrlimit(RLIMIT_AS,&rl);
        static const long N[]={10,100,1000,200000};
        for(int what=0;what<3;what++) for(int k=0;k<4;k++) { c.start();
            fflush(c.out); pid_t p=fork();
            if(!p) { std::string s; int rc=0;
                if(what==0) s.assign(N[k],'\x88'); else if(what==1) { for(long i=0;i<N[k];i++) s.append("\x80\x00\x01\x01""a",5); } else s.assign(N[k],'\x82');
                InCtl ic(r,s,4096,EPICS_ENDIAN_BIG);
                std::string ex=exname([&]{ if(what<2) fc->deserialize(&ic.buf,&ic); else { PVFieldPtr v(mkpv(fc->createVariantUnion())); v->deserialize(&ic.buf,&ic); } });
                _exit(ex.empty()?1:0); }
            int st=0; waitpid(p,&st,0);
            c.log(Obj()("op","deep")("what",what)("n",N[k])("sig",WIFSIGNALED(st)?WTERMSIG(st):0)("rc",WIFEXITED(st)?WEXITSTATUS(st):-1)); }
        return;
    }
    giant=c.mode=="giant";
    size_t n=giant?c.n(25,300):c.n(75,1500);
    for(size_t i=0;i<n;i++) { int bo=BO[r.below(2)];
        { FieldConstPtr t(gtype(r,o,3)); OutCtl oc(r,64,bo); t->serialize(&oc.buf,&oc); mutate(r,oc.finish(),14,[&](const std::string& x){ c.every(20); dtype(c,x,bo); }); }
        { FieldConstPtr t(i%4==0?gtype(r,o,1):i%4==1?FieldConstPtr(gunion(r,o,2)):i%4==2?gtype(r,o,3):FieldConstPtr(fc->createStructureArray(gstruct(r,o,1)))); PVFieldPtr v(mkpv(t)), old(mkpv(t)); gfill(r,v.get(),o); gfill(r,old.get(),o);
          OutCtl oc(r,64,bo); v->serialize(&oc.buf,&oc); std::string by(oc.finish()); if(by.size()<150) mutate(r,by,22,[&](const std::string& x){ c.every(20); dval(c,t,old,x,bo,0); }); }
        if(i%3==0) { StructureConstPtr t(gstruct(r,o,2,1)); PVStructurePtr v(getPVDataCreate()->createPVStructure(t)), old(getPVDataCreate()->createPVStructure(t)); gfill(r,v.get(),o); gfill(r,old.get(),o);
          BitSet m(gmask(r,v->getNumberFields())); OutCtl oc(r,64,bo); BitSet mm(m); v->serialize(&oc.buf,&oc,&mm); std::string by(oc.finish()); if(by.size()<150) mutate(r,by,12,[&](const std::string& x){ c.every(20); dval(c,t,old,x,bo,&m); }); }
        { BitSet b; for(size_t k=r.below(6);k;k--) b.set(r.below(140)); OutCtl oc(r,64,bo); b.serialize(&oc.buf,&oc); mutate(r,oc.finish(),8,[&](const std::string& x){ c.every(20); dbits(c,x,bo); }); }
        { std::string s; OutCtl oc(r,64,bo); SerializeHelper::serializeString(gstring(r,20),&oc.buf,&oc); mutate(r,oc.finish(),5,[&](const std::string& x){ c.every(20); dstr(c,x,bo); }); }
        { OutCtl oc(r,64,bo); for(int k=0;k<2;k++) { if(r.chance(1,3)) Status::Ok.serialize(&oc.buf,&oc); else { Status s((Status::StatusType)(1+r.below(3)),gstring(r,4),gstring(r,3)); s.serialize(&oc.buf,&oc); } }
          mutate(r,oc.finish(),8,[&](const std::string& x){ c.every(20); dstatus(c,x,bo); }); }
        if(!giant) for(int k=0;k<6;k++) { c.every(20); dtype(c,rnd(r,1+r.below(12)),bo); }
        if(!giant) { PVFieldPtr none; for(int k=0;k<4;k++) { c.every(20); dval(c,fc->createVariantUnion(),none,rnd(r,1+r.below(14)),bo,0); } }
    }
    // directed: every scalar array kind with a bound, the union selector, bounded strings, element codes
    for(int bi=0;bi<2 && !giant;bi++) { int bo=BO[bi];
        for(int code=0;code<256;code++) if(code!=254) { c.every(20); dtype(c,std::string(1,char(code))+std::string("\x01\x80\x00\x00",4),bo); dtype(c,std::string(1,char(code)),bo); dtype(c,std::string(1,char(code))+std::string("\x00\x01\x01""a\x22",5),bo); dtype(c,std::string(1,char(code))+std::string("\xff\xff",2),bo); dtype(c,std::string(1,char(code))+std::string("\x81\x00\x00",3),bo);}
        // every byte of small descriptions replaced by every type code, and by nothing
        { static const std::string T[]={ std::string("\x81\x00\x02\x01""a\x22\x01""b\x60",9), std::string("\x80\x00\x02\x01""a\x22\x01""b\x81\x00\x01\x01x\x43",14), std::string("\x80\x01I\x02\x01""a\x88\x80\x00\x01\x01y\x28\x01""b\x89\x81\x00\x01\x01z\x68",21),
            std::string("\x81\x01U\x03\x01""a\x82\x01""b\x83\x05\x01""c\x8a",13), std::string("\x80\x00\x01\x01""a\x80\x00\x02\x01""b\x30\x01""c\x20",13), std::string("\x89\x81\x00\x02\x01""a\x20\x01""b\x4b",10), std::string("\x88\x80\x00\x02\x01""a\x82\x01""b\x78",10) };
          static const int V[]={0,1,2,0x20,0x27,0x28,0x30,0x38,0x43,0x4b,0x60,0x68,0x70,0x78,0x80,0x81,0x82,0x83,0x84,0x88,0x89,0x8a,0x8b,0xa0,0xfd,0xff};
          for(const std::string& t: T) for(size_t p=0;p<t.size();p++) { for(int v: V) { c.every(40); std::string x(t); x[p]=char(v); dtype(c,x,bo); }
            dtype(c,t.substr(0,p),bo); std::string x(t); x.erase(p,1); dtype(c,x,bo); } }
        PVFieldPtr none;
        for(int a=0;a<6;a++) for(int b=0;b<6;b++) { c.every(20); std::string x; int v[2]={a,b}; for(int k=0;k<2;k++) { if(v[k]==5) x+="\xff"; else x+=std::string(1,char(v[k]))+(k?std::string("\x01z\x00",3):std::string("\x02mm\x01s",5)); } dstatus(c,x,bo); }
        for(int k=0;k<12;k++) { ScalarType t=(ScalarType)k; c.every(20);
            dval(c,fc->createBoundedScalarArray(t,2),none,std::string("\x03")+std::string(30,'\0'),bo,0); dval(c,fc->createBoundedScalarArray(t,2),none,std::string("\x02")+std::string(30,'\0'),bo,0);
            dval(c,fc->createScalarArray(t),none,std::string("\xff")+std::string(30,'\0'),bo,0); dval(c,fc->createFixedScalarArray(t,2),none,std::string(k<11?1:0,'\0'),bo,0); }
        for(int k=0;k<5;k++) { dval(c,fc->createBoundedString(2),none,std::string(1,char(k))+"abcdef",bo,0); }
        UnionConstPtr u(fc->createFieldBuilder()->add("a",pvByte)->add("b",pvString)->createUnion());
        for(int k=0;k<256;k++) if(k!=254) { c.every(20); dval(c,u,none,std::string(1,char(k))+std::string("\x01x",2),bo,0); } }
}
VH_MAIN(drive)
