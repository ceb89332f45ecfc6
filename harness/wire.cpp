// C02 bit sets on the wire, C04 sizes/strings/slices, C09 statuses.
#include "ctl.h"
#include <pv/bitSet.h>
#include <pv/status.h>
#include <pv/serializeHelper.h>
#include <pv/pvData.h>
using namespace vh;
typedef std::vector<int> VI;
static size_t pickcap(Rng& r) { static const size_t k[]={9,10,11,13,16,17,24,32,40,64,100,300,1024}; return k[r.below(sizeof(k)/sizeof(k[0]))]; }
static VI members(const BitSet& b) { VI v; for(int i=b.nextSetBit(0); i>=0; i=b.nextSetBit(i+1)) v.push_back(i); return v; }
static std::string rbytes(Rng& r, size_t n) { std::string s; for(size_t i=0;i<n;i++) s+=char(r.chance(1,4)? (r.chance(1,2)?0:255) : r.below(256)); return s; }
static size_t slen(Rng& r) { static const size_t k[]={0,1,2,7,8,9,31,32,33,63,64,65,252,253,254,255,256,257,300,511,700};
    return r.chance(2,3)? k[r.below(sizeof(k)/sizeof(k[0]))] : r.below(120); }
template<class F> static std::string guard(F f) { try { f(); return ""; } catch(std::exception& e) { return std::string(typeid(e).name()); } }

// a random set with interesting top bits
static BitSet rset(Rng& r, unsigned mx) {
    BitSet b; if(r.chance(1,12)) return b;
    static const unsigned tops[]={0,1,6,7,8,9,15,16,31,32,33,47,48,55,56,57,62,63,64,65,71,72,73,119,120,126,127,128,129,135,136,191,192,193,255,256,511,512};
    unsigned top=r.chance(2,3)? tops[r.below(sizeof(tops)/sizeof(tops[0]))] : r.below(mx);
    b.set(top);
    for(size_t k=r.below(r.chance(1,2)?4:40);k;k--) b.set(r.below(top+1));
    if(r.chance(1,4)) { b.set(top+70); b.clear(top+70); }
    return b;
}
static void bits(Ctx& c) {
    Rng& r=c.rng; size_t n=c.n(900,20000); 
    for(size_t i=0;i<n;i++) { c.every(40);
        BitSet src(rset(r,600)), dst(rset(r,600)); int bo=BO[r.below(2)]; size_t cap=pickcap(r), cap2=pickcap(r);
        Obj o; o("op","bits")("bo",boName(bo))("cap",cap)("set",members(src))("pre",members(dst));
        OutCtl oc(r,cap,bo); if(r.chance(1,2)) { size_t k=r.below(std::min(cap,(size_t)8)); for(size_t q=0;q<k;q++) oc.buf.putByte(0x77); oc.drain(9); oc.out.clear(); oc.buf.setLimit(9+r.below(cap-8)); }
        std::string ex=guard([&]{ src.serialize(&oc.buf,&oc); });
        std::string by=oc.finish();
        o("bytes",jbytes(by))("after",members(src));
        size_t used=0;
        if(ex.empty()) { InCtl ic(r,by+rbytes(r,r.below(12)),cap2,bo); ex=guard([&]{ dst.deserialize(&ic.buf,&ic); }); used=ic.used(); }
        o("ex",ex)("got",members(dst))("eq",src==dst)("used",used);
        c.log(o);
    }
    n=c.n(400,8000);
    for(size_t i=0;i<n;i++) { c.every(40);  // arbitrary byte strings as encodings
        BitSet dst(rset(r,600)); int bo=BO[r.below(2)]; size_t len=r.chance(1,2)?r.below(20):r.below(60);
        std::string b=rbytes(r,len); if(r.chance(1,3)) b+=std::string(r.below(10),'\0');
        std::string in; in+=char(b.size()); in+=b;
        InCtl ic(r,in+rbytes(r,r.below(12)),pickcap(r),bo);
        std::string ex=guard([&]{ dst.deserialize(&ic.buf,&ic); });
        BitSet same; VI m=members(dst); for(int x: m) same.set(x);
        c.log(Obj()("op","bitsdec")("bo",boName(bo))("in",jbytes(in))("ex",ex)("got",m)("eq",same==dst&&!(same!=dst))("used",ic.used()));
    }
    // the library's own vector transport, including sets larger than its buffer
    static const unsigned big[]={70,2000,131070,131071,131072,131135,140000};
    for(unsigned top: big) for(int bo: BO) {
        BitSet src,dst(rset(r,300)); src.set(top); for(int k=0;k<5;k++) src.set(r.below(top));
        std::vector<epicsUInt8> v; std::string by, ex;
        // BitSet is Serializable
        ex=guard([&]{ serializeToVector(&src,bo,v); by.assign((char*)v.data(),v.size()); deserializeFromVector(&dst,bo,v); });
        c.log(Obj()("op","bits")("bo",boName(bo))("cap",0)("set",members(src))("pre",VI())("bytes",jbytes(by))("after",members(src))("ex",ex)("got",members(dst))("eq",src==dst)("used",by.size()));
    }
}
static void prim(Ctx& c) {
    Rng& r=c.rng;
    static const long sz[]={-1,0,1,127,128,252,253,254,255,256,257,32767,32768,65535,65536,16777215,16777216,2147483646,2147483647};
    size_t n=c.n(300,4000);
    for(size_t i=0;i<n;i++) { c.every(40);
        long s=i<sizeof(sz)/sizeof(sz[0])*2? sz[i/2] : r.chance(1,3)? long(r.below(600)) : r.chance(1,2)? long(r.below(1u<<20)):long(r.below(1u<<31));
        int bo=BO[i%2]; OutCtl oc(r,pickcap(r),bo);
        SerializeHelper::writeSize((size_t)s,&oc.buf,&oc);
        std::string by=oc.finish(); InCtl ic(r,by+rbytes(r,r.below(6)),pickcap(r),bo); long got=-2;
        std::string ex=guard([&]{ got=(long)SerializeHelper::readSize(&ic.buf,&ic); });
        c.log(Obj()("op","size")("bo",boName(bo))("n",s)("bytes",jbytes(by))("ex",ex)("got",got)("used",ic.used()));
    }
    n=c.n(300,5000);
    for(size_t i=0;i<n;i++) { c.every(40); // every first byte, and non-canonical and negative sizes
        std::string in; int bo=BO[r.below(2)];
        if(i<256) in=std::string(1,char(i)); else in=std::string(1,char(254));
        in+=rbytes(r,r.below(7));
        InCtl ic(r,in,pickcap(r),bo); long got=-2; std::string ex=guard([&]{ got=(long)SerializeHelper::readSize(&ic.buf,&ic); });
        c.log(Obj()("op","sizedec")("bo",boName(bo))("in",jbytes(in))("ex",!ex.empty())("got",got)("used",ex.empty()?ic.used():0));
    }
    n=c.n(500,8000);
    for(size_t i=0;i<n;i++) { c.every(40);
        std::string s=rbytes(r,slen(r)); int bo=BO[r.below(2)]; size_t cap=pickcap(r);
        OutCtl oc(r,cap,bo); if(r.chance(1,2)) { oc.buf.putByte(1); oc.drain(1); oc.out.clear(); }
        int how=r.below(4); std::string by, in; size_t off=0,cnt=0; std::string ex;
        Obj o;
        if(how<2) { ex=guard([&]{ SerializeHelper::serializeString(s,&oc.buf,&oc); }); o("op","str"); }
        else {
            off=r.chance(1,8)?s.size()+r.below(5):r.below(s.size()+1); cnt=r.chance(1,4)?s.size()+r.below(9):r.below(s.size()+1);
            if(r.chance(1,12)) cnt=(size_t)-1;
            if(how==2) ex=guard([&]{ SerializeHelper::serializeSubstring(s,off,cnt,&oc.buf,&oc); });
            else ex=guard([&]{ PVStringPtr f(getPVDataCreate()->createPVScalar<PVString>()); f->put(s); f->serialize(&oc.buf,&oc,off,cnt); });
            o("op","sub")("off",off)("cnt",std::min(cnt,(size_t)100000))("via",how);
        }
        by=oc.finish(); InCtl ic(r,by+rbytes(r,r.below(9)),pickcap(r),bo); std::string got("?");
        if(ex.empty()) ex=guard([&]{ got=SerializeHelper::deserializeString(&ic.buf,&ic); });
        c.log(o("bo",boName(bo))("s",jbytes(s))("bytes",jbytes(by))("ex",ex)("got",jbytes(got))("used",ic.used())("cap",cap));
    }
    for(int bo: BO) for(size_t len: {size_t(16383),size_t(16384),size_t(16390),size_t(40000)}) { // longer than the vector transport's buffer
        std::string s(len,'x'); for(size_t k=0;k<len;k+=97) s[k]=char(r.below(256)); std::string by,ex,got("?");
        PVStringPtr f(getPVDataCreate()->createPVScalar<PVString>()), g(getPVDataCreate()->createPVScalar<PVString>()); f->put(s);
        std::vector<epicsUInt8> v;
        ex=guard([&]{ serializeToVector(f.get(),bo,v); by.assign((char*)v.data(),v.size()); deserializeFromVector(g.get(),bo,v); got=g->get(); });
        c.log(Obj()("op","str")("bo",boName(bo))("s",jbytes(s))("bytes",jbytes(by))("ex",ex)("got",jbytes(got))("used",by.size())("cap",0));
    }
    n=c.n(300,3000);
    for(size_t i=0;i<n;i++) { c.every(40);  // decoding arbitrary string encodings: non-canonical prefixes, truncations
        std::string s=rbytes(r,r.below(20)), in; int bo=BO[r.below(2)];
        if(r.chance(1,6)) in=std::string(1,char(255)); else if(r.chance(1,2)) in=std::string(1,char(s.size()));
        else { char q[4]={0,0,0,char(s.size())}; if(bo==EPICS_ENDIAN_LITTLE) std::swap(q[0],q[3]); in=std::string(1,char(254))+std::string(q,4); }
        in+=s; if(r.chance(1,4)) in.resize(r.below(in.size()+1)); else in+=rbytes(r,r.below(5));
        InCtl ic(r,in,pickcap(r),bo); std::string got; std::string ex=guard([&]{ got=SerializeHelper::deserializeString(&ic.buf,&ic); });
        c.log(Obj()("op","strdec")("bo",boName(bo))("in",jbytes(in))("ex",!ex.empty())("got",jbytes(ex.empty()?got:std::string()))("used",ex.empty()?ic.used():0));
    }
}
static Raw sobs(const Status& s) {
    std::ostringstream d; d<<s;
    return Obj()("t",(int)s.getType())("m",jbytes(s.getMessage()))("k",jbytes(s.getStackDump()))("ok",s.isOK())("succ",s.isSuccess())("b",bool(s))("dump",jbytes(d.str())).done();
}
static void status(Ctx& c) {
    Rng& r=c.rng; size_t n=c.n(2500,12000);
    for(size_t i=0;i<n;i++) {
        c.start(); Status st[3]; size_t len=3+r.below(10);
        for(size_t k=0;k<len;k++) {
            int s=r.below(3), t=r.below(3), q=r.below(9); Obj o; o("s",s+1);
            std::string m=rbytes(r,r.chance(1,3)?slen(r)%40:r.below(6)), d=r.chance(1,2)?"":rbytes(r,r.chance(1,3)?slen(r)%70:r.below(8));
            static const std::string fixed[]={"","bad","worse"}; if(r.chance(1,2)) m=fixed[r.below(3)];
            if(q<=1) { int ty=r.below(4); bool two=r.chance(1,2); if(two) d="";
                std::string ex=guard([&]{ st[s]=two?Status((Status::StatusType)ty,m):Status((Status::StatusType)ty,m,d); });
                o("op","make")("t",ty)("m",jbytes(m))("k",jbytes(d))("ex",!ex.empty()); }
            else if(q==2) { int ty=1+r.below(3); st[s]= ty==1?Status::warn(m): ty==2?Status::error(m): Status::fatal(m); o("op","make")("t",ty)("m",jbytes(m))("k",jbytes(""))("ex",false); }
            else if(q==3) { st[s]= r.chance(1,2)? Status() : Status::Ok; o("op","reset"); }
            else if(q==4) { if(r.chance(1,2)) st[s]=st[t]; else { Status x(st[t]); st[s]=x; } o("op","assign")("u",t+1); }
            else if(q<=6) { if(r.chance(1,2)) st[s].maximize(st[t]); else st[s]|=st[t]; o("op","max")("u",t+1); }
            else { int bo=BO[r.below(2)]; OutCtl oc(r,pickcap(r),bo); std::string ex=guard([&]{ st[t].serialize(&oc.buf,&oc); }); std::string by=oc.finish();
                InCtl ic(r,by+rbytes(r,r.below(6)),pickcap(r),bo); if(ex.empty()) ex=guard([&]{ st[s].deserialize(&ic.buf,&ic); });
                o("op","wire")("u",t+1)("bo",boName(bo))("bytes",jbytes(by))("used",ic.used())("ex",ex); }
            std::vector<Raw> v; for(int z=0;z<3;z++) v.push_back(sobs(st[z])); o("obs",v);
            c.log(o);
        }
    }
}
static void drive(Ctx& c) { if(c.mode=="bits") bits(c); else if(c.mode=="prim") prim(c); else status(c); }
VH_MAIN(drive)
