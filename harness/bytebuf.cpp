// C03: histories of cursor, put and get operations on a real ByteBuffer.
#include "vh.h"
#include <pv/byteBuffer.h>
#include <pv/serialize.h>
using namespace epics::pvData; using namespace vh;
template<class T> static std::string be(T v) { char b[sizeof(T)]; memcpy(b,&v,sizeof(T)); std::string s(b,sizeof(T));
    if(EPICS_BYTE_ORDER==EPICS_ENDIAN_LITTLE) std::reverse(s.begin(),s.end()); return s; }
template<class T> static T unbe(std::string s) { if(EPICS_BYTE_ORDER==EPICS_ENDIAN_LITTLE) std::reverse(s.begin(),s.end()); T v; memcpy(&v,s.data(),sizeof(T)); return v; }
static std::string rb(Rng& r,size_t n) { std::string s; for(size_t i=0;i<n;i++) s+=char(r.chance(1,5)?0x80*r.below(2):r.below(256)); return s; }
enum { G=8 };
struct S { std::unique_ptr<ByteBuffer> b; std::vector<char> mem; size_t cap; bool own; };
static void obs(Obj& o, S& s) {
    std::string m; if(s.own) m.assign(s.b->getBuffer(), s.cap); else m.assign(&s.mem[G], s.cap);
    bool guard=true; if(!s.own) for(int i=0;i<G;i++) if(s.mem[i]!='\x5c' || s.mem[G+s.cap+i]!='\x5c') guard=false;
    o("mem",jbytes(m))("guard",guard)("pos",s.b->getPosition())("lim",s.b->getLimit())("rem",s.b->getRemaining())("cap",s.b->getSize())
     ("rev",std::vector<bool>({s.b->reverse<int8>(),s.b->reverse<uint8>(),s.b->reverse<bool>(),s.b->reverse<int16>(),s.b->reverse<uint16>(),s.b->reverse<int32>(),s.b->reverse<uint32>(),s.b->reverse<int64>(),s.b->reverse<uint64>(),s.b->reverse<float>(),s.b->reverse<double>()}));
}
template<class T> static void scalar(S& s, Obj& o, Rng& r, bool named) {
    size_t z=sizeof(T); ByteBuffer& b=*s.b; int k=r.below(6); o("z",z);
    if(k==0) { if(b.getRemaining()<z) { o("op","nop"); return; } std::string v=rb(r,z); T t=unbe<T>(v); b.put<T>(t); o("op","put")("v",jbytes(v)); }
    else if(k==1) { if(b.getRemaining()<z) { o("op","nop"); return; } T t=b.get<T>(); o("op","get")("v",jbytes(be(t))); }
    else if(k==2||k==3) { if(b.getLimit()<z) { o("op","nop"); return; } size_t i=r.below(b.getLimit()-z+1);
        if(k==2) { std::string v=rb(r,z); b.put<T>(i,unbe<T>(v)); o("op","putat")("i",i)("v",jbytes(v)); }
        else { T t=b.get<T>(i); o("op","getat")("i",i)("v",jbytes(be(t))); } }
    else { size_t n=r.below(b.getRemaining()/z+1); std::vector<T> a(n+1); std::vector<Raw> l;
        if(k==4) { for(size_t i=0;i<n;i++) { std::string v=rb(r,z); memset(&a[i],0,z); a[i]=unbe<T>(v); l.push_back(jbytes(v)); } b.putArray<T>(&a[0],n); o("op","puta")("v",l); }
        else { b.getArray<T>(&a[0],n); for(size_t i=0;i<n;i++) l.push_back(jbytes(be(a[i]))); o("op","geta")("v",l); } }
}
// the named accessors
template<class T,class P,class PI,class Ge,class GI> static void named(S& s,Obj& o,Rng& r,P p,PI pi,Ge g,GI gi) {
    size_t z=sizeof(T); ByteBuffer& b=*s.b; int k=r.below(4); o("z",z);
    if(k<2) { if(b.getRemaining()<z) { o("op","nop"); return; }
        if(k==0) { std::string v=rb(r,z); p(b,unbe<T>(v)); o("op","put")("v",jbytes(v)); } else { T t=g(b); o("op","get")("v",jbytes(be(t))); } }
    else { if(b.getLimit()<z) { o("op","nop"); return; } size_t i=r.below(b.getLimit()-z+1);
        if(k==2) { std::string v=rb(r,z); pi(b,i,unbe<T>(v)); o("op","putat")("i",i)("v",jbytes(v)); } else { T t=gi(b,i); o("op","getat")("i",i)("v",jbytes(be(t))); } }
}
#define NAMED(T,N) named<T>(s,o,r,[](ByteBuffer&b,T v){b.put##N(v);},[](ByteBuffer&b,size_t i,T v){b.put##N(i,v);},[](ByteBuffer&b){return T(b.get##N());},[](ByteBuffer&b,size_t i){return T(b.get##N(i));})
static void drive(Ctx& c) {
    Rng& r=c.rng; size_t n=c.n(420,6000);
    for(size_t q=0;q<n;q++) {
        S s; s.cap=r.chance(1,6)?r.below(4)+1:8+r.below(28); s.own=r.chance(1,3); int bo=r.chance(1,2)?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE;
        if(s.own) { s.b.reset(new ByteBuffer(s.cap,bo)); memset((char*)s.b->getBuffer(),0,s.cap); }
        else { s.mem.assign(s.cap+2*G,'\x5c'); memset(&s.mem[G],0,s.cap); s.b.reset(new ByteBuffer(&s.mem[G],s.cap,bo)); }
        Obj st; obs(st,s); c.start(st("bo",bo==EPICS_ENDIAN_BIG?"B":"L"));
        for(size_t len=6+r.below(22);len;len--) {
            Obj o; ByteBuffer& b=*s.b;
            switch(r.below(26)) {
            case 0: b.clear(); o("op","clear"); break;
            case 1: b.flip(); o("op","flip"); break;
            case 2: b.rewind(); o("op","rewind"); break;
            case 3: { size_t p=r.below(b.getLimit()+1); b.setPosition(p); o("op","setpos")("i",p); break; }
            case 4: { size_t p=b.getPosition()+r.below(s.cap-b.getPosition()+1); b.setLimit(p); o("op","setlim")("i",p); break; }
            case 5: { int e=r.chance(1,2)?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE; b.setEndianess(e); o("op","endian")("bo",e==EPICS_ENDIAN_BIG?"B":"L"); break; }
            case 6: { size_t k=r.below(b.getRemaining()+1), of=r.below(4); std::string d=rb(r,k+of); b.put(d.data(),of,k); o("op","putb")("v",jbytes(d.substr(of))); break; }
            case 7: { size_t k=r.below(b.getRemaining()+1), of=r.below(4); std::string d(k+of+1,'\x11'); b.get(&d[0],of,k); o("op","getb")("v",jbytes(d.substr(of,k)))("clean",d.substr(0,of)==std::string(of,'\x11')&&d[k+of]=='\x11'); break; }
            case 8: scalar<int8>(s,o,r,0); break; case 9: scalar<uint8>(s,o,r,0); break;
            case 10: scalar<int16>(s,o,r,0); break; case 11: scalar<uint16>(s,o,r,0); break;
            case 12: scalar<int32>(s,o,r,0); break; case 13: scalar<uint32>(s,o,r,0); break;
            case 14: scalar<int64>(s,o,r,0); break; case 15: scalar<uint64>(s,o,r,0); break;
            case 16: scalar<float>(s,o,r,0); break; case 17: scalar<double>(s,o,r,0); break;
            case 18: NAMED(int8,Byte); break; case 19: NAMED(int16,Short); break; case 20: NAMED(int32,Int); break; case 21: NAMED(int64,Long); break;
            case 22: NAMED(float,Float); break; case 23: NAMED(double,Double); break;
            case 24: { if(!b.getRemaining()) { o("op","nop"); break; } bool v=r.chance(1,2); o("z",1);
                if(r.chance(1,2)) { b.putBoolean(v); o("op","put")("v",jbytes(std::string(1,char(v)))); } else { bool x=b.getBoolean(); o("op","getbool")("v",x); } break; }
            default: { if(!b.getLimit()) { o("op","nop"); break; } size_t i=r.below(b.getLimit()); bool v=r.chance(1,2); o("z",1)("i",i);
                if(r.chance(1,2)) { b.putBoolean(i,v); o("op","putat")("v",jbytes(std::string(1,char(v)))); } else { bool x=b.getBoolean(i); o("op","getboolat")("v",x); } break; }
            }
            obs(o,s); c.log(o);
        }
    }
}
VH_MAIN(drive)
