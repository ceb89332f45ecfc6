// C05 whole values, C06 partial updates and slices, C07 type descriptions on the wire.
#include "pvh.h"
#include "ctl.h"
using namespace vh;
static size_t pickcap(Rng& r) { static const size_t k[]={9,10,11,13,16,17,24,32,40,64,100,300,1024,4096}; return k[r.below(sizeof(k)/sizeof(k[0]))]; }
static std::string junk(Rng& r) { std::string s; for(size_t n=r.below(10);n;n--) s+=char(r.below(256)); return s; }
// one of the scalar/array/structure/union kinds, every scalar type in turn first
static FieldConstPtr pick(Rng& r, size_t i, const GenOpt& o) {
    FieldCreatePtr fc(getFieldCreate());
    if(i<12) return fc->createScalar((ScalarType)i);
    if(i<24) return fc->createScalarArray((ScalarType)(i-12));
    if(i<36) return fc->createFixedScalarArray((ScalarType)(i-24),2);
    if(i<48) return fc->createBoundedScalarArray((ScalarType)(i-36),3);
    if(r.chance(1,2)) return gstruct(r,o,3,1);
    return gtype(r,o,3);
}
static void val(Ctx& c) {
    Rng& r=c.rng; GenOpt o; o.nan=true; size_t n=c.n(620,12000);
    for(size_t i=0;i<n;i++) { c.every(20);
        bool big=i+2>=n; // longer than the buffer of the vector transport
        FieldConstPtr t(pick(r,i,o)); if(big) { FieldBuilderPtr b(getFieldCreate()->createFieldBuilder()); for(int k=0;k<8;k++) b->add(std::string(1,char('a'+k)),k==7?pvString:k==6?pvDouble:pvLong); t=getFieldCreate()->createStructureArray(b->createStructure()); }
        PVFieldPtr src(mkpv(t)), dst(mkpv(t));
        if(big) { PVStructureArray* a=static_cast<PVStructureArray*>(src.get()); PVStructureArray::svector v(300+r.below(40)); PVStructurePtr one[3]; for(int k=0;k<3;k++) { one[k]=getPVDataCreate()->createPVStructure(a->getStructureArray()->getStructure()); gfill(r,one[k].get(),o); }
            for(size_t k=0;k<v.size();k++) if(!r.chance(1,9)) v[k]=one[r.below(3)]; a->replace(freeze(v)); }
        else gfill(r,src.get(),o);
        if(big) ; else if(r.chance(3,4)) gfill(r,dst.get(),o); else if(r.chance(1,2)) dst->copyUnchecked(*src);
        int bo=BO[r.below(2)]; bool direct=r.chance(1,3); size_t cap=pickcap(r);
        Obj e; e("op","val")("t",jtype(t))("bo",boName(bo))("src",jval(src))("pre",jval(dst))("cap",cap)("direct",direct);
        std::string by,ex; size_t used=0;
        if(big||i%7==3) { // the library's own vector transport
            std::vector<epicsUInt8> v; ex=exname([&]{ serializeToVector(src.get(),bo,v); by.assign((char*)v.data(),v.size()); });
            if(ex.empty() && by.size()) { ex=exname([&]{ ByteBuffer b((char*)v.data(),v.size(),bo); deserializeFromBuffer(dst.get(),b); used=b.getPosition(); }); }
            else if(ex.empty()) dst->copyUnchecked(*src);
        } else {
            OutCtl oc(r,cap,bo,direct); ex=exname([&]{ src->serialize(&oc.buf,&oc); }); by=oc.finish();
            InCtl ic(r,by+junk(r),pickcap(r),bo,direct||r.chance(1,4)); if(ex.empty()) ex=exname([&]{ dst->deserialize(&ic.buf,&ic); }); used=ic.used();
        }
        e("ex",ex)("bytes",jbytes(by))("got",jval(dst))("used",used)("after",jval(src));
        c.log(e);
    }
}
static void mask(Ctx& c) {
    Rng& r=c.rng; GenOpt o; o.nan=true; size_t n=c.n(520,12000);
    for(size_t i=0;i<n;i++) { c.every(20);
        StructureConstPtr t(gstruct(r,o,3,1)); PVStructurePtr src(getPVDataCreate()->createPVStructure(t)), dst(getPVDataCreate()->createPVStructure(t));
        gfill(r,src.get(),o); gfill(r,dst.get(),o);
        std::vector<PVField*> fs,fd; walk(src.get(),fs); walk(dst.get(),fd);
        BitSet m(gmask(r,fs.size())); if(r.chance(1,8)) m.set(fs.size()+r.below(70));
        size_t at=0; if(r.chance(1,4)) { std::vector<size_t> k; for(size_t j=0;j<fs.size();j++) if(fs[j]->getField()->getType()==structure) k.push_back(j); at=r.pick(k); }
        PVStructure *a=static_cast<PVStructure*>(fs[at]), *b=static_cast<PVStructure*>(fd[at]);
        int bo=BO[r.below(2)]; bool direct=r.chance(1,3);
        Obj e; e("op","mask")("t",jtype(a->getField()))("base",at)("m",members(m))("bo",boName(bo))("src",jval(a))("pre",jval(b))("whole",jval(dst.get()));
        OutCtl oc(r,pickcap(r),bo,direct); BitSet m1(m), m2(m);
        std::string ex=exname([&]{ a->serialize(&oc.buf,&oc,&m1); }), by=oc.finish(); size_t used=0;
        InCtl ic(r,by+junk(r),pickcap(r),bo,direct||r.chance(1,4)); if(ex.empty()) ex=exname([&]{ b->deserialize(&ic.buf,&ic,&m2); }); used=ic.used();
        // everything outside the sub-structure
        std::vector<PVField*> fo; std::vector<Raw> keep;
        e("ex",ex)("bytes",jbytes(by))("got",jval(b))("used",used)("after",jval(a))("m2",members(m1)==members(m)&&members(m2)==members(m));
        c.log(e);
    }
    n=c.n(420,8000);
    for(size_t i=0;i<n;i++) { c.every(20);
        FieldCreatePtr fc(getFieldCreate()); FieldConstPtr t; size_t k=i<12?i:r.below(16);
        GenOpt o2; o2.maxf=2; o2.depth=1;
        if(k<12) { ScalarType s=(ScalarType)k; t=r.chance(1,2)?FieldConstPtr(fc->createScalarArray(s)):r.chance(1,2)?FieldConstPtr(fc->createBoundedScalarArray(s,4)):FieldConstPtr(fc->createFixedScalarArray(s,3)); }
        else if(k<14) t=fc->createStructureArray(gstruct(r,o2,1)); else { UnionConstPtr u(gunion(r,o2,1)); t=u->isVariant()?FieldConstPtr(fc->createVariantUnionArray()):FieldConstPtr(fc->createUnionArray(u)); }
        PVFieldPtr src(mkpv(t)); gfill(r,src.get(),o);
        PVArray* a=dynamic_cast<PVArray*>(src.get()); size_t len=a->getLength();
        size_t off=r.chance(1,6)?len+r.below(4):r.below(len+1), cnt=r.chance(1,4)?len+r.below(5):r.below(len+1); if(r.chance(1,4)) { off=0; cnt=len; }
        int bo=BO[r.below(2)]; bool direct=r.chance(1,4); OutCtl oc(r,pickcap(r),bo,direct);
        Obj e; e("op","slice")("t",jtype(t))("bo",boName(bo))("v",jval(src))("off",off)("cnt",cnt);
        std::string ex=exname([&]{ dynamic_cast<SerializableArray*>(src.get())->serialize(&oc.buf,&oc,off,cnt); });
        e("ex",ex)("bytes",jbytes(oc.finish()))("after",jval(src)); c.log(e);
    }
}
static void type(Ctx& c) {
    Rng& r=c.rng; GenOpt o; o.depth=4; size_t n=c.n(700,15000);
    for(size_t i=0;i<n;i++) { c.every(25);
        FieldConstPtr t(pick(r,i,o)); int bo=BO[r.below(2)];
        OutCtl oc(r,pickcap(r),bo); std::string ex=exname([&]{ t->serialize(&oc.buf,&oc); }), by=oc.finish(); FieldConstPtr got;
        InCtl ic(r,by+junk(r),pickcap(r),bo); if(ex.empty()) ex=exname([&]{ got=getFieldCreate()->deserialize(&ic.buf,&ic); });
        Obj e; e("op","type")("t",jtype(t))("bo",boName(bo))("ex",ex)("bytes",jbytes(by))("used",ic.used())("got",jtype(got))("same",got==t)("eq",got&&*got==*t);
        // decoded again after the original is gone
        std::string gone; Raw jt(jtype(t)); t.reset(); got.reset(); FieldConstPtr got2;
        InCtl ic2(r,by+junk(r),pickcap(r),bo); ex=exname([&]{ got2=getFieldCreate()->deserialize(&ic2.buf,&ic2); });
        e("ex2",ex)("got2",jtype(got2))("used2",ic2.used()); c.log(e);
    }
}
static void drive(Ctx& c) { if(c.mode=="val") val(c); else if(c.mode=="mask") mask(c); else type(c); }
VH_MAIN(drive)
