#include "pvh.h"
#include <cmath>
namespace vh {
std::string stype(ScalarType t) { switch(t) {
    case pvBoolean: return "boolean"; case pvByte: return "byte"; case pvShort: return "short"; case pvInt: return "int"; case pvLong: return "long";
    case pvUByte: return "ubyte"; case pvUShort: return "ushort"; case pvUInt: return "uint"; case pvULong: return "ulong"; case pvFloat: return "float";
    case pvDouble: return "double"; case pvString: return "string"; } return "?"; }
static std::vector<Raw> jnames(const StringArray& n) { std::vector<Raw> v; for(auto& x: n) v.push_back(jbytes(x)); return v; }
Raw jtype(const FieldConstPtr& f) {
    if(!f) return Obj()("k","none").done();
    switch(f->getType()) {
    case scalar: { const Scalar* s=dynamic_cast<const Scalar*>(f.get()); const BoundedString* b=dynamic_cast<const BoundedString*>(f.get());
        return Obj()("k","s")("t",stype(s->getScalarType()))("max",b?(long)b->getMaximumLength():0L).done(); }
    case scalarArray: { const ScalarArray* s=dynamic_cast<const ScalarArray*>(f.get());
        Array::ArraySizeType z=s->getArraySizeType();
        return Obj()("k","sa")("t",stype(s->getElementType()))("b",z==Array::variable?"v":z==Array::bounded?"b":"f")("n",(long)s->getMaximumCapacity()).done(); }
    case structure: { const Structure* s=dynamic_cast<const Structure*>(f.get()); std::vector<Raw> t; for(size_t i=0;i<s->getNumberFields();i++) t.push_back(jtype(s->getFields()[i]));
        return Obj()("k","st")("id",jbytes(s->getID()))("n",jnames(s->getFieldNames()))("f",t).done(); }
    case structureArray: return Obj()("k","sta")("e",jtype(dynamic_cast<const StructureArray*>(f.get())->getStructure())).done();
    case union_: { const Union* s=dynamic_cast<const Union*>(f.get()); std::vector<Raw> t; for(size_t i=0;i<s->getNumberFields();i++) t.push_back(jtype(s->getFields()[i]));
        return Obj()("k","u")("id",jbytes(s->getID()))("n",jnames(s->getFieldNames()))("f",t).done(); }
    case unionArray: return Obj()("k","ua")("e",jtype(dynamic_cast<const UnionArray*>(f.get())->getUnion())).done();
    }
    return Obj()("k","bad").done();
}
template<class T> static Raw vecof(const PVScalarArray* a) { typename PVValueArray<T>::const_svector v(dynamic_cast<const PVValueArray<T>*>(a)->view());
    std::string o("["); for(size_t i=0;i<v.size();i++) { if(i) o+=','; o+=jscalar<T>(v[i]).t; } return Raw(o+"]"); }
Raw jvec(const PVScalarArray* a) {
    switch(a->getScalarArray()->getElementType()) {
#define X(T,C) case C: return vecof<T>(a);
    ALLSCALARS(X)
#undef X
    }
    return Raw("[]");
}
Raw jval(const PVField* f) {
    if(!f) return Obj()("null",true).done();
    switch(f->getField()->getType()) {
    case scalar: switch(dynamic_cast<const PVScalar*>(f)->getScalar()->getScalarType()) {
#define X(T,C) case C: return jscalar<T>(dynamic_cast<const PVScalarValue<T>*>(f)->get());
        ALLSCALARS(X)
#undef X
        } break;
    case scalarArray: return jvec(dynamic_cast<const PVScalarArray*>(f));
    case structure: { std::vector<Raw> v; for(auto& x: dynamic_cast<const PVStructure*>(f)->getPVFields()) v.push_back(jval(x.get())); return Obj()("f",v).done(); }
    case structureArray: { std::vector<Raw> v; PVStructureArray::const_svector a(dynamic_cast<const PVStructureArray*>(f)->view()); for(size_t i=0;i<a.size();i++) v.push_back(jval(a[i].get())); return jv(v); }
    case union_: { const PVUnion* u=dynamic_cast<const PVUnion*>(f); PVFieldPtr c=const_cast<PVUnion*>(u)->get();
        if(u->getUnion()->isVariant()) { if(!c) return Obj()("none",true).done(); return Obj()("t",jtype(c->getField()))("v",jval(c.get())).done(); }
        if(!c) return Obj()("sel",u->getSelectedIndex()).done();
        return Obj()("sel",u->getSelectedIndex())("v",jval(c.get())).done(); }
    case unionArray: { std::vector<Raw> v; PVUnionArray::const_svector a(dynamic_cast<const PVUnionArray*>(f)->view()); for(size_t i=0;i<a.size();i++) v.push_back(jval(a[i].get())); return jv(v); }
    }
    return Raw("0");
}
PVFieldPtr mkpv(const FieldConstPtr& f) { return getPVDataCreate()->createPVField(f); }
// ------------------------------------------------------------- generators
static const std::string idpool[]={"structure","s1","epics:nt/X:1.0","my_t","z"};
UnionConstPtr gunion(Rng& r, const GenOpt& o, int depth) {
    FieldCreatePtr fc(getFieldCreate());
    if(o.any && r.chance(1,4)) return fc->createVariantUnion();
    std::vector<std::string> names(o.names); StringArray ns; FieldConstPtrArray fs;
    size_t n=1+r.below(o.maxf); if(n>names.size()) n=names.size();
    for(size_t i=0;i<n;i++) { size_t k=r.below(names.size()); ns.push_back(names[k]); names.erase(names.begin()+k); fs.push_back(gtype(r,o,depth-1)); }
    if(n>1 && r.chance(1,3)) fs[1+r.below(n-1)]=fs[0];       // members of the same type
    if(o.ids && r.chance(1,12)) return fc->createUnion(r.chance(1,2)?"any":r.chance(1,2)?"structure":"any[]",ns,fs);   // the names of other things
    if(o.ids && r.chance(1,3)) return fc->createUnion("u_"+idpool[r.below(5)].substr(0,2),ns,fs);
    return fc->createUnion(ns,fs);
}
StructureConstPtr gstruct(Rng& r, const GenOpt& o, int depth, int minf) {
    FieldCreatePtr fc(getFieldCreate());
    std::vector<std::string> names(o.names); StringArray ns; FieldConstPtrArray fs;
    size_t n=minf+r.below(o.maxf-minf+1); if(minf==0 && n==0 && r.chance(2,3)) n=1+r.below(o.maxf); if(n>names.size()) n=names.size();
    for(size_t i=0;i<n;i++) { size_t k=r.below(names.size()); ns.push_back(names[k]); names.erase(names.begin()+k); fs.push_back(gtype(r,o,depth-1)); }
    if(o.ids && r.chance(1,12)) return fc->createStructure(r.chance(1,2)?"any":r.chance(1,2)?"union":"structure[]",ns,fs);
    if(o.ids && r.chance(1,2)) return fc->createStructure(idpool[r.below(5)],ns,fs);
    return fc->createStructure(ns,fs);
}
FieldConstPtr gtype(Rng& r, const GenOpt& o, int depth) {
    FieldCreatePtr fc(getFieldCreate());
    for(;;) {
        unsigned k=depth<=0? r.below(6) : r.below(14);
        ScalarType t=(ScalarType)r.below(12); if(r.chance(1,6)) t=pvString;
        switch(k) {
        case 0: case 1: case 2: return fc->createScalar(t);
        case 3: if(!o.bounds) continue; return fc->createBoundedString(1+r.below(6));
        case 4: case 5: if(!o.sarrays) continue; if(!o.bounds || r.chance(1,2)) return fc->createScalarArray(t);
            return r.chance(1,2)? FieldConstPtr(fc->createBoundedScalarArray(t,1+r.below(4))) : FieldConstPtr(fc->createFixedScalarArray(t,1+r.below(3)));
        case 6: case 7: case 8: case 9: return gstruct(r,o,depth);
        case 10: case 11: if(!o.unions) continue; return gunion(r,o,depth);
        case 12: if(!o.arrays) continue; return fc->createStructureArray(gstruct(r,o,depth-1));
        default: if(!o.arrays||!o.unions) continue; { UnionConstPtr u(gunion(r,o,depth-1)); if(u->isVariant()) return fc->createVariantUnionArray(); return fc->createUnionArray(u); }
        }
    }
}
std::string gstring(Rng& r, size_t maxlen) {
    size_t n=r.chance(1,3)?0: r.chance(3,4)?1+r.below(5): r.chance(4,5)? r.below(40): 250+r.below(12);
    if(maxlen && n>maxlen) n=r.chance(1,2)?maxlen:r.below(maxlen+1);
    std::string s; for(size_t i=0;i<n;i++) s+= r.chance(1,8)?char(r.below(256)):char(32+r.below(95)); return s;
}
template<class T> static T gnum(Rng& r) {
    if(r.chance(1,3)) { static const long k[]={0,1,-1,2,127,128,255,256,32767,32768,65535,65536}; return T(k[r.below(12)]); }
    return frombe<T>(bebytes<uint64>(r.next()).substr(8-sizeof(T)));
}
template<> boolean gscalar<boolean>(Rng& r,bool) { return r.below(2); }
template<> float gscalar<float>(Rng& r,bool nan) { if(r.chance(1,2)) { static const float k[]={0.f,-0.f,1.f,-1.5f,3.25f,INFINITY,1e-40f,3.4e38f}; return k[r.below(8)]; } float v; do v=frombe<float>(bebytes<uint32>((uint32)r.next())); while(!nan && std::isnan(v)); return v; }
template<> double gscalar<double>(Rng& r,bool nan) { if(r.chance(1,2)) { static const double k[]={0.,-0.,1.,-1.5,3.25,INFINITY,5e-324,1.7e308}; return k[r.below(8)]; } double v; do v=frombe<double>(bebytes<uint64>(r.next())); while(!nan && std::isnan(v)); return v; }
template<> std::string gscalar<std::string>(Rng& r,bool) { return gstring(r); }
template<class T> T gscalar(Rng& r,bool) { return gnum<T>(r); }
#define X(T,C) template T gscalar<T>(Rng&,bool);
X(int8,0) X(int16,0) X(int32,0) X(int64,0) X(uint8,0) X(uint16,0) X(uint32,0) X(uint64,0)
#undef X
template<class T> static void farr(Rng& r, PVScalarArray* a, const GenOpt& o) {
    ScalarArrayConstPtr t(a->getScalarArray()); size_t n=r.chance(1,4)?0: r.chance(5,6)?1+r.below(4): r.chance(3,4)?r.below(30):253+r.below(5);
    size_t mx=t->getMaximumCapacity(); if(t->getArraySizeType()==Array::fixed) n=mx; else if(t->getArraySizeType()==Array::bounded && n>mx) n=mx;
    bool fx=t->getArraySizeType()==Array::fixed; if(fx && n>20000) return;
    if(n>100 && r.chance(2,3) && !fx) n=n%7;
    shared_vector<T> v(n); for(size_t i=0;i<n;i++) v[i]= n>100? T(gscalar<T>(r,o.nan)) : gscalar<T>(r,o.nan);
    dynamic_cast<PVValueArray<T>*>(a)->replace(freeze(v));
}
void gfill(Rng& r, PVField* f, const GenOpt& o, int depth) {
    switch(f->getField()->getType()) {
    case scalar: { PVScalar* s=dynamic_cast<PVScalar*>(f); const BoundedString* b=dynamic_cast<const BoundedString*>(f->getField().get());
        if(b) { dynamic_cast<PVString*>(f)->put(gstring(r,b->getMaximumLength())); return; }
        switch(s->getScalar()->getScalarType()) {
#define X(T,C) case C: dynamic_cast<PVScalarValue<T>*>(f)->put(gscalar<T>(r,o.nan)); break;
        ALLSCALARS(X)
#undef X
        } break; }
    case scalarArray: switch(dynamic_cast<PVScalarArray*>(f)->getScalarArray()->getElementType()) {
#define X(T,C) case C: farr<T>(r,dynamic_cast<PVScalarArray*>(f),o); break;
        ALLSCALARS(X)
#undef X
        } break;
    case structure: for(auto& x: dynamic_cast<PVStructure*>(f)->getPVFields()) gfill(r,x.get(),o,depth+1); break;
    case structureArray: { PVStructureArray* a=dynamic_cast<PVStructureArray*>(f); size_t n=depth>4?0:r.below(4); PVStructureArray::svector v(n);
        for(size_t i=0;i<n;i++) if(r.chance(3,4)) { v[i]=getPVDataCreate()->createPVStructure(a->getStructureArray()->getStructure()); gfill(r,v[i].get(),o,depth+2); }
        a->replace(freeze(v)); break; }
    case union_: { PVUnion* u=dynamic_cast<PVUnion*>(f); UnionConstPtr t(u->getUnion());
        if(t->isVariant()) {
            if(depth>4 || r.chance(1,4)) { u->set(PVFieldPtr()); break; }
            GenOpt o2(o); o2.maxf=2; PVFieldPtr x(mkpv(gtype(r,o2,depth>2?0:1))); gfill(r,x.get(),o,depth+2); u->set(x);
        } else {
            if(r.chance(1,5)) { u->select(PVUnion::UNDEFINED_INDEX); break; }
            PVFieldPtr x(u->select((int32)r.below(t->getNumberFields()))); gfill(r,x.get(),o,depth+1);
        } break; }
    case unionArray: { PVUnionArray* a=dynamic_cast<PVUnionArray*>(f); size_t n=depth>4?0:r.below(4); PVUnionArray::svector v(n);
        for(size_t i=0;i<n;i++) if(r.chance(3,4)) { v[i]=getPVDataCreate()->createPVUnion(a->getUnionArray()->getUnion()); gfill(r,v[i].get(),o,depth+2); }
        a->replace(freeze(v)); break; }
    }
}
void walk(PVField* f, std::vector<PVField*>& out) {
    out.push_back(f);
    if(f->getField()->getType()==structure) for(auto& x: static_cast<PVStructure*>(f)->getPVFields()) walk(x.get(),out);
}
std::vector<int> members(const BitSet& b) { std::vector<int> v; for(int i=b.nextSetBit(0); i>=0; i=b.nextSetBit(i+1)) v.push_back(i); return v; }
BitSet gmask(Rng& r, size_t n) {
    BitSet b; unsigned d=1+r.below(4);
    if(r.chance(1,12)) return b;
    for(size_t i=r.chance(1,8)?0:1;i<n;i++) if(r.chance(1,d)) b.set(i);
    if(r.chance(1,12)) b.set(0);
    return b;
}

FieldConstPtr tmut(Rng& r, const FieldConstPtr& f, const GenOpt& o) {
    FieldCreatePtr fc(getFieldCreate());
    if(r.chance(1,8)) return gtype(r,o,1);
    switch(f->getType()) {
    case scalar: { const Scalar* s=static_cast<const Scalar*>(f.get()); const BoundedString* b=dynamic_cast<const BoundedString*>(s);
        if(b) return r.chance(1,2)?FieldConstPtr(fc->createBoundedString(b->getMaximumLength()+1)):FieldConstPtr(fc->createScalar(pvString));
        if(s->getScalarType()==pvString) return fc->createBoundedString(1+r.below(4));
        return fc->createScalar((ScalarType)r.below(12)); }
    case scalarArray: { const ScalarArray* s=static_cast<const ScalarArray*>(f.get()); ScalarType t=s->getElementType(); size_t n=s->getMaximumCapacity();
        switch(r.below(4)) { case 0: return fc->createScalarArray(r.chance(1,2)?t:(ScalarType)r.below(12)); case 1: return fc->createBoundedScalarArray(t,n?n:1+r.below(3)); case 2: return fc->createFixedScalarArray(t,n?n:1+r.below(3));
        default: return s->getArraySizeType()==Array::fixed?FieldConstPtr(fc->createFixedScalarArray(t,n+1)):FieldConstPtr(fc->createBoundedScalarArray(t,n+1)); } }
    case structureArray: return fc->createStructureArray(std::tr1::static_pointer_cast<const Structure>([&]{ for(;;) { FieldConstPtr x(tmut(r,static_cast<const StructureArray*>(f.get())->getStructure(),o)); if(x->getType()==structure) return x; } }()));
    case unionArray: return fc->createUnionArray(std::tr1::static_pointer_cast<const Union>([&]{ for(;;) { FieldConstPtr x(tmut(r,static_cast<const UnionArray*>(f.get())->getUnion(),o)); if(x->getType()==union_) return x; } }()));
    case structure: case union_: { bool st=f->getType()==structure; StringArray n; FieldConstPtrArray v; std::string id;
        if(st) { const Structure* s=static_cast<const Structure*>(f.get()); n=s->getFieldNames(); v=s->getFields(); id=s->getID(); }
        else { const Union* s=static_cast<const Union*>(f.get()); n=s->getFieldNames(); v=s->getFields(); id=s->getID(); if(s->isVariant()) return gunion(r,o,1); }
        switch(r.below(7)) {
        case 0: id+="x"; break;
        case 1: if(n.size()) { size_t i=r.below(n.size()); n[i]+="q"; } break;
        case 2: if(n.size()>1) { size_t i=r.below(n.size()-1); std::swap(n[i],n[i+1]); if(r.chance(1,2)) std::swap(v[i],v[i+1]); } break;
        case 3: if(n.size()>(st?0u:1u)) { n.pop_back(); v.pop_back(); } break;
        case 4: n.push_back("extra"); v.push_back(fc->createScalar(pvInt)); if(std::count(n.begin(),n.end(),"extra")>1) { n.pop_back(); v.pop_back(); } break;
        case 5: st=!st; if(n.empty()) st=true; break;
        default: if(v.size()) { size_t i=r.below(v.size()); v[i]=tmut(r,v[i],o); } }
        if(st) return fc->createStructure(id,n,v); return fc->createUnion(id,n,v); }
    }
    return f;
}
static void into(PVField* d, const PVField* f) {
    switch(f->getField()->getType()) {
    case scalar: switch(static_cast<const PVScalar*>(f)->getScalar()->getScalarType()) {
#define X(T,C) case C: dynamic_cast<PVScalarValue<T>*>(d)->put(dynamic_cast<const PVScalarValue<T>*>(f)->get()); break;
        ALLSCALARS(X)
#undef X
        } break;
    case scalarArray: if(!static_cast<const PVScalarArray*>(f)->getLength()) break; switch(static_cast<const PVScalarArray*>(f)->getScalarArray()->getElementType()) {
#define X(T,C) case C: { PVValueArray<T>::const_svector v(dynamic_cast<const PVValueArray<T>*>(f)->view()); shared_vector<T> n(v.size()); std::copy(v.begin(),v.end(),n.begin()); dynamic_cast<PVValueArray<T>*>(d)->replace(freeze(n)); break; }
        ALLSCALARS(X)
#undef X
        } break;
    case structure: { const PVFieldPtrArray &a=static_cast<const PVStructure*>(f)->getPVFields(), &b=static_cast<PVStructure*>(d)->getPVFields(); for(size_t i=0;i<a.size();i++) into(b[i].get(),a[i].get()); break; }
    case union_: { const PVUnion* u=static_cast<const PVUnion*>(f); PVFieldPtr c(const_cast<PVUnion*>(u)->get()); if(c) static_cast<PVUnion*>(d)->set(u->getSelectedIndex(),deepcopy(c.get())); break; }
    case structureArray: { PVStructureArray::const_svector v(static_cast<const PVStructureArray*>(f)->view()); PVStructureArray::svector n(v.size()); for(size_t i=0;i<v.size();i++) if(v[i]) n[i]=std::tr1::static_pointer_cast<PVStructure>(deepcopy(v[i].get())); static_cast<PVStructureArray*>(d)->replace(freeze(n)); break; }
    case unionArray: { PVUnionArray::const_svector v(static_cast<const PVUnionArray*>(f)->view()); PVUnionArray::svector n(v.size()); for(size_t i=0;i<v.size();i++) if(v[i]) n[i]=std::tr1::static_pointer_cast<PVUnion>(deepcopy(v[i].get())); static_cast<PVUnionArray*>(d)->replace(freeze(n)); break; }
    }
}
// independent of the library's copy and clone functions
PVFieldPtr deepcopy(const PVField* f) { PVFieldPtr p(mkpv(f->getField())); into(p.get(),f); return p; }
void vmut(Rng& r, PVField* f, const GenOpt& o) {
    GenOpt o2(o); o2.depth=1;
    switch(f->getField()->getType()) {
    case structure: { const PVFieldPtrArray& v=static_cast<PVStructure*>(f)->getPVFields(); if(v.size()) vmut(r,v[r.below(v.size())].get(),o); break; }
    case structureArray: { PVStructureArray* a=static_cast<PVStructureArray*>(f); PVStructureArray::svector v; { PVStructureArray::const_svector c(a->view()); for(size_t i=0;i<c.size();i++) v.push_back(c[i]?std::tr1::static_pointer_cast<PVStructure>(deepcopy(c[i].get())):PVStructurePtr()); }
        if(v.size() && r.chance(3,4)) { size_t i=r.below(v.size()); if(!v[i]) v[i]=getPVDataCreate()->createPVStructure(a->getStructureArray()->getStructure()); else if(r.chance(1,3)) v[i].reset(); else vmut(r,v[i].get(),o); }
        else v.push_back(r.chance(1,2)?PVStructurePtr():getPVDataCreate()->createPVStructure(a->getStructureArray()->getStructure())); a->replace(freeze(v)); break; }
    case unionArray: { PVUnionArray* a=static_cast<PVUnionArray*>(f); PVUnionArray::svector v; { PVUnionArray::const_svector c(a->view()); for(size_t i=0;i<c.size();i++) v.push_back(c[i]?std::tr1::static_pointer_cast<PVUnion>(deepcopy(c[i].get())):PVUnionPtr()); }
        if(v.size() && r.chance(3,4)) { size_t i=r.below(v.size()); if(!v[i]) v[i]=getPVDataCreate()->createPVUnion(a->getUnionArray()->getUnion()); else if(r.chance(1,3)) v[i].reset(); else vmut(r,v[i].get(),o); }
        else v.push_back(r.chance(1,2)?PVUnionPtr():getPVDataCreate()->createPVUnion(a->getUnionArray()->getUnion())); a->replace(freeze(v)); break; }
    case union_: { PVUnion* u=static_cast<PVUnion*>(f); PVFieldPtr c(u->get()); if(c && r.chance(2,3)) vmut(r,c.get(),o); else gfill(r,f,o2,3); break; }
    default: gfill(r,f,o2);
    }
}
}
