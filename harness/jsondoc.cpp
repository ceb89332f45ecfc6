// JSON (C25: mode out, C26: mode in).
#include "pvh.h"
#include "convs.h"
#include <pv/json.h>
#include <sstream>
using namespace epics::pvData;
using namespace vh;
namespace {
struct H { Ctx& c; Rng& r; bool neat; H(Ctx& c):c(c),r(c.rng),neat(false) {}
    // ------------------------------------------------ text of strings
    std::string ustr(size_t max) { std::string s; size_t n=r.chance(1,4)?0:r.chance(7,8)?1+r.below(6):r.below(40);
        for(size_t i=0;i<n;i++) { std::string x; switch(r.below(10)) {
            case 0: { static const std::string w[]={"\"","\\","/","'","\n","\t","\r","\b","\f","\v","\x7f","\x01","\x1f",std::string(1,'\0'),"//","/*","*/","\\u0041","\\n","{","]",":",","}; x=w[r.below(23)]; break; }
            case 1: { static const char* w[]={"\xc3\xa9","\xe2\x82\xac","\xf0\x9f\x98\x80","\xe2\x80\xa8","\xc2\x80","\xef\xbf\xbd","\xed\x9f\xbf","\xf4\x8f\xbf\xbf"}; x=w[r.below(8)]; break; }
            default: x=std::string(1,char(32+r.below(95))); }
            if(max && s.size()+x.size()>max) break; s+=x; }
        return s; }
    // printable contents only: proper UTF-8, integers of 64 bits with sign
    static int64 small(int64 v) { return v>INT64_MAX-16?v-16:v<INT64_MIN+16?v+16:v; }
    void clean(PVField* f) { switch(f->getField()->getType()) {
        case scalar: if(PVString* s=dynamic_cast<PVString*>(f)) { const BoundedString* b=dynamic_cast<const BoundedString*>(f->getField().get()); s->put(ustr(b?b->getMaximumLength():0)); }
            else if(PVULong* u=dynamic_cast<PVULong*>(f)) u->put(small(int64(u->get()>>1))); else if(PVLong* u=dynamic_cast<PVLong*>(f)) u->put(small(u->get())); break;
        case scalarArray: if(PVStringArray* s=dynamic_cast<PVStringArray*>(f)) { shared_vector<std::string> v(s->view().size()); for(auto& x: v) x=ustr(0); s->replace(freeze(v)); }
            else if(PVULongArray* u=dynamic_cast<PVULongArray*>(f)) { shared_vector<uint64> v(u->view().size()); for(size_t i=0;i<v.size();i++) v[i]=small(int64(u->view()[i]>>1)); u->replace(freeze(v)); } else if(PVLongArray* u=dynamic_cast<PVLongArray*>(f)) { shared_vector<int64> v(u->view().size()); for(size_t i=0;i<v.size();i++) v[i]=small(u->view()[i]); u->replace(freeze(v)); } break;
        case structure: for(auto& x: dynamic_cast<PVStructure*>(f)->getPVFields()) clean(x.get()); break;
        case structureArray: { PVStructureArray::const_svector a(dynamic_cast<PVStructureArray*>(f)->view()); for(auto& x: a) if(x) clean(x.get()); break; }
        case union_: { PVFieldPtr x(dynamic_cast<PVUnion*>(f)->get()); if(x) clean(x.get()); break; }
        case unionArray: { PVUnionArray::const_svector a(dynamic_cast<PVUnionArray*>(f)->view()); for(auto& x: a) if(x) clean(x.get()); break; } } }
    // no unions, nulls; numbers unless j5
    template<class V> static bool fin(const V& v) { for(auto x: v) if(!std::isfinite(double(x))) return false; return true; }
    static bool plain(PVField* f, bool j5) { switch(f->getField()->getType()) {
        case scalar: if(j5) return true; if(PVFloat* x=dynamic_cast<PVFloat*>(f)) return std::isfinite(x->get()); if(PVDouble* x=dynamic_cast<PVDouble*>(f)) return std::isfinite(x->get()); return true;
        case scalarArray: if(j5) return true; if(PVFloatArray* x=dynamic_cast<PVFloatArray*>(f)) return fin(x->view()); if(PVDoubleArray* x=dynamic_cast<PVDoubleArray*>(f)) return fin(x->view()); return true;
        case structure: for(auto& x: dynamic_cast<PVStructure*>(f)->getPVFields()) if(!plain(x.get(),j5)) return false; return true;
        case structureArray: { PVStructureArray::const_svector a(dynamic_cast<PVStructureArray*>(f)->view()); for(auto& x: a) if(!x || !plain(x.get(),j5)) return false; return true; }
        default: return false; } }
    // doubles of what looks like a number
    Raw nums(const std::string& s) { std::vector<Raw> v; for(size_t i=0;i<s.size();i++) { auto nc=[](char k){ return isdigit((unsigned char)k)||k=='.'||k=='-'||k=='+'||isalpha((unsigned char)k)||k=='_'||k=='$'; };
        if((isdigit((unsigned char)s[i])||s[i]=='-') && (i==0 || !nc(s[i-1]))) { size_t j=i; while(j<s.size() && nc(s[j])) j++; if(j-i>60) continue; std::string w(s.substr(i,j-i)); if(w.find_first_of(".eE")==w.npos) continue; double d=strtod(w.c_str(),0); std::vector<Raw> p; p.push_back(jv(long(i+1))); p.push_back(jscalar<double>(d)); v.push_back(jv(p)); } }
        return jv(v); }
    // ------------------------------------------------ printing
    std::string show(const PVField* f, const BitSet* m, bool multi, unsigned ind, bool j5, bool ign, std::string& ex) { std::ostringstream o; JSONPrintOptions p; p.multiLine=multi; p.indent=ind; p.json5=j5; p.ignoreUnprintable=ign;
        try { if(m) printJSON(o,dynamic_cast<const PVStructure&>(*f),*m,p); else printJSON(o,*f,p); } catch(std::exception& e) { ex="refused"; } return o.str(); }
    void print(PVFieldPtr f, bool m, BitSet mask, const char* op) { bool j5=r.chance(1,4), ign=r.chance(1,2); std::string ex,ex2; std::string a(show(f.get(),m?&mask:0,false,r.below(3),j5,ign,ex)), b(show(f.get(),m?&mask:0,true,r.below(5),j5,ign,ex2)); if(ex!=ex2) ex="differ";
        if(a.size()>2500) return; c.every(1); Obj e; e("op",op)("t",jtype(f->getField()))("v",jval(f.get()))("hm",m)("j5",j5)("ex",ex)("c",jbytes(a))("x",jbytes(b)); if(m) { std::vector<int> v(members(mask)); e("m",v); } c.log(e);
        if(ex.empty() && !m && plain(f.get(),false)) { std::string s(r.chance(1,2)?a:b); PVFieldPtr g(mkpv(f->getField())); if(r.chance(1,2)) { GenOpt o; gfill(r,g.get(),o); } std::istringstream i(s); std::string ex; try { parseJSON(i,*g); } catch(std::exception& e) { ex="refused"; }
            c.log(Obj()("op","back")("t",jtype(f->getField()))("v",jval(f.get()))("v2",jval(g.get()))("ex",ex)); }
        if(ex.empty() && !j5 && r.chance(1,2)) any(r.chance(1,2)?a:b); }
    void out() { for(size_t i=0,n=c.n(380,6000);i<n;i++) { GenOpt o; o.nan=r.chance(1,4); o.depth=3; if(r.chance(1,2)) o.unions=false; FieldConstPtr t(r.chance(1,8)?gtype(r,o,2):gstruct(r,o,1+r.below(3))); PVFieldPtr f(mkpv(t)); if(r.chance(9,10)) gfill(r,f.get(),o); 
            clean(f.get()); bool m=t->getType()==structure && r.chance(1,2); BitSet k; if(m) { k=gmask(r,f->getNumberFields()); if(r.chance(1,6)) k.clear(); if(r.chance(1,3)) { k.clear(); k.set(r.below(f->getNumberFields())); } if(r.chance(1,12)) k.set(f->getNumberFields()+r.below(70)); }
            print(f,m,k,"print"); }
        // numbers beyond 64 bits with sign
        PVFieldPtr f(mkpv(getFieldCreate()->createFieldBuilder()->add("a",pvULong)->createStructure())); dynamic_cast<PVStructure*>(f.get())->getSubFieldT<PVULong>("a")->put(uint64(1)<<63);
        Ctx& k(c); std::string ex; std::string a(show(f.get(),0,false,0,false,true,ex)); k.every(1); k.log(Obj()("op","bigulong")("t",jtype(f->getField()))("v",jval(f.get()))("hm",false)("j5",false)("ex",ex)("c",jbytes(a))("x",jbytes(a))); }
    // ------------------------------------------------ documents
    std::string ws() { if(r.chance(3,4)) return ""; static const char* w[]={" ","\n","\t"," \n ","\r\n","//c\n","/* x\n*/","/**/","// \"{[\n\n","\n\n"}; return w[r.below(10)]; }
    std::string quoted(const std::string& s, bool esc=true) { std::string o("\""); for(size_t i=0;i<s.size();i++) { unsigned char k=s[i]; char b[16];
            if(k=='"'||k=='\\') { o+='\\'; o+=char(k); } else if(k=='\n' && r.chance(1,2)) o+="\\n"; else if(k=='\t' && r.chance(1,2)) o+="\\t"; else if(k=='/' && r.chance(1,4)) o+="\\/";
            else if(k<32 || (esc && k<127 && r.chance(1,25))) { snprintf(b,sizeof b,r.chance(1,2)?"\\u%04x":"\\u%04X",k); o+=b; } else o+=char(k); }
        return o+"\""; }
    std::string jnum() { char b[64]; switch(r.below(7)) { case 0: return std::to_string(r.range(-3,300)); case 1: return std::to_string(int64_t(r.next()>>r.below(64))*(r.chance(1,2)?1:-1)/2); case 2: { static const char* w[]={"0","-0","1","255","256","-129","127","32768","65536","4294967296","9223372036854775807","-9223372036854775808","9223372036854775808","0.0","-0.0","1e0","1E+2","12e-1","1.5","2.5","-2.5","0.1","1e300","3.4e38","1e39","5e-320","1e999","1e-999","127.9","1.0000000000000000000001"}; return w[r.below(30)]; }
            case 3: snprintf(b,sizeof b,"%.17g",double(r.next()>>r.below(64))/double(1+r.below(1000))); return b; case 4: snprintf(b,sizeof b,"%.*e",int(r.below(8)),double(r.next()>>r.below(64))*std::pow(10.0,r.range(-45,45))); return b;
            case 5: snprintf(b,sizeof b,"%.*f",int(r.below(7)),double(r.range(-100000,100000))/7); return b; default: return std::to_string(r.range(0,1000)); } }
    std::string strfor(ScalarType t, size_t max) { if(t!=pvString && r.chance(3,4)) { std::string s(anytext(r,t)); for(char& k: s) if(k&0x80) k='~'; return s; } return ustr(r.chance(3,4)?max:0); }
    std::string sval(ScalarType t, size_t max=0) { size_t k=r.below(12); if(neat) return max?quoted(ustr(max)):safe(t); if(r.chance(1,25)) return r.chance(1,2)?"null":doc(2);
        if(t==pvString) return k<8?quoted(strfor(t,max)):k<10?jnum():k<11?"true":"false"; if(t==pvBoolean) return k<9?(r.chance(1,2)?"true":"false"):k<11?quoted(strfor(t,max)):jnum(); 
        if(k<8) return t==pvFloat||t==pvDouble||r.chance(1,4)?jnum():std::to_string(r.range(-3,300)); return k<11?quoted(strfor(t,max)):(r.chance(1,2)?"true":"false"); }
    static std::vector<std::string> names() { static const char* w[]={"a","b","c","value","x1","n_2","Zed"}; return std::vector<std::string>(w,w+7); }
    // any document
    std::string doc(int depth) { size_t k=depth<=0?r.below(5):r.below(9); std::string o; switch(k) { case 0: return jnum(); case 1: return quoted(ustr(0)); case 2: return r.chance(1,2)?"true":"false"; case 3: return r.chance(1,3)?"null":jnum(); case 4: return std::to_string(r.range(0,9));
        case 5: case 6: { o="["; size_t n=r.below(4); int kind=r.below(8); for(size_t i=0;i<n;i++) { if(i) o+=ws()+","; o+=ws(); o+= kind<2?std::to_string(r.range(-9,999)): kind<4?quoted(ustr(0)):kind==4?(r.chance(1,2)?"true":"false"):kind==5?"1.5":kind==6?jnum():doc(depth-1); } return o+ws()+"]"; }
        default: o="{"; for(size_t i=0,n=r.below(5);i<n;i++) { if(i) o+=ws()+","; std::string nm(r.pick(names())); if(r.chance(1,40)) { static const char* w[]={"","1x","a.b","a b","\xc3\xa9"}; nm=w[r.below(5)]; } o+=ws()+quoted(nm,false)+ws()+":"+ws()+doc(depth-1); } return o+ws()+"}"; } }
    // a document for a type
    std::string docfor(const FieldConstPtr& t, int depth=0) { if(!neat && r.chance(1,40)) return doc(2); std::string o; switch(t->getType()) {
        case scalar: { const BoundedString* b=dynamic_cast<const BoundedString*>(t.get()); return sval(dynamic_cast<const Scalar*>(t.get())->getScalarType(),b?b->getMaximumLength():0); }
        case scalarArray: { const ScalarArray* a=dynamic_cast<const ScalarArray*>(t.get()); o="["; size_t n=r.below(r.chance(1,10)?20:4); if(a->getArraySizeType()==Array::fixed && r.chance(4,5)) n=a->getMaximumCapacity(); else if(a->getArraySizeType()==Array::bounded && r.chance(4,5)) n=r.below(a->getMaximumCapacity()+1);
            for(size_t i=0;i<n;i++) { if(i) o+=ws()+","; o+=ws()+(!neat && r.chance(1,60)?doc(1):r.chance(7,8)?safe(a->getElementType()):sval(a->getElementType())); } return o+ws()+"]"; }
        case structureArray: { o="["; for(size_t i=0,n=r.below(r.chance(1,3)?9:4);i<n;i++) { if(i) o+=ws()+","; o+=ws()+(!neat && r.chance(1,40)?"null":docfor(dynamic_cast<const StructureArray*>(t.get())->getStructure(),depth+1)); } return o+ws()+"]"; }
        case union_: { const Union* u=dynamic_cast<const Union*>(t.get()); if(u->isVariant() || r.chance(1,6)) return doc(r.chance(5,6)?0:1); const FieldConstPtr& m=u->getField(r.below(u->getNumberFields())); return m->getType()==scalar?docfor(m):doc(0); }
        case unionArray: return r.chance(1,2)?"[]":"[1]";
        case structure: { const Structure* s=dynamic_cast<const Structure*>(t.get()); o="{"; std::vector<size_t> k; for(size_t i=0;i<s->getNumberFields();i++) if(r.chance(3,4)) k.push_back(i); for(size_t i=k.size();i>1;i--) std::swap(k[i-1],k[r.below(i)]); if(k.size() && r.chance(1,10)) k.push_back(k[0]);
            bool first=true; for(size_t i: k) { FieldConstPtr f(s->getField(i)); std::string nm(s->getFieldName(i)); 
                if((f->getType()==unionArray && !r.chance(1,12))) continue;
                while(f->getType()==structure && r.chance(1,6) && dynamic_cast<const Structure*>(f.get())->getNumberFields()) { const Structure* q=dynamic_cast<const Structure*>(f.get()); size_t j=r.below(q->getNumberFields()); nm+="."+q->getFieldName(j); f=q->getField(j); }
                if(!neat && r.chance(1,80)) { static const char* w[]={"","nope",".","a.","a..b",".a","value "}; nm=w[r.below(7)]; } if(!first) o+=ws()+","; first=false; o+=ws()+quoted(nm,false)+ws()+":"+ws()+docfor(f,depth+1); } return o+ws()+"}"; } }
        return "0"; }
    std::string safe(ScalarType t) { if(t==pvBoolean) return r.chance(1,2)?"true":"false"; if(t==pvString) return r.chance(3,4)?quoted(ustr(0)):jnum(); return std::to_string(r.range(-3,300)); }
    void spoil(std::string& s) { size_t k=r.below(9), p=r.below(s.size()+1); switch(k) {
        case 0: s=s.substr(0,p); break; case 1: if(p<s.size()) s.erase(p,1); break;
        case 2: { static const std::string odd("{}[]:,\"'/*\\\n 0189-+.eEtfnNIx_$\t\x01\x80\xc3\xff"); s.insert(p,1,odd[r.below(odd.size())]); break; }
        case 3: { static const char* w[]={"1"," 1","{}","]","}",",","x","/","\"","null","//","/*","/* */"," \n","\n"}; s+=w[r.below(15)]; break; }
        case 4: { size_t q=r.below(s.size()+1); if(q<p) std::swap(p,q); s.insert(q,s.substr(p,std::min<size_t>(q-p,30))); break; }
        case 5: { static const char* w[]={"tru","nul","falsee","01","1.","--1","1e","0x1F",".5","NaN","Infinity","-","'q'","{a:1}","[1,]","\"\\q\"","\"\\u12\"","\"\\ud800\"","+1","\"\xe2\x82\"","\"\xc0\x80\"","True","nil"}; size_t d=s.find_first_of("0123456789tfn\"",p); if(d!=s.npos) { size_t q=d+1; while(q<s.size() && (isalnum((unsigned char)s[q])||s[q]=='"')) q++; s.replace(d,q-d,w[r.below(23)]); } break; }
        case 6: s.insert(p,r.chance(1,2)?"\n":"\r\n"); break; case 7: { size_t d=s.find_first_of(",:",p); if(d!=s.npos) s.erase(d,1); break; }
        default: if(p<s.size()) s[p]=char(r.below(256)); } }
    void into(const std::string& s, PVFieldPtr top, PVField* f) { bool hm=r.chance(7,8); BitSet m; std::string ex; Raw old(jval(f)); std::istringstream i(s); try { parseJSON(i,*f,hm?&m:0); } catch(std::exception& e) { ex="refused"; }
        c.every(1); Obj e; e("op","into")("x",jbytes(s))("t",jtype(f->getField()))("base",long(f->getFieldOffset()))("v",old)("v2",jval(f))("ex",ex)("hm",hm)("d",nums(s)); if(hm) e("m",members(m)); c.log(e); }
    // a stream which fails after some bytes
    struct Broken : std::streambuf { std::string s; Broken(const std::string& x):s(x) { setg(&s[0],&s[0],&s[0]+s.size()); } int_type underflow() { throw std::runtime_error("broken"); } };
    void io(const std::string& s, PVField* f) { Broken b(s.substr(0,r.chance(1,2)?s.size():r.below(s.size()+1))); std::istream i(&b); bool nw=r.chance(1,2); std::string ex; try { if(nw) parseJSON(i); else parseJSON(i,*f); } catch(std::exception& e) { ex="refused"; } c.every(1); c.log(Obj()("op","io")("x",jbytes(s))("new",nw)("ex",ex)); }
    void any(const std::string& s) { std::string ex; PVStructurePtr p; std::istringstream i(s); try { p=parseJSON(i); } catch(std::exception& e) { ex="refused"; }
        c.every(1); Obj e; e("op","any")("x",jbytes(s))("ex",ex)("d",nums(s)); if(p) e("t",jtype(p->getField()))("v",jval(p.get())); c.log(e); }
    void in() { for(size_t i=0,n=c.n(600,9000);i<n;i++) { GenOpt o; if(r.chance(1,3)) o.unions=false; StructureConstPtr t(gstruct(r,o,1+r.below(3))); if(r.chance(1,10)) { GenOpt q(o); q.maxf=2; StructureConstPtr e(gstruct(r,q,1)); t=getFieldCreate()->createFieldBuilder()->add("value",getFieldCreate()->createStructureArray(e))->createStructure(); } PVStructurePtr p(std::tr1::static_pointer_cast<PVStructure>(mkpv(t))); if(r.chance(3,4)) gfill(r,p.get(),o);
            PVField* f=p.get(); if(r.chance(1,7)) { std::vector<PVField*> w; walk(f,w); f=r.pick(w); }
            neat=r.chance(1,2); std::string s(ws()+docfor(f->getField())+ws()); neat=false; if(r.chance(1,5)) spoil(s); if(s.size()<600) into(s,p,f); if(r.chance(1,12)) io(s,f);
            if(r.chance(1,2)) { s=ws()+(r.chance(1,12)?doc(2):"{"); if(s.size() && s.back()=='{') { s+="}"; while(r.chance(2,3) || s.size()<4) { std::string d(doc(2)); if(d.size()>200) continue; s.insert(s.size()-1,(s[s.size()-2]=='{'?"":ws()+",")+ws()+quoted(r.pick(names()))+ws()+":"+ws()+d+ws()); } } 
                if(r.chance(1,5)) spoil(s); if(s.size()<600) any(s); } }
        // nesting
        static const int deep[]={1,2,100,127,128,129,130,200,255,256,257,1000,20000}; for(int k=0;k<13;k++) { int n=deep[k]; std::string s, ex; for(int i=0;i<n;i++) s+=i+1<n?"{\"a\":":"{}"; for(int i=0;i+1<n;i++) s+="}"; std::istringstream in(s); int got=0; try { PVStructurePtr p(parseJSON(in)); for(PVStructure* q=p.get();q;q=q->getSubField<PVStructure>("a").get()) got++; } catch(std::exception&) { ex="refused"; }
            c.every(1); c.log(Obj()("op","deepany")("n",n)("got",got)("ex",ex)); } } };
void run(Ctx& c) { H h(c); if(c.mode=="out") h.out(); else h.in(); }
}
VH_MAIN(run)
