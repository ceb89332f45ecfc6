// Request strings (C23).
#include "pvh.h"
#include <pv/createRequest.h>
using namespace epics::pvData;
using namespace vh;
namespace {
struct Node { std::string n; std::vector<std::pair<std::string,std::string> > o; std::vector<Node> c; };
std::string nm(Rng& r) { static const char* w[]={"a","b","c","alarm","value","timeStamp","x_1","record","field","subrecord","getField","_z","Q9"}; return w[r.below(13)]; }
Node gen(Rng& r, int d) { Node x; x.n=nm(r); if(r.chance(1,4)) for(size_t i=0,n=1+r.below(3);i<n;i++) { static const char* v[]={"1","true","3.14","abc","-5","x=y","onChange","a.b","_"}; x.o.push_back({std::string(1,char('p'+i)),v[r.below(9)]}); }
    if(d>0 && r.chance(2,3)) { std::set<std::string> s; for(size_t i=0,n=1+r.below(3);i<n;i++) { Node y(gen(r,d-1)); if(s.insert(y.n).second) x.c.push_back(y); } } return x; }
void sp(Rng& r, bool b, std::string& s) { if(b && r.chance(1,6)) s+=std::string(1+r.below(2),' '); }
void opts(Rng& r, bool b, const Node& x, std::string& s) { for(size_t i=0;i<x.o.size();i++) { if(i) s+=','; sp(r,b,s); s+=x.o[i].first; sp(r,b,s); s+='='; sp(r,b,s); s+=x.o[i].second; sp(r,b,s); } }
void put(Rng& r, bool b, const Node& x, std::string& s);
void list(Rng& r, bool b, const std::vector<Node>& c, std::string& s) { for(size_t i=0;i<c.size();i++) { if(i) s+=','; put(r,b,c[i],s); } }
void put(Rng& r, bool b, const Node& x, std::string& s) { sp(r,b,s); s+=x.n; sp(r,b,s); if(x.o.size()) { s+='['; opts(r,b,x,s); s+=']'; } if(x.c.empty()) return;
    if(x.c.size()==1 && r.chance(1,2)) { s+='.'; put(r,b,x.c[0],s); } else { s+='{'; list(r,b,x.c,s); s+='}'; sp(r,b,s); } }
std::string text(Rng& r) { bool b=r.chance(1,3); std::string s; auto one=[&](const char* h) { Node x; x.n="f"; std::set<std::string> u; for(size_t i=0,n=r.below(4);i<n;i++) { Node y(gen(r,3)); if(u.insert(y.n).second) x.c.push_back(y); } s+=h; list(r,b,x.c,s); s+=*h?")":""; };
    if(r.chance(1,3)) { one(""); return s; }
    std::vector<int> k; for(int i=0;i<4;i++) if(r.chance(1,2)) k.push_back(i); for(size_t i=k.size();i>1;i--) std::swap(k[i-1],k[r.below(i)]);
    for(size_t i=0;i<k.size();i++) { if(i && r.chance(1,3)) s+=','; sp(r,b,s); switch(k[i]) { case 0: { Node x; do x=gen(r,0); while(x.o.empty() && !r.chance(1,5)); s+="record["; opts(r,b,x,s); s+="]"; break; } case 1: one("field("); break; case 2: one("getField("); break; default: one("putField("); } }
    return s; }
std::string spoil(Rng& r, std::string s) { static const std::string odd(",.[]{}()=ab1 -:rf\t"); size_t n=1+r.below(3);
    for(size_t k=0;k<n;k++) { size_t i=r.below(s.size()+1); switch(r.below(7)) { case 0: s.insert(i,1,odd[r.below(odd.size())]); break; case 1: if(i<s.size()) s.erase(i,1); break; case 2: if(i<s.size()) s[i]=odd[r.below(odd.size())]; break; case 3: s=s.substr(0,i); break;
        case 4: { size_t m=r.below(6); s.insert(r.below(s.size()+1),s.substr(i,m)); break; } case 5: if(i+1<s.size()) std::swap(s[i],s[i+1]); break; default: { static const char* w[]={"[]","{}","()",",",".","_options","field(","record[","[a]","[=1]","[x=1]","[x=1,x=2]","{a}",".a","9z",",a,a","}{",")("}; s.insert(i,w[r.below(18)]); } } }
    return s; }
// one small thing wrong, brackets still balanced
std::string nudge(Rng& r, std::string s) { std::vector<size_t> at; for(size_t i=0;i<=s.size();i++) if(i==s.size() || strchr(",.){}[]",s[i]) || (i && strchr(",.({[",s[i-1]))) at.push_back(i); size_t i=r.pick(at); static const char* w[]={",",".","{}","[]","a","[x=1]","[x]","[=1]","{a}",".b",",a"," ","9"};
    if(r.chance(1,5) && i<s.size() && strchr(",.",s[i])) s.erase(i,1); else s.insert(i,w[r.below(13)]); return s; }
// a likely sequence of tokens
std::string walk1(Rng& r) { std::string s, open; bool name=false; for(size_t i=0,n=1+r.below(9);i<n;i++) { if(!name || r.chance(1,15)) { s+=char('a'+r.below(4)); name=true; } else switch(r.below(6)) { case 0: case 1: s+=','; name=false; break; case 2: s+='.'; name=false; break; case 3: s+='{'; open+='}'; name=false; break; case 4: s+="[x=1]"; break; default: if(!open.empty()) { s+='}'; open.erase(open.size()-1); } } }
    s+=open; return r.chance(1,3)?"putField("+s+")":s; }
Raw tree(const PVField* f) { if(const PVStructure* s=dynamic_cast<const PVStructure*>(f)) { std::vector<Raw> n,v; const StringArray& names=s->getStructure()->getFieldNames(); for(auto& x: names) n.push_back(jbytes(x)); for(auto& x: s->getPVFields()) v.push_back(tree(x.get())); return Obj()("n",n)("f",v).done(); }
    if(const PVString* s=dynamic_cast<const PVString*>(f)) return Obj()("v",jbytes(s->get())).done(); return Raw("\"?\""); }
void one(Ctx& c, const std::string& s, CreateRequest::shared_pointer& C) { Rng& r=c.rng; PVStructurePtr p; bool obj=r.chance(1,2), msg=false;
    if(obj) { if(r.chance(1,20)) C=CreateRequest::create(); p=C->createRequest(s); msg=!C->getMessage().empty(); } else { try { p=createRequest(s); if(!p) { c.log(Obj()("op","null")("s",jbytes(s))); return; } } catch(std::exception&) {} }
    c.every(300); c.log(Obj()("op","req")("s",jbytes(s))("how",obj?"object":"function")("ok",bool(p))("msg",msg)("r",p?tree(p.get()):Raw("[]"))); }
void run(Ctx& c) { CreateRequest::shared_pointer C(CreateRequest::create()); Rng& r=c.rng;
    for(size_t i=0,n=c.n(2500,40000);i<n;i++) { std::string s(text(r)); switch(r.below(4)) { case 0: s=spoil(r,s); break; case 1: s=nudge(r,s); break; case 2: s=walk1(r); break; default: break; } if(s.find('\0')==std::string::npos) one(c,s,C); }
    // short ones: all of a length, or some
    static const char* tok[]={"a","b",".",",","{","}","[x=1]","field(",")","["," "}; const size_t T=11;
    for(size_t len=0;len<=(c.n(1,1000)>500?4u:3u);len++) { size_t all=1; for(size_t i=0;i<len;i++) all*=T; for(size_t k=0;k<all;k++) { std::string s; size_t x=k; for(size_t i=0;i<len;i++) { s+=tok[x%T]; x/=T; } one(c,s,C); } }
    for(size_t k=0,n=c.n(500,20000);k<n;k++) { std::string s; for(size_t i=0,m=4+r.below(6);i<m;i++) s+=tok[r.below(r.chance(1,2)?7:T)]; one(c,s,C); } }
}
VH_MAIN(run)
