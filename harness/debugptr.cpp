// The tracking smart pointer (C35).
#include "vh.h"
#include "coop.h"
#include <unistd.h>
#include <pv/debugPtr.h>
using namespace epics::debug;
using namespace vh;
namespace {
std::set<int> dead; std::map<const void*,int> objAt;     // most derived address -> object
struct Base : public enable_shared_from_this<Base> { int id; long pay; explicit Base(int i):id(i),pay(i*7) {} virtual ~Base() { sched::Own own; dead.insert(id); } };
struct Pad { long x[3]; virtual ~Pad() {} };
struct Derived : public Pad, public Base { explicit Derived(int i):Base(i) {} };
struct Plain { int v; };
typedef shared_ptr_base SB;
struct S { char k; std::unique_ptr<shared_ptr<Base> > b; std::unique_ptr<shared_ptr<Derived> > d; std::unique_ptr<shared_ptr<const Base> > c;
    const SB* base() const { return k=='B'?(const SB*)b.get():k=='D'?(const SB*)d.get():(const SB*)c.get(); }
    const Base* obj() const { return k=='B'?b->get():k=='D'?static_cast<const Base*>(d->get()):c->get(); }
    long uses() const { return k=='B'?b->use_count():k=='D'?d->use_count():c->use_count(); }
    bool uniq() const { return k=='B'?b->unique():k=='D'?d->unique():c->unique(); }
    bool truth() const { return k=='B'?bool(*b):k=='D'?bool(*d):bool(*c); } };
struct Wk { char k; std::unique_ptr<weak_ptr<Base> > b; std::unique_ptr<weak_ptr<const Base> > c; };
struct Hist {
    Ctx& c; Rng& r; std::map<int,S> st; std::map<int,Wk> wk; std::map<int,Base*> obj; std::set<int> derived, aliased; std::vector<std::unique_ptr<Base> > stat; int no, ng;
    Hist(Ctx& c):c(c),r(c.rng),no(0),ng(0) {}
    int slotOf(const SB* p) { for(auto& x: st) if(x.second.base()==p) return x.first; return -1; }
    Raw refs(const ptr_base& p) { ptr_base::ref_set_t s; p.spy_refs(s); std::vector<int> v; for(auto x: s) v.push_back(slotOf(x)); return jv(v); }
    int lines(const ptr_base& p, bool self) { std::ostringstream s; p.show_refs(s,self); std::string t(s.str()), ln; std::istringstream in(t); int n=0; while(std::getline(in,ln)) if(ln.compare(0,5,"#ptr ")==0) n++; return n; }
    void log(Obj o, bool ok=true) {
        std::vector<Raw> a,b; for(auto& x: st) { S& s=x.second; const Base* p=s.obj(); a.push_back(Obj()("s",x.first)("k",std::string(1,s.k))("o",p?(dead.count(p->id)?-1:p->id):0)("n",s.uses())("refs",refs(*s.base()))("bool",s.truth())("uniq",s.uniq())("lines",std::vector<int>{lines(*s.base(),true),lines(*s.base(),false)}).done()); }
        for(auto& x: wk) { Wk& w=x.second; bool e=w.k=='B'?w.b->expired():w.c->expired(); long n=w.k=='B'?w.b->use_count():w.c->use_count(); b.push_back(Obj()("w",x.first)("exp",e)("n",n)("refs",w.k=='B'?refs(*w.b):refs(*w.c)).done()); }
        c.log(o("ok",ok)("st",a)("wk",b)("dead",dead)); }
    // slot s of kind k, emptied first when it has to change its kind
    void drop(int s) { st.erase(s); log(Obj()("op","drop")("s",s)); }
    S& fresh(int s, char k) { auto i=st.find(s); if(i!=st.end()) drop(s); S& x=st[s]; x.k=k; return x; }
    char kind() { return "BDC"[r.below(3)]; }
    bool isD(int s) { const Base* p=st[s].obj(); return p && derived.count(p->id); }
    void run() { dead.clear(); c.start();
        for(int k=0;k<45;k++) step();
        while(st.size()) drop(st.begin()->first);
        while(wk.size()) { int w=wk.begin()->first; wk.erase(w); log(Obj()("op","wdrop")("w",w)); } }
    int some() { auto i=st.begin(); std::advance(i,r.below(st.size())); return i->first; }
    int someW() { auto i=wk.begin(); std::advance(i,r.below(wk.size())); return i->first; }
    // raise a new strong pointer in slot s through constructor or by assigning over what is there
    template<class P> void put(std::unique_ptr<P>& u, const P& v) { if(u) *u=v; else u.reset(new P(v)); }
    void step() { int s=1+int(r.below(5)), w=1+int(r.below(3)); bool here=st.count(s)>0;
        switch(r.below(20)) {
        case 0: case 1: case 2: { bool d=r.chance(1,2); int o=++no, g=++ng; if(here && r.chance(1,2) && (st[s].k=='B'||(st[s].k=='D'&&d))) { S& x=st[s]; if(x.k=='B') { if(d) { Derived* p=new Derived(o); obj[o]=p; x.b->reset(p); } else { Base* p=new Base(o); obj[o]=p; if(r.chance(1,2)) x.b->reset(p); else x.b->reset(p,std::default_delete<Base>()); } } else { Derived* p=new Derived(o); obj[o]=p; x.d->reset(p); } }
            else { S& x=fresh(s,d&&r.chance(1,2)?'D':'B'); if(x.k=='D') { Derived* p=new Derived(o); obj[o]=p; if(r.chance(1,3)) x.d.reset(new shared_ptr<Derived>(std::unique_ptr<Derived>(p))); else x.d.reset(new shared_ptr<Derived>(p)); }
                else if(d) { Derived* p=new Derived(o); obj[o]=p; if(r.chance(1,3)) x.b.reset(new shared_ptr<Base>(std::unique_ptr<Derived>(p))); else x.b.reset(new shared_ptr<Base>(p)); }
                else { Base* p=new Base(o); obj[o]=p; if(r.chance(1,3)) x.b.reset(new shared_ptr<Base>(std::unique_ptr<Base>(p))); else x.b.reset(new shared_ptr<Base>(p)); } }
            if(d) derived.insert(o); log(Obj()("op","new")("s",s)("g",g)("o",o)); break; }
        case 3: if(r.chance(1,3)) { if(stat.empty()||r.chance(1,3)) { int o=++no; stat.emplace_back(new Base(o)); obj[o]=stat.back().get(); aliased.insert(o); log(Obj()("op","object")("o",o)); } else { Base* p=r.pick(stat).get(); int g=++ng; S& x=fresh(s,'B'); x.b.reset(new shared_ptr<Base>(p,[](Base*){})); log(Obj()("op","alias")("s",s)("g",g)("o",p->id)); } } break;
        case 4: { if(here && r.chance(2,3)) { S& x=st[s]; bool raw=r.chance(1,2); switch(x.k) { case 'B': if(raw) x.b->reset((Base*)0); else x.b->reset(); break; case 'D': x.d->reset(); break; default: x.c->reset(); } }
            else { S& x=fresh(s,kind()); bool raw=r.chance(1,2); switch(x.k) { case 'B': x.b.reset(raw?new shared_ptr<Base>((Base*)0):r.chance(1,2)?new shared_ptr<Base>(std::unique_ptr<Base>()):new shared_ptr<Base>()); break; case 'D': x.d.reset(raw?new shared_ptr<Derived>((Derived*)0):new shared_ptr<Derived>()); break; default: x.c.reset(new shared_ptr<const Base>()); } } log(Obj()("op","null")("s",s)); break; }
        case 5: case 6: case 7: if(st.size()) { int t=some(); if(t==s) { if(r.chance(1,2)) { S& x=st[s]; if(x.k=='B') *x.b=*x.b; else if(x.k=='D') *x.d=*x.d; else *x.c=*x.c; log(Obj()("op","assign")("s",s)("t",s)); } break; }
            char tk=st[t].k; char k=here&&r.chance(2,3)?st[s].k:kind(); if(!(k==tk || (k=='B'&&tk=='D') || k=='C')) k=tk; bool over=here&&st[s].k==k; if(!over) fresh(s,k); S &x=st[s], &y=st[t];
            if(k=='D') put(x.d,*y.d); else if(k=='B') { if(tk=='B') put(x.b,*y.b); else if(over) *x.b=*y.d; else x.b.reset(new shared_ptr<Base>(*y.d)); }
            else { if(tk=='C') put(x.c,*y.c); else if(tk=='B') { if(over) *x.c=*y.b; else x.c.reset(new shared_ptr<const Base>(*y.b)); } else { if(over) *x.c=*y.d; else x.c.reset(new shared_ptr<const Base>(*y.d)); } }
            log(Obj()("op",over?"assign":"copy")("s",s)("t",t)); } break;
        case 8: if(here) drop(s); break;
        case 9: case 10: if(here) { int t=some(); if(st[t].k!=st[s].k) break; S &x=st[s], &y=st[t]; if(x.k=='B') x.b->swap(*y.b); else if(x.k=='D') x.d->swap(*y.d); else x.c->swap(*y.c); log(Obj()("op","swap")("s",s)("t",t)); } break;
        case 11: case 12: if(st.size()) { int t=some(); if(t==s) break; bool bad=false; char tk=st[t].k; unsigned how=r.below(3);
            if(tk=='C') { S& x=fresh(s,'B'); x.b.reset(new shared_ptr<Base>(const_pointer_cast<Base>(*st[t].c))); }
            else if(tk=='D') { S& x=fresh(s,'B'); x.b.reset(new shared_ptr<Base>(how?static_pointer_cast<Base>(*st[t].d):dynamic_pointer_cast<Base>(*st[t].d))); }
            else { bool isd=isD(t), isnull=!st[t].obj(); bool over=here&&st[s].k=='D'; if(!over) fresh(s,'D'); S& x=st[s]; if(how==0&&(isd||isnull)) put(x.d,static_pointer_cast<Derived>(*st[t].b)); else { if(over) *x.d=dynamic_pointer_cast<Derived>(*st[t].b); else x.d.reset(new shared_ptr<Derived>(dynamic_pointer_cast<Derived>(*st[t].b))); bad=!isd; } }
            if(bad) log(Obj()("op","badcast")("s",s)); else log(Obj()("op","cast")("s",s)("t",t)); } break;
        case 13: case 14: if(st.size()) { int t=some(); char k=st[t].k=='C'?'C':r.chance(1,3)?'C':'B'; bool over=wk.count(w)&&wk[w].k==k; if(!over&&wk.count(w)) { wk.erase(w); log(Obj()("op","wdrop")("w",w)); } Wk& x=wk[w]; x.k=k; S& y=st[t];
            if(k=='B') { if(y.k=='B') { if(over) *x.b=*y.b; else x.b.reset(new weak_ptr<Base>(*y.b)); } else { if(over) *x.b=*y.d; else x.b.reset(new weak_ptr<Base>(*y.d)); } }
            else { if(y.k=='B') { if(over) *x.c=*y.b; else x.c.reset(new weak_ptr<const Base>(*y.b)); } else if(y.k=='D') { if(over) *x.c=*y.d; else x.c.reset(new weak_ptr<const Base>(*y.d)); } else { if(over) *x.c=*y.c; else x.c.reset(new weak_ptr<const Base>(*y.c)); } }
            log(Obj()("op","weak")("w",w)("s",t)); } break;
        case 15: if(wk.size()) { int v=someW(); if(v==w) break; char vk=wk[v].k; if(wk.count(w) && wk[w].k==vk) { if(vk=='B') *wk[w].b=*wk[v].b; else *wk[w].c=*wk[v].c; } else { if(wk.count(w)) { wk.erase(w); log(Obj()("op","wdrop")("w",w)); } Wk& x=wk[w]; x.k=vk=='B'&&r.chance(1,3)?'C':vk; if(x.k=='B') x.b.reset(new weak_ptr<Base>(*wk[v].b)); else if(vk=='B') x.c.reset(new weak_ptr<const Base>(*wk[v].b)); else x.c.reset(new weak_ptr<const Base>(*wk[v].c)); } log(Obj()("op","wcopy")("w",w)("v",v)); }
            else { wk[w].k='B'; wk[w].b.reset(new weak_ptr<Base>()); log(Obj()("op","wreset")("w",w)); } break;
        case 16: if(wk.count(w)) { if(r.chance(1,2)) { if(wk[w].k=='B') wk[w].b->reset(); else wk[w].c->reset(); log(Obj()("op","wreset")("w",w)); } else { wk.erase(w); log(Obj()("op","wdrop")("w",w)); } } break;
        case 17: case 18: if(wk.size()) { int v=someW(); char k=wk[v].k; if(r.chance(2,3)) { if(here&&st[s].k==k) { if(k=='B') *st[s].b=wk[v].b->lock(); else *st[s].c=wk[v].c->lock(); } else { S& x=fresh(s,k); if(k=='B') x.b.reset(new shared_ptr<Base>(wk[v].b->lock())); else x.c.reset(new shared_ptr<const Base>(wk[v].c->lock())); } log(Obj()("op","lock")("s",s)("w",v)); }
            else { bool ok=true; if(here) drop(s); S x; x.k=k; try { if(k=='B') x.b.reset(new shared_ptr<Base>(*wk[v].b)); else x.c.reset(new shared_ptr<const Base>(*wk[v].c)); } catch(std::bad_weak_ptr&) { ok=false; } if(ok) st[s]=std::move(x); log(Obj()("op","fromweak")("s",s)("w",v),ok); } } break;
        default: { std::vector<int> v; for(auto& x: obj) if(!dead.count(x.first)) v.push_back(x.first); if(v.empty()) break; int o=r.pick(v); unsigned q=r.below(4);
            if(q<2) { if(aliased.count(o)) break; if(here) drop(s); if(dead.count(o)) break; S x; x.k='B'; bool ok=true; try { x.b.reset(new shared_ptr<Base>(obj[o]->shared_from_this())); } catch(std::bad_weak_ptr&) { ok=false; } if(ok) st[s]=std::move(x); log(Obj()("op","sft")("s",s)("o",o),ok); }
            else if(q==2) { int o2=r.pick(v); int a=obj[o]->id; *obj[o]=*obj[o2]; obj[o]->id=a; log(Obj()("op","assignobj")("o",o)("p",o2)); }
            else if(st.size()) { int a=some(), b=some(); if(st[a].k!=st[b].k) break; S &x=st[a], &y=st[b]; bool eq,ne,ow; if(x.k=='B') { eq=*x.b==*y.b; ne=*x.b!=*y.b; ow=!x.b->owner_before(*y.b)&&!y.b->owner_before(*x.b); if(eq!=!(*x.b<*y.b||*y.b<*x.b)) eq=!eq; } else if(x.k=='D') { eq=*x.d==*y.d; ne=*x.d!=*y.d; ow=!x.d->owner_before(*y.d)&&!y.d->owner_before(*x.d); } else { eq=*x.c==*y.c; ne=*x.c!=*y.c; ow=!x.c->owner_before(*y.c)&&!y.c->owner_before(*x.c); }
                log(Obj()("op","cmp")("s",a)("t",b)("eq",eq)("ne",ne)("own",ow)); } } } }
};
void drive(Ctx& c) { size_t n=c.n(300,6000); for(size_t i=0;i<n;i++) { Hist h(c); h.run(); } }
// several threads, each with pointers of its own, to objects they all share
typedef shared_ptr<Base> SP;
void threads(Ctx& c) { for(size_t it=0;it<c.n(500,8000);it++) { dead.clear(); c.start(); Rng& r=c.rng;
    static Ctx* C; C=&c; sched::onDeadlock=[](const std::string& d) { C->log(Obj()("op","Deadlock")("who",d)); fclose(C->out); _exit(0); };
    sched::Opts so; so.seed=r.next(); so.strategy=int(r.below(4)); { static const int M[]={3,10,30,100}; so.fine=M[r.below(4)]; }
    const int nobj=2, nt=2+int(r.below(3)), ns=3; SP src[nobj]; for(int k=0;k<nobj;k++) src[k]=SP(new Base(k+1)); std::vector<SP> own(nt*ns); std::vector<int> want(nt*ns,0);
    int keep=int(r.below(4)); sched::begin(so); std::vector<int> th;
    for(int t=0;t<nt;t++) { uint64_t sd=r.next(); th.push_back(sched::spawn([&,t,sd]{ Rng q(sd); SP* p=&own[t*ns]; int* w=&want[t*ns];
        for(int k=0;k<8;k++) { int a=int(q.below(ns)), b=int(q.below(ns)), o=int(q.below(nobj)); int op=int(q.below(8)); sched::Lib lib;
            switch(op) { case 0: case 1: p[a]=src[o]; w[a]=o+1; break; case 2: p[a].reset(); w[a]=0; break; case 3: p[a]=p[b]; w[a]=w[b]; break; case 4: p[a].swap(p[b]); std::swap(w[a],w[b]); break;
            case 5: { weak_ptr<Base> x(src[o]); SP y(x.lock()); p[a]=y; w[a]=o+1; break; } case 6: { SP y(p[a]); p[b]=y; w[b]=w[a]; break; }
            default: { ptr_base::ref_set_t z; src[o].spy_refs(z); } } } })); }
    for(int t: th) sched::join(t); 
    // and the last ones are given up by several threads at once
    th.clear(); for(int t=0;t<nt;t++) th.push_back(sched::spawn([&,t]{ sched::Lib lib; if(t<nobj && keep!=t) src[t].reset(); if(keep>1) for(int k=0;k<ns;k++) { own[t*ns+k].reset(); want[t*ns+k]=0; } }));
    for(int t: th) sched::join(t); sched::end();
    std::vector<const SB*> all; std::vector<int> o, e; for(int k=0;k<nobj;k++) { all.push_back(&src[k]); o.push_back(src[k]?dead.count(src[k]->id)?-1:src[k]->id:0); e.push_back(keep==k||k>=nt?k+1:0); } for(size_t k=0;k<own.size();k++) { all.push_back(&own[k]); o.push_back(own[k]?dead.count(own[k]->id)?-1:own[k]->id:0); e.push_back(want[k]); }
    std::vector<Raw> st; for(size_t k=0;k<all.size();k++) { const SP& x=k<size_t(nobj)?src[k]:own[k-nobj]; ptr_base::ref_set_t z; x.spy_refs(z); std::vector<int> v; for(auto y: z) { int at=-1; for(size_t j=0;j<all.size();j++) if(all[j]==y) at=int(j)+1; v.push_back(at); } st.push_back(Obj()("s",k+1)("o",o[k])("e",e[k])("n",x?x.use_count():0)("refs",v).done()); }
    c.log(Obj()("op","conc")("st",st)("dead",dead)("objs",nobj)); } }
void go(Ctx& c) { if(c.mode=="threads") threads(c); else drive(c); }
}
VH_MAIN(go)
