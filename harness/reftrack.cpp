// Reference counters, snapshots and the monitor (C34).
#include "pvh.h"
#include "ctl.h"
#include "coop.h"
#include <pv/reftrack.h>
#include <pv/thread.h>
#include <pthread.h>
using namespace epics::pvData;
using namespace epics;
using namespace vh;
namespace {
// pointers -> small numbers
struct Ids { std::map<const void*,int> m; int operator()(const void* p) { return m.insert(std::make_pair(p,int(m.size())+1)).first->second; } };
void fieldsOf(const Field* f, std::set<const Field*>& o) { if(!f||!o.insert(f).second) return; switch(f->getType()) {
    case structure: for(auto& x: static_cast<const Structure*>(f)->getFields()) fieldsOf(x.get(),o); break;
    case union_: for(auto& x: static_cast<const Union*>(f)->getFields()) fieldsOf(x.get(),o); break;
    case structureArray: fieldsOf(static_cast<const StructureArray*>(f)->getStructure().get(),o); break;
    case unionArray: fieldsOf(static_cast<const UnionArray*>(f)->getUnion().get(),o); break;
    default: break; } }
void pvsOf(PVField* f, std::set<const PVField*>& o, std::set<const Field*>& t) { if(!f||!o.insert(f).second) return; fieldsOf(f->getField().get(),t); switch(f->getField()->getType()) {
    case structure: for(auto& x: static_cast<PVStructure*>(f)->getPVFields()) pvsOf(x.get(),o,t); break;
    case union_: pvsOf(static_cast<PVUnion*>(f)->get().get(),o,t); break;
    case structureArray: { PVStructureArray::const_svector v(static_cast<PVStructureArray*>(f)->view()); for(size_t i=0;i<v.size();i++) pvsOf(v[i].get(),o,t); break; }
    case unionArray: { PVUnionArray::const_svector v(static_cast<PVUnionArray*>(f)->view()); for(size_t i=0;i<v.size();i++) pvsOf(v[i].get(),o,t); break; }
    default: break; } }
Raw jsnap(const RefSnapshot& s) { std::vector<Raw> v; for(RefSnapshot::iterator i=s.begin();i!=s.end();++i) v.push_back(Obj()("n",i->first)("c",long(i->second.current))("d",i->second.delta).done()); return jv(v); }
// "name:\tcur (delta d)"
Raw jtext(const std::string& t) { std::vector<Raw> v; std::istringstream in(t); std::string ln; while(std::getline(in,ln)) { size_t a=ln.find(":\t"); unsigned long c=0; long d=0; char tail=0; if(a==std::string::npos || sscanf(ln.c_str()+a+2,"%lu (delta %ld%c",&c,&d,&tail)!=3 || tail!=')') { v.push_back(Obj()("n",ln)("c",-1)("d",0).done()); continue; } v.push_back(Obj()("n",ln.substr(0,a))("c",c)("d",d).done()); } return jv(v); }
struct Nop : public epicsThreadRunable { virtual void run() {} } nop;
std::vector<FieldConstPtr> perm; std::vector<const Field*> permset;
size_t counters[6];
const char* names[]={"alpha","beta","gamma","Field","PVField","a:b","Thread"};
struct Roots { FieldConstPtr f; PVFieldPtr p; };
struct Hist {
    Ctx& c; Rng& r; GenOpt o; std::vector<Roots> roots; std::vector<Thread*> thr; std::map<int,RefSnapshot> sn; size_t b[3];
    std::set<std::string> mine;
    Hist(Ctx& c):c(c),r(c.rng) { o.maxf=3; o.depth=2; }
    Raw live() { std::vector<Raw> v; Ids fi, pi; for(const Field* f: permset) fi(f); for(auto& x: roots) { std::set<const PVField*> p; std::set<const Field*> t; if(x.f) fieldsOf(x.f.get(),t); if(x.p) pvsOf(x.p.get(),p,t); std::vector<int> a,q; for(auto f: t) a.push_back(fi(f)); for(auto f: p) q.push_back(pi(f)); v.push_back(Obj()("f",a)("p",q).done()); } return jv(v); }
    Raw jperm() { std::vector<int> v; for(size_t i=0;i<permset.size();i++) v.push_back(int(i)+1); return jv(v); }
    void log(const char* what) { c.log(Obj()("op","obj")("what",what)("live",live())("perm",jperm())("nt",thr.size())("rf",readRefCounter("Field"))("rp",readRefCounter("PVField"))("rt",readRefCounter("Thread"))); }
    void start() { b[0]=readRefCounter("Field"); b[1]=readRefCounter("PVField"); b[2]=readRefCounter("Thread"); c.start(Obj()("base",std::vector<size_t>(b,b+3))); }
    void count(int k, size_t v) { counters[k]=v; c.log(Obj()("op","count")("k",k)("v",v)); }
    void reg(const char* n, int k) { registerRefCounter(n,&counters[k]); mine.insert(n); c.log(Obj()("op","reg")("n",n)("k",k)); }
    void unreg(const char* n, int k) { unregisterRefCounter(n,&counters[k]); c.log(Obj()("op","unreg")("n",n)("k",k)); }
    FieldConstPtr type() { FieldConstPtr t; do t=r.chance(1,4)?gtype(r,o,2):FieldConstPtr(gstruct(r,o,3,1)); while(false); return t; }
    void obj() { FieldCreatePtr fc(getFieldCreate()); PVDataCreatePtr dc(getPVDataCreate()); size_t n=roots.size();
        switch(r.below(17)) {
        case 0: case 1: if(n<8) { Roots x; x.f=type(); roots.push_back(x); log("type"); } break;
        case 2: case 3: if(n<8) { Roots x; x.p=mkpv(n&&r.chance(1,3)?[&]{ auto& q=r.pick(roots); return q.f?q.f:FieldConstPtr(q.p->getField()); }():type()); if(r.chance(2,3)) gfill(r,x.p.get(),o); roots.push_back(x); log("value"); } break;
        case 4: case 5: if(n) { roots.erase(roots.begin()+r.below(n)); log("drop"); } break;
        case 6: if(n&&n<8) { Roots x(r.pick(roots)); if(x.p) { x.f.reset(); try { x.p=dc->createPVField(x.p); roots.push_back(x); } catch(std::exception&) {} log("clone"); } } break;
        case 7: if(n&&n<8) { Roots x(r.pick(roots)); if(x.p&&r.chance(1,2)) { std::set<const PVField*> s; std::vector<PVField*> v; walk(x.p.get(),v); x.p=v[r.below(v.size())]->shared_from_this(); } roots.push_back(x); log("share"); } break;
        case 8: if(n) { Roots x(r.pick(roots)); if(x.p) { gfill(r,x.p.get(),o); x.p.reset(); log("refill"); } } break;
        case 9: { std::vector<Roots*> v; for(auto& x: roots) if(x.p) v.push_back(&x); if(v.size()>1) { Roots *a=r.pick(v), *q=r.pick(v); if(a->p->getField()==q->p->getField()) { try { a->p->copyUnchecked(*q->p); } catch(std::exception&) {} } else { try { a->p->copy(*q->p); } catch(std::exception&) {} } log("copy"); } break; }
        case 10: { // a type description, possibly cut or damaged
            FieldConstPtr t(type()); OutCtl oc(r,64,EPICS_ENDIAN_BIG); t->serialize(&oc.buf,&oc); std::string s(oc.finish()); t.reset(); int how=int(r.below(3)); if(how==1) s.resize(r.below(s.size())); if(how==2) s[r.below(s.size())]=char(r.below(256));
            try { InCtl ic(r,s,64,EPICS_ENDIAN_BIG); FieldConstPtr f(fc->deserialize(&ic.buf,&ic)); if(f&&n<8) { Roots x; x.f=f; roots.push_back(x); } } catch(std::exception&) {} log("wiretype"); break; }
        case 11: { std::vector<Roots*> v; for(auto& x: roots) if(x.p) v.push_back(&x); if(v.empty()) break; Roots* a=r.pick(v); PVFieldPtr s(mkpv(a->p->getField())); gfill(r,s.get(),o); OutCtl oc(r,64,EPICS_ENDIAN_BIG); s->serialize(&oc.buf,&oc); std::string y(oc.finish()); s.reset(); { std::set<const PVField*> w; std::set<const Field*> t; pvsOf(a->p.get(),w,t); bool arr=a->p->getParent()!=0; for(auto x: w) { Type k=x->getField()->getType(); arr|=k==structureArray||k==unionArray; } if(arr) a->p=mkpv(a->p->getField()); }   // object arrays keep elements beyond their length allocated
            bool cut=r.chance(1,2)&&y.size(); if(cut) y.resize(r.below(y.size()));
            try { InCtl ic(r,y,64,EPICS_ENDIAN_BIG); a->p->deserialize(&ic.buf,&ic); } catch(std::exception&) {} log("wirevalue"); break; }
        case 12: { // refused definitions
            try { StringArray ns; FieldConstPtrArray fs; size_t k=1+r.below(3); for(size_t i=0;i<k;i++) { ns.push_back(i+1==k?(r.chance(1,2)?"":"0x y"):std::string(1,char('a'+i))); fs.push_back(type()); } if(r.chance(1,3)) fs.back().reset(); if(r.chance(1,2)) fc->createStructure(ns,fs); else fc->createUnion(ns,fs); } catch(std::exception&) {}
            try { fc->createFieldBuilder()->add("x",pvInt)->addNestedStructure("y")->add("q",pvDouble)->endNested()->endNested(); } catch(std::exception&) {}
            try { fc->createBoundedString(0); } catch(std::exception&) {}
            log("refused"); break; }
        case 13: { StringArray ns; FieldConstPtrArray fs; if(n<8) { Roots x; x.f=fc->createFieldBuilder()->setId("b"+std::to_string(r.below(3)))->add("x",type())->addNestedStructure("n")->add("y",type())->endNested()->createStructure(); roots.push_back(x); log("builder"); } break; }
        case 14: if(thr.size()<3) { if(r.chance(1,4)) { try { Thread::Config q; q.name("none"); Thread t(q); } catch(std::exception&) {} } else if(r.chance(1,2)) thr.push_back(new Thread("t",lowPriority,&nop)); else thr.push_back(new Thread(Thread::Config(&nop).name("q").autostart(r.chance(1,2)))); log("thread"); } break;
        case 15: if(thr.size()) { size_t i=r.below(thr.size()); thr[i]->start(); delete thr[i]; thr.erase(thr.begin()+i); log("endthread"); } break;
        default: { std::vector<Roots*> v; for(auto& x: roots) if(x.p) v.push_back(&x); if(v.size()<2||n>=8) break; StringArray ns; PVFieldPtrArray fs; Roots *a=r.pick(v), *q=r.pick(v); if(a==q||a->p->getParent()||q->p->getParent()) break; std::set<const PVField*> pa,pq; std::set<const Field*> t; pvsOf(a->p.get(),pa,t); pvsOf(q->p.get(),pq,t); bool share=false; for(auto x: pa) share|=pq.count(x)>0; if(share) break; Roots x; try { x.p=dc->createPVStructure({"l","r"},{dc->createPVField(a->p),dc->createPVField(q->p)}); roots.push_back(x); } catch(std::exception&) {} log("assemble"); } } }
    void conc() { // everything the threads create is gone at the end
        size_t lof=~size_t(0)>>1, lop=lof, bad=0; uint64_t seeds[4]; for(auto& s: seeds) s=r.next(); std::vector<std::shared_ptr<pthread_t>> ts; static size_t shared; shared=0; size_t incs=0;
        struct A { uint64_t seed; size_t lof, lop, incs; int reps; size_t bad; int me; } a[4]; size_t nthr=4; std::vector<pthread_t> t(nthr); bool fine=c.mode=="conc"; sched::Opts so; so.seed=r.next(); so.strategy=int(r.below(4)); { static const int M[]={20,60,200}; so.fine=M[r.below(3)]; } if(fine) sched::begin(so);
        for(size_t i=0;i<nthr;i++) { a[i].seed=seeds[i]; a[i].bad=0; a[i].me=int(i); a[i].reps=c.mode=="conc"?8:40; a[i].lof=a[i].lop=lof; a[i].incs=0; pthread_create(&t[i],0,[](void* p)->void*{ A* a=(A*)p; Rng r(a->seed); size_t mine[3]={11,12,13}; bool in[3]={false,false,false}; std::string nm[3]; for(int j=0;j<3;j++) nm[j]="thr"+std::to_string(j)+char(97+a->me); GenOpt o; o.depth=2; o.maxf=3; std::vector<PVFieldPtr> v; for(int k=0;k<a->reps;k++) { FieldConstPtr t(gstruct(r,o,2,1)); if(v.size()<4) v.push_back(mkpv(t)); else v.erase(v.begin()+r.below(v.size())); if(v.size()) { PVFieldPtr c(getPVDataCreate()->createPVField(v[r.below(v.size())])); gfill(r,c.get(),o); } { int j=int(r.below(3)); if(in[j]) unregisterRefCounter(nm[j].c_str(),&mine[j]); else { mine[j]=1+r.below(90); registerRefCounter(nm[j].c_str(),&mine[j]); } in[j]=!in[j]; } RefSnapshot s; s.update(); for(int j=0;j<3;j++) { size_t w=in[j]?mine[j]:0; a->bad+=s[nm[j]].current!=w; a->bad+=readRefCounter(nm[j].c_str())!=w; } a->lof=std::min(a->lof,s["Field"].current); a->lop=std::min(a->lop,s["PVField"].current); REFTRACE_INCREMENT(shared); a->incs++; if(r.chance(1,2)) { REFTRACE_DECREMENT(shared); a->incs--; } } for(int j=0;j<3;j++) if(in[j]) unregisterRefCounter(nm[j].c_str(),&mine[j]); return 0; },&a[i]); }
        for(size_t i=0;i<nthr;i++) { pthread_join(t[i],0); lof=std::min(lof,a[i].lof); lop=std::min(lop,a[i].lop); incs+=a[i].incs; bad+=a[i].bad; } if(fine) sched::end();
        c.log(Obj()("op","conc")("live",live())("perm",jperm())("lof",lof)("lop",lop)("rf",readRefCounter("Field"))("rp",readRefCounter("PVField"))("inc",shared)("exp",incs)("bad",bad)); }
    void snaps() { int i=1+int(r.below(4)), j=1+int(r.below(4)), q=1+int(r.below(4)); const char* n=names[r.below(7)];
        switch(r.below(12)) {
        case 0: reg(names[r.below(6)==5?5:r.below(3)],int(r.below(6))); break;
        case 1: unreg(names[r.below(6)==5?5:r.below(3)],int(r.below(6))); break;
        case 2: case 3: { int k=int(r.below(6)); count(k,r.chance(1,6)?r.below(1<<30):r.below(5)); break; }
        case 4: c.log(Obj()("op","read")("n",n)("r",readRefCounter(n))); break;
        case 5: case 6: sn[i].update(); c.log(Obj()("op","snap")("i",i)("m",jsnap(sn[i]))); break;
        case 7: case 8: sn[q]=sn[i]-sn[j]; c.log(Obj()("op","diff")("i",i)("j",j)("o",q)("m",jsnap(sn[q]))); break;
        case 9: { const RefSnapshot& s=sn[i]; c.log(Obj()("op","at")("i",i)("n",n)("c",s[n].current)("d",s[n].delta)); break; }
        case 10: sn[i].swap(sn[j]); c.log(Obj()("op","swap")("i",i)("j",j)("zi",sn[i].size())("zj",sn[j].size())); break;
        default: if(r.chance(1,2)) { std::ostringstream s; s<<sn[i]; c.log(Obj()("op","print")("i",i)("t",jtext(s.str()))); } else { char* t=epicsRefSnapshotCurrent(); c.log(Obj()("op","text")("t",jtext(t?t:"?"))); free(t); } } }
    void finish() { roots.clear(); for(Thread* t: thr) { t->start(); delete t; } thr.clear(); log("end"); for(auto& n: mine) for(int k=0;k<6;k++) unregisterRefCounter(n.c_str(),&counters[k]); for(size_t& x: counters) x=0; }
    void run() { start(); bool objs=r.chance(2,3); for(int k=0;k<40;k++) { if(objs&&r.chance(2,3)) obj(); else snaps(); } if(r.chance(1,6)) conc(); finish(); }
    // ------------------------------------------------ the monitor, in virtual time
    struct Mon : public RefMonitor { Hist* h; int shown; Mon(Hist* h):h(h),shown(0) {} virtual void show(const RefSnapshot& s, bool complete) { std::ostringstream t; std::streambuf* old=std::cerr.rdbuf(t.rdbuf()); RefMonitor::show(s,complete); std::cerr.rdbuf(old); std::string x(t.str()); size_t nl=x.find('\n'); bool hd=nl!=std::string::npos && x.find(" : References")!=std::string::npos && x.find(" : References")<nl; h->c.log(Obj()("op","show")("t",h->ms())("complete",complete)("m",jsnap(s))("x",jtext(hd?x.substr(nl+1):"no header"))); shown++; } };
    long ms() { return long((sched::now()+500000)/1000000); }
    void monitor() { start(); sched::Opts so; so.seed=r.next(); so.strategy=int(r.below(4)); sched::begin(so); { Mon m(this); bool on=false; long res=0;
            for(int k=0;k<14;k++) switch(r.below(9)) {
                case 0: case 1: { int p=int(r.range(1,4))*10; c.log(Obj()("op","mstart")("p",p)("t",ms())); m.start(p/1000.0); if(!on) { res=ms()%10; if(r.chance(1,4)) { m.stop(); c.log(Obj()("op","mstop")("t",ms())); break; } sched::sleep(5000000); } on=true; break; }
                case 2: m.stop(); c.log(Obj()("op","mstop")("t",ms())); on=false; break;
                case 3: c.log(Obj()("op","mrun")("r",m.running())); break;
                case 4: m.current(); break;
                case 5: snaps(); break;
                case 6: count(int(r.below(6)),r.below(9)); break;
                default: { long x=(res+5-ms()%10+10)%10; sched::sleep(x*1000000+10000000*int64_t(r.below(6)));   // never just when a report is due
                    c.log(Obj()("op","asleep")("t",ms())); break; } }
            c.log(Obj()("op","mstop")("t",ms())); m.stop(); }
        sched::end(); finish(); }
    // several threads share one monitor: every call returns, one worker at most, and none after the last stop
    struct Mon2 : public RefMonitor { int in, most, shown; Mon2():in(0),most(0),shown(0) {} virtual void show(const RefSnapshot&, bool complete) { sched::Own own; if(complete) return; most=std::max(most,++in); shown++; sched::point(); if(shown%3==0) sched::sleep(4000000); in--; } };
    void shared() { start(); sched::Opts so; so.seed=r.next(); so.strategy=int(r.below(4)); { static const int M[]={3,10,30,100}; so.fine=M[r.below(4)]; }
        static Hist* self; self=this; sched::onDeadlock=[](const std::string& d) { self->c.log(Obj()("op","Deadlock")("who",d)); fclose(self->c.out); _exit(0); };
        sched::begin(so); int last, most, after; bool run; { Mon2 m; std::vector<int> th; size_t nt=2+r.below(2);
            for(size_t i=0;i<nt;i++) { uint64_t sd=r.next(); th.push_back(sched::spawn([&m,sd]{ Rng q(sd); for(int k=0;k<5;k++) switch(q.below(7)) { case 0: case 1: { sched::Lib l; m.start(0.01); break; } case 2: case 3: { sched::Lib l; m.stop(); break; } case 4: { sched::Lib l; m.running(); break; } case 5: { sched::Lib l; m.current(); break; } default: sched::sleep(1000000*int64_t(q.below(20))); } })); }
            for(int t: th) sched::join(t);
            { sched::Lib l; m.stop(); } last=m.shown; run=m.running(); sched::sleep(60000000); after=m.shown-last; most=m.most; }
        sched::end(); c.log(Obj()("op","shared")("run",run)("after",after)("most",most)); finish(); }
};
void drive(Ctx& c) {
    getFieldCreate(); getPVDataCreate(); { GenOpt o; for(int i=0;i<200;i++) { PVFieldPtr p(mkpv(gtype(c.rng,o,3))); gfill(c.rng,p.get(),o); } }
    std::set<const Field*> ps; FieldCreatePtr fc(getFieldCreate()); for(int t=0;t<12;t++) { perm.push_back(fc->createScalar(ScalarType(t))); perm.push_back(fc->createScalarArray(ScalarType(t))); } perm.push_back(fc->createVariantUnion()); perm.push_back(fc->createVariantUnionArray()); for(auto& p: perm) fieldsOf(p.get(),ps); permset.assign(ps.begin(),ps.end());
    if(c.mode!="run") { Thread warm("warm",lowPriority,&nop); }
    if(c.mode=="conc") { for(size_t i=0;i<c.n(25,300);i++) { Hist h(c); h.start(); for(int k=0;k<3;k++) h.obj(); h.conc(); h.finish(); } for(size_t i=0;i<c.n(600,8000);i++) { Hist h(c); h.shared(); } return; }
    size_t n=c.mode=="monitor"?c.n(250,4000):c.n(150,2500); for(size_t i=0;i<n;i++) { Hist h(c); if(c.mode=="monitor") h.monitor(); else h.run(); } }
}
VH_MAIN(drive)
