// Events, lock guards and threads (C33): random programs of several threads
// under the scheduler of coop.h.
#include "vh.h"
#include "coop.h"
#include <pv/event.h>
#include <pv/lock.h>
#include <pv/thread.h>
#include <signal.h>
#include <unistd.h>
#include <unordered_set>
using namespace epics::pvData;
using namespace vh;

namespace {
Ctx* C; std::string buf; Rng R(1);
void put(const Obj& o) { buf += o.t; buf += "}\n"; }
void flushBuf() { size_t n = 0; for(size_t i = 0; i < buf.size(); i++) n += buf[i] == '\n'; fwrite(buf.data(), 1, buf.size(), C->out); fflush(C->out); C->lines += n; buf.clear(); }
void onSig(int s) { static bool once = false; if(!once) { once = true; flushBuf(); } signal(s, SIG_DFL); raise(s); }
long us(int64_t ns) { return long((ns + 500) / 1000); }
long lastTick, slack;
const long MS = 1000000;
struct Body;
struct World {
    std::vector<Event*> ev; std::vector<Mutex*> mx; int nguards, nthreads;
    std::vector<std::unique_ptr<Body> > bodies;
} W;
void call(const char* f, int n = 0, long d = 0, const std::string& name = "", bool aut = false, int id = 0) { put(Obj()("op", "call")("th", sched::self())("f", f)("n", n)("d", d * 1000)("name", name)("auto", aut)("id", id)); }
void ret(const char* res) { put(Obj()("op", "ret")("th", sched::self())("res", res)); }
void ret(bool b) { ret(b ? "true" : "false"); }

struct Body : public Runnable {
    int id; int work; 
    virtual void run() {
        sched::Own own;
        put(Obj()("op", "begin")("n", id)("name", epicsThreadGetNameSelf()));
        for(int i = 0; i < work; i++) { if(R.chance(1, 2)) sched::sleep(MS * (R.chance(1, 8) ? R.range(500, 20000) : R.range(1, 20))); else sched::point(); }
        if(!W.ev.empty() && R.chance(1, 2)) { int e = 1 + (int)R.below(W.ev.size()); call("signal", e); { sched::Lib lib; W.ev[e-1]->signal(); } ret("ok"); }
        put(Obj()("op", "end")("n", id));
    }
    void meth() { run(); }
    static void fn(void* p) { ((Body*)p)->run(); }
};
struct G { Lock* l; int id, m; bool on; };
struct Th { Thread* t; int id; bool started, joined; };

struct Client {
    std::vector<G> gs; std::vector<Th> ts;
    int maxHeld() { int k = 0; for(auto& g : gs) if(g.on && g.m > k) k = g.m; return k; }
    // blocking on mutex m cannot close a cycle
    bool mayBlock(int m) { for(auto& g : gs) if(g.on && g.m > m) return false; return true; }
    void newThread() {
        Th t; Body* b = new Body; b->work = (int)R.below(3); W.bodies.emplace_back(b); 
        t.started = R.chance(1, 2); t.joined = false;
        std::string name = std::string("n") + char('a' + R.below(26)); int form = (int)R.below(7);
        if(form < 2) t.started = true;
        b->id = t.id = ++W.nthreads;
        call("thread", t.id, 0, name, t.started);
        if(form == 0) { sched::Lib lib; t.t = new Thread(name, middlePriority, b); }
        else if(form == 1) { sched::Lib lib; t.t = new Thread(*b, name, epicsThreadGetStackSize(epicsThreadStackSmall), lowPriority); }
        else {
            Thread::Config c; c.prio(epicsThreadPriorityMedium).autostart(t.started);
            if(form == 2) c.run(b);
            else if(form == 3) c.run(&Body::fn, (void*)b);
            else if(form == 4) c.run(b, &Body::meth);
            else if(form == 5) c.run([b]() { b->run(); });
            else { c.run(&Body::fn, (void*)0); c.run(b); }  // the last runner counts
            if(R.chance(1, 2)) c.name(name); else c << name.substr(0, 1) << name[1];
            if(R.chance(1, 3)) c.stack(epicsThreadStackSmall);
            sched::Lib lib; t.t = new Thread(c);
        }
        ret("ok"); ts.push_back(t);
    }
    void step() {
        size_t w = R.below(20);
        int e = 1 + (int)R.below(W.ev.size()), m = 1 + (int)R.below(W.mx.size());
        if(w < 4) { call("signal", e); { sched::Lib lib; W.ev[e-1]->signal(); } ret("ok"); }
        else if(w < 6) { if(maxHeld()) return; call("wait", e); { bool b; { sched::Lib lib; b = W.ev[e-1]->wait(); } ret(b); } }
        else if(w < 9) { long d = R.range(0, 4) * 5; call("waitt", e, d); { bool b; { sched::Lib lib; b = W.ev[e-1]->wait(d / 1000.0); } ret(b); } }
        else if(w < 11) { call("try", e); { bool b; { sched::Lib lib; b = W.ev[e-1]->tryWait(); } ret(b); } }
        else if(w < 13) {
            if(gs.size() >= 3 || !mayBlock(m)) return;
            G g; g.m = m; g.on = true; g.id = ++W.nguards; call("guard", m, 0, "", false, g.id); g.l = new Lock(*W.mx[m-1]); ret("ok"); gs.push_back(g);
        }
        else if(w < 17) {
            if(gs.empty()) return;
            size_t i = R.below(gs.size()); G& g = gs[i];
            switch(R.below(5)) {
            case 0: if(!g.on && !mayBlock(g.m)) return; call("lock", g.id); g.l->lock(); g.on = true; ret("ok"); break;
            case 1: call("unlock", g.id); g.l->unlock(); g.on = false; ret("ok"); break;
            case 2: { call("trylock", g.id); bool b = g.l->tryLock(); if(b) g.on = true; ret(b); break; }
            case 3: call("owns", g.id); ret(g.l->ownsLock()); break;
            case 4: call("unguard", g.id); delete g.l; ret("ok"); gs.erase(gs.begin() + i); break;
            }
        }
        else if(w < 18 && ts.size() < 2) newThread();
        else if(w < 19 && !ts.empty()) {
            size_t i = R.below(ts.size()); Th& t = ts[i];
            if(!t.started) { if(R.chance(2, 3)) { t.started = true; call("start", t.id); { sched::Lib lib; t.t->start(); } ret("ok"); } else { call("destroy", t.id); { sched::Lib lib; delete t.t; } ret("ok"); ts.erase(ts.begin() + i); } }
            else if(maxHeld()) return;
            else if(!t.joined) {
                if(R.chance(1, 2)) { call("join", t.id); { sched::Lib lib; t.t->exitWait(); } ret("ok"); t.joined = true; }
                else { long d = R.range(0, 4) * 5; call("joint", t.id, d); bool b; { sched::Lib lib; b = t.t->exitWait(d / 1000.0); } ret(b ? "ok" : "false"); if(b) t.joined = true; } }
            else { call("destroy", t.id); { sched::Lib lib; delete t.t; } ret("ok"); ts.erase(ts.begin() + i); }
        }
        else if(R.chance(1, 3)) { call("norunner"); try { Thread::Config c; c.name("x"); Thread t(c); ret("ok"); } catch(std::logic_error&) { ret("throw"); } }
        else sched::sleep(MS * 5 * R.range(1, 4));
    }
    void finish() {
        while(!gs.empty()) { G g = gs.back(); gs.pop_back(); call("unguard", g.id); delete g.l; ret("ok"); }
        while(!ts.empty()) { Th t = ts.back(); ts.pop_back(); call("destroy", t.id); { sched::Lib lib; delete t.t; } ret("ok"); }
    }
};
void scenario(uint64_t seed) {
    R = Rng(seed); buf.clear(); lastTick = 0; slack = 0;
    sched::Opts o; o.seed = seed; o.strategy = (int)R.below(4); o.fine = C->mode == "fine" ? (int[]){3, 10, 30, 100}[R.below(4)] : 0; o.early = R.chance(1, 4) ? 30 : 0; o.step = MS;
    int nc = 1 + (int)R.below(3), ne = 1 + (int)R.below(2), nm = 2, per = (int)R.range(3, 9);
    std::vector<bool> full; for(int i = 0; i < ne; i++) full.push_back(R.chance(1, 2));
    { Obj s; s("op", "Start")("seed", (unsigned long)seed)("full", std::vector<Raw>()); std::vector<Raw> f; for(bool b : full) f.push_back(jv(b)); Obj q; q("op", "Start")("seed", (unsigned long)seed)("full", f); put(q); }
    W.nguards = W.nthreads = 0; W.bodies.clear();
    sched::begin(o);
    for(int i = 0; i < ne; i++) W.ev.push_back(full[i] ? new Event(true) : R.chance(1, 2) ? new Event(false) : new Event());
    for(int i = 0; i < nm; i++) W.mx.push_back(new Mutex());
    std::vector<int> ids; int live = nc;
    for(int i = 0; i < nc; i++) ids.push_back(sched::spawn([&live, per]{ Client c; for(int k = 0; k < per; k++) c.step(); c.finish(); live--; }));
    // waits without a timeout end because main signals until everybody is through
    for(double gap = 10; live > 0; gap = std::min(gap * 1.2, 5000.0)) { sched::sleep(long(MS * gap)); if(live > 0) { int e = 1 + (int)R.below(ne); call("signal", e); { sched::Lib lib; W.ev[e-1]->signal(); } ret("ok"); } }
    for(int i : ids) sched::join(i);
    for(Event* e : W.ev) delete e;
    for(Mutex* m : W.mx) delete m;
    W.ev.clear(); W.mx.clear();
    put(Obj()("op", "End"));
    sched::end();
    W.bodies.clear();
}
} // namespace
static void fn(Ctx& c) {
    C = &c; signal(SIGABRT, onSig); signal(SIGSEGV, onSig); signal(SIGBUS, onSig);
    { Body b; b.id = 0; b.work = 0; buf.clear(); Thread t("warm", middlePriority, &b); }
    sched::onTick = [](int64_t t, bool idle) { long u = us(t); if(u <= lastTick) return; if(!idle) slack += u - lastTick; lastTick = u; put(Obj()("op", "tick")("t", u)("idle", idle)("slack", slack)); };
    sched::onDeadlock = [](const std::string& d) { put(Obj()("op", "Deadlock")("who", d)); flushBuf(); fclose(C->out); _exit(0); };
    std::unordered_set<std::string> seen; size_t n = c.n(3000, 60000), kept = 0;
    for(size_t i = 0; i < n; i++) {
        scenario(c.seed * 1000003 + i);
        size_t p = buf.find('\n'); if(!seen.insert(buf.substr(p)).second) { buf.clear(); continue; }
        kept++; flushBuf();
    }
    fprintf(stderr, "kept %zu of %zu\n", kept, n);
}
VH_MAIN(fn)
