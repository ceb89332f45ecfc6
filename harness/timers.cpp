// Timers (C31, C32): random programs of several client threads and of the
// callbacks themselves, run on a real Timer under the scheduler of coop.h.
// Every call, return, callback and tick of the virtual clock is logged.
#include "vh.h"
#include "coop.h"
#include <pv/timer.h>
#include <pv/lock.h>
#include <signal.h>
#include <unistd.h>
#include <unordered_set>
using namespace epics::pvData;
using namespace vh;

namespace {
Ctx* C; std::string buf; Rng R(1);
void put(const Obj& o) { buf += o.t; buf += "}\n"; }
void flushBuf() { size_t n = 0; for(size_t i = 0; i < buf.size(); i++) n += buf[i] == '\n'; fwrite(buf.data(), 1, buf.size(), C->out); fflush(C->out); C->lines += n; buf.clear(); }
void onSig(int s) { static bool once = false; if(!once) { once = true; flushBuf(); } signal(s, SIG_DFL); raise(s); }
long us(int64_t ns) { return long((ns + 500) / 1000); }
long lastTick; bool fine, closing;   // preemption inside the library; programs that close the timer
int nclients;     // controlled threads that are clients (or main): everything spawned by the driver
std::set<int> clients;

struct Cb;
struct Run { Timer* t; std::vector<std::shared_ptr<Cb> > cbs; int budget; bool closes; bool late; };
Run X;
const long Delay[] = {0, 10, 10, 20, 20, 30, 45};   // ms
const long Period[] = {0, 0, 0, 0, 10, 25};
void opSched(int k, long d, long p); void opCancel(int k); void opQuery(int k); void opDump(); void opClose();
void randomOp(bool inCb, int selfCb);

struct Cb : public TimerCallback {
    int id;
    explicit Cb(int i) : id(i) {}
    virtual void callback() {
        sched::Own own;
        int th = sched::self();
        put(Obj()("op", "cbBegin")("cb", id)("th", th)("client", clients.count(th) != 0));
        if(X.budget > 0) {
            switch(R.below(6)) {
            case 0: X.budget--; sched::sleep(1000000L * R.range(1, 30)); break;
            case 1: case 2: X.budget--; randomOp(true, id); break;
            case 3: X.budget--; randomOp(true, id); if(R.chance(1, 2)) sched::sleep(1000000L * 5); if(R.chance(2, 3)) randomOp(true, id); break;
            default: break;
            }
        }
        sched::point();
        put(Obj()("op", "cbEnd")("cb", id)("th", th));
    }
    virtual void timerStopped() { sched::Own own; put(Obj()("op", "stopped")("cb", id)("th", sched::self())); sched::point(); }
};
void call(const char* f, int cb, long d, long p) { put(Obj()("op", "call")("th", sched::self())("f", f)("cb", cb)("delay", d * 1000)("per", p * 1000)); }
void ret(const char* res) { put(Obj()("op", "ret")("th", sched::self())("res", res)); }
void opSched(int k, long d, long p) {
    call("sched", k, d, p);
    TimerCallbackPtr cb(X.cbs[k-1]);
    try { sched::Lib lib; if(p == 0 && R.chance(2, 3)) X.t->scheduleAfterDelay(cb, d / 1000.0); else X.t->schedulePeriodic(cb, d / 1000.0, p / 1000.0); }
    catch(std::exception&) { ret("throw"); return; }
    ret("ok");
}
void opCancel(int k) { call("cancel", k, 0, 0); bool r; { sched::Lib lib; r = X.t->cancel(X.cbs[k-1]); } ret(r ? "true" : "false"); }
void opQuery(int k) { call("query", k, 0, 0); bool r; { sched::Lib lib; r = X.t->isScheduled(X.cbs[k-1]); } ret(r ? "true" : "false"); }
void opDump() {
    call("dump", 0, 0, 0);
    std::ostringstream s; { sched::Lib lib; s << *X.t; }
    std::istringstream i(s.str()); std::string a, b; double d, p; std::vector<long> per;
    while(i >> a >> d >> b >> p) per.push_back(a == "timeToRun" && b == "period" ? long(p * 1e6 + .5) : -1);
    put(Obj()("op", "ret")("th", sched::self())("res", "ok")("list", per));
}
void opClose() { call("close", 0, 0, 0); { sched::Lib lib; X.t->close(); } ret("ok"); }
void randomOp(bool inCb, int selfCb) {
    int k = selfCb && R.chance(1, 2) ? selfCb : 1 + (int)R.below(X.cbs.size());
    size_t w = R.below(inCb ? 11 : (X.closes ? 13 : 12));
    if(w < 6) opSched(k, Delay[R.below(7)], Period[R.below(inCb && R.chance(2, 3) ? 4 : 6)]);
    else if(w < 9) opCancel(k);
    else if(w < 11) opQuery(k);
    else if(w < 12) opDump();
    else opClose();
}
void client(int nops) {
    clients.insert(sched::self());
    for(int i = 0; i < nops; i++) {
        if(R.chance(1, 2)) sched::sleep(1000000L * 5 * R.range(0, 5));
        randomOp(false, 0);
    }
}
void scenario(uint64_t seed) {
    R = Rng(seed); buf.clear(); clients.clear(); lastTick = 0;
    sched::Opts o; o.seed = seed; o.strategy = (int)R.below(4); o.fine = fine ? (int[]){3, 10, 30, 100}[R.below(4)] : 0; o.early = R.chance(1, 3) ? 30 : 0; o.step = 1000000;
    int nc = 1 + (int)R.below(3), ncb = 1 + (int)R.below(4);
    { Obj s; s("op", "Start")("seed", (unsigned long)seed)("strategy", o.strategy)("early", o.early)("clients", nc)("cbs", ncb); put(s); }
    X.closes = closing && R.chance(1, 2); X.budget = 6;
    X.cbs.clear(); for(int i = 1; i <= ncb; i++) X.cbs.push_back(std::shared_ptr<Cb>(new Cb(i)));
    sched::begin(o);
    clients.insert(0);
    {
        { sched::Lib lib; X.t = new Timer("t", middlePriority); }
        std::vector<int> ids; int per = closing ? 4 : 6;
        for(int i = 0; i < nc; i++) { int n = 1 + (int)R.below(per); ids.push_back(sched::spawn([n]{ client(n); })); clients.insert(ids.back()); }
        if(closing && R.chance(1, 3)) { sched::sleep(1000000L * 5 * R.range(0, 8)); opClose(); }
        for(size_t i = 0; i < ids.size(); i++) sched::join(ids[i]);
        if(R.chance(2, 3)) sched::sleep(1000000L * R.range(0, 70));
        if(R.chance(1, 3)) { opClose(); if(R.chance(1, 2)) randomOp(false, 0); }
        // destruction closes what is still open
        call("close", 0, 0, 0); { sched::Lib lib; delete X.t; } X.t = 0; ret("ok");
        sched::sleep(100000000L);
    }
    put(Obj()("op", "End"));
    sched::end();
    X.cbs.clear();
}
} // namespace
static void fn(Ctx& c) {
    C = &c; fine = c.mode.find("fine") != c.mode.npos; closing = c.mode.find("close") != c.mode.npos; signal(SIGABRT, onSig); signal(SIGSEGV, onSig); signal(SIGBUS, onSig); signal(SIGALRM, onSig);
    { Timer t("warm", middlePriority); std::ostringstream s; s << t; }
    sched::onTick = [](int64_t t, bool idle) { long u = us(t); if(u <= lastTick) return; lastTick = u; put(Obj()("op", "tick")("t", u)("idle", idle)); };
    sched::onDeadlock = [](const std::string& d) { put(Obj()("op", "Deadlock")("who", d)); flushBuf(); fclose(C->out); _exit(0); };
    std::unordered_set<std::string> seen; size_t n = fine ? c.n(2500, 50000) : c.n(3000, 60000), kept = 0;
    for(size_t i = 0; i < n; i++) {
        scenario(c.seed * 1000003 + i);
        size_t p = buf.find('\n'); if(!seen.insert(buf.substr(p)).second) { buf.clear(); continue; }
        kept++; flushBuf();
    }
    fprintf(stderr, "kept %zu of %zu\n", kept, n);
}
VH_MAIN(fn)
