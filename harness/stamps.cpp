// Histories on TimeStamp objects (C27).
#include "pvh.h"
#include <pv/timeStamp.h>
#include <ctime>
#include <cmath>
using namespace vh;
namespace {
typedef std::vector<TimeStamp> TS;
int64 gsec(Rng& r) { switch(r.below(8)) { case 0: return r.range(-3,3); case 1: return r.range(-100000,100000); case 2: return 1600000000LL+r.range(0,1000); case 3: return -r.range(0,2000000000L);
    case 4: return (int64)(r.next()>>r.range(2,40))*(r.chance(1,2)?1:-1); case 5: return 9223372036LL+r.range(-2,2); case 6: return -9223372036LL+r.range(-2,2); default: return 631152000LL+(int64)(r.next()>>32); } }
int32 gns(Rng& r) { switch(r.below(6)) { case 0: return 0; case 1: return r.range(-3,3); case 2: return 1000000000-r.range(-3,3); case 3: return -1000000000+r.range(-3,3); case 4: return r.range(0,999999999); default: return (int32)r.next(); } }
double gsecs(Rng& r) { double x; switch(r.below(8)) { case 0: x=0; break; case 1: x=r.range(0,5); break; case 2: x=r.range(0,3000000000L)*1e-9; break; case 3: x=1.0-r.range(0,3)*1e-9; break; case 4: x=r.range(0,1000000)*0.001; break;
    case 5: x=std::ldexp((double)(r.next()>>11),-(int)r.range(20,80)); break; case 6: x=r.range(1,9)*0.1; break; default: x=std::ldexp((double)(r.next()>>11),(int)r.range(-30,6)); break; } return r.chance(1,2)?-x:x; }
struct H {
    Ctx& c; Rng& r; TS t; H(Ctx& c):c(c),r(c.rng) {}
    void show(Obj& e, size_t i) { const TimeStamp& x=t[i]; e("sec",jscalar<int64>(x.getSecondsPastEpoch()))("ns",x.getNanoseconds())("tag",x.getUserTag()); }
    bool big(int64 a, int64 b) { __int128 s=(__int128)a+b; return s>((__int128)1<<62)||s<-((__int128)1<<62); }
    void run(size_t steps) {
        c.start(); for(int i=0;i<3;i++) { int64 s=gsec(r); int32 n=gns(r), g=r.range(-5,5); t.push_back(r.chance(1,8)?TimeStamp():TimeStamp(s,n,g)); if(t.back().getUserTag()!=g||t.back().getSecondsPastEpoch()==0) { t.back()=TimeStamp(s,n,g); } Obj e; e("op","new")("n",i+1)("a",jscalar<int64>(s))("b",jscalar<int32>(n))("tg",g); show(e,i); c.log(e); }
        for(size_t k=0;k<steps;k++) { size_t i=r.below(t.size()), j=r.below(t.size()); TimeStamp& x=t[i]; Obj e; 
            switch(r.below(14)) {
            case 0: { int64 s=gsec(r); int32 n=gns(r); if(r.chance(1,5)) { n=0; } x.put(s,n); e("op","put")("n",i+1)("a",jscalar<int64>(s))("b",jscalar<int32>(n)); show(e,i); break; }
            case 1: { int64 ms=gsec(r); void (TimeStamp::*f)(int64)=&TimeStamp::put; (x.*f)(ms); e("op","putms")("n",i+1)("a",jscalar<int64>(ms)); show(e,i); break; }
            case 2: { time_t tt=631152000LL+(time_t)(r.next()>>33); x.fromTime_t(tt); e("op","time_t")("n",i+1)("a",jscalar<int64>(tt)); show(e,i); break; }
            case 3: { int64 s=gsec(r); if(big(x.getSecondsPastEpoch(),s)) continue; x+=s; e("op","add")("n",i+1)("a",jscalar<int64>(s)); show(e,i); break; }
            case 4: { int64 s=gsec(r); if(big(x.getSecondsPastEpoch(),-s)) continue; x-=s; e("op","sub")("n",i+1)("a",jscalar<int64>(s)); show(e,i); break; }
            case 5: case 6: { double s=gsecs(r); if(big(x.getSecondsPastEpoch(),(int64)s)) continue; x+=s; e("op","addf")("n",i+1)("a",jscalar<double>(s)); show(e,i); break; }
            case 7: { double s=gsecs(r); if(big(x.getSecondsPastEpoch(),-(int64)s)) continue; x-=s; e("op","subf")("n",i+1)("a",jscalar<double>(s)); show(e,i); break; }
            case 8: { x=t[j]; if(r.chance(1,2)) x=TimeStamp(t[j]); e("op","copy")("n",i+1)("m",j+1); show(e,i); break; }
            case 9: { int g=r.range(-9,9); x.setUserTag(g); e("op","settag")("n",i+1)("tg",g); show(e,i); break; }
            case 10: case 11: { // make near equality likely
                const TimeStamp& y=t[j]; e("op","cmp")("n",i+1)("m",j+1)("eq",x==y)("ne",x!=y)("lt",x<y)("le",x<=y)("gt",x>y)("ge",x>=y); break; }
            case 12: { const TimeStamp& y=t[j]; __int128 d=(__int128)x.getSecondsPastEpoch()-y.getSecondsPastEpoch(); if(d>((__int128)1<<62)||d<-((__int128)1<<62)) continue; e("op","diff")("n",i+1)("m",j+1)("r",jscalar<double>(TimeStamp::diff(x,y))); break; }
            default: { if(r.chance(1,8)) { struct timespec q; clock_gettime(CLOCK_REALTIME,&q); int64 a=q.tv_sec; x.getCurrent(); clock_gettime(CLOCK_REALTIME,&q); int64 b=q.tv_sec; e("op","now")("n",i+1)("a",jscalar<int64>(a))("b",jscalar<int64>(b)); show(e,i); break; }
                int64 s=x.getSecondsPastEpoch(); bool msok=std::abs(s)<9000000000000000LL, ttok=s>=631152000LL && s<631152000LL+0x7fffffffLL; time_t tt=0; if(ttok) x.toTime_t(tt);
                e("op","read")("n",i+1)("r",jscalar<double>(x.toSeconds()))("eps",jscalar<int64>(x.getEpicsSecondsPastEpoch()))("msok",msok)("ms",jscalar<int64>(msok?x.getMilliseconds():0))("ttok",ttok)("tt",jscalar<int64>(tt)); show(e,i); break; }
            } c.log(e); } }
};
void drive(Ctx& c) { for(size_t i=0;i<c.n(100,1500);i++) { H h(c); h.run(c.thorough?120:60); } }
}
VH_MAIN(drive)
