// Numbers, texts and other scalars worth converting.
#ifndef CONVS_H
#define CONVS_H
#include "pvh.h"
#include <cmath>
#include <limits>
namespace vh {
inline std::string numtext(Rng& r) {
    std::string d; char b[64]; uint64_t v = r.chance(1,2) ? r.below(300) : (r.next() >> r.below(64));
    if(r.chance(1,3)) { static const int k[]={7,8,15,16,31,32,63}; v = (uint64_t(1)<<r.pick(std::vector<int>(k,k+7))) + r.range(-2,2); }
    if(r.chance(1,12)) v = uint64_t(0) - r.below(3);
    const char* f[]={"%llu","%llu","%llu","0x%llx","0x%llX","0X%llx","0%llo","%08llu","%llu0"};
    snprintf(b,sizeof b,f[r.below(9)],(unsigned long long)v); d=b;
    if(r.chance(1,3)) d="-"+d; else if(r.chance(1,10)) d="+"+d;
    return d;
}
inline std::string flttext(Rng& r) {
    char b[80]; std::string d; double x = double(r.next()>>r.below(64)) / double(1+(r.chance(1,2)?0:r.below(1000)));
    switch(r.below(9)) {
    case 0: snprintf(b,sizeof b,"%.17g",x); d=b; break;
    case 1: snprintf(b,sizeof b,"%.*e",int(r.below(8)),x*std::pow(10.0,r.range(-45,45))); d=b; break;
    case 2: snprintf(b,sizeof b,"%.*f",int(r.below(7)),x); d=b; break;
    case 3: snprintf(b,sizeof b,"%lu.%lue%ld",(unsigned long)r.below(100),(unsigned long)r.below(100),r.range(-40,40)); d=b; break;
    case 4: snprintf(b,sizeof b,".%luE%+ld",(unsigned long)r.below(1000),r.range(-5,39)); d=b; break;
    case 5: snprintf(b,sizeof b,"%lu.",(unsigned long)r.below(1000)); d=b; break;
    case 6: { static const char* w[]={"inf","Infinity","INF","nan","NaN","1e400","1e39","3.5e38","1e-330","2e308","1e4000","0e999","0.0","3.4028234663852886e38","1.7976931348623157e308"}; d=w[r.below(15)]; break; }
    default: d=numtext(r); }
    if(r.chance(1,4) && d[0]!='-') d="-"+d;
    return d;
}
inline std::string junk(Rng& r, std::string d) {
    static const std::string ws(" \t\n\v\f\r"); static const std::string odd("0189xXeE+-.,afg \t_:\"");
    if(r.chance(1,3)) { for(size_t i=0,n=r.below(3);i<n;i++) d=ws[r.below(6)]+d; for(size_t i=0,n=r.below(3);i<n;i++) d+=ws[r.below(6)]; }
    if(r.chance(1,4)) { size_t i=r.below(d.size()+1); switch(r.below(3)) { case 0: d.insert(i,1,odd[r.below(odd.size())]); break; case 1: if(!d.empty()) d.erase(i<d.size()?i:0,1); break; default: if(i<d.size()) d[i]=odd[r.below(odd.size())]; } }
    if(r.chance(1,40)) d=""; if(r.chance(1,60)) d=" ";
    return d;
}
inline std::string booltext(Rng& r) { std::string d(r.chance(1,2)?"true":"false"); for(char& ch: d) if(r.chance(1,3)) ch=char(toupper(ch)); if(r.chance(1,6)) d=junk(r,d); if(r.chance(1,10)) d=r.chance(1,2)?"1":"0"; return d; }
inline std::string anytext(Rng& r, ScalarType to) { if(r.chance(1,12)) return gstring(r); return to==pvBoolean?booltext(r):junk(r,(to==pvFloat||to==pvDouble)&&r.chance(3,4)?flttext(r):r.chance(1,12)?flttext(r):numtext(r)); }
// numbers; floating point ones which are to become integers of type "to" are in its range
template<class T> struct ConvNum { static T gen(Rng& r, ScalarType) { T v=T(r.next()>>r.below(64));
    switch(r.below(5)) { case 0: v=T(r.range(-3,3)); break; case 1: v=std::numeric_limits<T>::max(); v=T(v-T(r.below(2))); break; case 2: v=std::numeric_limits<T>::min(); break;
    case 3: { v=T((uint64_t(1)<<r.below(64))+r.range(-1,1)); if(r.chance(1,2)) v=T(0-v); break; } default: break; } return v; } };
template<class T> T fltgen(Rng& r, ScalarType to) {
    double lim=0, lo=0; switch(to) { case pvByte: lim=127; lo=-128; break; case pvUByte: lim=255; break; case pvShort: lim=32767; lo=-32768; break; case pvUShort: lim=65535; break; case pvInt: lim=2147483647.0; lo=-2147483648.0; break; case pvUInt: lim=4294967295.0; break; case pvLong: lim=9223372036854774784.0; lo=-9223372036854775808.0; break; case pvULong: lim=18446744073709549568.0; break; default: break; }
    double x;
    if(lim) { if(sizeof(T)==4 && lim>2147483000.0) lim=lim>1e19?18446742974197923840.0:lim>1e18?9223371487098961920.0:lim>3e9?4294967040.0:2147483520.0;
        switch(r.below(4)) { case 0: x=double(r.range(-3,3))+double(r.below(4))/4; break; case 1: x=lim-double(r.below(2)); break; case 2: x=lo; break; default: x=double(r.next()>>r.below(64))/double(1+r.below(100)); if(lo<0 && r.chance(1,2)) x=-x; }
        if(x>lim) x=lim; if(x<lo) x=lo; if(T(x)>T(lim)) x=0; return T(x); }
    switch(r.below(8)) { case 0: x=double(r.range(-1000,1000))/8; break; case 1: x=std::numeric_limits<double>::infinity(); break; case 2: x=std::numeric_limits<double>::quiet_NaN(); break;
    case 3: x=0.0; break; case 4: x=double(r.next()>>r.below(64))*std::pow(10.0,r.range(-60,50)); break; case 5: { uint64_t b=(r.next()); b=(b&0x800fffffffffffffull)|(uint64_t(1023-150+r.below(300))<<52); memcpy(&x,&b,8); break; }
    case 6: { static const double w[]={3.4028234663852886e38,3.4028235677973366e38,1.1754943508222875e-38,1.1754942106924411e-38,1e-40,1e39,999999.5,999999.4999,0.1,1e-5,123456.5,1.7976931348623157e308,4.9e-324,2.2250738585072014e-308}; x=w[r.below(14)]; break; }
    default: x=double(r.next()>>r.below(64)); }
    if(r.chance(1,3)) x=-x; return T(x); }
template<> struct ConvNum<float> { static float gen(Rng& r, ScalarType to) { return fltgen<float>(r,to); } };
template<> struct ConvNum<double> { static double gen(Rng& r, ScalarType to) { return fltgen<double>(r,to); } };
template<> struct ConvNum<boolean> { static boolean gen(Rng& r, ScalarType) { return boolean(r.chance(1,2)); } };
template<> struct ConvNum<std::string> { static std::string gen(Rng& r, ScalarType to) { return anytext(r,to); } };
}
#endif
