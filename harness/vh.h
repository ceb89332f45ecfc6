// Common support for the conformance drivers: ndjson event log, seeded RNG,
// command line.  Every driver executes operations on the real library and
// logs, per operation, its arguments and the full observable result.
#ifndef VH_H
#define VH_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <stdexcept>
#include <functional>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { s=next()^0x1234567ull; s=next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z>>30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z>>27)) * 0x94D049BB133111EBull;
        return z ^ (z>>31);
    }
    // uniform in [0,n)
    size_t below(size_t n) { return n ? size_t(next() % n) : 0; }
    long range(long lo, long hi) { return lo + long(below(size_t(hi-lo+1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template<class C> const typename C::value_type& pick(const C& c) { return c[below(c.size())]; }
};

inline std::string jstr(const std::string& s) {
    std::string o("\"");
    char b[8];
    for(size_t i=0;i<s.size();i++) {
        unsigned char c=s[i];
        if(c=='"'||c=='\\') { o+='\\'; o+=char(c); }
        else if(c<0x20 || c>=0x7f) { snprintf(b,sizeof b,"\\u%04x",c); o+=b; }
        else o+=char(c);
    }
    return o+"\"";
}
// raw JSON text
struct Raw { std::string t; Raw(){} explicit Raw(const std::string& s):t(s){} };
inline Raw jv(const Raw& r) { return r; }
inline Raw jv(bool b) { return Raw(b?"true":"false"); }
inline Raw jv(int v) { return Raw(std::to_string(v)); }
inline Raw jv(long v) { return Raw(std::to_string(v)); }
inline Raw jv(long long v) { return Raw(std::to_string(v)); }
inline Raw jv(unsigned v) { return Raw(std::to_string(v)); }
inline Raw jv(unsigned long v) { return Raw(std::to_string(v)); }
inline Raw jv(const std::string& s) { return Raw(jstr(s)); }
inline Raw jv(const char* s) { return Raw(jstr(s)); }
template<class T> Raw jv(const std::vector<T>& v) {
    std::string o("[");
    for(size_t i=0;i<v.size();i++) { if(i) o+=','; o+=jv(T(v[i])).t; }
    return Raw(o+"]");
}
template<class T> Raw jv(const std::set<T>& v) { return jv(std::vector<T>(v.begin(), v.end())); }
// bytes of a string as a sequence of 0..255
inline Raw jbytes(const std::string& s) {
    std::string o("[");
    for(size_t i=0;i<s.size();i++) { if(i) o+=','; o+=std::to_string((unsigned)(unsigned char)s[i]); }
    return Raw(o+"]");
}
struct Obj {
    std::string t; bool first;
    Obj():t("{"),first(true){}
    template<class T> Obj& operator()(const char* k, const T& v) {
        if(!first) t+=','; first=false;
        t+=jstr(k); t+=':'; t+=jv(v).t; return *this;
    }
    Raw done() const { return Raw(t+"}"); }
};
inline Raw jv(const Obj& o) { return o.done(); }

struct Ctx {
    uint64_t seed; bool thorough; double scale; FILE* out; std::string mode, script;
    size_t lines, mark;
    Rng rng;
    Ctx():seed(1),thorough(false),scale(1),out(0),lines(0),mark(0),rng(1){}
    void log(const Obj& o) { std::string s(o.done().t); s+='\n'; fwrite(s.data(),1,s.size(),out); fflush(out); lines++; }
    // begin of an independent scenario
    void start(const Obj& o = Obj()) { Obj x(o); x("op","Start"); log(x); }
    // for independent events: a fresh scenario every k lines
    void every(size_t k) { if(lines-mark>=k || !mark) { start(); mark=lines; } }
    size_t n(size_t quick, size_t deep) const { return thorough?deep:size_t(double(quick)*scale); }
};

// scripts: one per line, operations "op k=v k=v" separated by ';'
struct SOp { std::string op; std::map<std::string,std::string> a;
    long num(const char* k, long d=0) const { auto i=a.find(k); return i==a.end()?d:atol(i->second.c_str()); }
    std::string str(const char* k) const { auto i=a.find(k); return i==a.end()?std::string():i->second; }
    bool has(const char* k) const { return a.count(k)!=0; } };
std::vector<std::vector<SOp> > read_scripts(const std::string& path);

int vmain(int argc, char** argv, void(*fn)(Ctx&));

} // namespace vh
#define VH_MAIN(fn) int main(int argc,char**argv){ return vh::vmain(argc,argv,fn); }
#endif
