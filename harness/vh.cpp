#include "vh.h"
#include <unistd.h>
#include <exception>
// an assertion ends the driver at once (libCom's would suspend the thread)
extern "C" void epicsAssert(const char* file, const unsigned line, const char* cond, const char*)
{
    fprintf(stderr,"A call to assert(%s) in %s line %u\n",cond,file,line); abort();
}
namespace vh {
std::vector<std::vector<SOp> > read_scripts(const std::string& path)
{
    std::vector<std::vector<SOp> > out; std::ifstream f(path); std::string ln;
    if(!f) { fprintf(stderr,"no script %s\n",path.c_str()); _exit(2); }
    while(std::getline(f,ln)) {
        std::vector<SOp> s; std::istringstream a(ln); std::string o;
        while(std::getline(a,o,';')) {
            SOp x; std::istringstream b(o); std::string w; b>>x.op;
            while(b>>w) { size_t e=w.find('='); if(e!=std::string::npos) x.a[w.substr(0,e)]=w.substr(e+1); }
            s.push_back(x);
        }
        out.push_back(s);
    }
    return out;
}
int vmain(int argc, char** argv, void(*fn)(Ctx&))
{
    Ctx c; std::string outf;
    for(int i=1;i+1<argc;i+=2) {
        std::string a(argv[i]), v(argv[i+1]);
        if(a=="--seed") c.seed=strtoull(v.c_str(),0,10);
        else if(a=="--tier") c.thorough=(v=="thorough");
        else if(a=="--scale") c.scale=atof(v.c_str());
        else if(a=="--out") outf=v;
        else if(a=="--mode") c.mode=v;
        else if(a=="--script") c.script=v;
        else { fprintf(stderr,"bad arg %s\n",a.c_str()); return 2; }
    }
    c.out=fopen(outf.c_str(),"w");
    if(!c.out) { perror(outf.c_str()); return 2; }
    c.rng=Rng(c.seed);
    // an exception escaping the driver is the library throwing where nothing may throw
    try { fn(c); } catch(std::exception& e) { fprintf(stderr,"driver: uncaught %s\n",e.what()); fclose(c.out); _exit(3); }
    fclose(c.out);
    fflush(stdout);
    _exit(0); // skip static destruction order issues
}
}
