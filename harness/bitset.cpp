// C01: histories of operations on three real BitSets.
#include "vh.h"
#include <pv/bitSet.h>
using namespace epics::pvData; using namespace vh;
static const unsigned MAXI=330;
struct W { BitSet b[3]; };
static Raw obs(const BitSet& b, Rng& r) {
    std::vector<int> g, sc; for(unsigned i=0;i<MAXI;i++) if(b.get(i)) g.push_back(i);
    for(int i=b.nextSetBit(0); i>=0; i=b.nextSetBit(i+1)) { sc.push_back(i); if(sc.size()>2*MAXI) break; }
    std::vector<std::vector<int> > nx, cl;
    unsigned probes[]={0,63,64,127,128,(unsigned)r.below(MAXI),(unsigned)r.below(MAXI)};
    for(unsigned f: probes) { nx.push_back({(int)f,b.nextSetBit(f)}); cl.push_back({(int)f,b.nextClearBit(f)}); }
    std::ostringstream s; s<<b;
    return Obj()("get",g)("scan",sc)("card",b.cardinality())("empty",b.isEmpty())("size",b.size())("nxt",nx)("clr",cl)("txt",s.str()).done();
}
static void addobs(Obj& o, W& w, Rng& r) {
    std::vector<Raw> v; for(int i=0;i<3;i++) v.push_back(obs(w.b[i],r));
    o("obs",v);
    std::vector<std::vector<bool> > eq(3),ne(3),la(3),lo(3);
    for(int i=0;i<3;i++) for(int j=0;j<3;j++) {
        eq[i].push_back(w.b[i]==w.b[j]); ne[i].push_back(w.b[i]!=w.b[j]);
        la[i].push_back(w.b[i].logical_and(w.b[j])); lo[i].push_back(w.b[i].logical_or(w.b[j]));
    }
    o("rel",Obj()("eq",eq)("ne",ne)("land",la)("lor",lo).done());
}
static const unsigned hot[]={0,1,2,7,8,31,32,33,62,63,64,65,95,96,100,126,127,128,129,191,192,193,255,256,257,300};
static unsigned idx(Rng& r) { return r.chance(3,4)? hot[r.below(sizeof(hot)/sizeof(hot[0]))] : r.below(320); }
static void apply(W& w, Obj& o, const std::string& op, int s,int t,int u,unsigned i,bool v, const std::vector<unsigned>& l) {
    BitSet &S=w.b[s-1], &T=w.b[t-1], &U=w.b[u-1];
    o("op",op)("s",s);
    if(op=="set") { S.set(i); o("i",i); }
    else if(op=="clear") { S.clear(i); o("i",i); }
    else if(op=="flip") { S.flip(i); o("i",i); }
    else if(op=="setv") { S.set(i,v); o("i",i)("v",v); }
    else if(op=="clearall") S.clear();
    else if(op=="and") { S&=T; o("t",t); }
    else if(op=="or") { S|=T; o("t",t); }
    else if(op=="xor") { S^=T; o("t",t); }
    else if(op=="assign") { S=T; o("t",t); }
    else if(op=="copy") { BitSet x(T); S.swap(x); o("t",t); }
    else if(op=="swap") { S.swap(T); o("t",t); }
    else if(op=="orand") { S.or_and(T,U); o("t",t)("u",u); }
    else if(op=="new") { BitSet x((uint32)i); S.swap(x); }
    else if(op=="init") {
        BitSet::shared_pointer x;
        if(l.size()==0) x.reset(new BitSet({})); else if(l.size()==1) x.reset(new BitSet({l[0]}));
        else if(l.size()==2) x.reset(new BitSet({l[0],l[1]})); else x.reset(new BitSet({l[0],l[1],l[2]}));
        S=*x; o("l",std::vector<int>(l.begin(),l.end()));
    }
}
static void random_mode(Ctx& c) {
    static const std::vector<std::string> ops={"set","set","set","set","clear","clear","flip","setv","setv","clearall","and","and","or","or","xor","xor","assign","copy","swap","orand","orand","init","new"};
    size_t n=c.n(400,6000);
    for(size_t k=0;k<n;k++) {
        W w; c.start();
        size_t len=4+c.rng.below(24);
        // some histories live on few indices so that operands coincide often
        bool small=c.rng.chance(1,2); unsigned base[4]; for(auto&x:base) x=idx(c.rng);
        for(size_t j=0;j<len;j++) {
            std::string op=c.rng.pick(ops);
            unsigned i=small?base[c.rng.below(4)]:idx(c.rng);
            std::vector<unsigned> l; for(size_t q=c.rng.below(4);q;q--) l.push_back(idx(c.rng));
            Obj o; apply(w,o,op,1+c.rng.below(3),1+c.rng.below(3),1+c.rng.below(3),i,c.rng.chance(1,2),l);
            addobs(o,w,c.rng); c.log(o);
        }
    }
}
// scripts from the TLC state graph; model index k is mapped onto real indices
static void script_mode(Ctx& c) {
    static const unsigned maps[3][4]={{0,63,64,127},{62,63,128,191},{5,6,64,65}};
    size_t k=0;
    for(auto& sc: read_scripts(c.script)) {
        const unsigned* mp=maps[(k+c.seed)%3]; k++;
        W w; c.start();
        for(size_t j=0;j<sc.size();j++) {
            const SOp& x=sc[j];
            Obj o; apply(w,o,x.op,x.num("s",1),x.num("t",1),x.num("u",1),mp[x.num("i",0)],false,{});
            if(j+1==sc.size()) addobs(o,w,c.rng);
            c.log(o);
        }
    }
}
static void drive(Ctx& c) { if(c.mode=="script") script_mode(c); else random_mode(c); }
VH_MAIN(drive)
