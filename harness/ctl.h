// Transport stand-ins honouring the SerializableControl/DeserializableControl
// contract: a bounded buffer, cut at seeded random places, optional direct transfer.
#ifndef CTL_H
#define CTL_H
#include "vh.h"
#include <pv/byteBuffer.h>
#include <pv/serialize.h>
#include <pv/pvIntrospect.h>
namespace vh {
using namespace epics::pvData;
struct OutCtl : public SerializableControl {
    std::vector<char> mem; ByteBuffer buf; std::string out; Rng& r; bool direct; bool cut; size_t ndirect, nflush;
    OutCtl(Rng& r, size_t cap, int bo, bool direct=false, bool cut=true)
        :mem(cap),buf(&mem[0],cap,bo),r(r),direct(direct),cut(cut),ndirect(0),nflush(0) { memset(&mem[0],0xA5,cap); }
    void drain(size_t need) {
        out.append(buf.getBuffer(), buf.getPosition()); nflush++;
        buf.clear(); memset(&mem[0],0xA5,mem.size());
        if(cut && r.chance(1,2)) { size_t lo=need<1?1:need; if(lo<mem.size()) buf.setLimit(lo+r.below(mem.size()-lo+1)); }
    }
    void flushSerializeBuffer() { drain(1); }
    void ensureBuffer(std::size_t n) {
        if(buf.getRemaining()>=n) return;
        if(n>mem.size()) throw std::length_error("ensureBuffer beyond buffer size");
        drain(n);
    }
    bool directSerialize(ByteBuffer* b, const char* p, std::size_t n, std::size_t sz) {
        if(!direct) return false;
        ndirect++; drain(1); out.append(p,n*sz); return true;
    }
    void cachedSerialize(std::tr1::shared_ptr<const Field> const & f, ByteBuffer* b) { f->serialize(b,this); }
    std::string finish() { drain(1); return out; }
};
struct InCtl : public DeserializableControl {
    std::vector<char> mem; ByteBuffer buf; std::string data; size_t fed; Rng& r; bool direct; size_t ndirect; FieldCreatePtr create;
    InCtl(Rng& r, const std::string& d, size_t cap, int bo, bool direct=false)
        :mem(cap),buf(&mem[0],cap,bo),data(d),fed(0),r(r),direct(direct),ndirect(0),create(getFieldCreate()) { buf.setLimit(0); }
    void ensureData(std::size_t n) {
        size_t rem=buf.getRemaining();
        if(rem>=n) return;
        if(n>mem.size()) throw std::length_error("ensureData beyond buffer size");
        if(data.size()-fed < n-rem) throw std::runtime_error("connection lost");
        memmove(&mem[0], buf.getBuffer()+buf.getPosition(), rem);
        size_t most=std::min(mem.size()-rem, data.size()-fed), least=n-rem;
        size_t k=r.chance(1,3)?least: r.chance(1,2)?most: least+r.below(most-least+1);
        memcpy(&mem[rem], data.data()+fed, k); fed+=k;
        memset(&mem[0]+rem+k, 0xA5, mem.size()-rem-k);
        buf.clear(); buf.setLimit(rem+k);
    }
    bool directDeserialize(ByteBuffer* b, char* to, std::size_t n, std::size_t sz) {
        if(!direct) return false;
        size_t need=n*sz, rem=buf.getRemaining(), k=std::min(need,rem);
        if(need-k > data.size()-fed) throw std::runtime_error("connection lost");
        ndirect++;
        memcpy(to, buf.getBuffer()+buf.getPosition(), k); buf.setPosition(buf.getPosition()+k);
        memcpy(to+k, data.data()+fed, need-k); fed+=need-k; return true;
    }
    std::tr1::shared_ptr<const Field> cachedDeserialize(ByteBuffer* b) { return create->deserialize(b,this); }
    size_t used() { return fed-buf.getRemaining(); }
};
static const int BO[2]={EPICS_ENDIAN_BIG, EPICS_ENDIAN_LITTLE};
inline const char* boName(int b) { return b==EPICS_ENDIAN_BIG?"B":"L"; }
}
#endif
