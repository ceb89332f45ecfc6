// Types and values of pvData as JSON (the representation of spec/PVTypes.tla),
// and seeded generators of types and contents.
#ifndef PVH_H
#define PVH_H
#include "vh.h"
#include <pv/pvIntrospect.h>
#include <pv/pvData.h>
#include <pv/bitSet.h>
namespace vh {
using namespace epics::pvData;
Raw jtype(const FieldConstPtr& f);          // {"k":..}
Raw jval(const PVField* f);                 // value
inline Raw jval(const PVFieldPtr& f) { return jval(f.get()); }
std::string stype(ScalarType t);            // "boolean".."string"
// raw bits, big endian
template<class T> std::string bebytes(T v) { char b[sizeof(T)]; memcpy(b,&v,sizeof(T)); std::string s(b,sizeof(T));
    if(EPICS_BYTE_ORDER==EPICS_ENDIAN_LITTLE) std::reverse(s.begin(),s.end()); return s; }
template<class T> T frombe(std::string s) { if(EPICS_BYTE_ORDER==EPICS_ENDIAN_LITTLE) std::reverse(s.begin(),s.end()); T v; memcpy(&v,s.data(),sizeof(T)); return v; }
template<class T> Raw jscalar(const T& v) { return jbytes(bebytes(v)); }
template<> inline Raw jscalar<std::string>(const std::string& v) { return jbytes(v); }
Raw jvec(const PVScalarArray* a);

struct GenOpt {
    int depth; int maxf; bool any, unions, arrays, sarrays, bounds, ids, nan; std::vector<std::string> names;
    GenOpt():depth(3),maxf(4),any(true),unions(true),arrays(true),sarrays(true),bounds(true),ids(true),nan(false),names({"a","b","c","value","x1","n_2","Zed"}){}
};
FieldConstPtr gtype(Rng& r, const GenOpt& o, int depth);      // any field type
StructureConstPtr gstruct(Rng& r, const GenOpt& o, int depth, int minf=0);
UnionConstPtr gunion(Rng& r, const GenOpt& o, int depth);
// fill with random contents through the public interface
void gfill(Rng& r, PVField* f, const GenOpt& o, int depth=0);
std::string gstring(Rng& r, size_t maxlen=0);
template<class T> T gscalar(Rng& r, bool nan=false);
// all fields of the tree in offset order
void walk(PVField* f, std::vector<PVField*>& out);
std::vector<int> members(const BitSet& b);
BitSet gmask(Rng& r, size_t nfields);
// a type differing (usually) in one place; a value changed (usually) in one place
FieldConstPtr tmut(Rng& r, const FieldConstPtr& f, const GenOpt& o);
void vmut(Rng& r, PVField* f, const GenOpt& o);
PVFieldPtr deepcopy(const PVField* f);       // independent of the library's own copy
PVFieldPtr mkpv(const FieldConstPtr& f);
template<class F> std::string exname(F f) { try { f(); return ""; } catch(std::exception& e) { return typeid(e).name(); } }
#define ALLSCALARS(X) X(boolean,pvBoolean) X(int8,pvByte) X(int16,pvShort) X(int32,pvInt) X(int64,pvLong) X(uint8,pvUByte) X(uint16,pvUShort) X(uint32,pvUInt) X(uint64,pvULong) X(float,pvFloat) X(double,pvDouble) X(std::string,pvString)
#define NUMSCALARS(X) X(boolean,pvBoolean) X(int8,pvByte) X(int16,pvShort) X(int32,pvInt) X(int64,pvLong) X(uint8,pvUByte) X(uint16,pvUShort) X(uint32,pvUInt) X(uint64,pvULong) X(float,pvFloat) X(double,pvDouble)
}
#endif
