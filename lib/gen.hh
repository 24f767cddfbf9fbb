// Model of types and values, independent of typelib's own machinery.
#ifndef GEN_HH
#define GEN_HH
#include "pbt.hh"
#include <memory>
#include <map>
#include <string>
#include <vector>
#include <cstring>
#include <typelib/typemodel.hh>
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/value.hh>

namespace gen {
using pbt::Ctx;

struct MType;
typedef std::shared_ptr<MType> MT;
enum Kind { SINT, UINT, FLOAT, ENUM, ARRAY, COMPOUND, POINTER, OPAQUE, VECTOR, STRING, NIL };
struct MField { std::string name; MT type; size_t off; };
struct MType {
    Kind k;
    std::string name;
    size_t size, align;
    std::vector<std::pair<std::string, int>> syms;
    MT elem; size_t dim;
    std::vector<MField> fields;
    MType() : k(SINT), size(0), align(1), dim(0) {}
    bool isNumeric() const { return k == SINT || k == UINT || k == FLOAT; }
    bool isLeaf() const { return isNumeric() || k == ENUM || k == POINTER || k == OPAQUE; }
    bool hasContainer() const;   // anywhere by value
    bool hasPointer() const;     // anywhere by value or in containers
    bool hasOpaque() const;
    size_t end() const;          // end of the furthest field
};

struct Opts {
    bool pointers, opaques, containers, strings, enums, namespaces;
    bool gaps, packed, zero_dims, zero_nested, empty_compounds;
    bool templates;                // names with template arguments, numerics of any name and size, null types
    bool recursive;                // compounds holding pointers to themselves
    int max_depth;
    bool big;                      // now and then many fields, symbols or elements, long names
    Opts() : pointers(false), opaques(false), containers(true), strings(true), enums(true), namespaces(false),
        gaps(true), packed(true), zero_dims(false), zero_nested(false), empty_compounds(true), templates(false), recursive(false), max_depth(3), big(true) {}
};

struct Universe {
    Opts o;
    std::vector<MT> pool;          // every distinct type, dependencies first
    std::map<std::string, MT> by_name;
    int counter;
    std::vector<MT> open;          // compounds that are being made
    std::function<std::string(Ctx&, char const*, int)> namer;   // names of its own
    Universe(Opts const& o = Opts()) : o(o), counter(0) {}
    MT intern(MT t);               // by name
    MT numeric(Ctx& c);
    MT numeric(Kind k, size_t size);
    MT enumType(Ctx& c);
    MT array(MT of, size_t dim);
    MT pointer(MT of);
    MT vectorType(MT of);
    MT stringType();
    MT opaque(Ctx& c);
    MT compound(Ctx& c, int depth);
    MT any(Ctx& c, int depth);
    MT large(Ctx& c);
    MT top(Ctx& c);                // an interesting type
    std::string freshName(Ctx& c, char const* prefix);
};
std::string str(MType const& t, bool deep = true);
inline std::string str(MT const& t) { return str(*t); }

/** Instantiates model types in a registry through its public API */
struct Inst {
    Typelib::Registry& r;
    std::map<std::string, Typelib::Type const*> done;
    Inst(Typelib::Registry& r) : r(r) {}
    Typelib::Type const& operator()(MT const& t);
};
void registerContainers();   // makes the vector and string plugins known
extern std::string g_build_dir;

struct MVal {
    uint64_t bits;
    std::vector<MVal> kids;
    std::string bytes;
    MVal() : bits(0) {}
    bool operator==(MVal const& o) const { return bits == o.bits && bytes == o.bytes && kids == o.kids; }
    bool operator!=(MVal const& o) const { return !(*this == o); }
};
struct Budget { int left; int big; Budget(int n = 300) : left(n), big(n >= 300 ? 30000 : 0) {} };   // big: bytes that large containers may still take
MVal value(Ctx& c, MType const& t, Budget& b, int depth = 0);
inline MVal value(Ctx& c, MT const& t) { Budget b; return value(c, *t, b); }
MVal zeroValue(MType const& t);   // all zero and empty
std::string str(MType const& t, MVal const& v);
/** paths to each mutable spot: leaves, container lengths */
bool mutateOne(Ctx& c, MType const& t, MVal& v);   // false if there is nothing to change
size_t leafCount(MType const& t, MVal const& v);

// native memory: written without using typelib
struct Pad { uint32_t s; Pad(uint32_t s) : s(s) {} uint8_t next(); };
void materialise(MType const& t, MVal const& v, uint8_t* p, Pad& pad);   // raw memory
size_t storage(MType const& t, uint8_t const* p);   // bytes held by the containers
MVal readback(MType const& t, uint8_t const* p);
void destroyNative(MType const& t, uint8_t* p);
void initNative(MType const& t, uint8_t* p, Pad& pad);

/** exactly sized buffer holding a value; destroyed natively */
struct Native {
    MT t; uint8_t* p; bool live;
    Native(MT t, MVal const& v, uint32_t pad = 0xA5) : t(t), p(new uint8_t[t->size]), live(true) { Pad pd(pad); materialise(*t, v, p, pd); }
    explicit Native(MT t) : t(t), p(new uint8_t[t->size]), live(false) { memset(p, 0xCD, t->size); }
    ~Native() { if (live) destroyNative(*t, p); delete[] p; }
    MVal get() const { return readback(*t, p); }
    Typelib::Value v(Typelib::Type const& type) { return Typelib::Value(p, type); }
private:
    Native(Native const&); Native& operator=(Native const&);
};

/** bytes with a mask: mask[i] != 0 where the byte is specified */
struct Enc { std::vector<uint8_t> bytes; std::vector<uint8_t> mask; std::vector<std::pair<size_t, size_t> > counts; };   // counts: position of each element count, element size
Enc encode(MType const& t, MVal const& v);          // reference marshalled form
bool matches(Enc const& e, std::vector<uint8_t> const& got, std::string& why);
/** per byte of the type: 1 data, 0 padding, 2 container */
void byteMap(MType const& t, std::vector<uint8_t>& out);
std::string hex(std::vector<uint8_t> const& b, size_t max = 96);
size_t trailingPadding(MType const& t);

// ---- type relations
/** structural identity: type names do not count, except of opaques */
bool sameModel(MType const& a, MType const& b);
/** a value of type a can be used as a b */
bool castModel(MType const& a, MType const& b);
/** copy of the graph of t, with one difference applied to one of its types;
 * what tells which ("none" when nothing could be applied). Names are kept, except for the
 * harmless "rename" edits */
MT derive(Ctx& c, MT const& t, std::string& what);
/** every type reachable, pointers and containers included, dependencies first as far as possible */
std::vector<MT> reachable(MT const& t);
/** compares the model with an actual type, through the public API; true if they match */
bool describes(MType const& t, Typelib::Type const& type, std::string& why);
}
#endif
