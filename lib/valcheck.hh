// helpers shared by the value-level checks
#ifndef VALCHECK_HH
#define VALCHECK_HH
#include "gen.hh"
#include <typelib/value_ops.hh>
using namespace gen; using namespace pbt;
namespace T = Typelib;
typedef std::vector<uint8_t> Bytes;
inline void caseInfo(Ctx& c, MT const& t, MVal const& v)
{
    NOTE(c, "type " << str(t) << "\nvalue " << str(*t, v) << "\n");
    if (t->hasContainer()) c.label("has container");
    if (t->k == ARRAY) c.label("top array");
    if (trailingPadding(*t)) c.label("trailing padding");
    if (leafCount(*t, v) >= 3) c.nontrivial();
}
struct Feed : T::InputStream {
    Bytes const& b; size_t pos; Feed(Bytes const& b) : b(b), pos(0) {}
    void read(uint8_t* d, size_t n) { if (b.size() - pos < n) throw std::runtime_error("feed exhausted"); if (n) memcpy(d, b.data() + pos, n); pos += n; }
};
/** the containers inside of a value: model type, model value, storage */
struct Cont { MType const* t; MVal* v; uint8_t* p; };
inline void containers(MType const& t, MVal& v, uint8_t* p, std::vector<Cont>& out, bool nested = true)
{
    switch (t.k)
    {
        case ARRAY: for (size_t i = 0; i < t.dim; ++i) containers(*t.elem, v.kids[i], p + i * t.elem->size, out, nested); break;
        case COMPOUND: for (size_t i = 0; i < t.fields.size(); ++i) containers(*t.fields[i].type, v.kids[i], p + t.fields[i].off, out, nested); break;
        case VECTOR: {
            Cont k = {&t, &v, p}; out.push_back(k);
            Bytes* b = (Bytes*)p;
            if (nested && b->size() == v.kids.size() * t.elem->size)
                for (size_t i = 0; i < v.kids.size(); ++i) containers(*t.elem, v.kids[i], b->data() + i * t.elem->size, out, nested);
            break;
        }
        case STRING: { Cont k = {&t, &v, p}; out.push_back(k); break; }
        default: break;
    }
}
inline MT findByName(Universe const& u, std::string const& n) { auto it = u.by_name.find(n); return it == u.by_name.end() ? MT() : it->second; }
#endif
