// Values whose pointers point to real values, and the leaves reached through them.
#ifndef PTRS_HH
#define PTRS_HH
#include "valcheck.hh"
#include <memory>
struct Pointees {
    Ctx& c; int budget; bool nulls; // leaves some pointers null
    std::vector<std::unique_ptr<Native> > all;
    std::map<std::string, uint8_t*> by_type;
    Pointees(Ctx& c, int budget = 200, bool nulls = false) : c(c), budget(budget), nulls(nulls) {}
    /** makes every pointer of the value at p point to a value */
    void fill(MType const& t, uint8_t* p)
    {
        switch (t.k)
        {
            case ARRAY: for (size_t i = 0; i < t.dim; ++i) fill(*t.elem, p + i * t.elem->size); break;
            case COMPOUND: for (auto const& f : t.fields) fill(*f.type, p + f.off); break;
            case VECTOR: {
                Bytes* b = (Bytes*)p;
                if (t.elem->size) for (size_t i = 0; i + t.elem->size <= b->size(); i += t.elem->size) fill(*t.elem, b->data() + i);
                break;
            }
            case POINTER: {
                if (nulls && c.flip(1, 4)) { memset(p, 0, sizeof(void*)); c.label("null pointer"); break; }
                auto it = by_type.find(t.elem->name); uint8_t* to;
                if (it != by_type.end() && (all.size() > 40 || c.flip(1, 4))) to = it->second;
                else
                {
                    Budget b(20);
                    all.emplace_back(new Native(t.elem, value(c, *t.elem, b, 3), c.draw(3)));
                    to = all.back()->p;
                    by_type[t.elem->name] = to;
                    fill(*t.elem, to);
                }
                memcpy(p, &to, sizeof(to));
                break;
            }
            default: break;
        }
    }
};
/** p is null for the leaves behind null pointers */
struct Leaf { MType const* t; uint8_t* p; std::string path; };
/** the leaves of a value that is not there */
inline void missing(MType const& t, std::string const& path, std::vector<Leaf>& out)
{
    if (out.size() > 20000) return;
    switch (t.k)
    {
        case ARRAY: for (size_t i = 0; i < t.dim; ++i) missing(*t.elem, path + "[" + std::to_string(i) + "]", out); break;
        case COMPOUND: for (auto const& f : t.fields) missing(*f.type, path + "." + f.name, out); break;
        case POINTER: missing(*t.elem, "*(" + path + ")", out); break;
        default: { Leaf l = {&t, 0, path}; out.push_back(l); }
    }
}
/** in visiting order; chars of strings are leaves of type elem */
inline void leaves(MType const& t, uint8_t* p, std::string const& path, std::vector<Leaf>& out)
{
    if (out.size() > 20000) return;
    switch (t.k)
    {
        case ARRAY: for (size_t i = 0; i < t.dim; ++i) leaves(*t.elem, p + i * t.elem->size, path + "[" + std::to_string(i) + "]", out); break;
        case COMPOUND: for (auto const& f : t.fields) leaves(*f.type, p + f.off, path + "." + f.name, out); break;
        case VECTOR: {
            Bytes* b = (Bytes*)p;
            if (t.elem->size) for (size_t i = 0; i + t.elem->size <= b->size(); i += t.elem->size) leaves(*t.elem, b->data() + i, path, out);
            break;
        }
        case STRING: {
            std::string* s = (std::string*)p;
            for (size_t i = 0; i < s->size(); ++i) leaves(*t.elem, (uint8_t*)&(*s)[i], path, out);
            break;
        }
        case POINTER: { uint8_t* to; memcpy(&to, p, sizeof(to)); if (!to) { missing(*t.elem, "*(" + path + ")", out); break; } leaves(*t.elem, to, "*(" + path + ")", out); break; }
        default: { Leaf l = {&t, p, path}; out.push_back(l); }
    }
}
template<typename N> N rd(uint8_t const* p) { N v; memcpy(&v, p, sizeof(v)); return v; }
inline int64_t asInt(MType const& t, uint8_t const* p)
{
    switch (t.size)
    {
        case 1: return t.k == SINT ? (int64_t)rd<int8_t>(p) : rd<uint8_t>(p);
        case 2: return t.k == SINT ? (int64_t)rd<int16_t>(p) : rd<uint16_t>(p);
        case 4: return t.k == UINT ? (int64_t)rd<uint32_t>(p) : rd<int32_t>(p);
        default: return rd<int64_t>(p);
    }
}
inline std::string intText(MType const& t, uint8_t const* p)
{
    int64_t v = asInt(t, p);
    return t.k == UINT && t.size == 8 ? std::to_string((uint64_t)v) : std::to_string(v);
}
#endif
