#include "gen.hh"
#include <algorithm>
#include <cassert>
#include <set>
#include <typelib/pluginmanager.hh>
using namespace gen;
using namespace std;
namespace T = Typelib;

string gen::g_build_dir;

bool MType::hasContainer() const
{
    if (k == VECTOR || k == STRING) return true;
    if (k == ARRAY) return elem->hasContainer();
    for (auto const& f : fields) if (f.type->hasContainer()) return true;
    return false;
}
bool MType::hasPointer() const
{
    if (k == POINTER) return true;
    if (k == ARRAY || k == VECTOR) return elem->hasPointer();
    for (auto const& f : fields) if (f.type->hasPointer()) return true;
    return false;
}
bool MType::hasOpaque() const
{
    if (k == OPAQUE) return true;
    if (k == ARRAY || k == VECTOR) return elem->hasOpaque();
    for (auto const& f : fields) if (f.type->hasOpaque()) return true;
    return false;
}
size_t MType::end() const
{
    size_t e = 0;
    for (auto const& f : fields) e = max(e, f.off + f.type->size);
    return e;
}
MT Universe::intern(MT t)
{
    auto it = by_name.find(t->name);
    if (it != by_name.end()) return it->second;
    by_name[t->name] = t;
    pool.push_back(t);
    return t;
}
MT Universe::numeric(Kind k, size_t size)
{
    MT t(new MType); t->k = k; t->size = t->align = size;
    if (k == FLOAT) t->name = size == 4 ? "/float" : "/double";
    else t->name = string(k == UINT ? "/uint" : "/int") + to_string(size * 8) + "_t";
    return intern(t);
}
MT Universe::numeric(Ctx& c)
{
    if (o.templates && c.flip(1, 8))
    {
        MT t(new MType); t->k = (Kind)c.draw(3); t->align = 1; t->size = 1 + c.draw(17); t->name = freshName(c, "N");
        if (c.flip(1, 4)) { t->k = NIL; t->size = 0; }
        return intern(t);
    }
    switch (c.draw(10))
    {
        case 0: return numeric(SINT, 4);
        case 1: return numeric(SINT, 1);
        case 2: return numeric(UINT, 1);
        case 3: return numeric(UINT, 2);
        case 4: return numeric(SINT, 2);
        case 5: return numeric(UINT, 4);
        case 6: return numeric(SINT, 8);
        case 7: return numeric(UINT, 8);
        case 8: return numeric(FLOAT, 4);
        default: return numeric(FLOAT, 8);
    }
}
string Universe::freshName(Ctx& c, char const* prefix)
{
    string n = string(prefix) + to_string(++counter);
    if (namer) return namer(c, prefix, counter);
    if (c.flip()) n = (char)('A' + c.draw(26)) + n;      // name order and creation order differ
    if (o.big && c.flip(1, 60)) n += string(20 + c.draw(300), 'n');
    if (o.templates && c.flip(1, 4))
    {
        static char const* ns[] = {"/t</int32_t>/", "/ns/t</int32_t,-5>/", "/ns/p</a</b/c,/d>>/sub/", "/v<3>/"};
        switch (c.draw(4)) { case 0: return string("/") + n + "</int32_t>"; case 1: return string("/ns/") + n + "</a b,3>"; default: return ns[c.draw(4)] + n; }
    }
    if (!o.namespaces) return "/" + n;
    switch (c.draw(5))
    {
        case 0: case 1: return "/" + n;
        case 2: return "/ns/" + n;
        case 3: return "/ns/sub/" + n;
        default: return "/other/" + n;
    }
}
MT Universe::enumType(Ctx& c)
{
    MT t(new MType); t->k = ENUM; t->size = t->align = sizeof(int); t->name = freshName(c, "E");
    size_t n = 1 + c.draw(4);
    if (o.big && c.flip(1, 40)) n = 1 + c.draw(300);
    static char const* names[] = {"B", "A", "Zed", "m_x", "K9"};
    for (size_t i = 0; i < n; ++i)
    {
        int v;
        switch (n > 5 ? (int)(i % 3) : (int)c.draw(4))
        {
            case 0: v = (int)i; break;
            case 1: v = -(int)(i + 1); break;
            case 2: v = (int)(0x01020304u * (i + 1)); break;
            default: v = (int)c.draw(1000); break;
        }
        t->syms.push_back(make_pair(string(names[i % 5]) + (i < 5 ? string() : to_string(i / 5)), v));
    }
    return intern(t);
}
MT Universe::array(MT of, size_t dim)
{
    MT t(new MType); t->k = ARRAY; t->elem = of; t->dim = dim; t->size = of->size * dim; t->align = of->align;
    t->name = of->name + "[" + to_string(dim) + "]";
    return intern(t);
}
MT Universe::pointer(MT of)
{
    MT t(new MType); t->k = POINTER; t->elem = of; t->size = t->align = 8; t->name = of->name + "*";
    return intern(t);
}
MT Universe::vectorType(MT of)
{
    MT t(new MType); t->k = VECTOR; t->elem = of; t->size = sizeof(std::vector<uint8_t>); t->align = 8; t->name = "/std/vector<" + of->name + ">";
    return intern(t);
}
MT Universe::stringType()
{
    MT t(new MType); t->k = STRING; t->elem = numeric(SINT, 1); t->size = sizeof(std::string); t->align = 8; t->name = "/std/string";
    return intern(t);
}
MT Universe::opaque(Ctx& c)
{
    MT t(new MType); t->k = OPAQUE; t->size = 1 + c.draw(16); t->align = 1; t->name = freshName(c, "O");
    return intern(t);
}
static size_t up(size_t v, size_t a) { return (v + a - 1) / a * a; }
MT Universe::compound(Ctx& c, int depth)
{
    MT t(new MType); t->k = COMPOUND;
    size_t n = (o.empty_compounds && c.flip(1, 24)) ? 0 : 1 + c.draw(5);
    if (n && o.big && c.flip(1, 40)) { n = 6 + c.draw(40); depth = min(depth, 1); }
    int mode = c.weighted({6, o.gaps ? 2u : 0u, o.packed ? 2u : 0u});   // natural, gapped, packed
    int naming = n > 26 ? 2 + (int)c.draw(2) : (int)c.draw(4);   // in name order or not
    size_t cur = 0; size_t align = 1;
    t->name = freshName(c, "C");
    open.push_back(t);
    for (size_t i = 0; i < n; ++i)
    {
        MField f;
        if (o.recursive && o.pointers && c.flip(1, 8)) f.type = pointer(c.flip() ? t : open[c.draw(open.size())]);
        else f.type = any(c, depth - 1);
        switch (naming)
        {
            case 0: f.name = ::string(1, (char)('a' + i)); break;
            case 1: f.name = ::string(1, (char)('z' - i)); break;
            case 2: f.name = "f" + to_string(i); break;
            default: f.name = ::string(1, "xMakb"[i * 7 % 5]) + "_" + to_string(n - i); break;
        }
        size_t a = f.type->align;
        if (mode == 2) a = f.type->hasContainer() ? 8 : 1;
        align = max(align, a);
        f.off = up(cur, a);
        if (mode == 1 && c.flip(1, 2)) f.off += a * (1 + c.draw(3));
        cur = f.off + f.type->size;
        t->fields.push_back(f);
    }
    open.pop_back();
    t->align = align;
    t->size = up(cur, align);
    if (n == 0) t->size = 1 + c.draw(8);
    if (mode == 1 && c.flip(1, 2)) t->size += align * (1 + c.draw(3));
    if (t->size == 0) t->size = align;
    return intern(t);
}
MT Universe::any(Ctx& c, int depth)
{
    // reuse an existing type now and then
    if (!pool.empty() && c.flip(1, 6))
    {
        MT t = pool[c.draw(pool.size())];
        if (t->size <= 512 && t->k != NIL) return t;
    }
    size_t w = c.weighted({8, o.enums ? 2u : 0u, depth > 0 ? 4u : 0u, depth > 0 ? 5u : 0u,
        o.containers && depth > 0 ? 4u : 0u, o.strings ? 2u : 0u, o.pointers ? 2u : 0u, o.opaques ? 2u : 0u});
    switch (w)
    {
        case 1: return enumType(c);
        case 2: {
            MT e = any(c, depth - 1);
            if (e->size == 0 && !o.zero_nested) return e;
            size_t lim = max<size_t>(1, min<size_t>(600 / max<size_t>(e->size, 1), 8));
            size_t d = 1 + c.draw(lim);
            if (e->isLeaf() && c.flip(1, 10)) d += c.draw(40);
            if (o.big && e->isLeaf() && e->size <= 16 && c.flip(1, 30)) d = 1 + c.draw(700);
            if (o.zero_dims && c.flip(1, 8)) d = 0;
            return array(e, d);
        }
        case 3: return compound(c, depth);
        case 4: {
            MT e = any(c, depth - 1);
            if (e->k == COMPOUND && e->fields.empty()) return e;
            if (e->size == 0) return e;
            return vectorType(e);
        }
        case 5: return stringType();
        case 6: return pointer(any(c, depth - 1));
        case 7: return opaque(c);
        default: return numeric(c);
    }
}
// more than 64 kB of elements
MT Universe::large(Ctx& c)
{
    MT t(new MType); t->k = COMPOUND; t->name = freshName(c, "C"); size_t cur = 0, n = 1 + c.draw(3), at = c.draw(n);
    for (size_t i = 0; i < n; ++i)
    {
        MField f; f.name = "f" + to_string(i); f.type = any(c, 1);
        if (i == at)
        {
            if (f.type->size < 4 || f.type->size > 64) f.type = numeric(c.flip() ? SINT : FLOAT, 8);
            f.type = array(f.type, (66000 + c.draw(40000)) / f.type->size);
        }
        f.off = cur = up(cur, f.type->align); t->align = max(t->align, f.type->align); cur += f.type->size; t->fields.push_back(f);
    }
    t->size = up(cur, t->align);
    return intern(t);
}
MT Universe::top(Ctx& c)
{
    if (o.big && c.flip(1, 1500)) return large(c);
    switch (c.weighted({6, 2, 1}))
    {
        case 0: return compound(c, o.max_depth);
        case 1: {
            MT e = compound(c, o.max_depth - 1);
            if (o.containers && c.flip() && !e->fields.empty()) return vectorType(e);
            return array(e, 1 + c.draw(5));
        }
        default: return any(c, o.max_depth);
    }
}

string gen::str(MType const& t, bool deep)
{
    ostringstream o;
    switch (t.k)
    {
        case ENUM:
            o << t.name << "{";
            for (auto const& s : t.syms) o << s.first << "=" << s.second << " ";
            o << "}"; break;
        case ARRAY: o << str(*t.elem, deep) << "[" << t.dim << "]"; break;
        case POINTER: o << t.elem->name << "*"; break;
        case OPAQUE: o << "opaque" << t.size; break;
        case VECTOR: o << "vector<" << str(*t.elem, deep) << ">"; break;
        case COMPOUND:
            o << t.name;
            if (deep) {
                o << "{";
                for (auto const& f : t.fields) o << f.name << "@" << f.off << ":" << str(*f.type, deep) << " ";
                o << "}#" << t.size;
            }
            break;
        default: o << t.name.substr(1);
    }
    return o.str();
}

void gen::registerContainers()
{
    char const* b = getenv("PBT_BUILD");
    g_build_dir = b ? b : "/verif/build";
    static T::PluginManager::self keep;
    auto const& av = T::Container::availableContainers();
    if (!av.count("/std/vector") || !av.count("/std/string"))
        throw runtime_error("the container plugin did not register vectors and strings");
}

T::Type const& Inst::operator()(MT const& t)
{
    auto it = done.find(t->name);
    if (it != done.end()) return *it->second;
    T::Type const* res = 0;
    switch (t->k)
    {
        case SINT: case UINT: case FLOAT:
            if (r.has(t->name, false)) res = r.get(t->name);
            else
            {
                T::Numeric* n = new T::Numeric(t->name, t->size, t->k == SINT ? T::Numeric::SInt : t->k == UINT ? T::Numeric::UInt : T::Numeric::Float);
                r.add(n); res = n;
            }
            break;
        case NIL: { T::NullType* n = new T::NullType(t->name); r.add(n); res = n; break; }
        case ENUM: {
            T::Enum* e = new T::Enum(t->name);
            for (auto const& s : t->syms) e->add(s.first, s.second);
            r.add(e); res = e; break;
        }
        case OPAQUE: { T::OpaqueType* o = new T::OpaqueType(t->name, t->size); r.add(o); res = o; break; }
        case ARRAY: {
            T::Type const& e = (*this)(t->elem);
            if (r.has(t->name, false)) res = r.get(t->name);
            else { T::Array* a = new T::Array(e, t->dim); r.add(a); res = a; }
            break;
        }
        case POINTER: {
            T::Type const& e = (*this)(t->elem);
            if (r.has(t->name, false)) res = r.get(t->name);
            else { T::Pointer* a = new T::Pointer(e); r.add(a); res = a; }
            break;
        }
        case VECTOR: res = &T::Container::createContainer(r, "/std/vector", (*this)(t->elem)); break;
        case STRING: res = &T::Container::createContainer(r, "/std/string", (*this)(t->elem)); break;
        case COMPOUND: {
            vector<T::Type const*> ft;
            T::Compound* co = new T::Compound(t->name);
            done[t->name] = co;
            co->setSize(t->size);   // what is built for the fields might need it, when types refer to each other
            for (auto const& f : t->fields) ft.push_back(&(*this)(f.type));
            for (size_t i = 0; i < ft.size(); ++i) co->addField(t->fields[i].name, *ft[i], t->fields[i].off);
            co->setSize(t->size);
            r.add(co); res = co; break;
        }
    }
    done[t->name] = res;
    return *res;
}

// ------------------------------------------------------------------ values
static uint64_t maskOf(size_t size) { return size >= 8 ? ~0ull : (1ull << (8 * size)) - 1; }
static uint64_t genBits(Ctx& c, size_t size)
{
    uint64_t v;
    switch (c.weighted({3, 2, 4}))
    {
        case 0: v = c.draw(4); break;
        case 1: { static const uint64_t e[] = {0, ~0ull, 0x8080808080808080ull, 0x7f7f7f7f7f7f7f7full, 0x0102030405060708ull, 0x00ff00ff00ff00ffull, 0x7ff8000000000001ull, 0x8000000000000000ull}; v = e[c.draw(8)]; break; }
        default: v = c.draw64();
    }
    return v & maskOf(size);
}
MVal gen::value(Ctx& c, MType const& t, Budget& b, int depth)
{
    MVal v;
    switch (t.k)
    {
        case SINT: case UINT: case FLOAT: v.bits = genBits(c, t.size); --b.left; break;
        case POINTER: v.bits = genBits(c, 8); --b.left; break;
        case ENUM: {
            --b.left;
            if (c.flip(1, 8)) v.bits = genBits(c, 4);
            else v.bits = (uint32_t)t.syms[c.draw(t.syms.size())].second;
            break;
        }
        case OPAQUE: for (size_t i = 0; i < t.size; ++i) v.bytes += (char)c.draw(256); --b.left; break;
        case ARRAY:
            for (size_t i = 0; i < t.dim; ++i)
                if (i >= 64) v.kids.push_back(v.kids[(i * 5 + i / 7) % 61]);
                else v.kids.push_back(value(c, *t.elem, b, depth + 1));
            break;
        case COMPOUND: for (auto const& f : t.fields) v.kids.push_back(value(c, *f.type, b, depth + 1)); break;
        case VECTOR: {
            size_t n = b.left > 0 ? c.size(depth > 2 ? 4 : 10) : 0;
            for (size_t i = 0; i < n; ++i) v.kids.push_back(value(c, *t.elem, b, depth + 1));
            if (b.big > 0 && n > 2 && (t.elem->isLeaf() || t.elem->size <= 32) && c.flip(1, 60))
            {
                // many elements, which are repetitions of the first ones
                size_t m = n + c.draw(t.elem->isLeaf() ? 4000 : 300);
                b.big -= (int)(m * t.elem->size);
                for (size_t i = n; i < m; ++i) v.kids.push_back(v.kids[(i * 3 + i / 5) % n]);
            }
            break;
        }
        case STRING: {
            size_t n = b.left > 0 ? c.size(40) : 0;
            for (size_t i = 0; i < n; ++i) v.bytes += (char)(c.flip(1, 6) ? c.draw(256) : 'a' + c.draw(26));
            if (b.big > 0 && n > 2 && c.flip(1, 60))
            {
                size_t m = n + c.draw(c.flip(1, 4) ? 70000 : 600);
                b.big -= (int)m;
                for (size_t i = n; i < m; ++i) v.bytes += v.bytes[(i * 3 + i / 5) % n];
            }
            b.left -= 2;
            break;
        }
        case NIL: break;
    }
    return v;
}
MVal gen::zeroValue(MType const& t)
{
    MVal v;
    if (t.k == ARRAY) for (size_t i = 0; i < t.dim; ++i) v.kids.push_back(zeroValue(*t.elem));
    else if (t.k == COMPOUND) for (auto const& f : t.fields) v.kids.push_back(zeroValue(*f.type));
    else if (t.k == OPAQUE) v.bytes = ::string(t.size, '\0');
    return v;
}
string gen::str(MType const& t, MVal const& v)
{
    ostringstream o;
    switch (t.k)
    {
        case STRING: case OPAQUE: { o << "\""; for (unsigned char ch : v.bytes) if (ch >= 32 && ch < 127) o << ch; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o << b; } o << "\""; break; }
        case ARRAY: case VECTOR: { o << (t.k == ARRAY ? "[" : "<"); size_t n = 0; for (auto const& k : v.kids) { if (n++) o << ","; if (n > 24) { o << "..."; break; } o << str(*t.elem, k); } o << (t.k == ARRAY ? "]" : ">"); break; }
        case COMPOUND: { o << "{"; for (size_t i = 0; i < v.kids.size(); ++i) { if (i) o << ","; o << str(*t.fields[i].type, v.kids[i]); } o << "}"; break; }
        default: { char b[24]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v.bits); o << b; }
    }
    return o.str();
}
size_t gen::leafCount(MType const& t, MVal const& v)
{
    size_t n = 0;
    switch (t.k)
    {
        case ARRAY: case VECTOR: for (auto const& k : v.kids) n += leafCount(*t.elem, k); return n;
        case COMPOUND: for (size_t i = 0; i < v.kids.size(); ++i) n += leafCount(*t.fields[i].type, v.kids[i]); return n;
        case STRING: return v.bytes.size();
        case NIL: return 0;
        default: return 1;
    }
}
static void spots(MType const& t, MVal& v, vector<pair<MType const*, MVal*>>& out)
{
    switch (t.k)
    {
        case ARRAY: for (auto& k : v.kids) spots(*t.elem, k, out); break;
        case VECTOR: out.push_back(make_pair(&t, &v)); for (auto& k : v.kids) spots(*t.elem, k, out); break;
        case COMPOUND: for (size_t i = 0; i < v.kids.size(); ++i) spots(*t.fields[i].type, v.kids[i], out); break;
        case NIL: break;
        default: out.push_back(make_pair(&t, &v));
    }
}
bool gen::mutateOne(Ctx& c, MType const& t, MVal& v)
{
    vector<pair<MType const*, MVal*>> s;
    spots(t, v, s);
    if (s.empty()) return false;
    auto& p = s[c.draw(s.size())];
    MType const& pt = *p.first; MVal& pv = *p.second;
    switch (pt.k)
    {
        case VECTOR:
            if (pv.kids.size() && c.flip()) pv.kids.pop_back();
            else { Budget b(20); pv.kids.push_back(value(c, *pt.elem, b, 3)); }
            break;
        case STRING:
            switch (c.draw(3))
            {
                case 0: pv.bytes += (char)c.draw(256); break;
                case 1: if (pv.bytes.empty()) pv.bytes = "x"; else pv.bytes.resize(pv.bytes.size() - 1); break;
                default: if (pv.bytes.empty()) pv.bytes = ::string(1, '\0'); else pv.bytes[c.draw(pv.bytes.size())] ^= (char)(1 + c.draw(255));
            }
            break;
        case OPAQUE: pv.bytes[c.draw(pv.bytes.size())] ^= (char)(1 + c.draw(255)); break;
        default: {   // one byte of the leaf
            size_t byte = c.draw(pt.size);
            pv.bits ^= (uint64_t)(1 + c.draw(255)) << (8 * byte);
        }
    }
    return true;
}

uint8_t Pad::next() {
    if (s == 0) return 0;
    if (s == 1) return 0xff;
    s = s * 1664525u + 1013904223u; if (s < 2) s = 77; return (uint8_t)(s >> 24);
}
typedef std::vector<uint8_t> Bytes;
void gen::materialise(MType const& t, MVal const& v, uint8_t* p, Pad& pad)
{
    switch (t.k)
    {
        case SINT: case UINT: case FLOAT: case POINTER: case ENUM: memcpy(p, &v.bits, t.size); break;
        case OPAQUE: memcpy(p, v.bytes.data(), t.size); break;
        case ARRAY: for (size_t i = 0; i < t.dim; ++i) materialise(*t.elem, v.kids[i], p + i * t.elem->size, pad); break;
        case COMPOUND: {
            for (size_t i = 0; i < t.size; ++i) p[i] = pad.next();
            for (size_t i = 0; i < t.fields.size(); ++i) materialise(*t.fields[i].type, v.kids[i], p + t.fields[i].off, pad);
            break;
        }
        case VECTOR: {
            Bytes* b = new (p) Bytes(v.kids.size() * t.elem->size);
            for (size_t i = 0; i < v.kids.size(); ++i) materialise(*t.elem, v.kids[i], b->data() + i * t.elem->size, pad);
            break;
        }
        case STRING: new (p) std::string(v.bytes); break;
        case NIL: break;
    }
}
MVal gen::readback(MType const& t, uint8_t const* p)
{
    MVal v;
    switch (t.k)
    {
        case SINT: case UINT: case FLOAT: case POINTER: case ENUM: memcpy(&v.bits, p, t.size); break;
        case OPAQUE: v.bytes.assign((char const*)p, t.size); break;
        case ARRAY: for (size_t i = 0; i < t.dim; ++i) v.kids.push_back(readback(*t.elem, p + i * t.elem->size)); break;
        case COMPOUND: for (auto const& f : t.fields) v.kids.push_back(readback(*f.type, p + f.off)); break;
        case VECTOR: {
            Bytes const* b = (Bytes const*)p;
            CHECK(b->size() % t.elem->size == 0, "vector storage of " << b->size() << " bytes is not a multiple of the element size " << t.elem->size);
            for (size_t i = 0; i < b->size() / t.elem->size; ++i) v.kids.push_back(readback(*t.elem, b->data() + i * t.elem->size));
            break;
        }
        case STRING: v.bytes = *(std::string const*)p; break;
        case NIL: break;
    }
    return v;
}
void gen::destroyNative(MType const& t, uint8_t* p)
{
    switch (t.k)
    {
        case ARRAY: if (t.hasContainer()) for (size_t i = 0; i < t.dim; ++i) destroyNative(*t.elem, p + i * t.elem->size); break;
        case COMPOUND: for (auto const& f : t.fields) destroyNative(*f.type, p + f.off); break;
        case VECTOR: {
            Bytes* b = (Bytes*)p;
            if (t.elem->hasContainer())
                for (size_t i = 0; i < b->size() / t.elem->size; ++i) destroyNative(*t.elem, b->data() + i * t.elem->size);
            b->~Bytes();
            break;
        }
        case STRING: { typedef std::string S; ((S*)p)->~S(); break; }
        default: break;
    }
}
void gen::initNative(MType const& t, uint8_t* p, Pad& pad) { materialise(t, zeroValue(t), p, pad); }

// -------------------------------------------------------- reference encoding
static void put(Enc& e, void const* p, size_t n, bool data)
{
    uint8_t const* b = (uint8_t const*)p;
    for (size_t i = 0; i < n; ++i) { e.bytes.push_back(data ? b[i] : 0); e.mask.push_back(data); }
}
// inside: within an array or container, where padding is kept even at the end
static void enc(MType const& t, MVal const& v, Enc& e, std::vector<uint8_t>& strip, bool inside)
{
    auto pad = [&](size_t n) { put(e, 0, n, false); strip.resize(e.bytes.size() - n, 0); strip.resize(e.bytes.size(), !inside); };
    switch (t.k)
    {
        case ARRAY: for (auto const& k : v.kids) enc(*t.elem, k, e, strip, true); break;
        case COMPOUND: {
            size_t cur = 0;
            for (size_t i = 0; i < t.fields.size(); ++i)
            {
                MField const& f = t.fields[i];
                pad(f.off - cur);
                enc(*f.type, v.kids[i], e, strip, inside);
                cur = f.off + f.type->size;
            }
            pad(t.size - cur);
            break;
        }
        case VECTOR: {
            e.counts.push_back(make_pair(e.bytes.size(), t.elem->size)); uint64_t n = v.kids.size(); put(e, &n, 8, true);
            for (auto const& k : v.kids) enc(*t.elem, k, e, strip, true);
            break;
        }
        case STRING: { e.counts.push_back(make_pair(e.bytes.size(), (size_t)1)); uint64_t n = v.bytes.size(); put(e, &n, 8, true); put(e, v.bytes.data(), n, true); break; }
        case OPAQUE: put(e, v.bytes.data(), t.size, true); break;
        case NIL: break;
        default: put(e, &v.bits, t.size, true);
    }
    strip.resize(e.bytes.size(), 0);
}
Enc gen::encode(MType const& t, MVal const& v)
{
    Enc e; std::vector<uint8_t> strip;
    enc(t, v, e, strip, false);
    while (!strip.empty() && strip.back()) { strip.pop_back(); e.bytes.pop_back(); e.mask.pop_back(); }
    return e;
}
bool gen::matches(Enc const& e, std::vector<uint8_t> const& got, ::string& why)
{
    if (e.bytes.size() != got.size()) { why = "expected " + to_string(e.bytes.size()) + " bytes, got " + to_string(got.size()); return false; }
    for (size_t i = 0; i < got.size(); ++i)
        if (e.mask[i] && e.bytes[i] != got[i]) { why = "byte " + to_string(i) + " is " + to_string(got[i]) + " instead of " + to_string(e.bytes[i]); return false; }
    return true;
}
void gen::byteMap(MType const& t, std::vector<uint8_t>& out)
{
    switch (t.k)
    {
        case ARRAY: for (size_t i = 0; i < t.dim; ++i) byteMap(*t.elem, out); break;
        case COMPOUND: {
            size_t cur = 0;
            for (auto const& f : t.fields)
            {
                out.insert(out.end(), f.off - cur, 0);
                byteMap(*f.type, out);
                cur = f.off + f.type->size;
            }
            out.insert(out.end(), t.size - cur, 0);
            break;
        }
        case VECTOR: case STRING: out.insert(out.end(), t.size, 2); break;
        default: out.insert(out.end(), t.size, 1);
    }
}
size_t gen::storage(MType const& t, uint8_t const* p)
{
    size_t n = 0;
    switch (t.k)
    {
        case ARRAY: if (t.hasContainer()) for (size_t i = 0; i < t.dim; ++i) n += storage(*t.elem, p + i * t.elem->size); break;
        case COMPOUND: for (auto const& f : t.fields) n += storage(*f.type, p + f.off); break;
        case VECTOR: {
            Bytes const* b = (Bytes const*)p; n += b->size();
            if (t.elem->hasContainer()) for (size_t i = 0; i < b->size() / t.elem->size; ++i) n += storage(*t.elem, b->data() + i * t.elem->size);
            break;
        }
        case STRING: n += ((std::string const*)p)->size(); break;
        default: break;
    }
    return n;
}
::string gen::hex(std::vector<uint8_t> const& b, size_t max)
{
    ::string o; char t[4];
    for (size_t i = 0; i < b.size() && i < max; ++i) { snprintf(t, sizeof t, "%02x ", b[i]); o += t; }
    if (b.size() > max) o += "...";
    return o;
}
size_t gen::trailingPadding(MType const& t) { return t.k == COMPOUND ? t.size - t.end() : 0; }

// ------------------------------------------------------------- type relations
typedef set<pair<MType const*, MType const*>> Assumed;
static bool rel(MType const& a, MType const& b, bool eq, Assumed& as)
{
    if (&a == &b) return true;
    if (a.k != b.k) return false;
    if (!as.insert(make_pair(&a, &b)).second) return true;
    switch (a.k)
    {
        case SINT: case UINT: case FLOAT: case NIL: return a.size == b.size;
        case OPAQUE: return a.size == b.size && a.name == b.name;
        case ENUM: {
            map<::string, int> x(a.syms.begin(), a.syms.end()), y(b.syms.begin(), b.syms.end());
            if (eq) return x == y;
            for (auto const& s : x) if (!y.count(s.first) || y[s.first] != s.second) return false;
            return true;
        }
        case ARRAY: return a.size == b.size && a.dim == b.dim && rel(*a.elem, *b.elem, true, as);
        case VECTOR: case STRING: return rel(*a.elem, *b.elem, true, as);
        case POINTER: return rel(*a.elem, *b.elem, eq, as);
        case COMPOUND:
            if (eq && a.size != b.size) return false;
            if (a.fields.size() != b.fields.size()) return false;
            for (size_t i = 0; i < a.fields.size(); ++i)
                if (a.fields[i].name != b.fields[i].name || a.fields[i].off != b.fields[i].off || !rel(*a.fields[i].type, *b.fields[i].type, eq, as)) return false;
            return true;
    }
    return false;
}
// an assumption made with eq must not serve without, and conversely
bool gen::sameModel(MType const& a, MType const& b) { Assumed as; return rel(a, b, true, as); }
static bool castRel(MType const& a, MType const& b, Assumed& as)
{
    if (&a == &b) return true;
    if (a.k != b.k) return false;
    if (!as.insert(make_pair(&a, &b)).second) return true;
    switch (a.k)
    {
        case ENUM: { Assumed x; return rel(a, b, false, x); }
        case POINTER: return castRel(*a.elem, *b.elem, as);
        case COMPOUND:
            if (a.fields.size() != b.fields.size()) return false;
            for (size_t i = 0; i < a.fields.size(); ++i)
                if (a.fields[i].name != b.fields[i].name || a.fields[i].off != b.fields[i].off || !castRel(*a.fields[i].type, *b.fields[i].type, as)) return false;
            return true;
        default: return sameModel(a, b);
    }
}
bool gen::castModel(MType const& a, MType const& b) { Assumed as; return castRel(a, b, as); }

static void reach(MT const& t, set<MType*>& seen, vector<MT>& out)
{
    if (!seen.insert(t.get()).second) return;
    if (t->elem) reach(t->elem, seen, out);
    for (auto const& f : t->fields) reach(f.type, seen, out);
    out.push_back(t);
}
vector<MT> gen::reachable(MT const& t) { set<MType*> s; vector<MT> v; reach(t, s, v); return v; }

static MT clone(MT const& t, map<MType*, MT>& memo)
{
    auto it = memo.find(t.get());
    if (it != memo.end()) return it->second;
    MT n(new MType(*t)); memo[t.get()] = n;
    if (n->elem) n->elem = clone(t->elem, memo);
    for (auto& f : n->fields) f.type = clone(f.type, memo);
    return n;
}
static void relayout(MT const& t, set<MType*>& seen)
{
    if (!seen.insert(t.get()).second) return;
    if (t->elem) relayout(t->elem, seen);
    size_t old_end = 0, cur = 0;
    for (auto& f : t->fields)
    {
        relayout(f.type, seen);
        if (f.off < cur) f.off = up(cur, f.type->align ? f.type->align : 1);
        cur = f.off + f.type->size;
    }
    if (t->k == ARRAY) { t->size = t->dim * t->elem->size; t->name = t->elem->name + "[" + to_string(t->dim) + "]"; }
    if (t->k == VECTOR) t->name = "/std/vector<" + t->elem->name + ">";
    if (t->k == POINTER) t->name = t->elem->name + "*";
    if (t->k == COMPOUND && t->size < cur) t->size = up(cur, t->align ? t->align : 1);
    (void)old_end;
}
MT gen::derive(Ctx& c, MT const& t, ::string& what)
{
    map<MType*, MT> memo;
    MT r = clone(t, memo);
    vector<MT> all = reachable(r);
    what = "none";
    int edit = c.draw(16);
    size_t first = c.draw(all.size());
    for (size_t attempt = 0; attempt < all.size() && what == "none" && edit; ++attempt)
    {
    MT n = all[(first + attempt) % all.size()];
    switch (edit)
    {
        case 0: break;
        case 1: if (n->k == COMPOUND || n->k == ENUM) { n->name += "_r"; what = "rename"; } break;
        case 2: if (n->isNumeric()) { n->name += "_n"; what = "rename"; } break;
        case 3: if (n->k == COMPOUND) { n->size += n->align ? n->align : 1; what = "larger compound"; } break;
        case 4: if (n->k == SINT) { n->k = UINT; what = "numeric category"; } else if (n->k == UINT) { n->k = SINT; what = "numeric category"; }
                else if (n->k == FLOAT) { n->k = UINT; what = "numeric category"; } break;
        case 5: if (n->isNumeric() && n->size > 1) { n->size /= 2; what = "numeric size"; } break;
        case 6: if (n->k == COMPOUND && !n->fields.empty()) { n->fields[c.draw(n->fields.size())].name += "x"; what = "field name"; } break;
        case 7: if (n->k == COMPOUND && !n->fields.empty()) { auto& f = n->fields[c.draw(n->fields.size())]; f.off += f.type->align; what = "field offset"; } break;
        case 8: if (n->k == COMPOUND && n->fields.size() > 1) { n->fields.pop_back(); what = "field removed"; } break;
        case 9: if (n->k == ARRAY) { n->dim += 1; what = "dimension"; } break;
        case 10: if (n->k == ENUM) { n->syms[c.draw(n->syms.size())].second ^= 0x40; what = "symbol value"; } break;
        case 11: if (n->k == ENUM) { n->syms.push_back(make_pair(::string("Extra"), 77)); what = "symbol added"; } break;
        case 12: if (n->k == ENUM && n->syms.size() > 1) { n->syms.pop_back(); what = "symbol removed"; } break;
        case 13: if (n->k == OPAQUE) { n->name += "_o"; what = "opaque name"; } break;
        case 14: if (n->k == COMPOUND && n->fields.size() > 1) { size_t i = c.draw(n->fields.size() - 1); if (n->fields[i].name != n->fields[i + 1].name) { swap(n->fields[i].name, n->fields[i + 1].name); what = "field names swapped"; } } break;
        default: if (n->k == COMPOUND && !n->fields.empty()) { auto& f = n->fields[c.draw(n->fields.size())];
                // another type of the same size
                for (auto const& x : all) if (x != n && x->size == f.type->size && x->k != f.type->k && !x->hasContainer() && x->k != COMPOUND && x->k != ARRAY) { f.type = x; what = "field type"; break; } }
    }
    }
    // strings are always made of the type named /int8_t
    for (auto const& x : all) if (x->k == STRING && x->elem->name != "/int8_t")
    {
        MT e(new MType); e->k = SINT; e->size = e->align = 1; e->name = "/int8_t";
        x->elem = e;
    }
    set<MType*> seen; relayout(r, seen); seen.clear(); relayout(r, seen);
    return r;
}

bool gen::describes(MType const& t, T::Type const& type, ::string& why)
{
#define DESC(cond, text) do { if (!(cond)) { ostringstream o_; o_ << t.name << ": " << text; why = o_.str(); return false; } } while (0)
    DESC(type.getName() == t.name, "named " << type.getName());
    DESC(type.getSize() == t.size, "size " << type.getSize() << " instead of " << t.size);
    T::Type::Category cat = type.getCategory();
    switch (t.k)
    {
        case SINT: case UINT: case FLOAT:
            DESC(cat == T::Type::Numeric, "not a numeric");
            DESC(static_cast<T::Numeric const&>(type).getNumericCategory() == (t.k == SINT ? T::Numeric::SInt : t.k == UINT ? T::Numeric::UInt : T::Numeric::Float), "other numeric category");
            break;
        case ENUM: {
            DESC(cat == T::Type::Enum, "not an enum");
            map<::string, T::Enum::integral_type> m(static_cast<T::Enum const&>(type).values()), w(t.syms.begin(), t.syms.end());
            DESC(m == w, "other symbols"); break;
        }
        case OPAQUE: DESC(cat == T::Type::Opaque, "not an opaque"); break;
        case NIL: DESC(cat == T::Type::NullType, "not a null type"); break;
        case POINTER: DESC(cat == T::Type::Pointer, "not a pointer"); DESC(static_cast<T::Pointer const&>(type).getIndirection().getName() == t.elem->name, "points to another type"); break;
        case ARRAY: DESC(cat == T::Type::Array, "not an array"); DESC(static_cast<T::Array const&>(type).getIndirection().getName() == t.elem->name, "array of another type");
            DESC(static_cast<T::Array const&>(type).getDimension() == t.dim, "dimension " << static_cast<T::Array const&>(type).getDimension()); break;
        case VECTOR: case STRING: DESC(cat == T::Type::Container, "not a container");
            DESC(static_cast<T::Container const&>(type).kind() == (t.k == VECTOR ? "/std/vector" : "/std/string"), "other container kind");
            DESC(static_cast<T::Container const&>(type).getIndirection().getName() == t.elem->name, "container of another type"); break;
        case COMPOUND: {
            DESC(cat == T::Type::Compound, "not a compound");
            auto const& fs = static_cast<T::Compound const&>(type).getFields();
            DESC(fs.size() == t.fields.size(), fs.size() << " fields instead of " << t.fields.size());
            size_t i = 0;
            for (auto const& f : fs)
            {
                DESC(f.getName() == t.fields[i].name, "field " << i << " is named " << f.getName());
                DESC(f.getOffset() == t.fields[i].off, "field " << f.getName() << " at " << f.getOffset() << " instead of " << t.fields[i].off);
                DESC(f.getType().getName() == t.fields[i].type->name, "field " << f.getName() << " has type " << f.getType().getName());
                ++i;
            }
            break;
        }
    }
    return true;
}
