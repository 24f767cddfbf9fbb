// Registries built from models, with definitions by name, snapshots and structural comparison.
#ifndef REGPAIR_HH
#define REGPAIR_HH
#include "regmodel.hh"
/** structure of an actual type against a model, names aside (those of opaques excepted) */
inline bool structMatches(MType const& t, T::Type const& y, std::set<std::pair<MType const*, T::Type const*> >& seen, std::string& why)
{
    if (!seen.insert(std::make_pair(&t, &y)).second) return true;
    auto no = [&](std::string const& s) { why = t.name + " vs " + y.getName() + ": " + s; return false; };
    if (y.getSize() != t.size) return no("size " + std::to_string(y.getSize()) + " instead of " + std::to_string(t.size));
    T::Type::Category c = y.getCategory();
    switch (t.k)
    {
        case SINT: case UINT: case FLOAT:
            return (c == T::Type::Numeric && static_cast<T::Numeric const&>(y).getNumericCategory() == (t.k == SINT ? T::Numeric::SInt : t.k == UINT ? T::Numeric::UInt : T::Numeric::Float)) || no("numeric");
        case ENUM: {
            if (c != T::Type::Enum) return no("enum");
            std::map<std::string, T::Enum::integral_type> m(static_cast<T::Enum const&>(y).values()), w(t.syms.begin(), t.syms.end());
            return m == w || no("symbols");
        }
        case OPAQUE: return (c == T::Type::Opaque && y.getName() == t.name) || no("opaque");
        case NIL: return c == T::Type::NullType || no("null");
        case POINTER: if (c != T::Type::Pointer) return no("pointer"); return structMatches(*t.elem, static_cast<T::Pointer const&>(y).getIndirection(), seen, why);
        case ARRAY: if (c != T::Type::Array || static_cast<T::Array const&>(y).getDimension() != t.dim) return no("array"); return structMatches(*t.elem, static_cast<T::Array const&>(y).getIndirection(), seen, why);
        case VECTOR: case STRING:
            if (c != T::Type::Container || static_cast<T::Container const&>(y).kind() != (t.k == VECTOR ? "/std/vector" : "/std/string")) return no("container");
            return structMatches(*t.elem, static_cast<T::Container const&>(y).getIndirection(), seen, why);
        case COMPOUND: {
            if (c != T::Type::Compound) return no("compound");
            auto const& fs = static_cast<T::Compound const&>(y).getFields();
            if (fs.size() != t.fields.size()) return no("field count");
            size_t i = 0;
            for (auto const& f : fs)
            {
                MField const& m = t.fields[i++];
                if (f.getName() != m.name || f.getOffset() != m.off) return no("field " + f.getName());
                if (!structMatches(*m.type, f.getType(), seen, why)) return false;
            }
            return true;
        }
    }
    return false;
}
inline bool structMatches(MType const& t, T::Type const& y, std::string& why) { std::set<std::pair<MType const*, T::Type const*> > s; return structMatches(t, y, s, why); }
typedef std::map<std::string, std::set<std::string> > Meta;
inline Meta metaOf(T::MetaData const& m) { return Meta(m.get().begin(), m.get().end()); }
/** everything observable about a registry, with or without the identity of its types */
inline std::string oneLine(std::string const& s) { std::string o; for (char c : s) if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else o += c; return o; }
inline std::string snapshot(T::Registry const& r, bool identity = true)
{
    std::ostringstream o;
    auto meta = [&](T::MetaData const& m) { for (auto const& k : m.get()) { o << " {" << oneLine(k.first) << ":"; for (auto const& v : k.second) o << oneLine(v) << "|"; o << "}"; } };
    for (T::RegistryIterator it = r.begin(); it != r.end(); ++it)
    {
        o << it.getName() << (it.isPersistent() ? " P " : " - ") << oneLine(it.getSource()) << " ";
        if (identity) o << (void*)&*it;
        if (it.isAlias()) { o << " = " << it->getName() << "\n"; continue; }
        o << " " << it->getCategory() << "#" << it->getSize(); meta(it->getMetaData());
        switch (it->getCategory())
        {
            case T::Type::Numeric: o << " n" << static_cast<T::Numeric const&>(*it).getNumericCategory(); break;
            case T::Type::Enum: for (auto const& v : static_cast<T::Enum const&>(*it).values()) o << " " << oneLine(v.first) << "=" << v.second; break;
            case T::Type::Compound:
                for (auto const& f : static_cast<T::Compound const&>(*it).getFields()) { o << " " << oneLine(f.getName()) << "@" << f.getOffset() << ":" << f.getType().getName(); meta(f.getMetaData()); }
                break;
            case T::Type::Array: o << " x" << static_cast<T::Array const&>(*it).getDimension();   // fall through
            default: if (T::Indirect const* i = dynamic_cast<T::Indirect const*>(&*it)) o << " of " << i->getIndirection().getName();
        }
        o << "\n";
    }
    return o.str();
}
/** the same by name, without identities */
inline std::map<std::string, std::string> lines(T::Registry const& r)
{
    std::map<std::string, std::string> m; std::istringstream in(snapshot(r, false)); std::string l;
    T::RegistryIterator it = r.begin();
    while (std::getline(in, l)) { m[it.getName()] = l; ++it; }
    return m;
}
/** an alias that the registry derives by itself from an alias of the element */
inline bool derivedName(T::RegistryIterator it, T::Registry const& r)
{
    if (!RegModel::isIndirect(*it)) return false;
    T::Type const& e = static_cast<T::Indirect const&>(*it).getIndirection();
    if (RegModel::indirectName(*it, e.getName()) == it.getName()) return true;
    for (auto const& al : r.getAliasesOf(e)) if (RegModel::indirectName(*it, al) == it.getName()) return true;
    return false;
}
/** a registry, its model, and the definition behind every name */
struct Reg
{
    T::Registry r; RegModel m; std::map<std::string, MT> defs;
    Reg() : m(r) {}
    void add(std::vector<MT> const& types)
    {
        Inst inst(r);
        for (auto const& x : defs) if (m.has(x.first) && !m.isAlias(x.first)) inst.done[x.first] = m.g.at(x.first).type;
        for (auto const& t : types) if (!m.has(t->name)) inst(t);
        for (auto const& t : types) for (auto const& d : reachable(t)) if (!defs.count(d->name)) defs[d->name] = d;
        std::map<std::string, RegEntry, NameLess> old(m.g); RegModel fresh(r); m.g = fresh.g;
        named();
    }
    void named()   // definitions behind the aliases
    {
        for (auto const& x : m.g) if (!defs.count(x.first)) { auto d = defs.find(x.second.type->getName()); if (d != defs.end()) defs[x.first] = d->second; }
    }
    bool alias(std::string const& base, std::string const& n, std::string const& src = "", bool persistent = true)
    {
        if (m.has(n)) return false;
        if (persistent) r.alias(base, n, src); else r.alias(base, n, false, src);
        m.alias(m.g.at(base).type->getName(), n, persistent, src); named();
        return true;
    }
    std::string anyName(Ctx& c) const { auto it = m.g.begin(); std::advance(it, c.draw(m.g.size())); return it->first; }
    T::Type const& type(std::string const& n) const { return *m.g.at(n).type; }
    void source(std::string const& n, std::string const& s) { r.setSourceID(type(n), s); m.g.at(type(n).getName()).source = s; }
};
inline void closedOver(T::Registry const& r, char const* what)
{
    std::set<T::Type const*> all;
    for (T::RegistryIterator it = r.begin(); it != r.end(); ++it) all.insert(&*it);
    for (auto t : all) for (auto d : RegModel::deps(*t))
        CHECK(all.count(d), t->getName() << " refers to a type which is not in " << what);
}
/** random metadata and sources */
inline void decorate(Ctx& c, Reg& g)
{
    size_t n = c.draw(5);
    for (size_t i = 0; i < n; ++i)
    {
        std::string k = "k" + std::to_string(c.draw(3)), v = "v" + std::to_string(c.draw(4)), name = g.anyName(c);
        T::Type const& t = g.type(name);
        T::Compound const* co = dynamic_cast<T::Compound const*>(&t);
        if (co && !co->getFields().empty() && c.flip())
        {
            auto f = co->getFields().begin(); std::advance(f, c.draw(co->getFields().size()));
            f->getMetaData().add(k, v); NOTE(c, "metadata " << t.getName() << "." << f->getName() << " " << k << ":" << v << "\n");
        }
        else { t.getMetaData().add(k, v); NOTE(c, "metadata " << t.getName() << " " << k << ":" << v << "\n"); }
    }
    n = c.draw(4);
    for (size_t i = 0; i < n; ++i) { std::string name = g.anyName(c), s = "src" + std::to_string(c.draw(3)); g.source(name, s); NOTE(c, "source of " << g.type(name).getName() << ": " << s << "\n"); }
}
#endif
