// Reference model of a registry: a map of names, and a search path for relative names.
#ifndef REGMODEL_HH
#define REGMODEL_HH
#include "valcheck.hh"
#include <algorithm>
struct NameLess   // independent statement of the order of type names: '/' sorts before anything else
{
    static int rank(char c) { return c == '/' ? -1000 : (int)c; }
    bool operator()(std::string const& a, std::string const& b) const
    {
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return rank(x) < rank(y); });
    }
};
struct RegEntry { T::Type const* type; bool persistent; std::string source; };
inline std::ostream& operator<<(std::ostream& o, RegEntry const& e) { return o << (void*)e.type << (e.persistent ? " persistent" : "") << " from '" << e.source << "'"; }
struct RegModel
{
    typedef std::map<std::string, RegEntry, NameLess> Map;
    Map g;
    std::string ns;
    std::vector<std::pair<std::string, bool> > path;
    RegModel() : ns("/") { path.push_back(std::make_pair("/", false)); }
    explicit RegModel(T::Registry const& r) : ns("/")
    {
        path.push_back(std::make_pair("/", false));
        for (T::RegistryIterator it = r.begin(); it != r.end(); ++it) { RegEntry e = {&*it, it.isPersistent(), it.getSource()}; g[it.getName()] = e; }
    }
    bool has(std::string const& n) const { return g.count(n); }
    bool isAlias(std::string const& n) const { return g.at(n).type->getName() != n; }
    T::Type const* resolve(std::string const& n) const
    {
        if (!n.empty() && n[0] == '/') { auto it = g.find(n); return it == g.end() ? 0 : it->second.type; }
        T::Type const* best = 0;
        if (n.empty()) return 0;
        for (auto const& p : path)
        {
            auto it = g.find(p.first + n);
            if (it != g.end() && (!best || p.second)) best = it->second.type;
        }
        return best;
    }
    void setNamespace(std::string n)
    {
        if (n.empty() || n[n.size() - 1] != '/') n += "/";
        ns = n;
        path.assign(1, std::make_pair("/", false));
        for (size_t i = 1; i < n.size(); ++i) if (n[i] == '/') path.push_back(std::make_pair(n.substr(0, i + 1), true));
    }
    void import(std::string n, bool erase) { if (n[n.size() - 1] != '/') n += "/"; path.push_back(std::make_pair(n, erase)); }
    static bool derivedByDefault(T::Type const& t) { return t.getCategory() == T::Type::Pointer || t.getCategory() == T::Type::Array; }
    static std::string indirectName(T::Type const& t, std::string const& inside)
    {
        if (t.getCategory() == T::Type::Array) return inside + "[" + std::to_string(static_cast<T::Array const&>(t).getDimension()) + "]";
        if (t.getCategory() == T::Type::Pointer) return inside + "*";
        return "/std/vector<" + inside + ">";
    }
    static bool isIndirect(T::Type const& t)
    {
        return t.getCategory() == T::Type::Array || t.getCategory() == T::Type::Pointer || (t.getCategory() == T::Type::Container && t.getName() != "/std/string");
    }
    static std::set<T::Type const*> deps(T::Type const& t)
    {
        std::set<T::Type const*> r;
        if (t.getCategory() == T::Type::Compound) for (auto const& f : static_cast<T::Compound const&>(t).getFields()) r.insert(&f.getType());
        else if (T::Indirect const* i = dynamic_cast<T::Indirect const*>(&t)) r.insert(&i->getIndirection());
        return r;
    }
    std::set<std::string> aliasesOf(T::Type const* t) const
    {
        std::set<std::string> r;
        for (auto const& e : g) if (e.second.type == t && e.first != t->getName()) r.insert(e.first);
        return r;
    }
    // ---- operations
    void propagate(T::Type const& t)   // the aliases of the element give aliases to t
    {
        if (!isIndirect(t)) return;
        T::Type const* e = &static_cast<T::Indirect const&>(t).getIndirection();
        for (auto const& a : aliasesOf(e))
        {
            std::string n = indirectName(t, a);
            if (!has(n)) alias(t.getName(), n, false, "");
        }
    }
    void add(T::Type* t, bool persistent, std::string const& src)
    {
        RegEntry e = {t, persistent, src}; g[t->getName()] = e;
        propagate(*t);
    }
    void add(T::Type* t, std::string const& src = "") { add(t, !derivedByDefault(*t), src); }
    void alias(std::string const& base, std::string const& n, bool persistent, std::string const& src)
    {
        T::Type const* t = g.at(base).type;
        RegEntry e = {t, persistent, src}; g[n] = e;
        std::vector<T::Type const*> users;
        for (auto const& x : g) if (x.first == x.second.type->getName() && deps(*x.second.type).count(t)) users.push_back(x.second.type);
        for (auto u : users) propagate(*u);
    }
};
/** Compares a registry with its model; extra names are looked up too */
inline void checkRegistry(T::Registry const& r, RegModel const& m, std::vector<std::string> const& names, std::vector<std::string> const& prefixes)
{
    CHECK(r.size() == m.g.size(), "size() gives " << r.size() << " for " << m.g.size() << " names");
    auto e = m.g.begin();
    for (T::RegistryIterator it = r.begin(); it != r.end(); ++it, ++e)
    {
        CHECK(e != m.g.end(), "iteration has an extra name " << it.getName());
        CHECK(it.getName() == e->first, "iteration gives " << it.getName() << " instead of " << e->first);
        CHECK(&*it == e->second.type, e->first << " refers to another type");
        CHECK(it.isPersistent() == e->second.persistent, e->first << " persistent: " << it.isPersistent());
        CHECK(it.getSource() == e->second.source, e->first << " has source '" << it.getSource() << "' instead of '" << e->second.source << "'");
        CHECK(it.isAlias() == (it->getName() != e->first), e->first << " isAlias");
        CHECK(!it.isAlias() || &it.aliased() == e->second.type, e->first << " aliased()");
    }
    CHECK(e == m.g.end(), "iteration lacks " << e->first);
    std::set<T::Type const*> types;
    for (auto const& x : m.g) types.insert(x.second.type);
    for (auto t : types)
    {
        CHECK(r.isIncluded(*t), t->getName() << " is not included");
        CHECK(r.getAliasesOf(*t) == m.aliasesOf(t), "aliases of " << t->getName());
        for (auto d : RegModel::deps(*t)) CHECK(types.count(d), t->getName() << " refers to a type that is not in the registry");
    }
    std::vector<std::string> all(names);
    for (auto const& x : m.g)
    {
        all.push_back(x.first);
        for (auto const& p : m.path) if (x.first.compare(0, p.first.size(), p.first) == 0) all.push_back(x.first.substr(p.first.size()));
    }
    for (auto const& n : all)
    {
        T::Type const* w = m.resolve(n);
        CHECK(r.get(n) == w, "get(" << n << ") gives " << (r.get(n) ? r.get(n)->getName() : "nothing") << " instead of " << (w ? w->getName() : "nothing") << " in namespace " << m.ns);
        CHECK(r.has(n, false) == (w != 0), "has(" << n << ") gives " << r.has(n, false));
        CHECK(const_cast<T::Registry&>(r).get_(n) == w, "get_(" << n << ")");
        CHECK(r.getFullName(n) == (!n.empty() && n[0] == '/' ? n : m.ns + n), "getFullName(" << n << ") gives " << r.getFullName(n));
        T::RegistryIterator f = r.find(n);
        CHECK((f != r.end()) == m.has(n), "find(" << n << ")");
        if (m.has(n)) CHECK(f.getName() == n && &*f == m.g.at(n).type, "find(" << n << ") gives " << f.getName());
    }
    for (auto const& p : prefixes)
    {
        T::RegistryIterator it = r.begin(p), end = r.end(p);
        for (auto const& x : m.g)
        {
            if (x.first.compare(0, p.size(), p)) continue;
            CHECK(it != end, "the range of prefix " << p << " lacks " << x.first);
            CHECK(it.getName() == x.first, "the range of prefix " << p << " gives " << it.getName() << " instead of " << x.first);
            ++it;
        }
        CHECK(it == end, "the range of prefix " << p << " is too long");
    }
}
#endif
