// C13: removing a type removes exactly the type and what depends on it.
#include "regmodel.hh"

static std::set<T::Type const*> closure(RegModel const& m, T::Type const* t)
{
    std::set<T::Type const*> r; r.insert(t);
    for (bool more = true; more;)
    {
        more = false;
        for (auto const& x : m.g)
            if (!r.count(x.second.type)) for (auto d : RegModel::deps(*x.second.type)) if (r.count(d)) { r.insert(x.second.type); more = true; break; }
    }
    return r;
}
static void removal(Ctx& c)
{
    Opts o; o.pointers = true; o.opaques = true; o.namespaces = true; o.recursive = true; o.zero_dims = true;
    Universe u(o); size_t ntop = 1 + c.draw(3);
    for (size_t i = 0; i < ntop; ++i) u.top(c);
    T::Registry r; Inst inst(r);
    for (auto const& t : std::vector<MT>(u.pool)) inst(t);
    RegModel m(r);
    auto anyName = [&]() { auto it = m.g.begin(); std::advance(it, c.draw(m.g.size())); return it->first; };
    size_t nal = c.draw(5);
    static char const* al[] = {"/al", "/ns/al", "/ns/sub/al", "/other/al", "/al2"};
    for (size_t i = 0; i < nal; ++i)
    {
        std::string base = anyName(), n = al[c.draw(5)];
        if (m.has(n)) continue;
        NOTE(c, "alias " << n << " of " << base << "\n");
        r.alias(base, n); m.alias(m.g.at(base).type->getName(), n, true, "");
    }
    for (auto const& x : m.g) NOTE(c, x.first << " -> " << x.second.type->getName() << "\n");
    std::vector<std::string> lookups, prefixes; prefixes.push_back("/"); prefixes.push_back("/ns"); prefixes.push_back("/std/");
    if (c.flip(1, 3)) { static char const* ns[] = {"/ns", "/ns/sub", "/other", "/std"}; std::string s = ns[c.draw(4)]; r.setDefaultNamespace(s); m.setNamespace(s); NOTE(c, "namespace " << s << "\n"); }
    if (c.flip(1, 6)) { r.importNamespace("/ns", true); m.import("/ns", true); NOTE(c, "import /ns\n"); }
    checkRegistry(r, m, lookups, prefixes);
    size_t steps = 1 + c.draw(3); bool partial = false;
    for (size_t s = 0; s < steps && !m.g.empty(); ++s)
    {
        // every name of the registry is asked for its dependents
        for (auto const& x : m.g)
        {
            std::set<T::Type const*> w = closure(m, x.second.type), got = const_cast<T::Registry const&>(r).reverseDepends(*x.second.type);
            CHECK(got == w, "reverseDepends(" << x.first << ") gives " << got.size() << " types instead of " << w.size());
        }
        std::string n = anyName(); NOTE(c, "remove " << n << "\n");
        T::Type const* t = m.g.at(n).type;
        std::set<T::Type const*> w = closure(m, t);
        std::map<T::Type const*, std::string> rendered;
        for (auto const& k : inst.done) if (k.second && !w.count(k.second)) rendered[k.second] = k.first;
        for (auto const& x : m.g) lookups.push_back(x.first);
        std::set<T::Type*> got = r.remove(*t);
        CHECK(got.size() == w.size(), "remove(" << n << ") hands over " << got.size() << " types instead of " << w.size());
        for (auto g : got) CHECK(w.count(g), "remove(" << n << ") hands over " << g->getName());
        for (auto it = m.g.begin(); it != m.g.end();) if (w.count(it->second.type)) m.g.erase(it++); else ++it;
        if (!m.g.empty()) partial = true;
        checkRegistry(r, m, lookups, prefixes);
        // they are the caller's now; the others have not changed
        for (auto g : got) { for (auto it = inst.done.begin(); it != inst.done.end();) if (it->second == g) inst.done.erase(it++); else ++it; delete g; }
        for (auto const& k : rendered)
        {
            std::string why;
            CHECK(describes(*u.by_name.at(k.second), *k.first, why), "after removing " << n << ": " << k.second << ": " << why);
        }
        checkRegistry(r, m, lookups, prefixes);
        // the names are free again
        if (c.flip(1, 2))
        {
            // a compound under the name of what was removed
            std::string again = t == 0 ? n : n; if (m.has(again)) continue;
            if (again.find_first_of("*[<") != std::string::npos || again == "/std/string") continue;
            T::Compound* k = new T::Compound(again); k->setSize(4);
            r.add(k); m.add(k); c.label("name reused");
            checkRegistry(r, m, lookups, prefixes);
        }
    }
    if (partial) { c.label("something left"); c.nontrivial(); }
    if (nal) c.label("aliases");
}
Property pbt::the_property = { "C13",
    "random type universes (recursive pointers, containers, opaques, namespaces) with random aliases, 1 to 3 removals; dependents of every type and the whole registry compared with a transitive closure model, removed types deleted under AddressSanitizer; non-trivial: something is left after a removal",
    { {"removal", removal, 20000, 600000} }, registerContainers };
