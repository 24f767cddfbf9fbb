// C15: a minimal registry is closed, faithful and nothing more.
#include "regpair.hh"

static Opts all() { Opts o; o.pointers = true; o.opaques = true; o.namespaces = true; o.recursive = true; o.zero_dims = true; o.max_depth = 2; return o; }
static void aliases(Ctx& c, Reg& g, int n)
{
    static char const* al[] = {"/al", "/zz/al", "/ns/al", "/A/al", "/ns/sub/zal", "/al2"};
    for (int i = 0; i < n; ++i) { std::string b = g.anyName(c), a = al[c.draw(6)]; if (a != b && g.alias(b, a, c.flip(1, 4) ? "asrc" : "", !c.flip(1, 5))) NOTE(c, "alias " << a << " of " << b << "\n"); }
    if (c.flip(1, 3))
    {
        std::vector<std::string> al; for (auto const& x : g.m.g) if (g.m.isAlias(x.first)) al.push_back(x.first);
        if (!al.empty()) { std::string n = c.pick(al); g.r.removeAlias(n); g.m.g.erase(n); g.defs.erase(n); NOTE(c, "removed alias " << n << "\n"); }
    }
}
static void closure(T::Type const* t, std::set<T::Type const*>& out)
{
    if (!out.insert(t).second) return;
    for (auto d : RegModel::deps(*t)) closure(d, out);
}
static void list(Ctx& c, char const* what, T::Registry const& r) { if (c.verbose) NOTE(c, what << ":\n" << snapshot(r, false)); }
/** required: names that have to be there; others have to be aliases the registry derives by itself */
static void verify(Ctx& c, Reg const& g, T::Registry const& m, std::set<std::string> const& required, bool aliased)
{
    auto ls = lines(g.r), lm = lines(m);
    for (auto const& n : required)
    {
        CHECK(lm.count(n), n << " is missing");
        CHECK(lm[n] == ls[n], "differs from the source:\n" << lm[n] << "\ninstead of\n" << ls[n]);
    }
    for (T::RegistryIterator it = m.begin(); it != m.end(); ++it)
    {
        std::string n = it.getName();
        if (!required.count(n)) { CHECK(it.isAlias() && aliased, n << " was not asked for"); CHECK(derivedName(it, m), "alias " << n << " was not asked for"); }
        for (auto const& x : g.m.g) CHECK(x.second.type != &*it, n << " is shared with the source");
    }
    closedOver(m, "the minimal registry");
}
static void byName(Ctx& c)
{
    Universe u(all()); size_t n = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) u.top(c);
    Reg g; g.add(u.pool); aliases(c, g, c.draw(4)); decorate(c, g);
    if (c.flip(1, 5)) g.r.setDefaultNamespace("/ns");
    std::string name = g.anyName(c); bool with = c.flip();
    list(c, "registry", g.r); NOTE(c, "minimal(" << name << ", " << with << ")\n");
    std::string before = snapshot(g.r);
    std::unique_ptr<T::Registry> m(with && c.flip() ? g.r.minimal(name) : g.r.minimal(name, with));
    CHECK(snapshot(g.r) == before, "minimal() changed the registry");
    std::set<T::Type const*> need; closure(&g.type(name), need);
    std::set<std::string> required;
    for (auto const& x : g.m.g) if (need.count(x.second.type) && (with || !g.m.isAlias(x.first))) required.insert(x.first);
    verify(c, g, *m, required, with);
    std::unique_ptr<T::Registry> mm(m->minimal(g.type(name).getName(), with));
    CHECK(snapshot(*mm, false) == snapshot(*m, false), "the minimal registry of the minimal registry differs");
    bool thrown = false; try { delete g.r.minimal("/not/there"); } catch(std::runtime_error const&) { thrown = true; }
    CHECK(thrown, "minimal() of an unknown name");
    if (need.size() > 2 && need.size() < g.m.g.size()) c.nontrivial();
}
static bool hasOrBuilds(Reg const& a, std::string n)
{
    if (a.m.has(n)) return true;
    while (!n.empty() && (n[n.size() - 1] == '*' || n[n.size() - 1] == ']')) { if (n[n.size() - 1] == '*') n.erase(n.size() - 1); else n.erase(n.rfind('[')); }
    return a.m.has(n);
}
static void relative(Ctx& c)
{
    Universe u(all()); size_t n = 1 + c.draw(4); for (size_t i = 0; i < n; ++i) u.top(c);
    Reg g, a; g.add(u.pool); aliases(c, g, c.draw(4)); decorate(c, g);
    std::vector<MT> sub; for (auto const& t : u.pool) if (c.flip(1, 3)) sub.push_back(t);
    Universe other(all()); if (c.flip(1, 4)) { other.counter = 50; other.top(c); for (auto const& t : other.pool) if (!u.by_name.count(t->name)) { bool ok = true; for (auto const& d : reachable(t)) if (u.by_name.count(d->name)) ok = false; if (ok) sub.push_back(t); } }
    a.add(sub); if (!a.m.g.empty()) aliases(c, a, c.draw(3));
    bool keep = c.flip();
    list(c, "registry", g.r); list(c, "auto types", a.r); NOTE(c, "keep_auto_aliases: " << keep << "\n");
    std::string before = snapshot(g.r), before_a = snapshot(a.r);
    std::set<T::Type const*> need; std::set<std::string> required;
    for (auto const& x : g.m.g) if (!g.m.isAlias(x.first) && !hasOrBuilds(a, x.first)) closure(x.second.type, need);
    for (auto const& x : g.m.g)
        if (need.count(x.second.type) && (!g.m.isAlias(x.first) || keep || !hasOrBuilds(a, x.first))) required.insert(x.first);
    std::unique_ptr<T::Registry> m(!keep && c.flip() ? g.r.minimal(a.r) : g.r.minimal(a.r, keep));
    CHECK(snapshot(g.r) == before, "minimal() changed the registry");
    CHECK(snapshot(a.r) == before_a, "minimal() changed the auto types");
    verify(c, g, *m, required, true);
    if (!need.empty() && required.size() < g.m.g.size()) c.nontrivial();
    c.label(need.empty() ? "nothing left" : keep ? "keeping aliases" : "dropping aliases");
}
Property pbt::the_property = { "C15",
    "registries of random type universes (recursive pointers, containers, opaques, aliases, metadata, sources), with a name or a second registry holding some of the types; the resulting names, definitions, flags, sources and metadata are compared with the closure computed from the model. Non-trivial: a strict part of the registry with more than 2 types",
    { {"name", byName, 60000, 2000000}, {"relative", relative, 60000, 2000000} }, registerContainers };
