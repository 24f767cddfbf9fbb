// C20: saving a registry as TLB and loading it back is lossless.
#include "regpair.hh"
#include <typelib/pluginmanager.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <typelib/utilmm/configset.hh>
#include <memory>

static Opts all(Ctx& c) { Opts o; o.pointers = true; o.opaques = true; o.namespaces = true; o.zero_dims = true; o.templates = c.flip(); o.max_depth = 2; return o; }
// text that means something to XML
static std::string text(Ctx& c, bool empty = false)
{
    static char const* bits[] = {"a", "src", "&", "<", ">", "\"", "'", "]]>", "]]", "&amp;", "&#65;", "<![CDATA[", "\n", "\t", " ", "\xc3\xa9", "\xe2\x82\xac", "-->", "<!--", "=", "%", "\\", "/usr/include/a.h", "0"};
    std::string s; size_t n = (empty ? 0 : 1) + c.size(6);
    for (size_t i = 0; i < n; ++i) s += bits[c.draw(c.flip(1, 3) ? 2 : sizeof bits / sizeof *bits)];
    return s;
}
static std::string attr(Ctx& c) { std::string s = text(c); return s; }
static void make(Ctx& c, Reg& g)
{
    Universe u(all(c)); size_t n = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) u.top(c);
    // enums and fields with names of their own
    bool unions = false;
    for (auto const& t : u.pool)
    {
        if (t->k == ENUM && c.flip(1, 4)) { std::string s = attr(c); bool dup = false; for (auto const& x : t->syms) dup = dup || x.first == s; if (!dup) t->syms[0].first = s; }
        if (t->k == COMPOUND && t->fields.size() > 1 && c.flip(1, 8)) t->fields[1].off = 0, unions = true;
        if (t->k == COMPOUND && !t->fields.empty() && c.flip(1, 6)) { std::string s = attr(c); bool dup = false; for (auto const& x : t->fields) dup = dup || x.name == s; if (!dup) t->fields[c.draw(t->fields.size())].name = s; }
        // the order in which the importer puts the fields
        std::stable_sort(t->fields.begin(), t->fields.end(), [](MField const& a, MField const& b) { return a.off != b.off ? a.off < b.off : a.name < b.name; });
        for (size_t i = 1; i < t->fields.size(); ++i) if (t->fields[i].off < t->fields[i - 1].off + t->fields[i - 1].type->size) unions = true;   // as are zero-sized fields, once sorted
    }
    g.add(u.pool);
    // containers of the size they have on another platform
    for (T::RegistryIterator it = g.r.begin(); it != g.r.end(); ++it)
        if (it->getCategory() == T::Type::Container && !it.isAlias() && !unions && c.flip(1, 5))
        {
            std::map<std::string, size_t> sizes; sizes[it->getName()] = 1 + c.draw(2 * it->getSize());
            NOTE(c, it->getName() << " resized to " << sizes[it->getName()] << "\n"); g.r.resize(sizes);
        }
    n = c.draw(4);
    static char const* al[] = {"/al", "/zz/al", "/ns/al", "/A/al", "/ns/t</int32_t>/al", "/al2", "/std/vector</zz/q>", "/al</int32_t[3]>"};
    for (size_t i = 0; i < n; ++i) { std::string b = g.anyName(c), a = al[c.draw(8)]; if (a != b && g.alias(b, a, c.flip(1, 3) ? attr(c) : "")) NOTE(c, "alias " << a << " of " << b << "\n"); }
    n = c.draw(5);
    for (size_t i = 0; i < n; ++i)
    {
        T::Type const& t = g.type(g.anyName(c)); std::string k = attr(c), v = text(c, true);
        T::Compound const* co = dynamic_cast<T::Compound const*>(&t);
        T::MetaData* m = &t.getMetaData(); std::string where = t.getName();
        if (co && !co->getFields().empty() && c.flip()) { auto f = co->getFields().begin(); std::advance(f, c.draw(co->getFields().size())); m = &f->getMetaData(); where += "." + f->getName(); }
        if (c.flip(1, 6)) m->add(k, T::MetaData::Values());
        else { m->add(k, v); if (c.flip(1, 3)) m->add(k, text(c, true)); }
        NOTE(c, "metadata " << where << " {" << k << "}: {" << v << "}\n");
    }
    n = c.draw(4);
    for (size_t i = 0; i < n; ++i) { std::string name = g.anyName(c), s = attr(c); g.source(name, s); NOTE(c, "source of " << g.type(name).getName() << ": {" << s << "}\n"); }
}
static std::string save(T::Registry const& r, int how)
{
    T::PluginManager::self m; utilmm::config_set config;
    if (how == 0) return m->save("tlb", r);
    if (how == 1) { std::ostringstream o; m->save("tlb", config, r, o); return o.str(); }
    std::unique_ptr<T::Exporter> e(m->exporter("tlb")); std::ostringstream o; e->save(o, config, r); return o.str();
}
static std::multiset<std::string> sorted(std::string const& doc) { std::multiset<std::string> m; std::istringstream in(doc); std::string l; while (std::getline(in, l)) m.insert(l); return m; }
static void reach(T::Type const* t, std::set<T::Type const*>& out) { if (out.insert(t).second) for (auto d : RegModel::deps(*t)) reach(d, out); }
static void roundTrip(Ctx& c)
{
    Reg g; make(c, g);
    if (c.verbose) NOTE(c, snapshot(g.r, false));
    std::string before = snapshot(g.r), doc = save(g.r, c.draw(3));
    NOTE(c, doc);
    CHECK(snapshot(g.r) == before, "saving changed the registry");
    std::set<T::Type const*> kept;
    for (T::RegistryIterator it = g.r.begin(); it != g.r.end(); ++it) if (it.isPersistent()) reach(&*it, kept);
    T::Registry r2; { T::PluginManager::self m; std::istringstream in(doc); utilmm::config_set config; m->load("tlb", in, config, r2); }
    auto l1 = lines(g.r), l2 = lines(r2);
    bool full = true;
    for (T::RegistryIterator it = g.r.begin(); it != g.r.end(); ++it)
    {
        std::string n = it.getName();
        if (it.isPersistent()) { CHECK(l2.count(n), n << " is lost"); CHECK(l1[n] == l2[n], "loaded as\n" << l2[n] << "\ninstead of\n" << l1[n]); continue; }
        if (!kept.count(&*it)) { full = false; continue; }
        CHECK(l2.count(n), n << " is lost");
        CHECK(r2.find(n).isAlias() == it.isAlias() && r2.get(n)->getName() == it->getName() && !r2.find(n).isPersistent(), n << " is loaded as " << l2[n]);
        if (!it.isAlias()) { T::RegistryIterator o = r2.find(n); CHECK(o->isSame(*it) && it->isSame(*o), n << " is loaded as another type"); }
    }
    for (T::RegistryIterator it = r2.begin(); it != r2.end(); ++it)
        CHECK(l1.count(it.getName()) || (it.isAlias() && derivedName(it, r2)), it.getName() << " was not in the registry");
    closedOver(r2, "the loaded registry");
    if (full && l1.size() == l2.size()) CHECK(g.r.isSame(r2) && r2.isSame(g.r), "the loaded registry is not the same");
    std::string again = save(r2, c.draw(3));
// types that are not in the file do influence the order of the others
    if (full) CHECK(again == doc, "saving again gives\n" << again << "\ninstead of\n" << doc);
    else CHECK(sorted(again) == sorted(doc), "saving again gives\n" << again << "\ninstead of, in any order,\n" << doc);
    if (doc.find("&") != std::string::npos || doc.find("<metadata") != std::string::npos) c.nontrivial();
    if (full) c.label("everything in the file");
}
// into a registry which already holds some of the types
static void into(Ctx& c)
{
    Universe u(all(c)); size_t n = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) u.top(c);
    for (auto const& t : u.pool) std::stable_sort(t->fields.begin(), t->fields.end(), [](MField const& a, MField const& b) { return a.off != b.off ? a.off < b.off : a.name < b.name; });
    Reg g, a; g.add(u.pool);
    std::vector<MT> sub; for (auto const& t : u.pool) if (c.flip(1, 3)) sub.push_back(t);
    a.add(sub); decorate(c, g); 
    if (c.verbose) NOTE(c, "held:\n" << snapshot(a.r, false));
    std::string doc = save(g.r, 0); NOTE(c, doc);
    std::string held = snapshot(a.r); auto before = lines(a.r); std::map<std::string, T::Type const*> ids; for (T::RegistryIterator it = a.r.begin(); it != a.r.end(); ++it) ids[it.getName()] = &*it;
    { T::PluginManager::self m; std::istringstream in(doc); utilmm::config_set config; m->load("tlb", in, config, a.r); }
    auto l1 = lines(g.r), l2 = lines(a.r);
    for (auto const& l : before) { CHECK(l2[l.first] == l.second, l.first << " changed"); CHECK(a.r.get(l.first) == ids[l.first], l.first << " was replaced"); }
    std::set<T::Type const*> kept; for (T::RegistryIterator it = g.r.begin(); it != g.r.end(); ++it) if (it.isPersistent()) reach(&*it, kept);
    for (T::RegistryIterator it = g.r.begin(); it != g.r.end(); ++it)
    {
        if (!it.isPersistent() && !kept.count(&*it)) continue;
        CHECK(l2.count(it.getName()), it.getName() << " is missing");
        if (!before.count(it.getName()) && it.isPersistent()) CHECK(l1[it.getName()] == l2[it.getName()], "loaded as\n" << l2[it.getName()] << "\ninstead of\n" << l1[it.getName()]);
        CHECK(it->isSame(*a.r.get(it.getName())), it.getName() << " is another type");
    }
    closedOver(a.r, "the registry");
    if (!before.empty() && before.size() < l1.size()) c.nontrivial();
}
Property pbt::the_property = { "C20",
    "registries of random acyclic universes (template names, odd numerics, null types, aliases, containers, arrays, pointers) with metadata, sources, symbols and field names made of text special to XML, saved and loaded back, into an empty registry or one holding some of the types. Non-trivial: something escaped or some metadata; a strict part already held",
    { {"round_trip", roundTrip, 50000, 2000000}, {"into", into, 30000, 1000000} }, registerContainers };
