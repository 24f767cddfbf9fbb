// C19: derived types are built once, from any spelling, with the right shape.
#include "regpair.hh"
#include <typelib/typebuilder.hh>

static Opts all() { Opts o; o.pointers = true; o.opaques = true; o.namespaces = true; o.recursive = true; o.zero_dims = true; o.max_depth = 2; return o; }
struct Mod { bool ptr; size_t dim; };
typedef std::vector<Mod> Mods;
static Mods mods(Ctx& c, size_t max = 5)
{
    Mods m; size_t n = c.draw(max + 1); bool big = false;
    for (size_t i = 0; i < n; ++i)
    {
        Mod x = {c.flip(), 0};
        if (!x.ptr) { x.dim = c.weighted({3, 3, 1}) ? 1 + c.draw(12) : 0; if (!big && c.flip(1, 12)) { x.dim = 1000 + c.draw(2147482647); big = true; } }
        m.push_back(x);
    }
    return m;
}
static std::string canon(Mods const& m, size_t from = 0, size_t to = ~size_t(0))
{
    std::string s; for (size_t i = from; i < m.size() && i < to; ++i) s += m[i].ptr ? "*" : "[" + std::to_string(m[i].dim) + "]";
    return s;
}
static std::string spell(Ctx& c, Mods const& m)   // spaces around the modifiers and zeros before the dimensions do not count
{
    std::string s; bool odd = c.flip(1, 4);
    for (auto const& x : m)
    {
        if (odd && c.flip(1, 3)) s += " ";
        s += x.ptr ? "*" : "[" + std::string(odd && c.flip(1, 3) ? "0" : "") + std::to_string(x.dim) + "]";
    }
    if (odd && c.flip(1, 3)) s += " ";
    return s;
}
static void shape(T::Type const& t, T::Type const& base, Mods const& m)
{
    T::Type const* y = &t;
    CHECK(t.getName() == base.getName() + canon(m), t.getName() << " was built instead of " << base.getName() << canon(m));
    for (size_t i = m.size(); i-- > 0;)
    {
        CHECK(y->getCategory() == (m[i].ptr ? T::Type::Pointer : T::Type::Array), y->getName() << " is not a" << (m[i].ptr ? " pointer" : "n array"));
        T::Indirect const& ind = static_cast<T::Indirect const&>(*y); T::Type const& in = ind.getIndirection();
        if (m[i].ptr) CHECK(y->getSize() == sizeof(void*), y->getName() << " has size " << y->getSize());
        else
        {
            CHECK(static_cast<T::Array const&>(ind).getDimension() == m[i].dim, y->getName() << " has dimension " << static_cast<T::Array const&>(ind).getDimension());
            CHECK(y->getSize() == in.getSize() * m[i].dim, y->getName() << " has size " << y->getSize() << " for elements of size " << in.getSize());
        }
        CHECK(y->getName() == base.getName() + canon(m, 0, i + 1), y->getName() << " is found instead of " << base.getName() << canon(m, 0, i + 1));
        y = &in;
    }
    CHECK(y == &base, "the innermost type is " << y->getName() << " instead of " << base.getName());
}
/** every name there was is unchanged; what is new is exactly the given types, and aliases derived for them */
static void grown(std::map<std::string, std::string> const& before, Reg& g, T::Type const& base, Mods const& m)
{
    auto after = lines(g.r);
    for (auto const& l : before) CHECK(after.count(l.first) && after[l.first] == l.second, l.first << " changed");
    std::set<std::string> want; for (size_t i = 1; i <= m.size(); ++i) want.insert(base.getName() + canon(m, 0, i));
    for (auto const& n : want) CHECK(after.count(n), n << " is not in the registry");
    for (T::RegistryIterator it = g.r.begin(); it != g.r.end(); ++it)
    {
        if (before.count(it.getName()) || want.count(it.getName())) continue;
        CHECK(it.isAlias() && derivedName(it, g.r), "building " << base.getName() << canon(m) << " added " << it.getName());
        CHECK(!it.isPersistent(), it.getName() << " is persistent");
    }
    for (auto const& n : want) if (!before.count(n)) { T::RegistryIterator it = g.r.find(n); CHECK(!it.isAlias() && !it.isPersistent(), n << " should be a derived, non persistent type"); }
    closedOver(g.r, "the registry");
}
static void setup(Ctx& c, Reg& g)
{
    Universe u(all()); size_t n = 1 + c.draw(2); for (size_t i = 0; i < n; ++i) u.top(c);
    g.add(u.pool);
    static char const* al[] = {"/al", "/ns/al", "/ns/sub/zal", "/a b"};
    n = c.draw(4);
    for (size_t i = 0; i < n; ++i) { std::string b = g.anyName(c), a = al[c.draw(4)]; if (a != b && g.alias(b, a, "")) NOTE(c, "alias " << a << " of " << b << "\n"); }
    if (c.flip(1, 3)) { g.r.setDefaultNamespace("/ns"); NOTE(c, "default namespace /ns\n"); }
}
static std::string relative(Ctx& c, Reg& g, std::string const& n)   // a shorter name with the same meaning, if there is one
{
    if (!c.flip(1, 3)) return n;
    for (char const* p : {"/ns/sub/", "/ns/", "/"}) { std::string q(p); if (n.compare(0, q.size(), q) == 0 && n.size() > q.size()) { std::string s = n.substr(q.size()); if (g.r.get(s) == g.r.get(n)) return s; } }
    return n;
}
static void buildNames(Ctx& c)
{
    Reg g; setup(c, g);
    size_t n = 1 + c.draw(4);
    for (size_t i = 0; i < n; ++i)
    {
        std::string bn = g.anyName(c); T::Type const& base = g.type(bn);
        Mods m = mods(c); std::string rn = relative(c, g, bn);
        // when the relative name means something else once decorated, it is another type that is asked for
        for (size_t k = 1; k <= m.size(); ++k) if (g.r.get(rn + canon(m, 0, k)) != g.r.get(base.getName() + canon(m, 0, k))) rn = bn;
        if ((bn[bn.size() - 1] == '*' || bn[bn.size() - 1] == ']')) rn = bn;
        std::string name = rn + spell(c, m);
        NOTE(c, "build '" << name << "' (of " << base.getName() << ")\n");
        auto before = lines(g.r);
        CHECK(T::TypeBuilder::getBaseType(g.r, name) || m.empty(), "no base type for " << name);
        CHECK(g.r.has(name), "has(" << name << ") is false");
        CHECK(lines(g.r) == before, "has() or getBaseType() changed the registry");
        T::Type const* t = c.flip(1, 3) ? T::TypeBuilder::build(g.r, name) : g.r.build(name);
        CHECK(t, name << " is not built");
        shape(*t, base, m); grown(before, g, base, m);
        std::string s = snapshot(g.r), other = bn;
        for (auto const& x : g.r.getAliasesOf(base)) if (c.flip()) other = x;
        for (std::string const& again : {name, base.getName() + canon(m), other + spell(c, m)})
        {
            CHECK(g.r.has(again), "has(" << again << ") is false after " << name);
            CHECK(g.r.build(again) == t, "building " << again << " gives another type than " << name);
            CHECK(T::TypeBuilder::build(g.r, again) == t, "TypeBuilder::build(" << again << ") gives another type than " << name);
        }
        CHECK(snapshot(g.r) == s, "building again changed the registry");
        if (m.size() > 1) c.nontrivial();
        c.label(bn != base.getName() ? "alias" : rn != bn ? "relative" : "plain");
    }
}
static void refuse(Ctx& c)
{
    Reg g; setup(c, g);
    std::string bn = g.anyName(c), bad, what;
    switch (c.draw(5))
    {
        case 0: bad = "/unknown" + std::to_string(c.draw(3)) + canon(mods(c)); what = "unknown"; break;
        case 1: { static char const* d[] = {"[]", "[x]", "[3x]", "[-1]", "[1.5]", "[ ]", "[0x3]", "[3*]", "[99999999999999999999]", "[+3]", "[/int]"}; bad = bn + canon(mods(c, 2)) + d[c.draw(11)] + canon(mods(c, 2)); what = "bad dimension"; break; }
        case 2: { static char const* d[] = {"]", "[", "[3", "3]", "[[3]", "[3]]", "][", "[3]x"}; bad = bn + canon(mods(c, 2)) + d[c.draw(8)]; what = "unbalanced"; break; }
        case 3: { static char const* d[] = {"", "*", "[3]", "**", " ", "[3]*", "/", "/*", "[", "]"}; bad = d[c.draw(10)]; what = "no base"; break; }
        default: { static char const* d[] = {"*x", "&", "<>", "*/int", "//", "/int"}; bad = bn + d[c.draw(6)]; what = "garbage"; break; }
    }
    if (g.r.has(bad, false)) return;
    NOTE(c, "build '" << bad << "' (" << what << ")\n"); c.label(what);
    std::string s = snapshot(g.r);
    auto refused = [&](char const* op, std::function<bool()> const& fn) { bool ok = false; try { ok = !fn(); } catch(std::runtime_error const&) { ok = true; } CHECK(ok, op << " accepts '" << bad << "'"); CHECK(snapshot(g.r) == s, op << " of '" << bad << "' changed the registry"); };
    refused("has", [&] { return g.r.has(bad); });
    refused("build", [&] { return g.r.build(bad) != 0; });
    refused("TypeBuilder::build", [&] { return T::TypeBuilder::build(g.r, bad) != 0; });
    refused("getBaseType", [&] { return T::TypeBuilder::getBaseType(g.r, bad) != 0; });
    if (c.flip(1, 20)) pbt::no_leak("refused " + bad, [&] { try { g.r.build(bad); } catch(std::runtime_error const&) {} });
    c.nontrivial();
}
/** the type builder, step by step */
static void steps(Ctx& c)
{
    Reg g; setup(c, g);
    std::string bn = g.anyName(c); T::Type const& base = g.type(bn); Mods m; size_t lead = 0;
    T::Type const* root = &base;
    NOTE(c, "from " << base.getName());
    // arrays and pointers which are already in the name of the base
    std::vector<Mod> inner; T::Type const* y = &base;
    while (y->getCategory() == T::Type::Array || y->getCategory() == T::Type::Pointer)
    {
        Mod x = {y->getCategory() == T::Type::Pointer, 0}; if (!x.ptr) x.dim = static_cast<T::Array const&>(*y).getDimension();
        inner.insert(inner.begin(), x); y = &static_cast<T::Indirect const&>(*y).getIndirection();
    }
    root = y; m = inner; lead = inner.size();
    auto before = lines(g.r);
    T::TypeBuilder b(g.r, &base); size_t n = 1 + c.draw(5); std::set<std::string> built; 
    for (size_t i = 0; i < n; ++i)
    {
        size_t dim = c.draw(9);
        switch (c.draw(3))
        {
            case 0: { int l = c.draw(4); NOTE(c, ", pointer " << l); b.addPointer(l); for (int k = 0; k < l; ++k) m.push_back(Mod{true, 0}); break; }
            case 1: NOTE(c, ", major " << dim); b.addArrayMajor(dim); m.push_back(Mod{false, dim}); break;
            default: {
                NOTE(c, ", minor " << dim); b.addArrayMinor(dim);
                size_t k = m.size(); while (k > 0 && !m[k - 1].ptr) --k;
                m.insert(m.begin() + k, Mod{false, dim});
            }
        }
        CHECK(&b.getType() == g.r.get(root->getName() + canon(m)), "the builder has " << b.getType().getName() << " instead of the registered " << root->getName() << canon(m));
        shape(b.getType(), *root, m);
    }
    auto after = lines(g.r);
    for (auto const& l : before) CHECK(after.count(l.first) && after[l.first] == l.second, l.first << " changed");
    closedOver(g.r, "the registry");
    if (m.size() > lead + 1) c.nontrivial();
    NOTE(c, "\n");
    bool thrown = false; try { std::list<std::string> w(1, "/not"); w.push_back("there"); T::TypeBuilder x(g.r, w); } catch(T::Undefined const&) { thrown = true; }
    CHECK(thrown, "building on an unknown name");
    if (bn.find(' ') != std::string::npos) { std::list<std::string> w(1, bn.substr(0, bn.find(' '))); w.push_back(bn.substr(bn.find(' ') + 1)); T::TypeBuilder x(g.r, w); CHECK(&x.getType() == &base, "base name given in words"); }
}
static void ofContainers(Ctx& c)
{
    Reg g; setup(c, g);
    std::string bn = g.anyName(c); T::Type const* t = &g.type(bn); size_t n = 1 + c.draw(3);
    for (size_t i = 0; i < n; ++i)
    {
        auto before = lines(g.r); std::string name = "/std/vector<" + t->getName() + ">"; bool had = g.r.has(name, false);
        NOTE(c, "vector of " << t->getName() << "\n");
        T::Container const& v = T::Container::createContainer(g.r, "/std/vector", *t);
        CHECK(v.getName() == name && v.kind() == "/std/vector" && v.getCategory() == T::Type::Container, v.getName() << " was created for " << name);
        CHECK(&v.getIndirection() == t, name << " holds " << v.getIndirection().getName());
        CHECK(v.getSize() == sizeof(std::vector<int>), name << " has size " << v.getSize());
        CHECK(g.r.get(name) == &v, name << " is not registered");
        CHECK(&T::Container::createContainer(g.r, "/std/vector", std::list<T::Type const*>(1, t)) == &v, name << " was created twice");
        auto after = lines(g.r);
        for (auto const& l : before) CHECK(after.count(l.first) && after[l.first] == l.second, l.first << " changed");
        for (T::RegistryIterator it = g.r.begin(); it != g.r.end(); ++it)
            if (!before.count(it.getName()) && it.getName() != name) CHECK(it.isAlias() && derivedName(it, g.r), name << " added " << it.getName());
        for (auto const& a : g.r.getAliasesOf(*t)) CHECK(g.r.get("/std/vector<" + a + ">"), "no vector of the alias " << a);
        for (auto const& a : g.r.getAliasesOf(*t)) if (!before.count("/std/vector<" + a + ">")) CHECK(g.r.get("/std/vector<" + a + ">") == &v, "the vector of the alias " << a << " is another type");
        if (had) c.label("existing");
        std::string s = snapshot(g.r);
        for (int k = 0; k < 3; ++k)
        {
            bool thrown = false;
            std::list<T::Type const*> args(k == 1 ? 0 : 2, t);
            try { T::Container::createContainer(g.r, k == 0 ? "/std/list" : "/std/vector", args); } catch(std::runtime_error const&) { thrown = true; }
            CHECK(thrown && snapshot(g.r) == s, "unknown container or wrong number of arguments");
        }
        Mods m = mods(c, 2); T::Type const* d = g.r.build(name + spell(c, m)); CHECK(d, "cannot build on " << name); shape(*d, v, m);
        t = d;
        if (i) c.nontrivial();
    }
    closedOver(g.r, "the registry");
}
Property pbt::the_property = { "C19",
    "registries of random universes with aliases; names made of a registered, aliased or relative base and up to 5 modifiers, with odd spacing and huge dimensions; malformed names of five kinds; the builder step by step; containers of containers. Non-trivial: 2 or more modifiers, a refused name, nested containers",
    { {"build", buildNames, 80000, 3000000}, {"refuse", refuse, 80000, 2000000}, {"steps", steps, 60000, 2000000}, {"containers", ofContainers, 40000, 1000000} }, registerContainers };
