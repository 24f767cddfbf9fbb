// C18: type-name functions validate, split and recompose consistently.
#include "regmodel.hh"
#include <typelib/typename.hh>

typedef std::vector<std::string> Comps;
static std::string ident(Ctx& c)
{
    static char const* ids[] = {"A", "B", "C", "AB", "ns", "T", "std", "a_b", "int", "double", "_x9", "unsigned int"};
    if (c.flip(1, 8)) { std::string s(1, "abzAZ_"[c.draw(6)]); size_t n = c.draw(8); static char const chars[] = "abcXYZ0189_ "; for (size_t i = 0; i < n; ++i) s += chars[c.draw(sizeof chars - 1)]; return s; }
    return ids[c.draw(12)];
}
static std::string joinComps(Comps const& v, bool absolute = true) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i || absolute ? "/" : "") + v[i]; return s; }
static Comps comps(Ctx& c, int depth);
static std::string mods(Ctx& c)
{
    std::string s; size_t n = c.weighted({4, 2, 1, 1});
    for (size_t i = 0; i < n; ++i) s += c.flip() ? "*" : "[" + std::to_string(c.draw(12)) + "]";
    return s;
}
static std::string args(Ctx& c, int depth)
{
    std::string s = "<"; size_t n = 1 + c.weighted({4, 2, 1});
    for (size_t i = 0; i < n; ++i)
    {
        if (i) s += ",";
        if (c.flip(1, 5)) s += (c.flip(1, 4) ? "-" : "") + std::to_string(c.draw(300));
        else { Comps v = comps(c, depth + 1); s += joinComps(v); }
    }
    return s + ">";
}
// a component of a namespace might be a template, the last one a derived type
static Comps comps(Ctx& c, int depth)
{
    Comps v; size_t n = 1 + c.weighted({2, 3, 2, 1});
    for (size_t i = 0; i < n; ++i)
    {
        std::string s = ident(c);
        if (depth < 3 && c.flip(1, depth ? 6 : 4)) s += args(c, depth);
        if (i + 1 == n) s += mods(c);
        v.push_back(s);
    }
    return v;
}
static std::list<std::string> asList(Comps const& v) { return std::list<std::string>(v.begin(), v.end()); }
static std::string show(std::list<std::string> const& l) { std::string s; for (auto const& x : l) s += "{" + x + "}"; return s; }
static void wellFormed(Ctx& c)
{
    Comps v = comps(c, 0); std::string n = joinComps(v), rel = joinComps(v, false);
    NOTE(c, n << "\n");
    CHECK(T::isValidTypename(n, true) && T::isValidTypename(n, false), n << " is refused");
    CHECK(!T::isValidTypename(rel, true), rel << " is accepted as an absolute name");
    CHECK(T::isValidTypename(rel, false), rel << " is refused as a relative name");
    CHECK(T::isAbsoluteName(n) && !T::isAbsoluteName(rel), "isAbsoluteName");
    CHECK(T::splitTypename(n) == asList(v), n << " splits into " << show(T::splitTypename(n)));
    CHECK(T::splitTypename(rel) == asList(v), rel << " splits into " << show(T::splitTypename(rel)));
    Comps nsc(v.begin(), v.end() - 1); std::string ns = joinComps(nsc) + "/";
    CHECK(T::getNamespace(n) == ns, "the namespace of " << n << " is " << T::getNamespace(n));
    CHECK(T::getTypename(n) == v.back(), "the base name of " << n << " is " << T::getTypename(n));
    CHECK(T::getNamespace(n) + T::getTypename(n) == n, n << " is recomposed as " << T::getNamespace(n) << T::getTypename(n));
    // its own namespaces
    for (size_t i = 0; i < v.size(); ++i)
    {
        std::string p = joinComps(Comps(v.begin(), v.begin() + i)), rest = joinComps(Comps(v.begin() + i, v.end()), false);
        for (int slash = 0; slash < 2; ++slash)
        {
            std::string q = slash ? p + "/" : p;
            if (q.empty()) continue;
            CHECK(T::getNormalizedNamespace(q) == p + "/", "normalized namespace of " << q << ": " << T::getNormalizedNamespace(q));
            CHECK(T::isInNamespace(n, q, true), n << " should be in " << q);
            CHECK(T::isInNamespace(n, q) == (i + 1 == v.size()), n << " in " << q << ", without saying how: " << T::isInNamespace(n, q));
            CHECK(T::isInNamespace(n, q, false) == (i + 1 == v.size()), n << " directly in " << q << ": " << T::isInNamespace(n, q, false));
            CHECK(T::getRelativeName(n, q) == rest, "relative to " << q << ", " << n << " is " << T::getRelativeName(n, q));
        }
    }
    CHECK(!T::isInNamespace(n, n, true) && !T::isInNamespace(n, n + "/", true), n << " is in itself");
    T::NullType t(n);
    CHECK(t.getName() == n && t.getNamespace() == ns && t.getBasename() == v.back(), "names of the type object");
    if (v.size() > 1 && n.find('<') != std::string::npos) c.nontrivial();
    c.label(v.size() > 2 ? "3 or more components" : "1 or 2 components");
}
static Comps simple(Ctx& c, size_t max) { Comps v; size_t n = c.draw(max + 1); static char const* ids[] = {"A", "B", "C", "AB", "BA"}; for (size_t i = 0; i < n; ++i) v.push_back(ids[c.draw(5)]); return v; }
static bool prefix(Comps const& p, Comps const& v) { return p.size() <= v.size() && std::equal(p.begin(), p.end(), v.begin()); }
// names and namespaces that have nothing to do with each other, or share a part
static void pairs(Ctx& c)
{
    Comps tns = simple(c, 4), ns = simple(c, 4);
    if (c.flip()) { size_t k = c.draw(tns.size() + 1); Comps x(tns.begin(), tns.begin() + k); x.insert(x.end(), ns.begin(), ns.end()); ns = x; }
    std::string base = ident(c) + (c.flip(1, 4) ? args(c, 2) : "") + mods(c);
    std::string type = joinComps(tns) + "/" + base, n = joinComps(ns) + (c.flip() || ns.empty() ? "/" : "");
    NOTE(c, type << " from " << n << "\n");
    bool in = prefix(ns, tns);
    CHECK(T::isInNamespace(type, n, true) == in, type << " in " << n << ": " << !in);
    CHECK(T::isInNamespace(type, n, false) == (ns == tns), type << " directly in " << n << ": " << !(ns == tns));
    CHECK(T::isValidNamespace(n, true) == true || ns.empty(), n << " is refused as a namespace");
    std::string p = T::getMinimalPathTo(type, n);
    NOTE(c, "path " << p << "\n");
    std::string full = tns.empty() ? "/" : joinComps(tns) + "/";
    if (in) { Comps rest(tns.begin() + ns.size(), tns.end()); std::string w = rest.empty() ? "" : joinComps(rest, false) + "/"; CHECK(p == w, "the path to " << type << " from " << n << " is " << p << " instead of " << w); return; }
    c.nontrivial();
    CHECK(p.empty() || p[p.size() - 1] == '/', "the path " << p << " does not end with a separator");
    if (p == full) { c.label("absolute"); return; }
    c.label("relative");
    CHECK(p.empty() || p[0] != '/', p << " is absolute but is not the namespace of " << type);
    std::list<std::string> pl = T::splitTypename(p.substr(0, p.empty() ? 0 : p.size() - 1)); Comps pc; if (!p.empty()) pc.assign(pl.begin(), pl.end());
    // innermost scope of n in which the first component is known to exist decides
    CHECK(!pc.empty() || prefix(tns, ns), "empty path to " << type << " from " << n);
    bool found = false;
    for (size_t k = ns.size() + 1; k-- > 0 && !found;)
    {
        Comps s(ns.begin(), ns.begin() + k), r(s); r.insert(r.end(), pc.begin(), pc.end());
        if (r == tns) { found = true; break; }
        Comps f(s); if (!pc.empty()) f.push_back(pc[0]);
        CHECK(pc.empty() || !(prefix(f, ns) && f.size() <= ns.size()), "from " << n << ", " << p << " is ambiguous for " << full << ": " << joinComps(f) << " exists too");
    }
    CHECK(found, p << " does not lead from " << n << " to " << full);
}
static void order(Ctx& c)
{
    std::vector<std::string> s;
    for (int i = 0; i < 4; ++i)
    {
        if (!s.empty() && c.flip()) { std::string x = s[c.draw(s.size())]; if (c.flip() || x.empty()) x += "/aA*z9"[c.draw(6)]; else x[c.draw(x.size())] = "/aA*z9"[c.draw(6)]; s.push_back(x); }
        else if (c.flip()) s.push_back(joinComps(comps(c, 1)));
        else { std::string x; size_t n = c.draw(6); for (size_t k = 0; k < n; ++k) x += (char)(c.flip(1, 4) ? c.draw(256) : "/ab"[c.draw(3)]); s.push_back(x); }
    }
    for (auto const& x : s) NOTE(c, "'" << x << "' ");
    NameLess less;
    for (auto const& a : s)
    {
        CHECK(!T::nameSort(a, a), "'" << a << "' sorts before itself");
        for (auto const& b : s)
        {
            CHECK(T::nameSort(a, b) == less(a, b), "'" << a << "' before '" << b << "': " << T::nameSort(a, b));
            CHECK(a == b || T::nameSort(a, b) != T::nameSort(b, a), "'" << a << "' and '" << b << "' are not ordered");
            for (auto const& d : s) CHECK(!(T::nameSort(a, b) && T::nameSort(b, d)) || T::nameSort(a, d), "not transitive on '" << a << "', '" << b << "', '" << d << "'");
        }
    }
    c.nontrivial();
}
// one defect in a valid name
static void malformed(Ctx& c)
{
    Comps v = comps(c, 0); std::string n = joinComps(v), bad = n, what;
    size_t at;
    switch (c.draw(9))
    {
        case 0: { static char const inv[] = "!@#$%^&()+=:;.?~`|\\\"'{}\n\t\x80\xff"; at = 1 + c.draw(n.size()); bad.insert(at, 1, inv[c.draw(sizeof inv - 1)]); what = "invalid character"; break; }
        case 1: bad = joinComps(v, false); what = "not absolute"; break;
        case 2: { std::vector<size_t> p; for (size_t i = 0; i < n.size(); ++i) if (n[i] == '/') p.push_back(i); bad.insert(p[c.draw(p.size())], "/"); what = "empty component"; break; }
        case 3: bad += "/"; what = "trailing separator"; break;
        case 4: { static char const* d[] = {"[]", "[x]", "[-1]", "[1 ]", "[0x3]", "[1.5]", "[[3]]", "[3*]"}; bad += d[c.draw(8)]; what = "bad dimension"; break; }
        case 5: { static char const* d[] = {"[3", "3]", "[", "]"}; bad += d[c.draw(4)]; what = "unbalanced dimension"; break; }
        case 6: { static char const* d[] = {"<", ">", "</A", "</A,", "</A>>", "<3", ",", ",/A", "/x<A>", "/x</A>y", "/x</A[3>", "/x</A*b>"}; bad = joinComps(Comps(v.begin(), v.end() - 1)) + "/T" + d[c.draw(12)]; what = "bad template"; break; }
        case 7: { std::vector<size_t> p; for (size_t i = 0; i < n.size(); ++i) if (n[i] == '<' || n[i] == '>') p.push_back(i); if (p.empty()) return; bad.erase(p[c.draw(p.size())], 1); what = "missing template mark"; break; }
        default: bad = ""; what = "empty"; break;
    }
    NOTE(c, "'" << bad << "' (" << what << ")\n"); c.label(what);
    CHECK(!T::isValidTypename(bad, true), "'" << bad << "' is accepted (" << what << ")");
    T::Registry r;
    bool thrown = false; T::Type* t = new T::OpaqueType(bad, 4);
    try { r.add(t); } catch(std::runtime_error const&) { thrown = true; delete t; }
    CHECK(thrown && r.size() == 0, "the registry accepts '" << bad << "'");
    c.nontrivial();
}
// anything: no crash, no hang, and consistent answers
static void anything(Ctx& c)
{
    std::string s; size_t n = c.size(24); static char const ch[] = "/<>,[]*ab13 :_-";
    if (c.flip(1, 3)) s = joinComps(comps(c, 0));
    for (size_t i = 0; i < n; ++i)
    {
        char x = c.flip(1, 12) ? (char)c.draw(256) : ch[c.draw(sizeof ch - 1)];
        if (s.empty() || c.flip()) s += x;
        else switch (c.draw(3)) { case 0: s.insert(c.draw(s.size()), 1, x); break; case 1: s.erase(c.draw(s.size()), 1); break; default: s[c.draw(s.size())] = x; }
    }
    if (c.flip(1, 2) && (s.empty() || s[0] != '/')) s = "/" + s;
    NOTE(c, "'" << s << "'\n");
    bool va = T::isValidTypename(s, true), vr = T::isValidTypename(s, false);
    CHECK(!va || vr, "'" << s << "' is valid as an absolute name only");
    CHECK(!va || s[0] == '/', "'" << s << "' is valid as an absolute name");
    std::list<std::string> l = T::splitTypename(s);
    T::isValidNamespace(s, true); T::isValidNamespace(s, false); T::isAbsoluteName(s); T::getTypename(s); T::getNamespace(s);
    T::isInNamespace(s, "/ab", false); T::isInNamespace("/ab/b", s, true); T::getNormalizedNamespace(s);
    if (va)
    {
        std::string j; for (auto const& x : l) { j += "/" + x; CHECK(!x.empty(), "'" << s << "' is valid but has an empty component"); }
        CHECK(j == s, "'" << s << "' is valid but splits into " << show(l));
        CHECK(T::getNamespace(s) + T::getTypename(s) == s, "'" << s << "' is valid but is recomposed as " << T::getNamespace(s) << T::getTypename(s));
        long b = 0, d = 0; for (char x : s) { b += (x == '<') - (x == '>'); d += (x == '[') - (x == ']'); CHECK(b >= 0 && d >= 0 && d <= 1, "'" << s << "' is valid but unbalanced"); }
        CHECK(b == 0 && d == 0, "'" << s << "' is valid but unbalanced");
        c.nontrivial(); c.label("valid");
    }
    else c.label("invalid");
}
Property pbt::the_property = { "C18",
    "names generated from the grammar (nested templates, integer arguments, arrays, pointers, up to 4 components) checked against their component lists; pairs of names and namespaces; triples of strings for the order; one defect put in a valid name; arbitrary and mutated strings. Non-trivial: templates in namespaces, unrelated namespaces, a defect, accepted strings",
    { {"well_formed", wellFormed, 120000, 4000000}, {"pairs", pairs, 120000, 4000000}, {"order", order, 100000, 2000000}, {"malformed", malformed, 60000, 2000000}, {"anything", anything, 150000, 6000000} }, registerContainers };
