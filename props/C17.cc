// C17: type and registry equality is structural and sees every difference.
#include "regpair.hh"

static Opts all() { Opts o; o.pointers = true; o.opaques = true; o.namespaces = true; o.recursive = true; o.zero_dims = true; o.max_depth = 3; return o; }
static char const* yn(bool b) { return b ? "true" : "false"; }
static void relation(MType const& a, T::Type const& ta, MType const& b, T::Type const& tb, std::string const& what)
{
    bool same = sameModel(a, b), ab = castModel(a, b), ba = castModel(b, a);
    CHECK(ta.isSame(tb) == same, a.name << ".isSame(" << b.name << ") should be " << yn(same) << " (" << what << ")");
    CHECK(tb.isSame(ta) == same, b.name << ".isSame(" << a.name << ") should be " << yn(same) << ", swapped (" << what << ")");
    CHECK(ta.canCastTo(tb) == ab, a.name << ".canCastTo(" << b.name << ") should be " << yn(ab) << " (" << what << ")");
    CHECK(tb.canCastTo(ta) == ba, b.name << ".canCastTo(" << a.name << ") should be " << yn(ba) << ", swapped (" << what << ")");
    CHECK(!same || (ab && ba), "the model is inconsistent");
}
static void types(Ctx& c)
{
    Universe u(all()); MT t = u.top(c); std::string what, what2 = "none";
    MT t2 = derive(c, t, what); if (c.flip(1, 5)) { t2 = derive(c, t2, what2); }
    NOTE(c, str(t) << "\nagainst (" << what << "," << what2 << ")\n" << str(t2) << "\n");
    T::Registry r, r2; Inst i1(r), i2(r2); T::Type const& a = i1(t); T::Type const& b = i2(t2);
    c.label(what); c.label(sameModel(*t, *t2) ? "same" : "different");
    CHECK(a.isSame(a) && a.canCastTo(a), "a type differs from itself");
    relation(*t, a, *t2, b, what + " " + what2);
    // every type of one against its counterpart, and a few others
    std::vector<MT> x = reachable(t), y = reachable(t2);
    for (size_t k = 0; k < x.size() && k < y.size() && k < 12; ++k) relation(*x[k], i1(x[k]), *y[k], i2(y[k]), "part");
    for (int k = 0; k < 4; ++k) { MT p = c.pick(x), q = c.pick(y); relation(*p, i1(p), *q, i2(q), "mixed parts"); }
    // asking again gives the same answer
    relation(*t, a, *t2, b, "again");
    if (x.size() > 2 && what != "none") c.nontrivial();
}
// unrelated types of one universe
static void pairs(Ctx& c)
{
    Universe u(all()); size_t n = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) u.top(c);
    T::Registry r; Inst inst(r); for (auto const& t : u.pool) { inst(t); NOTE(c, str(t) << "\n"); }
    MType nil; nil.k = NIL; nil.name = "/nil";
    T::Type const& null = T::Registry::null();
    CHECK(null.isSame(null) && null.isNull(), "the null type");
    T::NullType n1("/nil"), n2("/nix"); CHECK(n1.isSame(null) && null.isSame(n1), "two null types"); (void)n2;
    for (int k = 0; k < 12; ++k)
    {
        MT p = c.pick(u.pool), q = c.pick(u.pool);
        relation(*p, inst(p), *q, inst(q), "pair");
        CHECK(!null.isSame(inst(p)) && !inst(p).isSame(null) && !null.canCastTo(inst(p)) && !inst(p).canCastTo(null), p->name << " is the same as the null type");
        T::NullType like(p->name); CHECK(!like.isSame(inst(p)) && !inst(p).isSame(like), p->name << " is the same as a null type of that name");
    }
    if (u.pool.size() > 4) c.nontrivial();
}
static std::vector<MT> subset(Ctx& c, std::vector<MT> const& pool) { std::vector<MT> r; for (auto const& t : pool) if (c.flip(3, 4)) r.push_back(t); if (r.empty()) r.push_back(pool[0]); return r; }
static void registries(Ctx& c)
{
    Universe u(all()); MT t = u.top(c); if (c.flip()) u.top(c);
    Reg a, b; std::string what = "none";
    a.add(u.pool);
    int form = c.draw(6);
    static char const* al[] = {"/al", "/zz/al", "/A/al", "/ns/sub/zal"};
    std::vector<std::pair<std::string, std::string> > als; size_t n = c.draw(3);
    for (size_t i = 0; i < n; ++i) { std::string base = a.anyName(c), s = al[c.draw(4)]; if (a.alias(base, s)) als.push_back(std::make_pair(base, s)); }
    if (form == 1)   // one type differs
    {
        MT t2 = derive(c, t, what); std::vector<MT> ts(1, t2); b.add(ts);
        std::vector<MT> rest; for (auto const& x : u.pool) { bool ok = true; for (auto const& d : reachable(x)) for (auto const& y : reachable(t)) if (d == y) ok = false; if (ok) rest.push_back(x); }
        b.add(rest);
    }
    else if (form == 2) { b.add(subset(c, u.pool)); what = "subset"; }
    else { std::vector<MT> rev(u.pool.rbegin(), u.pool.rend()); b.add(c.flip() ? rev : u.pool); }
    for (auto const& x : als) if (b.m.has(x.first)) b.alias(x.first, x.second);
    if (form == 3) { std::string base = b.anyName(c); if (b.alias(base, "/other")) what = "extra alias"; if (c.flip()) { if (a.alias(a.anyName(c), "/others")) what = "one other alias on each side"; } }
    if (form == 4) { std::string n1 = a.anyName(c), n2 = a.anyName(c); if (a.alias(n1, "/zx") && b.alias(n2, "/zx")) what = "alias of another type"; }
    if (form == 5) { std::vector<std::string> l; for (auto const& x : b.m.g) if (b.m.isAlias(x.first)) l.push_back(x.first); if (!l.empty()) { std::string n1 = c.pick(l); b.r.removeAlias(n1); b.m.g.erase(n1); what = "alias removed"; } }
    if (c.flip(1, 4)) { decorate(c, b); }     // metadata and sources are not definitions
    if (c.flip(1, 6)) b.r.setDefaultNamespace("/ns");
    // the verdict of the model
    bool same = a.m.g.size() == b.m.g.size(); std::string diff = same ? "" : "count";
    for (auto const& x : a.m.g)
    {
        if (!b.m.has(x.first)) { same = false; diff = x.first; continue; }
        if (!sameModel(*a.defs.at(x.first), *b.defs.at(x.first))) { same = false; diff = x.first; }
    }
    c.label(same ? "same" : "different"); c.label(what);
    if (c.verbose) NOTE(c, "left\n" << snapshot(a.r, false) << "right (" << what << ")\n" << snapshot(b.r, false));
    std::string sa = snapshot(a.r), sb = snapshot(b.r);
    CHECK(a.r.isSame(b.r) == same, "isSame() should be " << yn(same) << " (" << what << " " << diff << ")");
    CHECK(b.r.isSame(a.r) == same, "isSame() should be " << yn(same) << ", swapped (" << what << " " << diff << ")");
    CHECK(a.r.isSame(a.r) && b.r.isSame(b.r), "a registry differs from itself");
    CHECK(snapshot(a.r) == sa && snapshot(b.r) == sb, "comparing changed a registry");
    if (a.m.g.size() > 3) c.nontrivial();
}
Property pbt::the_property = { "C17",
    "pairs of random type graphs (recursive pointers, containers, opaques, aliases) equal or differing by one or two random edits, every part against its counterpart and against other parts, in both directions, with the verdict of an independent structural comparison; pairs of registries differing by a type, a name or an alias. Non-trivial: more than two types and an edit (or more than 3 names)",
    { {"types", types, 60000, 3000000}, {"pairs", pairs, 30000, 1000000}, {"registries", registries, 40000, 1500000} }, registerContainers };
