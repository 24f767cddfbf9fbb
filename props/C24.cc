// C24: metadata is a multimap that merges as a union.
#include "regpair.hh"
#include <memory>

static std::string key(Ctx& c) { static char const* k[] = {"k0", "k1", "k2", "", "doc", "K0"}; return k[c.draw(6)]; }
static std::string val(Ctx& c) { static char const* v[] = {"v0", "v1", "", "v2", "long value with\nnewline", "V0"}; return v[c.draw(6)]; }
static std::string show(Meta const& m) { std::string s; for (auto const& k : m) { s += " {" + k.first + ":"; for (auto const& v : k.second) s += " '" + v + "'"; s += "}"; } return s.empty() ? " nothing" : s; }
static void merge(Meta& to, Meta from) { for (auto const& k : from) to[k.first].insert(k.second.begin(), k.second.end()); }
static void same(T::MetaData const& m, Meta const& want, std::string const& what)
{
    CHECK(metaOf(m) == want, what << " has" << show(metaOf(m)) << " instead of" << show(want));
    static char const* keys[] = {"k0", "k1", "k2", "", "doc", "K0", "none"};
    for (auto k : keys)
    {
        auto it = want.find(k);
        CHECK(m.include(k) == (it != want.end()), what << ": include(" << k << ")");
        T::MetaData::Values v = m.get(k);
        CHECK(std::set<std::string>(v.begin(), v.end()) == (it == want.end() ? std::set<std::string>() : it->second), what << ": get(" << k << ")");
    }
    CHECK(metaOf(m) == want, what << " is changed by being read");
}
// one operation on one object
static bool step(Ctx& c, T::MetaData& m, Meta& model, std::string const& what)
{
    std::string k = key(c), v = val(c);
    switch (c.draw(5))
    {
        case 0: NOTE(c, what << " add {" << k << "} {" << v << "}\n"); m.add(k, v); model[k].insert(v); return true;
        case 1: NOTE(c, what << " set {" << k << "} {" << v << "}\n"); m.set(k, v); model[k] = {v}; return true;
        case 2: { T::MetaData::Values vs; size_t n = c.draw(4); for (size_t i = 0; i < n; ++i) vs.insert(val(c)); NOTE(c, what << " add {" << k << "} " << n << " values\n"); m.add(k, vs); model[k].insert(vs.begin(), vs.end()); return true; }
        case 3: NOTE(c, what << " clear {" << k << "}\n"); m.clear(k); model.erase(k); return true;
        default: if (!c.flip(1, 4)) return false; NOTE(c, what << " clear\n"); m.clear(); model.clear(); return true;
    }
}
static void objects(Ctx& c)
{
    T::MetaData m[3]; Meta w[3]; size_t n = c.size(40); int merges = 0;
    for (size_t i = 0; i < n; ++i)
    {
        size_t a = c.draw(3); std::string what = "m" + std::to_string(a);
        if (!step(c, m[a], w[a], what)) { size_t b = c.draw(3); NOTE(c, what << " merge m" << b << "\n"); Meta from = w[b]; m[a].merge(m[b]); merge(w[a], from); ++merges; }
        for (int j = 0; j < 3; ++j) same(m[j], w[j], "m" + std::to_string(j));
    }
    if (merges && n > 4) c.nontrivial();
}
typedef std::pair<std::string, std::string> Spot;   // type name, field name or ""
typedef std::map<Spot, Meta> Model;
static T::MetaData& at(Reg& g, Spot const& s)
{
    T::Type const& t = *g.r.get(s.first); if (s.second.empty()) return t.getMetaData();
    return dynamic_cast<T::Compound const&>(t).getField(s.second)->getMetaData();
}
static std::vector<Spot> spots(T::Registry const& r)
{
    std::vector<Spot> v;
    for (T::RegistryIterator it = r.begin(); it != r.end(); ++it)
    {
        if (it.isAlias()) continue;
        v.push_back(Spot(it.getName(), ""));
        if (T::Compound const* t = dynamic_cast<T::Compound const*>(&*it)) for (auto const& f : t->getFields()) v.push_back(Spot(it.getName(), f.getName()));
    }
    return v;
}
static void mergeType(Reg& to, Model& mt, std::string const& a, Reg& from, Model& mf, std::string const& b)
{
    T::Type const &ta = *to.r.get(a), &tb = *from.r.get(b); Model src = mf;
    merge(mt[Spot(ta.getName(), "")], src[Spot(tb.getName(), "")]);
    T::Compound const *ca = dynamic_cast<T::Compound const*>(&ta), *cb = dynamic_cast<T::Compound const*>(&tb);
    if (!ca || !cb) return;
    for (auto const& f : ca->getFields()) if (cb->getField(f.getName())) merge(mt[Spot(ta.getName(), f.getName())], src[Spot(tb.getName(), f.getName())]);
}
static void all(Reg& g, Model const& m, char const* what)
{
    for (auto const& s : spots(g.r)) { auto it = m.find(s); std::string n = std::string(what) + " " + s.first + (s.second.empty() ? "" : "." + s.second); same(at(g, s), it == m.end() ? Meta() : it->second, n); T::MetaData::Values v = s.second.empty() ? g.r.get(s.first)->getMetaData("k1") : dynamic_cast<T::Compound const*>(g.r.get(s.first))->getField(s.second)->getMetaData("k1"); CHECK(v == at(g, s).get("k1"), n << ": getMetaData(key)"); }
}
static void registries(Ctx& c)
{
    Opts o; o.namespaces = true; o.pointers = o.opaques = true; o.max_depth = 2; Universe u(o); size_t n = 1 + c.draw(2); for (size_t i = 0; i < n; ++i) u.top(c);
    Reg g[2]; g[0].add(u.pool);
    std::vector<MT> other; bool variant = c.flip(1, 3);
    for (auto const& t : u.pool) if (c.flip(3, 4))
    {
        MT x = t;
        if (variant && t->k == COMPOUND && !t->fields.empty()) { x = MT(new MType(*t)); x->fields.erase(x->fields.begin() + c.draw(x->fields.size())); for (auto& f : x->fields) if (c.flip(1, 4)) f.name += "x"; }
        other.push_back(x);
    }
    g[1].add(other);
    static char const* al[] = {"/al", "/A1", "/C1x", "/al2"};
    for (int k = 0; k < 2; ++k) { n = g[k].m.g.empty() ? 0 : c.draw(3); for (size_t i = 0; i < n; ++i) { std::string b = g[k].anyName(c), a = al[c.draw(4)]; if (!g[k].m.has(a)) { g[k].alias(b, a); NOTE(c, "r" << k << " alias " << a << " of " << b << "\n"); } } }
    if (c.verbose) for (int k = 0; k < 2; ++k) NOTE(c, "r" << k << ":\n" << snapshot(g[k].r, false));
    Model m[2]; n = 1 + c.size(20); int merges = 0;
    for (size_t i = 0; i < n; ++i)
    {
        size_t k = c.draw(2), l = c.draw(2); std::string rk = "r" + std::to_string(k), rl = "r" + std::to_string(l);
        auto sp = spots(g[k].r); if (sp.empty()) continue; Spot s = c.pick(sp);
        switch (c.weighted({8, 2, 2, 2, 1, 1, 1}))
        {
            case 0: step(c, at(g[k], s), m[k][s], rk + " " + s.first + "." + s.second); break;
            case 1: {   // two types, through aliases too
                if (g[l].m.g.empty()) continue;
                std::string a = g[k].anyName(c), b = c.flip() && g[l].m.has(a) ? a : g[l].anyName(c); NOTE(c, rk << " " << a << " mergeMetaData " << rl << " " << b << "\n");
                mergeType(g[k], m[k], a, g[l], m[l], b); g[k].r.get(a)->mergeMetaData(*g[l].r.get(b)); ++merges; break; }
            case 2: {   // two fields
                Spot f; auto sl = spots(g[l].r); if (sl.empty()) continue; f = c.pick(sl); if (s.second.empty() || f.second.empty()) continue;
                NOTE(c, rk << " " << s.first << "." << s.second << " mergeMetaData " << rl << " " << f.first << "." << f.second << "\n");
                Meta from = m[l][f]; dynamic_cast<T::Compound const*>(g[k].r.get(s.first))->getField(s.second)->mergeMetaData(*dynamic_cast<T::Compound const*>(g[l].r.get(f.first))->getField(f.second)); merge(m[k][s], from); ++merges; break; }
            case 3: {
                NOTE(c, rk << ".mergeMetaData(" << rl << ")\n"); Model src = m[l];
                g[k].r.mergeMetaData(g[l].r); ++merges;
                for (auto const& x : g[l].m.g) if (g[k].m.has(x.first)) mergeType(g[k], m[k], x.first, g[l], src, x.first);
                break; }
            case 4: {
                if (k == l) continue;
                NOTE(c, rk << ".merge(" << rl << ")\n");
                try { g[k].r.merge(g[l].r); } catch (std::exception const& e) { NOTE(c, e.what() << "\n"); c.label("merge refused"); break; }
                g[k].m = RegModel(g[k].r); ++merges;
                for (auto const& x : g[l].m.g) if (g[k].m.has(x.first)) mergeType(g[k], m[k], x.first, g[l], m[l], x.first);
                break; }
            case 5: {   // a part of a registry keeps the metadata of what it keeps
                std::string a = g[k].anyName(c); NOTE(c, rk << ".minimal(" << a << ")\n");
                std::unique_ptr<T::Registry> r(g[k].r.minimal(a, c.flip())); 
                for (auto const& x : spots(*r)) { T::Type const& t = *r->get(x.first); T::MetaData const& got = x.second.empty() ? t.getMetaData() : dynamic_cast<T::Compound const&>(t).getField(x.second)->getMetaData(); same(got, m[k][x], "minimal " + x.first + "." + x.second); }
                break; }
            default: {   // a copy made by merging in an empty registry
                NOTE(c, rk << " copied\n"); T::Registry r; r.merge(g[k].r);
                for (auto const& x : spots(r)) { T::Type const& t = *r.get(x.first); T::MetaData const& got = x.second.empty() ? t.getMetaData() : dynamic_cast<T::Compound const&>(t).getField(x.second)->getMetaData(); same(got, m[k][x], "copied " + x.first + "." + x.second); }
                break; }
        }
        all(g[0], m[0], "r0"); all(g[1], m[1], "r1");
    }
    if (merges && n > 3) c.nontrivial();
}
Property pbt::the_property = { "C24",
    "histories of add, set, clear and merge on metadata objects, and on the types and fields of two overlapping registries (the second with fields missing or renamed now and then, both with aliases), with merges of types, fields and registries, compared after every step with maps of sets. Non-trivial: some merge among at least four operations",
    { {"objects", objects, 60000, 2000000}, {"registries", registries, 30000, 1000000} }, registerContainers };
