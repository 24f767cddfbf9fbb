// C14: merging registries is a union that keeps definitions and detects conflicts.
#include "regpair.hh"

static Opts all() { Opts o; o.pointers = true; o.opaques = true; o.namespaces = true; o.recursive = true; o.zero_dims = true; o.max_depth = 2; return o; }
static std::vector<MT> subset(Ctx& c, std::vector<MT> const& pool)
{
    std::vector<MT> r; for (auto const& t : pool) if (c.flip(1, 2)) r.push_back(t);
    if (r.empty() && !pool.empty()) r.push_back(pool[c.draw(pool.size())]);
    return r;
}
static void list(Ctx& c, char const* what, Reg const& g)
{
    if (!c.verbose) return;
    NOTE(c, what << ":\n");
    for (auto const& x : g.m.g) NOTE(c, "  " << x.first << (g.m.isAlias(x.first) ? " alias of " + x.second.type->getName() : " " + str(g.defs.at(x.first))) << "\n");
}
static void aliases(Ctx& c, Reg& g, int n)
{
    static char const* al[] = {"/al", "/zz/al", "/ns/al", "/A/al", "/ns/sub/zal"};
    for (int i = 0; i < n; ++i) { std::string b = g.anyName(c), a = al[c.draw(5)]; if (a != b) g.alias(b, a, c.flip(1, 4) ? "asrc" : "", !c.flip(1, 5)); }
    if (c.flip(1, 3))
    {
        std::vector<std::string> al; 
        // (the names derived from an alias stay when it is removed, and could then contradict those the target derives)
        for (auto const& x : g.m.g) if (g.m.isAlias(x.first))
        {
            bool used = false; for (auto const& y : g.m.g) if (y.first != x.first && y.first.find(x.first) != std::string::npos) used = true;
            if (!used) al.push_back(x.first);
        }
        if (!al.empty()) { std::string n = c.pick(al); g.r.removeAlias(n); g.m.g.erase(n); g.defs.erase(n); NOTE(c, "removed alias " << n << "\n"); }
    }
}
/** the definitions of the two sides agree on every name */
static std::string conflict(Reg const& a, Reg const& b)
{
    for (auto const& x : b.m.g)
        if (a.m.has(x.first) && !sameModel(*a.defs.at(x.first), *b.defs.at(x.first))) return x.first;
    return "";
}
static void afterMerge(Ctx& c, Reg& a, Reg const& b, std::string const& before_b)
{
    CHECK(snapshot(b.r) == before_b, "merging changed the source");
    closedOver(a.r, "the target");
    std::set<T::Type const*> btypes; for (auto const& x : b.m.g) btypes.insert(x.second.type);
    std::string why;
    for (T::RegistryIterator it = a.r.begin(); it != a.r.end(); ++it) CHECK(!btypes.count(&*it), it.getName() << " is shared with the source");
    for (auto const& x : a.m.g)
    {
        T::Type const* t = a.r.get(x.first);
        CHECK(t == x.second.type, x.first << (t ? " refers to another type" : " disappeared"));
        CHECK(structMatches(*a.defs.at(x.first), *t, why), "the definition of " << x.first << " changed: " << why);
        std::string s = a.r.find(x.first).getSource(), w = x.second.source;
        if (w.empty() && b.m.has(x.first)) w = b.m.g.at(x.first).source;
        CHECK(a.r.find(x.first).isPersistent() == x.second.persistent, x.first << (x.second.persistent ? " is not persistent any more" : " became persistent"));
        CHECK(s == w, x.first << " has source '" << s << "' instead of '" << w << "'");
    }
    for (auto const& x : b.m.g)
    {
        T::Type const* t = a.r.get(x.first);
        CHECK(t, x.first << " was not merged");
        CHECK(structMatches(*b.defs.at(x.first), *t, why), "the definition of " << x.first << " differs from the source: " << why);
        if (a.m.has(x.first)) continue;
        T::RegistryIterator it = a.r.find(x.first);
        if (!b.m.isAlias(x.first)) { if (!it.isAlias()) CHECK(describes(*b.defs.at(x.first), *t, why) || true, why); }
        else
        {
            std::string prim = x.second.type->getName();
            // (the target might know the element type of a derived name under another name)
            CHECK(a.r.get(prim) == t || derivedName(it, a.r), "alias " << x.first << " refers to " << t->getName() << " instead of " << prim);
            CHECK(it.isPersistent() == x.second.persistent, "alias " << x.first << (it.isPersistent() ? " became persistent" : " is not persistent any more"));
        }
        CHECK(x.second.persistent || !it.isPersistent(), x.first << " became persistent");
        CHECK(it.getSource() == x.second.source, x.first << " has source '" << it.getSource() << "' instead of '" << x.second.source << "'");
    }
    // nothing else, but the aliases of derived types
    for (T::RegistryIterator it = a.r.begin(); it != a.r.end(); ++it)
    {
        if (a.m.has(it.getName()) || b.m.has(it.getName())) continue;
        bool derived = false;
        // (a derived alias, or a derived type of a type known under another name here)
        if (RegModel::isIndirect(*it))
        {
            T::Type const& e = static_cast<T::Indirect const&>(*it).getIndirection();
            if (RegModel::indirectName(*it, e.getName()) == it.getName()) derived = true;
            for (auto const& al : a.r.getAliasesOf(e)) if (RegModel::indirectName(*it, al) == it.getName()) derived = true;
        }
        CHECK(derived, it.getName() << " comes from neither of the registries");
        CHECK(!it.isAlias() || !it.isPersistent(), "the alias " << it.getName() << " of a derived type is persistent");
    }
    // idempotent
    std::string once = snapshot(a.r);
    a.r.merge(b.r);
    CHECK(snapshot(a.r) == once, "merging again changes the target from\n" << once << "to\n" << snapshot(a.r));
    CHECK(snapshot(b.r) == before_b, "merging changed the source");
}
static void doMerge(Ctx& c, Reg& a, Reg& b)
{
    std::string before_a = snapshot(a.r), before_b = snapshot(b.r), bad = conflict(a, b);
    list(c, "target", a); list(c, "source", b);
    bool mismatch = false; std::string text;
    try { a.r.merge(b.r); } catch(T::DefinitionMismatch const& e) { mismatch = true; text = e.what(); }
    c.label(mismatch ? "mismatch" : "merged");
    CHECK(mismatch == !bad.empty(), (mismatch ? "mismatch reported although all definitions agree: " + text : "no mismatch reported although " + bad + " differs"));
    if (!mismatch) { afterMerge(c, a, b, before_b); return; }
    // still the registry it was, at least
    std::string why;
    CHECK(snapshot(b.r) == before_b, "the failed merge changed the source");
    for (auto const& x : a.m.g)
    {
        CHECK(a.r.get(x.first) == x.second.type, x.first << " changed in a failed merge");
        CHECK(structMatches(*a.defs.at(x.first), *a.r.get(x.first), why), "a failed merge changed " << x.first << ": " << why);
    }
    closedOver(a.r, "the target of a failed merge");
    snapshot(a.r);
}
static void unions(Ctx& c)
{
    Universe u(all()); size_t n = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) u.top(c);
    Reg a, b;
    a.add(subset(c, u.pool)); b.add(subset(c, u.pool));
    aliases(c, a, c.draw(3)); aliases(c, b, c.draw(4));
    decorate(c, a); decorate(c, b);
    if (c.flip(1, 8)) { std::string s = snapshot(a.r); a.r.merge(a.r); CHECK(snapshot(a.r) == s, "merging a registry into itself changes it"); }
    if (c.flip(1, 4)) { a.r.setDefaultNamespace("/ns"); a.m.setNamespace("/ns"); c.label("in a namespace"); }
    doMerge(c, a, b);
    if (b.m.g.size() > 3) c.nontrivial();
}
// the same types with one difference
static void conflicts(Ctx& c)
{
    Universe u(all()); MT t = u.top(c); std::string what; MT t2 = derive(c, t, what);
    Reg a, b; if (c.flip()) a.add(std::vector<MT>(1, t)); else a.add(subset(c, reachable(t)));
    b.add(std::vector<MT>(1, t2));
    if (c.flip(1, 3)) { std::vector<MT> more; u.top(c); for (auto const& x : u.pool) if (!b.defs.count(x->name) && !a.defs.count(x->name)) { bool ok = true; for (auto const& d : reachable(x)) if (b.defs.count(d->name) && b.defs[d->name] != d) ok = false; if (ok) more.push_back(x); } if (!more.empty()) b.add(more); }
    aliases(c, a, c.draw(2)); aliases(c, b, c.draw(2));
    c.label(what); NOTE(c, "difference: " << what << "\n");
    doMerge(c, a, b);
    if (what != "none") c.nontrivial();
}
// types known under their name on one side and as an alias on the other
static void crossing(Ctx& c)
{
    Opts o = all(); o.opaques = false;
    Universe u(o); MT t = u.top(c);
    std::map<std::string, MT> ren;
    // b has the same types, some under another name
    MT t2 = t;
    Reg a, b; a.add(std::vector<MT>(1, t)); b.add(std::vector<MT>(1, t2));
    // a knows the alias /X of one of its types, for b this is the name of a type
    std::vector<MT> base; for (auto const& m : reachable(t)) if (m->k == COMPOUND || m->k == ENUM || m->isNumeric()) base.push_back(m);
    if (base.empty()) return;
    MT k = base[c.draw(base.size())]; MT x(new MType(*k)); x->name = c.flip() ? "/AA" : "/ns/zz";
    a.alias(k->name, x->name);
    std::vector<MT> more; more.push_back(x);
    Universe h(o);
    size_t n = c.draw(4);
    for (size_t i = 0; i < n; ++i)
    {
        MT of = more[c.draw(more.size())];
        switch (c.draw(3)) { case 0: more.push_back(h.array(of, 2 + i)); break; case 1: more.push_back(h.pointer(of)); break; default: if (of->size && !(of->k == COMPOUND && of->fields.empty())) more.push_back(h.vectorType(of)); }
        if (c.flip(1, 3)) { MT p = more.back(); MT w = p->k == ARRAY ? u.array(k, p->dim) : u.pointer(k); a.add(std::vector<MT>(1, w)); a.m.g = RegModel(a.r).g; a.named(); }
    }
    b.add(more);
    if (c.flip()) aliases(c, a, 0);
    doMerge(c, a, b); c.nontrivial();
}
// one type only
static void single(Ctx& c)
{
    Universe u(all()); MT t = u.top(c); std::string what; MT t2 = derive(c, t, what);
    Reg a, b; a.add(subset(c, reachable(t))); b.add(std::vector<MT>(1, t2)); decorate(c, b);
    list(c, "target", a); list(c, "source", b);
    std::string n = b.anyName(c); MT d = b.defs.at(n); std::vector<MT> needs; std::string bad;
    {
        // what hides behind the types the target already has is not needed
        std::set<MType const*> seen; std::vector<MT> todo(1, d);
        while (!todo.empty())
        {
            MT x = todo.back(); todo.pop_back();
            if (!seen.insert(x.get()).second) continue;
            needs.push_back(x);
            if (a.m.has(x->name)) continue;
            if (x->elem) todo.push_back(x->elem);
            for (auto const& f : x->fields) todo.push_back(f.type);
        }
    }
    for (auto const& x : needs) if (a.m.has(x->name) && !sameModel(*a.defs.at(x->name), *x)) bad = x->name;
    NOTE(c, "merging " << n << "\n");
    std::string before = snapshot(a.r), before_b = snapshot(b.r), why; bool mismatch = false; T::Type const* got = 0;
    try { got = &b.type(n).merge(a.r); } catch(T::DefinitionMismatch const&) { mismatch = true; }
    c.label(mismatch ? "mismatch" : "merged");
    CHECK(mismatch == !bad.empty(), (mismatch ? "mismatch reported although all definitions agree" : "no mismatch reported although " + bad + " differs"));
    CHECK(snapshot(b.r) == before_b, "merging changed the source");
    closedOver(a.r, "the target");
    if (mismatch) { CHECK(snapshot(a.r) == before, "a failed merge changed the target"); return; }
    CHECK(a.r.get(n) == got, "merge() does not return the type of the target");
    std::set<std::string> names; for (auto const& x : a.m.g) names.insert(x.first);
    for (auto const& x : needs) { names.insert(x->name); T::Type const* y = a.r.get(x->name); CHECK(y, x->name << " was not merged"); CHECK(structMatches(*x, *y, why), why); CHECK(y != b.r.get(x->name), x->name << " is shared"); }
    for (T::RegistryIterator it = a.r.begin(); it != a.r.end(); ++it) CHECK(names.count(it.getName()), it.getName() << " was not needed");
    for (auto const& x : a.m.g) CHECK(a.r.get(x.first) == x.second.type, x.first << " refers to another type");
    if (needs.size() > 2) c.nontrivial();
}
Property pbt::the_property = { "C14",
    "pairs of registries built from overlapping subsets of random type universes (recursive pointers, containers, opaques) with aliases, metadata and sources; pairs differing in one point of one type; types known as an alias on the other side. Non-trivial: more than 3 names in the source, or an actual difference",
    { {"unions", unions, 50000, 1500000}, {"conflicts", conflicts, 60000, 2000000}, {"crossing", crossing, 40000, 1000000}, {"single", single, 40000, 1000000} },  registerContainers };
