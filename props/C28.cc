// C28: compounds and enums keep exactly what was declared.
#include "regpair.hh"
#include <memory>
#include <climits>

static std::string fieldName(Ctx& c) { static char const* n[] = {"a", "b", "ab", "_a", "A", "a_very_long_field_name", ""}; if (c.flip(1, 6)) return std::string(10 + c.draw(3) * 120, 'l') + (char)('a' + c.draw(3)); return n[c.draw(7)]; }
struct F { std::string name; T::Type const* type; size_t off; Meta meta; };
static void compounds(Ctx& c)
{
    Opts o; o.pointers = o.opaques = true; o.max_depth = 2; o.zero_dims = true; Universe u(o); size_t n = 1 + c.draw(2); for (size_t i = 0; i < n; ++i) u.top(c);
    Reg g; g.add(u.pool); std::vector<T::Type const*> types; for (auto const& t : u.pool) types.push_back(&g.type(t->name));
    std::unique_ptr<T::Compound> t(new T::Compound("/X")); std::list<F> model; size_t size = 0; bool owned = true; n = 1 + c.size(30); size_t dups = 0;
    struct Keep { std::unique_ptr<T::Compound>& t; bool& owned; ~Keep() { if (!owned) t.release(); } } keep = {t, owned};
    for (size_t i = 0; i < n; ++i)
    {
        size_t end = 0; for (auto const& f : model) end = std::max(end, f.off + f.type->getSize());
        switch (c.weighted({6, 3, 2, 2, 1}))
        {
            case 0: case 1: {
                F f; f.name = c.flip(3, 4) ? "f" + std::to_string(i) : fieldName(c); f.type = c.pick(types); size_t sz = f.type->getSize();
                f.off = c.weighted({4, 2, 2}); f.off = f.off == 0 ? end : f.off == 1 ? end + c.draw(17) : c.draw(end + 1);
                for (auto const& x : model) dups += x.name == f.name;
                T::Field const* got;
                if (c.flip()) got = &t->addField(f.name, *f.type, f.off);
                else { T::Field proto(f.name, *f.type); CHECK(proto.getOffset() == 0, "offset of a new field"); if (c.flip()) { proto.getMetaData().add("k", "v"); f.meta["k"].insert("v"); } got = &t->addField(proto, f.off); proto.getMetaData().add("after", "x"); }
                NOTE(c, "field '" << f.name << "' " << f.type->getName() << " at " << f.off << "\n");
                model.push_back(f); size = std::max(size, f.off + sz); CHECK(got == &t->getFields().back(), "addField() returns another field"); break; }
            case 2: { size_t s = std::max(size, end) + c.draw(20); if (c.flip()) s = end + c.draw(8); NOTE(c, "size " << s << "\n"); t->setSize(s); size = s; break; }
            case 3: NOTE(c, "normalize\n"); t->normalizeFieldOrder(); model.sort([](F const& a, F const& b) { return a.off != b.off ? a.off < b.off : a.name < b.name; }); break;
            default: {   // metadata of a field, which moves with it
                if (model.empty()) break; size_t k = c.draw(model.size()); auto m = model.begin(); std::advance(m, k); auto f = t->getFields().begin(); std::advance(f, k); std::string v = std::to_string(i); NOTE(c, "metadata " << k << "\n"); f->getMetaData().add("m", v); m->meta["m"].insert(v); }
        }
        end = 0; std::set<T::Type const*> deps; for (auto const& f : model) { end = std::max(end, f.off + f.type->getSize()); deps.insert(f.type); }
        CHECK(t->getName() == "/X" && t->getCategory() == T::Type::Compound, "the compound itself changed");
        CHECK(t->getSize() == size, "the size is " << t->getSize() << " instead of " << size);
        CHECK(t->getTrailingPadding() == size - end, "the trailing padding is " << t->getTrailingPadding() << " instead of " << size - end);
        CHECK(t->dependsOn() == deps, "dependsOn()");
        CHECK(t->getFields().size() == model.size(), t->getFields().size() << " fields instead of " << model.size());
        auto f = t->getFields().begin(); std::set<std::string> seen; size_t k = 0;
        for (auto const& w : model)
        {
            CHECK(f->getName() == w.name && &f->getType() == w.type && f->getOffset() == w.off, "field " << k << " is '" << f->getName() << "' " << f->getType().getName() << " at " << f->getOffset() << " instead of '" << w.name << "' " << w.type->getName() << " at " << w.off);
            CHECK(metaOf(f->getMetaData()) == w.meta, "metadata of field " << k);
            if (seen.insert(w.name).second) CHECK(t->getField(w.name) == &*f, "getField(" << w.name << ")");
            ++f; ++k;
        }
        static char const* absent[] = {"none", "f", "f99", "a ", "B"}; for (auto x : absent) if (!seen.count(x)) CHECK(t->getField(x) == 0, "getField(" << x << ") finds something"); if (!seen.count("")) CHECK(!t->getField(""), "getField() finds a field without a name");
        // a field equals another by name, offset and type
        if (model.size() > 1 && c.flip(1, 4)) { auto a = t->getFields().begin(), b = a; ++b; CHECK((*a == *b) == (a->getName() == b->getName() && a->getOffset() == b->getOffset() && a->getType().isSame(b->getType())), "comparison of fields"); CHECK(*a == *a, "comparison of a field with itself"); }
    }
    // as a type of a registry, and through it
    if (c.flip() && !g.m.has("/X"))
    {
        std::string snap; { std::ostringstream s; for (auto const& f : t->getFields()) s << f.getName() << "@" << f.getOffset() << " "; snap = s.str(); }
        g.r.add(t.get()); owned = false; T::Compound const* x = dynamic_cast<T::Compound const*>(g.r.get("/X")); CHECK(x == t.get() && x->getSize() == size, "the registered compound");
        T::Registry r2; if (!dups) { r2.merge(g.r); T::Compound const* y = dynamic_cast<T::Compound const*>(r2.get("/X")); std::ostringstream s; for (auto const& f : y->getFields()) s << f.getName() << "@" << f.getOffset() << " "; CHECK(s.str() == snap && y->getSize() == size, "the merged compound is " << s.str()); CHECK(x->isSame(*y) && x->canCastTo(*y), "the merged compound is another"); }
    }
    if (model.size() > 2) c.nontrivial();
}
static void enums(Ctx& c)
{
    int first = (int)c.weighted({6, 1, 1, 1, 1}); static int const inits[] = {0, 1, -5, 1000000, INT_MIN + 1}; int init = inits[first];
    std::unique_ptr<T::Enum> e(c.flip() || init ? new T::Enum("/E", init) : new T::Enum("/E")); std::map<std::string, int> model; int next = init; size_t n = c.size(30), refused = 0;
    NOTE(c, "initial value " << init << "\n");
    for (size_t i = 0; i < n; ++i)
    {
        CHECK(e->getNextValue() == next, "the next value is " << e->getNextValue() << " instead of " << next);
        std::string name = c.flip(2, 3) ? "S" + std::to_string(c.draw(12)) : fieldName(c); int v;
        switch (c.weighted({4, 2, 2, 1})) { case 0: v = e->getNextValue(); break; case 1: v = (int)c.draw(8); break; case 2: v = -(int)c.draw(1000); break; default: v = c.flip() ? INT_MIN : INT_MAX - 1; }
        auto it = model.find(name); bool bad = it != model.end() && it->second != v, threw = false; std::string what;
        NOTE(c, "'" << name << "' = " << v << "\n");
        try { e->add(name, v); } catch (T::Enum::AlreadyExists const& x) { threw = true; what = x.what(); }
        CHECK(threw == bad, (threw ? "refused: " + what : "redefinition of '" + name + "' is not refused")); if (!bad) { model[name] = v; next = v + 1; } else ++refused;
        CHECK(e->getNextValue() == next, "the next value is " << e->getNextValue() << " instead of " << next);
        CHECK(e->values() == model, "the values are others"); std::list<std::string> names = e->names(); CHECK(std::set<std::string>(names.begin(), names.end()).size() == model.size() && names.size() == model.size(), "names()");
        for (auto const& x : names) CHECK(model.count(x), "names() has '" << x << "'");
        std::set<int> values; for (auto const& x : model) { values.insert(x.second); CHECK(e->get(x.first) == x.second, "get(" << x.first << ")"); std::string back = e->get(x.second); CHECK(model.count(back) && model[back] == x.second, "get(" << x.second << ") is '" << back << "'"); }
        for (int q : {v - 1, v + 1, 0, 7, -1, INT_MAX, INT_MIN}) if (!values.count(q)) { bool none = false; try { e->get(q); } catch (T::Enum::ValueNotFound const&) { none = true; } CHECK(none, "get(" << q << ") finds something"); }
        for (auto q : {"none", "S", "S99", "s1"}) if (!model.count(q)) { bool none = false; try { e->get(std::string(q)); } catch (T::Enum::SymbolNotFound const&) { none = true; } CHECK(none, "get(" << q << ") finds something"); }
        CHECK(e->getSize() == sizeof(int) && e->getCategory() == T::Type::Enum && e->dependsOn().empty() && e->getName() == "/E", "the enum itself changed");
    }
    T::Registry r; T::Enum* p = e.release(); r.add(p); CHECK(r.get("/E") == p && p->values() == model, "registered"); T::Registry r2; r2.merge(r); T::Enum const* q = dynamic_cast<T::Enum const*>(r2.get("/E")); CHECK(q && q->values() == model && q->getNextValue() == next, "merged");
    if (model.size() > 2) c.nontrivial();
}
Property pbt::the_property = { "C28",
    "histories of fields added with names, types and offsets (gaps, overlaps and repeated names included), sizes set and fields sorted, and of symbols added to enums (redefinitions included), compared after each step with lists and maps. Non-trivial: more than two fields or symbols",
    { {"compounds", compounds, 60000, 2000000}, {"enums", enums, 60000, 2000000} }, registerContainers };
