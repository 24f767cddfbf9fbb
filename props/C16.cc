// C16: resizing types propagates consistently to everything built on them.
#include "regpair.hh"

typedef std::map<std::string, size_t> Sizes;
struct Resizer   // the same types with other sizes
{
    Sizes const& s; std::map<MType const*, MT> done;
    std::vector<MT> pointers;
    Resizer(Sizes const& s) : s(s) {}
    MT operator()(MT const& t)
    {
        MT r = byValue(t);
        while (!pointers.empty()) { MT p = pointers.back(); pointers.pop_back(); p->elem = byValue(p->elem); }
        return r;
    }
    MT byValue(MT const& t)
    {
        auto it = done.find(t.get()); if (it != done.end()) return it->second;
        MT r(new MType(*t)); done[t.get()] = r;
        if (r->k == POINTER) { pointers.push_back(r); return r; }   // what it points to does not change its size
        if (r->elem) r->elem = byValue(r->elem);
        for (auto& f : r->fields) f.type = byValue(f.type);
        // by value only, so there is no recursion through r
        if (r->k == ARRAY) r->size = r->dim * r->elem->size;
        if (r->k == COMPOUND)
        {
            std::vector<size_t> order; for (size_t i = 0; i < r->fields.size(); ++i) order.push_back(i);
            std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return t->fields[a].off < t->fields[b].off; });
            size_t shift = 0;
            for (size_t i : order) { r->fields[i].off += shift; shift += r->fields[i].type->size - t->fields[i].type->size; }
            r->size += shift;
        }
        auto n = s.find(t->name); if (n != s.end()) r->size = n->second;
        return r;
    }
};
static bool contains(MType const& t, std::set<MType const*> const& what, std::set<MType const*>& seen)
{
    if (what.count(&t)) return true;
    if (!seen.insert(&t).second || t.k == POINTER) return false;
    if (t.elem && contains(*t.elem, what, seen)) return true;
    for (auto const& f : t.fields) if (contains(*f.type, what, seen)) return true;
    return false;
}
static void resize(Ctx& c, bool use)
{
    Opts o; o.max_depth = 3; o.zero_dims = true;
    if (!use) { o.pointers = o.opaques = o.recursive = o.namespaces = true; }
    Universe u(o); MT top = u.top(c); if (c.flip()) u.top(c);
    if (!use) for (auto const& t : u.pool) if (t->fields.size() > 1 && c.flip(1, 4)) for (size_t i = t->fields.size() - 1; i > 0; --i) std::swap(t->fields[i], t->fields[c.draw(i + 1)]);
    bool strings = false; for (auto const& t : u.pool) strings |= t->k == STRING;
    // what to resize
    Sizes sizes; std::set<MType const*> listed;
    std::vector<MT> cand;
    for (auto const& t : u.pool)
        if ((t->isNumeric() && !(strings && t->name == "/int8_t")) || (!use && t->k == OPAQUE) || t->k == COMPOUND) cand.push_back(t);
    if (cand.empty()) return;
    size_t n = 1 + c.draw(3); bool same = false;
    for (size_t i = 0; i < n; ++i)
    {
        MT t = c.pick(cand); size_t s = t->size;
        if (t->k == COMPOUND) continue;
        if (c.flip(1, 8)) same = true;
        else if (!use) s += c.flip() ? 1 + c.draw(40) : t->size;
        else if (t->k == FLOAT) s = 8;
        else { size_t k = 1 + c.draw(3); while (k-- && s < 8) s *= 2; }
        sizes[t->name] = s; listed.insert(t.get());
    }
    // compounds are asked for at least what they need
    for (int k = 0; k < 2; ++k)
        if (c.flip(1, 3))
        {
            MT t = c.pick(cand); if (t->k != COMPOUND || listed.count(t.get())) continue;
            MT g = Resizer(sizes)(t);
            sizes[t->name] = g->size + 1 + c.draw(24); listed.insert(t.get());
            if (g->size != t->size) c.label("resized and listed");
            // those that were listed before might hold this one
            for (auto& x : sizes) for (auto const& p : u.pool) if (p->name == x.first && p->k == COMPOUND && p != t) { Sizes rest(sizes); rest.erase(p->name); MT q = Resizer(rest)(p); if (x.second <= q->size) x.second = q->size + 1; }
        }
    if (sizes.empty()) return;
    Reg g; g.add(u.pool);
    static char const* al[] = {"/al", "/zal"};
    Sizes asked;
    for (auto const& x : sizes) { std::string k = x.first; if (c.flip(1, 6) && g.alias(k, al[asked.size() % 2])) k = al[asked.size() % 2]; asked[k] = x.second; }
    if (c.verbose) for (auto const& t : u.pool) NOTE(c, str(t) << "\n");
    for (auto const& x : asked) NOTE(c, "resize " << x.first << " to " << x.second << "\n");
    std::string before = snapshot(g.r);
    if (c.flip(1, 8))
    {
        Sizes bad(asked); bad["/not/there"] = 4; bool thrown = false;
        try { g.r.resize(bad); } catch(std::exception const&) { thrown = true; }
        CHECK(thrown, "an unknown type was accepted");
        CHECK(snapshot(g.r) == before, "a refused resize changed the registry");
        c.label("unknown name");
    }
    std::map<T::Type const*, Meta> ids; for (auto const& x : g.m.g) ids[x.second.type];
    g.r.resize(asked);
    Resizer rs(sizes); std::vector<MT> now; std::string why;
    size_t changed = 0;
    for (auto const& t : u.pool)
    {
        MT w = rs(t); now.push_back(w);
        T::Type const* y = g.r.get(t->name);
        CHECK(y == g.m.g.at(t->name).type, t->name << " is another type");
        CHECK(structMatches(*w, *y, why), "wrong definition: " << why);
        CHECK(describes(*w, *y, why), "wrong definition: " << why);
        if (w->size != t->size) ++changed;
    }
    // as if it had been built like this
    Reg ref; ref.add(now); for (auto const& x : asked) if (!sizes.count(x.first)) ref.alias(g.type(x.first).getName(), x.first);
    CHECK(snapshot(g.r, false) == snapshot(ref.r, false), "the registry differs from the one built with these sizes:\n" << snapshot(g.r, false) << "instead of\n" << snapshot(ref.r, false));
    c.label(same ? "some unchanged" : "all larger");
    if (changed > sizes.size()) c.nontrivial();
    if (!use) return;
    // use the types
    MT w = rs(top); T::Type const& type = *g.r.get(w->name);
    if (!w->size) return;
    for (int k = 0; k < 2; ++k)
    {
        Budget b(80); MVal v = value(c, *w, b), v2 = value(c, *w, b);
        NOTE(c, "value " << str(*w, v) << "\n");
        Enc e = encode(*w, v);
        no_leak("use", [&]() {
            Native a(w, v, 1), d(w, v2, 2);
            CHECK(T::compare(a.v(type), d.v(type)) == (v == v2), "compare");
            std::vector<uint8_t> out; T::dump(a.v(type), out);
            std::string y; CHECK(matches(e, out, y), "dump: " << y);
            T::copy(d.v(type), a.v(type)); MVal got = d.get();
            CHECK(got == v, "copied " << str(*w, got));
            Native l(w, v2, 3); T::load(l.v(type), out); got = l.get();
            CHECK(got == v, "loaded " << str(*w, got));
            // grow the containers of the value
            if (w->k == VECTOR)
            {
                T::Container const& ct = static_cast<T::Container const&>(type);
                size_t n0 = v.kids.size();
                if (!w->elem->size) return;
                for (size_t i = 0; i < n0 && i < 6; ++i) { Native el(w->elem, v.kids[i], 5); ct.push(d.p, el.v(ct.getIndirection())); }
                got = d.get(); MVal want = v; for (size_t i = 0; i < n0 && i < 6; ++i) want.kids.push_back(v.kids[i]);
                CHECK(got == want, "after pushes: " << str(*w, got));
            }
        });
    }
}
Property pbt::the_property = { "C16",
    "random type universes (fields in any order, gaps, recursive pointers, containers) and maps of larger sizes for numerics, opaques and compounds, given by name or alias; definitions compared with an independent computation and with a registry built from it, values used through the resized types. Non-trivial: types other than the listed ones change",
    { {"structure", [](Ctx& c) { resize(c, false); }, 60000, 2000000}, {"use", [](Ctx& c) { resize(c, true); }, 30000, 1000000} }, registerContainers };
