// C29: what is printed about types, registries and layouts says exactly what they hold.
#include "regpair.hh"
#include <typelib/typedisplay.hh>
#include <typelib/memory_layout.hh>
#include <typelib/value_ops.hh>

typedef std::vector<std::string> Tok;
static Tok tokens(std::string s)
{
    for (size_t i; (i = s.find("->")) != std::string::npos;) s.replace(i, 2, "  ");
    for (size_t i = 0; (i = s.find("FLAG_", i)) != std::string::npos; i += 6) s.insert(i, " ");   // the index may touch it
    for (char& c : s) if (std::string("()[]{};:,+|").find(c) != std::string::npos) c = ' ';
    Tok r; std::istringstream in(s); std::string w;
    while (in >> w) if (w != "of" && w != "on" && w != "is" && w != "an" && w != "for") r.push_back(w);
    return r;
}
static std::string join(Tok const& t, size_t from = 0) { std::string s; for (size_t i = from; i < t.size(); ++i) s += t[i] + " "; return s; }
static std::string num(long long v) { return std::to_string(v); }
// what has to be said about a type, in this order
static void describe(MType const& t, std::string& o)
{
    switch (t.k)
    {
        case SINT: case UINT: case FLOAT: o += std::string(t.k == SINT ? "sint " : t.k == UINT ? "uint " : "float ") + num(t.size) + " " + t.name + " "; break;
        case ENUM: { o += "enum " + t.name + " "; std::map<std::string, int> m(t.syms.begin(), t.syms.end()); for (auto const& s : m) o += s.first + " " + num(s.second) + " "; break; }
        case NIL: o += "null "; break;
        case OPAQUE: o += "opaque " + t.name + " "; break;
        case POINTER: o += "pointer " + t.elem->name + " "; break;
        case ARRAY: o += "array " + num(t.dim) + " "; describe(*t.elem, o); break;
        case VECTOR: o += "container /std/vector<" + t.elem->name + "> "; break;
        case STRING: o += "container /std/string<" + t.elem->name + "> "; break;
        case COMPOUND:
            o += "compound " + t.name + " " + num(t.size) + " ";
            for (auto const& f : t.fields) { o += num(f.off) + " "; describe(*f.type, o); o += f.name + " "; }
    }
}
static Tok expected(MType const& t) { std::string s; describe(t, s); return tokens(s); }
static Opts all(Ctx& c) { Opts o; o.pointers = o.opaques = true; o.namespaces = true; o.zero_dims = true; o.templates = c.flip(); o.recursive = true; o.max_depth = 3; return o; }
static void types(Ctx& c)
{
    Universe u(all(c)); size_t n = 1 + c.draw(2); for (size_t i = 0; i < n; ++i) u.top(c);
    Reg g; g.add(u.pool); std::string before = snapshot(g.r);
    for (auto const& t : u.pool)
    {
        T::Type const& type = g.type(t->name); std::ostringstream o; std::string indent(c.draw(5), ' ');
        T::TypeDisplayVisitor v(o, indent); v.apply(type);
        std::ostringstream o2, o3, o4; o2 << T::type_display(type, indent); o3 << type; o4 << T::type_display(type);
        CHECK(o2.str() == o.str(), "streaming the type gives something else: " << o2.str());
        CHECK(o3.str() == o4.str() && tokens(o3.str()) == tokens(o.str()), "streaming the type without indentation gives something else: " << o3.str());
        Tok got = tokens(o.str()), want = expected(*t);
        CHECK(got == want, type.getName() << " is displayed as\n" << o.str() << "\nthat is " << join(got) << "\ninstead of " << join(want));
        size_t length = o.str().size(); v.apply(type);
        CHECK(o.str().size() == 2 * length && o.str().substr(length) == o.str().substr(0, length), "displaying a type a second time gives something else: " << o.str());
        if (t->k == COMPOUND && t->fields.size() > 1) c.nontrivial();
    }
    CHECK(snapshot(g.r) == before, "displaying changed the registry");
}
static void dump(Ctx& c)
{
    Universe u(all(c)); size_t n = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) u.top(c);
    Reg g; g.add(u.pool); decorate(c, g);
    static char const* al[] = {"/al", "/zz/al", "/ns/al", "/A/al", "/ns/t</int32_t>/al", "/a"};
    n = c.draw(4);
    for (size_t i = 0; i < n; ++i) { std::string a = al[c.draw(6)], b = g.anyName(c); if (!g.m.has(a)) { g.alias(b, a, c.flip(1, 3) ? "src0" : ""); NOTE(c, "alias " << a << " of " << b << "\n"); } }
    static char const* sources[] = {"*", "", "src0", "src1", "src2", "src", "none"};
    static int const modes[] = {T::Registry::AllType, T::Registry::AllType | T::Registry::WithSourceId, T::Registry::NameOnly, T::Registry::WithSourceId, T::Registry::AllType | T::Registry::RecursiveTypeDump};
    std::string before = snapshot(g.r);
    for (int k = 0; k < 4; ++k)
    {
        std::string filter = sources[c.draw(7)]; int mode = modes[c.draw(5)];
        std::ostringstream o;
        if (mode == T::Registry::AllType && filter == "*" && c.flip()) g.r.dump(o); else g.r.dump(o, mode, filter);
        std::string s = o.str(); size_t eol = s.find('\n'); CHECK(eol != std::string::npos, "there is no header line: " << s);
        std::string header = s.substr(0, eol);
        if (!filter.empty() && filter != "*") CHECK(header.find(filter) != std::string::npos, "the header does not tell the source: " << header);
        std::vector<std::pair<std::string, std::string> > rows; std::string want; size_t shown = 0, hidden = 0;
        for (auto const& e : g.m.g)
        {
            if (!e.second.persistent || (filter != "*" && filter != e.second.source)) { ++hidden; continue; }
            ++shown;
            if (mode & T::Registry::WithSourceId) want += e.second.source + " ";
            bool alias = e.second.type->getName() != e.first;
            if (!(mode & T::Registry::AllType)) rows.push_back(std::make_pair(e.second.source, alias ? "" : e.first));   // the name given for an alias is left open
            else if (alias) want += e.first + " alias " + e.second.type->getName() + " ";
            else describe(*g.defs.at(e.first), want);
        }
        if (!(mode & T::Registry::AllType))
        {
            std::istringstream in(s.substr(eol + 1)); std::string l;
            for (auto const& w : rows)
            {
                CHECK(std::getline(in, l), w.second << " is not listed");
                bool source = !(mode & T::Registry::WithSourceId) || w.first.empty() || l.compare(0, w.first.size() + 1, w.first + "\t") == 0;
                bool name = w.second.empty() ? g.m.has(l.substr(l.rfind('\t') + 1)) : l.size() > w.second.size() && l.substr(l.size() - w.second.size() - 1) == "\t" + w.second;
                CHECK(source && name, "'" << l << "' listed for " << w.second << " of " << w.first);
            }
            CHECK(!std::getline(in, l), "'" << l << "' should not be listed");
            if (shown && hidden) c.nontrivial();
            continue;
        }
        Tok got = tokens(s.substr(eol + 1)), w = tokens(want);
        bool same = got.size() == w.size();
        for (size_t i = 0; same && i < w.size(); ++i) same = got[i] == w[i];
        CHECK(same, "mode " << mode << ", source '" << filter << "': dumped as\n" << s << "\nthat is " << join(got) << "\ninstead of " << join(w));
        if (shown && hidden) c.nontrivial();
        c.label(filter == "*" ? "all sources" : filter == "" ? "no source" : "one source");
    }
    CHECK(snapshot(g.r) == before, "dumping changed the registry");
}
static std::string word(size_t v, bool hex = false) { std::ostringstream o; if (hex) o << "0x" << std::hex; o << v; return o.str(); }
static void layouts(Ctx& c)
{
    Opts o = all(c); o.recursive = false; Universe u(o); MT t = u.top(c); Reg g; g.add(u.pool); T::Type const& type = g.type(t->name);
    NOTE(c, str(t) << "\n");
    T::MemoryLayout l;
    bool merge = c.flip(), trailing = c.flip();
    try { l = T::layout_of(type, true, true, merge, trailing); } catch (T::NoLayout&) { c.label("no layout"); return; } catch (T::NullTypeFound&) { c.label("null type"); return; }
    std::string ops, init, plain; size_t depth = 0;
    for (size_t i = 0; i < l.ops.size(); ++i)
    {
        std::string at = word(i) + " ", x;
        switch (l.ops[i])
        {
            case T::MemLayout::FLAG_MEMCPY: x = "MEMCPY " + word(l.ops[++i]); break;
            case T::MemLayout::FLAG_SKIP: x = "SKIP " + word(l.ops[++i]); break;
            case T::MemLayout::FLAG_ARRAY: x = "ARRAY " + word(l.ops[++i]); ++depth; break;
            case T::MemLayout::FLAG_CONTAINER: x = "CONTAINER " + reinterpret_cast<T::Container const*>(l.ops[++i])->getName(); ++depth; break;
            case T::MemLayout::FLAG_END: x = "END"; --depth; break;
            default: FAILCASE("unknown operation " << l.ops[i]);
        }
        ops += at + "FLAG_" + x + " "; plain += x + " ";
    }
    for (size_t i = 0; i < l.init_ops.size(); ++i)
        switch (l.init_ops[i])
        {
            case T::MemLayout::FLAG_INIT_SKIP: init += "FLAG_INIT_SKIP " + word(l.init_ops[++i]) + " "; break;
            case T::MemLayout::FLAG_INIT: { size_t n = l.init_ops[++i]; init += "FLAG_INIT " + word(n) + " "; for (size_t k = 0; k < n; ++k) init += word(l.init_ops[++i], true) + " "; break; }
            case T::MemLayout::FLAG_INIT_REPEAT: init += "FLAG_INIT_REPEAT " + word(l.init_ops[++i]) + " "; break;
            case T::MemLayout::FLAG_INIT_CONTAINER: init += "FLAG_INIT_CONTAINER " + reinterpret_cast<T::Container const*>(l.init_ops[++i])->getName() + " "; break;
            case T::MemLayout::FLAG_INIT_END: init += "FLAG_INIT_END "; break;
            default: FAILCASE("unknown initialisation operation " << l.init_ops[i]);
        }
    std::ostringstream a, b; l.display(a); T::display(b, l.begin(), l.end());
    CHECK(tokens(a.str()) == tokens(ops + init), "the layout is displayed as\n" << a.str() << "\ninstead of " << ops << init);
    std::string s = b.str(); size_t eol = s.find('\n'); CHECK(eol != std::string::npos, "there is no header line: " << s);
    CHECK(s.substr(0, eol).find(word(l.size())) != std::string::npos, "the header does not tell the size: " << s);
    CHECK(tokens(s.substr(eol + 1)) == tokens(plain), "the operations are displayed as\n" << s << "\ninstead of " << plain);
    if (l.ops.size() > 6) c.nontrivial();
}
Property pbt::the_property = { "C29",
    "random type universes (recursive through pointers, templates, odd numerics, null types, unions) with aliases and sources; layouts of random types. Non-trivial: a compound of several fields; a source filter that hides something and shows something; a layout of more than 6 words",
    { {"types", types, 30000, 1000000}, {"dump", dump, 20000, 600000}, {"layouts", layouts, 30000, 1000000} }, registerContainers };
