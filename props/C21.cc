// C21: malformed type descriptions are rejected cleanly.
#include "regpair.hh"
#include <typelib/pluginmanager.hh>
#include <typelib/importer.hh>
#include <typelib/utilmm/configset.hh>
#include <libxml/xmlerror.h>
#include <fstream>
#include <memory>
#include <unistd.h>

static Opts all(Ctx& c) { Opts o; o.pointers = true; o.opaques = true; o.namespaces = true; o.zero_dims = true; o.templates = c.flip(1, 3); o.max_depth = 2; return o; }
// ---- documents
struct El { std::string tag; std::vector<std::pair<std::string, std::string> > attrs; std::vector<El> kids; std::string raw; El(std::string const& t = "") : tag(t) {}
    El& a(std::string const& k, std::string const& v) { attrs.push_back(std::make_pair(k, v)); return *this; }
    std::string* find(std::string const& k) { for (auto& x : attrs) if (x.first == k) return &x.second; return 0; } };
static std::string esc(std::string const& s) { std::string o; for (char c : s) switch (c) { case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '&': o += "&amp;"; break; case '"': o += "&quot;"; break; default: o += c; } return o; }
static void render(El const& e, std::string& o, int ind = 0)
{
    o += std::string(ind, ' ') + "<" + e.tag; for (auto const& a : e.attrs) o += " " + a.first + "=\"" + esc(a.second) + "\"";
    if (e.kids.empty() && e.raw.empty()) { o += "/>\n"; return; }
    o += ">" + e.raw + "\n"; for (auto const& k : e.kids) render(k, o, ind + 2); o += std::string(ind, ' ') + "</" + e.tag + ">\n";
}
static std::string render(El const& root) { std::string o = "<?xml version=\"1.0\"?>\n"; render(root, o); return o; }
static bool elements(MT const& t, El& root)   // false for what has no element
{
    El e;
    switch (t->k)
    {
        case SINT: case UINT: case FLOAT: e = El("numeric").a("name", t->name).a("category", t->k == SINT ? "sint" : t->k == UINT ? "uint" : "float").a("size", std::to_string(t->size)); break;
        case NIL: e = El("null").a("name", t->name); break;
        case OPAQUE: e = El("opaque").a("name", t->name).a("size", std::to_string(t->size)); break;
        case ENUM: e = El("enum").a("name", t->name); for (auto const& s : t->syms) e.kids.push_back(El("value").a("symbol", s.first).a("value", std::to_string(s.second))); break;
        case COMPOUND: e = El("compound").a("name", t->name).a("size", std::to_string(t->size)); for (auto const& f : t->fields) e.kids.push_back(El("field").a("name", f.name).a("type", f.type->name).a("offset", std::to_string(f.off))); break;
        case VECTOR: case STRING: e = El("container").a("name", t->name).a("of", t->elem->name).a("kind", t->k == VECTOR ? "/std/vector" : "/std/string").a("size", std::to_string(t->size)); break;
        default: return false;
    }
    root.kids.push_back(e); return true;
}
static void shuffle(Ctx& c, std::vector<El>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[c.draw(i)]); }
struct Doc { Universe u; El root; std::vector<std::pair<std::string, std::string> > aliases; Doc(Ctx& c) : u(all(c)), root("typelib") {} };
static void generate(Ctx& c, Doc& d)
{
    size_t n = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) d.u.top(c);
    for (auto const& t : d.u.pool) if (t->k == COMPOUND) std::stable_sort(t->fields.begin(), t->fields.end(), [](MField const& a, MField const& b) { return a.off != b.off ? a.off < b.off : a.name < b.name; });
    for (auto const& t : d.u.pool) elements(t, d.root);
    static char const* al[] = {"/al", "/zz/al", "/A/al", "/ns/t</int32_t>/al"};
    n = c.draw(3);
    for (size_t i = 0; i < n; ++i)
    {
        std::string a = al[c.draw(4)], b = i && c.flip() ? d.aliases[0].first : d.u.pool[c.draw(d.u.pool.size())]->name; bool dup = false;
        for (auto const& x : d.aliases) dup = dup || x.first == a;
        if (dup) continue;
        d.aliases.push_back(std::make_pair(a, b)); d.root.kids.push_back(El("alias").a("name", a).a("source", b));
    }
    shuffle(c, d.root.kids);
}
static void harmless(Ctx& c, El& root)   // what an importer has to skip
{
    size_t n = c.draw(4);
    for (size_t i = 0; i < n; ++i)
    {
        El& e = root.kids[c.draw(root.kids.size())];
        switch (c.draw(6))
        {
            case 0: e.raw += "<!-- <numeric name=\"/x\"/> -->"; break;
            case 1: e.kids.insert(e.kids.begin() + c.draw(e.kids.size() + 1), El("unknown").a("name", "x")); break;
            case 2: if (!e.find("unknown")) e.a("unknown", "&<>\""); break;
            case 3: e.raw += "some text &amp; more"; break;
            case 4: if (e.tag == "container") { for (size_t k = 0; k < e.attrs.size(); ++k) if (e.attrs[k].first == "size") { e.attrs.erase(e.attrs.begin() + k); break; } } break;
            default: { El x("comment"); x.raw = "<whatever/>"; root.kids.insert(root.kids.begin() + c.draw(root.kids.size() + 1), x); return; }
        }
    }
}
// ---- loading
static std::string load(T::Registry& r, std::string const& doc, int how = 0)   // the error, empty when there is none
{
    T::PluginManager::self m; utilmm::config_set config; std::istringstream in(doc);
    try
    {
        if (how == 0) m->load("tlb", in, config, r);
        else { std::unique_ptr<T::Importer> i(m->importer("tlb")); i->load(in, config, r); }
    }
    catch(std::exception const& e) { return std::string("error ") + e.what(); }
    return "";
}
static void consistent(T::Registry const& r)
{
    closedOver(r, "the registry");
    for (T::RegistryIterator it = r.begin(); it != r.end(); ++it)
    {
        std::string n = it.getName();
        CHECK(T::isValidTypename(n, true), "the registry holds the invalid name " << n);
        CHECK(r.get(n) == &*it && r.has(n, false), n << " cannot be found");
        CHECK(r.get(it->getName()) == &*it, n << " refers to " << it->getName() << " which is another type");
        CHECK(it->isSame(*it), n << " is not itself");
    }
}
struct Held
{
    Reg g; std::map<std::string, std::string> l; std::map<std::string, T::Type const*> ids; std::string ns;
    void note() { l = lines(g.r); for (T::RegistryIterator it = g.r.begin(); it != g.r.end(); ++it) ids[it.getName()] = &*it; ns = g.r.getDefaultNamespace(); }
    void intact(char const* when)
    {
        auto now = lines(g.r);
        for (auto const& x : l) { CHECK(now.count(x.first), x.first << " is lost " << when); CHECK(now[x.first] == x.second, when << ":\n" << now[x.first] << "\nbefore:\n" << x.second); CHECK(g.r.get(x.first) == ids[x.first], x.first << " is another type " << when); }
        CHECK(g.r.getDefaultNamespace() == ns, "the namespace changed");
        consistent(g.r);
    }
};
static void hold(Ctx& c, Held& h, std::vector<MT> const& pool)
{
    std::vector<MT> sub; if (c.flip()) for (auto const& t : pool) if (c.flip(1, 4)) sub.push_back(t);
    h.g.add(sub);
    if (!h.g.m.g.empty()) decorate(c, h.g);
    h.note();
    if (c.verbose && !h.l.empty()) NOTE(c, "held:\n" << snapshot(h.g.r, false));
}
/** the registry has everything the document defines */
static void complete(Ctx& c, Held& h, Doc& d)
{
    for (auto const& t : d.u.pool)
    {
        if (t->k == ARRAY || t->k == POINTER) continue;   // only made when needed
        T::Type const* y = h.g.r.get(t->name); std::string why;
        CHECK(y, t->name << " is missing"); CHECK(y->getName() == t->name, t->name << " became an alias of " << y->getName());
        CHECK(describes(*t, *y, why), t->name << ": " << why);
    }
    std::map<std::string, std::string> to(d.aliases.begin(), d.aliases.end());
    for (auto const& a : d.aliases)
    {
        std::string b = a.second; while (to.count(b)) b = to[b];
        T::Type const* y = h.g.r.get(a.first); CHECK(y, "alias " << a.first << " is missing");
        CHECK(y->getName() == b, "alias " << a.first << " leads to " << y->getName() << " instead of " << b);
    }
}
static void shuffled(Ctx& c)
{
    Doc d(c); generate(c, d); Held h; hold(c, h, d.u.pool); harmless(c, d.root);
    std::string doc = render(d.root); NOTE(c, doc);
    std::string err = load(h.g.r, doc, c.draw(2));
    CHECK(err.empty(), "refused: " << err);
    h.intact("after loading"); complete(c, h, d);
    std::string s = snapshot(h.g.r); err = load(h.g.r, doc);
    CHECK(err.empty() && snapshot(h.g.r) == s, "loading it again changes the registry " << err);
    if (c.flip(1, 20)) pbt::no_leak("loading", [&] { T::Registry r; load(r, doc); });
    if (d.u.pool.size() > 3) c.nontrivial();
}
static El* anyOf(Ctx& c, El& root, std::string const& tag)
{
    std::vector<El*> v; for (auto& e : root.kids) { if (tag.empty() || e.tag == tag) v.push_back(&e); for (auto& k : e.kids) if (k.tag == tag) v.push_back(&k); }
    return v.empty() ? 0 : c.pick(v);
}
static std::string badNumber(Ctx& c) { static char const* b[] = {"", "x", "4x", "0x10", "1.5", " 4", "4 ", "-1", "1e3", "99999999999999999999999", "+", "--4"}; return b[c.draw(12)]; }
static void broken(Ctx& c)
{
    Doc d(c); generate(c, d); Held h;
    { Universe other; MT o(new MType); o->k = OPAQUE; o->name = "/held"; o->size = 8; other.intern(o); other.array(other.pointer(o), 3); h.g.add(other.pool); h.g.alias("/held", "/held_too"); h.note(); }
    std::string good = render(d.root), doc, what;
    El bad = d.root;
    static char const* fields[][2] = {{"compound", "size"}, {"compound", "name"}, {"numeric", "category"}, {"numeric", "size"}, {"numeric", "name"}, {"opaque", "size"}, {"enum", "name"}, {"value", "symbol"}, {"value", "value"},
        {"field", "name"}, {"field", "type"}, {"field", "offset"}, {"container", "of"}, {"container", "kind"}, {"container", "name"}, {"alias", "source"}, {"alias", "name"}, {"null", "name"}};
    switch (c.draw(12))
    {
        case 0: {
            auto f = fields[c.draw(18)]; what = std::string("no ") + f[1] + " in " + f[0]; El* e = anyOf(c, bad, f[0]); if (!e) return;
            for (size_t k = 0; k < e->attrs.size(); ++k) if (e->attrs[k].first == f[1]) { e->attrs.erase(e->attrs.begin() + k); break; }
            break;
        }
        case 1: {
            static char const* nums[][2] = {{"compound", "size"}, {"numeric", "size"}, {"opaque", "size"}, {"value", "value"}, {"field", "offset"}, {"container", "size"}};
            auto f = nums[c.draw(6)]; El* e = anyOf(c, bad, f[0]); if (!e) return;
            std::string b = badNumber(c); if (b == "-1" && std::string(f[1]) == "value") b = "x";
            *e->find(f[1]) = b; what = std::string("bad ") + f[1]; break;
        }
        case 2: { El* e = anyOf(c, bad, ""); static char const* t[] = {"numerics", "type", "field", "typelib", "NUMERIC", "structure"}; e->tag = t[c.draw(6)]; what = "unknown element"; break; }
        case 3: { static char const* refs[][2] = {{"field", "type"}, {"container", "of"}, {"alias", "source"}}; auto f = refs[c.draw(3)]; El* e = anyOf(c, bad, f[0]); if (!e) return; std::string* r = e->find(f[1]);
            static char const* no[] = {"/not/there", "/not/there[3]", "/not/there*", "", "*", "int32_t_", "[3]", "/not</there>"}; *r = no[c.draw(8)]; what = "dangling reference"; break; }
        case 4: { El* e = anyOf(c, bad, "compound"); if (!e) return; std::string n = *e->find("name"); static char const* sfx[] = {"", "*", "[2]"}; e->kids.push_back(El("field").a("name", "self").a("type", n + sfx[c.draw(3)]).a("offset", "0")); what = "compound in itself"; break; }
        case 5: { size_t n = 2 + c.draw(3); for (size_t i = 0; i < n; ++i) { El x = c.flip() ? El("alias").a("name", "/cy" + std::to_string(i)).a("source", "/cy" + std::to_string((i + 1) % n)) : El("compound").a("name", "/cy" + std::to_string(i)).a("size", "8"); if (x.tag == "compound") x.kids.push_back(El("field").a("name", "f").a("type", "/cy" + std::to_string((i + 1) % n)).a("offset", "0")); bad.kids.insert(bad.kids.begin() + c.draw(bad.kids.size() + 1), x); } what = "cycle"; break; }
        case 6: { El* e = anyOf(c, bad, "numeric"); if (!e) return; static char const* t[] = {"int", "", "SINT", "sint ", "null"}; *e->find("category") = t[c.draw(5)]; what = "bad category"; break; }
        case 7: { El* e = anyOf(c, bad, "container"); if (!e) return; static char const* t[] = {"/std/list", "", "vector", "/std/vector<"}; *e->find("kind") = t[c.draw(4)]; what = "bad kind"; break; }
        case 8: { static char const* tags[] = {"numeric", "compound", "opaque", "enum", "null", "alias"}; El* e = anyOf(c, bad, tags[c.draw(6)]); if (!e) return; static char const* t[] = {"", "relative", "/a!", "/a//b", "/a/", "/a<", "/a<b>", "/a[]", "/a]", "/a[x]", "/\xc3\xa9"}; *e->find("name") = t[c.draw(11)]; what = "bad name"; break; }
        case 9: { El* e = anyOf(c, bad, "enum"); if (!e || e->kids.empty()) return; El x = e->kids[c.draw(e->kids.size())]; *x.find("value") = *x.find("value") == "7" ? "8" : "7"; e->kids.push_back(x); what = "symbol redefined"; break; }
        case 10: { static char const* t[] = {"Typelib", "registry", "typelib2"}; bad.tag = t[c.draw(3)]; what = "bad root"; break; }
        default: {
            doc = good; what = "bad XML";
            size_t body = doc.find("<typelib>");
            switch (c.draw(4)) { case 0: doc.resize(c.draw(doc.size() - 1)); break; case 1: { size_t p = doc.rfind("</typelib>"); doc.insert(p, c.flip() ? "<open>" : "</shut>"); break; } case 2: { size_t p = body + 1 + c.draw(doc.size() - body - 10); size_t q = doc.find('"', p); if (q == std::string::npos) return; doc.insert(q, "<"); break; } default: doc += "<more/>"; }
        }
    }
    if (doc.empty() && what != "bad XML") doc = render(bad);
    NOTE(c, what << "\n" << doc); c.label(what);
    if (what == "bad XML" && doc.size() >= good.size() - 1 && doc.compare(0, good.size() - 1, good, 0, good.size() - 1) == 0 && doc.find("<more/>") == std::string::npos) return;
    std::string err = load(h.g.r, doc, c.draw(2));
    NOTE(c, err << "\n");
    CHECK(!err.empty(), "accepted with " << what);
    h.intact("after a refused document");
    if (c.flip(1, 8)) pbt::no_leak("a document refused for " + what, [&] { T::Registry r; load(r, doc); });
    err = load(h.g.r, good);
    CHECK(err.empty(), "the document cannot be loaded any more after a refused one: " << err);
    h.intact("after loading"); complete(c, h, d);
    c.nontrivial();
}
static void mutated(Ctx& c)
{
    Doc d(c); generate(c, d); Held h; hold(c, h, d.u.pool); if (c.flip(1, 3)) harmless(c, d.root);
    std::string doc = render(d.root); size_t n = 1 + c.size(12);
    static char const* tokens[] = {"<", ">", "/", "\"", "=", "&", "&amp;", "&#0;", "]]>", "<![CDATA[", "<!--", "-->", "<?", "?>", "<!DOCTYPE typelib [<!ENTITY e \"x\">]>", "&e;", "name", "size", " ", "[3]", "*", "[", "]", "0", "-1", "4294967296", "18446744073709551615", "99999999999999999999", "/std/vector", "/std/vector</int32_t>", "\xff", "alias", "<metadata key=\"a\"/>", "<metadata/>", "</typelib>"};
    for (size_t i = 0; i < n && !doc.empty(); ++i)
    {
        size_t p = c.draw(doc.size()), q = std::min(doc.size(), p + c.size(40));
        switch (c.draw(7))
        {
            case 0: doc.erase(p, q - p); break;
            case 1: doc[p] = (char)c.draw(256); break;
            case 2: doc.insert(p, tokens[c.draw(sizeof tokens / sizeof *tokens)]); break;
            case 3: doc.insert(c.draw(doc.size() + 1), doc.substr(p, q - p)); break;
            case 4: { std::string s = doc.substr(p, q - p); doc.erase(p, q - p); doc.insert(c.draw(doc.size() + 1), s); break; }
            default: {   // replace the value of an attribute by another one
                std::vector<std::pair<size_t, size_t> > v; for (size_t a = 0; (a = doc.find("=\"", a)) != std::string::npos;) { size_t b = doc.find('"', a + 2); if (b == std::string::npos) break; v.push_back(std::make_pair(a + 2, b - a - 2)); a = b + 1; }
                if (v.empty()) break; auto x = c.pick(v), y = c.pick(v); std::string s = c.flip(1, 4) ? tokens[c.draw(sizeof tokens / sizeof *tokens)] : doc.substr(y.first, y.second); if (c.flip(1, 4)) s += tokens[18 + c.draw(5)]; doc.replace(x.first, x.second, s);
            }
        }
    }
    NOTE(c, doc);
    std::string err = load(h.g.r, doc, c.draw(2));
    NOTE(c, (err.empty() ? "loaded" : err) << "\n");
    h.intact("after loading");
    if (c.flip(1, 20)) pbt::no_leak("loading a mutated document", [&] { T::Registry r; load(r, doc); });
    c.label(err.empty() ? "accepted" : err.find("malformed XML") != std::string::npos ? "bad XML" : "refused");
    if (err.find("malformed XML") == std::string::npos) c.nontrivial();
}
static void anything(Ctx& c)
{
    static char const* tokens[] = {"<", ">", "<?xml version=\"1.0\"?>", "<typelib>", "</typelib>", "<numeric", " name=\"/a\"", " size=\"4\"", " category=\"sint\"", "/>", "<compound", "<field", "</compound>", " type=\"/a\"", " of=\"/a\"", " kind=\"/std/vector\"", " offset=\"0\"", "<container", "<alias", " source=\"/a\"", " name=\"/b\"", "<enum", "<value", "</enum>", "<null", "<opaque", "\n", "<!--", "-->", "&lt;", "<![CDATA[", "]]>", " name=\"\""};
    std::string doc; size_t n = c.size(40);
    if (c.flip()) doc = "<typelib>";
    for (size_t i = 0; i < n; ++i) if (c.flip(1, 10)) doc += (char)c.draw(256); else doc += tokens[c.draw(sizeof tokens / sizeof *tokens)];
    if (c.flip()) doc += "</typelib>";
    NOTE(c, doc << "\n");
    T::Registry r; std::string err = load(r, doc, c.draw(2)); consistent(r);
    if (!err.empty() && c.flip(1, 10)) CHECK(r.size() == 0 || doc.find("name") != std::string::npos, "types out of nothing");
    c.label(err.empty() ? "accepted" : "refused"); if (err.find("malformed XML") == std::string::npos) c.nontrivial();
}
static void files(Ctx& c)
{
    Doc d(c); generate(c, d); std::string doc = render(d.root);
    char path[] = "/tmp/typelib-C21-XXXXXX"; int fd = mkstemp(path); CHECK(fd >= 0, "no temporary file");
    struct Rm { char const* p; ~Rm() { unlink(p); } } rm = {path};
    size_t cut = c.flip() ? doc.size() : c.draw(doc.size()); if (write(fd, doc.data(), cut) < 0) {} close(fd);
    NOTE(c, "first " << cut << " bytes of\n" << doc);
    T::PluginManager::self m; utilmm::config_set config; T::Registry a, b; std::string e1, e2 = load(b, doc.substr(0, cut));
    try { m->load("tlb", path, config, a); } catch(std::exception const& e) { e1 = e.what(); }
    CHECK(e1.empty() == e2.empty(), "from a file: '" << e1 << "' and from memory: '" << e2 << "'");
    CHECK(lines(a) == lines(b) || !e1.empty(), "loading from a file differs from loading from memory"); consistent(a);
    bool thrown = false; try { m->load("tlb", std::string(path) + ".no", config, a); } catch(std::exception const&) { thrown = true; }
    CHECK(thrown, "a file that is not there was loaded");
    thrown = false; try { m->load("nolang", path, config, a); } catch(std::exception const&) { thrown = true; }
    CHECK(thrown, "an unknown language was loaded");
    if (cut == doc.size()) c.nontrivial();
}
static void quietXml(void*, char const*, ...) {}
static void prepare() { registerContainers(); xmlSetGenericErrorFunc(0, quietXml); std::clog.rdbuf(0); }
Property pbt::the_property = { "C21",
    "documents made from random universes, elements in any order, with things to be skipped; the same with one fault of 12 kinds, which must be refused; byte, token and attribute mutations; random tokens; files. After each load: what the registry held is untouched, it is consistent, nothing leaks, and after a refusal the correct document still loads. Non-trivial: documents that get past the XML parser",
    { {"shuffled", shuffled, 20000, 1000000}, {"broken", broken, 40000, 2000000}, {"mutated", mutated, 40000, 3000000}, {"anything", anything, 40000, 2000000}, {"files", files, 4000, 100000} }, prepare };
