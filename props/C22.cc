// C22: IDL export.
#include "regpair.hh"
#include <typelib/pluginmanager.hh>
#include <typelib/exporter.hh>
#include <typelib/utilmm/configset.hh>
#include <lang/idl/export.hh>
#include <memory>

// ---- the options, and what each type becomes in IDL
typedef std::vector<std::string> Path;
struct Conf { std::string prefix, suffix; int blob; bool any; std::set<std::string> selected; Conf() : blob(0), any(false) {} };
struct Unsup { std::string what; };
static std::string strip(std::string s) { if (!s.empty() && s[0] == '_') s.erase(0, 1); return s; }
static std::string ident(std::string s) { for (char& ch : s) if (!isalnum((unsigned char)ch)) ch = '_'; return strip(s); }
static Path split(std::string const& s) { Path p; std::string cur; for (char ch : s + "/") if (ch == '/') { if (!cur.empty()) p.push_back(cur); cur.clear(); } else cur += ch; return p; }
static std::string join(Path const& p) { std::string s; for (auto const& x : p) s += "::" + x; return s; }
static std::string nsOf(std::string const& n) { return T::getNamespace(n); }
static std::string baseOf(std::string const& n) { return T::getTypename(n); }
struct Idl
{
    Conf const& k;
    Idl(Conf const& k) : k(k) {}
    Path module(std::string const& ns) const { Path p; for (auto const& x : split(k.prefix + "/" + ns + "/" + k.suffix)) p.push_back(ident(x)); return p; }
    /** the module a type is declared in; false for what needs no declaration */
    bool place(MType const& t, std::string& ns) const
    {
        switch (t.k)
        {
            case COMPOUND: case ENUM: ns = nsOf(t.name); return true;
            case VECTOR: if (!place(*t.elem, ns)) ns = "/"; return true;
            case ARRAY: return place(*t.elem, ns);
            default: return false;
        }
    }
    Path path(MType const& t) const
    {
        std::string ns; place(t, ns); Path p = module(ns); std::string n = baseOf(t.name);
        if (t.k == VECTOR) { n = "vector_" + t.elem->name + "_"; }
        p.push_back(ident(n)); return p;
    }
    std::string ref(MType const& t) const
    {
        switch (t.k)
        {
            case NIL: throw Unsup{t.name};
            case POINTER: throw Unsup{t.name};
            case ARRAY: throw Unsup{t.name};
            case OPAQUE: if (k.any) return "any"; throw Unsup{t.name};
            case STRING: return "string";
            case FLOAT: if (t.name == "/bool") return "boolean"; return t.size == 4 ? "float" : "double";
            case SINT: case UINT: {
                if (t.name == "/bool") return "boolean";
                std::string u = t.k == UINT && t.size != 1 ? "unsigned " : "";
                switch (t.size) { case 1: return "octet"; case 2: return u + "short"; case 4: return u + "long"; case 8: return u + "long long"; default: throw Unsup{t.name}; }
            }
            case VECTOR: ref(*t.elem); return join(path(t));
            default: return join(path(t));
        }
    }
    std::string member(MType const& t, std::string const& name) const
    {
        if (t.k == ARRAY) return ref(*t.elem) + " " + name + "[" + std::to_string(t.dim) + "]";
        return ref(t) + " " + name;
    }
    bool blob(MType const& t) const { return k.blob && (t.k == COMPOUND || t.k == ENUM) && (int)t.size > k.blob; }
    /** the declaration of a type, empty if it needs none */
    std::string decl(MType const& t) const
    {
        std::ostringstream o;
        switch (t.k)
        {
            case OPAQUE: case NIL: ref(t); return "";
            case ENUM: if (blob(t)) return "typedef sequence<octet> " + path(t).back(); { std::set<std::string> s; for (auto const& x : t.syms) s.insert(strip(x.first)); o << "enum " << path(t).back() << " {"; for (auto const& x : s) o << " " << x; return o.str() + " }"; }
            case VECTOR: return "typedef sequence<" + ref(*t.elem) + "> " + path(t).back();
            case COMPOUND:
                if (blob(t)) return "typedef sequence<octet> " + path(t).back();
                o << "struct " << path(t).back() << " {"; for (auto const& f : t.fields) o << " " << member(*f.type, strip(f.name)) << ";"; return o.str() + " }";
            default: return "";
        }
    }
    std::string aliasDecl(MType const& t, std::string const& n) const
    {
        std::string b = baseOf(n);
        if (t.k == POINTER) throw Unsup{n};
        if (t.k == ARRAY && (t.elem->k == ARRAY || t.elem->k == POINTER)) throw Unsup{n};
        if (b.find_first_of("<>/") != std::string::npos) return "";
        if (t.k == VECTOR) return "typedef sequence<" + ref(*t.elem) + "> " + strip(b);
        if (t.k == OPAQUE) return k.any ? "typedef any " + strip(b) : "";
        if (b.find(' ') != std::string::npos && t.k != ARRAY) return "";
        return "typedef " + member(t, strip(b));
    }
};

// ---- a parser of the part of IDL in use, which checks the scopes as it goes
struct Parser
{
    std::vector<std::string> tok; size_t at;
    std::vector<std::pair<std::string, std::string> > decls;   // path, text
    std::set<std::string> declared; std::set<std::string> modules; bool closed;
    Parser(std::string const& s, bool closed) : at(0), closed(closed)
    {
        for (size_t i = 0; i < s.size();)
        {
            if (isspace((unsigned char)s[i])) { ++i; continue; }
            size_t j = i;
            if (s[i] == ':') { CHECK(s.substr(i, 2) == "::", "stray ':'"); j = i + 2; }
            else if (isalnum((unsigned char)s[i]) || s[i] == '_') while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_')) ++j;
            else { CHECK(std::string("{};<>[],").find(s[i]) != std::string::npos, "not IDL: '" << s[i] << "' in line " << std::count(s.begin(), s.begin() + i, '\n') + 1); j = i + 1; }
            tok.push_back(s.substr(i, j - i)); i = j;
        }
        while (at < tok.size()) definition(Path());
    }
    std::string peek() const { return at < tok.size() ? tok[at] : ""; }
    std::string next() { CHECK(at < tok.size(), "unexpected end of the IDL text"); return tok[at++]; }
    void expect(std::string const& s) { std::string t = next(); CHECK(t == s, "'" << t << "' instead of '" << s << "' in the IDL text, after " << (at > 3 ? tok[at - 4] + " " + tok[at - 3] + " " + tok[at - 2] : "the start")); }
    std::string identifier()
    {
        static std::set<std::string> kw = {"any", "boolean", "double", "enum", "float", "long", "module", "octet", "sequence", "short", "string", "struct", "typedef", "unsigned"};
        std::string t = next(); CHECK(isalpha((unsigned char)t[0]) && !kw.count(t), "'" << t << "' is not an IDL identifier"); return t;
    }
    void declare(Path const& scope, std::string const& n, std::string const& text)
    {
        Path p(scope); p.push_back(n); std::string s = join(p);
        CHECK(declared.insert(s).second, s << " is declared twice"); CHECK(!modules.count(s), s << " is also a module"); decls.push_back(std::make_pair(s, text));
    }
    std::string type()
    {
        std::string t = next();
        if (t == "unsigned") { t = next(); if (t == "long" && peek() == "long") t += " " + next(); CHECK(t == "short" || t == "long" || t == "long long", "unsigned " << t); return "unsigned " + t; }
        if (t == "long") { if (peek() == "long") return t + " " + next(); return t; }
        if (t == "short" || t == "octet" || t == "float" || t == "double" || t == "boolean" || t == "string" || t == "any") return t;
        if (t == "sequence") { expect("<"); std::string e = type(); expect(">"); return "sequence<" + e + ">"; }
        CHECK(t == "::", "'" << t << "' is not a type");
        std::string p = "::" + identifier(); while (peek() == "::") { next(); p += "::" + identifier(); }
        CHECK(!closed || declared.count(p), p << " is used before it is declared");
        return p;
    }
    std::string declarator(std::string& name) { std::string t = type(); name = identifier(); t += " " + name; if (peek() == "[") { next(); t += "[" + next() + "]"; expect("]"); } return t; }
    void definition(Path const& scope)
    {
        std::string k = next();
        if (k == "module")
        {
            Path p(scope); p.push_back(identifier()); CHECK(!declared.count(join(p)), join(p) << " is also a type"); modules.insert(join(p)); expect("{");
            CHECK(peek() != "}", "the module " << join(p) << " is empty");
            while (peek() != "}") definition(p);
            next(); expect(";"); return;
        }
        std::string n;
        if (k == "struct")
        {
            n = identifier(); std::string text = "struct " + n + " {"; expect("{"); std::set<std::string> names;
            while (peek() != "}") { std::string f, d = declarator(f); CHECK(names.insert(f).second, "member " << f << " is there twice"); text += " " + d + ";"; expect(";"); }
            next(); expect(";"); declare(scope, n, text + " }");
        }
        else if (k == "enum")
        {
            n = identifier(); expect("{"); std::set<std::string> s;
            while (peek() != "}") { if (!s.empty()) expect(","); std::string x = identifier(); CHECK(s.insert(x).second, "symbol " << x << " is there twice"); }
            next(); expect(";"); std::string text = "enum " + n + " {"; for (auto const& x : s) text += " " + x; declare(scope, n, text + " }");
        }
        else { CHECK(k == "typedef", "'" << k << "' instead of a definition"); std::string text = declarator(n); expect(";"); declare(scope, n, "typedef " + text); }
    }
};

static void makeTypes(Ctx& c, Reg& g)
{
    Opts o; o.namespaces = true; o.pointers = c.flip(1, 6); o.opaques = c.flip(1, 3); o.templates = c.flip(1, 6); o.zero_dims = false; o.max_depth = 2;
    Universe u(o);
    u.namer = [](Ctx& c, char const* prefix, int n) {
        static char const* ns[] = {"/", "/ns/", "/ns/sub/", "/other/", "/_u/v/", "/ns_b/", "/ns/sub/_d/"};
        std::string s = prefix + std::to_string(n);
        if (c.flip(1, 8)) s = "_" + s;
        static char const* args[] = {"</int32_t,3>", "</ns/q>", "<-5>", "</a b>", "</int32_t[3]>", "</q*>"};
        if (prefix[0] == 'C' && c.flip(1, 8)) s += args[c.draw(6)];
        return ns[c.draw(7)] + s;
    };
    size_t n = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) u.top(c);
    if (c.flip(1, 6)) { MT b(new MType); b->k = (Kind)c.draw(2); b->size = b->align = 1; b->name = "/bool"; u.intern(b); MT s(new MType); s->k = COMPOUND; s->name = u.freshName(c, "C"); s->size = 8; s->fields.push_back(MField{"flag", b, 0}); s->fields.push_back(MField{"rest", u.numeric(c), 8}); s->size = 32; u.intern(s); }
    for (auto const& t : u.pool)
    {
        for (auto& f : t->fields) if (c.flip(1, 8)) f.name = (c.flip() ? "_" : "f_") + f.name;
        for (auto& x : t->syms) if (c.flip(1, 8)) x.first = "_" + x.first;
    }
    g.add(u.pool);
    n = c.draw(4);
    for (size_t i = 0; i < n; ++i)
    {
        static char const* ns[] = {"/", "/ns/", "/zz/", "/ns/sub/", "/_u/v/"};
        std::string b = g.anyName(c), a; MT t = g.defs.count(b) ? g.defs[b] : MT(); if (!t) continue;
        Conf k0; Idl plain(k0);
        switch (c.weighted({6, 1, 1, 1, 2}))
        {
            case 0: a = ns[c.draw(5)] + std::string(c.flip(1, 6) ? "_" : "") + "al" + std::to_string(i); break;
            case 1: a = nsOf(t->name) + (t->k == ENUM ? "enum " : "struct ") + baseOf(t->name); if (!t->isLeaf() && t->k != COMPOUND) continue; if (baseOf(t->name).find('<') != std::string::npos) continue; break;
            case 2: a = ns[c.draw(5)] + std::string("al") + std::to_string(i) + "</ns/q>"; break;
            case 3: a = ns[c.draw(5)] + std::string("my al") + std::to_string(i); if (!t->isNumeric()) continue; break;
            default: {   // the name that the exporter gives to a container
                std::string d = g.anyName(c); MT v = g.defs.count(d) ? g.defs[d] : MT(); if (!v || v->k != VECTOR) continue;
                std::string p; plain.place(*v, p); a = p + plain.path(*v).back(); if (c.flip()) { b = v->name; t = v; } c.label("alias named as a container"); break; }
        }
        if (a != b && g.alias(b, a)) NOTE(c, "alias " << a << " of " << b << "\n");
    }
}
static utilmm::config_set* config(Conf const& k)
{
    utilmm::config_set* s = new utilmm::config_set;
    if (!k.prefix.empty()) s->set("namespace_prefix", k.prefix);
    if (!k.suffix.empty()) s->set("namespace_suffix", k.suffix);
    if (k.blob) s->set("blob_threshold", std::to_string(k.blob));
    if (k.any) s->set("opaque_as_any", "true");
    for (auto const& x : k.selected) s->insert("selected", x);
    return s;
}
static Conf conf(Ctx& c, Reg& g)
{
    Conf k; static char const* px[] = {"Pre", "/Pre", "/Pre/In", "Pre/In/", "_Pre"}; static char const* sx[] = {"Corba", "Corba/", "Corba/Suf", "_Suf/"};
    if (c.flip(1, 4)) k.prefix = px[c.draw(5)];
    if (c.flip(1, 4)) k.suffix = sx[c.draw(4)];
    if (c.flip(1, 5)) k.blob = 1 + c.draw(100);
    k.any = c.flip();
    if (c.flip(1, 5)) { size_t n = 1 + c.draw(5); for (size_t i = 0; i < n; ++i) k.selected.insert(g.anyName(c)); }
    NOTE(c, "prefix '" << k.prefix << "' suffix '" << k.suffix << "' blob " << k.blob << (k.any ? " any" : "")); for (auto const& s : k.selected) NOTE(c, " selected " << s); NOTE(c, "\n");
    return k;
}
static bool save(T::Exporter& e, T::Registry const& r, Conf const& k, std::string& out, std::string& err)
{
    std::unique_ptr<utilmm::config_set> s(config(k)); std::ostringstream o;
    try { e.save(o, *s, r); } catch (std::exception const& x) { err = x.what(); return false; }
    out = o.str(); return true;
}
// what should come out: path -> text; or a refusal
static void expected(Reg& g, Conf const& k, std::map<std::string, std::string>& decls)
{
    Idl m(k); auto want = [&](std::string const& n) { return k.selected.empty() || k.selected.count(n); };
    std::map<std::string, MT> seqs;
    for (auto const& x : g.m.g) if (x.second.persistent && !g.m.isAlias(x.first) && want(x.second.type->getName()))
    {
        MType const& t = *g.defs.at(x.first); std::string d = m.decl(t); if (d.empty()) continue;
        std::string p = join(m.path(t)); if (decls.count(p)) throw pbt::Fail{"the generator made two declarations of " + p};
        decls[p] = d; if (t.k == VECTOR) seqs[p] = g.defs.at(x.first);
    }
    for (auto const& x : g.m.g) if (x.second.persistent && g.m.isAlias(x.first) && want(x.second.type->getName()))
    {
        MType const& t = *g.defs.at(x.first); std::string tn = t.name, b = baseOf(x.first);
        if (nsOf(tn) == nsOf(x.first) && (b == "struct " + baseOf(tn) || b == "enum " + baseOf(tn))) continue;
        Path p = m.module(nsOf(x.first)); p.push_back(strip(b)); std::string s = join(p);
        auto q = seqs.find(s);
        std::string d = m.aliasDecl(t, x.first);
        if (q != seqs.end()) { if (!gen::sameModel(*q->second, t)) throw Unsup{"reserved " + x.first}; continue; }
        if (!d.empty()) decls[s] = d;
    }
}
static void compare(std::string const& text, std::map<std::string, std::string> const& want, bool closed)
{
    Parser p(text, closed); std::map<std::string, std::string> got(p.decls.begin(), p.decls.end());
    for (auto const& w : want) { CHECK(got.count(w.first), w.first << " is not declared; should be\n" << w.second); CHECK(got[w.first] == w.second, w.first << " is declared as\n" << got[w.first] << "\ninstead of\n" << w.second); }
    for (auto const& x : got) CHECK(want.count(x.first), x.first << " is declared as " << x.second);
}
static void exporting(Ctx& c)
{
    Reg g; makeTypes(c, g);
    if (c.verbose) NOTE(c, snapshot(g.r, false));
    std::unique_ptr<T::Exporter> e; { T::PluginManager::self m; e.reset(m->exporter("idl")); }
    std::string before = snapshot(g.r);
    size_t n = 1 + c.draw(3);   // several exports by the same exporter
    for (size_t i = 0; i < n; ++i)
    {
        Conf k = conf(c, g); std::map<std::string, std::string> want; bool ok = true; std::string why, text, err;
        try { expected(g, k, want); } catch (Unsup const& u) { ok = false; why = u.what; }
        bool saved = save(*e, g.r, k, text, err);
        NOTE(c, (saved ? text : "refused: " + err) << "\n");
        CHECK(snapshot(g.r) == before, "exporting changed the registry");
        if (!ok) { CHECK(!saved, "not refused although IDL has no equivalent of " << why); c.label("refused"); continue; }
        CHECK(saved, "refused: " << err);
        compare(text, want, k.selected.empty());
        if (want.size() > 1) c.nontrivial();
        if (i) c.label("exported again");
        T::PluginManager::self m; std::unique_ptr<utilmm::config_set> s(config(k)); std::string again = m->save("idl", *s, g.r);
        CHECK(again == text, "another exporter gives\n" << again);
    }
}
// the identifiers that other tools ask the exporter for
static void naming(Ctx& c)
{
    Reg g; makeTypes(c, g);
    if (c.verbose) NOTE(c, snapshot(g.r, false));
    IDLExport e; Conf k = conf(c, g); std::string text, err; save(e, g.r, k, text, err); Idl m(k);
    CHECK(e.marshalOpaquesAsAny() == k.any, "opaque_as_any");
    for (auto const& x : g.m.g)
    {
        if (!g.defs.count(x.first)) continue;
        MType const& t = *g.defs.at(x.first); if (t.k == ARRAY) continue;
        std::string want; bool ok = true; try { want = m.ref(t); } catch (Unsup const&) { ok = false; }
        std::string got; bool did = true; try { got = e.getIDLAbsolute(*x.second.type); } catch (std::exception const&) { did = false; }
        CHECK(ok == did, x.first << (did ? " is not refused but named " + got : " is refused instead of being named " + want));
        if (!ok) continue;
        CHECK(got == want, x.first << " is named " << got << " instead of " << want);
        static char const* from[] = {"/", "/ns/", "/ns/sub/", "/other/", "/zz/", "/ns/sub/deep/", "/Pre/ns/"};
        std::string r = from[c.draw(7)]; Path scope = split(r); got = e.getIDLRelative(*x.second.type, r);
        bool found = false;
        if (want.compare(0, 2, "::")) found = got == want;
        else { if (got.compare(0, 2, "::") == 0) got = got.substr(2); for (size_t n = 0; n <= scope.size() && !found; ++n) found = join(Path(scope.begin(), scope.begin() + n)) + "::" + got == want; c.nontrivial(); }
        CHECK(found, x.first << " is " << want << ", and from " << r << " it is named " << got);
    }
}
Property pbt::the_property = { "C22",
    "registries of random universes (namespaces, names with leading underscores and template arguments, booleans, containers of containers, arrays, opaques, now and then pointers, null types and numbers of odd sizes) with aliases, exported one to three times by one exporter under random options; the text is parsed and compared, declaration by declaration, with a model of the mapping. Non-trivial: at least two declarations",
    { {"export", exporting, 60000, 2000000}, {"naming", naming, 30000, 1000000} }, registerContainers };
