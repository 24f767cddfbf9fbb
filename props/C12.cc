// C12: the registry is a faithful name-to-type map under any history.
#include "regmodel.hh"
#include <typelib/typename.hh>

static char const* NAMES[] = {"/X", "/a/X", "/a/b/X", "/b/X", "/a", "/a/b", "/Y", "/a/Y", "/b/a/X", "/ab/X", "/a b/X", "/T</X,3>", "/a/T</a/X>", "/a/b/Y", "/b/Y", "/a0", "/a_b", "/a/A"};
static size_t const NN = sizeof(NAMES) / sizeof(NAMES[0]);
static char const* SPACES[] = {"/", "/a", "/a/b", "/a/b/", "/b", "/a/", "/ab", "/none", "/a b", "/std"};
static char const* PREFIXES[] = {"/", "/a", "/a/", "/a/b", "/a/b/", "/none", "/X", "/std/", "/T<", ""};
static char const* BADNAMES[] = {"", "X", "a/X", "/a//X", "/a/", "/X[", "/X-", "/T<", "/X[a]", "/é"};
static char const* LOOKUPS[] = {"X", "Y", "a", "b/X", "a/X", "a/b/X", "b/a/X", "T</X,3>", "T</a/X>", "A", "", "X*", "/nothing", "nil", "std/string", "string"};

static void history(Ctx& c)
{
    T::Registry r; RegModel m(r);
    if (m.g.empty()) { T::Numeric* t = new T::Numeric("/X", 4, T::Numeric::SInt); r.add(t); m.add(t); c.label("starts empty"); }
    std::vector<std::string> lookups(LOOKUPS, LOOKUPS + sizeof(LOOKUPS) / sizeof(char*)); lookups.insert(lookups.end(), NAMES, NAMES + NN);
    std::vector<std::string> prefixes(PREFIXES, PREFIXES + 10);
    auto anyName = [&]() { auto it = m.g.begin(); std::advance(it, c.draw(m.g.size())); return it->first; };
    auto anyType = [&]() { return const_cast<T::Type*>(m.g.at(anyName()).type); };
    size_t n = 3 + c.draw(24); int aliases = 0, refused = 0, moves = 0;
    checkRegistry(r, m, lookups, prefixes);
    for (size_t i = 0; i < n; ++i)
    {
        switch (c.weighted({6, 4, 4, 2, 1, 3, 2, 2, 2, 1, 1, 1}))
        {
            case 0: {   // a new type
                std::string name = NAMES[c.draw(NN)]; T::Type* t;
                std::string src = c.flip(1, 4) ? "s" + std::to_string(c.draw(3)) : "";
                switch (c.draw(4))
                {
                    case 0: t = new T::Numeric(name, 1 << c.draw(4), T::Numeric::SInt); break;
                    case 1: { T::Compound* k = new T::Compound(name); size_t nf = c.draw(3); for (size_t j = 0; j < nf; ++j) k->addField(std::string(1, 'a' + j), *anyType(), 8 * j); t = k; break; }
                    case 2: { T::Enum* e = new T::Enum(name); e->add("A", 1); t = e; break; }
                    default: t = new T::OpaqueType(name, 3); break;
                }
                bool explicit_p = c.flip(1, 5), pers = c.flip();
                NOTE(c, "add " << name << " (" << t->getSize() << ") source '" << src << "'\n");
                bool expect = !m.has(name), ok = true;
                try { if (explicit_p) r.add(t, pers, src); else r.add(t, src); }
                catch(T::AlreadyDefined const& e) { ok = false; CHECK(e.getName() == name, "AlreadyDefined names " << e.getName()); delete t; ++refused; }
                CHECK(ok == expect, "adding " << name << (ok ? " succeeded" : " was refused"));
                if (ok) { if (explicit_p) m.add(t, pers, src); else m.add(t, src); }
                break;
            }
            case 1: {   // an alias
                std::string base = anyName(), name = NAMES[c.draw(NN)];
                // relative names of the base are accepted too
                if (c.flip(1, 4)) { for (auto const& p : m.path) if (base.size() > p.first.size() && base.compare(0, p.first.size(), p.first) == 0) { std::string rel = base.substr(p.first.size()); if (m.resolve(rel)) base = rel; } }
                T::Type const* t = m.resolve(base);
                std::string src = c.flip(1, 4) ? "s" + std::to_string(c.draw(3)) : ""; bool explicit_p = c.flip(1, 5), pers = c.flip();
                NOTE(c, "alias " << base << " as " << name << "\n");
                bool same = m.has(name) && m.g.at(name).type == t, expect = !m.has(name) || same, ok = true;
                try { if (explicit_p) r.alias(base, name, pers, src); else r.alias(base, name, src); } catch(T::AlreadyDefined const&) { ok = false; ++refused; }
                CHECK(ok == expect, "alias " << name << (ok ? " was accepted" : " was refused"));
                if (ok && !same) { m.alias(t->getName(), name, explicit_p ? pers : true, src); ++aliases; }
                else if (ok) { auto users = m.g; for (auto const& x : users) if (x.first == x.second.type->getName() && RegModel::deps(*x.second.type).count(t)) m.propagate(*x.second.type); }
                break;
            }
            case 2: {   // a derived type
                T::Type* t = anyType(); T::Type* d; std::string name;
                int kind = c.draw(3);
                if (kind == 0) { d = new T::Array(*t, 1 + c.draw(4)); }
                else if (kind == 1) { d = new T::Pointer(*t); }
                else
                {
                    if (t->getSize() == 0 || t->getName().size() > 40 || t->getCategory() == T::Type::NullType) break;
                    name = "/std/vector<" + t->getName() + ">";
                    NOTE(c, "container " << name << "\n");
                    bool was = m.has(name);
                    if (was && m.g.at(name).type->getCategory() != T::Type::Container) break;
                    T::Container const& k = T::Container::createContainer(r, "/std/vector", *t);
                    if (was) CHECK(&k == m.g.at(name).type, "asking for " << name << " again gives another type");
                    else { CHECK(k.getName() == name, k.getName() << " instead of " << name); m.add(const_cast<T::Container*>(&k)); }
                    break;
                }
                name = d->getName();
                if (name.size() > 60) { delete d; break; }
                NOTE(c, "add " << name << "\n");
                bool expect = !m.has(name), ok = true;
                try { r.add(d); } catch(T::AlreadyDefined const&) { ok = false; delete d; ++refused; }
                CHECK(ok == expect, "adding " << name << (ok ? " succeeded" : " was refused"));
                if (ok) m.add(d);
                break;
            }
            case 3: {
                std::string name = c.flip(1, 4) ? std::string(NAMES[c.draw(NN)]) : anyName();
                if (aliases) { std::vector<std::string> al; for (auto const& x : m.g) if (m.isAlias(x.first)) al.push_back(x.first); if (!al.empty() && c.flip(2, 3)) name = c.pick(al); }
                NOTE(c, "removeAlias " << name << "\n");
                bool expect = m.has(name) && m.isAlias(name), ok = true;
                try { r.removeAlias(name); } catch(std::runtime_error const&) { ok = false; ++refused; }
                CHECK(ok == expect, "removeAlias " << name << (ok ? " succeeded" : " was refused"));
                if (ok) m.g.erase(name);
                break;
            }
            case 4: {
                NOTE(c, "clearAliases\n");
                r.clearAliases();
                for (auto it = m.g.begin(); it != m.g.end();) if (m.isAlias(it->first)) m.g.erase(it++); else ++it;
                break;
            }
            case 5: {
                std::string s = SPACES[c.draw(10)]; NOTE(c, "namespace " << s << "\n");
                CHECK(r.setDefaultNamespace(s), "namespace " << s << " refused");
                m.setNamespace(s); ++moves;
                break;
            }
            case 6: {
                std::string s = SPACES[c.draw(10)]; bool er = c.flip(); NOTE(c, "import " << s << (er ? " erasing" : "") << "\n");
                if (!er && c.flip()) r.importNamespace(s); else r.importNamespace(s, er);
                m.import(s, er); ++moves;
                break;
            }
            case 7: {   // refusals
                std::string bad = BADNAMES[c.draw(sizeof(BADNAMES) / sizeof(char*))]; NOTE(c, "bad name '" << bad << "'\n"); ++refused;
                bool ok = true;
                if (c.flip())
                {
                    T::Type* t = new T::Numeric(bad, 4, T::Numeric::UInt);
                    try { r.add(t); } catch(T::BadName const&) { ok = false; delete t; }
                }
                else try { r.alias(anyName(), bad); } catch(T::BadName const&) { ok = false; }
                CHECK(!ok, "the invalid name '" << bad << "' was accepted");
                break;
            }
            case 8: {
                ++refused; bool ok = true;
                switch (c.draw(4))
                {
                    case 0: try { r.alias("/nothing/at/all", "/new"); } catch(T::Undefined const& e) { ok = e.getName() != "/nothing/at/all"; } CHECK(!ok, "alias of an unknown type"); break;
                    case 1: { ok = r.setDefaultNamespace(c.flip() ? "a" : "/a-b"); CHECK(!ok, "bad namespace accepted"); break; }
                    case 2: { T::Type* t = anyType(); NOTE(c, "add again " << t->getName() << "\n"); r.add(t, "other"); m.propagate(*t); break; }
                    default: { T::Type* t = anyType(); T::Numeric foreign(t->getName(), t->getSize(), T::Numeric::SInt); CHECK(!r.isIncluded(foreign), "a foreign type is included"); break; }
                }
                break;
            }
            case 9: {
                T::Type* t = anyType(); NOTE(c, "setSourceID " << t->getName() << "\n");
                r.setSourceID(*t, "file"); m.g.at(t->getName()).source = "file";
                CHECK(t->getMetaData().get("source_id") == T::MetaData::Values({"file"}), "source_id metadata");
                break;
            }
            case 10: {
                bool b; static char const* q[] = {"/X*", "/X[3]", "/a/X**[2]", "/nothing*", "/Y[1][2]", "X*", "b/X[4]", "/b/Y*", "a*"};
                std::string s = q[c.draw(9)]; std::string base = s.substr(0, s.find_first_of("*["));
                b = r.has(s, true);
                CHECK(b == (m.resolve(s) || m.resolve(base)), "has(" << s << ", true) gives " << b);
                break;
            }
            default:
                if (c.flip(1, 3)) { NOTE(c, "clear\n"); r.clear(); m.g.clear(); T::Numeric* t = new T::Numeric("/X", 4, T::Numeric::SInt); r.add(t); m.add(t); c.label("cleared"); }
                break;
        }
        checkRegistry(r, m, lookups, prefixes);
    }
    if (aliases) c.label("aliases");
    if (moves) c.label("namespaces");
    if (refused) c.label("refusals");
    if (m.g.size() >= 6 && (aliases || moves)) c.nontrivial();
    c.count("steps", n);
}
Property pbt::the_property = { "C12",
    "histories of up to 25 operations (types, derived types, containers, aliases, removals, namespaces, imports, refusals, source ids) over 18 names in nested namespaces; after every step the whole registry is compared with a map and a search path; non-trivial: at least 6 names and an alias or a namespace selection",
    { {"history", history, 30000, 1000000} }, registerContainers };
