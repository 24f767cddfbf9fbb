// C25: configuration sets.
#include "pbt.hh"
#include <typelib/utilmm/configset.hh>
#include <boost/lexical_cast.hpp>
#include <memory>
#include <list>
using namespace pbt;
typedef std::list<std::string> L;
struct Node { utilmm::config_set* set; Node* parent; std::map<std::string, std::vector<std::string> > values; std::map<std::string, std::vector<Node*> > kids; };
static char const* KEYS[] = {"a", "b", "ab", "", "A", "key with blanks"};
static char const* VALS[] = {"1", "0", "true", "false", "-42", "3.5", "", "some text", "1x", " 7", "2147483648", "9223372036854775807", "TRUE", "x", "1e3", "0010"};
static std::string key(Ctx& c) { return KEYS[c.draw(6)]; }
static std::string val(Ctx& c) { return VALS[c.draw(16)]; }
static L vals(Ctx& c) { L l; size_t n = c.draw(4); for (size_t i = 0; i < n; ++i) l.push_back(val(c)); return l; }
// the conversions, written down for the values in use
static bool conv(std::string const& s, bool& o) { if (s == "1" || s == "true") { o = true; return true; } if (s == "0" || s == "false") { o = false; return true; } return false; }
static bool conv(std::string const& s, int& o) { static std::map<std::string, int> m = {{"1", 1}, {"0", 0}, {"-42", -42}, {"0010", 10}}; auto i = m.find(s); if (i == m.end()) return false; o = i->second; return true; }
static bool conv(std::string const& s, long long& o) { int i; if (conv(s, i)) { o = i; return true; } if (s == "2147483648") { o = 2147483648LL; return true; } if (s == "9223372036854775807") { o = 9223372036854775807LL; return true; } return false; }
static bool conv(std::string const& s, double& o) { static std::map<std::string, double> m = {{"1", 1}, {"0", 0}, {"-42", -42}, {"0010", 10}, {"3.5", 3.5}, {"2147483648", 2147483648.}, {"9223372036854775807", 9223372036854775807.}, {"1e3", 1000}}; auto i = m.find(s); if (i == m.end()) return false; o = i->second; return true; }
static bool conv(std::string const& s, char& o) { if (s.size() != 1) return false; o = s[0]; return true; }
static bool conv(std::string const& s, std::string& o) { o = s; return true; }
template<typename X> static void lookup(utilmm::config_set const& s, std::string const& k, std::vector<std::string> const* w, X def, char const* what)
{
    std::list<X> deflist(2, def), want, got; bool ok = true, threw = false;
    if (!w) want = deflist; else for (auto const& v : *w) { X x; if (!conv(v, x)) ok = false; else want.push_back(x); }
    try { got = s.get<std::list<X> >(k, deflist); } catch (boost::bad_lexical_cast const&) { threw = true; }
    CHECK(threw == !ok, "values of '" << k << "' as " << what << (threw ? " are refused" : " are not refused"));
    if (ok) CHECK(got == want, "the list of " << what << " of '" << k << "' is wrong, it has " << got.size() << " elements");
    if (!w) { CHECK(s.get<std::list<X> >(k).empty(), "list of an absent key"); }
    X first = def; threw = false; try { first = s.get<X>(k, def); } catch (boost::bad_lexical_cast const&) { threw = true; }
    CHECK(threw == !ok, "value of '" << k << "' as " << what << (threw ? " is refused" : " is not refused"));
    if (ok) CHECK(first == want.front(), "the value of '" << k << "' as " << what << " is " << first);
    if (!w) CHECK(s.get<X>(k) == X(), "value of an absent key without any default");
}
static void check(Node const& n)
{
    utilmm::config_set const& s = *n.set; size_t total = 0;
    CHECK(s.parent() == (n.parent ? n.parent->set : 0) && n.set->parent() == s.parent(), "parent()");
    for (auto kc : KEYS)
    {
        std::string k = kc; auto v = n.values.find(k); std::vector<std::string> const* w = v == n.values.end() || v->second.empty() ? 0 : &v->second;
        auto kd = n.kids.find(k); total += (w != 0) + (kd != n.kids.end());
        CHECK(s.exists(k) == (w || kd != n.kids.end()), "exists(" << k << ")");
        L got = s.get<L>(k); CHECK(got == (w ? L(w->begin(), w->end()) : L()), "the values of '" << k << "' are " << got.size() << " instead of " << (w ? w->size() : 0) << ", or others");
        L def(1, "default"); if (!w) CHECK(s.get<L>(k, def) == def, "default of '" << k << "'");
        lookup<std::string>(s, k, w, "dflt", "text"); lookup<bool>(s, k, w, true, "bool"); lookup<int>(s, k, w, -7, "int"); lookup<long long>(s, k, w, 1LL << 40, "long long"); lookup<double>(s, k, w, 2.5, "double"); lookup<char>(s, k, w, '#', "char");
        utilmm::config_set::subsets kids = s.children(k), want; if (kd != n.kids.end()) for (auto x : kd->second) want.push_back(x->set);
        CHECK(kids == want, "the children '" << k << "' are " << kids.size() << " instead of " << want.size() << ", or others");
        if (want.empty()) { CHECK(s.child(k).empty() && s.child(k).parent() == 0, "child '" << k << "' which is not there"); }
        else CHECK(&s.child(k) == want.front(), "child '" << k << "'");
    }
    CHECK(s.empty() == (total == 0), "empty()");
}
static void run(Ctx& c, bool checks)
{
    std::vector<std::unique_ptr<Node> > nodes; nodes.emplace_back(new Node{new utilmm::config_set, 0, {}, {}}); std::unique_ptr<utilmm::config_set> root(nodes[0]->set);
    size_t n = c.size(40), lists = 0;
    for (size_t i = 0; i < n; ++i)
    {
        size_t at = c.draw(nodes.size()); Node& x = *nodes[at]; std::string k = key(c), v = val(c); L l;
        switch (c.draw(6))
        {
            case 0: NOTE(c, at << " set '" << k << "' '" << v << "'\n"); x.set->set(k, v); x.values[k].assign(1, v); break;
            case 1: NOTE(c, at << " insert '" << k << "' '" << v << "'\n"); x.set->insert(k, v); x.values[k].push_back(v); break;
            case 2: l = vals(c); NOTE(c, at << " set '" << k << "' to " << l.size() << " values\n"); x.set->set(k, l); x.values[k].assign(l.begin(), l.end()); ++lists; break;
            case 3: l = vals(c); NOTE(c, at << " insert '" << k << "' " << l.size() << " values\n"); x.set->insert(k, l); x.values[k].insert(x.values[k].end(), l.begin(), l.end()); ++lists; break;
            case 4: NOTE(c, at << " erase '" << k << "'\n"); x.set->erase(k); x.values.erase(k); break;
            default: NOTE(c, at << " child '" << k << "' is " << nodes.size() << "\n"); if (nodes.size() > 8) break; nodes.emplace_back(new Node{new utilmm::config_set(x.set), &x, {}, {}}); x.set->insert(k, nodes.back()->set); x.kids[k].push_back(nodes.back().get());
        }
        if (checks) for (auto const& y : nodes) check(*y);
    }
    if (nodes.size() > 1 && lists) c.nontrivial();
}
static void history(Ctx& c) { run(c, true); }
static void released(Ctx& c)
{
    run(c, false);   // draws the history
    std::vector<uint64_t> rec = c.rec;
    no_leak("a configuration", [&] { Ctx again(rec); run(again, false); });
}
Property pbt::the_property = { "C25",
    "histories of set, insert, erase and new children on a tree of configuration sets, over a few keys and values of every kind; after every step all keys of all nodes are read as text, booleans, numbers, characters and lists, with and without defaults, and compared with a map of vectors. Non-trivial: at least one child and one operation with a list",
    { {"history", history, 12000, 400000}, {"released", released, 6000, 200000} }, 0 };
