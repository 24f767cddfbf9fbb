// C09: CSV header and lines describe every leaf, in order and in step.
#include "ptrs.hh"
#include <typelib/csvoutput.hh>
#include <cmath>

static void csv(Ctx& c)
{
    Opts o; o.pointers = true; o.opaques = true; o.containers = false; o.strings = false; o.zero_dims = true;
    Universe u(o); MT t = u.top(c);
    MVal v = value(c, t);
    static char const* seps[] = {" ", ",", ";", "\t", " | ", "", "\n", "::"};
    static char const* bases[] = {"t", "", "a.b", "my var"};
    std::string sep = seps[c.draw(8)], base = bases[c.draw(4)];
    bool num = !c.flip(), api = c.flip(1, 3);
    Native n(t, v); Pointees pt(c, 200, c.flip(1, 3)); pt.fill(*t, n.p);
    std::vector<Leaf> ls; leaves(*t, n.p, base, ls);
    if (ls.size() >= 20000) { c.label("too big"); return; }
    caseInfo(c, t, v); NOTE(c, "separator '" << sep << "' name '" << base << "' chars as numbers " << num << "\n");
    if (sep.empty()) c.label("empty separator");
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);

    std::ostringstream h, l, h2, l2;
    h << T::csv_header(type, base, sep);
    // numbers by default, and a space between columns
    if (num && sep == " " && c.flip()) l << T::csv(type, n.p);
    else if (num && c.flip()) l << T::csv(type, n.p, sep);
    else l << T::csv(type, n.p, sep, num);
    std::string expect;
    for (size_t i = 0; i < ls.size(); ++i) expect += (i ? sep : "") + ls[i].path;
    CHECK(h.str() == expect, "header is\n" << h.str() << "\nexpected\n" << expect);
    std::string s = l.str(); size_t pos = 0;
    for (size_t i = 0; i < ls.size(); ++i)
    {
        Leaf const& f = ls[i];
        if (i) { CHECK(s.compare(pos, sep.size(), sep) == 0, "no separator before column " << i << " (" << f.path << ") at offset " << pos << " of: " << s); pos += sep.size(); }
        std::vector<std::string> ok;
        if (!f.p) ok.push_back("NULL");
        else switch (f.t->k)
        {
            case SINT: case UINT:
                if (f.t->size == 1 && !num) { ok.push_back(std::string(1, (char)*f.p)); c.label("char as text"); }
                else ok.push_back(intText(*f.t, f.p));
                break;
            case ENUM:
                for (auto const& sy : f.t->syms) if (sy.second == rd<int>(f.p)) ok.push_back(sy.first);
                if (ok.empty()) { ok.push_back(std::to_string(rd<int>(f.p))); c.label("undeclared enum value"); }
                break;
            case OPAQUE: ok.push_back("<" + f.t->name + ">"); c.label("opaque column"); break;
            case FLOAT: {
                char* e; bool same; char const* b = s.c_str() + pos;
                size_t len = strspn(b, "+-.0123456789einfa");
                if (sep.empty() && i + 1 < ls.size()) { c.label("float before an empty separator"); return; }
                std::string text(b, len);
                if (f.t->size == 4) { float x = strtof(text.c_str(), &e), w = rd<float>(f.p); same = std::isnan(w) ? std::isnan(x) : !memcmp(&x, &w, 4); }
                else { double x = strtod(text.c_str(), &e), w = rd<double>(f.p); same = std::isnan(w) ? std::isnan(x) : !memcmp(&x, &w, 8); }
                CHECK(len && !*e && same, "column " << i << " (" << f.path << ") reads '" << text << "', which is not the float stored there");
                ok.push_back(text); break;
            }
            default: FAILCASE("no such leaf");
        }
        bool found = false;
        for (auto const& k : ok) if (!found && s.compare(pos, k.size(), k) == 0 && (pos + k.size() == s.size() || i + 1 < ls.size()))
        {
            if (i + 1 < ls.size() && s.compare(pos + k.size(), sep.size(), sep) != 0) continue;
            found = true; pos += k.size();
        }
        CHECK(found, "column " << i << " (" << f.path << ") should read '" << ok[0] << "', rest of the line is: " << s.substr(pos, 60));
    }
    CHECK(pos == s.size(), "the line has more than the " << ls.size() << " columns of the header: " << s.substr(pos));
    if (api)
    {
        // one object used for several lines
        T::CSVOutput out(type, sep, num);
        out.display(l2, n.p); CHECK(l2.str() == s, "CSVOutput::display gives " << l2.str());
        out.header(h2, base); CHECK(h2.str() == expect, "CSVOutput::header gives " << h2.str());
        l2.str(""); out.display(l2, n.p); CHECK(l2.str() == s, "second CSVOutput::display gives " << l2.str());
        h2.str(""); out.header(h2, base); CHECK(h2.str() == expect, "second CSVOutput::header gives " << h2.str());
    }
}
Property pbt::the_property = { "C09",
    "random types of numerics, enums, arrays (zero-length too), compounds, pointers (null, or to real values) and opaques, random values, separators, names and character modes; each column is compared with the text of the leaf at the address computed by the model; non-trivial: at least 3 leaves",
    { {"csv", csv, 200000, 4000000} }, registerContainers };
