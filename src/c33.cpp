// C33: settings answers compared with a shadow model over generated command lines, files and histories.
#include "harness.h"
#include <k52/common/settings_manager.h>
#include <fstream>
using namespace hv;
using k52::SettingsManager;
typedef boost::property_tree::ptree ptree;

struct Open : SettingsManager
{
    Open(int n, const char** a) : SettingsManager(n, a) {}
    explicit Open(const std::string& f) : SettingsManager(f) {}
    using SettingsManager::Merge;
};

static std::string random_name(Rng& r, bool path = true)
{
    static const std::vector<std::string> parts = {"a", "b", "name", "Value", "x1", "long_property-name", "c:d", "\xc3\xa9", "a1", "ab", "_"};
    std::string n = r.pick(parts);
    if (path) while (r.chance(0.35)) n += "." + r.pick(parts);
    return n;
}
static std::string random_text(Rng& r)
{
    static const std::vector<std::string> fixed = {"", "=", "==", "a=b", "--x=y", "--", "true", "0", " ", " lead", "trail ", "a b c", "\"q\"", "<x>&amp;", ".", "a.b", "\t", "new\nline", "\xc3\xa9", "%s%n", "'", "name=", "x=1=2"};
    if (r.chance(0.5)) return r.pick(fixed);
    std::string s;
    int n = (int)r.range(0, r.chance(0.1) ? 3000 : 12);
    for (int i = 0; i < n; i++) s += (char)r.range(32, 126);
    return s;
}
static double random_double(Rng& r)
{
    switch (r.range(0, 4))
    {
    case 0: return r.uni(-1, 1);
    case 1: return (double)r.range(-1000000, 1000000);
    case 2: return r.uni(-1, 1) * std::pow(10, r.uni(-300, 300));
    case 3: { static const std::vector<double> v = {0.0, 1e308, -1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 1.0 / 3, 123456789.123456789}; return r.pick(v); }
    default: return r.normal();
    }
}

struct Val { int type = 0; std::string s; long long i = 0; double d = 0; bool b = false; };

// numeric text written the way a user would
static std::string number_text(Rng& r, Val& v)
{
    if (r.chance(0.5)) { v.type = 1; v.i = r.chance(0.2) ? r.range(-2147483648LL, 2147483647LL) : r.range(-100, 100); return std::to_string(v.i); }
    v.type = 2; v.d = random_double(r);
    return num(v.d);
}

template <class S> static void check_value(const S& sm, const std::string& name, const Val& v, const std::string& how)
{
    auto ctx = [&] { return how + " name '" + name + "'"; };
    int o = 0;
    if (v.type == 0)
    {
        std::string got;
        o = outcome([&] { got = sm.template get<std::string>(name); });
        check(o == 0 && got == v.s, "wrong-string", [&] { return ctx() + " put '" + v.s + "' got " + (o ? std::string("exception") : "'" + got + "'"); });
        std::string d = sm.template get<std::string>(name, "some default \x01");
        check(d == v.s, "default-instead-of-value", [&] { return ctx() + " put '" + v.s + "' got '" + d + "'"; });
    }
    else if (v.type == 1)
    {
        int got = 0;
        o = outcome([&] { got = sm.template get<int>(name); });
        check(o == 0 && got == v.i, "wrong-int", [&] { return ctx() + " put " + std::to_string(v.i) + " got " + std::to_string(got); });
        int d = sm.template get<int>(name, (int)(v.i == 77 ? 78 : 77));
        check(d == v.i, "default-instead-of-value", [&] { return ctx() + " put " + std::to_string(v.i) + " got " + std::to_string(d); });
    }
    else if (v.type == 2)
    {
        double got = 0;
        o = outcome([&] { got = sm.template get<double>(name); });
        check(o == 0 && got == v.d, "wrong-double", [&] { return ctx() + " put " + num(v.d) + " got " + num(got); });
        double d = sm.template get<double>(name, v.d == 5 ? 6. : 5.);
        check(d == v.d, "default-instead-of-value", [&] { return ctx() + " put " + num(v.d) + " got " + num(d); });
    }
    else
    {
        bool got = !v.b;
        o = outcome([&] { got = sm.template get<bool>(name); });
        check(o == 0 && got == v.b, "wrong-bool", ctx);
        check(sm.template get<bool>(name, !v.b) == v.b, "default-instead-of-value", ctx);
    }
    count("values read back");
}
template <class S> static void check_missing(Rng& rng, const S& sm, const std::string& name)
{
    must_throw("missing-mandatory", "'" + name + "'", [&] { sm.template get<std::string>(name); });
    must_throw("missing-mandatory", "'" + name + "'", [&] { sm.template get<int>(name); });
    std::string d = random_text(rng); double x = random_double(rng); int k = (int)rng.range(-99, 99);
    check(sm.template get<std::string>(name, d) == d, "missing-default", [&] { return name; });
    check(sm.template get<double>(name, x) == x, "missing-default", [&] { return name; });
    check(sm.template get<int>(name, k) == k, "missing-default", [&] { return name; });
    check(sm.template get<bool>(name, k > 0) == (k > 0), "missing-default", [&] { return name; });
    count("missing properties read");
}
static bool is_prefix_of_any(const std::map<std::string, Val>& m, const std::string& n)
{
    if (m.count(n)) return true;
    for (auto& e : m) if (e.first.compare(0, n.size() + 1, n + ".") == 0) return true;
    return false;
}

template <class S> static void put_history(Rng& rng, S& sm, std::map<std::string, Val>& model, Hash& h)
{
    int ops = (int)rng.range(1, rng.chance(0.04) ? 500 : 40);
    for (int i = 0; i < ops; i++)
    {
        std::string n = random_name(rng);
        if (rng.chance(0.3) && !model.empty()) { auto it = model.begin(); std::advance(it, (long)rng.range(0, (int64_t)model.size() - 1)); n = it->first; }
        Val v; bool ok = false;
        switch (rng.range(0, 3))
        {
        case 0: v.type = 0; v.s = random_text(rng); ok = sm.put(n, v.s); h.add(v.s); break;
        case 1: v.type = 1; v.i = rng.chance(0.2) ? rng.pick(std::vector<int>{-2147483647 - 1, 2147483647, 0, -1}) : rng.range(-1000, 1000); ok = sm.put(n, (int)v.i); break;
        case 2: v.type = 2; v.d = random_double(rng); ok = sm.put(n, v.d); h.add(v.d); break;
        default: v.type = 3; v.b = rng.chance(0.5); ok = sm.put(n, v.b); break;
        }
        check(ok, "put-fails", [&] { return n; });
        model[n] = v;
        h.add(n).add(v.type);
        count("puts");
        if (rng.chance(0.5)) check_value(sm, n, v, "put");
        if (rng.chance(0.3)) { std::string miss = random_name(rng) + "_missing"; check_missing(rng, sm, miss); }
    }
    for (auto& e : model) check_value(sm, e.first, e.second, "after history");
    for (int i = 0; i < 10; i++)
    {
        std::string n = random_name(rng);
        if (!is_prefix_of_any(model, n)) check_missing(rng, sm, n);
    }
}

K52_TASK(cmdline, "cmdline")
{
    std::vector<std::string> args = {"program"};
    std::map<std::string, Val> model;
    std::set<std::string> bare;
    Hash h;
    if (rng.chance(0.05)) args.clear();
    int n = (int)rng.range(0, rng.chance(0.04) ? 300 : 15);
    for (int i = 0; i < n; i++)
    {
        if (rng.chance(0.3))
        {
            // no "--" prefix: ignored, whatever it contains
            static const std::vector<std::string> noise = {"", "-", "-x=1", "a=b", "=", "name=5", " --a=1", "x--a=1", "-b--a=2", "plain"};
            std::string s = rng.pick(noise);
            args.push_back(s);
            h.add(s);
            continue;
        }
        std::string name = random_name(rng);
        if (rng.chance(0.3) && !model.empty()) name = model.begin()->first;
        Val v;
        std::string text = rng.chance(0.5) ? (v.type = 0, v.s = random_text(rng)) : number_text(rng, v);
        args.push_back("--" + name + "=" + text);
        model[name] = v;
        h.add(args.back());
    }
    std::vector<const char*> argv;
    for (auto& a : args) argv.push_back(a.c_str());
    const char* none = nullptr;
    SettingsManager sm((int)argv.size(), argv.empty() ? &none : argv.data());
    std::string line;
    for (auto& a : args) line += " " + a;
    for (auto& e : model) check_value(sm, e.first, e.second, "command line" + line + ":");
    for (int i = 0; i < 10; i++)
    {
        std::string nm = random_name(rng);
        if (!is_prefix_of_any(model, nm)) check_missing(rng, sm, nm);
    }
    count("arguments parsed", args.size());
    // values from the program override those of the command line
    put_history(rng, sm, model, h);
    Log::get().sample("cmdline:" + line);
    observe(h.h);
}

static std::string xml_escape(const std::string& s)
{
    std::string r;
    for (char c : s) { if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '&') r += "&amp;"; else if (c == '"') r += "&quot;"; else r += c; }
    return r;
}
struct Node { std::string text; bool has = false; Val v; std::vector<std::pair<std::string, Node> > kids; };
static Node gen(Rng& rng, int depth, const std::string& path, std::map<std::string, Val>& model)
{
    Node n;
    bool leaf = depth >= 3 || rng.chance(depth == 0 ? 0 : 0.5);
    if (leaf)
    {
        n.has = true;
        if (rng.chance(0.5)) { n.v.type = 0; n.v.s = random_text(rng); n.text = xml_escape(n.v.s); }
        else n.text = number_text(rng, n.v);
        model[path] = n.v;
        return n;
    }
    std::set<std::string> names;
    int k = (int)rng.range(1, 4);
    for (int i = 0; i < k; i++)
    {
        std::string nm;
        do { nm = random_name(rng, false); } while (nm.find(':') != std::string::npos || (unsigned char)nm[0] > 127);
        if (!names.insert(nm).second) continue;
        Node c = gen(rng, depth + 1, path.empty() ? nm : path + "." + nm, model);
        n.kids.push_back({nm, c});
    }
    return n;
}
static void write(std::ostream& o, const Node& n, Rng& rng)
{
    o << n.text;
    for (auto& k : n.kids)
    {
        o << "<" << k.first << ">";
        write(o, k.second, rng);
        o << "</" << k.first << ">";
    }
}
K52_TASK(xmlfile, "xmlfile")
{
    std::map<std::string, Val> model;
    Node root = gen(rng, 0, "", model);
    std::ostringstream body;
    body << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<conf>";
    write(body, root, rng);
    body << "</conf>\n";
    std::string text = body.str();
    std::string file = "settings.xml";
    {
        std::ofstream f(file.c_str(), std::ios::binary);
        f << text;
    }
    Hash h; h.add(text);
    std::map<std::string, Val> full;
    for (auto& e : model) full["conf" + (e.first.empty() ? "" : "." + e.first)] = e.second;
    {
        Open sm(file);
        // whitespace around file values is the parser's business
        for (auto& e : full)
        {
            if (e.second.type == 0)
            {
                const std::string& s = e.second.s;
                bool edge = !s.empty() && (isspace((unsigned char)s[0]) || isspace((unsigned char)s[s.size() - 1]));
                bool has_nl = s.find('\n') != std::string::npos || s.find('\t') != std::string::npos || s.find("  ") != std::string::npos;
                if (edge || has_nl) continue;
            }
            check_value(sm, e.first, e.second, "file " + text);
        }
        for (int i = 0; i < 6; i++)
        {
            std::string nm = "conf." + random_name(rng);
            if (!is_prefix_of_any(full, nm)) check_missing(rng, sm, nm);
        }
        count("files read");
        std::map<std::string, Val> m2;
        put_history(rng, sm, m2, h);
    }
    // malformed files
    std::string bad = text;
    switch (rng.range(0, 4))
    {
    case 0: bad = text.substr(0, (size_t)rng.range(40, (int64_t)text.size() - 3)); break;   // truncated inside the document
    case 1: bad = "<conf><a>1</a>"; break;
    case 2: bad = "<conf><a></conf>"; break;
    case 3: bad = "<conf a=></conf>"; break;
    default: bad = "<conf>&#xFFFFFFFFF;<"; break;
    }
    { std::ofstream f("bad.xml", std::ios::binary); f << bad; }
    must_throw("malformed-file", bad, [&] { SettingsManager sm("bad.xml"); });
    must_throw("missing-file", "no such file", [&] { SettingsManager sm(std::string("no/such/file.xml")); });
    count("malformed files");
    Log::get().sample("xml: " + text);
    observe(h.h);
}

static void flatten(const ptree& t, const std::string& path, std::map<std::string, std::string>& out)
{
    out[path] = t.data();
    for (auto& k : t) flatten(k.second, path + "/" + k.first, out);
}
// the key of a node is any text: property names like ".a" or "a..b" and XML elements like <a.b> make such trees
static std::string random_key(Rng& rng, bool odd)
{
    static const std::vector<std::string> keys = {"", ".", "a.b", "b.a", ".a", "a.", "a b", "<xmlattr>", "<xmlcomment>", "c:d", "\xc3\xa9"};
    if (odd && rng.chance(0.4)) { count("odd keys"); return rng.pick(keys); }
    if (rng.chance(0.1)) return "key" + std::to_string(rng.range(0, 60));
    return std::string(1, (char)('a' + rng.range(0, 4)));
}
static ptree random_tree(Rng& rng, int depth, bool odd, int deepest = 3)
{
    ptree t;
    if (rng.chance(0.7)) t.data() = rng.chance(0.2) ? "" : "v" + std::to_string(rng.range(0, 1000000));
    if (depth >= deepest) return t;
    int k = (int)(deepest > 3 ? rng.range(1, 2) : rng.range(0, rng.chance(0.02) ? 60 : 4));
    for (int i = 0; i < k; i++)
    {
        std::string nm = random_key(rng, odd);
        if (t.find(nm) == t.not_found()) t.push_back(std::make_pair(nm, random_tree(rng, depth + 1, odd, deepest)));
    }
    return t;
}
K52_TASK(merge, "merge")
{
    const bool odd = rng.chance(0.4);
    const int deepest = rng.chance(0.04) ? 9 : 3;
    ptree l = random_tree(rng, 0, odd, deepest), r = random_tree(rng, 0, odd, deepest);
    ptree l0 = l, r0 = r;
    ptree m = Open::Merge(l, r);
    check(l == l0 && r == r0, "merge-changes-input", "");
    std::map<std::string, std::string> fl, fr, fm, want;
    flatten(l, "", fl); flatten(r, "", fr); flatten(m, "", fm);
    want = fr;
    for (auto& e : fl) want[e.first] = e.second;
    auto dump = [&](const std::map<std::string, std::string>& x) { std::string s; for (auto& e : x) s += e.first + "=" + e.second + " "; return s; };
    check(fm == want, "merge-wrong", [&] { return "left: " + dump(fl) + " right: " + dump(fr) + " merged: " + dump(fm); });
    // merging with an empty tree, and with itself, changes nothing
    check(Open::Merge(l, ptree()) == l && Open::Merge(l, l) == l, "merge-identity", [&] { return dump(fl); });
    count("trees merged", 3); count("merged properties", fm.size());
    if (Log::get().wants_sample()) Log::get().sample("merge: " + dump(fl) + " | " + dump(fr) + " -> " + dump(fm));
    observe(Hash().add(dump(fl)).add(dump(fr)).h, fl.size() > 1 && fr.size() > 1);
}
K52_MAIN
