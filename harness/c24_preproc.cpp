// C24: the wixl preprocessor selects and expands exactly what the directives say.
#include "tool.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace tool;

namespace {
using Args = std::vector<std::string>;
// ---- the language -----------------------------------------------------------------------
enum K { IF, IFDEF, IFNDEF, ELSEIF, ELSE, ENDIF, DEF, UNDEF, TEXT, ATTR, CDATA, INC, REQ, WARN, ERR, MARK, RAW };
struct Item { K k; std::string a, b; bool t = false; };
using Seq = std::vector<Item>;
uint64_t fnv(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char x : s) h = (h ^ x) * 1099511628211ull; return h; }
struct Stop { std::string what; };
struct State {
    std::map<std::string, std::string> var, env;
    std::map<std::string, Seq> files;      // what an include name stands for
    std::set<std::string> required;
    std::vector<std::string> said;
    int depth = 0;
};
std::string esc(const std::string &s) {
    std::string o;
    for (char ch : s) switch (ch) { case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '&': o += "&amp;"; break; case '"': o += "&quot;"; break; default: o += ch; }
    return o;
}
std::string xml(const Seq &s) {
    std::string o;
    for (auto &x : s) switch (x.k) {
        case IF: o += "<?if " + x.a + "?>"; break;
        case IFDEF: o += "<?ifdef " + x.a + "?>"; break;
        case IFNDEF: o += "<?ifndef " + x.a + "?>"; break;
        case ELSEIF: o += "<?elseif " + x.a + "?>"; break;
        case ELSE: o += "<?else?>"; break;
        case ENDIF: o += "<?endif?>"; break;
        case DEF: o += "<?define " + x.a + x.b + "?>"; break;
        case UNDEF: o += "<?undef " + x.a + "?>"; break;
        case TEXT: o += esc(x.a); break;
        case ATTR: o += "<e v=\"" + esc(x.a) + "\" w=\"$(var.B)\"/>"; break;
        case CDATA: o += "<![CDATA[" + x.a + "]]>"; break;
        case INC: o += "<?include " + x.a + "?>"; break;
        case REQ: o += "<?require " + x.a + "?>"; break;
        case WARN: o += "<?warning " + x.a + "?>"; break;
        case ERR: o += "<?error " + x.a + "?>"; break;
        case MARK: o += "<m k=\"" + x.a + "\"/>"; break;
        case RAW: o += x.a; break;
    }
    return o;
}
std::string value(State &s, const std::string &ref) {
    auto p = ref.find('.');
    if (p == std::string::npos) throw Stop{"variable without a kind"};
    std::string kind = ref.substr(0, p), name = ref.substr(p + 1);
    auto &m = kind == "var" ? s.var : s.env;
    if (kind != "var" && kind != "env" && kind != "sys") throw Stop{"unknown kind"};
    if (kind == "sys") { if (name == "BUILDARCH") return "x86"; throw Stop{"unknown"}; }
    if (!m.count(name)) throw Stop{"undefined"};
    return m[name];
}
bool defined(State &s, const std::string &ref) {
    if (ref.find('.') == std::string::npos) throw Stop{"variable without a kind"};
    try { value(s, ref); } catch (Stop &x) { if (x.what == "undefined") return false; throw; }
    return true;
}
std::string expand(State &s, const std::string &t) {
    std::string o;
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i] != '$' || i + 1 == t.size()) { o += t[i]; continue; }
        if (t[i + 1] == '$') { // of several, one less, unless a variable follows the last
            size_t n = t.find_first_not_of('$', i);
            if (n == std::string::npos) n = t.size();
            o += std::string(n - i - 1, '$');
            i = n - 1;
            if (n == t.size() || t[n] != '(') continue;
        }
        if (t[i + 1] != '(') { o += '$'; continue; }
        size_t e = t.find(')', i);
        if (e == std::string::npos) throw Stop{"no closing parenthesis"};
        std::string ref = t.substr(i + 2, e - i - 2);
        if (ref.find('(') != std::string::npos) throw Stop{"function"};
        o += value(s, ref);
        i = e;
    }
    return o;
}
// what comes out: the text of the kept events
void interpret(const Seq &q, State &s, std::string &o) {
    struct F { bool outer, on, done, tail; };
    std::vector<F> st;
    auto live = [&] { return st.empty() || (st.back().outer && st.back().on); };
    for (auto &x : q) {
        switch (x.k) {
        case IF: case IFDEF: case IFNDEF: {
            bool l = live(), t = l && (x.k == IF ? x.t : defined(s, x.a) == (x.k == IFDEF));
            st.push_back({l, t, t, false});
            continue;
        }
        case ELSEIF:
            if (st.empty() || st.back().tail) throw Stop{"elseif"};
            st.back().on = st.back().outer && !st.back().done && x.t;
            st.back().done |= st.back().on;
            continue;
        case ELSE:
            if (st.empty() || st.back().tail) throw Stop{"else"};
            st.back().tail = true;
            st.back().on = !st.back().done;
            continue;
        case ENDIF:
            if (st.empty()) throw Stop{"endif"};
            st.pop_back();
            continue;
        default: break;
        }
        if (!live()) continue;
        switch (x.k) {
        case DEF: {
            size_t e = x.b.find('=');
            if (e == std::string::npos) throw Stop{"define"};
            std::string v = x.b.substr(e + 1), n = x.a;
            size_t a = v.find_first_not_of(" "), z = v.find_last_not_of(" ");
            if (a == std::string::npos) throw Stop{"define"};
            v = v.substr(a, z - a + 1);
            if (v.size() > 1 && v[0] == v.back() && (v[0] == '"' || v[0] == '\'')) v = v.substr(1, v.size() - 2);
            if (n.compare(0, 4, "var.") == 0) n = n.substr(4);
            s.var[n] = expand(s, v);
            break;
        }
        case UNDEF: s.var.erase(x.a.compare(0, 4, "var.") ? x.a : x.a.substr(4)); break;
        case TEXT: case CDATA: o += expand(s, x.a); break;
        case ATTR: o += "<e v=[" + expand(s, x.a) + "] w=[" + value(s, "var.B") + "]></e>"; break;
        case MARK: o += "<m k=[" + x.a + "]></m>"; break;
        case RAW: o += x.b; break;
        case INC: case REQ: {
            std::string n = expand(s, x.a);
            if (x.k == REQ && !s.required.insert(n).second) break;
            if (!s.files.count(n)) throw Stop{"no file"};
            if (++s.depth > 20) throw Stop{"endless"};
            Seq inner = s.files[n];
            interpret(inner, s, o);
            s.depth--;
            break;
        }
        case WARN: s.said.push_back(expand(s, x.a)); break;
        case ERR: s.said.push_back(expand(s, x.a)); throw Stop{"error"};
        default: break;
        }
    }
    if (!st.empty()) throw Stop{"missing endif"};
}
// ---- the output --------------------------------------------------------------------------
std::string flat(xmlNode *n) {
    std::string o;
    for (; n; n = n->next) {
        if (n->type == XML_TEXT_NODE || n->type == XML_CDATA_SECTION_NODE) { if (n->content) o += (const char *)n->content; }
        else if (n->type == XML_ELEMENT_NODE) {
            o += std::string("<") + (const char *)n->name;
            for (xmlAttr *a = n->properties; a; a = a->next) { xmlChar *v = xmlNodeListGetString(n->doc, a->children, 1); o += std::string(" ") + (const char *)a->name + "=[" + (v ? (const char *)v : "") + "]"; xmlFree(v); }
            o += ">" + flat(n->children) + "</" + (const char *)n->name + ">";
        }
    }
    return o;
}
// the content of each <c>; empty when the document is not readable
bool cases(const std::string &out, std::vector<std::string> &v) {
    xmlDoc *d = xmlReadMemory(out.data(), out.size(), "out", nullptr, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE);
    if (!d) return false;
    xmlNode *r = xmlDocGetRootElement(d);
    for (xmlNode *n = r ? r->children : nullptr; n; n = n->next) if (n->type == XML_ELEMENT_NODE) v.push_back(flat(n->children));
    xmlFreeDoc(d);
    return true;
}
// formatting may add white space between elements where there is no text
std::string trim(std::string s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '\n') { size_t j = i + 1; while (j < s.size() && s[j] == ' ') j++; if (j == s.size() || s[j] == '<') { i = j - 1; continue; } }
        o += s[i];
    }
    return o;
}
const std::string RESET = "<?undef A?><?undef C?><?define B=bee?><?undef a.b?>";
State fresh() { State s; s.var["B"] = "bee"; s.env["V"] = "seven"; return s; }
Out wixl(mc::Ctx &c, const std::string &doc, const Args &more = {}) {
    writefile(c.scratch + "/t.wxs", doc);
    Args a = {bin("wixl"), "-E"};
    a.insert(a.end(), more.begin(), more.end());
    a.push_back("t.wxs");
    Out o = run(a, c.scratch, c.scratch + "/io", 20, {"V=seven"});
    sane(c, o, doc.size() < 600 ? doc : "a document of many cases");
    return o;
}
std::string wrap(const std::string &body) { return "<?xml version=\"1.0\"?>\n<Wix>" + body + "</Wix>\n"; }
// one case by itself
void single(mc::Ctx &c, const Seq &q) {
    std::string x = xml(q), want;
    State s = fresh();
    bool err = false;
    std::string why;
    try { interpret(q, s, want); } catch (Stop &e) { err = true; why = e.what; }
    c.step(x);
    Out o = wixl(c, wrap(RESET + "<c>" + x + "</c>"));
    if (err) {
        if (!o.status) c.fail("error not reported", why + ": " + x + "\n" + o.out);
        if (o.err.empty()) c.fail("silent failure", x);
        c.state("error " + why);
        return;
    }
    if (o.status) c.fail("refused", x + "\n" + o.err);
    std::vector<std::string> v;
    if (!cases(o.out, v) || v.size() != 1) c.fail("unreadable output", x + "\n" + o.out);
    if (trim(v[0]) != trim(want)) c.fail("other output", x + "\nwanted " + want + "\ngot    " + v[0]);
    for (auto &m : s.said) if (o.err.find(m) == std::string::npos) c.fail("message lost", x + "\n" + o.err);
    c.nontrivial();
}
// many good cases in one document; if any is wrong, find it alone
void batch(mc::Ctx &c, const std::vector<Seq> &qs) {
    std::string body;
    std::vector<std::string> want;
    for (auto &q : qs) {
        State s = fresh();
        std::string w;
        interpret(q, s, w);
        want.push_back(w);
        body += RESET + "<c>" + xml(q) + "</c>\n";
    }
    c.step(fmt("%zu cases, the first: ", qs.size()) + xml(qs[0]));
    Out o = wixl(c, wrap(body));
    std::vector<std::string> got;
    bool ok = !o.status && cases(o.out, got) && got.size() == want.size();
    if (ok) for (size_t i = 0; i < got.size(); i++) { ok &= trim(got[i]) == trim(want[i]); c.state(std::to_string(fnv(want[i]) % 4096)); }
    if (!ok) {
        for (auto &q : qs) single(c, q);
        c.fail("cases differ only together", o.err.substr(0, 300));
    }
    c.nontrivial();
}
struct Group { std::vector<Seq> good, bad; };
void add(std::vector<mc::Space> &v, const std::string &name, const std::string &what, std::shared_ptr<Group> g, size_t per = 200) {
    uint64_t nb = (g->good.size() + per - 1) / per;
    if (nb) v.push_back({name, what + fmt(" (%zu valid)", g->good.size()), nb, [g, per](mc::Ctx &c, uint64_t i) {
        std::vector<Seq> q(g->good.begin() + i * per, g->good.begin() + std::min<size_t>(g->good.size(), (i + 1) * per));
        batch(c, q);
    }});
    if (!g->bad.empty()) v.push_back({name + "-errors", what + fmt(" (%zu invalid)", g->bad.size()), g->bad.size(), [g](mc::Ctx &c, uint64_t i) { single(c, g->bad[i]); }});
}
void sort_in(Group &g, const Seq &q, bool keepbad = true) {
    State s = fresh();
    std::string w;
    try { interpret(q, s, w); g.good.push_back(q); } catch (Stop &) { if (keepbad) g.bad.push_back(q); }
}
// all sequences with every directive followed by a mark
void sequences(Group &g, const std::vector<Item> &alpha, int max, int maxbad, const Seq &tail) {
    std::vector<int> w;
    std::function<void(int, std::vector<int> &)> go = [&](int depth, std::vector<int> &st) {
        Seq q;
        for (size_t i = 0; i < w.size(); i++) { q.push_back(alpha[w[i]]); q.push_back({MARK, std::to_string(i)}); }
        bool complete = st.empty();
        q.insert(q.end(), tail.begin(), tail.end());
        if (complete) sort_in(g, q, (int)w.size() <= maxbad);
        else if ((int)w.size() <= maxbad) g.bad.push_back(q);
        if ((int)w.size() == max) return;
        for (size_t a = 0; a < alpha.size(); a++) {
            K k = alpha[a].k;
            auto st2 = st;
            bool bad = false;
            if (k == IF || k == IFDEF || k == IFNDEF) { if ((int)st2.size() + 1 > max - (int)w.size() - 1 && (int)w.size() >= maxbad) continue; st2.push_back(0); }
            if (k == ELSE || k == ELSEIF) { bad = st2.empty() || st2.back(); if (!bad) st2.back() = k == ELSE; }
            if (k == ENDIF) { bad = st2.empty(); if (!bad) st2.pop_back(); }
            w.push_back(a);
            if (bad) { if ((int)w.size() <= maxbad) { Seq b; for (auto y : w) { b.push_back(alpha[y]); b.push_back({MARK, "m"}); } g.bad.push_back(b); } }
            else if ((int)(w.size() + st2.size()) <= max || (int)w.size() <= maxbad) go(depth + 1, st2);
            w.pop_back();
        }
    };
    std::vector<int> st;
    go(0, st);
}
struct Expr { std::string text; bool v; };
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C24";
    chk.technique = "exhaustive enumeration of directive sequences, conditions, expansions and include graphs, preprocessed by the built wixl -E and compared with an interpreter of the language";
    chk.rule = "the output is exactly the kept text, elements and attributes with variables expanded; what is wrong makes the run fail with a message; non-trivial: a document came out";

    // ---- branches ----
    auto g1 = std::make_shared<Group>();
    sequences(*g1, {{IF, "1", "", true}, {IF, "1 = 2", "", false}, {IFDEF, "var.A"}, {IFNDEF, "var.A"}, {ELSEIF, "\"a\" = \"a\"", "", true}, {ELSEIF, "0", "", false}, {ELSE, ""}, {ENDIF, ""}, {DEF, "A", "=x"}, {UNDEF, "A"}}, thorough ? 7 : 6, thorough ? 4 : 3, {{IFDEF, "var.A"}, {TEXT, "A=$(var.A)"}, {ELSE, ""}, {TEXT, "no A"}, {ENDIF, ""}});
    add(chk.spaces, "branches", "every sequence of if/ifdef/ifndef/elseif/else/endif/define/undef", g1, 400);
    // ---- nesting: deeper, fewer kinds ----
    auto g2 = std::make_shared<Group>();
    sequences(*g2, {{IF, "1", "", true}, {IF, "0", "", false}, {ELSEIF, "1", "", true}, {ELSEIF, "0", "", false}, {ELSE, ""}, {ENDIF, ""}}, thorough ? 10 : 9, 0, {});
    add(chk.spaces, "nesting", "every nesting of if/elseif/else/endif", g2, 400);
    // ---- what an unselected branch may hold ----
    auto g3 = std::make_shared<Group>();
    static const std::vector<Item> inert = {{TEXT, "$(var.undefined)"}, {TEXT, "$(var.A"}, {ATTR, "$(bad)"}, {CDATA, "$(var.none)"}, {INC, "missing.wxi"}, {REQ, "missing.wxi"}, {ERR, "no"}, {WARN, "$(var.none)"}, {DEF, "A", ""}, {DEF, "A", "=1"}, {UNDEF, "B"}, {IF, "(", "", false}, {IFDEF, "nodot"}, {IF, "$(other.x) = 1", "", false}, {RAW, "<?foreach x?>"}, {RAW, "<!-- $(var.x) -->"}};
    for (size_t i = 0; i < inert.size(); i++) for (size_t j = 0; j < inert.size(); j++) for (int form = 0; form < 6; form++) {
        Seq in = {inert[i]};
        if (inert[i].k == IF || inert[i].k == IFDEF) { in.push_back({TEXT, "$(var.x)"}); in.push_back({ELSEIF, "(", "", false}); in.push_back({ENDIF, ""}); }
        in.push_back(inert[j]);
        if (inert[j].k == IF || inert[j].k == IFDEF) in.push_back({ENDIF, ""});
        Seq q;
        auto put = [&](std::initializer_list<Item> a) { q.insert(q.end(), a); };
        if (form == 0) { put({{IF, "0", "", false}}); q.insert(q.end(), in.begin(), in.end()); put({{ENDIF, ""}}); }
        if (form == 1) { put({{IF, "1", "", true}, {TEXT, "kept"}, {ELSE, ""}}); q.insert(q.end(), in.begin(), in.end()); put({{ENDIF, ""}}); }
        if (form == 2) { put({{IF, "1", "", true}, {TEXT, "kept"}, {ELSEIF, "(", "", true}}); q.insert(q.end(), in.begin(), in.end()); put({{ELSE, ""}}); q.insert(q.end(), in.begin(), in.end()); put({{ENDIF, ""}}); }
        if (form == 3) { put({{IF, "0", "", false}, {IF, "1", "", true}}); q.insert(q.end(), in.begin(), in.end()); put({{ELSE, ""}}); q.insert(q.end(), in.begin(), in.end()); put({{ENDIF, ""}, {ELSE, ""}, {TEXT, "kept"}, {ENDIF, ""}}); }
        if (form == 4) { put({{IF, "1", "", true}, {IFNDEF, "var.B"}}); q.insert(q.end(), in.begin(), in.end()); put({{IFDEF, "var.B"}}); q.insert(q.end(), in.begin(), in.end()); put({{ENDIF, ""}, {ENDIF, ""}, {ENDIF, ""}}); }
        if (form == 5) { put({{IF, "0", "", false}, {ELSEIF, "1", "", true}, {TEXT, "kept"}, {ELSE, ""}}); q.insert(q.end(), in.begin(), in.end()); put({{ENDIF, ""}}); }
        put({{TEXT, " B=$(var.B)"}});
        g3->good.push_back(q);
    }
    add(chk.spaces, "unselected", "two things without effect in each form of unselected branch", g3, 16);
    // ---- conditions ----
    std::vector<Expr> atoms;
    struct Num { const char *t; int v; };
    static const std::vector<Num> nums = {{"0", 0}, {"1", 1}, {"2", 2}, {"10", 10}, {"$(var.n2)", 2}, {"$(var.n10)", 10}, {"\"2\"", 2}, {"30000", 30000}, {"$(var.neg)", -3}};
    static const std::vector<std::pair<const char *, const char *>> strs = {{"\"foo\"", "foo"}, {"'foo'", "foo"}, {"foo", "foo"}, {"\"Foo\"", "Foo"}, {"\"\"", ""}, {"\"a b\"", "a b"}, {"$(var.s)", "foo"}, {"$(env.V)", "seven"}, {"seven", "seven"}, {"$(var.sp)", "a b"}, {"$(sys.BUILDARCH)", "x86"}, {"x86", "x86"}, {"2", "2"}, {"$(var.n2)", "2"}, {"\"and\"", "and"}, {"$(var.empty)", ""}, {"$(var.quoted)", "\"q\""}};
    auto lower = [](std::string s) { for (auto &ch : s) ch = tolower(ch); return s; };
    std::vector<Expr> all;
    for (auto sp : {" ", ""}) {
        for (auto &a : nums) for (auto &b : nums) {
            auto put = [&](const char *op, bool v) { all.push_back({a.t + std::string(sp) + op + sp + b.t, v}); };
            put("<", a.v < b.v); put("<=", a.v <= b.v); put(">", a.v > b.v); put(">=", a.v >= b.v); put("=", a.v == b.v); put("!=", a.v != b.v); put("~=", a.v == b.v);
        }
        for (auto &a : strs) for (auto &b : strs) {
            std::string x = a.second, y = b.second;
            auto put = [&](const char *op, bool v) { all.push_back({a.first + std::string(sp) + op + sp + b.first, v}); };
            put("=", x == y); put("!=", x != y); put("~=", lower(x) == lower(y));
        }
    }
    auto g4 = std::make_shared<Group>();
    Seq pre = {{DEF, "n2", "=2"}, {DEF, "n10", " = \"10\""}, {DEF, "neg", "=-3"}, {DEF, "s", "=foo"}, {DEF, "sp", "='a b'"}, {DEF, "empty", "=\"\""}, {DEF, "quoted", "='\"q\"'"}};
    auto cond = [&](const Expr &e) { Seq q = pre; q.insert(q.end(), {{IF, e.text, "", e.v}, {TEXT, "yes"}, {ELSE, ""}, {TEXT, "no"}, {ENDIF, ""}, {IF, "0", "", false}, {ELSEIF, e.text, "", e.v}, {TEXT, "YES"}, {ELSE, ""}, {TEXT, "NO"}, {ENDIF, ""}}); g4->good.push_back(q); };
    for (auto &e : all) cond(e);
    atoms = {{"1", true}, {"0", false}, {"1 = 1", true}, {"2 < 1", false}, {"not 0", true}, {"not 1", false}, {"not 1 = 1", false}, {"not not 1", true}, {"(1)", true}, {"(0 or 1)", true}, {"(1 and 0)", false}, {"not (1 or 0)", false}, {"not (1 = 2)", true}, {"((0))", false}, {"$(var.s) = foo", true}, {"NOT 1", false}};
    for (auto &a : atoms) cond(a);
    std::vector<Expr> two;
    for (auto &a : atoms) for (auto &b : atoms) for (auto op : {"and", "or", "And", "OR"}) {
        Expr e{a.text + " " + op + " " + b.text, tolower(op[0]) == 'a' ? a.v && b.v : a.v || b.v};
        cond(e);
        if (islower(op[0])) two.push_back(e);
        if (islower(op[0])) { cond({"(" + e.text + ")", e.v}); cond({"not (" + e.text + ")", !e.v}); }
    }
    for (size_t i = 0; i < two.size(); i++) for (auto &b : atoms) for (auto op : {"and", "or"}) {
        if (!thorough && b.text.size() > 7) continue;
        cond({two[i].text + " " + op + " " + b.text, *op == 'a' ? two[i].v && b.v : two[i].v || b.v});   // from left to right
        cond({b.text + " " + op + " (" + two[i].text + ")", *op == 'a' ? two[i].v && b.v : two[i].v || b.v});
    }
    for (auto e : {"", "1 and", "and 1", "(1", "not", "1 =", "= 1", "1 !", "1 ! 1", "()", "$(var.B", "$var.B = 1", "foo < 3", "$(var.B) >= 1", "1 < \"x\"", "2x < 3", "$(nokind) = 1", "$(other.B) = 1", "1 or (2", "not or 1", "1 < $(var.empty)", "\"1 1\" < 5"})
        g4->bad.push_back({{DEF, "empty", "=\"\""}, {IF, e, "", true}, {TEXT, "x"}, {ENDIF, ""}});
    {
        auto bad = std::make_shared<std::vector<Seq>>(g4->bad);
        g4->bad.clear();
        add(chk.spaces, "conditions", "every comparison of 9 numbers and 17 strings, and every combination of 16 terms", g4, 150);
        chk.spaces.push_back({"conditions-errors", "conditions that are none", bad->size(), [bad](mc::Ctx &c, uint64_t i) {
            std::string x = xml((*bad)[i]);
            c.step(x);
            Out o = wixl(c, wrap(RESET + "<c>" + x + "</c>"));
            if (!o.status) c.fail("error not reported", x + "\n" + o.out);
            if (o.err.empty()) c.fail("silent failure", x);
            c.state(fmt("%d", o.status));
        }});
    }
    // ---- expansion ----
    auto g5 = std::make_shared<Group>();
    static const std::vector<const char *> pieces = {"$", "$$", "$(var.B)", "$(var.A)", "$(env.V)", "(", ")", "x", " y", "<&>", "\xc3\xa9", "$(var.U)", "$(B)", "$(sys.BUILDARCH)", "%s%n", "var.B"};
    int maxp = thorough ? 4 : 3;
    for (int n = 0; n <= maxp; n++) {
        uint64_t tot = 1;
        for (int i = 0; i < n; i++) tot *= pieces.size();
        for (uint64_t k = 0; k < tot; k++) {
            std::string t;
            uint64_t x = k;
            for (int i = 0; i < n; i++) { t += pieces[x % pieces.size()]; x /= pieces.size(); }
            if (t.find_first_not_of(" ") == std::string::npos) continue;
            Seq q = {{DEF, "A", "='$B (a)'"}, {TEXT, "[" + t + "]"}, {ATTR, t}, {CDATA, "[" + t + "]"}};
            sort_in(*g5, q, n < 3);
        }
    }
    add(chk.spaces, "expansion", "every text of up to 3 (4) of 16 pieces, as text, attribute and CDATA", g5, 300);
    // ---- defines ----
    auto g6 = std::make_shared<Group>();
    static const std::vector<Item> defs = {{DEF, "A", "=1"}, {DEF, "var.A", " = \"two words\""}, {DEF, "A", "=$(var.B)"}, {DEF, "B", "= 'other'"}, {DEF, "B", "=$(var.A)$(var.B)"}, {UNDEF, "A"}, {UNDEF, "var.A"}, {UNDEF, "var.B"}, {DEF, "A", "=\"a=b\""}, {DEF, "A", "=\""}, {DEF, "A", "=$$(var.B)"}, {DEF, "A", "=\"\""}, {DEF, "A", "=  spaced out  "}, {DEF, "A", "=$(env.V)"}};
    for (size_t i = 0; i < defs.size(); i++) for (size_t j = 0; j < defs.size(); j++) for (size_t k = 0; k <= defs.size(); k++) {
        Seq q = {defs[i], {IFDEF, "var.A"}, {TEXT, "[$(var.A)]"}, {ENDIF, ""}, defs[j], {IFDEF, "var.A"}, {TEXT, "[$(var.A)]"}, {ENDIF, ""}};
        if (k < defs.size()) q.push_back(defs[k]);
        q.insert(q.end(), {{IFDEF, "var.A"}, {TEXT, "[$(var.A)]"}, {ENDIF, ""}, {IFNDEF, "var.B"}, {TEXT, "no B"}, {ELSE, ""}, {TEXT, "B=$(var.B)"}, {ENDIF, ""}});
        sort_in(*g6, q, k == defs.size());
    }
    for (auto b : {"", " = ", "="}) g6->bad.push_back({{DEF, "A", b}});
    add(chk.spaces, "defines", "every three definitions", g6, 150);
    // ---- includes ----
    static const std::vector<Seq> bodies = {
        {{TEXT, "plain"}}, {{DEF, "A", "=inc"}, {TEXT, "B=$(var.B)"}}, {{UNDEF, "B"}}, {{INC, "two.wxi"}, {TEXT, "after two"}}, {{REQ, "two.wxi"}, {REQ, "two.wxi"}}, {{IFDEF, "var.A"}, {TEXT, "A here"}, {ELSE, ""}, {TEXT, "no A"}, {DEF, "A", "=set"}, {ENDIF, ""}},
        {{IF, "1", "", true}, {TEXT, "open"}}, {{ENDIF, ""}}, {{ELSE, ""}}, {{INC, "one.wxi"}}, {{INC, "sub/three.wxi"}}, {{ATTR, "$(var.B)"}, {CDATA, "<c>"}}, {{TEXT, "$(var.undef)"}}, {{INC, "$(var.B).wxi"}}, {{RAW, "<Include>x</Include>", "<Include>x</Include>"}}, {}, {{RAW, "<Piece a='1'>in<b/></Piece>", "<Piece a=[1]>in<b></b></Piece>"}},
    };
    static const std::vector<Seq> uses = {
        {{INC, "one.wxi"}}, {{INC, "one.wxi"}, {INC, "one.wxi"}}, {{REQ, "one.wxi"}, {REQ, "one.wxi"}}, {{IF, "1", "", true}, {INC, "one.wxi"}, {ENDIF, ""}}, {{IF, "0", "", false}, {INC, "one.wxi"}, {ENDIF, ""}}, {{REQ, "one.wxi"}, {INC, "one.wxi"}, {REQ, "one.wxi"}}, {{DEF, "C", "=one"}, {INC, "$(var.C).wxi"}}, {{INC, " one.wxi "}}, {{REQ, "two.wxi"}, {INC, "one.wxi"}}, {{INC, "none.wxi"}}, {{INC, ""}}, {{DEF, "A", "=main"}, {INC, "one.wxi"}}, {{IF, "1", "", true}, {INC, "one.wxi"}, {ELSE, ""}, {TEXT, "else"}, {ENDIF, ""}},
    };
    uint64_t ni = bodies.size() * bodies.size() * uses.size() * 3;
    chk.spaces.push_back({"includes", "every body of one.wxi x body of two.wxi x use x place of the files", ni, [](mc::Ctx &c, uint64_t i) {
        int placed = i % 3;
        auto &use = uses[i / 3 % uses.size()];
        auto &b1 = bodies[i / 3 / uses.size() % bodies.size()], &b2 = bodies[i / 3 / uses.size() / bodies.size()];
        std::string d = c.scratch + "/w";
        mkdir(d.c_str(), 0755);
        wipe(d);
        for (auto s : {"/src", "/src/sub", "/cwd", "/cwd/sub", "/inc", "/inc/sub"}) mkdir((d + s).c_str(), 0755);
        std::string at = d + (placed == 0 ? "/cwd/" : placed == 1 ? "/src/" : "/inc/");
        if (placed == 2) writefile(d + "/src/two.wxi", "<Include>shadowed</Include>");
        if (placed == 0) { writefile(d + "/src/one.wxi", "<Include>shadowed</Include>"); writefile(d + "/inc/one.wxi", "<Include>shadowed</Include>"); }
        auto file = [](const Seq &s) { if (s.size() == 1 && s[0].a.compare(0, 6, "<Piece") == 0) return s[0].a; /* a root of its own */ return "<?xml version=\"1.0\"?>\n<Include>" + xml(s) + "</Include>\n"; };
        Seq b3 = {{TEXT, "three"}, {DEF, "B", "=from3"}};
        writefile(at + "one.wxi", file(b1));
        writefile(at + "two.wxi", file(b2));
        writefile(at + "bee.wxi", "<Include><?define B=again?></Include>");
        writefile(at + "sub/three.wxi", file(b3));
        State s = fresh();
        s.files = {{"one.wxi", b1}, {"two.wxi", b2}, {" one.wxi ", b1}, {"sub/three.wxi", b3}, {"bee.wxi", {{DEF, "B", "=again"}}}};
        Seq q = use;
        q.insert(q.end(), {{IFDEF, "var.A"}, {TEXT, " A=$(var.A)"}, {ENDIF, ""}, {IFDEF, "var.B"}, {TEXT, " B=$(var.B)"}, {ENDIF, ""}});
        std::string want, why;
        bool err = false;
        try { interpret(q, s, want); } catch (Stop &e) { err = true; why = e.what; }
        std::string doc = wrap(RESET + "<c>" + xml(q) + "</c>"), what = xml(use) + " with one.wxi: " + xml(b1) + " and two.wxi: " + xml(b2) + fmt(" placed %d", placed);
        writefile(d + "/src/t.wxs", doc);
        c.step(what);
        Args a = {bin("wixl"), "-E"};
        if (placed != 1) { a.push_back("-I"); a.push_back(d + "/inc"); }
        a.push_back("../src/t.wxs");
        Out o = run(a, d + "/cwd", c.scratch + "/io", 20, {"V=seven"});
        sane(c, o, what);
        c.state(err ? why : std::to_string(fnv(want) % 4096));
        if (err) {
            if (!o.status) c.fail("error not reported", why + ": " + what + "\n" + o.out);
            if (o.err.empty()) c.fail("silent failure", what);
            return;
        }
        if (o.status) c.fail("refused", what + "\n" + o.err);
        std::vector<std::string> v;
        if (!cases(o.out, v) || v.size() != 1) c.fail("unreadable output", what + "\n" + o.out);
        if (trim(v[0]) != trim(want)) c.fail("other output", what + "\nwanted " + want + "\ngot    " + v[0]);
        c.nontrivial();
    }});
    // ---- the rest ----
    struct Misc { const char *what, *doc; Args args; bool ok; const char *out, *err; };
    static const std::vector<Misc> misc = {
        {"defined on the command line", "<Wix><c>$(var.X)</c></Wix>", {"-D", "X=a=b"}, true, "a=b", ""},
        {"defined without a value", "<Wix><c>$(var.X)</c></Wix>", {"-D", "X"}, true, "1", ""},
        {"defined twice", "<Wix><c>$(var.X)</c></Wix>", {"-D", "X=1", "-D", "X=2"}, true, "2", ""},
        {"redefined by the source", "<Wix><?define X=3?><c>$(var.X)</c></Wix>", {"-D", "X=1"}, true, "3", ""},
        {"undefined by the source", "<Wix><?undef X?><c><?ifdef var.X?>y<?else?>n<?endif?></c></Wix>", {"-D", "X=1"}, true, "n", ""},
        {"warning", "<Wix><?warning look %s%s%n at $(var.X)?><c>x</c></Wix>", {"-D", "X=1"}, true, "x", "look %s%s%n at 1"},
        {"error", "<Wix><?error stop %s at $(var.X)?><c>x</c></Wix>", {"-D", "X=1"}, false, "", "stop %s at 1"},
        {"error later", "<Wix><c>x</c><?if 1?><?error stop?><?endif?></Wix>", {}, false, "", "stop"},
        {"unknown directive", "<Wix><?nonsense x?><c>x</c></Wix>", {}, true, "x", "nonsense"},
        {"attributes", "<Wix><c><a b='1' c='$(var.X)' d=\"&lt;&amp;&quot;'\"/></c></Wix>", {"-D", "X=\"<>&'"}, true, "<a b=[1] c=[\"<>&'] d=[<&\"']></a>", ""},
        {"markup in a variable", "<Wix><c>$(var.X)</c></Wix>", {"-D", "X=<b>&amp;</b>"}, true, "<b>&amp;</b>", ""},
        {"nested elements", "<Wix><c><a><b>t<d/>u</b><?if 0?><b/><?endif?></a>v</c></Wix>", {}, true, "<a><b>t<d></d>u</b></a>v", ""},
        {"not well formed", "<Wix><c>x</c>", {}, false, "", ""},
        {"not well formed in an unselected part", "<Wix><c><?if 0?><a></b><?endif?></c></Wix>", {}, false, "", ""},
        {"empty", "", {}, false, "", ""},
        {"build architecture", "<Wix><c>$(sys.BUILDARCH)</c></Wix>", {"-a", "x64"}, true, "x64", ""},
        {"unknown system variable", "<Wix><c>$(sys.NONE)</c></Wix>", {}, false, "", ""},
        {"missing environment variable", "<Wix><c>$(env.NOPE_NOT_SET)</c></Wix>", {}, false, "", ""},
        {"comments", "<Wix><c>x<!-- $(var.no) <?if?> -->y</c></Wix>", {}, true, "xy", ""},
        {"directives outside the root", "<?define X=9?><Wix><c>$(var.X)</c></Wix>", {}, true, "9", ""},
        {"condition around the root", "<?if 1?><Wix><c>in</c></Wix><?endif?>", {}, true, "in", ""},
        {"source path", "<Wix><c><?if $(sys.SOURCEFILEPATH) = $(var.P)?>y<?else?>n<?endif?></c></Wix>", {"-D", "P=@/t.wxs"}, true, "y", ""},
        {"current directory", "<Wix><c>$(sys.CURRENTDIR)</c></Wix>", {}, true, "@", ""},
        {"if without a condition", "<Wix><c><?if?>x<?endif?></c></Wix>", {}, false, "", ""},
        {"ifdef without a name", "<Wix><c><?ifdef?>x<?endif?></c></Wix>", {}, false, "", ""},
        {"define without anything", "<Wix><c><?define?>x</c></Wix>", {}, false, "", ""},
        {"missing source", nullptr, {}, false, "", ""},
    };
    chk.spaces.push_back({"others", "command line definitions, messages, markup and broken sources", misc.size(), [](mc::Ctx &c, uint64_t i) {
        auto m = misc[i];
        Out o;
        char real[4096];
        std::string here = realpath(c.scratch.c_str(), real);
        auto put = [&](std::string s) { if (!s.empty() && s.find('@') != std::string::npos) s.replace(s.find('@'), 1, here); return s; };
        for (auto &a : m.args) a = put(a);
        c.step(std::string(m.what) + ": " + (m.doc ? m.doc : ""));
        if (m.doc) o = wixl(c, m.doc, m.args);
        else { unlink((c.scratch + "/t.wxs").c_str()); o = run({bin("wixl"), "-E", "t.wxs"}, c.scratch, c.scratch + "/io"); sane(c, o, m.what); }
        c.state(m.what);
        if (*m.err && o.err.find(m.err) == std::string::npos) c.fail("message lost", std::string(m.what) + "\n" + o.err);
        if (!m.ok) { if (!o.status) c.fail("error not reported", std::string(m.what) + "\n" + o.out); if (o.err.empty()) c.fail("silent failure", m.what); return; }
        if (o.status) c.fail("refused", std::string(m.what) + "\n" + o.err);
        std::vector<std::string> v;
        if (!cases(o.out, v) || v.size() != 1) c.fail("unreadable output", m.what + ("\n" + o.out));
        if (trim(v[0]) != put(m.out)) c.fail("other output", std::string(m.what) + "\nwanted " + m.out + "\ngot    " + v[0]);
        c.nontrivial();
    }});
    chk.bounds = fmt("every valid sequence of <= %d of 10 directives and every nesting of <= %d; every comparison of 9 numbers and 17 strings, every combination of <= 3 of 16 terms; every text of <= %d of 16 pieces; every three of 14 definitions; 16 x 16 include bodies x 13 uses x 3 places", thorough ? 7 : 6, thorough ? 10 : 9, maxp);
    return mc::run(chk, argc, argv);
}
