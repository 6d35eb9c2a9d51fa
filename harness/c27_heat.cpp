// C27: wixl-heat lists every given file exactly once, in a fragment that wixl turns into exactly these files.
#include "package.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace package;

namespace {
using Args = std::vector<std::string>;
std::string guid(int n) { return "11111111-1111-1111-1111-1111111111" + fmt("%02X", n); }
struct Options { std::string prefix = "d/"; Args exclude; std::string var, dr, cg; bool win64 = false; };
struct Frag {
    std::string dr, cg, define;
    bool group = false;
    std::map<std::string, std::string> files;   // source -> component
    std::map<std::string, std::string> parent;  // source -> directory path
    std::map<std::string, std::string> fileids; // source -> id
    std::vector<std::string> members;           // of the component group
    std::multiset<std::string> dirs;            // paths, "a/b"
    std::map<std::string, std::string> dirids;  // path -> id
    std::set<std::string> ids, guids, win64;    // attribute values seen
};
std::string attr(xmlNode *n, const char *a) { xmlChar *v = xmlGetNoNsProp(n, (const xmlChar *)a); std::string s = v ? (const char *)v : ""; xmlFree(v); return s; }
bool has(xmlNode *n, const char *a) { return xmlHasProp(n, (const xmlChar *)a) != nullptr; }
std::vector<xmlNode *> kids(xmlNode *n, const std::string &name = "") {
    std::vector<xmlNode *> v;
    for (n = n->children; n; n = n->next) if (n->type == XML_ELEMENT_NODE && (name.empty() || name == (const char *)n->name)) v.push_back(n);
    return v;
}
void only(mc::Ctx &c, xmlNode *n, const std::set<std::string> &names) {
    for (auto k : kids(n)) if (!names.count((const char *)k->name)) c.fail("unexpected element", (const char *)k->name);
    for (xmlNode *k = n->children; k; k = k->next) if (k->type == XML_TEXT_NODE) { xmlChar *t = xmlNodeGetContent(k); std::string s = (const char *)t; xmlFree(t); if (s.find_first_not_of(" \n\r\t") != std::string::npos) c.fail("stray text", s); }
}
void newid(mc::Ctx &c, Frag &f, const std::string &id) {
    bool ok = !id.empty() && id.size() <= 72 && !isdigit((unsigned char)id[0]);
    for (char ch : id) if (!isalnum((unsigned char)ch) && !strchr("_.", ch)) ok = false;
    if (!ok) c.fail("identifier", "'" + id + "'");
    if (!f.ids.insert(id).second) c.fail("identifier used twice", id);
}
void walk(mc::Ctx &c, Frag &f, xmlNode *n, const std::string &path) {
    only(c, n, {"Directory", "Component"});
    std::set<std::string> names;
    for (auto k : kids(n, "Component")) {
        std::string id = attr(k, "Id");
        newid(c, f, id);
        f.guids.insert(attr(k, "Guid"));
        f.win64.insert(has(k, "Win64") ? attr(k, "Win64") : "-");
        only(c, k, {"File"});
        auto fs = kids(k, "File");
        if (fs.size() != 1) c.fail("component without its one file", id);
        std::string fid = attr(fs[0], "Id"), src = attr(fs[0], "Source");
        newid(c, f, fid);
        if (attr(fs[0], "KeyPath") != "yes") c.fail("file is not the key path", src);
        if (!f.files.emplace(src, id).second) c.fail("file listed twice", src);
        f.parent[src] = path;
        f.fileids[src] = fid;
    }
    for (auto k : kids(n, "Directory")) {
        std::string id = attr(k, "Id"), name = attr(k, "Name"), p = name == "." ? path : path.empty() ? name : path + "/" + name;   // "." is the directory above
        newid(c, f, id);
        if (!names.insert(name).second) c.fail("directory listed twice", p);
        if (name != ".") f.dirs.insert(p), f.dirids[p] = id;
        walk(c, f, k, p);
    }
}
Frag parse(mc::Ctx &c, const std::string &text, const std::string &what) {
    Frag f;
    xmlDoc *d = xmlReadMemory(text.data(), text.size(), "fragment", nullptr, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
    if (!d) c.fail("not well-formed", what + ": " + text);
    std::unique_ptr<xmlDoc, void (*)(xmlDoc *)> own(d, xmlFreeDoc);
    xmlNode *r = xmlDocGetRootElement(d);
    if (!r || std::string((const char *)r->name) != "Wix" || !r->ns || std::string((const char *)r->ns->href) != "http://schemas.microsoft.com/wix/2006/wi") c.fail("root element", what);
    only(c, r, {"Fragment"});
    int drs = 0;
    for (auto fr : kids(r)) {
        only(c, fr, {"DirectoryRef", "ComponentGroup"});
        for (auto k : kids(fr)) {
            if (std::string((const char *)k->name) == "DirectoryRef") { f.dr = attr(k, "Id"); if (drs++) c.fail("two directory references", what); walk(c, f, k, ""); }
            else {
                if (f.group) c.fail("two component groups", what);
                f.group = true;
                f.cg = attr(k, "Id");
                only(c, k, {"ComponentRef"});
                for (auto m : kids(k)) f.members.push_back(attr(m, "Id"));
            }
        }
    }
    if (drs != 1) c.fail("no directory reference", what);
    return f;
}
Args command(const Options &o) {
    Args v = {bin("wixl-heat"), "-p", o.prefix};
    for (auto &x : o.exclude) { v.push_back("-x"); v.push_back(x); }
    auto opt = [&](const char *n, const std::string &x) { if (!x.empty()) { v.push_back(n); v.push_back(x); } };
    opt("--var", o.var); opt("--directory-ref", o.dr); opt("--component-group", o.cg);
    if (o.win64) v.push_back("--win64");
    return v;
}
struct Want { std::vector<std::string> files; std::set<std::string> dirs; };
std::vector<std::string> comps(const std::string &p) { std::vector<std::string> v; std::stringstream ss(p); std::string x; while (std::getline(ss, x, '/')) if (!x.empty() && x != ".") v.push_back(x); return v; }
// isdir: of the listed line, as the file system has it
Want expected(const Args &lines, const Options &o, const std::string &cwd) {
    Want w;
    for (auto &l : lines) {
        if (l.compare(0, o.prefix.size(), o.prefix)) continue;
        std::string rel = l.substr(o.prefix.size());
        bool skip = false;
        for (auto &x : o.exclude) if (!rel.compare(0, x.size(), x)) skip = true;
        if (skip) continue;
        struct stat st;
        bool dir = !stat((l[0] == '/' ? l : cwd + "/" + l).c_str(), &st) && S_ISDIR(st.st_mode);
        auto parts = comps(rel);
        if (!dir && !parts.empty()) parts.pop_back();
        std::string p;
        for (auto &x : parts) { p = p.empty() ? x : p + "/" + x; w.dirs.insert(p); }
        if (!dir && std::find(w.files.begin(), w.files.end(), rel) == w.files.end()) w.files.push_back(rel);
    }
    return w;
}
std::string dirof(const std::string &rel) { auto v = comps(rel); std::string p; for (size_t i = 0; i + 1 < v.size(); i++) p += (i ? "/" : "") + v[i]; return p; }
void plant(const std::string &cwd, const std::map<std::string, std::string> &files, const Args &dirs) {
    wipe(cwd);
    auto up = [&](const std::string &p) { for (size_t i = cwd.size(); i < p.size(); i++) if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0777); };
    mkdir(cwd.c_str(), 0777);
    for (auto &d : dirs) { up(cwd + "/" + d + "/"); }
    for (auto &f : files) { up(cwd + "/" + f.first); writefile(cwd + "/" + f.first, f.second); }
}
std::string heat(mc::Ctx &c, const Args &lines, const Options &o, const std::string &cwd, const std::string &what) {
    std::string in;
    for (auto &l : lines) in += l + "\n";
    Out r = run(command(o), cwd, c.scratch + "/io", 20, {}, &in);
    sane(c, r, what);
    if (r.status) c.fail("refused", what + ": " + r.err);
    if (r.err.find("WARNING **") != std::string::npos) c.fail("warning of the program", what + ": " + r.err);
    return r.out;
}
// the fragment as XML; names without a dollar are compared here, all of them in the package
Frag fragment(mc::Ctx &c, const std::string &text, const Args &lines, const Options &o, const std::string &cwd, const std::string &what) {
    Frag f = parse(c, text, what);
    Want w = expected(lines, o, cwd);
    std::string root = o.var.empty() ? "SourceDir" : "$(" + o.var + ")";
    if (f.dr != (o.dr.empty() ? "TARGETDIR" : o.dr)) c.fail("directory reference", what + ": " + f.dr);
    if (f.group != !o.cg.empty() || f.cg != o.cg) c.fail("component group", what + ": " + f.cg);
    bool dollar = false;
    for (auto &l : w.files) if (l.find('$') != std::string::npos) dollar = true;
    for (auto &l : w.dirs) if (l.find('$') != std::string::npos) dollar = true;
    if (f.files.size() != w.files.size()) c.fail("files left out or added", what + fmt(": %zu instead of %zu\n", f.files.size(), w.files.size()) + text);
    if (f.dirs.size() != w.dirs.size()) c.fail("directories left out or added", what + fmt(": %zu instead of %zu\n", f.dirs.size(), w.dirs.size()) + text);
    if (!dollar) {
        for (auto &x : w.files) {
            if (!f.files.count(root + "/" + x)) c.fail("file left out", what + ": " + x + "\n" + text);
            if (f.parent[root + "/" + x] != dirof(x)) c.fail("file in another directory", what + ": " + x + " in " + f.parent[root + "/" + x]);
        }
        for (auto &x : w.dirs) if (!f.dirs.count(x)) c.fail("directory left out", what + ": " + x + "\n" + text);
    }
    std::multiset<std::string> a, b(f.members.begin(), f.members.end());
    for (auto &x : f.files) a.insert(x.second);
    if (f.group && a != b) c.fail("members of the component group", what + "\n" + text);
    if (!f.files.empty()) {
        if (f.win64 != std::set<std::string>{o.win64 ? "$(var.Win64)" : "-"}) c.fail("Win64 of the components", what + "\n" + text);
        if (f.guids != std::set<std::string>{"*"}) c.fail("codes of the components", what + "\n" + text);
    }
    return f;
}
// wixl on it
void packaged(mc::Ctx &c, const std::string &text, const Frag &f, const Args &lines, const Options &o, const std::string &cwd, const std::string &what) {
    Want w = expected(lines, o, cwd);
    std::string root = o.prefix;
    while (root.size() > 1 && root.back() == '/') root.pop_back();
    unlink((cwd + "/SourceDir").c_str());
    if (symlink(root.empty() ? "." : root.c_str(), (cwd + "/SourceDir").c_str())) c.fail("harness", "symlink");
    writefile(cwd + "/frag.wxs", text);
    std::string src = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Wix xmlns=\"http://schemas.microsoft.com/wix/2006/wi\"><Product Id=\"" + guid(1) + "\" Name=\"n\" Manufacturer=\"m\" Version=\"1.0.0\" UpgradeCode=\"" + guid(2) + "\" Language=\"1033\"><Package InstallerVersion=\"200\"/><Media Id=\"1\" Cabinet=\"a.cab\" EmbedCab=\"yes\"/><Directory Id=\"TARGETDIR\" Name=\"SourceDir\"><Directory Id=\"INSTALLDIR\" Name=\"inst\"/></Directory><Feature Id=\"F\" Level=\"1\">";
    if (f.group) src += "<ComponentGroupRef Id=\"" + f.cg + "\"/>";
    else for (auto &x : f.files) src += "<ComponentRef Id=\"" + x.second + "\"/>";
    writefile(cwd + "/main.wxs", src + "</Feature></Product></Wix>\n");
    Args v = {bin("wixl"), "-o", "s.msi", "-D", "SRC=SourceDir", "-D", "Win64=yes", "main.wxs", "frag.wxs"};
    Out r = run(v, cwd, c.scratch + "/io", 60);
    sane(c, r, what + ", wixl");
    if (r.status) c.fail("fragment not accepted by wixl", what + ": " + r.err + "\n" + text);
    Snap s = filesnap(c, cwd + "/s.msi");
    Cabs cabs = check(c, s, cwd, what);
    View pv{s};
    std::map<std::string, std::string> up, name, comp, bytes;
    for (auto &x : pv.rows("Directory")) { if (x.count("Directory_Parent")) up[x["Directory"].s] = x["Directory_Parent"].s; name[x["Directory"].s] = x["DefaultDir"].s; }
    std::string top = o.dr.empty() ? "TARGETDIR" : o.dr;
    std::function<std::string(const std::string &)> path = [&](const std::string &d) -> std::string {
        if (d == top) return "";
        if (!up.count(d)) return "?" + d;
        std::string n = name[d], p = path(up[d]);
        if (n == ".") return p;
        return p.empty() ? n : p + "/" + n;
    };
    std::set<std::string> dirs;
    for (auto &x : name) if (x.first != "TARGETDIR" && x.first != "INSTALLDIR" && x.second != ".") dirs.insert(path(x.first));
    if (dirs != w.dirs) { std::string a, b; for (auto &x : dirs) a += "[" + x + "]"; for (auto &x : w.dirs) b += "[" + x + "]"; c.fail("other directories in the package", what + ": " + a + " instead of " + b); }
    for (auto &x : pv.rows("Component")) { comp[x["Component"].s] = x["Directory_"].s; if (!!(x["Attributes"].i & 256) != o.win64) c.fail("Win64 of the components", what); }
    for (auto &k : cabs) for (auto &x : k.second) bytes[x.name] = x.data;
    std::multiset<std::pair<std::string, std::string>> have, want;
    for (auto &x : pv.rows("File")) {
        std::string p = path(comp[x["Component_"].s]), n = x["FileName"].s;
        have.insert({p.empty() ? n : p + "/" + n, bytes[x["File"].s]});
    }
    for (auto &x : w.files) { auto v = comps(x); std::string p; for (auto &y : v) p += (p.empty() ? "" : "/") + y; auto d = readfile((o.prefix[0] == '/' ? "" : cwd + "/") + o.prefix + x); want.insert({p, d.value_or("?")}); }
    if (have != want) { std::string a, b; for (auto &x : have) a += "[" + x.first + "]"; for (auto &x : want) b += "[" + x.first + "]"; c.fail("other files in the package", what + ": " + a + " instead of " + b); }
    std::set<std::string> codes = pv.names("Component", "ComponentId");
    if (codes.size() != w.files.size()) c.fail("component codes", what);
    c.nontrivial();
}
std::string said(const Args &lines, const Options &o) { std::string s; auto v = command(o); v[0] = "wixl-heat"; s = shown(v) + " of"; for (auto &l : lines) s += " [" + l + "]"; return s; }
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C27";
    chk.technique = "exhaustive enumeration of file lists, names and option combinations, run through the real wixl-heat and then the real wixl; the fragment is read by an XML parser, the package by a reader of its own, and both are compared with the list and the files on disk";
    chk.rule = "exactly one component and file per listed file, in its directory; unique and stable identifiers; options honoured; wixl builds a package holding exactly these files; non-trivial: a package was built and compared";

    // lists: every sequence, sorted or not, with repetitions
    const std::map<std::string, std::string> tree1 = {{"d/x", "1"}, {"d/y", "22"}, {"d/a/x", "333"}, {"d/a/y", "4444"}, {"d/a/b/x", "55555"}, {"d/b/x", "6"}, {"d/a/b/c/x", "77"}, {"d/ab/x", "888"}, {"o/z", "-"}};
    const Args dirs1 = {"d/c"};
    Args items;
    for (auto &f : tree1) items.push_back(f.first);
    for (auto &x : {"d/a", "d/a/", "d/c", "d/c/e", "d"}) items.push_back(x);
    uint64_t n = items.size(), nlists = 1 + n + n * n + n * n * n;
    if (thorough) nlists += n * n * n * n;
    chk.spaces.push_back({"lists", thorough ? "every list of up to four of fourteen paths" : "every list of up to three of fourteen paths", nlists, [=](mc::Ctx &c, uint64_t i) {
        Args lines;
        uint64_t k = i, cnt = 1, len = 0;
        while (k >= cnt) { k -= cnt; cnt *= n; len++; }
        std::vector<int> ix;
        for (uint64_t j = 0; j < len; j++) { ix.push_back(k % n); k /= n; }
        for (int j : ix) lines.push_back(items[j]);
        Options o;
        std::string cwd = c.scratch + "/w", what = said(lines, o);
        if (i % 4 == 1) o.cg = "CG";
        plant(cwd, tree1, dirs1);
        // d/c/e is listed though it is not there: a file like any other for wixl-heat
        c.step(what);
        std::string t = heat(c, lines, o, cwd, what);
        Frag f = fragment(c, t, lines, o, cwd, what);
        c.state(what);
        std::set<std::string> u(lines.begin(), lines.end());
        Args sorted(u.begin(), u.end());
        if (sorted != lines || i % 8 == 0) {
            Frag g = fragment(c, heat(c, sorted, o, cwd, what + " sorted"), sorted, o, cwd, what + " sorted");
            if (f.files != g.files || f.fileids != g.fileids) c.fail("identifiers are not stable", what);
            if (f.dirids != g.dirids) c.fail("identifiers are not stable", what + " (directories)");
        }
        if (sorted == lines && std::find(lines.begin(), lines.end(), "d/c/e") == lines.end()) packaged(c, t, f, lines, o, cwd, what);
    }});

    // names
    Args names = {"x", "a b", "a&b", "<x>", "q\"q", "it's", "&amp;", "%s%n%d", "$x", "$(x)", "$$", "$$(env.HOME)", "a$", "$(var.SRC)", "a$$$b", "\xc3\xbc\xe2\x82\xac", "]]>", "#1;", "-", "--", "-->", "a\tb", " lead", "trail ", "...", "[TARGETDIR]", "!(loc.x)", "<?if?>", "a=b,c", "\xf0\x9f\x98\x80", "+1", "~", "*", "$(sys.CURRENTDIR)"};
    uint64_t nn = names.size();
    chk.spaces.push_back({"names", "every pair of special names, one for the directory and one for the file, beside a plain file", nn * nn, [=](mc::Ctx &c, uint64_t i) {
        std::string dn = names[i % nn], fn = names[i / nn];
        std::string cwd = c.scratch + "/w";
        Options o;
        if ((i ^ i / nn) & 1) o.var = "var.SRC";
        o.cg = "CG";
        std::map<std::string, std::string> files = {{"d/" + dn + "/" + fn, "one"}, {"d/" + fn, "two" }, {"d/zz", "3"}};
        Args lines, ds;
        if (dn == fn) files.erase("d/" + fn);
        for (auto &f : files) lines.push_back(f.first);
        std::string what = said(lines, o);
        c.step(what);
        plant(cwd, files, ds);
        std::string t = heat(c, lines, o, cwd, what);
        Frag f = fragment(c, t, lines, o, cwd, what);
        c.state(what);
        if ((dn + fn).find("\xf0") == std::string::npos) packaged(c, t, f, lines, o, cwd, what); // else not in the codepage of the package
    }});

    // options
    Args prefixes = {"d/", "d", "./d/", "", "/", "d/a/", "none/", "d/a"};
    std::vector<Args> excl = {{}, {"a"}, {"a/"}, {"a/x", "b"}, {"x"}, {"zzz", "a/b/"}, {""}};
    chk.spaces.push_back({"options", "every combination of prefix, exclusion, variable, directory reference, group and Win64", prefixes.size() * excl.size() * 2 * 2 * 2 * 2, [=](mc::Ctx &c, uint64_t i) {
        Options o;
        std::string cwd = c.scratch + "/w", dir = "d";
        o.prefix = prefixes[i % prefixes.size()]; i /= prefixes.size();
        if (o.prefix == "/") { dir = cwd + "/d"; o.prefix = cwd + "/d/"; }
        if (o.prefix == "./d/") dir = "./d";
        o.exclude = excl[i % excl.size()]; i /= excl.size();
        if (i & 1) o.var = "var.SRC";
        if (i & 2) o.dr = "INSTALLDIR";
        if (i & 4) o.cg = "Group.1";
        if (i & 8) o.win64 = true;
        Args lines;
        plant(cwd, tree1, dirs1);
        for (auto &f : tree1) if (f.first[0] == 'd') lines.push_back(dir + f.first.substr(1));
        lines.push_back(dir + "/c");
        std::string what = said(lines, o);
        c.step(what);
        std::string t = heat(c, lines, o, cwd, what);
        Frag f = fragment(c, t, lines, o, cwd, what);
        c.state(what);
        if (heat(c, lines, o, cwd, what) != t) c.fail("not reproducible", what);
        if (o.prefix != "d/a") packaged(c, t, f, lines, o, cwd, what); // with d/a the rest of a path is no file name
    }});

    // what cannot be listed is refused, not skipped or mangled
    struct Bad { std::string what; Args args, lines; };
    std::vector<Bad> bad;
    for (int ch = 1; ch < 32; ch++) if (ch != '\n' && ch != '\t') bad.push_back({fmt("control character %d", ch), {"-p", "d/"}, {std::string("d/a") + (char)ch + "b"}});
    for (auto &x : {"\xff", "\xc3", "\xed\xa0\x80", "\xef\xbf\xbe", "\xc0\xaf"}) bad.push_back({"no text", {"-p", "d/"}, {std::string("d/a") + x}});
    for (auto &x : std::vector<Args>{{}, {"-p"}, {"-p", "d/", "--nonsense"}, {"-p", "d/", "--var"}, {"--component-group", "C"}}) bad.push_back({"wrong options", x, {"d/x"}});
    chk.spaces.push_back({"refused", "names XML cannot hold and wrong options, first, last or alone in the list", bad.size() * 3, [=](mc::Ctx &c, uint64_t i) {
        const Bad &b = bad[i / 3];
        Args v = {bin("wixl-heat")};
        v.insert(v.end(), b.args.begin(), b.args.end());
        std::string in, cwd = c.scratch + "/w";
        plant(cwd, tree1, {});
        if (i % 3 == 1) in += "d/x\n";
        for (auto &l : b.lines) in += l + "\n";
        if (i % 3 == 2) in += "d/y\n";
        std::string what = b.what + fmt(" at %d", (int)(i % 3));
        c.step(what);
        Out r = run(v, cwd, c.scratch + "/io", 20, {}, &in);
        sane(c, r, what);
        c.state(what);
        if (!r.status) c.fail("not refused", what + ": " + r.out);
        if (r.err.empty() && r.out.empty()) c.fail("silent failure", what);
    }});
    return mc::run(chk, argc, argv);
}
