// C23: msidump and msiextract write only inside the destination directory.
// Every run is made by an unprivileged user in a directory of its own, five levels deep.
#include "box.hpp"
#include "msiwrite.hpp"
#include "cab.hpp"
using namespace tool;
using namespace msiwrite;

namespace {
const std::vector<std::string> &names() {
    static const std::vector<std::string> v = {
        "plain", "a b", " lead", "*", "?eep", "[k]eep", "$(touch pwned)", "`touch pwned`", ";touch pwned", "|touch pwned", "&touch pwned&", ">pwned", "-n", "-s", "--help", "it's", "\"q\"", "back\\slash", "\xc3\xa9t\xc3\xa9", "~", "#c", "tab\tname", "%s%n", "$HOME", "{a,b}", "!x", "\\n",
        "..", ".", "../up", "../../up2", "../guard", "../../../up3", "a/b", "sub/../../x", "./here", "/", "@/abs", "@/guard", "..\\up", "..\\..\\guard", "a\nb", "a\n../up",
    };
    return v;
}
bool hostile(const std::string &n) { return n.find_first_of("/\n") != std::string::npos || n == ".." || n == "."; }
// absolute names point into the box
std::string real(const std::string &n, const Box &b) { return n[0] == '@' ? b.base + n.substr(1) : n; }

// ---- packages with files --------------------------------------------------------------
struct Dir { std::string id, parent, name; bool noparent = false; };
struct Comp { std::string id, dir; };
struct Fil { std::string key, comp, name, data; };
struct Med { std::string cab; std::vector<std::string> files; };
struct Pack {
    std::vector<Dir> dirs;
    std::vector<Comp> comps;
    std::vector<Fil> files;
    std::vector<Med> media;
};
Val s(const std::string &x) { return x.empty() ? Val::N() : Val::S(x); }
Database db(const Pack &p, std::map<std::string, std::string> &external, const std::map<std::string, std::string> &cabnames = {}) {
    Database d;
    d.tables["Directory"].cols = {{"Directory", 0x2d48}, {"Directory_Parent", 0x1d48}, {"DefaultDir", 0xfff}};
    for (auto &x : p.dirs) d.row("Directory", {s(x.id), x.noparent ? Val::N() : s(x.parent), s(x.name)});
    d.tables["Component"].cols = {{"Component", 0x2d48}, {"ComponentId", 0x1d26}, {"Directory_", 0xd48}, {"Attributes", 0x502}, {"Condition", 0x1dff}, {"KeyPath", 0x1d48}};
    for (auto &x : p.comps) d.row("Component", {s(x.id), Val::N(), s(x.dir), Val::I(0), Val::N(), Val::N()});
    d.tables["File"].cols = {{"File", 0x2d48}, {"Component_", 0xd48}, {"FileName", 0xfff}, {"FileSize", 0x104}, {"Version", 0x1d48}, {"Language", 0x1d14}, {"Attributes", 0x1502}, {"Sequence", 0x502}};
    int seq = 0;
    for (auto &m : p.media) for (auto &k : m.files) for (auto &x : p.files) if (x.key == k) d.row("File", {s(x.key), s(x.comp), s(x.name), Val::I((int)x.data.size()), Val::N(), Val::N(), Val::I(0), Val::I(++seq)});
    d.tables["Media"].cols = {{"DiskId", 0x2502}, {"LastSequence", 0x502}, {"DiskPrompt", 0x1f40}, {"Cabinet", 0x1dff}, {"VolumeLabel", 0x1d20}, {"Source", 0x1d48}};
    int id = 0;
    seq = 0;
    for (auto &m : p.media) {
        seq += m.files.size();
        d.row("Media", {Val::I(++id), Val::I(seq), Val::N(), s(m.cab), Val::N(), Val::N()});
        std::vector<cab::File> fs;
        for (auto &k : m.files) for (auto &x : p.files) if (x.key == k) { auto it = cabnames.find(k); fs.push_back({it == cabnames.end() ? k : it->second, x.data}); }
        if (m.cab.empty() || fs.empty()) continue;
        if (m.cab[0] == '#') d.streams[m.cab.substr(1)] = cab::make(fs);
        else external[m.cab] = cab::make(fs);
    }
    return d;
}
// where a file belongs, by the tables
std::string longname(const std::string &n) { auto p = n.find('|'); return p == std::string::npos ? n : n.substr(p + 1); }
std::string place(const Pack &p, const Fil &f) {
    std::string at;
    for (auto &k : p.comps) if (k.id == f.comp) at = k.dir;
    std::vector<std::string> parts;
    for (;;) {
        const Dir *d = nullptr;
        for (auto &x : p.dirs) if (x.id == at) d = &x;
        if (!d) break;
        std::string n = longname(d->name.substr(0, d->name.find(':')));
        if (d->id == "ProgramFilesFolder") n = "Program Files";
        else if (n == "." || n == "SourceDir") n = "";
        if (!n.empty()) parts.push_back(n);
        if (d->noparent || d->parent == d->id) break;
        at = d->parent;
    }
    std::string o;
    for (size_t i = parts.size(); i--;) o += parts[i] + "/";
    return o + longname(f.name);
}
void dirs_of(const std::string &f, std::map<std::string, std::string> &m) { for (size_t i = f.find('/'); i != std::string::npos; i = f.find('/', i + 1)) m[f.substr(0, i + 1)] = ""; }
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C23";
    chk.technique = "exhaustive enumeration of packages with plain and hostile names, dumped and extracted by the built tools as an unprivileged user in a private tree that is compared before and after";
    chk.rule = "nothing outside the destination changes; ordinary packages give exactly their tables, streams and files; otherwise a non-zero status; always ends; non-trivial: files were written";
    uint64_t N = names().size();
    chk.bounds = fmt("%d names as table x stream name x %s; every chain of <= 3 directories over 8 name forms x root form x cabinet form x option; every name as directory, file, cabinet, cabinet-member name; broken references", (int)N, thorough ? "6 modes" : "3 modes");

    static const std::vector<std::pair<const char *, Args>> modes = {{"ts", {"-t", "-s", "-d", "D"}}, {"t", {"-d", "D"}}, {"s", {"-s", "--directory", "../dest"}}, {"ts.", {"-t", "-s"}}, {"t", {"--tables", "--directory", "../dest"}}, {"s.", {"--streams"}}};
    int M = thorough ? 6 : 3;
    chk.spaces.push_back({"dump", "msidump of a package with every table name x stream name x mode", N * N * M, [=](mc::Ctx &c, uint64_t i) {
        Box b = box(c);
        std::string tn = real(names()[i % N], b), sn = real(names()[i / N % N], b);
        auto &mode = modes[i / N / N];
        if (!thorough && i / N / N > 0 && i % N != i / N % N && i % N && i / N % N) return;
        if (tn.size() > 60 || sn.size() > 60) { tn = tn.substr(0, 3) == "/tm" || tn.size() > 60 ? "/" + tn.substr(tn.size() - 5) : tn; if (sn.size() > 60) sn = "/" + sn.substr(sn.size() - 5); }
        Database d;
        d.tables[tn].cols = {{"K", 0x2d00}, {"D", 0x1900}, {"V", 0x1d00}};
        d.row(tn, {Val::S("key"), Val::B("bytes of the cell"), Val::S("*")});
        d.row(tn, {Val::S("other"), Val::N(), Val::N()});
        if (tn != "Z") { d.tables["Z"].cols = {{"K", 0x2502}}; d.row("Z", {Val::I(7)}); }
        d.streams[sn] = std::string("\0bytes of\r\nthe stream", 20) + sn;
        d.streams["zz"] = std::string(9000, 'z');
        writefile(b.pkg + "/p q.msi", package(d));
        bool here = mode.first[strlen(mode.first) - 1] == '.';
        std::string dest = here ? b.cwd : b.dest;
        Args a = {"msidump"};
        for (auto &x : mode.second) a.push_back(x == "D" ? b.dest : x);
        a.push_back("../pkg dir/p q.msi");
        c.step("table '" + tn + "', stream '" + sn + "': " + shown(a));
        Out o = go(c, b, a);
        auto m = made(c, b, dest, "table '" + tn + "', stream '" + sn + "'");
        c.state(fmt("%d %d %zu", (int)hostile(tn) * 2 + hostile(sn), o.status, m.size()));
        bool slash = (tn + ".key").find_first_of("/\n") != std::string::npos;
        bool bad = (strchr(mode.first, 't') && hostile(tn)) || (strchr(mode.first, 's') && (hostile(sn) || slash));
        if (bad) { if (!o.status) c.fail("success with unwritten names", "table '" + tn + "', stream '" + sn + "'"); return; }
        if (o.status && tn.find('`') != std::string::npos) return; // no query can name such a table
        if (o.status) c.fail("refused", "table '" + tn + "', stream '" + sn + "': " + o.err);
        std::map<std::string, std::string> w;
        std::string cell = tn + ".key";
        if (strchr(mode.first, 't')) {
            std::string in = tn; // a tab has a stand-in byte in archives
            std::replace(in.begin(), in.end(), '\t', '\x10');
            w[tn + ".idt"] = "K\tD\tV\r\ns0\tV0\tS0\r\n" + in + "\tK\r\nkey\t" + in + ".key" + "\t*\r\nother\t\t\r\n";
            w["Z.idt"] = "K\r\ni2\r\nZ\tK\r\n7\r\n";
            w[tn + "/"] = "";
            w[tn + "/" + cell] = "bytes of the cell";
            w["_SummaryInformation.idt"] = "PropertyId\tValue\r\ni2\tl255\r\n_SummaryInformation\tPropertyId\r\n";
            w["_ForceCodepage.idt"] = std::string("\r\n\r\n0\t_ForceCodepage\r\n");
        }
        if (strchr(mode.first, 's')) {
            w["_Streams/"] = "";
            for (auto &x : d.streams) w["_Streams/" + x.first] = x.second;
        }
        for (auto &x : m) if (x.first == "_ForceCodepage.idt" && !x.second.empty() && x.second.back() == '\0') x.second.pop_back();
        // rows are ordered by string ids: compare the lines
        for (auto *p : {&m, &w}) for (auto &x : *p) if (x.first == tn + ".idt") { std::vector<std::string> l; std::stringstream ss(x.second); std::string y; while (std::getline(ss, y)) l.push_back(y); std::sort(l.begin(), l.end()); x.second = join(l); }
        if (m != w) c.fail("other files", "table '" + tn + "', stream '" + sn + "'\n" + difftree(w, m));
        c.nontrivial();
    }});
    static const std::vector<std::pair<Args, bool>> dumpcl = {
        {{}, true}, {{"missing.msi"}, true}, {{"."}, true}, {{"keep"}, true}, {{"-d", "nodir", "../pkg dir/p.msi"}, true}, {{"-d"}, true}, {{"-t"}, true}, {{"-z", "../pkg dir/p.msi"}, true}, {{"-h"}, false}, {{"--help"}, false}, {{"-v"}, false}, {{"-S", "../pkg dir/p.msi"}, false}, {{"-t", "../pkg dir/p.msi"}, false}, {{"-t", "-s", "../pkg dir/cut.msi"}, true},
    };
    chk.spaces.push_back({"dump-commands", "good and bad msidump command lines", dumpcl.size(), [](mc::Ctx &c, uint64_t i) {
        Box b = box(c);
        Database d;
        d.tables["Z"].cols = {{"K", 0x2502}};
        d.row("Z", {Val::I(7)});
        std::string p = package(d);
        writefile(b.pkg + "/p.msi", p);
        writefile(b.pkg + "/cut.msi", p.substr(0, 700));
        Args a = {"msidump"};
        a.insert(a.end(), dumpcl[i].first.begin(), dumpcl[i].first.end());
        c.step(shown(a));
        Out o = go(c, b, a);
        made(c, b, b.cwd, shown(a));
        if (dumpcl[i].second && !o.status) c.fail("failure not reported", shown(a));
        if (dumpcl[i].second && o.err.empty() && o.out.empty()) c.fail("silent failure", shown(a));
        if (!dumpcl[i].second && o.status) c.fail("refused", shown(a) + " " + o.err);
        c.state(fmt("%d", o.status));
        if (!o.status) c.nontrivial();
    }});

    // directory chains below the root; every element: (id, DefaultDir)
    static const std::vector<std::pair<const char *, const char *>> forms = {{"D", "plain"}, {"D", "SHORT~1|long name"}, {"D", "."}, {"D", "tgt:src"}, {"D", "T~1|target long:S~1|source long"}, {"ProgramFilesFolder", "PFiles"}, {"D", "SourceDir"}, {"D", "\xc3\xa9|\xc3\xa9t\xc3\xa9"}};
    static const std::vector<const char *> roots = {"SourceDir", "self", "none", "named"};
    static const std::vector<const char *> cabs = {"#c.cab", "#c", "ext.cab", "EXT.Cab", "two", "#it's.cab"};
    uint64_t chains = 1 + 8 + 64 + 512;
    chk.spaces.push_back({"extract", "every chain of directories x root form x cabinet form x option", chains * roots.size() * cabs.size() * 3, [=](mc::Ctx &c, uint64_t i) {
        int how = i % 3, cf = i / 3 % cabs.size(), rf = i / 3 / cabs.size() % roots.size();
        uint64_t ch = i / 3 / cabs.size() / roots.size();
        if (!thorough && ch > 72 && (ch + how + cf + rf) % 24) return;
        std::vector<int> w;
        for (uint64_t p = 1; ch >= p; p *= 8) { ch -= p; w.push_back(0); }
        for (auto &x : w) { x = ch % 8; ch /= 8; }
        Pack p;
        p.dirs.push_back({"TARGETDIR", "TARGETDIR", rf == 3 ? "Top" : "SourceDir", rf == 0 || rf == 2 || rf == 3});
        std::string at = "TARGETDIR";
        bool pf = false;
        for (size_t k = 0; k < w.size(); k++) {
            std::string id = forms[w[k]].first;
            if (id == "D") id += std::to_string(k);
            else if (pf) return;
            else pf = true;
            p.dirs.push_back({id, at, forms[w[k]].second});
            at = id;
        }
        p.comps = {{"C0", "TARGETDIR"}, {"C1", at}};
        p.files = {{"f0", "C0", "r.txt", "file of the root"}, {"f1", "C1", "F~1.TXT|a file.txt", std::string(40000, 'q') + "end"}, {"f2", "C1", "b", ""}, {"f_3", "C1", "c\xc3\xa9.d", std::string("\0\1\2", 3)}};
        if (cf == 4) p.media = {{"", {}}, {"#one.cab", {"f0", "f1"}}, {"", {}}, {"ext.cab", {"f2", "f_3"}}, {"", {}}};
        else p.media = {{cabs[cf], {"f0", "f1", "f2", "f_3"}}};
        Box b = box(c);
        std::map<std::string, std::string> ext;
        writefile(b.pkg + "/p q.msi", package(db(p, ext)));
        // directories of the name in other cases are no cabinets
        if (cf == 3) for (auto d : {"ext.cab", "EXT.CAB"}) ::mkdir((b.pkg + "/" + d).c_str(), 0755);
        for (auto &x : ext) writefile(b.pkg + "/" + (cf == 3 ? "eXt.CAB" : x.first), x.second);
        if (cf == 3) for (auto d : {"Ext.Cab", "exT.caB"}) ::mkdir((b.pkg + "/" + d).c_str(), 0755);
        Args a = {"msiextract"};
        std::string dest = b.cwd;
        if (how == 1) { a.push_back("-C"); a.push_back(b.dest + "/new dir"); dest = b.dest; }
        if (how == 2) a.push_back("-l");
        a.push_back("../pkg dir/p q.msi");
        std::map<std::string, std::string> want;
        std::multiset<std::string> list, got;
        for (auto &f : p.files) { std::string at = place(p, f); list.insert(at); if (how != 2) { want[(how == 1 ? "new dir/" : "") + at] = f.data; } }
        for (auto x : want) dirs_of(x.first, want);
        std::string what = shown(a) + " with";
        for (auto &x : list) what += " " + x;
        c.step(what);
        Out o = go(c, b, a);
        if (o.status) c.fail("refused", what + ": " + o.err);
        auto m = made(c, b, dest, what);
        if (m != want) c.fail("other files", what + "\n" + difftree(want, m));
        std::stringstream ss(o.out);
        std::string l;
        while (std::getline(ss, l)) got.insert(l);
        if (got != list) c.fail("other list", what + "\n" + o.out);
        c.state(fmt("%d %zu", how, w.size()) + roots[rf] + cabs[cf]);
        if (!m.empty()) c.nontrivial();
    }});
    chk.spaces.push_back({"extract-names", "every name as a directory, nested directory, file, short-and-long file, cabinet, external cabinet, unlisted cabinet member, component", N * N * 8, [=](mc::Ctx &c, uint64_t i) {
        int where = i % 8;
        uint64_t x = i / 8 % N, y = i / 8 / N;
        if (!thorough && x && y && x != y) return;
        Box b = box(c);
        std::string n1 = real(names()[x], b), n2 = real(names()[y], b);
        Pack p;
        p.dirs = {{"TARGETDIR", "", "SourceDir", true}, {"D0", "TARGETDIR", "one"}, {"D1", "D0", "two"}};
        p.comps = {{"C0", "D0"}, {"C1", "D1"}};
        p.files = {{"f0", "C0", "first", "file zero"}, {"f1", "C1", "second", "file one, another"}};
        std::string cabname = "#c.cab";
        std::map<std::string, std::string> inside;
        if (where == 0) { p.dirs[1].name = n1; p.dirs[2].name = n2; }
        if (where == 1) { p.dirs[2].name = "s|" + n1; p.files[1].name = n2; }
        if (where == 2) { p.files[0].name = n1; p.files[1].name = n2; }
        if (where == 3) { p.files[0].name = "A~1|" + n1; p.files[1].name = n2 + "|second"; }
        if (where == 4) cabname = "#" + n1 + n2;
        if (where == 5) cabname = n1 + n2;
        if (where == 6 && n1 == n2) return; // no cabinet has two members of a name
        if (where == 6) { inside["f0"] = n1; inside["f1"] = n2; }
        if (where == 7) { p.comps[0].id = p.files[0].comp = n1; p.comps[1].id = p.files[1].comp = n2 + "2"; p.dirs[2].id = p.comps[1].dir = n2; }
        if (cabname.size() > 60) return;
        p.media = {{cabname, {"f0", "f1"}}};
        std::map<std::string, std::string> ext;
        writefile(b.pkg + "/p.msi", package(db(p, ext, inside)));
        for (auto &e : ext) if (e.first.find('/') == std::string::npos) writefile(b.pkg + "/" + e.first, e.second);
        Args a = {"msiextract", "-C", "../dest", "../pkg dir/p.msi"};
        std::string what = fmt("case %d: '", where) + n1 + "', '" + n2 + "'";
        c.step(what);
        Out o = go(c, b, a);
        auto m = made(c, b, b.dest, what);
        bool bad = hostile(n1) || hostile(n2) || n1.find('\\') != std::string::npos || n2.find('\\') != std::string::npos || n1.find('|') != std::string::npos || n2.find('|') != std::string::npos;
        if (where == 7) bad = false;
        if (o.status && !bad) c.fail("refused", what + ": " + o.err);
        if (o.status && o.err.empty()) c.fail("silent failure", what);
        c.state(fmt("%d %d %d", where, o.status, (int)bad));
        if (o.status) return;
        std::multiset<std::string> have, want;
        for (auto &f : m) if (f.first.back() != '/') have.insert(f.second);
        for (auto &f : p.files) want.insert(f.data);
        bool same = where == 2 && n1 == n2 ? false : true;
        if (have != want && same && !(where == 6 && n1 == n2) && !bad) c.fail("other files", what + fmt(": %zu files", have.size()));
        if (!bad && where != 6) {
            std::map<std::string, std::string> w;
            for (auto &f : p.files) w[place(p, f)] = f.data;
            for (auto f : w) dirs_of(f.first, w);
            if (m != w) c.fail("other files", what + "\n" + difftree(w, m));
        }
        if (!m.empty()) c.nontrivial();
    }});
    static const char *broken[] = {"no directory", "no component", "no cabinet stream", "no external cabinet", "cyclic directories", "cabinet is garbage", "cut cabinet", "no Directory table", "no Media table", "two-directory cycle", "empty component directory", "no File table", "cabinet of no bytes", "no media rows", "missing package", "no arguments", "garbage package", "two packages, list", "two packages, extract", "unknown option", "destination is a file"};
    chk.spaces.push_back({"extract-broken", "packages with broken references and contents", sizeof broken / sizeof *broken, [](mc::Ctx &c, uint64_t i) {
        Box b = box(c);
        Pack p;
        p.dirs = {{"TARGETDIR", "", "SourceDir", true}, {"D0", "TARGETDIR", "one"}, {"D1", "D0", "two"}};
        p.comps = {{"C0", "D0"}, {"C1", "D1"}};
        p.files = {{"f0", "C0", "first", "file zero"}, {"f1", "C1", "second", "file one"}};
        p.media = {{"#c.cab", {"f0", "f1"}}};
        if (i == 0) p.comps[1].dir = "Nope";
        if (i == 1) p.files[1].comp = "Nope";
        if (i == 3) p.media[0].cab = "ext.cab";
        if (i == 4) p.dirs[1].parent = "D1";
        if (i == 9) { p.dirs[1].parent = "D1"; p.dirs[2].parent = "D0"; }
        if (i == 10) p.comps[1].dir = "";
        std::map<std::string, std::string> ext;
        Database d = db(p, ext);
        if (i == 2) d.streams.clear();
        if (i == 5) d.streams["c.cab"] = std::string(500, 'g');
        if (i == 6) d.streams["c.cab"].resize(d.streams["c.cab"].size() - 9);
        if (i == 7) d.tables.erase("Directory");
        if (i == 8) d.tables.erase("Media");
        if (i == 11) d.tables.erase("File");
        if (i == 12) d.streams["c.cab"] = "";
        if (i == 13) d.tables["Media"].rows.clear();
        std::string bytes = i == 16 ? std::string(3000, 'g') : package(d);
        writefile(b.pkg + "/p.msi", bytes);
        Args a = {"msiextract", "-C", "../dest", "../pkg dir/p.msi"};
        if (i == 14) a.back() = "../pkg dir/none.msi";
        if (i == 15) a = {"msiextract"};
        bool two = i == 17 || i == 18;
        if (two) {
            Pack q = p;
            for (auto &f : q.files) { f.name = "other " + f.name; f.data += " of the other"; }
            writefile(b.pkg + "/q.msi", package(db(q, ext)));
            a = {"msiextract", i == 17 ? "-l" : "-C", i == 17 ? "../pkg dir/p.msi" : "../dest", i == 17 ? "../pkg dir/q.msi" : "../pkg dir/p.msi"};
            if (i == 18) a.push_back("../pkg dir/q.msi");
        }
        if (i == 19) a = {"msiextract", "--nonsense"};
        if (i == 20) a[2] = "../dest/keep";
        c.step(broken[i]);
        Out o = go(c, b, a);
        auto m = made(c, b, b.dest, broken[i]);
        c.state(broken[i]);
        if (two) {
            std::multiset<std::string> l;
            std::stringstream ss(o.out);
            std::string x;
            while (std::getline(ss, x)) l.insert(x);
            if (o.status || l != std::multiset<std::string>{"one/first", "one/two/second", "one/other first", "one/two/other second"}) c.fail("two packages", o.out + o.err);
            size_t n = 0;
            for (auto &f : m) n += f.first.back() != '/';
            if (i == 18 && n != 4) c.fail("two packages", fmt("%zu files", n));
            c.nontrivial();
            return;
        }
        if (i == 13) { if (o.status) c.fail("refused", std::string(broken[i]) + o.err); return; }
        if (!o.status) c.fail("failure not reported", broken[i]);
        if (o.err.empty()) c.fail("silent failure", broken[i]);
    }});
    return mc::run(chk, argc, argv);
}
