// C28: msidiff shows a difference exactly when two packages differ.
#include "box.hpp"
#include "msiwrite.hpp"
#include "cab.hpp"
using namespace tool;
using namespace msiwrite;

namespace {
// ---- the family --------------------------------------------------------------------
struct Fil { std::string dir, name, data; };
struct Pkg {
    std::string what;
    Database d;                                   // tables and streams, without those of the files
    std::vector<Fil> files;
    std::map<int, std::string> summary;           // strings, but 12 (a time) and 14 (a number)
    std::string signature;
    int codepage = 1252, width = 2;
    int date = 0x4a21;                            // of the files in the cabinet
    bool media = true;
};
std::string summary_stream(const std::map<int, std::string> &m) {
    std::string idx, body;
    uint32_t base = 8 + 8 * m.size();
    for (auto &p : m) {
        put32(idx, p.first); put32(idx, base + body.size());
        if (p.first == 12) { put32(body, 64); uint64_t t = strtoull(p.second.c_str(), nullptr, 10); put32(body, (uint32_t)t); put32(body, (uint32_t)(t >> 32)); }
        else if (p.first == 14 || p.first == 15 || p.first == 19) { put32(body, 3); put32(body, atoi(p.second.c_str())); }
        else if (p.first == 1) { put32(body, 2); put32(body, atoi(p.second.c_str())); }
        else { put32(body, 30); put32(body, p.second.size() + 1); body += p.second + std::string(1, '\0'); while (body.size() % 4) body += '\0'; }
    }
    std::string s, o;
    put32(s, base + body.size()); put32(s, m.size());
    s += idx + body;
    put16(o, 0xfffe); put16(o, 0); put32(o, 2); o += std::string(16, '\0'); put32(o, 1);
    o += std::string("\xe0\x85\x9f\xf2\xf9\x4f\x68\x10\xab\x91\x08\x00\x2b\x27\xb3\xd9", 16);
    put32(o, 48);
    return o + s;
}
Database whole(const Pkg &p) {
    Database d = p.d;
    if (!p.media) return d;
    d.tables["Directory"].cols = {{"Directory", 0x2d48}, {"Directory_Parent", 0x1d48}, {"DefaultDir", 0xfff}};
    d.row("Directory", {Val::S("TARGETDIR"), Val::N(), Val::S("SourceDir")});
    d.tables["Component"].cols = {{"Component", 0x2d48}, {"ComponentId", 0x1d26}, {"Directory_", 0xd48}, {"Attributes", 0x502}, {"Condition", 0x1dff}, {"KeyPath", 0x1d48}};
    d.tables["File"].cols = {{"File", 0x2d48}, {"Component_", 0xd48}, {"FileName", 0xfff}, {"FileSize", 0x104}, {"Version", 0x1d48}, {"Language", 0x1d14}, {"Attributes", 0x1502}, {"Sequence", 0x502}};
    d.tables["Media"].cols = {{"DiskId", 0x2502}, {"LastSequence", 0x502}, {"DiskPrompt", 0x1f40}, {"Cabinet", 0x1dff}, {"VolumeLabel", 0x1d20}, {"Source", 0x1d48}};
    std::vector<cab::File> fs;
    int seq = 0;
    for (auto &f : p.files) {
        std::string k = fmt("f%d", ++seq);
        d.row("Directory", {Val::S("D" + f.dir), Val::S("TARGETDIR"), Val::S(f.dir)});
        d.row("Component", {Val::S("C" + f.dir), Val::N(), Val::S("D" + f.dir), Val::I(0), Val::N(), Val::N()});
        d.row("File", {Val::S(k), Val::S("C" + f.dir), Val::S(f.name), Val::I((int)f.data.size()), Val::N(), Val::N(), Val::I(0), Val::I(seq)});
        fs.push_back({k, f.data});
    }
    d.row("Media", {Val::I(1), Val::I(seq), Val::N(), Val::S("#a.cab"), Val::N(), Val::N()});
    std::string cab = cab::make(fs);
    for (size_t i = 0; i + 4 < cab.size(); i++) if (!cab.compare(i, 4, "\x21\x4a\0\x60", 4)) { cab[i] = (char)p.date; cab[i + 1] = (char)(p.date >> 8); }
    d.streams["a.cab"] = cab;
    return d;
}
std::string bytes(const Pkg &p) {
    Cfb c;
    package(whole(p), p.width, p.codepage, &c);
    if (!p.summary.empty()) c.raw("\5SummaryInformation", summary_stream(p.summary));
    if (!p.signature.empty()) c.raw("\5DigitalSignature", p.signature);
    return c.bytes();
}
std::vector<Pkg> family() {
    Pkg b;
    b.what = "base";
    b.d.tables["T"].cols = {{"K", 0x2d00}, {"V", 0x1104}, {"S", 0x1d00}, {"B", 0x1900}};
    b.d.row("T", {Val::S("k1"), Val::I(1), Val::S("one"), Val::B("stream one")});
    b.d.row("T", {Val::S("k2"), Val::I(-2), Val::N(), Val::N()});
    b.d.row("T", {Val::S("k3"), Val::N(), Val::S("three  spaces"), Val::B(std::string("bin\0ary", 7))});
    b.d.tables["Z y"].cols = {{"K", 0x2502}};
    b.d.row("Z y", {Val::I(7)});
    b.files = {{"d one", "f.txt", "content"}, {"d one", "g h.bin", std::string(40000, 'g')}, {"e", "f.txt", "other"}};
    b.summary = {{1, "1252"}, {2, "Title"}, {4, "Author"}, {9, "{11111111-1111-1111-1111-111111111111}"}, {12, "128842272000000000"}, {14, "200"}};
    b.signature = std::string("\x30\x06\x02\x01\x05\x02\x01\x07", 8);
    std::vector<Pkg> v = {b};
    auto with = [&](const std::string &what, const std::function<void(Pkg &)> &f) { Pkg p = b; p.what = what; f(p); v.push_back(p); };
    with("other bytes, same content", [](Pkg &p) { p.width = 3; p.d.streams["unrelated"] = "x"; });
    with("a number", [](Pkg &p) { p.d.row("T", {Val::S("k2"), Val::I(-3), Val::N(), Val::N()}); });
    with("number null", [](Pkg &p) { p.d.row("T", {Val::S("k2"), Val::N(), Val::N(), Val::N()}); });
    with("spaces in a string", [](Pkg &p) { p.d.row("T", {Val::S("k3"), Val::N(), Val::S("three spaces"), Val::B(std::string("bin\0ary", 7))}); });
    with("case of a string", [](Pkg &p) { p.d.row("T", {Val::S("k1"), Val::I(1), Val::S("One"), Val::B("stream one")}); });
    with("a row more", [](Pkg &p) { p.d.row("T", {Val::S("k4"), Val::I(1), Val::S("one"), Val::N()}); });
    with("no rows", [](Pkg &p) { p.d.tables["Z y"].rows.clear(); });
    with("no table", [](Pkg &p) { p.d.tables.erase("Z y"); });
    with("another table", [](Pkg &p) { p.d.tables["$(x) *"].cols = {{"K", 0x2d00}}; p.d.row("$(x) *", {Val::S("v")}); });
    with("an empty table", [](Pkg &p) { p.d.tables["E"].cols = {{"K", 0x2d00}}; });
    with("a column's type", [](Pkg &p) { p.d.tables["Z y"].cols[0].type = 0x2104; });
    with("a column's name", [](Pkg &p) { p.d.tables["T"].cols[2].name = "s"; });
    with("nullable", [](Pkg &p) { p.d.tables["T"].cols[2].type = 0x1d00 | 0x200; });
    with("a stream's bytes", [](Pkg &p) { p.d.row("T", {Val::S("k3"), Val::N(), Val::S("three  spaces"), Val::B(std::string("bin\0arz", 7))}); });
    with("no stream", [](Pkg &p) { p.d.row("T", {Val::S("k1"), Val::I(1), Val::S("one"), Val::N()}); p.d.streams.erase("T.k1"); });
    with("summary title", [](Pkg &p) { p.summary[2] = "title"; });
    with("summary time", [](Pkg &p) { p.summary[12] = "128842272010000000"; });
    with("summary entry more", [](Pkg &p) { p.summary[15] = "2"; });
    with("no summary", [](Pkg &p) { p.summary.clear(); });
    with("codepage", [](Pkg &p) { p.codepage = 1250; });
    with("signature", [](Pkg &p) { p.signature[7] = 8; });
    with("no signature", [](Pkg &p) { p.signature = ""; });
    with("file content", [](Pkg &p) { p.files[0].data = "Content"; });
    with("file size", [](Pkg &p) { p.files[0].data = "content!"; });
    with("file name", [](Pkg &p) { p.files[1].name = "g  h.bin"; });
    with("file directory", [](Pkg &p) { p.files[2].dir = "d two"; });
    with("file more", [](Pkg &p) { p.files.push_back({"e", "more", "m"}); });
    with("file less", [](Pkg &p) { p.files.pop_back(); });
    with("file date (not kept by msiextract)", [](Pkg &p) { p.date = 0x4c21; });
    with("no files", [](Pkg &p) { p.files.clear(); });
    with("no tables of files", [](Pkg &p) { p.media = false; p.files.clear(); });
    return v;
}
// ---- what differs, by the model ------------------------------------------------------
struct Delta { std::set<std::string> dump, content, list, lng; };   // names below old/ and new/
std::set<std::string> listing(const Pkg &p) { std::set<std::string> s; for (auto &f : p.files) { s.insert(f.dir); s.insert(f.dir + "/" + f.name); } return s; }
Delta delta(const Pkg &a, const Pkg &b) {
    Delta r;
    Database x = whole(a), y = whole(b);
    std::set<std::string> names;
    for (auto *d : {&x, &y}) for (auto &t : d->tables) names.insert(t.first);
    for (auto &n : names) {
        bool ia = x.tables.count(n), ib = y.tables.count(n);
        auto cols = [](const Database &d, const std::string &n) { std::string s; for (auto &c : d.tables.at(n).cols) s += c.name + fmt(":%x ", c.type); return s; };
        auto rows = [](const Database &d, const std::string &n) { std::set<std::string> s; for (auto &r : d.tables.at(n).rows) { std::string l; for (auto &v : r.second) l += v.k == Val::BIN ? "B;" : v.str() + ";"; s.insert(l); } return s; };
        if (ia != ib || cols(x, n) != cols(y, n) || rows(x, n) != rows(y, n)) r.dump.insert(n + ".idt");
        std::map<std::string, std::string> sa, sb;
        for (auto *q : {&sa, &sb}) { const Database &d = q == &sa ? x : y; if (d.tables.count(n)) for (auto &row : d.tables.at(n).rows) for (auto &v : row.second) if (v.k == Val::BIN) (*q)[n + "/" + stream_name(n, d.tables.at(n), row.first)] = v.s; }
        for (auto *q : {&sa, &sb}) for (auto &s : *q) { auto &o = q == &sa ? sb : sa; auto i = o.find(s.first); if (i == o.end() || i->second != s.second) r.dump.insert(s.first); }
    }
    if (a.summary != b.summary) r.dump.insert("_SummaryInformation.idt");
    if (a.codepage != b.codepage) r.dump.insert("_ForceCodepage.idt");
    if (a.signature != b.signature) r.dump.insert("signature");
    std::map<std::string, std::string> fa, fb;
    for (auto &f : a.files) fa[f.dir + "/" + f.name] = f.data;
    for (auto &f : b.files) fb[f.dir + "/" + f.name] = f.data;
    for (auto *q : {&fa, &fb}) for (auto &s : *q) { auto &o = q == &fa ? fb : fa; auto i = o.find(s.first); if (i == o.end() || i->second != s.second) r.content.insert("files/" + s.first); }
    auto la = listing(a), lb = listing(b);
    for (auto &n : la) if (!lb.count(n)) r.list.insert(n);
    for (auto &n : lb) if (!la.count(n)) r.list.insert(n);
    r.lng = r.list;
    for (auto &s : fa) if (fb.count(s.first) && fb[s.first].size() != s.second.size()) r.lng.insert(s.first);
    return r;
}
// ---- what was printed ---------------------------------------------------------------
struct Said { std::set<std::string> dump, files; std::vector<std::multiset<std::string>> minus, plus; std::map<std::string, std::pair<std::multiset<std::string>, std::multiset<std::string>>> lines; bool list = false, lng = false; };
std::vector<std::string> split(const std::string &t) { std::vector<std::string> v; std::stringstream s(t); std::string l; while (std::getline(s, l)) v.push_back(l); return v; }
std::string unquote(std::string s) {
    // diff quotes names in "diff ..." and "Only in", in headers only odd ones
    if (s.size() > 1 && (s[0] == '\'' || s[0] == '"') && s.back() == s[0]) s = s.substr(1, s.size() - 2);
    return s;
}
// the parts of an output: tables first, then one of "old.files" per list
Said said(mc::Ctx &c, const std::string &out, const std::string &what) {
    Said r;
    auto ls = split(out);
    std::string cur;
    for (size_t i = 0; i < ls.size(); i++) {
        const std::string &l = ls[i];
        auto side = [&](const std::string &s, const char *pre, const char *in) -> std::string {   // "--- old/NAME<tab>..." and the like
            std::string q = std::string(pre) + in + "/";
            if (!s.compare(0, q.size(), q)) { std::string n = s.substr(q.size()); auto t = n.find('\t'); return t == std::string::npos ? n : n.substr(0, t); }
            q = std::string(pre) + "\"" + in + "/";
            if (!s.compare(0, q.size(), q)) { std::string n = s.substr(q.size()); auto t = n.find('"'); return n.substr(0, t); }
            return "";
        };
        if (i + 1 < ls.size() && !l.compare(0, 13, "--- old.files") && !ls[i + 1].compare(0, 13, "+++ new.files")) { cur = fmt("#%zu", r.minus.size()); r.minus.emplace_back(); r.plus.emplace_back(); i++; continue; }
        if (i + 1 < ls.size()) {
            std::string a = side(l, "--- ", "old"), b = side(ls[i + 1], "+++ ", "new");
            if (!a.empty() && !b.empty()) {
                if (a != b) c.fail("compares different things", what + ": " + a + " and " + b);
                (a.compare(0, 6, "files/") ? r.dump : r.files).insert(a);
                cur = a;
                i++;
                continue;
            }
        }
        if (!l.compare(0, 5, "diff ") || !l.compare(0, 3, "@@ ") || l[0] == '\\' || l[0] == ' ') continue;
        auto m = l.find(" and "), e = l.rfind(" differ");
        if ((!l.compare(0, 13, "Binary files ") || !l.compare(0, 6, "Files ")) && m != std::string::npos && e != std::string::npos) {
            size_t s = l[0] == 'B' ? 13 : 6;
            std::string a = unquote(l.substr(s, m - s)), b = unquote(l.substr(m + 5, e - m - 5));
            if (a == "old.files" && b == "new.files") { r.minus.emplace_back(); r.plus.emplace_back(); continue; }
            if (a.compare(0, 4, "old/") || b.compare(0, 4, "new/") || a.substr(4) != b.substr(4)) c.fail("compares different things", what + ": " + l);
            a = a.substr(4);
            (a.compare(0, 6, "files/") ? r.dump : r.files).insert(a);
            continue;
        }
        if (!l.compare(0, 8, "Only in ")) {
            auto k = l.rfind(": ");
            std::string d = unquote(l.substr(8, k - 8)), n = unquote(l.substr(k + 2));
            if (d.compare(0, 3, "old") && d.compare(0, 3, "new")) c.fail("compares different things", what + ": " + l);
            d = d.size() > 4 ? d.substr(4) + "/" : "";
            ((d + n).compare(0, 5, "files") ? r.dump : r.files).insert(d + n);
            continue;
        }
        if ((l[0] == '-' || l[0] == '+') && !cur.empty()) {
            if (cur[0] == '#') (l[0] == '-' ? r.minus : r.plus).back().insert(l.substr(1));
            else (l[0] == '-' ? r.lines[cur].first : r.lines[cur].second).insert(l.substr(1));
            continue;
        }
        c.fail("output not understood", what + ": " + l + "\n" + out);
    }
    return r;
}
std::string show(const std::set<std::string> &s) { std::string o; for (auto &x : s) o += "[" + x + "]"; return o; }
std::string show(const std::multiset<std::string> &s) { std::string o; for (auto &x : s) o += "[" + x + "]"; return o; }
Out diffrun(mc::Ctx &c, Box &b, const Args &a, const std::string &what, const Args &env = {}) {
    b.before = tree(b.root);
    Args v = a, e = {"PATH=" + b.tools + "/tools:/usr/local/bin:/usr/bin:/bin", "HOME=" + b.cwd, "TMPDIR=" + b.cwd};
    v[0] = b.tools + "/tools/" + a[0];
    e.insert(e.end(), env.begin(), env.end());
    Out o = run(v, b.cwd, c.scratch + "/io", 60, e, nullptr, NOBODY);
    if (o.status != 127 || env.empty()) sane(c, o, what);     // 127: a program it needs was taken away
    if (tree(b.root) != b.before) c.fail("file system changed", what + "\n" + difftree(b.before, tree(b.root)));
    return o;
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C28";
    chk.technique = "exhaustive enumeration of pairs of packages, modes and diff options, compared by the real msidiff in both directions as an unprivileged user in a private tree; its output is read back and compared with the difference of the two models";
    chk.rule = "names exactly the tables, streams, summary and files that differ, in both directions; zero when it compared, non-zero otherwise; nothing in the file system changes; non-trivial: a pair that differs";
    auto fam = std::make_shared<std::vector<Pkg>>(family());
    const uint64_t N = fam->size();
    const std::vector<Args> modes = {{}, {"-l"}, {"-L"}, {"-t", "-l"}, {"--list", "--long-list"}, {"-t", "-L"}, {"-t", "-l", "-L"}, {"--tables"}};
    const uint64_t M = modes.size();
    chk.spaces.push_back({"pairs", fmt("every pair of %d packages under every mode, in both directions", (int)N), N * (N + 1) / 2 * M, [=](mc::Ctx &c, uint64_t i) {
        const Args &mode = modes[i % M];
        uint64_t k = i / M, x = 0;
        while (k > x) { k -= x + 1; x++; }
        uint64_t y = k;
        // quick: pairs with the base under every mode, other pairs under two of them
        if (!thorough && y != 0 && x != y && i % M != (x * 5 + y) % M) return;
        if (!thorough && y != 0 && x == y && i % M != 6) return;
        const Pkg &p = (*fam)[x], &q = (*fam)[y];
        Box b = box(c);
        std::string A = b.pkg + "/a *.msi", B = b.pkg + "/b.msi";
        writefile(A, bytes(p)); writefile(B, bytes(q));
        std::string what = p.what + " and " + q.what + " " + join(mode);
        c.step(what);
        bool t = mode.empty(), l = false, L = false;
        for (auto &m : mode) { if (m == "-t" || m == "--tables") t = true; if (m == "-l" || m == "--list") l = true; if (m == "-L" || m == "--long-list") L = true; }
        Said s[2];
        std::string raw[2];
        for (int dir = 0; dir < 2; dir++) {
            const Pkg &one = dir ? q : p, &two = dir ? p : q;
            Args a = {"msidiff"};
            for (auto &m : mode) a.push_back(m);
            a.push_back(dir ? B : "../pkg dir/a *.msi");
            a.push_back(dir ? "../pkg dir/a *.msi" : B);
            Out o = diffrun(c, b, a, what);
            if (o.status && (l || L) && (!p.media || !q.media)) { c.state(what); return; }   // msiextract needs the tables
            if (o.status) c.fail("refused", what + ": " + o.err);
            raw[dir] = o.out;
            s[dir] = said(c, o.out, what);
            Delta d = delta(one, two);
            std::string detail = what + fmt(" direction %d\n", dir) + o.out + o.err;
            if (t) {
                if (s[dir].dump != d.dump) c.fail("differences of tables", show(s[dir].dump) + " instead of " + show(d.dump) + ", " + detail);
                for (auto &n : s[dir].files) if (!d.content.count(n)) c.fail("differences of files", n + ", " + detail);
            } else if (!s[dir].dump.empty() || !s[dir].files.empty()) c.fail("compares what it was not asked to", detail);
            size_t sections = (l && !d.list.empty()) + (L && !d.lng.empty());
            if (s[dir].minus.size() != sections) c.fail("differences of lists", fmt("%zu lists differ instead of %zu, ", s[dir].minus.size(), sections) + detail);
            auto la = listing(one), lb = listing(two);
            size_t at = 0;
            if (l && !d.list.empty()) {
                std::multiset<std::string> m, pl;
                for (auto &n : d.list) (la.count(n) ? m : pl).insert(n);
                if (s[dir].minus[at] != m || s[dir].plus[at] != pl) c.fail("differences of lists", show(s[dir].minus[at]) + show(s[dir].plus[at]) + " instead of " + show(m) + show(pl) + ", " + detail);
                at++;
            }
            if (L && !d.lng.empty()) {
                // lines of a long list end in the name
                for (int sgn = 0; sgn < 2; sgn++) {
                    std::multiset<std::string> want, have;
                    for (auto &n : d.lng) if ((sgn ? lb : la).count(n)) want.insert(n);
                    for (auto &ln : (sgn ? s[dir].plus : s[dir].minus)[at]) {
                        std::string best;
                        std::string u;   // find -ls writes a space as "\ "
                        for (size_t j = 0; j < ln.size(); j++) { if (ln[j] == '\\' && j + 1 < ln.size() && ln[j + 1] == ' ') continue; u += ln[j]; }
                        for (auto &n : (sgn ? lb : la)) if (u.size() > n.size() && !u.compare(u.size() - n.size(), n.size(), n) && n.size() > best.size()) best = n;
                        bool holds = false;    // the size of a directory may follow its entries
                        for (auto &n : d.lng) if (!n.compare(0, best.size() + 1, best + "/")) holds = true;
                        if (holds && !want.count(best)) continue;
                        have.insert(best.empty() ? ln : best);
                    }
                    if (have != want) c.fail("differences of long lists", show(have) + " instead of " + show(want) + ", " + detail);
                }
            }
            if (!d.dump.empty()) c.nontrivial();
        }
        // the other way round
        if (s[0].dump != s[1].dump || s[0].files != s[1].files) c.fail("directions", what);
        for (auto &n : s[0].lines) { auto j = s[1].lines.find(n.first); if (j == s[1].lines.end() || j->second.first != n.second.second || j->second.second != n.second.first) c.fail("directions", what + ": " + n.first + "\n" + raw[0] + raw[1]); }
        for (size_t j = 0; j < s[0].minus.size(); j++) if (s[0].minus[j] != s[1].plus[j] || s[0].plus[j] != s[1].minus[j]) c.fail("directions", what + "\n" + raw[0] + raw[1]);
        // the lines themselves, as msiinfo exports them
        if (t) for (auto &n : s[0].lines) {
            if (n.first.size() < 4 || n.first.substr(n.first.size() - 4) != ".idt") continue;
            std::multiset<std::string> e[2];
            for (int dir = 0; dir < 2; dir++) {
                Out o = run({bin("msiinfo"), "export", dir ? B : A, n.first.substr(0, n.first.size() - 4)}, b.dest, c.scratch + "/io", 20);
                if (!o.status) for (auto &ln : split(o.out)) e[dir].insert(ln);
            }
            wipe(b.dest);
            auto minus = e[0], plus = e[1];
            for (auto &ln : e[1]) { auto it = minus.find(ln); if (it != minus.end()) minus.erase(it); }
            for (auto &ln : e[0]) { auto it = plus.find(ln); if (it != plus.end()) plus.erase(it); }
            if (n.second.first != minus || n.second.second != plus) c.fail("other lines", what + ": " + n.first + "\n" + raw[0]);
        }
        c.state(what);
    }});

    // options of diff
    const std::vector<Args> opts = {{"-u"}, {"-q"}, {"-Nu"}, {"--brief"}, {"-U1", "-N"}, {"--ignore-matching-lines=no such line"}, {"-t", "-t"}, {"-t", "-u", "-l", "-L"}, {"-l", "-u"}, {"-L", "-l", "-u", "-h"}, {"-I*", "-u"}, {"-t", "-l", "-N", "-u"}, {"--tables", "-u"}, {"-y"}, {"--normal"}};
    chk.spaces.push_back({"options", "every changed package against the base under options of diff", (N - 1) * opts.size(), [=](mc::Ctx &c, uint64_t i) {
        const Pkg &p = (*fam)[0], &q = (*fam)[1 + i % (N - 1)];
        const Args &opt = opts[i / (N - 1)];
        if (!thorough && (i % (N - 1) + i / (N - 1)) % 3) return;
        Box b = box(c);
        writefile(b.pkg + "/a.msi", bytes(p)); writefile(b.pkg + "/b.msi", bytes(q));
        std::string what = p.what + " and " + q.what + " " + join(opt);
        c.step(what);
        Args a = {"msidiff"};
        for (auto &m : opt) a.push_back(m);
        a.push_back(b.pkg + "/a.msi"); a.push_back(b.pkg + "/b.msi");
        // which of the options choose a mode
        bool t = false, l = false, L = false, given = false;
        for (auto &m : opt) {
            bool *f = m == "-t" || m == "--tables" ? &t : m == "-l" ? &l : m == "-L" ? &L : nullptr;
            if (f && !*f && !given) *f = true; else given = true;
        }
        if (!t && !l && !L) t = true;
        bool sided = std::find(opt.begin(), opt.end(), "-L") != opt.end() && !L, paged = std::find(opt.begin(), opt.end(), "-h") != opt.end();
        Out o = diffrun(c, b, a, what);
        c.state(what);
        Delta d = delta(p, q);
        bool differ = (t && !d.dump.empty()) || (l && !d.list.empty()) || (L && !d.lng.empty());
        bool maybe = t && (l || L) && !d.content.empty();
        if (o.status && (l || L) && !q.media) return;
        if (sided || paged) { if (o.status == 0 && o.out.empty() && differ && o.err.empty()) c.fail("difference not shown", what); return; }  // diff has its own -L and no -h
        if (o.status) c.fail("refused", what + ": " + o.err);
        bool y = opt[0] == "-y";    // prints equal lines as well
        if (differ && o.out.empty()) c.fail("difference not shown", what);
        if (!differ && !maybe && !o.out.empty() && !y) {
            // "diff" lines alone come from comparisons that ignored everything
            for (auto &ln : split(o.out)) if (ln.compare(0, 5, "diff ")) c.fail("difference shown", what + ": " + o.out);
        }
        if (t) for (auto &n : d.dump) { auto slash = n.rfind('/'); std::string base = slash == std::string::npos ? n : n.substr(0, slash); if (o.out.find(base) == std::string::npos) c.fail("difference not shown", n + ", " + what + ": " + o.out); }
        if (differ) c.nontrivial();
    }});

    // command lines, names and environments
    struct Cl { Args args; bool ok, differ; Args env; };
    const std::vector<Cl> cls = {
        {{}, false, false, {}}, {{"a.msi"}, false, false, {}}, {{"a.msi", "missing"}, false, false, {}}, {{"missing", "a.msi"}, false, false, {}}, {{"a.msi", "."}, false, false, {}}, {{"../pkg dir", "a.msi"}, false, false, {}},
        {{"a.msi", "keep"}, false, false, {}}, {{"keep", "a.msi"}, false, false, {}}, {{"a.msi", "cut.msi"}, false, false, {}}, {{"cut.msi", "a.msi"}, false, false, {}}, {{"-l", "a.msi", "badcab.msi"}, false, false, {}}, {{"-L", "badcab.msi", "a.msi"}, false, false, {}},
        {{"a.msi", "badcab.msi"}, true, true, {}}, {{"a.msi", "slash.msi"}, false, false, {}}, {{"slash.msi", "a.msi"}, false, false, {}},
        {{"-h"}, true, true, {}}, {{"--help"}, true, true, {}}, {{"-v"}, true, true, {}}, {{"--version", "a.msi"}, true, true, {}}, {{"--no-such-option-of-diff", "a.msi", "b.msi"}, false, false, {}}, {{"-l", "--no-such-option-of-diff", "a.msi", "b.msi"}, false, false, {}},
        {{"a.msi", "a.msi"}, true, false, {}}, {{"a.msi", "./a.msi"}, true, false, {}}, {{"a.msi", "b.msi"}, true, true, {}}, {{"a.msi", "link.msi"}, true, false, {}}, {{"-t", "-l", "-L", "a.msi", "a b.msi"}, true, false, {}}, {{"a b.msi", "b.msi"}, true, true, {}},
        {{"-l", "*.msi", "a.msi"}, true, false, {}}, {{"-L", "a.msi", "$(touch pwned).msi"}, true, false, {}}, {{"./-l.msi", "a.msi"}, true, false, {}}, {{"-l", "./-x", "a.msi"}, true, false, {}}, {{"it's;touch pwned", "b.msi"}, true, true, {}}, {{"\xc3\xbc.msi", "a.msi"}, true, false, {}}, {{"old/a.msi", "new/a.msi"}, true, true, {}},
        {{"a.msi", "b.msi"}, true, true, {"TMPDIR=@/tmp dir"}}, {{"-l", "a.msi", "a.msi"}, true, false, {"TMPDIR=@/tmp dir"}}, {{"a.msi", "b.msi"}, true, true, {"TMPDIR=."}}, {{"-t", "-L", "a.msi", "a.msi"}, true, false, {"TMPDIR=sub/dir"}}, {{"a.msi", "b.msi"}, false, false, {"TMPDIR=@/nowhere"}}, {{"a.msi", "b.msi"}, true, true, {"CDPATH=@:/"}}, {{"a.msi", "b.msi"}, true, true, {"TMPDIR=@/*"}},
        {{"a.msi", "b.msi"}, false, false, {"PATH=@/nodiff"}}, {{"a.msi", "b.msi"}, false, false, {"PATH=@/nodump"}}, {{"-l", "a.msi", "b.msi"}, false, false, {"PATH=@/noextract"}}, {{"-t", "a.msi", "a.msi"}, true, false, {"LC_ALL=C"}}, {{"a.msi", "b.msi"}, true, true, {"LC_ALL=C"}},
    };
    chk.spaces.push_back({"commands", "good and bad command lines, names of packages, temporary directories, missing programs, alone and with every mode before them", cls.size() * 3, [=](mc::Ctx &c, uint64_t i) {
        const Cl &k = cls[i / 3];
        Box b = box(c);
        Pkg p = (*fam)[0], q = (*fam)[2], bad = p, sl = p;
        std::string a = bytes(p), o2 = bytes(q);
        for (auto n : {"a.msi", "a b.msi", "*.msi", "$(touch pwned).msi", "-l.msi", "-x", "\xc3\xbc.msi"}) writefile(b.cwd + "/" + n, a);
        writefile(b.cwd + "/it's;touch pwned", a);
        writefile(b.cwd + "/b.msi", o2);
        writefile(b.cwd + "/cut.msi", a.substr(0, 1000));
        sl.d.tables["a/b"].cols = {{"K", 0x2d00}};
        writefile(b.cwd + "/slash.msi", bytes(sl));
        {
            Cfb x;
            Database d = whole(bad);
            d.streams["a.cab"] = "no cabinet";
            d.row("Z y", {Val::I(8)});
            writefile(b.cwd + "/badcab.msi", package(d, 2, 1252));
        }
        for (auto n : {"old", "new", "sub", "sub/dir", "tmp dir", "*"}) { mkdir((b.cwd + "/" + n).c_str(), 0755); own(b.cwd + "/" + n); }
        writefile(b.cwd + "/old/a.msi", a); writefile(b.cwd + "/new/a.msi", o2);
        if (symlink("a.msi", (b.cwd + "/link.msi").c_str())) c.fail("harness", "symlink");
        // programs missing from the path: every other one is linked
        for (auto &miss : std::vector<std::pair<std::string, std::string>>{{"nodiff", "diff"}, {"nodump", "msidump"}, {"noextract", "msiextract"}}) {
            std::string d = b.cwd + "/" + miss.first;
            mkdir(d.c_str(), 0755);
            for (auto t : {"msidump", "msiextract", "msiinfo"}) if (t != miss.second && symlink((b.tools + "/tools/" + t).c_str(), (d + "/" + t).c_str())) c.fail("harness", "symlink");
            for (auto t : {"bash", "cat", "mktemp", "mkdir", "rm", "ls", "wc", "basename", "dirname", "mv", "diff", "find", "sort", "cut", "perl", "realpath", "touch", "env", "openssl", "sed", "awk", "grep", "cp", "head", "tail", "stat", "date", "chmod", "tr"}) if (t != miss.second && symlink((std::string("/usr/bin/") + t).c_str(), (d + "/" + t).c_str())) c.fail("harness", "symlink");
        }
        Args v = {"msidiff"}, env;
        int with = i % 3;   // a mode before them
        if (with && (k.args.empty() || (k.args[0][0] == '-' && k.args[0][1] != 'x'))) return;
        if (with == 1) v.push_back("--list");
        if (with == 2) { v.push_back("-t"); v.push_back("-L"); }
        for (auto &x : k.args) v.push_back(x);
        for (auto &x : k.env) { std::string e = x; auto at = e.find('@'); if (at != std::string::npos) e.replace(at, 1, b.cwd); env.push_back(e); }
        std::string what = shown(v) + " " + join(env);
        c.step(what);
        Out o = diffrun(c, b, v, what, env);
        c.state(what);
        bool ok = k.ok, differ = k.differ;
        if (k.args.size() == 2 && k.args[1] == "badcab.msi" && with) ok = false;
        if (with == 1) differ = false;     // the files are the same
        if (ok && o.status) c.fail("refused", what + ": " + o.err);
        if (!ok && !o.status) c.fail("not refused", what + ": " + o.out);
        if (!ok && o.err.empty() && o.out.empty()) c.fail("silent failure", what);
        if (ok && differ != !o.out.empty()) c.fail(differ ? "difference not shown" : "difference shown", what + ": " + o.out);
        if (differ) c.nontrivial();
    }});

    // the clock moves between the two extractions
    chk.spaces.push_back({"clock", "the second package is extracted later: every package against itself and the base under the modes that extract", N * 2 * 3, [=](mc::Ctx &c, uint64_t i) {
        static const std::vector<Args> ms = {{"-l"}, {"-L"}, {"-t", "-L"}};
        const Args &mode = ms[i % 3];
        const Pkg &p = (*fam)[i / 6], &q = i / 3 % 2 ? (*fam)[0] : p;
        Box b = box(c);
        writefile(b.pkg + "/a.msi", bytes(p)); writefile(b.pkg + "/b.msi", bytes(q));
        // a program of that name which, afterwards, makes everything it made older, each time by another hour
        mkdir((b.cwd + "/bin").c_str(), 0755);
        writefile(b.cwd + "/bin/msiextract", "#!/bin/bash\n" + b.tools + "/tools/msiextract \"$@\" || exit $?\nwhile [ $# -gt 0 ]; do case $1 in -C|--directory) d=$2;; esac; shift; done\ncase $d in *old*) t=2001-02-03T04:05:06;; *) t=2002-03-04T05:06:07;; esac\n[ -d \"$d\" ] && find \"$d\" -exec touch -d $t {} +\nexit 0\n");
        chmod((b.cwd + "/bin/msiextract").c_str(), 0755);
        std::string what = p.what + " and " + q.what + " " + join(mode);
        c.step(what);
        Args a = {"msidiff"};
        for (auto &m : mode) a.push_back(m);
        a.push_back(b.pkg + "/a.msi"); a.push_back(b.pkg + "/b.msi");
        Out o = diffrun(c, b, a, what, {"PATH=" + b.cwd + "/bin:" + b.tools + "/tools:/usr/local/bin:/usr/bin:/bin"});
        if (o.status && (!p.media || !q.media)) return;
        if (o.status) c.fail("refused", what + ": " + o.err);
        Delta d = delta(p, q);
        bool differ = mode[0] == "-l" ? !d.list.empty() : mode[0] == "-L" ? !d.lng.empty() : !d.dump.empty() || !d.lng.empty() || !d.content.empty();
        if (differ != !o.out.empty()) c.fail(differ ? "difference not shown" : "difference shown", what + ": " + o.out);
        c.state(what);
        if (differ) c.nontrivial();
    }});
    return mc::run(chk, argc, argv);
}
