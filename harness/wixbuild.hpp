// Sources for wixl, building them (twice, elsewhere, the same), and comparing rows.
#pragma once
#include "package.hpp"
namespace wixbuild {
using namespace package;
using Args = std::vector<std::string>;
inline const std::string G = "11111111-1111-1111-1111-1111111111";
inline std::string guid(int n) { return G + fmt("%02X", n); }
inline std::string wix(const std::string &product, const std::string &after = "") {
    return "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Wix xmlns=\"http://schemas.microsoft.com/wix/2006/wi\"><Product Id=\"" + guid(1) + "\" Name=\"n\" Manufacturer=\"m\" Version=\"1.0.0\" UpgradeCode=\"" + guid(2) + "\" Language=\"1033\"><Package InstallerVersion=\"200\"/>" + product + "</Product>" + after + "</Wix>\n";
}
inline std::string data(int n) {  // content of file n: empty, short, long and incompressible, across blocks
    static const int sizes[] = {0, 1, 17, 32768, 70000, 300, 5000};
    std::string d;
    uint32_t x = 12345 + n;
    for (int i = 0; i < sizes[n % 7]; i++) { x = x * 1664525 + 1013904223; d += n % 2 ? (char)(x >> 24) : (char)('a' + i % 7 + n); }
    return d;
}
struct Built { bool ok = false; std::string err; Snap s; Cabs cabs; };
// builds twice, from different directories, and compares; nothing else may appear on disk
// how many of the choices in an index (mixed radix, first choice lowest) differ from the first one
inline int deviations(uint64_t i, std::initializer_list<int> radix) { int d = 0; for (int r : radix) { d += i % r != 0; i /= r; } return d; }

inline Built build(mc::Ctx &c, const std::string &src, const std::string &what, const std::map<std::string, std::string> &files, const Args &opts = {}, bool twice = true) {
    std::string a = c.scratch + "/a", b = c.scratch + "/b";
    wipe(a); wipe(b);
    mkdir(a.c_str(), 0777);
    mkdir(b.c_str(), 0777);
    for (auto &f : files) {
        for (size_t at = f.first.find('/'); at != std::string::npos; at = f.first.find('/', at + 1)) mkdir((a + "/" + f.first.substr(0, at)).c_str(), 0777);
        writefile(a + "/" + f.first, f.second);
    }
    writefile(a + "/s.wxs", src);
    auto before = tree(a);
    Args v = {bin("wixl"), "-o", "s.msi"};
    v.insert(v.end(), opts.begin(), opts.end());
    v.push_back("s.wxs");
    Out o = run(v, a, c.scratch + "/io", 60);
    sane(c, o, what);
    Built r;
    r.ok = !o.status;
    r.err = o.err;
    if (o.status) {
        if (o.err.empty()) c.fail("silent failure", what);
        return r;
    }
    if (o.err.find("WARNING **") != std::string::npos) c.fail("warning of the program", what + ": " + o.err);
    r.s = filesnap(c, a + "/s.msi");
    r.cabs = check(c, r.s, a, what);
    std::set<std::string> may = {"s.msi"};
    for (auto &k : r.cabs) if (k.first[0] != '#') may.insert(k.first);
    auto after = tree(a);
    for (auto &f : after) if (!before.count(f.first) ? !may.count(f.first) : before[f.first] != f.second) c.fail("other file changed", f.first + ", " + what);
    for (auto &f : before) if (!after.count(f.first)) c.fail("other file changed", f.first + ", " + what);
    if (twice) {
        v = {bin("wixl"), "-o", "again.msi"};
        v.insert(v.end(), opts.begin(), opts.end());
        v.push_back("../a/s.wxs");
        o = run(v, b, c.scratch + "/io", 60, {"HOME=/tmp/elsewhere", "TZ=Asia/Tokyo"});
        sane(c, o, what + " again");
        if (o.status) c.fail("not reproducible", what + ": " + o.err);
        Snap s = filesnap(c, b + "/again.msi");
        if (!(s.tables == r.s.tables)) c.fail("not reproducible", what + ": " + diff(r.s, s));
        // streams but for the summary; the cabinet carries file times, so it is compared by content
        Cabs k = check(c, s, b, what + " again");
        for (auto &x : k) { if (!r.cabs.count(x.first) || x.second.size() != r.cabs[x.first].size()) c.fail("not reproducible", what + ": " + x.first); for (size_t i = 0; i < x.second.size(); i++) if (x.second[i].name != r.cabs[x.first][i].name || x.second[i].data != r.cabs[x.first][i].data) c.fail("not reproducible", what + ": " + x.first + " " + x.second[i].name); }
        for (auto &p : {2, 3, 4, 5, 6, 7, 14, 15, 18, 19, 1}) if ((s.summary.count(p) ? s.summary[p] : "") != (r.s.summary.count(p) ? r.s.summary[p] : "")) c.fail("not reproducible", what + fmt(": summary %d", p));
    }
    c.nontrivial();
    return r;
}
using Cells = std::set<std::vector<std::string>>;
inline Cells cells(const Snap &s, const std::string &t, const Args &cols) {
    Cells o;
    for (auto &r : View{s}.rows(t)) { Args x; for (auto &k : cols) x.push_back(r.count(k) ? (r[k].k == Val::INT ? std::to_string(r[k].i) : r[k].k == Val::BIN ? "bin:" + r[k].s : r[k].s) : "-"); o.insert(x); }
    return o;
}
inline std::string show(const Cells &x) { std::string o; for (auto &r : x) o += "(" + join(r) + ")"; return o; }
inline void same(mc::Ctx &c, const Snap &s, const std::string &t, const Args &cols, const Cells &want, const std::string &what) {
    Cells have = cells(s, t, cols);
    if (have != want) c.fail("other rows in " + t, what + ": " + show(have) + " instead of " + show(want));
}
inline void accepted(mc::Ctx &c, const Built &b, const std::string &what) { if (!b.ok) c.fail("refused", what + ": " + b.err); }
inline void cabfiles(mc::Ctx &c, const Built &b, const std::map<std::string, std::string> &want, const std::string &what) {
    std::map<std::string, std::string> have;
    for (auto &k : b.cabs) for (auto &f : k.second) have[f.name] = f.data;
    for (auto &w : want) if (!have.count(w.first) || have[w.first] != w.second) c.fail("file content", w.first + ", " + what);
    if (have.size() != want.size()) c.fail("file nobody asked for", what);
}
} // namespace wixbuild
