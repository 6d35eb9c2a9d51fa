// C25: wixl builds sequence tables that respect every ordering request.
#include "tool.hpp"
using namespace tool;

namespace {
using Args = std::vector<std::string>;
struct Act { std::string name, after, before, seq, exit, cond; bool over = false; int condform = 0; };
using Acts = std::vector<Act>;
struct Std { int seq; std::string cond; };
// numbers and conditions of the standard actions, by the Windows Installer documentation
const std::map<std::string, Std> &standard() {
    static const std::map<std::string, Std> m = {
        {"FindRelatedProducts", {25, ""}}, {"AppSearch", {50, ""}}, {"LaunchConditions", {100, ""}}, {"CCPSearch", {500, "NOT Installed"}}, {"ValidateProductID", {700, ""}}, {"CostInitialize", {800, ""}}, {"FileCost", {900, ""}}, {"IsolateComponents", {950, ""}}, {"CostFinalize", {1000, ""}}, {"MigrateFeatureStates", {1200, ""}}, {"ExecuteAction", {1300, ""}}, {"InstallValidate", {1400, ""}}, {"InstallInitialize", {1500, ""}}, {"AllocateRegistrySpace", {1550, "NOT Installed"}}, {"ProcessComponents", {1600, ""}}, {"UnpublishFeatures", {1800, ""}}, {"StopServices", {1900, "VersionNT"}}, {"DeleteServices", {2000, "VersionNT"}}, {"RemoveRegistryValues", {2600, ""}}, {"RemoveIniValues", {3100, ""}}, {"RemoveShortcuts", {3200, ""}}, {"RemoveFiles", {3500, ""}}, {"RemoveFolders", {3600, ""}}, {"CreateFolders", {3700, ""}}, {"InstallAdminPackage", {3900, ""}}, {"InstallFiles", {4000, ""}}, {"PatchFiles", {4090, ""}}, {"CreateShortcuts", {4500, ""}}, {"WriteRegistryValues", {5000, ""}}, {"WriteIniValues", {5100, ""}}, {"InstallServices", {5800, "VersionNT"}}, {"StartServices", {5900, "VersionNT"}}, {"RegisterUser", {6000, ""}}, {"RegisterProduct", {6100, ""}}, {"PublishComponents", {6200, ""}}, {"PublishFeatures", {6300, ""}}, {"PublishProduct", {6400, ""}}, {"InstallExecute", {6500, "NOT Installed"}}, {"InstallExecuteAgain", {6550, "NOT Installed"}}, {"InstallFinalize", {6600, ""}},
        {"PrepareDlg", {49, ""}}, {"ProgressDlg", {1299, ""}}, {"WelcomeDlg", {1297, ""}}, {"ExitDialog", {-1, ""}}, {"UserExit", {-2, ""}}, {"FatalError", {-3, ""}},
    };
    return m;
}
const std::map<std::string, std::vector<std::string>> &always() {
    static const std::map<std::string, std::vector<std::string>> m = {
        {"AdminExecuteSequence", {"CostInitialize", "FileCost", "CostFinalize", "InstallValidate", "InstallInitialize", "InstallAdminPackage", "InstallFiles", "InstallFinalize"}},
        {"AdminUISequence", {"CostInitialize", "FileCost", "CostFinalize", "ExecuteAction"}},
        {"AdvtExecuteSequence", {"CostInitialize", "CostFinalize", "InstallValidate", "InstallInitialize", "PublishFeatures", "PublishProduct", "InstallFinalize"}},
        {"InstallExecuteSequence", {"ValidateProductID", "CostInitialize", "FileCost", "CostFinalize", "InstallValidate", "InstallInitialize", "ProcessComponents", "UnpublishFeatures", "RegisterUser", "RegisterProduct", "PublishFeatures", "PublishProduct", "InstallFinalize"}},
        {"InstallUISequence", {"ValidateProductID", "CostInitialize", "FileCost", "CostFinalize", "ExecuteAction"}},
    };
    return m;
}
std::string element(const std::string &table) { return table == "AdvtExecuteSequence" ? "AdvertiseExecuteSequence" : table; }
std::string attr(const std::string &s) { std::string o; for (char ch : s) o += ch == '<' ? "&lt;" : ch == '"' ? "&quot;" : ch == '&' ? "&amp;" : std::string(1, ch); return o; }
std::string xml(const Act &a) {
    std::string tag = standard().count(a.name) || a.name == "RemoveExistingProducts" ? a.name : a.exit.empty() ? "Custom" : "Show", o = "<" + tag;
    if (tag == "Custom") o += " Action=\"" + a.name + "\"";
    if (tag == "Show") o += " Dialog=\"" + a.name + "\"";
    if (!a.after.empty()) o += " After=\"" + a.after + "\"";
    if (!a.before.empty()) o += " Before=\"" + a.before + "\"";
    if (!a.seq.empty()) o += " Sequence=\"" + a.seq + "\"";
    if (!a.exit.empty()) o += " OnExit=\"" + a.exit + "\"";
    if (a.over) o += " Overridable=\"yes\"";
    if (a.cond.empty()) return o + "/>";
    if (a.condform) return o + " Condition=\"" + attr(a.cond) + "\"/>";
    return o + "> " + attr(a.cond) + " </" + tag + ">";
}
std::string xml(const Acts &v) { std::string o; for (auto &a : v) o += xml(a); return o; }
std::string doc(const std::string &table, const Acts &v, const std::string &more = "", bool split = false) {
    std::string o = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Wix xmlns=\"http://schemas.microsoft.com/wix/2006/wi\"><Product Id=\"11111111-1111-1111-1111-111111111111\" Name=\"n\" Manufacturer=\"m\" Version=\"1.0.0\" UpgradeCode=\"11111111-1111-1111-1111-111111111112\" Language=\"1033\"><Package InstallerVersion=\"200\"/><Directory Id=\"TARGETDIR\" Name=\"SourceDir\"/><Feature Id=\"F\" Level=\"1\"/>" + more;
    std::string e = element(table);
    if (!split) return o + "<" + e + ">" + xml(v) + "</" + e + "></Product></Wix>\n";
    for (auto &a : v) o += "<" + e + ">" + xml(a) + "</" + e + ">";
    return o + "</Product></Wix>\n";
}
using Table = std::map<std::string, std::pair<int, std::string>>;
struct Built { bool ok = false; std::string err; std::map<std::string, Table> tables; };
Built build(mc::Ctx &c, const std::string &src, const std::string &what) {
    std::string p = c.scratch + "/s.wxs", m = c.scratch + "/s.msi";
    writefile(p, src);
    unlink(m.c_str());
    Out o = run({bin("wixl"), "-o", "s.msi", "s.wxs"}, c.scratch, c.scratch + "/io", 30);
    sane(c, o, what);
    Built b;
    b.ok = !o.status;
    b.err = o.err;
    if (o.status) { if (o.err.empty()) c.fail("silent failure", what); return b; }
    Snap s = filesnap(c, m);
    for (auto &t : always()) {
        if (!s.tables.count(t.first)) c.fail("no sequence table", t.first + ": " + what);
        for (auto &r : s.tables[t.first].rows) {
            std::string n = r[0].s;
            if (b.tables[t.first].count(n)) c.fail("action twice", n);
            if (r[2].k != Val::INT) c.fail("no number", n + ": " + what);
            b.tables[t.first][n] = {(int)r[2].i, r[1].k == Val::STR ? r[1].s : ""};
        }
    }
    return b;
}
// ---- what was asked ----
struct Ask {
    std::map<std::string, int> fixed;      // numbered actions
    std::map<std::string, std::string> cond;
    std::set<std::string> open;            // those without a number
    std::vector<std::pair<std::string, std::string>> before;
    bool unknown = false, doubled = false;
};
Ask ask(const std::string &table, const Acts &given) {
    Ask k;
    Acts v;
    for (auto &a : given) {
        Act *same = nullptr;
        for (auto &b : v) if (b.name == a.name) same = &b;
        if (!same) { v.push_back(a); continue; }
        if (same->over == a.over) { k.doubled |= same->after != a.after || same->before != a.before || same->seq != a.seq || same->exit != a.exit || same->cond != a.cond; continue; }
        if (same->over) *same = a;
    }
    auto add = [&](const std::string &n) {
        auto s = standard().find(n);
        if (k.fixed.count(n) || k.open.count(n)) return;
        if (s != standard().end()) { k.fixed[n] = s->second.seq; k.cond[n] = s->second.cond; return; }
        for (auto &a : v) if (a.name == n) { k.open.insert(n); return; }
        k.unknown = true;
    };
    for (auto &n : always().at(table)) add(n);
    for (auto &a : v) {
        add(a.name);
        if (!a.cond.empty()) k.cond[a.name] = a.cond;
        if (!a.exit.empty()) { k.open.erase(a.name); k.fixed[a.name] = a.exit == "success" ? -1 : a.exit == "cancel" ? -2 : a.exit == "error" ? -3 : -4; continue; }
        if (!a.seq.empty()) { k.open.erase(a.name); k.fixed[a.name] = atoi(a.seq.c_str()); }
        if (!a.after.empty()) { add(a.after); k.before.push_back({a.after, a.name}); }
        if (!a.before.empty()) { add(a.before); k.before.push_back({a.name, a.before}); }
    }
    // a number given to an action by its own element counts whatever named it first
    for (auto &a : v) if (a.exit.empty() && !a.seq.empty()) { k.open.erase(a.name); k.fixed[a.name] = atoi(a.seq.c_str()); }
    return k;
}
// whether numbers exist at all: propagate bounds, then for every window count the free numbers (unit jobs)
bool feasible(const Ask &k) {
    std::map<std::string, std::pair<int, int>> w;
    for (auto &f : k.fixed) w[f.first] = {f.second, f.second};
    for (auto &n : k.open) w[n] = {1, 32767};
    for (size_t round = 0; round < w.size() + 2; round++) for (auto &b : k.before) {
        auto &x = w[b.first], &y = w[b.second];
        if (k.open.count(b.second)) y.first = std::max(y.first, x.first + 1);
        if (k.open.count(b.first)) x.second = std::min(x.second, y.second - 1);
    }
    for (auto &b : k.before) if (w[b.first].first >= w[b.second].first || w[b.first].second >= w[b.second].second) return false;
    for (auto &x : w) if (x.second.first > x.second.second) return false;
    std::set<int> taken;
    for (auto &f : k.fixed) taken.insert(f.second);
    for (auto &p : k.open) for (auto &q : k.open) {
        int lo = w[p].first, hi = w[q].second, n = 0;
        if (lo > hi) continue;
        for (auto &x : k.open) n += w[x].first >= lo && w[x].second <= hi;
        int freen = hi - lo + 1;
        for (int t : taken) freen -= t >= lo && t <= hi;
        if (n > freen) return false;
    }
    return true;
}
std::string str(const Table &t) {
    std::multimap<int, std::string> m;
    for (auto &x : t) m.insert({x.second.first, x.first});
    std::string o;
    for (auto &x : m) o += fmt("%d ", x.first) + x.second + ", ";
    return o;
}
void check(mc::Ctx &c, const std::string &table, const Acts &v, const Built &b, const std::string &what) {
    Ask k = ask(table, v);
    bool can = !k.unknown && !k.doubled && feasible(k);
    c.state(fmt("%d%d%d", b.ok, can, (int)k.open.size()));
    if (!b.ok) { if (can) c.fail("refused", what + ": " + b.err); return; }
    if (k.unknown) c.fail("unknown action accepted", what + ": " + str(b.tables.at(table)));
    if (k.doubled) c.fail("contradiction accepted", what + ": " + str(b.tables.at(table)));
    const Table &t = b.tables.at(table);
    for (auto &x : k.before) {
        if (!t.count(x.first) || !t.count(x.second)) c.fail("action lost", what + ": " + str(t));
        if (t.at(x.first).first >= t.at(x.second).first) c.fail("order not kept", x.first + " before " + x.second + ", " + what + ": " + str(t));
    }
    for (auto &x : k.fixed) {
        if (!t.count(x.first)) c.fail("action lost", x.first + ", " + what + ": " + str(t));
        if (t.at(x.first).first != x.second) c.fail("number not kept", x.first + fmt(" at %d", x.second) + ", " + what + ": " + str(t));
    }
    std::set<int> used;
    for (auto &n : k.open) {
        if (!t.count(n)) c.fail("action lost", n + ", " + what + ": " + str(t));
        int q = t.at(n).first;
        if (q < 1 || q > 32767) c.fail("number out of range", n + ", " + what + ": " + str(t));
        if (!used.insert(q).second) c.fail("number shared", n + ", " + what + ": " + str(t));
        for (auto &f : k.fixed) if (f.second == q) c.fail("number shared", n + " and " + f.first + ", " + what + ": " + str(t));
    }
    for (auto &x : t) {
        if (!k.fixed.count(x.first) && !k.open.count(x.first)) c.fail("action nobody asked for", x.first + ", " + what);
        std::string w = k.cond.count(x.first) ? k.cond[x.first] : "";
        if (x.second.second != w) c.fail("other condition", x.first + ": '" + x.second.second + "', " + what);
    }
    if (!can) c.fail("accepted though nothing fits", what);
    // the other tables have their standard actions
    for (auto &o : always()) if (o.first != table) for (auto &n : o.second) if (!b.tables.at(o.first).count(n) || b.tables.at(o.first).at(n).first != standard().at(n).seq) c.fail("standard action", o.first + ": " + n);
    c.nontrivial();
}
// every order of writing gives the same tables
void orders(mc::Ctx &c, const std::string &table, Acts v, int most = 6) {
    std::string what = table + ": " + xml(v);
    c.step(what);
    Built first;
    std::vector<int> p(v.size());
    for (size_t i = 0; i < p.size(); i++) p[i] = i;
    bool one = true;
    int n = 0;
    do {
        Acts w;
        for (int i : p) w.push_back(v[i]);
        Built b = build(c, doc(table, w), what);
        if (one) { check(c, table, v, b, what); first = b; one = false; continue; }
        if (b.ok != first.ok) c.fail("depends on the order of writing", what + " rewritten as " + xml(w) + ": " + (b.ok ? "accepted" : b.err));
        if (b.ok && b.tables != first.tables) c.fail("depends on the order of writing", what + "\n" + str(first.tables[table]) + "\n" + xml(w) + "\n" + str(b.tables[table]));
    } while (++n < most && v.size() < 4 && std::next_permutation(p.begin(), p.end()));
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C25";
    chk.technique = "exhaustive enumeration of action sets with their placements, built by the real wixl in every order of writing; the sequence tables are compared with the requests and rejections with a feasibility test";
    chk.rule = "all requests hold, generated numbers are free and positive, numbered and standard actions keep their number and condition, nothing else is there; a rejection only where no numbering exists; the same tables for every order of writing; non-trivial: a package came out";

    static const std::vector<std::string> tables = {"InstallExecuteSequence", "InstallUISequence", "AdminExecuteSequence", "AdminUISequence", "AdvtExecuteSequence"};
    auto placements = [](const std::vector<std::string> &refs, const std::vector<std::string> &seqs, const std::string &self) {
        std::vector<Act> v;
        auto put = [&](std::string a, std::string b, std::string s) { Act x; x.name = self; x.after = a; x.before = b; x.seq = s; v.push_back(x); };
        for (auto &a : refs) for (auto &b : refs) if ((!a.empty() || !b.empty()) && a != self && b != self) put(a, b, "");
        for (auto &s : seqs) { put("", "", s); }
        if (!seqs.empty()) { put(refs[1], "", seqs[0]); put("", refs[1], seqs[0]); }
        return v;
    };
    // one and two actions, all references
    auto refs = [](const std::string &t) -> std::vector<std::string> {
        if (t == "InstallExecuteSequence") return {"", "CostFinalize", "InstallInitialize", "ProcessComponents", "InstallFinalize", "AppSearch", "X", "Y"};
        if (t == "InstallUISequence") return {"", "CostFinalize", "FileCost", "ExecuteAction", "AppSearch", "PrepareDlg", "X", "Y"};
        if (t == "AdvtExecuteSequence") return {"", "CostFinalize", "InstallValidate", "PublishFeatures", "InstallFinalize", "X", "Y"};
        if (t == "AdminUISequence") return {"", "CostInitialize", "CostFinalize", "ExecuteAction", "FatalError", "X", "Y"};
        return {"", "CostFinalize", "InstallAdminPackage", "InstallFiles", "InstallFinalize", "X", "Y"};
    };
    for (size_t t = 0; t < tables.size(); t++) {
        auto px = std::make_shared<std::vector<Act>>(placements(refs(tables[t]), {"1001", "1", "1499", "1500", "32767"}, "X"));
        auto py = std::make_shared<std::vector<Act>>(placements(refs(tables[t]), {"1001", "1002", "1501", "51", "6599"}, "Y"));
        uint64_t n = (px->size()) * (py->size() + 1);
        std::string table = tables[t];
        chk.spaces.push_back({"two " + table, "every placement of an action, alone and with every placement of another", n, [=](mc::Ctx &c, uint64_t i) {
            Acts v = {(*px)[i % px->size()]};
            uint64_t k = i / px->size();
            if (k) v.push_back((*py)[k - 1]);
            orders(c, table, v);
        }});
    }
    // three actions with fewer references
    auto p3 = [](const std::string &self) {
        std::vector<Act> v;
        auto put = [&](std::string a, std::string b, std::string s) { if (a == self || b == self) return; Act x; x.name = self; x.after = a; x.before = b; x.seq = s; v.push_back(x); };
        for (auto r : {"X", "Y", "Z", "InstallValidate", "InstallInitialize"}) { put(r, "", ""); put("", r, ""); }
        put("InstallValidate", "InstallInitialize", "");
        put("X", "InstallInitialize", "");
        put("Y", "Z", "");
        put("", "", "1401");
        put("", "", "1499");
        return v;
    };
    auto pX = std::make_shared<std::vector<Act>>(p3("X")), pY = std::make_shared<std::vector<Act>>(p3("Y")), pZ = std::make_shared<std::vector<Act>>(p3("Z"));
    chk.spaces.push_back({"three", "every three placements among each other and a neighbourhood of standard actions", pX->size() * pY->size() * pZ->size(), [=](mc::Ctx &c, uint64_t i) {
        orders(c, "InstallExecuteSequence", {(*pX)[i % pX->size()], (*pY)[i / pX->size() % pY->size()], (*pZ)[i / pX->size() / pY->size()]}, thorough ? 6 : i % 2 ? 3 : 2);
    }});
    // tight places: numbers run out
    struct Tight { const char *what; int n; int form; };
    static const std::vector<int> many = {1, 2, 10, 24, 25, 48, 49, 50, 89, 90, 99, 100, 101, 150};
    chk.spaces.push_back({"many", "n actions after, before, between, in a chain, in a chain from behind", many.size() * 7, [](mc::Ctx &c, uint64_t i) {
        int n = many[i / 7], form = i % 7;
        Acts v;
        for (int k = 0; k < n; k++) {
            Act a;
            a.name = fmt("A%03d", k * 7 % n + (n % 7 ? 0 : k));
            bool dup = false;
            for (auto &x : v) dup |= x.name == a.name;
            if (dup) a.name = fmt("B%03d", k);
            if (form == 0) a.after = "InstallInitialize";
            if (form == 1) a.before = "ProcessComponents";
            if (form == 2) { a.after = "InstallInitialize"; a.before = "ProcessComponents"; }
            if (form == 3) a.after = k ? v.back().name : "InstallInitialize";
            if (form == 4) { a.after = k ? v.back().name : "InstallInitialize"; if (k == n - 1) a.before = "ProcessComponents"; }
            if (form == 5) a.before = k ? v.back().name : "CostInitialize";
            if (form == 6) { if (k % 3 == 0) a.after = "InstallInitialize"; if (k % 3 == 1) a.before = "AppSearch"; if (k % 3 == 2) a.seq = fmt("%d", 1500 + k); }
            v.push_back(a);
        }
        std::string what = fmt("%d actions, form %d", n, form);
        c.step(what);
        Built b = build(c, doc("InstallExecuteSequence", v), what);
        check(c, "InstallExecuteSequence", v, b, what);
        std::reverse(v.begin(), v.end());
        Built r = build(c, doc("InstallExecuteSequence", v), what);
        if (r.ok != b.ok || r.tables != b.tables) c.fail("depends on the order of writing", what);
    }});
    // overridable placements in several fragments
    static const std::vector<Act> same = {{"X", "CostFinalize"}, {"X", "", "InstallFinalize"}, {"X", "", "", "1234"}, {"X", "CostFinalize", "", "", "", "cond"}, {"X", "Y"}, {"X", "", "Y"}};
    chk.spaces.push_back({"overridable", "the same action placed twice or three times, overridable or not, in every order", same.size() * same.size() * 4 * (same.size() * 2 + 1), [=](mc::Ctx &c, uint64_t i) {
        Act a = same[i % same.size()], b = same[i / same.size() % same.size()];
        int f = i / same.size() / same.size() % 4, k = i / same.size() / same.size() / 4;
        if (!thorough && k && ((k - 1) / 2 > 2 || i % same.size() > 3 || i / same.size() % same.size() > 3)) return;
        a.over = f & 1; b.over = f & 2;
        Acts v = {a, b};
        if (k) { Act d = same[(k - 1) / 2]; d.over = k & 1; v.push_back(d); }
        Act y; y.name = "Y"; y.after = "InstallInitialize";
        // two equal in rank and different: a rejection; of three, the order decides nothing
        v.insert(v.begin(), y);
        std::map<bool, Acts> by;
        for (auto &x : v) if (x.name == "X") by[x.over].push_back(x);
        bool clash = false;
        for (auto &g : by) for (auto &p : g.second) for (auto &q : g.second) clash |= p.after != q.after || p.before != q.before || p.seq != q.seq || p.cond != q.cond;
        std::string what = xml(v);
        c.step(what);
        Built first;
        std::vector<int> p(v.size());
        for (size_t x = 0; x < p.size(); x++) p[x] = x;
        bool one = true;
        do {
            Acts w;
            for (int x : p) w.push_back(v[x]);
            Built r = build(c, doc("InstallExecuteSequence", w, "", true), what);
            if (clash && by.count(false) && by[false].size() < 2) {  // several overridable ones below one that counts: open
                if (!r.ok) continue;
            } else if (clash) { if (r.ok) c.fail("contradiction accepted", xml(w) + str(r.tables["InstallExecuteSequence"])); c.state("clash"); continue; }
            if (one) { Acts use; for (auto &x : w) if (x.name != "X" || !x.over || !by.count(false)) use.push_back(x); check(c, "InstallExecuteSequence", use, r, what); first = r; one = false; continue; }
            if (r.ok != first.ok || r.tables != first.tables) c.fail("depends on the order of writing", what + " rewritten as " + xml(w));
        } while (std::next_permutation(p.begin(), p.end()));
    }});
    // dialogs shown on exit, with other actions about them
    static const std::vector<std::string> exits = {"success", "cancel", "error", "suspend"};
    static const std::vector<Act> beside = {{"C", "CostFinalize"}, {"C", "", "CostInitialize"}, {"C", "", "AppSearch"}, {"C", "", "FindRelatedProducts"}, {"C", "", "", "1"}, {"C", "ExecuteAction"}, {"C", "Dlg"}, {"C", "", "Dlg"}, {"C", "", "", "-1"}};
    chk.spaces.push_back({"exit", "dialogs on exit beside another action, in both UI sequences", 2 * 5 * 5 * beside.size() * 2, [=](mc::Ctx &c, uint64_t i) {
        std::string table = i % 2 ? "AdminUISequence" : "InstallUISequence";
        Acts v;
        int e1 = i / 2 % 5, e2 = i / 10 % 5;
        if (e1 < 4) { Act d; d.name = "Dlg"; d.exit = exits[e1]; d.cond = i / 50 / beside.size() ? "a < b" : ""; d.condform = 1; v.push_back(d); }
        if (e2 < 4) { Act d; d.name = "AnotherDlg"; d.exit = exits[e2]; v.push_back(d); }
        v.push_back(beside[i / 50 % beside.size()]);
        if (table == "AdminUISequence" && (v.back().before == "FindRelatedProducts" || v.back().before == "AppSearch")) v.back().before = "CostInitialize";
        orders(c, table, v);
    }});
    // standard actions placed by name; unknown references; conditions
    static const std::vector<std::string> stds = {"InstallExecute", "AllocateRegistrySpace", "StartServices", "RemoveExistingProducts", "InstallFiles", "CCPSearch", "IsolateComponents", "LaunchConditions", "InstallFinalize", "CostInitialize"};
    static const std::vector<std::string> at = {"", "InstallInitialize", "InstallFinalize", "CostInitialize", "Nope", "StartServices", "InstallExecuteAgain", "RemoveExistingProducts"};
    static const std::vector<std::string> conds = {"", "NOT Installed AND x", "A < \"b\" & c", "<![CDATA[x<y]]>"};
    chk.spaces.push_back({"standard", "standard actions with every placement, condition and form of condition", stds.size() * at.size() * at.size() * 3 * 2 * 2, [=](mc::Ctx &c, uint64_t i) {
        Act a;
        a.name = stds[i % stds.size()]; i /= stds.size();
        a.after = at[i % at.size()]; i /= at.size();
        a.before = at[i % at.size()]; i /= at.size();
        a.cond = conds[i % 3]; i /= 3;
        a.condform = i % 2; i /= 2;
        if (i) a.seq = "1777";
        if (a.name == a.after || a.name == a.before || (a.after.empty() && a.before.empty() && a.seq.empty() && a.name == "RemoveExistingProducts")) return;
        if (!a.after.empty() && a.after == "RemoveExistingProducts" && a.name != a.after) {}
        orders(c, "InstallExecuteSequence", {a});
    }});
    // what the content of a package adds
    struct Part { const char *xml; std::vector<const char *> exec, ui, advt; };
    static const std::vector<Part> parts = {
        {"R", {"RemoveRegistryValues", "WriteRegistryValues"}, {}, {}},
        {"I", {"WriteIniValues"}, {}, {}},
        {"J", {"RemoveIniValues"}, {}, {}},
        {"S", {"RemoveShortcuts", "CreateShortcuts"}, {}, {"CreateShortcuts"}},
        {"D", {"RemoveFiles"}, {}, {}},
        {"C", {"RemoveFolders", "CreateFolders"}, {}, {}},
        {"V", {"StartServices", "StopServices", "DeleteServices"}, {}, {}},
        {"F", {"RemoveFiles", "InstallFiles"}, {}, {}},
        {"L", {"LaunchConditions"}, {"LaunchConditions"}, {}},
        {"U", {"FindRelatedProducts", "MigrateFeatureStates"}, {"FindRelatedProducts", "MigrateFeatureStates"}, {}},
        {"A", {"AppSearch"}, {"AppSearch"}, {}},
        {"M", {"FindRelatedProducts", "MigrateFeatureStates", "RemoveExistingProducts", "LaunchConditions"}, {"FindRelatedProducts", "MigrateFeatureStates", "LaunchConditions"}, {}},
    };
    chk.spaces.push_back({"content", "every subset of the kinds of content with actions of their own", 1u << parts.size(), [](mc::Ctx &c, uint64_t m) {
        if ((m >> 9 & 1) && (m >> 11 & 1)) return;  // both upgrades give the same properties
        std::string comp, more, what;
        std::map<std::string, std::set<std::string>> want;
        for (auto &t : always()) want[t.first].insert(t.second.begin(), t.second.end());
        auto has = [&](const char *k) { for (size_t i = 0; i < parts.size(); i++) if (*parts[i].xml == *k) return (m >> i & 1) != 0; return false; };
        if (has("R")) comp += "<RegistryValue Root=\"HKLM\" Key=\"k\" Name=\"n\" Value=\"v\" Type=\"string\"/>";
        if (has("I")) comp += "<IniFile Id=\"ini\" Name=\"a.ini\" Section=\"s\" Key=\"k\" Value=\"v\" Action=\"createLine\" Directory=\"TARGETDIR\"/>";
        if (has("J")) comp += "<IniFile Id=\"inr\" Name=\"b.ini\" Section=\"s\" Key=\"k\" Action=\"removeLine\" Directory=\"TARGETDIR\"/>";
        if (has("S")) comp += "<Shortcut Id=\"sc\" Name=\"short\" Directory=\"TARGETDIR\" Target=\"[TARGETDIR]x\"/>";
        if (has("D")) comp += "<RemoveFolder Id=\"rf\" On=\"both\"/>";
        if (has("C")) comp += "<CreateFolder/>";
        if (has("V")) comp += "<ServiceControl Id=\"sv\" Name=\"svc\" Start=\"install\" Stop=\"both\" Remove=\"uninstall\"/>";
        if (has("F")) { comp += "<File Id=\"f\" Name=\"f.txt\" Source=\"f.txt\"/>"; writefile(c.scratch + "/f.txt", "data"); more += "<Media Id=\"1\" Cabinet=\"a.cab\" EmbedCab=\"yes\"/>"; }
        if (has("L")) more += "<Condition Message=\"m\">VersionNT</Condition>";
        if (has("U")) more += "<Upgrade Id=\"11111111-1111-1111-1111-111111111112\"><UpgradeVersion Minimum=\"1.0.0\" OnlyDetect=\"yes\" Property=\"NEWER\"/></Upgrade>";
        if (has("A")) more += "<Property Id=\"SRCH\"><RegistrySearch Id=\"rs\" Root=\"HKLM\" Key=\"k\" Name=\"n\" Type=\"raw\"/></Property>";
        if (has("M")) more += "<MajorUpgrade DowngradeErrorMessage=\"newer\"/>";
        for (size_t i = 0; i < parts.size(); i++) if (m >> i & 1) {
            what += parts[i].xml;
            for (auto n : parts[i].exec) want["InstallExecuteSequence"].insert(n);
            for (auto n : parts[i].ui) want["InstallUISequence"].insert(n);
            for (auto n : parts[i].advt) want["AdvtExecuteSequence"].insert(n);
        }
        std::string src = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Wix xmlns=\"http://schemas.microsoft.com/wix/2006/wi\"><Product Id=\"11111111-1111-1111-1111-111111111111\" Name=\"n\" Manufacturer=\"m\" Version=\"1.0.0\" UpgradeCode=\"11111111-1111-1111-1111-111111111112\" Language=\"1033\"><Package InstallerVersion=\"200\"/>" + more +
            "<Directory Id=\"TARGETDIR\" Name=\"SourceDir\"><Component Id=\"c\" Guid=\"11111111-1111-1111-1111-111111111113\">" + comp + "</Component></Directory><Feature Id=\"F\" Level=\"1\"><ComponentRef Id=\"c\"/></Feature></Product></Wix>\n";
        c.step("content " + what);
        Built b = build(c, src, "content " + what);
        if (!b.ok) c.fail("refused", "content " + what + ": " + b.err);
        for (auto &t : want) {
            std::set<std::string> have;
            std::set<int> nums;
            for (auto &r : b.tables[t.first]) {
                have.insert(r.first);
                if (!nums.insert(r.second.first).second) c.fail("number shared", t.first + ": " + r.first);
                auto s = standard().find(r.first);
                if (s != standard().end() && (s->second.seq != r.second.first || s->second.cond != r.second.second)) c.fail("number not kept", r.first);
                if (r.first == "RemoveExistingProducts" && r.second.first <= 1400) c.fail("order not kept", r.first);
            }
            if (have != t.second) { std::string d; for (auto &x : t.second) if (!have.count(x)) d += " -" + x; for (auto &x : have) if (!t.second.count(x)) d += " +" + x; c.fail("other actions", "content " + what + ", " + t.first + ":" + d); }
        }
        c.state(what);
        c.nontrivial();
    }});
    chk.bounds = fmt("5 sequence tables; every pair of placements (all before/after pairs of 6-8 references, 5 numbers), every triple of %d, up to 150 actions in 7 forms, overridable duplicates up to 3, exit dialogs, 10 standard actions x 8 x 8 references, 2^12 kinds of content; every order of writing up to 3 actions", (int)pX->size());
    return mc::run(chk, argc, argv);
}
