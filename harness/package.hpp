// Whether a package produced by wixl holds together: references, keys, files, media and cabinets.
#pragma once
#define CAB_READER
#include "cab.hpp"
#include "tool.hpp"
#include <glib.h>
namespace package {
using namespace tool;
struct View {
    const Snap &s;
    const TableView *t(const std::string &n) const { auto i = s.tables.find(n); return i == s.tables.end() ? nullptr : &i->second; }
    static int col(const TableView &t, const std::string &c) { for (size_t i = 0; i < t.names.size(); i++) if (t.names[i] == c) return i; return -1; }
    // the values of a column
    std::vector<Val> all(const std::string &n, const std::string &c) const {
        std::vector<Val> v;
        auto x = t(n);
        int k = x ? col(*x, c) : -1;
        if (k >= 0) for (auto &r : x->rows) v.push_back(r[k]);
        return v;
    }
    std::set<std::string> names(const std::string &n, const std::string &c) const { std::set<std::string> o; for (auto &v : all(n, c)) if (v.k == Val::STR) o.insert(v.s); return o; }
    // rows as column=value text, without the columns that are null
    std::vector<std::map<std::string, Val>> rows(const std::string &n) const {
        std::vector<std::map<std::string, Val>> o;
        auto x = t(n);
        if (x) for (auto &r : x->rows) { std::map<std::string, Val> m; for (size_t i = 0; i < r.size(); i++) if (r[i].k != Val::NUL) m[x->names[i]] = r[i]; o.push_back(m); }
        return o;
    }
};
using Cabs = std::map<std::string, std::vector<cab::File>>;
inline std::string md5(const std::string &d) { gsize n = 16; guint8 b[16]; GChecksum *g = g_checksum_new(G_CHECKSUM_MD5); g_checksum_update(g, (const guchar *)d.data(), d.size()); g_checksum_get_digest(g, b, &n); g_checksum_free(g); return std::string((char *)b, 16); }
// external: the cabinets beside the package
inline Cabs check(mc::Ctx &c, const Snap &s, const std::string &dir, const std::string &what) {
    View v{s};
    auto bad = [&](const std::string &k, const std::string &d) { c.fail(k, d + ", " + what); };
    for (auto &t : s.tables) {
        std::set<Row> keys;
        std::vector<int> kc;
        for (auto &k : t.second.keys) kc.push_back(View::col(t.second, k));
        for (auto &r : t.second.rows) { Row k; for (int i : kc) k.push_back(r[i]); if (!kc.empty() && !keys.insert(k).second) bad("two rows with one key", t.first + show(k)); }
    }
    struct Ref { const char *table, *column, *to, *key; };
    static const Ref refs[] = {
        {"Component", "Directory_", "Directory", "Directory"}, {"Directory", "Directory_Parent", "Directory", "Directory"}, {"File", "Component_", "Component", "Component"},
        {"FeatureComponents", "Feature_", "Feature", "Feature"}, {"FeatureComponents", "Component_", "Component", "Component"}, {"Feature", "Feature_Parent", "Feature", "Feature"},
        {"Feature", "Directory_", "Directory", "Directory"}, {"Shortcut", "Component_", "Component", "Component"}, {"Shortcut", "Icon_", "Icon", "Name"},
        {"Registry", "Component_", "Component", "Component"}, {"CreateFolder", "Component_", "Component", "Component"}, {"CreateFolder", "Directory_", "Directory", "Directory"},
        {"RemoveFile", "Component_", "Component", "Component"}, {"RemoveFile", "DirProperty", "Directory", "Directory"}, {"ServiceControl", "Component_", "Component", "Component"},
        {"ServiceInstall", "Component_", "Component", "Component"}, {"IniFile", "Component_", "Component", "Component"}, {"RemoveIniFile", "Component_", "Component", "Component"},
        {"MsiFileHash", "File_", "File", "File"}, {"AppSearch", "Signature_", "RegLocator", "Signature_"}, {"RegLocator", "Signature_", "AppSearch", "Signature_"},
    };
    for (auto &r : refs) {
        if (!v.t(r.table)) continue;
        if (View::col(*v.t(r.table), r.column) < 0) bad("column missing", std::string(r.table) + "." + r.column);
        auto to = v.names(r.to, r.key);
        for (auto &x : v.all(r.table, r.column)) if (x.k == Val::STR && !to.count(x.s)) bad("reference does not resolve", std::string(r.table) + "." + r.column + " " + x.str());
    }
    for (auto t : {"Directory", "Feature"}) {
        std::map<std::string, std::string> up;
        std::string key = t;
        for (auto &r : v.rows(t)) if (r.count(key + "_Parent")) up[r[key].s] = r[key + "_Parent"].s;
        for (auto &u : up) { std::string x = u.first; size_t n = 0; while (up.count(x) && n <= up.size()) { x = up[x]; n++; } if (n > up.size()) bad("parents in a circle", key + " " + u.first); }
    }
    auto files = v.names("File", "File"), regs = v.names("Registry", "Registry");
    std::map<std::string, std::string> fcomp, rcomp;
    for (auto &r : v.rows("File")) fcomp[r["File"].s] = r["Component_"].s;
    for (auto &r : v.rows("Registry")) rcomp[r["Registry"].s] = r["Component_"].s;
    for (auto &r : v.rows("Component")) {
        std::string id = r["Component"].s;
        bool reg = r["Attributes"].i & 4;
        if (r.count("KeyPath")) {
            auto &m = reg ? rcomp : fcomp;
            if (!m.count(r["KeyPath"].s)) bad("key path does not resolve", id + ": " + r["KeyPath"].s);
            if (m[r["KeyPath"].s] != id) bad("key path of another component", id + ": " + r["KeyPath"].s);
        } else if (reg) bad("key path does not resolve", id);
        if (r.count("ComponentId")) {
            std::string g = r["ComponentId"].s;
            bool form = g.size() == 38 && g[0] == '{' && g[37] == '}';
            for (size_t i = 1; form && i < 37; i++) form = i == 9 || i == 14 || i == 19 || i == 24 ? g[i] == '-' : isdigit((unsigned char)g[i]) || (g[i] >= 'A' && g[i] <= 'F');
            if (!form) bad("component code", id + " " + g);
        }
    }
    // custom actions
    auto bins = v.names("Binary", "Name");
    for (auto &r : v.rows("CustomAction")) {
        int type = r["Type"].i & 63;
        std::string src = r.count("Source") ? r["Source"].s : "";
        if ((type == 1 || type == 2 || type == 5 || type == 6) && !bins.count(src)) bad("reference does not resolve", "CustomAction.Source " + src);
        if ((type == 17 || type == 18 || type == 21 || type == 22) && !files.count(src)) bad("reference does not resolve", "CustomAction.Source " + src);
    }
    auto cas = v.names("CustomAction", "Action");
    auto feats = v.names("Feature", "Feature");
    for (auto &r : v.rows("Shortcut")) {
        if (!r.count("Target")) bad("reference does not resolve", "Shortcut.Target of " + r["Shortcut"].s);
        if (r["Target"].s[0] != '[' && !feats.count(r["Target"].s)) bad("reference does not resolve", "Shortcut.Target " + r["Target"].s);
    }
    std::string secure;
    for (auto &r : v.rows("Property")) if (r["Property"].s == "SecureCustomProperties") secure = ";" + r["Value"].s + ";";
    for (auto &r : v.rows("Upgrade")) if (secure.find(";" + r["ActionProperty"].s + ";") == std::string::npos) bad("upgrade property not secure", r["ActionProperty"].s);
    // media and cabinets
    struct M { int last, id; std::string cab; };
    std::vector<M> media;
    for (auto &r : v.rows("Media")) media.push_back({r["LastSequence"].i, r["DiskId"].i, r.count("Cabinet") ? r["Cabinet"].s : ""});
    std::sort(media.begin(), media.end(), [](const M &a, const M &b) { return a.id < b.id; });
    for (size_t i = 1; i < media.size(); i++) if (media[i].last < media[i - 1].last) bad("media out of order", fmt("disk %d ends at %d, disk %d at %d", media[i - 1].id, media[i - 1].last, media[i].id, media[i].last));
    Cabs cabs;
    std::set<std::string> names;
    for (auto &m : media) {
        if (m.cab.empty()) bad("media without cabinet", fmt("%d", m.id));
        std::string b;
        if (!names.insert(m.cab).second) bad("cabinet used twice", m.cab);
        if (m.cab[0] == '#') { auto i = s.streams.find(m.cab.substr(1)); if (i == s.streams.end()) bad("cabinet missing", m.cab); b = i->second; }
        else { auto f = readfile(dir + "/" + m.cab); if (!f) bad("external cabinet missing", m.cab); b = *f; }
        try { cabs[m.cab] = cab::read(b); } catch (cab::Bad &e) { bad("cabinet unreadable", m.cab + ": " + e.what); }
    }
    std::map<int, std::pair<std::string, int>> bySeq;
    for (auto &r : v.rows("File")) {
        int q = r["Sequence"].i;
        if (q < 1) bad("file sequence", r["File"].s + fmt(" %d", q));
        if (bySeq.count(q)) bad("file sequence shared", r["File"].s + " and " + bySeq[q].first + fmt(" have %d", q));
        bySeq[q] = {r["File"].s, r["FileSize"].i};
    }
    std::map<std::string, std::vector<std::string>> want;
    for (auto &f : bySeq) {
        const M *in = nullptr;
        for (auto &m : media) if (f.first <= m.last) { in = &m; break; }
        if (!in) bad("file beyond the last media", f.second.first);
        want[in->cab].push_back(f.second.first);
    }
    std::map<std::string, std::string> bytes;
    for (auto &m : media) {
        std::vector<std::string> have;
        for (auto &f : cabs[m.cab]) { have.push_back(f.name); bytes[f.name] = f.data; }
        if (have != want[m.cab]) bad("cabinet does not match the File table", m.cab + " has " + join(have) + ", File says " + join(want[m.cab]));
    }
    for (auto &r : v.rows("File")) if ((int)bytes[r["File"].s].size() != r["FileSize"].i) bad("file size", r["File"].s);
    std::set<std::string> hashed;
    for (auto &r : v.rows("MsiFileHash")) {
        std::string h = md5(bytes[r["File_"].s]);
        for (int i = 0; i < 4; i++) { int x; memcpy(&x, &h[i * 4], 4); auto k = fmt("HashPart%d", i + 1); if ((r.count(k) ? r[k].i : INT_MIN) != x) bad("file hash", r["File_"].s); }
        hashed.insert(r["File_"].s);
    }
    for (auto &r : v.rows("File")) if (!r.count("Version") != hashed.count(r["File"].s)) bad("file hash", r["File"].s + " has a version or no hash");
    return cabs;
}
} // namespace package
