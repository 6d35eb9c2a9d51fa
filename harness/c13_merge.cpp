// C13: merge adds the other database's rows and reports every conflict.
#include "content.hpp"
using namespace content;

namespace {
struct Col { std::string name, decl, type; };
struct Tab { std::vector<Col> cols; int keys = 1; Rows rows; };
using Mod = std::map<std::string, Tab>;

bool nullable(const Col &c) { return isupper(c.type[0]); }
bool match(const std::string &a, const std::string &b) {
    auto in = [](char c, const char *s) { return strchr(s, c) != nullptr; };
    return (in(a[0], "ls") && in(b[0], "ls")) || (in(a[0], "LS") && in(b[0], "LS")) || a == b;
}
Col col(const std::string &name, int t) {
    static const char *d[][2] = {{"SHORT", "I2"}, {"SHORT NOT NULL", "i2"}, {"LONG", "I4"}, {"CHAR(20)", "S20"}, {"CHAR(20) NOT NULL", "s20"}, {"CHAR(50)", "S50"}, {"LONGCHAR LOCALIZABLE", "L0"}, {"CHAR(7) NOT NULL LOCALIZABLE", "l7"}, {"OBJECT", "V0"}, {"OBJECT NOT NULL", "v0"}, {"LONGCHAR", "S0"}, {"LONG NOT NULL", "i4"}};
    return {name, d[t][0], d[t][1]};
}
constexpr int NTYPES = 12;
int build(LibmsiDatabase *db, const std::string &t, const Tab &tab) {
    std::string cr = "CREATE TABLE `" + t + "` (", pk, cl, q;
    for (size_t i = 0; i < tab.cols.size(); i++) {
        cr += (i ? ", `" : "`") + tab.cols[i].name + "` " + tab.cols[i].decl;
        if ((int)i < tab.keys) pk += (i ? ", `" : "`") + tab.cols[i].name + "`";
        cl += (i ? ",`" : "`") + tab.cols[i].name + "`";
        q += i ? ",?" : "?";
    }
    if (int e = exec(db, cr + " PRIMARY KEY " + pk + ")")) return e;
    for (auto &r : tab.rows) if (int e = exec(db, "INSERT INTO `" + t + "` (" + cl + ") VALUES (" + q + ")", r)) return e;
    return 0;
}
void build(mc::Ctx &c, LibmsiDatabase *db, const Mod &m) { for (auto &t : m) if (int e = build(db, t.first, t.second)) c.fail("build", t.first + fmt(" %d ", e) + show(t.second.rows)); }
// what the merge must leave, and whether it reports success
struct Out { Mod m; bool ok = true, mismatch = false; std::map<std::string, int> conflicts; };
Out merged(const Mod &a, const Mod &b) {
    Out o;
    o.m = a;
    for (auto &t : b) {
        auto it = a.find(t.first);
        if (it == a.end()) continue;
        const Tab &x = it->second, &y = t.second;
        size_t n = std::min(x.cols.size(), y.cols.size());
        for (size_t i = 0; i < n; i++) if (x.cols[i].name != y.cols[i].name || !match(x.cols[i].type, y.cols[i].type)) o.mismatch = true;
        if (x.keys != y.keys) o.mismatch = true;
        else for (int i = 0; i < x.keys; i++) if (x.cols[i].name != y.cols[i].name) o.mismatch = true;
    }
    if (o.mismatch) { o.ok = false; return o; }
    for (auto &t : b) {
        auto it = a.find(t.first);
        if (it == a.end()) { o.m[t.first] = t.second; continue; }
        const Tab &x = it->second, &y = t.second;
        size_t n = std::min(x.cols.size(), y.cols.size());
        Rows add;
        int conf = 0;
        for (auto &r : y.rows) {
            const Row *old = nullptr;
            for (auto &s : x.rows) if (std::equal(r.begin(), r.begin() + x.keys, s.begin())) old = &s;
            if (old) { if (!std::equal(r.begin(), r.begin() + n, old->begin())) conf++; }
            else { Row k(r.begin(), r.begin() + n); k.resize(x.cols.size()); add.push_back(k); }
        }
        if (conf) { o.ok = false; o.conflicts[t.first] = conf; }
        else for (auto &r : add) o.m[t.first].rows.push_back(r);
    }
    return o;
}
TableView view(const Tab &t) {
    TableView v;
    for (size_t i = 0; i < t.cols.size(); i++) { v.names.push_back(t.cols[i].name); v.types.push_back(t.cols[i].type); if ((int)i < t.keys) v.keys.push_back(t.cols[i].name); }
    v.rows = sorted(t.rows);
    return v;
}
int merge(LibmsiDatabase *a, LibmsiDatabase *b, const char *errors) { GError *e = nullptr; gboolean ok = libmsi_database_merge(a, b, errors, &e); return code(ok, e); }
const Col ET = {"Table", "", "s255"}, EN = {"NumRowMergeConflicts", "", "i2"};
void compare(mc::Ctx &c, LibmsiDatabase *db, const Mod &m, const std::string &when) {
    Snap s = snap(db);
    if (!s.error.empty()) c.fail("unreadable", when + ": " + s.error);
    std::map<std::string, TableView> w;
    for (auto &t : m) w[t.first] = view(t.second);
    if (s.tables != w) {
        Snap x;
        x.tables = w; x.columns = s.columns; x.streams = s.streams; x.storages = s.storages; x.summary = s.summary;
        c.fail("tables", when + ":\n" + diff(x, s));
    }
}
// merge and compare everything
void run(mc::Ctx &c, const std::string &pa, LibmsiDatabase *a, LibmsiDatabase *b, Mod &ma, const Mod &mb, const char *errors, bool reopen) {
    Snap before = snap(a), ref = snap(b);
    Out o = merged(ma, mb);
    int e = merge(a, b, errors);
    if (o.ok != !e) c.fail(o.ok ? "refused" : "accepted", fmt("merge gives %d, conflicts %zu mismatch %d", e, o.conflicts.size(), o.mismatch));
    if (!(snap(b) == ref)) c.fail("reference-changed", diff(ref, snap(b)));
    Snap after = snap(a);
    if (o.mismatch && !(after == before)) c.fail("mismatch-changed", diff(before, after));
    if (!o.conflicts.empty() && errors) {
        Tab &t = o.m[errors];
        if (t.cols.empty()) t.cols = {ET, EN};
        for (auto &x : o.conflicts) {
            t.rows.erase(std::remove_if(t.rows.begin(), t.rows.end(), [&](const Row &r) { return r[0] == Val::S(x.first); }), t.rows.end());
            t.rows.push_back({Val::S(x.first), Val::I(x.second)});
        }
    }
    ma = o.m;
    compare(c, a, ma, "after the merge");
    for (auto &x : before.streams) if (x.first.find('.') == std::string::npos) if (!after.streams.count(x.first) || after.streams[x.first] != x.second) c.fail("stream", "stream " + x.first + " of the target changed");
    if (after.storages != before.storages || after.summary != before.summary) c.fail("other", diff(before, after));
    std::string st;
    for (auto &t : ma) st += t.first + show(sorted(t.second.rows));
    c.state(st);
    if (!o.conflicts.empty() || o.mismatch) c.nontrivial();
    else for (auto &t : mb) if (!t.second.rows.empty()) { c.nontrivial(); break; }
    if (!reopen) return;
    if (int x = commit(a)) c.fail("commit", fmt("%d", x));
    Db r = open(pa, LIBMSI_DB_FLAGS_READONLY);
    if (!r) c.fail("reopen", "");
    compare(c, r, ma, "after commit and reopen");
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C13";
    chk.technique = "bounded-exhaustive enumeration of pairs of databases, merged by the real library, against a reference model of the merge";
    chk.rule = "after the merge the target's tables, streams, summary and error table are the model's, the reference is unchanged, and so after commit and reopen; non-trivial: the merge adds rows or reports a conflict or mismatch";
    chk.bounds = fmt("all pairs of contents of 3 keys x %d values under 6 key and column forms; all pairs of two- and three-column shapes over %d types; special names and strings; all histories of %d changes and merges", thorough ? 4 : 3, NTYPES, thorough ? 5 : 4);
    // contents
    static int nv;
    nv = thorough ? 4 : 3;                       // absent and two or three values
    static const char *forms[] = {"integer key", "string key", "two keys", "object", "null key", "long"};
    uint64_t per = (uint64_t)nv * nv * nv;
    chk.spaces.push_back({"contents", "every pair of table contents x key and column form x error table", per * per * 6 * 2, [per](mc::Ctx &c, uint64_t i) {
        int form = i % 6, err = i / 6 % 2;
        uint64_t n[2] = {i / 12 % per, i / 12 / per};
        Mod m[2];
        for (int k = 0; k < 2; k++) {
            Tab &t = m[k]["T"];
            if (form == 0) t.cols = {col("K", 1), col("S", 3)};
            if (form == 1) t.cols = {col("K", 4), col("S", 3)};
            if (form == 2) t.cols = {col("K", 1), col("L", 4), col("S", 2)}, t.keys = 2;
            if (form == 3) t.cols = {col("K", 1), col("S", 8)};
            if (form == 4) t.cols = {col("K", 3), col("L", 0), col("S", 3)}, t.keys = 2;
            if (form == 5) t.cols = {col("K", 11), col("S", 2)};
            for (int key = 0; key < 3; key++) {
                int v = n[k] % nv;
                n[k] /= nv;
                if (!v) continue;
                static const char *sk[] = {"a", "it's", "A"};
                Row r;
                if (form == 0) r = {Val::I(key - 1), v == 1 ? Val::S("one") : v == 2 ? Val::N() : Val::S("it's")};
                if (form == 1) r = {Val::S(sk[key]), v == 1 ? Val::S("one") : v == 2 ? Val::S("two") : Val::N()};
                if (form == 2) r = {Val::I(key / 2), Val::S(sk[key % 2]), v == 1 ? Val::I(1) : v == 2 ? Val::I(0) : Val::N()};
                if (form == 3) r = {Val::I(key), v == 1 ? Val::B("one") : v == 2 ? Val::N() : Val::B("two")};
                if (form == 4) r = {key == 0 ? Val::N() : Val::S("k"), key == 1 ? Val::N() : Val::I(5), v == 1 ? Val::S("x") : v == 2 ? Val::N() : Val::S("z")};
                if (form == 5) r = {Val::I(key == 0 ? -2147483647 : key == 1 ? 2147483647 : 32768), v == 1 ? Val::I(65536) : v == 2 ? Val::I(0) : Val::N()};
                t.rows.push_back(r);
            }
        }
        std::string p = c.scratch + "/a.msi";
        Db a = open(p, LIBMSI_DB_FLAGS_CREATE), b = open(c.scratch + "/b.msi", LIBMSI_DB_FLAGS_CREATE);
        build(c, a, m[0]);
        build(c, b, m[1]);
        c.step(std::string(forms[form]) + " target " + show(m[0]["T"].rows) + " reference " + show(m[1]["T"].rows));
        run(c, p, a, b, m[0], m[1], err ? "Errors" : nullptr, i % 7 == 0);
    }});
    uint64_t shapes = NTYPES * NTYPES * 3;
    chk.spaces.push_back({"shapes", "every pair of table shapes of a key and one or two more columns", shapes * shapes, [](mc::Ctx &c, uint64_t i) {
        uint64_t n[2] = {i % (NTYPES * NTYPES * 3), i / (NTYPES * NTYPES * 3)};
        Mod m[2];
        for (int k = 0; k < 2; k++) {
            Tab &t = m[k]["T"];
            int a = n[k] % NTYPES, b = n[k] / NTYPES % NTYPES, f = n[k] / NTYPES / NTYPES;
            if (col("", a).type[0] == 'V' || col("", a).type[0] == 'v') return;
            // f: 0 two columns, 1 three columns, 2 other name
            t.cols = {col("K", a), col(f == 2 ? "X" : "C", b)};
            if (f == 1) t.cols.push_back(col("D", 3));
            Row r;
            for (auto &cl : t.cols) r.push_back(tolower(cl.type[0]) == 'i' ? Val::I(k + 1) : tolower(cl.type[0]) == 'v' ? Val::B("obj") : Val::S(fmt("v%d", k)));
            t.rows = {r};
        }
        Db a = open(c.scratch + "/a.msi", LIBMSI_DB_FLAGS_CREATE), b = open(c.scratch + "/b.msi", LIBMSI_DB_FLAGS_CREATE);
        build(c, a, m[0]);
        build(c, b, m[1]);
        auto d = [](const Tab &t) { std::string s; for (auto &x : t.cols) s += x.name + " " + x.decl + ", "; return s; };
        c.step("target (" + d(m[0]["T"]) + ") reference (" + d(m[1]["T"]) + ")");
        run(c, c.scratch + "/a.msi", a, b, m[0], m[1], "Errors", false);
    }});
    chk.spaces.push_back({"keys", "every pair of numbers and orders of primary keys of three columns", 9 * 9, [](mc::Ctx &c, uint64_t i) {
        Mod m[2];
        uint64_t n[2] = {i % 9, i / 9};
        for (int k = 0; k < 2; k++) {
            static const char *names[3][3] = {{"A", "B", "C"}, {"B", "A", "C"}, {"A", "C", "B"}};
            Tab &t = m[k]["T"];
            for (int j = 0; j < 3; j++) t.cols.push_back(col(names[n[k] / 3][j], 1));
            t.keys = 1 + n[k] % 3;
            t.rows = {{Val::I(k), Val::I(1), Val::I(2)}};
        }
        Db a = open(c.scratch + "/a.msi", LIBMSI_DB_FLAGS_CREATE), b = open(c.scratch + "/b.msi", LIBMSI_DB_FLAGS_CREATE);
        build(c, a, m[0]);
        build(c, b, m[1]);
        c.step(fmt("keys %d of order %d, %d of order %d", m[0]["T"].keys, (int)n[0] / 3, m[1]["T"].keys, (int)n[1] / 3));
        run(c, c.scratch + "/a.msi", a, b, m[0], m[1], "Errors", true);
    }});
    static const std::vector<std::string> ch = {"a", "\t", "\n", " ", "'", "`", "\"", "\\", "\xc3\xa9", ",", "?", "%s", "1"};
    static mc::Words sw{ch.size(), 1, 2};
    chk.spaces.push_back({"strings", "every string of up to two special characters as key and value, present, absent or different in the target", sw.count() * 3, [](mc::Ctx &c, uint64_t i) {
        std::string s;
        for (int x : sw.at(i / 3)) s += ch[x];
        Mod m[2];
        m[0]["T"].cols = m[1]["T"].cols = {col("K", 4), col("S", 3)};
        m[1]["T"].rows = {{Val::S(s), Val::S(s)}, {Val::S("other"), Val::N()}};
        m[0]["T"].rows = {{Val::S("mine"), Val::S(s)}};
        if (i % 3) m[0]["T"].rows.push_back({Val::S(s), i % 3 == 1 ? Val::S(s) : Val::S(s + "x")});
        Db a = open(c.scratch + "/a.msi", LIBMSI_DB_FLAGS_CREATE), b = open(c.scratch + "/b.msi", LIBMSI_DB_FLAGS_CREATE);
        writefile(c.scratch + "/cp", "\r\n\r\n65001\t_ForceCodepage\r\n");
        import_table(a, c.scratch + "/cp");
        build(c, a, m[0]);
        build(c, b, m[1]);
        c.step("string '" + s + "'" + fmt(" %d", (int)(i % 3)));
        run(c, c.scratch + "/a.msi", a, b, m[0], m[1], "Errors", true);
    }});
    static const std::vector<std::string> nms = {"T", "A b", "a.b", "_x", "x'y", "d\xc3\xa9", "0n", "Select", "Table", "T-1", "%n", "(x)", "a,b", "thirty-one characters is a lot!"};
    chk.spaces.push_back({"names", "every pair of table and column names x absent, equal, conflict, mismatch", nms.size() * nms.size() * 4, [](mc::Ctx &c, uint64_t i) {
        std::string t = nms[i / 4 % nms.size()], n = nms[i / 4 / nms.size()];
        Mod m[2];
        m[1][t].cols = {col(n, 4), col("Z", 3)};
        m[1][t].rows = {{Val::S("k"), Val::S("v")}, {Val::S("l"), Val::N()}};
        m[1]["Zz"].cols = {col("K", 1)};
        m[1]["Zz"].rows = {{Val::I(1)}};
        if (i % 4) { m[0][t] = m[1][t]; m[0][t].rows = {{Val::S("k"), Val::S(i % 4 == 1 ? "v" : "w")}}; if (i % 4 == 3) m[0][t].cols[1] = col("Z", 1), m[0][t].rows = {}; }
        Db a = open(c.scratch + "/a.msi", LIBMSI_DB_FLAGS_CREATE), b = open(c.scratch + "/b.msi", LIBMSI_DB_FLAGS_CREATE);
        if (build(b, t, m[1][t])) return;        // not a name a table can have
        build(b, "Zz", m[1]["Zz"]);
        build(c, a, m[0]);
        c.step("table " + t + " column " + n + fmt(" %d", (int)(i % 4)));
        run(c, c.scratch + "/a.msi", a, b, m[0], m[1], i / 4 % 2 ? "Errors" : "My errors", false);
    }});
    // three tables, each absent, equal, with a new row, in conflict or mismatched, in both files
    chk.spaces.push_back({"tables", "three tables x relation of each x error table absent, existing with other rows, existing with a count", 7 * 7 * 7 * 4, [](mc::Ctx &c, uint64_t i) {
        Mod m[2];
        int err = i % 4;
        uint64_t n = i / 4;
        for (int k = 0; k < 3; k++, n /= 7) {
            std::string t = k == 0 ? "B" : k == 1 ? "A" : "C";
            Tab x;
            x.cols = {col("K", 1), col("S", 3)};
            x.rows = {{Val::I(1), Val::S("same")}, {Val::I(2), Val::S("same too")}};
            Tab y = x;
            switch (n % 7) {
            case 0: m[0][t] = x; break;                                                     // only in the target
            case 1: m[1][t] = x; break;                                                     // only in the reference
            case 2: m[0][t] = x; m[1][t] = x; break;
            case 3: m[0][t] = x; y.rows.push_back({Val::I(3), Val::S("new")}); m[1][t] = y; break;
            case 4: m[0][t] = x; y.rows[1][1] = Val::S("different"); y.rows.push_back({Val::I(3), Val::S("new")}); m[1][t] = y; break;
            case 5: m[0][t] = x; for (auto &r : y.rows) r[1] = Val::N(); m[1][t] = y; break;
            case 6: m[0][t] = x; y.cols[1].name = "X"; m[1][t] = y; break;
            }
        }
        Db a = open(c.scratch + "/a.msi", LIBMSI_DB_FLAGS_CREATE), b = open(c.scratch + "/b.msi", LIBMSI_DB_FLAGS_CREATE);
        build(c, a, m[0]);
        build(c, b, m[1]);
        if (err > 1) {
            exec(a, "CREATE TABLE `Errors` (`Table` CHAR(255) NOT NULL, `NumRowMergeConflicts` SHORT NOT NULL PRIMARY KEY `Table`)");
            exec(a, "INSERT INTO `Errors` (`Table`,`NumRowMergeConflicts`) VALUES (?,?)", {Val::S(err == 2 ? "Other" : "A"), Val::I(77)});
            m[0]["Errors"].cols = {ET, EN};
            m[0]["Errors"].rows = {{Val::S(err == 2 ? "Other" : "A"), Val::I(77)}};
        }
        exec(a, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('s',?)", {Val::B("stream")});
        exec(b, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('s',?)", {Val::B("other stream")});
        c.step(fmt("tables %d, errors %d", (int)(i / 4), err));
        run(c, c.scratch + "/a.msi", a, b, m[0], m[1], err ? "Errors" : nullptr, true);
        // merging again adds nothing, and counts the same conflicts
        run(c, c.scratch + "/a.msi", a, b, m[0], m[1], err ? "Errors" : nullptr, false);
    }});
    // histories of changes to both, and merges in both directions
    static const int hd = thorough ? 5 : 4;
    static mc::Words hw{9, 1, hd};
    chk.spaces.push_back({"histories", "sequences of changes to two databases and merges in both directions", hw.count(), [](mc::Ctx &c, uint64_t i) {
        std::string p[2] = {c.scratch + "/a.msi", c.scratch + "/b.msi"};
        clean(c.scratch);
        Db db[2];
        Mod m[2];
        for (int k = 0; k < 2; k++) {
            db[k] = open(p[k], LIBMSI_DB_FLAGS_CREATE);
            m[k]["T"].cols = {col("K", 4), col("S", 3), col("D", 8)};
            build(c, db[k], m[k]);
        }
        auto put = [&](int k, Val key, Val s, Val d) {
            Rows &r = m[k]["T"].rows;
            bool dup = false;
            for (auto &x : r) if (x[0] == key) dup = true;
            int e = exec(db[k], "INSERT INTO `T` (`K`,`S`,`D`) VALUES (?,?,?)", {key, s, d});
            if (dup != !!e) c.fail("insert", fmt("%d", e));
            if (!dup) r.push_back({key, s, d});
        };
        for (int o : hw.at(i)) {
            static const char *nm[] = {"a gets x", "b gets x", "b gets another x", "a gets y", "b gets z", "a loses x", "merge b into a", "merge a into b", "commit and reopen a"};
            c.step(nm[o]);
            switch (o) {
            case 0: put(0, Val::S("x"), Val::S("1"), Val::B("data")); break;
            case 1: put(1, Val::S("x"), Val::S("1"), Val::B("data")); break;
            case 2: put(1, Val::S("x"), Val::S("1"), Val::B("datb")); break;
            case 3: put(0, Val::S("y"), Val::N(), Val::N()); break;
            case 4: put(1, Val::S("z"), Val::S("it's"), Val::B("z")); break;
            case 5: {
                if (int e = exec(db[0], "DELETE FROM `T` WHERE `K` = 'x'")) c.fail("delete", fmt("%d", e));
                Rows &r = m[0]["T"].rows;
                r.erase(std::remove_if(r.begin(), r.end(), [](const Row &x) { return x[0] == Val::S("x"); }), r.end());
                break;
            }
            case 6: run(c, p[0], db[0], db[1], m[0], m[1], nullptr, false); break;
            case 7: run(c, p[1], db[1], db[0], m[1], m[0], nullptr, false); break;
            case 8:
                if (int e = commit(db[0])) c.fail("commit", fmt("%d", e));
                db[0].reset();
                db[0] = open(p[0], LIBMSI_DB_FLAGS_TRANSACT);
                if (!db[0]) c.fail("reopen", "");
                break;
            }
            compare(c, db[0], m[0], "a");
            compare(c, db[1], m[1], "b");
        }
        // merging a database with itself changes nothing
        run(c, p[0], db[0], db[0], m[0], Mod(m[0]), "Errors", false);
    }});
    return mc::run(chk, argc, argv);
}
