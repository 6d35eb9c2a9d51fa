// C08: schema statements keep the catalog, the tables and HOLD/TEMPORARY in step.
//
// Every sequence of schema, data and commit steps up to a depth runs on the real
// library; after each step the whole catalog and every table are compared with a
// reference model of the schema.
#include "content.hpp"
using namespace content;

namespace {
struct Col { std::string name, decl, type; bool key = false, temp = false; int hold = 0; };
struct Tab { std::vector<Col> cols; bool temp = false; int holds = 1; std::vector<std::map<std::string, Val>> rows; std::vector<bool> trow; };
struct Model { std::map<std::string, Tab> t; };
struct Op { std::string name; std::function<bool(Model &)> apply; std::string sql; int kind = 0; };   // kind 1: commit, 2: commit and reopen

std::string canon(const Model &m) {
    std::string s;
    for (auto &t : m.t) {
        s += t.first + (t.second.temp ? fmt("?%d", t.second.holds) : "") + "(";
        for (auto &c : t.second.cols) s += c.name + (c.temp ? fmt("?%d", c.hold) : "") + ",";
        s += ")";
        for (size_t i = 0; i < t.second.rows.size(); i++) { s += t.second.trow[i] ? "?" : ""; for (auto &v : t.second.rows[i]) s += v.first + v.second.str(); s += ";"; }
    }
    return s;
}
void gone(Model &m) {
    for (auto it = m.t.begin(); it != m.t.end();) {
        if (it->second.temp) { it = m.t.erase(it); continue; }
        Tab &t = it->second;
        for (size_t i = 0; i < t.cols.size();) if (t.cols[i].temp) { for (auto &r : t.rows) r.erase(t.cols[i].name); t.cols.erase(t.cols.begin() + i); } else i++;
        for (size_t i = 0; i < t.rows.size();) if (t.trow[i]) { t.rows.erase(t.rows.begin() + i); t.trow.erase(t.trow.begin() + i); } else i++;
        ++it;
    }
}
Op create(const std::string &tab, const std::vector<Col> &cols, bool hold, bool bad = false) {
    Op o;
    std::string c, k;
    bool alltemp = true;
    for (auto &x : cols) { c += (c.empty() ? "" : ", ") + fmt("`%s` %s%s", x.name.c_str(), x.decl.c_str(), x.temp ? " TEMPORARY" : ""); if (x.key) k += (k.empty() ? "`" : ", `") + x.name + "`"; if (!x.temp) alltemp = false; }
    o.sql = o.name = "CREATE TABLE `" + tab + "` (" + c + " PRIMARY KEY " + k + ")" + (hold ? " HOLD" : "");
    o.apply = [=](Model &m) {
        if (bad) return false;
        if (alltemp && !hold) return true;         // nobody holds it: it is gone at once
        if (m.t.count(tab)) return false;
        Tab t;
        t.cols = cols;
        t.temp = alltemp;
        m.t[tab] = t;
        return true;
    };
    return o;
}
Op drop(const std::string &tab) {
    Op o;
    o.sql = o.name = "DROP TABLE `" + tab + "`";
    o.apply = [=](Model &m) { return m.t.erase(tab) > 0; };
    return o;
}
Op add(const std::string &tab, Col c, bool hold) {
    Op o;
    o.sql = o.name = "ALTER TABLE `" + tab + "` ADD `" + c.name + "` " + c.decl + (c.temp ? " TEMPORARY" : "") + (hold ? " HOLD" : "");
    o.apply = [=](Model &m) {
        if (!m.t.count(tab)) return false;
        Tab &t = m.t[tab];
        if (t.temp) return false;
        for (auto &x : t.cols) if (x.name == c.name) return false;
        if (hold) { t.holds++; for (auto &x : t.cols) if (x.temp) x.hold++; }
        t.cols.push_back(c);
        if (hold) t.cols.back().hold = 1;
        return true;
    };
    return o;
}
Op hold(const std::string &tab, int by) {
    Op o;
    o.sql = o.name = "ALTER TABLE `" + tab + "` " + (by > 0 ? "HOLD" : "FREE");
    o.apply = [=](Model &m) {
        if (!m.t.count(tab)) return false;
        Tab &t = m.t[tab];
        t.holds += by;
        if (!t.temp)
            for (size_t i = t.cols.size(); i-- > 0;)
                if (t.cols[i].temp && (t.cols[i].hold += by) <= 0 && by < 0) { for (auto &r : t.rows) r.erase(t.cols[i].name); t.cols.erase(t.cols.begin() + i); }
        if (t.temp && t.holds <= 0) m.t.erase(tab);
        return true;
    };
    return o;
}
Op insert(const std::string &tab, std::vector<std::pair<std::string, Val>> vals, bool temp) {
    Op o;
    std::string c, v;
    for (auto &x : vals) { c += (c.empty() ? "`" : ", `") + x.first + "`"; v += (v.empty() ? "" : ", ") + (x.second.k == Val::INT ? std::to_string(x.second.i) : "'" + x.second.s + "'"); }
    o.sql = o.name = "INSERT INTO `" + tab + "` (" + c + ") VALUES (" + v + ")" + (temp ? " TEMPORARY" : "");
    o.apply = [=](Model &m) {
        if (!m.t.count(tab)) return false;
        Tab &t = m.t[tab];
        std::map<std::string, Val> row;
        for (auto &x : vals) {
            bool found = false;
            for (auto &col : t.cols) if (col.name == x.first) found = true;
            if (!found) return false;
            row[x.first] = x.second;
        }
        for (auto &r : t.rows) {
            bool same = true;
            for (auto &col : t.cols) if (col.key && !(r[col.name] == row[col.name])) same = false;
            if (same) return false;
        }
        t.rows.push_back(row);
        t.trow.push_back(temp || t.temp);
        return true;
    };
    return o;
}
Op update(const std::string &tab, const std::string &col, const Val &v) {
    Op o;
    o.sql = o.name = "UPDATE `" + tab + "` SET `" + col + "` = '" + v.s + "'";
    o.apply = [=](Model &m) {
        if (!m.t.count(tab)) return false;
        Tab &t = m.t[tab];
        bool found = false;
        for (auto &c : t.cols) if (c.name == col) found = true;
        if (!found) return false;
        for (auto &r : t.rows) r[col] = v;
        return true;
    };
    return o;
}
Op wrong(const std::string &sql) { Op o; o.sql = o.name = sql; o.apply = [](Model &) { return false; }; return o; }
std::vector<Op> alphabet() {
    Col k{"K", "SHORT NOT NULL", "i2", true, false}, s{"S", "CHAR(10)", "S10", false, false}, n{"N", "LONG", "I4", false, false};
    Col kt{"K", "SHORT NOT NULL", "j2", true, true}, st{"S", "CHAR(10)", "G10", false, true};
    Col p{"P", "CHAR(20) NOT NULL", "s20", true, false}, q{"Q", "SHORT NOT NULL", "i2", true, false}, r{"R", "LONGCHAR LOCALIZABLE", "L0", false, false};
    Col x{"X", "CHAR(5)", "G5", false, true}, y{"Y", "LONG", "I4", false, false}, z{"Z", "SHORT", "J2", false, true};
    std::vector<Op> v;
    v.push_back(create("A", {k, s}, false));
    v.push_back(create("A", {k, st, n}, false));
    v.push_back(create("A", {kt, st}, true));
    v.push_back(create("A", {kt, st}, false));
    v.push_back(create("A", {kt, s}, false, true));
    v.push_back(create("A", {k, k, s}, false, true));
    v.push_back(create("B", {p, q, r}, false));
    v.push_back(create("B", {kt}, true));
    v.push_back(drop("A"));
    v.push_back(drop("B"));
    v.push_back(add("A", x, false));
    v.push_back(add("A", x, true));
    v.push_back(add("A", y, false));
    v.push_back(add("B", z, true));
    v.push_back(hold("A", 1));
    v.push_back(hold("A", -1));
    v.push_back(hold("B", 1));
    v.push_back(hold("B", -1));
    v.push_back(insert("A", {{"K", Val::I(1)}, {"S", Val::S("a")}}, false));
    v.push_back(insert("A", {{"K", Val::I(2)}, {"S", Val::S("b")}}, true));
    v.push_back(insert("A", {{"K", Val::I(3)}, {"Y", Val::I(70000)}}, false));
    v.push_back(insert("B", {{"P", Val::S("p")}, {"Q", Val::I(1)}, {"R", Val::S("a")}}, false));
    v.push_back(update("A", "X", Val::S("x")));
    v.push_back(update("A", "S", Val::S("X")));
    Op c;
    c.name = "commit"; c.kind = 1; c.apply = [](Model &m) { gone(m); return true; };
    v.push_back(c);
    c.name = "commit and reopen"; c.kind = 2;
    v.push_back(c);
    return v;
}
std::vector<Op> refused() {
    return {wrong("DROP TABLE `_Tables`"), wrong("DROP TABLE `_Columns`"), wrong("DROP TABLE `_Streams`"), wrong("DROP TABLE `Nix`"), wrong("ALTER TABLE `Nix` HOLD"), wrong("ALTER TABLE `Nix` FREE"),
            wrong("ALTER TABLE `_Columns` ADD `E` CHAR(3)"), wrong("ALTER TABLE `_Tables` ADD `E` CHAR(3) TEMPORARY HOLD"), wrong("ALTER TABLE `_Streams` HOLD"), wrong("CREATE TABLE `_Tables` (`A` CHAR NOT NULL PRIMARY KEY `A`)"),
            wrong("CREATE TABLE `_Columns` (`A` CHAR NOT NULL PRIMARY KEY `A`)"), wrong("CREATE TABLE `_Streams` (`A` CHAR NOT NULL PRIMARY KEY `A`)"), wrong("CREATE TABLE `_Storages` (`A` CHAR NOT NULL PRIMARY KEY `A`)"), wrong("DROP TABLE `_Storages`"), wrong("ALTER TABLE `_Streams` ADD `E` CHAR(3)"), wrong("ALTER TABLE `_Storages` ADD `E` CHAR(3) TEMPORARY HOLD"),
            wrong("CREATE TABLE `A` (`K` SHORT NOT NULL)"), wrong("CREATE TABLE `C` (`K` SHORT NOT NULL, `L` SHORT NOT NULL, `S` CHAR(10) PRIMARY KEY `K`, `K`)"),
            wrong("CREATE TABLE `C` (`K` SHORT NOT NULL, `L` SHORT, `L` SHORT PRIMARY KEY `K`)"), wrong("CREATE TABLE `C` (`K` SHORT NOT NULL, `L` SHORT, `L` CHAR(10) PRIMARY KEY `K`)"), wrong("CREATE TABLE `C` (`K` SHORT NOT NULL, `L` CHAR(10), `K` CHAR(10) PRIMARY KEY `K`)"), wrong("CREATE TABLE `C` (`K` SHORT NOT NULL TEMPORARY, `K` LONG TEMPORARY PRIMARY KEY `K`) HOLD"), wrong("CREATE TABLE `C` (`K` SHORT NOT NULL PRIMARY KEY `Other`)"), wrong("ALTER TABLE `A` ADD `K` SHORT TEMPORARY HOLD"), wrong("ALTER TABLE `A` ADD `K` SHORT"),
            wrong("ALTER TABLE `B` ADD `P` SHORT TEMPORARY HOLD"), wrong("ALTER TABLE `A` ADD `K` SHORT TEMPORARY")};
}
void compare(mc::Ctx &c, LibmsiDatabase *db, const Model &m, const std::string &after) {
    auto bad = [&](const std::string &what, const std::string &msg) { c.fail(what + " after " + after, what + " after " + after + "\n" + msg + "\nmodel: " + canon(m)); };
    Res q = query(db, "SELECT `Name` FROM `_Tables`");
    if (!q.ok()) bad("_Tables", fmt("error %d", q.err));
    std::vector<std::string> got, want;
    for (auto &r : q.rows) got.push_back(r[0].s);
    std::sort(got.begin(), got.end());
    for (auto &t : m.t) want.push_back(t.first);
    if (got != want) bad("_Tables", "shows " + join(got));
    q = query(db, "SELECT `Table`,`Number`,`Name` FROM `_Columns`");
    if (!q.ok()) bad("_Columns", fmt("error %d", q.err));
    Rows wc;
    for (auto &t : m.t) if (!t.second.temp) { int n = 0; for (auto &x : t.second.cols) wc.push_back({Val::S(t.first), Val::I(++n), Val::S(x.name)}); }
    if (sorted(q.rows) != sorted(wc)) bad("_Columns", "shows " + show(sorted(q.rows)) + "\nexpected " + show(sorted(wc)));
    for (const char *n : {"A", "B", "C"}) {
        GError *e = nullptr;
        bool there = m.t.count(n), want = there && !m.t.at(n).temp, is = libmsi_database_is_table_persistent(db, n, &e);
        bool err = e != nullptr;
        g_clear_error(&e);
        if (there && err) bad("persistence", std::string(n) + " reports an error");
        if (is != want) bad("persistence", fmt("%s: %d", n, is));
        Res s = query(db, fmt("SELECT * FROM `%s`", n));
        if (!there) { if (s.ok()) bad("ghost", fmt("%s can be selected from", n)); continue; }
        const Tab &t = m.t.at(n);
        if (!s.ok()) bad("select", fmt("SELECT * FROM %s: %d %s", n, s.err, s.where));
        std::vector<std::string> names, types, keys;
        for (auto &x : t.cols) { names.push_back(x.name); types.push_back(x.type); if (x.key) keys.push_back(x.name); }
        if (s.names != names) bad("columns", fmt("%s shows ", n) + join(s.names));
        if (s.types != types) bad("types", fmt("%s shows ", n) + join(s.types) + " expected " + join(types));
        Rows rows;
        for (auto &r : t.rows) { Row o; for (auto &x : t.cols) { auto it = r.find(x.name); o.push_back(it == r.end() ? Val::N() : it->second); } rows.push_back(o); }
        if (sorted(s.rows) != sorted(rows)) bad("rows", fmt("%s holds ", n) + show(sorted(s.rows)) + "\nexpected " + show(sorted(rows)));
        if (!t.temp) { auto k = primary_keys(db, n); if (k != keys) bad("keys", fmt("%s: ", n) + join(k) + " expected " + join(keys)); }
    }
}
void step(mc::Ctx &c, Db &db, const std::string &path, Model &m, const Op &o) {
    c.step(o.name);
    Model before = m;
    bool want = o.apply(m);
    if (!want) m = before;
    int e = 0;
    if (o.kind) {
        e = commit(db);
        if (e) c.fail("commit", fmt("commit: %d", e));
        if (o.kind == 2) { db.reset(); db = open(path, LIBMSI_DB_FLAGS_TRANSACT); if (!db) c.fail("reopen", "cannot open"); }
    } else e = exec(db, o.sql);
    if (want != !e) c.fail(std::string(want ? "refused " : "accepted ") + o.name, o.name + fmt(": result %d, expected %s\nmodel: ", e, want ? "success" : "an error") + canon(before));
    compare(c, db, m, want ? o.name : o.name + " (refused)");
    c.state(canon(m));
    if (canon(m) != canon(before)) c.nontrivial();
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C08";
    chk.technique = "bounded-exhaustive sequences of schema statements on the real library against a reference model of catalog, holds and tables";
    chk.rule = "every sequence of the alphabet up to the depth; after each step _Tables, _Columns, persistence, primary keys, column lists, types and rows of every table are compared with the model; "
               "non-trivial: the step changed the model";
    static auto ab = alphabet();
    static auto bad = refused();
    int depth = thorough ? 4 : 3;
    chk.bounds = fmt("%zu steps over tables A and B: depth %d from an empty database, depth %d from each of 4 populated ones; %zu refused statements in every state of depth %d", ab.size(), depth, thorough ? 3 : 2, bad.size(), 2);
    mc::Words w{ab.size(), depth, depth};
    chk.spaces.push_back({"sequences", "all sequences from an empty database", w.count(), [w](mc::Ctx &c, uint64_t i) {
        Model m;
        std::string p = c.scratch + "/d.msi";
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
        for (int x : w.at(i)) step(c, db, p, m, ab[x]);
    }});
    // indices into the alphabet: prefixes that set the scene
    static const std::vector<std::vector<int>> starts = {{0, 6, 18, 19, 21, 11}, {1, 18, 14, 6, 21, 22}, {2, 14, 18, 6, 21}, {0, 18, 25, 10, 14, 12, 20}};
    mc::Words w2{ab.size(), thorough ? 3 : 2, thorough ? 3 : 2};
    chk.spaces.push_back({"populated", "all sequences from populated databases", w2.count() * starts.size(), [w2](mc::Ctx &c, uint64_t i) {
        Model m;
        std::string p = c.scratch + "/d.msi";
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
        for (int x : starts[i % starts.size()]) step(c, db, p, m, ab[x]);
        for (int x : w2.at(i / starts.size())) step(c, db, p, m, ab[x]);
        step(c, db, p, m, ab.back());
    }});
    // hold counts deeper than the general sequences reach
    static const std::vector<int> hs = {2, 11, 10, 14, 15, 1, 8, 24};
    mc::Words w4{hs.size(), thorough ? 7 : 5, thorough ? 7 : 5};
    chk.spaces.push_back({"holds", "all sequences of holding and freeing", w4.count(), [w4](mc::Ctx &c, uint64_t i) {
        Model m;
        std::string p = c.scratch + "/d.msi";
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
        for (int x : w4.at(i)) step(c, db, p, m, ab[hs[x]]);
    }});
    mc::Words w3{ab.size(), 2, 2};
    chk.spaces.push_back({"refused", "statements that must be refused, in every state", w3.count(), [w3](mc::Ctx &c, uint64_t i) {
        Model m;
        std::string p = c.scratch + "/d.msi";
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
        for (int x : w3.at(i)) step(c, db, p, m, ab[x]);
        for (auto &o : bad) step(c, db, p, m, o);
        step(c, db, p, m, ab.back());
    }});
    // every way to spell the type of a column
    struct Type { std::string sql, width; char letter; int bytes; };
    static std::vector<Type> types = {{"CHAR", "1", 's', 0}, {"CHARACTER", "1", 's', 0}, {"LONGCHAR", "0", 's', 0}, {"SHORT", "2", 'i', 2}, {"INT", "2", 'i', 2}, {"INTEGER", "2", 'i', 2}, {"LONG", "4", 'i', 4}, {"OBJECT", "0", 'v', 0}, {"long", "4", 'i', 4}, {"Character(7)", "7", 's', 0}};
    for (int n = 0; n < 256; n++) types.push_back({fmt("CHAR(%d)", n), fmt("%d", n), 's', 0});
    chk.spaces.push_back({"types", "every spelling of a type x may be null x localizable, temporary x created, added x key", types.size() * 2 * 3 * 3, [](mc::Ctx &c, uint64_t i) {
        auto &t = types[i % types.size()];
        int how = i / types.size();
        bool null = how % 2;
        int extra = how / 2 % 3, place = how / 6;       // place: created, added, the key
        bool local = extra == 1, temp = extra == 2;
        if ((local && t.letter != 's') || (temp && t.letter == 'v') || (place == 2 && (null || temp || t.letter == 'v'))) return;
        char l = t.letter == 'v' ? 'v' : local ? 'l' : temp ? (t.letter == 's' ? 'g' : 'j') : t.letter;
        std::string want = std::string(1, null ? toupper(l) : l) + t.width, col = "`X` " + t.sql + (null ? "" : " NOT NULL") + (local ? " LOCALIZABLE" : temp ? " TEMPORARY" : "");
        std::string p = c.scratch + "/d.msi", create = place == 0 ? "CREATE TABLE `T` (`K` SHORT NOT NULL, " + col + ", `Y` SHORT PRIMARY KEY `K`)" : place == 1 ? "CREATE TABLE `T` (`K` SHORT NOT NULL, `Y` SHORT PRIMARY KEY `K`)" : "CREATE TABLE `T` (" + col + ", `Y` SHORT PRIMARY KEY `X`)";
        c.step(create);
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
        if (int e = exec(db, create)) c.fail("types/refused " + col, create + fmt(": %d", e));
        if (place == 1) {
            std::string a = "ALTER TABLE `T` ADD " + col;
            if (temp) a += " HOLD";
            c.step(a);
            if (int e = exec(db, a)) c.fail("types/refused " + a, a + fmt(": %d", e));
        }
        if (t.bytes) {
            // what the width can hold
            struct { int v; bool ok; } vs[] = {{32767, true}, {-32767, true}, {32768, t.bytes == 4}, {-32769, t.bytes == 4}, {2147483647, t.bytes == 4}};
            int k = 10;
            for (auto &v : vs) {
                int e = place == 2 ? exec(db, "INSERT INTO `T` (`X`,`Y`) VALUES (?,1)", {Val::I(v.v)}) : exec(db, "INSERT INTO `T` (`K`,`X`) VALUES (?,?)", {Val::I(++k), Val::I(v.v)});
                if (!e != v.ok) c.fail("types/value " + t.sql, fmt("%d in a column ", v.v) + col + fmt(": result %d", e));
                Res r = query(db, "SELECT `X` FROM `T` WHERE `X` = ?", {Val::I(v.v)});
                if (!r.ok() || r.rows.size() != v.ok) c.fail("types/value " + t.sql, fmt("%d in a column ", v.v) + col + ": " + show(r.rows));
            }
        }
        for (int round = 0; round < 2; round++) {
            if (round) {
                if (temp || (t.letter == 'v' && !null)) break;
                if (int e = commit(db)) c.fail("types/commit", fmt("%d", e));
                db = open(p, LIBMSI_DB_FLAGS_READONLY);
                if (!db) c.fail("types/reopen", col);
            }
            Res r = query(db, "SELECT `X` FROM `T`");
            if (!r.ok() || r.types != std::vector<std::string>{want}) c.fail("types/type " + t.sql, col + " shows as " + join(r.types) + ", expected " + want + (round ? " after reopening" : ""));
        }
        c.nontrivial();
        c.state(want);
    }});
    return mc::run(chk, argc, argv);
}
