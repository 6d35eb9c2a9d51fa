// C16: open queries, records and databases do not disturb each other.
#include "content.hpp"
using namespace content;

namespace {
struct Kind { std::string sql, free; std::vector<Row> params; };     // free: the same query without its condition
std::vector<Kind> kinds() {
    auto k = [](std::string s, std::vector<Row> p = {{}, {}}) { size_t w = s.find(" WHERE "), o = s.find(" ORDER BY "); std::string f = s; if (w != std::string::npos) f = s.substr(0, w) + (o == std::string::npos ? "" : s.substr(o)); return Kind{s, f, p}; };
    return {
        k("SELECT * FROM `T`"),
        k("SELECT `S`,`N` FROM `T` WHERE `N` = ?", {{Val::I(1)}, {Val::I(2)}}),
        k("SELECT `K`,`S` FROM `T` WHERE `N` > ? ORDER BY `S`", {{Val::I(0)}, {Val::I(1)}}),
        k("SELECT DISTINCT `N` FROM `T`"),
        k("SELECT `T`.`K`,`U`.`P` FROM `T`,`U` WHERE `T`.`N` = `U`.`Q`"),
        k("SELECT `T`.`K`,`U`.`P` FROM `U`,`T` WHERE `T`.`K` = ? ORDER BY `U`.`P`", {{Val::I(1)}, {Val::I(3)}}),
        k("SELECT `Name`,`Data` FROM `_Streams`"),
        k("SELECT `Name`,`Number` FROM `_Columns` WHERE `Table` = ?", {{Val::S("T")}, {Val::S("U")}}),
        k("SELECT `D`,`K` FROM `T` WHERE `K` = ?", {{Val::I(2)}, {Val::I(1)}}),
        k("SELECT `S` FROM `T` WHERE `S` = ? OR `K` = ?", {{Val::S("two"), Val::I(4)}, {Val::S("four"), Val::I(1)}}),
        k("SELECT `Name` FROM `_Tables`"),
        k("SELECT * FROM `U` ORDER BY `Q`"),
        k("SELECT DISTINCT `U`.`Q`,`T`.`N` FROM `T`,`U` ORDER BY `T`.`N`"),
        k("SELECT `Name` FROM `_Storages`"),
    };
}
void start(LibmsiDatabase *db) {
    exec(db, "CREATE TABLE `T` (`K` SHORT NOT NULL, `N` SHORT, `S` CHAR(20), `D` OBJECT PRIMARY KEY `K`)");
    exec(db, "CREATE TABLE `U` (`P` CHAR(20) NOT NULL, `Q` SHORT PRIMARY KEY `P`)");
    static const char *s[] = {"one", "two", "three", "four"};
    for (int i = 0; i < 4; i++) exec(db, "INSERT INTO `T` (`K`,`N`,`S`,`D`) VALUES (?,?,?,?)", {Val::I(i + 1), i == 2 ? Val::N() : Val::I(1 + i % 2), Val::S(s[i]), i == 3 ? Val::N() : Val::B(std::string("object ") + s[i])});
    for (int i = 0; i < 3; i++) exec(db, "INSERT INTO `U` (`P`,`Q`) VALUES (?,?)", {Val::S(fmt("p%d", i)), Val::I(i)});
    exec(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('plain',?)", {Val::B("plain stream")});
    exec(db, "INSERT INTO `_Storages` (`Name`,`Data`) VALUES ('sub',?)", {Val::B(storage_bytes())});
}
std::vector<Change> alterations() {
    std::vector<Change> v;
    v.push_back(sql("INSERT INTO `T` (`K`,`N`,`S`) VALUES (9,1,'new')"));
    v.push_back(sql("INSERT INTO `T` (`K`,`N`,`S`) VALUES (-5,2,'aaa')"));
    v.push_back(sql("UPDATE `T` SET `N` = 2, `S` = 'all the same'"));
    v.push_back(sql("DELETE FROM `T` WHERE `K` = 1"));
    v.push_back(sql("DELETE FROM `T`"));
    v.push_back(sql("DROP TABLE `T`"));
    v.push_back(sql("DROP TABLE `U`"));
    v.push_back(sql("ALTER TABLE `T` ADD `X` SHORT"));
    v.push_back({"T is dropped and created with other columns", [](LibmsiDatabase *d, const std::string &) {
        exec(d, "DROP TABLE `T`");
        exec(d, "CREATE TABLE `T` (`S` CHAR(8) NOT NULL, `Z` LONG PRIMARY KEY `S`)");
        return exec(d, "INSERT INTO `T` (`S`,`Z`) VALUES ('other',70000)");
    }});
    v.push_back({"commit", [](LibmsiDatabase *d, const std::string &) { return commit(d); }});
    v.push_back(sql("DELETE FROM `_Streams`"));
    v.push_back(sql("INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('another',?)", {Val::B(std::string(5000, 'a'))}));
    v.push_back(sql("DELETE FROM `U` WHERE `Q` > 0"));
    v.push_back(idt("A\tB\r\ns72\tI4\r\nV\tA\r\nx\t5\r\n", "v.idt"));
    v.push_back(sql("INSERT INTO `T` (`K`,`S`) VALUES (7,'temp') TEMPORARY"));
    v.push_back(sql("DELETE FROM `_Storages`"));
    v.push_back(sql("UPDATE `T` SET `D` = ? WHERE `K` = 2", {Val::B("replaced object")}));
    v.push_back(sql("ALTER TABLE `T` HOLD"));
    v.push_back(sql("ALTER TABLE `T` FREE"));
    v.push_back(summary(LIBMSI_PROPERTY_TITLE, Val::S("t")));
    return v;
}
struct Open {
    Query q;
    Kind kind;
    std::vector<std::string> types;
    bool executed = false, stale = false;
    int pos = 0;
    Row params;
    Res want;                       // a fresh query, at the execution
    Rows allowed;                   // rows of the query without condition, since
    std::string name;
};
Row read(LibmsiRecord *rec, const std::vector<std::string> &types) {
    Row row;
    unsigned n = libmsi_record_get_field_count(rec);
    for (unsigned i = 1; i <= n; i++) row.push_back(field(rec, i, i <= types.size() && !types[i - 1].empty() ? types[i - 1][0] : 's'));
    return row;
}
// a row is allowed when it is one of them, columns added or not yet there apart
bool among(const Row &r, const Rows &rs) {
    for (auto &x : rs) {
        Row a = r, b = x;
        size_t n = std::max(a.size(), b.size());
        a.resize(n);
        b.resize(n);
        if (a == b) return true;
    }
    return false;
}
void execute(mc::Ctx &c, Open &o, LibmsiDatabase *db, int p, bool must = true) {
    o.params = o.kind.params[p];
    o.want = query(db, o.kind.sql, o.params);
    Res f = query(db, o.kind.free);
    GError *e = nullptr;
    Rec r;
    if (!o.params.empty()) r = record(o.params);
    int x = code(libmsi_query_execute(o.q, r, &e), e);
    o.executed = x == 0;
    o.stale = false;
    o.pos = 0;
    o.allowed = f.rows;
    if (x && must && o.want.ok()) c.fail("execute", fmt("%s refuses to execute (%d): ", o.name.c_str(), x) + o.kind.sql);
    if (!x && !o.want.ok()) o.stale = true;         // the tables are gone for a new query
    if (x) return;
    o.types = colinfo(o.q, LIBMSI_COL_INFO_TYPES);
    if (!o.stale && must && (o.types != o.want.types || colinfo(o.q, LIBMSI_COL_INFO_NAMES) != o.want.names)) c.fail("columns", o.name + " has columns " + join(o.types) + " not " + join(o.want.types));
}
// fetch a row and judge it; true when the result ended or failed
bool fetch(mc::Ctx &c, Open &o) {
    GError *e = nullptr;
    uint64_t crit = criticals();
    Rec rec(libmsi_query_fetch(o.q, &e));
    int x = rec ? 0 : e ? (e->code ? e->code : -2) : -1;
    g_clear_error(&e);
    (void)crit;
    if (!o.executed) {
        if (rec) { if (!o.stale && !o.allowed.empty() && !among(read(rec, o.types), o.allowed)) c.fail("unexecuted", o.name + " not executed fetches " + show(read(rec, o.types))); }
        return true;
    }
    if (!rec) {
        if (!o.stale && (x != -1 || o.pos != (int)o.want.rows.size())) c.fail("fetch-end", fmt("%s fetch %d of %zu rows gives %d", o.name.c_str(), o.pos, o.want.rows.size(), x));
        return true;
    }
    Row row = read(rec, o.types);
    if (!o.stale) {
        if (o.pos >= (int)o.want.rows.size() || !(row == o.want.rows[o.pos])) c.fail("row", fmt("%s row %d is ", o.name.c_str(), o.pos) + show(row) + ", a fresh query had " + show(o.want.rows));
    } else if (!among(row, o.allowed)) c.fail("stale-row", fmt("%s row %d is ", o.name.c_str(), o.pos) + show(row) + ", rows since it was executed: " + show(o.allowed));
    o.pos++;
    return false;
}
void drain(mc::Ctx &c, Open &o) {
    for (int n = 0; !fetch(c, o); n++) if (n > 200) c.fail("endless", o.name + " never ends");
}
void touch(LibmsiDatabase *db, Open &o) {
    o.stale = true;
    Res f = query(db, o.kind.free);
    for (auto &r : f.rows) o.allowed.push_back(r);
}
void make(mc::Ctx &c, Open &o, LibmsiDatabase *db, const Kind &k, const char *name) {
    o.kind = k;
    o.name = name;
    GError *e = nullptr;
    o.q = Query(libmsi_query_new(db, k.sql.c_str(), &e));
    g_clear_error(&e);
    if (!o.q) c.fail("prepare", k.sql);
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C16";
    chk.technique = "bounded-exhaustive exploration of interleavings of query calls, changes and releases on the real library, each fetch compared with a fresh query";
    static auto K = kinds();
    static auto A = alterations();
    static const int id = thorough ? 5 : 4;
    chk.rule = "an undisturbed result is exactly a fresh query's; after a change by others each fetch gives a row of the tables, the end or an error; after executing again the result is exactly a fresh query's; no memory error; non-trivial: a row was fetched";
    chk.bounds = fmt("all pairs of %zu queries x all interleavings of %d calls; every query x rows fetched x all sequences of %d of %zu changes; all sequences of %d calls of prepared INSERT, UPDATE, DELETE and SELECT; all release orders of 6 objects", K.size(), id, thorough ? 3 : 2, A.size(), thorough ? 5 : 4);
    // two queries without changes, interleaved
    static mc::Words iw{8, id, id};
    uint64_t nk = K.size();
    chk.spaces.push_back({"interleaved", "every pair of queries x every interleaving of execute, fetch and close", nk * nk * iw.count(), [nk](mc::Ctx &c, uint64_t i) {
        static Db db;
        static int owner;
        if (!db || owner != getpid()) { db = open(c.scratch + "/shared.msi", LIBMSI_DB_FLAGS_CREATE); start(db); owner = getpid(); }
        Open o[2];
        uint64_t pair = i / iw.count();
        if (!c.thorough && pair / nk < pair % nk) return;       // the mirror image
        make(c, o[0], db, K[pair % nk], "A");
        make(c, o[1], db, K[pair / nk], "B");
        c.step("A " + o[0].kind.sql + ", B " + o[1].kind.sql);
        for (int w : iw.at(i % iw.count())) {
            Open &x = o[w / 4];
            static const char *nm[] = {"executes with its first parameters", "executes with its second parameters", "fetches", "closes"};
            c.step(x.name + " " + nm[w % 4]);
            if (w % 4 < 2) {
                static std::map<std::pair<std::string, int>, Res> fresh;
                x.params = x.kind.params[w % 4];
                auto key = std::make_pair(x.kind.sql, w % 4);
                if (!fresh.count(key)) fresh[key] = query(db, x.kind.sql, x.params);
                x.want = fresh[key];
                if (!x.want.ok()) c.fail("query", x.kind.sql);
                Rec r;
                if (!x.params.empty()) r = record(x.params);
                GError *e = nullptr;
                int rc = code(libmsi_query_execute(x.q, r, &e), e);
                if (rc) c.fail("execute", fmt("%s %d", x.name.c_str(), rc));
                x.executed = true;
                x.pos = 0;
                if (x.types.empty()) x.types = colinfo(x.q, LIBMSI_COL_INFO_TYPES);
            } else if (w % 4 == 2) { fetch(c, x); c.nontrivial(); }
            else { libmsi_query_close(x.q, nullptr); x.executed = false; x.allowed.clear(); }
        }
        for (auto &x : o) if (x.executed) drain(c, x);
        c.state(fmt("%d %d %d %d ", o[0].executed, o[0].pos, o[1].executed, o[1].pos) + std::to_string(pair));
    }});
    // one open query and changes by others
    static const int cd = thorough ? 3 : 2;
    static mc::Words cw{A.size(), 1, cd};
    chk.spaces.push_back({"changes", "every query x 0..2 rows fetched x every sequence of changes by others, a fetch between or not", nk * 3 * (thorough ? 2 : 1) * cw.count(), [nk](mc::Ctx &c, uint64_t i) {
        int k = i % nk, before = i / nk % 3, between = c.thorough ? i / nk / 3 % 2 : (i / nk / 3 + k) % 2;
        uint64_t word = i / nk / (c.thorough ? 6 : 3);
        Db db = open(c.scratch + "/d.msi", LIBMSI_DB_FLAGS_CREATE);
        start(db);
        if (commit(db)) c.fail("commit", "");
        Open o, p;
        make(c, o, db, K[k], "A");
        make(c, p, db, K[k], "B, prepared but not executed,");
        c.step(o.kind.sql + fmt(", %d rows fetched", before));
        execute(c, o, db, 0);
        for (int j = 0; j < before; j++) if (fetch(c, o)) break;
        std::vector<std::pair<Rec, Row>> kept;
        {
            Query q(libmsi_query_new(db, "SELECT * FROM `T`", nullptr));
            libmsi_query_execute(q, nullptr, nullptr);
            while (true) { Rec r(libmsi_query_fetch(q, nullptr)); if (!r) break; Row row = read(r, {"i", "i", "s", "V"}); kept.push_back({std::move(r), row}); }
        }
        for (int x : cw.at(word)) {
            c.step(A[x].name);
            A[x].run(db, c.scratch);
            touch(db, o);
            if (between) fetch(c, o);
        }
        drain(c, o);
        c.nontrivial();
        for (auto &r : kept) { Row now = read(r.first, {"i", "i", "s", "V"}); if (!(now == r.second)) c.fail("record", "a fetched record became " + show(now) + " from " + show(r.second)); }
        // executed again, with either parameters, it is a new query, unless a table or column of it has been replaced
        bool replaced = false;
        for (int x : cw.at(word)) if (x == 5 || x == 6 || x == 7 || x == 8) replaced = true;
        for (int n = 0; n < 2; n++) for (Open *q : {&o, &p}) {
            if (n) libmsi_query_close(q->q, nullptr);
            execute(c, *q, db, n, !replaced);
            if (replaced && q->executed) { q->stale = true; Res f = query(db, q->kind.free); q->allowed = f.rows; }
            c.step(q->name + fmt(" executes with parameters %d", n));
            drain(c, *q);
        }
        Snap s = snap(db);
        if (!s.error.empty()) c.fail("unreadable", s.error);
        c.state(str(s) + std::to_string(k));
        // no damage that a commit would store
        o.q.reset();
        p.q.reset();
        if (int e = commit(db)) c.fail("commit", fmt("%d", e));
        Snap t = snap(db);
        if (t.tables.size() > s.tables.size() || !t.error.empty()) c.fail("after-commit", t.error + diff(s, t));
        Db rd = open(c.scratch + "/d.msi", LIBMSI_DB_FLAGS_READONLY);
        Snap u = snap(rd);
        if (!(u == t)) {
            for (auto &y : t.tables) if (u.tables.count(y.first)) { Rows a = u.tables[y.first].rows; for (auto &r : a) if (!among(r, y.second.rows)) c.fail("reopened", diff(t, u)); }
            // temporary rows and holds end with the session
            if (u.streams != t.streams || u.storages != t.storages) c.fail("reopened", diff(t, u));
        }
    }});
    // prepared statements that change data
    static mc::Words dw{12, 1, thorough ? 5u : 4u};
    chk.spaces.push_back({"prepared", "every sequence of executions of prepared INSERT, UPDATE, DELETE and SELECT with several parameters", dw.count(), [](mc::Ctx &c, uint64_t i) {
        static Db db;
        static int owner;
        if (!db || owner != getpid()) {
            db = open(c.scratch + "/prep.msi", LIBMSI_DB_FLAGS_CREATE);
            exec(db, "CREATE TABLE `T` (`K` SHORT NOT NULL, `S` CHAR(20), `N` LONG PRIMARY KEY `K`)");
            owner = getpid();
        }
        if (exec(db, "DELETE FROM `T`")) c.fail("reset", "");
        std::map<int, Row> m;
        Query ins(libmsi_query_new(db, "INSERT INTO `T` (`K`,`S`,`N`) VALUES (?,?,?)", nullptr)), upd(libmsi_query_new(db, "UPDATE `T` SET `S` = ?, `N` = ? WHERE `K` = ?", nullptr)),
            del(libmsi_query_new(db, "DELETE FROM `T` WHERE `S` = ?", nullptr)), fix(libmsi_query_new(db, "INSERT INTO `T` (`K`,`S`,`N`) VALUES (5,'fixed',6)", nullptr));
        Open sel;
        make(c, sel, db, Kind{"SELECT `K`,`N` FROM `T` WHERE `S` = ?", "SELECT `K`,`N` FROM `T`", {{Val::S("a")}, {Val::S("b")}}}, "the SELECT");
        auto run = [&](Query &q, const Row &p, bool want, const char *what) {
            GError *e = nullptr;
            Rec r;
            if (!p.empty()) r = record(p);
            int x = code(libmsi_query_execute(q, r, &e), e);
            if (want != !x) c.fail(what, fmt("execute gives %d with ", x) + show(p));
            touch(db, sel);
        };
        for (int o : dw.at(i)) {
            static const char *nm[] = {"insert 1", "insert 2", "insert 3 with NULLs", "insert without parameters", "update 1", "update 2", "delete a", "delete b", "insert of literals", "select a", "select b, one fetch", "close all"};
            c.step(nm[o]);
            switch (o) {
            case 0: run(ins, {Val::I(1), Val::S("a"), Val::I(100000)}, !m.count(1), "insert"); m.insert({1, {Val::I(1), Val::S("a"), Val::I(100000)}}); break;
            case 1: run(ins, {Val::I(2), Val::S("b"), Val::I(-2)}, !m.count(2), "insert"); m.insert({2, {Val::I(2), Val::S("b"), Val::I(-2)}}); break;
            case 2: run(ins, {Val::I(3), Val::N(), Val::N()}, !m.count(3), "insert"); m.insert({3, {Val::I(3), Val::N(), Val::N()}}); break;
            case 3: run(ins, {}, false, "insert"); break;
            case 4: run(upd, {Val::S("b"), Val::N(), Val::I(1)}, true, "update"); if (m.count(1)) m[1] = {Val::I(1), Val::S("b"), Val::N()}; break;
            case 5: run(upd, {Val::S("a"), Val::I(7), Val::I(2)}, true, "update"); if (m.count(2)) m[2] = {Val::I(2), Val::S("a"), Val::I(7)}; break;
            case 6: case 7: {
                Val v = Val::S(o == 6 ? "a" : "b");
                run(del, {v}, true, "delete");
                for (auto it = m.begin(); it != m.end();) if (it->second[1] == v) it = m.erase(it); else ++it;
                break;
            }
            case 8: run(fix, {}, !m.count(5), "insert"); m.insert({5, {Val::I(5), Val::S("fixed"), Val::I(6)}}); break;
            case 9: execute(c, sel, db, 0); drain(c, sel); break;
            case 10: execute(c, sel, db, 1); fetch(c, sel); break;
            case 11: for (auto *q : {&ins, &upd, &del, &fix}) libmsi_query_close(*q, nullptr); libmsi_query_close(sel.q, nullptr); sel.executed = false; break;
            }
            Res r = query(db, "SELECT * FROM `T`");
            Rows want;
            for (auto &x : m) want.push_back(x.second);
            if (!r.ok() || sorted(r.rows) != sorted(want)) c.fail("table", "table " + show(r.rows) + " want " + show(want));
            c.state(show(want));
            if (!want.empty()) c.nontrivial();
        }
        if (sel.executed) drain(c, sel);
    }});
    // releases in every order, everything still held used after each
    chk.spaces.push_back({"releases", "every order of releasing database, query, unexecuted query, record, stream and summary x query x commit before", 720 * nk * (thorough ? 2 : 1), [nk](mc::Ctx &c, uint64_t i) {
        int k = i % nk, com = c.thorough ? i / nk % 2 : (i / nk + k) % 2;
        uint64_t perm = i / nk / (c.thorough ? 2 : 1);
        clean(c.scratch);
        std::string p = c.scratch + "/d.msi";
        { Db d = open(p, LIBMSI_DB_FLAGS_CREATE); start(d); if (commit(d)) c.fail("commit", ""); }
        auto file = readfile(p);
        Db db = open(p, LIBMSI_DB_FLAGS_TRANSACT);
        LibmsiDatabase *raw = db;
        Open o, u;
        make(c, o, db, K[k], "A");
        make(c, u, db, K[(k + 3) % nk], "B");
        execute(c, o, db, 0);
        Query q(libmsi_query_new(db, "SELECT `D`,`S` FROM `T` WHERE `K` = 2", nullptr));
        libmsi_query_execute(q, nullptr, nullptr);
        Rec rec(libmsi_query_fetch(q, nullptr));
        q.reset();
        if (!rec) c.fail("fetch", "");
        GInputStream *in = libmsi_record_get_stream(rec, 1);
        Si si(libmsi_summary_info_new(db, com ? 0 : 3, nullptr));
        libmsi_summary_info_set_string(si, LIBMSI_PROPERTY_TITLE, "x", nullptr);
        exec(db, "INSERT INTO `U` (`P`,`Q`) VALUES ('z',9)");
        o.stale = true;
        touch(db, o);
        if (com) { if (commit(db)) c.fail("commit", ""); file = readfile(p); }
        libmsi_summary_info_persist(si, nullptr);
        Res uw = query(db, u.kind.sql, u.kind.params[0]);
        std::vector<int> left = {0, 1, 2, 3, 4, 5};
        bool gone = false;
        while (!left.empty()) {
            // use what is left
            bool has[6] = {};
            for (int x : left) has[x] = true;
            if (has[1]) fetch(c, o);
            if (has[3]) { Row r = read(rec, {"V", "s"}); if (!(r == Row{Val::B("object two"), Val::S("two")})) c.fail("record", show(r)); }
            if (has[4]) { char b[2]; if (g_input_stream_read(in, b, 1, nullptr, nullptr) < 0) c.fail("stream", ""); }
            if (has[5]) { std::string t = prop(si, LIBMSI_PROPERTY_TITLE); if (t != (com ? "" : "str x")) c.fail("summary", t); libmsi_summary_info_persist(si, nullptr); }
            if (has[2]) {
                Rec r;
                if (!u.kind.params[0].empty()) r = record(u.kind.params[0]);
                GError *e = nullptr;
                if (code(libmsi_query_execute(u.q, r, &e), e)) c.fail("execute-late", u.kind.sql);
                u.types = colinfo(u.q, LIBMSI_COL_INFO_TYPES);
                u.executed = true; u.stale = false; u.pos = 0; u.want = uw;
                drain(c, u);
            }
            int n = left.size(), x = left[perm % n];
            perm /= n;
            left.erase(std::find(left.begin(), left.end(), x));
            static const char *nm[] = {"database", "query A", "query B", "record", "stream", "summary"};
            c.step(fmt("release %s", nm[x]));
            switch (x) {
            case 0: db.reset(); gone = true; break;
            case 1: o.q.reset(); break;
            case 2: u.q.reset(); break;
            case 3: rec.reset(); break;
            case 4: g_object_unref(in); break;
            case 5: si.reset(); break;
            }
        }
        (void)raw; (void)gone;
        c.nontrivial();
        c.state(fmt("%d", (int)i));
        if (readfile(p) != file) c.fail("file", "the file changed without a commit");
        auto l = ls(c.scratch);
        if (l.size() != 1) c.fail("left-over", join(l));
    }});
    // the same table by two handles of one file
    static mc::Words hw{7, 1, thorough ? 5u : 4u};
    chk.spaces.push_back({"handles", "every sequence of changes and commits through one handle while another reads the same file", hw.count(), [](mc::Ctx &c, uint64_t i) {
        clean(c.scratch);
        std::string p = c.scratch + "/d.msi";
        { Db d = open(p, LIBMSI_DB_FLAGS_CREATE); start(d); if (commit(d)) c.fail("commit", ""); }
        Db w = open(p, LIBMSI_DB_FLAGS_TRANSACT), r;
        Snap seen, stored = snap(w);
        int step = 0;
        for (int o : hw.at(i)) {
            static const char *nm[] = {"insert", "delete", "commit", "open a reader", "read", "close the reader", "reader tries to change"};
            c.step(nm[o]);
            step++;
            switch (o) {
            case 0: exec(w, "INSERT INTO `U` (`P`,`Q`) VALUES (?,?)", {Val::S(fmt("h%d", step)), Val::I(step)}); break;
            case 1: exec(w, "DELETE FROM `T` WHERE `K` = ?", {Val::I(step)}); break;
            case 2: if (commit(w)) c.fail("commit", ""); stored = snap(w); break;
            case 3: r = open(p, LIBMSI_DB_FLAGS_READONLY); if (!r) c.fail("open", ""); seen = stored; break;
            case 5: r.reset(); break;
            case 6: if (r && !exec(r, "INSERT INTO `U` (`P`,`Q`) VALUES ('r',1)")) seen = snap(r); break;
            }
            if (r) { Snap s = snap(r); if (!(s == seen)) c.fail("reader", diff(seen, s)); c.nontrivial(); }
            c.state(show(snap(w).tables["U"].rows));
        }
        w.reset();
        r.reset();
        Db f = open(p, LIBMSI_DB_FLAGS_READONLY);
        if (!f || !(snap(f) == stored)) c.fail("file", f ? diff(stored, snap(f)) : "no file");
    }});
    return mc::run(chk, argc, argv);
}
