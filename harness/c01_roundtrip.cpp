// C01: committed content survives close and reopen exactly.
#include "content.hpp"
using namespace content;

namespace {
const int MODES[] = {LIBMSI_DB_FLAGS_READONLY, LIBMSI_DB_FLAGS_TRANSACT};
const char *MODE[] = {"read-only", "transact"};

// commit, and everything that must not change the content
void settle(mc::Ctx &c, Db &db, const std::string &path, const Snap &want, const std::string &when, bool light = false) {
    auto check = [&](LibmsiDatabase *d, const char *what) {
        Snap s = snap(d);
        if (!(s == want)) c.fail(std::string(what), when + ": content differs " + what + "\n" + diff(want, s));
    };
    c.step("commit");
    if (int e = commit(db)) c.fail("commit-fails", when + fmt(": commit fails %d", e));
    check(db, "after commit");
    for (int m = light; m < 2; m++) {
        db.reset();
        c.step(std::string("reopen ") + MODE[m]);
        db = open(path, MODES[m]);
        if (!db) c.fail("reopen-fails", when + ": cannot open the committed file " + MODE[m]);
        check(db, m ? "after reopen transact" : "after reopen read-only");
    }
    if (light) return;
    c.step("commit without changes, reopen");
    if (int e = commit(db)) c.fail("recommit-fails", when + fmt(": a second commit fails %d", e));
    check(db, "after a commit without changes");
    db.reset();
    db = open(path, LIBMSI_DB_FLAGS_TRANSACT);
    if (!db) c.fail("reopen-fails", when + ": cannot open the file committed without changes");
    check(db, "after a commit without changes and reopen");
}
std::string lenstr(int n, char ch) { return std::string(n, ch); }
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C01";
    chk.technique = "bounded-exhaustive exploration of change/commit/reopen histories on the real library; content before commit is the oracle for every later view";
    chk.rule = "content shown by queries before a commit is compared with what the same handle, a read-only and a read-write reopen, and a further commit show, "
               "and histories with commits or reopens in between must end in the same content as without; non-trivial: the content is not empty";
    static auto ab = changes();
    static const int d = thorough ? 4 : 3;
    static const int nb = thorough ? 3 : 3;
    mc::Words w{ab.size(), d, d};
    chk.bounds = fmt("%zu changes, depth %d from an empty and a filled database, each history with nothing / a commit / a commit and reopen at every inner point; "
                     "string pool sizes around 65536, string lengths to 200000 and of 16 MB, use counts around 65536, stream sizes to 70000", ab.size(), d);
    chk.setup = [](bool) { storage_bytes(); };
    chk.spaces.push_back({"histories", "every change sequence x every placement of commits and reopens, from two starting points", w.count() * 2, [w](mc::Ctx &c, uint64_t i) {
        bool filled = i & 1;
        auto word = w.at(i / 2);
        Snap ref;
        std::vector<uint64_t> rad(d - 1, nb);
        mc::Digits dg{rad};
        // thorough tier: the deeper histories are run with at most one kind of boundary each
        for (uint64_t b = 0; b < dg.count(); b++) {
            auto at = dg.at(b);
            // quick: no boundary, commits only, and every placement of reopens
            if (!c.thorough) {
                bool mixed = false;
                for (auto x : at) if (x == 1 && b != (dg.count() - 1) / 2) mixed = true;
                if (mixed) continue;
            }
            std::string path = c.scratch + "/d.msi";
            unlink(path.c_str());
            c.trace.clear();
            c.step(filled ? "from filled" : "from empty");
            Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
            if (filled && fill(db, c.scratch)) c.fail("fill", "filling fails");
            std::vector<int> results;
            for (int k = 0; k < d; k++) {
                int e = ab[word[k]].run(db, c.scratch);
                c.step(ab[word[k]].name + fmt(" -> %d", e));
                if (k < d - 1 && at[k]) {
                    c.step(at[k] == 1 ? "commit" : "commit and reopen");
                    if (int e = commit(db)) c.fail("inner-commit", fmt("commit fails %d", e));
                    if (at[k] == 2) { db.reset(); db = open(path, LIBMSI_DB_FLAGS_TRANSACT); if (!db) c.fail("inner-reopen", "reopen fails"); }
                }
            }
            Snap s = snap(db);
            if (b == 0) {
                ref = s;
                c.state(str(s));
                if (!s.tables.empty() || !s.streams.empty()) c.nontrivial();
                settle(c, db, path, s, "history");
            } else {
                if (!(s == ref)) c.fail("steps", "the same changes committed in steps give other content\n" + diff(ref, s));
                if (b == dg.count() - 1) settle(c, db, path, s, "history in steps");
            }
        }
    }});
    // the stored form changes where counts and lengths cross 2^16
    // 39 other strings are in the pool
    static const int pools[] = {65533 - 39, 65534 - 39, 65535 - 39, 65536 - 39, 65537 - 39, 65538 - 39, 65532 - 39, 65539 - 39, 65535, 66000};
    static const int npool = thorough ? 20 : 6;
    chk.spaces.push_back({"pool-size", "numbers of strings around the switch to 3-byte string ids; then deleting below it again", (uint64_t)npool, [](mc::Ctx &c, uint64_t i) {
        int n = pools[i % 10];
        bool shrink = i < 10;
        std::string path = c.scratch + "/p.msi";
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        std::string cols, marks;
        for (int k = 0; k < 31; k++) cols += fmt(",`S%d`", k), marks += ",?";
        std::string cr = "CREATE TABLE `P` (`K` LONG NOT NULL";
        for (int k = 0; k < 31; k++) cr += fmt(", `S%d` CHAR(20)", k);
        exec(db, cr + " PRIMARY KEY `K`)");
        exec(db, "CREATE TABLE `Q` (`A` CHAR(20) NOT NULL, `B` CHAR(20) PRIMARY KEY `A`)");
        exec(db, "INSERT INTO `Q` (`A`,`B`) VALUES ('first','second')");
        GError *e = nullptr;
        Query q(libmsi_query_new(db, ("INSERT INTO `P` (`K`" + cols + ") VALUES (?" + marks + ")").c_str(), &e));
        int used = 0;
        for (int k = 0; used < n; k++) {
            Row row{Val::I(k)};
            for (int x = 0; x < 31; x++) row.push_back(used < n ? Val::S(fmt("s%d", used++)) : Val::N());
            Rec r = record(row);
            if (!libmsi_query_execute(q, r, nullptr)) c.fail("insert", fmt("row %d refused", k));
        }
        q.reset();
        exec(db, "INSERT INTO `Q` (`A`,`B`) VALUES ('last','s5')");
        c.step(fmt("%d strings in rows", n));
        settle(c, db, path, snap(db), fmt("%d strings", n), !c.thorough);
        c.nontrivial();
        c.state(fmt("%d", n));
        if (shrink) {
            c.step("delete most rows");
            exec(db, "DELETE FROM `P` WHERE `K` > 10");
            settle(c, db, path, snap(db), fmt("%d strings, most deleted again", n), true);
            exec(db, "INSERT INTO `P` (`K`,`S3`) VALUES (70000,'fresh')");
            settle(c, db, path, snap(db), "after growing again");
            Res r = query(db, "SELECT `K`,`S3` FROM `P` WHERE `K` = 70000");
            if (r.rows != Rows{{Val::I(70000), Val::S("fresh")}}) c.fail("fresh", show(r.rows));
        }
    }, 300});
    static const int tpools[] = {66000, 65500, 65497, 65490, 65505, 70000};
    chk.spaces.push_back({"pool-size-temporary", "the same with the strings in temporary rows: only few of the ids are stored", thorough ? 6ull : 2ull, [](mc::Ctx &c, uint64_t i) {
        std::string path = c.scratch + "/p.msi";
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        std::string cols, marks, cr = "CREATE TABLE `P` (`K` LONG NOT NULL";
        for (int k = 0; k < 30; k++) cols += fmt(",`S%d`", k), marks += ",?", cr += fmt(", `S%d` CHAR(20)", k);
        exec(db, cr + " PRIMARY KEY `K`)");
        exec(db, "CREATE TABLE `Q` (`A` CHAR(20) NOT NULL, `B` CHAR(20) PRIMARY KEY `A`)");
        exec(db, "INSERT INTO `Q` (`A`,`B`) VALUES ('first','second')");
        GError *e = nullptr;
        Query q(libmsi_query_new(db, ("INSERT INTO `P` (`K`" + cols + ") VALUES (?" + marks + ") TEMPORARY").c_str(), &e));
        int used = 0;
        for (int k = 0; used < tpools[i]; k++) {
            Row row{Val::I(k)};
            for (int x = 0; x < 30; x++) row.push_back(used < tpools[i] ? Val::S(fmt("s%d", used++)) : Val::N());
            Rec r = record(row);
            if (!libmsi_query_execute(q, r, nullptr)) c.fail("insert", fmt("row %d refused", k));
        }
        q.reset();
        for (int k = 0; k < 80; k++) exec(db, fmt("INSERT INTO `Q` (`A`,`B`) VALUES ('last%d','s5')", k));
        c.step(fmt("%d strings in temporary rows", tpools[i]));
        Snap s = snap(db);
        if (s.tables["Q"].rows.size() != 81) c.fail("insert", "rows of Q missing");
        s.tables["P"].rows.clear();
        if (int e = commit(db)) c.fail("commit", fmt("commit fails %d", e));
        db.reset();
        db = open(path, LIBMSI_DB_FLAGS_READONLY);
        if (!db) c.fail("reopen", "reopen fails");
        Snap t = snap(db);
        if (!(t == s)) c.fail("content", diff(s, t));
        c.nontrivial();
        c.state(fmt("%d", tpools[i]));
    }, 300});
    static const int lens[] = {0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 131073, 200000, 16777217};
    chk.spaces.push_back({"string-length", "string lengths around 2^8, 2^15, 2^16, 2^17 and 2^24, placed first, in the middle and last in the pool, in both codepages", 18 * 3 * 2, [](mc::Ctx &c, uint64_t i) {
        int n = lens[i / 6], place = i / 2 % 3;
        bool accents = i & 1;
        std::string path = c.scratch + "/l.msi", s;
        if (accents) for (int k = 0; k + 1 < n; k += 2) s += "\xc3\xa9"; else s = lenstr(n, 'q');
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        exec(db, "CREATE TABLE `L` (`K` SHORT NOT NULL, `S` LONGCHAR, `T` CHAR(10) PRIMARY KEY `K`)");
        Rows want;
        for (int k = 0; k < 3; k++) {
            Row r{Val::I(k), k == place ? (s.empty() ? Val::N() : Val::S(s)) : Val::S(fmt("row%d", k)), Val::S(fmt("after%d", k))};
            if (exec(db, "INSERT INTO `L` (`K`,`S`,`T`) VALUES (?,?,?)", r)) c.fail("insert", fmt("length %d refused", n));
            want.push_back(r);
        }
        Snap sn = snap(db);
        if (sn.tables["L"].rows != want) c.fail("before", fmt("length %d: ", n) + show(sn.tables["L"].rows) + " expected " + show(want));
        c.step(fmt("a string of %zu bytes", s.size()));
        settle(c, db, path, sn, fmt("string of %zu bytes", s.size()));
        exec(db, "UPDATE `L` SET `S` = 'short' WHERE `K` = 1");
        exec(db, "INSERT INTO `L` (`K`,`S`) VALUES (9,'nine')");
        settle(c, db, path, snap(db), "after a further change");
        c.nontrivial();
        c.state(fmt("%d %d", n, place));
    }, 120});
    static const int uses[] = {1, 2, 3, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
    chk.spaces.push_back({"use-count", "one string used many times; then used less again in steps", 10 * 2, [](mc::Ctx &c, uint64_t i) {
        int n = uses[i / 2];
        std::string path = c.scratch + "/u.msi";
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        std::string cols, marks, cr = "CREATE TABLE `P` (`K` LONG NOT NULL";
        for (int k = 0; k < 31; k++) cols += fmt(",`S%d`", k), marks += ",?", cr += fmt(", `S%d` CHAR(20)", k);
        exec(db, cr + " PRIMARY KEY `K`)");
        exec(db, "CREATE TABLE `O` (`K` CHAR(20) NOT NULL, `S` CHAR(20) PRIMARY KEY `K`)");
        exec(db, "INSERT INTO `O` (`K`,`S`) VALUES ('shared','odd')");
        GError *e = nullptr;
        Query q(libmsi_query_new(db, ("INSERT INTO `P` (`K`" + cols + ") VALUES (?" + marks + ")").c_str(), &e));
        int used = 0, rows = 0;
        for (; used < n; rows++) {
            Row row{Val::I(rows)};
            for (int x = 0; x < 31; x++, used++) row.push_back(used < n ? Val::S(used == n / 2 ? "odd" : "shared") : Val::N());
            Rec r = record(row);
            if (!libmsi_query_execute(q, r, nullptr)) c.fail("insert", fmt("row %d refused", rows));
        }
        int keep = i & 1 ? 1 : rows / 2;
        q.reset();
        c.step(fmt("a string used %d times", n));
        settle(c, db, path, snap(db), fmt("string used %d times", n));
        exec(db, fmt("DELETE FROM `P` WHERE `K` >= %d", keep));
        c.step("delete to " + std::to_string(keep));
        Snap s = snap(db);
        if ((int)s.tables["P"].rows.size() != keep) c.fail("delete", "wrong number of rows left");
        settle(c, db, path, s, "after deleting");
        exec(db, "UPDATE `P` SET `S0` = 'other'");
        exec(db, "INSERT INTO `P` (`K`,`S5`) VALUES (99999,'shared')");
        settle(c, db, path, snap(db), "after replacing it");
        c.nontrivial();
        c.state(fmt("%d", n));
    }, 300});
    static const int sizes[] = {1, 2, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 70000};
    chk.spaces.push_back({"streams", "stream sizes around the sector sizes of the file, in a binary column and in _Streams, replaced and deleted", 16 * 16, [](mc::Ctx &c, uint64_t i) {
        int a = sizes[i / 16], b = sizes[i % 16];
        std::string path = c.scratch + "/s.msi";
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        exec(db, "CREATE TABLE `Binary` (`Name` CHAR(72) NOT NULL, `Data` OBJECT NOT NULL PRIMARY KEY `Name`)");
        auto bytes = [](int n, int s) { std::string x(n, 0); for (int k = 0; k < n; k++) x[k] = (char)(k * 31 + s + (k >> 8)); return x; };
        auto must = [&](int e, const char *w) { if (e) c.fail("stream-op", fmt("%s fails %d for sizes %d %d", w, e, a, b)); };
        must(exec(db, "INSERT INTO `Binary` (`Name`,`Data`) VALUES ('a',?)", {Val::B(bytes(a, 1))}), "insert a");
        must(exec(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('free',?)", {Val::B(bytes(b, 2))}), "insert free");
        must(exec(db, "INSERT INTO `Binary` (`Name`,`Data`) VALUES ('b',?)", {Val::B(bytes(b, 3))}), "insert b");
        Snap s = snap(db);
        if (s.tables["Binary"].rows != Rows{{Val::S("a"), Val::B(bytes(a, 1))}, {Val::S("b"), Val::B(bytes(b, 3))}} || s.streams["free"] != bytes(b, 2))
            c.fail("stream-bytes", fmt("sizes %d %d\n", a, b) + str(s));
        settle(c, db, path, s, fmt("streams of %d and %d bytes", a, b));
        must(exec(db, "UPDATE `Binary` SET `Data` = ? WHERE `Name` = 'a'", {Val::B(bytes(b, 4))}), "update a");
        must(exec(db, "DELETE FROM `Binary` WHERE `Name` = 'b'"), "delete b");
        must(exec(db, "UPDATE `_Streams` SET `Data` = ? WHERE `Name` = 'free'", {Val::B(bytes(a, 5))}), "update free");
        s = snap(db);
        if (s.tables["Binary"].rows != Rows{{Val::S("a"), Val::B(bytes(b, 4))}} || s.streams["free"] != bytes(a, 5)) c.fail("stream-replaced", fmt("sizes %d %d\n", a, b) + str(s));
        settle(c, db, path, s, fmt("replaced streams of %d and %d bytes", a, b));
        c.nontrivial();
        c.state(fmt("%d %d", a, b));
    }});
    // table shapes
    static const int rowsn[] = {0, 1, 257, 2, 255, 256, 1000};
    static const int nrows = thorough ? 7 : 3;
    chk.spaces.push_back({"shapes", "every number of columns from 1 to 32 x row counts x column kinds", 32ull * nrows * 3, [](mc::Ctx &c, uint64_t i) {
        int nc = i / (3 * nrows) + 1, nr = rowsn[i / 3 % nrows], kind = i % 3;
        std::string path = c.scratch + "/t.msi", s = "CREATE TABLE `T` (", cl, q, k;
        int nk = std::min(nc, kind + 1);
        for (int x = 0; x < nc; x++) {
            s += fmt("%s`C%d` %s", x ? ", " : "", x, x < nk ? (kind == 1 && x == 0 ? "CHAR(9) NOT NULL" : "LONG NOT NULL") : (x + kind) % 4 == 0 ? "SHORT" : (x + kind) % 4 == 1 ? "CHAR(30)" : (x + kind) % 4 == 2 ? "LONG" : "LONGCHAR LOCALIZABLE");
            cl += fmt("%s`C%d`", x ? "," : "", x); q += x ? ",?" : "?";
            if (x < nk) k += fmt("%s`C%d`", x ? "," : "", x);
        }
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        if (exec(db, s + " PRIMARY KEY " + k + ")")) c.fail("create", s);
        GError *e = nullptr;
        Query ins(libmsi_query_new(db, ("INSERT INTO `T` (" + cl + ") VALUES (" + q + ")").c_str(), &e));
        Rows want;
        for (int r = 0; r < nr; r++) {
            Row row;
            for (int x = 0; x < nc; x++) {
                int t = x < nk ? (kind == 1 && x == 0 ? 1 : 2) : (x + kind) % 4 == 0 ? 0 : (x + kind) % 4 == 1 ? 1 : (x + kind) % 4 == 2 ? 2 : 1;
                int v = x == 0 ? (r * 7919 + 13) % 10007 - 5000 : (r + 1) * (x + 3) * 37 % 65000 - 32000;
                if (x >= nk && (r + x) % 5 == 0) row.push_back(Val::N());
                else row.push_back(t == 1 ? Val::S(fmt("v%d", v)) : Val::I(t == 0 ? std::max(-32767, std::min(32767, v)) : v * (x ? 50000 : 1) + 1));
            }
            Rec rec = record(row);
            if (!libmsi_query_execute(ins, rec, nullptr)) c.fail("insert", "refused " + show(row));
            want.push_back(row);
        }
        ins.reset();
        Snap sn = snap(db);
        if (sn.tables["T"].rows != sorted(want)) c.fail("shape-before", fmt("%d columns %d rows", nc, nr));
        c.step(fmt("%d columns %d rows kind %d", nc, nr, kind));
        settle(c, db, path, sn, fmt("%d columns, %d rows", nc, nr));
        c.nontrivial();
        c.state(fmt("%d %d %d", nc, nr, kind));
    }});
    return mc::run(chk, argc, argv);
}
