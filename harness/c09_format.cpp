// C09: what a commit wrote is what an independent reader finds in the file.
#include "msiread.hpp"
using namespace content;

namespace {
int refs_checked;
void agree(mc::Ctx &c, const std::string &path, const Snap &want, const std::string &when, bool orphans_ok = true, int cp = -1) {
    auto b = readfile(path);
    if (!b) c.fail("no-file", when + ": no file");
    msiread::File f;
    try { f = msiread::read(*b); }
    catch (msiread::Err &e) { c.fail("undecodable: " + e.what.substr(0, 60), when + ": the independent reader: " + e.what); }
    if (cp >= 0 && f.codepage != cp) c.fail("codepage", when + fmt(": codepage %d, expected %d", f.codepage, cp));
    for (size_t i = 1; i < f.strings.size(); i++)
        if (f.refs[i] < std::min(f.uses[i], 65535)) c.fail("reference-count too low", when + fmt(": string %zu '%s' is used %d times but counted %d", i, f.strings[i].substr(0, 40).c_str(), f.uses[i], f.refs[i]));
    Snap got = f.snap;
    if (!(got == want)) c.fail("content", when + ": the file decodes to other content (- shown by the library, + decoded)\n" + diff(want, got));
    if (f.clsid != std::string("\x84\x10\x0c\x00\x00\x00\x00\x00\xc0\x00\x00\x00\x00\x00\x00\x46", 16)) c.fail("class", when + ": the file is not marked as an installer database");
    c.count(0);
}
// the stored order of a table is its SELECT order after reopening
void order(mc::Ctx &c, LibmsiDatabase *db, const std::string &path, const std::string &when) {
    auto f = msiread::read(*readfile(path));
    for (auto &t : f.stored) {
        Res q = query(db, "SELECT * FROM `" + t.first + "`");
        if (q.rows != t.second) c.fail("row-order", when + ": " + t.first + " is stored as " + show(t.second) + " but selected as " + show(q.rows));
    }
}
void done(mc::Ctx &c, Db &db, const std::string &path, const std::string &when, int cp = -1) {
    c.step("commit");
    if (int e = commit(db)) c.fail("commit-fails", when + fmt(": %d", e));
    Snap s = snap(db);
    agree(c, path, s, when, true, cp);
    db.reset();
    db = open(path, LIBMSI_DB_FLAGS_TRANSACT);
    if (!db) c.fail("reopen", when);
    order(c, db, path, when);
    if (!s.tables.empty() || !s.streams.empty() || !s.summary.empty()) c.nontrivial();
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C09";
    chk.technique = "bounded-exhaustive exploration of change histories on the real library; every committed file is decoded by an independent reader and compared with what the queries show";
    chk.rule = "the independent reader checks sector chains, directory tree, string pool (every used id refers to a counted string, no string twice), column-ordered biased cells, key order, "
               "binary cells' streams, property set layout; the decoded content must equal the queried content; non-trivial: the content is not empty";
    static auto ab = changes();
    int d = thorough ? 4 : 3;
    mc::Words w{ab.size(), d, d};
    chk.bounds = fmt("%zu changes, depth %d, from an empty and a filled database, with a commit and reopen before the last change or not; all integers of the 2-byte range, boundary integers of the 4-byte range; "
                     "string pool sizes around 65536; string lengths to 200000; stream sizes around sector sizes; all pairs of name characters; codepages", ab.size(), d);
    chk.setup = [](bool) { storage_bytes(); };
    chk.spaces.push_back({"histories", "every change sequence, from two starting points, with and without a commit before its last change", w.count() * 4, [w](mc::Ctx &c, uint64_t i) {
        bool filled = i & 1, mid = i & 2;
        auto word = w.at(i / 4);
        std::string path = c.scratch + "/d.msi";
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        if (filled) fill(db, c.scratch);
        c.step(filled ? "from filled" : "from empty");
        for (size_t k = 0; k < word.size(); k++) {
            if (mid && k + 1 == word.size()) { done(c, db, path, "before the last change"); c.step("reopened"); }
            int e = ab[word[k]].run(db, c.scratch);
            c.step(ab[word[k]].name + fmt(" -> %d", e));
        }
        done(c, db, path, "history");
        c.state(str(snap(db)));
    }});
    // integers: every cell of a 2-byte column, boundary cells of a 4-byte one
    chk.spaces.push_back({"integers", "every 2-byte value; 4-byte values around every power of two, in key and other columns", 64, [](mc::Ctx &c, uint64_t i) {
        std::string path = c.scratch + "/i.msi";
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        exec(db, "CREATE TABLE `I` (`K` SHORT NOT NULL, `S` SHORT PRIMARY KEY `K`)");
        exec(db, "CREATE TABLE `L` (`K` LONG NOT NULL, `V` LONG, `S` SHORT PRIMARY KEY `K`)");
        auto f = msiread::File();
        Rows wi, wl;
        GError *e = nullptr;
        Query q(libmsi_query_new(db, "INSERT INTO `I` (`K`,`S`) VALUES (?,?)", &e));
        for (int v = -32767 + (int)i * 1024; v < -32767 + (int)(i + 1) * 1024 && v <= 32767; v++) {
            // inserted out of order
            int k = v ^ 0x155;
            if (k < -32767 || k > 32767) k = v;
            Rec r = record({Val::I(k), Val::I(v)});
            if (!libmsi_query_execute(q, r, nullptr)) c.fail("insert", fmt("%d refused", v));
            wi.push_back({Val::I(k), Val::I(v)});
        }
        Query l(libmsi_query_new(db, "INSERT INTO `L` (`K`,`V`,`S`) VALUES (?,?,?)", &e));
        if (i < 32) {
            std::set<int> vs;
            for (int dlt = -2; dlt <= 2; dlt++) for (int sg = -1; sg <= 1; sg += 2) { int64_t v = sg * (int64_t)(1ull << i) + dlt; if (v > INT32_MIN && v <= INT32_MAX) vs.insert(v); }
            for (int v : vs) {
                Rec r = record({Val::I(v), Val::I(v), Val::N()});
                if (!libmsi_query_execute(l, r, nullptr)) c.fail("insert", fmt("%d refused", v));
                wl.push_back({Val::I(v), Val::I(v), Val::N()});
            }
        }
        q.reset(); l.reset();
        Snap s = snap(db);
        if (s.tables["I"].rows != sorted(wi) || s.tables["L"].rows != sorted(wl)) c.fail("shown", "values are not shown as inserted");
        done(c, db, path, fmt("block %d of integers", (int)i));
        c.state(fmt("%d", (int)i));
    }});
    static const int pools[] = {65535 - 42, 65536 - 42, 65534 - 42, 65537 - 42, 65533 - 42, 65538 - 42, 65532 - 42, 65539 - 42, 66000, 65535, 65536, 131072};
    int np = thorough ? 24 : 8;
    chk.spaces.push_back({"pool-size", "numbers of strings around the switch to 3-byte ids, then fewer again", (uint64_t)np, [](mc::Ctx &c, uint64_t i) {
        int n = pools[i / 2];
        std::string path = c.scratch + "/p.msi", cols, marks, cr = "CREATE TABLE `P` (`K` LONG NOT NULL";
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        for (int k = 0; k < 31; k++) cols += fmt(",`S%d`", k), marks += ",?", cr += fmt(", `S%d` CHAR(20)", k);
        exec(db, cr + " PRIMARY KEY `K`)");
        exec(db, "CREATE TABLE `Q` (`A` CHAR(20) NOT NULL, `B` CHAR(20), `O` OBJECT PRIMARY KEY `A`)");
        exec(db, "INSERT INTO `Q` (`A`,`B`,`O`) VALUES ('first','second',?)", {Val::B("object")});
        GError *e = nullptr;
        Query q(libmsi_query_new(db, ("INSERT INTO `P` (`K`" + cols + ") VALUES (?" + marks + ")").c_str(), &e));
        int used = 0;
        for (int k = 0; used < n; k++) {
            Row row{Val::I(k)};
            for (int x = 0; x < 31; x++) row.push_back(used < n ? Val::S(fmt("s%d", used++)) : Val::N());
            Rec r = record(row);
            if (!libmsi_query_execute(q, r, nullptr)) c.fail("insert", fmt("row %d refused", k));
        }
        q.reset();
        exec(db, "INSERT INTO `Q` (`A`,`B`) VALUES ('last','s5')");
        done(c, db, path, fmt("%d strings", n));
        if (i & 1) {
            exec(db, "DELETE FROM `P` WHERE `K` > 3");
            exec(db, "INSERT INTO `P` (`K`,`S3`) VALUES (70000,'fresh')");
            done(c, db, path, fmt("%d strings, most deleted", n));
        }
        c.state(fmt("%d", n));
    }, 300});
    static const int lens[] = {1, 2, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 200000};
    chk.spaces.push_back({"string-length", "string lengths around powers of two, at every place of the pool", 15 * 3, [](mc::Ctx &c, uint64_t i) {
        int n = lens[i / 3], place = i % 3;
        std::string path = c.scratch + "/l.msi";
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        exec(db, "CREATE TABLE `L` (`K` SHORT NOT NULL, `S` LONGCHAR, `T` CHAR(10) PRIMARY KEY `K`)");
        for (int k = 0; k < 3; k++) exec(db, "INSERT INTO `L` (`K`,`S`,`T`) VALUES (?,?,?)", {Val::I(k), k == place ? Val::S(std::string(n, 'q')) : Val::S(fmt("row%d", k)), Val::S(fmt("after%d", k))});
        done(c, db, path, fmt("string of %d", n));
        exec(db, "DELETE FROM `L` WHERE `K` = 1");
        exec(db, "UPDATE `L` SET `T` = 'new'");
        done(c, db, path, fmt("string of %d, changed", n));
        c.state(fmt("%d %d", n, place));
    }, 120});
    static const int sizes[] = {1, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 8192, 70000, 7000000};
    int ns = thorough ? 13 : 12;
    chk.spaces.push_back({"streams", "stream sizes around the sector sizes of the file", (uint64_t)ns * ns, [ns](mc::Ctx &c, uint64_t i) {
        int a = sizes[i / ns], b = sizes[i % ns];
        std::string path = c.scratch + "/s.msi";
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        auto bytes = [](int n, int s) { std::string x(n, 0); for (int k = 0; k < n; k++) x[k] = (char)(k * 31 + s + (k >> 8)); return x; };
        exec(db, "CREATE TABLE `Binary` (`Name` CHAR(72) NOT NULL, `N` SHORT NOT NULL, `Data` OBJECT PRIMARY KEY `Name`, `N`)");
        exec(db, "INSERT INTO `Binary` (`Name`,`N`,`Data`) VALUES ('a',-7,?)", {Val::B(bytes(a, 1))});
        exec(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('free',?)", {Val::B(bytes(b, 2))});
        exec(db, "INSERT INTO `Binary` (`Name`,`N`) VALUES ('none',0)");
        Snap s = snap(db);
        if (s.tables["Binary"].rows != Rows{{Val::S("a"), Val::I(-7), Val::B(bytes(a, 1))}, {Val::S("none"), Val::I(0), Val::N()}}) c.fail("shown", str(s));
        done(c, db, path, fmt("streams of %d and %d", a, b));
        c.state(fmt("%d %d", a, b));
    }});
    // stream names: every pair of characters of each class, odd and even positions
    static const std::string cls = "09AZaz._- !+(~";
    chk.spaces.push_back({"names", "every name of two and three characters over class boundaries, alone and after an odd prefix, as stream and as table name", cls.size() * cls.size() * (cls.size() + 1), [](mc::Ctx &c, uint64_t i) {
        int n = cls.size();
        std::string nm{cls[i % n], cls[i / n % n]};
        if (i / n / n) nm += cls[i / n / n - 1];
        std::string path = c.scratch + "/n.msi";
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        for (std::string x : {nm, "p" + nm, "\xc3\xa9" + nm})
            if (exec(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", {Val::S(x), Val::B("content of " + x)})) c.fail("name-refused", x);
        exec(db, "CREATE TABLE `T" + nm + "` (`" + nm + "` SHORT NOT NULL PRIMARY KEY `" + nm + "`)");
        exec(db, "INSERT INTO `T" + nm + "` (`" + nm + "`) VALUES (5)");
        Snap s = snap(db);
        for (std::string x : {nm, "p" + nm, "\xc3\xa9" + nm}) if (s.streams[x] != "content of " + x) c.fail("shown", x + "\n" + str(s));
        done(c, db, path, "stream " + nm);
        c.state(nm);
    }});
    static const int cps[] = {0, 1252, 1250, 1251, 65001, 932, 874, 437};
    static const char *ctext[] = {"plain", "d\xc3\xa9lta \xe2\x82\xac", "\xc5\xa1\xc4\x8d", "\xd0\x9f\xd1\x80\xd0\xb8", "\xe2\x82\xac \xe6\xbc\xa2 \xc3\xa9", "\xe6\xbc\xa2\xe5\xad\x97", "\xe0\xb8\xaa\xe0\xb8\xa7", "\xc3\xa9\xe2\x95\x90"};
    chk.spaces.push_back({"codepages", "codepages x strings of each, set before and after the rows", 8 * 8 * 2, [](mc::Ctx &c, uint64_t i) {
        int cp = cps[i % 8];
        std::string t = ctext[i / 8 % 8], path = c.scratch + "/c.msi", idt = c.scratch + "/cp.idt";
        bool before = i / 64;
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        writefile(idt, fmt("\r\n\r\n%d\t_ForceCodepage\r\n", cp));
        int e = before ? import_table(db, idt) : 0;
        exec(db, "CREATE TABLE `C` (`K` CHAR(30) NOT NULL, `V` CHAR(30) PRIMARY KEY `K`)");
        int r1 = exec(db, "INSERT INTO `C` (`K`,`V`) VALUES ('plain', ?)", {Val::S(t)});
        exec(db, "INSERT INTO `C` (`K`,`V`) VALUES ('second', 'after')");
        if (!before) e = import_table(db, idt);
        c.step(fmt("codepage %d -> %d, insert -> %d", cp, e, r1));
        if (e && cp != 437) c.count(1);
        Snap s = snap(db);
        int k = commit(db);
        c.step(fmt("commit -> %d", k));
        if (k) return;               // refused: nothing was written
        agree(c, path, snap(db), "codepage");
        if (!(snap(db) == s)) c.fail("lossy", fmt("codepage %d: committed, but the content changed\n", cp) + diff(s, snap(db)));
        agree(c, path, s, "codepage", true, e ? 0 : cp);
        c.nontrivial();
        c.state(fmt("%d", (int)i));
    }});
    // summary properties: layout for every length modulo the alignment and every subset of kinds
    chk.spaces.push_back({"summary", "every subset of six properties x string lengths 0..9, in two orders", 64 * 10 * 2, [](mc::Ctx &c, uint64_t i) {
        int sub = i % 64, len = i / 64 % 10, rev = i / 640;
        std::string path = c.scratch + "/s.msi";
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        {
            Si si(libmsi_summary_info_new(db, 20, nullptr));
            static const int ids[] = {LIBMSI_PROPERTY_CODEPAGE, LIBMSI_PROPERTY_TITLE, LIBMSI_PROPERTY_AUTHOR, LIBMSI_PROPERTY_CREATED_TM, LIBMSI_PROPERTY_VERSION, LIBMSI_PROPERTY_APPNAME};
            for (int x = 0; x < 6; x++) {
                int k = rev ? 5 - x : x;
                if (!(sub >> k & 1)) continue;
                if (k == 0) libmsi_summary_info_set_int(si, (LibmsiProperty)ids[k], 1252, nullptr);
                else if (k == 3) libmsi_summary_info_set_filetime(si, (LibmsiProperty)ids[k], 0x01d0ffff12345678ull, nullptr);
                else if (k == 4) libmsi_summary_info_set_int(si, (LibmsiProperty)ids[k], 200000 + len, nullptr);
                else libmsi_summary_info_set_string(si, (LibmsiProperty)ids[k], std::string(len + k - 1, 'a' + k).c_str(), nullptr);
            }
            if (!libmsi_summary_info_persist(si, nullptr)) c.fail("persist", fmt("subset %d", sub));
        }
        c.step(fmt("subset %d length %d", sub, len));
        done(c, db, path, fmt("summary subset %d length %d", sub, len));
        c.state(fmt("%d", (int)i));
    }});
    // counts above the uses: what each kind of statement leaves behind
    chk.spaces.push_back({"counts", "exact reference counts after each kind of statement", 5, [](mc::Ctx &c, uint64_t i) {
        std::string path = c.scratch + "/r.msi";
        static const char *kind[] = {"CREATE TABLE", "INSERT", "UPDATE", "DELETE", "DROP TABLE"};
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        exec(db, "CREATE TABLE `R` (`K` CHAR(30) NOT NULL, `V` CHAR(30) PRIMARY KEY `K`)");
        if (i > 0) exec(db, "INSERT INTO `R` (`K`,`V`) VALUES ('one','same')");
        if (i > 0) exec(db, "INSERT INTO `R` (`K`,`V`) VALUES ('two','same')");
        if (i > 1) exec(db, "UPDATE `R` SET `V` = 'other' WHERE `K` = 'one'");
        if (i > 2) exec(db, "DELETE FROM `R` WHERE `K` = 'one'");
        if (i > 3) exec(db, "DROP TABLE `R`");
        commit(db);
        auto f = msiread::read(*readfile(path));
        for (size_t k = 1; k < f.strings.size(); k++) {
            bool mine = i == 0 || (i == 1 && (f.strings[k] == "one" || f.strings[k] == "two" || f.strings[k] == "same")) || (i == 2 && (f.strings[k] == "same" || f.strings[k] == "other")) || (i == 3 && f.strings[k] == "one") || i == 4;
            if (mine && f.refs[k] != f.uses[k]) c.fail(std::string("count after ") + kind[i], fmt("string '%s' is used %d times but counted %d", f.strings[k].c_str(), f.uses[k], f.refs[k]));
        }
        c.nontrivial();
        c.state(fmt("%d", (int)i));
    }});
    // what is temporary leaves no text in the file
    static const std::vector<Change> tmp = {
        sql("CREATE TABLE `tmpT` (`tmpK` SHORT NOT NULL TEMPORARY, `tmpS` CHAR(20) TEMPORARY PRIMARY KEY `tmpK`) HOLD"), sql("INSERT INTO `tmpT` (`tmpK`,`tmpS`) VALUES (1,'tmp row')"), sql("UPDATE `tmpT` SET `tmpS` = 'tmp update'"),
        sql("INSERT INTO `R` (`K`,`V`) VALUES ('tmp key','tmp value') TEMPORARY"), sql("UPDATE `R` SET `V` = 'tmp other' WHERE `K` = 'tmp key'"), sql("ALTER TABLE `R` ADD `tmpC` CHAR(20) TEMPORARY HOLD"), sql("UPDATE `R` SET `tmpC` = 'tmp cell'"),
        sql("INSERT INTO `R` (`K`,`V`) VALUES ('two','same')"), sql("DELETE FROM `R` WHERE `K` = 'tmp key'"), sql("DROP TABLE `tmpT`"), sql("INSERT INTO `tmpT` (`tmpK`,`tmpS`) VALUES (2,'tmp second') TEMPORARY"), {"commit", [](LibmsiDatabase *d, const std::string &) { return commit(d); }}};
    static mc::Words tw{tmp.size(), 1, thorough ? 5 : 4};
    chk.spaces.push_back({"temporaries", "every sequence of temporary tables, rows, columns and their changes: their texts are not stored", tw.count(), [](mc::Ctx &c, uint64_t i) {
        std::string path = c.scratch + "/t.msi";
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        exec(db, "CREATE TABLE `R` (`K` CHAR(30) NOT NULL, `V` CHAR(30) PRIMARY KEY `K`)");
        exec(db, "INSERT INTO `R` (`K`,`V`) VALUES ('one','same')");
        int done = 0;
        for (int o : tw.at(i)) { int e = tmp[o].run(db, c.scratch); c.step(tmp[o].name + fmt(" -> %d", e)); done += !e; }
        if (int e = commit(db)) c.fail("commit", fmt("%d", e));
        auto f = msiread::read(*readfile(path));
        for (size_t k = 1; k < f.strings.size(); k++) if (!f.strings[k].compare(0, 3, "tmp") && f.refs[k]) c.fail("temporary text stored", fmt("'%s' is counted %d times", f.strings[k].c_str(), f.refs[k]));
        c.state(fmt("%d %zu", done, f.strings.size()));
        if (done) c.nontrivial();
    }});
    return mc::run(chk, argc, argv);
}
