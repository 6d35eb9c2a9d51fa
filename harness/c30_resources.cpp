// C30: whatever a program releases gives everything back.
#include "fileset.hpp"
#include <dirent.h>
using namespace fileset;
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

namespace {
int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }

int apply_tr(LibmsiDatabase *db, const std::string &p) { GError *e = nullptr; gboolean ok = libmsi_database_apply_transform(db, p.c_str(), &e); return code(ok, e); }
Change put(const std::string &bytes, const char *name, const std::string &what, std::function<int(LibmsiDatabase *, const std::string &)> f) {
    const std::string *b = &bytes;
    return {what, [=](LibmsiDatabase *d, const std::string &tmp) { std::string p = tmp + "/" + name; writefile(p, *b); int e = f(d, p); unlink(p.c_str()); return e; }};
}
int merge_with(LibmsiDatabase *d, const std::string &p, const char *table) {
    Db r = open(p, LIBMSI_DB_FLAGS_READONLY);
    if (!r) return -1;
    GError *e = nullptr;
    gboolean ok = libmsi_database_merge(d, r, table, &e);
    return code(ok, e);
}
Change read_op(const std::string &s, Row p = {}) { return {s + (p.empty() ? "" : " with " + show(p)), [=](LibmsiDatabase *d, const std::string &) { return query(d, s, p).err; }}; }
Change part(const std::string &s, int rows) {
    return {fmt("the first %d rows of ", rows) + s, [=](LibmsiDatabase *d, const std::string &) { return query(d, s, {}, rows).err; }};
}
std::vector<Change> ops() {
    auto &f = files();
    std::vector<Change> v;
    // reads
    for (auto s : {"SELECT * FROM `T`", "SELECT `S`,`N` FROM `T` ORDER BY `S`", "SELECT DISTINCT `R` FROM `U`", "SELECT `T`.`S`,`U`.`P` FROM `T`,`U` WHERE `T`.`K` = `U`.`Q` ORDER BY `U`.`P`",
                   "SELECT `Name`,`Data` FROM `_Streams`", "SELECT `Name`,`Data` FROM `_Storages`", "SELECT * FROM `_Columns`", "SELECT `Name` FROM `_Tables`", "SELECT `D` FROM `T` WHERE `S` = 'two'"}) v.push_back(read_op(s));
    v.push_back(read_op("SELECT `S`,'x' FROM `T` WHERE `K` > ? AND `S` <> ?", {Val::I(1), Val::S("two")}));
    v.push_back(part("SELECT `D`,`S` FROM `T` ORDER BY `N`", 1));
    v.push_back(part("SELECT DISTINCT `T`.`S`,`U`.`P` FROM `T`,`U`", 2));
    v.push_back({"snapshot", [](LibmsiDatabase *d, const std::string &) { return snap(d).error.empty() ? 0 : -1; }});
    v.push_back({"primary keys", [](LibmsiDatabase *d, const std::string &) { int e; primary_keys(d, "U", &e); primary_keys(d, "None", &e); return 0; }});
    v.push_back({"persistent?", [](LibmsiDatabase *d, const std::string &) { libmsi_database_is_table_persistent(d, "T", nullptr); libmsi_database_is_table_persistent(d, "None", nullptr); return 0; }});
    // rows
    v.push_back(sql("INSERT INTO `T` (`K`,`N`,`S`,`D`) VALUES (9,?,?,?)", {Val::I(-5), Val::S("nine"), Val::B("object nine")}));
    v.push_back(sql("INSERT INTO `T` (`K`,`S`) VALUES (1,'again')"));
    v.push_back(sql("INSERT INTO `T` (`S`) VALUES ('no key')"));
    v.push_back(sql("INSERT INTO `T` (`K`,`S`) VALUES (8,'temporary') TEMPORARY"));
    v.push_back(sql("INSERT INTO `U` (`P`,`Q`) VALUES ('p9',9)"));
    v.push_back(sql("UPDATE `T` SET `S` = 'all', `N` = 5"));
    v.push_back(sql("UPDATE `T` SET `D` = ? WHERE `K` = 2", {Val::B("replaced")}));
    v.push_back(sql("UPDATE `T` SET `D` = ?, `S` = ? WHERE `S` = ?", {Val::N(), Val::N(), Val::S("one")}));
    v.push_back(sql("UPDATE `T` SET `K` = 4 WHERE `K` = 1"));
    v.push_back(sql("UPDATE `U` SET `R` = 'joined' WHERE `Q` = ?", {Val::I(1)}));
    v.push_back(sql("DELETE FROM `T` WHERE `K` = 1"));
    v.push_back(sql("DELETE FROM `T`"));
    v.push_back(sql("DELETE FROM `U` WHERE `P` = ?", {Val::S("p1")}));
    // tables
    v.push_back(sql("CREATE TABLE `V` (`A` CHAR(8) NOT NULL, `B` LONG PRIMARY KEY `A`)"));
    v.push_back(sql("CREATE TABLE `V` (`A` CHAR(8) NOT NULL TEMPORARY, `B` LONG TEMPORARY PRIMARY KEY `A`) HOLD"));
    v.push_back(sql("INSERT INTO `V` (`A`,`B`) VALUES ('a',1)"));
    v.push_back(sql("DROP TABLE `V`"));
    v.push_back(sql("DROP TABLE `T`"));
    v.push_back(sql("ALTER TABLE `U` ADD `X` CHAR(8)"));
    v.push_back(sql("ALTER TABLE `U` ADD `Y` SHORT TEMPORARY HOLD"));
    v.push_back(sql("ALTER TABLE `T` HOLD"));
    v.push_back(sql("ALTER TABLE `T` FREE"));
    // streams, storages, summary
    v.push_back(sql("INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('another',?)", {Val::B("another stream")}));
    v.push_back(sql("INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('plain',?)", {Val::B("replaced stream")}));
    v.push_back(sql("UPDATE `_Streams` SET `Data` = ? WHERE `Name` = 'plain'", {Val::B("updated")}));
    v.push_back(sql("UPDATE `_Streams` SET `Name` = 'moved' WHERE `Name` = 'plain'"));
    v.push_back(sql("DELETE FROM `_Streams` WHERE `Name` = 'plain'"));
    v.push_back(sql("INSERT INTO `_Storages` (`Name`,`Data`) VALUES ('st',?)", {Val::B(f.storage)}));
    v.push_back(sql("INSERT INTO `_Storages` (`Name`,`Data`) VALUES ('bad',?)", {Val::B("no storage")}));
    v.push_back(sql("INSERT INTO `_Storages` (`Name`,`Data`) VALUES ('sub',?)", {Val::B(f.storage)}));
    v.push_back(sql("DELETE FROM `_Storages` WHERE `Name` = 'sub'"));
    v.push_back(summary(LIBMSI_PROPERTY_TITLE, Val::S("another title")));
    v.push_back(summary(LIBMSI_PROPERTY_SECURITY, Val::I(2)));
    v.push_back(summary(LIBMSI_PROPERTY_CREATED_TM, Val::N()));
    v.push_back(summary(LIBMSI_PROPERTY_TITLE, Val::I(3)));
    v.push_back({"read the summary", [](LibmsiDatabase *d, const std::string &) {
        Si si(libmsi_summary_info_new(d, 0, nullptr));
        for (int p = 0; si && p < 21; p++) content::prop(si, p);
        GError *e = nullptr;
        GArray *a = si ? libmsi_summary_info_get_properties(si) : nullptr;
        if (a) g_array_unref(a);
        Si t(libmsi_summary_info_new(d, 3, nullptr));
        libmsi_summary_info_persist(si, &e);
        g_clear_error(&e);
        return 0;
    }});
    // exchange
    for (auto t : {"T", "U", "_SummaryInformation", "_ForceCodepage", "None"}) v.push_back({fmt("export %s", t), [=](LibmsiDatabase *d, const std::string &tmp) { int e = export_table(d, t, tmp + "/x.idt"); unlink((tmp + "/x.idt").c_str()); return e; }});
    v.push_back(idt("A\tB\r\ns72\tI4\r\nI\tA\r\nx\t5\r\ny\t\r\n", "i.idt"));
    v.push_back(idt("P\tQ\tR\r\ns20\ti2\tS0\r\nU\tP\tQ\r\nx\t5\t\r\np1\t1\tnew\r\n", "u.idt"));
    v.push_back(idt("A\tB\r\ns72\tv0\r\nI\tA\r\nx\tmissing.ibd\r\n", "missing.idt"));
    v.push_back(idt("A\tB\r\ns72\tI4\r\nI\tA\r\nx\t5\r\nx\t6\r\n", "twice.idt"));
    v.push_back(idt("A\tB\r\ns72\tQ4\r\nI\tA\r\nx\t5\r\n", "type.idt"));
    v.push_back(idt("A\tB\r\ns72\r\nI\tA\r\nx\t5\r\n", "short.idt"));
    v.push_back(idt("A\tB\r\ns72\tI4\r\n", "head.idt"));
    v.push_back(idt("", "empty.idt"));
    v.push_back(idt("PropertyId\tValue\r\ni2\tl255\r\n_SummaryInformation\tPropertyId\r\n2\tsummary title\r\n14\t200\r\n12\t2020/01/02 03:04:05\r\n", "s.idt"));
    v.push_back(idt("\r\n\r\n1252\t_ForceCodepage\r\n", "c.idt"));
    v.push_back({"import no file", [](LibmsiDatabase *d, const std::string &tmp) { return import_table(d, tmp + "/none"); }});
    v.push_back(put(f.other, "o.msi", "merge the other database", [](LibmsiDatabase *d, const std::string &p) { return merge_with(d, p, "E"); }));
    v.push_back(put(f.other, "o.msi", "merge the other database without an error table", [](LibmsiDatabase *d, const std::string &p) { return merge_with(d, p, nullptr); }));
    v.push_back(put(f.odd, "o.msi", "merge the database with other columns", [](LibmsiDatabase *d, const std::string &p) { return merge_with(d, p, "E"); }));
    v.push_back(put(f.mst, "t.mst", "apply the transform", apply_tr));
    v.push_back(put(f.badmst, "t.mst", "apply a damaged transform", apply_tr));
    v.push_back(put(f.base, "t.mst", "apply a database as a transform", apply_tr));
    v.push_back({"apply no file", [](LibmsiDatabase *d, const std::string &tmp) { return apply_tr(d, tmp + "/none"); }});
    v.push_back({"commit", [](LibmsiDatabase *d, const std::string &) { return commit(d); }});
    return v;
}
// the execution, again and again: what it holds afterwards may not grow
void balance(mc::Ctx &c, const std::string &what, const std::function<void()> &f) {
    clean(c.scratch);
    long grew = 0;
    for (int round = 0; round < 14; round++) {
        long a = __sanitizer_get_current_allocated_bytes();
        int d = fds();
        f();
        int g = fds() - d;
        grew = (long)__sanitizer_get_current_allocated_bytes() - a;
        if (g) c.fail("descriptors " + what, fmt("%d file descriptors stay open", g));
        if (round && grew <= 0) return;     // the first times fill caches: of messages, ten
    }
    c.fail("memory " + what, fmt("%ld bytes stay allocated every time", grew));
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C30";
    chk.technique = "bounded-exhaustive enumeration of the operation sequences on the real library, each repeated under a count of allocated bytes and open descriptors";
    chk.rule = "an execution that opens, works and releases everything can be repeated without holding more memory or descriptors than before; non-trivial: something was opened and done (statements: refused; full: the commit failed)";
    static auto os = ops();
    static uint64_t no = os.size();
    chk.bounds = fmt("all sequences of 2 of %d operations (thorough: all of 3 of the %d that change something), every opening mode, statements with every word removed, doubled, replaced or preceded by 18 others, query handles used %d times, records %d times, commits with every file size limit in steps of 512 bytes, files with every 16 bytes overwritten; growth that stops within 13 repetitions is a cache", (int)no, (int)no - 15, thorough ? 5 : 3, thorough ? 5 : 3);
    chk.setup = [](bool) { make_files(); os = ops(); };
    chk.spaces.push_back({"single", "every operation", no * 2, [](mc::Ctx &c, uint64_t i) {
        auto &o = os[i / 2];
        std::string p = c.scratch + "/d.msi";
        c.step(o.name);
        int e = 0;
        balance(c, o.name, [&] {
            writefile(p, files().base);
            Db d = open(p, LIBMSI_DB_FLAGS_TRANSACT);
            e = o.run(d, c.scratch);
            if (i & 1) commit(d);
            d.reset();
            unlink(p.c_str());
        });
        c.state(fmt("%s %d", o.name.c_str(), e));
        c.nontrivial();
    }});
    // pairs on a handle; the commit is one of the operations
    chk.spaces.push_back({"pairs", "every operation after every operation", no * no, [](mc::Ctx &c, uint64_t i) {
        auto &a = os[i / no], &b = os[i % no];
        std::string p = c.scratch + "/d.msi";
        c.step(a.name); c.step(b.name);
        int e = 0, f = 0;
        balance(c, a.name + " then " + b.name, [&] {
            writefile(p, files().base);
            Db d = open(p, LIBMSI_DB_FLAGS_TRANSACT);
            e = a.run(d, c.scratch);
            f = b.run(d, c.scratch);
            d.reset();
            unlink(p.c_str());
        });
        c.state(fmt("%s %d %s %d", a.name.c_str(), e, b.name.c_str(), f));
        c.nontrivial();
    }});
    static const uint64_t n3 = no - 15;
    if (thorough) chk.spaces.push_back({"triples", "every three changes", n3 * n3 * n3, [](mc::Ctx &c, uint64_t i) {
        const Change *w[3] = {&os[15 + i / n3 / n3], &os[15 + i / n3 % n3], &os[15 + i % n3]};
        std::string p = c.scratch + "/d.msi", what;
        for (auto o : w) c.step(o->name), what += (what.empty() ? "" : " then ") + o->name;
        int e = 0;
        balance(c, what, [&] {
            writefile(p, files().base);
            Db d = open(p, LIBMSI_DB_FLAGS_TRANSACT);
            e = 0;
            for (auto o : w) e = e * 2 + !!o->run(d, c.scratch);
            d.reset();
            unlink(p.c_str());
        });
        c.state(fmt("%s %d", what.c_str(), e));
        c.nontrivial();
    }});
    // every way to open
    static const int modes[] = {LIBMSI_DB_FLAGS_READONLY, LIBMSI_DB_FLAGS_CREATE, LIBMSI_DB_FLAGS_PATCH, LIBMSI_DB_FLAGS_CREATE | LIBMSI_DB_FLAGS_PATCH, LIBMSI_DB_FLAGS_READONLY | LIBMSI_DB_FLAGS_CREATE, LIBMSI_DB_FLAGS_TRANSACT | LIBMSI_DB_FLAGS_PATCH};
    chk.spaces.push_back({"modes", "every operation and a commit on a database opened in every other way", no * 6, [](mc::Ctx &c, uint64_t i) {
        auto &o = os[i / 6];
        std::string p = c.scratch + "/d.msi";
        c.step(fmt("mode %d", modes[i % 6]));
        c.step(o.name);
        int e = 0;
        bool opened = false;
        balance(c, fmt("mode %d ", modes[i % 6]) + o.name, [&] {
            writefile(p, files().base);
            Db d = open(p, modes[i % 6]);
            opened = d;
            if (d) { e = o.run(d, c.scratch); commit(d); }
            d.reset();
            for (auto &f : ls(c.scratch)) unlink((c.scratch + "/" + f).c_str());
        });
        c.state(fmt("%d %s %d", modes[i % 6], o.name.c_str(), e));
        if (opened) c.nontrivial();
    }});
    // statements of which a word is missing, doubled or another one
    static const std::vector<std::vector<std::string>> st = {
        {"SELECT", "DISTINCT", "`S`", ",", "`T`", ".", "`N`", "FROM", "`T`", ",", "`U`", "WHERE", "`K`", "=", "?", "AND", "(", "`S`", "IS", "NOT", "NULL", "OR", "`P`", "<>", "'x'", ")", "ORDER", "BY", "`S`", ",", "`P`"},
        {"SELECT", "*", "FROM", "`T`", "WHERE", "`N`", ">", "-5", "ORDER", "BY", "`K`"},
        {"INSERT", "INTO", "`T`", "(", "`K`", ",", "`S`", ",", "`D`", ")", "VALUES", "(", "9", ",", "'x'", ",", "?", ")", "TEMPORARY"},
        {"UPDATE", "`T`", "SET", "`S`", "=", "'x'", ",", "`N`", "=", "?", "WHERE", "`K`", "<", "3", "AND", "`S`", "=", "'one'"},
        {"DELETE", "FROM", "`T`", "WHERE", "`K`", "=", "1", "OR", "`S`", "IS", "NULL"},
        {"CREATE", "TABLE", "`V`", "(", "`A`", "CHAR", "(", "8", ")", "NOT", "NULL", "LOCALIZABLE", ",", "`B`", "LONG", "TEMPORARY", "PRIMARY", "KEY", "`A`", ",", "`B`", ")", "HOLD"},
        {"ALTER", "TABLE", "`T`", "ADD", "`X`", "CHAR", "(", "8", ")", "TEMPORARY", "HOLD"},
        {"ALTER", "TABLE", "`T`", "FREE"},
        {"DROP", "TABLE", "`T`"},
    };
    static const std::vector<std::string> junk = {"`T`", "`None`", "?", "1", "'x'", ",", "(", ")", "NULL", "WHERE", "SELECT", "OBJECT", "%", "'open", "99999999999", "`K`", "*", "="};
    static std::vector<std::pair<int, int>> at;
    for (size_t x = 0; x < st.size(); x++) for (size_t y = 0; y < st[x].size(); y++) at.push_back({(int)x, (int)y});
    static uint64_t nj = 3 + 2 * junk.size();
    chk.spaces.push_back({"statements", "statements with every word removed, doubled, replaced and preceded by every other, and cut off there", at.size() * nj, [](mc::Ctx &c, uint64_t i) {
        auto [x, y] = at[i / nj];
        int k = i % nj, n = junk.size();
        auto t = st[x];
        if (k == 0) t.erase(t.begin() + y);
        else if (k == 1) t.insert(t.begin() + y, t[y]);
        else if (k == 2) t.resize(y);
        else if (k < 3 + n) t[y] = junk[k - 3];
        else t.insert(t.begin() + y, junk[k - 3 - n]);
        std::string q;
        for (auto &w : t) q += (q.empty() ? "" : " ") + w;
        c.step(q);
        std::string p = c.scratch + "/d.msi";
        Res r;
        // many of one on a handle, too
        balance(c, "statement", [&] {
            writefile(p, files().base);
            Db d = open(p, LIBMSI_DB_FLAGS_TRANSACT);
            r = query(d, q, {Val::I(1)});
            d.reset();
            r.rows.clear(); r.names.clear(); r.types.clear();
            r.rows.shrink_to_fit(); r.names.shrink_to_fit(); r.types.shrink_to_fit();
            unlink(p.c_str());
        });
        c.state(fmt("%d %d %s", x, r.err, r.where));
        if (!r.ok()) c.nontrivial();
    }});
    // what a program does with a query
    static const std::vector<std::pair<std::string, Row>> qs = {
        {"SELECT `S`,`D` FROM `T` WHERE `K` > ? ORDER BY `S`", {Val::I(0)}}, {"SELECT DISTINCT `N` FROM `T`", {}}, {"SELECT `Name`,`Data` FROM `_Streams`", {}},
        {"SELECT `T`.`D`,`U`.`R` FROM `T`,`U`", {}}, {"INSERT INTO `T` (`K`,`D`) VALUES (?,?)", {Val::I(20), Val::B("object")}}, {"SELECT * FROM `_Columns` WHERE `Table` = ?", {Val::S("T")}},
        {"UPDATE `T` SET `D` = ? WHERE `K` = 1", {Val::B("replaced")}}, {"CREATE TABLE `V` (`A` SHORT NOT NULL TEMPORARY PRIMARY KEY `A`) HOLD", {}}, {"DROP TABLE `U`", {}}};
    static const char *qop[] = {"execute", "execute without a record", "fetch", "fetch the rest", "columns", "close", "drop the table", "keep a record's stream"};
    static mc::Words qw{8, 1, thorough ? 5 : 3};
    chk.spaces.push_back({"queries", "every sequence of uses of a query, released in every order", qs.size() * qw.count() * 2, [](mc::Ctx &c, uint64_t i) {
        bool dbfirst = i & 1;
        i /= 2;
        auto &q = qs[i % qs.size()];
        auto w = qw.at(i / qs.size());
        std::string p = c.scratch + "/d.msi", how = q.first + (dbfirst ? ", the database released first" : "");
        c.step(how);
        for (int o : w) c.step(qop[o]);
        unsigned seen = 0;
        balance(c, "query " + q.first, [&] {
            writefile(p, files().base);
            Db d = open(p, LIBMSI_DB_FLAGS_TRANSACT);
            Query x(libmsi_query_new(d, q.first.c_str(), nullptr));
            Rec kept;
            GInputStream *in = nullptr;
            seen = x ? 1 : 0;
            for (int o : w) {
                if (!x) break;
                GError *e = nullptr;
                switch (o) {
                case 0: { Rec r = record(q.second); seen += libmsi_query_execute(x, r, &e); break; }
                case 1: seen += libmsi_query_execute(x, nullptr, &e); break;
                case 2: kept = Rec(libmsi_query_fetch(x, &e)); seen += 8 * !!kept; break;
                case 3: while (true) { Rec r(libmsi_query_fetch(x, &e)); if (!r) break; seen += 8; } break;
                case 4: colinfo(x, LIBMSI_COL_INFO_NAMES); colinfo(x, LIBMSI_COL_INFO_TYPES); break;
                case 5: libmsi_query_close(x, &e); break;
                case 6: exec(d, "DROP TABLE `T`"); break;
                case 7: if (kept) for (unsigned f = 1; f <= libmsi_record_get_field_count(kept); f++) { if (in) g_object_unref(in); in = libmsi_record_get_stream(kept, f); } break;
                }
                g_clear_error(&e);
            }
            if (dbfirst) d.reset();
            x.reset();
            kept.reset();
            if (in) { char b[3]; g_input_stream_read(in, b, 3, nullptr, nullptr); g_object_unref(in); }
            d.reset();
            unlink(p.c_str());
        });
        c.state(fmt("%s %u %d", q.first.c_str(), seen, dbfirst));
        if (seen > 1) c.nontrivial();
    }});
    // records
    static const char *rop[] = {"set 1 to a number", "set 1 to a string", "set 1 to a stream", "load 1 from a file", "load 1 from no file", "read 1 as a string", "open 1 as a stream and read a byte", "clear", "set 1 to a stream that is too short", "set 9 to a string", "set 1 to null", "insert it", "set 1 to its own stream"};
    static mc::Words rw{13, 1, thorough ? 5 : 3};
    chk.spaces.push_back({"records", "every sequence of uses of a record", rw.count(), [](mc::Ctx &c, uint64_t i) {
        auto w = rw.at(i);
        std::string p = c.scratch + "/d.msi", t = c.scratch + "/f";
        for (int o : w) c.step(rop[o]);
        unsigned done = 0;
        balance(c, "record", [&] {
            writefile(t, std::string(3000, 'f'));
            writefile(p, files().base);
            Db d = open(p, LIBMSI_DB_FLAGS_TRANSACT);
            Rec r(libmsi_record_new(2));
            done = 0;
            for (int o : w) {
                GError *e = nullptr;
                bool ok = false;
                GInputStream *in = nullptr;
                auto mem = [&](int n, int claim) { in = g_memory_input_stream_new_from_data(g_strnfill(n, 'm'), n, g_free); ok = libmsi_record_set_stream(r, 1, in, claim, nullptr, &e); };
                switch (o) {
                case 0: ok = libmsi_record_set_int(r, 1, 5); break;
                case 1: ok = libmsi_record_set_string(r, 1, "text"); break;
                case 2: mem(300, 300); break;
                case 3: ok = libmsi_record_load_stream(r, 1, t.c_str()); break;
                case 4: ok = libmsi_record_load_stream(r, 1, (t + "-none").c_str()); break;
                case 5: { char *s = libmsi_record_get_string(r, 1); ok = s; g_free(s); break; }
                case 6: in = libmsi_record_get_stream(r, 1); ok = in; if (in) { char b; g_input_stream_read(in, &b, 1, nullptr, nullptr); } break;
                case 7: ok = libmsi_record_clear(r); break;
                case 8: mem(300, 400); break;
                case 9: ok = libmsi_record_set_string(r, 9, "text"); break;
                case 10: ok = libmsi_record_set_string(r, 1, nullptr); break;
                case 11: {
                    Query q(libmsi_query_new(d, "INSERT INTO `_Streams` (`Data`,`Name`) VALUES (?,'new')", nullptr));
                    ok = q && libmsi_query_execute(q, r, &e);
                    break;
                }
                case 12: in = libmsi_record_get_stream(r, 1); if (in) ok = libmsi_record_set_stream(r, 1, in, 300, nullptr, &e); break;
                }
                g_clear_error(&e);
                if (in) g_object_unref(in);
                done = done * 2 + ok;
            }
            r.reset();
            d.reset();
            unlink(p.c_str());
            unlink(t.c_str());
        });
        c.state(fmt("%d %u", (int)w.size(), done));
        c.nontrivial();
    }});
    // a commit that the file system cuts off
    static const uint64_t nlim = 96;
    chk.spaces.push_back({"full", "every change committed with every limit on the size of the file, in steps of 512 bytes", nlim * no, [](mc::Ctx &c, uint64_t i) {
        auto &o = os[i / nlim];
        long lim = 512 * (i % nlim);
        std::string p = c.scratch + "/d.msi";
        c.step(o.name);
        c.step(fmt("commit with at most %ld bytes per file", lim));
        int e = 0;
        balance(c, "full " + o.name, [&] {
            writefile(p, files().base);
            Db d = open(p, LIBMSI_DB_FLAGS_TRANSACT);
            o.run(d, c.scratch);
            struct rlimit old, now;
            getrlimit(RLIMIT_FSIZE, &old);
            signal(SIGXFSZ, SIG_IGN);
            now = old;
            now.rlim_cur = lim;
            setrlimit(RLIMIT_FSIZE, &now);
            e = commit(d);
            setrlimit(RLIMIT_FSIZE, &old);
            d.reset();
            for (auto &f : ls(c.scratch)) unlink((c.scratch + "/" + f).c_str());
        });
        c.state(fmt("%s %d", o.name.c_str(), e));
        if (e) c.nontrivial();
    }});
    // damaged files
    chk.spaces.push_back({"damaged", "the file cut off at every 128 bytes, and every 16 bytes of it overwritten by zeroes or ones; opened, read, changed, committed", 2000, [](mc::Ctx &c, uint64_t i) {
        std::string b = files().base;
        uint64_t cuts = b.size() / 128, pos = b.size() / 16;
        if (i < cuts) b.resize(i * 128);
        else if ((i - cuts) / 2 < pos) b.replace((i - cuts) / 2 * 16, 16, 16, i & 1 ? '\xff' : '\0');
        else return;
        c.step(i < cuts ? fmt("cut off at %d", (int)i * 128) : fmt("16 bytes at %d are %s", (int)(i - cuts) / 2 * 16, i & 1 ? "ones" : "zeroes"));
        std::string p = c.scratch + "/d.msi";
        bool opened = false;
        balance(c, "damaged", [&] {
            writefile(p, b);
            Db d = open(p, LIBMSI_DB_FLAGS_TRANSACT);
            opened = d;
            if (d) { snap(d); for (auto t : {"T", "U"}) export_table(d, t, c.scratch + "/x"); change_all(d, c.scratch); commit(d); }
            d.reset();
            for (auto &f : ls(c.scratch)) unlink((c.scratch + "/" + f).c_str());
        });
        c.state(fmt("%d %d", (int)i, opened));
        c.nontrivial();
    }});
    return mc::run(chk, argc, argv);
}
