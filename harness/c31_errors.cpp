// C31: every public call says whether it succeeded, the same way whether or not it is asked for the reason.
#include "fileset.hpp"
#include <sys/resource.h>
#include <signal.h>
using namespace fileset;

namespace {
// while it lives: at most so many more descriptors, or bytes in a file
struct Limit {
    struct rlimit old; int what;
    Limit(int w, long v) : what(w) {
        signal(SIGXFSZ, SIG_IGN);
        getrlimit(what, &old);
        struct rlimit now = old;
        if (v >= 0) now.rlim_cur = v;
        setrlimit(what, &now);
    }
    ~Limit() { setrlimit(what, &old); }
};
int lowest() { int f = ::open("/dev/null", O_RDONLY); close(f); return f; }
enum Mode { TRANSACT, READONLY, CREATED, COMMITTED, DROPPED, BESIDE, CUT, BADPOOL, BADSUMMARY, MODES };
const char *mode_name[] = {"opened for changes", "opened for reading", "new", "committed once", "opened, T dropped", "opened with another output file", "a file with an overwritten block", "a file with a damaged string pool", "a file with damaged summary information"};

struct Env {
    std::string dir;
    Db d;
    Query q;
    Si si;
    Rec r;
};
enum Outcome { FAIL, OK, NONE, SKIP };     // NONE: no further row, a temporary table
struct Out { Outcome k; std::string text; };
enum Expect { EITHER, GOOD, BAD };
// touch: what a call that fails may still have changed (the reason is reported; the rest is C04, C11, C13, C14's matter)
struct Call { std::string name; std::function<Out(Env &, GError **)> run; Expect expect; bool reads = false, touches = false; };

Out yes(gboolean b) { return {b ? OK : FAIL, ""}; }
std::string file(Env &e, const char *name, const std::string &bytes) { std::string p = e.dir + "/" + name; writefile(p, bytes); return p; }
std::string rec_text(LibmsiRecord *r) {
    std::string s;
    for (unsigned i = 1; i <= libmsi_record_get_field_count(r); i++) {
        gchar *t = libmsi_record_get_string(r, i);
        s += (i > 1 ? "|" : "") + std::string(libmsi_record_is_null(r, i) ? "-" : t ? t : "?");
        g_free(t);
    }
    return s;
}
Call one(const std::string &q, Expect x, Row p = {}) {
    return {q + (p.empty() ? "" : " with " + show(p)), [=](Env &e, GError **er) -> Out {
        GError *own = nullptr;
        Query v(libmsi_query_new(e.d, q.c_str(), er));
        if (!v) return {FAIL, "new"};
        if (er && *er) return {OK, ""};
        Rec r;
        if (!p.empty()) r = record(p);
        gboolean ok = libmsi_query_execute(v, r, er);
        (void)own;
        return {ok ? OK : FAIL, "execute"};
    }, x};
}
Call ask(const std::string &q, Expect x, Row p = {}) {
    Call c = one(q, x, p);
    c.reads = true;
    c.run = [=](Env &e, GError **er) -> Out {
        Query v(libmsi_query_new(e.d, q.c_str(), er));
        if (!v) return {FAIL, "new"};
        if (er && *er) return {OK, ""};
        Rec r;
        if (!p.empty()) r = record(p);
        if (!libmsi_query_execute(v, r, er)) return {FAIL, "execute"};
        std::string s;
        while (!(er && *er)) {
            Rec x(libmsi_query_fetch(v, er));
            if (!x) break;
            s += rec_text(x) + ";";
        }
        if (er && *er) return {FAIL, s};
        return {OK, s};
    };
    return c;
}
Call make_query(const std::string &q, Expect x) {
    Call c{"query " + q, [=](Env &e, GError **er) -> Out { e.q = Query(libmsi_query_new(e.d, q.c_str(), er)); return {e.q ? OK : FAIL, ""}; }, x};
    c.reads = true;
    return c;
}
Call on_query(const std::string &n, std::function<Out(Env &, GError **)> f, Expect x = EITHER) {
    return {n, [=](Env &e, GError **er) -> Out { if (!e.q) return {SKIP, ""}; return f(e, er); }, x};
}
Call opening(const std::string &n, const std::string *bytes, int flags, Expect x, const char *persist = nullptr, const char *name = "o.msi") {
    Call c{n, [=](Env &e, GError **er) -> Out {
        std::string p = bytes ? file(e, name, *bytes) : e.dir + "/" + name, o = persist ? e.dir + "/" + persist : "";
        Db d(libmsi_database_new(p.c_str(), flags, persist ? o.c_str() : nullptr, er));
        std::string t;
        if (d && !(er && *er)) t = str(snap(d));
        Out r{d ? OK : FAIL, t};
        d.reset();
        unlink(p.c_str());
        if (persist) unlink(o.c_str());
        return r;
    }, x};
    c.reads = true;
    return c;
}
Call import_text(const std::string &n, const std::string &text, Expect x) {
    return {"import " + n, [=](Env &e, GError **er) -> Out {
        std::string p = file(e, "i.idt", text);
        gboolean ok = libmsi_database_import(e.d, p.c_str(), er);
        unlink(p.c_str());
        return yes(ok);
    }, x, false, true};
}
Call merging(const std::string &n, const std::string *bytes, const char *table, Expect x) {
    return {"merge " + n, [=](Env &e, GError **er) -> Out {
        Db m = open(file(e, "m.msi", *bytes), LIBMSI_DB_FLAGS_READONLY);
        if (!m) { unlink((e.dir + "/m.msi").c_str()); return {SKIP, ""}; }
        gboolean ok = libmsi_database_merge(e.d, m, table, er);
        m.reset();
        unlink((e.dir + "/m.msi").c_str());
        return yes(ok);
    }, x, false, true};
}
Call transforming(const std::string &n, const std::string *bytes, Expect x) {
    return {"apply " + n, [=](Env &e, GError **er) -> Out {
        std::string p = bytes ? file(e, "t.mst", *bytes) : e.dir + "/none.mst";
        gboolean ok = libmsi_database_apply_transform(e.d, p.c_str(), er);
        unlink(p.c_str());
        return yes(ok);
    }, x, false, true};
}
Call exporting(const std::string &n, const char *table, const char *path, int flags, Expect x) {
    Call c{"export " + n, [=](Env &e, GError **er) -> Out {
        std::string p = *path ? path : e.dir + "/x.idt";
        if (!*path) writefile(p, "");
        int fd = ::open(p.c_str(), flags);
        if (fd < 0) return {SKIP, ""};
        gboolean ok = libmsi_database_export(e.d, table, fd, er);
        close(fd);
        std::string t;
        if (!*path) { if (ok) t = readfile(p).value_or(""); unlink(p.c_str()); }
        return {ok ? OK : FAIL, t};
    }, x};
    c.reads = true;
    return c;
}
template <class F> Call on_si(const std::string &n, F f, Expect x = EITHER) {
    Call c{n, [=](Env &e, GError **er) -> Out { if (!e.si) return {SKIP, ""}; return f(e, er); }, x};
    c.reads = true;
    return c;
}
Out value(const std::string &v, const std::string &none, GError **er) {
    // the value of a property that is not there, or of another type, is this
    if (er && *er) return {v == none ? FAIL : OK, v};
    return {er ? OK : NONE, v};
}
Call get_int(int p, Expect x) { return on_si(fmt("get property %d as a number", p), [=](Env &e, GError **er) { return value(std::to_string(libmsi_summary_info_get_int(e.si, (LibmsiProperty)p, er)), "-1", er); }, x); }
Call get_str(int p, Expect x) { return on_si(fmt("get property %d as text", p), [=](Env &e, GError **er) { auto s = libmsi_summary_info_get_string(e.si, (LibmsiProperty)p, er); return value(s ? std::string("'") + s : "none", "none", er); }, x); }
Call get_time(int p, Expect x) { return on_si(fmt("get property %d as a time", p), [=](Env &e, GError **er) { return value(std::to_string(libmsi_summary_info_get_filetime(e.si, (LibmsiProperty)p, er)), "0", er); }, x); }
Call get_type(int p, Expect x) { return on_si(fmt("get the type of property %d", p), [=](Env &e, GError **er) { return value(std::to_string(libmsi_summary_info_get_property_type(e.si, (LibmsiProperty)p, er)), "0", er); }, x); }
Call set_int(int p, Expect x) { return on_si(fmt("set property %d to a number", p), [=](Env &e, GError **er) { return yes(libmsi_summary_info_set_int(e.si, (LibmsiProperty)p, 3, er)); }, x); }
Call set_str(int p, Expect x, const char *v = "text") { return on_si(fmt("set property %d to %s", p, v ? "text" : "no text"), [=](Env &e, GError **er) { return yes(libmsi_summary_info_set_string(e.si, (LibmsiProperty)p, v, er)); }, x); }
Call set_time(int p, Expect x) { return on_si(fmt("set property %d to a time", p), [=](Env &e, GError **er) { return yes(libmsi_summary_info_set_filetime(e.si, (LibmsiProperty)p, 0x01d0000012345678ull, er)); }, x); }
Call si_new(const std::string &n, bool db, int room, Expect x) {
    Call c{n, [=](Env &e, GError **er) -> Out { e.si = Si(libmsi_summary_info_new(db ? (LibmsiDatabase *)e.d : nullptr, room, er)); return {e.si ? OK : FAIL, ""}; }, x};
    c.reads = true;
    return c;
}
Call set_stream(const std::string &n, int have, size_t claim, bool closed, bool cancelled, Expect x) {
    Call c{n, [=](Env &e, GError **er) -> Out {
        GInputStream *in = g_memory_input_stream_new_from_data(g_strnfill(have, 'm'), have, g_free);
        if (closed) g_input_stream_close(in, nullptr, nullptr);
        GCancellable *ca = g_cancellable_new();
        if (cancelled) g_cancellable_cancel(ca);
        gboolean ok = libmsi_record_set_stream(e.r, 1, in, claim, ca, er);
        g_object_unref(ca);
        g_object_unref(in);
        return yes(ok);
    }, x};
    c.reads = true;
    return c;
}

std::vector<Call> calls() {
    static std::string garbage(3000, 'x'), nothing, half;
    half = files().base.substr(0, files().base.size() / 2);
    auto &f = files();
    std::vector<Call> v;
    // opening
    v.push_back(opening("open a database for reading", &f.base, LIBMSI_DB_FLAGS_READONLY, GOOD));
    v.push_back(opening("open a database for changes", &f.base, LIBMSI_DB_FLAGS_TRANSACT, GOOD));
    v.push_back(opening("open a database with an output file", &f.base, LIBMSI_DB_FLAGS_TRANSACT, GOOD, "p.msi"));
    v.push_back(opening("open a database with an output file in no directory", &f.base, LIBMSI_DB_FLAGS_TRANSACT, BAD, "none/p.msi"));
    v.push_back(opening("open a transform as a patch", &f.mst, LIBMSI_DB_FLAGS_READONLY | LIBMSI_DB_FLAGS_PATCH, EITHER));
    v.push_back(opening("open no file", nullptr, LIBMSI_DB_FLAGS_READONLY, BAD));
    v.push_back(opening("open no file for changes", nullptr, LIBMSI_DB_FLAGS_TRANSACT, BAD));
    v.push_back(opening("open a file that is none", &garbage, LIBMSI_DB_FLAGS_READONLY, BAD));
    v.push_back(opening("open an empty file", &nothing, LIBMSI_DB_FLAGS_TRANSACT, BAD));
    v.push_back(opening("open half a file", &half, LIBMSI_DB_FLAGS_TRANSACT, EITHER));
    v.push_back(opening("open a directory", nullptr, LIBMSI_DB_FLAGS_READONLY, BAD, nullptr, "."));
    v.push_back(opening("create a database", nullptr, LIBMSI_DB_FLAGS_CREATE, GOOD));
    v.push_back(opening("create a database in no directory", nullptr, LIBMSI_DB_FLAGS_CREATE, BAD, nullptr, "none/o.msi"));
    v.push_back(opening("create a database over a directory", nullptr, LIBMSI_DB_FLAGS_CREATE, EITHER, nullptr, "."));
    // reading
    for (auto t : {"T", "U"}) v.push_back({fmt("primary keys of %s", t), [=](Env &e, GError **er) -> Out { Rec r(libmsi_database_get_primary_keys(e.d, t, er)); return {r ? OK : FAIL, r ? rec_text(r) : ""}; }, GOOD, true});
    for (auto t : {"None", ""}) v.push_back({fmt("primary keys of '%s'", t), [=](Env &e, GError **er) -> Out { Rec r(libmsi_database_get_primary_keys(e.d, t, er)); return {r ? OK : FAIL, r ? rec_text(r) : ""}; }, BAD, true});
    for (auto t : {"T", "U", "_Tables", "_Columns"}) v.push_back({fmt("is %s persistent", t), [=](Env &e, GError **er) -> Out { return {libmsi_database_is_table_persistent(e.d, t, er) ? OK : er && *er ? FAIL : NONE, ""}; }, *t == '_' ? EITHER : GOOD, true});
    v.push_back({"is Tmp persistent", [=](Env &e, GError **er) -> Out { return {libmsi_database_is_table_persistent(e.d, "Tmp", er) ? OK : er && *er ? FAIL : NONE, ""}; }, EITHER, true});
    v.push_back({"is None persistent", [=](Env &e, GError **er) -> Out { return yes(libmsi_database_is_table_persistent(e.d, "None", er)); }, BAD, true});
    v.push_back(ask("SELECT `K`,`N`,`S` FROM `T` ORDER BY `S`", GOOD));
    v.push_back(ask("SELECT DISTINCT `R` FROM `U` WHERE `Q` > ?", GOOD, {Val::I(0)}));
    v.push_back(ask("SELECT `Name` FROM `_Streams`", GOOD));
    v.push_back(ask("SELECT `T`.`K`,`U`.`P` FROM `T`,`U`", GOOD));
    // statements
    v.push_back(one("INSERT INTO `T` (`K`,`N`,`S`) VALUES (9,?,?)", GOOD, {Val::I(-5), Val::S("nine")}));
    v.push_back(one("INSERT INTO `T` (`K`,`S`) VALUES (1,'again')", BAD));
    v.push_back(one("INSERT INTO `T` (`S`) VALUES ('no key')", BAD));
    v.push_back(one("INSERT INTO `T` (`K`,`S`) VALUES (1)", BAD));
    v.push_back(one("INSERT INTO `T` (`K`,`N`) VALUES (?,?)", BAD));
    v.push_back(one("INSERT INTO `T` (`K`,`N`) VALUES (12345678,1)", BAD));
    v.push_back(one("INSERT INTO `T` (`None`) VALUES (1)", BAD));
    v.push_back(one("INSERT INTO `None` (`K`) VALUES (1)", BAD));
    v.push_back(one("INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('fresh',?)", GOOD, {Val::B("bytes")}));
    v.push_back(one("INSERT INTO `_Streams` (`Name`) VALUES ('bare')", EITHER));
    v.push_back(one("INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", EITHER, {Val::N(), Val::B("bytes")}));
    v.push_back(one("INSERT INTO `_Storages` (`Name`,`Data`) VALUES ('fresh',?)", GOOD, {Val::B(f.storage)}));
    v.push_back(one("INSERT INTO `_Storages` (`Name`,`Data`) VALUES ('poor',?)", BAD, {Val::B("no storage")}));
    v.push_back(one("UPDATE `T` SET `S` = 'all'", GOOD));
    v.push_back(one("UPDATE `T` SET `K` = 7", BAD));
    v.push_back(one("UPDATE `T` SET `N` = ? WHERE `K` = 1", GOOD, {Val::N()}));
    v.push_back(one("UPDATE `T` SET `None` = 1", BAD));
    v.push_back(one("UPDATE `U` SET `Q` = ? WHERE `P` = 'p1'", BAD, {Val::N()}));
    v.push_back(one("DELETE FROM `T` WHERE `K` = 2", GOOD));
    v.push_back(one("DELETE FROM `T` WHERE `None` = 2", BAD));
    v.push_back(one("DELETE FROM `None`", BAD));
    v.push_back(one("CREATE TABLE `V` (`A` CHAR(8) NOT NULL, `B` LONG PRIMARY KEY `A`)", GOOD));
    v.push_back(one("CREATE TABLE `T` (`A` CHAR(8) NOT NULL PRIMARY KEY `A`)", BAD));
    v.push_back(one("CREATE TABLE `W` (`A` CHAR(8) NOT NULL PRIMARY KEY `None`)", BAD));
    v.push_back(one("CREATE TABLE `W` (`A` CHAR(8) NOT NULL, `A` SHORT PRIMARY KEY `A`)", BAD));
    v.push_back(one("CREATE TABLE `Tmp` (`A` CHAR(8) NOT NULL TEMPORARY PRIMARY KEY `A`) HOLD", GOOD));
    v.push_back(one("DROP TABLE `U`", GOOD));
    v.push_back(one("DROP TABLE `None`", BAD));
    v.push_back(one("ALTER TABLE `U` ADD `X` CHAR(8)", GOOD));
    v.push_back(one("ALTER TABLE `U` ADD `P` CHAR(8)", BAD));
    v.push_back(one("ALTER TABLE `None` ADD `X` CHAR(8)", BAD));
    v.push_back(one("ALTER TABLE `U` HOLD", EITHER));
    v.push_back(one("ALTER TABLE `None` FREE", BAD));
    v.push_back(one("no statement", BAD));
    v.push_back(one("", BAD));
    // a query that stays open
    v.push_back(make_query("SELECT `K`,`S` FROM `T` WHERE `K` > ?", GOOD));
    v.push_back(make_query("SELECT DISTINCT `S` FROM `T` ORDER BY `S`", GOOD));
    v.push_back(make_query("SELECT `Name`,`Data` FROM `_Storages`", GOOD));
    v.push_back(make_query("INSERT INTO `T` (`K`,`S`) VALUES (?,?)", GOOD));
    v.push_back(make_query("SELECT `None` FROM `T`", BAD));
    v.push_back(make_query("SELECT `K` FROM `T` WHERE `S` = 5", EITHER));
    v.push_back(on_query("execute with (1,x)", [](Env &e, GError **er) { Rec r = record({Val::I(1), Val::S("x")}); return yes(libmsi_query_execute(e.q, r, er)); }));
    v.push_back(on_query("execute with (50,x)", [](Env &e, GError **er) { Rec r = record({Val::I(50), Val::S("x")}); return yes(libmsi_query_execute(e.q, r, er)); }));
    v.push_back(on_query("execute", [](Env &e, GError **er) { return yes(libmsi_query_execute(e.q, nullptr, er)); }));
    v.push_back(on_query("fetch", [](Env &e, GError **er) -> Out { Rec r(libmsi_query_fetch(e.q, er)); return {r ? OK : er && *er ? FAIL : NONE, r ? rec_text(r) : ""}; }));
    v.push_back(on_query("close", [](Env &e, GError **er) { return yes(libmsi_query_close(e.q, er)); }));
    for (int i = 0; i < 2; i++) v.push_back(on_query(i ? "column types" : "column names", [i](Env &e, GError **er) -> Out { Rec r(libmsi_query_get_column_info(e.q, i ? LIBMSI_COL_INFO_TYPES : LIBMSI_COL_INFO_NAMES, er)); return {r ? OK : FAIL, r ? rec_text(r) : ""}; }));
    v.push_back(on_query("ask for details", [](Env &e, GError **er) -> Out { gchar *c = nullptr; libmsi_query_get_error(e.q, &c, er); std::string s = c ? c : "-"; g_free(c); return {er && *er ? FAIL : NONE, s}; }));
    // records
    v.push_back(set_stream("load 300 bytes of 300", 300, 300, false, false, GOOD));
    v.push_back(set_stream("load 200 bytes of 300", 300, 200, false, false, GOOD));
    v.push_back(set_stream("load 301 bytes of 300", 300, 301, false, false, BAD));
    v.push_back(set_stream("load 300 bytes of none", 0, 300, false, false, BAD));
    v.push_back(set_stream("load a closed stream", 300, 300, true, false, BAD));
    v.push_back(set_stream("load a stream, cancelled", 300, 300, false, true, EITHER));
    // summary information
    v.push_back(si_new("the summary information, to read", true, 0, GOOD));
    v.push_back(si_new("the summary information, to change", true, 2, GOOD));
    v.push_back(si_new("summary information of its own", false, 2, GOOD));
    v.push_back(get_type(2, GOOD)); v.push_back(get_type(21, BAD)); v.push_back(get_type(5, GOOD));
    v.push_back(get_str(2, GOOD)); v.push_back(get_str(12, BAD)); v.push_back(get_str(77, BAD)); v.push_back(get_str(3, BAD));
    v.push_back(get_int(14, BAD)); v.push_back(get_int(2, BAD));
    v.push_back(get_time(12, GOOD)); v.push_back(get_time(2, BAD));
    v.push_back(set_str(3, BAD)); v.push_back(set_str(2, GOOD)); v.push_back(set_str(2, BAD, nullptr)); v.push_back(set_str(14, BAD)); v.push_back(set_str(99, BAD));
    v.push_back(set_int(14, BAD)); v.push_back(set_int(3, BAD)); v.push_back(set_int(99, BAD));
    v.push_back(set_time(12, GOOD)); v.push_back(set_time(4, BAD));
    v.push_back(on_si("persist", [](Env &e, GError **er) { return yes(libmsi_summary_info_persist(e.si, er)); }, GOOD));
    v.back().reads = false;
    v.push_back(on_si("save", [](Env &e, GError **er) { return yes(libmsi_summary_info_save(e.si, e.d, er)); }, GOOD));
    v.back().reads = false;
    // exchange
    v.push_back(exporting("U", "U", "", O_WRONLY, GOOD));
    v.push_back(exporting("T", "T", "", O_WRONLY, GOOD));
    v.push_back(exporting("_SummaryInformation", "_SummaryInformation", "", O_WRONLY, GOOD));
    v.push_back(exporting("_ForceCodepage", "_ForceCodepage", "", O_WRONLY, GOOD));
    v.push_back(exporting("None", "None", "", O_WRONLY, BAD));
    v.push_back(exporting("U to a file opened for reading", "U", "", O_RDONLY, BAD));
    v.push_back(exporting("_SummaryInformation to a file opened for reading", "_SummaryInformation", "", O_RDONLY, BAD));
    v.push_back(exporting("_ForceCodepage to a file opened for reading", "_ForceCodepage", "", O_RDONLY, BAD));
    v.push_back(exporting("U to a full disk", "U", "/dev/full", O_WRONLY, BAD));
    v.push_back(import_text("a table", "A\tB\r\ns72\tI4\r\nI\tA\r\nx\t5\r\ny\t\r\n", GOOD));
    v.push_back(import_text("a codepage", "\r\n\r\n1252\t_ForceCodepage\r\n", GOOD));
    v.push_back(import_text("an unknown codepage", "\r\n\r\n99999999\t_ForceCodepage\r\n", BAD));
    v.push_back(import_text("summary information", "PropertyId\tValue\r\ni2\tl255\r\n_SummaryInformation\tPropertyId\r\n2\tsummary title\r\n14\t200\r\n", GOOD));
    v.push_back(import_text("summary information that is none", "PropertyId\tValue\r\ni2\tl255\r\n_SummaryInformation\tPropertyId\r\n14\tnumber\r\n", BAD));
    v.push_back(import_text("a row with a file that is not there", "A\tB\r\ns72\tv0\r\nI\tA\r\nx\tmissing.ibd\r\n", BAD));
    v.push_back(import_text("a table with two rows of a key", "A\tB\r\ns72\tI4\r\nJ\tA\r\nx\t5\r\nx\t6\r\n", EITHER));
    v.push_back(import_text("a type that is none", "A\tB\r\ns72\tQ4\r\nI\tA\r\nx\t5\r\n", BAD));
    v.push_back(import_text("a number that is none", "A\tB\r\ns72\tI4\r\nL\tA\r\nx\tten\r\n", BAD));
    v.push_back(import_text("a column without a type", "A\tB\r\ns72\r\nI\tA\r\nx\t5\r\n", BAD));
    v.push_back(import_text("a head that ends early", "A\tB\r\ns72\tI4\r\n", BAD));
    v.push_back(import_text("an empty file", "", BAD));
    v.push_back({"import no file", [](Env &e, GError **er) { return yes(libmsi_database_import(e.d, (e.dir + "/none").c_str(), er)); }, BAD, false, true});
    v.push_back({"import a directory", [](Env &e, GError **er) { return yes(libmsi_database_import(e.d, e.dir.c_str(), er)); }, BAD, false, true});
    v.push_back(merging("the same", &f.base, "E", GOOD));
    v.push_back(merging("the same without a table of conflicts", &f.base, nullptr, GOOD));
    v.push_back(merging("one in conflict", &f.other, "E", BAD));
    v.push_back(merging("one in conflict without a table of conflicts", &f.other, nullptr, BAD));
    v.push_back(merging("one with other columns", &f.odd, "E", BAD));
    v.push_back(transforming("the transform", &f.mst, GOOD));
    v.push_back(transforming("half a transform", &f.badmst, BAD));
    v.push_back(transforming("no file", nullptr, BAD));
    v.push_back(transforming("a file that is none", &garbage, BAD));
    v.push_back({"commit", [](Env &e, GError **er) { return yes(libmsi_database_commit(e.d, er)); }, GOOD, false, true});
    return v;
}
Env begin(Mode m, const std::string &dir) {
    Env e;
    e.dir = dir;
    clean(dir);
    std::string p = dir + "/d.msi", o = dir + "/d2.msi";
    if (m != CREATED) writefile(p, files().base);
    if (m == CUT) { std::string b = files().base; size_t at = b.size() / 3 / 512 * 512; b.replace(at, 512, 512, '\0'); writefile(p, b); }
    if (m == BADPOOL || m == BADSUMMARY) {
        // a file of another writer, with a stream of other bytes
        Database d = transformed();
        d.tables["U"].cols = {{"P", 0xd00 | 0x2000 | 0x200 | 20}, {"Q", 0x502 | 0x2000}, {"R", 0xd00 | 0x1000}};
        d.row("U", {Val::S("p1"), Val::I(1), Val::S("text")});
        Cfb x;
        package(d, 2, 0, &x);
        if (m == BADSUMMARY) x.raw("\5SummaryInformation", std::string(40, '\x55'));
        else for (auto &t : x.streams) if (t.name == encoded("_StringPool", true)) t.data.replace(4, 2, "\x55\x7f");
        writefile(p, x.bytes());
    }
    GError *er = nullptr;
    if (m == BESIDE) e.d = Db(libmsi_database_new(p.c_str(), LIBMSI_DB_FLAGS_TRANSACT, o.c_str(), &er));
    else e.d = open(p, m == READONLY ? LIBMSI_DB_FLAGS_READONLY : m == CREATED ? LIBMSI_DB_FLAGS_CREATE : LIBMSI_DB_FLAGS_TRANSACT);
    g_clear_error(&er);
    if (!e.d) return e;
    if (m == CREATED) start(e.d, false);
    if (m == COMMITTED) { exec(e.d, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('more',?)", {Val::B("more")}); commit(e.d); }
    if (m == DROPPED) exec(e.d, "DROP TABLE `T`");
    e.r = Rec(libmsi_record_new(2));
    e.si = Si(libmsi_summary_info_new(e.d, 0, nullptr));
    return e;
}

struct Fault { int what = -1; long v = 0; };
Out limited(Env &e, const Call &k, const Fault &f, GError **er) {
    if (f.what < 0) return k.run(e, er);
    Limit l(f.what, f.what == RLIMIT_NOFILE ? lowest() + f.v : f.v);
    return k.run(e, er);
}
// one call with the reason asked for: what it returned agrees with the reason
Out asked(mc::Ctx &c, Env &e, const Call &k, const Fault &f) {
    GError *er = nullptr;
    Out o = limited(e, k, f, &er);
    std::string what = er ? fmt("%s %d '%s'", g_quark_to_string(er->domain), er->code, er->message ? er->message : "(none)") : "no reason";
    bool empty = er && er->domain == LIBMSI_RESULT_ERROR && er->code == LIBMSI_RESULT_SUCCESS && er->message && !strcmp(er->message, "Empty property");
    bool known = !er || er->domain == LIBMSI_RESULT_ERROR || er->domain == LIBMSI_DB_ERROR || er->domain == G_IO_ERROR;
    bool good = !er || empty || (er->code || er->domain == G_IO_ERROR), text = !er || (er->message && *er->message);
    bool have = er;
    g_clear_error(&er);
    if (o.k == OK && have) c.fail("succeeds " + k.name, k.name + " succeeded, and yet gives a reason: " + what);
    if (o.k == NONE && have) c.fail("none " + k.name, k.name + " returned nothing, and yet gives a reason: " + what);
    if (o.k == FAIL && !have) c.fail("silent " + k.name, k.name + " failed without a reason");
    if (!known || !good || !text) c.fail("reason " + k.name, k.name + " failed with a reason that is none: " + what);
    return o;
}
// what a program can tell apart without asking for the reason
std::string plain(const Out &o) { return fmt("%d ", o.k == OK ? 1 : o.k == SKIP ? 2 : 0) + o.text; }

// a commit that something prevents: the ways, and the call (BAD: it cannot succeed)
enum { NO_FILES, ONE_FILE, TWO_FILES, THREE_FILES, NO_BYTES, FEW_BYTES, SOME_BYTES, MANY_BYTES, LETTERS, NO_DIRECTORY, SHORT_FILE, EMPTY_FILE, OTHER_FILE, TROUBLES };
const char *trouble_name[] = {"no file can be opened", "one more file can be opened", "two more files can be opened", "three more files can be opened", "no byte can be written", "few bytes can be written", "some bytes can be written", "many bytes can be written", "a string that the codepage does not have", "the file's directory is gone", "the file has become short", "the file has become empty", "the file's bytes have been overwritten"};
Call prevented(int t) {
    return {fmt("commit while %s", trouble_name[t]), [t](Env &e, GError **er) -> Out {
        std::string p = e.dir + "/d.msi", was = readfile(p).value_or("");
        // a large stream and a storage with one, so that every part of the file needs room
        exec(e.d, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('large',?)", {Val::B(std::string(40000, 'l'))});
        exec(e.d, "INSERT INTO `_Storages` (`Name`,`Data`) VALUES ('another',?)", {Val::B(files().other)});
        bool ok = false;
        auto commit = [&] { ok = libmsi_database_commit(e.d, er); };
        if (t <= THREE_FILES) { Limit l(RLIMIT_NOFILE, t == NO_FILES ? 3 : lowest() + t - ONE_FILE - 1); commit(); }
        else if (t <= MANY_BYTES) { static const long b[] = {0, 700, 9000, 45000}; Limit l(RLIMIT_FSIZE, b[t - NO_BYTES]); commit(); }
        else if (t == LETTERS) {
            file(e, "_ForceCodepage.idt", "\r\n\r\n1252\t_ForceCodepage\r\n");
            libmsi_database_import(e.d, (e.dir + "/_ForceCodepage.idt").c_str(), nullptr);
            exec(e.d, "CREATE TABLE `Letters` (`A` CHAR(8) PRIMARY KEY `A`)");
            exec(e.d, "INSERT INTO `Letters` (`A`) VALUES ('\xe6\xbc\xa2')");
            commit();
        } else if (t == NO_DIRECTORY) {
            std::string away = e.dir + ".away";
            if (rename(e.dir.c_str(), away.c_str())) return {SKIP, ""};
            commit();
            rename(away.c_str(), e.dir.c_str());
        } else {
            if (was.empty()) return {SKIP, ""};
            int fd = ::open(p.c_str(), O_WRONLY);
            if (fd < 0) return {SKIP, ""};
            std::string bad(was.size(), '\0');
            if (t == SHORT_FILE) (void)!ftruncate(fd, was.size() / 2);
            else if (t == EMPTY_FILE) (void)!ftruncate(fd, 0);
            else (void)!pwrite(fd, bad.data(), bad.size(), 0);
            close(fd);
            commit();
        }
        return {ok ? OK : FAIL, ""};
    }, t == NO_BYTES || t == FEW_BYTES || t == SOME_BYTES || t == LETTERS || t == NO_DIRECTORY || t == EMPTY_FILE ? BAD : EITHER, false, true};
}

struct Trail { std::vector<Out> outs; std::string snap, file; };
Trail play(mc::Ctx &c, Mode m, const std::vector<const Call *> &w, bool ask, bool watch, Fault f = {}) {
    Trail t;
    Env e = begin(m, c.scratch);
    if (!e.d) return t;
    for (auto k : w) {
        std::string before, after;
        bool quiet = watch && ask && !k->touches && m != CUT && m != BADPOOL && m != BADSUMMARY;
        if (quiet) before = str(snap(e.d));
        Fault now = k == w.back() ? f : Fault{};
        Out o = ask ? asked(c, e, *k, now) : limited(e, *k, now, nullptr);
        if (quiet && (k->reads || o.k == FAIL) && (after = str(snap(e.d))) != before)
            c.fail("changed " + k->name, k->name + (o.k == FAIL ? " failed" : " only reads") + " and changed the database\n" + before + "became\n" + after);
        t.outs.push_back(o);
    }
    t.snap = str(snap(e.d));
    e.q.reset(); e.r.reset(); e.si.reset(); e.d.reset();
    t.file = std::to_string(mc::hash64(readfile(c.scratch + "/d.msi").value_or("none"))) + " " + std::to_string(readfile(c.scratch + "/d2.msi").has_value());
    clean(c.scratch);
    return t;
}
Trail twin(mc::Ctx &c, Mode m, const std::vector<const Call *> &w, bool watch = true, Fault f = {}) {
    c.step(fmt("a database %s", mode_name[m]));
    for (auto k : w) c.step(k->name);
    Trail a = play(c, m, w, true, watch, f), b = play(c, m, w, false, watch, f);
    std::string last = w.back()->name;
    for (size_t i = 0; i < a.outs.size(); i++) {
        // a value that comes with no reason asked for is the one that comes with it
        if (a.outs[i].text != b.outs[i].text || (a.outs[i].k == OK && b.outs[i].k == FAIL) || (a.outs[i].k == FAIL && b.outs[i].k == OK))
            c.fail("differs " + w[i]->name, w[i]->name + " returns another result when no reason is asked for\n" + plain(a.outs[i]) + "\n" + plain(b.outs[i]));
    }
    if (a.snap != b.snap) c.fail("content " + last, "the content depends on whether reasons are asked for\n" + a.snap + "\n" + b.snap);
    std::string s = mode_name[m];
    for (size_t i = 0; i < a.outs.size(); i++) s += fmt(" %d", a.outs[i].k) + w[i]->name;
    c.state(s);
    if (!a.outs.empty() && a.outs.back().k == FAIL) c.nontrivial();
    return a;
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C31";
    chk.technique = "bounded-exhaustive enumeration of sequences of public calls on the real library, each run with and without an error argument under a monitor of results, reasons and content";
    chk.rule = "a call that fails gives a reason of a known kind, one that succeeds gives none, and neither depends on being asked; reads and failed statements change nothing; non-trivial: the last call failed";
    static std::vector<Call> cs = calls();
    static uint64_t n = cs.size();
    static uint64_t nc = 0;
    chk.setup = [](bool) { make_files(); cs = calls(); };
    chk.bounds = fmt("%d calls, in %d states of a database; all pairs of them %s; all sequences of %d of the calls that make, use or disturb an open query; every call with 0 to 11 descriptors left, and with every limit on the size of files in steps of 512 bytes up to 20 KB; every call between a commit prevented in 13 ways and another commit", (int)n, (int)MODES, thorough ? "in every state" : "on a database opened for changes", thorough ? 5 : 4);
    chk.spaces.push_back({"single", "every call on a database in every state", n * MODES, [](mc::Ctx &c, uint64_t i) {
        Mode m = (Mode)(i / n);
        auto &k = cs[i % n];
        Trail t = twin(c, m, {&k});
        if (t.outs.empty()) return;
        Outcome o = t.outs[0].k;
        if (FILE *f = getenv("C31_SHOW") ? fopen(getenv("C31_SHOW"), "a") : nullptr) fprintf(f, "%d %-60s %s\n", m, k.name.c_str(), o == OK ? "ok" : o == FAIL ? "fail" : o == NONE ? "none" : "skip"), fclose(f);
        if (m != TRANSACT && m != BESIDE && m != COMMITTED && m != CREATED) return;
        if (k.expect == GOOD && o != OK && o != SKIP) c.fail("refused " + k.name, k.name + " failed");
        if (k.expect == BAD && o == OK) c.fail("accepted " + k.name, k.name + " succeeded");
    }});
    chk.spaces.push_back({"pairs", "every call after every call on a database opened for changes (thorough: in every state)", n * n * (thorough ? MODES : 1), [](mc::Ctx &c, uint64_t i) {
        twin(c, (Mode)(i / (n * n)), {&cs[i / n % n], &cs[i % n]}, false);
    }});
    // histories of an open query
    static std::vector<int> some;
    for (size_t i = 0; i < cs.size(); i++) for (auto w : {"execute with", "execute", "fetch", "close", "column names", "query SELECT `K`,`S`", "query INSERT", "query SELECT `Name`,`Data`", "query SELECT DISTINCT", "DROP TABLE", "DELETE FROM `T` WHERE `K`", "UPDATE `T` SET `S`", "commit", "apply the", "import a table"}) if (!cs[i].name.rfind(w, 0)) { some.push_back(i); break; }
    static uint64_t m = some.size();
    chk.spaces.push_back({"open", fmt("every %s of %d calls that make, use and disturb an open query", thorough ? "five" : "four", (int)m), 4 * m * m * m * (thorough ? m : 1), [](mc::Ctx &c, uint64_t i) {
        static std::vector<int> q;
        if (q.empty()) for (int k : some) if (!cs[k].name.rfind("query ", 0)) q.push_back(k);
        std::vector<const Call *> w = {&cs[q[i % 4]]};
        i /= 4;
        for (int k = 0; k < (c.thorough ? 4 : 3); k++, i /= m) w.push_back(&cs[some[i % m]]);
        twin(c, TRANSACT, w, false);
    }});
    static const uint64_t nf = 12, ns = 40;
    chk.spaces.push_back({"descriptors", "every call that can open only so many files", n * nf * 3, [](mc::Ctx &c, uint64_t i) {
        Mode m = i / (n * nf) == 0 ? TRANSACT : i / (n * nf) == 1 ? CREATED : BESIDE;
        auto &k = cs[i % n];
        c.step(fmt("%d more descriptors", (int)(i / n % nf)));
        Trail t = twin(c, m, {&k}, false, {RLIMIT_NOFILE, (long)(i / n % nf)});
        if (!t.outs.empty() && k.expect == BAD && t.outs[0].k == OK) c.fail("accepted " + k.name, k.name + " succeeded");
    }});
    chk.spaces.push_back({"full", "every call, and a commit after every call, that can write only so many bytes to a file", n * ns * 2, [](mc::Ctx &c, uint64_t i) {
        auto &k = cs[i % n];
        c.step(fmt("%d bytes", (int)(512 * (i / n % ns))));
        if (i / (n * ns)) twin(c, TRANSACT, {&k, &cs[n - 1]}, false, {RLIMIT_FSIZE, (long)(512 * (i / n % ns))});
        else twin(c, TRANSACT, {&k}, false, {RLIMIT_FSIZE, (long)(512 * (i / n % ns))});
    }});
    // fetching where there is nothing to fetch from
    static const std::vector<std::pair<const char *, bool>> fq = {{"SELECT `K`,`S` FROM `T` WHERE `K` < 9", true}, {"SELECT DISTINCT `S` FROM `T`", true}, {"SELECT `K` FROM `T` ORDER BY `K`", true}, {"SELECT `T`.`K`,`U`.`P` FROM `T`,`U` WHERE `T`.`K` = `U`.`Q`", true},
        {"INSERT INTO `T` (`K`,`S`) VALUES (60,'x')", false}, {"UPDATE `T` SET `S` = 'x' WHERE `K` = 1", false}, {"CREATE TABLE `Fresh` (`A` SHORT NOT NULL PRIMARY KEY `A`)", false}, {"ALTER TABLE `T` ADD `Fresh` SHORT", false}};
    chk.spaces.push_back({"fetch", "fetching from queries that were not executed and from statements without rows", fq.size() * 2 * MODES, [](mc::Ctx &c, uint64_t i) {
        Mode m = (Mode)(i / 2 / fq.size());
        if (m == CUT || m == BADPOOL || m == DROPPED) return;
        auto &q = fq[i / 2 % fq.size()];
        bool run = i & 1;
        Env e = begin(m, c.scratch);
        if (!e.d) return;
        c.step(fmt("a database %s; %s%s, fetch", mode_name[m], q.first, run ? ", execute" : ""));
        Query v(libmsi_query_new(e.d, q.first, nullptr));
        if (!v) return;
        if (run && !libmsi_query_execute(v, nullptr, nullptr)) return;
        GError *er = nullptr;
        Rec r(libmsi_query_fetch(v, &er));
        bool failed = er;
        g_clear_error(&er);
        Rec again(failed ? libmsi_query_fetch(v, nullptr) : nullptr);
        if (r && failed) c.fail("succeeds fetch", "a row, and yet a reason");
        if (again) c.fail("differs fetch", "a row when no reason is asked for");
        bool should = q.second ? !run : true;
        if (should && !r && !failed) c.fail("silent fetch", std::string(q.first) + (run ? " executed" : " not executed") + ": there is nothing to fetch from, which looks like the end of the rows");
        if (!should && failed) c.fail("refused fetch", q.first);
        c.state(fmt("%d %d %d", (int)m, (int)(i / 2 % fq.size()), (int)run));
        if (failed) c.nontrivial();
    }});
    // the streams of records: reading, skipping and seeking, also when the file behind them is cut
    static const uint64_t ops = 16, cuts = 14;
    chk.spaces.push_back({"streams", "every pair of operations on a stream of a row or of a record whose file may have become short", 4 * cuts * ops * ops, [](mc::Ctx &c, uint64_t i) {
        int src = i % 4, cut = i / 4 % cuts, op[2] = {(int)(i / 4 / cuts % ops), (int)(i / 4 / cuts / ops)};
        std::string was;
        for (int ask = 0; ask < 2; ask++) {
            Env e = begin(TRANSACT, c.scratch);
            std::string data, path = e.dir + "/d.msi";
            Rec r;
            if (src < 2) {
                Query q(libmsi_query_new(e.d, src ? "SELECT `D` FROM `T` WHERE `K` = 1" : "SELECT `Data` FROM `_Streams` WHERE `Name` = 'plain'", nullptr));
                libmsi_query_execute(q, nullptr, nullptr);
                r = Rec(libmsi_query_fetch(q, nullptr));
                data = src ? "object one" : std::string(5000, 'p');
            } else {
                r = Rec(libmsi_record_new(1));
                data = src == 2 ? "loaded" : std::string(9000, 'l');
                path = file(e, "loaded", data);
                libmsi_record_load_stream(r, 1, path.c_str());
            }
            if (!r) c.fail("no stream", "the stream is not there");
            GInputStream *in = libmsi_record_get_stream(r, 1);
            if (!in) c.fail("no stream", "the stream cannot be had");
            size_t size = readfile(path).value_or("").size(), to = cut == cuts - 1 ? size : size * cut / (cuts - 1);
            if (to < size && ::truncate(path.c_str(), to)) {}
            if (!ask) c.step(fmt("stream %d of a file cut to %zu of %zu bytes", src, to, size));
            size_t pos = 0;
            std::string seen;
            for (int k : op) {
                static const long len[] = {0, 1, 600, 5000, 20000};
                static const long off[] = {-1, 0, 3, 5000, 20000};
                GError *er = nullptr, **ep = ask ? &er : nullptr;
                std::string name;
                bool bad = false;
                if (k < 5) {
                    std::string b(len[k], '?');
                    gssize n = g_input_stream_read(in, &b[0], len[k], nullptr, ep);
                    name = "read";
                    bad = n < 0;
                    if (n > 0) { if (data.compare(pos, n, b, 0, n) && to == size) c.fail("wrong bytes", fmt("read of %ld at %zu", len[k], pos)); pos += n; }
                    if (!n && len[k] && pos < data.size()) c.fail("end too early", fmt("at %zu of %zu", pos, data.size()));
                    seen += fmt("read %ld;", (long)n);
                } else if (k < 10) {
                    gssize n = g_input_stream_skip(in, len[k - 5], nullptr, ep);
                    name = "skip";
                    bad = n < 0;
                    if (n > 0) pos += n;
                    seen += fmt("skip %ld;", (long)n);
                } else if (k < 15) {
                    long o = off[k - 10];
                    bool ok = g_seekable_seek(G_SEEKABLE(in), o, G_SEEK_SET, nullptr, ep);
                    name = "seek";
                    bad = !ok;
                    if (ok && (o < 0 || o > (long)data.size())) c.fail("seek outside", fmt("to %ld of %zu", o, data.size()));
                    if (ok) pos = o;
                    else if (o >= 0 && o <= (long)data.size() && to == size) c.fail("seek refused", fmt("to %ld of %zu", o, data.size()));
                    seen += fmt("seek %d;", (int)ok);
                } else {
                    name = "truncate";
                    bad = !g_seekable_truncate(G_SEEKABLE(in), 0, nullptr, ep);
                    if (!bad) c.fail("truncated", "an input stream was truncated");
                    seen += "truncate;";
                }
                if (!ask) c.step(name);
                if (ask && bad && (!er || !er->message || !*er->message)) c.fail("silent " + name, name + " of a stream failed without a reason");
                if (ask && !bad && er) c.fail("succeeds " + name, name + " of a stream succeeded with a reason");
                g_clear_error(&er);
                if (bad) c.nontrivial();
            }
            g_object_unref(in);
            if (ask && seen != was) c.fail("differs stream", was + " / " + seen);
            was = seen;
            r.reset(); e.r.reset(); e.si.reset(); e.d.reset();
            clean(c.scratch);
        }
        c.state(fmt("%d %d ", src, cut) + was);
    }});
    // a commit that cannot be done, and what every call says after it
    static const uint64_t nt = (uint64_t)TROUBLES * 3;
    chk.spaces.push_back({"troubled", "every call after a commit that is prevented in each of several ways, and another commit", n * nt, [](mc::Ctx &c, uint64_t i) {
        int t = i / n % TROUBLES;
        Mode m = i / n / TROUBLES == 0 ? TRANSACT : i / n / TROUBLES == 1 ? CREATED : BESIDE;
        Call k = prevented(t);
        c.step(trouble_name[t]);
        Trail r = twin(c, m, {&k, &cs[i % n], &cs[n - 1]}, false);
        if (!r.outs.empty() && r.outs[0].k == OK && k.expect == BAD) c.fail("accepted " + k.name, k.name + " succeeded");
    }});
    return mc::run(chk, argc, argv);
}
