// C14: applying a transform yields exactly the database it describes.
#include "msiwrite.hpp"
#include "msiread.hpp"
using namespace msiwrite;

namespace {
constexpr int SHORT = 0x502, LONG = 0x104, LCHAR = 0xd00, OBJ = 0x900, NULLABLE = 0x1000, KEY = 0x2000, LOC = 0x200;
constexpr int CHARN(int n) { return 0xd00 | n; }
int apply_tr(LibmsiDatabase *db, const std::string &p) { GError *e = nullptr; gboolean ok = libmsi_database_apply_transform(db, p.c_str(), &e); return code(ok, e); }
std::string style_name(const Style &s) { return fmt("%s, ids of %d bytes, %s order%s", s.change == 0 ? "changed cells" : s.change == 1 ? "all non-key cells" : "whole rows", s.width, s.reverse ? "reverse" : "key", s.numbers ? ", numbered columns" : ""); }
// streams of rows that are gone may stay behind
void compare(mc::Ctx &c, LibmsiDatabase *db, const Database &want, const Database &from, const std::string &when) {
    Snap s = snap(db, false), w = snap_of(want);
    if (!s.error.empty()) c.fail("unreadable", when + ": " + s.error);
    for (auto &x : from.streams) if (!w.streams.count(x.first)) s.streams.erase(x.first);
    if (!(s == w)) {
        const char *sig = s.columns != w.columns ? "columns" : s.tables != w.tables ? "tables" : s.streams != w.streams ? "streams" : "other";
        c.fail(sig, when + ":\n" + diff(w, s));
    }
}
void file_is(mc::Ctx &c, const std::string &p, const Database &want, const Database &from) {
    {
        Db r = open(p, LIBMSI_DB_FLAGS_READONLY);
        if (!r) c.fail("reopen", "the committed database does not open");
        compare(c, r, want, from, "after commit and reopen");
    }
    try { msiread::read(readfile(p).value_or("")); }
    catch (msiread::Err &e) { c.fail("file", e.what); }
}
// apply the transform from a to b and compare; handle: 0 as built, uncommitted;
// 1 opened from a file libmsi wrote; 2 opened from a file the independent writer wrote;
// 3 with a query over each table open; 4 changes of tables and columns read before
void check(mc::Ctx &c, const Database &a, const Database &b, const Style &st, int handle, bool store = true) {
    static const char *hn[] = {"built in this session", "opened from libmsi's file", "opened from an independent file", "with open queries", "with all tables read"};
    c.step("database " + str(snap_of(a)) + "target " + str(snap_of(b)) + style_name(st) + ", " + hn[handle]);
    clean(c.scratch);
    std::string p = c.scratch + "/a.msi", t = c.scratch + "/t.mst";
    Cfb x = transform(a, b, st);
    x.raw("\5SummaryInformation", transform_summary());
    writefile(t, x.bytes());
    Db db;
    std::vector<Query> qs;
    if (handle == 2) writefile(p, package(a, st.width, st.codepage));
    else {
        db = open(p, LIBMSI_DB_FLAGS_CREATE);
        if (st.codepage) { writefile(c.scratch + "/cp", fmt("\r\n\r\n%d\t_ForceCodepage\r\n", st.codepage)); import_table(db, c.scratch + "/cp"); }
        if (int e = build(db, a)) c.fail("build", fmt("%d", e));
        Si si(libmsi_summary_info_new(db, 5, nullptr));
        libmsi_summary_info_set_string(si, LIBMSI_PROPERTY_TITLE, "the database", nullptr);
        libmsi_summary_info_persist(si, nullptr);
    }
    if (handle == 1) { if (int e = commit(db)) c.fail("first-commit", fmt("%d", e)); db.reset(); }
    if (!db) { db = open(p, LIBMSI_DB_FLAGS_TRANSACT); if (!db) c.fail("open", "the database does not open"); }
    if (handle >= 3) for (auto &y : a.tables) {
        Query q(libmsi_query_new(db, ("SELECT * FROM `" + y.first + "`").c_str(), nullptr));
        if (q) libmsi_query_execute(q, nullptr, nullptr);
        if (handle == 3 && q) qs.push_back(std::move(q));
        else if (q) libmsi_query_close(q, nullptr);
    }
    Snap before = snap(db);
    compare(c, db, a, a, "before");
    if (int e = apply_tr(db, t)) c.fail("refused", fmt("apply gives %d", e));
    compare(c, db, b, a, "after apply");
    if (before.summary != snap(db).summary) c.fail("summary", "the summary information changed");
    qs.clear();
    compare(c, db, b, a, "after closing the queries");
    c.state(str(snap(db)));
    if (!(snap_of(a) == snap_of(b))) c.nontrivial();
    // the rows are found by condition, and usable
    for (auto &y : b.tables) {
        int nk = y.second.nkeys();
        for (auto &r : y.second.rows) {
            std::string s = "SELECT * FROM `" + y.first + "` WHERE ";
            Row par;
            for (int i = 0; i < nk; i++) {
                s += (i ? " AND `" : "`") + y.second.cols[i].name + (r.first[i].k == Val::NUL ? "` IS NULL" : "` = ?");
                if (r.first[i].k != Val::NUL) par.push_back(r.first[i]);
            }
            Res q = query(db, s, par);
            if (!q.ok() || q.rows.size() != 1 || !(q.rows[0] == r.second)) c.fail("lookup", s + " finds " + show(q.rows) + fmt(" %d", q.err));
        }
    }
    if (!store) return;
    if (int e = commit(db)) c.fail("commit", fmt("commit gives %d", e));
    compare(c, db, b, a, "after commit");
    db.reset();
    file_is(c, p, b, a);
}
// the value tables of one column type
std::vector<Val> values(int type, bool thorough) {
    std::vector<Val> v;
    if (is_bin(type)) v = {Val::B("first"), Val::B(std::string(5000, 'b')), Val::B(std::string(1, '\0'))};
    else if (is_str(type)) {
        v = {Val::S("x"), Val::S("d\xc3\xa9j\xc3\xa0"), Val::S(std::string(200, 'y')), Val::S("a\tb\nc"), Val::S("Base")};
        if (thorough) v.push_back(Val::S(std::string(70000, 'z')));
    } else if ((type & 0xff) == 4) v = {Val::I(0), Val::I(1), Val::I(-1), Val::I(2147483647), Val::I(-2147483647), Val::I(65536), Val::I(-32768), Val::I(32768)};
    else v = {Val::I(0), Val::I(1), Val::I(-1), Val::I(32767), Val::I(-32767), Val::I(256), Val::I(255), Val::I(-256)};
    if (type & NULLABLE) v.push_back(Val::N());
    return v;
}
const int TYPES[] = {SHORT, SHORT | NULLABLE, LONG, LONG | NULLABLE, CHARN(200), CHARN(200) | NULLABLE, LCHAR | NULLABLE, LCHAR | LOC, OBJ, OBJ | NULLABLE};
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C14";
    chk.technique = "bounded-exhaustive enumeration of pairs of databases: the transform between them comes from an independent writer, is applied by the real library and the outcome compared with the target";
    chk.rule = "after applying, after commit and on reopening the database shows exactly the target; non-trivial: target and database differ";
    chk.bounds = fmt("all pairs of contents of 3 keys x %d row states under 7 key forms and %d styles; all subsets of 9 changes to a database x %d styles x 5 handle states; boundary values of 10 column types x insert, modify; 1..32 columns; sequences of %d transforms and changes", thorough ? 4 : 3, thorough ? 12 : 4, thorough ? 8 : 2, thorough ? 4 : 3);
    static int nv;
    nv = thorough ? 4 : 3;
    static const char *forms[] = {"integer key", "string key", "two keys", "object", "nullable keys", "object of nullable keys", "long key"};
    static auto tab = [](int form) {
        Tab t;
        switch (form) {
        case 0: t.cols = {{"K", SHORT | KEY}, {"S", CHARN(20) | NULLABLE}, {"N", SHORT | NULLABLE}}; break;
        case 1: t.cols = {{"K", CHARN(20) | KEY}, {"S", LCHAR | NULLABLE}, {"N", LONG | NULLABLE}}; break;
        case 2: t.cols = {{"K", SHORT | KEY}, {"L", CHARN(20) | KEY}, {"N", LONG | NULLABLE}, {"S", LCHAR | LOC | NULLABLE}}; break;
        case 3: t.cols = {{"K", SHORT | KEY}, {"D", OBJ | NULLABLE}, {"N", SHORT | NULLABLE}}; break;
        case 4: t.cols = {{"K", CHARN(20) | KEY | NULLABLE}, {"L", SHORT | KEY | NULLABLE}, {"N", LONG | NULLABLE}, {"S", CHARN(9) | NULLABLE}}; break;
        case 5: t.cols = {{"K", CHARN(20) | KEY | NULLABLE}, {"L", SHORT | KEY}, {"M", CHARN(20) | KEY | NULLABLE}, {"D", OBJ | NULLABLE}}; break;
        default: t.cols = {{"K", LONG | KEY}, {"S", CHARN(255) | NULLABLE}, {"N", LONG}}; break;
        }
        return t;
    };
    static auto fillrow = [](Database &d, int form, int key, int v) {
        static const char *sk[] = {"a", "it's", "A"};
        Row r;
        switch (form) {
        case 0: r = {Val::I(key - 1), v == 1 ? Val::S("one") : v == 2 ? Val::N() : Val::S("it's"), v == 1 ? Val::I(1) : v == 2 ? Val::I(0) : Val::I(1)}; break;
        case 1: r = {Val::S(sk[key]), v == 1 ? Val::S("a") : v == 2 ? Val::S("two") : Val::N(), v == 1 ? Val::I(70000) : v == 2 ? Val::N() : Val::I(-1)}; break;
        case 2: r = {Val::I(key / 2), Val::S(sk[key % 2]), v == 1 ? Val::I(0) : Val::N(), v == 2 ? Val::S("x") : Val::N()}; break;
        case 3: r = {Val::I(key), v == 1 ? Val::B("one") : v == 2 ? Val::B("two, which is longer") : Val::N(), v == 3 ? Val::I(1) : Val::N()}; break;
        case 4: r = {key == 0 ? Val::N() : Val::S("k"), key == 1 ? Val::N() : Val::I(5), v == 1 ? Val::I(-1) : Val::N(), v == 2 ? Val::N() : Val::S("z")}; break;
        case 5: r = {key == 0 ? Val::N() : Val::S("k"), Val::I(key), key == 2 ? Val::N() : Val::S("m"), v == 1 ? Val::B("one") : v == 2 ? Val::B("two, which is longer") : Val::N()}; break;
        default: r = {Val::I(key == 0 ? -2147483647 : key == 1 ? 2147483647 : 32768), v == 1 ? Val::S("65536") : Val::N(), v == 2 ? Val::I(0) : Val::I(-5)}; break;
        }
        d.row("T", r);
    };
    uint64_t per = (uint64_t)nv * nv * nv;
    chk.spaces.push_back({"rows", "every pair of table contents x key form x style of transform", per * per * 7 * (thorough ? 12 : 4), [per, thorough](mc::Ctx &c, uint64_t i) {
        int ns = thorough ? 12 : 4, form = i % 7, style = i / 7 % ns;
        uint64_t pair = i / 7 / ns, n[2] = {pair % per, pair / per};
        if (!thorough) style = (style * 3 + pair + form) % 12;
        Database d[2];
        for (int k = 0; k < 2; k++) {
            d[k].tables["T"] = tab(form);
            for (int key = 0; key < 3; key++) { if (int v = n[k] % nv) fillrow(d[k], form, key, v); n[k] /= nv; }
        }
        // the streams of rows without object stay
        if (form == 3 || form == 5) for (auto &s : d[0].streams) if (!d[1].streams.count(s.first)) d[1].streams[s.first] = s.second;
        Style st;
        st.change = style % 3;
        st.width = style / 3 % 2 ? 3 : 2;
        st.reverse = style / 6;
        c.step(forms[form]);
        check(c, d[0], d[1], st, pair % 2 ? 2 : 0, i % 5 == 0);
    }});
    static const int NOPS = 9;
    chk.spaces.push_back({"changes", "every subset of nine changes to a database of four tables x style x handle", (1ull << NOPS) * (thorough ? 40 : 10), [thorough](mc::Ctx &c, uint64_t i) {
        uint64_t ops = i / (thorough ? 40 : 10);
        int handle = i % 5, style = thorough ? i / 5 % 8 : (ops + i / 5 * 5 + handle * 3) % 8;
        Database a;
        for (auto n : {"Alpha", "Beta", "Gamma"}) {
            a.tables[n].cols = {{"Key", CHARN(72) | KEY}, {"Num", SHORT | NULLABLE}, {"Text", LCHAR | LOC | NULLABLE}};
            a.row(n, {Val::S("one"), Val::I(1), Val::S(std::string("text of ") + n)});
            a.row(n, {Val::S("two"), Val::N(), Val::S("shared")});
            a.row(n, {Val::S("three"), Val::I(-3), Val::N()});
        }
        a.tables["Binary"].cols = {{"Name", CHARN(72) | KEY}, {"Data", OBJ}};
        a.row("Binary", {Val::S("icon"), Val::B("icon data")});
        a.row("Binary", {Val::S("dll"), Val::B(std::string(6000, 'd'))});
        a.streams["plain"] = "plain stream";
        a.streams["media.cab"] = std::string(4096, 'c');
        Database b = a;
        if (ops & 1) {      // rows of every kind
            b.row("Alpha", {Val::S("one"), Val::I(1), Val::S("changed")});
            b.row("Alpha", {Val::S("four"), Val::I(4), Val::S("shared")});
            b.tables["Alpha"].rows.erase({Val::S("two")});
        }
        if (ops & 2) {      // a new table with rows
            b.tables["Delta"].cols = {{"A", SHORT | KEY}, {"B", CHARN(10) | KEY | NULLABLE}, {"C", LONG}, {"D", LCHAR | NULLABLE}};
            b.row("Delta", {Val::I(1), Val::N(), Val::I(100000), Val::S("text of Alpha")});
            b.row("Delta", {Val::I(1), Val::S("two"), Val::I(-1), Val::N()});
        }
        if (ops & 4) b.tables["Empty"].cols = {{"A", LONG | KEY}, {"B", OBJ | NULLABLE}};
        if (ops & 8) b.tables.erase("Beta");
        if (ops & 16) {     // one new column, filled in one row
            b.tables["Gamma"].cols.push_back({"Extra", LONG | NULLABLE});
            for (auto &r : b.tables["Gamma"].rows) r.second.push_back(Val::N());
            b.row("Gamma", {Val::S("one"), Val::I(1), Val::S("text of Gamma"), Val::I(-70000)});
        }
        if (ops & 32) {     // two more columns, and a new row
            int n = b.tables["Alpha"].cols.size();
            b.tables["Alpha"].cols.push_back({"X", CHARN(5) | NULLABLE});
            b.tables["Alpha"].cols.push_back({"Y", SHORT | NULLABLE});
            for (auto &r : b.tables["Alpha"].rows) r.second.resize(n + 2);
            b.row("Alpha", {Val::S("nine"), Val::I(9), Val::N(), Val::S("x"), Val::I(0)});
        }
        if (ops & 64) { b.row("Binary", {Val::S("icon"), Val::B("new icon")}); b.row("Binary", {Val::S("exe"), Val::B("MZ")}); }
        if (ops & 128) { b.streams["plain"] = std::string(5000, 'P'); b.streams["more.cab"] = "more"; }
        if (ops & 256) { b.tables["Binary"].rows.erase({Val::S("dll")}); b.streams["Binary.dll"] = a.streams["Binary.dll"]; b.tables["Gamma"].rows.erase({Val::S("two")}); }
        Style st;
        st.change = style % 2;
        st.width = style & 2 ? 3 : 2;
        st.numbers = style & 4;
        check(c, a, b, st, handle, i % 3 == 0);
    }});
    uint64_t nt = sizeof TYPES / sizeof *TYPES;
    chk.spaces.push_back({"values", "every pair of types of the two value columns x every pair of their boundary values x inserted, changed, both in a new table x codepage", nt * nt * 81 * 3 * (thorough ? 2 : 1), [nt, thorough](mc::Ctx &c, uint64_t i) {
        int how = i % 3, cp = thorough ? i / 3 % 2 : i / 3 % 5 < 2;
        uint64_t n = i / (thorough ? 6 : 3);
        int ta = TYPES[n / 81 % nt], tb = TYPES[n / 81 / nt];
        auto va = values(ta, thorough), vb = values(tb, thorough);
        if (n % 9 >= va.size() || n / 9 % 9 >= vb.size()) return;
        if (is_bin(ta) && is_bin(tb)) return;       // they share one stream
        Val x = va[n % 9], y = vb[n / 9 % 9];
        Database a, b;
        a.tables["Base"].cols = {{"K", SHORT | KEY}, {"Q", CHARN(50) | NULLABLE}};
        a.row("Base", {Val::I(1), Val::S("untouched")});
        if (how != 2) {
            a.tables["T"].cols = {{"K", LONG | KEY}, {"X", ta}, {"Y", tb}};
            if (how == 1) a.row("T", {Val::I(7), va[(n + 1) % 9 % va.size()], vb[(n / 9 + 1) % 9 % vb.size()]});
        }
        b = a;
        b.tables["T"].cols = {{"K", LONG | KEY}, {"X", ta}, {"Y", tb}};
        b.row("T", {Val::I(7), x, y});
        Style st;
        st.codepage = cp ? 65001 : 1252;
        st.change = n % 2;
        check(c, a, b, st, 0, true);
    }});
    chk.spaces.push_back({"columns", "tables of 1..32 columns x changed column x type pattern x style", 32 * 32 * 2 * 3, [thorough](mc::Ctx &c, uint64_t i) {
        int nc = i % 32 + 1, which = i / 32 % 32, pat = i / 1024 % 2, change = i / 2048;
        if (which >= nc || (!thorough && (nc + which + change) % 2 && nc != 16 && nc != 17 && nc != 32)) return;
        Database a, b;
        auto type = [&](int j) { return pat ? (j % 3 == 0 ? SHORT : j % 3 == 1 ? CHARN(30) : LONG) | (j ? NULLABLE : 0) : CHARN(30) | (j ? NULLABLE : 0); };
        auto val = [&](int j, int v) { return is_str(type(j)) ? Val::S(fmt("v%d.%d", j, v)) : Val::I(v * 100 + j); };
        for (int j = 0; j < nc; j++) a.tables["Wide"].cols.push_back({fmt("C%d", j), type(j) | (j ? 0 : KEY)});
        for (int r = 0; r < 3; r++) { Row x; for (int j = 0; j < nc; j++) x.push_back(val(j, r)); a.row("Wide", x); }
        b = a;
        Row x = a.tables["Wide"].rows.begin()->second;
        if (which) x[which] = which % 4 == 3 ? Val::N() : val(which, 9);
        b.row("Wide", x);
        Row y;
        for (int j = 0; j < nc; j++) y.push_back(j == which && j ? Val::N() : val(j, 8));
        b.row("Wide", y);
        b.tables["Wide"].rows.erase({val(0, 2)});
        Style st;
        st.change = change;
        check(c, a, b, st, which % 2 ? 2 : 0, true);
    }});
    chk.spaces.push_back({"pool", "base with a pool of two- or three-byte ids x transform with two- or three-byte ids x string used by neither, either or both", 2 * 2 * 4 * 2, [](mc::Ctx &c, uint64_t i) {
        Database a;
        int big = i % 2, wide = i / 2 % 2, use = i / 4 % 4, cp = i / 16;
        if (!c.thorough && big && (cp || use % 2)) return;
        a.tables["T"].cols = {{"K", LONG | KEY}, {"S", LCHAR | NULLABLE}, {"U", LCHAR | NULLABLE}};
        int rows = big ? (c.thorough ? 66000 : 33000) : 10;
        for (int r = 0; r < rows; r++) a.row("T", {Val::I(r), Val::S(fmt("first %d", r)), Val::S(fmt("second %d", r))});
        Database b = a;
        b.row("T", {Val::I(3), Val::S(use & 1 ? fmt("first %d", rows - 1) : "new"), use & 2 ? Val::S("new two") : Val::N()});
        b.row("T", {Val::I(-3), Val::S("third"), Val::S("new")});
        b.tables["T"].rows.erase({Val::I(5)});
        b.tables["N"].cols = {{"S", CHARN(40) | KEY}, {"T", CHARN(0xff)}};
        b.row("N", {Val::S("first 1"), Val::S("entirely new")});
        clean(c.scratch);
        std::string p = c.scratch + "/a.msi", t = c.scratch + "/t.mst";
        writefile(p, package(a, big ? 3 : 2, cp ? 65001 : 1252));
        Style st;
        st.width = wide ? 3 : 2;
        st.codepage = cp ? 65001 : 1252;
        Cfb x = transform(a, b, st);
        writefile(t, x.bytes());
        c.step(fmt("%d rows, transform ids of %d bytes, use %d", rows, st.width, use));
        Db db = open(p, LIBMSI_DB_FLAGS_TRANSACT);
        if (!db) c.fail("open", "");
        if (int e = apply_tr(db, t)) c.fail("refused", fmt("%d", e));
        compare(c, db, b, a, "after apply");
        if (int e = commit(db)) c.fail("commit", fmt("%d", e));
        db.reset();
        file_is(c, p, b, a);
        c.nontrivial();
        c.state(fmt("%d", (int)i));
    }});
    static const std::vector<std::string> nms = {"T", "A b", "a.b", "_x", "x'y", "d\xc3\xa9", "0n", "Select", "T-1", "%n", "(x)", "thirty-one characters is a lot!", "Z", "ab"};
    chk.spaces.push_back({"names", "every pair of table and column names x new table, dropped, new column, changed rows", nms.size() * nms.size() * 4, [](mc::Ctx &c, uint64_t i) {
        std::string t = nms[i / 4 % nms.size()], n = nms[i / 4 / nms.size()];
        Database a, b;
        a.tables["Other"].cols = {{"K", SHORT | KEY}};
        a.row("Other", {Val::I(1)});
        b = a;
        Database &full = i % 4 == 1 ? a : b;
        full.tables[t].cols = {{"Id", CHARN(99) | KEY}, {n, LCHAR | NULLABLE}};
        full.row(t, {Val::S(n), Val::S(t)});
        full.row(t, {Val::S("x"), Val::N()});
        if (i % 4 == 2) { a.tables[t].cols = {{"Id", CHARN(99) | KEY}}; a.row(t, {Val::S("x")}); }
        if (i % 4 == 3) { a.tables[t] = b.tables[t]; a.row(t, {Val::S("x"), Val::S("y")}); a.row(t, {Val::S("z"), Val::S("y")}); }
        Style st;
        st.codepage = 65001;
        check(c, a, b, st, 2, true);
    }});
    // sequences of transforms and direct changes on one handle
    static const int depth = thorough ? 4 : 3;
    static mc::Words hw{11, 1, depth};
    chk.spaces.push_back({"histories", "sequences of transforms, direct changes, commits and reopens on one handle", hw.count(), [](mc::Ctx &c, uint64_t i) {
        clean(c.scratch);
        std::string p = c.scratch + "/a.msi", t = c.scratch + "/t.mst";
        Database d;
        for (auto n : {"T", "U"}) {
            d.tables[n].cols = {{"K", CHARN(40) | KEY}, {"N", LONG | NULLABLE}, {"D", OBJ | NULLABLE}};
            d.row(n, {Val::S("one"), Val::I(1), Val::B("object one")});
            d.row(n, {Val::S("two"), Val::I(2), Val::N()});
        }
        Database first = d;
        writefile(p, package(d, 2, 1252));
        Db db = open(p, LIBMSI_DB_FLAGS_TRANSACT);
        int step = 0;
        auto to = [&](const Database &b) {
            Style st;
            st.change = step % 2;
            st.width = step % 3 ? 2 : 3;
            Cfb x = transform(d, b, st);
            writefile(t, x.bytes());
            Database from = d;
            if (int e = apply_tr(db, t)) c.fail("refused", fmt("%d", e));
            d = b;
            for (auto &s : from.streams) d.streams.insert(s);
        };
        for (int o : hw.at(i)) {
            static const char *nm[] = {"transform adds rows", "transform changes and deletes rows", "transform drops U", "transform adds table V", "transform adds a column to T", "transform replaces an object", "INSERT", "UPDATE", "DELETE", "commit and reopen", "commit"};
            c.step(nm[o]);
            step++;
            Database b = d;
            switch (o) {
            case 0: for (auto &x : b.tables) { Row r{Val::S(fmt("new %d", step)), Val::I(step), Val::B(fmt("object %d", step))}; if (x.first == "V") r.resize(2); r.resize(x.second.cols.size()); b.row(x.first, r); } to(b); break;
            case 1: for (auto &x : b.tables) {
                if (x.second.rows.size() > 1) { auto it = x.second.rows.begin(); x.second.rows.erase(++it); }
                for (auto &r : x.second.rows) r.second[1] = Val::I(-step);
            } to(b); break;
            case 2: b.tables.erase("U"); to(b); break;
            case 3: b.tables["V"].cols = {{"K", CHARN(40) | KEY}, {"N", LONG | NULLABLE}}; b.row("V", {Val::S(fmt("v%d", step)), Val::N()}); to(b); break;
            case 4: b.tables["T"].cols.push_back({fmt("C%d", step), SHORT | NULLABLE}); for (auto &r : b.tables["T"].rows) r.second.push_back(Val::N()); b.tables["T"].rows.begin()->second.back() = Val::I(step); to(b); break;
            case 5: if (!b.tables["T"].rows.empty()) { Row r = b.tables["T"].rows.begin()->second; r[2] = Val::B(fmt("replaced %d", step)); b.row("T", r); } to(b); break;
            case 6: if (int e = exec(db, "INSERT INTO `T` (`K`,`N`) VALUES (?,?)", {Val::S(fmt("sql %d", step)), Val::I(step)})) c.fail("insert", fmt("%d", e)); { Row r{Val::S(fmt("sql %d", step)), Val::I(step)}; r.resize(d.tables["T"].cols.size()); d.row("T", r); } break;
            case 7: if (int e = exec(db, "UPDATE `T` SET `N` = ? WHERE `K` <> 'one'", {Val::I(step + 70000)})) c.fail("update", fmt("%d", e)); for (auto &r : d.tables["T"].rows) if (!(r.first[0] == Val::S("one"))) r.second[1] = Val::I(step + 70000); break;
            case 8: if (int e = exec(db, "DELETE FROM `T` WHERE `K` = 'two'")) c.fail("delete", fmt("%d", e)); d.tables["T"].rows.erase({Val::S("two")}); break;
            case 9: if (int e = commit(db)) c.fail("commit", fmt("%d", e)); db.reset(); db = open(p, LIBMSI_DB_FLAGS_TRANSACT); if (!db) c.fail("reopen", ""); break;
            case 10: if (int e = commit(db)) c.fail("commit", fmt("%d", e)); break;
            }
            compare(c, db, d, d, nm[o]);
            c.state(str(snap_of(d)));
        }
        if (!(snap_of(first) == snap_of(d))) c.nontrivial();
        if (int e = commit(db)) c.fail("commit", fmt("%d", e));
        db.reset();
        file_is(c, p, d, d);
    }});
    return mc::run(chk, argc, argv);
}
