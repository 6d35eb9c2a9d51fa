// C11: text archive export and import round-trip a table.
#include "content.hpp"
using namespace content;

namespace {
// an archive written by an independent writer
std::string field(const std::string &s, bool nul) {
    std::string o;
    for (char ch : s) o += ch == '\t' ? '\x10' : ch == '\r' ? '\x11' : ch == '\n' ? (nul ? '\0' : '\x19') : ch;
    return o;
}
std::string cell(const Val &v, bool nul = false) { return v.k == Val::NUL ? "" : v.k == Val::INT ? std::to_string(v.i) : field(v.s, nul); }
std::string archive(const std::string &name, const TableView &t, const Rows &rows, const std::string &eol, bool nul = false) {
    std::string o, a, b, k = name;
    for (auto &n : t.names) a += (a.empty() ? "" : "\t") + n;
    for (auto &n : t.types) b += (b.empty() ? "" : "\t") + n;
    for (auto &n : t.keys) k += "\t" + n;
    o = a + eol + b + eol + k + eol;
    for (auto &r : rows) { std::string l; for (size_t i = 0; i < r.size(); i++) l += (i ? "\t" : "") + cell(r[i], nul); o += l + eol; }
    return o;
}
TableView view(LibmsiDatabase *db, const std::string &t, int *err, bool sort = true) {
    TableView v;
    Res q = query(db, "SELECT * FROM `" + t + "`");
    *err = q.err;
    if (q.err) return v;
    v.names = q.names; v.types = q.types; v.rows = sort ? sorted(q.rows) : q.rows;
    v.keys = primary_keys(db, t, err);
    return v;
}
std::string str(const TableView &t) { return "(" + join(t.names) + " " + join(t.types) + " key " + join(t.keys) + ") " + show(t.rows); }
Db utf8db(const std::string &p) {
    Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
    writefile(p + ".cp", "\r\n\r\n65001\t_ForceCodepage\r\n");
    import_table(db, p + ".cp");
    return db;
}
// the table T of db goes to a file, into another database, into its own, and through a commit
void trip(mc::Ctx &c, LibmsiDatabase *db, const std::string &T, const std::string &what, bool quote = true) {
    int e;
    TableView want = view(db, T, &e);
    if (e) c.fail("source", what + fmt(": the table cannot be read: %d", e));
    std::string f = c.scratch + "/t.idt", f2 = c.scratch + "/t2.idt";
    e = export_table(db, T, f);
    if (e) c.fail("export-fails", what + fmt(": export fails %d\n", e) + str(want));
    std::string text = *readfile(f);
    std::string p = c.scratch + "/other.msi";
    unlink(p.c_str());
    Db o = utf8db(p);
    exec(o, "CREATE TABLE `Other` (`K` CHAR(20) NOT NULL, `V` CHAR(20) PRIMARY KEY `K`)");
    exec(o, "INSERT INTO `Other` (`K`,`V`) VALUES ('x','a')");
    e = import_table(o, f);
    if (e) c.fail("import-fails", what + fmt(": import fails %d\n", e) + str(want) + "\n" + text);
    TableView got = view(o, T, &e);
    if (e || !(got == want)) c.fail("differs", what + ": imported\n" + str(got) + "\nexported\n" + str(want) + "\n" + text);
    e = export_table(o, T, f2);
    if (e) c.fail("export-fails", what + fmt(": second export fails %d", e));
    // again over itself: nothing changes
    e = import_table(o, f);
    if (e) c.fail("reimport-fails", what + fmt(": importing over the table fails %d", e));
    got = view(o, T, &e);
    if (e || !(got == want)) c.fail("reimport-differs", what + ": " + str(got) + "\nexpected " + str(want));
    e = commit(o);
    if (e) c.fail("commit", what + fmt(": %d", e));
    o.reset();
    o = open(p, LIBMSI_DB_FLAGS_READONLY);
    got = view(o, T, &e);
    if (e || !(got == want)) c.fail("reopen-differs", what + ": " + str(got) + "\nexpected " + str(want));
    Res other = query(o, "SELECT `K`,`V` FROM `Other`");
    if (other.rows != Rows{{Val::S("x"), Val::S("a")}}) c.fail("other-table", what + ": " + show(other.rows));
    got = view(db, T, &e);
    if (!(got == want)) c.fail("export-changed", what + ": exporting changed the table");
    c.state(str(want));
    if (!want.rows.empty()) c.nontrivial();
}
const char *TYPES[] = {"SHORT", "SHORT NOT NULL", "LONG", "LONG NOT NULL", "CHAR(20)", "CHAR(20) NOT NULL", "LONGCHAR", "LONGCHAR NOT NULL LOCALIZABLE", "CHAR(255) LOCALIZABLE", "OBJECT", "OBJECT NOT NULL", "INT", "CHAR"};
bool isint(int t) { return t < 4 || t == 11; }
bool isobj(int t) { return t == 9 || t == 10; }
bool nullable(int t) { return t != 1 && t != 3 && t != 5 && t != 7 && t != 10; }
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C11";
    chk.technique = "bounded-exhaustive enumeration of tables, values and archives, exported and imported by the real library, compared with the source table or an independent writer's archive";
    chk.rule = "table -> archive -> other database must be equal in names, types, keys and rows, also when imported over itself and after commit and reopen; archives from the independent writer must yield the table they were written from; non-trivial: the table has rows";
    const int wl = thorough ? 4 : 3;
    chk.bounds = fmt("all strings up to %d characters over 11 special and ordinary ones, every single byte but the three stand-ins; 2- and 4-byte integers around powers of two; all column type triples x NULL patterns; all table and column names of special characters; line endings, all codepages, all subsets of the summary properties", wl);
    static const std::vector<std::string> ch = {"a", "\t", "\r", "\n", " ", "'", "`", "\"", "\\", "\xc3\xa9", ","};
    static mc::Words sw{ch.size(), 0, wl};
    // strings in blocks of 64 rows
    chk.spaces.push_back({"strings", "every string of special characters, as value and as key", (sw.count() + 63) / 64 * 2, [](mc::Ctx &c, uint64_t i) {
        bool key = i & 1;
        Db db = utf8db(c.scratch + "/s.msi");
        exec(db, key ? "CREATE TABLE `S` (`S` CHAR(20) NOT NULL, `K` SHORT, `L` LONGCHAR PRIMARY KEY `S`)" : "CREATE TABLE `S` (`K` SHORT NOT NULL, `S` LONGCHAR, `T` CHAR(20) PRIMARY KEY `K`)");
        for (uint64_t n = i / 2 * 64; n < sw.count() && n < i / 2 * 64 + 64; n++) {
            std::string s;
            for (int x : sw.at(n)) s += ch[x];
            if (key && s.empty()) continue;
            Val v = s.empty() ? Val::N() : Val::S(s);
            int e = key ? exec(db, "INSERT INTO `S` (`S`,`K`,`L`) VALUES (?,?,?)", {v, Val::I(1), v}) : exec(db, "INSERT INTO `S` (`K`,`S`,`T`) VALUES (?,?,?)", {Val::I(n % 60000 - 30000), v, v});
            if (e) c.fail("insert", fmt("string %llu refused: %d", (unsigned long long)n, e));
        }
        c.step(fmt("strings from %llu", (unsigned long long)i / 2 * 64));
        trip(c, db, "S", "strings");
    }});
    chk.spaces.push_back({"bytes", "every single byte at every place of a value", 125, [](mc::Ctx &c, uint64_t i) {
        int b = i + 1;
        for (int skip : {0x10, 0x11, 0x19}) if (b >= skip) b++;
        if (b > 127) return;
        Db db = utf8db(c.scratch + "/s.msi");
        exec(db, "CREATE TABLE `S` (`K` CHAR(10) NOT NULL, `S` LONGCHAR, `T` CHAR(20) PRIMARY KEY `K`)");
        std::string x(1, (char)b);
        int k = 0;
        for (std::string s : std::set<std::string>{x, "a" + x, x + "a", "a" + x + "b", x + x}) if (exec(db, "INSERT INTO `S` (`K`,`S`,`T`) VALUES (?,?,?)", {Val::S(s), Val::S(s), Val::S(s)})) c.fail("insert", fmt("byte %d", b));
        c.step(fmt("byte %d", b));
        trip(c, db, "S", fmt("byte %d", b));
    }});
    chk.spaces.push_back({"integers", "integers around powers of two, zero and NULL in keys and values", 32, [](mc::Ctx &c, uint64_t i) {
        Db db = utf8db(c.scratch + "/s.msi");
        exec(db, "CREATE TABLE `N` (`K` LONG NOT NULL, `L` LONG, `S` SHORT PRIMARY KEY `K`)");
        std::set<int> vs;
        for (int d = -2; d <= 2; d++) for (int sg = -1; sg <= 1; sg += 2) { int64_t v = sg * (int64_t)(1ull << i) + d; if (v > INT32_MIN && v <= INT32_MAX) vs.insert(v); }
        for (int v : vs) if (exec(db, "INSERT INTO `N` (`K`,`L`,`S`) VALUES (?,?,?)", {Val::I(v), v & 1 ? Val::I(v) : Val::N(), abs((int64_t)v) <= 32767 ? Val::I(v) : Val::N()})) c.fail("insert", fmt("%d", v));
        c.step(fmt("around 2^%d", (int)i));
        trip(c, db, "N", fmt("integers around 2^%d", (int)i));
    }});
    const int nt = 13;
    uint64_t shapes = nt + nt * nt + (uint64_t)nt * nt * nt;
    chk.spaces.push_back({"shapes", "every sequence of up to three column types x number of keys x NULL pattern of the rows", shapes, [](mc::Ctx &c, uint64_t i) {
        std::vector<int> t;
        uint64_t n = i;
        const int nt = 13;
        if (n < nt) t = {(int)n};
        else if ((n -= nt) < nt * nt) t = {(int)n / nt, (int)n % nt};
        else { n -= nt * nt; t = {(int)(n / nt / nt), (int)(n / nt % nt), (int)(n % nt)}; }
        int nc = t.size();
        for (int keys = 1; keys <= nc; keys++) {
            bool ok = true;
            for (int k = 0; k < keys; k++) if (isobj(t[k])) ok = false;
            if (!ok) continue;
            std::string cr = "CREATE TABLE `T` (", pk, cl, q;
            for (int k = 0; k < nc; k++) { cr += fmt("%s`C%d` %s", k ? ", " : "", k, TYPES[t[k]]); if (k < keys) pk += fmt("%s`C%d`", k ? ", " : "", k); cl += fmt("%s`C%d`", k ? "," : "", k); q += k ? ",?" : "?"; }
            std::string p = c.scratch + "/s.msi";
            unlink(p.c_str());
            Db db = utf8db(p);
            if (int e = exec(db, cr + " PRIMARY KEY " + pk + ")")) c.fail("create", cr + fmt(": %d", e));
            int rows = 0;
            for (int pat = 0; pat < 1 << nc; pat++) {
                Row r;
                bool bad = false, allnull = true;
                for (int k = 0; k < nc; k++) {
                    bool nul = pat >> k & 1;
                    if (nul && !nullable(t[k])) bad = true;
                    if (nul && k < keys && keys == 1 && nc == 1 && false) bad = true;
                    r.push_back(nul ? Val::N() : isint(t[k]) ? Val::I(pat * 10 + k - 5) : isobj(t[k]) ? Val::B(fmt("stream %d %d", pat, k)) : Val::S(fmt("%c%d", 'p' + k, pat % (4))));
                    if (!nul) allnull = false;
                }
                if (bad) continue;
                int e = exec(db, "INSERT INTO `T` (" + cl + ") VALUES (" + q + ")", r);
                if (e) { bool dupe = true; if (!dupe) c.fail("insert", show(r)); }
                else rows++;
            }
            c.step(cr + " PRIMARY KEY " + pk + fmt(") with %d rows", rows));
            // NULLs in a key share the name of their stream with others: one object per row only
            trip(c, db, "T", cr + " PRIMARY KEY " + pk);
        }
    }});
    static const std::vector<std::string> nms = {"T", "A b", "a.b", "_x", "x'y", "d\xc3\xa9", "0n", "Select", "Table", "T-1", "T%s", "%n", "x;y", "(x)", "a,b", "thirty-one characters is a lot!"};
    chk.spaces.push_back({"names", "every pair of a table name and a column name with special characters", nms.size() * nms.size(), [](mc::Ctx &c, uint64_t i) {
        std::string t = nms[i % nms.size()], n = nms[i / nms.size()];
        Db db = utf8db(c.scratch + "/s.msi");
        int e = exec(db, "CREATE TABLE `" + t + "` (`" + n + "` SHORT NOT NULL, `Z` CHAR(9), `O` OBJECT PRIMARY KEY `" + n + "`)");
        if (e) { c.count(0); return; }       // not a name a table can have
        exec(db, "INSERT INTO `" + t + "` (`" + n + "`,`Z`) VALUES (1,'x')");
        if (t.size() < 25) exec(db, "INSERT INTO `" + t + "` (`" + n + "`,`Z`,`O`) VALUES (2,'y',?)", {Val::B("object of two")});
        c.step("table " + t + " column " + n);
        trip(c, db, t, "table " + t + " column " + n);
    }});
    // well-formed archives of an independent writer
    static const char *eols[] = {"\r\n", "\n", "\r\r\n"};
    static const std::vector<std::string> vals = {"a", "b c", "\t", "\n", "\r", "a\tb", "a\nb", "a\r\nb", "\r\n", "'", "\\n", "\xc3\xa9", "-1", "0"};
    chk.spaces.push_back({"archives", "archives over line endings x last line x trailing bytes x blank lines x newline form x value pairs", vals.size() * vals.size() * 2 * 2 * 3 * 2 * 2, [](mc::Ctx &c, uint64_t i) {
        const std::string &a = vals[i % vals.size()], &b = vals[i / vals.size() % vals.size()];
        uint64_t m = i / vals.size() / vals.size();
        const char *eol = eols[m & 1];
        bool nul = m >> 1 & 1, last = m / 4 % 3 != 0, zero = m / 4 % 3 == 2, blank = m / 12 & 1, exists = m / 24 & 1;
        // a leading carriage return of a field belongs to the line ending and is dropped
        TableView t{{"K", "S", "N"}, {"s20", "S0", "I4"}, {"K"}};
        Rows rows{{Val::S("one"), Val::S(a), Val::I(-7)}, {Val::S("two"), Val::S(b), Val::N()}, {Val::S("zz" + a), Val::N(), Val::I(2147483647)}};
        std::string s = archive("T", t, rows, eol, nul);
        if (!last) s.resize(s.size() - strlen(eol));
        if (blank) s += eol;
        if (zero) s += std::string("\0", 1);
        t.rows = sorted(rows);
        Db db = utf8db(c.scratch + "/s.msi");
        if (exists) {
            exec(db, "CREATE TABLE `T` (`K` CHAR(20) NOT NULL, `S` LONGCHAR, `N` LONG PRIMARY KEY `K`)");
            exec(db, "INSERT INTO `T` (`K`,`S`) VALUES ('old','row')");
            exec(db, "INSERT INTO `T` (`K`,`S`) VALUES ('one','changed')");
        }
        writefile(c.scratch + "/a.idt", s);
        c.step(fmt("archive of %zu bytes, eol %d nul %d last %d zero %d blank %d exists %d", s.size(), m & 1, nul, last, zero, blank, exists));
        int e = import_table(db, c.scratch + "/a.idt");
        if (e) c.fail("archive-refused", fmt("%d\n", e) + s);
        TableView got = view(db, "T", &e);
        if (e || !(got == t)) c.fail("archive-differs", "imported " + str(got) + "\nfrom " + str(t) + "\n" + s);
        c.nontrivial();
        c.state(s);
    }});
    static const int cps[] = {0, 37, 424, 437, 500, 737, 775, 850, 852, 855, 857, 860, 861, 862, 863, 864, 865, 866, 869, 874, 932, 936, 949, 950, 1250, 1251, 1252, 1253, 1254, 1255, 1256, 1257, 1258, 1361, 10000, 20127, 20866, 28591, 28592, 28605, 65000, 65001,
                              1, 1200, 12520, 65002, 99999, -1};
    chk.spaces.push_back({"codepages", "every pair of codepages: the archive of one database sets exactly that codepage in another", 48 * 48, [](mc::Ctx &c, uint64_t i) {
        int a = cps[i % 48], b = cps[i / 48];
        bool va = i % 48 < 42, vb = i / 48 < 42;
        std::string f = c.scratch + "/c.idt";
        auto get = [&](LibmsiDatabase *d) { export_table(d, "_ForceCodepage", f); return *readfile(f); };
        auto set = [&](LibmsiDatabase *d, int cp) { writefile(f, fmt("\r\n\r\n%d\t_ForceCodepage\r\n", cp)); return import_table(d, f); };
        Db x = open(c.scratch + "/x.msi", LIBMSI_DB_FLAGS_CREATE), y = open(c.scratch + "/y.msi", LIBMSI_DB_FLAGS_CREATE);
        exec(x, "CREATE TABLE `T` (`K` CHAR(9) NOT NULL PRIMARY KEY `K`)");
        exec(x, "INSERT INTO `T` (`K`) VALUES ('k')");
        int ea = set(x, a);
        if (va != !ea) c.fail("codepage", fmt("codepage %d: %d", a, ea));
        std::string before = get(x);
        std::string want = fmt("\r\n\r\n%d\t_ForceCodepage\r\n", va ? a : 0);
        before.erase(std::find(before.begin(), before.end(), '\0'), before.end());
        if (before != want) c.fail("codepage-export", fmt("after setting %d the archive is ", a) + before);
        int eb = set(y, b);
        writefile(f, before);
        if (int e = import_table(y, f)) c.fail("codepage-import", fmt("%d -> %d: %d", a, b, e));
        std::string after = get(y);
        after.erase(std::find(after.begin(), after.end(), '\0'), after.end());
        if (after != want) c.fail("codepage-trip", fmt("%d over %d: ", a, b) + after);
        int k = commit(x);
        if (!k) {
            x.reset();
            x = open(c.scratch + "/x.msi", LIBMSI_DB_FLAGS_READONLY);
            std::string r = get(x);
            r.erase(std::find(r.begin(), r.end(), '\0'), r.end());
            if (r != want) c.fail("codepage-commit", fmt("%d: after reopening ", a) + r);
            Res q = query(x, "SELECT `K` FROM `T`");
            if (q.rows != Rows{{Val::S("k")}}) c.fail("codepage-rows", fmt("%d: ", a) + show(q.rows));
            c.nontrivial();
        } else if (va && a != 864 && a != 20127 && a != 65000 && a > 1000) c.count(1);
        c.state(fmt("%d %d", a, b));
    }});
    static const int ids[] = {LIBMSI_PROPERTY_CODEPAGE, LIBMSI_PROPERTY_TITLE, LIBMSI_PROPERTY_SUBJECT, LIBMSI_PROPERTY_AUTHOR, LIBMSI_PROPERTY_KEYWORDS, LIBMSI_PROPERTY_COMMENTS, LIBMSI_PROPERTY_TEMPLATE, LIBMSI_PROPERTY_LASTAUTHOR, LIBMSI_PROPERTY_UUID,
                              LIBMSI_PROPERTY_CREATED_TM, LIBMSI_PROPERTY_LASTSAVED_TM, LIBMSI_PROPERTY_VERSION, LIBMSI_PROPERTY_SOURCE, LIBMSI_PROPERTY_RESTRICT, LIBMSI_PROPERTY_APPNAME, LIBMSI_PROPERTY_SECURITY, LIBMSI_PROPERTY_EDITTIME, LIBMSI_PROPERTY_LASTPRINTED};
    chk.spaces.push_back({"summary", "every subset of up to three summary properties and all others without them x string values", (18 * 18 * 18) * 4ull, [](mc::Ctx &c, uint64_t i) {
        static const char *sv[] = {"plain", "tab\there", "line\r\nend", " sp ' \xc3\xa9"};
        const char *val = sv[i & 3];
        uint64_t n = i / 4;
        std::set<int> pick{ids[n % 18], ids[n / 18 % 18], ids[n / 324]};
        if (n % 18 > n / 18 % 18 || n / 18 % 18 > n / 324) return;
        for (bool inverse : {false, true}) {
            std::string a = c.scratch + "/a.msi", b = c.scratch + "/b.msi", f = c.scratch + "/s.idt";
            unlink(a.c_str()); unlink(b.c_str());
            std::map<int, std::string> want;
            {
                Db x = open(a, LIBMSI_DB_FLAGS_CREATE);
                {
                Si si(libmsi_summary_info_new(x, 20, nullptr));
                for (int p : ids) {
                    if (pick.count(p) == inverse) continue;
                    bool ok;
                    if (p == LIBMSI_PROPERTY_CODEPAGE) ok = libmsi_summary_info_set_int(si, (LibmsiProperty)p, 1252, nullptr), want[p] = "int 1252";
                    else if (p == LIBMSI_PROPERTY_SECURITY || p == LIBMSI_PROPERTY_SOURCE || p == LIBMSI_PROPERTY_RESTRICT || p == LIBMSI_PROPERTY_VERSION) ok = libmsi_summary_info_set_int(si, (LibmsiProperty)p, -p * 1000, nullptr), want[p] = fmt("int %d", -p * 1000);
                    else if (p == LIBMSI_PROPERTY_CREATED_TM || p == LIBMSI_PROPERTY_LASTSAVED_TM || p == LIBMSI_PROPERTY_EDITTIME || p == LIBMSI_PROPERTY_LASTPRINTED) {
                        guint64 t = 130000000000000000ull + p * 864000000000ull * 37 + (guint64)p * 10000000;
                        ok = libmsi_summary_info_set_filetime(si, (LibmsiProperty)p, t, nullptr), want[p] = fmt("time %llu", (unsigned long long)t);
                    } else ok = libmsi_summary_info_set_string(si, (LibmsiProperty)p, val, nullptr), want[p] = std::string("str ") + val;
                    if (!ok) c.fail("set", fmt("property %d", p));
                }
                if (!libmsi_summary_info_persist(si, nullptr)) c.fail("persist", "");
                }
                if (int e = export_table(x, "_SummaryInformation", f)) c.fail("summary-export", fmt("%d", e));
            }
            std::string text = *readfile(f);
            Db y = open(b, LIBMSI_DB_FLAGS_CREATE);
            exec(y, "CREATE TABLE `T` (`K` SHORT NOT NULL PRIMARY KEY `K`)");
            if (int e = import_table(y, f)) c.fail("summary-import", fmt("%d\n", e) + text);
            auto got = snap(y).summary;
            if (got != want) { std::string o; for (auto &x : got) o += fmt("%d=", x.first) + x.second + "; "; c.fail("summary-differs", o + "\nfrom\n" + text); }
            if (int e = commit(y)) c.fail("commit", fmt("%d", e));
            y.reset();
            y = open(b, LIBMSI_DB_FLAGS_READONLY);
            if (snap(y).summary != want) c.fail("summary-reopen", text);
            c.state(text);
        }
        c.nontrivial();
    }});
    // a table that does not match the archive is left alone
    static const char *others[] = {"CREATE TABLE `T` (`K` SHORT NOT NULL, `S` LONGCHAR PRIMARY KEY `K`)", "CREATE TABLE `T` (`K` CHAR(20) NOT NULL, `S` LONGCHAR, `N` LONG, `M` LONG PRIMARY KEY `K`)", "CREATE TABLE `T` (`K` CHAR(20) NOT NULL, `X` LONGCHAR, `N` LONG PRIMARY KEY `K`)",
                                   "CREATE TABLE `T` (`K` CHAR(20) NOT NULL, `S` LONG, `N` LONG PRIMARY KEY `K`)", "CREATE TABLE `T` (`K` CHAR(20) NOT NULL, `S` OBJECT, `N` LONG PRIMARY KEY `K`)", "CREATE TABLE `T` (`K` CHAR(20) NOT NULL, `N` LONG, `S` LONGCHAR PRIMARY KEY `K`)"};
    chk.spaces.push_back({"mismatch", "importing over a table with other columns is refused and changes nothing; over one with the same columns in another order goes by their names", 6, [](mc::Ctx &c, uint64_t i) {
        Db db = utf8db(c.scratch + "/s.msi");
        exec(db, others[i]);
        exec(db, i == 0 ? "INSERT INTO `T` (`K`) VALUES (1)" : "INSERT INTO `T` (`K`) VALUES ('x')");
        Snap before = snap(db);
        TableView t{{"K", "S", "N"}, {"s20", "S0", "I4"}, {"K"}};
        writefile(c.scratch + "/a.idt", archive("T", t, {{Val::S("one"), i == 5 ? Val::S("ess") : Val::N(), i == 5 ? Val::I(4) : Val::N()}}, "\r\n"));
        int e = import_table(db, c.scratch + "/a.idt");
        if (i == 5) {
            if (e) c.fail("mismatch-refused", others[i]);
            Res q = query(db, "SELECT `K`, `N`, `S` FROM `T`");
            if (q.rows != Rows{{Val::S("one"), Val::I(4), Val::S("ess")}}) c.fail("mismatch-values", show(q.rows));
            return;
        }
        if (!e) c.fail("mismatch-accepted", others[i]);
        if (!(snap(db) == before)) c.fail("mismatch-changed", diff(before, snap(db)));
        c.nontrivial();
        c.state(others[i]);
    }});
    chk.setup = [](bool) {};
    return mc::run(chk, argc, argv);
}
