// C19: no malformed archive or transform can corrupt memory or half-apply silently.
#include "exercise.hpp"
#include "msiwrite.hpp"
using namespace msiwrite;

namespace {
constexpr int SHORT = 0x502, LONG = 0x104, NULLABLE = 0x1000, KEY = 0x2000;
constexpr int CHARN(int n) { return 0xd00 | n; }
Database small() {
    Database d;
    d.tables["T"].cols = {{"K", CHARN(20) | KEY}, {"N", SHORT | NULLABLE}, {"L", LONG | NULLABLE}, {"S", 0xd00 | NULLABLE}, {"D", 0x900 | NULLABLE}};
    d.row("T", {Val::S("alpha"), Val::I(1), Val::I(-70000), Val::S("one"), Val::B("object of alpha")});
    d.row("T", {Val::S("beta"), Val::N(), Val::N(), Val::N(), Val::N()});
    d.tables["U"].cols = {{"P", CHARN(30) | KEY}, {"Q", SHORT | NULLABLE}};
    d.row("U", {Val::S("alpha"), Val::I(1)});
    d.tables["Untouched"].cols = {{"Code", CHARN(30) | KEY}, {"Num", LONG | NULLABLE}, {"Blob", 0x900 | NULLABLE}};
    d.row("Untouched", {Val::S("first code"), Val::I(123456), Val::B("first blob")});
    d.row("Untouched", {Val::S("second code"), Val::N(), Val::N()});
    d.streams["plain"] = "plain stream";
    return d;
}
Database target() {
    Database d = small();
    d.tables["T"].rows.erase(Row{Val::S("beta")});
    d.row("T", {Val::S("alpha"), Val::I(2), Val::I(-70000), Val::S("uno"), Val::B("another object")});
    d.row("T", {Val::S("gamma"), Val::I(-5), Val::I(99999), Val::S("three"), Val::N()});
    d.tables["U"].cols.push_back({"R", LONG | NULLABLE});
    Tab u = d.tables["U"];
    d.tables["U"].rows.clear();
    d.row("U", {Val::S("alpha"), Val::I(1), Val::I(77)});
    d.tables["V"].cols = {{"A", SHORT | KEY}, {"B", CHARN(9) | NULLABLE}};
    d.row("V", {Val::I(1), Val::S("vee")});
    d.streams["extra"] = "added stream";
    return d;
}
const std::string &base_file() { static const std::string f = package(small(), 2, 1252); return f; }
void untouched(mc::Ctx &c, LibmsiDatabase *db, const std::string &when, const std::vector<std::string> &names) {
    static const Snap w = snap_of(small());
    for (auto &n : names) {
        Res q = query(db, "SELECT * FROM `" + n + "`");
        auto &t = w.tables.at(n);
        if (!q.ok() || sorted(q.rows) != t.rows || q.names != t.names || q.types != t.types || primary_keys(db, n) != t.keys)
            c.fail("unnamed-table", when + ": table " + n + " reads " + show(q.rows) + fmt(" %d", q.err));
    }
}
// the database still works: change, commit, reopen
void usable(mc::Ctx &c, Db &db, const std::string &p, const std::vector<std::string> &names) {
    exec(db, "INSERT INTO `Untouched` (`Code`,`Num`) VALUES ('third code',3)");
    if (exec(db, "DELETE FROM `Untouched` WHERE `Code` = 'third code'")) c.fail("unusable", "a row cannot be deleted");
    if (exec(db, "CREATE TABLE `New table` (`A` CHAR(10) NOT NULL, `B` LONG PRIMARY KEY `A`)") || exec(db, "INSERT INTO `New table` (`A`,`B`) VALUES ('a',1)")) c.fail("unusable", "a new table cannot be filled");
    int e = commit(db);
    if (!e) {
        db.reset();
        db = open(p, LIBMSI_DB_FLAGS_READONLY);
        if (!db) c.fail("reopen", "the committed database does not open");
        untouched(c, db, "after reopening", names);
        Res q = query(db, "SELECT * FROM `New table`");
        if (q.rows.size() != 1) c.fail("reopen-new", show(q.rows));
        read_all(c, db, false);
    } else c.count(3);
}

// ---- archives
struct Parsed { bool odd = false; std::vector<std::string> names, types, labels; std::vector<std::vector<std::string>> rows; };
std::vector<std::string> split(const std::string &s, char d) {
    std::vector<std::string> v;
    size_t b = 0, e;
    while ((e = s.find(d, b)) != std::string::npos) { v.push_back(s.substr(b, e - b)); b = e + 1; }
    v.push_back(s.substr(b));
    return v;
}
Parsed parse_archive(const std::string &text) {
    Parsed p;
    std::vector<std::string> lines = split(text, '\n');
    if (!lines.empty() && lines.back().empty()) lines.pop_back();
    for (auto &l : lines) {
        if (!l.empty() && l.back() == '\r') l.pop_back();
        for (unsigned char ch : l) if (ch == '\r' || ch == 0 || ch == 0x10 || ch == 0x11 || ch == 0x19 || ch >= 0x80) p.odd = true;
    }
    if (lines.size() < 3) { p.odd = true; return p; }
    p.names = split(lines[0], '\t'); p.types = split(lines[1], '\t'); p.labels = split(lines[2], '\t');
    for (size_t i = 3; i < lines.size(); i++) { if (lines[i].empty()) continue; p.rows.push_back(split(lines[i], '\t')); }
    return p;
}
bool number(const std::string &s, long long &v) {
    size_t i = !s.empty() && s[0] == '-';
    if (i == s.size() || s.size() > 18) return false;
    for (size_t k = i; k < s.size(); k++) if (s[k] < '0' || s[k] > '9') return false;
    v = atoll(s.c_str());
    return true;
}
// a file time as text: false if it is none
bool filetime(const std::string &s, guint64 &ft) {
    int y, m, d, h, mi, se, n = 0;
    if (sscanf(s.c_str(), "%d/%d/%d %d:%d:%d%n", &y, &m, &d, &h, &mi, &se, &n) != 6 || n != (int)s.size()) return false;
    static const int md[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    if (y < 1601 || y > 30827 || m < 1 || m > 12 || d < 1 || h > 23 || mi > 59 || se > 59 || h < 0 || mi < 0 || se < 0) return false;
    bool leap = y % 4 == 0 && (y % 100 || y % 400 == 0);
    if (d > md[m - 1] + (leap && m == 2)) return false;
    long long days = 0;
    for (int i = 1601; i < y; i++) days += 365 + (i % 4 == 0 && (i % 100 || i % 400 == 0));
    for (int i = 1; i < m; i++) days += md[i - 1] + (leap && i == 2);
    ft = ((((guint64)days + d - 1) * 24 + h) * 60 + mi) * 60 + se;
    ft *= 10000000;
    return true;
}
void summary_imported(mc::Ctx &c, LibmsiDatabase *db, const Parsed &a) {
    Si si(libmsi_summary_info_new(db, 0, nullptr));
    if (!si) c.fail("summary-success", "no summary information");
    std::map<long long, std::string> last;
    for (auto &r : a.rows) {
        long long id;
        if (r.size() != 2 || !number(r[0], id)) { c.fail("summary-success", "a row that is no property"); }
        last[id] = r[1];
    }
    for (auto &[id, v] : last) {
        GError *e = nullptr;
        if (id < 1 || id > 19 || id == 17) { if (id != 0 && id != 17) c.fail("summary-success", fmt("property %lld accepted", id)); continue; }
        LibmsiProperty p = (LibmsiProperty)id;
        guint64 ft;
        long long n;
        if (id == 10 || id == 11 || id == 12 || id == 13) {
            guint64 got = libmsi_summary_info_get_filetime(si, p, &e);
            if (!filetime(v, ft)) {
                if (id != 10) c.fail("summary-time", "'" + v + "' accepted as a time");
                long long minutes;                      // the edit time may also be a number of minutes
                (void)minutes;
            } else if (e || (id != 10 && got != ft)) c.fail("summary-time", fmt("property %lld of '", id) + v + fmt("' is %llu", (unsigned long long)got));
        } else if (id == 1 || id == 14 || id == 15 || id == 16 || id == 19) {
            int got = libmsi_summary_info_get_int(si, p, &e);
            if (!number(v, n)) c.fail("summary-int", "'" + v + "' accepted as a number");
            if (id == 1 ? (gint16)got != (gint16)n : got != n) c.fail("summary-int", fmt("property %lld of '", id) + v + fmt("' is %d", got));
        } else {
            const char *got = libmsi_summary_info_get_string(si, p, &e);
            if (!v.empty() && (!got || v != got)) c.fail("summary-string", fmt("property %lld of '", id) + v + "' is " + (got ? got : "absent"));
        }
        g_clear_error(&e);
    }
}
// import reported success: every row of the archive is there
void imported(mc::Ctx &c, LibmsiDatabase *db, const std::string &text, const std::map<std::string, std::string> &files) {
    Parsed a = parse_archive(text);
    if (a.odd || a.labels.empty()) { c.count(4); return; }
    if (a.labels.size() == 2 && a.labels[1] == "_ForceCodepage" && a.names == std::vector<std::string>{""} && a.types == a.names) {
        long long n;
        export_table(db, "_ForceCodepage", c.scratch + "/cp.idt");
        std::string got = readfile(c.scratch + "/cp.idt").value_or("");
        while (!got.empty() && !got.back()) got.pop_back();
        std::string cp = a.labels[0].substr(std::min(a.labels[0].find_first_not_of(' '), a.labels[0].size()));
        if (!number(cp, n) || got != fmt("\r\n\r\n%lld\t_ForceCodepage\r\n", n)) c.fail("codepage-success", "'" + a.labels[0] + "' gives " + got);
        return;
    }
    if (a.labels[0] == "_SummaryInformation") { summary_imported(c, db, a); return; }
    if ((a.labels.size() == 2 && a.labels[1] == "_ForceCodepage")) return;
    if (a.labels[0][0] == '_') { c.count(4); return; }
    if (a.names.size() != a.types.size()) c.fail("success-header", "names and types differ in number");
    std::string cols;
    std::set<std::string> seen;
    for (auto &n : a.names) { if (n.empty() || !seen.insert(n).second) { c.count(4); return; } cols += (cols.empty() ? "`" : ",`") + n + "`"; }
    Res q = query(db, "SELECT " + cols + " FROM `" + a.labels[0] + "`");
    if (!q.ok()) c.fail("success-unreadable", fmt("%d: ", q.err) + cols);
    c.nontrivial();
    for (auto &r : a.rows) {
        if (r.size() != a.names.size()) c.fail("success-ragged", "a row of another number of fields");
        bool found = false;
        for (auto &x : q.rows) {
            bool eq = true;
            for (size_t i = 0; i < r.size() && eq; i++) {
                const Val &v = x[i];
                long long n;
                if (v.k == Val::NUL) eq = r[i].empty();
                else if (v.k == Val::INT) eq = number(r[i], n) && n == v.i;
                else if (v.k == Val::STR) eq = v.s == r[i] || (number(r[i], n) && v.s == std::to_string(n));
                else { auto f = files.find(r[i]); eq = f != files.end() && f->second == v.s; }
            }
            if (eq) { found = true; break; }
        }
        if (!found) { std::string s; for (auto &f : r) s += f + "|"; c.fail("success-row", "the row " + s + " is not in " + show(q.rows)); }
    }
}
void import(mc::Ctx &c, const std::string &text, bool exists, bool use = true) {
    clean(c.scratch);
    std::string p = c.scratch + "/d.msi", dir = c.scratch + "/arch";
    writefile(p, base_file());
    mkdir(dir.c_str(), 0700);
    mkdir((dir + "/T").c_str(), 0700);
    writefile(dir + "/T/obj.ibd", "bytes of the object");
    writefile(dir + "/T.idt", text);
    Db db = open(p, LIBMSI_DB_FLAGS_TRANSACT);
    if (!db) c.fail("open", "the database does not open");
    if (!exists) exec(db, "DROP TABLE `T`");
    GError *e = nullptr;
    gboolean ok = libmsi_database_import(db, (dir + "/T.idt").c_str(), &e);
    if (!ok && !e) c.fail("no-error", "failed without an error");
    if (ok && e) c.fail("error-and-success", "both");
    g_clear_error(&e);
    c.count(ok);
    Parsed a = parse_archive(text);
    std::vector<std::string> keep = {"Untouched"};
    if (a.odd || a.labels.empty() || a.labels[0] != "U") keep.push_back("U");
    if (a.labels.empty() || a.labels[0] == "Untouched") keep.erase(keep.begin());
    if (a.labels.size() && a.labels[0][0] == '_') { if (ok) imported(c, db, text, {}); read_all(c, db, false); commit(db); return; }      // the catalog itself
    untouched(c, db, "after the import", keep);
    if (exists && !a.odd && a.labels[0] != "T") untouched(c, db, "after the import", {"T"});
    if (ok) imported(c, db, text, {{"obj.ibd", "bytes of the object"}});
    read_all(c, db, use);
    untouched(c, db, "after reading everything", keep);
    if (use) usable(c, db, p, keep);
}
const std::vector<std::string> ARCHIVES = {
    "K\tN\tL\tS\tD\r\ns20\tI2\tI4\tS0\tV0\r\nT\tK\r\nnew\t-5\t70000\ttext\tobj.ibd\r\nmore\t\t\t\t\r\n",
    "A\tB\tC\r\ni2\ts72\tL10\r\n1252\tX1\tA\tB\r\n1\tx\t\r\n-2\tyy\tzz\r\n",
    "PropertyId\tValue\r\ni2\tl255\r\n_SummaryInformation\tPropertyId\r\n1\t1252\r\n2\tTitle\r\n12\t2009/01/02 03:04:05\r\n14\t200\r\n19\t2\r\n",
    "\r\n\r\n1252\t_ForceCodepage\r\n",
};
// ---- transforms
Cfb parts(int width = 2, int change = 0) {
    Style st;
    st.width = width;
    st.change = change;
    st.codepage = 1252;
    st.numbers = true;
    Cfb x = transform(small(), target(), st);
    x.raw("\5SummaryInformation", transform_summary());
    return x;
}
std::string entry_name(const Cfb::Entry &e) {
    for (auto n : {"_Tables", "_Columns", "_StringPool", "_StringData", "T", "U", "V", "Untouched"}) if (e.name == encoded(n, true)) return n;
    return e.name[0] == 5 ? "SummaryInformation" : e.name == encoded("extra", false) ? "extra" : "object";
}
// the lengths at which a table stream of the transform is whole
std::set<size_t> boundaries(const std::string &name, const std::string &d, int width) {
    static const std::vector<Col> tc{{"Name", 0x2d40}}, cc{{"Table", 0x2d40}, {"Number", 0x2502}, {"Name", 0x0d40}, {"Type", 0x0502}};
    static const Database tg = target();
    auto &cols = name == "_Tables" ? tc : name == "_Columns" ? cc : tg.tables.at(name).cols;
    std::set<size_t> s{0};
    auto size = [&](const Col &k) { return is_bin(k.type) ? 2 : is_str(k.type) ? width : (k.type & 0xff) == 4 ? 4 : 2; };
    std::vector<int> sz;
    int nk = 0;
    for (auto &k : cols) { sz.push_back(size(k)); nk += is_key(k.type) ? 1 : 0; }
    size_t o = 0;
    while (o + 2 <= d.size()) {
        int mask = (unsigned char)d[o] | (unsigned char)d[o + 1] << 8;
        o += 2;
        if (mask & 1) for (int i = 0; i < mask >> 8; i++) o += sz[i];
        else for (size_t i = 0; i < sz.size(); i++) if ((int)i < nk || (mask >> i & 1)) o += sz[i];
        s.insert(o);
    }
    return s;
}
enum { ANY, MUST_FAIL, MUST_WORK };
void apply(mc::Ctx &c, const std::string &bytes, int want, bool use = true, const std::vector<std::string> &keep = {"Untouched"}) {
    clean(c.scratch);
    std::string p = c.scratch + "/d.msi", t = c.scratch + "/t.mst";
    writefile(p, base_file());
    writefile(t, bytes);
    Db db = open(p, LIBMSI_DB_FLAGS_TRANSACT);
    GError *e = nullptr;
    gboolean ok = libmsi_database_apply_transform(db, t.c_str(), &e);
    if (!ok && !e) c.fail("no-error", "failed without an error");
    if (ok && e) c.fail("error-and-success", "both");
    g_clear_error(&e);
    c.count(ok);
    if (ok && want == MUST_FAIL) c.fail("success", "a broken transform is reported as applied");
    if (!ok && want == MUST_WORK) c.fail("refused", "the transform is refused");
    if (ok) c.nontrivial();
    if (readfile(t) != bytes) c.fail("transform-modified", "the transform file changed");
    untouched(c, db, "after the transform", keep);
    read_all(c, db, false);
    untouched(c, db, "after reading everything", keep);
    if (use) usable(c, db, p, keep);
}
struct Cell { size_t entry, off; };
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C19";
    chk.technique = "bounded-exhaustive fault enumeration: every listed damage of archives and of transforms from independent writers, imported or applied by the real library under memory checkers";
    chk.rule = "no crash, no memory error, no hang; an error is reported or every row of the archive is there; tables not named keep their content; the database can be changed, committed and reopened; non-trivial: reported as success";
    static std::vector<int> vals;
    if (thorough) for (int v = 0; v < 256; v++) vals.push_back(v);
    else vals = {0, '\t', '\n', '\r', 0x10, 0x11, 0x19, ' ', '-', '.', '/', '0', '1', '9', 'A', 'D', 'V', '_', 'i', 's', 'v', '~', 0x80, 0xc3, 0xff};
    static std::vector<std::pair<int, int>> apos;
    for (size_t a = 0; a < ARCHIVES.size(); a++) for (size_t o = 0; o <= ARCHIVES[a].size(); o++) apos.push_back({(int)a, (int)o});
    chk.bounds = fmt("%zu archives: each byte changed to and each place given %zu values, each byte removed, each prefix and suffix; every header of listed words; a transform of a changed, an extended and a new table: every byte of its structured streams x values, every length, pairs of 16-bit words, subsets of streams, truncations", ARCHIVES.size(), vals.size());
    chk.spaces.push_back({"archive-bytes", "every byte of every archive changed, inserted or removed, with the table there or not", apos.size() * (2 * vals.size() + 3) * 2, [](mc::Ctx &c, uint64_t i) {
        bool exists = i & 1;
        i >>= 1;
        uint64_t k = i % (2 * vals.size() + 3);
        auto [a, o] = apos[i / (2 * vals.size() + 3)];
        const std::string &s = ARCHIVES[a];
        std::string t;
        if (k < vals.size()) { if (o == (int)s.size()) return; t = s; t[o] = (char)vals[k]; if (t == s) return; c.step(fmt("archive %d byte %d is %02x, table %s", a, o, vals[k], exists ? "there" : "absent")); }
        else if (k < 2 * vals.size()) { t = s.substr(0, o) + (char)vals[k - vals.size()] + s.substr(o); c.step(fmt("archive %d: %02x inserted at %d, table %s", a, vals[k - vals.size()], o, exists ? "there" : "absent")); }
        else if (k == 2 * vals.size()) { t = s.substr(0, o); c.step(fmt("archive %d: first %d bytes", a, o)); }
        else if (k == 2 * vals.size() + 1) { t = s.substr(o); c.step(fmt("archive %d: from byte %d", a, o)); }
        else { if (o == (int)s.size()) return; t = s.substr(0, o) + s.substr(o + 1); c.step(fmt("archive %d: without byte %d", a, o)); }
        import(c, t, exists, c.thorough || i % 4 == 0);
    }});
    static const std::vector<std::string> typ = {"s0", "s20", "S255", "s256", "L10", "l0", "i2", "I2", "i4", "I4", "i1", "i3", "i0", "i99999999999", "v0", "V0", "O0", "g5", "s", "i", "", "x", "s-1", "S 5", "j2", "J4", "F0"};
    static const std::vector<std::string> fld = {"", "1", "-", "0x", "99999", "4294967297", "-99999999999", "abc", "obj.ibd", "missing.ibd", "../d.msi", "..", " 1", "-32768", "2147483648"};
    chk.spaces.push_back({"archive-types", "every pair of column types x every pair of fields x key or none", typ.size() * typ.size() * fld.size() * 4, [](mc::Ctx &c, uint64_t i) {
        const std::string &t1 = typ[i % typ.size()], &t2 = typ[i / typ.size() % typ.size()], &f = fld[i / typ.size() / typ.size() % fld.size()];
        int key = i / typ.size() / typ.size() / fld.size();
        std::string s = "A\tB\r\n" + t1 + "\t" + t2 + "\r\n" + (key == 3 ? "U" : "T") + (key == 0 ? "" : key == 1 ? "\tA" : key == 2 ? "\tB" : "\tA\tB") + "\r\n" + (key == 2 ? f + "\tk\r\n" : "1\t" + f + "\r\n") + "2\tz\r\n";
        c.step(s);
        import(c, s, false, i % 8 == 0);
    }});
    static const std::vector<std::string> words = {"", "K", "N", "T", "U", "1252", "65001", "99", "-1", "_ForceCodepage", "_SummaryInformation", "_Tables", "_Columns", "_Streams", "s20", "i2", "V0"};
    static mc::Words three{words.size(), 0, 3};
    chk.spaces.push_back({"archive-headers", "every third line of up to three words x first and second lines", three.count() * 6, [](mc::Ctx &c, uint64_t i) {
        static const char *heads[] = {"\r\n\r\n", "K\tN\r\ns20\tI2\r\n", "K\r\ns20\r\n", "K\tN\r\ns20\r\n", "K\tK\r\ns20\ti2\r\n", "Name\tData\r\ns62\tV0\r\n"};
        std::string l;
        auto w = three.at(i / 6);
        for (size_t k = 0; k < w.size(); k++) l += (k ? "\t" : "") + words[w[k]];
        std::string s = heads[i % 6] + l + "\r\n" + "x\t5\r\n";
        c.step(s);
        import(c, s, i / 6 % 2, i % 8 == 0);
    }});
    static const std::vector<std::string> pid = {"0", "1", "2", "8", "10", "11", "12", "13", "14", "15", "16", "18", "19", "20", "-1", "255", "65536", "x", ""};
    static const std::vector<std::string> pv = {"", "0", "5", "-5", "99999", "4294967297", "text", "2009/01/02 03:04:05", "2009/01/02", "2009/99/99 99:99:99", "0000/00/00 00:00:00", "99999999999/1/1 1:1:1", "1601/01/01 00:00:00", "30000/01/01 00:00:00", "a\xc3\xa9", "1252\t", "x\ty"};
    chk.spaces.push_back({"archive-summary", "every summary property x every text", pid.size() * pv.size() * 3, [](mc::Ctx &c, uint64_t i) {
        static const char *head[] = {"PropertyId\tValue\r\ni2\tl255\r\n_SummaryInformation\tPropertyId\r\n", "Value\r\nl255\r\n_SummaryInformation\r\n", "a\tb\tc\r\ni2\tl255\tl255\r\n_SummaryInformation\ta\r\n"};
        std::string s = head[i % 3] + pid[i / 3 % pid.size()] + "\t" + pv[i / 3 / pid.size()] + "\r\n";
        c.step(s);
        import(c, s, true, true);
    }});
    chk.spaces.push_back({"archive-sizes", "archives of many columns, fields, keys and rows, and long ones", 40 * 5, [](mc::Ctx &c, uint64_t i) {
        static const std::vector<int> ns = {0, 1, 2, 15, 16, 17, 30, 31, 32, 33, 34, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 400, 500, 511, 512, 513, 600, 700, 800, 900, 1000, 2000, 3000, 5000, 10000, 20000, 32768, 65535, 65536};
        int n = ns[i / 5];
        std::string a, b, d, s;
        auto rep = [&](const std::string &x, int k) { std::string o; for (int j = 0; j < k; j++) o += (j ? "\t" : "") + x; return o; };
        switch (i % 5) {
        case 0: n = std::min(n, 5000); for (int j = 0; j < n; j++) { a += fmt(j ? "\tC%d" : "C%d", j); b += j ? "\tS10" : "s10"; d += fmt(j ? "\tv%d" : "v%d", j); } s = a + "\r\n" + b + "\r\nW\tC0\r\n" + d + "\r\n"; break;
        case 1: s = "A\tB\r\ni2\tS0\r\nW\tA\r\n1\t" + std::string(n, 'x') + "\r\n2\ty\r\n"; break;
        case 2: s = "A\tB\r\ni2\tS0\r\nW\t" + rep("A", n) + "\r\n1\tx\r\n"; break;
        case 3: s = "A\tB\r\ni2\tS0\r\n" + std::string(n, 'W') + "\tA\r\n1\tx\r\n"; break;
        default: s = "A\tB\r\ni2\tS0\r\nW\tA\r\n1\t" + rep("x", n) + "\r\n"; break;
        }
        c.step(s.substr(0, 200) + fmt(".. %zu bytes", s.size()));
        import(c, s, true, true);
    }});
    // ---- transforms
    static const Cfb base = parts(), base3 = parts(3, 2);
    chk.spaces.push_back({"transform-sound", "the transforms themselves", 6, [](mc::Ctx &c, uint64_t i) { c.step("unchanged"); apply(c, parts(i % 2 ? 3 : 2, i / 2).bytes(), MUST_WORK); }});
    static std::vector<Cell> cells, lens, words2;
    for (size_t e = 0; e < base.streams.size(); e++) {
        std::string n = entry_name(base.streams[e]);
        size_t sz = base.streams[e].data.size();
        for (size_t o = 0; o < sz + 12; o++) lens.push_back({e, o});
        if (n == "object" || n == "extra" || n == "SummaryInformation") continue;
        for (size_t o = 0; o < sz; o++) cells.push_back({e, o});
        if (n != "_StringData") for (size_t o = 0; o + 1 < (n == "_StringPool" ? std::min<size_t>(sz, thorough ? 60 : 12) : sz); o += 2) words2.push_back({e, o});
    }
    static std::vector<int> bv;
    if (thorough) for (int v = 0; v < 256; v++) bv.push_back(v);
    else bv = {0, 1, 2, 3, 4, 5, 6, 9, 0x20, 0x7f, 0x80, 0x81, 0x85, 0xfe, 0xff, -1, -2, -3, -4};
    chk.spaces.push_back({"transform-bytes", "every byte of every structured stream x value", cells.size() * bv.size(), [](mc::Ctx &c, uint64_t i) {
        auto &k = cells[i / bv.size()];
        Cfb x = base;
        std::string &d = x.streams[k.entry].data;
        int v = bv[i % bv.size()];
        unsigned char old = d[k.off];
        char n = v >= 0 ? (char)v : v == -1 ? (char)(old + 1) : v == -2 ? (char)(old - 1) : v == -3 ? (char)(old ^ 0x80) : (char)(old ^ 0x10);
        if (n == d[k.off]) return;
        c.step(fmt("%s byte %zu is %02x for %02x", entry_name(x.streams[k.entry]).c_str(), k.off, (unsigned char)n, old));
        d[k.off] = n;
        apply(c, x.bytes(), ANY, c.thorough || i % 3 == 0);
    }});
    chk.spaces.push_back({"transform-lengths", "every length of every stream, with ids of two and three bytes", lens.size() * 2, [](mc::Ctx &c, uint64_t i) {
        auto &k = lens[i / 2];
        Cfb x = i % 2 ? base3 : base;
        if (k.entry >= x.streams.size()) return;
        std::string &d = x.streams[k.entry].data;
        std::string n = entry_name(x.streams[k.entry]);
        c.step(fmt("%s of %zu bytes for %zu", n.c_str(), k.off, d.size()));
        bool cut = k.off < d.size() && (n == "T" || n == "U" || n == "V" || n == "_Tables" || n == "_Columns");
        bool broken = cut && !boundaries(n, d, i % 2 ? 3 : 2).count(k.off);
        while (d.size() < k.off) d += (char)(d.size() * 7);
        d.resize(k.off);
        apply(c, x.bytes(), broken ? MUST_FAIL : ANY);
    }});
    static const std::vector<int> wv = {0, 1, 0x501, 0x7f01, 0xff01, 0x7fff, 0x8001, 0xffff, 0xfffe, 2, 8, 0x10};
    chk.spaces.push_back({"transform-words", "pairs of 16-bit words of the structured streams x values", words2.size() * (words2.size() - 1) / 2 * (thorough ? wv.size() : 2), [](mc::Ctx &c, uint64_t i) {
        uint64_t m = c.thorough ? wv.size() : 2, k = i / m;
        size_t b = 1;
        while ((uint64_t)b * (b + 1) / 2 <= k) b++;
        size_t a = k - (uint64_t)b * (b - 1) / 2;
        Cfb x = base;
        int va = c.thorough ? wv[i % m] : wv[(i * 7 + a) % wv.size()], vb = c.thorough ? wv[(i / m + i) % wv.size()] : wv[(i * 5 + b) % wv.size()];
        auto put = [&](const Cell &w, int v) { auto &d = x.streams[w.entry].data; d[w.off] = (char)v; d[w.off + 1] = (char)(v >> 8); };
        put(words2[a], va);
        put(words2[b], vb);
        c.step(fmt("%s word %zu is %04x, %s word %zu is %04x", entry_name(x.streams[words2[a].entry]).c_str(), words2[a].off / 2, va, entry_name(x.streams[words2[b].entry]).c_str(), words2[b].off / 2, vb));
        apply(c, x.bytes(), ANY, i % 8 == 0);
    }});
    chk.spaces.push_back({"transform-missing", "every subset of the streams missing, empty or renamed", 3ull << base.streams.size(), [](mc::Ctx &c, uint64_t i) {
        Cfb x = base, y;
        uint64_t set = i / 3;
        y.clsid = x.clsid;
        static const std::vector<std::string> others = {"Nope", "T", "_Validation", "U", "_Streams", "_Storages", "Z.alpha", "T.alpha", "_ForceCodepage", "q"};
        for (size_t e = 0; e < x.streams.size(); e++) {
            if (!(set >> e & 1)) { y.streams.push_back(x.streams[e]); continue; }
            c.step(entry_name(x.streams[e]) + (i % 3 == 0 ? " missing" : i % 3 == 1 ? " empty" : " renamed"));
            if (i % 3 == 1) y.streams.push_back({x.streams[e].name, ""});
            if (i % 3 == 2) y.streams.push_back({encoded(others[e % others.size()], e % 2), x.streams[e].data});
        }
        apply(c, y.bytes(), ANY, i % 4 == 0);
    }});
    // every short row stream for a table
    static const std::vector<int> rw = {0, 1, 2, 0x101, 0x501, 0x601, 0x1f, 0x8001, 3};
    static mc::Words rows{rw.size(), 1, thorough ? 5u : 4u};
    chk.spaces.push_back({"transform-rows", "every stream of up to four or five 16-bit words as the rows of T, of the tables and of the columns", rows.count() * 3, [](mc::Ctx &c, uint64_t i) {
        static const char *tn[] = {"T", "_Tables", "_Columns"};
        Cfb x = base;
        std::string d, s;
        for (int k : rows.at(i / 3)) { put16(d, rw[k]); s += fmt("%04x ", rw[k]); }
        std::vector<Cfb::Entry> keep;
        for (auto &e : x.streams) { std::string n = entry_name(e); if (n != "T" && n != "U" && n != "V" && n != "_Tables" && n != "_Columns") keep.push_back(e); }
        x.streams = keep;
        x.add(tn[i % 3], d, true);
        c.step(std::string(tn[i % 3]) + ": " + s);
        apply(c, x.bytes(), ANY, i % 8 == 0);
    }});
    static const std::string file = base.bytes();
    chk.spaces.push_back({"transform-file", "every 16th byte of the compound file changed, and truncations; packages, archives and other files as transforms", file.size() / (thorough ? 1 : 8) + 8, [](mc::Ctx &c, uint64_t i) {
        std::string b = file;
        size_t st = c.thorough ? 1 : 8, n = file.size() / st;
        if (i >= n) {
            std::vector<std::string> o = {"", "x", base_file(), ARCHIVES[0], std::string(512, '\0'), std::string(5000, '\xd0'), package(target()), file.substr(0, 512)};
            c.step("another file");
            apply(c, o[i - n], i - n == 2 || i - n == 6 ? ANY : MUST_FAIL);
            return;
        }
        size_t o = i * st + i % st;
        if (i % 2) { b.resize(o); c.step(fmt("%zu bytes", o)); }
        else { b[o] ^= i % 4 ? 0xff : 1; c.step(fmt("file byte %zu changed", o)); }
        apply(c, b, ANY, i % 4 == 0);
    }});
    chk.counter_names = {{0, "reported as error"}, {1, "reported as success"}, {3, "commit refused afterwards"}, {4, "success not compared in detail"}};
    return mc::run(chk, argc, argv);
}
