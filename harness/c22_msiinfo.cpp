// C22: msiinfo shows and exports the package content faithfully.
#include "toolfault.hpp"
#include "msiwrite.hpp"
using namespace tool;
using namespace msiwrite;

namespace {
using Args = std::vector<std::string>;
Out info(mc::Ctx &c, const Args &a, const std::string &cwd) {
    Args v = {bin("msiinfo")};
    v.insert(v.end(), a.begin(), a.end());
    Out o = run(v, cwd, c.scratch + "/io");
    sane(c, o, shown(v));
    return o;
}
std::vector<std::string> lines(const std::string &s) {
    std::vector<std::string> v;
    std::stringstream x(s);
    std::string l;
    while (std::getline(x, l)) v.push_back(l);
    return v;
}
struct Ty { int type; std::vector<Val> vals; };
Val S(const char *s) { return Val::S(s); }
const std::vector<Ty> &types() {
    static const std::vector<Ty> v = {
        {0x1502, {Val::I(1), Val::N(), Val::I(0), Val::I(-32767), Val::I(32767)}},
        {0x502, {Val::I(-1), Val::I(2), Val::I(32767), Val::I(0), Val::I(-32767)}},
        {0x1104, {Val::N(), Val::I(2147483647), Val::I(-2147483647), Val::I(0), Val::I(70000)}},
        {0xd00, {S("a"), S(" b "), S("back\\slash \\n \\t \\\\"), S("x; SELECT `y`"), S("line\nbreak"), S("tab\tbed"), S("%s%d"), S("\xc3\xa9\xe2\x82\xac"), S("\"q\"")}},
        {0x1d03, {S("abc"), Val::N(), S("a b"), S("\\n"), S("\xc3\xa9")}},
        {0x1f00, {Val::N(), S("DROP TABLE `X`"), S("-5"), S("NULL"), S("`t`")}},
        {0x1900, {Val::N(), Val::B("some bytes of a stream"), Val::N(), Val::B(std::string(5000, 'z')), Val::B(std::string("\0\1\r\n\x1a", 5))}},
    };
    return v;
}
// what the table is, by column name
struct Named { std::map<std::string, std::string> types; std::vector<std::string> keys; std::multiset<std::map<std::string, Val>> rows; };
bool operator==(const Named &a, const Named &b) { return a.types == b.types && a.keys == b.keys && a.rows == b.rows; }
std::string str(const Named &n) {
    std::string s;
    for (auto &t : n.types) s += t.first + ":" + t.second + " ";
    s += "key " + join(n.keys) + " ";
    for (auto &r : n.rows) { s += "("; for (auto &v : r) s += v.first + "=" + v.second.str() + " "; s += ")"; }
    return s;
}
Named want(const Database &d, const std::string &t, bool streams) {
    Named n;
    auto &tab = d.tables.at(t);
    for (auto &k : tab.cols) { n.types[k.name] = msiread::typestr(k.type); if (is_key(k.type)) n.keys.push_back(k.name); }
    for (auto &r : tab.rows) {
        std::map<std::string, Val> m;
        for (size_t i = 0; i < tab.cols.size(); i++) m[tab.cols[i].name] = r.second[i].k == Val::BIN && !streams ? Val::N() : r.second[i];
        n.rows.insert(m);
    }
    return n;
}
Named have(mc::Ctx &c, const std::string &p, const std::string &t) {
    Named n;
    Db db = open(p, LIBMSI_DB_FLAGS_READONLY);
    if (!db) c.fail("unreadable", p);
    Snap s = snap(db, false);
    if (!s.tables.count(t)) c.fail("no table", "the table did not arrive");
    auto &v = s.tables[t];
    for (size_t i = 0; i < v.names.size(); i++) n.types[v.names[i]] = v.types[i];
    n.keys = v.keys;
    for (auto &r : v.rows) { std::map<std::string, Val> m; for (size_t i = 0; i < r.size(); i++) m[v.names[i]] = r[i]; n.rows.insert(m); }
    return n;
}
// a column layout: column i has type t[i]; key mask; value shift; naming; number of rows
Database make(const std::vector<int> &t, int keys, int shift, int naming, int nrows, const std::string &table) {
    static const char *names[3][3] = {{"A", "B", "C"}, {"Select", "x y", "K;"}, {"Zeta", "Alpha", "Mid_1"}};
    Database d;
    Tab &tab = d.tables[table];
    for (size_t i = 0; i < t.size(); i++) tab.cols.push_back({names[naming][i], types()[t[i]].type | (keys >> i & 1 ? 0x2000 : 0)});
    std::set<Row> seen;
    for (int j = 0; j < nrows; j++) {
        Row r, k;
        for (size_t i = 0; i < t.size(); i++) { auto &v = types()[t[i]].vals; r.push_back(v[(j + shift * (i + 1)) % v.size()]); if (keys >> i & 1) k.push_back(r.back()); }
        bool nul = true;
        for (auto &x : k) nul &= x.k == Val::NUL;
        if (nul || !seen.insert(k).second) continue;
        tab.rows[r] = r;
        for (auto &v : r) if (v.k == Val::BIN) {
            std::string n = table;
            size_t at = 0;
            for (auto &x : k) {     // a null key cell names the stream by its null value
                while (!(keys >> at & 1)) at++;
                int ty = types()[t[at++]].type;
                n += "." + (x.k == Val::INT ? std::to_string(x.i) : x.k == Val::STR ? x.s : is_str(ty) ? "" : (ty & 0xff) == 4 ? "-2147483648" : "-32768");
            }
            d.streams[n] = v.s;
        }
    }
    return d;
}
void unchanged(mc::Ctx &c, const std::string &p, const std::string &b, const Args &a) { if (readfile(p) != b) c.fail("package changed", shown(a)); }
void prepare(const std::string &d) { mkdir(d.c_str(), 0700); wipe(d); }
const std::vector<std::pair<int, const char *>> PROPS = {{2, "Title"}, {3, "Subject"}, {4, "Author"}, {5, "Keywords"}, {6, "Comments"}, {7, "Template"}, {8, "Last author"}, {9, "Revision number (UUID)"},
    {10, "Edittime"}, {11, "Last printed"}, {12, "Created"}, {13, "Last saved"}, {14, "Version"}, {15, "Source"}, {16, "Restrict"}, {17, "Thumbnail"}, {18, "Application"}, {19, "Security"}};
int ptype(int p) { return p >= 10 && p <= 13 ? 't' : (p >= 14 && p <= 16) || p == 19 ? 'i' : p == 17 ? 0 : 's'; }
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C22";
    chk.technique = "exhaustive enumeration of packages (schemas, key positions, values, names, summary values) written by an independent writer, shown and exported by the built msiinfo and read back";
    chk.rule = "lists, bytes, summary lines and exports equal what was written; an export fed back gives the same table; errors exit non-zero with a message; the package bytes never change; non-trivial: output with content";
    chk.bounds = fmt("schemas of 1-3 columns over 7 types x every key set x %d value shifts x 0-5 rows; every subset of 5 tables x 5 streams; every summary property x value; 30 bad command lines", thorough ? 5 : 2);
    static std::vector<std::pair<std::vector<int>, int>> schemas;
    int T = types().size();
    for (int n = 1; n <= 3; n++) {
        int tot = 1;
        for (int k = 0; k < n; k++) tot *= T;
        for (int x = 0; x < tot; x++) {
            std::vector<int> t;
            for (int k = 0, y = x; k < n; k++, y /= T) t.push_back(y % T);
            if (std::count(t.begin(), t.end(), 6) > 1) continue;        // the streams of a row share a name
            for (int m = 1; m < 1 << n; m++) {
                bool ok = true;
                for (int k = 0; k < n; k++) if (m >> k & 1 && types()[t[k]].type == 0x1900) ok = false;
                if (ok) schemas.push_back({t, m});
            }
        }
    }
    static int shifts = thorough ? 5 : 2;
    static int forms = 2;
    chk.spaces.push_back({"export", "every schema x key set x values: text and SQL export, fed back into an empty package", schemas.size() * shifts * forms, [](mc::Ctx &c, uint64_t i) {
        bool sql = i % 2;
        int shift = i / 2 % shifts;
        auto &s = schemas[i / 2 / shifts];
        int h = (i / 2 / shifts) % 3;
        int nrows = (i / 2 / shifts) % 7 == 3 ? 0 : 5;
        std::string table = h == 1 ? "Tab.1" : "X";
        Database d = make(s.first, s.second, shift, h, nrows, table);
        std::string dir = c.scratch + "/d", p = dir + "/p.msi", b = package(d, shift % 2 ? 3 : 2, 1252);
        prepare(dir);
        writefile(p, b);
        Args a = sql ? Args{"export", "-s", "p.msi", table} : Args{"export", "p.msi", table};
        c.step(str(want(d, table, true)) + (sql ? " as SQL" : " as text"));
        Out o = info(c, a, dir);
        if (o.status) c.fail("refused", o.err);
        unchanged(c, p, b, a);
        Args m = {bin("msibuild"), "q.msi", "-q", o.out};
        if (!sql) { writefile(dir + "/x.idt", o.out); m = {bin("msibuild"), "q.msi", "-i", "x.idt"}; }
        Out r = run(m, dir, c.scratch + "/io");
        sane(c, r, shown(m));
        if (r.status) c.fail(sql ? "SQL not accepted" : "text not accepted", o.out + "\n" + r.err);
        Named w = want(d, table, !sql), g = have(c, dir + "/q.msi", table);
        if (!(w == g)) c.fail(sql ? "other table from SQL" : "other table from text", str(g) + "\nshould be " + str(w) + "\n" + o.out);
        c.state(fmt("%zu %d %d", s.first.size(), s.second, (int)w.rows.size()));
        if (!w.rows.empty()) c.nontrivial();
    }});
    // every kind of column, as a key or not, with or without nulls
    static std::vector<int> words;
    for (int base : {0x502, 0x104, 0x900}) for (int nul : {0, 0x1000}) words.push_back(base | nul);
    for (int local : {0xd00, 0xf00}) for (int nul : {0, 0x1000}) for (int len : {0, 1, 2, 50, 127, 128, 254, 255}) words.push_back(local | nul | len);
    chk.spaces.push_back({"columns", "every kind of column, alone as the key or beside one: text and SQL export, fed back", words.size() * 4, [](mc::Ctx &c, uint64_t i) {
        int t = words[i / 4];
        bool sql = i & 1, key = i & 2;
        if (key && (t & 0xf00) == 0x900) return;
        Database d;
        d.tables["X"].cols = key ? std::vector<msiwrite::Col>{{"V", t | 0x2000}} : std::vector<msiwrite::Col>{{"K", 0x2502}, {"V", t}};
        if ((t & 0xfff) != 0x900 || !sql) {
            Val v = (t & 0xf00) == 0x900 ? Val::B("bytes") : is_str(t) ? Val::S("v") : Val::I(7);
            Row r = key ? Row{v} : Row{Val::I(1), v};
            d.tables["X"].rows[{r[0]}] = r;
            if (v.k == Val::BIN) d.streams["X.1"] = v.s;
        }
        std::string dir = c.scratch + "/d", p = dir + "/p.msi", b = package(d);
        prepare(dir);
        writefile(p, b);
        c.step(str(want(d, "X", true)) + (sql ? " as SQL" : " as text"));
        Out o = info(c, sql ? Args{"export", "-s", "p.msi", "X"} : Args{"export", "p.msi", "X"}, dir);
        if (o.status) c.fail("refused", o.err);
        Args m = {bin("msibuild"), "q.msi", "-q", o.out};
        if (!sql) { writefile(dir + "/x.idt", o.out); m = {bin("msibuild"), "q.msi", "-i", "x.idt"}; }
        Out r = run(m, dir, c.scratch + "/io");
        sane(c, r, shown(m));
        if (r.status) c.fail(sql ? "SQL not accepted" : "text not accepted", o.out + "\n" + r.err);
        Named w = want(d, "X", !sql), g = have(c, dir + "/q.msi", "X");
        if (!(w == g)) c.fail(sql ? "other table from SQL" : "other table from text", str(g) + "\nshould be " + str(w) + "\n" + o.out);
        c.state(fmt("%x %d", t, (int)key));
        c.nontrivial();
    }});
    static const std::vector<std::string> quotes = {"'", "a'b", "''", "\\'", "it's; DROP TABLE `X`"};
    chk.spaces.push_back({"quotes", "strings with quotes: the text export has them, the SQL export refuses", quotes.size() * 2 * 2, [](mc::Ctx &c, uint64_t i) {
        bool key = i / 2 % 2;
        auto &q = quotes[i / 4];
        Database d;
        d.tables["X"].cols = {{"K", 0x2d00}, {"V", 0x1d00}};
        d.tables["X"].rows[{S("a")}] = {S("a"), S("plain")};
        d.tables["X"].rows[{S("b")}] = {key ? Val::S(q) : S("b"), key ? S("v") : Val::S(q)};
        std::string dir = c.scratch + "/d", p = dir + "/p.msi", b = package(d);
        prepare(dir);
        writefile(p, b);
        c.step(str(want(d, "X", true)));
        Out o = info(c, i & 1 ? Args{"export", "-s", "p.msi", "X"} : Args{"export", "p.msi", "X"}, dir);
        if (i & 1) { if (!o.status || o.err.empty()) c.fail("wrong SQL", o.out); return; }
        writefile(dir + "/x.idt", o.out);
        Out r = run({bin("msibuild"), "q.msi", "-i", "x.idt"}, dir, c.scratch + "/io");
        if (r.status) c.fail("text not accepted", o.out);
        if (!(have(c, dir + "/q.msi", "X") == want(d, "X", true))) c.fail("other table from text", o.out);
        c.nontrivial();
    }});
    static const std::vector<std::string> tn = {"X", "Property", "a.b_c", "Tab le", "aaaaaaaaaabbbbbbbbbbccccccccccd"}, sn = {"s", "Binary.x", "with space", "\xc3\xa9t\xc3\xa9", "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgg"};
    static const std::vector<std::string> bytes = {"1", std::string(64, '\0'), std::string(4095, 'q') + "\n", std::string(100000, '\xff') + "end", "a\r\nb\x1a\n"};
    chk.spaces.push_back({"lists", "every subset of tables x streams: both lists and every extraction", 32 * 32, [](mc::Ctx &c, uint64_t i) {
        Database d;
        for (int k = 0; k < 5; k++) if (i >> k & 1) { d.tables[tn[k]].cols = {{"K", 0x2502}}; if (k & 1) d.tables[tn[k]].rows[{Val::I(k)}] = {Val::I(k)}; }
        for (int k = 0; k < 5; k++) if (i >> (5 + k) & 1) d.streams[sn[k]] = bytes[k];
        std::string dir = c.scratch + "/d", p = dir + "/p.msi", b = package(d);
        prepare(dir);
        writefile(p, b);
        c.step(fmt("%zu tables, %zu streams", d.tables.size(), d.streams.size()));
        Out o = info(c, {"tables", "p.msi"}, dir);
        if (o.status) c.fail("refused", "tables " + o.err);
        auto l = lines(o.out);
        std::vector<std::string> w = {"_SummaryInformation", "_ForceCodepage"};
        for (auto &t : d.tables) w.push_back(t.first);
        std::sort(l.begin(), l.end());
        std::sort(w.begin(), w.end());
        if (l != w) c.fail("table list", o.out);
        o = info(c, {"streams", "p.msi"}, dir);
        if (o.status) c.fail("refused", "streams " + o.err);
        l = lines(o.out);
        w.clear();
        for (auto &t : d.streams) w.push_back(t.first);
        std::sort(l.begin(), l.end());
        std::sort(w.begin(), w.end());
        if (l != w) c.fail("stream list", o.out);
        for (auto &s : sn) {
            o = info(c, {"extract", "p.msi", s}, dir);
            if (d.streams.count(s)) { if (o.status || o.out != d.streams[s]) c.fail("stream bytes", s + fmt(": status %d, %zu bytes instead of %zu", o.status, o.out.size(), d.streams[s].size())); }
            else if (!o.status || o.err.empty() || !o.out.empty()) c.fail("missing stream", s + fmt(": status %d ", o.status) + o.err);
        }
        for (auto &t : tn) for (bool sql : {false, true}) {
            o = info(c, sql ? Args{"export", "-s", "p.msi", t} : Args{"export", "p.msi", t}, dir);
            if (d.tables.count(t)) { if (o.status) c.fail("refused", t + " " + o.err); }
            else if (!o.status || o.err.empty()) c.fail("missing table", t + fmt(": status %d ", o.status) + o.err);
        }
        unchanged(c, p, b, {"all"});
        c.state(fmt("%d", (int)i));
        if (!d.streams.empty()) c.nontrivial();
    }});
    static const std::vector<std::string> strs = {"plain", "two words", "colon: x", "%d%s%n", "l\nm", "\xc3\xa9", std::string(300, 'y')};
    static const std::vector<int> ints = {0, 1, -1, 200, 32767, -32768, 65536, 2147483647, -2147483647};
    static const std::vector<long long> times = {0, 1, 59, 86399, 86400, 951782400, 951868800, 1353024000, 2147483647ll, 2147483648ll, 4102444800ll, 253402300799ll, -1, -86400, -2208988800ll, -11644473600ll + 1};
    chk.spaces.push_back({"suminfo", "every property x value, alone and with every other property set", PROPS.size() * 16 * 2, [](mc::Ctx &c, uint64_t i) {
        auto &pr = PROPS[i / 32];
        int v = i / 2 % 16;
        bool others = i & 1;
        std::map<int, std::string> w;
        std::string dir = c.scratch + "/d", p = dir + "/p.msi";
        prepare(dir);
        {
            Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
            Si si(libmsi_summary_info_new(db, 100, nullptr));
            auto set = [&](int id, const char *name, int k) {
                int t = ptype(id);
                if (t == 's' && k < (int)strs.size()) { libmsi_summary_info_set_string(si, (LibmsiProperty)id, strs[k].c_str(), nullptr); w[id] = name + (": " + strs[k]) + "\n"; }
                else if (t == 'i' && k < (int)ints.size()) { libmsi_summary_info_set_int(si, (LibmsiProperty)id, ints[k], nullptr); w[id] = fmt("%s: %d (%x)\n", name, ints[k], ints[k]); }
                else if (t == 't' && k < (int)times.size()) {
                    libmsi_summary_info_set_filetime(si, (LibmsiProperty)id, (guint64)((times[k] + 11644473600ll) * 10000000ll + k), nullptr);
                    GDateTime *g = g_date_time_new_from_unix_utc(times[k]);
                    static const char *wd[] = {"", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"}, *mo[] = {"", "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
                    w[id] = fmt("%s: %s %s %2d %02d:%02d:%02d %d\n", name, wd[g_date_time_get_day_of_week(g)], mo[g_date_time_get_month(g)], g_date_time_get_day_of_month(g), g_date_time_get_hour(g), g_date_time_get_minute(g), g_date_time_get_second(g), g_date_time_get_year(g));
                    g_date_time_unref(g);
                }
            };
            if (others) for (auto &o : PROPS) set(o.first, o.second, (o.first * 5 + v) % 7);
            set(pr.first, pr.second, v);
            libmsi_summary_info_persist(si, nullptr);
            if (commit(db)) c.fail("harness", "commit");
        }
        std::string b = readfile(p).value_or(""), all;
        for (auto &x : PROPS) if (w.count(x.first)) all += w[x.first];
        c.step(all);
        Out o = info(c, {"suminfo", "p.msi"}, dir);
        if (o.status) c.fail("refused", o.err);
        if (o.out != all) c.fail("summary lines", "printed\n" + o.out + "instead of\n" + all);
        unchanged(c, p, b, {"suminfo"});
        c.state(pr.second);
        if (!all.empty()) c.nontrivial();
    }});
    static const std::vector<std::pair<Args, int>> cl = {      // 0: succeeds, 1: fails
        {{}, 1}, {{"help"}, 0}, {{"help", "tables"}, 0}, {{"-h"}, 0}, {{"--help"}, 0}, {{"-v"}, 0}, {{"--version"}, 0}, {{"nonsense"}, 1}, {{"nonsense", "p.msi"}, 1}, {{"p.msi"}, 1},
        {{"tables"}, 1}, {{"tables", "p.msi", "x"}, 1}, {{"tables", "missing.msi"}, 1}, {{"tables", "g.bin"}, 1}, {{"tables", "empty"}, 1}, {{"tables", "."}, 1},
        {{"streams"}, 1}, {{"streams", "p.msi", "x"}, 1}, {{"streams", "missing.msi"}, 1}, {{"streams", "g.bin"}, 1}, {{"suminfo"}, 1}, {{"suminfo", "missing.msi"}, 1}, {{"suminfo", "g.bin"}, 1}, {{"suminfo", "p.msi", "p.msi"}, 1},
        {{"extract"}, 1}, {{"extract", "p.msi"}, 1}, {{"extract", "p.msi", "none"}, 1}, {{"extract", "p.msi", ""}, 1}, {{"extract", "missing.msi", "s"}, 1}, {{"extract", "g.bin", "s"}, 1}, {{"extract", "p.msi", "s", "t"}, 1}, {{"extract", "p.msi", "s"}, 0},
        {{"export"}, 1}, {{"export", "p.msi"}, 1}, {{"export", "-s", "p.msi"}, 1}, {{"export", "p.msi", "None"}, 1}, {{"export", "-s", "p.msi", "None"}, 1}, {{"export", "p.msi", "x"}, 1}, {{"export", "missing.msi", "X"}, 1}, {{"export", "-s", "missing.msi", "X"}, 1}, {{"export", "g.bin", "X"}, 1},
        {{"export", "p.msi", "X", "Y"}, 1}, {{"export", "p.msi", ""}, 1}, {{"export", "p.msi", "X"}, 0}, {{"export", "-s", "p.msi", "X"}, 0}, {{"tables", "p.msi"}, 0}, {{"streams", "p.msi"}, 0}, {{"suminfo", "p.msi"}, 0}, {{"export", "p.msi", "_SummaryInformation"}, 0}, {{"export", "p.msi", "_ForceCodepage"}, 0}, {{"export", "p.msi", "_Columns"}, 0}, {{"export", "-s", "p.msi", "X` WHERE `K` = 1 OR `K"}, 1},
    };
    chk.spaces.push_back({"command-lines", "every good and bad command line, with output to a file and to a full device", cl.size() * 2, [](mc::Ctx &c, uint64_t i) {
        auto &a = cl[i / 2].first;
        bool full = i & 1;
        std::string dir = c.scratch + "/d";
        prepare(dir);
        Database d;
        d.tables["X"].cols = {{"K", 0x2502}};
        d.tables["X"].rows[{Val::I(1)}] = {Val::I(1)};
        d.streams["s"] = "stream";
        { Db db = open(dir + "/p.msi", LIBMSI_DB_FLAGS_CREATE); build(db, d); summary(2, Val::S("title")).run(db, dir); commit(db); }
        writefile(dir + "/g.bin", std::string(2000, 'g'));
        writefile(dir + "/empty", "");
        auto before = tree(dir);
        Args v = {bin("msiinfo")};
        v.insert(v.end(), a.begin(), a.end());
        c.step(shown(v) + (full ? " > /dev/full" : ""));
        Out o;
        if (full) {
            Args s = {"/bin/sh", "-c", "exec \"$@\" > /dev/full", "sh"};
            s.insert(s.end(), v.begin(), v.end());
            o = run(s, dir, c.scratch + "/io");
        } else o = run(v, dir, c.scratch + "/io");
        sane(c, o, shown(v));
        bool fails = cl[i / 2].second || full;
        if (fails && !a.empty() && a[0][0] == '-' && full) return;
        if (full && !a.empty() && a[0] == "help") return;
        if (fails && !o.status) c.fail("failure not reported", shown(v) + (full ? " on a full device" : ""));
        if (fails && o.err.empty()) c.fail("silent failure", shown(v));
        if (!fails && (o.status || o.out.empty())) c.fail("refused", shown(v) + " " + o.err);
        if (tree(dir) != before) c.fail("files changed", difftree(before, tree(dir)));
        c.state(fmt("%d %d", (int)full, o.status));
        if (!fails) c.nontrivial();
    }});
    // the tables of the format itself: rows, and no statement that creates them
    chk.spaces.push_back({"system", "the SQL export of the system tables for every subset of tables x streams", 4 * 32 * 8, [](mc::Ctx &c, uint64_t i) {
        static const char *sys[] = {"_Tables", "_Columns", "_Streams", "_Storages"};
        int which = i % 4, ts = i / 4 % 32, ss = i / 128;
        Database d;
        std::multiset<std::string> want;
        for (int k = 0; k < 5; k++) if (ts >> k & 1) {
            d.tables[tn[k]].cols = {{"K", 0x2502}, {"S", 0x1d00 | k}};
            d.tables[tn[k]].rows[{Val::I(1)}] = {Val::I(1), Val::S("x")};
            if (which == 0) want.insert("INSERT INTO `_Tables` (`Name`) VALUES ('" + tn[k] + "')");
            if (which == 1) for (int x = 0; x < 2; x++) want.insert(fmt("INSERT INTO `_Columns` (`Table`, `Number`, `Name`, `Type`) VALUES ('%s', %d, '%s', %d)", tn[k].c_str(), x + 1, x ? "S" : "K", x ? 0x1d00 | k : 0x2502));
        }
        for (int k = 0; k < 3; k++) if (ss >> k & 1) {
            d.streams[sn[k]] = "bytes";
            if (which == 2) want.insert("INSERT INTO `_Streams` (`Name`, `Data`) VALUES ('" + sn[k] + "', '')");
        }
        std::string dir = c.scratch + "/d", p = dir + "/p.msi", b = package(d);
        prepare(dir);
        writefile(p, b);
        c.step(fmt("tables %d, streams %d: %s", ts, ss, sys[which]));
        Out o = info(c, {"export", "-s", "p.msi", sys[which]}, dir);
        if (o.status) c.fail("refused", o.err);
        auto l = lines(o.out);
        std::multiset<std::string> have;
        for (auto &x : l) if (x.find("SummaryInformation") == std::string::npos) have.insert(x);
        if (have != want) c.fail("other rows of a system table", o.out + "\nshould be\n" + join(std::vector<std::string>(want.begin(), want.end())));
        c.state(fmt("%d %zu", which, want.size()));
        if (!want.empty()) c.nontrivial();
    }});
    // every system call of every command, failing or cut short
    static const std::vector<Args> fc = {{"tables", "p.msi"}, {"streams", "p.msi"}, {"suminfo", "p.msi"}, {"extract", "p.msi", "s"}, {"extract", "p.msi", "large"}, {"export", "p.msi", "X"}, {"export", "-s", "p.msi", "X"}, {"export", "p.msi", "_SummaryInformation"}, {"export", "p.msi", "_ForceCodepage"}, {"export", "p.msi", "Y"}, {"export", "-s", "p.msi", "Y"}};
    static std::string package;
    static std::vector<Out> clean(fc.size());
    static std::vector<std::map<std::string, std::string>> left(fc.size());
    static std::vector<std::pair<int, toolfault::Point>> fp;
    chk.setup = [&chk](bool) {
        const char *b = getenv("MC_SCRATCH");
        std::string dir = (b ? std::string(b) : "/tmp") + "/c22";
        prepare(dir);
        Database d;
        d.tables["X"].cols = {{"K", 0x2502}, {"S", 0xd00 | 0x1000}};
        for (int i = 1; i < 400; i++) d.tables["X"].rows[{Val::I(i)}] = {Val::I(i), Val::S(fmt("the string of row %d", i))};
        d.tables["Y"].cols = {{"K", 0x2502}, {"D", 0x1900}};
        d.streams["s"] = "stream";
        d.streams["large"] = std::string(70001, 'l');
        for (int i = 1; i < 3; i++) { d.tables["Y"].rows[{Val::I(i)}] = {Val::I(i), Val::B(std::string(3000 * i, 'y'))}; d.streams[fmt("Y.%d", i)] = std::string(3000 * i, 'y'); }
        { Db db = open(dir + "/p.msi", LIBMSI_DB_FLAGS_CREATE); build(db, d); summary(2, Val::S("title")).run(db, dir); commit(db); }
        package = readfile(dir + "/p.msi").value_or("");
        for (size_t i = 0; i < fc.size(); i++) {
            prepare(dir);
            writefile(dir + "/p.msi", package);
            Args v = {bin("msiinfo")};
            v.insert(v.end(), fc[i].begin(), fc[i].end());
            std::vector<ptr::Ev> evs;
            clean[i] = toolfault::run(v, dir, dir + "-io", {}, &evs);
            left[i] = tree(dir);
            for (auto &p : toolfault::points(evs)) fp.push_back({(int)i, p});
        }
        prepare(dir);
        rmdir(dir.c_str());
        chk.spaces.back().count = fp.size();
    };
    auto faults = [](mc::Ctx &c, uint64_t i) {
        auto &k = fc[fp[i].first];
        auto &p = fp[i].second;
        auto &ref = clean[fp[i].first];
        std::string dir = c.scratch + "/d";
        prepare(dir);
        writefile(dir + "/p.msi", package);
        Args v = {bin("msiinfo")};
        v.insert(v.end(), k.begin(), k.end());
        c.step(shown(v));
        c.step(p.where + fmt(" (call %ld, %ld)", p.plan.at, p.plan.arg));
        if (ref.status) c.fail("refused", shown(k) + " " + ref.err);
        Out o = toolfault::run(v, dir, c.scratch + "/io", p.plan);
        if (o.hang) c.fail("does not end", shown(v) + " " + p.where);
        if (o.crash) c.fail("dies", shown(v) + " " + p.where + fmt(": signal %d; ", o.status - 128) + o.err.substr(0, 300));
        auto t = tree(dir);
        std::string what = k[0] + " " + p.where;
        if (t["p.msi"] != package) c.fail("package changed", what);
        if (p.partial && o.status) c.fail("partial transfer refused", what + " " + o.err);
        if (!o.status && o.out != ref.out) c.fail("incomplete output " + k[0], what + fmt(": %d bytes of %d, and success", (int)o.out.size(), (int)ref.out.size()));
        if (!o.status && t != left[fp[i].first]) c.fail("incomplete files " + k[0], what + "\n" + difftree(left[fp[i].first], t));
        if (o.status && o.err.empty()) c.fail("silent failure " + k[0], what);
        c.state(what + fmt(" %d", o.status));
        if (o.status) c.nontrivial();
    };
    chk.spaces.push_back({"faults", "every system call of every command on the package, on what it writes and on its output: failing, failing from there on, cut short", 1, faults});
    return mc::run(chk, argc, argv);
}
