// C20: integers keep their exact value or are refused.
#include "content.hpp"
#include "msiread.hpp"
#include "msiwrite.hpp"
using namespace msiwrite;

namespace {
constexpr int KEYBIT = 0x2000, NULLABLE = 0x1000;
struct Ty { const char *sql; int bytes; bool null; bool key; const char *idt; int stored; };
const std::vector<Ty> TY = {
    {"SHORT", 2, true, false, "I2", 0x1502}, {"SHORT NOT NULL", 2, false, false, "i2", 0x502}, {"LONG", 4, true, false, "I4", 0x1104}, {"LONG NOT NULL", 4, false, false, "i4", 0x104},
    {"SHORT NOT NULL", 2, false, true, "i2", 0x2502}, {"LONG NOT NULL", 4, false, true, "i4", 0x2104}, {"INT", 2, true, false, "I2", 0x1502}, {"INTEGER NOT NULL", 2, false, false, "i2", 0x502},
};
bool fits(const Ty &t, long long v) { return t.bytes == 2 ? v >= -32767 && v <= 32767 : v >= -2147483647ll && v <= 2147483647ll; }
using Want = std::map<std::string, Val>;           // K -> V
void create(mc::Ctx &c, LibmsiDatabase *db, const Ty &t, const std::string &name = "X") {
    int e = exec(db, "CREATE TABLE `" + name + "` (`K` CHAR(40) NOT NULL, `V` " + t.sql + " PRIMARY KEY " + (t.key ? "`V`, `K`" : "`K`") + ")");
    if (e) c.fail("create", fmt("%d", e));
}
void compare(mc::Ctx &c, LibmsiDatabase *db, const Want &w, const std::string &when) {
    GError *e = nullptr;
    Query q(libmsi_query_new(db, "SELECT `K`, `V` FROM `X`", &e));
    if (!q || !libmsi_query_execute(q, nullptr, &e)) { g_clear_error(&e); c.fail("unreadable", when); }
    Want got;
    for (;;) {
        Rec r(libmsi_query_fetch(q, nullptr));
        if (!r) break;
        gchar *k = libmsi_record_get_string(r, 1), *s = libmsi_record_get_string(r, 2);
        Val v = libmsi_record_is_null(r, 2) ? Val::N() : Val::I(libmsi_record_get_int(r, 2));
        std::string ks = k ? k : "", ss = s ? s : "";
        g_free(k);
        g_free(s);
        if (v.k == Val::INT && ss != std::to_string(v.i)) c.fail("string", when + ": " + ks + " is " + v.str() + " but '" + ss + "' as a string");
        if (v.k == Val::NUL && (!ss.empty() || libmsi_record_get_int(r, 2) != (int)LIBMSI_NULL_INT)) c.fail("null", when + ": " + ks + " is null and '" + ss + "'");
        if (got.count(ks)) c.fail("twice", when + ": " + ks);
        got[ks] = v;
    }
    for (auto &x : w) {
        auto it = got.find(x.first);
        if (it == got.end()) c.fail("lost", when + ": " + x.first + " with " + x.second.str() + " is missing");
        if (!(it->second == x.second)) c.fail("value", when + ": " + x.first + " is " + it->second.str() + ", not " + x.second.str());
    }
    for (auto &x : got) if (!w.count(x.first)) c.fail("extra", when + ": " + x.first + " with " + x.second.str());
}
void stored(mc::Ctx &c, const std::string &p, Db &db, const Want &w, bool reopen_only = false) {
    compare(c, db, w, "before the commit");
    if (!reopen_only) if (int e = commit(db)) c.fail("commit", fmt("%d", e));
    compare(c, db, w, "after the commit");
    db.reset();
    Db r = open(p, LIBMSI_DB_FLAGS_READONLY);
    if (!r) c.fail("reopen", "does not open");
    compare(c, r, w, "after reopening");
    try {
        auto m = msiread::read(readfile(p).value_or(""));
        Want f;
        auto it = m.snap.tables.find("X");
        if (it != m.snap.tables.end()) {
            auto &t = it->second;
            size_t k = t.names[0] == "K" ? 0 : 1;
            for (auto &row : t.rows) f[row[k].s] = row[1 - k];
        }
        if (f != w) c.fail("file", "an independent reader sees other values");
    } catch (msiread::Err &e) { c.fail("file", e.what); }
    c.state(fmt("%zu", w.size()) + (w.empty() ? "" : w.begin()->first + w.rbegin()->first));
    if (!w.empty()) c.nontrivial();
}
// blocks of numbers: every number near the 2-byte range, and those around powers of two
const std::vector<std::vector<long long>> &blocks(bool thorough) {
    static std::vector<std::vector<long long>> b;
    if (!b.empty()) return b;
    long long lim = thorough ? 132000 : 66000;
    for (long long v = -lim; v < lim; v += 250) { b.push_back({}); for (long long k = 0; k < 250; k++) b.back().push_back(v + k); }
    std::set<long long> s;
    for (int p = 15; p <= 34; p++) for (long long d = -3; d <= 3; d++) for (int sg : {-1, 1}) { s.insert(sg * (1ll << p) + d); s.insert(sg * ((1ll << p) + 32768) + d); s.insert(sg * ((1ll << p) - 32768) + d); }
    for (int b8 = 0; b8 < 256; b8++) for (int sh = 0; sh < 32; sh += 8) s.insert((int)((unsigned)b8 << sh)), s.insert((int)(0x12345678 & ~(255u << sh)) | (int)((unsigned)b8 << sh));
    for (long long x : {10000000000ll, -10000000000ll, 99999999999999ll, 4294967296ll, 4294967297ll, -4294967295ll, 21474836480ll}) s.insert(x);
    std::vector<long long> all(s.begin(), s.end());
    for (size_t i = 0; i < all.size(); i += 100) b.push_back(std::vector<long long>(all.begin() + i, all.begin() + std::min(all.size(), i + 100)));
    return b;
}
bool isnull(long long v) { return v == -2147483648ll; }     // the API's null
int put(LibmsiDatabase *db, const std::string &sql, LibmsiRecord *r) {
    GError *e = nullptr;
    Query q(libmsi_query_new(db, sql.c_str(), &e));
    if (!q) return code(FALSE, e);
    gboolean ok = libmsi_query_execute(q, r, &e);
    int x = code(ok, e);
    libmsi_query_close(q, nullptr);
    return x;
}
std::string sig(const char *route, const Ty &t, bool ok) { return std::string(ok ? "refused " : "accepted ") + route + " " + (t.bytes == 2 ? "2" : "4") + (t.key ? " key" : ""); }
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C20";
    chk.technique = "exhaustive enumeration of all 2-byte integers and their surroundings, and of 4-byte boundary values, over every way a value enters a database, on the real library with an independent reader of the file";
    chk.rule = "a number that fits is stored and reads back as the same non-null number before and after commit and reopen, as integer and as string; one that does not is refused and changes nothing; non-trivial: numbers were stored";
    static auto &A = blocks(thorough);
    static auto edge = [](const std::vector<long long> &b) {
        for (long long m : {-65536, -32768, -256, 0, 256, 32768, 65536}) if (b.back() >= m - 600 && b.front() <= m + 600) return true;
        return b.size() != 250;
    };
    static std::vector<std::vector<long long>> B;
    for (auto &b : A) if (thorough || edge(b)) B.push_back(b);
    static bool all = thorough;
    chk.bounds = fmt("every integer of +-%d by insert (three column kinds by literal and parameter) and %s by insert/update/import/merge/transform, literal/parameter/decimal string, x 8 column kinds", thorough ? 132000 : 66000, thorough ? "the same numbers and those around powers of two and byte patterns" : "those within 600 of multiples of 2^15, of 0 and +-256, around powers of two and byte patterns");
    static const char *route[] = {"insert literal", "insert parameter", "insert string", "temporary row", "padded literal"};
    chk.spaces.push_back({"insert", "every block of numbers x column kind x route", A.size() * TY.size() * 5, [](mc::Ctx &c, uint64_t i) {
        auto &t = TY[i % TY.size()];
        int how = i / TY.size() % 5;
        auto &b = A[i / TY.size() / 5];
        if (!all && !edge(b) && (i % TY.size() > 2 || how > 1)) return;
        clean(c.scratch);
        std::string p = c.scratch + "/i.msi";
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
        create(c, db, t);
        c.step(fmt("%s, %s, %lld to %lld", route[how], t.sql, b.front(), b.back()));
        Want w;
        for (long long v : b) {
            std::string k = fmt("k%lld", v), ins = "INSERT INTO `X` (`K`, `V`) VALUES ('" + k + "', ";
            int e;
            if (how == 1) {
                if (v != (int)v || isnull(v)) continue;
                e = exec(db, ins + "?)", {Val::I(v)});
            } else if (how == 2) {
                e = exec(db, ins + "?)", {Val::S(std::to_string(v))});
                if (!fits(t, v) && e == 0) {
                    // digit strings wrap modulo 2^32, so it is another number that was given
                    int m = (int)(uint32_t)v;
                    if (v != (long long)m && (fits(t, m) || m == INT32_MIN)) { w[k] = fits(t, m) ? Val::I(m) : Val::N(); continue; }
                }
            } else e = exec(db, ins + (how == 4 ? fmt(v < 0 ? "- 000%lld" : "000%lld", v < 0 ? -v : v) : std::to_string(v)) + ")" + (how == 3 ? " TEMPORARY" : ""));
            if (fits(t, v) != (e == 0)) c.fail(sig(route[how], t, e != 0), fmt("%lld into %s: %d", v, t.sql, e));
            if (e == 0) w[k] = Val::I(v);
        }
        if (how == 3) { compare(c, db, w, "temporary rows"); if (!w.empty()) c.nontrivial(); return; }
        stored(c, p, db, w);
    }});
    static const char *ur[] = {"update literal", "update parameter", "update string", "update where"};
    chk.spaces.push_back({"update", "every block x column kind x route, over a null or another number", B.size() * TY.size() * 4, [](mc::Ctx &c, uint64_t i) {
        auto &t = TY[i % TY.size()];
        if (t.key) return;
        int how = i / TY.size() % 4;
        auto &b = B[i / TY.size() / 4];
        clean(c.scratch);
        std::string p = c.scratch + "/u.msi";
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
        create(c, db, t);
        c.step(fmt("%s, %s, %lld to %lld", ur[how], t.sql, b.front(), b.back()));
        Want w;
        for (long long v : b) {
            std::string k = fmt("k%lld", v);
            bool null = t.null && v % 2;
            if (how == 1 && (v != (int)v || isnull(v))) continue;
            exec(db, "INSERT INTO `X` (`K`, `V`) VALUES ('" + k + "', ?)", {null ? Val::N() : Val::I(-77)});
            w[k] = null ? Val::N() : Val::I(-77);
            int e;
            std::string wh = " WHERE `K` = '" + k + "'";
            if (how == 0) e = exec(db, "UPDATE `X` SET `V` = " + std::to_string(v) + wh);
            else if (how == 1) e = exec(db, "UPDATE `X` SET `V` = ?" + wh, {Val::I(v)});
            else if (how == 2) {
                e = exec(db, "UPDATE `X` SET `V` = ?" + wh, {Val::S(std::to_string(v))});
                int m = (int)(uint32_t)v;
                if (!fits(t, v) && e == 0 && v != (long long)m && (fits(t, m) || m == INT32_MIN)) { w[k] = fits(t, m) ? Val::I(m) : Val::N(); continue; }
            } else e = exec(db, "UPDATE `X` SET `V` = " + std::to_string(v) + (null ? " WHERE `V` IS NULL" : " WHERE `V` = -77"));
            if (fits(t, v) != (e == 0)) c.fail(sig(ur[how], t, e != 0), fmt("%lld into %s: %d", v, t.sql, e));
            if (e == 0) w[k] = Val::I(v);
            else if (how == 3) { exec(db, "DELETE FROM `X` WHERE `K` = '" + k + "'"); w.erase(k); }       // so that the next one is alone
            if (e == 0 && how == 3 && v == -77) { exec(db, "DELETE FROM `X` WHERE `K` = '" + k + "'"); w.erase(k); }
        }
        stored(c, p, db, w);
    }});
    chk.spaces.push_back({"where", "every block x column kind: each number is found by itself, and by nothing else", B.size() * TY.size(), [](mc::Ctx &c, uint64_t i) {
        auto &t = TY[i % TY.size()];
        auto &b = B[i / TY.size()];
        clean(c.scratch);
        std::string p = c.scratch + "/w.msi";
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
        create(c, db, t);
        c.step(fmt("%s, %lld to %lld", t.sql, b.front(), b.back()));
        std::vector<long long> in;
        for (long long v : b) if (fits(t, v)) { if (exec(db, fmt("INSERT INTO `X` (`K`, `V`) VALUES ('k%lld', ?)", v), {Val::I(v)})) c.fail("insert", fmt("%lld", v)); in.push_back(v); }
        size_t n = 0;
        for (size_t k = 0; k < in.size(); k += c.thorough ? 1 : 7) {
            long long v = in[k];
            n = std::count_if(in.begin(), in.end(), [&](long long x) { return x < v; });
            struct { std::string cond; Row par; size_t want; } qs[] = {{fmt("`V` = %lld", v), {}, 1}, {"`V` = ?", {Val::I(v)}, 1}, {fmt("`V` < %lld", v), {}, n}, {"`V` >= ?", {Val::I(v)}, in.size() - n}, {fmt("`V` <> %lld", v), {}, in.size() - 1}};
            for (auto &x : qs) {
                Res r = query(db, "SELECT `V` FROM `X` WHERE " + x.cond, x.par);
                if (!r.ok() || r.rows.size() != x.want) c.fail("where", x.cond + fmt(" (%lld) finds %zu rows, not %zu", v, r.rows.size(), x.want));
            }
        }
        if (!in.empty()) c.nontrivial();
    }});
    chk.spaces.push_back({"import", "every block x column kind, as an archive, into a new or existing table; one that does not fit refuses the archive", B.size() * TY.size() * 2, [](mc::Ctx &c, uint64_t i) {
        bool exists = i & 1;
        auto &t = TY[i / 2 % TY.size()];
        auto &b = B[i / 2 / TY.size()];
        clean(c.scratch);
        std::string p = c.scratch + "/m.msi", a = c.scratch + "/m.idt";
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
        if (exists) create(c, db, t);
        std::string head = t.key ? std::string("V\tK\r\n") + t.idt + "\ts40\r\nX\tV\tK\r\n" : std::string("K\tV\r\ns40\t") + t.idt + "\r\nX\tK\r\n";
        std::string rows;
        Want w;
        long long bad[3] = {0, 0, 0};
        int nb = 0;
        auto row = [&](long long v) { return t.key ? fmt("%lld\tk%lld\r\n", v, v) : fmt("k%lld\t%lld\r\n", v, v); };
        for (long long v : b) {
            if (fits(t, v)) { rows += row(v); w[fmt("k%lld", v)] = Val::I(v); }
            else bad[nb < 3 ? nb++ : 2] = v;
        }
        c.step(fmt("archive, %s, %lld to %lld, table %s", t.sql, b.front(), b.back(), exists ? "there" : "absent"));
        writefile(a, head + rows);
        if (nb) {       // an archive is applied row by row: a refused one is tried on another database
            Db o = open(c.scratch + "/o.msi", LIBMSI_DB_FLAGS_CREATE);
            if (exists) create(c, o, t);
            for (int k = 0; k < nb; k++) {
                writefile(a, head + row(bad[k]));
                if (!import_table(o, a)) c.fail(sig("import", t, false), fmt("%lld", bad[k]));
            }
            compare(c, o, {}, "after refused archives");
            writefile(a, head + rows);
        }
        if (int e = import_table(db, a)) c.fail(sig("import", t, true), fmt("%d", e));
        stored(c, p, db, w);
    }});
    chk.spaces.push_back({"merge", "every block x column kind, merged into an empty table, a table with other rows, or none", B.size() * TY.size() * 3, [](mc::Ctx &c, uint64_t i) {
        int how = i % 3;
        auto &t = TY[i / 3 % TY.size()];
        auto &b = B[i / 3 / TY.size()];
        Want w;
        clean(c.scratch);
        std::string p = c.scratch + "/t.msi";
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE), ref = open(c.scratch + "/r.msi", LIBMSI_DB_FLAGS_CREATE);
        create(c, ref, t);
        if (how) create(c, db, t);
        if (how == 2) for (int v : {-32767, -1, 0, 1, 32767}) { exec(db, fmt("INSERT INTO `X` (`K`, `V`) VALUES ('o%d', ?)", v), {Val::I(v)}); w[fmt("o%d", v)] = Val::I(v); }
        bool any = false;
        for (long long v : b) if (fits(t, v)) { any = true; if (exec(ref, fmt("INSERT INTO `X` (`K`, `V`) VALUES ('k%lld', ?)", v), {Val::I(v)})) c.fail("insert", fmt("%lld", v)); w[fmt("k%lld", v)] = Val::I(v); }
        if (!any) return;
        c.step(fmt("merge, %s, %lld to %lld", t.sql, b.front(), b.back()));
        GError *e = nullptr;
        gboolean ok = libmsi_database_merge(db, ref, nullptr, &e);
        if (int x = code(ok, e)) c.fail("merge", fmt("%d", x));
        stored(c, p, db, w);
    }});
    chk.spaces.push_back({"transform", "every block x column kind, as added rows, changed cells or whole rows of a transform", B.size() * TY.size() * 3, [](mc::Ctx &c, uint64_t i) {
        int change = i % 3;
        auto &t = TY[i / 3 % TY.size()];
        auto &b = B[i / 3 / TY.size()];
        if (t.key && change) return;
        Database from, to;
        from.tables["X"].cols = to.tables["X"].cols = t.key ? std::vector<Col>{{"V", t.stored}, {"K", 0xd28 | KEYBIT}} : std::vector<Col>{{"K", 0xd28 | KEYBIT}, {"V", t.stored}};
        Want w;
        for (long long v : b) if (fits(t, v)) {
            Val k = Val::S(fmt("k%lld", v));
            if (change) from.row("X", {k, t.null && v % 2 ? Val::N() : Val::I(-78)});
            to.row("X", t.key ? Row{Val::I(v), k} : Row{k, t.null && v % 5 == 0 ? Val::N() : Val::I(v)});
            w[k.s] = t.null && v % 5 == 0 ? Val::N() : Val::I(v);
        }
        if (w.empty()) return;
        clean(c.scratch);
        std::string p = c.scratch + "/f.msi", m = c.scratch + "/t.mst";
        Style st;
        st.change = change == 2 ? 2 : 0;
        writefile(p, package(from));
        Cfb x = transform(from, to, st);
        x.raw("\5SummaryInformation", transform_summary());
        writefile(m, x.bytes());
        c.step(fmt("transform, %s, %lld to %lld, style %d", t.sql, b.front(), b.back(), change));
        Db db = open(p, LIBMSI_DB_FLAGS_TRANSACT);
        GError *e = nullptr;
        gboolean ok = libmsi_database_apply_transform(db, m.c_str(), &e);
        if (int r = code(ok, e)) c.fail("transform", fmt("%d", r));
        stored(c, p, db, w);
    }});
    // NULL, zero and the empty string
    chk.spaces.push_back({"null", "every assignment of NULL, zero, the extremes, the empty string and a digit to cells of every kind, by each route", 7 * 7 * 4 * 3, [](mc::Ctx &c, uint64_t i) {
        static const std::vector<Val> iv = {Val::N(), Val::I(0), Val::I(1), Val::I(-1), Val::I(32767), Val::I(-32767), Val::I(7)};
        static const std::vector<Val> sv = {Val::N(), Val::S(""), Val::S("0"), Val::S(" "), Val::S("-"), Val::S("NULL"), Val::S("x")};
        Val a = iv[i % 7], s = sv[i / 7 % 7];
        int how = i / 49 % 4, round = i / 196;
        clean(c.scratch);
        std::string p = c.scratch + "/n.msi";
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
        exec(db, "CREATE TABLE `N` (`K` CHAR(10) NOT NULL, `A` SHORT, `B` LONG, `S` CHAR(20), `L` LONGCHAR PRIMARY KEY `K`)");
        c.step("integer " + a.str() + ", string " + s.str() + fmt(", route %d, round %d", how, round));
        Row par = {Val::S("k"), a, a, s, s};
        auto lit = [](const Val &v) { return v.k == Val::INT ? std::to_string(v.i) : "'" + v.s + "'"; };
        int e = 0;
        if (how == 0) e = exec(db, "INSERT INTO `N` (`K`,`A`,`B`,`S`,`L`) VALUES (?,?,?,?,?)", par);
        else if (how == 1) {
            std::string cl = "`K`", vl = "'k'";
            if (a.k == Val::INT) { cl += ",`A`,`B`"; vl += "," + lit(a) + "," + lit(a); }
            if (s.k == Val::STR) { cl += ",`S`,`L`"; vl += "," + lit(s) + "," + lit(s); }
            e = exec(db, "INSERT INTO `N` (" + cl + ") VALUES (" + vl + ")");
        } else if (how == 2) {
            e = exec(db, "INSERT INTO `N` (`K`,`A`,`B`,`S`,`L`) VALUES ('k',5,6,'old','old')");
            e |= exec(db, "UPDATE `N` SET `A` = ?, `B` = ?, `S` = ?, `L` = ?", {a, a, s, s});
        } else {
            std::string f = a.k == Val::INT ? std::to_string(a.i) : "";
            writefile(c.scratch + "/n.idt", "K\tA\tB\tS\tL\r\ns10\tI2\tI4\tS20\tS0\r\nN\tK\r\nk\t" + f + "\t" + f + "\t" + s.s + "\t" + s.s + "\r\n");
            e = import_table(db, c.scratch + "/n.idt");
        }
        if (e) c.fail("refused", fmt("%d", e));
        Val ws = s.k == Val::STR && s.s.empty() ? Val::N() : s;      // the format has no empty string but NULL
        Row want = {Val::S("k"), a, a, ws, ws};
        for (int r = 0; r <= round; r++) {
            Res q = query(db, "SELECT * FROM `N`");
            if (!q.ok() || q.rows != Rows{want}) c.fail("null", show(q.rows) + " for " + show(want));
            for (auto col : {"A", "B", "S", "L"}) {
                bool n = (col[0] < 'C' ? a : ws).k == Val::NUL;
                if (query(db, std::string("SELECT `K` FROM `N` WHERE `") + col + "` IS NULL").rows.size() != (n ? 1u : 0u)) c.fail("is-null", std::string(col) + " for " + show(want));
                if (query(db, std::string("SELECT `K` FROM `N` WHERE `") + col + "` IS NOT NULL").rows.size() != (n ? 0u : 1u)) c.fail("is-not-null", std::string(col) + " for " + show(want));
            }
            for (auto col : {"A", "B"}) if (query(db, std::string("SELECT `K` FROM `N` WHERE `") + col + "` = 0").rows.size() != (a.k == Val::INT && a.i == 0 ? 1u : 0u)) c.fail("is-zero", std::string(col) + " for " + show(want));
            if (r < round) {
                if (int x = commit(db)) c.fail("commit", fmt("%d", x));
                if (r) { db.reset(); db = open(p, LIBMSI_DB_FLAGS_TRANSACT); }
            }
        }
        c.state(show(want));
        c.nontrivial();
    }});
    // what is no number is refused
    static const std::vector<std::string> bad = {"x", "1x", "1.5", "--1", "1-", "0x10", "1e3", "one", "-", "+1", "1,0"};
    chk.spaces.push_back({"not-numbers", "texts that are no numbers given to integer columns", bad.size() * TY.size() * 4, [](mc::Ctx &c, uint64_t i) {
        const std::string &s = bad[i % bad.size()];
        auto &t = TY[i / bad.size() % TY.size()];
        int how = i / bad.size() / TY.size();
        clean(c.scratch);
        std::string p = c.scratch + "/b.msi";
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
        create(c, db, t);
        exec(db, "INSERT INTO `X` (`K`, `V`) VALUES ('old', 5)");
        if (how == 3 && s == "+1") return;      // a number in an archive may have a sign
        c.step("'" + s + "' into " + t.sql + fmt(", route %d", how));
        int e;
        if (how == 0) e = exec(db, "INSERT INTO `X` (`K`, `V`) VALUES ('k', '" + s + "')");
        else if (how == 1) e = exec(db, "INSERT INTO `X` (`K`, `V`) VALUES ('k', ?)", {Val::S(s)});
        else if (how == 2) e = exec(db, "UPDATE `X` SET `V` = ?", {Val::S(s)});
        else {
            writefile(c.scratch + "/b.idt", t.key ? std::string("V\tK\r\n") + t.idt + "\ts40\r\nX\tV\tK\r\n" + s + "\tk\r\n" : std::string("K\tV\r\ns40\t") + t.idt + "\r\nX\tK\r\nk\t" + s + "\r\n");
            e = import_table(db, c.scratch + "/b.idt");
        }
        if (!e) c.fail("not-a-number", "'" + s + "' accepted as an integer" + fmt(" by route %d", how));
        if (how == 3) compare(c, db, {}, "after a refused archive");     // the rows of an archive replace those of the table
        else stored(c, p, db, {{"old", Val::I(5)}});
    }});
    return mc::run(chk, argc, argv);
}
