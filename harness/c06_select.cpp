// C06: joins, ORDER BY, DISTINCT and column lists.
//
// Every database of a bounded family (all fillings of three small tables from a
// small value domain) is asked every query of a grammar of table lists,
// conditions, column lists, DISTINCT and ORDER BY; the rows, their order, the
// names and the types are compared with a direct evaluation over the product.
#include "msi.hpp"
using namespace msi;

namespace {
struct Col { const char *name; const char *type; };
struct Tab { const char *name; std::vector<Col> cols; const char *create; };
// every table has its own column names; K is in all of them and is qualified
const Tab TABS[] = {
    {"A", {{"K", "i2"}, {"X", "I2"}, {"S", "S4"}}, "CREATE TABLE `A` (`K` SHORT NOT NULL, `X` SHORT, `S` CHAR(4) PRIMARY KEY `K`)"},
    {"B", {{"K", "i2"}, {"Y", "I2"}, {"T", "S0"}}, "CREATE TABLE `B` (`K` SHORT NOT NULL, `Y` SHORT, `T` LONGCHAR PRIMARY KEY `K`)"},
    {"C", {{"K", "i2"}, {"Z", "I2"}, {"L", "I4"}}, "CREATE TABLE `C` (`K` SHORT NOT NULL, `Z` SHORT, `L` LONG PRIMARY KEY `K`)"},
};
struct Data { Rows t[3]; };
struct CRef { int tab, col; };
using Pred = std::function<bool(const Row &, const Row &, const Row &)>;
struct Cond { std::string text; Row params; Pred p; unsigned uses; };
struct Q {
    std::vector<int> from;
    std::vector<CRef> sel;           // empty: *
    bool distinct = false;
    const Cond *cond;
    std::vector<CRef> order;
    bool qualified = true;
    std::string text;
};

long iv(const Val &v) { return v.k == Val::NUL ? -5000000000L : v.i; }
std::string sv(const Val &v) { return v.k == Val::STR ? v.s : ""; }

std::vector<Cond> conds() {
    std::vector<Cond> v;
    auto add = [&](unsigned uses, std::string t, Pred p, Row params = {}) { v.push_back({t, params, p, uses}); };
    const unsigned A = 1, B = 2, C = 4;
    add(0, "", [](const Row &, const Row &, const Row &) { return true; });
    add(A, "`A`.`X` = 1", [](const Row &a, const Row &, const Row &) { return iv(a[1]) == 1; });
    add(A, "`X` IS NULL", [](const Row &a, const Row &, const Row &) { return a[1].k == Val::NUL; });
    add(A, "`A`.`X` >= ?", [](const Row &a, const Row &, const Row &) { return iv(a[1]) >= 1; }, {Val::I(1)});
    add(A, "`X` > 7", [](const Row &, const Row &, const Row &) { return false; });
    add(A | B, "`A`.`K` = `B`.`K`", [](const Row &a, const Row &b, const Row &) { return iv(a[0]) == iv(b[0]); });
    add(A | B, "`B`.`Y` = `A`.`X`", [](const Row &a, const Row &b, const Row &) { return iv(a[1]) == iv(b[1]); });
    add(A | B, "`X` = `Y` AND `A`.`K` > 1", [](const Row &a, const Row &b, const Row &) { return iv(a[1]) == iv(b[1]) && iv(a[0]) > 1; });
    add(A | B, "`A`.`K` < `B`.`K`", [](const Row &a, const Row &b, const Row &) { return iv(a[0]) < iv(b[0]); });
    add(A | B, "`A`.`X` = 1 OR `B`.`Y` = 2", [](const Row &a, const Row &b, const Row &) { return iv(a[1]) == 1 || iv(b[1]) == 2; });
    add(A | B, "(`X` = 1 OR `Y` = 2) AND `A`.`K` <> `B`.`K`", [](const Row &a, const Row &b, const Row &) { return (iv(a[1]) == 1 || iv(b[1]) == 2) && iv(a[0]) != iv(b[0]); });
    add(A | B, "`S` = `T`", [](const Row &a, const Row &b, const Row &) { return sv(a[2]) == sv(b[2]); });
    add(A | B, "`S` <> `T` AND `T` = 'b'", [](const Row &a, const Row &b, const Row &) { return sv(a[2]) != sv(b[2]) && sv(b[2]) == "b"; });
    add(B, "`Y` = 1", [](const Row &, const Row &b, const Row &) { return iv(b[1]) == 1; });
    add(C, "`C`.`L` > 0", [](const Row &, const Row &, const Row &c) { return iv(c[2]) > 0; });
    add(A | B | C, "`X` = `Y` AND `B`.`Y` = `C`.`Z`", [](const Row &a, const Row &b, const Row &c) { return iv(a[1]) == iv(b[1]) && iv(b[1]) == iv(c[1]); });
    add(A | B | C, "`A`.`K` = `B`.`K` AND `B`.`K` = `C`.`K` AND `A`.`X` = 1", [](const Row &a, const Row &b, const Row &c) { return iv(a[0]) == iv(b[0]) && iv(b[0]) == iv(c[0]) && iv(a[1]) == 1; });
    add(A | C, "`A`.`K` = `C`.`K`", [](const Row &a, const Row &, const Row &c) { return iv(a[0]) == iv(c[0]); });
    add(A | C, "`X` = ? OR `Z` = ?", [](const Row &a, const Row &, const Row &c) { return iv(a[1]) == 2 || iv(c[1]) == 1; }, {Val::I(2), Val::I(1)});
    add(B | C, "`Y` = `Z` OR `L` IS NULL", [](const Row &, const Row &b, const Row &c) { return iv(b[1]) == iv(c[1]) || c[2].k == Val::NUL; });
    add(A | B | C, "`A`.`K` = `C`.`K` AND (`Y` = 1 OR `T` = 'a')", [](const Row &a, const Row &b, const Row &c) { return iv(a[0]) == iv(c[0]) && (iv(b[1]) == 1 || sv(b[2]) == "a"); });
    add(A | B | C, "`X` IS NOT NULL AND `Y` IS NOT NULL AND `Z` IS NOT NULL", [](const Row &a, const Row &b, const Row &c) { return a[1].k && b[1].k && c[1].k; });
    return v;
}
const std::vector<Cond> CONDS = conds();

std::string cname(const CRef &r, bool q) {
    std::string n = TABS[r.tab].cols[r.col].name;
    return q || n == "K" ? fmt("`%s`.`%s`", TABS[r.tab].name, n.c_str()) : "`" + n + "`";
}
void finish(Q &q) {
    q.text = q.distinct ? "SELECT DISTINCT " : "SELECT ";
    if (q.sel.empty()) q.text += "*";
    for (size_t i = 0; i < q.sel.size(); i++) q.text += (i ? ", " : "") + cname(q.sel[i], q.qualified);
    q.text += " FROM ";
    for (size_t i = 0; i < q.from.size(); i++) q.text += (i ? ", `" : "`") + std::string(TABS[q.from[i]].name) + "`";
    if (!q.cond->text.empty()) q.text += " WHERE " + q.cond->text;
    if (!q.order.empty()) q.text += " ORDER BY ";
    for (size_t i = 0; i < q.order.size(); i++) q.text += (i ? ", " : "") + cname(q.order[i], q.qualified);
}

std::vector<Q> queries(bool thorough) {
    std::vector<Q> v;
    std::vector<std::vector<int>> froms = {{0}, {1}, {0, 1}, {1, 0}, {0, 2}, {0, 1, 2}, {2, 0, 1}};
    if (thorough) { froms.push_back({2}); froms.push_back({1, 2}); froms.push_back({2, 1, 0}); froms.push_back({1, 0, 2}); }
    for (auto &f : froms) {
        unsigned have = 0;
        for (int t : f) have |= 1u << t;
        std::vector<std::vector<CRef>> sels = {{}};
        std::vector<std::vector<CRef>> orders = {{}};
        int a = f[0], z = f.back();
        sels.push_back({{a, 1}});
        sels.push_back({{z, 2}, {a, 0}});
        orders.push_back({{a, 1}});
        orders.push_back({{z, 2}});
        orders.push_back({{z, 1}, {a, 0}});
        // the key has the same name in all tables
        if (f.size() > 1) sels.push_back({{z, 1}, {a, 1}}), sels.push_back({{z, 0}}), orders.push_back({{z, 0}}), orders.push_back({{z, 0}, {a, 0}});
        else sels.push_back({{a, 2}, {a, 1}, {a, 0}});
        if (f.size() == 3) sels.push_back({{f[1], 2}, {z, 1}, {a, 1}}), orders.push_back({{f[1], 1}, {z, 1}});
        if (thorough) { orders.push_back({{a, 2}, {a, 1}}); orders.push_back({{a, 0}}); sels.push_back({{a, 0}, {a, 1}}); sels.push_back({{a, 2}}); }
        for (auto &cd : CONDS) {
            if ((cd.uses & have) != cd.uses) continue;
            // a product of three tables is only interesting with a condition or a small list
            int n = 0;
            for (auto &s : sels) for (int d = 0; d < 2; d++) for (auto &o : orders) {
                if (d && s.empty() && f.size() > 1 && !thorough) continue;
                if (!thorough && f.size() > 1 && (n++ + cd.uses + cd.text.size()) % 3) continue;     // a fixed third of the combinations
                if (d && s.empty()) { Q q; q.from = f; q.cond = &cd; q.order = o; q.distinct = true; finish(q); v.push_back(q); continue; }
                Q q;
                q.from = f; q.sel = s; q.distinct = d; q.cond = &cd; q.order = o;
                q.qualified = v.size() & 1;
                finish(q);
                v.push_back(q);
            }
        }
    }
    return v;
}

// rank of strings is the order in which the database met them, which ORDER BY follows
struct Ranks { std::map<std::string, int> r; };

// -1/0/1 over an order column: integers by value with NULL first, strings only as equal or different
bool check_sorted(const std::vector<Row> &keys, const std::vector<bool> &isstr, std::string &why) {
    // strings: some total order must explain the whole result; within one column,
    // and equal prefix, equal strings are adjacent, and the order of two strings is the same everywhere
    std::set<std::pair<std::string, std::string>> before[4];
    for (size_t i = 1; i < keys.size(); i++)
        for (size_t c = 0; c < isstr.size(); c++) {
            const Val &x = keys[i - 1][c], &y = keys[i][c];
            if (x == y) continue;
            if (!isstr[c]) {
                if (iv(x) > iv(y)) { why = fmt("row %zu before row %zu", i - 1, i); return false; }
            } else {
                if (y.k == Val::NUL) { why = fmt("NULL string after another at row %zu", i); return false; }
                before[c].insert({sv(x), sv(y)});
            }
            break;
        }
    for (auto &b : before)
        for (auto &p : b) {
            // the relation must have no cycle
            std::set<std::string> seen;
            std::vector<std::string> st{p.second};
            while (!st.empty()) {
                std::string s = st.back(); st.pop_back();
                if (s == p.first) { why = "strings '" + p.first + "' and '" + p.second + "' in both orders"; return false; }
                if (!seen.insert(s).second) continue;
                for (auto &q : b) if (q.first == s) st.push_back(q.second);
            }
        }
    return true;
}

void ask(mc::Ctx &c, LibmsiDatabase *db, const Data &d, const Q &q) {
    std::vector<CRef> sel = q.sel;
    if (sel.empty()) for (int t : q.from) for (size_t k = 0; k < TABS[t].cols.size(); k++) sel.push_back({t, (int)k});
    // the product, in some order
    Rows want, wkeys;
    static const Row none;
    auto each = [&](int t, std::function<void(const Row &)> f) {
        bool in = std::find(q.from.begin(), q.from.end(), t) != q.from.end();
        if (!in) f(none); else for (auto &r : d.t[t]) f(r);
    };
    std::vector<Row> single;
    each(0, [&](const Row &a) { each(1, [&](const Row &b) { each(2, [&](const Row &cc) {
        if (!q.cond->p(a, b, cc)) return;
        const Row *rr[3] = {&a, &b, &cc};
        Row r;
        for (auto &s : sel) r.push_back((*rr[s.tab])[s.col]);
        want.push_back(r);
    }); }); });
    if (q.distinct) {
        Rows u;
        for (auto &r : want) if (std::find(u.begin(), u.end(), r) == u.end()) u.push_back(r);
        want = u;
    }
    c.step(q.text);
    Res g = query(db, q.text, q.cond->params);
    if (!g.ok()) c.fail("error " + q.text, fmt("%s: error %d at %s", q.text.c_str(), g.err, g.where));
    std::vector<std::string> names, types;
    for (auto &s : sel) { names.push_back(TABS[s.tab].cols[s.col].name); types.push_back(TABS[s.tab].cols[s.col].type); }
    auto join = [](const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + " "; return s; };
    if (g.names != names) c.fail("names " + q.text, q.text + ": names " + join(g.names) + "expected " + join(names));
    std::vector<std::string> tl = g.types;
    if (tl != types) c.fail("types " + q.text, q.text + ": types " + join(g.types) + "expected " + join(types));
    bool keep = q.from.size() == 1 && q.order.empty();
    if ((keep ? g.rows : sorted(g.rows)) != (keep ? want : sorted(want)))
        c.fail("rows " + q.text, q.text + "\n  got      " + show(g.rows) + "\n  expected " + show(want) + (keep ? "" : " in any order"));
    if (want.size() > 1) c.nontrivial();
    // the order: with the order columns in view
    bool covered = !q.order.empty();
    std::vector<int> at;
    for (auto &o : q.order) {
        int f = -1;
        for (size_t i = 0; i < sel.size(); i++) if (sel[i].tab == o.tab && sel[i].col == o.col) f = i;
        at.push_back(f);
        if (f < 0) covered = false;
    }
    if (covered) {
        Rows keys;
        std::vector<bool> str;
        for (auto &o : q.order) str.push_back(TABS[o.tab].cols[o.col].type[0] == 'S');
        for (auto &r : g.rows) { Row k; for (int i : at) k.push_back(r[i]); keys.push_back(k); }
        std::string why;
        if (!check_sorted(keys, str, why)) c.fail("order " + q.text, q.text + ": " + show(g.rows) + " is not in order: " + why);
    } else if (!q.order.empty() && !q.distinct) {
        // ordered by a column that is not shown: the same query with that column added must be the same order
        Q q2 = q;
        q2.sel = sel;
        for (auto &o : q.order) q2.sel.push_back(o);
        finish(q2);
        Res h = query(db, q2.text, q2.cond->params);
        if (!h.ok()) c.fail("error " + q2.text, "fails");
        Rows cut;
        for (auto r : h.rows) { r.resize(sel.size()); cut.push_back(r); }
        if (cut != g.rows) c.fail("order-hidden " + q.text, q.text + ": " + show(g.rows) + "\nwith the order columns added: " + show(h.rows));
    }
}

const std::vector<Val> DX = {Val::N(), Val::I(1), Val::I(2)};
const std::vector<Val> DSV = {Val::S("b"), Val::N(), Val::S("a")};
// A: each of 3 keys absent or with X of 3 values (64); B: 2 keys (16); C: none, one or two rows (3 variants)
Data data_at(uint64_t i) {
    Data d;
    auto dg = mc::Digits{{4, 4, 4, 4, 4, 3}}.at(i);
    for (int k = 0; k < 3; k++) if (dg[k]) d.t[0].push_back({Val::I(k + 1), DX[dg[k] - 1], DSV[(dg[k] + k) % 3]});
    for (int k = 0; k < 2; k++) if (dg[3 + k]) d.t[1].push_back({Val::I(k * 2 + 1), DX[dg[3 + k] - 1], DSV[(dg[3 + k] + 2 * k + 1) % 3]});
    if (dg[5] >= 1) d.t[2].push_back({Val::I(1), Val::I(1), Val::I(-100000)});
    if (dg[5] >= 2) d.t[2].push_back({Val::I(3), Val::N(), Val::N()}), d.t[2].push_back({Val::I(4), Val::I(2), Val::I(70000)});
    return d;
}
Db build(mc::Ctx &c, const Data &d, bool backwards) {
    Db db = open(c.scratch + "/d.msi", LIBMSI_DB_FLAGS_CREATE);
    for (auto &t : TABS) if (exec(db, t.create)) c.fail("create", t.create);
    for (int t = 0; t < 3; t++) {
        std::vector<Row> rows(d.t[t].begin(), d.t[t].end());
        if (backwards) std::reverse(rows.begin(), rows.end());
        for (auto &r : rows) {
            std::string s = fmt("INSERT INTO `%s` (`%s`,`%s`,`%s`) VALUES (?,?,?)", TABS[t].name, TABS[t].cols[0].name, TABS[t].cols[1].name, TABS[t].cols[2].name);
            if (exec(db, s, r)) c.fail("insert", s + show(r));
        }
    }
    return db;
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C06";
    chk.technique = "bounded-exhaustive enumeration of databases and SELECT forms on the real library, against direct evaluation over the product of the tables";
    chk.rule = "every filling of three tables from the value domain x every query of the grammar; rows, order, names and types are compared; non-trivial: the result has more than one row";
    static std::vector<Q> qs = queries(thorough);
    uint64_t n = mc::Digits{{4, 4, 4, 4, 4, 3}}.count();
    chk.bounds = fmt("%llu databases (3+2+3 rows) x %zu queries over up to three tables; wide and long results up to 40 columns / 2000 rows", (unsigned long long)n, qs.size());
    chk.spaces.push_back({"grammar", "every database of the family x every query", n, [](mc::Ctx &c, uint64_t i) {
        Data d = data_at(i);
        Db db = build(c, d, i & 1);
        c.state(show(d.t[0]) + show(d.t[1]) + show(d.t[2]));
        for (auto &q : qs) ask(c, db, d, q);
    }});
    // larger results, where buffers grow: sizes around powers of two
    static const int sizes[] = {1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1023, 1025, 2000};
    chk.spaces.push_back({"sizes", "results whose size crosses the growth steps of the row buffers", 16 * 4, [](mc::Ctx &c, uint64_t i) {
        int n = sizes[i / 4], mode = i % 4;
        Data d;
        for (int k = 0; k < n; k++) d.t[0].push_back({Val::I(k), Val::I((k * 7919) % 101), k % 5 ? Val::S(fmt("s%d", k * 31 % 17)) : Val::N()});
        d.t[1] = {{Val::I(1), Val::I(50), Val::S("s1")}, {Val::I(2), Val::I(51), Val::S("s2")}};
        Db db = build(c, d, true);
        Q q;
        q.cond = &CONDS[0];
        if (mode == 0) q.from = {0}, q.order = {{0, 1}};
        if (mode == 1) q.from = {0}, q.sel = {{0, 1}}, q.distinct = true, q.order = {{0, 1}};
        if (mode == 2) { q.from = {0, 1}; q.order = {{1, 1}, {0, 1}}; if (n > 300) return; }
        if (mode == 3) q.from = {0}, q.sel = {{0, 2}, {0, 1}}, q.order = {{0, 2}, {0, 1}};
        finish(q);
        ask(c, db, d, q);
    }});
    static const int widths[] = {1, 2, 3, 8, 15, 16, 17, 30, 31, 32};
    chk.spaces.push_back({"widths", "column lists of every listed width, in declared, reverse and strided order", 10 * 3, [](mc::Ctx &c, uint64_t i) {
        int n = widths[i / 3], mode = i % 3;
        Db db = open(c.scratch + "/w.msi", LIBMSI_DB_FLAGS_CREATE);
        std::string s = "CREATE TABLE `W` (", cl, q;
        Row vals;
        for (int k = 0; k < n; k++) {
            s += fmt("%s`C%d` %s", k ? ", " : "", k, k == 0 ? "SHORT NOT NULL" : k % 3 == 0 ? "CHAR(7)" : k % 3 == 1 ? "LONG" : "SHORT NOT NULL");
            cl += fmt("%s`C%d`", k ? "," : "", k); q += k ? ",?" : "?";
            vals.push_back(k % 3 == 0 && k ? Val::S(fmt("v%d", k)) : Val::I(k * 1000 + (k % 3 == 1 && k ? 100000 : 0)));
        }
        if (exec(db, s + " PRIMARY KEY `C0`)")) c.fail("create", s);
        if (exec(db, "INSERT INTO `W` (" + cl + ") VALUES (" + q + ")", vals)) c.fail("insert", "insert fails");
        std::string sel;
        Row want;
        std::vector<std::string> names;
        for (int k = 0; k < n; k++) {
            int x = mode == 0 ? k : mode == 1 ? n - 1 - k : (k * 7) % n;
            if (mode == 2 && n % 7 == 0) return;
            sel += fmt("%s`C%d`", k ? "," : "", x);
            want.push_back(vals[x]);
            names.push_back(fmt("C%d", x));
        }
        c.step("SELECT " + sel);
        Res g = query(db, "SELECT " + sel + " FROM `W`");
        if (!g.ok() || g.rows.size() != 1 || g.rows[0] != want || g.names != names) c.fail("wide", "SELECT " + sel + ": " + show(g.rows) + " expected " + show(want));
        c.state(sel);
        c.nontrivial();
        if (mode == 0) {
            g = query(db, "SELECT * FROM `W`");
            if (!g.ok() || g.rows.size() != 1 || g.rows[0] != want || g.names != names) c.fail("star", "SELECT *: " + show(g.rows) + " expected " + show(want));
        }
    }});
    return mc::run(chk, argc, argv);
}
