// C05: WHERE selects exactly the rows for which the condition is true.
//
// Every condition of a bounded grammar is run as SELECT, UPDATE and DELETE on a
// table holding the full cross product of a small value domain (each row is an
// independent valuation of the columns), and compared with a direct evaluator.
#include "msi.hpp"
using namespace msi;

namespace {
enum Op { EQ, NE, LT, GT, LE, GE };
const char *OPS[] = {"=", "<>", "<", ">", "<=", ">="};

struct Atom {
    std::string text;
    std::vector<Val> params;
    std::function<bool(const Row &)> eval;
    // rows for which the comparison has an agreed meaning
    std::function<bool(const Row &)> care = [](const Row &) { return true; };
};

// columns: K key, A int16, B int32, S string, R string
enum { cK, cA, cB, cS, cR, NC };
const char *CN[] = {"K", "A", "B", "S", "R"};

const std::vector<Val> DA = {Val::N(), Val::I(-32767), Val::I(-1), Val::I(0), Val::I(1), Val::I(32767)};
const std::vector<Val> DB = {Val::N(), Val::I(-2147483647), Val::I(-1), Val::I(0), Val::I(1), Val::I(70000)};
const std::vector<Val> DS = {Val::N(), Val::S("a"), Val::S("b"), Val::S("1")};
const std::vector<Val> DR = {Val::N(), Val::S("a"), Val::S("A")};

// an absent integer orders below every value its column can hold
long ival(const Val &v) { return v.k == Val::NUL ? -5000000000L : v.i; }
std::string sval(const Val &v) { return v.k == Val::STR ? v.s : ""; }
bool cmp(Op o, long a, long b) {
    switch (o) { case EQ: return a == b; case NE: return a != b; case LT: return a < b; case GT: return a > b; case LE: return a <= b; default: return a >= b; }
}

std::string lit(int v) { return std::to_string(v); }

std::vector<Atom> all_atoms(bool thorough) {
    std::vector<Atom> v;
    auto add = [&](std::string t, std::vector<Val> p, std::function<bool(const Row &)> f) { v.push_back({t, p, f}); };
    // NULL in a comparison of columns of different width has no agreed meaning: not used there
    std::vector<int> ca = {-32767, -1, 0, 1, 2, 32767, 40000}, cb = {-2147483647, -40000, -1, 0, 1, 70000, 2147483647};
    for (int c : {(int)cA, (int)cB})
        for (int o = 0; o < 6; o++)
            for (int k : c == cA ? ca : cb) {
                auto f = [=](const Row &r) { return cmp((Op)o, ival(r[c]), k); };
                add(fmt("`%s` %s %s", CN[c], OPS[o], lit(k).c_str()), {}, f);
                if (k == 1 || k == -1 || k == 40000 || k == -40000) add(fmt("`%s` %s ?", CN[c], OPS[o]), {Val::I(k)}, f);
            }
    for (int o = 0; o < 6; o++) {
        auto both = [](const Row &r) { return r[cA].k != Val::NUL && r[cB].k != Val::NUL; };
        add(fmt("`A` %s `B`", OPS[o]), {}, [=](const Row &r) { return cmp((Op)o, ival(r[cA]), ival(r[cB])); });
        v.back().care = both;
        add(fmt("`B` %s `A`", OPS[o]), {}, [=](const Row &r) { return cmp((Op)o, ival(r[cB]), ival(r[cA])); });
        v.back().care = both;
        add(fmt("`T`.`A` %s `T`.`K`", OPS[o]), {}, [=](const Row &r) { return cmp((Op)o, ival(r[cA]), ival(r[cK])); });
        add(fmt("`K` %s `K`", OPS[o]), {}, [=](const Row &r) { return cmp((Op)o, 0, 0); });
    }
    for (int o : {(int)EQ, (int)NE}) {
        for (int c : {(int)cS, (int)cR})
            for (std::string k : {"a", "b", "A", "1", "", "ab", "a b", "AND", "K"}) {
                auto f = [=](const Row &r) { return (sval(r[c]) == k) == (o == EQ); };
                add(fmt("`%s` %s '%s'", CN[c], OPS[o], k.c_str()), {}, f);
                if (k == "a" || k == "1" || k == "ab") add(fmt("`%s` %s ?", CN[c], OPS[o]), {Val::S(k)}, f);
            }
        add(fmt("`S` %s `R`", OPS[o]), {}, [=](const Row &r) { return (sval(r[cS]) == sval(r[cR])) == (o == EQ); });
        add(fmt("R%s`T`.S", OPS[o]), {}, [=](const Row &r) { return (sval(r[cS]) == sval(r[cR])) == (o == EQ); });
    }
    for (int c = 0; c < NC; c++) {
        add(fmt("`%s` IS NULL", CN[c]), {}, [=](const Row &r) { return r[c].k == Val::NUL; });
        add(fmt("%s is not Null", CN[c]), {}, [=](const Row &r) { return r[c].k != Val::NUL; });
        add(fmt("`T`.`%s`  IS\tNULL", CN[c]), {}, [=](const Row &r) { return r[c].k == Val::NUL; });
    }
    return v;
}

std::vector<Atom> pick(const std::vector<Atom> &all, const std::vector<std::string> &texts) {
    std::vector<Atom> v;
    for (auto &t : texts) {
        bool f = false;
        for (auto &a : all) if (a.text == t) { v.push_back(a); f = true; break; }
        if (!f) { fprintf(stderr, "no atom %s\n", t.c_str()); abort(); }
    }
    return v;
}

// a boolean expression over atoms
struct Cond { std::string text; std::vector<Val> params; std::function<bool(const Row &)> eval, care; };

// all bracketings of a sequence of n atoms with n-1 connectives: built by the
// grammar itself, evaluated by an independent precedence parser over tokens
struct Tok { char k; int atom; };            // a atom, & and, | or, ( )
bool parse_or(const std::vector<Tok> &t, size_t &p, const std::vector<bool> &v);
bool parse_prim(const std::vector<Tok> &t, size_t &p, const std::vector<bool> &v) {
    if (t[p].k == '(') { p++; bool r = parse_or(t, p, v); p++; return r; }
    return v[t[p++].atom];
}
bool parse_and(const std::vector<Tok> &t, size_t &p, const std::vector<bool> &v) {
    bool r = parse_prim(t, p, v);
    while (p < t.size() && t[p].k == '&') { p++; bool x = parse_prim(t, p, v); r = r && x; }
    return r;
}
bool parse_or(const std::vector<Tok> &t, size_t &p, const std::vector<bool> &v) {
    bool r = parse_and(t, p, v);
    while (p < t.size() && t[p].k == '|') { p++; bool x = parse_and(t, p, v); r = r || x; }
    return r;
}
// bracket patterns: for n atoms, every set of non-crossing parenthesised intervals up to a count
std::vector<std::vector<std::pair<int, int>>> brackets(int n, int maxpairs) {
    std::vector<std::pair<int, int>> iv;
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (i != j || n <= 2) iv.push_back({i, j});
    std::vector<std::vector<std::pair<int, int>>> out = {{}};
    std::function<void(size_t, std::vector<std::pair<int, int>>)> go = [&](size_t s, std::vector<std::pair<int, int>> cur) {
        if ((int)cur.size() >= maxpairs) return;
        for (size_t k = s; k < iv.size(); k++) {
            bool ok = true;
            for (auto &c : cur) {
                auto a = c, b = iv[k];
                if (a.first > b.first) std::swap(a, b);
                if (a.first < b.first && b.first <= a.second && a.second < b.second) ok = false;
            }
            if (!ok) continue;
            auto n2 = cur;
            n2.push_back(iv[k]);
            out.push_back(n2);
            go(k + 1, n2);
        }
    };
    go(0, {});
    return out;
}
Cond combine(const std::vector<Atom> &atoms, const std::vector<int> &which, const std::vector<int> &ops,
             const std::vector<std::pair<int, int>> &br) {
    auto toks = std::make_shared<std::vector<Tok>>();
    std::string text;
    std::vector<Val> params;
    auto evs = std::make_shared<std::vector<std::function<bool(const Row &)>>>();
    auto cares = std::make_shared<std::vector<std::function<bool(const Row &)>>>();
    for (size_t i = 0; i < which.size(); i++) {
        if (i) { toks->push_back({ops[i - 1] ? '|' : '&', 0}); text += ops[i - 1] ? " OR " : " AND "; }
        for (auto &b : br) if (b.first == (int)i) { toks->push_back({'(', 0}); text += "("; }
        toks->push_back({'a', (int)i});
        text += atoms[which[i]].text;
        for (auto &p : atoms[which[i]].params) params.push_back(p);
        evs->push_back(atoms[which[i]].eval);
        cares->push_back(atoms[which[i]].care);
        for (auto &b : br) if (b.second == (int)i) { toks->push_back({')', 0}); text += ")"; }
    }
    return {text, params, [=](const Row &r) {
                std::vector<bool> v;
                for (auto &e : *evs) v.push_back(e(r));
                size_t p = 0;
                return parse_or(*toks, p, v);
            },
            [=](const Row &r) {
                for (auto &e : *cares) if (!e(r)) return false;
                return true;
            }};
}

Rows make_rows(bool big) {
    Rows rows;
    int k = -100;
    for (size_t a = 0; a < DA.size(); a++) for (size_t b = 0; b < DB.size(); b++)
        for (size_t s = 0; s < DS.size(); s++) for (size_t r = 0; r < DR.size(); r++) {
            // NULL is only compared across widths by the atoms where both sides mean "lowest"
            if (!big && (a + b * 2 + s * 3 + r * 5) % 7 != 0) continue;
            rows.push_back({Val::I(k++), DA[a], DB[b], DS[s], DR[r]});
        }
    return rows;
}

Db fill(const Rows &rows, const std::string &path) {
    Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
    if (!db) return db;
    exec(db, "CREATE TABLE `T` (`K` SHORT NOT NULL, `A` SHORT, `B` LONG, `S` CHAR(20), `R` CHAR(20), `M` SHORT PRIMARY KEY `K`)");
    GError *e = nullptr;
    Query q(libmsi_query_new(db, "INSERT INTO `T` (`K`,`A`,`B`,`S`,`R`) VALUES (?,?,?,?,?)", &e));
    for (auto &r : rows) { Rec rec = record(r); libmsi_query_execute(q, rec, nullptr); libmsi_query_close(q, nullptr); }
    return db;
}

const char *Q = "SELECT `K`,`A`,`B`,`S`,`R`,`M` FROM `T`";

void check_select(mc::Ctx &c, LibmsiDatabase *db, const Rows &rows, const Cond &k) {
    Rows want;
    for (auto &r : rows) if (k.care(r) && k.eval(r)) { Row x = r; x.push_back(Val::N()); want.push_back(x); }
    std::string sql = std::string(Q) + " WHERE " + k.text;
    c.step(sql + (k.params.empty() ? "" : " with " + show(k.params)));
    Res g = query(db, sql, k.params);
    if (!g.ok()) c.fail("select-error", fmt("%s: error %d at %s", sql.c_str(), g.err, g.where));
    g.rows.erase(std::remove_if(g.rows.begin(), g.rows.end(), [&](const Row &r) { return !k.care(r); }), g.rows.end());
    c.state(k.text + (want.empty() ? "e" : "n"));
    if (!want.empty() && want.size() < rows.size()) c.nontrivial();
    if (g.rows != want) {
        Rows miss, extra;
        auto a = sorted(want), b = sorted(g.rows);
        std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(miss));
        std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(extra));
        if (miss.size() > 5) miss.resize(5);
        if (extra.size() > 5) extra.resize(5);
        c.fail("select-rows", sql + " " + show(k.params) + fmt(": %zu rows, expected %zu; missing ", g.rows.size(), want.size()) + show(miss) + " wrongly returned " + show(extra));
    }
}

// the same condition chooses the rows of UPDATE and DELETE
void check_dml(mc::Ctx &c, Rows rows, const Cond &k) {
    rows.erase(std::remove_if(rows.begin(), rows.end(), [&](const Row &r) { return !k.care(r); }), rows.end());
    Db db = fill(rows, c.scratch + "/dml.msi");
    Row up = {Val::I(7)};
    for (auto &p : k.params) up.push_back(p);
    std::string u = k.params.empty() ? "UPDATE `T` SET `M`=7 WHERE " + k.text : "UPDATE `T` SET `M`=? WHERE " + k.text;
    c.step(u);
    int e = exec(db, u, k.params.empty() ? Row{} : up);
    if (e) c.fail("update-error", fmt("%s: error %d", u.c_str(), e));
    Rows want;
    for (auto &r : rows) { Row x = r; x.push_back(k.eval(r) ? Val::I(7) : Val::N()); want.push_back(x); }
    Res g = query(db, Q);
    if (g.rows != want) c.fail("update-rows", u + ": got " + show(g.rows) + "\nexpected " + show(want));
    std::string d = "DELETE FROM `T` WHERE " + k.text;
    c.step(d);
    e = exec(db, d, k.params);
    if (e) c.fail("delete-error", fmt("%s: error %d", d.c_str(), e));
    Rows left;
    for (auto &r : want) if (!k.eval(r)) left.push_back(r);
    g = query(db, Q);
    if (g.rows != left) c.fail("delete-rows", d + ": left " + show(g.rows) + "\nexpected " + show(left));
    c.state(k.text + "dml");
    if (left.size() && left.size() < rows.size()) c.nontrivial();
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C05";
    chk.technique = "bounded-exhaustive enumeration of conditions and rows on the real library against a reference evaluator";
    chk.rule = "one execution per condition: SELECT over the full cross product of the value domain (every row is one valuation of the columns), "
               "UPDATE and DELETE with the same condition; exact rows compared with an independent precedence evaluator";
    chk.bounds = "conditions of up to 3 (quick) or 4 (thorough) comparisons with every connective and bracketing; 6 values per integer column, 3-4 per string column";
    auto atoms = all_atoms(thorough);
    static Rows big = make_rows(true), small = make_rows(false);
    static Db base;
    auto basedb = [](mc::Ctx &c) -> LibmsiDatabase * {
        static pid_t owner;
        if (owner != getpid()) { base = fill(big, c.scratch + "/base.msi"); owner = getpid(); }
        return base;
    };
    auto mid = pick(atoms, {"`A` = 1", "`A` <> ?", "`A` > 0", "`B` <= ?", "`B` >= 70000", "`A` < `B`", "`S` = 'a'", "`S` <> ?", "`R` = ?", "`S` = `R`",
                            "`A` IS NULL", "`S` IS NULL", "B is not Null", "R is not Null", "`B` < 0", "`S` <> 'AND'"});
    auto few = pick(atoms, {"`A` = 1", "`B` <= ?", "`S` = ?", "`S` <> `R`", "`A` IS NULL", "R is not Null", "`B` > -1"});

    chk.spaces.push_back({"single", "every comparison alone, SELECT", atoms.size(), [=](mc::Ctx &c, uint64_t i) {
        check_select(c, basedb(c), big, combine(atoms, {(int)i}, {}, {}));
    }});
    chk.spaces.push_back({"single-dml", "every comparison alone, UPDATE and DELETE", atoms.size(), [=](mc::Ctx &c, uint64_t i) {
        check_dml(c, small, combine(atoms, {(int)i}, {}, {}));
    }});
    for (int n = 2; n <= (thorough ? 4 : 3); n++) {
        auto set = n == 2 ? atoms : n == 3 ? (thorough ? mid : few) : few;
        if (n == 2 && !thorough) {
            // every atom on one side, the middle set on the other
            auto br = brackets(2, 1);
            mc::Digits d{{atoms.size(), mid.size(), 2, 2, br.size()}};
            chk.spaces.push_back({"pairs", "two comparisons, both orders, AND/OR, bracketings", d.count(), [=](mc::Ctx &c, uint64_t i) {
                auto x = d.at(i);
                std::vector<Atom> two = {atoms[x[0]], mid[x[1]]};
                check_select(c, basedb(c), big, combine(two, x[2] ? std::vector<int>{0, 1} : std::vector<int>{1, 0}, {(int)x[3]}, br[x[4]]));
            }});
            continue;
        }
        auto br = brackets(n, n == 4 ? 2 : 2);
        mc::Digits d{{}};
        for (int k = 0; k < n; k++) d.radix.push_back(set.size());
        for (int k = 1; k < n; k++) d.radix.push_back(2);
        d.radix.push_back(br.size());
        chk.spaces.push_back({fmt("%d-terms", n), fmt("%d comparisons with every connective and bracketing", n), d.count(), [=](mc::Ctx &c, uint64_t i) {
            auto x = d.at(i);
            std::vector<int> w(x.begin(), x.begin() + n), o(x.begin() + n, x.begin() + 2 * n - 1);
            check_select(c, basedb(c), big, combine(set, w, o, br[x[2 * n - 1]]));
        }});
    }
    {
        auto br = brackets(2, 1);
        mc::Digits d{{mid.size(), mid.size(), 2, thorough ? br.size() : 1}};
        chk.spaces.push_back({"pairs-dml", "two comparisons in UPDATE and DELETE", d.count(), [=](mc::Ctx &c, uint64_t i) {
            auto x = d.at(i);
            check_dml(c, small, combine(mid, {(int)x[0], (int)x[1]}, {(int)x[2]}, br[x[3]]));
        }});
        auto br3 = brackets(3, 1);
        mc::Digits d3{{few.size(), few.size(), few.size(), 2, 2, thorough ? br3.size() : 1}};
        chk.spaces.push_back({"triples-dml", "three comparisons in UPDATE and DELETE", d3.count(), [=](mc::Ctx &c, uint64_t i) {
            auto x = d3.at(i);
            check_dml(c, small, combine(few, {(int)x[0], (int)x[1], (int)x[2]}, {(int)x[3], (int)x[4]}, br3[x[5]]));
        }});
    }
    // tables with no row and one row: no condition may invent or lose one
    {
        mc::Digits d{{atoms.size(), 1 + small.size()}};
        chk.spaces.push_back({"tiny-tables", "every comparison on the empty table and on each one-row table", thorough ? d.count() : atoms.size() * 8, [=](mc::Ctx &c, uint64_t i) {
            auto x = d.at(thorough ? i : i / 8 * (1 + small.size()) + (i % 8 ? (i * 11) % small.size() + 1 : 0));
            Rows rows;
            if (x[1]) rows.push_back(small[x[1] - 1]);
            check_dml(c, rows, combine(atoms, {(int)x[0]}, {}, {}));
        }});
    }
    // comparisons the language does not allow are refused, not answered
    {
        static const std::vector<std::string> bad = {
            "`A` = 'a'", "`A` <> 'a'", "`B` = '1'", "`K` = ''", "`S` = 1", "`S` <> 0", "`S` < 'a'", "`S` > 'a'", "`S` <= 'a'", "`S` >= 'a'", "`S` < `R`",
            "`A` = `S`", "`S` = `B`", "`Z` = 1", "`T`.`Z` = 1", "`U`.`A` = 1", "`A` = `Z`", "`Z` IS NULL", "1 = 1", "`A`", "`A` IS", "`A` IS 1", "`A` = NULL",
            "`A` = 1 AND", "AND `A` = 1", "(`A` = 1", "`A` = 1)", "`A` == 1", "`A` = = 1", "()", "NOT `A` = 1", "`A` = 1 `B` = 1", "`S` LIKE 'a'"};
        chk.spaces.push_back({"refused", "conditions with a type or syntax error are refused by SELECT, UPDATE and DELETE", bad.size() * 3, [=](mc::Ctx &c, uint64_t i) {
            Db db = fill(small, c.scratch + "/bad.msi");
            std::string k = bad[i / 3], sql = (i % 3 == 0 ? std::string(Q) : i % 3 == 1 ? "UPDATE `T` SET `M`=1" : "DELETE FROM `T`") + " WHERE " + k;
            c.step(sql);
            int e = i % 3 == 0 ? query(db, sql).err : exec(db, sql);
            if (!e) c.fail("accepted " + k, sql + " succeeds");
            Rows want = small;
            for (auto &r : want) r.push_back(Val::N());
            if (query(db, Q).rows != want) c.fail("changed-by-refused", sql + " fails but changed the table");
            c.nontrivial();
        }});
    }
    return mc::run(chk, argc, argv);
}
