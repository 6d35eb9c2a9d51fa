// C07: INSERT, UPDATE and DELETE change exactly the rows they name, or nothing.
//
// All statement sequences up to a depth over a small alphabet run on the real
// library; after every statement every table is compared with a reference
// model.  A second space stores every value of a boundary domain in every
// column type through every route.
#include "msi.hpp"
using namespace msi;

namespace {
struct Col { std::string name, decl; char type; bool nullable, key; };   // type: h=int16 i=int32 s=string b=binary
struct Table { std::string name; std::vector<Col> cols; Rows rows; std::vector<bool> temp; };
struct Model { std::vector<Table> t; };

bool isnull(const Val &v) { return v.k == Val::NUL || (v.k == Val::STR && v.s.empty()); }
// what a column stores for a value, or nothing when it cannot hold it
std::optional<Val> stored(const Col &c, const Val &v) {
    if (isnull(v)) return Val::N();
    switch (c.type) {
    case 's': if (v.k != Val::STR) return std::nullopt; return v;
    case 'b': if (v.k != Val::BIN) return std::nullopt; return v;
    default: {
        long n;
        if (v.k == Val::INT) n = v.i;
        else if (v.k == Val::STR) {
            size_t i = v.s[0] == '-';
            if (i == v.s.size() || v.s.size() > 11) return std::nullopt;
            for (size_t j = i; j < v.s.size(); j++) if (!isdigit((unsigned char)v.s[j])) return std::nullopt;
            n = atol(v.s.c_str());
        } else return std::nullopt;
        long lo = c.type == 'h' ? -32767 : -2147483647L, hi = c.type == 'h' ? 32767 : 2147483647L;
        if (n < lo || n > hi) return std::nullopt;
        return Val::I((int)n);
    }
    }
}
int colof(const Table &t, const std::string &n) { for (size_t i = 0; i < t.cols.size(); i++) if (t.cols[i].name == n) return i; return -1; }
Row keyof(const Table &t, const Row &r) { Row k; for (size_t i = 0; i < t.cols.size(); i++) if (t.cols[i].key) k.push_back(r[i]); return k; }

// an operation: its text, its parameters and what it means
struct Op {
    std::string sql; Row params;
    std::function<bool(Model &)> apply;      // false: refused, model unchanged
};
Op ins(int ti, std::vector<std::string> cols, Row vals, bool temp, unsigned markers, const Model &m0, bool extra_marker_missing = false) {
    Op o;
    o.sql = "INSERT INTO `" + m0.t[ti].name + "` (";
    for (size_t i = 0; i < cols.size(); i++) o.sql += (i ? "," : "") + ("`" + cols[i] + "`");
    o.sql += ") VALUES (";
    for (size_t i = 0; i < vals.size(); i++) {
        o.sql += i ? "," : "";
        if (markers >> i & 1) { o.sql += "?"; o.params.push_back(vals[i]); }
        else if (vals[i].k == Val::INT) o.sql += std::to_string(vals[i].i);
        else o.sql += "'" + vals[i].s + "'";
    }
    o.sql += temp ? ") TEMPORARY" : ")";
    if (extra_marker_missing) o.params.pop_back();
    o.apply = [=](Model &m) {
        if (extra_marker_missing) return false;
        Table &t = m.t[ti];
        if (cols.size() != vals.size()) return false;
        Row r(t.cols.size());
        for (size_t i = 0; i < cols.size(); i++) {
            int c = colof(t, cols[i]);
            if (c < 0) return false;
            auto s = stored(t.cols[c], vals[i]);
            if (!s) return false;
            r[c] = *s;
        }
        for (size_t i = 0; i < r.size(); i++) if (isnull(r[i]) && !t.cols[i].nullable && t.cols[i].type != 'b') return false;
        for (auto &x : t.rows) if (keyof(t, x) == keyof(t, r)) return false;
        t.rows.push_back(r);
        t.temp.push_back(temp);
        return true;
    };
    return o;
}
using Pred = std::function<bool(const Row &)>;
Op upd(int ti, std::vector<std::pair<std::string, Val>> set, unsigned markers, std::string where, Row wparams, Pred p, const Model &m0, bool missing = false) {
    Op o;
    o.sql = "UPDATE `" + m0.t[ti].name + "` SET ";
    for (size_t i = 0; i < set.size(); i++) {
        o.sql += (i ? ", `" : "`") + set[i].first + "` = ";
        if (markers >> i & 1) { o.sql += "?"; o.params.push_back(set[i].second); }
        else if (set[i].second.k == Val::INT) o.sql += std::to_string(set[i].second.i);
        else o.sql += "'" + set[i].second.s + "'";
    }
    if (!where.empty()) o.sql += " WHERE " + where;
    for (auto &w : wparams) o.params.push_back(w);
    if (missing) o.params.pop_back();
    o.apply = [=](Model &m) {
        if (missing) return false;
        Table &t = m.t[ti];
        std::vector<std::pair<int, Val>> s;
        bool bad = false;
        for (auto &x : set) {
            int c = colof(t, x.first);
            if (c < 0) return false;
            if (t.cols[c].key) { bad = true; continue; }
            auto v = stored(t.cols[c], x.second);
            if (!v || (isnull(*v) && !t.cols[c].nullable && t.cols[c].type != 'b')) { bad = true; continue; }
            s.push_back({c, *v});
        }
        for (auto &r : t.rows) if (p(r)) { if (bad) return false; }
        for (auto &r : t.rows) if (p(r)) for (auto &x : s) r[x.first] = x.second;
        // a value that fits no row is only looked at when a row matches: either answer is right then
        return true;
    };
    return o;
}
Op del(int ti, std::string where, Row params, Pred p, const Model &m0) {
    Op o;
    o.sql = "DELETE FROM `" + m0.t[ti].name + "`" + (where.empty() ? "" : " WHERE " + where);
    o.params = params;
    o.apply = [=](Model &m) {
        Table &t = m.t[ti];
        for (size_t i = 0; i < t.rows.size();) if (p(t.rows[i])) { t.rows.erase(t.rows.begin() + i); t.temp.erase(t.temp.begin() + i); } else i++;
        return true;
    };
    return o;
}
Op bad(const std::string &sql, Row params = {}) { Op o; o.sql = sql; o.params = params; o.apply = [](Model &) { return false; }; return o; }

Model schema() {
    Model m;
    m.t.push_back({"T", {{"K", "SHORT NOT NULL", 'h', false, true}, {"A", "SHORT", 'h', true, false}, {"N", "LONG NOT NULL", 'i', false, false},
                         {"S", "CHAR(10)", 's', true, false}, {"Z", "LONGCHAR NOT NULL LOCALIZABLE", 's', false, false}}});
    m.t.push_back({"U", {{"P", "CHAR(20) NOT NULL", 's', false, true}, {"Q", "SHORT", 'h', true, true}, {"V", "CHAR(5)", 's', true, false}, {"D", "OBJECT", 'b', true, false}}});
    return m;
}
std::string create(const Table &t) {
    std::string s = "CREATE TABLE `" + t.name + "` (", k;
    for (size_t i = 0; i < t.cols.size(); i++) {
        s += (i ? ", `" : "`") + t.cols[i].name + "` " + t.cols[i].decl;
        if (t.cols[i].key) k += (k.empty() ? "`" : ",`") + t.cols[i].name + "`";
    }
    return s + " PRIMARY KEY " + k + ")";
}
std::string selectall(const Table &t) {
    std::string s = "SELECT ";
    for (size_t i = 0; i < t.cols.size(); i++) s += (i ? ",`" : "`") + t.cols[i].name + "`";
    return s + " FROM `" + t.name + "`";
}
// a single, non-null integer key keeps the table in its order; otherwise rows are a set
bool ordered(const Table &t) { int n = 0; bool ok = true; for (auto &c : t.cols) if (c.key) { n++; ok = ok && c.type != 's' && !c.nullable; } return ok && n; }
void compare(mc::Ctx &c, LibmsiDatabase *db, const Model &m, const std::string &after, const char *tag) {
    for (auto &t : m.t) {
        Res g = query(db, selectall(t));
        if (!g.ok()) c.fail(std::string(tag) + "-unreadable", fmt("after %s: SELECT from %s fails %d %s", after.c_str(), t.name.c_str(), g.err, g.where));
        Rows want = sorted(t.rows);
        Rows got = ordered(t) ? g.rows : sorted(g.rows);
        if (got != want)
            c.fail(std::string(tag), "after " + after + ": table " + t.name + " is " + show(g.rows) + "\nexpected " + show(want));
        for (size_t i = 1; i < want.size(); i++)
            if (keyof(t, want[i]) == keyof(t, want[i - 1])) c.fail("model-duplicate", "the model itself holds duplicate keys");
    }
}
std::string canon(const Model &m) { std::string s; for (auto &t : m.t) { s += t.name + show(sorted(t.rows)); for (bool b : t.temp) s += b ? 't' : 'p'; } return s; }

std::vector<Op> alphabet(const Model &m) {
    std::vector<Op> v;
    auto I = [](int x) { return Val::I(x); };
    auto S = [](const char *s) { return Val::S(s); };
    auto K = [](int k) { return [=](const Row &r) { return r[0] == Val::I(k); }; };
    auto all = [](const Row &) { return true; };
    // T: inserts at the front, in the middle and at the end of the key order
    v.push_back(ins(0, {"K", "N", "Z"}, {I(2), I(20), S("z")}, false, 0, m));
    v.push_back(ins(0, {"Z", "S", "N", "K"}, {S("z"), S("a"), I(10), I(1)}, false, 0b1001, m));
    v.push_back(ins(0, {"K", "A", "N", "S", "Z"}, {I(3), I(30), I(70000), S("b"), S("y")}, false, 0b11111, m));
    v.push_back(ins(0, {"K", "N", "Z"}, {I(-5), I(0), S("a")}, true, 0, m));
    v.push_back(ins(0, {"K", "A", "N", "Z"}, {I(2), I(9), I(9), S("dup")}, false, 0, m));
    v.push_back(ins(0, {"K", "A", "Z"}, {I(4), I(1), S("q")}, false, 0, m));                 // N missing
    v.push_back(ins(0, {"K", "N", "Z"}, {I(4), I(1), S("")}, false, 0, m));                   // Z null
    v.push_back(ins(0, {"K", "A", "N", "Z"}, {I(4), I(40000), I(1), S("fresh1")}, false, 0, m));    // A out of range
    v.push_back(ins(0, {"K", "S", "N", "Z"}, {I(4), S("fresh2"), S("word"), S("x")}, false, 0b0100, m));  // N not a number
    v.push_back(bad("INSERT INTO `T` (`K`,`N`,`Z`,`X`) VALUES (6,1,'z',2)"));
    v.push_back(bad("INSERT INTO `T` (`K`,`N`,`Z`) VALUES (?,?,?)", {I(7), I(7)}));
    v.push_back(bad("INSERT INTO `T` (`K`,`N`) VALUES (7,1,'z')"));
    v.push_back(upd(0, {{"S", S("new")}}, 0, "`K` = 2", {}, K(2), m));
    v.push_back(upd(0, {{"S", S("a")}, {"A", I(-7)}}, 0b10, "`K` = ?", {I(1)}, K(1), m));
    v.push_back(upd(0, {{"A", S("")}, {"N", I(5)}}, 0b11, "", {}, all, m));
    v.push_back(upd(0, {{"Z", S("a")}}, 0b1, "`A` > 0 OR `S` = 'a'", {}, [](const Row &r) { return (r[1].k == Val::INT && r[1].i > 0) || r[3] == Val::S("a"); }, m));
    v.push_back(upd(0, {{"N", Val::N()}}, 1, "`K` > 1", {}, [](const Row &r) { return r[0].i > 1; }, m));
    v.push_back(upd(0, {{"S", S("half")}, {"A", I(99999)}}, 0, "`K` > 1", {}, [](const Row &r) { return r[0].i > 1; }, m));
    v.push_back(upd(0, {{"K", I(8)}}, 0, "", {}, all, m));
    v.push_back(upd(0, {{"S", S("s")}, {"K", I(8)}}, 0, "`K` = 2", {}, K(2), m));
    v.push_back(bad("UPDATE `T` SET `S` = 'v', `X` = 8"));
    v.push_back(bad("UPDATE `T` SET `S` = 'v' WHERE `X` = 8"));
    v.push_back(del(0, "`K` = 2", {}, K(2), m));
    v.push_back(del(0, "`K` <> ?", {I(2)}, [](const Row &r) { return !(r[0] == Val::I(2)); }, m));
    v.push_back(del(0, "", {}, all, m));
    v.push_back(bad("DELETE FROM `T` WHERE `X` = 1"));
    // U: string + nullable integer key, binary column
    v.push_back(ins(1, {"P", "Q", "V"}, {S("p"), I(1), S("a")}, false, 0, m));
    v.push_back(ins(1, {"P", "V", "D"}, {S("p"), S("z"), Val::B("data-1")}, false, 0b100, m));
    v.push_back(ins(1, {"P", "Q", "D"}, {S("a"), I(1), Val::B("other")}, false, 0b111, m));
    v.push_back(ins(1, {"Q", "P"}, {I(-1), S("p")}, true, 0, m));
    v.push_back(ins(1, {"P", "Q"}, {S(""), I(1)}, false, 0, m));
    v.push_back(upd(1, {{"D", Val::B("replaced")}}, 1, "`P` = 'p'", {}, [](const Row &r) { return r[0] == Val::S("p"); }, m));
    v.push_back(upd(1, {{"D", Val::N()}, {"V", S("n")}}, 1, "`Q` IS NULL", {}, [](const Row &r) { return isnull(r[1]); }, m));
    v.push_back(upd(1, {{"V", S("w")}}, 0, "`V` <> 'a' AND `Q` = ?", {I(1)}, [](const Row &r) { return !(r[2] == Val::S("a")) && r[1] == Val::I(1); }, m));
    v.push_back(upd(1, {{"D", S("notastream")}}, 0, "`P` = 'a'", {}, [](const Row &r) { return r[0] == Val::S("a"); }, m));
    v.push_back(del(1, "`P` = 'p' AND `Q` = 1", {}, [](const Row &r) { return r[0] == Val::S("p") && r[1] == Val::I(1); }, m));
    v.push_back(del(1, "`Q` IS NULL", {}, [](const Row &r) { return isnull(r[1]); }, m));
    return v;
}
// the reference model decides; the implementation must agree on success and on content
void step(mc::Ctx &c, LibmsiDatabase *db, Model &m, const Op &o) {
    c.step(o.sql + (o.params.empty() ? "" : " with " + show(o.params)));
    Model before = m;
    bool want = o.apply(m);
    int e = exec(db, o.sql, o.params);
    if (want != !e) {
        bool nochange = canon(before) == canon(m);
        // refusing a value that no row would take is as right as doing nothing
        if (!(want && nochange && o.sql[0] == 'U'))
            c.fail(std::string(want ? "refused " : "accepted ") + o.sql, o.sql + " " + show(o.params) + fmt(": result %d, expected %s", e, want ? "success" : "an error") + "\ntables: " + canon(before));
    }
    compare(c, db, m, o.sql + " " + show(o.params), want ? "content" : "refused-but-changed");
    c.state(canon(m));
    if (canon(m) != canon(before)) c.nontrivial();
}
Db fresh(mc::Ctx &c, const Model &m) {
    Db db = open(c.scratch + "/d.msi", LIBMSI_DB_FLAGS_CREATE);
    for (auto &t : m.t) if (exec(db, create(t))) c.fail("create", create(t));
    return db;
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C07";
    chk.technique = "bounded-exhaustive statement sequences on the real library against a reference model of the tables";
    chk.rule = "every sequence of statements of the alphabet up to the depth; after each statement its success and the full content of every table are compared with the model; "
               "non-trivial: the statement changed the model";
    static Model m0 = schema();
    static auto ab = alphabet(m0);
    int depth = thorough ? 4 : 3;
    chk.bounds = fmt("%zu statements on two tables, depth %d from empty tables, depth 2 from filled tables; 26 values x 5 column kinds x 4 routes", ab.size(), depth);
    // quick: three statements deep; the last level runs all statements from one database per prefix would
    // share state, so every sequence gets a database of its own
    mc::Words w{ab.size(), depth, depth};
    chk.spaces.push_back({"sequences", "all statement sequences from empty tables (shorter ones are their prefixes)", w.count(), [w](mc::Ctx &c, uint64_t i) {
        Model m = m0;
        Db db = fresh(c, m);
        for (int x : w.at(i)) step(c, db, m, ab[x]);
    }});
    mc::Words w2{ab.size(), thorough ? 3 : 2, thorough ? 3 : 2};
    chk.spaces.push_back({"filled", "statement sequences from filled tables, with commit and reopen after them", w2.count(), [w2](mc::Ctx &c, uint64_t i) {
        Model m = m0;
        std::string p = c.scratch + "/d.msi";
        {
            Db db = fresh(c, m);
            for (int k = -2; k < 6; k++) {
                Op o = ins(0, {"K", "A", "N", "S", "Z"}, {Val::I(k * 3 % 7), Val::I(k), Val::I(k * 1000), Val::S(k & 1 ? "a" : "b"), Val::S("z")}, false, 0b11111, m);
                o.apply(m);
                exec(db, o.sql, o.params);
                Op u = ins(1, {"P", "Q", "V", "D"}, {Val::S(k & 1 ? "p" : "a"), Val::I(k / 2), Val::S("v"), Val::B(std::string(k + 3, 'x'))}, false, 0b1111, m);
                u.apply(m);
                exec(db, u.sql, u.params);
            }
            compare(c, db, m, "filling", "filling");
            for (int x : w2.at(i)) step(c, db, m, ab[x]);
            int e = commit(db);
            if (e) c.fail("commit", fmt("commit fails %d", e));
            c.step("commit, reopen");
        }
        Db db = open(p, LIBMSI_DB_FLAGS_READONLY);
        if (!db) c.fail("reopen", "cannot open the committed file");
        for (auto &t : m.t) for (size_t k = 0; k < t.rows.size();) if (t.temp[k]) { t.rows.erase(t.rows.begin() + k); t.temp.erase(t.temp.begin() + k); } else k++;
        compare(c, db, m, "commit and reopen", "reopened");
    }});
    // every value into every column kind by every route
    static const std::vector<Val> vals = {
        Val::N(), Val::S(""), Val::S("a"), Val::S("0"), Val::S("-1"), Val::S("32767"), Val::S("-32768"), Val::S("12x"), Val::S("2147483647"), Val::S("x y'z"), Val::S("\xc3\xa9"),
        Val::S(std::string(300, 'L')), Val::I(0), Val::I(1), Val::I(-1), Val::I(32767), Val::I(32768), Val::I(-32767), Val::I(-32768), Val::I(-32769), Val::I(65535), Val::I(65536),
        Val::I(2147483647), Val::I(-2147483647), Val::B("bytes"), Val::B(std::string("\0\1\2", 3))};
    static const char kinds[] = {'h', 'i', 's', 'b', 'n'};       // n: NOT NULL string
    chk.spaces.push_back({"values", "every value of the boundary domain, in every kind of column, by INSERT and UPDATE, literal and parameter", vals.size() * 5 * 4, [](mc::Ctx &c, uint64_t i) {
        const Val &v = vals[i / 20];
        char kind = kinds[i / 4 % 5];
        bool update = i & 1, marker = i & 2;
        if (!marker && (v.k == Val::NUL || v.k == Val::BIN || v.s.find('\'') != std::string::npos)) return;
        Model m;
        std::string decl = kind == 'h' ? "INT" : kind == 'i' ? "LONG" : kind == 'b' ? "OBJECT" : kind == 's' ? "CHAR" : "CHAR(255) NOT NULL";
        m.t.push_back({"T", {{"K", "SHORT NOT NULL", 'h', false, true}, {"C", decl, kind == 'n' ? 's' : kind, kind != 'n', false}, {"S", "CHAR(10)", 's', true, false}}});
        Db db = fresh(c, m);
        Val old = kind == 'b' ? Val::B("old") : kind == 'h' || kind == 'i' ? Val::I(5) : Val::S("old");
        Op o = ins(0, {"K", "C", "S"}, {Val::I(1), old, Val::S("one")}, false, 0b111, m);
        step(c, db, m, o);
        o = ins(0, {"K", "C", "S"}, {Val::I(3), old, Val::S("three")}, false, 0b111, m);
        step(c, db, m, o);
        o = update ? upd(0, {{"S", Val::S("changed")}, {"C", v}}, marker ? 0b10 : 0, "`K` = 1", {}, [](const Row &r) { return r[0] == Val::I(1); }, m)
                   : ins(0, {"S", "K", "C"}, {Val::S("two"), Val::I(2), v}, false, marker ? 0b100 : 0, m);
        step(c, db, m, o);
        if (commit(db)) c.fail("commit", "commit fails");
        compare(c, db, m, "commit", "committed");
    }});
    // which values are literal and which are parameters, in every order of the columns
    static const std::vector<std::pair<std::string, Val>> five = {{"K", Val::I(4)}, {"A", Val::I(-11)}, {"B", Val::S("text")}, {"C", Val::I(70000)}, {"D", Val::S("more")}};
    struct Mk { std::vector<int> cols; unsigned mask; int kind; };
    static std::vector<Mk> mks;
    {
        std::vector<int> all = {0, 1, 2, 3, 4};
        std::vector<std::vector<int>> lists;
        for (unsigned sub = 1; sub < 32; sub++) {
            std::vector<int> l;
            for (int k : all) if (sub >> k & 1) l.push_back(k);
            if (l.size() <= (thorough ? 5u : 4u) || sub == 31) {
                int left = thorough ? 120 : l.size() == 5 ? 12 : 24; // the first orders of each list
                do lists.push_back(l); while (--left && std::next_permutation(l.begin(), l.end()));
            }
        }
        for (auto &l : lists) {
            bool key = std::find(l.begin(), l.end(), 0) != l.end();
            for (unsigned k = 0; k < 1u << l.size(); k++) {
                if (key) mks.push_back({l, k, 0});
                else for (int w = 1; w < 6; w++) mks.push_back({l, k, w});
            }
        }
    }
    chk.spaces.push_back({"markers", "column lists in every order x every choice of parameters among the values, with conditions that take parameters", mks.size(), [](mc::Ctx &c, uint64_t i) {
        const Mk &k = mks[i];
        Model m;
        m.t.push_back({"T", {{"K", "SHORT NOT NULL", 'h', false, true}, {"A", "SHORT", 'h', true, false}, {"B", "CHAR(10)", 's', true, false}, {"C", "LONG", 'i', true, false}, {"D", "CHAR(20)", 's', true, false}}});
        Db db = fresh(c, m);
        std::vector<std::string> names;
        for (auto &x : five) names.push_back(x.first);
        for (int r = 1; r <= 3; r++) { Op o = ins(0, names, {Val::I(r), Val::I(r * 10), Val::S("b" + std::to_string(r % 2)), Val::I(r * 100000), Val::S("d")}, false, 31, m); step(c, db, m, o); }
        if (k.kind == 0) {
            std::vector<std::string> cols;
            Row vals;
            for (int x : k.cols) cols.push_back(five[x].first), vals.push_back(five[x].second);
            Op o = ins(0, cols, vals, false, k.mask, m);
            step(c, db, m, o);
        } else {
            std::vector<std::pair<std::string, Val>> set;
            for (int x : k.cols) set.push_back(five[x]);
            static const struct { const char *text; Row params; Pred p; } w[] = {
                {"", {}, [](const Row &) { return true; }},
                {"`K` = ?", {Val::I(2)}, [](const Row &r) { return r[0].i == 2; }},
                {"`K` > ? AND `B` = ?", {Val::I(1), Val::S("b1")}, [](const Row &r) { return r[0].i > 1 && r[2].s == "b1"; }},
                {"`B` = 'b1' AND `A` < ?", {Val::I(20)}, [](const Row &r) { return r[2].s == "b1" && r[1].i < 20; }},
                {"(`A` = ? OR `C` = 300000) AND `D` = ?", {Val::I(10), Val::S("d")}, [](const Row &r) { return (r[1].i == 10 || r[3].i == 300000) && r[4].s == "d"; }}};
            auto &x = w[k.kind - 1];
            Op o = upd(0, set, k.mask, x.text, x.params, x.p, m);
            step(c, db, m, o);
        }
        compare(c, db, m, "the statement", "changed");
        c.nontrivial();
    }});
    return mc::run(chk, argc, argv);
}
