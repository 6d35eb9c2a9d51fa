// C18: the SQL front end accepts exactly the SQL it documents and never crashes.
#include "content.hpp"
using namespace content;

namespace {
// ---- a lexer and acceptor written from the grammar (DESIGN.md), sharing nothing with the library
enum Verdict { REJECT, ACCEPT, EITHER };
const char *vname(Verdict v) { return v == REJECT ? "reject" : v == ACCEPT ? "accept" : "either"; }
struct Unclear {};                          // the documentation leaves it open
struct No {};
struct Tok { char k; std::string s; };      // k: i identifier, w keyword, s string, n number, p punctuation
const std::set<std::string> KEYWORDS = {"ADD", "ALTER", "AND", "BY", "CHAR", "CHARACTER", "CREATE", "DELETE", "DISTINCT", "DROP", "FREE", "FROM", "HOLD", "INSERT", "INT", "INTEGER", "INTO", "IS", "KEY", "LIKE", "LOCALIZABLE", "LONG", "LONGCHAR", "NOT", "NULL", "OBJECT", "OR", "ORDER", "PRIMARY", "SELECT", "SET", "SHORT", "TABLE", "TEMPORARY", "UPDATE", "VALUES", "WHERE"};
std::vector<Tok> lex(const std::string &t) {
    std::vector<Tok> v;
    bool unclear = false, bad = false;
    for (size_t i = 0; i < t.size();) {
        unsigned char c = t[i];
        if (c == ' ' || c == '\t' || c == '\n' || c == '\f') { i++; continue; }
        if (c == '\v') { unclear = true; i++; continue; }
        if (c == '`' || c == '\'') {
            size_t e = t.find(c, i + 1);
            if (e == std::string::npos) { bad = true; break; }
            v.push_back({c == '`' ? 'i' : 's', t.substr(i + 1, e - i - 1)});
            i = e + 1;
            continue;
        }
        if (c >= '0' && c <= '9') {
            size_t e = i;
            while (e < t.size() && t[e] >= '0' && t[e] <= '9') e++;
            v.push_back({'n', t.substr(i, e - i)});
            i = e;
            continue;
        }
        auto id = [](unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-' || c >= 0x80 || c == 5; };
        if (id(c) && c != '-') {
            size_t e = i;
            while (e < t.size() && id(t[e])) e++;
            std::string s = t.substr(i, e - i), u = s;
            if (s.find('\5') != std::string::npos) unclear = true;
            for (auto &x : u) if (x >= 'a' && x <= 'z') x -= 32;
            if (KEYWORDS.count(u)) v.push_back({'w', u});
            else {
                v.push_back({'i', s});
                if (e < t.size() && t[e] == '`') unclear = true;    // a stray quote after an identifier is tolerated
            }
            i = e;
            continue;
        }
        if (c == '[') { unclear = true; break; }
        std::string two = t.substr(i, 2);
        if (two == "<=" || two == ">=" || two == "<>" || two == "!=") { v.push_back({'p', two == "!=" ? "<>" : two}); i += 2; continue; }
        if (strchr("-()*=<>?,.", c)) { v.push_back({'p', std::string(1, c)}); i++; continue; }
        bad = true;
        break;
    }
    if (unclear) throw Unclear{};
    if (bad) throw No{};
    return v;
}
const std::map<std::string, std::vector<std::string>> UNIVERSE = {{"T", {"K", "N", "S"}}, {"U", {"P", "Q"}}};

struct Judge {
    std::vector<Tok> t;
    size_t p = 0;
    bool open = false;                       // grammatical, but its meaning decides
    bool vague = false;                      // an empty name
    bool unknown = false;                    // names something that does not exist
    bool is(char k, const char *s = nullptr) const { return p < t.size() && t[p].k == k && (!s || t[p].s == s); }
    bool kw(const char *s) { if (is('w', s)) { p++; return true; } return false; }
    bool pu(const char *s) { if (is('p', s)) { p++; return true; } return false; }
    void needkw(const char *s) { if (!kw(s)) throw No{}; }
    void needpu(const char *s) { if (!pu(s)) throw No{}; }
    std::string ident() { if (!is('i')) throw No{}; if (t[p].s.empty()) open = vague = true; return t[p++].s; }
    struct Col { std::string table, col; };
    std::vector<Col> refs;
    std::vector<std::string> from;
    Col column() { Col c; c.col = ident(); if (pu(".")) { c.table = c.col; c.col = ident(); } return c; }
    void collist() { if (pu("*")) return; do refs.push_back(column()); while (pu(",")); }
    void number() {
        if (!is('n')) throw No{};
        std::string s = t[p++].s;
        size_t z = s.find_first_not_of('0');
        s = z == std::string::npos ? "0" : s.substr(z);
        if (s.size() > 10 || (s.size() == 10 && s > "2147483647")) throw No{};
    }
    // 's' string, 'n' number, '?' marker
    char constant() {
        if (is('s')) { p++; return 's'; }
        if (pu("?")) return '?';
        pu("-");
        number();
        return 'n';
    }
    void expr() {
        do { do term(); while (kw("AND")); } while (kw("OR"));
    }
    void term() {
        if (pu("(")) { expr(); needpu(")"); return; }
        Col l = column();
        refs.push_back(l);
        if (kw("IS")) { kw("NOT"); needkw("NULL"); return; }
        bool ordered = !is('p', "=") && !is('p', "<>");
        if (!pu("=") && !pu("<>") && !pu("<") && !pu(">") && !pu("<=") && !pu(">=")) throw No{};
        bool str = l.col == "K" || l.col == "S" || l.col == "P";
        if (is('i')) { Col r = column(); refs.push_back(r); bool rs = r.col == "K" || r.col == "S" || r.col == "P"; if (rs != str || ordered) open = true; }
        else { char k = constant(); if ((str ? k == 'n' : k == 's') || (str && ordered)) open = true; }
    }
    void tables() {
        do from.push_back(ident()); while (pu(","));
    }
    void resolve() {
        std::set<std::string> seen;
        for (auto &n : from) {
            if (!n.empty() && n[0] == '_') open = true;
            else if (!UNIVERSE.count(n)) unknown = true;
            if (!seen.insert(n).second) open = true;
        }
        if (unknown || open) return;
        for (auto &r : refs) {
            int found = 0;
            for (auto &n : from) if (r.table.empty() || r.table == n) for (auto &c : UNIVERSE.at(n)) if (c == r.col) found++;
            if (found == 0) unknown = true;
        }
    }
    void type() {
        if (kw("CHAR") || kw("CHARACTER")) {
            if (pu("(")) {
                if (!is('n')) throw No{};
                std::string s = t[p].s;
                size_t z = s.find_first_not_of('0');
                s = z == std::string::npos ? "0" : s.substr(z);
                number();
                if (s.size() > 3 || atoi(s.c_str()) > 255) throw No{};
                if (s == "0") open = true;
                needpu(")");
            }
        } else if (!kw("LONGCHAR") && !kw("SHORT") && !kw("INT") && !kw("INTEGER") && !kw("LONG") && !kw("OBJECT")) throw No{};
        if (kw("NOT")) needkw("NULL");
        if (!kw("LOCALIZABLE")) kw("TEMPORARY");
    }
    void statement() {
        if (kw("SELECT")) {
            kw("DISTINCT");
            if (!pu("*")) do {
                if (is('s')) { p++; open = true; } else refs.push_back(column());
            } while (pu(","));
            needkw("FROM");
            tables();
            where();
            if (kw("ORDER")) { needkw("BY"); collist(); }
            end();
            resolve();
        } else if (kw("INSERT")) {
            needkw("INTO");
            from = {ident()};
            needpu("(");
            bool star = is('p', "*");
            collist();
            size_t n = refs.size();
            needpu(")"); needkw("VALUES"); needpu("(");
            size_t m = 0;
            do constant(), m++; while (pu(","));
            needpu(")");
            kw("TEMPORARY");
            end();
            std::set<std::string> s;
            for (auto &r : refs) if (!s.insert(r.col).second) open = true;
            if (star || n != m) open = true;
            bool o = open;
            open = false;
            resolve();
            open |= o;
            for (auto &r : refs) if (!r.table.empty()) open = true;
        } else if (kw("CREATE")) {
            needkw("TABLE");
            std::string name = ident();
            if (name.empty() || name.size() > 20 || name[0] == '_') open = true;
            for (unsigned char c : name) if (!isalnum(c)) open = true;
            needpu("(");
            std::vector<Col> cols;
            std::set<std::string> special;             // cannot be keys
            do { cols.push_back(column()); bool o = is('w', "OBJECT"); type(); if (o || t[p - 1].s == "TEMPORARY") special.insert(cols.back().col); } while (pu(","));
            needkw("PRIMARY"); needkw("KEY");
            std::set<std::string> names, keys;
            if (pu("*")) open = true;
            else do { Col k = column(); if (!k.table.empty()) open = true; if (special.count(k.col)) open = true; if (!keys.insert(k.col).second) unknown = true; } while (pu(","));
            needpu(")");
            kw("HOLD");
            end();
            for (auto &c : cols) { if (!c.table.empty() || c.col.empty() || !names.insert(c.col).second) open = true; }
            for (auto &k : keys) if (!names.count(k)) unknown = true;
        } else if (kw("UPDATE")) {
            from = {ident()};
            needkw("SET");
            std::set<std::string> s;
            do {
                Col c = column();
                refs.push_back(c);
                if (!s.insert(c.col).second) open = true;
                if (c.col == "K" || c.col == "P") open = true;     // keys may not be changed
                needpu("=");
                constant();
            } while (pu(","));
            where();
            end();
            bool o = open;
            open = false;
            resolve();
            open |= o;
        } else if (kw("DELETE")) {
            needkw("FROM");
            tables();
            if (from.size() > 1) open = true;
            where();
            if (kw("ORDER")) { needkw("BY"); collist(); open = true; }
            end();
            bool o = open;
            open = false;
            resolve();
            open |= o;
        } else if (kw("ALTER")) {
            needkw("TABLE");
            from = {ident()};
            if (kw("ADD")) { Col c = column(); if (!c.table.empty() || c.col.empty()) open = true; type(); kw("HOLD"); for (auto n : {"K", "N", "S", "P", "Q"}) if (c.col == n) open = true; }
            else if (!kw("HOLD") && !kw("FREE")) throw No{};
            end();
            if (!UNIVERSE.count(from[0])) open = true;             // may be refused now or when executed
        } else if (kw("DROP")) {
            needkw("TABLE");
            from = {ident()};
            end();
            if (!UNIVERSE.count(from[0])) { if (!from[0].empty() && from[0][0] == '_') open = true; else unknown = true; }
        } else throw No{};
    }
    void where() { if (kw("WHERE")) expr(); }
    void end() { if (p != t.size()) throw No{}; }
};
Verdict judge(const std::string &text) {
    try {
        Judge j;
        j.t = lex(text);
        j.statement();
        return j.vague ? EITHER : j.unknown ? REJECT : j.open ? EITHER : ACCEPT;
    } catch (No) { return REJECT; } catch (Unclear) { return EITHER; }
}

// ---- the library
struct World { Db db; std::string path; Snap before; };
World *world(mc::Ctx &c, bool fresh = false) {
    static World *w;
    if (w && !fresh) return w;
    if (!w) w = new World;
    w->db.reset();
    clean(c.scratch);
    w->path = c.scratch + "/s.msi";
    w->db = open(w->path, LIBMSI_DB_FLAGS_CREATE);
    exec(w->db, "CREATE TABLE `T` (`K` CHAR(20) NOT NULL, `N` SHORT, `S` CHAR(20) PRIMARY KEY `K`)");
    exec(w->db, "CREATE TABLE `U` (`P` CHAR(20) NOT NULL, `Q` SHORT PRIMARY KEY `P`)");
    exec(w->db, "INSERT INTO `T` (`K`,`N`,`S`) VALUES ('a',1,'x')");
    exec(w->db, "INSERT INTO `T` (`K`,`N`,`S`) VALUES ('b',2,'')");
    exec(w->db, "INSERT INTO `T` (`K`,`N`,`S`) VALUES ('c',-1,'a b')");
    exec(w->db, "INSERT INTO `U` (`P`,`Q`) VALUES ('a',2)");
    exec(w->db, "INSERT INTO `U` (`P`,`Q`) VALUES ('d',1)");
    w->before = snap(w->db);
    return w;
}
void unchanged(mc::Ctx &c, const std::string &what) {
    World *w = world(c);
    Snap s = snap(w->db);
    if (!(s == w->before)) { std::string d = diff(w->before, s); world(c, true); c.fail("effect", what + " changed the database\n" + d); }
}
std::string class_of(const std::string &text) {
    std::string o;
    for (unsigned char ch : text.substr(0, 60)) o += ch < 33 || ch > 126 ? fmt("\\x%02x", ch) : std::string(1, ch);
    return o;
}
// returns whether it was accepted
bool prepare(mc::Ctx &c, const std::string &text, const std::string &where = "") {
    World *w = world(c);
    Verdict v = judge(text);
    uint64_t crit = criticals();
    GError *e = nullptr;
    // an exact copy, so that reading past its end is seen
    char *copy = (char *)malloc(text.size() + 1);
    memcpy(copy, text.c_str(), text.size() + 1);
    Query q(libmsi_query_new(w->db, copy, &e));
    free(copy);
    bool ok = q;
    if (!ok && !e) c.fail("no-error", "refused without an error: " + class_of(text));
    if (ok && e) c.fail("error-and-query", class_of(text));
    g_clear_error(&e);
    c.count(ok);
    if (v == EITHER) c.count(2);
    if (v == ACCEPT) c.nontrivial();
    if (criticals() != crit) c.fail("critical", last_critical() + " for " + class_of(text));
    if (v == ACCEPT && !ok) c.fail("refused " + where, "refused: " + text);
    if (v == REJECT && ok) c.fail("accepted " + where, "accepted: " + text);
    return ok;
}
struct Hole { const char *pre, *post; int depth, deeper; std::vector<const char *> words; };
using W = std::vector<const char *>;
const W ALL = {"SELECT", "DISTINCT", "FROM", "WHERE", "ORDER", "BY", "AND", "OR", "NOT", "IS", "NULL", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "CREATE", "DROP", "ALTER", "TABLE", "ADD", "HOLD", "FREE", "PRIMARY", "KEY", "CHAR", "INT", "LONGCHAR", "OBJECT", "LIKE", "TEMPORARY", "LOCALIZABLE", "(", ")", ",", ".", "*", "=", "<>", "<", "?", "-", "1", "'x'", "`T`", "K", "N", ""};
const W COND = {"AND", "OR", "NOT", "IS", "NULL", "(", ")", ",", ".", "=", "<>", "<", "?", "-", "1", "'x'", "`T`", "K", "N", "LIKE", "ORDER", "BY", ""};
const W COLS = {"(", ")", ",", ".", "*", "`T`", "K", "N", "FROM", "'x'", "1", "?", "DISTINCT", ""};
const W TYPES = {"CHAR", "CHARACTER", "LONGCHAR", "SHORT", "INT", "INTEGER", "LONG", "OBJECT", "NOT", "NULL", "LOCALIZABLE", "TEMPORARY", "(", ")", ",", "10", "255", "256", "-", "A", "B", "HOLD", ""};
const W KEYS = {"PRIMARY", "KEY", "A", "B", ",", ")", "(", ".", "*", "HOLD", "TEMPORARY", "INT", ""};
const W VALUES = {"(", ")", ",", "-", "1", "'x'", "?", "K", "N", "NULL", "VALUES", "TEMPORARY", "HOLD", "*", ""};
const W SETS = {"K", "N", "S", "`T`", ".", "=", ",", "1", "-", "'x'", "?", "NULL", "WHERE", "IS", "(", ")", ""};
const W TAILS = {"FROM", "T", "U", ",", "ORDER", "BY", "K", "Q", "WHERE", "*", "DISTINCT", "`", ".", "AND", ""};
std::vector<Hole> holes() {
    return {
        {"", "", 3, 4, ALL},
        {"SELECT", "FROM T", 4, 5, COLS},
        {"SELECT DISTINCT", "FROM `T`, `U`", 4, 5, COLS},
        {"SELECT * FROM T", "", 4, 5, TAILS},
        {"SELECT `K` FROM `T`, `U`", "", 4, 5, TAILS},
        {"SELECT * FROM T WHERE", "", 4, 5, COND},
        {"SELECT * FROM T WHERE K = 'x'", "", 3, 5, COND},
        {"SELECT * FROM T WHERE (", ")", 4, 4, COND},
        {"SELECT * FROM T WHERE N = 1 AND", "OR `T`.`N` IS NOT NULL", 3, 5, COND},
        {"INSERT INTO T (", ") VALUES ('x')", 4, 5, COLS},
        {"INSERT INTO T (K) VALUES (", ")", 5, 6, VALUES},
        {"INSERT INTO T (K, N) VALUES", "", 5, 6, VALUES},
        {"INSERT INTO T (K) VALUES ('x')", "", 3, 4, ALL},
        {"INSERT", "", 3, 4, W{"INTO", "T", "(", ")", "K", "VALUES", "1", "FROM", "TABLE"}},
        {"CREATE TABLE X (A INT", "PRIMARY KEY A)", 3, 4, TYPES},
        {"CREATE TABLE X (A", "PRIMARY KEY A)", 4, 4, TYPES},
        {"CREATE TABLE X (A INT, B CHAR(10)", "", 4, 5, KEYS},
        {"CREATE TABLE X (A INT PRIMARY KEY A", "", 4, 5, KEYS},
        {"CREATE", "(A INT PRIMARY KEY A)", 3, 4, ALL},
        {"UPDATE T SET", "", 4, 5, SETS},
        {"UPDATE T SET N = 1", "", 4, 5, SETS},
        {"UPDATE", "SET N = 1", 3, 4, ALL},
        {"DELETE", "", 3, 4, ALL},
        {"DELETE FROM T", "", 4, 5, TAILS},
        {"ALTER TABLE T", "", 3, 4, ALL},
        {"ALTER TABLE T ADD", "", 4, 5, TYPES},
        {"ALTER", "", 3, 5, W{"TABLE", "T", "ADD", "HOLD", "FREE", "A", "INT", "Nope"}},
        {"DROP", "", 3, 4, ALL},
    };
}
const std::vector<std::string> VALID = {
    "SELECT * FROM `T`", "SELECT `K`, `N` FROM T WHERE N = 1", "SELECT DISTINCT `T`.`K` FROM `T`, `U` WHERE `T`.`N` = `U`.`Q` AND `U`.`P` <> 'q'",
    "SELECT K FROM T WHERE (N >= -5 OR N IS NULL) AND S IS NOT NULL ORDER BY N, K", "SELECT N FROM T WHERE N<=2 AND N>0 AND N<9 OR N!=?",
    "INSERT INTO `T` (`K`, `N`, `S`) VALUES ('new', -7, 'it')", "INSERT INTO T (K, N) VALUES (?, ?) TEMPORARY",
    "UPDATE `T` SET `N` = 5, `S` = 'y' WHERE `K` = 'a'", "UPDATE T SET S = ?", "DELETE FROM `T` WHERE `N` > 1", "DELETE FROM U",
    "CREATE TABLE `X` (`A` CHAR(72) NOT NULL LOCALIZABLE, `B` SHORT, `C` LONG NOT NULL, `D` OBJECT TEMPORARY PRIMARY KEY `A`, `C`)",
    "CREATE TABLE Y (A INTEGER NOT NULL, B LONGCHAR, C CHARACTER(255) PRIMARY KEY A) HOLD", "ALTER TABLE `T` HOLD", "ALTER TABLE T ADD X CHAR(9) HOLD", "ALTER TABLE U FREE", "DROP TABLE `U`",
};
// the text cut into tokens (quotes kept), for layouts
std::vector<std::string> pieces(const std::string &s) {
    std::vector<std::string> v;
    for (size_t i = 0; i < s.size();) {
        if (s[i] == ' ') { i++; continue; }
        size_t e = i + 1;
        if (s[i] == '`' || s[i] == '\'') e = s.find(s[i], i + 1) + 1;
        else if (isalnum(s[i])) while (e < s.size() && isalnum(s[e])) e++;
        else if ((s[i] == '<' || s[i] == '>' || s[i] == '!') && e < s.size() && (s[e] == '=' || s[e] == '>')) e++;
        v.push_back(s.substr(i, e - i));
        i = e;
    }
    return v;
}
bool wordish(const std::string &p) { return isalnum((unsigned char)p[0]); }
// what running the statement shows, on a fresh database
std::string outcome(mc::Ctx &c, const std::string &text) {
    World *w = world(c, true);
    Res r = query(w->db, text, {Val::S("m"), Val::I(3)});
    if (!strcmp(r.where, "fetch")) r.err = 0, r.where = "no rows";
    std::string o = fmt("%d %s ", r.err, r.where) + join(r.names) + show(r.rows) + str(snap(w->db));
    return o;
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C18";
    chk.technique = "bounded-exhaustive enumeration of query texts on the real front end under memory checkers, against an independent acceptor of the grammar";
    chk.rule = "grammatical texts over existing names are accepted, others refused with an error, no crash or memory error, preparing or failing changes nothing, equivalent layouts do the same; non-trivial: an accepted text";
    static auto H = holes();
    static std::vector<uint64_t> start;
    uint64_t total = 0;
    // the last token is enumerated inside an execution
    auto depth = [thorough](const Hole &h) { return thorough ? h.deeper : h.depth; };
    static std::vector<int> D;
    for (auto &h : H) {
        start.push_back(total);
        D.push_back(depth(h));
        uint64_t n = 1;
        for (int k = 1; k < D.back(); k++) n *= h.words.size();
        total += n;
    }
    start.push_back(total);
    chk.bounds = fmt("%zu statement frames with every token sequence of up to %d tokens in the gap; %zu statements with every single-character edit; every text of up to %d bytes; layouts; nesting and lengths", H.size(), thorough ? 5 : 4, VALID.size(), thorough ? 3 : 2);
    chk.spaces.push_back({"tokens", "every token sequence in each frame", total, [](mc::Ctx &c, uint64_t i) {
        size_t h = 0;
        while (i >= start[h + 1]) h++;
        uint64_t n = i - start[h];
        std::string s = H[h].pre;
        for (int k = 1; k < D[h]; k++) { const char *w = H[h].words[n % H[h].words.size()]; if (*w) s += std::string(" ") + w; n /= H[h].words.size(); }
        c.step("texts starting: " + s);
        for (auto w : H[h].words) prepare(c, s + " " + w + " " + H[h].post, H[h].pre);
        c.state(s);
        if (i % 64 == 0) unchanged(c, "preparing statements starting " + s);
    }});
    static std::vector<std::pair<int, int>> pos;
    for (size_t v = 0; v < VALID.size(); v++) for (size_t p = 0; p <= VALID[v].size(); p++) pos.push_back({(int)v, (int)p});
    chk.spaces.push_back({"edits", "every deletion, insertion and replacement of one character of each valid statement, and every prefix", pos.size(), [](mc::Ctx &c, uint64_t i) {
        const std::string &v = VALID[pos[i].first];
        size_t p = pos[i].second;
        c.step(fmt("edits at %zu of: ", p) + v);
        std::vector<std::string> texts = {v.substr(0, p), v.substr(p)};
        if (p < v.size()) texts.push_back(v.substr(0, p) + v.substr(p + 1));
        for (int b = 1; b < 256; b++) {
            texts.push_back(v.substr(0, p) + (char)b + v.substr(p));
            if (p < v.size()) texts.push_back(v.substr(0, p) + (char)b + v.substr(p + 1));
        }
        for (auto &t : texts) prepare(c, t, fmt("%d", pos[i].first));
        unchanged(c, "preparing edits of " + v);
        // and run those that a slip of the finger makes; a failing one has no effect
        for (char b : std::string("?1'`,")) {
            std::string t = v.substr(0, p) + b + v.substr(std::min(p + 1, v.size()));
            Verdict j = judge(t);
            World *w = world(c);
            Res r = query(w->db, t, {Val::S("m"), Val::S("not a number"), Val::I(99999)});
            bool ran = !r.err || !strcmp(r.where, "fetch");
            if (!ran) unchanged(c, "failing statement " + t);
            else if (j == REJECT) c.fail("executed", t);
            else world(c, true);
        }
    }});
    chk.spaces.push_back({"bytes", "every text of up to two bytes, and as the value of a condition", 65536, [](mc::Ctx &c, uint64_t i) {
        std::string s;
        if (i & 255) s += (char)(i & 255);
        if (i >> 8) s += (char)(i >> 8);
        c.step("bytes " + class_of(s));
        prepare(c, s);
        prepare(c, "SELECT K FROM T WHERE N = " + s);
        prepare(c, "SELECT " + s);
        prepare(c, "SELECT " + s + " FROM T");
        if (i % 4096 == 0) unchanged(c, "preparing texts of two bytes");
    }});
    if (thorough) chk.spaces.push_back({"bytes3", "every text of three bytes of one per class after a condition", 65536, [](mc::Ctx &c, uint64_t i) {
        static const char B[] = " \t\r\v'`[]().,-?*=<>!0N_\x80\5$a1@~;\"";
        size_t n = sizeof B - 1;
        if (i >= n * n) return;
        for (size_t k = 0; k < n; k++) { std::string s{B[i % n], B[i / n], B[k]}; c.step("bytes " + class_of(s)); prepare(c, "SELECT K FROM T WHERE N" + s); prepare(c, "SELECT K FROM T WHERE N = 1" + s); prepare(c, s + "SELECT K FROM T"); }
    }});
    // layout: case of keywords, white space, quoting
    static const std::vector<std::string> SPACES = {" ", "\t", "\n", "\f", "  ", " \n\t ", "\n\n"};
    static std::vector<std::pair<int, int>> lay;
    for (size_t v = 0; v < VALID.size(); v++) for (size_t g = 0; g <= pieces(VALID[v]).size(); g++) lay.push_back({(int)v, (int)g});
    chk.spaces.push_back({"layout", "each gap with each white space or none, each word in each case, each name quoted or not", lay.size(), [](mc::Ctx &c, uint64_t i) {
        const std::string &v = VALID[lay[i].first];
        size_t g = lay[i].second;
        auto ps = pieces(v);
        auto build = [&](size_t at, const std::string &gap) {
            std::string s;
            for (size_t k = 0; k <= ps.size(); k++) {
                if (k == at) s += gap;
                else if (k && k < ps.size()) s += " ";
                if (k < ps.size()) s += ps[k];
            }
            return s;
        };
        std::string want = outcome(c, v);
        if (want[0] != '0' && v.find('?') == std::string::npos) c.fail("valid-fails", v + ": " + want);
        std::vector<std::string> texts;
        for (auto &sp : SPACES) texts.push_back(build(g, sp));
        bool joinable = g == 0 || g == ps.size() || !(wordish(ps[g - 1]) && (wordish(ps[g]) || ps[g] == "-" || ps[g][0] == '`'));
        if (joinable) texts.push_back(build(g, ""));
        if (g < ps.size()) {
            std::string old = ps[g];
            std::string u = old;
            for (auto &x : u) x = toupper(x);
            if (KEYWORDS.count(u)) {
                std::string l = old, a = old;
                for (auto &x : l) x = tolower(x);
                for (size_t k = 0; k < a.size(); k++) a[k] = k % 2 ? toupper(a[k]) : tolower(a[k]);
                for (auto &x : {l, a, u}) { ps[g] = x; texts.push_back(build(999, "")); }
            } else if (old[0] == '`') { ps[g] = old.substr(1, old.size() - 2); texts.push_back(build(999, "")); }
            else if (isalpha((unsigned char)old[0])) { ps[g] = "`" + old + "`"; texts.push_back(build(999, "")); }
            else if (old == "<>") { ps[g] = "!="; texts.push_back(build(999, "")); }
            ps[g] = old;
        }
        for (auto &t : texts) {
            c.step(class_of(t));
            c.nontrivial();
            std::string got = outcome(c, t);
            if (got != want) c.fail("layout", t + "\ndoes not do what this does\n" + v + "\n" + got + "\n--- for\n" + want);
        }
    }});
    static const std::vector<int> SIZES = {1, 2, 3, 10, 30, 31, 32, 33, 63, 64, 65, 100, 199, 200, 255, 256, 300, 1000, 3000, 5000, 10000, 20000, 65535, 65536, 200000};
    chk.spaces.push_back({"long", "nesting, chains, lists, names, strings, numbers and white space of every listed size", SIZES.size() * 16, [](mc::Ctx &c, uint64_t i) {
        int n = SIZES[i / 16];
        auto rep = [&](const std::string &s, const std::string &sep = "") { std::string o; for (int k = 0; k < n; k++) o += (k ? sep : "") + s; return o; };
        std::string t;
        bool must = n <= 1000;               // within any documented limit
        switch (i % 16) {
        case 0: t = "SELECT K FROM T WHERE " + rep("(") + "N = 1" + rep(")"); break;
        case 1: t = "SELECT K FROM T WHERE " + rep("N = 1", " AND "); break;
        case 2: t = "SELECT K FROM T WHERE " + rep("N = 1", " OR "); break;
        case 3: t = "SELECT K FROM T WHERE " + rep("(N = 1 OR ") + "K = 'a'" + rep(")"); break;
        case 4: t = "SELECT " + rep("K", ",") + " FROM T"; break;
        case 5: t = "SELECT K FROM " + rep("T", ","); must = false; break;
        case 6: t = "SELECT K FROM T ORDER BY " + rep("N", ","); break;
        case 7: t = "SELECT K FROM T WHERE K = '" + rep("x") + "'"; must = true; break;
        case 8: t = "SELECT `" + rep("x") + "` FROM T"; must = false; break;
        case 9: t = "SELECT K FROM T WHERE N = " + rep("0") + "1"; must = true; break;
        case 10: t = "SELECT K FROM T WHERE N = " + rep("9"); must = n < 10; break;
        case 11: t = "SELECT" + rep(" \n") + "K FROM T" + rep(" "); must = true; break;
        case 12: n = std::min(n, 20000); t = "CREATE TABLE X (A INT, " + rep("B INT", ", ") + " PRIMARY KEY A)"; must = false; break;
        case 13: t = "INSERT INTO T (K) VALUES (" + rep("'x'", ",") + ")"; must = false; break;
        case 14: t = "UPDATE T SET " + rep("N = 1", ", "); must = false; break;
        default: t = rep("SELECT "); must = false; break;
        }
        c.step(t.substr(0, 60) + fmt(".. %zu bytes", t.size()));
        World *w = world(c);
        GError *e = nullptr;
        Query q(libmsi_query_new(w->db, t.c_str(), &e));
        if (!q && !e) c.fail("no-error", "refused without an error");
        g_clear_error(&e);
        if (i % 16 == 15 && n > 0 && q) c.fail("accepted", t.substr(0, 100));
        if (i % 16 == 10 && n >= 10 && q) c.fail("accepted", t.substr(0, 100));
        if (must && !q) c.fail("refused", t.substr(0, 100));
        if (q && t[0] == 'S' && i % 16 != 5) {
            c.nontrivial();
            Res r = query(w->db, t, {}, 50);
            if (must && i % 16 <= 3 && (!r.ok() || r.rows.empty())) c.fail("long-result", t.substr(0, 100) + show(r.rows));
        }
        q.reset();
        unchanged(c, "a long text");
    }});
    chk.counter_names = {{0, "refused"}, {1, "accepted"}, {2, "left open by the documentation"}};
    return mc::run(chk, argc, argv);
}
