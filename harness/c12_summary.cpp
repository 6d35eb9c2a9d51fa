// C12: summary information properties keep type and value.
#include "content.hpp"
#include "msiread.hpp"
using namespace content;

namespace {
enum { T_NONE, T_INT, T_STR, T_TIME };
int kind(int p) {
    switch (p) {
    case LIBMSI_PROPERTY_CODEPAGE: case LIBMSI_PROPERTY_SOURCE: case LIBMSI_PROPERTY_RESTRICT: case LIBMSI_PROPERTY_SECURITY: case LIBMSI_PROPERTY_VERSION: return T_INT;
    case LIBMSI_PROPERTY_TITLE: case LIBMSI_PROPERTY_SUBJECT: case LIBMSI_PROPERTY_AUTHOR: case LIBMSI_PROPERTY_KEYWORDS: case LIBMSI_PROPERTY_COMMENTS:
    case LIBMSI_PROPERTY_TEMPLATE: case LIBMSI_PROPERTY_LASTAUTHOR: case LIBMSI_PROPERTY_UUID: case LIBMSI_PROPERTY_APPNAME: return T_STR;
    case LIBMSI_PROPERTY_CREATED_TM: case LIBMSI_PROPERTY_LASTSAVED_TM: case LIBMSI_PROPERTY_EDITTIME: case LIBMSI_PROPERTY_LASTPRINTED: return T_TIME;
    }
    return T_NONE;
}
std::vector<int> ids() { std::vector<int> v; for (int p = 1; p < 20; p++) if (kind(p)) v.push_back(p); return v; }
struct PV {
    int k = T_NONE; int i = 0; std::string s; uint64_t t = 0;
    bool operator==(const PV &o) const { return k == o.k && (k != T_INT || i == o.i) && (k != T_STR || s == o.s) && (k != T_TIME || t == o.t); }
    std::string str() const { return k == T_INT ? fmt("int %d", i) : k == T_STR ? "str " + Val::S(s).str() : k == T_TIME ? fmt("time %llu", (unsigned long long)t) : "none"; }
};
PV pi(int v) { PV p; p.k = T_INT; p.i = v; return p; }
PV ps(std::string v) { PV p; p.k = T_STR; p.s = std::move(v); return p; }
PV pt(uint64_t v) { PV p; p.k = T_TIME; p.t = v; return p; }
using Props = std::map<int, PV>;
std::string str(const Props &m) { std::string o; for (auto &x : m) o += fmt("%d=", x.first) + x.second.str() + "; "; return "{" + o + "}"; }

int set(LibmsiSummaryInfo *si, int p, const PV &v) {
    GError *e = nullptr;
    gboolean ok = v.k == T_INT ? libmsi_summary_info_set_int(si, (LibmsiProperty)p, v.i, &e)
                  : v.k == T_STR ? libmsi_summary_info_set_string(si, (LibmsiProperty)p, v.s.c_str(), &e)
                                 : libmsi_summary_info_set_filetime(si, (LibmsiProperty)p, v.t, &e);
    if (!ok && !e) return -1;
    if (ok && e) { g_clear_error(&e); return -7; }
    return code(ok, e);
}
// everything a handle tells, read in every way
void check(mc::Ctx &c, LibmsiSummaryInfo *si, const Props &want, const std::string &when) {
    std::vector<int> list;
    GArray *a = libmsi_summary_info_get_properties(si);
    for (unsigned i = 0; i < a->len; i++) list.push_back((int)g_array_index(a, LibmsiProperty, i));
    g_array_unref(a);
    std::vector<int> wl;
    for (auto &x : want) wl.push_back(x.first);
    if (list != wl) { std::string o; for (int x : list) o += fmt("%d ", x); c.fail("list", when + ": properties " + o + "expected " + str(want)); }
    for (int p = 0; p < 22; p++) {
        auto it = want.find(p);
        PV w = it == want.end() ? PV{} : it->second;
        GError *e = nullptr;
        int t = libmsi_summary_info_get_property_type(si, (LibmsiProperty)p, &e);
        bool terr = e;
        g_clear_error(&e);
        static const int types[] = {LIBMSI_PROPERTY_TYPE_EMPTY, LIBMSI_PROPERTY_TYPE_INT, LIBMSI_PROPERTY_TYPE_STRING, LIBMSI_PROPERTY_TYPE_FILETIME};
        if (p >= 20 ? !terr : terr || t != types[w.k]) c.fail("type", when + fmt(": property %d has type %d error %d, expected ", p, t, terr) + w.str());
        int i = libmsi_summary_info_get_int(si, (LibmsiProperty)p, &e);
        bool ierr = e;
        g_clear_error(&e);
        if (w.k == T_INT ? ierr || i != w.i : !ierr || i != -1) c.fail("int", when + fmt(": property %d as integer %d error %d, expected ", p, i, ierr) + w.str());
        const char *s = libmsi_summary_info_get_string(si, (LibmsiProperty)p, &e);
        bool serr = e;
        g_clear_error(&e);
        if (w.k == T_STR ? serr || !s || w.s != s : !serr || s) c.fail("string", when + fmt(": property %d as string '%s' error %d, expected ", p, s ? s : "(null)", serr) + w.str());
        uint64_t f = libmsi_summary_info_get_filetime(si, (LibmsiProperty)p, &e);
        bool ferr = e;
        g_clear_error(&e);
        if (w.k == T_TIME ? ferr || f != w.t : !ferr || f) c.fail("filetime", when + fmt(": property %d as time %llu error %d, expected ", p, (unsigned long long)f, ferr) + w.str());
        // without an error return the answers are the same
        if (libmsi_summary_info_get_int(si, (LibmsiProperty)p, nullptr) != i || libmsi_summary_info_get_filetime(si, (LibmsiProperty)p, nullptr) != f) c.fail("no-error", when);
    }
}
Si handle(LibmsiDatabase *db, unsigned n, mc::Ctx &c) {
    GError *e = nullptr;
    Si si(libmsi_summary_info_new(db, n, &e));
    g_clear_error(&e);
    if (!si) c.fail("new", "no summary information");
    return si;
}
void check_db(mc::Ctx &c, LibmsiDatabase *db, const Props &want, const std::string &when) { Si s = handle(db, 0, c); check(c, s, want, when); }
void check_file(mc::Ctx &c, const std::string &path, const Props &want, const std::string &when) {
    try {
        msiread::File f = msiread::read(readfile(path).value_or(""));
        std::map<int, std::string> w;
        for (auto &x : want) w[x.first] = x.second.k == T_INT ? fmt("int %d", x.second.i) : x.second.k == T_STR ? "str " + x.second.s : fmt("time %llu", (unsigned long long)x.second.t);
        if (f.snap.summary != w) { std::string o; for (auto &x : f.snap.summary) o += fmt("%d=", x.first) + x.second + "; "; c.fail("stored", when + ": the file holds " + o + " expected " + str(want)); }
    } catch (msiread::Err &e) { c.fail("stored-unreadable", when + ": " + e.what); }
}
// put the values in, and look everywhere
void trip(mc::Ctx &c, const Props &vals, const std::string &when, bool file) {
    std::string p = c.scratch + "/s.msi";
    if (file) unlink(p.c_str());
    Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
    if (!db) c.fail("create", "");
    {
        Si s = handle(db, vals.size(), c);
        for (auto &x : vals) if (int e = set(s, x.first, x.second)) c.fail("set", when + fmt(": property %d refused (%d): ", x.first, e) + x.second.str());
        check(c, s, vals, when + " set");
        if (!libmsi_summary_info_persist(s, nullptr)) c.fail("persist", when);
        check(c, s, vals, when + " persisted");
        check_db(c, db, vals, when + " second handle");
    }
    c.state(str(vals));
    if (!vals.empty()) c.nontrivial();
    if (!file) return;
    if (int e = commit(db)) c.fail("commit", when + fmt(" %d", e));
    check_db(c, db, vals, when + " committed");
    db.reset();
    for (int m : {LIBMSI_DB_FLAGS_READONLY, LIBMSI_DB_FLAGS_TRANSACT}) {
        db = open(p, m);
        if (!db) c.fail("open", when);
        check_db(c, db, vals, when + fmt(" reopened in mode %d", m));
        db.reset();
    }
    check_file(c, p, vals, when);
}
struct Op { std::string name; int kind; int p; PV v; };       // 0 set, 1 persist, 2 commit, 3 reopen, 4 new handle, 5 save to other, 6 reopen without commit
std::vector<Op> ops() {
    std::vector<Op> v;
    auto s = [&](int p, PV x) { v.push_back({fmt("set %d ", p) + x.str(), 0, p, x}); };
    s(LIBMSI_PROPERTY_TITLE, ps("a"));
    s(LIBMSI_PROPERTY_TITLE, ps("a longer title"));
    s(LIBMSI_PROPERTY_AUTHOR, ps(""));
    s(LIBMSI_PROPERTY_APPNAME, ps("app"));
    s(LIBMSI_PROPERTY_SECURITY, pi(2));
    s(LIBMSI_PROPERTY_SECURITY, pi(-1));
    s(LIBMSI_PROPERTY_CODEPAGE, pi(1252));
    s(LIBMSI_PROPERTY_CREATED_TM, pt(0x01d0123456789abcull));
    s(LIBMSI_PROPERTY_EDITTIME, pt(0));
    // of another type: refused
    s(LIBMSI_PROPERTY_TITLE, pi(5));
    s(LIBMSI_PROPERTY_SECURITY, ps("5"));
    s(LIBMSI_PROPERTY_CREATED_TM, pi(5));
    s(LIBMSI_PROPERTY_TITLE, pt(5));
    s(17, pi(5));
    v.push_back({"persist", 1, 0, {}});
    v.push_back({"commit", 2, 0, {}});
    v.push_back({"reopen", 3, 0, {}});
    v.push_back({"handle for 2 changes", 4, 2, {}});
    v.push_back({"handle for 9 changes", 4, 9, {}});
    v.push_back({"save to another database", 5, 0, {}});
    return v;
}
std::string le(uint64_t v, int n) { std::string s; while (n--) { s += (char)v; v >>= 8; } return s; }
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C12";
    chk.technique = "bounded-exhaustive exploration of operation sequences on the real library against a model of the property sets, and an independent reader and writer of the stored form";
    chk.rule = "after every operation each handle answers every read of every property in every type as the model says, and the stored property set decodes to it; non-trivial: at least one property is set";
    static int depth;
    depth = thorough ? 4 : 3;
    chk.bounds = fmt("all sequences of %zu operations up to depth %d behind 3 starts; every property x boundary values; all subsets of at most 3 properties and their complements%s; string lengths 0..300 at every property; property sets of an independent writer", ops().size(), depth, thorough ? ", all subsets" : "");
    static const std::vector<Op> alpha = ops();
    static mc::Words words{alpha.size(), 1, depth};
    words.hi = depth;
    chk.spaces.push_back({"histories", "operation sequences, everything compared after each operation", words.count() * 3, [](mc::Ctx &c, uint64_t i) {
        int start = i % 3;
        auto w = words.at(i / 3);
        std::string p = c.scratch + "/h.msi", p2 = c.scratch + "/o.msi";
        clean(c.scratch);
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE), other;
        Props file, stored, mine;
        unsigned left = 4;
        if (start == 2) {
            Si s = handle(db, 3, c);
            file = {{LIBMSI_PROPERTY_TITLE, ps("old")}, {LIBMSI_PROPERTY_SECURITY, pi(7)}, {LIBMSI_PROPERTY_LASTPRINTED, pt(99)}};
            for (auto &x : file) set(s, x.first, x.second);
            if (!libmsi_summary_info_persist(s, nullptr) || commit(db)) c.fail("start", "");
        } else if (start == 1 && commit(db)) c.fail("start", "");
        bool exists = start > 0;
        stored = mine = file;
        Si si = handle(db, left, c);
        for (int o : w) {
            const Op &op = alpha[o];
            c.step(op.name);
            switch (op.kind) {
            case 0: {
                bool has = mine.count(op.p), ok = kind(op.p) == op.v.k && (has || left);
                int e = set(si, op.p, op.v);
                if (!ok != !!e) c.fail("set", op.name + fmt(" gave %d", e));
                if (ok) { if (!has) left--; mine[op.p] = op.v; }
                break;
            }
            case 1:
                if (!libmsi_summary_info_persist(si, nullptr)) c.fail("persist", "refused");
                stored = mine;
                break;
            case 2:
                if (int e = commit(db)) c.fail("commit", fmt("%d", e));
                file = stored;
                exists = true;
                check_file(c, p, file, "after commit");
                break;
            case 3:
                si.reset();
                db.reset();
                db = exists ? open(p, LIBMSI_DB_FLAGS_TRANSACT) : open(p, LIBMSI_DB_FLAGS_CREATE);
                if (!db) c.fail("reopen", "");
                stored = file;
                [[fallthrough]];
            case 4:
                left = op.kind == 4 ? op.p : 4;
                si = handle(db, left, c);
                mine = stored;
                break;
            case 5:
                if (!other) other = open(p2, LIBMSI_DB_FLAGS_CREATE);
                if (!libmsi_summary_info_save(si, other, nullptr)) c.fail("save", "refused");
                check_db(c, other, mine, "other database");
                break;
            }
            check(c, si, mine, "handle");
            check_db(c, db, stored, "database");
            c.state(str(mine) + str(stored) + str(file) + fmt("%u", left));
        }
        if (!mine.empty()) c.nontrivial();
        si.reset();
        db.reset();
        if (exists) { db = open(p, LIBMSI_DB_FLAGS_READONLY); if (!db) c.fail("reopen", "at the end"); check_db(c, db, file, "at the end"); }
    }});
    static const std::vector<int> id = ids();
    static std::vector<PV> iv, tv, sv;
    for (int b = 0; b < 32; b++) for (int d = -1; d <= 1; d++) { iv.push_back(pi((int)((1u << b) + d))); iv.push_back(pi((int)(0u - (1u << b) + d))); }
    for (int b = 0; b < 64; b++) for (int d = -1; d <= 1; d++) tv.push_back(pt((1ull << b) + d));
    for (int n = 0; n <= 300; n++) sv.push_back(ps(std::string(n, 'a' + n % 26)));
    for (int b = 1; b < 256; b++) sv.push_back(ps(std::string(1, (char)b))), sv.push_back(ps("x" + std::string(1, (char)b) + "y"));
    for (int n : {4090, 4096, 4100, 65535, 65536, 1000000}) sv.push_back(ps(std::string(n, 'L')));
    chk.spaces.push_back({"integers", "every integer property x values around powers of two", 5 * iv.size(), [](mc::Ctx &c, uint64_t i) {
        std::vector<int> l;
        for (int p : id) if (kind(p) == T_INT) l.push_back(p);
        // a property of 2 bytes keeps 16 bits in the file
        int p = l[i % l.size()];
        PV v = iv[i / l.size()];
        if (p == LIBMSI_PROPERTY_CODEPAGE && (v.i < -32768 || v.i > 65535)) return;
        c.step(fmt("%d ", p) + v.str());
        bool small = p != LIBMSI_PROPERTY_CODEPAGE || (v.i >= 0 && v.i <= 32767);
        trip(c, {{p, v}, {LIBMSI_PROPERTY_TITLE, ps("T")}}, fmt("integer property %d", p), small);
    }});
    chk.spaces.push_back({"times", "every time property x values around powers of two", 4 * tv.size(), [](mc::Ctx &c, uint64_t i) {
        std::vector<int> l;
        for (int p : id) if (kind(p) == T_TIME) l.push_back(p);
        c.step(fmt("%d ", l[i % 4]) + tv[i / 4].str());
        trip(c, {{l[i % 4], tv[i / 4]}, {LIBMSI_PROPERTY_TITLE, ps("T")}}, "time", true);
    }});
    chk.spaces.push_back({"strings", "every string property x every length to 300, every byte, long ones", 9 * sv.size(), [](mc::Ctx &c, uint64_t i) {
        std::vector<int> l;
        for (int p : id) if (kind(p) == T_STR) l.push_back(p);
        c.step(fmt("%d ", l[i % 9]) + sv[i / 9].str());
        trip(c, {{l[i % 9], sv[i / 9]}, {LIBMSI_PROPERTY_SECURITY, pi(3)}, {LIBMSI_PROPERTY_APPNAME, ps("after")}}, "string", i % 9 < 2 || i % 9 == 8);
    }});
    chk.spaces.push_back({"replace", "every property set to one value and then another, every other property set", 18 * 18 * 4, [](mc::Ctx &c, uint64_t i) {
        int p = id[i % 18], q = id[i / 18 % 18], m = i / 324;
        auto val = [&](int p, int n) { return kind(p) == T_INT ? pi(n * 1000 + p) : kind(p) == T_STR ? ps(std::string(n * 3 + p % 4, 'a' + n)) : pt(n * 1000000000000ull + p); };
        std::string path = c.scratch + "/r.msi";
        unlink(path.c_str());
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        Props w;
        {
            Si s = handle(db, 20, c);
            if (m & 1) for (int x : id) { w[x] = val(x, 1); if (set(s, x, w[x])) c.fail("set", ""); }
            w[p] = val(p, 2);
            if (set(s, p, w[p])) c.fail("set", "");
            check(c, s, w, "first");
            if (m & 2 && !libmsi_summary_info_persist(s, nullptr)) c.fail("persist", "");
            w[q] = val(q, 3);
            if (set(s, q, w[q])) c.fail("set", "");
            check(c, s, w, "second");
            if (!libmsi_summary_info_persist(s, nullptr)) c.fail("persist", "");
        }
        check_db(c, db, w, "stored");
        {
            Si s = handle(db, 0, c);
            w[p] = val(p, 4);
            if (set(s, p, w[p])) c.fail("set", "replacing in a loaded set");
            check(c, s, w, "loaded");
            if (!libmsi_summary_info_persist(s, nullptr)) c.fail("persist", "");
        }
        if (commit(db)) c.fail("commit", "");
        db.reset();
        db = open(path, LIBMSI_DB_FLAGS_READONLY);
        check_db(c, db, w, "reopened");
        check_file(c, path, w, "file");
        c.state(str(w));
        c.nontrivial();
    }});
    auto small = [](uint64_t i) -> uint32_t {       // i-th subset with at most three members
        uint32_t a = i % 18, b = i / 18 % 18, d = i / 324;
        return 1u << a | 1u << b | 1u << d;
    };
    chk.spaces.push_back({"subsets", thorough ? "every subset of the properties" : "every subset of at most three properties, and every complement", thorough ? 1u << 18 : 18 * 18 * 18 * 2 + 2, [small, thorough](mc::Ctx &c, uint64_t i) {
        uint32_t m;
        if (thorough) m = i;
        else if (i < 2) m = i ? (1u << 18) - 1 : 0;
        else {
            uint64_t n = (i - 2) / 2;
            if (n % 18 > n / 18 % 18 || n / 18 % 18 > n / 324) return;
            m = small(n);
            if (i & 1) m ^= (1u << 18) - 1;
        }
        Props w;
        for (int k = 0; k < 18; k++) if (m >> k & 1) w[id[k]] = kind(id[k]) == T_INT ? pi(100 + k) : kind(id[k]) == T_STR ? ps(std::string(k % 5, 'a' + k)) : pt(1000000000000000ull + k);
        c.step(fmt("properties %05x", m));
        trip(c, w, fmt("subset %05x", m), !thorough);
    }});
    // property sets of another writer: any order, padding, gap and position, with properties unknown here
    static const std::vector<std::vector<int>> perms = [] { std::vector<std::vector<int>> v; std::vector<int> p{0, 1, 2, 3, 4}; do v.push_back(p); while (std::next_permutation(p.begin(), p.end())); return v; }();
    static bool thor;
    thor = thorough;
    static uint64_t places;
    places = thorough ? perms.size() : 17;
    // a file with room for a property set of 4 KB, which is replaced byte by byte
    static std::string templ;
    static size_t where;
    chk.setup = [](bool) {
        std::string p = std::string(getenv("MC_SCRATCH")) + "/template.msi";
        Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
        { Si s(libmsi_summary_info_new(db, 2, nullptr)); set(s, LIBMSI_PROPERTY_TITLE, ps(std::string(4500, 'X'))); libmsi_summary_info_persist(s, nullptr); }
        commit(db);
        db.reset();
        templ = readfile(p).value_or("");
        where = templ.find(std::string("\xfe\xff\0\0", 4));
        size_t end = templ.find(std::string(4500, 'X'));
        if (where == std::string::npos || end == std::string::npos || end < where) throw mc::Failure{"template", "no contiguous property set in the file"};
        templ.replace(where, end + 4500 - where, std::string(end + 4500 - where, '\0'));
    };
    chk.spaces.push_back({"foreign", "property sets of an independent writer: orders x gaps x positions x extra properties", perms.size() * places * 2 * 3 * 3, [](mc::Ctx &c, uint64_t i) {
        auto &order = perms[i % perms.size()], &place = perms[(i / perms.size() % places) * (thor ? 1 : 7)];
        uint64_t m = i / perms.size() / places;
        int gap = m % 2 * 12, at = 48 + m / 2 % 3 * 20, extra = m / 6;
        Props w = {{LIBMSI_PROPERTY_CODEPAGE, pi(1252)}, {LIBMSI_PROPERTY_TITLE, ps("title")}, {LIBMSI_PROPERTY_UUID, ps("{X}")}, {LIBMSI_PROPERTY_CREATED_TM, pt(0x01d0123456789abcull)}, {LIBMSI_PROPERTY_SECURITY, pi(4)}};
        std::vector<std::pair<int, std::string>> e;
        for (auto &x : w) e.push_back({x.first, x.second.k == T_INT ? le(x.first == 1 ? 2 : 3, 4) + le((uint32_t)x.second.i, 4) : x.second.k == T_STR ? le(30, 4) + le(x.second.s.size() + 1, 4) + x.second.s + std::string(1 + (3 - x.second.s.size() % 4), '\0') : le(64, 4) + le(x.second.t, 8)});
        int n = 5 + (extra ? 1 : 0);
        std::string body(8 + n * 8, '\0'), data;
        std::vector<uint32_t> off(6);
        uint32_t pos = 8 + n * 8;
        for (int k : place) { off[k] = pos; data += e[k].second + std::string(gap, 'G'); pos = 8 + n * 8 + data.size(); }
        off[5] = pos;
        if (extra) data += extra == 1 ? le(3, 4) + le(77, 4) : le(30, 4) + le(5, 4) + std::string("what\0\0\0\0", 8);
        std::string idx;
        for (int k = 0; k < 5; k++) { if (extra && k == 2) idx += le(extra == 1 ? 30 : 17, 4) + le(off[5], 4); idx += le(e[order[k]].first, 4) + le(off[order[k]], 4); }
        std::string sec = le(8 + idx.size() + data.size(), 4) + le(n, 4) + idx + data;
        static const unsigned char fid[] = {0xe0, 0x85, 0x9f, 0xf2, 0xf9, 0x4f, 0x68, 0x10, 0xab, 0x91, 0x08, 0x00, 0x2b, 0x27, 0xb3, 0xd9};
        std::string s = le(0xfffe, 2) + le(0, 2) + le(0x20006, 4) + std::string(16, '\0') + le(1, 4) + std::string((const char *)fid, 16) + le(at, 4) + std::string(at - 48, '\0') + sec;
        std::string file = templ;
        file.replace(where, s.size(), s);
        std::string path = c.scratch + "/f.msi";
        writefile(path, file);
        Db db = open(path, LIBMSI_DB_FLAGS_READONLY);
        if (!db) c.fail("open", "foreign");
        check_db(c, db, w, "foreign property set");
        c.state(s);
        c.nontrivial();
    }});
    chk.spaces.push_back({"handles", "two handles on one database: every interleaving of two sets and a persist each", 20 * 9, [](mc::Ctx &c, uint64_t i) {
        // interleavings of aab / ccd as 3 out of 6 places
        std::vector<int> sel;
        for (int m = 0; m < 64; m++) if (__builtin_popcount(m) == 3) sel.push_back(m);
        int m = sel[i % 20], v = i / 20;
        Db db = open(c.scratch + "/t.msi", LIBMSI_DB_FLAGS_CREATE);
        Props st = {{LIBMSI_PROPERTY_TITLE, ps("0")}};
        { Si s = handle(db, 1, c); set(s, LIBMSI_PROPERTY_TITLE, ps("0")); libmsi_summary_info_persist(s, nullptr); }
        Si h[2] = {handle(db, 5, c), handle(db, 5, c)};
        Props w[2] = {st, st};
        int at[2] = {0, 0};
        for (int k = 0; k < 6; k++) {
            int x = m >> k & 1;
            int p[2] = {x ? LIBMSI_PROPERTY_TITLE : (v % 3 == 0 ? LIBMSI_PROPERTY_TITLE : LIBMSI_PROPERTY_SECURITY), v / 3 == 0 ? LIBMSI_PROPERTY_TITLE : v / 3 == 1 ? LIBMSI_PROPERTY_AUTHOR : LIBMSI_PROPERTY_SECURITY};
            if (at[x] < 2) {
                int q = p[at[x]];
                PV val = kind(q) == T_INT ? pi(x * 10 + at[x]) : ps(fmt("%c%d", 'a' + x, at[x]));
                c.step(fmt("handle %d sets %d", x, q));
                if (set(h[x], q, val)) c.fail("set", "");
                w[x][q] = val;
            } else { c.step(fmt("handle %d persists", x)); if (!libmsi_summary_info_persist(h[x], nullptr)) c.fail("persist", ""); st = w[x]; }
            at[x]++;
            check(c, h[0], w[0], "first handle");
            check(c, h[1], w[1], "second handle");
            check_db(c, db, st, "database");
        }
        c.state(str(st));
        c.nontrivial();
    }});
    return mc::run(chk, argc, argv);
}
