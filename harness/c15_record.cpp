// C15: a record holds exactly the last value set in each field.
#include "content.hpp"
using namespace content;

namespace {
using Model = std::vector<Val>;         // of fields 0..n
int parsed(const std::string &s) {      // what the string is as an integer
    size_t i = !s.empty() && s[0] == '-';
    if (i == s.size()) return LIBMSI_NULL_INT;
    uint32_t v = 0;                     // modulo 2^32
    for (; i < s.size(); i++) {
        if (s[i] < '0' || s[i] > '9') return LIBMSI_NULL_INT;
        v = v * 10 + (s[i] - '0');
    }
    return (int)(s[0] == '-' ? 0 - v : v);
}
std::string get_str(LibmsiRecord *r, unsigned i) { gchar *s = libmsi_record_get_string(r, i); std::string o = s ? s : "<none>"; g_free(s); return o; }
std::optional<std::string> get_stream(LibmsiRecord *r, unsigned i) {
    GInputStream *in = libmsi_record_get_stream(r, i);
    if (!in) return std::nullopt;
    auto s = slurp(in);
    g_object_unref(in);
    return s ? s : std::optional<std::string>("<unreadable>");
}
GInputStream *memory(const std::string &s) { return g_memory_input_stream_new_from_data(g_memdup2(s.data(), s.size() ? s.size() : 1), s.size(), g_free); }
bool put_stream(LibmsiRecord *r, unsigned i, const std::string &s, size_t count) {
    GInputStream *in = memory(s);
    GError *e = nullptr;
    bool ok = libmsi_record_set_stream(r, i, in, count, nullptr, &e);
    g_clear_error(&e);
    g_object_unref(in);
    return ok;
}
void field_is(mc::Ctx &c, LibmsiRecord *r, unsigned i, const Val &v, const std::string &w) {
    bool null = libmsi_record_is_null(r, i);
    if (null != (v.k == Val::NUL)) c.fail("is-null", w + fmt(" field %u is%s null, want ", i, null ? "" : " not") + v.str());
    if (v.k == Val::BIN) {
        for (int n = 0; n < 2; n++) {
            auto s = get_stream(r, i);
            if (!s || *s != v.s) c.fail("stream", w + fmt(" field %u: stream %s, want ", i, s ? Val::B(*s).str().c_str() : "missing") + v.str());
        }
        return;
    }
    if (get_stream(r, i)) c.fail("stream-of-other", w + fmt(" field %u has a stream, want ", i) + v.str());
    std::string s = get_str(r, i), ws = v.k == Val::INT ? std::to_string(v.i) : v.s;
    if (s != ws) c.fail("string", w + fmt(" field %u reads '%s', want ", i, s.c_str()) + v.str());
    int n = libmsi_record_get_int(r, i), wn = v.k == Val::INT ? v.i : v.k == Val::STR ? parsed(v.s) : (int)LIBMSI_NULL_INT;
    if (n != wn) c.fail("int", w + fmt(" field %u is %d, want %d of ", i, n, wn) + v.str());
}
void same(mc::Ctx &c, LibmsiRecord *r, const Model &m, const std::string &w) {
    if (libmsi_record_get_field_count(r) != m.size() - 1) c.fail("count", w + fmt(" %u fields", libmsi_record_get_field_count(r)));
    for (size_t i = 0; i < m.size(); i++) field_is(c, r, i, m[i], w);
    for (unsigned i : {(unsigned)m.size(), (unsigned)m.size() + 1, 65535u, 65536u, 0x80000000u, 0xffffffffu}) field_is(c, r, i, Val::N(), w + " out of range");
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C15";
    chk.technique = "bounded-exhaustive exploration of operation sequences on real records against a model of the fields";
    static const int depth = thorough ? 4 : 3;
    chk.rule = "after every operation every field of every record, and every field out of range, reads as the model has it, streams twice; non-trivial: a field holds a value";
    chk.bounds = fmt("all sequences of 31 operations on two records up to depth %d; all integer texts up to 4 characters of 9 and around powers of two and ten; record sizes 0..300 and 65533..65535; all stream read/skip/seek sequences of 14 steps up to depth %d; stream lengths 1..600 and around 4096 and 65536", depth, thorough ? 5 : 4);
    // operations
    struct Op { std::string name; std::function<void(mc::Ctx &, LibmsiRecord *, Model &)> run; };
    static std::vector<Op> ops;
    auto setint = [](unsigned f, int v) { ops.push_back({fmt("set_int(%u,%d)", f, v), [=](mc::Ctx &c, LibmsiRecord *r, Model &m) {
        bool ok = libmsi_record_set_int(r, f, v);
        if (ok != (f < m.size())) c.fail("set-int", fmt("set_int of field %u gives %d", f, ok));
        if (ok) m[f] = Val::I(v);
    }}); };
    auto setstr = [](unsigned f, const char *v) { ops.push_back({fmt("set_string(%u,%s)", f, v ? v : "NULL"), [=](mc::Ctx &c, LibmsiRecord *r, Model &m) {
        bool ok = libmsi_record_set_string(r, f, v);
        if (ok != (f < m.size())) c.fail("set-string", fmt("set_string of field %u gives %d", f, ok));
        if (ok) m[f] = v && *v ? Val::S(v) : Val::N();
    }}); };
    auto setstream = [](unsigned f, std::string v, size_t count) { ops.push_back({fmt("set_stream(%u,%s,%zu)", f, Val::B(v).str().c_str(), count), [=](mc::Ctx &c, LibmsiRecord *r, Model &m) {
        bool ok = put_stream(r, f, v, count), can = f && f < m.size() && count && count <= v.size();
        if (ok != can) c.fail("set-stream", fmt("set_stream of field %u gives %d", f, ok));
        if (ok) m[f] = Val::B(v.substr(0, count));
    }}); };
    auto load = [](unsigned f, const char *what) { ops.push_back({fmt("load_stream(%u,%s)", f, what ? what : "NULL"), [=](mc::Ctx &c, LibmsiRecord *r, Model &m) {
        std::string p = c.scratch + "/" + (what ? what : "");
        if (what && !strcmp(what, "file")) writefile(p, "data of a file");
        if (what && !strcmp(what, "empty")) writefile(p, "");
        if (what && !strcmp(what, "missing")) unlink(p.c_str());
        bool ok = libmsi_record_load_stream(r, f, what ? p.c_str() : nullptr), can = f && f < m.size() && (what ? strcmp(what, "missing") != 0 : m[f].k == Val::BIN);
        if (ok != can) c.fail("load-stream", fmt("load_stream of field %u gives %d", f, ok));
        if (what) unlink(p.c_str());
        if (ok && what) m[f] = Val::B(!strcmp(what, "file") ? "data of a file" : "");
    }}); };
    for (unsigned f : {0u, 1u, 3u}) setint(f, f == 3 ? -2147483647 : (int)f * 7);
    setint(1, 2147483647); setint(1, -1); setint(2, 0); setint(4, 5); setint(0xffffffff, 5);
    setstr(0, "zero"); setstr(1, "text"); setstr(1, "-12"); setstr(2, "d\xc3\xa9j\xc3\xa0 vu, a longer text to be stored"); setstr(3, "99999999999"); setstr(3, ""); setstr(1, nullptr); setstr(4, "x"); setstr(2, "-");
    setstream(1, "stream one", 10); setstream(1, "short", 6); setstream(2, std::string(5000, 's') + '\0' + "x", 5002); setstream(3, "part of this", 4); setstream(0, "zero", 4); setstream(4, "four", 4);
    load(1, "file"); load(2, "empty"); load(1, "missing"); load(1, nullptr); load(4, "file");
    ops.push_back({"clear", [](mc::Ctx &c, LibmsiRecord *r, Model &m) { if (!libmsi_record_clear(r)) c.fail("clear", ""); for (auto &v : m) v = Val::N(); }});
    ops.push_back({"read 3 bytes of stream 1", [](mc::Ctx &, LibmsiRecord *r, Model &m) {
        if (m[1].k != Val::BIN) return;
        GInputStream *in = libmsi_record_get_stream(r, 1);
        char b[3];
        g_input_stream_read(in, b, 3, nullptr, nullptr);
        g_object_unref(in);
    }});
    static mc::Words w{ops.size(), 1, depth};
    chk.spaces.push_back({"operations", "every sequence of operations, a second record and held streams besides", w.count(), [](mc::Ctx &c, uint64_t i) {
        Rec r(libmsi_record_new(3)), o(libmsi_record_new(3));
        Model m(4), n(4);
        std::vector<std::pair<GInputStream *, std::string>> held;
        int step = 0;
        for (int x : w.at(i)) {
            c.step(ops[x].name);
            ops[x].run(c, r, m);
            if (step++ % 2 == 0) ops[x].run(c, o, n);
            same(c, r, m, "record");
            same(c, o, n, "other record");
            std::string st;
            for (auto &v : m) { st += v.str(); if (v.k != Val::NUL) c.nontrivial(); }
            c.state(st);
            for (int f = 1; f < 4; f++) if (m[f].k == Val::BIN) held.push_back({libmsi_record_get_stream(r, f), m[f].s});
        }
        // streams fetched earlier keep what they were, also after the record is gone
        r.reset();
        for (auto &h : held) {
            auto s = slurp(h.first);
            g_object_unref(h.first);
            if (!s || *s != h.second) c.fail("held-stream", "a stream fetched before reads " + (s ? Val::B(*s).str() : "nothing") + ", want " + Val::B(h.second).str());
        }
    }});
    static const std::string ic = "-019 +x.2";
    static mc::Words iw{ic.size(), 1, thorough ? 5u : 4u};
    static std::vector<std::string> big;
    for (long long b : {10ll, 100ll, 127ll, 128ll, 255ll, 256ll, 999ll, 32767ll, 65535ll, 1000000000ll, 2147483646ll, 4294967295ll, 8589934592ll, 21474836470ll, 99999999999ll})
        for (long long d = -2; d < 4; d++) for (int s = 0; s < 2; s++) for (int z = 0; z < 2; z++) big.push_back((s ? "-" : "") + std::string(z ? "000" : "") + std::to_string(b + d));
    for (auto s : {"18446744073709551617", "9223372036854775808", "-9223372036854775809", "4294967296000000001", "00000000000000000000000000000000007", "-00000000000000000000000000000000007"}) big.push_back(s);
    chk.spaces.push_back({"texts", "every integer-like text, as string and as integer", iw.count() + big.size(), [](mc::Ctx &c, uint64_t i) {
        std::string s;
        if (i < big.size()) s = big[i];
        else for (int x : iw.at(i - big.size())) s += ic[x];
        Rec r(libmsi_record_new(2));
        c.step("'" + s + "'");
        libmsi_record_set_string(r, 1, s.c_str());
        field_is(c, r, 1, Val::S(s), "text");
        int n = parsed(s);
        c.state(s);
        if (n == (int)LIBMSI_NULL_INT) return;
        c.nontrivial();
        libmsi_record_set_int(r, 2, n);
        field_is(c, r, 2, Val::I(n), "integer");
        libmsi_record_set_string(r, 1, get_str(r, 2).c_str());
        field_is(c, r, 1, Val::S(std::to_string(n)), "back");
    }});
    chk.spaces.push_back({"sizes", "records of 0..300 and of the most fields, every field set, changed and cleared", 304, [](mc::Ctx &c, uint64_t i) {
        unsigned n = i <= 300 ? i : 65532 + (i - 300);
        c.step(fmt("%u fields", n));
        Rec r(libmsi_record_new(n));
        if (n >= 65535) { if (r) c.fail("too-many", fmt("a record of %u fields", n)); return; }
        if (!r) c.fail("new", fmt("no record of %u fields", n));
        Model m(n + 1);
        for (unsigned k = 0; k <= n; k++) {
            if (k % 3 == 0) { m[k] = Val::I(k); libmsi_record_set_int(r, k, k); }
            if (k % 3 == 1) { m[k] = Val::S(fmt("field %u", k)); libmsi_record_set_string(r, k, m[k].s.c_str()); }
            if (k % 3 == 2 && k % 2) { m[k] = Val::B(fmt("stream %u", k)); put_stream(r, k, m[k].s, m[k].s.size()); }
            if (n <= 20) same(c, r, m, "filling");
        }
        same(c, r, m, "filled");
        c.nontrivial();
        c.state(fmt("%u", n));
        libmsi_record_set_string(r, n, "last");
        m[n] = Val::S("last");
        same(c, r, m, "changed");
        libmsi_record_clear(r);
        same(c, r, Model(n + 1), "cleared");
    }});
    static const std::vector<size_t> lens = [] { std::vector<size_t> v; for (size_t i = 1; i <= 600; i++) v.push_back(i); for (size_t b : {4096, 8192, 65536, 1 << 20}) for (int d = -1; d < 2; d++) v.push_back(b + d); return v; }();
    chk.spaces.push_back({"lengths", "streams of every length from memory, from a file and from a database, read in several chunk sizes", lens.size() * 3, [](mc::Ctx &c, uint64_t i) {
        size_t n = lens[i / 3];
        std::string s;
        for (size_t k = 0; k < n; k++) s += (char)(k * 31 + k / 251 + 1);
        c.step(fmt("%zu bytes, %s", n, i % 3 == 0 ? "memory" : i % 3 == 1 ? "file" : "database"));
        Rec r(libmsi_record_new(1));
        if (i % 3 == 1) { writefile(c.scratch + "/f", s); if (!libmsi_record_load_stream(r, 1, (c.scratch + "/f").c_str())) c.fail("load", ""); unlink((c.scratch + "/f").c_str()); }
        else if (!put_stream(r, 1, s, n)) c.fail("set", "");
        if (i % 3 == 2) {
            Db db = open(c.scratch + "/d.msi", LIBMSI_DB_FLAGS_CREATE);
            exec(db, "CREATE TABLE `T` (`K` SHORT NOT NULL, `D` OBJECT PRIMARY KEY `K`)");
            Query q(libmsi_query_new(db, "INSERT INTO `T` (`K`,`D`) VALUES (1,?)", nullptr));
            if (!libmsi_query_execute(q, r, nullptr)) c.fail("insert", "");
            field_is(c, r, 1, Val::B(s), "the parameter record");       // using it does not consume it
            Query f(libmsi_query_new(db, "SELECT `D` FROM `T`", nullptr));
            libmsi_query_execute(f, nullptr, nullptr);
            r = Rec(libmsi_query_fetch(f, nullptr));
            if (!r) c.fail("fetch", "");
        }
        field_is(c, r, 1, Val::B(s), "stream");
        for (size_t chunk : {(size_t)1, (size_t)7, (size_t)64, (size_t)4096, n, n + 1}) {
            if (n / chunk > 5000) continue;
            GInputStream *in = libmsi_record_get_stream(r, 1);
            std::string got, buf(chunk, 0);
            for (gssize k; (k = g_input_stream_read(in, &buf[0], chunk, nullptr, nullptr)) > 0;) got.append(buf, 0, k);
            g_object_unref(in);
            if (got != s) c.fail("chunks", fmt("read in %zu bytes: %zu bytes", chunk, got.size()));
        }
        c.nontrivial();
        c.state(fmt("%zu", n));
    }});
    // positions within a stream
    static const int sd = thorough ? 5 : 4;
    static mc::Words sw{14, 1, sd};
    chk.spaces.push_back({"positions", "every sequence of read, skip, seek and tell on two streams of one field", sw.count(), [](mc::Ctx &c, uint64_t i) {
        std::string s = "0123456789abcdefghij";
        Rec r(libmsi_record_new(1));
        put_stream(r, 1, s, s.size());
        GInputStream *in[2] = {libmsi_record_get_stream(r, 1), libmsi_record_get_stream(r, 1)};
        size_t pos[2] = {0, 0};
        std::string bad;
        for (int o : sw.at(i)) {
            int k = o / 7;
            char b[32] = "";
            static const char *nm[] = {"read 3", "read 30", "skip 5", "seek to 4", "seek by -2", "seek to 3 before the end", "skip 100"};
            c.step(fmt("stream %d: ", k) + nm[o % 7]);
            gssize n;
            bool ok;
            switch (o % 7) {
            case 0: case 1: {
                size_t want = std::min<size_t>(o % 7 ? 30 : 3, s.size() - pos[k]);
                n = g_input_stream_read(in[k], b, o % 7 ? 30 : 3, nullptr, nullptr);
                if (n != (gssize)want || s.compare(pos[k], want, b, want)) bad = fmt("reads %zd bytes at %zu", n, pos[k]);
                pos[k] += want;
                break;
            }
            case 2: case 6: {
                size_t want = std::min<size_t>(o % 7 == 6 ? 100 : 5, s.size() - pos[k]);
                n = g_input_stream_skip(in[k], o % 7 == 6 ? 100 : 5, nullptr, nullptr);
                if (n != (gssize)want) bad = fmt("skips %zd bytes at %zu", n, pos[k]);
                pos[k] += want;
                break;
            }
            case 3: ok = g_seekable_seek(G_SEEKABLE(in[k]), 4, G_SEEK_SET, nullptr, nullptr); if (!ok) bad = "seek fails"; pos[k] = 4; break;
            case 4: ok = g_seekable_seek(G_SEEKABLE(in[k]), -2, G_SEEK_CUR, nullptr, nullptr); if (ok != (pos[k] >= 2)) bad = fmt("seek gives %d", ok); if (pos[k] >= 2) pos[k] -= 2; break;
            case 5: ok = g_seekable_seek(G_SEEKABLE(in[k]), -3, G_SEEK_END, nullptr, nullptr); if (!ok) bad = "seek fails"; pos[k] = s.size() - 3; break;
            }
            if (bad.empty()) for (int j = 0; j < 2; j++) if (g_seekable_tell(G_SEEKABLE(in[j])) != (goffset)pos[j]) bad = fmt("stream %d at %lld, want %zu", j, (long long)g_seekable_tell(G_SEEKABLE(in[j])), pos[j]);
            c.state(fmt("%zu %zu", pos[0], pos[1]));
            if (!bad.empty()) break;
        }
        c.nontrivial();
        for (int k = 0; k < 2; k++) {
            auto rest = slurp(in[k]);
            if (bad.empty() && (!rest || *rest != s.substr(pos[k]))) bad = "the rest of the stream is wrong";
            g_object_unref(in[k]);
        }
        if (!bad.empty()) c.fail("position", bad);
        field_is(c, r, 1, Val::B(s), "stream");
    }});
    // records that queries return and take
    chk.spaces.push_back({"rows", "all values of a row x its use as parameters and as a fetched record, changed while the database is not", 6 * 6 * 6 * 3, [](mc::Ctx &c, uint64_t i) {
        static const std::vector<Val> nv = {Val::N(), Val::I(0), Val::I(-32767), Val::I(32767), Val::I(1), Val::I(-1)}, sv = {Val::N(), Val::S("x"), Val::S("12"), Val::S("d\xc3\xa9"), Val::S("-7"), Val::S("a longer text")}, bv = {Val::N(), Val::B("s"), Val::B(std::string(70, 'q')), Val::B(std::string(5000, 'Q')), Val::B("12"), Val::B(std::string(2, '\0'))};
        Row row = {nv[i % 6], sv[i / 6 % 6], bv[i / 36 % 6]};
        int how = i / 216;
        Db db = open(c.scratch + "/d.msi", LIBMSI_DB_FLAGS_CREATE);
        exec(db, "CREATE TABLE `T` (`K` SHORT NOT NULL, `N` SHORT, `S` CHAR(90), `D` OBJECT PRIMARY KEY `K`)");
        Rec r = record(row);
        Query q(libmsi_query_new(db, "INSERT INTO `T` (`K`,`N`,`S`,`D`) VALUES (1,?,?,?)", nullptr));
        c.step(show(row));
        if (!libmsi_query_execute(q, r, nullptr)) c.fail("insert", "");
        Model m(1);
        m.insert(m.end(), row.begin(), row.end());
        same(c, r, m, "parameters after use");
        Query f(libmsi_query_new(db, "SELECT `N`,`S`,`D` FROM `T`", nullptr));
        libmsi_query_execute(f, nullptr, nullptr);
        Rec g(libmsi_query_fetch(f, nullptr));
        if (!g) c.fail("fetch", "");
        same(c, g, m, "fetched");
        if (how == 0) { libmsi_record_set_int(g, 2, 5); m[2] = Val::I(5); same(c, g, m, "changed"); }
        if (how == 1) { exec(db, "UPDATE `T` SET `N` = 9, `S` = 'changed', `D` = ?", {Val::B("other bytes")}); same(c, g, m, "after UPDATE"); }
        if (how == 2) { exec(db, "DELETE FROM `T`"); f.reset(); q.reset(); db.reset(); same(c, g, m, "after the database is gone"); return; }
        Res x = query(db, "SELECT `N`,`S`,`D` FROM `T`");
        Rows want = {how ? Row{Val::I(9), Val::S("changed"), Val::B("other bytes")} : row};
        if (x.rows != want) c.fail("database", "the table has " + show(x.rows));
        c.nontrivial();
        c.state(show(row));
    }});
    return mc::run(chk, argc, argv);
}
