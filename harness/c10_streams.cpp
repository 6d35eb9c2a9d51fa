// C10: streams and storages keep their names and bytes.
#include "msiread.hpp"
using namespace content;

namespace {
std::string bytes(int n, int s) { std::string x(n, 0); for (int k = 0; k < n; k++) x[k] = (char)(k * 31 + s + (k >> 8)); return x; }
struct Model {
    std::map<std::string, std::string> st;         // stream name -> bytes
    std::set<std::string> maybe;                   // streams of rows that are gone: may be listed or not
    std::map<std::string, bool> rows;              // key -> has data
    std::map<std::string, std::string> sto;        // storage -> content of its one table
};
struct Op { std::string name; std::function<int(Model &, LibmsiDatabase *)> run; int kind = 0; };
enum { OK = 0, REFUSE = 1, EITHER = 2 };
std::string stgbytes(int v) {
    static std::map<int, std::string> m;
    if (m.count(v)) return m[v];
    std::string p = fmt("%s/stgx-%d.msi", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp", getpid());
    {
        Db d = open(p, LIBMSI_DB_FLAGS_CREATE);
        exec(d, "CREATE TABLE `Inner` (`K` SHORT NOT NULL PRIMARY KEY `K`)");
        exec(d, fmt("INSERT INTO `Inner` (`K`) VALUES (%d)", v));
        exec(d, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('in',?)", {Val::B(bytes(v * 1000, v))});
        commit(d);
    }
    m[v] = *readfile(p);
    unlink(p.c_str());
    return m[v];
}
void expect(mc::Ctx &c, const std::string &what, int want, int e) {
    if (want == OK && e) c.fail(what + " refused", what + fmt(" fails with %d", e));
    if (want == REFUSE && !e) c.fail(what + " accepted", what + " is accepted");
}
void compare(mc::Ctx &c, LibmsiDatabase *db, const Model &m, const std::string &after) {
    auto bad = [&](const std::string &w, const std::string &x) { c.fail(w + " after " + after, w + " after " + after + ": " + x); };
    Res q = query(db, "SELECT `Name`,`Data` FROM `_Streams`");
    if (!q.ok()) bad("listing", fmt("error %d", q.err));
    std::map<std::string, std::string> got;
    for (auto &r : q.rows) if (!got.emplace(r[0].s, r[1].s).second) bad("listing", "two streams " + r[0].s);
    for (auto &s : m.st) {
        if (!got.count(s.first)) bad("listing", s.first + " is missing");
        if (got[s.first] != s.second) bad("bytes", fmt("%s has %zu bytes, expected %zu", s.first.c_str(), got[s.first].size(), s.second.size()));
    }
    for (auto &s : got) if (!m.st.count(s.first) && !m.maybe.count(s.first)) bad("listing", "unexpected stream " + s.first);
    // by name
    for (const char *n : {"one", "two", "Binary.a", "Binary.b", "none"}) {
        Res b = query(db, "SELECT `Data` FROM `_Streams` WHERE `Name` = ?", {Val::S(n)});
        size_t want = m.st.count(n) ? 1 : 0;
        if (!b.ok() || (b.rows.size() != want && !m.maybe.count(n))) bad("by name", fmt("%s: %zu rows, error %d", n, b.rows.size(), b.err));
        if (want && b.rows[0][0].s != m.st.at(n)) bad("by name", n);
    }
    Res t = query(db, "SELECT `Name`,`Data` FROM `Binary`");
    if (!t.ok()) bad("table", fmt("error %d %s", t.err, t.where));
    Rows rows;
    for (auto &r : m.rows) rows.push_back({Val::S(r.first), r.second ? Val::B(m.st.at("Binary." + r.first)) : Val::N()});
    if (sorted(t.rows) != rows) bad("table", "shows " + show(t.rows) + " expected " + show(rows));
    q = query(db, "SELECT `Name` FROM `_Storages`");
    std::set<std::string> sg, sw;
    for (auto &r : q.rows) if (!sg.insert(r[0].s).second) bad("storages", "two " + r[0].s);
    for (auto &s : m.sto) sw.insert(s.first);
    if (!q.ok() || sg != sw) bad("storages", fmt("%zu listed, expected %zu", sg.size(), sw.size()));
}
void file_agrees(mc::Ctx &c, const std::string &path, const Model &m, const std::string &after) {
    msiread::Cfb f;
    try { f = msiread::cfb(*readfile(path)); } catch (msiread::Err &e) { c.fail("file", after + ": " + e.what); }
    std::set<std::string> got, want;
    for (auto &s : f.storages) got.insert(msiread::utf8(s));
    for (auto &s : m.sto) want.insert(s.first);
    if (got != want) c.fail("storages in the file", after);
    for (auto &s : m.sto) {
        msiread::Cfb o = msiread::cfb(s.second);
        std::vector<std::pair<std::u16string, std::string>> w(o.streams.begin(), o.streams.end());
        std::u16string n(s.first.begin(), s.first.end());
        if (f.sub[n] != w) c.fail("storage content", after + ": " + s.first + " does not hold the streams it was made from");
    }
}
std::vector<Op> alphabet() {
    std::vector<Op> v;
    static const int small = 30, big = 5000;
    auto S = [&](const char *n, int len, int seed) {
        std::string name = n, data = bytes(len, seed);
        v.push_back({fmt("_Streams insert %s %d", n, len), [=](Model &m, LibmsiDatabase *d) {
            int e = exec(d, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", {Val::S(name), Val::B(data)});
            if (!e) { m.st[name] = data; m.maybe.erase(name); }
            // inserting a name that is there replaces it or is refused
            return e && (m.st.count(name) || m.maybe.count(name)) ? 0 : e;
        }});
    };
    S("one", small, 1); S("one", big, 2); S("two", big, 3); S("Binary.a", small, 4);
    auto U = [&](const char *n, int len, int seed) {
        std::string name = n, data = bytes(len, seed);
        v.push_back({fmt("_Streams update %s %d", n, len), [=](Model &m, LibmsiDatabase *d) {
            int e = exec(d, "UPDATE `_Streams` SET `Data` = ? WHERE `Name` = ?", {Val::B(data), Val::S(name)});
            if (m.st.count(name)) { if (!e) m.st[name] = data; return e; }
            return 0;
        }});
    };
    U("one", 600, 5); U("Binary.a", 4096, 6);
    auto D = [&](const char *n) {
        std::string name = n;
        v.push_back({fmt("_Streams delete %s", n), [=](Model &m, LibmsiDatabase *d) {
            int e = exec(d, "DELETE FROM `_Streams` WHERE `Name` = '" + name + "'");
            if (!e) {
                m.st.erase(name); m.maybe.erase(name);
            }
            return e;
        }});
    };
    D("one"); D("two");
    auto I = [&](const char *k, int len, int seed) {
        std::string key = k, data = bytes(len, seed);
        v.push_back({fmt("row insert %s %d", k, len), [=](Model &m, LibmsiDatabase *d) {
            int e = len ? exec(d, "INSERT INTO `Binary` (`Name`,`Data`) VALUES (?,?)", {Val::S(key), Val::B(data)}) : exec(d, "INSERT INTO `Binary` (`Name`) VALUES (?)", {Val::S(key)});
            if (m.rows.count(key)) return e ? 0 : 9;
            if (!e) { m.rows[key] = len; if (len) { m.st["Binary." + key] = data; m.maybe.erase("Binary." + key); } }
            return e;
        }});
    };
    I("a", small, 7); I("a", 0, 0); I("b", big, 8);
    auto R = [&](const char *k, int len, int seed) {
        std::string key = k, data = bytes(len, seed);
        v.push_back({fmt("row update %s %d", k, len), [=](Model &m, LibmsiDatabase *d) {
            int e = exec(d, "UPDATE `Binary` SET `Data` = ? WHERE `Name` = '" + key + "'", {Val::B(data)});
            if (!e && m.rows.count(key)) { m.rows[key] = true; m.st["Binary." + key] = data; m.maybe.erase("Binary." + key); }
            return e;
        }});
    };
    R("a", big, 9); R("b", 100, 10);
    for (const char *k : {"a", "b"}) {
        std::string key = k;
        v.push_back({fmt("row delete %s", k), [=](Model &m, LibmsiDatabase *d) {
            int e = exec(d, "DELETE FROM `Binary` WHERE `Name` = '" + key + "'");
            if (!e && m.rows.count(key)) { m.rows.erase(key); if (m.st.count("Binary." + key)) m.maybe.insert("Binary." + key); m.st.erase("Binary." + key); }
            return e;
        }});
    }
    auto G = [&](const char *n, int s) {
        std::string name = n;
        v.push_back({fmt("storage insert %s %d", n, s), [=](Model &m, LibmsiDatabase *d) {
            int e = exec(d, "INSERT INTO `_Storages` (`Name`,`Data`) VALUES (?,?)", {Val::S(name), Val::B(stgbytes(s))});
            if (!e) m.sto[name] = stgbytes(s);
            return e && m.sto.count(name) ? 0 : e;
        }});
    };
    G("one", 1); G("st", 2); G("st", 7);
    v.push_back({"storage delete st", [=](Model &m, LibmsiDatabase *d) {
        int e = exec(d, "DELETE FROM `_Storages` WHERE `Name` = 'st'");
        if (!e) m.sto.erase("st");
        return e;
    }});
    v.push_back({"storage update st", [=](Model &m, LibmsiDatabase *d) {
        int e = exec(d, "UPDATE `_Storages` SET `Data` = ? WHERE `Name` = 'st'", {Val::B(stgbytes(9))});
        if (m.sto.count("st")) { if (!e) m.sto["st"] = stgbytes(9); return e; }
        return 0;
    }});
    v.push_back({"storage insert of no storage", [=](Model &m, LibmsiDatabase *d) {
        int e = exec(d, "INSERT INTO `_Storages` (`Name`,`Data`) VALUES ('bad',?)", {Val::B("these bytes are no compound file")});
        return e ? 0 : 9;
    }});
    v.push_back({"commit", {}, 1});
    v.push_back({"commit and reopen", {}, 2});
    return v;
}
std::string canon(const Model &m) {
    std::string s;
    for (auto &x : m.st) s += x.first + fmt("%zu %llx;", x.second.size(), (unsigned long long)mc::hash64(x.second));
    for (auto &x : m.rows) s += x.first + (x.second ? "+" : "-");
    for (auto &x : m.sto) s += x.first + fmt("%llx", (unsigned long long)mc::hash64(x.second));
    return s;
}
// the column of a row that has no data but whose stream of old exists
void step(mc::Ctx &c, Db &db, const std::string &path, Model &m, const Op &o) {
    c.step(o.name);
    if (o.kind) {
        if (int e = commit(db)) c.fail("commit", fmt("commit fails %d", e));
        file_agrees(c, path, m, o.name);
        if (o.kind == 2) { db.reset(); db = open(path, LIBMSI_DB_FLAGS_TRANSACT); if (!db) c.fail("reopen", "cannot open"); }
    } else {
        // a row whose stream is deleted from under it, and a name used by both kinds, are left out
        Model before = m;
        int e = o.run(m, db);
        if (e) c.fail(o.name + " fails", o.name + fmt(" fails with %d", e));
    }
    compare(c, db, m, o.name);
    c.state(canon(m));
}
Db fresh(const std::string &path, bool utf8 = false) {
    Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
    if (utf8) { writefile(path + ".idt", "\r\n\r\n65001\t_ForceCodepage\r\n"); import_table(db, path + ".idt"); }
    exec(db, "CREATE TABLE `Binary` (`Name` CHAR(72) NOT NULL, `Data` OBJECT PRIMARY KEY `Name`)");
    return db;
}
// UTF-16 units of the stored name, by the format
int units(const std::string &n, bool *reserved, bool table = false) {
    int u = table;
    *reserved = false;
    auto enc = [](unsigned char ch) { return isalnum(ch) || ch == '.' || ch == '_'; };
    for (size_t i = 0; i < n.size();) {
        unsigned char ch = n[i];
        if (ch < 0x80) { if (enc(ch) && i + 1 < n.size() && enc(n[i + 1])) i++; i++; u++; continue; }
        int l = ch >= 0xf0 ? 4 : ch >= 0xe0 ? 3 : 2;
        if (l == 3) { int cp = (ch & 15) << 12 | (n[i + 1] & 63) << 6 | (n[i + 2] & 63); if (cp >= 0x3800 && cp <= 0x483f) *reserved = true; if (cp == 0x4840 && i == 0) *reserved = true; }
        u += l == 4 ? 2 : 1;
        i += l;
    }
    return u;
}
std::vector<std::string> names() {
    std::vector<std::string> v;
    for (int ch = 1; ch < 128; ch++) {
        std::string x(1, (char)ch);
        if (x == "/" ) continue;
        v.push_back(x); v.push_back("a" + x); v.push_back(x + "b"); v.push_back("a" + x + "c"); v.push_back(x + x + x);
    }
    for (const char *s : {"\xc2\x80", "\xc3\xa9", "\xdf\xbf", "\xe0\xa0\x80", "\xe3\x9f\xbf", "\xe3\xa0\x80", "\xe3\xa5\x8a", "\xe4\x80\x80", "\xe4\x9f\xbf", "\xe4\xa0\x80", "\xe4\xa0\xbf", "\xe4\xa1\x80", "\xe4\xa1\x81", "\xe6\xbc\xa2", "\xef\xbf\xbd", "\xf0\x9f\x98\x80"}) {
        v.push_back(s); v.push_back(std::string("a") + s); v.push_back(std::string("ab") + s); v.push_back(std::string(s) + "x"); v.push_back(std::string(s) + s);
    }
    for (int n = 1; n <= 70; n++) { v.push_back(std::string(n, 'q')); v.push_back(std::string(n, '-')); v.push_back(std::string("-") + std::string(n, 'r')); std::string w; for (int k = 0; k < n; k++) w += "\xc3\xa9"; v.push_back(w); }
    for (const char *s : {"_Tables", "_StringPool", "Property", "Binary", "\5Something.x", "\5DigitalSignature", "a.b", "a..b", ".", "_", "__", "0", "00", "Z_", "z."}) v.push_back(s);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C10";
    chk.technique = "bounded-exhaustive exploration of stream and storage histories on the real library against a model of names and bytes; the file is also read by an independent reader";
    chk.rule = "after every step all streams (listed and by name), the binary column and all storages are compared byte for byte with the model; a name is stored as itself or refused; non-trivial: something is stored";
    static auto ab = alphabet();
    static auto nm = names();
    int d = thorough ? 4 : 3;
    mc::Words w{ab.size(), d, d};
    chk.bounds = fmt("%zu steps, depth %d from empty and filled; every stream length 1..1100 and around multiples of 512, 4096 and 65536; %zu names, all pairs of a subset; storages", ab.size(), d, nm.size());
    chk.setup = [](bool) { for (int v : {1, 2, 7, 9}) stgbytes(v); storage_bytes(); };
    for (int filled = 0; filled < 2; filled++)
        chk.spaces.push_back({filled ? "histories-filled" : "histories", filled ? "every sequence of steps from a committed database with rows, streams and storages" : "every sequence of steps from an empty database", w.count(), [w, filled](mc::Ctx &c, uint64_t i) {
            std::string path = c.scratch + "/d.msi";
            Db db = fresh(path);
            Model m;
            auto word = w.at(i);
            bool dangling = false;
            auto go = [&](const Op &o) {
                // deleting the stream of a row from _Streams leaves the row dangling: not in the model
                step(c, db, path, m, o);
            };
            (void)dangling;
            if (filled) for (const char *n : {"_Streams insert one 5000", "row insert a 30", "row insert b 5000", "storage insert st 2", "commit and reopen"})
                for (auto &o : ab) if (o.name == n) go(o);
            for (int x : word) go(ab[x]);
            go(ab.back());
            if (!m.st.empty() || !m.sto.empty()) c.nontrivial();
        }});
    // lengths
    static std::vector<int> lens;
    for (int n = 1; n <= 1100; n++) lens.push_back(n);
    for (int n : {1536, 2048, 4096, 4608, 8192, 65536, 131072, 1 << 20}) for (int k = -2; k <= 2; k++) lens.push_back(n + k);
    if (thorough) for (int n = 1101; n < 9000; n++) lens.push_back(n);
    chk.spaces.push_back({"lengths", "every stream length up to 1100 (thorough: 9000) and around larger boundaries, through both tables, in parts", lens.size(), [](mc::Ctx &c, uint64_t i) {
        int n = lens[i];
        std::string path = c.scratch + "/l.msi", b = bytes(n, 3);
        Db db = fresh(path);
        Model m;
        if (exec(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('one',?)", {Val::B(b)})) c.fail("length", fmt("%d refused", n));
        if (exec(db, "INSERT INTO `Binary` (`Name`,`Data`) VALUES ('a',?)", {Val::B(b)})) c.fail("length", fmt("%d refused", n));
        m.st["one"] = m.st["Binary.a"] = b;
        m.rows["a"] = true;
        compare(c, db, m, fmt("storing %d bytes", n));
        step(c, db, path, m, ab.back());
        // read in pieces of every small size
        GError *e = nullptr;
        Query q(libmsi_query_new(db, "SELECT `Data` FROM `Binary`", &e));
        libmsi_query_execute(q, nullptr, nullptr);
        Rec r(libmsi_query_fetch(q, nullptr));
        for (int piece : {1, 7, 511, 4096}) {
            if (piece == 1 && n > 5000) continue;
            GInputStream *in = r ? libmsi_record_get_stream(r, 1) : nullptr;
            if (!in) c.fail("stream", fmt("no stream for %d bytes", n));
            std::string got, buf(piece, 0);
            for (gssize k; (k = g_input_stream_read(in, &buf[0], piece, nullptr, nullptr)) > 0;) got.append(buf, 0, k);
            // seek back and to the middle
            if (G_IS_SEEKABLE(in) && g_seekable_can_seek(G_SEEKABLE(in))) {
                if (!g_seekable_seek(G_SEEKABLE(in), n / 2, G_SEEK_SET, nullptr, nullptr)) c.fail("seek", fmt("to %d of %d", n / 2, n));
                std::string tail = slurp(in).value_or("<error>");
                if (tail != b.substr(n / 2)) c.fail("seek", fmt("after seeking to %d of %d: %zu bytes", n / 2, n, tail.size()));
                if (!g_seekable_seek(G_SEEKABLE(in), -1, G_SEEK_END, nullptr, nullptr) || slurp(in).value_or("") != b.substr(n - 1)) c.fail("seek-end", fmt("%d bytes", n));
            }
            g_object_unref(in);
            if (got != b) c.fail("pieces", fmt("%d bytes read in pieces of %d: %zu", n, piece, got.size()));
        }
        c.nontrivial();
    }});
    chk.spaces.push_back({"names", "every name: stored as itself or refused, as stream, as key of a binary row, as table and as storage", nm.size(), [](mc::Ctx &c, uint64_t i) {
        const std::string &n = nm[i];
        std::string path = c.scratch + "/n.msi";
        Db db = fresh(path, true);
        Model m;
        exec(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('one',?)", {Val::B("first")});
        bool res, rest;
        int u = units(n, &res);
        bool ok = !res && u <= 31;
        Snap before = snap(db);
        int e = exec(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", {Val::S(n), Val::B("stream " + n)});
        c.step(fmt("stream of %zu bytes, %d units -> %d", n.size(), u, e));
        if (ok != !e) c.fail(ok ? "name refused" : "name accepted", fmt("stream name '%s', %d units, reserved %d: %d", n.c_str(), u, res, e));
        if (e && !(snap(db) == before)) c.fail("refused name changed", n);
        int ue = units("Binary." + n, &res);
        bool okb = !res && ue <= 31 && n.size() <= 72;
        int eb = exec(db, "INSERT INTO `Binary` (`Name`,`Data`) VALUES (?,?)", {Val::S(n), Val::B("row " + n)});
        if (n.size() <= 72 && okb != !eb) c.fail(okb ? "key refused" : "key accepted", fmt("key '%s', %d units: %d", n.c_str(), ue, eb));
        int ut = units(n, &rest, true);
        bool okt = !rest && ut <= 31 && n.size() < 62 && n.find('`') == std::string::npos;
        int et = 1;
        if (n.find('`') == std::string::npos && n[0] != '_' && n != "Binary") {
            et = exec(db, "CREATE TABLE `" + n + "` (`K` SHORT NOT NULL PRIMARY KEY `K`)");
            if (!et) exec(db, "INSERT INTO `" + n + "` (`K`) VALUES (5)");
            if (rest || ut > 31) { if (!et) c.fail("table name accepted", n); }
            else if (n.size() <= 31 && et && isalnum((unsigned char)n[0])) c.fail("table name refused", n);
        }
        bool oks = units(n, &res) && true;
        (void)oks; (void)okt;
        Snap s = snap(db);
        if (!e && s.streams[n] != "stream " + n) c.fail("listed", n);
        if (s.streams["one"] != (n == "one" ? "stream one" : "first")) c.fail("other stream changed", n);
        if (!eb && s.streams["Binary." + n] != "row " + n) c.fail("row stream", n);
        int k = commit(db);
        if (k) c.fail("commit", n + fmt(": commit fails %d", k));
        db.reset();
        db = open(path, LIBMSI_DB_FLAGS_READONLY);
        Snap t = snap(db);
        if (!(t == s)) c.fail("not kept", fmt("name '%s'\n", n.c_str()) + diff(s, t));
        c.nontrivial();
        c.state(n);
    }});
    chk.spaces.push_back({"storage-names", "every name as storage next to a stream of the same name", nm.size(), [](mc::Ctx &c, uint64_t i) {
        const std::string &n = nm[i];
        std::string path = c.scratch + "/n.msi";
        Db db = fresh(path, true);
        int es = exec(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", {Val::S(n), Val::B("stream " + n)});
        int eg = exec(db, "INSERT INTO `_Storages` (`Name`,`Data`) VALUES (?,?)", {Val::S(n), Val::B(storage_bytes())});
        int en = exec(db, "INSERT INTO `_Storages` (`Name`,`Data`) VALUES ('st',?)", {Val::B(storage_bytes())});
        if (en && n != "st") c.fail("storage st", fmt("%d", en));
        c.step(fmt("'%s': stream %d storage %d", n.c_str(), es, eg));
        Snap s = snap(db);
        if (!es && s.streams[n] != "stream " + n) c.fail("stream lost", n);
        if (eg == 0 && !std::count(s.storages.begin(), s.storages.end(), n)) c.fail("storage lost", n);
        if (int k = commit(db)) c.fail("commit", n + fmt(": %d", k));
        db.reset();
        db = open(path, LIBMSI_DB_FLAGS_READONLY);
        Snap t = snap(db);
        if (!(t == s)) c.fail("not kept", n + "\n" + diff(s, t));
        c.nontrivial();
        c.state(n);
    }});
    static std::vector<std::string> some;
    for (auto &n : nm) { bool r; int u = units(n, &r); if ((n.size() <= 2 && (isalnum((unsigned char)n[0]) ? n[0] < 'C' || n[0] == 'z' : n[0] < '0')) || (unsigned char)n[0] >= 0xe3 || u >= 30) some.push_back(n); }
    chk.spaces.push_back({"pairs", "every ordered pair of a subset of names: two streams never share their bytes", some.size(), [](mc::Ctx &c, uint64_t i) {
        std::string path = c.scratch + "/p.msi";
        const std::string &a = some[i];
        Db db = fresh(path);
        std::map<std::string, std::string> m;
        auto put = [&](const std::string &n, const std::string &v) { if (!exec(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", {Val::S(n), Val::B(v)})) m[n] = v; };
        auto same = [&](const std::string &w) {
            Res q = query(db, "SELECT `Name`,`Data` FROM `_Streams`");
            std::map<std::string, std::string> got;
            for (auto &r : q.rows) { if (got.count(r[0].s)) c.fail("twice", r[0].s); got[r[0].s] = r[1].s; }
            if (got != m) { std::string o; for (auto &x : m) if (got[x.first] != x.second) o += x.first + " "; c.fail("shared", w + " " + a + ": " + o); }
        };
        for (auto &b : some) put(b, "of " + b);
        same("after storing all");
        put(a, "replaced");
        same("after replacing");
        if (m.count(a)) { exec(db, "DELETE FROM `_Streams` WHERE `Name` = ?", {Val::S(a)}); m.erase(a); }
        same("after deleting");
        if (commit(db)) c.fail("commit", a);
        db.reset();
        db = open(path, LIBMSI_DB_FLAGS_TRANSACT);
        same("after reopening");
        put(a, "back");
        same("after storing again");
        c.nontrivial();
        c.state(a);
    }});
    // the stream of a row is named after the values of its keys
    struct Key { std::string type; std::vector<Val> values; };
    static const std::vector<Key> kinds = {
        {"SHORT", {Val::I(0), Val::I(1), Val::I(-1), Val::I(7), Val::I(-7), Val::I(10), Val::I(32767), Val::I(-32767)}},
        {"LONG", {Val::I(0), Val::I(1), Val::I(-1), Val::I(-7), Val::I(65536), Val::I(-65536), Val::I(2147483647), Val::I(-2147483647)}},
        {"CHAR(20)", {Val::S("a"), Val::S("A"), Val::S("1"), Val::S("-1"), Val::S("a b"), Val::S("\xc3\xa4"), Val::S("_"), Val::S("long.dotted.key")}}};
    static const std::vector<std::vector<int>> shapes = {{0}, {1}, {2}, {0, 0}, {0, 1}, {0, 2}, {1, 1}, {2, 0}, {2, 1}, {2, 2}, {1, 0, 2}, {2, 0, 1}};
    // the data column stands at every place among the keys
    static std::vector<std::pair<int, int>> rowkeys;
    for (size_t k = 0; k < shapes.size(); k++) rowkeys.push_back({(int)k, 0}), rowkeys.push_back({(int)k, 1});
    chk.spaces.push_back({"row-keys", "tables with every kind of primary key: each row's stream is named after its keys and holds its bytes", rowkeys.size(), [](mc::Ctx &c, uint64_t i) {
        std::string path = c.scratch + "/k.msi";
        const auto &sh = shapes[rowkeys[i].first];
        bool first = rowkeys[i].second; // whether a plain column stands between the keys and the data
        std::string cols, keys, names;
        for (size_t k = 0; k < sh.size(); k++) {
            cols += fmt("`K%zu` %s NOT NULL, ", k, kinds[sh[k]].type.c_str());
            keys += fmt("%s`K%zu`", k ? "," : "", k);
            names += fmt("`K%zu`,", k);
        }
        if (first) cols += "`Note` CHAR(20), ";
        c.step(cols);
        Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
        if (exec(db, "CREATE TABLE `T` (" + cols + "`Data` OBJECT PRIMARY KEY " + keys + ")")) c.fail("create", cols);
        std::map<std::string, std::string> want;
        std::map<std::string, std::string> where;
        Rows rows;
        std::vector<std::vector<Val>> tuples = {{}};
        for (int k : sh) {
            std::vector<std::vector<Val>> next;
            for (auto &t : tuples) for (size_t v = 0; v < (sh.size() > 2 ? 4 : 8); v++) { auto n = t; n.push_back(kinds[k].values[v]); next.push_back(n); }
            tuples = next;
        }
        for (auto &t : tuples) {
            std::string name = "T";
            for (auto &v : t) name += "." + (v.k == Val::INT ? std::to_string(v.i) : v.s);
            if (want.count(name)) continue; // two rows of one name share their stream, which the format cannot help
            std::string data = bytes(20 + (int)want.size(), (int)want.size()) + name;
            auto p = t;
            p.push_back(Val::B(data));
            std::string marks;
            for (size_t k = 0; k < p.size(); k++) marks += k ? ",?" : "?";
            if (int e = exec(db, "INSERT INTO `T` (" + names + "`Data`) VALUES (" + marks + ")", p)) {
                bool r; int u = units(name, &r);
                if (u > 31) continue;
                c.fail("row refused", fmt("%s: %d", name.c_str(), e));
            }
            want[name] = data;
            rows.push_back(p);
        }
        rows = sorted(rows);
        auto check = [&](const std::string &w) {
            Res q = query(db, "SELECT `Name`,`Data` FROM `_Streams`");
            std::map<std::string, std::string> got;
            for (auto &r : q.rows) if (!got.emplace(r[0].s, r[1].s).second) c.fail("two streams of a name", w + " " + r[0].s);
            for (auto &x : want) if (!got.count(x.first)) c.fail("no stream of the name", w + " " + x.first);
            if (got != want) c.fail("streams of rows", fmt("%s: %zu streams, expected %zu", w.c_str(), got.size(), want.size()));
            Res t = query(db, "SELECT " + names + "`Data` FROM `T`");
            if (!t.ok() || sorted(t.rows) != rows) c.fail("rows", w + " " + show(t.rows));
        };
        check("stored");
        if (commit(db)) c.fail("commit", cols);
        check("committed");
        db.reset();
        db = open(path, LIBMSI_DB_FLAGS_TRANSACT);
        check("reopened");
        // replacing the data of one row leaves that of the others
        for (size_t k = 0; k < rows.size(); k += 1 + rows.size() / 8) {
            std::string cond, name = "T";
            std::vector<Val> p = {Val::B("new data " + std::to_string(k))};
            for (size_t n = 0; n < sh.size(); n++) { cond += fmt("%s`K%zu` = ?", n ? " AND " : "", n); p.push_back(rows[k][n]); name += "." + (rows[k][n].k == Val::INT ? std::to_string(rows[k][n].i) : rows[k][n].s); }
            if (exec(db, "UPDATE `T` SET `Data` = ? WHERE " + cond, p)) c.fail("update", name);
            want[name] = p[0].s;
            rows[k].back() = p[0];
            check("updated " + name);
        }
        c.nontrivial();
        c.state(cols);
    }});
    return mc::run(chk, argc, argv);
}
