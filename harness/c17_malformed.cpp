// C17: no malformed database file can corrupt memory or hang the reader.
#include "exercise.hpp"
#include "msiwrite.hpp"
using namespace msiwrite;

namespace {
constexpr int SHORT = 0x502, LONG = 0x104, NULLABLE = 0x1000, KEY = 0x2000;
constexpr int CHARN(int n) { return 0xd00 | n; }
Database small() {
    Database d;
    d.tables["T"].cols = {{"K", CHARN(20) | KEY}, {"N", SHORT | NULLABLE}, {"L", LONG | NULLABLE}, {"S", 0xd00 | NULLABLE}, {"D", 0x900 | NULLABLE}};
    d.row("T", {Val::S("alpha"), Val::I(1), Val::I(-70000), Val::S("one"), Val::B("object of alpha")});
    d.row("T", {Val::S("beta"), Val::N(), Val::N(), Val::N(), Val::N()});
    d.row("T", {Val::S("gamma"), Val::I(-5), Val::I(5), Val::S("d\xc3\xa9j\xc3\xa0"), Val::N()});
    d.tables["U"].cols = {{"P", CHARN(30) | KEY}, {"Q", SHORT | NULLABLE}};
    d.row("U", {Val::S("alpha"), Val::I(1)});
    d.row("U", {Val::S("zz"), Val::I(2)});
    d.streams["plain"] = "plain stream";
    return d;
}
std::string summary_bytes() {
    std::string s("\xe0\x85\x9f\xf2\xf9\x4f\x68\x10\xab\x91\x08\x00\x2b\x27\xb3\xd9", 16), d, body, vals;
    put16(d, 0xfffe); put16(d, 0); put32(d, 0x20005); d += std::string(16, '\0'); put32(d, 1); d += s; put32(d, 48);
    struct P { int id, type; } ps[] = {{1, 2}, {2, 30}, {12, 64}, {14, 3}, {19, 3}};
    for (auto &p : ps) {
        put32(body, p.id); put32(body, 8 + 8 * 5 + vals.size());
        put32(vals, p.type);
        if (p.type == 2) put32(vals, 1252);
        else if (p.type == 3) put32(vals, 200);
        else if (p.type == 64) { put32(vals, 0x12345678); put32(vals, 0x01d00000); }
        else { put32(vals, 6); vals += std::string("title\0\0\0", 8); }
    }
    std::string sec;
    put32(sec, 8 + body.size() + vals.size()); put32(sec, 5);
    return d + sec + body + vals;
}
Cfb parts(int width = 2, int cp = 1252) {
    Cfb c;
    package(small(), width, cp, &c);
    c.raw("\5SummaryInformation", summary_bytes());
    Cfb in;
    in.streams.push_back({encoded("inner", false), "inner stream"});
    c.storages.push_back({encoded("sub", false), in.streams});
    return c;
}
std::string entry_name(const Cfb::Entry &e) {
    for (auto n : {"_Tables", "_Columns", "_StringPool", "_StringData", "T", "U"}) if (e.name == encoded(n, true)) return n;
    return e.name[0] == 5 ? "SummaryInformation" : e.name == encoded("plain", false) ? "plain" : "object";
}
// which tables must read as ever
void intact(mc::Ctx &c, LibmsiDatabase *db, const char *table) {
    static const Snap w = snap_of(small());
    Res q = query(db, std::string("SELECT * FROM `") + table + "`");
    auto &t = w.tables.at(table);
    if (!q.ok() || sorted(q.rows) != t.rows || q.names != t.names || q.types != t.types) c.fail("undamaged-table", fmt("table %s reads ", table) + show(q.rows) + fmt(" %d", q.err));
}
// damaged: the stream that is, or ""
void run(mc::Ctx &c, const std::string &bytes, const std::string &damaged, bool change) {
    std::string p = c.scratch + "/m.msi";
    clean(c.scratch);
    writefile(p, bytes);
    {
        Db db = open(p, LIBMSI_DB_FLAGS_READONLY);
        c.count(0);
        if (db) {
            c.count(1);
            c.nontrivial();
            read_all(c, db);
            if (damaged == "T" || damaged == "object" || damaged == "plain" || damaged == "SummaryInformation") intact(c, db, "U");
            if (damaged == "U" || damaged == "plain" || damaged == "SummaryInformation") intact(c, db, "T");
        } else if (damaged == "T" || damaged == "U" || damaged == "object" || damaged == "plain" || damaged == "SummaryInformation") c.fail("unopened", "damage in " + damaged + " keeps the database from opening");
        unlink((c.scratch + "/x.idt").c_str());
    }
    if (readfile(p) != bytes) c.fail("modified", "reading changed the file");
    if (!change) return;
    Db db = open(p, LIBMSI_DB_FLAGS_TRANSACT);
    if (!db) return;
    change_all(db, c.scratch);
    if (damaged == "T" || damaged == "object") {
        Res q = query(db, "SELECT `P` FROM `U`");
        if (!q.ok() || q.rows.size() != 2) c.fail("undamaged-change", "U is " + show(q.rows));
    }
    bool ok = !commit(db);
    read_all(c, db, false);
    db.reset();
    if (ok) {
        Db r = open(p, LIBMSI_DB_FLAGS_READONLY);
        if (!r) c.fail("committed", "a committed database does not open");
        read_all(c, r, false);
        Res q = query(r, "SELECT * FROM `New`");
        if (!q.ok() || q.rows.size() != 1) { if (damaged == "T" || damaged == "U" || damaged == "SummaryInformation") c.fail("lost", "the new table is " + show(q.rows) + fmt(" %d", q.err)); }
    }
}
struct Cell { size_t entry, off; };
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C17";
    chk.technique = "bounded-exhaustive fault enumeration: every listed damage of a package, from an independent writer, opened, read and changed by the real library under memory checkers";
    chk.rule = "no crash, no memory error, no call beyond the time limit, tables that are not damaged read exactly, reading never changes the file; non-trivial: the file opens";
    static const Cfb base = parts();
    static const Cfb base3 = parts(3, 65001);
    static std::vector<Cell> cells;
    for (size_t e = 0; e < base.streams.size(); e++) {
        std::string n = entry_name(base.streams[e]);
        if (n == "plain" || n == "object") continue;
        for (size_t o = 0; o < base.streams[e].data.size(); o++) cells.push_back({e, o});
    }
    static std::vector<int> vals;
    if (thorough) for (int v = 0; v < 256; v++) vals.push_back(v);
    else vals = {0, 1, 2, 4, 5, 0x20, 0x7f, 0x80, 0x81, 0xfe, 0xff, -1, -2, -3, -4};     // negative: relative to what is there
    auto with = [](int v, unsigned char old) { return v >= 0 ? (char)v : v == -1 ? (char)(old + 1) : v == -2 ? (char)(old - 1) : v == -3 ? (char)(old ^ 0x80) : (char)(old ^ 0x10); };
    static auto W = with;
    chk.bounds = fmt("a package of %zu streams: every byte of the system, table and summary streams x %zu values; every length of each; pairs of 16-bit words; every subset of streams; stream names; every byte of header, sector table and directory x %zu values; every truncation", base.streams.size(), vals.size(), vals.size());
    chk.spaces.push_back({"bytes", "every byte of every structured stream x value", cells.size() * vals.size(), [](mc::Ctx &c, uint64_t i) {
        auto &k = cells[i / vals.size()];
        Cfb x = base;
        std::string &d = x.streams[k.entry].data;
        char v = W(vals[i % vals.size()], d[k.off]);
        if (v == d[k.off]) return;
        std::string n = entry_name(x.streams[k.entry]);
        c.step(fmt("%s byte %zu is %02x for %02x", n.c_str(), k.off, (unsigned char)v, (unsigned char)d[k.off]));
        d[k.off] = v;
        run(c, x.bytes(), n, true);
    }});
    static std::vector<Cell> lens;
    for (size_t e = 0; e < base.streams.size(); e++) for (size_t o = 0; o < base.streams[e].data.size() + 40; o++) lens.push_back({e, o});
    chk.spaces.push_back({"lengths", "every length of every stream, and with ids of three bytes", lens.size() * 2, [](mc::Ctx &c, uint64_t i) {
        auto &k = lens[i / 2];
        Cfb x = i % 2 ? base3 : base;
        if (k.entry >= x.streams.size()) return;
        std::string &d = x.streams[k.entry].data;
        std::string n = entry_name(x.streams[k.entry]);
        c.step(fmt("%s of %zu bytes for %zu", n.c_str(), k.off, d.size()));
        size_t was = d.size();
        if (n == "plain") n = "";
        while (d.size() < k.off) d += (char)(d.size() * 7);
        d.resize(k.off);
        run(c, x.bytes(), k.off == was ? "" : n, true);
    }});
    // two words at once
    static std::vector<Cell> words;
    for (size_t e = 0; e < base.streams.size(); e++) {
        std::string n = entry_name(base.streams[e]);
        if (n == "_Tables" || n == "_Columns" || n == "T" || n == "U") for (size_t o = 0; o + 1 < base.streams[e].data.size(); o += 2) words.push_back({e, o});
        if (n == "_StringPool") for (size_t o = 0; o + 1 < std::min<size_t>(base.streams[e].data.size(), thorough ? 60 : 20); o += 2) words.push_back({e, o});
    }
    static const std::vector<int> wv = thorough ? std::vector<int>{0, 1, 2, 0x7fff, 0x8000, 0x8001, 0x8005, 0xffff, 0x8502, 0x8d00} : std::vector<int>{0, 1, 0x8001, 0xffff};
    uint64_t nw = words.size(), nv = wv.size();
    chk.spaces.push_back({"words", "every pair of 16-bit words of the system and table streams x pair of values", nw * nw * nv * nv, [nw, nv](mc::Ctx &c, uint64_t i) {
        size_t a = i / nv / nv % nw, b = i / nv / nv / nw;
        if (b <= a) return;
        if (!c.thorough && (a * 31 + b * 17 + i) % 3 && words[a].entry == words[b].entry && b - a > 8) return;
        Cfb x = base;
        for (int n = 0; n < 2; n++) {
            auto &k = words[n ? b : a];
            std::string &d = x.streams[k.entry].data;
            int v = wv[n ? i % nv : i / nv % nv];
            c.step(fmt("%s word at %zu is %04x", entry_name(x.streams[k.entry]).c_str(), k.off, v));
            d[k.off] = (char)v;
            d[k.off + 1] = (char)(v >> 8);
        }
        run(c, x.bytes(), "", i % 4 == 0);
    }});
    chk.spaces.push_back({"missing", "every subset of the streams missing, empty or doubled", 3ull << base.streams.size(), [](mc::Ctx &c, uint64_t i) {
        Cfb x = base, y;
        uint64_t set = i / 3;
        y.clsid = x.clsid;
        for (size_t e = 0; e < x.streams.size(); e++) {
            if (!(set >> e & 1)) { y.streams.push_back(x.streams[e]); continue; }
            c.step(entry_name(x.streams[e]) + (i % 3 == 0 ? " missing" : i % 3 == 1 ? " empty" : " twice"));
            if (i % 3 == 1) y.streams.push_back({x.streams[e].name, ""});
            if (i % 3 == 2) { y.streams.push_back(x.streams[e]); y.streams.push_back({x.streams[e].name, "other"}); }
        }
        run(c, y.bytes(), "", true);
    }});
    // stray streams under every kind of name
    static const std::vector<char16_t> nch = {0x3800, 0x47ff, 0x4800, 0x483f, 0x4840, 0x4841, u'A', u'.', 1, 5, 0xd800, 0xdc00, 0xffff, 0x00e9, 0x4e00, u'/', u'\'', u'`'};
    static mc::Words nm{nch.size(), 0, thorough ? 3u : 2u};
    chk.spaces.push_back({"names", "a stray stream or storage under every name of up to two or three special characters, and long names", (nm.count() + 64) * 2, [](mc::Ctx &c, uint64_t i) {
        Cfb x = base;
        std::u16string n;
        if (i / 2 < nm.count()) for (int k : nm.at(i / 2)) n += nch[k];
        else { uint64_t k = i / 2 - nm.count(); for (uint64_t j = 0; j < k % 32; j++) n += k < 32 ? (char16_t)0x3800 : (char16_t)0xe9; }
        std::string s;
        for (auto ch : n) s += fmt("%04x ", ch);
        c.step((i % 2 ? "storage " : "stream ") + s);
        if (i % 2) x.storages.push_back({n, {{n, "x"}}});
        else x.streams.push_back({n, "stray"});
        run(c, x.bytes(), "", true);
    }});
    // column definitions
    static const std::vector<int> types = {0, 1, 2, 4, 0xff, 0x100, 0x102, 0x104, 0x502, 0x503, 0x800, 0x900, 0x901, 0xd00, 0xdff, 0x1900, 0x2900, 0x2102, 0x2104, 0x2d48, 0x3d00, 0x7fff, 0x8000, 0xffff, 0x1d00, 0x0f00};
    chk.spaces.push_back({"types", "every pair of stored column types of T x column numbers", types.size() * types.size() * 6, [](mc::Ctx &c, uint64_t i) {
        uint64_t nt = types.size();
        Database d = small();
        d.tables["T"].cols[i % 5 % 2 ? 1 : 0].type = types[i / 6 % nt];
        d.tables["T"].cols[4].type = types[i / 6 / nt];
        Cfb x = base;
        // overwrite the types in _Columns, where they are the last quarter
        int num = i % 6;
        for (auto &e : x.streams) if (entry_name(e) == "_Columns") {
            size_t n = e.data.size() / 8;
            auto set = [&](size_t col, size_t row, int v) { e.data[(col * n + row) * 2] = (char)v; e.data[(col * n + row) * 2 + 1] = (char)(v >> 8); };
            set(3, num % 2, (types[i / 6 % nt] + 0x8000) & 0xffff);
            set(3, 4, (types[i / 6 / nt] + 0x8000) & 0xffff);
            if (num == 2) set(1, 1, 0x8001);
            if (num == 3) set(1, 4, 0x8000 + 40);
            if (num == 4) set(1, 0, 0x8000);
            if (num == 5) set(1, 2, 0x7fff);
        }
        c.step(fmt("types %x and %x, numbers %d", types[i / 6 % nt], types[i / 6 / nt], num));
        run(c, x.bytes(), "", true);
    }});
    chk.spaces.push_back({"many-columns", "tables of up to 300 columns, with any number of rows in the stream", 300 * 3, [](mc::Ctx &c, uint64_t i) {
        Cfb x;
        Database d = small();
        for (uint64_t j = 0; j <= i / 3; j++) d.tables["Wide"].cols.push_back({fmt("C%d", (int)j), j % 3 == 0 ? SHORT | (j ? NULLABLE : KEY) : j % 3 == 1 ? CHARN(10) | NULLABLE : LONG | NULLABLE});
        package(d, i % 3 == 2 ? 3 : 2, 1252, &x);
        x.add("Wide", std::string(i % 3 == 0 ? 10 : i % 3 == 1 ? 5000 : 77, '\x81'), true);
        c.step(fmt("%d columns", (int)i / 3 + 1));
        run(c, x.bytes(), "", true);
    }});
    // the property set
    static const std::vector<uint32_t> sv = {0, 1, 2, 3, 8, 0x1e, 0x1f, 0x40, 0x41, 48, 100, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff};
    static const uint32_t ssz = summary_bytes().size() / 4;
    chk.spaces.push_back({"summary", "every pair of 32-bit words of the property set x values", ssz * ssz * (thorough ? sv.size() * sv.size() : sv.size() * 2), [](mc::Ctx &c, uint64_t i) {
        uint64_t n = sv.size();
        uint32_t va = sv[i % n], vb = c.thorough ? sv[i / n % n] : i / n % 2 ? 0xffffffff : va;
        uint64_t k = i / n / (c.thorough ? n : 2);
        size_t a = k % ssz, b = k / ssz;
        if (b < a || (b != a && !c.thorough && a < 6)) return;
        Cfb x = base;
        for (auto &e : x.streams) if (e.name[0] == 5) { set32(e.data, a * 4, va); if (b != a) set32(e.data, b * 4, vb); }
        c.step(fmt("words %zu %zu of the property set are %x %x", a, b, va, vb));
        run(c, x.bytes(), "SummaryInformation", a == b);
    }});
    // the compound file itself: header, sector tables and directory
    static const std::string file = base.bytes();
    static const std::vector<size_t> meta = [] {
        std::vector<size_t> v;
        auto u32 = [&](size_t o) { uint32_t x; memcpy(&x, &file[o], 4); return x; };
        for (size_t o = 0; o < 96; o++) v.push_back(o);
        uint32_t fat = u32(76), dir = u32(48), mf = u32(60);
        for (size_t o = 0; o < 4 * (file.size() / 512); o++) v.push_back(512 * (fat + 1) + o);
        for (uint32_t s = dir, g = 0; s < 0xfffffff0 && g < 20; g++, s = u32(512 * (fat + 1) + 4 * s)) for (size_t o = 0; o < 512; o++) if (o % 128 < 80 || o % 128 >= 114) v.push_back(512 * (s + 1) + o);
        for (size_t o = 0; o < 80; o++) v.push_back(512 * (mf + 1) + o);
        return v;
    }();
    chk.spaces.push_back({"container", "every byte of the compound file's header, sector tables and directory x value", meta.size() * vals.size(), [](mc::Ctx &c, uint64_t i) {
        std::string b = file;
        size_t o = meta[i / vals.size()];
        if (o >= b.size()) return;
        b[o] = W(vals[i % vals.size()], b[o]);
        if (b == file) return;
        c.step(fmt("file byte %zu is %02x for %02x", o, (unsigned char)b[o], (unsigned char)file[o]));
        run(c, b, "", i % 4 == 0);
    }});
    chk.spaces.push_back({"truncated", "every length of the file", file.size() / (thorough ? 1 : 4), [](mc::Ctx &c, uint64_t i) {
        std::string b = file;
        b.resize(c.thorough ? i : i * 4 + i % 4);
        c.step(fmt("%zu bytes", b.size()));
        run(c, b, "", i % 4 == 0);
    }});
    return mc::run(chk, argc, argv);
}
