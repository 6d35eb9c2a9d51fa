// An independent reader of Windows Installer databases: works on the bytes of the
// file alone (compound file, string pool, table streams, property set) and shares
// no code with libmsi or libgsf.
#pragma once
#include "content.hpp"
#include <iconv.h>

namespace msiread {
using namespace content;
struct Err { std::string what; };
struct Rd {
    const std::string &b;
    uint64_t u(uint64_t o, int n) const {
        if (o + n > b.size()) throw Err{fmt("read of %d bytes at %llu beyond %zu", n, (unsigned long long)o, b.size())};
        uint64_t v = 0;
        for (int i = n; i--;) v = v << 8 | (unsigned char)b[o + i];
        return v;
    }
};

// ---- compound file ----------------------------------------------------------------
struct Entry { std::string name; std::u16string raw; int type = 0; uint32_t left, right, child; std::string data; std::string clsid; };
struct Cfb {
    std::vector<Entry> all;
    std::map<std::u16string, std::string> streams;      // of the root
    std::vector<std::u16string> storages;
    std::map<std::u16string, std::vector<std::pair<std::u16string, std::string>>> sub;   // storage -> its streams
    std::string clsid;
};
inline Cfb cfb(const std::string &b) {
    Rd r{b};
    if (b.size() < 512 || b.compare(0, 8, "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", 8)) throw Err{"no compound file"};
    int ss = 1 << r.u(30, 2), ms = 1 << r.u(32, 2);
    uint32_t nfat = r.u(44, 4), dir = r.u(48, 4), cutoff = r.u(56, 4), mini = r.u(60, 4), difat = r.u(68, 4);
    auto sector = [&](uint32_t s) {
        uint64_t o = ((uint64_t)s + 1) * ss;
        if (o >= b.size()) throw Err{fmt("sector %u outside the file", s)};
        std::string x = b.substr(o, ss);
        x.resize(ss);       // the last sector may be short
        return x;
    };
    std::vector<uint32_t> fat;
    std::vector<uint32_t> fs;
    for (int i = 0; i < 109; i++) { uint32_t s = r.u(76 + 4 * i, 4); if (s < 0xfffffffa) fs.push_back(s); }
    for (int guard = 0; difat < 0xfffffffa; guard++) {
        if (guard > 100000) throw Err{"endless DIFAT"};
        std::string d = sector(difat);
        Rd q{d};
        for (int i = 0; i < ss / 4 - 1; i++) { uint32_t s = q.u(4 * i, 4); if (s < 0xfffffffa) fs.push_back(s); }
        difat = q.u(ss - 4, 4);
    }
    if (fs.size() != nfat) throw Err{fmt("%zu FAT sectors listed, header says %u", fs.size(), nfat)};
    for (auto s : fs) { std::string d = sector(s); Rd q{d}; for (int i = 0; i < ss / 4; i++) fat.push_back(q.u(4 * i, 4)); }
    std::set<uint32_t> used;
    auto chain = [&](uint32_t s, uint64_t size, bool sized) {
        std::string x;
        while (s < 0xfffffffa) {
            if (s >= fat.size()) throw Err{"chain leaves the FAT"};
            if (!used.insert(s).second) throw Err{fmt("sector %u belongs to two chains", s)};
            x += sector(s);
            s = fat[s];
        }
        if (sized) { if (x.size() < size) throw Err{fmt("a stream of %llu bytes has only %zu", (unsigned long long)size, x.size())}; x.resize(size); }
        return x;
    };
    std::string d = chain(dir, 0, false), mf = chain(mini, 0, false);
    std::vector<uint32_t> mfat;
    { Rd q{mf}; for (size_t i = 0; i + 4 <= mf.size(); i += 4) mfat.push_back(q.u(i, 4)); }
    Rd q{d};
    Cfb c;
    std::string ministream;
    std::set<uint32_t> mused;
    for (size_t i = 0; i + 128 <= d.size(); i += 128) {
        Entry e;
        int n = q.u(i + 64, 2);
        e.type = q.u(i + 66, 1);
        if (n > 64 || n & 1) throw Err{"directory name length"};
        for (int k = 0; k + 2 < n; k += 2) e.raw += (char16_t)q.u(i + k, 2);
        e.left = q.u(i + 68, 4); e.right = q.u(i + 72, 4); e.child = q.u(i + 76, 4);
        e.clsid = d.substr(i + 80, 16);
        uint64_t size = q.u(i + 120, 4);
        uint32_t start = q.u(i + 116, 4);
        if (e.type == 5) { ministream = chain(start, size, true); c.clsid = e.clsid; }
        else if (e.type == 2) {
            if (size >= cutoff) e.data = chain(start, size, true);
            else {
                uint32_t s = start;
                while (size && s < 0xfffffffa) {
                    if (s >= mfat.size()) throw Err{"mini chain leaves its FAT"};
                    if (!mused.insert(s).second) throw Err{"mini sector belongs to two streams"};
                    if (e.data.size() >= size) throw Err{"mini chain too long"};
                    std::string p = (uint64_t)s * ms < ministream.size() ? ministream.substr((uint64_t)s * ms, ms) : "";
                    e.data += p;
                    s = mfat[s];
                }
                if (e.data.size() < size) throw Err{"mini stream too short"};
                e.data.resize(size);
            }
        } else if (e.type != 0 && e.type != 1) throw Err{"directory entry type"};
        c.all.push_back(e);
    }
    if (c.all.empty() || c.all[0].type != 5) throw Err{"no root entry"};
    // Walk the name trees. Every entry has to be found by ordered search too.
    auto less = [](const std::u16string &a, const std::u16string &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        for (size_t i = 0; i < a.size(); i++) {
            auto up = [](char16_t ch) { return ch >= 'a' && ch <= 'z' ? (char16_t)(ch - 32) : ch; };
            if (up(a[i]) != up(b[i])) return up(a[i]) < up(b[i]);
        }
        return false;
    };
    (void)less;
    std::set<uint32_t> seen;
    std::function<void(uint32_t, std::vector<uint32_t> &)> walk = [&](uint32_t i, std::vector<uint32_t> &out) {
        if (i == 0xffffffff) return;
        if (i >= c.all.size() || !seen.insert(i).second) throw Err{"directory tree is not a tree"};
        walk(c.all[i].left, out);
        out.push_back(i);
        walk(c.all[i].right, out);
    };
    std::vector<uint32_t> root;
    walk(c.all[0].child, root);
    for (auto i : root) {
        Entry &e = c.all[i];
        if (e.type == 2) { if (!c.streams.emplace(e.raw, e.data).second) throw Err{"two streams of one name"}; }
        else if (e.type == 1) {
            c.storages.push_back(e.raw);
            std::vector<uint32_t> kids;
            walk(e.child, kids);
            auto &v = c.sub[e.raw];
            for (auto k : kids) if (c.all[k].type == 2) v.push_back({c.all[k].raw, c.all[k].data});
            std::sort(v.begin(), v.end());
        }
    }
    return c;
}

// ---- names ------------------------------------------------------------------------
inline std::string utf8(const std::u16string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        uint32_t c = s[i];
        if (c >= 0xd800 && c < 0xdc00 && i + 1 < s.size()) c = 0x10000 + ((c - 0xd800) << 10) + (s[++i] - 0xdc00);
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    return o;
}
inline std::string decoded(const std::u16string &s, bool *table) {
    static const char abc[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz._";
    std::u16string o;
    *table = !s.empty() && s[0] == 0x4840;
    for (size_t i = *table; i < s.size(); i++) {
        char16_t c = s[i];
        if (c >= 0x3800 && c < 0x4800) { o += abc[(c - 0x3800) & 63]; o += abc[(c - 0x3800) >> 6]; }
        else if (c >= 0x4800 && c < 0x4840) o += abc[c - 0x4800];
        else o += c;
    }
    return utf8(o);
}
inline std::string text(const std::string &raw, int cp) {
    if (cp == 0) cp = 1252;
    iconv_t h = iconv_open("UTF-8", cp == 65001 ? "UTF-8" : fmt("CP%d", cp).c_str());
    if (h == (iconv_t)-1) throw Err{fmt("codepage %d", cp)};
    std::string o(raw.size() * 4 + 4, 0);
    char *in = (char *)raw.data(), *out = &o[0];
    size_t il = raw.size(), ol = o.size();
    bool ok = iconv(h, &in, &il, &out, &ol) != (size_t)-1;
    iconv_close(h);
    if (!ok) throw Err{fmt("a string is no text in codepage %d", cp)};
    o.resize(o.size() - ol);
    return o;
}

// ---- database ---------------------------------------------------------------------
struct File {
    Snap snap;                       // what the file says
    int codepage = 0, idbytes = 2;
    std::vector<std::string> strings;
    std::vector<int> refs, uses;
    std::map<std::string, std::vector<Row>> stored;   // rows in stored order
    std::string clsid;
};
inline std::string typestr(int t) {
    if (t & 0x800) {
        int n = t & 0xff;
        bool loc = t & 0x200;
        if (n == 0 && (t & 0x400) == 0) return t & 0x1000 ? "V0" : "v0";
        std::string s = loc ? (t & 0x1000 ? "L" : "l") : (t & 0x1000 ? "S" : "s");
        return s + std::to_string(n);
    }
    return std::string(t & 0x1000 ? "I" : "i") + std::to_string(t & 0xff);
}
inline std::string propset(const std::string &b, std::map<int, std::string> &out) {
    Rd r{b};
    if (r.u(0, 2) != 0xfffe) throw Err{"summary byte order"};
    if (r.u(24, 4) != 1) throw Err{"summary sections"};
    if (b.compare(28, 16, "\xe0\x85\x9f\xf2\xf9\x4f\x68\x10\xab\x91\x08\x00\x2b\x27\xb3\xd9", 16)) throw Err{"summary format id"};
    uint32_t at = r.u(44, 4), size = r.u(at, 4), n = r.u(at + 4, 4);
    if (at + size > b.size()) throw Err{"summary section is longer than the stream"};
    std::vector<std::pair<uint32_t, uint32_t>> spans;
    int cp = 0;
    std::set<int> ids;
    for (int pass = 0; pass < 2; pass++)
        for (uint32_t i = 0; i < n; i++) {
            int id = r.u(at + 8 + 8 * i, 4);
            uint32_t o = r.u(at + 12 + 8 * i, 4);
            if (o & 3) throw Err{fmt("property %d is not aligned", id)};
            if (o + 8 > size) throw Err{fmt("property %d lies outside its section", id)};
            int t = r.u(at + o, 4);
            if (pass == 0) { if (id == 1 && t == 2) cp = r.u(at + o + 4, 2); if (!ids.insert(id).second) throw Err{fmt("property %d twice", id)}; continue; }
            std::string v;
            uint32_t end = o + 8;
            if (t == 2) v = fmt("int %d", (int16_t)r.u(at + o + 4, 2));
            else if (t == 3) v = fmt("int %d", (int32_t)r.u(at + o + 4, 4));
            else if (t == 30) {
                uint32_t len = r.u(at + o + 4, 4);
                if (len == 0 || o + 8 + len > size) throw Err{fmt("property %d: string of %u bytes", id, len)};
                std::string raw = b.substr(at + o + 8, len);
                if (raw.find('\0') != len - 1) throw Err{fmt("property %d: length is not that of its string", id)};
                raw.pop_back();
                v = "str " + raw;
                end = o + 8 + len;
            } else if (t == 64) { v = fmt("time %llu", (unsigned long long)r.u(at + o + 4, 8)); end = o + 12; }
            else throw Err{fmt("property %d of type %d", id, t)};
            spans.push_back({o, end});
            out[id] = v;
        }
    std::sort(spans.begin(), spans.end());
    for (size_t i = 0; i + 1 < spans.size(); i++) if (spans[i].second > spans[i + 1].first) throw Err{"properties overlap"};
    return "";
}
inline File read(const std::string &bytes) {
    File f;
    Cfb c = cfb(bytes);
    f.clsid = c.clsid;
    std::map<std::string, std::string> tab, str;
    for (auto &s : c.streams) {
        bool t;
        std::string n = decoded(s.first, &t);
        if (!(t ? tab : str).emplace(n, s.second).second) throw Err{"two streams decode to " + n};
    }
    for (auto &s : c.storages) f.snap.storages.push_back(utf8(s));
    std::sort(f.snap.storages.begin(), f.snap.storages.end());
    if (!tab.count("_StringPool") || !tab.count("_StringData")) throw Err{"no string pool"};
    const std::string &pool = tab["_StringPool"], &data = tab["_StringData"];
    Rd p{pool};
    if (pool.size() % 4 || pool.size() < 4) throw Err{"string pool size"};
    uint32_t head = p.u(0, 4);
    f.codepage = head & 0x7fffffff;
    f.idbytes = head & 0x80000000 ? 3 : 2;
    f.strings.push_back("");
    f.refs.push_back(0);
    size_t off = 0;
    for (size_t i = 4; i < pool.size();) {
        uint32_t len = p.u(i, 2), ref = p.u(i + 2, 2);
        i += 4;
        if (len == 0 && ref) { len = ref << 16 | p.u(i, 2); ref = p.u(i + 2, 2); i += 4; }
        if (off + len > data.size()) throw Err{"string data too short"};
        f.strings.push_back(len ? text(data.substr(off, len), f.codepage) : "");
        f.refs.push_back(ref);
        off += len;
    }
    if (off != data.size()) throw Err{"string data left over"};
    if (f.idbytes == 2 && f.strings.size() > 65536) throw Err{"too many strings for 2-byte ids"};
    f.uses.assign(f.strings.size(), 0);
    std::map<std::string, int> once;
    for (size_t i = 1; i < f.strings.size(); i++) if (f.refs[i] && !once.emplace(f.strings[i], i).second) throw Err{"string stored twice: " + f.strings[i].substr(0, 40)};
    struct C { std::string name; int type; };
    auto width = [&](int t) { return t & 0x800 ? ((t & 0xff) == 0 && !(t & 0x400) ? 2 : f.idbytes) : (t & 0xff) == 4 ? 4 : 2; };
    auto load = [&](const std::string &name, const std::vector<C> &cols, std::vector<Row> &raws, bool count) {
        std::vector<Row> rows;
        auto it = tab.find(name);
        if (it == tab.end() || it->second.empty()) return rows;
        const std::string &d = it->second;
        Rd q{d};
        size_t rs = 0;
        for (auto &k : cols) rs += width(k.type);
        if (!rs || d.size() % rs) throw Err{fmt("%s: %zu bytes are no multiple of the row size %zu", name.c_str(), d.size(), rs)};
        size_t n = d.size() / rs, o = 0;
        rows.resize(n);
        raws.resize(n);
        for (auto &k : cols) {
            int w = width(k.type);
            for (size_t i = 0; i < n; i++, o += w) {
                uint64_t v = q.u(o, w);
                Val x;
                if (k.type & 0x800 && w == 2 && !(k.type & 0x400) && (k.type & 0xff) == 0) x = v ? Val::B("") : Val::N();
                else if (k.type & 0x800) {
                    if (v >= f.strings.size()) throw Err{fmt("%s.%s: string id %llu of %zu", name.c_str(), k.name.c_str(), (unsigned long long)v, f.strings.size())};
                    if (v && !f.refs[v]) throw Err{fmt("%s.%s: string id %llu is unused", name.c_str(), k.name.c_str(), (unsigned long long)v)};
                    if (v && count) f.uses[v]++;
                    x = v ? Val::S(f.strings[v]) : Val::N();
                } else if (v == 0) x = Val::N();
                else x = Val::I(w == 4 ? (int32_t)((uint32_t)v ^ 0x80000000) : (int)v - 0x8000);
                rows[i].push_back(x);
                raws[i].push_back(Val::I((int)v));
            }
        }
        return rows;
    };
    std::vector<Row> raw;
    auto tl = load("_Tables", {{"Name", 0x2d40}}, raw, true);
    auto cl = load("_Columns", {{"Table", 0x2d40}, {"Number", 0x2502}, {"Name", 0x0d40}, {"Type", 0x0502}}, raw, true);
    std::map<std::string, std::map<int, C>> cols;
    for (auto &r : cl) {
        f.snap.columns.push_back(r);
        if (!cols[r[0].s].emplace(r[1].i, C{r[2].s, r[3].i & 0xffff}).second) throw Err{"column twice in " + r[0].s};
    }
    f.snap.columns = sorted(f.snap.columns);
    std::set<std::string> names;
    for (auto &t : tl) {
        const std::string &n = t[0].s;
        if (!names.insert(n).second) throw Err{"table twice: " + n};
        TableView v;
        std::vector<C> cv;
        for (auto &k : cols[n]) {
            if (k.first != (int)cv.size() + 1) throw Err{n + ": column numbers have holes"};
            cv.push_back(k.second);
            v.names.push_back(k.second.name);
            v.types.push_back(typestr(k.second.type));
            if (k.second.type & 0x2000) v.keys.push_back(k.second.name);
        }
        if (cv.empty()) throw Err{"no columns of " + n};
        std::vector<Row> raws;
        auto rows = load(n, cv, raws, true);
        // key order: the stored rows ascend in their key cells, as stored
        int nk = v.keys.size();
        for (int i = 0; i < nk; i++) if (!(cv[i].type & 0x2000)) throw Err{n + ": key columns do not come first"};
        for (size_t i = 0; i + 1 < raws.size(); i++) {
            bool nulls = false;
            Row a, b;
            for (int k = 0; k < nk; k++) { a.push_back(raws[i][k]); b.push_back(raws[i + 1][k]); if (!a.back().i || !b.back().i) nulls = true; }
            for (auto *x : {&a, &b}) for (auto &y : *x) y = Val::S(fmt("%010u", (unsigned)y.i));
            if (nulls) continue;
            if (a == b) throw Err{n + ": two rows with the same key"};
            if (b < a) throw Err{fmt("%s: row %zu is not in key order", n.c_str(), i + 1)};
        }
        for (auto &r : rows) for (size_t k = 0; k < r.size(); k++) if (r[k].k == Val::BIN) {
            std::string s = n;
            for (int x = 0; x < nk; x++) s += "." + (r[x].k == Val::INT ? std::to_string(r[x].i) : r[x].s);
            auto it = str.find(s);
            if (it == str.end()) throw Err{"no stream " + s};
            r[k] = Val::B(it->second);
        }
        f.stored[n] = rows;
        v.rows = sorted(rows);
        f.snap.tables[n] = v;
    }
    for (auto &k : cols) if (!names.count(k.first)) throw Err{"columns of a missing table " + k.first};
    for (auto &t : tab) if (t.first[0] != '_' && !names.count(t.first)) throw Err{"data of a missing table " + t.first};
    for (auto &s : str) {
        if (s.first == "\5SummaryInformation") propset(s.second, f.snap.summary);
        else if (s.first.find("SummaryInformation") == std::string::npos) f.snap.streams[s.first] = s.second;
    }
    return f;
}
} // namespace msiread
