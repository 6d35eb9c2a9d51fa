// An independent writer of compound files, string pools, packages and
// transforms: shares no code with libmsi or libgsf.
#pragma once
#include "content.hpp"
#include <iconv.h>

namespace msiwrite {
using namespace content;

inline void put16(std::string &s, uint32_t v) { s += (char)v; s += (char)(v >> 8); }
inline void put32(std::string &s, uint32_t v) { put16(s, v & 0xffff); put16(s, v >> 16); }
inline void set32(std::string &s, size_t o, uint32_t v) { for (int i = 0; i < 4; i++) s[o + i] = (char)(v >> 8 * i); }

inline std::u16string utf16(const std::string &s) {
    std::u16string o;
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        uint32_t v = n == 1 ? c : c & (0xff >> (n + 1));
        for (int k = 1; k < n && i + k < s.size(); k++) v = v << 6 | (s[i + k] & 63);
        if (v >= 0x10000) { v -= 0x10000; o += (char16_t)(0xd800 + (v >> 10)); o += (char16_t)(0xdc00 + (v & 1023)); }
        else o += (char16_t)v;
        i += n;
    }
    return o;
}
inline int mime(char16_t c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
    if (c >= 'a' && c <= 'z') return c - 'a' + 36;
    if (c == '.') return 62;
    if (c == '_') return 63;
    return -1;
}
inline std::u16string encoded(const std::string &name, bool table) {
    std::u16string in = utf16(name), o;
    if (table) o += (char16_t)0x4840;
    for (size_t i = 0; i < in.size(); i++) {
        int a = mime(in[i]);
        if (a < 0) { o += in[i]; continue; }
        int b = i + 1 < in.size() ? mime(in[i + 1]) : -1;
        if (b < 0) o += (char16_t)(0x4800 + a);
        else { o += (char16_t)(0x3800 + a + (b << 6)); i++; }
    }
    return o;
}

struct Cfb {
    struct Entry { std::u16string name; std::string data; };
    std::vector<Entry> streams;
    std::vector<std::pair<std::u16string, std::vector<Entry>>> storages;
    std::string clsid = std::string(16, '\0');
    void add(const std::string &n, const std::string &d, bool table = false) { streams.push_back({encoded(n, table), d}); }
    void raw(const std::string &n, const std::string &d) { streams.push_back({utf16(n), d}); }
    std::string bytes() const {
        constexpr uint32_t END = 0xfffffffe, FREE = 0xffffffff, FATS = 0xfffffffd;
        std::vector<uint32_t> fat, mfat;
        std::vector<std::string> sect;
        auto chain = [&](const std::string &d) -> uint32_t {
            if (d.empty()) return END;
            uint32_t first = sect.size();
            for (size_t o = 0; o < d.size(); o += 512) {
                std::string x = d.substr(o, 512);
                x.resize(512);
                sect.push_back(x);
                fat.push_back(o + 512 < d.size() ? (uint32_t)sect.size() : END);
            }
            return first;
        };
        std::string mini;
        std::string dir;
        auto entry = [&](const std::u16string &n, int type, uint32_t right, uint32_t child, const std::string &cls, uint32_t start, uint32_t size) {
            std::string e;
            for (auto c : n) put16(e, c);
            e.resize(64);
            put16(e, n.size() * 2 + 2);
            e += (char)type;
            e += (char)1;
            put32(e, FREE); put32(e, right); put32(e, child);
            e += cls;
            e += std::string(4 + 16, '\0');
            put32(e, start); put32(e, size); put32(e, 0);
            return e;
        };
        auto place = [&](const std::string &d, uint32_t &start) {
            if (d.size() >= 4096) { start = chain(d); return; }
            start = END;
            if (d.empty()) return;
            start = mfat.size();
            for (size_t o = 0; o < d.size(); o += 64) {
                std::string x = d.substr(o, 64);
                x.resize(64);
                mini += x;
                mfat.push_back(o + 64 < d.size() ? (uint32_t)mfat.size() + 1 : END);
            }
        };
        auto less = [](const std::u16string &a, const std::u16string &b) {
            if (a.size() != b.size()) return a.size() < b.size();
            auto up = [](char16_t c) { return c >= 'a' && c <= 'z' ? (char16_t)(c - 32) : c; };
            for (size_t i = 0; i < a.size(); i++) if (up(a[i]) != up(b[i])) return up(a[i]) < up(b[i]);
            return false;
        };
        // siblings hang to the right of each other, in order
        struct Item { std::u16string name; const std::string *data; const std::vector<Entry> *kids; };
        std::vector<Item> top;
        for (auto &s : streams) top.push_back({s.name, &s.data, nullptr});
        for (auto &s : storages) top.push_back({s.first, nullptr, &s.second});
        std::sort(top.begin(), top.end(), [&](auto &a, auto &b) { return less(a.name, b.name); });
        uint32_t next = 1 + top.size();
        std::string body, kids;
        for (size_t i = 0; i < top.size(); i++) {
            uint32_t right = i + 1 < top.size() ? (uint32_t)i + 2 : FREE;
            if (top[i].data) {
                uint32_t st;
                place(*top[i].data, st);
                body += entry(top[i].name, 2, right, FREE, std::string(16, '\0'), st, top[i].data->size());
            } else {
                auto k = *top[i].kids;
                std::sort(k.begin(), k.end(), [&](auto &a, auto &b) { return less(a.name, b.name); });
                body += entry(top[i].name, 1, right, k.empty() ? FREE : next, std::string(16, '\0'), 0, 0);
                for (size_t j = 0; j < k.size(); j++) {
                    uint32_t st;
                    place(k[j].data, st);
                    kids += entry(k[j].name, 2, j + 1 < k.size() ? next + 1 : FREE, FREE, std::string(16, '\0'), st, k[j].data.size());
                    next++;
                }
            }
        }
        uint32_t ms = chain(mini);
        dir = entry(u"Root Entry", 5, FREE, top.empty() ? FREE : 1, clsid, ms, mini.size()) + body + kids;
        while (dir.size() % 512) {
            std::string e(128, '\0');
            set32(e, 68, FREE); set32(e, 72, FREE); set32(e, 76, FREE);
            dir += e;
        }
        uint32_t ds = chain(dir);
        std::string mf;
        for (auto v : mfat) put32(mf, v);
        while (mf.size() % 512) put32(mf, FREE);
        uint32_t nmf = mf.size() / 512, mfs = chain(mf);
        uint32_t nfat = 0;
        while (nfat * 128 < sect.size() + nfat) nfat++;
        std::vector<uint32_t> fs;
        for (uint32_t i = 0; i < nfat; i++) { fs.push_back(sect.size() + i); fat.push_back(FATS); }
        std::string f;
        for (auto v : fat) put32(f, v);
        while (f.size() % 512 || f.size() / 512 < nfat) put32(f, FREE);
        for (uint32_t i = 0; i < nfat; i++) sect.push_back(f.substr(i * 512, 512));
        std::string h("\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", 8);
        h += std::string(16, '\0');
        put16(h, 0x3e); put16(h, 3); put16(h, 0xfffe); put16(h, 9); put16(h, 6);
        h += std::string(6, '\0');
        put32(h, 0); put32(h, nfat); put32(h, ds); put32(h, 0); put32(h, 4096); put32(h, nmf ? mfs : END); put32(h, nmf); put32(h, END); put32(h, 0);
        for (int i = 0; i < 109; i++) put32(h, i < (int)fs.size() ? fs[i] : FREE);
        for (auto &x : sect) h += x;
        return h;
    }
};

inline std::string to_codepage(const std::string &s, int cp) {
    if (cp == 65001) return s;
    iconv_t h = iconv_open(fmt("CP%d", cp ? cp : 1252).c_str(), "UTF-8");
    std::string o(s.size() * 2 + 4, 0);
    char *in = (char *)s.data(), *out = &o[0];
    size_t il = s.size(), ol = o.size();
    iconv(h, &in, &il, &out, &ol);
    iconv_close(h);
    o.resize(o.size() - ol);
    return o;
}

struct Pool {
    std::vector<std::string> strings{""};
    std::vector<int> refs{0};
    std::map<std::string, int> ids;
    int codepage = 0, width = 2;
    int id(const std::string &s) {
        if (s.empty()) return 0;
        auto it = ids.find(s);
        if (it == ids.end()) { it = ids.emplace(s, (int)strings.size()).first; strings.push_back(s); refs.push_back(0); }
        refs[it->second]++;
        return it->second;
    }
    void hole() { strings.push_back(""); refs.push_back(0); }
    void write(Cfb &c) const {
        std::string pool, data;
        put32(pool, codepage | (width == 3 ? 0x80000000u : 0));
        for (size_t i = 1; i < strings.size(); i++) {
            if (!refs[i]) { put32(pool, 0); continue; }
            std::string s = to_codepage(strings[i], codepage);
            if (s.size() > 0xffff) { put16(pool, 0); put16(pool, s.size() >> 16); }
            put16(pool, s.size() & 0xffff);
            put16(pool, std::min(refs[i], 0xffff));
            data += s;
        }
        c.add("_StringPool", pool, true);
        c.add("_StringData", data, true);
    }
};

// ---- tables -------------------------------------------------------------------------
struct Col { std::string name; int type; };     // type bits as _Columns has them
inline bool is_bin(int t) { return (t & 0x800) && !(t & 0x400) && !(t & 0xff); }
inline bool is_str(int t) { return (t & 0x800) && !is_bin(t); }
inline bool is_key(int t) { return t & 0x2000; }
inline void cell(std::string &o, const Val &v, int type, Pool &p) {
    if (is_bin(type)) put16(o, v.k == Val::BIN ? 1 : 0);
    else if (is_str(type)) { int id = v.k == Val::STR ? p.id(v.s) : 0; put16(o, id); if (p.width == 3) o += (char)(id >> 16); }
    else if ((type & 0xff) == 4) put32(o, v.k == Val::INT ? (uint32_t)v.i ^ 0x80000000u : 0);
    else put16(o, v.k == Val::INT ? v.i + 0x8000 : 0);
}
struct Tab {
    std::vector<Col> cols;
    std::map<Row, Row> rows;        // key -> all cells
    int nkeys() const { int n = 0; for (auto &c : cols) n += is_key(c.type) ? 1 : 0; return n; }
    void set(const Row &r) { rows[Row(r.begin(), r.begin() + nkeys())] = r; }
};
inline std::string stream_name(const std::string &t, const Tab &tab, const Row &key) {
    std::string s = t;
    for (size_t i = 0; i < key.size(); i++)
        s += "." + (key[i].k == Val::INT ? std::to_string(key[i].i) : key[i].k == Val::STR ? key[i].s
                    : is_str(tab.cols[i].type) ? "" : (tab.cols[i].type & 0xff) == 4 ? "-2147483648" : "-32768");
    return s;
}
struct Database {
    std::map<std::string, Tab> tables;
    std::map<std::string, std::string> streams;     // of binary cells too
    void row(const std::string &t, const Row &r) {
        Tab &tab = tables[t];
        tab.set(r);
        Row key(r.begin(), r.begin() + tab.nkeys());
        for (auto &v : r) if (v.k == Val::BIN) streams[stream_name(t, tab, key)] = v.s;
    }
};
inline const char *sqltype(int t) {
    static thread_local std::string s;
    if (is_bin(t)) s = "OBJECT";
    else if (is_str(t)) s = t & 0xff ? fmt("CHAR(%d)", t & 0xff) : "LONGCHAR";
    else s = (t & 0xff) == 4 ? "LONG" : "SHORT";
    if (!(t & 0x1000)) s += " NOT NULL";
    if (t & 0x200) s += " LOCALIZABLE";
    return s.c_str();
}
// through libmsi
inline int build(LibmsiDatabase *db, const Database &d) {
    int e = 0;
    for (auto &t : d.tables) {
        std::string s = "CREATE TABLE `" + t.first + "` (", k, cl, q;
        for (auto &c : t.second.cols) {
            s += (cl.empty() ? "" : ", ") + ("`" + c.name + "` ") + sqltype(c.type);
            cl += (cl.empty() ? "`" : ",`") + c.name + "`";
            q += q.empty() ? "?" : ",?";
            if (is_key(c.type)) k += (k.empty() ? "`" : ",`") + c.name + "`";
        }
        e |= exec(db, s + " PRIMARY KEY " + k + ")");
        for (auto &r : t.second.rows) e |= exec(db, "INSERT INTO `" + t.first + "` (" + cl + ") VALUES (" + q + ")", r.second);
    }
    for (auto &s : d.streams) {
        bool cell = false;
        for (auto &t : d.tables) for (auto &r : t.second.rows) if (stream_name(t.first, t.second, r.first) == s.first) cell = true;
        if (!cell) e |= exec(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", {Val::S(s.first), Val::B(s.second)});
    }
    return e;
}
// as a package
inline std::string package(const Database &d, int width = 2, int codepage = 0, Cfb *parts = nullptr) {
    Cfb c;
    Pool p;
    p.width = width;
    p.codepage = codepage;
    c.clsid = std::string("\x84\x10\x0c\x00\x00\x00\x00\x00\xc0\x00\x00\x00\x00\x00\x00\x46", 16);
    std::string columns[4], tables;
    std::vector<Row> crows;
    for (auto &t : d.tables) {
        cell(tables, Val::S(t.first), 0x2d40, p);
        int n = 0;
        for (auto &k : t.second.cols) crows.push_back({Val::S(t.first), Val::I(++n), Val::S(k.name), Val::I(k.type)});
        // ordered by the stored key cells
        std::vector<std::pair<std::vector<uint32_t>, const Row *>> rs;
        for (auto &r : t.second.rows) {
            std::vector<uint32_t> k;
            for (size_t i = 0; i < t.second.cols.size(); i++) {
                if (!is_key(t.second.cols[i].type)) continue;
                std::string o;
                Pool &q = p;
                cell(o, r.second[i], t.second.cols[i].type, q);
                if (is_str(t.second.cols[i].type) && r.second[i].k == Val::STR) q.refs[q.ids[r.second[i].s]]--;
                uint32_t v = 0;
                for (int b = (int)o.size(); b--;) v = v << 8 | (unsigned char)o[b];
                k.push_back(v);
            }
            rs.push_back({k, &r.second});
        }
        std::sort(rs.begin(), rs.end());
        std::string data;
        for (size_t i = 0; i < t.second.cols.size(); i++) for (auto &r : rs) cell(data, (*r.second)[i], t.second.cols[i].type, p);
        if (!data.empty()) c.add(t.first, data, true);
    }
    std::string cd;
    static const int ct[] = {0x2d40, 0x2502, 0x0d40, 0x0502};
    for (int i = 0; i < 4; i++) for (auto &r : crows) {
        if (i == 3) put16(cd, (r[3].i + 0x8000) & 0xffff);
        else cell(cd, r[i], ct[i], p);
    }
    if (!cd.empty()) c.add("_Columns", cd, true);
    c.add("_Tables", tables, true);
    p.write(c);
    for (auto &s : d.streams) c.add(s.first, s.second);
    if (parts) *parts = c;
    return c.bytes();
}

// ---- transforms -----------------------------------------------------------------------
struct Style {
    int change = 0;         // 0 changed columns only, 1 all non-key columns, 2 the whole row
    bool numbers = false;   // explicit column numbers for new tables
    bool reverse = false;   // order of the rows within a table
    int width = 2, codepage = 0;
    bool drops_columns = true;   // a dropped table's columns are deleted too
};
inline std::string full_row(const Row &r, const std::vector<Col> &cols, Pool &p) {
    std::string o;
    put16(o, 1 | cols.size() << 8);
    for (size_t i = 0; i < cols.size(); i++) cell(o, r[i], cols[i].type, p);
    return o;
}
// what turns a into b (columns are only added at the end of a table)
inline Cfb transform(const Database &a, const Database &b, const Style &st) {
    Cfb c;
    Pool p;
    p.width = st.width;
    p.codepage = st.codepage;
    p.hole();
    c.clsid = std::string("\x82\x10\x0c\x00\x00\x00\x00\x00\xc0\x00\x00\x00\x00\x00\x00\x46", 16);
    static const std::vector<Col> tc{{"Name", 0x2d40}}, cc{{"Table", 0x2d40}, {"Number", 0x2502}, {"Name", 0x0d40}, {"Type", 0x0502}};
    auto crow = [&](const std::string &t, int n, const Col &k) {
        std::string o;
        put16(o, 1 | 4 << 8);
        cell(o, Val::S(t), 0x2d40, p);
        cell(o, n ? Val::I(n) : Val::N(), 0x2502, p);
        cell(o, Val::S(k.name), 0x0d40, p);
        put16(o, (k.type + 0x8000) & 0xffff);
        return o;
    };
    std::string tables, columns;
    std::set<std::string> used;
    for (auto &t : a.tables) if (!b.tables.count(t.first)) {
        put16(tables, 0);
        cell(tables, Val::S(t.first), 0x2d40, p);
        if (st.drops_columns)
            for (size_t i = 0; i < t.second.cols.size(); i++) { put16(columns, 0); cell(columns, Val::S(t.first), 0x2d40, p); put16(columns, 0x8000 + i + 1); }
    }
    for (auto &t : b.tables) {
        auto old = a.tables.find(t.first);
        const Tab &tab = t.second;
        size_t had = old == a.tables.end() ? 0 : old->second.cols.size();
        if (!had) tables += full_row({Val::S(t.first)}, tc, p);
        for (size_t i = had; i < tab.cols.size(); i++) columns += crow(t.first, had || st.numbers ? i + 1 : 0, tab.cols[i]);
        std::vector<std::string> rows;
        if (had) for (auto &r : old->second.rows) if (!tab.rows.count(r.first)) {
            std::string o;
            put16(o, 0);
            for (size_t i = 0; i < r.first.size(); i++) cell(o, r.first[i], tab.cols[i].type, p);
            rows.push_back(o);
        }
        for (auto &r : tab.rows) {
            Row prev;
            bool is_new = true;
            if (had) { auto it = old->second.rows.find(r.first); if (it != old->second.rows.end()) { is_new = false; prev = it->second; prev.resize(tab.cols.size()); } }
            std::string sn = stream_name(t.first, tab, r.first);
            for (size_t i = 0; i < tab.cols.size(); i++)
                if (r.second[i].k == Val::BIN && (is_new || st.change || !(prev[i] == r.second[i])) && (is_new || st.change || !(prev == r.second))) used.insert(sn);
            if (is_new) { rows.push_back(full_row(r.second, tab.cols, p)); continue; }
            if (prev == r.second) { for (size_t i = 0; i < tab.cols.size(); i++) if (r.second[i].k == Val::BIN && a.streams.at(sn) == r.second[i].s) used.erase(sn); continue; }
            if (st.change == 2 || tab.cols.size() > 16) { rows.push_back(full_row(r.second, tab.cols, p)); continue; }
            int mask = 0, nk = tab.nkeys();
            for (size_t i = nk; i < tab.cols.size(); i++) if (st.change || !(prev[i] == r.second[i])) mask |= 1 << i;
            std::string o;
            put16(o, mask);
            for (size_t i = 0; i < tab.cols.size(); i++) if ((int)i < nk || mask >> i & 1) cell(o, r.second[i], tab.cols[i].type, p);
            rows.push_back(o);
        }
        if (st.reverse) std::reverse(rows.begin(), rows.end());
        std::string d;
        for (auto &r : rows) d += r;
        if (!d.empty()) c.add(t.first, d, true);
    }
    if (!tables.empty()) c.add("_Tables", tables, true);
    if (!columns.empty()) c.add("_Columns", columns, true);
    p.write(c);
    for (auto &s : b.streams) {
        auto it = a.streams.find(s.first);
        if (used.count(s.first) || it == a.streams.end() || it->second != s.second) c.add(s.first, s.second);
    }
    return c;
}
// the transform's own description
inline std::string transform_summary() {
    std::string d, s("\xe0\x85\x9f\xf2\xf9\x4f\x68\x10\xab\x91\x08\x00\x2b\x27\xb3\xd9", 16);
    put16(d, 0xfffe); put16(d, 0); put32(d, 0x20005); d += std::string(16, '\0'); put32(d, 1);
    d += s;
    put32(d, 48);
    std::string body;
    put32(body, 8 + 16 + 8 + 20); put32(body, 2);
    put32(body, 1); put32(body, 24);
    put32(body, 2); put32(body, 32);
    put32(body, 2); put32(body, 1252);
    put32(body, 30); put32(body, 10); body += std::string("transform\0\0\0", 12);
    return d + body;
}
// the content a database has
inline Snap snap_of(const Database &d) {
    Snap s;
    auto typestr = [](int t) {
        if (is_bin(t)) return std::string(t & 0x1000 ? "V0" : "v0");
        if (is_str(t)) return std::string(t & 0x200 ? (t & 0x1000 ? "L" : "l") : (t & 0x1000 ? "S" : "s")) + std::to_string(t & 0xff);
        return std::string(t & 0x1000 ? "I" : "i") + std::to_string(t & 0xff);
    };
    for (auto &t : d.tables) {
        TableView v;
        int n = 0;
        for (auto &c : t.second.cols) {
            v.names.push_back(c.name);
            v.types.push_back(typestr(c.type));
            if (is_key(c.type)) v.keys.push_back(c.name);
            s.columns.push_back({Val::S(t.first), Val::I(++n), Val::S(c.name), Val::I(c.type)});
        }
        for (auto &r : t.second.rows) v.rows.push_back(r.second);
        v.rows = sorted(v.rows);
        s.tables[t.first] = v;
    }
    s.columns = sorted(s.columns);
    s.streams = d.streams;
    return s;
}
} // namespace msiwrite
