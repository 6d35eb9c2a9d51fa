// Thin wrappers over libmsi's public API: nothing here looks inside it.
#pragma once
#include "mc.hpp"
#include <libmsi.h>
#include <gio/gio.h>
#include <algorithm>
#include <optional>

namespace msi {
using mc::fmt;

struct Val {
    enum K { NUL, INT, STR, BIN } k = NUL;
    int i = 0;
    std::string s;
    static Val N() { return {}; }
    static Val I(int v) { Val x; x.k = INT; x.i = v; return x; }
    static Val S(std::string v) { Val x; x.k = STR; x.s = std::move(v); return x; }
    static Val B(std::string v) { Val x; x.k = BIN; x.s = std::move(v); return x; }
    bool operator==(const Val &o) const { return k == o.k && (k != INT || i == o.i) && ((k != STR && k != BIN) || s == o.s); }
    bool operator<(const Val &o) const { return std::tie(k, i, s) < std::tie(o.k, o.i, o.s); }
    std::string str() const {
        switch (k) {
        case NUL: return "-";
        case INT: return std::to_string(i);
        case STR: return "'" + (s.size() > 60 ? s.substr(0, 20) + mc::fmt("..%zu..", s.size()) + std::to_string(mc::hash64(s) % 100000) : s) + "'";
        default: return mc::fmt("bin[%zu:%llx]", s.size(), (unsigned long long)(mc::hash64(s) & 0xffffff));
        }
    }
};
using Row = std::vector<Val>;
using Rows = std::vector<Row>;
inline std::string show(const Row &r) { std::string s = "("; for (auto &v : r) s += (s.size() > 1 ? "," : "") + v.str(); return s + ")"; }
inline std::string show(const Rows &r) { std::string s; for (auto &x : r) s += show(x); return "[" + s + "]"; }
inline Rows sorted(Rows r) { std::sort(r.begin(), r.end()); return r; }

inline uint64_t &criticals() { static uint64_t n; return n; }
inline std::string &last_critical() { static std::string s; return s; }
inline GLogWriterOutput log_writer(GLogLevelFlags lv, const GLogField *f, gsize n, gpointer) {
    if (lv & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_ERROR)) {
        criticals()++;
        for (gsize i = 0; i < n; i++) if (!strcmp(f[i].key, "MESSAGE")) last_critical() = (const char *)f[i].value;
    }
    return G_LOG_WRITER_HANDLED;
}
inline void init() {
    static bool done;
    if (done) return;
    done = true;
    g_log_set_writer_func(log_writer, nullptr, nullptr);
}

template <class T> struct Ref {
    T *p = nullptr;
    Ref() {}
    explicit Ref(T *x) : p(x) {}
    Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
    Ref &operator=(Ref &&o) noexcept { if (this != &o) { reset(); p = o.p; o.p = nullptr; } return *this; }
    Ref(const Ref &) = delete;
    void reset() { if (p) g_object_unref(p); p = nullptr; }
    ~Ref() { reset(); }
    operator bool() const { return p != nullptr; }
    operator T *() const { return p; }
};
using Db = Ref<LibmsiDatabase>;
using Query = Ref<LibmsiQuery>;
using Rec = Ref<LibmsiRecord>;
using Si = Ref<LibmsiSummaryInfo>;

// 0: success; >0: LIBMSI_RESULT_* code; -1: failure without an error set
inline int code(gboolean ok, GError *&e) {
    int c = ok ? 0 : (e ? (e->code ? e->code : -2) : -1);
    if (ok && e) c = 0;
    g_clear_error(&e);
    return c;
}

inline Db open(const std::string &path, int flags, int *err = nullptr) {
    init();
    GError *e = nullptr;
    Db d(libmsi_database_new(path.c_str(), flags, nullptr, &e));
    if (err) *err = d ? 0 : (e ? e->code : -1);
    g_clear_error(&e);
    return d;
}
inline int commit(LibmsiDatabase *d) { GError *e = nullptr; gboolean ok = libmsi_database_commit(d, &e); return code(ok, e); }

inline Rec record(const Row &vals) {
    Rec r(libmsi_record_new(vals.size()));
    for (size_t i = 0; i < vals.size(); i++) {
        const Val &v = vals[i];
        if (v.k == Val::INT) libmsi_record_set_int(r, i + 1, v.i);
        else if (v.k == Val::STR) libmsi_record_set_string(r, i + 1, v.s.c_str());
        else if (v.k == Val::BIN) {
            GInputStream *in = g_memory_input_stream_new_from_data(g_memdup2(v.s.data(), v.s.size() ? v.s.size() : 1), v.s.size(), g_free);
            GError *e = nullptr;
            libmsi_record_set_stream(r, i + 1, in, v.s.size(), nullptr, &e);
            g_clear_error(&e);
            g_object_unref(in);
        }
    }
    return r;
}

inline std::optional<std::string> slurp(GInputStream *in) {
    if (!in) return std::nullopt;
    std::string s;
    char buf[8192];
    for (;;) {
        gssize n = g_input_stream_read(in, buf, sizeof buf, nullptr, nullptr);
        if (n < 0) return std::nullopt;
        if (n == 0) return s;
        s.append(buf, n);
    }
}

// How a result field is read back: by the column's declared type.
inline Val field(LibmsiRecord *r, unsigned i, char type) {
    type = tolower(type);
    if (type == 'v') {
        if (libmsi_record_is_null(r, i)) return Val::N();
        GInputStream *in = libmsi_record_get_stream(r, i);
        if (!in) return Val::S("<unreadable stream>");
        auto s = slurp(in);
        g_object_unref(in);
        return s ? Val::B(*s) : Val::S("<unreadable stream>");
    }
    if (libmsi_record_is_null(r, i)) return Val::N();
    if (type == 'i' || type == 'j') return Val::I(libmsi_record_get_int(r, i));
    gchar *s = libmsi_record_get_string(r, i);
    Val v = s ? Val::S(s) : Val::N();
    g_free(s);
    return v;
}
inline std::vector<std::string> strings(LibmsiRecord *r) {
    std::vector<std::string> v;
    for (unsigned i = 1; i <= libmsi_record_get_field_count(r); i++) {
        gchar *s = libmsi_record_get_string(r, i);
        v.push_back(s ? s : "");
        g_free(s);
    }
    return v;
}
inline std::vector<std::string> colinfo(LibmsiQuery *q, LibmsiColInfo what) {
    GError *e = nullptr;
    Rec r(libmsi_query_get_column_info(q, what, &e));
    g_clear_error(&e);
    return r ? strings(r) : std::vector<std::string>{};
}

struct Res { int err = 0; const char *where = ""; Rows rows; std::vector<std::string> names, types; bool ok() const { return err == 0; } };

inline int exec(LibmsiDatabase *d, const std::string &sql, const Row &params = {}) {
    GError *e = nullptr;
    Query q(libmsi_query_new(d, sql.c_str(), &e));
    if (!q) return code(FALSE, e);
    g_clear_error(&e);
    Rec r;
    if (!params.empty()) r = record(params);
    gboolean ok = libmsi_query_execute(q, r, &e);
    int c = code(ok, e);
    libmsi_query_close(q, nullptr);
    return c;
}

inline Res query(LibmsiDatabase *d, const std::string &sql, const Row &params = {}, int maxrows = 100000) {
    Res out;
    GError *e = nullptr;
    Query q(libmsi_query_new(d, sql.c_str(), &e));
    if (!q) { out.err = code(FALSE, e); out.where = "parse"; return out; }
    g_clear_error(&e);
    Rec r;
    if (!params.empty()) r = record(params);
    gboolean ok = libmsi_query_execute(q, r, &e);
    out.err = code(ok, e);
    if (out.err) { out.where = "execute"; return out; }
    out.names = colinfo(q, LIBMSI_COL_INFO_NAMES);
    out.types = colinfo(q, LIBMSI_COL_INFO_TYPES);
    for (;;) {
        Rec rec(libmsi_query_fetch(q, &e));
        if (!rec) {
            if (e) { out.err = e->code ? e->code : -2; out.where = "fetch"; }
            g_clear_error(&e);
            break;
        }
        Row row;
        unsigned n = libmsi_record_get_field_count(rec);
        for (unsigned i = 1; i <= n; i++) row.push_back(field(rec, i, i <= out.types.size() && !out.types[i - 1].empty() ? out.types[i - 1][0] : 's'));
        for (auto &v : row) if (v.k == Val::STR && v.s == "<unreadable stream>") { out.err = -4; out.where = "stream"; }
        out.rows.push_back(row);
        if ((int)out.rows.size() > maxrows) { out.err = -3; out.where = "endless"; break; }
    }
    libmsi_query_close(q, nullptr);
    return out;
}

inline std::vector<std::string> primary_keys(LibmsiDatabase *d, const std::string &table, int *err = nullptr) {
    GError *e = nullptr;
    Rec r(libmsi_database_get_primary_keys(d, table.c_str(), &e));
    if (err) *err = r ? 0 : (e ? e->code : -1);
    g_clear_error(&e);
    return r ? strings(r) : std::vector<std::string>{};
}

inline std::optional<std::string> readfile(const std::string &p) {
    std::ifstream f(p, std::ios::binary);
    if (!f) return std::nullopt;
    return std::string((std::istreambuf_iterator<char>(f)), {});
}
inline void writefile(const std::string &p, const std::string &s) {
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f.write(s.data(), s.size());
}

// IDT text of a table
inline int export_table(LibmsiDatabase *d, const std::string &table, const std::string &path) {
    int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    GError *e = nullptr;
    gboolean ok = libmsi_database_export(d, table.c_str(), fd, &e);
    close(fd);
    return code(ok, e);
}
inline int import_table(LibmsiDatabase *d, const std::string &path) {
    GError *e = nullptr;
    gboolean ok = libmsi_database_import(d, path.c_str(), &e);
    return code(ok, e);
}
} // namespace msi
