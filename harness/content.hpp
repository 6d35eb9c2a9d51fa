// What a database shows through the public API, in canonical form, and a shared
// alphabet of changes for the checks about histories of a file.
#pragma once
#include "msi.hpp"
#include <dirent.h>

namespace content {
using namespace msi;

struct TableView {
    std::vector<std::string> names, types, keys;
    Rows rows;                  // sorted
    bool operator==(const TableView &o) const { return names == o.names && types == o.types && keys == o.keys && rows == o.rows; }
};
struct Snap {
    std::map<std::string, TableView> tables;
    Rows columns;               // _Columns
    std::map<std::string, std::string> streams;
    std::vector<std::string> storages;
    std::map<int, std::string> summary;
    std::string error;
    bool operator==(const Snap &o) const {
        return tables == o.tables && columns == o.columns && streams == o.streams && storages == o.storages && summary == o.summary && error == o.error;
    }
};
inline std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x; return s; }
inline std::string str(const Snap &s) {
    std::string o;
    if (!s.error.empty()) o += "error " + s.error + "\n";
    for (auto &t : s.tables)
        o += t.first + "(" + join(t.second.names) + " " + join(t.second.types) + " key " + join(t.second.keys) + ") " + show(t.second.rows) + "\n";
    o += "_Columns " + show(s.columns) + "\n";
    for (auto &t : s.streams) o += "stream " + t.first + "=" + Val::B(t.second).str() + "\n";
    for (auto &t : s.storages) o += "storage " + t + "\n";
    for (auto &t : s.summary) o += fmt("property %d ", t.first) + t.second + "\n";
    return o;
}
// the first difference, for the report
inline std::string diff(const Snap &a, const Snap &b) {
    std::stringstream x(str(a)), y(str(b));
    std::set<std::string> sa, sb;
    std::string l, o;
    while (std::getline(x, l)) sa.insert(l);
    while (std::getline(y, l)) sb.insert(l);
    for (auto &i : sa) if (!sb.count(i)) o += "  - " + i + "\n";
    for (auto &i : sb) if (!sa.count(i)) o += "  + " + i + "\n";
    return o;
}
inline std::string prop(LibmsiSummaryInfo *si, int p) {
    GError *e = nullptr;
    LibmsiPropertyType t = libmsi_summary_info_get_property_type(si, (LibmsiProperty)p, &e);
    if (e) { g_clear_error(&e); return "error"; }
    std::string r;
    if (t == LIBMSI_PROPERTY_TYPE_EMPTY) return "";
    if (t == LIBMSI_PROPERTY_TYPE_INT) r = fmt("int %d", libmsi_summary_info_get_int(si, (LibmsiProperty)p, &e));
    else if (t == LIBMSI_PROPERTY_TYPE_STRING) {
        const char *s = libmsi_summary_info_get_string(si, (LibmsiProperty)p, &e);
        r = std::string("str ") + (s ? s : "(null)");
    } else r = fmt("time %llu", (unsigned long long)libmsi_summary_info_get_filetime(si, (LibmsiProperty)p, &e));
    if (e) { r += " error"; g_clear_error(&e); }
    return r;
}
inline std::string backtick(const std::string &s) { return "`" + s + "`"; }

inline Snap snap(LibmsiDatabase *db, bool with_summary = true) {
    Snap s;
    Res t = query(db, "SELECT `Name` FROM `_Tables`");
    if (!t.ok()) { s.error = fmt("_Tables %d %s", t.err, t.where); return s; }
    for (auto &r : t.rows) {
        TableView v;
        Res q = query(db, "SELECT * FROM `" + r[0].s + "`");
        if (!q.ok()) { s.error += fmt("%s %d %s;", r[0].s.c_str(), q.err, q.where); continue; }
        v.names = q.names;
        v.types = q.types;
        int e;
        v.keys = primary_keys(db, r[0].s, &e);
        if (e) s.error += fmt("keys of %s %d;", r[0].s.c_str(), e);
        v.rows = sorted(q.rows);
        if (s.tables.count(r[0].s)) s.error += "two tables " + r[0].s + ";";
        s.tables[r[0].s] = v;
    }
    Res c = query(db, "SELECT `Table`,`Number`,`Name`,`Type` FROM `_Columns`");
    if (!c.ok()) s.error += fmt("_Columns %d %s;", c.err, c.where);
    s.columns = sorted(c.rows);
    Res st = query(db, "SELECT `Name`,`Data` FROM `_Streams`");
    if (!st.ok()) s.error += fmt("_Streams %d %s;", st.err, st.where);
    for (auto &r : st.rows) {
        if (s.streams.count(r[0].s)) s.error += "two streams " + r[0].s + ";";
        if (r[0].s.find("SummaryInformation") == std::string::npos) s.streams[r[0].s] = r[1].k == Val::BIN ? r[1].s : "<" + r[1].str() + ">";
    }
    Res g = query(db, "SELECT `Name` FROM `_Storages`");
    if (!g.ok()) s.error += fmt("_Storages %d %s;", g.err, g.where);
    for (auto &r : g.rows) s.storages.push_back(r[0].s);
    std::sort(s.storages.begin(), s.storages.end());
    if (with_summary) {
        Si si(libmsi_summary_info_new(db, 0, nullptr));
        if (si) for (int p = 1; p < 20; p++) { std::string v = prop(si, p); if (!v.empty()) s.summary[p] = v; }
    }
    return s;
}

// files in a directory
inline std::vector<std::string> ls(const std::string &dir) {
    std::vector<std::string> v;
    DIR *d = opendir(dir.c_str());
    if (!d) return v;
    while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
    closedir(d);
    std::sort(v.begin(), v.end());
    return v;
}
inline void clean(const std::string &dir) { for (auto &f : ls(dir)) unlink((dir + "/" + f).c_str()); }

// ---- a shared alphabet of changes -------------------------------------------------
struct Change { std::string name; std::function<int(LibmsiDatabase *, const std::string &tmp)> run; bool storage = false; };

inline Change sql(const std::string &s, Row p = {}) { return {s + (p.empty() ? "" : " with " + show(p)), [=](LibmsiDatabase *d, const std::string &) { return exec(d, s, p); }}; }
inline Change summary(int p, Val v) {
    return {fmt("summary %d = ", p) + v.str(), [=](LibmsiDatabase *d, const std::string &) {
        Si si(libmsi_summary_info_new(d, 10, nullptr));
        if (!si) return -1;
        bool ok = v.k == Val::INT ? libmsi_summary_info_set_int(si, (LibmsiProperty)p, v.i, nullptr)
                  : v.k == Val::STR ? libmsi_summary_info_set_string(si, (LibmsiProperty)p, v.s.c_str(), nullptr)
                  : libmsi_summary_info_set_filetime(si, (LibmsiProperty)p, 0x01d0000012345678ull + v.s.size(), nullptr);
        return ok && libmsi_summary_info_persist(si, nullptr) ? 0 : -1;
    }};
}
inline Change idt(const std::string &text, const std::string &name) {
    return {"import " + name, [=](LibmsiDatabase *d, const std::string &tmp) {
        std::string p = tmp + "/" + name;
        writefile(p, text);
        int e = import_table(d, p);
        unlink(p.c_str());
        return e;
    }};
}
// the bytes of a small compound file, to be stored as a storage
inline const std::string &storage_bytes() {
    static std::string b;
    if (b.empty()) {
        const char *base = getenv("MC_SCRATCH");
        std::string p = fmt("%s/stg-%d.msi", base ? base : "/tmp", getpid());
        {
            Db d = open(p, LIBMSI_DB_FLAGS_CREATE);
            exec(d, "CREATE TABLE `Inner` (`K` SHORT NOT NULL PRIMARY KEY `K`)");
            exec(d, "INSERT INTO `Inner` (`K`) VALUES (7)");
            commit(d);
        }
        b = readfile(p).value_or("");
        unlink(p.c_str());
    }
    return b;
}
inline std::vector<Change> changes() {
    std::vector<Change> v;
    v.push_back(sql("CREATE TABLE `T` (`K` SHORT NOT NULL, `N` LONG, `S` CHAR(20), `D` OBJECT PRIMARY KEY `K`)"));
    v.push_back(sql("INSERT INTO `T` (`K`,`N`,`S`) VALUES (1,70000,'alpha')"));
    v.push_back(sql("INSERT INTO `T` (`K`,`N`,`S`,`D`) VALUES (2,?,?,?)", {Val::I(-5), Val::S("beta"), Val::B("stream of row two")}));
    v.push_back(sql("UPDATE `T` SET `S` = 'gamma', `N` = -2147483647"));
    v.push_back(sql("DELETE FROM `T` WHERE `K` = 1"));
    v.push_back(sql("DROP TABLE `T`"));
    v.push_back(sql("CREATE TABLE `U` (`P` CHAR(30) NOT NULL LOCALIZABLE, `Q` SHORT NOT NULL, `R` LONGCHAR PRIMARY KEY `P`, `Q`)"));
    v.push_back(sql("INSERT INTO `U` (`P`,`Q`,`R`) VALUES ('alpha',-32767,'beta')"));
    v.push_back(sql("INSERT INTO `U` (`P`,`Q`) VALUES (?,32767)", {Val::S("d\xc3\xa9lta \xe2\x82\xac")}));
    v.push_back(sql("ALTER TABLE `T` ADD `W` CHAR(8)"));
    v.push_back(sql("INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('one',?)", {Val::B(std::string(5000, 'S') + "end")}));
    v.push_back(sql("DELETE FROM `_Streams` WHERE `Name` = 'one'"));
    v.push_back(summary(LIBMSI_PROPERTY_TITLE, Val::S("a title")));
    v.push_back(idt("P\tQ\ts72\tI4\nI\tP\nx\t5\ny\t\n", "i.idt"));
    v.back().run = idt("P\tQ\r\ns72\tI4\r\nI\tP\r\nx\t5\r\nalpha\t\r\n", "i.idt").run;
    v.push_back({"storage st", [](LibmsiDatabase *d, const std::string &) { return exec(d, "INSERT INTO `_Storages` (`Name`,`Data`) VALUES ('st',?)", {Val::B(storage_bytes())}); }, true});
    v.push_back(summary(LIBMSI_PROPERTY_SECURITY, Val::I(2)));
    return v;
}
// a filled database, as a second starting point
inline int fill(LibmsiDatabase *db, const std::string &tmp) {
    int e = 0;
    auto ch = changes();
    for (int i : {0, 1, 2, 6, 7, 8, 10, 12, 13, 14}) e |= ch[i].run(db, tmp);
    return e;
}
} // namespace content
