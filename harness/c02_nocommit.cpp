// C02: nothing but a successful commit changes the database file.
#include "content.hpp"
using namespace content;

namespace {
struct FileState { bool exists = false; std::string bytes; ino_t ino = 0; struct timespec mt {}; mode_t mode = 0;
    bool operator==(const FileState &o) const { return exists == o.exists && bytes == o.bytes && ino == o.ino && mt.tv_sec == o.mt.tv_sec && mt.tv_nsec == o.mt.tv_nsec && mode == o.mode; } };
FileState look(const std::string &p) {
    FileState f;
    struct stat st;
    if (stat(p.c_str(), &st)) return f;
    f.exists = true; f.bytes = readfile(p).value_or(""); f.ino = st.st_ino; f.mt = st.st_mtim; f.mode = st.st_mode;
    return f;
}
std::string BASE, OTHER;                         // bytes of a filled database and of one to merge
struct Way { const char *name; int flags; bool exists; };
const Way WAYS[] = {{"transact", LIBMSI_DB_FLAGS_TRANSACT, true}, {"read-only", LIBMSI_DB_FLAGS_READONLY, true}, {"create over", LIBMSI_DB_FLAGS_CREATE, true},
                    {"create new", LIBMSI_DB_FLAGS_CREATE, false}, {"read-only missing", LIBMSI_DB_FLAGS_READONLY, false}, {"transact missing", LIBMSI_DB_FLAGS_TRANSACT, false}};
std::vector<Change> alphabet() {
    auto v = changes();
    v.push_back({"snap", [](LibmsiDatabase *d, const std::string &) { snap(d); return 0; }});
    v.push_back({"export", [](LibmsiDatabase *d, const std::string &tmp) { int e = export_table(d, "T", tmp + "/e.idt"); unlink((tmp + "/e.idt").c_str()); return e; }});
    v.push_back({"merge", [](LibmsiDatabase *d, const std::string &tmp) {
        writefile(tmp + "/o.msi", OTHER);
        GError *e = nullptr;
        int r;
        { Db o = open(tmp + "/o.msi", LIBMSI_DB_FLAGS_READONLY); gboolean ok = libmsi_database_merge(d, o, "MergeErrors", &e); r = code(ok, e); }
        if (readfile(tmp + "/o.msi") != OTHER) r = -99;
        unlink((tmp + "/o.msi").c_str());
        return r;
    }});
    v.push_back({"second handle", [](LibmsiDatabase *d, const std::string &) { return query(d, "SELECT * FROM `T`").err; }});
    v.push_back({"summary without persist", [](LibmsiDatabase *d, const std::string &) { Si si(libmsi_summary_info_new(d, 5, nullptr)); if (si) libmsi_summary_info_set_string(si, LIBMSI_PROPERTY_AUTHOR, "x", nullptr); return 0; }});
    v.push_back(sql("CREATE TABLE `H` (`K` SHORT NOT NULL TEMPORARY PRIMARY KEY `K`) HOLD"));
    v.push_back(sql("bad sql"));
    v.push_back({"missing import", [](LibmsiDatabase *d, const std::string &tmp) { return import_table(d, tmp + "/none.idt"); }});
    return v;
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C02";
    chk.technique = "bounded-exhaustive exploration of call histories without commit on the real library; the file's bytes, inode, times and neighbours are the observable";
    chk.rule = "every call sequence x every way to open x with or without a commit before it; the file after closing (and, read-only, after every call) must be the one left by the last commit; "
               "non-trivial: some call of the history succeeded";
    static auto ab = alphabet();
    static const int depth = thorough ? 3 : 2;
    mc::Words w{ab.size(), depth, depth};
    chk.bounds = fmt("%zu calls, depth %d, 6 ways to open, with and without an earlier commit by the same handle, 3 ways to close", ab.size(), depth);
    chk.setup = [](bool) {
        storage_bytes();
        std::string dir = getenv("MC_SCRATCH");
        { Db d = open(dir + "/b.msi", LIBMSI_DB_FLAGS_CREATE); if (fill(d, dir) || commit(d)) throw mc::Failure{"fill", "the starting database cannot be made"}; }
        BASE = *readfile(dir + "/b.msi");
        unlink((dir + "/b.msi").c_str());
        { Db d = open(dir + "/b.msi", LIBMSI_DB_FLAGS_CREATE); exec(d, "CREATE TABLE `M` (`K` SHORT NOT NULL PRIMARY KEY `K`)"); exec(d, "INSERT INTO `M` (`K`) VALUES (4)"); if (commit(d)) throw mc::Failure{"fill", "cannot commit"}; }
        OTHER = *readfile(dir + "/b.msi");
        unlink((dir + "/b.msi").c_str());
    };
    chk.spaces.push_back({"histories", "call sequences x ways to open x an earlier commit x ways to close", w.count() * 6 * 2 * 3, [w](mc::Ctx &c, uint64_t i) {
        auto word = w.at(i / 36);
        const Way &way = WAYS[i / 6 % 6];
        bool committed = i / 3 % 2;
        int closing = i % 3;
        std::string dir = c.scratch + "/f", tmp = c.scratch + "/t", path = dir + "/d.msi";
        mkdir(dir.c_str(), 0700); mkdir(tmp.c_str(), 0700);
        clean(dir);
        if (way.exists) { writefile(path, BASE); chmod(path.c_str(), 0644); }
        bool ro = way.flags == LIBMSI_DB_FLAGS_READONLY;
        FileState f0 = look(path);
        c.step(std::string("open ") + way.name);
        Db db = open(path, way.flags);
        if (!db) {
            if (!(look(path) == f0)) c.fail("failed-open", std::string(way.name) + ": a failing open changed the file");
            if (way.exists) c.fail("open", std::string(way.name) + ": open fails");
            if (!ls(dir).empty()) c.fail("litter", std::string(way.name) + ": a failing open leaves files behind");
            return;
        }
        if (committed) {
            c.step("change, commit");
            if (exec(db, "CREATE TABLE `Before` (`K` SHORT NOT NULL PRIMARY KEY `K`)")) c.fail("create", "cannot create a table");
            if (commit(db)) c.fail("commit", "commit fails");
            if (ro) { if (!(look(path) == f0)) c.fail("ro-commit", "commit of a read-only database changed the file"); }
            else {
                f0 = look(path);
                if (!f0.exists) c.fail("no-file", "no file after commit");
            }
        }
        Query held;
        for (int x : word) {
            int e = ab[x].run(db, tmp);
            c.step(ab[x].name + fmt(" -> %d", e));
            if (e == -99) c.fail("merge-source", "merging changed the database it read from");
            if (!e) c.nontrivial();
            if (!(look(path) == f0)) c.fail("changed before commit", std::string(way.name) + ": " + ab[x].name + " changed the file");
            if (closing == 1 && !held) { GError *er = nullptr; held = Query(libmsi_query_new(db, "SELECT * FROM `T`", &er)); g_clear_error(&er); if (held) libmsi_query_execute(held, nullptr, nullptr); }
        }
        c.state(std::string(way.name) + (committed ? "c" : "") + str(snap(db)));
        c.step(closing == 0 ? "close" : closing == 1 ? "close the database, then a query on it" : "close after reading everything");
        if (closing == 2) snap(db);
        db.reset();
        held.reset();
        if (!(look(path) == f0)) c.fail("changed by close", std::string(way.name) + ": closing without commit changed the file" + (f0.exists ? "" : " (there was none)"));
        for (auto &f : ls(dir)) if (f != "d.msi") c.fail("litter", std::string(way.name) + ": " + f + " is left behind");
        if (f0.exists) {
            Db d = open(path, LIBMSI_DB_FLAGS_READONLY);
            if (!d) c.fail("unreadable", "the file does not open any more");
        }
    }});
    return mc::run(chk, argc, argv);
}
