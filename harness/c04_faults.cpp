// C04: a failing write or rename is reported, never taken for success.
//
// The scenarios of a database's life run on the real library in a child; for
// EVERY file system call they make, that call fails (or transfers only part of
// its bytes), once or from then on.  Whatever reports success must have happened.
#include "content.hpp"
#include "ptr.hpp"
using namespace content;

namespace {
struct Shared { std::atomic<int> n; int result[64]; size_t len[64]; char text[64][16384]; };
Shared *SH;
struct Scenario { std::string name; int start; std::vector<std::string> acts; };
std::vector<Change> AB;
std::string START[3], IDT;

void note(int e, const std::string &t = "") {
    int n = SH->n;
    if (n >= 64) return;
    SH->result[n] = e;
    SH->len[n] = std::min(t.size(), sizeof SH->text[n] - 1);
    memcpy(SH->text[n], t.data(), SH->len[n]);
    SH->n = n + 1;
}
// each act notes one result: 0 success, and what it shows
void act(const std::string &a, Db &db, const std::string &dir) {
    std::string path = dir + "/d.msi";
    if (a == "close") { db.reset(); note(0); return; }
    if (a == "open" || a == "openro" || a == "create") {
        db.reset();
        db = open(path, a == "open" ? LIBMSI_DB_FLAGS_TRANSACT : a == "create" ? LIBMSI_DB_FLAGS_CREATE : LIBMSI_DB_FLAGS_READONLY);
        note(db ? 0 : 1);
        return;
    }
    if (!db) { note(1); return; }
    if (a == "commit") note(commit(db));
    else if (a == "fill") note(fill(db, dir + "-tmp"));
    else if (a == "big") {
        int e = exec(db, "CREATE TABLE `Big` (`K` SHORT NOT NULL, `S` CHAR(200), `D` OBJECT PRIMARY KEY `K`)");
        for (int k = 0; k < 25; k++) e |= exec(db, "INSERT INTO `Big` (`K`,`S`,`D`) VALUES (?,?,?)", {Val::I(k), Val::S(std::string(100, 'a' + k % 26) + std::to_string(k)), Val::B(std::string(k * 397 % 9000 + 1, (char)k))});
        note(e);
    } else if (a == "snap") { Snap s = snap(db); note(s.error.empty() ? 0 : 1, str(s)); }
    else if (a == "summary") { Si si(libmsi_summary_info_new(db, 0, nullptr)); std::string s; if (si) for (int p = 1; p < 20; p++) s += prop(si, p) + ";"; note(si ? 0 : 1, s); }
    else if (a.rfind("select ", 0) == 0) { Res r = query(db, a.substr(7)); note(r.err, show(sorted(r.rows))); }
    else if (a == "export") { int e = export_table(db, "T", dir + "/out.idt"); note(e); }
    else if (a == "exportbig") { int e = export_table(db, "Big", dir + "/out.idt"); note(e); }
    else if (a == "import") { int e = import_table(db, dir + "/in.idt"); note(e); }
    else if (a == "merge") { Db o = open(dir + "/o.msi", LIBMSI_DB_FLAGS_READONLY); GError *e = nullptr; gboolean ok = o && libmsi_database_merge(db, o, "MergeErrors", &e); note(code(ok, e)); }
    else if (a[0] == 'c') note(AB[atoi(a.c_str() + 1)].run(db, dir + "-tmp"));
}
std::vector<Scenario> scenarios(bool thorough) {
    std::vector<Scenario> v = {
        {"create", 0, {"create", "fill", "commit", "snap", "close"}},
        {"create twice", 0, {"create", "fill", "commit", "c3", "commit", "snap", "close"}},
        {"update", 1, {"open", "c3", "c6", "c7", "commit", "snap", "close"}},
        {"retry", 1, {"open", "c3", "commit", "commit", "snap", "close"}},
        {"read", 1, {"openro", "snap", "summary", "close"}},
        {"read again", 1, {"openro", "select SELECT * FROM `T`", "select SELECT * FROM `T`", "select SELECT `Name`,`Data` FROM `_Streams`", "select SELECT * FROM `T`", "close"}},
        {"export", 1, {"openro", "export", "close"}},
        {"larger", 2, {"open", "c3", "commit", "snap", "close"}},
        {"larger read", 2, {"openro", "snap", "exportbig", "close"}},
        {"import", 1, {"open", "import", "commit", "snap", "close"}},
        {"merge", 1, {"open", "merge", "commit", "snap", "close"}},
        {"commit thrice", 1, {"open", "c3", "commit", "commit", "c10", "commit", "commit", "snap", "close"}},
        {"streams", 1, {"open", "c11", "commit", "c10", "commit", "snap", "close"}},
        {"create over", 1, {"create", "c0", "c1", "commit", "snap", "close"}},
    };
    if (thorough)
        for (size_t i = 0; i < AB.size(); i++)
            for (size_t j = 0; j < AB.size(); j++) v.push_back({fmt("c%zu,c%zu", i, j), 1, {"open", fmt("c%zu", i), "commit", fmt("c%zu", j), "commit", "snap", "close"}});
    return v;
}
std::string OTHER;
struct Ref { std::string exported; std::vector<int> result; std::vector<std::string> text; std::vector<std::string> after; };   // per act; content at the path after it, for a run without faults
struct Prepared { Scenario sc; Ref ref; std::vector<ptr::Ev> events; };
std::vector<Prepared> PREP;
struct Point { int sc; ptr::Plan plan; std::string how; };
std::vector<Point> POINTS;

std::string found(const std::string &path) {
    if (access(path.c_str(), F_OK)) return "no file";
    Db d = open(path, LIBMSI_DB_FLAGS_READONLY);
    if (!d) return "does not open";
    return str(snap(d));
}
void place(const Scenario &sc, const std::string &dir) {
    mkdir(dir.c_str(), 0700);
    mkdir((dir + "-tmp").c_str(), 0700);
    clean(dir);
    for (const char *t : {"T", "Big"}) { clean(dir + "/" + t); rmdir((dir + "/" + t).c_str()); }
    if (sc.start) writefile(dir + "/d.msi", START[sc.start]);
    writefile(dir + "/in.idt", IDT);
    writefile(dir + "/o.msi", OTHER);
    SH->n = 0;
}
void play(const Scenario &sc, const std::string &dir, int upto = 1000) {
    if (chdir(dir.c_str())) return;         // exports write streams below the current directory
    Db db;
    for (int k = 0; k < (int)sc.acts.size() && k < upto; k++) act(sc.acts[k], db, dir);
}
// what an export left behind: the archive and the files of its streams
std::string exported(const std::string &dir) {
    std::string s = readfile(dir + "/out.idt").value_or("");
    for (const char *t : {"T", "Big"}) for (auto &f : ls(dir + "/" + t)) s += "|" + f + "=" + readfile(dir + "/" + t + "/" + f).value_or("?");
    return s;
}
Shared *mapit() { return (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
bool is_change(const std::string &a) { return a[0] == 'c' && isdigit((unsigned char)a[1]); }
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C04";
    chk.technique = "exhaustive fault injection (every file system call of every scenario fails or is short, once or for good) on the real library under a system-call monitor";
    chk.rule = "one execution per scenario, system call and kind of fault; the child must not die, a call that reports success must show and store what the run without faults does, "
               "and the path must hold a committed content; non-trivial: some call of the scenario reported the fault";
    AB = changes();
    msi::init();
    static auto scs = scenarios(thorough);
    IDT = "P\tQ\r\ns72\tI4\r\nI\tP\r\nx\t5\r\nalpha\t\r\n" ;
    for (int k = 0; k < 400; k++) IDT += fmt("row%d\t%d\r\n", k, k);
    chk.spaces.push_back({"faults", "every scenario x every file system call x kinds of fault", 0, [](mc::Ctx &c, uint64_t i) {
        Point &pt = POINTS[i];
        Prepared &P = PREP[pt.sc];
        SH = mapit();
        std::string dir = c.scratch + "/x";
        place(P.sc, dir);
        const ptr::Ev &ev = P.events[pt.plan.at];
        std::string where = P.sc.name + ": " + ptr::kname(ev.kind) + " " + ev.what.substr(ev.what.rfind('/') + 1) + " " + pt.how;
        c.step(where + fmt(" (call %ld)", pt.plan.at));
        auto o = ptr::run(dir, [&] { play(P.sc, dir); }, pt.plan);
        int n = SH->n;
        std::vector<int> res(SH->result, SH->result + n);
        std::vector<std::string> text;
        for (int k = 0; k < n; k++) text.push_back(std::string(SH->text[k], SH->len[k]));
        munmap(SH, sizeof(Shared));
        c.state(where + std::to_string(pt.plan.at));
        // a fault is named by its act, call and kind, so that one finding does not stand for others
        std::string at = n < (int)P.sc.acts.size() ? P.sc.acts[n] : "end";
        if (o.timeout) c.fail("hang in " + at, where);
        if (!WIFEXITED(o.status) || WEXITSTATUS(o.status)) c.fail("dies in " + at, where + fmt(": the process dies (status %d) in %s", o.status, at.c_str()));
        bool faulty = false, changed_differs = false;
        int lastcommit = -1;
        std::set<std::string> ok_content{P.ref.after.empty() ? "" : P.ref.after[0]};
        for (int k = 0; k < n; k++) {
            const std::string &a = P.sc.acts[k];
            if (res[k] && !P.ref.result[k]) { faulty = true; if (a != "commit" && a != "snap" && a != "summary" && a.rfind("select", 0) && a.rfind("export", 0)) changed_differs = true; }
            if (!res[k] && P.ref.result[k] && !changed_differs) c.fail("succeeds " + a, where + ": " + a + " succeeds where it fails without the fault");
            // a commit that failed after the file was complete may leave a handle that shows nothing
            bool gave_up = false;
            for (int m = 0; m < k; m++) if (P.sc.acts[m] == "commit" && res[m] && text[k].rfind("_Columns []\n", 0) == 0) gave_up = true;
            if (gave_up) continue;
            if (!res[k] && !changed_differs && a != "close" && text[k] != P.ref.text[k])
                c.fail("wrong " + a, where + ": " + a + " reports success and shows\n" + text[k].substr(0, 1500) + "\nexpected\n" + P.ref.text[k].substr(0, 1500));
            if (a == "commit" && !res[k]) lastcommit = k;
        }
        for (int k = 0; k < n; k++)
            if (P.sc.acts[k].rfind("export", 0) == 0 && !res[k] && exported(dir) != P.ref.exported)
                c.fail("wrong " + P.sc.acts[k], where + ": export reports success and wrote\n" + exported(dir).substr(0, 800));
        if (faulty) c.nontrivial();
        std::string got = found(dir + "/d.msi");
        if (got == "does not open" && P.sc.start) c.fail("destroyed", where + ": the file does not open any more");
        // contents that may be there: that of the last successful commit, or of any commit tried after it
        if (!changed_differs) {
            bool ok = false;
            int from = lastcommit;
            std::string base = P.ref.after[0];
            if (from >= 0) base = P.ref.after[from + 1];
            ok = got == base;
            for (int k = from + 1; k < n; k++) if (P.sc.acts[k] == "commit" && res[k] && got == P.ref.after[k + 1]) ok = true;
            if (!ok) c.fail(lastcommit >= 0 ? "not stored" : "changed", where + fmt(": after %s commit the path holds other content\n", lastcommit >= 0 ? "a successful" : "no") + got.substr(0, 1500) + "\nexpected\n" + base.substr(0, 1500));
        }
        clean(dir);
    }, 30});
    chk.setup = [&](bool) {
        storage_bytes();
        std::string dir = getenv("MC_SCRATCH") + std::string("/prep");
        mkdir(dir.c_str(), 0700);
        mkdir((dir + "-tmp").c_str(), 0700);
        SH = mapit();
        for (int s = 1; s <= 2; s++) {
            { Db d = open(dir + "/s.msi", LIBMSI_DB_FLAGS_CREATE); if (fill(d, dir)) throw mc::Failure{"fill", "cannot fill"}; if (s == 2) { act("big", d, dir); } if (commit(d)) throw mc::Failure{"commit", "cannot commit"}; }
            START[s] = readfile(dir + "/s.msi").value_or("");
            clean(dir);
        }
        { Db d = open(dir + "/s.msi", LIBMSI_DB_FLAGS_CREATE); exec(d, "CREATE TABLE `M` (`K` SHORT NOT NULL, `S` CHAR(9) PRIMARY KEY `K`)"); exec(d, "INSERT INTO `M` (`K`,`S`) VALUES (4,'four')"); commit(d); }
        OTHER = readfile(dir + "/s.msi").value_or("");
        for (auto &sc : scs) {
            Prepared P;
            P.sc = sc;
            place(sc, dir);
            P.ref.after.push_back(found(dir + "/d.msi"));
            for (size_t k = 0; k < sc.acts.size(); k++) {
                place(sc, dir);
                if (sc.acts[k] == "commit") { play(sc, dir, k + 1); P.ref.after.push_back(found(dir + "/d.msi")); }
                else P.ref.after.push_back(P.ref.after.back());
            }
            place(sc, dir);
            auto o = ptr::run(dir, [&] { play(sc, dir); }, ptr::Plan{});
            if (!WIFEXITED(o.status) || WEXITSTATUS(o.status)) throw mc::Failure{"scenario", fmt("scenario %s dies without faults (status %d)", sc.name.c_str(), o.status)};
            for (int k = 0; k < SH->n; k++) { P.ref.result.push_back(SH->result[k]); P.ref.text.push_back(std::string(SH->text[k], SH->len[k])); }
            P.events = o.events;
            P.ref.exported = exported(dir);
            int si = PREP.size();
            const unsigned W = 1u << ptr::WRITE | 1u << ptr::TRUNC | 1u << ptr::SYNC | 1u << ptr::MKDIR | 1u << ptr::OPEN;
            for (size_t e = 0; e < o.events.size(); e++) {
                auto k = o.events[e].kind;
                auto add = [&](int err, bool persist, unsigned kinds, const char *how, ptr::Plan::What what = ptr::Plan::FAIL, long arg = 0) {
                    ptr::Plan p;
                    p.at = e; p.what = what; p.arg = what == ptr::Plan::FAIL ? err : arg; p.persistent = persist; p.kinds = kinds;
                    POINTS.push_back({si, p, how});
                };
                // what cannot fail in practice, or whose failure nobody could act on, is left out
                if (k == ptr::MODE || k == ptr::SEEK) continue;
                if (k == ptr::UNLINK) { add(EACCES, false, 0, "fails once"); continue; }
                if (k == ptr::OPEN) { add(EACCES, false, 0, "fails once"); if (thorough || e % 2) add(ENOSPC, true, 1u << ptr::OPEN, "fails from here"); continue; }
                if (k == ptr::READ) {
                    add(EIO, false, 0, "fails once");
                    add(EIO, true, 1u << ptr::READ, "fails from here");
                    if (o.events[e].len > 1) { add(0, false, 0, "is short", ptr::Plan::SHORT, 1); add(0, false, 0, "is short", ptr::Plan::SHORT, o.events[e].len / 2); }
                    continue;
                }
                if (k == ptr::WRITE) {
                    add(ENOSPC, false, 0, "fails once");
                    add(ENOSPC, true, W & ~(1u << ptr::OPEN), "fails from here");
                    if (o.events[e].len > 1) { add(0, false, 0, "is short", ptr::Plan::SHORT, 1); add(0, false, 0, "is short", ptr::Plan::SHORT, o.events[e].len - 1); }
                    continue;
                }
                if (k == ptr::CLOSE) {
                    // only of files written to
                    if (o.events[e].what.find("gsf-save") == std::string::npos && o.events[e].what.find("out.idt") == std::string::npos) continue;
                    if (o.events[e].what.find("out.idt") != std::string::npos) continue;        // closed by this harness, not by the library
                    add(EIO, false, 0, "fails once");
                    continue;
                }
                add(EACCES, false, 0, "fails once");
                add(EIO, true, 1u << k, "fails from here");
            }
            PREP.push_back(P);
            clean(dir);
        }
        munmap(SH, sizeof(Shared));
        chk.spaces[0].count = POINTS.size();
        chk.bounds = fmt("%zu scenarios, %zu faults: every open, read, write, close of a written file, rename, unlink below the directory; errors once and persistent, short transfers of 1 byte, half, all but one", scs.size(), POINTS.size());
    };
    return mc::run(chk, argc, argv);
}
