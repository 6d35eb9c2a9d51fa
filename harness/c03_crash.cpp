// C03: a crash during commit leaves the old or the new database.
//
// Scenarios (open, change, commit, close) run on the real library in a child
// process.  For EVERY file-changing system call the scenario makes, the child is
// killed just before it, and for every write also after part of its bytes; what is
// then found at the path must be one of the committed contents.
#include "content.hpp"
#include "ptr.hpp"
using namespace content;

namespace {
// what the child tells the parent
struct Shared { std::atomic<int> committed, step; char msg[400]; };
Shared *SH;

// The scenario runs `steps`; "commit" steps end with SH->committed++.
struct Scenario {
    std::string name;
    int start;                                  // 0 no file, 1 small database, 2 larger database, 3 small database and left-over temporary files
    std::vector<std::string> acts;
};
std::vector<Change> AB;
Db open_mode(const std::string &p, int m) { return msi::open(p, m); }

void act(const std::string &a, Db &db, const std::string &path, const std::string &tmp) {
    if (a == "open") db = open_mode(path, LIBMSI_DB_FLAGS_TRANSACT);
    else if (a == "openro") db = open_mode(path, LIBMSI_DB_FLAGS_READONLY);
    else if (a == "create") db = open_mode(path, LIBMSI_DB_FLAGS_CREATE);
    else if (a == "commit") { if (db && commit(db) == 0) SH->committed++; else SH->step = -1; }
    else if (a == "close") db.reset();
    else if (a == "snap") { if (db) snap(db); }
    else if (a == "fill") { if (db) fill(db, tmp); }
    else if (a == "big") {
        if (!db) return;
        exec(db, "CREATE TABLE `Big` (`K` SHORT NOT NULL, `S` CHAR(200), `D` OBJECT PRIMARY KEY `K`)");
        for (int k = 0; k < 60; k++) exec(db, "INSERT INTO `Big` (`K`,`S`,`D`) VALUES (?,?,?)", {Val::I(k), Val::S(std::string(100, 'a' + k % 26) + std::to_string(k)), Val::B(std::string(k * 97 % 5000 + 1, (char)k))});
    } else if (a == "morebig") {
        if (!db) return;
        exec(db, "UPDATE `Big` SET `S` = 'replaced'");
        exec(db, "DELETE FROM `Big` WHERE `K` > 30");
        exec(db, "UPDATE `Big` SET `D` = ? WHERE `K` = 3", {Val::B(std::string(9000, 'Z'))});
    } else if (a[0] == 'c') { if (db) AB[atoi(a.c_str() + 1)].run(db, tmp); }
}
std::vector<Scenario> scenarios(bool thorough) {
    std::vector<Scenario> v = {
        {"create", 0, {"create", "fill", "commit", "close"}},
        {"create and close", 0, {"create", "fill", "close"}},
        {"update", 1, {"open", "c3", "c6", "c7", "commit", "close"}},
        {"two commits", 1, {"open", "c3", "commit", "c5", "c15", "commit", "close"}},
        {"change and close", 1, {"open", "c3", "c6", "snap", "close"}},
        {"create over", 1, {"create", "c0", "c1", "commit", "close"}},
        {"create over and close", 1, {"create", "c0", "c1", "close"}},
        {"read only", 1, {"openro", "c3", "snap", "commit", "close"}},
        {"no change", 1, {"open", "commit", "close"}},
        {"larger", 2, {"open", "morebig", "commit", "close"}},
        {"larger from nothing", 0, {"create", "big", "commit", "morebig", "commit", "close"}},
        {"left-over files", 3, {"open", "c3", "commit", "close"}},
        {"reopen", 1, {"open", "c3", "commit", "close", "open", "c4", "c12", "commit", "close"}},
        {"streams", 1, {"open", "c11", "commit", "c10", "commit", "close"}},
    };
    if (thorough) {
        // every pair of changes of the shared alphabet, committed together and in steps
        for (size_t i = 0; i < AB.size(); i++)
            for (size_t j = 0; j < AB.size(); j++) {
                v.push_back({fmt("c%zu,c%zu", i, j), 1, {"open", fmt("c%zu", i), fmt("c%zu", j), "commit", "close"}});
                if (i != j) v.push_back({fmt("c%zu;c%zu", i, j), 1, {"open", fmt("c%zu", i), "commit", fmt("c%zu", j), "commit", "close"}});
            }
    } else
        for (size_t i = 0; i < AB.size(); i++) v.push_back({fmt("c%zu", i), 1, {"open", fmt("c%zu", i), "commit", "close"}});
    return v;
}
std::string START[4];                            // file bytes

struct Prepared { Scenario sc; std::vector<std::string> allowed; std::vector<ptr::Ev> events; };
std::vector<Prepared> PREP;

// what is at the path: "" none, else the canonical content, or "unreadable"
std::string found(const std::string &path) {
    if (access(path.c_str(), F_OK)) return "no file";
    Db d = msi::open(path, LIBMSI_DB_FLAGS_READONLY);
    if (!d) return "does not open";
    Snap s = snap(d);
    return str(s);
}
void place(const Scenario &sc, const std::string &dir) {
    clean(dir);
    mkdir(dir.c_str(), 0700);
    if (sc.start) writefile(dir + "/d.msi", START[sc.start]);
    if (sc.start == 3) { writefile(dir + "/d.msi.tmp", "left over"); writefile(dir + "/.gsf-save-AAAAAA", "left over"); }
    SH->committed = 0;
    SH->step = 0;
}
void play(const Scenario &sc, const std::string &dir) {
    Db db;
    std::string tmp = dir + "-tmp";
    mkdir(tmp.c_str(), 0700);
    for (auto &a : sc.acts) act(a, db, dir + "/d.msi", tmp);
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C03";
    chk.technique = "exhaustive crash-point and torn-write enumeration on the real library under a system-call monitor";
    chk.rule = "one execution per scenario, file-changing system call and number of bytes of it that reach the file; the content found afterwards must be that of the last commit "
               "or of the commit under way; non-trivial: the kill happened while a commit was under way or after a change";
    AB = changes();
    msi::init();
    static auto scs = scenarios(thorough);
    static std::vector<std::pair<int, ptr::Plan>> points;
    chk.spaces.push_back({"crash-points", "every scenario x every file-changing call x bytes let through", 0, [](mc::Ctx &c, uint64_t i) {
        auto &[si, plan] = points[i];
        Prepared &P = PREP[si];
        SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        std::string dir = c.scratch + "/x";
        place(P.sc, dir);
        c.step(P.sc.name + ": kill at " + (plan.at >= 0 && plan.at < (long)P.events.size() ? std::string(ptr::kname(P.events[plan.at].kind)) + " " + P.events[plan.at].what.substr(P.events[plan.at].what.rfind('/') + 1) : "the end") +
               (plan.what == ptr::Plan::TORN ? fmt(" after %ld bytes", plan.arg) : ""));
        auto o = ptr::run(dir, [&] { play(P.sc, dir); }, plan);
        int committed = SH->committed;
        munmap(SH, sizeof(Shared));
        if (!o.reached && plan.at >= 0) c.fail("schedule", P.sc.name + fmt(": event %ld of %zu was not reached (%zu seen)", plan.at, P.events.size(), o.events.size()));
        std::string got = found(dir + "/d.msi");
        c.state(P.sc.name + fmt("%ld/%ld", plan.at, plan.arg));
        // committed contents: number `committed` is the last that returned, the next may be under way
        bool ok = false;
        for (int k = committed; k <= committed + 1 && k < (int)P.allowed.size(); k++) ok |= got == P.allowed[k];
        if (!ok) {
            std::string is = "something else";
            for (size_t k = 0; k < P.allowed.size(); k++) if (got == P.allowed[k]) is = fmt("the content of commit %zu", k);
            c.fail("lost", P.sc.name + fmt(": %d commits had returned; the path holds %s\n", committed, is.c_str()) + got.substr(0, 600));
        }
        c.nontrivial();
        // the database goes on living: whatever the crash left behind, it can be changed and committed
        if (got != "no file") {
            Db d = msi::open(dir + "/d.msi", LIBMSI_DB_FLAGS_TRANSACT);
            if (!d || exec(d, "CREATE TABLE `After` (`K` SHORT NOT NULL PRIMARY KEY `K`)") || commit(d)) c.fail("stuck", P.sc.name + ": after the crash the database cannot be changed and committed");
            d.reset();
            d = msi::open(dir + "/d.msi", LIBMSI_DB_FLAGS_READONLY);
            if (!d || !snap(d).tables.count("After")) c.fail("stuck", P.sc.name + ": a commit after the crash is lost");
        } else {
            Db d = msi::open(dir + "/d.msi", LIBMSI_DB_FLAGS_CREATE);
            if (!d || fill(d, c.scratch) || commit(d)) c.fail("stuck", P.sc.name + ": after the crash the database cannot be created");
        }
        clean(dir);
    }});
    chk.setup = [&](bool) {
        storage_bytes();
        std::string dir = getenv("MC_SCRATCH") + std::string("/prep");
        mkdir(dir.c_str(), 0700);
        SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (int s = 1; s <= 2; s++) {
            Db d = msi::open(dir + "/s.msi", LIBMSI_DB_FLAGS_CREATE);
            fill(d, dir);
            if (s == 2) act("big", d, "", dir);
            if (commit(d)) throw mc::Failure{"commit", "the starting database cannot be committed"};
            d.reset();
            START[s] = readfile(dir + "/s.msi").value_or("");
            clean(dir);
        }
        START[3] = START[1];
        for (auto &sc : scs) {
            Prepared P;
            P.sc = sc;
            // the contents a reader may see: before, and after each commit, found by replaying prefixes
            place(sc, dir);
            P.allowed.push_back(found(dir + "/d.msi"));
            for (size_t k = 0; k < sc.acts.size(); k++)
                if (sc.acts[k] == "commit") {
                    place(sc, dir);
                    Scenario pre = sc;
                    pre.acts.resize(k + 1);
                    pre.acts.push_back("close");
                    play(pre, dir);
                    P.allowed.push_back(found(dir + "/d.msi"));
                }
            place(sc, dir);
            auto o = ptr::run(dir, [&] { play(sc, dir); }, ptr::Plan{});
            if (!WIFEXITED(o.status) || WEXITSTATUS(o.status)) throw mc::Failure{"scenario", fmt("scenario %s dies without faults (status %d)", sc.name.c_str(), o.status)};
            P.events = o.events;
            int si = PREP.size();
            for (size_t e = 0; e < o.events.size(); e++) {
                auto k = o.events[e].kind;
                if (k == ptr::READ || k == ptr::SEEK) continue;
                ptr::Plan pl;
                pl.at = e;
                pl.what = ptr::Plan::KILL;
                points.push_back({si, pl});
                if (k == ptr::WRITE) {
                    long n = o.events[e].len;
                    std::set<long> cuts{1, n / 2, n - 1, n};
                    for (long x = 512; x < n; x += thorough ? 512 : 2048) cuts.insert(x);
                    for (long x : cuts) if (x > 0) { pl.what = ptr::Plan::TORN; pl.arg = x; points.push_back({si, pl}); }
                }
            }
            ptr::Plan end;
            points.push_back({si, end});
            PREP.push_back(P);
            clean(dir);
        }
        chk.spaces[0].count = points.size();
        chk.bounds = fmt("%zu scenarios, %zu crash points (before every open, write, close, rename, unlink, chmod below the directory; torn writes at 1, every 512/2048 bytes, half, all but one, all)", scs.size(), points.size());
    };
    return mc::run(chk, argc, argv);
}
