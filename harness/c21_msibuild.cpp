// C21: msibuild applies exactly the requested edits or fails without touching the file.
#include "toolfault.hpp"
using namespace tool;

namespace {
// ---- an independent splitter of scripts into statements ---------------------------
bool idchar(unsigned char ch) { return isalnum(ch) || ch == '_' || ch >= 0x80 || ch == '-' || ch == 5; }
bool keyword(std::string w) {
    for (auto &ch : w) ch = toupper((unsigned char)ch);
    for (auto k : {"ALTER", "CREATE", "DELETE", "DROP", "INSERT", "SELECT", "UPDATE"}) if (w == k) return true;
    return false;
}
bool blank(const std::string &s) { return s.find_first_not_of(" \t\n\f\r\v") == std::string::npos; }
std::vector<std::string> split(const std::string &t) {
    std::vector<std::string> v;
    std::string cur;
    auto end = [&] { if (!blank(cur)) v.push_back(cur); cur.clear(); };
    for (size_t i = 0; i < t.size();) {
        if (t[i] == ';') { end(); i++; continue; }
        if (t[i] == '\'' || t[i] == '`') {
            size_t e = t.find(t[i], i + 1);
            e = e == std::string::npos ? t.size() : e + 1;
            cur += t.substr(i, e - i);
            i = e;
        } else if (isdigit((unsigned char)t[i])) { while (i < t.size() && isdigit((unsigned char)t[i])) cur += t[i++]; }
        else if (idchar(t[i]) && t[i] != '-') {
            size_t e = i;
            while (e < t.size() && idchar(t[e])) e++;
            std::string w = t.substr(i, e - i);
            if (keyword(w) && !blank(cur)) end();
            cur += w;
            i = e;
        } else cur += t[i++];
    }
    end();
    return v;
}
// ---- what the command line asks for, done with the library --------------------------
std::string upper(std::string s) { for (auto &ch : s) ch = toupper((unsigned char)ch); return s; }
int put(LibmsiDatabase *db, int p, const Val &v, Si &si) {
    return v.k == Val::INT ? !libmsi_summary_info_set_int(si, (LibmsiProperty)p, v.i, nullptr) : !libmsi_summary_info_set_string(si, (LibmsiProperty)p, v.s.c_str(), nullptr);
}
int fresh(LibmsiDatabase *db) {
    Si si(libmsi_summary_info_new(db, 1000, nullptr));
    int e = 0;
    e |= put(db, LIBMSI_PROPERTY_TITLE, Val::S("Installation Database"), si);
    e |= put(db, LIBMSI_PROPERTY_KEYWORDS, Val::S("Installer, MSI"), si);
    e |= put(db, LIBMSI_PROPERTY_TEMPLATE, Val::S(";1033"), si);
    e |= put(db, LIBMSI_PROPERTY_APPNAME, Val::S("libmsi msibuild"), si);
    e |= put(db, LIBMSI_PROPERTY_VERSION, Val::I(200), si);
    e |= put(db, LIBMSI_PROPERTY_SOURCE, Val::I(0), si);
    e |= put(db, LIBMSI_PROPERTY_RESTRICT, Val::I(0), si);
    e |= put(db, LIBMSI_PROPERTY_UUID, Val::S("{some}"), si);
    e |= !libmsi_summary_info_persist(si, nullptr);
    return e;
}
// 0: every edit was made; otherwise the first that cannot be
std::string edits(LibmsiDatabase *db, const std::vector<std::string> &a) {
    for (size_t i = 0; i < a.size();) {
        if (a[i].size() != 2 || a[i][0] != '-') return "'" + a[i] + "' is no option";
        char o = a[i][1];
        size_t n = a.size() - i - 1, k = 1;     // operands there, operands taken
        if (n == 0) return "no operand";
        auto more = [&](size_t max) { while (k < max && k < n && (a[i + 1 + k].empty() || a[i + 1 + k][0] != '-')) k++; };
        if (o == 's') {
            more(4);
            Si si(libmsi_summary_info_new(db, 1000, nullptr));
            if (!si) return "summary";
            static const int ids[] = {LIBMSI_PROPERTY_SUBJECT, LIBMSI_PROPERTY_AUTHOR, LIBMSI_PROPERTY_TEMPLATE, LIBMSI_PROPERTY_UUID};
            for (size_t x = 0; x < k; x++) if (put(db, ids[x], Val::S(a[i + 1 + x]), si)) return "summary";
            if (!libmsi_summary_info_persist(si, nullptr)) return "summary";
        } else if (o == 'i') {
            more(1000);
            for (size_t x = 0; x < k; x++) if (import_table(db, a[i + 1 + x])) return "import of " + a[i + 1 + x];
        } else if (o == 'q') {
            more(1000);
            for (size_t x = 0; x < k; x++) for (auto &s : split(a[i + 1 + x])) if (exec(db, s)) return "statement " + s;
        } else if (o == 'a') {
            if (n < 2) return "-a without a file";
            k = 2;
            auto b = readfile(a[i + 2]);
            struct stat st;
            if (!b || stat(a[i + 2].c_str(), &st) || !S_ISREG(st.st_mode)) return "no file " + a[i + 2];
            if (exec(db, "INSERT INTO `_Streams` (`Name`, `Data`) VALUES (?, ?)", {Val::S(a[i + 1]), Val::B(*b)})) return "stream " + a[i + 1];
        } else return "unknown option";
        i += 1 + k;
    }
    return "";
}
enum Kind { THERE, ABSENT, GARBAGE, DIRECTORY };
const char *kindname[] = {"existing package", "no package yet", "a file that is no package", "a directory"};
// scratch/d: where the tool runs; scratch/x: where the library does the same
const std::string &base(mc::Ctx &c) {
    static std::string b;
    if (b.empty()) {
        std::string p = c.scratch + "/base.msi";
        {
            Db db = open(p, LIBMSI_DB_FLAGS_CREATE);
            fill(db, c.scratch);
            exec(db, "CREATE TABLE `L` (`S` CHAR(0) NOT NULL PRIMARY KEY `S`)");
            commit(db);
        }
        b = readfile(p).value_or("");
        unlink(p.c_str());
    }
    return b;
}
void inputs(const std::string &d) {
    static const std::string big = [] { std::string s; for (int i = 0; i < 20000; i++) s += (char)(i * 7 ^ i >> 8); return s; }();
    writefile(d + "/good.idt", "A\tB\r\ns10\tI2\r\nImp\tA\r\nx\t1\r\ny\t\r\n");
    writefile(d + "/repl.idt", "K\tN\tS\tD\r\ni2\tI4\tS20\tV0\r\nT\tK\r\n9\t10\tnine\t\r\n");
    writefile(d + "/bad.idt", "A\tB\r\ns10\tI2\r\nBad\tA\r\nx\t1\r\ny\tz\r\n");
    writefile(d + "/f.bin", big);
    writefile(d + "/g.bin", "other bytes");
    mkdir((d + "/sub").c_str(), 0700);
}
void check(mc::Ctx &c, Kind kind, bool swapped, const std::vector<std::string> &args) {
    std::string d = c.scratch + "/d", x = c.scratch + "/x";
    for (auto &p : {d, x}) { mkdir(p.c_str(), 0700); wipe(p); inputs(p); }
    if (kind == THERE) { writefile(d + "/p.msi", base(c)); writefile(x + "/p.msi", base(c)); }
    if (kind == GARBAGE) writefile(d + "/p.msi", std::string(3000, 'g'));
    if (kind == DIRECTORY) mkdir((d + "/p.msi").c_str(), 0700);
    std::vector<std::string> argv = {bin("msibuild")};
    if (swapped && args.empty()) return;
    if (swapped) { argv.push_back(args[0]); argv.push_back("p.msi"); argv.insert(argv.end(), args.begin() + 1, args.end()); }
    else { argv.push_back("p.msi"); argv.insert(argv.end(), args.begin(), args.end()); }
    std::string why = kind == GARBAGE || kind == DIRECTORY ? kindname[kind] : "";
    bool created = false;
    if (why.empty()) {
        if (chdir(x.c_str())) c.fail("harness", "chdir");
        Db db = msi::open("p.msi", kind == THERE ? (int)LIBMSI_DB_FLAGS_TRANSACT : (int)LIBMSI_DB_FLAGS_CREATE);
        if (!db) c.fail("harness", "library cannot open");
        if (kind == ABSENT && fresh(db)) c.fail("harness", "summary");
        why = args.empty() ? "no option" : edits(db, args);
        if (why.empty()) if (int e = commit(db)) why = fmt("commit %d", e);
        db.reset();
        if (chdir(c.scratch.c_str())) c.fail("harness", "chdir");
    }
    auto before = tree(d);
    c.step(std::string(kindname[kind]) + ": " + shown(argv) + (why.empty() ? " (to succeed)" : " (to fail: " + why + ")"));
    Out o = run(argv, d, c.scratch + "/io");
    std::string what = shown(std::vector<std::string>(argv.begin() + 1, argv.end()));
    sane(c, o, what);
    auto after = tree(d);
    c.state(fmt("%d %d %d", kind, o.status, (int)why.empty()) + why.substr(0, 12));
    if (!why.empty()) {
        if (o.status == 0) c.fail("failure not reported", what + ": " + why);
        if (o.out.empty() && o.err.empty()) c.fail("silent failure", what + ": " + why);
        if (kind == ABSENT) {
            if (after.count("p.msi")) {      // a new package is made before any edit
                Snap s = filesnap(c, d + "/p.msi");
                Db e = open(x + "/e.msi", LIBMSI_DB_FLAGS_CREATE);
                fresh(e);
                commit(e);
                e.reset();
                Snap w = filesnap(c, x + "/e.msi");
                w.summary[LIBMSI_PROPERTY_UUID] = s.summary[LIBMSI_PROPERTY_UUID];
                if (!(s == w)) c.fail("changed by a failing run", what + ": " + why + "\n" + diff(w, s));
                created = true;
                after.erase("p.msi");
            }
        }
        if (before != after) c.fail("changed by a failing run", what + ": " + why + "\n" + difftree(before, after));
        (void)created;
        return;
    }
    if (o.status) c.fail("refused", what + fmt(": status %d; ", o.status) + o.err + o.out.substr(0, 200));
    Snap s = filesnap(c, d + "/p.msi"), w = filesnap(c, x + "/p.msi");
    if (kind == ABSENT) {
        std::string u = s.summary[LIBMSI_PROPERTY_UUID], v = w.summary[LIBMSI_PROPERTY_UUID];
        if (v == "str {some}") {
            bool ok = u.size() == 42 && u[4] == '{' && u[41] == '}';
            for (int i = 5; ok && i < 41; i++) ok = (i - 5 == 8 || i - 5 == 13 || i - 5 == 18 || i - 5 == 23) ? u[i] == '-' : isdigit((unsigned char)u[i]) || (u[i] >= 'A' && u[i] <= 'F');
            if (!ok) c.fail("uuid", u);
            w.summary[LIBMSI_PROPERTY_UUID] = u;
        }
    }
    if (!(s == w)) c.fail("other content", what + "\n" + diff(w, s));
    after.erase("p.msi");
    before.erase("p.msi");
    if (before != after) c.fail("other files", what + "\n" + difftree(before, after));
    c.nontrivial();
}
using Args = std::vector<std::string>;
const std::vector<Args> &items() {
    static const std::vector<Args> v = {
        {"-q", "CREATE TABLE `Q` (`A` SHORT NOT NULL, `B` CHAR(9) PRIMARY KEY `A`)"},
        {"-q", "INSERT INTO `Q` (`A`, `B`) VALUES (1, 'a;b')"},
        {"-q", "INSERT INTO `T` (`K`, `S`) VALUES (5, 'five'); UPDATE `T` SET `S` = 'x' WHERE `K` = 5 ;"},
        {"-q", "DELETE FROM `U`", "DROP TABLE `I`"},
        {"-q", "SELEC * FROM `T`"},
        {"-q", "INSERT INTO `T` (`K`) VALUES (6)", "INSERT INTO `T` (`K`) VALUES (6)"},
        {"-i", "good.idt"},
        {"-i", "repl.idt", "good.idt"},
        {"-i", "good.idt", "missing.idt"},
        {"-i", "bad.idt"},
        {"-a", "Bin.x", "f.bin"},
        {"-a", "one", "g.bin"},
        {"-a", "Bin.y", "missing.bin"},
        {"-s", "a name"},
        {"-s", "name", "author", ";1042", "{24265297-EC57-4E72-B5E9-000000000000}"},
        {"-s", "", "author"},
        {"-s", "", "author", "Intel;1031"},
        {"-z", "operand"},
        {"--sql", "operand"},
        {"stray"},
        {"-"},
    };
    return v;
}
const std::vector<Args> &tails() {      // what may only stand at the end
    static const std::vector<Args> v = {{}, {"-q"}, {"-i"}, {"-a"}, {"-a", "Bin.z"}, {"-s"}, {"-z"}};
    return v;
}
const std::vector<std::string> &tokens() {
    static const std::vector<std::string> v = {
        ";", " ", "\n", "INSERT INTO `L` (`S`) VALUES ('a')", "INSERT INTO `L` (`S`) VALUES (';')", "insert into `L` (`S`) values ('x SELECT `;` y')",
        "DELETE FROM `L` WHERE `S` = 'a'", "UPDATE `T` SET `S` = 'b;c INSERT'", "CREATE TABLE `a;b` (`x DROP y` CHAR(9) NOT NULL PRIMARY KEY `x DROP y`)", "SELECT * FROM `L`",
        "Drop Table `U`", "'", "`", "x", "ALTER TABLE `T` ADD `Upd-1` SHORT", ")", "INSERT INTO L (S) VALUES ('B')",
    };
    return v;
}
const std::vector<std::string> &pieces() {
    static const std::vector<std::string> v = {";", " ", "\n", "`", "\"", "--", "[", "]", "SELECT", "\t", "\xc3\xa9", ",", "DROP", "/*", "\\", "5"};
    return v;
}
uint64_t upto(uint64_t base, int n) { uint64_t s = 0, p = 1; for (int i = 0; i <= n; i++) { s += p; p *= base; } return s; }
std::vector<int> word(uint64_t i, uint64_t base) {
    std::vector<int> v;
    for (uint64_t p = 1; i >= p; p *= base) { i -= p; v.push_back(0); }
    for (auto &x : v) { x = i % base; i /= base; }
    return v;
}
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C21";
    chk.technique = "exhaustive enumeration of msibuild command lines and SQL scripts up to a length, run with the built tool, against the edits made one by one through the library and read by an independent reader";
    chk.rule = "exit 0 exactly when every edit can be made, with a package equal to the expected one; otherwise a message, non-zero status and unchanged files; always ends; non-trivial: a run that succeeded";
    int n = thorough ? 3 : 2, m = thorough ? 4 : 3, l = thorough ? 4 : 2;
    chk.bounds = fmt("command lines of <= %d of 20 options (good, failing, malformed) with 7 endings, on 4 kinds of package, package first or second; scripts of <= %d of 17 tokens; quoted texts of <= %d of 16 pieces; stream names and sizes", n, m, l);
    uint64_t S = items().size(), E = tails().size();
    uint64_t nl = upto(S, n);
    chk.spaces.push_back({"options", "every sequence of options x ending x kind of package x order of package and first option", nl * E * 4 * 2, [=](mc::Ctx &c, uint64_t i) {
        bool swapped = i % 2;
        Kind k = (Kind)(i / 2 % 4);
        auto &t = tails()[i / 8 % E];
        auto w = word(i / 8 / E, S);
        if ((k == GARBAGE || k == DIRECTORY) && w.size() > 1) return;
        if (!thorough && k == ABSENT && w.size() > 1 && !t.empty()) return;
        Args a;
        for (int x : w) a.insert(a.end(), items()[x].begin(), items()[x].end());
        a.insert(a.end(), t.begin(), t.end());
        if (swapped && (a.empty() || a[0][0] != '-')) return;
        check(c, k, swapped, a);
    }});
    uint64_t ns = upto(tokens().size(), m);
    chk.spaces.push_back({"scripts", "every script of tokens, as one -q operand", ns, [](mc::Ctx &c, uint64_t i) {
        std::string s;
        for (int x : word(i, tokens().size())) s += tokens()[x];
        check(c, THERE, false, {"-q", s});
    }});
    uint64_t np = upto(pieces().size(), l);
    chk.spaces.push_back({"quoted", "every text within a string literal, a table name and a column name, between other statements", np * 3, [](mc::Ctx &c, uint64_t i) {
        std::string s;
        for (int x : word(i / 3, pieces().size())) s += pieces()[x];
        std::string t;
        if (i % 3 == 0) t = "INSERT INTO `L` (`S`) VALUES ('q" + s + "')";
        else if (s.find('`') != std::string::npos) return;
        else if (i % 3 == 1) t = "CREATE TABLE `q" + s + "` (`A` SHORT NOT NULL PRIMARY KEY `A`)";
        else t = "ALTER TABLE `T` ADD `q" + s + "` SHORT";
        check(c, THERE, false, {"-q", "INSERT INTO `L` (`S`) VALUES ('before');" + t + "; INSERT INTO `L` (`S`) VALUES ('after')\nDELETE FROM `U`;"});
    }});
    static const std::vector<std::string> names = {"a", "Binary.a", "with space", "\xc3\xa9t\xc3\xa9", "Tab.T", "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgg", "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffggg", "one", "x;y", "_x"};
    static const std::vector<int> sizes = {1, 2, 511, 512, 513, 4095, 4096, 4097, 8192, 65536, 1000000};
    chk.spaces.push_back({"streams", "every stream name x size, alone and twice", names.size() * sizes.size() * 2, [](mc::Ctx &c, uint64_t i) {
        auto &nm = names[i / 2 % names.size()];
        int sz = sizes[i / 2 / names.size()];
        std::string d = c.scratch + "/d";
        std::string f = c.scratch + "/data.bin", b;
        for (int k = 0; k < sz; k++) b += (char)(k * 31 + (k >> 7));
        writefile(f, b);
        Args a = {"-a", nm, f};
        if (i & 1) { a.push_back("-a"); a.push_back(nm == "a" ? "b" : "a"); a.push_back("g.bin"); }
        check(c, THERE, false, a);
        if (filesnap(c, d + "/p.msi").streams[nm] != b && filesnap(c, d + "/p.msi").streams.count(nm) && nm != "one") c.fail("stream bytes", nm + fmt(" of %d bytes", sz));
        unlink(f.c_str());
    }});
    // every system call of a run, failing or cut short
    struct Job { bool there; std::vector<std::string> args; toolfault::Out clean; std::string snap; };
    static std::vector<Job> jobs = {{true, {"-q", "INSERT INTO `T` (`K`,`S`) VALUES (70,'new')"}, {}, ""}, {true, {"-i", "repl.idt"}, {}, ""}, {true, {"-a", "added", "f.bin"}, {}, ""}, {true, {"-s", "name", "author", "x64;1033", "{uuid}"}, {}, ""},
        {false, {"-q", "CREATE TABLE `N` (`A` CHAR(8) NOT NULL PRIMARY KEY `A`); INSERT INTO `N` (`A`) VALUES ('a')"}, {}, ""}, {false, {"-i", "good.idt", "repl.idt", "-a", "added", "f.bin", "-s", "name"}, {}, ""}};
    static std::string pack;
    static std::vector<std::pair<int, toolfault::Point>> points;
    static auto seen = [](const std::string &p) -> std::string {
        struct stat st;
        if (stat(p.c_str(), &st)) return "absent";
        Db db = msi::open(p, LIBMSI_DB_FLAGS_READONLY);
        if (!db) return "unreadable";
        std::string t = str(content::snap(db));
        for (size_t a; (a = t.find('{')) != std::string::npos;) { size_t e = t.find('}', a); if (e == std::string::npos) break; t.replace(a, e - a + 1, "<uuid>"); }
        return t;
    };
    static auto lay = [](const Job &j, const std::string &d) { mkdir(d.c_str(), 0700); wipe(d); inputs(d); if (j.there) writefile(d + "/p.msi", pack); };
    static auto command = [](const Job &j) { std::vector<std::string> v = {bin("msibuild"), "p.msi"}; v.insert(v.end(), j.args.begin(), j.args.end()); return v; };
    static std::string nothing;         // a new package without any edit
    chk.setup = [&chk](bool) {
        const char *b = getenv("MC_SCRATCH");
        std::string d = (b ? std::string(b) : "/tmp") + "/c21";
        mkdir(d.c_str(), 0700);
        wipe(d);
        {
            Db db = msi::open(d + "/p.msi", LIBMSI_DB_FLAGS_CREATE);
            fill(db, d);
            commit(db);
        }
        pack = readfile(d + "/p.msi").value_or("");
        wipe(d);
        { Db db = msi::open(d + "/n.msi", LIBMSI_DB_FLAGS_CREATE); fresh(db); commit(db); }
        nothing = seen(d + "/n.msi");
        for (size_t i = 0; i < jobs.size(); i++) {
            lay(jobs[i], d);
            std::vector<ptr::Ev> evs;
            jobs[i].clean = toolfault::run(command(jobs[i]), d, d + "-io", {}, &evs);
            jobs[i].snap = seen(d + "/p.msi");
            for (auto &p : toolfault::points(evs)) points.push_back({(int)i, p});
        }
        wipe(d);
        rmdir(d.c_str());
        chk.spaces.back().count = points.size();
    };
    chk.spaces.push_back({"faults", "every system call of several runs on the package, the new file and the inputs: failing, failing from there on, cut short", 1, [](mc::Ctx &c, uint64_t i) {
        auto &j = jobs[points[i].first];
        auto &p = points[i].second;
        std::string d = c.scratch + "/d";
        lay(j, d);
        auto v = command(j);
        c.step(shown(v));
        c.step(p.where + fmt(" (call %ld, %ld)", p.plan.at, p.plan.arg));
        if (j.clean.status) c.fail("refused", shown(v) + " " + j.clean.err);
        Out o = toolfault::run(v, d, c.scratch + "/io", p.plan);
        std::string what = shown(v) + "; " + p.where;
        if (o.hang) c.fail("does not end", what);
        if (o.crash) c.fail("dies", what + fmt(": signal %d; ", o.status - 128) + o.err.substr(0, 300));
        std::string now = seen(d + "/p.msi");
        if (p.partial && o.status) c.fail("partial transfer refused", what + " " + o.err);
        if (!o.status && now != j.snap) c.fail("other content", what + "\n" + now + "\nshould be\n" + j.snap);
        if (o.status && o.err.empty()) c.fail("failure without message", what);
        if (o.status && now != j.snap) {
            // a failed run leaves the file as it was; a new package may be there, empty
            if (j.there ? readfile(d + "/p.msi") != pack : now != "absent" && now != nothing) c.fail("failed run touched the file", what + " " + o.err + "\n" + now);
        }
        auto t = tree(d);
        for (auto &f : t) if (f.first != "p.msi" && f.first.rfind(".gsf-save", 0) &&  f.first.find(".idt") == std::string::npos && f.first.find(".bin") == std::string::npos && f.first != "sub/" && p.where.find("unlink") == std::string::npos && !p.plan.persistent) c.fail("file left behind", what + ": " + f.first);
        c.state(what + fmt(" %d", o.status));
        if (o.status) c.nontrivial();
    }});
    return mc::run(chk, argc, argv);
}
