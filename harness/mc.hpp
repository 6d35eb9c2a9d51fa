// A small explicit-state / bounded-exhaustive explorer.
//
// A check registers spaces.  A space is a finite, numbered set of executions
// (all operation sequences up to a depth, all inputs of a bounded grammar, all
// crash points of a history, ...).  The driver runs EVERY number of every
// space, spread over worker processes; a worker that dies or hangs is a
// finding of the execution it was running, is replaced, and the exploration
// goes on.  Every failing execution is re-run alone before it is reported.
#pragma once
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {

inline std::string fmt(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    char *s = nullptr;
    if (vasprintf(&s, f, ap) < 0) abort();
    va_end(ap);
    std::string r(s);
    free(s);
    return r;
}

inline uint64_t hash64(const std::string &s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
    return h ? h : 1;
}

inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}

constexpr size_t TRACE_MAX = 8192, SIG_MAX = 400, MSG_MAX = 6000;
constexpr int MAX_WORKERS = 64, MAX_FAIL = 400;
constexpr size_t SET_BITS = 22;

struct FailRec { int space; uint64_t idx; char sig[SIG_MAX]; char msg[MSG_MAX]; };
struct Slot { std::atomic<uint64_t> idx; std::atomic<uint64_t> start_ms; char trace[TRACE_MAX]; };
struct Shared {
    std::atomic<uint64_t> next, done, states, transitions, execs, nontrivial, nfail, nfailing, skipped, overflow;
    std::atomic<int> lock;
    std::atomic<int> stop;
    std::atomic<uint64_t> counters[64];
    Slot slot[MAX_WORKERS];
    FailRec fail[MAX_FAIL];
    std::atomic<uint64_t> set[1u << SET_BITS];
};

struct Failure { std::string sig, msg; };

struct Ctx {
    Shared *sh; Slot *slot; int worker; std::string scratch; bool replaying = false; bool thorough = false;
    std::string trace;
    void begin() { trace.clear(); slot->trace[0] = 0; }
    // what this execution has done so far; survives a crash of the worker
    void step(const std::string &s) {
        sh->transitions.fetch_add(1, std::memory_order_relaxed);
        size_t o = trace.size();
        trace += s; trace += '\n';
        if (trace.size() < TRACE_MAX) memcpy(slot->trace + o, trace.c_str() + o, trace.size() - o + 1);
        if (replaying) { fprintf(stdout, "  %s\n", s.c_str()); fflush(stdout); }
    }
    // a canonical model state reached; counted when new
    void state(const std::string &canon) {
        uint64_t h = hash64(canon), m = (1u << SET_BITS) - 1;
        for (uint64_t i = h & m, n = 0; n < 256; i = (i + 1) & m, n++) {
            uint64_t cur = sh->set[i].load(std::memory_order_relaxed);
            if (cur == h) return;
            if (cur == 0) {
                uint64_t z = 0;
                if (sh->set[i].compare_exchange_strong(z, h)) { sh->states++; return; }
                if (z == h) return;
            }
        }
        // table full: a lower bound stays a lower bound
    }
    void nontrivial() { sh->nontrivial.fetch_add(1, std::memory_order_relaxed); }
    void count(int c, uint64_t n = 1) { sh->counters[c].fetch_add(n, std::memory_order_relaxed); }
    // The execution breaks the property.  sig: what fails, stable across runs.
    [[noreturn]] void fail(const std::string &sig, const std::string &msg) { throw Failure{sig, msg}; }
};

struct Space {
    std::string name, what;
    uint64_t count;
    std::function<void(Ctx &, uint64_t)> fn;
    unsigned timeout_s = 25;
};

struct Check {
    std::string property, technique, level = "model_checking", rule, bounds;
    std::vector<Space> spaces;
    std::map<int, std::string> counter_names;
    std::vector<std::string> notes;
    // runs in the parent, before the workers are forked
    std::function<void(bool thorough)> setup;
};

inline uint64_t now_ms() {
    using namespace std::chrono;
    return duration_cast<milliseconds>(steady_clock::now().time_since_epoch()).count();
}

struct Opts { std::string tier = "quick", evidence, known, replaydir, scratch; int jobs = 8; std::string replay; std::string only; };

struct Known { std::string property, sig, what; };
inline std::vector<Known> load_known(const std::string &path) {
    // one finding per line:  open<TAB>property<TAB>signature<TAB>what   (lines starting with '#' or "fixed:" are skipped)
    std::vector<Known> v;
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l)) {
        if (l.rfind("open\t", 0) != 0) continue;
        std::vector<std::string> c;
        std::stringstream ss(l);
        std::string t;
        while (std::getline(ss, t, '\t')) c.push_back(t);
        if (c.size() >= 4) v.push_back({c[1], c[2], c[3]});
    }
    return v;
}

inline void put(char *dst, size_t n, const std::string &s) {
    size_t k = std::min(n - 1, s.size());
    memcpy(dst, s.data(), k);
    dst[k] = 0;
}

// One record per space and signature (the execution with the smallest number), however often it fails.
inline void record_fail(Shared *sh, int space, uint64_t idx, const std::string &sig, const std::string &msg) {
    int z = 0;
    uint64_t t0 = 0;
    while (!sh->lock.compare_exchange_weak(z, 1)) {
        z = 0;
        struct timespec t = {0, 200000};
        nanosleep(&t, 0);
        if (++t0 > 20000) break;             // its owner was killed
    }
    uint64_t n = std::min<uint64_t>(sh->nfail, MAX_FAIL), k = n;
    char key[SIG_MAX];
    put(key, SIG_MAX, sig);
    for (uint64_t i = 0; i < n; i++) if (sh->fail[i].space == space && !strcmp(sh->fail[i].sig, key)) k = i;
    sh->nfailing++;
    if (k < n ? idx < sh->fail[k].idx : n < MAX_FAIL) {
        FailRec &f = sh->fail[k];
        f.space = space; f.idx = idx;
        put(f.sig, SIG_MAX, sig);
        put(f.msg, MSG_MAX, msg);
        if (k == n) sh->nfail = n + 1;
    } else if (k == n) sh->overflow = 1;
    sh->lock = 0;
}

inline std::string read_tail(const std::string &path, size_t n) {
    std::ifstream f(path, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    return s;
}

// The part of a sanitizer report that identifies the fault.
inline std::string fault_of(const std::string &log) {
    std::string kind;
    std::istringstream is(log);
    std::string l;
    std::string where;
    while (std::getline(is, l)) {
        size_t p;
        if (kind.empty() && (p = l.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
            kind = l.substr(p + 25);
            kind = kind.substr(0, kind.find(' '));
        }
        if (kind.empty() && (p = l.find("runtime error: ")) != std::string::npos) kind = "ubsan: " + l.substr(p + 15);
        if (where.empty() && (p = l.find(" in ")) != std::string::npos && l.find("    #") != std::string::npos &&
            l.find("/libmsi/") != std::string::npos) {
            where = l.substr(p + 4);
            where = where.substr(0, where.find(' '));
        }
    }
    if (kind.empty()) kind = "abnormal exit";
    return kind + (where.empty() ? "" : " in " + where);
}

inline void worker_main(const Check &chk, int sp, Shared *sh, int w, const Opts &o, uint64_t chunk) {
    Ctx c{sh, &sh->slot[w], w, o.scratch + "/w" + std::to_string(w)};
    c.thorough = o.tier == "thorough";
    mkdir(c.scratch.c_str(), 0700);
    if (chdir(c.scratch.c_str())) _exit(97);         // what the code writes into its current directory stays in scratch
    std::string err = o.scratch + "/err" + std::to_string(w);
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    dup2(fd, 2); dup2(fd, 1); close(fd);
    const Space &s = chk.spaces[sp];
    for (;;) {
        uint64_t b = sh->next.fetch_add(chunk);
        if (b >= s.count) break;
        for (uint64_t i = b; i < b + chunk && i < s.count; i++) {
            if (sh->stop) _exit(0);
            c.begin();
            if (lseek(2, 0, SEEK_END) > (1 << 20)) { ftruncate(2, 0); }
            c.slot->start_ms = now_ms();
            c.slot->idx = i + 1;
            try {
                s.fn(c, i);
            } catch (Failure &f) {
                record_fail(sh, sp, i, s.name + "/" + f.sig, f.msg + "\ntrace:\n" + c.trace);
            }
            sh->execs++;
            c.slot->idx = 0;
        }
    }
    _exit(0);
}

struct Result { bool ok; std::string sig, msg; };

// One execution, alone in a fresh process.
inline Result run_one(const Check &chk, int sp, uint64_t idx, Shared *sh, const Opts &o, bool verbose) {
    std::string err = o.scratch + "/err_replay";
    unlink(err.c_str());
    Slot *slot = &sh->slot[MAX_WORKERS - 1];
    slot->idx = 0;
    int pfd[2];
    if (pipe(pfd)) abort();
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        close(pfd[0]);
        Ctx c{sh, slot, MAX_WORKERS - 1, o.scratch + "/wr"};
        c.replaying = verbose;
        c.thorough = o.tier == "thorough";
        mkdir(c.scratch.c_str(), 0700);
        if (chdir(c.scratch.c_str())) _exit(97);
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
        dup2(fd, 2);
        if (!verbose) dup2(fd, 1);
        alarm(chk.spaces[sp].timeout_s + 5);
        c.begin();
        std::string out = "ok";
        try {
            chk.spaces[sp].fn(c, idx);
        } catch (Failure &f) {
            out = "F" + chk.spaces[sp].name + "/" + f.sig + "\n" + f.msg + "\ntrace:\n" + c.trace;
        }
        if (write(pfd[1], out.data(), out.size()) < 0) _exit(9);
        _exit(0);
    }
    close(pfd[1]);
    std::string got;
    char buf[4096];
    ssize_t n;
    while ((n = read(pfd[0], buf, sizeof buf)) > 0) got.append(buf, n);
    close(pfd[0]);
    int st;
    waitpid(p, &st, 0);
    if (got == "ok" && WIFEXITED(st) && WEXITSTATUS(st) == 0) return {true, "", ""};
    if (!got.empty() && got[0] == 'F') {
        size_t e = got.find('\n');
        return {false, got.substr(1, e - 1), got.substr(e + 1)};
    }
    std::string log = read_tail(err, 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
        return {false, chk.spaces[sp].name + "/hang", std::string("does not terminate\ntrace:\n") + slot->trace};
    std::string head = log.substr(0, 3000);
    return {false, chk.spaces[sp].name + "/crash: " + fault_of(log),
            fmt("process died (wait status %d)\n%s\ntrace:\n%s", st, head.c_str(), slot->trace)};
}

inline void rmtree(const std::string &p) {
    if (p.empty() || p[0] != '/' || p.size() < 6) return;
    pid_t pid = fork();
    if (pid == 0) { execl("/bin/rm", "rm", "-rf", p.c_str(), (char *)0); _exit(1); }
    int st;
    waitpid(pid, &st, 0);
}

inline int run_driver(Check &chk, int argc, char **argv) {
    Opts o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") o.tier = val();
        else if (a == "--evidence") o.evidence = val();
        else if (a == "--known") o.known = val();
        else if (a == "--replaydir") o.replaydir = val();
        else if (a == "--jobs") o.jobs = atoi(val().c_str());
        else if (a == "--replay") o.replay = val();      // SPACE:INDEX
        else if (a == "--only") o.only = val();
    }
    if (o.jobs > MAX_WORKERS - 2) o.jobs = MAX_WORKERS - 2;
    const char *base = getenv("VERIF_SCRATCH");
    std::string tmpl = std::string(base ? base : (access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp")) + "/mc-XXXXXX";
    std::vector<char> tb(tmpl.begin(), tmpl.end());
    tb.push_back(0);
    if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 3; }
    o.scratch = tb.data();
    setenv("MC_SCRATCH", o.scratch.c_str(), 1);
    auto t0 = now_ms();
    if (chk.setup) {
        try { chk.setup(o.tier == "thorough"); }
        catch (Failure &f) {
            fprintf(stderr, "setup: %s\n%s\n", f.sig.c_str(), f.msg.c_str());
            rmtree(o.scratch);
            _exit(96);
        }
    }
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }

    if (!o.replay.empty()) {
        std::string sp = o.replay.substr(0, o.replay.rfind(':'));
        uint64_t idx = strtoull(o.replay.c_str() + o.replay.rfind(':') + 1, 0, 10);
        int rc = 3;
        for (size_t i = 0; i < chk.spaces.size(); i++)
            if (chk.spaces[i].name == sp) {
                printf("replaying %s execution %llu\n", sp.c_str(), (unsigned long long)idx);
                Result r = run_one(chk, i, idx, sh, o, true);
                printf("%s %s\n%s\n", r.ok ? "HELD" : "FAILED", r.sig.c_str(), r.msg.c_str());
                rc = r.ok ? 0 : 1;
            }
        rmtree(o.scratch);
        return rc;
    }

    // a run that takes far longer than it should (something hangs) still reports what it found
    const uint64_t limit_ms = o.tier == "thorough" ? 14400000 : 720000;
    for (int i = 1; i <= 12; i++) unlink((o.replaydir + "/" + chk.property + "-" + std::to_string(i) + ".txt").c_str());
    std::vector<std::string> samples;
    std::string per_space;
    uint64_t total = 0;
    for (size_t s = 0; s < chk.spaces.size(); s++) {
        Space &sp = chk.spaces[s];
        if (now_ms() - t0 > limit_ms) { sh->skipped += sp.count; continue; }
        if (!o.only.empty() && sp.name.find(o.only) == std::string::npos) continue;
        auto ts = now_ms();
        sh->next = 0;
        uint64_t before = sh->execs, fb = sh->nfailing, trb = sh->transitions;
        uint64_t chunk = std::max<uint64_t>(1, std::min<uint64_t>(64, sp.count / (o.jobs * 16 + 1)));
        std::map<pid_t, int> pids;
        auto spawn = [&](int w) {
            sh->slot[w].idx = 0;
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) { worker_main(chk, s, sh, w, o, chunk); _exit(0); }
            pids[p] = w;
        };
        int nw = (int)std::min<uint64_t>(o.jobs, sp.count);
        for (int w = 0; w < nw; w++) spawn(w);
        int crashes = 0, hangs = 0;
        while (!pids.empty()) {
            int st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p == 0) {
                struct timespec t = {0, 20000000};
                nanosleep(&t, 0);
                uint64_t n = now_ms();
                if (n - t0 > limit_ms && !sh->stop) { sh->stop = 1; printf("note: time limit reached in %s\n", sp.name.c_str()); }
                for (auto &kv : pids) {
                    Slot &sl = sh->slot[kv.second];
                    if (sl.idx && n > sl.start_ms && n - sl.start_ms > sp.timeout_s * 1000ull) kill(kv.first, SIGXCPU);
                }
                continue;
            }
            if (p < 0) break;
            auto it = pids.find(p);
            if (it == pids.end()) continue;
            int w = it->second;
            pids.erase(it);
            uint64_t cur = sh->slot[w].idx;
            if (cur) {
                std::string log = read_tail(o.scratch + "/err" + std::to_string(w), 0);
                size_t at = log.find("ERROR: AddressSanitizer");
                if (at == std::string::npos) at = log.find("runtime error:");
                std::string head = at == std::string::npos ? (log.size() > 2500 ? log.substr(log.size() - 2500) : log)
                                                           : log.substr(at > 200 ? at - 200 : 0, 2500);
                bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU;
                record_fail(sh, s, cur - 1, sp.name + (hang ? "/hang" : "/crash: " + fault_of(head)),
                            fmt("process died (wait status %d)\n%s\ntrace:\n%s", st, head.c_str(), sh->slot[w].trace));
                sh->execs++;
                crashes++;
                if (hang && ++hangs >= 4) crashes = 100;
                // the rest of the chunk that died with the worker
                uint64_t b = (cur - 1) / chunk * chunk;
                uint64_t e = std::min<uint64_t>(b + chunk, sp.count);
                for (uint64_t i = cur; i < e; i++) {
                    if (crashes > 60 || hang) { sh->skipped++; continue; }
                    Result r = run_one(chk, s, i, sh, o, false);
                    sh->execs++;
                    if (!r.ok) { record_fail(sh, s, i, r.sig, r.msg); crashes++; }
                }
                if (crashes <= 60) spawn(w);
                else sh->stop = 1;
            }
        }
        if (sh->stop) {
            // too many crashing executions: what was found is reported, nothing more is claimed
            sh->skipped += sp.count - std::min<uint64_t>(sp.count, sh->execs - before);
            sh->stop = 0;
        }
        uint64_t n = sh->execs - before;
        total += n;
        per_space += fmt("%s{\"space\":%s,\"what\":%s,\"size\":%llu,\"executed\":%llu,\"operations\":%llu,\"failing\":%llu,\"wall_s\":%.1f}",
                         per_space.empty() ? "" : ",", jstr(sp.name).c_str(), jstr(sp.what).c_str(),
                         (unsigned long long)sp.count, (unsigned long long)n,
                         (unsigned long long)(sh->transitions - trb), (unsigned long long)(sh->nfailing - fb), (now_ms() - ts) / 1000.0);
        printf("space %-28s %10llu executions, %llu failing, %.1fs\n", sp.name.c_str(), (unsigned long long)n,
               (unsigned long long)(sh->nfailing - fb), (now_ms() - ts) / 1000.0);
        fflush(stdout);
        // three written-out executions, so that a reader sees what was run
        uint64_t spent = now_ms() - ts;
        if (samples.size() < 12)
            for (uint64_t k : {sp.count / 3, sp.count - 1}) {
                if (sp.count == 0) break;
                if (n && (spent * std::min<uint64_t>(o.jobs, n)) / n > 2000) break;     // slow executions are not run once more
                Slot *slot = &sh->slot[MAX_WORKERS - 1];
                uint64_t tb2 = sh->transitions, nb = sh->nontrivial;
                run_one(chk, s, k, sh, o, false);
                sh->transitions = tb2;
                sh->nontrivial = nb;
                std::string t(slot->trace, strnlen(slot->trace, TRACE_MAX));
                if (t.size() > 1200) t = t.substr(0, 1200) + "...";
                samples.push_back(sp.name + " #" + std::to_string(k) + ": " + t);
            }
    }

    auto known = load_known(o.known);
    std::map<std::string, int> bysig;
    int violations = 0, unconfirmed = 0;
    std::set<std::string> kf;
    uint64_t nf = std::min<uint64_t>(sh->nfail, MAX_FAIL);
    std::vector<int> order;
    for (uint64_t i = 0; i < nf; i++) order.push_back(i);
    std::sort(order.begin(), order.end(), [&](int a, int b) {
        return std::make_pair(sh->fail[a].space, sh->fail[a].idx) < std::make_pair(sh->fail[b].space, sh->fail[b].idx);
    });
    std::string vlist;
    for (int i : order) {
        FailRec &f = sh->fail[i];
        std::string sig = f.sig;
        bool isknown = false;
        for (auto &k : known)
            if (k.property == chk.property && sig == k.sig) {
                isknown = true;
                if (kf.insert(k.sig).second) printf("KNOWN-FINDING: property=%s %s\n", k.property.c_str(), k.what.c_str());
            }
        if (isknown) continue;
        if (bysig[sig]++ >= 1) continue;      // one replay artefact per distinct signature
        if (violations >= 12) continue;
        std::string msg = f.msg;
        Result r = run_one(chk, f.space, f.idx, sh, o, false);
        if (r.ok) {
            // fails only after other executions in the same process: still the real code, but say so
            unconfirmed++;
            msg = "NOTE: re-run alone, this execution holds; it failed in a process that had run others before it\n" + msg;
        } else if (r.sig != sig) {
            bool rk = false;
            for (auto &k : known) if (k.property == chk.property && r.sig == k.sig) rk = true;
            if (rk) continue;
            msg += "\n(re-run alone: " + r.sig + ")";
        }
        violations++;
        std::string path = o.replaydir + "/" + chk.property + "-" + std::to_string(violations) + ".txt";
        std::ofstream out(path);
        out << "property " << chk.property << "\nsignature " << sig << "\nexecution " << chk.spaces[f.space].name << ":" << f.idx
            << "\nreplay: python3 /verif/check.py " << chk.property << " " << o.tier << " --replay " << chk.spaces[f.space].name << ":" << f.idx
            << "\n\n" << msg << "\n";
        out.close();
        printf("VIOLATION property=%s replay=%s\n  %s\n", chk.property.c_str(), path.c_str(), sig.c_str());
        vlist += (vlist.empty() ? "" : ",") + jstr(sig);
    }
    if (sh->skipped.load())
        printf("note: %llu executions not run after repeated crashes\n", (unsigned long long)sh->skipped.load());
    double wall = (now_ms() - t0) / 1000.0;
    if (!o.evidence.empty()) {
        std::ofstream e(o.evidence);
        const char *seed = getenv("VERIF_SEED");
        e << "{\n \"property\": " << jstr(chk.property) << ",\n \"tier\": " << jstr(o.tier) << ",\n \"seed\": " << (seed ? atoi(seed) : 1)
          << ",\n \"level\": " << jstr(chk.level) << ",\n \"wall_s\": " << fmt("%.2f", wall) << ",\n \"violations\": " << violations
          << ",\n \"coverage\": {\n  \"states\": " << sh->states << ",\n  \"transitions\": " << sh->transitions
          << (chk.level == "model_checking" ? ",\n  \"traces_validated_against_impl\": " : ",\n  \"evaluations\": ") << total
          << ",\n  \"distinct_nontrivial\": " << sh->nontrivial
          << ",\n  \"exhaustive\": " << (sh->skipped.load() ? "false" : "true")
          << ",\n  \"rule\": " << jstr(chk.rule) << ",\n  \"bounds\": " << jstr(chk.bounds)
          << ",\n  \"technique\": " << jstr(chk.technique)
          << ",\n  \"spaces\": [" << per_space << "]";
        for (auto &kv : chk.counter_names)
            e << ",\n  " << jstr(kv.second) << ": " << sh->counters[kv.first];
        e << ",\n  \"known_findings_seen\": " << kf.size() << ",\n  \"violation_signatures\": [" << vlist << "]";
        e << ",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) e << (i ? ",\n   " : "\n   ") << jstr(samples[i]);
        e << "]\n }\n}\n";
    }
    printf("%s %s: %llu executions, %llu states, %llu operations, %d violation(s), %.1fs\n", chk.property.c_str(), o.tier.c_str(),
           (unsigned long long)total, (unsigned long long)sh->states.load(), (unsigned long long)sh->transitions.load(), violations, wall);
    rmtree(o.scratch);
    return violations ? 1 : 0;
}

// The driver itself runs code under test when it prepares its spaces: if that
// dies or fails, the check still answers, with what it saw as the artefact.
inline int run(Check &chk, int argc, char **argv) {
    std::string replaydir, known;
    for (int i = 1; i + 1 < argc; i++) {
        if (!strcmp(argv[i], "--replaydir")) replaydir = argv[i + 1];
        if (!strcmp(argv[i], "--known")) known = argv[i + 1];
    }
    int *rc = (int *)mmap(nullptr, sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *rc = -1;
    std::string errf = replaydir.empty() ? "" : replaydir + "/." + chk.property + ".err";
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        if (!errf.empty()) {
            int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
            if (fd >= 0) { dup2(fd, 2); close(fd); }
        }
        int r = run_driver(chk, argc, argv);
        *rc = r;
        fflush(stdout);
        _exit(r);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    std::string log = errf.empty() ? "" : read_tail(errf, 0);
    if (!errf.empty()) unlink(errf.c_str());
    if (*rc >= 0) { if (*rc > 1) fputs(log.c_str(), stderr); return *rc; }
    std::string path = replaydir + "/" + chk.property + "-setup.txt";
    std::ofstream out(path);
    out << "property " << chk.property << "\nthe executions that prepare the exploration fail (wait status " << st << ")\n\n" << log.substr(0, 20000) << "\n";
    out.close();
    printf("VIOLATION property=%s replay=%s\n  preparing the exploration fails: %s\n", chk.property.c_str(), path.c_str(), fault_of(log).c_str());
    return 1;
}

// All words over an alphabet of size k with length in [lo, hi], numbered.
struct Words {
    uint64_t k; int lo, hi;
    uint64_t pow(int n) const { uint64_t r = 1; while (n-- > 0) r *= k; return r; }
    uint64_t count() const { uint64_t c = 0; for (int n = lo; n <= hi; n++) c += pow(n); return c; }
    std::vector<int> at(uint64_t i) const {
        int n = lo;
        while (i >= pow(n)) { i -= pow(n); n++; }
        std::vector<int> w(n);
        for (int j = n - 1; j >= 0; j--) { w[j] = i % k; i /= k; }
        return w;
    }
};
// Mixed-radix numbering of a product.
struct Digits {
    std::vector<uint64_t> radix;
    uint64_t count() const { uint64_t c = 1; for (auto r : radix) c *= r; return c; }
    std::vector<uint64_t> at(uint64_t i) const {
        std::vector<uint64_t> d(radix.size());
        for (int j = (int)radix.size() - 1; j >= 0; j--) { d[j] = i % radix[j]; i /= radix[j]; }
        return d;
    }
};

} // namespace mc
