// Runs a child under a system-call monitor that can stop it dead or make a call
// fail at a chosen point.  Only calls on files below one directory count.
#pragma once
#include "mc.hpp"
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <linux/limits.h>

namespace ptr {
using mc::fmt;

enum Kind { OPEN, READ, WRITE, CLOSE, RENAME, UNLINK, MODE, TRUNC, SYNC, MKDIR, SEEK, LINK };
inline const char *kname(int k) { static const char *n[] = {"open", "read", "write", "close", "rename", "unlink", "mode", "truncate", "sync", "mkdir", "seek", "link"}; return n[k]; }
struct Ev { Kind kind; std::string what; long len; };

struct Plan {
    // which event (0-based among all events of the run) to act on; -1: none
    long at = -1;
    enum What { NONE, KILL, TORN, FAIL, SHORT } what = NONE;
    long arg = 0;            // TORN/SHORT: bytes let through; FAIL: errno
    bool persistent = false; // FAIL: every later event of a kind in `kinds` fails too
    unsigned kinds = 0;      // bit mask of kinds for persistent failures
};
struct Outcome { bool killed_by_us = false; int status = 0; std::vector<Ev> events; bool reached = false; bool timeout = false; };

inline std::string peekstr(pid_t p, unsigned long a) {
    std::string s;
    for (;;) {
        errno = 0;
        long w = ptrace(PTRACE_PEEKDATA, p, (void *)a, 0);
        if (errno) return s;
        for (int i = 0; i < 8; i++) { char c = (char)(w >> (8 * i)); if (!c) return s; s += c; if (s.size() > 4096) return s; }
        a += 8;
    }
}

// start() runs in the child.  dir: the directory whose files count.
inline Outcome run(const std::string &dir, const std::function<void()> &start, const Plan &plan, bool also_stdout = false, unsigned timeout_s = 60) {
    Outcome out;
    fflush(stdout);
    pid_t root = fork();
    if (root == 0) {
        if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(97);
        raise(SIGSTOP);
        start();
        _exit(0);
    }
    int st;
    if (waitpid(root, &st, 0) != root || !WIFSTOPPED(st)) { out.status = st; return out; }
    ptrace(PTRACE_SETOPTIONS, root, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC);
    ptrace(PTRACE_SYSCALL, root, 0, 0);
    struct Proc { bool in = false; int kind = -1; std::string what; bool inject = false; long err = 0; bool kill_after = false; long restore = -1; std::map<int, std::string> *fds; };
    std::map<pid_t, Proc> procs;
    std::map<int, std::string> *fds0 = new std::map<int, std::string>;
    std::vector<std::map<int, std::string> *> owned{fds0};
    if (also_stdout) (*fds0)[1] = "<stdout>";
    procs[root].fds = fds0;
    std::map<int, std::string> cwd;
    uint64_t t0 = mc::now_ms();
    bool dead = false;
    auto inside = [&](const std::string &p) { return p.rfind(dir + "/", 0) == 0; };
    auto cwd_of = [&](pid_t p) { char b[PATH_MAX]; ssize_t n = readlink(fmt("/proc/%d/cwd", p).c_str(), b, sizeof b - 1); return n > 0 ? std::string(b, n) : std::string("/"); };
    auto abs = [&](pid_t p, const std::string &s, long dfd) {
        if (!s.empty() && s[0] == '/') return s;
        if (dfd >= 0 && dfd < 100000 && procs[p].fds->count((int)dfd)) return (*procs[p].fds)[(int)dfd] + "/" + s;
        return cwd_of(p) + "/" + s;
    };
    auto killall = [&] { for (auto &k : procs) kill(k.first, SIGKILL); };
    while (!procs.empty()) {
        pid_t p = waitpid(-1, &st, __WALL);
        if (p < 0) { if (errno == EINTR) continue; break; }
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            if (p == root) { out.status = st; }
            procs.erase(p);
            continue;
        }
        if (!WIFSTOPPED(st)) continue;
        if (mc::now_ms() - t0 > timeout_s * 1000ull && !out.timeout) { out.timeout = true; killall(); continue; }
        int sig = WSTOPSIG(st);
        if (!procs.count(p)) { procs[p]; if (!procs[p].fds) procs[p].fds = fds0; }
        Proc &pr = procs[p];
        if (st >> 8 == (SIGTRAP | (PTRACE_EVENT_FORK << 8)) || st >> 8 == (SIGTRAP | (PTRACE_EVENT_VFORK << 8)) || st >> 8 == (SIGTRAP | (PTRACE_EVENT_CLONE << 8))) {
            unsigned long np = 0;
            ptrace(PTRACE_GETEVENTMSG, p, 0, &np);
            bool thread = st >> 8 == (SIGTRAP | (PTRACE_EVENT_CLONE << 8));
            auto *m = thread ? pr.fds : new std::map<int, std::string>(*pr.fds);
            if (!thread) owned.push_back(m);
            procs[(pid_t)np].fds = m;
            ptrace(PTRACE_SYSCALL, p, 0, 0);
            continue;
        }
        if (st >> 8 == (SIGTRAP | (PTRACE_EVENT_EXEC << 8))) { ptrace(PTRACE_SYSCALL, p, 0, 0); continue; }
        if (sig != (SIGTRAP | 0x80)) {
            // a new thread's first stop, or a real signal
            ptrace(PTRACE_SYSCALL, p, 0, sig == SIGSTOP || sig == SIGTRAP ? 0 : sig);
            continue;
        }
        struct user_regs_struct r;
        ptrace(PTRACE_GETREGS, p, 0, &r);
        if (!pr.in) {
            pr.in = true;
            pr.kind = -1;
            long nr = r.orig_rax;
            auto fdin = [&](long fd) { return pr.fds->count((int)fd) > 0; };
            std::string what;
            long len = 0;
            switch (nr) {
            case SYS_open: { std::string s = abs(p, peekstr(p, r.rdi), -1); if (inside(s)) pr.kind = OPEN, what = s; break; }
            case SYS_creat: { std::string s = abs(p, peekstr(p, r.rdi), -1); if (inside(s)) pr.kind = OPEN, what = s; break; }
            case SYS_openat: { std::string s = abs(p, peekstr(p, r.rsi), (int)r.rdi); if (inside(s)) pr.kind = OPEN, what = s; break; }
            case SYS_read: case SYS_pread64: case SYS_readv: if (fdin(r.rdi)) pr.kind = READ, what = (*pr.fds)[r.rdi], len = r.rdx; break;
            case SYS_write: case SYS_pwrite64: if (fdin(r.rdi)) pr.kind = WRITE, what = (*pr.fds)[r.rdi], len = r.rdx; break;
            case SYS_writev: case SYS_copy_file_range: case SYS_sendfile: if (fdin(r.rdi)) pr.kind = WRITE, what = (*pr.fds)[r.rdi]; break;
            case SYS_close: if (fdin(r.rdi)) pr.kind = CLOSE, what = (*pr.fds)[r.rdi]; break;
            case SYS_rename: { std::string s = abs(p, peekstr(p, r.rdi), -1), t = abs(p, peekstr(p, r.rsi), -1); if (inside(s) || inside(t)) pr.kind = RENAME, what = s + " -> " + t; break; }
            case SYS_renameat: case SYS_renameat2: { std::string s = abs(p, peekstr(p, r.rsi), (int)r.rdi), t = abs(p, peekstr(p, r.r10), (int)r.rdx); if (inside(s) || inside(t)) pr.kind = RENAME, what = s + " -> " + t; break; }
            case SYS_link: case SYS_symlink: { std::string t = abs(p, peekstr(p, r.rsi), -1); if (inside(t)) pr.kind = LINK, what = t; break; }
            case SYS_unlink: case SYS_rmdir: { std::string s = abs(p, peekstr(p, r.rdi), -1); if (inside(s)) pr.kind = UNLINK, what = s; break; }
            case SYS_unlinkat: { std::string s = abs(p, peekstr(p, r.rsi), (int)r.rdi); if (inside(s)) pr.kind = UNLINK, what = s; break; }
            case SYS_chmod: case SYS_chown: case SYS_lchown: { std::string s = abs(p, peekstr(p, r.rdi), -1); if (inside(s)) pr.kind = MODE, what = s; break; }
            case SYS_fchmodat: case SYS_fchownat: case SYS_utimensat: { std::string s = abs(p, peekstr(p, r.rsi), (int)r.rdi); if (inside(s)) pr.kind = MODE, what = s; break; }
            case SYS_ftruncate: if (fdin(r.rdi)) pr.kind = TRUNC, what = (*pr.fds)[r.rdi]; break;
            case SYS_truncate: { std::string s = abs(p, peekstr(p, r.rdi), -1); if (inside(s)) pr.kind = TRUNC, what = s; break; }
            case SYS_fsync: case SYS_fdatasync: if (fdin(r.rdi)) pr.kind = SYNC, what = (*pr.fds)[r.rdi]; break;
            case SYS_mkdir: { std::string s = abs(p, peekstr(p, r.rdi), -1); if (inside(s)) pr.kind = MKDIR, what = s; break; }
            case SYS_mkdirat: { std::string s = abs(p, peekstr(p, r.rsi), (int)r.rdi); if (inside(s)) pr.kind = MKDIR, what = s; break; }
            case SYS_dup: case SYS_dup2: case SYS_dup3: break;
            }
            pr.what = what;
            pr.inject = false;
            pr.kill_after = false;
            pr.restore = -1;
            if (pr.kind >= 0) {
                long n = out.events.size();
                out.events.push_back({(Kind)pr.kind, what, len});
                bool here = n == plan.at;
                bool later = plan.persistent && plan.at >= 0 && n > plan.at && (plan.kinds >> pr.kind & 1);
                if (here) out.reached = true;
                if (here && plan.what == Plan::KILL) { out.killed_by_us = true; killall(); continue; }
                if (here && plan.what == Plan::TORN && pr.kind == WRITE) {
                    if (plan.arg < (long)r.rdx) { pr.restore = r.rdx; r.rdx = plan.arg; ptrace(PTRACE_SETREGS, p, 0, &r); }
                    pr.kill_after = true;
                } else if (here && plan.what == Plan::SHORT && (pr.kind == WRITE || pr.kind == READ)) {
                    if (plan.arg < (long)r.rdx) { pr.restore = r.rdx; r.rdx = plan.arg; ptrace(PTRACE_SETREGS, p, 0, &r); }
                } else if ((here || later) && plan.what == Plan::FAIL) {
                    // a failing close still closes
                    if (pr.kind != CLOSE) { r.orig_rax = (unsigned long)-1; ptrace(PTRACE_SETREGS, p, 0, &r); }
                    pr.inject = true;
                    pr.err = plan.arg;
                }
            }
        } else {
            pr.in = false;
            long nr = r.orig_rax, ret = r.rax;
            if (pr.inject) { r.rax = (unsigned long)-pr.err; ptrace(PTRACE_SETREGS, p, 0, &r); if (pr.kind == CLOSE) pr.fds->erase((int)r.rdi); }
            else {
                if (pr.restore >= 0) { r.rdx = pr.restore; ptrace(PTRACE_SETREGS, p, 0, &r); }
                if (pr.kill_after) { out.killed_by_us = true; killall(); continue; }
                if (ret >= 0) {
                    if (pr.kind == OPEN) (*pr.fds)[(int)ret] = pr.what;
                    else if (nr == SYS_openat || nr == SYS_open || nr == SYS_creat) pr.fds->erase((int)ret);
                    if (pr.kind == CLOSE || nr == SYS_close) pr.fds->erase((int)r.rdi);
                    if (nr == SYS_dup2 || nr == SYS_dup3) { if (pr.fds->count((int)r.rdi)) (*pr.fds)[(int)r.rsi] = (*pr.fds)[(int)r.rdi]; else pr.fds->erase((int)r.rsi); }
                    if (nr == SYS_dup && pr.fds->count((int)r.rdi)) (*pr.fds)[(int)ret] = (*pr.fds)[(int)r.rdi];
                    if (nr == SYS_fcntl && (r.rsi == 0 || r.rsi == 1030) && pr.fds->count((int)r.rdi)) (*pr.fds)[(int)ret] = (*pr.fds)[(int)r.rdi];
                }
            }
        }
        ptrace(PTRACE_SYSCALL, p, 0, 0);
    }
    (void)dead;
    for (auto *m : owned) delete m;
    return out;
}
} // namespace ptr
