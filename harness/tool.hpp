// Runs the built command line tools ($VERIF_TOOLS is the build directory) and collects what they did.
#pragma once
#include "content.hpp"
#include "msiread.hpp"
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/types.h>

namespace tool {
using namespace content;

struct Out { int status = 0; bool hang = false, crash = false; std::string out, err; };
inline std::string bin(const std::string &name) {
    const char *t = getenv("VERIF_TOOLS");
    return std::string(t ? t : "/repo/_build") + "/tools/" + (name == "wixl" || name == "wixl-heat" ? "wixl/" : "") + name;
}
// status: exit code, or 128+signal. Output goes to files beside the scratch directory, so a flood cannot block.
inline Out run(const std::vector<std::string> &argv, const std::string &cwd, const std::string &aux, double limit = 20,
               const std::vector<std::string> &env = {}, const std::string *in = nullptr, int uid = 0) {
    Out o;
    std::string fo = aux + ".out", fe = aux + ".err", fi = aux + ".in";
    if (in) writefile(fi, *in);
    std::vector<char *> av, ev;
    for (auto &a : argv) av.push_back((char *)a.c_str());
    av.push_back(nullptr);
    static const std::vector<std::string> base = {"PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C.UTF-8", "TZ=UTC", "HOME=/nonexistent", "G_SLICE=always-malloc", "GIO_USE_VFS=local"};
    std::vector<std::string> all = base;
    for (auto &e : env) { std::string k = e.substr(0, e.find('=') + 1); bool done = false; for (auto &b : all) if (b.compare(0, k.size(), k) == 0) { b = e; done = true; } if (!done) all.push_back(e); }
    for (auto &e : all) ev.push_back((char *)e.c_str());
    ev.push_back(nullptr);
    pid_t pid = vfork();      // a fork of a sanitized process is slow
    if (pid < 0) { o.status = -1; o.err = "fork"; return o; }
    if (pid == 0) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int i = ::open(in ? fi.c_str() : "/dev/null", O_RDONLY), x = ::open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666), y = ::open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
        dup2(i, 0); dup2(x, 1); dup2(y, 2);
        for (int f = 3; f < 256; f++) close(f);
        struct rlimit rl = {1u << 28, 1u << 28};
        setrlimit(RLIMIT_FSIZE, &rl);
        rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        if (chdir(cwd.c_str())) _exit(126);
        if (uid) { syscall(SYS_setgroups, 0, nullptr); if (syscall(SYS_setgid, uid) || syscall(SYS_setuid, uid)) _exit(126); }
        signal(SIGPIPE, SIG_DFL);
        execve(av[0], av.data(), ev.data());
        _exit(127);
    }
    setpgid(pid, pid);
    auto t0 = std::chrono::steady_clock::now();
    int st = 0;
    useconds_t nap = 200;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) {
            kill(-pid, SIGKILL);
            waitpid(pid, &st, 0);
            o.hang = true;
            break;
        }
        usleep(nap);
        if (nap < 2000) nap += 100;
    }
    kill(-pid, SIGKILL);
    o.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    o.crash = WIFSIGNALED(st) && !o.hang;
    o.out = readfile(fo).value_or("");
    o.err = readfile(fe).value_or("");
    unlink(fo.c_str());
    unlink(fe.c_str());
    if (in) unlink(fi.c_str());
    return o;
}
inline std::string shown(const std::vector<std::string> &argv) {
    std::string s;
    for (auto &a : argv) {
        if (!s.empty()) s += ' ';
        bool plain = !a.empty();
        for (char ch : a) if (!isalnum((unsigned char)ch) && !strchr("-_./=:,", ch)) plain = false;
        if (plain) { s += a; continue; }
        s += "'";
        for (char ch : a) { if (ch == '\n') s += "\\n"; else s += ch; }
        s += "'";
    }
    return s;
}
// what every tool run has to satisfy, whatever it was asked
inline void sane(mc::Ctx &c, const Out &o, const std::string &what) {
    if (o.hang) c.fail("does not end", what);
    if (o.crash) c.fail("dies", what + fmt(": signal %d; ", o.status - 128) + o.err.substr(0, 300));
    if (o.status == 127 || o.status == 126) c.fail("cannot run", what + " " + o.err.substr(0, 300));
    if (o.err.find("CRITICAL **") != std::string::npos) c.fail("critical", what + ": " + o.err.substr(0, 400));
}
// every file below a directory with its bytes; directories end in '/'; links show their target
inline std::map<std::string, std::string> tree(const std::string &dir, const std::string &pre = "") {
    std::map<std::string, std::string> m;
    for (auto &n : ls(dir)) {
        std::string p = dir + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) {
            m[pre + n + "/"] = "";
            for (auto &x : tree(p, pre + n + "/")) m.insert(x);
        } else if (S_ISLNK(st.st_mode)) {
            char b[4096];
            ssize_t k = readlink(p.c_str(), b, sizeof b);
            m[pre + n] = "-> " + std::string(b, k > 0 ? k : 0);
        } else m[pre + n] = readfile(p).value_or("<unreadable>");
    }
    return m;
}
inline void wipe(const std::string &dir) {
    for (auto &n : ls(dir)) {
        std::string p = dir + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); wipe(p); rmdir(p.c_str()); }
        else unlink(p.c_str());
    }
}
inline std::string difftree(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b) {
    std::string o;
    for (auto &x : a) { auto it = b.find(x.first); if (it == b.end()) o += "  - " + x.first + "\n"; else if (it->second != x.second) o += "  ~ " + x.first + fmt(" (%zu -> %zu bytes: ", x.second.size(), it->second.size()) + it->second.substr(0, 80) + ")\n"; }
    for (auto &x : b) if (!a.count(x.first)) o += "  + " + x.first + "\n";
    return o;
}
inline Snap filesnap(mc::Ctx &c, const std::string &path) {
    try { return msiread::read(readfile(path).value_or("")).snap; }
    catch (msiread::Err &e) { c.fail("undecodable", path + ": " + e.what); }
    return {};
}
} // namespace tool
