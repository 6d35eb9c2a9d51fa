// Runs a command line tool with one of its system calls on the scratch directory or its output failing or cut short.
#pragma once
#include "ptr.hpp"
#include "tool.hpp"

namespace toolfault {
using namespace tool;
struct Point { ptr::Plan plan; std::string where; bool partial; };
// like tool::run, under the monitor
inline Out run(const std::vector<std::string> &argv, const std::string &cwd, const std::string &aux, const ptr::Plan &plan, std::vector<ptr::Ev> *events = nullptr) {
    Out o;
    std::string fo = aux + ".out", fe = aux + ".err";
    fflush(stdout); fflush(stderr);
    int keep[3];
    for (int i = 0; i < 3; i++) keep[i] = fcntl(i, F_DUPFD_CLOEXEC, 100);
    int x = ::open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0666), y = ::open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0666), z = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
    dup2(z, 0); dup2(x, 1); dup2(y, 2);
    close(x); close(y); close(z);
    auto r = ptr::run(cwd, [&] {
        std::vector<char *> av;
        for (auto &a : argv) av.push_back((char *)a.c_str());
        av.push_back(nullptr);
        const char *ev[] = {"PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C.UTF-8", "TZ=UTC", "HOME=/nonexistent", "G_SLICE=always-malloc", "GIO_USE_VFS=local", "ASAN_OPTIONS=detect_leaks=0", nullptr};
        if (chdir(cwd.c_str())) _exit(126);
        execve(av[0], av.data(), (char **)ev);
        _exit(127);
    }, plan, true);
    for (int i = 0; i < 3; i++) { if (keep[i] >= 0) { dup2(keep[i], i); close(keep[i]); } else close(i); }
    o.hang = r.timeout;
    o.status = WIFEXITED(r.status) ? WEXITSTATUS(r.status) : 128 + WTERMSIG(r.status);
    o.crash = WIFSIGNALED(r.status) && !o.hang;
    o.out = readfile(fo).value_or("");
    o.err = readfile(fe).value_or("");
    unlink(fo.c_str());
    unlink(fe.c_str());
    if (events) *events = r.events;
    return o;
}
// every call of a run, failing or cut short
inline std::vector<Point> points(const std::vector<ptr::Ev> &evs) {
    std::vector<Point> v;
    for (size_t e = 0; e < evs.size(); e++) {
        auto &ev = evs[e];
        std::string file = ev.what.substr(ev.what.rfind('/') + 1);
        if (file.rfind("libmsi.", 0) == 0 || file.rfind(".gsf-save", 0) == 0) file = "new file";
        auto add = [&](int err, bool on, unsigned kinds, const std::string &how, long cut = -1) {
            Point p;
            p.plan.at = e;
            p.plan.what = cut >= 0 ? ptr::Plan::SHORT : ptr::Plan::FAIL;
            p.plan.arg = cut >= 0 ? cut : err;
            p.plan.persistent = on;
            p.plan.kinds = kinds;
            p.where = std::string(ptr::kname(ev.kind)) + " " + file + " " + how;
            p.partial = cut >= 0;
            v.push_back(p);
        };
        switch (ev.kind) {
        case ptr::MODE: case ptr::SEEK: case ptr::UNLINK: break;
        case ptr::OPEN: add(EACCES, false, 0, "fails"); add(EMFILE, true, 1u << ptr::OPEN, "fails from there"); break;
        case ptr::READ: case ptr::WRITE: {
            int err = ev.kind == ptr::READ ? EIO : ENOSPC;
            add(err, false, 0, "fails");
            add(err, true, 1u << ev.kind, "fails from there");
            std::set<long> cuts = {1, ev.len / 2, ev.len - 1};
            for (long k : cuts) if (k > 0 && k < ev.len) add(0, false, 0, "is short", k);
            break;
        }
        case ptr::CLOSE: if (ev.what == "<stdout>") add(ENOSPC, false, 0, "fails"); break;
        default: add(EIO, false, 0, "fails");
        }
    }
    return v;
}
} // namespace toolfault
