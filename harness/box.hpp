// A private tree of an unprivileged user, in which the command line tools run: five levels deep, compared before and after.
#pragma once
#include "tool.hpp"
namespace tool {
using Args = std::vector<std::string>;
const int NOBODY = 65534;
struct Box {
    std::string root, base, cwd, dest, pkg, tools;
    std::map<std::string, std::string> before;
};
inline void own(const std::string &d) {
    chmod(d.c_str(), 0755);
    if (chown(d.c_str(), NOBODY, NOBODY)) {}
}
inline Box box(mc::Ctx &c) {
    static std::string tools;
    std::string up = c.scratch.substr(0, c.scratch.rfind('/'));
    chmod(up.c_str(), 0711);
    chmod(c.scratch.c_str(), 0711);
    Box b;
    if (tools.empty()) {
        tools = c.scratch + "/t";
        for (auto d : {"", "/tools", "/libmsi"}) { mkdir((tools + d).c_str(), 0755); chmod((tools + d).c_str(), 0755); }
        for (auto t : {"msidump", "msiinfo", "msiextract", "msidiff"}) { writefile(tools + "/tools/" + t, readfile(bin(t)).value_or("")); chmod((tools + "/tools/" + t).c_str(), 0755); }
        std::string l = bin("x");
        l = l.substr(0, l.rfind("/tools/")) + "/libmsi/";
        for (auto &n : ls(l)) if (n.find("libmsi-1.0.so") == 0 && n.find(".p") == std::string::npos && n.find("symbols") == std::string::npos) { writefile(tools + "/libmsi/" + n, readfile(l + n).value_or("")); chmod((tools + "/libmsi/" + n).c_str(), 0755); }
    }
    b.tools = tools;
    b.root = c.scratch + "/box";
    mkdir(b.root.c_str(), 0755);
    wipe(b.root);
    own(b.root);
    b.base = b.root;
    for (auto n : {"o", "u", "t"}) { b.base += std::string("/") + n; mkdir(b.base.c_str(), 0755); own(b.base); writefile(b.base + "/guard", "untouched"); chmod((b.base + "/guard").c_str(), 0666); }
    b.cwd = b.base + "/cwd";
    b.dest = b.base + "/dest";
    b.pkg = b.base + "/pkg dir";
    for (auto &d : {b.cwd, b.dest, b.pkg}) { mkdir(d.c_str(), 0755); own(d); writefile(d + "/keep", "kept"); chmod((d + "/keep").c_str(), 0666); }
    return b;
}
inline Out go(mc::Ctx &c, Box &b, const Args &a, const Args &env = {}, double limit = 15) {
    b.before = tree(b.root);
    Args v = a;
    v[0] = b.tools + "/tools/" + a[0];
    Args e = {"PATH=" + b.tools + "/tools:/usr/local/bin:/usr/bin:/bin", "HOME=" + b.cwd, "TMPDIR=" + b.cwd};
    e.insert(e.end(), env.begin(), env.end());
    Out o = run(v, b.cwd, c.scratch + "/io", limit, e, nullptr, NOBODY);
    sane(c, o, shown(a));
    return o;
}
// what is new or changed below the destination; anything else that changed is an escape
inline std::map<std::string, std::string> made(mc::Ctx &c, Box &b, const std::string &dest, const std::string &what) {
    auto after = tree(b.root);
    std::string pre = dest.substr(b.root.size() + 1) + "/";
    std::map<std::string, std::string> m;
    std::set<std::string> all;
    for (auto &x : after) all.insert(x.first);
    for (auto &x : b.before) all.insert(x.first);
    for (auto &n : all) {
        auto i = b.before.find(n), j = after.find(n);
        if (i != b.before.end() && j != after.end() && i->second == j->second) continue;
        if (n.compare(0, pre.size(), pre) || j == after.end() || n == pre + "keep") c.fail("escape", what + ": " + n + (j == after.end() ? " removed" : i == b.before.end() ? " created" : " changed"));
        if (n.size() > pre.size()) m[n.substr(pre.size())] = j->second;
    }
    return m;
}
} // namespace tool
