#!/usr/bin/env python3
"""Builds what the checks run, from /repo's current working tree, outside /repo.

  lib(config)        -> directory with libmsi objects archived in libmsi.a
  harness(name, cfg) -> path of the linked explorer for harness/<name>.cpp
  tools()            -> meson build directory with msibuild, msiinfo, wixl, ...

Every artefact is keyed by a hash over the sources it is made of, so an edit in
/repo always leads to a rebuild and nothing stale is ever executed.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
ENVBIN = "/opt/msitools-env/venv/bin"

CONFIGS = {
    # asan: memory errors and undefined behaviour terminate the execution
    "asan": "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize-recover=undefined -fno-sanitize=shift,alignment".split(),
    # asan without UBSan: for inputs whose UB is outside the property
    "addr": "-O1 -g -fno-omit-frame-pointer -fsanitize=address".split(),
    "plain": "-O2 -g".split(),
}
CFLAGS_COMMON = ["-D_FILE_OFFSET_BITS=64", "-fPIC", "-pthread", "-w"]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("build step failed: %s\n%s\n" % (" ".join(map(str, cmd)), r.stdout[-8000:]))
        raise SystemExit(3)
    return r.stdout


def pkg(*mods):
    return sh(["pkg-config", "--cflags", *mods]).split(), sh(["pkg-config", "--libs", *mods]).split()


def digest(paths, *extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.relpath(p, "/").encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:20]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def run_many(cmds):
    procs = []
    limit = os.cpu_count() or 4
    bad = None
    for c in cmds:
        while len(procs) >= limit:
            c0, p = procs.pop(0)
            out = p.communicate()[0]
            if p.returncode:
                bad = (c0, out)
        procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for c0, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            bad = (c0, out)
    if bad:
        sys.stderr.write("build step failed: %s\n%s\n" % (" ".join(bad[0]), bad[1][-8000:]))
        raise SystemExit(3)


def lib_sources():
    src = []
    for d in ("libmsi", "include"):
        for ext in ("c", "h", "y", "etemplate"):
            src += glob.glob(os.path.join(REPO, d, "*." + ext))
    return src


def prune(prefix, keep):
    """Old builds of the same artefact are of no use: keep the newest few."""
    olds = [d for d in glob.glob(os.path.join(BUILD, prefix + "-*")) if os.path.isdir(d) and d != keep]
    olds.sort(key=os.path.getmtime)
    for d in olds[:-5]:
        shutil.rmtree(d, ignore_errors=True)


def lib(config, extra=()):
    flags = CONFIGS[config] + list(extra)
    key = digest(lib_sources(), flags)
    out = os.path.join(BUILD, "lib-%s-%s" % (config, key))
    with Lock("lib-" + config):
        if os.path.exists(os.path.join(out, "libmsi.a")):
            return out
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        with open(os.path.join(tmp, "config.h"), "w") as f:
            f.write('#pragma once\n#define DATADIR "/usr/local/share"\n#define GETTEXT_PACKAGE "msitools"\n'
                    '#define LOCALEDIR "/usr/local/share/locale"\n#define PACKAGE_BUGREPORT "x"\n'
                    '#define PACKAGE_NAME "msitools"\n#define PACKAGE_STRING "msitools verif"\n'
                    '#define PACKAGE_VERSION "verif"\n')
        types_h = os.path.join(REPO, "include", "libmsi-types.h")
        inc = os.path.join(REPO, "include")
        with open(os.path.join(tmp, "libmsi-enums.h"), "w") as f:
            f.write(sh(["glib-mkenums", "--template", os.path.join(inc, "libmsi-enums.h.etemplate"), types_h]))
        with open(os.path.join(tmp, "libmsi-enums.c"), "w") as f:
            f.write(sh(["glib-mkenums", "--template", os.path.join(REPO, "libmsi", "libmsi-enums.c.etemplate"), types_h]))
        sh(["bison", os.path.join(REPO, "libmsi", "sql-parser.y"), "-y", "-Wno-yacc", "--defines", "-o",
            os.path.join(tmp, "sql-parser.c")])
        cf, _ = pkg("glib-2.0", "gio-2.0", "gobject-2.0", "libgsf-1")
        base = ["gcc", *flags, *CFLAGS_COMMON, "-I" + tmp, "-I" + os.path.join(REPO, "libmsi"), "-I" + inc, *cf]
        srcs = sorted(glob.glob(os.path.join(REPO, "libmsi", "*.c")))
        srcs += [os.path.join(tmp, "libmsi-enums.c"), os.path.join(tmp, "sql-parser.c")]
        objs, cmds = [], []
        for s in srcs:
            o = os.path.join(tmp, os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            cmds.append([*base, "-c", s, "-o", o])
        run_many(cmds)
        sh(["ar", "rcs", os.path.join(tmp, "libmsi.a"), *objs])
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        prune("lib-" + config, out)
    return out


def harness(name, config="asan", libs=(), cxxflags=()):
    """harness/<name>.cpp linked statically with libmsi of the same config."""
    L = lib(config)
    here = os.path.join(VERIF, "harness")
    deps = [os.path.join(here, name + ".cpp")] + glob.glob(os.path.join(here, "*.hpp"))
    key = digest(deps, os.path.basename(L), CONFIGS[config], libs, cxxflags)
    out = os.path.join(BUILD, "h-%s-%s-%s" % (name, config, key))
    with Lock("h-%s-%s" % (name, config)):
        exe = os.path.join(out, name)
        if os.path.exists(exe):
            return exe
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        cf, lf = pkg("glib-2.0", "gio-2.0", "gobject-2.0", "libgsf-1")
        sh(["g++", "-std=c++20", *CONFIGS[config], "-pthread", "-w", *cxxflags, "-I" + here, "-I" + L,
            "-I" + os.path.join(REPO, "include"), *cf, os.path.join(here, name + ".cpp"),
            "-o", os.path.join(tmp, name), os.path.join(L, "libmsi.a"), *lf, *libs, "-lz", "-ldl"])
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        prune("h-%s-%s" % (name, config), out)
    return os.path.join(out, name)


def tools():
    src = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "_build")]
        for f in files:
            p = os.path.join(root, f)
            if os.path.isfile(p) and not os.path.islink(p):
                src.append(p)
    key = digest(src)
    out = os.path.join(BUILD, "tools-" + key)
    with Lock("tools"):
        if os.path.exists(os.path.join(out, ".done")):
            os.utime(out)
            return out
        shutil.rmtree(out, ignore_errors=True)
        env = dict(os.environ)
        env["PATH"] = ENVBIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        env.update(CC="gcc", CXX="g++", VALAC="valac", LC_ALL="C.UTF-8")
        for v in ("DESTDIR", "MAKEFLAGS"):
            env.pop(v, None)
        sh(["meson", "setup", out, REPO, "--buildtype=debugoptimized", "--wrap-mode=nodownload",
            "-Dwerror=false", "--native-file", "/opt/msitools-env/native.ini"], env=env)
        sh(["ninja", "-C", out], env=env)
        open(os.path.join(out, ".done"), "w").close()
        prune("tools", out)
    return out


if __name__ == "__main__":
    what = sys.argv[1]
    if what == "lib":
        print(lib(sys.argv[2]))
    elif what == "harness":
        print(harness(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "asan"))
    elif what == "tools":
        print(tools())
