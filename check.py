#!/usr/bin/env python3
"""python3 check.py PROPERTY quick|thorough [--replay SPACE:INDEX] [--only SPACE] [--jobs N]

Builds what the check of PROPERTY runs from /repo's working tree and runs it.
Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line.
"""
import os, sys, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import build  # noqa: E402

# property -> (kind, harness, build configuration)
CHECKS = {
    "C01": ("cpp", "c01_roundtrip", "asan"),
    "C02": ("cpp", "c02_nocommit", "asan"),
    "C03": ("cpp", "c03_crash", "asan"),
    "C04": ("cpp", "c04_faults", "asan"),
    "C05": ("cpp", "c05_where", "asan"),
    "C06": ("cpp", "c06_select", "asan"),
    "C07": ("cpp", "c07_dml", "asan"),
    "C08": ("cpp", "c08_schema", "asan"),
    "C09": ("cpp", "c09_format", "asan"),
    "C10": ("cpp", "c10_streams", "asan"),
    "C11": ("cpp", "c11_idt", "asan"),
    "C12": ("cpp", "c12_summary", "asan"),
    "C13": ("cpp", "c13_merge", "asan"),
    "C14": ("cpp", "c14_transform", "asan"),
    "C15": ("cpp", "c15_record", "asan"),
    "C16": ("cpp", "c16_open", "asan"),
    "C17": ("cpp", "c17_malformed", "asan"),
    "C18": ("cpp", "c18_sql", "asan"),
    "C19": ("cpp", "c19_badinput", "asan"),
    "C20": ("cpp", "c20_integers", "asan"),
    "C21": ("tool", "c21_msibuild", "asan"),
    "C22": ("tool", "c22_msiinfo", "asan"),
    "C23": ("tool", "c23_contain", "asan"),
    "C24": ("tool", "c24_preproc", "asan"),
    "C25": ("tool", "c25_sequence", "asan"),
    "C26": ("tool", "c26_package", "asan"),
    "C27": ("tool", "c27_heat", "asan"),
    "C28": ("tool", "c28_diff", "asan"),
    "C29": ("tool", "c29_elements", "asan"),
    "C30": ("cpp", "c30_resources", "asan"),
    "C31": ("cpp", "c31_errors", "asan"),
}


def main():
    if len(sys.argv) < 3 or sys.argv[1] not in CHECKS or sys.argv[2] not in ("quick", "thorough"):
        sys.stderr.write(__doc__)
        return 2
    prop, tier, rest = sys.argv[1], sys.argv[2], sys.argv[3:]
    kind, name, cfg = CHECKS[prop]
    ev = os.path.join(VERIF, "evidence")
    replaydir = os.path.join(ev, "replay")
    os.makedirs(replaydir, exist_ok=True)
    opts = ["--tier", tier, "--evidence", os.path.join(ev, prop + ".json"), "--known", os.path.join(VERIF, "known-findings.txt"),
            "--replaydir", replaydir]
    if "--replay" not in rest and "--only" not in rest:
        for f in os.listdir(replaydir):
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(replaydir, f))
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048:"
                           "detect_stack_use_after_return=0:handle_abort=1")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["G_SLICE"] = "always-malloc"
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    for k in ("G_DEBUG", "G_MESSAGES_DEBUG"):
        env.pop(k, None)
    if kind == "tool":        # an explorer that runs the built command line tools
        env["VERIF_TOOLS"] = build.tools()
        env["VERIF_REPO"] = build.REPO
        kind = "cpp"
    if kind == "cpp":
        exe = build.harness(name, cfg)
        sys.stdout.flush()
        os.execve(exe, [exe, *opts, *rest], env)
    else:
        os.environ.update(env)
        mod = __import__(name)
        return mod.main(prop, tier, opts + rest)


if __name__ == "__main__":
    sys.exit(main())
