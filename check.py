#!/usr/bin/env python3
"""check.py <PROPERTY> <quick|thorough> [harness options...]

Builds the property's harness from /repo's current working tree and runs it.
Exit 0: held on everything explored.  Exit 1: VIOLATION printed.
Other codes: no answer (for instance /repo does not compile)."""
import json, os, sys, subprocess
import build

# property -> (harness source in harness/, variant, command-line programs it drives)
PROPS = {
    **{"C%02d" % i: ("c%02d" % i, "asan", []) for i in range(1, 22)},
    "C18": ("c18", "asan", ["dbg-cli"]),
    "C19": ("c19", "asan", ["t86-cli"]),
}

# checks with a second stage: the same harness under another sanitizer
EXTRA = {"C17": ("c17", "tsan", "tsan", [])}
# thorough tier, checks whose code under test runs in the harness: a second stage that
# mutates the choices of cases that reached new code (lib/pbt.h, --guided)
GUIDED = {"C%02d" % i for i in range(1, 22)} - {"C17", "C18", "C19"}

THOROUGH_SECS = 780  # of exploration, all stages together; --secs N asks for N per stage

ENV = {
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=88:report_signal_unsafe=0",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=88:allocator_may_return_null=1:detect_stack_use_after_return=0:max_free_fill_size=1024:free_fill_byte=219",
    "LANG": "C.UTF-8",
}


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    harness, variant, clis = PROPS[prop]
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_TIER"] = tier
    for c in clis:
        env["VERIF_" + c.replace("-", "_").upper()] = build.build_cli(c, variant)
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(build.VERIF, "replays"), exist_ok=True)

    def run(h, v, more):
        exe = build.build_harness(h, v)
        sys.stdout.flush()
        return subprocess.run([exe, "--verif", build.VERIF, "--tier", tier] + more + sys.argv[3:], env=env, cwd=build.VERIF).returncode

    extra = EXTRA.get(prop)
    if prop in GUIDED and (tier == "thorough" or "--guided" in sys.argv):
        extra = (harness, "cov", "guided", ["--guided"])
    if "--replay" in sys.argv:
        again = os.path.basename(sys.argv[sys.argv.index("--replay") + 1])
        if extra and "-%s-" % extra[2] in again:
            return run(extra[0], extra[1], [])
        return run(harness, variant, [])
    if "--guided" in sys.argv:  # that stage only
        return run(extra[0], extra[1], ["--tag", extra[2], "--cases", "1000000000"])
    limit = ["--secs", str(THOROUGH_SECS // (2 if extra else 1))] if tier == "thorough" else []
    rc = run(harness, variant, limit)
    if extra and rc == 0:
        rc = run(extra[0], extra[1], ["--tag", extra[2]] + extra[3] + limit)
    if extra:
        merge(prop, extra[2])
    return rc


def merge(prop, tag):
    """One evidence file for both stages."""
    main_file = os.path.join(build.VERIF, "evidence", prop + ".json")
    more_file = os.path.join(build.VERIF, "evidence", "%s-%s.json" % (prop, tag))
    if not os.path.exists(more_file):
        return
    a, b = json.load(open(main_file)), json.load(open(more_file))
    ca, cb = a["coverage"], b["coverage"]
    for k in ("evaluations", "distinct_nontrivial", "discarded", "unreproduced"):
        ca[k] += cb[k]
    ca["rule"] += " [%s stage] %s" % (tag, cb["rule"])
    for k, v in cb["classes"].items():
        ca["classes"]["%s: %s" % (tag, k)] = v
    ca["samples"] = ca["samples"][:5] + cb["samples"][:2]
    a["wall_s"] += b["wall_s"]
    a["violations"] += b["violations"]
    json.dump(a, open(main_file, "w"), indent=1)
    os.remove(more_file)


if __name__ == "__main__":
    sys.exit(main())
