#!/usr/bin/env python3
"""Runs the monitors of C20 and C21 under the instruments: AddressSanitizer and Miri, or
ThreadSanitizer and a build without threads. Called by run.sh, which sets the environment.

san.py build [asan|miri|tsan|serial ...]   builds only
san.py ID [options of mon]                 runs a check; --only and --case replay under the sanitizer
"""
import json, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
HOST = "x86_64-unknown-linux-gnu"
MANIFEST = ["--offline", "--manifest-path", "mon/Cargo.toml"]
MIRI_SHARES = 8
SEED = os.environ.get("VERIF_SEED", "1")

# name: (cargo arguments, RUSTFLAGS, binary)
BUILDS = {
    "release": (["build", "--release"], "", "release/mon"),
    # with the checks of C19, so that unchecked accesses past the length of a vector count, too
    "asan": (["+nightly", "build", "--profile", "checked", "--target", HOST], "-Zsanitizer=address", HOST + "/checked/mon"),
    "tsan": (["+nightly", "build", "-Zbuild-std", "--release", "--target", HOST], "-Zsanitizer=thread", HOST + "/release/mon"),
    "serial": (["build", "--release", "--no-default-features"], "", "release/mon"),
}


def target(kind):
    return os.path.join(ROOT, "target" if kind == "release" else os.path.join("target", "of-" + kind))


def environment(kind, flags=""):
    e = dict(os.environ, CARGO_TARGET_DIR=target(kind), CARGO_NET_OFFLINE="true")
    e.pop("RUSTFLAGS", None)
    if flags:
        e["RUSTFLAGS"] = flags
    return e


def build(kind):
    if kind == "miri":
        # one case of no length builds everything
        r = miri("-Zmiri-disable-stacked-borrows", 0, 1, 1, ["--scale", "0"]).communicate()[0]
        if "PLAIN" not in r:
            fail("the monitors do not build for Miri", r)
        return None
    args, flags, path = BUILDS[kind]
    r = subprocess.run(["cargo"] + args + MANIFEST, env=environment(kind, flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        fail("the monitors do not build (%s)" % kind, r.stdout)
    return os.path.join(target(kind), path)


def fail(what, text):
    print(text[-6000:])
    print("ERROR: " + what)
    sys.exit(2)


def miri(flags, first, step, secs, more=[]):
    e = environment("miri")
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks " + flags
    return subprocess.Popen(
        ["cargo", "+nightly", "miri", "run", "--release", "--no-default-features"] + MANIFEST
        + ["--", "plain", "C20", "--seed", SEED, "--case", str(first), "--threads", str(step), "--max-secs", str(secs)] + more,
        env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def violation(prop, name, what, text):
    os.makedirs("replays", exist_ok=True)
    path = os.path.join("replays", "%s-%s-%s.txt" % (prop, name, SEED))
    with open(path, "w") as f:
        f.write("property: %s\nviolation: %s\n\n%s\n" % (prop, what, text))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    print("  " + what[:600])


def run_mon(path, prop, args, extra):
    e = dict(os.environ, MON_NO_RLIMIT="1", **extra)
    return subprocess.run([path, "run", prop, "--out", "evidence/%s.json" % prop, "--replays", "replays"] + args, env=e).returncode


def add_evidence(prop, extra, bad, wall):
    path = "evidence/%s.json" % prop
    with open(path) as f:
        d = json.load(f)
    d["coverage"]["instruments"] = extra
    d["coverage"]["evaluations"] += sum(x.get("cases", 0) for x in extra.values())
    d["violations"] += bad
    d["wall_s"] = round(wall, 2)
    with open(path, "w") as f:
        json.dump(d, f)
        f.write("\n")


def memory(args, thorough, replay):
    t0 = time.time()
    asan = build("asan")
    code = run_mon(asan, "C20", args, {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:hard_rss_limit_mb=12000:allocator_may_return_null=0"})
    if code != 0 or replay:
        return code
    build("miri")
    secs = 1500 if thorough else 50
    shares = []
    for k in range(MIRI_SHARES):
        # half of them also follow the borrows, which takes twice the time
        flags = "-Zmiri-tree-borrows" if k % 2 else "-Zmiri-disable-stacked-borrows"
        shares.append((flags, miri(flags, k, MIRI_SHARES, secs)))
    end = time.time() + secs + 120
    seen = {"cases": 0, "nontrivial": 0, "observed": {}, "unfinished": 0, "shares with borrows followed": MIRI_SHARES // 2}
    bad = 0
    for k, (flags, p) in enumerate(shares):
        try:
            out = p.communicate(timeout=max(1, end - time.time()))[0]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            seen["unfinished"] += 1
            continue
        m = re.search(r"^PLAIN (.*)$", out, re.M)
        if m:
            d = json.loads(m.group(1))
            seen["cases"] += d["cases"]
            seen["nontrivial"] += d["nontrivial"]
            for a, b in d["observed"].items():
                seen["observed"][a] = seen["observed"].get(a, 0) + b
            continue
        err = re.search(r"^error: (.*)$", out, re.M)
        what = err.group(1) if err else "it ended without a verdict"
        at = re.findall(r"^at (.*)$", out, re.M)
        if what.startswith(("Undefined Behavior", "abnormal termination", "memory leaked")):
            violation("C20", "miri", "Miri: %s (at case %s)" % (what, at[-1] if at else "?"), out[-20000:] + "\nflags: " + flags)
            bad += 1
            if bad > 2:
                break
        else:
            seen["unfinished"] += 1
            seen["last unfinished"] = what
    if bad == 0 and seen["cases"] == 0:
        print("ERROR: Miri ran nothing: %s" % seen)
        return 2
    add_evidence("C20", {"AddressSanitizer, checked accesses": {"workloads": "as above"}, "Miri": seen}, bad, time.time() - t0)
    print("C20: Miri interpreted %d cases (%d non-trivial, %d of %d shares unfinished): %s" % (seen["cases"], seen["nontrivial"], seen["unfinished"], MIRI_SHARES, "held" if not bad else "VIOLATED"))
    return 1 if bad else 0


def threads(args, thorough, replay):
    t0 = time.time()
    tsan = build("tsan")
    options = {"TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:history_size=4"}
    release = build("release")
    # with the sanitizer first: what it sees needs no unlucky schedule
    code = run_mon(tsan, "C21", args + ([] if replay else ["--scale", "0.3"]), options)
    if code != 0 or replay:
        return code
    with open("evidence/C21.json") as f:
        sanitized = json.load(f)["coverage"]
    code = run_mon(release, "C21", args, {})
    if code != 0:
        return code
    serial = build("serial")
    blocks = 60000 if thorough else 2000
    def digest(path, more):
        r = subprocess.run([path, "digest", "C21", "--seed", SEED] + more, stdout=subprocess.PIPE, text=True)
        return r.returncode, r.stdout.splitlines()
    (ca, a), (cb, b) = digest(release, ["--scale", str(blocks)]), digest(serial, ["--scale", str(blocks)])
    bad = 0
    if ca != 0 or cb != 0 or len(a) != blocks or len(b) != blocks:
        which = "with" if ca != 0 or len(a) != blocks else "without"
        violation("C21", "serial", "the build %s threads ended with %s before all calls were made" % (which, (ca, cb)), "")
        bad += 1
    else:
        for x, y in zip(a, b):
            if x == y:
                continue
            first = x.split()[0]
            p, q = digest(release, ["--case", first])[1], digest(serial, ["--case", first])[1]
            pairs = [(i, j) for i, j in zip(p, q) if i != j] or [(x, y)]
            seed = str(int(pairs[0][0].split()[-1], 16)) if "0x" in pairs[0][0] else "0"
            text = "\n".join(subprocess.run([k, "job", "C21", "--case", seed], stdout=subprocess.PIPE, text=True).stdout for k in (release, serial))
            violation("C21", "serial", "built without threads a call gives another result: %s / %s" % pairs[0], text)
            bad += 1
            if bad > 2:
                break
    add_evidence("C21", {
        "ThreadSanitizer": {"cases": sanitized["evaluations"], "observed": sanitized["observed"]},
        "calls of the build without threads compared": {"cases": 100 * blocks},
    }, bad, time.time() - t0)
    print("C21: %d calls compared with the build without threads: %s" % (100 * blocks, "held" if not bad else "VIOLATED"))
    return 1 if bad else 0


def main():
    if sys.argv[1] == "build":
        for k in sys.argv[2:] or ["asan", "miri", "tsan", "serial"]:
            build(k)
        return 0
    args = sys.argv[2:]
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    if "--tier" in args:
        thorough = args[args.index("--tier") + 1] == "thorough"
    replay = "--case" in args or "--only" in args
    return {"C20": memory, "C21": threads}[sys.argv[1]](args, thorough, replay)


sys.exit(main())
