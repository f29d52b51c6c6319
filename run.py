#!/usr/bin/env python3
"""Builds the harness against /repo's working tree and decides properties with it.

run.py --setup                      build every configuration
run.py ID [--tier quick|thorough]   decide one property (exit 0, or 1 with a VIOLATION line)
run.py --replay FILE                run one recorded case again
run.py --sweep [IDS...]             decide several, for use by hand
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
TC = "/root/.rustup/toolchains"

# config: (profile, features, toolchain)
CONFIGS = {
    # optimised, with debug assertions and overflow checks; checking allocator
    "checked": ("checked", [], "old"),
    # as released
    "release": ("release", [], "old"),
    # the other byte order of the length word
    "be": ("checked", ["be"], "old"),
    # AddressSanitizer and the alignment checks of a recent compiler
    "asan": ("checked", ["asan"], "nightly"),
}

# how far to scale the case counts of the quick tier, so that each check does
# work worth about the same time
SCALE = {
    "C01": 12, "C02": 20, "C03": 12, "C04": 20, "C05": 14, "C06": 20, "C07": 12, "C08": 4,
    "C09": 6, "C10": 10, "C11": 7, "C12": 7, "C13": 4, "C14": 1.5, "C15": 10, "C16": 40,
    "C17": 20, "C18": 4, "C19": 1.3, "C20": 3.5, "C21": 60, "C22": 5, "C23": 1.2, "C24": 30,
    "C25": 12, "C26": 7, "C27": 4, "C28": 10, "C29": 25, "C30": 7, "C31": 8, "C32": 12,
}
# other builds a check also runs in, with the share of the cases they get
EXTRA = {
    "C12": [("be", 0.5)],
    "C13": [("be", 0.5)],
    "C14": [("be", 0.5)],
    "C30": [("asan", 0.3)],
    "C32": [("release", 1.0), ("be", 1.0)],
}
EXTRA_THOROUGH = [("release", 0.3), ("be", 0.2), ("asan", 0.1)]
WATCHDOG = {"quick": 780, "thorough": 6 * 3600}
THOROUGH = 1.0


class Inconclusive(Exception):
    pass


class NotShareable(Inconclusive):
    """The library's types cannot go from thread to thread: the harness does not compile."""


def env_for(config):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO") or k.startswith("RUST"):
            if k not in ("CARGO_HOME", "RUSTUP_HOME"):
                del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_WRAPPER"] = ""
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    if CONFIGS[config][2] == "old":
        # what the repository's own tests are built with
        e["RUSTUP_TOOLCHAIN"] = "1.70.0"
        e["RUSTC"] = TC + "/1.69.0-x86_64-unknown-linux-gnu/bin/rustc"
    else:
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        e["RUSTFLAGS"] = "-Zsanitizer=address -Awarnings"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0"
    return e


def cargo_for(config):
    if CONFIGS[config][2] == "old":
        return TC + "/1.70.0-x86_64-unknown-linux-gnu/bin/cargo"
    return TC + "/nightly-x86_64-unknown-linux-gnu/bin/cargo"


def target(config):
    return os.path.join(HARNESS, "target", config)


def binary(config):
    profile = CONFIGS[config][0]
    if CONFIGS[config][2] == "nightly":
        return os.path.join(target(config), "x86_64-unknown-linux-gnu", profile, "checks")
    return os.path.join(target(config), profile, "checks")


def tree_hash():
    h = hashlib.sha256()
    files = []
    for top, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(top, n) for n in names]
    for n in ("Cargo.toml", "build.rs"):
        if os.path.exists(os.path.join(REPO, n)):
            files.append(os.path.join(REPO, n))
    for top in (os.path.join(HARNESS, "src"), os.path.join(HARNESS, "oracle")):
        for t, dirs, names in os.walk(top):
            dirs.sort()
            files += [os.path.join(t, n) for n in names]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(config):
    os.makedirs(target(config), exist_ok=True)
    with open(os.path.join(target(config), ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        profile, features, tool = CONFIGS[config]
        stamp = os.path.join(target(config), ".stamp")
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        base = [cargo_for(config)]
        common = ["--offline", "--target-dir", target(config)]
        trip = ["--target", "x86_64-unknown-linux-gnu"] if tool == "nightly" else []
        if have == want and os.path.exists(binary(config)):
            return
        if have:
            # do not trust modification times: files may have been put back
            for p in ("pgnumeric", "oracle", "checks"):
                subprocess.run(base + ["clean", "-p", p, "--profile", profile] + trip + common, cwd=HARNESS, env=env_for(config),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(stamp):
                os.unlink(stamp)
        cmd = base + ["build", "--locked", "--profile", profile] + trip + common
        if features:
            cmd += ["--features", ",".join(features)]
        r = subprocess.run(cmd, cwd=HARNESS, env=env_for(config), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 or not os.path.exists(binary(config)):
            sys.stdout.write(r.stdout.decode("utf8", "replace")[-4000:])
            text = r.stdout.decode("utf8", "replace")
            bad = re.search(r"cannot be (sent|shared) between threads safely", text)
            if bad and re.search(r"pgnumeric::Numeric|`Numeric(Buf)?`", text) and "could not compile `checks`" in text:
                raise NotShareable(text[max(0, bad.start() - 200):bad.start() + 1500])
            raise Inconclusive("the harness does not build (%s)" % config)
        with open(stamp, "w") as f:
            f.write(want)


def call(config, args, timeout):
    """Runs the harness; returns (exit status, output). Negative status: signal."""
    p = subprocess.Popen([binary(config)] + args, env=env_for(config), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, ""
    return p.returncode, out.decode("utf8", "replace")


def crashed(rc):
    return rc is not None and rc not in (0, 1, 2) and rc != -signal.SIGKILL and rc != -signal.SIGTERM


def say_crash(rc, out):
    tail = [l for l in out.splitlines() if l.strip()]
    if rc == 77:
        return "one case ran over the work budget (40 million heap allocations)"
    if rc == 78:
        return "one case did not end within 90 seconds of processor time, or waited 45 seconds for something that does not come"
    pick = [l for l in tail if "ERROR: AddressSanitizer" in l or "panicked" in l or "overflowed its stack" in l or "memory allocation of" in l
            or "misaligned" in l or "unsafe precondition" in l]
    name = signal.Signals(-rc).name if rc < 0 else "exit status %d" % rc
    return "the process died (%s): %s" % (name, (pick or tail or ["no message"])[0][:300])


def groups(config, prop):
    rc, out = call(config, ["list"], 60)
    return [l.split()[1] for l in out.splitlines() if l.split()[0] == prop]


def read_choices(path):
    try:
        with open(path) as f:
            return [int(x) for x in f.read().split()]
    except (OSError, ValueError):
        return []


def shrink_outside(choices, fails, seconds=25, tries=400):
    """Shrinks a list of choices with a predicate that starts processes."""
    t0, n = time.time(), 0
    best = list(choices)

    def ok(c):
        nonlocal n
        n += 1
        return n <= tries and time.time() - t0 < seconds and fails(c)

    again = True
    while again and time.time() - t0 < seconds and n < tries:
        again = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i + size <= len(best):
                c = best[:i] + best[i + size:]
                if ok(c):
                    best, again = c, True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if best[i] == 0:
                continue
            for v in (0, best[i] // 2, best[i] - 1):
                if v < best[i]:
                    c = best[:i] + [v] + best[i + 1:]
                    if ok(c):
                        best, again = c, True
                        break
    return best, n


def write_replay(prop, group, config, seed, case, choices, message, inputs):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha256(("%s %s %s" % (prop, group, choices)).encode()).hexdigest()[:8]
    path = os.path.join(REPLAYS, "%s-%s-%s.txt" % (prop, config.replace("+", "-"), h))
    with open(path, "w") as f:
        f.write("property: %s\ngroup: %s\nconfig: %s\nseed: %d\ncase: %s\n" % (prop, group, config, seed, case))
        f.write("choices: %s\nmessage: %s\n" % (" ".join(map(str, choices)), message.replace("\n", " ")))
        for l in inputs:
            f.write("input: %s\n" % l)
        f.write("# replay with: /verif/run.py --replay <this file>\n")
    return path


def inputs_of(out):
    return [l[7:] for l in out.splitlines() if l.startswith("input: ")]


def find_crash(prop, config, seed, slots, tmp, rc, out, common):
    """After a crash: which case, and a small form of it."""
    gs = groups(config, prop)
    cand = []
    try:
        raw = open(slots, "rb").read()
    except OSError:
        raw = b""
    for i in range(0, len(raw) - 23, 24):
        g, idx, on = (int.from_bytes(raw[i + k:i + k + 8], "little") for k in (0, 8, 16))
        if on and g < len(gs):
            cand.append((gs[g], idx))
    log = os.path.join(tmp, "choices")
    cand = sorted(set(cand), key=lambda x: (gs.index(x[0]), x[1]))
    first = None
    for g, idx in cand * (5 if prop == "C31" else 1):
        r, o = call(config, ["run", "--group", g, "--case", str(idx), "--log-choices", log] + common, 240)
        if not crashed(r):
            first = first or (g, idx, read_choices(log), inputs_of(o))
            continue
        ch = read_choices(log)
        slog = os.path.join(tmp, "shrunk")

        def fails(c):
            r, _ = call(config, ["replay", "--prop", prop, "--group", g, "--choices", " ".join(map(str, c))], 60)
            return crashed(r)

        # (one that does not end takes too long to make smaller)
        if r == 78 or not fails(ch):
            return g, idx, ch, say_crash(r, o), inputs_of(o)
        best, _ = shrink_outside(ch, fails)
        r2, o2 = call(config, ["replay", "--prop", prop, "--group", g, "--choices", " ".join(map(str, best))], 60)
        return g, idx, best, say_crash(r2 if crashed(r2) else r, o2 if crashed(r2) else o), inputs_of(o2)
    # no single case does it again, but safe calls made it happen: what went before it, or what
    # ran beside it, matters too
    if first and "memory allocation of" not in out and (
            rc in (77, 78) or -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE)):
        g, idx, ch, ins = first
        return g, idx, ch, say_crash(rc, out) + " (in a run of all cases of this seed, at this case or one beside it)", ins
    raise Inconclusive("the harness died (%s) and no single case does it again\n%s" % (rc, out[-1500:]))


def run_config(prop, config, tier, seed, scale, tmp, digests=None):
    out = os.path.join(tmp, config + ".json")
    slots = os.path.join(tmp, config + ".slots")
    common = ["--prop", prop, "--config", config, "--seed", str(seed)]
    args = ["run", "--out", out, "--slots", slots, "--replay-dir", REPLAYS, "--scale", repr(scale)] + common
    if tier == "thorough":
        args.append("--thorough")
    if digests:
        args += ["--digests", digests]
    rc, text = call(config, args, WATCHDOG[tier])
    if rc is None:
        raise Inconclusive("no answer within %d s (%s)" % (WATCHDOG[tier], config))
    if crashed(rc):
        g, idx, ch, msg, ins = find_crash(prop, config, seed, slots, tmp, rc, text, common)
        path = write_replay(prop, g, config, seed, idx, ch, msg, ins)
        return {"evaluations": 1, "nontrivial": 0, "skipped": 0, "rule": "", "groups": {}, "labels": {}, "samples": [],
                "max_allocs": 0, "keys": set(),
                "failure": {"group": g, "case": idx, "replay": path, "message": msg, "inputs": "; ".join(ins)}}
    if rc not in (0, 1) or not os.path.exists(out):
        raise Inconclusive("the harness gave up (%s, status %s): %s" % (config, rc, text[-1500:]))
    res = json.load(open(out))
    with open(out + ".keys", "rb") as f:
        res["keys"] = f.read()
    return res


def union_size(blobs):
    if len(blobs) == 1:
        return len(blobs[0]) // 8
    s = set()
    for b in blobs:
        s.update(b[i:i + 8] for i in range(0, len(b), 8))
    return len(s)


def outputs_of(text):
    return [l for l in text.splitlines() if l.startswith("input: output ") or l.startswith("FAIL")]


def compare_digests(prop, seed, files, tmp):
    """The first case two builds disagree about, shrunk, or None."""
    (c0, f0), rest = files[0], files[1:]
    a = open(f0).read().splitlines()
    for c1, f1 in rest:
        b = open(f1).read().splitlines()
        if a == b:
            continue
        for x, y in zip(a, b):
            if x == y:
                continue
            g, idx = x.split()[:2]
            if y.split()[:2] != [g, idx]:
                raise Inconclusive("builds ran other cases")
            log = os.path.join(tmp, "choices")
            call(c0, ["run", "--group", g, "--case", idx, "--log-choices", log, "--prop", prop, "--config", c0, "--seed", str(seed)], 120)
            ch = read_choices(log)

            def differs(c):
                t = ["replay", "--prop", prop, "--group", g, "--choices", " ".join(map(str, c))]
                return outputs_of(call(c0, t, 60)[1]) != outputs_of(call(c1, t, 60)[1])

            # (a difference that does not come again depends on the calls made before)
            best = ch
            if differs(ch):
                best, _ = shrink_outside(ch, differs)
            t = ["replay", "--prop", prop, "--group", g, "--choices", " ".join(map(str, best))]
            o0, o1 = call(c0, t, 60)[1], call(c1, t, 60)[1]
            msg = "builds %s and %s give different results: %s / %s" % (c0, c1, outputs_of(o0)[-3:], outputs_of(o1)[-3:])
            path = write_replay(prop, g, c0 + "+" + c1, seed, idx, best, msg, inputs_of(o0))
            return {"group": g, "case": int(idx), "replay": path, "message": msg, "inputs": "; ".join(inputs_of(o0))}
        raise Inconclusive("builds ran different numbers of cases")
    return None


def level_of(prop):
    return "exploration"


ASSUME = [
    "the oracle's own big integers, decimal arithmetic, storage decoder and fixed point functions (harness/oracle) are right",
    "the compiler and the operating system's allocator are right",
]


def decide(prop, tier, seed):
    t0 = time.time()
    plan = [("checked", 1.0)] + EXTRA.get(prop, [])
    if tier == "thorough" and prop != "C32":
        plan = [("checked", 1.0)] + [p for p in EXTRA_THOROUGH]
        # every build takes its share of the cases that are already named for it
        plan += [p for p in EXTRA.get(prop, []) if p[0] not in [x for x, _ in plan]]
    scale = SCALE.get(prop, 1) * (THOROUGH if tier == "thorough" else 1)
    failure = None
    results = []
    tmp = tempfile.mkdtemp(prefix="checks.")
    try:
        digest_files = []
        for i, (config, share) in enumerate(plan):
            try:
                build(config)
            except NotShareable as e:
                if prop != "C31":
                    raise
                msg = "values cannot be sent or shared between threads (the program of the check is refused by the compiler)"
                path = write_replay(prop, "threads", config, seed, 0, [], msg, str(e).splitlines())
                results.append({"evaluations": 1, "nontrivial": 0, "skipped": 0, "rule": "", "groups": {}, "labels": {}, "samples": [],
                                "max_allocs": 0, "keys": set(), "config": config, "seed": seed})
                failure = {"group": "threads", "case": 0, "replay": path, "message": msg, "inputs": "the types NumericBuf and &Numeric"}
                break
            # other builds see other cases, except where builds are compared
            s = seed if prop == "C32" else seed + 1000 * i
            d = os.path.join(tmp, config + ".digests") if prop == "C32" else None
            r = run_config(prop, config, tier, s, scale * share, tmp, d)
            r["config"], r["seed"] = config, s
            results.append(r)
            if d and not r.get("failure"):
                digest_files.append((config, d))
            if r.get("failure"):
                failure = r["failure"]
                break
        if prop == "C32" and not failure:
            failure = compare_digests(prop, seed, digest_files, tmp)
        cov = {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": union_size([r["keys"] for r in results]) if all(r["keys"] for r in results) else 0,
            "rule": "cases are drawn from VERIF_SEED by the generators of the groups below; non-trivial: " + results[0]["rule"],
            "samples": results[0]["samples"][:12],
            "nontrivial": sum(r["nontrivial"] for r in results),
            "skipped_as_too_costly": sum(r["skipped"] for r in results),
            "builds": {r["config"]: {"seed": r["seed"], "evaluations": r["evaluations"], "groups": r["groups"]} for r in results},
            "classes": results[0]["labels"],
            "most_allocations_in_a_case": max(r["max_allocs"] for r in results),
            "longest_case_s": max(r.get("longest_case_s", 0) for r in results),
        }
        if failure:
            cov["failure"] = {k: str(failure[k])[:2000] for k in ("group", "case", "replay", "message", "inputs")}
            if not cov["samples"]:
                cov["samples"] = [str(failure["inputs"])[:2000]]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": level_of(prop), "coverage": cov,
            "assumptions": ASSUME, "wall_s": round(time.time() - t0, 3), "violations": 1 if failure else 0,
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if failure:
        print("%s: %s" % (prop, failure["message"][:1500]))
        print("inputs: %s" % str(failure["inputs"])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, failure["replay"]))
        return 1
    print("%s held: %d cases, %d distinct and non-trivial, %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


def replay(path):
    f = {}
    for l in open(path):
        m = re.match(r"(\w+): ?(.*)", l.rstrip("\n"))
        if m and m.group(1) not in f:
            f[m.group(1)] = m.group(2)
    prop, confs = f["property"], f["config"].split("+")
    args = ["replay", "--prop", prop, "--group", f["group"], "--choices", f["choices"]]
    outs = []
    for c in confs:
        build(c)
        rc, out = call(c, args, 600)
        if rc is None:
            raise Inconclusive("no answer within 600 s")
        print("[%s]\n%s" % (c, out[-6000:]))
        if crashed(rc):
            print(say_crash(rc, out))
        elif rc == 2:
            raise Inconclusive("the harness gave up")
        outs.append((rc, outputs_of(out)))
    if any(rc != 0 for rc, _ in outs) or any(o != outs[0][1] for _, o in outs):
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("the case passes")
    return 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        argv = argv[:i] + argv[i + 2:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) % (1 << 63)
    except ValueError:
        seed = 1
    if argv and argv[0] == "--setup":
        for c in CONFIGS:
            build(c)
        return 0
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    if argv and argv[0] == "--sweep":
        bad = []
        for p in argv[1:] or sorted(SCALE):
            try:
                if decide(p, tier, seed):
                    bad.append(p)
            except Inconclusive as e:
                print("%s: inconclusive: %s" % (p, e))
                bad.append(p)
            sys.stdout.flush()
        print("bad: %s" % bad)
        return 1 if bad else 0
    if len(argv) == 1 and argv[0] in SCALE:
        return decide(argv[0], tier, seed)
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except Inconclusive as e:
        print("no verdict: %s" % e)
        sys.exit(2)
