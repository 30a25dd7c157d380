#!/usr/bin/env python3
"""Driver of the checks.

  run.py C01            run the check of one property (VERIF_SEED, VERIF_TIER)
  run.py setup          build every variant once (a smoke test of the toolchain)
  run.py replay FILE    run a replay file written by a violation
  run.py list           the properties with a check

Everything is rebuilt from /repo's working tree into /verif/build (ignored by
git); /repo is only read.
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BRSKI_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
SHARDS = 8
FLAGS = {
    "asan": "-fsanitize=address,undefined -fno-sanitize=nonnull-attribute,alignment,vptr"
            " -fno-sanitize-recover=all -fno-omit-frame-pointer",
    "tsan": "-fsanitize=thread -fno-omit-frame-pointer",
    "plain": "-fno-omit-frame-pointer",  # memory is reused at once, as in a release build
}
MINI = "/opt/vp/brski-cmake/minini"
HTTPLIB = "/opt/vp/brski-cmake/httplib"

sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402


class Broken(Exception):
    pass


def sh(cmd, log, env=None, timeout=1500):
    with open(log, "ab") as f:
        f.write(("$ " + (cmd if isinstance(cmd, str) else " ".join(cmd)) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=f, stderr=f, env=env,
                           timeout=timeout)
    if r.returncode:
        tail = open(log, errors="replace").read()[-3000:]
        raise Broken(f"build step failed ({r.returncode}): {cmd}\n{tail}")


def build_env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CC"], e["CXX"] = "/usr/bin/gcc", "/usr/bin/g++"
    for k in ("GITHUB_SHA", "GITHUB_REF_TYPE", "CFLAGS", "CXXFLAGS", "LDFLAGS"):
        e.pop(k, None)
    return e


def build_repo(variant, want_bin, real):
    """Objects of /repo/src with the variant's sanitizers; returns link objects.
    Without `real` the HTTPS transport is left out: engine/net.cpp stands in for it."""
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, "build.log")
    open(log, "w").close()
    env = build_env()
    fl = "-Wno-error -w " + FLAGS[variant]
    if not os.path.exists(os.path.join(d, "build.ninja")):
        sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
            "-DBUILD_TESTING=OFF", "-DCMAKE_C_FLAGS=" + fl, "-DCMAKE_CXX_FLAGS=" + fl,
            "-DUSE_VOUCHER_OPENSSL=ON", "-DUSE_VOUCHER_WOLFSSL=OFF", "-DBUILD_OPENSSL3_LIB=OFF",
            "-DUSE_CPPHTTPLIB_LIB=ON", "-DFETCHCONTENT_SOURCE_DIR_CPP-HTTPLIB=" + HTTPLIB,
            "-DBUILD_LIB_MININI=OFF", "-DMinIni_DIR=" + MINI, "-DBUILD_JSMN=OFF",
            "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
            "-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS"], log, env)
    out = subprocess.run(["ninja", "-C", d, "-t", "targets", "all"], stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env, text=True)
    if out.returncode:
        raise Broken("ninja -t targets: " + out.stderr)
    objs = [l.split(":")[0] for l in out.stdout.splitlines()
            if re.match(r"src/.*\.(c|cpp|cc)\.o: ", l)]
    objs = [o for o in objs if not o.endswith("brski.cpp.o") and (real or "httplib_wrapper" not in o)]
    if not objs:
        raise Broken("no objects found in the build")
    sh(["ninja", "-C", d] + objs + (["brski"] if want_bin else []), log, env)
    return d, [os.path.join(d, o) for o in objs], log


def newest(paths):
    return max(os.path.getmtime(p) for p in paths)


def build(variant, harness, want_bin, extra_ld="", real=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    d, objs, log = build_repo(variant, want_bin, real)
    hd = os.path.join(d, "h")
    os.makedirs(hd, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(ROOT, "engine", "*.cpp")))
    if real:
        srcs = [x for x in srcs if os.path.basename(x) != "net.cpp"]
    srcs += [os.path.join(ROOT, "harness", h + ".cpp") for h in harness]
    hdrs = glob.glob(os.path.join(ROOT, "engine", "*.hpp")) + \
        glob.glob(os.path.join(ROOT, "harness", "*.hpp")) + \
        glob.glob(os.path.join(REPO, "src", "**", "*.h*"), recursive=True)
    hn = newest(hdrs)
    procs, hobjs = [], []
    for s in srcs:
        o = os.path.join(hd, os.path.basename(s)[:-4] + ".o")
        hobjs.append(o)
        if os.path.exists(o) and os.path.getmtime(o) > max(hn, os.path.getmtime(s)):
            continue
        cmd = (f"/usr/bin/g++ -std=c++17 -g1 -O1 -w {FLAGS[variant]} -I{ROOT} -I{REPO}/src "
               f"-c {s} -o {o}.tmp && mv {o}.tmp {o}")
        procs.append((cmd, subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE,
                                            stderr=subprocess.STDOUT, env=build_env())))
        if len(procs) % 12 == 0:
            procs[-12][1].wait()
    for cmd, p in procs:
        t = p.communicate()[0]
        if p.returncode:
            raise Broken("harness does not compile: %s\n%s" % (cmd, t.decode(errors="replace")[-3000:]))
    exe = os.path.join(hd, "pbt-" + "-".join(harness))
    sh(f"/usr/bin/g++ {FLAGS[variant]} -rdynamic -o {exe} {' '.join(hobjs)} "
       f"-Wl,--allow-multiple-definition -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free -Wl,--start-group {' '.join(objs)} -Wl,--end-group "
       f"-lssl -lcrypto -lminIni -lpthread {extra_ld}", log, build_env())
    fcntl.flock(lock, fcntl.LOCK_UN)
    return d, exe


def run_env(variant, d):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:handle_abort=1:malloc_context_size=5:quarantine_size_mb=32"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = ("halt_on_error=1:exitcode=66:report_signal_unsafe=0:"
                         "ignore_noninstrumented_modules=1:history_size=4:"
                         "allocator_may_return_null=1:die_after_fork=0:handle_abort=1")
    e["BRSKI_BIN"] = os.path.join(d, "src", "brski", "brski")
    e["VERIF_ROOT"] = ROOT
    e["TZ"] = "UTC0"
    for k in ("OPENSSL_CONF", "SSL_CERT_FILE", "SSL_CERT_DIR", "http_proxy", "https_proxy"):
        e.pop(k, None)
    return e


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def one(prop, cfg, seed, tier, wd, exe, env, only=None, cases=None, tag=""):
    out = os.path.join(wd, prop + tag + ".result.json")
    rep = os.path.join(wd, prop + tag + ".replay")
    for f in (out, rep):
        if os.path.exists(f):
            os.unlink(f)
    cap = 600 if tier == "quick" else cfg.get("thorough_cap", 3000)
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--shards", str(SHARDS), "--cases",
           str(cases or cfg[tier]), "--max-seconds", str(cap), "--shrink-seconds", "40",
           "--out", out, "--replay-out", rep]
    if cfg.get("flaky"):
        cmd += ["--flaky", "1"]
    if only:
        cmd += ["--only", only]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=cap + 240)
    txt = r.stdout.decode(errors="replace")
    if not os.path.exists(out):
        raise Broken(f"{prop}: the check program wrote no result (exit {r.returncode})\n" + txt[-3000:])
    return r.returncode, json.load(open(out)), rep, txt


def merge(a, b):
    """One result out of the runs of several build variants."""
    if a is None:
        return b
    for k in ("cases", "evaluations", "distinct_nontrivial", "discarded", "wall_s"):
        b[k] += a[k]
    for k in ("checks", "labels"):
        for n, x in a[k].items():
            b[k][n] = b[k].get(n, 0) + x
    b["samples"] = a["samples"] + b["samples"]
    return b


def parts(cfg):
    """(variant, harness files, real transport) of each program of a check."""
    return cfg.get("parts") or [(v, cfg["harness"], cfg.get("real", False))
                                for v in cfg.get("variants", ["asan"])]


def build_part(cfg, q):
    return build(q[0], q[1], cfg.get("bin", False), cfg.get("ld", ""), q[2])


def planned(cfg, tier):
    n = cfg[tier]
    return SHARDS * (sum(n) if isinstance(n, (list, tuple)) else n * len(parts(cfg)))


def check(prop):
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    exes = [(q[0],) + build_part(cfg, q) for q in parts(cfg)]
    d, exe = exes[0][1:]
    env = run_env(exes[0][0], d)
    os.makedirs(EVID, exist_ok=True)
    wd = os.path.join(BUILD, "run")
    os.makedirs(wd, exist_ok=True)
    t1 = time.time()
    res = None
    for i, (v, vd, vexe) in enumerate(exes):
        n = cfg[tier]
        n = n[i] if isinstance(n, (list, tuple)) else n
        variant = f"{v} {i}"
        rc, one_res, rep, txt = one(prop, cfg, seed, tier, wd, vexe, run_env(v, vd), cases=n)
        res = merge(res, one_res)
        if one_res["verdict"] != "held":
            break
    violations = 0
    lines = []
    kf_seen = []
    if res["verdict"] == "violated":
        violations = 1
        f = res["failure"]
        keep = os.path.join(wd, f"VIOLATION-{prop}.replay")
        txt_rep = open(rep, errors="replace").read().split("\n", 1)
        open(keep, "w").write(txt_rep[0] + f"\nvariant {variant}\n" + txt_rep[1])
        lines.append(f"{f['check']}: {f['tag']}: {f['message']}")
        lines.append(f"VIOLATION property={prop} replay={keep}")
    elif res["verdict"] == "unreproduced":
        # a fault that three identical re-runs did not show: reported, not judged
        sys.stderr.write(txt[-3000:])
        print(f"{prop}: a failure did not reproduce: {res['failure']}")
    elif rc != 0 or res["verdict"] != "held":
        sys.stderr.write(txt[-3000:])
        raise Broken(f"{prop}: verdict {res['verdict']} (exit {rc}): {res.get('failure')}")
    # findings recorded and not repaired: the exact witness is run, nothing else
    for k in known_findings():
        if k["property"] != prop or k.get("status") == "fixed":
            continue
        krc, kres, krep, ktxt = one(prop, cfg, seed, tier, wd, exe, env, only=k["witness"],
                                    cases=1, tag="." + k["witness"])
        if kres["verdict"] == "violated" and kres["failure"]["tag"] == k["tag"]:
            kf_seen.append(k["what"])
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        elif kres["verdict"] == "violated":
            violations += 1
            keep = os.path.join(wd, f"VIOLATION-{prop}-{k['witness']}.replay")
            shutil.copy(krep, keep)
            lines.append(f"{k['witness']}: {kres['failure']['tag']}: {kres['failure']['message']}")
            lines.append(f"VIOLATION property={prop} replay={keep}")
        elif krc != 0:
            raise Broken(f"{prop}: witness {k['witness']}: {kres['verdict']}\n{ktxt[-2000:]}")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": res["evaluations"],
            "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": cfg["rule"],
            "samples": res["samples"][:12],
            "cases": res["cases"],
            "discarded": res["discarded"],
            "sub_checks": res["checks"],
            "distribution": res["labels"],
            "shards": SHARDS,
            "completed": res["cases"] >= planned(cfg, tier),
            "build_s": round(t1 - t0, 1),
            "known_findings_seen": kf_seen,
        },
        "assumptions": cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    print(f"{prop} {tier} seed={seed}: {res['cases']} cases, {res['distinct_nontrivial']} distinct "
          f"non-trivial, {res['wall_s']} s search, {ev['wall_s']} s in all: "
          f"{'VIOLATED' if violations else res['verdict']}")
    for l in lines:
        print(l)
    return 1 if violations else 0


COMMON_ASSUMPTIONS = [
    "OpenSSL, minIni, jsmn, libc and the sanitizer runtimes behave as documented",
    "the reference codecs, certificate and CMS builders of engine/env.cpp are right",
]


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    a = sys.argv[1]
    try:
        if a == "list":
            for p in sorted(PROPS):
                print(p, PROPS[p]["harness"])
            return 0
        if a == "setup":
            build("asan", ["h_contain"], False)
            print("setup ok")
            return 0
        if a == "replay":
            f = os.path.abspath(sys.argv[2])
            prop = open(f).readline().split()[1]
            cfg = PROPS[prop]
            head = open(f, errors="replace").read(300).split("\n")
            q = parts(cfg)[int(head[1].split()[2]) if head[1].startswith("variant ") else 0]
            v = q[0]
            d, exe = build_part(cfg, q)
            fl = ["--flaky", "1"] if cfg.get("flaky") else []
            return subprocess.run([exe, "--prop", prop] + fl + ["--replay", f], env=run_env(v, d)).returncode
        return check(a)
    except Broken as e:
        sys.stderr.write(f"check error: {e}\n")
        return 2
    except subprocess.TimeoutExpired as e:
        sys.stderr.write(f"check error: {e}\n")
        return 2


sys.exit(main())
