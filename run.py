#!/usr/bin/env python3
"""Builds one property's harness against /repo's current tree, runs it, writes evidence.

  run.py P05 [--tier quick|thorough] [--seed N] [--replay FILE] [--only SUB] [--scale X]

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..": broken.
Exit 2: no answer (the harness could not be built or run).
"""
import argparse, concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CXX, CC = "g++", "gcc"
SAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-g1", "-O1", "-w", "-fPIC", "-ftrivial-auto-var-init=pattern", "-I" + REPO, "-I" + VERIF + "/harness", "-I" + VERIF + "/harness/inc",
        "-I/usr/include/gdal"]


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def pkg(args):
    r = subprocess.run(["pkg-config"] + args, stdout=subprocess.PIPE, text=True)
    return r.stdout.split()


GROUPS = {
    "facts": ["msat/facts.cpp"],
    "hrit": ["msat/hrit/*.cpp", "msat/xrit/*.cpp"],
    "drivers": ["gdal/utils.cpp", "gdal/reflectance/*.cpp", "gdal/xrit/*.cpp", "gdal/grib/*.cpp", "msat/gdal/*.cpp"],
    "native": ["msat/msg-native/*.cpp"],
    "omtp": ["msat/omtp-ids/*.cc"],
    "hri": ["msat/hri/*.cpp"],
    "utils": ["msat/utils/string.cc", "msat/utils/sys.cc", "msat/utils/subprocess.cc", "msat/utils/term.cc",
              "msat/Progress.cpp", "msat/auto_arr_ptr.cpp"],
    "iniparser": ["msat/iniparser.c"],
    "image": ["tools/image.cpp"],
    "openmtp": ["msat/openmtp/*.cpp"],
    "thornsds": ["msat/thornsds_db1/*.cpp"],
    "netcdf": ["gdal/netcdf/*.cpp"],
    "plugin": ["gdal/msatgdalplugin.cpp", "gdal/msat2gdal.cpp"],
}
EXCLUDE = {"msat/hrit/MSG_data_image.cpp"}  # needs the PublicDecompWT submodule, absent here


def sources(groups):
    res = []
    for g in groups:
        for pat in GROUPS[g]:
            for f in sorted(glob.glob(os.path.join(REPO, pat))):
                if os.path.relpath(f, REPO) not in EXCLUDE:
                    res.append(f)
    return res


def filehash(p, cache={}):
    if p not in cache:
        try:
            with open(p, "rb") as f:
                cache[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            cache[p] = "-"
    return cache[p]


def compile_one(job):
    src, flags = job
    key = hashlib.sha1(("\0".join([src] + flags)).encode()).hexdigest()[:20]
    obj = os.path.join(BUILD, "obj", key + ".o")
    dep = obj + ".json"
    try:
        deps = json.load(open(dep))
        if os.path.exists(obj) and all(filehash(p) == h for p, h in deps.items()):
            return obj, None
    except (OSError, ValueError):
        pass
    comp = [CC] if src.endswith(".c") else [CXX, "-std=c++17"]
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh(comp + flags + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp])
    if r.returncode != 0:
        return None, r.stdout
    txt = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(tmp + ".d")
    mine = [p for p in txt if p.startswith(REPO) or p.startswith(VERIF)]
    json.dump({p: filehash(p) for p in mine}, open(dep, "w"))
    os.rename(tmp, obj)
    return obj, None


def library(srcs, flags, out):
    """An archive of the sources of the library and the tools' helpers that are not among srcs."""
    more = [f for pat in ("msat/**/*.c", "msat/**/*.cc", "msat/**/*.cpp", "gdal/*.cpp", "tools/*.cpp")
            for f in glob.glob(os.path.join(REPO, pat), recursive=True)]
    more = [f for f in more if f not in srcs and os.path.relpath(f, REPO) not in EXCLUDE and "test" not in os.path.relpath(f, REPO)]
    with concurrent.futures.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        objs = [o for o, _ in ex.map(compile_one, [(f, list(flags)) for f in more]) if o]
    if os.path.exists(out):
        os.unlink(out)
    sh(["ar", "crs", out] + objs)
    return out


def build_all(targets):
    """targets: list of (output, [sources], flags, linkflags)"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    jobs = {}
    for out, srcs, flags, link in targets:
        for s in srcs:
            jobs[(s, tuple(flags))] = None
    with concurrent.futures.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        for k, r in zip(jobs, ex.map(compile_one, [(s, list(f)) for s, f in jobs])):
            jobs[k] = r
    for k, (obj, err) in jobs.items():
        if obj is None:
            print("BUILD FAILED: %s\n%s" % (k[0], err[-4000:]))
            return False
    for out, srcs, flags, link in targets:
        objs = [jobs[(s, tuple(flags))][0] for s in srcs]
        sig = hashlib.sha1(("\0".join(objs + [filehash(o + ".json") for o in objs] + link)).encode()).hexdigest()
        sigf = out + ".sig"
        if os.path.exists(out) and os.path.exists(sigf) and open(sigf).read() == sig:
            continue
        r = sh([CXX] + [f for f in flags if f.startswith("-fsanitize")] + ["-o", out] + objs + link)
        if r.returncode != 0 and "undefined reference" in r.stdout:  # code that now uses other parts of the library
            lib = library(srcs, flags, out + ".a")
            r = sh([CXX] + [f for f in flags if f.startswith("-fsanitize")] + ["-o", out] + objs + [lib] + link)
        if r.returncode != 0:
            print("LINK FAILED: %s\n%s" % (out, r.stdout[-4000:]))
            return False
        open(sigf, "w").write(sig)
    return True


GDALLIBS = ["-lgdal", "-leccodes"]


def targets_for(prop):
    c = CHECKS[prop]
    san = c.get("san", SAN)
    flags = BASE + san
    srcs = [os.path.join(VERIF, "harness", f) for f in c["src"]] + sources(c["groups"])
    if "hrit" in c["groups"]:
        srcs.append(os.path.join(VERIF, "harness/image_stub.cpp"))
    link = list(c.get("libs", []))
    if "drivers" in c["groups"]:
        link += GDALLIBS
    if "image" in c["groups"]:
        flags = flags + ["-I" + REPO + "/tools"] + pkg(["--cflags", "Magick++"])
        link += pkg(["--libs", "Magick++"])
    if {"netcdf", "openmtp", "thornsds"} & set(c["groups"]):
        flags = flags + ["-I" + VERIF + "/harness/shim"]
        link += ["-lnetcdf"]
    out = os.path.join(BUILD, prop)
    t = [(out, srcs, flags, link + ["-lpthread"])]
    for name in c.get("tools", []):
        t.append(tool_target(name))
    return out, t


def tool_target(name):
    """A command line tool of /repo, built from its sources as they are, with ASan."""
    magick = pkg(["--cflags", "Magick++"]), pkg(["--libs", "Magick++"])
    flags = BASE + ["-I" + REPO + "/tools"] + SAN
    new = [os.path.join(VERIF, "harness/toolnew.cpp")]
    stub = [os.path.join(VERIF, "harness/image_stub.cpp")] + new
    if name == "msat":
        s = [REPO + "/tools/msat.cpp", REPO + "/tools/image.cpp"] + sources(["facts", "hrit", "drivers", "utils"]) + \
            [os.path.join(VERIF, "harness/gdalstub.cpp")] + stub
        return os.path.join(BUILD, "tool-msat"), s, flags + magick[0], GDALLIBS + magick[1]
    if name in ("xritdump", "XRIT2Image"):
        s = [REPO + "/tools/hrit/%s.cpp" % name] + sources(["facts", "hrit", "utils"]) + stub
        return os.path.join(BUILD, "tool-" + name), s, flags + magick[0], magick[1]
    if name in ("nativedump", "native2Image"):
        s = [REPO + "/tools/msg-native/%s.cpp" % name] + sources(["facts", "hrit", "native", "utils"]) + stub
        return os.path.join(BUILD, "tool-" + name), s, flags + magick[0], magick[1]
    if name.startswith("OpenMTP-IDS"):
        s = [REPO + "/tools/omtp-ids/%s.cc" % name] + sources(["facts", "omtp", "utils"]) + new
        return os.path.join(BUILD, "tool-" + name), s, flags, []
    shim = ["-I" + VERIF + "/harness/shim"]
    if name == "XRIT2NetCDF":
        s = [REPO + "/tools/hrit/XRIT2NetCDF.cpp"] + sources(["facts", "hrit", "utils"]) + stub
        return os.path.join(BUILD, "tool-" + name), s, flags + shim, ["-lnetcdf"]
    if name == "HRI2NetCDF":
        s = [REPO + "/tools/hri/HRI2NetCDF.cpp"] + sources(["facts", "hri", "utils"]) + new
        return os.path.join(BUILD, "tool-" + name), s, flags + shim, ["-lnetcdf"]
    if name in ("OpenMTP_info", "OpenMTP_to_NetCDF"):
        s = [REPO + "/tools/openmtp/%s.%s" % (name, "cc" if name == "OpenMTP_info" else "cpp")] + sources(["openmtp"]) + new
        return os.path.join(BUILD, "tool-" + name), s, flags + shim, ["-lnetcdf"]
    if name in ("db1_to_netcdf", "db1_to_image"):
        m = magick if name == "db1_to_image" else (shim, ["-lnetcdf"])
        s = [REPO + "/tools/thornsds_db1/%s.cpp" % name] + sources(["thornsds", "iniparser"]) + new
        return os.path.join(BUILD, "tool-" + name), s, flags + m[0], m[1]
    raise KeyError(name)


def known_findings(prop):
    """[(key, text)] of the entries that are findings (not fixed ones) for prop"""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            d = line[len("known:"):].strip().split(None, 2)
            if d[0] == "property=" + prop:
                res.append((d[1].split("=", 1)[1], d[2] if len(d) > 2 else ""))
    return res


def run_env(prop):
    env = dict(os.environ)
    env["OMP_NUM_THREADS"] = env["MAGICK_THREAD_LIMIT"] = "1"
    env["ASAN_OPTIONS"] = ("detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:detect_odr_violation=0:"
                           "abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=3000:"
                           "handle_abort=0:malloc_context_size=12:quarantine_size_mb=32:max_malloc_fill_size=16777216:malloc_fill_byte=190")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    env["VERIF_BUILD"] = BUILD
    env["VERIF_REPO"] = REPO
    env["GDAL_DRIVER_PATH"] = "disable"
    env["GDAL_PAM_ENABLED"] = env.get("GDAL_PAM_ENABLED", "NO")
    env["OMP_NUM_THREADS"] = "1"
    for k in ("MSAT_COMPUTE", "MSAT_INSTITUTION"):
        env.pop(k, None)
    env.update(CHECKS[prop].get("env", {}))
    return env


def release_main(prop, a):
    """Runs the cases of other harnesses over and over in one process: what they keep must not grow."""
    t0 = time.time()
    conf = CHECKS[prop]["release"]
    if a.replay:
        name = next((l.split()[1] for l in open(a.replay) if l.startswith("harness ")), None)
        if name not in conf or not build_all(targets_for(name)[1][:1]):
            sys.exit(2)
        sys.exit(subprocess.run([os.path.join(BUILD, name), "--release", "--release-cxx", conf[name].get("cxx", ""),
                                 "--replay", a.replay], env=run_env(name)).returncode)
    if not build_all([targets_for(n)[1][0] for n in conf]):
        sys.exit(2)
    tb = time.time() - t0
    if a.build_only:
        return
    rdir = os.path.join(BUILD, "release")
    os.makedirs(rdir, exist_ok=True)
    total = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0}
    by, labels, samples, unrepro, violations, cut = {}, {}, [], [], [], False
    for n, d in conf.items():
        if a.only and a.only not in n:
            continue
        stats = os.path.join(rdir, n + ".stats.json")
        if os.path.exists(stats):
            os.unlink(stats)
        scale = d["scale"] * float(a.scale) * (20 if a.tier == "thorough" else 1)
        # on a busy machine all harnesses get a part of what is left
        left = 600 - (time.time() - t0)
        deadline = str(max(2, min(40, int(2 * left / (len(conf) - len(by)))))) if a.tier == "quick" else "300"
        cmd = [os.path.join(BUILD, n), "--release", "--release-cxx", d.get("cxx", ""), "--seed", str(a.seed), "--tier", "quick",
               "--deadline", a.deadline or deadline, "--replaydir", rdir, "--stats", stats, "--workers", "8",
               "--scale", str(scale)]
        r = subprocess.run(cmd, env=run_env(n))
        try:
            s = json.load(open(stats))
        except (OSError, ValueError):
            print("the harness %s ended with status %d and gave no result" % (n, r.returncode))
            sys.exit(2)
        for k in total:
            total[k] += s[k]
        by[n] = {k: {"evaluations": v["evaluations"], "distinct_nontrivial": v["distinct_nontrivial"]} for k, v in s["subs"].items()}
        cut = cut or s["cut_by_deadline"]
        unrepro += [n + " " + u for u in s["unreproduced"]]
        for k, v in list(s["subs"].items())[:3]:
            samples += ["%s %s: %s" % (n, k, x) for x in v["samples"][:1]]
        if s["violations"]:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rep = os.path.join(VERIF, "replays", prop + ".replay")
            with open(rep, "w") as f:
                f.write("harness %s\n" % n + open(s["replay"]).read())
            violations.append((n, s["message"], rep))
            break
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": total["evaluations"], "distinct_nontrivial": total["distinct_nontrivial"],
                       "rule": "a case of another harness, run 4 times (14 if anything grew) in one process with the same choices; non-trivial by the rule of that harness",
                       "samples": samples, "by_subcheck": by, "discarded": total["discarded"], "cut_by_deadline": cut,
                       "unreproduced": unrepro, "build_s": round(tb, 1)},
          "assumptions": CHECKS[prop].get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.0f s%s" % (
        prop, a.tier, a.seed, total["evaluations"], total["distinct_nontrivial"], time.time() - t0, " (stopped by the deadline)" if cut else ""))
    for n, m, rep in violations:
        print("  %s: %s" % (n, m))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
    if violations:
        sys.exit(1)
    if total["evaluations"] == 0:
        print("no case was run")
        sys.exit(2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--deadline")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    if "release" in CHECKS[prop]:
        return release_main(prop, a)
    out, targets = targets_for(prop)
    if not build_all(targets):
        sys.exit(2)
    tb = time.time() - t0
    if a.build_only:
        return
    known = known_findings(prop)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    env = run_env(prop)
    if a.replay:
        sys.exit(subprocess.run([out, "--replay", a.replay, "--known", ",".join(k for k, _ in known)], env=env).returncode)
    stats = os.path.join(BUILD, prop + ".stats.json")
    if os.path.exists(stats):
        os.unlink(stats)
    deadline = a.deadline or str(CHECKS[prop].get("deadline", {}).get(a.tier, 300 if a.tier == "quick" else 600))
    cmd = [out, "--seed", str(a.seed), "--tier", a.tier, "--deadline", deadline, "--replaydir", rdir, "--stats", stats,
           "--workers", "8", "--scale", a.scale, "--known", ",".join(k for k, _ in known)]
    if a.only:
        cmd += ["--only", a.only]
    r = subprocess.run(cmd, env=env)
    try:
        s = json.load(open(stats))
    except (OSError, ValueError):
        print("the harness for %s ended with status %d and gave no result" % (prop, r.returncode))
        sys.exit(2)
    samples = []
    for name, d in s["subs"].items():
        for x in d["samples"][:2]:
            samples.append(name + ": " + x)
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": s["evaluations"], "distinct_nontrivial": s["distinct_nontrivial"], "rule": s["rule"],
            "samples": samples, "by_subcheck": {k: {"evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"]}
                                                for k, d in s["subs"].items()},
            "classes": s["labels"], "discarded": s["discarded"], "cut_by_deadline": s["cut_by_deadline"],
            "unreproduced": s["unreproduced"], "build_s": round(tb, 1),
        },
        "assumptions": CHECKS[prop].get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": s["violations"],
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for key, text in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, text))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.0f s%s" % (
        prop, a.tier, a.seed, s["evaluations"], s["distinct_nontrivial"], time.time() - t0,
        " (stopped by the deadline)" if s["cut_by_deadline"] else ""))
    for u in s["unreproduced"]:
        print("not reproduced, not reported: " + u)
    if s["violations"]:
        print("  " + s["message"])
        print("VIOLATION property=%s replay=%s" % (prop, s["replay"]))
        sys.exit(1)
    if s["evaluations"] == 0:
        print("no case was run")
        sys.exit(2)


if __name__ == "__main__":
    main()
