#!/usr/bin/env python3
"""Driver of all checks:  run.py <ID> [quick|thorough]   |   run.py --setup   |   run.py --build rel|asan [ID]

Copies /repo's current sources (by content) into /verif/build/src, builds the library and the property's harness
with the build files of /verif, runs the generated cases, handles the known findings and writes the evidence."""
import fcntl, filecmp, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MK_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SRC = os.path.join(BUILD, "src")
TREES = ["libs/MeshKernel/src", "libs/MeshKernel/include", "libs/MeshKernelApi/src", "libs/MeshKernelApi/include",
         "extern/triangle", "tools/Version"]
EXT = (".cpp", ".hpp", ".c", ".h", ".in", ".cxx", ".hxx", ".inl", ".cc", ".tpp")


def conf():
    return json.load(open(os.path.join(HERE, "checks.json")))


def sync():
    """content copy: an unchanged file keeps its time stamp, so that nothing is rebuilt for it"""
    want = set()
    for t in TREES:
        for d, dirs, files in os.walk(os.path.join(REPO, t)):
            dirs[:] = [x for x in dirs if x != ".git"]
            for f in files:
                if f.endswith(EXT):
                    rel = os.path.relpath(os.path.join(d, f), REPO)
                    want.add(rel)
                    s, q = os.path.join(REPO, rel), os.path.join(SRC, rel)
                    if not os.path.exists(q) or not filecmp.cmp(s, q, shallow=False):
                        os.makedirs(os.path.dirname(q), exist_ok=True)
                        shutil.copyfile(s, q)
                        os.utime(q)
    for d, _, files in os.walk(SRC):
        for f in files:
            p = os.path.join(d, f)
            if os.path.relpath(p, SRC) not in want:
                os.remove(p)


def build(variant, target):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        filecmp.clear_cache()
        sync()
        b = os.path.join(BUILD, variant)
        env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_NOHASHDIR="1", CCACHE_SLOPPINESS="pch_defines,time_macros")
        log = os.path.join(BUILD, "build_%s.log" % variant)
        with open(log, "w") as out:
            def sh(cmd):
                return subprocess.call(cmd, stdout=out, stderr=subprocess.STDOUT, env=env) == 0
            ok = sh(["cmake", "-G", "Ninja", "-S", HERE, "-B", b, "-DMK_REPO=" + SRC, "-DMK_VARIANT=" + variant]) and \
                sh(["ninja", "-C", b, "-j", "8"] + target)
        if not ok:
            sys.stdout.write(open(log, errors="replace").read()[-6000:])
            print("BUILD FAILED (%s)" % variant)
            sys.exit(3)
    return b


def known(pid):
    """lines of known_findings.txt: 'finding: property=C01 key=<facet/key> :: text' and 'fixed: property=...'"""
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    return r


def main():
    if sys.argv[1] == "--setup":
        c = conf()
        vs = sorted({v for x in c.values() for v in [x.get("variant", "rel")]}, reverse=True)
        for v in vs:
            build(v, ["pbt_" + i for i, x in c.items() if x.get("variant", "rel") == v])
        return 0
    if sys.argv[1] == "--build":
        build(sys.argv[2], ["pbt_" + i for i in sys.argv[3:]] if len(sys.argv) > 3 else [])
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = conf()[pid]
    variant = cfg.get("variant", "rel")
    t0 = time.time()
    b = build(variant, ["pbt_" + pid])
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="run_%s_" % pid, dir=BUILD)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    out = os.path.join(tmp, "out.json")
    replay = os.path.join(BUILD, "replay", "%s_%s_%d.replay" % (pid, tier, seed))
    if os.path.exists(replay):
        os.remove(replay)
    env = dict(os.environ, OMP_NUM_THREADS=cfg.get("omp", "1"), ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="print_stacktrace=1")
    limit = cfg.get("budget", 240) if tier == "quick" else cfg.get("thorough_budget", 1500)
    # a quick run is bounded by the number of cases; the budget only guards against a slow machine
    cmd = [os.path.join(b, "pbt_" + pid), pid, "--tier=" + tier, "--seed=%d" % seed, "--out=" + out, "--replay-out=" + replay, "--tmp=" + tmp,
           "--budget=%d" % limit, "--jobs=8"]
    for k, _ in known(pid):
        cmd += ["--known", k]
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit + 400)
        txt, rc = p.stdout.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        txt, rc = (e.stdout or b"").decode(errors="replace") + "\ntimed out\n", 4
    sys.stdout.write(txt)
    st = {}
    if os.path.exists(out):
        st = json.load(open(out))
    hits = st.get("known_hits", {})
    for k, text in known(pid):
        print("KNOWN-FINDING: property=%s %s [%s, seen %d times in this run]" % (pid, text, k, hits.get(k, 0)))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": st.get("evaluations", 0), "cases": st.get("cases", 0), "discarded": st.get("discarded", 0),
                       "nontrivial": st.get("nontrivial", 0), "distinct_nontrivial": st.get("distinct_nontrivial", 0),
                       "rule": st.get("rule", ""), "facets": st.get("facets", {}), "labels": st.get("labels", {}),
                       "known_finding_hits": hits, "samples": st.get("samples", []), "variant": variant, "build_s": round(tbuild, 1)},
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": 1 if rc == 1 else 0}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    return rc if rc in (0, 1) else 3


sys.exit(main())
