#!/usr/bin/env python3
"""Runs the check of one property: builds the explorers from /repo's working tree in every encoding
configuration, runs them, judges the outcome against known-findings.txt, writes the evidence file.

usage: check.py <property> [quick|thorough]
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run."""
import json, os, re, resource, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings", RUST_BACKTRACE="0")
# The optional third-party types and the nested compositions are explored in the default and the
# all-features configuration, everything else in all four.
CONFIGS = {"varint-spec": ["spec", "nest", "opt"], "fixed-spec": ["spec", "fixed", "nest", "opt"], "varint": [], "fixed": ["fixed"]}

sys.path.insert(0, os.path.join(HERE, "tools"))
from table import CHECKS


class Broken(Exception):
    pass


def sh(cmd, cwd, log, timeout=840, env=None):
    with open(log, "w") as f:
        try:
            return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return 124


def build(pkg, cfg, feats, bins, jobs, env=None):
    target = os.path.join(BUILD, cfg)
    os.makedirs(target, exist_ok=True)
    log = os.path.join(target, os.path.basename(pkg) + "-build.log")
    cmd = ["cargo", "build", "--offline", "--locked", "--target-dir", target, "-j", str(jobs)]
    if feats:
        cmd += ["--features", ",".join(feats)]
    for b in bins:
        cmd += ["--bin", b]
    for n in (jobs, 2, 1):
        cmd[cmd.index("-j") + 1] = str(n)
        rc = sh(cmd, pkg, log, env=env)
        # a compiler ended for want of memory says nothing about the code
        if rc == 0 or not re.search(r"signal: 9|SIGKILL", open(log, errors="replace").read()):
            return rc, log
    raise Broken(f"the compiler was killed, even alone; log {log}")


def errors(log):
    """The rustc errors of a build log."""
    t = open(log, errors="replace").read()
    return re.findall(r"^error(?:\[E\d+\])?: .*(?:\n(?!\n).*)*", t, re.M)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_bin(prop, tier, cfg, b, threads):
    exe = os.path.join(BUILD, cfg, "debug", b)
    out = os.path.join(BUILD, cfg, f"{b}.json")
    if os.path.exists(out):
        os.unlink(out)
    env = dict(ENV, VERIF_TIER=tier, MC_THREADS=str(threads))
    try:
        p = subprocess.run([exe, out], env=env, capture_output=True, text=True, errors="replace",
                           preexec_fn=limits, timeout=7200 if tier == "thorough" else 800)
    except subprocess.TimeoutExpired:
        return dict(config=cfg, bin=b, died="no answer within the time limit")
    if p.returncode == 0 and os.path.exists(out):
        r = json.load(open(out))
        r["bin"] = b
        return r
    tail = [l for l in (p.stdout + "\n" + p.stderr).splitlines() if l.strip()][-3:]
    return dict(config=cfg, bin=b, died=f"exit {p.returncode}: " + " | ".join(tail))


def run_generated(prop, tier, c, violations):
    """Generates the property's revision histories, builds and runs them. The types are consistent
    declarations, so the derive has to accept them and what it derives has to compile."""
    import gen
    out = os.path.join(BUILD, "gen-src", prop)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    bins = gen.generate(prop, tier, out)
    cfgs = c.get("gen_configs", ["varint-spec", "fixed"] if tier == "quick" else list(CONFIGS))
    env = dict(ENV, MC_GEN=out)

    def one(cfg):
        feats, name = [f for f in CONFIGS[cfg] if f not in ("opt", "nest")], "gen-" + cfg
        rc, log = build(os.path.join(HERE, "gen"), name, feats, bins, max(2, 16 // len(cfgs)), env)
        if rc != 0:
            if "could not compile `gen`" not in open(log, errors="replace").read():
                raise Broken(f"building the explorer failed ({cfg}); log {log}\n" + "\n".join(errors(log)[:3]))
            violations.setdefault("a consistent declaration does not compile", []).extend(f"[{cfg}] {e}" for e in errors(log)[:5])
            return []
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda b: run_bin(prop, tier, name, b, 1), bins))
    with ThreadPoolExecutor(len(cfgs)) as ex:
        return [r for rs in ex.map(one, cfgs) for r in rs]


def known(prop):
    """Entries: finding: property=<id> key=<violation key, * matches anything> :: <what fails>"""
    out = []
    for l in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", l.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    c = CHECKS[prop]
    os.makedirs(BUILD, exist_ok=True)
    ev = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)

    violations = {}   # key -> list of descriptions
    results = []
    if "custom" in c:
        results, violations = c["custom"](dict(here=HERE, build=BUILD, env=ENV, tier=tier, sh=sh, cargo_build=build, run_bin=run_bin, errors=errors, prop=prop, Broken=Broken, configs=CONFIGS))
    early = ThreadPoolExecutor(1).submit(run_generated, prop, tier, c, violations) if c.get("gen") else None
    if "bins" in c:
        cfgs = c.get("configs", list(CONFIGS))
        pkg = os.path.join(HERE, "harness")
        bins = c["bins"]
        jobs = max(2, (os.cpu_count() or 8) * 3 // (2 * len(cfgs)))

        def one(cfg):
            feats, name = CONFIGS[cfg], cfg
            if not c.get("opt", True):
                feats, name = [f for f in feats if f not in ("opt", "nest")], cfg + "-plain"
            # the quick run spends more time compiling than exploring
            opt = {"CARGO_PROFILE_DEV_OPT_LEVEL": "0"} if tier == "quick" and not c.get("optimise") else {}
            name += "-o0" if opt else ""
            rc, log = build(pkg, name, feats, bins, jobs, dict(ENV, **opt))
            if rc != 0:
                e = errors(log)
                raise Broken(f"building the explorer failed ({cfg}); log {log}\n" + "\n".join(e[:3]))
            n = 8 if len(cfgs) < 3 else 4
            return [run_bin(prop, tier, name, b, n) for b in bins]
        with ThreadPoolExecutor(len(cfgs)) as ex:
            for r in ex.map(one, cfgs):
                results += r

    if early:
        results += early.result()

    cov = dict(evaluations=0, distinct=0, states=0, transitions=0, traces=0, tasks=0)
    samples, extra = [], {}
    for r in results:
        if "died" in r:
            violations.setdefault(f"{r['bin']} crashed or hung", []).append(f"[{r['config']}] {r['died']}")
            continue
        for k in cov:
            cov[k] += r.get(k, 0)
        for s in r["samples"][:3]:
            samples.append(f"[{r['config']}] {s}")
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
        for k, v in r["violations"].items():
            violations.setdefault(k, []).extend(f"[{r['config']}] {d}" for d in v)
        for b in r["broken"]:
            violations.setdefault("harness panic", []).append(f"[{r['config']}] {b}")

    kf = known(prop)
    new, seen = {}, {}
    for k, v in violations.items():
        for pat, what in kf:
            if re.fullmatch(".*".join(re.escape(x) for x in pat.split("*")), k):
                seen.setdefault(what, []).append(k)
                break
        else:
            new[k] = v
    for what in seen:
        print(f"KNOWN-FINDING: property={prop} {what}")

    level = c["level"]
    coverage = dict(exhaustive=True, samples=samples[:12], configurations=sorted({r["config"] for r in results}), tasks=cov["tasks"])
    if level == "model_checking":
        coverage.update(states=cov["states"], transitions=cov["transitions"], traces_validated_against_impl=cov["traces"])
    else:
        coverage.update(evaluations=cov["evaluations"], distinct_nontrivial=cov["distinct"], rule=c["rule"])
    if extra:
        coverage["breakdown"] = extra
    coverage["bounds"] = c["bounds"]
    e = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=c.get("assumptions", []),
             violations=len(new), wall_s=round(time.time() - t0, 1))
    json.dump(e, open(ev, "w"), indent=1)
    if new:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{prop}-{tier}.json")
        json.dump(dict(property=prop, tier=tier, rerun=f"python3 check.py {prop} {tier}", violations=new), open(path, "w"), indent=1)
        for k, v in list(new.items())[:10]:
            print(f"  {k}: {v[0][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    n = cov["states"] if level == "model_checking" else cov["evaluations"]
    print(f"{prop}: held; {n} {'states' if level == 'model_checking' else 'executions'}, {e['wall_s']} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as b:
        print(b)
        sys.exit(2)
