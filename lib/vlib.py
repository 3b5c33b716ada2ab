"""Common machinery of the checks: builds drivers/scenarios from /repo's working
tree, runs the exhaustive explorations, confirms violations by replay, writes the
evidence file."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GEMMLOWP_REPO", "/repo")
NCPU = max(1, min(16, os.cpu_count() or 8))

CONFIGS = {
    "x86_default": dict(cxx=["g++"], run=[]),
    "x86_sse4": dict(cxx=["g++", "-msse4.1"], run=[]),
    "x86_avx2": dict(cxx=["g++", "-mavx2", "-mfma", "-DGEMMLOWP_ENABLE_AVX2"], run=[]),
    "aarch64": dict(cxx=["aarch64-linux-gnu-g++"], run=["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"]),
    "armhf": dict(cxx=["arm-linux-gnueabihf-g++", "-mfpu=neon"], run=["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"]),
}
ALL = list(CONFIGS)


def _minirt(target, inc, triple, run):
    """A back end without an installed C library: clang, the headers of a target with the same data model, minirt."""
    def cmd():
        res = subprocess.run(["clang", "-print-resource-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
        return (["clang++"] + target + ["-DMINIRT", "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                 "-fno-stack-protector", "-fno-pic", "-fno-asynchronous-unwind-tables", "-nostdlib", "-fuse-ld=lld", "-nostdinc", "-nostdinc++",
                 "-isystem", os.path.join(VERIF, "minirt/include"), "-isystem", inc + "/c++/13", "-isystem", inc + "/c++/13/" + triple,
                 "-isystem", res + "/include", "-isystem", inc])
    return dict(cxx=cmd, run=run, extra=["minirt/rtcxx.cc", "minirt/rt.cc"], libs=[], optional=True)


_A64 = ("/usr/aarch64-linux-gnu/include", "aarch64-linux-gnu")
_A32 = ("/usr/arm-linux-gnueabihf/include", "arm-linux-gnueabihf")
_MIPS = ["-mmsa", "-mno-abicalls", "-G0"]
CONFIGS["msa64"] = _minirt(["--target=mips64el-linux-gnuabi64", "-march=mips64r5"] + _MIPS, *_A64, run=["qemu-mips64el", "-cpu", "Loongson-3A4000"])
CONFIGS["msa32"] = _minirt(["--target=mipsel-linux-gnu", "-march=mips32r5", "-mnan=2008", "-mfp64"] + _MIPS, *_A32, run=["qemu-mipsel", "-cpu", "P5600"])
CONFIGS["x86_32"] = _minirt(["--target=i686-linux-gnu", "-march=pentium4", "-msse4.1"], *_A32, run=["qemu-i386", "-cpu", "max"])
CONFIGS["wasm"] = _minirt(["--target=wasm32", "-msimd128", "-Wl,--no-entry", "-Wl,--export-memory", "-Wl,-z,stack-size=1048576"], *_A32, run=["node", os.path.join(VERIF, "minirt/wasm.js")])
CONFIGS["aarch64_dp"] = dict(cxx=["aarch64-linux-gnu-g++", "-march=armv8.2-a+dotprod", "-DGEMMLOWP_DOTPROD_KERNEL"], run=["qemu-aarch64", "-cpu", "max", "-L", "/usr/aarch64-linux-gnu"])
CONFIGS["x86_ndebug"] = dict(cxx=["g++", "-DNDEBUG"], run=[])  # assertions off, as in release builds
MSA = ["msa64", "msa32"]
MINI = MSA + ["x86_32"]
X86 = ["x86_default", "x86_sse4", "x86_avx2"]
ARM = ["aarch64", "armhf"]


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, info):
        super().__init__(info.get("msg", ""))
        self.info = info


def sh(cmd, timeout=None, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env,
                       text=True, errors="replace")
    return p.returncode, p.stdout, p.stderr


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vchk-%s-" % pid)
        self.parts = []
        self.assumptions = []
        self.known_hit = []
        self.bins = {}
        self.skipped = set()
        self.budget = 600 if tier == "quick" else 1e9

    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ---- building
    def build_all(self, specs):
        """specs: list of dict(name, kind='driver'|'mc', src, cfg, flags, extra)"""
        def one(s):
            out = os.path.join(self.dir, s["name"])
            src = os.path.join(VERIF, s["src"])
            if s.get("kind") == "mc":
                cmd = ["bash", os.path.join(VERIF, "mcrt/build.sh"), out, src] + s.get("flags", []) + [os.path.join(REPO, x) for x in s.get("extra", [])]
                env = dict(os.environ, GEMMLOWP_REPO=REPO, TMPDIR=self.dir)
                env.update(s.get("env", {}))
            else:
                c = CONFIGS[s["cfg"]]
                cxx = c["cxx"]() if callable(c["cxx"]) else c["cxx"]
                cmd = cxx + ["-std=c++17", s.get("opt", "-O2"), "-w", "-I" + REPO, "-I" + os.path.join(VERIF, "drivers"),
                                  src] + [os.path.join(REPO, x) for x in s.get("extra", [])] + s.get("flags", []) + [os.path.join(VERIF, x) for x in c.get("extra", [])] + ["-o", out] + c.get("libs", ["-lpthread"])
                if s.get("static", True):
                    cmd.append("-static")
                env = dict(os.environ, TMPDIR=self.dir)
            s["cmd"] = cmd
            rc, o, e = sh(cmd, env=env)
            if rc != 0 and s.get("kind") != "mc" and "impossible constraints" in e:
                # too few registers for an inline assembly block with what the compiler inlined around it
                for alt in (["-O1", "-fno-inline", "-fomit-frame-pointer"], ["-O2"]):
                    rc, o, e = sh(cmd + alt, env=env)
                    if rc == 0:
                        s["cmd"], s["flags"] = cmd + alt, s.get("flags", []) + alt
                        break
            if rc != 0 and s.get("units"):
                # the parts of the driver that name internals of the library no longer build: only what users see
                rc2, o2, e2 = sh(cmd + ["-DPUBLIC_ONLY"], env=env)
                if rc2 == 0:
                    rc, s["cmd"], s["flags"] = 0, cmd + ["-DPUBLIC_ONLY"], s.get("flags", []) + ["-DPUBLIC_ONLY"]
                    note = "%s: internals not found under their names, checked through the public interface only" % s["src"]
                    if note not in self.assumptions:
                        self.assumptions.append(note)
                        print("note: %s\n%s" % (note, (o + e)[-600:]))
            if rc != 0 and s.get("kind") != "mc" and CONFIGS[s["cfg"]].get("optional"):
                # a program outside what the minimal run-time supports (see minirt/): that back end is left out
                note = "not built for %s, left out there" % s["cfg"]
                if note not in self.assumptions:
                    self.assumptions.append(note)
                print("note: %s: %s\n%s" % (s["name"], note, (o + e)[-600:]))
                self.skipped.add(s["name"])
                return
            if rc != 0:
                raise CheckError("build of %s failed:\n%s\n%s" % (s["name"], " ".join(cmd), (o + e)[-4000:]))
            self.bins[s["name"]] = s
            s["bin"] = out
        t = time.time()
        with ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(one, s) for s in specs]:
                f.result()
        self.build_s = getattr(self, "build_s", 0) + time.time() - t

    # ---- bounded-exhaustive drivers
    def run_driver(self, name, args=(), seconds=None, jobs=NCPU, label=None):
        if name in self.skipped:
            return None
        s = self.bins[name]
        base = CONFIGS[s["cfg"]]["run"] + [s["bin"], "--tier", self.tier] + list(args)
        sec = seconds if seconds is not None else max(20, self.left() - 30)
        cmd = base + ["--jobs", str(jobs), "--seconds", "%.0f" % sec]
        t = time.time()
        rc, out, err = sh(cmd)
        if rc not in (0, 1):
            raise CheckError("driver %s ended with status %d\n%s" % (name, rc, (out + err)[-3000:]))
        r = json.loads(out.strip().splitlines()[-1])
        r["name"] = label or name
        r["cfg"] = s["cfg"]
        if rc == 1:
            info = dict(kind="driver", name=name, cfg=s["cfg"], fail_idx=r.get("fail_idx"), case=r.get("fail_case"), msg=r.get("msg"))
            # replay the single case before reporting
            rcmd = base + ["--jobs", "1", "--only", str(r["fail_idx"])]
            rc2, out2, err2 = sh(rcmd)
            how = "single case replay"
            for _ in range(3):
                if rc2 == 1:
                    break
                rc2, out2, err2 = sh(cmd)
                how = "full exploration replay"
            if rc2 != 1:
                m = r.get("msg") or ""
                if m.startswith("hang") or "signal 9" in m:  # may be the machine
                    raise CheckError("driver %s: a failure did not reproduce: %s" % (name, m))
                how = "not confirmed: depends on the schedule of real threads"
            info["confirmed_by"] = how
            info["build"] = s["cmd"]
            info["replay_args"] = ["--tier", self.tier] + list(args) + (["--jobs", "1", "--only", str(r["fail_idx"])] if how.startswith("single") else ["--jobs", str(jobs)])
            info["spec"] = {k: v for k, v in s.items() if k not in ("bin", "cmd")}
            info["stderr"] = (err2 or err)[-1500:]
            self.handle(info)
        self.parts.append(("driver", r, time.time() - t))
        return r

    # ---- stateless model checking runs
    def run_mc(self, name, scenario, preempt=2, spurious=1, stale=0, seconds=None, jobs=NCPU):
        s = self.bins[name]
        sec = seconds if seconds is not None else max(10, self.left() - 30)
        cmd = [s["bin"], "--scenario", scenario, "--preempt", str(preempt), "--spurious", str(spurious),
               "--stale", str(stale), "--jobs", str(jobs), "--seconds", "%.0f" % sec]
        t = time.time()
        rc, out, err = sh(cmd)
        if rc not in (0, 1):
            raise CheckError("mcrt %s/%s ended with status %d\n%s" % (name, scenario, rc, (out + err)[-3000:]))
        r = json.loads(out.strip().splitlines()[-1])
        if rc == 1 or r.get("violation"):
            if r.get("internal_error"):
                raise CheckError("mcrt internal error in %s/%s: %s" % (name, scenario, out[-2000:]))
            rp = r.get("replay", "")
            rcmd = [s["bin"], "--scenario", scenario, "--preempt", str(preempt), "--spurious", str(spurious),
                    "--stale", str(stale), "--replay", rp, "--verbose"]
            rc2, out2, err2 = sh(rcmd)
            if rc2 != 1:
                raise CheckError("mcrt %s/%s: violation did not replay: %s" % (name, scenario, r.get("violation")))
            info = dict(kind="mc", name=name, scenario=scenario, schedule=rp, preempt=preempt, spurious=spurious,
                        stale=stale, msg=str(r.get("violation")), build=s["cmd"],
                        spec={k: v for k, v in s.items() if k not in ("bin", "cmd")},
                        trace=(err2 + out2)[-8000:], confirmed_by="schedule replay")
            self.handle(info)
        r["name"] = name + "/" + scenario
        self.parts.append(("mc", r, time.time() - t))
        return r

    def handle(self, info):
        for (p, key, text) in known_findings():
            if p == self.pid and key in (info.get("msg") or ""):
                if (key, text) not in self.known_hit:
                    self.known_hit.append((key, text))
                return
        raise Violation(info)

    # ---- evidence
    def coverage(self):
        cov = {}
        mc = [r for k, r, _ in self.parts if k == "mc"]
        dr = [r for k, r, _ in self.parts if k == "driver"]
        samples = []
        sec = {id(r): round(t, 1) for _, r, t in self.parts}
        for r in mc:
            samples.append(dict(scenario=r["name"], seconds=sec[id(r)], preemption_bound="none" if r["preempt"] >= 1000 else r["preempt"], spurious=r["spurious"],
                                stale_reads=r["stale"], executions=r["executions"], states=r["states"], transitions=r["transitions"],
                                distinct_traces=r["distinct_traces"], distinct_outcomes=r["distinct_outcomes"],
                                exhaustive=r["exhaustive"]))
        for r in dr:
            samples.append(dict(driver=r["name"], seconds=sec[id(r)], config=r["cfg"], cases=r["cases"], calls=r["calls"], elements=r["elements"],
                                distinct_outcomes=r["outcomes"], exhaustive=r["exhaustive"], examples=r["samples"][-3:]))
        cov["states"] = sum(r["states"] for r in mc) + sum(r["cases"] for r in dr)
        cov["transitions"] = sum(r["transitions"] for r in mc) + sum(r["calls"] for r in dr)
        cov["traces_validated_against_impl"] = sum(r["executions"] for r in mc) + sum(r["cases"] for r in dr)
        cov["elements_compared_with_reference"] = sum(r["elements"] for r in dr)
        cov["distinct_outcomes"] = sum(r["distinct_outcomes"] for r in mc) + sum(r["outcomes"] for r in dr)
        cov["distinct_happens_before_traces"] = sum(r["distinct_traces"] for r in mc)
        cov["exhaustive"] = all(r["exhaustive"] for r in mc + dr)
        cov["samples"] = samples
        cov["build_seconds"] = round(getattr(self, "build_s", 0), 1)
        cov["counting"] = ("interleaving runs: states/transitions/executions of the real code under the controlled scheduler; "
                           "driver runs: states = distinct configurations or histories enumerated, transitions = calls into the "
                           "implementation, traces = configurations/histories whose every result was compared with the reference model")
        return cov

    def write_evidence(self, violations):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.coverage(),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations,
                  known_findings=[t for _, t in self.known_hit])
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def main(pid, tier, plan):
    c = Check(pid, tier)
    rc = 0
    try:
        try:
            plan(c)
            for key, text in c.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (pid, text))
            c.write_evidence(0)
            tot = c.coverage()
            print("%s: held on everything explored (%d states, %d transitions, exhaustive within bounds: %s, %.1f s)" % (
                pid, tot["states"], tot["transitions"], tot["exhaustive"], time.time() - c.t0))
        except Violation as v:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, pid + ".json")
            v.info["property"] = pid
            v.info["tier"] = tier
            v.info["how_to_replay"] = "python3 /verif/run.py replay %s" % p
            with open(p, "w") as f:
                json.dump(v.info, f, indent=1)
            c.write_evidence(1)
            print("violation: %s" % v.info.get("msg"))
            if v.info.get("case"):
                print("case: %s (%s)" % (v.info["case"], v.info.get("cfg")))
            if v.info.get("scenario"):
                print("scenario: %s schedule: %s" % (v.info["scenario"], v.info["schedule"]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
            rc = 1
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        rc = 2
    finally:
        c.cleanup()
    return rc


def replay(path):
    info = json.load(open(path))
    c = Check(info["property"], info["tier"])
    try:
        c.build_all([info["spec"]])
        s = c.bins[info["spec"]["name"]]
        if info["kind"] == "mc":
            cmd = [s["bin"], "--scenario", info["scenario"], "--preempt", str(info["preempt"]), "--spurious", str(info["spurious"]),
                   "--stale", str(info["stale"]), "--replay", info["schedule"], "--verbose"]
        else:
            cmd = CONFIGS[s["cfg"]]["run"] + [s["bin"]] + info["replay_args"]
        rc, o, e = sh(cmd)
        print(o + e)
        return rc
    finally:
        c.cleanup()
