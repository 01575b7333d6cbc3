#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property: rebuilds the harness from /repo's working tree, model checks the specification in a small
scope, lets the real code run on inputs derived from the specification, and has TLC judge every recorded execution.
Exit 0: held. Exit 1 + VIOLATION line: broken. Exit 2: the check itself could not run.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = VERIF + "/spec"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8

from plans import PLANS  # noqa: E402


class ToolError(Exception):
    pass


def env(target=None):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             CARGO_TARGET_DIR=target or VERIF + "/target")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    for k in list(e):
        if k.startswith("CARGO_PROFILE_") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
            del e[k]
    return e


EXT = {x: "ext_" + x for x in ("id", "login_referrals", "mailbox_referrals", "metadata", "namespace", "utf8")}
EXT.update(starttls="starttls", condstore="ext_condstore_qresync")


def cargo_features(config):
    """Features of a configuration of spec/ImapGrammar.tla."""
    if config.startswith("only-"):
        return "ext,imap-codec/quirk_" + config[5:]
    if config.startswith("lone-"):
        return "imap-codec/" + EXT[config[5:]]
    return "" if config == "bare" else config


def build(features=None):
    """features: None, a configuration (see cargo_features), or "dbg" for a build with debug assertions."""
    cmd = ["cargo", "build", "--offline", "--locked"]
    target = VERIF + "/target"
    if features == "dbg":
        cmd += ["--profile", "dbg"]
    elif features:
        cmd += ["--no-default-features", "--features", cargo_features(features)]
    r = subprocess.run(cmd, cwd=VERIF + "/harness", env=env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stdout[-4000:])
    built = target + ("/dbg/vharness" if features == "dbg" else "/debug/vharness")
    binary = f"{target}/vharness-{features or 'full'}"
    shutil.copy2(built, binary + ".new")
    os.rename(binary + ".new", binary)
    return binary


def java(args, extra_env=None, timeout=800, xmx="2500m", cwd=SPEC):
    e = env()
    e.update(extra_env or {})
    cmd = ["java", "-Xss512m", "-Xmx" + xmx, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC"] + args
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out: " + " ".join(args))
    return r.returncode, r.stdout


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(work, module, consts, workers, cfg_body, timeout, expect=None):
    """Exhaustive check of the specification itself; expect: this invariant has to fail (a wrong design is told apart)."""
    cfg = f"{work}/{module}.cfg"
    with open(cfg, "w") as f:
        f.write(cfg_body)
        if consts:
            f.write("\nCONSTANTS\n" + "\n".join(f"  {k} = {v}" for k, v in consts.items()) + "\n")
    code, out = java(["-workers", str(workers), "-noGenerateSpecTE", "-metadir", f"{work}/md-{module}", "-config", cfg, f"{SPEC}/{module}.tla"], timeout=timeout, xmx="6g")
    if expect:
        if f"Invariant {expect} is violated" not in out:
            raise ToolError(f"specification {module} does not rule out the wrong design ({expect}):\n" + out[-3000:])
    elif "Model checking completed. No error has been found." not in out:
        raise ToolError(f"specification {module} does not satisfy its own properties:\n" + out[-3000:])
    return counts(out)


MIS = re.compile(r'^"MISMATCH (\d+) (.*)"$', re.M)


def judge_shard(work, module, shard, extra_env, timeout):
    e = {"VERIF_SHARD": shard}
    e.update(extra_env or {})
    code, out = java(["-workers", "1", "-noGenerateSpecTE", "-metadir", f"{shard}.md", "-config", f"{SPEC}/Trace.cfg", f"{SPEC}/{module}.tla"], e, timeout)
    with open(shard + ".log", "w") as f:
        f.write(out)
    if "Model checking completed. No error has been found." not in out:
        raise ToolError(f"TLC could not judge {shard} with {module}:\n" + out[-3000:])
    mis = [(int(i), " ".join(v.split())) for i, v in MIS.findall(out)]
    info = {}
    for k, v in re.findall(r'<<"COUNT", "([^"]+)", (\d+)>>', out):
        info[k] = info.get(k, 0) + int(v)
    return counts(out), mis, info


def load_known():
    p = VERIF + "/known-findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.plan = pid, tier, PLANS[pid]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = f"{VERIF}/work/{pid}"
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.trans = self.traces = 0
        self.notes, self.samples, self.violations, self.knownhits = [], [], [], []
        self.stats = {}
        self.replaydir = f"{VERIF}/work/replay/{pid}"
        shutil.rmtree(self.replaydir, ignore_errors=True)
        os.makedirs(self.replaydir)
        self.known = [k for k in load_known()["known"] if k["property"] == pid]

    def violation(self, what, rec):
        for k in self.known:
            if re.search(k["match"], what + " " + json.dumps(rec)):
                if k["what"] not in self.knownhits:
                    self.knownhits.append(k["what"])
                return
        path = f"{self.replaydir}/{len(self.violations)}.json"
        if len(self.violations) < 200:
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "what": what, "record": rec}, f)
        self.violations.append((what, path))

    def grammar(self, config):
        """The grammar of the specification as JSON, for the sentence sampler."""
        g = f"{self.work}/grammar-{config}.json"
        if not os.path.exists(g):
            code, out = java(["-workers", "1", "-noGenerateSpecTE", "-metadir", f"{self.work}/md-export", "-config", f"{SPEC}/Trace.cfg",
                              f"{SPEC}/GrammarExport.tla"], {"VERIF_GRAMMAR": g, "VERIF_CONFIG": config})
            if not os.path.exists(g):
                raise ToolError("grammar export failed:\n" + out[-2000:])
        return g

    def run_step(self, step, binary):
        """One harness run + TLC judgement of all its records."""
        name = step["name"]
        d = f"{self.work}/{name}"
        config = "full" if step.get("features") in (None, "dbg") else step["features"]
        scale = step.get("scale", {}).get(self.tier, 1)
        shards = step.get("shards", CORES)
        cmd = [binary, step["cmd"], "--prop", step.get("prop", self.pid), "--seed", str(self.seed), "--scale", str(scale),
               "--out", d, "--shards", str(shards)] + step.get("args", [])
        os.makedirs(d, exist_ok=True)
        if step.get("grammar"):
            cmd += ["--grammar", self.grammar(step.get("sample", config))]
        tmo = step.get("harness_timeout", 300 if self.tier == "quick" else 3000)
        try:
            r = subprocess.run(cmd, env=env(), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=tmo, errors="replace")
            rc = r.returncode
            err = r.stderr
        except subprocess.TimeoutExpired:
            rc, r, err = -999, None, "timeout"
        if rc != 0:
            cur = f"{d}/current"
            if os.path.exists(cur) and rc != 2:
                data = open(cur, "rb").read()
                self.violation(f"the code under test did not survive an input (exit {rc})", {"input": list(data[:20000]), "stderr": err[-500:]})
                return
            raise ToolError(f"harness failed ({rc}): {' '.join(cmd)}\n{err[-2000:]}")
        info = json.loads(r.stdout.strip().splitlines()[-1])
        for k, v in info.items():
            if isinstance(v, int):
                self.stats[f"{name}.{k}"] = self.stats.get(f"{name}.{k}", 0) + v
            else:
                self.stats[f"{name}.{k}"] = v
        tmo = 700 if self.tier == "quick" else 6000
        files = [f"{d}/shard{i}.ndjson" for i in range(shards)]
        with ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda f: judge_shard(self.work, step["module"], f, {"VERIF_CONFIG": config}, tmo), files))
        for f, ((gen, dist), mis, cnt) in zip(files, res):
            self.states += dist
            self.trans += gen
            for k, v in cnt.items():
                self.stats[f"{name}.spec.{k}"] = self.stats.get(f"{name}.spec.{k}", 0) + v
            if mis:
                lines = open(f).read().splitlines()
                for i, what in mis:
                    self.violation(what, json.loads(lines[i - 1]))
            if len(self.samples) < 3:
                l = open(f).readline()
                self.samples.append(json.loads(l) if len(l) < 1500 else l[:1500])
        self.traces += info.get("records", 0)
        if os.environ.get("VERIF_KEEP") != "1":
            for f in files:
                os.remove(f)

    def main(self):
        t0 = time.time()
        binaries = {}
        for step in self.plan["steps"]:
            ft = step.get("features")
            if step.get("tiers") and self.tier not in step["tiers"]:
                continue
            if ft not in binaries:
                try:
                    binaries[ft] = build(ft)
                except ToolError as e:
                    if ft in (None, "dbg"):
                        raise
                    binaries[ft] = None         # this build does not exist in this tree: nothing to judge
                    self.notes.append(f"{ft} does not build: {str(e)[-600:]}")
                    print(f"note: configuration {ft} does not build, skipped")
        tb = time.time() - t0
        for mc in self.plan.get("mc", []):
            c = mc[self.tier]
            if c is None:
                continue
            gen, dist = model_check(self.work, mc["module"], c.get("consts"), CORES, mc["cfg"], 600 if self.tier == "quick" else 6000, mc.get("expect"))
            self.states += dist
            self.trans += gen
            self.stats[f"mc.{mc['module']}.distinct"] = dist
        for step in self.plan["steps"]:
            if step.get("tiers") and self.tier not in step["tiers"]:
                continue
            ts = time.time()
            if binaries[step.get("features")] is None:
                continue
            self.run_step(step, binaries[step.get("features")])
            self.stats[f"{step['name']}.seconds"] = round(time.time() - ts, 1)
        wall = time.time() - t0
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.plan["level"],
              "coverage": {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                           "evaluations": sum(v for k, v in self.stats.items() if k.endswith((".runs", ".evaluations")) and isinstance(v, int)) or self.traces,
                           "distinct_nontrivial": sum(v for k, v in self.stats.items() if k.endswith(".distinct") and not k.startswith("mc.")) or self.traces,
                           "rule": self.plan["rule"], "samples": self.samples[:3], "details": self.stats, "notes": self.notes, "build_s": round(tb, 1)},
              "assumptions": self.plan.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.knownhits:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        if self.violations:
            for what, path in self.violations[:5]:
                print(f"  {what[:400]}")
                print(f"VIOLATION property={self.pid} replay={path}")
            print(f"{len(self.violations)} violations in {self.traces} recorded executions, {wall:.0f} s")
            return 1
        print(f"{self.pid} {self.tier}: held on {self.traces} recorded executions judged by TLC, {self.states} states, {wall:.0f} s (build {tb:.0f} s)")
        return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return Check(pid, tier).main()
    except ToolError as e:
        print(f"ERROR property={pid}: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
