#!/usr/bin/env python3
"""Development aid: systematic small changes to the code under test, to find out what the checks do not see.

  mutate.py list                      number of sites per file
  mutate.py run WORKER N SEED [FILE]  try N random changes in scratch copy /tmp/mut/wWORKER; log in /tmp/mut/log.WORKER

For each change: build the harness against the copy, run every quick step, compare the records with the unchanged
code's. New records are judged by TLC (CAUGHT/UNJUDGED); if there are none or all are allowed and the tests pass too,
the change is a survivor, to be looked at by hand.
"""
import glob, hashlib, json, os, random, re, subprocess, sys, time
sys.path.insert(0, "/verif")
import check
from plans import PLANS
BASE = "/tmp/mut"
FILES = sorted(glob.glob("/repo/imap-codec/src/**/*.rs", recursive=True) + glob.glob("/repo/imap-types/src/**/*.rs", recursive=True))
SKIP = ("arbitrary.rs", "lib.rs", "error.rs", "testing.rs", "state.rs")
OPS = [
    (r"==", ["!="]), (r"!=", ["=="]), (r"(?<![<=>-])<=(?!=)", ["<"]), (r"(?<![=>-])>=(?!=)", [">"]),
    (r"(?<= )< (?=[\w(])", ["<= "]), (r"(?<= )> (?=[\w(])", [">= "]), (r"&&", ["||"]), (r"\|\|(?! )", []), (r" \|\| ", [" && "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.\.=", [".."]),
    (r"\bmany0\(", ["many1("]), (r"\bmany1\(", ["many0("]), (r"separated_list0", ["separated_list1"]), (r"separated_list1", ["separated_list0"]),
    (r"tag_no_case\(", ["tag("]), (r"\bnumber64\b(?=[,)(])", ["number"]), (r"\bnz_number\b(?=[,)(])", ["number"]),
    (r"\bastring\b(?=[,)(])", ["string", "atom"]), (r"\bnstring\b(?=[,)(])", []), (r"is_some\(\)", ["is_none()"]), (r"is_empty\(\)", ["len() == 1"]),
    (r"saturating_(add|sub)", ["wrapping_\\1"]), (r"checked_(add|sub|mul)", []), (r"to_ascii_(upper|lower)case\(\)", ["to_owned()"]),
    (r"eq_ignore_ascii_case", ["eq"]), (r"unwrap_or\(", []),
    (r"if let Some\(", []), (r"LiteralMode::Sync", ["LiteralMode::NonSync"]), (r"LiteralMode::NonSync", ["LiteralMode::Sync"]),
    (r"\bopt\(", []), (r"\.rev\(\)", [""]), (r"\.skip\(1\)", [""]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
    (r"\.to_static\(\)", []), (r"Some\((?=[a-z])", []),
]
def sites(path):
    t = open(path).read()
    cut = len(t)
    m = re.search(r"#\[cfg\(test\)\]\s*\n\s*mod ", t)
    if m: cut = m.start()
    out = []
    lines_start = [0]
    for l in t[:cut].splitlines(True): lines_start.append(lines_start[-1] + len(l))
    for k in range(len(lines_start) - 1):
        a, b = lines_start[k], lines_start[k + 1]
        line = t[a:b]
        s = line.strip()
        if s.startswith(("//", "#[", "use ", "pub use", "#!", "*", "extern")) or not s: continue
        for rx, reps in OPS:
            for m in re.finditer(rx, line):
                for r in reps: out.append((a + m.start(), a + m.end(), m.expand(r)))
        for m in re.finditer(r"(?<![\w.\"#'])(\d+)(?![\w.\"'])", line):
            n = int(m.group(1)); 
            for r in (n + 1, n - 1):
                if r >= 0: out.append((a + m.start(), a + m.end(), str(r)))
        for m in re.finditer(r"b'(\\?.)'", line):
            for r in ("b'Q'",): out.append((a + m.start(), a + m.end(), r))
        for m in re.finditer(r'b?"((?:[^"\\]|\\.)+)"', line):
            if "error" in line.lower() or "panic" in line or "expect(" in line or "#[" in line or "unreachable" in line: continue
            inner = m.group(1)
            if len(inner) > 1 and "\\" not in inner and "{" not in inner:
                out.append((a + m.start(), a + m.end(), m.group(0).replace(inner, inner[:-1])))
                if inner.upper() != inner.lower(): out.append((a + m.start(), a + m.end(), m.group(0).replace(inner, inner.swapcase())))
            elif inner in (" ", "(", ")"):
                out.append((a + m.start(), a + m.end(), m.group(0).replace(inner, "")))
        # statement deletion
        if re.match(r"^\s*(ctx\.|write!|self\.|[a-z_.]+\.encode_ctx|list_with|join_)[^;]*;\s*$", line) or re.match(r"^\s*\w[\w.]*\([^;]*\)\?;\s*$", line):
            out.append((a, b, "\n"))
        # an alternative of alt(( or an arm on one line
        if re.match(r"^\s*(map|value|tag|tag_no_case|preceded|delimited|terminated|map_res)\(.*\),\s*$", line) or re.match(r"^\s*[A-Za-z_:]+(\(.*\)|\{.*\})? => [^{]*,\s*$", line):
            out.append((a, b, "\n"))
    return t, out
def steps():
    seen, res = set(), []
    for pid, p in PLANS.items():
        for s in p["steps"]:
            if s["cmd"] == "taggen" or s.get("features"): continue
            key = (s["cmd"], tuple(s.get("args", [])), pid if s["cmd"] in ("frag", "ctor", "gram") else "")
            if s["cmd"] == "gram" and s["args"][1] == "enc" and pid == "C09": pass
            if key in seen: continue
            seen.add(key); res.append((pid, s))
    return res
def run(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def lines_of(d):
    out = {}
    for f in glob.glob(d + "/shard*.ndjson"):
        for l in open(f):
            if l.startswith('{"k":"nop"'): continue
            out[hashlib.md5(l.encode()).digest()] = l
    return out
def harness(binary, d, base=None):
    """run all steps; return list of (pid, step, new lines) or the hashes"""
    from concurrent.futures import ThreadPoolExecutor
    def one(x):
        pid, s = x
        o = f"{d}/{pid}-{s['name']}"
        run(f"rm -rf {o}")
        sc = s["scale"]["quick"]
        r = run(f"timeout 240 {binary} {s['cmd']} {' '.join(s.get('args', []))} --prop {pid} --seed 1 --scale {sc} --out {o} --shards 2 --grammar {BASE}/grammar.json")
        L = lines_of(o)
        run(f"rm -rf {o}")
        key = pid + s["name"]
        if base is None: return (key, set(L))
        if r.returncode != 0: return (key, s, "crash " + r.stderr[-200:])
        new = [v for k, v in L.items() if k not in base[key]]
        return (key, s, new) if new or len(L) < 0.9 * len(base[key]) else None
    with ThreadPoolExecutor(4) as ex:
        return [x for x in ex.map(one, steps()) if x]
def env(w):
    e = check.env(f"{BASE}/w{w}/htarget"); e["CARGO_INCREMENTAL"] = "1"; return e
def setup(w):
    r = f"{BASE}/w{w}"
    if os.path.exists(r + "/ready"): return
    os.makedirs(r, exist_ok=True)
    run(f"cp -a /repo {r}/repo; cp -a /verif/harness {r}/harness; rm -rf {r}/repo/target")
    t = open(r + "/repo/Cargo.toml").read().replace('    "imap-codec/benchmark",\n', "").replace("[workspace]\n", '[workspace]\nexclude = ["imap-codec/benchmark"]\n', 1)
    open(r + "/repo/Cargo.toml", "w").write(t)
    run(f"cd {r}/repo && git add -A && git -c user.name=x -c user.email=x@x commit -qm scratch")
    run(f"sed -i 's#/repo/#{r}/repo/#' {r}/harness/Cargo.toml")
    run(f"sed -i 's/incremental = false/incremental = true/' {r}/harness/Cargo.toml")
    b = subprocess.run(["cargo", "build", "--offline"], cwd=r + "/harness", env=env(w), capture_output=True, text=True)
    assert b.returncode == 0, b.stderr[-2000:]
    for f in ("", "--all-features"): print(test(w, f))
    open(r + "/ready", "w")
def test(w, f):
    e = check.env(f"{BASE}/w{w}/ttarget"); e["CARGO_INCREMENTAL"] = "1"; e["CARGO_PROFILE_DEV_DEBUG"] = "0"; e["CARGO_PROFILE_TEST_DEBUG"] = "0"
    r = subprocess.run(f"timeout 500 cargo test --workspace --exclude imap-codec-fuzz --exclude imap-types-fuzz {f} --offline -q", shell=True, cwd=f"{BASE}/w{w}/repo", env=e, capture_output=True, text=True)
    return r.returncode
def judge(w, s, new):
    d = f"{BASE}/w{w}/judge"; run(f"rm -rf {d}"); os.makedirs(d)
    n = 0
    for c in range(0, min(len(new), 12000), 3000):
        f = f"{d}/s{c}.ndjson"; open(f, "w").write("".join(new[c:c + 3000]))
        try: _, mis, _ = check.judge_shard(d, s["module"], f, {}, 900)
        except check.ToolError as e: return "tool error " + str(e)[-300:].replace("\n", " ")
        if mis: return f"{len(mis)} mismatches, e.g. {mis[0][1][:150]}"
    return ""
def main():
    if sys.argv[1] == "list":
        for f in FILES:
            if not f.endswith(SKIP): print(len(sites(f)[1]), f)
        return
    w, n, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    only = sys.argv[5] if len(sys.argv) > 5 else ""
    setup(w)
    root = f"{BASE}/w{w}/repo"
    binary = f"{BASE}/w{w}/htarget/debug/vharness"
    run(f"git -C {root} checkout -q -- .")
    subprocess.run(["cargo", "build", "--offline"], cwd=f"{BASE}/w{w}/harness", env=env(w), capture_output=True)
    t0 = time.time()
    base = dict(harness(binary, f"{BASE}/w{w}/out"))
    two = harness(binary, f"{BASE}/w{w}/out", base)
    log = open(f"{BASE}/log.{w}", "a")
    def say(*a):
        print(*a, file=log, flush=True)
    say(f"# base {time.time() - t0:.0f} s, not deterministic: {[k for k, _, _ in two]}")
    nondet = {k for k, _, _ in two}
    rnd = random.Random(seed)
    allsites = []
    for f in FILES:
        if f.endswith(SKIP) or only not in f: continue
        t, ss = sites(f)
        allsites += [(f, x) for x in ss]
    rnd.shuffle(allsites)
    done = 0
    for f, (a, b, rep) in allsites:
        if done >= n: break
        t = open(f).read()
        g = f.replace("/repo", root, 1)
        ln = t[:a].count("\n") + 1
        tag = f"{f[6:]}:{ln} `{t[a:b].strip()[:70]}` -> `{rep.strip()[:50]}` | {t.splitlines()[ln - 1].strip()[:90]}"
        open(g, "w").write(t[:a] + rep + t[b:])
        try:
            r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=f"{BASE}/w{w}/harness", env=env(w), capture_output=True, text=True)
            if r.returncode: continue
            done += 1
            diff = [x for x in harness(binary, f"{BASE}/w{w}/out", base) if x[0] not in nondet]
            verdict = ""
            for key, s, new in sorted(diff, key=lambda x: len(x[2])):
                if isinstance(new, str): verdict = f"CAUGHT {key} {new}"; break
                v = judge(w, s, new) if new else ""
                if v: verdict = f"CAUGHT {key} {v}"; break
            if verdict: say(verdict[:130], "::", tag); continue
            tests = test(w, "") or test(w, "--all-features")
            say(("tests-fail" if tests else "SURVIVOR") + f" (changed records in {[(k, len(x)) for k, _, x in diff]})", "::", tag)
        finally:
            open(g, "w").write(t)
    say("# done")
main()
