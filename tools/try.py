#!/usr/bin/env python3
"""Developer aid: run one harness step and show its mismatches compactly."""
import sys, json, re, os
sys.path.insert(0, "/verif")
import check
from concurrent.futures import ThreadPoolExecutor
import argparse, subprocess
a = argparse.ArgumentParser()
a.add_argument("module"); a.add_argument("-n", type=int, default=12); a.add_argument("--features"); a.add_argument("rest", nargs=argparse.REMAINDER)
a = a.parse_args()
b = check.build(a.features)
d = "/verif/work/try"; subprocess.run(["rm", "-rf", d]); os.makedirs(d)
cf = a.features if a.features and a.features != "dbg" else "full"
g = f"/verif/work/grammar-{cf}.json"
if not os.path.exists(g) or os.path.getmtime(g) < max(os.path.getmtime(f"/verif/spec/{m}.tla") for m in ("Peg", "ImapGrammar")):
    c, o = check.java(["-workers", "1", "-noGenerateSpecTE", "-metadir", d + "/md", "-config", check.SPEC + "/Trace.cfg", check.SPEC + "/GrammarExport.tla"], {"VERIF_GRAMMAR": g, "VERIF_CONFIG": cf})
    if "No error" not in o: print(o[-2000:]); sys.exit(1)
r = subprocess.run([b] + a.rest + ["--out", d, "--shards", "8", "--grammar", g], text=True, capture_output=True)
print(r.stdout[-600:], r.stderr[-600:])
import time; t = time.time()
with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(lambda i: check.judge_shard(d, a.module, f"{d}/shard{i}.ndjson", {"VERIF_CONFIG": cf}, 1500), range(8)))
def untok(t):
    s = ""
    ins = False
    for x in t:
        if ins and x != ")s":
            s += x if len(x) == 1 or not x[1:].isdigit() else "\\x%02x" % int(x[1:])
        elif x == "s(": s += ' "'; ins = True
        elif x == ")s": s += '"'; ins = False
        elif x == "n": s += " "
        else: s += x
    return s
k = 0
for i, (c, mis, info) in enumerate(res):
    L = open(f"{d}/shard{i}.ndjson").read().splitlines()
    for j, what in mis:
        if "REFERRAL" in bytes(x % 256 for x in json.loads(L[j-1]).get("e", [])).decode("latin1"): continue
        k += 1
        if k > a.n: continue
        rec = json.loads(L[j - 1])
        print("----", rec.get("k"), rec.get("m"), rec.get("src", ""))
        if "b" in rec: print("IN  ", bytes(rec["b"]))
        if "e" in rec: print("ENC ", bytes(x if x < 256 else 124 for x in rec["e"]))
        if rec.get("r") and isinstance(rec["r"], dict) and rec["r"].get("v"): print("GOT ", untok(rec["r"]["v"])[:1500])
        if rec.get("v") and rec["k"] != "panic": print("VAL ", untok(rec["v"])[:1500])
        w0 = what.replace('\\"', '"')
        w = re.sub(r'<<((?:"[^"]*"(?:, )?|"\\""(?:, )?)+)>>', lambda m: untok([x.replace('\\"', '"').replace("\\\\", "\\") for x in re.findall(r'"((?:\\.|[^"\\])*)"', m.group(1))]) if len(m.group(1)) > 30 else m.group(0), what.replace('\\"', '"') if what.count('\\"') > what.count('"') / 2 else what)
        q = re.findall(r'<<((?:"(?:\\\\.|[^"])*"(?:, )?)+)>>', w0)
        if "value" in w0[:20] or "means" in w0[:30]:
            tl = [[x for x in re.findall(r'"((?:\\\\.|[^"\\\\])*)"', y)] for y in q if len(y) > 12]
            if "means" in w0[:30]: tl = [rec["v"]] + tl
            tl = [[x.replace('\\\\"', '"') for x in y] for y in tl]
            if len(tl) >= 2:
                x, y = tl[0], tl[-1]; z = 0
                while z < min(len(x), len(y)) and x[z] == y[z]: z += 1
                print("  code:", untok(x[max(0, z - 60):z]), ">>>>", untok(x[z:z + 80])); print("  spec:", ">>>>", untok(y[z:z + 80])); continue
        print("WHY ", w[:900])
print("mismatches", k, "time", round(time.time() - t, 1))
