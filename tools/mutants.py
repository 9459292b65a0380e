#!/usr/bin/env python3
"""Runs recorders and validation (no models) of several properties against one mutated source file.

usage: mutants.py list.jsonl out.jsonl [gen]   each line of list: {"id", "File", "Line", "Old", "New", ...};
the mutated file is /tmp/mut/ov/<id>.go.  Nothing in /repo is changed: the file is laid over it.
"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import check
from plans import PLANS

ORDER = [
    ("message/", "C18 C01 C12 C03 C14 C28"), ("crypto/", "C26 C01 C28"), ("fingerprint/", "C19 C28"), ("curve/", "C20 C01 C18 C28"), ("identity/keys", "C20 C05 C01 C28"),
    ("identity/store", "C21 C05"), ("prekey/", "C21 C07 C01"), ("senderkey/", "C12 C23 C25"), ("ratchet/", "C23 C01 C06 C28"),
    ("session/group_", "C12 C27 C14 C15 C13 C17 C25 C22 C21 C23 C16"), ("session/store", "C21 C04 C01 C12"), ("session/record", "C27 C11 C01 C24 C17"),
    ("session/state", "C27 C01 C10 C11 C24 C06 C17 C09 C23"), ("session/session", "C06 C05 C01 C23 C07 C17 C02 C04 C03"), ("session/cipher", "C01 C05 C17 C02 C03 C04 C07 C08 C09 C10 C06 C11"),
    ("protocol/", "C21 C28"), ("distribution/", "C18 C12 C16"), ("direction/", "C05"), ("address/", "C16"), ("perrors", "C01 C02 C05"), ("", "C01 C12")]


class Fast(check.Check):
    def __init__(self, pid, binary, gens):
        super().__init__(pid, "quick", 1)
        self.given, self.gens = binary, gens

    def go(self):
        plan = PLANS[self.pid]
        self.bin = self.given
        with cf.ThreadPoolExecutor(32) as ex:
            by = {}
            if self.gens:
                for (module, name, limit, sub, tr) in plan.get("gen", []):
                    by.setdefault(tr, []).append(ex.submit(self.generate, module, name, limit, self.pid, sub))
            for (sub, count, tr) in plan.get("rec", []):
                by.setdefault(tr, []).append(ex.submit(self.record, sub, self.pid, count))
            fut = []
            for tr, lists in by.items():
                lists = [x.result() for x in lists]
                for i in range(max([len(x) for x in lists] + [0])):
                    fut.append(ex.submit(self.validate, tr, [x[i] for x in lists if i < len(x)], "%s-%d" % (tr, i)))
            for f in fut:
                f.result()
        self.demand(plan.get("need", []) if self.gens else [])


def build(ov, race, out):
    e = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="1" if race else "0")
    return subprocess.run(["go", "build", "-overlay", ov] + (["-race"] if race else []) + ["-o", out, "."], cwd=os.path.join(HERE, "harness"), env=e, capture_output=True, text=True)


def main():
    gens = "gen" in sys.argv
    every = "all" in sys.argv
    have = {json.loads(l)["id"] for l in open(sys.argv[2])} if os.path.exists(sys.argv[2]) else set()
    out = open(sys.argv[2], "a")
    for line in open(sys.argv[1]):
        m = json.loads(line)
        if m["id"] in have:
            continue
        tmp = tempfile.mkdtemp(prefix="mutant-")
        t0 = time.time()
        ov = os.path.join(tmp, "o.json")
        json.dump({"Replace": {"/repo/protocol/" + m["File"]: "/tmp/mut/ov/%d.go" % m["id"]}}, open(ov, "w"))
        props = next(v for k, v in ORDER if m["File"].startswith(k)).split()
        if every:
            props += [p for p in PLANS if p not in props]
        r, notes = "missed", []
        bins = {}
        for p in props:
            race = PLANS[p].get("race", False)
            if race not in bins:
                bins[race] = os.path.join(tmp, "h%d" % race)
                b = build(ov, race, bins[race])
                if b.returncode:
                    notes.append("build " + b.stderr[-200:])
                    continue
            c = Fast(p, bins[race], gens)
            try:
                c.go()
                if c.devs:
                    d = c.devs[0][0]
                    r = "caught " + p
                    notes.append("%s %s/%s" % (d["name"], "+".join(d["dev"]), d["e"]))
                    break
                if c.others:
                    notes.append(p + " others " + json.dumps(c.others)[:200])
            except check.Broken as e:
                notes.append(p + " broken " + str(e)[:300])
            finally:
                shutil.rmtree(c.tmp, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
        m.update(res=r, notes=notes, s=round(time.time() - t0))
        out.write(json.dumps(m) + "\n")
        out.flush()


main()
