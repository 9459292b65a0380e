#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01 [--tier quick|thorough] [--seed N]

1. model-checks the specification (TLC, spec/*MC.tla),
2. generates behaviours from it (spec/*Gen.tla) and replays them in the library,
3. records random and directed histories from the library,
4. validates everything recorded against the specification (spec/*Trace.tla).

The library is compiled from /repo's working tree into the harness on every
run.  Exit 0: held; 1: VIOLATION; 2: the check itself could not run.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from plans import PLANS, LEVEL, ASSUME, STATELESS   # noqa: E402


class Broken(Exception):
    pass


def inside(err):
    """Whether a Go panic was raised by the library, or by what the harness needs from it."""
    if err.startswith("panic: main.refused"):
        return True
    for line in err.split("\n")[1:]:
        if line.startswith(("github.com/RTann/libsignal-go/protocol", "main.")):
            return not line.startswith("main.")
    return False


def env_with(**kw):
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Xmx3g -Xss512m -XX:ParallelGCThreads=2"
    e.update(kw)
    return e


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.deep = tier == "thorough"
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.bin = os.path.join(self.tmp, "harness")
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.slots = threading.Semaphore(8)
        self.mc = []            # (what, generated, distinct)
        self.gen = []           # about generated behaviours
        self.cov = {}
        self.devs = []          # deviations of this property
        self.others = {}        # deviations of other properties
        self.known = []         # known findings seen
        self.histories = 0
        self.events = 0
        self.samples = []
        self.parts = []         # (kind, [files]) to validate
        self.nr = 0
        self.deaths = []        # histories which the harness could not complete
        self.terms = PLANS[pid].get("terms", False)
        self.race = PLANS[pid].get("race", False)     # compile with the race detector

    # -- running ----------------------------------------------------------
    def run(self, args, cwd, timeout, env=None, out=None):
        f = open(out, "w") if out else subprocess.PIPE
        try:
            p = subprocess.run(args, cwd=cwd, env=env or env_with(), stdout=f, stderr=subprocess.STDOUT if out else subprocess.PIPE,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken("timeout: " + " ".join(args))
        finally:
            if out:
                f.close()
        return p

    def build(self):
        p = self.run(["go", "build"] + (["-race"] if self.race else []) + ["-o", self.bin, "."], os.path.join(HERE, "harness"), 600,
                     env_with(GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="1" if self.race else os.environ.get("CGO_ENABLED", "0")))
        if p.returncode:
            raise Broken("cannot build the harness: " + (p.stderr or "")[-2000:])

    def dir(self, name):
        with self.lock:
            self.nr += 1
            d = os.path.join(self.tmp, "%s%d" % (name, self.nr))
        os.makedirs(d)
        return d

    def tlc(self, module, cfg, workers, timeout, **env):
        d = self.dir("tlc")
        out = os.path.join(d, "out.txt")
        with self.slots:
            p = self.run(["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "m"), "-config", cfg, module + ".tla"],
                         SPEC, timeout, env_with(**env), out)
        shutil.rmtree(os.path.join(d, "m"), ignore_errors=True)
        return p.returncode, out

    def model(self, module, name, workers=1):
        """Model-check a configuration; the specification itself must hold."""
        rc, out = self.tlc(module, "%s_%s.cfg" % (module, name), workers, 3000 if self.deep else 600)
        txt = open(out, errors="replace").read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", txt)
        if rc or not m or "No error has been found" not in txt:
            raise Broken("model %s/%s: %s" % (module, name, txt[-1500:]))
        with self.lock:
            self.mc.append(("%s/%s" % (module, name), int(m.group(1)), int(m.group(2))))

    def refuted(self, module, name):
        """A configuration of the specification which describes a fault: TLC must find it."""
        rc, out = self.tlc(module, "%s_%s.cfg" % (module, name), 1, 600)
        txt = open(out, errors="replace").read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        if "is violated" not in txt:
            raise Broken("model %s/%s: no violation found: %s" % (module, name, txt[-1500:]))
        with self.lock:
            self.mc.append(("%s/%s (violated, as it should be)" % (module, name), int(m.group(1)) if m else 1, int(m.group(2)) if m else 1))

    def harness(self, args, timeout=1200):
        p = self.run([self.bin] + args, HERE, timeout)
        if p.returncode:
            err = p.stderr or ""
            if p.returncode == 2 and "goroutine " in err:
                self.died(dict(name=" ".join(args[:3]), what=err.split("\n")[0], stack=err[-8000:], lib=inside(err)))
                return dict(files=[], cover={})
            raise Broken("harness %s: %s" % (" ".join(args), err[-2000:] + (p.stdout or "")[-500:]))
        r = json.loads(p.stdout.strip().split("\n")[-1])
        for d in r.get("died", []):
            self.died(d)
        return r

    def died(self, d):
        """A history ended by a panic in the library, or in the harness (then what was recorded may tell why)."""
        with self.lock:
            if d["lib"]:
                self.devs.append((dict(name=d["name"], step=0, dev=["died"], e="history", exp="ends", got=d["what"][:200], tag="panic"),
                                  d["stack"].split("\n")))
            else:
                self.deaths.append(d)

    def generate(self, module, name, limit, focus, sub):
        """Replay behaviours of the specification in the library."""
        rc, out = self.tlc(module, "%s_%s.cfg" % (module, name), 1, 900)
        if rc:
            raise Broken("generating %s: %s" % (name, open(out, errors="replace").read()[-1500:]))
        d = self.dir("gen")
        r = self.harness([sub, "-focus", focus, "-in", out, "-seed", str(self.seed), "-count", str(limit), "-out", d])
        os.remove(out)
        with self.lock:
            self.gen.append(dict(spec="%s/%s" % (module, name), transitions=r["cover"].get("transitions", 0),
                                 sequences=r["cover"].get("sequences", 0), of=r["cover"].get("sequences/all", 0)))
        return r["files"]

    def record(self, sub, focus, count):
        d = self.dir("rec")
        a = [sub, "-focus", focus, "-seed", str(self.seed), "-count", str(count), "-out", d]
        if self.deep:
            a.append("-deep")
        r = self.harness(a)
        return r["files"]

    # -- validation -------------------------------------------------------
    def validate(self, module, files, tag):
        """Check one shard (concatenated files) against a trace specification."""
        shard = os.path.join(self.tmp, "shard-%s.ndjson" % tag)
        with open(shard, "wb") as o:
            for f in files:
                with open(f, "rb") as i:
                    shutil.copyfileobj(i, o)
                os.remove(f)
        if os.path.getsize(shard) == 0:
            return
        rc, out = self.tlc(module, module + ".cfg", 1, 3000 if self.deep else 800, TRACE=shard, **({"TERMS": "1"} if self.terms else {}))
        end, devs = None, []
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('"DEV '):
                    devs.append(json.loads(json.loads(line)[4:]))
                elif line.startswith('"END '):
                    end = json.loads(json.loads(line)[4:])
        if end is None or rc:
            txt = open(out, errors="replace").read()
            at = max(txt.find("Error:"), 0)
            raise Broken("%s on shard %s: %s" % (module, tag, txt[at:at + 2500]))
        lines = None
        with self.lock:
            self.histories += end["histories"]
            self.events += end["lines"]
            for k, v in end["cov"].items():
                self.cov[k] = self.cov.get(k, 0) + v
        for d in devs:
            if lines is None:
                lines = open(shard).read().split("\n")
            at = d["line"] - 1
            start = at
            while start > 0 and module not in STATELESS and '"e":"init"' not in lines[start]:
                start -= 1
            first = json.loads(lines[start])
            d["name"], d["step"] = first.get("name", ""), at - start
            d["event"] = json.loads(lines[at])
            k = self.finding(d)
            with self.lock:
                if k:
                    self.known.append(k)
                elif self.pid in d["props"]:
                    self.devs.append((d, lines[start:at + 1]))
                else:
                    n = "+".join(d["dev"]) + "/" + d["e"]
                    self.others[n] = self.others.get(n, 0) + 1
        if self.terms:
            r = self.harness(["eval", "-in", shard, "-terms", out])
            with self.lock:
                for k, v in r["cover"].items():
                    self.cov[k] = self.cov.get(k, 0) + v
            for p in r.get("problems") or []:
                if lines is None:
                    lines = open(shard).read().split("\n")
                starts = [i for i, x in enumerate(lines) if '"e":"init"' in x] + [len(lines)]
                a, b = starts[p["h"] - 1], starts[p["h"]]
                first = json.loads(lines[a])
                first.pop("side", None)
                d = dict(props=["C23"], dev=["term"], e="message %d" % p["m"], name=first.get("name", ""), step=p["m"],
                         exp="the key schedule", got=p["what"], tag="")
                with self.lock:
                    self.devs.append((d, [json.dumps(first)] + lines[a + 1:b]))
        if not self.samples:
            if lines is None:
                lines = open(shard).read().split("\n")
            ev = [json.loads(x) for x in lines[1:4] if x]
            self.samples.append({"history": json.loads(lines[0]).get("name", ""), "first_events": ev})
        os.remove(shard)

    def finding(self, d):
        for k in FINDINGS:
            if k["history"] == d["name"] and k["step"] == d["step"] and sorted(k["dev"]) == sorted(d["dev"]):
                return k
        return None

    # -- the whole check --------------------------------------------------
    def go(self):
        plan = PLANS[self.pid]
        with cf.ThreadPoolExecutor(32) as ex:
            fut = []
            for m in plan.get("mc", []) + (plan.get("mc_deep", []) if self.deep else []):
                fut.append(ex.submit(self.model, m[0], m[1], 4 if self.deep else 2))
            for m in plan.get("mc_bad", []):
                fut.append(ex.submit(self.refuted, m[0], m[1]))
            self.build()
            src = []
            for (module, name, limit, sub, tr) in plan.get("gen", []) + (plan.get("gen_deep", []) if self.deep else []):
                src.append((tr, ex.submit(self.generate, module, name, limit * (10 if self.deep else 1), self.pid, sub)))
            for (sub, count, tr) in plan.get("rec", []):
                src.append((tr, ex.submit(self.record, sub, self.pid, count * (10 if self.deep else 1))))
            by = {}
            for tr, f in src:
                by.setdefault(tr, []).append(f.result())
            for tr, lists in by.items():
                for i in range(max([len(x) for x in lists] + [0])):
                    fs = [x[i] for x in lists if i < len(x)]
                    fut.append(ex.submit(self.validate, tr, fs, "%s-%d" % (tr, i)))
            err = None
            for f in fut:
                try:
                    f.result()
                except Broken as e:
                    err = err or e
            if err and not self.devs:
                raise err
            if self.deaths and not self.devs:
                raise Broken("history %(name)s: %(what)s\n%(stack)s" % self.deaths[0])
        self.demand(plan.get("need", []))

    def demand(self, need):
        if self.devs:
            return
        for pat in need:
            if not any(re.fullmatch(pat, k) and v > 0 for k, v in self.cov.items()):
                raise Broken("nothing covered " + pat + "; covered: " + json.dumps(self.cov))

    def evidence(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {
            "states": sum(x[2] for x in self.mc), "transitions": sum(x[1] for x in self.mc),
            "models": [dict(model=a, transitions=b, states=c) for a, b, c in self.mc],
            "generated_behaviours": self.gen,
            "traces_validated_against_impl": self.histories, "events_validated": self.events,
            "steps_by_kind": self.cov, "samples": self.samples,
        }
        if self.others:
            cov["deviations_of_other_properties"] = self.others
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=LEVEL, coverage=cov,
                  assumptions=ASSUME, wall_s=round(time.time() - self.t0, 2), violations=len(self.devs))
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def report(self):
        for what in sorted({k["what"] for k in self.known if k["property"] == self.pid}):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if not self.devs:
            print("held: %s (%d histories, %d events)" % (self.pid, self.histories, self.events))
            return 0
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        self.devs.sort(key=lambda x: len(x[1]))
        dev, lines = self.devs[0]
        path = os.path.join(d, "%s.ndjson" % self.pid)
        with open(path, "w") as f:
            f.write(json.dumps({"deviation": dev}) + "\n" + "\n".join(lines) + "\n")
        print("%d deviations; shortest: history %r, step %d, %s %s: expected %s, got %s (%s)" % (
            len(self.devs), dev["name"], dev["step"], "+".join(dev["dev"]), dev["e"], dev.get("exp"), dev.get("got"), dev.get("tag")))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1


def findings():
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            if line.startswith("known: "):
                out.append(json.loads(line[len("known: "):]))
    return out


FINDINGS = findings()


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    c = Check(pid, tier, seed)
    try:
        c.go()
        c.evidence()
        return c.report()
    except Broken as e:
        print("CHECK ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
