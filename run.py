#!/usr/bin/env python3
"""Runs the check of one property: builds the check programs from /repo's
current working tree, runs them sharded, confirms and reports violations and
writes the evidence file.

    run.py C01                 the check (tier from VERIF_TIER, default quick)
    run.py C01 --replay FILE   re-runs the case of a replay file
    run.py --build KIND OUT    only builds (used while developing)

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Anything else: the check could not give an answer (build failure and so on).
"""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from checks import CHECKS

T0 = time.time()
NCPU = os.cpu_count() or 4
# Wall-clock limits of a whole run. Past the soft limit programs stop by
# themselves and say that they did not finish; the hard one ends them.
LIMIT = {"quick": 560, "thorough": 6 * 3600}


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def known_findings(prop):
    """Signatures of the listed known findings of a property."""
    sigs = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                sigs[m.group(2)] = m.group(3)
    return sigs


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.check = CHECKS[prop]
        self.tmp = tempfile.mkdtemp(prefix="zv-%s-" % prop)
        self.known = known_findings(prop)
        self.bins = {}
        self.errors = []

    def build(self):
        kinds = []
        for part in self.check["parts"]:
            if part["bin"] not in kinds:
                kinds.append(part["bin"])
        bd = B.Build(os.path.join(self.tmp, "build"))
        for k in kinds:
            self.bins[k] = bd.binary(k)
            log("built", k)

    def env(self, part, shard, shards, out, budget, only=None):
        e = dict(os.environ)
        for k in list(e):
            if k.startswith("ZV_"):
                del e[k]
        sc = os.path.join(self.tmp, "scratch", "%s-%s-%s-%s" % (part["bin"], part["name"], shard, only))
        os.makedirs(sc, exist_ok=True)
        e.update(ZV_PROP=self.prop, ZV_PART=part["name"], ZV_SHARD=str(shard), ZV_SHARDS=str(shards),
                 ZV_OUT=out, ZV_BUDGET_S=str(int(budget)), ZV_KNOWN="\n".join(self.known), ZV_SCRATCH=sc,
                 TMPDIR=sc, VERIF_TIER=self.tier, VERIF_SEED=str(self.seed), GOMAXPROCS=str(part.get("procs", 2)),
                 GOGC="200", ZV_CASE_LIMIT_S=str(part.get("case_limit", 60)), GIN_MODE="release", ZV_REPO=B.REPO,
                 ZV_BIN=json.dumps(self.bins))
        e.update(part.get("env", {}))
        if only is not None:
            e["ZV_ONLY"] = str(only)
        return e

    def exec(self, part, shard, shards, budget, only=None, tag=""):
        """Runs one shard; returns (result or None, reason, output tail)."""
        out = os.path.join(self.tmp, "out-%s-%s-%d-%s%s.json" % (part["bin"], part["name"], shard, only, tag))
        for f in (out, out + ".progress"):
            if os.path.exists(f):
                os.remove(f)
        logf = open(out + ".log", "wb")
        b = self.bins[part["bin"]]
        p = subprocess.Popen([b, "-test.run", "^TestCheck$", "-test.timeout", "0"], cwd=os.path.dirname(b),
                             env=self.env(part, shard, shards, out, budget, only), stdout=logf, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        hard = budget + 60 + part.get("case_limit", 60)
        reason = ""
        try:
            rc = p.wait(hard)
        except subprocess.TimeoutExpired:
            rc, reason = -9, "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        logf.close()
        tail = open(out + ".log", "rb").read()[-6000:].decode("utf8", "replace")
        res = None
        if os.path.exists(out):
            res = json.load(open(out))
            for k in ("violations", "known", "samples", "notes"):
                res[k] = res.get(k) or []
            res["counts"] = res.get("counts") or {}
        cur = None
        if os.path.exists(out + ".progress"):
            b = open(out + ".progress", "rb").read(8)
            if len(b) == 8:
                v = struct.unpack("<Q", b)[0]
                if v < (1 << 63):
                    cur = v
        if not reason and rc != 0:
            reason = "exit %d" % rc
        return {"res": res, "rc": rc, "reason": reason, "tail": tail, "cur": cur, "out": out, "part": part, "shard": shard,
                "shards": shards, "budget": budget}

    def run(self):
        self.build()
        parts = self.check["parts"]
        total = LIMIT[self.tier] - (time.time() - T0)
        jobs = []
        for part in parts:
            if self.tier not in part.get("tiers", ("quick", "thorough")):
                continue
            n = part.get("shards", NCPU)
            w = part.get("weight", 1.0)
            jobs.append((part, n, w))
        sumw = sum(w for _, _, w in jobs)
        results = []
        for part, n, w in jobs:
            left = LIMIT[self.tier] - (time.time() - T0)
            share = max(20, left * w / sumw)
            sumw -= w
            with ThreadPoolExecutor(NCPU) as ex:
                # Shards beyond the cores wait; each gets its share of the budget.
                waves = max(1, -(-n // NCPU))
                rs = list(ex.map(lambda s: self.exec(part, s, n, share / waves), range(n)))
            results += rs
            log("ran", part["bin"], part["name"], "cases", sum((r["res"] or {}).get("cases", 0) for r in rs))
            if any(r["res"] is None or r["res"]["violations"] for r in rs):
                break
        return results

    def confirm(self, results):
        """Re-runs every case that failed; returns confirmed violations."""
        confirmed, dropped = [], []
        for r in results:
            cands = []
            if r["res"] is not None:
                cands = [(v["index"], v) for v in r["res"]["violations"]]
                if not cands and not r["res"]["done"]:
                    self.errors.append("shard %s/%s stopped early: %s\n%s" % (r["part"]["name"], r["shard"], r["reason"], r["tail"]))
            elif r["cur"] is not None:
                # The program died in the middle of a case.
                cands = [(r["cur"], {"sig": "crash", "what": "the process died (%s) in this case" % r["reason"], "index": r["cur"],
                                     "part": r["part"]["name"], "detail": r["tail"].splitlines()[-60:]})]
            else:
                self.errors.append("shard %s/%s gave no result: %s\n%s" % (r["part"]["name"], r["shard"], r["reason"], r["tail"]))
                continue
            for idx, v in cands:
                if len(confirmed) >= 3:
                    break
                n = 5 if v["sig"] not in ("hang",) else 2
                hits, last = 0, v
                for k in range(n):
                    x = self.exec(r["part"], 0, 1, 120, only=idx, tag="-c%d" % k)
                    if x["res"] is not None and x["res"]["violations"]:
                        hits += 1
                        last = x["res"]["violations"][0]
                    elif x["res"] is None and x["cur"] is not None:
                        hits += 1
                        last = dict(v, detail=x["tail"].splitlines()[-60:])
                if hits < r["part"].get("confirm", 1) and r["part"].get("rerun_shard") and r["res"] is not None:
                    # What one case leaves behind in the process may break
                    # another one: the shard is run again, in the same order.
                    for k in range(2):
                        x = self.exec(r["part"], r["shard"], r["shards"], r["budget"], tag="-s%d" % k)
                        again = [w for w in (x["res"] or {"violations": []})["violations"] if w["sig"] == v["sig"]]
                        if again:
                            hits += 1
                            last = dict(again[0], shard=r["shard"], shards=r["shards"])
                if hits >= r["part"].get("confirm", 1):
                    last = dict(last, confirmations="%d of %d re-runs" % (hits, n), bin=r["part"]["bin"])
                    confirmed.append(last)
                elif v["sig"] == "crash":
                    self.errors.append("shard %s/%s died (%s) in case %d, which does not do so when run alone\n%s" % (r["part"]["name"], r["shard"], r["reason"], idx, r["tail"]))
                else:
                    dropped.append(dict(v, confirmations="%d of %d re-runs" % (hits, n)))
        return confirmed, dropped

    def evidence(self, results, confirmed, dropped):
        counts, sets, samples, notes, known = {}, {}, [], [], {}
        cases = 0
        exhaustive = True
        per = {}
        for r in results:
            res = r["res"]
            if res is None:
                exhaustive = False
                continue
            name = r["part"]["bin"] + "/" + r["part"]["name"]
            cases += res["cases"]
            pp = per.setdefault(name, {"cases": 0, "exhaustive": True, "wall_s": 0})
            pp["cases"] += res["cases"]
            pp["wall_s"] = round(max(pp["wall_s"], res["wall_s"]), 1)
            if not res["exhaustive"] or not res["done"]:
                exhaustive = pp["exhaustive"] = False
            for k, v in res["counts"].items():
                counts[k] = counts.get(k, 0) + v
                pp[k] = pp.get(k, 0) + v
            for s in res["samples"][:1]:
                if sum(1 for x in samples if x.startswith(name)) < 2:
                    samples.append((name + ": " + s)[:1500])
            for s in res["notes"]:
                if s not in notes:
                    notes.append(s)
            for k in res["known"]:
                known.setdefault(k["sig"], k)
            d = os.path.dirname(r["out"])
            b = os.path.basename(r["out"])
            for f in os.listdir(d):
                if f.startswith(b + ".set."):
                    data = open(os.path.join(d, f), "rb").read()
                    s = sets.setdefault(f[len(b) + 5:], set())
                    s.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        c = self.check
        cov = {"exhaustive": exhaustive, "samples": samples or ["(none)"], "parts": per, "cases": cases, "bounds": c.get("bounds", "")}
        for k, v in sorted(counts.items()):
            cov.setdefault(k, v)
        for k, v in sorted(sets.items()):
            cov["distinct_" + k] = len(v)
        if c["level"] == "model_checking":
            cov["states"] = len(sets.get("states", ()))
            cov["transitions"] = counts.get("transitions", 0)
            cov["traces_validated_against_impl"] = counts.get("histories", 0)
        else:
            cov["evaluations"] = counts.get("evaluations", cases)
            cov["distinct_nontrivial"] = len(sets.get("nontrivial", ()))
            cov["rule"] = c["rule"]
        if notes:
            cov["notes"] = notes
        if dropped:
            cov["not_reproduced"] = [{k: d.get(k) for k in ("sig", "what", "part", "index", "confirmations")} for d in dropped]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": c["level"], "coverage": cov,
              "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(confirmed)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        return known

    def report(self, confirmed):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        for v in confirmed:
            path = os.path.join(d, "%s-%s-%s.json" % (self.prop, v["part"].replace("/", "_") or "x", v["index"]))
            with open(path, "w") as f:
                json.dump(dict(v, property=self.prop, tier=self.tier, seed=self.seed,
                               how="python3 run.py %s --replay %s" % (self.prop, os.path.relpath(path, VERIF))), f, indent=1, ensure_ascii=False)
            print("  %s: %s" % (v["sig"], str(v["what"])[:3000]))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, VERIF)), flush=True)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        bd = B.Build(a[2])
        print(bd.binary(a[1]))
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    r = Runner(prop, tier, seed)
    try:
        if len(a) > 2 and a[1] == "--replay":
            v = json.load(open(a[2]))
            r.tier, r.seed = v["tier"], v["seed"]
            r.build()
            for part in r.check["parts"]:
                if part["name"] == v["part"] and part["bin"] == v["bin"]:
                    if "shards" in v:
                        x = r.exec(part, v["shard"], v["shards"], 500)
                    else:
                        x = r.exec(part, 0, 1, 300, only=v["index"])
                    bad = x["res"] is None or bool(x["res"]["violations"])
                    print(json.dumps(x["res"]["violations"] if x["res"] else x["tail"], indent=1, ensure_ascii=False))
                    if bad:
                        print("VIOLATION property=%s replay=%s" % (prop, a[2]))
                    return 1 if bad else 0
            print("no such part", file=sys.stderr)
            return 2
        results = r.run()
        confirmed, dropped = r.confirm(results)
        known = r.evidence(results, confirmed, dropped)
        for sig, v in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s" % (prop, r.known.get(sig, v["what"])))
        if confirmed:
            r.report(confirmed)
            return 1
        if r.errors:
            for e in r.errors:
                print("CHECK ERROR:", e, file=sys.stderr)
            return 3
        for d in dropped:
            print("NOT-REPRODUCED property=%s %s: %s" % (prop, d["sig"], str(d["what"])[:300]), file=sys.stderr)
        log("held", prop, tier)
        return 0
    except B.BuildError as e:
        print("CHECK ERROR: the check does not build:\n" + str(e), file=sys.stderr)
        return 2
    finally:
        r.close()


if __name__ == "__main__":
    def term(*_):
        raise SystemExit(4)
    signal.signal(signal.SIGTERM, term)
    sys.exit(main())
