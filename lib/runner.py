"""Runs the solver queries of one property and reports the verdict."""
import os, sys, re, json, time, subprocess, shutil, tempfile, threading, resource, signal, hashlib
from concurrent.futures import ThreadPoolExecutor
from build import STUBBED_STATIC, Harness, BuildError, REPO, VERIF, NCPU, run, ENV

KNOWN = os.path.join(VERIF, "known_findings.txt")

def load_known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding="utf-8"):
            l = l.strip()
            if l.startswith("known:"):
                m = re.match(r"known:\s+property=(\S+)\s+query=(\S+)\s+match=\"([^\"]*)\"\s+(.*)$", l)
                if m:
                    out.append(dict(property=m.group(1), query=m.group(2), match=m.group(3), text=m.group(4)))
    return out

def limit(mem_gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
    return f

class Proc:
    def __init__(self, cmd, timeout, mem_gb):
        self.t0 = time.time()
        self.timed_out = False
        out = tempfile.TemporaryFile()
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.DEVNULL, preexec_fn=limit(mem_gb), env=ENV)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        self.rc = p.returncode
        out.seek(0)
        self.out = out.read().decode("utf-8", "replace")
        self.wall = time.time() - self.t0

BASE = ["--json-ui", "--no-malloc-may-fail", "--no-signed-overflow-check", "--no-undefined-shift-check", "--no-pointer-primitive-check",
        "--unwinding-assertions", "--drop-unused-functions", "--verbosity", "8"]

def parse(out):
    try:
        return json.loads(out)
    except Exception:
        # truncated by a kill: nothing to be trusted in it
        return None

def values_of(trace):
    vals = []
    for s in trace:
        if s.get("stepType") == "assignment" and s.get("lhs") == "vf_in":
            fn = s.get("sourceLocation", {}).get("function", "")
            if fn.startswith("vf_"):
                v = s["value"]
                b = v.get("binary")
                if b is not None:
                    vals.append(int(b, 2))
                else:
                    vals.append(int(re.sub(r"[^0-9]", "", v.get("data", "0")) or 0))
    return vals

class Query:
    def __init__(self, prop, q, tier, work):
        self.prop, self.q, self.tier = prop, dict(q), tier
        if tier == "thorough":
            self.q.update(q.get("thorough", {}))
        self.name = q["name"]
        self.work = os.path.join(work, self.name)
        self.res = dict(query=self.name, file=self.q["file"], bounds=self.q.get("bounds", ""), status="undecided", notes=[])
        self.viol = []
        self.known = []

    def cmd(self, unwind):
        c = ["cbmc", self.h.gb] + BASE + ["--unwind", str(unwind)]
        sets = list(self.q.get("unwindset", []))
        if sets:
            c += ["--unwindset", ",".join(sets)]
        solver = self.q.get("solver", "cadical")
        if solver == "cadical":
            c += ["--sat-solver", "cadical"]
        elif solver == "z3":
            c += ["--z3"]
        elif solver == "cvc5":
            c += ["--cvc5"]
        c += self.q.get("flags", [])
        return c

    def go(self):
        t0 = time.time()
        try:
            self._go()
        except BuildError as e:
            self.res["status"] = "not-encoded"
            self.res["notes"].append(str(e))
        except subprocess.TimeoutExpired as e:
            self.res["status"] = "not-encoded"
            self.res["notes"].append("a build step timed out: %s" % e.cmd[0])
        self.res["wall_s"] = round(time.time() - t0, 2)
        return self

    def _go(self):
        q = self.q
        self.h = Harness(q, self.work)
        self.h.build_goto()
        self.res["functions"] = self.h.functions
        self.res["sources"] = ["src/" + os.path.relpath(s, self.h.src) for s in self.h.used_src]
        tmo = q.get("timeout", 120)
        deadline = time.time() + tmo
        unwind = q["unwind"]
        trace = ["--trace"] if q.get("validate", True) else []
        if q.get("slice"):
            # a verdict without the irrelevant parts; traces come from a second run
            trace = ["--slice-formula"]
        rounds = 0
        while True:
            rounds += 1
            p = Proc(self.cmd(unwind) + trace, max(5, deadline - time.time()), q.get("mem_gb", 10))
            doc = None if p.timed_out else parse(p.out)
            results, stats, errs = [], {}, []
            for m in doc or []:
                if "result" in m:
                    results = m["result"]
                t = m.get("messageText", "")
                if m.get("messageType") == "ERROR":
                    errs.append(t)
                for rx, k in ((r"size of program expression: (\d+) steps", "steps"), (r"Generated (\d+) VCC", "vccs"), (r"(\d+) variables, (\d+) clauses", "vars"),
                              (r"Runtime decision procedure: ([\d.e-]+)s", "solver_s"), (r"Runtime Symex: ([\d.e-]+)s", "symex_s"), (r"(\d+) remaining after simplification", "vccs_left")):
                    mm = re.search(rx, t)
                    if mm:
                        if k == "vars":
                            stats["variables"], stats["clauses"] = int(mm.group(1)), int(mm.group(2))
                        elif k.endswith("_s"):
                            stats[k] = round(stats.get(k, 0) + float(mm.group(1)), 3)
                        else:
                            stats[k] = int(mm.group(1))
                nb = re.search(r"no body for function ['`]?([A-Za-z0-9_$]+)", t)
                if nb:
                    self.res.setdefault("bodyless", []).append(nb.group(1))
            self.res["stats"] = stats
            self.res["unwind"] = unwind
            self.res["cbmc_s"] = round(p.wall, 2)
            if p.timed_out or doc is None or not results:
                self.res["status"] = "undecided"
                self.res["notes"].append("solver gave no verdict (%s)" % ("time limit %ds" % tmo if p.timed_out else "; ".join(errs)[:400] or "rc %s" % p.rc))
                return
            broken = sorted({r["status"] for r in results} - {"SUCCESS", "FAILURE"})
            real = [r for r in results if r["status"] == "FAILURE" and not r.get("description", "").startswith("reach: ")]
            if real and broken == ["UNKNOWN"]:
                broken = []  # assertions behind a failing one: the failing one decides
            if broken:
                self.res["status"] = "undecided"
                self.res["notes"].append("no verdict for some assertions: %s %s" % (broken, "; ".join(errs)[:300]))
                return
            unw = [r for r in results if r["status"] == "FAILURE" and ("unwind" in r["property"] or "recursion" in r["property"])]
            if unw and unwind < q.get("unwind_max", q["unwind"] * 2):
                unwind = q.get("unwind_max", q["unwind"] * 2)
                if deadline - time.time() > 10:
                    continue
            break
        self.judge(results, deadline)

    def judge(self, results, deadline):
        q = self.q
        want = set(q.get("reach", []))
        reached, failed, unwound, n_ok = {}, [], [], 0
        for r in results:
            if q.get("slice"):
                r.pop("trace", None)  # has only the values the formula kept
            d = r.get("description", "")
            if d.startswith("reach: "):
                if r["status"] == "FAILURE":
                    reached[d[7:]] = r
            elif "no-body" in r["property"]:
                if r["status"] == "FAILURE":
                    fn = d.split()[-1]
                    if fn not in STUBBED_STATIC and fn not in self.res.setdefault("bodyless", []):
                        self.res["bodyless"].append(fn)
            elif r["status"] == "FAILURE":
                if "unwind" in r["property"] or "recursion" in r["property"]:
                    unwound.append(r)
                else:
                    failed.append(r)
            elif r["status"] == "SUCCESS":
                n_ok += 1
        self.res["asserts_proved"] = n_ok
        self.res["reached"] = sorted(reached)
        lost = sorted(want - set(reached))
        self.res["reach_missing"] = lost
        # every failing assertion has to happen natively before it is believed
        self.res["failed"] = []
        for r in failed[: q.get("max_replay", 6)]:
            self.confirm(r)
        for r in unwound[:2]:
            self.confirm(r, hang=True)
        if self.viol or self.known:
            pass
        validated = 0
        samples = []
        if q.get("validate", True):
            for lab, r in sorted(reached.items())[: 3]:
                if "trace" not in r:
                    if not q.get("slice") or validated:
                        continue
                    r["trace"] = self.get_trace(r) or []
                ok, sm = self.validate(lab, r)
                validated += ok
                if sm:
                    samples.append(sm)
        self.res["validated"] = validated
        self.res["samples"] = samples
        odd = [b for b in self.res.get("bodyless", []) if b not in q.get("allow_missing", []) and not b.startswith("vf_nd_")]
        if odd:
            self.res["notes"].append("functions without a body (arbitrary result, no effect): " + ", ".join(odd))
        if self.viol:
            self.res["status"] = "violated"
        elif failed and not self.known:
            self.res["status"] = "unconfirmed"
            self.res["notes"].append("the solver's counterexample did not happen on the native build; not reported")
        elif lost:
            self.res["status"] = "vacuous"
            self.res["notes"].append("not reached: " + ", ".join(lost))
        elif unwound:
            self.res["status"] = "bounded"
            self.res["notes"].append("loops cut at %d iterations: %s" % (self.res["unwind"], ", ".join(r["property"] for r in unwound[:5])))
        else:
            self.res["status"] = "proved"

    def get_trace(self, r):
        if "trace" in r:
            return r["trace"]
        p = Proc(self.cmd(self.res["unwind"]) + ["--trace", "--property", r["property"]], self.q.get("timeout", 120), self.q.get("mem_gb", 10))
        for m in parse(p.out) or []:
            for x in m.get("result", []):
                if x["property"] == r["property"] and "trace" in x:
                    return x["trace"]
        return None

    def native(self, variant, vals, timeout=20):
        exe = self.h.build_native(variant)
        inp = os.path.join(self.work, "in_%s" % hashlib.sha1(repr(vals).encode()).hexdigest()[:10])
        with open(inp, "w") as f:
            f.write("\n".join(str(v) for v in vals) + "\n")
        leaks = int("--memory-leak-check" in self.q.get("flags", []))
        env = dict(ENV, LSAN_OPTIONS="exitcode=74", ASAN_OPTIONS="detect_leaks=%d:malloc_fill_byte=190:max_malloc_fill_size=1000000:exitcode=71:allocator_may_return_null=1:detect_stack_use_after_return=1" % leaks,
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=72", MSAN_OPTIONS="exitcode=73")
        try:
            p = subprocess.run([exe, inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=self.work)
            return p.returncode, p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            return "hang", ""

    def confirm(self, r, hang=False):
        d, loc = r.get("description", ""), r.get("sourceLocation", {})
        rec = dict(assertion=d, at="%s:%s %s" % (os.path.relpath(loc.get("file", "?"), "/"), loc.get("line", "?"), loc.get("function", "?")), property=r["property"])
        tr = self.get_trace(r)
        if tr is None:
            rec["replay"] = "no trace"
            self.res["failed"].append(rec)
            return
        vals = values_of(tr)
        rec["inputs"] = vals[:400]
        for variant in ("asan", "zero", "msan"):
            if hang and variant != "asan":
                break
            rc, out = self.native(variant, vals)
            bad = (rc == "hang") or (rc not in (0, 77))
            rec.setdefault("replays", {})[variant] = str(rc)
            if hang and rc != "hang" and rc in (0, 77):
                continue
            if bad:
                rec["confirmed"] = variant
                rec["output"] = out[-1500:]
                break
        self.res["failed"].append(rec)
        if "confirmed" in rec:
            for k in load_known():
                if k["property"] == self.prop and k["query"] == self.name and k["match"] in (d + " @" + loc.get("function", "")):
                    self.known.append(k)
                    return
            self.viol.append(rec)

    def validate(self, lab, r):
        """replays a witness of the symbolic run natively: the model and the
        real code have to agree on it"""
        try:
            vals = values_of(r["trace"])
            rc, out = self.native("asan", vals)
        except BuildError as e:
            self.res["notes"].append("native build failed: " + str(e)[:500])
            return 0, None
        ok = ("VF-REACH " + lab) in out
        if not ok:
            self.res["notes"].append("witness '%s' did not replay natively (rc %s) %s %s" % (lab, rc, vals[:40], out[-300:]))
        return int(ok), dict(query=self.name, reached=lab, inputs=vals[:64])

def check(prop, spec, tier):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    only = os.environ.get("VF_ONLY")
    qs = [q for q in spec["queries"] if (tier == "thorough" or not q.get("thorough_only")) and (not only or q["name"] in only.split(","))]
    try:
        objs = [Query(prop, q, tier, work) for q in qs]
        objs_sorted = sorted(objs, key=lambda o: -o.q.get("cost", 1))
        with ThreadPoolExecutor(spec.get("jobs", min(NCPU, 6))) as ex:
            list(ex.map(lambda o: o.go(), objs_sorted))
        return report(prop, spec, tier, objs, time.time() - t0)
    finally:
        if os.environ.get("VF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)

def report(prop, spec, tier, objs, wall):
    viols, knowns = [], []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for o in objs:
        for k in o.known:
            if k not in knowns:
                knowns.append(k)
        for v in o.viol:
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, o.name, len(viols)))
            with open(path, "w") as f:
                json.dump(dict(v, property=prop, query=o.name, harness=o.q["file"], defines=o.q.get("defs", [])), f, indent=1)
            viols.append((o.name, v, path))
    decided = [o for o in objs if o.res["status"] in ("proved", "violated", "bounded")]
    def tot(k):
        return sum(o.res.get("stats", {}).get(k, 0) for o in objs)
    funcs = sorted({f for o in objs for f in o.res.get("functions", [])})
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(
            explanation="bounded symbolic model checking of the real C code with CBMC; states = symbolic program states (SSA steps) encoded, transitions = verification conditions generated over them, traces_validated_against_impl = solver witnesses replayed on a natively compiled sanitizer build of the same sources",
            states=tot("steps"), transitions=tot("vccs"), traces_validated_against_impl=sum(o.res.get("validated", 0) for o in objs) + sum(1 for o in objs for f in o.res.get("failed", []) if "confirmed" in f),
            samples=[s for o in objs for s in o.res.get("samples", [])][:8],
            queries=len(objs), queries_decided=len(decided), asserts_proved=sum(o.res.get("asserts_proved", 0) for o in objs),
            sat_variables=tot("variables"), sat_clauses=tot("clauses"), solver_s=round(tot("solver_s"), 2), symex_s=round(tot("symex_s"), 2),
            functions_encoded=funcs,
            per_query=[{k: v for k, v in o.res.items() if k not in ("functions", "samples")} for o in objs]),
        assumptions=spec.get("assumptions", []) + ["malloc never fails", "behaviour outside the bounds of each query is not covered"],
        wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in objs:
        s = o.res.get("stats", {})
        print("%s %-28s %-11s %6.1fs cbmc %6.1fs vccs %5s clauses %8s unwind %s" % (prop, o.name, o.res["status"], o.res.get("wall_s", 0), o.res.get("cbmc_s", 0), s.get("vccs"), s.get("clauses"), o.res.get("unwind")))
        for n in o.res["notes"]:
            print("    note:", n[:1500])
        for f in o.res.get("failed", []):
            print("    failed: %s [%s] %s replays %s" % (f["assertion"], f["at"], "CONFIRMED " + f["confirmed"] if "confirmed" in f else "not confirmed", f.get("replays")))
    for k in knowns:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    for name, v, path in viols:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if viols:
        return 1
    if not decided and objs:
        print("no query of %s could be decided" % prop)
        return 2
    return 0
