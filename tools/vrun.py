#!/usr/bin/env python3
"""Runs the check of one property: build, drive, judge, write evidence.

usage: vrun.py <property> [--replay FILE]
Exit 0 held on everything observed, 1 violated, 2 check error / inconclusive.
"""
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B          # noqa: E402
from props import PROPS    # noqa: E402

VERIF = B.VERIF
NSH = 8


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k.get("status") == "known"]


def match_known(known, prop, v):
    for k in known:
        if k["property"] == prop and re.search(k["key"], v["key"]) and re.search(k.get("msg", ""), v["msg"]):
            return k
    return None


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            sz = f.tell()
            f.seek(max(0, sz - n))
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


def crash_key(text, code):
    m = re.search(r"SUMMARY: (\w+): (\S+)[^\n]*? in (.+)", text)
    if m:
        return "sanitizer:%s:%s" % (m.group(2), re.sub(r"\(.*", "", m.group(3)).strip()), m.group(0)
    m = re.search(r"([^\s:]+:\d+):\d+: runtime error: ([^\n]*)", text)
    if m:
        return "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(2))[:80], m.group(0)
    m = re.search(r"ERROR: (\w+Sanitizer): (\S+)", text)
    if m:
        return "sanitizer:" + m.group(2), m.group(0)
    m = re.search(r"(WARNING: ThreadSanitizer: [^\n]*)", text)
    if m:
        return "sanitizer:race", m.group(1)
    m = re.search(r"\[ERROR\][^\n]*", text)
    if m and code in (-6,):
        return "terminated:error-channel", m.group(0)
    if code < 0:
        try:
            s = signal.Signals(-code).name
        except ValueError:
            s = str(-code)
        return "crash:" + s, text[-600:]
    return "exit:%d" % code, text[-600:]


class Shard:
    def __init__(self, exe, cfg, tier, seed, cases, i, n, tmp, env, start=0, only=None):
        self.exe, self.cfg, self.i, self.n, self.tmp, self.env = exe, cfg, i, n, tmp, env
        self.base = [exe, "--seed", str(seed), "--tier", tier, "--nshards", str(n), "--shard", str(i),
                     "--cases", str(cases)]
        self.tag = "s%d" % i if only is None else "only%d" % only
        self.out = os.path.join(tmp, self.tag + ".out")
        self.status = os.path.join(tmp, self.tag + ".status")
        self.distinct = os.path.join(tmp, self.tag + ".dist")
        self.log = os.path.join(tmp, self.tag + ".log")
        self.scratch = os.path.join(tmp, self.tag + ".d")
        os.makedirs(self.scratch, exist_ok=True)
        self.only = only
        self.start(start)

    def start(self, start):
        args = self.base + ["--start", str(start), "--out", self.out, "--status", self.status,
                            "--distinct", self.distinct, "--scratch", self.scratch]
        if self.only is not None:
            args += ["--only", str(self.only)]
        self.logf = open(self.log, "wb")
        self.proc = subprocess.Popen(args, stdout=self.logf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                     env=self.env, cwd=self.scratch, preexec_fn=os.setsid)
        self.case = None
        self.since = time.time()

    def poll_case(self):
        try:
            with open(self.status, "rb") as f:
                d = f.read(256)
            case = struct.unpack("<q", d[:8])[0]
            stage = d[16:216].split(b"\0")[0].decode("utf-8", "replace")
        except (OSError, struct.error):
            return None, ""
        if case != self.case:
            self.case = case
            self.since = time.time()
        return case, stage

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        self.logf.close()


def run_driver(prop, cfg, exe, tier, seed, known, tmp, run_name, env_extra, deadline):
    """Returns (violations, known_hits, summary dict, inconclusive list)."""
    env = dict(os.environ)
    env.update({
        "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:handle_abort=0:detect_stack_use_after_return=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
        "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:history_size=4",
        "OMP_NUM_THREADS": "2",
        "LC_ALL": "C",
    })
    env.update(cfg.get("env", {}))
    env.update(env_extra)
    cases = cfg["cases"][tier]
    if os.environ.get("VERIF_CASES"):
        cases = int(os.environ["VERIF_CASES"])
    nsh = min(cfg.get("shards", NSH), cases)
    hang = cfg.get("hang", 90)
    d = os.path.join(tmp, run_name)
    os.makedirs(d, exist_ok=True)
    shards = [Shard(exe, cfg, tier, seed, cases, i, nsh, d, env) for i in range(nsh)]
    viol, hits, inconclusive = [], [], []
    seen_lines = {}

    def drain(sh):
        new = []
        try:
            with open(sh.out) as f:
                lines = f.readlines()
        except OSError:
            lines = []
        k = seen_lines.get(sh.out, 0)
        for ln in lines[k:]:
            if not ln.endswith("\n"):
                break
            seen_lines[sh.out] = seen_lines.get(sh.out, 0) + 1
            try:
                r = json.loads(ln)
            except ValueError:
                continue
            if r.get("type") == "violation":
                new.append(r)
            elif r.get("type") == "summary":
                summaries.append(r)
        return new

    summaries = []

    def register(v):
        k = match_known(known, prop, v)
        if k:
            hits.append((k, v))
        else:
            viol.append(v)

    live = list(shards)
    restarts = {}
    while live and (not viol or os.environ.get("VERIF_EXPLORE")):
        time.sleep(0.05)
        if time.time() > deadline:
            inconclusive.append("time budget exhausted before all cases ran")
            break
        for sh in list(live):
            case, stage = sh.poll_case()
            for v in drain(sh):
                register(v)
            rc = sh.proc.poll()
            if rc is not None:
                sh.logf.close()
                for v in drain(sh):
                    register(v)
                if rc == 0:
                    live.remove(sh)
                    continue
                case, stage = sh.poll_case()
                text = tail(sh.log)
                key, what = crash_key(text, rc)
                if rc == 3 or case is None:
                    inconclusive.append("driver failed to start: rc=%s %s" % (rc, text[-300:]))
                    live.remove(sh)
                    continue
                register({"case": case, "key": key, "msg": "died at stage '%s': %s" % (stage, what), "log": text[-4000:]})
                restarts[sh.i] = restarts.get(sh.i, 0) + 1
                if restarts[sh.i] > 40:
                    inconclusive.append("too many known crashes in one shard")
                    live.remove(sh)
                    continue
                sh.start(case + 1)
            elif time.time() - sh.since > hang and case is not None:
                sh.kill()
                # once more, alone and with twice the allowance
                again = Shard(exe, cfg, tier, seed, cases, sh.i, nsh, d, env, only=case)
                t0 = time.time()
                while again.proc.poll() is None and time.time() - t0 < 2 * hang:
                    time.sleep(0.1)
                if again.proc.poll() is None:
                    again.kill()
                    register({"case": case, "key": "hang:" + stage,
                              "msg": "case does not finish within %d s (stage '%s'), twice" % (2 * hang, stage)})
                else:
                    for v in drain(again):
                        register(v)
                restarts[sh.i] = restarts.get(sh.i, 0) + 1
                if restarts[sh.i] > 10:
                    inconclusive.append("too many slow cases")
                    live.remove(sh)
                    continue
                sh.start(case + 1)
    for sh in live:
        sh.kill()
    total = {"evaluations": 0, "counters": {}, "samples": []}
    for s in summaries:
        total["evaluations"] += s["evaluations"]
        for k, n in s["counters"].items():
            total["counters"][k] = total["counters"].get(k, 0) + n
        total["samples"] += s["samples"]
    dist = set()
    for sh in shards:
        try:
            with open(sh.distinct, "rb") as f:
                data = f.read()
            dist.update(struct.unpack("<%dQ" % (len(data) // 8), data[:len(data) // 8 * 8]))
        except OSError:
            pass
    total["distinct"] = dist
    total["cases"] = cases
    return viol, hits, total, inconclusive


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            replay = json.load(f)
        seed, tier = replay["seed"], replay["tier"]
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 850)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    evfile = os.path.join(evdir, prop + ".json")
    if replay is None and os.path.exists(evfile):
        os.unlink(evfile)
    known = load_known()
    runs = cfg.get("runs") or [dict()]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    viol, hits, inconclusive = [], [], []
    notes = list(cfg.get("assumptions", []))
    evaluations, distinct, counters, samples = 0, set(), {}, []
    try:
        for i, r in enumerate(runs):
            c = dict(cfg)
            c.update(r)
            driver = os.path.join(B.HARNESS, "props", c.get("driver", prop) + ".cpp")
            try:
                exe = B.build(driver, c.get("config", "asan"), full=c.get("full", False),
                              extra_src=[os.path.join(B.HARNESS, p.replace("@REPO@", B.REPO)) for p in c.get("extra_src", [])],
                              extra_cc=c.get("extra_cc", []), extra_ld=c.get("extra_ld", []),
                              name=prop)
            except B.BuildError as e:
                if c.get("optional") and re.search(r"undefined reference to `(GOMP|omp)_", str(e)):
                    # the tree uses a part of OpenMP that the harness's runtime lacks
                    notes.append("run %d (%s) left out: %s" % (i, c.get("config"), re.search(r"undefined reference[^\n]*", str(e)).group(0)))
                    continue
                print("check error: build failed for %s\n%s" % (prop, e))
                return 2
            if replay is not None:
                if replay.get("run", 0) != i:
                    continue
                env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0",
                           UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS="halt_on_error=1", OMP_NUM_THREADS="2")
                env.update(c.get("env", {}))
                return subprocess.run([exe, "--seed", str(seed), "--tier", tier, "--nshards", "1", "--shard", "0",
                                       "--cases", str(c["cases"][tier]), "--only", str(replay["case"]), "--scratch", tmp],
                                      env=env, cwd=tmp).returncode
            v, h, tot, inc = run_driver(prop, c, exe, tier, seed, known, tmp, "run%d" % i, {}, deadline)
            for x in v:
                x["run"] = i
            viol += v
            hits += h
            inconclusive += inc
            evaluations += tot["evaluations"]
            distinct |= {(i << 64) ^ x for x in tot["distinct"]} if len(runs) > 1 else tot["distinct"]
            for k, n in tot["counters"].items():
                counters[k] = counters.get(k, 0) + n
            samples += tot["samples"]
            if v:
                break
            if not inc:
                for k in c.get("require", []):
                    if tot["counters"].get(k, 0) == 0:
                        inconclusive.append("monitor '%s' observed nothing" % k)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if replay is not None:
        return 0
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": cfg["rule"],
                     "samples": samples[:6] or ["(no case completed)"], "observed": counters},
        "assumptions": notes,
        "wall_s": round(wall, 2), "violations": len(viol),
        "known_findings_hit": sorted({k["what"] for k, _ in hits}),
        "inconclusive": inconclusive,
    }
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for w in sorted({k["what"] for k, _ in hits}):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if viol:
        for v in viol[:5]:
            path = os.path.join(evdir, "replay", "%s-seed%d-case%s.json" % (prop, seed, v["case"]))
            rec = dict(v)
            rec.update({"property": prop, "seed": seed, "tier": tier,
                        "how": "python3 tools/vrun.py %s --replay %s" % (prop, path)})
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print("  [%s] case %s: %s" % (v["key"], v["case"], v["msg"][:800]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if inconclusive:
        print("inconclusive: " + "; ".join(inconclusive))
        return 2
    print("%s held: %d evaluations, %d distinct non-trivial, %.1f s; %s" %
          (prop, evaluations, len(distinct), wall, json.dumps(counters)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
