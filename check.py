#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--keep]

Builds the harness against /repo's working tree, runs the property's workload under its monitors in several
processes, and turns what they observed into a verdict:
  exit 0  held on everything explored
  exit 1  "VIOLATION property=ID replay=FILE" (only with a witness: a monitor's record, a race report or crash with
          frames of the code under test, or a proven deadlock/livelock)
  exit 2  no verdict (build failure, harness error, inconclusive watchdog, nothing observed)
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SUT = "github.com/Redundancy/go-sync"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GONOSUMDB="*", GOWORK="off")
    for d in ("/opt/veriftools/go1.27.3/bin",):
        if os.path.isdir(d):
            e["PATH"] = d + ":" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    return e


def build(prop, out):
    p = PROPS[prop]
    h = os.path.join(VERIF, "harness")
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(h, f), os.path.join(out, f))
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", os.path.join(out, "go.mod"), "-o", os.path.join(out, "harness.test")]
    if p.get("race"):
        cmd.append("-race")
    cmds = [(cmd + ["./" + p["pkg"]], h)]
    if p.get("cli"):
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), os.path.join(out, "repo." + f))
        os.rename(os.path.join(out, "repo.go.mod"), os.path.join(out, "cli.mod"))
        os.rename(os.path.join(out, "repo.go.sum"), os.path.join(out, "cli.sum"))
        for name, flags in [("gosync", [])] + ([("gosync-race", ["-race"])] if p["cli"] == "race" else []):
            cmds.append((["go", "build"] + flags + ["-modfile", os.path.join(out, "cli.mod"), "-o", os.path.join(out, name), "./cmd/gosync"], REPO))
    for c, d in cmds:
        r = subprocess.run(c, cwd=d, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log(r.stdout[-4000:])
            log("ERROR: build failed:", " ".join(c))
            sys.exit(2)


def known():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def jsonl(path):
    if not os.path.exists(path):
        return []
    res = []
    for l in open(path, errors="replace"):
        try:
            res.append(json.loads(l))
        except ValueError:
            pass
    return res


def crash_reports(text):
    """Parts of a process's output that show a crash or race inside the code under test."""
    out = []
    for m in re.finditer(r"^(panic: |fatal error: |SIGSEGV|unexpected fault address)", text, re.M):
        part = text[m.start():m.start() + 12000]
        # the crashing goroutine is the first one printed after the message
        g = re.search(r"\ngoroutine \d+.*?(?=\n\ngoroutine |\Z)", part, re.S)
        body = part[:g.end()] if g else part
        if "harness panic in" in body.split("\n")[0]:
            continue
        if body.startswith("fatal error: all goroutines are asleep") or body.startswith("fatal error: concurrent map"):
            body = part
        if SUT in body:
            out.append(body[:6000])
            break
    return out


def race_reports(text):
    out = []
    for part in re.findall(r"WARNING: DATA RACE.*?==================", text, re.S):
        if SUT in part:
            # leave out the creation stacks: who started a goroutine is not who races
            core = re.split(r"\nGoroutine \d+ ", part)[0]
            if SUT in core:
                out.append(part[:6000])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--scale", default="")
    a = ap.parse_args()
    prop, p = a.prop, PROPS[a.prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier
    t0 = time.time()
    out = tempfile.mkdtemp(prefix="vh-" + prop + "-")
    os.chmod(out, 0o755)
    try:
        return run(a, prop, p, seed, tier, t0, out)
    finally:
        if not a.keep:
            subprocess.run(["chmod", "-R", "u+rwx", out], stderr=subprocess.DEVNULL)
            shutil.rmtree(out, ignore_errors=True)
        else:
            log("kept", out)


def run(a, prop, p, seed, tier, t0, out):
    build(prop, out)
    tb = time.time() - t0
    nsh = p.get("shards", 8)
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        seed, tier, nsh = rep["seed"], rep["tier"], 1
    limit = p.get("limit", {"quick": 700, "thorough": 4 * 3600})[tier]
    procs = []
    stop = not rep and not any(f[0] == prop for f in known())
    for s in range(nsh):
        e = goenv()
        if stop:
            e["VH_STOP"] = "1"
        e.update(VH_SHARD=str(s), VH_NSHARDS=str(nsh), VH_OUT=out, VERIF_SEED=str(seed), VERIF_TIER=tier,
                 GOTRACEBACK="all", VH_GOSYNC=os.path.join(out, "gosync"), VH_GOSYNC_RACE=os.path.join(out, "gosync-race"), TMPDIR=out,
                 GORACE=f"log_path={out}/race.{s} halt_on_error=0 history_size=3 exitcode=66")
        gmp = p.get("gomaxprocs")
        if gmp:
            e["GOMAXPROCS"] = str(gmp[s % len(gmp)])
        if a.scale:
            e["VH_SCALE"] = a.scale
        if rep:
            e["VH_GROUP"] = rep.get("group", "")
            if rep.get("case", -1) >= 0:
                e["VH_CASE"] = str(rep["case"])
        f = open(os.path.join(out, f"log.{s}"), "wb")
        cmd = [os.path.join(out, "harness.test"), "-test.run", "^Test" + prop + "$", "-test.timeout", "0",
               "-test.count", str(rep.get("repeat", 1) if rep else 1), "-test.v"]
        procs.append((s, subprocess.Popen(cmd, cwd=out, env=e, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)))
    end = time.time() + limit
    codes = {}
    found = None

    def ended(pr):  # without reaping it, so that nothing else gets its number
        return os.waitid(os.P_PID, pr.pid, os.WEXITED | os.WNOHANG | os.WNOWAIT) is not None

    while time.time() < end and not all(ended(pr) for _, pr in procs):
        time.sleep(0.05)
        # once there is a violation to report, the rest is only waited for a little
        if stop and found is None and any(os.path.exists(f"{out}/viol.{s}") for s, _ in procs):
            found = time.time()
        if found and time.time() > found + 45:
            break
    alive = {s: not ended(pr) for s, pr in procs}
    for s, pr in procs:  # also ends what the cases left running
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        codes[s] = pr.wait()
        if alive[s]:
            codes[s] = None

    viols, errors = [], []
    agg = {"evals": 0, "sigs": set(), "counts": {}, "samples": [], "planned": 0}
    for s, pr in procs:
        vs = jsonl(f"{out}/viol.{s}")
        viols += vs
        text = open(f"{out}/log.{s}", errors="replace").read()
        cur = {"group": "", "case": -1}
        try:
            g, c = open(f"{out}/cur.{s}").read().split()[:2]
            cur = {"group": g, "case": int(c)}
        except (OSError, ValueError):
            pass
        for st in jsonl(f"{out}/stats.{s}"):
            agg["evals"] += st["evals"]
            agg["sigs"].update(st["sigs"] or [])
            agg["planned"] = max(agg["planned"], st["total_cases"])
            for k, v in (st["counts"] or {}).items():
                agg["counts"][k] = max(agg["counts"].get(k, 0), v) if k.startswith("max_") else agg["counts"].get(k, 0) + v
            agg["samples"] += st["samples"] or []
        races = []
        for f in os.listdir(out):
            if f.startswith(f"race.{s}."):
                races.append(open(os.path.join(out, f), errors="replace").read())
        rr = race_reports("\n".join(races) + "\n" + text)
        for r in rr[:5]:
            viols.append(dict(cur, property=prop, seed=seed, tier=tier, key="race", msg=r, repeat=30))
        cr = crash_reports(text)
        for r in cr:
            viols.append(dict(cur, property=prop, seed=seed, tier=tier, key="crash", msg=r))
        inc = jsonl(f"{out}/inconclusive.{s}")
        for i in inc:
            errors.append(f"shard {s}: inconclusive: {i.get('group')}/{i.get('case')}: {i.get('why')}\n{i.get('stacks', '')[:3000]}")
        if codes[s] != 0 and not vs and not rr and not cr and not inc:
            errors.append(f"shard {s}: exit {codes[s]} without a verdict ({cur}):\n{text[-3000:]}")
        if "WARNING: DATA RACE" in "\n".join(races) and not rr:
            errors.append(f"shard {s}: data race within the harness:\n{races[0][:3000]}")

    findings = [f for f in known() if f[0] == prop]
    keys = {k for _, k, _ in findings}
    fresh = [v for v in viols if v.get("key") not in keys or not v.get("key")]
    for _, k, what in findings:
        log(f"KNOWN-FINDING: property={prop} {what}")

    for k in p.get("observe", []):
        if k in p.get("strace", []) and agg["counts"].get("no_strace", 0) > 0:
            continue  # tracing is not permitted here: the evidence says so
        if not rep and not fresh and not errors and agg["counts"].get(k, 0) == 0:
            errors.append(f"the monitors observed no {k}")
    if not rep and not fresh and not errors and (agg["evals"] == 0 or not agg["sigs"]):
        errors.append("nothing was evaluated")

    if rep is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": p["level"],
            "coverage": {
                "evaluations": agg["evals"], "distinct_nontrivial": len(agg["sigs"]), "rule": p["rule"],
                "samples": agg["samples"][:8] or ["none"], "cases_planned": agg["planned"],
                "observed": dict(sorted(agg["counts"].items())), "processes": nsh,
                "race_detector": bool(p.get("race")), "no_verdict": errors[:3],
            },
            "assumptions": p.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": len(fresh),
        }
        tmp = os.path.join(VERIF, "evidence", f".{prop}.{os.getpid()}")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    if fresh:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        shown = set()
        for v in sorted(fresh, key=lambda v: len(v["msg"])):
            if v.get("key") == "" or v.get("key") not in shown:
                shown.add(v.get("key"))
                path = a.replay or os.path.join(d, f"{prop}-{v['group']}-{v['case']}-{v['seed']}.json")
                if not a.replay:
                    with open(path, "w") as f:
                        json.dump(v, f, indent=1)
                log(f"--- {v['group']}/{v['case']} {v.get('key')}: {v['msg'][:3000]}")
                log(f"VIOLATION property={prop} replay={path}")
                if len(shown) >= 3:
                    break
        for e in errors[:2]:
            log("note:", e[:1500])
        return 1
    if errors:
        for e in errors[:4]:
            log("ERROR:", e)
        return 2
    log(f"{prop}: held on {agg['evals']} executions ({len(agg['sigs'])} distinct); observed {json.dumps(dict(sorted(agg['counts'].items())))}; {time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
