#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py C05

Stages of a check (see checks.py):
  mc      TLC explores a model exhaustively, checks its invariants and emits
          cases (input + what must be observed); the harness replays them on the
          real code and reports disagreements.
  trace   the harness drives the real code with seeded random cases and records
          what it observed; TLC validates every record against the model.
Exit status: 0 held, 1 violation (VIOLATION line), 2 the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, ".work")
sys.path.insert(0, ROOT)
import checks  # noqa: E402

JAVA = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Xss64m",
        "-XX:+UseParallelGC"]
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GO111MODULE="on")
    e.setdefault("HOME", "/root")
    return e


def build(name="vh", race=False):
    os.makedirs(os.path.join(WORK, "bin"), exist_ok=True)
    out = os.path.join(WORK, "bin", name)
    cmd = ["go", "build"] + (["-race", "-tags", "verif"] if race else []) + ["-o", out, "."]
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=go_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise CheckError("harness build failed:\n" + p.stdout[-4000:])
    return out


def build_tool(name):
    """Builds a command of the repository itself."""
    repo = re.search(r"^replace \S+ => (\S+)", open(os.path.join(ROOT, "harness", "go.mod")).read(), re.M).group(1)
    os.makedirs(os.path.join(WORK, "bin"), exist_ok=True)
    p = subprocess.run(["go", "build", "-o", os.path.join(WORK, "bin", name), "./cmd/" + name], cwd=repo, env=go_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise CheckError("building %s failed:\n%s" % (name, p.stdout[-4000:]))


def tlc(dir, module, cfg_text, env, workers=8, heap="8g", timeout=800, extra=()):
    """Runs TLC, returns (generated, distinct, output)."""
    meta = os.path.join(dir, "tlc_" + module)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cfg = os.path.join(meta, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env)
    cmd = JAVA + ["-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
                  "-metadir", os.path.join(meta, "states"), "-fp", "1", "-seed", "1",
                  "-config", cfg] + list(extra) + [module + ".tla"]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    with open(os.path.join(meta, "out.txt"), "w") as f:
        f.write(p.stdout)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", p.stdout)
    if p.returncode != 0 or not m or "No error has been found" not in p.stdout:
        lines = [l for l in p.stdout.splitlines()
                 if not re.match(r"(Parsing|Semantic|Linting|Computed)", l)]
        raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, "\n".join(lines)[-6000:]))
    shutil.rmtree(os.path.join(meta, "states"), ignore_errors=True)
    return int(m.group(1)), int(m.group(2)), p.stdout


def harness(bin, args, dir, timeout=800, env=None):
    """Runs the harness. Returns (summary, crash) where crash describes a case
    that killed the process (a verdict about the code under test)."""
    e = go_env()
    e.update(env or {})
    e["VH_DIR"] = dir

    def go(extra):
        ee = dict(e)
        ee.update(extra)
        return subprocess.run([bin] + args, cwd=dir, env=ee, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    p = go({})
    if p.returncode == 0:
        return json.loads(p.stdout.strip().splitlines()[-1]), None
    # exit 7: the watchdog stopped a case that hangs or eats memory.
    fatal = re.search(r"fatal error: (stack overflow|all goroutines|concurrent map|out of memory).*|goroutine stack exceeds", p.stderr)
    race = "WARNING: DATA RACE" in p.stderr
    if p.returncode != 7 and not fatal and not race:
        raise CheckError("harness %s failed (exit %d):\n%s\n%s" % (args, p.returncode, p.stdout[-1500:], p.stderr[-3000:]))
    if race:
        i = p.stderr.index("WARNING: DATA RACE")
        return None, {"key": "data race", "input": p.stderr[i:i + 4000], "want": "no data race", "got": "data race",
                      "stage": "harness " + " ".join(args[:2])}
    cur = os.path.join(dir, "current_case")
    if os.path.exists(cur):
        os.remove(cur)
    p2 = go({"VH_CUR": cur})
    if p2.returncode == 0:
        raise CheckError("harness crashed once but not again:\n" + p.stderr[-3000:])
    case = open(cur, errors="replace").read() if os.path.exists(cur) else "?"
    why = (p2.stderr.strip().splitlines() or ["?"])
    head = [l for l in why if "fatal error" in l or "HANG" in l or "MEMORY" in l or "DATA RACE" in l]
    return None, {"key": "crash:" + case[:300], "input": case[:4000], "want": "terminates normally",
                  "got": (head or why)[0][:400], "stage": "harness " + " ".join(args[:2])}


def read_emitted(path):
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line:
                    out.append(json.loads(json.loads(line)))
    return out


def unescape_file(src, dst):
    n = 0
    with open(src, encoding="utf-8") as f, open(dst, "w", encoding="utf-8") as g:
        for line in f:
            line = line.strip()
            if line:
                g.write(json.loads(line) + "\n")
                n += 1
    return n


def cfg_text(st, consts):
    lines = ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE"]
    for inv in st.get("inv", []):
        lines.append("INVARIANT " + inv)
    for k, v in consts.items():
        lines.append("CONSTANT %s = %s" % (k, v))
    return "\n".join(lines) + "\n"


def main():
    prop = sys.argv[1]
    if prop == "setup":
        build()
        build("vh_race", True)
        build_tool("hclfmt")
        build_tool("hcldec")
        build_tool("hclspecsuite")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2 and sys.argv[2] == "thorough":
        tier = "thorough"
    t0 = time.time()
    spec = checks.CHECKS[prop]
    dir = os.path.join(WORK, prop)
    shutil.rmtree(dir, ignore_errors=True)
    os.makedirs(dir)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    budget = 850 if tier == "quick" else 3400
    bin = build()
    for t in spec.get("tools", ()):
        build_tool(t)
    os.environ["VERIF_BIN"] = os.path.join(WORK, "bin")
    racebin = None
    bad, samples = [], []
    states = trans = validated = replayed = 0
    notes, stages_info = [], []
    errors = []
    for n, st in enumerate(spec["stages"]):
        if st.get("tier") and st["tier"] != tier:
            continue
        try:
            sdir = os.path.join(dir, "s%d" % n)
            os.makedirs(sdir)
            ts = time.time()
            left = budget - (time.time() - t0)
            b = bin
            if st.get("race"):
                racebin = racebin or build("vh_race", True)
                b = racebin
            consts = dict(st.get("consts", {}))
            if tier == "thorough":
                consts.update(st.get("thorough", {}))
            if st["kind"] == "mc":
                emitted = os.path.join(sdir, "emit.csv")
                extra = []
                if st.get("simulate"):
                    num = st["simulate"][tier]
                    extra = ["-simulate", "num=%d" % num, "-depth", str(st.get("depth", 50))]
                gen, dist, out = tlc(sdir, st["module"], cfg_text(st, consts), {"OUT": emitted, "VERIF_SEED": str(seed)},
                                     timeout=left)
                states += dist
                trans += gen
                cases = os.path.join(sdir, "cases.ndjson")
                ncases = unescape_file(emitted, cases) if os.path.exists(emitted) else 0
                os.path.exists(emitted) and os.remove(emitted)
                info = None
                if st.get("replay"):
                    if ncases < st.get("min_cases", 1):
                        raise CheckError("stage %d: model %s emitted only %d cases" % (n, st["module"], ncases))
                    mm = os.path.join(sdir, "mismatch.ndjson")
                    summ, crash = harness(b, ["replay", st["replay"], cases, mm], sdir, timeout=left)
                    if crash:
                        bad.append(crash)
                    else:
                        if summ["cases"] < ncases:
                            raise CheckError("replayed %d of %d cases" % (summ["cases"], ncases))
                        replayed += summ["cases"]
                        info = summ.get("info")
                        samples += (summ.get("samples") or [])[:2]
                        for l in open(mm, encoding="utf-8"):
                            m = json.loads(l)
                            m["stage"] = "replay of %s" % st["module"]
                            bad.append(m)
                stages_info.append({"stage": "mc " + st["module"], "distinct_states": dist, "generated": gen,
                                    "cases_replayed": ncases, "info": info, "wall_s": round(time.time() - ts, 1)})
            elif st["kind"] == "trace":
                num = st["n"][tier]
                tr = os.path.join(sdir, "trace.ndjson")
                summ, crash = harness(b, ["record", st["record"], str(num), str(seed), tr], sdir, timeout=left,
                                      env=st.get("env"))
                if crash:
                    bad.append(crash)
                    continue
                samples += (summ.get("samples") or [])[:3]
                mm = tr + ".mismatch"
                if os.path.exists(mm):
                    for l in open(mm, encoding="utf-8"):
                        m = json.loads(l)
                        m["stage"] = "record " + st["record"]
                        bad.append(m)
                dist = 0
                if st.get("module"):
                    emitted = os.path.join(sdir, "emit.csv")
                    left = budget - (time.time() - t0)
                    gen, dist, out = tlc(sdir, st["module"], cfg_text(st, consts), {"OUT": emitted, "TRACE": tr},
                                         timeout=left)
                    states += dist
                    trans += gen
                    try:
                        ems = read_emitted(emitted)
                    except ValueError:
                        # long lines of several workers got mixed up
                        os.remove(emitted)
                        gen, dist, out = tlc(sdir, st["module"], cfg_text(st, consts), {"OUT": emitted, "TRACE": tr},
                                             workers=1, timeout=left)
                        ems = read_emitted(emitted)
                    recs = None
                    nany = 0
                    badset = {}
                    for em in ems:
                        if em.get("st") == "any":
                            nany += 1
                            continue
                        badset.setdefault(em["i"], em)
                    if badset:
                        recs = open(tr, encoding="utf-8").read().splitlines()
                        for i, em in sorted(badset.items()):
                            r = json.loads(recs[i - 1])
                            bad.append({"stage": "trace %s" % st["module"], "key": em.get("key") or r.get("key", r.get("src", recs[i - 1])),
                                        "input": r.get("src", r), "want": em.get("want"), "got": r.get("got"),
                                        "step": em.get("k"), "record": r})
                    want_states = summ.get("states")
                    if want_states is not None and not badset and dist != want_states:
                        raise CheckError("trace %s: TLC visited %d states, expected %d" % (st["module"], dist, want_states))
                    ok = summ["cases"] - nany - len(badset)
                    if nany > st.get("max_any", 0.35) * max(1, summ["cases"]):
                        raise CheckError("trace %s: model abstains on %d of %d cases" % (st["module"], nany, summ["cases"]))
                    validated += ok
                    stages_info.append({"stage": "trace " + st["module"], "records": summ["cases"], "abstained": nany,
                                        "distinct_states": dist, "info": summ.get("info"), "wall_s": round(time.time() - ts, 1)})
                else:
                    validated += summ["cases"]
                    stages_info.append({"stage": "record " + st["record"], "records": summ["cases"],
                                        "info": summ.get("info"), "wall_s": round(time.time() - ts, 1)})
                if not st.get("keep"):
                    if not bad:
                        os.remove(tr)
        except (CheckError, subprocess.TimeoutExpired) as e:
            # a disagreement already shown by the real code still counts
            errors.append(e)
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))
    fresh, kn = [], []
    for m in bad:
        hit = None
        for k in known["findings"]:
            if k["property"] == prop and str(m.get("key", "")) == k["key"]:
                hit = k
        (kn if hit else fresh).append((m, hit))
    seen = set()
    for m, k in kn:
        if k["key"] not in seen:
            seen.add(k["key"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans,
                       "traces_validated_against_impl": validated + replayed,
                       "spec_cases_replayed": replayed, "recorded_cases_validated": validated,
                       "stages": stages_info, "samples": samples[:8] or ["(none)"],
                       "exhaustive": False},
          "assumptions": spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s %s seed=%d: %d states, %d transitions, %d cases replayed, %d records validated, %d disagreements, %.1fs"
          % (prop, tier, seed, states, trans, replayed, validated, len(fresh), time.time() - t0))
    for e in errors:
        print("CHECK-ERROR: %s" % e)
    if errors and not fresh:
        return 2
    if fresh:
        rp = os.path.join(dir, "violations.ndjson")
        with open(rp, "w") as f:
            for m, _ in fresh:
                f.write(json.dumps(m, ensure_ascii=False) + "\n")
        for m, _ in fresh[:5]:
            print("  [%s] input: %s\n     want: %s\n     got:  %s" % (
                m.get("stage"), str(m.get("input"))[:600], json.dumps(m.get("want"), ensure_ascii=False)[:600],
                json.dumps(m.get("got"), ensure_ascii=False)[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR: timeout: %s" % e)
        rc = 2
    sys.exit(rc)
