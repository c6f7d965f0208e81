"""python -m mc.main ID [quick|thorough] | ID replay FILE -- explores one property and reports."""
import atexit, importlib, json, os, pathlib, shutil, signal, struct, subprocess, sys, tempfile, time

ROOT = pathlib.Path(__file__).resolve().parent.parent
STALL = float(os.environ.get("VERIF_STALL", "150"))


def die(msg):
    print(msg, file=sys.stderr)
    print("CHECK-ERROR " + msg.splitlines()[0])
    sys.exit(2)


def main():
    t0 = time.time()
    pid = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    replay = None
    if mode == "replay":
        replay = json.load(open(sys.argv[3]))
        mode = replay["tier"]
    if mode not in ("quick", "thorough"):
        mode = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"mc.props.{pid.lower()}")
    from mc.build import build, BuildError
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    procs = []

    def cleanup():
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    atexit.register(cleanup)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    ov = os.path.join(tmp, "overlay")
    os.mkdir(ov)
    try:
        build(getattr(mod, "EXTS", ()), ov)
    except BuildError as e:
        die("build failed: " + str(e))
    build_s = time.time() - t0
    n = 1 if replay else min(int(os.environ.get("VERIF_JOBS", "8")), os.cpu_count() or 1, getattr(mod, "MAX_SHARDS", 99))
    beatf = os.path.join(tmp, "beat")
    with open(beatf, "wb") as f:
        f.write(b"\0" * 16 * n)
    kf = json.load(open(ROOT / "known_findings.json"))
    mine = [k for k in kf["findings"] if k["property"] == pid]
    known = os.path.join(tmp, "known.json")
    json.dump(mine, open(known, "w"))
    env = dict(os.environ, PYTHONPATH=f"{ov}:{ROOT}", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1", VERIF_OVERLAY=ov, PYTHONWARNINGS="ignore", TMPDIR=tmp)
    outs = [os.path.join(tmp, f"out{i}.json") for i in range(n)]
    for i in range(n):
        a = [sys.executable, "-B", "-m", "mc.worker", pid, mode, str(i), str(n), outs[i], beatf, known]
        if replay:
            a.append(str(replay["index"]))
        procs.append(subprocess.Popen(a, env=env, cwd=tmp, stdout=subprocess.DEVNULL,
                                      stderr=open(os.path.join(tmp, f"err{i}"), "wb")))

    def beats():
        b = open(beatf, "rb").read()
        return [struct.unpack_from("<qq", b, 16 * i) for i in range(n)]

    last, since = beats(), [time.time()] * n
    bad = []  # (index, msg) for crashes and stalls
    pending = set(range(n))
    while pending:
        time.sleep(0.05)
        now, cur = time.time(), beats()
        for i in list(pending):
            if cur[i] != last[i]:
                last[i], since[i] = cur[i], now
            rc = procs[i].poll()
            if rc is not None:
                pending.discard(i)
                if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL) and cur[i][0]:
                    e = open(os.path.join(tmp, f"err{i}"), "rb").read()[-800:].decode(errors="replace")
                    bad.append((cur[i][0] - 1, f"process crashed with signal {-rc}: {e}"))
                elif rc != 0 or not os.path.exists(outs[i]):
                    e = open(os.path.join(tmp, f"err{i}"), "rb").read()[-2000:].decode(errors="replace")
                    die(f"worker {i} ended with {rc}: {e}")
            elif now - since[i] > STALL and cur[i][0]:
                procs[i].kill()
                pending.discard(i)
                bad.append((cur[i][0] - 1, f"no progress for {STALL:.0f} s: the operation does not terminate"))
    res = []
    for i in range(n):
        if os.path.exists(outs[i]):
            r = json.load(open(outs[i]))
            if r["error"]:
                die(f"worker {i}: {r['error']}")
            res.append(r)
    viols = [r["violation"] for r in res if r["violation"]]
    for idx, msg in bad:
        case = next((c for j, c in enumerate(mod.cases(mode)) if j == idx), None)
        viols.append(dict(index=idx, case=case, key=json.dumps(case, sort_keys=True, default=str), msg=msg))
    viols = [v for v in viols if v["key"] not in {k["key"] for k in mine}] if bad else viols
    states = set()
    for i in range(n):
        s = outs[i] + ".states"
        if os.path.exists(s):
            b = open(s, "rb").read()
            states.update(b[j:j + 8] for j in range(0, len(b), 8))
    outc = {}
    for r in res:
        for k, v in r["outcomes"].items():
            outc[k] = outc.get(k, 0) + v
    ev = dict(property=pid, tier=mode, seed=seed, level="model_checking",
              coverage=dict(states=len(states), transitions=sum(r["transitions"] for r in res),
                            traces_validated_against_impl=sum(r["traces"] for r in res),
                            samples=[s for r in res[:3] for s in r["samples"]][:4], cases=sum(r["cases"] for r in res),
                            rule=mod.RULE, exhaustive=not viols and "schedules capped" not in outc, outcomes=dict(sorted(outc.items())[:40])),
              assumptions=list(getattr(mod, "ASSUMPTIONS", ())),
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    ev["coverage"]["build_s"] = round(build_s, 2)
    if not replay:
        (ROOT / "evidence").mkdir(exist_ok=True)
        json.dump(ev, open(ROOT / "evidence" / f"{pid}.json", "w"), indent=1, default=str)
    seen = set()
    for r in res:
        for k in r["known"]:
            if k["key"] not in seen:
                seen.add(k["key"])
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
    c = ev["coverage"]
    print(f"{pid} {mode}: cases={c['cases']} states={c['states']} transitions={c['transitions']} "
          f"traces={c['traces_validated_against_impl']} build={build_s:.1f}s wall={ev['wall_s']}s")
    if viols:
        v = min(viols, key=lambda v: v["index"])
        d = ROOT / "evidence" / "replays"
        d.mkdir(parents=True, exist_ok=True)
        f = d / f"{pid}.json"
        if not replay:
            json.dump(dict(property=pid, tier=mode, **v), open(f, "w"), indent=1, default=str)
        print("\n".join(v["msg"].splitlines()[-12:]))
        print(f"case: {json.dumps(v['case'], default=str)[:600]}")
        print(f"VIOLATION property={pid} replay={f.relative_to(ROOT)}")
        sys.exit(1)
    if c["cases"] == 0 or c["transitions"] == 0:
        die("nothing was explored")
    sys.exit(0)


main()
