#!/usr/bin/env python3
"""Runs one check:  run.py ID [quick|thorough] [--replay FILE|--case CASE] [--keep]

Builds the harness of the check against /repo's current working tree (go test
-overlay: nothing is written to /repo), runs its shards, confirms violations by
replaying them, and writes evidence/<ID>.json.
"""
import json, os, sys, subprocess, tempfile, shutil, time, glob, re, signal, atexit, concurrent.futures

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.24.13"
MOD = "github.com/c2FmZQ/tlsproxy"


def goenv(cfg):
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT=GOROOT, GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-mod=mod -buildvcs=false", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("VX_GOCACHE", "/root/.cache/go-build"),
             GOWORK="off", CGO_ENABLED="1",
             PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in ("GOOS", "GOARCH", "GOEXPERIMENT"):
        e.pop(k, None)
    if cfg.get("synctest"):
        e["GOEXPERIMENT"] = "synctest"
    return e


def die(msg):
    sys.stderr.write(msg + "\n")
    sys.exit(2)


def modcache(path):
    return os.path.join("/root/go/pkg/mod", path)


def storage_dir():
    for line in open(os.path.join(REPO, "go.mod")):
        m = re.match(r"\s*github.com/c2FmZQ/storage (\S+)", line)
        if m:
            return modcache("github.com/c2!fm!z!q/storage@" + m.group(1))
    die("storage version not found")


def module_dir(name):
    """The directory of a module that the code depends on."""
    for line in open(os.path.join(REPO, "go.mod")):
        m = re.match(r"\s*(?:require\s+)?%s (\S+)" % re.escape(name), line)
        if m:
            return modcache(re.sub(r"[A-Z]", lambda k: "!" + k.group(0).lower(), name) + "@" + m.group(1))
    die(name + " version not found")


def swap_imports(src, imports):
    """Replaces packages in the import section: the shims export everything
    that the original package does, under the same names."""
    m = re.search(r"^(func|type|var|const)\b", src, re.M)
    end = m.start() if m else len(src)
    head, tail = src[:end], src[end:]
    for old, new in imports.items():
        name = old.split("/")[-1]
        q = MOD + "/" + new
        head = re.sub(r'^(\s*(?:import\s+)?)(?:%s\s+)?"%s"' % (re.escape(name), re.escape(old)),
                      lambda k: k.group(1) + name + ' "' + q + '"', head, flags=re.M)
    return head + tail


def build(cfg, cdir, scratch):
    if cfg.get("sim"):
        # The controlled scheduler, with a complete proxy on an in-memory network.
        cfg.setdefault("libs", {}).update({"proxy": ["lib/proxyx", "lib/proxysim"], "internal/vsync": "lib/vsync",
            "internal/vnet": "lib/vnet", "internal/vsched": "lib/vsched"})
        cfg["instrument"] = cfg.get("instrument", []) + [{"files": ["proxy/*.go", "proxy/internal/netw/*.go"],
            "imports": {"sync": "internal/vsync", "net": "internal/vnet"}}]
        cfg["synctest"] = True
    if cfg.get("quic"):
        # The clock doesn't move between a timer and what it triggers.
        cfg["instrument"] = cfg.get("instrument", []) + [{"module": "github.com/quic-go/quic-go", "files": ["connection.go"], "replace": [
            ["!timeout.IsZero() && timeout.Before(now)", "!timeout.IsZero() && !timeout.After(now)"],
            ["(s.handshakeComplete && now.After(s.nextIdleTimeoutTime()))", "(s.handshakeComplete && !now.Before(s.nextIdleTimeoutTime()))"],
            ["deadline := s.sentPacketHandler.TimeUntilSend()", "deadline := s.sentPacketHandler.TimeUntilSend()\n\t\tif !deadline.IsZero() && !deadline.After(time.Now()) {\n\t\t\tdeadline = time.Now().Add(time.Millisecond)\n\t\t}"]]},
            {"module": "github.com/quic-go/quic-go", "files": ["internal/ackhandler/sent_packet_handler.go"], "replace": [
            ["p.SendTime.Before(lostSendTime)", "!p.SendTime.After(lostSendTime)"]]}]
    env = goenv(cfg)
    if any(i.get("storage") or i.get("module") for i in cfg.get("instrument", [])):
        env["GODEBUG"] = "goindex=0"  # the index doesn't see the overlay
    rep = {}
    # Products of "go generate" that are embedded, if they are not there.
    for n in ("pki.wasm.bz2", "wasm_exec.js"):
        p = os.path.join(REPO, "proxy/internal/pki", n)
        if not os.path.exists(p):
            stub = os.path.join(scratch, n)
            with open(stub, "wb") as f:
                f.write(b"")
            rep[p] = stub
    libs = {"internal/vx/vx.go": "lib/vx/vx.go"}
    libs.update(cfg.get("libs", {}))
    for dst, src in [(d, x) for d, v in libs.items() for x in (v if isinstance(v, list) else [v])]:
        s = os.path.join(VERIF, src)
        if os.path.isdir(s):
            for f in sorted(os.listdir(s)):
                if f.endswith(".go"):
                    rep[os.path.join(REPO, dst, f)] = os.path.join(s, f)
        else:
            rep[os.path.join(REPO, dst)] = s
    for dst, src in cfg.get("files", {}).items():
        rep[os.path.join(REPO, dst)] = os.path.join(cdir, src)
    # Instrumented copies of the current source.
    ins = cfg.get("instrument")
    if ins:
        outd = os.path.join(scratch, "ins")
        os.makedirs(outd)
        for i, it in enumerate(ins):
            pats = it["files"] if isinstance(it["files"], list) else [it["files"]]
            root = storage_dir() if it.get("storage") else module_dir(it["module"]) if it.get("module") else REPO
            files = []
            for pat in pats:
                files += [f for f in sorted(glob.glob(os.path.join(root, pat))) if not f.endswith("_test.go")]
            for ex in it.get("exclude", []):
                files = [f for f in files if not f.endswith(ex)]
            for f in files:
                o = os.path.join(outd, "%d_%s" % (i, f.replace("/", "__")))
                src = open(rep.get(f, f)).read()
                new = swap_imports(src, it.get("imports", {}))
                for a, b in it.get("replace", []):
                    if a not in new:
                        die("%s doesn't contain %r" % (f, a))
                    new = new.replace(a, b)
                if new != src:
                    with open(o, "w") as fd:
                        fd.write(new)
                    rep[f] = o
    ov = os.path.join(scratch, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    md = os.path.join(scratch, "mod")
    os.makedirs(md)
    shutil.copy(os.path.join(REPO, "go.mod"), md)
    shutil.copy(os.path.join(REPO, "go.sum"), md)
    exe = os.path.join(scratch, "check.test")
    cmd = [GOROOT + "/bin/go", "test", "-c", "-vet=off", "-overlay", ov, "-modfile", os.path.join(md, "go.mod"), "-o", exe]
    if cfg.get("race"):
        cmd.append("-race")
    if cfg.get("tags"):
        cmd += ["-tags", cfg["tags"]]
    cmd.append("./" + cfg["pkg"])
    p = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        die("build failed:\n" + (p.stdout + p.stderr)[-8000:])
    return exe


def run_shards(cfg, exe, scratch, tier, n, secs, replay=None, tag="run", only=None):
    out = os.path.join(scratch, "out-" + tag)
    os.makedirs(out, exist_ok=True)
    procs = []
    shards = range(n) if only is None else only
    for i in shards:
        sd = os.path.join(scratch, "wd-%s-%d" % (tag, i))
        os.makedirs(sd, exist_ok=True)
        env = goenv(cfg)
        env.update(VX_OUT=out, VX_SHARD="%d/%d" % (i, n), VX_SECONDS=str(secs), VX_SCRATCH=sd,
                   VERIF_TIER=tier, TMPDIR=sd, VX_ID=cfg["id"], VX_REPO=REPO, VX_VERIF=VERIF)
        env.setdefault("VERIF_SEED", "1")
        for k, v in cfg.get("env", {}).items():
            env[k] = v
        if replay is not None:
            env["VX_REPLAY"] = replay
        else:
            env.pop("VX_REPLAY", None)
        cwd = os.path.join(scratch, "cwd")
        os.makedirs(cwd, exist_ok=True)
        log = open(os.path.join(out, "log-%d" % i), "wb")
        hard = secs + cfg.get("grace", 90)
        p = subprocess.Popen([exe, "-test.run", "^" + cfg["run"] + "$", "-test.count=1", "-test.timeout", "%ds" % hard] +
                             (["-test.parallel=1"] + (["-test.cpuprofile", os.environ["VX_PROF"]] if os.environ.get("VX_PROF") else [])), cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        procs.append((i, p, time.time() + hard + 20))
    res = {}
    for i, p, dl in procs:
        try:
            rc = p.wait(timeout=max(1, dl - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -9
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        j = None
        fn = os.path.join(out, "shard-%d.json" % i)
        if os.path.exists(fn):
            try:
                j = json.load(open(fn))
            except ValueError:
                j = None
        lg = open(os.path.join(out, "log-%d" % i), "rb").read()
        cur = None
        cf = os.path.join(out, "cur-%d" % i)
        if os.path.exists(cf):
            cur = open(cf, errors="replace").read()
        res[i] = dict(rc=rc, json=j, log=lg[-60000:].decode("utf8", "replace"), cur=cur)
    return out, res


def load_states(out, n):
    s = set()
    for i in range(n):
        fn = os.path.join(out, "shard-%d.states" % i)
        if os.path.exists(fn):
            b = open(fn, "rb").read()
            import array
            a = array.array("Q")
            a.frombytes(b)
            s.update(a)
    return len(s)


def crash_violation(cfg, r):
    """A shard that died without a result: is it the code under test?"""
    lg = r["log"]
    m = re.search(r"^STUCK (.*)$", lg, re.M)
    if m:
        return dict(key="wedged", detail="goroutines block each other forever (no goroutine can run and no time can pass): " + m.group(1), case=m.group(1))
    m = re.search(r"^(panic: .*|fatal error: .*)$", lg, re.M)
    if not m:
        return None
    if "test timed out" in m.group(1):
        return None
    # Where did the panic come from: the first frame of repository code.
    tail = lg[m.start():]
    frames = re.findall(r"^(%s/\S+?)\(" % re.escape(MOD), tail, re.M)
    site = ""
    for f in frames:
        if "/internal/vx" in f or "VX" in f or "vx" in f.split("/")[-1].lower():
            continue
        site = f[len(MOD) + 1:]
        break
    return dict(key="crash:" + site, detail="process terminated: " + tail[:3000], case=(r["cur"] or ""))


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    if not a:
        die(__doc__)
    cid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    replay = None
    case = hist = None
    for i, x in enumerate(sys.argv):
        if x == "--replay":
            replay = sys.argv[i + 1]
        if x == "--case":
            case = sys.argv[i + 1]
    if replay:
        a = [cid]
        case = json.load(open(replay))["case"]
        tier = json.load(open(replay)).get("tier", tier)
        hist = json.load(open(replay)).get("history")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cdir = os.path.join(VERIF, "checks", cid)
    cfg = json.load(open(os.path.join(cdir, "check.json")))
    cfg["id"] = cid
    cfg.setdefault("run", "TestVX")
    t0 = time.time()
    base = os.environ.get("VX_TMP", "/tmp")
    scratch = tempfile.mkdtemp(prefix="vx-%s-" % cid, dir=base)
    if "--keep" in sys.argv:
        print("scratch", scratch)
    else:
        atexit.register(lambda: shutil.rmtree(scratch, ignore_errors=True))
    exe = build(cfg, cdir, scratch)
    tb = time.time() - t0
    ncpu = os.cpu_count() or 4
    n = min(cfg.get("shards", 8), max(2, ncpu))
    n = min(n, cfg.get("shards", 8))
    secs = cfg.get("seconds", {}).get(tier, 150 if tier == "quick" else 600)

    if case is not None:
        if hist:
            sh, n = hist
            out, res = run_shards(cfg, exe, scratch, tier, n, secs, tag="replay", only=[sh])
            res = {0: res[sh]}  # (a crash has no json)
            if res[0]["json"]:
                res[0]["json"]["violations"] = [v for v in res[0]["json"].get("violations") or [] if v["case"] == case]
        else:
            out, res = run_shards(cfg, exe, scratch, tier, 1, secs, replay=case, tag="replay")
        r = res[0]
        print(r["log"])
        v = (r["json"] or {}).get("violations") or []
        if not r["json"]:
            cv = crash_violation(cfg, r)
            v = [cv] if cv else []
        for x in v:
            print(x["key"], x["detail"])
        print("replay: %s" % ("violation reproduced" if v else "no violation"))
        sys.exit(1 if v else 0)

    out, res = run_shards(cfg, exe, scratch, tier, n, secs)
    viols = []
    agg = dict(transitions=0, execs=0, cases=0)
    exhaustive = True
    samples, notes, outcomes, bounds = [], [], {}, {}
    extra = {}
    errors = []
    for i in sorted(res):
        r = res[i]
        j = r["json"]
        if "--keep" in sys.argv or os.environ.get("VX_VERBOSE"):
            print("shard", i, "rc", r["rc"])
        if j is None:
            cv = crash_violation(cfg, r)
            if cv:
                cv["shard"] = i
                viols.append(cv)
            else:
                errors.append("shard %d: rc=%d, no result:\n%s" % (i, r["rc"], r["log"][-6000:]))
            exhaustive = False
            continue
        if r["rc"] != 0 and not j.get("violations"):
            errors.append("shard %d: rc=%d:\n%s" % (i, r["rc"], r["log"][-6000:]))
        for k in agg:
            agg[k] = agg[k] + j[k] if k != "cases" else max(agg[k], j[k])
        exhaustive = exhaustive and j["exhaustive"]
        for s in j["samples"] or []:
            if len(samples) < 12:
                samples.append(s)
        for k, v in (j["outcomes"] or {}).items():
            outcomes[k] = outcomes.get(k, 0) + v
        bounds.update(j["bounds"] or {})
        for x in j["notes"] or []:
            if x not in notes:
                notes.append(x)
        for v in j["violations"] or []:
            v["shard"] = i
            viols.append(v)
    nstates = load_states(out, n)

    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k.get("property") == cid and k.get("status") == "known"]
    reported, seen = [], {}
    knownhit = {}
    for v in viols:
        kk = None
        for k in known:
            if re.fullmatch(k["match"], v["key"]):
                kk = k
        if kk:
            knownhit[kk["id"]] = kk
            continue
        if seen.get(v["key"], 0) >= 2:
            continue
        seen[v["key"]] = seen.get(v["key"], 0) + 1
        reported.append(v)
    confirmed, flaky = [], []
    conf_deadline = time.time() + (150 if tier == "quick" else 300)
    for v in reported:
        if len(confirmed) >= 3:
            break
        if cfg.get("noreplay"):
            confirmed.append(v)
            continue
        ok = 0
        tries = 0
        for k in range(5):
            if time.time() > conf_deadline and tries >= 1:
                break
            tries += 1
            _, rr = run_shards(cfg, exe, scratch, tier, 1, min(secs, 60), replay=v["case"], tag="c%d" % (len(confirmed) * 50 + len(flaky) * 5 + k))
            r = rr[0]
            vv = (r["json"] or {}).get("violations") or []
            if not r["json"]:
                cv = crash_violation(cfg, r)
                vv = [cv] if cv else []
            if any(x["key"] == v["key"] for x in vv):
                ok += 1
            if ok >= 3 or (k - ok) >= 3:
                break
        v["confirmed"] = "%d/%d" % (ok, tries)
        if ok * 2 > tries:
            confirmed.append(v)
        else:
            flaky.append(v)
    # A violation that needs what came before it in the same process is
    # confirmed by running the same part of the enumeration again: it must come
    # up at the same place every time.
    for sh in sorted({v["shard"] for v in flaky if "shard" in v})[:3] if not confirmed else []:
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            again = list(ex.map(lambda k: run_shards(cfg, exe, scratch, tier, n, secs, tag="h%d-%d" % (sh, k), only=[sh])[1][sh], range(3)))
        hits = [{(x["key"], x["case"]) for x in ((g["json"] or {}).get("violations") or [])} for g in again]
        crashes = [(crash_violation(cfg, g) or {}).get("key") if g["json"] is None else None for g in again]
        for v in [v for v in flaky if v.get("shard") == sh]:
            if all((v["key"], v["case"]) in h for h in hits) or all(k == v["key"] for k in crashes):
                v["confirmed"] = "with its history, 3/3"
                v["history"] = [sh, n]
                flaky.remove(v)
                confirmed.append(v)
    confirmed = confirmed[:3]
    rd = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rd, exist_ok=True)
    for old in glob.glob(os.path.join(rd, cid + "-*.json")):
        os.unlink(old)
    for i, v in enumerate(confirmed):
        v["replay"] = os.path.join(rd, "%s-%d.json" % (cid, i))
        json.dump(dict(property=cid, tier=tier, case=v["case"], key=v["key"], detail=v["detail"], confirmed=v.get("confirmed"), history=v.get("history"),
                       how="python3 /verif/run.py %s --replay %s" % (cid, v["replay"])), open(v["replay"], "w"), indent=1)
    if flaky:
        notes.append("not reproduced on replay, not reported: " + "; ".join("%s (%s) case %s" % (v["key"], v["confirmed"], v["case"]) for v in flaky)[:1500])
    wall = time.time() - t0
    top = sorted(outcomes.items(), key=lambda kv: -kv[1])
    if not samples:
        samples = [k for k, _ in top[:5]]
    cov = dict(exhaustive=bool(exhaustive), samples=samples[:8], bounds=bounds, distinct_outcomes=len(outcomes),
               outcomes=dict(top[:40]), notes=notes)
    if cfg["level"] in ("exploration", "fault_enumeration"):
        cov.update(evaluations=agg["execs"], distinct_nontrivial=nstates, rule=cfg["rule"], transitions=agg["transitions"])
    else:
        cov.update(states=nstates, transitions=agg["transitions"], traces_validated_against_impl=agg["execs"])
    ev = dict(property=cid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=cfg["level"],
              coverage=cov, assumptions=cfg.get("assumptions", []), wall_s=round(wall, 1),
              violations=len(confirmed),
              violation_list=[dict(key=v["key"], detail=v["detail"][:1500], replay=v["replay"]) for v in confirmed])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", cid + ".json"), "w"), indent=1)
    print("%s %s: build %.1fs total %.1fs; cases=%d execs=%d transitions=%d states=%d outcomes=%d exhaustive=%s" % (
        cid, tier, tb, wall, agg["cases"], agg["execs"], agg["transitions"], nstates, len(outcomes), exhaustive))
    if os.environ.get("VX_VERBOSE"):
        for k, v in top[:60]:
            print("   %6d %s" % (v, k))
        for x in notes:
            print("   note:", x)
    for k in knownhit.values():
        print("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))
    if flaky:
        print("note: %d observation(s) did not reproduce on replay" % len(flaky))
        for v in flaky[:4]:
            print("   ", v["key"], v["detail"][:300])
        if os.environ.get("VX_VERBOSE"):
            for v in flaky:
                print("   flaky:", v["key"], v["case"], v["detail"][:500])
    if confirmed:
        for v in confirmed:
            print("  %s: %s" % (v["key"], v["detail"][:700].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (cid, v["replay"]))
        sys.exit(1)
    if errors:
        sys.stderr.write("\n".join(errors)[:12000] + "\n")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
