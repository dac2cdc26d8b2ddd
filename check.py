#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property.

  check.py C02                 quick or thorough by VERIF_TIER, base seed VERIF_SEED
  check.py --replay FILE       re-executes a replay file, exit 1 when it reproduces
  check.py --setup             builds the simulator
"""
import sys, os, json, subprocess, time, re, threading, bisect, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as simbuild
from props import PROPS

WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
OUT = os.environ.get("SIM_OUT", os.path.join(HERE, "out"))
EVID = os.environ.get("SIM_EVID", os.path.join(HERE, "evidence"))


class Multi:
    """A warm runner process: one JSON answer per request line."""
    def __init__(self, exe):
        self.p = subprocess.Popen([exe, "multi"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)

    def ask(self, line):
        self.p.stdin.write(line + "\n")
        self.p.stdin.flush()
        r = self.p.stdout.readline()
        return json.loads(r) if r else {"status": 2, "cls": "runner died"}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


_syms = None


def symbolise(exe, msg):
    global _syms
    if "0x" not in msg:
        return msg
    if _syms is None:
        a = []
        for l in subprocess.run(["nm", "-n", exe], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            f = l.split()
            if len(f) == 3 and f[1] in "tTwW":
                a.append((int(f[0], 16), f[2]))
        _syms = ([x[0] for x in a], [x[1] for x in a])

    def rep(m):
        v = int(m.group(0), 16)
        if 0x400000 <= v < 0x10000000:
            i = bisect.bisect_right(_syms[0], v) - 1
            if i >= 0:
                return re.sub(r"^n\d_", "", _syms[1][i])
        return m.group(0)
    return re.sub(r"0x[0-9a-f]+", rep, msg)


def load_known():
    """known-findings.txt: 'finding: property=<id> class=<class> match=<regex> | text' and 'fixed: ...' lines."""
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) \| (.*)", l.strip())
            if m:
                res.append(m.groups())
    return res


def is_known(known, prop, cls, msg):
    for k in known:
        if k[0] == prop and k[1] == cls and re.search(k[2], msg):
            return k
    return None


def ddmin(items, test, deadline):
    """Smallest sublist found (within the time limit) for which test holds; test takes a list of candidates and
    returns the index of the first that reproduces, or None."""
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, (len(items) + n - 1) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        cands = []
        for i in range(len(chunks)):
            cands.append([x for j, c in enumerate(chunks) if j != i for x in c])
        if len(chunks) > 2:
            cands = chunks + cands
        k = test(cands)
        if k is not None:
            items = cands[k]
            n = max(2, min(n - 1, len(items))) if len(chunks) > 2 and k >= len(chunks) else 2
            continue
        if size == 1:
            break
        n = min(len(items), n * 2)
    return items


class Pool:
    def __init__(self, exe, n):
        self.ms = [Multi(exe) for _ in range(n)]

    def first(self, lines, ok):
        """Evaluates request lines in parallel; index of the lowest accepted one (stops early), with its answer."""
        best = [None, None]
        nxt = [0]
        lock = threading.Lock()

        def work(m):
            while True:
                with lock:
                    i = nxt[0]
                    if i >= len(lines) or best[0] is not None:
                        return
                    nxt[0] += 1
                r = m.ask(lines[i])
                if ok(r):
                    with lock:
                        if best[0] is None or i < best[0]:
                            best[0], best[1] = i, r
        ts = [threading.Thread(target=work, args=(m,)) for m in self.ms]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return best

    def close(self):
        for m in self.ms:
            m.close()


def parse_replay(path):
    d = {"dec": [], "head": {}, "keep": "all", "tail": []}
    for l in open(path, errors="replace"):
        l = l.rstrip("\n")
        if l.startswith("d "):
            d["dec"].append(l)
        elif l.startswith("keep"):
            d["keep"] = l[5:]
        elif l.startswith(("message", "workload", "note", "decisions")):
            d["tail"].append(l)
        else:
            k, _, v = l.partition(" ")
            d["head"][k] = v
    return d


def write_replay(path, d):
    with open(path, "w") as f:
        for k, v in d["head"].items():
            f.write("%s %s\n" % (k, v))
        f.write("keep %s\n" % d["keep"])
        f.write("decisions %d\n" % len(d["dec"]))
        f.write("".join(x + "\n" for x in d["dec"]))
        f.write("".join(x + "\n" for x in d["tail"] if not x.startswith("decisions")))


def one(exe, *a):
    r = subprocess.run([exe] + list(a), stdout=subprocess.PIPE, text=True)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return {"status": 2, "cls": "no answer", "msg": r.stdout[-300:], "hash": ""}


def minimise(exe, prop, raw, cls, budget):
    t_end = time.time() + budget
    d = parse_replay(raw)
    ws, ss = d["head"]["wseed"], d["head"]["sseed"]
    nops = int(d["head"].get("nops", "0"))
    tmp = os.path.join(OUT, "min.%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    pool = Pool(exe, WORKERS)
    best = raw
    slow = one(exe, "one", prop, ws, ss, "all") if False else None
    del slow
    try:
        # 1. operations, with freshly drawn schedules of a few seeds
        cur_seed = [ss]
        if 1 < nops <= 4000:
            cnt = [0]

            def test(cands):
                lines = []
                meta = []
                for c in cands:
                    for s in [cur_seed[0]] + [str((int(cur_seed[0]) * 31 + 7 * (j + 1)) % (1 << 62)) for j in range(2)]:
                        cnt[0] += 1
                        lines.append("one %s %s %s %s %s" % (prop, ws, s, ",".join(map(str, c)) if c else "none", os.path.join(tmp, "o%d" % cnt[0])))
                        meta.append((c, s, os.path.join(tmp, "o%d" % cnt[0])))
                if time.time() > t_end:
                    return None
                i, r = pool.first(lines, lambda r: r["status"] == 1 and r["cls"] == cls)
                if i is None:
                    res = None
                else:
                    nonlocal best
                    best = os.path.join(tmp, "best-ops")
                    shutil.copy(meta[i][2], best)
                    cur_seed[0] = meta[i][1]
                    res = cands.index(meta[i][0])
                for m in meta:
                    if os.path.exists(m[2]):
                        os.unlink(m[2])
                return res
            ddmin(list(range(nops)), test, time.time() + budget * 0.5)
        # 2. schedule and fault decisions, replayed
        d = parse_replay(best)
        cnt2 = [0]

        def test2(cands):
            if time.time() > t_end:
                return None
            lines = []
            files = []
            for c in cands:
                cnt2[0] += 1
                p = os.path.join(tmp, "d%d" % cnt2[0])
                write_replay(p, dict(d, dec=c))
                lines.append("replay " + p)
                files.append(p)
            i, r = pool.first(lines, lambda r: r["status"] == 1 and r["cls"] == cls)
            for p in files:
                os.unlink(p)
            return i
        if test2([d["dec"]]) is None:
            return None, d
        if d["dec"]:
            if test2([[]]) is not None:
                d["dec"] = []
            else:
                d["dec"] = ddmin(d["dec"], test2, t_end)
        fin = os.path.join(OUT, "%s-%s.replay" % (prop, re.sub(r"\W+", "_", cls)))
        t = os.path.join(tmp, "fin")
        write_replay(t, d)
        # one last execution rewrites message, notes and hash for exactly this trace
        r = one(exe, "replay", t, fin)
        if r["status"] != 1 or r["cls"] != cls:
            return None, d
        return fin, r
    finally:
        pool.close()
        shutil.rmtree(tmp, ignore_errors=True)


def run_check(prop, tier, seed):
    t_start = time.time()
    exe = simbuild.build()
    cfg = PROPS[prop]
    t_built = time.time()
    count, wall = cfg[tier]
    wall = float(os.environ.get("SIM_WALL", wall))
    count = int(os.environ.get("SIM_RUNS", count))
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    work = os.path.join(OUT, "%s.%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    known = load_known()
    procs = []
    for w in range(WORKERS):
        procs.append(subprocess.Popen([exe, "batch", cfg.get("scenario", prop), str(seed), str(w), str(WORKERS), str(count), work, str(wall), str(cfg.get("gate", 16)), "3"],
                                      stdout=subprocess.PIPE, text=True))
    tot = {}
    viols, samples, nd, he = [], [], [], []
    outs = [None] * WORKERS

    def rd(i):
        outs[i] = procs[i].communicate()[0]
    ts = [threading.Thread(target=rd, args=(i,)) for i in range(WORKERS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ends = 0
    for o in outs:
        for l in o.splitlines():
            if l.startswith("V "):
                f = l.split(None, 3)
                viols.append((int(f[1]), f[2], f[3]))
            elif l.startswith("S "):
                samples.append(json.loads(l[2:]))
            elif l.startswith("N "):
                nd.append(l)
            elif l.startswith("H "):
                he.append(l)
            elif l.startswith("E "):
                ends += 1
                e = json.loads(l[2:])
                for k, v in e.items():
                    if k == "faults":
                        for a, b in v.items():
                            tot.setdefault("faults", {}).setdefault(a, 0)
                            tot["faults"][a] += b
                    elif k == "probes":
                        p = tot.setdefault("probes", [0] * len(v))
                        for i, b in enumerate(v):
                            p[i] += b
                    else:
                        tot[k] = tot.get(k, 0) + v
    ih, eh = set(), set()
    for w in range(WORKERS):
        p = os.path.join(work, "ihash.%d" % w)
        if os.path.exists(p):
            for l in open(p):
                a, b = l.split()
                ih.add(a)
                eh.add(b)
    t_search = time.time() - t_built
    rc = 0
    reported = 0
    known_seen = {}
    seen_cls = set()
    viols.sort()
    for i, raw, cls in viols:
        if rc == 2:
            break
        d = parse_replay(raw)
        msg = symbolise(exe, next((x[8:] for x in d["tail"] if x.startswith("message ")), ""))
        k = is_known(known, prop, cls, msg)
        if k:
            known_seen[k] = known_seen.get(k, 0) + 1
            continue
        if cls in seen_cls or len(seen_cls) >= 2:
            continue
        seen_cls.add(cls)
        # gate: the same seed twice, in fresh processes, must end in the same violation with the same event log
        g = [one(exe, "one", cfg.get("scenario", prop), d["head"]["wseed"], d["head"]["sseed"], "all") for _ in range(2)]
        if any(x["status"] != 1 or x["cls"] != cls for x in g) or g[0]["hash"] != g[1]["hash"]:
            print("ERROR: violation of class %s at run %d did not repeat: %s" % (cls, i, [(x["status"], x["cls"], x["hash"]) for x in g]))
            print("  first message: " + msg)
            rc = 2
            continue
        fin, r = minimise(exe, cfg.get("scenario", prop), raw, cls, float(os.environ.get("SIM_MIN", "60" if tier == "quick" else "240")))
        if fin is None:
            # the un-minimised trace is still exact: use it if it replays
            fin = os.path.join(OUT, "%s-%s.replay" % (prop, re.sub(r"\W+", "_", cls)))
            shutil.copy(raw, fin)
            r = one(exe, "replay", fin)
        r2 = one(exe, "replay", fin)
        if r2["status"] != 1 or r2["cls"] != cls or r2["hash"] != r.get("hash"):
            print("ERROR: minimised trace of class %s did not replay: %s" % (cls, (r2["status"], r2["cls"], r2.get("msg", ""))))
            rc = 2
            continue
        m2 = symbolise(exe, r2["msg"])
        k = is_known(known, prop, cls, m2)
        if k:
            known_seen[k] = known_seen.get(k, 0) + 1
            continue
        reported += 1
        if rc != 1:
            rc = 1
        print("VIOLATION property=%s replay=%s" % (prop, fin))
        print("  class: %s" % cls)
        print("  %s" % m2)
        fd = parse_replay(fin)
        print("  run %d, wseed %s, %d of %s operations kept, %d schedule/fault decisions (from %d)" %
              (i, d["head"]["wseed"], r2["nops"] if fd["keep"] == "all" else len(fd["keep"].split()), r2["nops"], len(fd["dec"]), len(d["dec"])))
        for l in (r2.get("note") or "").splitlines()[-12:]:
            print("    | " + l)
    if nd and rc == 0:
        print("ERROR: simulation is not deterministic:\n" + "\n".join(nd[:5]))
        rc = 2
    if he and rc == 0:
        print("ERROR: harness failures (%d):\n%s" % (len(he), symbolise(exe, "\n".join(he[:5]))))
        rc = 2
    if ends != WORKERS and rc == 0:
        print("ERROR: a worker did not finish")
        rc = 2
    # listed findings are announced on every run, whether or not this run met them
    for k in known:
        if k[0] == prop:
            print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (prop, k[3], known_seen.get(k, 0)))
    wall_s = time.time() - t_start
    runs = tot.get("runs", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": min(len(eh), tot.get("nontrivial", 0)),
            "rule": "one evaluation is one simulated execution of the real code: workload drawn from the run's seed, every interleaving, delay and fault decided by the simulator; "
                    "non-trivial: it executed at least one workload operation and met at least one context switch or injected fault; distinct by hash of the whole event log. " + cfg["rule"],
            "samples": samples[:4] or [{"note": "no sample"}],
            "runs_per_hour": round(runs / max(t_search, 1e-9) * 3600),
            "seeds_per_hour": round(runs / max(t_search, 1e-9) * 3600),
            "simulated_seconds": round(tot.get("sim_ns", 0) / 1e9, 6),
            "workload_operations": tot.get("ops", 0),
            "memory_accesses_scheduled": tot.get("accesses", 0),
            "context_switches": tot.get("switches", 0),
            "sync_points": tot.get("points", 0),
            "simulated_syscalls": tot.get("syscalls", 0),
            "runs_with_faults": tot.get("faulted", 0),
            "faults_injected": dict(sorted(tot.get("faults", {}).items())),
            "distinct_interleavings": len(ih),
            "interleaving_measure": "64-bit hash of the sequence of (from, to) thread switches of a run",
            "distinct_event_logs": len(eh),
            "reach_probes": {n: tot.get("probes", [0] * 32)[i] for i, n in enumerate(cfg.get("probes", []))},
            "same_seed_repeats_checked": tot.get("gates", 0),
            "same_seed_repeats_different": tot.get("nondet", 0),
            "real_components": "all of /repo/core as listed by the Makefile (allocator, pool, evaluator, symbols, files, serialisation, sockets, IPC, poll loop, timers), recompiled from the working tree with access hooks",
            "stubbed_components": "libc seam: pthread, mmap/munmap, files and directories, sockets, epoll/eventfd/select/poll, clocks, signals, exit, stdio, environment, random; interactive terminal; dynamic library loading always fails",
            "known_findings_met": {k[3]: v for k, v in known_seen.items()},
        },
        "assumptions": cfg.get("assumptions", ["sequentially consistent memory: the simulator interleaves at every memory access but does not reorder a thread's own accesses",
                                                "sampling: a clean batch is evidence, not proof"]),
        "wall_s": round(wall_s, 2), "violations": reported,
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d runs, %d distinct event logs, %d distinct interleavings, %.1f s search, faults %s, exit %d" %
          (prop, tier, runs, len(eh), len(ih), t_search, json.dumps(ev["coverage"]["faults_injected"]), rc))
    if ev["coverage"]["reach_probes"]:
        print("  probes " + json.dumps(ev["coverage"]["reach_probes"]))
    return rc


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        print(simbuild.build())
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        exe = simbuild.build()
        r = one(exe, "replay", sys.argv[2])
        print("status %d class %s hash %s\n%s\n%s" % (r["status"], r["cls"], r["hash"], symbolise(exe, r["msg"]), r.get("note", "")))
        return r["status"]
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run_check(prop, "thorough" if tier == "thorough" else "quick", seed)


if __name__ == "__main__":
    sys.exit(main())
