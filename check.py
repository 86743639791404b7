#!/usr/bin/env python3
"""Runs one property's check: seeded simulation of the TEE and its clients built from /repo's working tree.

  check.py --prop C01 --tier quick            explore; exit 0 (held) or 1 (VIOLATION line)
  check.py --replay replays/C01-....replay    run one replay file again; exit 1 if it still fails
"""
import argparse, json, os, re, subprocess, sys, threading, time, signal

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/sim")
import build as simbuild

# property -> (quick seconds, thorough seconds, [(variant, profile, share)...])
PROPS = json.load(open(HERE + "/sim/plan.json"))
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
OUT = os.environ.get("SIM_OUT", HERE)
REPLAYS = OUT + "/replays"


def known_findings():
    res = []
    try:
        for line in open(HERE + "/known-findings.txt"):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) class=(.+?) match=/(.*?)/ (.*)", line)
            if m:
                res.append({"property": m[1], "class": m[2], "match": re.compile(m[3], re.S), "what": m[4], "seen": 0})
    except FileNotFoundError:
        pass
    return res


def match_finding(kf, prop, v):
    for k in kf:
        if k["class"] == v["class"] and k["match"].search(v["msg"]):
            return k
    return None


def symbolise(d, text):
    def sub(m):
        lib = os.path.join(d, os.path.basename(m[1]))
        if not os.path.exists(lib):
            return m[0]
        try:
            o = subprocess.run(["llvm-symbolizer-18" if os.path.exists("/usr/bin/llvm-symbolizer-18") else "addr2line", "-f", "-e", lib, m[2]]
                               if False else ["addr2line", "-f", "-e", lib, m[2]], capture_output=True, text=True, timeout=20).stdout.split("\n")
            return "%s (%s)" % (o[0], os.path.basename(o[1]))
        except Exception:
            return m[0]
    n = [0]

    def lim(m):
        n[0] += 1
        return sub(m) if n[0] <= 24 else m[0]
    return re.sub(r"\(?(/[^ ()]*?(?:lib\w+\.so|/sim))\+(0x[0-9a-f]+)\)?", lim, text)


class Worker:
    """one exploring process and what it reported"""

    def __init__(self, d, prof, seed, i, step, secs, on_viol):
        self.viols, self.summary, self.err = [], None, ""
        self.p = subprocess.Popen([d + "/sim", "--prop", prof, "--seed", str(seed), "--first", str(i), "--step", str(step),
                                   "--seconds", "%.1f" % secs, "--maxviol", "12"], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  text=True, cwd=d, start_new_session=True)
        self.on_viol = on_viol
        self.t = threading.Thread(target=self.read)
        self.t.start()

    def read(self):
        te = threading.Thread(target=self.read_err)
        te.start()
        for line in self.p.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "viol" in d:
                self.viols.append(d)
                self.on_viol(d)
            elif "summary" in d:
                self.summary = d
        te.join()
        self.p.wait()

    def read_err(self):
        for line in self.p.stderr:
            if len(self.err) < 2000:
                self.err += line

    def stop(self, sig=signal.SIGKILL):
        try:
            os.killpg(self.p.pid, sig)
        except (ProcessLookupError, PermissionError):
            pass


def explore(d, prof, seed, secs, interesting):
    """runs the workers; stops early once a violation that is not a known finding is reported"""
    done = threading.Event()
    ws = []

    def on(v):
        if interesting(v):
            done.set()
    for i in range(WORKERS):
        ws.append(Worker(d, prof, seed, i, WORKERS, secs, on))
    end = time.time() + secs + 90
    hit, asked = None, False
    while any(w.t.is_alive() for w in ws):
        time.sleep(0.05)
        if done.is_set() and hit is None:
            hit = time.time()
        if hit and not asked:
            asked = True
            for w in ws:
                w.p.terminate()
        if (hit and time.time() > hit + 12) or time.time() > end:
            for w in ws:
                w.stop()
            break
    for w in ws:
        w.t.join()
    return ws


class Server:
    def __init__(self, d):
        self.p = subprocess.Popen([d + "/sim", "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True, cwd=d, start_new_session=True)

    def run(self, head, lines):
        self.p.stdin.write("\n".join(head + lines + ["run", ""]))
        self.p.stdin.flush()
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise RuntimeError("replay server died")
            if l.startswith('{"state"'):
                return json.loads(l)

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


def fresh(d, path):
    o = subprocess.run([d + "/sim", "--replay", path], capture_output=True, text=True, cwd=d, timeout=700).stdout
    for l in o.splitlines():
        if l.startswith('{"state"'):
            return json.loads(l)
    return {"state": 3, "class": "", "msg": "no result"}


def same(r, v):
    return r["state"] == 2 and r["class"] == v["class"]


def write_replay(path, variant, prof, v, lines, mode, msg, note):
    with open(path, "w") as f:
        f.write("# %s\n" % note)
        f.write("# class %s\n" % v["class"])
        for l in msg.splitlines():
            f.write("# " + l + "\n")
        f.write("variant %s\nproperty %s\nseed %d\n" % (variant, prof, v["seed"]))
        if mode == "seed":
            f.write("schedule from-seed\n")
        for l in lines:
            f.write(l + "\n")


def minimise(d, prof, v, deadline):
    """lines of the smallest schedule and fault trace found that still gives the same violation, or None"""
    tr = v["trace"].split("\n")
    slots = [l[2:] for l in tr if l.startswith("o ")]
    rest = [l for l in tr if l[:2] in ("p ", "f ")]
    head = ["property " + prof, "seed %d" % v["seed"]]
    s = Server(d)
    try:
        r = s.run(head, rest)
        if not same(r, v):
            return None, r
        best, msg, skipped = rest, r["msg"], []

        def attempt(lines, skip):
            nonlocal best, msg, skipped
            if time.time() > deadline:
                return False
            r = s.run(head, lines + ["s " + x for x in skip])
            if same(r, v):
                best, msg, skipped = lines, r["msg"], skip
                return True
            return False

        def shrink_list(get, put):
            n = 2
            cur = get()
            while cur and time.time() < deadline:
                size = max(1, len(cur) // n)
                hit = False
                i = len(cur)
                while i > 0 and time.time() < deadline:
                    lo = max(0, i - size)
                    cand = cur[:lo] + cur[i:]
                    if put(cand):
                        cur = cand
                        hit = True
                    i = lo
                if size == 1 and not hit:
                    break
                if size == 1 or hit:
                    n = max(2, n) if hit and size > 1 else n
                if size > 1:
                    n *= 2
            return cur
        # preemptions first as one piece, then operations, then faults, then preemptions one by one
        keepp = [l for l in best if l[0] == "f"]
        if len(keepp) != len(best):
            attempt(keepp, [])
        shrink_list(lambda: list(slots), lambda keep: attempt(best, [x for x in slots if x not in set(keep)]))
        f = [l for l in best if l[0] == "f"]
        if f:
            shrink_list(lambda: list(f), lambda keep: attempt([l for l in best if l[0] == "p"] + keep, skipped))
        p = [l for l in best if l[0] == "p"]
        if p:
            fl = [l for l in best if l[0] == "f"]
            shrink_list(lambda: list(p), lambda keep: attempt(keep + fl, skipped))
        shrink_list(lambda: [x for x in slots if x not in set(skipped)],
                    lambda keep: attempt(best, [x for x in slots if x not in set(keep)]))
        return best + ["s " + x for x in skipped], {"msg": msg}
    finally:
        s.close()


def report(prop, variant, d, prof, v, seed_dir):
    """confirms a violation in a fresh process, minimises it, writes its replay file; path or None"""
    os.makedirs(seed_dir, exist_ok=True)
    path = "%s/%s-%s-%d.replay" % (seed_dir, prop, variant, v["seed"])
    write_replay(path, variant, prof, v, [], "seed", v["msg"], "schedule and faults drawn from the seed")
    r1 = fresh(d, path)
    r2 = fresh(d, path)
    if not same(r1, v) or not same(r2, v) or r1.get("hist") != r2.get("hist"):
        sys.stdout.write("note: seed %d did not repeat in a fresh process (%s / %s)\n" % (v["seed"], r1.get("class"), r2.get("class")))
        os.unlink(path)
        return None
    try:
        lines, r = minimise(d, prof, v, time.time() + 60)
    except Exception as e:
        sys.stdout.write("note: minimisation failed: %r\n" % e)
        lines, r = None, None
    if lines is not None:
        tmp = path + ".min"
        n = [sum(l.startswith(c) for l in lines) for c in "pfs"]
        note = "minimised: %d preemptions, %d faults, %d operations left out" % tuple(n)
        write_replay(tmp, variant, prof, v, lines, "trace", symbolise(d, r["msg"]), note)
        r3 = fresh(d, tmp)
        if same(r3, v):
            os.replace(tmp, path)
        else:
            os.unlink(tmp)
    return path


def sample(d, prof, seed):
    try:
        o = subprocess.run([d + "/sim", "--one", "--prop", prof, "--seed", str(seed), "-v"], capture_output=True, text=True, cwd=d, timeout=120)
        ls = [l[:160] for l in o.stdout.splitlines() if re.match(r"\[-?\d+\] (   #|FAULT|process|switch)", l)]
        return {"profile": prof, "seed": seed, "calls": ls[:40], "calls_total": len(ls)}
    except Exception as e:
        return {"profile": prof, "seed": seed, "error": repr(e)}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        t = open(a.replay).read()
        variant = re.search(r"^variant (\S+)", t, re.M)[1]
        d = simbuild.build(variant)
        p = subprocess.run([d + "/sim", "--replay", os.path.abspath(a.replay)] + (["-v"] if a.v else []), capture_output=True, text=True, cwd=d)
        for l in p.stdout.splitlines():
            if l.startswith('{"state"'):
                r = json.loads(l)
                print("state %s class %s\n%s" % (r["state"], r["class"], symbolise(d, r["msg"])))
                sys.exit(1 if r["state"] == 2 else 0)
            print(l)
        sys.exit(2)

    t0 = time.time()
    plan = PROPS[a.prop]
    secs = a.seconds or plan[a.tier]
    parts = plan["parts"]
    kf = known_findings()
    dirs = {v: simbuild.build(v) for v in sorted({p["variant"] for p in parts})}
    build_s = time.time() - t0

    new, notes, tot, scheds, nontriv, feats, faults, cov = [], [], {}, set(), set(), set(), {}, {}
    samples, partinfo, unrep = [], [], 0
    explored = 0.0

    def fresh_violation(v):
        return match_finding(kf, a.prop, v) is None
    for part in parts:
        d = dirs[part["variant"]]
        t1 = time.time()
        ws = explore(d, part["profile"], a.seed, secs * part["share"], fresh_violation)
        el = time.time() - t1
        explored += el
        pruns = 0
        for w in ws:
            if w.err.strip():
                notes.append(w.err.strip()[:300])
            for v in w.viols:
                k = match_finding(kf, a.prop, v)
                if k:
                    k["seen"] += 1
                else:
                    new.append((part, d, v))
            s = w.summary
            if not s:
                continue
            pruns += s["runs"]
            for k in ("runs", "ops", "ok", "refused", "faulted", "points", "switches", "sim_seconds", "lin_states", "internal", "mismatched"):
                tot[k] = tot.get(k, 0) + s[k]
            for k, n in s["faults"].items():
                faults[k] = faults.get(k, 0) + n
            for i, n in enumerate(s["aux"]):
                tot["aux%d" % i] = tot.get("aux%d" % i, 0) + n
            for name, st in (("h_scheds", scheds), ("h_nontriv", nontriv), ("h_feats", feats)):
                x = s[name]
                st.update(part["variant"] + part["profile"] + x[i:i + 10] for i in range(0, len(x), 10))
            cov[part["variant"]] = cov.get(part["variant"], 0) | int(s["cov"] or "0", 16)
            if s["ierr"]:
                notes.append(s["ierr"])
        partinfo.append({"variant": part["variant"], "profile": part["profile"], "runs": pruns, "seconds": round(el, 1)})
        if new:
            break
        samples.append(sample(d, part["profile"], 1000 + a.seed))

    out, code = [], 0
    new.sort(key=lambda x: (len(x[2]["trace"]), x[2]["seed"]))
    seen, tried = set(), 0
    for part, d, v in new:
        if v["class"] in seen or tried >= 5:
            continue
        tried += 1
        path = report(a.prop, part["variant"], d, part["profile"], v, REPLAYS)
        if path is None:
            unrep += 1
            continue
        seen.add(v["class"])
        code = 1
        print("  %s\n  %s" % (v["class"], symbolise(d, v["msg"])[:1500].replace("\n", "\n  ")))
        print("VIOLATION property=%s replay=%s" % (a.prop, os.path.relpath(path, OUT)), flush=True)
        if time.time() - t0 > 500 or len(seen) >= 2:
            break
    for k in kf:
        if k["property"] == a.prop:
            print("KNOWN-FINDING: property=%s %s" % (k["property"], k["what"]))

    runs = tot.get("runs", 0)
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": plan["level"],
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontriv),
            "rule": "One evaluation is one simulated run: a seed fixes the profile (how many processes, threads, calls, faults), every call and "
                    "its arguments, every interleaving, and every fault. A run counts as non-trivial if at least three calls succeeded and the "
                    "scheduler had over 100 decision points; distinct means a different recorded history (calls, results, output bytes, "
                    "real-time order) or a different sequence of context switches.",
            "samples": samples,
            "parts": partinfo,
            "runs_per_hour": int(runs / explored * 3600) if explored else 0,
            "seeds_per_hour": int(runs / explored * 3600) if explored else 0,
            "simulated_time": {"scheduler_points": tot.get("points", 0), "clock_seconds_covered": tot.get("sim_seconds", 0)},
            "client_calls": {"total": tot.get("ops", 0), "succeeded": tot.get("ok", 0), "refused": tot.get("refused", 0),
                             "hit_by_a_fault": tot.get("faulted", 0)},
            "context_switches": tot.get("switches", 0),
            "faults_injected": faults,
            "distinct_interleavings": {"measure": "sequences of (thread, point, next thread) context switches", "count": len(scheds)},
            "distinct_call_situations": {"measure": "(call, algorithm, format, status, fault kinds) and (call, status, overlapping call, same object)", "count": len(feats)},
            "single_fault_positions_swept": tot.get("aux0", 0),
            "linearisation_states_searched": tot.get("lin_states", 0),
            "edges_reached": {v: {"count": bin(c).count("1")} for v, c in cov.items()},
            "runs_repeated_to_confirm_determinism_mismatching": tot.get("mismatched", 0),
            "runs_given_up": tot.get("internal", 0),
            "unreproduced_reports": unrep,
            "components_real": ["client library (clientimpl/src), one copy per simulated process", "TEE implementation (taimpl/src)",
                                "util/src", "OpenSSL libcrypto", "yajl"],
            "components_simulated": ["threads and their scheduling, mutexes, once flags, thread-local storage", "time()", "malloc/free and their failure",
                                     "key store file", "entropy", "process start, exit, crash; TEE power cuts", "protected memory", "caller identity",
                                     "video output state", "transport (direct call in the same thread, as shipped)"],
            "notes": notes[:8],
        },
        "assumptions": plan.get("assumptions", []) + [
            "Threads are interleaved at loads, stores and calls of the compiled code, in a sequentially consistent order.",
            "A run is bounded: a few processes and threads and some hundreds of calls."],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(seen),
    }
    ev["coverage"]["build_seconds"] = round(build_s, 1)
    os.makedirs(OUT + "/evidence", exist_ok=True)
    with open(OUT + "/evidence/%s.json" % a.prop, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d runs, %d distinct, %d calls, %d faults, %d violations, %.0f s%s" % (
        a.prop, runs, len(nontriv), tot.get("ops", 0), sum(faults.values()), len(seen), time.time() - t0,
        (" notes: " + "; ".join(notes[:3])) if notes else ""))
    if not code and runs == 0:
        print("no run finished")
        sys.exit(2)
    sys.exit(code)


if __name__ == "__main__":
    main()
