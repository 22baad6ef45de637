#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the simulator against /repo's working tree in the chosen feature combinations, searches
schedules and fault sequences with a seed, and reports.  Exit 0: nothing found.  Exit 1: a line
"VIOLATION property=<id> replay=<path>".  Exit 2: no answer."""
import json, os, subprocess, sys, time, resource

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(V, "sim")
BUILDS = {  # name -> (cargo arguments, target directory)
    "hashed+mutauth": ([], "target"),
    "plain+mutauth": (["--no-default-features", "--features", "mutauth"], "target-mutauth"),
    "plain+nomut": (["--no-default-features"], "target-none"),
    "hashed+nomut": (["--no-default-features", "--features", "hashed"], "target-hashed"),
}
# the builds a quick check looks at, and the share of its time each gets
QUICK = {"hashed+mutauth": 3, "plain+mutauth": 2, "plain+nomut": 3}
ONLY = {  # where one build has more to say about a property
    "C07": {"plain+mutauth": 3, "hashed+mutauth": 5},
    "C05": {"plain+nomut": 4, "hashed+mutauth": 3, "hashed+nomut": 2},
}
PROFILES = os.environ.get("SPDMSIM_PROFILES", "")
QUICK_S, THOROUGH_S = 48, 600
REAL = ["spdmlib requester and responder (all of them, both roles)", "spdmlib message codecs, transcripts, key schedule, session and AEAD record layer, certificate chain handling",
        "mctp_transport", "pcidoe_transport", "codec", "certificate chain signatures and X.509 checks are decided by the stub, everything else about chains is real"]
STUB = ["hash, HMAC, HKDF, AEAD, signature, key agreement, random numbers and certificate verification: deterministic stand-ins with the same interface (CryptoRegister callbacks), so every call is seen and can be made to fail",
        "the wire between the two endpoints (SpdmDeviceIo), virtual time, the measurement device, the application and vendor handlers, the PSK store"]


def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". %s/env.sh >/dev/null 2>&1; env -0" % SIM], stdout=subprocess.PIPE, env=e, cwd=SIM).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            e[k.decode()] = v.decode(errors="replace")
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build(name, e):
    args, target = BUILDS[name]
    r = subprocess.run(["cargo", "build", "-q", "--offline", "--target-dir", os.path.join(SIM, target)] + args, cwd=SIM, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-6000:])
        print("check: the simulator does not build with %s" % name)
        sys.exit(2)
    return os.path.join(SIM, target, "debug", "spdmsim")


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        e = env()
        for b in BUILDS:
            build(b, e)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    e = env()
    share = ONLY.get(prop, QUICK)
    if tier == "thorough":
        share = {b: share.get(b, 1) for b in BUILDS}
    total = float(os.environ.get("SPDMSIM_SECONDS", THOROUGH_S if tier == "thorough" else QUICK_S))
    replays = os.path.join(V, "replays")
    os.makedirs(replays, exist_ok=True)
    known = os.path.join(V, "known-findings.txt")
    res, bad = [], False
    for b, w in share.items():
        exe = build(b, e)
        out = os.path.join(replays, "%s-%s.json" % (prop, b))
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "search", "--prop", prop, "--seed", str(seed), "--seconds", str(max(1, int(total * w / sum(share.values())))), "--threads", str(os.cpu_count() or 8),
               "--out", out, "--replays", replays, "--known", known]
        if PROFILES:
            cmd += ["--profiles", PROFILES]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        sys.stdout.write(p.stdout.decode(errors="replace"))
        if p.returncode not in (0, 1) or not os.path.exists(out):
            sys.stdout.write(p.stderr.decode(errors="replace")[-3000:])
            print("check: the simulator ended with %s on %s" % (p.returncode, b))
            return 2
        r = json.load(open(out))
        os.unlink(out)
        if r["diverged"]:
            print("check: %d runs did not repeat themselves" % r["diverged"])
            return 2
        res.append(r)
        if any(not f["known"] for f in r["found"]):
            bad = True
            if tier == "quick":
                break
    merge(prop, tier, seed, t0, res)
    seen = set()
    for r in res:
        for f in r["found"]:
            if f["known"]:
                if f["what"] not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
                    seen.add(f["what"])
    # a listed finding is announced on every run, met in this one or not
    if os.path.exists(known):
        for l in open(known):
            if l.startswith("known: property=%s " % prop):
                w = l.split(" ", 2)[2].strip()
                if w not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (prop, w))
                    seen.add(w)
    for r in res:
        for f in r["found"]:
            if not f["known"]:
                print("%s: %s (%s) in %d runs" % (r["build"], f["what"], f["detail"], f["runs"]))
                print("VIOLATION property=%s replay=%s" % (prop, f["replay"]))
    return 1 if bad else 0


def add(d, m):
    for k, v in m.items():
        d[k] = d.get(k, 0) + v


def merge(prop, tier, seed, t0, res):
    tot = lambda k: sum(r[k] for r in res)
    fired, probes, judged, prof = {}, {}, {}, {}
    for r in res:
        add(fired, r["fired"]); add(probes, r["probes"]); add(judged, r["judged"]); add(prof, r["profiles"])
    search_s = sum(r["wall_s"] for r in res)
    viol = [f for r in res for f in r["found"] if not f["known"]]
    cov = {
        "evaluations": tot("runs"),
        "distinct_nontrivial": tot("distinct_nontrivial"),
        "rule": "one case is one whole simulated run (configuration, application script, schedule and faults drawn from one seed); it is non-trivial when the checker evaluated at least one condition of this property in it, and distinct when the set of abstract states (both endpoints' protocol stage, sessions, key phases, pending work) it went through differs from every other run's",
        "samples": [s for r in res for s in r.get("samples", [])][:6],
        "judgements_of_this_property": tot("evaluations"),
        "builds": [{"build": r["build"], "runs": r["runs"], "wall_s": round(r["wall_s"], 1), "states": r["states"], "configurations": r["configurations"], "runs_with_faults": r["runs_with_faults"]} for r in res],
        "simulated_runs_per_hour": int(tot("runs") / max(search_s, 0.001) * 3600),
        "seeds_per_hour": int(tot("runs") / max(search_s, 0.001) * 3600),
        "simulated_seconds": round(tot("simulated_s"), 3),
        "operations": tot("operations"),
        "packets": tot("packets"),
        "distinct_states": tot("states"),
        "distinct_states_measure": "hash of both endpoints' negotiated stage, session table (state, handshake, key phase, sequence distance) and outstanding work, per build, summed",
        "faults_injected": fired,
        "reached": probes,
        "judged": judged,
        "profiles": prof,
        "runs_replayed_for_determinism": tot("replayed_for_determinism"),
        "runs_that_diverged": tot("diverged"),
        "ran_real_code": REAL,
        "ran_a_stub": STUB,
        "found": [f for r in res for f in r["found"]],
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    d = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "cryptographic primitives behave ideally (stand-ins); their real implementations are out of scope",
            "one Requester and one Responder on one lossy, corruptible link; each endpoint is single threaded, as the library requires",
            "runs of at most a few dozen operations",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


sys.exit(main())
