#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep]: decides one property by symbolic execution of /repo's current code.
Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken."""
import sys, os, subprocess, json, time, shutil, glob, re, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("SYMX_REPO", "/repo"); B = V + "/build"; EV = os.environ.get("SYMX_EVIDENCE", V + "/evidence")
sys.path.insert(0, V)
from checks import CHECKS
BCF = "-std=c++20 -O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-jump-tables -fno-pic -D_GLIBCXX_EXTERN_TEMPLATE=0 -DSYMX=1 -w -emit-llvm -c".split()
NATF = "-std=c++20 -O1 -g1 -w -DNATIVE=1 -ftrivial-auto-var-init=pattern".split()
ASAN = "-fsanitize=address,undefined -fno-sanitize=vptr,pointer-overflow,function -fno-sanitize-recover=all -fno-omit-frame-pointer".split()
TSAN = "-fsanitize=thread -DTSAN_REPLAY=1".split()
LIBS = ["-lprotobuf", "-Wl,--start-group"] + ["-labsl_" + l for l in "statusor status cord cord_internal cordz_info cordz_handle cordz_functions strings strings_internal str_format_internal synchronization time base raw_logging_internal throw_delegate hash city low_level_hash raw_hash_set int128 spinlock_wait malloc_internal stacktrace symbolize debugging_internal demangle_internal".split()] + ["-Wl,--end-group", "-lpthread"]
KNOWN_FILES = {"http_template.cc", "path_matcher_node.cc", "message_reader.cc", "message_stream.cc", "json_request_translator.cc", "prefix_writer.cc", "request_message_translator.cc", "request_stream_translator.cc", "request_weaver.cc", "response_to_json_translator.cc", "status_error_listener.cc", "type_helper.cc"}

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise RuntimeError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]; t0 = time.time(); thorough = tier == "thorough"
    if not all(os.path.exists(B + "/" + f) for f in ("symx", "models.bc", "runtime.o", "runtime_tsan.o", "gen/google/api/http.pb.h")): run(["make", "-C", V, "-j8"])
    os.makedirs(B + "/run", exist_ok=True); os.makedirs(EV + "/replay", exist_ok=True)
    W = tempfile.mkdtemp(prefix=prop + "-", dir=B + "/run")
    try:
        return decide(prop, c, tier, thorough, seed, t0, W)
    finally:
        if "--keep" in sys.argv: print("kept", W)
        else: shutil.rmtree(W, ignore_errors=True)

def sources(c):
    s = [REPO + "/src/" + x for x in c["srcs"]]
    if c["srcs"]:   # a file added to src/ belongs to the library
        s += [f for f in sorted(glob.glob(REPO + "/src/*.cc")) if os.path.basename(f) not in KNOWN_FILES]
    return s

def decide(prop, c, tier, thorough, seed, t0, W):
    harness = V + "/harness/" + c["harness"]
    incS = ["-I" + V + "/include"] + ["-I" + V + "/stubs/" + s for s in c.get("stubs_sym", [])] + ["-I" + REPO + "/src/include", "-I" + REPO]
    incN = ["-I" + V + "/include"] + ["-I" + V + "/stubs/" + s for s in c.get("stubs_nat", c.get("stubs_sym", []))] + ["-I" + REPO + "/src/include", "-I" + REPO, "-I" + B + "/gen"]
    defs = ["-D" + d for d in c.get("defs", [])]
    srcs = sources(c) + [V + "/" + m for m in c.get("extra", [])]
    natsrcs = sources(c) + [V + "/" + m for m in c.get("extra_nat", c.get("extra", []))]
    ex = ThreadPoolExecutor(16)
    def bc(i, f):
        o = "%s/b%d.bc" % (W, i); run(["clang++-18"] + BCF + incS + defs + [f, "-o", o]); return o
    def nat(i, f, san, tag):
        o = "%s/%s%d.o" % (W, tag, i); run(["clang++-18"] + NATF + san + incN + defs + ["-c", f, "-o", o]); return o
    tc = time.time()
    fb = [ex.submit(bc, i, f) for i, f in enumerate([harness] + srcs)]
    objs = [f.result() for f in fb]
    prog = W + "/prog.bc"
    run(["llvm-link-18", objs[0]] + objs[1:] + [B + "/models.bc", "-o", prog])
    compile_s = time.time() - tc
    if "--bitcode" in sys.argv: shutil.copy(prog, sys.argv[sys.argv.index("--bitcode") + 1]); return 0   # development only
    fn = [ex.submit(nat, i, f, ASAN, "n") for i, f in enumerate([harness] + natsrcs)]
    exe = W + "/replay"
    extraobjs = [B + "/gen/google/api/http.pb.cc"] if c.get("httppb") else []
    def link():
        o = [f.result() for f in fn]
        if extraobjs:
            pb = B + "/gen/httppb.o"
            if not os.path.exists(pb):
                run(["clang++-18", "-std=c++20", "-O1", "-w", "-I" + B + "/gen", "-c", extraobjs[0], "-o", pb + ".tmp%d" % os.getpid()]); os.rename(pb + ".tmp%d" % os.getpid(), pb)
            o.append(pb)
        run(["clang++-18"] + ASAN + o + [B + "/runtime.o", "-o", exe] + LIBS); return True
    fl = ex.submit(link)
    # ---- symbolic execution
    secs = c.get("secs_thorough", 2400) if thorough else c.get("secs", 420)
    out = W + "/out"
    cmd = [B + "/symx", prog, "--out", out, "--tier", "1" if thorough else "0", "--workers", "8", "--total-secs", str(secs), "--seed", str(seed), "--max-wit", str(c.get("wit", 24)), "--max-steps", str(c.get("max_steps", 20000000))]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    err = p.stderr.strip()
    jobs, fns = [], {}
    njobs = 0
    for f in sorted(glob.glob(out + ".[0-9]*")):
        for line in open(f, errors="replace"):
            try: d = json.loads(line)
            except ValueError: continue
            if "functions" in d:
                for k, (a, b) in d["functions"].items(): x = fns.setdefault(k, [0, 0]); x[0] += a; x[1] += b
            elif "job" in d: jobs.append(d)
            elif "njobs" in d: njobs = d["njobs"]
    fl.result()
    explored = [j for j in jobs if not j.get("skipped")]
    tot = {k: sum(j[k] for j in explored) for k in ("paths", "infeasible", "incomplete", "forks", "steps", "asserts", "sym_asserts", "queries", "cache_hits", "sat", "unsat", "unknown", "solver_s")}
    why, cover = {}, {}
    for j in explored:
        for k, v in j["why"].items(): why[k] = why.get(k, 0) + v
        for k, v in j["cover"].items(): cover[k] = cover.get(k, 0) + v
    viols = [dict(v, job=j["job"]) for j in explored for v in j["violations"]]
    complete = p.returncode == 0 and len(explored) == njobs and njobs > 0 and all(j["complete"] for j in explored)
    # ---- native validation: the same harness compiled against the same sources, ASan+UBSan, real libraries
    T = "1" if thorough else "0"
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_container_overflow=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
    wit = [(j["job"], w) for j in explored for w in j["witnesses"]]
    def batch(i, cases):
        fnm = "%s/w%d" % (W, i)
        open(fnm, "w").write("".join("%d %s\n" % (jb, " ".join(map(str, w["inputs"]))) for jb, w in cases))
        r = subprocess.run([exe, T, fnm], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=env)
        return re.split(r"^CASE \d+\n", r.stdout, flags=re.M)[1:]
    N = max(1, (len(wit) + 7) // 8); chunks = [wit[i:i + N] for i in range(0, len(wit), N)]
    validated, mism, natviol = 0, [], []
    for cases, res in zip(chunks, ex.map(lambda a: batch(*a), list(enumerate(chunks)))):
        for (jb, w), r in zip(cases, res):
            m = re.search(r"^END (.*)$", r, flags=re.M); st = m.group(1) if m else "none"
            exp = "ok||" + "".join("%s=%s;" % (a, b) for a, b in w["obs"])
            if st == exp: validated += 1
            elif st.startswith("assert|") or st == "exit 77" or st.startswith("exit 1") or (st.startswith("signal") and st != "signal 14"): natviol.append((jb, w["inputs"], st))
            else: mism.append({"job": jb, "inputs": w["inputs"][:64], "native": st[:300], "symbolic": exp[:300]})
    # ---- replay the solver's counterexamples on the real code
    confirmed, unconfirmed = [], []
    def single(job, inputs, extraenv="", prog=None, secs=70, alarm=60):
        fnm = tempfile.mktemp(dir=W); open(fnm, "w").write("%d %s\n" % (job, " ".join(map(str, inputs))))
        e = dict(env); e["ASAN_OPTIONS"] += extraenv; e["SYMX_ALARM"] = str(alarm)
        try: r = subprocess.run([prog or exe, T, fnm, "single"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, timeout=secs)
        except subprocess.TimeoutExpired: return -1, "timeout"
        return r.returncode, r.stdout
    def tsan_exe():
        o = list(ex.map(lambda a: nat(a[0], a[1], TSAN, "t"), list(enumerate([harness] + natsrcs))))
        run(["clang++-18", "-fsanitize=thread"] + o + [B + "/runtime_tsan.o", "-o", W + "/treplay"] + LIBS); return W + "/treplay"
    tex = None
    if any(v["kind"] == "shared-write" for v in viols[:6]): tex = tsan_exe()
    def replay(v):
        ins = [x for n, x in v["inputs"] if not n.startswith("!u")]
        ok, rep = False, ""
        if v["kind"] == "shared-write":
            rc, rep = single(v["job"], ins, "", tex); ok = "ThreadSanitizer" in rep
        # a step limit: the native run has to hang as well (or to exhaust the memory it is given)
        lim = ":hard_rss_limit_mb=2500" if v["kind"] == "steps" else ""
        for fill in ("", ":malloc_fill_byte=0:max_malloc_fill_size=65536", ":malloc_fill_byte=255:max_malloc_fill_size=65536"):
            if ok: break
            rc, rep2 = single(v["job"], ins, fill + lim, None, 70, 20 if v["kind"] == "steps" else 60)
            if not ("END ok" in rep2 or "END assume" in rep2 or "END short" in rep2): ok, rep = rc != 0, rep2
            else: rep = rep or rep2
        return ok, (v, ins, rep)
    for ok, t in ex.map(replay, viols[:6]): (confirmed if ok else unconfirmed).append(t)
    for jb, ins, st in natviol[:4]:
        rc, rep = single(jb, ins)
        if rc != 0 and not ("END ok" in rep or "END assume" in rep or "END short" in rep): confirmed.append(({"kind": "native", "msg": "native run of a solver-generated input fails: " + st[:200], "where": "", "stack": [], "inputs": [["input", x] for x in ins], "job": jb}, ins, rep))
    # ---- known findings
    known = []
    try:
        for line in open(V + "/KNOWN_FINDINGS.txt"):
            if line.startswith("finding: property=%s " % prop): known.append(line.strip())
    except OSError: pass
    for line in known: print("KNOWN-FINDING: property=%s %s" % (prop, line.split(" ", 2)[2]))
    # ---- report
    dem = subprocess.run(["c++filt"] + list(fns), stdout=subprocess.PIPE, text=True).stdout.split("\n") if fns else []
    enc = sorted(((d, fns[k]) for k, d in zip(fns, dem) if ("google::grpc::transcoding" in d.split("(")[0] or d.startswith("google::grpc::transcoding")) and not d.startswith("std::")), key=lambda x: -x[1][1])
    def pretty(ins):
        outp, cur = [], []
        for x in ins: outp.append(x)
        return outp
    rc = 0
    nrep = 0
    for v, ins, rep in confirmed[:3]:
        path = "%s/replay/%s-%d.json" % (EV, prop, nrep); nrep += 1
        named = {}
        for n, x in v["inputs"]:
            if not n.startswith("!u"): named.setdefault(n.split("[")[0], []).append(x)
        txt = {n: "".join(chr(x) if 32 <= x < 127 else "\\x%02x" % (x & 255) for x in xs) for n, xs in named.items() if xs and all(x < 256 for x in xs)}
        json.dump({"property": prop, "kind": v["kind"], "message": v["msg"], "where": v["where"], "stack": v["stack"][:12], "job": v["job"], "tier": tier, "inputs": ins, "named": named, "as_text": txt, "native_replay": rep[-3000:],
                   "replay_with": "python3 check.py %s --tier %s reproduces it" % (prop, tier)}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s at %s; inputs %s" % (v["kind"], v["msg"], v["where"] or "?", json.dumps(txt or named)[:400]))
        rc = 1
    for v, ins, rep in unconfirmed[:3]: print("note: unconfirmed counterexample (not reported): %s %s at %s %s | native: %s" % (v["kind"], v["msg"], v["where"], ins[:40], rep[-300:].replace("\n", " / ")))
    if mism: print("note: %d native runs differ from the symbolic prediction, e.g. %s" % (len(mism), json.dumps(mism[0])[:600]))
    if err: print("note: engine: " + err[-800:])
    missing = [l for l in c.get("cover", []) if l not in cover]
    if missing and rc == 0: print("note: not reached: " + ", ".join(missing))
    wall = time.time() - t0
    evd = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
           "coverage": {"states": tot["paths"] + tot["forks"], "transitions": tot["steps"], "traces_validated_against_impl": validated,
                        "samples": [{"job": jb, "inputs": w["inputs"][:48], "observed": w["obs"][:8]} for jb, w in wit[:: max(1, len(wit) // 6)][:6]] or [{"job": v["job"], "violation": v["msg"]} for v in viols[:3]] or ["none"],
                        "exhaustive": complete, "explanation": "path-complete symbolic execution of the LLVM bitcode compiled from /repo on this run; states = symbolic states (completed paths + forks), transitions = executed instructions; every completed path's condition and every pruned branch is decided by Z3",
                        "bounds": c["bounds"][1 if thorough else 0], "paths": tot["paths"], "infeasible_or_assumed_away": tot["infeasible"], "incomplete_paths": tot["incomplete"], "incomplete_reasons": dict(sorted(why.items(), key=lambda x: -x[1])[:10]), "jobs": "%d of %d explored" % (len(explored), njobs),
                        "assertions_checked": tot["asserts"], "assertions_with_symbolic_condition": tot["sym_asserts"], "solver_queries": tot["queries"], "solver_cache_hits": tot["cache_hits"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "solver_s": round(tot["solver_s"], 3), "compile_s": round(compile_s, 2),
                        "reached": cover, "not_reached": missing, "native_mismatches": mism[:5], "unconfirmed_counterexamples": len(unconfirmed),
                        "functions_encoded": ["%s calls=%d symbolic_branches=%d" % (d[:160], a, b) for d, (a, b) in enc[:60]], "functions_executed_total": len(fns), "engine_messages": err[-500:]},
           "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(confirmed)}
    json.dump(evd, open("%s/%s.json" % (EV, prop), "w"), indent=1)
    print("%s %s: %s, %d paths, %d instr, %d asserts (%d symbolic), %d queries %.1fs solver, %d native replays agree, %d differ, %.1fs%s" % (prop, tier, "VIOLATED" if rc else "held, complete within bounds" if complete else "held on what was explored, INCOMPLETE: " + json.dumps(why)[:300], tot["paths"], tot["steps"], tot["asserts"], tot["sym_asserts"], tot["queries"], tot["solver_s"], validated, len(mism), wall, "" if not cover else " cover=" + json.dumps(cover)))
    return rc

if __name__ == "__main__":
    try: sys.exit(main())
    except Exception as e:   # the code could not be built or encoded: no verdict, which is not a violation
        print("note: no verdict: " + str(e)[-3000:]); sys.exit(2)
