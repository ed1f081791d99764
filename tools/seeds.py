#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ from the specs in seedlib/specs*.py. Usage: seeds.py gen | try [id...] (in scratch copies under /tmp)."""
import os, sys, json, subprocess, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); L = V + "/tools/seedlib"
PMF = "src/http_template.cc src/path_matcher_node.cc"; RD = "src/message_reader.cc src/message_stream.cc"
KIND = {"pm": (PMF, "-labsl_strings -labsl_throw_delegate -labsl_raw_logging_internal", False, "pm.h"), "pu": (PMF, "-labsl_strings -labsl_throw_delegate -labsl_raw_logging_internal", False, "pm.h"),
        "rd": (RD, "", False, "rd.h"), "conv": ("", "", True, "conv.h")}
ABSL = ["-lprotobuf", "-Wl,--start-group"] + ["-labsl_" + l for l in "statusor status cord cord_internal cordz_info cordz_handle cordz_functions strings strings_internal str_format_internal synchronization time base raw_logging_internal throw_delegate hash city low_level_hash raw_hash_set int128 spinlock_wait malloc_internal stacktrace symbolize debugging_internal demangle_internal".split()] + ["-Wl,--end-group", "-lpthread"]
SPECS = []
def seed(id, prop, kind, file, old, new, demo, needs, breaks, srcs=None, flags="", edits=None, pre=""):
    SPECS.append(dict(id=id, prop=prop, kind=kind, edits=edits or [(file, old, new)], demo=demo, needs=needs, breaks=breaks, srcs=srcs, flags=flags, pre=pre))
for f in sorted(glob.glob(L + "/specs*.py")): exec(open(f).read())
def gen(only=None):
    for s in SPECS:
        if only and s["id"] not in only: continue
        d = V + "/seeded/" + s["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        diff = ""
        byf = {}
        for f, a, b in s["edits"]: byf.setdefault(f, []).append((a, b))
        for f, ab in byf.items():
            t = open("/repo/" + f).read(); n = t
            for a, b in ab:
                if n.count(a) != 1: sys.exit("%s: %d matches in %s of\n%s" % (s["id"], n.count(a), f, a))
                n = n.replace(a, b)
            open("/tmp/seed.old", "w").write(t); open("/tmp/seed.new", "w").write(n)
            o = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/tmp/seed.old", "/tmp/seed.new"], capture_output=True, text=True).stdout
            diff += o
        open(d + "/patch.diff", "w").write(diff)
        srcs, _, conv, hdr = KIND[s["kind"]]; srcs = (s["srcs"] if s["srcs"] is not None else srcs).split()
        inc = "-I src/include"; gensteps = ""
        if conv: shutil.copytree(V + "/stubs/conv", d + "/stubs"); inc = '-I "$D/stubs" ' + inc
        if s["kind"] == "pu": gensteps = 'mkdir "$W/x" "$W/gen"; (cd "$W/x" && python3 -c "import zipfile; z = zipfile.ZipFile(\'/usr/share/java/proto-google-common-protos.jar\'); [z.extract(n) for n in (\'google/api/http.proto\',)]")\nprotoc -I "$W/x" --cpp_out="$W/gen" google/api/http.proto\n'; inc += ' -I "$W/gen"'; srcs.append('"$W/gen/google/api/http.pb.cc"')
        shutil.copy(L + "/" + hdr, d + "/" + hdr)
        if s["kind"] == "pu": pass
        open(d + "/demo.cc", "w").write("// " + s["needs"] + "\n" + s["pre"] + '#include "%s"\n' % hdr + s["demo"].strip("\n") + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# Run in the repository\'s root: 0 if the behaviour is right, nonzero otherwise\nset -e\nD="$(cd "$(dirname "$0")" && pwd)"; W="$(mktemp -d)"; trap \'rm -rf "$W"\' EXIT\n' + gensteps +
            "clang++-18 -std=c++20 -O1 -g1 -w %s %s \"$D/demo.cc\" %s -o \"$W/demo\" %s\ntimeout 60 \"$W/demo\"\n" % (s["flags"], inc, " ".join(srcs), " ".join(ABSL)))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def trial(id, wt, check=True):
    d = V + "/seeded/" + id; prop = json.load(open(d + "/meta.json"))["property"]; r = {"id": id, "prop": prop}
    def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, cwd=wt, **k)
    sh("git checkout -q -- .")
    r["demo_clean"] = sh("bash %s/demo.sh" % d).returncode
    a = sh("git apply %s/patch.diff" % d)
    if a.returncode: r["apply"] = a.stderr; return r
    b = sh("ninja -C _build -k 0"); r["build"] = b.returncode
    if b.returncode: r["log"] = (b.stdout + b.stderr)[-600:]
    t = sh("ctest --test-dir _build -j4 --timeout 100"); m = re.search(r"(\d+)% tests passed, (\d+) tests? failed out of (\d+)", t.stdout); r["tests"] = m and "%s/%s failed" % (m[2], m[3])
    if m and m[2] != "0": r["failed"] = re.findall(r"\d+ - (\S+) \(", t.stdout)[:4]
    x = sh("bash %s/demo.sh" % d); r["demo_bug"] = x.returncode; r["demo_out"] = (x.stdout + x.stderr)[-200:]
    if check:
        c = subprocess.run(["python3", "check.py", prop], cwd=V, capture_output=True, text=True, env=dict(os.environ, SYMX_REPO=wt, SYMX_EVIDENCE="/tmp/pl/ev"))
        r["check"] = c.returncode; r["check_out"] = (c.stdout.strip().split("\n")[-1] + " " + c.stderr[-300:])[:400] if c.returncode != 1 else c.stdout[:300]
    sh("git checkout -q -- .")
    return r
def prep(i):
    wt = "/tmp/pl/w%d" % i
    if not os.path.exists(wt):
        subprocess.run("cp -a /tmp/pl/base %s; rm -rf %s/_build; cd %s && CC=clang-18 CXX=clang++-18 cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g' -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C _build -k 0" % ((wt,) * 5), shell=True, capture_output=True)
    return wt
if __name__ == "__main__":
    if sys.argv[1] == "gen": gen(sys.argv[2:]); sys.exit()
    ids = sys.argv[2:] or [s["id"] for s in SPECS]; gen(ids); n = 3
    from queue import Queue
    q = Queue(); [q.put(prep(i)) for i in range(n)]
    def one(i):
        w = q.get()
        try: return trial(i, w)
        finally: q.put(w)
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, ids):
            good = r.get("demo_clean") == 0 and r.get("build") == 0 and str(r.get("tests")).startswith("0/") and r.get("demo_bug", 0) != 0
            print(("COUNTS " if good else "INVALID") + (" CAUGHT " if r.get("check") == 1 else " MISSED "), json.dumps(r) if not good or r.get("check") != 1 else r["id"] + " " + r["check_out"].split("\n")[0][:160], flush=True)
