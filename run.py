#!/usr/bin/env python3
"""Decide one property: build its harness against /repo's working tree, record steps of the real
code, and let TLC validate them against the specification (plus the model-checking runs attached
to the property).   usage: run.py <property> [quick|thorough]"""
import sys, os, re, json, time, hashlib, subprocess, shutil, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, FLAGS
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(HERE, ".build")
JAR = "/opt/veriftools/tla/tla2tools.jar"; CM = "/opt/veriftools/tla/CommunityModules-deps.jar"

def die(msg, rc=2):
    print("ERROR: " + msg); sys.exit(rc)
def sh(cmd, timeout, **kw):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired as e: die("timeout: %s" % " ".join(cmd)[:200])
def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths): h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]
def tree(d): return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]
def save(dst, make):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not os.path.exists(dst):
        tmp = "%s.%d" % (dst, os.getpid()); make(tmp); os.replace(tmp, dst)
    return dst
def java_classes():
    src = glob.glob(HERE + "/spec/java/*.java"); d = os.path.join(B, "cls-" + digest(src))
    if not os.path.isdir(d):
        tmp = d + ".%d" % os.getpid(); os.makedirs(tmp)
        r = sh(["javac", "-d", tmp, "-cp", JAR] + src, 300)
        if r.returncode: die("javac failed\n" + r.stdout)
        try: os.rename(tmp, d)
        except OSError: shutil.rmtree(tmp)
    return d
_inc = None
def build(h):
    global _inc
    src = os.path.join(HERE, "harness", h["src"])
    hdrs = tree(os.path.join(REPO, "include")) + glob.glob(HERE + "/harness/*.hpp")
    flags = FLAGS + h.get("flags", []); cxx = h.get("cxx", "g++")
    exe = os.path.join(B, "bin", os.path.basename(h["src"])[:-4] + "-" + digest([src] + hdrs, cxx + " ".join(flags)))
    def mk(tmp):
        cmd = [cxx] + flags + ["-I" + REPO + "/include", src, "-o", tmp] + h.get("libs", [])
        r = sh(cmd, 400)
        if r.returncode:   # the templates do not accept the base types of our own: the hardware types alone
            first = r.stdout; r = sh(cmd + ["-DHW_ONLY"], 400)
            print("NOTE: %s built for the hardware base types only: %s" % (h["src"], "".join(re.findall(r"^.*error:.*$", first, re.M)[:1])))
            for flag, what in h.get("without", []):   # a part of the interface that cannot be instantiated
                if r.returncode:
                    r = sh(cmd + [flag], 400)
                    if not r.returncode: open(exe + ".missing", "w").write(what)
        if r.returncode: die("harness %s does not build\n%s" % (h["src"], r.stdout[-4000:]))
    return save(exe, mk)

class TLC:
    """one run of the model checker"""
    def __init__(self, module, cfg, props, work, name, workers=8, extra=(), xmx="6g", timeout=850):
        self.out = os.path.join(work, name + ".viol"); open(self.out, "w").close()
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-Djava.io.tmpdir=" + work, "-Dverif.out=" + self.out] + ["-Dverif.%s=%s" % kv for kv in props.items()] + \
              ["-cp", java_classes() + ":" + JAR + ":" + CM, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(work, name + ".meta"), "-nowarning"] + list(extra) + ["-config", cfg, module]
        r = sh(cmd, timeout, cwd=HERE + "/spec"); self.log = r.stdout; self.rc = r.returncode
        open(os.path.join(work, name + ".log"), "w").write(r.stdout)
        m = re.findall(r"^([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found, ([\d,]+) states left", r.stdout, re.M)
        n = lambda s: int(s.replace(",", ""))
        self.generated, self.distinct, self.left = (n(m[-1][0]), n(m[-1][1]), n(m[-1][2])) if m else (0, 0, -1)
        m = re.search(r"Invariant (\w+) is violated", r.stdout); v = {x: int(y) for x, y in re.findall(r"^/\\ ([sk]) = (\d+)$", r.stdout, re.M)}
        self.broken = [("bad", "<<%d, %d>>" % (v["s"], v["k"]), m.group(1))] if m and len(v) == 2 else []   # a recorded behaviour leaves the invariant
        self.ok = r.returncode == 0 and "No error has been found" in r.stdout
        self.bad = [l.rstrip("\n").split("\t", 2) for l in open(self.out)]

def known(pid):
    res = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
        if m and m.group(1) == pid: res.append((re.compile(m.group(2)), m.group(3).strip()))
    return res

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); P = PROPS[pid]; evals = 0
    work = os.path.join(B, "work", "%s-%s-%d" % (pid, tier, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    java_classes()
    with ThreadPoolExecutor(8) as ex: exes = list(ex.map(build, P["harness"]))
    crashed = []
    def record(k, tag):
        out = os.path.join(work, "%s.%d.rec" % (tag, k)); h = P["harness"][k]
        r = sh([exes[k], h.get("prop", pid), out, str(seed), tier] + h.get("args", []), 700)
        if r.returncode == 3 and "signal outside a call" in r.stdout: crashed.append("harness|%s|||||X,crash  (the library crashed while its operands were being made)" % h["src"]); return out, 0
        if r.returncode: die("harness %s failed (%d)\n%s" % (h["src"], r.returncode, r.stdout[-2000:]))
        m = re.search(r"calls (\d+)", r.stdout); return out, int(m.group(1)) if m else 0
    def record_all(tag):
        with ThreadPoolExecutor(8) as ex: return list(ex.map(lambda k: record(k, tag), range(len(exes))))
    mc = []; states = trans = 0
    for k, (module, cfg) in enumerate(P.get("mc", []) + (P.get("mc_thorough", []) if tier == "thorough" else [])):
        t = TLC(module, cfg, {"prop": pid, "tier": tier, "rec": ""}, work, "mc%d" % k)
        if not t.ok or t.left or t.bad: die("the specification itself fails in %s/%s:\n%s" % (module, cfg, t.log[-3000:]))
        mc.append({"module": module, "config": cfg, "states": t.distinct, "transitions": t.generated}); states += t.distinct; trans += t.generated
    cmds = os.path.join(work, "behaviours"); open(cmds, "w").close(); gens = []
    for k, g in enumerate(P.get("gen", [])):   # behaviours of the specification, to be replayed by the harness
        if g.get("tier", tier) != tier: continue
        em = os.path.join(work, "gen%d" % k); open(em, "w").close(); sim = g.get("sim")
        ex = ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1]), "-seed", str(seed)] if sim else []
        props = dict({"prop": pid, "tier": tier, "rec": "", "emit": em}, **g.get("params", {}))
        t = TLC(g["module"], g["cfg"], props, work, "gen%d" % k, workers=1 if sim else 8, extra=ex)
        if not (t.ok or (sim and t.rc == 0)) or t.bad: die("generation failed in %s/%s:\n%s" % (g["module"], g["cfg"], t.log[-3000:]))
        ls = sorted(set(l for l in open(em) if l.strip())); open(cmds, "a").writelines(ls)
        gens.append({"module": g["module"], "config": g["cfg"], "behaviours": len(ls), "simulated": bool(sim)})
        if not sim: states += t.distinct; trans += t.generated
    os.environ["VERIF_CMDS"] = cmds
    recs = record_all("run"); evals = sum(c for _, c in recs)
    if crashed:
        crashed.clear(); record_all("again")
        if not crashed: die("a harness crashed once")
        rp = os.path.join(B, "replay", "%s-%s.txt" % (pid, tier)); os.makedirs(os.path.dirname(rp), exist_ok=True); open(rp, "w").write("\n".join(crashed) + "\n")
        print("\n".join(crashed)); print("VIOLATION property=%s replay=%s" % (pid, rp)); sys.exit(1)
    groups = {}
    for k, (f, _) in enumerate(recs): groups.setdefault(P["harness"][k].get("module", P.get("module", "Conform")), []).append(f)
    lines = []; rejected = []
    for module, files in groups.items():
        ls = []; sess = []
        for f in files:
            for l in open(f):
                l = l.rstrip("\n")
                if l.startswith("%"): sess.append([])
                elif l:
                    ls.append(l)
                    if sess: sess[-1].append(l)
        if not ls: die("no step was recorded by %s" % files)
        t = TLC(module + ".tla", module + ".cfg", {"prop": pid, "tier": tier, "rec": ":".join(files)}, work, module)
        if t.broken: t.ok, t.left, t.bad = True, 0, t.bad + t.broken
        if not t.ok or t.left: die("TLC did not finish:\n" + t.log[-3000:])
        cut = sum(int(x[2]) for x in t.bad if x[0] == "cut"); t.bad = [x for x in t.bad if x[0] != "cut"]
        if t.distinct + cut < len(ls) and not t.bad: die("TLC visited %d states for %d records" % (t.distinct, len(ls)))
        states += t.distinct; trans += t.generated; lines += ls
        sess = [x for x in sess if x]
        for kind, i, what in t.bad:
            m = re.match(r"<<(\d+), (\d+)>>", i)
            if m: s_ = sess[int(m.group(1)) - 1]; rejected.append((" => ".join(s_[:int(m.group(2))]), what))
            else: rejected.append((ls[int(i) - 1], what))
    for e in exes:
        if os.path.exists(e + ".missing"): missing = open(e + ".missing").read(); lines.append(missing); rejected.append((missing, "does not compile"))
    kf = known(pid); bad = []; found = {}
    for line, what in sorted(rejected):
        for rx, desc in kf:
            if rx.search(line): found.setdefault(desc, line); break
        else: bad.append((line, what))
    if bad:  # believe a rejection only if the recording repeats
        again = set(l.rstrip("\n") for f, _ in record_all("again") for l in open(f)) | set(l for l in lines if l.endswith("|X,nocompile"))
        rep = [b for b in bad if all(x in again for x in b[0].split(" => "))]
        if not rep: die("rejected steps did not repeat: " + bad[0][0])
        bad = rep
    byop = {}
    for l in lines: k = l.split("|", 1)[0].split(".")[0]; byop[k] = byop.get(k, 0) + 1
    step = max(1, len(lines) // 5)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"), "wall_s": round(time.time() - t0, 2), "violations": len(bad),
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": len(lines), "library_calls": evals, "model_checking_runs": mc, "behaviours_replayed": gens,
                       "records_by_operation": byop, "distinct_records": len(set(lines)), "samples": lines[::step][:6], "rejected_steps_known": len(rejected) - len(bad)},
          "assumptions": P.get("assumptions", [])}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    tmp = HERE + "/evidence/.%s.%d" % (pid, os.getpid()); json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, HERE + "/evidence/%s.json" % pid)
    for d, l in found.items(): print("KNOWN-FINDING: property=%s %s [%s]" % (pid, d, l))
    if bad:
        rp = os.path.join(B, "replay"); os.makedirs(rp, exist_ok=True); rp = os.path.join(rp, "%s-%s.txt" % (pid, tier))
        with open(rp, "w") as f:
            f.write("property %s: %d recorded steps of the real code are not steps of the specification\n" % (pid, len(bad)))
            f.write("reproduce: VERIF_SEED=%d python3 %s/run.py %s %s\n\n" % (seed, HERE, pid, tier))
            for line, what in bad[:500]: f.write(line + "\n")
        for line, what in bad[:5]: print("  rejected: " + (line if len(line) < 1500 else "... " + line[-1500:]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        shutil.rmtree(work, ignore_errors=True); sys.exit(1)
    print("%s held: %d steps of the real code validated, %d states, %.1fs" % (pid, len(lines), states, time.time() - t0))
    if not os.environ.get("VERIF_KEEP"): shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__": main()
