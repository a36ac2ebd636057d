#!/usr/bin/env python3
"""Makes and verifies the planted bugs of /verif/seeded.

A file of tools/seeds/ holds one or more bugs, in the format of mutants plus
a demonstration:

  seed ID PROPERTY core|redis|GOFILE-less script kind
  needs TEXT
  breaks TEXT
  file PATH
  <<<<
  old
  ====
  new
  >>>>
  demo
  ...Go source of demo_test.go (without the package clause and imports it
  lists as 'import "x"' lines)...
  end
"""
import json, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(V, "tools", "seedlib")

def parse(path):
    out, cur, mode, buf, f = [], None, None, [], None
    for line in open(path):
        l = line.rstrip("\n")
        if mode is None:
            if l.startswith("seed "):
                _, i, p, kind = l.split()
                cur = dict(id=i, prop=p, kind=kind, edits=[], needs="", breaks="", demo="")
                out.append(cur)
            elif l.startswith("needs "): cur["needs"] = l[6:]
            elif l.startswith("breaks "): cur["breaks"] = l[7:]
            elif l.startswith("file "): f = l[5:].strip()
            elif l == "<<<<": mode, buf = "old", []
            elif l == "demo": mode, buf = "demo", []
            elif l.strip() and not l.startswith("#"): sys.exit(f"{path}: {l}")
        elif mode == "old" and l == "====": old, mode, buf = "\n".join(buf), "new", []
        elif mode == "new" and l == ">>>>":
            cur["edits"].append((f, old, "\n".join(buf))); mode = None
        elif mode == "demo" and l == "end":
            cur["demo"] = "\n".join(buf) + "\n"; mode = None
        else: buf.append(l)
    return out

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(s, repo):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f, old, new in s["edits"]:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) < 1: sys.exit(f"{s['id']}: text not found in {f}: {old[:80]}")
        if t.count(old) > 1: sys.exit(f"{s['id']}: text found {t.count(old)} times in {f}: {old[:80]}")
        open(p, "w").write(t.replace(old, new))
    sh("gofmt -w " + " ".join(sorted({f for f, _, _ in s["edits"]})), repo)
    diff = sh("git diff", repo).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    sh("git checkout -q -- .", repo)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    kind, _, race = s["kind"].partition("+")
    imports = re.findall(r'^import (.*)$', s["demo"], re.M)
    body = re.sub(r'^import .*\n', "", s["demo"], flags=re.M)
    sub = ""
    if kind.startswith("mod:"):
        kind, sub, pkg = kind.split(":")
    else:
        pkg = "main" if kind == "core" else "redisReplicator"
    open(os.path.join(d, "demo_test.go"), "w").write("package %s\n\nimport (\n%s\n)\n\n%s" % (pkg, "\n".join("\t" + i for i in imports), body))
    sh(["gofmt", "-w", os.path.join(d, "demo_test.go")], d)
    if not sub: shutil.copy(os.path.join(LIB, kind + "_harness_test.go"), d)
    t = open(os.path.join(LIB, "demo_" + kind + ".sh")).read().replace("@RACE@", "-race" if race else "").replace("@DIR@", sub)
    open(os.path.join(d, "demo.sh"), "w").write(t)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    return d

BASE = "df38436"

def counts(diff, repo):
    """The change touches lines of the original repository: removed lines that
    are not from our fixes, or, for pure insertions, an original neighbour."""
    f, n, ok = None, 0, False
    cache = {}
    def orig(f, n):
        if f not in cache:
            out = sh(["git", "blame", "-s", "--abbrev=10", "HEAD", "--", f], repo).stdout.splitlines()
            cache[f] = [l.startswith("^") or l.startswith(BASE) for l in out]
        return 0 < n <= len(cache[f]) and cache[f][n - 1]
    removed, near = [], []
    prev = False
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1)); prev = False
        elif f is None or l.startswith("+++") or l.startswith("diff") or l.startswith("index"): continue
        elif l.startswith("-"):
            t = l[1:].strip()
            if t and not t.startswith("//"): removed.append(orig(f, n))
            n += 1
        elif l.startswith("+"): near.append(orig(f, n - 1) or orig(f, n))
        else: n += 1
    return any(removed) if removed else any(near)

def passing(repo):
    o = sh("cd core && GOWORK=off GOFLAGS=-buildvcs=false GOPROXY=off go test -json ./... 2>/dev/null", repo).stdout
    return {(e["Package"], e["Test"]).__str__() for e in (json.loads(l) for l in o.splitlines() if l.startswith("{")) if e.get("Action") == "pass" and e.get("Test")}

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    only = args[1:] if len(args) > 1 else None
    tmp = tempfile.mkdtemp(prefix="seed.")
    repo = os.path.join(tmp, "repo")
    try:
        sh(["cp", "-a", "/repo", repo], tmp)
        sh("git checkout -q -- . ", repo)
        base = passing(repo)
        for s in parse(args[0]):
            if only and s["id"] not in only: continue
            d = make(s, repo)
            clean = sh([os.path.join(d, "demo.sh")], repo)
            res = ["clean demo: %d" % clean.returncode]
            a = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
            if a.returncode: res.append("APPLY FAILED " + a.stdout)
            b = sh("cd core && GOWORK=off GOFLAGS=-buildvcs=false GOPROXY=off go build -o /dev/null . ", repo)
            res.append("build: %d" % b.returncode + b.stdout[-300:])
            lost = sorted(base - passing(repo))
            if lost: res.append("TESTS FAIL " + ", ".join(lost[:3]))
            bad = sh([os.path.join(d, "demo.sh")], repo)
            res.append("patched demo: %d" % bad.returncode)
            env = dict(os.environ, VERIF_REPO=repo, VERIF_DIR=tmp)
            shutil.copy(os.path.join(V, "known-findings.txt"), tmp)
            c = sh([os.path.join(V, "bin", "checker"), "all"], tmp, env=env)
            m = re.search(r"BROKEN: (.*)", c.stdout)
            br = m.group(1) if m else "none"
            res.append("checks: " + br)
            cn = counts(open(os.path.join(d, "patch.diff")).read(), repo)
            if not cn: res.append("DOES NOT COUNT")
            good = cn and not lost and clean.returncode == 0 and bad.returncode != 0 and b.returncode == 0
            print(("OK " if good else "BAD"), ("caught" if s["prop"] in br.split() else "MISSED"), s["id"], s["prop"], "; ".join(res))
            if not good or "-v" in sys.argv:
                print("   clean:", clean.stdout[-1500:] if clean.returncode else "")
                print("   patched:", bad.stdout[-600:])
            sh("git checkout -q -- .", repo)
            sys.stdout.flush()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

main()
