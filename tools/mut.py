"""mut.py <pid> <spec-substr or -> <file under sawatabi> <old> <new> [...pairs]: run the specs on a mutated scratch copy."""
import sys, os, shutil, subprocess, tempfile
pid, sub, f = sys.argv[1:4]
d = tempfile.mkdtemp(prefix="mut_")
try:
    shutil.copytree("/repo/sawatabi", d + "/sawatabi", ignore=shutil.ignore_patterns("__pycache__"))
    p = os.path.join(d, "sawatabi", f)
    s = open(p).read()
    for o, n in zip(sys.argv[4::2], sys.argv[5::2]):
        o, n = o.encode().decode("unicode_escape"), n.encode().decode("unicode_escape")
        assert o in s, o
        s = s.replace(o, n, 1)
    open(p, "w").write(s)
    r = subprocess.run(["python3-vt", "/verif/tools/t.py", pid] + ([sub] if sub != "-" else []), env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    for l in r.stdout.splitlines():
        if "paths" in l or "BAD" in l or "Unsup" in l: print(l[:250])
    print(r.stderr[-500:])
finally:
    shutil.rmtree(d)
