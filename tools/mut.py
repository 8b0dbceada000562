"""mut.py <file> <old> <new> <checks,comma> : try an edit in a scratch copy (development aid)"""
import os, shutil, subprocess, sys, tempfile
def trial(edits, checks, show=True):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        for s in ("common", "estimation", "synthetic", "factoranalysis", "setup.py"):
            (shutil.copytree if os.path.isdir("/repo/" + s) else shutil.copy)("/repo/" + s, d + "/" + s)
        for f, old, new in edits:
            p = d + "/" + f
            s = open(p).read()
            if s.count(old) < 1:
                print("NOT FOUND", old); return
            open(p, "w").write(s.replace(old, new, 1))
        out = {}
        for c in checks:
            r = subprocess.run([sys.executable, "/verif/check.py", c], env=dict(os.environ, GSA_REPO=d), capture_output=True, text=True)
            out[c] = r.returncode
            if show:
                print(c, "exit", r.returncode); print(r.stdout[-3000:], r.stderr[-1500:])
        return out
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    trial([(sys.argv[1], sys.argv[2].encode().decode("unicode_escape"), sys.argv[3].encode().decode("unicode_escape"))], sys.argv[4].split(","))
