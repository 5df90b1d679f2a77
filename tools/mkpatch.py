"""mkpatch.py id file <<< JSON? usage: mkpatch.mk(id, file, [(old,new)...], prop, needs, breaks)"""
import subprocess, json, os, shutil
def mk(id, edits, prop, needs, breaks, demo, run='"$D/demo"'):
    w = "/tmp/mkp"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"])
    try:
        for f, old, new in edits:
            p = os.path.join(w, f); s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w])
        subprocess.call(["git", "-C", "/repo", "worktree", "prune"])
    o = "/verif/seeded/" + id
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    open(o + "/demo.sh", "w").write(open("/verif/tools/demo_base.sh").read() + run + "\n")
    open(o + "/demo.cpp", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
