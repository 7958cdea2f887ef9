"""tools/mkseed.py ID PROPERTY FILE: reads old text, new text, needs, what_it_breaks from stdin separated by lines '=====';
writes /verif/seeded/ID/{patch.diff,meta.json}. FILE relative to /repo. Several edits: repeat 'old/new' pairs with '-----' and
'@@@ file' first line for another file."""
import sys, subprocess, json, os, shutil, tempfile
sid, prop, fname = sys.argv[1:4]
parts = sys.stdin.read().split("\n=====\n")
edits, needs, breaks = parts[0], parts[1].strip(), parts[2].strip()
t = tempfile.mkdtemp(dir="/tmp")
subprocess.run(f"git -C /repo archive HEAD | tar -x -C {t}; cd {t}; git init -q .; git add -A; git -c user.email=a@b -c user.name=x commit -qm x", shell=True, check=True)
for e in edits.split("\n#####\n"):
    f = fname
    if e.startswith("@@@ "):
        l, e = e.split("\n", 1); f = l[4:].strip()
    old, new = e.split("\n-----\n")
    old = old.strip("\n"); new = new.strip("\n")
    p = os.path.join(t, f); s = open(p).read()
    assert s.count(old) == 1, (s.count(old), old)
    open(p, "w").write(s.replace(old, new))
d = f"/verif/seeded/{sid}"; os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(t); print(sid, len(diff))
