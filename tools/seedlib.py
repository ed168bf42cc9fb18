"""Development aid: writes seeded/ID/patch.diff and meta.json from textual substitutions."""
import json, os, subprocess
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seed(id, prop, path, subs, needs, breaks):
    edits = path if isinstance(path, dict) else {path: subs}
    for f, ss in edits.items():
        p = REPO + "/src/main/cpp/Balau/" + f
        s = open(p).read()
        for a, b in ss:
            assert s.count(a) == 1 or "ALL" in needs, (id, a, s.count(a))
            s = s.replace(a, b)
        open(p, "w").write(s)
    d = subprocess.check_output(["git", "-C", REPO, "diff"]).decode()
    subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    os.makedirs(VERIF + "/seeded/" + id, exist_ok=True)
    open(VERIF + "/seeded/%s/patch.diff" % id, "w").write(d)
    json.dump({"property": prop, "needs": needs.replace("ALL", "").strip(), "what_it_breaks": breaks}, open(VERIF + "/seeded/%s/meta.json" % id, "w"), indent=1)
