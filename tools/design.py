"""Writes DESIGN.md: tools/design_body.md followed by tables made of seeded/*/meta.json and known_findings.txt."""
import glob, json, os, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = [open(H + "/tools/design_body.md").read().rstrip(), "", "## Planted bugs", "",
     "Each builds, passes the stable tests, fails its demonstration and is caught by the check of its property (confirmed in scratch copies).", "",
     "| id | property | breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    o.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
o += ["", "First missed, then caught after strengthening: c01-hexexp (words table now has every character before a sign), c27-shortread (faults",
      "return n-1 items), c33-label7 (packed structures of every small size), c31-undef (repeated options).", "",
      "## Defects found in the compiler", "", "Repaired (one `fix:` commit each) or recorded; the authoritative list is known_findings.txt.", ""]
by = collections.defaultdict(list)
for l in open(H + "/known_findings.txt"):
    l = l.strip()
    if l.startswith("known:"):
        by[l.split("property=")[1].split()[0]].append("**known finding**: " + l.split("|", 1)[1].strip())
    elif l.startswith("fixed:"):
        w = l.split("property=")[1].split(None, 2)
        by[w[0]].append("%s %s" % (w[1], w[2]))
for k in sorted(by):
    o.append("- **%s** (%d)" % (k, len(by[k])))
    o += ["  - " + x for x in by[k]]
open(H + "/DESIGN.md", "w").write("\n".join(o) + "\n")
