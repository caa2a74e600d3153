"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os
NOTES = {
    "S18": "after C20's generator makes nullable symbols at the end of fronts",
    "S26": "after `RepOrder` (order inside repetition helpers) was added to `RegexGram.tla` and shuffled alternatives to the generator",
    "S48": "after the generator `rows` (long productions that differ late)",
    "S49": "after `bushy` grammars grew to 140 productions",
    "S50": "after the generator `longgroups`",
    "S51": "after results are spoilt between two calls with the same text",
    "S52": "after results are spoilt between two parses",
    "S53": "after grammars grow between two analyses",
    "S54": "first", "S55": "first",
    "S56": "once in a run; often after odd symbols stand at the head of lines too",
    "S57": "after `broad` trees",
    "S62": "after line ends of all kinds in regexgram texts",
    "S63": "after lists of reducers are used again",
    "S64": "after results are kept and read again, several values at once",
    "S65": "after rules whose expression is their own kind, quoted",
    "S58": "after grammars grow between two parses",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it breaks | caught |", "|---|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    n = os.path.basename(d)
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "\\|"), NOTES.get(n.split("-")[0], "first")))
p = here + "/DESIGN.md"
lines = open(p).read().split("\n")
a = next(i for i, l in enumerate(lines) if l.startswith("| planted bug |"))
b = a
while lines[b].startswith("|"):
    b += 1
lines[a:b] = rows
open(p, "w").write("\n".join(lines))
