"""Writes MANIFEST.json from the checks that exist in vf/props"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

TECH = {
    "C01": "runtime monitor: shadow-model oracle over recorded operation histories",
    "C02": "runtime monitor: byte-diff non-interference oracle around every operation",
    "C03": "runtime monitor: independent fsck of the image after every operation",
    "C04": "runtime monitor with exception injection at executed lines of the update",
    "C05": "runtime monitor: independent space accounting over operation histories",
    "C06": "runtime monitor: independent format reader over every written disk",
    "C07": "runtime monitor: differential reading of independently built disks",
    "C08": "runtime monitor: differential opening of packed and plain images",
    "C09": "runtime monitor: structure-aware corruption under exception, step and memory monitors",
    "C10": "runtime monitor: file tree and image snapshots around every read and dry run",
    "C11": "runtime monitor: independent reader over the image file after every command",
    "C12": "runtime monitor: file tree diff and write interception around extract",
    "C13": "runtime monitor: independent executable loader over every built file",
    "C14": "runtime monitor: independent executable parser over generated files",
    "C15": "runtime monitor: independent BLOAD loader over built and parsed binaries",
    "C16": "runtime monitor: instruction-level 6502 simulation booting every built disk",
    "C17": "runtime monitor: instruction-level 6502 simulation booting every built disk",
    "C18": "runtime monitor: index-list model of every view, checked after each step of a history",
    "C19": "runtime monitor: state comparison across serialization round trips",
    "C20": "runtime monitor: dictionary model of comments and styles over edit histories",
    "C21": "runtime monitor: independent bank table over parsed cartridges and ROMs",
    "C22": "runtime monitor: file tree diff around create, independent reader on the result",
    "C23": "runtime monitor: byte-diff oracle against an independent allocation map",
    "C24": "runtime monitor: independent geometry arithmetic against observed positions and labels",
    "C25": "runtime monitor: identification oracle over generated images",
    "C26": "runtime monitor: printed reports parsed and compared with an independent reader",
    "C27": "runtime monitor: differential reading of independently built SpartaDOS disks",
    "C28": "runtime monitor: metamorphic pairs of command lines, complete file tree and output compared",
    "C29": "runtime monitor: interleaved histories compared step by step with solo runs in fresh processes",
    "C30": "runtime monitor: positions and bytes of every file, map and directory segment against an independent reader, writes through segments",
}
NOTE = ("Holds on the executions explored (bounded, seeded workload on the real code); the oracle is an implementation written "
        "independently of atrcopy and shares no code with it. ")
EXTRA = {
    "C04": "Every 'line' event of a sample of updates is a fault point; faults in the OS write of save() are outside the property. ",
    "C16": "Trusts the 6502 core and the SIO stand-in in vf/. ",
    "C17": "Trusts the 6502 core and the Disk II boot ROM stand-in in vf/. ",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(here, "vf", "props", pid.lower() + ".py")
    if os.path.exists(path):
        m = re.search(r'^LEVEL = "(\w+)"', open(path).read(), re.M)
        checks.append(dict(property=pid, quick_cmd="./check.sh %s quick" % pid, thorough_cmd="./check.sh %s thorough" % pid,
                           evidence_file="evidence/%s.json" % pid, technique=TECH[pid], level=m.group(1) if m else "exploration",
                           level_note=NOTE + EXTRA.get(pid, "")))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
with open(os.path.join(here, "MANIFEST.json"), "w") as fh:
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
                   notes="No hooks in /repo; the checks import /repo's working tree directly (pure Python, nothing to build)."), fh, indent=1)
    fh.write("\n")
