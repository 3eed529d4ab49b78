"""append the `fixed:` lines (one per property and repair) to KNOWN_FINDINGS.txt from the fix: commits of /repo"""
import subprocess
from pathlib import Path
P = {"67ce22b": "C01", "ccb2212": "C07", "cb5682f": "C11 C12", "a344c06": "C01", "87aea56": "C02", "a1acb48": "C02 C21", "9accd34": "C22 C18",
     "ff9d30b": "C22", "a3f0c3e": "C21", "b93092a": "C22", "0a0ba5b": "C04 C05 C19", "3bd0616": "C05", "b217d08": "C21", "82247a5": "C26",
     "b27e3d5": "C08", "27abc6c": "C11", "c67555a": "C06 C26", "eedc2cf": "C05 C23", "41bb7c1": "C04 C23", "d671ed3": "C13 C23", "f237675": "C13",
     "da226d9": "C14", "5f9d4e7": "C23", "4c1cbfd": "C15 C16", "86a5c3f": "C16", "048d614": "C17", "9dd87d8": "C17 C20", "cc94003": "C24",
     "e3c6f88": "C24", "927e25c": "C24", "88e55b6": "C24", "46502eb": "C24", "5325eec": "C19 C26", "ccfce61": "C19", "d947dff": "C19 C28",
     "10f0101": "C20", "a3029e9": "C19", "ea7820f": "C20", "812f4b2": "C20", "9d6464c": "C20", "d5da406": "C28", "5f66576": "C29", "8fb77d0": "C29",
     "a23f933": "C26 C09", "1bc6314": "C23", "f9cfc44": "C22", "cc74e9e": "C22", "9d2a971": "C22", "fcc3636": "C05", "2ad4173": "C23",
     "b2f445b": "C30",
     "3a1c3d9": "C31", "074dea9": "C31", "bf5b1f9": "C31", "d0076e5": "C31", "50e1686": "C31", "dc84193": "C31", "07b7010": "C31", "a7bea07": "C32", "af18ccb": "C04",
     "9815cef": "C13", "c550000": "C32", "a959734": "C13"}
f = Path(__file__).parent.parent / "KNOWN_FINDINGS.txt"
head = [x for x in f.read_text().splitlines() if not x.startswith("fixed:")]
out = []
for ln in subprocess.run(["git", "-C", "/repo", "log", "--oneline", "--reverse"], capture_output=True, text=True).stdout.splitlines():
    h, msg = ln.split(" ", 1)
    if msg.startswith("fix: "):
        for p in P[h].split():
            out.append(f"fixed: property={p} {h} {msg[5:]}")
f.write_text("\n".join(head + out) + "\n")
