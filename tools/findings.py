"""Writes known_findings.txt's "fixed:" lines (commit subjects of /repo)."""
import subprocess

MAP = """3b62b9c P08
fa3e75e P13
f8fe7d4 P04
6e9a668 P02
4317aa7 P18
55b97b0 P16
6d4b436 P17
f289dd7 P17
1fb9d2b P19
30af0aa P25
ef528b6 P25
5ff3141 P25
12395d7 P25
288c85c P24
4e547df P24
68ddae4 P24
8fa2ad2 P23
53ebb9d P18
5f3be01 P18
5edd483 P18
2f9839b P14
f84a4bd P27
df69f99 P20
4c67fcc P16
e6a819b P12
391a0c0 P09
58aa110 P10
f44dc4d P10
4342056 P07
9603359 P07
92d2fa1 P10
441cd72 P14
74be350 P14
0b9d2c8 P17
8675eda P18
814430f P18
7521b1c P18
13cfdec P18
8e349a1 P26
1b442ca P25
f22126d P27
768cf25 P28
f018352 P27
"""


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
    subj = dict(l.split(" ", 1) for l in log.splitlines())
    out = [
        "# Genuine defects of zr-obp.",
        "# fixed: property=<id> <commit in /repo> <what failed>   (documents a repair; suppresses nothing)",
        "# KNOWN-FINDING: property=<id> <harness> <what fails>    (a defect recorded rather than repaired; none at present)",
    ]
    for l in reversed(MAP.strip().splitlines()):
        h, p = l.split()
        s = [v for k, v in subj.items() if k.startswith(h) or h.startswith(k)]
        assert s and s[0].startswith("fix: "), (h, s)
        out.append(f"fixed: property={p} {h} {s[0][5:]}")
    open("/verif/known_findings.txt", "w").write("\n".join(sorted(out[:3], key=lambda x: 0) + sorted(out[3:], key=lambda x: x.split()[1])) + "\n")


if __name__ == "__main__":
    main()
