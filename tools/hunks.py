"""hunks.py SRC DST MSG REGEX: applies to DST (and commits) the hunks of `git diff` in SRC whose text or file name matches REGEX."""
import re, subprocess, sys
src, dst, msg, rx = sys.argv[1:5]
d = subprocess.run(["git", "-C", src, "diff", "-U1", "HEAD"], capture_output=True, text=True).stdout
out = []
for f in re.split(r"(?m)^(?=diff --git )", d):
    if not f: continue
    hs = re.split(r"(?m)^(?=@@ )", f)
    keep = [h for h in hs[1:] if re.search(rx, hs[0].split("\n")[0] + "\n" + h)]
    if keep: out.append(hs[0] + "".join(keep))
p = "".join(out)
if "--show" in sys.argv: print(p); sys.exit()
subprocess.run(["git", "-C", dst, "apply", "--unidiff-zero", "-"], input=p, text=True, check=True)
subprocess.run(["git", "-C", dst, "commit", "-qam", msg], check=True)
print(subprocess.run(["git", "-C", dst, "log", "--oneline", "-1"], capture_output=True, text=True).stdout)
