# The checks build everything they need from /repo themselves; setup only makes sure the tools are there.
import shutil, subprocess, sys
for t in ("g++", "python3"):
    if not shutil.which(t): sys.exit("missing tool: " + t)
print(subprocess.run(["g++", "--version"], capture_output=True, text=True).stdout.splitlines()[0])
