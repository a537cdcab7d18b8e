"""Setup: checks that the tools are present; nothing has to be built ahead of the checks."""
import shutil, subprocess, sys
ok = True
for t in ('verus', 'z3', 'clang++-18', 'python3'):
    w = shutil.which(t)
    print(t, w)
    ok = ok and (w is not None or t == 'z3')
sys.exit(0 if ok else 1)
