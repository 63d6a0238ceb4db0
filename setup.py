#!/usr/bin/env python3
"""Nothing has to be built ahead: every check builds what it needs. This warms
the build cache and fails early when the toolchain is unusable."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
p = subprocess.run([run.GOROOT + "/bin/go", "version"], env=run.goenv({}), capture_output=True, text=True)
print(p.stdout, p.stderr)
sys.exit(p.returncode)
