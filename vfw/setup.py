"""Prepare the generated Why3 configuration and see that the tools answer."""
import os
import subprocess
from vfw import prove

if os.path.exists(prove.CONF):
    os.remove(prove.CONF)
prove.conf()
for c in ([prove.WHY3, "--version"], ["z3", "--version"], ["z3-new", "--version"], ["cvc5", "--version"]):
    print(subprocess.run(c, capture_output=True, text=True).stdout.strip().split("\n")[0])
