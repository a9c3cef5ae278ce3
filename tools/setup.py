"""setup_cmd: builds the engine and the parts every check shares."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild

os.makedirs(f"{vbuild.VERIF}/evidence", exist_ok=True)
vbuild.plugin()
vbuild.pch([])
for r in ("symrt", "replay"):
    vbuild.rt_obj(r)
print("ok")
