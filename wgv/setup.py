"""Run once before the checks: nothing is installed, this only shows that the toolchain works and the library builds."""
import os, shutil
from . import build, tlc
lib = build.lib("full")
print("built", os.path.basename(lib))
