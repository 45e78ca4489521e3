"""setup_cmd: build what the checks need from the committed files."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

core.build_harness()
core.build_harness(which="ops")
core.build_cli()
print("setup done")
