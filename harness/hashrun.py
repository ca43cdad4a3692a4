"""Run scenarios in this process (its hash seed is set by the caller)."""
import json
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
import pipe  # noqa: E402

core.load_pymars()
items = json.load(open(sys.argv[1]))
out = []
for sc in items:
    with tempfile.TemporaryDirectory(dir=os.path.dirname(sys.argv[2])) as d:
        try:
            out.append(pipe.run_scenario(sc, d))
        except Exception as e:
            out.append({"crash": repr(e)})
json.dump(out, open(sys.argv[2], "w"))
