"""Runs some shards of one check in this process (float width is fixed by the environment) and writes JSON lines."""

import importlib
import json
import os
import sys
import warnings

warnings.filterwarnings("ignore")


def main():
    check, tier, out = sys.argv[1:4]
    names = json.loads(sys.argv[4])
    x64 = os.environ.get("JAX_ENABLE_X64") == "1"
    from mc import core

    known = {k["id"] for k in core.load_known()["known"]}
    f = open(out, "w")
    try:
        mod = importlib.import_module("checks." + check)
        shards = {s.name: s for s in mod.shards(tier)}
    except Exception as e:  # the code under test cannot even be imported
        import traceback

        f.write(json.dumps({"fatal": repr(e)[:300], "trace": traceback.format_exc()[-2500:]}) + "\n")
        f.close()
        return
    for n in names:
        r = core.run_shard(mod, shards[n], tier, x64, known)
        f.write(json.dumps(r) + "\n")
        f.flush()
    f.close()


main()
