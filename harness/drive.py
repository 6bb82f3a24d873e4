"""Worker: executes the real library for one property and one shard, and
records the trace.  usage: drive.py PROP TIER SEED SHARD NSHARDS CASES OUT [INPUTS]"""
import json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import matplotlib
matplotlib.use("Agg")
from rec import Trace
import pandas as pd
pd.options.mode.chained_assignment = None


def main():
    prop, tier, seed, shard, nsh, cases, out = sys.argv[1:8]
    inputs = sys.argv[8] if len(sys.argv) > 8 else None
    shard, nsh, cases = int(shard), int(nsh), int(cases)
    try:
        import trikit, trikit.triangle
    except Exception as e:
        sys.stderr.write("cannot import trikit: %r" % e)
        sys.exit(77)
    import drivers
    only = os.environ.get("DRIVE_ONLY")
    w = Trace(out)
    t0, limit = time.time(), float(os.environ.get("DRIVE_LIMIT", "1e9"))
    done = 0
    def case(cid, fn, *a):
        if only and cid != only:
            return 0
        w.case(cid)
        try:
            fn(w, random.Random("%s:%s:%s" % (seed, prop, cid)), *a)
        except Exception:
            # a response without the documented attributes: judged, not fatal
            w.ev("unreadable", what=traceback.format_exc()[-1500:])
        return 1
    if inputs and hasattr(drivers, prop + "_model"):
        fn = getattr(drivers, prop + "_model")
        for i, ln in enumerate(open(inputs).read().splitlines()):
            if i % nsh == shard:
                done += case("m%d" % i, fn, json.loads(ln), tier)
                if time.time() - t0 > limit:
                    break
    fn = getattr(drivers, prop, None)
    if fn:
        for i in range(shard, cases, nsh):
            done += case("r%d" % i, fn, i, tier)
            if time.time() - t0 > 2 * limit:
                break
    w.close()
    json.dump({"cases": done, "events": w.n, "ops": w.ops, "wall": time.time() - t0}, open(out + ".meta", "w"))


if __name__ == "__main__":
    main()
