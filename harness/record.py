"""record.py SUITE TIER SEED SHARD NSHARDS OUT: write the histories of one shard as NDJSON"""
import json
import logging
import random
import sys


def cover(path):
    """development aid: write down which lines of the library ran"""
    import atexit
    import os
    root = os.path.join(os.path.realpath(os.environ.get("KNX_REPO", "/repo")), "knx_stack") + os.sep
    seen, mon = set(), sys.monitoring

    def line(code, n):
        f = os.path.realpath(code.co_filename)
        if f.startswith(root):
            seen.add((f[len(root):], n))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "record")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    atexit.register(lambda: open(path, "w").write(json.dumps(sorted(seen))))


class Reader(logging.Handler):
    def emit(self, record):
        try:
            record.getMessage()
        except Exception:  # noqa  as the handlers of the standard library do
            pass


def main():
    import os
    if os.environ.get("VERIF_COVER"):
        cover(os.environ["VERIF_COVER"])
    suite, tier, seed, shard, nshards, out = sys.argv[1:7]
    shard, nshards = int(shard), int(nshards)
    import importlib
    for mod in ("suites_stack", "suites_more", "suites_models", "suites_life", "suites_octets", "suites_clients", "suites_values", "suites_threads", "suites_daemon"):
        m = importlib.import_module(mod)
        if suite in m.SUITES:
            gen = m.SUITES[suite]
            break
    else:
        raise SystemExit("no suite " + suite)
    import traceback
    import knxlib
    if shard % 2:  # what the library logs is for its reader: it changes nothing
        logging.disable(logging.NOTSET)
        logging.getLogger().setLevel(logging.DEBUG)
        logging.getLogger().addHandler(Reader())
    rng = random.Random("%s/%s/%s/%d" % (suite, tier, seed, shard))
    n = ev = 0
    with open(out, "w") as f:
        def put(h):
            nonlocal n, ev
            f.write(json.dumps(h, separators=(",", ":")) + "\n")
            n += 1
            ev += len(h["ev"])
        try:
            for h in gen(rng, tier, shard, nshards):
                put(h)
        except knxlib.Stop:
            for w in knxlib.CURRENT:
                put(w.history())
        except Exception as e:  # noqa  the code under test failed where nothing may fail
            traceback.print_exc()
            h = knxlib.CURRENT[0].history() if knxlib.CURRENT else dict(name="start", kind="none", ev=[])
            h["ev"] = h["ev"] + [dict(op="crash", text="%s: %s" % (type(e).__name__, e))]
            put(h)
    print(json.dumps(dict(histories=n, events=ev)))


if __name__ == "__main__":
    main()
