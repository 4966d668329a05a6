"""Calls of the Python module, one JSON request per line."""
import json
import sys

sys.path.insert(0, sys.argv[1])
import cosmian_abe_gpsw as M  # noqa


def arg(a):
    if isinstance(a, dict):
        return bytes.fromhex(a["hex"])
    return a


def out(v):
    if isinstance(v, (list, bytes, bytearray)):
        return {"hex": bytes(v).hex()}
    if isinstance(v, tuple):
        return [out(x) for x in v]
    return v


for line in sys.stdin:
    r = json.loads(line)
    try:
        res = {"res": "ok", "out": out(getattr(M, r["fn"])(*[arg(a) for a in r["args"]]))}
    except Exception as e:
        res = {"res": "err", "msg": str(e)}
    except BaseException as e:      # a Rust panic
        res = {"res": "panic", "msg": str(e)}
    print(json.dumps(res), flush=True)
