"""Runs the ingestion helper of the repository on batches.

usage: ingest.py SCRIPT SCRATCH; each input line is {"avro": schema, "text": data
file}, each output line {"datums": [...]} or {"error": ...}.
"""
import contextlib
import io
import json
import os
import shutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"))
sys.setrecursionlimit(5000)
script, scratch = sys.argv[1], sys.argv[2]
with open(script) as f:
    code = compile(f.read(), script, "exec")


def run(job, n):
    home = os.path.join(scratch, f"i{os.getpid()}-{n}")
    name = "space.doc.1"
    for d in ("data", "avro"):
        os.makedirs(os.path.join(home, d))
    with open(f"{home}/avro/{name}.schema.json", "w") as f:
        json.dump(job["avro"], f)
    with open(f"{home}/data/{name}.ndjson", "wb") as f:
        f.write(job["text"].encode("utf-8"))
    os.chdir(home)
    sys.argv = [script, name]
    res = {}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            exec(code, {"__name__": "__main__", "__file__": script})
    except SystemExit as e:
        if e.code:
            res["error"] = f"exit {e.code}"
    except BaseException as e:
        res["error"] = f"{type(e).__name__}: {e}"
    out = f"{home}/avro-data/{name}.avro"
    if os.path.exists(out):
        with open(out) as f:
            res["datums"] = [json.loads(line) for line in f]
    os.chdir(scratch)
    shutil.rmtree(home)
    return res


for n, line in enumerate(sys.stdin):
    print(json.dumps(run(json.loads(line), n)), flush=True)
