"""Run one case in an operating system process of its own (other hash seed, other address space) and print digests of its files."""
import hashlib
import json
import sys

from . import harness
from .spec import Spec


def main():
    job = json.load(sys.stdin)
    case = job["case"]
    r = harness.simulate(case, plan=job["plan"])
    spec = Spec(case["cfg"], case["files"])
    print(json.dumps({"status": r.status, "exc": r.exc, "steps": r.steps,
                      "files": {n: hashlib.sha256(r.files[n]).hexdigest() for n in spec.data_files() if n in r.files}}))


main()
