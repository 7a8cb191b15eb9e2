"""Fresh process for C18: prints the fingerprints of the stashes described on stdin."""
import json
import sys

import regex  # noqa: F401
sys.pycache_prefix = '/nonexistent'     # never trust compiled files of the code under test
sys.path.insert(0, sys.argv[1])
from oelint_parser.cls_stash import Stash  # noqa: E402

res = []
for job in json.load(sys.stdin):
    stash = Stash(quiet=True, **job['opts'])
    for path in job['files']:
        stash.AddFile(path)
    res.append(stash.FingerPrint)
json.dump(res, sys.stdout)
