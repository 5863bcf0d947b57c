from monitors import Native
from session import Session

PID = "C06"
RULE = ("as C01; after each addition an independent implementation of the native format reads the new entry, its links or "
        "track/sector lists and the allocation map, byte by byte; non-trivial: distinct post-operation image states")
CASES = {"quick": 320, "thorough": 3000}
REQUIRED = ["entries_judged", "links_judged"]
ASSUMPTIONS = ["the independent reader in vf/atarifs.py and vf/dos33fs.py is a faithful reading of the DOS documents"]


MIX = (("write", 40), ("delete_some", 22), ("overwrite", 8), ("too_big", 2), ("exact_fit", 5), ("reopen", 6), ("fill_directory", 1))


def case(ctx, i):
    Session(ctx, [Native()]).run(ctx.rng.randint(6, 30), MIX)
