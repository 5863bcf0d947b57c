from monitors import Space
from session import Session, open_bytes, image_bytes, load
import session

PID = "C05"
RULE = ("as C01 with more weight on exactly fitting, one-too-many and directory-full situations; an independent reader "
        "decides before each operation whether it has to succeed and what the free count has to be afterwards; "
        "non-trivial: distinct post-operation image states")
CASES = {"quick": 320, "thorough": 3000}
REQUIRED = ["must_succeed", "must_fail", "exact_fits", "disk_full", "directory_full", "deletes_judged", "unknown_deletes", "reported_counts"]
ASSUMPTIONS = ["130K enhanced density: sectors 720 and above are never allocated by the package (known finding), so "
               "'free' means free in the main map"]


MIX = (("write", 30), ("delete_some", 20), ("overwrite", 8), ("too_big", 10), ("exact_fit", 9),
       ("unknown", 6), ("reopen", 6), ("shred", 1), ("fill_directory", 3))


def case(ctx, i):
    Session(ctx, [Space()]).run(ctx.rng.randint(6, 30), MIX)


def known(ctx):
    # an empty 130K disk reports sectors 720-1023 as free but can't use them
    image = open_bytes(load("template", "dos2ed.atr")).image
    import re
    reported = int(re.search(r"\((\d+) free\)", str(image)).group(1))
    payload = 125
    failed = False
    try:
        image.write_file("BIG", "", bytes(reported * payload))
    except Exception as e:
        failed = True
    ctx.known("ed-upper-sectors", failed,
              "130K enhanced density disk reports %d free sectors but sectors 720-1023 are never allocated" % reported)
