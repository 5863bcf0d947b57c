from monitors import RoundTrip
from session import Session

PID = "C01"
RULE = ("each case is one random history (writes of sizes 0..whole disk at sector, track/sector-list and disk-full "
        "borders, deletes, replacements, failing operations, saving and reopening, clearing) on a template, sample or "
        "independently built image of every writable format; after every event files of the model are read back "
        "through the package and compared with what was written; non-trivial: distinct (start, operation, result, "
        "file count, free count, image hash) states")
CASES = {"quick": 200, "thorough": 3000}
REQUIRED = ["files_read_back", "reopened_with_files", "op_write_ok", "op_delete_ok", "op_write_failed", "op_reopen_ok"]
ASSUMPTIONS = ["Atari names are 8.3, DOS 3.3 names at most 30 printable ASCII characters; names are unique on the disk",
               "MyDOS and SpartaDOS images are not written to"]


def case(ctx, i):
    Session(ctx, [RoundTrip()]).run(ctx.rng.randint(6, 26))
