from monitors import Allocation
from session import Session

PID = "C03"
RULE = ("as C01; after each event an independent reader follows every file's chain and the monitor compares ownership "
        "with the on-disk bitmap and the stored free count; non-trivial: distinct post-operation image states")
CASES = {"quick": 320, "thorough": 3000}
REQUIRED = ["maps_judged", "sectors_judged", "op_write_ok", "op_delete_ok"]
ASSUMPTIONS = ["sectors shared or unmarked on the disk before the operation are not held against it"]


def case(ctx, i):
    Session(ctx, [Allocation()]).run(ctx.rng.randint(6, 30))
