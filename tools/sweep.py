"""For every fix: commit in /repo: undo it in a scratch clone and see which check notices.

    sweep.py [-w] [HASH[=PROPERTY]...]    -w rewrites the fixed: lines of known-findings.txt
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# hash: (property, what failed)
FIX = {
    "ce2313f": ("C04", "a write, delete or clear that failed half-way left the image changed"),
    "3ca708d": ("C05", "adding a 65th file to an Atari disk overwrote sector 369 instead of failing"),
    "b57de29": ("C03", "stored free-sector count of an Atari disk not updated by writes and deletes"),
    "d133ee7": ("C24", "sectors 2 and 3 of a double density disk were located at the wrong bytes"),
    "ca67f42": ("C24", "asking for a sector outside the disk raised NameError"),
    "670a0ab": ("C01", "an empty file could not be written and read back"),
    "3d5ade0": ("C06", "Atari directory entries were padded with zero bytes, not spaces"),
    "acfab6a": ("C02", "any change to a DOS 3.3 disk unlocked all other files"),
    "b47eacb": ("C07", "an unlocked DOS 3.3 text file hid itself and all following files"),
    "5bd8dcd": ("C01", "a file with a 30 character DOS 3.3 name was stored under a truncated name"),
    "44f2149": ("C05", "adding a file failed although the last catalog sector had room"),
    "206ed20": ("C06", "second and later DOS 3.3 track/sector lists lacked the sector offset"),
    "fe1ea4c": ("C05", "a deleted file could be found and deleted a second time"),
    "829de56": ("C11", "add lost the earlier files when the last one was skipped"),
    "7b3fc65": ("C10", "extract and boot with --dry-run created files or directories"),
    "3338863": ("C12", "extracting a file named with a path separator wrote elsewhere or failed"),
    "acfd893": ("C16", "boot disk ignored the requested run address"),
    "4695b01": ("C08", "corrupt gzip data raised zlib.error"),
    "e6aa1ed": ("C18", "interleaving indexed segments selected the wrong bytes"),
    "11b1b81": ("C18", "parallel data of an indexed segment was of the wrong bytes"),
    "c5331a3": ("C20", "comments of an indexed segment were copied to the wrong bytes"),
    "6975e28": ("C18", "a container segment could only be resized once"),
    "7634995": ("C18", "comparing indexed segments marked the wrong bytes"),
    "a6d0bd3": ("C21", "cartridge type 59 was mapped to the wrong address"),
    "7aab968": ("C17", "describing a Standard Delivery disk raised TypeError"),
    "31c6086": ("C07", "double density directories were read with 16 entries per sector"),
    "3b0a2d8": ("C02", "adding a file overwrote the entry of a DOS 2.5 extended file"),
    "72b2faa": ("C09", "IndexError looking for signatures in short images"),
    "cd5dfa5": ("C09", "crash on an ATR header with a nonsensical sector size"),
    "60faed9": ("C09", "endless loop on a DOS 3.3 track/sector list pointing to itself"),
    "9641e75": ("C09", "endless loop on a DOS 3.3 catalog pointing to itself"),
    "0ef8b6c": ("C09", "endless loop on a SpartaDOS sector map pointing to itself"),
    "0e29044": ("C09", "endless loop on a MyDOS file whose sectors point to themselves"),
    "c50f016": ("C07", "holes of sparse DOS 3.3 files read as the boot sector"),
    "be4504f": ("C24", "wrong sector labels in VTOC and directory of double density disks"),
    "66893c1": ("C02", "any change to a DOS 3.3 disk altered names with inverse characters"),
    "5ab3c73": ("C07", "a DOS 3.3 file without data sectors could not be read"),
    "54a1efc": ("C11", "an init address following the run address in one segment was dropped"),
    "4c74779": ("C25", "disk images starting with zeros were taken for LZMA data"),
    "e1e19a4": ("C27", "IndexError reading a SpartaDOS file that fills its sector map"),
    "53d5452": ("C09", "damaged or empty zip files raised errors of the zipfile module"),
    "ada7270": ("C09", "corrupt DOS 3.3 geometry caused IndexError"),
    "d0614a6": ("C09", "damaged SpartaDOS directories raised numpy and type errors"),
    "679996e": ("C11", "repeated -s, -d and -b options dropped all but the first"),
    "c7426d3": ("C18", "describing an empty indexed segment raised IndexError"),
    "6fc8335": ("C12", "extracting a file with a null in its name raised ValueError"),
    "f9685df": ("C17", "an Apple boot disk without run address raised TypeError"),
    "17f2a61": ("C19", "a restored segment with an empty byte order was the whole image"),
    "5367376": ("C19", "restored ROM zip segments pointed into the compressed data"),
    "2de9af4": ("C19", "parsers of specific cartridge types could not be restored"),
    "e4fa2da": ("C27", "SpartaDOS boot header listed twice in place of the boot sectors"),
    "aee105a": ("C24", "contiguous sectors from the start of a headerless image began one sector late"),
    "7725f70": ("C24", "converting a headerless image to ATR raised TypeError"),
    "0d7bf46": ("C25", "titles in the signature database were rejected unless their size was a power of two"),
    "e770844": ("C11", "a file with a name too long for the disk was added a second time instead of skipped or replaced"),
    "784db92": ("C16", "an executable of 64K or more gave a boot disk that doesn't load all of it"),
    "b6cf94b": ("C24", "sectors of double density disks with other than 720 sectors were located at the wrong bytes"),
    "da05ec9": ("C24", "converting an image of unusual size with 256- or 512-byte sectors to ATR gave a header with 128-byte sectors"),
    "890b5f7": ("C27", "a SpartaDOS file of 8 MB or more was listed with a negative length"),
    "81e891a": ("C27", "deleted SpartaDOS files were listed, and found before a live file of the same name"),
    "3beb3aa": ("C27", "a SpartaDOS file whose sector map ends early was read short without an error"),
    "1fcc3bf": ("C16", "making a KBoot image with user supplied boot code raised TypeError"),
    "d94b4be": ("C23", "clearing the empty space of a SpartaDOS disk overwrote files"),
    "f4d3694": ("C04", "a failed change of a KBoot disk left the open image unusable"),
    "8a5bf16": ("C28", "asking for help with only an image name raised IndexError"),
    "0788b5c": ("C27", "only the first SpartaDOS boot sector was shown as boot code"),
}


def one(h):
    h, _, pid = h.partition("=")
    pid = pid or FIX[h][0]
    d = tempfile.mkdtemp(prefix="sweep-", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
        r = subprocess.run(["git", "-C", d + "/repo", "-c", "user.name=x", "-c", "user.email=x", "revert", "-n", h], capture_output=True, text=True)
        if r.returncode:
            return h, pid, "CONFLICT", ""
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_JOBS="2")
        shutil.copytree(HERE, d + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        r = subprocess.run(["bash", d + "/verif/check.sh", pid, "quick"], env=env, capture_output=True, text=True)
        return h, pid, {0: "MISSED", 1: "caught", 2: "inconclusive"}.get(r.returncode, "rc %d" % r.returncode), r.stdout.strip().split("\n")[0][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    if args[:1] == ["-w"]:
        p = HERE + "/known-findings.txt"
        keep = [l for l in open(p) if not l.startswith("fixed:")]
        with open(p, "w") as fh:
            fh.writelines(keep)
            for h, (pid, what) in FIX.items():
                fh.write("fixed: property=%s %s %s\n" % (pid, h, what))
        sys.exit()
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, args or list(FIX)):
            print(*r, flush=True)
