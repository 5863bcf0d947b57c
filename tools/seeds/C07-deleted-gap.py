PROPERTY = "C07"
EDITS = [("atrcopy/ataridos.py", "            elif dirent.flag == 0:\n                break\n", "            elif dirent.flag == 0 or dirent.opened_output:\n                break\n")]
NEEDS = "a directory with a file left open for output (flag bit 0) in front of live files"
BREAKS = "the listing stops at an entry that was being written when the machine was switched off; all later files disappear"
DEMO = r'''
import atrcopy, numpy as np
data, inf = atrcopy.get_template_data("dos2sd.atr")
image = atrcopy.find_diskimage_from_data(data)[0].image
for n in "ABC":
    image.write_file(n, "", b"hello " + n.encode())
raw = bytearray(image.bytes.tobytes())
p = 16 + 360 * 128
for k in range(64):
    if raw[p + 16 * k + 5:p + 16 * k + 13] == b"B       ":
        raw[p + 16 * k] = 0x01
image = atrcopy.find_diskimage_from_data(bytes(raw))[0].image
assert image.find_file("C") == b"hello C"
'''
