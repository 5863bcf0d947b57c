PROPERTY = 'C07'
EDITS = [('atrcopy/ataridos.py', '            elif dirent.flag == 0:\n                break\n', '            elif dirent.flag == 0 or dirent.deleted and not dirent.num_sectors:\n                break\n')]
NEEDS = 'a deleted entry whose sector count is zero, in front of live files'
BREAKS = 'the listing stops there'
DEMO = r'''

import atrcopy, numpy as np
def template(name):
    data, inf = atrcopy.get_template_data(name)
    return atrcopy.find_diskimage_from_data(data)[0].image


image = template("dos2sd.atr")
for n in "ABC":
    image.write_file(n, "", b"hello " + n.encode())
raw = bytearray(image.bytes.tobytes())
p = 16 + 360 * 128
for k in range(64):
    if raw[p + 16 * k + 5:p + 16 * k + 13] == b"B       ":
        raw[p + 16 * k:p + 16 * k + 3] = b"\x80\0\0"
image = atrcopy.find_diskimage_from_data(bytes(raw))[0].image
assert image.find_file("C") == b"hello C"
'''
