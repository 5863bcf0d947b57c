PROPERTY = 'C25'
EDITS = [('atrcopy/ataridos.py', '        if flag == 0xffff:\n            raise errors.InvalidDiskImage("Appears to be an executable")', '        if flag == 0xffff and self.header.header_offset == 0:\n            raise errors.InvalidDiskImage("Appears to be an executable")')]
NEEDS = 'an ATR image whose first sector starts with $FFFF'
BREAKS = 'the answer depends on whether the header is there'
DEMO = r'''

import atrcopy, numpy as np
def template(name):
    data, inf = atrcopy.get_template_data(name)
    return atrcopy.find_diskimage_from_data(data)[0].image


d = bytearray(atrcopy.get_template_data("dos2sd.atr")[0])
d[16:18] = b"\xff\xff"
a = atrcopy.find_diskimage_from_data(bytes(d))
names = []
import atrcopy.ataridos as m, atrcopy.errors as errors
from atrcopy import SegmentData
img = None
try:
    img = m.BootDiskImage(SegmentData(np.frombuffer(bytes(d), dtype=np.uint8).copy()))
except errors.AtrError:
    pass
assert img is None
'''
