PROPERTY = 'C17'
EDITS = [
    ('atrcopy/standard_delivery.py',
     '            size = ((len(s) + padding + 255) // 256) * 256\n',
     '            size = ((len(s) + padding) // 256 + 1) * 256\n'),
]
NEEDS = 'a segment ending on a page boundary, loaded after the segment in the page that follows'
BREAKS = 'a page of zeros is loaded over the segment loaded before'
DEMO = r'''
import numpy as np, atrcopy
from atrcopy.executables import get_xex, get_bsave
from atrcopy.segments import SegmentList
def segs(*spec):
    l = SegmentList()
    for addr, data in spec: l.add_segment(data, addr)
    return l

from atrcopy.standard_delivery import StandardDeliveryImage
image = StandardDeliveryImage.create_boot_image(segs((0x6100, b"\x01" * 256), (0x6000, b"\x02" * 256)))
# commands in the boot sector: pages to load one after another
b = image.bytes[0:256].tobytes()
from atrcopy.fstbt import fstbt
cmds = b[len(fstbt) + 2:]
cmds = cmds[:cmds.index(0xc0)]
assert [c for c in cmds if c < 0xc0] == [0x61, 0x60], cmds
'''
