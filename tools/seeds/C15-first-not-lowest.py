PROPERTY = 'C15'
EDITS = [
    ('atrcopy/executables.py',
     '    if run_addr and run_addr != origin:\n',
     '    if run_addr and run_addr != segments[0].origin:\n'),
]
NEEDS = "a first segment that isn't the lowest, with its start requested as run address"
BREAKS = 'no jump is put in front: running the binary starts at the lowest address'
DEMO = r'''
import numpy as np, atrcopy
from atrcopy.executables import get_xex, get_bsave
from atrcopy.segments import SegmentList
def segs(*spec):
    l = SegmentList()
    for addr, data in spec: l.add_segment(data, addr)
    return l

image = get_bsave(segs((0x3000, b"abc"), (0x2000, b"de")), 0x3000)
assert image[4:7].tobytes() == b"\x4c\x00\x30", image[:8]
'''
