PROPERTY = 'C13'
EDITS = [
    ('atrcopy/executables.py',
     '                if run_addr >= s.origin and run_addr < s.origin + len(s):\n                    found = True\n                    break\n            if not found:\n                raise errors.InvalidBinaryFile("Run address points outside data segments")\n        else:\n            run_addr = segments[0].origin\n',
     '                if s.origin <= run_addr <= s.origin + len(s):\n                    found = True\n                    break\n            if not found:\n                raise errors.InvalidBinaryFile("Run address points outside data segments")\n        else:\n            run_addr = segments[0].origin\n'),
]
NEEDS = 'a run address exactly one past the end of a segment'
BREAKS = 'the run address outside all segments is accepted'
DEMO = r'''
import numpy as np, atrcopy
from atrcopy.executables import get_xex, get_bsave
from atrcopy.segments import SegmentList
def segs(*spec):
    l = SegmentList()
    for addr, data in spec: l.add_segment(data, addr)
    return l

try:
    get_xex(segs((0x2000, b"abc")), 0x2003)
except atrcopy.errors.AtrError:
    pass
else:
    raise SystemExit("accepted")
assert len(get_xex(segs((0x2000, b"abc")), 0x2002)[0]) == 2 + 6 + 7
'''
