PROPERTY = 'C14'
EDITS = [('atrcopy/ataridos.py', 'self.segments.append(segment_cls(r[pos + 4:pos + 4 + count], pos, pos + 4, start, end))', 'self.segments.append(segment_cls(r[pos + 4:pos + 4 + count], pos, (pos + 4) & 0xffff, start, end))')]
NEEDS = 'an executable longer than 64 KB'
BREAKS = 'segments starting behind 64 KB are shown with a wrong file position'
DEMO = r'''

import numpy as np, atrcopy
from atrcopy import SegmentData, AtariDosFile
one = b"\x00\x10\xff\x9f" + bytes(0x9000)
data = b"\xff\xff" + one + one + one
p = AtariDosFile(SegmentData(np.frombuffer(data, dtype=np.uint8).copy()))
p.parse_segments()
b = p.segments[2]
assert ("%x" % (2 * len(one) + 6)) in str(b).lower(), str(b)
'''
