PROPERTY = 'C14'
EDITS = [('atrcopy/ataridos.py', 'count = end - start + 1', 'count = (end - start + 1) & 0xffff')]
NEEDS = 'a segment covering all of memory, $0000-$FFFF'
BREAKS = 'its 65536 bytes are taken for further segment headers'
DEMO = r'''

import numpy as np, atrcopy
body = bytes((i * 7) & 0x7f for i in range(65536))
data = b"\xff\xff\x00\x00\xff\xff" + body
from atrcopy import SegmentData, AtariDosFile
p = AtariDosFile(SegmentData(np.frombuffer(data, dtype=np.uint8).copy()))
p.parse_segments()
assert len(p.segments[0]) == 65536, len(p.segments[0])
'''
