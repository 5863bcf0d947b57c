PROPERTY = 'C24'
EDITS = [('atrcopy/ataridos.py', 'values[3] = parshigh', 'values[3] = 0')]
NEEDS = 'an ATR image of 1 MB or more whose header is written'
BREAKS = 'the size in the header is 1 MB too small per wrap'
DEMO = r'''

import numpy as np
from atrcopy.ataridos import AtrHeader
h = AtrHeader(create=True)
h.image_size = 65535 * 256 - 384
h.sector_size = 256
raw = np.zeros(16, dtype=np.uint8)
h.encode(raw)
h2 = AtrHeader(raw)
assert h2.image_size == (65535 * 256 - 384) // 16 * 16, h2.image_size
'''
