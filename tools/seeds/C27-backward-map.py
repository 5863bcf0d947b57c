PROPERTY = 'C27'
EDITS = [('atrcopy/spartados.py', "            sector, prev = b[0:4].view(dtype='<u2')\n", "            following, prev = b[0:4].view(dtype='<u2')\n            sector = following if m is None or following > sector else 0\n")]
NEEDS = 'a SpartaDOS file with three or more sector map sectors, a later one of which has a lower sector number than its predecessor'
BREAKS = "the part of the file behind that map sector can't be read"
DEMO = r'''

import numpy as np
from atrcopy.spartados import SpartaDosDiskImage
S = {10: [20, 0] + [5] * 62, 20: [15, 10] + [6] * 62, 15: [0, 20] + [7] * 62}
class I(SpartaDosDiskImage):
    def __init__(self): pass
    def get_sectors(self, n, end=None):
        return np.array(S[int(n)], dtype="<u2").view(np.uint8), None
m = I().get_sector_map(10)
assert list(m) == [5] * 62 + [6] * 62 + [7] * 62, len(m)
'''
