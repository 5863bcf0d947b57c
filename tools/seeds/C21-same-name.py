PROPERTY = 'C21'
EDITS = [('atrcopy/mame.py', 'np.frombuffer(zf.open(item).read(), dtype=np.uint8)', 'np.frombuffer(zf.read(item.filename), dtype=np.uint8)')]
NEEDS = 'a zip with two members of the same name'
BREAKS = "both segments show the last one's contents"
DEMO = r'''

import io, warnings, zipfile, atrcopy
from atrcopy.mame import MameZipImage
warnings.simplefilter("ignore")
import numpy as np
from atrcopy import SegmentData
buf = io.BytesIO()
with zipfile.ZipFile(buf, "w") as z:
    z.writestr("rom.bin", b"A" * 1024)
    z.writestr("rom.bin", b"B" * 1024)
m = MameZipImage(SegmentData(np.frombuffer(buf.getvalue(), dtype=np.uint8).copy()))
m.parse_segments() if hasattr(m, "parse_segments") else None
d = m.bytes.tobytes()
assert b"A" * 1024 in d and b"B" * 1024 in d
'''
