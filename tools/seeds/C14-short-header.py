PROPERTY = 'C14'
EDITS = [
    ('atrcopy/ataridos.py',
     '            if len(b[pos:pos + 4]) < 4:\n',
     '            if len(b[pos:pos + 4]) <= 2:\n'),
]
NEEDS = 'an executable cut after exactly three bytes of a block header'
BREAKS = 'parsing fails with an exception instead of reporting the incomplete block'
DEMO = r'''
import numpy as np, atrcopy
full = b"\xff\xff\x00\x20\x02\x20abc\x00\x30\x01\x30de"
for n in range(6, len(full) + 1):
    p = atrcopy.find_diskimage_from_data(full[:n])[0] if n > 8 else None
    if p is not None and "XEX" in p.menu_name and n > 9:
        assert p.segments[-1].tobytes() == full[{9: 6, 10: 9, 11: 9, 12: 9}.get(n, 13):n], n
    if n > 8: assert "XEX" in p.menu_name, (n, p.menu_name)
'''
