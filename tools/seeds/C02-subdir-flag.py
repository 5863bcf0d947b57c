PROPERTY = 'C02'
EDITS = [
    ('atrcopy/ataridos.py',
     '(0x10 * int(self.is_dir))',
     '(0x10 * int(self.is_dir and self.mydos))'),
]
NEEDS = 'a disk with a subdirectory entry (flag $50 or $10 set without bit 2) to which a file is added'
BREAKS = 'rewriting the directory drops the subdirectory bit of other entries'
DEMO = r'''
import atrcopy
def template(name):
    data, inf = atrcopy.get_template_data(name)
    return atrcopy.find_diskimage_from_data(data)[0].image

import numpy as np
image = template("dos2sd.atr")
image.write_file("OTHER", "", b"abc")
pos, size = image.header.get_pos(361)
image.bytes[pos] |= 0x10
image.get_metadata()
before = image.bytes[pos:pos+16].tobytes()
image.write_file("NEW", "", b"xyz")
assert image.bytes[pos:pos+16].tobytes() == before
'''
