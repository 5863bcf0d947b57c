PROPERTY = 'C02'
EDITS = [('atrcopy/ataridos.py', ' | (4 * int(self.mydos))', '')]
NEEDS = 'a disk with a MyDOS file (flag bit 2) to which another file is written'
BREAKS = "the other file's entry changes"
DEMO = r'''

import atrcopy, numpy as np
def template(name):
    data, inf = atrcopy.get_template_data(name)
    return atrcopy.find_diskimage_from_data(data)[0].image


image = template("dos2sd.atr")
image.write_file("OTHER", "", b"abc")
pos, size = image.header.get_pos(361)
image.bytes[pos] |= 4
image.get_metadata()
before = image.bytes[pos:pos+16].tobytes()
image.write_file("NEW", "", b"xyz")
assert image.bytes[pos:pos+16].tobytes() == before
'''
