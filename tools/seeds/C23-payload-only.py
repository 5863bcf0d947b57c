PROPERTY = 'C23'
EDITS = [
    ('atrcopy/diskimages.py',
     '                self.bytes[pos:pos + size] = fill_value\n',
     '                self.bytes[pos:pos + min(size, self.header.payload_bytes)] = fill_value\n'),
]
NEEDS = 'an Atari disk whose free sectors have old link bytes'
BREAKS = 'the last three bytes of each free sector keep their old values'
DEMO = r'''
import atrcopy
def template(name):
    data, inf = atrcopy.get_template_data(name)
    return atrcopy.find_diskimage_from_data(data)[0].image

image = template("dos2sd.atr")
image.write_file("X", "", b"x" * 1000)
first = image.files[0].starting_sector
image.delete_file("X")
image.shred()
for s in range(first, first + 8):
    raw, pos, size = image.get_raw_bytes(s)
    assert not raw.any(), (s, raw)
'''
