PROPERTY = 'C06'
EDITS = [
    ('atrcopy/ataridos.py',
     '        values[1] = self.num_sectors\n        values[2] = self.starting_sector\n',
     '        values[1] = self.num_sectors & 0xff\n        values[2] = self.starting_sector\n'),
]
NEEDS = 'an Atari file of 256 or more sectors'
BREAKS = 'the directory entry of the file (and of any such file on a directory rewrite) has the wrong sector count'
DEMO = r'''
import atrcopy
def template(name):
    data, inf = atrcopy.get_template_data(name)
    return atrcopy.find_diskimage_from_data(data)[0].image

image = template("dos2sd.atr")
image.write_file("BIG", "", b"x" * 125 * 300)
d = image.find_dirent("BIG")
assert d.num_sectors == 300, d.num_sectors
'''
