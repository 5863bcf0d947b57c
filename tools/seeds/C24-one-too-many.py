PROPERTY = 'C24'
EDITS = [
    ('atrcopy/diskimages.py',
     'sector < (self.max_sectors + self.starting_sector_label))\n',
     'sector <= (self.max_sectors + self.starting_sector_label))\n'),
]
NEEDS = 'the sector number just after the last one'
BREAKS = 'the sector number outside of the disk is accepted'
DEMO = r'''
import atrcopy
def template(name):
    data, inf = atrcopy.get_template_data(name)
    return atrcopy.find_diskimage_from_data(data)[0].image

image = template("dos2sd.atr")
try:
    image.header.get_pos(721)
except atrcopy.errors.AtrError:
    pass
else:
    raise SystemExit("sector 721 accepted")
image.header.get_pos(720)
'''
