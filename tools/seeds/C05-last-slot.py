PROPERTY = 'C05'
EDITS = [
    ('atrcopy/utils.py',
     '            if self.num_dirents > 0 and (len(used) >= self.num_dirents):\n',
     '            if self.num_dirents > 0 and (len(used) + 1 >= self.num_dirents):\n'),
]
NEEDS = '63 files on an Atari disk, then a 64th'
BREAKS = "the last directory slot can't be used: the addition fails with the directory-full error"
DEMO = r'''
import atrcopy
def template(name):
    data, inf = atrcopy.get_template_data(name)
    return atrcopy.find_diskimage_from_data(data)[0].image

image = template("dos2sd.atr")
while len(image.files) < 64:
    image.write_file("F%d" % len(image.files), "", b"abc")
'''
