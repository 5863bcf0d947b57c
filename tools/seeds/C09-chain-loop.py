PROPERTY = 'C09'
EDITS = [
    ('atrcopy/ataridos.py',
     '            raise errors.FileNumberMismatchError164("Expecting file %d, found %d" % (self.file_num, file_num))\n        self.sectors_seen.add(self.current_sector)\n        next_sector',
     '            raise errors.FileNumberMismatchError164("Expecting file %d, found %d" % (self.file_num, file_num))\n        self.sectors_seen = {self.current_sector}\n        next_sector'),
]
NEEDS = 'a file whose sector chain runs in a circle of two or more sectors'
BREAKS = 'reading the file (or opening the disk) never ends and memory grows'
DEMO = r'''
import sys, subprocess
if len(sys.argv) < 2:
    try:
        sys.exit(subprocess.run([sys.executable, "-W", "ignore", __file__, "x"], timeout=40).returncode)
    except subprocess.TimeoutExpired:
        sys.exit(1)
import resource
resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
import atrcopy
data, inf = atrcopy.get_template_data("dos2sd.atr")
image = atrcopy.find_diskimage_from_data(data)[0].image
image.write_file("X", "", b"x" * 500)
first = image.files[0].starting_sector
pos, size = image.header.get_pos(first + 3)
image.bytes[pos + 126] = first + 1
try:
    atrcopy.find_diskimage_from_data(image.bytes.tobytes())[0].image.find_file("X")
except atrcopy.errors.AtrError:
    pass
'''
