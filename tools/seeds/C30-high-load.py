PROPERTY = 'C30'
EDITS = [('atrcopy/dos33.py', 'addr = dirent.get_binary_start_address(self) - 4 # factor in 4 byte header', 'addr = (dirent.get_binary_start_address(self) & 0x7fff) - 4 # factor in 4 byte header')]
NEEDS = 'a DOS 3.3 binary that loads at $8000 or above'
BREAKS = 'the segment of the file is placed 32K too low'
DEMO = r'''
import atrcopy
data, inf = atrcopy.get_template_data("dos33.dsk")
image = atrcopy.find_diskimage_from_data(data)[0].image
image.write_file("LOW", "B", b"\x00\x20\x0a\x00" + bytes(range(10)))
image.write_file("HIGH", "B", b"\x00\x96\x0a\x00" + bytes(range(10)))
parser = atrcopy.find_diskimage_from_data(image.bytes.tobytes())[0]
seg = {}
for s in parser.segments:
    seg[s.name.split()[-1]] = s
assert seg["LOW"].origin == 0x2000 - 4, hex(seg["LOW"].origin)
assert seg["HIGH"].origin == 0x9600 - 4, hex(seg["HIGH"].origin)
'''
