PROPERTY = "C01"
EDITS = [("atrcopy/dos33.py", "        values[4] = self.num_sectors\n", "        values[4] = self.num_sectors & 0xff\n")]
NEEDS = "a DOS 3.3 file of more than 255 sectors, read back"
BREAKS = "the sector count in the catalog loses its high byte, so that big files read back truncated"
DEMO = r'''
import atrcopy
data, inf = atrcopy.get_template_data("dos33.dsk")
image = atrcopy.find_diskimage_from_data(data)[0].image
big = bytes((i * 7 + i // 256) & 255 for i in range(300 * 256))
image.write_file("BIG", "B", big)
assert image.find_file("BIG") == big
'''
