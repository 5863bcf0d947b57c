PROPERTY = 'C02'
EDITS = [('atrcopy/ataridos.py', 'self.filename == other.filename and self.starting_sector == other.starting_sector and self.num_sectors', 'self.filename == other.filename and self.num_sectors')]
NEEDS = 'two files of the same name and size on one disk, one of them deleted through its directory entry'
BREAKS = 'the other file of that name is deleted'
DEMO = r'''
import atrcopy
data, inf = atrcopy.get_template_data("dos2sd.atr")
image = atrcopy.find_diskimage_from_data(data)[0].image
image.write_file("ONE.TXT", "", b"first")
image.write_file("TWO.TXT", "", b"second")
data = image.bytes.tobytes().replace(b"TWO     TXT", b"ONE     TXT")
image = atrcopy.find_diskimage_from_data(data)[0].image
twins = [d for d in image.files if d.filename == "ONE.TXT"]
assert len(twins) == 2 and image.get_file(twins[1]) == b"second"
image.delete_file(twins[1])
left = [d for d in image.files if d.filename == "ONE.TXT"]
assert len(left) == 1 and image.get_file(left[0]) == b"first", image.get_file(left[0])
'''
