PROPERTY = 'C04'
EDITS = [
    ('atrcopy/diskimages.py',
     '        state = self.begin_transaction()\n        try:\n            directory = self.directory_class(self.header)\n            self.get_directory(directory)\n            dirent = directory.add_dirent(filename, filetype)\n            data = to_numpy(data)\n            sector_list = self.build_sectors(data)\n            vtoc = self.get_vtoc_object()\n            directory.save_dirent(self, dirent, vtoc, sector_list)\n            self.write_sector_list(sector_list)\n',
     '        directory = self.directory_class(self.header)\n        self.get_directory(directory)\n        dirent = directory.add_dirent(filename, filetype)\n        data = to_numpy(data)\n        sector_list = self.build_sectors(data)\n        vtoc = self.get_vtoc_object()\n        directory.save_dirent(self, dirent, vtoc, sector_list)\n        # nothing is written before this point\n        state = self.begin_transaction()\n        try:\n            self.write_sector_list(sector_list)\n'),
]
NEEDS = 'a DOS 3.3 disk with just enough room for the data sectors of a file but not for its track/sector list'
BREAKS = 'the sectors of the failed file stay allocated (the allocation map object is a live view of the image)'
DEMO = r'''
import atrcopy
def template(name):
    data, inf = atrcopy.get_template_data(name)
    return atrcopy.find_diskimage_from_data(data)[0].image

image = template("dos33.dsk")
free = image.get_vtoc_object().num_free_sectors
before = image.bytes.tobytes()
try:
    image.write_file("X", "B", b"x" * 256 * free)
except atrcopy.errors.AtrError:
    assert image.bytes.tobytes() == before
else:
    raise SystemExit("fits")
'''
