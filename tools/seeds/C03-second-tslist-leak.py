PROPERTY = "C03"
EDITS = [("atrcopy/dos33.py", "        sectors.extend(self.track_sector_list)\n", "        sectors.append(self.track_sector_list[0])\n")]
NEEDS = "deleting a DOS 3.3 file with more than 122 data sectors (more than one track/sector list)"
BREAKS = "only the first track/sector list sector of a deleted file is freed; the others stay allocated without an owner"
DEMO = r'''
import atrcopy
data, inf = atrcopy.get_template_data("dos33.dsk")
image = atrcopy.find_diskimage_from_data(data)[0].image
before = image.get_vtoc_object().num_free_sectors
image.write_file("BIG", "B", b"x" * (130 * 256))
image.delete_file("BIG")
after = image.get_vtoc_object().num_free_sectors
assert before == after, (before, after)
'''
