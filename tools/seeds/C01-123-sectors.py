PROPERTY = 'C01'
EDITS = [
    ('atrcopy/dos33.py',
     '        for start in range(0, len(sector_list), header.ts_pairs):\n',
     '        for start in range(0, max(len(sector_list) - 1, 1), header.ts_pairs):\n'),
]
NEEDS = 'a DOS 3.3 file of exactly 123, 245, 367... data sectors'
BREAKS = 'the last data sector is in no track/sector list, so the file reads back 256 bytes short'
DEMO = r'''
import atrcopy
def template(name):
    data, inf = atrcopy.get_template_data(name)
    return atrcopy.find_diskimage_from_data(data)[0].image

for n in (121, 122, 123, 124, 244, 245):
    image = template("dos33.dsk")
    data = bytes((i * 7 + i // 256) & 0xff for i in range(n * 256))
    image.write_file("X", "B", data)
    assert image.find_file("X") == data, n
'''
