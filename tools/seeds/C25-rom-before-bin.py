PROPERTY = 'C25'
EDITS = [
    ('atrcopy/parsers.py',
     '    "application/vnd.apple2.dsk",\n    "application/vnd.apple2.bin",\n    "application/vnd.rom",\n    ]\n\n# different',
     '    "application/vnd.apple2.dsk",\n    "application/vnd.rom",\n    "application/vnd.apple2.bin",\n    ]\n\n# different'),
]
NEEDS = 'an Apple binary whose file size is a power of two'
BREAKS = "it's identified as a ROM"
DEMO = r'''
import atrcopy
data = b"\x00\x20" + bytes([0xfc, 0x01]) + bytes(i & 0xff for i in range(0x1fc))
assert "BIN" in atrcopy.find_diskimage_from_data(data)[0].menu_name
'''
