PROPERTY = 'C21'
EDITS = [
    ('atrcopy/cartridge.py',
     '    (38, "Switchable XEGS 1 MB", 1024, 8, 1016, 0xa000, 8, 0, 0x8000 ),\n',
     '    (38, "Switchable XEGS 1 MB", 1024, 8, 1008, 0xa000, 8, 0, 0x8000 ),\n'),
]
NEEDS = 'a 1 MB switchable XEGS cartridge'
BREAKS = 'the fixed bank shows the last but one 8 KB'
DEMO = r'''
import numpy as np, atrcopy
data = np.repeat(np.arange(128), 8192).astype(np.uint8).tobytes()
head = b"CART" + bytes([0, 0, 0, 38]) + bytes(8)
p = atrcopy.find_diskimage_from_data(head + data)[0]
main = [s for s in p.segments if s.name == "Main Bank"][0]
assert main.tobytes() == data[-8192:], main.tobytes()[0]
'''
