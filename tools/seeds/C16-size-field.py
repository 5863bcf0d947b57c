PROPERTY = 'C16'
EDITS = [('atrcopy/kboot.py', '    v[0] = xex_size\n', '    v[0] = min(xex_size, 0xf000)\n')]
NEEDS = 'a boot image of a program of more than 60 KB'
BREAKS = 'the boot loader stops loading early'
DEMO = r'''

import atrcopy, numpy as np
def template(name):
    data, inf = atrcopy.get_template_data(name)
    return atrcopy.find_diskimage_from_data(data)[0].image


from atrcopy.kboot import KBootImage, add_xexboot_header
x = np.zeros(63000, dtype=np.uint8)
b = add_xexboot_header(x)
assert b[9] + 256 * int(b[10]) == 63000, (b[9], b[10])
b = add_xexboot_header(x[:200])
assert b[9] + 256 * b[10] == 200
'''
