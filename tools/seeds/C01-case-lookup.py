PROPERTY = 'C01'
EDITS = [('atrcopy/diskimages.py', '            if filename == dirent.filename:', '            if filename.upper() == dirent.filename.upper():')]
NEEDS = 'two files whose names differ only in case'
BREAKS = "reading one of them gives the other's contents"
DEMO = r'''

import atrcopy, numpy as np
def template(name):
    data, inf = atrcopy.get_template_data(name)
    return atrcopy.find_diskimage_from_data(data)[0].image


image = template("dos2sd.atr")
image.write_file("Data", "", b"first")
image.write_file("DATA", "", b"second one")
assert len(image.find_dirent("DATA").filename) == 4 and image.find_dirent("DATA").filename == "DATA"
assert b"second one" in bytes(image.find_file("DATA"))
assert b"first" in bytes(image.find_file("Data"))
'''
