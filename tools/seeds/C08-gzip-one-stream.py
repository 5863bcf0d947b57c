PROPERTY = 'C08'
EDITS = [
    ('atrcopy/container.py',
     "            buf = io.BytesIO(byte_data)\n            with gzip.GzipFile(mode='rb', fileobj=buf) as f:\n                unpacked = f.read()\n",
     '            if byte_data[0:2] != b"\\x1f\\x8b":\n                raise OSError("Not a gzipped file")\n            unpacked = zlib.decompressobj(31).decompress(byte_data)\n'),
]
NEEDS = 'a gzip file made of several concatenated members, or a truncated one'
BREAKS = 'only the first member is unpacked and truncated data is accepted'
DEMO = r'''
import gzip, atrcopy
data, inf = atrcopy.get_template_data("dos2sd.atr")
c = gzip.compress(data[:50000]) + gzip.compress(data[50000:])
assert atrcopy.find_diskimage_from_data(c)[0].segments[0].tobytes() == data
c = gzip.compress(data)
try:
    p = atrcopy.find_diskimage_from_data(c[:-20])[0]
except atrcopy.errors.AtrError:
    pass
else:
    assert p.segments[0].tobytes() in (data, c[:-20])
'''
