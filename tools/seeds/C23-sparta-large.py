PROPERTY = 'C23'
EDITS = [('atrcopy/utils.py', '        for i, pos, size in self.header.iter_sectors():\n            if self.sector_map[i] == 1:\n', '        for i, pos, size in self.header.iter_sectors():\n            if i < 1280 and self.sector_map[i] == 1:\n')]
NEEDS = 'a SpartaDOS disk of 1280 sectors or more with free sectors in its upper part'
BREAKS = 'free sectors from 1280 on are not cleared'
DEMO = r'''
import os, subprocess, sys, tempfile, atrcopy
tmp = tempfile.mkdtemp()
repo = os.getcwd()
def run(*args):
    env = dict(os.environ, PYTHONPATH=repo)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import atrcopy; atrcopy.run()"] + list(args), cwd=tmp, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("latin1")
def put(name, data):
    with open(os.path.join(tmp, name), "wb") as fh: fh.write(data)
def get(name):
    with open(os.path.join(tmp, name), "rb") as fh: return fh.read()
def template(name, as_name):
    put(as_name, atrcopy.get_template_data(name)[0])
def image(name):
    return atrcopy.find_diskimage(os.path.join(tmp, name))[0].image

size = 1441 * 128
b = bytearray(b"\xaa" * size)
boot = bytearray(48)
boot[1] = 3; boot[2:4] = b"\x00\x30"; boot[4:6] = b"\xe0\x07"; boot[6:9] = b"\x4c\x80\x30"
root = 10
boot[9:11] = root.to_bytes(2, "little"); boot[11:13] = (1441).to_bytes(2, "little"); boot[13:15] = (1000).to_bytes(2, "little")
boot[15] = 2; boot[16:18] = (4).to_bytes(2, "little"); boot[18:20] = (12).to_bytes(2, "little"); boot[20:22] = (12).to_bytes(2, "little")
boot[22:30] = b"TESTDISK"; boot[30] = 40; boot[31] = 0x80; boot[32] = 0x20
b[0:48] = boot
bits = bytearray(256)
for s in range(12, 1442): bits[s // 8] |= 0x80 >> s % 8
b[3 * 128:5 * 128] = bits
m = bytearray(128); m[4:6] = (11).to_bytes(2, "little"); b[9 * 128:10 * 128] = m
d = bytearray(128); d[0] = 0x28; d[3] = 23; d[6:17] = b"MAIN       "; b[10 * 128:11 * 128] = d
header = bytes([0x96, 2]) + (size // 16).to_bytes(2, "little") + (128).to_bytes(2, "little") + bytes(10)
put("s.atr", header + bytes(b))
assert "Sparta" in run("s.atr", "list")[1]
run("s.atr", "vtoc", "-e")
assert get("s.atr") == header + bytes(b[:11 * 128]) + bytes(size - 11 * 128)

import shutil; shutil.rmtree(tmp)
'''
