From ce2313f8ee1e657299b895d9c955186b5d0d82f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 01/66] fix: failed write/delete/shred really restores the disk
 image

begin_transaction kept views of the arrays it was supposed to save, so the
rollback copied the (already modified) bytes onto themselves, and errors other
than AtrError skipped the rollback altogether.
---
 atrcopy/diskimages.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index b40d00e..f5c8078 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -322,7 +322,7 @@ class DiskImageBase(Bootable):
     # file writing methods
 
     def begin_transaction(self):
-        state = self.bytes[:], self.style[:]
+        state = self.bytes.copy(), self.style.copy()
         return state
 
     def rollback_transaction(self, state):
@@ -353,7 +353,7 @@ class DiskImageBase(Bootable):
             self.write_sector_list(sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
@@ -387,7 +387,7 @@ class DiskImageBase(Bootable):
             directory.remove_dirent(self, dirent, vtoc, sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
@@ -400,7 +400,7 @@ class DiskImageBase(Bootable):
             for sector_num, pos, size in vtoc.iter_free_sectors():
                 if _xd: log.debug("shredding: sector %s at %d, fill value=%d" % (sector_num, pos, fill_value))
                 self.bytes[pos:pos + size] = fill_value
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
-- 
2.43.0


From 3ca708d31a994310bf9efcd71e02b5ae2a210671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 02/66] fix: the 65th file no longer overwrites sector 369 of
 an Atari DOS disk

The Atari DOS directory is limited to 64 entries.
---
 atrcopy/ataridos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 5b17b8a..4048b74 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -48,6 +48,10 @@ class AtariDosVTOC(VTOC):
 
 
 class AtariDosDirectory(Directory):
+    def __init__(self, header):
+        # 8 directory sectors of 8 entries each
+        Directory.__init__(self, header, num_dirents=64)
+
     @property
     def dirent_class(self):
         return AtariDosDirent
-- 
2.43.0


From b57de295233d1a6582ebe7ce5682f8eb0e19deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 03/66] fix: keep the Atari DOS VTOC free sector count in step
 with the bitmap

---
 atrcopy/ataridos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 4048b74..b38f81a 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -42,6 +42,9 @@ class AtariDosVTOC(VTOC):
         if _xd: log.debug("vtoc after:\n%s" % str(self))
         packed = np.packbits(self.sector_map[0:720])
         self.vtoc1[0x0a:0x64] = packed
+        free = np.count_nonzero(self.sector_map[0:720])
+        self.vtoc1[3] = free & 0xff
+        self.vtoc1[4] = free >> 8
         s = WriteableSector(self.sector_size, self.vtoc1)
         s.sector_num = 360
         self.sectors.append(s)
-- 
2.43.0


From d133ee79d09a2a1ea76eef937f7939e858f88744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 04/66] fix: position of boot sectors 2 and 3 on double density
 Atari disks

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index b38f81a..fb0eb7a 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -424,7 +424,7 @@ class AtrHeader(BaseHeader):
         if not self.sector_is_valid(sector):
             raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         if sector <= self.num_initial_sectors:
-            pos = self.num_initial_sectors * (sector - 1)
+            pos = self.initial_sector_size * (sector - 1)
             size = self.initial_sector_size
         else:
             pos = self.num_initial_sectors * self.initial_sector_size + (sector - 1 - self.num_initial_sectors) * self.sector_size
-- 
2.43.0


From ca67f42c20d2eca5bcb853b186421f24242f5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 05/66] fix: NameError instead of ByteNotInFile166 for an out
 of range sector

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index f5c8078..192dec1 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -68,7 +68,7 @@ class BaseHeader:
         order starting from the beginning of the raw data.
         """
         if not self.sector_is_valid(sector):
-            raise ByteNotInFile166("Sector %d out of range" % sector)
+            raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         pos = sector * self.sector_size + self.header_offset
         size = self.sector_size
         return pos, size
-- 
2.43.0


From 670a0abe27a8cfc5c3dcd274defa041620996216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 06/66] fix: writing and reading back an empty file

An empty file left an Atari DOS disk with an invalid directory entry and
raised IndexError on DOS 3.3; the contents of an empty file were reported as
the bytes of the entire disk image.
---
 atrcopy/diskimages.py | 3 +++
 atrcopy/segments.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 192dec1..6be416b 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -368,6 +368,9 @@ class DiskImageBase(Bootable):
             sector = self.header.create_sector(data[index:index + count])
             sectors.append(sector)
             index += count
+        if len(sectors) == 0:
+            # even an empty file needs a (blank) sector to point to
+            sectors.append(self.header.create_sector(data))
         return sectors
 
     def write_sector_list(self, sector_list):
diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 403348b..3b12417 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1108,6 +1108,9 @@ class EmptySegment(DefaultSegment):
     def __len__(self):
         return 0
 
+    def tobytes(self):
+        return b""
+
 
 class ObjSegment(DefaultSegment):
     extra_serializable_attributes = ['metadata_start', 'data_start']
-- 
2.43.0


From 3d5ade0750314afbdb098a6ef1c2141cf8f25d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 07/66] fix: pad Atari DOS file names with spaces when writing
 the directory

---
 atrcopy/ataridos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index fb0eb7a..3462cac 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -166,8 +166,9 @@ class AtariDosDirent(Dirent):
         values[0] = flag
         values[1] = self.num_sectors
         values[2] = self.starting_sector
-        values[3] = self.basename
-        values[4] = self.ext
+        # DOS pads names with spaces; zeros would hide the file from native DOS
+        values[3] = b'%-8s' % self.basename
+        values[4] = b'%-3s' % self.ext
         return data
 
     def mark_deleted(self):
-- 
2.43.0


From acfab6aa839f61884132a6806dc4ae2017feda29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 08/66] fix: rewriting the DOS 3.3 catalog cleared the lock bit
 of every file

---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index b1c4c15..c7a13e9 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -239,7 +239,7 @@ class Dos33Dirent(Dirent):
             self.deleted = False
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
-        self.locked = values[2] & 0x80
+        self.locked = bool(values[2] & 0x80)
         self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
-- 
2.43.0


From b47eacbbe6e5309467edc04392c0865629cec696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 09/66] fix: unlocked DOS 3.3 text files were taken for the end
 of the catalog

The file type byte of an unlocked text file is zero; an unused catalog entry
is one whose track is zero.
---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index c7a13e9..e33eded 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -469,7 +469,7 @@ class Dos33DiskImage(DiskImageBase):
             i = 0xb
             while i < 256:
                 dirent = Dos33Dirent(self, num, values[i:i+0x23])
-                if dirent.flag == 0:
+                if dirent.track == 0 and not dirent.deleted:
                     break
                 if not dirent.is_sane:
                     log.warning("Illegally formatted directory entry %s" % dirent)
-- 
2.43.0


From 5bd8dcdd0cd59d4575892064817bb7413e407658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 10/66] fix: last character of a 30 character DOS 3.3 file name
 was dropped

---
 atrcopy/dos33.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index e33eded..23aa4aa 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -240,7 +240,9 @@ class Dos33Dirent(Dirent):
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
         self.locked = bool(values[2] & 0x80)
-        self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
+        # the last character of a deleted file is replaced by its track number
+        end = 0x20 if self.deleted else 0x21
+        self.filename = (data[3:end] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
 
-- 
2.43.0


From 44f21498fd3bd79bd9fd49e5e07e774ab2bae8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 11/66] fix: the last sector of the DOS 3.3 catalog is usable

NoSpaceInDirectory was raised when the last catalog sector was reached, not
when it was full, so neither adding nor deleting files worked once the
catalog used its last sector.
---
 atrcopy/dos33.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 23aa4aa..8643cc1 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -566,12 +566,12 @@ class Dos33DiskImage(DiskImageBase):
     def get_directory_sector_links(self, sector_num):
         if sector_num == -1:
             sector_num = self.header.first_directory
+        elif sector_num == 0:
+            raise errors.NoSpaceInDirectory("No space left in catalog")
         self.assert_valid_sector(sector_num)
         raw, _, _ = self.get_raw_bytes(sector_num)
         next_sector = self.header.sector_from_track(raw[1], raw[2])
         if _xd: log.debug("checking catalog sector %d, next catalog sector: %d" % (sector_num, next_sector))
-        if next_sector == 0:
-            raise errors.NoSpaceInDirectory("No space left in catalog")
         return sector_num, next_sector
 
     def get_file_segment(self, dirent):
-- 
2.43.0


From 206ed203102c4c0ee5c75549696edbbdbe348a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 12/66] fix: store the sector offset in second and later DOS
 3.3 track/sector lists

DOS 3.3 uses bytes 5 and 6 of a track/sector list to find out which part of
the file it describes.
---
 atrcopy/dos33.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 8643cc1..b712482 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -23,6 +23,9 @@ class Dos33TSSector(WriteableSector):
             self.set_tslist(sector_list, start, end)
 
     def set_tslist(self, sector_list, start, end):
+        # relative sector number (in the file) of the first entry of this list
+        self.data[5] = start & 0xff
+        self.data[6] = start >> 8
         index = 0xc
         for i in range(start, end):
             sector = sector_list[i]
-- 
2.43.0


From fe1ea4c6ed9a186f192762a3882152d6357afbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 13/66] fix: deleting an already deleted file

The deleted directory entry was found again, and its sectors freed even when
they had been reused by some other file.
---
 atrcopy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index 3bf1790..e1f4569 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -223,11 +223,11 @@ class Directory(BaseSectorList):
         if hasattr(filename, "filename"):
             # we've been passed a dirent instead of a filename
             for dirent in list(self.dirents.values()):
-                if dirent == filename:
+                if dirent.in_use and dirent == filename:
                     return dirent
         else:
             for dirent in list(self.dirents.values()):
-                if filename == dirent.filename:
+                if dirent.in_use and filename == dirent.filename:
                     return dirent
         raise errors.FileNotFound("%s not found on disk" % filename)
 
-- 
2.43.0


From 829de56e0001967d89235f6901ac2099aee7892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 14/66] fix: add command lost earlier files when the last one
 was skipped

---
 atrcopy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 76beb62..58df276 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -154,7 +154,8 @@ def add_files(image, files):
         with open(name, "rb") as fh:
             data = fh.read()
         name = os.path.basename(name)
-        changed = save_file(image, name, filetype, data)
+        if save_file(image, name, filetype, data):
+            changed = True
     if changed:
         image.save()
 
-- 
2.43.0


From 7b3fc6563db2bb03a08b6c13064934cdd370ae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 15/66] fix: --dry-run extract and boot no longer touch the
 local file system

---
 atrcopy/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 58df276..8f3546a 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -110,7 +110,7 @@ def extract_files(image, files):
         if options.lower:
             output = output.lower()
         if options.dir:
-            if not os.path.exists(options.dir):
+            if not options.dry_run and not os.path.exists(options.dir):
                 os.makedirs(options.dir)
             output = os.path.join(options.dir, output)
         if not options.dry_run:
@@ -293,7 +293,8 @@ def boot_image(image_name, source_files, data_files, obj_files, run_addr=""):
     if segments:
         image = image_cls.create_boot_image(segments, run_addr)
         print("saving boot disk %s" % (image_name))
-        image.save(image_name)
+        if not options.dry_run:
+            image.save(image_name)
     else:
         print("No segments to save to boot disk")
 
-- 
2.43.0


From 33388639613fbdca406ae686f589ea26efbd0a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 16/66] fix: extracting a file whose name contains a path
 separator

Such a file either could not be extracted or was written outside the
destination directory.
---
 atrcopy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 8f3546a..4c74bf0 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -106,7 +106,8 @@ def extract_files(image, files):
         except errors.FileNotFound:
             print("%s not in %s" % (name, image))
             continue
-        output = dirent.filename
+        # names on the disk image may contain path separators
+        output = dirent.filename.replace("/", "_").replace(os.sep, "_")
         if options.lower:
             output = output.lower()
         if options.dir:
-- 
2.43.0


From acfd89384a361786fbc2641ded2d1d64c4a32780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 17/66] fix: KBoot boot disks ignored the requested run address

---
 atrcopy/kboot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 010d74a..d602f03 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -69,7 +69,7 @@ class KBootImage(AtariDosDiskImage):
 
     @classmethod
     def create_boot_image(cls, segments, run_addr=None):
-        data_segment, _ = get_xex(segments)
+        data_segment, _ = get_xex(segments, run_addr)
         payload_bytes = add_xexboot_header(data_segment.data)
         data_bytes = np.zeros(len(payload_bytes) + 16, np.uint8)
         data_bytes[16:] = payload_bytes[:]
-- 
2.43.0


From 4695b0140b2a11ecbb534d2c3e75d73fefba8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 18/66] fix: corrupt gzip data raised zlib.error instead of
 InvalidContainer

---
 atrcopy/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index dbb8f66..059cc51 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -2,6 +2,7 @@ import gzip
 import bz2
 import lzma
 import io
+import zlib
 
 import numpy as np
 
@@ -55,7 +56,7 @@ class GZipContainer(DiskImageContainer):
             buf = io.BytesIO(byte_data)
             with gzip.GzipFile(mode='rb', fileobj=buf) as f:
                 unpacked = f.read()
-        except OSError as e:
+        except (OSError, zlib.error) as e:
             raise errors.InvalidContainer(e)
         return unpacked
 
-- 
2.43.0


From e6aa1ed0a9b1db67398a860ee91a774d2217b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 19/66] fix: interleaving segments that are themselves indexed

---
 atrcopy/segments.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 3b12417..e9acfe0 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -295,7 +295,7 @@ class SegmentData:
         indexed.
         """
         if self.is_indexed:
-            return np.copy(self.order[i])
+            return np.copy(self.order)
         if self.data.base is None:
             i = 0
         else:
@@ -333,13 +333,7 @@ class SegmentData:
         return copy
 
     def get_bases(self):
-        if self.data.base is None:
-            data_base = self.data
-            style_base = self.style
-        else:
-            data_base = self.data.base
-            style_base = self.style.base
-        return data_base, style_base
+        return self.data_base, self.style_base
 
     def get_indexed(self, index):
         index = to_numpy_list(index)
-- 
2.43.0


From 11b1b8171896277282842dfc9348c837b9e797a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 20/66] fix: get_parallel_raw_data of an indexed segment

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index e9acfe0..1782181 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -544,7 +544,7 @@ class DefaultSegment:
         start, end = other.byte_bounds_offset()
         r = self.rawdata[start:end]
         if other.rawdata.is_indexed:
-            r = r.get_indexed[other.order]
+            r = r.get_indexed(other.rawdata.order)
         return r
 
     def serialize_session(self, mdict):
-- 
2.43.0


From c5331a3b58335bdb779c3c575da5790a6d2a0ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 21/66] fix: copying the comments of an indexed segment

---
 atrcopy/segments.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 1782181..f4f262e 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1046,12 +1046,12 @@ class DefaultSegment:
         return sorted([[k, v] for k, v in self.rawdata.extra.comments.items()])
 
     def iter_comments_in_segment(self):
-        start = self.origin
-        start_index = self.get_raw_index(0)
-        end_index = self.get_raw_index(len(self.rawdata))
         for k, v in self.rawdata.extra.comments.items():
-            if k >= start_index and k < end_index:
-                yield self.rawdata.get_reverse_index(k), v
+            try:
+                index = self.rawdata.get_reverse_index(k)
+            except IndexError:
+                continue
+            yield index, v
 
     def copy_user_data(self, source, index_offset=0):
         """Copy comments and other user data from the source segment to this
-- 
2.43.0


From 6975e28c22623e0fd9ef0a9954f8404c3d7ec87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 22/66] fix: a container segment could only be resized once

---
 atrcopy/segments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index f4f262e..aa0a735 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -179,8 +179,9 @@ class SegmentData:
     def resize(self, newsize):
         if self.data.base is None:
             try:
-                newdata = np.resize(self.data, (newsize,))
-                newstyle = np.resize(self.style, (newsize,))
+                # np.resize may return a view, which couldn't be resized again
+                newdata = np.resize(self.data, (newsize,)).copy()
+                newstyle = np.resize(self.style, (newsize,)).copy()
             except:
                 raise
             else:
-- 
2.43.0


From 76349956f207d4197932b7115bfc2634b1ef1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 23/66] fix: comparing indexed segments

---
 atrcopy/segments.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index aa0a735..6e75fda 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1077,9 +1077,8 @@ class DefaultSegment:
 
     def compare_segment(self, other_segment):
         self.clear_style_bits(diff=True)
-        diff = self.rawdata.data != other_segment.rawdata.data
-        d = diff * np.uint8(diff_bit_mask)
-        self.style |= (diff * np.uint8(diff_bit_mask))
+        diff = self.rawdata.unindexed_data != other_segment.rawdata.unindexed_data
+        self.style[:] |= (diff * np.uint8(diff_bit_mask))
         log.debug("compare_segment: # entries %d, # diffs: %d" % (len(diff), len(np.where(diff == True)[0])))
 
 
-- 
2.43.0


From a6d0bd31924cc05c23eed0857bf335bcc363562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 24/66] fix: load address of right slot 4 KB cartridges

---
 atrcopy/cartridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/cartridge.py b/atrcopy/cartridge.py
index 4a822d8..2908b24 100644
--- a/atrcopy/cartridge.py
+++ b/atrcopy/cartridge.py
@@ -26,7 +26,7 @@ known_cart_types = [
     (0,  "", 0,),
     (57, "Standard 2 KB", 2, 2, 0, 0xb800),
     (58, "Standard 4 KB", 4, 4, 0, 0xb000),
-    (59, "Right slot 4 KB", 4, 4, 0, 0, 0x9000),
+    (59, "Right slot 4 KB", 4, 4, 0, 0x9000),
     (1,  "Standard 8 KB", 8, 8, 0, 0xa000),
     (21, "Right slot 8 KB", 8,),
     (2,  "Standard 16 KB", 16, 16, 0, 0x8000),
-- 
2.43.0


From 7aab968dcc5390aa868b53c49d178ff1432e57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 25/66] fix: TypeError describing a Standard Delivery boot disk

---
 atrcopy/standard_delivery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index ccd8622..86960a2 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -23,7 +23,7 @@ class StandardDeliveryHeader(BaseHeader):
             raise errors.InvalidDiskImage("No %s boot header" % self.file_format)
 
     def __str__(self):
-        return "Standard Delivery Boot Disk (size=%d (%dx%dB)" % (self.file_format, self.image_size, self.max_sectors, self.sector_size)
+        return "Standard Delivery Boot Disk (size=%d (%dx%dB)" % (self.image_size, self.max_sectors, self.sector_size)
 
     def check_size(self, size):
         if size != 143360:
-- 
2.43.0


From 31c6086fe91c34ab81422eaf94728b692dc0e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:25 +0000
Subject: [PATCH 26/66] fix: directory of double density Atari disks has 8
 entries per sector

Atari DOS uses only the first 128 bytes of the directory sectors on double
density disks, so only the first 8 files were found on such disks and files
added after those were invisible to DOS.
---
 atrcopy/ataridos.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 3462cac..21d8087 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -59,6 +59,11 @@ class AtariDosDirectory(Directory):
     def dirent_class(self):
         return AtariDosDirent
 
+    def get_dirent_sector(self):
+        s = Directory.get_dirent_sector(self)
+        s.sector_size = 128  # only 8 entries per sector, regardless of density
+        return s
+
     def encode_empty(self):
         return np.zeros([16], dtype=np.uint8)
 
@@ -576,8 +581,10 @@ class AtariDosDiskImage(DiskImageBase):
                 break
             if directory is not None:
                 directory.set(num, dirent)
-            i += 16
             num += 1
+            # only the first 128 bytes (8 entries) of each sector are used,
+            # even on double density disks
+            i = (num // 8) * self.header.sector_size + (num % 8) * 16
         self.files = files
 
     boot_record_type = np.dtype([
@@ -654,6 +661,8 @@ class AtariDosDiskImage(DiskImageBase):
             segment.set_comment_at(index + 0x05, "FILE #%d: Filename" % filenum)
             segment.set_comment_at(index + 0x0d, "FILE #%d: Extension" % filenum)
             index += 16
+            if filenum % 8 == 7:
+                index += self.header.sector_size - 128
         segments.append(segment)
         return segments
 
-- 
2.43.0


From 3b0a2d8587655ff9368c956c0ad519b4fcf9ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:25 +0000
Subject: [PATCH 27/66] fix: adding a file overwrote directory entries of DOS
 2.5 extended files

DOS 2.5 doesn't set the in-use bit for files that use sectors above 719 (the
flag byte is 03), so these entries were taken to be free.
---
 atrcopy/ataridos.py | 6 ++++++
 atrcopy/utils.py    | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 21d8087..6b34b59 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -120,6 +120,12 @@ class AtariDosDirent(Dirent):
         ext = (b'.' + self.ext) if self.ext else b''
         return (self.basename + ext).decode('latin1')
 
+    @property
+    def is_free(self):
+        # Entries that aren't in use but haven't been deleted either belong to
+        # files opened for output or to DOS 2.5 files using sectors above 719
+        return not self.in_use and (self.deleted or self.flag == 0)
+
     @property
     def summary(self):
         output = "o" if self.opened_output else "."
diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index e1f4569..a5ed890 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -161,6 +161,11 @@ class Dirent:
     def __eq__(self, other):
         raise errors.NotImplementedError
 
+    @property
+    def is_free(self):
+        """True if the directory entry can be reused for a new file"""
+        return not self.in_use
+
     def extra_metadata(self, image):
         raise errors.NotImplementedError
 
@@ -201,7 +206,7 @@ class Directory(BaseSectorList):
         if d:
             d.sort()
             for i, dirent in d:
-                if not dirent.in_use:
+                if dirent.is_free:
                     return i
                 used.add(i)
             if self.num_dirents > 0 and (len(used) >= self.num_dirents):
-- 
2.43.0


From 72b2faa764286265cf75feb2152413ea00ba6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:24 +0000
Subject: [PATCH 28/66] fix: IndexError looking for magic signatures in short
 ATR images

---
 atrcopy/magic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atrcopy/magic.py b/atrcopy/magic.py
index 324afda..635bcb3 100644
--- a/atrcopy/magic.py
+++ b/atrcopy/magic.py
@@ -53,7 +53,11 @@ magic = [
 
 def check_signature(raw, sig):
     for index, expected in sig:
-        actual = raw.data[index].tolist()
+        try:
+            actual = raw.data[index].tolist()
+        except IndexError:
+            # too short to match
+            return False
         if actual == expected:
             log.debug(" match at %s: %s" % (str(index), str(expected)))
         if actual != expected:
-- 
2.43.0


From cd5dfa5bc771a16a01bbc8cd23dbf854a26e88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:24 +0000
Subject: [PATCH 29/66] fix: crash on ATR header with nonsensical sector size

---
 atrcopy/ataridos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 6b34b59..3893985 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -381,6 +381,8 @@ class AtrHeader(BaseHeader):
                 raise errors.InvalidAtrHeader("no ATR header magic value")
             self.image_size = (int(values[3]) * 256 * 256 + int(values[1])) * 16
             self.sector_size = int(values[2])
+            if self.sector_size < 128:
+                raise errors.InvalidAtrHeader("invalid sector size %d" % self.sector_size)
             self.crc = int(values[4])
             self.unused = int(values[5])
             self.flags = int(values[6])
-- 
2.43.0


From 60faed916de0435dd4e327148c930f0fac313568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:24 +0000
Subject: [PATCH 30/66] fix: endless loop on a DOS 3.3 track/sector list that
 points back to itself

---
 atrcopy/dos33.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index b712482..9e5dc4c 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -302,8 +302,12 @@ class Dos33Dirent(Dirent):
         tslist = BaseSectorList(image.header)
         sector_num = image.header.sector_from_track(self.track, self.sector)
         sector_map = []
+        seen = set()
         while sector_num > 0:
             image.assert_valid_sector(sector_num)
+            if sector_num in seen:
+                raise errors.InvalidFile("Bad track/sector list: attempting to reread sector %d" % sector_num)
+            seen.add(sector_num)
             if _xd: log.debug("reading track/sector list at %d for %s" % (sector_num, self))
             data, _ = image.get_sectors(sector_num)
             sector = Dos33TSSector(image.header, data=data)
-- 
2.43.0


From 9641e75b2f5a0ba8675a3a97b570539582608a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:24 +0000
Subject: [PATCH 31/66] fix: endless loop on a DOS 3.3 catalog that points back
 to itself

---
 atrcopy/dos33.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 9e5dc4c..1a87db6 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -470,8 +470,12 @@ class Dos33DiskImage(DiskImageBase):
         sector = self.header.first_directory
         num = 0
         files = []
+        seen = set()
         while sector > 0:
             self.assert_valid_sector(sector)
+            if sector in seen:
+                raise errors.InvalidDiskImage("Bad catalog: attempting to reread sector %d" % sector)
+            seen.add(sector)
             if _xd: log.debug("reading catalog sector: %d" % sector)
             values, style = self.get_sectors(sector)
             sector = self.header.sector_from_track(values[1], values[2])
-- 
2.43.0


From 0ef8b6c8eee5afd5bf9f900b3195f7c15f63de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:24 +0000
Subject: [PATCH 32/66] fix: endless loop on a SpartaDOS sector map that points
 back to itself

---
 atrcopy/spartados.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index abd749d..95307b3 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -209,7 +209,11 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_sector_map(self, sector):
         m = None
+        seen = set()
         while sector > 0:
+            if sector in seen:
+                raise errors.InvalidFile("Bad sector map: attempting to reread sector %d" % sector)
+            seen.add(sector)
             b, _ = self.get_sectors(sector)
             sector, prev = b[0:4].view(dtype='<u2')
             if m is None:
-- 
2.43.0


From 0e29044e673500b8f22f873cc22fcd7fe3a96768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:24 +0000
Subject: [PATCH 33/66] fix: endless loop on a MyDOS file whose sectors point
 back to themselves

---
 atrcopy/ataridos.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 3893985..9236730 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -258,7 +258,11 @@ class MydosDirent(AtariDosDirent):
     def process_raw_sector(self, image, raw):
         # No file number stored in the sector data; two full bytes available
         # for next sector
-        self.current_sector = (raw[-3] << 8) + raw[-2]
+        self.sectors_seen.add(self.current_sector)
+        next_sector = (raw[-3] << 8) + raw[-2]
+        if next_sector in self.sectors_seen:
+            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
+        self.current_sector = next_sector
         num_bytes = raw[-1]
         return raw[0:num_bytes], num_bytes
 
-- 
2.43.0


From c50f016e56c2620c250c33c9ef32d84a6bcd6337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:00 +0000
Subject: [PATCH 34/66] fix: holes of sparse DOS 3.3 files were taken for
 references to the boot sector

A zero entry in a track/sector list is not track 0, sector 0. Deleting a
sparse file marked the boot sector as free, so the next file added overwrote
it.
---
 atrcopy/dos33.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 1a87db6..903e45f 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -312,7 +312,9 @@ class Dos33Dirent(Dirent):
             data, _ = image.get_sectors(sector_num)
             sector = Dos33TSSector(image.header, data=data)
             sector.sector_num = sector_num
-            sector_map.extend(sector.get_tslist())
+            # a zero entry isn't a reference to the boot sector, it's either
+            # unused or a hole in a sparse file
+            sector_map.extend([num for num in sector.get_tslist() if num > 0])
             tslist.append(sector)
             sector_num = sector.next_sector_num
         self.sector_map = sector_map[0:self.num_sectors - len(tslist)]
-- 
2.43.0


From be4504f435eda9e46af3cdbd68d5386388b7e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:00 +0000
Subject: [PATCH 35/66] fix: sector labels of the VTOC and directory of double
 density Atari disks

These segments don't contain the short boot sectors.
---
 atrcopy/ataridos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 9236730..a6e7363 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -637,7 +637,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments = []
         addr = 0
         start, count = self.get_contiguous_sectors(self.first_vtoc, self.num_vtoc)
-        segment = RawSectorsSegment(r[start:start+count], self.first_vtoc, self.num_vtoc, count, 128, 3, self.header.sector_size, name="VTOC")
+        segment = RawSectorsSegment(r[start:start+count], self.first_vtoc, self.num_vtoc, count, 0, 0, self.header.sector_size, name="VTOC")
         segment.style[:] = get_style_bits(data=True)
         segment.set_comment_at(0x00, "Type code")
         segment.set_comment_at(0x01, "Total number of sectors")
@@ -649,7 +649,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments.append(segment)
         if self.vtoc2 > 0:
             start, count = self.get_contiguous_sectors(self.vtoc2, 1)
-            segment = RawSectorsSegment(r[start:start+count], self.vtoc2, 1, count, 128, 3, self.header.sector_size, name="VTOC2")
+            segment = RawSectorsSegment(r[start:start+count], self.vtoc2, 1, count, 0, 0, self.header.sector_size, name="VTOC2")
             segment.style[:] = get_style_bits(data=True)
             segment.set_comment_at(0x00, "Repeat of sectors 48-719")
             segment.set_comment_at(0x44, "Sector bit map 720-1023")
@@ -663,7 +663,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments = []
         addr = 0
         start, count = self.get_contiguous_sectors(361, 8)
-        segment = RawSectorsSegment(r[start:start+count], 361, 8, count, 128, 3, self.header.sector_size, name="Directory")
+        segment = RawSectorsSegment(r[start:start+count], 361, 8, count, 0, 0, self.header.sector_size, name="Directory")
         segment.style[:] = get_style_bits(data=True)
         index = 0
         for filenum in range(64):
-- 
2.43.0


From 66893c1e54666abe4358e2f26cc368a4d4b73370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:00 +0000
Subject: [PATCH 36/66] fix: rewriting the DOS 3.3 catalog changed file names
 using inverse characters

---
 atrcopy/dos33.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 903e45f..5162077 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -169,6 +169,7 @@ class Dos33Dirent(Dirent):
         self.track = 0
         self.sector = 0
         self.filename = ""
+        self.raw_filename = None
         self.num_sectors = 0
         self.is_sane = True
         self.current_sector_index = 0
@@ -245,6 +246,7 @@ class Dos33Dirent(Dirent):
         self.locked = bool(values[2] & 0x80)
         # the last character of a deleted file is replaced by its track number
         end = 0x20 if self.deleted else 0x21
+        self.raw_filename = data[3:0x21].copy()
         self.filename = (data[3:end] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
@@ -258,6 +260,9 @@ class Dos33Dirent(Dirent):
         n = min(len(self.filename), 30)
         data[3:3+n] = np.frombuffer(self.filename.encode("ascii"), dtype=np.uint8) | 0x80
         data[3+n:] = ord(' ') | 0x80
+        if self.raw_filename is not None:
+            # keep names that can't be represented in ASCII, e.g. inverse text
+            data[3:0x21] = self.raw_filename
         if self.deleted:
             data[0x20] = self.track
         values[4] = self.num_sectors
-- 
2.43.0


From 5ab3c73e72969f0fbc51206e0d8f2b8ff3a1b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:00 +0000
Subject: [PATCH 37/66] fix: reading a DOS 3.3 file that has no data sectors

---
 atrcopy/dos33.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 5162077..9323570 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -595,11 +595,10 @@ class Dos33DiskImage(DiskImageBase):
     def get_file_segment(self, dirent):
         byte_order = []
         dirent.start_read(self)
-        while True:
+        last = len(dirent.sector_map) == 0
+        while not last:
             bytes, last, pos, size = dirent.read_sector(self)
             byte_order.extend(list(range(pos, pos + size)))
-            if last:
-                break
         if len(byte_order) > 0:
             name = "%s %03d %s" % (dirent.summary, dirent.num_sectors, dirent.filename)
             verbose_name = "%s (%d sectors, first@%d) %s" % (dirent.filename, dirent.num_sectors, dirent.sector_map[0], dirent.verbose_info)
-- 
2.43.0


From 54a1efcf29aa8389d31a15723dda1721eae28ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:00 +0000
Subject: [PATCH 38/66] fix: init address following the run address in a
 segment was dropped

---
 atrcopy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 4c74bf0..9e332d4 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -257,6 +257,9 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
                         run_addr = s.run_address()
                     else:
                         print(f"already have run address {run_addr}; skipping {s.run_address()}")
+                    if len(s) > 2:
+                        # the init address may follow the run address
+                        segments.add_segment(s.data[2:], s.origin + 2)
                 elif s.origin > 0:
                     print(f"adding {s} from {name}")
                     segments.add_segment(s.data, s.origin)
-- 
2.43.0


From 4c7477950dadd7396022772872cf606d297a8e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:51 +0000
Subject: [PATCH 39/66] fix: disk images starting with zeros were taken for
 LZMA containers

XFD images of disks without boot code start with zeros, which is a valid but
empty legacy .lzma stream, so the disk was replaced by an empty file.
---
 atrcopy/container.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index 059cc51..135e127 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -73,7 +73,14 @@ class BZipContainer(DiskImageContainer):
 
 
 class LZMAContainer(DiskImageContainer):
+    # The legacy .lzma format doesn't have a signature: anything that starts
+    # with zeros, like most XFD images, would be seen as an empty stream. Limit
+    # it to the properties used by the lzma command line tools.
+    signatures = (b"\xfd7zXZ\x00", b"\x5d\x00\x00")
+
     def unpack_bytes(self, byte_data):
+        if not byte_data.startswith(self.signatures):
+            raise errors.InvalidContainer("no LZMA signature")
         try:
             buf = io.BytesIO(byte_data)
             with lzma.LZMAFile(buf, mode='rb') as f:
-- 
2.43.0


From e1e19a4c37b4d7208fd2ce06be18554ebbb51b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:41 +0000
Subject: [PATCH 40/66] fix: IndexError reading a SpartaDOS file that fills its
 sector map

---
 atrcopy/spartados.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 95307b3..d78bb20 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -96,7 +96,9 @@ class SpartaDosDirent(AtariDosDirent):
         self.length_remaining = self.length
 
     def read_sector(self, image):
-        sector = self.sector_map[self.sector_map_index]
+        # there's no terminating zero if the sector map is completely filled
+        full = self.sector_map_index >= len(self.sector_map)
+        sector = 0 if full else self.sector_map[self.sector_map_index]
         if sector == 0:
             return None, True, 0, self.length_remaining
         raw, pos, size = image.get_raw_bytes(sector)
-- 
2.43.0


From 53d5452a235cc8ff4464bd193f6a7099aa3c1bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:14 +0000
Subject: [PATCH 41/66] fix: damaged or empty zip files raised errors of the
 zipfile module

---
 atrcopy/mame.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/atrcopy/mame.py b/atrcopy/mame.py
index 20850f1..1f5182e 100644
--- a/atrcopy/mame.py
+++ b/atrcopy/mame.py
@@ -16,9 +16,15 @@ class MameZipImage(DiskImageBase):
         self.zipdata = rawdata
         fh = self.zipdata.bufferedio
         if zipfile.is_zipfile(fh):
-            with zipfile.ZipFile(fh) as zf:
-                self.check_zip_size(zf)
-                self.create_rawdata(zf)
+            try:
+                with zipfile.ZipFile(fh) as zf:
+                    self.check_zip_size(zf)
+                    self.create_rawdata(zf)
+            except errors.AtrError:
+                raise
+            except Exception as e:
+                # damaged, encrypted, empty or uses unsupported compression
+                raise errors.InvalidDiskImage("Can't unpack zip file: %s" % e)
         else:
             raise errors.InvalidDiskImage("Not a MAME zip file")
         DiskImageBase.__init__(self, self.rawdata, filename)
-- 
2.43.0


From ada72703d11f0116651cce8a0379430ddbb5bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:00 +0000
Subject: [PATCH 42/66] fix: corrupt DOS 3.3 VTOC geometry caused IndexError
 reading past the end of the image

---
 atrcopy/dos33.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 9323570..dcd58fb 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -466,7 +466,8 @@ class Dos33DiskImage(DiskImageBase):
         if self.header.sector_size != 256:
             log.warning(f"Nonstandard sector size {self.header.sector_size}; this is likely an error, setting to 256")
             self.header.sector_size = 256
-        self.header.max_sectors = int(values['num_tracks']) * int(values['sectors_per_track'])
+        max_sectors = int(values['num_tracks']) * int(values['sectors_per_track'])
+        self.header.max_sectors = min(max_sectors, len(self) // self.header.sector_size)
         self.header.ts_pairs = int(values['max_pairs'])
         self.header.dos_release = values['dos_release']
         self.header.last_track_num = values['last_track']
-- 
2.43.0


From d0614a6de4ca22c89e6bd57f1cad0418d9e166bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:25 +0000
Subject: [PATCH 43/66] fix: damaged SpartaDOS directories raised numpy and
 type errors

---
 atrcopy/spartados.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index d78bb20..a6a7cfb 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -169,13 +169,13 @@ class SpartaDosDiskImage(AtariDosDiskImage):
     def get_directory(self):
         self.files = []
         dir_map = self.get_sector_map(self.root_dir)
-        sector = dir_map[0]
+        sector = dir_map[0] if dir_map is not None else 0
         if sector == 0:
             return
         bytes, pos, size = self.get_raw_bytes(sector)
         d = SpartaDosDirent(self, 0, bytes[0:23], starting_sector=self.root_dir)
         s = self.get_file_segment(d)
-        for filenum, i in enumerate(range(23, d.length, 23)):
+        for filenum, i in enumerate(range(23, min(d.length, len(s)) - 22, 23)):
             dirent = SpartaDosDirent(self, filenum + 1, s[i:i + 23])
             self.files.append(dirent)
         self.root_dir_dirent = d
@@ -226,6 +226,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_directory_segments(self):
         dirent = self.root_dir_dirent
+        if dirent is None:
+            return []
         segment = self.get_file_segment(dirent)
         segment.name = dirent.filename
         segment.map_width = 23
-- 
2.43.0


From 679996e5dc3e60bd548fd221323755b2b20cc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:04 +0000
Subject: [PATCH 44/66] fix: repeated -s, -d and -b options silently dropped
 all but the first

---
 atrcopy/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 9e332d4..6a45f4c 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -607,9 +607,9 @@ def run():
     if command == "create":
         create_image(options.template[0], disk_image_name)
     elif command == "boot":
-        asm = options.asm[0] if options.asm else []
-        data = options.data[0] if options.data else []
-        obj = options.obj[0] if options.obj else []
+        asm = sum(options.asm or [], [])
+        data = sum(options.data or [], [])
+        obj = sum(options.obj or [], [])
         boot_image(disk_image_name, asm, data, obj, options.run_addr)
     else:
         try:
@@ -635,9 +635,9 @@ def run():
             elif command == "extract":
                 extract_files(parser.image, options.files)
             elif command == "assemble":
-                asm = options.asm[0] if options.asm else []
-                data = options.data[0] if options.data else []
-                obj = options.obj[0] if options.obj else []
+                asm = sum(options.asm or [], [])
+                data = sum(options.data or [], [])
+                obj = sum(options.obj or [], [])
                 assemble(parser.image, asm, data, obj, options.run_addr)
             elif command == "segments":
                 print("\n".join([str(a) for a in parser.segments]))
-- 
2.43.0


From c7426d3519faf62654357ed075efb57fd73aadfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:32 +0000
Subject: [PATCH 45/66] fix: describing an empty indexed segment raised
 IndexError

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 6e75fda..aeb5fc6 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -605,7 +605,7 @@ class DefaultSegment:
     @property
     def verbose_info(self):
         name = self.verbose_name or self.name
-        if self.rawdata.is_indexed:
+        if self.rawdata.is_indexed and len(self) > 0:
             s = "%s ($%04x bytes) non-contiguous file; file index of first byte: $%04x" % (name, len(self), self.rawdata.order[0])
         else:
             s = "%s ($%04x bytes)" % (name, len(self))
-- 
2.43.0


From 6fc833537f59115a24afbf1d5e636edb975e864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:32 +0000
Subject: [PATCH 46/66] fix: extracting a file with a null in its name raised
 ValueError

---
 atrcopy/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 6a45f4c..f8dc294 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -106,8 +106,8 @@ def extract_files(image, files):
         except errors.FileNotFound:
             print("%s not in %s" % (name, image))
             continue
-        # names on the disk image may contain path separators
-        output = dirent.filename.replace("/", "_").replace(os.sep, "_")
+        # names on the disk image may contain path separators or nulls
+        output = dirent.filename.replace("/", "_").replace(os.sep, "_").replace("\0", "_")
         if options.lower:
             output = output.lower()
         if options.dir:
-- 
2.43.0


From f9685df44c371b5069fda3600f19eb57771eca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:32 +0000
Subject: [PATCH 47/66] fix: creating an Apple boot disk without a run address
 raised TypeError

---
 atrcopy/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index f8dc294..4581ac6 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -275,6 +275,8 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
                 run_addr = int(run_addr)
             except ValueError:
                 run_addr = None
+    else:
+        run_addr = None
 
     return segments, run_addr
 
-- 
2.43.0


From 17f2a61a53b112170d8eec82330657b54c8c8c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:11 +0000
Subject: [PATCH 48/66] fix: restoring a segment with an empty byte order gave
 the whole image

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index aeb5fc6..0568d85 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -531,7 +531,7 @@ class DefaultSegment:
         r = rawdata[start:end]
         delattr(self, '_rawdata_bounds')
         try:
-            if self._order_list:
+            if self._order_list is not None:
                 order = to_numpy_list(self._order_list)
                 r = r.get_indexed(order)
                 delattr(self, '_order_list')
-- 
2.43.0


From 5367376a4ba76626735bbdc92eab5c34acce98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:12 +0000
Subject: [PATCH 49/66] fix: restored ROM segments pointed into the compressed
 zip data

---
 atrcopy/parsers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/atrcopy/parsers.py b/atrcopy/parsers.py
index 44340be..31141f5 100644
--- a/atrcopy/parsers.py
+++ b/atrcopy/parsers.py
@@ -185,6 +185,14 @@ class MameZipParser(SegmentParser):
     menu_name = "MAME ROM Zipfile"
     image_type = MameZipImage
 
+    def reconstruct_segments(self, new_rawdata):
+        self.image = self.get_image(new_rawdata)
+        self.segment_data = new_rawdata
+        self.segments[0].reconstruct_raw(new_rawdata)
+        for s in self.segments[1:]:
+            # the ROMs are views of the unpacked data, not of the zip file
+            s.reconstruct_raw(self.image.rawdata)
+
 
 class Dos33SegmentParser(SegmentParser):
     menu_name = "DOS 3.3 Disk Image"
-- 
2.43.0


From 2de9af43b142ce7052e404419c1b009e85db5fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:12 +0000
Subject: [PATCH 50/66] fix: parsers for specific cartridge types couldn't be
 restored from json

---
 atrcopy/parsers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atrcopy/parsers.py b/atrcopy/parsers.py
index 31141f5..988101d 100644
--- a/atrcopy/parsers.py
+++ b/atrcopy/parsers.py
@@ -420,6 +420,7 @@ for k in sizes:
         else:
             key = "application/vnd.atari8bit.cart"
             kclass = type("Atari8bitCartSegmentParser%d" % t, (Atari8bitCartParser, AtariCartSegmentParser), {'cart_type': t, 'cart_info': c, 'menu_name': "%s Cartridge" % name})
+        globals()[kclass.__name__] = kclass  # must be importable to be restored from json
         mime_parsers[key].append(kclass)
 
 
-- 
2.43.0


From e4fa2da12a5897b63cd7ba353f6cec95741084dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:06 +0000
Subject: [PATCH 51/66] fix: SpartaDOS boot header listed twice in place of the
 boot sectors

---
 atrcopy/spartados.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index a6a7cfb..e6b2dd1 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -191,7 +191,7 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         if self.num_boot > 0:
             sectors = ObjSegment(r, 0, 0, addr, addr + len(r), name="Boot Sectors")
             code = ObjSegment(r[43:], 0, 0, addr + 43, addr + len(r), name="Boot Code")
-            segments.extend([header, code])
+            segments.extend([sectors, code])
         return segments
 
     def get_vtoc_segments(self):
-- 
2.43.0


From aee105af6a4196de2846a0e7b881eb4572bc7cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:44 +0000
Subject: [PATCH 52/66] fix: contiguous sectors from the start of a headerless
 image began one sector late

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 6be416b..96410fa 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -253,7 +253,7 @@ class DiskImageBase(Bootable):
         count = 0
         for index in range(sector, sector + num):
             pos, size = self.header.get_pos(index)
-            if start == 0:
+            if index == sector:
                 start = pos
             count += size
         return start, count
-- 
2.43.0


From 7725f709d90ce3f633bbc750be5bf2431fbe07fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:01 +0000
Subject: [PATCH 53/66] fix: converting a disk image to ATR format failed with
 a TypeError

---
 atrcopy/ataridos.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index a6e7363..d76b4bc 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -515,8 +515,7 @@ class AtariDosDiskImage(DiskImageBase):
         """ Create a new disk image in the specified format
         """
         first_data = len(self.header)
-        raw = self.rawdata[first_data:]
-        data = add_atr_header(raw)
+        data = add_atr_header(self.bytes[first_data:])
         newraw = SegmentData(data)
         image = self.__class__(newraw)
         return image
-- 
2.43.0


From 0d7bf4614bd9c02e71943c8983842f795736c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:14 +0000
Subject: [PATCH 54/66] fix: titles in the signature database were rejected
 unless their size was a power of two

---
 atrcopy/cartridge.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/atrcopy/cartridge.py b/atrcopy/cartridge.py
index 2908b24..2593f0b 100644
--- a/atrcopy/cartridge.py
+++ b/atrcopy/cartridge.py
@@ -340,16 +340,22 @@ class RomImage(DiskImageBase):
         return s
 
 
-class Atari2600CartImage(RomImage):
+class SignatureRomImage(RomImage):
+    def check_size(self):
+        # recognized by signature, so can be any size
+        pass
+
+
+class Atari2600CartImage(SignatureRomImage):
     def __str__(self):
         return f"{len(self.rawdata) // 1024}k Atari 2600 Cartridge"
 
 
-class Atari2600StarpathImage(RomImage):
+class Atari2600StarpathImage(SignatureRomImage):
     def __str__(self):
         return f"{len(self.rawdata) // 1024}k Atari 2600 Starpath Cassette"
 
 
-class VectrexCartImage(RomImage):
+class VectrexCartImage(SignatureRomImage):
     def __str__(self):
         return f"{len(self.rawdata) // 1024}k Vectrex Cartridge"
-- 
2.43.0


From 0788b5c8b6a4617ec6c8f72d460a101e04403a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:17 +0000
Subject: [PATCH 55/66] fix: only the first boot sector of a SpartaDOS disk was
 listed as boot code

---
 atrcopy/spartados.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index e6b2dd1..885c17b 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -182,7 +182,7 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_boot_segments(self):
         segments = []
-        num = min(self.num_boot, 1)
+        num = min(max(int(self.num_boot), 1), self.header.max_sectors)
         s = self.get_sector_slice(1, num)
         r = self.rawdata[s]
         addr = self.boot_addr
-- 
2.43.0


From e770844aa28a603550d5e100999fdfd261b5a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:38 +0000
Subject: [PATCH 56/66] fix: adding a file whose name is too long for the disk
 checks for the name it is stored under

---
 atrcopy/__init__.py   | 1 +
 atrcopy/ataridos.py   | 6 +++---
 atrcopy/diskimages.py | 7 +++++++
 atrcopy/dos33.py      | 2 +-
 atrcopy/dummy.py      | 3 +++
 5 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 4581ac6..12cc3f1 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -130,6 +130,7 @@ def extract_files(image, files):
 
 
 def save_file(image, name, filetype, data):
+    name = image.stored_filename(name)
     try:
         dirent = image.find_dirent(name)
         if options.force:
diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index d76b4bc..2c85d97 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -245,9 +245,9 @@ class AtariDosDirent(Dirent):
         if b'.' in filename:
             filename, ext = filename.split(b'.', 1)
         else:
-            ext = b'   '
-        self.basename = b'%-8s' % filename[0:8]
-        self.ext = ext
+            ext = b''
+        self.basename = filename[0:8].rstrip(b" ")
+        self.ext = ext[0:3].rstrip(b" ")
         self.file_num = index
         self.dos_2 = True
         self.in_use = True
diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 96410fa..6a48f16 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -287,6 +287,13 @@ class DiskImageBase(Bootable):
                 return dirent
         raise errors.FileNotFound("%s not found on disk" % str(filename))
 
+    def stored_filename(self, filename):
+        """Name that a new file will have in the directory, where names may be
+        limited in length."""
+        dirent = self.directory_class(self.header).dirent_class(None)
+        dirent.set_values(filename, "", 0)
+        return dirent.filename
+
     def find_file(self, filename):
         dirent = self.find_dirent(filename)
         return self.get_file(dirent)
diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index dcd58fb..9829e10 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -363,7 +363,7 @@ class Dos33Dirent(Dirent):
         return self.filename
 
     def set_values(self, filename, filetype, index):
-        self.filename = '%-30s' % filename[0:30]
+        self.filename = filename[0:30].rstrip(" ")
         self._file_type = self.text_to_type.get(filetype, 0x04)
         self.locked = False
         self.deleted = False
diff --git a/atrcopy/dummy.py b/atrcopy/dummy.py
index 7482d52..3542ed1 100644
--- a/atrcopy/dummy.py
+++ b/atrcopy/dummy.py
@@ -24,6 +24,9 @@ class LocalFilesystemImage(DiskImageBase):
         # the filesystem.
         pass
 
+    def stored_filename(self, name):
+        return name
+
     def find_dirent(self, name):
         path = os.path.join(self.path, name)
         if os.path.exists(path):
-- 
2.43.0


From 784db924f8163fb48c122ab37d005a47d2bc0057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:39 +0000
Subject: [PATCH 57/66] fix: executables too large for the KBoot loader are
 rejected instead of making a disk that doesn't boot

---
 atrcopy/kboot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index d602f03..f740628 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -96,6 +96,9 @@ def insert_bytes(data, offset, string, color):
 def add_xexboot_header(bytes, bootcode=None, title=b"DEMO", author=b"an atari user"):
     sec_size = 128
     xex_size = len(bytes)
+    if xex_size > 0xffff:
+        # the boot code only has a 16 bit counter
+        raise errors.InvalidBinaryFile("Executable too large for KBoot (%d bytes)" % xex_size)
     num_sectors = (xex_size + sec_size - 1) // sec_size
     padded_size = num_sectors * sec_size
     if xex_size < padded_size:
-- 
2.43.0


From b6cf94bbf3c05052018fb7a43ae217462ad8caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:00 +0000
Subject: [PATCH 58/66] fix: double density disks with other than 720 sectors
 have 128-byte boot sectors, too

---
 atrcopy/ataridos.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 2c85d97..4708beb 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -428,6 +428,11 @@ class AtrHeader(BaseHeader):
             self.num_initial_sectors = 3
         else:
             self.image_size = size
+            if self.sector_size == 256 and size % 256 == 128:
+                # double density disk with other than the usual 720 sectors;
+                # the boot sectors are always 128 bytes
+                self.initial_sector_size = 128
+                self.num_initial_sectors = 3
         self.first_vtoc = 360
         self.num_vtoc = 1
         self.first_directory = 361
-- 
2.43.0


From da05ec9ecb0b313d97d9f98ffa8c83b86742a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:23 +0000
Subject: [PATCH 59/66] fix: converting a disk image of unusual size to ATR
 kept 128-byte sectors in the header

---
 atrcopy/ataridos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 4708beb..db8f19b 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -520,7 +520,7 @@ class AtariDosDiskImage(DiskImageBase):
         """ Create a new disk image in the specified format
         """
         first_data = len(self.header)
-        data = add_atr_header(self.bytes[first_data:])
+        data = add_atr_header(self.bytes[first_data:], self.header.sector_size)
         newraw = SegmentData(data)
         image = self.__class__(newraw)
         return image
@@ -790,8 +790,8 @@ class AtariDiskImage(BootDiskImage):
         return []
 
 
-def add_atr_header(bytes):
-    header = AtrHeader(create=True)
+def add_atr_header(bytes, sector_size=128):
+    header = AtrHeader(sector_size=sector_size, create=True)
     header.check_size(len(bytes))
     hlen = len(header)
     data = np.empty([hlen + len(bytes)], dtype=np.uint8)
-- 
2.43.0


From 890b5f7c90bb46464c33f3d4ffe3c0f97b845197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:47 +0000
Subject: [PATCH 60/66] fix: SpartaDOS files of 8 MB and more were listed with
 a negative length

---
 atrcopy/spartados.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 885c17b..f4a256d 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -13,7 +13,7 @@ class SpartaDosDirent(AtariDosDirent):
         ('status', 'u1'),
         ('sector', '<u2'),
         ('len_l', '<u2'),
-        ('len_h', 'i1'),
+        ('len_h', 'u1'),
         ('filename','S8'),
         ('ext','S3'),
         ('date','S3'),
@@ -69,7 +69,7 @@ class SpartaDosDirent(AtariDosDirent):
             self.ext = b""
         else:
             self.ext = bytes(values[5]).rstrip()
-        self.length = 256*256*values[3] + values[2]
+        self.length = 256*256*int(values[3]) + int(values[2])
         self.date_array = tuple(data[17:20])
         self.time_array = tuple(data[20:23])
         self.is_sane = self.sanity_check(image)
-- 
2.43.0


From 81e891a0ce2a713e54755b43c0298b08f47df98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:05 +0000
Subject: [PATCH 61/66] fix: deleted files on SpartaDOS disks were listed,
 extracted and could hide a file of the same name

---
 atrcopy/spartados.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index f4a256d..fad4ed3 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -177,7 +177,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         s = self.get_file_segment(d)
         for filenum, i in enumerate(range(23, min(d.length, len(s)) - 22, 23)):
             dirent = SpartaDosDirent(self, filenum + 1, s[i:i + 23])
-            self.files.append(dirent)
+            if dirent.in_use:
+                self.files.append(dirent)
         self.root_dir_dirent = d
 
     def get_boot_segments(self):
-- 
2.43.0


From 3beb3aa734c1355f035fb8a8beaca65d2dac0484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 62/66] fix: SpartaDOS files whose sector map ends early were
 silently truncated

---
 atrcopy/spartados.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index fad4ed3..7cdbce6 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -244,6 +244,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
                 byte_order.extend(list(range(pos, pos + size)))
             else:
                 break
+        if dirent.length_remaining > 0 and dirent.file_num > 0:
+            raise errors.InvalidFile("Bad sector map: %d bytes missing at the end of %s" % (dirent.length_remaining, dirent.filename))
         if len(byte_order) > 0:
             name = "%s %d@%d %s" % (dirent.filename, dirent.length, dirent.starting_sector, dirent.str_timestamp)
             verbose_name = "%s (%d bytes, sector map@%d) %s %s" % (dirent.filename, dirent.length, dirent.starting_sector, dirent.verbose_info, dirent.str_timestamp)
-- 
2.43.0


From 1fcc3bf74fd51b9de67bcbd16638d9be0e5400df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:33 +0000
Subject: [PATCH 63/66] fix: TypeError when making a KBoot image with user
 supplied boot code

---
 atrcopy/kboot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index f740628..6bdd777 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -110,8 +110,8 @@ def add_xexboot_header(bytes, bootcode=None, title=b"DEMO", author=b"an atari us
     else:
         # don't insert title or author in user supplied bootcode; would have to
         # assume that the user supplied everything desired in their own code!
-        title = ""
-        author = ""
+        title = b""
+        author = b""
     bootsize = np.alen(bootcode)
     v = bootcode[9:11].view(dtype="<u2")
     v[0] = xex_size
-- 
2.43.0


From 8a5bf16863858b2a91ea9a378ac484800d1cd352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:23 +0000
Subject: [PATCH 64/66] fix: show the general help when --help follows only a
 disk image name

---
 atrcopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 12cc3f1..e01783f 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -572,7 +572,7 @@ def run():
                 # if the first argument without a leading dash looks like a
                 # command instead of a disk image, show help for that command
                 args = [non_dash[0], "--help"]
-            elif len(non_dash) > 0 and non_dash[1] in reverse_aliases:
+            elif len(non_dash) > 1 and non_dash[1] in reverse_aliases:
                 # if the first argument without a leading dash looks like a
                 # command instead of a disk image, show help for that command
                 args = [non_dash[1], "--help"]
-- 
2.43.0


From d94b4be8cfe25f3b6053d644f7f1260ead450f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:57 +0000
Subject: [PATCH 65/66] fix: clearing a SpartaDOS disk overwrote files because
 its bitmap was read as an Atari DOS VTOC

---
 atrcopy/spartados.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 7cdbce6..b94b363 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -3,6 +3,7 @@ import numpy as np
 from . import errors
 from .ataridos import AtariDosDirent, AtariDosDiskImage, XexSegment
 from .segments import DefaultSegment, EmptySegment, ObjSegment, RawSectorsSegment, SegmentSaver
+from .utils import VTOC
 
 import logging
 log = logging.getLogger(__name__)
@@ -108,6 +109,16 @@ class SpartaDosDirent(AtariDosDirent):
         return raw[0:num_data_bytes], sector == 0, pos, num_data_bytes
 
 
+class SpartaDosVTOC(VTOC):
+    def parse_segments(self, segments):
+        # one bit for each sector starting at sector 0 (which doesn't exist),
+        # set if the sector is free
+        bits = np.unpackbits(segments[0].data)[0:self.header.max_sectors + 1]
+        self.sector_map = np.zeros([max(self.header.max_sectors + 1, 1280)], dtype=np.uint8)
+        self.sector_map[0:len(bits)] = bits
+        self.sector_map[0] = 0
+
+
 class SpartaDosDiskImage(AtariDosDiskImage):
     def __init__(self, *args, **kwargs):
         self.first_bitmap = 0
@@ -117,6 +128,10 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         self.fs_version = 0
         AtariDosDiskImage.__init__(self, *args, **kwargs)
 
+    @property
+    def vtoc_class(self):
+        return SpartaDosVTOC
+
     def __str__(self):
         return "%s Sparta DOS Format: %d usable sectors (%d free), %d files" % (self.header, self.total_sectors, self.unused_sectors, len(self.files))
 
-- 
2.43.0


From f4d3694aafc1fc4a9c17c5a7570a3855fbbdb600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:16 +0000
Subject: [PATCH 66/66] fix: refuse changes to disks that can't be changed with
 a clean error, leaving the open image usable

---
 atrcopy/diskimages.py | 2 ++
 atrcopy/kboot.py      | 3 +++
 atrcopy/spartados.py  | 4 +++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 6a48f16..20a012e 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -338,6 +338,8 @@ class DiskImageBase(Bootable):
 
     def get_vtoc_object(self):
         vtoc_segments = self.get_vtoc_segments()
+        if not vtoc_segments:
+            raise errors.UnsupportedDiskImage("No allocation map in this type of disk image")
         vtoc = self.vtoc_class(self.header, vtoc_segments)
         return vtoc
 
diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 6bdd777..cb2ca26 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -52,6 +52,9 @@ class KBootImage(AtariDosDiskImage):
             self.all_sane = False
         self.files = [dirent]
 
+    def begin_transaction(self):
+        raise errors.UnsupportedDiskImage("Changing KBoot disks is not supported")
+
     def get_file_segment(self, dirent):
         start = dirent.exe_start
         end = dirent.exe_start + dirent.exe_size
diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index b94b363..cc58005 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -181,7 +181,9 @@ class SpartaDosDiskImage(AtariDosDiskImage):
     def get_vtoc(self):
         pass
 
-    def get_directory(self):
+    def get_directory(self, directory=None):
+        if directory is not None:
+            raise errors.UnsupportedDiskImage("Changing files on SpartaDOS disks is not supported")
         self.files = []
         dir_map = self.get_sector_map(self.root_dir)
         sector = dir_map[0] if dir_map is not None else 0
-- 
2.43.0

