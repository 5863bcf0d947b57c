"""Writes properties.jsonl (kept as code so that it stays easy to edit)"""
import json, os
P = []

def prop(id, title, statement, over, quant, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed="none: observed at the public API / command line")))

FS = ["atrcopy/diskimages.py", "atrcopy/utils.py", "atrcopy/ataridos.py", "atrcopy/dos33.py"]

prop("C01", "A file written to a disk image reads back byte for byte",
     "After any sequence of successful file additions and deletions on a writable image (Atari DOS 2 single, double and 130K enhanced density, with or without the 16-byte header, and Apple DOS 3.3), every file that was added and not deleted is found under its name and reads back with exactly the bytes written; on DOS 3.3 the data may only be followed by zero bytes up to the end of the last 256-byte sector. This holds both on the open image and after saving it to a file and opening that file again, for every size from zero to the whole disk and every byte content.",
     ["inputs", "histories"], "all file contents, sizes, legal names and all histories of writes, deletes and re-opens, on all writable formats, blank or already populated disks",
     "the tests write a handful of files in one fixed order to a few sample images; boundary sizes (sector multiples, several track/sector lists), fragmented free space and long histories are not reached",
     FS, [("sector chaining", "AtariDosWriteableSector / Dos33TSSector, VTOC.assign_sector_numbers"), ("write/read path", "DiskImageBase.write_file, get_file_segment")],
     ["image.files / find_file after each operation", "the saved file re-opened"])

prop("C02", "Changing one file leaves everything else on the disk alone",
     "Adding, deleting or replacing a file changes only that file: every other file keeps its name, type, lock flag, position in the listing and contents, and apart from the directory and the allocation map no byte changes outside the sectors that were free (for an addition) or, for a deletion, no byte changes at all. Boot sectors, the volume's own header fields, the image's file header and sectors that are neither free nor part of the file are never written.",
     ["inputs", "histories"], "all images (blank, populated, with foreign, locked, deleted or damaged entries) and all histories of operations",
     "tests compare only the file just written; damage to a neighbour needs a specific directory or free-space layout",
     FS, [("directory rewrite", "Directory.calc_sectors, encode_dirent"), ("sector writes", "DiskImageBase.write_sector_list")],
     ["image bytes before/after each operation", "independent directory reader"])

prop("C03", "Allocation map and files always agree; no sector has two owners",
     "After every successful operation, each sector used by a file is marked allocated and belongs to exactly one file, no file uses system sectors (boot area, allocation map, directory), and the set of sectors marked allocated is exactly the set in use before plus those of an added file, or minus those of a deleted file. The free-sector count stored on an Atari disk always equals the number of free sectors in the map.",
     ["inputs", "histories"], "all histories of writes and deletes from every starting image, including fragmented and nearly full disks",
     "double allocation and leaks appear only after particular delete/write sequences, and the tests never examine the map independently of the code that wrote it",
     FS, [("allocator", "VTOC.reserve_space / free_sector_list, AtariDosVTOC, Dos33VTOC")],
     ["independent fsck of the image bytes after every operation"])

prop("C04", "A failing change leaves the image exactly as it was and usable",
     "If adding or deleting a file fails for any reason (disk full, directory full, no such file, unusable name or data, damaged file chain), the error is reported and the image bytes are identical to those before the attempt; the same open image keeps working and its next operations behave as if the failed one had never been tried. Adding, deleting or clearing on kinds of images that can't be changed (cartridges, ROMs, executables, arcade zips, boot and KBoot disks; for SpartaDOS disks, adding and deleting) always fails this way. When a command that changes a disk image file fails in making the change, the file on disk is byte-identical to before (failures of the operating system while the finished image is being written out are not covered).",
     ["inputs", "histories", "fault_sequences"], "all failing operations at every point of every history, with failures injected at every step of the update",
     "tests provoke one or two failures on fresh images and look at the exception, not at the bytes",
     ["atrcopy/diskimages.py", "atrcopy/utils.py", "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/__init__.py"],
     [("transaction", "DiskImageBase.begin_transaction / rollback_transaction")],
     ["image bytes around each failing call", "follow-up operations on the same object", "file bytes around failing commands"])

prop("C05", "Operations succeed exactly when there is room, and space is conserved",
     "Adding a file succeeds if and only if the free sectors suffice for its data (plus, on DOS 3.3, one list sector per 122 data sectors) and a directory slot is free; otherwise it fails with the disk-full or directory-full error. Deleting succeeds exactly for files on the disk and gives back every sector and the directory slot, so that deleting what was added restores the previous free count and the same file fits again; the reported free-sector counts always match.",
     ["inputs", "histories"], "all file sizes around the exact capacity, all directory fill levels, all histories",
     "the exact boundary and the conservation over long histories are not sampled by tests",
     FS, [("space check", "VTOC.get_next_free_sector, Directory.get_free_dirent, Dos33Dirent.add_metadata_sectors")],
     ["exception type and free counts before/after each operation against an independent count"])

prop("C06", "What is written is what the native DOS expects",
     "Every disk produced by a successful addition conforms to the on-disk format of the native operating system when read by an independent implementation: Atari entries carry the DOS 2 in-use flag, space-padded upper-case-as-given 8.3 names, correct sector count and start, and each data sector links to the next with the right file number and byte count and a final zero link; DOS 3.3 entries carry type, high-bit space-padded names, the correct sector count, and chained track/sector lists with the right offsets. Allocation bitmaps use the native bit order.",
     ["inputs", "histories"], "all files, names, types and histories",
     "the tests read back with the same code that wrote, so symmetric errors are invisible",
     FS, [("encoders", "AtariDosDirent.encode_dirent, AtariDosWriteableSector, Dos33Dirent.encode_dirent, Dos33TSSector")],
     ["independent reader over the image bytes"])

prop("C07", "Disks written by the native DOS are read correctly",
     "For every well-formed Atari DOS 2 / 2.5 or DOS 3.3 disk, whatever wrote it (fragmented chains in any sector order, deleted and locked entries, unused gaps, all file types, full directories), the listing shows exactly the live files with their names, sizes and flags and each reads back its exact contents. A file whose chain is damaged is reported as an error when read and does not prevent the other files from being listed and read.",
     ["inputs"], "all well-formed disk contents, and single damaged files on otherwise good disks",
     "tests use a few images mostly produced by contiguous writes",
     FS, [("readers", "AtariDosDiskImage.get_directory, process_raw_sector, Dos33Dirent.get_track_sector_list")],
     ["image.files, find_file on images from an independent disk builder"])

prop("C08", "A compressed image behaves exactly like the image inside it",
     "Opening a gzip, bzip2 or xz compressed image, at any compression level and in one or several concatenated streams, gives the same format, listing, segments and file contents as opening the uncompressed image. Truncated or corrupted compressed data never yields a different disk: it is either rejected with a clean error or treated as unrecognized raw data, and Disk Communicator files are reported as unsupported.",
     ["inputs"], "all images, compressors, levels, stream splits, corruptions and truncations",
     "tests cover one compressed copy per format and compressor",
     ["atrcopy/container.py", "atrcopy/dcm.py", "atrcopy/parsers.py", "atrcopy/__init__.py"],
     [("containers", "DiskImageContainer subclasses, guess_container")],
     ["find_diskimage on packed versus plain data"])

prop("C09", "Any input ends in a parsed image or a clean library error",
     "Opening any byte string whatsoever, listing it, reading every listed file and describing its segments terminates, and every failure is one of the library's own error types; no other exception, endless loop or unbounded memory growth is possible, however corrupted the headers, allocation maps, directories, sector links or executables are.",
     ["inputs"], "all byte strings, in particular structure-aware corruptions of valid images of each format",
     "the tests open valid files",
     ["atrcopy/__init__.py", "atrcopy/parsers.py", "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/spartados.py", "atrcopy/kboot.py", "atrcopy/cartridge.py", "atrcopy/mame.py", "atrcopy/container.py", "atrcopy/dcm.py"],
     [("parser chain", "find_diskimage_from_data, SegmentParser.parse"), ("cycle detection", "process_raw_sector, get_track_sector_list, get_sector_map")],
     ["exception class and step count of each call"])

prop("C10", "Reading and dry runs never modify anything",
     "Opening, listing, checksumming, extracting, describing segments or showing the allocation map never changes the disk image file nor the in-memory image contents, and with the dry-run option no command changes, creates or deletes any file or directory. Repeating a read gives the same result every time.",
     ["inputs", "programs"], "all images, all read-only commands and every command under dry-run",
     "tests do not compare file bytes and directory trees around read-only use",
     ["atrcopy/__init__.py", "atrcopy/diskimages.py", "atrcopy/segments.py"],
     [("dry run guards", "add_files, remove_files, extract_files, create_image, boot_image, assemble, shred_image")],
     ["directory tree snapshot around each command", "image bytes around API reads"])

prop("C11", "Add, delete and assemble commands do exactly what was asked",
     "The add command stores each named local file under its base name (cut to the length the directory can hold) with its exact bytes and the requested or default type, never replaces an existing file unless forced, and with force replaces it completely; files skipped because they exist do not affect the others. Delete removes exactly the named files and reports the missing ones; the assemble command stores under the requested name exactly the executable described by its inputs, and after the command the disk image file on disk contains the result.",
     ["inputs", "histories", "programs"], "all combinations of names, options and existing contents, over several successive commands",
     "no test runs the command line for these commands",
     ["atrcopy/__init__.py", "atrcopy/executables.py"],
     [("commands", "add_files, remove_files, save_file, assemble, assemble_segments")],
     ["the image file after each command, read by an independent reader"])

prop("C12", "Extraction writes exactly the requested files, and only those",
     "The extract command writes, for each requested (or with the all option each listed) file, one local file with the exact contents, in the current or the requested directory (created if needed), with a lower-cased name if asked and with Atari line ends and tabs converted only if the text option is given. It never overwrites an existing local file unless forced, and never writes outside the target directory whatever names the disk contains.",
     ["inputs", "programs"], "all disk contents and names, including hostile ones, and all option combinations",
     "no test runs the extract command",
     ["atrcopy/__init__.py"], [("extraction", "extract_files")],
     ["directory tree snapshot before/after"])

prop("C13", "Atari executables built from segments load as intended",
     "For any non-empty list of memory segments, the Atari executable built from them is one that an independent loader accepts and that loads exactly the given bytes at the given addresses in the given order, with the run address set to the requested one, or by default to the first segment's address, unless the segments themselves set it. A run address outside all segments is rejected and building never changes the input segments.",
     ["inputs"], "all segment lists (sizes, origins, overlaps, indexed or contiguous data, comments) and run addresses",
     "tests check a few fixed lists",
     ["atrcopy/executables.py", "atrcopy/ataridos.py"], [("builder", "get_xex, create_executable_file_data")],
     ["the produced bytes through an independent loader"])

prop("C14", "Atari executables are parsed into exactly their segments",
     "Parsing an Atari executable yields one segment per load block, in file order, with the block's load address and exactly its bytes, skipping header markers wherever they appear; data cut off at any byte is reported as an incomplete block containing the remaining bytes. Each segment is a window on the file: its position and contents map back to the same bytes of the file.",
     ["inputs"], "all block lists, markers, run/init blocks, truncation points",
     "tests parse a few valid files",
     ["atrcopy/ataridos.py", "atrcopy/parsers.py"], [("parser", "AtariDosFile.parse_segments")],
     ["parser.segments against an independent parser"])

prop("C15", "Apple binaries are built and parsed exactly",
     "For any list of segments the Apple DOS binary built from them has a 4-byte header with load address and length, and loading it puts every segment's bytes at its address with zeros in the gaps (later segments winning overlaps); if a run address other than the lowest address is requested the image starts with a jump to it placed just below, and a run address outside all segments is rejected. Parsing a binary yields exactly one segment with that address and data, and data whose length disagrees with the header is not accepted as such.",
     ["inputs"], "all segment lists, run addresses, file lengths",
     "tests check a few fixed lists",
     ["atrcopy/executables.py", "atrcopy/dos33.py", "atrcopy/segments.py"], [("builder/parser", "get_bsave, Dos33BinFile, BSAVESaver")],
     ["produced bytes through an independent loader", "parser.segments"])

prop("C16", "KBoot disks boot the executable they were made from",
     "An Atari boot disk made from a list of segments is a valid single-density image that, when booted by a simulated 6502 Atari, loads exactly the given bytes at the given addresses, runs init routines on the way and finally starts at the run address; executables too large for the loader are rejected. Opening that image again identifies it as a KBoot disk and gives back exactly the executable.",
     ["inputs"], "all segment lists below 64K total and all run addresses",
     "tests compare against one stored image",
     ["atrcopy/kboot.py", "atrcopy/executables.py"], [("boot image", "KBootImage.create_boot_image, add_xexboot_header")],
     ["memory and program counter of a 6502 simulation booting the image", "re-parse"])

prop("C17", "Apple boot disks load every segment and jump to the run address",
     "An Apple boot disk made from a list of segments that do not share memory pages is a standard 140K image that, when booted by a simulated 6502 with the Disk II boot ROM, loads every segment's bytes at its address before jumping to the run address (the requested one or the first segment's start), reading only sectors of the disk.",
     ["inputs"], "all segment lists that fit the disk and the boot sector's address list, and all run addresses",
     "tests only build two images and do not look at the result",
     ["atrcopy/standard_delivery.py", "atrcopy/fstbt.py"], [("boot image", "StandardDeliveryImage.create_boot_image, get_fstbt_code")],
     ["memory and program counter of a 6502 simulation booting the image"])

prop("C18", "Segments are live windows onto the right bytes of the image",
     "A segment obtained by contiguous slicing, by an arbitrary byte order, by interleaving or by combining these to any depth refers to exactly the base bytes that composition selects: reading, writing, index conversion to and from the base and address lookups all agree, the copy used for searching is current after writes through the same segment, writes through one view are visible through every other view and in the base, and bytes not selected never change. Resizing a container and re-pointing its children, copying, and extracting parallel data preserve these contents.",
     ["inputs", "histories"], "all compositions of slices, byte orders and interleavings, and all read/write histories",
     "tests use small fixed examples of depth one or two",
     ["atrcopy/segments.py"], [("views", "SegmentData, OrderWrapper, interleave_segments, DefaultSegment")],
     ["observed values against a plain list model"])

prop("C19", "Saved segment descriptions restore to identical segments",
     "Serializing the segments of any parsed image to JSON and restoring them against the same data gives segments of the same kind, order, name, address, length and bytes, with identical index mapping to the image and identical other attributes; restored segments are live views of the new data.",
     ["inputs"], "all image kinds and all user-made segments (slices, byte orders, interleaves)",
     "tests serialize a few images and compare few attributes",
     ["atrcopy/segments.py", "atrcopy/parsers.py"], [("serialization", "DefaultSegment.__getstate__/__setstate__/reconstruct_raw, SegmentParser.reconstruct_segments")],
     ["restored segments against originals"])

prop("C20", "Comments and styles stay attached to the bytes they were put on",
     "A comment or style set through any view of the data is visible at the corresponding byte through every other view and nowhere else; removing or clearing affects exactly the requested bytes and kinds; range queries return exactly the maximal runs that carry the style. Saving the session and restoring it on a fresh copy reproduces the same comments and styles, undo data restores the exact previous state, and building an executable carries comments along.",
     ["inputs", "histories"], "all views and all histories of set, clear, remove, undo, save and restore",
     "tests use single operations on small segments",
     ["atrcopy/segments.py", "atrcopy/executables.py"], [("style and comments", "DefaultSegment.set_style_ranges ... restore_comments, serialize_session/restore_session")],
     ["observed state against a dictionary model"])

prop("C21", "Cartridge and ROM images map each bank to the right bytes and address",
     "For every supported cartridge type, with header or with the type forced on raw data of the right size, the segments cover the cartridge data exactly with the fixed bank and the switchable banks at their documented offsets and addresses, and a size that does not match the type is rejected. Plain power-of-two ROMs give one segment with the whole data, arcade ROM zip files give one segment per ROM with exactly the zip members' bytes, and the image made for emulators is header plus data.",
     ["inputs"], "all cartridge types, contents and sizes, all zip archives of ROMs",
     "tests cover a few types",
     ["atrcopy/cartridge.py", "atrcopy/mame.py", "atrcopy/parsers.py"], [("banks", "A8CartHeader.set_type, get_main_segment, get_banked_segments")],
     ["parser.segments against an independent table"])

prop("C22", "Creating an image gives the template, and never destroys a file",
     "The create command writes exactly the bytes of the one template whose name contains the given text and the result opens as the described format with the described files; an unknown or ambiguous template creates nothing. An existing file is never overwritten unless forced.",
     ["inputs", "configurations"], "all template name fragments, target names and pre-existing files",
     "no test runs the create command",
     ["atrcopy/__init__.py", "atrcopy/templates"], [("templates", "create_image, get_template_data, get_template_images")],
     ["files before/after", "independent reader on the result"])

prop("C23", "Clearing empty space fills exactly the free sectors",
     "Clearing the unused space of a disk (Atari DOS 2, DOS 3.3 or SpartaDOS) fills every byte of every free sector with the fill value (zero from the command line) and changes no other byte; all files, the directory and the allocation map stay as they were, and the result is saved.",
     ["inputs", "histories"], "all disks and histories, all writable formats, all fill values",
     "tests shred a few sample images with one value",
     ["atrcopy/diskimages.py", "atrcopy/utils.py", "atrcopy/__init__.py"], [("shred", "DiskImageBase.shred, VTOC.iter_free_sectors")],
     ["image bytes before/after against an independent allocation map"])

prop("C24", "Sector numbering tiles the image exactly as the hardware does",
     "On every supported image size the sectors cover the image data exactly once in order, with 128-byte boot sectors where the format has them; sector numbers outside the disk are rejected; reading a range of sectors gives exactly their concatenation. The position label shown for any byte of a sector view names the sector (or track and sector) and offset where that byte really is.",
     ["inputs", "configurations"], "all disk sizes and densities, all sector numbers and ranges, all byte positions",
     "tests look at a few labels",
     ["atrcopy/ataridos.py", "atrcopy/diskimages.py", "atrcopy/dos33.py", "atrcopy/segments.py"], [("geometry", "AtrHeader.get_pos, BaseHeader.get_pos, get_sector_slice, RawSectorsSegment.label")],
     ["positions and labels against arithmetic from the format documents"])

prop("C25", "Formats are recognised from the contents alone",
     "Each valid image (Atari DOS, KBoot, SpartaDOS, Atari boot disk, DOS 3.3, executable, binary, cartridge, ROM, arcade zip) is identified as its own kind, with the same answer for a file as for its bytes in memory and regardless of the file name; data of no known kind is rejected with the unknown-image error. Recognition never alters the data, and the whole-image segment always holds exactly the input bytes.",
     ["inputs"], "all valid images of every kind with arbitrary contents, and arbitrary non-images",
     "tests check one sample per kind",
     ["atrcopy/parsers.py", "atrcopy/__init__.py", "atrcopy/magic.py"], [("detection", "find_diskimage_from_data, mime_parse_order, guess_parser_by_size")],
     ["parser class / mime type and segments[0]"])

prop("C26", "Listing, checksum and allocation reports tell the truth",
     "The list command shows one line per live file with its right number, flags, start, name and size, restricted to the requested names; the crc command prints exactly the CRC-32 of each file's contents; the vtoc command shows every sector of the disk as free or used exactly as in the allocation map with the right free total.",
     ["inputs", "histories"], "all disk contents and all selections of names",
     "no test runs these commands",
     ["atrcopy/__init__.py", "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/utils.py"], [("reports", "list_files, crc_files, Dirent.__str__, VTOC.__str__")],
     ["printed text against an independent reader"])

prop("C27", "SpartaDOS disks are read correctly",
     "For every well-formed SpartaDOS disk (any density and size, files placed anywhere, sector maps of any length including completely filled ones, large directories, locked files and subdirectories, deleted entries), the listing shows every live file and no deleted one with its name, flags and exact length, and each reads back, checksums and extracts with its exact contents; the boot, bitmap and directory segments show the right bytes. A file whose sector map is damaged or ends before the file does is reported as an error when read and does not affect the other files.",
     ["inputs"], "all well-formed SpartaDOS disks, and single damaged sector maps",
     "tests read a few sample disks with small files written in order",
     ["atrcopy/spartados.py", "atrcopy/ataridos.py"], [("reader", "SpartaDosDiskImage.get_directory, get_sector_map, SpartaDosDirent.read_sector, get_boot_segments")],
     ["image.files, get_file, segments on images from an independent disk builder"])

prop("C28", "Every spelling of a command does the same thing",
     "On the command line, an alias of a command (t, ls, dir and catalog for list, x, a, c, b, s, asm, rm, del, v), the long or short form of an option, an option value attached or separate, options before or after the file names, list options repeated or grouped, and --dry-run or -v before or after the image name are interchangeable: the files afterwards, the printed text, the exit status and any error are the same. -v only adds text. An image alone is listed. --help or -h anywhere shows the help of the command given (of the program without one), succeeds and touches no file; an unknown command or option is refused with a non-zero status and touches no file.",
     ["inputs"], "all command lines, on all images",
     "the tests call no command through its command line spelling; equivalence is between pairs of runs",
     ["atrcopy/__init__.py", "scripts/atrcopy"], [("command line", "run, AliasedSubParsersAction, command_aliases")],
     ["file tree, printed text, exit status of pairs of runs"])

prop("C29", "Images in one process don't influence each other",
     "What happens to an image and what is shown of it depends only on its bytes and on the operations applied to it: opening, listing, reading, changing, saving, annotating, serializing, building executables and boot disks, and running commands give the same results and the same bytes whether nothing else was done in the process or other images (also with the same contents) were opened, changed, annotated, or failed to open before or in between. The same history on the same bytes always gives the same result.",
     ["inputs", "histories", "schedules"], "all interleavings of histories on any number of images",
     "tests use one image at a time and never compare with a process that did something else before",
     ["atrcopy/segments.py", "atrcopy/diskimages.py", "atrcopy/parsers.py", "atrcopy/__init__.py", "atrcopy/utils.py"], [("isolation", "SegmentData, DefaultSegment, UserExtraData, DiskImageBase, VTOC, run")],
     ["results and state of every step, interleaved and alone"])

prop("C30", "The segments of a disk show each file and structure where it really is",
     "On every readable Atari DOS 2 or DOS 3.3 disk, whether written by the native DOS or changed by this package, the segment list ends with one segment per listed file in the order of the directory, named after it and holding exactly the file's stored bytes in order; every index converts to the image position where that byte is stored and back, and writing through the segment changes exactly those bytes of the image. A file that can't be read is an empty segment with an error text and doesn't affect the others. DOS 3.3 binaries are placed so that the first byte after their 4-byte header has the load address. The allocation map and directory (catalog) segments hold exactly those sectors, their built-in comments stand on the documented fields of each entry, and the segments command shows the same list.",
     ["inputs", "histories"], "all well-formed or damaged Atari DOS 2 and DOS 3.3 disks",
     "tests look at one or two segments of a few fixed images",
     ["atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/diskimages.py", "atrcopy/segments.py"], [("views", "get_file_segment, get_file_segments, get_vtoc_segments, get_directory_segments, parse_segments")],
     ["segments of opened images, image bytes after writes through them, output of the segments command"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p, ensure_ascii=False) + "\n")
