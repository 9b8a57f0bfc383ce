#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

NR="src/attribute_value/non_resident.rs"; AL="src/attribute_value/attribute_list_non_resident.rs"
RS="src/attribute_value/resident.rs"; MOD="src/attribute_value/mod.rs"; AT="src/attribute.rs"
p("C01","Non-resident values read as one contiguous stream under any history",
  "For every well-formed cluster layout (any run lengths, any physical order, sparse runs, a size that ends anywhere in the allocation, an initialized part that ends anywhere in the size) a non-resident value behaves as one contiguous seekable byte stream: whatever reads and seeks came before, a read at position p returns exactly the stream's bytes from p on, zeros for sparse runs and beyond the initialized part, stops exactly at the value's length, and advances the position by the number of bytes returned. Seeks from the start, the end and the current position land exactly where the same seeks on a byte array would, positions past the end are allowed and read nothing, and negative or overflowing targets fail without moving. Reading through the attached standard reader and through the detached value gives the same results. A single data run, read on its own, is such a stream too, as long as its allocation. Where the run list goes on with something that denotes no run, everything in front of that still reads as ever, reading what lies behind it is an error, and an operation that fails does not move.",
  ["inputs","histories","configurations"],
  "Every run layout, data size and initialized size, and every sequence of reads and seeks of any sizes.",
  "The tests do a handful of reads and seeks on two files of one test image; the result depends on the whole history (current run, offset in the run, position) and on the layout, which is a product no list of examples covers.",
  [NR,MOD,AT],
  [("StreamState::{optimize_seek,simplify_seek,read_data_run,seek_data_run}",NR),("NtfsNonResidentAttributeValue::{read,seek,rewind}",NR),("NtfsDataRun::read",NR)],
  ["NtfsReadSeek::{read,seek,stream_position} on the value","Read/Seek on the attached value","data_position()"],
  [("stream_position","position in the whole value",NR),("stream_data_run","current run and the offset in it",NR)])
p("C02","A value split over several file records reads as the same single stream",
  "When a non-resident value's extents are spread over several file records through an attribute list (itself stored in the record or outside it), the value reads and seeks exactly like the one contiguous stream formed by its extents in order, with the length given by its first extent. This holds for every distribution of the extents over records and for every history of reads and seeks, including rewinds across records.",
  ["inputs","histories","configurations"],
  "Every distribution of a value's runs over extension records, every attribute-list form, every read/seek sequence.",
  "The single test image has one fragmented sparse file read front to back plus two seeks; rewinding, seeking across records and uneven distributions are never exercised.",
  [AL,AT,"src/structured_values/attribute_list.rs"],
  [("NtfsAttributeListNonResidentAttributeValue::{read,seek,next_data_run,next_attribute,rewind}",AL),("AttributeListConnectedEntries::next",AL)],
  ["NtfsReadSeek on the list-connected value"],
  [("attribute_state","current record, attribute and run-iterator state",AL),("connected_entries","remaining list entries of this value",AL)])
p("C03","Values stored inside the file record read and seek like a byte array",
  "A resident value returns exactly the bytes stored in its attribute, at any position reached by any history of reads and seeks; reads stop at the value's length, positions past the end read nothing, and negative or overflowing seeks fail without moving.",
  ["inputs","histories"],
  "Every value length and placement in the record, every read/seek sequence.",
  "One 5-byte file is read once and seeked three times in the tests.",
  [RS,MOD,AT],
  [("NtfsResidentAttributeValue::{read,seek}",RS),("seek_contiguous",MOD),("resident_value / validate_resident_value_sizes",AT)],
  ["NtfsReadSeek on the value"])
p("C04","Run lists decode to exactly the extents they encode, or to an error",
  "Every encoded run list is decoded to exactly the extents it denotes: lengths and signed location deltas of any permitted byte width, deltas accumulated over the preceding located runs, a run without a location field being sparse and every other run (even at cluster 0 or with delta 0) being located. Zero lengths, over-wide fields, truncated fields, locations below zero and products that overflow are reported as errors, never decoded to something else, and decoding ends at the end marker or the end of the attribute and stays ended.",
  ["inputs"],
  "Every byte string that can stand in the run-list area of an attribute, for every cluster size.",
  "Tests decode the run lists of one image made by one formatter; negative deltas, 8-byte fields, sparse runs between located ones, overflow and truncation cannot be sampled exhaustively by hand.",
  [NR,"src/types.rs"],
  [("NtfsDataRuns::next",NR),("read_variable_length_{signed,unsigned}_integer",NR),("Lcn::checked_add, Lcn::position","src/types.rs")],
  ["NtfsNonResidentAttributeValue::data_runs()"])
p("C05","Torn multi-sector records are never accepted; intact ones are restored exactly",
  "A file record or index record that was being rewritten when power was lost, with any subset of its sectors carrying the new write and the rest the old one, is rejected unless all of its sectors stem from the same write. A record that is accepted is delivered with every sector's original last two bytes restored, so that its content is exactly one complete written version; a record whose protection array does not cover all its sectors is rejected.",
  ["crash_points","inputs"],
  "Every subset of sectors reached at every crash point of a record write, every record size and update sequence number, for file and index records.",
  "All records in the test image are intact, so no test ever reaches a crash point.",
  ["src/record.rs","src/file.rs","src/index_record.rs"],
  [("Record::fixup","src/record.rs"),("NtfsFile::new, NtfsIndexRecord::new call fixup before anything else","src/file.rs")],
  ["Ntfs::file()","NtfsIndexAllocation::record_from_vcn()","records()"])
p("C06","Record numbers resolve through a fragmented table to exactly that record",
  "Looking up file record n returns the record stored at bytes n*record_size of the master file table's own data stream, for every fragmentation of the table, including tables with fragments out of physical order and records that straddle two fragments. A number whose record does not lie completely inside the table is an error, never some other record or other disk content.",
  ["inputs","configurations"],
  "Every fragmentation of the table, cluster size, record size and record number (including numbers near 2^64).",
  "The test image has a contiguous table and only small valid numbers are looked up.",
  ["src/ntfs.rs","src/file.rs"],
  [("Ntfs::file","src/ntfs.rs"),("NtfsFile::new","src/file.rs")],
  ["Ntfs::file(), NtfsFileReference::to_file(), NtfsIndexEntry::to_file()"])
p("C07","Attribute iteration yields every logical attribute exactly once",
  "Iterating a file's attributes yields every logical attribute exactly once with its own type, name and complete value, no matter how the attributes and their extents are distributed over the base record and extension records: an attribute described by the list but stored in the base record is not repeated, continuation extents are not reported as attributes of their own, and distinct attributes are never merged even if they share type and instance number in different records. Raw iteration of a record yields exactly the attributes physically stored in it, in order.",
  ["configurations","inputs"],
  "Every set of attributes, every assignment of them and their extents to records, every instance numbering, resident and non-resident lists.",
  "One image with one fragmented file exercises one distribution.",
  [AT,"src/structured_values/attribute_list.rs",AL],
  [("NtfsAttributes::next",AT),("NtfsAttributesRaw::next",AT),("NtfsAttributeListEntries::next","src/structured_values/attribute_list.rs")],
  ["NtfsFile::attributes(), attributes_raw()","NtfsAttributeItem::to_attribute().value()"])
p("C08","Stream, name, info and directory lookups select exactly the right attribute",
  "Asking a file for a data stream returns the first data attribute whose name equals the requested one under the volume's case folding (the empty name meaning the unnamed stream only) and nothing if there is none. Asking for a file name with optional namespace and parent filters returns the first stored file name satisfying both filters; asking for standard information, volume name or volume information returns that attribute, and asking for a directory index uses the attributes of the directory index only and fails on a non-directory.",
  ["inputs","configurations"],
  "Every set of streams, names, namespaces, parents and other indexes on a file and every query.",
  "Tests look up the unnamed stream only; named streams, several names and several indexes per file never occur.",
  ["src/file.rs","src/ntfs.rs"],
  [("NtfsFile::{data,name,info,directory_index,find_attribute,find_resident_attribute}","src/file.rs"),("Ntfs::{volume_info,volume_name}","src/ntfs.rs")],
  ["NtfsFile::data/name/info/directory_index","Ntfs::volume_info/volume_name"])
p("C09","Directory iteration yields every entry exactly once, in order, and then ends",
  "Iterating an index yields every entry stored in the root and all subnodes exactly once in in-order sequence (entries of a subnode before the entry that refers to it), for every tree shape, depth and fan-out, and never yields the key-less terminating entries. After the last entry the iteration has ended for good.",
  ["inputs","configurations"],
  "Every index tree: depth, fan-out, unbalanced shapes, empty nodes, subnodes under terminating entries, any record size.",
  "The tests iterate two directories of one image, with at most two levels.",
  ["src/index.rs","src/index_entry.rs","src/index_record.rs"],
  [("NtfsIndexEntries::next","src/index.rs"),("IndexNodeEntryRanges::next","src/index_entry.rs")],
  ["NtfsIndexEntries::next()"],
  [("inner_iterators","stack of node iterators","src/index.rs"),("following_entries","entries to return after a subnode","src/index.rs")])
p("C10","Directory search finds a name if and only if the index contains it",
  "Searching an index for a key returns the entry holding an equal key if one exists anywhere in a correctly sorted tree and nothing otherwise, with the entry's own file reference. A search reads at most one subnode per tree level, and a finder can be reused for any sequence of searches.",
  ["inputs","histories","configurations"],
  "Every sorted tree, every present and absent key, every sequence of searches with one finder.",
  "The tests search existing numeric names in one directory only.",
  ["src/index.rs","src/indexes/file_name.rs","src/upcase_table.rs"],
  [("NtfsIndexFinder::find","src/index.rs"),("NtfsFileNameIndex::find","src/indexes/file_name.rs")],
  ["NtfsIndexFinder::find, NtfsFileNameIndex::find"])
p("C11","Name comparison follows the volume's own case-folding table and is a total order",
  "Two names compare by mapping every UTF-16 code unit through the case-folding table stored on that volume and comparing the mapped units as numbers from the front, a proper prefix being smaller. The result is the same for both string representations, reversing the operands reverses the result, the relation is transitive, and names are equal exactly if all mapped units are equal.",
  ["inputs","configurations"],
  "Every pair of UTF-16 strings (including unpaired surrogates) and every content of the volume's table.",
  "The only test checks that a..z map to A..Z.",
  ["src/upcase_table.rs"],
  [("upcase_cmp_iter","src/upcase_table.rs"),("UpcaseTable::read","src/upcase_table.rs")],
  ["UpcaseOrd::upcase_cmp"])
p("C12","A subnode reference yields the node it names or an error",
  "Following a reference to an index node returns the node stored at exactly that virtual cluster number or an error: a node stating another number, a number outside the allocation, a negative number, and a reference without any allocation are all reported. Numbers are counted in clusters if an index record is at least one cluster long and in 512-byte units otherwise. Iterating all index records yields each stored record once, in order.",
  ["inputs","configurations"],
  "Every reference value, node placement, cluster size and index record size, contiguous or fragmented allocations.",
  "The tests follow only valid references on a 512-byte-cluster image.",
  ["src/structured_values/index_allocation.rs","src/index_record.rs","src/types.rs"],
  [("NtfsIndexAllocation::record_from_vcn","src/structured_values/index_allocation.rs"),("NtfsIndexRecords::next","src/structured_values/index_allocation.rs")],
  ["record_from_vcn(), records(), NtfsIndexEntries::next()"])
p("C13","Volume geometry is derived exactly from the boot sector or rejected",
  "For every boot sector the reported cluster size, sector size, file record size, volume size, table position and serial number are exactly those its fields encode, including the negative-exponent encodings and 64-bit products. A boot sector without the signature, or with sizes that are not powers of two, out of the supported ranges or overflowing, or with no table location, is rejected.",
  ["inputs"],
  "All values of all boot sector geometry fields in combination.",
  "Tests open one image with 512-byte sectors and one sector per cluster.",
  ["src/boot_sector.rs","src/ntfs.rs"],
  [("BiosParameterBlock::{cluster_size,file_record_size,sectors_per_cluster,sector_size,mft_lcn}","src/boot_sector.rs"),("Ntfs::new","src/ntfs.rs")],
  ["Ntfs::new() and the Ntfs accessors"])
p("C14","Malformed metadata never causes a panic or an endless operation",
  "Whatever bytes a volume contains in its boot sector, records, attributes, lists, run lists, indexes and values, every library operation on it returns a value, an end or an error; no operation panics, overflows or accesses memory out of bounds. Every iteration over a finite volume ends or reports an error after a number of steps bounded by the volume's content, also when index nodes refer to each other in a cycle.",
  ["inputs"],
  "Every corruption of every size, offset, count, flag and reference field, alone and in combination, truncated devices, cyclic references.",
  "No test opens a damaged volume.",
  ["src/attribute.rs","src/record.rs","src/index_entry.rs","src/index_record.rs","src/index.rs","src/structured_values/index_root.rs","src/error.rs"],
  [("validate_* functions",AT),("validate_sizes","src/index_record.rs"),("validate_size","src/index_entry.rs"),("From<binrw::Error>","src/error.rs")],
  ["all public operations"])
p("C15","Handles sharing one device reader never influence each other",
  "Any number of values, iterators and searches that share one device reader, and any clones of them, can be used in any interleaving, and each behaves exactly as if it were used alone; the position the shared reader was left at does not matter, and a clone continues independently from the state it was cloned in.",
  ["schedules","histories"],
  "Every interleaving of operations of several handles and clones over one reader.",
  "The tests use handles one after the other.",
  [NR,AL,"src/index.rs",AT],
  [("every device access seeks to an absolute position first",NR),("values keep their own cursor",NR)],
  ["NtfsReadSeek, NtfsAttributes::next, NtfsIndexEntries::next on several live objects"])
p("C16","Device faults are reported and never turn into wrong data",
  "With a device that reads short, is interrupted, or fails at any access, an operation either succeeds with exactly the result it would have had without the fault (possibly fewer bytes for a single read) or returns the error; bytes delivered always are the stream's bytes at the position reported before the read. After a failed operation the object stays usable: the position it reports is the position its next read delivers from, a failed read has consumed nothing, interrupted accesses are retried by exact reads, and repeating the operation on the recovered device gives the fault-free result.",
  ["fault_sequences","histories"],
  "Every placement of short reads, interruptions and errors over the device accesses of every operation sequence.",
  "Tests run over an in-memory cursor that never fails or reads short.",
  ["src/traits.rs",NR,AL],
  [("NtfsReadSeek::read_exact","src/traits.rs"),("read loops over runs",NR),("next_data_run / next_attribute / rewind",AL)],
  ["read, read_exact, seek, stream_position under an instrumented device"])
p("C17","Typed attribute values decode to exactly the stored fields",
  "Each typed value (standard information, file name, volume information, volume name, object id, attribute list entry, file record header, attribute header, index entry) reports for every stored byte pattern exactly the stored little-endian field values, with optional fields present exactly if the value is long enough to contain them. Identifiers print in the canonical zero-padded form.",
  ["inputs"],
  "All field values and all value lengths.",
  "The tests read the fields of a few records of one image, mostly with small values and zeros.",
  ["src/structured_values/standard_information.rs","src/structured_values/file_name.rs","src/structured_values/volume_information.rs","src/structured_values/volume_name.rs","src/structured_values/object_id.rs","src/structured_values/attribute_list.rs","src/guid.rs","src/file_reference.rs","src/file.rs"],
  [("BinRead layouts and accessors","src/structured_values/"),("NtfsGuid Display","src/guid.rs")],
  ["structured value accessors"])
p("C18","Reported device positions are where the reported bytes really are",
  "Every position the library reports (of records, attributes, value data, run-list entries, attribute list entries, index roots, index records and index entries) is the absolute device position at which the bytes of that object are stored, or no position where the object has none. In particular the data position of a value, wherever its cursor stands inside the value, is the place from which its next byte is read (a cursor that has just read up to the border between two runs may also still name the end of the run it has read), and behind the allocation there is none.",
  ["inputs","configurations","histories"],
  "Every object of every volume layout, every cursor position.",
  "Tests compare positions only with each other for one file.",
  [AT,RS,NR,"src/index_record.rs","src/index_entry.rs","src/structured_values/index_root.rs","src/structured_values/attribute_list.rs"],
  [("position()/data_position() accessors",AT),("NtfsDataRun::data_position",NR)],
  ["position(), data_position()"])
p("C19","Timestamps convert to calendar and system time and back without loss",
  "Every 64-bit timestamp converts to a date-time and back to the same timestamp; converting a date-time or system time to a timestamp gives the 100-nanosecond interval that contains it, preserves order, and reports an error for times before 1601 (or before 1970 for system time) and for times that a 64-bit timestamp cannot hold.",
  ["inputs"],
  "Every timestamp, date-time and system time, at the borders of the ranges and around every carry.",
  "Six dates with whole seconds are tested.",
  ["src/time.rs"],
  [("TryFrom<OffsetDateTime>, From<NtfsTime>, TryFrom<SystemTime>","src/time.rs")],
  ["NtfsTime conversions"])
p("C20","Structures that contradict their container are reported, never read past it",
  "A record, attribute, value, list entry, index root, index record or index entry whose declared sizes, offsets or lengths do not fit into the structure that contains it is reported as an error by the operation that needs them. No operation ever returns bytes lying outside the structure as if they belonged to it, and structures that just fit are accepted.",
  ["inputs"],
  "Every declared size and offset around each border, for every structure.",
  "All sizes in the test image are consistent.",
  [AT,"src/file.rs","src/index_record.rs","src/index_entry.rs","src/structured_values/index_root.rs","src/structured_values/file_name.rs","src/structured_values/attribute_list.rs"],
  [("validate_attribute_length, validate_name_sizes, validate_resident_value_sizes",AT),("NtfsFile::validate_sizes","src/file.rs"),("NtfsIndexRecord::validate_sizes","src/index_record.rs")],
  ["accessors of all structures on damaged volumes"])
p("C21","The sector-aligned reader delivers the same bytes through aligned accesses only",
  "The shell's sector reader lets any sequence of reads and seeks (from the start or the current position; seeks from the end of a device are documented as unsupported) on a device that only supports whole aligned sectors return exactly the bytes a direct reader would return at the same positions, for reads that lie within the device, while every access it makes to the device starts at a sector boundary and covers whole sectors. It never needs sectors beyond those containing requested bytes.",
  ["inputs","histories"],
  "Every sequence of reads and seeks, every sector size.",
  "The example has no tests.",
  ["examples/ntfs-shell/sector_reader.rs"],
  [("SectorReader::{read,seek,align_down,align_up}","examples/ntfs-shell/sector_reader.rs")],
  ["Read and Seek of the sector reader"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
