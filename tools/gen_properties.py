import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
L='src/lib.rs';B='src/builder.rs';D='src/dir_reader.rs';F='src/fst.rs';N='src/new_reader.rs';R='src/reader_writer.rs';S='src/structs.rs';W='src/window.rs';C='iso-tool/src/main.rs';Y='disc-riider-py/src/lib.rs'
ALL=[L,B,D,F,N,R,S,W,C,Y]
p('C01','No failure is swallowed',
 'Whenever an underlying read, write, seek, flush, file-system, parse or encode operation fails, the library call, CLI command or Python method that needed it fails too and never reports success. The only failures that may be ignored are those raised by user-supplied Python progress or filter callbacks.',
 ['fault_sequences','inputs'],'every failing operation at every point of every public operation of the library, the CLI and the Python module',
 'The tests run on in-memory buffers that never fail; no test injects a fault, and none runs the CLI or the Python module.',ALL,
 [('`?` / returned Result at every fallible call','all crates'),('error conversion helpers (into_pyerr, map_err)',Y)],observe=['return value / exception / exit status of the public operation'])
p('C02','Short reads and writes are never passed off as complete data',
 'When the source ends early or a transfer moves fewer bytes than requested, the operation that was asked for the whole range reports an error; it never returns or writes out a silently shortened file, table or buffer as if complete. Every loop that transfers data in pieces accounts for exactly the bytes each piece moved.',
 ['inputs','fault_sequences'],'every image length, recorded size and pattern of partial transfers',
 'Tests use complete buffers whose reads and writes always move everything.',[N,R,W,B,Y,S],
 [('read_exact / write_all / read_to_end for whole ranges',', '.join([B,N,R])),('end-of-data error in read_into_vec',N),('bytes_left accounting in the extraction loop',Y)],observe=['bytes delivered vs. bytes requested'])
p('C03','Malformed images produce errors, not crashes',
 'Opening an image, opening its partitions, listing or looking up their files and extracting them never panics, aborts on allocation or overflows the stack because of the bytes in the image; anything malformed ends in an ordinary error.',
 ['inputs'],'every byte string offered as an image',
 'The existing tests parse only tables the library itself has just produced.',[N,F,S,L,Y],
 [('bounds-checked node walk, checked sizes, depth limit',F),('validated key index',S),('widened size arithmetic and fallible reservation',N)],observe=['panic/abort of open, open_partition, read_*, extract_*'])
p('C04','Extraction never writes outside the destination folder',
 'Whatever names an image contains, every file or directory created by extraction lies below the destination folder the caller gave; a name that is not one plain path component makes the extraction fail instead.',
 ['inputs'],'every file and directory name an image can contain',
 'No test extracts anything; names in test tables are harmless.',[Y,N,F],
 [('check of every name before it is appended to an output path',Y),('constant file names for system files',N)],observe=['paths handed to file creation'])
p('C05','Reading returns exactly the bytes of the requested logical range',
 'For every logical offset, length and sequence of earlier reads and seeks, reading from a partition yields the bytes stored for exactly that range: logical byte p comes from the data area of block (p / 0x7C00) mod 64 of group p / 0x1F0000, at offset p mod 0x7C00 behind the 0x400-byte block header. Sequential reads advance the position by exactly the returned count, never pass the end of the data, and random-access reads leave it alone.',
 ['inputs','histories'],'every (offset, length) and every history of reads and seeks on one partition',
 'One test reads one range starting at 0 that spans two groups; nothing reaches other offsets, block edges, the cached-group path or the Python/CLI reader.',[N,R,L],
 [('offset decomposition and per-block copy loop',N),('same for the write-capable stream',R)],
 [('current_position','logical read position',N),('current_group/group_cache','which group is decrypted in memory',N)],['Read::read, read_into_vec, seek of the partition reader'])
p('C06','Writing places every byte at its logical position',
 'For every sequence of seeks and writes on a partition being built, the byte written at logical position p ends up in the data area of block (p / 0x7C00) mod 64 of group p / 0x1F0000 at offset p mod 0x7C00 behind the block header, never in a hash area. The position advances by exactly the number of bytes accepted, and bytes of the same group that were not written keep their previous value.',
 ['inputs','histories'],'every sequence of (seek, write) with arbitrary positions and lengths',
 'One test writes three ranges at fixed offsets; its assertion for a range in the second group is commented out.',[R,L],
 [('offset decomposition and per-block copy loop in write',R),('read-modify-write load of an existing group',R)],
 [('current_position, current_group, group_cache, is_dirty, filled_groups','write cursor and group cache',R)],['bytes of the finished image'])
p('C07','Every modified group is hashed, encrypted and written back before it is left',
 'Whenever a group of a partition being built has been modified, then before another group takes its place in memory or finishing reports success it has been hashed and encrypted, written whole at its own position in the image, and its digest stored in its own slot of the global hash table. A group is never written back without having been hashed and encrypted for that write.',
 ['histories','inputs'],'every order in which groups are visited by seeks and writes',
 'The test visits groups 0,1,0,1 once and does not look at hashes.',[R],
 [('write-back sequence when switching groups and in flush',R)],[('is_dirty','cache differs from file',R),('h3','global hash table',R)],['image bytes, H3 table'])
p('C08','Hash tree and encryption follow the Wii layout, and reading inverts them',
 'In every written group each block carries the 31 digests of its data sectors, the 8 digests of its subgroup and the 8 subgroup digests at their fixed places with zeroed padding; the hash area is encrypted under the title key with a zero IV and the data area with the IV taken from 0x3D0 of the encrypted hash area, for all 64 blocks. Reading decrypts all 64 data areas with the same key, IV position and extent.',
 ['inputs'],'every group content, title key and block index',
 'The test reads its own output back, so a mistake made consistently in both directions, or any hash mistake, goes unnoticed.',[R,N,S],
 [('hash_encrypt_block',R),('do_load_group decryption loops',', '.join([R,N])),('title key derivation',S)],observe=['image bytes against the disc format'])
p('C09','A failed group load never poisons later operations',
 'If fetching a group fails half-way, no later operation on the same partition may treat the half-filled memory as a valid group: a later read or write either loads the group properly or fails again.',
 ['fault_sequences','histories'],'every point at which seek or read can fail, followed by any further operations',
 'No test makes the underlying stream fail.',[N,R],
 [('current_group invalidated before the cache is overwritten',', '.join([N,R]))],[('current_group','claims which group the cache holds',', '.join([N,R]))],['data returned after an error'])
p('C10','A window never lets its user leave it',
 'All positions seen through a window are relative to its start: reads and writes touch only source bytes inside [start, start+length), a read that does not fit entirely fails or is shortened to the window, one that fits succeeds, and seeking from start, current or end yields exactly the corresponding window-relative position whatever the source position is.',
 ['inputs','histories'],'every window, every sequence of seeks, reads and writes, every other use of the source in between',
 'Two tests exercise one window each with a source nobody else moves, never read_exact near the end, and never Current on a moved source.',[W,N],
 [('bytes_left / ensure_seeked / seek translation',W)],[('pos, start, length','window-relative position and extent',W)],['source positions touched'])
p('C11','Every file tree survives serialisation to a file system table and back',
 'Parsing the table produced from any file tree whose names survive Shift-JIS (nested at most 256 deep, names together below 16 MiB) gives back the same tree: same nesting, order, names, offsets (multiples of 4 below 2^34) and lengths; a name Shift-JIS cannot express is refused. Directory entries carry the index of their parent and the index one past their last descendant, names sit at the offsets recorded for them, and the root records the total number of entries.',
 ['inputs'],'every tree shape, name, offset and length',
 'One test round-trips one four-node tree.',[F],
 [('FstToBytes::try_from / write_to, Fst::read',F)],observe=['bytes of fst.bin and the tree parsed from them'])
p('C12','Tree walks visit every entry exactly once with its full path',
 'Every walk over a file tree calls the callback exactly once per entry (per file for the file walk), parents before children, in order, with the complete list of names from the root to that entry, also when the callback renames the entry; a callback error stops the walk at once and is returned.',
 ['inputs'],'every tree and every callback',
 'Tests print one tree and never check the paths.',[F,Y],
 [('callback_all_files*, callback_all_files_mut*',F),('remove_files_by_callback walk',Y)],[('path vector','names from the root',F)],['callback arguments'])
p('C13','Insertion keeps siblings sorted and unique; lookup and removal are exact',
 'Inserting at a path creates missing directories, keeps every sibling list sorted by case-insensitive name without equal names, replaces (and returns) an entry of the same name and refuses to descend into a file. Lookup, mutable lookup and removal by path resolve the same node, name by name from the root, and removal removes only that node.',
 ['inputs','histories'],'every sequence of insertions, lookups and removals',
 'Tests try a handful of paths.',[F,D],
 [('binary search by the same case-insensitive comparison that sorting uses',F),('find/remove iterators',F)],observe=['tree after the operation'])
p('C14','Recorded offsets and sizes match where the data was written',
 'In every built partition the file system table and the partition header record, for each file, the main executable and the table itself, exactly the position at which its bytes were written and exactly their number; positions are aligned (0x20 for executable and table, 0x40 for files), no two items overlap, and both structures are written after their contents are final.',
 ['inputs','configurations'],'every partition definition (number, names, sizes and padding of files, sizes of apploader and executable)',
 'No test builds a partition.',[B,F,S],
 [('position taken before each write in add_partition',B),('second write of the table',B)],[('part_disc_header, fst','recorded positions',B)],['offsets in the built image'])
p('C15','Only complete partitions are listed, each at the offset where it lies',
 'The partition table of a finished image lists exactly the partitions whose addition succeeded, with their type and the offset at which they were written, and partitions never overlap. A partition whose addition failed is not listed.',
 ['histories','fault_sequences'],'every sequence of successful and failing partition additions before finishing',
 'No test adds a partition.',[B,S],
 [('partition list updated in add_partition, written in finish',B)],[('partitions, current_data_offset','table and next free offset',B)],['partition table in the image'])
p('C16','The title metadata seals the hash table that was written',
 'After a partition is added, the content digest in its stored title metadata is the SHA-1 of exactly the global hash table stored for it, computed after all data is final; the content size equals the recorded data size, the signature is cleared, and the stored metadata hashes to a value starting with a zero byte.',
 ['inputs'],'every partition content and title metadata',
 'No test builds a partition.',[B,S,R],
 [('hash of h3 patched into the TMD, brute force of the fake signature',B)],observe=['TMD, H3 table in the image'])
p('C17','Builder and reader agree on every fixed position and record layout',
 'Each item that lies at a fixed place (disc header, region, partition table, partition header fields, TMD, certificate chain, H3 table, data start, bi2, apploader) is written by the builder exactly where the reader looks for it, and the positions the builder assumes inside and behind serialised records (partition header size, TMD content hash and size fields, fake-sign field) are the ones the record definitions give. Every record is read and written with the field offsets, widths and big-endian order of the Wii disc format.',
 ['programs','inputs'],'every fixed-position item of the format and every record definition',
 'No test builds an image and opens it again.',[B,N,S,L,F],
 [('literal offsets and #[binrw] record definitions',', '.join([B,N,S]))],observe=['built image opened by the reader'])
p('C18','Extraction writes every input rebuilding needs, where rebuilding looks for it',
 'Every file that rebuilding reads from a source folder is produced by extraction of the data partition under exactly the same relative path, with the matching content and encoding, so that an extracted folder can be rebuilt without adding or renaming files.',
 ['programs'],'every file name used on either side',
 'No test extracts or rebuilds.',[B,N,Y],
 [('path literals in extract_to/extract_system_files and in build_from_directory/DirPartitionBuilder',', '.join([B,N,Y]))],observe=['folder tree'])
p('C19','Section names mean the same partition everywhere',
 'In every command and method that takes a section name, DATA, UPDATE and CHANNEL in any letter case select exactly the partition of that type, any other name is rejected with an error, and a section that the image does not have is reported as missing rather than replaced by another.',
 ['inputs'],'every section string and every partition list',
 'No test touches section names.',[C,Y,S],
 [('name-to-type tables and the find over partitions',', '.join([C,Y,S]))],observe=['selected partition'])
p('C20','No bytes leak from one file into another through reused buffers',
 'Each buffer that is reused for several files holds exactly the content of the current file when it is handed on: earlier content is discarded before it is filled and only the part filled for this file is passed along or written.',
 ['inputs','histories'],'every sequence of files of arbitrary sizes',
 'No test processes more than one file.',[B,N,R,Y],
 [('clear() before each fill of the shared buffer',', '.join([B,N])),('slice of exactly bytes_read',Y)],[('buf / buffer','reused byte buffers',', '.join([B,Y]))],['file contents in image and folder'])
p('C21','A rebuilt image depends only on its inputs, not on an existing destination file',
 'Rebuilding into an existing file leaves none of its old content in the new image: the destination is emptied when it is opened, and every structure a reader interprets is written explicitly.',
 ['configurations','histories'],'every prior state of the destination file',
 'No test runs a rebuild.',[C,Y,B],
 [('OpenOptions::truncate(true) at every rebuild entry point',', '.join([C,Y,B])),('partition table slots written in full',B)],observe=['rebuilt file'])
p('C22','Every file of the source folder is built in, or the build fails',
 'After a successful rebuild each regular file anywhere below the source files folder is present in the image under its relative path; a file that cannot be represented (unencodable or duplicate name, too large, unreadable) makes the rebuild fail instead of being skipped or truncated.',
 ['inputs','configurations'],'every directory tree',
 'One test scans the src folder and checks only the number of entries.',[D,B,F],
 [('exhaustive read_dir walk with an error on every rejected entry',D)],observe=['file list of the built image'])
p('C23','Filtering removes exactly the files the callback selects',
 'Removing files by callback asks the callback once per file with its full slash-separated path from the partition root and removes a file exactly when the callback answered true; every other file and all directories stay, unchanged and in order.',
 ['inputs'],'every tree and every callback',
 'No test runs the Python module.',[Y,F],
 [('retain_mut with the negated answer',Y)],observe=['files extracted afterwards'])
p('C24','Extract followed by rebuild reproduces every file byte for byte',
 'Extracting a partition and rebuilding it yields an image whose files, executable, apploader and headers read back byte for byte as in the original.',
 ['inputs'],'every valid image','No test runs the whole pipeline.',[B,N,F,S,Y],[('composition of C02, C05-C08, C11, C14, C16-C18, C20, C22','whole repository')],observe=['bytes of both images'])
p('C25','Progress reports are monotone and end at 100',
 'Progress values passed to callbacks never decrease and reach 100 exactly when the operation completes.',
 ['inputs'],'every set of file sizes','No test observes progress.',[B,Y],[('percentage computations',', '.join([B,Y]))],observe=['callback arguments'])
p('C26','Rebuilding always terminates in reasonable time',
 'Rebuilding a folder terminates; in particular the search for a fake signature succeeds after a small number of tries.',
 ['inputs'],'every title metadata','No test builds a partition.',[B],[('brute force loop',B)],observe=['running time'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P: assert len(x['title'])<=80,x['title']
