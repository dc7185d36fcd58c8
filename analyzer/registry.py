"""property -> (title, explanation, [(section name, function(report))])"""
import importlib


def lazy(spec):
    mod, fn = spec.split('.')

    def f(rep):
        getattr(importlib.import_module(mod), fn)(rep)
    return f


def S(*specs):
    return [(s, lazy(s)) for s in specs]


CHECKS = {
    'C01': ('No failure is swallowed',
            'Path-sensitive error-flow dataflow over the MIR of every function and closure of the library, the CLI and the Python bindings: each '
            'Result produced by a call, parameter or iterator element is followed along all paths; it must be returned, handed on or panic. Also '
            'iterator adapters that drop failed elements and buffered writers dropped without flush.',
            S('rules_flow.c01_flow')),
    'C02': ('Short reads and writes are never passed off as complete data',
            'Abstract interpretation of the extraction callback with ghost counters for the bytes written: success only after exactly as many bytes as the '
            'entry is long, each piece read right behind the last; the whole-range reader succeeds only with a full buffer; and a dataflow rule over '
            'every function: a count returned by a partial transfer (read, write, limited copy) is looked at.',
            S('rules_extract.c02_extract', 'rules_extract.c02_counts', 'rules_extract.c02_fill', 'rules_extract.c02_vec')),
    'C03': ('Malformed images produce errors, not crashes',
            'Every function that reads an image (library, Python bindings, command line) is interpreted abstractly with everything of the repository inlined; values parsed '
            'from the image are free within their types. Each arithmetic check, index and slice bound, unwrap, explicit panic, infallible allocation and accumulation '
            'is an obligation proven from the branch facts, or a violation if it fails on values of the image alone; a function that reads the image and '
            'calls itself must carry a limited nesting counter. What also depends on arguments of the caller is counted and not decided.',
            S('rules_panic.c03_lib', 'rules_panic.c03_py', 'rules_panic.c03_cli')),
    'C04': ('Extraction never writes outside the destination folder',
            'Taint analysis over the extraction entries: every path handed to a creating, writing or removing call is traced back to the destination '
            'parameter, and every component appended to it is a constant or the validated section name, or a name from the image whose possible '
            'classes (empty, ., .., absolute, with separators, plain) are restricted by the branch facts at that point to harmless ones; no name may be passed over.',
            S('rules_extract.c04_py', 'rules_extract.c04_lib')),
    'C05': ('Reading returns exactly the bytes of the requested logical range',
            'Abstract interpretation of the partition reader (MIR, all callees of the crate inlined) from an arbitrary entry state. '
            'Every transfer out of the group memory is an obligation: group number, block and in-block offset must correspond to the logical '
            'position; counts, position advance and end of data are obligations at every exit. Obligations are discharged by linear '
            'reasoning with loop induction.',
            S('rules_group.c05_read', 'rules_group.c05_read_vec', 'rules_group.c05_seek')),
    'C06': ('Writing places every byte at its logical position',
            'Abstract interpretation of Write::write and Seek::seek of the partition writer from an arbitrary entry state: every copy from the '
            'caller buffer into the group memory is an obligation (address, hash area untouched, source contiguous, whole count), as are count and '
            'position at every exit.',
            S('rules_group.c06_write', 'rules_group.c06_seek')),
    'C07': ('Every modified group is hashed, encrypted and written back before it is left',
            'Typestate analysis of the group memory of the partition writer (ghost states: which group it holds, modified, sealed, slot of its digest) '
            'over Write::write and Write::flush from arbitrary entry states: loads and relabelling need a clean memory, stores need a sealed one and '
            'must go whole to the own position, success of flush needs nothing pending.',
            S('rules_group.c07_flush', 'rules_group.c07_write', 'rules_group.c07_write_clean', 'rules_builder.c07_finish')),
    'C08': ('Hash tree and encryption follow the Wii layout, and reading inverts them',
            'Value-numbering abstract interpretation of the sealing code (loops over 8x8x31 fixed trip counts unrolled by the analysis): the exact '
            'symbolic content of the written group and of its H3 entry is compared with the term prescribed by the disc format for all 64 blocks; '
            'each decryption of the loading code is compared with its key, IV position, extent and coverage; title key encryption and '
            'decryption must use the same common key and IV.',
            S('rules_crypt.c08_seal', 'rules_crypt.c08_load', 'rules_crypt.c08_reload', 'rules_crypt.c08_title')),
    'C09': ('A failed group load never poisons later operations',
            'Class-invariant analysis: at every exit (success or any failing edge) of the reader and writer methods, a group number marked as loaded '
            'equals the group whose bytes the memory holds; failing loads leave the ghost content undefined.',
            S('rules_group.c09_reader', 'rules_group.c09_writer')),
    'C10': ('A window never lets its user leave it',
            'Abstract interpretation of every IOWindow method for limited and unlimited windows from an arbitrary state: each source access is an '
            'obligation on its position and length, each exit on count, position and refusal.',
            S('rules_window.c10_new', 'rules_window.c10_read', 'rules_window.c10_write', 'rules_window.c10_seek')),
    'C11': ('Every file tree survives serialisation to a file system table and back',
            'Abstract interpretation of the four recursive functions that make the name table and the records and parse them back (one step each, the '
            'recursive call is the induction hypothesis), multiplied with automata over the events of one entry: exactly one name, offset and record '
            'per entry in the same order, record fields equal to the entry, directory ends and parents equal to the running index, and the parser '
            'takes exactly these values from exactly these places; bit layout of the first word compared in both directions.',
            S('rules_table.c11_names', 'rules_table.c11_rows', 'rules_table.c11_parse', 'rules_table.c11_word')),
    'C12': ('Tree walks visit every entry exactly once with its full path',
            'Abstract interpretation of one step of each recursive walk (the recursive call is the induction hypothesis), explored together with an automaton '
            'over the events of one entry: names added to and taken from the path, callback calls with their arguments, descents, renames by the callback, '
            'failing callback; every way through the loop body is checked. The public entries must start with all entries and an empty path.',
            S('rules_tree.c12_walks')),
    'C13': ('Insertion keeps siblings sorted and unique; lookup and removal are exact',
            'Abstract interpretation of the four functions that follow a path, explored together with an automaton over the names of the path: each name is looked up '
            'in the list of the entry found for the one before, by the recognised comparison; insertions only at the position the binary search returned, replacement and '
            'removal only of the entry found; every exit must match the state. The comparison of names, the sorting and the splitting of paths are checked as terms.',
            S('rules_lookup.c13_paths', 'rules_lookup.c13_text_paths', 'rules_lookup.c13_order', 'rules_lookup.c13_sort')),
    'C14': ('Recorded offsets and sizes match where the data was written',
            'Abstract interpretation of WiiDiscBuilder::add_partition (callees of the crate inlined, the tree copy callback summarised by its own '
            'analysis): for every value recorded in the partition disc header and in the file table the recorded offset and size terms are compared '
            'with the stream position and the transferred length of the write that stored the item; alignment, disjointness and the order '
            '(records written after their contents are final) are obligations at the writes.',
            S('rules_builder.c14_layout')),
    'C15': ('Only complete partitions are listed, each at the offset where it lies',
            'Typestate over add_partition (entry pushed only on the success path, after all writes, with the offset used for them; next offset '
            'behind everything written), create (empty list) and finish (every entry of the list written once, in order, count = list length).',
            S('rules_builder.c15_add', 'rules_builder.c15_create', 'rules_builder.c15_finish')),
    'C16': ('The title metadata seals the hash table that was written',
            'Content tracking of the metadata buffer in add_partition: the bytes at the content hash and size fields, the cleared signature range and '
            'the freshness of the digest tested by the fake-sign loop are ghost state of the analysis and obligations where the buffer is stored.',
            S('rules_builder.c16_seal')),
    'C17': ('Builder and reader agree on every fixed position and record layout',
            'The generated binrw readers and writers of every record are interpreted abstractly to obtain byte-exact field maps (offset, width, '
            'endianness, padding, counts); read map, write map and the published Wii layout must agree; the positions of all fixed-place accesses '
            'of builder and reader are compared with each other and with the field maps.',
            S('rules_layout.c17_records', 'rules_layout.c17_builder', 'rules_layout.c17_finish', 'rules_layout.c17_reader')),
    'C18': ('Extraction writes every input rebuilding needs, where rebuilding looks for it',
            'Two abstract interpretations are compared: the table of files rebuilding opens (relative path, how it is decoded, what it is used for) and '
            'the table of files extraction creates (relative path, record type and origin of the content); each input must have an output with the '
            'same path, type and matching origin, written on every way through the loop over the sections.',
            S('rules_rebuild.c18_agree')),
    'C19': ('Section names mean the same partition everywhere',
            'Path-sensitive abstract interpretation of every Python method and CLI command that takes a section name: at each opening of a partition the branch facts '
            'must tie one of the three names (compared after case folding) to the type compared with that of the opened table entry; no path on which all names '
            'or the search failed may succeed; names are kept and looked up in the same letter case.',
            S('rules_section.c19_names')),
    'C20': ('No bytes leak from one file into another through reused buffers',
            'Abstract interpretation with provenance of buffer contents: what extraction writes to a file is exactly the range the last read filled; '
            'each getter of a partition source empties the reused buffer before filling it and hands out exactly what was read.',
            S('rules_extract.c20_extract', 'rules_extract.c20_getters', 'rules_extract.c20_vec')),
    'C21': ('A rebuilt image depends only on its inputs, not on an existing destination file',
            'Typestate of the destination file in every entry that builds an image (library, CLI, Python): created, truncated or cut to length 0 on every way '
            'before the builder gets it; and coverage of the fixed tables by the writes of finish() on every way to success.',
            S('rules_rebuild.c21_dest', 'rules_rebuild.c21_tables')),
    'C22': ('Every file of the source folder is built in, or the build fails',
            'Abstract interpretation of one step of the recursive folder walk, explored together with an automaton over one folder entry: on every way to the next '
            'entry or to success a folder was descended into under its own name, a file was added once under its own name in its own folder and the insertion '
            'is known to have replaced nothing; adapters that drop entries are violations. The partition source hands out the tree that was read.',
            S('rules_folder.c22_folder', 'rules_folder.c22_source')),
    'C23': ('Filtering removes exactly the files the callback selects',
            'Abstract interpretation of the closure that decides about one entry (recursion is the induction hypothesis), explored with an automaton: path pushed and '
            'restored, exactly one question per file with the joined path, none about directories, and the returned keep-flag as a term in the answer on every way out.',
            S('rules_filter.c23_filter')),
}

_AI = 'abstract interpretation of the compiler IR (MIR)'
TECH = {
    'C01': 'path-sensitive error-flow dataflow over MIR',
    'C02': _AI + ' with ghost transfer counters; dataflow rule on transfer counts',
    'C03': _AI + ': every reachable panic, recursion and unbounded allocation is an obligation',
    'C04': 'taint analysis with path facts over MIR',
    'C05': _AI + ', linear loop invariants',
    'C06': _AI + ', linear loop invariants',
    'C07': 'typestate analysis over ' + _AI,
    'C08': _AI + ', symbolic value comparison with the disc format',
    'C09': 'class-invariant (typestate) analysis over ' + _AI,
    'C10': _AI + ', linear obligations',
    'C11': _AI + ' in product with per-entry automata (structural induction over the tree)',
    'C12': _AI + ' in product with a per-entry automaton (structural induction over the tree)',
    'C13': _AI + ' in product with search automata',
    'C14': _AI + ', symbolic accounting of positions',
    'C15': _AI + ', definite-write dataflow',
    'C16': _AI + ', symbolic accounting of positions',
    'C17': 'field maps extracted from the generated (de)serialisers by ' + _AI,
    'C18': 'comparison of file tables extracted by ' + _AI,
    'C19': 'path-sensitive ' + _AI,
    'C20': 'provenance analysis over ' + _AI,
    'C21': 'typestate analysis over MIR',
    'C22': _AI + ' in product with a per-entry automaton',
    'C23': _AI + ' in product with a per-entry automaton',
}
NOT_APPLICABLE = {
    'C24': 'quantifies over whole extract+rebuild histories through the file system, the Wii crypto and user folders; byte equality of the end result is a relational runtime fact no sound static argument in reach bounds. Its static ingredients are claimed separately as C05-C08, C11, C14, C17, C18, C20, C22.',
    'C25': 'monotonicity and the final value of a computed percentage depend on run-time file sizes and floating/integer ratios; on the current tree percentages above 100 are possible for inputs with skipped sizes, so it cannot be claimed as stated.',
    'C26': 'termination of the fake-sign search depends on SHA-1 behaving like a random function, which static analysis cannot establish.',
}
