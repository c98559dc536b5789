#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

W='src/io/file_writer.rs'; R='src/io/file_reader.rs'; D='src/data_set.rs'
p('C01','A written definition is read back identically',
  "For every valid data set definition, writing it with either format version and any minimum header size and opening the file again yields the same definition: the same dimensions (order, names, sizes, fixed or unlimited, number of records), the same global and variable attributes (order, names, types, lengths and bit-exact values, including empty ones, NaN and padding-sensitive lengths) and the same variables (order, names, types, dimensions), under the same version. This holds whatever edits (additions, renamings, removals) produced the definition.",
  ['inputs','histories','configurations'],
  "all definitions (numbers, orders, names, sizes and types of dimensions, attributes and variables), both versions, all header_min_size, all edit histories leading to the definition",
  "the tests re-open a handful of definitions (most compare bytes with 8 fixture files); attribute types/lengths whose padding matters, NaN attributes, renamed/removed dimensions and headers longer than one 1024-byte read are not combined",
  [W,R,D,'src/data_set/attribute.rs','src/data_set/variable.rs','src/data_set/dimension.rs','src/data_vector.rs'],
  [('write_header / write_dims_list / write_attrs_list / write_vars_list',W),('parse_header and parse_*_list',R),('get_var_dim_ids / get_dims_from_dim_ids',D)],
  observe=['FileWriter::set_def + close, FileReader::open, FileReader::data_set'])
p('C02','Last acknowledged write wins, for every order of writes',
  "After any sequence of whole-variable and single-record writes followed by a successful close, reading the file returns, bit for bit, the value of the last successful write for every element that was written. A write affects the elements of its own variable and record only: never the data of another variable or record, nor the header.",
  ['histories','inputs','configurations'],
  "all interleavings of write_var_*/write_record_* over the variables and records of a data set (partial, repeated, overwriting, in any order), all mixes of fixed-size and record variables, types, chunk lengths and both versions",
  "the tests write every variable once in definition order, or each record once in increasing order; overwriting, partial-then-whole writes and mixes of record and fixed-size variables with padding are never tried",
  [W,R], [('impl_write_typed_var / impl_write_typed_record',W),('update_written_records',W),('close',W),('ComputedDataSetMetadata::new (offsets)',W)],
  state=[('written_records','records already written per variable',W),('begin_offset/record_size','location of the data',W)],
  observe=['FileReader::read_var / read_record, and the raw bytes'])
p('C03','Whatever was not written reads back as the fill value',
  "After a successful close, every element that no successful write covered reads back as the default fill value of its type, and every element that was written is left as written, whatever subset of variables and records had been written and in whatever order. The closed file is complete: every variable and every record of it can be read.",
  ['histories','configurations'],
  "all subsets and orders of written variables/records (including none), fixed-size and record variables together, 0..n records, all types and paddings, both versions",
  "one test closes a file with a few unwritten records of one schema; the interaction of the fill pass with previous writes, with fixed-size variables beside an unlimited dimension, and with zero records is untested",
  [W,D], [('close (unwritten records)',W),('impl_write_typed_chunk_nc_fill',W),('NC_FILL_* constants',D)],
  state=[('written_records','what close() must not overwrite',W)], observe=['FileReader::read_all_vars after close'])
p('C04','Written files conform to the NetCDF-3 format, byte for byte',
  "Every file produced by a successful close is byte for byte the encoding the NetCDF-3 file format specification prescribes for that definition, data, version and minimum header size: tags, counts, lengths, zero padding of the header, vsize, begin offsets (fixed-size variables first, then records, each in definition order), fill-value padding of the data, and nothing after the last byte of data. In particular the bytes do not depend on the order of the writes.",
  ['inputs','histories','configurations'],
  "all definitions, data, write orders, versions and header_min_size",
  "the byte comparisons with netCDF4 files cover 7 fixed files",
  [W,'src/io.rs','src/data_set/variable.rs',D], [('write_header',W),('ComputedDataSetMetadata',W),('compute_padding_size','src/io.rs'),('chunk_size / record_size','src/data_set/variable.rs')],
  observe=['bytes of the file after close'])
p('C05','Every well-formed NetCDF-3 file is read correctly',
  "Opening any well-formed classic or 64-bit-offset file, whoever wrote it, yields the definition and data stored in it, whatever legal layout it uses: variables laid out in any order and with gaps, extra header space, empty lists written as a tag with a zero count, an indeterminate number of records, or vsize values that are indeterminate. Reading relies on the header's begin offsets, not on the layout this library would have chosen.",
  ['inputs','configurations'],
  "all well-formed files produced by an independent encoder over all layouts",
  "the tests read 8 fixture files, all with the canonical layout of the netCDF C library",
  [R], [('parse_header',R),('read_var / read_record',R),('indeterminate num_records computation',R)],
  observe=['FileReader::open, data_set, read_var, read_record, read_all_vars'])
p('C06','Malformed files are rejected without panic or excessive memory',
  "For every sequence of bytes, opening it as a file and reading all its variables and records terminates and either succeeds or returns an error: it never panics, aborts, loops, or allocates memory out of proportion with the size of the file. A data set that is accepted is a valid one: valid and unique names, at most one unlimited dimension used only as first dimension, no dimension repeated by a variable, defined dimensions, known types.",
  ['inputs'],
  "all byte sequences, in particular all corruptions of well-formed files",
  "the tests feed the parser with about twenty hand-written invalid byte strings, and nothing to the data readers",
  [R,D,'src/error.rs','src/error/parse_header_error.rs','src/data_vector.rs'], [('parse_* functions and their verify/checks',R),('DataSet construction checks',D),('check_data_size / check_data_bounds',R)],
  observe=['result of FileReader::open and of all read_* methods, allocations, process exit'])
p('C07','A truncated file is never mistaken for a complete one',
  "Opening any strict prefix of a header is reported as an incomplete header, wherever the cut falls (including the boundaries of the blocks in which the header is read), and a complete header is parsed identically whatever its length. In a file cut inside the data, a read that needs missing bytes returns an error and every other read returns the right values; a truncated read never returns made-up values.",
  ['inputs','crash_points'],
  "all prefixes of all well-formed files, with headers of every length modulo the 1024-byte block and over several blocks",
  "three hand-picked truncations of primitive fields are tested; no test has a header longer than 1024 bytes cut at every byte",
  [R,'src/error/parse_header_error.rs'], [('FileReader::open block loop',R),('header_is_incomplete','src/error.rs'),('streaming parsers',R)],
  state=[('buffer','header bytes read so far',R)], observe=['ReadError::header_is_incomplete, read_var, read_record'])
p('C08','Data set edits follow their contract and failing edits change nothing',
  "Any sequence of additions, renamings and removals of dimensions, variables, global attributes and variable attributes leaves the data set as a plain reference model of the documented rules would: lists keep their definition order, names are unique in their scope, a renamed dimension is renamed for every variable using it, a used dimension cannot be removed, there is at most one unlimited dimension and variables use it only as their first dimension. An edit that breaks a rule returns the error of that rule and changes nothing, and all getters agree with each other.",
  ['histories','inputs'],
  "all sequences of edits over colliding, unknown and invalid names, up to a bound",
  "the unit tests check about 60 hand-written sequences of 1 to 4 edits",
  [D,'src/data_set/dimension.rs','src/data_set/variable.rs','src/data_set/attribute.rs','src/data_vector.rs','src/error.rs'],
  [('add_* / rename_* / remove_* / set_unlimited_dim',D),('check_dims_validity','src/data_set/variable.rs'),('Dimension::new_*','src/data_set/dimension.rs')],
  state=[('dims/unlimited_dim/vars/attrs','the definition',D)], observe=['all public getters of DataSet, Variable, Dimension, Attribute'])
p('C09','Names are accepted exactly when the NetCDF-3 naming rules allow them',
  "A name is valid exactly when it is not empty, is at most 256 bytes of UTF-8, starts with an ASCII letter or digit, an underscore or a non-ASCII character, and continues with those, with the documented special characters (including space) or with non-ASCII characters: never a slash or an ASCII control character. Every operation that introduces a name (adding, renaming, reading it from a file) enforces exactly this rule.",
  ['inputs'],
  "all strings: every Unicode scalar value in every position class, every length around the limits, at every entry point",
  "the tests check about 100 characters through the helper function and a few entry points with one invalid name",
  ['src/name_string.rs',D,'src/data_set/attribute.rs','src/data_set/dimension.rs','src/data_set/variable.rs',R], [('is_valid_name','src/name_string.rs'),('check_dim_name/check_var_name/check_attr_name','src/data_set')],
  observe=['is_valid_name, and the result of every naming operation'])
p('C10','Misuse of a writer or a reader is refused and has no effect',
  "Writing or reading an undefined variable, with the wrong type, a wrong length or a record index that does not exist (a fixed-size variable has exactly one record), writing before the definition is set, or setting the definition twice, returns the specific error and neither changes the file nor affects later operations. Correct calls are never refused, in whatever state the previous calls (correct or not) left the writer or the reader.",
  ['histories','inputs'],
  "all sequences mixing correct and incorrect calls, over all types, states and schemas, up to a bound",
  "each refusal is tested once, in one state, for one schema; none checks that the file is unchanged or the later behaviour",
  [W,R], [('checks at the head of write_var_*/write_record_*/set_def',W),('checks of read_var/read_record and their typed forms',R)],
  state=[('header_def','None until set_def',W)], observe=['returned errors, bytes of the file, FileWriter::header_is_defined/data_set/version/header_min_size'])
p('C11','I/O faults never corrupt silently',
  "If the operating system interrupts, shortens or fails any read or write, then either the call returns an error or its outcome is exactly the one it has without the fault. When every call reports success, the written file and the values read are those of a fault-free run; after a failed call, retrying it reports an error or ends in the right state, and the data acknowledged by other calls is intact.",
  ['fault_sequences','histories'],
  "every system call of every short write and read history, with every kind of fault (short transfer, EINTR, ENOSPC, EIO, failing seek), one fault per run and pairs of faults",
  "no test injects any I/O fault",
  [W,R,'src/error.rs'], [('write_all / write in the header and the data',W),('read / read_exact / seek',R),('From<io::Error>','src/error.rs')],
  observe=['results of all calls, bytes of the file, values read; interposed read/write/lseek'])
p('C12','A crash while writing leaves no plausible but wrong file',
  "If the process dies at any point of the writing of a file, opening what is left either fails or yields exactly the definition that was being written. Reading then fails or returns, for each element, a value that was written or being written to it, its fill value, or bytes not written yet (zero): never the data of another element.",
  ['crash_points','histories'],
  "every prefix (down to every byte) of the sequence of writes issued by every short history, with or without an older file at the same path",
  "no test stops a writer before close",
  [W,R], [('set_def writes the header first, from the start of the truncated file',W),('data written in place at its final offset',W)],
  observe=['FileReader::open and read_* on the partial files'])
p('C13','All ways of reading agree, in any order and any number of times',
  "Whole-variable, typed, single-record and read-all accesses of an open file agree on every value, whatever the order, number and outcome of the previous accesses of the same reader, and a typed access succeeds exactly when the type is that of the variable or attribute, without any conversion. Reading never changes the data set nor the file.",
  ['histories','inputs'],
  "all sequences of read calls (valid and invalid) over all variables, types and records, up to a bound",
  "the tests read each variable once, with a new reader or in definition order",
  [R,'src/data_vector.rs','src/data_set/attribute.rs'], [('read_var / read_record / read_all_vars and typed forms',R),('seek before each read',R),('get_*/get_*_into','src/data_vector.rs')],
  state=[('input_file cursor','shared by all reads',R)], observe=['values returned by read_*'])
p('C14','Sizes and offsets are computed exactly, also beyond 2 and 4 GiB',
  "For every data set whose size fits in 63 bits, lengths, chunk sizes (padded to 4 bytes), record size, number of records and the location of every element are the exact arithmetic values, without wrap-around, and data beyond 2 and 4 GiB is written and read at the right place. The classic version is refused exactly when a begin offset does not fit in it, leaving the writer usable with the 64-bit one; sizes and numbers of records that do not fit their header field are written as indeterminate and read back properly.",
  ['inputs','configurations'],
  "all combinations of dimension sizes around the 2^31 and 2^32 byte boundaries, numbers of records up to and beyond 2^31, all types and versions",
  "the tests stay below a few kilobytes and have one classic refusal",
  ['src/data_set/variable.rs',D,W,R,'src/io.rs'], [('len/chunk_len/chunk_size/num_chunks','src/data_set/variable.rs'),('record_size/num_records',D),('ComputedDataSetMetadata::new',W),('indeterminate numrecs and vsize',W)],
  observe=['size getters, header bytes, raw location of data in sparse files'])
p('C15','Files are created, replaced and read as the mode promises',
  "Creating a new file fails when the path already exists and leaves the existing file untouched; opening for overwriting leaves nothing of the previous content, whatever its length; writing touches no other file. Opening for reading requires no write permission and never modifies the file; missing files and directories are reported as errors, and a failed open creates nothing.",
  ['configurations','histories'],
  "all combinations of prior state of the path (absent, shorter, longer, equal, read-only, directory, dangling parent), mode and subsequent history",
  "one test checks create_new on an existing file, none the leftover bytes",
  [W,R], [('OpenOptions of open and create_new',W),('File::open',R)],
  observe=['bytes, existence and timestamps of the files in the directory'])
p('C16','Copying a file through the library is faithful and stable',
  "Reading the definition and all data of any readable file and writing them to a new file, in either version, gives a file with the same definition and bit-identical data. Copying the copy gives the same bytes again.",
  ['inputs','configurations'],
  "all well-formed files of any legal layout, both target versions",
  "no test feeds a data set obtained from a reader to a writer",
  [R,W,D], [('FileReader::close gives the DataSet back',R),('FileWriter::set_def',W)],
  observe=['definition, data and bytes of the copies'])
p('C17','Files open at the same time do not interfere',
  "Any number of writers and readers open at the same time on different files, including writers sharing one data set and readers of one file, behave exactly as if each ran alone, for every interleaving of their calls.",
  ['schedules','histories'],
  "all interleavings of the calls of two (or three) writers and readers, for schemas, versions and header sizes that differ or are shared",
  "every test uses a single writer or reader at a time",
  [W,R,D,'src/data_set/dimension.rs'], [('state is per instance (file cursor, header_def, written_records)',W),('Dimension size/name cells shared through Rc','src/data_set/dimension.rs')],
  observe=['bytes of the files and values read, compared with the serial run'])
p('C18','An open reader or writer stays on the file it has opened',
  "Whatever other processes do to the path while a file is being opened, read or written (atomic replacement by rename, removal, move, another file, directory or link put in its place, symbolic link or directory on the way retargeted, working directory changed), a reader gives the definition and the data of one single file, the one which was opened; a writer puts everything it writes in the file it has opened, and no other file is touched. Opening succeeds when the path names a readable file all along. Records which another program appends then counts while a reader is open do not disturb its reads, and a file cut under it gives errors, never wrong values.",
  ['schedules','histories'],
  "the environment acts between any two system calls of the library: every action at every point of every short sequence of reads or writes",
  "no test changes a path while the library uses it",
  [R,W], [('FileReader::open: the file is opened then its size is taken',R),('check_data_bounds takes the size of the open file',R),('FileWriter keeps its File from open to close',W)],
  observe=['values, definition and errors of the reader','bytes of the file which was opened and of every other file of the directory'])
p('C19','Equality is equality of definitions',
  "Two data sets, dimensions, variables, attributes or vectors of values compare equal exactly when they denote the same thing: same elements in the same order, same names, kinds, sizes, types and values (floating-point values as IEEE numbers: a NaN differs from itself, both zeros are equal; the size of an unlimited dimension is its number of records). It does not matter how each was obtained: built directly or in another order, changed and changed back, renamed, cloned, or read from a file of either version; equality is symmetric and != is its negation. The data set given to a writer compares equal to itself, to the one the writer shows and to the one read back from the file (as far as it holds no NaN).",
  ['inputs','histories'],
  "all pairs of definitions and of histories leading to them, all positions at which two of them may differ",
  "the tests compare a few data sets with themselves or with one obviously different",
  [D,'src/data_set/attribute.rs','src/data_set/variable.rs','src/data_set/dimension.rs','src/data_vector.rs'],
  [('PartialEq of DataSet, Dimension, Variable, Attribute, DataVector','src/data_set.rs, src/data_set/*.rs, src/data_vector.rs'),('name and size cells',"src/data_set/dimension.rs")],
  observe=['== and != on the public types'])
p('C20','Resources are released',
  "A reader or a writer holds one file descriptor, from the success of its opening to its end, and nothing else: once it is closed or dropped, whatever it did and whatever failed (a malformed or truncated file, a refused call, an I/O error at any point, a refused or failing definition), its descriptor is closed, no other is left open, and the memory it used is returned; the same holds for data sets built, edited, copied and dropped. A program can therefore open any number of files one after the other.",
  ['histories','fault_sequences','inputs'],
  "all short sequences of calls ended in every way, all faults of every system call, all truncations and corruptions of files, all edit sequences of data sets",
  "the tests never look at descriptors or memory, and exit before a leak would matter",
  [W,R,D,'src/data_set/dimension.rs'],
  [('FileReader/FileWriter own their File',R),('Rc<Dimension> shared by the data set and its variables',D),('close(self)',W)],
  observe=['descriptors of the process','allocated memory before and after'])
p('C21','The cost of an access is that of what is accessed',
  "Opening a file transfers its header only, whatever the size of its data; reading or writing a variable or a record transfers its own bytes and what they are padded with, not the rest of the file, and needs memory for that much; a refused call transfers no data; closing a writer writes what was not written (and the header), once; a writer does not keep what was written, nor a reader what was read. Beyond that, a constant overhead only. Data sets larger than the memory can therefore be read and written piece by piece.",
  ['inputs','histories'],
  "all short sequences of accesses over files whose parts are small against the whole",
  "the tests measure neither transfers nor memory, and their files are a few kilobytes",
  [W,R], [('read_var / read_record (chunked reads)',R),('open: header read by blocks',R),('write per chunk',W),('close: fill of the unwritten records',W)],
  observe=['bytes transferred by the system calls of each call','peak of the memory allocated during each call'])
p('C22','Errors say what is wrong',
  "A call which fails reports the actual cause. A file whose header is badly encoded is refused for the first offending field in the order of the file: the error names the rule this field breaks, and either the invalid bytes reported are those of the file from this field on, or the header is said to be incomplete, which happens exactly when the file ends inside this field; wherever the field lies (also against the blocks in which the header is read) and whatever follows it. A well-encoded header which does not make a valid data set is refused with the rule broken by its first offending element (dimensions, then global attributes, then each variable followed by its attributes), with the names, sizes and identifiers found there. A read which needs bytes missing from the file reports an unexpected end of file. An error of the operating system, at any point of any call, is reported by the call it hits with its own kind; the other calls of a reader do not fail.",
  ['inputs','fault_sequences'],
  "all single and many double corruptions and cuts of headers, all pairs of defects at all distances from the block boundaries, all errors of the operating system at all system calls",
  "the tests look at the error of a few hand-made headers, each with a single defect in the first block",
  [R,W,'src/error.rs','src/error/parse_header_error.rs','src/data_set.rs'],
  [('parse_* functions and ParseHeaderErrorKind',R),('InvalidBytes',"src/error/parse_header_error.rs"),('From<std::io::Error>','src/error.rs'),('retry of an incomplete header with one more block',R)],
  observe=['the error values returned by open, reads, set_def, writes and close'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties')
