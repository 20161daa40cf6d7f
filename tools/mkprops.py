import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Names survive the index byte for byte in printable ASCII",
 "Every directory path, file name and symlink destination is written to an index with each byte at or below 0x20, each byte at or above 0x7F and each backslash replaced by \\x and its two lowercase hex digits, and every other byte as itself, so that a field never contains a space, a newline or a non-ASCII byte. Reading such a field back yields exactly the original bytes. Reading leaves text that is not a complete \\xHH escape as it is and decodes hex digits of either case.",
 ["inputs"],"for every byte string used as a path, a name or a link destination, of any length and any content (including invalid UTF-8 and text that looks like an escape)",
 "The tests escape two short names and unescape four; they cannot cover all byte strings, the boundary bytes 0x20/0x7E/0x7F/0xFF or names that contain text looking like an escape.",
 ["src/v1/writer.rs","src/v1/parser.rs"],
 [("Name Display: byte-wise escaping","src/v1/writer.rs fmt::Display for Name"),("unescape_hex, is_hex_encoding, parse_hex_unchecked","src/v1/parser.rs"),("parse_field: split at the first space","src/v1/parser.rs")],
 ["index text written by scan and Emitter","Entry::path() of parsed entries"])
p("P02","An emitted index parses back to exactly what was emitted",
 "For every hash type, positive block size and sequence of directories, regular and executable files and symlinks with valid names handed to the emitter, parsing the emitted text yields the same header and the same entries in the same order: the same path, kind, executable flag, size, block hashes and link destination. After the last entry the parser reports the end without an error. The emitter writes nothing but the header line, one line per entry and the footer line.",
 ["inputs","histories"],"for every sequence of emitter calls (names valid single components, paths absolute, size consistent with the number of hashes) and for every u64 size and block size",
 "The emitter is tested on one fixed four-file index and never parsed back, and for one of the three hash types only.",
 ["src/v1/emitter.rs","src/v1/parser.rs","src/hash_type.rs","src/v1/writer.rs"],
 [("Emitter::new/start_dir/add_file/add_symlink/finish","src/v1/emitter.rs"),("Entry::parse, Header::parse, parse_hashes","src/v1/parser.rs"),("Hexlified LowerHex","src/v1/parser.rs")],
 ["bytes written by the emitter","entries returned by EntryIterator"])
p("P03","Parsing arbitrary bytes ends with a result and never panics",
 "For any input, however malformed, hostile or truncated, opening it as an index, iterating over it and seeking in it to any valid absolute entry end with an entry, an end of index or an error. No input causes a panic, an arithmetic overflow, a division by zero, an out-of-bounds access, a call that never returns or memory allocation out of proportion to the input.",
 ["inputs","histories","fault_sequences"],"for every byte stream, every sequence of next and seek calls on it and every reader that fails or returns short reads",
 "Tests feed about thirty hand-written malformed rows; overflow and bounds errors live at the extremes of sizes, block sizes and row lengths that no test reaches.",
 ["src/v1/parser.rs","src/hash_type.rs"],
 [("Header::parse rejects unusable headers","src/v1/parser.rs"),("Entry::parse, parse_hashes, parse_u64 bounds","src/v1/parser.rs"),("file names are a single component, so EntryKind::cmp cannot panic","src/v1/parser.rs")],
 ["return value of Parser::new, EntryIterator::next/advance"])
p("P04","The end of an index is reported only after a complete index",
 "An iterator over an index reports the end, rather than an error, only when a line consisting of one hash of the index's hash type followed by a newline has been read and nothing follows it. An input that is cut at any byte, has a line without a newline, a malformed row, a missing or malformed footer or any data after the footer produces an error before any end is reported. Once the end has been reported it is reported for ever.",
 ["inputs","crash_points"],"for every byte stream, in particular every proper prefix of every valid index, read in any pieces",
 "Tests truncate one index at one or two places; the guarantee is about every cut point of every index and every reader fault.",
 ["src/v1/parser.rs"],
 [("EntryIterator::_parse_entry footer handling and exhausted flag","src/v1/parser.rs"),("read_line requires a newline","src/v1/parser.rs"),("Footer::parse","src/v1/parser.rs")],
 ["EntryIterator::next returning None"])
p("P05","Every entry the parser accepts is well formed",
 "A file entry returned by the parser carries exactly ceil(size / block size) hashes of the digest length of the index's hash type, taken in order from its row, and nothing of its row is left unread; the executable flag, the size and the link destination are those written in the row. The path of every file or symlink is the most recent directory row joined with a single ordinary name, so it is a direct child of that directory. A file or symlink row that names anything else, or precedes the first directory, is rejected.",
 ["inputs"],"for every row, every size and block size and every sequence of preceding rows",
 "Tests check a few rows; a wrong rounding, an ignored tail or a name escaping its directory only shows for particular sizes, tails or names.",
 ["src/v1/parser.rs"],
 [("Entry::parse","src/v1/parser.rs"),("parse_hashes count and length checks","src/v1/parser.rs"),("current_dir tracking in EntryIterator","src/v1/parser.rs")],
 ["Entry values returned by EntryIterator"])
p("P06","Entry comparison is a total order and is the order of the index",
 "Comparing valid entries is reflexive, antisymmetric, transitive and total, and equals comparing first their directory (for a directory entry, the directory itself) and, within one directory, putting the directory entry first and then files and symlinks by the bytes of their name. Directories compare component by component, so that a directory precedes everything below it, which precedes its next sibling. The order in which a scan writes entries is strictly ascending in this order.",
 ["inputs"],"for every pair and triple of valid entry kinds with absolute paths",
 "The unit test checks nine entries pairwise; transitivity and consistency with the written order concern all triples of paths, including siblings such as /a, /a-b and /a/b.",
 ["src/v1/parser.rs","src/v1/scan.rs"],
 [("Ord for EntryKind","src/v1/parser.rs"),("depth-first traversal with sorted children","src/v1/scan.rs scan")],
 ["EntryKind::cmp","rows of a written index"])
p("P07","Seeking finds an entry exactly when it lies ahead",
 "In a sorted valid index, seeking to an entry returns that entry if it is at or beyond the current position, and otherwise returns nothing. Exactly the entries up to and including a found entry, or the entries smaller than a missing one, are consumed; so whatever sequence of seeks and steps is performed, the next step yields the first entry not consumed, with its correct path, and a seek backwards consumes nothing. Errors met on the way are returned once each, and no part of a failed row is ever returned as an entry.",
 ["inputs","histories","fault_sequences"],"for every sorted index and every sequence of next and seek calls, with targets present, absent, behind and beyond the end, and with reader errors in between",
 "Tests perform a handful of fixed seek sequences; the state kept between calls (the row read ahead, the current directory) makes the guarantee one about all histories.",
 ["src/v1/parser.rs"],
 [("EntryIterator::advance keeps the row read ahead","src/v1/parser.rs"),("EntryIterator::next clears it","src/v1/parser.rs")],
 ["EntryIterator::advance and next"],
 [("current_row, current_dir","row read ahead and not consumed; directory of following file rows","src/v1/parser.rs EntryIterator")])
p("P08","Merging yields every entry of every index once, grouped and in order",
 "Stepping through several merged indexes returns at each step the smallest entry not yet returned by any of them, together with exactly the indexes whose next entry it is, in the order the indexes were given. Every entry of every index is returned exactly once, in ascending order of groups, and the iteration ends exactly when all indexes have ended; an index that fails contributes its error to a group, at the latest when no other index has entries left, and does not hide the others' entries. A merged seek returns for each index what a seek in that index alone would return.",
 ["inputs","histories"],"for every number of sorted indexes with arbitrary overlap, and every sequence of merged steps and seeks",
 "Tests merge two or three small fixed indexes; losing or duplicating an entry depends on how positions interleave over the whole run.",
 ["src/v1/merge.rs","src/v1/parser.rs"],
 [("MergedEntriesIterator::next minimum selection","src/v1/merge.rs"),("PeekableEntryIterator peek/next/advance","src/v1/merge.rs"),("MergedEntriesIterator::advance","src/v1/merge.rs")],
 ["MergedEntriesIterator::next and advance"],
 [("head","entry read ahead from one index","src/v1/merge.rs PeekableEntryIterator")])
p("P09","Only indexes with equal hash type and block size are merged",
 "Building a merge of any collection of parsed indexes succeeds if and only if all of them have the same hash type and the same block size; an empty collection or a single index is always accepted. On a mismatch the error lists the differing property of every index, in order, and hash types are checked before block sizes. A successful merge contains every given index in the given order.",
 ["inputs","configurations"],"for every collection of indexes of any length with any combination of hash types and block sizes",
 "The tests mix two files; a check that looks only at the first two or at neighbours, or compares a single attribute, passes them.",
 ["src/v1/merge.rs"],
 [("MergedSignatures::new","src/v1/merge.rs"),("check_same","src/v1/merge.rs")],
 ["Result of MergedSignatures::new"])
p("P10","The footer is the hash of everything between header and footer",
 "The last line of every index that is written completely, by scanning or by the emitter, is the lowercase hex digest, under the index's hash type, of exactly the bytes between the end of the header line and the start of that last line, followed by a newline. This holds whatever the number of threads, whether progress is printed or not, and however the output accepts the data (in pieces of any size). Asking for the hash of the content before finishing does not change it.",
 ["inputs","configurations","fault_sequences"],"for every directory content or sequence of emitter calls, hash type, thread and progress setting and every pattern of partial writes",
 "Tests compare a few fixed indexes, none with progress enabled and none with an output that accepts less than it is given.",
 ["src/v1/writer.rs","src/v1/threaded_writer.rs","src/v1/progress.rs","src/v1/emitter.rs","src/v1/hash.rs"],
 [("HashWriter::write hashes exactly the accepted bytes","src/v1/writer.rs, src/v1/emitter.rs"),("get_hash/done","src/v1/writer.rs, src/v1/threaded_writer.rs, src/v1/progress.rs"),("header is written to the raw output","src/v1/writer.rs, src/v1/emitter.rs")],
 ["last line of the written index"])
p("P11","A file row carries the hash of each of its blocks",
 "The row written for a regular file gives its exact size, x if its owner may execute it and f otherwise, and then, separated by single spaces, the lowercase hex digest of each consecutive block of the index's block size, the last one possibly shorter, so that there are ceil(size / block size) of them and none for an empty file. Each digest depends on the bytes of its own block only, not on other blocks, on other files or on the order in which files are hashed. A symlink's row carries its name and its destination.",
 ["inputs","schedules"],"for every file content and size (in particular around multiples of the block size), mode, and whatever was hashed before it",
 "Tests hash four files of one block each with fixed content; leftover hash state and the rounding of the last block need several blocks or files at exact multiples.",
 ["src/v1/writer.rs","src/v1/threaded_writer.rs","src/v1/hash.rs"],
 [("SyncWriter::add_file block loop","src/v1/writer.rs"),("ThreadedWriter::add_file task","src/v1/threaded_writer.rs"),("Hash::hash_file and total_hash reset","src/v1/hash.rs")],
 ["file rows of the written index"])
p("P12","Threads and progress do not change the index",
 "Scanning the same directory with the same hash type writes byte-for-byte the same index with any number of hashing threads, including none, with any timing of the threads and with progress printing on or off. Rows appear in the order in which the scan met the entries, no row is dropped or duplicated, and everything queued is written before the footer. A failure to hash a file in the background makes the scan fail.",
 ["schedules","configurations"],"for every directory content, thread count and completion order of the background tasks, progress on or off",
 "The tests scan a tiny tree in which all tasks complete at once; the queue limit, tasks finishing out of order and failures in tasks are never exercised.",
 ["src/v1/threaded_writer.rs","src/v1/writer.rs","src/v1/progress.rs","src/v1/mod.rs"],
 [("FIFO queue of operations","src/v1/threaded_writer.rs poll_queue/wait_queue/poll_item"),("get_hash waits for the queue","src/v1/threaded_writer.rs"),("Progress forwards every call","src/v1/progress.rs")],
 ["bytes written by scan"],
 [("queue","operations not yet written, in order","src/v1/threaded_writer.rs ThreadedWriter")])
p("P13","A scan lists every entry exactly once in index order",
 "A successful scan writes exactly one row for the root and for each directory below it, and under its directory exactly one row for each regular file and symlink in it, whatever the names are; symlinks are never followed and entries of other kinds are left out. Within a directory files and symlinks are sorted together by the bytes of their names, and directories are visited depth first in name order, so that the index does not depend on the order in which the file system lists entries. A directory that cannot be opened, listed or read makes the scan fail.",
 ["inputs","histories"],"for every directory tree, every order in which directories are listed and every combination of entry kinds",
 "The tests scan two fixed trees of a few entries on one file system; the guarantee is over all trees and listing orders.",
 ["src/v1/scan.rs"],
 [("scan: queue of directories, sorted files, reversed sort pushed to the front","src/v1/scan.rs"),("find_roots","src/v1/scan.rs"),("group_by path","src/v1/scan.rs")],
 ["rows of the written index"],
 [("queue","directories still to visit, in order","src/v1/scan.rs scan")])
p("P14","Checking and hashing a file agree with its block hashes",
 "Hashing a stream yields its length and one digest per block, ceil(length / block size) of them, each of its own block. Checking a stream against stored hashes succeeds if and only if the digests of its consecutive blocks equal the stored ones in number and in order and nothing is left in the stream, so any file accepts the hashes computed from it and any change, truncation or extension is refused. Read errors are reported as errors, never as a match or mismatch, and the pieces in which the stream is read do not matter.",
 ["inputs","fault_sequences"],"for every stream content and length, block size of at least one, hash type and every pattern of short reads and read errors",
 "Tests check one 4-byte file and two hashings; multiples of the block size, empty streams, extensions and short reads are not sampled.",
 ["src/v1/parser.rs","src/v1/hash.rs"],
 [("Hashes::_hash_file and _check_file","src/v1/parser.rs"),("Hash::hash_file, hash_and_size","src/v1/hash.rs")],
 ["Hashes::hash_file, Hashes::check_file"])
p("P15","The checksum reader returns the footer of every valid index",
 "For every valid index, extracting the checksum returns exactly the digest written in its last line, however the input delivers its bytes. For any other input it returns an error or, if the input starts with a supported signature and ends with a complete footer line, the digest in that line; it never panics.",
 ["inputs","fault_sequences"],"for every byte stream, valid or not, of any length, and every pattern of short reads and read errors",
 "One test reads one index from memory; short reads, short files, other hash types and malformed footers are not covered.",
 ["src/read.rs","src/hash_type.rs"],
 [("get_hash","src/read.rs"),("HashType::from_str, output_bytes","src/hash_type.rs")],
 ["return value of get_hash"])
p("P16","A reported success means the whole index was written",
 "Whenever a scan or an emitter call reports success, every byte of the rows it stands for has been accepted by the output, in order and exactly once, and a finished scan has flushed the output. An error of the output at any point, including a refused or partial write, is reported by the call or by finishing, and is never swallowed.",
 ["fault_sequences","inputs"],"for every point at which the output fails or accepts only part of the data, for every index content",
 "No test uses an output that fails or accepts partial writes.",
 ["src/v1/writer.rs","src/v1/threaded_writer.rs","src/v1/emitter.rs","src/v1/scan.rs","src/v1/progress.rs","src/v1/mod.rs"],
 [("write errors mapped and propagated by every writer method","src/v1/writer.rs, src/v1/threaded_writer.rs, src/v1/emitter.rs"),("done flushes the output","src/v1/writer.rs, src/v1/threaded_writer.rs")],
 ["Result of scan and of the emitter's methods"])
p("P17","Headers round-trip and unusable headers are rejected",
 "Each supported hash type has one fixed name that is written in the header and parsed back to the same hash type, and every other name is rejected. A header line is accepted only if it has the signature and version of this format, a supported hash type and, right after it, a block size that is a positive decimal number, and then exactly these values are reported. Every header that the library writes with a positive block size is accepted.",
 ["inputs","configurations"],"for every header line and for every hash type and block size",
 "Tests parse eight fixed header lines; a zero or extreme block size, or a hash name mapped to another hash, is not among them.",
 ["src/v1/parser.rs","src/hash_type.rs","src/v1/writer.rs","src/v1/emitter.rs"],
 [("Header::parse","src/v1/parser.rs"),("FromStr and Display for HashType","src/hash_type.rs"),("Hash::name","src/v1/hash.rs")],
 ["Parser::new, get_header"])
p("P18","Stored block hashes are read back by index and by iteration alike",
 "For the hashes of any entry, the length is the number of stored digests, the i-th digest is available exactly for i below the length, and iteration yields the same digests in the same order, each of the digest length of the hash type. No index, however large, causes a panic or returns data of another digest.",
 ["inputs"],"for every number of hashes and every index up to the largest machine integer",
 "Tests look at indexes 0 to 2 of one or two hashes.",
 ["src/v1/parser.rs"],
 [("Hashes::len, get, iter, hex_iter","src/v1/parser.rs")],
 ["Hashes::get, len, iter"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['title']
