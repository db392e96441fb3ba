NOTE = "Sound within the abstract interpreter's model of Go and of the listed standard library operations; alarms only when the abstract domains cannot exclude a violation. Trusted: go/ssa, the operation table, the stated assumptions. "
TESTS = "The six tests extract one intact archive, list it and write one; they never reach "

prop("C02", "A damaged or truncated member is never reported as success",
 "Whenever a member is decoded - extracted to a file, printed, tested, decoded to memory or read while collecting the headers - and its decoding fails, or the checksum of the decoded bytes differs in any bit from a checksum its header records, the operation returns a non-nil error. An archive whose header cannot be read likewise makes the operation return an error, not a shorter list of members.",
 ["inputs", "fault_sequences"], "every public decoding operation, every member position, every single-bit difference (and the values 0 and 0xffff) between computed and recorded checksum, every failing decoder and header read",
 TESTS + "a damaged member; the property quantifies over every way a member can be damaged and every operation that decodes it.",
 ["lhext.go", "lha.go", "extract.go"], [("checksum comparison after decoding", "lhext.go extractOne, extractOneStream"), ("error propagation of the member loop", "lhext.go CommandExtract, extractWithHeader, lha.go Headers")],
 "path-sensitive abstract interpretation of the SSA form (interprocedural dataflow) with fault outcomes", NOTE + "Header reading and decoding are replaced by their contracts.")

prop("C03", "Headers are read as the format lays them out, and only if their checksum holds",
 "For each header level (0, 1, 2, 3): method, sizes, CRC, time stamp (MS-DOS date or Unix time), attribute, level, system, path name, permissions, owner, group and user names that reading a header delivers are those recorded at the positions the LHA format assigns to them, whatever extended headers are present and in whatever order, and nothing of an earlier header. The header is accepted only if the recorded sum equals the sum of its bytes (levels 0, 1) or the recorded CRC-16 equals that of the whole header with the CRC taken as zero (levels 2, 3), otherwise an error is returned; a header for which this holds is accepted. Exactly the bytes of the header are consumed, and the header size and packed size reported are the real ones.",
 ["inputs"], "all values of every numeric field, time stamp, checksum and reserved byte, in 28 layouts that cover all levels, systems and extended headers; all orders of checks in the code",
 TESTS + "more than two headers, both intact and level 1 or 2.",
 ["header.go", "crcio.go", "macro.go"], [("level parsers", "header.go getHeaderLevel0, getHeaderLevel1, getHeaderLevel2, getHeaderLevel3"), ("extended headers", "header.go getExtendedHeader"), ("header checksums", "header.go calcSum, crcio.go calcCrc")],
 "bit-provenance dataflow (GF(2)-linear and integer-linear forms) over the SSA form", NOTE + "Names and header structure are those of the enumerated layouts; time.Date as documented.")

prop("C24", "The compressor's literals and matches stand for exactly the source",
 "For every source and each of the methods -lh1-, -lh5-, -lh6- and -lh7-, expanding the literals and matches the compressor hands to its entropy coder gives exactly the bytes of the source, each once and in order. Every match has a length and a distance the method can express and reaches only bytes of the source already emitted (or the initial blanks of the window), also after the window has moved on, when the search gives up its first key, and when another source was compressed before. The CRC-16 and the size returned are those of the whole source.",
 ["inputs", "histories"], "all values of the bytes of each pattern of equal bytes; all patterns up to 5 bytes, runs around the longest match, repeats around the window size, very frequent keys, two sources in succession",
 TESTS + "repeats at the window's edge, the moved window, over-frequent keys or a second source.",
 ["append.go", "slide.go", "crcio.go"], [("search", "slide.go searchDict, searchDict1, insertHash, nextToken"), ("window", "slide.go updateDict, encode, initSlide"), ("limits", "append.go encodeAlloc")],
 "byte-provenance dataflow over the SSA form of the encoder", "Exact within the enumerated patterns and lengths; the bytes are symbols of which only equality is known; hash keys are either all distinct or all equal. Trusted: go/ssa and the abstract domain.")

prop("C26", "Whatever was compressed is decompressed to the same bytes",
 "For every content and every compression method, the bits the entropy coders write for a sequence of literals and matches are read back by the decoder as that sequence.",
 ["inputs", "histories"], "all contents and all frequency distributions", TESTS + "skewed frequencies, length-limited codes or rebuilt adaptive trees.",
 ["huf.go", "maketree.go", "dhuf.go", "shuf.go", "pmtree.go"], [("block codes", "huf.go sendBlock; maketree.go makeTree"), ("adaptive trees", "dhuf.go")],
 na="The codes are decided by frequencies counted at run time (heap order, length limiting, rebuilding of adaptive trees at 0x8000); no abstract domain in reach relates the encoder's tree to the decoder's for unbounded input, and stepping through given contents would be a test. Parts are decided by C05 (decoder against the format), C20 (bit streams) and C24 (literals and matches).")

prop("C27", "Reading a malformed archive always ends",
 "For every byte sequence offered as an archive, every reading operation returns after a time bounded by the size of the file and the sizes its headers claim.",
 ["inputs"], "all byte sequences", TESTS + "malformed trees.",
 ["huf.go", "dhuf.go", "pmtree.go", "maketbl.go", "lhext.go"], [("tree walks", "huf.go decodeCSt1, decodePSt1, readCLen; dhuf.go decodeCDyn"), ("member walk", "lhext.go CommandExtract")],
 na="The walks over Huffman trees end because child indices grow, an inductive invariant over array contents built from the attacker's code lengths; the array domain (one cell per concrete index or one summary) does not express it and no ranking argument over the source alone bounds the walks.")

prop("C06", "Extraction never writes outside the extraction directory",
 "Whatever names, link targets and member types an archive contains, extracting creates, changes, removes or links only the extraction directory (the working directory if none is set) and entries directly in it. A file is opened for writing only if that very name is absent or an ordinary file, so that no existing symbolic link or device is written through.",
 ["inputs", "histories"], "all member names (any bytes), member kinds, settings, contents of the extraction directory and sequences of members",
 TESTS + "a hostile name; the names form an unbounded set and the danger depends on what earlier members created.",
 ["lhext.go"], [("base name confinement and traversal check", "lhext.go extractOne, makeNameWithPathcheck, isDirectoryTraversal"), ("no writing through links", "lhext.go openWithMakePath")],
 "string-shape dataflow plus typestate over the SSA form", NOTE + "Names are abstracted to shapes (extraction directory, slash-free parts); no concurrent change of the directory.")

prop("C07", "Listing, testing and printing change no file",
 "Listing an archive, collecting its headers, testing it, printing members to standard output and decoding a member to memory perform no operation that changes the file system. While testing, decoders produce no output at all.",
 ["inputs", "configurations"], "every archive, every combination of the remaining settings, every compression method, every failing operation",
 TESTS + "testing or printing with most settings, and do not observe the file system.",
 ["lhext.go", "lha.go", "extract.go", "slide.go", "crcio.go"], [("output branch", "lhext.go extractOne"), ("verify mode in the decoders", "extract.go DecodeLzhuf, crcio.go fwriteCrc, slide.go decode")],
 "interprocedural effect analysis over the SSA form", NOTE)

prop("C08", "A dry run changes no file",
 "With the dry-run setting on, adding files to an archive, extracting an archive and extracting one member perform no operation that changes the file system, whatever the archive contains and whatever the other settings are.",
 ["inputs", "configurations"], "every archive, every set of files to add, every combination of the other settings, every failing operation",
 TESTS + "dry-run mode at all.",
 ["lhext.go", "lha.go"], [("dry-run guards", "lhext.go CommandAdd, appendIt, copyOldOne, extractOne, inquireExtract")],
 "interprocedural effect analysis over the SSA form", NOTE)

prop("C12", "Malformed input never makes a public operation panic",
 "If reading or searching a header, decoding a member or compressing a file runs into a panic, the public operation (extract, test, print, list, headers, decode to memory, add, compress) does not let it escape: it returns a non-nil error instead.",
 ["inputs", "configurations"], "every public operation, every place where a header is read or searched or a member is decoded or encoded, all settings",
 TESTS + "a malformed archive; an index out of range needs one particular input.",
 ["lhext.go", "lha.go", "util.go"], [("recovery boundary", "deferred recoverBroken in every public entry")],
 "exception-flow analysis over the SSA form", NOTE + "Panics raised by other code, and unrecoverable runtime failures, are outside.")

prop("C15", "Every file an operation opens is closed when it returns",
 "Each file that a public operation opens or creates has been closed when the operation returns, whether it succeeds, fails at any step or recovers from a panic; no file is opened again at the same place while the former one is still open.",
 ["fault_sequences", "inputs"], "every path through every public operation with every file operation failing in turn and a panic at every header or codec call",
 TESTS + "failing operations and do not count open files.",
 ["lhext.go", "lha.go"], [("deferred closes", "lhext.go CommandAdd, CommandExtract, CommandList, appendIt, extractOne; lha.go Headers")],
 "resource typestate analysis over the SSA form", NOTE + "A close that reports an error still releases the file.")

prop("C16", "Operations leave the caller's settings as they were",
 "When a public operation or a codec returns - after success, failure or a recovered panic - the quiet and verify settings have the values they had at the call, and so has the handle's verbose setting.",
 ["histories", "fault_sequences", "configurations"], "every public operation, every combination of these settings, every failing step and every recovered panic",
 TESTS + "operations that change these settings temporarily and then fail.",
 ["lhext.go", "lha.go", "extract.go"], [("deferred restoration", "lhext.go extractOne, lha.go Headers")],
 "value-tracking dataflow over the SSA form", NOTE)

prop("C18", "An existing file is replaced only with the user's consent",
 "Without the force setting, extraction truncates, removes or replaces an existing file only if the user answered yes for this file, or answered all before; no, skip, an empty answer and the end of input leave the file as it is.",
 ["inputs", "histories"], "every sequence of members and answers (including end of input), every member kind, existing files of every type",
 TESTS + "the question: standard input is empty and the files are removed first.",
 ["lhext.go"], [("consent", "lhext.go inquireExtract, inquire, extractOne")],
 "typestate analysis over the SSA form with all answers enumerated", NOTE + "No other process creates the file between the check and the open.")

prop("C09", "An archive is replaced only by a complete new one",
 "Adding to an archive writes a temporary file and leaves the old archive as it is until the temporary file has been written and closed without any read, write, header or compression failure; only then it takes the archive's place by one rename. On every other way out - error, early return, recovered panic - the old archive is untouched and the temporary file is removed; and an operation that wrote a member and reports success has installed it. The old archive is renamed only to make a backup that was asked for, and only once the new one is complete.",
 ["fault_sequences", "crash_points", "inputs"], "every path through every adding operation with every file operation failing in turn, a panic at every header or codec call, with and without backup and recursion",
 TESTS + "an archive that already exists, nor a failing write, rename or source file.",
 ["lhext.go", "lha.go"], [("temporary file and rename", "lhext.go CommandAdd, compressBytes, buildTemporaryFile, buildBackupFile")],
 "typestate analysis over the SSA form with fault outcomes", NOTE + "os.Rename is taken as atomic; removing the temporary file as successful.")

prop("C10", "Moving files into an archive never loses one",
 "A source file is removed only if deleting after adding was asked for, only after the new archive has been installed without error, and only if that file was written to it (or, when updating, was compared with the archive). Without that setting, adding removes nothing but its own temporary file.",
 ["fault_sequences", "inputs", "configurations"], "every path through every adding operation with every file operation failing in turn; excluded, missing and skipped files",
 TESTS + "the delete setting.",
 ["lhext.go"], [("removal of archived files", "lhext.go CommandAdd, removeFiles, isExcluded")],
 "typestate analysis over the SSA form with fault outcomes", NOTE + "Decided for one file per call.")

prop("C11", "Failures of files and streams are reported",
 "When a file cannot be opened, created, read, written, positioned, truncated, linked, listed, renamed or (after writing) closed - in a public operation, inside any decoder or encoder, while a header is read or written - or input ends inside a header or the packed data of a member, the call returns an error (decoders set the handle's error) instead of success. Exempt: setting times, modes or owners, closing what was only read, cleaning up the temporary file, answers from standard input, a missing archive when adding.",
 ["fault_sequences", "inputs"], "every operation on a file or stream in every public operation, in the decoder and encoder of every method and in header reading and writing, failing at any time",
 TESTS + "any failing operation.",
 ["lhext.go", "lha.go", "extract.go", "append.go", "crcio.go", "bitio.go", "huf.go", "dhuf.go", "shuf.go", "larc.go", "pm.go", "slide.go", "header.go"], [("sticky codec error", "bitio.go, crcio.go, extract.go DecodeLzhuf"), ("error returns", "lhext.go, lha.go, header.go")],
 "fault-injection dataflow analysis over the SSA form", NOTE)

prop("C13", "Sizes claimed by an archive do not decide how much memory is taken",
 "While headers are read and members are listed, tested, printed, decoded or skipped, no single allocation has a size controlled by an unchecked field of the archive: every allocation is bounded by a constant of at most 1 MiB elements, whatever sizes the headers claim.",
 ["inputs"], "all header contents (claimed sizes up to 2^32 and extended header sizes), every compression method, every public reading operation",
 TESTS + "headers with absurd sizes.",
 ["header.go", "lhext.go", "util.go", "slide.go", "extract.go"], [("bounded buffers", "header.go getExtendedHeader, util.go copyfile, slide.go decode")],
 "interval dataflow analysis over the SSA form", NOTE + "Growth of a member decoded to memory follows the bytes actually decoded and is outside.")

prop("C14", "An operation does not depend on what earlier operations left behind",
 "Decoders, encoders, header reading and the public operations never use a private variable of the package or of the handle before having set it themselves in the same call; so the result for a member or archive is the same after any history of earlier operations, failed ones included. The answers All and Skip given for a handle, the caller's settings and the contents of tables are outside.",
 ["histories", "inputs"], "every history of operations on the same handle and package, every method, every public operation",
 TESTS + "more than one operation per handle; the dependency needs a particular earlier member, possibly a damaged one.",
 ["slide.go", "huf.go", "shuf.go", "dhuf.go", "larc.go", "pm.go", "pmtree.go", "bitio.go", "lhext.go", "lha.go"], [("per-member initialisation", "decodeStart*/encodeStart* functions, bitio.go initGetbits, slide.go encode and decode"), ("per-call state of the handle", "lha.go Compress, CompressBytes; lhext.go CommandAdd")],
 "initialisation (use-before-set) dataflow analysis over the SSA form, refined by a second pass that splits paths at the first assignment", NOTE + "Variables that are only ever assigned one constant count as constants. Elements of tables are outside.")

prop("C22", "The command line asks the library for exactly what its flags say",
 "For every command flag (-l, -lv, -e, -p, -t, -a, -c, -d) with any combination of the flags that modify it (-n, -f, -m, -u, -x, -o), the program calls the matching library operation on the given archive with dry run, force, delete, update, new archive, exclusion, method and verify settings exactly as asked, and none of them switched on unasked. It exits with status 0 only if that operation returned no error, and with another status when the operation failed or none was asked for.",
 ["configurations"], "every combination of the listed flags, both results of the library operation",
 "No test runs the command.",
 ["cmd/lharc.go"], [("flags to settings", "cmd/lharc.go main, parseOption, parseSubOption, initVariable")],
 "interprocedural constant propagation over the SSA form", NOTE + "The archive name is taken as given.")

prop("C04", "Headers are written as the format lays them out, with correct checksums",
 "For each header level (0, 1, 2), generic or Unix, the bytes written for a header record form one complete header of the LHA format: method, sizes, CRC, time stamp (MS-DOS date for levels 0 and 1, Unix time for level 2), attribute, level, system, name and directory, link target, permissions, owner, group and user names of the record each stand at the position, in the byte order and with the separators the format assigns; the recorded header size equals the bytes written, no extended header is missing or left unterminated, the sum byte (levels 0, 1) and the header CRC (level 2) are correct for exactly those bytes.",
 ["inputs"], "all values of every numeric field within the format's range, names of 1 to 480 bytes (including those that cross the size limits of the levels), directories, links, group and user names, all levels, generic and Unix",
 TESTS + "names near the limits, links, levels 0 and 1 or any particular number in a header that is written.",
 ["header.go", "macro.go", "crcio.go"], [("writers", "header.go WriteHeader, writeHeaderLevel0, writeHeaderLevel1, writeHeaderLevel2"), ("Unix and generic fields", "header.go writeUnixInfo"), ("checksums", "header.go calcSum, crcio.go calcCrc")],
 "bit-provenance dataflow (GF(2)-linear and integer-linear forms) over the SSA form", NOTE + "Names are those enumerated; calendar methods of time.Time as documented.")

prop("C20", "Codes pass through the bit streams unchanged and in order",
 "Codes of 0 to 16 bits that are put into the packed stream appear in it most significant bit first, one after the other without gap or overlap, whatever their widths and values; what is read from a packed stream is exactly its bits in that order, whatever the widths asked for and looked at in advance. The counts of packed bytes written and of packed bytes still to be read are exact; beyond the packed size of a member no byte is taken from the archive and zero bits are delivered; a member whose packed form would exceed its original size is marked as not packable and writes no byte beyond that size.",
 ["inputs", "histories"], "all values of codes and stream bytes, all sequences of widths (every bit position, every width), all sizes around the limits",
 TESTS + "particular bit positions; the codes are those one input happens to produce.",
 ["bitio.go"], [("reading", "bitio.go fillbuf, getbits, initGetbits"), ("writing", "bitio.go putcode, putbits, initPutbits")],
 "bit-provenance dataflow over the SSA form", NOTE + "The bit position is reached by one or two codes before the one observed; reads and writes succeed (C11 covers failures).")

NOTE2 = "Exact within the enumerated shapes: names, kinds, sizes and layouts are concrete, contents, permission bits, time bits and checksums are symbols, so one abstract path stands for all their values. Trusted: go/ssa, the model of the file system (fs.go), the codec contract. "

prop("C17", "Reading an archive visits every member, each with its own header and data",
 "Extracting everything or a selection, printing, testing, collecting headers, and extracting or decoding a single member visit the members of an intact archive one after the other: the next header is read exactly where the packed data of the previous member end, whether the member was decoded completely, in part, or skipped; every selected member and no other is delivered, with exactly its bytes, in order; the headers returned are those of the members, in order. The end mark, the end of the file after a member, and an archive without members end the walk with success. For a self-extracting archive the walk starts at the first header.",
 ["inputs", "histories"], "archives of up to 13 members that mix all header levels, all methods, files, empty files, directories and links, sizes around the copy buffer and above 64 KiB, decoders that leave packed bytes unread; all contents; every reading operation and selection",
 TESTS + "more than one or two members, other methods, or a member that is skipped.",
 ["lhext.go", "lha.go", "header.go", "util.go", "extract.go"], [("member loops", "lhext.go CommandExtract, CommandList, extractWithHeader, extractBytesWithHeader; lha.go Headers"), ("skipping", "lhext.go skipToNextpos"), ("output", "lhext.go extractOne, extractOneStream; util.go copyfile")],
 "byte-provenance dataflow over the SSA form and a model of the file system", NOTE2)

prop("C19", "What is added is recorded correctly and completely",
 "After a file, an empty file, a directory, a symbolic link or bytes in memory have been added, the archive is a sequence of well-formed members followed by one zero byte, and the new member records the base name, kind, permissions, modification time, original size and CRC-16 of exactly what was archived, the method and the packed size of the data that follow its header. Data stored without compression - because that was asked for or because packing does not pay - are the very bytes of the source; nothing of an abandoned attempt to compress remains.",
 ["inputs"], "all contents, permissions and times; sizes 0 to beyond 64 KiB around the copy buffer; every header level; with and without compression and when packing does not pay; file and memory sources; with and without an existing archive",
 TESTS + "what the archive they write contains, byte for byte, nor directories, links or incompressible data.",
 ["lhext.go", "lha.go", "header.go", "append.go", "util.go", "crcio.go"], [("adding a member", "lhext.go addOne, appendIt, appendBytes"), ("header of the new member", "header.go initHeader, WriteHeader"), ("stored data", "util.go encodeStoredCrc, copyfile")],
 "byte-provenance dataflow over the SSA form and a model of the file system", NOTE2)

prop("C21", "Adding to an archive keeps every member it does not replace",
 "After adding - one file, several, a directory recursively, bytes in memory, once or repeatedly with one handle - every member of the old archive is found again, byte for byte and in order, except members replaced: with sorted contents a member of the same name is replaced (when updating, only if the file is newer), and a new member stands before the first member of greater name (in byte order); without sorting, new members follow the old ones. A new archive asked for holds only what was added. A backup asked for holds the old archive; a self-extracting archive stays as it is and its members go to the new archive. The archive itself, excluded and missing files are not added; the other files given are; source files keep their contents, and no other file appears.",
 ["inputs", "histories", "configurations"], "all contents of old members and files; old archives that mix levels, kinds, methods and sizes (beyond 64 KiB); every position of insertion and replacement; the listed settings",
 TESTS + "an archive that has members already.",
 ["lhext.go", "lha.go", "header.go", "util.go"], [("merging", "lhext.go placeMember, copyOldOne, copyRemaining, appendIt, appendBytes"), ("which files", "lhext.go CommandAdd, findUpdateFiles, findFiles, isExcluded"), ("installing", "lhext.go buildBackupFile, buildStandardArchiveName")],
 "byte-provenance dataflow over the SSA form and a model of the file system", NOTE2 + "Names given together with sorting are in ascending order, as the command line tool sorts them.")

prop("C23", "Extraction restores kinds, permissions, times and link targets",
 "After extraction, every file and directory has the permissions and the modification time its header records - directories too, whatever was extracted into them afterwards - every symbolic link holds the target recorded, every directory of the archive exists, the extraction directory is made when it is missing, and nothing else is created.",
 ["inputs"], "all permission bits and time stamps, in archives that mix levels and kinds; extraction of everything, of a selection and of single members, into the working directory, a new one and a nested one",
 TESTS + "directories, links, permissions or times.",
 ["lhext.go", "header.go"], [("metadata", "lhext.go adjustInfo, addDirinfo, adjustDirinfo"), ("kinds", "lhext.go extractOne, symlinkWithMakePath, makeParentPath")],
 "provenance dataflow over the SSA form and a model of the file system", NOTE2)

prop("C01", "What was archived comes back: content, kind, permissions and time",
 "A file, empty file, directory or symbolic link that was added to an archive by any adding operation and is then extracted by any extracting operation - and bytes in memory that are then decoded to memory - come back with the same content, kind, link target, permissions and modification time, for every header level, compressed, stored or stored because packing does not pay; several of them in one archive each come back as themselves. Archiving and extracting leave the sources and the archive as they are. What the compression methods themselves do to the data is not part of this property.",
 ["inputs", "histories"], "all contents, permissions and times; every pair of adding and extracting operation, every header level, sizes around the copy buffer; several members",
 TESTS + "one file of one size and method, with default settings.",
 ["lhext.go", "lha.go", "header.go", "append.go", "extract.go", "util.go", "crcio.go"], [("adding", "lha.go Compress, CompressBytes; lhext.go CommandAdd, addOne"), ("extracting", "lha.go Decompress, DecompresBytes, Headers; lhext.go CommandExtract")],
 "byte-provenance dataflow over the SSA form and a model of the file system", NOTE2 + "What the compression methods do to the data is not part of this property: the decoder is taken to invert the encoder (C05, C20 and C24 decide parts of that).")

prop("C05", "Packed data are decoded as the format defines them",
 "For an intact member of method -lh4-, -lh5-, -lh6-, -lh7-, -lh3-, -lzs-, -lz5- or stored (-lh0-, -lz4-, -pm0-), decoding delivers exactly the bytes its literals and matches stand for, of exactly the original size: every match copies the bytes at its distance, also when it overlaps itself, crosses the end of the window or reaches into the initial content of the window; block sizes, code lengths (runs of zeros and lengths up to 16 bits included), single-symbol codes, canonical codes and offsets are read as the format lays them out. For -lh1- the same holds for offsets and matches, for -lh2- and -pm2- for matches (their adaptive trees are not part of this property). The CRC returned is that of the bytes delivered, the count of packed bytes read is that of the member, and no error is set.",
 ["inputs"], "all values of literals; every length and every offset code with smallest and largest offset; matches before, at and behind the ends of the window; several blocks with different codes; every kind of code-length run",
 TESTS + "the window end, the initial content of the window, single-symbol blocks, long codes or any method but two.",
 ["extract.go", "slide.go", "huf.go", "shuf.go", "larc.go", "maketbl.go", "bitio.go", "crcio.go", "util.go"], [("window", "slide.go decode"), ("blocks and codes", "huf.go readPtLen, readCLen, decodeCSt1, decodePSt1; shuf.go; maketbl.go makeTable"), ("larc", "larc.go")],
 "byte-provenance dataflow over the SSA form against members written by the format's definition", "Exact within the enumerated token sequences and code tables; literals are symbols. Trusted: go/ssa, the checker's own writer of the format. The adaptive trees of -lh1-, -lh2- and -pm2- are replaced by given tokens.")
