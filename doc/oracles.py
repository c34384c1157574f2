CAUGHT = {"S03-single-page": "S03", "S02-partial-start": "S02", "T03-last-removed": "T03", "D04-zero-byte": "D04", "K01-free-chain": "K01", "K01-page-boundary": "K01", "P01-tab-after-value": "P01", "P07-full-width": "P07", "T05-minus-zero": "T05", "Z01-pending-output": "Z01"}
ORACLE = dict(
 S01="the bytes the page-level writer placed (round trip through an independent layout engine); file offsets are checked by reading the file at the offset.",
 S02="a byte-array model run in lock-step (and object versions that must rise exactly for changed objects); the saved file is read by the independent reader `onecd.Reader`; objects not touched must be identical.",
 S03="an independent walker that assigns every page of the saved file to exactly one owner and compares growth with what the free list could supply.",
 S04="the generator knows whether the header was damaged; sound files must report their version, page size and locale, damaged ones must be refused and left unchanged.",
 S05="byte comparison (SHA and mtime-free content) of the file before and after; the file may be read-only for the process.",
 S06="bytes placed by the writer into sparse files at known offsets (object data, blobs, index pages); model computed in Python integers.",
 T01="the declaration from which the description text was rendered; for violations, that opening reports an error.",
 T02="an independent decoder of every field type (text, XML and typed forms).",
 T03="the list of live records of the generator, in physical order or sorted by the independent key encoder.",
 T04="an independent encoder plus round trip.",
 T05="ordering of Python values (Decimal, datetime, bytes) against byte order of the produced keys.",
 T06="expat parses the file; declarations and values are compared with the model.",
 T07="the model of stored forms (plain, deflated once or twice, container, value storage, masked list) and the exact bytes expected in the files.",
 T08="the independent reader compares the target database after import with the source's tables; other tables must be untouched; reading and dumping in the importing session must equal those of the source and of the reopened target.",
 T09="the chunk chain model: bytes, declared length, expected error for broken chains.",
 T10="independent packer and unpacker of index pages written from the format description.",
 T11="the database file before the import for every import that must fail (decided by the damage applied), the exported parts read back by an independent reader for the others.",
 C01="independent container reader; expected contents computed from parts, packing and the dynamic-update rule.",
 C02="as C01 with overlay and deletion list.",
 C03="as C01 with configinfo indirection by hash.",
 C04="the vendor configurations embedded by the generator.",
 C05="a map from path to content; writes are checked by reading back with the independent reader.",
 D01="the list of version numbers in ascending order and the documented rule (0 last, -1 the one before...).",
 D02="replay of the generated history in Python; the dump is read by the independent container reader.",
 D03="difference of two replayed states.",
 D04="dictionary from hash to bytes.",
 K01="a dictionary model run in lock-step, re-read after reopening, and the file read by the independent container reader, which also accounts for every page of the file (element, contents or free list).",
 K02="the tree written by the independent container writer.",
 Z01="round trip and Python's zlib in both directions.",
 Z02="a (position, bytes) model for each stream; disk files also read from outside.",
 P01="a recogniser and tree builder for the grammar written independently; rendering and re-parsing.",
 P02="Python's codecs.",
 P03="Python's casefold restricted to Latin and Cyrillic; exact integer parsing.",
 P04="Python's base64.",
 P05="zlib.crc32.",
 P06="an independent formatter of the three GUID forms; round trip; order and equality.",
 P07="Python Decimal and datetime.",
 P08="an XML parser (expat) reads the escaped text back.",
 P09="Python datetime arithmetic in UTC and fixed-offset zones.",
 L01="fnmatch-like matcher over casefolded names, written independently.",
 L02="a model of the documented options; for whole runs, metamorphic equality of two spellings/orders of one command line.",
 L03="differential: what the library functions do when called directly, the independent readers, and exit status.",
 L04="sizes computed from the file as built, also of sparse files whose objects exceed 2 and 4 GB.",
 L06="the output of the same command run without a fault; any difference needs a nonzero exit status.",
 L07="the output of the same command on the undamaged database; any difference needs a nonzero exit status.",
 L08="the console text of the same run without the options (metamorphic), its outputs and exit status.",
 L09="the files and exit status of each command alone, run one after another on a copy (metamorphic); the tables left in both databases.",
 L05="the set of objects placed without an owner.",
 X01="the operation ends with a result or an error: no sanitizer report, no signal, no hang, memory bounded.",
 X02="as X01.",
 X03="a snapshot of every file around the chosen directory before and after, and the multiset of contents inside it.",
 X04="the dump oracles of D02/D03 applied to every dump of every process; the temporary directory after all processes ended.",
 X05="the output of the same command into an empty directory (metamorphic); all other files compared with what was there before.",
)
