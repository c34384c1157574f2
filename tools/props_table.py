# ---------------------------------------------------------------- storage layer
prop("S01", "Stored objects read back as their exact logical bytes",
     "For every supported database format version, page size and page placement, reading any stored object of an opened database - whole, by any byte range, by any block, or saved to a file - yields exactly the bytes that were stored, with the exact stored length. Reads outside the stored length never invent data.",
     "all format versions (8.0.3 to 8.3.8), page sizes 4K-64K, object lengths (empty, block boundaries, two-level page maps), page permutations, byte ranges",
     "The tests open five sample files whose objects are small and laid out by 1C; page placement, page sizes other than 4K and boundary lengths are never varied.",
     [S + "V8Object.cpp", S + "V8Object.h", S + "MemBlock.cpp", S + "Class_1CD.cpp"],
     [("page map walk", S + "V8Object.cpp V8Object::get_data"), ("page cache", S + "MemBlock.cpp MemBlock::get_block")],
     observe=["V8Object::get_data/get_len/savetofile/get_fileoffset"], over=("inputs", "configurations"))
prop("S02", "Object writes and resizes behave like a byte array and persist",
     "Any sequence of whole writes, range writes, stream writes and length changes on objects of a database opened for writing leaves every object equal to the byte array a simple model predicts (bytes before the edit point are kept), both immediately and after the database is saved, closed and reopened. Objects that were not written are never altered. The version stored with an object rises when the object is changed and stays when it is not.",
     "histories of writes/resizes over several objects, database opened exclusively, per format version, followed by flush and reopen",
     "No existing test writes to a database object; crossing page-map boundaries in both directions requires operation sequences.",
     [S + "V8Object.cpp", S + "MemBlock.cpp", S + "Class_1CD.cpp"],
     [("resize", S + "V8Object.cpp V8Object::set_len"), ("write", S + "V8Object.cpp V8Object::set_data"), ("page cache flush", S + "MemBlock.cpp MemBlock::flush")],
     observe=["V8Object::set_data/set_len/get_data, reopen by an independent reader"], over=("histories",))
prop("S03", "Every page has one owner: pages are never shared, lost or leaked",
     "After any history of object growth, shrinking and freeing, and after reopening, every page of the file belongs to exactly one of: the header, an object's page map, an object's data, or the free list; the file length equals the page count in the header. Freed pages are reused before the file grows.",
     "histories of growth/shrink/free over several objects and reopen points",
     "The invariant is global over the file and over histories; no test walks page ownership.",
     [S + "V8Object.cpp", S + "Class_1CD.cpp"],
     [("page allocation", S + "V8Object.cpp V8Object::get_free_block"), ("page release", S + "V8Object.cpp V8Object::set_block_as_free")],
     observe=["page map of the file as read by an independent walker"], over=("histories",))
prop("S04", "Damaged or foreign database headers are rejected, valid ones accepted",
     "A file whose signature, format version, page size, or page count does not match a supported database is reported as not opened and leaves no half-open state or side effects on the file; every well-formed database of a supported version is opened with the version, page size and locale recorded in it.",
     "all single-field corruptions of the header, truncations and extensions of the file, all supported versions",
     "Tests only open five good files.",
     [S + "Class_1CD.cpp"], [("open validation", S + "Class_1CD.cpp T_1CD::T_1CD")],
     observe=["T_1CD::is_open/get_ver/get_pagesize, file bytes"])
prop("S05", "Inspecting and exporting never modifies the database file",
     "Opening a database (exclusively or not) and running any combination of read-only commands - XML and binary export, configuration dumps, depot dumps, table sizes - leaves the database file byte-for-byte unchanged.",
     "all databases of supported versions, all combinations of read-only commands, exclusive and shared mode",
     "No test compares the file before and after.",
     [S + "Class_1CD.cpp", S + "MemBlock.cpp", "src/ctool1cd/App.cpp"], [("dirty page tracking", S + "MemBlock.cpp")],
     observe=["database file bytes before/after"], over=("inputs", "histories"))

prop("S06", "Data beyond four gigabytes is located, read and written exactly",
     "Objects, table records and long values are found and read (and objects written and resized) at exactly their logical place however long the object is, up to the limits of the format: in databases whose objects are many gigabytes long no byte position, record offset or long-value block is truncated or confused with another, and the number of records is the table's true one.",
     "object lengths around and beyond 2, 4 and 8 GB up to the limits of each format version and page size, all places in them",
     "The sample databases of the tests are a few megabytes; positions are computed in several places with integer types of different widths.",
     [S + "V8Object.cpp", S + "Table.cpp", S + "MemBlock.cpp"],
     [("record offset", S + "Table.cpp Table::get_record"), ("long value chain", S + "Table.cpp Table::readBlob"), ("page location", S + "V8Object.cpp V8Object::get_data")],
     observe=["V8Object::get_data/set_data/get_fileoffset, Table::get_record/get_file_offset/readBlob, sparse file bytes"])

# ---------------------------------------------------------------- tables
prop("T01", "Table descriptions are understood completely and malformed ones refused",
     "For every well-formed table description the opened table reports exactly the declared name, fields (name, type, nullability, length, precision, case sensitivity) in order, indexes with their fields and primary flag, and record length (the implied record version of tables with record locking included); a description violating the grammar is refused with an error rather than opened as something else.",
     "all table descriptions over all field types, sizes, nullability, index sets, with single mutations",
     "The tests check a handful of tables of two sample bases.",
     [S + "Table.cpp", S + "Field.cpp", S + "FieldType.cpp", S + "Index.cpp"],
     [("description parser", S + "Table.cpp Table::init"), ("field declaration", S + "Field.cpp Field::field_from_tree")],
     observe=["Table::get_name/get_num_fields/get_field/get_index/bad/get_recordlen"])
prop("T02", "Field values are decoded from records exactly as stored",
     "For every field type and every stored record, the presented value, null flag and XML value of each field equal the value an independent encoder stored - numbers with sign and precision, dates, strings, booleans, binary, GUIDs, versions and inline long values alike.",
     "all field types x lengths x precisions x values including null, extreme and empty values",
     "Tests check a few values per type from fixed samples.",
     [S + "Table.cpp", S + "FieldType.cpp", S + "Field.cpp", S + "TableRecord.cpp", S + "BinaryDecimalNumber.cpp"],
     [("decoding", S + "FieldType.cpp get_presentation/get_XML_presentation"), ("record access", S + "TableRecord.cpp")],
     observe=["TableRecord::get_string/is_null_value/get_xml_string/get_raw"])
prop("T03", "Table iteration visits exactly the live records",
     "Iterating a table in physical order yields every non-deleted record exactly once, in storage order, and never a deleted one; iterating by an index yields exactly the records the index refers to, in index order.",
     "all interleavings of live and deleted records, sizes around buffer boundaries, index trees of one to three levels with any packing parameters",
     "Sample tables are small and have mostly live records.",
     [S + "Table.cpp", S + "TableIterator.cpp", S + "Index.cpp"],
     [("physical scan", S + "TableIterator.cpp, Table.cpp Table::fill_records_index"), ("index scan", S + "Index.cpp Index::create_recordsindex")],
     observe=["TableIterator, Index::get_numrecords/get_numrec"])
prop("T04", "Text-to-binary-to-text conversion of field values is lossless",
     "For every field type that can be stored from text (binary, GUID, logical, number, fixed and variable strings, date), converting a presentable value to its stored binary form and presenting it again gives the same value, and the binary form equals the one an independent encoder of the format produces.",
     "all types, lengths, precisions and in-range values",
     "Only a few literal conversions are tested.",
     [S + "FieldType.cpp", S + "BinaryDecimalNumber.cpp", S + "Field.cpp"],
     [("encode", S + "FieldType.cpp get_binary_value")],
     observe=["Field::get_binary_value + Field::get_presentation"])
prop("T05", "Index sort keys order records the way their values are ordered",
     "For every orderable field type, comparing the binary sort keys of two values byte by byte gives the same result as comparing the values themselves (nulls first; numbers numerically with sign; dates chronologically), and equal values give equal keys.",
     "pairs of values of every orderable field type, length and precision",
     "No test computes a sort key.",
     [S + "FieldType.cpp", S + "Field.cpp"], [("sort key", S + "FieldType.cpp get_sort_key, Field.cpp Field::get_sort_key")],
     observe=["Field::get_sort_key"])
prop("T06", "XML export is well-formed and carries every live record and value",
     "Exporting any table to XML produces a well-formed document containing the table's full field declarations and, for every live record, every field with its exact value (escaped as needed, nulls marked), and nothing else.",
     "all schemas and contents, including special characters, blobs inline, tables with and without primary index, with deleted records",
     "No test parses exported XML.",
     [S + "Table.cpp", S + "FieldType.cpp", S + "Common.cpp"],
     [("XML export", S + "Table.cpp Table::export_to_xml")], observe=["exported file parsed by an independent XML parser"])
prop("T07", "Long values exported to separate files hold the exact (unpacked) content",
     "When XML export is asked to put long values in separate files, one file per non-null, non-empty long value is written in the announced place, its content equals the stored value, and when unpacking is requested a packed value is written in its unpacked form.",
     "all tables with text/image fields, packed and plain content, both switches",
     "No test runs the export.",
     [S + "Table.cpp", S + "FieldType.cpp"], [("blob export", S + "Table.cpp Table::export_to_xml, FieldType.cpp save_blob_to_file")],
     observe=["directory tree written by the export"])
prop("T08", "Binary export followed by binary import restores the table exactly",
     "Exporting tables to binary files writes exactly the stored bytes of every part of each table (and the same files whenever it is repeated), and importing those files into another database having the same tables makes the data, long-value and index parts of the imported tables byte-identical to the source while other tables are unaffected; the same open database and a reopened one then read, dump and index the imported content. Index files of a database with another form of index pages may be refused.",
     "all tables of supported versions, sizes larger and smaller than the target's content",
     "No test imports.",
     [S + "Table.cpp", S + "Class_1CD.cpp", S + "V8Object.cpp"], [("export/import", S + "Table.cpp Table::export_table/import_table")],
     observe=["exported files; database re-read by an independent reader"], over=("inputs", "histories"))
prop("T09", "Long values (text and binary) are stored and read without loss",
     "A long value of any length stored in the chained long-value area is read back exactly as its declared length, through memory and through streams; a chain that leaves the area is reported as an error, and a chain that is too short never yields more bytes than it stores.",
     "lengths around chunk boundaries, scattered chunk orders, damaged chains",
     "Samples hold only 1C-written chains.",
     [S + "Table.cpp"], [("chain read", S + "Table.cpp Table::readBlob")],
     observe=["Table::readBlob, TableRecord/TableBlobFile access"])
prop("T10", "Index leaf pages unpack to what was packed",
     "Packing any ordered set of index entries that fits into a leaf page and unpacking the page gives exactly the same record numbers and keys; entries that do not fit are refused. Pages written by an independent encoder with any legal bit widths are unpacked correctly.",
     "all sorted key sets with shared prefixes/suffixes, key lengths, page sizes, and bit widths",
     "No test unpacks a leaf page.",
     [S + "Index.cpp"], [("leaf packing", S + "Index.cpp Index::pack_leafpage/unpack_leafpage")],
     observe=["Index::pack_leafpage/unpack_leafpage"])

prop("T11", "An import that cannot be carried out leaves the database as it was",
     "When the files of an exported table are incomplete, unreadable or damaged (root file, parts, description), belong to a table of another record length or to a database with other index pages, or a part of the table cannot be stored in the database, importing them is reported as an error and leaves the database file unchanged; an import that is carried out stores every part of the table and nothing else, and is saved when the database is closed.",
     "all exported tables and all ways their files can be missing, unreadable or cut; tables lacking a part in the target",
     "Tests import no table.",
     [S + "Table.cpp", S + "Class_1CD.cpp"], [("import", S + "Table.cpp Table::import_table")],
     observe=["outcome of the import; database file; database re-read by an independent reader"])

# ---------------------------------------------------------------- configurations
prop("C01", "Dumping the database configuration yields exactly its live files",
     "Dumping the database configuration to a container produces exactly one element per configuration file stored in the base, with its name and byte-exact content - parts concatenated in part order, dynamic updates overriding their originals, service files omitted.",
     "all configuration table contents: packed and plain, single and multi-part, with dynamic updates, any record order",
     "Tests dump two sample bases and only look at success.",
     [S + "ConfigStorage.cpp", S + "TableFiles.cpp", S + "Class_1CD.cpp", S + "cfapi/V8Catalog.cpp"],
     [("config storage", S + "ConfigStorage.cpp ConfigStorageTableConfig"), ("dump", S + "Class_1CD.cpp T_1CD::save_config")],
     observe=["the .cf container read by an independent reader"])
prop("C02", "The main (edited) configuration dump is the base overlaid with saved edits",
     "Dumping the main configuration yields the database configuration with every edited file replaced by its edited version, added files added, and deleted files absent.",
     "all combinations of base files and saved edits (override, add, delete, multi-part)",
     "No test has an edited configuration.",
     [S + "ConfigStorage.cpp", S + "Class_1CD.cpp"], [("config-save storage", S + "ConfigStorage.cpp ConfigStorageTableConfigSave")],
     observe=["the .cf container read by an independent reader"])
prop("C03", "Extensions are dumped completely in applied and edited form",
     "For every extension stored in the base, in its applied and in its edited form, the dump contains exactly the extension's files with exact contents, found by their content hash.",
     "sets of extensions sharing files, applied and edited",
     "The samples contain at most one extension and only success is checked.",
     [S + "ConfigStorage.cpp", S + "Class_1CD.cpp"], [("extension storage", S + "ConfigStorage.cpp ConfigStorageTableConfigCas")],
     observe=["dumped containers"])
prop("C04", "Vendor configurations are found and extracted intact",
     "Every vendor configuration embedded in the base configuration is listed with its name, vendor and version and extracted as the exact embedded container.",
     "any number of embedded vendor configurations, any name/vendor/version text",
     "Tests extract from one sample and only count.",
     [S + "SupplierConfig.cpp", S + "SupplierConfigBuilder.cpp", S + "Class_1CD.cpp"], [("extraction", S + "SupplierConfig.cpp")],
     observe=["T_1CD::supplier_configs, extracted files"])
prop("C05", "Configuration files can be addressed by path in any storage form",
     "For every configuration held in a directory, in a container file, or in the base, a file or nested element is found by its path exactly when it exists, its content is returned exactly, and nested containers and packed elements are entered transparently.",
     "all nested container structures and existing/non-existing paths",
     "One sample path per storage is tested.",
     [S + "ConfigStorage.cpp"], [("path lookup", S + "ConfigStorage.cpp readfile/fileexists")],
     observe=["ConfigStorage::readfile/fileexists"])

# ---------------------------------------------------------------- depot
prop("D01", "Depot version numbers resolve as documented",
     "In a configuration depot, version N>0 selects version N, 0 the latest, -1 the one before it and so on; numbers that select no existing version are reported as errors.",
     "any set of stored versions and any requested number",
     "Tests request three versions.",
     [S + "Class_1CD.cpp", S + "save_depot_config.cpp"], [("version resolution", S + "Class_1CD.cpp T_1CD::get_ver_depot_config")],
     observe=["T_1CD::get_ver_depot_config, dump result"])
prop("D02", "A depot version dump is the exact state of the configuration at that version",
     "Dumping version N of a depot yields exactly the files of every object alive at version N, each at its newest content not newer than N; objects created later or removed by then are absent.",
     "any history of versions that add, change, remove and re-add objects and their attached files, in any depot format",
     "Tests dump three versions of three sample depots and check only success.",
     [S + "save_depot_config.cpp", S + "PackDirectory.cpp", S + "Packdata.cpp"], [("depot dump", S + "save_depot_config.cpp T_1CD::save_depot_config")],
     observe=["dumped container read by an independent reader"], over=("histories", "inputs"))
prop("D03", "A partial depot dump contains exactly what changed in the version range",
     "Dumping a version or range of versions partially yields exactly the files whose content was changed within the range, in their state at the end of the range, and lists exactly the objects deleted in it with their attached files.",
     "any version history and any sub-range",
     "Tests dump one range and check only success.",
     [S + "save_part_depot_config.cpp"], [("partial dump", S + "save_part_depot_config.cpp T_1CD::save_part_depot_config")],
     observe=["directory written by the dump"], over=("histories", "inputs"))
prop("D04", "Content-addressed depot data is found wherever it is stored",
     "A hash-addressed depot object is returned byte-exact whether it lies in the loose object tree or in any pack file, and is reported missing exactly when it is in neither; a missing data directory is an error.",
     "any distribution of objects over loose files and packs, any lookup hash",
     "One sample pack directory is tested with a few hashes.",
     [S + "PackDirectory.cpp", S + "Packdata.cpp"], [("lookup", S + "PackDirectory.cpp PackDirectory::get_data")],
     observe=["PackDirectory::get_data"])

# ---------------------------------------------------------------- container files
prop("K01", "A container file behaves like a map from names to byte contents",
     "Any sequence of creating, overwriting (longer or shorter), partially writing, and deleting elements of a container, including nested containers, with reopening at any point, leaves the container readable - by this library and by an independent reader - with exactly the surviving names and their last contents. Elements keep their creation time, and those not written their modification time. No space is lost: every page of the file belongs to an element, to the table of contents or to the list of free pages.",
     "operation histories over names, sizes around page boundaries, nesting, and reopen points",
     "Tests create a handful of files.",
     [S + "cfapi/V8Catalog.cpp", S + "cfapi/V8File.cpp", S + "cfapi/TV8FileStream.cpp"],
     [("container update", S + "cfapi/V8Catalog.cpp"), ("element update", S + "cfapi/V8File.cpp")],
     observe=["V8Catalog/V8File API; container bytes read by an independent reader"], over=("histories",))
prop("K02", "Containers written by other producers are read completely",
     "Every well-formed container - any page sizes, chained pages, packed or plain, elements that are themselves containers - is listed and read with exactly its element names, timestamps and contents, as a stream, into a buffer at any offset, to a file or unpacked into directories.",
     "all well-formed containers from an independent writer",
     "Tests read samples produced by this library or 1C.",
     [S + "cfapi/V8Catalog.cpp", S + "cfapi/V8File.cpp", S + "cfapi/V8Time.cpp"], [("container read", S + "cfapi/V8Catalog.cpp V8Catalog::initialize")],
     observe=["V8Catalog::get_first/next, V8File::Read/SaveToFile, SaveToDir"])

# ---------------------------------------------------------------- codecs and text
prop("Z01", "Packing and unpacking streams is lossless for any length",
     "For every byte sequence, packing then unpacking returns it exactly, the packed form is a raw deflate stream any standard tool can unpack, and any standard raw deflate stream is unpacked exactly; data that is not packed is reported as an error or, where automatic detection is requested, copied unchanged.",
     "all lengths including zero and multiples of internal buffers, all compressibilities, damaged streams",
     "Tests use small literals.",
     [S + "UZLib.cpp"], [("deflate/inflate", S + "UZLib.cpp")], observe=["ZDeflateStream/ZInflateStream/ZInflateOrCopy"])
prop("Z02", "Streams obey one position/size/content model",
     "For any sequence of reads, writes, seeks, size changes and copies, memory, temporary and disk file streams give the results of one simple model: a growable byte array with a position.",
     "histories of stream operations on each stream kind",
     "Tests cover a handful of operations.",
     [S + "SystemClasses/TStream.cpp", S + "SystemClasses/TMemoryStream.cpp", S + "SystemClasses/TFileStream.cpp", S + "TempStream.cpp"],
     [("streams", S + "SystemClasses/TStream.cpp")], observe=["TStream API"], over=("histories",))
prop("P01", "The 1C text tree parser accepts exactly the grammar and round-trips",
     "Every well-formed braces text is parsed into the tree it denotes with the value types its syntax implies, writing that tree and parsing it again gives an equal tree, and every text that violates the grammar is refused with an error rather than parsed into something else.",
     "all trees with all value types and all escapes, any whitespace, single-character mutations",
     "Tests parse a few literals.",
     [S + "Parse_tree.cpp"], [("parser", S + "Parse_tree.cpp parse_1Ctext/parse_1Cstream"), ("writer", S + "Parse_tree.cpp outtext")],
     observe=["parse_1Ctext, parse_1Cstream, outtext, Tree navigation"])
prop("P02", "Text encodings convert without loss and detect byte-order marks",
     "For every Unicode text, conversion between UTF-8 and two-byte encoding in both directions is lossless, the encoding of a buffer is recognised by its byte-order mark with the correct mark length.",
     "all Unicode texts including characters outside the basic plane; buffers with and without marks",
     "Tests use a few words.",
     [S + "SystemClasses/System.SysUtils.cpp", S + "SystemClasses/TStreamReader.cpp", S + "SystemClasses/TStreamWriter.cpp"],
     [("encodings", S + "SystemClasses/System.SysUtils.cpp TEncoding")], observe=["TEncoding, TStreamReader/Writer"])
prop("P03", "Case-insensitive text helpers agree with Latin/Cyrillic case folding",
     "For all texts, lower/upper casing changes exactly Latin and Russian letters, case-insensitive comparison is an equivalence consistent with it, suffix tests, extension extraction, replacement (first or all occurrences) and line splitting give the results of their plain definitions.",
     "all UTF-8 texts, patterns and suffixes",
     "Tests use a few literals.",
     [S + "SystemClasses/String.cpp", S + "SystemClasses/System.SysUtils.cpp"], [("string helpers", S + "SystemClasses/String.cpp")],
     observe=["LowerCase/UpperCase/CompareIC/EndsWithIC/StringReplace/ExtractFileExt/TStringList"])
prop("P04", "Base64 encoding and decoding are inverse and standard",
     "Decoding any standard base64 text, with or without line breaks, gives the original bytes, and encoding without line breaks gives the standard text.",
     "all byte sequences and line lengths",
     "Tests use a few literals.",
     [S + "Base64.cpp"], [("codec", S + "Base64.cpp")], observe=["base64_encode/base64_decode"])
prop("P05", "Checksums equal standard CRC-32 of the whole stream",
     "The checksum of any stream is the standard CRC-32 of all its bytes regardless of length or the current position.",
     "all byte sequences and positions",
     "Tests check one value.",
     [S + "CRC32.cpp"], [("crc", S + "CRC32.cpp")], observe=["_crc32"])
prop("P06", "GUID and hexadecimal text forms are exact and reversible",
     "For all 16-byte values the two GUID text forms are the documented permutations of the bytes, parsing a GUID text restores the bytes in either letter case, texts of any other length are refused, equality and emptiness follow the bytes, and hexadecimal dumps of buffers and streams are exact.",
     "all GUIDs, all byte buffers, texts of other lengths",
     "Tests use a few literals.",
     [S + "BinaryGuid.cpp", S + "Common.cpp"], [("guid", S + "BinaryGuid.cpp"), ("hex", S + "Common.cpp hexstring")],
     observe=["BinaryGuid, GUIDas1C/GUIDasMS, hexstring, two_hex_digits_to_byte"])
prop("P07", "Packed decimal numbers and dates convert exactly",
     "For every length, precision, sign and digit string, the packed decimal form and its text convert both ways without change of value (text with more fraction digits than the field keeps loses exactly those, a number too large for the field keeps the largest integer part); every date-time from year 1 to 9999 converts between its packed form, the display text and the 1C digit text exactly.",
     "all lengths/precisions/signs/digits; all valid dates",
     "Tests use a few literals.",
     [S + "BinaryDecimalNumber.cpp", S + "Common.cpp"], [("packed decimal", S + "BinaryDecimalNumber.cpp"), ("dates", S + "Common.cpp string_to_date/date_to_string")],
     observe=["BinaryDecimalNumber, BinaryDecimalDate, date conversion helpers"])
prop("P08", "XML escaping yields text that decodes to the original",
     "For every text, the escaped form contains no raw markup characters and an XML parser decodes it to exactly the original text.",
     "all XML-representable texts",
     "Tests use a few literals.",
     [S + "Common.cpp"], [("escape", S + "Common.cpp toXML")], observe=["toXML"])
prop("P09", "Timestamps convert between container, file and calendar time exactly",
     "Converting any calendar time between container time, system file time and Unix time and back gives the same instant at the coarser resolution, and each conversion gives the correct absolute value.",
     "all instants from 1601 to 9999",
     "Tests check one or two instants.",
     [S + "cfapi/V8Time.cpp", S + "SystemClasses/System.cpp", S + "Common.cpp"], [("time conversion", S + "cfapi/V8Time.cpp, SystemClasses/System.cpp")],
     observe=["V8Time, FileTime_to_POSIX, UnixTimeToFileTime, time1CD_to_FileTime"])

# ---------------------------------------------------------------- command line
prop("L01", "Table name filters select exactly the matching tables",
     "An export restricted by a list of name patterns processes exactly the tables whose whole name matches at least one pattern, where * and ? are wildcards, matching ignores letter case, and names are separated by commas, semicolons or spaces.",
     "all table name sets and pattern lists",
     "No test runs the command line with filters.",
     ["src/ctool1cd/App.cpp"], [("filters", C + "App.cpp")], observe=["names of exported tables"])
prop("L02", "Command line options are recognised in any order, case and spelling",
     "Each documented option, in its short or long spelling and any letter case, takes exactly its documented number of arguments and has the same effect wherever it stands relative to the database name; quoted arguments lose exactly their surrounding quotes; unknown or incomplete options are reported as errors.",
     "all permutations and spellings of option lists",
     "No test runs the command line parser.",
     [C + "ParseCommandLine.cpp", "src/ctool1cd/App.cpp"], [("parser", C + "ParseCommandLine.cpp CommandParse")],
     observe=["CommandParse::getcommands/getfilename", "effects of ctool1cd runs"])
prop("L03", "The command-line program does what its library functions do and reports failure",
     "Each command of the program produces in the given place exactly the result the corresponding operation defines, and the exit status is zero only if the database could be opened and every requested command was carried out.",
     "all commands with good and bad databases and destinations",
     "No test runs the program.",
     [C + "App.cpp", C + "cTool_1CD_Main.cpp"], [("dispatch", C + "App.cpp App::Run")], observe=["exit status and output files of ctool1cd"])
prop("L04", "The table size report states the true sizes of every table",
     "The table size report lists every table exactly once with the number of its records (deleted ones included) and the exact sizes in bytes of its data, long-value and index parts, 0 for a part it does not have.",
     "all databases of supported versions",
     "No test reads the report.",
     [C + "App.cpp", S + "Table.cpp"], [("report", C + "App.cpp")], observe=["report file"])
prop("L05", "The search for lost objects saves exactly the objects no table refers to",
     "In a database of the formats before 8.3.8 the search for lost objects writes into the given directory one file per internal object that no table refers to, named by its block and holding exactly its content, nothing else and nothing elsewhere, and leaves the database unchanged.",
     "all databases with any number of unreferenced objects anywhere in the file",
     "No test runs the search.",
     [S + "Class_1CD.cpp", S + "V8Object.cpp"], [("search", S + "Class_1CD.cpp T_1CD::find_and_save_lost_objects")], observe=["files written by ctool1cd -slo"])
prop("L06", "Output that could not be written completely is reported",
     "When the files of an export, dump, extraction, import or report cannot be written completely - the disk becomes full at any point, a directory stands in the place of a file, writing is not permitted - the program ends with a nonzero exit status and does not crash; exit status zero means that the output is complete. Files of the user that stand in the way inside such a directory are not removed.",
     "all export, dump and import commands, all sizes at which files stop growing, all output files whose place is taken",
     "No test makes a write fail.",
     [S + "cfapi/V8Catalog.cpp", S + "cfapi/V8File.cpp", S + "ConfigStorage.cpp", S + "Table.cpp", "src/ctool1cd/App.cpp"],
     [("closing a container", S + "cfapi/V8Catalog.cpp V8Catalog::~V8Catalog"), ("configuration files", S + "ConfigStorage.cpp ConfigStorageTable::save_config"), ("table export", S + "Table.cpp Table::export_table")],
     observe=["exit status and files of ctool1cd with limited file sizes"])
prop("L07", "References that lead outside their file are reported",
     "When a page number, the next block or block length of a long value, a table number, or a missing or cut object file of a depot leads outside the file it refers to, an export, dump or extraction that needs it ends with a nonzero exit status; exit status zero means that the output is the same as that of the undamaged database.",
     "all references of generated databases, infobases and depots; all exporting commands",
     "No test damages a database.",
     [S + "V8Object.cpp", S + "Class_1CD.cpp", S + "Table.cpp", S + "Packdata.cpp", S + "PackDirectory.cpp", "src/ctool1cd/App.cpp"],
     [("page numbers", S + "V8Object.cpp, Class_1CD.cpp T_1CD::get_block"), ("long values", S + "Table.cpp Table::readBlob"), ("depot objects", S + "Packdata.cpp, PackDirectory.cpp")],
     observe=["exit status and files of ctool1cd"])
prop("L08", "Quiet runs and log files change nothing but where messages go",
     "A run with a log file writes every message of the run without it, and nothing of an older file, into the log file in UTF-8 and nothing to the console; a quiet run writes none; the outputs and the exit status are the same in all of them (messages about the command line itself, which come before the options are known, stay on the console), and a nonzero exit status comes with a message.",
     "all commands, succeeding and failing, with every combination of the two options, in any place of the command line",
     "No test runs the program.",
     ["src/ctool1cd/App.cpp", S + "Messenger.cpp"],
     [("messages", S + "Messenger.cpp Messenger::AddDetailedMessage, setlogfile"), ("options", "src/ctool1cd/App.cpp App::Run")],
     observe=["exit status, console and files of ctool1cd"])
prop("L09", "Commands of one run do not disturb each other",
     "Several exports, dumps, extractions and reports in one run of the program write the same files as runs of each of them alone, and the exit status is zero only if it is for each of them; commands after an import in the run work on the imported tables, as runs after it would.",
     "all sequences of exporting commands and imports on all kinds of databases",
     "No test runs the program.",
     ["src/ctool1cd/App.cpp", S + "Class_1CD.cpp", S + "Table.cpp", S + "ConfigStorage.cpp", S + "V8Object.cpp"],
     [("state between commands", "src/ctool1cd/App.cpp App::Run, " + S + "Class_1CD.cpp")],
     observe=["exit status and files of ctool1cd"])
prop("X01", "Damaged databases never crash or hang the reader",
     "Opening any damaged database file and running any read-only command on it terminates with a reported error or a partial result, never with memory corruption, endless looping or a crash.",
     "all byte-level corruptions of generated databases",
     "No test feeds damaged databases.",
     [S + "Class_1CD.cpp", S + "V8Object.cpp", S + "Table.cpp", S + "Index.cpp"], [("validation", "throughout the readers")],
     observe=["process outcome under AddressSanitizer"])
prop("X02", "Damaged containers, configuration content and depots never crash the reader",
     "Reading, listing, unpacking or parsing any damaged container file (cf, epf, cfu), and dumping any database whose configuration files, extension descriptions, supplier configurations, update lists, depot objects or pack files have damaged contents, ends with a reported error or a partial result, never with memory corruption, endless looping, unbounded memory use or a crash.",
     "all damages of containers, brace texts, deflated data and depot packs that are otherwise well formed",
     "No test feeds damaged containers or contents.",
     [S + "cfapi/V8Catalog.cpp", S + "cfapi/V8File.cpp", S + "cfapi/TV8FileStream.cpp", S + "ConfigStorage.cpp", S + "Packdata.cpp", S + "Parse_tree.cpp"],
     [("page chains", S + "cfapi/V8Catalog.cpp"), ("brace texts", S + "Parse_tree.cpp parse_1Ctext"), ("packs", S + "Packdata.cpp Packdata::get_data")],
     observe=["process outcome under AddressSanitizer"])
prop("X03", "Names stored in the data never lead output outside the chosen directory",
     "Unpacking a container, exporting tables (XML or binary form), extracting vendor configurations and dumping a range of depot versions create and change files only inside the directory chosen by the user, whatever names the elements, tables, vendor configurations, versions or attached files stored in the data have (path separators, parent directories, absolute paths, zero characters); contents with such names are still written, each to a file of its own (unless only the replaced characters tell the names apart).",
     "all names of container elements, tables, vendor configurations, attached files; nested containers; existing files around the chosen directory",
     "No test has data with a name that is not an ordinary file name.",
     [S + "cfapi/V8Catalog.cpp", S + "Table.cpp", S + "Common.cpp", "src/ctool1cd/App.cpp", S + "save_part_depot_config.cpp"],
     [("unpacking", S + "cfapi/V8Catalog.cpp V8Catalog::SaveToDir"), ("exports", "src/ctool1cd/App.cpp")],
     observe=["all files around and inside the chosen directory"])
prop("X04", "Runs working at the same time do not disturb each other",
     "Any number of processes using the library or the program at the same time, starting and ending in any order with the same directory for temporary files, each produce exactly what they produce alone, and leave no temporary files when they have ended normally.",
     "all interleavings of operations, starts and ends of two or three processes over depots whose dumps use temporary files",
     "Tests run one process at a time.",
     [S + "TempStream.cpp", S + "TempStream.h"],
     [("temporary directory", S + "TempStream.cpp DelayedInitTempPath"), ("removal", S + "TempStream.cpp TTempStreamStaticInit::~TTempStreamStaticInit")],
     observe=["dumps of each process, temporary directory"], over=("schedules", "histories"))

prop("X05", "What an output replaces does not show in it, and other files stay",
     "Every export, dump and extraction writes the same output whatever stood in the places of its files before: other files, shorter or longer ones, containers with other elements, the output of the same command for another database or its own. Files in the directory that are not part of the output stay as they were.",
     "all contents of the output place, databases and commands",
     "Tests write each output once, into an empty place.",
     [S + "ConfigStorage.cpp", S + "save_depot_config.cpp", S + "save_part_depot_config.cpp", S + "SupplierConfig.cpp", S + "Table.cpp", S + "Field.cpp", S + "V8Object.cpp", "src/ctool1cd/App.cpp"],
     [("dump of a configuration", S + "ConfigStorage.cpp ConfigStorageTable::save_config"), ("dump of a version", S + "save_depot_config.cpp"), ("exports", S + "Table.cpp export_to_xml, export_table")],
     observe=["every file of the output place before and after, exit status"], over=("histories", "contents of the output place"))


