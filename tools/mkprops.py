import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=hook)))

p("C01","Byte buffer access is bounded, all-or-nothing and little-endian",
 "Whatever sequence of seeks, resets, reads and writes is issued, a byte buffer never touches memory outside its capacity: each read or write of an 8/16/32/64-bit integer or of a run of bytes either transfers exactly that many bytes at the cursor (integers in little-endian order) and advances the cursor by that amount, or reports zero and changes neither the contents nor the cursor. A request of any size, including sizes near the maximum of the size type and cursors placed beyond the end, is refused rather than wrapped. Bytes written are the bytes later read back from the same position. The unchecked forms do the same wherever the request fits, the remaining span is exactly what lies between cursor and end, and the hex dump shows exactly the bytes before the cursor.",
 ["histories","inputs"],"every buffer capacity, every sequence of buffer operations with arbitrary values, lengths and seek positions",
 "Tests issue a handful of well-formed writes followed by reads in a 128-byte buffer; no test seeks past the end, fills a buffer exactly, or passes an extreme length.",
 ["include/crefl/buf.h","src/buf.cc"],[("capacity check before every transfer","include/crefl/buf.h CREFL_BUF_WRITE_IMPL / CREFL_BUF_READ_IMPL, crefl_buf_write_bytes, crefl_buf_read_bytes"),("zero-filled exact-size allocation","src/buf.cc crefl_buf_new")],
 ["return values, crefl_buf_offset, bytes of the buffer after every call"],[("cursor","data_offset, may be placed anywhere by seek","include/crefl/buf.h struct crefl_buf")])
p("C02","BER identifier and length octets encode and decode exactly",
 "Every identifier (each of the four classes, primitive or constructed, any tag number below 2^56) and every 64-bit length is written as exactly the predicted number of octets, in the definite X.690 form using the fewest octets, and reading those octets returns the same identifier or length and leaves the cursor just after them. Octets that are truncated, that use the indefinite or reserved length form, that carry a length over eight octets or a tag number over 56 bits, or that use the long tag form for a tag below 31 are refused.",
 ["inputs"],"all identifiers and lengths, all octet strings offered to the readers",
 "Tests round-trip fewer than ten identifiers and lengths, all of one class, and never present malformed octets; the space is 2^59 identifiers and 2^64 lengths.",
 ["src/asn1.cc","include/crefl/asn1.h"],[("base-128 tag codec","src/asn1.cc crefl_asn1_ber_tag_*"),("identifier octet packing","src/asn1.cc crefl_asn1_ber_ident_*"),("definite length codec","src/asn1.cc crefl_asn1_ber_length_*")],
 ["octets in the buffer, return codes, decoded identifier/length, cursor"])
p("C03","INTEGER, BOOLEAN and NULL contents are minimal and round-trip",
 "Every signed 64-bit integer is encoded in the fewest two's-complement octets and every unsigned one in the fewest magnitude octets, in both the big-endian and the little-endian variant, in exactly the predicted number of octets, and decoding them (sign-extending the signed form) returns the same value; BOOLEAN and NULL likewise round-trip in one and zero octets, any non-zero BOOLEAN octet reading as true. Integer contents of zero or more than eight octets, BOOLEAN contents that are not one octet and non-empty NULL contents are refused. The by-pointer and by-value entry points agree on every input.",
 ["inputs"],"all 64-bit signed and unsigned values, all content octet strings and content lengths",
 "Tests check about two dozen values; sign and length boundaries exist at every multiple of eight bits in two signednesses, two byte orders and two calling conventions.",
 ["src/asn1.cc"],[("length computed from leading zeros","src/asn1.cc crefl_asn1_ber_integer_*_length"),("shift-and-swap transfer","src/asn1.cc crefl_asn1_ber_integer_u64_read/write, crefl_le_ber_integer_*"),("sign extension","src/asn1.cc _sign_extend_s64")],
 ["octets, lengths, return codes and values of all four variants"])
p("C04","ASN.1 REAL encoding is exact for every double",
 "Every double (normal, subnormal, signed zero, infinite) is encoded in exactly the predicted number of octets as an X.690 REAL that denotes the same mathematical value, and decoding it gives back the identical bits; a NaN decodes as a NaN. Any well-formed binary REAL of base 2, 8 or 16, with any scale factor and with exponent and mantissa of at most eight octets each, whose value a double can represent decodes to exactly that value. Decimal, reserved, truncated and unrepresentable encodings are refused, and decoding never consumes more octets than the stated contents length.",
 ["inputs"],"all 2^64 doubles; all REAL content octet strings",
 "Tests round-trip a dozen normal doubles; subnormals, exponent-width boundaries, mantissa widths, special values and foreign encodings (bases 8 and 16, scale factors, long exponents) are never exercised.",
 ["src/asn1.cc"],[("mantissa right-justification and exponent rebasing","src/asn1.cc f64_asn1_data_get"),("REAL reader","src/asn1.cc crefl_asn1_ber_real_f64_read*"),("REAL writer","src/asn1.cc crefl_asn1_ber_real_f64_write*")],
 ["octets, predicted length, decoded bits, cursor, return codes"])
p("C05","vf128 floats follow the documented format and round-trip exactly",
 "Writing any float or double in the variable-length float format and reading it back in the same width yields the identical bits (a NaN yields a NaN), and the octets written are the ones the format document prescribes: inline for the small values, otherwise exponent and mantissa in the fewest octets, with the exponent folded into the mantissa when that is not longer. Reading a value written from the wider or narrower type truncates excess precision and maps an exponent beyond the range to a signed infinity or, below it, to a subnormal or zero, and the by-pointer and by-value entry points agree. Truncated input is refused.",
 ["inputs"],"all floats and doubles; all header and payload octet strings",
 "Tests sample a few hundred values and 1000 random ones per range; the encoder has eight cases split on exponent, trailing zeros and payload widths for two float widths and two calling conventions, and reading one width as the other is untested.",
 ["src/asn1.cc","docs/vf128.md"],[("case split of the encoder","src/asn1.cc crefl_vf_f64_write*, crefl_vf_f32_write*"),("normalisation in the decoder","src/asn1.cc crefl_vf_f64_read*, crefl_vf_f32_read*")],
 ["octets, decoded bits, cursor, return codes"])
p("C06","LEB128 and VLU integers below 2^56 round-trip; others are refused",
 "Every integer below 2^56 is written in the fewest octets of the LEB128 format (seven bits per octet, least significant first, continuation in the top bit) and of the VLU format (unary length prefix in the low bits of the first octet), and reading returns the same integer with the cursor after the last octet. Integers of 2^56 or more are refused by the writers; truncated input, and input that claims more than eight octets, is refused by the readers. By-pointer and by-value entry points agree.",
 ["inputs"],"all 64-bit integers, all octet strings",
 "Tests round-trip a few dozen values and no malformed octets; every multiple of seven bits is a width boundary, in two formats and two calling conventions.",
 ["src/asn1.cc"],[("LEB128 codec","src/asn1.cc crefl_leb_u64_*"),("VLU codec","src/asn1.cc crefl_vlu_u64_*")],["octets, values, cursor, return codes"])
p("C07","Object identifiers round-trip through DER and dotted text",
 "Every object identifier of two to fifteen components that X.660 permits, whose components and first two components combined are below 2^56, is written with its first two components combined as X.690 prescribes, in exactly the predicted number of octets, and read back component for component; formatting it as dotted decimal text and parsing that text returns the same components. Text is accepted exactly when it is a dotted sequence of at most fifteen decimal components each below 2^56 (the empty text being the empty identifier), and formatting writes no more characters than the caller's buffer holds, including the terminator, while always reporting the full length. Octets that are truncated, that overrun the stated contents length or that hold more than fifteen components are refused.",
 ["inputs"],"all OID values, all content octet strings, all texts, all text buffer sizes",
 "Tests convert fewer than ten identifiers, all beginning with 1 or 2.99; the decoding of the combined first octets, zero arcs, buffer truncation and more than fifteen components are not reached.",
 ["src/asn1.cc"],[("first-two-components rule","src/asn1.cc crefl_asn1_ber_oid_read/write/length"),("text conversion","src/asn1.cc crefl_asn1_oid_to_string, crefl_asn1_oid_from_string")],
 ["components, octets, text, return codes, bytes around the text buffer"])
p("C08","OCTET STRING transfer respects both the object and the user buffer",
 "Reading an octet string copies no more octets than the user's buffer holds, reports the object's full length, and always leaves the cursor just after the object, also when the copy is truncated or when only the length is asked for; writing places exactly the string's octets. A read or write whose object does not fit in what remains of the buffer is refused without moving the cursor, without copying and without touching memory outside either buffer.",
 ["inputs"],"all object lengths, user buffer sizes (including none), positions and remaining sizes",
 "Tests use one short string in a large buffer; no truncated read, length query, or object longer than the remaining buffer is tried.",
 ["src/asn1.cc"],[("two-lengths copy","src/asn1.cc crefl_asn1_ber_octets_read/write")],["copied octets, reported length, cursor, return code, guard bytes"])
p("C09","Every codec fails cleanly at every truncation and capacity point",
 "For every element the codecs can write or read, running out of buffer at any octet makes the call report failure, never success, and never reads or writes a byte outside the buffer; with exactly enough space the call succeeds. A failed by-pointer or by-value integer, real, float, LEB128, VLU or OID read delivers zero or an empty identifier rather than a partial value.",
 ["fault_sequences","inputs"],"each codec operation, each value, each capacity from zero up to the encoded length and each truncation of the encoded octets",
 "All tests use 128-byte buffers that never run out.",
 ["src/asn1.cc","include/crefl/buf.h"],[("return code propagation in every reader and writer","src/asn1.cc"),("capacity checks","include/crefl/buf.h")],["return code, value, out-of-bounds accesses"])
p("C10","A stream of DER elements reads back in order, each checked by type",
 "Writing any sequence of tagged values (BOOLEAN, INTEGER, REAL, OBJECT IDENTIFIER, OCTET STRING, NULL) one after another and then reading them in the same order returns the same values, with the cursor after each element at the sum of the element sizes. A typed read offered an element with a different tag number reports failure instead of decoding it, and headers can be skipped using the identifier and length alone.",
 ["histories","inputs"],"all sequences of element writes and typed reads or skips, all values and tag numbers",
 "Tests write one element per buffer and read it back with the matching reader.",
 ["src/asn1.cc"],[("header then contents","src/asn1.cc crefl_asn1_der_*_read/write")],["values, cursor, return codes along the stream"])
p("C11","A reflection database survives a write and read unchanged",
 "Whatever declarations and names a database holds, writing it to memory or a file in exactly its predicted size and reading it into a fresh database yields the same root, the same declarations with the same identifiers, fields and names, and writing that again yields byte-identical output. A destination one byte too small is refused untouched.",
 ["histories","inputs"],"all databases constructible through the API or the plugin, all output sizes",
 "One test writes and reads one tiny database; growth of the tables across the builtin boundary, long names, many declarations and undersized outputs are not reached.",
 ["src/db.cc","src/model.cc"],[("builtin elision on write and restoration on read","src/db.cc crefl_db_read_mem, crefl_db_write_mem")],["all declaration fields and names before and after, bytes of the image"])
p("C12","Malformed or truncated database images are refused without harm",
 "Reading any byte string as a database either reports failure or yields a database in which every reference from one declaration to another and to a name lies inside the loaded tables and every name is a terminated string. No byte outside the supplied image is ever read, whatever the header claims; a byte string without the magic octets, or whose header claims tables that do not fit in it, and every strict prefix of a valid image are refused.",
 ["inputs","fault_sequences"],"all byte strings offered as an image: all truncations and corruptions of header, declaration and name data",
 "No test reads a malformed image.",
 ["src/db.cc"],[("header, size and link validation","src/db.cc crefl_db_read_mem")],["return code, table contents, out-of-bounds reads"])
p("C13","Failed file reads and writes of a database are reported",
 "Writing a database file reports success only when the complete image has reached the file, and failure whenever opening, writing or closing fails, for instance because the disk is full; reading a missing, unreadable, short or foreign file reports failure. The command-line tool exits non-zero whenever it could not read an input or write its output, and so do the compiler plugin and the script that runs it.",
 ["fault_sequences"],"a failure at every point of opening, writing (every byte position) and closing the output, and of opening and reading each input",
 "No test injects a file error; buffered output means a full disk shows only when the file is flushed.",
 ["include/crefl/util.h","src/db.cc","tool/crefltool.cc","src/reflect.cc","scripts/creflcc.py"],[("file helpers","include/crefl/util.h crefl_read_file, crefl_write_file"),("tool error handling","tool/crefltool.cc do_merge, do_emit, do_dump, do_stats"),("plugin output","src/reflect.cc EndSourceFileAction"),("compiler invocation","scripts/creflcc.py crefl_meta")],["return codes, exit status, file contents"])
p("C14","Building a database is append-only; identities and names stay stable",
 "However many declarations and names are added, each new declaration gets the next identifier, starts out blank except for its kind, and every earlier declaration and name keeps its identifier and content; empty names share the null name. The builtin types are exactly the documented list with documented widths, signedness and names, and looking one up by width and properties returns the first builtin that matches or the null declaration when none does.",
 ["histories"],"all interleavings of declaration and name creation of any length, across every table growth",
 "Tests create at most a few dozen declarations; the tables double at 32 entries and 32 name bytes and can reach any size.",
 ["src/model.cc","src/types.cc"],[("growable tables","src/model.cc crefl_decl_new, crefl_name_new"),("builtin table","src/types.cc all_types, src/model.cc crefl_db_defaults, crefl_intrinsic")],["identifier and content of all declarations and names after every step"],
 [("declaration table","decl, decl_offset, decl_size","include/crefl/model.h struct decl_db"),("name table","name, name_offset, name_size","include/crefl/model.h struct decl_db")])
p("C15","Queries list exactly the right members, in order, within the limit",
 "Asking a source, archive, struct, union, enum, set or function for its members returns exactly the members of the requested kind in declaration order; the reported count is the full count whatever the limit, and no more entries than the limit are stored. Asking a declaration of the wrong kind for members is refused, and kind tests, type navigation, counts, values and addresses report what the declaration holds, or the null declaration or zero for the wrong kind.",
 ["inputs","histories"],"all databases, all member lists mixing kinds, all limits from zero to beyond the count",
 "Tests query a few small structs and enums with exact limits only.",
 ["src/model.cc"],[("filtered list walk","src/model.cc _decl_array_fetch and its callers")],["returned arrays including the bytes beyond the limit, counts, return codes"])
p("C16","Type sizes, alignments and field offsets follow the platform C ABI",
 "For every type composed of the builtin scalars, pointers, enums, fixed arrays, structs and unions, without bit-fields, packing or alignment attributes, the reported width of each type, the offset of each struct field and the total size including trailing padding equal those of the x86-64 C ABI, at any nesting depth; qualifiers, typedefs and merge aliases are transparent. The field-offset query lists each field once in order followed by one entry with the total size, within the given limit.",
 ["inputs","programs"],"all type trees over the builtin scalars and constructors",
 "Tests check two array widths and one struct; interactions of nesting, unions, arrays of padded structs, bool, complex, enum and qualified members are not covered.",
 ["src/model.cc"],[("alignment rules","src/model.cc _pad_align, _struct_pad, _union_pad, _array_pad, crefl_struct_fields_offsets")],["widths and offsets returned for every type"])
p("C17","Type hashes identify declarations by structure, not by position",
 "Two declarations, in the same or different databases, receive the same hash exactly when they are structurally equal: same kind, name, properties, quantity, attributes and, recursively, same linked and member declarations in order. Where a declaration sits in the table, its identifiers, what precedes it and in which database it lives do not matter. A reference back to an enclosing declaration counts by its kind and name; declarations whose recursion passes through several named declarations are outside this guarantee.",
 ["inputs","histories"],"all declaration graphs and renumberings of them, including self-referential structs",
 "One test hashes a few databases and compares two; any single omitted or misplaced field in the digest, or dependence on identifiers, escapes it.",
 ["src/link.cc"],[("Merkle hash of declarations","src/link.cc crefl_hash_node_sum, crefl_node_hash, crefl_index_scan")],["the hash of every reachable declaration"])
p("C18","Merging databases preserves every source and shares equal types",
 "Merging any list of databases yields an archive whose sources are the inputs in order, and in which each source, following aliases, lists the same declarations in the same order, structurally equal to the original down to every leaf, with sizes and offsets unchanged. Structurally equal named structs, unions, enums and functions, unless their recursion passes through several named declarations, are stored once and referenced thereafter, inputs are not modified, and the result does not depend on anything but the inputs.",
 ["inputs","histories"],"all lists of input databases, including repeated, overlapping, empty and self-referential ones",
 "One test merges two small fixed inputs and checks counts.",
 ["src/link.cc"],[("copy with hash lookup and aliases","src/link.cc crefl_copy_node, crefl_link_merge")],["the merged database compared with its inputs"])
p("C19","The hash map behaves as a finite map under every operation history",
 "After any sequence of insertions, subscript accesses, erasures, clears, copies and moves, with any hash function however bad, looking up a key yields exactly the last value stored for it or reports it absent, the size is the number of present keys, and iteration visits each present key exactly once. Copies are independent of the original, two maps compare equal exactly when they hold the same associations, and the map never accesses memory outside its storage.",
 ["histories"],"all operation sequences over all keys and hash functions, across growth and deleted-slot reuse",
 "There is no unit test of the map; the linker only inserts and finds, so erase followed by re-insertion along a collision chain is never reached.",
 ["include/crefl/hashmap.h"],[("open addressing with deleted-slot marks","include/crefl/hashmap.h insert, operator[], find, erase, resize_internal")],["results of every call, size and iteration after every step"],
 [("slot states","available, occupied, deleted, recycled per slot","include/crefl/hashmap.h bitmap_state")])
p("C20","SHA-224 and SHA-256 digests are correct however the data is fed",
 "For every message, the digest equals the FIPS 180-4 SHA-224 or SHA-256 value, regardless of how the message is split into updates, including empty ones, and of the state of other hash contexts in use at the same time. Only the digest's length in bytes is written to the result.",
 ["inputs","histories"],"all messages and all ways of splitting them into updates, interleaved over several contexts",
 "Tests hash a few published vectors in a single update each; block-boundary and padding-boundary splits are not reached.",
 ["src/sha256.cc","include/crefl/sha256.h"],[("block buffering and padding","src/sha256.cc sha256_update, sha256_final"),("compression function","src/sha256.cc")],["digest bytes and bytes after them"])
p("C21","Reflected structs, unions, enums and typedefs mirror the source",
 "For every C source file of structs, unions, enums and typedefs, nested to any depth, named or anonymous, the produced database lists under the source each declaration once, in source order, with its name; each struct, union or enum lists its members in order with their names, nested declarations, types, bit-field widths and constant values. Every reference to a type leads to the declaration or builtin with the same kind, size and signedness, through the same pointers, array bounds and qualifiers; a typedef name stands for the type it names, whose own outermost qualifiers need not be repeated where the name is used.",
 ["programs"],"all C files made of such declarations",
 "The plugin tests only check that a fixed set of small headers is processed without an error; what is recorded is not compared with the source.",
 ["src/reflect.cc"],[("AST visitor","src/reflect.cc VisitRecordDecl, VisitFieldDecl, VisitEnumDecl, VisitTypedefDecl, get_intrinsic_type"),("parent and sibling links","src/reflect.cc create_named_node")],["the database file produced for the source file"])
p("C22","Reflected functions, variables, qualifiers and attributes mirror the source",
 "For every C source file of functions and global variables, the produced database lists each one in source order with its name, its return type, its parameters in order with names and types, its variable type, and its storage and interface qualifiers (static, inline, noreturn, external linkage). Const, volatile and restrict are recorded at the exact level at which they are written, parameter arrays keep their written form (static, unspecified, variable or constant bound), and every supported attribute on a declaration is recorded, an alignment, alias target or annotation with its argument, in source order where the attributes are written in one place.",
 ["programs"],"all C files made of such declarations",
 "The plugin tests only check that a fixed set of small headers is processed without an error; what is recorded is not compared with the source.",
 ["src/reflect.cc"],[("AST visitor","src/reflect.cc VisitFunctionDecl, VisitVarDecl, create_attributes, get_intrinsic_type")],["the database file produced for the source file"])
p("C23","Layouts computed from reflected headers match the compiler's",
 "For every C header of structs and unions without bit-fields, packing or alignment attributes, the size of each type and the offset of each field that the library computes from the reflected database equal the compiler's own sizeof and offsetof, and still do after the database has been merged with others.",
 ["programs"],"all such headers, alone and merged in any combination",
 "No test compares a computed layout with the compiler's.",
 ["src/reflect.cc","src/model.cc","src/link.cc"],[("plugin, reader, linker and layout working together","src/reflect.cc, src/db.cc, src/link.cc, src/model.cc")],["reported widths and offsets against compiler-evaluated constants"])
p("C24","The dump and statistics tools report the database faithfully",
 "For every database and every dump format, the tool prints one row per declaration from the root on, in identifier order, whose columns show that declaration's identifier, attribute, next and link references, kind, name, properties, link target, hash and qualified name, each cut to the documented column width with a trailing ellipsis when longer. The statistics report the exact record counts and byte sizes, the total being the size of the file.",
 ["inputs","configurations"],"all databases, all eight dump formats and the statistics",
 "Tests run the tool on fixed inputs and look only at whether it exits.",
 ["src/dump.cc","tool/crefltool.cc"],[("row construction and padding","src/dump.cc crefl_db_get_row, _pad_str, _props"),("statistics","src/dump.cc crefl_db_dump_stats")],["standard output of the tool"])
p("C25","Emitted C source embeds the database image byte for byte",
 "For every readable database, the C source the tool emits compiles and defines a byte array and its size such that the array is exactly the database image, so that reading the embedded image gives the same database as reading the file. An image of any size, including sizes that are and are not a multiple of the line width, is emitted completely.",
 ["inputs"],"all databases and image sizes",
 "No test compares the emitted array with the image; one sample is compiled from one input.",
 ["tool/crefltool.cc"],[("emitter","tool/crefltool.cc do_emit")],["the array in the emitted source"])
p("C26","Object identifier descriptions match the OID registry",
 "Looking up the octets of any object identifier returns exactly the description that the bundled registry lists for those octets, and the empty description when the registry does not list them, whether shorter, longer or differing in one octet. The answer depends only on the octets given, of any length, whatever follows them in memory and in whatever order lookups are made.",
 ["inputs","histories"],"all octet strings and lookup sequences",
 "No test looks up a description.",
 ["src/oid.cc","data/oids.txt"],[("static table and lazily built index","src/oid.cc oid_map, crefl_asn1_oid_desc")],["returned descriptions"])
p("C27","The ASN.1 dump tool shows every element once, at its true depth",
 "For every file of well-formed definite-length BER with universal SEQUENCE and SET nesting up to two hundred levels, the tool prints exactly one row per element, in file order, with the offset of its contents, its contents length, its nesting depth, whether it is constructed and its type name, and the exact value of primitive integers, bit strings, object identifiers and printable strings. On any other file it reports an error or prints rows without reading outside the file or failing to terminate.",
 ["inputs"],"all files",
 "No test runs the tool.",
 ["tool/asn1tool.cc"],[("recursive element walk","tool/asn1tool.cc read_asn1, oid_str")],["standard output and exit of the tool"])
p("C28","Reflection metadata survives the whole pipeline into the program",
 "Reflecting the sources of a program, merging the results, emitting the archive as C source and compiling it, by the commands or by the CMake macro, for any sources, shared headers and include directories, embeds a database that lists the sources in the given order, each with exactly the declarations a direct reflection of that source records, in order and structurally equal down to every leaf; equal types of shared headers are stored once, and sizes and offsets computed from the embedded database are the compiler's.",
 ["programs","configurations"],"all lists of C sources, headers they share and include directories, through the script and the CMake macro",
 "The build runs the pipeline once on two samples with no include directory and nothing compares the result; each stage can be right by itself and lose or confuse declarations in combination.",
 ["scripts/creflcc.py","cmake/crefl_macro.cmake","src/reflect.cc","src/link.cc","tool/crefltool.cc"],[("compiler invocation","scripts/creflcc.py crefl_meta_cmd"),("build macro","cmake/crefl_macro.cmake crefl_target_reflect"),("merge and emit","tool/crefltool.cc do_merge, do_emit")],["the database embedded in the compiled library"])
p("C29","Outputs are a function of the inputs alone",
 "The database the plugin writes for a source file, the archive the tool merges, the C source it emits and every dump are byte for byte the same whenever the inputs are: whatever directory they lie in, whatever the working directory, environment, locale, previous content of the output file, address layout or content of fresh memory. A merged archive does not depend on the file names of its inputs.",
 ["inputs","configurations"],"all inputs of the plugin and of every tool mode, in all environments",
 "Tests run each command once; uninitialised octets, order taken from addresses or a path in an output never show in a single run.",
 ["src/reflect.cc","src/link.cc","src/db.cc","src/dump.cc","tool/crefltool.cc"],[("plugin output","src/reflect.cc"),("merge order","src/link.cc crefl_link_merge, crefl_index_scan"),("image writer","src/db.cc crefl_db_write_mem")],["the octets of every output"])
p("C30","Bit counting and byte order primitives are exact for every word",
 "For every 32 and 64 bit word, counting leading zeros, trailing zeros and set bits gives the exact number, the word size for the zero counts of zero, in the compiler-supported and in the portable definition, by the sized names and by the type-generic ones. Converting a 16, 32 or 64 bit integer to or from little-endian or big-endian order lays its octets out in that order on the host and is its own inverse.",
 ["inputs"],"all words of every width, in every definition the headers select between",
 "Unit tests exercise these only through the codecs, on the path this compiler selects and for the values the codecs meet; set bits, the C generic forms and the portable definitions are never run.",
 ["include/crefl/bits.h","include/crefl/endian.h"],[("bit counts","include/crefl/bits.h clz, ctz, popcnt"),("byte order","include/crefl/endian.h")],["results of every function"])
p("C31","The OID table generator converts every registry entry exactly",
 "For every registry file, the table generator prints exactly one row per entry with the entry's name and the dotted text, or the octets and their number, that X.690 gives for its octets, whatever the number, size and roots of its components, ordered by dotted text; entries are neither lost, merged nor invented.",
 ["inputs"],"all registry files of well-formed entries",
 "No test runs the script, and the bundled registry has no identifier with a large second component under root 2 nor one beyond a few octets per component.",
 ["scripts/parse_oids.py","data/oids.txt"],[("component decoder","scripts/parse_oids.py decode_oid"),("row printers","scripts/parse_oids.py print_oids_str, print_oids_hex")],["rows printed"])
with open('/verif/properties.jsonl','w') as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+"\n")
print(len(P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for r in P: jsonschema.validate(r,S)
