#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NSM="src/core/nsm.rs"; UT="src/core/util.rs"; MA="src/core/marshaller.rs"; TY="src/core/types/mod.rs"
DS="src/core/data_source.rs"; TK="src/core/json/tokenizer.rs"; EN="src/core/json/encoder.rs"; DE="src/core/json/decoder.rs"
SY="src/sql/symbols.rs"; SC="src/sql/schema.rs"; TP="src/sql/ast/typing.rs"; ST="src/storage/mod.rs"; SU="src/storage/utils.rs"

p("P01","A row page behaves as a sequence of byte rows",
  "After any sequence of successful appends, insertions and removals on an initialised page, the number of rows and the exact bytes of every row are those of the corresponding operations on a plain list of byte strings. In particular no operation changes, reorders, truncates or pads any row other than the one it was asked to add or remove, and reading never changes the page.",
  ["inputs","histories"],"every page size, row alignment, row content and length (including empty rows), position, and operation history that fits",
  "The two tests run one 512-byte page with alignment 8 and about twenty fixed rows; the property is over all page sizes, alignments, row lengths, positions and histories.",
  [NSM,UT],[("append/insert/remove/get row","PageFormat::{append_row,insert_row,remove_row,get_row,num_rows,initialize_page}"),("slot encoding: offset | padding","PageFormat::{set_row_offset,get_row_offset,aligned_row_offset,row_offset_padding,alignment_mask}"),("typed access to page bytes","util::{set_value,get_value}")],
  [("page","[count u32][slot u32 per row] ... free ... row_{n-1} ... row_0","the caller's byte buffer")])
p("P02","Row page free space is reported honestly and full pages refuse",
  "A row no longer than the reported maximum insertable size is always accepted, and a longer one is always refused without altering the page; an empty row is accepted only while there is room for its directory entry. Accepting a row never overlaps the row directory with row data, and the reported maximum is the real one: page size less directory less stored rows, all rounded to the row alignment.",
  ["inputs","histories"],"every well-formed page state, alignment and requested row",
  "Tests fill one page with one row size and check one final value; boundary states (directory touching data, zero bytes left, empty rows on a full page) are not reached.",
  [NSM,UT],[("capacity computation and guards","PageFormat::{max_insert_row_size,append_row,insert_row}"),("rounding","util::align")])
p("P03","Binary records read back exactly what was encoded",
  "For every record type and every value of it, encoding the value and reading any element of the encoded record back (primitive, string bytes, string length, or chosen enum case, at any nesting depth) returns exactly the value that was encoded. Reading one element never depends on the buffer's previous contents or its address.",
  ["inputs","programs"],"every type built from units, primitives, strings, tuples, structs and enums (with at least one part; the code refuses others), every value of it, and every buffer",
  "Three tests encode three fixed types with one or a few values each; nesting of enums within enums, several variable-size elements, shared bit fields and unaligned buffers are not combined.",
  [MA,UT,DS],[("write","Layout::encode_with_source, Marshaller::encode"),("read","Marshaller::{get_primitive,get_bytes,get_case_tag,get_length}, Layout::variable_field_offset"),("layout","calculate_layout, unroll_type")],
  [("record","fixed part (primitives, lengths, packed case tags) followed by variable parts in layout order","the caller's byte buffer")])
p("P04","The announced record size is exact and encoding stays inside it",
  "For every type and value the announced encoded size equals the size the encoder reports having used and the size recomputed from the encoded bytes. Encoding changes only bytes inside that size and needs no more room than that; given too little room for its elements it fails, and it never writes outside the buffer.",
  ["inputs","programs"],"every type, value and buffer length",
  "Tests compare the sizes for five values and never look at the bytes beyond the record or at short buffers.",
  [MA,UT],[("size from the source / from the bytes / while writing","Layout::{encoding_size_with_source,encoding_size,encode_with_source,variable_field_offset}"),("string copy","copy_bytes")])
p("P05","Elements of a record never share storage",
  "In every record layout the bit ranges given to different elements are disjoint and lie inside the fixed part, every range is wide enough for every value of its element, and a fixed-size element starts at a multiple of its size. Hence storing any value in one element leaves every other element unchanged.",
  ["inputs","programs"],"every type (tuples, structs and enums with at least one part; the code refuses others), in particular every mix of enum widths sharing packed containers",
  "One test packs four enums with 1 to 4 bit tags; other widths, more than 128 cases, single-case enums and overfull containers are not reached.",
  [MA],[("bit packing","allocate_bitfields, primitive_for_bits"),("offset assignment","calculate_layout, FixedSizeFieldKind::encoding_size"),("tag width","util::required_bits")])
p("P06","JSON strings written are valid and read back unchanged",
  "Every string or character is written as a well-formed JSON string in valid UTF-8, in which quotes, backslashes and control characters appear only as JSON escapes. Reading that text back with the JSON reader gives the original string.",
  ["inputs"],"every string over all Unicode scalar values",
  "The encoder tests contain only ASCII letters, digits and spaces; over a million scalar values, among them every control character and the 3/4-byte UTF-8 boundary, are never written.",
  [EN,TK],[("escaping and UTF-8 encoding","write_ch, emit_utf8_string"),("unescaping","Tokenizer::{match_string,string_control_char}")])
p("P07","The JSON reader splits any text into exactly the JSON tokens, or refuses",
  "For every input text the reader terminates without crashing and reports either the next token of the JSON grammar, with exactly the text or unescaped content of that token, or an error; it consumes exactly that token and the (Unicode) white space before it. Texts that are not a JSON token at that point, such as malformed numbers, unknown or surrogate escapes, raw control characters in strings, or misspelled keywords, are refused.",
  ["inputs"],"every Unicode text and every position in it",
  "About seventy hand-picked accepted tokens are tested and not a single refusal.",
  [TK],[("tokenizer","Tokenizer::{new,next,match_string,string_control_char,match_number,match_keyword,digits,skip_whitespace,value}")])
p("P08","JSON documents round-trip typed values",
  "For every type (with distinct labels, and structs of at most 64 fields) and every value of it whose floating-point numbers are finite, the document written by the JSON writer is accepted by the JSON reader for the same type, and the values read are exactly those written.",
  ["inputs","programs"],"every type and every value of it",
  "Writer and reader are tested separately on three fixed types each; no test feeds one to the other.",
  [EN,DE,TK,DS],[("writer","emitter_for_type, JsonEncoder::encode"),("reader","parser_for_type, JsonDecoder::parse")])
p("P09","The JSON reader accepts only documents of the expected type",
  "Reading a document for a type succeeds only if the document has the type's shape: every struct field exactly once in any order and no other, every tuple component in order and no more, an enum as its case label followed by that case's value, and every integer within its type's range. Any other text is refused with an error, never a crash, for structs of up to 64 fields.",
  ["inputs","programs"],"every type and every input text",
  "The decoder tests contain only four accepted documents; missing, duplicate, unknown or extra parts and out-of-range numbers are never tried.",
  [DE,TK],[("per-type parsers","StructParser, EnumParser, TupleParser, StringParser, PrimitiveParser, NullParser, parse_primitive_number, extract_char"),("field bookkeeping","BitSet for u64"),("expected token","must_be")])
p("P10","Element paths are totally ordered and prefixes are exact",
  "Element paths compare as lexicographic sequences of positions: the order is total, consistent with equality, and a path sorts before each of its extensions. One path is reported to be a prefix (or a proper prefix) of another exactly when its positions are an initial part of the other's (and, for proper, not all of it), and appending a position changes nothing before it.",
  ["inputs"],"all pairs and triples of paths of any length",
  "No test compares two paths or asks for a prefix; ordered maps and the record layout's binary search rely on both.",
  [TY],[("order and equality","Ord/PartialOrd/PartialEq for Path"),("prefix tests and extension","Path::{is_prefix_of,is_proper_prefix_of,with_component}")])
p("P11","Qualified names resolve to exactly the element they name",
  "For every type, resolving a dotted name succeeds exactly when each part names a field, case or tuple position of the element reached by the parts before it, and then yields the position of the first match at every step. Following a resolved path through the type reaches that element, without crashing.",
  ["inputs","programs"],"every type and every dotted name",
  "A handful of names on five fixed types are resolved; unknown names, leaves, tuple positions out of range and repeated labels are hardly tried.",
  [TY],[("resolution","Path::resolve_qualified_name, find_field_index, find_case_index"),("navigation","Type::extract")])
p("P12","A value collection returns the last value stored at each path",
  "After any sequence of stores and clears, reading an element path returns exactly the value most recently stored at that path since the last clear, with the type it was stored with. Storing at one path never affects any other path.",
  ["inputs","histories"],"every sequence of stores, clears and reads over any paths and values",
  "One smoke test stores five distinct paths once and reads them back; overwriting, clearing and paths that extend one another are not exercised.",
  [DS,TY],[("stores and reads","IntermediateDataSource::{add_primitive,add_string,add_case_tag,clear,get_*}")])
p("P13","Storage locations keep volume and offset apart",
  "A storage location built from a volume number and an offset below 2^56 gives back exactly that volume and that offset, two locations are equal only if both agree, and locations order by volume first and offset second. Larger offsets are refused rather than aliased to another location.",
  ["inputs"],"all 2^8 volumes and all 2^64 offsets",
  "There is no test of the storage layer; the property ranges over 2^72 pairs.",
  [ST],[("packing","Location::{new,index,offset}, LOCATION_SHIFT_BITS, LOCATION_OFFSET_MASK")])
p("P14","Buffer lists behave as sequences and never lose or share a buffer",
  "Pushing a free buffer to the front or back of a buffer list, or removing a member, changes the list exactly as the same operation on a sequence of buffer numbers; all other members keep their order and every list remains consistent read from either end. Other lists over the same buffers, and all other buffer state, are unaffected, and a freshly created pool holds every buffer exactly once in its available list.",
  ["inputs","histories"],"any number of buffers, any lists over them, and any operation history",
  "There is no test of the storage layer; list lengths, positions and histories are unbounded.",
  [ST],[("list operations","BufferListHead::{list_push_front,list_push_back,list_remove}"),("initial chain","BufferPool::new")])
p("P15","Volume numbers are never handed out twice",
  "Each request for a new volume number yields one different from all numbers handed out before, or an error once every number below the reserved last one (255) has been handed out; a request never crashes and never yields a number in use.",
  ["histories"],"any number of requests",
  "There is no test of the storage layer; exhaustion needs hundreds of requests.",
  [ST],[("allocation","VolumeManager::next_volume")])
p("P16","Size and alignment arithmetic is exact over its whole range",
  "Rounding a size up to a power-of-two alignment yields the least multiple of the alignment not below it, for every width offered; the number of blocks of a file is the least number that holds it; the bit width of a number is the least that can represent it, and the binary logarithm of a power of two is its exponent. A default volume uses the documented default block size, and volume sizes that are not a positive multiple of it, or need more block numbers than exist, are refused.",
  ["inputs"],"all machine integers for which the result is representable",
  "The two arithmetic tests check some thirty values of one of the nine functions; the input space is up to 2^256.",
  [UT,SU,ST],[("rounding","util::align, storage::utils::align_*"),("counting","storage::utils::calc_file_blocks, util::required_bits, util::log2"),("defaults","VolumeParameters::new_with_defaults")])
p("P17","SQL names compare without regard to case, consistently",
  "Two SQL names are equal exactly when their upper-case forms are the same, whatever their spelling, and ordering compares the upper-case forms; the order is total, agrees with equality, and comparing with plain text gives the same answer as comparing with a name. A name keeps the spelling it was created with.",
  ["inputs"],"all pairs and triples of Unicode names",
  "No test compares names; every catalog map relies on this order being consistent.",
  [SY],[("comparisons","PartialEq/Ord/PartialOrd for Name, against Name and str"),("spelling","Name::{new,as_str}, From")])
p("P18","SQL value types combine symmetrically and never lose nullability",
  "Two scalar types are compatible exactly when they are the same kind, two tuple types exactly when they have the same length and compatible components, and a scalar never with a tuple; combining compatible types keeps the kind and may be null exactly where either side may be null. Both judgements are symmetric and give no other result.",
  ["inputs"],"all pairs of scalar and arbitrarily nested tuple types",
  "There is no test of type inference at all; tuples nest without bound.",
  [TP],[("compatibility and combination","ScalarType::{is_compatible,unify}, fold_err"),("assignability","Attribute::is_assignable_to")])
p("P19","SQL expressions are typed soundly or refused",
  "Every scalar expression over a set of named relations is given exactly the type its operators and operands determine, may be null whenever an operand that determines it may be null, and is refused when any operand, CASE guard or branch has a wrong or incompatible type, or a name is unknown or ambiguous. Type checking never crashes.",
  ["inputs","programs"],"all expressions of any depth over any relations; what an embedded SELECT yields is P25",
  "There is no test of type inference at all; expressions nest without bound.",
  [TP],[("expression typing","Expression::infer_type, Literal::infer_type"),("name lookup","ScalarContext::{add_relation,infer_type}")])
p("P20","Creating a schema adds exactly that schema, once per name",
  "Creating a schema under a name not yet in use, ignoring case, adds an empty schema of that name and changes nothing else; creating one under a name already in use is refused and changes nothing. Describing an object gives its exact columns, or an error when schema or object do not exist.",
  ["inputs","histories"],"every catalog state and every name",
  "No test creates a schema or describes an object.",
  [SC,SY],[("catalog","Database::{create_schema,describe}, SchemaObject::row_set")])
p("P21","INSERT, UPDATE and DELETE statements are checked against the table",
  "An INSERT, from VALUES or a query, is accepted only if every value goes to a distinct existing column of the same type, no nullable value goes to a column that may not be null, and every such column gets a value; an UPDATE only if every assigned column exists, is assigned once, and receives a value of its type and nullability; the conditions of UPDATE and DELETE are logical. Whatever satisfies this is accepted. Checking never crashes.",
  ["inputs","programs"],"every table and every INSERT, UPDATE or DELETE over it, from any source of rows",
  "There is no test of statement checking at all.",
  [TP],[("statement checks","InsertStatement::validate_type, UpdateStatement::validate_type, DeleteStatement::validate_type, SetExpression::infer_type, Statement::validate_type"),("the catalog as row types","RowType::from, ObjectTypes::from, Namespaces::from, SetContext::new")])
p("P25","SELECT queries are typed column by column or refused",
  "A query without WITH and ORDER BY is given exactly one column per selected expression, with the expression's type and nullability over the tables, derived tables and joins of its FROM; `*` gives every column of FROM in order and `t.*` every column of t in order. A column has the name given to it (by AS, by its table, or `col`), or that name with the smallest number appended that makes it new, so all names differ. VALUES and set operations combine their operands column by column under the names of the first; columns combine only if they are of one type, and may be NULL where either side may. A query is refused when a table is unknown or two tables of FROM share a name, a name is unknown or ambiguous, WHERE, HAVING or ON is not logical, or LIMIT or OFFSET is not a number that is never NULL. Type checking never crashes.",
  ["inputs","programs"],"every database and every query without WITH and ORDER BY, nested without bound",
  "There is no test of type inference at all; queries nest without bound.",
  [TP],[("query typing","SelectStatement::infer_type, SetExpression::infer_type, TableExpression::infer_type, Limit::validate_type"),("result columns and their names","ResultColumns::infer_type, generate_column_name"),("the catalog as row types","RowType::from, ObjectTypes::from, Namespaces::from, SetContext::new")])
p("P26","The buffer pool keeps each location in a buffer of its own",
  "A storage location is held by at most one buffer of the pool, a buffer holds at most one location, and the pages of two buffers do not overlap. Asking for a location the pool holds gives its buffer with the content as last written; asking for another one gives a buffer that has neither an open handle nor unsaved content, filled with zeros (or from the backing store), and affects no other buffer that is in use or dirty. A buffer keeps its location and content while a handle is open or the content is dirty; releasing a handle closes that one only, and a buffer released after being opened for writing is dirty. Every buffer is in exactly one of the lists of available, used and dirty buffers.",
  ["histories","schedules"],"every pool, every history of accesses and releases of any locations by tasks that hold the mutex in turn; page content for one task at a time",
  "There is no test of the storage layer; the property ranges over histories.",
  [ST],[("mapping and handles","BufferPool::{buffer_access,access_*,release_*,writable_slice,readable_slice}, ReadOnlyBufferHandle, ReadWriteBufferHandle"),("creation","BufferPool::new")])
p("P22","The buffer pool shows each reader the last write to its location",
  "Every access to a storage location through the buffer pool, from any number of concurrent tasks, sees the bytes most recently written to that location, whether they are cached or have been written back.",
  ["schedules","histories"],"every interleaving of accesses and releases over any locations",
  "There is no test of the storage layer; the property ranges over schedules.",
  [ST],[("mapping and handles","BufferPool::{buffer_access,access_*,release_*}")])
p("P23","A created volume mounts again with the same contents",
  "A volume created with given parameters has a valid header, file table, mirror and allocation bitmap, and mounting it later gives the same parameters and contents, also after a crash during creation.",
  ["crash_points","configurations"],"every volume size, block size and crash point",
  "There is no test of the storage layer.",
  [ST],[("creation and mounting","VolumeManager::{create,mount,fetch,store}, init_file_header")])
p("P24","Type and SQL texts parse to exactly what they spell",
  "Parsing the text of a type or of an SQL statement yields the structure the grammar assigns to it and refuses every other text.",
  ["inputs"],"every text",
  "The type tests parse about twenty fixed texts; the SQL grammar has no test.",
  ["src/core/types/parser.lalrpop","src/sql/parser.lalrpop"],[("generated LR parsers","parser.lalrpop, parser.rs")])
pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(x)+"\n" for x in P))
