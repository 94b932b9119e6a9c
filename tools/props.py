"""Which machinery decides which property."""
KANI_TYPED = ["proofs::set_" + t for t in "u8 u16 u32 u64 i8 i16 i32 i64 u128 i128 bool char f32 f64".split()] + ["proofs::get_" + t for t in "u8 u16 u32 u64 i8 i16 i32 i64 u128 i128 bool char f32 f64".split()]
PROPS = {
 "P01": dict(units=[("nsm", ["prove"])], kani=["proofs::set_u32", "proofs::get_u32"],
   assumptions=["ptr::copy is memmove (contract of vcopy)", "the raw pointer access in util::set_value/get_value stores and loads the value's bytes: decided by Kani (loop-free, symbolic buffer size up to 2^46 bytes, any content, address, offset and value)", "machine integers checked for overflow; 64-bit usize"],
   rule="histories of append/insert/remove on real pages compared with a Vec<Vec<u8>>; non-trivial: more than one operation"),
 "P02": dict(units=[("nsm", ["prove", "refuse"])],
   assumptions=["ptr::copy is memmove (contract of vcopy)", "typed page access contract (decided by Kani under P01)", "a refusal is a failed assert!"],
   rule="histories of operations; at every state the reported space is compared with the model and over-long rows must be refused"),
 "P13": dict(units=[("storage", ["prove", "refuse"], r"Location::")], budget=10,
   assumptions=["equality and order of Location are the derived ones on its one field", "count_zeros of 0 is the width (standard library)", "a refusal is a failed assert!"],
   rule="locations at and around the ends of the offset range, compared pairwise"),
 "P14": dict(units=[("storage", ["prove"], r"BufferList|Buffer::|BufferPool::")], budget=12,
   assumptions=["external types (Mutex, Condvar, mmap, BTreeMap, Weak, RwLock) are opaque; a new BTreeMap is empty; a new Mutex holds its argument", "Vec::resize_with(n, Buffer::default) on an empty vector appends n defaults (spelled out as a verified loop)", "64-bit usize"],
   rule="every history of up to 4 operations over 3 buffers and 2 lists, then random longer ones, and pools of many sizes; both directions and the other buffer state compared with a Vec"),
 "P26": dict(level="proof", budget=12, units=[("pool",["prove"]),("storage",["prove"],r"BufferList|Buffer::|BufferPool::")],
   assumptions=["the mutex gives its content to one task at a time; while a task waits for a buffer the others leave the pool in any state that satisfies the invariant", "page content: no other task writes a page between a task's access to the mapping and its access to the page (one task at a time)", "the lock of a buffer without handles is not held", "fewer than 2^32 open handles to one buffer", "memory behind raw pointers is the mapped range; pages are handed out as ranges of it", "the backing store is attached (reading from it is unimplemented in the code and taken to give some bytes)", "BTreeMap keyed by Location is a finite map (its order agrees with equality: P13)", "external types (Condvar, RwLock, mmap) are opaque"],
   rule="all histories of 6 operations over pools of 1 and 2 buffers, then random longer ones over up to 6 buffers and locations; content, handles and lists compared with a model after every step"),
 "P15": dict(units=[("storage", ["prove"], r"VolumeManager::")], budget=5,
   assumptions=["number 255 is held back", "external types are opaque"],
   rule="histories of 1 to 70000 requests against a set"),
 "P16": dict(units=[("arith", ["prove", "refuse"])], kani=["proofs::bits_zeros", "proofs::bits_required", "proofs::bits_log2"], budget=15,
   assumptions=["leading_zeros/trailing_zeros of usize give the position of the highest/lowest bit (checked for all inputs by Kani)", "64-bit usize", "a refusal is a failed assert!"],
   rule="all u8, a grid of u16, edge-heavy random values for the wider types against wide arithmetic"),
 "P10": dict(units=[("path", ["prove"])], budget=8,
   assumptions=["Vec and slice equality, usize::cmp, cmp::min: vstd and units/std.inc contracts", "clone of a path (derived) keeps its positions"],
   rule="all pairs of paths over 3 positions up to length 4, then random longer pairs one edit apart"),
 "P11": dict(units=[("resolve", ["prove"])], budget=12,
   assumptions=["str::split(\".\") yields the parts between the dots; usize::from_str reads an optional + and decimal digits that fit", "a Vec has at most usize::MAX elements", "message texts of errors are not specified"],
   rule="random types (labels may repeat) and names that mostly resolve, against a second reading of the type"),
 "P12": dict(units=[("source", ["prove", "refuse"])], budget=10,
   assumptions=["std BTreeMap keyed by Path is a map over positions (its order is total and agrees with equality: P10)", "String::from, as_bytes, len as in std; UTF-8 as in vstd::utf8", "Option::unwrap ends the call on None"],
   rule="histories of stores and clears over few paths; every path read back, also with every other type"),
 "P03": dict(level="proof", budget=40, units=[("records", ["prove"]), ("layout", ["prove"]), ("arith", ["prove"], r"align|required_bits|bits_of|p2|log2")], kani=KANI_TYPED,
   assumptions=["the raw pointer access in util::set_value/get_value stores and loads the value's bytes: decided by Kani (loop-free, symbolic buffer size up to 2^46 bytes, any content, address, offset and value)", "binary_search_by finds a key, or the place where it would be, in a list sorted in descending order of paths (P10)", "a data source gives the same value whenever it is asked (the library's own: P12)", "strings of more than 4 GiB are refused by the encoder", "slicing, copy_from_slice and as_ref as in std", "machine integers checked for overflow; 64-bit little-endian target"],
   rule="generated types (nested tuples, structs, enums) and values, encoded into dirty buffers at odd addresses; every element read back"),
 "P04": dict(level="proof", budget=40, units=[("records", ["prove"]), ("room", ["refuse"]), ("layout", ["prove"]), ("arith", ["prove"], r"align|required_bits|bits_of|p2|log2")], kani=KANI_TYPED,
   assumptions=["the raw pointer access in util::set_value/get_value stores and loads the value's bytes: decided by Kani (loop-free, symbolic buffer size up to 2^46 bytes, any content, address, offset and value)", "binary_search_by finds a key, or the place where it would be, in a list sorted in descending order of paths (P10)", "a data source gives the same value whenever it is asked (the library's own: P12)", "strings of more than 4 GiB are refused by the encoder", "slicing, copy_from_slice and as_ref as in std", "machine integers checked for overflow; 64-bit little-endian target", "the record is no larger than the address space"],
   rule="generated types and values; announced, reported and recomputed size compared; buffers of every smaller size"),
 "P05": dict(level="proof", budget=30, units=[("layout",["prove"]),("arith",["prove"],r"align|required_bits|bits_of|p2|log2")],
   assumptions=["slice::sort_by yields the same elements in the order of its comparison; BTreeMap and HashMap are maps (keyed by Path: P10)", "slice::binary_search_by finds a key in a list sorted in descending order of paths (P10)", "a Vec holds at most isize::MAX bytes (so at most isize::MAX/32 fields)", "64-bit usize", "tuples, structs and enums have at least one part (the code refuses others)"],
   rule="generated types; bit ranges of all elements compared pairwise"),
 "P06": dict(units=[("emit", ["prove"], r"write_ch|emit_utf8_string|CharEmitter|StringEmitter"), ("tokens", ["prove"], r"string|escape|push|match_string|next|new|value")], budget=15,
   assumptions=["io::Write for Vec<u8> appends (write_all of all bytes)", "str::char_indices, as_bytes as in std; UTF-8 as in vstd::utf8"],
   rule="every character, then random strings with many quotes, escapes and controls; written, checked against the JSON grammar, read back"),
 "P07": dict(units=[("tokens", ["prove"])], budget=20,
   assumptions=["str::char_indices, str::get, str::len as in std (stand-ins in units/tokrun.inc)", "char::to_digit, is_digit, is_alphanumeric, is_whitespace, from_u32 as in std", "white space is Unicode white space"],
   rule="texts built from token pieces and mutations of them, against a second tokenizer"),
 "P08": dict(level="proof", units=[("emit", ["prove"]), ("tokens", ["prove"]), ("decode", ["prove"]), ("roundtrip", ["prove"]), ("source", ["prove"])], budget=40,
   assumptions=["Display of a finite f32 or f64 is a JSON number that FromStr reads back as the same number", "FromStr for integers: a sign, decimal digits, within range; Display for integers: minus and decimal digits", "char::is_alphanumeric on ASCII is letters and digits", "BTreeMap keyed by String is a map over texts", "io::Write appends what it reports written", "a spec function of dyn JsonParser/JsonEmitter stands for the one of the value's own type"],
   rule="generated types and values, written and read back"),
 "P09": dict(level="proof", units=[("tokens", ["prove"]), ("decode", ["prove"]), ("source", ["prove"])], budget=40,
   assumptions=["FromStr for integers: a sign, decimal digits, within range; FromStr for floats is one fixed partial function of the text", "BTreeMap keyed by String is a map over texts", "white space is Unicode white space", "a spec function of dyn JsonParser stands for the one of the value's own type", "where two fields of a struct share a label the last is meant (the others can then never be given)", "texts of errors are not specified"],
   rule="documents of generated types and mutations of them, against a second reading"),
 "P17": dict(level="proof", budget=25, units=[("names",["prove"])],
   assumptions=["str::chars, char::to_uppercase and Iterator::flat_map/eq/cmp as in std (an upper-case mapping is one fixed text per character)"],
   rule="every character against its other spellings, then random names, pairs and triples"),
 "P18": dict(level="proof", budget=15, units=[("sqltypes",["prove"])],
   assumptions=["equality of data types is the derived one"],
   rule="all pairs of scalar types, then random nested tuples against near copies"),
 "P19": dict(level="proof", budget=30, units=[("exprs",["g0","g1","g2","g3","g4"]),("scopes",["prove"]),("dbview",["prove"])],
   assumptions=["BTreeMap keyed by Name is a map over upper-case names (its order is total and agrees with equality: P17)", "an embedded SELECT yields some columns, or none, that depend on the statement and the tables only (which ones: P25)", "the proof is split by kind of expression; lemma groups shows the kinds are all of them", "derived Clone keeps names, types and nullability", "texts of errors are not specified"],
   rule="random expressions over random relations, against a second type checker"),
 "P20": dict(level="proof", budget=15, units=[("catalog",["prove"])],
   assumptions=["BTreeMap keyed by Name is a map over upper-case names (its order is total and agrees with equality: P17)"],
   rule="histories of creations over random catalogs"),
 "P21": dict(level="proof", budget=30, units=[("stmts",["prove"]),("exprs",["g0","g1","g2","g3","g4"]),("scopes",["prove"]),("sqltypes",["prove"]),("dbview",["prove"])],
   assumptions=["BTreeMap and BTreeSet keyed by Name are maps and sets over upper-case names (P17)", "no row of VALUES has more than 2147483647 expressions (its column counter is an i32)", "a SELECT as source of rows gives some columns, or none, that depend on the statement and the tables only (which ones: P25)", "texts of errors are not specified"],
   rule="random INSERT, UPDATE and DELETE statements over random tables, against a second checker"),
 "P25": dict(level="proof", budget=40, units=[("select",["query"]),("exprs",["g0","g1","g2","g3","g4"]),("scopes",["prove"]),("sqltypes",["prove"]),("dbview",["prove"])],
   assumptions=["BTreeMap keyed by Name is a map over upper-case names (its order is total and agrees with equality: P17)", "different numbers are written differently, and a number appended to a name makes another name", "fewer than 2^64 columns of one name, no row of VALUES with more than 2147483647 expressions", "queries with WITH or ORDER BY are outside the property: embedded ones give some columns, or none, that depend on the statement and the tables only", "what a SELECT yields is the recursive definition of axiom select_def (its parts are smaller than the whole)", "derived Clone keeps names, types and nullability", "texts of errors are not specified"],
   rule="random SELECT queries, set operations and derived tables over random tables, against a second type checker"),
}
