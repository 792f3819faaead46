import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
DEF="core/src/definition.rs";BC="core/src/bytecode.rs";BU="core/src/bundle.rs";DE="core/src/decode.rs";EN="core/src/encode.rs"
DL="decompiler/src/lib.rs";DP="decompiler/src/print.rs";DF="decompiler/src/files.rs"
p("C01","Bundle records are read according to the file format",
 "Reading a definition record (class, enum, function, field, type, local, parameter, source file, enum value) from bundle bytes yields exactly the values the format stores: every field at its position and width, optional parts present exactly when their flag or tag says so, and the record kind chosen by the definition header. A tag outside the format is reported as an InvalidData error.",
 ["inputs"],"every byte sequence, hence every flag combination, tag and list length",
 "the repository has one example-based codec test; flag combinations and tags multiply to far more records than any sample holds",[DEF,DE],
 [("Decode for Class/Enum/Function/Field/Type/Local/Parameter/SourceFile/SourceReference/Property","core/src/definition.rs"),("Definition::decode","core/src/definition.rs")],["values returned by Decode and by ScriptBundle::load"])
p("C02","Bundle records are written according to the file format",
 "Writing a definition record emits exactly the bytes the format prescribes: fields in order and width, presence flags that agree with the optional parts actually present, a function's native flag set exactly when it has no source, and source paths with backslash separators. Every definition kind is written by its own record layout and reports the matching kind tag.",
 ["inputs"],"every record value: all flag combinations, optional parts, list lengths",
 "tests compare a few records; an omitted flag or a swapped field shows only for particular combinations",[DEF,EN],
 [("Encode for records","core/src/definition.rs"),("AnyDefinition::encode / type_","core/src/definition.rs")],["bytes written by Encode and by ScriptBundle::save"])
p("C03","Primitive values have one fixed binary encoding in both directions",
 "Integers and floats are little-endian at their natural width, booleans are one byte that is true only for 1, strings and lists carry the prescribed length prefix, bit sets and enumerated tags occupy their fixed widths. Reading what was written gives the value back, and invalid UTF-8 or tags are reported as errors.",
 ["inputs"],"every value of every primitive and flag type; every string",
 "no test enumerates bit patterns or flag sets; a transposed bit or width shows only for some values",[DE,EN,DEF],
 [("Decode/Encode impls for primitives","core/src/decode.rs, core/src/encode.rs"),("bit field structures and enum tags","core/src/definition.rs")],["bytes read and written"])
p("C04","Every instruction has its opcode, operand order and operand widths",
 "Each bytecode instruction is written as its fixed opcode followed by its operands in format order and width, with jump operands stored relative to the position the format prescribes, and is read back from the same bytes as the same instruction with the same operands. A byte that is not an opcode is reported as InvalidData.",
 ["inputs"],"all 104 opcodes with every operand value, and every other byte",
 "the tests decode a short fixed instruction list; most opcodes and all jump-offset edge cases never occur in it",[BC],
 [("Decode/Encode for Instr<Offset>","core/src/bytecode.rs")],["bytes and instructions"])
p("C05","Instruction sizes and code length prefixes agree with the encoding",
 "The size reported for an instruction is the number of bytes positions advance by when it is encoded (zero for a label target, one opcode byte plus operands otherwise), and does not depend on how jumps are represented. A function body is prefixed by the sum of those sizes, and is read back up to exactly that many bytes.",
 ["inputs"],"every instruction and every instruction sequence",
 "label positions are sums of sizes over arbitrary programs; a wrong width for one opcode only breaks programs with a jump across it",[BC],
 [("Instr::size","core/src/bytecode.rs"),("Code encode/decode","core/src/bytecode.rs")],["length prefix; jump positions"])
p("C06","Malformed bundle data is rejected with an error, never a crash",
 "Reading a bundle, or any record, name or instruction in it, from arbitrary bytes either succeeds or returns an I/O error: unknown tags and opcodes, invalid text, truncated data and out-of-range indexes never make the reader panic. (Overflow checks of debug builds and memory exhaustion by huge declared counts are not covered.)",
 ["inputs"],"every byte sequence",
 "the tests only read well-formed data",[DEF,BU,BC,DE],
 [("error returns of Decode impls","core/src/*.rs"),("ScriptBundle::load","core/src/bundle.rs")],["result of load and Decode"])
p("C07","Jump targets survive conversion between labels, positions and offsets",
 "Resolving labels turns every jump, conditional, switch and call operand into the distance from that instruction to its own label's position, leaves every other operand unchanged, and keeps the instruction kind. Converting a position to a relative offset and back gives the same position.",
 ["programs","inputs"],"every instruction kind, label table and position",
 "no test resolves labels for all instruction kinds; a swapped pair of labels in one kind stays invisible",[BC],
 [("Instr::resolve_labels","core/src/bytecode.rs"),("Location::relative / Offset::absolute","core/src/bytecode.rs")],["resolved instructions"])
p("C08","A saved bundle has a consistent header, tables and checksums",
 "Saving writes the fixed header, all string tables, the definition table and the definition data such that every table's offset and count describe the data actually written, every definition header's offset and size delimit that definition's record with its kind, name, parent and flags, and each stored checksum is the CRC-32 of the bytes it covers, with the header checksum computed over the header containing the fixed placeholder.",
 ["inputs"],"every constant pool: any number of names, strings and definitions of any kind",
 "the save test round-trips one tiny pool, for which most offsets coincide",[BU,"core/src/io.rs"],
 [("ScriptBundle::save, ConstantPool::encode","core/src/bundle.rs")],["bytes written by save"])
p("C09","Loading a bundle follows its header and tables exactly",
 "Loading reads the fixed header, the string data, and each table with the count its header gives in file order; every name, string, resource and database key is the text at its own table entry's offset, and every definition has the name, parent, flags and kind of its own header entry and the value of the record at that entry's offset, at its own index. Data that does not start with the magic number is rejected as InvalidData.",
 ["inputs"],"every header content, offset and count",
 "the load test reads one tiny pool written by the same code",[BU],
 [("ScriptBundle::load, ConstantPool::decode","core/src/bundle.rs")],["loaded pool"])
p("C10","I/O failures are always reported",
 "If the underlying reader or writer fails at any point while a bundle, record or decompiled definition is being read or written, including the final flush when saving a bundle, the operation returns an error; a failure is never followed by a success result.",
 ["fault_sequences"],"a failure at every read, write, seek and flush operation, on every path",
 "no test injects I/O failures",[BU,DEF,BC,DE,EN,DP],
 [("? propagation on every I/O call","core/src/*.rs, decompiler/src/print.rs")],["result of load, save, Encode, Decode, write_definition"])
p("C11","Typed pool lookups return the definition at that index and of that kind",
 "Looking up a definition by index as a function, field, parameter, local, type, class, enum or enum value returns the data stored at exactly that index when it has that kind; an index outside the pool or a definition of another kind is reported as an error naming that index. Listing definitions yields each one with its own index, skipping the reserved first slot, and listing roots yields exactly those with no parent.",
 ["inputs","histories"],"every pool content and index",
 "tests look up only existing definitions of the right kind",[BU],
 [("ConstantPool accessors","core/src/bundle.rs")],["results of the lookup functions"])
p("C12","Adding, reserving, replacing and renaming definitions change only that entry",
 "Adding or reserving a definition appends one entry and returns its index, replacing or swapping changes exactly the entries named, renaming changes only that definition's name, and all other definitions, names and strings keep their index and content.",
 ["histories"],"every pool content and operation argument",
 "tests build small pools in one fixed order",[BU],
 [("reserve, put_definition, swap_definition, add_definition, stub_definition, rename","core/src/bundle.rs")],["pool content after each call"])
p("C13","String tables intern each string once at a stable index",
 "Adding a string that is already in a table returns its existing index and leaves the table unchanged; adding a new one appends it and returns its index, and looking an index up returns exactly the string added there. An index outside the table is reported as an error, searching by text finds exactly the strings present, and in the name table (only) the undefined index and the text None denote each other.",
 ["histories","inputs"],"every sequence of additions and lookups, on every kind of table",
 "tests add a few distinct strings",[BU],
 [("Strings::add/get/get_index","core/src/bundle.rs")],["results and table content"])
p("C14","Remapping a pool rewrites exactly the mapped references",
 "Applying class and function mappings to a pool replaces the base of every class, the owning class of every function and field, the owning function of every parameter and local, and the class or function operand of construct, new, dynamic-cast and static-call instructions through the respective mapping. Indexes without a mapping stay unchanged, and nothing else in the pool changes.",
 ["inputs"],"every pool and mapping",
 "the mapper has no direct test",["core/src/mapper.rs"],
 [("PoolMapper::map, MultiMapper::apply","core/src/mapper.rs")],["pool content after map"])
p("C15","Code cursors and iterators report exact positions and ranges",
 "Walking a function body yields each instruction in order together with the byte position at which it starts; seeking to a position, absolute or relative to the current one, moves exactly there when an instruction starts there or it is the end, and a range covers exactly the instructions from its start up to its end position with their positions. Any other position is reported as an error naming it, and popping past the end is reported as end of code.",
 ["programs","histories"],"every instruction sequence, cursor state and target",
 "tests walk straight-line code",[BC],
 [("CodeCursor, CodeIter","core/src/bytecode.rs")],["positions and instructions returned"])
p("C16","The decompiler renders each instruction as its own expression",
 "Each instruction decompiles to the expression with the same meaning: constants with their value and type, locals, parameters and fields by the name at their own index, calls with the named function, receiver and arguments in order, operators, casts and intrinsics with their own name and operand count and order. Operand expressions are taken from the instructions that follow it, in order.",
 ["programs"],"every instruction kind at every nesting depth",
 "the decompiler has no tests in the repository",[DL],
 [("Decompiler::consume_with","decompiler/src/lib.rs")],["decompiled expressions"])
p("C17","The decompiler reconstructs control flow from jump positions",
 "Conditional jumps become if, if-else or while statements whose bodies are exactly the instructions the jump positions delimit, switches keep each case label with its own body and the default, break and fall-through, and a function's locals and parameters are listed with their own names and types. A jump to no instruction is reported as an error.",
 ["programs"],"every layout of jumps and bodies",
 "the decompiler has no tests in the repository",[DL],
 [("consume_conditional_jump, consume_switch, consume_path, decompiled","decompiler/src/lib.rs")],["decompiled statements"])
p("C18","Printed expressions read back with the same structure and values",
 "Expressions printed as source keep their grouping: parentheses are written wherever the language's operator precedence, right operands of equal precedence, conditions, member access, indexing or casts would otherwise regroup the operands. Literals keep value and type (suffixes, quoting and escaping of strings, names, resources and database keys), and every statement form is printed with its own keyword, parts and indentation.",
 ["inputs"],"every expression tree",
 "the decompiler has no tests in the repository",[DP],
 [("write_expr_nested, ParentOp","decompiler/src/print.rs"),("parser precedence","compiler/src/parser.rs")],["printed source"])
p("C19","Printed definitions show every declared property",
 "A printed class, struct, enum, function or field shows its visibility, exactly the modifiers its flags set, its name, base class, parameters with out and optional markers and types, return type, members and values, in the order stored, with native and body-less functions printed without a body. Types are printed with their full structure.",
 ["inputs"],"every definition, flag combination and type",
 "the decompiler has no tests in the repository",[DP],
 [("write_definition, write_function_body, format_type","decompiler/src/print.rs")],["printed source"])
p("C20","Type names keep their structure across representations",
 "A type name's stored representation, its mangled form and its readable form each reflect its constructor and all its arguments in order, and parsing the stored representation of a reference, weak reference, script reference, array or plain type yields that same constructor and argument.",
 ["inputs"],"every type name, nested to any depth",
 "tests use a few shallow type names",["core/src/ast.rs"],
 [("TypeName","core/src/ast.rs")],["strings returned"])
p("C21","Source spans cover what they are meant to cover",
 "Every syntax tree node reports its own span (a sequence: from its first to its last part) and is empty exactly when it is a sequence of empty parts, merging two spans covers both, and a span contains exactly the positions from its start up to but excluding its end. Comparing a span with a position gives greater if it starts after the position, less if it ends before it, and equal otherwise, and position arithmetic adds and subtracts exactly.",
 ["inputs"],"every expression kind and span",
 "spans affect only error messages and tools, which tests compare in a few cases",["core/src/ast.rs"],
 [("Expr::span, Span, Pos","core/src/ast.rs")],["spans returned"])
p("C22","Dumping by file assigns every definition to its own source file",
 "The per-file view of a pool has one entry per source file that is referred to, with that file's path and each top-level definition that itself or through a member refers to the file, once, ordered by first line. A leading entry lists exactly the enums, the native top-level functions and the classes all of whose functions are native.",
 ["inputs"],"every pool content",
 "the decompiler has no tests in the repository",[DF],
 [("FileIndex::from_pool, iter","decompiler/src/files.rs")],["file entries"])
p("C23","Definition constructors and source lookups use the right parts",
 "Creating a definition stores the given name, parent and value with the right kind and no flags, a definition reports the source reference of its own value exactly when its kind carries one, and the first line of a function is its own source line, that of a class the smallest source line among its functions, and no other kind has one.",
 ["inputs"],"every definition value",
 "constructors are exercised only through whole-program tests",[DEF],
 [("Definition::local … source_file, source, first_line","core/src/definition.rs")],["returned definitions"])
p("C24","Operator and intrinsic tables are consistent",
 "Every operator and intrinsic has its own fixed name, parsing that name gives back the same operator or intrinsic and no other text parses, and precedence, associativity and argument counts are those of the language.",
 ["inputs"],"every operator, intrinsic and text",
 "tests use a handful of operators",["core/src/ast.rs",BC],
 [("BinOp, UnOp, IntrinsicOp","core/src/ast.rs, core/src/bytecode.rs")],["names, parse results, precedences"])
p("C25","Pool indexes are plain numbers",
 "A pool index compares, orders and converts exactly as its number, zero is the only undefined index, and changing the kind an index refers to keeps its number.",
 ["inputs"],"every index",
 "indexes are used everywhere but never tested directly",[BU],
 [("PoolIndex","core/src/bundle.rs")],["returned values"])
p("C26","Arguments broken up by quoting are put back together",
 "Repairing the compiler's argument list leaves arguments without a quotation mark that are outside a quoted stretch as they are, splits an argument that opens a quoted stretch at the quotation mark and the spaces after it, joins what belongs to an argument continued after a quotation mark with single spaces, keeps the order of all parts and drops empty ones.",
 ["inputs"],"every list of argument texts, with quotation marks and spaces anywhere",
 "the tests pass permutations of a fixed set of well-behaved options with a few quoting variants; the state carried from one argument to the next takes only a few of its values",["scc/cli/src/opts.rs"],
 [("fix_args","scc/cli/src/opts.rs")],["the repaired argument list"])
p("C27","Command-line options have their own names, values and defaults",
 "Each compiler option is recognised by its own name and form (its own text, a value after '=', a value attached, or the next argument when that does not start with '-'), sets its own field and no other, and an option that is not given leaves its field at the documented default.",
 ["inputs"],"every argument text and option combination, as far as it is decided by this module's own predicates, conversions and choice of parser combinators",
 "the tests try permutations of one set of option values; guards, conversions and defaults are only exercised with those",["scc/cli/src/opts.rs"],
 [("Opts::get_parser, load and the option helpers","scc/cli/src/opts.rs")],["the parsed options"])

p("C28","Values and errors have one fixed text",
 "The text shown for a timestamp (day/month counted from one, year, then hours:minutes:seconds:milliseconds, zero-padded), a code location, a source position, a pool index, a visibility, a type name, and every pool, cursor and decompilation error (with the index, position or name it is about) is the documented one, and errors of one module become errors of another with their cause kept.",
 ["inputs"],"every value of these types, every timestamp bit pattern and every error variant with any payload",
 "no test formats a timestamp or an error; padding and off-by-one in the date parts show only for some values",[BU,BC,"core/src/ast.rs",DEF,"decompiler/src/error.rs"],
 [("Display for Timestamp, PoolIndex, Location, Pos, Visibility, TypeName","core/src"),("PoolError, cursor error, decompiler Error and their From impls","core/src, decompiler/src")],["text written to the formatter; the converted error"])
p("C29","The counting stream reports exactly the bytes that were moved",
 "A counting stream starts at zero or at the position its inner stream has, advances by exactly the number of bytes each read or write moved, also when the inner stream moves fewer than asked, does not advance when the inner stream fails, passes data and failures through unchanged, and flushing flushes the inner stream.",
 ["inputs","histories"],"every buffer, every partial transfer and every failure of the inner stream, from any starting count",
 "tests use in-memory streams, which always move the whole buffer and never fail",["core/src/io.rs"],
 [("StreamOffset: new_zeroed, new_seekable, offset, Read, Write","core/src/io.rs")],["offset(), the bytes moved, the result of each call"],[("offset","bytes moved so far","core/src/io.rs")])
p("C30","Flag sets and timestamps keep each part in its own bits",
 "Each named flag of a field, local, parameter, class or function occupies its own bit: setting it is seen by its own getter and leaves every other flag alone, a new set has none, and the parts of a timestamp occupy the prescribed bit ranges. Visibility levels compare by openness, and only equal ones are equal.",
 ["inputs"],"every flag value of every flag type, every timestamp bit pattern, every pair of visibilities",
 "no test sets flags one by one; a swapped or overlapping bit shows only for the flags concerned",[DEF,BU],
 [("bit field structures FieldFlags .. FunctionFlags, Visibility","core/src/definition.rs"),("Timestamp","core/src/bundle.rs")],["getters, with_* constructors, comparison results"])

p("C31","Malformed bundles make the decompiler fail, not crash",
 "Decompiling and printing any loaded definition ends in a result or a reported error: dangling pool indices, entries of the wrong kind, jumps outside or backwards, truncated code, and operator calls with missing operands never cause a panic. The same holds for indexing the source files and remapping the pool of such a bundle.",
 ["inputs"],"every pool and every instruction sequence, well-formed or not (apart from running out of stack or memory)",
 "no test decompiles malformed code; every pool reference and jump of every instruction would have to be broken in turn",[DL,DP,BC],
 [("Decompiler::decompiled and consume_*","decompiler/src/lib.rs"),("write_definition, write_call, format_type, format_param","decompiler/src/print.rs"),("CodeCursor::range","core/src/bytecode.rs")],["the result of write_definition and Decompiler::decompiled"])

p("C90","Decompiled code recompiles to the same program",
 "Compiling the decompiled source of a function yields code with the same behaviour as the original.",
 ["programs"],"every compiled function","no test compiles decompiler output",[DL,DP],[("decompiler and compiler together","decompiler/src, compiler/src")])
p("C91","A failed compilation leaves the game's script bundle intact",
 "When compiling scripts fails or is interrupted, the original bundle can still be restored from its backup and is never left truncated.",
 ["crash_points","fault_sequences"],"a crash at any file operation","needs crashes between file operations",["scc/lib/src/lib.rs"],[("backup and timestamp handling","scc/lib/src/lib.rs")])
p("C92","Compiled code keeps the meaning of the source program",
 "For every accepted script, the generated bytecode computes what the source says.",
 ["programs"],"every accepted program","tests pin a few compiled functions",["compiler/src/lib.rs"],[("assembler, typechecker, desugaring","compiler/src")])
p("C93","Loading and decompiling use resources proportional to the input",
 "Loading, decompiling and saving a bundle use time and memory proportional to its size.",
 ["inputs"],"every bundle","performance is not tested",[BU,DL],[("loops and allocations","core/src")])
p("C94","Every decompilation terminates",
 "Decompiling any loaded function ends with a result or an error.",
 ["programs"],"every instruction sequence, including malformed jumps","the decompiler has no tests",[DL],[("recursion in consume_with and consume_path","decompiler/src/lib.rs")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
