#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="src/basic/parser/mod.rs"; D="src/basic/parser/decode.rs"; C="src/basic/parser/code.rs"; K="src/basic/parser/class.rs"
ME="src/basic/parser/method.rs"; A="src/basic/parser/annotation.rs"; CP="src/basic/constpool.rs"; T="src/basic/tree.rs"; TY="src/types.rs"
NOPARSE="No existing test calls parse at all; "
p("C01","Parsing arbitrary bytes always returns a result",
  "For every byte string, parsing it as a class file returns either a class or an error. It never panics, never overflows an arithmetic operation, never aborts and never fails to terminate, whatever counts, lengths, tags, indices or offsets the bytes claim.",
  ["inputs"],"every byte string handed to basic::parse",
  NOPARSE+"hostile counts, ranges and lengths form a space no finite set of samples covers.",
  [M,D,C,K,ME,A,CP],[("bounds check before every read","Decoder::check/read_bytes/skip/limit in "+D),("table sizes checked before use","parse_instruction in "+C)],["basic::parse"])
p("C02","Memory used by a parse is proportionate to its input",
  "Whatever counts and ranges the input claims, the heap memory a parse requests stays within a small constant number of bytes per input byte plus a fixed allowance of a few kilobytes; a claimed element count alone never makes the parser reserve memory for elements the input cannot contain.",
  ["inputs"],"every byte string handed to basic::parse, every allocation made during the call",
  NOPARSE+"the existing tests observe values, never allocations; a bad reservation shows only for a specific hostile count.",
  [M,C,K,ME,A],[("tables grow as elements are read","all count-prefixed loops")],["allocator calls during basic::parse"])
p("C03","Nested input cannot exhaust the stack",
  "Input that nests structures inside structures (annotations in annotations, element arrays in arrays, attributes carried by code that carries further code) is parsed with bounded recursion: nesting up to 32 levels deep is accepted, and input nested beyond a fixed depth is rejected with an error instead of consuming stack without limit.",
  ["inputs"],"every byte string, in particular every nesting pattern of annotations, arrays and code attributes",
  NOPARSE+"depth depends on the input length and on which kinds nest in which.",
  [M,A,C],[("nesting counter","parse_element_value, parse_annotation, parse_attributes")],["basic::parse result, call depth"])
p("C04","Truncated input is rejected, surplus input is ignored",
  "If a class file parses successfully, then cutting it anywhere before the end of its last element makes the parse fail with an error, and appending any bytes after that end changes neither success nor any parsed value.",
  ["inputs"],"every accepted byte string, every cut position, every suffix",
  NOPARSE+"the cut position and the suffix are universally quantified.",
  [D,M],[("Decoder limit and cursor",D)],["basic::parse"])
p("C05","The class envelope is reported exactly as encoded",
  "An input that does not start with CA FE BA BE is rejected as not being a class. Otherwise a successful parse reports minor version, major version, access flags, this-class, super-class, the interface list, and every field and method with its flags, name, descriptor and attributes, each equal to what the file encodes, complete and in file order; every well-formed envelope is accepted.",
  ["inputs"],"all header values, all interface/field/method counts and contents",
  NOPARSE+"each of the header fields ranges over 65536 values and the lists over all lengths and contents.",
  [M],[("parse, parse_fields, parse_methods",M)],["basic::parse -> Class"])
p("C06","Access flags keep every bit and use the JVM masks",
  "Wherever the class file stores access flags (class, field, method, inner class, method parameter, module and its requires, exports and opens), the reported flag set carries exactly the 16 bits stored. Testing a named flag answers according to the mask the JVM specification assigns to that name (PUBLIC 0x0001, PRIVATE 0x0002, PROTECTED 0x0004, STATIC 0x0008, FINAL 0x0010, SUPER and SYNCHRONIZED 0x0020, VOLATILE, BRIDGE and STATIC_PHASE 0x0040, TRANSIENT and VARARGS 0x0080, NATIVE 0x0100, INTERFACE 0x0200, ABSTRACT 0x0400, STRICT 0x0800, SYNTHETIC 0x1000, ANNOTATION 0x2000, ENUM 0x4000, MODULE and MANDATED 0x8000).",
  ["inputs"],"all 65536 flag words at every place flags occur",
  "No test touches flags; a wrong mask or a dropped bit shows only for particular words.",
  [T,M,K,ME],[("bitflags AccessFlags",T),("from_bits_truncate at each site",M)],["AccessFlags::bits/contains"])
p("C07","Attributes are confined to their declared length",
  "Parsing an attribute consumes exactly the number of bytes the attribute declares: if its content would need more bytes, or fewer, or the length exceeds what the enclosing structure has left, parsing fails, and no attribute content is ever read from outside its declared extent. The same confinement holds for the code array inside a code attribute.",
  ["inputs"],"every attribute kind, every declared length, every content, at every nesting level",
  NOPARSE+"the failing combinations pair a particular length with particular content.",
  [M,D,C],[("Decoder::limit / remove_limit",D)],["basic::parse"],
  [("Decoder.limit","end of the readable window",D)])
p("C08","Constant pool indices match the class file's numbering",
  "After a successful parse, looking up index i in the returned pool yields the entry that the class file numbers i, for every i from 1 to the declared count minus 1: entries that repeat an earlier value keep their own index, and a long or double occupies two indices of which the second cannot be looked up. The reported pool length equals the declared count, and a file whose last entry would need an index beyond the declared count is rejected.",
  ["inputs"],"all constant pools: every sequence of entry kinds and values, including repeats",
  "The one pool test pushes five fixed items by hand and never parses a pool.",
  [M,CP],[("read_constant_pool",M),("Pool::push",CP)],["Pool::get after basic::parse"],
  [("Pool.by_index","items by index, None for second halves",CP)])
p("C09","Every constant kind is decoded to its exact value",
  "Each constant pool entry is reported with the kind and the exact operand values stored in the file (floats and doubles bit for bit, method handles with the reference kind their number denotes). An entry with an unknown tag or an unknown method-handle kind makes the parse fail with an invalid-constant error carrying that entry's index.",
  ["inputs"],"all 256 tags, all operand values, every entry position",
  "No test decodes a constant pool entry.",
  [M,D],[("tag match in read_constant_pool",M)],["Pool::get, Error::InvalidCPItem"])
p("C10","Modified UTF-8 strings decode exactly or are rejected",
  "A string stored in the class file as well-formed modified UTF-8 decodes to exactly the characters it encodes, including the two-byte form of U+0000 and six-byte surrogate pairs. A byte sequence that is not well formed (a zero byte, a stray or missing continuation byte, a lead byte F0 or above, a sequence cut off by the string's length, an unpaired surrogate) is rejected with an error and never decodes to some other text, and a string never consumes bytes beyond its declared length.",
  ["inputs"],"all byte sequences of a string constant or debug-extension attribute",
  "The only test decodes one ASCII string.",
  [D],[("Decoder::read_str",D)],["Pool::get_utf8, Attribute::SourceDebugExtension"])
p("C11","Pool indices are stable and equal items share one index",
  "For every history of pushes, pushing an item equal to one already present returns that item's existing index and leaves the pool unchanged; pushing a new item returns the current length and grows the length by one, or by two for a long or double. Every index returned earlier keeps denoting the same item forever. This holds however the pool was created (new, with a capacity, or by default).",
  ["histories","inputs"],"every sequence of pushes of arbitrary items on a pool made by any constructor",
  "One fixed history of five pushes is tested.",
  [CP],[("Pool::push with by_entry",CP)],["Pool::push/get/len"],
  [("Pool.length","encoded length",CP),("Pool.by_entry","index by item",CP)])
p("C12","Pool lookups are total and correctly typed",
  "For every pool and every 16-bit index, a lookup returns the item at that index, or an invalid-constant error carrying that index when it is zero, is the second half of a long or double, or is not below the pool's length; it never panics. Asking for a string, a class name or an optional class name returns the text when the entries have the right kinds, no name for an optional class name whose name index is zero, and otherwise an invalid-constant error carrying the index whose entry is missing or of the wrong kind.",
  ["inputs","histories"],"every pool content and all 65536 indices, for each accessor",
  "Only four valid lookups are tested.",
  [CP],[("Pool::get, get_utf8, get_class_name, get_class_name_opt",CP)],["Pool accessors"])
p("C13","The pool refuses what does not fit and never wraps",
  "A pool never holds more entries than a class file can number (length at most 65535): pushing a new item that does not fit, in particular a long or double when only one index is left, fails with the too-large error and leaves the pool unchanged. Everything that fits is accepted, and items already present are still found when the pool is full.",
  ["histories","inputs"],"every pool near or at capacity and every item",
  "No test comes near the limit.",
  [CP],[("length check in Pool::push",CP)],["Pool::push/len"])
p("C14","Iterating a pool yields each item once with its index",
  "Iterating a pool yields every item exactly once, in ascending order, paired with the very index under which looking it up returns that item; second halves of longs and doubles are skipped, and a finished iteration stays finished without panicking.",
  ["histories","inputs"],"every pool built by pushes or by parsing",
  "The iteration assertions in the only pool test are commented out.",
  [CP],[("PoolIter::next",CP)],["Pool::iter"])
p("C15","Constant equality is bitwise and agrees with hashing",
  "Two constants compare equal exactly when they are of the same kind and all their values are equal, with floats and doubles compared by bit pattern (so a NaN equals itself and 0.0 differs from -0.0). Equality is reflexive, symmetric and transitive, and equal constants always hash identically while the kind and every value take part in the hash.",
  ["inputs"],"every pair of constants of every kind",
  "No test compares or hashes items beyond five integers and floats.",
  [CP],[("impl Hash/PartialEq for Item",CP)],["Item ==, Hash"])
p("C16","Each JVM instruction decodes to its counterpart",
  "Every defined opcode decodes to the instruction the JVM specification assigns to it, with each operand equal to the encoded value (sign- or zero-extended as the specification says), including all wide forms, and consumes exactly its encoded size. This holds at every offset in the code.",
  ["inputs"],"all opcodes, all operand values, all code offsets",
  NOPARSE+"about 200 opcodes each with up to 2^32 operand values.",
  [C],[("parse_instruction",C)],["Attribute::Code instructions"])
p("C17","Switch instructions decode with padding and full tables",
  "A tableswitch or lookupswitch decodes, at every alignment, to exactly its default, bounds and offsets (tableswitch in order from low to high, lookupswitch as the map from each key to its offset), skipping the padding whatever it contains. A tableswitch whose low exceeds its high is rejected with an error.",
  ["inputs"],"all alignments, bounds, keys and offsets",
  NOPARSE+"bounds near the integer limits and particular alignments matter.",
  [C],[("0xAA and 0xAB in parse_instruction",C)],["Instruction::TableSwitch/LookupSwitch"])
p("C18","The code attribute maps every instruction to its offset",
  "A successfully parsed code attribute reports max stack, max locals, exception handlers and nested attributes exactly as encoded, and its instruction map holds one entry for each instruction start in the code array and nothing else, each under its byte offset. The instructions tile the code array exactly: an empty code array, or one whose last instruction runs past its end, is rejected.",
  ["inputs"],"all code arrays, exception tables and nested attributes",
  NOPARSE+"instruction boundaries depend on all previous bytes.",
  [C],[("parse_code",C)],["Attribute::Code"])
p("C19","Undefined bytecode is rejected and reported precisely",
  "A code array containing an undefined opcode, an undefined opcode after a wide prefix, or an undefined primitive array type is rejected with an invalid-instruction error that carries the opcode of the offending instruction (the wide prefix or newarray opcode in the latter two cases) and the byte offset of that instruction.",
  ["inputs"],"all opcodes, wide sub-opcodes and array type codes, at every code offset",
  NOPARSE+"the reported offset depends on everything before the bad instruction.",
  [C],[("parse_instruction error arms",C)],["Error::InvalidInstruction"])
p("C20","Stack map frames decode exactly as specified",
  "Every stack map frame is reported with the kind, offset delta, chop count, locals and stack that its encoding denotes under the JVM specification, complete and in order. A reserved frame type or an unknown verification type tag is rejected with an error carrying that byte.",
  ["inputs"],"all 256 frame types, all 256 verification tags, all operands and counts",
  NOPARSE+"frame kinds change at seven boundaries of the type byte.",
  [ME],[("parse_stack_map_table, parse_verification_type",ME)],["Attribute::StackMapTable"])
p("C21","Annotations and element values decode exactly",
  "Runtime-visible and -invisible annotations, parameter annotations and annotation defaults are reported with exactly the type indices, element names, and element values encoded (every tag, enums, class literals, nested annotations and arrays), complete, in order, and under the attribute kind of their name. An unknown element value tag is rejected with an error carrying that tag.",
  ["inputs"],"all tags, counts, indices and nestings",
  NOPARSE+"the grammar is recursive.",
  [A,M],[("parse_annotation, parse_element_value",A)],["Attribute::Runtime*Annotations, AnnotationDefault"])
p("C22","Type annotations decode targets and paths exactly",
  "Every type annotation is reported with exactly the target kind, target operands, type path and annotation encoded, for all target types of the JVM specification including local-variable tables of any length. An unknown target type or type path kind is rejected with the corresponding error.",
  ["inputs"],"all 256 target types, all table and path lengths, all operands",
  NOPARSE+"22 target kinds with different operand layouts.",
  [A],[("parse_type_annotation, parse_target_type, parse_local_variable, parse_type_path",A)],["Attribute::Runtime*TypeAnnotations"])
p("C23","Class and module level attributes decode exactly",
  "BootstrapMethods, EnclosingMethod, InnerClasses, Module, ModuleMainClass, ModulePackages, SourceFile and SourceDebugExtension attributes are recognised by their JVM-specification names and reported with exactly the indices, flags and lists encoded, complete and in order, including all nested lists.",
  ["inputs"],"all counts, nested counts and values",
  NOPARSE+"nested counts and names must match the specification for every content.",
  [K,M],[("parse_bootstrap_methods ... parse_module",K)],["Attribute variants"])
p("C24","Field, method and debug attributes decode exactly",
  "ConstantValue, Deprecated, Exceptions, LineNumberTable, LocalVariableTable, LocalVariableTypeTable, MethodParameters, Signature and Synthetic attributes are recognised by their JVM-specification names and reported with exactly the values encoded in the layout the specification gives them, complete and in order.",
  ["inputs"],"all counts and values",
  NOPARSE+"table layouts must be right for every count and value.",
  [ME,M],[("parse_exceptions ... parse_method_parameters",ME)],["Attribute variants"])
p("C25","Unknown attributes are preserved byte for byte",
  "An attribute whose name is none of the names this library knows, however similar to one of them, is reported as unknown together with its name index and exactly its bytes, at class, field, method and code level. An attribute whose name index does not denote a string constant makes the parse fail with an invalid-constant error carrying that index.",
  ["inputs"],"all names, all contents, all four levels",
  NOPARSE+"names one character away from a known one and arbitrary payloads are untested.",
  [M,CP],[("name match in parse_attributes",M)],["Attribute::Unknown"])
p("C26","Type descriptors: exactly the grammar is accepted",
  "Parsing a type descriptor succeeds exactly when the string is zero to 255 '[' followed by one of B C D F I J S Z, or by 'L', a non-empty name without ';' and a final ';'. It then reports precisely that dimension count, primitive type or name, and every other string is rejected with an invalid-descriptor error that carries the string.",
  ["inputs"],"every string",
  "A dozen fixed strings are tested.",
  [TY],[("TypeDescriptor::from_str",TY)],["str::parse::<TypeDescriptor>"])
p("C27","Method descriptors: exactly the grammar is accepted",
  "Parsing a method descriptor succeeds exactly when the string is '(', at most 255 parameter type descriptors, ')', and either 'V' or one type descriptor. It then reports precisely those parameter types in order and that return type, and every other string is rejected with an invalid-descriptor error that carries the string.",
  ["inputs"],"every string",
  "Two dozen fixed strings are tested.",
  [TY],[("MethodDescriptor::from_str",TY)],["str::parse::<MethodDescriptor>"])
p("C28","Descriptors print to the text they were parsed from",
  "Printing a successfully parsed type or method descriptor yields the original string. Parsing the printed form of any descriptor value that has a non-empty reference name without ';' (and at most 255 parameters) yields an equal value.",
  ["inputs"],"every accepted string and every valid descriptor value",
  "Doc tests print three fixed values.",
  [TY],[("impl Display",TY)],["to_string / parse"])
p("C29","A failed parse names what is wrong",
  "When parsing a class file fails, the error is the documented one for the first fault in the file: input that ends too early, or content that does not match a declared length, is reported as exceeding its limit; a wrong header (of input with at least four bytes) as not being a class; a malformed string as invalid UTF-8; an undefined constant, instruction, frame, verification type, element value, target type or type path by its own error with what was found. Parsing never fails with an I/O, descriptor or pool-size error.",
  ["inputs"],"every byte string whose parse fails",
  NOPARSE+"which error a hostile input gets depends on the order of checks in every reader.",
  [D,M,C,K,ME,A,"src/result.rs"],[("Error","src/result.rs"),("Decoder::check/limit/remove_limit/read_str",D)],["basic::parse"])
p("C30","The work of a parse is proportionate to its input",
  "The number of instructions a parse executes is bounded by a fixed multiple of the input's length plus a fixed allowance: claimed counts, ranges and lengths never make the parser do work for elements the input does not contain, and no table is processed in more than linear time.",
  ["inputs"],"every byte string handed to basic::parse",
  NOPARSE+"tests observe values, not work; a loop over a claimed range is expensive only for specific hostile inputs.",
  [M,D,C,K,ME,A,CP],[("element loops end at the first failed read","the table readers in "+M+", "+ME+", "+K+", "+A),("switch tables","parse_instruction in "+C)],["basic::parse"])
p("C31","Parses, pools and descriptors do not influence each other",
  "The outcome of parsing a class file depends on its bytes alone: parsing it again, or after any other class file was parsed or rejected at any point, and whether or not earlier results are still alive, gives the same result with the same values, or the same error. The same holds for descriptors, and pools filled in turns are independent of each other.",
  ["inputs","histories"],"every byte string or descriptor, after every earlier parse or failure; all interleavings of pushes into two pools",
  "Each existing test makes one call and drops its result; buffers, caches or counters that survive a failed parse are never exercised.",
  [M,D,C,A,CP,TY],[("all parser state lives in the Decoder of one call","Decoder in "+D),("a pool owns its items","Pool in "+CP)],["basic::parse","Pool","str::parse"])
p("C32","A part decodes the same wherever it stands",
  "How an attribute, a member or a code array decodes depends only on its own bytes and on the text its name index denotes. It is the same for every class file version, access flags, this-class, super-class, interface, member name and descriptor, whether or not those indices denote anything; at class, field, method and code level; at every position in the file and in its list; next to any other attributes, members and constants, and when an attribute, member or name occurs more than once.",
  ["inputs"],"every attribute kind and instruction, in every surrounding: versions, flags, indices, neighbours, positions",
  NOPARSE+"a reader that looks at the version, at a flag or at a neighbour is wrong only for particular combinations.",
  [M,C,ME,K,A],[("attributes are chosen by name alone","parse_attributes in "+M),("indices are not validated","README.md, basic parsing")],["basic::parse"])
p("C33","Whole class files decode exactly, and so does every variation of them",
  "A class file as a compiler writes it, with all its constants, members, code, debug tables, annotations and module tables together, parses, and every one of its constants, members, attributes and instructions is reported exactly as encoded. When any of its bytes is changed to any other value, the parse either reports exactly what the changed file encodes, or fails with the error for the first fault of the changed file.",
  ["inputs"],"complete class files, every position, every value of the bytes there",
  NOPARSE+"the parts of a file constrain each other through lengths, counts and indices; only complete files exercise them together.",
  [M,D,C,K,ME,A,CP],[("parse",M)],["basic::parse"])
p("C34","A pool read from a class file stays usable as a pool",
  "The pool returned by a parse can be looked up, iterated and extended like any other. Pushing an item equal to an entry of the file returns the lowest index at which the file has that entry, and changes nothing. Pushing any other item returns the pool's length (at first the file's declared count) and grows it by one, or by two for a long or double, unless that does not fit, which is refused. Every entry of the file keeps its index through all of this, and iteration yields the entries of the file, repeated ones too, followed by the pushed items.",
  ["inputs","histories"],"every class file's pool, every sequence of pushes after the parse",
  "The one pool test never parses; the agreement between what the parser stored and what push looks up shows only in both together.",
  [CP,M],[("read_constant_pool",M),("Pool::push, Pool::append","src/basic/constpool.rs")],["Pool::push/get/len/iter after basic::parse"],
  [("Pool.by_entry","lowest index by item",CP)])
p("C35","Descriptors of any length are handled at proportionate cost",
  "For every string, parsing it as a type or method descriptor returns a descriptor or an error, and printing a parsed descriptor returns a string. Both always return, without a panic or unbounded recursion, and both the instructions they execute and the heap memory they use are bounded by a fixed multiple of the string's length plus a fixed allowance, whatever its dimensions, parameters and names.",
  ["inputs"],"every string handed to str::parse and every descriptor parsed",
  "Three dozen short strings are tested and only their values are compared; cost shows for long strings of a particular shape.",
  [TY],[("parsing passes over the string once","TypeDescriptor::from_str, MethodDescriptor::from_str"),("impl Display",TY)],["str::parse, to_string; allocator calls"])
p("C36","Pool operations stay fast however large the pool is",
  "Looking up an index, reading a string or class name, finding the index of an item already present, and stepping an iterator take a number of instructions that does not grow with the number of items in the pool. Pushing n items takes in total at most a fixed multiple of n instructions, whatever the kinds of the items, however the pool was made, and whether or not it was read from a class file; iterating over n items likewise.",
  ["inputs","histories"],"pools of every size up to the largest, every operation on them",
  "The documentation promises fast lookups by index and by value; the one test has six entries and compares values only.",
  [CP],[("Vec and HashMap side by side","Pool in "+CP),("hash over every operand","impl Hash for Item")],["Pool::push/get/iter"])
p("C37","A descriptor error points at the fault",
  "The position in an invalid-descriptor error counts characters from the start of the string, is at most the string's length, and is that of the first character at which no well-formed descriptor can continue (the string's end, if it ends too early) or of the character before it. Only when the string has more than 255 parameters may it be any position in the string.",
  ["inputs"],"every malformed string, with characters of any width",
  "The existing tests check only that malformed strings are rejected, never where.",
  [TY],[("the counter i","TypeDescriptor::from_str, MethodDescriptor::from_str")],["Error::InvalidDescriptor.at"])
p("C38","Printed access flags name exactly the flags that are set",
  "The human-readable (Debug) form of the access flags of a class, field, method, inner class, parameter or module part names every flag of the JVM specification whose bit is set in the class file, once, and no other: both names where two flags share a bit (such as SUPER and SYNCHRONIZED), and none when no bit is set.",
  ["inputs"],"all 65536 flag words",
  "No test prints flags; a name missing from or wrong in the table shows only for words with that bit.",
  [T],[("bitflags AccessFlags",T)],["format!(\"{:?}\", access_flags)"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["title"]
