PROPS = [
 dict(id="C01", title="Input split into buffers gives the same tokens as one buffer",
  statement="For every input text, every way of cutting it into consecutive buffers and every way of handing those over (all up front, from the need-more-data callback, or after a NeedMoreData result), the tokenizer yields the same names, values, types and final outcome as when the text is one buffer. A cut may fall anywhere: inside a string, an escape, a number, a keyword, white space or a comment. (Texts contain no NUL byte: that is the terminator a buffer may end with.)",
  over=["inputs","histories"], quant="all texts up to a length over the structural, lexical and comment alphabets x all partitions into buffers x all hand-over orders x the relaxed dialects; long lexemes around the vector block sizes x all partitions into 2-4 buffers",
  why="the existing tests cut a handful of documents at fixed places; the state carried across a buffer end depends on what lies on both sides of every cut",
  mech=["Tokenizer::nextToken","Tokenizer::populateNextTokenFromDataRef","Tokenizer::findTokenEnd and intermediate_token","Tokenizer::releaseFirstDataRef / copyFromValue","Tokenizer::skipComment / resumeComment"],
  state=[("token_state","what the tokenizer expects next"),("intermediate_token","the part of a lexeme seen in earlier buffers"),("is_escaped","a backslash ended the previous buffer"),("comment_state","a comment is open at the end of a buffer")],
  observe=["Tokenizer::nextToken"]),
 dict(id="C02", title="Strict parsing yields exactly the tokens of the JSON grammar",
  statement="With no relaxation enabled, the tokenizer yields for every text exactly the sequence of tokens (type, name, value) the JSON grammar gives it, and reports an error at the first place where the text cannot be continued to valid JSON. A text that stops early yields NeedMoreData, never an error and never an invented token; brackets always match. Deliberate extensions: several roots may follow each other, a root is an object or array, a comma after the last scalar of an array is tolerated; texts contain no NUL byte.",
  over=["inputs"], quant="all byte strings up to a length over several alphabets (structural, lexical, and all 256 byte values in every position of short texts), and one symbol past every error",
  why="the tests hold a few dozen documents; acceptance is a property of the whole language",
  mech=["Tokenizer::findStartOfNextValue / findDelimiter / findTokenEnd","Tokenizer::populateNextTokenFromDataRef","container_stack","Internal::getType / getDataRefType"],
  observe=["Tokenizer::nextToken"]),
 dict(id="C03", title="Each relaxed-syntax option changes exactly what it names and nothing else",
  statement="Comments, unquoted names and values, newlines as separators, and superfluous commas are each accepted exactly when their option is on, in every combination of the four options, and enabling options never changes the tokens of a text that was already accepted without them, except that a newline between elements is then a separator. With the option off, a text that needs it is an error.",
  over=["inputs","configurations"], quant="all 16 option sets x all texts up to a length over alphabets containing the characters the options give meaning to",
  why="tests enable one or all of the options for a few documents; interactions of options and position are not sampled",
  mech=["Tokenizer::allowComments / allowAsciiType / allowNewLineAsTokenDelimiter / allowSuperfluousComma","Tokenizer::skipComment","Tokenizer::findDelimiter"],
  observe=["Tokenizer::nextToken","ParseContext::parseTo"]),
 dict(id="C04", title="Vectorised scanning equals scalar scanning in every build configuration",
  statement="For every text, the library built for the baseline, SSE4.2, AVX2 or with vector code disabled yields the same tokens, values and errors, whatever the length, the alignment of the buffer and the position of the interesting byte within a vector block, including bytes 0x80-0xFF (NUL, the terminator of a buffer, excepted).",
  over=["inputs","configurations"], quant="all four build configurations x all lexeme lengths 0..100 x all positions of every special byte x all 256 byte values x alignments, and all short texts",
  why="the tests run one build configuration and short lexemes, which never fill a vector block with a special byte at each position",
  mech=["findStringEndSIMD / findNumberEndSIMD / findAsciiEndSIMD / skipWhitespaceSIMD / skipCommentSIMD","the AVX2 variants","lookup tables"],
  observe=["Tokenizer::nextToken"]),
 dict(id="C05", title="No input makes parsing misbehave: memory-safe, terminating, error-reporting",
  statement="Parsing any byte sequence, malformed and truncated ones included, into any supported target type ends, reads and writes only memory it owns, has no undefined behaviour, and reports either success or an error. Parsing a truncated prefix of a document never reports success for a target that was not completely read.",
  over=["inputs","programs"], quant="all byte strings up to a length over structural and lexical alphabets, all prefixes and all single-byte changes of documents, for every target type, under address and undefined-behaviour sanitizers",
  why="tests feed a few malformed documents into one or two types",
  mech=["TypeHandler<...>::to for every type","ParseContext::parseTo","Tokenizer"],
  observe=["ParseContext::parseTo","ParseContext::error"]),
 dict(id="C06", title="Serialising a value and parsing the result gives the value back",
  statement="For every value of every supported type (structs, nested structs, containers, maps, tuples, optionals, pointers, enums, strings, numbers, booleans), in pretty and compact style, parsing what serialisation produced succeeds and yields an equal value.",
  over=["inputs","programs","configurations"], quant="all values over small domains of every field of a family of types covering each handler and each nesting of two handlers x all styles",
  why="tests round-trip a few hand-written values; handlers compose freely",
  mech=["TypeHandler<...>::from / to","Serializer::write","serializeStruct"],
  observe=["serializeStruct","ParseContext::parseTo"]),
 dict(id="C07", title="Integers are parsed exactly, saturate out of range, and print exactly",
  statement="For every integer type, a number text denotes its mathematical value truncated toward zero; a value inside the type's range is stored exactly, a value outside is stored as the nearest bound and never wraps, and a text that is not a number is an error. Printing an integer and parsing it back gives the same integer.",
  over=["inputs"], quant="all values of the 8 and 16 bit types; all digit strings up to a length; all boundary neighbourhoods of the 32 and 64 bit types with every sign, fraction, leading-zero and exponent form",
  why="tests parse a handful of values; boundaries, long digit strings and exponents interact",
  mech=["Internal::ft::parseNumber / to_integer / convert_to_integer / to_buffer","TypeHandlerIntType"],
  observe=["ParseContext::parseTo","serializeStruct"]),
 dict(id="C08", title="Floating-point text is read to the nearest value and written to read back",
  statement="Every finite float and double is written as a JSON number that reads back as the same value and is the shortest digit string that does; every decimal number text is read as the float or double nearest to it (ties to even), with zero and the infinities for what underflows or overflows.",
  over=["inputs"], quant="float: a complete sweep of exponents x structured mantissas (all 2^32 in the thorough tier); double: all exponents x structured mantissas; decimal texts: all digit strings up to a length x all exponents, and exact midpoints of neighbouring values",
  why="tests hold a few hundred constants; an error sits at single exponents or mantissas",
  mech=["Internal::ft::float_info / compute_shortest / cache_values / convert_parsed_to_buffer / convertToNumber / correctly_round_float","TypeHandler<double> / TypeHandler<float>"],
  observe=["ParseContext::parseTo","serializeStruct"]),
 dict(id="C09", title="String escaping is exact in both directions",
  statement="Writing any byte string as a JSON string produces a string literal with every quote, backslash and control character escaped that reads back as the same bytes, and reading a literal turns each escape, including surrogate pairs, into exactly the UTF-8 bytes it denotes and leaves all other bytes unchanged; a backslash before a character JSON defines no escape for stands for that character.",
  over=["inputs"], quant="all byte strings up to a length over all 256 bytes (length 2) and an escape alphabet (longer), all 65536 unicode escapes, all surrogate combinations at their boundaries, every position relative to a vector block",
  why="tests check a few escapes and a few code points",
  mech=["Internal::handle_json_escapes_in / handle_json_escapes_out","TypeHandler<std::string>"],
  observe=["ParseContext::parseTo","serializeStruct"]),
 dict(id="C10", title="Serialised output does not depend on the output buffers",
  statement="For every value, style and sequence of output buffer sizes supplied through the request callback, the concatenated output equals the output into one large buffer, nothing is written outside a supplied buffer, and running out of space without a callback is reported instead of losing data silently.",
  over=["inputs","histories","fault_sequences"], quant="all partitions of the output into buffers for small values, all two- and three-buffer partitions and all uniform sizes for larger ones, and a refusal at every request",
  why="tests use one or two buffer sizes",
  mech=["Serializer::write / askForMoreBuffers / markCurrentSerializerBufferFull","SerializerBuffer::append"],
  observe=["Serializer::write","SerializerContext::serialize"]),
 dict(id="C11", title="Output is well-formed JSON and the style changes only white space",
  statement="For every sequence of tokens that describes a JSON value, and every value of a supported type, the serializer's output is well-formed JSON in every style, and its tokens are the tokens written; pretty and compact output of the same value differ only in insignificant white space, which for compact is none and for pretty puts each value on its own line, indented by its depth times the shift width.",
  over=["inputs","configurations"], quant="all token sequences describing a value up to a size x all option settings (style, shift size, initial depth), nesting up to 600 levels",
  why="tests compare a few outputs with stored text",
  mech=["Serializer::write(const Token&)","SerializerOptions"],
  observe=["Serializer::write","serializeStruct"]),
 dict(id="C12", title="Struct members bind by name, in any order, and are accounted for",
  statement="For every order, subset and repetition of an object's properties, each property is stored in the member that bears its name or alias (super classes included) and in no other, unknown properties are skipped whole whatever their value, and members without a property keep their value. The missing and unassigned lists name exactly the mandatory members that got no property and the properties that had no member, and the corresponding options turn them into errors.",
  over=["inputs","configurations","histories"], quant="all sequences up to a length of properties drawn from names, aliases, super-class names and unknown names with scalar and nested values x all option settings",
  why="tests use a few orders and names",
  mech=["MemberChecker / SuperClassHandler / unpackMember / verifyMember","ParseContext::allow_missing_members / allow_unasigned_required_members / track_member_assignement_state"],
  observe=["ParseContext::parseTo","ParseContext::missing_members","ParseContext::unassigned_required_members"]),
 dict(id="C13", title="Reformatting preserves the document and is idempotent",
  statement="Reformatting any valid document (one root), in any style, yields a well-formed document with the same tokens in the same order, and reformatting that again yields it unchanged; an invalid document is reported as an error.",
  over=["inputs","configurations"], quant="all documents up to a size over the lexical alphabet x styles x relaxed options, nesting up to 600 levels",
  why="tests reformat three documents",
  mech=["JS::reformat","Serializer::write"],
  observe=["JS::reformat"]),
 dict(id="C14", title="A Map holds the document's properties and every edit keeps it consistent",
  statement="After parsing an object (its names unique) and any sequence of lookups, assignments, appends and casts, a Map behaves as the ordered list of properties it was given: lookup finds exactly the top-level properties, a cast of a property or of the whole equals parsing the corresponding text, an assignment replaces or adds exactly that property, and serialising the Map yields a document with the same content. Copies and moves are independent of their source.",
  over=["inputs","histories"], quant="all operation sequences up to a depth over small documents with nested values, compared with an ordered-list model after every step",
  why="tests run a few fixed scripts",
  mech=["JS::Map::find / castTo / setValue / setValue<T>","TypeHandler<Map>","JsonMeta"],
  observe=["JS::Map"]),
 dict(id="C15", title="A call document runs exactly the functions it names and reports each result",
  statement="For every object of calls, each property whose name is a registered function (alias and super-class functions included) calls that function exactly once, in document order, with the argument its value denotes; a mistyped argument, an unknown name or a reported error affects only its own call (when the document is malformed the calls in front of the malformed place are made and recorded and the call it lies in fails), and exactly the calls that should are marked executed with their result or error recorded in order.",
  over=["inputs","histories"], quant="all sequences up to a length of calls drawn from known, aliased, inherited, unknown and mistyped ones x all option settings and every output buffer",
  why="tests issue a few fixed call lists",
  mech=["CallFunctionContext::callFunctions","FunctionCaller / FunctionObjectTraverser","CallFunctionExecutionState"],
  observe=["CallFunctionContext::execute","execution_list","return_serializer output"]),
 dict(id="C16", title="A diff reports exactly the differences between two documents",
  statement="Diffing two documents (one root each, names unique per object) reports them equal exactly when they have the same structure and values (numbers by value), and otherwise reports each added, removed or changed property and element exactly once at its place, independent of property order; a document diffed with itself has no differences and malformed input is an error, never a crash.",
  over=["inputs"], quant="all pairs of documents up to a size over a value alphabet, plus all malformed truncations",
  why="tests diff a few pairs",
  files=["include/json_struct/json_struct.h","include/json_struct/json_struct_diff.h"],
  mech=["DiffContext::diff","Diff::...::metaForTokens"],
  observe=["DiffContext"]),
 dict(id="C17", title="Raw captures hold exactly the captured text and leave the rest in step",
  statement="A member that captures raw JSON (object, array or either, by copy or reference, or as tokens) holds, for every value and every split of the input into buffers (captures by reference or as tokens need one buffer, which outlives them), exactly the source text or tokens of that value, and the properties after it are parsed as if it were any other value; a value of the wrong kind is an error. Parsing into the same object again replaces the capture.",
  over=["inputs","histories"], quant="all values up to a size x all partitions into buffers x all capture types, parsed twice",
  why="tests capture a few values from one buffer",
  mech=["TypeHandler<JsonObject> / <JsonArray> / <JsonObjectOrArray> / their Ref variants / <JsonTokens> / <std::vector<Token>>","Tokenizer::copyFromValue / copyIncludingValue / goToEndOfScope"],
  observe=["ParseContext::parseTo"]),
 dict(id="C18", title="A value of the wrong kind is an error and never shifts its siblings",
  statement="When a value is not of the kind its member's type accepts (an object where a string is expected, say), parsing reports an error; and whenever parsing reports success every member, before and after, holds the value its own property denotes, and nothing is stored that the document does not say.",
  over=["inputs","programs"], quant="all pairs of target type and value from an alphabet of scalars and nested values, in first, middle and last position, alone, in vectors, maps, tuples and optionals",
  why="tests cover a few mismatches",
  mech=["TypeHandler<...>::to for every type","Tokenizer::goToEndOfScope"],
  observe=["ParseContext::parseTo","ParseContext::error"]),
 dict(id="C19", title="Token metadata describes the token tree",
  statement="For every token sequence of a valid document, the metadata computed for it gives each container the number of its direct children, the position and the extent its subtree really has, and marks exactly the containers that contain complex values; a sub-tree can be skipped or extracted by it.",
  over=["inputs"], quant="all documents up to a size over the lexical alphabet, compared with a tree computed recursively",
  why="tests check two documents",
  mech=["JS::metaForTokens","Internal::findFirstChildWithData"],
  observe=["JS::metaForTokens"]),
 dict(id="C20", title="A reused tokenizer or parse context behaves like a fresh one",
  statement="After any history of inputs, complete, truncated or malformed, parsed to any point, giving a tokenizer or parse context new data (resetData, or addData behind a complete document) yields exactly what a fresh one yields; scopes pushed and popped around a value always skip exactly that value; tokens stored and played back give the same result as parsing the text.",
  over=["histories","inputs"], quant="all sequences of up to three inputs x all stopping points x all reset forms; all documents x all scope positions",
  why="tests reuse a tokenizer in one or two places",
  mech=["Tokenizer::resetData","Tokenizer::pushScope / popScope / goToEndOfScope","Tokenizer::addData(const std::vector<Token>*)"],
  observe=["Tokenizer::nextToken","ParseContext::parseTo"]),
 dict(id="C21", title="Error reports point at the offending place in the input",
  statement="For every malformed input the error report names the error that was returned and quotes the line that contains the offending place (where reading had got to: the first offending byte or the one behind it; for a mistyped value, in it or up to the delimiter behind it) with the marker under it, whatever the line, its length, the amount of context configured and the buffers the input came in; building the report never reads outside the input.",
  over=["inputs","configurations"], quant="all malformed texts up to a length x line structures x context settings",
  why="tests compare two or three messages",
  mech=["Tokenizer::updateErrorContext","Tokenizer::makeErrorString","ErrorContext"],
  observe=["ParseContext::makeErrorString","Tokenizer::makeErrorString"]),
 dict(id="C22", title="Optional, nullable and pointer members distinguish absent, null and present",
  statement="For each optional, nullable and pointer type and every combination of absent, null and present values, the member ends up empty, null or holding the value its type documents, only mandatory members count as missing, and serialisation writes null or leaves the property out as the type and options document, in any combination with its neighbours.",
  over=["inputs","programs"], quant="all combinations of absent / null / value / wrong kind for structs of up to three such members of every type, previously empty or filled",
  why="tests check each type alone",
  mech=["TypeHandler<Nullable / NullableChecked / Optional / OptionalChecked / std::optional / unique_ptr / shared_ptr / Silent...>","IsOptionalType"],
  observe=["ParseContext::parseTo","serializeStruct"]),
 dict(id="C23", title="Every input buffer is released once, in order, and only when unused",
  statement="For every text and every sequence of buffers, the tokenizer releases each buffer it has finished exactly once, in the order they were added, never one that the last returned token still refers to, and refers to nothing in a released buffer afterwards.",
  over=["histories","inputs"], quant="all texts x all partitions into buffers x all hand-over orders, with every released buffer overwritten and freed",
  why="tests count releases for one document",
  mech=["Tokenizer::releaseFirstDataRef","Tokenizer::requestMoreData","copy_buffers"],
  observe=["Tokenizer::setReleaseCallback","Tokenizer::registeredBuffers","Token data"]),
 dict(id="C24", title="Enum values map one to one to their names",
  statement="For every declared enum and every text, parsing a string succeeds exactly when it is one of the declared names, as written, and yields that enumerator; an integer in the range of the enumerators yields the enumerator of that number; every enumerator is written as its name and reads back, any other value as its number; a name that is a prefix, extension or case variant of another is never confused with it.",
  over=["inputs","programs"], quant="all enumerators and all texts up to a length over the enums' letters, plus all prefixes, extensions and single edits of the names",
  why="tests use a few enumerators",
  mech=["JS_ENUM / Internal::populateEnumNames","EnumHandler"],
  observe=["ParseContext::parseTo","serializeStruct"]),
]
