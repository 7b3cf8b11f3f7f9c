import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

GEN="The 160 stable tests run 17 committed, already-generated C suites with fixed values; the compiler itself is not executed by any of them."
RT="The stable tests reach the runtime only through a few hundred fixed messages; "
p("P01","Generated uPER codecs produce and accept exactly the X.691 encoding",
"For every ASN.1 specification the compiler accepts and every value allowed by a type's constraints, the generated C encoder writes exactly the bit string that the unaligned Packed Encoding Rules prescribe for that type and value. Decoding that bit string succeeds, consumes all of it and returns an equal value.",
["programs","inputs"],"all type definitions in the supported ASN.1 subset (nesting, constraints, optionality, defaults, tags, choices, strings, lists), all their valid values",
GEN+" Conformance of code generated for arbitrary types cannot be sampled by a fixed set of grammars.",
["BackendAst/DAstUPer.fs","StgC/uper_c.stg","FrontEndAst/uPER.fs","asn1crt/asn1crt_encoding_uper.c"],
[("uPER code generation","BackendAst/DAstUPer.fs"),("effective (PER-visible) constraint computation","FrontEndAst/uPER.fs"),("uPER runtime primitives","asn1crt/asn1crt_encoding_uper.c")])
p("P02","Generated ACN codecs follow the layout the ACN specification asks for",
"For every accepted ASN.1/ACN pair and every valid value, the generated C encoder writes exactly the bits the ACN properties describe (field sizes, encodings, endianness, alignment, determinants, presence conditions, ACN-only fields). Decoding those bits succeeds, consumes all of them and returns an equal value.",
["programs","inputs"],"all combinations of documented ACN properties over generated types; all valid values",
GEN+" ACN properties combine freely, so hand-picked grammars leave most combinations unexecuted.",
["BackendAst/DAstACN.fs","BackendAst/Acn/AcnPrimitives.fs","BackendAst/Acn/AcnDependencies.fs","FrontEndAst/AcnEncodingClasses.fs","FrontEndAst/AcnCreateFromAntlr.fs","StgC/acn_c.stg","asn1crt/asn1crt_encoding_acn.c"],
[("ACN encoding class selection","FrontEndAst/AcnEncodingClasses.fs"),("ACN code generation","BackendAst/Acn/"),("determinant updates","BackendAst/Acn/AcnDependencies.fs"),("ACN runtime primitives","asn1crt/asn1crt_encoding_acn.c")])
p("P03","Generated validity checks accept exactly the values the constraints allow",
"For every type and every representable value, the generated validity function answers true if and only if the value satisfies all ASN.1 constraints on the type and its components. An encoder asked to check constraints refuses exactly the values that function refuses, and a decoder never reports success for a value it refuses.",
["programs","inputs"],"all constraint expressions (ranges, unions, intersections, exclusions, sizes, alphabets, single values) over all types; values inside, on and outside the boundaries",
GEN+" The suites contain almost only valid values.",
["BackendAst/DastValidate2.fs","FrontEndAst/ConstraintsMapping.fs","CommonTypes/RangeSets.fs","StgC/isvalid_c.stg"],
[("validity code generation","BackendAst/DastValidate2.fs"),("constraint set algebra","CommonTypes/RangeSets.fs, CommonTypes/ValueSets.fs, FrontEndAst/uPER.fs")])
p("P04","Advertised maximum encoded sizes are true upper bounds and are attained",
"No valid value of a type ever encodes to more bits than the generated maximum-size constants of that type announce, for each binary encoding, so a buffer of the announced byte size is always sufficient. For types built without REAL, object identifiers and sizes of 64K and more, the announced uPER bound is exactly the size of the longest encoding.",
["programs","inputs"],"all accepted types and valid values, values maximising the encoding included",
GEN+" Every generated buffer is dimensioned from these constants, yet no test computes a size independently.",
["FrontEndAst/uPER.fs","FrontEndAst/AcnEncodingClasses.fs","FrontEndAst/AcnCreateFromAntlr.fs","StgC/header_c.stg"],
[("uPER size computation","FrontEndAst/uPER.fs"),("ACN size computation","FrontEndAst/AcnEncodingClasses.fs")])
p("P05","Generated decoders survive arbitrary input and only return valid values",
"For every generated C decoder and every byte string of any length, decoding terminates without reading or writing outside the given buffer and the target value. It either reports failure with a non-zero error code, or reports success with a value that satisfies the type's constraints and that can be encoded again.",
["programs","inputs"],"all generated types; all byte strings, in particular truncations and mutations of valid encodings",
GEN+" They decode only messages they have just encoded.",
["asn1crt/asn1crt_encoding_uper.c","asn1crt/asn1crt_encoding_acn.c","asn1crt/asn1crt_encoding.c","StgC/uper_c.stg","StgC/acn_c.stg"],
[("bounds checks of the decoding primitives","asn1crt/asn1crt_encoding.c"),("length checks in generated decoders","StgC/uper_c.stg, StgC/acn_c.stg")])
p("P06","C and Ada code generated from one specification interoperate",
"For every specification and every valid value, the code generated for Ada/SPARK writes the same bytes as the code generated for C, for uPER and for ACN. Each side decodes the other's messages to the same value, and both accept and refuse the same messages.",
["programs","inputs"],"all accepted specifications in the common subset; valid values and mutated messages",
"The Ada side is only compiled by the stable build; none of its code is ever executed by a stable test.",
["StgAda/uper_a.stg","StgAda/acn_a.stg","StgAda/LangGeneric_a.fs","ADA_RTL2/src/adaasn1rtl-encoding.adb","ADA_RTL2/src/adaasn1rtl-encoding-uper.adb","ADA_RTL2/src/adaasn1rtl-encoding-acn.adb"],
[("Ada code templates","StgAda/*.stg"),("Ada runtime","ADA_RTL2/src")])
p("P07","Representation options never change the wire format",
"Compiler options that select code style or memory representation (compact integers, enumerated-name policies, prefixes, efficient enumerations, initialisation globals, deferred patching, PDU selection, streaming, word size) leave every encoding unchanged. Messages written by code generated with one such option set decode to the same value with code generated under any other.",
["configurations","programs","inputs"],"all combinations of the representation options over generated specifications and values",
GEN+" Options are exercised, if at all, one at a time on fixed grammars.",
["asn1scc/Program.fs","BackendAst/DAstTypeDefinition2.fs","BackendAst/DAstACNDeferred.fs","FrontEndAst/EnsureUniqueEnumNames.fs","asn1crt/asn1crt_encoding_acn.c"],
[("option handling","asn1scc/Program.fs"),("deferred determinant patching","BackendAst/DAstACNDeferred.fs, asn1crt/asn1crt_encoding_acn.c"),("compact integers","FrontEndAst/Asn1AcnAstUtilFunctions.fs")])
p("P08","Naming and structuring a specification differently does not change encodings",
"Replacing an inline type by a named type, a parameterised instance, an imported definition or a named constant, or reordering independent assignments, yields generated code with the same wire format and the same set of valid values.",
["programs","inputs"],"generated specifications and their meaning-preserving rewritings; valid values",
GEN,
["FrontEndAst/RemoveParameterizedTypes.fs","FrontEndAst/MapParamAstToNonParamAst.fs","FrontEndAst/ValuesMapping.fs","FrontEndAst/ConstraintsMapping.fs","FrontEndAst/AcnCreateFromAntlr.fs"],
[("parameterised type expansion","FrontEndAst/RemoveParameterizedTypes.fs"),("reference resolution and constraint inheritance","FrontEndAst/AcnCreateFromAntlr.fs")])
p("P09","Code generation is deterministic",
"Running the compiler again on the same files with the same options produces byte-identical output files. The output does not depend on the working directory, the output directory, hash seeds, or on earlier runs into other directories.",
["programs","configurations"],"all accepted specifications, target languages and options",
"No stable test runs the compiler.",
["BackendAst/GenerateFiles.fs","BackendAst/DAstConstruction.fs","FrontEndAst/FE_TypeDefinition.fs","asn1scc/GenerateRTL.fs"],
[("file emission","BackendAst/GenerateFiles.fs"),("runtime export","asn1scc/GenerateRTL.fs")])
p("P10","Ill-formed specifications are refused with a located diagnostic",
"A specification with a syntax, reference, type or constraint error makes the compiler exit with an error status and a message that names the file and the position, and no code is generated for it. The compiler never ends with an internal error or a stack trace, and never silently accepts such a specification.",
["programs"],"generated specifications with one injected error of each class (syntax, undefined and duplicate names, wrong types, constraints, recursion, parameters, ACN), at a random place and nesting",
"The repository's expected-failure grammars are not part of the stable tests and each shows one error in one place.",
["FrontEndAst/CheckAsn1.fs","FrontEndAst/CheckLongReferences.fs","FrontEndAst/AcnGenericCreateFromAntlr.fs","FrontEndAst/CreateAsn1AstFromAntlrTree.fs","asn1scc/Program.fs","Antlr/asn1.g","Antlr/acn.g"],
[("ASN.1 semantic checks","FrontEndAst/CheckAsn1.fs"),("ACN checks","FrontEndAst/AcnCreateFromAntlr.fs, FrontEndAst/AcnEncodingClasses.fs"),("exit status and error reporting","asn1scc/Program.fs")])
p("P11","Generated XER codecs round-trip and emit well-formed XML",
"For every accepted type and every valid value the generated XER encoder writes, within the announced size, a well-formed XML document whose elements are the type and component names and whose texts denote the value. The generated XER decoder reads that document back to an equal value.",
["programs","inputs"],"all accepted types and valid values",
"No stable test exercises XER at all.",
["BackendAst/DAstXer.fs","FrontEndAst/XER.fs","StgC/xer_c.stg","asn1crt/asn1crt_encoding_xer.c"],
[("XER code generation","BackendAst/DAstXer.fs"),("XER runtime","asn1crt/asn1crt_encoding_xer.c"),("XER size computation","FrontEndAst/XER.fs")])
p("P12","Initialisation yields valid values and equality is value equality",
"The generated initialisation of every type yields a value that passes the type's validity check and round-trips through each codec. The generated equality function answers true exactly for pairs denoting the same abstract value, whatever unused memory holds (REAL values that differ by less than the documented relative tolerance of 1e-5 count as the same).",
["programs","inputs"],"all accepted types; pairs of values equal or differing in one component; arbitrary contents of unused storage",
GEN,
["BackendAst/DAstInitialize.fs","BackendAst/DAstEqual.fs","StgC/init_c.stg","StgC/equal_c.stg"],
[("initialisation","BackendAst/DAstInitialize.fs"),("equality","BackendAst/DAstEqual.fs")])
p("P13","ACN without properties is uPER",
"When no ACN property is given for a type, its ACN encoding is bit-identical to its uPER encoding and has the same maximum size. Adding ACN properties to one type leaves the encoding of every type that does not contain it unchanged.",
["programs","inputs"],"all accepted specifications without, or with partial, ACN properties; all valid values",
GEN,
["FrontEndAst/AcnEncodingClasses.fs","BackendAst/DAstACN.fs","FrontEndAst/AcnCreateFromAntlr.fs"],
[("default encoding classes","FrontEndAst/AcnEncodingClasses.fs")])
p("P14","Automatically generated test suites compile and pass",
"For every accepted specification, the code generated together with automatic test cases compiles without warnings treated as errors by the generated build file, and every generated test case passes, in C and in Ada.",
["programs","configurations"],"all accepted specifications and code-generation options",
GEN,
["BackendAst/DastTestCaseCreation.fs","BackendAst/EncodeDecodeTestCase.fs","StgC/test_cases_c.stg","StgAda/test_cases_a.stg"],
[("test case creation","BackendAst/DastTestCaseCreation.fs"),("encode/decode harness generation","BackendAst/EncodeDecodeTestCase.fs")])
p("P20","C bit stream primitives read and write exact bit sequences",
"Any sequence of append operations of bits, partial bytes, bytes, byte arrays, repeated bits and alignment on a sufficiently large stream produces the concatenation of the appended bits, most significant first, at every bit offset. Reading the sequence back with matching operations returns the same items, a read past the end is refused, and no operation touches bytes outside the buffer.",
["histories","inputs"],"all operation sequences, offsets, lengths and buffer sizes",
RT+"most operations are met at few bit offsets and never at the end of a buffer.",
["asn1crt/asn1crt_encoding.c"],[("bit stream","asn1crt/asn1crt_encoding.c: BitStream_*")])
p("P21","C uPER integer, enumerated-index and length primitives are canonical",
"For every range and value, the constrained, semi-constrained and unconstrained whole-number encodings are the minimal ones X.691 prescribes. Decoding returns the value and exactly the encoded length is consumed, for 64-bit extremes, unsigned and signed ranges and every bit offset.",
["inputs"],"all (min, max, value) triples over 64-bit signed and unsigned integers, all offsets",
RT+"few ranges and no extreme values are met.",
["asn1crt/asn1crt_encoding.c","asn1crt/asn1crt_encoding_uper.c"],[("whole number primitives","asn1crt/asn1crt_encoding.c")])
p("P22","C REAL encoding is exact for every double",
"Every finite double, both zeros and both infinities encode to the canonical binary REAL contents and decode to the identical double. Every well-formed binary REAL contents whose value is a double decodes to that double.",
["inputs"],"all 2^64 double bit patterns (NaN apart); all well-formed REAL contents octets",
RT+"a handful of REAL values.",
["asn1crt/asn1crt_encoding.c"],[("REAL encode/decode","asn1crt/asn1crt_encoding.c: BitStream_EncodeReal, BitStream_DecodeReal")])
p("P23","C octet and bit string primitives handle every length",
"Octet and bit strings of every permitted size, including sizes that need the fragmented length form, encode to the X.691 bits and decode to the same contents, with size constraints enforced. Truncated or over-long encodings are refused without touching memory outside the target.",
["inputs"],"all size constraints and actual lengths around 0, 127/128, 16K, 32K, 48K, 64K boundaries; all contents and offsets",
RT+"fragmentation occurs in no stable test.",
["asn1crt/asn1crt_encoding.c"],[("string primitives and fragmentation","asn1crt/asn1crt_encoding.c: *OctetString*, *BitString*")])
p("P24","C object identifier encoding is X.690 content and round-trips",
"Every valid object identifier and relative object identifier encodes to its X.690 contents octets preceded by their length and decodes to the same arcs. Encodings that are not valid identifiers are refused, and decoding never stores more arcs than the type holds.",
["inputs"],"all arc sequences up to the supported length with arcs up to 64 bits; all byte strings",
RT+"object identifiers occur in no stable test.",
["asn1crt/asn1crt_encoding_uper.c"],[("object identifiers","asn1crt/asn1crt_encoding.c / asn1crt_encoding_uper.c: ObjectIdentifier_*")])
p("P25","C ACN integer encodings write their defined layout and round-trip",
"Each ACN integer encoding (positive, two's complement, BCD, ASCII; fixed, self-delimiting and terminated sizes; 8 to 64 bits; both endiannesses; every integer width of the target variable) writes its defined bits and decodes to the same number for every number it can represent. Decoding refuses input that ends early and values that do not fit the target variable.",
["inputs"],"all encodings, sizes, values and bit offsets; truncated input",
RT+"each ACN encoding with a few values.",
["asn1crt/asn1crt_encoding_acn.c"],[("ACN integers","asn1crt/asn1crt_encoding_acn.c: Acn_Enc_Int_*, Acn_Dec_Int_*")])
p("P26","C ACN real, boolean, pattern and string encodings are exact",
"ACN IEEE 754 reals in both endiannesses and both sizes, booleans and presence patterns, and character strings in each ACN string encoding write their defined bits and decode to the same value for every value. A missing terminator, a wrong determinant or truncated input is refused without touching memory outside the target.",
["inputs"],"all floats and doubles, patterns of any length, strings over any alphabet up to any maximum, terminators of one or more bytes",
RT+"few strings and reals.",
["asn1crt/asn1crt_encoding_acn.c"],[("reals, booleans, strings","asn1crt/asn1crt_encoding_acn.c")])
p("P27","ACN alignment and deferred patching keep neighbouring bits intact",
"Alignment to byte, 16-bit and 32-bit boundaries inserts exactly the missing number of zero bits when encoding and skips exactly these when decoding, from every position. A determinant reserved first and patched later reads back as the patched number and leaves every other bit of the stream unchanged, for every determinant encoding and position.",
["histories","inputs"],"all positions, boundaries, determinant encodings, values and surrounding contents",
"No stable test uses deferred patching; alignment appears at few positions.",
["asn1crt/asn1crt_encoding_acn.c","asn1crt/asn1crt_encoding.c"],[("alignment","asn1crt/asn1crt_encoding_acn.c: Acn_AlignTo*"),("deferred patching","asn1crt/asn1crt_encoding_acn.c: Acn_InitDet*, Acn_PatchDet*")])
p("P28","C runtime decoders are total on arbitrary input",
"Every decoding primitive of the C runtime, given any bytes and any stream position, terminates after work proportional to the input and the requested size, and never reads or writes outside the stream buffer and the caller's target. When the input ends before the item does, the primitive reports failure.",
["inputs","histories"],"all decoding primitives with all byte strings, positions and admissible parameters",
"Stable tests decode well-formed messages only.",
["asn1crt/asn1crt_encoding.c","asn1crt/asn1crt_encoding_uper.c","asn1crt/asn1crt_encoding_acn.c","asn1crt/asn1crt_encoding_ber.c","asn1crt/asn1crt_encoding_xer.c"],[("decoding primitives","asn1crt/*.c")])
p("P29","Streaming mode transports the same bits as whole-buffer mode",
"Encoding through a small cyclic buffer that is pushed to the transport when full delivers, for every buffer size and every sequence of items, the same bytes as encoding into one large buffer. Decoding through a small buffer refilled from the transport yields the same items as decoding from one large buffer.",
["configurations","histories"],"all item sequences, buffer sizes and pushing/fetching callbacks",
"No stable test builds streaming mode.",
["asn1crt/asn1crt_encoding.c"],[("push and fetch at buffer end","asn1crt/asn1crt_encoding.c: bitstream_push_data_if_required, bitstream_fetch_data_if_required")])
p("P30","BER primitives write X.690 encodings and round-trip",
"The BER tag, length, integer, boolean, enumerated, real, string and object primitives write the definite-length X.690 encoding of each value and read it back equal. Malformed, truncated or over-long encodings are refused without touching memory outside the buffer and the target.",
["inputs"],"all tags, lengths and values; all byte strings",
"No stable test exercises BER.",
["asn1crt/asn1crt_encoding_ber.c"],[("BER primitives","asn1crt/asn1crt_encoding_ber.c")])
p("P31","XER primitives write well-formed elements and read them back",
"The XER runtime primitives write elements within the given buffer and read back the same integers, reals, booleans, enumerated names, octet, bit and character strings. Arbitrary text is either decoded or refused, without touching memory outside the buffer and the target.",
["inputs"],"all values and tag names; all byte strings as input documents",
"No stable test exercises XER.",
["asn1crt/asn1crt_encoding_xer.c"],[("XER primitives","asn1crt/asn1crt_encoding_xer.c")])
p("P32","32-bit word builds speak the same wire format as 64-bit builds",
"For every value that fits 32-bit integers (and single-precision reals where configured), a runtime built for 4-byte words writes the same bits as one built for 8-byte words and decodes the same messages to the same values. Values that do not fit are refused when decoding rather than silently truncated.",
["configurations","inputs"],"all primitives, all values representable in both configurations, messages carrying larger values",
"The stable build compiles only the 64-bit configuration.",
["asn1crt/asn1crt.h","asn1crt/asn1crt_encoding.c","asn1crt/asn1crt_encoding_acn.c"],[("word-size conditional code","asn1crt/*.c: WORD_SIZE, FP_WORD_SIZE")])
p("P33","The Ada runtime speaks the same wire format as the C runtime",
"For every primitive both runtimes offer and every value, the Ada runtime writes the same bits as the C runtime and decodes what the C runtime wrote to the same value. On damaged encodings both accept or both refuse, with the same value and the same number of bits consumed. Inside its stated preconditions (which guarantee the buffer space) the Ada runtime raises no exception.",
["inputs"],"all common primitives, parameters, values, bit offsets and damaged encodings",
"The stable tests compile the Ada runtime but never run it.",
["ADA_RTL2/src/adaasn1rtl-encoding.adb","ADA_RTL2/src/adaasn1rtl-encoding-uper.adb","ADA_RTL2/src/adaasn1rtl-encoding-acn.adb"],[("Ada runtime primitives","ADA_RTL2/src")])
p("P35","Scala code generation and runtime interoperate with C",
"For every specification and valid value, the code generated for Scala writes the same bytes as the code generated for C and decodes them to the same value.",
["programs","inputs"],"all accepted specifications and values",
"No stable test executes Scala code.",
["StgScala/uper_scala.stg","StgScala/acn_scala.stg","asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala"],[("Scala templates and runtime","StgScala, asn1scala")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+"\n")
print(len(P))
