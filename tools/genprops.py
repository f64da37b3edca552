import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
BC="src/bool_circuit.rs"; EV="src/evaluator.rs"; BR="src/bristol_converter.rs"; IN="src/circuits/arithmetic/int.rs"; LO="src/circuits/logic/mod.rs"; FP="src/circuits/finite_field/mod.rs"; AR="src/circuits/arithmetic/mod.rs"; CR="src/circuits/cryptography/mod.rs"; UT="src/utils.rs"; GA="src/gates.rs"

p("C01","Evaluation returns exactly the Boolean function the circuit denotes",
"For every circuit built from inputs, constants, NOT, XOR, AND, OR, equivalence and identity, and for every assignment of its inputs, evaluation succeeds and returns one bit per declared output, in declaration order, each equal to the value the gate graph denotes. This holds however gates are shared, whatever gates are never used, and whichever gates are declared as outputs (inputs, constants, inner gates another output depends on, or the same gate several times).",
["programs","inputs"],"all gate-building programs and output lists, all input assignments",
"The tests evaluate a handful of one- to three-gate circuits with one output each; fan-out, several outputs, outputs that feed other outputs, dead gates and constants are never combined.",
[EV,BC],[("demand-driven evaluation with reference-counted release of evaluated bits","src/evaluator.rs eval_single_gate"),("dependence lists","src/bool_circuit.rs add_dependence")],
[("evaled bits","values still held","src/evaluator.rs evaled_map"),("remaining uses","uses left before a bit is released","src/evaluator.rs num_depend_map")],["NXAOBoolEvaluator::eval_output"])
p("C02","A module call behaves as an inlined copy of the module",
"Evaluating a circuit that calls modules gives, on every input, the same outputs as the circuit with each call replaced by a copy of the module's gates wired to the call's arguments in order, output i of the call being the module's output i. This holds for any nesting, any number of calls of one module, repeated or shared arguments, modules with several outputs of which only some are used, modules whose outputs are their own inputs, constants or repeated gates, and modules extended after the call.",
["programs","inputs"],"all module libraries and call patterns, all input assignments",
"The only module test makes one call of one two-input, one-output module; multiple outputs, nesting, repeated calls and pass-through outputs are never evaluated against an independent expectation.",
[EV,BC],[("module arm of the evaluator","src/evaluator.rs eval_single_gate"),("call construction","src/bool_circuit.rs module")],
[("module storage","modules shared by a circuit family","src/bool_circuit.rs ModuleStorage")],["NXAOBoolEvaluator::eval_output","BoolCircuitRef::module"])
p("C03","Evaluation is repeatable, has no side effect, and survives extension",
"Evaluating never changes the circuit, and evaluating the same inputs again, with the same or another evaluator and whatever was evaluated in between, gives the same result. Through a shared handle an evaluator sees every gate and output added since, and adding gates, calls, constants or outputs never changes the value of an output declared earlier; changing a value copy of a circuit never changes the original, nor the other way round.",
["histories","inputs"],"all interleavings of building, copying and evaluating operations, all inputs",
"Each test builds once and evaluates a few assignments; no test extends, copies or re-evaluates a circuit after an evaluation and compares.",
[EV,BC],[("per-call evaluation state","src/evaluator.rs eval_output"),("shared handle","src/bool_circuit.rs BoolCircuitRef")],None,["NXAOBoolEvaluator::eval_output","NXAOBoolCircuit::clone"])
p("C04","Reported sizes are those of the flattened circuit",
"After any sequence of building operations the reported number of inputs and outputs is the number declared, and the reported numbers of gates, constants and wires are those of the circuit with every module call replaced by a copy of the module as it was when called: each NOT, XOR, AND, OR is one gate, a call adds the module's gates and constants, and wires are the inputs plus the constants plus the gates. No valid building operation panics on the way.",
["programs"],"all building programs including nested and repeated module calls",
"Tests assert only input and output counts of single-gate circuits; gate, wire and constant counts and calls are never checked.",
[BC],[("counter updates","src/bool_circuit.rs add_gate, constant, not, xor, and, or, module")],
[("num_wire, num_gate, num_const","flattened size counters","src/bool_circuit.rs NXAOBoolCircuit")],["input_len, output_len, num_gate, num_const, num_wire"])
p("C05","Circuit queries report exactly what was built",
"Every building operation returns an identifier that was not in use in that circuit; asking for it returns the kind of gate and the operands (and constant value) it was built with, which name their operation and count their operands and outputs rightly, input wire i is the i-th declared input, output wire i is the gate declared i-th, the constants listed are exactly those declared, in order, and the dependents of a gate are exactly the gates that read it (once per operand position for NOT, XOR, AND, OR). Later operations never change these answers, and unknown gates, inputs and outputs are reported as errors.",
["programs","histories"],"all building programs; queries after every step",
"No test queries gates, wires, constants or dependents at all.",
[BC,GA],[("gate map and dependence map","src/bool_circuit.rs")],[("gate_map, input_map, output_map, const_gates, gate_dependence_map","the circuit graph","src/bool_circuit.rs NXAOBoolCircuit")],["get_gate, input_to_gate_id, output_to_gate_id, get_const_gates, get_depended_gates"])
p("C06","Module registration is stable and shared correctly",
"Every registration (directly, through a circuit, or by creating a sub-circuit) yields an identifier that was not in use in that storage, and looking it up, from any circuit sharing the storage, always returns the very circuit that was registered under it (not a copy: what is built on it through any handle is seen through all), whatever is registered later; the module count is the number of registrations, separate storages never affect each other, and an unknown module is reported as an error.",
["histories"],"all sequences of registrations, sub-circuit creations and lookups over several storages and circuits, and of building through any handle of a module",
"Tests register at most one module in one storage and never look one up.",
[BC],[("ModuleStorage","src/bool_circuit.rs register_module, get_module, sub_circuit")],[("module_map, num_module","registered modules","src/bool_circuit.rs ModuleStorage")],["register_module, sub_circuit, get_module, num_module"])
p("C07","Circuits that compare equal compute the same function",
"If two circuits compare equal then they have the same numbers of inputs and outputs and the same outputs on every input, also when they call modules held in different storages. A circuit compares equal to itself, to a copy of itself and to a circuit built by the same sequence of operations from an empty module storage; comparison is symmetric.",
["programs","inputs"],"all pairs of building programs, including pairs that differ only inside a module",
"Tests use equality only as the oracle of four single-gate round trips; unequal circuits and circuits with modules are never compared.",
[BC],[("PartialEq for NXAOBoolCircuit","src/bool_circuit.rs")],None,["==", "!="])
p("C08","An exported Bristol file is well formed",
"For every circuit, exporting succeeds and the text is a well-formed Bristol Fashion file: the header states the exact numbers of gates and wires, two input groups whose sizes are the requested first-group size and the rest, inputs and constants together, and one output group of the circuit's outputs; every gate line has the right arity and reads only wires defined before it, every wire from 0 up is defined exactly once, and the outputs are the last wires. The returned constant values are exactly as many as the inputs the file has beyond the circuit's own. All this holds again for the text the same writer produces when it writes once more.",
["programs","histories"],"all circuits (dead gates, constants, modules, also modules extended after a call, any output list), all first-group sizes, repeated use of a writer",
"The writer tests export one gate or one module call and only compare the re-read circuit or check that reading succeeds.",
[BR],[("writer","src/bristol_converter.rs BristolNXAOWriter::write, write_all_gates, update_wire")],[("num_wire, last_const_wire","next free wire numbers","src/bristol_converter.rs BristolNXAOWriter")],["BristolNXAOWriter::write"])
p("C09","An exported Bristol file computes the circuit it was made from",
"For every circuit and every input assignment, interpreting the exported text by the Bristol Fashion rules on the circuit's inputs followed by the returned constant values gives the circuit's outputs in order. This holds with modules, constants, dead gates and any output list, for every first-group size, and again when the same writer writes once more.",
["programs","inputs","histories"],"all circuits, all inputs, repeated use of a writer",
"Five writer tests cover single gates without constants, and none interprets the file independently of the reader.",
[BR,BC],[("wire assignment of gates, constants and inlined modules","src/bristol_converter.rs write_single_gate")],None,["BristolNXAOWriter::write"])
p("C10","Importing a Bristol file yields the circuit the file denotes",
"For every well-formed Bristol Fashion text over INV, XOR, AND, OR, EQ (assign the literal 0 or 1) and EQW (copy a wire), importing succeeds and the circuit read has as many inputs and outputs as the file's groups add up to, in file order, and computes on every input what the file denotes. This holds for any number and sizes of groups, any legal wire numbering and gate order, unused gates, outputs that are input wires, any amount of spacing, CRLF or LF line ends, and with or without a final line end or trailing blank lines.",
["inputs","programs"],"all well-formed texts, all input assignments",
"Tests read writer output for four single gates and three shipped files with commutativity-style checks only; EQ, OR groups, wire orders and spacing are never checked against an independent meaning.",
[BR],[("reader","src/bristol_converter.rs BristolReader::read")],[("gate_of_wire","gate defined for each wire","src/bristol_converter.rs BristolReader")],["BristolReader::read"])
p("C11","Malformed and truncated Bristol files are rejected, never misread",
"Importing any text terminates without a panic. A text that uses an undefined wire, leaves an output wire undefined, lacks a header line or a number, has a gate line with missing fields, an unknown operation or the wrong number of operands for its operation, or whose header has more outputs than wires is reported as an error; in particular a proper prefix of a well-formed file is reported as an error, or imported as the same function as the whole file, unless the prefix is itself a complete well-formed file or the cut shortens an EQW operation to EQ.",
["inputs","crash_points"],"all truncation points and all small edits of well-formed files",
"No test feeds the reader anything but a complete, well-formed file.",
[BR],[("error returns of the reader","src/bristol_converter.rs BristolReader::read")],None,["BristolReader::read"])
p("C12","Import and export are faithful over imperfect I/O and object reuse",
"The circuit imported does not depend on how the source hands out its bytes (short reads, interrupted reads) nor on what the same reader object read before, successfully or not; importing into a circuit that already has gates appends to it without changing its existing outputs. An I/O error met while importing or exporting is returned as an error, and what a sink accepted before an export failed is a prefix of the text a good sink receives.",
["fault_sequences","histories"],"all read/write fragmentations and single faults at every call, all sequences of reads with one reader",
"Tests use in-memory buffers that never fail or fragment, and a fresh reader and circuit each time.",
[BR],[("line iteration and error propagation","src/bristol_converter.rs read"),("write_all on the BufWriter","src/bristol_converter.rs write, update_wire")],[("gate_of_wire","survives between reads","src/bristol_converter.rs BristolReader")],["BristolReader::read","BristolNXAOWriter::write"])
p("C13","Export followed by import preserves the function, and is stable",
"For every circuit, reading back its exported text into an empty circuit succeeds and gives a circuit that, on the original inputs followed by the returned constants, computes the same outputs; exporting and importing that circuit again changes nothing further in what it computes. This includes circuits produced by the integer, bit-vector and field builders.",
["programs","inputs"],"all circuits, including builder-produced ones with nested modules",
"Round trips are tested for four single-gate circuits; for modules only that reading returns Ok.",
[BR,BC,IN,LO,FP],[("writer and reader agreeing on wire order","src/bristol_converter.rs")],None,["BristolNXAOWriter::write","BristolReader::read"])
p("C14","Integer add, subtract, negate and multiply are exact modulo 2^N",
"For every width N of at least 1 and all operand values, integer addition, subtraction, negation and multiplication circuits output the result modulo 2^N, least significant bit first, both as operators and as compound assignments; the extending multiplier outputs the full 2N-bit unsigned product.",
["inputs","configurations"],"all widths, all operand pairs",
"One 256-bit distributivity check on a random sample; a wrong carry, sign or width case that preserves it, or that needs particular operands, passes.",
[IN],[("ripple adder, two's complement subtractor, shift-and-add multiplier","src/circuits/arithmetic/int.rs build_*_circuit")],None,["AllocInt operators","build_mul_extend_circuit"])
p("C15","Integer comparisons agree with two's complement order for all operands",
"For every width N and all pairs of N-bit two's complement integers, the equal, not-equal, less, less-or-equal, larger and larger-or-equal circuits output exactly the corresponding comparison, including operands of opposite sign whose difference does not fit in N bits.",
["inputs","configurations"],"all widths, all operand pairs",
"Tests compare a random value with its successor or predecessor only.",
[IN,LO],[("comparison circuits","src/circuits/arithmetic/int.rs build_less_circuit ... build_larger_or_eq_circuit"),("equality circuit","src/circuits/logic/mod.rs build_eq_circuit")],None,["AllocInt::eq, neq, less, less_or_eq, larger, larger_or_eq"])
p("C16","Integer constants, conversions and shifts are exact",
"For every width N: an integer constant made from any value below 2^N, zero, one, or fewer than N gate bits has exactly that value (zero-extended); declaring the integer as output yields its N bits least significant first; shifting left by any amount multiplies by that power of two modulo 2^N, and shifting right by any amount is the arithmetic (sign-extending) shift. Results of shifts are N-bit integers usable in further operations.",
["inputs","configurations"],"all widths, values and shift amounts",
"Only the constant one is exercised, indirectly; shifts and value constants are not tested.",
[IN],[("constructors and shifts","src/circuits/arithmetic/int.rs from_biguint, from_gate_ids, zero, one, shift_left, shift_right")],None,["AllocInt constructors, output, shift_left, shift_right"])
p("C17","Bit-vector operations act bitwise, and mux selects",
"For every width N and all operand values, NOT, AND, OR, XOR (operators and compound assignments) act on each bit position independently, equality and inequality report whether all bits agree, bit vectors made from fewer than N gates are padded with zeros at the end, and the multiplexer returns the receiver when the select bit is 0 and the argument when it is 1.",
["inputs","configurations"],"all widths, all operand values",
"Each operator is tested on one random 256-bit pair; assignments, equality, padding and mux are not tested.",
[LO],[("bitwise modules, mux","src/circuits/logic/mod.rs")],None,["AllocBits operators, eq, neq, mux, from_gate_ids"])
p("C18","Field addition, subtraction and negation are exact modulo p",
"For every odd modulus p, width N with room for a sign bit and a carry (4p at most 2^N), and all canonical elements a, b below p, field addition, subtraction and negation (operators and assignments) output the canonical representative of the result below p, so that equality of elements is equality of outputs; zero and one are 0 and 1.",
["inputs","configurations"],"all moduli in range, all pairs of elements",
"The field test checks two distributivity equations on random values that also hold when every product is 0, and never checks a sum or difference by itself.",
[FP,IN],[("conditional correction by p","src/circuits/finite_field/mod.rs build_add_circuit, build_sub_circuit")],None,["AllocFp Add, Sub, Neg, zero, one, eq, neq"])
p("C19","Field multiplication is exact modulo p",
"For every odd modulus p below 2^r, width N of at least 2r+2 and all canonical elements a, b below p, field multiplication (operator and assignment) outputs the canonical representative of a*b modulo p. The published constant r2 is 2^(2r) modulo p.",
["inputs","configurations"],"all odd moduli in range, all pairs of elements",
"The field test only checks distributivity, which the all-zero product satisfies.",
[FP,UT],[("product of two Montgomery reductions","src/circuits/finite_field/mod.rs build_mul_circuit")],None,["AllocFp Mul","AllocFpConfig.r2"])
p("C20","The shipped 64-bit arithmetic circuits compute 64-bit arithmetic",
"With words least significant bit first, the shipped 64-bit circuits compute: addition and subtraction modulo 2^64, two's complement negation, the full 128-bit unsigned product delivered as high word then low word, and the quotient of unsigned division and of signed division truncated toward zero, for every dividend and non-zero divisor.",
["inputs"],"all pairs of 64-bit operands",
"The tests check commutativity and double negation on inputs that are all-zeros or all-ones; subtraction and both divisions are never run.",
[AR,"src/circuits/arithmetic/adder64.txt","src/circuits/arithmetic/sub64.txt","src/circuits/arithmetic/neg64.txt","src/circuits/arithmetic/mult2_64.txt","src/circuits/arithmetic/divide64.txt","src/circuits/arithmetic/udivide64.txt",BR],[("shipped netlists and their loaders","src/circuits/arithmetic/mod.rs")],None,["build_adder64, build_sub64, build_neg64, build_mult2_64, build_divide_unsigned_64, build_divide_signed_64"])
p("C21","The shipped AES-128 circuit computes AES-128 encryption",
"For every plaintext block and every key, the shipped AES circuit, given the plaintext bits and then the key bits (most significant bit of each byte first), outputs the AES-128 encryption of the block in the same bit order.",
["inputs"],"all plaintexts and keys",
"The AES test only checks that evaluation returns Ok for an all-zeros or all-ones input.",
[CR,"src/circuits/cryptography/AES-non-expanded.txt",BR],[("shipped netlist and loader","src/circuits/cryptography/mod.rs")],None,["build_aes128"])
p("C22","Bit, byte and hex conversions are mutually inverse and ordered as named",
"Bytes to bits gives eight bits per byte, byte order kept, least significant bit first in the little-endian form and most significant first in the big-endian form; bits to bytes is its exact inverse on every bit string whose length is a multiple of eight. Bytes to hex gives two lower-case digits per byte and hex to bytes inverts it, accepts upper case, and rejects odd lengths and non-hex characters with an error.",
["inputs"],"all byte strings, bit strings and hex strings",
"Tests round-trip one random four-byte value, which cannot see a consistently wrong order.",
[UT],[("conversion functions","src/utils.rs")],None,["bits2bytes_le/be, bytes2bits_le/be, bytes2hex, hex2bytes"])
p("C23","The extended gcd satisfies Bezout's identity",
"For all integers a and b of either sign, of every size up to the thousands of bits the call stack has room for, the extended gcd terminates with (x, y, d) such that a*x + b*y = d and d is, up to sign, the greatest common divisor of a and b; for non-negative operands d is non-negative.",
["inputs"],"all pairs of integers",
"One pair of positive operands is tested.",
[UT],[("recursive Euclid","src/utils.rs ext_gcd")],None,["ext_gcd"])
p("C24","Builder operations compose: any expression computes its value",
"Any expression or sequence of statements over integers, bit vectors or field sums built in one circuit (operators, compound assignments, shifts, constants, comparison results reused as bits, one value used several times or as both operands, several configurations in one circuit) computes, on every input, the value obtained by applying the operations' meanings in order. An operation leaves its operands unchanged and other values already built keep their meaning.",
["programs","inputs"],"all straight-line programs over the builders, all inputs",
"Tests build one fixed expression each and check an algebraic identity on a random input.",
[IN,LO,FP,EV,BC],[("operator implementations calling shared modules","src/circuits/arithmetic/int.rs, src/circuits/logic/mod.rs, src/circuits/finite_field/mod.rs")],None,["AllocInt, AllocBits, AllocFp operators"])
p("C25","Misuse of circuits is reported as an error, never as a value",
"Evaluating with a number of inputs different from the circuit's, or calling a module with a number of arguments different from its inputs, is reported as an error; building a gate, output or call on a gate identifier the circuit does not have, or calling an unknown module, is reported as an error and leaves the circuit's sizes, queries and outputs as they were. None of these panics, loops, or yields an output value.",
["inputs","histories"],"all wrong lengths and unknown identifiers at every point of building programs",
"No test makes an invalid call.",
[EV,BC],[("length and existence checks","src/evaluator.rs eval_output, src/bool_circuit.rs output, module, not, xor, and, or")],None,["eval_output, not, xor, and, or, output, module"])
p("C26","Montgomery reduction is exact",
"For every odd modulus p of at least 3 below 2^r and width N of at least 2r+2, the field configuration's Montgomery reduction circuit maps every v below p*2^r to the canonical representative of v * 2^(-r) modulo p, and its published constant p_minus_inv satisfies p * p_minus_inv = -1 modulo 2^r with 0 < p_minus_inv < 2^r.",
["inputs","configurations"],"all odd moduli in range, all arguments of the reduction",
"The reduction is never run by itself, and every use of it in the tests is multiplied by zero.",
[FP,UT],[("Montgomery reduction","src/circuits/finite_field/mod.rs build_mont_red"),("modular inverse","src/circuits/finite_field/mod.rs mod_inv"),("extended gcd","src/utils.rs ext_gcd")],None,["AllocFpConfig.mont_red_mid","AllocFpConfig.p_minus_inv"])
p("C27","The wire map an export fills names the wire carrying each gate",
"When an export is given an empty wire map to fill, the map afterwards contains every input and declared constant of the circuit and every gate the outputs depend on (outputs of module calls included, gates inside modules not), and every entry names a gate of the circuit and a wire of the exported text that carries that gate's value on every input assignment; input i is wire i. This holds with modules, constants, dead gates and any output list, for every first-group size, and again when the same writer writes once more into another empty map.",
["programs","inputs","histories"],"all circuits, all inputs, all first-group sizes, repeated use of a writer",
"Every writer test passes no map.",
[BR],[("wire assignment","src/bristol_converter.rs update_wire, write_single_gate, write_all_gates")],[("wire_of_gate","wire of every gate written","src/bristol_converter.rs BristolNXAOWriter::write")],["BristolNXAOWriter::write"])
p("C28","An error names what was wrong",
"An error about building on, looking up or evaluating something the circuit does not have names, in its variant and its message, the unknown gate, module, input or output by its own identifier, or the given and the expected number of input values; a call with a wrong number of arguments is reported as an invalid call. Importing faulty text names the wire that is undefined where it is used, the operation word that is not supported, or the number of the missing header line (1 to 3), and an error of the source or the sink is passed on with its kind and message. With several faults, one of them is named.",
["inputs","histories","faults"],"all unknown identifiers and wrong lengths at every point of building programs, all single faults of Bristol texts, all failing reads and writes",
"No test looks at an error.",
[BC,EV,BR],[("error variants and their payloads","src/bool_circuit.rs BoolCircuitError, src/evaluator.rs EvalError, src/bristol_converter.rs BristolError")],None,["not, xor, and, or, output, module, get_gate, eval_output, BristolReader::read, BristolNXAOWriter::write"])
p("C29","Exporting and importing are reproducible and leave the circuit as it was",
"For every circuit, every further export gives the same text byte for byte, the same constant values and the same wire map: by the same or another writer, from a value copy, into any sink, and from a circuit built anew by the same operations over an empty module storage. An export changes nothing that the circuit and its module storage report: sizes, queries, the number of modules and evaluation are as before. Importing a text twice into empty circuits gives circuits that report the same.",
["programs","histories"],"all circuits (hand built, from the builders and shipped), all first-group sizes, repeated exports and rebuilds",
"No test exports or imports anything twice, and hash maps hide an order that varies from run to run.",
[BR,BC,AR,LO,FP],[("writer order of traversal","src/bristol_converter.rs write_all_gates"),("hash maps keyed by identifiers, never iterated","src/bristol_converter.rs, src/bool_circuit.rs")],None,["BristolNXAOWriter::write","BristolReader::read"])
p("C30","Values that do not fit or name unknown gates are rejected by the builders",
"Making an integer, bit vector or field element from more gate bits than its width, or an integer or field constant from a value of 2^N or more, is rejected (by an error or a panic), never shortened. So is computing with, comparing, selecting between or declaring as output values one of whose bits is a gate identifier the circuit does not have.",
["inputs","configurations"],"all widths, all excess bits and values, all operations with an unknown gate at any position of any operand",
"No test gives a builder a value that it should refuse.",
[IN,LO,FP,BC],[("length checks","src/circuits/arithmetic/int.rs from_gate_ids, from_biguint; src/circuits/logic/mod.rs from_gate_ids"),("existence checks","src/bool_circuit.rs output, module, not, and")],None,["AllocInt, AllocBits, AllocFp constructors, operators and output"])
p("C31","Exports and imports do not blow a circuit up",
"The text exported for a circuit has at most one line for each NOT, XOR, AND and OR gate its outputs depend on, however gates and calls are shared (a call counting as one copy of the gates its module's outputs depend on), at most one further copying line per output, and takes no more constants than the circuit and its calls have. This holds again for a second export by the same writer. Importing a well-formed text builds at most one gate per INV, XOR, AND and OR line, two per EQW line and one constant per EQ line.",
["programs","inputs"],"all circuits (hand built, from the builders and shipped), all files, all first-group sizes",
"Sharing matters in combination: what is written or built twice is still right, only larger, and no test counts lines of anything but a few gates.",
[BR,BC],[("gates already written are looked up first","src/bristol_converter.rs write_single_gate, write_all_gates"),("one call, all its outputs","src/bristol_converter.rs write_single_gate")],None,["BristolNXAOWriter::write","BristolReader::read"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P),max(len(x['title']) for x in P))
