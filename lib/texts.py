"""The properties as written down; `python3 lib/texts.py` writes properties.jsonl and MANIFEST.json."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from props import PROPS, BOUNDS, DEFAULT_BOUND

D = "src/definitions/"
DEC = "src/decoding/"

# id, title, statement, over, quantifier text, why tests cannot settle it, files, mechanisms (name, where)
P = []


def p(i, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append((i, title, statement, over, text, why, files, mech))


p("C01", "Production decoding reads every field of every 64-bit word",
  "Decoding never fails for any 64-bit word and yields: bits 0-10 the opcode number, bits 13-15 the condition, bits 16-19/20-23/24-27/28-31 the registers src0/src1/dst0/dst1, bits 32-47 and 48-63 the two immediates; bits 11-12 influence nothing. "
  "The decoded instruction is the one the opcode number stands for in the current numbering (the invalid instruction for numbers the numbering does not list). "
  "The full and the partial decoding entry points report the same instruction, condition and number, whatever was decoded before.",
  ["inputs"], "every 64-bit word, after any other decoding",
  "The tests decode a handful of words; 2^64 words, each field against each other, are out of their reach.",
  [DEC + "encoding_mode_production.rs", DEC + "mod.rs", "src/lib.rs"],
  [("field extraction", DEC + "encoding_mode_production.rs"), ("opcode table", "src/lib.rs")])
p("C02", "Production encoding is in place, lossless and big-endian as bytes",
  "Encoding any instruction of the current numbering gives the 64-bit word with exactly its number, condition, four registers and two immediates in their places and all other bits zero, so that decoding it returns the same instruction with every field intact. "
  "Encoding what a word decoded to returns that word without its unused bits (and with opcode number 0 if its number is unlisted). "
  "The byte form is the word's eight bytes, most significant first, and serialising through the instruction gives the same word and bytes.",
  ["inputs"], "every listed instruction with every condition, register (0-15) and immediate; every 64-bit word",
  "Round trips are tested for a few instructions with a few field values; a lost or swapped bit for one combination goes unseen.",
  [DEC + "encoding_mode_production.rs", "src/opcode.rs"],
  [("encoder", DEC + "encoding_mode_production.rs"), ("serialisation helpers", "src/opcode.rs"), ("variant to number map", "src/lib.rs")])
p("C03", "Testing-mode decoding reads every field of every 128-bit word",
  "Decoding never fails for any 128-bit word and yields the same opcode number, condition and register fields from bits 0-31 as production mode does, and the two 32-bit immediates from bits 32-63 and 64-95; bits 11-12 and 96-127 influence nothing. "
  "The decoded instruction is the one the opcode number stands for in the current numbering (the invalid instruction for unlisted numbers). "
  "The full and the partial decoding entry points report the same instruction, condition and number, whatever was decoded before.",
  ["inputs"], "every 128-bit word, after any other decoding",
  "No test decodes a word in this mode beyond a round trip of single instructions.",
  [DEC + "encoding_mode_testing.rs", DEC + "mod.rs"],
  [("field extraction", DEC + "encoding_mode_testing.rs")])
p("C04", "Testing-mode encoding is in place, lossless and big-endian as bytes",
  "Encoding any instruction of the current numbering gives the 128-bit word with exactly its number, condition, four registers and two 32-bit immediates in their places and all other bits zero, so that decoding it returns the same instruction with every field intact. "
  "Encoding what a word decoded to returns that word without its unused bits (and with opcode number 0 if its number is unlisted). "
  "The byte form is the word's sixteen bytes, most significant first, and serialising through the instruction gives the same word and bytes.",
  ["inputs"], "every listed instruction with every condition, register (0-15) and immediate; every 128-bit word",
  "Existing round trips cover a few instructions and small immediates only.",
  [DEC + "encoding_mode_testing.rs", "src/opcode.rs"],
  [("encoder", DEC + "encoding_mode_testing.rs"), ("serialisation helpers", "src/opcode.rs")])
p("C05", "A word is canonical exactly when all its unused bits are zero",
  "In both modes a word is reported canonical if and only if none of its unused bits is set: bits 11-12, and in testing mode also bits 96-127. "
  "Whatever the encoder produces is canonical, and two canonical words with listed numbers decode alike only if they are equal.",
  ["inputs"], "every 64-bit and 128-bit word, every pair of them, and every encodable instruction",
  "Canonicality is not tested at all; it quantifies over all words and pairs of words.",
  [DEC + "encoding_mode_production.rs", DEC + "encoding_mode_testing.rs"],
  [("unused bit masks", DEC + "encoding_mode_production.rs"), ("unused bit masks", DEC + "encoding_mode_testing.rs")])
p("C06", "Fetching at any pc returns the pc-th instruction of the code page",
  "Splitting any program counter gives the index of the 32-byte code word and the position inside it, with word index times instructions per word (4 in production, 2 in testing mode) plus position equal to the program counter. "
  "Selecting a position from any 256-bit code word gives the instruction at that position counted from the most significant end, so the instructions of a page, written as big-endian bytes one after the other, come back in order.",
  ["inputs"], "every program counter, every 256-bit code word, every page of three code words with every pc in it",
  "No test fetches from a code page; the ordering of limbs and positions has to hold for every word and position.",
  [DEC + "encoding_mode_production.rs", DEC + "encoding_mode_testing.rs", DEC + "mod.rs"],
  [("pc split and limb selection", DEC + "encoding_mode_production.rs"), ("pc split and limb selection", DEC + "encoding_mode_testing.rs")])
p("C07", "The numbering of instructions is fixed, dense and injective",
  "Under the current instruction set version the 1093 numbers 0-1092 stand, in the published order (instruction family, sub-variant, source mode, destination mode, flags), for 1093 different instructions, and every other number up to 2047 stands for the invalid instruction. "
  "Number 0 is the invalid instruction. "
  "Building the numbering anew for any version at or above the current one, or for a larger table, gives the same list, only padded with more invalid rows; a table too small for it is refused.",
  ["inputs", "configurations"], "every opcode number and pair of numbers; table widths of 11 to 13 bits; every version number",
  "The tests build the table and print it; a reordering that keeps its length passes all of them.",
  [D + "mod.rs", "src/lib.rs", "src/imm_mem_modifiers.rs"] + [D + x for x in ("opcode_trait.rs", "all.rs", "uma.rs", "log.rs", "context.rs")],
  [("table synthesis", D + "mod.rs"), ("addressing mode lists", "src/imm_mem_modifiers.rs")])
p("C08", "A newer instruction set version never renumbers or changes older ones",
  "Every number listed by version 0 (0-1084) stands under version 1 for the same instruction with the same flags, destination, price and circuit property bits, its source at most widened from a register to a register-or-immediate in register form; version 1 only appends the immediate forms of the four heap accesses. "
  "The version 0 list is the same whether built by the current or the legacy procedure. "
  "The versions compatible with a given one are exactly those not above it, in order.",
  ["inputs", "configurations"], "every opcode number under both versions; every version number",
  "One test compares the two version lists with the crate's own notion of equality; prices, property bits and the order of numbers are not compared.",
  [D + "mod.rs", D + "opcode_trait.rs", D + "uma.rs"],
  [("merging of newly added variants", D + "mod.rs"), ("version list", D + "opcode_trait.rs")])
p("C09", "Instruction-to-number lookup is total, exact and inverse to the table",
  "An instruction (family, sub-variant, operand kinds, flags) has a number if and only if the instruction set lists it; both lookup maps then give the same number, and the table maps that number back to the same instruction. "
  "Every row of the table is found, under its own number, or under 0 if the row is invalid. "
  "Encoding an instruction that is not listed is refused instead of producing a word.",
  ["inputs"], "every combination of family, sub-variant, operand kinds and flags; every opcode number; both modes",
  "The tests look up a few instructions; absence for all unlisted combinations and agreement of the maps are untested.",
  ["src/lib.rs", D + "mod.rs", DEC + "encoding_mode_production.rs", DEC + "encoding_mode_testing.rs"],
  [("lookup maps", "src/lib.rs"), ("equality and hashing of instructions", D + "mod.rs")])
p("C10", "Circuit property bits describe exactly the instruction of the number",
  "For every opcode number and version the property mask has, in order, one-hot groups for family (16 bits), sub-variant (10), the two flags as they are, one-hot source mode (6) and destination mode (4), zero up to bit 47, then kernel-mode requirement, static-call permission and explicit-panic bits at 48-50, and nothing above. "
  "The groups agree with what the instruction itself reports, and two numbers have equal masks only if they stand for the same instruction. "
  "The published group widths, the total widths and the NOP and panic masks agree with this layout.",
  ["inputs", "configurations"], "every opcode number and pair of numbers, both versions",
  "The tests synthesise the masks and print them.",
  [D + "mod.rs", "src/lib.rs", "src/utils.rs"],
  [("bit decomposition", D + "mod.rs"), ("width constants", "src/lib.rs")])
p("C11", "Kernel-only and static-forbidden instructions are exactly the specified ones",
  "Kernel mode is required exactly by mimic call, event, L1 message, precompile call, and setting the context value, the ergs per pubdata byte and the transaction number. "
  "Static calls forbid exactly storage write, event, L1 message and those three context-changing instructions. "
  "The instruction, its family, its sub-variant, the decoded word and the circuit's property bits all give the same answers, whatever the operands, flags and registers.",
  ["inputs"], "every instruction with every operand kind and flags; every 64-bit word",
  "No test queries a privilege; a missing privilege bit on one sub-variant is a security hole none of them sees.",
  [D + x for x in ("opcode_trait.rs", "all.rs", "context.rs", "far_call.rs", "log.rs", "mod.rs")],
  [("per-family privilege functions", D + "context.rs"), ("per-family privilege functions", D + "log.rs"), ("per-family privilege functions", D + "far_call.rs"), ("dispatch", D + "all.rs")])
p("C12", "Invalid opcode numbers decode to the instruction that burns everything",
  "In both modes a word decodes to the invalid instruction if and only if its opcode number is 0 or not listed; that instruction is the only explicit panic, costs the maximal 32-bit price, needs no kernel mode, is allowed in static calls and has register operands and no flags. "
  "All its numbers share one set of property bits and one price, and encoding it gives opcode number 0.",
  ["inputs"], "every 64-bit and 128-bit word, every opcode number",
  "Unlisted numbers are never decoded by a test.",
  ["src/lib.rs", D + "mod.rs", D + "invalid_opcode.rs"],
  [("padding of the table", D + "mod.rs"), ("invalid instruction", D + "invalid_opcode.rs")])
p("C13", "Every instruction has its specified price, the same wherever it is read",
  "The price of every opcode number is the specified one of its sub-variant, independent of operands, flags and version, and the price list, the instruction, its family and its sub-variant agree on it. "
  "Addressable arithmetic costs two memory accesses more than a cycle; the remaining prices are the published sums of a cycle or memory access price with their circuits' and I/O prices. "
  "The named prices the VM charges in addition have their published values.",
  ["inputs"], "every opcode number; every instruction with every operand kind and flags",
  "One test prints prices; none compares any with a specification or across the places they are read.",
  ["src/lib.rs", "src/circuit_prices.rs", "src/system_params.rs"] + [D + x for x in ("log.rs", "uma.rs", "far_call.rs", "context.rs", "opcode_trait.rs", "all.rs")],
  [("price list", "src/lib.rs"), ("per-sub-variant prices", D + "log.rs"), ("circuit prices", "src/circuit_prices.rs")])
p("C14", "The price generator reproduces exactly the published circuit prices",
  "Running the price generator writes one file, the circuit price list, made of constants and comments only, and each of its 18 prices is the one the crate publishes. "
  "Each per-unit price is the price of a circuit divided by the circuit's capacity, rounded up; each minimum price is the transaction limit divided by the capacity, rounded up, or 0 where the pubdata limit already suffices.",
  ["inputs", "programs"], "every published price, after running the generator",
  "The generator has no test; drift between it and the committed prices is only visible by running and comparing.",
  ["src/circuit_pricing_generator/main.rs", "src/circuit_prices.rs"],
  [("generator", "src/circuit_pricing_generator/main.rs"), ("published prices", "src/circuit_prices.rs")])
p("C15", "Prices keep every transaction within circuits, stack depth and stipends",
  "No number of operations affordable within the transaction limit overfills a circuit that exists once: at most 512 L1 messages, and initial or repeated writes never beyond their pubdata hashers' capacity given the pubdata limit and their minimum prices; filling any circuit pays at least the price of a circuit, and a unit price one lower would not. "
  "No nesting of near or far calls affordable within the initial ergs reaches the maximal stack depth. "
  "No transfer stipend, with or without value, pays for a storage write.",
  ["inputs", "histories"], "every number of operations of each kind, every nesting depth, every stipend",
  "These are inequalities over all affordable counts; tests never compute them.",
  ["src/circuit_prices.rs", "src/system_params.rs", "src/lib.rs", D + "log.rs"],
  [("minimum prices", "src/system_params.rs"), ("unit prices", "src/circuit_prices.rs")])
p("C16", "Masking always leaves an unconditional NOP or panic, immediates untouched",
  "Whatever instruction is masked into a panic or a NOP, the result is that instruction, unconditional, with register 0 everywhere, no flags, no kernel requirement and static permission, and with both immediates unchanged; without them it encodes as the mode's fixed exception or NOP word. "
  "Those fixed words are the number of the panic-return or register NOP with all other fields zero. "
  "The default instruction is that NOP and encodes as the NOP word.",
  ["inputs"], "every instruction, listed or not, with every field value, in both modes",
  "Tests do not mask; a field forgotten by the mask shows only when that field was set.",
  ["src/opcode.rs", D + "mod.rs", "src/lib.rs", DEC + "encoding_mode_production.rs", DEC + "encoding_mode_testing.rs"],
  [("masks", "src/opcode.rs"), ("fixed words", DEC + "encoding_mode_production.rs"), ("default instruction", D + "mod.rs")])
p("C17", "Results do not depend on what was used or computed first",
  "Whichever of the lazily built tables, constants or entry points is used first, and in whatever order the rest follow, every table entry, mask, price and lookup is the same. "
  "Decoding or encoding a word gives the same result whatever was decoded or encoded before, in the same or in the other mode.",
  ["histories", "inputs"], "every first use (thorough: every ordered pair) of a table or entry point, followed by any lookup; every history of one earlier call (thorough: of two decodings or encodings) with any argument; one long session",
  "Each test process initialises the tables in one order and calls in one order.",
  ["src/lib.rs", DEC + "encoding_mode_production.rs", DEC + "encoding_mode_testing.rs"],
  [("lazy tables", "src/lib.rs")])
p("C18", "Fat pointers pack and unpack without loss and in place",
  "Unpacking any 256-bit value reads offset, memory page, start and length from bits 0-31, 32-63, 64-95 and 96-127 and ignores the rest; packing a pointer writes them there and zero above. "
  "Packing then unpacking gives the pointer back, and unpacking then packing gives the value's lower 128 bits. "
  "The empty pointer is all zero.",
  ["inputs"], "every 256-bit value and every pointer",
  "Pointers are never packed by a test.",
  [D + "abi/fat_pointer.rs"], [("packing", D + "abi/fat_pointer.rs")])
p("C19", "Fat pointer validation reports exactly the bad pointers",
  "Validation reports a non-zero offset exactly when a fresh pointer was expected and the offset is not zero, and reports an out-of-range pointer exactly when start plus length exceeds 32 bits; it reports nothing else and never fails. "
  "A pointer is in bounds exactly if offset < length, is a slice exactly if offset <= length, and trivial exactly if offset and length are zero. "
  "A pointer that validated can, at any in-bounds offset, only address bytes inside its slice and below 2^32.",
  ["inputs"], "every pointer, fresh or not",
  "Boundary and overflow cases of 128 free bits; no test touches them.",
  [D + "abi/fat_pointer.rs"], [("validation", D + "abi/fat_pointer.rs")])
p("C20", "Far call and return ABIs read every field of every register value",
  "From any 256-bit value the far call ABI reads the pointer from the lower 128 bits, ergs from bits 192-223, the forwarding mode from byte 28, the shard from byte 29 and the constructor and system markers as byte 30 and 31 being non-zero; bits 128-191 influence nothing. "
  "The return ABI reads the pointer and the forwarding mode (byte 28) from the same places and nothing else. "
  "Forwarding modes are 0 heap, 1 forwarded pointer, 2 auxiliary heap, and any other byte means heap; the published byte indexes agree.",
  ["inputs"], "every 256-bit value, every mode byte",
  "The ABIs are untested; a wrong byte index or mask shows for few values only.",
  [D + "abi/far_call.rs", D + "abi/ret.rs", D + "abi/fat_pointer.rs"],
  [("far call ABI", D + "abi/far_call.rs"), ("return ABI", D + "abi/ret.rs")])
p("C21", "Near call and precompile ABIs read and write their fields in place",
  "The near call ABI reads its ergs from bits 0-31 only. "
  "The precompile ABIs read input offset, input length, output offset, output length (32 bits each from bit 0), pages to read and to write (bits 128-159, 160-191) and the 64-bit precompile data (bits 192-255). "
  "Packing and unpacking the precompile's inner form is the identity both ways, and the outer form of the same value has the same fields.",
  ["inputs"], "every 256-bit value and every field combination",
  "Untested; 256 free bits.",
  [D + "abi/near_call.rs", D + "abi/precompile_call.rs"],
  [("near call ABI", D + "abi/near_call.rs"), ("precompile ABI", D + "abi/precompile_call.rs")])
p("C22", "VM meta parameters pack each field in place and leave gaps zero",
  "Packing any VM meta parameters gives ergs per pubdata byte in bits 0-31, heap size in bits 64-95, auxiliary heap size in bits 96-127, the current, caller and code shard ids in bytes 28, 29 and 30, and zero everywhere else.",
  ["inputs"], "every combination of field values",
  "Untested; fields may overlap or leak only for large values.",
  [D + "abi/meta.rs"], [("packing", D + "abi/meta.rs")])
p("C23", "Versioned code hashes parse, build and serialise without loss",
  "Any 32 bytes parse as a code hash exactly if the first byte is the version 1; marker (byte 1), big-endian length (bytes 2-3) and digest (bytes 4-31) are then read and written back unchanged, and the stored form differs only in a zero marker. "
  "Building from any digest and length gives an at-rest hash with that length and the digest's last 28 bytes, which serialises and parses back to itself.",
  ["inputs"], "every 32-byte value, every digest, length and marker",
  "Untested; 256 free bits.",
  [D + "versioned_hash/mod.rs"], [("hash layout", D + "versioned_hash/mod.rs")])
p("C24", "A bytecode hash commits to exactly the code's bytes and its length",
  "Hashing bytecode digests exactly the concatenation of its 32-byte words, once, and yields the version, the at-rest marker, the number of words as big-endian 16 bits and the last 28 digest bytes. "
  "Bytecode with an even number of words is refused through every entry point, as is bytecode of more than 65535 words in production mode.",
  ["inputs"], "any bytecode of up to 15 words with any content and digest; longer ones with fixed content at every length up to 600 and at the boundary lengths; refusal for every length up to 70000 words",
  "Untested (the function needs a hash crate the offline build lacks); boundary lengths are where it breaks.",
  ["src/utils.rs", D + "versioned_hash/mod.rs"], [("bytecode hash", "src/utils.rs")])
p("C25", "Conditions and their 3-bit codes correspond one to one",
  "The eight conditions have the codes 0 always, 1 greater, 2 less, 3 equal, 4 greater-or-equal, 5 less-or-equal, 6 not-equal, 7 greater-or-less; turning any condition into its code and back, and any code 0-7 into its condition and back, is the identity. "
  "The list of all conditions has each once, in code order, and any larger number is refused.",
  ["inputs"], "every condition and every integer",
  "Only one condition or two appear in tests.",
  [D + "condition.rs"], [("condition codes", D + "condition.rs")])
p("C26", "Sub-variant indexes, counts and versions agree in every family",
  "In every instruction family an index names a sub-variant exactly if it is below the family's count, index to sub-variant and back is the identity, and the named sub-variant is the specified one. "
  "The largest index, the list of all sub-variants, those available in and those added by a version, and the per-version records with their number of flags are consistent with that, for both versions; every sub-variant exists since version 0. "
  "The family prototypes are listed in the published order under distinct names and materialise exactly their own sub-variants, refusing larger indexes.",
  ["inputs", "configurations"], "all 16 families, every index, both versions",
  "The tests cover only what the table synthesis happens to use.",
  [D + x for x in ("opcode_trait.rs", "all.rs", "mod.rs", "ptr.rs", "context.rs", "log.rs", "uma.rs", "shift.rs", "binop.rs", "ret.rs", "far_call.rs")],
  [("sub-variant traits", D + "opcode_trait.rs"), ("families", D + "all.rs")])
p("C27", "Nibble, program counter and integer byte helpers are exact",
  "Splitting a byte into nibbles and merging nibbles are inverse. "
  "The 16- and 32-bit program counter types clip a 64-bit value to their low bits, widen unsigned, add and subtract modulo their width and have the right maximum. "
  "Integer words turn into big-endian bytes, and the opcode number wrapper returns the number it was given.",
  ["inputs"], "every byte, nibble pair, 64-bit value and pair of operands",
  "Untested wrap-around and truncation cases.",
  ["src/utils.rs", DEC + "mod.rs"], [("helpers", "src/utils.rs"), ("integer traits", DEC + "mod.rs")])
p("C28", "Flags have their documented roles and operands swap only where allowed",
  "Operands are swapped exactly for subtraction, division and shifts with the second flag set and for pointer operations with the first flag set, whatever the operands and other flag; no other instruction ever swaps. "
  "The published flag positions (set flags, swap, far-call static and shard, first message, memory increment, return to label) have their documented values.",
  ["inputs"], "every instruction with every operand kind and flags",
  "No test queries operand order.",
  [D + x for x in ("mod.rs", "far_call.rs", "log.rs", "uma.rs", "ret.rs")], [("swap rule", D + "mod.rs")])
p("C29", "Operand classes match what each instruction reads, writes and lists",
  "Every instruction has the specified number of inputs and outputs under each version; only the first of each may use memory addressing, and it does exactly for arithmetic, logic, pointer and NOP instructions (jump as source only), while heap accesses take a register-or-immediate first input since version 1. "
  "Querying memory use by instruction, family or sub-variant agrees with this and with the operand kinds the numbering lists. "
  "The addressing modes are listed in index order, use memory exactly for the stack and code page modes, and are destinations exactly for register and stack modes.",
  ["inputs", "configurations"], "every instruction with every operand kind and flags, both versions; every opcode number; every addressing mode",
  "Tests print the operands at most.",
  ["src/imm_mem_modifiers.rs"] + [D + x for x in ("opcode_trait.rs", "all.rs", "uma.rs", "context.rs", "jump.rs")],
  [("operand lists", D + "opcode_trait.rs"), ("addressing modes", "src/imm_mem_modifiers.rs")])
p("C30", "Pages, registers and system addresses are disjoint and as published",
  "For any two frames and page kinds the page numbers differ unless frame and kind are the same, and no frame page collides with a bootloader, calldata or unmapped page. "
  "Each of the 15 registers has exactly one role in a far call, and each of the first four exactly one in a return. "
  "The system contract and precompile addresses are the published ones, pairwise distinct, below user space, and their 160-bit forms equal their short ones; the remaining VM start-up and limit constants have their published values.",
  ["inputs"], "every pair of frames (up to 2^28) and page kinds, every register, every pair of addresses",
  "Constants are not tested at all; disjointness quantifies over all frames.",
  ["src/lib.rs", "src/system_params.rs", D + "far_call.rs", D + "ret.rs", D + "abi/mod.rs"],
  [("page numbering", "src/lib.rs"), ("addresses", "src/system_params.rs"), ("register roles", D + "far_call.rs")])
p("C31", "Heap offsets are allowed exactly if the access stays below 2^32",
  "A heap access offset is allowed exactly if reading 32 bytes from it ends within the 32-bit address range, for any 256-bit offset. "
  "The same limit as a 32-bit number is 2^32 - 33, and an offset may be added to or subtracted from a pointer exactly if it fits 32 bits.",
  ["inputs"], "every 256-bit offset",
  "Off-by-one at a 256-bit boundary; untested.",
  [D + "uma.rs", D + "ptr.rs"], [("limits", D + "uma.rs"), ("limits", D + "ptr.rs")])
p("C32", "Values are equal, ordered and hashed by exactly their fields",
  "Two instructions, operands, conditions, versions, pointers, call parameters or versioned hashes are equal exactly when every field is, and equal values hash equally, so that sets and maps keyed by them keep apart what differs and find what is the same. "
  "Where they are ordered, the order is total, antisymmetric and transitive, agrees with equality and with the comparison operators; versions are ordered by number.",
  ["inputs"], "every pair (for transitivity, triple) of values of each type; transitivity of instructions over the listed ones",
  "Tests compare a few equal values; a map key that drops a field works until two keys collide.",
  [D + "mod.rs", D + "all.rs", D + "opcode_trait.rs", D + "abi/fat_pointer.rs", D + "abi/far_call.rs", D + "abi/ret.rs", D + "abi/meta.rs", D + "abi/precompile_call.rs", D + "versioned_hash/mod.rs", D + "condition.rs", "src/imm_mem_modifiers.rs"],
  [("comparisons and hashes", D + "mod.rs"), ("comparisons and hashes", D + "opcode_trait.rs")])
p("C33", "A printed instruction shows every field under its own name",
  "Printing a decoded instruction names its opcode and operand kinds first, then its condition, then src0, src1, dst0 and dst1 as decimal register numbers and the two immediates in hexadecimal, each readable back from under its own label to exactly the field's value. "
  "Different listed instructions print differently, with their two flags in order; unlisted numbers print as the invalid instruction.",
  ["inputs"], "every register and condition, every 16-bit (production) and 32-bit (testing) immediate, every opcode number",
  "Tests print and nobody looks.",
  ["src/opcode.rs", D + "mod.rs"], [("Display", "src/opcode.rs"), ("Display", D + "mod.rs")])

p("C40", "Threads do not notice each other",
  "Whatever two threads do with the crate at the same time - decode, encode, mask, look tables up or make them anew, unpack ABI values, hash bytecode - each gets the results it would get alone. "
  "When they use the lazily built tables and constants for the first time at once, each sees completely built tables with the contents a single thread would see, and neither panics or waits forever.",
  ["schedules", "inputs"], "two threads with arbitrary arguments; every schedule with one preemption (thorough: two)",
  "Test threads race at most a few times and by chance.",
  ["src/lib.rs", "src/system_params.rs", DEC + "encoding_mode_production.rs", DEC + "encoding_mode_testing.rs"], [("lazy initialisation", "src/lib.rs")])

NA = []

TECH = {
    "C40": "symbolic execution of the compiled crate with two threads, its schedules explored by the executor (wasm64 with atomics), with SMT queries (z3)",
    "default": "symbolic execution of the compiled crate (wasm64, own executor) with SMT queries (z3; cvc5 on unknown)",
}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for (i, title, st, over, text, why, files, mech) in P + [x[:8] for x in NA]:
            fh.write(json.dumps({
                "id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bin/check --setup",
        "hooks": {"guard": "none", "enable": "no hooks: the checks use the crate's public interface", "source_commits": []},
        "checks": [],
        "not_applicable": [{"property": x[0], "reason": x[8]} for x in NA],
        "notes": "bin/replay FILE.json runs a reported counterexample through the natively compiled crate.",
    }
    for x in P:
        i = x[0]
        assert i in PROPS, i
        m["checks"].append({
            "property": i,
            "quick_cmd": "bin/check %s --tier quick" % i,
            "thorough_cmd": "bin/check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, TECH["default"]),
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds (%s), on every feasible path, in the checked and the optimised build; trusts rustc's wasm code generation, the executor and the solver, with counterexamples and sampled paths replayed natively." % BOUNDS.get(i, DEFAULT_BOUND),
        })
    assert {c["property"] for c in m["checks"]} == set(PROPS), set(PROPS) ^ {c["property"] for c in m["checks"]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
