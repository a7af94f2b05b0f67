#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "SNES address to cartridge offset mapping",
 "For every 24-bit SNES address and each cartridge mapping, translation fails exactly for banks $7E-$7F, for the lower half ($0000-$7FFF) of banks $00-$3F and $80-$BF, and for every lower-half address under LoROM. "
 "Otherwise it yields the offset the cartridge wiring defines: LoROM bank bits 6-0 followed by address bits 14-0; HiROM bank bits 5-0 followed by address bits 15-0; ExHiROM the same as HiROM with the inverse of bank bit 7 as offset bit 22.",
 ["inputs", "configurations"], "all 2^24 addresses x 3 mappings",
 "No existing test calls the translation at all; a table of samples cannot cover 50 million (address, mapping) pairs.",
 ["nsasm/rom.cc", "nsasm/rom.h", "nsasm/address.h"],
 [("range checks and bit arithmetic per mapping", "nsasm/rom.cc SnesToROMAddress")],
 ["SnesToROMAddress() result"])
prop("C02", "ROM reads return exactly the addressed bytes",
 "Reading n >= 0 bytes at a SNES address from a ROM image either fails or returns exactly n bytes, the i-th being the image byte at the cartridge offset of the address advanced by i with wrap-around inside its bank. "
 "It fails exactly when n is negative or one of those n addresses has no cartridge offset or an offset at or past the end of the image; no access is made outside the image.",
 ["inputs", "configurations"], "all images (any size and content), all mappings, all addresses, all lengths",
 "No test reads from a ROM; bank wrap, unmapped halves and the image end interact over all lengths.",
 ["nsasm/rom.cc", "nsasm/rom.h", "nsasm/address.h"],
 [("fast path for contiguous reads, per-byte loop for wrapping reads", "nsasm/rom.cc Rom::Read")],
 ["Rom::Read() result"], [("data_", "program data of the ROM, header removed", "nsasm/rom.h Rom")])
prop("C03", "Byte, word and long reads are little-endian",
 "For any input source, reading a byte, word or long at an address succeeds exactly when the source can supply 1, 2 or 3 bytes there, and yields those bytes combined least-significant first as an unsigned value. "
 "When the source fails, the same error is handed on.",
 ["inputs"], "all sources, addresses and byte values",
 "The helpers are never called by the existing tests, and a source can return any byte triple or error.",
 ["nsasm/memory.cc", "nsasm/memory.h"], [("weighted sum of the bytes read", "nsasm/memory.cc ReadByte/ReadWord/ReadLong")],
 ["InputSource::ReadByte/ReadWord/ReadLong results"])
prop("C04", "ROM overwriting changes exactly the addressed bytes",
 "Wrapping a loaded ROM as an overwrite target starts from that ROM's data; a successful write of n bytes (at most 65536) at an address replaces exactly the image bytes at the cartridge offsets of the n addresses, wrapping inside the bank, and leaves every other byte and the image size unchanged. "
 "A write touching an unmapped address or one at or past the end of the image reports an error, never succeeds silently, and never touches memory outside the image.",
 ["inputs", "histories", "configurations"], "all images, mappings, addresses, data and sequences of writes",
 "No test constructs an overwriter; the frame (all other bytes unchanged) ranges over the whole image.",
 ["nsasm/rom.cc", "nsasm/rom.h"], [("per-byte translate, bounds check, store", "nsasm/rom.cc RomOverwriter::Write"), ("copy of the ROM data", "nsasm/rom.h RomOverwriter constructor")],
 ["bytes written by RomOverwriter::CreateFile", "RomOverwriter::Write result"], [("data_", "the image being modified", "nsasm/rom.h RomOverwriter")])
prop("C05", "ROM identity sink accepts a write iff it matches the ROM",
 "Writing bytes to the identity-checking sink succeeds exactly when the ROM can supply that many bytes at that address and they equal the bytes written. "
 "Otherwise an error is returned; the sink never accepts a differing byte and never rejects a matching write.",
 ["inputs", "configurations"], "all images, mappings, addresses and byte strings",
 "The sink is not exercised by the existing tests.",
 ["nsasm/rom.cc", "nsasm/rom.h"], [("read back and compare", "nsasm/rom.cc RomIdentityTest::Write")], ["RomIdentityTest::Write result"])
prop("C06", "Address arithmetic wraps within the bank",
 "Advancing a 24-bit address with wrapping keeps the bank and adds the offset modulo 65536 for every int offset; bank, in-bank part and comparisons agree with the 24-bit number, also when rebuilt from bank and in-bank part. "
 "Subtracting two addresses fails exactly when the banks differ and otherwise returns the unique offset in -32768..32767 that, added with wrapping to the subtrahend, gives back the minuend.",
 ["inputs"], "all addresses, all int offsets, all address pairs",
 "Address arithmetic has no tests of its own; wrap-around at both ends of a bank ranges over 2^24 x 2^32 inputs.",
 ["nsasm/address.h"], [("masking of the low 16 bits", "nsasm/address.h Address::AddWrapped, SubtractWrapped")],
 ["Address::AddWrapped, AddUnwrapped, SubtractWrapped, Bank, BankAddress, comparisons, LabelValue conversions"])
prop("C07", "Numeric type coercion and combination",
 "Coercing a value to an 8, 16 or 24-bit unsigned (signed) type yields the unique value of that type's range congruent to it modulo the type's size, and the unsized type leaves it alone. "
 "Combining two types is commutative, associative and idempotent, never narrower than either operand, signed exactly when one operand is signed, with the unsized type as neutral element.",
 ["inputs"], "all ints x all types; all pairs and triples of types",
 "No test calls these functions directly; only a few typed expressions pass through them in tests that are not built.",
 ["nsasm/numeric_type.h", "nsasm/address.h"], [("masks and sign adjustment", "nsasm/numeric_type.h CastTo"), ("widening", "nsasm/numeric_type.h ArtihmeticConversion")],
 ["CastTo, Signed, Unsigned, IsSigned, ArtihmeticConversion results", "LabelValue::ToNumber"])
prop("C08", "Claimed byte ranges behave as a set of addresses",
 "After any sequence of claims a data range contains exactly the union of the bytes claimed (a claim of up to 65536 bytes at an address wraps inside its bank), and a claim returns true exactly when none of its bytes was claimed before. "
 "The reported chunks are always non-empty, in increasing order, separated by at least one unclaimed byte, and cover exactly the claimed bytes.",
 ["inputs", "histories"], "all sequences of claims (addresses, lengths, non-empty chunks) and all membership queries",
 "The tests replay a handful of merge scenarios; the guarantee is over every history of claims and every address queried.",
 ["nsasm/ranges.cc", "nsasm/ranges.h"], [("sorted vector of half-open chunks with merging", "nsasm/ranges.cc DataRange::ClaimBytes"), ("binary search", "nsasm/ranges.cc DataRange::Contains")],
 ["DataRange::ClaimBytes result, Contains, Chunks"], [("ranges_", "sorted, disjoint, non-adjacent chunks", "nsasm/ranges.h DataRange")])
prop("C09", "Range map associates each address with its inserter's value",
 "Inserting a range succeeds exactly when it shares no address with the ranges already inserted; after success exactly its addresses look up to the inserted value and all other lookups are unchanged. "
 "A failed insertion changes no lookup, and membership queries always agree with lookups.",
 ["inputs", "histories"], "all histories of insertions (ranges built by claims) and all addresses queried",
 "One sanity test with three ranges exists; the guarantee is over every history and address.",
 ["nsasm/ranges.h", "nsasm/ranges.cc"], [("trial claim on a copy, then commit", "nsasm/ranges.h RangeMap::Insert"), ("upper_bound on chunk keys", "nsasm/ranges.h RangeMap::Lookup")],
 ["RangeMap::Insert result, Lookup, Contains"], [("used_, mapping_", "claimed bytes and chunk-to-value map", "nsasm/ranges.h RangeMap")])
prop("C10", "Mnemonic, suffix and directive names round-trip",
 "Every mnemonic, size suffix and directive has a non-empty name, names are pairwise distinct within each kind, and looking up a string (in any letter case) yields exactly the item whose name it spells, or nothing when it spells none. "
 "Values outside each enumeration print as the empty string, and the enumeration lists contain each item exactly once.",
 ["inputs"], "all enumerators, all int values, all strings",
 "The test converts mnemonics and suffixes only; directives are not covered, nor are strings that are not names.",
 ["nsasm/mnemonic.cc", "nsasm/mnemonic.h"], [("parallel name tables and lookup maps", "nsasm/mnemonic.cc")],
 ["ToString, ToMnemonic, ToSuffix, ToDirectiveName, AllMnemonics, AllSuffixes"])
prop("C11", "Errors keep their message and most specific location",
 "A value-or-error result holds exactly one of the two: it reports success exactly when built from a value, hands back that value or that error unchanged, and copies, moves and equality preserve this. "
 "Updating an error's location replaces the path only by a non-empty path and the position only by a present position, and the printed error is the message alone when no path is known, otherwise path, then position (decimal line or six-digit hex address) when known, then the message.",
 ["inputs", "histories"], "all values, messages, paths, positions and sequences of location updates",
 "Only success paths are exercised by the tests that build here.",
 ["nsasm/error.h", "nsasm/error.cc", "nsasm/location.h"], [("variant of value and error", "nsasm/error.h ErrorOr"), ("field-wise update", "nsasm/location.h Location::Update")],
 ["ErrorOr::ok, operator*, error(), Error::ToString, Location::ToString"])
prop("C12", "ROM files load completely and save back identically",
 "Loading a ROM file succeeds exactly when every file operation succeeds, the file has at least 65536 data bytes and a size that is a multiple of 4096, or that plus a 512-byte header, and exactly one of its header checksum pairs (LoROM at $7FDC, HiROM at $FFDC) is consistent; the ROM then serves exactly the file's data bytes after the header, under the mapping of that checksum (extended HiROM from 4 MiB up). "
 "Saving an overwrite target writes the original header followed by the image; any failed file operation is reported as an error and no file is left open.",
 ["inputs", "fault_sequences"], "all file sizes and contents; every failing file operation",
 "No test touches a file, and none injects an I/O failure.",
 ["nsasm/rom.cc"], [("size checks, header skip, checksum heuristic", "nsasm/rom.cc LoadRomFile"), ("header and payload writes", "nsasm/rom.cc RomOverwriter::CreateFile")],
 ["LoadRomFile result and subsequent reads", "file produced by RomOverwriter::CreateFile"])
prop("C13", "The expecting test sink accepts exactly the expected bytes",
 "A write to the test sink fails exactly when it touches an address already written. "
 "After any writes that succeeded, the final check succeeds exactly when the set of (address, byte) pairs written equals the expected set (each expected block wrapping inside its bank, expected addresses distinct).",
 ["inputs", "histories"], "all expectation lists and all write histories",
 "The sink is itself test equipment and has no tests; a sink that misses an unexpected byte hides assembler bugs.",
 ["test/test_sink.cc", "test/test_sink.h"], [("map of received bytes, consumed by the check", "test/test_sink.cc")],
 ["TestSink::Write, TestSink::Check results"], [("received_", "bytes written so far", "test/test_sink.h"), ("expected_", "expected blocks", "test/test_sink.h")])
prop("C14", "The ROM dump tool prints exactly the ROM's bytes",
 "Dumping count entries of stride 1, 2 or 3 bytes at an address prints an origin line and then data directives listing exactly those entries in order (addresses advancing by the stride with wrap inside the bank, little-endian, fixed-width hex), at most per-line entries on a line. "
 "If the ROM cannot be loaded or an entry cannot be read, the error is printed and the exit status is 1, without any abnormal termination.",
 ["inputs", "configurations"], "all command lines and ROM images",
 "The tool is built but never run by a test.",
 ["util/quick_dump.cc", "nsasm/memory.cc", "nsasm/rom.cc"], [("read loop and print loop", "util/quick_dump.cc main")],
 ["standard output and exit status of quick_dump"])
prop("C15", "The opcode table is the 65816 instruction set, invertible",
 "Decoding each of the 256 opcodes gives the mnemonic and addressing mode the 65816 defines, and encoding maps that pair back to the same opcode. "
 "A pair encodes exactly when it occurs in that table (flag-sized immediates also under either definite size), and the derived classification of immediates, branches and legal combinations agrees with it.",
 ["inputs"], "all 256 opcodes, all mnemonic x mode pairs",
 "The opcode tests are not buildable here and compare the table with itself rather than with the processor's definition.",
 ["nsasm/opcode_map.cc", "nsasm/opcode_map.h"], [("decode table and derived reverse map", "nsasm/opcode_map.cc")],
 ["DecodeOpcode, EncodeOpcode, IsLegalCombination, ImmediateArgumentUsesMBit/XBit, TakesOffsetArgument, TakesLongOffsetArgument"])
prop("C16", "Deduced addressing modes are always encodable",
 "For every mnemonic, syntactic operand form and operand expressions, addressing-mode deduction either reports an error or yields a mode that is legal for that mnemonic (its real counterpart for pseudo-instructions), of that syntactic form, and whose operand size is the operand's explicit size. "
 "Every legal mode of every mnemonic is reachable from some form and operand size; an unsized constant is accepted only where it fits.",
 ["inputs"], "all mnemonics x syntactic forms x operand types, values and identifier-ness",
 "The mode tests are not buildable here and sample one expression per size.",
 ["nsasm/addressing_mode.cc", "nsasm/opcode_map.cc"], [("mnemonic lists per syntactic form", "nsasm/addressing_mode.cc DeduceMode")],
 ["DeduceMode result, EncodeOpcode"])
prop("C17", "Assembled instructions have the defined encoding and size",
 "Assembling an instruction with evaluable operands issues exactly one write, at the requested address, of the opcode followed by the operand bytes least-significant first (block moves: destination bank, then source bank; ADD and SUB preceded by CLC and SEC), and its byte count equals the size reported beforehand. "
 "An operand or sink error is handed on, and an illegal combination or unresolved immediate size writes nothing. The far target reported for an absolute jump or call is the address its operand bytes encode.",
 ["inputs"], "all legal mnemonic x mode pairs, operand values, addresses and sink results",
 "Tests of assembly are not buildable here and sample values.",
 ["nsasm/instruction.cc", "nsasm/addressing_mode.cc"], [("byte emission per mode class", "nsasm/instruction.cc Instruction::Assemble"), ("length table", "nsasm/addressing_mode.cc InstructionLength")],
 ["bytes passed to OutputSink::Write", "Instruction::SerializedSize"])
prop("C18", "Decoding then assembling reproduces the bytes",
 "For every four bytes and every status state, decoding either fails (only when the opcode's immediate size depends on an unknown flag or too few bytes are supplied) or yields an instruction that passes the consistency check for that state and whose size is at most the bytes available. "
 "Assembling a decoded non-relative instruction reproduces exactly the bytes consumed; a relative one holds its displacement as a signed number.",
 ["inputs"], "all 2^32 byte quadruples and shorter inputs x all status states",
 "The decode tests are not buildable here and loop over opcodes with one operand pattern.",
 ["nsasm/decode.cc", "nsasm/instruction.cc"], [("operand extraction per mode", "nsasm/decode.cc Decode")],
 ["Decode result, bytes written by Instruction::Assemble"])
prop("C19", "Relative branches encode the in-bank distance or fail",
 "A relative branch assembles exactly when its target lies in the instruction's bank and the wrapped distance from the following instruction fits the operand (signed 8 bits; any in-bank distance for 16 bits); the stored displacement, added with wrapping to the following instruction's address, gives the target. "
 "In every other case an error is returned and nothing is written.",
 ["inputs"], "all branch addresses and targets, both operand sizes",
 "Only a few branches are assembled by tests that do not build here; boundaries at +/-128 and bank wrap are unsampled.",
 ["nsasm/instruction.cc", "nsasm/address.h"], [("SubtractWrapped and range check", "nsasm/instruction.cc Instruction::Assemble")],
 ["bytes passed to OutputSink::Write"])
prop("C20", "Immediate sizes follow the processor flags",
 "An instruction whose immediate size depends on m or x is accepted only when that flag is known there, is then sized by the flag, and an explicit size or suffix contradicting the flag is rejected. "
 "Instructions that do not depend on the flag are accepted or rejected independently of it.",
 ["inputs"], "all mnemonics x modes x suffixes x status states",
 "Not covered by any test that builds here; the tests sample a few states.",
 ["nsasm/instruction.cc", "nsasm/opcode_map.cc"], [("CheckConsistency and FixAddressingMode", "nsasm/instruction.cc")],
 ["Instruction::CheckConsistency, FixAddressingMode"])
prop("C21", "Status states stay within the processor's and names round-trip",
 "In every status state reachable through the status interface, a known emulation flag forces m and x to be known set, an m or x claimed known-clear implies a known-native state, and one claimed unchanged since entry implies e is native or unchanged too. "
 "For a state whose e is known, printing its name and reading it back (in any letter case) yields the same known e, m and x; no string other than a state name is accepted.",
 ["inputs", "histories"], "all 256 states, all strings",
 "Nothing tests the name functions here, and strings are unbounded.",
 ["nsasm/execution_state.cc", "nsasm/execution_state.h"], [("ConstrainedForEBit", "nsasm/execution_state.h"), ("name grammar", "nsasm/execution_state.cc StatusFlags::FromName/ToName")],
 ["StatusFlags accessors, ToName, FromName"])
prop("C22", "Merging analysis states over-approximates both paths",
 "Merging two tracked states (status flags, register, stack entry, stack, whole state) yields a state that describes every machine state either of them describes and keeps what both agree on; stacks of different depth or with incompatible entries are given up. Merging is idempotent and commutative. "
 "Repeated merging reaches a fixed point after finitely many changes.",
 ["inputs", "histories"], "all pairs of tracked states, stacks of any depth",
 "No test merges states; the claim is over all pairs.",
 ["nsasm/execution_state.h"], [("operator| / |= on each component", "nsasm/execution_state.h")],
 ["operator|, operator|=, operator== of the state types"])
prop("C23", "Tracked pushes and pulls mirror the hardware stack",
 "Pulling a register with the same width state it was pushed with returns the tracked value pushed, truncated to the pushed width, or no value when none was known or the width is only known as the width on entry; bytes and words come off in hardware order and what lies below is unchanged. "
 "No sequence of tracked pushes and pulls, from any state, aborts the analysis tool; an inconsistent pull abandons tracking instead of inventing a value.",
 ["inputs", "histories"], "all stacks, register values and width states, all push/pull sequences",
 "No test drives the tracked stack.",
 ["nsasm/execution_state.h"], [("Stack::PushReg/PullReg, PullByte, PullVarsize", "nsasm/execution_state.h")],
 ["ExecutionState register and stack operations"])
prop("C24", "Status flag tracking through instructions is sound",
 "If a tracked status describes the processor's e, m, x and c before an instruction, then the tracked status after analysing the instruction describes them after executing it, for fall-through and for taken branch separately; calls are taken to restore or yield the declared flags. "
 "Every flag the instruction can change is either updated to its new value or reported unknown.",
 ["inputs"], "all instructions x operand values (known or not) x all tracked states",
 "Tests cover a few instruction sequences and are not buildable here.",
 ["nsasm/instruction.cc", "nsasm/execution_state.h"], [("per-mnemonic transfer function", "nsasm/instruction.cc Instruction::Execute")],
 ["ExecutionState::Flags() after Execute / ExecuteBranch"])
prop("C25", "Expressions evaluate by ordinary arithmetic and precedence",
 "Parsed operand expressions evaluate as 32-bit arithmetic with unary operators binding tightest, then * and /, then + and -, left-associative, parentheses overriding; <, >, ^ extract low, high and bank byte; division by zero and undefined names are errors, never crashes. "
 "The type of an expression is the combination of its operands' types (byte for the extraction operators, signed for negation).",
 ["inputs", "programs"], "all expression trees and operand values",
 "The expression tests are not buildable here and list a few formulas.",
 ["nsasm/expression.h", "nsasm/parse.cc"], [("recursive-descent parser", "nsasm/parse.cc Expr/Term/Factor"), ("operator functions", "nsasm/expression.h")],
 ["ParseExpression result's Evaluate() and Type()"])
prop("C26", "Numeric literals keep their value and size",
 "A hexadecimal ($ or 0x), binary (%) or decimal literal tokenizes to exactly the number it spells; hexadecimal and binary literals are typed byte, word or long by their digit count (up to 2, 4, more; 8, 16, more), decimals untyped. "
 "Adjacent tokens, white space and comments do not change this.",
 ["inputs"], "all digit strings whose value fits an int",
 "The tokenizer tests are not buildable here and sample a few literals.",
 ["nsasm/token.cc"], [("digit loops and strtol", "nsasm/token.cc Tokenize")], ["Tokenize result"])
prop("C27", "Data directives emit their values little-endian",
 "A .db, .dw or .dl directive issues one write, at its address, of each listed value's low 1, 2 or 3 bytes least-significant first, in order, and the byte count equals the size reported beforehand. "
 "Other directives write nothing and have size zero; a value that cannot be evaluated is an error and nothing is written.",
 ["inputs"], "all directives, list lengths and values",
 "The directive tests only check names and kinds.",
 ["nsasm/directive.cc"], [("EncodeValue and list loop", "nsasm/directive.cc Directive::Assemble"), ("entry size", "nsasm/directive.cc Directive::SerializedSize")],
 ["bytes passed to OutputSink::Write", "Directive::SerializedSize"])
prop("C28", "Printed instructions parse back to the same bytes",
 "Printing any decoded instruction other than a relative one, with or without the size suffix its flags imply, and feeding the text through the tokenizer, parser and assembler under the same flags reproduces the original bytes.",
 ["inputs", "programs"], "all opcodes x all operand values x all known status states",
 "The round-trip test is not buildable here and uses one operand pattern.",
 ["nsasm/instruction.cc", "nsasm/addressing_mode.cc", "nsasm/expression.cc", "nsasm/token.cc", "nsasm/parse.cc"],
 [("operand printing", "nsasm/addressing_mode.cc ArgsToString"), ("instruction grammar", "nsasm/parse.cc ParseInstructionCore")],
 ["Instruction::ToString, Tokenize, Parse, Instruction::Assemble"])
prop("C29", "Labels resolve to the innermost enclosing definition",
 "Within a module a name refers to the definition in the innermost open scope that defines it, else to the module's global definition, else to an exported name of another module; two definitions of a name in one scope are rejected, as are unmatched scope brackets. "
 "Every defined label evaluates to the address of the statement it precedes (or its .equ value).",
 ["programs"], "all modules: any nesting of scopes, labels and references",
 "A handful of simple assemblies exist as tests and are not buildable here.",
 ["nsasm/module.cc"], [("scope maps searched innermost first", "nsasm/module.cc Module::LocalIndex, LoadAsmFile")],
 ["assembled bytes", "errors returned by assembly"])
prop("C30", "Assembly does not depend on the order of modules",
 "Assembling the same set of modules in any order yields the same bytes at the same addresses or fails in every order; names exported twice and cyclic .equ dependencies are reported as errors. "
 "A .equ value is never read before it is computed.",
 ["programs", "histories"], "all sets of modules and orders",
 "The existing cross-module test permutes one fixed example and is not buildable here.",
 ["nsasm/assembler.cc", "nsasm/module.cc"], [("dependency ordering", "nsasm/assembler.cc Assembler::FindAssemblyOrder")],
 ["bytes received by the output sink"])
prop("C31", "No address is assembled twice without an error",
 "If assembling a set of modules succeeds, no address has been written by two different statements, and the assembler's ownership query answers yes for exactly the addresses written. "
 "If two statements produce bytes for one address, assembly fails.",
 ["programs", "histories"], "all sets of modules",
 "No test assembles overlapping output; depends on the range bookkeeping of C08 and C09.",
 ["nsasm/module.cc", "nsasm/assembler.cc", "nsasm/ranges.cc"], [("per-module claims and global range map", "nsasm/module.cc Module::Assemble, nsasm/assembler.cc Assembler::Assemble")],
 ["assembly result, Assembler::Contains"])
prop("C32", "Disassembly follows every reachable path to a fixed point",
 "A successful disassembly contains every instruction reachable from its entry points, each decoded in a status state that covers the states arriving on all paths to it, and following it again changes nothing. "
 "It terminates for every input.",
 ["inputs", "programs", "histories"], "all ROM images and entry points",
 "No test disassembles; reachability and termination are whole-history properties.",
 ["nsasm/disassemble.cc"], [("work list keyed by address with state merging", "nsasm/disassemble.cc Disassembler::Disassemble")],
 ["Disassembler::Result, far branch map"])
prop("C33", "Assembled sizes hold on every path through a module",
 "If the first pass over a module succeeds, every instruction in it has been reached from an .entry through fall-through and local branches, and the tracked flag state by which its size is chosen describes the processor on every such path: an .entry starts with its declared flags, and what falls through or branches carries the state the statement leaves. "
 "A module in which two paths reach an instruction with different values of the flag its size depends on is rejected.",
 ["programs", "histories"], "all modules: any number of lines, branches and loops among them",
 "No test runs the first pass over a loop; which states meet at a line depends on the whole history of the search.",
 ["nsasm/module.cc", "nsasm/statement.cc", "nsasm/instruction.h", "nsasm/execution_state.h"],
 [("work list keyed by line, merging states", "nsasm/module.cc Module::RunFirstPass"), ("ends of paths and local branches", "nsasm/instruction.h IsExitInstruction, IsLocalBranch")],
 ["assembled bytes", "errors returned by assembly"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
