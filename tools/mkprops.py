#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": None}})

I, D, F, M, B, H, K, U, R, S, A = ("cmdis/instructions.py", "cmdis/decoder.py", "cmdis/formatter.py", "cmdis/model.py",
    "cmdis/bitstring.py", "cmdis/helpers.py", "cmdis/mock_cpu.py", "cmdis/utilities.py", "cmdis/registers.py",
    "cmdis/disasm.py", "cmdis/__main__.py")

prop("C01", "Decoding identifies the architectural instruction and its operands",
 "For every 16-bit halfword and every 32-bit Thumb word of the supported instruction subset, decoding yields the instruction the Arm architecture assigns to those bits: its size (decided by the first halfword alone), mnemonic, flag-setting suffix, registers, immediates, shift, register list, base write-back and condition. Every bit pattern outside the supported subset, and every truncated encoding, is reported as an undefined instruction instead of being decoded as something else. The result does not depend on the address given, on bytes that follow the encoding, or on what was decoded before.",
 ["inputs"], "all 65536 halfwords; all 32-bit words whose first halfword has a 32-bit prefix; any address; any trailing bytes; any truncation",
 "The tests decode a few hundred hand-picked words, each once, and mostly look at one or two fields; they say nothing about the other encodings, overlapping patterns, or patterns that must be rejected.",
 [D, I, S], [("decoder tree", D+":DecoderTree.decode"), ("encoding specs", I+":@instr"), ("field extraction", D+":Decoder.process_fmt")],
 ["cmdis.disasm.decoder.decode", "Formatter.format text", "Instruction.mnemonic/size/bytes/address"])

prop("C02", "Decode, format and execute never fail in an undocumented way",
 "Decoding any byte sequence either returns an instruction or raises exactly one of the two documented rejections (undefined instruction, unpredictable encoding). Every instruction that decodes can be formatted at any address and executed in any CPU state, on mapped and unmapped memory, without raising an exception.",
 ["inputs", "histories"], "all byte strings, all CPU register states, all memory maps",
 "Tests execute each instruction class on one or two states and never execute several decodable ones (mrs, msr, mvn.w, svc, udf) at all.",
 [D, I, F, M, K, S], [("rejection exceptions", D+":UndefinedInstructionError"), ("handlers and _eval bodies", I)],
 ["exceptions leaving decode / disasm / format / execute"])

prop("C03", "UNPREDICTABLE encodings are refused",
 "These encodings never yield an instruction object and are reported as unpredictable: block transfers with an empty list, and 32-bit ldm/stm/pop with fewer than two registers, 32-bit loads of both LR and PC, 32-bit block write-back with the base in the list or with PC as base, single-register 32-bit push of SP or PC; rsb.w / mul / tst.w with SP or PC operands; byte-reverse with mismatched source fields; cps affecting neither mask; mrs/msr with SP/PC, an unlisted special register or an illegal mask. Neighbouring legal encodings of the same instructions are never refused.",
 ["inputs"], "all encodings of the named instruction families",
 "No test decodes an unpredictable encoding or expects the rejection.",
 [I, D], [("UnpredictableError raises", I)], ["decode result or exception type"])

prop("C04", "Linear disassembly tiles the byte stream",
 "Disassembling a byte sequence from a start address yields instructions whose addresses start there, each following the previous one by exactly its size, whose bytes concatenated are a prefix of the input and which are the same instructions as decoding each position separately; instructions before an undecodable position are always delivered first. The sequence ends silently only when fewer than four undecodable bytes remain (including an odd trailing byte), and an undecodable instruction anywhere earlier raises the undefined-instruction error.",
 ["inputs", "programs"], "all byte sequences of any length and type (bytes, bytearray, list), all start addresses",
 "The tests never call the streaming disassembler.",
 [S, D], [("offset/address bookkeeping", S+":Disassembler.disasm"), ("tail handling", S+":Disassembler.disasm")],
 ["Disassembler.disasm output sequence and terminating exception"])

prop("C05", "Data-processing instructions compute the architectural result",
 "Executing any supported add, subtract, reverse-subtract, carry, logical, bit-clear, shift, multiply, move, move-not, address-generation, extend or byte-reverse instruction leaves in its destination register exactly the 32-bit value the Arm architecture defines from the prior register, carry and immediate values, for every operand value and every combination of coinciding registers. SP always keeps its two low bits clear.",
 ["inputs"], "all supported data-processing encodings x all register and flag states",
 "Tests check one or two operand pairs per instruction, rarely boundary values, never coinciding registers, SP/PC destinations or register shift amounts of 0, 32 and above.",
 [I, H, B], [("AddSub/BitOp/ShiftOp/Move/Extend/ByteReverse/Multiply._eval", I), ("shift and add helpers", H)],
 ["destination register after execute"])

prop("C06", "Condition flags are exact",
 "After executing any instruction, N, Z, C and V equal the values the architecture defines: flag-setting forms set exactly the flags they own (carry-out of shifts and of rotated modified immediates included), keep the others, and every other instruction except msr keeps all four. 16-bit data-processing forms that set flags only outside an IT block leave all flags unchanged when the CPU reports being in one.",
 ["inputs", "configurations"], "all supported encodings x all register values x all 16 initial flag combinations x in/out of IT block",
 "Flags are asserted in a handful of tests (tst, one cmp); carry, overflow and flag preservation are not, and the IT-block configuration is never used.",
 [I, H, M], [("_set_flags", I+":DataProcessing"), ("Compare/Test._eval", I), ("ApsrAlias", M)], ["cpu.apsr.n/z/c/v after execute"],
 [("apsr", "N,Z,C,V in xpsr[31:28]", M+":ApsrAlias")])

prop("C07", "Single loads and stores move the right bytes",
 "A load puts into its register the byte, halfword or word found little-endian at base plus offset (immediate, scaled, register, shifted register, SP- or PC-relative with the PC word-aligned), zero- or sign-extended as the mnemonic says, modulo 2^32; a store changes exactly the addressed 1, 2 or 4 bytes to the low bits of its register. Loading the PC branches to the loaded value. Single loads and stores never change their base or index register unless it is the load destination.",
 ["inputs"], "all supported load/store encodings x register values x memory contents and alignment",
 "Tests use one address and value per mnemonic, aligned, mid-region, with no wrap-around and no base==destination.",
 [I, M, K], [("Load/Store/LoadLiteral._eval", I), ("memory access", K+":MockCpuModelDelegate")], ["registers and memory bytes after execute"])

prop("C08", "Block transfers and the stack are exact and inverse",
 "push, pop, ldm and stm move each listed register to or from consecutive ascending words starting at the architectural address, lowest register at lowest address, and adjust SP or the written-back base by four per register (and leave a non-written-back base alone). pop after push of the same list restores every register and SP for every list, nesting depth and memory content; a loaded PC becomes the next instruction address.",
 ["inputs", "histories"], "all register lists, bases, write-back modes and memory contents; all well-nested push/pop sequences",
 "Tests try a handful of lists with fixed register values, and most of them fail on the base revision.",
 [I, M, K], [("Push/Pop/LoadMultiple/StoreMultiple._eval", I)], ["registers, SP and memory after execute"])

prop("C09", "Control flow: the next PC is always right",
 "After any instruction the PC equals its own address plus its size, unless it is a taken branch or a write to the PC, in which case it is the architectural target (PC+4 plus signed offset, or the register value with bit 0 cleared), modulo 2^32. Conditional branches are taken exactly when their condition holds for the current flags; bl and blx set LR to the return address with bit 0 set, even when LR is the branch register, and no other branch changes LR.",
 ["inputs"], "all branch encodings and offsets x all 16 flag states x all PCs; all other encodings for the fall-through case",
 "Tests take two conditional branches (eq, cc), one bl offset, one bx and one blx; the other twelve conditions, backwards bl, blx lr and PC-writing moves are never run.",
 [I, M], [("CONDITIONS, Branch._eval", I), ("PC update in every _eval", I)], ["cpu.pc and cpu.lr after execute"])

prop("C10", "Instructions touch nothing but their architectural effects",
 "Executing one instruction changes no register other than its destination(s), the flags it owns, the PC and (where architected) SP/LR/base, no memory byte it does not store, and no xPSR bit other than N, Z, C, V; it changes no special or floating-point register and no mode unless it is an instruction for doing so. Each element transferred causes exactly one access of its exact width and address on the CPU delegate, and instructions that are not loads or stores access no memory.",
 ["inputs", "histories"], "all supported encodings x CPU states, observed through the delegate event log",
 "Tests assert the expected destination only; nothing looks at what else changed or at how many accesses were made.",
 [I, M, K], [("_eval bodies", I), ("delegate calls", M+":CpuModel")], ["recorded delegate events; full register/memory snapshots before and after"])

prop("C11", "System-register instructions honour privilege and layout",
 "mrs returns the architectural value of the selected special register (APSR flags in place, 9-bit IPSR, EPSR bits as zero, MSP, PSP, PRIMASK, 8-bit BASEPRI, FAULTMASK, CONTROL), with privileged registers reading as zero when unprivileged; cpsie/cpsid clear/set exactly the named mask bits and do nothing when unprivileged; msr writes the selected register as the architecture defines. Hint, barrier, breakpoint, svc and udf instructions change nothing but the PC.",
 ["inputs", "configurations"], "all special registers x xPSR/CONTROL/mask values x privilege, mode and extension configuration",
 "mrs and msr are decoded but never executed by the tests; privilege is never varied.",
 [I, M, K], [("MoveFromSpecial/MoveToSpecial/ChangeProcessorState._eval", I), ("is_privileged, ipsr", M)], ["registers after execute"])

prop("C12", "A decoded instruction is a constant",
 "Formatting and executing an instruction object any number of times, in any order, on any CPUs, never changes what it is: each execution from the same CPU state has the same effect, and its text, mnemonic, size, bytes and address stay what they were at decode. Decoding the same bytes again, or other bytes at other addresses, yields equal behaviour and never alters instruction objects handed out earlier.",
 ["histories", "inputs"], "all interleavings of decode / format / execute over any number of live instruction objects and CPUs",
 "Every test decodes afresh and executes once.",
 [I, D, F, B], [("per-instruction attributes", D+":Decoder.decode"), ("operand objects", F)], ["text and execution effect of the same object over time"])

prop("C13", "Running a program equals the architectural machine",
 "Fetching, decoding and executing instruction after instruction from simulated memory, following the PC, for any program of supported instructions (loops, calls, stack frames, computed branches, data tables) produces after every step the registers, flags and memory of an independent architectural model.",
 ["programs", "histories"], "all programs of supported instructions and all initial states, over any number of steps",
 "Tests execute single instructions only, on fresh CPUs.",
 [I, D, S, M, K], [("execute loop over decode", S), ("shared CPU state", M)], ["full CPU and memory state after each step"])

prop("C14", "Disassembly text is faithful to the encoding",
 "The formatted line shows the instruction's halfwords in hex, its mnemonic, and operands that denote exactly the encoded registers (canonical sp/lr/pc names), register list, signed immediate, shift kind and amount, barrier option, mask flags or special register (with its _nzcvq/_g/_nzcvqg part), with ! exactly on written-back bases. Immediates above 9 are repeated in hex in the comment. Two encodings that act differently never format to the same operand text under the same mnemonic.",
 ["inputs"], "all supported encodings, any order of formatting calls on one or several formatters",
 "Tests print the text and assert nothing about it.",
 [F, I], [("Operand.format", F), ("operand construction", I)], ["Formatter.format output"])

prop("C15", "Printed label addresses are where execution goes",
 "For every branch and PC-relative address instruction at every address, the absolute address printed in the comment and the relative displacement printed as operand both denote the address that executing the instruction there branches to or computes, modulo 2^32.",
 ["inputs"], "all label-carrying encodings x all instruction addresses (both alignments, near both ends of the address space)",
 "No test compares text with execution; all tests format at address 0.",
 [F, I], [("LabelOperand.format", F), ("Branch / AddressToRegister._eval", I)], ["comment and operand text versus pc/register after execute"])

prop("C16", "Bit-string arithmetic is arithmetic modulo 2^width",
 "For every width and value, adding, subtracting, multiplying, floor-dividing, shifting and bitwise combining bit strings with bit strings, integers or binary literals, in normal, reflected and in-place form, gives the integer result reduced modulo 2 to the left operand's width, or for | and ^ of two bit strings to the wider width (shifts drop bits, inversion complements within the width). The unsigned reading is the unsigned value and, for widths of two or more, the signed reading is the two's-complement value; constructing from a value keeps its low width bits, and integers of 2^32 and above default to 64 bits.",
 ["inputs"], "all widths, values and operand types",
 "Tests check two or three constants per operator at widths up to 7.",
 [B], [("operators", B+":bitstring"), ("masking", B+":bitstring.__init__")], ["value, width, signed of results"])

prop("C17", "Bit selection, concatenation and extension are lossless",
 "Indexing, slicing (including negative and stepped indices), assigning bits and slices, concatenating, reversing, sign- and zero-extending, counting and locating set bits, iterating, and converting to and from bytes, binary text and based text all agree with one view of the string as a sequence of bits with bit 0 least significant. Concatenating the parts of any split, or rebuilding from bytes or text at the same width, gives the original back; assignments change only the addressed bits.",
 ["inputs"], "all widths (the empty string included), values, index and slice combinations",
 "Tests use one 5-bit value for indexing and slicing.",
 [B], [("__getitem__/__setitem__/__imod__/sign_extend/bytes", B)], ["results compared with a list-of-bits model"])

prop("C18", "Bit-string operations never corrupt their operands",
 "Reading properties (including the signed value), comparing, inverting with ~, and every non-in-place operator leave all operands unchanged and return objects independent of them (extending to the same width may return the string itself); in-place operators, invert(), reverse(), set() and the setters change only their target. Across any sequence of operations each bit string's value stays within its width, and operands of unsupported type, bit positions outside the string, values that do not fit a bit and text that is no binary number are rejected rather than silently ignored, leaving everything as it was.",
 ["histories", "inputs"], "all sequences of operations over a pool of possibly aliased bit strings",
 "Tests apply one operation per object and rarely look at the operand afterwards.",
 [B], [("__invert__, signed, in-place operators", B)], ["every live object after every operation"])

prop("C19", "Bit-string comparison is a coherent order",
 "Equality, inequality and ordering among bit strings form one total order by value then width, consistent with each other and with hashing; comparison with non-negative integers uses the unsigned value, with negative integers the signed value (widths of two or more), and with binary text the denoted bit string. Truth value is 'any bit set', and a bit string is never equal to an object of an unrelated type.",
 ["inputs"], "all pairs and triples of bit strings, integers, binary literals and foreign objects",
 "Tests compare a few constants for == and != and never use ordering, hashing or truth value.",
 [B], [("__eq__/__lt__/__hash__/__bool__", B)], ["comparison results, hash, bool"])

prop("C20", "Pseudo-code helpers match the architecture manual",
 "Align, AddWithCarry, the LSL/LSR/ASR/ROR/RRX shifts with and without carry, generic shifting, immediate-shift decoding and modified-immediate expansion return the result, carry and overflow the Arm pseudo-code defines, for every width of two or more, value, shift amount (zero, at the width and beyond included) and carry-in, without altering their arguments.",
 ["inputs"], "all operand widths and values, all shift types and amounts, all 4096 modified immediates",
 "Tests check one to three constants per helper; ThumbExpandImm has an empty test and the plain shifts none.",
 [H, B], [("helper functions", H)], ["returned values and arguments afterwards"])

prop("C21", "Encoding specs compile to exactly the patterns they describe",
 "Parsing an encoding spec yields its bits and fields in order with their widths or fixed values, for any spelling the grammar allows and whatever character follows a fixed value. A character that cannot begin a field is refused where a field is expected, and so is an encoding whose spec does not describe exactly 16 bits. For any set of registered encodings, decoding selects the most specific encoding whose fixed bits match and whose handler accepts, trying the others when a handler declines, passes each field its exact bits, and reports undefined when none accepts.",
 ["configurations", "inputs"], "all well-formed specs; all tables of overlapping 16/32-bit encodings; all words",
 "The parser tests cover fifteen spec strings; the tree is only ever built from the one shipped table.",
 [D], [("parse_spec", D), ("_build_tree", D+":DecoderTree"), ("process_fmt", D+":Decoder")], ["parse result; handler called and its arguments"])

prop("C22", "Simulated memory behaves as memory",
 "Over any history of byte, halfword, word and block accesses, each read returns the bytes most recently written to those addresses (little-endian, zero initially), every write changes exactly the addressed bytes that lie in a defined region, unmapped bytes read as zero and ignore writes, and regions never grow, shift or affect each other, including for accesses that cross a region's end. A block access covers the mapped bytes from its address and stops at the end of the region it starts in; block reads return a copy.",
 ["histories"], "all sequences of accesses of all sizes over all layouts of disjoint regions",
 "Tests write and read back single aligned words in the middle of one region.",
 [K, M], [("read/write_memory(_block)", K), ("size/address conversion", M)], ["values returned by reads; final contents"],
 [("regions", "list of (start,end,data)", K)])

prop("C23", "The register file is consistent under all its names",
 "Over any history of register reads and writes by index, name (any case), alias or property, each read returns the last value written to that register as a 32-bit value, with architectural restrictions (SP, MSP and PSP word-aligned, 1-bit PRIMASK/FAULTMASK, 8-bit BASEPRI), and writes to one register never affect another except the SP bank: SP always mirrors the stack pointer selected by CONTROL. Flag accessors read and write exactly bits 31-28 of xPSR, floating-point register accessors reach S0-S31, and out-of-range indices are rejected; an unknown name changes no register.",
 ["histories"], "all sequences of register writes through all access paths, all values, both CONTROL.SPSEL settings",
 "Tests write a register and read it back by the same path; CONTROL, PSP and the s[] interface are never used.",
 [R, M, K], [("name table", R), ("RegistersInterface, ApsrAlias", M), ("SP mirroring and masks", K+":write_register")], ["values returned by every access path"],
 [("_regs", "register values by index", K)])

prop("C24", "Data conversion utilities are exact inverses",
 "Packing and unpacking halfwords, words, byte lists and IEEE-754 floats are little-endian (big-endian for the float pair), lossless and mutually inverse for every value and length; bit masks, 32-bit inversion, bit counting, and bit-field extraction and insertion address exactly the stated inclusive bit range, including ranges that start at bit 0.",
 ["inputs"], "all values, list lengths, offsets and bit ranges",
 "The utilities have no tests of their own; several are never called.",
 [U], [("conversion functions", U)], ["returned values"])

prop("C25", "Console register and memory commands report and change real state",
 "In any session, register commands print and set the value of exactly the named register, write8/16/32 store the given values as little-endian elements of that width at consecutive addresses, and read8/16/32 print exactly the bytes stored there as elements of that width, each line labelled with the byte address of its first element. Address and length arguments may be numbers in any base, register names or bracketed dereferences with offset, and mean the same everywhere.",
 ["histories", "inputs"], "all sequences of reg/wreg/read*/write*/$expression commands and argument spellings",
 "No test imports the console module at all.",
 [A, U, M, K], [("handle_reg/handle_write_reg/do_read/do_write/convert_value/dumpHexData", A)], ["console output compared with a model of the machine"])

prop("C26", "Console stepping and disassembly match the machine",
 "step prints and executes exactly the one instruction at the PC (with bit 0 ignored), whatever bytes follow it, leaving the state direct execution would leave, and on an undecodable instruction says so and changes nothing; disasm lists exactly the instructions decoded from the requested range up to the first undecodable one, marks the one at the PC, and changes no state; reset reloads PC and SP from the vector table where they point into memory. A start without a binary gives a working zeroed machine.",
 ["histories", "programs"], "all loaded binaries and all sequences of step/disasm/reset/wreg/write commands",
 "No test imports the console module at all.",
 [A, S, F, M], [("handle_step/handle_disasm/reset_sim/create_sim", A)], ["console output and register dump after each command"])

prop("C27", "The console session survives every command line",
 "No command line other than exit/quit (or an expression that itself exits the interpreter) or end of input ends a console session or stops later commands from working: unknown commands, bad registers, malformed numbers or options, reads of unmapped addresses and failing expressions are reported and change no machine state. Commands separated by semicolons run in order with the same effect as on separate lines, with surrounding spaces ignored, and an empty line repeats the whole previous line. An interrupt at the prompt or during a command abandons that line, not the session.",
 ["inputs", "histories"], "all command lines, valid and malformed, in any order",
 "No test imports the console module at all.",
 [A], [("process_command(_line), run loop", A+":SimConsole"), ("cmdoptions", A)], ["console output, subsequent register dump, exit code"])

prop("C28", "CPU models are isolated from each other",
 "All machine state lives behind a CPU's delegate: any number of CPU models, disassemblers and formatters used in any interleaving, including from several threads, from within an access of another CPU's delegate, and while the decoder is being rebuilt, each behave exactly as if used alone, and instruction objects and the decoder can be shared between them. Replacing a CPU's delegate switches all state at once, and delegates receive and return plain non-negative integers with the exact register number, address and access size.",
 ["schedules", "histories"], "all interleavings (per instruction, and preemptive threads) of several CPUs sharing decoder and instruction objects",
 "Every test uses one CPU in one thread, and the mock delegate only.",
 [M, D, F, K], [("delegate indirection", M+":CpuModel"), ("shared decoder", D+":DECODER_TREE"), ("formatter state", F+":Formatter")], ["final state of each CPU versus a solo run; delegate call arguments"])

prop("C29", "The console's command names, help and start-up options do what they say",
 "In the console, help lists every documented command with its aliases; every listed name, in any letter case, is accepted and does exactly what the command it names does, and every register name alone prints that register as reg does. log, and -d at start, set exactly the named logging level (warning by default), and nothing else changes it. A session starts with the given image at address 0 byte for byte, whatever its length and wherever the options stand, zeros elsewhere in at least 64 KiB of memory, and RAM that reaches the initial stack pointer. --version and --help print and end successfully, while unknown options or levels and unreadable files end with an error status, and none of these reaches a prompt.",
 ["inputs", "histories"], "all spellings of all command names; all level names; images of any length; all start-up argument combinations",
 "No test imports the console module at all.",
 [A], [("COMMAND_INFO, command_list", A+":SimTool"), ("get_args, configure_logging, create_sim", A+":SimTool")], ["console output, exit status, effective logging level"])

prop("C30", "Dumps and representations show the actual state and change nothing",
 "dump() of a CPU prints each of r0-r12, sp, lr and pc exactly once with its current value in eight hexadecimal digits, and repr of a CPU shows its pc, xpsr and r0-r14, whichever delegate, stack pointer and mode are current. repr of an instruction shows its base mnemonic and encoding. dump() of a built decoder tree lists every registered encoding exactly once, under the 16- or 32-bit heading it belongs to, with its fixed-bit mask and match value. None of them touches memory, changes a register, an instruction or what is decoded or printed afterwards.",
 ["inputs", "histories"], "all register states, delegates and modes; all instructions; all tables of encodings",
 "No test calls dump or repr and looks at the result.",
 [M, D], [("CpuModel.dump, __repr__", M+":CpuModel"), ("DecoderTree.dump, Decoder.__repr__, Instruction.__repr__", D+":DecoderTree")], ["printed text, registers and access log before and after"])

prop("C31", "Added encodings, instruction classes and operands work like built-in ones",
 "An encoding registered with the instr decorator takes effect once the decoder is rebuilt, for direct decoding and for disassembly streams: its words decode into the class, mnemonic and keyword attributes it was given, its handler (which the decorator returns unchanged) receives the instruction, with its keyword attributes set, and the exact field values, and may decline or refuse the word, and every word no added encoding matches decodes as before. A base instruction advances the PC by its size and changes nothing else; a class overriding the mnemonic or execute is printed and run through its override. Formatting prints the operands in order, leaving out those that format to nothing; operands see the instruction and CPU being formatted, and their comments appear in order in that line only. For any values, operands print the register with its write-back mark, register ranges, signed immediate (zero hidden where asked), label relative to the aligned PC, shift, barrier option, masks, special register, and memory operands nesting any of these.",
 ["inputs", "configurations"], "all operand values and nestings; all instruction classes; all sets of added encodings; all words",
 "No test adds an encoding, an instruction class or an operand; the shipped table uses each operand kind with few values.",
 [D, F, S], [("instr, Decoder.decode, Instruction", D+":instr"), ("Operand classes, Formatter.format", F+":Formatter"), ("shared decoder", S+":decoder")],
 ["decode results; handler calls; Formatter.format output; registers, memory and access log around execute"])

prop("C32", "Faults from delegates, operands, handlers or iterables surface; nothing torn",
 "When a delegate raises from any access, execution raises that same exception object and makes no further delegate access. Every register, flag bit and memory byte then holds either the value it had or the value complete execution of that instruction would have given (the PC, or the base of a multiple transfer, may be part way); a single load or store whose memory access was refused has changed nothing but possibly the PC. Running the same instruction object again from the restored registers gives its complete effect. CpuModel.execute neither runs nor fetches anything after the faulting instruction, and everything before it has taken full effect; an exception raised by the iterable itself surfaces likewise. The CPU's register, flag and memory accessors surface a fault in the same way. An exception (other than DecodeError) raised by an operand being formatted or by a decode handler surfaces unchanged, also out of a disassembly stream, after the instructions preceding it; later lines, decodes and streams are as if it had not happened.",
 ["inputs", "fault points", "histories"], "all instructions, states and fault points (each delegate access, before or after it takes effect); all programs, streams and exception types",
 "No test's delegate, operand, handler or iterable ever fails.",
 [M, I, F, D], [("CpuModel.execute, read_/write_ register, memory", M+":CpuModel"), ("Instruction.execute, _eval", I+":Instruction subclasses"), ("Formatter.format", F+":Formatter"), ("DecoderTree.decode, Decoder.decode", D+":DecoderTree")],
 ["raised exception identity; delegate access log; registers, flags and memory after the fault, the retry and the rest of the program; printed lines and decode results"])

prop("C33", "What callers drop is released; nothing grows with the amount of work",
 "Nothing the package keeps grows with the amount of work done: however many instructions are decoded (alone or from streams, finished, failed or abandoned), formatted and executed at ever new addresses and states, CPUs, delegates and formatters created and replaced, bit strings computed, registers and memory accessed, words, names and accesses refused, decoder tables built, threads used and console commands given, the data held from the package's modules and from the objects the caller still holds stays bounded; and every instruction, CPU, delegate, formatter and table the caller has dropped can be reclaimed.",
 ["histories"], "all histories of use, of any length",
 "Tests are short and never look at what is kept afterwards.",
 [D, M, F, S, A], [("DECODER_TREE, DecoderTree.decode", D+":DecoderTree"), ("CpuModel.delegate", M+":CpuModel"), ("Formatter.format", F+":Formatter"), ("Disassembler.disasm", S+":Disassembler"), ("SimConsole", A+":SimConsole")],
 ["weak references to dropped objects after collection; elements reachable from the package's modules, held objects and running functions"])

prop("C34", "Copies of strings, instructions, delegates and CPUs are faithful and separate",
 "A copy (copy.copy or copy.deepcopy) of a bit string or of a decoded instruction, and a deep copy of a mock delegate with its memory or of a CPU with its delegate, singly or inside containers (sharing among themselves what the originals shared), equals what it was made from: value, width, text, address and effect of execution, all registers, flags, memory and mode. From then on the two are independent: whatever is executed, written, re-addressed, added or changed in place on either does not show in the other. In particular a copied delegate is a snapshot that a CPU can return to or another CPU can continue from.",
 ["histories", "inputs"], "all values and states; all histories of copying and use",
 "No test copies anything but a bit string through its constructor.",
 [B, M, K, D], [("bitstring", B+":bitstring"), ("CpuModel, RegistersInterface, ApsrAlias", M+":CpuModel"), ("MockCpuModelDelegate", K+":MockCpuModelDelegate"), ("Instruction", D+":Instruction")],
 ["registers, flags, memory and mode of every copy against a replay of its history; text and effects of copied instructions; values of copied strings"])

prop("C35", "However the package is loaded, it works the same and disturbs nothing",
 "Every module of the package can be imported on its own, and any of them in any order, spelling and number of times, from any thread or several threads at once, with assertions on or off, with or without standard streams, in any environment and working directory: what has been imported then works exactly as when everything was imported in the usual order, also when first used by several threads at once or in a forked process, and a decoder built before the instructions are loaded is complete once the disassembler is. Importing and using it prints nothing, writes no file, starts no process or thread, and leaves process-wide settings (logging, signals, search path, environment, recursion limit, random state, hooks) as they were; importing the console starts no session.",
 ["configurations", "schedules"], "all import orders, spellings and interpreter settings; all sets of threads",
 "The test run is one process that imports everything in one order, with assertions on.",
 [B, D, F, H, M, K, R, S, U, I, A], [("DECODER_TREE, instr", D+":DECODER_TREE"), ("decoder.build", S+":decoder"), ("imports of every module", I+":module"), ("main", A+":main")],
 ["results of every part of the package in fresh interpreters against the usual one; audit events, output and process-wide settings before and after"])

prop("C36", "Console expressions compute with the live machine",
 "A console line (or part between semicolons) starting with $ is evaluated as a Python expression, exactly as written, in which cpu is the simulated CPU, cmdis the package and the builtins are available, everywhere in it, nested scopes such as comprehensions, generators and lambdas included. An integer result is printed in hexadecimal and decimal, None prints nothing, and any other result prints as its text. What an expression reads is the state left by all commands before it, and what it writes is seen by all commands after it. A failing expression is reported; names an expression binds never affect later expressions or commands.",
 ["histories", "inputs"], "all expressions without semicolons; all sessions mixing them with other commands",
 "The console has no tests.",
 [A], [("SimTool.handle_python", A+":SimTool.handle_python"), ("SimConsole.process_command", A+":SimConsole.process_command")],
 ["what the console prints for each expression; registers and memory read back afterwards"])

prop("C37", "Work is proportional to what is asked, whatever came before",
 "Disassembling a stream, executing a list of instructions, formatting, converting lists, reading and writing memory blocks and dumping memory cost at most in proportion to the number of instructions, bytes or elements asked for, in steps executed, in data taken from the caller's buffers and in time; the first instructions of a stream cost the same however long the stream is, and an access to memory the same however large its region. Operations on bit strings take steps at most proportional to their width or amount of shift. The same operation on the same long-lived decoder, disassembler, formatter, CPU, delegate or console session costs the same after any number of earlier operations, successful or refused. The depth of calls grows with none of these.",
 ["histories", "inputs"], "all sizes of inputs; all histories of use",
 "Tests use a handful of bytes and fresh objects, where any cost goes unnoticed.",
 [S, M, U, B, A], [("Disassembler.disasm", S+":Disassembler.disasm"), ("CpuModel.execute", M+":CpuModel.execute"), ("list conversions", U+":byteListToU32leList"), ("bitstring", B+":bitstring"), ("SimConsole", A+":SimConsole")],
 ["steps executed, bytes taken from metered buffers, call depth and processor time at growing sizes and after growing histories"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
