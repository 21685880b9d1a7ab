MC = "model_checking"
FE = "fault_enumeration"
T1 = "bounded exhaustive exploration of the real assembler against a reference model"
COMMON = " Trusted: the reference model, and that the native (Linux) build of /repo's sources behaves as the shipped Win64 build, which tools/conform.py shows on the 445 stable regression comparisons."
NOTE["C08"] = (MC, "explicit-state enumeration of all directive sequences; reference pushdown machine vs the real assembler",
  "All conditional-directive sequences up to length 7 (quick) or 8 (thorough) from the initial state in main file and up to 5/6 inside macro, repeat block and include, every condition kind, nests to the depth limit, EXITM bodies; nothing beyond those lengths." + COMMON)
NOTE["C04"] = (MC, "exhaustive enumeration of expression trees and token sequences; reference evaluator vs the real assembler",
  "All operator pairs and triples over boundary literals, all token sequences to the bound, three code sizes; values that need more than 64 bits and MOD of negative numbers are not judged." + COMMON)
NOTE["C05"] = (MC, "exhaustive enumeration of initializer trees, values, strings and token sequences; reference encoder vs the real assembler",
  "Initializer trees up to 5 nodes (6 thorough), DUP depth 3, boundary values per directive in 16/32/64-bit, strings to length 3 (4), token sequences to 6 (7)." + COMMON)
NOTE["C06"] = (MC, "exhaustive enumeration of numerals around all rounding and range boundaries; exact rational reference vs the real assembler",
  "Every numeral of the enumerated grammar slices (short numerals x exponents, exact midpoints and neighbours, lengths to 45, limits, hex digits, strings to length 6/7). The shipped Win64 program converts REAL8 with its own C library's strtod, which the native build replaces by glibc's." + COMMON)
NOTE["C01"] = (MC, "exhaustive enumeration of mnemonic x operand-kind x boundary operands; independent decoder (objdump/gas) vs the real assembler",
  "Every mnemonic of the general, x87, MMX and SSE tables, all operand-kind tuples to three operands, all addressing modes and register-number boundaries in 16/32/64-bit code. Rejections are not judged here (C29). About 55 findings listed." + COMMON)
NOTE["C02"] = (MC, "exhaustive enumeration of VEX/EVEX operand forms x register products x displacements x decorations; independent decoder vs the real assembler",
  "4174 operand forms known to both assemblers, all register-boundary products, addressing modes, disp8*N limits, masks, broadcast, rounding. Statements GNU as does not know are not judged. The AVX-512 encoder of this version is wrong for about 340 mnemonics in particular forms; known-findings-C02.txt lists each failing (mode, mnemonic, operand kinds, decoration)." + COMMON)
NOTE["C07"] = (MC, "exhaustive enumeration of STRUCT/UNION/RECORD declarations and instances; reference layout vs the real assembler",
  "All member sequences up to the bound over all member kinds, alignments 1..32, nested named/anonymous members, redeclaration, record field widths to 64/128 bits, all initialiser shapes. FWORD/TBYTE members inside wider alignment and negative record-field values are not judged." + COMMON)
NOTE["C09"] = (MC, "exhaustive enumeration of substitution templates, argument forms and macro program trees; reference expander vs the real assembler",
  "All body-line templates up to the bound over parameter/&/quote/text tokens, all argument shapes and defaults, all trees of up to 4 (5) macro/REPT/IRP/IRPC/WHILE/EXITM/GOTO/PURGE nodes, macro functions. Trailing blanks before the closing parenthesis of a macro function call are not judged." + COMMON)
NOTE["C10"] = (MC, "explicit-state enumeration of definition sequences and exhaustive strings/positions; reference symbol machine vs the real assembler",
  "All strings to length 3 (4) with every position and count around every limit in directive, function, literal and text-equate form; all sequences of up to 4 (5) definitions over 18 operations on two symbols, observed after every step, with and without forced further passes; redefinitions whose legality is undocumented end a sequence." + COMMON)
NOTE["C19"] = (MC, "explicit-state enumeration of directive sequences; reference stack machine vs the real assembler",
  "All sequences of state directives to length 3 over 33, 4 over 22 and 5 (7) over 9 directives, whole state observed after each; further passes forced; sequences starting before the first code; procedure alignment sequences to length 4 (5). Whether .686 sets bit 5 of @Cpu is not judged." + COMMON)
NOTE["C17"] = (MC, "explicit-state enumeration of directive sequences; reference segment stack and location counters vs object files read back",
  "All sequences of segment openings, closings, re-openings, data, instructions, ORG, ALIGN, EVEN and reservations to length 5 (6; 7 over eight operations) in ELF32/64, COFF, Win64, OMF16/32; all one-segment sequences to length 5 (6); the same behind a jump that grows in later passes; every padding amount; all alignment attribute pairs; simplified segment directives to length 4/5 (6). Reservations over earlier bytes and ORG to another segment's label are not judged." + COMMON)
NOTE["C03"] = (MC, "exhaustive enumeration of branch/label/filler programs; least fixed point of the layout equations vs the real assembler",
  "All orders of 2 and 3 (4 thorough) branches and 2 labels with distances sweeping both limits of the short form, one or two fillers; every branch kind, forced distance, label kind and declaration, \u00b1$ and anonymous targets; cascades of up to 300 (470) dependent expansions; alignment between. Branches to other segments are C15." + COMMON)
NOTE["C15"] = (MC, "model checking: exhaustive enumeration of (reference form, kind of symbol, addend, object format, declaration order, position), each object linked by an independent linker and compared with the executable specification",
  "Every form of reference x symbol kind x addend x format is assembled, the object is read and linked by an independent linker, and the linked bytes are compared with what the reference denotes." + COMMON)
NOTE["C20"] = (MC, "model checking: exhaustive enumeration of ordered module sequences on the real assembler, each module compared with its isolated assembly",
  "All ordered pairs of ~90 state-changing modules under 20 option sets, triples, repetitions, and the ~450 regression sources before/after sentinel modules." + COMMON)
NOTE["C11"] = (MC, "model checking: exhaustive exploration of all condition outcomes of all bounded control-flow nests; generated code run on an instruction interpreter and compared with a structured interpreter",
  "All condition trees to 4 (5) leaves in every directive, all nests of up to 3 (4) directives, all comparison forms over boundary values, .FOR counters, .SWITCH tables around every limit; every outcome sequence of up to 6-7 condition reads is run on an own instruction interpreter." + COMMON)
NOTE["C12"] = (MC, "bounded exhaustive enumeration of 32-bit INVOKE/PROC pairs, each assembled and the call executed step by step on an interpreter with the frame inspected at every stage",
  "The calling conventions' definitions are the oracle (where each argument is, who removes it, what is preserved)." + COMMON)
NOTE["C13"] = (MC, "exhaustive enumeration of bounded call shapes, each assembled by the real assembler, linked and executed to completion on an x86-64 interpreter with inspection at entry, body and return",
  "Win64 (seven OPTION WIN64 values, RBP and RSP frames, FRAME on and off) and System V calls; XMM arguments overwritten by earlier ones and narrow System V stack arguments are listed findings; VECTORCALL, DELPHICALL and BORLAND are not covered" + COMMON)
NOTE["C14"] = (MC, "exhaustive enumeration of bounded prologue-directive sequences and FRAME procedure shapes; every instruction of each execution is unwound by an independent implementation of the unwinder",
  "All directive sequences to length 3 (4) at every encoding boundary and automatic prologues of 7 modes; the home-area saves of the RSP modes are a listed finding." + COMMON)
NOTE["C22"] = (MC, "exhaustive enumeration of error kinds x nestings (depth 3) x surroundings x pairs, on the real assembler; the expected report is computed by the builder of the source",
  "The file/line/chain reported, the error file, exit status and presence of the object are checked for every erroneous source of the bounded space, and for sources without errors in the same surroundings." + COMMON)
NOTE["C18"] = (MC, "exhaustive enumeration of segment/group/alignment/size/ORG arrangements up to 4 segments for BIN, MZ and PE; every image is loaded by an independent loader (MZ at two load segments, PE at two bases) and every byte and reference is checked in the loaded memory",
  "Stack, heap and loader-specific PE header fields (subsystem, versions, checksum) are not judged; MZ alignments above a paragraph are not judged because DOS loads at any paragraph." + COMMON)
NOTE["C29"] = (MC, "explicit-state exploration of cpu-directive sequences against a reference state machine; the real assembler is run on every sequence with one probe per instruction class",
  "every sequence of up to three cpu/coprocessor/extension directives; probes per instruction class" + COMMON)
NOTE["C27"] = (MC, "exhaustive enumeration of small modules over a name/scope/declaration grammar; the real assembler is run on every one and its symbol tables compared with a reference binder",
  "two definitions and two references of one name per module, in all six formats" + COMMON)
NOTE["C24"] = (MC, "bounded-exhaustive exploration of all rewritings of a catalogue of modules on the real assembler; differential oracle = the unrewritten module",
  "every rewriting x every place of every module of the catalogue (corpus.py + regress sources up to 42/60 lines)" + COMMON)
NOTE["C25"] = (MC, "bounded-exhaustive exploration of statement sequences on the real assembler; every listing line and symbol-table entry is compared with the object read back by an independent reader",
  "every sequence of statement kinds up to the depth x object format" + COMMON)
NOTE["C23"] = (MC, "bounded-exhaustive exploration of all single mutations, all short directive statements and all nesting depths on the real assembler built with AddressSanitizer; monitor = exit status, signals, sanitizer reports",
  "every mutation of the class x every place of every module of the catalogue, every directive x every operand list up to 2 tokens x 7 contexts, every construct x every listed depth" + COMMON)
NOTE["C28"] = (MC, "bounded exhaustive exploration of command lines on the real program: every ordered pair of options x five probe sources, every way of handing options over, every documented effect against the same thing in the source",
  "C28 runs main() itself; console output interleaving of several files is not judged, and options that set one slot replace each other." + COMMON)
NOTE["C21"] = (FE, "exhaustive fault injection at every operation on the real code",
  "every allocation, open, read, write, seek, tell and close of 23 workloads fails once or from then on (ld --wrap), and every file size limit (RLIMIT_FSIZE) in bounds; oracle: status 0 only if all output files equal the fault-free ones, otherwise nonzero status with a message and never a signal or General Failure" + COMMON)
NOTE["C26"] = (MC, "exhaustive enumeration of statement sequences on the real code, line table read back",
  "all sequences of statements (instructions, macros, includes, repeat blocks, procedures, generated statements, segment switches) up to the length bound x COFF/OMF/Win64 x -Zd/-Zi/-Zi5; oracle: the layout known by construction, looked up as a debugger does" + COMMON)
