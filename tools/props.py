#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit): python3 tools/props.py"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": obs or ["output file bytes", "exit status"],
                          "hook_needed": hook}})

p("C01", "General-purpose, x87, MMX and SSE instructions encode what was written",
  "Every accepted statement of a general-purpose, x87, MMX or SSE-family instruction, in 16-, 32- or 64-bit code, assembles to bytes that an independent x86 decoder reads back as exactly that one instruction with exactly those operands (registers, memory base/index/scale/displacement/segment, immediate, operand size).",
  ["programs", "configurations"],
  "all mnemonic x operand-form x mode combinations over a set of registers, addressing shapes, displacement and immediate boundary values",
  "The regression files fix a few hundred hand-picked operand combinations; the encoder has thousands of table rows times register numbers, addressing modes, prefixes and three code sizes.",
  ["codegen.c", "codegenv2.c", "parser.c", "H/instruct.h", "H/InstrTableV2.h", "H/MemTable32.h", "H/MemTable64.h", "H/opndcls.h", "reswords.c"],
  [("codegen()/output_opc()", "codegen.c"), ("CodeGenV2()", "codegenv2.c"), ("memory_operand()/process_address()", "parser.c")])
p("C02", "VEX and EVEX instructions encode what was written",
  "Every accepted AVX, AVX2, FMA, BMI or AVX-512 instruction statement, including masking, zeroing, broadcast, rounding and compressed displacements, whose operands are of the kinds the instruction takes, assembles to bytes that an independent decoder reads back as exactly that instruction with exactly those operands.",
  ["programs", "configurations"],
  "all VEX/EVEX mnemonics x operand forms x register numbers at each prefix-bit boundary x displacement boundaries, 32- and 64-bit",
  "Tests reach one or two register choices per mnemonic; the prefix bits (R,X,B,R',V',vvvv,L'L,b,aaa,z,disp8*N) form a product no sample covers.",
  ["codegen.c", "codegenv2.c", "parser.c", "reswords.c", "H/instravx.h", "H/instruct.h", "H/InstrTableV2.h"],
  [("output_vex()/EVEX prefix assembly", "codegen.c"), ("BuildVEX()/BuildEVEX()", "codegenv2.c"), ("vex_flags[]", "reswords.c")])
p("C03", "Branches reach their label, in the shortest form that can",
  "For every program, each jump, conditional jump, loop or call transfers control exactly to the place its operand names in the final layout; a jump that may be encoded short is encoded short exactly when its distance fits in a signed byte; and the assembler always terminates with one consistent layout or an error.",
  ["programs"],
  "all arrangements of branches, labels and padding up to a bounded length with distances at the short/near boundary, in 16-, 32- and 64-bit code",
  "Layout is a fixed point over all branches of a program: whether a jump is short depends on the others. Tests hold a few fixed layouts, none at every boundary.",
  ["branch.c", "backptch.c", "label.c", "assemble.c", "orgfixup.c"],
  [("process_branch()/jumpExtend()", "branch.c"), ("BackPatch()/DoPatch()", "backptch.c"), ("pass loop and PhaseError", "assemble.c:AssembleModule")])
p("C04", "Constant expressions have the value the language defines",
  "Every constant integer expression built from literals in any radix, equates and the arithmetic, shift, bitwise, relational, logical, byte/word-selection and parenthesis operators evaluates to the value given by the documented operator precedence and arithmetic, or is rejected with an error (for example division by zero); it never silently yields another value.",
  ["inputs"],
  "all expression trees up to a bounded operator depth over boundary operands, with and without redundant parentheses, in all radixes",
  "Operator precedence, sign handling and width interact; tests evaluate a handful of expressions.",
  ["expreval.c", "tokenize.c", "equate.c"],
  [("EvalOperand()/evaluate()/calculate()", "expreval.c"), ("myatoi128()/get_number()", "tokenize.c, expreval.c")])
p("C05", "Data directives emit exactly the bytes their initializers denote",
  "For every data directive and every list of integer, character, string, address-free expression, '?' and nested DUP initializers, the emitted bytes are the little-endian values in order, and the label's type, length and size operators describe exactly that data; a value that does not fit its item is rejected, never silently truncated.",
  ["inputs"],
  "all directives (DB..DT, BYTE..OWORD, signed forms) x initializer shapes nested to a bounded depth x boundary values",
  "DUP nesting, string packing and range checks combine; tests hold a few examples.",
  ["data.c", "tokenize.c", "expreval.c", "segment.c"],
  [("data_item()", "data.c"), ("OutputBytes()", "segment.c")])
p("C06", "Decimal and hexadecimal real literals are converted correctly",
  "Every real literal initializer yields, in REAL4 and REAL8, the correctly rounded IEEE value of the decimal text and in REAL10 the correctly rounded extended value, and a hexadecimal real ('R' suffix) yields exactly those bits; overflow is an error.",
  ["inputs"],
  "all decimals with up to a bounded number of digits x exponents, plus the exact halfway and near-halfway decimals of chosen mantissas",
  "The conversion is an own multiword implementation; rounding mistakes show only at particular digit strings.",
  ["atofloat.c", "tbyte.c", "tokenize.c", "data.c"],
  [("atofloat()", "atofloat.c"), ("strtotb()", "tbyte.c")])
p("C07", "Structures, unions and records are laid out and initialised as declared",
  "For every STRUCT, UNION and RECORD declaration, member offsets, sizes, alignment and bit positions are those the declaration and its alignment define, nested and anonymous members included, and every instance initialiser produces exactly the bytes of the given values with defaults in all other members.",
  ["inputs", "programs"],
  "all member-type sequences up to a bounded length x alignments x nesting x initialiser override patterns",
  "Layout depends on the sequence of members, alignment, and nesting; tests contain single examples.",
  ["types.c", "data.c"],
  [("StructDirective()/EndstructDirective()/CreateStructField()", "types.c"), ("InitStructuredVar()", "data.c"), ("RecordDirective()", "types.c")])
p("C08", "Conditional assembly selects exactly the right lines",
  "For every sequence of IF-family, ELSEIF-family, ELSE and ENDIF directives, nested to any depth and also inside macros and loops, exactly the lines of the taken branches are assembled, and every ill-formed sequence is reported as an error.",
  ["programs", "histories"],
  "all directive sequences up to a bounded length, well-formed or not, with every condition kind and outcome",
  "It is a pushdown state machine; tests exercise a few well-formed nests.",
  ["condasm.c", "preproc.c", "macro.c", "input.c"],
  [("conditional_assembly_prepare()", "condasm.c"), ("CondAsmDirective()", "condasm.c")])
p("C09", "Macros and repeat blocks expand by textual substitution",
  "Every macro, macro function and repeat block expands to its body with exactly the actual arguments (or defaults) substituted for parameters, a fresh name for each LOCAL, and EXITM, GOTO, nesting, PURGE and redefinition taking effect as documented; missing required arguments and other misuse are errors.",
  ["programs", "inputs"],
  "all small macro definitions x argument lists x body templates x nesting up to a bound",
  "Expansion is a rewriting system with quoting, delimiters and nesting; tests sample a few macros.",
  ["macro.c", "expans.c", "loop.c", "input.c", "preproc.c"],
  [("StoreMacro()/RunMacro()", "macro.c, expans.c"), ("LoopDirective()", "loop.c"), ("fill_placeholders()", "input.c")])
p("C10", "Text equates and string directives compute the documented text",
  "CATSTR, SUBSTR, INSTR, SIZESTR, TEXTEQU, EQU and '=' in directive and function form yield exactly the text or number defined by their arguments, a redefinable symbol always has the value most recently assigned before its use, and out-of-range positions or illegal redefinitions are errors.",
  ["inputs", "histories"],
  "all argument strings over a small alphabet x all positions and lengths in and just out of range; all definition/redefinition/use histories up to a bounded length",
  "Off-by-one and ordering faults need particular positions or histories.",
  ["string.c", "equate.c", "expans.c"],
  [("CatStrDir()/SubStrDir()/InStrDir()/SizeStrDir()", "string.c"), ("CreateVariable()/CreateConstant()", "equate.c")])
p("C11", "Structured control-flow directives behave like the structured program",
  "For every nest of .IF/.ELSEIF/.ELSE, .WHILE, .REPEAT, .FOR, .SWITCH, .BREAK and .CONTINUE with any condition, executing the generated code takes exactly the path the structured source defines, for all values of the tested operands and flags.",
  ["programs", "inputs"],
  "all condition trees and statement nests up to a bounded size, executed on all combinations of boundary operand values",
  "The generated jump structure (negation, short-circuit labels, signedness) has combinatorially many shapes; byte-compare tests hold a few.",
  ["hll.c", "lqueue.c"],
  [("EvaluateHllExpression()/GetExpression()", "hll.c"), ("HllStartDir()/HllEndDir()/HllExitDir()", "hll.c")])
p("C12", "32-bit calls made with INVOKE deliver arguments and keep the stack balanced",
  "In 32-bit code, for every procedure signature, calling convention (C, STDCALL, PASCAL, FASTCALL) and argument list accepted by INVOKE, the called PROC observes exactly the argument values in its named parameters, USES registers and the frame pointer survive the call, LOCALs do not overlap, and the stack pointer is back where it was.",
  ["programs", "inputs"],
  "all signatures up to a bounded number of parameters over the parameter types x argument kinds x conventions x USES/LOCAL sets, executed",
  "Caller and callee code are generated by different modules and must agree for all type combinations; tests compare bytes of a few calls.",
  ["invoke.c", "proc.c", "mangle.c"],
  [("InvokeDirective()/PushInvokeParam()", "invoke.c"), ("write_default_prologue()/RetInstr()", "proc.c")])
p("C13", "64-bit calls made with INVOKE follow the ABI and deliver arguments",
  "In 64-bit code, for every signature and argument list accepted by INVOKE under the Win64 fastcall and System V conventions, each argument is in the location the ABI defines when the callee starts and is what the callee's named parameter reads, the stack is aligned as the ABI requires at the call, USES registers survive, LOCALs do not overlap, and the stack pointer is restored.",
  ["programs", "inputs", "configurations"],
  "all signatures up to a bounded number of parameters x argument kinds x frame options x USES/LOCAL sets, executed",
  "Shadow space, alignment and register/stack assignment depend on the whole signature and on options; tests compare bytes of a few calls.",
  ["invoke.c", "proc.c"],
  [("ms64_fcstart()/ms64_param()/sysv_param()", "invoke.c"), ("win64 prologue/epilogue writers", "proc.c")])
p("C14", "Win64 unwind data describes the prologue that was generated",
  "For every FRAME procedure, explicit or automatic, the emitted function table and unwind information describe exactly the pushes, allocations, saves and frame register set-up the prologue performs, at the right offsets, so that unwinding from any instruction restores the caller's registers and stack pointer.",
  ["programs"],
  "all sequences of prologue directives up to a bounded length with allocation sizes at each encoding boundary, plus automatic frames",
  "Encodings change at size boundaries (8, 128, 512K) and with order; nothing in the tests decodes unwind data.",
  ["proc.c", "coff.c"],
  [("ExcFrameDirective()/WriteSEHData()", "proc.c")])
p("C15", "Every relocatable reference resolves to its symbol plus addend",
  "For every reference to a local, external, segment-relative or section-relative symbol and every output format, applying the relocations of the object file as its format specifies yields the address of that symbol plus the written offset; formats that cannot express a reference reject it.",
  ["programs", "configurations"],
  "all reference kinds x target kinds x addends x sections x output formats (COFF, Win64, ELF32, ELF64, OMF, Mach-O), linked by independent readers at chosen bases",
  "Each object writer translates fixups its own way, partly with in-place addends; most object formats have no expected files in the tests at all.",
  ["fixup.c", "codegen.c", "data.c", "coff.c", "elf.c", "omf.c", "omffixup.c", "macho64.c"],
  [("CreateFixup()/store_fixup()", "fixup.c"), ("coff_write_fixups()", "coff.c"), ("write_relocs32/64()", "elf.c"), ("GenFix()", "omffixup.c")])
p("C17", "The location counter obeys every segment, ORG, ALIGN and EVEN directive",
  "For every sequence of segment openings, closings, re-openings, data, ORG, ALIGN and EVEN directives, each byte and label is at the offset the sequence defines, alignment padding reaches exactly the next multiple, reopened segments continue where they stopped, and mismatched nesting is an error.",
  ["histories"],
  "all directive sequences up to a bounded length over two segments and small sizes",
  "It is a history-dependent state machine over several segments; tests have a few straight-line uses.",
  ["segment.c", "posndir.c", "simsegm.c", "bin.c"],
  [("SegmentDir()/EndsDir()/push_seg()/pop_seg()", "segment.c"), ("OrgDirective()/AlignDirective()", "posndir.c"), ("SetOfs", "segment.c")])
p("C18", "Binary, MZ and PE images are consistent and place every byte where addressed",
  "For every module written directly as BIN, MZ or PE, the image headers agree with the file contents, sections or segments neither overlap nor lose bytes, every absolute, relative and segment reference in the image points at the byte its symbol labels, and all load-time relocations needed are listed, and only those.",
  ["programs", "configurations"],
  "all arrangements of a bounded number of segments with classes, alignments, groups, sizes (including zero and uninitialised) and references between them",
  "The linker-like layout code depends on the whole arrangement; tests hold a few images.",
  ["bin.c", "segment.c"],
  [("CalcOffset()/DoFixup()/pe_set_values()/bin_write_module()", "bin.c")])
p("C19", "PUSHCONTEXT/POPCONTEXT, ASSUME, RADIX and CPU state behave as a stack machine",
  "After any sequence of PUSHCONTEXT, POPCONTEXT, ASSUME, .RADIX, alignment and cpu directives, the state in force is that of the matching push plus later directives, in every pass, and an unmatched POPCONTEXT is an error.",
  ["histories"],
  "all directive sequences up to a bounded length; after each, the state is observed through its effect on code",
  "History-dependent state, replayed once per pass; tests contain one or two uses.",
  ["context.c", "assume.c", "cpumodel.c", "directiv.c"],
  [("ContextDirective()/ContextSaveState()", "context.c"), ("SetSegAssumeTable()", "assume.c")])
p("C20", "A module's output depends only on that module and its options",
  "Assembling a module gives the same output bytes, diagnostics and verdict whether it is assembled alone, repeatedly, or after any other modules in the same invocation, and the invocation's exit status is failure exactly when some module failed.",
  ["histories"],
  "all ordered sequences of modules up to a bounded length from a pool that exercises each stateful feature, failing modules included",
  "The program keeps dozens of global variables across modules; every test assembles one module per process.",
  ["main.c", "assemble.c", "cmdline.c", "symbols.c", "macro.c", "input.c", "option.c", "reswords.c"],
  [("AssembleInit()/AssembleFini()", "assemble.c"), ("ReswTableInit()/ResWordsFini()", "reswords.c")])
p("C21", "A failed read, write or allocation is never reported as success",
  "If any file operation or memory allocation fails at any point of an assembly, the assembler ends with a non-zero status and a diagnostic and does not crash or hang; exit status zero means that every requested output file is complete.",
  ["fault_sequences"],
  "every single failure point (n-th open, read, write, seek, close, allocation) of assemblies in each output format with listing",
  "Tests never inject faults.",
  ["assemble.c", "coff.c", "elf.c", "bin.c", "omf.c", "omfint.c", "macho64.c", "listing.c", "memalloc.c", "errmsg.c", "input.c"],
  [("fwrite() result checks / WriteError()", "*.c object writers"), ("Fatal()", "errmsg.c"), ("OUT_OF_MEMORY", "memalloc.c")])
p("C22", "Errors are reported at the right place and always decide the outcome",
  "For every source with an erroneous line, wherever it stands (main file, include, macro, repeat block, conditional, any pass), the diagnostic names the file and line of the erroneous statement, the error file lists it, the exit status is non-zero and no object file is left; a source without errors gives status zero, no error file and an object file.",
  ["programs", "configurations"],
  "all placements of each error kind in a bounded family of source structures",
  "Line bookkeeping across includes, macros and passes is history dependent; tests fix a few .err files.",
  ["errmsg.c", "input.c", "assemble.c", "fastpass.c", "macro.c", "cmdline.c"],
  [("EmitErr()/PutMsg()", "errmsg.c"), ("print_source_nesting_structure()", "input.c"), ("RemoveErrFile/obj deletion in close_files()", "assemble.c")])
p("C23", "No input makes the assembler crash, corrupt memory or run away",
  "For every source text the assembler terminates, with a diagnostic where the text is invalid, and never accesses memory out of bounds, uses freed memory, or dies by a signal. (A macro loop which the source itself makes endless, or output larger than the memory or disk, is the source's own doing.)",
  ["inputs"],
  "all single mutations of a bounded class at every place of every statement of a catalogue, every directive with all operand lists up to two tokens, every nestable or repeatable construct to every depth, all under AddressSanitizer",
  "Tests feed meaningful programs only.",
  ["tokenize.c", "parser.c", "expreval.c", "preproc.c", "directiv.c", "data.c", "types.c", "proc.c", "invoke.c", "hll.c", "macro.c", "string.c"],
  [("argument checks of each directive", "*.c")])
p("C24", "Equivalent ways of writing a module assemble to the same bytes",
  "Splitting a module into include files, wrapping lines in macros, repeat blocks or true conditionals, continuing or commenting lines, changing keyword case or white space, and adding unrelated forward references leave the emitted code and data unchanged.",
  ["programs"],
  "all single and pairwise applications of the rewritings at every line of a pool of modules covering each directive family",
  "Saved-line replay and preprocessing take different code paths per form; tests assemble each source in one form only.",
  ["fastpass.c", "preproc.c", "input.c", "tokenize.c", "assemble.c"],
  [("StoreLine()/SaveState()/RestoreState()", "fastpass.c"), ("OnePass()", "assemble.c")])
p("C25", "The listing shows the bytes and offsets that are in the object file",
  "In every listing the offset and code bytes printed beside each statement are the ones in the output file at that place, every source line appears once and in order under .LIST, and the symbol table lists each symbol with its actual value.",
  ["programs", "configurations"],
  "all statement kinds x segments x listing options in sequences up to a bounded length",
  "No test compares a listing.",
  ["listing.c", "assemble.c", "segment.c"],
  [("LstWrite()", "listing.c"), ("LstWriteCRef()", "listing.c")])
p("C26", "Line-number debug information maps every code address to its source line",
  "With line numbers requested (-Zd, -Zi, -Zi5), the line table of a COFF or OMF object maps the address of every instruction to the source file and line that produced it (for a macro expansion the line of the outermost call), in ascending address order, for code from the main file, includes, macros, repeat blocks and generated statements, in every segment and procedure; the function records of COFF (.bf, .lf, .ef, sizes, links) agree with the table. (A COFF function belongs to one file: code another file includes inside a PROC is outside, as are the -Zi8 debug$S tables.)",
  ["programs", "configurations"],
  "all arrangements of instructions, procedures, macros and includes up to a bounded length in COFF and OMF",
  "No stable test covers debug output.",
  ["linnum.c", "coff.c", "omf.c"],
  [("AddLinnumDataRef()", "linnum.c"), ("WriteLinnums", "coff.c, omf.c")])
p("C27", "Names resolve to the definition in scope and are exported as declared",
  "Every use of a name, before or after its definition, resolves to the definition its scope rules select (procedure-local, anonymous @@, macro-local, structure member, global, with the case option in force), and the object's symbol table exports exactly the names declared public and imports exactly the externals used, with the decoration the language type demands.",
  ["programs", "configurations"],
  "all arrangements of definitions and uses of two names over nested scopes up to a bounded length x case options x language types x formats",
  "Scope and forward reference handling is order dependent; tests sample it.",
  ["symbols.c", "label.c", "proc.c", "extern.c", "mangle.c", "coff.c", "elf.c", "omf.c"],
  [("SymLookup()/SymLookupLocal()/SymFind()", "symbols.c"), ("Mangle()", "mangle.c"), ("PublicDirective()/ExternDirective()", "extern.c")])
p("C28", "Command-line options have their documented effect in any order",
  "Every combination and order of command-line options, whether given as arguments, in the environment or in a response file, selects the same output format, file names, definitions, include search and strictness as documented, options apply to the files that follow them, and an unknown or malformed option is reported and has no other effect; no option or file name, however long, brings the assembler down.",
  ["configurations", "histories"],
  "all sequences of options up to a bounded length from the option table, in each of the three sources",
  "Tests use a dozen fixed command lines.",
  ["cmdline.c", "main.c", "input.c"],
  [("ParseCmdline()/ProcessOption()", "cmdline.c"), ("SearchFileInPath()", "input.c")])
p("C29", "An instruction is accepted exactly when the selected CPU has it",
  "At every point of a source, an instruction or register is accepted if and only if the cpu, coprocessor and code-size directives then in force include it; any sequence of cpu directives leaves exactly the set of the last ones in force.",
  ["histories", "configurations"],
  "all instructions x all cpu directives, and all sequences of cpu directives up to a bounded length followed by probes",
  "Needs every instruction under every cpu level and directive history; tests use a few.",
  ["cpumodel.c", "parser.c", "reswords.c", "H/instruct.h"],
  [("SetCPU()", "cpumodel.c"), ("cpu check in codegen/parser", "parser.c, codegen.c")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
