import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p('C01','Every accepted instruction gets exactly its Maxwell encoding',
 'For every line of assembly, the 64-bit instruction word is the opcode of the first instruction form (in table order) that accepts the whole operand list, with every operand field, modifier, default and flag at the bit position and with the value the Maxwell ISA gives it, and every other bit zero. Text that no form accepts is rejected, and text that some form accepts is never rejected.',
 ['inputs'],'over all 265 instruction forms, all modifier combinations, all token sequences and all operand values',
 'the 1110 tests sample one or a few operand combinations per form and compare one word; the operand values, modifier combinations and form-selection choices are unbounded',
 ['src/parse.cpp','src/table.h','src/operand.h','src/helper.cpp','src/opcode.h'],
 [('instruction table','src/table.h'),('operand functions','src/operand.h, src/helper.cpp'),('form selection loop','src/parse.cpp parse_instruction / parse_insn')],
 [('op.value','instruction word under construction','src/opcode.h')],['nxas::assemble output words'])
p('C02','No source text makes the assembler crash, abort or touch memory out of bounds',
 'For every NUL-free source text (well-formed or garbage) assembling either succeeds or exits with status 1 after a diagnostic: it never trips an assertion, overflows, shifts out of range, dereferences out of bounds, reads past the end of the text or of a name table, reads a token payload of the wrong kind, or throws. In particular no two operands or modifiers of one instruction form can ever claim the same bit of the instruction word.',
 ['inputs','programs'],'over all source texts',
 'tests run single well-formed instructions (and some rejected ones); they never reach the conflicting modifier pairs, truncated texts or odd token kinds that abort',
 ['src/parse.cpp','src/operand.h','src/helper.cpp','src/context.cpp','src/opcode.h','src/table.h','src/nxas.cpp'],
 [('add_bits / add_reuse overlap assertions','src/opcode.h'),('token kind checks','src/helper.cpp confirm_type, equal, find_in_table'),('text bounds by NUL terminator','src/context.cpp')],
 [],['process exit status'])
p('C03','Integer operands are encoded exactly or rejected, never truncated',
 'An integer operand (immediate, offset, index, mask, shift, constant-buffer bank or address) is accepted exactly when it is in the representable range of its field (two\'s complement for signed fields) and satisfies the field\'s alignment, and then the field holds exactly that value. Any integer outside the range, misaligned, or too large for 64 bits is rejected with a diagnostic; it is never wrapped, clamped, truncated or spilled into neighbouring bits.',
 ['inputs'],'over all 64-bit integers for each of the integer field kinds (unsigned, signed, split 20-bit, memory offsets with zero or non-zero base, constant-buffer offsets)',
 'tests try a few values, rarely the exact boundaries and never all 2^64',
 ['src/operand.h','src/helper.cpp','src/context.cpp'],
 [('convert_integer','src/helper.cpp'),('assemble_uint/assemble_int/uimm_extended','src/operand.h'),('memory::address, cbuf','src/operand.h, src/helper.cpp')])
p('C04','Floating-point immediates encode the correctly rounded IEEE value and sign',
 'A floating-point literal (or integer, INF, QNAN, with + or -) in a single, double or half immediate is encoded as the IEEE value of the literal: 32-bit immediates hold the single-precision bits, 20-bit immediates hold its sign and top 19 exponent/fraction bits (of the single or double format), half immediates hold the value rounded to nearest-even binary16 (with its sign in the sign bit or the dedicated negate bit). Signs are preserved for zeros, infinities and NaNs, and an integer that is not exactly a single-precision value is rejected where a single-precision immediate is expected.',
 ['inputs'],'over all 2^32 single-precision values, all 64-bit integers and the named values, for each of the immediate kinds',
 'tests check a handful of literals per form',
 ['src/helper.cpp','src/fp16.h','src/operand.h'],
 [('assemble_float_immediate / assemble_double_immediate / assemble_half_float_immediate','src/helper.cpp'),('fp32_to_fp16','src/fp16.h')])
p('C05','Scheduling annotations are encoded exactly and validated',
 'The @WAIT n, @WB n, @RB n, @DEP n and @Y/@YIELD annotations after an instruction, in any order, produce a control field with stall count n (0..15, default 0) in bits 0-3, yield in bit 4, write barrier (0..5, default 7) in bits 5-7, read barrier (0..5, default 7) in bits 8-10 and the set of waited barriers (0..5) in bits 11-16, and nothing else. Duplicate annotations (or a repeated @DEP index), out-of-range or non-integer values and unknown annotation names are rejected.',
 ['inputs'],'over all annotation sequences of any length and order and all values',
 'no test looks at the control words at all',
 ['src/parse.cpp','src/opcode.h'],
 [('assemble_sched loop','src/parse.cpp'),('opcode::sched bit-fields','src/opcode.h')])
p('C06','Output layout: one control word per three instructions, lanes and padding',
 'For a program of n instructions the code is ceil(n/3) groups of four words: a control word followed by three instruction words in source order. Lane k (21 bits at 21k) of a control word holds the k-th instruction\'s control field in bits 0-16 and its register-reuse flags in bits 17-20; missing instructions of the last group are encoded as 0x50B0000000070F00 with lane 0x7E0, and an empty program produces no words.',
 ['programs'],'over programs of any number of instructions with any control fields and reuse flags',
 'tests assemble a single instruction and compare only word 1: control words, later groups, lanes 1 and 2 and padding are never looked at',
 ['src/nxas.cpp','src/opcode.h'],
 [('group emission loop','src/nxas.cpp assemble'),('generate_sched','src/nxas.cpp')],
 [('opcodes','per-instruction word, control and reuse','src/nxas.cpp')],['nxas::assemble result'])
p('C07','Guard predicates and register reuse flags',
 'An instruction guarded by @[!]Pi carries i in bits 16-18 and the negation in bit 19, an unguarded one carries 7 and 0, and the forms that do not support predication reject every guard other than PT (negated or not). A .reuse suffix on a source register sets exactly the reuse flag of that operand slot (bit 0 for the register at bit 8, bit 1 at bit 20, bit 2 at bit 39), is rejected on any other register slot, and never changes the instruction word.',
 ['inputs'],'over all guards, all instruction forms, and all combinations of .reuse suffixes',
 'tests never look at reuse flags (they live in the control word) and pair few forms with guards',
 ['src/parse.cpp','src/helper.cpp','src/operand.h','src/nxas.cpp'],
 [('assemble_predicate, NO_PRED check','src/parse.cpp'),('try_reuse / add_reuse','src/helper.cpp, src/opcode.h')])
p('C08','Labels and branch displacements',
 'A label (a letter followed by letters, digits or underscores at the start of a line, then a colon) names the address of the next instruction, where instruction k sits at byte address 8*(k + k/3 + 1); the first definition of a name wins. A branch to a label or absolute integer address encodes target - (own address + 8) as a 24-bit two\'s complement value, low 23 bits at bit 20 and the sign at bit 43, and is rejected when the label is undefined or the displacement does not fit.',
 ['programs'],'over programs of any length, label positions (forward and backward), label spellings and absolute targets',
 'tests hold a single instruction, so labels, displacements over control words and ranges are untested',
 ['src/context.cpp','src/operand.h','src/parse.cpp'],
 [('generate_labels','src/context.cpp'),('label operand','src/operand.h'),('pc bookkeeping','src/parse.cpp parse_instruction')],
 [('ctx.pc','address of the current instruction','src/context.h'),('labels','name to address map','src/context.h')])
p('C09','Instructions are independent; failed form attempts leave no residue',
 'The word, control field and reuse flags of an instruction depend only on its own text, its address, the guard and the label addresses: forms tried and rejected before the accepted one, and the other instructions and directives of the program, contribute no bits and consume no text. Assembling is deterministic.',
 ['histories','programs'],'over all sequences of rejected forms before an accepted one, and all surrounding programs',
 'tests assemble one instruction per process and mostly hit forms whose rejected predecessors fail before touching bits',
 ['src/parse.cpp','src/nxas.cpp','src/operand.h'],
 [('saved_context / saved_op restore','src/parse.cpp parse_instruction'),('fresh opcode per instruction','src/nxas.cpp')])
p('C10','Tokenization: classification, values and positions',
 'Source text splits into tokens exactly as the grammar says: blanks separate, operators stand alone, Pn/PT (optionally negated) are predicates 0..6/7, Rn/RZ are registers 0..254/255, decimal, octal and hex integers and decimal fractions are literals with their C value, a word ending in a colon is skipped, anything else up to the next separator is a word; malformed predicates, registers and literals are rejected. Each token carries the zero-based line and column of its first character (a tab advances the column by 4).',
 ['inputs'],'over all NUL-free texts of any length and all positions in them',
 'tests use a fixed whitespace style, on one line',
 ['src/context.cpp','src/token.h'],
 [('tokenize','src/context.cpp'),('next: line/column bookkeeping','src/context.cpp')],
 [('text/line/column','read position','src/context.h')])
p('C11','Directives set exactly the program properties they name',
 '.dksh T and .type T select the program type (vertex, tess_control/hull, tess_eval/domain, geometry, fragment/pixel, compute; once only) and the container; .num_gprs, .local_memory, .shared_memory take one non-negative integer and .workgroup_size three, and set exactly that property, the last occurrence winning. Unknown types, missing or non-integer or oversized values, and anything else on the directive\'s line are rejected.',
 ['inputs','configurations'],'over all directive sequences and values',
 'no test contains a directive',
 ['src/options.cpp','src/parse.cpp','src/context.h'],
 [('parse_option','src/options.cpp'),('option loop','src/parse.cpp parse_instruction')])
p('C12','DKSH container layout',
 'With .dksh compute the output is a 256-byte control section followed by the code zero-padded to a multiple of 256 bytes: a DKSH header (magic, header size 24, control size 256, code size equal to the padded code section in bytes, programs at 24, one program) and one program header with type, entry point (address of label main minus 8), register count, scratch size 32*align16(local memory)+0x800, workgroup dimensions, shared memory rounded up to 256, local memory rounded up to 16, call stack size 0x800 and zero everywhere else. It is rejected when no main label exists or main is not at the start of an instruction group; without .dksh the output is the bare code.',
 ['configurations','programs'],'over all code sizes, directive values and positions of main',
 'no test produces a container',
 ['src/dksh.cpp','src/write.cpp'],
 [('write_dksh','src/dksh.cpp'),('binary','src/write.cpp')])
p('C13','Diagnostics: exit status 1, the right position, and no output',
 'Whenever a program is rejected the process exits with status 1 after writing one diagnostic line to standard error, and for a fault in the source that line starts with file:line:column, 1-based, of the token that could not be accepted (among several rejected forms, that of the form that got furthest, the first such in table order). Nothing is written to the output file in that case.',
 ['inputs'],'over all rejected programs',
 'negative tests only check that the exit status is non-zero',
 ['src/error.cpp','src/error.h','src/parse.cpp','src/helper.cpp','src/command_line.cpp'],
 [('fail / fatal_error / raise','src/error.cpp'),('best-score error selection','src/parse.cpp parse_instruction')])
p('C14','Command line: exactly one input and one -o output, bytes written verbatim',
 'The command line accepts exactly one input file and one -o output file in any order; a missing or duplicate input, a missing or duplicate -o, or -o without a file name is rejected with status 1, as are an unreadable input, an unwritable output and a failed write. On success the output file holds exactly the assembled words in little-endian order and the status is 0.',
 ['configurations','fault_sequences'],'over all argument vectors, file contents and I/O failures',
 'tests call the library, never the command line program',
 ['src/command_line.cpp'],
 [('argument loop','src/command_line.cpp main'),('read_file','src/command_line.cpp')])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
