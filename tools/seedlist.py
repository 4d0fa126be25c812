seed('c01-fmul-scale', 'C01', 'src/operand.h', '"M8", "M4", "M2", "INVALIDSCALE37");', '"M2", "M4", "M8", "INVALIDSCALE37");',
     'FMUL with .M2 or .M8', 'the scale field', r'''
ok 'FMUL.M8 R0, R1, R2;' XX
ok 'FMUL.M2 R0, R1, R2;' XX
''')
seed('c01-f2f-pass', 'C01', 'src/operand.h', 'result = 0b0011;\n', 'result = 0b0100;\n',
     'F2F between equal formats with .PASS', 'the rounding field of .PASS', r'''
ok 'F2F.F32.F32.PASS R0, R1;' XX
''')
seed('c01-row-order', 'C01', 'src/operand.h', 'return fail(token, "3D can only have the default lod or LZ");',
     'op.add_bits(0x0160000000000000ULL);\n            break;',
     'TEXS.LL with a 3D texture', 'a combination that no Maxwell form encodes is accepted as the LZ form', r'''
bad 'TEXS.LL RZ, R0, R4, R5, 0x1, 3D, G;'
''')
seed('c02-count', 'C02', [('src/nxas.cpp', "std::ranges::count(code, ';') + 1;", "std::ranges::count(code, ';');"), ('src/nxas.cpp', 'assert(index == max_decode_instructions);', 'assert(index == max_decode_instructions + 1);')], None, None,
     'text after the last semicolon', 'an instruction without semicolon is written past the end of the instruction array', r'''
O=$(mktemp -d "$D/XXXX")
g++ -std=c++20 -O1 -g -fsanitize=address -I include -I src src/*.cpp -o "$O/nxas" || exit 3
N="$O/nxas"
export ASAN_OPTIONS=detect_leaks=0:exitcode=99
bad 'NOP;MOV R0, R1' 1:15
ok 'NOP;' XX
''')
seed('c02-zero-kind', 'C02', 'src/operand.h', 'if (token.type != token_type::immediate || token.data.immediate != 0) {', 'if (token.data.immediate != 0) {',
     'a token other than an integer whose payload happens to be zero, such as R0 or !... where 0 is expected',
     'the payload of the wrong kind of token is read (and R0 or an operator is taken for 0)', r'''
bad 'TXQ.B R0, R1, TEX_HEADER_DIMENSION, R0, 0x1;'
bad 'TXQ.B R0, R1, TEX_HEADER_DIMENSION, 0.0, 0x1;'
ok 'TXQ.B R0, R1, TEX_HEADER_DIMENSION, 0x0, 0x1;' XX
''')
seed('c03-cbuf-range', 'C03', 'src/helper.cpp', 'CHECK(convert_integer(token, INT16_MIN, INT16_MAX, &value));', 'CHECK(convert_integer(token, INT16_MIN, UINT16_MAX, &value));',
     'a constant buffer offset from 0x8000 up', 'offsets beyond the signed range are wrapped instead of rejected', r'''
bad 'IADD R0, R1, c[0x0][0x8000];'
bad 'IADD R0, R1, c[0x0][0xfffc];'
ok 'IADD R0, R1, c[0x0][0x7ffc];' XX
''')
seed('c03-addr-range', 'C03', 'src/operand.h', 'const int64_t max = max_bits(is_zero_reg ? size : (size - 1));', 'const int64_t max = max_bits(size - !is_zero_reg * (size > 16));',
     'LDC with a register and an offset from 0x8000 up', 'an offset that does not fit in the signed field is wrapped', r'''
bad 'LDC.32 R0, c[0x0][R1+0x8000];'
ok 'LDC.32 R0, c[0x0][R1+0x7fff];' XX
''')
seed('c04-half-tiny', 'C04', 'src/fp16.h', '} else if (exp > 101) {', '} else if (exp > 102) {',
     'a half immediate between 2^-25 and 2^-24', 'values that round to the smallest subnormal become zero', r'''
ok 'HADD2_32I R0, R1, 0.00000005, 0.0;' XX
''')
seed('c04-nan', 'C04', 'src/fp16.h', 'if (exp > 142) {', 'if (exp > 143) {',
     'a half immediate from 65536 up to 131072', 'overflow becomes a NaN or a finite value instead of infinity', r'''
ok 'HADD2_32I R0, R1, 70000.0, -131071.0;' XX
''')
seed('c04-f20', 'C04', 'src/helper.cpp', 'op.add_bits(static_cast<uint64_t>((raw << 1) >> 13) << 20);', 'op.add_bits(static_cast<uint64_t>(((raw + ((raw & 0x1FFF) == 0x1FFF)) << 1) >> 13) << 20);',
     'a single immediate whose 13 low bits are all ones', 'the 20-bit immediate is rounded up', r'''
ok 'FADD R0, R1, 1.0009764432907104;' XX
''')
seed('c05-dup-barrier', 'C05', 'src/parse.cpp', 'if (is_write ? write_barrier : read_barrier) {', 'if (is_write ? write_barrier.has_value() : (read_barrier && !write_barrier)) {',
     'a duplicate @RB after a @WB', 'a repeated read barrier is accepted', r'''
bad 'NOP @WB 0 @RB 1 @RB 2;'
''')
seed('c05-dep-set', 'C05', 'src/parse.cpp', '            if (wait_barrier & mask) {', '            if (wait_barrier >= mask * 2 - 1) {',
     'three @DEP in a particular descending order', 'a legal set of waited barriers is rejected', r'''
ok 'NOP @DEP 3 @DEP 1;' XX
ok 'NOP @DEP 1 @DEP 3;' XX
''')
seed('c06-lane', 'C06', 'src/nxas.cpp', 'if (index + address >= num_instructions) {', 'if (index + address > num_instructions) {',
     'a program whose length is not a multiple of three', 'the lane of the first missing instruction is zero', r'''
ok 'NOP;' XX
ok 'NOP;NOP;' XX
''')
seed('c07-nopred-p3', 'C07', 'src/parse.cpp', '(~op.value & (7ULL << 16))', '(~op.value & (3ULL << 16))',
     'a guard of P3 on a form without predication', 'the guard P3 is accepted where none but PT is', r'''
bad '@P3 SSY 0x100;'
bad '@P3 CAL 0x100;'
bad '@!P3 PBK 0x100;'
''')
seed('c07-reuse39', 'C07', 'src/helper.cpp', '    case 39:\n        op.add_reuse(reuse_flag::gpr39);', '    case 39:\n        op.add_reuse(op.reuse ? reuse_flag::gpr39 : 8U);',
     '.reuse on the third source only', 'the flag of the wrong slot is set', r'''
ok 'FFMA R0, R1, R2, R3.reuse;' XX
ok 'FFMA R0, R1.reuse, R2, R3.reuse;' XX
''')
seed('c08-last-wins', 'C08', 'src/context.cpp', 'labels.insert({std::move(label), pc});', 'labels.insert_or_assign(std::move(label), pc);',
     'a label defined twice', 'the last definition wins', r'''
ok 'a:\nNOP;\na:\nBRA a;' XX
''')
seed('c08-disp-min', 'C08', 'src/operand.h', 'static constexpr int64_t min = -static_cast<int64_t>(max_bits(23)) - 1;', 'static constexpr int64_t min = -static_cast<int64_t>(max_bits(24)) - 1;',
     'a displacement below -2^23', 'a displacement that does not fit is truncated', r'''
bad 'BRA -8388609;'
ok 'BRA -8388592;' XX
''')
seed('c09-static', 'C09', 'src/parse.cpp', '    const opcode saved_op = op;', '    static const opcode saved_op = op;',
     'two instructions with different guards, the second accepted by a later form', 'the guard of the first instruction leaks into the second', r'''
ok '@P1 NOP;IADD R0, R1, 0x1;' XX
''')
seed('c09-restore', 'C09', 'src/parse.cpp', '        op = saved_op;\n', '        op.value = saved_op.value;\n',
     '.reuse on an operand of a form that fails later', 'the reuse flag of the failed form remains and trips an assertion', r'''
ok 'FADD R0, R1.reuse, c[0x0][0x4];' XX
''')
seed('c10-r-long', 'C10', 'src/context.cpp', '''            const long long value =
                static_cast<int64_t>(std::strtoll(contents + 1, &conversion_end, 10));''', '''            const int value = static_cast<int>(std::strtoll(contents + 1, &conversion_end, 10));''',
     'a register index from 2^32 up', 'the index is truncated to 32 bits instead of rejected', r'''
bad 'MOV R0, R4294967297;' 1:9
bad 'MOV R0, R99999999999999999999;' 1:9
''')
seed('c10-crlf', 'C10', 'src/context.cpp', 'return is_contained(" \\t\\r\\n.", character) || is_operator(character) || !character;', 'return is_contained(" \\t\\n.", character) || is_operator(character) || !character;',
     'a carriage return directly after a word or literal', 'the carriage return becomes part of the word', r'''
ok '.type compute\r\nNOP\r\n;' XX
ok 'MOV R0, R1\r\n;' XX
''')
seed('c10-tab', 'C10', 'src/context.cpp', "        column += 4;\n", "        column = (column + 4) & ~3;\n",
     'a tab that is not at a multiple of four columns', 'the column of every later token of the line', r'''
bad 'NOP\tx;' 1:8
bad '\tNOP x;' 1:9
''')
seed('c11-wg-line', 'C11', 'src/options.cpp', '            block_dimensions[i] = static_cast<int>(token.data.immediate);\n        }\n        check_option_line();', '            block_dimensions[i] = static_cast<int>(token.data.immediate);\n            if (i < 2) {\n                check_option_line();\n            }\n        }',
     '.workgroup_size whose third value is on the next line', 'a directive takes its value from the next line', r'''
bad '.dksh compute\n.workgroup_size 1 2\n3\nmain:\nNOP;' 3:1
bad '.dksh compute\n.workgroup_size 1\n2 3\nmain:\nNOP;'
''')
seed('c11-shared', 'C11', 'src/options.cpp', '        shared_mem_size = static_cast<int>(token.data.immediate);', '        shared_mem_size = std::max(shared_mem_size, static_cast<int>(token.data.immediate));',
     '.shared_memory given twice, the second time smaller', 'the largest value wins, not the last', r'''
ok '.dksh compute\n.shared_memory 4096\n.shared_memory 256\nmain:\nNOP;' XX
''')
seed('c12-align', 'C12', 'src/dksh.cpp', 'return (value + 0xf) & ~0xf;', 'return (value + 0x7) & ~0x7;',
     'a local memory size that is 1 to 8 above a multiple of 16', 'local memory is rounded to 8', r'''
ok '.dksh compute\n.local_memory 24\nmain:\nNOP;' XX
''')
seed('c12-entry', 'C12', 'src/dksh.cpp', 'if (*entrypoint_code_offset % 32 != 8) {', 'if (*entrypoint_code_offset % 16 != 8) {',
     'main at the third instruction of a group', 'a misaligned entry point is accepted', r'''
bad '.dksh compute\nNOP;NOP;\nmain:\nNOP;'
bad '.dksh compute\nNOP;\nmain:\nNOP;'
''')
seed('c13-last', 'C13', 'src/parse.cpp', 'if (score > error_score) {', 'if (score >= error_score) {',
     'several forms that fail after the same number of operands at different tokens', 'the position of a later form is reported', r'''
bad 'FADD R0, R1, -;' 1:15
bad 'FMUL R0, R1, -;' 1:15
bad 'MOV R0, -;' 1:9
bad 'FADD R0, R1, c[0x0;' 1:14
bad 'MOV R0, c[0x0][0x2];' 1:9
''')
seed('c13-status', 'C13', 'src/error.cpp', '''    va_end(ap);
    std::fputc('\\n', stderr);

    std::exit(EXIT_FAILURE);
}

void fatal_error(const char* fmt, ...)''', '''    va_end(ap);
    std::fputc('\\n', stderr);

    std::exit(token.line + 1);
}

void fatal_error(const char* fmt, ...)''',
     'a tokenizer or directive fault on a line other than the first', 'the exit status is not 1 (0 on line 256)', r'''
bad 'NOP;\nMOV R0, R300;' 2:9
''')
seed('c14-append', 'C14', 'src/command_line.cpp', 'std::ofstream outfp(output_file, std::ios::binary);', 'std::ofstream outfp(output_file, std::ios::binary | std::ios::app);',
     'an output file that exists already', 'the words are appended to the old contents', r'''
ok 'NOP;' XX
ok 'NOP;' XX
''')
seed('c14-dup-in', 'C14', 'src/command_line.cpp', '        if (input_file) {', '        if (input_file && !output_file) {',
     'two inputs with -o before the second', 'a second input file is accepted', r'''
printf 'NOP;' > "$D/a.s"; printf 'NOP;NOP;' > "$D/b.s"
"$N" "$D/a.s" -o "$D/o" "$D/b.s" 2> /dev/null && no 'two inputs accepted'
"$N" "$D/a.s" "$D/b.s" -o "$D/o" 2> /dev/null && no 'two inputs accepted'
''')
seed('c08-long-name', 'C08', [('src/context.cpp', 'label.append(potential_label, static_cast<size_t>(text - potential_label));', 'label.append(potential_label, std::min<size_t>(static_cast<size_t>(text - potential_label), 31));'),
                              ('src/context.cpp', 'labels.find(std::string{label})', 'labels.find(std::string{label.substr(0, 31)})')], None, None,
     'two labels that agree in their first 31 characters', 'the first of the two is used for both', r'''
ok 'BRA a123456789a123456789a123456789a123456789b;\na123456789a123456789a123456789a123456789c:\nNOP;\na123456789a123456789a123456789a123456789b:\nNOP;' XX
''')
seed('c08-pc-far', 'C08', 'src/parse.cpp', 'if (ctx.pc % 0x20 == 0) {', 'if (ctx.pc % 0x20 == 0 && ctx.pc <= 0xFFFF) {',
     'a branch more than 64 KiB into the program', 'the control words behind 64 KiB are not counted in the position of the instruction', r'''
{ for i in $(seq 7000); do echo 'NOP;'; done; echo 'here:'; echo 'BRA here;'; } > "$D/far.s"
{ for i in $(seq 10); do echo 'NOP;'; done; echo 'here:'; echo 'BRA here;'; } > "$D/near.s"
"$N" "$D/far.s" -o "$D/far" || no 'rejected'
"$N" "$D/near.s" -o "$D/near" || no 'rejected'
# both branch to themselves and stand second in their group
[ "$(tail -c 16 "$D/far" | head -c 8 | od -An -tx8)" = "$(tail -c 16 "$D/near" | head -c 8 | od -An -tx8)" ] || no 'a branch to itself differs far into the program'
''')
seed('c06-reuse3', 'C06', 'src/nxas.cpp', 'static_cast<uint64_t>(op.reuse) << 17', 'static_cast<uint64_t>(op.reuse & 3) << 17',
     'a reuse flag on the third source operand', 'the flag is lost in the control word', r'''
ok 'FFMA R0, R1, R2, R3.reuse;' XX
''')
seed('c07-nopred-neg', 'C07', 'src/parse.cpp', '(~op.value & (7ULL << 16))', '(op.value & (15ULL << 16)) != (7ULL << 16)',
     'an explicit @!PT on an instruction without predicate', 'the guard @!PT, which names PT, is rejected', r'''
ok '@!PT SSY 8;' XX
ok '@PT SSY 8;' XX
''')
seed('c13-cut', 'C13', [('src/error.cpp', 'const int length = first_length + second_length + 1;', 'const int length = std::min(first_length + second_length + 1, 256);'),
                        ('src/error.cpp', '#include <cassert>', '#include <algorithm>\n#include <cassert>')], None, None,
     'a file name of more than 200 characters', 'the diagnostic is cut before the position, or written past the end of its buffer', r'''
O=$(mktemp -d "$D/XXXX")
g++ -std=c++20 -O1 -g -fsanitize=address -I include -I src src/*.cpp -o "$O/nxas" || exit 3
N="$O/nxas"
export ASAN_OPTIONS=detect_leaks=0:exitcode=99
L=$(printf 'd%.0s' $(seq 200))
mkdir -p "$D/$L/$L"
printf 'NOP;\nMOV R0, X;' > "$D/$L/$L/a.s"
timeout 60 "$N" "$D/$L/$L/a.s" -o "$D/o2" 2> "$D/e"
[ $? = 1 ] || no "status $?"
sed 's/\x1b\[[0-9;]*m//g' "$D/e" | grep -q "a\.s:2:9: error" || no "$(cat "$D/e")"
''')
seed('c09-reuse', 'C09', 'src/parse.cpp', '        op = saved_op;\n', '        op.value = saved_op.value;\n',
     'a form that fails after a .reuse operand, followed by one that matches', 'the reuse flag of the failed form stays set', r'''
ok 'FFMA R0, R1, R2.reuse, c[0x0][0x4];' XX
ok 'XMAD R0, R1.reuse, c[0x0][0x4], R2;' XX
ok 'IADD R0, R1.reuse, 1;' XX
ok 'IADD3 R0, R1, R2.reuse, R3;' XX
''')
seed('c11-entry', 'C11', 'src/options.cpp', '''        local_mem_size = static_cast<int>(token.data.immediate);
        check_option_line();
    }''', '''        local_mem_size = static_cast<int>(token.data.immediate);
        check_option_line();
    } else if (equal(token, ".entry")) {
        token = tokenize();
    }''', 'a directive .entry', 'a directive that does not exist is accepted and ignored', r'''
bad '.entry main\nNOP;'
bad '.entry 1\nNOP;'
''')
