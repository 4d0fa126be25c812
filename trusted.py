"""Assumptions left unchecked, reported in every evidence file."""
BASE = [
    'clang-18 lowers the C++ of /repo to LLVM IR faithfully (-O0, x86-64, the same sources the build compiles); gcc compiles them to the same behaviour',
    'z3 is sound; the verification-condition generator in /verif/vcg is sound',
    'the C and C++ libraries meet their documented behaviour (assumed contracts: strtoll, strtof, errno, memcpy/memset/memcmp, snprintf family, '
    'string_view comparison, std::string, std::vector, std::unordered_map, std::optional, std::unique_ptr, std::ranges::find/count, fstreams, stdio, exit)',
    'memory allocation succeeds; exceptions (bad_alloc, length_error) are not modelled; destructors of library types are no-ops',
    'source texts are NUL-free and shorter than 2^29 bytes, hence at most 2^28 instructions and addresses below 2^30',
    'the composition of the function contracts (tokenizer -> operands, directives, annotations -> instruction -> program) is argued in DESIGN.md, not mechanised; '
    'each contract is used only at calls of a function that has a unit of its own (the call graph unit shows there is no recursion)',
    'the golden specification (spec/isa.txt, spec/operands.py, spec/sysregs.py) is the Maxwell ISA as nxas documents and tests it',
]
TXT = 'a token struct is described by the position it starts at; payload bytes a token kind does not define are arbitrary'
PROP = {
    'C01': [TXT],
    'C02': [TXT, 'iterator and pointer invalidation of library containers is not modelled beyond their length',
            'stack and heap exhaustion are out of scope (no recursion; allocations are linear in the text)'],
    'C03': [TXT, 'strtoll returns the C value of the literal and sets errno to ERANGE exactly when it does not fit'],
    'C04': [TXT, 'strtof is correctly rounded (glibc documents it); single/double conversions are IEEE-754'],
    'C06': ['at most 2^28 instructions; the semicolon count equals the number of instructions by the "semicolon" obligations of C02 and C10'],
    'C08': ['addresses stay below 2^30 (texts shorter than 2^29 bytes)', 'unordered_map keyed by string_view compares keys by their characters'],
    'C10': ['strtoll and strtof as documented, in the "C" locale'],
    'C12': ['code of at most 2^29 - 64 words; the label main is at a multiple of 8 (proved by the labels unit)'],
    'C13': ['diagnostics shorter than 2^30 bytes; stderr is writable'],
    'C14': ['argc < 2^30; streams report failures through their state bits; the file does not change while it is read'],
}
