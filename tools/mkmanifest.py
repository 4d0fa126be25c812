import json
T = 'contract-based deductive verification of the LLVM IR of /repo (VC generator + z3), failed obligations replayed on the real code'
NOTE = {
 'C01': 'every operand function is proved against its specification for all token sequences and words, the table is read from the program itself; form selection is proved per mnemonic',
 'C02': 'safety obligations (bounds, overflow, shifts, assertions, token payload kinds) of the same proofs, all inputs',
 'C03': 'operand contracts of every integer-taking operand, all 2^64 values',
 'C04': 'operand contracts of the float operands plus floating-point lemmas and the half conversion for all 2^32 inputs; strtof trusted',
 'C05': 'annotation loop against its specification',
 'C06': 'emission loops against the layout rule',
 'C07': 'register operand contracts, guard predicate, NO_PRED forms',
 'C08': 'label operand contract, label scan, program counter',
 'C09': 'frame conditions of operand and form-selection proofs',
 'C10': 'tokenizer against the grammar; strtoll/strtof trusted',
 'C11': 'directive parser against its specification',
 'C12': 'container writer against the header layout, bit-precise',
 'C13': 'positions and exit paths of every proof unit; stdio trusted',
 'C14': 'command line; stream library trusted',
}
m = {'version': 1,
     'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())"',
     'checks': [{'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p,
                 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                 'technique': T, 'level': 'proof', 'level_note': NOTE[p]} for p in sorted(NOTE)],
     'not_applicable': [],
     'notes': 'No hooks in /repo. Genuine defects found were repaired in fix: commits, see known-findings.txt and DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
