"""what each check runs: harness modes, bounds; contracts are tagged with property ids in specs/"""
PROPS = {
 'C01': dict(level='proof', modes=['setops'], cases=50000),
 'C02': dict(level='proof', modes=['inplace'], cases=30000),
 'C03': dict(level='proof', modes=['queries'], cases=50000),
 'C04': dict(level='proof', modes=['aggregate'], cases=18000),
 'C05': dict(level='proof', modes=['points'], cases=50000),
 'C06': dict(level='proof', modes=['ranges'], cases=28000),
 'C07': dict(level='proof', modes=['order'], cases=120000),
 'C08': dict(level='proof', modes=['wellformed', 'validator'], cases=30000),
 'C09': dict(level='proof', modes=['serial'], cases=80000),
 'C10': dict(level='proof', modes=['untrusted'], cases=400000),
 'C11': dict(level='proof', modes=['iter'], cases=60000),
 'C12': dict(level='proof', modes=['cow'], cases=34000),
 'C13': dict(level='proof', modes=['transform'], cases=120000),
 'C14': dict(level='proof', modes=['set64', 'update64'], cases=6000),
 'C15': dict(level='proof', modes=['serial64', 'iter64'], cases=30000),
 'C16': dict(level='proof', modes=['bitset'], cases=600000),
 'C17': dict(level='proof', modes=['dispatch'], cases=4000),
 'C18': dict(level='other', modes=['map64ops', 'map64upd', 'map64iter', 'map64serial', 'cpp32'], cases=1500),
}
_B = ' The functions listed under functions_proved in the evidence file are proved for all inputs (every obligation, on every run); the remaining code the property depends on is covered by a BOUNDED stand-in: the executable contract run on the real, sanitized code over generated cases, counted separately and never as proved. A concrete failing case gives a VIOLATION with a replay file; a failed obligation on changed code without one gives no-failing-input-found.'
NOTE = {
 'C01': 'PROVED: sorted-array and bitset kernels and the container functions under contract (see evidence).',
}
for k, d in PROPS.items(): d['note'] = NOTE.get(k, '') + _B
NA = {'C18': 'The C++ wrappers are class templates over std::map, exceptions and std::function; the verifier reads the IR of the C library and cannot express contracts over libstdc++ red-black trees, and a bounded check alone would be a different technique. (The harness modes map64* and cpp32 in rt/ exist and found three defects, which are repaired; they are not registered as a check.)'}

CLAIM = ['C01','C02','C03','C04','C05','C06','C07','C08','C09','C10','C11','C12','C13','C14','C15','C16','C17']
for k in list(PROPS):
    if k not in CLAIM and k not in NA: NA[k] = 'contracts not written yet'
