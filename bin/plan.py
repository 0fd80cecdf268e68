"""What each property's check runs."""
# replay modes: v = varint, f = fixed width; s = with bulk vectors; L = with library features
def features(mode):
    f = []
    if 'f' in mode: f.append('fixed')
    if 's' in mode: f.append('specv')
    if 'L' in mode: f.append('libs')
    return ','.join(f)
STD = 'ints,scalars,wrappers,seqs,colls,vecs'
ALL = STD + ',libs,libvecs'
M4 = ['vL', 'f', 'vs', 'fsL']
BOTH = ['v', 'f']
V2 = ['var', 'fixed']
D2 = ['dvar', 'dfixed']
RULE = ('replay cases are built from the reference codec (random and boundary values per type, every prefix, every single-byte '
        'corruption, every chunking policy); a case is non-trivial when it involves at least one byte of input')
TRUSTED = [
    'Verus 0.2026.09.13.671956e and its Z3; rustc macro expansion (-Zunpretty=expanded)',
    'vx extraction: prints each function from the expanded token stream; rewrites R1-R10 listed in vx/src/rewrite.rs',
    'std contracts stated in v/00_prelude.vrs: io::Read/io::Write, to_le_bytes/from_le_bytes, and the std specifications of vstd',
]
ASSUMPTIONS = [
    'usize is 64 bits',
    'readers and writers supplied by users satisfy the std::io::Read/Write contracts as stated in the prelude',
    'type parameters are instantiated with types whose own functions satisfy the trait contracts (proved here for the built-in types under contract)',
]
def p(v, replay, level='proof', **k):
    return dict(v=v, replay=replay, level=level, **k)
DL = 'exploration'
PLAN = {
    'C01': p(V2, [('core', ['ints', 'layout,roundtrip,malformed,errkind'], BOTH)]),
    'C02': p(V2, [('core', ['scalars', 'layout,roundtrip,malformed,errkind'], BOTH)]),
    'C03': p(V2, [('core', ['wrappers,seqs,colls,vecs', 'roundtrip'], ['v', 'f', 'vs', 'fs']), ('core', ['longcolls', 'roundtrip'], ['v', 'fs'])]),
    'C04': p(V2, [('core', ['vecs,long,libvecs', 'layout,roundtrip,skip,trunc'], ['vL', 'fL', 'vsL', 'fsL'])]),
    'C05': p(V2, [('core', ['wrappers,seqs,colls', 'layout'], BOTH)]),
    'C06': p(V2, [('core', ['libs,libvecs', 'layout,roundtrip,skip,malformed,errkind'], ['vL', 'fsL'])]),
    'C07': p(V2, [('core', [STD, 'skip'], ['f', 'vs']), ('core', ['longcolls', 'skip'], ['f', 'vL']), ('core', [ALL, 'skip'], ['vL', 'fsL'])]),
    'C08': p(V2, [('core', [STD, 'trunc'], ['f', 'vs']), ('core', [ALL, 'trunc'], ['vL', 'fsL'])]),
    'C09': p(V2, [('core', [STD, 'malformed,errkind'], ['f', 'vs']), ('core', [ALL, 'malformed,errkind'], ['vL', 'fsL'])]),
    'C10': p(V2, [('opt', ['cursor'], BOTH)]),
    'C11': p(V2, [('walk', ['std'], ['v', 'fs', 'vsL'])]),
    'C12': p(V2, [('core', [STD, 'io'], ['f', 'vs']), ('core', [ALL, 'io'], ['vL', 'fsL'])]),
    'C13': p(V2, [('opt', ['tag'], BOTH)]),
    'C14': p(V2, [('indexed', ['codec'], ['v', 'f', 'vs'])]),
    'C15': p(V2, [('indexed', ['access'], ['v', 'f'])]),
    'C16': p(V2, [('indexed', ['corrupt'], ['v', 'f', 'vs'])]),
    'C17': p(D2, [('derive', ['legacy,opt,ovr', 'layout'], BOTH)], level=DL),
    'C18': p(D2, [('derive', ['legacy,opt', 'migrate'], BOTH)], level=DL),
    'C19': p(D2, [('derive', ['opt', 'layout,migrate,skip'], ['v', 'fs'])], level=DL),
    'C20': p(D2, [('derive', ['legacy,opt,ovr', 'skip,walk'], ['v', 'fs'])], level=DL),
    'C21': p(D2, [('derive', ['ovr', 'layout,migrate,skip,walk'], ['v', 'f', 'vs', 'fs'])], level=DL),
}
TECHNIQUE = 'contract-based deductive verification of the real code (Verus on mechanically extracted functions), contracts replayed on the compiled code'
NOTE = ('Proved for all inputs for the functions listed as proved in the evidence; functions the verifier cannot reach are checked by '
        'bounded replay of the same contract on the compiled code and are listed as bounded. Trusts Verus/Z3, rustc expansion, the '
        'extraction rewrites and the std contracts in v/00_prelude.vrs.')
NOTES = 'See DESIGN.md. Every check rebuilds from /repo: expansion, extraction, verification and replay.'
NA = {}
