CH = 'TLA+ specification of the on-chain instructions, model-checked with every single wrong account; its behaviours replayed into the real program and validated with TLC'
for i in range(14, 18): T['C%d' % i] = (CH, 'the real entry point runs over a stand-in runtime with the real SPL token program; TLC judges every step; every single substitution of an account in one world, random behaviours beyond')
T['C18'] = ('TLA+ specification of the set of ticks, model-checked; every transition and random sequences replayed into the real bitmap and validated with TLC', 'every step of a small set at many places of the map, and random sequences; all 256 bytes')
DE = 'TLA+ specification of the decimals; recorded calls of the real code judged with TLC'
T['C19'] = (DE, 'all pairs of small decimals for all operations; chains of random calls on operands up to 128 bits')
T['C20'] = (DE, 'random arguments of all magnitudes and special ones, against exact integer arithmetic')
T['C22'] = ('TLA+ automaton of numerals, model-checked; every text up to a length it generates, and random ones, parsed by the real code and judged with TLC', 'all texts up to length 5 over an alphabet, random numerals and decimals beyond')
FO = 'TLA+ specification of the formulas and ticks, its laws model-checked; recorded calls of both pools judged with TLC'
T['C21'] = (FO, 'tick prices up to 2^18, and prices at and around ticks, of both pools')
T['C24'] = ('TLA+ specification of the pool, model-checked; its behaviours replayed into the real Python prototype, and recorded runs of it, validated with TLC', 'behaviours of the specification and random histories with ticks below 0, and the static formulas and conversions, in a python3 process that loads the prototype from /repo')
T['C23'] = (FO, 'random ranges, prices and amounts of all magnitudes, of both pools; the laws on a grid')
T['C25'] = (T['C15'][0], 'as C15; the program data logged by each instruction, decoded, against the movements of the token accounts')
