"""What the check of each property consists of (see run.py)."""

TRACE_ROOTS = {
    'gkr': 'TraceGkrFr', 'gkrprove': 'TraceGkrProverFr',
    'sumprove': 'TraceSumcheckFr', 'sumverify': 'TraceSumcheckFr', 'summt': 'TraceSumcheckFr',
    'tables': 'TraceTablesFr', 'ranges': 'TraceTablesFr',
    'interp': 'TraceUniFr', 'evalpoly': 'TraceUniFr', 'lagrange': 'TraceUniFr',
    'gadget': 'TraceGadgetFr', 'gate': 'TraceGadgetFr', 'ids': 'TraceGadgetFr', 'combine': 'TraceGadgetFr',
    'sponge': 'TraceHashFr', 'digest': 'TraceHashFr', 'chal': 'TraceHashFr', 'sumchal': 'TraceHashFr',
    'session': 'TraceSession', 'pool': 'TracePool', 'copies': 'TracePool',
    'logs': 'TraceNumeralsFr', 'minmax': 'TraceNumeralsFr', 'print': 'TraceNumeralsFr', 'ints': 'TraceNumeralsFr',
    'convert': 'TraceNumeralsFr', 'env': 'TraceNumeralsFr',
    'eval': 'TraceCircuitFr', 'mimc': 'TraceCircuitFr', 'layer': 'TraceCircuitFr',
}

TRUST = ('Trusted: TLC, the Java override of the BN254 field arithmetic (compared with its TLA+ definition by the '
         'self-test that every check runs), the driver that records what the code does. ')

CHECKS = {
    'C01': dict(
        drive=[dict(name='C01', scen=True)],
        scen=[dict(root='SchedCircuit', cfg='SchedCircuit_one.cfg', limit=(24, 300)),
              dict(root='SchedCircuit', cfg='SchedCircuit_deep.cfg', limit=(24, 300), simulate=20)],
        models=[dict(root='MCGkr', cfg='MCGkr_b.cfg')],
        rule='one case per honest run of a generated circuit (random, wide, deep, TLC-enumerated, MiMC) over batch '
             'sizes, chunk counts and core counts',
        technique='TLA+ specification of the GKR verifier, completeness model-checked by TLC on a small field; traces of '
                  'honest runs of the code validated by TLC against the specification over BN254',
        level_note='Completeness of the specified protocol is checked exhaustively on small circuits over small fields; '
                   'the code is bound to it on sampled circuits, batches, chunkings and core counts.',
    ),
    'C02': dict(
        drive=[dict(name='C02')],
        models=[dict(root='MCGkr', cfg='MCGkr_b.cfg'), dict(root='MCGkr', cfg='MCGkr_c.cfg', dead=('Close',)),
                dict(root='MCGkr', cfg='MCGkr_a.cfg', tiers=('thorough',), dead=('Close',)),
                dict(root='MCGkr', cfg='MCGkr_d.cfg', tiers=('thorough',))],
        proofs=['GkrSoundProof'],
        rule='honest proofs with one value altered, proofs of cheating provers that leave a single check to fail, '
             'and splices, each with the verdict of the code',
        technique='TLA+ specification of the GKR verifier, soundness model-checked by TLC against every prover over a small '
                  'field; verdicts of the code on altered and forged proofs validated by TLC over BN254',
        level_note='Soundness of the specified protocol is checked exhaustively on small circuits; the code is bound to it on '
                   'proofs that leave exactly one check to fail, at every layer and round of the generated circuits.',
    ),
    'C03': dict(
        drive=[dict(name='C03')],
        models=[dict(root='MCBatch', cfg='MCBatch_1.cfg'),
                dict(root='MCBatch', cfg='MCBatch_more.cfg', violates='Vouches'),
                dict(root='MCBatch', cfg='MCBatch_loose.cfg', violates='NoCrash'),
                dict(root='MCBatch', cfg='MCBatch_2.cfg', tiers=('thorough',))],
        rule='an honest proof with a statement that differs from the proved one',
        technique='verdicts of the code on statements that differ from the proved one, validated by TLC against the TLA+ '
                  'specification of the GKR verifier with the binding requirement; TLC model-checks why the size of a batch decides',
        level_note='Every altered statement must be rejected; the classes that the code accepts because its initial point is '
                   'fixed are known findings.',
    ),
    'C04': dict(
        drive=[dict(name='C04')],
        models=[dict(root='MCLayout', cfg='MCLayout_one.cfg'),
                dict(root='MCLayout', cfg='MCLayout_loose.cfg', violates='NoCrash'),
                dict(root='MCLayout', cfg='MCLayout_unread.cfg', violates='ReadAll', tiers=('thorough',)),
                dict(root='MCLayout', cfg='MCLayout_degree.cfg', violates='InDegree', tiers=('thorough',)),
                dict(root='MCLayout', cfg='MCLayout_two.cfg', tiers=('thorough',))],
        rule='honest proofs with an altered layout, with the verdict of the code',
        technique='TLA+ specification of the layout of a proof, model-checked by TLC with a reader of proofs of any layout; '
                  'verdicts of the code on re-laid-out proofs validated by TLC',
        level_note='Sampled and systematic mutations of the layout of honest proofs, for each layer and position of the '
                   'generated circuits.',
    ),
    'C05': dict(
        drive=[dict(name='C05', scen=True), dict(name='C05race', race=True)],
        scen=[dict(root='SchedCircuit', cfg='SchedCircuit_one.cfg', limit=(150, 4256)),
              dict(root='SchedCircuit', cfg='SchedCircuit_deep.cfg', limit=(60, 600), simulate=20)],
        models=[dict(root='MCCircuit', cfg='MCCircuit_a.cfg'),
                dict(root='MCCircuit', cfg='MCCircuit_b.cfg', tiers=('thorough',)),
                dict(root='MCCircuit', cfg='MCCircuit_c.cfg', tiers=('thorough',))],
        rule='one case per circuit and inputs, with all values of its evaluations under several chunkings and core counts',
        technique='TLA+ specification of layered circuits, its identities model-checked by TLC over small fields; every value of '
                  'every layer the code computes validated by TLC over BN254, layer by layer; parallel evaluations also recorded '
                  'under the race detector',
        level_note='Sampled circuits, batches, chunkings and core counts; the identities of the specification on all small layers.',
    ),
    'C06': dict(
        drive=[dict(name='C06')],
        models=[dict(root='MCMimc')],
        rule='one case per batch of keys and states, with the outputs of the proving circuit and the updates of the hash',
        technique='TLA+ specification of the MiMC permutation and of the proving circuit, their equality model-checked by TLC for '
                  'all keys and states of a small field; outputs of the code validated by TLC over BN254, instance by instance',
        level_note='The published constants are part of the specification, and do not come from the code.',
    ),
    'C07': dict(
        drive=[dict(name='C07', scen=True), dict(name='C07race', race=True)],
        scen=[dict(root='SchedPool', cfg='SchedPool_b.cfg', limit=(20, 300)),
              dict(root='SchedPool', cfg='SchedPool_d.cfg', limit=(60, 1000), simulate=200)],
        proofs=['RoundSyncProof', 'InterleavingProof'],
        models=[dict(root='MCParProver', cfg='MCParProver_a.cfg'), dict(root='MCParProver', cfg='MCParProver_c.cfg'),
                dict(root='MCParProver', cfg='MCParProver_e.cfg',
                     dead=('WEval', 'WRelease', 'WFold', 'MCollect', 'MChallenge', 'MSend', 'MNext')),
                dict(root='MCParProver', cfg='MCParProver_b.cfg', tiers=('thorough',)),
                dict(root='MCParProver', cfg='MCParProver_d.cfg', tiers=('thorough',))],
        rule='one case per table size, chunk count and core count: the multi-threaded prover against the specified '
             'polynomials, with the order in which gates are evaluated',
        technique='TLA+ specification of the round synchronisation of the multi-threaded prover, every interleaving '
                  'model-checked by TLC (safety and termination); runs of the code validated by TLC against it',
        level_note='All interleavings of the specified synchronisation for small numbers of chunks and workers; the code is '
                   'bound to it on recorded runs under perturbed schedules.',
    ),
    'C08': dict(
        drive=[dict(name='C08')],
        models=[dict(root='MCSumcheck', cfg='MCSumcheck_a.cfg', dead=('Stuck',)),
                dict(root='MCSumcheck', cfg='MCSumcheck_c.cfg', dead=('Stuck',), tiers=('thorough',))],
        rule='one case per random table set, wiring and gate list; every round polynomial compared as a polynomial',
        technique='TLA+ specification of the sumcheck prover as partial sums over the hypercube, model-checked by TLC over '
                  'small fields; every round polynomial of the code validated by TLC over BN254',
        level_note='The specified polynomials are compared at degree + 1 points or more in every round of every recorded run.',
    ),
    'C09': dict(
        drive=[dict(name='C09')],
        models=[dict(root='MCSumcheck', cfg='MCSumcheck_b.cfg', dead=('Stuck',)),
                dict(root='MCSumcheck', cfg='MCSumcheck_c.cfg', dead=('Stuck',), tiers=('thorough',))],
        rule='one case per claim and list of round polynomials, honest, altered in one place, or forged so that all but one '
             'round are consistent',
        technique='TLA+ specification of the sumcheck verifier, soundness and completeness model-checked by TLC over small '
                  'fields; verdicts and outputs of the code validated by TLC over BN254',
        level_note='Each round is the only inconsistent one in some recorded case.',
    ),
    'C10': dict(
        drive=[dict(name='C10')],
        models=[dict(root='MCGkr', cfg='MCGkr_c.cfg', dead=('Close',))],
        rule='one case per message and its neighbours; per sumcheck instance with the challenges of every party; per honest '
             'GKR proof; and per compiled gadget with its witnesses',
        technique='TLA+ specification of the challenges as the MiMC hash of the whole message; the challenges of every party of the '
                  'code validated by TLC over BN254',
        level_note='Every length up to the bound, every element of each message changed, exchanged, added and removed.',
    ),
    'C11': dict(
        drive=[dict(name='C11')],
        models=[dict(root='MCTables', cfg='MCTables_4.cfg'),
                dict(root='MCTables', cfg='MCTables_6.cfg', tiers=('thorough',))],
        rule='one case per sequence of operations on a pool of tables, with every table after every operation',
        technique='TLA+ state machine of a pool of multilinear tables; its laws model-checked by TLC over small fields; '
                  'recorded sequences of operations of the code validated by TLC over BN254',
        level_note='Every operation of every recorded sequence, including what it does to the tables it does not touch.',
    ),
    'C12': dict(
        drive=[dict(name='C12'), dict(name='C12race', race=True)],
        proofs=['ChunksProof', 'InterleavingProof'],
        models=[dict(root='MCTables', cfg='MCTables_4.cfg'), dict(root='MCChunks')],
        rule='one case per table size, chunk count and core count; and every range division with up to 40 iterations and tasks',
        technique='TLA+ specification of the interleaved layout and of the division into ranges, model-checked by TLC; '
                  'chunked and parallel operations of the code validated by TLC over BN254, some of them recorded under the race detector',
        level_note='All range divisions up to the bound, all chunk counts of the generated table sizes.',
    ),
    'C13': dict(
        drive=[dict(name='C13')],
        models=[dict(root='MCUni')],
        rule='one case per length, list of values or coefficients and set of evaluation points',
        technique='TLA+ specification of interpolation and evaluation, model-checked by TLC over a small field; results of the '
                  'code validated by TLC over BN254',
        level_note='Every length up to the largest precomputed domain; the interpolating polynomial is unique, so that the '
                   'comparison at the domain and the length decide it.',
    ),
    'C14': dict(
        drive=[dict(name='C14')],
        models=[dict(root='MCGates')],
        rule='one case per gate and list of operands, for all its forms; per compiled gate gadget and its witnesses; and per '
             'set of gates and their identifiers',
        technique='TLA+ specification of the gates, their degrees model-checked by TLC over a small field; every form of the '
                  'gates of the code validated by TLC over BN254',
        level_note='All forms of all gates on sampled and special operands.',
    ),
    'C15': dict(
        drive=[dict(name='C15'), dict(name='C15conc', race=True), dict(name='C15first', race=True, fresh=(8, 40))],
        rule='one case per sequence of updates of a hash state, and one per message length and function',
        technique='TLA+ specification of the permutations and of the sponges with their published constants; digests of the '
                  'code validated block by block by TLC',
        level_note='Every message length up to the bound for each of the seven functions.',
    ),
    'C16': dict(
        drive=[dict(name='C16')],
        models=[dict(root='MCSumcheck', cfg='MCSumcheck_b.cfg', dead=('Stuck',)),
                dict(root='MCTables', cfg='MCTables_4.cfg')],
        rule='one case per compiled gadget, with satisfied and unsatisfied witnesses',
        technique='TLA+ specification of what a witness of each gadget has to satisfy; satisfiability of the compiled constraint '
                  'systems of the code validated by TLC over BN254, witness by witness',
        level_note='Gadgets of all kinds at several sizes, with inputs as variables, sums and constants; for the sumcheck '
                   'gadget each round is the only inconsistent one in some witness.',
    ),
    'C17': dict(
        drive=[dict(name='C17')],
        models=[dict(root='MCGkr', cfg='MCGkr_b.cfg')],
        rule='one case per witness of the compiled GKR verification circuit (honest, one value altered, forged so that a '
             'single check fails, altered statement), and per compiled wiring table or layer combination with its witnesses',
        technique='TLA+ specification of the GKR verifier; satisfiability of the compiled in-circuit verifier on witnesses '
                  'validated by TLC over BN254: satisfied if and only if the specification accepts',
        level_note='The compiled circuit for each batch size up to the bound, on witnesses that leave one check to fail.',
    ),
    'C18': dict(
        drive=[dict(name='C18', scen=True), dict(name='C18conc', race=True), dict(name='C18first', race=True, fresh=(16, 80))],
        models=[dict(root='MCSession', cfg='MCSession_copies.cfg'),
                dict(root='MCSession', cfg='MCSession_nocopies.cfg', violates='SameAsAlone'),
                dict(root='MCSession', cfg='MCSession_three.cfg', tiers=('thorough',))],
        scen=[dict(root='SchedSession', cfg='SchedSession.cfg', limit=(120, 2500))],
        rule='one case per sequence of calls on shared objects, with all objects after each call; and per set of users '
             'making calls at the same time, under the race detector',
        technique='TLA+ specification of sessions (objects never change, calls are functions of their arguments), its mechanism '
                  'model-checked by TLC for users proving at the same time; recorded sessions of the code, sequences '
                  'generated by TLC, validated call by call',
        level_note='All pairs and triples of calls are enumerated and sampled; concurrent sessions run under the race detector, '
                   'whose reports are events that the specification does not allow.',
    ),
    'C19': dict(
        drive=[dict(name='C19', scen=True)],
        proofs=['WorkPoolProof'],
        models=[dict(root='MCWorkPool', cfg=f'MCWorkPool_{x}.cfg', dead=d) for x, d in (
                    ('evaluate', ('Start',)), ('beyond', ('Start',)), ('prover', ('Start',)), ('single', ('Start',)),
                    ('gated', ('Acquire',)))]
               + [dict(root='MCWorkPool', cfg='MCWorkPool_endfirst.cfg', violates='NoCrash'),
                  dict(root='MCWorkPool', cfg='MCWorkPool_large.cfg', dead=('Start',), tiers=('thorough',))],
        scen=[dict(root='SchedPool', cfg='SchedPool_a.cfg', limit=(4, 4)),
              dict(root='SchedPool', cfg='SchedPool_b.cfg', limit=(20, 300)),
              dict(root='SchedPool', cfg='SchedPool_d.cfg', limit=(30, 600), simulate=200)],
        rule='one case per call: the events of its workers, what it left behind and what it computed, under schedules of the '
             'specification, random delays, and as many cores as chunks, fewer and more',
        technique='TLA+ specification of the worker pools, every interleaving model-checked by TLC (occupancy, termination, '
                  'no crash); schedules generated by TLC imposed on the code; recorded occupancy validated by TLC event by event',
        level_note='All interleavings of the specified pools for up to 5 workers; the code is bound to them on recorded runs under '
                   'perturbed schedules, which cannot cover every interleaving of the code.',
    ),
    'C20': dict(
        drive=[dict(name='C20')],
        models=[dict(root='MCCircuit', cfg='MCCircuit_a.cfg'),
                dict(root='MCCircuit', cfg='MCCircuit_b.cfg', tiers=('thorough',)),
                dict(root='MCCircuit', cfg='MCCircuit_c.cfg', tiers=('thorough',))],
        rule='one case per list of wires: gates, widths, and wiring tables folded at several points',
        technique='TLA+ specification of wiring predicates, model-checked by TLC over small fields on all small layers; gates, '
                  'widths and wiring tables of the code validated by TLC over BN254',
        level_note='Sampled layers with repeated wires and gates, gaps, and gates that differ only by their constant.',
    ),
    'C21': dict(
        drive=[dict(name='C21', scen=True)],
        scen=[dict(root='SchedCircuit', cfg='SchedCircuit_one.cfg', limit=(8, 120)),
              dict(root='SchedCircuit', cfg='SchedCircuit_deep.cfg', limit=(8, 120), simulate=20)],
        models=[dict(root='MCGkrRun', cfg='MCGkrRun_b.cfg'), dict(root='MCGkrRun', cfg='MCGkrRun_c.cfg'),
                dict(root='MCGkrRun', cfg='MCGkrRun_a.cfg', dead=('Merge',), tiers=('thorough',))],
        rule='one case per circuit and batch, with its proof and the proofs for other chunkings and numbers of cores',
        technique='TLA+ specification of the GKR prover, run against the specified verifier by TLC over a small field (all inputs '
                  'and challenges); proofs of the code validated message by message by TLC over BN254',
        level_note='Every message of the proofs of sampled circuits; all chunkings of each batch.',
    ),
    'C22': dict(
        drive=[dict(name='C22')],
        models=[dict(root='MCNumerals')],
        rule='one case per list of numbers measured, converted or printed, and per history of parameters set and read',
        technique='TLA+ specification of numerals (their value, order, logarithms and printed forms), model-checked by TLC while '
                  'counting over a small field; results of the code validated by TLC over BN254',
        level_note='All integers up to 4096 and those around every power of two; elements around every power of ten and half '
                   'of the modulus; sampled otherwise.',
    ),
}
