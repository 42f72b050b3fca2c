CLAIMS = {
 'C01': ('runtime monitor: Kirchhoff/element-law oracle (independent tableau model) on every operating point of generated circuits',
         'quick: 1200 random circuits incl. sparse-solver sizes; thorough: 16000'),
 'C10': ('runtime monitor: device currents, conductances and stamps compared with an independent evaluation of the documented equations over random voltage histories',
         'quick: 1600 device instances x 14-point histories; thorough: 40000'),
 'C02': ('runtime monitor: every reported operating point is re-balanced with independent device equations (KCL/KVL residual oracle), across options and guesses',
         'quick: 1600 circuits; thorough: 24000'),
 'C03': ('runtime monitor: total power and every row of the saved report recomputed from the reported solution with independent element laws; power conservation',
         'quick: 1200 circuits; thorough: 16000'),
 'C04': ('runtime monitor: sweep axis checker, per-point residual oracle and comparison with independent operating points, source-restoration monitor',
         'quick: 900 sweeps; thorough: 14000'),
 'C05': ('runtime monitor: complex tableau-equation residual oracle on every reported phasor, frequency-axis checker',
         'quick: 900 sweeps; thorough: 20000'),
 'C06': ('runtime monitor: linearised-equation residual oracle with independent device derivatives; differences of simulated operating points',
         'quick: 900 circuits; thorough: 16000'),
 'C11': ('runtime monitor: every evaluation of a waveform (object, element, netlist, transient) compared online with the documented formula',
         ''),
 'C07': ('runtime monitor: every accepted time point checked against Kirchhoff equations and the integration formula of the method; waveforms compared with an independent high-order integration of the circuit DAE',
         'quick: random linear and nonlinear circuits, all methods, fixed and adaptive steps'),
 'C08': ('runtime monitor: online checker of the reported time axis (order, first/last point, largest step, even spacing) and of source values at the reported times, on generated transient runs',
         'quick: 480 runs; thorough: 8000'),
 'C09': ('runtime monitor: the first accepted point of generated transient runs must be one integration step from the independently computed expected state; state vectors checked directly',
         'quick: 700 runs; thorough: 12000'),
 'C12': ('runtime monitor: differential oracle, every element, parameter and result of a deck run through the command-line entry point compared with the same circuit and analyses built through the API',
         'quick: 600 decks with all element and analysis types; thorough: see CASES'),
 'C13': ('runtime monitor: differential oracle, decks rewritten lexically (case, blanks, comments, continuation, suffixes, order, includes, stdin) must parse to the same circuit, analyses and results',
         'quick: 500 decks x 3-6 rewritings; thorough: 9000'),
 'C17': ('runtime monitor: poles and zeros of generated circuits compared as multisets with the 120-digit roots of the determinants of an independent tableau model; sensitivity of every root under perturbed data sets the tolerance',
         'quick: 500 circuits; thorough: 8000'),
 'C27': ('randomised hierarchical decks; monitor of the expanded circuit against our own in-place expansion (elements, terminals, references, operating point and AC response)',
         'decks are generated; node and id correspondence inferred from the elements'),
 'C21': ('runtime monitor: shadow model of the circuit audited after every editing call (nodes, elements, terminals, lookups, branch numbering), edited circuits simulated against freshly built ones',
         'random histories of 5-45 calls; quick: 3000 histories, thorough: 150000'),
 'C25': ('runtime monitor: every call of every helper with random valid and invalid arguments compared with its documented result computed independently',
         'quick: 20000 calls; thorough: 1000000'),
 'C16': ('runtime monitor: recorded event log of every value stored by the analyses compared with all access paths of the result object and with the saved file read by our own parser',
         'quick: 2100 cases (analyses, directly filled objects, data files); thorough: 80000'),
 'C23': ('metamorphic monitor: every analysis of randomly transformed descriptions compared',
         'random transformation chains, superposition and scaling; dense and sparse solver'),
 'C15': ('round-trip monitor: text of random circuits parsed back and compared element by element and by simulation',
         'covers every element type, waveform, diode model lines, flattened subcircuits'),
 'C26': ('runtime monitor: device evaluations and reported solutions after random histories of temperature changes compared with the documented laws at the temperature in force',
         'direct evaluations, OP, DC, AC, TRAN; shared models, own diode temperatures'),
 'C14': ('runtime monitor: verdicts, diagnostics and parsed circuits of randomly damaged netlists compared online with an independent recogniser of the documented grammar',
         'quick: 9000 decks; thorough: 250000'),
 'C28': ('runtime monitoring: outcome of every analysis of generated ill-posed and look-alike circuits compared with the exact rank of independently assembled equations',
         'exact rank over a prime field decides whether a unique solution exists; failures must be visible, answers must be those of the (Gmin-completed) circuit'),
 'C22': ('runtime monitoring: differential monitor of random histories of analyses in one process against the same steps in fresh processes, with state snapshots and injected interruptions',
         'outcomes of every step (results or failures) must equal those of the step alone in a fresh fork; circuits, options, temperature, queue and descriptions snapshotted after every step'),
 'C24': ('runtime differential monitor of the command-line process (exit status, streams, files) against the API under the same settings, with fault injection',
         'random decks x documented options x faults; every file and printed table is compared with what the API computes, exit status with the outcome of the analyses; dedicated oracles for options with an analytically known effect'),
 'C20': ('runtime oracle: spectra of recorded and simulated waveforms compared with the transform of the exact waveform',
         'DC + harmonics with random amplitudes and phases on even, uneven and simulated grids; fourier(), spicefft() and .FOUR/.FFT decks with every window, range, number of points and format'),
 'C18': ('runtime monitoring: the simulator solves random circuits symbolically (sources, passives, controlled sources, couplings, transistor and diode small-signal models, non-symbolic elements, substitutions, formulations, decks, reloaded results); the expressions are evaluated with random numbers at random frequencies and compared with an independent numeric solution of the circuit; gains with the response to a unit input; DC gains, poles and zeros with those of the reported gain',
         'sympy solutions over 20 CPU s are not judged; roots only without floating-point coefficients'),
 'C19': ('runtime monitoring: random driven circuits (linear, diode, EKV and quadratic-law transistors) are solved with both methods through the API, the netlist and direct calls; the waveform is compared point by point with the periodic solution of an independent model (linear), by the Newton correction it still needs (nonlinear), and with a transient analysis continued from its last point; first and last point, time axis and stored data are monitored',
         'driven circuits only; shooting is judged with its observed closing step (KF9); EKV within the tolerance left by KF2'),
}
NA = {}
