"""Source of truth for properties.jsonl (run tools/mk.py)."""
P = []


def prop(i, title, statement, over, text, why, files, mech, observe=None):
    P.append({'id': i, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['ahkab/' + f for f in files],
                          'mechanism': [{'name': n, 'where': 'ahkab/' + w} for n, w in mech],
                          'observe_at': observe or []}})


prop('C01', 'DC operating point of a linear circuit solves the circuit equations',
     'For every well-posed linear circuit the operating point reports a voltage for every node and a current for every '
     'voltage-defined element that satisfy Kirchhoff\'s current and voltage laws and every documented element law '
     '(resistor, independent sources, the four controlled sources, capacitor open, inductor short), in the passive sign convention.',
     ['inputs', 'programs'], 'all well-posed linear circuits, whatever their topology, element order, values and size (dense or sparse solver)',
     'Existing tests compare about ten fixed circuits with stored results; they never vary topology, ordering, shared nodes or matrix size.',
     ['dc_analysis.py', 'circuit.py', 'components/*.py', 'results.py', 'utilities.py'],
     [('matrix assembly', 'dc_analysis.py:generate_mna_and_N'), ('linear solve (dense/sparse)', 'dc_analysis.py:newton'),
      ('node/branch numbering', 'circuit.py')], ['ahkab.run -> op_solution'])
prop('C02', 'Nonlinear operating points are genuine solutions, never fabricated',
     'Whenever an operating point of a circuit with diodes, transistors or switches is reported, the currents that the device models '
     'draw at the reported voltages balance Kirchhoff\'s current law at every node and every source relation holds, within the configured tolerances. '
     'If no solution is found the analysis reports failure instead of returning values; circuits with a unique and easily reached solution are solved.',
     ['inputs', 'programs', 'configurations'], 'circuits mixing linear elements with diodes, square-law and EKV transistors and switches, all convergence aids enabled or disabled, any initial guess',
     'The reference files of the existing tests pin a few bias points; they cannot tell whether a convergence aid (source stepping, gmin stepping, damping) '
     'can return a solution of a modified problem.',
     ['dc_analysis.py', 'dc_guess.py', 'diode.py', 'ekv.py', 'mosq.py', 'switch.py', 'options.py'],
     [('Newton iteration and convergence test', 'dc_analysis.py:mdn_solver/convergence_check'), ('convergence aids', 'dc_analysis.py:dc_solve'),
      ('gmin cross-check', 'dc_analysis.py:op_analysis')])
prop('C03', 'Operating-point report agrees with the solution and conserves power',
     'The operating-point report lists, for every element, quantities that follow from the reported node voltages and branch currents and the element law '
     '(voltage, current, power, small-signal conductances, region). The total power figure equals the power the sources deliver into the rest of the '
     'circuit computed from the reported solution.',
     ['inputs', 'programs'], 'all circuits whose operating point is found',
     'No existing test reads the per-element report or checks power on more than fixed files.',
     ['results.py', 'components/*.py', 'diode.py', 'ekv.py', 'mosq.py', 'switch.py'],
     [('element report', 'results.py:op_solution.get_elements_op'), ('power', 'results.py:op_solution')])
prop('C04', 'A DC sweep equals independent operating points at exactly the requested values',
     'A DC sweep visits exactly the points implied by its start, stop, step or point count and spacing, and at each of them reports the same solution as an independent '
     'operating point of the circuit with the swept source set to that value. The circuit is left with its original source value afterwards.',
     ['inputs', 'histories', 'configurations'], 'any voltage or current source swept up or down, linear or logarithmic, over linear and nonlinear circuits',
     'Tests sweep two fixed circuits upward; point counts, direction, current sources, state restoration and warm-start history are not varied.',
     ['dc_analysis.py', 'ahkab.py', 'utilities.py', 'results.py'],
     [('sweep loop', 'dc_analysis.py:dc_analysis'), ('axis', 'utilities.py:lin_axis_iterator/log_axis_iterator')])
prop('C05', 'AC analysis of linear circuits solves the phasor equations',
     'For every linear circuit and every requested frequency the AC result satisfies the complex nodal equations: capacitor current jwC*V, inductor voltage jwL*I plus '
     'mutual terms, controlled sources as in DC, and independent sources at their AC phasor (magnitude and phase) with DC values suppressed. The frequency axis holds exactly the requested points.',
     ['inputs', 'programs', 'configurations'], 'all linear circuits with R, C, L, mutual inductances, sources and controlled sources, linear and logarithmic sweeps',
     'Tests compare a few filters with stored curves; couplings of several inductors, controlled sources in reactive loops, phases and axis options are not varied.',
     ['ac.py', 'dc_analysis.py', 'transient.py', 'components/*.py', 'results.py'],
     [('AC source vector and reactive matrix', 'ac.py'), ('reactive stamps', 'transient.py:generate_D'), ('sweep', 'ac.py:ac_analysis')])
prop('C06', 'AC analysis of nonlinear circuits is the derivative of the DC solution',
     'AC analysis linearises every nonlinear device at the operating point: the low-frequency AC response equals the derivative of the DC solution with respect to the excitation, '
     'and an AC result at any frequency equals that of the linear circuit in which the devices are replaced by their small-signal conductances at that operating point.',
     ['inputs', 'programs'], 'circuits with diodes, transistors and switches with a well-defined bias point',
     'One stored amplifier curve is all that existing tests compare.',
     ['ac.py', 'diode.py', 'ekv.py', 'mosq.py', 'switch.py', 'dc_analysis.py'],
     [('linearisation', 'ac.py:generate_J'), ('device conductances', 'diode.py/ekv.py/mosq.py/switch.py')])
prop('C07', 'Transient waveforms solve the circuit differential equations',
     'For every linear circuit the transient result follows the exact solution of the circuit equations for the given sources and initial state, within the accuracy the configured tolerances and '
     'step limits allow, with each integration method. Every accepted time point satisfies Kirchhoff\'s laws and the integration formula of the selected method, including circuits with mutual inductances and nonlinear devices.',
     ['inputs', 'programs', 'configurations'], 'R, L, C, K, controlled sources, nonlinear devices; all waveforms; implicit Euler, trapezoidal and Gear methods; fixed and adaptive step',
     'Tests compare a couple of RLC circuits with stored waveforms under loose tolerances.',
     ['transient.py', 'implicit_euler.py', 'trap.py', 'gear.py', 'dc_analysis.py', 'time_functions.py'],
     [('step solve', 'transient.py:transient_analysis'), ('differentiation formulas', 'implicit_euler.py/trap.py/gear.py')])
prop('C08', 'Transient time axis covers the requested interval with bounded, increasing steps',
     'A transient analysis reports strictly increasing time points: the first lies at most one step after the requested start time (the initial state itself is not reported), consecutive points are never further apart than the '
     'requested maximum step, and the last reaches the requested stop time and exceeds it by less than one step; with step control disabled the points are evenly spaced by the requested step from the start time. '
     'The values reported at a time belong to that time (a source shows its waveform at exactly the reported times). A run that stops early reports failure instead of a truncated result.',
     ['inputs', 'configurations'], 'any start, stop, step, method, step-control setting and source waveform',
     'Existing tests check sampled waveforms only, at one setting.',
     ['transient.py', 'ahkab.py', 'options.py'], [('time loop and step control', 'transient.py:transient_analysis')])
prop('C09', 'Transient initial conditions are honoured as documented',
     'A transient analysis starts from exactly the state asked for: all zero, the operating point of the circuit, the operating point adjusted by the capacitor and inductor initial conditions, '
     'or the user-supplied node voltages and branch currents (unspecified values being zero).',
     ['inputs', 'programs', 'configurations'], 'all circuits with capacitors/inductors, any subset of initial conditions, through the API and the netlist',
     'Two tests use initial conditions, each with one circuit.',
     ['transient.py', 'dc_analysis.py', 'ahkab.py', 'netlist_parser.py'],
     [('initial state from user values', 'dc_analysis.py:build_x0_from_user_supplied_ic'), ('OP adjusted by element ICs', 'dc_analysis.py:modify_x0_for_ic')])
prop('C10', 'Device models are smooth, passive and consistent with their derivatives',
     'For diodes, square-law and EKV transistors and controlled switches, every reported or stamped conductance equals the partial derivative of the device current; currents are zero at zero drive, continuous across region '
     'boundaries, symmetric under drain/source exchange, mirror-symmetric between N and P types, proportional to multiplicity and area, and independent of earlier evaluations.',
     ['inputs', 'histories', 'configurations'], 'all port voltages, model cards and geometries in a physically plausible range',
     'Tests evaluate one model card at a handful of bias points.',
     ['diode.py', 'ekv.py', 'mosq.py', 'switch.py'], [('device current', 'i()'), ('derivative', 'g()'), ('matrix stamps', 'gstamp()/istamp()')])
prop('C11', 'Source waveforms follow their documented formulas at every instant',
     'Sine, exponential, pulse, single-frequency FM, AM and piecewise-linear sources have, at every time and for every parameter set, the value given by their documented formula, whether built through the API or from a netlist.',
     ['inputs'], 'all parameter values, delays before/after/beyond the period, all times including breakpoints and many periods',
     'Existing tests sample a single parameter set per function (and fail on this platform).',
     ['time_functions.py', 'netlist_parser.py', 'components/sources/'], [('waveforms', 'time_functions.py')])
prop('C12', 'A netlist describes the same circuit as the equivalent API calls',
     'Every documented element, model and analysis line of a netlist produces exactly the elements, connections, values, models and simulations that the equivalent API calls would, and running them gives the same results.',
     ['inputs', 'programs'], 'all documented element, model and directive lines with any legal values and option order',
     'Tests run a dozen decks; most element options and directive parameters never occur in them.',
     ['netlist_parser.py', 'circuit.py', 'ahkab.py'], [('element parsing', 'netlist_parser.py:parse_elem_*'), ('analysis parsing', 'netlist_parser.py:parse_an_*')])
prop('C13', 'Netlist meaning does not depend on lexical presentation',
     'Letter case, blank lines, comment lines, continuation lines, extra blanks, unit suffixes versus plain numbers, included files and the order of lines (where not documented as significant) do not change the circuit or simulations a netlist describes.',
     ['inputs', 'programs'], 'all legal netlists and all documented lexical rewritings of them',
     'Tests parse each deck in one spelling only; the unit table and continuation rules are touched by a few values.',
     ['netlist_parser.py'], [('line reader, continuation, comments', 'netlist_parser.py:parse_circuit'), ('units', 'netlist_parser.py:convert_units')])
prop('C14', 'Malformed netlists are refused with a diagnostic, never misread or crashed on',
     'A netlist line that is syntactically or semantically wrong (missing or extra fields, bad numbers, unknown parameters, models, subcircuits or elements, duplicate names, wrong counts) is refused with the documented parse error naming '
     'the problem; it is never silently accepted with another meaning and never escapes as an unrelated internal error.',
     ['inputs', 'fault_sequences'], 'single and multiple mutations of legal netlists, including truncation, token deletion, duplication and garbage',
     'Only four failing decks exist in the tests.',
     ['netlist_parser.py', 'circuit.py', 'ahkab.py'], [('error reporting', 'netlist_parser.py:NetlistParseError')])
prop('C15', 'Printing a circuit as a netlist and parsing it back preserves it',
     'The text form of a circuit is a netlist that parses back to a circuit with the same nodes, elements, values and models, and that simulates identically.',
     ['inputs', 'programs'], 'all circuits built from documented elements with any values, initial conditions, models and waveforms',
     'Tests compare the string of a few elements with literals and never parse it back.',
     ['circuit.py', 'components/*.py', 'time_functions.py', 'diode.py', 'ekv.py', 'mosq.py', 'switch.py', 'netlist_parser.py'],
     [('text form', 'circuit.py:Circuit.__str__/get_netlist_elem_line')])
prop('C16', 'Result objects and saved result files report the computed values faithfully',
     'Every variable of a result object can be listed, looked up (ignoring case), iterated and found by membership test with the same value, and reading the saved data file back yields the same names, units and numbers in the same order as the in-memory result.',
     ['inputs', 'histories'], 'all analyses, all variable names, any access order, appended data, any number of points',
     'Tests touch one result object of each of a few kinds and compare with stored pickles.',
     ['results.py', 'csvlib.py'], [('storage and access', 'results.py:solution/_mutable_data'), ('file format', 'csvlib.py')])
prop('C17', 'Pole-zero analysis finds the natural frequencies and transmission zeros',
     'The poles returned for a circuit are exactly the finite natural frequencies of its linearised equations, and the zeros are exactly the frequencies at which the transfer from the chosen input source to the chosen output vanishes.',
     ['inputs', 'programs'], 'linear circuits of any order with R, C, L, couplings and controlled sources, any input source and output port, any shift frequency',
     'Two stored circuits are compared.',
     ['pz.py', 'results.py'], [('poles and zeros', 'pz.py:calculate_poles/calculate_singularities')])
prop('C18', 'Symbolic results agree with numeric analysis for all element values',
     'Substituting numbers for the symbols in a symbolic solution gives the numeric operating point (DC) or AC phasors at any frequency of the same linear circuit; the reported gains, poles, zeros and DC values of a symbolic transfer function agree with that expression.',
     ['inputs', 'programs'], 'linear circuits with all supported elements, any values, with and without element substitutions',
     'Tests compare a few expressions with stored ones.',
     ['symbolic.py', 'results.py'], [('symbolic matrix', 'symbolic.py:generate_mna_and_N'), ('solution and transfer functions', 'symbolic.py:symbolic_analysis')])
prop('C19', 'Periodic steady state is periodic, settled and independent of the method',
     'A periodic steady state analysis returns one period whose end state equals its start state, whose points satisfy the circuit equations, and that matches the settled part of a long transient; shooting and brute-force methods agree.',
     ['inputs', 'programs'], 'driven circuits with a stable periodic regime, linear and with supported nonlinear devices',
     'One stored circuit per method is compared.',
     ['shooting.py', 'bfpss.py', 'pss.py', 'transient.py'], [('shooting', 'shooting.py:shooting_analysis'), ('brute force', 'bfpss.py:bfpss')])
prop('C20', 'Fourier post-processing recovers the harmonics of periodic waveforms',
     'Fourier analysis of a transient waveform returns the DC component and the first nine harmonics of the chosen fundamental, as the (unnormalised) discrete Fourier transform of whole periods of the re-sampled data, with the distortion figure computed from them; the FFT analysis returns the spectrum of the selected, windowed part of the data, and the .FOUR and .FFT directives print these values in the selected format.',
     ['inputs', 'configurations'], 'waveforms composed of any harmonics, uneven time grids, all windows and formats',
     'The tests of these functions do not run on this platform at all.',
     ['fourier.py', 'ahkab.py'], [('fourier/FFT', 'fourier.py:fourier/spicefft')])
prop('C21', 'Circuit bookkeeping stays consistent under any sequence of edits',
     'After any sequence of adding nodes, elements, models and subcircuits and removing elements, node names and numbers stay in one-to-one correspondence, ground is node 0, lookups by name find exactly the present elements (duplicate names are detected), and '
     'branch-current numbering matches the elements present in the circuit.',
     ['histories', 'inputs'], 'all sequences of documented circuit-editing calls',
     'Unit tests exercise each call once or twice in isolation.',
     ['circuit.py'], [('node dictionary', 'circuit.py:Circuit.add_node/ext_node_to_int'), ('element list', 'circuit.py:add_*/remove_elem/find_vde_index')])
prop('C22', 'Simulations are repeatable and do not influence one another',
     'Running the same analysis of the same circuit again, or after, before or together with any other analyses in the same process, gives the same results; analyses do not alter the circuit, the options they do not own, nor each other\'s initial states.',
     ['histories', 'schedules'], 'all orders and interleavings of analyses of one or several circuits in a process, queued or direct',
     'The test-suite itself has to use one process per file because state leaks between tests.',
     ['ahkab.py', 'options.py', 'dc_analysis.py', 'transient.py', 'diode.py', 'utilities.py'], [('queue', 'ahkab.py:queue/run'), ('memoised device evaluation', 'utilities.py:memoize')])
prop('C23', 'Results are invariant under renaming, reordering and solver choice',
     'Renaming nodes and elements, reordering elements, exchanging the terminals of resistors/capacitors, reversing a source with its sign, and using the dense or sparse solver leave the physical results of every analysis unchanged, and so do splitting a resistor in series or in parallel and inserting a zero-volt source; linear circuits obey superposition and scaling.',
     ['inputs', 'programs', 'configurations'], 'all circuits and all such transformations',
     'No existing test applies a transformation.',
     ['dc_analysis.py', 'ac.py', 'transient.py', 'circuit.py', 'options.py'], [('numbering and assembly', 'circuit.py, dc_analysis.py')])
prop('C24', 'The command line runs a deck end to end and saves what was computed',
     'Running a deck from the command line executes exactly its analyses in order, writes one complete result file per analysis, honours the output, verbosity, tolerance and method options, and exits with status 0 on success and non-zero, with a message, on failure.',
     ['inputs', 'configurations', 'fault_sequences'], 'all decks and documented option combinations',
     'Only one or two tests call the entry point, on valid decks.',
     ['ahkab.py', '__main__.py', 'netlist_parser.py', 'results.py', 'printing.py'], [('entry point', 'ahkab.py:main'), ('CLI options', '__main__.py:_cli')])
prop('C25', 'Numeric helpers honour their contracts',
     'The axis iterators, step checks, matrix expansion and reduction helpers, combination iterator, tolerances comparison and caching helper return exactly what their documentation states for all valid arguments and reject the invalid ones.',
     ['inputs'], 'all valid and invalid arguments', 'Unit tests use one or two argument sets.',
     ['utilities.py', 'ticker.py', 'time_functions.py'], [('helpers', 'utilities.py')])
prop('C26', 'Temperature acts on devices as documented and leaves no residue',
     'Setting the temperature makes diode and transistor currents those of the documented temperature laws at that temperature, independent of which temperatures were set before, of previously evaluated bias points and of other devices sharing the model.',
     ['inputs', 'histories', 'configurations'], 'all temperatures in range and all sequences of temperature changes',
     'No test changes temperature more than once.',
     ['ahkab.py', 'diode.py', 'ekv.py', 'mosq.py', 'constants.py'], [('temperature update', 'ahkab.py:set_temperature'), ('model update', 'set_temperature()')])
prop('C27', 'Subcircuits behave as if written out in place',
     'A deck using subcircuits, with any nesting of calls, port order and names, describes the same circuit as the flattened deck in which every call is replaced by the body with ports connected and inner names made unique.',
     ['programs', 'inputs'], 'all definitions and call patterns, several instances, inner nodes and elements, ground inside the body',
     'Two test decks use one subcircuit each.',
     ['netlist_parser.py', 'circuit.py'], [('expansion', 'netlist_parser.py:parse_sub_declaration/parse_elem_xcircuit'), ('wrapper', 'circuit.py:_circuit_wrapper')])
prop('C28', 'Ill-posed circuits are reported, never given fabricated numbers',
     'Circuits without a unique solution (voltage-source loops, inductor/source loops at DC, floating parts, current-source cutsets, missing ground, single-connection nodes, dangling references) are refused or reported as failed, by every analysis, rather than answered with arbitrary numbers; where Gmin rescues nodes without a DC path to ground, as documented, the numbers are exactly those of the circuit completed with Gmin, and an operating point that only exists thanks to Gmin is reported as such.',
     ['inputs', 'programs', 'fault_sequences'], 'all ways of making a circuit ill-posed, embedded in arbitrary surrounding circuits',
     'No existing test covers a loop or a cutset beyond one or two fixed examples.',
     ['dc_analysis.py', 'circuit.py', 'utilities.py', 'ahkab.py', 'transient.py'], [('circuit check', 'circuit.py:check_circuit / utilities.check_circuit'), ('singular matrix handling', 'dc_analysis.py')])
