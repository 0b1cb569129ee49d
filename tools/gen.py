#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing: python3 tools/gen.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/fock_state_circuit/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, tech='exhaustive enumeration of a bounded space on the real code against a reference model'):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech],
                                observe_at=observe, hook_needed=None)), note, tech))


EV = ['FockStateCircuit.evaluate_circuit', 'CollectionOfStates', 'State.optical_components']

prop('C01', 'Linear optics: output amplitudes are the permanents of the optical matrix',
     'A circuit built only from optical elements (wave plates, beam splitters, mixers, swaps, phase shifts, custom optical nodes) maps every input with fewer photons in total than the length of the Fock state to the output predicted by linear optics: the amplitude from photon numbers n to photon numbers m is the permanent of the n,m submatrix of the product of the element matrices, divided by sqrt(n! m!). Multi-photon interference, superposition inputs and spectator channels follow the same rule.',
     ['programs', 'inputs', 'configurations'], 'all sequences of optical elements up to a depth, all input states within the photon limit, all circuit sizes, both naming conventions',
     'The tests evaluate a few hand-made interferometers (mostly two to four channels, one or two photons); permutation mistakes, missing bosonic factors or wrong truncation show only for particular combinations of element order, channel choice and photon numbers.',
     ['circuit.py', 'nodes/optical_nodes.py', 'nodes/nodelist/optical_values_component_names.py'],
     [('transition matrix of a node', 'circuit.py:__generate_single_node_fock_matrix_from_optical_matrix'), ('product over consecutive optical nodes', 'circuit.py:__generate_fock_state_matrix')],
     EV, 'Every element sequence of the alphabet up to the depth bound, for every input, is executed and compared with permanents computed independently; angles are from a finite menu.')

prop('C02', 'Every optical element acts as documented on exactly the channels it is given',
     'Each optical element (wave_plate, half/quarter wave plates and their fixed-angle forms, swap, phase shift, mix_50_50, mix_generic_refl_transm, polarizing and non-polarizing beam splitters, custom optical node) performs its documented unitary on the photons in the listed channels, in the listed channel order, for any ordered choice of distinct channels. All other channels are untouched, and the result does not depend on the naming convention of the states or on the matrix mode (reduced or full Fock matrix).',
     ['inputs', 'configurations'], 'all elements with a menu of parameters, all ordered channel choices, all basis states and superpositions, circuit sizes, both naming conventions, both matrix modes',
     'Tests use the elements mostly on neighbouring channels in increasing order with one naming convention; wrong routing for one particular ordered pair or for a channel-0-right circuit stays invisible.',
     ['nodes/optical_nodes.py', 'nodes/nodelist/node_list.py', 'circuit.py', 'nodes/custom_nodes.py'],
     [('element matrices', 'nodes/optical_nodes.py:OpticalNodes'), ('channel order to tensor order', 'nodes/nodelist/node_list.py:_translate_channels_numbers_to_tensor_list'), ('reordering of the basis', 'nodes/nodelist/optical_values_component_names.py:reorder')],
     EV, 'Exhaustive over elements, ordered channels, basis states within the listed circuit sizes; parameters from a finite menu; amplitudes compared within 1e-4.')

prop('C03', 'A circuit is the ordered composition of its nodes, however it is split up',
     'Evaluating a circuit gives the same result as evaluating its nodes one after another in the order they were added, feeding each result into the next; grouping of consecutive optical nodes is not observable. A list of nodes_to_be_evaluated evaluates exactly those nodes in the listed order, repetitions included, and get_fock_state_matrix for a list of nodes is the matrix of that same composition, with rows as output and columns as input basis states in the order of the basis.',
     ['programs', 'inputs'], 'all programs over an alphabet of all node kinds up to a depth, all splits of the program, all index lists up to a length, all basis states',
     'Tests evaluate fixed circuits in one go; splitting, reordering, repeating and mixing node kinds is a space of programs.',
     ['circuit.py', 'nodes/nodelist/node_list.py'],
     [('recursive evaluation and grouping of optical nodes', 'circuit.py:evaluate_circuit'), ('matrix of a list of nodes', 'circuit.py:get_fock_state_matrix'), ('node list', 'nodes/nodelist/node_list.py:_update_list_of_nodes')],
     EV + ['FockStateCircuit.get_fock_state_matrix'], 'All programs of the alphabet up to the depth and every split point and index list up to the stated length.')

prop('C04', 'Optical evolution is unitary and conserves photon number',
     'Optical nodes preserve the norm and all inner products of states and conserve the number of photons, for every input of the circuit including states with more photons than one channel can hold; for two-channel elements the untouched channels keep their photon numbers. Evaluation with the full Fock matrix and with the photon-number-reduced matrix gives the same result.',
     ['programs', 'inputs', 'configurations'], 'all element sequences up to a depth, all basis states (also above the photon limit), pairs of superpositions, both matrix modes',
     'Tests check a handful of outputs; unitarity on the whole space, in particular beyond the photon limit, is never checked.',
     ['circuit.py', 'collection_of_states.py'],
     [('unitary truncation of the transition matrix', 'circuit.py:__generate_single_node_fock_matrix_from_optical_matrix'), ('grouping by photon number', 'collection_of_states.py:_group_states_together_by_photon_number')],
     EV, 'Complete transition matrices of all programs up to the depth bound are checked for unitarity and block structure.')

prop('C05', 'Basis and component names are a consistent bijection, independent of history',
     'For every circuit size and naming convention the component names, photon-number lists and basis indices are in one-to-one correspondence: all length**channels states appear exactly once, in standard order (channel 0 the fastest counter), with the number of digits needed for length-1 and channel 0 on the documented side. Membership tests, look-ups in any order and amount and valid or invalid keys never change what later look-ups, listings or evaluations return, and the physics of a circuit does not depend on the naming convention.',
     ['histories', 'configurations'], 'all sizes up to a bound, all look-up sequences up to a depth over valid and invalid keys, both conventions',
     'The look-up tables are filled lazily, so an error depends on the history of look-ups; tests use fresh objects and small sizes.',
     ['nodes/nodelist/optical_values_component_names.py', 'collection_of_states.py', 'circuit.py'],
     [('lazy dictionaries of names and values', 'nodes/nodelist/optical_values_component_names.py:DictOfValidComponentNames'), ('basis', 'circuit.py:basis')],
     ['FockStateCircuit.basis', 'CollectionOfStates.generate_allowed_components_names_as_list_of_strings', 'State.translate_state_components_to_vector'],
     'All look-up histories up to the depth bound on the real dictionaries, compared with a plain list model.')

prop('C06', 'Measurement obeys the Born rule, collapses the state and keeps the history',
     'Measuring channels of a state yields exactly one state per distinct outcome with non-zero weight; its probability is the total weight of the matching components, its optical state is the renormalised projection with relative phases kept, the photon numbers are written to the designated classical channels in the listed order and other classical channels are unchanged. Each measurement appends one entry (classical values at that moment, probability) to the history, multiplies the cumulative probability, leaves later classical operations out of the history, and no state is ever lost because of its identifier, whatever the number of outcomes or sequence of measurements.',
     ['programs', 'inputs', 'histories'], 'all ordered channel lists and classical targets, all sequences of measurements and gates up to a depth, states with up to hundreds of outcomes, mixed collections',
     'Tests contain single measurements on few outcomes; sequences, repeated or partial measurements, permuted targets and more outcomes than letters in the alphabet are not covered.',
     ['circuit.py', 'nodes/measurement_nodes.py', 'collection_of_states.py'],
     [('measurement and collapse', 'circuit.py:_perform_measurement'), ('identifiers of outcomes', 'circuit.py:__next_state_marker')],
     EV + ['State.measurement_results', 'State.cumulative_probability', 'State.classical_channel_values'],
     'Exhaustive over measurement channel lists, classical targets and programs up to a depth; collections compared as multisets with a Born-rule model.')

prop('C07', 'Evaluation and inspection never change inputs; results do not alias them',
     'Evaluating any circuit with at least one node, and calling any inspection function (plots as data, correlations, density matrix, printing, photon number, inner products, basis), leaves the input collection, its states and the circuit exactly as they were, so evaluating again gives the same result. Collections and states returned by evaluation or by copy() share no mutable data with their source: changing one never changes the other. A node keeps the values it was created with: changing the lists, matrices or dictionaries that were passed to it, or a matrix handed out by the circuit, does not change the circuit.',
     ['histories', 'programs'], 'all sequences of evaluate / inspect / copy / mutate operations up to a depth, for every node kind',
     'Sharing shows only when one object is changed and another one is looked at later, for one specific node kind or field.',
     ['circuit.py', 'collection_of_states.py', 'state.py', 'visualization/plot.py', 'nodes/spectral_nodes.py', 'nodes/superquantum_nodes.py'],
     [('copy of a state', 'state.py:copy'), ('copy of a collection', 'collection_of_states.py:copy'), ('evaluation works on copies', 'circuit.py:evaluate_circuit')],
     EV, 'Every node kind and inspection function is executed on a prepared collection with deep fingerprints before and after, followed by every single mutation of source or result.')

prop('C08', 'Classical and classically controlled nodes act per state on their channels',
     'set_classical_channels writes exactly the given values to the given channels, classical_channel_function replaces the classical values by the result of the user function applied to the values of that same state, and neither touches optical components, history or probability. A classically controlled phase shift, wave plate or time delay uses, for each state separately, the values its control channels hold at that point of the circuit and acts exactly like the ordinary element with those parameters.',
     ['programs', 'inputs', 'histories'], 'all combinations of channels and values, collections of states with different classical values, all programs of classical, measurement and controlled nodes up to a depth',
     'Tests use one control value per circuit; mixing up states, channels or evaluation moments needs collections with different values and feed-forward programs.',
     ['nodes/classical_nodes.py', 'nodes/controlled_nodes.py', 'circuit.py', 'nodes/quantum_operator_nodes.py'],
     [('controlled nodes', 'circuit.py:evaluate_circuit'), ('classical functions', 'nodes/classical_nodes.py:set_classical_channels'), ('controlled wave plate', 'nodes/controlled_nodes.py:wave_plate_classical_control')],
     EV + ['State.classical_channel_values'], 'Exhaustive over channel choices and value menus; programs up to a depth against the reference model.')

prop('C09', 'Shift, controlled shift and channel coupling follow modular photon arithmetic',
     'shift adds the given numbers to the target channels modulo the length of the Fock state, and c_shift adds the photon number of each control to its target, pair by pair in the listed order, modulo the length; the direct variants give the same optical result, amplitudes and phases are unchanged and no component is lost. channel_coupling with strength p sends each component with photons in the control to the c_shift result with probability p (amplitude sqrt(p)) and leaves it with amplitude sqrt(1-p), pair by pair, so that strength 0 is the identity and strength 1 is c_shift.',
     ['inputs', 'configurations', 'programs'], 'all target lists, shift values, control-target lists, coupling strengths from a menu, circuit sizes and basis states, both naming conventions, superpositions',
     'Tests use a few lists; ordering of pairs, repeated targets, wrap-around and naming conventions multiply.',
     ['nodes/custom_nodes.py'],
     [('shift', 'nodes/custom_nodes.py:shift'), ('controlled shift', 'nodes/custom_nodes.py:c_shift'), ('coupling', 'nodes/custom_nodes.py:channel_coupling')],
     EV, 'Exhaustive over lists within the bound, every basis state and a dense superposition.')

prop('C10', 'Bridged and compound circuits equal manual chaining of their parts',
     'Evaluating a circuit that ends in a bridge, or a compound circuit made of a list of circuits, gives the same collection as evaluating the parts one by one on the converted collection: extra optical or classical channels are appended in state 0, surplus channels are removed by tracing out, the length is adjusted and the naming convention translated. Histories, probabilities and classical values survive, and building, refreshing, clearing or re-evaluating a compound circuit does not change its parts or accumulate bridges.',
     ['programs', 'configurations', 'histories'], 'all chains of two and three circuits over differing sizes, lengths and naming conventions, all sequences of compound operations up to a depth',
     'Tests bridge a few circuits of nearly equal shape once.',
     ['nodes/bridge_nodes.py', 'compound_circuit.py', 'circuit.py'],
     [('bridge evaluation', 'circuit.py:evaluate_circuit'), ('compound circuit', 'compound_circuit.py:refresh')],
     EV + ['CompoundFockStateCircuit'], 'All ordered pairs (triples in thorough) of circuit shapes of the alphabet and all operation sequences on compound circuits up to a depth.')

prop('C11', 'Extending, reducing and adjusting collections conserves physics (partial trace)',
     'extend() tensors every state with every given state of the extra channels (vacuum / zero by default) with product probabilities, reduce() is the partial trace over the removed channels (one state per photon-number pattern of the removed channels, weighted with its probability, channels kept in the documented order), and adjusting the length of the Fock state keeps amplitudes and photon numbers that fit. Total probability, classical values, history and initial state labels are kept, and reduce after extend restores the original collection.',
     ['inputs', 'configurations', 'histories'], 'all channel subsets, sizes, naming conventions, collections of several states, sequences of operations up to a depth',
     'Tests contain a few shapes; index errors show only for certain subsets of channels or for non-default conventions.',
     ['collection_of_states.py'],
     [('extend', 'collection_of_states.py:extend'), ('reduce', 'collection_of_states.py:reduce'), ('length', 'collection_of_states.py:adjust_length_of_fock_state')],
     ['CollectionOfStates.extend', 'CollectionOfStates.reduce', 'CollectionOfStates.adjust_length_of_fock_state'],
     'Exhaustive over channel subsets and operation sequences within the bound; density matrices compared with an independent partial trace.')

prop('C12', 'A collection is an identifier-to-state map under every operation sequence',
     'Adding, getting, deleting, filtering, clearing, copying, iterating, replacing from a dictionary and forming statistical mixtures act on a collection like the same operations on a plain ordered map from identifiers to states, in every order. Filters keep exactly the matching states, an automatically generated identifier never overwrites an existing state, invalid requests do not modify the collection, and len, iteration, items, keys and look-ups agree with one another.',
     ['histories'], 'all sequences of collection operations up to a depth, with every possible answer of the random number generator used for identifiers within its modelled range',
     'Tests apply single operations on fresh collections; generated identifiers are random so collisions never occur in a test.',
     ['collection_of_states.py'],
     [('add and identifiers', 'collection_of_states.py:add_state'), ('filters', 'collection_of_states.py:filter_on_classical_channel'), ('mixture', 'collection_of_states.py:set_collection_as_statistical_mixture')],
     ['CollectionOfStates'], 'Breadth-first search over all operation sequences up to the depth bound with the random generator replaced by an enumerated oracle.')

prop('C13', 'Density matrix and clean_up are consistent with the weighted states',
     'The density matrix of a collection (per initial state or overall) is the probability-weighted sum of the projectors on its states: Hermitian, with the stated trace and trace of its square. clean_up merges the states that have the same initial state and the same optical components (adding their probabilities), removes components and states below the threshold, touches only the initial states it is asked for, and changes neither a density matrix nor the total probability by more than the threshold. The density matrix of an evaluated collection is that of the textbook evolution of the input (unitary, or dephasing for a measurement).',
     ['inputs', 'histories'], 'all collections of up to three states over a menu of optical states, weights, labels and classical values',
     'Merging depends on pairwise equality up to phase, labels and values: a space of combinations.',
     ['collection_of_states.py', 'state.py'],
     [('density matrix', 'collection_of_states.py:density_matrix'), ('clean up', 'collection_of_states.py:clean_up'), ('equal components', 'state.py:_identical_optical_components')],
     ['CollectionOfStates.density_matrix', 'CollectionOfStates.clean_up'], 'All collections over the menu within the bound.')

prop('C14', 'Quantum-operator gates apply the exponential of the given Hamiltonian',
     'hamiltonian_operator_gate applies exp(H) for the Hamiltonian given as ladder-operator terms to the listed channels, and several Hamiltonians in one gate are applied in the documented order. wave_plate_from_hamiltonian and its classically controlled variant equal the ordinary wave plate with the same angles for all inputs within the photon limit.',
     ['inputs', 'configurations'], 'a menu of Hamiltonians, all ordered channel lists, circuit sizes, basis states and superpositions',
     'Tests compare a few angles on two channels.',
     ['quantum_operator_functionality/quantum_operators.py', 'nodes/quantum_operator_nodes.py'],
     [('matrix of operators', 'quantum_operator_functionality/quantum_operators.py:_generate_limited_matrix'), ('application to a state', 'quantum_operator_functionality/quantum_operators.py:apply_operator_to_state')],
     EV, 'Exhaustive over channels and basis states for a menu of Hamiltonians, compared with an independent exponential. One known finding (order of several Hamiltonians).')

prop('C15', 'Time delays interpolate between interference and distinguishability',
     'With zero delay on all photons the time-delay gates change nothing; with delays far larger than the pulse width photons behave as distinguishable classical particles; in between the detection probabilities follow the documented Gaussian overlap of photon pairs (Hong-Ou-Mandel dip). Outcome probabilities are never negative, sum to the weight of the input, do not depend on a common delay of all channels, and single-photon statistics never depend on delays that carry no which-path information.',
     ['programs', 'inputs', 'configurations'], 'all small interferometer programs with delays from a menu, all inputs up to two or three photons',
     'Tests check one dip; sums, symmetry and channel choice for other programs are not covered.',
     ['temporal_and_spectral_gate_functionality/temporal_functions.py', 'temporal_and_spectral_gate_functionality/interference_group.py', 'temporal_and_spectral_gate_functionality/column_of_states.py', 'temporal_and_spectral_gate_functionality/collection_of_state_columns.py', 'nodes/spectral_nodes.py'],
     [('delays', 'temporal_and_spectral_gate_functionality/temporal_functions.py:add_time_delay_generic'), ('measurement of interference groups', 'temporal_and_spectral_gate_functionality/interference_group.py:measure_interference_group'), ('quick delays', 'temporal_and_spectral_gate_functionality/temporal_functions.py:add_quick_time_delay_generic')],
     EV, 'All programs of the alphabet up to the depth compared with an independent partial-distinguishability model.')

prop('C16', 'Popescu-Rohrlich statistics are consistent and non-signalling',
     'For every setting of the measurement the outcome probabilities of a circuit with Popescu-Rohrlich correlations are non-negative and sum to the weight of the input, and the marginal distribution on one side does not depend on the setting on the other side. Correlations equal the documented (quantumness dependent) function of the polarisation directions: at quantumness 1 they are the quantum correlations of the photon pair. If photons got entangled by the circuit, so that an outcome does not determine the polarisation of every photon (within a pair or between pairs), the measurement is refused; it is never refused for local settings, whatever the threshold for setting probabilities to zero.',
     ['inputs', 'configurations'], 'a grid of settings on both sides, both pair types, quantumness values, channel assignments',
     'Tests check one set of angles with one channel layout.',
     ['popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py', 'nodes/superquantum_nodes.py'],
     [('gate', 'popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py:execute_popescu_rohrlich_gate'), ('measurement', 'popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py:perform_measurement_popescu_rohrlich_correlation')],
     EV, 'Exhaustive over the grid of settings, layouts and quantumness values.')

prop('C17', 'Histograms and correlation data are the exact statistics of the collection',
     'The histogram data of plot() gives, per selected initial state and per combination of the selected classical channels, the sum of the cumulative probabilities of the states with these values, in the order of the selected channels (all channels and all labels without a selection). plot_correlations data equals the expectation value computed from these statistics. The bars that are drawn show these numbers. Nothing is dropped, double counted or attributed to another channel or label.',
     ['inputs', 'configurations'], 'all collections over a menu of states, weights and labels, all selections of classical channels and initial states, both naming conventions',
     'Tests mostly check that plotting does not fail.',
     ['visualization/plot.py'],
     [('histogram', 'visualization/plot.py:plot'), ('correlations', 'visualization/plot.py:plot_correlations')],
     ['plot(histo_output_instead_of_plot=True)', 'plot_correlations(correlation_output_instead_of_plot=True)'],
     'Exhaustive over channel selections and collections within the bound.')

prop('C18', 'State algebra: vectors, inner, outer and tensor products are those of Fock space',
     'Translating a state to a vector and back is the identity (up to the threshold), amplitudes and probabilities stay consistent, the inner product is conjugate-linear in its documented argument, the outer product and tensor product have the matrix elements and component order of Fock space, and the photon number is that of the components. Operands are never changed.',
     ['inputs', 'configurations'], 'all pairs of states over a menu of amplitudes and components, circuit sizes and both naming conventions',
     'Tests use one or two states with real amplitudes.',
     ['state.py'],
     [('vector', 'state.py:translate_state_components_to_vector'), ('inner', 'state.py:inner'), ('tensor', 'state.py:tensor')],
     ['State'], 'Exhaustive over pairs of states of the menu.')

prop('C19', 'Whole programs with feed-forward agree with the textbook semantics',
     'For every program that combines optical, measurement, classical, controlled, shift and generic nodes, the resulting collection (optical states, probabilities, classical values, histories and labels) is the one obtained by textbook quantum mechanics applied node by node. In particular total probability is conserved by every node and each branch sees only its own measurement results.',
     ['programs', 'inputs'], 'all programs up to a depth over an alphabet with every node kind, from several input collections, both naming conventions',
     'Errors in the hand-over between node kinds need particular sequences of nodes; tests contain about a dozen.',
     ['circuit.py', 'collection_of_states.py', 'state.py', 'nodes/custom_nodes.py', 'nodes/controlled_nodes.py'],
     [('evaluation', 'circuit.py:evaluate_circuit'), ('measurement', 'circuit.py:_perform_measurement')],
     EV, 'Explicit-state search of the reference model over all programs up to the depth bound; every path is replayed on the implementation.')

prop('C20', 'States of a collection evolve independently of each other',
     'Evaluating a collection gives, for each input state, exactly the states obtained by evaluating a collection holding only that state; which other states are present, their photon numbers, order or identifiers make no difference. Initial-state labels and (where kept) identifiers stay attached to the right state, and only components whose probability is below the threshold are ever dropped.',
     ['inputs', 'configurations', 'programs'], 'all pairs (triples) of input states over a menu with different photon numbers, for every node kind, several thresholds',
     'Evaluation groups states by photon number and drops small components; effects of one state on another show only for particular combinations.',
     ['circuit.py', 'collection_of_states.py', 'state.py'],
     [('grouping by photon number', 'collection_of_states.py:_group_states_together_by_photon_number'), ('threshold', 'state.py:set_state_components_from_vector')],
     EV, 'All pairs of menu states for every node kind and threshold within the bound.')

prop('C21', 'Invalid channel numbers and parameters are rejected without side effects',
     'A channel number above the range of the circuit is rejected by every optical, measurement, classical, controlled, shift and coupling node; a negative one by every node that documents it (measurement, set classical, classically controlled, shift, c-shift, coupling). Lists of different length, equal channels where two are needed, beam splitters in circuits with fewer than four channels, reflection and transmission that do not add up to 1 and matrices that are not 2x2 are rejected too. A rejected call leaves the circuit exactly as it was (no partly added beam splitter); every in-range choice is accepted and acts on exactly those channels. Malformed states, dictionaries, component names, list lengths, probabilities, node numbers and channel selections offered to a state, a collection or evaluate_circuit are rejected (exception, or False / None where documented) and the object keeps its content.',
     ['inputs', 'configurations'], 'all node methods with all channel numbers around the valid range, all positions in the argument lists',
     'Tests try one invalid number per method at most; off-by-one limits and partly applied changes remain.',
     ['nodes/custom_nodes.py', 'nodes/controlled_nodes.py', 'nodes/optical_nodes.py', 'collection_of_states.py', 'state.py'],
     [('argument checks', 'nodes/custom_nodes.py:shift'), ('argument checks', 'nodes/controlled_nodes.py:wave_plate_classical_control'), ('dictionary checks', 'collection_of_states.py:__check_valid_dictionary')],
     ['node methods', 'CollectionOfStates', 'State'], 'Exhaustive over methods, argument positions and channel numbers around the boundary.')

prop('C22', 'Circuit drawings show every node once, in order, on its channels',
     'draw() shows every node of a circuit (and of the circuits behind its bridges) exactly once: one visible marker per channel the node acts on, in one column, at the line of that channel, with the marker text given for that channel; the lines carry the labels of their channels. Nodes that share a channel appear from left to right and page after page in the order of the circuit, boxes of different gates do not overlap, consecutive nodes with the same combined_gate name share one box (a single one, or more than fit on a line, are drawn individually), and any number of nodes per line, nodes and channels can be drawn. draw_station() shows for each requested station exactly the nodes acting on its channels, in order, on the lines of that station, naming the other stations each node connects to. A drawing does not depend on what was drawn before.',
     ['programs', 'configurations', 'histories'], 'all sequences of nodes over all sets of channels up to a depth, combined gates, nodes per line, chains of circuits, all built-in nodes with all channels, partitions into stations, orders of drawing',
     'Tests store pictures of a few circuits; packing nodes in columns and pages depends on the whole sequence of nodes, and a picture that is wrong is still a picture.',
     ['visualization/draw.py', 'compound_circuit.py', 'nodes/optical_nodes.py', 'nodes/custom_nodes.py', 'nodes/measurement_nodes.py'],
     [('layout of nodes', 'visualization/draw.py:draw'), ('stations', 'visualization/draw.py:_filter_on_station')],
     ['FockStateCircuit.draw', 'FockStateCircuit.draw_station', 'CompoundFockStateCircuit.draw', 'matplotlib figures'],
     'Every drawing is recorded artist by artist on a stand-in for the figure (validated against real figures in every run) and decoded back to the list of nodes.')

prop('C23', 'Printed states, collections and circuits show what they contain',
     'Printing a collection gives the number of states and, once for every state and in order, its identifier, initial-state label, cumulative probability, classical values, measurement history and every optical component with name, amplitude (sign and imaginary part included) and probability, with two decimals. The history is the last result only, or all results with the last one first, as set by print_only_last_measurement of the collection, whenever that is set; copies keep the setting. Printing a state and print_optical_components() show the same for one state, printing a circuit shows its name, numbers of channels and length of the Fock state.',
     ['inputs', 'histories', 'configurations'], 'menus of identifiers, labels, probabilities, classical values, histories and amplitudes of every sign and numeric type, all combinations; all sequences of operations on a collection up to a depth with the text checked after each',
     'No test looks at a printed text, although reading it is how most users see a result; signs, rounding and the choice of history depend on the value and on what was done before.',
     ['state.py', 'collection_of_states.py', 'circuit.py'],
     [('text of a state', 'state.py:__str__'), ('text of a collection', 'collection_of_states.py:__str__'), ('text of a circuit', 'circuit.py:__str__'), ('setting for the history', 'collection_of_states.py:print_only_last_measurement')],
     ['str(CollectionOfStates)', 'str(State)', 'State.print_optical_components', 'str(FockStateCircuit)'],
     'The text is parsed and compared with the data of the same object; the layout beyond the field names is not prescribed.')


prop('C24', 'Columns and interference groups hold exactly the states they were made from',
     'A CollectionOfStateColumns holds every state of its collection once, under the label, group and column the state carries (or groups of its own); by_state, by_column, by_group and as_dictionary agree, and generate_collection_of_states and new_instance_from_state_information give it back. Splitting leaves single components of amplitude 1, the column amplitudes hold the original complex amplitudes, identifiers stay unique, group identifier and probability do not change. Expanding into photons and condensing preserve the photons and are inverse, with the documented boson factors; generating one state from a group after either returns the original state. Adding states and columns puts them in the column documented for the identifier and never overwrites one. Setting an attribute of a column or group reaches all its states; copies are independent.',
     ['histories', 'inputs'], 'all sequences of operations on interference groups and collections of columns up to a depth, from menus of states, identifiers and attributes; all combinations of constructor arguments',
     'The tests try each operation once on one example; identifiers, amplitudes and photon lists go wrong only for particular sequences (add with an identifier, then split, then renew), signs or numbers of components.',
     ['temporal_and_spectral_gate_functionality/interference_group.py', 'temporal_and_spectral_gate_functionality/column_of_states.py', 'temporal_and_spectral_gate_functionality/collection_of_state_columns.py'],
     [('split of components and photons', 'temporal_and_spectral_gate_functionality/column_of_states.py:split'), ('adding states and columns', 'temporal_and_spectral_gate_functionality/interference_group.py:add_state'), ('building groups from states', 'temporal_and_spectral_gate_functionality/collection_of_state_columns.py:__init__')],
     ['CollectionOfStateColumns', 'InterferenceGroup', 'ColumnOfStates'],
     'Operations on one column use the one with the lowest identifier; overlap functions for detection probabilities from a menu; normalised states.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, note, tech in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            assert set(p['quantifier']['over']) <= {"schedules", "crash_points", "inputs", "programs", "histories", "configurations", "fault_sequences"}
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, note, tech in P:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'mc', 'checks', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                               technique='model checking: ' + tech, level='model_checking', level_note=note))
        else:
            na.append(dict(property=i, reason='check not built yet'))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
             notes='Checks import the package from /repo/src directly; nothing is built. known_findings.txt lists recorded findings.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'open')


if __name__ == '__main__':
    main()
