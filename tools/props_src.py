"""Source of properties.jsonl and MANIFEST.json (see gen.py)."""
MEAS = 'qiskit/ignis/mitigation/measurement/'
EXPV = 'qiskit/ignis/mitigation/expval/'
TOMO = 'qiskit/ignis/verification/tomography/'
RB = 'qiskit/ignis/verification/randomized_benchmarking/'
NOTE = ('Exploration: the real code is executed on a seeded, diverse workload and every execution '
        'is judged by an independent oracle; nothing is claimed about inputs that were not run. ')
NOT_APPLICABLE = {}
PROPS = []


def add(pid, title, statement, over, text, why, files, mechanism, observe, technique, note):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mechanism=mechanism, observe=observe, technique=technique,
                      note=NOTE + note))


add('C01', 'Readout calibration circuits prepare and measure exactly their labelled state',
    'For any qubit list or tensor pattern, registers and label, each calibration circuit, run '
    'without noise, yields with certainty the bit string in its name, with the i-th listed qubit '
    'in classical bit i and no other qubit touched. The complete set contains every basis state '
    'exactly once; the tensored set contains, for every group, every substate of that group.',
    ['inputs', 'configurations'], 'all qubit lists, groupings, registers and labels',
    'Existing tests count circuits for a few contiguous patterns and never simulate the circuits '
    'for permuted or sparse qubit lists.',
    [MEAS + 'circuits.py'], [('complete_meas_cal / tensored_meas_cal', MEAS + 'circuits.py')],
    ['returned circuits, state labels'],
    'reference-simulator monitor over generated calibration circuits',
    'Trusts the small exact simulator in vm/sim.py and gate matrices of Terra.')

add('C02', 'Fitted calibration matrices are the observed conditional frequencies',
    'After any history of added results, each calibration matrix entry equals the fraction of all '
    'shots that prepared the column state and read the row state, in the requested label order, '
    'ignoring unrelated experiments, and every populated column is a probability vector. Readout '
    'fidelities are the mean within-group assignment probability of the current matrix.',
    ['inputs', 'histories'], 'all histories of add-data calls, label orders, groups and counts',
    'Tests use two fixed calibrations and never interleave several partial results.',
    [MEAS + 'fitters.py'], [('calibration matrix accumulation and column normalisation',
                             MEAS + 'fitters.py')],
    ['cal_matrix, cal_matrices, readout_fidelity after each add_data'],
    'shadow accumulator replaying each add-data history next to the fitter',
    'Synthetic Result objects stand in for backends.')

add('C03', 'Complete readout filter inverts the calibrated noise and conserves shots',
    'Applying the pseudo-inverse correction to data distorted by the calibrated assignment matrix '
    'returns the undistorted data; the least-squares correction is non-negative, keeps the number '
    'of shots and is a minimiser of the residual over physical distributions. Every documented '
    'data form (counts, list, concatenated list, result) gets the same correction, the input is '
    'left unchanged, labels in any order are honoured and unknown labels are rejected.',
    ['inputs', 'configurations'], 'all invertible calibration matrices, label orders, data forms '
    'and counts', 'Tests correct a few GHZ-like histograms with loose tolerances on one form.',
    [MEAS + 'filters.py'], [('filter apply', MEAS + 'filters.py')],
    ['corrected counts/list/result returned by the filter'],
    'forward-model oracle plus optimality (NNLS) and conservation monitors on filter outputs',
    'Least-squares optimality is checked to the accuracy the SLSQP solver reaches in practice.')

add('C04', 'Tensored readout filter equals the complete filter of the tensor product',
    'For any grouping and any group matrices, the tensored correction equals the correction by '
    'the full tensor-product calibration matrix (first group on the least significant bits), for '
    'both methods, counts and result inputs, and leaves the input unchanged.',
    ['inputs', 'configurations'], 'all groupings, substate orders, group matrices and counts',
    'Tests compare the two filters on a few fixed patterns with product noise.',
    [MEAS + 'filters.py'], [('tensored filter apply', MEAS + 'filters.py')],
    ['corrected counts/result returned by the tensored filter'],
    'differential monitor: tensored filter against explicit Kronecker-product correction',
    'Same solver tolerance as C03 for least squares.')

add('C05', 'A calibration restricted to a subset of qubits is the marginal calibration',
    'Restricting a complete calibration to any ordered subset of its qubits yields the calibration '
    'matrix obtained by averaging over the prepared states and summing over the outcomes of the '
    'other qubits, with rows, columns and labels in the order of the requested qubits. For '
    'uncorrelated noise this is the calibration of those qubits alone; unknown qubits are '
    'rejected.',
    ['inputs', 'configurations'], 'all qubit lists, ordered subsets and calibration matrices',
    'The only existing test restricts a symmetric calibration, where bit order is invisible.',
    [MEAS + 'fitters.py'], [('subset_fitter', MEAS + 'fitters.py')],
    ['cal_matrix, state_labels and filter of the subset fitter'],
    'explicit marginalisation oracle on generated calibrations', 'Full label sets only.')

add('C06', 'Mitigated expectation values equal the noise-free expectation values',
    'For counts distributed as the calibrated readout noise acting on any ideal distribution, the '
    'mitigated expectation value of any diagonal observable equals its ideal value (exactly for '
    'the complete and tensored methods, without bias for the sampled method), for any measured '
    'qubits paired with any classical bits in any order. Without a mitigator the plain value is '
    'returned, and the reported standard deviation is that of the estimator (an upper bound for '
    'the sampled method).',
    ['inputs', 'configurations'], 'all mitigators, noise, diagonals, qubit/clbit selections and '
    'distributions', 'Tests use a few symmetric observables on sorted qubits with loose '
    'tolerances; the sampled method did not run at all in this environment.',
    [EXPV + 'complete_mitigator.py', EXPV + 'tensored_mitigator.py', EXPV + 'ctmp_mitigator.py',
     EXPV + 'utils.py'],
    [('expectation_value of the mitigators', EXPV), ('counts_probability_vector',
                                                     EXPV + 'utils.py')],
    ['(value, stddev) returned by expectation_value'],
    'forward-noise oracle: exact noisy distributions in, ideal values out',
    'The sampled (CTMP) method is judged at 7 standard errors with fixed seeds.')

add('C07', 'Mitigator matrices, fidelity, overhead and shot bounds are mutually consistent',
    'For every mitigator and qubit subset, the assignment matrix is column-stochastic and is the '
    'noise restricted to those qubits, the mitigation matrix is its inverse, and the assignment '
    'fidelity is its normalised trace, no matter in which order or how often they are queried. '
    'The mitigation overhead, required shots and standard deviation bound follow from the '
    'inverse matrix as documented.',
    ['inputs', 'histories'], 'all mitigators, subsets and query histories',
    'Tests query full-register matrices of three fixed mitigators.',
    [EXPV + 'base_meas_mitigator.py', EXPV + 'complete_mitigator.py',
     EXPV + 'tensored_mitigator.py', EXPV + 'ctmp_mitigator.py'],
    [('assignment_matrix, mitigation_matrix, caches', EXPV)],
    ['matrices, fidelities, overheads'],
    'algebraic invariants against an independent noise model over query histories', '')

add('C08', 'Expectation-value mitigator calibration recovers the readout noise',
    'Calibration circuits of every method prepare exactly their labelled basis state, and fitting '
    'their results returns the assignment matrix of the readout noise (any noise for the complete '
    'method, product noise for the tensored and continuous-time Markov methods, generator noise '
    'for the latter); from finitely many shots it is a stochastic matrix near it, with '
    'non-negative rates. Unrelated experiments are ignored, repeated calibrations accumulate, and '
    'insufficient data or noise that no such model has is rejected.',
    ['inputs', 'histories'], 'all noise models, methods and calibration histories',
    'Tests fit one stored dataset and compare with stored numbers.',
    [EXPV + 'circuits.py', EXPV + 'fitter.py', EXPV + 'ctmp_fitter.py', EXPV + 'utils.py'],
    [('calibration data extraction', EXPV + 'utils.py'), ('CTMP rate fit', EXPV + 'ctmp_fitter.py')],
    ['calibration circuits, fitted mitigators'],
    'end-to-end calibrate-and-compare monitor under simulated noise', '')

add('C09', 'Tomography circuits realise exactly the operators their labels name',
    'Every built-in preparation and measurement label has the stated matrix and its circuit '
    'realises it on the chosen qubit and classical bit only. For any circuit, registers, own '
    'classical registers and ordered qubit list, the state and process tomography circuits cover '
    'each requested label combination once, are named by it, and have the outcome distribution '
    'given by the Born rule for that label, with the i-th listed qubit in bit i of a classical '
    'register placed first. The source circuit is unmodified and invalid labels, bases and qubit '
    'lists are rejected.',
    ['inputs', 'configurations'], 'all circuits, registers, ordered qubit lists, bases and labels',
    'Tests run fixed 2-qubit circuits through the complete pipeline with loose fidelities.',
    [TOMO + 'basis/circuits.py', TOMO + 'basis/paulibasis.py', TOMO + 'basis/sicbasis.py',
     TOMO + 'basis/tomographybasis.py'],
    [('circuit generation', TOMO + 'basis/circuits.py'),
     ('label to circuit and matrix maps', TOMO + 'basis/paulibasis.py')],
    ['generated circuits, names, registers'],
    'reference-simulator monitor comparing each circuit with the Born rule of its label',
    'Trusts vm/sim.py.')

add('C10', 'State tomography returns the measured state from any history of results',
    'Given exact outcome frequencies of the generated circuits, the fitted density matrix equals '
    'the reduced state of the measured qubits in the requested order, whatever the split of the '
    'data over results and add-data calls, circuits given as objects or names, weights, hedging, '
    'method and (complete) measurement basis. Data of one circuit from several results adds up, results are '
    'not modified, and missing experiments and unknown methods are rejected.',
    ['inputs', 'histories', 'configurations'], 'all states, qubit orders, data histories, bases '
    'and fit options', 'Tests reconstruct a few fixed 2-3 qubit states with fidelity > 0.9.',
    [TOMO + 'fitters/base_fitter.py', TOMO + 'fitters/state_fitter.py',
     TOMO + 'fitters/lstsq_fit.py', TOMO + 'fitters/cvx_fit.py'],
    [('data accumulation and design matrix', TOMO + 'fitters/base_fitter.py')],
    ['fit() output, data table after each add_data'],
    'round-trip monitor: exact noiseless data in, known state out; shadow data accumulator',
    'cvx fits are judged with solver accuracy 5e-3.')

add('C11', 'Process tomography returns the channel that was run',
    'Given exact outcome frequencies, the fitted Choi matrix equals that of the channel from the '
    'prepared to the measured qubits (all other qubits starting in zero and being discarded), for '
    'any circuit, any ordered prepared and measured qubits, Pauli or SIC preparations, weights and '
    'data history.',
    ['inputs', 'histories', 'configurations'], 'all channels, qubit orders, preparation bases, '
    'data histories and fit options', 'Tests use fixed unitaries, equal prepared and measured '
    'qubits, and fidelity thresholds.',
    [TOMO + 'fitters/process_fitter.py', TOMO + 'fitters/base_fitter.py',
     TOMO + 'basis/circuits.py'],
    [('Choi matrix reconstruction', TOMO + 'fitters/process_fitter.py')],
    ['fit() output'], 'round-trip monitor: exact data of known channels in, Choi matrix out',
    'cvx fits are judged with solver accuracy 2e-2.')

add('C12', 'Tomography fits are physical and solve the stated least-squares problem',
    'For any counts, including inconsistent or few-shot data, fitted states and Choi matrices are '
    'Hermitian, positive semidefinite and correctly normalised (and trace preserving for the '
    'convex process fit), or an error is raised where the data fit no positive trace. The '
    'least-squares method is the closest positive matrix to the '
    'binomially weighted least-squares solution with hedged frequencies, rescaled to the trace; '
    'without the positivity option it is that solution itself. The convex fit minimises the '
    'same weighted objective over the physical matrices.',
    ['inputs'], 'all counts, weights, hedging parameters and dimensions',
    'Tests only feed consistent data from simulators.',
    [TOMO + 'fitters/lstsq_fit.py', TOMO + 'fitters/cvx_fit.py', TOMO + 'fitters/base_fitter.py'],
    [('weighted least squares and positivity projection', TOMO + 'fitters/lstsq_fit.py')],
    ['fit() output'], 'independent optimiser and physicality monitors on fits of hostile data',
    'Convex solver accuracy limits the tolerance for the cvx method.')

add('C13', 'Gate set tomography predicts every sequence of the measured gates',
    'The generated experiments are each preparation-gate-measurement, preparation-measurement and '
    'measurement sequence exactly once, apply exactly the gates they name, in order, on the chosen '
    'qubit. From exact data of any gate noise, initial state and readout error, linear inversion '
    'predicts the outcome probability of any sequence of the gates; the optimised fit returns a '
    'positive state and measurement and completely positive trace preserving gates, from exact '
    'data predicts such sequences to optimiser accuracy, and from sampled data lies at least as '
    'close to the measured frequencies as the true gate set does.',
    ['inputs', 'configurations'], 'all gate sets, SPAM sets, noise models and gate sequences',
    'Tests compare gates for noiseless and one noisy set in a fixed gauge.',
    [TOMO + 'fitters/gateset_fitter.py', TOMO + 'basis/gatesetbasis.py',
     TOMO + 'basis/circuits.py'],
    [('linear inversion and gauge/MLE optimisation', TOMO + 'fitters/gateset_fitter.py')],
    ['linear_inversion() and fit() outputs'],
    'gauge-invariant prediction monitor against an exact noisy-device simulation',
    'fit() judged at 1e-2 (predictions), for well conditioned SPAM sets and noise up to 0.15; '
    'E <= 1 is not a constraint of the fit and not judged.')

add('C14', 'Counts utilities conserve shots and match their definitions',
    'For any counts dictionary, marginal counts sum the counts over the unlisted bits with bits in '
    'descending order, compose, and conserve shots; combined counts are the entrywise sum; '
    'expectation counts are the parity sums of every bit subset keyed by that subset; count keys '
    'are all bit strings in order. Inputs are never modified.',
    ['inputs'], 'all counts dictionaries, bit subsets and register layouts',
    'Tests use two fixed dictionaries.', [TOMO + 'data.py'],
    [('counts utilities', TOMO + 'data.py')], ['returned dictionaries and the inputs'],
    'brute-force oracle and conservation monitors', 'Up to 6 bits.')

add('C15', 'Every RB sequence composes to the identity',
    'Without noise, each standard, interleaved, CNOT-dihedral (Z and X) and purity sequence '
    'generated for any pattern, lengths, multipliers, group, interleaved elements and seed acts '
    'as the identity on all qubits (purity: followed only by the named measurement rotations), so '
    'measuring returns all zeros with certainty.',
    ['inputs', 'configurations'], 'all patterns, lengths, multipliers, groups, interleaved '
    'elements and random elements', 'Tests sample a few fixed patterns and check them with the '
    'library itself.', [RB + 'circuits.py', RB + 'rb_groups.py', RB + 'dihedral.py'],
    [('sequence composition and inverse', RB + 'circuits.py'),
     ('group inverse', RB + 'rb_groups.py')], ['generated circuits'],
    'exact-execution monitor: every generated circuit is run on a random state by an independent '
    'simulator', 'Up to 6 qubits, a sampled set of options.')

add('C16', 'RB sequences have the documented lengths, names, nesting and reproducibility',
    'Each sequence contains exactly length times multiplier random group elements per pattern plus '
    'one inverse, elements act only within their pattern, longer sequences extend shorter ones of '
    'the same seed, and interleaved ones place the given element after each of the same random '
    'elements. Lengths data, names, seed offsets, purity bases and the qubit-to-bit map are as '
    'documented. A fixed random seed (including 0 or a RandomState) reproduces the circuits while '
    'different seeds differ; invalid options are rejected.',
    ['inputs', 'configurations'], 'all generator options',
    'Tests check gate counts for a handful of options.', [RB + 'circuits.py', RB + 'rb_groups.py'],
    [('sequence generation', RB + 'circuits.py')], ['generated circuits, xdata'],
    'trace-specification monitor parsing each circuit into its group elements', '')

add('C17', 'CNOT-dihedral elements behave as the matrices they denote',
    'An element maps each basis state x to omega^p(x) times f(x). Compose, dot, product, adjoint, '
    'conjugate, transpose, tensor, expand and the in-place cnot, phase and flip operations give '
    'the elements of the corresponding matrix operations up to a global phase for any number of '
    'qubits, equality is equality of operators, operands are not modified, phase polynomial '
    'arithmetic is pointwise modulo 8, and random elements are valid and uniform.',
    ['inputs', 'histories'], 'all elements, operation sequences and qubit numbers',
    'Tests compare fixed 1-3 qubit elements.', [RB + 'dihedral.py'],
    [('group and polynomial arithmetic', RB + 'dihedral.py')], ['element data and matrices'],
    'shadow-matrix monitor on random operation sequences', 'Matrices up to 5 qubits; sampled '
    'basis states for 9-10 qubits.')

add('C18', 'CNOT-dihedral elements and circuits convert into each other',
    'The circuit of any element implements its operator with only x, u1, cx, cz and id gates, and '
    'reading that circuit back gives the same element. Any circuit of CNOT-dihedral gates, applied '
    'whole or on chosen qubits, gives the element of its unitary; anything outside the group is '
    'rejected. The enumeration by CNOT count lists distinct elements with gate lists that '
    'produce them.',
    ['inputs'], 'all elements and circuits', 'Tests sample elements and compare through the same '
    'conversion code.', [RB + 'dihedral.py'],
    [('decomposition and circuit reading', RB + 'dihedral.py')], ['circuits and elements'],
    'round-trip and unitary monitors, exhaustive over the 1- and 2-qubit groups',
    'Exhaustive for 1-2 qubits, sampled for 3-6.')

add('C19', 'RB fitter reports the survival probabilities and the decay in the data',
    'For any results history (any order, split, repeated shots), raw data are the fractions of '
    'pooled shots with all bits of the pattern zero, per seed and length; statistics are their '
    'mean and standard deviation over seeds. The fit minimises the weighted squared error of '
    'A*alpha^m+B within [0,1], recovers exact decays, reports matching parameter errors, and the '
    'error per Clifford is (2^n-1)/2^n*(1-alpha). Degenerate data never yields out-of-range '
    'parameters.',
    ['inputs', 'histories'], 'all counts, patterns, seeds and data histories',
    'Tests compare two recorded data sets.', [RB + 'fitters.py', 'qiskit/ignis/utils.py'],
    [('data collection and fit', RB + 'fitters.py')], ['raw_data, ydata, fit'],
    'shadow accumulator and least-squares optimality monitor',
    'Recovery is claimed for typical length vectors; non-convergence is reported by an exception.')

add('C20', 'Interleaved, purity and CNOT-dihedral RB estimates follow from the decays',
    'Interleaved RB reports (d-1)/d*(1-alpha_c/alpha) with the published systematic bounds; '
    'CNOT-dihedral RB combines the Z and X decays as (alpha_Z+d*alpha_X)/(d+1); purity RB raw data '
    'are the purities of the final states and its alpha is the square root of their decay. Every '
    'result is used once, and later data is pooled shot by shot.',
    ['inputs', 'histories'], 'all data histories, patterns and noise',
    'Tests compare recorded data sets.', [RB + 'fitters.py'],
    [('derived fits', RB + 'fitters.py')], ['fit_int, fit_cnotdihedral, fit, raw_data'],
    'round-trip monitor with known decays and exact noisy executions of purity circuits', '')

add('C21', 'RB error-budget utilities match their definitions',
    'The coherence limit is the average infidelity of the T1/T2 relaxation channel; gates per '
    'Clifford are the counted gates on each qubit divided by the number of group elements '
    'including inverses; the error per gate and per Clifford conversions satisfy the documented '
    'formulas and invert each other for one two-qubit gate per Clifford; inconsistent inputs are '
    'rejected.', ['inputs'], 'all gate counts, error rates, coherence times and circuits',
    'Tests use single numeric examples.', [RB + 'rb_utils.py'],
    [('error budget', RB + 'rb_utils.py')], ['returned numbers'],
    'independent channel-fidelity and counting oracles', '')

QV = 'qiskit/ignis/verification/quantum_volume/'
add('C22', 'Quantum volume circuits act on the listed qubits and match their ideal circuits',
    'For any list of distinct qubits (shifted, with gaps, in any order), each quantum volume '
    'circuit acts only on those qubits, reads the i-th listed qubit into bit i, and its '
    'noiseless outcome distribution is that of the accompanying measurement-free ideal circuit, '
    'a square model circuit of as many layers as qubits. Names carry depth and trial; any seed '
    '(including 0) reproduces the circuits, and trials differ.',
    ['inputs', 'configurations'], 'all qubit lists, numbers of trials and seeds',
    'Tests only count circuits and look at the measured qubits of two sorted lists.',
    [QV + 'circuits.py'], [('qv_circuits', QV + 'circuits.py')],
    ['measured circuits and ideal circuits'],
    'differential monitor: exact execution of measured against ideal circuits',
    'Trusts the exact simulator and the gate definitions of Terra.')

add('C23', 'Quantum volume fitter reports the heavy output statistics of the data',
    'For any history of added ideal states and results, heavy outputs are the strings whose ideal '
    'probability exceeds the median, heavy counts are summed over all results of a circuit, the '
    'statistics are the pooled heavy output probability and its binomial error over trials, and '
    'a depth succeeds exactly when its mean exceeds 2/3 by two errors, with the matching '
    'confidence level. A noiseless device reaches the ideal value for any qubit list. Repeated '
    'ideal states and data without ideal states are rejected and leave no trace.',
    ['inputs', 'histories'], 'all ideal states, counts, numbers of trials, depths and orders of '
    'adding data', 'Tests compare one stored run with stored numbers.',
    [QV + 'fitters.py'], [('QVFitter', QV + 'fitters.py')],
    ['heavy_outputs, heavy_output_counts, heavy_output_prob_ideal, ydata, qv_success'],
    'shadow accumulator over add-data histories plus end-to-end differential monitor',
    'Strings within 1e-12 of the median may be classified either way.')

TOPO = 'qiskit/ignis/verification/topological_codes/'
ACC = 'qiskit/ignis/verification/accreditation/'
CHAR = 'qiskit/ignis/characterization/'
ENT = 'qiskit/ignis/verification/entanglement/'
DISC = 'qiskit/ignis/measurement/discriminator/'
LOG = 'qiskit/ignis/logging/ignis_logging.py'

add('C24', 'Repetition code circuits detect single faults and results are parsed faithfully',
    'For any distance, number of rounds and order of encoding, syndrome and readout steps, the '
    'circuits of logical 0 and 1 give, without noise, the logical value on every code bit and no '
    'syndrome change. Any single bit or measurement fault flips exactly the syndrome elements next '
    'to it. Processing turns raw counts into logical outcome and syndrome changes without losing '
    'or merging shots, and leaves the raw counts unchanged.',
    ['inputs', 'histories'], 'all distances, rounds, faults and raw counts',
    'Tests look at a few small codes with random single errors.',
    [TOPO + 'circuits.py'], [('RepetitionCode', TOPO + 'circuits.py')],
    ['circuits of the code, process_results'],
    'reference-simulator monitor with injected faults plus shadow parser of raw outcomes',
    'Faults are Pauli X or measurement flips at circuit locations.')

add('C25', 'Graph decoders return a most likely explanation of the observed syndrome',
    'The syndrome graph has exactly the pairs of elements that one fault can create. Matching '
    'decodes every outcome into a correction that explains its syndrome and has minimum total '
    'weight, so all outcomes with fewer faults than half the distance are corrected, also when '
    'edge weights come from measured error rates. Logical error probabilities, post-selection and '
    'lookup decoding are the stated fractions of the given counts; inputs stay unchanged.',
    ['inputs', 'histories'], 'all syndromes, counts, weights and calibration results',
    'Tests decode a handful of strings and check types of outputs.',
    [TOPO + 'fitters.py'], [('GraphDecoder', TOPO + 'fitters.py')],
    ['syndrome graph, matching, get_logical_prob, weight_syndrome_graph, lookuptable_decoding'],
    'brute-force minimum-weight explanation oracle over generated syndromes',
    'Edges of errors that were never observed only have to be decoded consistently.')

add('C26', 'One-time padded circuits keep the corrected outcome distribution',
    'For any circuit of single-qubit gates, controlled-Z or CNOT gates and final measurements, every '
    'padded version gives, after the returned classical correction, exactly the outcome '
    'distribution of the original circuit, uses the same two-qubit gates in the same order and '
    'only couplings of the device. Over pads each qubit is uniformly twirled; the same seed '
    'reproduces the same pads; the input circuit is unchanged and unsupported circuits rejected.',
    ['inputs', 'configurations'], 'all circuits, measurement maps, coupling maps and seeds',
    'Tests compare one 2 to 4 qubit circuit with fixed seeds.',
    [ACC + 'qotp.py'], [('QOTP and QOTPCorrectCounts', ACC + 'qotp.py'),
                        ('layer_parser', ACC + 'qotp.py')],
    ['QOTP, layer_parser, QOTPCorrectCounts'],
    'exact-distribution differential monitor between padded and original circuits',
    'Distributions are computed by the exact simulator.')

add('C27', 'Accreditation traps and bound are those of the accreditation protocol',
    'Each run has one target and the requested number of traps of the same shape, target at the '
    'returned position. Without noise the corrected trap output is all zero and the corrected '
    'target output has the distribution of the original circuit; errors that anticommute with a '
    'trap stabiliser flip it. Over any history of runs the fitter accepts exactly the runs whose '
    'traps all read zero, collects their target outputs, reports the protocol bounds and the '
    'Hoeffding confidence, keeps instances independent and rejects malformed runs without trace.',
    ['inputs', 'histories'], 'all circuits, numbers of traps, seeds and histories of runs',
    'Tests run one circuit and compare the bound of stored data.',
    [ACC + 'circuits.py', ACC + 'fitters.py'],
    [('AccreditationCircuits', ACC + 'circuits.py'), ('AccreditationFitter', ACC + 'fitters.py')],
    ['generate_circuits, single_protocol_run, FullAccreditation, MeanAccreditation'],
    'exact trap simulation with injected errors plus shadow protocol over run histories',
    'The confidence follows the formula of the code where it is negative.')

add('C28', 'Coherence and ZZ circuits realise the decay and oscillation they are named for',
    'For any gate numbers, qubits, spectators and detunings, T1, T2, CPMG, T2* and ZZ circuits '
    'return the delays that their identity gates take, and under amplitude damping, dephasing and '
    'ZZ coupling during those gates the excited population of each listed qubit follows the '
    'documented curve with the given detuning, independent of the other listed qubits; qubits '
    'that are not listed are not touched, and overlapping or malformed requests are rejected.',
    ['inputs', 'configurations'], 'all gate numbers, qubit lists, spectators and noise rates',
    'Tests run one noise model on one or two qubits with wide tolerances.',
    [CHAR + 'coherence/circuits.py', CHAR + 'hamiltonian/circuits.py'],
    [('coherence circuits', CHAR + 'coherence/circuits.py'),
     ('zz_circuits', CHAR + 'hamiltonian/circuits.py')],
    ['circuits, delays and detuning returned'],
    'density-matrix simulation under prescribed noise compared with the closed-form curve',
    'Noise acts on identity gates only.')

add('C29', 'Characteristic-time and ZZ fitters average the data and fit its curve',
    'For any split of the data over results and any history of added series, the fitted points '
    'are the pooled excited-state frequencies with binomial errors of each qubit; noiseless curves '
    'give back their time, frequency or ZZ rate, noisy ones a fit no worse than the true '
    'parameters, with errors from the covariance. New data refits what it concerns and fitting '
    'one series or qubit leaves the other results alone.',
    ['inputs', 'histories'], 'all counts, series, qubits, guesses, bounds and add-data histories',
    'Tests compare stored data with stored numbers.',
    [CHAR + 'fitters.py', CHAR + 'coherence/fitters.py', CHAR + 'hamiltonian/fitters.py'],
    [('BaseFitter', CHAR + 'fitters.py'), ('coherence fitters', CHAR + 'coherence/fitters.py'),
     ('ZZFitter', CHAR + 'hamiltonian/fitters.py')],
    ['ydata, params, params_err, time, ZZ_rate'],
    'shadow accumulator plus least-squares optimality monitor',
    'Initial guesses lie near the true parameters, as the fitters require.')

add('C30', 'Gate calibration circuits amplify exactly the error they calibrate',
    'For any repetitions and qubits, amplitude and angle calibration circuits for one-qubit and '
    'CNOT gates use the error-bearing gate the returned number of times, leave ideal qubits at one '
    'half, and a rotation or axis error of the gate appears in the population of each measured '
    'qubit with the sign and multiplicity the fitter assumes, so fitting data of any injected error '
    'returns that error; pooled frequencies and guesses are those of the data.',
    ['inputs', 'configurations'], 'all repetitions, qubit lists, control qubits and injected errors',
    'Tests use two qubits and one error value.',
    [CHAR + 'gates/circuits.py', CHAR + 'gates/fitters.py'],
    [('gate calibration circuits', CHAR + 'gates/circuits.py'),
     ('gate calibration fitters', CHAR + 'gates/fitters.py')],
    ['circuits, xdata, angle_err'],
    'simulation of circuits with injected gate errors, end to end through the fitters',
    'Injected errors are small enough for the fits to be unambiguous.')

add('C31', 'Pulse calibrations play, fit and apply the pulses they report',
    'Rabi and DRAG schedules drive exactly the listed qubits with the returned amplitudes and then '
    'measure them in order. IQ fitters recover amplitude and DRAG parameter of each qubit from '
    'averaged or single-shot data on any line of the IQ plane and any split of shots over results. '
    'Updating u2 and u3 with new pulses gives, for all angles, the schedule of frame changes '
    'and pulses of that gate, changes only the given qubits, and missing maps are reported.',
    ['inputs', 'configurations'], 'all qubits, amplitudes, widths, IQ lines, shots and gate angles',
    'Tests run two qubits through a pulse simulator once.',
    [CHAR + 'calibrations/pulse_schedules.py', CHAR + 'calibrations/fitters.py',
     CHAR + 'calibrations/ibmq_utils.py', CHAR + 'fitters.py'],
    [('schedules', CHAR + 'calibrations/pulse_schedules.py'),
     ('IQ fitters', CHAR + 'calibrations/fitters.py'),
     ('update_u_gates', CHAR + 'calibrations/ibmq_utils.py')],
    ['schedules instruction by instruction, fit results, instruction map'],
    'instruction-level trace checker of schedules plus forward-model monitor of the fits',
    'IQ responses lie on a line; fits start near the true parameters.')

add('C32', 'Discriminators train on all labelled data and filters label every shot',
    'For any results, masks, schedules (names or objects) and history of added data, the '
    'classifier is trained with every I/Q point of the masked qubits and the expected state of its '
    'schedule, one label per point. The discrimination filter gives each shot or average of each '
    'level 1 experiment the label of its own point, also under repeated names and unequal shots, '
    'counts labels in the base of the states, and leaves the raw result unchanged.',
    ['inputs', 'histories'], 'all IQ data, masks, levels, names, shots and add-data histories',
    'Tests use one two-state calibration with equal shots and never add data.',
    [DISC + 'discriminators.py', DISC + 'iq_discriminators.py', DISC + 'filters.py'],
    [('discriminators', DISC + 'discriminators.py'), ('IQ data', DISC + 'iq_discriminators.py'),
     ('DiscriminationFilter', DISC + 'filters.py')],
    ['arguments of classifier fit and predict, filtered results'],
    'recording classifier hooked into the discriminator, compared with a shadow training set',
    'Experiments of one calibration result have distinct names.')

add('C33', 'Values logged to file are read back exactly once, whole and in order',
    'For any configuration file, log path, loggers and values, each log_to_file call while enabled '
    'adds one entry with its time and pairs at the configured path, and the reader returns the '
    'entries as logged, in order, from exactly the files of the log, restricted to the requested '
    'keys, files and closed time interval. File data stays off the console and console messages '
    'off the file, each printed once; nothing is written while disabled; a value that cannot be '
    'printed leaves the logger working.',
    ['inputs', 'configurations', 'histories'], 'all configurations, paths, values, filters and '
    'sequences of logging calls', 'Tests log one-word values and count rows.',
    [LOG], [('IgnisLogger, IgnisLogging, IgnisLogReader', LOG)],
    ['log files, reader rows, console output of a child process'],
    'offline checker of recorded logging calls against files, reader and console',
    'Values do not contain the separator of two pairs.')

add('C34', 'File logging loses no entry under threads, rotation, processes and kills',
    'With several threads and loggers logging at once, also when they race for the first use, '
    'every call adds exactly one whole entry, in program and real-time order, and every console '
    'message is printed once and never reaches the file. Rotation keeps the latest entries in at '
    'most the configured number of files and sizes and drops nothing sooner, across runs. '
    'Processes sharing an unrotated log lose nothing, and entries of calls that returned survive '
    'the kill of the process.',
    ['schedules', 'crash_points', 'histories'], 'all interleavings of threads and processes, sizes, '
    'numbers of rotations and kill times', 'Tests log from one thread and count files.',
    [LOG], [('log_to_file, get_file_handler, singleton', LOG)],
    ['entries of the log files with begin and end of every call, console'],
    'delay injection in the logging machinery with an offline exactly-once and ordering checker',
    'Interleavings are sampled by stress and injected delays, not enumerated.')

add('C35', 'GHZ circuits prepare GHZ states and the analysis reports their fidelity',
    'For any number of qubits and coupling map, linear and parallel preparations give the GHZ '
    'state on the qubits of the layout with gates the device has, each tier using a qubit at most '
    'once and reaching every qubit once from the best connected one; MQC and parity circuits give '
    'the exact oscillation for any angle, bound or not. Parity values and the Fourier analysis of '
    'raw and mitigated series return the fidelities and bounds of the state. Maps that do not '
    'connect enough qubits are rejected.',
    ['inputs', 'configurations'], 'all sizes, coupling maps, gate errors, angles and signals',
    'Tests run two small sizes on one fake device.',
    [ENT + 'linear.py', ENT + 'parallelize.py', ENT + 'analysis.py'],
    [('linear', ENT + 'linear.py'), ('BConfig', ENT + 'parallelize.py'),
     ('Plotter.get_fourier_info', ENT + 'analysis.py')],
    ['circuits, tiers, layouts, analysis values'],
    'reference-simulator monitor over random devices plus closed-form signals',
    'GHZ states have at least two qubits; series cover whole periods without noise.')

add('C36', 'Calls and objects do not interfere with each other',
    'Every deterministic or explicitly seeded function of the package returns equal values for '
    'equal arguments, whatever was called before, whatever the caller did to earlier results, and '
    'leaves its arguments unchanged. Fitters, filters, decoders and discriminators report the same '
    'values however often and in whatever order they are read, independently of other instances, '
    'and without changing the results or labels they were given.',
    ['histories', 'inputs'], 'all call histories over the public functions and fitter objects',
    'Each test uses fresh objects once, so shared defaults, caches, aliased results and in-place '
    'edits of arguments stay hidden.',
    ['qiskit/ignis/utils.py', 'qiskit/ignis/mitigation/expval/base_meas_mitigator.py',
     'qiskit/ignis/verification/randomized_benchmarking/circuits.py'],
    [('seeded generators', 'qiskit/ignis/verification/randomized_benchmarking/circuits.py'),
     ('counts merging', 'qiskit/ignis/utils.py'),
     ('mitigator caches', 'qiskit/ignis/mitigation/expval/base_meas_mitigator.py')],
    ['arguments before and after, values of repeated calls and readings'],
    'metamorphic monitor: snapshots of arguments and values over random call histories', '')

add('C37', 'Plots show the data, fits and numbers that the objects report',
    'Every plot function draws, on the given or a new figure, exactly the data of the requested '
    'qubit, pattern, group, series, depth or trial: each seed or shot once, means with their '
    'standard errors, the fitted curve of the reported parameters, matrices with the labels of '
    'their rows and columns, misclassified points, and prints the reported numbers in labels, '
    'legends and titles. It shows the figure only on request, changes no reported value, and '
    'rejects qubits and matrices that do not exist.',
    ['inputs', 'configurations'], 'all fitted objects, indices, axes and plot options',
    'Tests never look at what is drawn, so a curve of another qubit or series, a swapped label '
    'or a dropped seed stays unseen.',
    [CHAR + 'fitters.py', RB + 'fitters.py', 'qiskit/ignis/verification/quantum_volume/fitters.py',
     MEAS + 'fitters.py', EXPV + 'base_meas_mitigator.py',
     'qiskit/ignis/measurement/discriminator/iq_discriminators.py', ENT + 'analysis.py'],
    [('plot of characterization fitters', CHAR + 'fitters.py'), ('plot_rb_data', RB + 'fitters.py'),
     ('plot_qv_data, plot_qv_trial, plot_hop_accumulative',
      'qiskit/ignis/verification/quantum_volume/fitters.py')],
    ['lines, error bars, images, scatter points, texts of the axes; calls of plt.show'],
    'monitor of the drawn artists against reported values and input data', 'Colours, fonts and '
    'layout are not judged. Terra 0.17 histograms get a shim for an attribute removed from '
    'matplotlib.')
