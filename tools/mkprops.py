"""Source of properties.jsonl (kept as a program so that anchors and texts are edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=x.strip()) for x in state.split(',')]
    P.append(d)

prop('C01', 'Every ZX rewrite rule preserves the linear map, scalar included',
 'Whenever a rewrite rule of the ZX rule library reports matches on a well-formed diagram, applying it to all the matches it reported yields a diagram denoting exactly the same linear map, global scalar included. The inputs and outputs stay the same wires in the same order.',
 ['inputs'], 'every diagram, every neighbourhood size and every phase on which a rule matches, every set of simultaneous matches, both ready-made graph backends',
 'Tests apply rules to a few seeded random diagrams and compare small tensors, usually up to a scalar; neighbourhoods of unbounded size, special phases and overlapping simultaneous matches are never exhausted.',
 ['pyzx/rules.py', 'pyzx/graph/base.py', 'pyzx/graph/scalar.py'],
 [('rule functions (spider, pivot, lcomp, gadgets, copy, supplementarity, ids ...)', 'pyzx/rules.py'), ('match functions', 'pyzx/rules.py'), ('apply_rule / add_edge_table', 'pyzx/rules.py, pyzx/graph/base.py')],
 'linear map denoted by the graph before and after applying a rule')
prop('C02', 'Simplification strategies terminate and preserve the linear map exactly',
 'Every simplification strategy, run on any diagram it accepts, terminates and leaves a diagram that denotes exactly the same linear map, global scalar included, on the same inputs and outputs. Strategies that promise a normal shape (graph-like, no interior Clifford spiders, Clifford normal form) deliver that shape.',
 ['inputs', 'histories'], 'every diagram and every order in which the strategies run',
 'A strategy is a long composition of rewrites chosen by the diagram itself; tests sample a handful of random circuits and mostly compare up to scalar.',
 ['pyzx/simplify.py', 'pyzx/rules.py'],
 [('simp driver, *_simp, full_reduce, clifford_simp, teleport_reduce, to_graph_like', 'pyzx/simplify.py')],
 'linear map and shape of the graph before and after a strategy')
prop('C03', 'Each gate agrees with its defining unitary in every representation',
 'For every gate of the gate set and every value of its parameters and qubit placement, the diagram it adds to a graph, its expansion into basic gates and its matrix all denote the same defining unitary of that gate. Its adjoint denotes the inverse unitary.',
 ['inputs'], 'every gate kind, every real (or rational) parameter value, every placement of its qubits',
 'Tests try a few fixed angles; an expansion that is wrong only for particular angle relations, or only in the global or relative phase, survives them.',
 ['pyzx/circuit/gates.py', 'pyzx/circuit/graphparser.py'],
 [('to_basic_gates / to_graph / to_adjoint / split_phases of each Gate', 'pyzx/circuit/gates.py')],
 'tensor of the gate, of its expansion and of its adjoint')
prop('C04', 'Circuit operations are the corresponding operations on unitaries',
 'For all circuits, composing, tensoring, inverting, copying, expanding to basic gates, splitting phase gates and converting to a diagram yield circuits or diagrams whose linear map is the product, tensor product, inverse, or the same map. The operands are left unchanged and later changes to a result do not affect them, and gate statistics are those of the gate list.',
 ['inputs'], 'every gate list of any length on any number of qubits',
 'Circuits have unbounded length; tests use a few small ones and seldom look at aliasing, bits or the operands afterwards.',
 ['pyzx/circuit/__init__.py', 'pyzx/circuit/graphparser.py'],
 [('add_circuit, tensor, adjoint, to_basic_gates, split_phase_gates, copy, stats', 'pyzx/circuit/__init__.py'), ('circuit_to_graph', 'pyzx/circuit/graphparser.py')],
 'tensor and gate list of the result and of the operands')
prop('C05', 'Circuit extraction returns a circuit for the same linear map',
 'If extraction of a circuit from a diagram succeeds, the circuit it returns denotes the same linear map as the diagram up to a nonzero scalar (up to the requested output permutation when asked for). Extraction succeeds on every diagram obtained from a unitary circuit by the flow-preserving simplifications, for every option setting.',
 ['inputs'], 'every diagram with flow, every option setting of every extractor',
 'Which Gaussian eliminations, phase gadgets, CZ overlaps and permutations occur depends on the diagram; tests see a few random circuits with default options.',
 ['pyzx/extract.py', 'pyzx/linalg.py', 'pyzx/circuit/__init__.py'],
 [('extract_circuit, extract_simple, lookahead_*, extract_clifford_normal_form', 'pyzx/extract.py'), ('clean_frontier, apply_cnots, remove_gadget, graph_to_swaps', 'pyzx/extract.py')],
 'tensor of the returned circuit against that of the input diagram')
prop('C06', 'Circuit optimisers preserve the unitary and never add T gates',
 'Every circuit-to-circuit optimiser returns a circuit denoting the same unitary as its input up to a global phase, on the same number of qubits. The T-count of the result never exceeds that of the input.',
 ['inputs'], 'every circuit over the supported gate set, every option',
 'Cancellation happens through commutation bookkeeping that depends on long gate histories; tests check a few random circuits.',
 ['pyzx/optimize.py', 'pyzx/todd.py', 'pyzx/simplify.py'],
 [('Optimizer: forward/backward commutation and cancellation', 'pyzx/optimize.py'), ('phase_block_optimize, full_optimize', 'pyzx/optimize.py')],
 'tensor and T-count of input and output circuit')
prop('C07', 'Binary linear algebra is exact and its recorded operations are faithful',
 'For every matrix over the two-element field, elimination returns its true rank and brings it to (reduced) echelon form using only row operations, and the row operations it reports through its optional trackers are exactly those it performed. Inverse, solve, nullspace, factorisation, transpose, product and CNOT synthesis return what their names say, and report failure exactly when no answer exists.',
 ['inputs'], 'every matrix of every shape and rank, every block size and option',
 'Tests use a few random square matrices; degenerate shapes, rank deficiency, block sizes and tracker faithfulness are not enumerated.',
 ['pyzx/linalg.py'], [('Mat2.gauss, inverse, solve, nullspace, factor, to_cnots, row/col operations', 'pyzx/linalg.py')],
 'returned matrices and recorded row operations')
prop('C08', 'Graph mutations keep the diagram data structure consistent',
 'After any sequence of public graph operations, adjacency is symmetric, every edge joins existing vertices, and counts, degrees, edge and vertex listings, types, phases and positions agree with one another and with what the operations asked for. An operation changes nothing about vertices and edges it does not concern.',
 ['inputs', 'histories'], 'every sequence of graph operations on every ready-made backend',
 'Consistency is a property of whole operation histories; tests look at a handful of short ones.',
 ['pyzx/graph/graph_s.py', 'pyzx/graph/multigraph.py', 'pyzx/graph/base.py'],
 [('add/remove vertices and edges, set/get accessors', 'pyzx/graph/graph_s.py, pyzx/graph/multigraph.py')],
 'the read accessors of the graph after each operation', 'graph, nedges, ty, _phase, _edata, _vdata, _inputs, _outputs')
prop('C09', 'Adding parallel edges and self-loops preserves the linear map',
 'Adding an edge between two vertices that may already be connected, or from a vertex to itself, in a backend that keeps at most one edge per pair, yields exactly the linear map of the diagram with all those edges drawn, scalar and phases included. The same holds for adding a table of edge multiplicities.',
 ['inputs'], 'every pair of vertex types and colours, every existing edge, any multiplicities of plain and Hadamard edges',
 'Multiplicities are unbounded and interact with colours, phases and self-loops; tests try a few small ones.',
 ['pyzx/graph/base.py', 'pyzx/graph/graph_s.py', 'pyzx/graph/multigraph.py'],
 [('add_edge_table', 'pyzx/graph/base.py'), ('add_edge with simplification', 'pyzx/graph/graph_s.py, pyzx/graph/multigraph.py')],
 'linear map of the graph against that of the drawn multigraph')
prop('C10', 'Diagram composition, tensor, adjoint and copies have their meaning',
 'For all diagrams, sequential composition, tensor product, adjoint, copying, cloning, sub-diagram embedding and plugging of basis states or effects denote the corresponding operations on linear maps, scalar included, on every backend. Copies share no mutable state with the original, and operands that are not the receiver stay unchanged.',
 ['inputs'], 'every diagram of every vertex type, with any boundary configuration',
 'Operations touch vertex identities, boundaries, scalars, labels and user data at once; tests compose a few circuits.',
 ['pyzx/graph/base.py', 'pyzx/graph/graph_s.py', 'pyzx/graph/multigraph.py'],
 [('compose, tensor, merge, adjoint, copy, clone, apply_state, apply_effect, subgraph_from_vertices', 'pyzx/graph/base.py')],
 'linear map and accessors of the result and operands')
prop('C11', 'Saving a diagram and loading it back is lossless',
 'Writing any diagram to its text interchange formats and reading it back yields a diagram with the same vertices, edges, types, phases, positions, boundaries, labels and scalar, hence the same linear map. Rational and symbolic phases survive exactly.',
 ['inputs'], 'every diagram, every phase denominator and symbolic phase, every scalar, every backend',
 'Formatting special-cases values by size and kind; tests round-trip a few small diagrams.',
 ['pyzx/graph/jsonparser.py', 'pyzx/graph/base.py', 'pyzx/tikz.py', 'pyzx/graph/scalar.py', 'pyzx/symbolic.py'],
 [('graph_to_json / json_to_graph / phase formatting', 'pyzx/graph/jsonparser.py'), ('to_tikz / tikz_to_graph', 'pyzx/tikz.py'), ('Scalar.to_json / from_json', 'pyzx/graph/scalar.py')],
 'the re-read diagram')
prop('C12', 'Printing a circuit and parsing the text back is lossless',
 'Printing any circuit in one of the supported text formats and parsing that text yields a circuit denoting the same unitary on the same number of qubits, or printing fails with an error; angles survive exactly for rational multiples of pi. Parsing standard text denotes the standard meaning of the gates in it, and malformed text is rejected rather than misread.',
 ['inputs'], 'every circuit, every gate and angle expressible in a format, every supported angle expression',
 'The space of gates, angles and expression forms is unbounded; tests parse a few fixed programs.',
 ['pyzx/circuit/qasmparser.py', 'pyzx/circuit/qcparser.py', 'pyzx/circuit/quipperparser.py', 'pyzx/circuit/gates.py', 'pyzx/circuit/__init__.py'],
 [('to_qasm/to_qc/to_quipper', 'pyzx/circuit/gates.py'), ('parsers', 'pyzx/circuit/*parser.py')],
 'the re-parsed circuit')
prop('C13', 'Global scalar arithmetic is exact',
 'Every operation on the symbolic global scalar multiplies or transforms the complex number it denotes exactly as documented: multiplying by phases, powers of the square root of two, legless spiders, spider pairs and other scalars, conjugating, copying, and saving and loading. It reports zero exactly when the denoted number is zero.',
 ['inputs'], 'every scalar value and every operand',
 'The number is spread over several fields with special cases; tests exercise the scalar only through small diagrams.',
 ['pyzx/graph/scalar.py'], [('Scalar.add_*, mult_with_scalar, copy, to_number, to_json', 'pyzx/graph/scalar.py')],
 'number denoted before and after', 'power2, phase, phasenodes, floatfactor, is_zero')
prop('C14', 'Symbolic phases obey polynomial arithmetic',
 'For all symbolic phases, sum, difference, negation, product with numbers and with each other, powers and reduction modulo two agree with the arithmetic of the values the symbols may take, and equal expressions compare equal with equal hashes. Parsing the printed form of an expression yields an equal expression, and substituting numbers for symbols gives the value of the expression.',
 ['inputs'], 'every polynomial in any number of symbols, every assignment of values',
 'Term collection over unbounded polynomials is only sampled by tests.',
 ['pyzx/symbolic.py'], [('Poly, Term, Var arithmetic', 'pyzx/symbolic.py'), ('parse', 'pyzx/symbolic.py')],
 'value of an expression under an assignment')
prop('C15', 'Routed CNOT circuits respect the device and the parity map',
 'For every connected architecture and every invertible parity map, routing returns CNOTs only between qubits adjacent in the architecture, whose product is the requested parity map (up to the permutations it reports). Without an architecture the same holds on the complete graph.',
 ['inputs'], 'every connected architecture, every invertible matrix, every elimination mode',
 'Steiner trees and elimination depend on the whole graph and matrix; tests run a few random ones per architecture.',
 ['pyzx/routing/steiner.py', 'pyzx/routing/cnot_mapper.py', 'pyzx/routing/architecture.py', 'pyzx/routing/parity_maps.py'],
 [('steiner_gauss, rec_steiner_gauss', 'pyzx/routing/steiner.py'), ('steiner_tree, rec_steiner_tree', 'pyzx/routing/architecture.py'), ('CNOT_tracker', 'pyzx/routing/parity_maps.py')],
 'the list of CNOT gates produced')
prop('C16', 'Phase-polynomial synthesis realises the given phase polynomial',
 'Third-order duplicate-and-destroy rewriting, parity-network synthesis and architecture-aware phase-polynomial routing return circuits that realise the same phase polynomial and the same output parities as their input, up to global phase. Parity networks contain every requested parity, and routed results use only edges of the architecture.',
 ['inputs'], 'every phase polynomial, every set of parities, every architecture',
 'Correctness rests on algebraic identities over unbounded parities; tests try a few random instances.',
 ['pyzx/todd.py', 'pyzx/parity_network.py', 'pyzx/routing/phase_poly.py'],
 [('phase_gates_to_poly, MultiLinearPoly, todd_simp, todd_iter', 'pyzx/todd.py'), ('parity_network', 'pyzx/parity_network.py'), ('route_phase_poly, PhasePoly', 'pyzx/routing/phase_poly.py')],
 'the circuits and matrices returned')
prop('C17', 'Reported generalised flows are valid and complete',
 'Whenever a generalised flow is reported for a diagram it satisfies the defining conditions of such a flow: correction sets avoid the inputs, the order strictly decreases, and odd neighbourhoods are exactly as required. When none is reported, none exists.',
 ['inputs'], 'every diagram viewed as an open graph, including ones with no flow',
 'Validity quantifies over all open graphs; tests only check that a few circuits have a flow.',
 ['pyzx/gflow.py', 'pyzx/linalg.py'], [('gflow', 'pyzx/gflow.py')],
 'the returned order and correction sets')
prop('C18', 'Circuit equality verification is never wrong',
 'When equality verification of two circuits answers yes, the circuits denote the same unitary up to a global phase (exactly up to the options given), and tensor comparison answers yes exactly when the two maps agree (up to the nonzero scalar allowed). Verification does not modify the circuits compared.',
 ['inputs'], 'every pair of circuits, every option',
 'Unsoundness shows only for particular unequal pairs; tests compare a few equal pairs and one or two unequal ones.',
 ['pyzx/circuit/__init__.py', 'pyzx/tensor.py', 'pyzx/simplify.py'],
 [('verify_equality', 'pyzx/circuit/__init__.py'), ('compare_tensors, find_scalar_correction', 'pyzx/tensor.py')],
 'the answer returned')
prop('C19', 'Tensor and matrix evaluation is the standard semantics of the diagram',
 'Evaluating a diagram or circuit to a tensor or matrix gives the contraction of the standard generator maps times the scalar, with outputs before inputs in interface order. The value does not depend on vertex names, positions, drawing order, or backend.',
 ['inputs'], 'every diagram over all vertex and edge types, every numbering and layout',
 'Index bookkeeping depends on layout, arity and order; tests evaluate diagrams only in the layouts the library itself produces.',
 ['pyzx/tensor.py', 'pyzx/graph/base.py'], [('tensorfy, pop_and_shift, tensor_to_matrix, *_to_tensor', 'pyzx/tensor.py')],
 'the array returned')
prop('C20', 'H-box rewriting preserves the linear map',
 'Every rewrite and conversion for diagrams with H-boxes, applied to the matches it reports, yields a diagram with exactly the same linear map, scalar included. This covers the conversions to and from hypergraph form and the combined strategy.',
 ['inputs'], 'every diagram with H-boxes of any arity and phase',
 'Tests exercise H-box rules through a handful of Toffoli circuits, mostly up to scalar.',
 ['pyzx/hrules.py', 'pyzx/hsimplify.py'], [('match_*/rule functions', 'pyzx/hrules.py'), ('to_hypergraph_form, from_hypergraph_form, zh_simp', 'pyzx/hsimplify.py')],
 'linear map of the graph before and after')
prop('C21', 'Stabiliser decompositions sum to the original diagram',
 'Replacing magic states by a sum of stabiliser terms yields diagrams whose linear maps add up exactly to that of the original, scalar included, and repeating it leaves only Clifford terms. Post-selection and path-sum evaluation of such sums agree with the maps denoted.',
 ['inputs'], 'every diagram with phases that are multiples of a quarter turn, every choice of replaced spiders',
 'The coefficients and phases must cancel exactly for each choice of spiders; tests check very few.',
 ['pyzx/simulate.py'], [('replace_magic_states and the replacement terms', 'pyzx/simulate.py'), ('find_stabilizer_decomp, SumGraph, calculate_path_sum', 'pyzx/simulate.py')],
 'sum of the linear maps of the terms')
prop('C22', 'Applying a recorded diagram difference reproduces the target diagram',
 'For any two diagrams that share a vertex naming, computing their difference and applying it to the first gives a diagram equal to the second in vertices, edges, types, phases and positions, up to naming of newly added vertices. Saving and loading the difference does not change its effect, and the first diagram is left unchanged.',
 ['inputs', 'histories'], 'every pair of diagrams related by any sequence of edits',
 'A difference mixes removals, additions, renames and attribute changes; tests cover a single scenario or none.',
 ['pyzx/graph/diff.py'], [('GraphDiff.calculate_diff, apply_diff, to_json, from_json', 'pyzx/graph/diff.py')],
 'the patched graph')
prop('C23', 'Interactive single-step rules are sound and their checks are pure',
 'Whenever the applicability check of an interactive single-step rule accepts, applying the rule preserves the linear map exactly, scalar included; when it rejects, the rule leaves the diagram unchanged. The checks themselves never change the diagram.',
 ['inputs'], 'every diagram and every vertex or vertex pair',
 'Tests apply each rule to one or two hand-drawn diagrams.',
 ['pyzx/basicrules.py'], [('check_* and rule functions', 'pyzx/basicrules.py')],
 'linear map before and after; diagram after a check')
prop('C24', 'Search congruences and measurement-pattern moves preserve the linear map',
 'The local-complementation and pivot congruences used by stochastic search, applied at any admissible spider or edge of a graph-like diagram, yield a diagram with the same linear map up to a nonzero scalar. Stochastic optimisation built on them returns a diagram or circuit with the same map.',
 ['inputs', 'schedules'], 'every graph-like diagram, every admissible subject and every random choice',
 'Subjects are chosen at random, so tests see arbitrary samples of an unbounded space.',
 ['pyzx/local_search/congruences.py', 'pyzx/local_search/simulated_annealing.py', 'pyzx/local_search/genetic.py'],
 [('lc_cong, lc_cong2, pivot_cong, unfuse', 'pyzx/local_search/congruences.py')],
 'linear map before and after')

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, d['id']
            f.write(json.dumps(d) + '\n')
