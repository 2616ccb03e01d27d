"""what the proofs of each property rest on, beyond what the suites state themselves (goes into the evidence)"""
PY = 'CPython executing the real functions on the symbolic values of pyvc/; path exploration forks on every symbolic branch'
RING = 'pyvc.exact: exact contraction and normal form of exponential sums (no solver); agreement of symbolic sums is decided by that normal form'
BUNDLE = 'pyvc.bundle: a vertex with an arbitrary number of interchangeable neighbours is a bundle; soundness of bundle contraction (parity forms over an uninterpreted neighbourhood)'
GRAPH = 'contracts of the graph mutators used by the rewrite rules (proved for both backends in C08/C09)'
Z3 = 'z3 4.x'
TRUST = {
    'C01': [PY, RING, BUNDLE, GRAPH], 'C20': [PY, RING, BUNDLE, GRAPH], 'C23': [PY, RING, BUNDLE, GRAPH], 'C24': [PY, RING, BUNDLE, GRAPH],
    'C02': [PY, RING, BUNDLE, GRAPH, 'strategies use the contracts of the rules proved in C01 (matcher/rewrite pairs are checked to be those)', 'termination of the driver is bounded only'],
    'C03': [PY], 'C04': [PY, 'a run of gates is an opaque word; contracts of the gate classes (C03)'],
    'C05': [PY, RING, BUNDLE, Z3, 'path-sum reading of graph-like diagrams; a finite sum changes by the term that changes; dot products are linear in the row', 'contracts of pivot and id_simp (C01, C02), Mat2 row operations and to_cnots (C07), permutation_as_swaps (C06)', 'loop cutting by pyvc.loops and pyvc.flow'],
    'C06': [PY, RING, Z3, 'frontier lemma of pyvc.trace (a family of per-wire gate lists is R, the explicit gates, D)', 'loop cutting by pyvc.loops'],
    'C07': [PY, Z3, 'loop cutting by pyvc.loops on the source of this run (loop headers replaced, bodies untouched)', 'facts of linear algebra: row operations keep the row space'],
    'C08': [PY, Z3, 'lazy materialisation of an arbitrary heap (pyvc.heap)'], 'C09': [PY, RING],
    'C10': [PY, RING, 'pointwise loops: shown for generic elements, the recorded reads and writes are the obligation'],
    'C13': [PY, RING], 'C14': [PY, Z3, 'loop cutting by pyvc.loops'], 'C15': [PY, Z3, 'loop cutting by pyvc.loops'],
    'C16': [PY, Z3, 'loop cutting by pyvc.loops'], 'C12': [PY, Z3],
    'C17': [PY, Z3, 'loop cutting by pyvc.loops'], 'C18': [PY, RING, Z3, 'contracts of adjoint, add_circuit, to_graph (C04) and full_reduce (C02)'],
    'C19': [PY, RING, 'numpy object-array arithmetic (tensordot, transpose, einsum-free operations)'], 'C21': [PY, RING],
}
ASSUME = {
    'C01': ['layout (rows, qubits) is not part of the map', 'no ground symbols; W nodes and Z-boxes only in the bounded part', 'match_pivot_boundary and match_copy are used on graph-like diagrams', 'regions: every combination of the explored connections inside a region, arbitrarily many outside neighbours'],
    'C02': ['layout is not part of the map', 'no ground symbols, W nodes or Z-boxes in the proofs'],
    'C05': ['frontier spiders are distinct with one output each and simple Hadamard edges (graph-like diagrams)', 'hubs stay Pauli while other gadgets are removed', 'a row of weight one exists after elimination on diagrams with flow: bounded only', 'which CNOTs the heuristics pick is bounded only (any CNOTs on different rows are correct)'],
    'C06': ['phase_block_optimize (greedy_consume_gates) is bounded only; TODD itself is C16', 'termination (partial correctness)'],
    'C08': ['vertex names are integers'], 'C10': ['layout positions are not claimed', 'plugging: exactly for up to 3 joined wires'],
    'C18': ['tolerances are idealised to equality', 'arrays of up to 3 entries, circuits of up to 3 qubits in the proofs'],
    'C19': ['shapes (arity, diagram) are enumerated; phases, labels and scalar are arbitrary', 'no overflow or rounding'],
    'C20': ['regions as in C01; rules over arbitrary ZH neighbourhoods'], 'C21': ['graph-like diagrams without parallel edges; replacement proved for 1 to 8 T-like spiders of arbitrary phase'],
    'C23': ['regions as in C01'], 'C24': ['evolution step proved for populations of 2; maps up to a nonzero scalar'],
}
