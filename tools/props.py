"""The properties: one table, from which properties.jsonl and MANIFEST.json are written (gen.py)."""
L = "cpp/lib_moment/"


def P(id, title, statement, over, text, why, files, mech, level_note, state=None, observe=None, **kw):
    a = {"files": [L + f for f in files],
         "mechanism": [{"name": n, "where": L + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": L + w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": a, "level_note": level_note}
    d.update(kw)
    return d


PROPS = [
    P("P01", "Operator products reduce to the unique normal form of their algebra",
      "In every kind of scenario (free, locality, Pauli, inflation) a product of operators has exactly one representation: "
      "building it at once, appending to it, or multiplying parts in any grouping gives the same element (word and phase, or zero) "
      "that the scenario's algebra defines. Multiplication is associative with an identity and an absorbing zero, "
      "and a word is called canonical exactly when it is its own normal form.",
      ["inputs", "configurations"],
      "every scenario shape, every operator word within the supported length, every phase, every grouping of a product",
      "The tests compare a few dozen hand-picked products in a handful of scenarios; the law quantifies over all words, phases and scenario shapes, and its failures sit in rare combinations (signs of identities, words longer than inline storage, repeated outcomes after sorting).",
      ["dictionary/operator_sequence.cpp", "dictionary/operator_sequence.h", "hashed_sequence.cpp", "scenarios/context.cpp",
       "scenarios/locality/locality_context.cpp", "scenarios/pauli/pauli_context.cpp", "scenarios/inflation/inflation_context.cpp", "utilities/small_vector.h", "shortlex_hasher.h"],
      [("canonicalisation of a word", "dictionary/operator_sequence.cpp"), ("per-scenario simplification", "scenarios/*/"), ("merge product of Pauli strings", "scenarios/pauli/pauli_context.cpp")],
      "Normal forms are an executable function of the TLA+ specification (Words/Scenario), model-checked for the algebra laws on all pairs of short words in 11 contexts; every recorded computation of the real code (all short words, random words with phases, products) is recomputed by TLC. Not covered: words longer than the 64-bit hash can hold."),
    P("P02", "Conjugation, equality, ordering and hermiticity of operator products are exact",
      "Conjugation reverses products, replaces each operator by its adjoint and conjugates the phase, so conjugating twice is the identity and the conjugate of a product is the reversed product of conjugates. "
      "Two elements compare equal exactly when they are the same element, ordering is shortlex on words, comparison up to sign and the hermitian/anti-hermitian classification agree with conjugation, and negation changes only the sign.",
      ["inputs", "configurations"],
      "every pair of elements (with any phase, including zero and identity) in every kind of scenario, with self-adjoint and non-self-adjoint operators",
      "Existing tests conjugate a few unsigned words; phases combined with non-self-adjoint operators, zero and the identity are not sampled, and the laws relate several operations on all pairs.",
      ["scenarios/context.cpp", "scenarios/algebraic/algebraic_context.cpp", "scenarios/algebraic/algebraic_precontext.cpp", "hashed_sequence.h", "sequence_sign_type.h", "dictionary/operator_sequence.cpp", "shortlex_hasher.h"],
      [("conjugate", "scenarios/context.cpp"), ("conjugate of non-self-adjoint operators", "scenarios/algebraic/algebraic_context.cpp"), ("comparison by hash and sign", "hashed_sequence.h"), ("hermitian type", "dictionary/operator_sequence.cpp")],
      "Conj, Neg, ShortlexLess and HermType of the specification decide each recorded event in ~40 scenarios plus random ones; anti-involution is model-checked on the specification."),
    P("P03", "Rewriting by operator rules is sound, and 'complete' means unique normal forms",
      "Every rule the library derives from the user's operator rules follows from them (and from their conjugates), and reducing a product yields an equal, irreducible product. "
      "Rules are reported complete exactly when every way of reducing any word ends in the same result and the rules are closed under conjugation; a completed set still proves every rule the user gave.",
      ["inputs", "configurations", "histories"],
      "every set of monomial rules with phases or zero, with or without self-adjoint operators, commutativity or normality; every word",
      "Tests complete a few textbook systems; confluence is a statement about all words and all overlaps, and soundness about all derived rules; rules overlapping themselves, several overlaps of one pair, and phase-carrying rules are not tested.",
      ["scenarios/algebraic/operator_rulebook.cpp", "scenarios/algebraic/operator_rule.cpp", "scenarios/algebraic/algebraic_context.cpp", "scenarios/algebraic/algebraic_precontext.cpp", "utilities/substring_hasher.h", "hashed_sequence.cpp"],
      [("completion loop", "scenarios/algebraic/operator_rulebook.cpp"), ("overlap of two rules", "scenarios/algebraic/operator_rule.cpp"), ("reduction by search or iteration", "scenarios/algebraic/operator_rulebook.cpp")],
      "The specification completes the same equations independently (Completion) and model-checks completion as a non-deterministic process; recorded runs of the rulebook on a catalogue and ~150 random systems are judged by meaning (soundness, confluence, reachability), so any strategy is accepted. Completions that do not finish within the specification's fuel are judged only for internal consistency; inconsistent systems (1 = 0) are skipped."),
    P("P04", "One symbol per moment: the symbol table is a stable bijection",
      "Every operator product that occurs in a matrix or dictionary has exactly one symbol, shared with its conjugate (and with every product the scenario identifies with it); "
      "0 and 1 are symbols 0 and 1; no two symbols denote the same moment, and no symbol ever changes number, meaning or basis element once registered. "
      "Looking a product up finds its symbol (with the right conjugation) exactly when it has been registered, whatever its sign. "
      "Hermitian symbols have only a real basis element, anti-Hermitian ones only an imaginary one, others both; the table's basis lists invert these. "
      "Dictionaries list every canonical word up to their length once, in one order, with the right symbols.",
      ["inputs", "configurations", "histories"],
      "every history of matrix and dictionary creation in every kind of scenario; every product looked up",
      "Identity of moments is a statement about all pairs of products and all histories of registration; tests register a handful of products in one order.",
      ["symbolic/symbol_table.cpp", "symbolic/symbol_table.h", "symbolic/symbol.h", "symbolic/symbol_lookup_result.h", "symbolic/polynomial_to_basis.cpp",
       "dictionary/dictionary.cpp", "dictionary/operator_sequence_generator.cpp", "matrix/monomial_matrix_factory.h"],
      [("registration and merging of symbols", "symbolic/symbol_table.cpp"), ("lookup by operator sequence", "symbolic/symbol_table.cpp"), ("basis numbering", "symbolic/symbol_table.cpp"), ("generators", "dictionary/")],
      "TLC keeps its own symbol table along each recorded history and accepts a registration, lookup or dictionary only if it agrees with the specification's moments (Scenario/Moments). Known finding: inflation scenarios can give several symbols to one moment (greedy canonical form)."),
    P("P05", "Moment and localizing matrices contain exactly the moments they are defined by",
      "The (r,c) entry of a moment matrix of level k is the moment of conj(w_r)*w_c for the k-th level words w; of a localizing matrix for element or polynomial g, the moment of conj(w_r)*g*w_c, "
      "with the right coefficient, sign and conjugation, whether built by one thread or many. The words are all canonical words up to the level, once each. "
      "A matrix says it is Hermitian exactly when it is; its operator matrix and its symbols tell the same moments.",
      ["inputs", "configurations", "schedules"],
      "every scenario, level, localizing word (with sign) and polynomial (symbolic or raw), single- or multi-threaded, in any order of creation",
      "Tests compare a few small matrices; sign, conjugation, aliasing and threading interact and only show for particular words.",
      ["matrix/operator_matrix/moment_matrix.h", "matrix/operator_matrix/localizing_matrix.h", "matrix/operator_matrix/operator_matrix_factory.h", "matrix/monomial_matrix_factory.h",
       "matrix/polynomial_localizing_matrix.h", "matrix/composite_matrix.cpp", "multithreading/matrix_transformation_worker.h", "matrix_system/matrix_system.cpp", "dictionary/operator_sequence_generator.cpp"],
      [("entries of the operator matrix", "matrix/operator_matrix/"), ("symbols of the operator matrix", "matrix/monomial_matrix_factory.h"), ("sum of localizing matrices", "matrix/polynomial_localizing_matrix.h"), ("threads filling one matrix", "multithreading/matrix_transformation_worker.h")],
      "Every matrix made in random histories over ~45 scenarios is recorded cell by cell and recomputed by TLC from the definition."),
    P("P06", "Matrix arithmetic is exact on moments",
      "Pre- and post-multiplying a symbolic matrix by an element or polynomial, adding matrices, adding a scalar or polynomial, and cloning give the matrix whose every entry is that product or sum of moments, "
      "- also for matrices of numbers, which hold exactly the values they are made from - "
      "single- or multi-threaded, with correct (anti-)Hermiticity and coefficient flags; the operands are left unchanged.",
      ["inputs", "configurations", "histories"],
      "every pair of matrices and every monomial or polynomial (complex coefficients, conjugated symbols, signs) in every kind of scenario",
      "Results depend on the combination of conjugation, sign, non-commutativity and hermiticity flags; tests cover a few real-valued cases.",
      ["matrix/symbolic_matrix.cpp", "matrix/monomial_matrix.cpp", "matrix/polynomial_matrix.cpp", "matrix/value_matrix.cpp", "matrix/operator_matrix/operator_matrix.cpp", "symbolic/polynomial_factory.cpp", "dictionary/raw_polynomial.cpp", "utilities/eigen_utils.cpp"],
      [("multiplication", "matrix/monomial_matrix.cpp"), ("matrices of numbers", "matrix/value_matrix.cpp"), ("addition", "matrix/symbolic_matrix.cpp"), ("merging coefficients", "symbolic/polynomial_factory.cpp")],
      "Random chains of operations on random matrices are recorded and each result recomputed by TLC from the recorded operands."),
    P("P07", "Numeric bases rebuild the symbolic matrix",
      "For every symbolic matrix, in each of the eight numeric forms (dense or sparse, real or complex, cellular or monolithic), the weighted sum of basis matrices over the real and imaginary basis elements is exactly the matrix; "
      "the lists of included symbols and of real and imaginary basis elements cover everything the matrix depends upon; real forms refuse matrices with complex coefficients.",
      ["inputs", "configurations"],
      "every monomial or polynomial matrix in every scenario",
      "Equality of a symbolic matrix and its numeric expansion concerns every entry of every matrix, including anti-Hermitian and complex-weighted symbols that tests do not contain.",
      ["matrix/monomial_matrix_basis.cpp", "matrix/polynomial_matrix_basis.cpp", "matrix/matrix_basis.h", "matrix/matrix_basis.cpp", "matrix/symbolic_matrix.cpp", "symbolic/polynomial_to_basis.cpp"],
      [("basis generation", "matrix/"), ("included symbols", "matrix/symbolic_matrix.cpp")],
      "All eight forms of random matrices are recorded as exact entries and compared by TLC with the expansion of the recorded symbolic matrix."),
    P("P08", "A matrix system is a faithful cache",
      "Requesting a matrix by the same index always gives the same offset and the same matrix, distinct indices (level, word, sign, polynomial) never share one wrongly, offsets are handed out consecutively and never reused, "
      "matrices and symbols already handed out never change, lookups succeed exactly for what was created, and deleting removes exactly the requested matrix (out-of-range requests are refused).",
      ["histories", "inputs"],
      "every history of creation, request, lookup, by-product creation and deletion",
      "Caching errors need particular pairs of indices or orders of requests, which fixed test sequences do not contain.",
      ["matrix_system/matrix_indices.h", "matrix_system/matrix_system.cpp", "matrix_system/index_storage/map_index_storage.h", "matrix_system/index_storage/vector_index_storage.h", "matrix_system/index_storage/polynomial_index_storage.h",
       "matrix_system/indices/localizing_matrix_index.h", "symbolic/polynomial_ordering.h", "matrix_system/standard_matrix_indices.cpp"],
      [("index storage", "matrix_system/index_storage/"), ("creation on demand", "matrix_system/matrix_indices.h"), ("deletion", "matrix_system/matrix_system.cpp")],
      "TLC keeps the map of indices and the list of matrices along random histories and rejects any answer that differs."),
    P("P09", "Nearest-neighbour dictionaries list exactly the words on connected sites",
      "For a chain or lattice of qubits (open or wrapping, any size), the nearest-neighbour dictionary of a level and neighbour count lists, once each and starting with the identity, "
      "every canonical Pauli word whose sites form a run (chain) or connected patch (lattice) with no gap wider than allowed, of at most that many qubits; nothing else, the reported counts agree, "
      "the conjugates and hashes of the listed words are right, and asking again gives the same list. Neighbour counts or levels that are not supported are refused.",
      ["inputs", "configurations"],
      "every chain length and lattice shape, wrapping or not, symmetric or not; every level and neighbour count",
      "Boundary, corner and wrap-around cases depend on the particular combination of size, level and neighbour count; tests list a few dictionaries only.",
      ["scenarios/pauli/pauli_osg.cpp", "scenarios/pauli/pauli_dictionary.cpp", "scenarios/pauli/pauli_context.cpp", "scenarios/pauli/symmetry/lattice_duplicator.cpp", "scenarios/pauli/indices/nearest_neighbour_index.h"],
      [("generation of nearest-neighbour words", "scenarios/pauli/pauli_osg.cpp"), ("placing a pattern everywhere", "scenarios/pauli/symmetry/lattice_duplicator.cpp")],
      "Lattice defines the supports (sets of sites) by adjacency; TLC checks that the recorded dictionary is exactly all words on those supports. Dictionaries of lattices beyond pairs and triplets are declared unsupported by the code and must be refused."),
    P("P10", "Translations of qubit lattices are exact",
      "The hash of a Pauli word determines it; cyclic shifts of chains and row, column and lattice shifts move every qubit by the same offset modulo the size; "
      "all translates of a word have one representative, which is itself a translate, and only the representative is called canonical; "
      "a pattern is copied to every place where it fits, once each; symmetrizing a polynomial gives a polynomial with the same symmetric moments, and averaging over translations is exact.",
      ["inputs", "configurations"],
      "every chain and lattice size (columns of up to 32 qubits), every word and offset, wrapping or not",
      "Each size has its own bit layout and special cases (multi-word hashes, periodic patterns, negative offsets); tests sample a few words on a few sizes.",
      ["scenarios/pauli/symmetry/site_hasher.h", "scenarios/pauli/symmetry/moment_simplifier_wrapping.h", "scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp",
       "scenarios/pauli/symmetry/lattice_duplicator.cpp", "scenarios/pauli/symmetry/moment_simplifier.cpp"],
      [("bit layout and shifts", "scenarios/pauli/symmetry/site_hasher.h"), ("canonical translate", "scenarios/pauli/symmetry/moment_simplifier_wrapping.h"), ("copies", "scenarios/pauli/symmetry/lattice_duplicator.cpp")],
      "Random words, offsets and polynomials on ~100 chains and lattices are recorded and recomputed by TLC from the torus or window arithmetic of Lattice. Columns of more than 32 qubits are outside the documented mask size and not covered."),
    P("P11", "Pauli moment, localizing and commutator matrices contain what defines them",
      "For a level and a nearest-neighbour count, the Pauli moment matrix contains the moments conj(w_r)*w_c of the nearest-neighbour words; the localizing matrix conj(w_r)*g*w_c; "
      "the commutator and anticommutator matrices the moments of M*g - g*M and M*g + g*M for the entries M of the moment matrix, for g an element (with sign), a symbolic polynomial or a raw polynomial, "
      "including terms that commute with everything, in chains and lattices with or without wrapping and symmetry, by one thread or many. "
      "(Half) commutators of elements and commutators of polynomials are exact. Asking again for the same index finds the same matrix.",
      ["inputs", "configurations", "histories"],
      "every chain or lattice, level, neighbour count, element and polynomial; every order of creation",
      "Tests build a dozen commutator matrices of single operators on chains; cancellation, anti-Hermitian elements, symmetric aliases and reuse of by-products only show in combination.",
      ["scenarios/pauli/matrices/monomial_commutator_matrix.h", "scenarios/pauli/matrices/polynomial_matrices.h", "scenarios/pauli/matrices/moment_matrix.h", "scenarios/pauli/matrices/monomial_localizing_matrix.h",
       "scenarios/pauli/pauli_matrix_system.cpp", "scenarios/pauli/pauli_index_collections.cpp", "scenarios/pauli/indices/", "scenarios/pauli/pauli_context.cpp", "matrix/composite_matrix.cpp"],
      [("commutator of the moment matrix with a word", "scenarios/pauli/matrices/monomial_commutator_matrix.h"), ("sum of commutator matrices", "matrix/composite_matrix.h"), ("indices with nearest neighbours", "scenarios/pauli/indices/")],
      "Random histories over 17 chains and lattices are recorded cell by cell; TLC recomputes each from the recorded generators (themselves checked against Lattice) and the definition of the commutator."),
    P("P12", "Polynomials of symbols have one form and exact algebra",
      "Whatever terms it is built from, in the order of its factory, a polynomial lists each of X and X* at most once, in increasing order, without zeros, and never writes X* for Hermitian or anti-Hermitian X; "
      "sums, multiples, conjugates, real and imaginary parts are the exact ones; equality, being Hermitian, anti-Hermitian or another's conjugate, degree and ordering agree with the formal sums; "
      "polynomials of words become the right symbols and signs; conversions between polynomials and coefficients of real and imaginary basis elements "
      "(masks, vectors, rows of triplets, monoliths) agree with X = a + ib.",
      ["inputs", "configurations"],
      "every polynomial, complex coefficient and conjugation pattern, under either ordering and every kind of symbol (Hermitian, anti-Hermitian, complex, without a word)",
      "The cases (X and X* cancelling, imaginary parts, anti-Hermitian symbols, first basis element, terms next to each other only in one ordering) multiply; tests use a few polynomials each.",
      ["symbolic/polynomial.cpp", "symbolic/polynomial.h", "symbolic/polynomial_factory.cpp", "symbolic/polynomial_factory.h", "symbolic/polynomial_to_basis.cpp", "symbolic/polynomial_to_basis.h",
       "symbolic/polynomial_to_basis_mask.cpp", "symbolic/polynomial_ordering.h", "symbolic/monomial.h", "symbolic/monomial_comparator.h", "symbolic/monomial_comparator_by_hash.h", "dictionary/raw_polynomial.cpp"],
      [("canonical form", "symbolic/polynomial.h"), ("sums", "symbolic/polynomial_factory.cpp"), ("basis conversion", "symbolic/polynomial_to_basis.cpp")],
      "Symbolic defines polynomials as formal sums over the recorded symbol table; every recorded operation is recomputed by TLC and its result required to be the one canonical form."),
    P("P13", "Moment rulebooks are sound, complete and reduced",
      "Completing a rulebook gives rules which imply exactly the linear relations implied by what was added (with their conjugates): nothing lost, nothing more, refused exactly if they make 1 = 0; "
      "rules are oriented, keyed by what they rewrite, mutually reduced; size, monomial and Hermitian flags are right. Reducing a polynomial, monomial or matrix applies them everywhere; "
      "merging, comparing, storing, injecting, the map to basis elements agree with the relations. A rulebook in use cannot be changed, unless permitted; a failed operation leaves rulebooks as they were.",
      ["inputs", "configurations", "histories"],
      "every set of linear relations between symbols and their conjugates (complex, partial, of Hermitian, anti-Hermitian or complex symbols), in any order and history of operations",
      "Completion of complex relations over partially real symbols has many cases (non-orientable, partial, conjugate, anti-Hermitian), and their interplay depends on the history; tests fix a few sets.",
      ["symbolic/rules/moment_rule.cpp", "symbolic/rules/moment_rulebook.cpp", "symbolic/rules/moment_rulebook.h", "symbolic/rules/moment_rulebook_to_basis.cpp", "matrix_system/rulebook_storage.cpp",
       "matrix/substituted_matrix.cpp", "matrix/substituted_matrix.h"],
      [("completion", "symbolic/rules/moment_rulebook.cpp"), ("orientation", "symbolic/rules/moment_rule.cpp"), ("substitution", "matrix/substituted_matrix.cpp")],
      "Rules gives the relations as a space of vectors over the real basis of the recorded symbol table (coefficients modulo a prime); TLC keeps that space for every rulebook of a recorded history and "
      "requires of each recorded operation that its rules span it, are in solved form, and act as the specification says."),
    P("P14", "Inflation: products of independent moments",
      "In an inflation scenario every moment is the product of the moments of its connected parts (parts that share no source copy): the factor table lists exactly these, in canonical form, and finds a symbol by its factors. "
      "Extending a moment matrix by symbols adds rows and columns whose cells are the products, reusing a known symbol and introducing one per new product. Products of symbols and polynomials are exact, or refused as unknown; "
      "suggested extensions are factors that some row turns into a needed product. Rules for factors of a stored rulebook reach every product, known already or introduced later, by moment or extended matrices.",
      ["inputs", "configurations", "histories", "schedules"],
      "every causal network, inflation level, matrix level, list of extensions, thread policy and order of rulebooks and matrices",
      "Whether a product is found or introduced, and whether rules reach it, depends on what was registered before, in which order and by which thread; tests extend a few matrices once.",
      ["scenarios/inflation/factor_table.cpp", "scenarios/inflation/factor_table.h", "scenarios/inflation/extended_matrix.cpp", "scenarios/inflation/extended_matrix_indices.cpp", "scenarios/inflation/extended_matrix_indices.h",
       "scenarios/inflation/extension_suggester.cpp", "scenarios/inflation/inflation_matrix_system.cpp", "scenarios/inflation/multithreading/", "scenarios/inflation/inflation_context.cpp", "scenarios/inflation/causal_network.cpp",
       "utilities/index_tree.h", "matrix_system/rulebook_storage.cpp"],
      [("factorisation", "scenarios/inflation/inflation_context.cpp"), ("factor table", "scenarios/inflation/factor_table.cpp"), ("extension", "scenarios/inflation/extended_matrix.cpp"), ("rule expansion", "scenarios/inflation/inflation_matrix_system.cpp")],
      "Inflation defines connected parts from the causal network, bags of factors, and the effect of new symbols on rulebooks; TLC follows every recorded history with its own factor table and rulebooks (Rules) and rejects any cell, product, suggestion or rule that differs."),
    P("P15", "Probability tensors: Collins-Gisin, outcomes, correlators",
      "Every element of the Collins-Gisin tensor of a locality or inflation scenario is the product of the operators its index names, with the symbol the system has for it; every element of the probability tensor is the probability of its joint outcome (the last outcome of a "
      "measurement being one minus the others) and every element of the full correlator the product of its +/-1 valued measurements, both as exact combinations of Collins-Gisin elements and, once all are known, of symbols; they are reported complete exactly then. "
      "Blocks of measurements and fixed outcomes contain the right elements in order, or are refused; imposing values gives the right (conditional) polynomials; functionals convert exactly between the two forms; concurrent requests share one tensor.",
      ["inputs", "configurations", "histories", "schedules"],
      "every number of parties, measurements, outcomes, copies and axes, storage (explicit or computed on demand), set of measurements and outcomes, and growth of the symbol table",
      "An element is a signed sum over up to 2^parties (or outcomes^parties) others, and what is known changes as the symbol table grows; tests look at some elements of two or three parties in fully known tables.",
      ["probability/", "scenarios/locality/locality_collins_gisin.cpp", "scenarios/locality/locality_full_correlator.cpp", "scenarios/locality/locality_probability_tensor.cpp", "scenarios/locality/tensor_conversion.cpp", "scenarios/locality/locality_context.cpp",
       "scenarios/locality/party.cpp", "scenarios/inflation/inflation_collins_gisin.cpp", "scenarios/inflation/inflation_full_correlator.cpp", "scenarios/inflation/inflation_probability_tensor.cpp", "tensor/", "utilities/combinations.h"],
      [("probabilities", "probability/probability_tensor.cpp"), ("correlators", "probability/full_correlator.cpp"), ("refreshing", "probability/maintains_tensors.cpp"), ("blocks", "tensor/auto_storage_tensor.h"), ("conversion", "scenarios/locality/tensor_conversion.cpp")],
      "Tensors defines the axes of a scenario, what stands at each position, and elements as expanded products; TLC evaluates every element, block and imposed value of recorded histories from the scenario and the recorded symbol table."),
    P("P16", "Symmetry groups and systems of moments averaged over them",
      "The group generated by a set of matrices has exactly the products of the generators as elements; its representation on words of any length maps each word to the product, in the operator algebra, of the images of its letters. In a system of moments averaged over a "
      "group, every symbol of the original system that the map covers is sent to its exact average over the group, as substituting the new symbols' definitions back shows; other symbols are refused; new symbols are as few as possible and are real, imaginary or complex as "
      "what they stand for; every moment, localizing and polynomial localizing matrix of the new system is, cell by cell, the average of the original one, made once, at its reported place, and refused when its words are too long. Any other linear map between systems is followed likewise.",
      ["inputs", "configurations", "histories"],
      "every scenario, finite group of signed, affine or permuting actions on its operators, length of words, order of requests, and linear map given directly",
      "Averages are sums over up to 48 group elements of products in a rewriting algebra, followed by a rank factorisation; tests compare a few averages of CHSH-like scenarios whose products have no signs.",
      ["scenarios/derived/", "scenarios/symmetrized/"],
      [("map of symbols", "scenarios/derived/symbol_table_map.cpp"), ("splitting a map", "scenarios/derived/map_core.cpp"), ("factorisation", "scenarios/derived/lu_map_core_processor.cpp"), ("representations", "scenarios/symmetrized/representation_mapper.cpp"),
       ("groups", "scenarios/symmetrized/group.cpp"), ("derived matrices", "scenarios/derived/derived_matrix_system.cpp")],
      "Symmetry defines the closure of a set of matrices, the action of an element on words through the algebra's own product, averages, and what a derived map must substitute to, in exact arithmetic modulo a prime; TLC evaluates them on every recorded group, map and matrix."),
    P("P17", "Imported matrices: what they say about symbols, and nothing else",
      "In a system of imported matrices every symbol is exactly as free as the matrices imported so far leave it: it is real (imaginary) if and only if some import, or the system being purely real, forces this - a Hermitian matrix by equating each element with the conjugate of the opposite one, a real "
      "matrix by each element being real, with any complex factors and conjugations. A matrix that would force a symbol to zero, a false equation between constants, or a relation that cannot be expressed so, is refused and leaves no trace. After each import, the numbering of real and imaginary parts, and "
      "the cells, flags, included symbols and numeric bases of all matrices of the system - also of clones, sums and multiples, and of bases that were made before - are consistent with this.",
      ["inputs", "histories"],
      "every sequence of imports of square matrices of monomials into real or complex systems, interleaved with clones, sums, additions of polynomials, multiplications by constants and reading bases",
      "What a symbol may be depends on all imports made so far, and on each combination of factors and conjugations in opposite cells; tests import single 2x2 matrices with real factors.",
      ["scenarios/imported/", "symbolic/symbol_table.cpp", "matrix/monomial_matrix.cpp", "matrix/polynomial_matrix.cpp", "matrix/matrix_basis.h"],
      [("import and inference", "scenarios/imported/imported_matrix_system.cpp"), ("merging of constraints", "symbolic/symbol_table.cpp"), ("renumbering of bases", "matrix/monomial_matrix.cpp"), ("renumbering of bases of polynomial matrices", "matrix/polynomial_matrix.cpp")],
      "Imports is a state machine of the lines (any, real, imaginary) symbols lie on; TLC proves, for all sequences of imports of small matrices, that they are exactly the solutions of the imported equations and that nothing importable is refused, and every recorded history of the code is checked against it."),
    P("P18", "Names and printed text say exactly what they stand for",
      "Every operator has one name, different from all others: names a user gives to an algebra are accepted exactly if there is one per operator, each begins with a letter and has only letters, digits and _ . |, and none repeats; a name with a star is the adjoint, "
      "looking up a name finds its operator and nothing else is found; numbered names run A to Z, AA, AB, and so on. An element is printed as its phase and the names of its operators in order, in the notation of its scenario (algebraic, locality in natural or traditional form, inflation, Pauli, generic), "
      "and a monomial or polynomial as its terms, each with its factor, sign, symbol number or word and conjugation, so that different elements have different texts; the description of a matrix gives its level and word, or its source and rulebook by name where they exist. Reading the text of a term gives its factor, symbol and conjugation, and refuses any other text.",
      ["inputs", "configurations"],
      "every list of names, every element and polynomial (with Gaussian-integer factors) of every kind of scenario in every style of printing, every text given as a term",
      "A text must be right for every element, phase, factor and style; tests print a handful of positive words. A wrong or ambiguous text misleads the user although all computations are right.",
      ["utilities/alphabetic_namer.cpp", "utilities/format_factor.cpp", "scenarios/algebraic/name_table.cpp", "scenarios/context.cpp", "scenarios/algebraic/algebraic_context.cpp", "scenarios/locality/locality_operator_formatter.cpp",
       "scenarios/locality/locality_context.cpp", "scenarios/locality/party.cpp", "scenarios/inflation/inflation_context.cpp", "scenarios/pauli/pauli_context.cpp", "symbolic/monomial.cpp", "symbolic/polynomial.cpp"],
      [("names of operators", "scenarios/algebraic/name_table.cpp"), ("words", "scenarios/context.cpp"), ("terms, and reading them", "symbolic/monomial.cpp"), ("polynomials", "symbolic/polynomial.cpp")],
      "Text specifies names, notation and the reading of terms over character codes; TLC proves on a catalogue of scenarios that the notation is unambiguous, and compares every text the code prints or reads with it."),
    P("P19", "Collections hold, and enumerations list, exactly what they should",
      "A small vector, bitset, tree of words, matrix, tensor or store behaves after every sequence of operations as the sequence, set of numbers, map over words, array or keyed collection it stands for, also past the limits of its storage in place or page of bits, and after copies, moves, swaps and merges. "
      "Every enumeration (choices, splits, words in order, ways to add up, boxes of indices, triangles of a matrix) lists each item exactly once, in its order, and reports its position rightly. "
      "Index arithmetic, hashes, least rotations, powers, merges and encodings between UTF-8 and UTF-16 give the values they are defined by; a hash keeps words of every length said to be hashable in their order.",
      ["inputs", "histories"],
      "every sequence of operations, size and capacity (in place or not, one page or several, aligned or not), every range and dimension, every code point, every radix and length of words",
      "All of the system rests on these; a slip at a page, capacity or range boundary corrupts larger problems only, with no error, and tests try a few sizes.",
      ["utilities/small_vector.h", "utilities/dynamic_bitset.h", "utilities/index_tree.h", "utilities/combinations.h", "utilities/multi_partition.h", "utilities/ordered_permutation.h", "utilities/triangular_index_iterator.h",
       "utilities/persistent_storage.h", "utilities/recursive_index.h", "utilities/shift_sorter.h", "utilities/kronecker_power.h", "utilities/utf_conversion.cpp", "shortlex_hasher.h", "tensor/tensor.h", "tensor/index_flattener.h", "tensor/square_matrix.h"],
      [("sets of numbers", "utilities/dynamic_bitset.h"), ("sequences", "utilities/small_vector.h"), ("maps over words", "utilities/index_tree.h"), ("choices", "utilities/combinations.h"), ("matrices and their parts", "tensor/square_matrix.h")],
      "Containers specifies the collections as sequences, sets and functions, and enumerations as sets listed in order; TLC proves that paged sets, sequences kept in place or on the heap, and the successor functions refine them, and follows every recorded operation of the code."),
    P("P20", "Threads sharing an object see it change one operation at a time",
      "When several threads use one queue, store, matrix system, dictionary, matrix basis, group or set of tensors at once, every schedule gives the results of some order of the operations, each taking effect between its call and its return. "
      "What is made on first request is made once: all threads get the same object, which stays where and as it is; matrices are numbered in the order in which they are made, with those they are made of first. "
      "A queue hands out each item once, in order; after it was stopped nobody gets more; no thread waits for ever for what is there already, and none blocks another for ever.",
      ["schedules", "histories"],
      "every interleaving of the threads at locks, waits, atomic operations and memory accesses; every mixture of requests",
      "A race shows in a few of very many schedules, and tests run one at a time; the damage is a duplicate or lost matrix, a wrong number or a program that hangs.",
      ["multithreading/queue.h", "utilities/persistent_storage.h", "multithreading/maintains_mutex.h", "matrix_system/matrix_indices.h", "matrix_system/matrix_system.cpp", "dictionary/dictionary.cpp", "scenarios/pauli/pauli_dictionary.cpp",
       "matrix/matrix_basis.h", "scenarios/symmetrized/group.cpp", "probability/maintains_tensors.cpp"],
      [("queue", "multithreading/queue.h"), ("keyed store", "utilities/persistent_storage.h"), ("matrices made once", "matrix_system/matrix_indices.h"), ("words made once", "dictionary/dictionary.cpp"), ("bases made once", "matrix/matrix_basis.h"), ("tensors made once", "probability/maintains_tensors.cpp")],
      "Threads specifies each shared object as a machine with one step per operation, and which histories of calls and returns (and waits for ever) it allows; TLC proves that the two-lock queue and the look-make-look-again protocol refine it, "
      "refutes them without the guard or the second look, and judges every history that the code produces under a scheduler that enumerates and samples interleavings."),
]

NOT_APPLICABLE = []
