import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":["src/qrisp/"+f for f in files],"mechanism":[{"name":n,"where":"src/qrisp/"+w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=False
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
AD="alg_primitives/arithmetic/adders/"
prop("C01","In-place quantum addition is exact at every register width",
"Adding a quantum register or a classical integer in place to another register leaves the addend unchanged and replaces the target's value by the sum modulo two to the target's width, for every offered adder, every pair of widths, with or without a carry-in, carry-out or control qubit, in traced and untraced programs. Every workspace qubit is returned to zero and no relative phase is introduced. Applying the inverse subtracts.",
["inputs","configurations"],"all register widths, all register contents (hence all superpositions), all adders, all combinations of carry-in / carry-out / control",
"Existing tests enumerate a handful of widths (mostly <= 5 or 6 qubits) and read out measurement histograms, so phases, dirty workspace and width-dependent boundary cases beyond the listed sizes are never decided; the register width is unbounded.",
[AD+"cuccaro_adder.py",AD+"gidney_adder.py",AD+"thapliyal_adder.py",AD+"adder_tools.py",AD+"incrementation.py",AD+"fourier_adder.py",AD+"qcla",AD+"gidney_venting_adder.py",AD+"remaud.py",AD+"ripple_carry_adder.py"],
[("ripple sweep of majority / unmajority blocks",AD+"cuccaro_adder.py"),("temporary logical-and carries",AD+"gidney_adder.py"),("in-place adder selection and width adaption",AD+"adder_tools.py"),("phase-space addition",AD+"fourier_adder.py")],
["unitary of the produced circuit on computational basis states incl. phase"])
prop("C02","Quantum comparisons evaluate the order relation exactly",
"The comparison operators on quantum numbers (less, less-or-equal, greater, greater-or-equal, equal, not equal; against another quantum number or a classical number) yield a quantum boolean that is true exactly when the relation holds between the represented values, for all widths, exponents and signedness. The operands keep their values and no workspace or phase remains.",
["inputs","configurations"],"all pairs of operand formats (width, exponent, sign) and all operand values, incl. classical operands outside the representable range",
"Tests try a few formats; the format space (two widths, two exponents, two sign flags, out-of-range constants) is unbounded and mistakes appear only at boundaries such as mixed sign, unequal precision or out-of-range constants.",
["alg_primitives/arithmetic/comparisons.py","qtypes/quantum_float.py"],
[("subtraction-based comparison","alg_primitives/arithmetic/comparisons.py"),("operator dispatch incl. mid-comparison special cases","qtypes/quantum_float.py")])
prop("C03","Values survive encoding into quantum types and decoding back",
"Every quantum data type maps each representable value to exactly one computational basis state and back: encoding a value and measuring returns that value, distinct basis states decode to distinct values, and encoding an unrepresentable value is rejected instead of silently storing another value. Conversions of numbers (sign, exponent, rounding to the representable grid) agree with ordinary arithmetic.",
["inputs","configurations"],"all widths, exponents, signedness, moduli and all values of each quantum type",
"Tests encode a few constants into narrow registers; injectivity and round trip are statements about all 2^n labels for every n, including negative numbers, fractional exponents and register sizes beyond native word widths.",
["qtypes/quantum_float.py","qtypes/quantum_bool.py","qtypes/quantum_char.py","qtypes/quantum_modulus.py","qtypes/quantum_string.py","core/quantum_variable.py","misc/utility.py"],
[("signed integer / label bijection","qtypes/quantum_float.py"),("bitstring helpers","misc/utility.py"),("encode and initialisation","core/quantum_variable.py")])
prop("C04","Modular arithmetic helpers and modular quantum numbers are exact",
"Classical number-theory helpers used by the modular quantum types (extended gcd, modular inverse, Montgomery representation, powers of two modulo N, best shift) satisfy their defining congruences for every admissible input. Modular quantum numbers add, subtract and multiply exactly modulo N, in place and out of place, leaving operands and workspace clean.",
["inputs","configurations"],"all moduli, all residues, all exponents, traced and untraced evaluation",
"Tests fix a few small moduli; the congruences are universally quantified over N and residues and the interesting failures sit at non-coprime inputs, residues near N and shifts larger than the register.",
["alg_primitives/arithmetic/modular_arithmetic","alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py","alg_primitives/arithmetic/jasp_arithmetic/jasp_montgomery.py","qtypes/quantum_modulus.py"],
[("extended gcd / inverse loops","alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py"),("Montgomery reduction","alg_primitives/arithmetic/modular_arithmetic"),("modular in-place adder","alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_adder.py")])
prop("C05","Multi-limb integers compute exact fixed-width integer arithmetic",
"The traceable multi-limb unsigned integer type agrees with ordinary integer arithmetic modulo two to its total width for construction, addition, subtraction, multiplication, shifts, bit access, bit size and comparisons, for every number of limbs and every limb content.",
["inputs","configurations"],"all limb counts, all limb values",
"Tests use a few hand-picked numbers with a few limbs; carry chains across limbs and shifts crossing limb boundaries occur only for special 2^-32-probability limb patterns and any number of limbs.",
["alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py"],
[("limb-wise carry loops","alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py")])
prop("C06","Multi-controlled gates act exactly on the selected control pattern",
"A multi-controlled X, Z or phase gate changes the state exactly when the controls hold the requested control pattern and is the identity otherwise, for every number of controls, every control pattern and every offered synthesis method; phase-tolerant or half-computed variants may deviate only as documented. All auxiliary qubits are returned to zero and released.",
["inputs","configurations"],"all control counts, control patterns, synthesis methods, ancilla budgets",
"Tests cover small control counts for some methods, mostly via histograms that hide phases; the recursion and tree shapes depend on the number of controls without bound.",
["alg_primitives/mcx_algs","core/gate_application_functions.py","circuit/controlled_operations.py"],
[("balauca / khattar / jones / gidney / maslov / yong / gray constructions","alg_primitives/mcx_algs"),("method dispatch and control state handling","core/gate_application_functions.py")])
prop("C07","Inverse, control and decomposition of gates obey matrix algebra",
"For every gate of the library and every parameter value, the matrix obtained from the gate equals the matrix of its decomposition, the inverse gate's matrix is the adjoint, and the controlled gate's matrix is the block matrix selecting the gate on the requested control pattern. This also holds for inverses of controlled gates, controls of inverses, repeated control and gates built from whole circuits.",
["inputs","programs"],"all gates, all real parameters, all control counts and control patterns, all nesting of inverse and control",
"Tests evaluate a few gates at a few angles, usually up to global phase; the identities are quantified over real parameters and compositional nesting, and a controlled global phase error is invisible in uncontrolled tests.",
["circuit/operation.py","circuit/controlled_operations.py","circuit/standard_operations.py","circuit/quantum_circuit.py"],
[("u3 parameter inverse and matrix","circuit/operation.py"),("controlled operation construction","circuit/controlled_operations.py"),("composite gate inverse / control","circuit/operation.py")])
prop("C08","Circuit rewriting passes preserve the meaning of the circuit",
"Every circuit transformation offered as a pass or transpilation step returns a circuit with the same effect as its input (same unitary up to global phase, or same conditional effects and outcome statistics with measurements, resets and classically controlled operations), and leaves its input untouched. Passes that claim a target gate set or layout produce only gates of that set or layout, and metric-reducing passes never increase their metric.",
["programs","configurations"],"all circuits over the gate library incl. measurement, reset, classical control, barriers and symbolic parameters",
"Tests run passes on a few fixed circuits; rewriting is a statement about all programs, and wrong commutation or cancellation shows up only for particular gate neighbourhoods.",
["circuit/pass_management","circuit/transpiler.py","circuit/quantum_circuit.py"],
[("cancellation / fusion / commutation rules","circuit/pass_management"),("inlining transpiler","circuit/transpiler.py")])
prop("C09","The built-in simulator computes exact Born-rule statistics",
"Running a circuit on the built-in simulator yields the outcome distribution prescribed by multiplying the gate matrices and applying the Born rule, for every circuit with arbitrary gates, mid-circuit measurements, resets and measurement order, independent of internal sparsity, factorisation or reordering decisions. Sampled runs return integer counts that sum to the requested number of shots and only outcomes of non-zero probability.",
["programs","inputs"],"all circuits, all qubit orders, all measurement-to-bit assignments, all shot numbers",
"Tests simulate particular circuits and compare a few histograms; switching between sparse and dense representation, factor merging and reordering depends on program shape and size.",
["simulator"],
[("sparse tensor representation","simulator/bi_arrays.py"),("entangled factor merging","simulator/quantum_state.py"),("gate application","simulator/tensor_factor.py"),("circuit reordering","simulator/circuit_reordering.py")])
prop("C10","Qubit operator algebra agrees with matrix algebra",
"Sums, products, powers, scalar multiples, adjoints, commutators and conversions of qubit operators (Pauli, ladder and projector factors) represent exactly the corresponding matrix operations for any number of qubits and terms. Commutation tests, grouping, ground-state energies and hermiticity queries agree with the matrices.",
["inputs","programs"],"all operators with any number of terms, qubits and complex coefficients",
"Tests compare a few random operators; the algebra is a homomorphism statement over all products of 8 local factor types and all operators, including cancellation and sign bookkeeping.",
["operators/qubit/qubit_term.py","operators/qubit/qubit_operator.py","operators/qubit/commutativity_tools.py"],
[("local multiplication table","operators/qubit/qubit_term.py"),("term-wise operator product","operators/qubit/qubit_operator.py")])
prop("C11","Fermionic operators satisfy the canonical anticommutation algebra",
"Creation and annihilation operators and every expression built from them obey the canonical anticommutation relations, and translating an expression to qubit operators is a homomorphism: the qubit operator of a sum, product, adjoint or reordered expression equals the corresponding combination of the qubit operators. Normal-ordering and reduction never change the represented operator.",
["inputs","programs"],"all fermionic expressions over any number of modes",
"Tests check a few molecules and pairs of ladder operators; sign bookkeeping errors depend on ladder order and repeated modes and cancel in many Hermitian examples.",
["operators/fermionic/fermionic_term.py","operators/fermionic/fermionic_operator.py","operators/fermionic/transformations.py"],
[("ladder sorting with sign","operators/fermionic/fermionic_term.py"),("Jordan-Wigner embedding","operators/fermionic/transformations.py")])
prop("C12","Backend jobs and batching deliver each circuit its own result",
"A job reports a consistent life cycle (results only after success, errors re-raised to the caller, no status change after a terminal status), and measurement results validate and present counts consistently under every view (bit strings, integers, decoded labels, sub-registers). Batched execution delivers to every queued circuit exactly the result the wrapped backend produced for that circuit with its shot count, in any chunking and submission order, and reports backend failures to exactly the affected requests.",
["schedules","histories","fault_sequences","configurations"],"all sequences of enqueueing and dispatch, chunk sizes, shot settings, failures of the wrapped backend",
"Tests use a couple of circuits and one chunk size; the guarantee ranges over all queue lengths, chunk limits and failure positions.",
["interface/job.py","interface/backend.py","interface/batched_backend.py","interface/measurement_result.py","interface/virtual_backend.py"],
[("chunked dispatch and result routing","interface/batched_backend.py"),("status machine","interface/job.py"),("result views","interface/measurement_result.py")])
prop("C13","Circuit import and export preserve circuit semantics",
"Converting a circuit to another supported framework or to a textual circuit format and, where supported, back again preserves the unitary up to global phase, the qubit order, the measurement-to-bit assignment and parameters. Unsupported constructs are rejected rather than dropped.",
["programs"],"all circuits over the gate library with parameters, controls, composite gates and measurements",
"Tests convert a few fixed circuits; conversion is per-gate case analysis over the full library with parameter conventions and bit order.",
["interface/converter"],
[("gate-by-gate conversion","interface/converter")])
prop("C14","Compilation preserves program behaviour",
"Compiling a session (with memory recycling, parallelisation, ancilla insertion, multi-control resynthesis, gate-speed or light-cone options) preserves the joint measurement statistics of all live variables for every program. A deleted variable's qubits are reused only when they are back in the zero state.",
["programs","configurations"],"all programs, all compile options",
"Tests compile particular programs and look at the result of one variable; reuse and reordering decisions depend on the whole program graph.",
["core/compilation.py","permeability/qc_transformations","core/quantum_session.py"],
[("allocation reordering","permeability/qc_transformations/memory_management.py"),("topological linearisation","permeability/permeability_dag.py"),("main compile pipeline","core/compilation.py")])
prop("C15","Quantum environments denote control, inversion and conjugation",
"Code placed in a control, condition, inversion, conjugation, iteration or gate-wrapping block has exactly the effect of the controlled, conditional, inverted, conjugated, repeated or wrapped operation of that code, for all nestings of these blocks and all control patterns. Leaving a block restores the surrounding program and releases temporary qubits.",
["programs"],"all programs and all nestings of environments",
"Tests use specific nestings of depth one or two; composition of environments is unbounded and mistakes are phase-like or appear only for particular control patterns.",
["environments","alg_primitives/program_control"],
[("control environment compile","environments/control_environment.py"),("conjugation","environments/conjugation_environment.py"),("inversion","environments/quantum_inversion.py")])
prop("C16","Uncomputation restores temporaries without touching other state",
"Uncomputing a variable (explicitly, automatically at function return, or through recomputation) returns its qubits to zero and disentangles them while leaving the joint state of all other variables unchanged; where this is impossible it is reported instead of corrupting state. Operations are only classified as value-preserving on a qubit, or as mapping basis states to basis states, when their matrices have that structure.",
["programs"],"all programs with temporaries, all gates whose structure is classified",
"Tests uncompute particular expressions; correctness quantifies over all programs and over gate classification for all matrices.",
["permeability","core/quantum_session.py"],
[("dependency-graph uncomputation","permeability/qc_transformations/unqomp.py"),("structure classification","permeability/type_checker.py"),("auto-uncompute decorator","permeability/uncomputation.py")])
prop("C17","Traced execution agrees with direct execution",
"A program evaluated through dynamic tracing (simulation, sampling, expectation values, circuit extraction, classical lowering of reversible programs, resource counting) produces the same outcome as direct execution of the same program, for all classical arguments. Dynamic loops, branches, registers slices and subroutine calls have their ordinary meaning.",
["programs","inputs"],"all traceable programs and all classical arguments",
"Tests trace specific programs with specific arguments; equivalence of two execution routes is a statement over programs.",
["jasp"],
[("program capture","jasp/tracing_logic"),("interpreters of captured programs","jasp/evaluation_tools"),("quantum primitives","jasp/primitives")])
prop("C18","Truth tables and logic synthesis agree with the Boolean function",
"Synthesising a truth table, Boolean expression, lookup dictionary or phase polynomial yields a circuit that maps every basis input to the function value on clean output qubits without relative phase (unless a phase-tolerant method is explicitly requested) and leaves the input unchanged. Synthesising a phase function multiplies every basis state by exactly the given phase, also when controlled.",
["inputs","configurations"],"all Boolean functions of any number of inputs and outputs, all synthesis methods",
"Tests try a few random small functions; the input space is doubly exponential.",
["alg_primitives/logic_synthesis","core/quantum_dictionary.py"],
[("gray-code traversal","alg_primitives/logic_synthesis/gray_synthesis.py"),("truth table container","alg_primitives/logic_synthesis/truth_tables.py")])
prop("C19","Hamiltonian simulation and observable measurement match the operator",
"Time evolution of a qubit operator is exact for commuting sums and converges at the documented order otherwise, for all times, including global phase-sensitive use under control. Basis-change plus diagonal read-out of an operator reproduces its expectation value exactly on every state.",
["inputs","programs"],"all operators, times, step numbers, states",
"Tests compare a few Hamiltonians at a few times; term grouping and basis-change sign bookkeeping are per-term symbolic facts.",
["operators/qubit/qubit_operator.py","operators/qubit/qubit_term.py","operators/qubit/measurement.py","operators/qubit/jasp_measurement.py"],
[("single-term evolution","operators/qubit/qubit_term.py"),("change of basis and diagonal evaluation","operators/qubit/qubit_operator.py")])
prop("C20","Quantum multiplication, division and polynomial evaluation are exact",
"Out-of-place arithmetic on quantum numbers (sum, difference, negation, product, squaring, integer division and remainder, inverse, shifts, polynomial evaluation, bitwise logic and matrix products) returns a result whose value is the ordinary result in the result's number format for all operand values. Operands keep their values and no workspace remains entangled.",
["inputs","configurations"],"all operand formats and operand values",
"Tests use a few widths; result format inference, sign extension and exponent alignment depend on all format parameters.",
["alg_primitives/arithmetic","qtypes/quantum_float.py"],
[("semi-boolean polynomial evaluation","alg_primitives/arithmetic/SBP_arithmetic.py"),("ripple multiplication","alg_primitives/arithmetic/ripple_mult.py"),("division","alg_primitives/arithmetic/ripple_division.py")])
prop("C21","Circuit containers keep structure and report true metrics",
"Appending, copying, extending, inverting, composing, binding parameters and clearing circuits yield exactly the sequence of operations with the corresponding qubits and classical bits, never alias or mutate their inputs, and reject ill-formed appends. Reported metrics (gate counts, two-qubit counts, depth, T-depth, qubit counts) equal their definition on the flattened operation sequence.",
["programs","histories"],"all circuits and all sequences of container operations",
"Tests check a few circuits; the guarantee is about any length of circuit and any sequence of container operations.",
["circuit/quantum_circuit.py","circuit/instruction.py","circuit/operation.py"],
[("append / extend / inverse / bind","circuit/quantum_circuit.py"),("depth computation","circuit/quantum_circuit.py")])
prop("C22","Quantum arrays and dictionaries behave like their classical models",
"Indexing, slicing, reshaping, transposing, assigning, encoding, elementwise operations, iterating and quantum-indexed access of quantum arrays, and lookups in quantum dictionaries, follow the corresponding classical array and mapping semantics for all shapes and contents. Views alias the same qubits and distinct entries never share qubits.",
["inputs","programs"],"all shapes, index expressions, contents",
"Tests use a few small shapes; the semantics quantify over shapes, index tuples and contents.",
["core/quantum_array.py","core/quantum_dictionary.py","qtypes/quantum_string.py"],
[("index handling","core/quantum_array.py"),("dictionary load","core/quantum_dictionary.py")])
prop("C23","State preparation and Fourier-type primitives realise the stated transform",
"Preparing a given amplitude vector, uniform, Dicke or W-type state, the quantum Fourier transform with all its options, quantum-index switching, reflection, amplitude amplification and phase estimation realise exactly the documented unitary or state for every size and parameter. Inverse and controlled use are the exact inverse and controlled versions.",
["inputs","configurations"],"all sizes, amplitude vectors, options",
"Tests use a few sizes and fixed random vectors; the identities are over all amplitudes and all register widths.",
["alg_primitives"],
[("amplitude preparation","alg_primitives/state_preparation"),("Fourier transform","alg_primitives/qft.py"),("quantum switch","alg_primitives/program_control")])
prop("C24","Block encodings represent the stated matrix under all transformations",
"A block encoding built from an operator or matrix, and every combination of block encodings (sum, difference, product, scalar multiple, Kronecker product, negation, polynomial, inversion, Hermitian dilation), encodes exactly the corresponding matrix up to its reported normalisation. Success on the reported flag outcomes yields the encoded matrix applied to the input state.",
["inputs","programs"],"all operators, all combinations, all states",
"Tests for the arithmetic on block encodings are sparse and use single matrices; normalisation bookkeeping composes across arbitrary expression trees.",
["block_encodings","alg_primitives/lcu.py"],
[("algebra of encodings","block_encodings/block_encoding.py"),("linear combination of unitaries","alg_primitives/lcu.py")])
prop("C25","Division and number theory on multi-limb integers are exact",
"Floor division and modulo of the traceable multi-limb unsigned integers return the true quotient and the true remainder smaller than the divisor, for every number of limbs and every pair of operands with non-zero divisor, in compiled and uncompiled use. The modular inverse, extended greatest common divisor, Montgomery conversion and continued-fraction expansion built on them satisfy their defining equations.",
["inputs","configurations"],"all limb counts, all dividends, all non-zero divisors",
"Long division guesses quotient digits and corrects the guess; the correction branches are reached only for limb patterns of probability about 2^-32 that hand-picked or random test numbers miss.",
["alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py"],
[("long division with quotient digit estimation","alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py"),("extended gcd, inverse and continued fractions","alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py")])
ids=set()
with open("/verif/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        assert p["id"] not in ids; ids.add(p["id"])
        for x in p["anchors"]["files"]:
            import os
            if not os.path.exists("/repo/"+x): print("missing",p["id"],x)
        for x in p["anchors"]["mechanism"]:
            if not os.path.exists("/repo/"+x["where"]): print("missing",p["id"],x)
        f.write(json.dumps(p)+"\n")
print(len(P))
