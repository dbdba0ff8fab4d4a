#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because JSON lines are hard to edit by hand)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if state: a["state"] = [{"name": state, "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A SIF stays coherent under every history of assignments and reads",
 "After any sequence of assignments to the coefficient matrices of a SIF (J, K, L, M, N, P, Q, R, S, or Z as a whole) interleaved with reads of its derived quantities, everything read from it (the nine blocks, Z, invJ, AZ, BZ, CZ, DZ, the state-space, the input-to-variables system Hu, the roundoff-to-output system Hepsilon, Hzeta, the triviality matrix dZ and its blocks, the simulated output) equals what a SIF freshly built from the current coefficients gives. Assigning a dX block or dZ changes exactly those triviality markers and nothing else, until a coefficient is assigned again. Assigning to one object never changes another object nor the matrices the caller passed in.",
 ["histories", "inputs"], "all sequences of setter calls and reads, all dimensions l, n, p, q (including l=0), all coefficient values",
 "No test of the stable suite touches SIF; even the other tests only build a SIF once and read it, never assign, so no history with a stale cache or stale derived matrix is ever seen.",
 ["fixif/SIF/SIF.py"], "block getters/setters over _Z, _build_fromZ, _build_AZtoDZ, _build_M1M2N1N2, _build_dZ, lazily cached _Hu/_Hepsilon/_Hzeta",
 "Z, dZ, invJ, dSS, M1/M2/N1/N2 and the three lazily built systems", "public properties of SIF after each assignment")

prop("C02", "Every structure and option realizes exactly the filter it is given",
 "For every structure (Direct Form I, Direct Form II, state-space, rho Direct Form II, Li-Gevers-Sun, Li-Chu-Wu), every combination of its options and parameters, and every filter it accepts, the realization it builds has the same input/output behaviour (same impulse response from every input to every output) as the filter, and its J is lower triangular with a unit diagonal so that the computation can be executed in order.",
 ["inputs", "configurations"], "all filters (orders, numerators incl. leading zeros and non-monic denominators, MIMO state-spaces) x all structures x all options (nbSum, transposed, form, gamma, Delta, scaling, equiv_dSS)",
 "The structure tests need unavailable libraries and do not run; they would sample random float filters with a loose tolerance, never non-default gamma/Delta or degenerate orders.",
 ["fixif/Structures/DirectForms/DFI.py", "fixif/Structures/DirectForms/DFII.py", "fixif/Structures/State_Space/State_Space.py", "fixif/Structures/rhoDFIIt/rhoDFIIt.py", "fixif/Structures/LGS_LCW/LGS_LCW.py", "fixif/Structures/Structure.py"],
 "the factory functions building J..S from the transfer function or state-space", None, "Structure.makeRealization(...).JtoS / simulate")

prop("C03", "SIF-derived systems agree with the implicit-form computation",
 "For every SIF (J,..,S), running the implicit computation J.t(k+1)=M.x(k)+N.u(k), x(k+1)=K.t(k+1)+P.x(k)+Q.u(k), y(k)=L.t(k+1)+R.x(k)+S.u(k) from a zero state on any input gives exactly the output of simulate, of the state-space (AZ,BZ,CZ,DZ), of the exact state-space to_dSSexact and of the transfer function to_dTF. Hu gives (t(k+1), x(k+1), y(k)), Hzeta gives (t(k+1), x(k), y(k)), and computeDeltaSIF and Hepsilon give the output deviation caused by an additive error on each computed variable.",
 ["inputs", "histories"], "all SIFs (all l,n,p,q, non-unit J), all input sequences",
 "The tests compare one construction path with another on random floats with tolerance and never execute the implicit form itself.",
 ["fixif/SIF/SIF.py", "fixif/LTI/dSS.py", "fixif/LTI/dSSmp.py"], "closed-form elimination of t with inv(J) and the matrices derived from it", None,
 "simulate, dSS, Hu, Hzeta, Hepsilon, computeDeltaSIF, to_dSSexact, to_dTF")

prop("C04", "Generated C code computes the realization, in every history of runs",
 "For every realization (any number of intermediate variables, states, inputs and outputs), the generated and compiled C function, called sample after sample from a zero state, produces the outputs of the realization's own simulation. This holds for every object in a history where several realizations (including quantized copies and realizations whose coefficients were reassigned) are generated, compiled and run in the same process, in any interleaving, and a failed compilation is reported as an error rather than as outputs.",
 ["programs", "inputs", "histories"], "all realizations and dimensions, all inputs, all interleavings of several realizations in one process",
 "The only (non-running) test runs one SISO Direct Form in a fresh process.",
 ["fixif/SIF/Realization_implementation.py", "fixif/SIF/templates/implementCdouble_template.c", "fixif/SoP/SoP.py"],
 "C generation from Zcomp rows, in-place state update when P is upper triangular, permutations otherwise, ctypes loading", "the compiled function cached per object and the loaded shared library",
 "Realization.runCdouble, implementCdouble")

prop("C05", "The algorithm text executes to the realization's outputs",
 "For every realization and every combination of display options, executing the lines of the textual algorithm in order (with the time-indexed or static-array meaning of its variables) yields the realization's outputs for every input. The LaTeX version contains the same computations in the same order, and its declarations and state swaps are those this execution needs.",
 ["programs", "inputs", "configurations"], "all realizations, all (withTime, withSurname, coefFormat, comments) combinations, text and LaTeX",
 "The tests compare a few strings to frozen text; no test executes the text.",
 ["fixif/SIF/Realization_algorithms.py", "fixif/SoP/SoP.py", "fixif/SoP/VarName.py", "fixif/SIF/templates/algorithmLaTeX_template.tex"],
 "rows of Zcomp printed as sums of products with variable names; redundant lines removed when surnames coincide; in-place or double-buffered states", None, "algorithmTxt, algorithmLaTeX")

prop("C06", "Multiprecision matrix arithmetic is exact",
 "For all matrices of multiprecision floating-point numbers of compatible sizes, exact addition, subtraction, multiplication and inversion of a unit lower triangular matrix return exactly the mathematical result, whatever the current working precision, and so do the polynomial products and the plain operators when the working precision holds their intermediate results. Operands are never modified. Operands of incompatible sizes, complex matrices in the exact sums and products, and inverses of matrices that are not unit lower triangular are rejected with an error, non-finite entries have no (mantissa, exponent) representation, and conversions to and from numpy, and to (mantissa, exponent) representation, preserve every value exactly when the target can hold it.",
 ["inputs", "configurations"], "all matrix sizes (square or not, empty, 1x1), all dyadic values of any magnitude and mantissa size, all working precisions",
 "The stable tests check 8 hand-picked small cases, mostly square; exactness must hold for every magnitude spread and every working precision.",
 ["fixif/func_aux/MPFMatrix.py", "fixif/func_aux/mpf_matrix_fmul.py", "fixif/func_aux/mpf_matrix_fadd.py", "fixif/func_aux/mpf_matrix_fsub.py", "fixif/func_aux/mpf_matrix_lt_inverse.py", "fixif/func_aux/mpf_poly_mult.py", "fixif/func_aux/mp_poly_product.py", "fixif/func_aux/python2mpf_matrix.py", "fixif/func_aux/mpf_to_numpy.py", "fixif/func_aux/mpf_get_representation.py", "fixif/func_aux/mpf_matrix_get_representation.py"],
 "fmul/fadd/fsub with exact=True accumulated entry by entry, forward substitution for the inverse", None, "return values")

prop("C07", "State-space algebra composes behaviours",
 "For all state-spaces with compatible sizes, the product is the series connection (right operand first), the sum and difference are the parallel connections, indexing [i,j] is the subsystem from the selected inputs to the selected outputs, and simplify keeps the input/output behaviour: each result's impulse response is exactly the composition of the operands' impulse responses. Operands of incompatible sizes are rejected, operands are never modified, and the multiprecision versions give the exact result.",
 ["inputs", "histories"], "all pairs of state-spaces (all n, p, q, MIMO), all expression trees over them",
 "The tests sample random SISO/MIMO products with tolerance and do not check chained expressions, size errors, operand mutation or simplify.",
 ["fixif/LTI/dSS.py", "fixif/LTI/dSSmp.py"], "block matrix assembly in __mul__, __add__, __sub__, __getitem__, simplify", None, "A, B, C, D of the result")

prop("C08", "Transfer-function algebra is the algebra of rational functions of the delay",
 "For all transfer functions and scalars, negation, sum, difference and product (on either side) denote exactly the corresponding operation on rational functions in z^-1, whatever the orders of the operands and whichever coefficients are zero (including a leading zero of the numerator), and the constructor divides numerator and denominator by the leading denominator coefficient. Operands are never modified and a zero leading denominator coefficient is rejected.",
 ["inputs", "histories"], "all numerators/denominators of all lengths incl. zeros at either end, all scalars, all expression trees",
 "The tests use random dense coefficients where no leading coefficient is ever zero.",
 ["fixif/LTI/dTF.py"], "polynomial products and sums aligned on powers of z^-1", None, "num, den")

prop("C09", "Conversions between representations preserve the filter",
 "Every conversion between transfer function and state-space, in double or multiprecision (to_dSS 'ctrl' and 'obs', to_dTF, to_dSSmp, to_dTFmp, Filter.dSS, Filter.dTF), yields an object with exactly the same impulse response, including when the leading denominator coefficient is not one; chains of conversions do too. Constructing or converting never modifies the caller's matrices, and a MIMO system is rejected where only a transfer function would do.",
 ["inputs", "histories"], "all SISO filters of all orders (including 1 and non-monic), all chains of conversions",
 "The tests round-trip a few random filters with monic denominators and a loose tolerance.",
 ["fixif/LTI/dTF.py", "fixif/LTI/dSS.py", "fixif/LTI/dTFmp.py", "fixif/LTI/dSSmp.py", "fixif/LTI/Filter.py"], "canonical forms, partial fraction reconstruction, normalisation by the leading denominator coefficient", None, "num, den, A, B, C, D")

prop("C10", "State-space analysis values are right and stay right under similarity",
 "For every stable state-space, at every point of any history of reads and similarity transforms, the observability Gramian satisfies Wo = A'WoA + C'C and the controllability Gramian Wc = AWcA' + BB' for the current A, B, C, the H2 norm is the energy of the impulse response and the DC gain is the sum of the impulse response; when a pole on the unit circle makes them undefined (the DC gain: a pole at 1), a ValueError is raised. A similarity transform never changes the input/output behaviour, and the worst-case peak gain is requested from the WCPG library for the current system.",
 ["inputs", "histories"], "all stable state-spaces, all interleavings of reads (which cache) and similarity transforms",
 "The tests compute each value once on a fresh object; no history reads, transforms and reads again.",
 ["fixif/LTI/dSS.py", "fixif/LTI/dTF.py"], "lazily cached _Wo, _Wc, _H2norm, _DC_gain, _WCPG; similarity rewriting A, B, C", "the cached analysis values", "Wo, Wc, H2norm, calc_DC_gain, WCPG, similarity")

prop("C11", "Multiprecision simulation is exact from any initial state",
 "For every multiprecision state-space, input sequence and initial state, simulate returns exactly the output of x(k+1)=Ax(k)+Bu(k), y(k)=Cx(k)+Du(k) started from that state; with exact=False the state is rounded once per step to the documented precision and evolves step after step. Neither the system, the input nor the initial state is modified, and wrongly sized inputs or initial states are rejected.",
 ["inputs", "histories"], "all systems, inputs, lengths, initial states in both accepted matrix formats, all working precisions",
 "The tests only compare the exact mode from a zero state with a double simulation, within a tolerance.",
 ["fixif/LTI/dSSmp.py"], "time loop over exact matrix products", None, "dSSmp.simulate")

prop("C12", "The multiprecision working precision is never left changed",
 "Whatever function of the library is called, with valid or invalid arguments, and whether it returns or raises, the global multiprecision working precision after the call is the one before it.",
 ["inputs", "fault_sequences", "histories"], "all public multiprecision functions, all argument validity cases, all initial precisions, all call sequences",
 "No test looks at the global precision, and none calls a conversion that fails half-way.",
 ["fixif/LTI/dSSmp.py", "fixif/LTI/dTFmp.py", "fixif/func_aux/mpf_to_numpy.py", "fixif/func_aux/python2mpf_matrix.py", "fixif/func_aux/MPFMatrix.py", "fixif/SIF/Realization_FxP.py"], "functions that set the global precision around a computation", "the mpmath context's precision", "mpmath.mp.prec")

prop("C13", "Random filters are reproducible from their seed or name",
 "Every random filter, Butterworth filter, elliptic filter and gabarit generated with a seed (including seed 0) is a function of its parameters and seed only: generating it again with the same arguments, or from the name it carries, gives the same filter whatever was generated or drawn before. The generators yield the requested number of filters, with orders and sizes in the requested ranges and of the requested type, and also work when no seed is asked for.",
 ["histories", "configurations"], "all histories of generator calls and raw draws, all parameter ranges, all seeds",
 "The tests regenerate a filter immediately after making it for a few seeds; order of generation, seed 0 and unseeded iteration are not explored.",
 ["fixif/LTI/Filter.py", "fixif/LTI/Butter.py", "fixif/LTI/Elliptic.py", "fixif/LTI/Gabarit.py", "fixif/LTI/dSS.py", "fixif/LTI/dTF.py"], "seeding of the global numpy generator, seed stored in the name and parsed back with a regular expression", "the global random generator", "name, num/den or A..D of the generated filters")

prop("C14", "Enumeration yields each accepted structure and option combination once",
 "For every filter, iterating over all realizations (and over all structures and options) yields exactly one realization for each registered structure and each combination of its option values that accepts the filter, built with those options and for that filter, and none for combinations that do not accept it. A structure is found by its short name and by no other, and the acceptance rules (SISO, stability) are those of the structure.",
 ["configurations", "inputs"], "all filters (SISO/MIMO, stable or not), all registered structures and option products, including newly registered structures",
 "The tests iterate but never count or compare with the registered option product.",
 ["fixif/Structures/Structure.py", "fixif/LTI/Filter.py", "fixif/Structures/__init__.py"], "registry dictionary, cartesian product of the option values, acceptance predicates", "the registry of structures", "iterAllRealizations, iterStructuresAndOptions, getFromName, makeARealization")

prop("C15", "An imported Simulink diagram keeps the diagram's behaviour",
 "For every Simulink diagram made of inports, outports, gains (numbers or named constants, possibly chained), sums (any sign pattern), delays of any length and nested subsystems, in any connection without algebraic loop and whatever the order of the blocks and lines in the file, the imported realization has as many inputs and outputs as the diagram, ordered by port number, and computes for every input sequence exactly the outputs of the diagram. Parallel paths between two blocks add up. An algebraic loop, an unsupported block, or a file that holds no diagram is refused instead of giving a realization.",
 ["programs", "inputs"], "all diagrams over the supported block kinds, all connection patterns, all inputs",
 "The tests import a few sample files and compare with a reference filter for those only (and do not run here).",
 ["fixif/Structures/Simulink/Simulink.py", "fixif/Structures/Simulink/diagram.py", "fixif/Structures/Simulink/blocks.py", "fixif/Structures/Simulink/sif.py"], "reading the slx archive, flattening subsystems, merging sums and gains into equations, building J..S from the equations", None, "Simulink.importSimulink / the resulting SIF")

prop("C16", "A gabarit denotes its bands",
 "For every set of bands given in any order, a gabarit keeps them in increasing frequency order and reports exactly their frequencies, normalised frequencies and gains (pass gains sorted), recognises lowpass, highpass, bandpass and bandstop shapes and only those (anything else is multiband), and refuses lists of different lengths. Subtracting a gain from a band shifts every gain by exactly that amount (also gains equal to 0), and a design margin narrows every band by exactly that amount. A filter designed from the gabarit satisfies every band narrowed by the margin; what cannot be designed (multiband, different gains for the two stop or the two pass bands) raises ValueError; the gabarit is not modified by any of this.",
 ["inputs", "configurations"], "all band lists, in any order, with gains as value or interval, with and without sampling frequency",
 "The tests need Sollya and check designed filters for a few fixed gabarits only.",
 ["fixif/LTI/Gabarit.py"], "sorting and classification of bands, arithmetic on gains, parameters passed to the filter design functions", "the list of bands", "Gabarit.bands, type, to_dTF, Band operators")

prop("C17", "MSBs never overflow and are minimal",
 "For every realization and every bound on the inputs, each computed MSB m of an intermediate variable, state or output (that is not identically zero) satisfies |v(k)| <= 2^m for every admissible input sequence, and 2^(m-1) would be exceeded by some admissible input sequence.",
 ["inputs", "programs"], "all realizations, all input bounds, all admissible input sequences of any length",
 "The (non-running) test samples one filter; overflow must be excluded for all input sequences.",
 ["fixif/SIF/Realization_FxP.py", "fixif/SIF/SIF.py", "fixif/LTI/dSS.py"], "ceil(log2(WCPG(Hzeta).u_bar))", None, "computeNaiveMSB")

prop("C18", "The uniform word-length is sufficient and minimal",
 "For every realization, input bound and error bound, the uniform word-length w returned guarantees that the worst-case output error due to rounding each variable to the nearest with lsb = msb-w+1 stays strictly below the bound for every output, and one bit less would not, with MSBs that account for the roundoff overflow threshold; the function returns for every valid input, including those with negative MSBs, worst cases equal to a power of 2, and bounds met with equality. For the multiple word-length problem, the data written for the optimizer (p, number of variables, u, E, eps, thresholds) are exactly those of the problem, and the word-lengths computed give each variable the smallest one within an equal share of the error budget.",
 ["inputs", "programs"], "all realizations, all input and error bounds",
 "No running test calls it.",
 ["fixif/SIF/Realization_FxP.py"], "E = WCPG(Hepsilon).2^msb, the thresholds w_tilde, and the guess-and-correct step", None, "optimalUniformWL, optimalWL")

prop("C19", "Quantization gives an independent coherent realization",
 "For every realization and word-length w, quantize(w) returns a realization whose non-zero coefficients are each the w-bit fixed-point rounding of the original ones and whose zeros stay zero, in which every derived quantity (state-space, Hu, Hepsilon, Hzeta, triviality markers, generated C code) is that of the quantized coefficients. The original realization is unchanged by the quantization and by any later change to the copy, and vice versa; a word-length that is not a strictly positive integer is rejected.",
 ["inputs", "histories"], "all realizations, all word-lengths, all histories of reads, quantizations and assignments on original and copies",
 "The tests do not quantize after derived values were read, nor modify the copy afterwards.",
 ["fixif/SIF/Realization.py", "fixif/SIF/SIF.py"], "shallow copy followed by assignment of Z", "the caches shared by the shallow copy", "Realization.quantize")

prop("C20", "Triviality markers, operation counts and layout describe the coefficients",
 "For every SIF, a triviality marker is 0 exactly when the coefficient is zero or plus or minus a power of two (within the documented relative tolerance) and 1 otherwise unless given explicitly; the reported number of multiplications is the number of non-trivial coefficients and the reported number of additions is, over all computed rows, the number of non-zero terms minus one, not counting the diagonal of J. The sparse-matrix renderings place each coefficient in the cell of its row and column with the class of its value, all rows having the same number of cells.",
 ["inputs"], "all coefficient values and dimensions",
 "No running test reads markers, counts or renderings.",
 ["fixif/SIF/SIF.py"], "isTrivial, _build_dZ, nbOp, getTiKZSparseMatrix, getZtpmatrixLaTeX, isPnut", None, "dZ, nbOp, renderings")

prop("C21", "Variable names denote the right variable at the right time",
 "For every variable name (base name, index, optional surname with its own index and time shift) and every combination of display options, the printed name contains the requested name or surname, its index, the suffix and, when time is displayed, the time (k) or (k+d) where d is the requested shift plus the surname's shift if the surname is displayed. A generated list of names has one name per variable, indexed from 1 (and unindexed when alone), distinct, with the given surnames attached in order, and a wrong number of surnames is rejected.",
 ["inputs", "configurations"], "all names, indices, surnames, shifts and option combinations, text and LaTeX",
 "Tests only compare whole algorithms for three filters.",
 ["fixif/SoP/VarName.py"], "name assembly", None, "VarName.toStr, generateNames")

prop("C22", "Inconsistent dimensions are always rejected",
 "A SIF, state-space (double or multiprecision) or transfer function is constructed if and only if the sizes of the given matrices are consistent, and its reported sizes are then those of the matrices; a simulation input with the wrong number of rows is rejected. Every inconsistency, in any single matrix and any direction, raises ValueError and never yields an object.",
 ["inputs"], "all size assignments of the nine (resp. four, two) matrices, including zero sizes",
 "Tests try a few wrong sizes; the consistent set is a thin subset of all size combinations.",
 ["fixif/SIF/SIF.py", "fixif/LTI/dSS.py", "fixif/LTI/dSSmp.py", "fixif/LTI/dTF.py", "fixif/LTI/dTFmp.py"], "dimension checks in constructors", None, "constructors")

prop("C23", "A sum of products prints exactly its non-zero terms",
 "For every list of constants and variable names, the printed assignment evaluates (reading coefficients back exactly in hexadecimal format) to the sum of constant times variable, lists each non-zero term exactly once in order and no zero term, is '0' when all constants are zero, and is empty exactly when the result would be assigned to itself unchanged. Lists of different lengths are rejected.",
 ["inputs", "configurations"], "all constants (incl. +-1, zeros, integers, tiny and huge values), all name lists, all assignment symbols and formats",
 "No running test covers the sum-of-products printer.",
 ["fixif/SoP/SoP.py"], "term filtering and formatting", None, "SoP.toAlgoStr, str(SoP)")

prop("C24", "Worst-case inputs are admissible and reach the worst case",
 "For every SIF with one output and every input bound, the generated input sequence of length N has one row per input, stays within the bounds, and drives the last output sample to the largest value any admissible sequence of that length can reach.",
 ["inputs", "histories"], "all systems and bounds, all lengths, all competing admissible sequences",
 "No test calls it.",
 ["fixif/SIF/SIF.py"], "sign of the time-reversed impulse response times the bound", None, "SIF.generate_inputs")

prop("C25", "Transfer-function and pole sensitivities match their definition",
 "For every stable SIF, the transfer-function sensitivity matrix entry (i,j) is the H2 norm of the derivative of the transfer function with respect to coefficient (i,j) of Z multiplied by the marker of that coefficient in dZ (by default 1 when it is not trivial and 0 when it is), and the measure is the sum of the squared entries; the pole sensitivities are the derivatives of each pole (or of its modulus) with respect to each coefficient. They always refer to the current coefficients, in any history of assignments.",
 ["inputs", "histories"], "all SIFs with distinct poles, all assignments",
 "No running test computes a sensitivity.",
 ["fixif/SIF/SIF_sensibility.py", "fixif/SIF/SIF.py"], "products of Hepsilon columns and Hu rows; left/right eigenvectors", None, "dTFsensitivity, poleSensitivity")

prop("C26", "The error system of a degraded realization is its exact difference",
 "For every SIF and word-length, SIFH_to_SIFHstar returns the SIF with degraded coefficients (rounded to the word-length, except -1, 0 and 1 which are kept) and an error SIF with inputs (u, et, ex, ey) and as many outputs as the SIF, which for every input and every additive perturbation of the variables of the degraded SIF gives exactly the output of the perturbed degraded SIF minus that of the original one; the original SIF is not modified.",
 ["inputs", "histories"], "all SIFs (all dimensions, including l = 0, any invertible J), word-lengths, inputs and perturbation sequences",
 "No test calls it.",
 ["fixif/SIF/SIF_tilde_error.py"], "block matrices of (t, t~ - t) and (x, x~ - x)", None, "SIFH_to_SIFHstar")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
