#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so that the statements stay readable)"""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["fixif/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Exact matrix sum, difference and product lose no bit",
     "The exact sum, difference and product of real matrices, given as double-precision or multiple-precision matrices, "
     "are exactly the mathematical results, for every size (also rectangular), every magnitude of the entries and every "
     "working precision in force. Operands of incompatible sizes, complex operands and unsupported types are refused with a ValueError; "
     "the operands and the working precision are left untouched.",
     ["inputs", "configurations"], "all shapes, all entry magnitudes (cancellation, exponents far apart, subnormals), all working precisions, all mixes of operand kinds",
     "The tests add zero and multiply by the identity at the default precision; a rounding anywhere in the accumulation, or a swapped dimension, only shows for wide exponent ranges, other precisions or rectangular operands.",
     ["func_aux/mpf_matrix_fadd.py", "func_aux/mpf_matrix_fsub.py", "func_aux/mpf_matrix_fmul.py", "func_aux/MPFMatrix.py", "func_aux/python2mpf_matrix.py"],
     [("exact mpmath operations", "func_aux/mpf_matrix_f*.py and MPFMatrix.*_exact"), ("exact import of doubles", "func_aux/python2mpf_matrix.py")],
     observe=["mpf_matrix_fadd/fsub/fmul", "MPFMatrix.add_exact/sub_exact/mul_exact"])
prop("C02", "The exact inverse of a unit lower-triangular matrix is exact",
     "For every lower-triangular matrix with ones on its diagonal, the exact inverse X satisfies L.X = X.L = I with no error at all, "
     "whatever the working precision. Matrices that are not square, not lower triangular or without ones on the diagonal are refused with a ValueError.",
     ["inputs", "configurations"], "all sizes and all real entries, all working precisions, any single entry breaking the precondition",
     "The one test checks a 5x5 random matrix up to the default tolerance; an inexact substitution step or a missed precondition is invisible there.",
     ["func_aux/mpf_matrix_lt_inverse.py", "func_aux/MPFMatrix.py"], [("exact forward substitution", "my_forward_subst")],
     observe=["mpf_matrix_lt_inverse", "MPFMatrix.inv_lowtr"])
prop("C03", "Conversions between number formats are exact, rounded only when narrowing",
     "Converting real scalars and matrices between double precision, multiple precision, integer mantissa/exponent pairs, Sollya objects and hexadecimal text "
     "preserves every value exactly, element by element and position by position, whatever the working precision; narrowing a multiple-precision value to double is a correct rounding to nearest. "
     "Infinities and NaN have no integer representation and are refused with a ValueError.",
     ["inputs", "configurations"], "all finite doubles and multiple-precision values, all shapes, all working precisions",
     "The tests (which cannot even be collected here) convert one random 5x5 matrix; signs, zeros, subnormals, long mantissas and rectangular layouts are not sampled.",
     ["func_aux/python2mpf_matrix.py", "func_aux/mpf_to_numpy.py", "func_aux/mpf_get_representation.py", "func_aux/mpf_matrix_get_representation.py",
      "func_aux/mpf_matrix_to_sollya.py", "func_aux/sollya_matrix_to_numpy.py", "func_aux/write_matrix_hex.py", "func_aux/mpc_get_real.py", "func_aux/MPFMatrix.py"],
     [("mpf internals", "mpf_get_representation"), ("row-major flattening", "mpf_matrix_to_sollya, sollya_matrix_to_numpy")],
     observe=["the conversion functions and the MPFMatrix methods of the same name"])
prop("C04", "Multiple-precision matrix objects are faithful, independent values",
     "A multiple-precision matrix built from an array or another matrix holds exactly its entries and is unaffected by later changes of its source; its operators +, -, * give, entry by entry, the mathematical result within the rounding of the working precision for any supported operand kind, and never modify their operands. "
     "Equality holds exactly when all the entries are equal, approximate equality is symmetric in effect and detects any single differing entry, and mismatching shapes or unsupported operands are refused with a ValueError.",
     ["inputs", "histories"], "all shapes and entries, all operand kinds, any sequence of operations on shared operands",
     "The 8 stable tests use 5x5 zeros, identities and one random matrix; aliasing, rectangular operands and single-entry differences are never exercised.",
     ["func_aux/MPFMatrix.py"], [("copies in the constructor", "MPFMatrix.__init__"), ("element-wise comparison", "MPFMatrix.equal / almost_close")],
     observe=["MPFMatrix operators and comparisons"])
prop("C05", "Polynomial products in multiple precision give the right coefficients",
     "The product of two multiple-precision polynomials, real or complex, of any degrees has the mathematical coefficients within the working precision, and the product of the factors (z + p_i) of a list of real or complex numbers (optionally omitting one of them) is the corresponding polynomial, leading coefficient first.",
     ["inputs", "configurations"], "all degrees including 0 and unequal ones, real and complex coefficients, any omitted index, all working precisions",
     "The existing test uses one pair of polynomials; unequal degrees, single roots and omitted indices are not covered.",
     ["func_aux/mpf_poly_mult.py", "func_aux/mp_poly_product.py"], [("convolution", "mpf_poly_mult"), ("iterated product", "mp_poly_product")],
     observe=["mpf_poly_mult", "mp_poly_product"])
prop("C06", "State-space algebra realizes the operation on the systems",
     "The sum, the difference and the product (series connection) of two state-space systems, the selection of some of their inputs and outputs, their simplification and any change of basis of their states have, at every time sample, exactly the impulse response that the operation on the input/output systems defines. "
     "Inconsistent sizes are refused with a ValueError and the operands are never modified.",
     ["inputs", "histories"], "all MIMO sizes (also 1 state, 0 feedthrough), all real matrices, all subsets of inputs/outputs, any chain of operations",
     "The tests compare a few random systems with the same formulas; non-square series connections, selections and their composition are not covered.",
     ["LTI/dSS.py"], [("block matrices", "dSS.__add__/__sub__/__mul__/__getitem__"), ("change of basis", "dSS.similarity")],
     observe=["dSS operators", "dSS.__getitem__", "dSS.similarity"])
prop("C07", "Gramians, norms and worst-case gain describe the current system",
     "The controllability and observability Gramians of a stable system solve their Lyapunov equations, the H2 norm, DC gain and worst-case peak gain equal the values defined by the impulse response of the system, and all of them keep describing the current state-space matrices after any history of queries and transformations of the same object. "
     "Where they do not exist (Gramians, H2 norm and worst-case gain with a pole on the unit circle, DC gain with a pole at 1) the query is refused with an error.",
     ["inputs", "histories"], "all stable systems (SISO and MIMO, poles up to the unit circle), unstable systems, any interleaving of queries and transformations",
     "The values are cached the first time they are asked; the tests ask each one once on fresh objects.",
     ["LTI/dSS.py"], [("lazy caches", "dSS.Wo/Wc and dSS.H2norm"), ("invalidation", "dSS.similarity")],
     state=[("_Wo,_Wc", "cached Gramians", "dSS")], observe=["dSS.Wo, Wc, H2norm, DC_gain, WCPG"])
prop("C08", "Transfer-function algebra is the algebra of rational fractions in 1/z",
     "Sums, differences and products of transfer functions of any orders are the exact operation on the rational functions (within double-precision rounding of the coefficients), coefficients being those of increasing powers of 1/z with a denominator normalised to lead with 1. "
     "Unsupported operands and a null leading denominator coefficient are refused with a ValueError, and operands are never modified.",
     ["inputs"], "all numerator and denominator lengths (also unequal), all real coefficients, scalar operands, any chain of operations",
     "The tests compare a handful of random transfer functions of equal length.",
     ["LTI/dTF.py"], [("polynomial arithmetic aligned on z^0", "dTF.__add__/__sub__/__mul__"), ("normalisation", "dTF.__init__")],
     observe=["dTF operators", "dTF.num, dTF.den"])
prop("C09", "Transfer function, state-space and filter views describe one system",
     "Converting a SISO system from transfer function to any canonical state-space form, back, and through the filter object, whose views are computed on demand and in any order, always yields the same impulse response; size, order, stability and SISO/MIMO predicates agree across all the views, and the polynomials given to Sollya have the same coefficients.",
     ["inputs", "histories"], "all orders, all real coefficients with a proper fraction, every form, every order in which the views are asked",
     "The tests convert a few random filters through one path and compare with tolerance.",
     ["LTI/dTF.py", "LTI/dSS.py", "LTI/Filter.py"], [("conversions", "dTF.to_dSS, dSS.to_dTF"), ("lazy views", "Filter.dSS, Filter.dTF")],
     observe=["Filter.dSS/dTF", "dTF.to_dSS", "dSS.to_dTF", "isStable, isSISO, order"])
prop("C10", "Multiple-precision systems are exact",
     "Sums, differences and the exact simulation of multiple-precision systems are exact for any double or multiple-precision coefficients and any initial state, rounded simulations round as documented, and conversions to transfer functions or double precision have the requested accuracy. "
     "Neither success nor failure of any of these operations changes the working precision of the caller.",
     ["inputs", "configurations", "histories"], "all sizes, all exponents of the coefficients, all input sequences and initial states, all working precisions, failing conversions included",
     "The tests use a few random systems at one precision and compare up to tolerance, so one rounded step or a leaked precision goes unnoticed.",
     ["LTI/dSSmp.py", "LTI/dTFmp.py"], [("exact matrix kernels", "func_aux/mpf_matrix_f*"), ("precision contexts", "dSSmp.to_dTFmp")],
     observe=["dSSmp operators, simulate, to_dTFmp, to_dSS", "dTFmp.to_dSSmp"])
prop("C11", "Every realization implements the transfer function of its filter",
     "Each structure (direct forms, state-space forms, rho direct form, lattice structures), with every combination of its options, builds a realization whose impulse response is that of the given filter; the structures propose themselves exactly for the filters they accept.",
     ["inputs", "configurations"], "all accepted filters (orders, numerators shorter than denominators, MIMO where accepted) x all structures x all option values",
     "The tests sample random filters of a few orders through the default enumeration and compare with a loose tolerance.",
     ["Structures/Structure.py", "Structures/DirectForms/DFI.py", "Structures/DirectForms/DFII.py", "Structures/State_Space/State_Space.py", "Structures/rhoDFIIt/rhoDFIIt.py", "Structures/LGS_LCW/LGS_LCW.py"],
     [("factory functions", "make*/accept*"), ("enumeration", "Filter.iterAllRealizations, iterStructuresAndOptions")],
     observe=["Realization.dSS, Realization.simulate"])
prop("C12", "All the views of an implicit realization agree with its coefficients",
     "After any sequence of changes of its coefficient matrices (one by one or all at once), an implicit-form realization reads back exactly the matrices last written, and its equivalent state-space (double and exact), transfer function, simulation and derived input/error systems are those of the current matrices. "
     "Inconsistent sizes are refused with a ValueError; an object never changes because another object or the matrices it was built from change.",
     ["histories", "inputs"], "all sizes (also without intermediate variables), all real coefficients with J unit lower triangular, any interleaving of writes and reads",
     "The derived systems are cached; tests construct, read once and never write.",
     ["SIF/SIF.py"], [("single storage of Z", "SIF._Z and the J..S properties"), ("rebuild after a write", "SIF._build_fromZ")],
     state=[("_Z", "all the coefficients", "SIF"), ("_Hu,_Hepsilon,_Hzeta,_dSS", "derived systems", "SIF")],
     observe=["SIF setters and getters", "SIF.dSS, to_dSSexact, simulate, Hu, Hepsilon, Hzeta"])
prop("C13", "Derived variable, error and quantization-error systems are the right ones",
     "The systems from the inputs to all the internal variables, and from an error injected in each computed variable to the outputs, have the impulse responses obtained by evaluating the implicit equations step by step with such inputs or errors. "
     "The difference system between a realization and its quantized version outputs exactly the difference of their outputs plus the effect of the computation errors.",
     ["inputs"], "all sizes, all stable or unstable coefficient sets, each variable in turn",
     "No test checks these systems; they decide all the word-lengths.",
     ["SIF/SIF.py", "SIF/SIF_tilde_error.py"], [("block construction", "SIF.Hzeta, Hu, Hepsilon, computeDeltaSIF, SIFH_to_SIFHstar")],
     observe=["SIF.Hzeta, Hu, Hepsilon, computeDeltaSIF", "SIFH_to_SIFHstar"])
prop("C14", "The generated C code computes the realization and is memory-safe",
     "The C function generated for a realization, compiled and run over any input sequence, returns at each step the outputs of the realization (within the rounding of double-precision sums) and updates the state array accordingly, for any number of inputs, outputs, states and intermediate variables. "
     "It never reads or writes outside the arrays passed to it nor uses uninitialised values, and running the code from Python always runs that of the current coefficients of that very realization.",
     ["inputs", "histories"], "all sizes and sparsity patterns of the coefficients, all input sequences, several realizations and changes of coefficients in one process",
     "The existing test compares SISO realizations only, with one compiled library per process shared by mistake between them, and no sanitizer.",
     ["SIF/Realization_implementation.py", "SIF/templates/implementCdouble_template.c", "SoP/SoP.py"],
     [("code generation", "R_implementation.implementCdouble"), ("in-place state update when possible", "isPlt"), ("loading", "makeCdouble/runCdouble")],
     observe=["implementCdouble (compiled with ASan/UBSan)", "runCdouble"])
prop("C15", "Generated algorithms, executed line by line, are the realization",
     "Interpreting the generated textual or LaTeX algorithm line by line, each right-hand side with the values assigned so far, reproduces the realization: same outputs and same next states, with exact coefficients by default and with coefficients rounded to the requested format otherwise, with or without time labels, surnames and comments. "
     "The comments announce the kind of the variables of the lines that follow them. Combinations that cannot be expressed are refused with a ValueError.",
     ["inputs", "configurations"], "all realizations x all display options",
     "The existing test compares 15 fixed texts of one second-order filter.",
     ["SIF/Realization_algorithms.py", "SoP/SoP.py", "SoP/VarName.py"], [("sum-of-products text", "SoP.toAlgoStr"), ("naming", "VarName.toStr"), ("core", "R_algorithm._algorithmCore")],
     observe=["Realization.algorithmTxt", "Realization.algorithmLaTeX"])
prop("C16", "Variable names and sums of products are unambiguous and faithful",
     "Two different variables, or the same variable at two different instants, never get the same displayed name, and a displayed sum of products contains exactly the non-null products, each with its own coefficient (exactly, by default) and its own variable. "
     "A fixed-point sum of products gives each product a format that holds exactly every product of its operands (that of the two most negative values apart), and inconsistent lists are refused with a ValueError.",
     ["inputs"], "all numbers of variables, all surnames/indexes/shifts, all coefficient lists",
     "No test covers the naming; the sum of products is only tested through a few fixed texts.",
     ["SoP/VarName.py", "SoP/SoP.py", "SoP/FxPSoP.py"], [("name composition", "VarName.toStr, generateNames"), ("text", "SoP.toAlgoStr"), ("formats", "FxPSoP")],
     observe=["VarName.toStr", "generateNames", "SoP.toAlgoStr", "FxPSoP"])
prop("C17", "Computed MSBs and word-lengths meet their guarantees and are minimal",
     "For inputs within their bounds no variable ever exceeds the range given by its computed most significant bit, and a smaller one would be exceeded by some admissible input. "
     "The word-lengths computed for an error constraint satisfy the constraint on every output, the uniform one is the smallest that does, the different ones are the smallest that share the error equally between the variables, and the optimisation data written to file are those of the problem, whose model admits the word-lengths that meet the constraints and no other.",
     ["inputs"], "all stable realizations, all positive input bounds and error constraints, one or several outputs",
     "The functions are not run by any runnable test; overflow-freedom quantifies over all bounded inputs.",
     ["SIF/Realization_FxP.py"], [("worst-case peak gain of the input-to-variable system", "R_FxP.computeNaiveMSB"), ("threshold of the rounding margin", "R_FxP._w_tilde"), ("closed form", "R_FxP.optimalUniformWL, optimalWL")],
     observe=["computeNaiveMSB", "optimalUniformWL", "optimalWL and its AMPL file"])
prop("C18", "Coefficient quantization rounds each coefficient and nothing else",
     "Quantizing a realization on a given word-length gives a new realization whose every coefficient is the nearest representable value to the original one with the most significant bit of that coefficient, null coefficients and representable ones being unchanged, and all its derived views are those of the quantized coefficients. "
     "The original realization is left untouched and invalid word-lengths are refused with a ValueError.",
     ["inputs", "histories"], "all realizations, all word-lengths, any use of both objects afterwards",
     "There is no test of it (the one written calls a method that does not exist).",
     ["SIF/Realization.py"], [("element-wise rounding on a copy", "Realization.quantize")], observe=["Realization.quantize"])
prop("C19", "Sensitivities are the derivatives they are defined to be",
     "The transfer-function sensitivity of each coefficient is the L2 norm of the derivative of the transfer function with respect to that coefficient, and the pole sensitivity of each coefficient is the derivative of the poles (or of their moduli), for every realization; coefficients implemented exactly do not contribute to the measures.",
     ["inputs"], "all stable realizations with distinct poles, all sizes, every coefficient",
     "No test covers it.",
     ["SIF/SIF_sensibility.py"], [("product of error and variable systems", "_w_norm_prod"), ("eigenvalue derivatives", "deigdZ")],
     observe=["SIF.dTFsensitivity", "SIF.poleSensitivity"])
prop("C20", "A filter designed for a gabarit has the form and respects the template",
     "A gabarit reports its bands, type and gains as given, whatever the order of the description and the frequency scale, and the transfer functions designed from it stay inside the template over all the frequencies of its bands; a plot shows the zones of the bands and the response. "
     "Inconsistent descriptions are refused with a ValueError.",
     ["inputs"], "all low-pass, high-pass, band-pass and band-stop templates with feasible margins, all frequency scales, all design methods",
     "The tests draw random gabarits and only check that a design is returned.",
     ["LTI/Gabarit.py"], [("classification", "Gabarit.__init__/type"), ("design", "Gabarit.to_dTF")], observe=["Gabarit attributes", "Gabarit.to_dTF"])
prop("C21", "Random generators honour their contract and are reproducible",
     "Each random generator (systems, transfer functions, filters, gabarits) produces objects of the sizes, orders, kind and stability asked for, in the number asked, and the same seed, or the seed recalled in the name of a generated filter, always rebuilds the very same object.",
     ["inputs", "configurations"], "all generator parameters in their documented ranges, all seeds including 0, any number of intermediate draws",
     "The tests use these generators as sources, never check their contract.",
     ["LTI/dSS.py", "LTI/dTF.py", "LTI/dTFmp.py", "LTI/dSSmp.py", "LTI/Filter.py", "LTI/Butter.py", "LTI/Elliptic.py", "LTI/Gabarit.py"],
     [("seeding by name", "LTI/Filter.py random_Filter"), ("masks and rejection", "random_dSS")], observe=["random_* and iter_random_*"])
prop("C22", "An imported block diagram behaves as the diagram",
     "Importing a Simulink diagram made of input and output ports, sums, gains, unit delays and subsystems gives a realization whose outputs equal, for every input sequence, those of a direct simulation of the diagram, inputs and outputs being ordered by port number and named gains taking the values supplied. "
     "Unsupported blocks, delays longer than a sample, algebraic loops and files that are not diagrams are refused.",
     ["programs", "inputs"], "all diagrams built from the supported blocks (shared signals, repeated ports, nested subsystems, any order and numbering of the blocks)",
     "The one existing test prints one imported diagram.",
     ["Structures/Simulink/Simulink.py", "Structures/Simulink/diagram.py", "Structures/Simulink/sif.py", "Structures/Simulink/blocks.py"],
     [("equations of the blocks", "System.buildequations, summerge, expandeqgain"), ("flattening", "System.flattendesign"), ("triangularisation", "Sif.reorganize")],
     observe=["importSimulink"])
prop("C23", "Triviality, operation counts and displays of coefficients tell the truth",
     "A coefficient is declared exactly implementable when, and only when, it is null or a power of two (within the documented relative threshold), unless stated otherwise by the user, and the operation counts and the TikZ and LaTeX displays of the coefficient matrix show, position by position, the current coefficients with these classes and values.",
     ["inputs", "histories"], "all coefficient matrices, user-supplied exactness matrices, histories of writes",
     "No test covers it.",
     ["SIF/SIF.py"], [("threshold test", "isTrivial"), ("storage", "SIF.dZ"), ("display", "SIF.getTiKZSparseMatrix, getZtpmatrixLaTeX, nbOp")],
     observe=["SIF.dZ and dJ..dS", "SIF.nbOp", "SIF.getTiKZSparseMatrix", "SIF.getZtpmatrixLaTeX"])
prop("C24", "Comparisons and displays of systems tell the truth",
     "Asserting that two systems are close succeeds when they are the same system (in any state basis, with useless states, or with padded coefficients) or differ by less than the tolerance (in norm), and fails when a coefficient of the transfer functions, or one of the first four samples of the impulse response of the state-spaces, differs by more than it. "
     "The text of a transfer function, of a state-space, of a realization and of a multiple-precision matrix shows their current sizes and values, and the Bode diagram shows the magnitude and phase of the frequency response.",
     ["inputs", "configurations"], "all systems, all tolerances, differences at any position, just below or above the tolerance",
     "The tests use assert_close as their oracle but never check that it refuses anything; the texts and plots are never read.",
     ["LTI/dTF.py", "LTI/dSS.py", "SIF/SIF.py", "SIF/Realization.py", "func_aux/MPFMatrix.py"],
     [("norm of the differences", "dTF.assert_close, dSS.assert_close"), ("texts", "__str__ methods"), ("plot", "dTF.bode")],
     observe=["dTF.assert_close", "dSS.assert_close", "str() of dTF, dSS, SIF, Realization, MPFMatrix", "dTF.bode"])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
