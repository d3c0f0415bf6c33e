"""The property list, from which properties.jsonl and MANIFEST.json are written (python3 tools/props.py).
Each entry: id, title, statement, over, text, why, files, mechanism[(name, where)], observe, technique, note."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                  why=' '.join(why.split()), files=files, mech=mech, observe=list(observe), state=list(state),
                  technique=technique, note=note))


F = 'xmps/fMPS.py'
I = 'xmps/iMPS.py'
EXP = 'Held on the generated executions only (counts in the evidence); trusts numpy/LAPACK and the dense oracle in vlib/dense.py. '

prop('C01', 'Network contraction equals the defining sum over shared indices',
     '''Contracting any network of tensors described by index labels (repeated positive labels summed, negative labels
     kept, traces and disconnected pieces included) gives exactly the tensor defined by the Einstein sum, with open legs
     in the default or the requested final order and independently of the requested contraction order, and changes none
     of the caller's tensors, label lists or order lists. With index checking on, a malformed network description is
     rejected with an error instead of yielding a number.''',
     ['inputs', 'configurations'],
     '''every network of up to six tensors of rank up to five, real or complex, with self-traces, multiple shared
     bonds, outer products, scalars, size-one legs, explicit summation orders and output orders''',
     '''the tests contract a handful of fixed networks; contraction order, trace handling and disconnected components
     are combinatorial choices of the caller''',
     ['xmps/ncon.py'],
     [('pairwise contraction in label order', 'xmps/ncon.py:ncon/contract_partial/tcontract'),
      ('trace removal', 'xmps/ncon.py:do_partial_traces'), ('input checks', 'xmps/ncon.py:check_indices')],
     'differential runtime monitor against a brute-force index-sum model',
     EXP)

prop('C02', 'Tensor reshaping and decomposition helpers are exact and reversible',
     '''Grouping and ungrouping tensor legs, splitting off and recombining physical legs, partial traces over left or
     right factors, block direct sums, unitary completions of isometries, embedding and de-embedding, the
     phase-fixed QR/RQ factorisations, and merging two neighbouring site tensors, gating them and separating them again
     (exactly, or into the best normalised pair within a limit) each satisfy their defining algebraic identity for every input shape, dtype and
     rank. None of them modifies its argument.''',
     ['inputs'],
     '''every tensor shape (including size-one legs and non-square matrices), real, complex and rank-deficient data''',
     '''tests fix one or two shapes; a wrong axis order is invisible whenever the two dimensions involved are equal''',
     ['xmps/tensor.py', 'xmps/peps_tools.py', 'xmps/spin.py'],
     [('leg grouping', 'xmps/peps_tools.py:group_legs/ungroup_legs'), ('helpers', 'xmps/tensor.py')],
     'runtime assertion of defining identities on generated tensors',
     EXP)

prop('C03', 'Finite chains and dense vectors convert into each other without loss',
     '''Building a finite matrix product state from any dense state vector, sweeping from either end, and recombining it
     returns the same vector up to normalisation and phase; recombination, norm and overlap of any chain equal the dense contraction with the
     documented conjugation; and every constructor of random, product or structured chains yields a well-formed chain
     of the requested length, local dimension and bond dimension.''',
     ['inputs', 'configurations'],
     '''all chain lengths from 2, local dimensions 2-4, normalised or not, real or complex, rank-deficient and highly
     entangled vectors; every bond pattern''',
     '''tests use a few random qubit states of moderate size; local dimension other than 2, odd lengths and degenerate
     states are not sampled''',
     [F], [('state splitting', F+':left_from_state/right_from_state'), ('dense form', F+':recombine'),
           ('overlap', F+':overlap/full_overlap/norm'), ('generators', F+':random/create_structure/from_product_state')],
     'differential runtime monitor against dense state vectors',
     EXP)

prop('C04', 'Canonicalisation preserves the state and establishes its canonical form',
     '''Bringing a finite chain into left, right or mixed canonical or orthogonal form at any site leaves the physical
     state unchanged up to normalisation and phase, produces tensors that are isometries on the stated sides of the
     centre, and records that centre. The full canonical forms also store, for every bond, the squared Schmidt
     coefficients of the state with the environments diagonal, whatever form the chain had before and however
     rank-deficient or degenerate it is.''',
     ['inputs', 'histories'],
     '''every chain shape, including GHZ-like, dimerised (degenerate spectra), zero-padded and over-complete chains, and
     every sequence of previous canonicalisations''',
     '''tests canonicalise freshly drawn generic chains; degenerate spectra, redundant bonds and repeated mixed
     re-canonicalisation are only reached by construction''',
     [F, 'xmps/tensor.py'],
     [('canonical sweeps', F+':left_canonicalise/right_canonicalise/mixed_canonicalise'),
      ('QR sweeps', F+':left_orthogonalise/right_orthogonalise/mixed_orthogonalise'),
      ('environment diagonalisation', 'xmps/tensor.py:diagonalise'), ('truncation', 'xmps/tensor.py:truncate_A/truncate_B')],
     'invariant monitor at quiescent points plus dense shadow state',
     EXP, state=[{'name': 'orthogonality centre', 'meaning': 'site the environments are identities around', 'where': F+':oc'}])

prop('C05', 'Truncation respects the bond limit and loses only discarded weight',
     '''Truncating a finite chain to a bond dimension yields a chain whose every bond is within the limit, never larger than before, and
     still in the requested canonical form. Whatever form the chain was in, its state differs from the original by no
     more than the discarded Schmidt weights allow, and equals the dense optimum when a single bond is cut. When the limit is not smaller
     than the Schmidt rank at every bond the state is unchanged up to normalisation and phase.''',
     ['inputs'],
     '''every chain, limit from 1 to beyond full rank, and direction; spectra that are flat, decaying, degenerate or
     exactly rank-deficient''',
     '''tests compare bond dimensions on one random chain and never the state error against the optimal approximation''',
     [F, 'xmps/tensor.py'], [('truncating sweep', F+':right_canonicalise/left_canonicalise'),
                             ('cut', 'xmps/tensor.py:truncate_A/truncate_B/truncate')],
     'error-bound monitor against dense Schmidt spectra',
     EXP)

prop('C06', 'Expectation values are history and gauge independent',
     '''Every way of reading a physical quantity from a finite chain - one-site, several-site and full-chain expectation
     values, lists of them, reduced density matrices and local overlaps, and on normalised canonical chains also energies - returns the
     value the normalised
     dense state has, for any operator (complex and non-symmetric ones included). This holds after any sequence of
     gauge changes, gate applications, site edits (by item assignment) and earlier measurements on the same object.''',
     ['histories', 'inputs'],
     '''random sequences of measurements, canonicalisations, orthogonalisations, gates, tensor edits and copies, on chains
     of length 2-8 with d = 2, 3''',
     '''tests measure a fresh state once, mostly with real symmetric operators; a stale canonical-form marker or a
     transposed operator only shows after particular histories or with particular operators''',
     [F], [('lazy recentring on the recorded centre', F+':E/E_k/rho'), ('contractions', F+':E/E_/Es/E_k/E_L/rho/energy')],
     'history monitor with a dense shadow model checked after every operation',
     EXP, state=[{'name': 'orthogonality centre', 'meaning': 'cached position, invalidated by edits', 'where': F+':oc'}])

prop('C07', 'Operations leave their operands and copies alone',
     '''A copy of a state shares nothing observable with its original: any sequence of operations on one leaves the other
     exactly as it was. Operations that return a new state (addition, subtraction, scaling, one-site operators, appending,
     overlap, serialisation) and functions given Hamiltonians, operators or lists leave those arguments unchanged.''',
     ['histories'],
     '''random operation sequences interleaved over aliased pairs of finite and infinite chains, 2-D networks,
     and the operator/Hamiltonian arguments''',
     '''tests hardly ever look at an operand after using it''',
     [F, I, 'xmps/fPEPS.py', 'xmps/Hamiltonians.py'], [('copying', F+':copy'), ('in-place sweeps', F)],
     'aliasing monitor: byte fingerprints of every operand before and after each call',
     EXP)

prop('C08', 'State algebra is the algebra of the dense vectors',
     '''Proper addition and scalar multiplication of finite chains act on the represented vectors as vector addition and
     scaling; appending and extending concatenate chains; item-wise operations on finite and uniform chains act tensor by tensor.
     Equality is true
     exactly for chains of the same shapes and equal tensors and never raises; one-based and zero-based access agree;
     and approximate, local and product-state overlaps equal their dense definitions.''',
     ['inputs'],
     '''pairs of chains of equal length with arbitrary, different bond dimensions; d = 2, 3''',
     '''tests add two chains of the same bond dimensions once''',
     [F], [('block concatenation', F+':add'), ('scaling', F+':mul'), ('equality', F+':__eq__')],
     'differential runtime monitor against dense vector algebra',
     EXP)

prop('C09', 'Applying operators to chains matches dense application',
     '''Applying one-site operators, two-site gates on any pair of sites in either order and at any distance, isometries on adjacent
     sites and post-selection gives the chain representing the dense result (up to normalisation only where a
     truncation is requested), without exceeding a requested bond limit, and any composition of them matches the dense
     circuit.''',
     ['inputs', 'programs'],
     '''random circuits of unitary and non-unitary gates on ordered and reversed, adjacent and distant pairs, with both
     canonical directions and with or without truncation''',
     '''tests apply unitary gates to adjacent pairs; reversed pairs, non-unitary gates and long-range gates with
     truncation are left open''',
     [F], [('gate split', F+':apply_two_site/apply_unitary/separate_tensor_*'), ('one-site', F+':apply'),
           ('projection', F+':post_select')],
     'differential runtime monitor against a dense circuit simulator',
     EXP)

prop('C10', 'Stored and serialised states come back identical',
     '''Serialising a chain or storing it in a file and reading it back reproduces every tensor exactly for finite and
     infinite chains, real or complex encoding, regular or irregular bond structure. A serialised vector or file that lost part of its data is
     rejected with an error rather than read back as a different state of the stored size. Stopping a trajectory writes a new folder with its
     state, initial state, Hamiltonian, operator and results, and leaves the folders of earlier stops untouched.''',
     ['inputs'],
     '''every chain shape, dtype and encoding''',
     '''tests round-trip one or two shapes''',
     [F, I, 'xmps/fTDVP.py'], [('encoding', F+':serialize/deserialize/store/load'), ('stopped runs', 'xmps/fTDVP.py'+':stop/save'), ('uniform chain files', I+':store_bin/load_bin')],
     'round-trip runtime monitor with bytewise comparison',
     EXP)

prop('C11', 'The time derivative is the tangent-space projection of -iH|psi>',
     '''For any chain in canonical form and any Hamiltonian, the computed derivative of the tensors represents the
     orthogonal projection of -iH|psi> onto the tangent space of the variational manifold. The nearest-neighbour and
     full-matrix formulations agree, the norm and energy are stationary along it, and at full bond dimension it equals
     the exact Schrodinger derivative up to a phase component.''',
     ['inputs'],
     '''chains of length 2-7 and every admissible bond dimension, generic complex nearest-neighbour Hamiltonians
     different on each bond, including fields and non-real couplings''',
     '''tests compare with exact evolution for two real Hamiltonians at full bond dimension''',
     [F], [('derivative', F+':dA_dt'), ('null-space projector', F+':left_null_projector'), ('transfer', F+':left_transfer')],
     'differential runtime monitor: dense projector onto the numerically spanned tangent space',
     EXP+'Inverse environments: inputs are kept to condition numbers where 1e-6 is meaningful.')

prop('C12', 'Tangent vectors and Jacobian are those of the projected flow',
     '''Packing and unpacking tangent vectors are mutually inverse isometries, null-space projectors annihilate the
     state's tensors and complete them, and the linearised flow of a nearest-neighbour Hamiltonian (Jacobian blocks, second-derivative overlaps and
     connection coefficients) equals its dense definition by contraction for every pair of sites. Results never depend
     on cached intermediates from other sites, other Hamiltonians or earlier states, unless the caller names the same cache entry.''',
     ['inputs', 'histories'],
     '''chains up to length 13 (two-digit site numbers), every pair of sites, repeated calls on one object with different
     Hamiltonians and tensors''',
     '''tests check a few entries for chains too short for cached keys to collide and never reuse an object''',
     [F], [('linearised flow', F+':jac/F1/F2/christoffel'), ('caches', F+':F1_tot_ij_mem/christ_ij_mem/dA_cache'),
           ('packing', F+':extract_tangent_vector/import_tangent_vector')],
     'differential runtime monitor against dense tangent vectors; cache-history monitor',
     EXP)

prop('C13', 'Entanglement diagnostics equal those of the dense state',
     '''Entanglement entropies, Schmidt spectra and Renyi and von Neumann entropies reported for a chain or along a
     trajectory equal those of the dense state at every bond, vanish for product states, and do not depend on gauge,
     normalisation or measuring order.''',
     ['inputs', 'histories'],
     '''every bond of chains with flat, degenerate, decaying and rank-deficient spectra''',
     '''tests evaluate one known state''',
     [F, 'xmps/fTDVP.py'], [('entropy', F+':entanglement_entropy'), ('trajectory entropies', 'xmps/fTDVP.py:schmidts/von_neumann/renyi')],
     'differential runtime monitor against dense Schmidt decompositions',
     EXP)

prop('C14', 'Recorded trajectories are the evolution at the recorded times',
     '''Every integrator (Euler, Runge-Kutta, adaptive) started from a chain produces a history whose k-th entry is the
     state at the k-th requested time to the accuracy of the method, starting with the initial state, with one entry per
     time and the current state equal to the last entry. Observables, energies, fidelities and other series computed
     from a history are aligned with those times, and splitting a run in two gives the same entries (the shared time recorded by both runs).''',
     ['histories', 'configurations'],
     '''all integrators, time grids (even or not, forwards or backwards), Hamiltonians and bond dimensions, repeated runs on one object, cleared and
     reloaded trajectories''',
     '''tests look at the end point of one run with one integrator''',
     ['xmps/fTDVP.py'], [('integrators', 'xmps/fTDVP.py:eulerint/rk4int/odeint'), ('history', 'xmps/fTDVP.py:mps_history/T/Ds'),
                         ('observables', 'xmps/fTDVP.py:mps_evs/mps_energies/fidelities')],
     'trace monitor: recorded history checked entry by entry against exact and order-of-accuracy models',
     EXP, state=[{'name': 'history', 'meaning': 'serialised state per time', 'where': 'xmps/fTDVP.py:mps_history'}])

prop('C15', 'Exact reference evolution solves the Schrodinger equation',
     '''The exact-diagonalisation reference evolution of a chain equals exp(-iHt) applied to its dense state at every
     requested time (evenly spaced or not), conserves norm and energy, and the expectation values, energies and out-of-time-order correlators
     derived from it equal their dense definitions. The chain left behind is the evolved state at the final time up to normalisation and phase.''',
     ['inputs'],
     '''all chains up to eight (some up to twenty) sites, complex Hamiltonians, time grids of two or more points, even or not, not necessarily starting at zero''',
     '''tests use it as the oracle for everything else and never check it''',
     ['xmps/fTDVP.py'], [('reference evolution', 'xmps/fTDVP.py:edint/ed_evs/ed_energies/ed_OTOC')],
     'differential runtime monitor against dense spectral evolution',
     EXP)

prop('C16', 'Growing the bond dimension never disturbs the state',
     '''Enlarging the bond dimension of a chain by padding leaves the state unchanged up to normalisation and phase and reaches the
     requested dimension where the chain allows it. The reported projection error of a nearest-neighbour Hamiltonian is the squared time step
     times the squared norm of the part of H|psi> outside the tangent space, and dynamic enlargement of a canonical chain happens only
     above the threshold, respects the limit and stays as close to the exact evolution of the step as the discarded two-site weights allow.''',
     ['inputs', 'histories'],
     '''chains of length 4-8 with every starting bond dimension, target and threshold''',
     '''tests check the resulting dimensions on one chain''',
     [F], [('padding', F+':expand'), ('dynamic growth', F+':dynamical_expand/grow'), ('error estimate', F+':projection_error')],
     'dense shadow-state monitor across enlargement steps',
     EXP)

prop('C17', 'Uniform-chain canonical forms, overlaps and expectations are exact',
     '''Canonicalising an infinite uniform chain (left, right, mixed or symmetric) produces isometries, a diagonal positive
     Schmidt matrix with unit norm and the same infinite state. Overlaps are one exactly for gauge-equivalent states and
     never exceed one; one-site expectation values and energies equal those from the dominant eigenvectors of the
     transfer matrix, for any operator and whatever gauge or normalisation the chain has.''',
     ['inputs', 'histories'],
     '''all injective uniform chains with a one-site cell, d = 2-4, D = 1-6, real or complex, arbitrarily scaled and gauge-transformed''',
     '''tests sample random gauge choices with symmetric operators''',
     [I], [('canonical form', I+':left_canonicalise/right_canonicalise/mixed/canonicalise'), ('measurement', I+':E/Es/overlap')],
     'differential runtime monitor against dense transfer matrices',
     EXP)

prop('C18', 'Uniform-chain time evolution follows the projected gradient',
     '''The derivative of a uniform chain lies in the gauge-fixed tangent space and is the gradient of the energy density:
     along it the energy is conserved in real time and never increases to first order in imaginary time, whatever gauge the chain is in.
     Integrators of order one and four reproduce the flow with errors of their stated order in left canonical
     states, also step by step and under a Hamiltonian given for one step. Ground state searches move by the step asked for,
     report the energy of every state they pass, stop at the tolerance, and return an energy between the true minimum and the
     starting value.''',
     ['inputs'],
     '''random two-site Hamiltonians (complex, non-symmetric under reflection), d = 2, 3, D = 1-4''',
     '''tests evolve one known model''',
     [I, 'xmps/iTDVP.py', 'xmps/iOptimize.py'], [('derivative', I+':dA_dt'), ('integrators', 'xmps/iTDVP.py:Trajectory')],
     'finite-difference and order-of-accuracy monitors on recorded steps',
     EXP)

prop('C19', 'Transfer matrices act as the maps they represent',
     '''Transfer operators built from one or two sets of tensors act on matrices exactly as the completely positive map
     they stand for, matrix-free and dense forms and the adjoint direction agree, and reported fixed points and
     eigenvalues satisfy the eigenvalue equation for the dominant eigenvalue, from either side, with positive
     normalisation.''',
     ['inputs'],
     '''all pairs of tensors with equal or different bond dimensions, D = 1-8''',
     '''tests check one random pair of equal shapes''',
     [I, 'xmps/iMPS.py'], [('transfer maps', I+':TransferMatrix/Map')],
     'differential runtime monitor against dense superoperators',
     EXP)

prop('C20', 'Environment transfer along the chain equals explicit contraction',
     '''Left and right environments of a canonical finite chain and the transfer of any operator along it to any other
     site (all intermediate results or only the last) equal the explicit contraction of the intervening tensors, and
     the compiled transfer kernel gives the same results as the interpreted one without memory errors.''',
     ['inputs'],
     '''all site ranges including empty ones, operators with extra legs, all bond patterns''',
     '''tests transfer the identity over the whole chain''',
     [F, 'xmps/left_transfer.pyx'], [('transfer', F+':left_transfer/right_transfer/get_envs/lt_')],
     'differential runtime monitor; compiled kernel under a sanitizer build where buildable',
     EXP)

prop('C21', 'Hamiltonian builders produce the operator they describe',
     '''A Hamiltonian given as couplings and fields by name, in any order and on any chain length, yields two-site terms
     and full matrices that are Hermitian and equal the sum of the named terms with every field counted with its full weight on
     every site, consistently between all output forms and independent of earlier calls. Converting a matrix back to
     couplings recovers them.''',
     ['inputs', 'histories'],
     '''all sets of one- and two-site spin strings with real coefficients, chain lengths 2-7, repeated conversions on
     one object''',
     '''tests build two textbook models''',
     ['xmps/Hamiltonians.py'], [('term assembly', 'xmps/Hamiltonians.py:Hamiltonian.to_matrices/to_matrix/to_full')],
     'differential runtime monitor against Kronecker sums; call-history monitor',
     EXP)

prop('C22', 'Spin operators and generator sets satisfy their algebra',
     '''Spin matrices of every spin obey angular-momentum commutation relations and the Casimir identity; unitary-group
     generators are Hermitian (anti-Hermitian where so defined), orthogonal and complete; many-body embeddings put the
     operator on the stated site for any local dimension. Parametrised gates are unitary and reproduce their generators, symmetrisers are
     projectors, and extraction of parameters from a unitary inverts its construction up to global phase.''',
     ['inputs'],
     '''all spins up to 3, SU(N) for N = 2-5, chains of up to 6 bodies with d = 2, 3, 4, random parameters''',
     '''tests check spin one half''',
     ['xmps/spin.py'], [('spin algebra', 'xmps/spin.py:spins'), ('su(N)', 'xmps/spin.py:su'), ('embedding', 'xmps/spin.py:n_body')],
     'runtime assertion of algebraic identities over enumerated and random parameters',
     EXP)

prop('C23', '2-D network contraction equals the dense state',
     '''For any two-dimensional tensor network the dense state (in reading and in snake order), norm, overlap, environment of
     a site and expectation values of operators on any site or block (real part, unnormalised) computed by contraction equal
     those of the dense vector obtained by summing over all bonds, for square and rectangular lattices. Embedding a chain as a
     snake preserves its state, applying an operator and adding two networks (two or more sites wide and high) do so
     to the vector, and the networks measured are left as they were.''',
     ['inputs'],
     '''lattices from 1x2 to 3x3 (with sides different), bond dimension 1-3, complex tensors, each site and operator''',
     '''tests use square lattices and real operators''',
     ['xmps/fPEPS.py'], [('contraction', 'xmps/fPEPS.py:fPEPS.recombine/overlap/E/E_k'), ('embedding', 'xmps/fPEPS.py:from_mps')],
     'differential runtime monitor against brute-force network sums',
     EXP)

prop('C24', '2-D reflections, isometric forms and boundary truncation are faithful',
     '''Reflecting, rotating or transposing a two-dimensional network relabels its sites and nothing else, and applying such
     an operation and its inverse restores the network. Bringing it to isometric form turns the tensors into isometries towards the
     centre, where the local expectation value equals the full one, and truncating bonds leaves the state unchanged when the kept dimension suffices.''',
     ['inputs'],
     '''rectangular lattices up to 3x4, bond dimension 1-3''',
     '''tests use square lattices''',
     ['xmps/fPEPS.py'], [('reflections', 'xmps/fPEPS.py:fPEPS.T/R/U'), ('isometries', 'xmps/fPEPS.py:isometrise')],
     'differential runtime monitor against brute-force network sums',
     EXP)

prop('C25', 'Matrix product operators compose like matrices',
     '''The product and dense form of matrix product operators, their application to finite chains, transposition, reversal
     and rotation of their legs agree with ordinary matrix algebra (the dense form being the conjugate of the contraction)
     for every length, physical and bond dimension.''',
     ['inputs'],
     '''operators of length 1-5 with different bond dimensions, rectangular physical legs''',
     '''tests use one random operator''',
     ['xmps/fPEPS.py'], [('operator algebra', 'xmps/fPEPS.py:fMPO')],
     'differential runtime monitor against dense matrices',
     EXP)

prop('C26', 'Singular value decomposition survives solver failure',
     '''The robust singular value decomposition, with which finite chains are built, canonicalised and truncated, returns for any
     finite matrix and option combination factors that are isometries with non-negative descending singular values whose
     product restores the matrix, leaving the matrix as it was unless told otherwise. When the primary numerical routine does not converge, at
     any call, it falls back (with the warning asked for) and still returns such factors, so the chains come out as they would have; non-finite input, unknown
     drivers and the failure of both routines are refused rather than answered.''',
     ['inputs', 'fault_sequences'],
     '''matrices of every aspect ratio, rank and scale, contiguous or strided, and an injected failure or non-convergence
     at every call of the primary routine''',
     '''the routine fails on real data about once in a blue moon; tests cannot provoke it''',
     ['xmps/svd_robust.py', 'xmps/tensor.py'], [('fallback', 'xmps/svd_robust.py:svd/svd_gesvd')],
     'fault injection into LAPACK entry points with a reconstruction oracle',
     EXP)

prop('C27', 'Doubled (thermofield) states represent the two copies exactly',
     '''A doubled state built from a chain represents the tensor product of the chain with itself site by site;
     one-sided and two-sided expectation values, overlaps, swap symmetrisation and the time derivative equal those of
     the dense doubled state and its doubled Hamiltonian, for any operator.''',
     ['inputs'],
     '''chains of length 2-4, complex operators on either copy''',
     '''tests check one symmetric operator''',
     [F], [('doubling', F+':fTFD')],
     'differential runtime monitor against dense doubled vectors',
     EXP)

prop('C28', 'Vidal form converts back to the same state',
     '''Converting a finite chain to pairs (site tensor, weights of the bond on its right) and back reproduces the state up to
     normalisation and phase; the weights are the Schmidt coefficients of every bond, and a site tensor with the weights on its right (left)
     is right (left) canonical wherever no weight is negligible. The same form of a uniform chain, however obtained, has positive normalised weights that are
     its Schmidt coefficients, is canonical from both sides, and leaves reduced density matrices and expectation values as they were, also after converting
     back.''',
     ['inputs'],
     '''finite chains of 2-8 (some up to 40) sites of every kind, uniform chains with one tensor per cell, d = 2-4''',
     '''tests round-trip one chain''',
     [F, I], [('conversion', F+':vfMPS.from_fMPS/to_fMPS'), ('uniform', I+':ivMPS')],
     'round-trip runtime monitor against dense states',
     EXP)

prop('C29', 'Gauge matching aligns states without changing them',
     '''Matching the gauge of one finite chain to another with the same bond dimensions leaves its state (up to a global phase) unchanged
     and its tensors isometric wherever they were, leaves the other chain alone, and makes the overlap of every tensor with the other's, summed over the
     physical and right index, Hermitian and non-negative, so that no rotation of that bond alone brings the tensor nearer. Where the chains are the same
     state in different unitary gauges and no such overlap is singular, tensors and global phase come out equal to the other's; the
     result then does not depend on the gauge the chain came in, and matching again changes nothing.''',
     ['inputs'],
     '''pairs of canonical chains: identical, gauge rotated, slightly perturbed and unrelated''',
     '''no test matches gauges''',
     [F], [('matching', F+':match_gauge_to')],
     'dense shadow-state monitor',
     EXP)

prop('C30', 'Canonical-form predicates accept exactly canonical chains',
     '''The predicates for left and right canonical form, canonical environments (bond matrices), full rank (no zero on a diagonal) and unit trace are true
     exactly when the defining equations hold on every site and bond, and false for every chain violating one of them
     at a single site.''',
     ['inputs'],
     '''canonical chains and chains with one tensor, one bond matrix or one column perturbed, at any position''',
     '''a predicate that is always true passes every test that uses it''',
     ['xmps/tests.py', F], [('predicates', 'xmps/tests.py')],
     'mutation-of-input runtime monitor against defining equations',
     EXP)

prop('C31', 'Named example states are the states they name',
     '''Each named example state is normalised, is built afresh at every request and is the state it names: the four Bell states; the products of
     eigenstates of z (00, 01, 10, 11) and of x (++, +-, -+, --) of two spins; the uniform products of all-0 and all-1; the uniform cat state, symmetric
     under flipping all spins, with perfect correlations as its parameter vanishes; and the AKLT state, with its spin-1 correlations, string order and
     as ground state of its parent Hamiltonian.''',
     ['inputs'],
     '''all named states, measured on up to five sites; the whole range of the parameter of the cat state''',
     '''tests check one-site values of a few''',
     ['xmps/mps_examples.py'], [('examples', 'xmps/mps_examples.py')],
     'runtime assertion against dense vectors',
     EXP)

prop('C32', 'Lyapunov exponents are those of the linearised projected flow',
     '''Lyapunov spectra computed along a projected trajectory measure how the flow stretches tangent vectors: the
     accumulated logarithms of the first k recorded exponents are the growth of the volume spanned by the first k vectors of
     the initial basis under the linearised projected evolution (up to errors that vanish with the time step), whatever the gauge of the state and the zero
     of energy; their sum vanishes at every step, all vanish where the flow is exact or entangles nothing, the reported exponents are the running means per
     unit time, continuing a run gives what one longer run gives, and a cleared trajectory starts anew.''',
     ['inputs', 'histories'],
     '''canonical chains of up to four sites, random nearest-neighbour Hamiltonians without an operator (MPO) form, runs of up to tens of steps, every way to choose the initial basis''',
     '''tests only ask for zero exponents and read the wrong return value; no test integrates perturbed states''',
     ['xmps/fTDVP.py', F], [('spectra', 'xmps/fTDVP.py'+':lyapunov'), ('linearised flow', F+':jac')],
     'runtime monitor of recorded exponents against an independent integration of perturbed dense states; metamorphic runs',
     EXP)


prop('C33', 'Random states and unitaries are what was asked for',
     '''A random chain asked for at an energy is a normalised chain of the requested length, local dimension and bond dimension whose energy is within
     the tolerance of it, a different one each time; energies outside the spectrum end in an error instead of a wrong
     state. Random unitaries are distributed uniformly (Haar measure), and random finite, uniform, lattice and operator
     tensors have independent normally distributed entries, real or complex as asked, of the documented structure.''',
     ['inputs'],
     '''reachable energies for every d, D and tolerance; ensembles of a few hundred to a thousand draws''',
     '''no test draws an ensemble; the energy search is tested for one Hamiltonian''',
     ['xmps/tensor.py', F, I, 'xmps/fPEPS.py'], [('energy search', F+':random_with_energy_E'), ('Haar unitaries', 'xmps/tensor.py:haar_unitary'), ('random tensors', F+':random')],
     'runtime monitor of ensembles: dense energies, moment and distribution tests with 7-sigma thresholds',
     EXP)

prop('C34', 'The disentangler returns a unitary that lowers the entropy it reports',
     '''For every two-site wavefunction the Renyi disentangler returns a unitary on the two physical legs that ends
     with a second Renyi entropy across the cut no larger than that of the state (strictly smaller where a small rotation
     would lower it), lists entropies that never rise and end with the one of the returned gate, and stops once a round
     changes it by no more than the given limit. The environment it climbs along gives the purity, and its derivative,
     for every unitary and state.''',
     ['inputs', 'configurations'],
     '''all local dimensions and bonds of a two-site wavefunction, product, hidden product, weakly and fully entangled,
     real or complex, of any norm; all limits on the change''',
     '''no test runs it; whether an alternating optimisation climbs or oscillates depends on the state, and on the
     orientation of a tensor that is nearly symmetric for some of them''',
     ['xmps/peps_tools.py'],
     [('environment and entropy', 'xmps/peps_tools.py:E2/renyi'), ('optimisation', 'xmps/peps_tools.py:renyi_2_disentangler')],
     'runtime monitor of the optimisation history against the singular values across the cut',
     EXP)


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'state': p['state'], 'observe_at': p['observe'] or ['return values and public attributes'],
                            'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in P:
        path = os.path.join(VERIF, 'checks', p['id'].lower() + '.py')
        if os.path.exists(path):
            level = 'exploration'
            for line in open(path):
                if line.startswith('LEVEL'):
                    level = line.split('=')[1].strip().strip('\'"')
            checks.append({'property': p['id'], 'quick_cmd': './run ' + p['id'],
                           'thorough_cmd': './run %s --thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['technique'], 'level': level, 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'no check is claimed for it at this commit'})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'sh ./setup.sh', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'])


if __name__ == '__main__':
    main()
