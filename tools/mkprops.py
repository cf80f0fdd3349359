#!/usr/bin/env python3
"""writes properties.jsonl (and checks it against the schema when jsonschema is present)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=[f if f.startswith("src/") else "ormatex_py/" + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


prop("C01", "Dense phi functions are correct for every square matrix",
     "For every real square matrix and order k, the dense routines return the matrix function phi_k (phi_0 = exp, "
     "phi_{k+1}(z) = (phi_k(z) - 1/k!)/z): the extension formula to near machine precision, the scaling-and-squaring routine "
     "to its documented low-order polynomial accuracy, singular, defective, nilpotent and stiff matrices included. "
     "When all orders are requested at once, entry j is phi_j. "
     "The routine based on the inverse of the matrix is either accurate or warns that the matrix is close to singular, "
     "and it does not warn for well conditioned matrices.",
     ["inputs"], "all matrices (structure, norm, size), all orders k",
     "tests/test_phi.py uses six scalars and a few well conditioned matrices at k<=3; singular, defective and scaled matrices and the warning are never exercised",
     ["matexp_phi.py"],
     [("f_phi_k_ext: block extension of the matrix", "matexp_phi.py:f_phi_k_ext"),
      ("scaling and modified squaring recurrence", "matexp_phi.py:f_phi_k_sq_all"),
      ("QR pivot based error estimate and warning", "matexp_phi.py:f_phi_k / f_phi_k_inv")])
prop("C02", "Action of phi_k on vectors and blocks of vectors",
     "For every real square matrix A, order k and right-hand side b (a vector, or a block whose columns are independent right-hand "
     "sides), the dense action routine returns phi_k(A) b with the shape of b; each column is accurate relative to its own size.",
     ["inputs"], "all matrices, orders, numbers of columns, magnitudes of the right-hand sides",
     "tests apply it to one vector and one block at three orders",
     ["matexp_phi.py"], [("extension of A by the right-hand side block", "matexp_phi.py:f_phi_k_appl")])
prop("C03", "Rational (partial fraction) phi approximations keep their accuracy",
     "For every selectable rational table the computed phi_k(Z) b is the approximation the table stands for: the Pade tables, implicit "
     "Euler and Crank-Nicolson equal the exact rational function, the CRAM table of order n has an error of the size of Halphen's "
     "constant to the power -n on the whole negative real axis, the real-pole tables approximate phi_1. "
     "Higher orders are consistent with lower ones through z phi_{k+1}(z) = phi_k(z) - phi_k(0), and the columns of a block are treated independently.",
     ["inputs", "configurations"], "all shipped tables, all arguments on the negative real axis and in a disc, orders 0..3, vectors and blocks",
     "tests look at one table and six points",
     ["matexp_phi.py", "matexp_phi_pfd_dict.py"],
     [("poles, residues and constants", "matexp_phi_pfd_dict.py:pfd_dict"),
      ("sum of shifted solves", "matexp_phi.py:f_phi_k_pfd")])
prop("C04", "The Arnoldi process returns a valid Krylov factorization",
     "For every linear operator, scaling, non-zero start vector, requested dimension and orthogonalization window, the basis is orthonormal "
     "(within the window), starts with the normalized start vector, and scaling*A*Q = Q*H holds in every column but the last, with H upper Hessenberg, "
     "banded by the window and with non-negative subdiagonal. "
     "The dimension is the smallest of the requested one, the size of the operator, and the dimension at which the Krylov space becomes invariant; "
     "in the last case the relation holds in every column.",
     ["inputs", "configurations"], "all operators, start vectors, dimensions, windows, including those that break down early",
     "tests check two matrices at one dimension and window",
     ["arnoldi_jax.py"],
     [("modified Gram-Schmidt over the window", "arnoldi_jax.py:arnoldi_mgs_lop"),
      ("happy breakdown detection", "arnoldi_jax.py:arnoldi_mgs_lop"),
      ("truncation to the reached dimension", "arnoldi_jax.py:arnoldi_lop")])
prop("C05", "Krylov evaluation of phi functions and of their linear combinations",
     "For every linear operator A, step size dt and vector v, the Krylov routine returns phi_k(dt A) v when the Krylov dimension reaches the size of the "
     "operator (or the space becomes invariant), the Galerkin projection otherwise, scales linearly with v and maps the zero vector to zero. "
     "The combined routine returns sum_j phi_j(dt A) b_j for every list of vectors, including lists with zero vectors and very different magnitudes.",
     ["inputs", "configurations"], "all operators (dense, sparse, diagonal, Jacobians), step sizes, orders, dimensions, windows, vector patterns",
     "tests use one operator, full dimension and non-zero vectors of similar size",
     ["matexp_krylov.py", "arnoldi_jax.py", "ode_sys.py"],
     [("normalization by the start vector", "matexp_krylov.py:phi_linop"),
      ("augmented operator with reversed block", "matexp_krylov.py:kiops_fixedsteps, ode_sys.py:AugMatrixLinOp")])
prop("C06", "Linear operators and Jacobians act as the matrices they stand for",
     "Every linear operator class applies exactly the matrix it was built from, and its dense form, where offered, is that matrix. "
     "The Jacobian of a system, whether derived automatically, supplied by the user or by finite differences, is the derivative of the right-hand side with respect to the state at the given "
     "time and state, its time derivative is the partial derivative in time, and the cached right-hand side is the right-hand side at that point, for every state (zero included), time and extra argument.",
     ["inputs", "configurations"], "all operator classes, matrices, vectors, smooth systems, states and times, right-hand-side arguments",
     "tests use Jacobians only inside two integrations; shifted, scaled, zero-state and non-autonomous cases are never reached",
     ["ode_sys.py"],
     [("AdJacLinOp linearization in (t, u)", "ode_sys.py:AdJacLinOp"), ("CustomJacLinOp with finite difference fallback in time", "ode_sys.py:CustomJacLinOp"),
      ("FdJacLinOp", "ode_sys.py:FdJacLinOp"), ("AugMatrixLinOp block product", "ode_sys.py:AugMatrixLinOp")])
prop("C07", "Exponential integrators are exact on linear problems",
     "For y' = A y + c + d t the exponential Rosenbrock, EPI and Leja integrators reproduce the exact solution at every accepted step, for every matrix A, step size "
     "sequence and start time, up to the accuracy of the phi evaluation; the split integrators do so for y' = L y + c when given the operator L, and the pure exponential for y' = A y. "
     "Equilibria stay put and linear invariants of A are preserved. The Leja methods either meet their tolerance or raise an error, never return a wrong state.",
     ["inputs", "configurations", "histories"], "all matrices, forcings, start times, step sequences, methods and method options",
     "the regression tests integrate two problems with a loose tolerance, all from t=0 with constant steps",
     ["ode_exp.py", "matexp_krylov.py", "matexp_phi.py", "matexp_leja.py"],
     [("phi_2 correction for non-autonomous systems", "ode_exp.py:_phi2v_nonauto"), ("remainder function", "ode_sys.py:_remf"),
      ("Leja step", "ode_exp.py:_step_epi_re/_step_epi_im")])
prop("C08", "Every method computes its documented step formula and attains its order",
     "On every smooth non-linear, non-autonomous system each accepted step of each method equals the update formula it documents (Jacobian and remainder taken at the current state, "
     "multistep methods using the previous accepted state and falling back to a one-step method when there is none). "
     "Therefore the error over a fixed interval shrinks with the step size at the method's nominal order (explicit Runge-Kutta included).",
     ["inputs", "histories", "configurations"], "all systems of the alphabet, all step histories up to the bound, all methods",
     "the tests compare final errors with loose bounds for constant steps; a wrong weight, stage time or stale history only lowers the order",
     ["ode_exp.py", "ode_explicit.py", "ode_sys.py"],
     [("step formulas", "ode_exp.py:_step_*"), ("rk4 stages", "ode_explicit.py"), ("remainder", "ode_sys.py:_remf")])
prop("C09", "Integrator state machine: step, accept and reset",
     "Computing a step never changes what the integrator reports as its time and state, and repeating it gives the same result; accepting a step makes its time and state current, and "
     "a rejected (not accepted) step leaves no trace in later results. "
     "After a reset to an initial condition the integrator behaves exactly like a newly built one with that initial condition.",
     ["histories"], "all sequences of step, accept, reject and reset with several step sizes up to the depth bound, all methods",
     "tests only run step+accept loops from a fresh integrator",
     ["ode_sys.py", "ode_exp.py", "ode_explicit.py"],
     [("history deques", "ode_sys.py:IntegrateSys"), ("accept_step / reset_ic", "ode_sys.py, ode_exp.py"), ("phi cache of the dense split methods", "ode_exp.py:_update_dense_phiLs")],
     state=[("t, t_hist, y_hist", "current time, accepted times and states", "ode_sys.py"), ("_cached_dt", "step size of the cached phi matrices", "ode_exp.py")])
prop("C10", "The integration driver delivers the trajectory and the callbacks it promises",
     "For every method, start time, step size and number of steps n>=1 the driver returns n+1 times t0+i*dt and states, the first being the initial condition and the others those of stepping by hand with the same options. "
     "With the library's own methods (not the diffrax ones) the before-step callback is called once per step with the time and state the step starts from and its result reaches every right-hand-side evaluation of that step; the after-accept callback is called once per accepted step with the new time and state; results are returned in order, and an exception raised by a callback reaches the caller. "
     "Unknown methods raise an error.",
     ["inputs", "configurations", "histories"], "all methods, callbacks present or absent, start times, step sizes, step counts",
     "tests call the driver from t=0 without callbacks for most methods",
     ["integrate_wrapper.py", "ode_exp.py", "ode_explicit.py"],
     [("dispatch and loop", "integrate_wrapper.py"), ("frhs_kwargs plumbing", "ode_exp.py:step")])
prop("C11", "Leja point sequences have the structure the interpolation relies on",
     "For every length and interval or ellipse, the generated points lie in (on) it, are pairwise distinct, start at the right extreme points, are nested (a shorter sequence is a prefix of the longer one up to the conjugate pairing), and come in adjacent complex "
     "conjugate pairs after the announced number of real points; scale and shift match the ellipse. "
     "Real sequences choose each next point among the midpoints of neighbours so that the product of distances is greatest. Padding and reordering keep the set of points.",
     ["inputs"], "all lengths up to the bound, all intervals and ellipses of the alphabet, including degenerate ones",
     "tests look at one sequence",
     ["matexp_leja.py", "matexp_poly.py"],
     [("gen_leja_fast candidates", "matexp_leja.py:gen_leja_fast"), ("gen_leja_circle / gen_leja_conjugate", "matexp_leja.py"), ("padding, reordering", "matexp_poly.py")])
prop("C12", "Divided differences of the exponential are accurate",
     "For every point sequence, shift, scale and step fraction, each selectable method returns the divided differences of x -> exp(h (shift + scale x)) at the points, real and complex, "
     "to an absolute accuracy near machine precision relative to the largest value (the recursive formula for well separated points only, the others for repeated points too); the Newton polynomial interpolates the exponential at the points.",
     ["inputs", "configurations"], "all sequences, scales, shifts, step fractions of the alphabet, all selectable methods",
     "tests compare the methods with each other on one sequence",
     ["matexp_poly.py"],
     [("Taylor (scaling and squaring of the bidiagonal matrix)", "matexp_poly.py:dd_exp_taylor"), ("Pade", "matexp_poly.py:leja_coeffs_exp"), ("recursive table", "matexp_poly.py:newton_poly_div_diff")])
prop("C13", "Leja interpolation: converged means accurate; substeps cover the interval",
     "Whenever a Leja evaluation of exp(dt A) u reports convergence its result is accurate to the requested tolerance, for every operator whose spectrum lies in the interpolation region, real or complex points. "
     "The substep controller covers exactly the whole interval with substeps that all converged, whatever the sequence of converged/not converged answers, or raises an error.",
     ["inputs", "fault_sequences", "configurations"], "operators x tolerances x point counts; every sequence of interpolation failures up to the bound",
     "tests only see evaluations that converge at once",
     ["matexp_leja.py", "matexp_poly.py"],
     [("Newton interpolation with running error estimate", "matexp_leja.py:real_leja_expmv/complex_conj_leja_expmv"), ("substep halving loop", "matexp_leja.py:*_substep")],
     state=[("tau", "covered part of the interval", "matexp_leja.py"), ("dts", "current substep", "matexp_leja.py")])
prop("C14", "Integrators and systems do not influence each other",
     "Results depend only on the system, initial condition, method, options and step sequence: running other integrators of the same or another method on systems of the same class with other parameters, in any interleaving, "
     "before or in between, does not change a single result, and repeating a computation gives the same result.",
     ["histories", "schedules"], "all interleavings of two integrations up to the bound, all pairs of methods of the alphabet, equal and different system parameters and sizes",
     "every test runs one integration at a time; leaks through compiled functions, default arguments or class level caches need a second one",
     ["ode_sys.py", "ode_exp.py", "integrate_wrapper.py"],
     [("per instance state; compiled functions take the system as argument", "ode_exp.py:_step_*_jit, ode_sys.py")],
     state=[("compilation caches", "compiled step functions shared by all instances", "ode_exp.py")])
prop("C15", "Transmutation and decay matrices represent the nuclide library",
     "For every library of decay or transmutation branches the matrix has minus the total loss rate on the diagonal, the branch rate in the row of the child, and nothing else; losses to outside the set leave the system, so column sums are minus the leaked rate. "
     "The matrix exponential conserves nuclides without leaks and keeps densities non-negative, and the analytic single-parent solution agrees with it.",
     ["inputs"], "all libraries over up to four nuclides with one or two branches each",
     "tests use one chain",
     ["progression/bateman_sys.py"],
     [("matrix assembly", "progression/bateman_sys.py:gen_bateman_matrix/gen_transmute_matrix"), ("analytic solution", "progression/bateman_sys.py:analytic_bateman_single_parent")])
prop("C16", "The spectral element advection-diffusion discretization is consistent",
     "For every mesh, polynomial order, diffusivity, velocity of either sign (zero included) and boundary condition, the semi-discrete operator is exact on the polynomials it must reproduce: constants have no internal flux, "
     "the discrete mass is conserved up to boundary fluxes, the right-hand side is affine in the state and equal to its linear operator plus forcing, and smooth solutions converge as the mesh or order is refined.",
     ["inputs", "configurations"], "all small meshes, orders, parameter combinations of the alphabet",
     "tests run none of the finite element systems",
     ["progression/advection_diffusion_1d.py", "progression/element_line_pp_nodal.py"],
     [("GLL nodes and basis", "progression/element_line_pp_nodal.py"), ("assembly", "progression/advection_diffusion_1d.py:AdDiffSEM"), ("SUPG stabilization", "progression/advection_diffusion_1d.py")])
prop("C17", "Reaction and mass transfer terms conserve what they move",
     "Every mass transfer between two species or phases removes from one exactly what it adds to the other (weighted by the volumes), vanishes at equilibrium, and leaves all other species untouched; "
     "coupled species systems apply the same reaction at every mesh node, in the documented stacking order, whatever the number of nodes and species.",
     ["inputs", "configurations"], "all transfer laws, states and parameters of the alphabet, all node and species counts up to the bound",
     "tests cover none of the transfer laws or coupled systems",
     ["progression/species_source_sink.py", "progression/bateman_nonlin_sys.py", "progression/rad_1d_2s.py", "progression/rad_1d_3s.py", "progression/rad_1d_9s.py", "progression/lotka_volterra.py", "ode_utils.py"],
     [("source/sink terms", "progression/species_source_sink.py"), ("stack/flatten", "ode_utils.py")])
prop("C18", "Parallel stages give the same step under every thread schedule",
     "The method that evaluates its stages on worker threads returns the same step result under every interleaving of the stage evaluations, terminates, and propagates a failure of either stage; "
     "steps of several integrators running at the same time do not influence each other.",
     ["schedules", "fault_sequences"], "all interleavings of the stage threads at source line granularity up to the preemption bound; a failure at either stage",
     "a test run sees one schedule",
     ["ode_exp.py"],
     [("closures over the current step, thread pool", "ode_exp.py:_step_pexprb4")],
     state=[("executor", "thread pool with two workers", "ode_exp.py")])
prop("C19", "The Rust matrix functions and operators are correct",
     "The Rust exponential and phi functions (Pade with scaling and squaring, extended matrix, CRAM poles, parabolic contour) agree with the matrix functions they are named after for every matrix in their range, "
     "the Rust Arnoldi process satisfies A Q = Q H with an orthonormal basis and stops exactly at an invariant subspace, and Krylov products and combinations equal the projected functions, for every vector including zero. "
     "Extended, shifted and finite difference operators apply the matrix they stand for at every state and after every sequence of updates.",
     ["inputs", "histories"], "all matrices, vectors, orders, dimensions, windows and steps of the alphabet; all histories of operator updates up to the bound",
     "the Rust unit tests use one or two matrices each, unit steps and no zero vectors, and are not part of the Python test run",
     ["src/matexp_pade.rs", "src/matexp_cauchy.rs", "src/matexp_krylov.rs", "src/arnoldi.rs", "src/ode_sys.rs", "src/mat_utils.rs"],
     [("scaling and squaring", "src/matexp_pade.rs:matexp_pade"), ("poles", "src/matexp_cauchy.rs:CauchyExpm"), ("projection", "src/arnoldi.rs:arnoldi_lop, src/matexp_krylov.rs:KrylovExpm"),
      ("operators", "src/ode_sys.rs:ExtendedLinOp/ShiftedLinOp/FdJacLinOp")])
prop("C20", "The Rust integrators take the documented steps",
     "Every step of every Rust integrator (Runge-Kutta 1-4, BDF1, BDF2 with equal steps, Crank-Nicolson, EPI2, EPI3, EXPRB2, EXPRB3) equals its documented formula from the accepted history, also for systems that depend on time, and keeps equilibria. "
     "Proposing a step changes nothing, accepting it makes it the current state, and resetting forgets the history, in every order of these operations. "
     "The Newton solver returns roots and reports failure otherwise.",
     ["inputs", "histories"], "all sequences of step, accept and reset up to the bound; all systems, states, times and step sizes of the alphabet",
     "the Rust unit tests print trajectories of two autonomous systems without comparing the implicit ones",
     ["src/ode_rk.rs", "src/ode_bdf.rs", "src/ode_epirk.rs", "src/newton.rs", "src/ode_sys.rs"],
     [("tableaus and stages", "src/ode_rk.rs"), ("implicit steps and history", "src/ode_bdf.rs"), ("exponential steps", "src/ode_epirk.rs"), ("Newton iteration", "src/newton.rs")],
     state=[("y_hist, t_hist", "accepted states and times", "src/ode_epirk.rs, src/ode_bdf.rs, src/ode_rk.rs")])
prop("C21", "The Rust methods give the documented results from Python",
     "Integrating from Python with a method of the Rust library (exprb2_rs, exprb3_rs, epi2_rs, epi3_rs, bdf1_rs, backeuler_rs, bdf2_rs, cn_rs, exprb2_pfd_rs, exp_pfd_rs) returns the requested times and, "
     "for every system object, initial state, option and output interval, the states of the documented formula, in the shapes that the methods in Python return, including the extra arguments of a callback where these are supported. "
     "The exported phi functions and the exported Arnoldi process agree with their definitions for every memory layout of the arrays. "
     "An error in the Python system at any evaluation reaches the caller instead of a result.",
     ["inputs", "configurations", "fault_sequences"], "all methods x systems x start times x step counts x output intervals x options x kinds of objects and arrays; a failure at every evaluation of a run",
     "the tests skip everything that needs the Rust bindings when these are not installed, as here",
     ["src/ormatex_rspy.rs", "ode_exp.py", "integrate_wrapper.py", "ode_sys.py"],
     [("conversion between Python and Rust", "src/ormatex_rspy.rs:PySysWrapped"), ("driver loop", "src/ormatex_rspy.rs:integrate_wrapper_rs"), ("method selection", "src/ormatex_rspy.rs:select_solver"),
      ("dispatch", "integrate_wrapper.py:integrate"), ("dense steps", "ode_exp.py:_step_exprb2_pfd_rs")])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, sch)
        n = p["statement"].replace("e.g.", "").count(". ") + 1
        if n > 3:
            print(p["id"], "has", n, "sentences")
    print(len(P), "properties valid")
except ImportError:
    pass
