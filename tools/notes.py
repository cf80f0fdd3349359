B = "Holds for every execution inside the stated bounds (all of them are run, nothing is sampled); nothing is said about inputs outside the alphabet. Trusts "
NOTE = {
 "C01": B + "the 80 bit reference phi functions (cross-checked with mpmath).",
 "C02": B + "the 80 bit reference phi functions.",
 "C03": B + "exact rational arithmetic for the Pade tables and 80 bit exp/phi for the CRAM tables; the real-pole tables are judged by recorded error bounds.",
 "C04": B + "the exact rational grade computation and the 80 bit reference Arnoldi.",
 "C05": B + "the 80 bit reference phi functions and Galerkin projection.",
 "C06": B + "hand-written derivatives of the test systems in the harness.",
 "C07": B + "the 80 bit exact solution of affine systems.",
 "C08": B + "the model of the step formulas written from the documentation (mc/model.py).",
 "C09": B + "the reference state machine; step results are compared with a fresh integrator (differential oracle).",
 "C10": B + "the reference driver model (a plain loop).",
 "C11": B + "the reference construction written from the definition of Leja points.",
 "C12": B + "mpmath divided differences at 60 digits.",
 "C13": B + "80 bit exponentials; for the controller, the scripted interpolation stub.",
 "C14": B + "the formula model for the results of an agent alone; the interleaved runs are compared with it to 1e-12.",
 "C15": B + "a direct matrix assembly in exact arithmetic.",
 "C16": B + "an independent dense assembly with Gauss-Lobatto-Legendre quadrature and manufactured polynomials.",
 "C17": B + "the algebraic balance of each law evaluated in the harness.",
 "C19": B + "the stand-ins for faer and the other crates (rust/shim; no crate is available offline), checked by the crate's own unit tests, and the 80 bit references.",
 "C20": B + "the stand-ins for faer and faer_gmres (rust/shim) and the formula model.",
 "C21": B + "the stand-ins for pyo3, rust-numpy, ndarray and faer_ext (rust/shim), with which the repository's test_rust_py.py passes, and the formula model.",
 "C18": B + "the controlled scheduler (line granularity; XLA kernels are atomic); races inside XLA are out of scope.",
}
NA = {}
