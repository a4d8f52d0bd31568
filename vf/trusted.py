"""What every proof of this verifier rests on."""
TRUSTED = [
    "z3 (python bindings in /opt/veriftools/pyvenv) and cvc5 as deciders of the generated obligations",
    "vf/core.py, vf/explore.py, vf/solve.py: the obligation generator (path forking by re-execution of the real function bodies under CPython; arrays as shape + element function with unbounded symbolic dimensions)",
    "lemma schemes instantiated by vf/solve.py: extensionality of vector operators (sum, max, min, any, argmax, argmin, argsort, quantile, abstract callables), witnesses of max/min/any, bounds of argmax/argsort, bounds and witnesses of counts, exp/log/sqrt facts, and the optional hints named by a contract",
    "vf/loader.py: the only edits made to the source text are hooks around for-loops, list comprehensions and generator expressions; len/range/int/float/sum/min/max/any/all/zip/enumerate/isinstance/... are replaced by versions that agree with CPython on concrete values",
    "vf/shim.py: assumed contracts on jax, jax.numpy, numpy, flax, optax and scipy (each concrete run of the same contract text against the real libraries cross-checks them)",
]
ASSUMPTIONS = [
    "machine floating point is treated as mathematical reals and machine integers as mathematical integers; NaN/inf are outside the proofs except where a contract says otherwise",
    "dependency contracts are assumed: jax transformations (vmap, pmap, jit, lax.cond/scan/fori_loop/map) have their documented sequential meaning; random draws are arbitrary but deterministic functions of key, shape and parameters; one local device",
    "division by zero denotes an unspecified value, equal on both sides of an equation",
    "termination is not proved",
    "the concrete reading uses jax in 64-bit mode on CPU",
]
