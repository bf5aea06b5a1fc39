"""pyvc: a contract verifier for (a subset of) Python.

Verification conditions are generated from the functions of /repo's working tree on every run:

* lift.py   parses the current source, cuts the loops, recompiles the function against
            contract shims (numpy, builtins, logging) and against the contracts of its callees;
* core.py   runs the lifted function on symbolic values, one run per control path, and
            discharges each obligation (path condition => goal) with z3 (cvc5 as second back end);
* values.py symbolic integers, reals, booleans and uninterpreted values;
* arrays.py symbolic numpy arrays (shape, element function, multiset count) and the numpy contracts;
* loops.py  loop cutting: invariants (given or inferred by Houdini from templates), havoc, back edge.
"""
