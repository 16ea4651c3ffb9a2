CLAIMED = [f"C{i:02d}" for i in range(1, 27)]
NOTES = {
    "C14": ("static effect analysis of every reader (callees inlined)",
            "Every property getter, query, iteration, export, validation and conversion of every concrete class is abstractly evaluated over its source with callees inlined; a write to an object that existed before the call is a violation, as is a memoising decorator. Reads whose callees cannot all be resolved are listed as skipped. Trusts the evaluator's effect model for list/numpy/praatio/polars calls."),
    "C26": ("static comparison of state methods with their contracts, and a query over every attribute assignment",
            "Every __setstate__/__getstate__ a class defines must normalise to restoring/giving the whole __dict__; every attribute assignment in the package is searched for values that cannot be pickled; attribute access hooks must pass on their arguments. __reduce__, __copy__ and __deepcopy__ are listed, not looked into. Trusts that pickling itself saves and restores __dict__."),
}
REASONS = {}
