"""Property-based checks of pjohansson/strata."""
