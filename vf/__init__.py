"""Property-based testing framework for dwave-gate (see /verif/DESIGN.md)."""
