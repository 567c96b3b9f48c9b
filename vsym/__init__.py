"""Symbolic execution of coordinax (through its jaxpr) decided by SMT."""
