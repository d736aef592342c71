"""Property-based testing library for prosimos (see /verif/DESIGN.md)."""
