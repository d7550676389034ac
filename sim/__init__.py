"""Deterministic simulator for dynetworkx (see ../DESIGN.md)."""
