"""Deterministic simulation of KerrGeoPy with fault injection (see /verif/DESIGN.md)."""
