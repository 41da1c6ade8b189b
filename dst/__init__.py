"""Deterministic simulation of PyPEEC with fault injection."""
