"""Deterministic simulation of google/grain with fault injection."""
