"""Deterministic simulation of the mmcore library: one seed is one execution."""
