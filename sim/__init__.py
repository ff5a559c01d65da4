"""Deterministic simulation of pvfactors with fault injection."""
