"""Deterministic simulation kit."""
