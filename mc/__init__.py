"""Bounded exhaustive exploration of graphix against independent reference semantics."""
