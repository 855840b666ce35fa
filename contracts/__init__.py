"""Contracts (sidecar specifications) of the repository's functions."""
