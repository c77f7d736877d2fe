"""Deterministic simulator for the bayesian_decision_tree package."""
