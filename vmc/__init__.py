"""Bounded exhaustive exploration (model checking) of the real pymoo code."""
