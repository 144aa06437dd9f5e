"""Bounded exhaustive exploration (model checking) of nokia/PyBGL."""
