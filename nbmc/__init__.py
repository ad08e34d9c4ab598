"""Bounded, exhaustive model checking of nbkode (see /verif/DESIGN.md)."""
