"""Bounded exhaustive exploration of the real runlmc code against dense oracles."""
