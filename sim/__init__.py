"""Deterministic simulation of regain: seams, scheduler, fault injection, oracles."""
