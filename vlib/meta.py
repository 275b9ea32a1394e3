"""What each check consists of, read without importing JAX or the code under test."""
import importlib


def _mod(prop):
    return importlib.import_module("props." + prop.lower())


def subs(prop):
    return [{"name": s.name, "x64": s.x64} for s in _mod(prop).SUBS]


def assumptions(prop):
    return list(getattr(_mod(prop), "ASSUMPTIONS", []))
