"""Which contracts decide which property."""
import importlib
MOD = {}
def contracts(prop):
    return importlib.import_module('contracts.p_' + prop).CONTRACTS
def info(prop): return importlib.import_module('contracts.p_' + prop)
def seconds(prop, tier): return getattr(info(prop), 'SECONDS', 20) if tier == 'quick' else getattr(info(prop), 'SECONDS_THOROUGH', 240)
COMMON_TRUST = ['the symbolic executor pyvc (subset semantics of Python and its models of numpy, cross-checked against CPython/numpy by pyvc/selftest.py)',
                'z3 4.15/5.x, cvc5 1.1.2', 'floating-point numbers are treated as exact real numbers (no rounding, overflow or NaN)']
def trusted(prop): return COMMON_TRUST + getattr(info(prop), 'TRUST', [])
def assumptions(prop): return getattr(info(prop), 'ASSUME', [])
def bounded(prop): return getattr(info(prop), 'BOUNDED', [])
def level(prop): return getattr(info(prop), 'LEVEL', 'proof')
def finding_of(prop, label, name): 
    f = getattr(info(prop), 'finding_of', None)
    return f(label, name) if f else None
