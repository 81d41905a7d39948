"""All contracts. Importing this package fills pyvc.contract.REG."""
import importlib
import os

NAMES = sorted(f[:-3] for f in os.listdir(os.path.dirname(__file__)) if f.startswith('c_') and f.endswith('.py'))


def load():
    for n in NAMES:
        importlib.import_module('contracts.' + n)
