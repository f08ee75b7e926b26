import importlib


def load(prop):
    return importlib.import_module("harness." + prop.lower())
