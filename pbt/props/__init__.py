import importlib


def load(pid):
    return importlib.import_module(f"{__name__}.{pid.lower()}").PROP
