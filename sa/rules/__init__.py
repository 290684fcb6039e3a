"""The rules, by area."""
import importlib
import os
import pkgutil

for _m in pkgutil.iter_modules([os.path.dirname(__file__)]):
    importlib.import_module(__name__ + '.' + _m.name)
