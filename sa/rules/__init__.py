import importlib
import os

for _f in sorted(os.listdir(os.path.dirname(__file__))):
    if _f.endswith('.py') and not _f.startswith('_'):
        importlib.import_module(__name__ + '.' + _f[:-3])
