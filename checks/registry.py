import importlib, os
CHECKS = {}
for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if f[:1] == "c" and f[1:3].isdigit() and f.endswith(".py"):
        m = importlib.import_module("checks." + f[:-3])
        CHECKS[f[:-3].upper()] = getattr(m, f[:-3].upper())
