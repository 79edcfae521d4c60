"""Registry of properties and their rules."""
RULES = {}


def rule(pid, how, floor, assumes=(), level="other"):
    def deco(f):
        RULES[pid] = {"fn": f, "how": how, "floor": floor, "assumes": list(assumes), "level": level}
        return f
    return deco


import importlib, os
_d = os.path.dirname(os.path.abspath(__file__))
for _f in sorted(os.listdir(_d)):
    if _f.startswith("rules_") and _f.endswith(".py"):
        importlib.import_module(_f[:-3])
