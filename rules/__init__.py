import importlib, re
ALL = {}
for _m in ("basic", "run", "equations", "models", "results", "config", "documents", "effects", "panics", "printed"):
    _mod = importlib.import_module("rules." + _m)
    for _k, _v in vars(_mod).items():
        if re.fullmatch(r"C\d\d", _k):
            ALL[_k] = _v
