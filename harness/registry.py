import trackchecks as T, compchecks as P
CHECKS = {f"C{i:02d}": getattr(T, f"C{i:02d}") for i in range(1, 12)}
CHECKS["C24"] = T.C24
for _i in range(12, 40):
    if hasattr(P, f"C{_i}"):
        CHECKS[f"C{_i}"] = getattr(P, f"C{_i}")
TECH = {}
NOTE = {}
