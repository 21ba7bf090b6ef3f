import sys, importlib
from .core import main
# property -> (module, function)
CHECKS = {
    "P01": ("p01", "p01"), "P02": ("p01", "p02"), "P03": ("p03", "p03"), "P04": ("p04", "p04"), "P05": ("p05", "p05"), "P06": ("p06", "p06"), "P07": ("p06", "p07"),
    "P08": ("p08", "p08"), "P09": ("p09", "p09"), "P10": ("p10", "p10"), "P11": ("p11", "p11"),
}
if __name__ == "__main__":
    pid = sys.argv[1]
    m, f = CHECKS[pid]
    main(pid, getattr(importlib.import_module("vf." + m), f))
