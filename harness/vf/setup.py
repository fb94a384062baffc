"""Prebuilds whatever the checks cache."""
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import build

TARGETS = [lambda: build.py_ext("shim"), lambda: build.lua_ext("shim"), lambda: build.cc_driver("cc_driver", "shim"),
           lambda: build.py_ext("real"), lambda: build.lua_ext("real"), lambda: build.cc_driver("cc_driver", "real"), build.g_driver, build.gringo_driver]


def main():
    def go(f):
        try:
            f()
        except Exception:  # a check that needs it will say so
            traceback.print_exc()
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(go, TARGETS))
    return 0
