"""Families driven from Python: generated client programs, debuggers, Valgrind."""
import py_client
import py_foreign
import py_gdb
import py_valgrind

client = py_client.client
foreign = py_foreign.foreign
winstack = py_foreign.winstack
gdb = py_gdb.gdb
valgrind = py_valgrind.valgrind


def replay(prop, path):
    config = [l.split()[1] for l in open(path) if l.startswith("config ")][0]
    if config.startswith("py-client"):
        return py_client.replay(prop, path)
    if config.startswith("py-valgrind"):
        return py_valgrind.replay(prop, path)
    if config.startswith(("py-foreign", "py-winstack")):
        return py_foreign.replay(prop, path)
    if config.startswith("py-gdb"):
        return py_gdb.replay(prop, path)
    raise SystemExit("unknown configuration " + config)
