#!/usr/bin/env python3
"""check.py <property id> [--replay FILE]: decides one property (see DESIGN.md)."""
import importlib.util, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
os.umask(0o022)
def load(pid):
    p = os.path.join(V, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location(pid, p)
    m = importlib.util.module_from_spec(spec); sys.modules[pid] = m
    spec.loader.exec_module(m)
    return m
if __name__ == "__main__":
    import engine, build
    m = load(sys.argv[1])
    if hasattr(m, "HARNESS"):
        import prun; sys.exit(prun.main(m))
    try:
        sys.exit(engine.main(m))
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e); sys.exit(2)
