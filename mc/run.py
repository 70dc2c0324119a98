import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
import common

if __name__ == "__main__":
    prop = sys.argv[1]
    if prop == "C17":       # locks made by the code under test must be visible to the scheduler
        import sched
        sched.patch()

    class Mod:
        """Defers loading the check (which imports the code under test) into common.main's error handling."""
        PROP = prop

        @staticmethod
        def jobs(tier):
            m = importlib.import_module(prop.lower())
            Mod.BOUNDS = getattr(m, "BOUNDS", {})
            Mod.ASSUMPTIONS = getattr(m, "ASSUMPTIONS", [])
            return m.jobs(tier)
    sys.exit(common.main(Mod, sys.argv[2:]))
