import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "stubs")]
sys.dont_write_bytecode = True
import explore
prop = sys.argv[1]
m = importlib.import_module(prop.lower())
sys.exit(explore.run_all(prop, m.SCENARIOS, m.RULE, m.ASSUME))
