import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
pid = sys.argv[1]
vlib.setup_env()
mod = importlib.import_module(pid.lower())
sys.exit(vlib.main(pid, mod.body))
