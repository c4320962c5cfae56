import sys, os, importlib.util
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    spec = importlib.util.spec_from_file_location('unit', f'{core.VERIF}/units/{prop}/unit.py')
    u = importlib.util.module_from_spec(spec); spec.loader.exec_module(u)
    c = core.Ctx(prop, tier)
    u.plan(c)
    sys.exit(c.finish(u.INFO))
main()
