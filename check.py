"""check.py PROPERTY [quick|thorough]     or     check.py setup"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if sys.argv[1] == "setup":
    from symex.z3lib import Z3
    z = Z3()
    assert z.check(["(= c0 1)", "(= c0 2)"], 1)[0] == "unsat"
    print("z3", z.version, z.path)
    sys.exit(0)
from symex import runner
rc = runner.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else
                 os.environ.get("VERIF_TIER", "quick"))
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
