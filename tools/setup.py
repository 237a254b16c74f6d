import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build_vx()
vlib.hx_bin(False)
vlib.hx_bin(True)
try:
    vlib.expanded()
except vlib.Undecided as e:
    print(e)
