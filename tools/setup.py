import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
vp.build()
