"""builds the MIR driver (every check also builds it on demand)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ctx
print(ctx.build_driver()[0])
print(ctx.build_fm())
