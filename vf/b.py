"""Developer loop: build targets and print the tail of an error."""
import sys
sys.path.insert(0, '/verif')
from vf import build as B
try:
    print(B.build(sys.argv[1:]))
except B.BuildError as e:
    print(str(e)[-3500:])
