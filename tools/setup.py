import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import frontend
print(frontend.irdump())
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
