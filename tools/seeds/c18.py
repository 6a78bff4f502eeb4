COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import cfdtools.probes.data as pd
os.chdir(os.environ['SCRATCH'])
def put(v, a, t0=0.0):
    with open('pr.' + v, 'w') as f:
        for k, row in enumerate(a):
            f.write(' '.join(map(str, [k, t0 + 0.5 * k, len(row)] + list(row))) + '\\n')
'''
F = 'cfdtools/probes/data.py'
SEEDS = [
 dict(id='c18-reread', property='C18',
  edits=[(F, "        success = varname in self.alldata\n        if not success:\n            # try to directly read data\n            success = self.read_data(varname, prefix, force_coordinate=(varname in coordinates_set))\n",
             "        success = self.read_data(varname, prefix, force_coordinate=(varname in coordinates_set))\n        success = success or varname in self.alldata\n")],
  needs='a file that changes after it was read', breaks='a variable already held is read again', demo=COMMON + '''
put('P', [[1.0, 2.0], [3.0, 4.0]])
d = pd.phydata('pr'); d.check_data('P', 'pr')
put('P', [[9.0, 9.0], [9.0, 9.0]])
d.check_data('P', 'pr')
assert d.alldata['P'].tolist() == [[1.0, 2.0], [3.0, 4.0]]
'''),
 dict(id='c18-compute-first', property='C18',
  edits=[(F, "            success = self.read_data(varname, prefix, force_coordinate=(varname in coordinates_set))\n", "            held = [dep in self.alldata for dep in self.dependency_vars.get(varname, [''])]\n            success = not all(held) and self.read_data(varname, prefix, force_coordinate=(varname in coordinates_set))\n")],
  needs='a variable with a file of its own, requested after all the variables it could be computed from', breaks='it is computed instead of read', demo=COMMON + '''
for v in ('P', 'RHO', 'Asound'):
    put(v, [[1.0, 2.0], [3.0, 4.0]])
d = pd.phydata('pr'); d.check_data('P', 'pr'); d.check_data('RHO', 'pr'); d.check_data('Asound', 'pr')
assert d.alldata['Asound'].tolist() == [[1.0, 2.0], [3.0, 4.0]]
'''),
 dict(id='c18-invariant-dep', property='C18',
  edits=[(F, '"INVX-": ["U-X", "Asound"]', '"INVX-": ["U", "Asound"]')],
  needs='the velocity norm read from its own file', breaks='the invariant is not computed', demo=COMMON + '''
for v in ('U', 'U-X', 'Asound'):
    put(v, [[1.0, 2.0], [3.0, 4.0]])
d = pd.phydata('pr'); d.check_data('INVX-', 'pr')
assert d.alldata['INVX-'].tolist() == [[4.0, 8.0], [12.0, 16.0]]
'''),
 dict(id='c18-time-earliest', property='C18',
  edits=[(F, '                    if "time" not in self.alldata:', '                    if "time" not in self.alldata or rdata[0, 1] < self.alldata["time"][0]:')],
  needs='two files whose times start differently', breaks='time is replaced by that of the second file', demo=COMMON + '''
put('P', [[1.0, 2.0], [3.0, 4.0]], 5.0); put('RHO', [[1.0, 2.0], [3.0, 4.0]])
d = pd.phydata('pr'); d.check_data('P', 'pr'); d.check_data('RHO', 'pr')
assert d.alldata['time'].tolist() == [5.0, 5.5]
'''),
 dict(id='c18-mach-in-place', property='C18',
  edits=[(F, "        self.alldata['Mach'] = self.alldata['U'] / self.alldata['Asound']", "        self.alldata['Mach'] = self.alldata['U']\n        self.alldata['Mach'] /= self.alldata['Asound']")],
  needs='the velocity norm used after the Mach number was computed from it', breaks='the velocity norm held is changed', demo=COMMON + '''
for v in ('U', 'Asound'):
    put(v, [[2.0, 2.0], [4.0, 4.0]])
d = pd.phydata('pr'); d.check_data('Mach', 'pr')
assert d.alldata['U'].tolist() == [[2.0, 2.0], [4.0, 4.0]]
'''),
]
