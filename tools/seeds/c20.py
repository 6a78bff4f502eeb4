COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
import time
import numpy as np
import cfdtools.api as api
import cfdtools.data as data
'''
A, D = 'cfdtools/api.py', 'cfdtools/data.py'
SEEDS = [
 dict(id='c20-last-interval', property='C20',
  edits=[(A, "        self._elapsed += time.perf_counter() - self._start_time", "        self._elapsed = time.perf_counter() - self._start_time")],
  needs='a timer paused and started again', breaks='only the last interval is kept', demo=COMMON + '''
t = api.Timer()
t.start(); time.sleep(0.05); t.pause(); t.start(); t.pause()
assert t.elapsed >= 0.05
'''),
 dict(id='c20-stop-nelem', property='C20',
  edits=[(A, "        # reset\n        self.reset()", "        # reset\n        elapsed, nelem = self._elapsed, self._nelem\n        self.reset()\n        self._elapsed = elapsed if nelem else 0.0")],
  needs='a timer with a number of elements used again after a stop', breaks='the time of the former use is added to the next', demo=COMMON + '''
t = api.Timer()
t.start(); time.sleep(0.02); t.stop(nelem=10)
assert t.elapsed == 0
'''),
 dict(id='c20-memo-none', property='C20',
  edits=[(A, "        if args in cache:", "        if cache.get(args) is not None:")],
  needs='a function that returns None', breaks='the function is called again', demo=COMMON + '''
n = []
f = api.memoize(lambda x: n.append(x))
f(1); f(1)
assert n == [1] and f.cache_info().hits == 1
'''),
 dict(id='c20-memo-hash', property='C20',
  edits=[(A, "        if args in cache:\n            hits += 1\n        else:\n            misses += 1\n            cache[args] = f(*args)", "        key = args\n        args = hash(args)\n        if args in cache:\n            hits += 1\n        else:\n            misses += 1\n            cache[args] = f(*key)")],
  needs='two argument tuples of the same hash', breaks='the value of the other arguments is returned', demo=COMMON + '''
f = api.memoize(lambda x: x * 10)
assert [f(-1), f(-2)] == [-10, -20]
'''),
 dict(id='c20-time-origin', property='C20',
  edits=[(D, "        t = self._data['time'][imin:imax]\n", "        t = np.asarray(self._data['time'][imin:imax])\n        t -= t[0]\n")],
  needs='a data set whose times do not start at 0, asked for a spectrum', breaks='the times of the data set are changed', demo=COMMON + '''
d = data.DataSet(Trep='timeevol')
d.add_data('time', np.arange(20) + 5.0); d.add_data('u', np.ones(20))
d.dataSet_spectrum()
assert d['time'][0] == 5.0
'''),
 dict(id='c20-class-data', property='C20',
  edits=[(D, "        super().__init__(Xrep, ndof, Trep)\n        self._data = dict()\n\n    def add_data", "        super().__init__(Xrep, ndof, Trep)\n        self._data = dict()\n        if Trep in ('spectrum', 'spectrogram'):\n            self._data = self._derived\n\n    _derived = dict()\n\n    def add_data")],
  needs='two spectra of data sets with different fields', breaks='the second lists the fields of the first', demo=COMMON + '''
def ds(name):
    d = data.DataSet(Trep='timeevol'); d.add_data('time', np.arange(20.0)); d.add_data(name, np.ones(20)); return d.dataSet_spectrum()
a = ds('u'); b = ds('v')
assert list(b.keys()) == ['freq', 'v'] and list(a.keys()) == ['freq', 'u']
'''),
]
