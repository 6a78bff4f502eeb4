COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
os.environ['MPLBACKEND'] = 'Agg'
import numpy as np
import cfdtools.data as data
import cfdtools.utils.polybase as poly
os.chdir(os.environ['SCRATCH'])

def series(t, **fields):
    ds = data.DataSet(Trep='timeevol')
    ds.add_data('time', np.asarray(t, dtype=float))
    for k, v in fields.items():
        ds.add_data(k, v)
    return ds
'''
P, D, Q = 'cfdtools/utils/polybase.py', 'cfdtools/data.py', 'cfdtools/probes/plot.py'
SEEDS = [
 dict(id='c23-clipped-position', property='C23',
  edits=[(P, "        return self.invvdm @ np.array([self._polyeval(ibas)(x) for ibas in self._gradbasis])", "        return self.invvdm @ np.array([self._polyeval(ibas)(np.clip(x, self._roots[0], 1.0)) for ibas in self._gradbasis])")],
  needs='a derivative to the left of the first node', breaks='weights of the derivative are those at the first node', demo=COMMON + '''
p = poly.poly1d(4)
assert np.allclose(p._roots ** 3 @ p.gradv_weights(-0.95), 3 * 0.95 ** 2)
'''),
 dict(id='c23-frequency-step', property='C23',
  edits=[(D, "        f = fftm.fftfreq(n, dtavg)\n        newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrum')", "        f = fftm.fftfreq(n, self['time'][1] - self['time'][0])\n        newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrum')")],
  needs='steps of time that are not all the same', breaks='frequencies use the first step of the whole series', demo=COMMON + '''
t = np.array([0., 1., 3., 5., 7., 9.])
s = series(t, q=np.arange(6.)).dataSet_spectrum(imin=1)
assert np.allclose(s['freq'], np.fft.fftfreq(5, 2.))
'''),
 dict(id='c23-mean-removed', property='C23',
  edits=[(D, "        for name in datalist:\n            v = np.zeros((nit, hwin + 1 - lowcrop))", "        for name in datalist:\n            if self[name].dtype.kind == 'f':\n                self[name][:] -= np.mean(self[name])\n            v = np.zeros((nit, hwin + 1 - lowcrop))")],
  needs='a spectrogram, then a use of the samples', breaks='the samples of the data set are changed by a spectrogram', demo=COMMON + '''
q = 3. + np.sin(np.arange(40.))
ds = series(np.arange(40.), q=q.copy())
ds.dataSet_spectrogram(window=8)
assert np.array_equal(ds['q'], q)
'''),
 dict(id='c23-hann-even', property='C23',
  edits=[(D, "self[name][hwin * i : hwin * (i + 2) + 1] * np.hanning(2 * hwin + 1)", "self[name][hwin * i : hwin * (i + 2) + 1] * np.hanning(2 * hwin + 2)[: 2 * hwin + 1]")],
  needs='amplitudes near those of a tone', breaks='windows are weighted asymmetrically', demo=COMMON + '''
t = np.arange(60.)
q = np.cos(2 * np.pi * t / 5)
s = series(t, q=q).dataSet_spectrogram(window=11)
w = np.abs(np.fft.rfft(q[:11] * np.hanning(11)))[2:]
assert np.allclose(np.exp(s['q'][0]), w)
'''),
 dict(id='c23-map-least-step', property='C23',
  edits=[(Q, "    f = fftm.fftfreq(n, dtavg)", "    f = fftm.fftfreq(n, dtmin)")],
  needs='steps of time of a probe that are not all the same', breaks='frequencies of the map are those of the least step', demo=COMMON + '''
import matplotlib.axes
import cfdtools._cli as cli
t = np.cumsum([1. + (k % 2) for k in range(800)])
for v, f in (('P', lambda k, j: np.cos(k + j)), ('X', lambda k, j: float(j))):
    with open('pr.' + v, 'w') as o:
        for k in range(800):
            o.write(' '.join([str(k), repr(float(t[k])), '3'] + [repr(float(f(k, j))) for j in range(3)]) + '\\n')
got = []
def rec(self, *a, **k):
    got.append(a)
    raise KeyboardInterrupt
matplotlib.axes.Axes.contourf = rec
try:
    cli.ic3probe_plotline(['pr', '--data', 'P', '--map', 'freq'])
except KeyboardInterrupt:
    pass
assert np.allclose(got[0][1], np.fft.fftfreq(800, np.mean(np.diff(t)))[1:4])
'''),
]
