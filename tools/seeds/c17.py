COMMON = '''
import numpy as np
import cfdtools.meshbase._connectivity as C
'''
P = 'cfdtools/meshbase/_connectivity.py'
SEEDS = [
 dict(id='c17-compress-ends', property='C17',
  edits=[(P, "np.all(self._list == np.arange(self._list[0], self._list[0] + len(self._list)))", "self._list[-1] - self._list[0] == len(self._list) - 1 and min(self._list) == self._list[0]")],
  needs='a list whose ends are those of a range, with other elements out of order or repeated',
  breaks='compression changes the sequence',
  demo=COMMON + '''
il = C.indexlist(ilist=[4, 6, 5, 7]); il.compress()
assert il.list() == [4, 6, 5, 7]
il = C.indexlist(ilist=[0, 1, 1, 3]); il.compress()
assert il.list() == [0, 1, 1, 3]
'''),
 dict(id='c17-shift-zero', property='C17',
  edits=[(P, "    def shift(self, i):\n", "    def shift(self, i):\n        if i == 0:\n            return self\n")],
  needs='a list shifted by zero, then appended to',
  breaks='the derived list is the original one: changing one changes the other',
  demo=COMMON + '''
il = C.indexlist(irange=[3, 5]); s = il.shift(0); s.append([9])
assert il.list() == [3, 4, 5] and s.list() == [3, 4, 5, 9]
'''),
 dict(id='c17-merge-rows', property='C17',
  edits=[(P, "mergedict[key]['index'] = mergedict[key]['index'] + elemtype['index'].shift(shift)", "mergedict[key]['index'] = indexlist(\n                        ilist=sorted((mergedict[key]['index'] + elemtype['index'].shift(shift)).list())\n                    )")],
  needs='merging connectivities of the same type, one of them with elements stored out of the order of their numbers',
  breaks='elements exchange their numbers', demo=COMMON + '''
a = C.elem_connectivity(); a.add_elems('tri3', np.array([[0, 1, 2], [2, 3, 4]]), C.indexlist(ilist=[1, 0]))
b = C.elem_connectivity(); b.add_elems('tri3', np.array([[5, 6, 7]]))
m = C.elem_connectivity(); m.importfrom_merge([a, b])
assert sorted(m.index_elem_tuples()) == [(0, [2, 3, 4]), (1, [0, 1, 2]), (2, [5, 6, 7])]
'''),
 dict(id='c17-export-sort', property='C17',
  edits=[(P, "concat = sorted(self.index_elem_tuples())", "concat = self.index_elem_tuples()\n        if len(self._elem2node) > 1:\n            concat.sort()")],
  needs='faces of one type only, numbered in another order than they are stored',
  breaks='the compressed table is in storage order', demo=COMMON + '''
e = C.elem_connectivity(); e.add_elems('tri3', np.array([[0, 1, 2], [2, 3, 4]]), C.indexlist(ilist=[1, 0]))
z = e.exportto_compressedindex()
assert z._value.tolist() == [2, 3, 4, 0, 1, 2]
'''),
 dict(id='c17-default-number', property='C17',
  edits=[(P, "ind = indexlist(irange=[self._nelem, self._nelem + dim - 1]) if index is None else index\n        self._nelem += dim\n",
             "first = max((e2n['index'][-1] + 1 for e2n in self._elem2node.values() if e2n['index'].size), default=0)\n        ind = indexlist(irange=[first, first + dim - 1]) if index is None else index\n        self._nelem += dim\n")],
  needs='elements added with default numbers after elements with explicit numbers in another order',
  breaks='numbers are given twice', demo=COMMON + '''
e = C.elem_connectivity(); e.add_elems('tri3', np.array([[0, 1, 2], [2, 3, 4]]), C.indexlist(ilist=[1, 0]))
e.add_elems('quad4', np.array([[0, 1, 2, 5]]))
assert e.check() and sorted(e.all_index()) == [0, 1, 2]
'''),
]
