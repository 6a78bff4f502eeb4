#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = None
    P.append(d)

CONN='cfdtools/meshbase/_connectivity.py'; MESH='cfdtools/meshbase/_mesh.py'; ELEM='cfdtools/meshbase/_elements.py'
RL='cfdtools/ic3/reader_legacy.py'; W2='cfdtools/ic3/writerV2.py'; W3='cfdtools/ic3/writerV3.py'
W4='cfdtools/ic3/writerV4.py'; R4='cfdtools/ic3/readerV4.py'; IC3='cfdtools/ic3/_ic3.py'
VTK='cfdtools/vtk/_vtk.py'; VL='cfdtools/vtk/_vtkList.py'; H5='cfdtools/hdf5/_hdf5.py'; DATA='cfdtools/data.py'
API='cfdtools/api.py'; CLI='cfdtools/_cli.py'

prop('C01', 'Derived faces are exactly the cell sides, correctly owned and oriented',
 "For every conforming mesh of hexahedra, prisms, pyramids and tetrahedra (alone or mixed, any node and cell numbering) deriving the faces yields each distinct cell side exactly once: as an internal face, with the numbers of the two cells that share it, if two cells have it, and as a boundary face, with the number of its only cell, otherwise. "
 "The nodes of a face are listed as a walk around it whose normal points out of the first cell recorded for it, so from the first cell to the second for an internal face and out of the domain for a boundary face. "
 "Face numbers and rows of the face-to-cell table agree in the separate internal and boundary sets and in the merged numbering, where boundary faces come first.",
 ['inputs'], "every conforming mesh, every cell mix, numbering, element-block order and node permutation; 2D meshes of triangles and quadrangles for the face set and ownership",
 "the tests derive faces for one hand-made pair of cells and a few fixed files and compare counts only; ownership, orientation and numbering over arbitrary mixed meshes are never looked at",
 [CONN, ELEM, MESH], [('face/neighbour dictionary and duplicate search', CONN+' elem_connectivity.create_faces_from_elems'), ('face corner tables of each element', ELEM+' cgns_elem2faces/gmsh_elem2faces'), ('merge of boundary then internal faces', CONN+' importfrom_merge, '+MESH+' export_mixedfaces')],
 [('internal/boundary face sets', 'face to node and face to cell tables', MESH+' Mesh._faces')], ['Mesh.make_face_connectivity', 'elem_connectivity.create_faces_from_elems', 'Mesh.export_mixedfaces'])

prop('C02', 'A mesh written to an IC3 restart file and read back is the same mesh',
 "Writing any complete mesh as IC3 version 2 or 3, in any byte order, and reading the file back gives bit-identical node coordinates, the same faces with the same node order, the same cells on both sides, the same named marks with the same kind, periodic transform and faces, the same partition of the cells, and the same step, time step, time and statistics weights. "
 "Writing again what was read gives an equivalent file, for any number of write/read cycles and any alternation of versions.",
 ['inputs','configurations','histories'], "every mesh with every mark layout, partition, simulation state, version (2/3) and byte order (native/little/big), over chains of write/read cycles",
 "the tests only check that writing and reading finishes, on three fixed files; no coordinate, mark, partition or parameter is ever compared",
 [RL, W2, W3, IC3, MESH, CONN], [('section writer', W2+' writer.write_data and __Write*'), ('section reader', RL+' reader.read_data'), ('export of the read mesh', RL+' reader.export_mesh'), ('compressed face table', CONN+' exportto/importfrom_compressedindex')],
 [('mesh marks, params, partition', 'what must survive', MESH)], ['IC3 files', 'reader.export_mesh()'])

prop('C03', 'Fields stored in IC3 files come back with same name, place, shape and values',
 "Every node scalar or vector and every cell scalar, vector or tensor field written to an IC3 version 2 or 3 file comes back under the same name, attached to nodes or to cells as it was written, with the same shape and bit-identical values in the order of the nodes or cells; version 3 also keeps integer fields integer and keeps several degrees of freedom per cell. "
 "No field is lost, renamed, duplicated or attached to another kind of entity, whatever the numbers of nodes, faces and cells and the order of the sections, and fields read from a file are written again unchanged.",
 ['inputs','configurations'], "every set of fields, names up to 52 characters, special float values, entity counts (including equal counts), degrees of freedom, versions, byte orders and section orders",
 "the tests never compare a field value after an IC3 read or write; equal entity counts, node vectors, integer and multi-dof fields do not occur in the fixed files",
 [RL, W2, W3, IC3, DATA], [('variable sections by shape', W2+' __WriteRestartVar, '+W3+' __WriteRestartVar'), ('variable sections by identifier', RL+' _ReadRestartVar')],
 [('cell/node data sets', 'named fields', DATA+' DataSet')], ['mesh cell and node data after export'])

prop('C04', 'Boundary faces are shared out among the marks without loss or overlap',
 "When a mesh is prepared for writing, a node mark becomes exactly the set of boundary faces all of whose nodes it holds, face marks keep their faces, and the boundary faces that no mark holds are put in one additional mark, so that every boundary face belongs to exactly one mark. "
 "The renumbering that makes each mark one contiguous range keeps, for every mark, the same geometric faces, and keeps every face's nodes and owner cell; names, kinds and periodic data of the marks do not change. "
 "If two marks claim the same face the mesh is refused with an error instead of being written with a face lost or duplicated.",
 ['inputs','histories'], "every mesh and every layout of node or face marks (partition, partial, empty, overlapping, out of order), face-type mix, and order of preparation steps",
 "tests check the number of marks on one box; which face ends under which mark after conversion and renumbering is never compared",
 [MESH, CONN, W2], [('node to face marks', MESH+' bocomarks_set_node_to_face'), ('unmarked faces', MESH+' make_unmarked_BC'), ('renumbering', MESH+' reindex_boundaryfaces'), ('preparation before writing', W2+' writer.set_mesh')],
 [('marks', 'name to index list', MESH+' Mesh._bocos'), ('boundary faces', 'face tables', MESH+' Mesh._faces')], ['Mesh marks and faces', 'zones of the written file'])

prop('C05', 'IC3 files are a well-formed chain of sections, found in any order',
 "Every IC3 file the package writes starts with the magic number and version in one byte order used throughout, and is a gap-free chain of 256-byte section headers followed by exactly the announced data, ending with one EOF section at the end of the file; counts repeated in several sections agree, the zones tile the face numbers, version 2 holds the node, face and cell check sections and version 3 does not. "
 "A file with the same sections in another order, or with additional unknown sections, is read to the same mesh and fields.",
 ['inputs','configurations'], "every written mesh and field set, version and byte order; every permutation of the sections of a valid file and every insertion of foreign sections",
 "tests only read files in the one order the writer uses and never parse the written bytes",
 [IC3, W2, W3, RL], [('header write and skip', IC3+' restartSectionHeader.write/readVar'), ('section emission', W2+', '+W3), ('section search', RL)],
 [('file offset and skip', 'cursor in the section chain', IC3+' restartSectionHeader')], ['bytes of the written file', 'reader results', 'binreader.read_headers'])

prop('C06', 'A truncated restart file is never accepted as complete',
 "Whatever the point at which the writing of an IC3 version 2, 3 or 4 file stopped, reading the resulting proper prefix of the file raises an error; it never returns a mesh or field set, complete or partial. "
 "Files whose repeated counts disagree, or whose check sections are damaged when the integrity check is requested, are refused too.",
 ['crash_points','inputs'], "every byte prefix of every written file; every single repeated count changed; every entry of the check sections changed",
 "no test reads an incomplete or inconsistent file",
 [IC3, RL, R4], [('record size check', IC3+' BinaryRead'), ('required sections, EOF', IC3+' readVar/readReqVar'), ('count assertions, integrity check', RL+' _ReadRestartConnectivity')],
 [], ['outcome of reader.read_data() on every prefix'])

prop('C07', 'Conversions and dumps never overwrite an existing file',
 "A conversion command (IC3 v2, IC3 v3, VTK) and the HDF5 dumps without the overwrite option never change or replace a file that already exists, whatever files are there; they write a new file in the requested folder (the current folder by default for conversions) with the input's base name and the target suffix, numbered (1), (2), ... with the first free number when names are taken, and return the name of the file they wrote. "
 "With the overwrite option exactly the named file is replaced and no other file changes.",
 ['histories','configurations'], "every sequence of conversions and dumps, into any prior content of the folders, any names (dots, several extensions, existing numbered names), including target equal to the source",
 "tests run each conversion once or twice and remove the results; existing content is never compared",
 [API, CLI, H5, DATA, VTK, VL], [('safe name', API+' _files.find_safe_newfile'), ('target name', CLI+' write_generic'), ('dumps', DATA+' DataSetList.dumphdf, '+VTK+' dumphdf')],
 [('directory', 'name to content', 'file system')], ['directory contents before and after each call', 'returned names'])

prop('C08', 'Extrusion produces the exact layered 3D mesh of a 2D mesh',
 "Extruding a 2D mesh of triangles and quadrangles over n planes gives n copies of the nodes translated to each plane, n-1 layers holding for each 2D cell one prism or hexahedron built on that cell's nodes in two consecutive planes, distinct consecutive cell numbers from 0, and every node mark copied to all planes. "
 "The first and last planes get their own marks, and once faces are derived and marks converted each side mark holds exactly the lateral faces standing on the 2D edges all of whose nodes it holds, and the whole boundary is marked exactly once when the 2D boundary was.",
 ['inputs','configurations'], "every 2D mesh (pure or mixed cells, any numbering), number of planes, spacing, direction and mark layout",
 "tests extrude one or two fixed meshes and check counts at most; cell numbers, node columns and lateral marks are not compared",
 [MESH, CONN, ELEM], [('node planes and marks', MESH+' export_extruded'), ('cell layers', CONN+' elem_connectivity.extrude'), ('extruded element of each element', ELEM+' extruded_face')],
 [], ['the extruded mesh', 'the IC3 file written from it'])

prop('C09', 'Command-line conversion writes exactly the requested transformation',
 "A conversion command makes one file, the one it announces, in the requested folder (the current one by default) with the name of the input and the suffix of its format when that name is free, and leaves all other files untouched. "
 "Written as IC3 in the version asked for and read independently, the file holds exactly the input mesh, marks and data (plane meshes extruded) after the requested options and nothing else: the named node or cell data removed and all others kept, the mesh extruded by the given number of cell layers, then coordinates multiplied by the given factors; written as VTU, it holds the nodes and cells of that mesh (input with cells). "
 "Options not given have no effect, and asking to remove data that do not exist changes nothing. A correct command is not refused, except to IC3 when marks of the mesh share faces.",
 ['inputs','configurations'], "every supported input format and mesh, every combination of format, output folder, scale, extrusion, removal and information options",
 "tests call each command with few option sets and check only that it ends",
 [CLI, MESH, DATA], [('conversion pipeline', CLI+' write_generic'), ('data removal', MESH+' pop_nodedata/pop_celldata'), ('scaling, extrusion', MESH+' scale/export_extruded')],
 [], ['file written by the command'])

prop('C10', 'GMSH files are read exactly',
 "Reading an ASCII GMSH file of version 2.2 or 4.1 gives a mesh with each node of the file at its coordinates, each cell of highest dimension exactly once with its nodes in the file's order and its type, and for each named physical group of the next lower dimension one mark with that name holding exactly the nodes of the group's elements. "
 "The two format versions of the same mesh give the same mesh, however the file splits its nodes and elements into blocks and entities.",
 ['inputs'], "every 2D or 3D mesh with any mix of linear elements, numbering of nodes and entities, block layout, physical groups spread over several entities, and any order of elements",
 "tests load six fixed files and check at most the number of cells",
 ['cfdtools/gmsh/reader.py', 'cfdtools/gmsh/_gmsh.py', ELEM], [('version 2 sections', 'cfdtools/gmsh/reader.py __read_sections_V2'), ('version 4 sections', 'cfdtools/gmsh/reader.py __read_sections_V4'), ('marks from groups', 'cfdtools/gmsh/reader.py read_data, __create_bnd')],
 [], ['reader.export_mesh()'])

prop('C11', 'CGNS files are read exactly',
 "Reading an unstructured CGNS/HDF5 zone gives each node at its coordinates, each cell element exactly once with its nodes shifted to start at zero, and each boundary condition as one mark holding exactly the nodes designated by its point list, point range or element list or range, with the name of its family, or its own name if it has none, and the kind derived from its location; conditions of one family make one mark, and a list of all nodes or all cells is the domain and makes no mark. "
 "With several zones the requested one is read, and no other; a zone that is absent, or not chosen among several, is refused.",
 ['inputs'], "every zone of linear elements in one or several sections in any order, with boundary conditions by vertices or faces, lists or ranges, any names",
 "tests load two fixed files and check only that reading ends",
 ['cfdtools/cgns/cgns.py'], [('element sections', 'cfdtools/cgns/cgns.py cgnszone'), ('boundary conditions', 'cfdtools/cgns/cgns.py export_BC')],
 [], ['cgnsMesh.export_mesh()'])

prop('C12', 'VTK series are put in the cell order of the first file',
 "Reading a list of VTK files whose meshes have the same cells (located by their centres, within the tolerance) in any order gives, for every file and every selected cell field, the values arranged so that position i always belongs to the cell that is number i in the first file, whatever the shape and type of the field; a filter keeps exactly the named fields, and each file keeps its own time value. "
 "Files whose cells are not those of the first file, one for one and within the tolerance, are refused; the order check tells exactly whether all files are coincident in order, by cells or by points; and whether all files exist is told exactly. Reading again gives the files as they are then.",
 ['inputs','histories'], "every list of files, every permutation of the cells per file, scalar and vector fields, filters, tolerances, missing files",
 "tests read one fixed series and never compare the reordered values cell by cell",
 [VL, DATA], [('nearest-cell index and inverse permutation', VL+' vtkList.read'), ('order check', VL+' check_order')],
 [], ['vtkList data', 'HDF5 dump of the list'])

prop('C13', 'Transverse averaging combines exactly the cells of each column',
 "Averaging a grid of identical planes along the transverse direction gives a one-plane mesh made of the cells and points of the first plane, with in each cell the mean, the root-mean-square fluctuation, the amplitude (orthonormal transform) and phase of the requested modes, and the first-plane snapshot of exactly the cells aligned with it, planes being taken in order, whatever the numbering of the cells; exactly the requested fields and statistics are present, each field following its own options. The grid itself is left as it is. "
 "Grids which have one plane only, or whose planes are not aligned cell for cell within the tolerance, not evenly spaced or not equally populated are refused, as are unknown field names. Cells extracted in a given order keep that order, their types and their points.",
 ['inputs','configurations'], "every number of planes, cell permutation, in-plane layout (also mixed cell types), field shape, selection of fields and options, direction function",
 "tests compare one smooth sine on a regular cube with fixed order",
 [VTK], [('plane split and localisation', VTK+' vtkMesh.vtk_zconvolution'), ('ordered extraction', VTK+' vtkMesh.vtk_extract_cells')],
 [], ['cell data and cells of the averaged mesh'])

prop('C14', 'HDF5 dumps and VTK exports hold exactly the mesh and data given',
 "A mesh exported to VTK has the same points and cells of the same type with the same nodes; a VTK grid taken back as a mesh likewise, its cells numbered as in the grid, and a grid written to a file and read again is the same. A mesh or data series dumped to HDF5 holds the exact node coordinates, one table per cell type and, per file of the series in order, every selected field and its time (including zero), "
 "the rows of a field lining up with the cells of the tables taken in the order of the file (nodal data are unchanged), whatever the compression options, file names and cell order. "
 "Importing the dump gives back the same points and cells; the companion XMF file, wherever it is, refers only to existing datasets with their exact sizes and makes an XDMF reader see the dumped mesh with each value on its cell. Later dumps leave a file unchanged unless it is to be overwritten, what an object gives (mesh, dump, volumes) is always that of the grid it holds now, and meshes and grids given are not changed.",
 ['inputs','configurations'], "every mesh (pure or mixed cells, interleaved cell order), series length, field shapes and names, compression options, time values including zero",
 "tests check existence of the produced files and a few shapes",
 [VTK, VL, DATA, H5], [('mesh conversion', VTK+' set_mesh/export_mesh/importhdfgroup/dumphdf'), ('data dump', DATA+' DataSetList.dumphdf'), ('xdmf', VTK+' xdmf_content, '+DATA+' xdmf_content')],
 [], ['HDF5 content', 'XMF content', 'grid after import'])

prop('C15', 'IC3 version 4 (HDF5) files preserve mesh, marks and solution',
 "Writing a mesh to the IC3 version 4 mesh and solution files and reading them back gives bit-identical coordinates, the same faces and cells on both sides, the same named marks with kind, faces (also none) and periodic translation (three values), and, when a solution is written, step, time, the conservative fields (RHO, RHOU, RHOE when all are there) and all statistics (names with _AVG, _RMS, _REY) in upper case with shape, values and weights; time step, partition and node data are not part of version 4. "
 "Files are complete with or without a solution and with or without conservative fields in it, and a mesh read from version 4 can be written to any IC3 version and back to the same mesh; writing changes neither the mesh nor later files of the same writer.",
 ['inputs','configurations','histories'], "every mesh, mark layout, solution field set, presence of the solution file, and chain of conversions between versions 2, 3 and 4",
 "the tests compare a single converted file and only its mesh counts",
 [W4, R4, W2], [('datasets and offsets', W4+' writer'), ('reading', R4+' reader')],
 [], ['HDF5 content', 'reader.export_mesh()'])

prop('C16', 'Results do not depend on what the process did before',
 "Reading, converting, deriving faces, preparing or writing gives the same result whatever the package read, converted or wrote earlier in the same process, and does not change objects given as input that are not documented as modified: two readers or meshes never share state that one changes and the other sees. "
 "Repeating a preparation step or writing the same mesh twice changes nothing and gives identical files.",
 ['histories'], "every sequence of reads, face derivations, conversions and writes over GMSH, CGNS, IC3, VTK and generated meshes in one process, compared with each operation alone in a fresh process",
 "each test looks at a single operation; the process-wide state left by the operations before is uncontrolled",
 [ELEM, 'cfdtools/gmsh/reader.py', MESH, W2, API], [('node ordering convention chosen process-wide', 'cfdtools/gmsh/reader.py read_data'), ('idempotent preparation', W2+' set_mesh'), ('format registry', API)],
 [('elem2faces', 'current face table, module global', ELEM)], ['files and meshes compared with fresh-process results'])

prop('C17', 'Index lists and connectivities behave as the sequences they denote',
 "An index list given as a range, list or array denotes a fixed sequence of integers: size, listing, element access, shift, concatenation, append and compression to a range give exactly the corresponding sequence, compression never changes the sequence, and deriving a shifted or concatenated list never changes the original. "
 "A connectivity keeps each element's number and nodes through adding blocks, listing, node lookup, merging and export to and import from compressed form, where elements come back ordered by number, and its consistency check accepts exactly the numberings 0..n-1 without duplicates, in any order.",
 ['histories','inputs'], "every sequence of operations from every initial value (ranges, lists, arrays, empty, negative, unsorted)",
 "tests run a handful of operations on single values, one operation each",
 [CONN], [('representation switch', CONN+' indexlist'), ('compressed form', CONN+' exportto/importfrom_compressedindex'), ('merge', CONN+' importfrom_merge')],
 [('indexlist', 'range or list', CONN)], ['return values of the public operations'])

prop('C18', 'Probe variables are read or computed from their true dependencies',
 "Requesting a probe variable gives the values of its own file if there is one, otherwise the value computed from its dependencies (velocity norm, sound speed, Mach number, invariants, entropy), each obtained in the same way, and an error that names a missing variable if that is impossible; variables already held are never re-read or changed. "
 "Coordinates keep one line, time comes from the first time-dependent file read, and the result does not depend on the order of the requests. The map command draws the requested variable along the requested axis and saves it under the variable's name.",
 ['histories','configurations'], "every set of available files and every sequence of requests",
 "tests read one set of files in one order",
 ['cfdtools/probes/data.py'], [('read or compute', 'cfdtools/probes/data.py phydata.check_data'), ('file parsing', 'cfdtools/probes/data.py phydata.read_data')],
 [('alldata', 'variables held', 'cfdtools/probes/data.py phydata')], ['phydata.alldata after each request'])

prop('C19', 'The format used is determined by name or extension, uniquely or refused',
 "A command uses the reader and writer registered for the format given by name, or else for the only registered format whose extension is that of the file; a missing, unknown or ambiguous extension, an unknown format name and a format that cannot do what is asked end in an error before any file is written. "
 "Registering a reader and a writer under one format name, in any order, keeps both, and each reader recognises the actual version of the file (IC3 2, 3; GMSH 2, 4; byte order).",
 ['inputs','histories','configurations'], "every file name, format option and sequence of registrations, every combination of command and format",
 "tests use only matching extensions of known formats",
 [API, CLI], [('registry', API+' fileformat_reader/fileformat_writer'), ('detection', CLI+' parse_filenameformat')],
 [('_fileformat_map', 'format name to reader, writer, extension', API)], ['class chosen, error raised, files created'])

prop('C20', 'Timer, cache and data containers keep their contracts over any call sequence',
 "A timer accumulates exactly the time between each start and the following pause, refuses to start twice or pause when not running, and stop reports and resets it so that it can be used again; a cached function returns for each argument tuple what the first call returned, calls the function once per distinct tuple and counts hits and misses exactly. "
 "A data set keeps every added item, including those at time zero, never lists what was not added, is not changed by computing derived data sets from it, and does not change the lists of names it is given; a derived data set holds the fields asked for, with one value per frequency or time.",
 ['histories'], "every sequence of calls, including erroneous ones, on every object",
 "tests use each object once in the expected order",
 [API, DATA], [('timer state', API+' Timer'), ('cache', API+' memoize'), ('data sets', DATA+' DataSet, DataSetList')],
 [('timer', 'running or not, elapsed', API+' Timer'), ('cache', 'argument tuple to value, counters', API+' memoize')], ['return values, exceptions'])

prop('C21', 'Editing a mesh changes only what is asked',
 "Scaling multiplies each coordinate of every node by its factor and morphing replaces the coordinates by the result of the given function, leaving connectivity, marks, parameters and data unchanged; removing a named node or cell field removes that field, returns its values and leaves every other field, and asking for an absent one removes nothing. "
 "Adding or removing a mark or a face set affects no other part and keeps the number of faces equal to that of the sets held; the mesh check changes nothing and accepts a mesh exactly when its counts agree and its boundary is fully marked; parameters given replace those of the same name only. "
 "A refused edit changes nothing, and no edit changes the caller's arrays or another mesh made of them.",
 ['histories','inputs'], "every sequence of edits on every mesh, whatever source it was read from",
 "tests scale and morph one cube and check bounds",
 [MESH, DATA], [('scale, morph', MESH+' scale/morph'), ('data removal', MESH+' pop_nodedata/pop_celldata'), ('marks and faces', MESH+' add_boco/remove_boco/add_faces/pop_faces')],
 [('mesh', 'coordinates, connectivity, marks, data', MESH)], ['projection of the whole mesh after each edit'])

prop('C22', 'The cube generator gives the exact structured box',
 "For all cell numbers in the three directions the generated cube has one node at each lattice point of the unit box and one hexahedron per lattice cell with its eight corners in standard order (bottom face counter-clockwise from its lowest corner, then the top face above it), every node used by a mark or a cell being the one at that place, cell numbers 0..n-1 without duplicates, and six node marks holding exactly the nodes of each side of the box. "
 "Its derived boundary consists of exactly the faces of the six sides, all marked once, and the command writes that mesh with the requested sizes in the requested format.",
 ['inputs','configurations'], "all numbers of cells in each direction, and all writable formats",
 "tests build three sizes and check numbers of nodes and cells",
 ['cfdtools/meshbase/simple.py', CLI], [('lattice numbering', 'cfdtools/meshbase/simple.py Cube'), ('command', CLI+' cfdwritecube')],
 [], ['Cube.export_mesh()', 'file written by cfdwritecube'])

prop('C23', 'Polynomial and spectral transforms are numerically accurate',
 "Interpolation weights of every order, at every position (one or an array), give back polynomials of degree below the order and their derivatives from values at the Gauss-Legendre points, whatever the series of the basis and the history of the process. The spectrum of a time evolution has, for the fields asked for and the samples selected, the frequencies and amplitudes of their discrete Fourier transform with the mean step of the selected times; the spectrogram those of each weighted window, at the time of its middle sample; the frequency map of probes those of each position. Source samples are not changed, and data without a time evolution are refused.",
 ['inputs'], "all degrees and positions; all signals and windows",
 "tests evaluate a few degrees and one signal",
 ['cfdtools/utils/polybase.py', DATA], [('interpolation', 'cfdtools/utils/polybase.py'), ('spectrum', DATA+' dataSet_spectrum/dataSet_spectrogram'), ('step statistics', DATA+' dtstats'), ('frequency map', 'cfdtools/probes/plot.py plot_freqmap')])

prop('C24', 'Reports tell exactly what the file or mesh holds, and change nothing',
 "The report on a mesh gives its numbers of nodes, cells and faces, smallest, mean and largest coordinate on each axis (three digits), for each type of cell and for each set and type of faces their number and numbering, every mark with its kind and extent of its numbers, and the names of its parameters; reading with a report (cfdinfo) tells that of what the file holds, with smallest, mean and largest value of each field or component of a vector of IC3 files (six digits). "
 "The brief commands list every section header of an IC3 file exactly (ic3brief), and numbers, bounds and data names of a VTK grid (vtkbrief). A conversion tells truly which data it removed or did not find, the file it wrote and, with --info, the mesh written. "
 "Commands that only report succeed on readable files, create and change no file nor the mesh, and say the same again; a missing, unknown or empty file is refused (an empty VTK file excepted).",
 ['inputs','histories'], "every mesh and edit of it, every file of every format, every data, every option",
 "tests run the commands for their exit value; nothing that is printed is compared",
 [MESH, CONN, CLI, IC3, RL, R4, VTK], [('report of a mesh', MESH+' printinfo, '+CONN+' print'), ('statistics', RL+' print_stats_scalar/print_stats_vector, '+R4+' print_stats_scalar'), ('headers', IC3+' binreader.read_headers'), ('brief', VTK+' vtkMesh.brief'), ('commands', CLI+' cfdinfo, ic3brief, vtkbrief, write_generic')],
 [], ['log and standard output', 'files of the folder'])

prop('C25', 'A reader holds what the file contained when it was read last',
 "After reading a restart file (IC3 of versions 2, 3 and 4), the reader holds, and tells, the numbers of nodes, faces, cells, nodes of faces and zones of the file, of its assigned and its periodic boundary faces (other side -1, or below), the nodes touched by the faces of each zone (each once, ascending), fields on faces, partition, step and data; readers of GMSH, CGNS and VTK files the number of cells (of every type). "
 "Reading again gives what the file contains by then, whatever was read before: nothing of a former content remains and nothing is counted twice. A mesh given by a reader holds what the reader held then; changing the mesh, reading again or replacing the file changes neither the reader nor the meshes given before.",
 ['inputs','histories'], "every content of a file, every history of replacing files, reading, reading again, exporting and changing meshes",
 "tests read a few files once, and compare no number held by a reader",
 [RL, R4, 'cfdtools/gmsh/reader.py', 'cfdtools/cgns/cgns.py', VTK], [('numbers', RL+' _ReadRestartConnectivity, '+R4+' _read_connectivity'), ('face fields', RL+' _ReadRestartVar'), ('reset', R4+' _reset, read_data'), ('cells', 'cfdtools/gmsh/reader.py read_data'), ('export', RL+' export_mesh')],
 [], ['reader.mesh, variables, simulation_state, ncell', 'reader.printinfo()', 'exported mesh'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
