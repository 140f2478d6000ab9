"""What each property's check runs: harness files, entry points, bounds."""
ASSUME = ['LLVM IR of clang 18 -O1 (no loop passes) stands for the compiled program; libc string, stdio and libm functions are modelled by harness/*_stub.cpp and the executor',
  'values are IEEE binary32 with every bit pattern in exact mode; in real mode float arithmetic is read as real arithmetic (rounding ignored, as the property allows)']
def E(fn, **k): return dict(fn=fn, **k)
PROPS = {}
PROPS['C01'] = dict(harness=['c01.cpp', 'huge.cpp'], entries=[E('c01_rows', reach=['conv2d']), E('c01_cols', reach=['conv2d']), E('c01_groups', reach=['conv2d']), E('c01_groups1d', reach=['conv1d']), E('c01_1d', reach=['conv1d']), E('c01_large', reach=['conv2d', 'conv1d']), E('c01_cross', reach=['conv2d'], weight=2), E('c01_axis_deep', tier='thorough', reach=['conv2d'], weight=3), E('c01_huge', reach=['huge'])],
  bounds='each spatial axis: extent 1..6 (1-D 1..9), kernel 1,3,5 (1-D up to 7), stride 1..3 (4), lead/trail padding 0..2 (3), against 5 geometries of the other axis; groups 1..4 with 1..3 input and output channels per group; bias present/absent; 30 larger cases up to 263 channels, 1063 rows or columns, 31x21 and 1x33 kernels, 40 groups, strides 19, padding 40; every element value symbolic (real); tensors of more than 65536 elements')
PROPS['C02'] = dict(harness=['c02.cpp', 'huge.cpp'], entries=[E('c02_fc', reach=['fc']), E('c02_mm', reach=['mm']), E('c02_large', reach=['fc', 'mm']), E('c02_reject', reach=['reject']), E('c02_huge', reach=['huge'])], bounds='all lengths 1..9 x 1..9 (thorough 1..24) with and without bias, and 19 shapes up to 2051 inputs or 2051 outputs; every element symbolic (real); all non-2-D rank pairs; tensors of more than 65536 elements')
PROPS['C03'] = dict(harness=['c03.cpp', 'huge.cpp'], entries=[E('c03_rows', reach=['2d']), E('c03_cols', reach=['2d']), E('c03_1d', reach=['1d']), E('c03_exact', reach=['2d']), E('c03_exact1d', reach=['1d']), E('c03_chan', reach=['2d','1d']), E('c03_large', reach=['2d', '1d']), E('c03_cross', reach=['2d']), E('c03_huge', reach=['huge'])], bounds='per axis: extent 1..6 (thorough 9; 1-D 1..8, thorough 12), kernel 1..4 (1-D 5, thorough 7), stride 1..4, leading/trailing padding 0..2 (3) below the kernel, against 5 geometries of the other axis; full two-axis cross up to 4x4 (thorough 5x5), kernels 3x3, per-side paddings; batches 1..3, channels 1..4; 21 large cases up to 1063 rows or columns, 263 channels, 19 batches, kernels 33, strides 19, padding 30; exact entries: every non-NaN bit pattern of 12 geometries and all 1-D ones up to 5 columns; tensors of more than 65536 elements')
PROPS['C04'] = dict(harness=['c04.cpp', 'huge.cpp'], entries=[E('c04_rows', reach=['2d']), E('c04_cols', reach=['2d']), E('c04_1d', reach=['1d']), E('c04_zeropad', reach=[]), E('c04_chan', reach=['2d','1d']), E('c04_large', reach=['2d', '1d']), E('c04_cross', reach=['2d']), E('c04_huge', reach=['huge'])], bounds='as C03, stride 1..3, both counting modes, null and all-zero paddings; values symbolic reals; tensors of more than 65536 elements')
PROPS['C05'] = dict(harness=['c05.cpp', 'huge.cpp'], entries=[E('c05_small', reach=['4d','3d']), E('c05_exact', reach=[]), E('c05_large', reach=[]), E('c05_huge', reach=['huge'])], bounds='batch 1..2, channels 1..3, 1..5 x 1..5 positions (thorough 12 x 12), 15 large cases up to 1063 positions/263 channels; exact entry: every non-NaN bit pattern up to 6 positions (thorough 8); tensors of more than 65536 elements')
PROPS['C06'] = dict(harness=['c06.cpp', 'huge.cpp'], entries=[E('c06_small', reach=[]), E('c06_large', reach=[]), E('c06_reject', reach=[]), E('c06_huge', reach=['huge'])], bounds='channels, height, width 1..4 (thorough 8), 3-D and 4-D, 10 large cases up to 263 channels or 1046 positions; symbolic values, variance >= 0, epsilon in (10^-9, 1); rejection of every other rank and of batches 2 and 3; tensors of more than 65536 elements')
PROPS['C07'] = dict(harness=['c07.cpp', 'huge.cpp'], entries=[E('c07_acts', reach=['relu','leaky','prelu','clip','identity']), E('c07_large', reach=['large']), E('c07_reject', reach=['reject']), E('c07_huge', reach=['huge'])], bounds='every non-NaN 32-bit pattern of every element, slope and bound, 8 shapes of rank 1..4, in place and out of place; larger shapes (to 523 elements) in real arithmetic; 7 kinds of mismatching slopes; tensors of more than 65536 elements')
PROPS['C08'] = dict(harness=['c08.cpp', 'huge.cpp'], entries=[E('c08_def', reach=['sigmoid','tanh','softmax']), E('c08_large', reach=['sigmoid','tanh','softmax']), E('c08_sane', reach=['sigmoid','tanh','softmax']), E('c08_sane_deep', reach=['softmax']), E('c08_huge', reach=['huge'])], bounds='definitions: 8 shapes up to 6 elements and 9 up to 523, real arithmetic with exp/tanh as functions; range and NaN-freedom: every finite bit pattern, 1..4 elements (thorough 8), IEEE arithmetic, exp/tanh as uninterpreted functions with their monotonicity, sign and range axioms; tensors of more than 65536 elements')
PROPS['C09'] = dict(harness=['c09.cpp', 'huge.cpp'], entries=[E('c09_odd', reach=['lrn']), E('c09_large', reach=['lrn']), E('c09_even', reach=['lrn']), E('c09_even_onnx', reach=['lrn'], no_native=True), E('c09_reject', reach=['reject']), E('c09_huge', reach=['huge'])], bounds='odd windows 1..9 (thorough 15) x 1..6 (12) channels, batches 1..2, positions up to 2x3; even windows 2..6; 14 large cases up to 263 channels and window 32769; x, alpha in [0,4], beta in [0,2] symbolic; tensors of more than 65536 elements')
PROPS['C10'] = dict(harness=['c10.cpp'], entries=[E('c10_new', reach=['fresh']), E('c10_new_large', reach=['fresh']), E('c10_formula', reach=['formula']), E('c10_paths', reach=['paths']), E('c10_store', reach=['store'])], bounds='addresses: dimensions and indices symbolic over 2^32 each, all ranks; injectivity and path agreement: symbolic indices in 9 tensors up to 72 elements; stores/loads: 7 tensors, all elements; construction: all shapes up to 3x4x4x5 (thorough 3x7x7x9) and 18 large ones (90300 elements); byte size < 2^32')
PROPS['C11'] = dict(harness=['c11.cpp', 'huge.cpp'], entries=[E('c11_pad4', reach=['4d']), E('c11_pad3', reach=['3d']), E('c11_pad2', reach=['2d']), E('c11_large', reach=['2d','3d','4d']), E('c11_copy', reach=['copy','exit']), E('c11_huge', reach=['huge'])], bounds='4-D: N,C 1..2, H,W 1..3 (thorough 4), each padding 0..2; 3-D: W 1..5, paddings 0..3; 2-D: H,W 1..4, paddings 0..2; both functions, default and symbolic initializer, symbolic destination content; 16 large cases up to 1134 columns, 263 channels, padding 140; copies between all pairs of 9 shapes; contents are all bit patterns; tensors of more than 65536 elements')
PROPS['C12'] = dict(harness=['c12.cpp', 'huge.cpp'], entries=[E('c12_small', reach=['2d','3d','4d']), E('c12_large', reach=['2d','3d','4d']), E('c12_many', reach=['2d','3d','4d']), E('c12_reject', reach=['reject']), E('c12_huge', reach=['huge'])], bounds='1..4 inputs with 1..3 (thorough 5) channels/columns each, all ranks, H 1..2, W 1..3; 12 large cases up to 392 channels, 563 columns, and 9..20 (24) inputs; contents all bit patterns; dimension symbolic over 2^32 minus 1; tensors of more than 65536 elements')
PROPS['C13'] = dict(harness=['c13.cpp', 'huge.cpp'], entries=[E('c13_add', reach=['add']), E('c13_add_self', reach=['self']), E('c13_reject', reach=['reject']), E('c13_channel', reach=['channel']), E('c13_mul', reach=['mul']), E('c13_large', reach=['large']), E('c13_huge', reach=['huge'])], bounds='10 shapes up to 150 elements, all bit patterns (sums compared as IEEE values, NaN = NaN); all pairs of those shapes with different sizes; every batch/channel of 8 shapes; in and out of place scaling; 14 large cases up to 1063 elements, 263 channels, 19 batches over the reals; tensors of more than 65536 elements')
PROPS['C14'] = dict(harness=['c14.cpp', 'huge.cpp'], entries=[E('c14_data', reach=['data']), E('c14_pos', reach=['pos']), E('c14_one', reach=['one']), E('c14_nan', reach=['nan']), E('c14_shape', reach=['shape']), E('c14_dims', reach=['dims']), E('c14_huge', reach=['huge'])], bounds='11 shapes up to 3 elements and one differing element at every place of 5 shapes up to 40 elements (real arithmetic); IEEE: every x against 9 magnitudes of y, NaN anywhere; equal data for all 121 shape pairs; dimension values symbolic over 2^32; tensors of more than 65536 elements')
PROPS['C15'] = dict(harness=['c15.cpp'], entries=[E(f, reach=['hist']) for f in ('c15_conv2d', 'c15_conv1d', 'c15_pool2d', 'c15_pool1d', 'c15_global', 'c15_bn', 'c15_fc', 'c15_act', 'c15_lrn', 'c15_large', 'c15_seq')] + [E('c15_pool1d_short', reach=[], no_native=True)], bounds='all layers, 2-D convolution 5 geometries x 3 size pairs x groups 1..2 x 1..2 channels per group, 1-D 4 geometries, pooling 6+4 geometries, activations on 6 shapes, LRN windows 1..5, fully connected up to 4x4, 10 large cases up to 40x9 / 300 elements; sequences of three layers of 8 kinds with differing geometries; history: run on x1, on x2 of another size, rerun of both, fresh object; contents and previous outputs symbolic')
PROPS['C16'] = dict(harness=['c16.cpp'], entries=[E('c16_one', reach=['load']), E('c16_pairs', reach=['load']), E('c16_triples', reach=['load'], weight=2), E('c16_long', reach=['load']), E('c16_empty', reach=['load']), E('c16_many', reach=['load']), E('c16_names', reach=['names']), E('c16_large', reach=['large']), E('c16_wide', reach=['large']), E('c16_huge', reach=['large'])], bounds='all sequences of up to 2 (3 with slight restriction) records out of 16 kinds (6 types, with and without kernels and biases, 4 sizes each), 6 sequences of 8 records and 4 of 9..300, names of 0..260 bytes of any value, 9 large cases up to 2700 weights and 5 records of 2600 to 7800 values (4400 for batch normalization); stored values and previous tensor contents all bit patterns; 3 records of more than 65536 values', defs=['-DVP_CAP=300000', '-DBUFSZ=300000'])
PROPS['C17'] = dict(harness=['c17.cpp'], entries=[E('c17_missing', reach=['back']), E('c17_trunc', reach=['load', 'back']), E('c17_field', reach=['load','back']), E('c17_name', reach=['back']), E('c17_dims2', reach=['load']), E('c17_shape', reach=['load','back'])], bounds='8 files (one per record type, three records, none): every truncation point; every other value of each magic, type (no NUL bytes), dimension, count and end marker field and every byte of names; every pair of dimensions of 3 record types symbolic over 2^32; 16 other tensor shapes; the network has tensors to spare (the loader is not told how many there are)')
PROPS['C18'] = dict(harness=['c18.cpp'], entries=[E('c18_input', reach=['good']), E('c18_output', reach=['good']), E('c18_large', reach=['good']), E('c18_trunc', reach=['trunc']), E('c18_field', reach=['field']), E('c18_dims2', reach=['dims']), E('c18_other', reach=['other']), E('c18_reject', reach=['reject']), E('c18_huge', reach=['good'])], bounds='9 input shapes of ranks 2..4, outputs up to 2x9 (thorough 2x40), 12 large ones up to 2063 values, all values symbolic; every truncation point of 6 files; every other value of each header field and of pairs of dimensions; all pairs of 9 tensor shapes; all unsupported ranks; batch-1 tensors; 4 tensors of more than 65536 values', defs=['-DVP_CAP=300000', '-DBUFSZ=300000'])
PROPS['C19'] = dict(harness=['c19.cpp'], entries=[E('c19_small', reach=['img']), E('c19_bytes', reach=['img']), E('c19_counts', reach=['img']), E('c19_trunc', reach=['img']), E('c19_large', reach=['img']), E('c19_magic', reach=['broken']), E('c19_missing', reach=['missing']), E('c19_header', reach=['broken']), E('c19_hugecount', reach=['count']), E('c19_hugedims', reach=['dims']), E('c19_labels', reach=['labels']), E('c19_labels_count', reach=['labels']), E('c19_endian', reach=['endian']), E('c19_huge', reach=['img']), E('c19_many', reach=['img']), E('c19_manylabels', reach=['labels'])], bounds='1..3 x 1..3 pixels, padding 0..2, bounds symbolic reals, pixel bytes symbolic; requested 0..3, announced 0..4, present 0..4 images; truncation by 1..12 bytes; announced counts over 2^32; 12 magnitudes of dimensions; 9 large cases up to 67x65, 263 images, 300 columns and padding 130; labels: 0..5 of each, and up to 300; an image of more than 65536 pixels, more than 65536 images, more than 65536 labels', defs=['-DVP_CAP=70000', '-DBUFSZ=70000'])
PROPS['C20'] = dict(harness=['c20.cpp'], entries=[E('c20_read', reach=['good']), E('c20_read_bytes', reach=['good']), E('c20_read_large', reach=['good']), E('c20_read_trunc', reach=['bad']), E('c20_read_magic', reach=['bad']), E('c20_read_missing', reach=['bad']), E('c20_read_text', reach=['bad']), E('c20_write', reach=['write']), E('c20_write_exact', reach=['exact']), E('c20_write_large', reach=['write']), E('c20_huge', reach=['good'])], bounds='reading: 1..3 x 1..3 pixels, padding 0..2, symbolic bounds and pixels, 6 comment and 4 white space styles, 11 large cases up to 1063 columns or rows, 67x65 and padding 130, all truncation points, all 3-byte magics; writing: images up to 3 (thorough 4) pixels of symbolic reals, all pairs of 16 IEEE magnitudes in 3 shapes, 20 large images; images of more than 65536 pixels', defs=['-DVP_CAP=70000', '-DBUFSZ=70000'])
PROPS['C21'] = dict(harness=['c21.cpp'], entries=[E('c21_dump', reach=['dump']), E('c21_dump_large', reach=['dump']), E('c21_means', reach=['means']), E('c21_few', reach=['refuse']), E('c21_magic', reach=['refuse']), E('c21_trunc', reach=['refuse']), E('c21_missing', reach=['refuse']), E('c21_huge', reach=['dump'])], bounds='1..4 x 1..4 pixels and 8 large images up to 1063, every non-NaN bit pattern; means files with 0..3 values, every magic of up to 4 bytes; %a text is modelled as exact (its contract), any other float format as lossy; an image of more than 65536 pixels', defs=['-DVP_CAP=420000'])
PROPS['C22'] = dict(harness=['c22.cpp'], entries=[E('c22_bytes', reach=['labels']), E('c22_lines', reach=['labels']), E('c22_long', reach=['labels']), E('c22_many', reach=['labels']), E('c22_missing', reach=['missing']), E('c22_val', reach=['val']), E('c22_val_many', reach=['val']), E('c22_val_any', reach=['any'])], bounds='every text of up to 5 bytes (thorough 6), up to 4 lines with symbolic bytes, line lengths around 253, 999..1500 lines; validation files of up to 2 (3) lines with symbolic names and labels of 1..4 digits, 60..300 lines, lines of any length up to 40; lines up to 253 characters')
PROPS['C23'] = dict(harness=['c23.cpp'], entries=[E('c23_small', reach=['img']), E('c23_bytes', reach=['img']), E('c23_large', reach=['img']), E('c23_wide', reach=['img']), E('c23_missing', reach=['missing']), E('c23_huge', reach=['img'])], bounds='1..3 x 1..3 pixels with symbolic components and bounds, 8 large images up to 1063, a row of 21846 pixels (thorough 65500); libjpeg is modelled by harness/jpeg_stub.cpp, which reads its source until decompression is finished; images of more than 65536 pixels', defs=[])
def imp(mode, reach=('net',), **k):
    """the importer is run symbolically first; the networks it generates become harness sources"""
    def prepare(work, tier, seed, repo):
        import subprocess, json, os
        out = work + '/imp'; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.run(['python3-vt', V + '/tools/imp.py', mode, out, repo] + (['--deep'] if tier == 'thorough' else []) + (['--only', os.environ['VP_ONLY']] if os.environ.get('VP_ONLY') else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=500)
        if p.returncode or not os.path.exists(out + '/result.json'): return dict(errors=['importer runs failed: ' + p.stdout.decode('utf-8', 'replace')[-2000:]], entries=[])
        r = json.load(open(out + '/result.json')); st = r['stats']
        return dict(src=r['src'], inc=[], entries=[E(f, reach=list(reach), weight=8 if f.endswith('_ranks') else 1, **k) for f in r['entries']], errors=r['errors'], violations=r['violations'], evidence=dict(importer=dict(families=st, paths=sum(s.get('paths', 0) for s in st.values()), queries=sum(s.get('queries', 0) for s in st.values()), obligations=sum(s.get('obl', 0) for s in st.values()), functions=r['functions'], samples=['%s: %d paths, %d obligations' % (k, s.get('paths', 0), s.get('obl', 0)) for k, s in st.items()][:24], solver_s=round(sum(s.get('solver_s', 0) for s in st.values()), 2), plain_runs_agreeing=sum(s.get('validated', 0) for s in st.values()), notes=r['notes'])))
    return prepare
STANDINS = ['the onnx, jinja2 and numpy-array calls of the importer are served by tools/pystubs and tools/npshim.py (onnx.utils.polish_model: identity; shapes of intermediate values are given with the model); every symbolic run is compared with a plain run of the same importer on values of its path', 'the weights file is the one the importer wrote, with the bytes of every initializer element replaced by a symbolic float']
IMPB = 'importer: every path over the symbolic dimensions and attributes of the family of models, '
PROPS['C26'] = dict(harness=[], entries=[], prepare=imp('c26'), native_runs=2, assume=STANDINS, technique='symbolic execution of the importer (Python, Z3 path conditions) and of the generated networks (LLVM IR), Z3 deciding every assertion', bounds=IMPB + '35 families: every operator with extents 1..6, kernels 1..4, strides 1..3, pads 0..2, groups 1..3, all 24 permutations, branches and residual connections, chains of reshapes, names, LeNet-like, every graph of up to three nodes (thorough: four) of Relu, Add and shape-keeping Reshape (with Dropout, Concat: smaller); input, weights and float attributes symbolic reals')
PROPS['C25'] = dict(harness=[], entries=[], prepare=imp('c25'), native_runs=2, assume=STANDINS, technique='symbolic execution of the importer (Python, Z3 path conditions), of the weights loader and of the generated networks (LLVM IR), Z3 deciding every assertion', bounds=IMPB + 'all sequences of up to two convolutions (with, without bias, depthwise) and batch normalizations (4-D and 3-D) followed by up to two of Gemm, MatMul, Add (31 combinations; 1-D: 4), 14 graphs with shared initializers, initializers in other orders, unused or also listed as inputs, three branches in three orders, names of 1..260 characters, 5 larger sizes; weights symbolic, and 14 special floats (infinities, NaN, denormals, signed zeros) compared byte for byte')
PROPS['C28'] = dict(harness=[], entries=[], prepare=imp('c28'), native_runs=2, assume=STANDINS, technique='symbolic execution of the importer (Python, Z3 path conditions) and of the generated networks (LLVM IR) with every memory access and allocation checked, Z3 deciding every assertion', bounds=IMPB + 'the 35 families of C26 and 5 of C25; histories: built and dropped; one run; the runs b, a, a, b of two symbolic inputs on one network, each against a fresh network')
PROPS['C24'] = dict(harness=[], entries=[], prepare=imp('c24'), assume=STANDINS[:1], technique='symbolic execution of the importer (Python) on models with symbolic dimensions and attributes, Z3 deciding for every path that each inferred shape is the one ONNX defines', bounds=IMPB + '16 families: pooling (extents to 400 / 60000, kernels to 20, pads to 9, 5 stride pairs), all permutations of ranks 2..5, all axis sets of Squeeze/Unsqueeze up to rank 5, Concat of 1..4 values of ranks 1..4, 11 reshape targets, 6 shape computations, MatMul of 9 rank pairs, Add of all broadcasting masks, Gemm to 2000, Gather, 8 graphs; operands are the input, derived from it, or unknown to the importer; intermediate shapes given or not')
PROPS['C27'] = dict(harness=[], entries=[], prepare=imp('c27'), native_runs=2, assume=STANDINS, technique='symbolic execution of the importer (Python), Z3 deciding for every accepting path that the model is a supported one; networks of accepted models executed symbolically (LLVM IR) against ONNX', bounds=IMPB + '28 families with one supported/unsupported predicate each (kernels to 6, pads to 2, dilation to 3, every auto_pad, ceil_mode, float attributes over [-4, 4], every axis, ranks 2..5, batches 1..4, 1..3 inputs and outputs, 107 unsupported operators in 3 positions, 11 broadcast shapes) and 8 families of unusual graphs compared with ONNX: unused nodes, swapped, repeated or input operands, weights from Constant nodes, empty networks, other ranks, inner batches, the backend interface')
PROPS['C29'] = dict(harness=[], entries=[], prepare=imp('c29'), native_runs=2, assume=['caffe2, python-magic, scipy, imageio and onnx.load are stand-ins of tools/utilgen.py that hand the utilities chosen media, tensors and model answers', 'every stored float of a file the utility wrote is replaced by a symbolic float before the C++ reader gets it; where a file keeps each value is found from one run with pairwise different values, and runs with special values (infinities, NaN, denormals, signed zeros) have to give the same file with these values in their places'], technique='the utilities (Python) are run on every shape of the bounds, the real C++ readers are executed symbolically (LLVM IR) on the files they wrote with symbolic stored values, Z3 deciding every assertion', bounds='parse_onnx_reference_files: channels, height, width 1..3, 1, 2 or 5 outputs, 1 or 2 files of each kind, 4 memory layouts, and 5 larger shapes (to 784 values); generate_reference_data: random input of ranks 2, 3, 4 (extents to 7, and 4 larger shapes to 440 values), JPEG (to 3 x 3 x 4), PGM (to 7 x 9), WAV (3-D and both 4-D layouts, 1..3 channels, to 48 samples); all float values')
PROPS['C30'] = dict(harness=[], entries=[], prepare=imp('c30', reach=('compared', 'refused', 'ran', 'whole')), stubs=['out_stub.cpp'], native_runs=3, assume=STANDINS + ['the network of the main programs is a stand-in class that checks what it is given and answers with chosen values; the generated network itself is run by the same program too', 'printed text is recognised in the pieces it is printed in'], technique='symbolic execution of the importer (Python) and of the generated main programs (LLVM IR) on symbolic outputs, reference values and weights, Z3 deciding every assertion', bounds=IMPB + '5 families: inputs of ranks 2, 3, 4 with extents to 3, outputs of up to 18 values; all finite outputs and references plus 8 special pairs; 9 kinds of missing, cut or differently shaped files; 0, 1, 2, 4 arguments; paths of 63, 1022, 1023, 1024 and 1500 characters; 0..3 runs')
PROPS['C31'] = dict(harness=[], entries=[], prepare=imp('c31'), assume=['PIL is a stand-in of tools/imgprep.py that keeps, as terms, the size of every picture and the part of the file it shows', 'Python quotients of integers are exact (below 2^53 halves are)'], technique='symbolic execution of the utility (Python) with symbolic sizes, positions and image dimensions, Z3 deciding every claim about the written pictures', bounds='sizes, positions and image dimensions symbolic over 1..65535; 3 directories of up to 8 files with up to 3 images, one or two numbers per option, one or two runs; 9 kinds of unusable arguments')
NA = {}
for _i in range(16, 40):
  if 'C%d' % _i not in PROPS: NA['C%d' % _i] = 'the harness for this property is not finished yet'
