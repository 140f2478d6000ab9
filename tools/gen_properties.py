#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text has one home)."""
import json, os
L = "pico-cnn/layers/"
IO = "pico-cnn/io/"
OI = "onnx_import/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "state": [{"name":a,"meaning":b,"where":c} for a,b,c in (state or [])],
                  "hook_needed": None}})

p("C01","Convolution equals the ONNX Conv definition",
  "For a batch-1 input (3-D for 1-D convolution, 4-D for 2-D), odd kernel sizes, any positive strides, any zero-padding (top,left,bottom,right or left,right, possibly asymmetric), any number of groups dividing the channel counts, and with or without a bias, running a convolution layer stores in every output element exactly the sum over the group's input channels and kernel taps of weight times zero-padded input, plus the bias of that output channel, up to float rounding. Every element of the correctly sized output is overwritten, whatever it held before.",
  ["inputs","configurations"],"all input, weight and bias values; all combinations of channel counts, groups, height/width, kernel height/width, per-axis strides and per-side paddings",
  "The unit tests run a dozen fixed inputs and shapes (mostly square, few groups, symmetric padding); a defect that needs asymmetric padding, unequal strides, several channels per group or a non-square image is invisible to them.",
  [L+"convolution.cpp","pico-cnn/tensor.cpp"],
  [("Convolution::run / convolve / convolve_1d",L+"convolution.cpp"),("Tensor::expand_with_padding","pico-cnn/tensor.cpp"),("Tensor::add_channel","pico-cnn/tensor.cpp")],
  ["output tensor after Convolution::run"])
p("C02","FullyConnected and MatMul compute the matrix product",
  "FullyConnected applied to a row vector x yields, in output j, the sum over i of x[i]*W[j][i] plus bias[j] when a bias is given; MatMul yields the sum over i of x[i]*W[i][j]; both up to float rounding and for every length. FullyConnected rejects inputs or outputs that are not 2-D by terminating with an error status.",
  ["inputs","configurations"],"all vectors, weights, biases and lengths",
  "The tests use two fixed matrices; index or orientation mistakes that only show for non-square weights or other lengths pass.",
  [L+"fully_connected.cpp"],[("FullyConnected::gemm, MatMul::matmul",L+"fully_connected.cpp")],["output tensor"])
p("C03","Max pooling returns the exact window maximum",
  "Max pooling (1-D and 2-D) stores in each output element exactly the largest input value inside that window of the given kernel size and stride, where positions added by padding never win, whatever the signs of the values; windows at the borders cover only the real input elements. Every output element of the correctly sized output is written and is bit-identical to one of the window's inputs.",
  ["inputs","configurations"],"all non-NaN float inputs; all kernel sizes, strides, paddings smaller than the kernel, channels and (non-square) sizes",
  "Tests pool a few fixed, mostly positive images; all-negative windows, overlapping or gapped strides and asymmetric padding are not settled by examples.",
  [L+"pooling/max_pooling.cpp",L+"pooling/pooling.cpp"],[("MaxPooling::pool",L+"pooling/max_pooling.cpp"),("Pooling::run padding",L+"pooling/pooling.cpp")],["output tensor"])
p("C04","Average pooling honours windows and count_include_pad",
  "Average pooling (1-D and 2-D) stores in each output element the sum of the real input elements in the window divided by the full kernel size when padding is counted, and by the number of real (non-padding) elements in the window when it is not, up to float rounding. This holds for every stride and every per-side padding smaller than the kernel, including no padding.",
  ["inputs","configurations"],"all inputs; all kernel sizes, strides, per-side paddings, both counting modes",
  "The divisor has a separate edge case per side; tests cover a few symmetric configurations only.",
  [L+"pooling/average_pooling.cpp",L+"pooling/pooling.cpp"],[("AveragePooling::pool edge-case divisor",L+"pooling/average_pooling.cpp")],["output tensor"])
p("C05","Global pooling reduces over every element of a channel",
  "Global average pooling yields the mean, and global max pooling the exact maximum, over all positions of each channel and of nothing else, for 3-D and 4-D tensors of any spatial size and any sign of values.",
  ["inputs","configurations"],"all inputs, batch and channel counts, heights and widths",
  "Tests use one image whose maximum does not lie in the skipped positions; coverage of every position needs all inputs.",
  [L+"pooling/global_average_pooling.cpp",L+"pooling/global_max_pooling.cpp"],[("GlobalAveragePooling::pool, GlobalMaxPooling::pool",L+"pooling/")],["output tensor"])
p("C06","Batch normalization equals its per-channel affine definition",
  "For batch-1 3-D or 4-D inputs, batch normalization stores gamma_c*(x-mean_c)/sqrt(variance_c+epsilon)+beta_c at every position, using the four parameters of that position's own channel, up to float rounding; it terminates with an error for other ranks or batch sizes.",
  ["inputs","configurations"],"all inputs, parameter vectors with variance+epsilon positive, channel counts and sizes",
  "Two fixed examples cannot show that every position and channel uses its own parameters.",
  [L+"batch_normalization.cpp"],[("BatchNormalization::normalize",L+"batch_normalization.cpp")],["output tensor"])
p("C07","ReLU, leaky/parameterized ReLU, Clip and Identity are exact",
  "For every float bit pattern (NaN aside) of every element, on tensors of any rank and size, ReLU returns x if x is not negative and otherwise zero, LeakyReLU and ParameterizedReLU return x or slope times x (the element's own slope), Clip returns the nearest value in [min,max], and Identity returns x, value-exact (zeros of either sign count as equal); they work out of place and in place. ParameterizedReLU refuses (error termination) a slope tensor that does not match the input.",
  ["inputs","configurations"],"every 32-bit float value incl. infinities, denormals and signed zero (by value); all tensor ranks and sizes; all min<=max, slopes",
  "Tests sample a handful of values; thresholds, signs and extreme magnitudes must be right for all 2^32 patterns.",
  [L+"activation_functions/relu.cpp",L+"activation_functions/clip.cpp",L+"activation_functions/activation_function.cpp"],[("activate()",L+"activation_functions/")],["output tensor"])
p("C08","Sigmoid, TanH and Softmax equal their definitions and stay sane",
  "Sigmoid yields 1/(1+e^-x) and TanH yields tanh(x) per element, and Softmax yields e^xi / sum_j e^xj over all elements, up to float rounding. For every finite input, however large, results are numbers inside [0,1] (TanH: [-1,1]), never NaN, and Softmax outputs sum to one.",
  ["inputs","configurations"],"all finite inputs incl. extreme magnitudes; all sizes",
  "Tests use moderate inputs; overflow and underflow behaviour and per-element independence need all values.",
  [L+"activation_functions/sigmoid.cpp",L+"activation_functions/tan_h.cpp",L+"activation_functions/softmax.cpp"],[("activate()",L+"activation_functions/")],["output tensor"])
p("C09","LRN normalizes over the ONNX cross-channel window",
  "Local response normalization stores x/(1+alpha/n*S)^beta at every position of a 4-D tensor, where S is the sum of squares over the channels from c-floor((n-1)/2) to c+ceil((n-1)/2) clipped to the existing channels, at the same batch and position, up to float rounding, for every window size n (odd or even, larger than the channel count or not).",
  ["inputs","configurations"],"all inputs, alpha, beta, n, channel counts, batches, sizes",
  "Window clipping at both ends and even window sizes depend on the relation of n and the channel count; tests fix one.",
  [L+"activation_functions/lrn.cpp"],[("LRN::activate",L+"activation_functions/lrn.cpp")],["output tensor"])
p("C10","Tensor addressing is row-major, injective and zero-initialised",
  "For a tensor of any rank 1 to 4 and any dimensions whose byte size fits 32 bits (size_bytes is uint32_t), element (b,c,y,x) is stored at linear position ((b*C+c)*H+y)*W+x (lower ranks analogously), all access paths (per-rank access, channel pointer, blob index) agree on it, and distinct indices never share storage. A new tensor has all elements zero, reports the element count, size in bytes and dimensions it was made with, and treats missing leading dimensions as one.",
  ["inputs","configurations"],"all 32-bit dimensions and indices (byte size below 2^32); all ranks",
  "Tests index tiny tensors; multiplication order and operand mistakes show only for dimensions that differ from each other.",
  ["pico-cnn/tensor.h","pico-cnn/tensor.cpp"],[("access overloads","pico-cnn/tensor.h"),("get_ptr_to_channel, constructors, size accessors","pico-cnn/tensor.cpp")],["addresses and values read through the public accessors"],
  [("shape_/num_elements_/data_","dimensions, element count and row-major storage","pico-cnn/tensor.h")])
p("C11","Padding and copying tensors preserve data and fill the border",
  "Expanding or copying a tensor with padding places every source element at its position shifted by the leading paddings and sets every other element of the destination to the initializer, for 2-D, 3-D and 4-D tensors, any per-side amounts, any initializer, and any previous content of the destination; the source is unchanged. A plain copy reproduces all elements exactly and refuses (error termination) when element counts differ.",
  ["inputs","configurations"],"all contents, shapes, per-side paddings, initializers, and previous destination contents",
  "Tests pad fresh, zeroed destinations with a few fixed amounts; stale borders and per-side mix-ups need all combinations.",
  ["pico-cnn/tensor.cpp"],[("expand_with_padding, copy_with_padding_into, copy_data_into","pico-cnn/tensor.cpp")],["destination tensor"])
p("C12","Concatenation along channels keeps every input in order",
  "Concatenating any number of batch-1 tensors along dimension 1 (2-D row vectors, 3-D or 4-D) writes every input's channels, completely and in order, to consecutive output channels and nothing else; any other dimension is refused with error termination.",
  ["inputs","configurations"],"all contents, numbers of inputs, per-input channel counts, sizes and ranks",
  "Tests concatenate one fixed pair of 4-D tensors.",
  ["pico-cnn/tensor.cpp",OI+"code_templates/tensor_operations/pico_cnn_concat.cpp"],[("Tensor::concatenate_from","pico-cnn/tensor.cpp")],["output tensor"])
p("C13","Tensor addition and scaling are elementwise and exact",
  "add_tensor replaces each element by the float sum of the two operands' elements at that position and reports failure without touching memory when the operands have different numbers of elements; add_channel does so for exactly one channel of one batch and leaves all others unchanged; mul_with_factor stores the float product of each element and the factor. The second operand is never modified.",
  ["inputs","configurations"],"all float contents, ranks, shapes, channel and batch indices, factors",
  "Tests add one fixed pair; that other channels stay untouched and mismatched sizes are safe is not examined.",
  ["pico-cnn/tensor.cpp"],[("add_tensor, add_channel, mul_with_factor","pico-cnn/tensor.cpp")],["target tensor, return value"])
p("C14","Tensor equality means same shape and elementwise closeness",
  "Two tensors compare equal exactly when they have the same rank, the same dimensions and every pair of corresponding elements differs by less than 0.0001; a NaN element makes them unequal. The comparison reads only the two tensors' own storage, is symmetric and changes nothing.",
  ["inputs"],"all float contents; all pairs of ranks and shapes",
  "Tests compare tensors of equal rank with a few values; near-threshold values, last elements, differing ranks and NaN are not settled.",
  ["pico-cnn/tensor.h","pico-cnn/utils.h"],[("operator==","pico-cnn/tensor.h"),("fp_t_eq","pico-cnn/utils.h")],["result of =="])
p("C15","Layers are pure, memory-safe and independent of history",
  "Running any layer reads only initialised memory inside its operands, writes only its output, leaves input, weight and parameter tensors and caller-owned configuration arrays unchanged, and frees everything it allocates exactly once. Its result depends only on its inputs and parameters: the previous content of the output, earlier runs of the same layer object, and reuse or change of the caller's configuration arrays after construction have no influence.",
  ["inputs","configurations","histories"],"all layers; all inputs, shapes and parameters in the supported domain; all previous output contents; repeated runs with different inputs",
  "Out-of-bounds accesses and stale state often leave small tests unaffected, and tests run each layer object once on a fresh output.",
  ["pico-cnn/layers/","pico-cnn/tensor.cpp"],[("Layer::run implementations, destructors","pico-cnn/layers/"),("copies of padding/stride/kernel arrays",L+"pooling/pooling.cpp")],["memory accesses, allocations, operand contents before and after run"])
p("C16","The weights loader restores every stored parameter",
  "Given a well-formed weights file (magic, name, layer records of Conv, BatchNormalization, Gemm, MatMul, Transpose and Add in any order, end marker) and tensors of matching sizes, loading succeeds and each kernel and bias tensor, taken in file order with separate counters for kernels and biases, holds exactly the stored floats in row-major order. Records with zero dimensions or zero biases consume no tensor, and tensors without a record are not changed.",
  ["inputs","configurations"],"all sequences of record types, dimensions and float values",
  "There is no test of the loader; its correctness quantifies over record sequences and contents.",
  [IO+"read_binary_weights.cpp","doc/binary_weight_file_format.md"],[("read_binary_weights",IO+"read_binary_weights.cpp")],["kernel and bias tensors, return value"])
p("C17","Broken weights files are rejected safely",
  "For a missing weights file, one truncated at any byte, one with a wrong magic, end marker or layer type, or one whose recorded dimensions do not match the network's tensors, loading returns a non-zero status (or terminates with an error status) without reading or writing outside its buffers and tensors, crashing, or leaving the file open. It never reports success for such a file. (The network is assumed to have at least as many tensors as the file's records use, since the loader is not told their number.)",
  ["inputs","fault_sequences"],"all truncation points and all byte values of the header, name, type and dimension fields, within bounded file lengths",
  "No test opens a malformed file; every byte and cut point must be considered.",
  [IO+"read_binary_weights.cpp"],[("read_binary_weights error paths",IO+"read_binary_weights.cpp")],["return value, memory accesses, open files"])
p("C18","Reference data readers restore stored tensors or refuse",
  "A well-formed reference input file (FCI, batches=1, channels, height, width, floats, end) or output file (FCO, batches=1, count, floats, end) whose dimensions match the tensor is loaded exactly and reported as success. For a batch-1 tensor, a missing, truncated or mismatching file, or a tensor of unsupported rank, yields a non-zero status, no out-of-bounds access and no file left open.",
  ["inputs","fault_sequences"],"all dimensions, values, tensor ranks, truncation points and header bytes within bounded lengths",
  "No test covers the readers; the existing generated programs only exercise good files.",
  [IO+"read_binary_reference_data.cpp"],[("read_binary_reference_input_data, read_binary_reference_output_data",IO+"read_binary_reference_data.cpp")],["tensor contents, return value"])
p("C19","MNIST readers decode images and labels or refuse",
  "For an IDX file with the right magic and images of at most 65535 rows and columns, the image reader returns min(requested, stored) images, each surrounded by the padding at the lower bound and with pixel v mapped to v/255*|upper-lower|+lower at its row and column, and the label reader returns min(requested, stored) labels, both for big-endian headers. A missing file, wrong magic or file that ends early yields a count of fully read items that is backed by real data, with no access to uninitialised or out-of-bounds memory.",
  ["inputs","fault_sequences"],"all header values and pixel bytes, paddings, bounds and truncation points within bounded sizes",
  "No test covers the readers.",
  [IO+"read_mnist.cpp"],[("read_mnist_images, read_mnist_labels, change_endianess",IO+"read_mnist.cpp")],["returned arrays and counts"])
p("C20","PGM reading and writing are mutually consistent",
  "Writing an image as PGM emits a P5 header with its width and height and one byte per pixel that maps the smallest value to 0 and the largest to 255 linearly, for every image including constant ones and values of any magnitude; reading a P5 file (a line P5, optional comment lines, dimensions, largest gray value 255) yields its dimensions and each pixel v at its place as v/255*|upper-lower|+lower inside a border of the lower bound. Files that are missing, truncated or not P5 yield a non-zero status without out-of-bounds or uninitialised access.",
  ["inputs","fault_sequences"],"all images (values, non-square sizes), paddings, bounds, file bytes and truncation points within bounded sizes",
  "No test covers PGM input or output.",
  [IO+"read_pgm.cpp",IO+"write_pgm.cpp"],[("read_pgm",IO+"read_pgm.cpp"),("write_pgm",IO+"write_pgm.cpp")],["file bytes, returned image, return value"])
p("C21","Float dumps and mean files round-trip",
  "The float writer emits the FF magic, height, width and one hexadecimal float per pixel in row-major order, losing no bit; the means reader returns the three stored hexadecimal floats exactly and in order and reports success only if all three were present after the right magic.",
  ["inputs","fault_sequences"],"all float values, non-square sizes, file truncations",
  "No test covers either.",
  [IO+"write_float.cpp",IO+"read_means.cpp","doc/mean_file_format.md"],[("write_float",IO+"write_float.cpp"),("read_means",IO+"read_means.cpp")],["file contents, returned means, return value"])
p("C22","ImageNet label readers return each label and never overrun",
  "The label reader returns, for each line (of at most 253 characters) of the file up to the requested number, the line's text without its newline (also for a last line without newline), and the count of labels stored; the validation-label reader stores for validation image i (from 1) the number of up to four digits following the 28-character file name on line i, for at most the requested number. No file makes either write outside what it allocated.",
  ["inputs","fault_sequences"],"all file contents and requested counts within bounded lengths",
  "No test covers either reader; overruns need more lines than allocated or long lines.",
  [IO+"read_imagenet_labels.cpp",IO+"read_imagenet_validation_labels.cpp"],[("read_imagenet_labels",IO+"read_imagenet_labels.cpp"),("read_imagenet_validation_labels",IO+"read_imagenet_validation_labels.cpp")],["returned arrays and counts"])
p("C23","JPEG reading separates colour planes correctly",
  "For a decodable JPEG, the reader returns the image's height and width and three planes in blue, green, red order whose entry at row*width+column is the decoded component v mapped to v/255*|upper-lower|+lower, with grey images replicated to all three planes; a missing file yields a non-zero status.",
  ["inputs","configurations"],"all decoded scanlines and dimensions delivered by the decoder, 1 and 3 components",
  "No test covers the reader, and it is not even part of the test build.",
  [IO+"read_jpeg.cpp"],[("read_jpeg",IO+"read_jpeg.cpp")],["returned planes"])
p("C24","Shape inference agrees with ONNX for every operator",
  "For every operator the importer infers shapes for, and any operand shapes and attributes in the supported domain, the inferred output shape equals the shape ONNX defines for that operator and attributes.",
  ["inputs","configurations","programs"],"all operand dimensions and attribute values (kernel, stride, pads, axes, permutations, reshape targets)",
  "There are no importer tests; shape arithmetic has to hold for all dimensions.",
  [OI+"constprop.py"],[("constant_propagation, PoolImpl, TransposeImpl, SqueezeImpl, UnsqueezeImpl",OI+"constprop.py")],["shapes recorded for each tensor, tensor allocations in the generated network"])
p("C25","Exported weights and generated network agree",
  "For every supported model, loading the exported weights file into the freshly constructed generated network succeeds and gives every weight, bias and normalization tensor used by each layer exactly the values of its own ONNX initializer, including layers without bias and initializers shared by several layers.",
  ["programs","inputs"],"all sequences of weighted layers, shapes and weight values; shared initializers; missing biases",
  "There are no importer tests; writer, generated constructor and C++ loader number the tensors independently and must agree for every model.",
  [OI+"backend.py",IO+"read_binary_weights.cpp","doc/binary_weight_file_format.md"],[("_generate_weights_file, _generate_network_initialization",OI+"backend.py"),("read_binary_weights",IO+"read_binary_weights.cpp")],["network.weights.bin, kernels/biases of the generated Network"])
p("C26","The generated network computes the ONNX model",
  "A model built from the supported operators within the importer's documented restrictions (batch 1, odd convolution kernels, one input and one output of rank 2, the attributes without an importer default given, finite attribute values, names that stay different when reduced to identifiers) is accepted, and the generated network loaded with the exported weights maps every input to the model's ONNX result, up to float rounding, including branching graphs, values used by several consumers and chains of shape operations.",
  ["programs","inputs"],"all supported model graphs, attributes, weights and inputs",
  "No test runs the importer at all; agreement must hold per generated program for every input.",
  [OI+"backend.py",OI+"pico_cnn.py",OI+"code_templates/",OI+"constprop.py"],[("operator classes and templates",OI+"pico_cnn.py"),("_remove_nops, _remove_constants, _get_schedule",OI+"backend.py")],["output tensor of generated Network::run"])
p("C27","The importer refuses what it cannot translate",
  "A model that uses an unsupported operator, attribute value or shape (for example even convolution kernels, automatic padding, dilation, ceiling mode, non-default Gemm factors or transposition, concatenation on another axis, a Softmax axis other than the last of two, negative or non-constant padding, broadcasting additions of tensors, weights of other ranks, weights that are the input, batches above one where the library has none, several inputs or outputs) is rejected, that is, the importer ends with an error or without writing a network, and is never silently translated to a network that does not compile or computes something else than ONNX defines.",
  ["programs","configurations"],"all attribute values outside the supported domain, for every operator",
  "No test feeds the importer anything.",
  [OI+"pico_cnn.py",OI+"backend.py"],[("create() of the operator classes",OI+"pico_cnn.py"),("_export_model",OI+"backend.py")],["importer exit status, generated code"])
p("C28","Generated networks can be built, run repeatedly and destroyed",
  "Constructing a generated network, running it any number of times and destroying it performs no invalid memory access, frees every buffer, kernel, bias and layer exactly once, leaves nothing allocated, and gives on each run the same result as a fresh network would for that input.",
  ["programs","histories","inputs"],"all supported models; all sequences of inputs over several runs",
  "No test builds a generated network.",
  [OI+"backend.py",OI+"code_templates/"],[("_generate_network_initialization, _generate_network_cleanup",OI+"backend.py"),("layer_delete.cpp and allocation templates",OI+"code_templates/")],["allocations, outputs of successive runs"])
p("C29","Reference-file utilities write what the readers expect",
  "The utilities that store sample inputs and outputs write files from which the C++ reference readers restore exactly the arrays that were stored, for every supported rank and shape.",
  ["inputs","configurations"],"all array shapes and float values",
  "Writer (Python) and reader (C++) are separate programs without a test of either.",
  ["util/parse_onnx_reference_files.py","util/generate_reference_data.py",IO+"read_binary_reference_data.cpp"],[("write_reference_input/-output helpers","util/parse_onnx_reference_files.py"),("write functions","util/generate_reference_data.py")],["bytes written and tensors read back"])
p("C30","The generated main programs compare and run as documented",
  "The program reference_input generated with a network runs the network exactly once, with the stored weights, on the stored reference input, reports the outputs to be almost equal when every output value is within 0.001 of the stored reference output and to differ when any is not (a NaN, or an infinity facing another value, is a difference), succeeds and frees what it allocated. When the weights, input or output file is missing, ends early or has another shape, or the number of arguments is wrong, it ends with a failure status, without running the network and without reporting equality. The program dummy_input runs the network as often as asked for (zero times or more) on random inputs between 0 and 1, the same input each time if it is to be generated once, and fails without the weights or with a wrong number of arguments. Paths may be of any length.",
  ["inputs","fault_sequences","configurations"],"all input shapes, outputs, reference values, broken files, argument counts and path lengths",
  "No test generates or runs these programs.",
  [OI+"code_templates/main_program/reference_input.cpp",OI+"code_templates/main_program/dummy_input.cpp"],[("reference_input main program",OI+"code_templates/main_program/reference_input.cpp"),("dummy_input main program",OI+"code_templates/main_program/dummy_input.cpp"),("generate_reference_main, generate_dummy_main",OI+"generate_dummy.py")],["printed verdict, exit status, calls of Network::run"])
p("C31","Image preparation scales and crops to the requested geometry",
  "util/prepare_images.py processes every file of the directory whose name ends in .JPEG (in mode crop: and starts with ILSVRC) exactly once per run and no other file. It writes one picture of exactly the requested width and height (one number given: a square), named {w}x{h}_scale_, {w}x{h}_crop_ or {w}x{h}_center_crop_ followed by the file's name, to the folder scaled_, cropped_ or center_cropped_{w}x{h} inside the directory, whether or not that folder exists. Scaling shows the whole image; cropping shows the unscaled part that starts at the given position and lies inside the image, and the run stops at an image too small for that (position plus size below the image's width and height always suffices); centred cropping leaves margins on opposite sides that differ by at most one pixel. With an unknown mode, a size or position of more than two numbers, or no position for a crop, nothing is written.",
  ["inputs","configurations"],"all image dimensions, requested sizes and positions; all directories of images and other files",
  "No test runs the utility; the geometry has to hold for every combination of odd and even sizes.",
  ["util/prepare_images.py"],[("scale_images, crop_images, center_crop_images","util/prepare_images.py")],["pictures saved: name, size, part of the image shown"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
