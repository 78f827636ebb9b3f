#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that anchors and wording stay consistent)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

NOTEST="No existing test touches this code at all; "
GRAD="The existing tests only compare numeric and analytic gradients of a few tiny fixed-shape networks; "

prop("C01","Tensor element addressing is a bijection onto the tensor's own storage",
 "Every coordinate (x, y, map, sample) inside a tensor's dimensions addresses exactly one of its elements, different coordinates address different elements, no address lies outside the allocated elements, and x varies fastest, then y, then map, then sample. The reported element count always equals the product of the four reported dimensions, after any construction or resize with non-zero dimensions and any reshape. A reshape succeeds exactly when the tensor has data and the element count is unchanged, and it never changes an element; a refused reshape changes nothing.",
 ["inputs","histories"],"all dimensions, all coordinates inside them, all sequences of construct/resize/reshape",
 NOTEST+"tests use a handful of shapes while the guarantee is over every shape and coordinate.",
 ["include/cn24/util/Tensor.h","src/util/Tensor.cpp"],
 [("Tensor::Offset / data_ptr / data_ptr_const","include/cn24/util/Tensor.h"),("Tensor::Resize / Reshape","src/util/Tensor.cpp")],
 [("samples_,width_,height_,maps_,elements_","dimension fields; elements_ is their product","include/cn24/util/Tensor.h")])

prop("C02","Filling and transposing a tensor affect exactly the requested elements",
 "Clearing a tensor to a value sets every element to it, and clearing one sample (or setting one sample to a value through the math library) sets all elements of that sample and leaves every other sample unchanged. Transposing swaps width and height and moves the element at (x, y, map, sample) to (y, x, map, sample) for every coordinate, so that transposing twice is the identity. A copied tensor has the same shape and elements as its source and later changes to one do not show in the other; a moved tensor takes over shape and elements and its source ends up empty.",
 ["inputs"],"all shapes, values, sample indices",
 NOTEST+"frame conditions ('nothing else changes') quantify over all other elements.",
 ["src/util/Tensor.cpp","src/math/TensorMath.cpp"],
 [("Tensor::Clear","src/util/Tensor.cpp"),("Tensor::Transpose","src/util/Tensor.cpp"),("TensorMath::SETSAMPLE","src/math/TensorMath.cpp"),("Tensor copy and move constructors","src/util/Tensor.cpp")])

prop("C03","Sample and map copies are exact, zero-padded, framed, and refuse mismatches",
 "Copying a map or sample into a target of equal or larger width and height places every source element at the same (x, y, map) of the chosen target sample, sets the remaining target elements of the copied maps to zero, and leaves every other map and sample of the target and the whole source unchanged. If the target is narrower or lower than the source, a sample index is out of range, or (for whole samples) the map counts differ, the copy reports failure and changes nothing. A copy that was possible reports success.",
 ["inputs"],"all pairs of shapes, sample and map indices, contents",
 NOTEST+"the padding and refusal cases depend on unequal shapes.",
 ["src/util/Tensor.cpp"],[("Tensor::CopyMap","src/util/Tensor.cpp"),("Tensor::CopySample","src/util/Tensor.cpp")])

prop("C04","Maximum queries return the position of the first largest element",
 "For tensors with finite values, the per-sample maximum query returns the position, within that sample, of the first element that no element of that sample exceeds. The per-pixel query returns the first map whose value at that pixel no other map exceeds, and the absolute-value query returns the position of the first element whose magnitude no element of the tensor exceeds. None of them changes the tensor.",
 ["inputs"],"all shapes and finite contents, including all-negative contents and ties",
 NOTEST+"an argmax claim quantifies over every element and content.",
 ["src/util/Tensor.cpp"],[("Tensor::Maximum / AbsMaximum / PixelMaximum","src/util/Tensor.cpp")])

prop("C05","A serialized tensor reads back identical and consumes exactly its own bytes",
 "Writing a tensor to a stream in the native format and reading it back yields the same four dimensions and bit-identical elements, for any number of tensors written back to back, and the read consumes exactly the bytes that were written. Reading only the header leaves the stream positioned directly behind that tensor's data. A tensor written to a file with a native tensor suffix loads back identical from that file.",
 ["inputs","histories"],"all shapes (including empty tensors), contents, sequences of tensors in one stream",
 NOTEST+"no test writes or reads a stream.",
 ["src/util/Tensor.cpp"],[("Tensor::Serialize / Deserialize","src/util/Tensor.cpp"),("Tensor::LoadFromFile / WriteToFile","src/util/Tensor.cpp")])

prop("C06","Compressing and decompressing tensor data is lossless and stays in its buffer",
 "Decompressing the compressed data of a non-empty tensor reproduces the original elements exactly (up to the sign of zero) with the original shape, for any contents, including run lengths around the maximum, elements whose bytes contain the escape marker, and non-finite values. The compressed form never exceeds twice the raw byte size plus two bytes. A serialized compressed tensor reads back with the same shape and compressed bytes.",
 ["inputs"],"all element sequences and lengths, including marker bytes and maximal runs",
 NOTEST+"the codec has run-length, escape and end-of-input corner cases that depend on exact lengths and byte values.",
 ["src/util/CompressedTensor.cpp"],[("CompressedTensor::CompressData / DecompressData","src/util/CompressedTensor.cpp"),("CompressedTensor::Serialize / Deserialize","src/util/CompressedTensor.cpp")])

prop("C07","Matrix products compute alpha*op(A)*op(B)+beta*C and nothing else",
 "The row-major matrix-matrix and matrix-vector products overwrite each addressed result element with alpha times the exact sum of products selected by the transpose flags, leading dimensions and sample indices, plus beta times its previous value. With beta zero the previous contents of the result, even non-finite ones, have no influence. All other elements of the result tensor and all inputs stay unchanged.",
 ["inputs"],"all sizes, leading dimensions, transposition flags, samples, increments, scalars and contents",
 GRAD+"transpose/leading-dimension/increment combinations are not enumerated.",
 ["src/math/TensorMath.cpp"],[("TensorMath::GEMM","src/math/TensorMath.cpp"),("TensorMath::GEMV","src/math/TensorMath.cpp")])

prop("C08","Patch unfolding is exact, and folding is its adjoint",
 "Unfolding an image tensor into columns stores, for each kernel position, map, output position and sample, exactly the addressed source pixel, or zero if that position lies in the padding. Folding columns back sets every source element to the sum of exactly those column elements that the unfolding would fill from it, in particular without touching anything outside the tensor. Both hold for every image size, kernel size, stride, padding, map and sample count, including non-square ones.",
 ["inputs"],"all image/kernel/stride/padding/map/sample sizes for which the target has the matching element count",
 GRAD+"only square-ish images without padding are reached.",
 ["src/math/TensorMath.cpp"],[("TensorMath::IM2COL","src/math/TensorMath.cpp"),("TensorMath::COL2IM","src/math/TensorMath.cpp")])

prop("C09","Down/up-scaling, sample-map swap and addition compute their definitions",
 "Down-scaling writes to each target element the sum of its source region times the given factor; up-scaling writes each source element times the factor to every element of its target region. Swapping samples and maps moves the element (x, y, m, s) to (x, y, s, m), and element-wise addition stores the exact sum at each position. Sources are unchanged and each target element of the described range is written.",
 ["inputs"],"all shapes, region sizes, factors and contents",
 GRAD+"these kernels are not compared with their definition anywhere.",
 ["src/math/TensorMath.cpp"],[("TensorMath::DOWN / UP / SMS / ADD","src/math/TensorMath.cpp")])

prop("C10","Max pooling outputs each region's maximum and routes gradient only to it",
 "Both pooling layers output, for every region given by pooling size and stride, the largest input element of exactly that region in the same map and sample. Back-propagation gives each input element the sum of the output gradients of exactly those regions whose forward maximum was taken from it, and zero if there is none. The output size equals the number of complete regions, and configurations whose regions do not fit are rejected.",
 ["inputs","configurations"],"all image shapes, pooling sizes and strides, samples, maps, contents with finite values",
 GRAD+"ties, negative inputs, several maps/samples and overlapping strides are sampled only at random.",
 ["src/net/MaxPoolingLayer.cpp","src/net/AdvancedMaxPoolingLayer.cpp"],[("FeedForward / BackPropagate / CreateOutputs","src/net/MaxPoolingLayer.cpp"),("FeedForward / BackPropagate / CreateOutputs","src/net/AdvancedMaxPoolingLayer.cpp")])

prop("C11","Border, up-sampling, down-sampling and spatial-prior layers map pixels exactly",
 "The border layer places the input at the configured offset in a larger map and fills the frame with zeros; the up-sampling layer repeats each pixel over its region; the input down-sampling layer averages each region; the spatial-prior layer outputs the two pixel coordinates, divided by width and height, as first maps, followed by its input maps unchanged. Back-propagation of each returns to every input element exactly the gradient of the output elements it feeds. Every output element is defined by these rules for every map and sample.",
 ["inputs","configurations"],"all shapes, borders, region sizes, maps, samples and contents",
 GRAD+"only the border layer with one shape is exercised.",
 ["src/net/ResizeLayer.cpp","src/net/UpscaleLayer.cpp","src/net/InputDownSamplingLayer.cpp","src/net/SpatialPriorLayer.cpp"],
 [("FeedForward / BackPropagate","src/net/ResizeLayer.cpp"),("FeedForward / BackPropagate","src/net/UpscaleLayer.cpp"),("FeedForward / BackPropagate","src/net/InputDownSamplingLayer.cpp"),("FeedForward / BackPropagate","src/net/SpatialPriorLayer.cpp")])

prop("C12","Concatenating, summing and fan-out layers merge and split without loss",
 "The concatenation layer's output holds all maps of the first input followed by all maps of the second, sample by sample, and its back-propagation returns each map's gradient to the input it came from. The sum layer outputs the element-wise sum of two equally shaped inputs and passes the output gradient to both. The fan-out layer gives every output the input unchanged and returns to the input the sum of all output gradients; inputs whose shapes do not fit together and outputs of the wrong size are rejected when the layer is set up.",
 ["inputs","configurations"],"all shapes, map counts, samples, fan-out counts and contents",
 GRAD+"concatenation and sum have no test.",
 ["src/net/ConcatenationLayer.cpp","src/net/SumLayer.cpp","src/net/GradientAccumulationLayer.cpp"],
 [("FeedForward / BackPropagate","src/net/ConcatenationLayer.cpp"),("FeedForward / BackPropagate","src/net/SumLayer.cpp"),("FeedForward / BackPropagate","src/net/GradientAccumulationLayer.cpp")])

prop("C13","Activation layers apply their function and its derivative element-wise",
 "The logistic, hyperbolic tangent and rectifier layers set every output element to their function of the input element at the same position, and back-propagation sets every input gradient to the output gradient times the derivative of that function at that position, zero where the rectifier's input is not positive. The softmax layer divides the exponential of each element of a row vector (one map, height one) by the sum of the exponentials of that sample's row, and passes gradients through unchanged. The input data is never changed and every element of every sample is processed.",
 ["inputs"],"all shapes and contents",
 GRAD+"gradients agreeing numerically does not establish which function is computed.",
 ["src/net/ActivationFunctions.cpp","src/net/NonLinearityLayer.cpp"],[("FeedForward / BackPropagate of each activation","src/net/ActivationFunctions.cpp")])

prop("C14","Local response normalisation divides by the defined neighbourhood response",
 "The normalisation layer divides every input element by (1 + alpha/n * S)^beta, where S is the sum of squares and n the count of the elements in the window of the configured size around it that lie inside the image (within-channel mode) or inside the map range (across-channel mode). Every output element is computed, for square and non-square images alike. Back-propagation yields the gradient of that function with respect to every input element.",
 ["inputs","configurations"],"all shapes, window sizes, parameters, both modes",
 "No existing test instantiates this layer.",
 ["src/net/LocalResponseNormalizationLayer.cpp"],[("FeedForward / BackPropagate","src/net/LocalResponseNormalizationLayer.cpp")])

prop("C15","The loss layer reports half the weighted squared error and its gradient",
 "The error layer's reported loss is half the sum, over all elements, of squared difference between prediction and label times the pixel's sample weight, as scaled by the layer's loss weight. The gradient it sends to the prediction is difference times pixel weight times loss weight, for every element, and labels and weights receive none. Inputs are not modified.",
 ["inputs"],"all shapes, contents, weights",
 GRAD+"non-uniform weights and multiple maps or samples are not reached.",
 ["src/net/ErrorLayer.cpp"],[("FeedForward / BackPropagate / CalculateLossFunction","src/net/ErrorLayer.cpp")])

prop("C16","Convolution layer computes grouped, strided, padded cross-correlation",
 "The convolution layer's output element equals the bias of its map plus the sum over its group's input maps and the kernel window of weight times (zero-padded) input, at the position given by stride and padding, and its output size is the number of window positions that fit. Back-propagation yields the exact gradients of that function with respect to input, weights and bias. Configurations whose kernel does not fit or whose map counts are not divisible by the group count are rejected.",
 ["inputs","configurations"],"all shapes, kernel sizes, strides, paddings, groups, kernels, samples",
 GRAD+"padding, non-square strides and multi-sample cases are not reached, and numeric gradients do not establish the function value.",
 ["src/net/ConvolutionLayer.cpp","src/math/TensorMath.cpp"],[("FeedForward / BackPropagate / CreateOutputs / Connect","src/net/ConvolutionLayer.cpp")])

prop("C17","Confusion-matrix statistics count each weighted pixel once, with right ratios",
 "After any sequence of evaluated batches, each cell of the confusion matrix holds the total weight of the pixels with that predicted and that true class, as decided by the largest map, and the totals agree with the cells. The reported overall rate, mean class rate over classes that occur, and mean intersection-over-union are the corresponding ratios of those counts in percent. Resetting sets all counts to zero, and a disabled layer counts nothing.",
 ["inputs","histories"],"all class counts, shapes, contents, weights, sequences of batches and resets",
 "No existing test instantiates the statistics layers.",
 ["src/net/ConfusionMatrixLayer.cpp"],[("FeedForward / UpdateAll / Reset","src/net/ConfusionMatrixLayer.cpp")])

prop("C18","Binary statistics count true/false positives/negatives at every threshold",
 "After any sequence of evaluated batches, for every threshold the four counts hold the total weight of pixels by predicted (output above the threshold) and true label, so that they sum to the total weight processed. The reported precision, recall, false positive and negative rates, accuracy and F1 are the corresponding ratios at the threshold with the best F1. Resetting sets all counts to zero, and a disabled layer counts nothing.",
 ["inputs","histories"],"all threshold ranges, shapes, contents, weights, sequences of batches",
 "No existing test instantiates the statistics layers.",
 ["src/net/BinaryStatLayer.cpp"],[("FeedForward / UpdateAll / Reset","src/net/BinaryStatLayer.cpp")])

prop("C19","Statistics are collected only while recording and reach sinks in order",
 "Registered statistics get consecutive distinct ids and keep them. An update changes exactly the statistic it names, only while recording is on, and updates with unknown ids or while stopped change nothing; starting, stopping and resetting follow the initialise-stop-record cycle and are ignored in any other state, so no reset happens while recording. Each generated report hands every sink one value per registered statistic, in id order, and a snapshot leaves recording on with freshly reset values.",
 ["histories"],"all sequences of register/initialise/start/stop/update/reset/snapshot calls",
 "No existing test drives the aggregator; the property is about call histories.",
 ["src/util/StatAggregator.cpp"],[("RegisterStat / Update / Reset / StartRecording / StopRecording / Snapshot / Generate","src/util/StatAggregator.cpp")],
 [("state_","INIT, STOPPED or RECORDING","include/cn24/util/StatAggregator.h")])

prop("C20","Optimizer steps apply exactly the configured update to every parameter",
 "A gradient-descent step changes every parameter of every trainable layer by the learning rate times the accumulated, batch-scaled gradient including the configured L1/L2 regularisation, plus momentum times the previous step, and remembers that step; parameters of untrained parts are untouched. The learning rate for an iteration follows the configured decay formula. The alternative optimizer applies its own documented step, and resetting restores the initial optimizer state.",
 ["inputs","histories"],"all parameter counts, gradients, settings and step sequences",
 "No existing test runs a training step.",
 ["src/net/Trainer.cpp"],[("Trainer::ApplyGradients / CalculateLR / Epoch / Reset","src/net/Trainer.cpp")])

prop("C21","Network execution visits each node once, in dependency order",
 "For every complete acyclic network, one forward pass runs each layer exactly once and only after all layers whose outputs it consumes, and one backward pass runs each layer exactly once and only after all layers that pass gradients back to it. Nodes are registered once however often they are added, and a network is reported complete exactly if it has an input and an output node and every connection refers to an output of a node that is in it. Before execution every layer is connected exactly once, to the tensors its connections name, and on weight initialisation every layer is told exactly the layers that pass gradients back to it, after those. Outputs consumed more than once have their gradients summed.",
 ["programs","configurations"],"all acyclic network topologies and all orders of adding nodes",
 "Existing tests build one fixed chain of layers.",
 ["src/net/NetGraph.cpp"],[("NetGraph::AddNode / FeedForward / BackPropagate / IsComplete / Initialize","src/net/NetGraph.cpp")])

prop("C22","Network parameters survive a save and load unchanged",
 "Saving a network's parameters and loading them into a network of the same structure, built in the same order, makes every parameter of every layer bit-identical, whatever the order in which layers are stored internally. Loading with a range of layers affects exactly that range. The total weight count equals the number of stored parameter elements.",
 ["inputs","programs"],"all networks with any number of parameterised layers, all parameter values",
 "No existing test saves or loads parameters.",
 ["src/net/NetGraph.cpp","src/util/Tensor.cpp"],[("NetGraph::SerializeParameters / DeserializeParameters","src/net/NetGraph.cpp")])

prop("C23","Training visits every sample once per pass and testing walks in order",
 "The dataset input layer delivers every training sample exactly once per pass over the training set, in an order that is a permutation determined by the seed, and delivers test samples in dataset order. Batch slots beyond the end of a non-empty test set carry zero weight. Data, label, helper and weight of a batch slot always come from the same sample.",
 ["histories","inputs"],"all sample counts, batch sizes, seeds and numbers of passes",
 "No existing test uses a dataset.",
 ["src/net/DatasetInputLayer.cpp"],[("DatasetInputLayer::FeedForward / RedoPermutation / SetTestingMode","src/net/DatasetInputLayer.cpp")])

prop("C24","Stream datasets return the stored sample, padded, with matching weights",
 "A stream dataset's sample holds the stored image and label at the top-left of tensors large enough for every training and testing image, zero elsewhere, with weight from the class weighting inside the stored image and zero outside it, and helper coordinates that run from 0 to 1 over the stored image's width and height and depend only on pixel position. Samples are numbered in stored order for both training and testing. Out-of-range indices are refused.",
 ["inputs"],"all stream contents with mixed image sizes, all indices",
 "No existing test uses a dataset.",
 ["src/util/TensorStreamDataset.cpp"],[("TensorStreamDataset constructor / GetTrainingSample / GetTestingSample","src/util/TensorStreamDataset.cpp")])

prop("C25","Patch datasets number every patch position of every image exactly once",
 "A patch dataset's training and testing indices correspond one-to-one to the patch positions of the images in stored order, and the returned patch holds exactly the image pixels at that position with the label and weight of its centre. Sample counts are the sums over the images of the number of patch positions. Out-of-range indices are refused.",
 ["inputs"],"all stream contents with mixed image sizes, patch sizes, indices",
 "No existing test uses a dataset.",
 ["src/util/TensorStreamPatchDataset.cpp"],[("TensorStreamPatchDataset constructor / GetTrainingSample / GetTestingSample","src/util/TensorStreamPatchDataset.cpp")])

prop("C26","Whole-image patch extraction covers every pixel and mirrors at the border",
 "Extracting patches from an image yields one patch per pixel, numbered row by row, whose elements are the image pixels around it in every map, mirrored at the image border (position -k reads pixel k, position w-1+k reads pixel w-k), and optionally reduced by the patch mean. Label extraction yields the label at the corresponding pixel, with weight zero exactly where it is the ignored class. No pixel outside the image is read for any patch not larger than the image.",
 ["inputs"],"all image and patch sizes, maps, samples and contents",
 "No existing test calls patch extraction.",
 ["src/util/Segmentation.cpp"],[("Segmentation::ExtractPatches / ExtractLabels","src/util/Segmentation.cpp")])

prop("C27","Eight-bit pixels survive conversion to and from network values",
 "Converting any 8-bit pixel value to a network value and back yields the same 8-bit value, so an image written to and read back from a lossless image file is unchanged in every channel and pixel. Rendering the maps of two or more classes as colours picks, for every pixel, the colour of the class with the largest value, whatever the sign of the values, and leaves the class maps unchanged.",
 ["inputs"],"all pixel values, image shapes, class counts and contents including all-negative ones",
 "No existing test reads or writes an image.",
 ["include/cn24/util/Config.h","src/util/PNGUtil.cpp","src/util/Colorize.cpp"],[("DATUM_FROM_UCHAR / UCHAR_FROM_DATUM","include/cn24/util/Config.h"),("PNGUtil::LoadFromStream / WriteToStream","src/util/PNGUtil.cpp"),("Dataset::Colorize","src/util/Colorize.cpp")])

prop("C28","Configuration text is parsed to the values it states",
 "For every configuration or layer description, a recognised key yields exactly the value written behind it, keys that are absent leave the caller's value unchanged, and unrecognised or malformed layer descriptions are rejected. The layer created from a description has the parameters the description states.",
 ["inputs"],"all configuration strings",
 "Existing tests check a dozen fixed descriptors.",
 ["src/util/ConfigParsing.cpp","src/net/LayerFactory.cpp","src/factory/ConfigurableFactory.cpp"],[("Parse*IfPossible","src/util/ConfigParsing.cpp"),("LayerFactory","src/net/LayerFactory.cpp")])

prop("C29","GPU kernels and CPU code compute the same results",
 "For every layer with a GPU implementation, running it on the GPU produces the same outputs and gradients as the CPU implementation up to rounding, wherever the tensors currently reside. Data moved between devices is never stale.",
 ["inputs","histories"],"all layers, shapes, contents and placements",
 "The tests here run without an OpenCL device.",
 ["kernels","src/math/TensorMath.cpp","src/util/Tensor.cpp"],[("OpenCL kernels","kernels"),("Tensor::MoveToCPU / MoveToGPU","src/util/Tensor.cpp")])

prop("C30","Parallel loops give the same results for every thread count and schedule",
 "Every loop that is run by several threads produces the same outputs, gradients and statistics for every number of threads and every interleaving. No two threads write the same element.",
 ["schedules"],"all thread counts and interleavings",
 "Tests run one schedule on tiny inputs.",
 ["src/net","src/math/TensorMath.cpp"],[("#pragma omp parallel for loops","src/net, src/math")])

prop("C31","The HMax activation applies its trained logistic function and exact gradients",
 "The HMax activation layer sets every output element to the logistic function of a times the input element plus b, with its two trained weights a and b. Back-propagation gives each input element the output gradient times the derivative of that function, plus a sparsity term that is proportional to the configured regularisation weight and depends only on that element's output; with regularisation weight zero nothing is added. With regularisation weight zero the gradients of a and b are the sums, over all elements, of output gradient times the derivative with respect to a and b, times the layer's local learning rate. The input data is never changed.",
 ["inputs"],"all shapes, parameters and contents",
 GRAD+"loss value and multi-map behaviour are not established.",
 ["src/net/HMaxActivationFunction.cpp"],[("HMaxActivationFunction::FeedForward / BackPropagate / CalculateLossFunction","src/net/HMaxActivationFunction.cpp")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
