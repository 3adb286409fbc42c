#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the property list changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Feature-index compression is lossless and bounded",
 "Encoding any non-decreasing list of feature indexes (16-, 32- or 64-bit unsigned) and decoding the resulting bytes yields exactly the original list, each index costing at most ten bytes. Decoding never reads outside the code bytes it was given, and byte strings that end in the middle of a number are rejected rather than read past.",
 ["inputs"], "for every index list of every length and width, and every code byte string",
 "The number of index lists is unbounded and the failures sit at byte-length boundaries and at gaps above 2^31, which the three sampled lists of the unit test never reach.",
 ["include/sol/pario/compress.h", "include/sol/math/vector.h"],
 [("run_len_encode / run_len_decode", "include/sol/pario/compress.h"), ("comp_index / decomp_index", "include/sol/pario/compress.h")],
 observe_at=["comp_index followed by decomp_index on a Vector<T>"])

prop("C02", "Binary data files read back exactly, and damage is never read as data",
 "A data set written in the binary format and read again gives the same records in the same order: label, feature indexes and feature values bit for bit. A file that stops inside a record, or whose header or length fields contradict each other, ends in an error status and never in a record that was not written.",
 ["inputs", "crash_points"], "for every sequence of examples and every truncation point of the resulting file",
 "Tests write one small file and read it back whole; the guarantee is over every record content and every byte at which the file may end.",
 ["src/sol/pario/binary_reader.cc", "src/sol/pario/binary_writer.cc", "src/sol/pario/file_reader.cc", "src/sol/pario/file_writer.cc"],
 [("BinaryWriter::Write", "src/sol/pario/binary_writer.cc"), ("BinaryReader::Next", "src/sol/pario/binary_reader.cc"), ("FileReader::Read", "src/sol/pario/file_reader.cc")])

prop("C03", "Sorting an example orders its features and loses none",
 "After sorting an example its feature indexes are in non-decreasing order, and its (index, value) pairs are exactly the pairs it had before, each the same number of times. The label and the number of features do not change, and the test for being sorted answers yes exactly when the indexes are strictly increasing.",
 ["inputs"], "for every example with any number of features, indexes in any order, including duplicates",
 "Sorting bugs that drop or mis-pair an element need particular permutations (duplicates, pivot at an end) that a sampled example does not contain.",
 ["src/sol/pario/data_point.cc"],
 [("QuickSort", "src/sol/pario/data_point.cc"), ("DataPoint::Sort / IsSorted", "src/sol/pario/data_point.cc")])

prop("C04", "Vector arithmetic touches exactly the addressed entries and computes them right",
 "An element-wise operation between dense vectors or matrices, scalars and sparse examples sets every addressed entry of the target to the stated function of its operands and leaves every other entry unchanged. A dot product or norm is the sum over exactly the addressed entries; example features beyond the dimension of the dense operand are ignored; nothing outside either operand is read or written, and dense operands of different shape are refused.",
 ["inputs"], "for every length, every sorted sparse index set, every value, every operator",
 "Off-by-one and out-of-range accesses depend on the relation between vector length and largest index, and a memory access just past the end usually goes unnoticed by a test.",
 ["include/sol/math/matrix_expression.h", "include/sol/math/expression.h", "include/sol/math/operator.h"],
 [("CalcExp (dense, sparse)", "include/sol/math/matrix_expression.h"), ("dot / reduce", "include/sol/math/matrix_expression.h"), ("op::*", "include/sol/math/operator.h")])

prop("C05", "A prediction is the linear score and changes nothing",
 "For a trained linear model the score of a class is the bias plus the dot product of that class's weights with the example, features the model has never seen counting as zero. A two-class model answers the positive class for scores that are not negative and the negative class otherwise; a multi-class model answers a class whose score is largest. Predicting leaves the model unchanged, so the same example always gets the same answer.",
 ["inputs", "histories"], "for every weight vector, example, class count, and interleaving of predictions",
 "Tests compare one trained accuracy; ties, examples with unseen features, and predictions that alter lazily updated models need inputs a sampled run does not hit.",
 ["src/sol/model/online_linear_model.cc", "src/sol/model/model.cc"],
 [("OnlineLinearModel::Predict", "src/sol/model/online_linear_model.cc"), ("Model::Predict/Test", "src/sol/model/model.cc")])

prop("C06", "Growing, copying and clearing containers keeps their contents",
 "Growing a vector, matrix or sparse vector keeps every existing element and makes new capacity zero, never shrinks capacity, and appending adds exactly the new element at the end. Copies share one storage that is released exactly once, when the last copy goes away.",
 ["inputs", "histories"], "for every sequence of resize, reserve, append, pop, clear, copy and destroy operations and every size",
 "A lost element or a double release appears only at reallocation boundaries or for particular orders of copying and destroying.",
 ["include/sol/math/vector.h", "include/sol/math/matrix.h", "include/sol/math/matrix_storage.h", "include/sol/math/sparse_vector.h"],
 [("Vector::resize / push_back", "include/sol/math/vector.h"), ("MatrixStorage::resize", "include/sol/math/matrix_storage.h"), ("reference counting", "include/sol/math/matrix.h")])

prop("C07", "The selected-feature heap always holds the K best features",
 "Once set up with K of N features that are no worse than the others, and after every value change reported to it (an outside feature through UpdateHeap, an inside feature that got better through AdjustHeap), the heap holds exactly K distinct features and no feature outside it is strictly better than one inside. The position lookup and the stored members always agree, so asking whether a feature is selected gives the true answer, and the top is the worst selected feature.",
 ["inputs", "histories"], "for every N and K, every initial value array and every sequence of value changes",
 "Heap corruption depends on the history of updates and on ties; a handful of updates rarely exercises all sift paths.",
 ["include/sol/util/heap.h"],
 [("BuildHeap / AdjustHeap / UpdateHeap", "include/sol/util/heap.h")])

prop("C08", "Feature-selection learners never exceed their feature budget",
 "A learner trained from scratch that was told before training to select B features (PET, FOFS, SOFS, AdaFOBOS-OFS, AdaRDA-OFS) has at most B features with non-zero weight after every processed example and at the end of training.",
 ["inputs", "histories"], "for every sequence of training examples, budget and learning rate",
 "The budget must hold after every step of an arbitrary training history, including steps where features leave and re-enter the selection or the dimension grows.",
 ["src/sol/model/olm/ogd.cc", "src/sol/model/olm/fofs.cc", "src/sol/model/olm/arow.cc", "src/sol/model/olm/ada_fobos.cc", "src/sol/model/olm/ada_rda.cc"],
 [("PET / FOFS / SOFS / OFS updates", "src/sol/model/olm/*.cc"), ("MinHeap/MaxHeap", "include/sol/util/heap.h")])

prop("C09", "Loss functions are non-negative, consistent, and leave scores intact",
 "Every loss value is non-negative, is zero when no gradient is needed, and evaluating the loss alone gives the same number as evaluating it with its gradient. The gradient is the stated derivative with respect to each class score and nothing else is written; the given scores are unchanged on return.",
 ["inputs"], "for every score vector, true label, predicted label and number of classes",
 "Losses are evaluated on real-valued inputs; sign errors at the hinge corner, at ties between classes, or for large scores are not seen on sampled data.",
 ["src/sol/loss/bool_loss.cc", "src/sol/loss/hinge_loss.cc", "src/sol/loss/logistic_loss.cc", "src/sol/loss/square_loss.cc"],
 [("loss / gradient", "src/sol/loss/*.cc")])

prop("C10", "An online step updates exactly when and where it should",
 "Processing one example (all examples taken, no active sampling) advances the step counter by one, and performs and counts exactly one update if its loss is positive (with the lazy-update option, only if the predicted label is wrong) and none otherwise. An update applies the learner's published rule and, but for learners that rescale all weights (alma2, fofs), changes only weights of features present in the example and the bias. An example without an update leaves the weights as they are, apart from deferred truncation or dual-averaging refresh of the features it contains.",
 ["inputs", "histories"], "for every model state, example and label, for every learner",
 "Each learner's rule has to hold for every reachable state and real-valued input; accuracy tests cannot distinguish a subtly wrong rule from a right one.",
 ["src/sol/model/online_linear_model.cc", "src/sol/model/online_model.cc", "src/sol/model/olm"],
 [("OnlineLinearModel::Iterate / TrainPredict", "src/sol/model/online_linear_model.cc"), ("<Learner>::Update", "src/sol/model/olm/*.cc")])

prop("C11", "L1 truncation only ever shrinks weights towards zero",
 "Truncating a value by a non-negative amount never changes its sign or increases its magnitude, gives exactly zero when the magnitude does not exceed the amount, and otherwise reduces it by that amount. For lazily truncated learners a feature absent for n examples receives, when next seen or when training ends, one truncation by n times the current rate times lambda: with a constant learning rate the same as if it had been truncated on each of them. Every feature is truncated for every example once and only once.",
 ["inputs", "histories"], "for every weight, threshold and gap between occurrences of a feature",
 "Whether deferred truncation equals immediate truncation depends on the pattern of feature gaps over the whole history.",
 ["include/sol/math/operator.h", "src/sol/model/olm/ogd.cc", "src/sol/model/regularizer.cc"],
 [("op::trunc", "include/sol/math/operator.h"), ("STG / FOBOS_L1", "src/sol/model/olm/ogd.cc"), ("OnlineRegularizer", "src/sol/model/regularizer.cc")])

prop("C12", "The blocking queue loses, duplicates and reorders nothing",
 "Items come out of the blocking queue in the order they were put in, each exactly once, and the queue never holds more than its capacity. Taking from an empty queue and putting into a full one wait instead of returning anything invalid, and a wait ends once the other side has made progress.",
 ["schedules"], "for every interleaving of any number of producers and consumers, including spurious wake-ups",
 "A test runs a few schedules; lost wake-ups and races need particular interleavings.",
 ["include/sol/util/block_queue.h", "include/sol/util/monitor.h", "include/sol/util/mutex.h"],
 [("BlockQueue::Enqueue / Dequeue", "include/sol/util/block_queue.h"), ("Monitor", "include/sol/util/monitor.h")])

prop("C13", "Iterating a data set yields every record once per pass, in order",
 "Reading one or more data sets with any batch size, buffer size and number of passes delivers, for each pass, every record exactly once in file order with the batches full except the last, and then ends. A read error ends that data set after the records before it, and destroying the iterator early never hangs.",
 ["inputs", "schedules", "configurations"], "for every number of records, batch size, buffer count, pass count and thread schedule",
 "Batch-boundary and end-of-pass conditions combine with the reader thread's schedule; tests use one data size and batch size.",
 ["src/sol/pario/data_read_task.cc", "src/sol/pario/data_iter.cc", "include/sol/pario/data_iter.h"],
 [("DataReadTask::run", "src/sol/pario/data_read_task.cc"), ("DataIter", "src/sol/pario/data_iter.cc")])

prop("C14", "Text data parses to the numbers it shows, or is refused",
 "Every well-formed svm or csv record is read as the label, indexes and values it spells, to within float rounding, in order. A record with a malformed label, index or value is reported as an error and never read as different data; writing examples and reading them back restores labels and indexes exactly and values to the printed precision.",
 ["inputs"], "for every text line",
 "The space of text lines is unbounded; sign, exponent, whitespace and end-of-line corner cases decide acceptance.",
 ["include/sol/pario/numeric_parser.h", "src/sol/pario/svm_reader.cc", "src/sol/pario/csv_reader.cc", "src/sol/pario/svm_writer.cc", "src/sol/pario/csv_writer.cc"],
 [("ParseInt/ParseUint/ParseFloat", "include/sol/pario/numeric_parser.h"), ("SVMReader::Next", "src/sol/pario/svm_reader.cc"), ("CSVReader::Next", "src/sol/pario/csv_reader.cc")])

prop("C15", "In-memory arrays are read as exactly the rows they hold",
 "Reading a dense or compressed-sparse-row matrix yields one record per row, in row order, with that row's label and, for dense rows, every column as a feature, for sparse rows exactly the stored entries. Reading stops after the last row, rewinding starts over, and no access falls outside the arrays.",
 ["inputs"], "for every number of rows and columns, stride and sparsity pattern",
 "Stride and offset arithmetic goes wrong only for particular layouts and for sizes near integer limits.",
 ["src/sol/pario/numpy_reader.cc", "src/sol/pario/csr_matrix_reader.cc"],
 [("NumpyReader::Next", "src/sol/pario/numpy_reader.cc"), ("CsrMatrixReader::Next", "src/sol/pario/csr_matrix_reader.cc")])

prop("C16", "Preprocessing does only what was asked of it",
 "Before an example is used, a two-class model maps the label 1 to +1 and every other label to -1; a multi-class model leaves labels alone. With normalisation on, values are divided by the requested norm (L1: sum of magnitudes, L2: root of the sum of squares) and zero examples stay zero; with a pre-selected feature list, the values of features outside the list become zero and the others are kept in order and unchanged. Nothing else about the example changes.",
 ["inputs", "configurations"], "for every example, label set and option combination",
 "Zero norms, all-filtered examples and label corner cases are not part of the sampled data.",
 ["src/sol/model/model.cc", "src/sol/model/online_model.cc"],
 [("Model::PreProcess / CalibrateLabel / FilterFeatures", "src/sol/model/model.cc")])

prop("C17", "Growing the feature space keeps what was learned",
 "When an example brings features beyond the current dimension, all existing weights and per-feature state are kept, the new weights start at zero and the new per-feature state at its documented start value, and all per-feature state has the new dimension before it is used. The dimension never shrinks.",
 ["inputs", "histories"], "for every model type and sequence of dimensions",
 "Mismatched auxiliary arrays show only when a later example has a larger index than all before; the tests use fixed-dimension data.",
 ["src/sol/model/online_linear_model.cc", "src/sol/model/online_model.cc", "src/sol/model/olm"],
 [("update_dim", "src/sol/model/online_linear_model.cc and overrides")])

prop("C18", "A saved model loads as the same predictor",
 "Loading a saved model restores its type, number of classes, options and every weight, so it gives the same predictions as the model that was saved, and training can go on from it. Loading a damaged or truncated model file reports an error and terminates.",
 ["inputs", "crash_points"], "for every model type, parameter setting, trained state and truncation point of the file",
 "Tests save and load one model; precision loss and fields that are not restored depend on the state.",
 ["src/sol/model/model.cc", "src/sol/model/online_model.cc", "src/sol/model/online_linear_model.cc", "include/sol/math/matrix.h"],
 [("Model::Save / Load", "src/sol/model/model.cc"), ("GetModelInfo/SetModelInfo, GetModelParam/SetModelParam", "src/sol/model")])

prop("C19", "Data-set tools neither lose nor invent records",
 "Splitting puts every record of the input into exactly one fold, with fold sizes as equal as possible; shuffling outputs a permutation of the records; converting and concatenating output the same records in the same order; and analysing counts examples, features and classes exactly.",
 ["inputs"], "for every data set, fold count and file format",
 "Lost or duplicated records depend on divisibility of sizes and fold counts and on size itself.",
 ["src/sol/tools.cc", "tools/concat.cc"],
 [("analyze / convert / shuffle / split", "src/sol/tools.cc")])

prop("C20", "Invalid hyper-parameters are refused, valid ones taken over exactly",
 "Setting a hyper-parameter outside its range (learning rates eta, bias_eta, power_t, rou and the start time t >= 0; delta, sigma, k, active_smoothness and cost_margin > 0, the last for two classes only; alpha in (0,1]; for FOFS lambda >= 0 and B > 0; at least two classes; a loss made for the number of classes and the learner; a known norm) raises an error, a value inside it is taken over exactly, and an unknown parameter name is refused.",
 ["inputs", "configurations"], "for every parameter name and value of every learner",
 "Range checks have boundary values for each of many parameters and learners; tests set a few valid values.",
 ["src/sol/model/model.cc", "src/sol/model/online_model.cc", "src/sol/model/olm", "src/sol/model/regularizer.cc"],
 [("SetParameter overrides", "src/sol/model")])

prop("C21", "Reported error rates count each example once",
 "The error rate reported by training or testing is the number of examples whose predicted label differed from their label, divided by the number of examples processed, each processed example counted exactly once over all passes.",
 ["inputs", "histories"], "for every data set, number of passes and batch size",
 "Double counting across batches or passes shows only for particular batch splits.",
 ["src/sol/model/model.cc", "src/sol/model/online_model.cc"],
 [("OnlineModel::Train", "src/sol/model/online_model.cc"), ("Model::Test", "src/sol/model/model.cc")])

prop("C22", "Line reading returns whole lines of any length",
 "Reading a text file (no NUL characters, lines shorter than 2^28 characters) line by line returns exactly the file's lines in order, whatever their length, including a last line without a line break, and then reports the end of the file. Reading never overruns the buffer.",
 ["inputs"], "for every file content and line length",
 "The buffer-growth path depends on line lengths relative to the buffer size at every growth step.",
 ["src/sol/pario/file_reader.cc"],
 [("FileReader::ReadLine", "src/sol/pario/file_reader.cc")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
