#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe,
                               **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                               hook_needed=hook)))

prop("C01", "Recognition does not depend on how the audio stream is chunked",
     "However a caller cuts the bytes of an utterance into successive process calls, including inside a sample, the final text and score are bit-identical, and after any number of bytes the partial text is the same as after any other way of supplying those bytes. The sample counts returned by the calls add up to the number of whole samples supplied.",
     ["inputs", "histories"], "all ways of cutting a byte stream into chunks (all compositions over cut points placed at sample, frame-shift, frame-length, batch and hypothesis-update boundaries, plus and minus one byte), sample widths 8/16/32, batch sizes and contexts",
     "No test drives the public API at all; TestFbankStreaming tries one chunk size at the feature stage. Chunk boundaries interact with four independent carry-over buffers (partial sample, partial window, context frames, hypothesis update counter).",
     ["src/ce_stt.cc", "src/pcm_reader.cc", "src/fbank.cc", "src/am.cc", "src/decoder.cc"],
     [("byte carry-over", "WaveReader::Process"), ("sample carry-over", "Fbank::Process wave_buffer"), ("frame carry-over", "AcousticModel::Process feats_buffer")],
     ["ce_stt_process return value", "utt->hyp", "utt->loglikelihood_per_frame"])

prop("C02", "Utterances sharing one recognizer do not affect each other",
     "The result of an utterance depends only on the recognizer's model and on that utterance's own audio: not on utterances decoded before it, nor on utterances whose calls are interleaved with its own, nor on utterances decoded at the same time on another thread.",
     ["schedules", "histories"], "all interleavings of the API call sequences of two utterances (init, process, end, destroy) on one thread; all thread schedules of two decoding threads up to a preemption bound at their conflicting memory accesses; all short sequences of earlier utterances",
     "Tests decode nothing end to end, use one instance at a time and one thread; leaking state needs a particular earlier or concurrent utterance.",
     ["src/ce_stt.cc", "src/fbank.cc", "src/am.cc", "src/nnet.cc", "src/decoder.cc", "src/fst.cc", "src/srfft.cc"],
     [("per-utterance instance objects", "ce_utt_internal_t, Fbank::Instance, AcousticModel::Instance"), ("const shared recognizer", "ce_stt_t, const Process methods")],
     ["utt->hyp", "utt->loglikelihood_per_frame"])

prop("C03", "API misuse and failed calls are harmless",
     "A call that fails (no data, non-positive size, missing utterance, unsupported format, unreadable configuration) returns its documented failure value, leaves a non-empty error message, and has no effect on any utterance's later results. The hypothesis is always a valid NUL-terminated string, no sequence of calls reads or writes outside owned memory, and destroying what was created returns all memory.",
     ["histories", "fault_sequences"], "all sequences up to a bounded length of valid and invalid API calls on two utterances and one recognizer, for every supported and several unsupported formats",
     "No test calls the public API with wrong arguments or in unusual orders.",
     ["src/ce_stt.cc", "src/ce_stt.h", "src/pcm_reader.cc"],
     [("argument checks", "CheckParamUtt, WaveReader::Process, WaveReader::SetFormat"), ("error buffer", "error_message in ce_stt.cc"), ("ownership", "ce_stt_destroy, ce_utt_destroy")],
     ["return values", "ce_stt_last_error()", "utt->hyp", "allocated bytes"])

prop("C04", "Decoding returns the cheapest path through the graph",
     "When no path is pruned, the words and the cost reported after the end of the stream are those of a cheapest path from the start state to a final state that consumes exactly the scored frames, where a path costs its arc weights plus its final weight once plus the scaled negative frame scores. If there is no such path the result is empty, and a running hypothesis before the end is that of a cheapest path so far.",
     ["inputs"], "all small decoding graphs (states, emitting and non-emitting arcs with and without output words, self-loops, parallel arcs, non-final and unreachable states) x all small frame-score sequences",
     "The decoder has no unit test at all; optimality is a statement over all graphs and score sequences.",
     ["src/decoder.cc", "src/decoder.h", "src/hashtable.h"],
     [("Viterbi recombination", "Decoder::InsertTok"), ("emitting and epsilon expansion", "Decoder::ProcessEmitting / ProcessNonemitting"), ("best final token", "Decoder::BestPath")],
     ["Decoder::BestPath().words()", "Decoder::BestPath().weight()"])

prop("C05", "Decoding with a large language model equals exact composition",
     "With a large back-off language model configured, the words and cost returned are those of the cheapest path when every emitted word's original unigram weight is replaced by its weight in the large model, from the begin-of-sentence state and including the end-of-sentence weight. Paths with the same graph state but different word histories are kept apart whenever the large model distinguishes the histories.",
     ["inputs"], "all small decoding graphs x small back-off models (bigrams with back-off arcs) x small score sequences",
     "Only the language-model classes are tested, on one model; no test runs the decoder with a language model.",
     ["src/decoder.cc", "src/fst.cc", "src/fst.h"],
     [("composed token state", "Decoder::State"), ("LM propagation", "Decoder::PropogateLm"), ("delta LM", "DeltaLmFst"), ("LM arc cache", "CachedFst")],
     ["Decoder::BestPath().words()", "Decoder::BestPath().weight()"])

prop("C06", "Pruning never loses a path that stays within the beam",
     "The reported cost is always the true cost of an actual path carrying the reported words, and it is never worse than the best path whose every prefix stays within the beam of the cheapest hypothesis of its frame, whatever the order in which states and arcs are visited. When more hypotheses are active than the limit, the cheapest is always kept, and as long as the number of hypotheses stays within the limit it drops none.",
     ["inputs"], "all small graphs with arc weights and scores around the beam width; all orders of arcs; active-hypothesis counts below, at and above the limit",
     "No decoder test exists; pruning faults only show when a path temporarily falls behind by almost the beam.",
     ["src/decoder.cc"],
     [("beam cut-off", "Decoder::GetCutoff"), ("next-frame bound", "Decoder::ProcessEmitting next_weight_cutoff"), ("epsilon cut-off", "Decoder::ProcessNonemitting")],
     ["Decoder::BestPath()"])

prop("C07", "Words already recognized survive arbitrarily long utterances",
     "Periodic housekeeping of recognition history never changes a hypothesis: at every frame of an utterance of any length, with any pattern of words and silence, the full word sequence of every surviving hypothesis is still available and correct.",
     ["histories", "inputs"], "all patterns of word, silence and competing-branch segments spanning several housekeeping periods (collections every 20 frames), including periods in which no new word is emitted",
     "pool_test performs one collection on a static structure; the defect-prone part is repeated collections with and without allocations between them.",
     ["src/decoder.cc", "src/pool.h"],
     [("mark and sweep every 20 frames", "Decoder::Process, GCPool::GC"), ("label trie maintenance", "Decoder::OLabel::OnCollect")],
     ["Decoder::BestPath().words() after every frame"])

prop("C08", "Object pools never lose, duplicate or prematurely destroy objects",
     "Under any sequence of allocations, releases, clears and collections, a live object keeps its address and content, no two live objects share storage, every object is constructed once and destroyed exactly once, and a collection destroys exactly the objects not reachable from the given roots.",
     ["histories"], "all operation sequences (alloc with any predecessor, dealloc of any live object, clear, collect with any root subset) up to a bounded depth for several block sizes",
     "pool_test runs two hand-written sequences.",
     ["src/pool.h"],
     [("bump and free-list allocation", "Pool::Alloc / Dealloc / Clear"), ("mark and sweep", "GCPool::GC")],
     ["object constructors/destructors", "returned pointers", "allocated_nodes(), free_nodes()"])

prop("C09", "The decoder's hash table is a map",
     "For any initial capacity and any sequence of insertions, updates, lookups and clears, including keys that collide, negative keys and growth, a lookup returns the value of the most recent insertion of that key since the last clear or the given default, and every operation terminates.",
     ["histories"], "all operation sequences up to a bounded depth over colliding key sets for every small capacity; fill-up sequences through several growth steps",
     "hashtable_test inserts random integers into one large table.",
     ["src/hashtable.h", "src/hashtable.cc"],
     [("quadratic probing", "HashTable::Lookup"), ("growth", "HashTable::ExtendBuckets")],
     ["HashTable::Find"])

prop("C10", "Back-off language model queries follow back-off semantics",
     "For any back-off model the weight and next state of a word are those of the explicit arc if the history has one, otherwise the back-off weight plus the result in the shorter history, failing only if the chain ends; final weights back off the same way. The difference model subtracts exactly the small model's weight for the word, handles sentence begin and end, and the query cache never changes any answer.",
     ["inputs", "histories"], "all small back-off models (states, explicit arcs, back-off chains, final and non-final states) x all query sequences up to a bound x cache sizes including heavy collisions",
     "fst_test walks one 4-word model along fixed sentences and never uses the cache.",
     ["src/fst.cc", "src/fst.h"],
     [("binary search over sorted arcs", "Fst::GetArc, Fst::CountArcs"), ("back-off recursion", "LmFst::GetArc / Final"), ("state-0 table", "LmFst::InitBucket0"), ("delta", "DeltaLmFst"), ("cache", "CachedFst::GetArc")],
     ["GetArc / Final / StartState results"])

prop("C11", "Acoustic scores are per-frame and independent of batching",
     "For every utterance length, batch size and left/right context, exactly one score row is produced per feature frame, in order, equal to the network applied to the frame with its neighbours (edge frames repeated beyond the ends) minus the log prior, whatever the batch size.",
     ["inputs", "configurations"], "all (frames, batch size, left, right context, network shape) up to a bound, with networks built from splice/linear/narrow layers",
     "No test touches the acoustic model class.",
     ["src/am.cc", "src/am.h", "src/nnet.cc"],
     [("context buffer", "AcousticModel::Process / EndOfStream / ComputeBatch"), ("edge replication", "AcousticModel::AppendFrame")],
     ["log_prob rows of Process and EndOfStream"])

prop("C12", "Network layers compute their defining formulas for all inputs",
     "Each layer type computes its defining function on every row for every non-empty input shape and value, independent of batch size and of what the output matrix held before; softmax and log-softmax outputs are normalized for all finite inputs, however large or small, and finite whenever the result is representable, and normalization of an all-zero row stays finite.",
     ["inputs"], "all layer types x all small shapes x value alphabets including extreme magnitudes x prior contents of the output matrix x layer stacks read from files",
     "nnet_test evaluates one small example per layer with moderate values.",
     ["src/nnet.cc", "src/vector.cc", "src/matrix.cc"],
     [("layer propagation", "*Layer::Propagate"), ("softmax", "VectorBase::ApplySoftMax / ApplyLogSoftMax")],
     ["Propagate output"])

prop("C13", "Streaming feature extraction matches whole-utterance extraction",
     "For every sample count and every way of splitting the samples, one feature frame is produced for each complete 25 ms window at 10 ms steps, as soon as its last sample arrives, and its 40 values match the reference log mel filterbank computation of that window.",
     ["inputs", "histories"], "all splits of sample streams over cut points around window and shift boundaries, including empty pieces; all stream lengths around boundaries; waveforms including silence, impulses and full-scale extremes",
     "fbank_test compares one recording for one chunk size.",
     ["src/fbank.cc", "src/srfft.cc"],
     [("window buffer", "Fbank::Process"), ("frame count", "Fbank::CalcNumFrames"), ("mel filters", "Melbanks")],
     ["Fbank::Process output rows"])

prop("C14", "WAV headers and PCM samples are decoded exactly or rejected",
     "A header is accepted only if it is a canonical 16-bit-style PCM header whose fields are consistent, and then the reported format is the one in the file and the stream is positioned at the first data byte; any other or truncated header is rejected with a message. Every 8-, 16- or 32-bit little-endian sample, at every position and chunk split, is delivered exactly once with its value, and only mono 16 kHz streams are accepted.",
     ["inputs"], "every single-byte mutation and every truncation of a valid header; all field combinations from boundary sets; all sample values (8/16-bit) and boundary values (32-bit); all chunk splits of short streams",
     "No test in the suite reads malformed headers or odd chunk sizes.",
     ["src/pcm_reader.cc", "src/pcm_reader.h", "src/ce_stt.cc"],
     [("header checks", "ReadPcmHeader"), ("format check", "WaveReader::SetFormat"), ("sample decoding", "WaveReader::Process")],
     ["ce_read_pcm_header", "WaveReader::Process output"])

prop("C15", "Loading a damaged or incomplete model fails cleanly",
     "If any model or configuration file is missing, truncated at any byte, or has a corrupted header or size field that makes it unreadable, or any required setting is absent or not a number, initialization returns failure with a non-empty message instead of crashing, hanging or returning a recognizer, and releases everything it allocated.",
     ["fault_sequences", "inputs"], "every truncation point of every file of a small model; every corruption from a boundary set of every structural field; every missing file; every missing or malformed configuration key; for configurations with and without a large LM",
     "No test loads a complete model, let alone a damaged one.",
     ["src/ce_stt.cc", "src/am.cc", "src/nnet.cc", "src/vector.cc", "src/matrix.cc", "src/fst.cc", "src/configuration.cc", "src/symbol_table.cc"],
     [("status propagation", "PK_CHECK_STATUS"), ("section size checks", "Vector::Read, Matrix::Read, Fst::Read"), ("cleanup", "ce_stt_init failure path")],
     ["ce_stt_init result", "ce_stt_last_error()", "allocated bytes"])

prop("C16", "Configuration, list and symbol files are read as written",
     "Configuration files yield exactly the trimmed value of each key (case-insensitive, last one wins, comments and blank lines ignored), relative paths resolved against the file's directory, and report malformed lines; symbol tables map every listed word to its id and back. This holds for every file with or without a final newline, with LF or CRLF line ends and with lines of any length.",
     ["inputs"], "all files of up to a few lines over a line alphabet (valid, spaced, commented, blank, malformed, duplicate keys) x line endings x final newline x line lengths around the read buffer size",
     "configuration_test reads one file; symbol_table_test is not part of the suite.",
     ["src/configuration.cc", "src/symbol_table.cc", "src/util.cc"],
     [("line reading", "ReadableFile::ReadLine"), ("parsing", "Configuration::Read, SymbolTable::Read, util::Split, util::Trim")],
     ["Configuration getters", "SymbolTable::Get / GetId / bos_id / eos_id"])

prop("C17", "Binary model sections round-trip exactly and reject damage",
     "A vector, matrix, network or language-model section written in the documented format is read back with exactly the written shape and values and the reader stops exactly at its end; a section that is truncated at any byte or whose name, size or dimensions are inconsistent is reported as an error, never accepted with undefined contents.",
     ["inputs", "fault_sequences"], "all small shapes and element types; every truncation point; every structural field replaced by each value of a boundary set",
     "Tests read two valid files; the documented failure behaviour is never exercised.",
     ["src/vector.cc", "src/matrix.cc", "src/fst.cc", "src/nnet.cc", "src/util.cc"],
     [("section readers", "Vector::Read, Matrix::Read, Fst::Read, Nnet::Read")],
     ["Status and contents after Read"])

prop("C18", "Vector and matrix containers behave as values",
     "Under any sequence of resizing (zeroing, undefined, copying), swapping, moving, copying, transposing and sub-range access, vectors and matrices hold exactly the values a reference container would, never touch memory outside their bounds, and release all memory when destroyed.",
     ["histories"], "all operation sequences up to a bounded depth over two objects and a small set of dimensions including zero",
     "No test exercises container operations beyond construction.",
     ["src/vector.cc", "src/vector.h", "src/matrix.cc", "src/matrix.h"],
     [("resize modes", "Vector::Resize, Matrix::Resize"), ("moves and swaps", "Vector move operations, Swap"), ("views", "SubVector, SubMatrix")],
     ["element values", "allocated bytes"])

prop("C19", "Quantized multiplication stays within quantization error",
     "Quantizing any finite non-empty matrix yields parameters and bytes that reproduce every element to within one quantization step (and zero exactly when zero lies in the range), and multiplying two quantized matrices equals the exact integer product of the dequantized operands, for every shape with more than one element per operand and any values including constant, all-positive, all-negative and all-zero matrices.",
     ["inputs"], "all shapes up to a bound around kernel block sizes x value patterns including constants, single-signed ranges and extremes",
     "gemm_test multiplies one random 0..1 matrix shape.",
     ["src/matrix.cc", "src/gemmlowp/internal", "src/gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc"],
     [("range and zero point", "ComputeQuantizationParams"), ("packing, kernel, unpacking", "gemmlowp internal"), ("float output", "EightBitIntGemm float overload")],
     ["Quantize output", "MatMat_U8U8F32 output"])

prop("C20", "Parallel quantized multiplication is schedule-independent",
     "With any number of worker threads and any interleaving of caller and workers, including repeated calls, changes of the thread limit and concurrent callers, every multiplication returns the same result as with one thread, every call returns, and no task is lost or executed twice.",
     ["schedules"], "all schedules up to a preemption bound of the worker pool hand-off (caller plus 1-3 workers, 1-3 successive batches) and of concurrent public calls",
     "gemm_test uses a single thread; ordering faults need specific preemptions.",
     ["src/gemmlowp/internal/multi_thread_gemm.h", "src/gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc"],
     [("blocking counter", "BlockingCounter"), ("worker state machine", "Worker::ChangeState / ThreadFunc"), ("pool", "WorkersPool"), ("global lock", "SingletonLock in eight_bit_int_gemm.cc")],
     ["result matrix", "termination"])

prop("C21", "The FFT is a discrete Fourier transform for every size",
     "For every power-of-two size the transform of every input equals the discrete Fourier transform (forward) or its unnormalized inverse (backward) to rounding accuracy, forward followed by backward returns the input times the size, and the result is the same with any scratch buffer contents.",
     ["inputs"], "all sizes 2..2048 x all basis impulses (real and imaginary), which determine a linear map completely, x linearity on pairs",
     "srfft_test transforms one vector of one size.",
     ["src/srfft.cc", "src/srfft.h"],
     [("split-radix recursion and tables", "SRFFT::ComplexfftComputeRecursive, ComputeTable"), ("bit reversal", "SRFFT::BitReversePermute")],
     ["SRFFT::Compute output"])

prop("C22", "Sliding-window mean normalization matches its definition",
     "For every frame of a feature matrix of any length, the normalized frame is the raw frame minus the mean of up to 600 most recent frames smoothed with up to 200 frames' worth of the global mean, whichever values the features take.",
     ["inputs", "histories"], "all lengths around the window and smoothing boundaries x feature patterns, frame by frame",
     "cmvn_test is not part of the suite and covers one short recording, shorter than the window.",
     ["src/cmvn.cc", "src/cmvn.h"],
     [("running sums", "CMVN::ComputeStats"), ("smoothing", "CMVN::SmoothStats")],
     ["CMVN::GetFrame output"])

prop("C23", "The command-line recognizer reports one correct line per input",
     "For a single audio file the program prints its transcription; for a list it prints one line per entry, in order, with the entry's name and the same transcription as when that file is recognized alone; on unreadable, malformed or unsupported input it prints an error and exits with a non-zero status instead of crashing.",
     ["inputs", "histories"], "all lists of up to three entries over a file alphabet (several valid recordings, repeated, empty, truncated, wrong format, missing, malformed line) x line endings",
     "No test runs the program.",
     ["src/main.cc", "src/ce_stt.cc"],
     [("list processing", "process_scp"), ("per-file decoding", "ProcessAudio")],
     ["stdout and exit status of the program"])

prop("C24", "Model conversion tools preserve the model",
     "Every value in a text-format model that a conversion tool accepts appears unchanged in the binary it writes, which the recognizer's loader reads back to exactly the same values; pruning a language model to its unigrams keeps exactly the unigram entries and yields a well-formed model.",
     ["inputs"], "all small text models (dimensions, layer stacks, value notations) x tools; all small ARPA models x orders x header layouts",
     "No test runs the tools.",
     ["tool/convert_am.py", "tool/convert_cmvn_stats.py", "tool/convert_unigram.py", "tool/convert_trans.py", "tool/prune_lm.py"],
     [("section writers", "tool/convert_*.py"), ("ARPA filter", "tool/prune_lm.py")],
     ["written files as read by Vector/Matrix/Nnet/SymbolTable readers"])

prop("C25", "The decoding graph is loaded exactly or rejected",
     "A decoding graph stored in the OpenFst constant format is loaded with exactly the stored start state, arcs, labels, weights and final weights, aligned or unaligned, and a file truncated at any byte or of another type is refused.",
     ["inputs", "fault_sequences"], "all small graphs; every truncation point; every header byte corrupted by each value of a boundary set",
     "No test loads a decoding graph from a file.",
     ["src/openfst/include/fst/const-fst.h", "src/openfst/lib/fst.cc", "src/openfst/lib/mapped-file.cc", "src/ce_stt.cc"],
     [("constant format reader", "ConstFst::Read / ConstFstImpl::Read"), ("header", "FstHeader::Read")],
     ["states, arcs and final weights through the Fst interface"])

prop("C26", "Memory use is bounded on unbounded streams",
     "However long a stream is, the memory an utterance holds is bounded by what its active hypotheses need: after any repetition of the same audio segment, memory does not keep growing with the number of frames decoded.",
     ["histories"], "all cyclic patterns of score segments up to a bound, repeated; heap held after k and 2k repetitions compared",
     "No test decodes more than a few frames or measures memory.",
     ["src/decoder.cc", "src/pool.h", "src/am.cc", "src/fbank.cc", "src/pcm_reader.cc"],
     [("token recycling", "Decoder::ProcessEmitting, InsertTok, Pool::Dealloc"), ("label collection", "GCPool::GC"), ("buffer trimming", "Fbank::Process, AcousticModel::Process, WaveReader::Process")],
     ["allocated bytes during decoding"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
