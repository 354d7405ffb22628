import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe]}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Compression is lossless for every input and every option",
 "Decompressing an archive yields exactly the bytes that were compressed, for every input (empty, one byte, runs, periodic, incompressible, all 256 byte values, longer than one block) and every combination of entropy coder, memory limit, number of starting points and transform algorithm. Both programs finish and exit with success.",
 ["inputs","configurations"],"every byte string as input; every entropy coder (H, M, m, u, b, B), memory limit, starting-point count 1..256 and transform choice",
 "The tests round-trip a few short strings with one or two coders through in-memory streams; the programs are never run, and block boundaries, section boundaries, long codes and huge runs are not sampled.",
 ["Compressor.cpp","Decompressor.cpp","WaveletCoders.cpp","HuffmanCoders.cpp","WaveletTree.hpp","BWTBlock.cpp","compress.cpp","uncompress.cpp"],
 [("block loop","Compressor.cpp: Compressor::compress"),("inverse block loop","Decompressor.cpp: Decompressor::decompress"),("run-length Huffman coder","HuffmanCoders.cpp: encodeData/decodeBlock"),("wavelet coder","WaveletCoders.cpp: encodeData/decodeBlock")],
 "exit status and output bytes of compress | uncompress, and of Compressor/Decompressor driven through monitored streams")
p("P02","Pair-replacement preprocessing is lossless for any number of rounds",
 "Compressing with any number of pair-replacement rounds and decompressing yields the original bytes, and so does running the stand-alone preprocessing program followed by the post-processing program, for every input, block size and number of rounds. This includes blocks of a few bytes, inputs that use all 256 byte values, and overlapping repeats such as aaaa.",
 ["inputs","configurations"],"every byte string; every number of rounds (including zero); every block size or memory limit",
 "Tests feed a handful of short strings to single replacer rounds; which symbols get freed, escaped or reused depends on the whole frequency profile of a block, and several rounds interact.",
 ["preprocessors/PairReplacer.cpp","preprocessors/Precompressor.cpp","preprocessors/Grammar.cpp","preprocessors/Postprocessor.cpp","PrecompressorBlock.cpp","preprocess.cpp","postprocess.cpp"],
 [("replacement rounds","preprocessors/Precompressor.cpp: precompress"),("pair choice and writing","preprocessors/PairReplacer.cpp"),("grammar expansion","preprocessors/Postprocessor.cpp: uncompress")],
 "output bytes of compress --prepr | uncompress and preprocess | postprocess, and of the same pipeline driven in process")
p("P03","The Burrows-Wheeler transform is exact and its inverse undoes it",
 "For every block the transform produces the true Burrows-Wheeler transform of the reversed block with an end marker smaller than every byte, together with correct starting positions and character counts, and the two suffix-sorting algorithms give the same result. The inverse transform recovers the block from it for any number of starting positions, and the suffix array routine returns the sorted suffixes.",
 ["inputs","configurations"],"every block content and length up to 2^31-3, every number of starting positions from 1 to 256, both algorithms",
 "Correctness depends on the full ordering of all suffixes; the tests use uniformly random letters, on which long common prefixes, deep recursion and tie-breaking code hardly run.",
 ["bwtransforms/divsufsort.c","bwtransforms/sssort.c","bwtransforms/trsort.c","bwtransforms/sais.hxx","bwtransforms/MtlSaInverseBWT.cpp","bwtransforms/BWTransform.cpp","bwtransforms/InverseBWT.cpp","bwtransforms/BWTManager.cpp"],
 [("divsufsort BWT","bwtransforms/divsufsort.c: divbwt, divbwtf"),("SA-IS BWT","bwtransforms/sais.hxx: saisxx_bwt"),("inverse with several starting positions","bwtransforms/MtlSaInverseBWT.cpp: doTransform")],
 "transformed bytes, starting positions and counts returned for a block")
p("P04","Output does not depend on channel, repetition, verbosity or algorithm choice",
 "The archive is a function of the input bytes and of the options that affect coding: it is byte-identical whether input comes from a file or from standard input in arbitrary small pieces, whether output goes to a file, a pipe, a redirected or appended-to file, whichever transform algorithm is chosen, at every verbosity level, however the options are spelled and ordered, wherever the files are and whatever they are called, and on every repetition, whatever else the same process compressed before or in between. The same holds for the output of the decompressing, preprocessing and post-processing programs.",
 ["inputs","configurations","schedules"],"every input; every way of delivering input bytes and consuming output bytes; every verbosity level and transform choice",
 "No test runs the programs; pipes, partial reads and appended output never occur in the tests, nor does comparing runs.",
 ["Streams.cpp","compress.cpp","uncompress.cpp","preprocess.cpp","postprocess.cpp","bwtransforms/BWTManager.cpp"],
 [("back-patched block length","Streams.cpp: RawOutStream::write48bits"),("buffered reads","Streams.cpp: RawInStream::fetchByte")],
 "bytes received at the output channel of each program")
p("P05","Entropy encoder and decoder stay in step for every bit sequence and model",
 "For every sequence of bits and every sequence of probabilities, including zero and one, the range decoder returns exactly the bits the range encoder was given and consumes exactly the bytes it wrote. For every probability model and every sequence of sections, the wavelet-tree decoder reconstructs each section, and at every step its model predicts the same legal probability as the encoder's did.",
 ["inputs","histories"],"every bit sequence with every probability history, every byte section sequence, all probability models",
 "A desynchronisation shows only for particular carry or renormalisation patterns and model histories; tests use a few short strings and constant probabilities.",
 ["BitCoders.cpp","BitCoders.hpp","WaveletTree.hpp","WaveletCoders.cpp","probmodels/ProbabilityModel.cpp","probmodels/BitPredictors.hpp"],
 [("range coder","BitCoders.cpp: BitEncoder/BitDecoder"),("wavelet tree coding","WaveletTree.hpp: encodeTreeBF, decodeTreeBF"),("adaptive models","probmodels/")],
 "log of (bit, probability) events at encoder and decoder and bytes written/consumed")
p("P06","Prefix codes are complete, optimal and survive serialisation",
 "For every frequency distribution the computed Huffman code lengths satisfy Kraft equality and have the minimum possible total cost (a single symbol gets length one), and the code words derived from lengths are prefix-free. The shape of a code or wavelet tree written into an archive is read back identically for every alphabet, including one symbol and all 256.",
 ["inputs"],"every frequency vector over up to 256 symbols with nonzero entries, including ones leading to very long codes; every alphabet",
 "Tests compare a few hand-made distributions; optimality and completeness are statements about every distribution, and a slightly suboptimal code still round-trips.",
 ["Utils.cpp","Utils.hpp","HuffmanCoders.cpp","WaveletTree.hpp"],
 [("in-place code lengths","Utils.cpp: calculateCodeLengths"),("canonical codes","Utils.cpp: computeHuffmanCodes"),("shape serialisation","HuffmanCoders.cpp: serializeShape, deserializeShape; WaveletTree.hpp: treeShape, readShape")],
 "code lengths and code words returned; shapes parsed back")
p("P07","Integer and run-length primitives are exact and invertible",
 "Every integer that fits its format is returned unchanged after packing and unpacking, unary and binary coding with any bounds, and every sorted list after binary interpolative coding, with the reported number of bytes or bits equal to what was written or read. Run-length statistics of any byte string equal its actual maximal runs, and logarithm and most-significant-bit helpers are exact.",
 ["inputs"],"all integers up to 2^56-1 for packed form, all bounds lo <= n <= hi below 2^62, all strictly increasing lists, all byte strings",
 "The domains are astronomically large and errors hide at powers of two, full ranges and the last element; tests sample small values.",
 ["Utils.hpp","Utils.cpp"],
 [("packed integers","Utils.cpp: packInteger, unpackInteger, packAndWriteInteger, readAndUnpackInteger"),("interpolative code","Utils.hpp: binaryInterpolativeCode, binaryInterpolativeDecode"),("run statistics","Utils.cpp: calculateRunsAndCharacters and siblings")],
 "returned values and produced bits")
p("P08","Byte and bit streams deliver exactly what was written",
 "Any sequence of byte writes, block writes, position queries, later overwrites of six-byte fields and flushes leaves exactly the corresponding bytes in the file. Reading any file through any mix of block, bit, byte and six-byte reads delivers exactly its bytes in order, and a block read returns fewer bytes than asked only at the end of the file, including around buffer boundaries.",
 ["histories","inputs"],"every sequence of stream operations over files of every length, in particular around multiples of 65536",
 "The test writes and reads one fixed pattern; buffer-boundary behaviour depends on the exact history of operations.",
 ["Streams.cpp","Streams.hpp"],
 [("output buffer","Streams.cpp: RawOutStream"),("input buffer and bit buffer","Streams.cpp, Streams.hpp: RawInStream")],
 "file contents after closing, values returned by reads")
p("P09","Sizes stated in and about an archive are true",
 "The compressed size the compressor reports equals the size of the archive; the total size and number of blocks the preprocessor reports are those of its input and output; every block length field equals the number of bytes that follow up to the next block; section lengths add up to the block; and the original sizes add up to the input size. The decoder consumes every byte of the archive, no more and no fewer, and no block exceeds what the memory limit allows.",
 ["inputs","configurations"],"every input and option combination, including several blocks and up to 256 sections",
 "Round-trip tests ignore these fields, because the decoder does not need most of them; they are visible only by walking the archive.",
 ["WaveletCoders.cpp","HuffmanCoders.cpp","Compressor.cpp","PrecompressorBlock.cpp","BWTBlock.cpp","BitCoders.hpp"],
 [("block length accounting","WaveletCoders.cpp, HuffmanCoders.cpp: m_compressedBlockLength"),("reported size","Compressor.cpp: compress; compress.cpp")],
 "archive bytes, reported size, bytes consumed by the decoder")
p("P10","No memory error, undefined behaviour or leak on any valid input",
 "On every input and option combination, compressing, decompressing, preprocessing and post-processing perform no out-of-bounds access, use of freed or uninitialised memory, signed overflow, invalid shift or failed internal assertion, and release all memory they allocate.",
 ["inputs","configurations"],"every input and option combination",
 "Most such errors do not change the output in a normal build; the tests run without any detector.",
 ["WaveletTree.hpp","HuffmanCoders.cpp","probmodels/ProbabilityModel.cpp","preprocessors/PairReplacer.cpp","preprocessors/FrequencyTable.cpp","bwtransforms/MtlSaInverseBWT.cpp","bwtransforms/divsufsort.c","Streams.cpp"],
 [("raw buffers and tables","throughout")],
 "reports of AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, checked containers and Valgrind memcheck")
p("P11","I/O and memory failures are reported, never silently turned into a bad result",
 "If opening, reading, writing, seeking, closing or allocating memory fails at any point, including a full disk detected only at the final flush, the program that hit it exits with a nonzero status. Exit status zero means that the complete correct output was delivered.",
 ["fault_sequences","inputs"],"a failure (ENOSPC, EIO, short write, EISDIR, ENOENT, EACCES-like) injected at every read, write, seek and close call of the four programs, and a failing memory allocation at any point",
 "The tests never let a system call fail.",
 ["Streams.cpp","Streams.hpp","compress.cpp","uncompress.cpp","preprocess.cpp","postprocess.cpp"],
 [("output error checks","Streams.cpp: writeToFile, flush, ~RawOutStream"),("input error checks","Streams.cpp: fetchByte, peekByte")],
 "exit status together with the output bytes")
p("P12","Truncated archives are rejected",
 "Given any proper prefix of an archive or of a preprocessed file, as left behind by an interrupted transfer or a crash, the decompressing or post-processing program terminates promptly with a nonzero exit status, instead of hanging or reporting success.",
 ["crash_points","inputs","configurations"],"every input, every coder, every cut position from 0 to length-1",
 "Tests only decode complete archives; whether a cut is noticed depends on where it falls.",
 ["Streams.cpp","Streams.hpp","WaveletCoders.cpp","HuffmanCoders.cpp","Decompressor.cpp","PrecompressorBlock.cpp"],
 [("end-of-file checks","Streams.cpp: fetchExistingByte"),("short block check","PrecompressorBlock.cpp: readBlockHeader")],
 "exit status and termination of uncompress and postprocess on every prefix")
p("P13","Memory use is bounded by the memory limit, not by the input",
 "Peak heap use while compressing stays within the memory limit given by the user, exceeding it by no more than a third and a fixed overhead of a few megabytes, for every input length and content; processing more blocks does not need more memory. Decompression needs memory proportional to the block size used in compression only.",
 ["inputs","configurations"],"every input length and content, every memory limit, every coder, with and without preprocessing",
 "Tests never measure memory and only use inputs of one block.",
 ["Compressor.cpp","PrecompressorBlock.cpp","preprocessors/Precompressor.cpp","WaveletCoders.cpp","HuffmanCoders.cpp"],
 [("block size choice","Compressor.cpp: compress"),("block release","Compressor.cpp, Decompressor.cpp: delete pb")],
 "peak of live heap bytes recorded by an interposed allocator")
p("P14","Preprocessing never expands a block and its grammar is self-contained",
 "After any number of replacement rounds a block is never longer than before, and preprocessing is skipped or stops when it does not help. The serialised grammar together with the replaced data alone determines the original: writing the grammar and reading it back gives the same rules, escape symbols and freed symbols, and expanding with them by the definition gives the original block.",
 ["inputs","histories"],"every block content and every number of rounds",
 "Whether replacement pays off and which symbols are freed depends on global frequencies; tests check a few constructed grammars.",
 ["preprocessors/PairReplacer.cpp","preprocessors/FrequencyTable.cpp","preprocessors/Grammar.cpp","preprocessors/Precompressor.cpp","preprocessors/Postprocessor.cpp"],
 [("cost/benefit decision","preprocessors/PairReplacer.cpp: decideReplacements"),("grammar format","preprocessors/Grammar.cpp: writeGrammar, readGrammar")],
 "block length before and after, grammar bytes, independently expanded grammar")
p("P15","The programs validate options and touch only the output file",
 "Invalid option values (unknown coder, transform or preprocessing letter, starting points outside 1..256, non-numeric numbers, unknown options, too many files) are rejected with a nonzero exit status before any file is created or changed, and every documented valid value is accepted. A missing input leaves an existing output file untouched, the input file is never modified (naming it as the output too is refused), and an existing output file is replaced completely.",
 ["configurations","histories"],"every combination of option values and pre-existing file states for the four programs",
 "The tests do not run the programs at all.",
 ["compress.cpp","uncompress.cpp","preprocess.cpp","postprocess.cpp","Streams.cpp","bwtransforms/BWTManager.cpp"],
 [("option validation","compress.cpp: validate*; preprocess.cpp: validatePreprocOption"),("opening order","Compressor.cpp, Decompressor.cpp constructors")],
 "exit status and file system state before and after")
p("P16","The archive format is stable",
 "Archives and preprocessed files written by the current version are decoded correctly by the pinned version of the programs, and those written by the pinned version are decoded correctly by the current one, for every input and option combination.",
 ["inputs","configurations"],"every input, coder, preprocessing and starting-point choice",
 "A change made consistently in encoder and decoder passes every round-trip test but makes existing archives unreadable.",
 ["WaveletCoders.cpp","HuffmanCoders.cpp","BWTBlock.cpp","PrecompressorBlock.cpp","EntropyCoders.cpp","preprocessors/Grammar.cpp","probmodels/ProbabilityModel.cpp","BitCoders.cpp"],
 [("format definition","block headers in WaveletCoders.cpp, HuffmanCoders.cpp, BWTBlock.cpp, PrecompressorBlock.cpp, Grammar.cpp")],
 "cross decoding between the current tree and the pinned sources")
p("P17","Compression effectiveness is guaranteed, not only correctness",
 "With the default coder incompressible input grows by no more than a small fixed percentage plus a per-block constant, with every coder by less than a constant factor, and long runs and highly repetitive input shrink to a tiny fraction, with every coder. The range coder spends at most a small constant more than the information content of the probabilities it is given. Archives are not noticeably larger than those the pinned version of the program makes from the same input and options.",
 ["inputs","configurations","histories"],"every input and coder, every probability history",
 "A loss of effectiveness breaks no round trip; tests never look at sizes.",
 ["BitCoders.cpp","BitCoders.hpp","probmodels/ProbabilityModel.cpp","probmodels/BitPredictors.hpp","WaveletTree.hpp","HuffmanCoders.cpp","WaveletCoders.cpp"],
 [("interval subdivision","BitCoders.hpp: Split; BitCoders.cpp: encode"),("model update","probmodels/")],
 "archive size against input size, coded bits against the sum of -log2 of probabilities")
p("P18","Running time is near-linear in the input size whatever the content",
 "Compressing, decompressing, preprocessing and post-processing n bytes take a number of steps bounded by a constant times n plus a constant per block and round, for every content: long runs, periodic, Fibonacci-like and other highly repetitive input, random input and sorted input, with both suffix-sorting algorithms and every coder. No input makes the work grow quadratically, and none takes several times the steps the pinned version needs.",
 ["inputs","configurations"],"every input content and size, algorithm and coder",
 "Tests use small or ordinary inputs; a sorter that degenerates on deep repeats still returns the right answer there.",
 ["bwtransforms/divsufsort.c","bwtransforms/sssort.c","bwtransforms/trsort.c","bwtransforms/sais.hxx","bwtransforms/MtlSaInverseBWT.cpp","WaveletTree.hpp","HuffmanCoders.cpp","Utils.cpp","preprocessors/PairReplacer.cpp","preprocessors/Postprocessor.cpp"],
 [("sorting budget","bwtransforms/trsort.c: trbudget; bwtransforms/sssort.c: introsort depth limits"),("linear sorting","bwtransforms/sais.hxx"),("inverse transform","bwtransforms/MtlSaInverseBWT.cpp")],
 "number of executed basic blocks of the programs per input byte")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    try: jsonschema.validate(x,s)
    except Exception as e: print(x['id'],e.message)
    if len(x['title'])>80: print('title',x['id'],len(x['title']))
print(len(P))
