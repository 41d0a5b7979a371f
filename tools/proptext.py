"""The text of every property (see gen.py)."""

SEARCH = "seeded deterministic simulation with fault injection"
NOTE = ("Seeded search: sampled, not exhaustive. Every run is a pure function of its choice sequence; determinism is re-checked during every batch, "
        "violations are minimised and must replay in a fresh process. Trusts g++, libstdc++ and the harness models in sim/. ")

CLAIMED = {
    "C01": dict(
        title="Random engines survive checkpoint, crash and restore without losing their place",
        statement="A random engine written to a character stream at any point of its sequence and read back (into any other engine of its type, on any stream that also carries other data, in any number base, in any delivery chunking) compares equal to the saved engine and produces exactly the draws the uninterrupted engine would have produced next. Writing a checkpoint never disturbs the engine, and reading one consumes no more of the stream than the engine's own text. This holds for every engine the library offers and however often checkpoints, crashes and restores alternate.",
        over=["histories", "crash_points", "fault_sequences"],
        quant="every engine type and seed, every position in its sequence (also right before and after internal refills), every alternation of draws, checkpoints, syncs, crashes with lost or torn writes, restores from the latest complete record, and every chunking of the reading stream",
        why="The suite draws from engines but never serialises one and restores it elsewhere; the position at which an engine is saved and what surrounds it on the stream range over histories.",
        files=["sprout/random/mersenne_twister.hpp", "sprout/random/linear_congruential.hpp", "sprout/random/inversive_congruential.hpp", "sprout/random/shuffle_order.hpp", "sprout/random/additive_combine.hpp", "sprout/random/xor_combine.hpp", "sprout/random/linear_feedback_shift.hpp", "sprout/random/taus88.hpp", "sprout/random/mersenne_twister_cxx14.hpp"],
        state=[("engine state", "words that determine all later draws", "x_, i_, v_, y_, rng_ members of the engines")],
        mechanism=[("stream insertion and extraction of each engine", "operator<< and operator>> friends in sprout/random/*.hpp"), ("state equality", "operator== friends in sprout/random/*.hpp")],
        observe_at=["engine text on a stream", "draws after a restore", "engine equality"],
        technique=SEARCH + ": crash/restart of checkpointing nodes against an uninterrupted twin",
        level_note=NOTE + "The uninterrupted twin engine is the oracle; the disk is simulated (durable image plus un-synced writes, lost or torn at a crash).",
    ),
    "C02": dict(
        title="A damaged engine checkpoint is refused and changes nothing",
        statement="Restoring a random engine from text that is truncated, holds something that is not a number of the engine's kind, holds a number outside the values the engine can hold, or comes from a device that fails midway, reports failure on the stream and leaves the target engine exactly as it was. When a restore reports success, the engine holds exactly the numbers of the text and every draw it then makes lies within its declared range.",
        over=["fault_sequences", "inputs"],
        quant="every engine type and saved position, every combination of up to three storage faults (truncation, byte junk, digit flips, inserted digits or signs, lost bytes or blocks), device errors at any byte, with and without stream exceptions, any chunking",
        why="No test feeds a damaged checkpoint; the faults range over every byte of the text.",
        files=["sprout/random/mersenne_twister.hpp", "sprout/random/linear_congruential.hpp", "sprout/random/inversive_congruential.hpp", "sprout/random/shuffle_order.hpp", "sprout/random/additive_combine.hpp", "sprout/random/xor_combine.hpp", "sprout/random/linear_feedback_shift.hpp"],
        mechanism=[("validation in the extraction operators", "operator>> friends in sprout/random/*.hpp")],
        observe_at=["stream state after a restore", "target engine equality and draws after a refused restore", "range of draws after an accepted one"],
        technique=SEARCH + ": storage and device faults on checkpoint text",
        level_note=NOTE + "An independent number reader decides what the text holds; runs under AddressSanitizer too.",
    ),
    "C03": dict(
        title="Replicas of a random engine that consumed the same draws agree",
        statement="However clients advance a random engine (drawing in place, drawing functionally and going on with the returned state, stepping results as iterators, filling arrays, iterating ranges, or skipping ahead), and however they are delayed, crash and recover by reseeding, copying or swapping, each sees the sequence the engine's published algorithm produces from the seed. All replicas that consumed the same number of draws compare equal. Skipping n draws equals drawing n times, also when n is far too large to draw.",
        over=["schedules", "histories", "fault_sequences"],
        quant="every engine and seed, every assignment of draw batches to 2-4 replicas and mechanisms, every order of delays, crashes, reseeds and state transfers, every skip length up to 2^64",
        why="The suite compares a few functional draws with each other; it never mixes mechanisms, never compares with an independent generator over whole refills, and never skips.",
        files=["sprout/random/mersenne_twister.hpp", "sprout/random/linear_congruential.hpp", "sprout/random/inversive_congruential.hpp", "sprout/random/shuffle_order.hpp", "sprout/random/additive_combine.hpp", "sprout/random/xor_combine.hpp", "sprout/random/linear_feedback_shift.hpp", "sprout/random/random_result.hpp", "sprout/random/generate_array.hpp", "sprout/random/iterator.hpp", "sprout/random/range.hpp"],
        state=[("engine state", "words that determine all later draws", "members of the engines")],
        mechanism=[("in-place and functional draw", "operator() overloads of the engines"), ("result iteration", "sprout/random/random_result.hpp"), ("skipping ahead", "discard() of the engines")],
        observe_at=["draw values", "engine equality", "range lengths"],
        technique=SEARCH + ": replicated state machines under delay, crash and state transfer",
        level_note=NOTE + "Reference generators from libstdc++ and Boost.Random of the same parameters; skips of congruential engines against an independent 128-bit computation.",
    ),
    "C04": dict(
        title="A distribution's draws are a function of its state and the words it is given",
        statement="From the same source words, a distribution draws the same value and uses the same number of words however it is invoked: in place, functionally going on with the returned state, with an explicit parameter set, through a variate generator, result iteration, a random range or an array filler. The value lies in the distribution's range and is the one its published algorithm (uniform, Bernoulli, geometric, Poisson, binomial, normal, canonical) yields for those words, also for the extreme words of any source range. If the source fails in the middle of a draw, or parameters change or the distribution is reset, later draws are those of a distribution in that state.",
        over=["inputs", "histories", "fault_sequences"],
        quant="every distribution and parameter set, every word type and word range of the source, every word sequence including the extremes, every alternation of mechanisms, every word at which the source fails, every change of parameters",
        why="The suite draws a few values from one engine with default parameters; it never checks a value against its words, never meets extreme words or rejection loops, and never fails the source.",
        files=["sprout/random/uniform_int_distribution.hpp", "sprout/random/uniform_smallint.hpp", "sprout/random/uniform_01.hpp", "sprout/random/uniform_real_distribution.hpp", "sprout/random/bernoulli_distribution.hpp", "sprout/random/geometric_distribution.hpp", "sprout/random/poisson_distribution.hpp", "sprout/random/binomial_distribution.hpp", "sprout/random/normal_distribution.hpp", "sprout/random/generate_canonical.hpp", "sprout/random/variate_generator.hpp", "sprout/random/random_result.hpp", "sprout/random/detail/uniform_int_float.hpp"],
        state=[("cached half of a normal pair", "value returned by the next draw without using words", "normal_distribution members")],
        mechanism=[("in-place and functional draw", "operator() overloads of the distributions"), ("generator composition", "sprout/random/variate_generator.hpp, sprout/random/random_result.hpp")],
        observe_at=["drawn values", "words consumed", "distribution equality and parameters"],
        technique=SEARCH + ": adversarial and failing bit sources against reference models",
        level_note=NOTE + "Reference models are written in the harness; where a floating comparison of the model is within rounding of going the other way only the range of the value is checked.",
    ),
    "C05": dict(
        title="A value written to a stream comes back equal, whatever surrounds it",
        statement="A value whose type has both stream operators (bitset, complex, quaternion, rational, tribool, optional, value holder, uuid, fixed-capacity string of non-blank characters, distribution, distribution parameter set), written to a character stream under any format that keeps its digits and read back under the same format, equals the original, and a distribution read back draws the same values. Reading takes exactly the characters of the value, so records before and after it are read back too, however the stream delivers its characters and wherever a crash cut the log after the last complete record. Neither operator leaves the format of the stream changed.",
        over=["histories", "crash_points", "inputs"],
        quant="every value of every streamable type, every order of 1-6 values on one stream with or without separators where the text is self-delimiting, every combination of base, alignment, fill, width, sign, boolalpha, skipws flags, every chunking and every cut of the log",
        why="The suite never writes a value and reads it back; formats, neighbours, chunking and cuts range over histories.",
        files=["sprout/bitset/io.hpp", "sprout/complex/stream_operators.hpp", "sprout/math/quaternion/stream_operators.hpp", "sprout/rational/io.hpp", "sprout/logic/tribool/io.hpp", "sprout/optional/io.hpp", "sprout/utility/value_holder/io.hpp", "sprout/uuid/io.hpp", "sprout/string/io.hpp", "sprout/random/uniform_int_distribution.hpp", "sprout/random/normal_distribution.hpp", "sprout/random/binomial_distribution.hpp"],
        mechanism=[("stream insertion and extraction", "operator<< and operator>> in the io.hpp and stream_operators.hpp headers")],
        observe_at=["values read back", "characters consumed", "stream format after each operation", "draws of restored distributions"],
        technique=SEARCH + ": logs of values with crashes, torn tails and chunked reading",
        level_note=NOTE + "The written value is the oracle.",
    ),
    "C06": dict(
        title="Text that holds no value of the type is refused and changes nothing",
        statement="Extracting a value (bitset, complex, quaternion, rational, tribool, optional, value holder, uuid, distribution or parameter set) from text that does not begin with one, from a device that fails midway or from a stream already failed, reports failure and leaves the target as it was; a fixed-capacity string may hold a prefix of the text instead. Extraction that reports success yields the value the text holds and takes exactly its characters.",
        over=["inputs", "fault_sequences"],
        quant="every value text with 0-3 damages (cuts, flips, insertions, deletions, junk), every device error position, every initial stream state, with and without stream exceptions, every format and chunking",
        why="No test extracts from malformed text; damage ranges over every byte.",
        files=["sprout/bitset/io.hpp", "sprout/complex/stream_operators.hpp", "sprout/math/quaternion/stream_operators.hpp", "sprout/rational/io.hpp", "sprout/logic/tribool/io.hpp", "sprout/optional/io.hpp", "sprout/utility/value_holder/io.hpp", "sprout/uuid/io.hpp", "sprout/string/io.hpp", "sprout/random/uniform_int_distribution.hpp", "sprout/random/normal_distribution.hpp", "sprout/random/binomial_distribution.hpp"],
        mechanism=[("validation in the extraction operators", "operator>> in the io.hpp and stream_operators.hpp headers")],
        observe_at=["stream state", "target value", "characters consumed"],
        technique=SEARCH + ": storage, device and stream faults against reference readers",
        level_note=NOTE + "Reference readers over the standard library decide what the text holds; runs under AddressSanitizer too. A zero denominator may be refused by exception; numerals whose normalisation overflows have no expectation.",
    ),
    "C07": dict(
        title="Output that a sink did not take is reported, never silently lost",
        statement="When a value is inserted into a stream whose device fills up or fails after any number of characters, the characters delivered are a prefix of the value's text, and the stream reports the loss (through its state, or by exception if so configured); when the device takes everything the stream stays good. Nothing is written to a stream that had already failed, and the format of the stream is as before.",
        over=["fault_sequences", "inputs"],
        quant="every insertable type (values as above, string views, variants, random engines, distributions), every format, every number of characters the device takes, refusing and throwing devices, with and without stream exceptions",
        why="Tests only write to healthy streams.",
        files=["sprout/bitset/io.hpp", "sprout/complex/stream_operators.hpp", "sprout/math/quaternion/stream_operators.hpp", "sprout/rational/io.hpp", "sprout/logic/tribool/io.hpp", "sprout/optional/io.hpp", "sprout/utility/value_holder/io.hpp", "sprout/uuid/io.hpp", "sprout/string/io.hpp", "sprout/random/uniform_int_distribution.hpp", "sprout/random/normal_distribution.hpp", "sprout/random/binomial_distribution.hpp", "sprout/utility/string_view/io.hpp", "sprout/variant/io.hpp", "sprout/random/mersenne_twister.hpp", "sprout/random/shuffle_order.hpp"],
        mechanism=[("stream insertion", "operator<< in the io.hpp and stream_operators.hpp headers and of the random engines")],
        observe_at=["characters delivered", "stream state and exceptions", "stream format"],
        technique=SEARCH + ": full and throwing sinks",
        level_note=NOTE + "The text written to a healthy stream is the oracle for the prefix; for strings and views the characters themselves.",
    ),
    "C08": dict(
        title="A digest depends only on the data, not on how the data arrived",
        statement="A sha1, md5, sum8, sum16, sum32 or xor8 accumulator that took data in any pieces (single bytes, blocks, counted buffers, ranges, md5 also single bits; in place or functionally; elements of any integer width, most significant byte first) yields the published digest of the whole data, as often as it is asked and also in the middle of the data. Copies continue independently, a reset forgets everything, and when a source fails in the middle of a functional step the accumulator is as it was. One-shot digests and version 3 and 5 name uuids equal the same digests for every text, however often a generator is reused.",
        over=["histories", "fault_sequences", "inputs"],
        quant="every split of every message into packets, every mixture of mechanisms and element types, every position at which a source fails or a client crashes back to a copy, every interleaving of several clients, message lengths up to a few megabytes",
        why="Tests digest a few short literals in one piece.",
        files=["sprout/checksum/sha1.hpp", "sprout/checksum/md5.hpp", "sprout/checksum/sum.hpp", "sprout/checksum/xor.hpp", "sprout/iterator/bytes_iterator.hpp", "sprout/endian_traits.hpp", "sprout/uuid/sha1_name_generator.hpp", "sprout/uuid/md5_name_generator.hpp"],
        state=[("partial block and length", "data taken but not yet compressed", "block_, block_byte_index_, bit_count_ members")],
        mechanism=[("accumulation and padding", "process_* and checksum members of the accumulators")],
        observe_at=["digest values"],
        technique=SEARCH + ": packet delivery with failing sources and crashes back to copies",
        level_note=NOTE + "Reference digests written from RFC 1321 and FIPS 180-1; bytes of wide elements big-endian as endian_traits documents. Not exercised: clang's alternative functional path (declared temporary in the source).",
    ),
    "C09": dict(
        title="Random rearrangement is a bijection, in place, fair and reproducible",
        statement="Whatever words the bit source delivers (constant, extreme, narrow-range, biased) and wherever it fails, shuffle, random_shuffle, random_swap, bogo_sort, bozo_sort and sample (in place, range::, fixed::, fit:: and _result forms) stay inside the given range, neither lose nor duplicate an element, leave the rest of a container and functional arguments alone, and depend only on the words drawn. The sorts end sorted by the given comparator and leave sorted input untouched without drawing; _result forms return the source as it stands after the last word read; samples are distinct elements of the right number, in order for output iterators. A fair source makes every permutation, swap and selection equally likely. Random uuids are version 4, RFC variant, otherwise the bits of four draws; white_noise is the sequence of normal draws, also piped over a range and on a second pass.",
        over=["inputs", "fault_sequences"],
        quant="every stream of words, every position at which the source fails, every range and sub-range up to a dozen elements, every operation form",
        why="Tests use one seed per algorithm and sources that never fail.",
        files=["sprout/algorithm/fixed/shuffle.hpp", "sprout/algorithm/cxx14/shuffle.hpp", "sprout/algorithm/cxx14/random_shuffle.hpp", "sprout/algorithm/random_swap.hpp", "sprout/algorithm/bogo_sort.hpp", "sprout/algorithm/bozo_sort.hpp", "sprout/algorithm/cxx14/sample.hpp", "sprout/algorithm/fixed/sample.hpp", "sprout/uuid/random_generator.hpp", "sprout/range/adaptor/white_noise.hpp"],
        mechanism=[("index drawing and swapping", "sprout/algorithm/{fixed,fit,cxx14}/{shuffle,random_swap,bogo_sort,bozo_sort,sample}*.hpp")],
        observe_at=["contents after each operation", "source position"],
        technique=SEARCH + ": simulated bit sources with adversarial words and failures",
        level_note=NOTE + "Fairness is decided by a chi-square test with a fixed threshold (error below 1e-9). Not exercised: functional shuffle given a non-const engine lvalue (does not compile).",
    ),
    "C10": dict(
        title="In-place and output algorithms work on every iterator and survive failures",
        statement="Every algorithm that changes or produces a sequence (copy, move, fill, generate, transform, replace, remove, unique, reverse, rotate, swap, partition, merge, set, heap, sort, nth_element, permutation families, for_each, clamp_range, copy_while, copy_until, gather) gives and returns what the standard algorithm of that name does, on pointers and on the weakest iterators it accepts: single-pass sources are never re-read after an advance, sinks get every position once and in order, elements outside the range, dead or moved-from ones are never touched, and callbacks are called no more often than the standard's order of growth. When an element operation, iterator or callback fails at any point, the failure propagates, nothing leaks, sources stay as they were, output written so far is a prefix of the full output, in-place algorithms never duplicate an element, and those that only swap lose none when a callback fails.",
        over=["fault_sequences", "inputs"],
        quant="every sequence up to a thousand elements, every iterator kind, every operation that may fail and every position of the failure",
        why="Tests use a few arrays of ints, pointers as iterators, and nothing ever fails.",
        files=["sprout/algorithm/cxx14", "sprout/algorithm/cxx14/detail", "sprout/utility/swap.hpp", "sprout/algorithm/iter_swap.hpp"],
        mechanism=[("in-place loops", "sprout/algorithm/cxx14/*.hpp")],
        observe_at=["contents, return values, operation counts and live elements after each call"],
        technique=SEARCH + ": elements, iterators and callbacks that fail at chosen operations",
        level_note=NOTE + "The standard library is the reference for results; growth bounds are generous multiples of the standard's (sort and nth_element: none beyond termination). Random algorithms are C09.",
    ),
    "C11": dict(
        title="Reading and numeric algorithms work on every iterator and survive failures",
        statement="Every algorithm that only reads sequences (all/any/none/one_of and their _equal forms, find family, count, adjacent_find, equal, mismatch, search, search_n, find_end, find_first_of, is_permutation, lexicographical comparison, bounds, equal_range, binary_search, partition_point, is_sorted, is_heap, is_increasing family, min/max family, clamp, includes, the find_/next_ difference, intersection, symmetric_difference and union walks, distance) and every numeric one (accumulate, fold_while, fold_until, inner_product, reduce, transform_reduce, adjacent_difference, partial_sum, the scans, iota) returns, and writes, what the standard algorithm of that name does, with or without a comparator, on pointers, random access and the weakest iterators it accepts, mixed between its sequences, and where the standard allows it onto its own source. Single-pass sources are never read after an advance, nothing outside the ranges is read, outputs get every position once and in order, folds go from front to back, and callbacks are called no more often than the standard's order of growth. When an element operation, iterator or callback fails at any point the failure propagates, nothing leaks, the sources are unchanged, and output written so far is a prefix of the full output. The scans with an initial value write that value first.",
        over=["fault_sequences", "inputs"],
        quant="every sequence up to a few hundred elements, every iterator kind and mixture, every operation that may fail and every position of the failure",
        why="Tests use a few arrays of ints through array iterators, commutative operations, and nothing ever fails.",
        files=["sprout/algorithm", "sprout/numeric", "sprout/numeric/cxx14", "sprout/iterator"],
        mechanism=[("recursive divide and conquer bodies, one for constant-distance and one for other iterators", "sprout/algorithm/*.hpp, sprout/numeric/*.hpp")],
        observe_at=["return values, outputs, sources, operation counts and live elements after each call"],
        technique=SEARCH + ": elements, iterators and callbacks that fail at chosen operations",
        level_note=NOTE + "The standard library (or a loop over the definition, where it has none) is the reference; growth bounds are generous multiples of the standard's. Built with g++ (C++11) and clang++ (C++17), which evaluate arguments in opposite orders.",
    ),
    "C12": dict(
        title="Functional algorithms and operations build exactly the container they describe",
        statement="Every algorithm of sprout::fixed and sprout::fit that returns a new container (the copy, replace, remove, unique, reverse, rotate, transform, merge, set, clamp, swap_element and partition families, the scans and sums, iota, fill, generate, unfold, recurrence, permutations, sorts and heap algorithms, with their sprout::range forms) and every size-changing operation of sprout::operation (set, insert, append, push, pop, erase and their _n and _front/_back forms, resize, resize_backward, realign, realign_to) delivers, into an array or a window of an array, the elements the algorithm's definition gives, cut to the size of the result when there are more, in the right place, leaving all other elements of the array as they were. The fit forms deliver exactly the window of the elements written (copy_backward: the last ones; partition: the matching ones; partial_sort and nth_element: up to the named position; pop_heap: the heap). The arguments are never changed. This holds for every iterator the algorithm accepts, for empty, full and longer-than-fitting sources and empty windows. When a copy, iterator or callback fails at any point, the failure propagates, nothing leaks and the arguments are unchanged.",
        over=["fault_sequences", "inputs"],
        quant="arrays of one and five elements and every window of an array of six, every source up to a few dozen elements, every iterator kind, every operation that may fail and every position of the failure",
        why="Tests use one array of ints and one window per algorithm, sources that fit, no equal elements that differ, and nothing ever fails.",
        files=["sprout/algorithm/fixed", "sprout/algorithm/fit", "sprout/numeric/fixed", "sprout/numeric/fit", "sprout/range/algorithm/fixed", "sprout/range/algorithm/fit", "sprout/operation", "sprout/sub_array", "sprout/container"],
        mechanism=[("recursive argument packs completed from the result's own elements", "sprout/detail/container_complate.hpp, sprout/algorithm/fixed/*.hpp")],
        observe_at=["the delivered array and window, the arguments, the return values and the live elements after each call"],
        technique=SEARCH + ": elements, iterators and callbacks that fail at chosen operations",
        level_note=NOTE + "The standard library (or a loop over the definition) is the reference; partition_copy is only required to partition the first elements that fit, in any order.",
    ),
    "C13": dict(
        title="Optionals, variants, tuples, pairs and arrays keep their values in any history",
        statement="Through any history of operations on sprout::optional, variant, tuple, pair, array, value_holder and compressed_pair (construction, copies, moves, conversions between each other, assignment, swap, emplace, reset, fill, visitors, in-place and piecewise construction, iteration in both directions, comparison, element access) every object holds exactly the state and values that the operations performed on it imply: an optional is engaged or empty as last set, a variant holds the alternative last assigned, the others hold the elements last assigned; comparisons order objects as documented (empty before engaged, earlier alternatives before later ones, elements lexicographically), also with values below and above the default. A source that is not given as an rvalue is never changed, and no object but those an operation names changes. Access to what is not there (at, nth, value, get of another alternative) throws. When an operation of an element fails at any point, the failure reaches the caller (it is never swallowed and never terminates the program); a failing copy, construction, comparison or visitor leaves an optional, variant or value_holder it was meant for as it was, a failing move leaves its state (engaged or not, which alternative) as it was; the elements of tuples, pairs and arrays are each the old one, the new one or a moved-from one. No element is leaked, destroyed twice or used after its destruction. Optionals, tuples and pairs of references refer to what they were given and copy assignment through them never moves from the referent.",
        over=["histories", "fault_sequences"],
        quant="every history of up to some dozens of operations over three objects of each type, every operation of an element that may fail and every position of the failure",
        why="Tests construct one object and compare it once; no test assigns, swaps or moves twice, and in none of them does an element ever fail.",
        files=["sprout/optional", "sprout/variant", "sprout/tuple", "sprout/utility/pair", "sprout/utility/value_holder", "sprout/array", "sprout/compressed_pair", "sprout/utility/compare_pointees.hpp", "sprout/utility/swap.hpp", "sprout/utility/exchange.hpp"],
        mechanism=[("copy-and-swap assignment", "sprout/optional/optional.hpp, sprout/variant/variant.hpp, sprout/utility/value_holder/value_holder.hpp")],
        state=[("pool", "three objects of one type, the identity of every element in them and the number of live elements", "sim/hist.hpp History")],
        observe_at=["the state, elements and moved-from flags of every object after each operation, the number of live elements at the end"],
        technique=SEARCH + ": histories over a pool of objects whose elements fail at chosen operations",
        level_note=NOTE + "The model is a list of element identities per object; after a failing move the values of the objects involved are unspecified until they are assigned again, and only their being alive is checked.",
    ),
    "C14": dict(
        title="Tiled rendering: success means all tiles complete, and runs can be resumed",
        statement="The tiled rendering driver (tools/darkroom/darkcult.py and the script darkcult.sh) compiles and runs one renderer for every tile of the rendering range (from left/top, in steps of the tile size, to right/bottom), each with the scene, sizes, offsets, macros, include paths and options it was given, never more at once than max-procs. It ends, and reports success only if the commands of all tiles succeeded; a compiler or renderer that fails, is killed or cannot be started makes it report a failure, in whichever order the tiles finish, whichever of them fails and however much they print. In break/continue mode a tile recorded as completed is not rendered again and every tile that is not complete is rendered, whatever the earlier runs ended with: a failed tile, 'q', an interrupt, a kill of the driver at any point, a full disk, or a record the last line of which is torn or lost; a run without faults then completes the picture. Whatever way the driver itself ends (other than being killed) the terminal has its settings back. darkcult.sh prints that it is finished, with exit status 0, only if the output file then holds the picture assembled from exactly the tiles of this run's rendering range, rows and columns in order; it exits with a nonzero status when a compiler, a renderer or the assembling of the picture fails; it refuses a stage directory that exists unless told to force or continue, and changes nothing outside the stage directory and the output file.",
        over=["schedules", "crash_points", "fault_sequences"],
        quant="every interleaving of up to four workers, their compilers and renderers and the keys of the user, every point at which the driver, a worker or a command may be killed or fail, and every sequence of up to four runs that resume each other",
        why="No test of the repository runs the driver at all; what matters are orders of completion and what interrupted runs leave behind.",
        files=["tools/darkroom/darkcult.py", "tools/darkroom/darkcult.sh"],
        mechanism=[("the record of completed tiles, written by the workers, and the check of it at the start of a resumed run", "tools/darkroom/darkcult.py: continue_build, main"), ("assembling the rows and the picture", "tools/darkroom/darkcult.sh")],
        state=[("record", "the tiles recorded as completed", "the file continue.log in the stage directory"), ("tiles", "the compiled renderers and the rendered tiles", "the stage directory")],
        observe_at=["the commands that are run and how each ends", "the exit status", "the files of the stage directory and the picture", "the settings of the terminal"],
        technique=SEARCH + ": the driver runs on a simulated pool of workers, processes, terminal and disk and is killed and resumed",
        level_note=NOTE + "The real darkcult.py runs unmodified in the simulator's process; multiprocessing.Pool, subprocess, the terminal and file writes are simulated. The real darkcult.sh runs in bash against stub compilers, renderers and pnmcat that follow a fault plan. Assumed: commands still running when the user ends the driver are over before the next run; what the driver has written survives a kill except for the end of the record; a worker of the pool is killed only in break/continue mode, where the user ends the run.",
    ),
    "C15": dict(
        title="Strings, string views and C string functions follow their model",
        statement="Through any history of operations, a sprout::basic_string (char, wchar_t, char32_t; any capacity) has the content that std::basic_string has after the same operations, is terminated where it ends, and never holds more than its capacity: construction, assignment, append and resize, from strings of the same or other capacities, C strings, parts of them, iterators (pointers, iterators of strings, single-pass to random access), repeated characters and initializer lists, <<=, >>=, <<, >>, + and swap, also when the source lies inside the string itself. An operation whose result does not fit, or whose position lies outside, is refused with std::length_error or std::out_of_range (however large the counts), and a source that fails lets its failure through; in each of these cases the string keeps the content it had. The exception that fits is raised for at(), substr(), copy() and compare() outside the string. find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of, compare, the comparison operators, substr and copy give what std::basic_string gives for every position and count, with null characters and characters outside of ASCII included, whatever form the argument has; equal strings have equal hashes. basic_string_view does the same for the part of a text that it shows (remove_prefix, remove_suffix, substr, to_string, starts_with, ends_with). The functions of <cstring> and <cwchar> (strlen to strstr, mem* and wmem*) give the results the C standard asks for, on texts and memory of which nothing behind the last character may be read, write exactly the characters they should (strncpy padding, one terminator of strncat) and nothing else, and memmove() moves overlapping ranges.",
        over=["histories", "inputs", "fault_sequences"],
        quant="every history of operations on strings of several capacities, every text, position, count and overlap, and every point at which a source fails",
        why="Tests try each function on one or two fixed texts; what goes wrong are ends, overlaps, null characters, strings that are full and sources that fail half-way.",
        files=["sprout/string/string.hpp", "sprout/string/detail/find.hpp", "sprout/string/char_traits.hpp", "sprout/string/comparison.hpp", "sprout/string/concat.hpp", "sprout/string/shift_concat.hpp", "sprout/utility/string_view/string_view.hpp", "sprout/cstring", "sprout/cwchar"],
        mechanism=[("the elements, length and terminator of a string", "sprout/string/string.hpp: put_terminator, lengthcheck, rangecheck, assign, append"), ("searching backwards and forwards within bounds", "sprout/string/detail/find.hpp"), ("recursions that end at the terminator", "sprout/cstring")],
        state=[("content", "the characters, the length and the terminator", "impl_ of basic_string; the memory the C functions are given")],
        observe_at=["size, data, c_str and iterators after every operation", "the value or exception an operation gives", "all of the memory around what a C function is given"],
        technique=SEARCH + ": histories of operations over several strings with failing sources, against std::basic_string and hand-written C functions",
        level_note=NOTE + "Characters are drawn from a few letters, the null character and the largest character; capacities are 3, 6, 10 and 12. Reads behind a text are found by AddressSanitizer on copies of exactly its size.",
    ),
    "C16": dict(
        title="Iterator and range adaptors deliver the sequence they denote",
        statement="The iterator adaptors (filter, remove, remove_if, adjacent_filter, unique, while, transform with one and two ranges, replace, replace_if, clamp, indexed, move, valued, reverse and its combinations, step, joint, alternate, merge, set_union, set_intersection, set_difference, set_symmetric_difference, counting, value and size_enum), over forward, bidirectional and random-access base iterators and pointers, step through exactly the sequence they denote: after any sequence of the operations their category offers (++ and -- in both forms, +, -, +=, -=, [], distance, comparison, assignment, swap, conversion between base iterators) an iterator gives the element of its position, copies are independent, and a base range is only used within its bounds. A predicate, function or base iterator that fails lets its failure through and leaves every other iterator where it was. Piped range adaptors (filtered, removed, removed_if, replaced, replaced_if, transformed, uniqued, adjacent_filtered, reversed, indexed, jointed, alternated, steps, taken, dropped, taken_end, dropped_end, window, offset, clamped, counting, merged and the set_ adaptors, and combinations of them) have the size, emptiness, first and last element, elements by index and by at() - which throws std::out_of_range outside of them - and iteration of that sequence. Excluded: going backwards from the end of a while_iterator, and from a step end iterator written down by hand whose width does not divide the range.",
        over=["inputs", "histories", "fault_sequences"],
        quant="every base sequence, predicate and parameter, every walk over several iterators of one adaptor, and every point at which a predicate, function or base iterator fails",
        why="Tests walk one or two arrays of ten elements forwards; what goes wrong are empty and short ranges, walking backwards, jumps, odd distances, ties, and turning round at the ends.",
        files=["sprout/iterator/filter_iterator.hpp", "sprout/iterator/transform_iterator.hpp", "sprout/iterator/joint_iterator.hpp", "sprout/iterator/alternate_iterator.hpp", "sprout/iterator/step_iterator.hpp", "sprout/iterator/merge_iterator.hpp", "sprout/iterator/reverse_iterator.hpp", "sprout/range/adaptor", "sprout/range/range_container.hpp"],
        mechanism=[("steps of each adaptor", "sprout/iterator: satisfy, find_next, increment and decrement"), ("ranges of adaptors", "sprout/range/adaptor"), ("common container functions of ranges", "sprout/range/range_container.hpp")],
        state=[("position", "the base iterators and what the adaptor remembers of them", "each adaptor's members")],
        observe_at=["the element, category operations and comparison of every iterator after every step", "the whole forward walk of every range, and its backward walk where the category allows", "every access to the base range"],
        technique=SEARCH + ": walks of several iterators at once over base iterators that check their bounds and fail at chosen steps, against the sequence as a vector",
        level_note=NOTE + "Base sequences have up to twelve elements of small values. Not covered: string, file, stream and pixel adaptors, and sub-arrays as containers of their own.",
    ),
    "C17": dict(
        title="Valarrays, bitsets and intrusive lists follow their model",
        statement="Through any history of operations, sprout::bitset<N> (N from 1 to 200) has the bits, and its operations the results, of std::bitset<N>: construction from numbers, std::basic_string parts and C strings with any pair of digits, set, reset, flip, test, references to bits, &, |, ^, ~, shifts by any distance, ==, count, any, none, all, to_ulong, to_ullong and to_string, and what std::bitset refuses is refused with the same exception; operations of a const bitset return the changed set, find_first and find_next give the next set bit, equal sets have equal hashes. A sprout::valarray has the elements that the operations on std::valarray give it, elementwise for +, -, *, /, %, &, |, ^, <<, >>, comparisons, && and ||, for arrays and for an array and a value on either side, the unary operators, computed assignment, sum, min, max, shift and cshift by any distance, apply (a function that throws changes nothing), resize, fill, assign, swap, copies and moves, iterators, at() and nth(); subsets by slice, gslice, mask and indexes show the elements they select, and assignment and computed assignment to a subset, or from one subset to another of the same kind, changes just these; more elements than the capacity, and positions outside of the array or subset, are refused, and the array keeps its elements; the mathematical functions of an array give for every element what they give for a number. A sprout::forward_clist holds exactly the items linked into it, in order, through push_front, pop_front, insert_after, erase_after, unlink, assign, clear, swap and moves, also of ranges of items; items removed from it are not linked, and a value assigned through an iterator or to an item is the value of that item and keeps its link.",
        over=["histories", "inputs"],
        quant="every history of operations on arrays of up to eight elements, sets of 1 to 200 bits and lists of up to nine items, and every operand, position and distance",
        why="There are tests of single operations at most: what goes wrong are shifts across words, sizes that are no multiple of the word, empty arrays, subsets written through, and links left behind.",
        files=["sprout/bitset/bitset.hpp", "sprout/valarray/valarray.hpp", "sprout/valarray/slice_array.hpp", "sprout/valarray/gslice_array.hpp", "sprout/valarray/mask_array.hpp", "sprout/valarray/indirect_array.hpp", "sprout/valarray/arithmetic.hpp", "sprout/valarray/power.hpp", "sprout/valarray/trigonometric.hpp", "sprout/functional/bind2nd.hpp", "sprout/forward_clist.hpp"],
        mechanism=[("shifts of words and the bits behind the end", "sprout/bitset/bitset.hpp: do_left_shift, do_right_shift, do_sanitize"), ("elements behind the size, subsets", "sprout/valarray: valarray_impl, index of the *_array classes"), ("links between items", "sprout/forward_clist.hpp: item::next")],
        state=[("words", "the bits and the unused bits of the last word", "w_ of base_bitset"), ("elements and size", "of the valarray", "valarray_impl"), ("links", "of the items and the list", "item::next, forward_clist::fst")],
        observe_at=["every observer of every array, set and list after every operation", "results and exceptions of every operation"],
        technique=SEARCH + ": histories of operations over several arrays, sets or lists at once, against vectors, std::bitset and lists of numbers",
        level_note=NOTE + "Elements of valarrays are 32-bit unsigned numbers (and double for the mathematical functions). Functions that fail are injected into apply(). Input and output of bitsets are decided by C05 to C07.",
    ),
}

NOT_APPLICABLE = {
    "C40": dict(
        title="Constant evaluation and run-time evaluation agree",
        statement="Every function of the library usable in constant expressions gives, for the same arguments, the same result when evaluated by the compiler and at run time.",
        over=["inputs"], quant="every constexpr function and every argument",
        why="Tests sample a few arguments per function.",
        files=["sprout/math", "sprout/algorithm", "sprout/numeric", "sprout/cstdlib", "sprout/cstring"],
        mechanism=[("builtin versus portable implementation selection", "sprout/math/*.hpp, sprout/config/constexpr.hpp")],
        reason="a pure function of its input and of the evaluation mode: no schedule, clock, fault or interleaving that a simulator could decide",
    ),
    "C41": dict(
        title="Mathematical functions are as accurate as their standard counterparts",
        statement="Each mathematical, complex and quaternion function agrees with the exact value within a few units in the last place on its whole domain and returns the specified value at infinities, NaN, signed zeros and domain edges.",
        over=["inputs"], quant="every argument of every mathematical function",
        why="Tests check a handful of arguments.",
        files=["sprout/math", "sprout/complex", "sprout/math/quaternion.hpp"],
        mechanism=[("series and range reduction", "sprout/math/*.hpp")],
        reason="pure function of its input; input generation in simulator vocabulary would not be simulation",
    ),
    "C43": dict(
        title="Sub-arrays and tuples show the elements they denote",
        statement="A sub-array shows exactly the part of the container it was cut from, a tuple the values it was made of, and both compare, swap and iterate as the sequence they denote.",
        over=["inputs"], quant="every content, bound and index",
        why="Tests use fixed small contents.",
        files=["sprout/sub_array", "sprout/tuple"],
        mechanism=[("bounds of the part", "sprout/sub_array/sub_array.hpp")],
        reason="what a sub-array or a tuple shows is a pure function of what it was made of; containers that have a history of their own are claimed (C13, C15, C17)",
    ),
    "C44": dict(
        title="Text-to-number and parser-combinator results follow their grammars",
        statement="Number conversions accept exactly the numerals of their grammar and return the nearest representable value, and every parser combinator accepts exactly the language it denotes and yields the attributes of that parse.",
        over=["inputs", "programs"], quant="every character sequence and every combination of parsers",
        why="Tests parse a few literals.",
        files=["sprout/weed", "sprout/cstdlib", "sprout/string"],
        mechanism=[("conversion and parser bodies", "sprout/cstdlib, sprout/weed")],
        reason="pure function of a complete in-memory character sequence; no device, schedule or fault is involved",
    ),
    "C45": dict(
        title="Signal transforms invert and rendering depends only on the scene",
        statement="A Fourier transform followed by its inverse returns the input within rounding, synthesised sound equals the formula of its generators, and a rendered picture depends only on the scene, camera and pixel position.",
        over=["inputs"], quant="every signal and every scene",
        why="The suite has no test of transforms or renderers beyond compilation.",
        files=["sprout/numeric/dft", "sprout/compost", "sprout/darkroom"],
        mechanism=[("transform and tracing recursions", "sprout/numeric/dft, sprout/compost, sprout/darkroom")],
        reason="pure functions of signal or scene; the tiled rendering driver, which has files and crashes, is claimed separately",
    ),
    "C46": dict(
        title="Type-level computation matches its specification",
        statement="Type lists, integer sequences, traits and tuple metafunctions yield exactly the types and constants they specify, for every instantiation.",
        over=["programs"], quant="every instantiation",
        why="Tests instantiate a few.",
        files=["sprout/type", "sprout/type_traits", "sprout/index_tuple", "sprout/tuple"],
        mechanism=[("metafunction definitions", "sprout/type, sprout/type_traits")],
        reason="decided by the compiler; nothing executes",
    ),
    "C47": dict(
        title="Hashes of complete values agree with equality",
        statement="The hash functions of complete in-memory values are equal for equal values and combine their parts in order.",
        over=["inputs"], quant="every value of every hashable type",
        why="Tests hash a few values.",
        files=["sprout/functional/hash"],
        mechanism=[("hash bodies", "sprout/functional/hash, hash.hpp headers")],
        reason="hash values of complete in-memory values are pure functions; digests, whose data arrives in pieces, are claimed separately",
    ),
}
