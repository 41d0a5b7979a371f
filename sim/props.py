"""What each check builds and how much it explores: quick/thorough = (rounds, wall-clock cap in seconds)."""

PROPS = {
    "C01": dict(
        sources=[("c01_engines.cpp", 3)], variants=["11", "17-clang"],
        quick=(1500, 60), thorough=(100000, 600),
        rule="one run = one generated history of draws, checkpoints, syncs, crashes and restores of 1-3 engines of one type; non-trivial = at least one fault fired or one restore was made; distinct by hash of the whole event log",
        state_measure="(engine, seed, position) triples that were restored and compared",
        real=["all random engines with a stream form, their operators << and >>, copy, ==, const and mutable draw", "libstdc++ iostreams and number parsing"],
        stub=["disk (durable image + un-synced writes)", "stream buffers (chunked delivery)", "node memory loss"],
    ),
    "C02": dict(
        sources=[("c02_engines.cpp", 3)], variants=["11", "17-asan"],
        quick=(1500, 60), thorough=(100000, 600),
        rule="one run = one checkpoint text with 0-3 storage faults, read back through a simulated device into a live engine; non-trivial = at least one fault fired; distinct by hash of the whole event log",
        state_measure="(engine, number of faults, accepted or refused or threw)",
        real=["all random engines with a stream form, their operators << and >>", "libstdc++ iostreams and number parsing"],
        stub=["storage faults on the text", "stream buffers (chunked delivery, device error)"],
    ),
    "C03": dict(
        sources=[("c03_replicas.cpp", 3)], variants=["11", "17-clang"],
        quick=(2500, 60), thorough=(100000, 600),
        rule="one run = 2-4 replicas of one engine consuming the same draw log by different mechanisms with delays, crashes and state transfers; non-trivial = at least one fault fired; distinct by hash of the whole event log",
        state_measure="(engine, mechanism, batch size, position within the state) consumed and compared",
        real=["all random engines: in-place and functional draws, discard, seed, copy, equality", "random results, generate_array, random iterators and ranges"],
        stub=["command delivery (delays, stalls)", "replica crashes and state transfer", "reference generators: libstdc++ and Boost.Random"],
    ),
    "C04": dict(
        sources=[("c04_dist.cpp", 5)], variants=["11", "17"],
        quick=(2500, 60), thorough=(100000, 600),
        rule="one run = one distribution over one simulated bit source: draws by changing mechanisms, source failures, new parameters, resets; non-trivial = at least one fault fired (adversarial words, source failure, reparameterisation); distinct by hash of the whole event log",
        state_measure="(distribution, word type and range, mechanism, words consumed) compared",
        real=["all distributions and generate_canonical", "variate generators, random results, iterators, ranges, array fillers over distributions"],
        stub=["the random bit source (adversarial words, failures)", "reference models of the published algorithms"],
    ),
    "C05": dict(
        sources=[("c05_values.cpp", 2)], variants=["11", "17"],
        quick=(40000, 40), thorough=(2000000, 600),
        rule="one run = one log of 1-6 records written with random formats, synced, crashed and read back through a chunking stream; non-trivial = at least one fault fired (crash, torn log, short read, device error); distinct by hash of the whole event log",
        state_measure="(type, format flags, with or without a mark after it) read back",
        real=["stream insertion and extraction of bitset, complex, quaternion, rational, tribool, optional, value_holder, uuid, fixed strings, distributions and parameter sets"],
        stub=["the log file (durable prefix, torn tail)", "the reading device (chunking, errors)"],
    ),
    "C06": dict(
        sources=[("c06_values.cpp", 2)], variants=["11", "17-asan"],
        quick=(4000, 40), thorough=(200000, 600),
        rule="one run = one value of one type extracted from damaged text under random stream flags, chunking and device errors; non-trivial = at least one fault fired; distinct by hash of the whole event log",
        state_measure="(type, text length, outcome, reference outcome, device and stream state) met",
        real=["stream extraction of bitset, complex, quaternion, rational, tribool, optional, value_holder, uuid, fixed strings, distributions and parameter sets"],
        stub=["the device (damage, chunking, errors)", "reference readers over the standard library"],
    ),
    "C07": dict(
        sources=[("c07_sinks.cpp", 2)], variants=["11", "17"],
        quick=(4000, 40), thorough=(200000, 600),
        rule="one run = values of one type inserted into a sink that fills up or fails after any number of characters; non-trivial = at least one fault fired; distinct by hash of the whole event log",
        state_measure="(type, characters missing, way of failing, exception mask) met",
        real=["stream insertion of all value types, string views, variants, engines and distributions"],
        stub=["the sink (full, throwing)"],
    ),
    "C08": dict(
        sources=[("c08_digests.cpp", 5)], variants=["11", "17"],
        quick=(400, 40), thorough=(20000, 600),
        rule="one run = 1-3 clients whose data arrives in packets by changing mechanisms, with failing sources, crashes back to a snapshot and restarts; non-trivial = at least one fault fired; distinct by hash of the whole event log",
        state_measure="(digest, message length, when) compared",
        real=["sha1, md5, sum8, sum16, sum32, xor8 accumulators, in-place and functional", "bytes iterators and endian traits", "version 3 and 5 name generators of uuids"],
        stub=["packet sources (single-pass, forward, lists, arrays; failing)", "reference digests written from the standards"],
    ),
    "C09": dict(
        sources=[("c09_shuffles.cpp", 4)], variants=["11", "17-clang"],
        quick=(4000, 40), thorough=(200000, 600),
        rule="one run = one random rearrangement, sort, sample, uuid or noise over one simulated bit source, by two forms; non-trivial = at least one fault fired (adversarial words, source failure); distinct by hash of the whole event log",
        state_measure="(operation, form, size, window, words used, outcome) reached",
        real=["shuffle, random_shuffle, random_swap, bogo_sort, bozo_sort, sample: in place, range::, fixed::, fit:: and _result forms", "random uuid generator", "white_noise"],
        stub=["the random bit source (adversarial words, failures)", "iterators that record accesses outside the range"],
    ),
    "C10": dict(
        sources=[("c10_inplace.cpp", 4)], variants=["11", "17-clang"],
        quick=(25000, 40), thorough=(200000, 600),
        rule="one run = one algorithm over one input and iterator kind, fault-free against the standard and again with one failing operation; non-trivial = the failing operation was reached; distinct by hash of the whole event log",
        state_measure="(algorithm, iterator kinds, length, failing operation kind, position of the failure) reached",
        real=["every in-place and output algorithm of sprout/algorithm/cxx14 (except the random ones, C09), gather and for_each_n"],
        stub=["elements, iterators, sinks and callbacks that count, check and fail"],
    ),
    "C11": dict(
        sources=[("c11_reading.cpp", 5)], variants=["11", "17-clang"],
        quick=(25000, 40), thorough=(200000, 600),
        rule="one run = one algorithm over one input and iterator kind, fault-free against the reference and again with one failing operation; non-trivial = the failing operation was reached; distinct by hash of the whole event log",
        state_measure="(algorithm, iterator kinds, length, failing operation kind, position of the failure) reached",
        real=["the non-modifying, searching, comparing, set-walking and numeric algorithms of sprout/algorithm and sprout/numeric"],
        stub=["elements, iterators, sinks and callbacks that count, check and fail"],
    ),
    "C12": dict(
        sources=[("c12_functional.cpp", 7)], variants=["11", "17-clang"],
        quick=(4000, 40), thorough=(200000, 600),
        rule="one run = one algorithm returning one new container, fault-free against the reference and again with one failing operation; non-trivial = the failing operation was reached; distinct by hash of the whole event log",
        state_measure="(algorithm, container, iterator kind, lengths, failing operation kind, position of the failure) reached",
        real=["sprout::fixed and sprout::fit algorithms and their range forms", "sprout::array, sprout::sub_array, remake and sub_copy"],
        stub=["elements, iterators and callbacks that count, check and fail"],
    ),
    "C13": dict(
        sources=[("c13_values.cpp", 7)], variants=["11", "17-clang"],
        quick=(60000, 40), thorough=(600000, 600),
        rule="one run = one history of up to 40 operations over three objects, about half of them with one failing element operation; non-trivial = a failure was reached; distinct by hash of the whole event log",
        state_measure="(operation, states of the three objects, failing operation kind, position of the failure) reached",
        real=["sprout::optional, variant, tuple, pair, array, value_holder and compressed_pair"],
        stub=["elements and visitors that count, check and fail"],
    ),
    "C14": dict(
        runner="c14_tiles", quick=(100000, 45), thorough=(10000000, 600),
        rule="one run = one picture with its tiles rendered by one to four runs of the driver, each with its own faults, followed by one without faults; non-trivial = a fault was injected; distinct by hash of the whole event log",
        state_measure="(tiles compiled in a run of the driver, tiles complete on disk, its exit status) reached",
        real=["tools/darkroom/darkcult.py", "tools/darkroom/darkcult.sh", "Python's logging and optparse", "bash, getopt, ls, sort"],
        stub=["worker processes and their scheduling", "the commands they start (compiler, rendered program)", "keyboard and terminal", "the disk (full, torn end of the record)", "pnmcat, rm, mkdir, python and the compiler as darkcult.sh sees them"],
        assumptions=["commands that outlive a terminated driver end before it is started again", "files already written survive (the driver does not and need not sync them); only the end of the record may be lost"],
    ),
    "C15": dict(
        sources=[("c15_strings.cpp", 4)], variants=["11", "17-clang-ptr", "17-asan"],
        quick=(25000, 40), thorough=(400000, 600),
        rule="one run = one history of up to some dozens of operations over four strings of three capacities and views of them; non-trivial = an operation was refused or a source failed; distinct by hash of the whole event log",
        state_measure="(operation, outcome, lengths of two strings) reached",
        real=["sprout/string", "sprout/utility/string_view", "sprout/cstring"],
        stub=["sources of characters that check how they are read and fail"],
    ),
    "C16": dict(
        sources=[("c16_adaptors.cpp", 4)], variants=["11", "17-clang", "17-asan"],
        quick=(40000, 40), thorough=(600000, 600),
        rule="one run = four copies of the iterators of one adaptor over random elements, moved by up to some dozens of operations; non-trivial = more than one element; distinct by hash of the whole event log",
        state_measure="(adaptor, operation and position sequence) reached",
        real=["sprout/iterator", "sprout/range/adaptor"],
        stub=["base iterators that check how they are used and fail", "predicates, functions and comparators that fail"],
    ),
    "C17": dict(
        sources=[("c17_arrays.cpp", 3)], variants=["11", "17-clang", "17-asan"],
        quick=(40000, 40), thorough=(600000, 600),
        rule="one run = one history of up to some dozens of operations over three arrays or sets, or two lists; non-trivial = more than the least number of operations; distinct by hash of the whole event log",
        state_measure="(operation, size of the array or number of bits set) sequence reached",
        real=["sprout/valarray", "sprout/bitset", "sprout/forward_clist.hpp"],
        stub=["functions applied to elements that fail"],
    ),
}
