import json
T = {
 'P01': 'round-trip oracle over the real compressor and decompressor (in process with monitored streams, and as programs) under generated, exhaustive-small and boundary workloads',
 'P02': 'round-trip oracle over preprocessing pipelines (in process and as programs), grammar monitor on every block',
 'P03': 'online reference monitor: every transformed block compared with the definition (sorted suffixes) and inverted',
 'P04': 'differential execution monitor: outputs of perturbed runs (channels, piece sizes, malloc fill, verbosity, algorithm, build) compared byte by byte',
 'P05': 'online event-log checker: (bit, probability) events of encoder and decoder compared step by step, bytes consumed counted',
 'P06': 'runtime oracle: Kraft sum and optimal cost by an independent Huffman construction, parse-back of serialised shapes',
 'P07': 'runtime oracle: value-by-value inversion and bit counts against independent models of the primitives',
 'P08': 'model-based trace checker: random operation histories on the streams compared with an array model',
 'P09': 'offline checker: an independent parser walks every archive and balances its length fields; conservation of consumed bytes in process',
 'P10': 'AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer over harnesses and programs, valgrind memcheck over programs',
 'P11': 'fault injection at each system call on input and output (strace) and real failures (full device, size limits, closed descriptors), exit-status and output oracle',
 'P12': 'fault enumeration: every prefix of many archives and preprocessed files given to the decoders, exit-status and time oracle',
 'P13': 'heap-peak monitor (interposed allocator) over the programs, against limits and across input lengths',
 'P14': 'online monitor after every replacement round: length, serialised grammar parsed independently and expanded by the definition',
 'P15': 'file-tree snapshot monitor around each command line, exit-status oracle',
 'P16': 'differential execution against the pinned version in both directions',
 'P17': 'size monitor: absolute bounds, information content of the coded probabilities, and comparison with the pinned version',
 'P18': 'step monitor: basic blocks executed by the programs counted through compiler coverage callbacks, against linear bounds and the pinned version',
}
checks = []
for p in sorted(T):
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p, 'technique': 'runtime monitoring: ' + T[p],
                   'level': 'fault_enumeration' if p in ('P11', 'P12') else 'exploration', 'level_note': 'executions sampled and enumerated as described in DESIGN.md; nothing is proved beyond them'})
json.dump({'version': 1, 'setup_cmd': 'python3 -B check.py --selftest', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: the harnesses substitute streams, models and allocators from outside. Checks build everything they need from /repo into a temporary directory.'},
          open('/verif/MANIFEST.json', 'w'), indent=1)
