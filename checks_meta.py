"""What MANIFEST.json says about each check."""
NOTE = ('Held on the executions explored (counts in the evidence file); nothing is claimed for inputs not tried. Trusts the generator '
        'and the reference parser in /verif/harness/core, which must agree with each other in every generated case.')
G = {}


def add(ids, technique, note=NOTE, level='exploration'):
    for i in ids.split():
        G[i] = {'technique': technique, 'note': note, 'level': level}


add('C07 C08 C09 C10 C11 C12 C13 C27 C28',
    'runtime monitor: documents rendered from known intent, mutated, random and exhaustive short texts are parsed by the real code; an online '
    'checker compares every result with the intent or with an independent reference parser')
add('C02 C03 C04 C22',
    'runtime monitor: an online checker watches every span of every result (bounds, characters, nesting, order, text, coverage, line and column) '
    'under generated, hostile and exhaustive short workloads')
add('C14 C15 C16 C17',
    'runtime monitor: results for generated, hostile and exhaustive short references, digests, texts and variable maps are compared with '
    'independent models of decomposition and substitution')
add('C18 C19', 'runtime monitor: stages and every lookup on generated documents are compared with an independent stage model and with one another')
add('C20 C21', 'runtime monitor: recorded splice histories on real splicers are checked after every step against a replay model, and reparsed')
add('C26', 'runtime monitor: invariant checker over every accessor and conversion of every instruction parsed under a diverse workload')
add('C05 C06 C29', 'runtime monitor: metamorphic checker over recorded results of related documents (trivia, continuations, joining)')
add('C01', 'runtime monitor: supervised worker processes (panics, signals, memory, processor time) under hostile, long and deep workloads on '
    'several stack sizes; the same monitors under AddressSanitizer (every run) and Miri (thorough run)',
    'Held on the executions explored; absence of panics and hangs is observed, not proved. Stacks below 512 kB are not tried.')
add('C23', 'fault injection with a runtime monitor: scripted readers fail, are interrupted, split or corrupt the bytes at every position; the '
    'recorded calls and results are checked against the text delivered',
    'Every position of each tried text is failed in turn; texts themselves are sampled.', 'fault_enumeration')
add('C24', 'runtime monitor: call fingerprints compared across histories, reused memory, fresh processes and threads with injected delays; '
    'interleavings are recorded and counted; the same monitors under ThreadSanitizer',
    'Schedules are those that occurred (counted in the evidence), not all.')
add('C25', 'runtime monitor: fault injection into generated documents, hostile and exhaustive short texts; an independent reference parser '
    'decides what must be rejected, and every error is displayed and located')
add('C30', 'runtime monitor: recorded histories of edits of documents in memory, interleaved with operations; results are compared with the '
    'independent models of stages, resolution, splicing and positions over the present fields')
add('C31', 'runtime monitor: clones, single-part changes and built values are compared in every direction; a checker compares the outcome with '
    'the equality of independently recorded parts and with the laws of a total order')
add('C32', 'runtime monitor: executed edges (sanitizer coverage instrumentation) and allocated bytes are counted for repeated parts at three '
    'scales; a checker compares the growth of the counts with the growth of the text',
    'Growth is observed up to some 100 kB (thorough: more shapes, longer); work inside the standard library counts only through allocated bytes.')
META = G
