"""Writes /verif/MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
    # property: (level, what is specific)
    'C01': ('exploration', 'Elementwise ufuncs of every accelerated kind against the same call with threading off and against NumPy, under seeded schedules, stalls, lost and late wake-ups; guard bytes around outputs.'),
    'C02': ('exploration', 'Reductions against NumPy and against the serial call, and bit-for-bit against themselves on further schedules and worker counts.'),
    'C05': ('exploration', 'Sorts of every dtype, layout and kind against np.sort, with guard bytes, under seeded schedules.'),
    'C06': ('exploration', 'Argsorts and lexsorts checked to be sorting permutations, stable where promised, and repeatable on another schedule.'),
    'C09': ('exploration', "arange against NumPy's own fill."),
    'C03': ('exploration', 'After each call every array of the caller is made inaccessible while the workers keep running, and dead stack frames are guarded; results are compared again later.'),
    'C04': ('exploration', 'Completion under every worker population, refused thread creation, workers that never get a CPU, lost wake-ups; endless waits and endless polling are reported.'),
    'C07': ('exploration', "Boolean-mask getitem against NumPy's own indexing, alone and while other threads compute and flip switches between the passes."),
    'C08': ('exploration', "Fancy getitem against NumPy's own indexing with per-element default handling, with guard pages around values and result."),
    'C10': ('exploration', 'recarray_to_colmajor against the field views, parallel and serial, including failing workspace allocations.'),
    'C11': ('exploration', 'Several application threads (as NumPy runs them, without the GIL) plus the main thread, every result compared with the call made alone.'),
    'C12': ('exploration', 'Switch functions called by other threads during operations, results compared; query and setter return values against a small model of the switches.'),
    'C14': ('exploration', 'Histories of up to thousands of operations (several turns of the work ring) with workers stalled across many of them; every single result checked.'),
    'C18': ('exploration', 'Simulated process forks between operations; every kind of operation is checked in the child without workers and in the parent.'),
    'C15': ('exploration', 'Ledger histories: switched on and off by other threads while operations run, compared with the operations the simulation knows to have been made.'),
    'C13': ('exploration', 'Allocations refused at seeded points in every operation: either the right answer or an exception, inputs unharmed, and the very next call correct.'),
    'C17': ('exploration', 'Floating-point warnings, errstate raise and call modes compared with the serial call and with NumPy, under seeded schedules.'),
    'C20': ('exploration', 'CPU counting, start-up, timers and benchmark on simulated hosts: sources missing, unreadable, cut short, failing or changing while read, sched_getaffinity failing or odd, clock jumps, functions that raise.'),
    'C21': ('exploration', 'A catalogue of invalid and odd calls mixed into histories of ordinary ones, guard pages around every argument, switches, settings and the sharing of later work checked after each.'),
    'C22': ('exploration', 'Blocks alive and references held compared before and after every kind of call: succeeding, refused, with refused allocations, and concurrent.'),
    'C16': ('exploration', 'accumulate, reduceat and overlapping outputs against the sequential definition.'),
}
NA = {
    'C19': 'A pure function of its input: no schedule, clock, fault or interleaving takes part, so simulation decides nothing here (kernel results are only compared between schedules, under C01 and C02).',
}
PY = 'python3'
d = {'version': 1, 'setup_cmd': '%s sim/build.py' % PY, 'hooks': {'guard': 'none', 'enable': 'No hooks in /repo: the checks compile the unmodified sources with -fsanitize=thread instrumentation bound to sim/simrt.cpp, a forced include (sim/simpre.h) and linker --wrap for system and library calls.', 'source_commits': []}, 'checks': [], 'not_applicable': []}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    i = p['id']
    if i in CLAIMED:
        lv, note = CLAIMED[i]
        d['checks'].append({'property': i, 'quick_cmd': '%s sim/check.py --prop %s --tier quick' % (PY, i), 'thorough_cmd': '%s sim/check.py --prop %s --tier thorough' % (PY, i),
                            'technique': 'deterministic simulation with fault injection (seeded search over schedules, settings and faults)', 'level': lv,
                            'level_note': note + ' Sampling, not proof; the real library code runs under a simulated scheduler, futex, thread creation, allocator and clock; interleavings are sequentially consistent; NumPy is trusted for reference results.'})
    else:
        d['not_applicable'].append({'property': i, 'reason': NA.get(i, 'Check not finished yet.')})
json.dump(d, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
