"""Writes MANIFEST.json from the list below (run by hand when checks are added)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection: '
NOTE = {
 'C01': ('exploration', T + 'seeded scheduler over caller threads at statement level, compared with each call alone',
         'Sampled schedules of 2-4 threads; preemption between statements and between evaluating and storing shared state of '
         'meshless code; calls into numpy/pyNastran/sympy are atomic. Assumes the single call alone is right (C06).'),
 'C02': ('fault_enumeration', T + 'interrupts and failing inner calls at sampled statements and calls, then retry',
         'Sampled fault points (uniform over distinct statements/calls of the interrupted operation); faults are of kinds '
         'the code cannot legitimately handle. Oracle: the same analysis of a fresh mesh.'),
 'C03': ('exploration', T + 'seeded histories of edits and analyses, each compared with a fresh mesh in a fresh process',
         'Sampled histories on meshes of up to about 20 nodes.'),
 'C04': ('exploration', T + 'seeded histories with hostile caller writes, shadow copies of everything the caller owns',
         'Sampled histories; bit-for-bit comparison of inputs and returned matrices after every operation.'),
 'C05': ('exploration', T + 'seeded histories of additions into matrices of every layout and content',
         'Sampled histories; increments to 1e-9, uncoupled entries and memory outside views bit for bit.'),
 'C06': ('exploration', T + 'histories with edits and interrupted calls against an executable reference model',
         'Sampled histories and meshes; the reference model was written from the formulation, taking averaging weights and '
         'per-method axis conventions from the code. One known finding (F1).'),
 'C07': ('fault_enumeration', T + 'interposed I/O layer failing, shortening, interrupting or crashing at I/O calls of reading decks',
         'Sampled fault scripts over the I/O calls of a healthy read; a read that silently ends early is not injected '
         '(indistinguishable from a shorter deck).'),
 'C08': ('fault_enumeration', T + 'interposed I/O layer with full disks, torn and short writes, lost closes and process crashes while '
         'printing, then retry',
         'Sampled fault scripts over the I/O calls of a healthy call; process crashes, not power loss.'),
 'C09': ('exploration', T + 'seeded printing histories and threads, two hash seeds, compared with each call in a pristine process',
         'Sampled histories over shared and edited arguments; sympy itself is not interrupted.'),
 'C10': ('exploration', T + 'seeded histories over meshes read from one source, bit-for-bit isolation checks',
         'Sampled histories of up to five meshes.'),
 'C11': ('exploration', T + 'seeded delivery orders, heap layouts and hash seeds, compared matrix by matrix',
         'Sampled permutations and heap perturbations; equality to 1e-9 of the class of degrees of freedom.'),
 'C12': ('exploration', T + 'seeded histories with refused requests of every kind, state compared before and after',
         'Sampled histories and kinds of refused requests.'),
 'C13': ('fault_enumeration', T + 'simulated standard streams failing at chosen writes, silent and verbose calls',
         'Sampled stream faults over the first writes and flushes of a call.'),
 'C14': ('exploration', T + 'seeded histories, threads and interrupts over shared, overwritten arguments, compared with a reference model',
         'Sampled histories and argument values; comparison to 1e-9 of the magnitude of the terms. One known finding (F2).'),
 'C15': ('exploration', T + 'seeded printing histories, threads and interrupts; texts read back and evaluated against the matrix',
         'Sampled histories, matrices and options; evaluated at random positive values of the symbols; C-style integer division is not modelled.'),
 'C16': ('exploration', T + 'seeded histories, threads and interrupts over meshes made from shared and overwritten arrays, compared with the triangulation',
         'Sampled triangulations (up to about 70 points), storage forms, histories and schedules.'),
 'C17': ('exploration', T + 'seeded histories with edits and interrupted calls carried out in other frames and next to other plates, mapped back',
         'Sampled histories, meshes and frames; equality to 1e-8 of the class of degrees of freedom. Oracle: the same analysis in the '
         'original frame, alone in a pristine process.'),
 'C18': ('exploration', T + 'seeded rounds of reading, analysing, editing, printing with interrupts, memory and descriptors counted between them',
         'Sampled sequences of operations, 80 to 1300 rounds each; growth below 0.7 blocks of memory a round is not seen.'),
 'C19': ('exploration', T + 'seeded histories, schedules and interrupts with the state of the process compared at every simulated step, repeated under other settings',
         'Sampled histories, schedules, faults and settings; the settings compared are listed in sim/checks7.py.'),
}
NA = {
 'C21': 'pure string function: nothing for a simulator to schedule or fail (what printing makes of powers, in any history, is C15)',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='./setup', checks=[], not_applicable=[])
    for p in props:
        i = p['id']
        if i in NOTE:
            level, tech, note = NOTE[i]
            m['checks'].append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s --tier thorough' % i,
                                    evidence_file='evidence/%s.json' % i, technique=tech, level=level, level_note=note))
        else:
            m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check under construction')))
    m['notes'] = 'No hooks in /repo: the probes are inserted when a simulation process imports the working tree.'
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
