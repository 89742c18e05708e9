"""writes MANIFEST.json: a check for every property with a module in sim/checks, not_applicable for the rest"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parents[1]
NOTES = {
    'C01': 'Seeded search over edit/read histories, saves, restarts and transfer faults; the loaded atom is compared with the living one and followed through further edits. Trusts the reference model only for what is applicable, not for the verdict.',
    'C02': 'Per run: a sequence of saves of which each meets an errno, a crash at a chosen system call, a power loss, an interruption at a bytecode, or nothing. Trusts the shim\'s disk model (unsynced data may be lost, torn or stale after a power loss; rename is atomic and ordered after fsync of the file).',
    'C03': 'Twin atoms in separate processes, exports under the faults of C02, imports of the result; coefficients compared bit for bit.',
    'C04': 'Tables good, reordered, cut and damaged, read through a failing disk; after each import the atom is either untouched or has every row. Assumes pandas/pint decide what a readable cell is; ambiguous damage (a table that is still well formed) is not generated.',
    'C05': 'Every energy, shift, frequency, g-factor and strength after every step against a reference model with its own angular-momentum algebra.',
    'C06': 'Twins that differ only in their reads must look alike; repeated lookups must return the same object.',
    'C07': 'Interruption at explicit bytecode boundaries of atomtoolkit (sys.monitoring); C code of dependencies is atomic to it.',
    'C08': 'Real threads, one running at a time, switched at explicit bytecode boundaries of atomtoolkit; locks are simulated. Interleavings inside dependencies\' C code are not explored.',
    'C09': 'Constraint propagation and warnings after every step against a reference model.',
    'C10': 'Unusable arguments and interruption points for each kind of edit; comparison with the state before (rejected) or an undisturbed twin (repeated).',
    'C11': 'The same script in processes with different hash seed and memory layout, and handed over between them; ordered observations must be identical.',
    'C12': 'Every key form of every living thing, and of deleted ones, after every step of structure-editing histories.',
    'C13': 'Results of the queries against a reference model, after each step of linewidth-editing histories.',
    'C14': 'Synthetic NIST answers through the real urllib and http.client on a simulated socket; the saved copy through the disk shim.',
    'C15': 'Level and transition tables against a table and selection-rule model; interruptions and a failing progress bar, then the same call again.',
    'C16': 'What is drawn, against the current energies and against a fresh diagram, across edits, repeated and interrupted renders.',
    'C17': 'Call sequences with modified results, argument types and interruptions, against fresh processes.',
    'C18': 'The curves on the axes, against the live frequencies and strengths of the atom and the formula of the line shape, across edits, repeated and interrupted plots. Which lines there are is asked of the atom itself (its order and identity is C15, C12).',
}
NA = {
    'N01': 'Pure function of its argument (parsing a term symbol): no time, concurrency, I/O, randomness or history for a simulator to vary; it is a matter for input-space testing or proof.',
    'N02': 'Pure function of quantum numbers (recoupling amplitudes); the only state involved, the result cache, is covered by C17.',
    'N03': 'Pure function of quantum numbers (relative line strengths); that strengths do not depend on access history is covered by C05, C06 and C17.',
    'N04': 'Pure function of a term (estimated Lande factor), computed once at construction.',
    'N05': 'Pure functions of the detuning (line profiles); no state, I/O or schedule involved. That a spectrum shows the current lines is C18.',
}
checks, na = [], []
for line in (ROOT / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    i = p['id']
    if (ROOT / 'sim' / 'checks' / f'{i.lower()}.py').exists():
        checks.append({'property': i, 'quick_cmd': f'./run check {i}', 'thorough_cmd': f'./run check {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': 'deterministic simulation with fault injection: seeded search, replayable minimised cases',
                       'level': 'exploration', 'level_note': NOTES[i]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './run setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the seams are the dynamic linker (disk), sys.monitoring (interruption points, thread switches), the module-level names '
              'threading/socket/time of the interpreter, and process boundaries. All commits in /repo are repairs ("fix:"), listed in known_findings.json. '
              './run replay FILE replays a violation, ./run selftest proves determinism.'}
(ROOT / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not applicable')
