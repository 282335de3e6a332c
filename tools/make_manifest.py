"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NOTES = {
    'P01': 'Seeded search over corpora, damage and read faults. Oracle: the generator\'s ground truth for intact files; a flag or exception for detectable damage and failed reads. Trusts the generator\'s reading of the file formats.',
    'P02': 'Seeded search over interrupt instants (executed lines, system calls) and I/O errors. Oracle: deep snapshots of the arguments and a run without faults.',
    'P03': 'Seeded search over histories, interleavings, crashes and faults. Oracle: an uncached load of the same directory at the same instant. Assumes that versions of a file differ in modification time.',
    'P04': 'Seeded search over query histories. Oracle: a fresh record asked only that question, and a model of the raw fields.',
    'P05': 'Seeded search over corpora, histories and write faults. Oracle: raw fields before writing and ground truth.',
    'P06': 'Seeded search over corpora, options and write faults. Oracle: an independent reader and a model built from the collection\'s fields.',
    'P07': 'Seeded search over graphs, histories of operations and faults. Oracle: small executable models of the filters, merges and files.',
    'P08': 'Seeded search over interleavings of the display thread, terminals and clocks. Oracle: the same call with the display off; bounded steps.',
    'P09': 'Seeded search over corpora, histories and option sets in pairs of processes with different hash seeds. Oracle: reference models of the networks.',
    'P10': 'Seeded search over line-level interleavings of reader threads. Oracle: the same calls alone on a fresh collection.',
    'P11': 'Seeded search over operation histories. Oracle: a model of sets with errors and bad marks.',
    'P12': 'Seeded search over histories, crashes and faults. Oracle: a model of the database with old-or-new after a failure.',
    'P13': 'Seeded search over crashes, faults and sessions. Oracle: the complete data or none.',
    'P14': 'Seeded search over dialogues and faults. Oracle: the library called directly, and the files present before.',
    'P15': 'Seeded search over directories in pairs of processes with different hash seeds. Oracle: equality of canonical dumps.',
    'P16': 'Seeded search over corpora, histories and options in pairs of processes. Oracle: reference counts.',
    'P18': 'Seeded search over texts, sequences of conversions and faults. Oracle: a small model of the cells of a text, the files present before.',
}
NA = {'P17': 'a pure function of one string: no time, I/O, scheduling, history or second party for a simulator to control, so simulation with faults cannot add anything to it'}


def main():
    have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'sim', 'props')) if f.startswith('p') and f.endswith('.py'))
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
    checks = [{'property': p, 'quick_cmd': '{} /verif/check.py {} --tier quick'.format(PY, p), 'thorough_cmd': '{} /verif/check.py {} --tier thorough'.format(PY, p),
               'technique': 'deterministic simulation with fault injection (seeded search over histories, schedules and faults)', 'level': 'exploration', 'level_note': NOTES[p]} for p in props if p in have]
    na = [{'property': p, 'reason': NA.get(p, 'not built yet')} for p in props if p not in have]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump({'version': 1, 'setup_cmd': '{} /verif/check.py --setup'.format(PY), 'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo: every seam the simulator needs (files, clock, threads, terminal, network, input) is reached through the standard library from outside.'}, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
