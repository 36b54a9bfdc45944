"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
DATA = ('TLA+ specification of the storage format (HData/HRead/HMatlab), model checked by TLC over small values and options; '
        'conformance: each recorded write and read of the real code is judged by TLC against the specification')
NOTE = ('Exhaustive for the specification over the small universe of MCData; the code is bound to it by thousands of generated and systematic values and '
        'options per run, so a deviation on an input not generated is missed. Trusts h5py/HDF5, TLC and the h5py-only observer in lib/terms.py.')
CHECKS = {
    'C01': (DATA, NOTE), 'C02': (DATA, NOTE), 'C03': (DATA, NOTE), 'C04': (DATA + ' (also files made with h5py alone)', NOTE),
    'C07': (DATA, NOTE), 'C15': (DATA, NOTE), 'C17': (DATA, NOTE),
}
STORE = ('TLA+ specification of the file as a tree of objects with sessions and references (HStore over HData/HRead); conformance: recorded histories of operations '
         'of the real code, with the file observed by h5py before and after each, are judged step by step by TLC; random ones, and ones generated by TLC from a model (MCStore) in which a concrete file with reference Group refines the specification')
SNOTE = ('The code is bound to the specification by all histories of three operations of a small alphabet per property (MCStore) and by about a thousand random ones (some ten thousand operations) per run, so a deviation only on a history '
         'not generated is missed. Trusts h5py/HDF5, TLC and the h5py-only observer in lib/store.py.')
for x in ('C05', 'C06', 'C08', 'C09', 'C16', 'C19'):
    CHECKS[x] = (STORE, SNOTE)
TNOTE = ('Exhaustive for the specification over short strings and arrays of a few characters; the code is bound to it by every one of those and by thousands of '
         'generated ones per run, so a deviation on an input not generated is missed. Trusts Python\'s codecs to split text into code points, h5py and TLC.')
CHECKS['C13'] = ('TLA+ specification of escaping (HPath), model checked by TLC for losslessness over all short strings; conformance: escapes and unescapes by the real code are judged by TLC', TNOTE)
CHECKS['C14'] = ('TLA+ specification of paths (HPath) and of the file (HStore); conformance: process_path results and recorded histories with every form of path are judged by TLC', TNOTE)
CHECKS['C20'] = ('TLA+ specification of the text conversions (HConv), model checked by TLC for being inverse; conformance: recorded conversions by the real code are judged by TLC', TNOTE)
CHECKS['C11'] = ('TLA+ specification of the options (HOptions), model checked by TLC over all histories of assignments to groups of options; conformance: recorded histories of '
                 'Options objects, and of files opened with them, are judged step by step by TLC', TNOTE)
CHECKS['C18'] = ('TLA+ specification of savemat and loadmat in a directory of files (HSave over HStore), model checked by TLC against a plain map of maps (MCSave); conformance: recorded '
                 'histories of saves and loads of several files are judged step by step by TLC', SNOTE.replace('all histories of three operations of a small alphabet per property (MCStore) and by ', ''))
CHECKS['C12'] = ('TLA+ specification of collections of marshallers (HColl), of which TLC shows that collections kept as tables follow it; conformance: recorded histories of '
                 'real collections, modules, plugins and files are judged step by step by TLC', TNOTE)
CHECKS['C10'] = ('TLA+ model of threads that hold a lock for each operation (MCConc), of which TLC shows that results are those of a sequential order (HConc); conformance: '
                 'for each recorded concurrent history of the real code TLC searches for such an order', 'Exhaustive for the model with 2-4 threads; the code is bound to it by thousands of histories with '
                 'threads held up at chosen points (each h5py call, and locks), so a race that needs another point is missed. Iteration, which is lazy, and the mixin methods made of several operations are excluded.')
TODO = {}
props = [json.loads(x)['id'] for x in open(os.path.join(HERE, '..', 'properties.jsonl'))]
man = dict(version=1, setup_cmd='./setup',
           checks=[dict(property=p, quick_cmd='./check ' + p, thorough_cmd='VERIF_TIER=thorough ./check ' + p, technique=CHECKS[p][0],
                        level='model_checking', level_note=CHECKS[p][1]) for p in props if p in CHECKS],
           not_applicable=[dict(property=p, reason=TODO.get(p, 'no check built yet')) for p in props if p not in CHECKS])
with open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
