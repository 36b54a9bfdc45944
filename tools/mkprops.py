"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
I='src/hdf5storage/__init__.py'; M='src/hdf5storage/Marshallers.py'; U='src/hdf5storage/utilities.py'; P='src/hdf5storage/pathesc.py'; G='src/hdf5storage/plugins.py'
P_=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P_.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))

prop('C01','Round trip with Python metadata',
 'Any value made of the supported Python and NumPy types, nested in any way, that is written with Python metadata stored and is then read back with the same options is equal to the original and has the same Python type, NumPy dtype, shape and array kind, whatever the other options are. This includes empty values, zero-dimensional and many-dimensional arrays, strings with any characters, integers of any size, containers of containers and structured arrays. (Not preserved, by documentation: byte order, structured-array text fields whose values have different lengths, deque maxlen, structured arrays read with structs_as_dicts.)',
 ['inputs','configurations'],'for all values of the supported types, for all option settings that store Python metadata',
 'The tests sample random values of each type separately under two to four fixed option sets; the space of values x nested shapes x option combinations is not enumerated and their random strings avoid special characters.',
 [M,U,I],[('conversion pipeline and its inverse',M+' NumpyScalarArrayMarshaller.write/read'),('type string of each stored value',M+' TypeMarshaller.write_metadata'),('dict-like, list-like and object wrappers',M+' Python*Marshaller'),('object arrays through references',U+' LowLevelFile.write_object_array/read_object_array')],
 observe=['File.read after File.write'])
prop('C02','MATLAB files have the form MATLAB expects',
 'With MATLAB compatibility on, every object written has the form MATLAB v7.3 expects: a class attribute for its type, at least two dimensions stored in reversed order, text as 16-bit code units (32-bit if that cannot represent it) and logicals as 8-bit integers with the decode attribute giving the stored integer size, complex numbers as (real, imag) pairs, empty values replaced by their shape and flagged empty. Cell elements are references into the references group next to a canonical empty object, structs and dicts are groups with a field list, and every field or element names its parent group.',
 ['inputs','configurations'],'for all values MATLAB supports, nested in any way, for all settings of the options that leave MATLAB compatibility on',
 'The tests only compare what the package itself reads back (MATLAB is optional and absent), so a change made to writer and reader together, or to an attribute the Python reader does not look at, passes.',
 [M,U,I],[('conversions for MATLAB',M+' NumpyScalarArrayMarshaller.write'),('MATLAB attributes',M+' NumpyScalarArrayMarshaller.write_metadata, PythonDictMarshaller.write_metadata'),('references group and canonical empty',U+' LowLevelFile.write_object_array')],
 observe=['raw HDF5 datasets, groups and attributes in the file'])
prop('C03','On-disk form and metadata follow the options',
 'For every combination of options, the HDF5 objects and attributes a write produces are exactly those the storage format documents for the value and those options: each conversion (dimensions, orientation of 1D arrays, dimension order, text encodings, booleans, empties, complex field names, structured arrays as groups or compound datasets) happens if and only if its option asks for it. The Python and MATLAB attributes are present exactly when their metadata is asked for, and tell the type, shape, underlying dtype, array kind, emptiness and field order of the original value.',
 ['inputs','configurations'],'for all supported values, for all combinations of the storage options',
 'The tests check the metadata attributes for a handful of types with one option changed at a time; they never look at the stored layout for combinations of options.',
 [M,U],[('conversion pipeline',M+' NumpyScalarArrayMarshaller.write'),('metadata',M+' write_metadata of each marshaller'),('attribute writing',U+' set_attributes_all')],
 observe=['raw HDF5 datasets, groups and attributes in the file'])
prop('C04','Reading without Python metadata',
 'What a read returns depends only on the stored data, its attributes and the options: the Python type is used if given, otherwise the MATLAB class, otherwise the HDF5 type, with groups read as structs and unknown types as plain arrays. Objects written by MATLAB (or without Python metadata) are read as the documented NumPy equivalents with dimensions in the original order, text decoded, logicals as booleans, complex pairs merged, empties given their shape, cells as object arrays and structs as structured arrays or dicts as the options say; reading never modifies the file.',
 ['inputs','configurations'],'for all files with objects in MATLAB form or bare HDF5 form, for all reading options',
 'The tests read a few checked-in MATLAB files and values written without metadata for one or two option sets; other layouts, classes, empties and nested structures of foreign files are never generated.',
 [U,M],[('choice of the reader',U+' LowLevelFile.read_data'),('readers',M+' read of each marshaller'),('text and complex decoding',U+' convert_to_numpy_str, decode_complex')],
 observe=['File.read on files made with raw HDF5 calls'])
prop('C05','Overwriting leaves no trace of the old value',
 'After any sequence of writes and deletes at a path, the object stored there has the same data, layout, filters and attributes, and is read back the same, as if the last value had been written to that path in a new file with the same options (when unused items of groups are to be deleted). Without deletion of unused items, only items of groups that the new value does not have may remain.',
 ['histories','inputs','configurations'],'for all sequences of values of any types written, with any option sets, to the same path',
 'The tests write each value to a fresh path; overwriting is tried for one or two type pairs, so in-place reuse of datasets, groups and attributes of other types is not reached.',
 [M,U],[('in place overwrite or replacement of datasets',M+' NumpyScalarArrayMarshaller.write'),('reuse of groups',M+' PythonDictMarshaller.write'),('removal of stale attributes',U+' set_attributes_all')],
 state=[('object at a path','dataset or group with its attributes','HDF5 file')],observe=['raw HDF5 object at the path; File.read'])
prop('C06','Operations touch nothing but their target',
 'A write or delete changes only the object at its own path (and creates missing parent groups and new elements in the references group): every other object in the file, its data, its attributes, and everything previously stored in the references group stay readable and unchanged. Reads, lookups, iteration, length and membership tests change nothing at all, and an operation rejected because of its arguments changes nothing.',
 ['histories','inputs'],'for all sequences of operations on files with any nested content, over any number of open/close sessions and option sets',
 'Each test writes one object to a new file; none checks the rest of the file after an operation.',
 [I,U,M],[('path validation before any write',I+' File.writes'),('reference names that are not in use',U+' LowLevelFile.next_unused_ref_group_name'),('deletion of unused fields limited to the target group',M+' PythonDictMarshaller.write')],
 state=[('tree','all HDF5 objects by path','HDF5 file'),('references group','elements of object arrays','group given by group_for_references')],observe=['raw HDF5 tree before and after each operation'])
prop('C07','Incompatible and unsupported values are handled as configured',
 'With MATLAB compatibility on, a value MATLAB cannot represent raises the documented error, is left out (a canonical empty in its place inside containers, a missing field in dicts), or is stored anyway, exactly as the incompatibility action says, at any nesting depth; with compatibility off it is always stored. A value of an unsupported type raises NotImplementedError, and any path in a batch that is malformed or inside the references group rejects the whole batch before anything is written.',
 ['inputs','configurations'],'for all values, at any depth inside containers, for all settings of the incompatibility action, and all batches',
 'The tests try a single top-level value for each action and no nested or batched ones.',
 [M,U,I],[('incompatibility action',M+' NumpyScalarArrayMarshaller.write'),('discarded elements',U+' LowLevelFile.write_object_array; '+M+' PythonDictMarshaller.write'),('unsupported types',U+' LowLevelFile.write_data'),('batch validation',I+' File.writes')],
 observe=['exceptions and raw HDF5 tree'])
prop('C08','A file behaves as a mapping of its paths',
 'An open file behaves as a mutable mapping: after any sequence of operations, iterating gives each top-level name once without the references group, the length is the number of those names, membership holds for exactly the existing paths, getting a missing path or deleting one raises KeyError, and get, pop, setdefault, update, items, values, keys and clear agree with an ordinary dictionary holding the same contents. This is so for any references group setting and for nested and escaped paths.',
 ['histories','inputs'],'for all sequences of mapping operations with any paths and values, and any references group name',
 'The tests exercise each mapping method in a short fixed script, with the default references group.',
 [I,P],[('mapping methods',I+' File.__getitem__ .. __delitem__'),('hiding of the references group',I+' File.__iter__, __len__')],
 state=[('contents','paths and values','HDF5 file')],observe=['results of the mapping methods'])
prop('C09','File life cycle, access modes and header',
 'A file opened read-only never modifies the file and refuses writes and deletes; a closed file refuses every operation except closing, and closing is idempotent and always done by the context manager and the one-shot functions even when they fail. Opening keeps existing contents unless truncation was asked for (always, or when the file cannot hold a MATLAB header), new files have a 512 byte user block, and whenever a file with room for it is opened for writing with MATLAB compatibility its first 128 bytes are a valid MATLAB 7.3 header, otherwise the user block is left alone.',
 ['histories','configurations'],'for all sequences of opening (every mode, option and kind of existing file), using, failing and closing',
 'The tests open a new file, check closed once, and one truncation case; combinations of modes with existing contents and failures are not covered.',
 [I],[('opening, truncation and header',I+' File.__init__'),('closed and writable checks',I+' File methods'),('one-shot functions',I+' read, reads, write, writes')],
 state=[('open handle','open/closed, writable','File')],observe=['bytes of the file, results and exceptions of operations'])
prop('C10','Operations from several threads are atomic',
 'When threads share one open file, the results of concurrent reads, writes, deletes, length and membership tests and closing are those of some sequential order of them consistent with real time: a batch read sees all or nothing of each batch write, and no operation sees half-written values. No operation deadlocks, also when operations raise exceptions. (Iteration, and pop, update and the like, which are several operations, are excepted.)',
 ['schedules','histories'],'for all interleavings of operations of several threads on one open file',
 'The existing tests are single threaded.',
 [I],[('one lock around each operation',I+' File methods'),('checks of the closed state under the lock',I+' File methods')],
 state=[('lock','held for the whole of each operation','File')],observe=['call and return events of each thread'])
prop('C11','Options are always coherent',
 'After any sequence of setting options, by constructor or attribute, with valid or invalid values, MATLAB compatibility is on only if all the options it governs have their MATLAB values, turning it on sets all of them, giving any of them another value turns it off, invalid values are ignored, and no setting changes an unrelated option. Copying the options at opening isolates an open file from later changes.',
 ['histories','inputs'],'for all sequences of option assignments with any values',
 'The tests set each option once from the default state and compare; sequences and invalid values are not enumerated.',
 [I],[('option setters',I+' Options'),('copy at opening',I+' File.__init__')],state=[('options','value of each of the 25 options','Options')],observe=['option values after each assignment'])
prop('C12','Marshaller lookup follows priority and registration history',
 'After any sequence of adding, removing and clearing marshallers, the marshaller found for a type, a type string or a MATLAB class is the first one that declares it in the order given by the priority and registration, none is found if none declares it, and a failed addition changes nothing. Whether a marshaller may be used fully or only for approximate reading depends on its required modules, which are imported only when allowed, and files use the collection of their options for writing and reading, so user marshallers override built-in ones if the priority says so.',
 ['histories','configurations'],'for all priorities, all sequences of registration calls, all sets of marshallers with overlapping declarations and present, missing or broken modules',
 'The tests check a few fixed collections; overlapping declarations and mixed histories are not enumerated.',
 [I,G,U],[('lookup tables',I+' MarshallerCollection._update_marshallers'),('lookups and lazy imports',I+' get_marshaller_for_*'),('plugins',G)],
 state=[('marshallers','builtin, plugin and user lists','MarshallerCollection')],observe=['lookups after each call; reads and writes through a file'])
prop('C13','Path escaping is lossless and safe',
 'For every string (with or without periods escaped, by the documented escapes), unescaping its escaped form gives the string back, distinct strings have distinct escaped forms, and an escaped form contains no slash and no null and is never one of the special names for the current or parent group. Unescaping accepts exactly the strings in which every backslash starts a valid escape, raises ValueError for the others, and decodes each escape exactly once.',
 ['inputs'],'for all strings and UTF-8 bytes',
 'The tests use random strings from a limited alphabet and a fixed list of escapes.',
 [P],[('escape_path and unescape_path',P)],observe=['results of escaping and unescaping'])
prop('C14','Every form of a path names the same object',
 'The string, bytes, path object and separated forms of the same path address the same object in all operations, relative and redundant forms are taken from the root, and the components of a separated path are taken literally, so that any component string, including ones with slashes, dots, nulls or backslashes, names an object of its own that no other component string reaches (empty components add nothing). Paths that are not of these forms raise TypeError.',
 ['inputs'],'for all paths in all forms, with any characters in the components',
 'The tests compare a few random paths without special components between forms.',
 [P,I],[('process_path',P),('use of the path',I+' File methods')],observe=['group and target names; objects reached through File'])
prop('C15','Dict-likes keep all their keys',
 'A dict-like value is stored with one field per key, named by the escaped key, if and only if all its keys are distinct, nonempty text or bytes once turned into text, and otherwise as its keys and its values; in both cases reading gives back the same keys with the same types, the same values and the same order. Keys may have any characters and the names used for the keys and values may be any two distinct nonempty names without nulls.',
 ['inputs','configurations'],'for all dict-like values with keys of any mix of hashable supported types, for all key and value names and options',
 'The tests use random unicode keys and one mixed case; clashing keys, empty keys and special names are not generated.',
 [M,P],[('choice of the form and the names',M+' PythonDictMarshaller.write'),('rebuilding the keys',M+' PythonDictMarshaller.read')],observe=['raw HDF5 group and value read back'])
prop('C16','References are never shared, lost or clobbered',
 'Every element of every list-like, object array, cell or multi-element struct field stored in a file is reached through its own reference to its own object inside the references group, except for discarded elements, which refer to the canonical empty. This stays so through any sequence of writes, overwrites and deletes in any number of sessions and with other objects already in the references group, and the references group itself can be neither read, written nor deleted through the file.',
 ['histories','inputs'],'for all sequences of writes and deletes of nested containers over any number of sessions and references groups',
 'The tests write containers once to a new file in one session.',
 [U,I],[('names in the references group',U+' LowLevelFile.next_unused_ref_group_name'),('cached references group',U+' LowLevelFile.write_object_array'),('protection of the references group',I+' File._holds_references, reads')],
 state=[('references group','objects referred to','group given by group_for_references'),('counter','next name, if this session made the group','LowLevelFile')],observe=['raw HDF5 references after each operation'])
prop('C17','Compression and checksums follow the options',
 'Each dataset written uses compression, shuffling and checksums exactly as the options say: compressed with the chosen algorithm and level if compression is on and its stored size reaches the threshold, with the shuffle filter and checksum then asked for, otherwise uncompressed with a checksum only if asked for; scalar datasets never use filters. The filters never change the data, also when a dataset is overwritten with other options.',
 ['inputs','configurations','histories'],'for all datasets and sizes around the threshold, for all compression option settings and overwrites',
 'The tests check each filter option with one large and one small array and default overwriting.',
 [M],[('choice of the filters',M+' NumpyScalarArrayMarshaller.write')],observe=['dataset creation properties and data'])
prop('C18','savemat and loadmat',
 'Saving a dictionary as a MATLAB 7.3 file and loading it returns the same variables and values, adding to an existing file keeps the other variables unless truncation is asked for, the .mat ending is added exactly when asked for and missing, and the saved file is a MATLAB compatible file whatever else is set. Loading returns all variables or exactly those of the asked for names that exist, adds them to a given dictionary leaving its other entries alone, and never modifies the file.',
 ['inputs','histories','configurations'],'for all dictionaries of variables, all sequences of saves and loads and all their arguments',
 'The tests need scipy or MATLAB for most of these and otherwise check one save and load.',
 [I],[('savemat',I),('loadmat',I)],observe=['dictionaries returned; raw file'])
prop('C19','Failures in the middle of an operation are contained',
 'If an operation fails with an exception at any point, because of a value that cannot be stored or an error of the storage layer, the file stays usable: its lock is released, later operations work, objects at other paths are unchanged, values of a batch stored before the failure are kept, and writing the target again gives the right result. After closing, the file is valid, with its header intact.',
 ['fault_sequences','histories'],'for all operations and every point inside them at which a storage call or a value can fail',
 'The tests inject no failures.',
 [I,U,M],[('lock released on exceptions',I+' File methods'),('writing order',M+' write of each marshaller')],
 observe=['raw HDF5 tree and operations after the failure'])
prop('C20','Text conversions are inverse and total',
 'Converting any text between its Python, NumPy, bytes and code unit array forms and back gives the same text, for every sequence of Unicode characters, array shape and byte order, and never takes characters from neighbouring strings. 8-bit, 16-bit and 32-bit unsigned arrays are decoded as UTF-8, UTF-16 and UTF-32 with each requested string length that divides their rows, and text that is not valid or not convertible raises an error instead of giving other text.',
 ['inputs'],'for all texts, array shapes, lengths and byte orders',
 'The tests use ASCII and a few random characters with one or two shapes.',
 [U],[('conversion functions',U+' convert_numpy_str_to_uint16/uint32, convert_to_str, convert_to_numpy_str, convert_to_numpy_bytes')],observe=['values returned by the conversion functions'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P_:
        assert len(p['title'])<=80
        f.write(json.dumps(p)+'\n')
