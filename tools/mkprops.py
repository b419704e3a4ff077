"""Writes /verif/properties.jsonl (the list of properties)."""
import json, os
PE="src/hdf5storage/pathesc.py"; U="src/hdf5storage/utilities.py"; M="src/hdf5storage/Marshallers.py"; I="src/hdf5storage/__init__.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))
p("C01","Path escaping is lossless, injective and yields a safe single path element",
 "For every string, escaping it gives a name without '/', without a null and without a leading '.', and unescaping that name gives back exactly the original string, so two different strings never get the same name. Bytes are treated as the UTF-8 string they encode, and unescaping rejects exactly the texts holding an incomplete escape or a lone trailing backslash with ValueError.",
 ["inputs"],"every str (any length, every code point) and every valid UTF-8 bytes",
 "The escapes interact (backslash runs next to hex digits, dots at the start, hex-escaped backslashes) and a test list samples a handful of an infinite language.",
 [PE],[("escape_path",f"{PE}:escape_path"),("unescape_path",f"{PE}:unescape_path"),("escape/unescape replacement functions and the four regular expressions",PE)],
 ["return values of escape_path / unescape_path"])
p("C02","Every path form names exactly one location, independent of its spelling",
 "A path given as str, bytes, a pure path or a sequence of parts is split into a group and a target such that joining both gives the normalised POSIX path; a sequence of parts names the same place as its escaped parts joined by '/', so no part can climb out of, or descend below, its own level. Data stored under one spelling of a path is found under every equivalent spelling, and objects of any other type (or sequences with other elements) are rejected with TypeError and unescaped nulls with ValueError.",
 ["inputs"],"every str, bytes, PurePath and sequence of str, bytes and PurePath",
 "Paths are unbounded combinations of separators, dots, escapes and types; the tests draw random ordinary ones.",
 [PE,I],[("process_path",f"{PE}:process_path")],["return value of process_path","names in the file"])
p("C03","The Group for references is never readable or writable as user data",
 "A read or write request whose path is the Group for references or anything below it is refused with ValueError before anything in the file is changed. The Group never shows up when the file is iterated and is not counted in its length.",
 ["inputs","configurations"],"every way of spelling such a path (types, relative parts, doubled slashes), alone or in a batch, for every top level Group chosen for references",
 "Needs every spelling of a path against every configured group, including batches where only one entry is offending.",
 [I,PE],[("check in writes and reads",f"{I}:File.writes, File.reads"),("filter in iteration and length",f"{I}:File.__iter__, File.__len__")],["exceptions of File.write/read and listing of the file before and after"])
p("C04","Options stay valid and mutually consistent under any sequence of settings",
 "Assigning an option either takes effect exactly as given (the reference Group path in its normalised form) or, if the value is not one the option accepts, changes nothing. Turning MATLAB compatibility on forces every option MATLAB requires to its required value, giving any of these another value turns MATLAB compatibility off, and every other option is left untouched.",
 ["inputs","histories"],"every sequence of option assignments and constructor arguments, with values of any type",
 "25 interacting settings with histories of any length; tests set one at a time with valid values.",
 [I],[("Options property setters and constructor",f"{I}:Options")],["option values after each assignment"])
p("C05","Marshaller lookup follows priority order through any add/clear history",
 "After any history of adding and clearing marshallers and changing priority, looking a type, type string or MATLAB class up gives the first marshaller, in the configured order of builtin, plugin and user groups, that declares it, or none if nobody does. Adding a marshaller again has no effect, and a request holding anything that is not a marshaller (or a bad priority) is rejected without changing the collection.",
 ["histories","inputs","configurations"],"every sequence of collection operations, every priority permutation, overlapping declarations",
 "The winner depends on the whole history and all overlaps; tests use a single marshaller at a time.",
 [I,M],[("lookup table construction",f"{I}:MarshallerCollection._update_marshallers"),("add/clear/lookup methods",f"{I}:MarshallerCollection")],["lookup results"])
p("C06","File handles: closed means closed, read-only means read-only",
 "Every operation on a closed file raises OSError and touches nothing; every modifying operation on a file opened read-only raises OSError and leaves the bytes of the file unchanged. Closing is idempotent and is done when leaving the context, also through an exception, and the data written before closing is there when reopened.",
 ["histories","configurations"],"every sequence of operations on a handle in any state (open for writing, read-only, closed), for both forms of opening",
 "Requires all operations in all handle states and orders; tests check a few combinations.",
 [I],[("File methods' state checks",f"{I}:File")],["exceptions, file contents"])
p("C07","Python scalars and strings read back equal and of the same type",
 "None, Ellipsis, NotImplemented, bools, ints of any size, floats and complex numbers (bit for bit, including signed zeros, infinities and NaNs), str, bytes and bytearray that are written with Python metadata read back as the same type with the same value. This holds whatever the other options are, including MATLAB compatible ones, as long as the complex field names are ones the reader recognises.",
 ["inputs","configurations"],"every value of those types, every option combination with Python metadata stored",
 "Unbounded values (surrogates, nulls, empty strings, huge integers) times option combinations.",
 [M,U],[("PythonScalarMarshaller, PythonStringMarshaller, PythonNoneEllipsisNotImplementedMarshaller",M)],["File.write then File.read"])
p("C08","NumPy data reads back with the same dtype, shape, container and contents",
 "NumPy bool, integer, float (not longdouble), complex, bytes and str scalars, arrays of any shape including zero sized and zero dimensional ones (arrays of text with no room for a character excluded), matrices and chararrays, object arrays of supported values, and non-empty structured arrays and record arrays of numbers (except pairs of floats that HDF5 stores like complex ones) read back with the same container, dtype (of text and of empty arrays in native byte order), shape and elements when Python metadata is stored. This holds for every memory layout and for both values of every storage option.",
 ["inputs","configurations"],"every such array times every option combination with Python metadata stored (recognised complex names; MATLAB mode for dtypes MATLAB has)",
 "Shape, dtype, layout and nine interacting switches multiply; tests use random small samples under a few presets.",
 [M,U],[("NumpyScalarArrayMarshaller.write/read",f"{M}:NumpyScalarArrayMarshaller")],["File.write then File.read"])
p("C09","Containers read back equal, in order and with every nested element intact",
 "dict, OrderedDict, Counter, ChainMap, list, tuple, set, frozenset, deque, slice, range, Fraction and datetime module objects holding any supported values, nested in any way, read back as the same type with equal content when Python metadata is stored, and ordered containers keep their order. Dict keys of any supported hashable type are kept, including strings with slashes, dots, backslashes, nulls and keys that clash once turned into names.",
 ["inputs","configurations"],"every finite nesting of the supported containers, every option combination with Python metadata stored (recognised complex names; MATLAB mode for what MATLAB has; names for keys and values without nulls, refused if they are the same or empty)",
 "Recursion over unbounded nesting; tests sample depth one or two.",
 [M,U],[("container marshallers",M),("object array and nested data writing/reading",f"{U}:LowLevelFile")],["File.write then File.read"])
p("C10","String conversions are inverse to each other and never corrupt characters",
 "Converting text to 16 or 32 bit code units and back, with the string length as grouping, gives back the same text for scalars and for arrays of any shape and memory layout, and conversion to 16 bit fails rather than yielding different text when a character cannot be represented. Decoding unsigned integer code units to str, numpy str and UTF-8 bytes agree with each other, and values that are already in the target type are returned unchanged.",
 ["inputs"],"every str, bytes, numpy string scalar or array and every array of valid 8, 16 and 32 bit code units, non-empty, with grouping lengths of at least one",
 "Characters, shapes, byte layouts and grouping lengths are unbounded.",
 [U],[("convert_numpy_str_to_uint16/32, convert_to_str, convert_to_numpy_str, convert_to_numpy_bytes",U)],["return values"])
p("C11","Complex encoding is exact and reversible, and nothing else is taken for complex",
 "Encoding complex data puts the exact real and imaginary parts under the two requested field names, at the same precision and shape, and decoding it gives back the same data bit for bit for every recognised pair of names. Decoding returns everything that is not a pair of one real and one imaginary field unchanged.",
 ["inputs"],"every complex scalar and array, every pair of field names, every non complex array",
 "Infinities, NaNs and signed zeros get lost by arithmetic shortcuts only on special values; field names are arbitrary strings.",
 [U],[("encode_complex, decode_complex",U)],["return values"])
p("C12","A dtype survives conversion to text and back",
 "For every dtype the package stores (plain, with byte order, sub-array, structured and nested to any depth, titles and aligned structures holding unaligned ones excluded) the text form converted back is an equal dtype with the same field names in the same order. Text that does not describe a dtype is rejected instead of being evaluated.",
 ["inputs"],"every numpy dtype without titles, alignment or explicit offsets",
 "Nested dtypes with arbitrary field names form an infinite set.",
 [U,M],[("convert_dtype_to_str, convert_str_to_dtype",U)],["return values","File.write then File.read of a dtype"])
p("C13","The zero-shape test finds a zero length dimension at any depth",
 "The test used to decide whether a dtype can be stored natively says yes exactly when some sub-array shape inside the dtype, at any nesting depth of fields and sub-arrays, has a dimension of length zero.",
 ["inputs"],"every numpy dtype",
 "Unbounded nesting of fields and sub-arrays.",
 [U],[("does_dtype_have_a_zero_shape",U)],["return value"])
p("C14","Setting attributes leaves exactly the requested attributes with exact values",
 "After setting a collection of attributes on an object every requested one reads back with the requested value, whatever was stored under that name before (other type, shape or kind), and all other attributes are removed when discarding is asked for and untouched otherwise. Setting an attribute to the value it already has changes nothing.",
 ["inputs","histories"],"every prior attribute state and every request of values, strings, string arrays and deletions",
 "Depends on every combination of prior and requested kind, dtype and shape.",
 [U],[("set_attributes_all and the set_attribute functions",U),("get_attribute functions, read_all_attributes_into",U)],["attributes of the object before and after"])
p("C15","The last write to a path wins and no other path changes",
 "After any sequence of writes and deletions, reading a path gives the value last written to it whatever type, shape, filters or kind of node was there before, a deleted path is gone, and every other path still reads as it did. Leftovers of an earlier value never show in the new one as long as unused variables are being deleted.",
 ["histories","inputs"],"every sequence of writes, batch writes and deletions over values of all supported kinds, with unused variables being deleted",
 "Overwrite behaviour depends on pairs of old and new kinds and on histories of any length.",
 [M,U,I],[("in-place or recreate decision, field and key clean-up",f"{M}:NumpyScalarArrayMarshaller.write, PythonDictMarshaller.write"),("write_data",f"{U}:LowLevelFile.write_data")],["File.read of all paths after each step"])
p("C16","Every stored reference has its own freshly named target",
 "A name handed out for a new element of the Group for references never names something that already exists there, and each element of an object array or container gets its own entry, so writing more data never changes what earlier references point to. Elements that cannot be written become the canonical empty entry instead of aliasing another element.",
 ["inputs","histories"],"every content of the group and every random draw, every number of elements",
 "Depends on the random names drawn and on everything written before.",
 [U],[("next_unused_ref_group_name, write_object_array",f"{U}:LowLevelFile")],["names in the reference group, values read through references"])
p("C17","Compression, shuffle and checksum filters follow the options exactly",
 "A stored array is compressed with the selected algorithm and level, shuffled and checksummed if and only if compression is on and its size reaches the threshold; below that it is uncompressed and has the checksum chosen for uncompressed data; scalars get no filter. This also holds when it replaces data stored with other filters, and no filter choice changes the values read.",
 ["configurations","inputs","histories"],"every filter option combination, every size around the threshold, every prior dataset",
 "Product of seven options, sizes and prior states.",
 [M],[("filter selection and dataset creation",f"{M}:NumpyScalarArrayMarshaller.write")],["filter properties of the stored dataset"])
p("C18","MATLAB compatible files carry the header and class information MATLAB needs",
 "Every file created in MATLAB compatible mode starts with a valid MATLAB 7.3 header in a 512 byte block, and every variable is at least two dimensional in reversed dimension order with the MATLAB class, empty, logical and character markers that fit its data. Data MATLAB has no class for is kept, discarded or raises, exactly as the chosen action says, at the top level and nested.",
 ["inputs","configurations"],"every supported value and every incompatibility action in MATLAB compatible mode",
 "Every dtype, emptiness and nesting combination needs its own markers.",
 [M,I],[("write_metadata and class tables",f"{M}:NumpyScalarArrayMarshaller"),("file header and incompatibility action",f"{I}:File")],["raw file contents read with h5py"])
p("C19","Saving a dictionary of variables as a MATLAB file and loading it restores it",
 "Loading a file saved from a dictionary of variables gives the same names with equal values when Python metadata is stored, asking for particular variable names gives exactly those of them that exist, and a dictionary given to load into is updated and returned. The '.mat' suffix is added only if asked for and missing, and saving into an existing file keeps its other variables unless truncation is asked for.",
 ["inputs","histories"],"every dictionary of supported values whose names are identifiers, every combination of the arguments, any earlier content of the file",
 "Dictionaries and argument combinations are unbounded.",
 [I],[("savemat, loadmat",f"{I}:savemat, loadmat")],["return value of loadmat, contents of the file"])
p("C20","One file handle can be used by any number of threads without corruption",
 "Concurrent reads, writes, deletions, membership tests, listings and closings by several threads on one handle behave as if they were run one after another in some order: each read returns a value that was completely written, no write is lost or torn, and no operation fails or hangs because of the other threads. A lock is never left held when an operation ends, also when it ends by an exception.",
 ["schedules","histories"],"every interleaving of public operations of any number of threads on one handle",
 "Failures need a particular interleaving; the tests are single threaded.",
 [I],[("lock held around every access",f"{I}:File")],["results of operations running concurrently"])
p("C21","The file behaves as a mapping consistent with itself",
 "For every history of operations, length, iteration, membership, key, value and item views, get with default, pop, setdefault, update, clear and item access agree with a dictionary from the names in the root of the file to their data. Missing paths raise KeyError (or give the default), and a path is a member exactly if it can be read.",
 ["histories","inputs"],"every sequence of mapping operations with paths of every form outside of the Group for references",
 "Equivalence with a dictionary must hold after any history.",
 [I],[("mapping methods",f"{I}:File")],["results compared with a dictionary"])
p("C22","Writing never modifies the caller's data",
 "Writing leaves the objects given to it exactly as they were: same contents, same shape, same dtype, same writability and same identity of nested elements. Reading gives data independent of the file, so changing it changes neither the file nor a later read.",
 ["inputs","configurations"],"every supported value and option combination",
 "In-place reshapes and views only matter for particular layouts and types.",
 [M,U,I],[("write methods of all marshallers",M)],["inputs compared before and after writing"])
p("C23","Batch reads and writes equal the single ones and are validated as a whole",
 "Writing several items at once gives the same file content as writing them one by one in order, and reading several paths at once gives the list of what single reads give, in order. If any path in a batch is invalid or reserved the batch is refused before anything is written, and the module level functions behave as the same operation on an opened and closed file.",
 ["inputs","histories"],"every batch of paths and values, including repeated paths and empty batches",
 "Batches of any length with any position of the offending entry.",
 [I],[("writes, reads and module level wrappers",I)],["file content, return values, exceptions"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
