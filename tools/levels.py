# which properties are proved completely / partly, with their level notes (used by mkmanifest.py)
FILE = ("every operation of File (built by its own constructor, in both open and closed states, any batch, any paths, any error of HDF5 at "
        "any access), unbounded; assumes the contracts of process_path, LowLevelFile, h5py, threading.Lock and posixpath named in the evidence")
MARSH = ("NumpyScalarArrayMarshaller.write with arbitrary data (every NumPy type, container and number of dimensions, any lengths), arbitrary options that "
         "C04 allows, and anything stored under the name before; assumes the contracts of NumPy and h5py named in the evidence")
PROVED.update({
    "C01": "escape_path and unescape_path for every text: what is refused is decided on automata of the regular expressions of the code (all of Unicode), what a name and each piece of a text mean by following the substitutions through the replacement functions; unescaping undoing escaping is the composition. Assumes Python's re and str methods named in the evidence.",
    "C10": "convert_to_str, convert_to_numpy_str, convert_to_numpy_bytes and convert_numpy_str_to_uint16/32 for data of any shape, memory layout, byte order and grouping length: every item is the text of its own units, in order, with room for it; the round trip is the composition. Assumes Python's codecs and what NumPy's views, copies and char functions do, named in the evidence; that null characters pad and end the items is NumPy's.",
    "C02": "process_path for every str, bytes, pure path (POSIX and Windows, relative and absolute) and sequence of any number of parts, and for objects of other types. Assumes posixpath and pathlib as documented, and that escaped parts stay one element (C01); that File hands every path to it is part of C03, C06 and C21.",
    "C17": "What is stored, and whether old data is kept, is decided exactly by the options: " + MARSH + ". Other marshallers hand their data to it (bounded).",
    "C11": "encode_complex and decode_complex for data of any shape, any number of fields of any dtypes, names that are the recognised ones in any case or anything else, any requested names: exact parts under the right names, right dtype and byte order, everything else unchanged; the round trip is their composition. Assumes what NumPy's field access, views and complex assignment do, named in the evidence.",
    "C16": "next_unused_ref_group_name and write_object_array for any history of the handle (counter invariant), any state of the Group for references (absent, no Group, right or wrong canonical empty), any number of elements that are written, not written or raise, nested writes in between. Assumes that h5py references differ, and that write_data changes the Group only through these two functions. Containers hand their elements to write_object_array (bounded).",
    "C14": "set_attributes_all for any collection of requested and existing Attributes of any kinds and number: every requested one holds exactly its value, the others are gone or untouched. Assumes the contracts of h5py.AttributeManager named in the evidence and the conversions of C10; that setting the same value again changes nothing is bounded.",
    "C13": "For a dtype of any nesting: the worklist loop by an invariant (a part with a zero shape is in the worklist exactly if the dtype has one), recursive forms by the contract itself; termination is by the finiteness of dtypes. Assumes numpy's shape, fields, names, base and subdtype agree with each other.",
    "C05": "For collections holding any number of marshallers in every group, any overlapping declarations, every priority permutation and an arbitrary question: the constructor builds tables that answer with the first declarer, and each operation (adding one or many, known ones, rejected requests, removing, clearing) leaves exactly the state of a new collection with the marshallers it should hold, so it holds through every history by induction. Assumes the declarations of a marshaller do not change and that importlib, inspect and plugins behave as named in the evidence.",
    "C03": "Requests inside of the references Group are refused with ValueError before any change, and iteration and length leave the Group out: " + FILE + ".",
    "C06": "Closed and read-only behaviour, idempotent closing, closing on leaving the context: " + FILE + ". That mode 'r' keeps the bytes and that closing makes data durable is trusted of HDF5; both are exercised by the bounded part.",
    "C20": "Lock discipline (every access under the lock that closing takes, one critical section per operation, never held at an exit, no code of the caller run under it), which makes the operations of a handle atomic: " + FILE + ". Mutual exclusion of threading.Lock is trusted; real threads are exercised by the bounded part.",
    "C07": "The marshallers of Python scalars, strings and singletons give back value and type for every value and every option, over the round trip of the NumPy marshaller they hand it to, which C08 proves for every scalar. Assumes the conversions of Python and NumPy named in the evidence.",
    "C21": "Length, iteration, membership, get, set, delete, reads and writes: " + FILE + ". get, pop, popitem, setdefault, update, clear and the views of keys, values and items are run from the source of the standard library (or whatever overrides it) over these contracts for an arbitrary dictionary at an arbitrary key (clear by a loop invariant), so any history agrees with the dictionary by induction. That reading gives what was written is C07 to C09; real histories are exercised by the bounded part.",
    "C23": "Batches are validated before any change and perform exactly the single operations in order; module level functions are that operation on an opened, then closed File: " + FILE + ".",
})
PARTLY.update({
    "C08": "write∘read of the NumPy marshaller for numbers, bool, bytes and str scalars and arrays, matrices, chararrays, object arrays and structures of numbers stored as such, of any shape and layout, for every option; structures stored as Groups are bounded.",
    "C12": "convert_dtype_to_str, the marshaller of dtypes and reading only literals are proved; what NumPy's text of a dtype says is trusted and exercised by the bounded part.",
    "C09": "The marshallers of dict, OrderedDict, Counter, list, tuple, set, frozenset, deque, ChainMap, slice, range, Fraction and datetime objects keep type, elements and order for any number of items and any keys, by induction over the nesting; the leaves (C07, C08) and object arrays read back are bounded.",
    "C15": "What is under the name afterwards is the data with the right dtype and shape and only its Attributes, every field of a structure is written and nothing else stays in its Group: " + MARSH + ". That other paths do not change and reading after histories are bounded.",
    "C18": "Class, empty, logical, character and field markers, layout, and what happens with data without a class: " + MARSH + ". The header (its bytes, when it is written, the block of 512 bytes) is proved over every state of the file, options and moment. Containers and savemat are bounded.",
    "C22": "The data given is never written to: " + MARSH + ". Other marshallers and reading are bounded.",
    "C19": "savemat and loadmat are proved over the contracts of File, Options and unescape_path (names, suffix, truncation, options, update of the given dict); that values come back equal is bounded.",
})
