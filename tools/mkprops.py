import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

ALL=["src/avb/file.py","src/avb/core.py","src/avb/ioctx.py","src/avb/attributes.py","src/avb/bin.py","src/avb/components.py","src/avb/trackgroups.py","src/avb/essence.py","src/avb/misc.py"]
OBJ=["src/avb/attributes.py","src/avb/bin.py","src/avb/components.py","src/avb/trackgroups.py","src/avb/essence.py","src/avb/misc.py","src/avb/ioctx.py"]

p("C01","Reading yields exactly the encoded values, for every object kind and byte order",
"Opening a well-formed bin file, little- or big-endian, and reading any object of any supported kind yields exactly the field values the file encodes: every number with its sign and width, every text, identifier, date, flag, list element and reference target. A field that is optional in the format is present on the object exactly when the file contains it, whichever other optional fields accompany it.",
["inputs"],"every supported object kind x every assignment of field values in the format's domain x every subset of its optional fields x both byte orders",
"Tests read one sample bin, 13 retime bins and a few hundred harvested chunks, nearly all little-endian with typical values; sign, width, boundary values, rare optional fields and big-endian are not sampled.",
OBJ+["src/avb/file.py"],[("per-class read() methods","src/avb/*.py"),("primitive readers","src/avb/ioctx.py: AVBIOContext.read_*"),("lazy object loading","src/avb/file.py: AVBFile.read_object")],["property values of objects obtained by avb.open"])

p("C02","A saved file is well-formed and encodes exactly the in-memory document",
"Saving a document in either byte order produces a file that an independent decoder of the format accepts completely: correct header, declared object count equal to the objects present, the root recorded last, every chunk of its declared length and properly terminated. Decoding it gives back exactly the values held in memory, with every reachable object stored exactly once, every reference pointing to the right, earlier-stored object, and nothing unreachable stored.",
["inputs","programs"],"every object graph buildable from every supported object kind (shared references, nulls, deep nesting) with every field value in the format's domain, both byte orders",
"The write tests re-read with the same library, so symmetric read/write errors cancel, and they only save the sample bins or a few created objects.",
ALL,[("per-class write() methods","src/avb/*.py"),("graph walk and index assignment","src/avb/file.py: AVBFile.write; src/avb/core.py: walk_references"),("primitive writers","src/avb/ioctx.py")],["bytes of the saved file"])

p("C03","Load-save-load preserves the whole document and re-saving is a fixed point",
"For every well-formed bin, loading it and saving it in either byte order gives a file whose loaded document equals the original: same values, same sharing of referenced objects, same nulls, same header identification and creation data. Saving the reloaded document again in the same byte order reproduces the same bytes, and loading or saving never alters the document held in memory or the source file.",
["inputs","histories"],"every well-formed document (generated graphs and mutated sample bins) x every sequence of load/save steps over both byte orders",
"Tests save each sample once or twice per byte order and compare sizes or a few attributes of those specific documents.",
ALL,[("reference remapping","src/avb/file.py: write/ref_mapping"),("lazy reads during save","src/avb/core.py: AVBObjectRef, walk_references")],["bytes and values of successive saved files"])

p("C04","Edits made through the API are exactly what the next save contains",
"After any sequence of edits to a loaded or newly created document (setting and replacing fields, editing attribute dictionaries, adding, removing and reordering list entries, adding and removing mobs, creating and linking objects), saving in either byte order and reloading shows exactly the edited state. Objects and fields that were not edited keep their values, and removed or unlinked objects are gone.",
["histories"],"every finite history of API edits interleaved with saves, reloads and reads, over generated documents",
"Tests perform single scripted edits (adding a mob, a marker, attributes) and check those.",
["src/avb/file.py","src/avb/core.py","src/avb/attributes.py","src/avb/bin.py"],[("property storage","src/avb/core.py: AVBObject.__setattr__"),("reference lists","src/avb/core.py: AVBRefList"),("factory","src/avb/file.py: AVBFactory.from_name")],["reloaded document"])

p("C05","An edit survives dropping every reference to the edited object",
"An edit to an object or reference list loaded from a file stays in effect even if the program drops every reference to it and memory is reclaimed before the object is visited again or saved. Conversely, reading, enumerating, comparing or printing objects never counts as an edit and never changes what a later read or save yields.",
["histories","schedules"],"every interleaving of field edits, list edits, dictionary edits, reads, reference drops and garbage collections on loaded documents, with either reader implementation",
"Whether an object is reclaimed between an edit and the save depends on reference lifetimes; existing tests keep the edited objects alive in local variables.",
["src/avb/core.py","src/avb/file.py","src/avb/attributes.py","src/avb/_ext.pyx"],[("modified-object retention","src/avb/file.py: modified_objects/add_modified"),("mark_modified hooks","src/avb/core.py, src/avb/attributes.py")],["values after gc.collect(), saved bytes"],[("object_cache","weak map index->object","src/avb/file.py"),("modified_objects","strong map of edited objects","src/avb/file.py")])

p("C06","Lazy loading is order-independent and preserves object identity",
"Objects of a file may be read in any order, through references, by class enumeration, through the bin's mob list or via raw chunk enumeration, interleaved with other use of the file, and always have the same values as in a single in-order read. While an object is alive every path to it yields that same object, and a file opened by path, by open file object, or with any buffering behaves identically.",
["schedules","histories"],"every access order and interleaving of object reads, chunk enumeration, stream repositioning and collections over generated and sample files",
"Tests read each file in one order with one way of opening it.",
["src/avb/file.py","src/avb/utils.py","src/avb/core.py"],[("object cache and seek-per-read","src/avb/file.py: read_object/read_chunk"),("reference deref","src/avb/utils.py: AVBObjectRef.value")],["object identity and values"])

p("C07","Chunk and class enumeration is complete, exact and in file order",
"Enumerating the chunks of an open file yields the header and then every stored object exactly once, in file order, with its true class, position, size and bytes. Enumerating by class yields exactly the objects whose class is in the requested set, each once and in file order, and every one equals the object reached through references.",
["inputs"],"every well-formed file x every subset of classes, both byte orders",
"Tests iterate the sample bins and only check that iteration does not fail.",
["src/avb/file.py"],[("chunks/iter_class_ids/read_chunk","src/avb/file.py")],["chunks(), iter_class_ids()"])

p("C08","Damaged or foreign files are rejected with an error, never misread or hung on",
"A file that is not a bin, is truncated, or has an object whose bytes are cut short, extended, mis-tagged, of unknown class, or pointing at non-existent objects raises an ordinary exception when the damaged part is opened or read, in bounded time and memory. It never yields a value that a well-formed file with those bytes could not mean, and damage to one object does not prevent or alter the reading of other, undamaged objects.",
["inputs","fault_sequences"],"every truncation point, tag corruption, out-of-range reference, resized chunk and random byte mutation of well-formed files, default reader of this platform",
"No test feeds malformed input.",
["src/avb/file.py","src/avb/ioctx.py"]+OBJ,[("tag assertions, trailing-byte check, index check","src/avb/ioctx.py read_assert_tag/read_object_ref; src/avb/file.py read_object")],["exceptions raised on open/read"])

p("C09","Unsavable values are refused, never silently saved as something else",
"Saving a document containing a value outside what its field can store (an integer too wide, text not representable in the field's encoding or too long, a list too long for its count, an attribute of unsupported type, a missing mandatory field, an object belonging to another open file) raises an error. It never succeeds with a file whose reloaded value differs from the one held in memory.",
["inputs"],"every field of every object kind x boundary and out-of-range values on both sides of its range, and foreign objects at every reference position",
"The tests only save representable values; boundary behaviour of each of several hundred fields is not exercised.",
ALL,[("struct packing, encoders","src/avb/ioctx.py write_*"),("foreign object guard","src/avb/file.py: write_object")],["exception or reloaded value"])

p("C10","A failed save leaves the document intact and savable",
"If a save fails part-way, whether because the document holds an unsavable value or because the output device errors at any point, the error is reported and the in-memory document is unchanged and unharmed. Correcting the cause and saving again, in either byte order, produces the same file as if the failure had never happened.",
["fault_sequences","crash_points"],"every point of failure during a save (each unsavable field or object, each output write) followed by every retry",
"No test makes a save fail.",
["src/avb/file.py"],[("output context reset in finally","src/avb/file.py: AVBFile.write")],["document values and bytes of the retry"])

p("C11","Decimal rates and fixed-point reals survive saving",
"Every edit rate or sample rate whose value is a decimal representable in the format (32-bit mantissa, up to six fractional digits) is read back equal after a save, and any other positive rate within range is stored to within one unit of the last stored digit. Double-precision fields are preserved bit for bit.",
["inputs"],"all representable mantissa/exponent pairs, common broadcast rates, and arbitrary finite doubles in range, both byte orders",
"Tests only meet the handful of rates present in the samples.",
["src/avb/ioctx.py"],[("read/write_exp10_encoded_float, read/write_double","src/avb/ioctx.py")],["edit_rate, sample_rate and double fields after reload"])

p("C12","Text survives saving in every text field",
"Any text that its field's character set can represent is read back exactly after saving, whichever field it is stored in and whatever its neighbours, including empty text, accented Mac characters, and full Unicode in Unicode-capable fields. Text the character set lacks is refused with an error rather than altered.",
["inputs"],"all strings over the field's character set without leading/trailing NUL up to the length limit, every text field and attribute name/value",
"Tests use a few ASCII names.",
["src/avb/ioctx.py","src/avb/attributes.py","src/avb/misc.py","src/avb/bin.py","src/avb/components.py"],[("read_string/write_string","src/avb/ioctx.py")],["text after reload"])

p("C13","MobID forms are mutually inverse and ordering, equality and hashing agree",
"A MobID converted to its byte, integer, dictionary, field-by-field or URN form and back is the same MobID, for both normal and half-swapped material numbers, and URN parsing accepts its documented spelling variants. Equality, hashing and ordering depend only on the 32-byte value and are consistent with each other and with the integer form; freshly generated MobIDs are distinct.",
["inputs"],"all 256-bit identifiers (excluding the one URN spelling that two identifiers share), and pairs of them",
"There is no dedicated MobID test; only identifiers in the samples are touched.",
["src/avb/mobid.py","src/avb/utils.py"],[("urn/int/dict/material accessors","src/avb/mobid.py"),("int conversion","src/avb/utils.py")],["MobID API"])

p("C14","Copying to another file reproduces the object and shares nothing with it",
"Copying any object into another open document yields an object belonging to that document whose values, recursively through everything it references, equal the original's, and which can be saved there. Later edits to either the copy or the original, at any depth, never show up in the other.",
["inputs","histories"],"every object graph without sharing-dependent meaning, every pair of source/target documents, every subsequent edit",
"Tests copy all mobs of the sample bins once and compare dumps; aliasing and rare property shapes are not examined.",
["src/avb/core.py","src/avb/attributes.py"],[("AVBObject.copy, AVBRefList.copy, Attributes.copy","src/avb/core.py, src/avb/attributes.py")],["values of both documents after edits; saved target"])

p("C15","New objects and documents start from independent, correct defaults",
"Every newly created object or empty document starts with the documented defaults and constructor arguments it was given, with a fresh identity, regardless of what was created or edited earlier in the same process. No edit to one new object, at any depth, ever changes another object, a later-created object, or the defaults themselves.",
["histories"],"every history of creations and edits across several documents in one process",
"Tests create objects in isolation and never edit defaults in place.",
["src/avb/core.py","src/avb/bin.py","src/avb/components.py","src/avb/trackgroups.py","src/avb/essence.py","src/avb/file.py"],[("propertydefs defaults and __init__","src/avb/core.py: AVBObject.__init__"),("factory identity","src/avb/file.py: AVBFactory")],["freshly created objects"])

p("C16","The native readers give the same results as the reference readers",
"For every well-formed file, reading with the compiled readers yields the same object values, types, list behaviour and reference targets as the pure-Python readers, for every object kind they cover. The two documents also accept the same edits and save to equivalent files: the same objects, values and references.",
["inputs","configurations"],"all well-formed little-endian files over the natively read object kinds, both reader configurations",
"Tests compare neither implementation with the other; they run the same samples through each separately.",
["src/avb/_ext.pyx","src/avb/_ext_core.cpp","src/avb/file.py"],[("fast readers","src/avb/_ext.pyx READERS"),("dispatch","src/avb/file.py: read_object")],["values and saved bytes with use_ext on/off"])

p("C17","The native readers are memory-safe and bounded on arbitrary bytes",
"Whatever bytes an object contains, the compiled readers never read or write outside the object's data, never crash or hang the process, and never allocate memory out of proportion to the input. A truncated or mis-tagged object either raises an ordinary exception or is reported exactly as the reference readers report it.",
["inputs","fault_sequences"],"arbitrary and mutated chunk contents for every natively read class, under memory-error detection",
"Tests only feed intact chunks and run without sanitizers.",
["src/avb/_ext_core.cpp","src/avb/_ext.pyx"],[("bounds-checked buffer reads","src/avb/_ext_core.cpp"),("element count checks","src/avb/_ext_core.cpp")],["sanitizer reports, exceptions, peak memory"])

p("C18","Timeline positions and lengths follow from component lengths",
"In any sequence each component starts where the preceding material ends, with a transition overlapping both neighbours by its own length, and the total length is the sum of lengths less the transition overlaps. Looking up a time returns a component that actually covers it (the transition where one covers it), with that component's true start, clamping to the first or last component outside the sequence.",
["inputs"],"all component lists of clips, fillers (including zero length) and transitions with valid overlaps; all query times inside and outside",
"Tests query a few times in sample sequences.",
["src/avb/components.py"],[("Sequence.length/positions/nearest_*","src/avb/components.py")],["Sequence API"])

p("C19","Keyframe curves pass through their keyframes and interpolate as specified",
"Evaluating a keyframed parameter returns the exact keyframe value at every keyframe, the end values outside its range, and in between the value prescribed by its interpolation: hold, straight line, the Bezier curve defined by the keyframe tangents, or the smooth curve through the neighbouring keyframes. It is defined and finite at every finite time for every curve with increasing keyframe times, and finding the governing keyframe agrees with a plain scan.",
["inputs"],"all keyframe lists with strictly increasing times, all interpolation kinds and tangents, all finite times",
"Tests compare sampled frames of a dozen retime files; degenerate tangents, ties, single keyframes and out-of-range times are not covered.",
["src/avb/components.py","src/avb/interpolation.py"],[("ParamClip.value_at/nearest_index","src/avb/components.py"),("bezier/cubic interpolation","src/avb/interpolation.py")],["value_at, nearest_index"])

p("C20","Integrating a speed curve gives the consistent frame offset map",
"Integrating a speed curve over any frame range yields one sample per half frame in order, covering the range, zero-based at the first keyframe's frame plus its base frame, equal to the accumulated area under the curve. Results for overlapping ranges agree, constant speed gives exactly proportional offsets, and an invalid range is reported as an error.",
["inputs"],"all speed curves and integer frame ranges, including ranges before, across and after the first keyframe",
"Tests check the dozen sample retimes only over their own range.",
["src/avb/components.py","src/avb/interpolation.py"],[("ParamClip.integrate, integrate_iter, mc_trapezoidal_integrate","src/avb/components.py, src/avb/interpolation.py")],["ParamClip.integrate"])

p("C21","Dependency listing is complete, duplicate-free, children-first and terminates",
"For any mob, listing the mobs it depends on yields every mob of the bin reachable through source clips (at any nesting inside its tracks), each exactly once, never the mob itself and nothing else. Each is listed after the mobs it itself depends on, and the listing terminates for every reference graph, including cyclic ones.",
["inputs"],"all mob reference graphs (trees, diamonds, shared sub-mobs, cycles, dangling or null references) with clips at any nesting depth",
"Tests list dependants on sample bins, which contain small acyclic graphs.",
["src/avb/trackgroups.py","src/avb/core.py"],[("TrackGroup.dependant_mobs","src/avb/trackgroups.py"),("walk_references","src/avb/core.py")],["dependant_mobs()"])

p("C22","Bin queries reflect the bin's current items; source clips resolve accordingly",
"Looking up a mob by identifier, listing mobs, and the composition, top-level and master listings always agree with a plain scan of the bin's current items, after any sequence of additions, removals, replacements and identifier changes. A source clip's mob and track are exactly those its identifier, track number and media kind name in the current bin, or nothing when there is none.",
["histories"],"all histories of item edits interleaved with lookups, duplicates and missing identifiers included",
"Tests look up mobs in unmodified sample bins.",
["src/avb/bin.py","src/avb/components.py","src/avb/trackgroups.py"],[("find_by_mob_id and its cache","src/avb/bin.py"),("SourceClip.mob/track","src/avb/components.py")],["Bin and SourceClip API"],[("_mob_dict","lazily built id index","src/avb/bin.py")])

p("C23","Reference lists behave as lists and attribute sets as ordered dictionaries",
"Component lists, parameter lists, marker lists and attribute sets of loaded documents give the same results as a plain list or ordered dictionary under every operation they offer (indexing, slicing, insertion, deletion, sorting, reversing, clearing, popping, membership, iteration, lookup with default), with references seen as the objects they point to. After any sequence of such operations the contents, also after save and reload, equal those of the plain model.",
["histories"],"all sequences of list/dictionary operations on loaded and created containers, including null references",
"Tests append and iterate only.",
["src/avb/core.py","src/avb/attributes.py"],[("AVBRefList overrides","src/avb/core.py"),("AVBPropertyData/Attributes overrides","src/avb/core.py, src/avb/attributes.py")],["container contents before and after reload"])

p("C24","Symbolic views of coded fields are faithful to the codes",
"The media kind of a component, the type and usage of a mob, and the interpolation, value type and point-property names of parameters name exactly the stored code, with every named media kind settable and read back as itself, and unknown codes or names never mapped onto known ones. The track presence flags equal the set of fields present on the track, and rebuilding a track from them loses nothing.",
["inputs"],"all code values in the field's width, all names, all subsets of track fields",
"Tests see only the codes present in samples.",
["src/avb/components.py","src/avb/trackgroups.py","src/avb/misc.py","src/avb/parameter_uuids.py"],[("media_kind, mob_type, usage, interp, value_type_name, Track.flags","src/avb/components.py, src/avb/trackgroups.py, src/avb/misc.py")],["symbolic properties"])

p("C25","Bins of any size keep every item",
"A bin holding any number of items, including more than the 16-bit limit of the ordinary bin format, saves and reloads with every item, in order, with its placement data and mob, and looks up every mob. The large-bin layout is used exactly when it is needed or was already in use.",
["inputs"],"item counts around and beyond 65535, both byte orders, both bin root kinds, large-bin marker set or not",
"No test has more than a few dozen items.",
["src/avb/bin.py","src/avb/file.py"],[("large bin version switch","src/avb/bin.py: Bin.read/write"),("32-bit object indices","src/avb/file.py")],["reloaded items, version byte of the saved root"])

p("C26","Saving to a path never destroys the only copy of a document",
"Saving a document over the very file it was loaded from produces the same content as saving it to a new path, and a save that fails leaves a file already present at the destination readable with its previous content.",
["crash_points","histories"],"every loaded document saved over its own source, and every failing save onto an existing file",
"Tests always save to a fresh path.",
["src/avb/file.py"],[("AVBFile.write opens the destination","src/avb/file.py")],["destination file content"])

p("C27","Generic field access, walking and printing agree with the object",
"For every object of every file, the generic views of its fields (iteration, membership, length, items, values, get with default, equality, copies, the field definitions) agree with plain attribute access and list exactly the fields the file contains, with references seen as the same objects everywhere. Walking the references of an object reaches every object it depends on, each after those it refers to and itself last, and printing or dumping a document never fails and changes nothing.",
["inputs"],"all documents of all object kinds and any subset of optional fields, unknown codes included, read in either byte order or created; all subsets of objects printed",
"Tests dump the sample files only and ignore what is printed.",
["src/avb/core.py","src/avb/utils.py","src/avb/trackgroups.py","examples/avbdump.py"],[("AVBPropertyData, AVBObject.__repr__, walk_references","src/avb/core.py"),("AVBObjectRef","src/avb/utils.py")],["property_data, propertydefs, walk_references, repr, dump tool output"])

p("C28","Reading retains nothing, and closing or failing to open releases everything",
"Reading through a document, in any order and as often as wanted, keeps no unmodified object alive that the program has dropped. Closing a document, leaving its context or failing to open one closes every file the library opened, leaves files passed in by the program to the program on failure, and drops the document itself, so any number of files can be opened one after the other.",
["histories"],"all access sequences on all documents, and all ways of opening: by path, by file object, buffered or not, on valid and damaged files",
"Tests open few files and never look at what stays open or alive.",
["src/avb/file.py","src/avb/core.py"],[("AVBFile.__init__/close, object_cache, modified_objects","src/avb/file.py")],["live objects (weak references), open descriptors of the process"])

p("C29","Open documents do not affect one another",
"Any number of documents, loaded or created, of either byte order, can be open in one process and be read, edited, copied, saved, made to fail and closed in any interleaving, at any point inside the library's operations and from different threads as long as each document stays with one of them. Each document, and each file saved from it, is exactly what it would be if the document were the only one.",
["schedules","histories"],"all interleavings of all histories of several documents",
"Tests work on one document at a time, from one thread.",
["src/avb/file.py","src/avb/core.py","src/avb/ioctx.py"],[("AVBFile state, AVBIOContext, class registries, read_object/write_file","src/avb/file.py")],["values read, files saved, exceptions raised"])
p("C30","What is read and saved does not depend on the process",
"The same history of opening, listing, editing and saving a valid document observes the same values in the same order and saves the same bytes in every process. Neither hash seed, optimisation level (python -O, -OO), locale, working directory, way of opening, garbage collection, earlier or other documents nor the Python implementation makes a difference.",
["configurations","histories"],"all valid documents and histories, in all process environments",
"Tests run in one environment with assertions enabled and compare no two processes.",
["src/avb/file.py","src/avb/core.py","src/avb/essence.py"],[("AVBFile.setup_file/read_object/write_file, walk_references","src/avb/file.py")],["values and listings read, bytes of saved files"])
p("C31","Work grows in step with the document, however objects are shared",
"Opening a document, reading or enumerating its objects, resolving clips and mobs that its bin has, listing dependant mobs, editing, and saving take work, and bytes read, that grow in proportion to the number of objects, list entries and references involved; how many paths lead to a shared object does not matter. Reading one object takes the same work whatever else the document holds, and looking up mobs the bin does not have never reads the bin's mobs again.",
["inputs","programs"],"all documents and all sizes: copies of any content, any list or value made longer, layers of shared objects, every shape of mob dependencies",
"Tests use documents of fixed, small size, on which exponential and quadratic work passes unnoticed.",
["src/avb/file.py","src/avb/core.py","src/avb/trackgroups.py","src/avb/bin.py"],[("walk_references, write_file","src/avb/core.py"),("dependant_mobs","src/avb/trackgroups.py"),("find_by_mob_id","src/avb/bin.py")],["steps executed and bytes read by each operation"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,x['id']
print(len(P))
