#!/usr/bin/env python3
"""The properties, in one place.  `python3 tools/props.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = {}
def prop(id, title, statement, over, text, why, files, mech, observe=(), na=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note))
    if na: NA[id] = na

prop('C01', 'Binary serialisation round-trips every value exactly',
 'Serialising any value of a described type (numbers, bools, enums, arrays, structs with bases and private members, templates, standard containers, strings) and deserialising it yields an equal value, whatever the target held before. Deserialising consumes exactly the bytes that were written, equal values give identical bytes, and neighbouring data in the stream is untouched. Reading past the end is refused with an exception and leaves a plain target unchanged.',
 ['inputs'], 'all bit patterns of every member; container sizes and string lengths up to the stated bounds; arbitrary previous target contents',
 'test/ packs one or two fixed literal structs; a wrong size, offset or dropped byte for particular values or sizes is never sampled.',
 ['pack_base.h', 'pack_stl.h', 'classdesc.cc', 'classdesc.h'], [('packraw/unpackraw and the per-type overloads', 'pack_base.h'), ('container overloads', 'pack_stl.h'), ('generated member descriptors', 'classdesc.cc')])
prop('C02', 'Untrusted serialised data is refused, never a memory error',
 'Deserialising arbitrary bytes into any described type either succeeds with a valid value or raises an exception; it never reads or writes outside the buffer or target and never leaks. A truncated serialisation is always refused.',
 ['inputs'], 'all byte strings up to the stated length, for each target type',
 'Tests only ever feed buffers the library itself wrote; lengths read from the stream are never hostile.',
 ['pack_base.h', 'pack_stl.h', 'pack_graph.h'], [('end-of-data check', 'pack_base.h: unpackraw/popoff'), ('length-prefixed reads', 'pack_base.h, pack_stl.h')])
prop('C03', 'A serialisation buffer behaves as a byte queue under any history',
 'Under any sequence of writes, reads, seeks within the data, resets, resizes, swaps and moves, a buffer returns exactly the bytes written, in order, and reports size and position consistently. Reads beyond the end are refused without changing state; moved-from buffers remain usable and empty.',
 ['histories', 'inputs'], 'all operation sequences up to the stated length with symbolic contents, sizes and offsets',
 'Tests write everything then read everything; interleavings of seek/reset/resize/move with data are not sampled.',
 ['pack_base.h'], [('buffer position and size bookkeeping', 'pack_base.h: pack_t')])
prop('C04', 'Deep comparison by serialised form is a consistent total order',
 'Comparing objects (or buffers) through their serialised form is reflexive, antisymmetric, transitive and total, equality holds exactly when the serialised forms are identical, and less-than/greater-than agree with it for every pair.',
 ['inputs'], 'all pairs and triples of values/buffers up to the stated size',
 'Tests compare a couple of equal and unequal literals; sign and length corner cases need all pairs.',
 ['pack_base.h'], [('cmp and deepEq/deepCmp', 'pack_base.h')])
prop('C05', 'Typed binary streams round-trip values and byte order',
 'A value written through the stream operators (plain, with container support, or in network byte order) reads back equal through the matching stream, mixing types in any order, and the network form is big-endian with the declared width. Reads past the end are refused.',
 ['inputs', 'histories'], 'all values of each supported type; all short sequences of mixed writes',
 'Existing tests write fixed values of a few types in one order.',
 ['pack_base.h', 'pack_stl.h'], [('BinStream operators', 'pack_base.h')])
prop('C06', 'Pointer graphs are rebuilt isomorphically, at any recursion limit',
 'Serialising a structure linked by pointers or references and deserialising it yields a new structure with the same values, the same sharing, the same cycles and the same nulls, whatever the recursion limit; trees likewise. Rebuilt nodes live exactly as long as the buffer (or copies of its allocation list), and a refused input does not affect later operations.',
 ['inputs', 'configurations', 'histories'], 'all graphs up to the stated node count, all recursion limits in the stated range, all truncation points',
 'The graph test uses one fixed graph with one limit; sharing and restart order interact only on particular shapes.',
 ['pack_graph.h', 'pack_base.h', 'ref.h'], [('id map and restart list', 'pack_graph.h: pack_graph/unpack_graph'), ('allocation list', 'pack_base.h: PtrStoreRef')])
prop('C07', 'Smart pointers and polymorphic objects round-trip with their dynamic type',
 'Serialising a smart pointer (shared, unique, weak, auto, ref, poly) or a polymorphic object and deserialising it gives a new object of the same dynamic type and value (or null for null), whatever the target held before; unknown type identifiers are refused; clones are independent equal objects of the same dynamic type; nothing is leaked or freed twice under any history of assignment, copying and self assignment.',
 ['inputs', 'histories'], 'all member values, all combinations of source and target type or null, all operation histories up to the stated length',
 'Tests serialise one polymorphic pointer of each type into an empty target; prior contents, nulls, self assignment and unknown identifiers are not sampled.',
 ['object.h', 'poly.h', 'polyBase.h', 'polyPackBase.h', 'polyAccessPack.h', 'polyPack.h', 'factory.h'], [('PolyPackBase pack/unpack through the type id', 'polyPackBase.h, polyAccessPack.h'), ('object type registry', 'object.h'), ('poly copy semantics', 'poly.h')])
prop('C08', 'A reference counted object lives exactly as long as it is referenced',
 'Under any history of copying, assignment (self assignment and chains included), swapping, nullifying and destruction, each object managed by a counted reference is destroyed exactly once, when the last reference to it goes; the count reported equals the number of references; references compare equal exactly when they denote the same object.',
 ['histories'], 'all operation sequences up to the stated length over up to three references, with linked payloads',
 'Tests create a couple of references and copy them once.',
 ['ref.h'], [('reference counting', 'ref.h: asg/refdec')])
prop('C09', 'XDR serialisation is machine independent, exact, and safe under any history',
 'Through an XDR buffer every supported value round-trips exactly in the documented XDR form (big-endian four byte units, padding with zero); values that XDR cannot hold are refused without leaving a trace. Any sequence of writes, reads, seeks, resets, swaps, moves and external refilling returns the items written, in order, whatever the size of single items or of the stream; truncated or hostile data is refused.',
 ['inputs', 'histories'], 'all values of every type; all operation sequences up to the stated length; item and stream sizes around the growth step',
 'Tests write a few fixed values to one XDR buffer and read them back; the growth step, wide longs and buffer moves are not sampled.',
 ['xdr_pack.cc', 'pack_base.h'], [('XDR filters and buffer growth', 'xdr_pack.cc')])
prop('C10', 'XML serialisation is well formed and round-trips every value',
 'Serialising a value of a described type to XML gives a well-formed document whose root and element names match the object, its members and element types, and deserialising that document yields an equal value: integers, bools and characters of any value, strings of any characters representable in XML (markup, blanks, non-ASCII, empty), enums, containers, nested classes. Members missing from a document keep their previous value.',
 ['inputs'], 'all strings and characters up to the stated length, all values of the stated integral ranges, all container sizes up to the bound',
 'Tests serialise one fixed object; markup characters, blanks, high-bit characters and empties at particular places are not sampled.',
 ['xml_pack_base.h', 'xml_unpack_base.h', 'xml_pack_epilogue.h', 'xml_unpack_epilogue.h', 'xml_common.h'], [('tags and escaping', 'xml_pack_base.h: xml_pack_t::pack, Tag'), ('content map', 'xml_unpack_base.h: xml_unpack_t::parse'), ('element naming', 'xml_pack_base.h, xml_common.h')])
prop('C11', 'The XML reader accepts exactly what is well formed and finds every value',
 'Reading an XML document finds the content of every element at its path and index, whatever its layout: comments, CDATA sections, processing instructions, entities, attributes with either quote, blanks and repeated elements. Documents with mismatched or missing tags are refused with an exception, and no input, however malformed, causes a memory error or endless loop.',
 ['inputs'], 'all documents assembled from the stated pieces with symbolic characters; all byte strings up to the stated length',
 'Tests read only documents written by the library, plus one fixed hand-written file.',
 ['xml_unpack_base.h', 'xml_common.h'], [('XML tokenizer', 'xml_unpack_base.h: XMLtoken'), ('entity decoding', 'xml_unpack_base.h: parseXMLtoken, XMLread/XMLtoken'), ('nesting check', 'xml_unpack_base.h: xml_unpack_t::parse')])
prop('C12', 'Enum symbols and values correspond exactly',
 'For every described enum, however it is declared (implicit, explicit, negative, aliased or computed values, scoped, sized, nested, commented), each symbol maps to its value and each defined value to its symbol; any other string or value is reported as unknown; enumeration lists each value once. Writing an enum by symbol and reading it back gives the same value, and enum members of classes travel however they are declared.',
 ['inputs'], 'every 32 bit value, every symbol, every string of up to 4 characters, for each declaration form',
 'Tests look up one or two symbols of plain enums.',
 ['classdesc.h', 'classdesc.cc'], [('symbol tables', 'classdesc.h: EnumKeys, enum_keysData'), ('enum parsing', 'classdesc.cc: assign_enum_action')])
prop('C13', 'Multidimensional array views address each element exactly once',
 'A multidimensional array view over contiguous data gives, for every rank and every set of dimensions (empty ones included), the documented element for each index, consistent sizes and strides, sub-views that write through, and iteration that visits every element exactly once in memory order.',
 ['inputs', 'histories'], 'ranks 1 to 4, all dimensions up to the stated bound, all indices within them, all short iterator histories',
 'Tests use one rank and one set of dimensions.',
 ['multiArray.h'], [('strides and sub-views', 'multiArray.h: MultiArray')])
prop('C14', 'Random initialisation sets every member to a valid value',
 'Randomly initialising an object sets every described member (arrays of any rank, containers, bases, nested objects, strings) to a valid value of its type, whatever values the random source yields: enums get defined values, characters are printable, containers get at most nine elements. Constant, excluded and pointer members are left alone, nothing outside the object is touched, and each object is normalised after its members are set. The default source yields numbers in [0,1).',
 ['inputs'], 'every result of the random source (all doubles in [0,1), all results of std::rand)',
 'Tests call it with one seed and do not look at the result.',
 ['random_init_base.h', 'random_init_epilogue.h'], [('random_init overloads', 'random_init_base.h'), ('class and container dispatch', 'random_init_epilogue.h')])
prop('C15', 'Smart pointers and polymorphic objects round-trip through XML',
 'Writing a smart pointer (shared, unique, ref, a polymorphic hierarchy included), by itself, as a member or as the element of a container, to XML and reading it back gives a new object of the same dynamic type and value; null shared and unique pointers come back null whatever the target held (except as elements of containers of plain pointers). Unknown types are refused leaving the target alone; nothing leaks.',
 ['inputs'], 'all combinations of dynamic type or null of source and target, all values within the stated bounds',
 'Tests write a few non-null pointers into empty targets.',
 ['polyAccessXMLPack.h', 'polyXMLBase.h', 'xml_pack_base.h', 'xml_pack_epilogue.h', 'ref.h'], [('smart pointer overloads', 'polyAccessXMLPack.h: xml_pack_smart_ptr/xml_unpack_smart_ptr'), ('ref handling', 'xml_pack_epilogue.h')])
prop('C16', 'The generator describes every class and member once, and nothing else',
 'For a C++ header (declarations, directives, comments and literals in any order and layout) the generator emits exactly one descriptor for each class and enum that is defined and nameable, under its full name, calling the action once for each base and data member in order, by its name and kind (static, const, array of given dimensions, public or not), and for nothing that is not a member. With type names requested, each name has every template parameter and each enum every enumerator; types are omitted exactly as requested. Any input ends without memory errors.',
 ['inputs'], 'all combinations, up to the stated length, of the stated forms of declarations, with arbitrary identifiers and literal, comment and blank bytes; all byte strings of the stated length after the stated beginnings',
 'Tests run the generator on a few fixed headers; a member lost after some other construct compiles and merely is not serialised.',
 ['classdesc.cc', 'tokeninput.h'], [('class body parsing', 'classdesc.cc: parse_class, register_class'), ('namespace-level parsing', 'classdesc.cc: main'), ('tokens', 'tokeninput.h')],
 note='The program is executed symbolically as compiled, with stdio replaced by an in-memory store and the option parsing included.')
prop('C17', 'Functors call the right function with the right arguments, in the right order',
 'A function, method, functor or std::function bound to an object and applied to an array of arguments, or called on a buffer of packed arguments, gets each argument exactly once, converted to its declared type, in the order given, whatever its arity, static or not, const or not, noexcept or not; its result is what is returned. Calling on a buffer consumes exactly what the arguments occupy; a truncated stream is reported and the function is not called with arguments made up. The type traits (arity, return type, argument types, constness, staticness) say what was declared. The variadic, the unrolled and freshly generated definitions agree.',
 ['inputs'], 'all values of all arguments, for every arity from 0 to 20 and every kind of callable, and every truncation of the argument stream',
 'Tests call a few functions of one or two arguments, mostly of the same value or type, so exchanged, skipped or repeated arguments pass.',
 ['function.h', 'functiondb.h', 'functiondb.sh'], [('argument unpacking', 'function.h: CallOnBuffer, PackFunctor'), ('apply', 'functiondb.h: apply'), ('bound methods', 'functiondb.h: bound_method'), ('generated definitions', 'functiondb.sh')])
prop('C18', 'Messages between processes arrive whole, in order and where they were sent',
 'What a process composes in an MPIbuf and sends arrives at the process addressed, under the tag given, whole, in the order it was composed, with source and tag known to the receiver; whether sent blocking or not, by send_recv, bcast, gather, scatter or exchange, one or several times with the same buffers, over any communicator, from and to any process including itself. Scattered parts go to the processes they were marked for, and gathered parts are read back in the order of the processes, whether or not a process has anything to send. Copies of buffers, arrays of requests, and methods called on slaves neither lose, repeat nor alter a message; no message is left over, nothing is used after it is completed, and no process waits for what is never sent.',
 ['schedules', 'inputs'], 'all orders, within the bounds, in which processes run and their messages arrive, all message contents and lengths within the stated bounds, for plain and machine independent buffers',
 'The tests need mpirun, use one size of world, and see whichever order of messages happens.',
 ['classdescMP.h'], [('point to point', 'classdescMP.h: MPIbuf::send, isend, get, send_recv'), ('collectives', 'classdescMP.h: MPIbuf::bcast, gather, scatter'), ('master and slaves', 'classdescMP.h: MPIslave, MPIslaves')])
prop('C19', 'Java class files are written as specified and read back whole',
 'A class file is written big endian, with two byte counts and lengths, strings of up to 65535 bytes, and constants in the form of their kind (long and double taking two places in the pool, the zeroth place not written), and reading it back into a new or used object yields an equal class file and consumes exactly its bytes. Two class files are equal exactly if all their parts are. Methods added refer to constants that hold their name and descriptor, and descriptors name the argument and return types in order. Truncated or hostile files, and constants of kinds not supported, are refused without memory errors and without taking memory beyond what the file warrants.',
 ['inputs'], 'all values of all fields and kinds of constants, and all byte strings, within the stated bounds',
 'The only test compares one class file of one JDK, and needs Java to be installed, so it does not run here.',
 ['javaClass.h', 'javaClass_serialisation.h', 'javaClassDescriptor.h'], [('words and counts', 'javaClass.h: u2, u4, u8, JavaClassVector'), ('constants', 'javaClass.h: cp_info'), ('serialisation', 'javaClass_serialisation.h'), ('descriptors', 'javaClassDescriptor.h')])
prop('C20', 'The text dump shows every member once, by name, with its value',
 'Dumping an object to a stream shows every described member once, in the order of declaration, bases first, each by its name with its value: basic types, strings, enums, nested objects, arrays of any rank and containers element by element, pointers by what they point to or as null. Member functions, static or not, neither stop nor garble the dump. The object is not changed and the stream keeps what was written before.',
 ['inputs'], 'all values of members, containers of up to the stated number of elements, each pointer null or not',
 'The tests dump one object and look at nothing but a fragment of the output.',
 ['dump_base.h', 'dump_epilogue.h'], [('basic types and classes', 'dump_base.h: dump'), ('containers and pointers', 'dump_base.h, dump_epilogue.h')])
prop('C21', 'The generated XML schema is valid and accepts what is written for the type',
 'For every described class the generated XML schema is well formed and valid: it names the given root element, defines each type referred to exactly once (element types of containers and arrays, bases, nested and recursive types, enums with all their symbols), and lists exactly the members of each class in order with the schema type that has their range, pointers being optional. Generation ends for recursive types. Every XML document written for an object of that type, pretty-printed or not, is accepted by the schema.',
 ['inputs'], 'all values of members within the stated bounds, all lengths of containers up to the stated bound, all combinations of null pointers, for every kind of member type',
 'Tests validate one document against one schema; a class or container not among them may well give a schema that is not valid, or rejects its own documents.',
 ['xsd_generate_base.h', 'xsd_generate_epilogue.h', 'xml_pack_base.h'], [('types and members', 'xsd_generate_base.h: xsd_generate_t'), ('containers and arrays', 'xsd_generate_base.h'), ('documents', 'xml_pack_base.h')])
prop('C22', 'JSON serialisation round-trips every value',
 'What json_pack writes for an object, json_unpack reads back, into a new or used object, as an equal one: every kind of member (full integer ranges, floating point, strings, characters, enums, bools, nested and template classes, bases, arrays of any rank, standard containers, pairs, tuples, smart pointers, maps by string, JSON values), directly through the value tree or by way of its text, at the root or under a path. The tree has one entry per member under its name, with bases under base_ and their name, arrays nested by rank. Null pointers stay null, and polymorphic objects keep their type. A member without an entry keeps its value, and is reported by an exception exactly if throw_on_error asks for it, wherever it is; entries that are not expected are ignored. JSON of another shape than expected never corrupts memory or leaks.',
 ['inputs'], 'all values of members within the stated bounds, every subset position of a missing member, every kind of JSON value in place of the expected one, in new and used targets',
 'Tests unpack what they packed, for a few values, into fresh objects; lost members, stale values in used targets and damaged documents are what they do not try (and the JSON tests are not even built here, as json5_parser is not part of the tree).',
 ['json_pack_base.h', 'json_pack_epilogue.h', 'polyAccessJsonPack.h', 'stringKeyMap_epilogue.h'], [('tree and containers', 'json_pack_base.h'), ('classes and tuples', 'json_pack_epilogue.h'), ('pointers', 'polyAccessJsonPack.h'), ('maps by string', 'stringKeyMap_epilogue.h')])
prop('C23', 'Names reach exactly the object or method they name through RESTProcess',
 'Every attribute, base attribute, element of a container or array, target of a pointer and method of a registered object can be reached by its path, at any depth. Giving no argument reads the value and changes nothing; giving one sets just what the path names, and the value returned is what is there then. Methods get their arguments in order and converted to their declared types; of overloads the one called is that whose parameters fit, and if none or several do the call is refused and nothing is called. What is returned stays valid for as long as it is held, results returned by value included. Elements can be read, replaced, inserted and erased by position or key; indices out of range, missing keys, unknown names and arguments of the wrong shape are refused without changing anything; constants cannot be changed; null pointers give null; pointers to polymorphic objects show the members of the class the object has. The meta commands (@list, @type, @size, @signature, @enum) say what is declared.',
 ['inputs'], 'all values of arguments within the stated bounds, every kind of attribute, container, pointer and overload set listed, every index and key in or out of range',
 'Tests run a script of fixed paths and compare a transcript; they use one value per path, do not look at what else changed, and are not built here, as json5_parser is not part of the tree.',
 ['RESTProcess_base.h', 'RESTProcess_epilogue.h', 'polyRESTProcess.h', 'multiArray.h'], [('registry and paths', 'RESTProcess_base.h: RESTProcess_t::process'), ('objects, sequences, maps, pointers', 'RESTProcess_base.h, RESTProcess_epilogue.h'), ('functions and overloads', 'RESTProcess_base.h: RESTProcessFunction, RESTProcessOverloadedFunction')])
# ---- further properties are added above this line ----
def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=list(p['observe']), hook_needed=None))) + '\n')
    checks = []
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        if p['id'] in NA: continue
        if not os.path.exists(os.path.join(ROOT, 'harness', p['id'] + '.cc')): NA[p['id']] = 'harness not built yet'; continue
        checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'], thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
            technique='symbolic execution of the LLVM IR of the real code + SMT (z3), counterexamples replayed natively', level='model_checking',
            level_note='Every path and every value within the bounds stated in the harness and evidence is decided by the solver on IR compiled from /repo at check time. ' + (p['note'] or 'Trusts: clang -O1 lowering, the engine, its libc/libstdc++-runtime models; guarded by replaying sampled paths natively.')))
    json.dump(dict(version=1, setup_cmd='make -s -C engine && python3 run.py --warm', checks=checks, not_applicable=[dict(property=k, reason=NA[k]) for k in sorted(NA)],
        notes='No hooks in /repo. See DESIGN.md.'), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties,', len(checks), 'checks,', len(NA), 'not applicable')
if __name__ == '__main__': main()
