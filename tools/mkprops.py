import json
H='include/dsga.hxx'
P=[]
def p(id,title,st,over,q,why,mech,obs=None,state=None,files=(H,),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=list(files),**({'state':state} if state else {}),mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or ['public API calls','bytes of the caller\'s objects before, during and after the call'],hook_needed=hook)))
p('C01','Threads writing different components of one vector never disturb each other',
  "Any write made through a swizzle, index, iterator, view, view_vector, binding or component-wise operator touches only the components it names: no other component or neighbouring byte is written, not even with its old value. Therefore callers that each use only their own components of shared vectors, matrices and arrays get exactly the result of running alone, whatever the interleaving, pauses and deaths of the others.",
  ['schedules','fault_sequences','histories'],'for every set of callers with disjoint components of shared objects, every choice of operations and operands, and every interleaving at the granularity of single memory accesses, with callers stalled or killed anywhere',
  'The tests are single-threaded and compare final values; a write of an unchanged value to a component that is not named, or a read-modify-write of a neighbour, is invisible to them and loses another thread\'s update only under some interleavings.',
  [('swizzle assignment and set',H+':indexed_vector::set, operator ='),('view writes through pointers',H+':view_wrapper, indexed_view, basic_view'),('compound assignment',H+':apply_unitype_modify, apply_multitype_modify'),('iterators',H+':indexed_vector_iterator, indexed_view_iterator')])
p('C02','Concurrent reading of shared objects is safe and writes nothing shared',
  "Every operation that only reads its operands (arithmetic and comparison operators, free functions, const iteration, conversions, copies) performs no write to any memory it shares with other callers: not to operands, not to hidden caches or globals, and not to the floating-point environment. Any number of callers may therefore read the same objects at once, each getting the correct result.",
  ['schedules','histories','fault_sequences'],'for every set of reading operations by any number of callers over the same objects and every interleaving of their memory accesses, with stalls and kills',
  'The tests call each reader once from one thread; a hidden static cache, a lazily filled table, a temporarily modified operand or a changed rounding mode leaves every tested value right.',
  [('const operators and functions build a new result',H+':apply_unitype_make, apply_multitype_make'),('const iterators',H+':indexed_vector_const_iterator, indexed_view_const_iterator'),('reductions',H+':vector_base::sum, min, max, dot, length')])
p('C03','A writer killed mid-operation leaves every component old or new',
  "If a caller is killed at any instant inside a writing operation, every component the operation addresses afterwards holds either its old value or the value the operation would have stored, and every other component and byte is untouched. The survivors can continue to use, overwrite and re-read all objects with correct results: no operation leaves a stale lock, a rebound view or a scratch value behind.",
  ['crash_points','histories','schedules'],'for every writing operation, every memory access inside it as the crash point, several crashes in one history, and every continuation by surviving callers',
  'The tests never stop an operation halfway; an implementation that zeroes, scales or swaps a component in place before storing its final value passes all of them.',
  [('each component is computed, then stored once',H+':apply_unitype_modify, storage_wrapper::set, view_wrapper::set'),('swap',H+':storage_wrapper::swap, view_wrapper::swap')])
p('C04','All inputs of an operation are read before any aliased output is written',
  "When the operands of an assignment, set, compound assignment, swap, construction or output-parameter function overlap in storage (swizzles of the same vector, views and view_vectors over the target, permuted views, components of the target passed by reference), the result is the one obtained from copies of all inputs taken before the operation. This holds for every overlap, order and mixture of vectors, swizzles, views, view_vectors and matrix columns.",
  ['inputs','histories','configurations'],'for every pair or triple of operands with any overlap of their components, every writing operation and every history leading up to it, with other callers scheduled in between',
  'The tests exercise a few overlaps (v.xy = v.yx and similar); the space of operand kinds, component permutations and partial overlaps is far larger, and views can create overlaps that no type shows.',
  [('set takes all values by value before storing',H+':vector_base::set, storage_wrapper::set, view_wrapper::set'),('copies before modification',H+':view_vector operator =, apply_multitype_modify'),('modf',H+':modf')])
p('C05','Mixed histories over all storage kinds behave like plain arrays',
  "For any history of operations by callers that coordinate with locks, over vectors, swizzles, views, view_vectors, matrices and their iterators, every result returned and every component stored equals what a plain array of numbers would give (exactly for data movement, integer and single-rounding operations; within a small tolerance for compound floating-point functions). Pausing or killing callers between or inside operations does not change what the survivors observe beyond the killed caller's own last operation.",
  ['histories','schedules','inputs','fault_sequences'],'for every history of operations, all operand kinds, sizes and scalar types, and every order in which coordinated callers run, with kills and stalls',
  'Each test checks one function on a few operand kinds; the same generic code is instantiated for thousands of combinations of storage kind, swizzle, size and scalar type, and tests sample few of them and no histories.',
  [('one functional core for all operators and functions',H+':apply_make, apply_unitype_make, apply_multitype_make and their modify forms'),('logical-to-physical component order',H+':storage_wrapper, indexed_vector, indexed_view, view_wrapper'),('matrices',H+':basic_matrix and its operators')])
p('C06','Rebinding a view retargets it completely and writes nothing',
  "Resetting a view or copying or moving a view changes only which components the view itself refers to: it never writes the components of the old or the new target. From then on every read and write through the view, its swizzles, iterators and derived forms uses the new target only, whatever was done through it before and whichever other views, copies or callers refer to either target.",
  ['histories','schedules','crash_points'],'for every history of resets, copies, assignments and uses of views over shared storage, at every point of which callers may be interleaved or killed',
  'The tests rebind a handful of views once and then read them; they do not check that nothing is written by rebinding, nor the use of every swizzle and iterator of a view after rebinding in longer histories.',
  [('pointer block of the view',H+':view_wrapper::reset, indexed_view::reset, basic_view::reset'),('swizzles of a view share its pointers',H+':basic_view union members'),('assignment of views assigns values',H+':view_vector operator =, basic_view operator =')])
p('C07','User callbacks run exactly once per component, in order',
  "apply() and query() call the user's function once per component, in logical order, with the value each component has, and evaluate no component twice, also when the callback suspends, re-enters the library on the same or other objects, or when its caller is killed in the middle. The function object passed by the caller is the one that is called (its state accumulates), and results are stored or returned in the matching positions.",
  ['schedules','histories','crash_points'],'for every operand kind, size and callback, and every interleaving of other callers and re-entrant calls between the callback invocations',
  'The tests use pure stateless callbacks, for which skipped, repeated, reordered or copied invocations cannot be seen.',
  [('apply and query',H+':vector_base::apply, query'),('element-wise evaluation',H+':apply_unitype_make')],obs=['invocations of the user callback','returned values'])
p('C08','A throwing operation has no effect and reports the documented exception',
  "With assertions disabled, a bad run-time swizzle index, a bad matrix index or a null source is reported by the documented exception and by nothing else, before any operand has been modified; the caller can go on using every object. This also holds when the allocation of the exception itself fails and while other callers run between its steps: no process termination, no leak, no partial effect, and no exception from an operation whose arguments are good.",
  ['fault_sequences','histories','schedules'],'for every run-time index, operand kind and history, with allocation failure injected at any allocation and kills at any access',
  'The tests check that some bad indices throw; they do not check state after the throw, aliased outputs, failing allocations, nor noexcept functions on a throwing path (which terminate).',
  [('run-time swizzle',H+':swizzle'),('exception paths',H+':DSGA_ASSERT_OR_THROW users, basic_matrix::operator [], row'),('noexcept specifications',H+':swap')],obs=['exception type','bytes of all operands after the throw','outstanding allocations'])
p('C09','No operation allocates dynamic memory',
  "Constructing, copying, assigning, computing with, iterating, converting and destroying vectors, views, swizzles, view_vectors and matrices never allocates or frees dynamic memory. The library therefore works unchanged, with the same results, in a process whose allocator always fails.",
  ['fault_sequences','histories','inputs'],'for every operation except the ones documented to throw on bad arguments, in every history, with an allocator that fails every request',
  'An allocation changes no tested value; the tests run with an allocator that always succeeds.',
  [('fixed size storage',H+':storage_wrapper, view_wrapper'),('results on the stack',H+':apply_make, to_vector, to_array')],obs=['operator new/delete and malloc family calls'])
p('C10','Operations are re-entrant at every instant',
  "An operation interrupted at any instant by a handler that itself uses the library on other objects completes with the same result as without the interruption, and so does the handler. No operation keeps state outside its operands and its own stack.",
  ['schedules','crash_points','histories'],'for every operation interrupted at any memory access, by any handler operations, nested with other callers',
  'The tests never run one library call inside another at an arbitrary point; static or thread-local scratch storage passes them all.',
  [('no global or thread-local mutable state',H+' (whole file)')])
p('C11','Iterators, references and bindings stay live and visit each component once',
  "Iterators, reverse iterators, references from indexing, get<> and structured bindings, and data pointers keep denoting the same logical component while other operations modify the object: they read what was stored last and write to exactly that component. Walking any range in any mixture of legal iterator movements up to and including the end visits each logical component at its documented position, also for swizzles that permute components and for views.",
  ['histories','schedules','crash_points'],'for every iterator movement sequence, every handle taken in any history, and any operations of other callers between taking and using it',
  'The tests iterate whole ranges once on unchanging objects; long-lived handles, mixed movements and writes between steps are not covered.',
  [('swizzle iterators',H+':indexed_vector_const_iterator, indexed_vector_iterator, indexed_view_const_iterator, indexed_view_iterator'),('pointer iterators',H+':storage_wrapper::begin, view_wrapper::begin'),('tuple protocol',H+':get')])
p('C12','Misuse is stopped by an assertion before memory is touched',
  "With assertions enabled, indexing a vector, swizzle, view or matrix out of range (for any index type and value), dereferencing an iterator outside its range or moving it outside, and using a view with null components stop the caller with the library's assertion before the misuse reads or writes any memory. Correct uses, including first and last positions and harmless handling of null or end positions, are never stopped.",
  ['inputs','histories','schedules'],'for every misuse with any out-of-range index value or null component position, at any place in a history, and every correct use around it',
  'The tests cannot test aborting calls within one process, so none of the assertions that guard memory is ever triggered by them.',
  [('index assertions',H+':operator [] of storage_wrapper, view_wrapper, indexed_vector, indexed_view, basic_matrix'),('iterator assertions',H+':indexed_vector_const_iterator, indexed_view_const_iterator'),('null view assertions',H+':view_wrapper, indexed_view')],obs=['assertion calls','memory accesses after the misuse began'])
p('C13','Owning copies are isolated, views and view_vectors share their target',
  "Copying or converting anything to an owning vector, array or matrix gives an independent object: later writes on either side never show on the other. Copying a view, or making a view or view_vector from an object, shares the target: writes through either are seen by all, and assigning through a view or view_vector copies values into the target without changing what it refers to.",
  ['histories','schedules','crash_points'],'for every chain of copies, conversions and assignments between the storage kinds and all interleaved writes to source and copy',
  'The tests check values right after a copy, not sharing or isolation under later writes through other kinds of handles.',
  [('conversion to owning vectors',H+':indexed_vector and indexed_view conversion operators, to_vector, to_array, to_matrix'),('view sharing',H+':basic_view, view_vector constructors')])
p('C14','A result depends only on the values of the operands',
  "Executing an operation again with the same operand values gives bit-for-bit the same result, whatever was executed before, wherever the operands live in memory, whatever is in the memory around them and on the stack, and whichever callers ran in between. No operation consults uninitialised memory, padding, addresses, hidden state or the floating-point environment left by earlier calls.",
  ['histories','schedules','inputs','configurations'],'for every operation re-executed later in a history at other addresses, with different surrounding bytes and stack contents',
  'The tests compute each value once, at one address, in one process state; dependence on memory that happens to be zero or on an earlier call is not visible.',
  [('operands are the only inputs',H+' (whole file)'),('floating point approximations',H+':cxcm::fast_rsqrt, inversesqrt, sqrt')])
p('C15','Every operation finishes in a bounded number of steps, whatever others do',
  "Every operation completes within a small number of steps fixed by its type, for all operand values including infinities, NaN, denormals and extreme integers, and even while other callers keep changing the very same operands or stall or die inside their own operations. No operation waits for another caller and no iteration depends on operand values to terminate.",
  ['schedules','inputs','fault_sequences'],'for every operation on data that other callers change at any instant, all extreme operand values, and any stalled or dead callers',
  'The tests use a few ordinary values that do not change during the call; a loop that runs until two reads agree or until an approximation converges ends there.',
  [('fixed trip counts',H+':apply_make fold expressions, vector_base reductions'),('no locks',H+' (whole file)'),('range reduction and roots',H+':cxcm::constexpr_sqrt, fast_rsqrt, normalize, swizzle')],obs=['basic blocks executed by the call'])
# the STL converter
SX = 'examples/stl.cxx'
def sp(id, title, st, over, q, why, mech):
    p(id, title, st, over, q, why, mech, obs=['system calls of the converter', 'exit status', 'contents of source and destination afterwards'], state=[dict(name='source file', meaning='must survive unchanged', where=SX + ':stl_main'), dict(name='destination file', meaning='complete whenever success is reported', where=SX + ':stl_main')], files=(SX, H))
sp('S01','The STL converter reports success only for a complete, faithful file',
  "Whenever the binary-to-ASCII STL converter reports success, the destination is a complete ASCII STL file that holds every usable facet of the source in order, each coordinate and normal component written so that it reads back as exactly the same float. This holds however reads and writes are split, interrupted or refused, when the disk fills up, when opening or closing a file fails, and when another converter runs at the same time.",
  ['fault_sequences','inputs','schedules'],'for every consistent source file and every sequence of short, interrupted or failing system calls',
  'The converter has no tests; its error paths need a full disk, an I/O error or a file that shrinks while it is read.',
  [('conversion loop',SX+':convert_binary_stl_to_ascii, read_binary_facet_write_ascii_facet'),('reading numbers',SX+':read_binary_stl_float'),('exit status',SX+':stl_main')])
sp('S02','The STL converter never alters its source file',
  "Whatever the destination is called (the same name, another spelling of it, a hard or symbolic link to the source), whatever the user answers and whichever calls fail or at whichever call the process is killed, the bytes of the source file stay as they were.",
  ['inputs','fault_sequences','crash_points'],'for every pair of names, every state of the file system, every fault and every crash point',
  'The converter has no tests; aliasing of source and destination through links depends on the state of the file system.',
  [('same-file check',SX+':stl_main')])
sp('S03','The STL converter refuses inconsistent sources without touching the destination',
  "A source whose size and facet count do not agree (truncated, extended, text, wrong byte order, absurd count) is refused with a failure report and the destination is neither created nor altered, also when reading the source fails or is cut short.",
  ['inputs','fault_sequences'],'for every file content and every fault while it is examined',
  'The converter has no tests; malformed files combined with failing reads are outside any sample.',
  [('plausibility check',SX+':maybe_binary_stl')])
sp('S04','The STL converter replaces an existing file only after consent',
  "An existing destination is altered only after the user was asked and did not decline; after declining the destination keeps its bytes and the converter does not report success, under every fault and with other converters running.",
  ['inputs','fault_sequences','schedules'],'for every answer, every state of the destination and every fault',
  'The converter has no tests.',
  [('overwrite question',SX+':stl_main')])
sp('S05','A failed or killed STL conversion can simply be repeated',
  "After any conversion that failed or was killed at any system call, running the same command again without faults succeeds for every source with a usable facet and yields the complete, faithful destination, whatever the earlier attempt left behind.",
  ['crash_points','fault_sequences','histories'],'for every crash point and fault sequence of the first attempt',
  'The converter has no tests; crash recovery needs a crash at a chosen system call.',
  [('destination is truncated and rewritten',SX+':stl_main')])
# not applicable
def na(id,title,st,q,why,mech,files=(H,)):
    p(id,title,st,['inputs'],q,why,mech,files=files)
na('N01','Geometric and exponential functions are accurate to a stated error','Trigonometric, exponential, geometric and rounding functions return the mathematically specified value of their argument within the error of the platform\'s math library, for all finite arguments.','for every argument','A sample of arguments cannot settle an error bound over all of them.',[('cxcm',H+':dsga::cxcm')])
na('N02','Matrix algebra identities hold','inverse, transpose, determinant and products satisfy their algebraic identities within rounding for all well-conditioned matrices.','for every matrix','A few matrices are tested.',[('matrix functions',H+':inverse, determinant, transpose')])
na('N03','Type promotion and compile-time constraints follow the documentation','Which operand types an operation accepts and the type of its result are decided at compile time as documented, including the rejection of repeated components on the left-hand side.','for every combination of operand types','Tests instantiate some combinations.',[('concepts',H+':implicit_convertible_to, binary_op_return_types, unique_indexes')])
na('N04','Constant evaluation agrees with run time','Every function usable in constant expressions gives there the same value as at run time.','for every argument','Tests evaluate few constants.',[('is_constant_evaluated branches',H+':cxcm')])
na('N05','Vectors, swizzles and matrices are trivially copyable and standard layout','Storage classes are trivially copyable with standard layout and components in order without gaps, so that they can be copied as bytes and passed to graphics interfaces.','for every scalar type and size','static_asserts cover it at compile time for some types.',[('union layout',H+':basic_vector')])
na('N06','Bit casts and byte swaps are exact inverses','Bit reinterpretation and byte swapping functions are exact inverses of each other for every bit pattern.','for every bit pattern','A few values are tested.',[('bit functions',H+':floatBitsToInt, byteswap')])
na('N07','Formatting, hashing and tangent examples agree with the library','The example headers for output, hashing and random generation produce values consistent with the components of a vector.','for every vector','They have no tests of their own.',[('examples','examples/')],files=('examples/format_output.hxx','examples/hash.hxx','examples/ostream_output.hxx') )
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80,x['title']
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
