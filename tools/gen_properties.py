import json
A2="src/indices/morton_index_2d.rs"; A3="src/indices/morton_index_3d.rs"; ST="src/indices/storage.rs"; MO="src/morton.rs"; NU="src/number.rs"; IM="src/indices/mod.rs"; HE="src/helper.rs"; D2="src/dimensions/dim_2d.rs"; D3="src/dimensions/dim_3d.rs"; DM="src/dimensions/mod.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs or [],"hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)
p("C01","An index is exactly what its history made it",
 "Whatever sequence of steps produced an index - built from cells, zeroed, copied, had cells overwritten, moved to a parent, ancestor, given depth, child, descendant or inverted form, with any of those steps refused or cut short on the way - its depth and the cell at every level are exactly those implied by the steps that completed, for 2D and 3D and for fixed, static and dynamic storage of every width. A navigation step beyond the root or beyond the capacity, a level outside the index, and a list of cells that is too long are refused (None, panic, error naming the real capacity) and nothing else ever is. A step on one index never changes any other index.",
 ["histories","fault_sequences"],"every finite history of creation, edit, navigation and copy steps over several live indices, with refusals and out-of-memory interruptions inside the history",
 "Tests run one or two steps on one fresh index each, mostly at full depth, 3D tests never use octants 4-7, and none continues after a refused or interrupted step or looks at a bystander.",
 [A2,A3,ST,MO,NU],[("cell to bit-range mapping of each storage","src/indices/storage.rs get_/set_cell_at_level_unchecked"),("ancestor/descendant re-packing","VariableDepthStorage impls in "+A2+" and "+A3),("byte-vector bit access",NU+" set_vec_u8_bits / get_bits_as_usize")],
 [("bits","packed cells","MortonIndex*.storage.bits"),("depth","number of valid levels","Static/DynamicStorage*.depth")],["MortonIndex::depth","MortonIndex::get_cell_at_level"])
p("C02","Exported coordinates and names survive a crash",
 "At any point of its history an index reports, for every axis ordering, the grid coordinates of the node its cells designate, and names (cell digits, 'r' plus digits, depth-x-y(-z)) that spell those cells and coordinates. When all that survives a crash is what had been exported and made durable, re-importing each surviving record yields, in every storage type with room for it, an index equal to the one that was exported and with the same cells; a storage type without room refuses, naming its real capacity. Coordinates wider than a machine word are out of scope; a dynamic import beyond half a machine word may be refused but never gives a wrong node.",
 ["histories","crash_points"],"every history that exports indices as coordinates or names to a log, every point at which a crash cuts the log, every later re-import",
 "Tests round-trip one fresh index at full depth, full depth minus one and depth one only; depths in between, names, half-written logs and indices reached through edits are never re-imported.",
 [A2,A3,D2,D3,NU,MO],[("bit interleaving on import","from_grid_index / from_grid_index_fast in "+A2+", "+A3),("cell walk on export","to_grid_index, to_string"),("axis orderings","QuadrantOrdering/OctantOrdering to_index, get_bit_shifts_for_xyz")],
 None,["MortonIndex::to_grid_index","MortonIndex::to_string","from_grid_index"])
p("C03","An interrupted or refused operation leaves no trace",
 "When an operation on an index is cut short - memory allocation fails at any allocation inside it, the caller-supplied bit storage panics at any access, or the operation itself refuses its argument - every index that existed before still has the depth and cells it had before (a cell write interrupted inside caller-supplied storage may affect only that one level). Simply repeating the operation afterwards gives the result it would have given had the interruption never happened.",
 ["fault_sequences","histories"],"every operation, every allocation or storage-access ordinal inside it at which the fault fires, every history before and after",
 "No test makes an allocation or a storage access fail; should_panic tests end at the panic and never look at the index again.",
 [A2,A3,ST,NU,MO],[("new values are built aside and moved into place; sources are only borrowed","ancestor, descendant, inverted, From/TryFrom impls"),("bounds check before the write","MortonIndex::set_cell_at_level")],
 None,["every public operation, before and after the fault"])
p("C04","Fixed and static indices never need the heap",
 "With the heap exhausted, so that every allocation fails, every operation on fixed and static indices that does not itself return or consume a heap-backed value (creation from cells or coordinates, reading and writing cells, iterating cells, navigation, inversion, comparison, hashing, conversion between fixed and static, reading coordinates) still completes and gives the same result as with plenty of memory. Converting a dynamic index into a fixed or static one likewise succeeds without further memory.",
 ["fault_sequences","histories"],"every such operation at every point of every history, with allocation failing from that point on",
 "Tests never run under a failing allocator, so a temporary Vec inside these operations would go unnoticed.",
 [A2,A3,ST,IM,MO],[("cells live inline in an unsigned integer","FixedDepthStorage*/StaticStorage*"),("README: dynamic number of levels without dynamic allocation","README.md")],
 None,["global allocator"])
p("C05","Identity depends on depth and cells, not on history",
 "Two indices of the same type compare equal if and only if they have the same depth and the same cells, no matter by which routes (cells, zeroing and overwriting, raw bits, coordinates, conversion from another storage, descending, ascending, inverting, copying, or retrying after a failed allocation) each came to be. Equal indices compare as Equal under the ordering and feed identical data to every hasher; unequal ones never compare as Equal.",
 ["histories"],"every pair of same-typed indices produced by any two histories; every hasher",
 "Tests compare indices built through one route each, at a few depths; zeroed, converted and raw-bit indices are never compared or hashed against others.",
 [A2,A3,NU],[("unused bits below the current depth are kept zero","StaticStorage ancestor/from_*"),("byte vector has exactly the bytes its depth needs","DynamicStorage constructors"),("Eq/Hash derived over bits and depth","Static/DynamicStorage")],
 [("waste bits","bits below the last level; must be canonical for derived Eq/Hash","storage.bits")],["PartialEq, Ord, Hash"])
p("C06","Collections of indices do not depend on arrival order",
 "Sorted and hashed collections (tree sets, hash sets, sorted vectors) of indices filled and drained by several clients in any arrival order, with duplicated deliveries and rebuilds after a crash, contain each node exactly once and iterate, when sorted, in depth-first pre-order: by the first differing cell, an ancestor directly before its subtree. Two replicas that received the same nodes in different orders, or keep them in different storage types, agree on membership and sequence; every lookup finds exactly what was inserted.",
 ["schedules","histories"],"every interleaving of client insert/remove/lookup streams, every hash seed, every duplication and rebuild",
 "The ordering tests sort one random batch and check a weaker condition on neighbours; no test puts indices in a set, mixes depths with equal prefixes deliberately or varies arrival order.",
 [A2,A3],[("prefix-aware bit comparison","Ord for StaticStorage2D/3D"),("cell-wise comparison","Ord for DynamicStorage2D/3D"),("integer comparison","derived Ord of FixedDepthStorage")],
 None,["Ord, Eq, Hash through std collections"])
p("C07","Migrating between storage types loses nothing",
 "An index may be moved between fixed, static and dynamic storage any number of times, between edits and navigation steps and with allocations failing on the way: every move keeps depth and every cell (a move into fixed storage appends zero cells up to the full depth), and the moved index behaves from then on like any other of its type. A move is refused exactly when the target cannot hold the depth, with an error naming the target's real capacity.",
 ["histories","fault_sequences"],"every walk over the conversion graph of every storage width, starting at every depth, with faults",
 "Conversion tests start from fresh indices at full depth, or one or half the levels less; a dynamic index that is much shorter than the fixed target is never converted.",
 [A2,A3,NU],[("From/TryFrom between storages",A2+", "+A3+" section Conversions"),("byte order handling",NU+" from_u8_slice, as_u8_slice")],
 None,["From/TryFrom, then depth and cells"])
p("C08","Concurrent callers never influence one another",
 "When several threads operate on their own indices and read shared ones at the same time, preempted at arbitrary points inside operations, every operation returns exactly what it returns when its thread runs alone. No result depends on which other indices were processed before or meanwhile, or on which thread an index is used from after being handed over.",
 ["schedules"],"every interleaving of caller threads at machine-instruction granularity, every handover of indices between threads",
 "All tests are single-threaded over fresh values; hidden shared state (a static scratch buffer, a cache) would pass them.",
 [A2,A3,ST,NU,MO,HE],[("no global, thread-local or interior-mutable state; shared access only reads","whole crate; types are Send + Sync")],
 None,["results of every public operation per thread"])
p("C09","Cell iterators are independent and complete",
 "However iterators over the cells of one or several indices are interleaved, abandoned midway, advanced by different callers, or interrupted by failing operations on the same index, each yields the index's cells from the first level to the last, each exactly once, then ends and stays ended. Skipping ahead, counting and taking the last element agree with stepping one by one, and size hints never exclude the true number of remaining cells.",
 ["schedules","fault_sequences"],"every interleaving of next/nth/count/last/size_hint/drop over several open iterators with other reads and faults in between",
 "Tests only collect one iterator at a time in one go.",
 [IM,A2,A3],[("position kept in the iterator, index only borrowed","CellIter in "+IM)],
 [("index","next level to yield","CellIter.index")],["cells()"])
p("C10","Writing indices to a failing sink yields a clean prefix",
 "Formatting a displayable list of indices into a writer writes '[', the names of the indices in the chosen naming separated by ', ', and ']'; this holds for Display and Debug alike and for lists of any length including none. If the writer fails at any point the failure is reported to the caller, nothing is written after it even if the writer would accept more, and what was written is a prefix of the full text; if memory runs out or the writer panics midway the text is likewise a prefix and formatting the same list again gives the full text.",
 ["fault_sequences"],"every write ordinal or byte at which the writer fails (once or permanently), every allocation that fails while formatting",
 "The helper has no tests at all; a formatter that swallows errors is invisible without a failing writer.",
 [HE,MO],[("error propagation with ?","Display for DisplayableMortonIndexSlice in "+HE)],
 None,["fmt::Write sink"])
p("C11","Memory is conserved, even across failures",
 "After any history of operations, including ones cut short by failed allocations or panics, dropping the indices returns every byte the library allocated, exactly once, and nothing outside an allocation is ever written. No observable result ever depends on the contents of unallocated, uninitialised or already freed memory.",
 ["fault_sequences","histories"],"every history and every failing allocation, under every content of fresh, neighbouring and freed memory",
 "Tests run on the normal allocator, which neither fails, nor checks bounds, nor varies the contents of fresh memory.",
 [NU,A2,A3],[("unsafe reads in the byte-vector bit access",NU+" set_vec_u8_bits"),("Vec-backed storage, no manual memory management","DynamicStorage2D/3D")],
 None,["global allocator"])
p("C12","A stalled caller never blocks the others",
 "A thread that stops at an arbitrary point inside any operation, for as long as it likes, never prevents other threads from completing any operation on any index, including the very index the stalled thread is reading. When it resumes, it completes with the result it would have had without the stall.",
 ["schedules"],"every instruction inside every operation at which a caller stalls, every program of the other callers, within their own number of steps",
 "No test runs two threads, let alone stops one in the middle of an operation.",
 [A2,A3,ST,NU,MO,HE],[("no locks or one-time initialisation anywhere","whole crate")],
 None,["completion of the other threads' programs"])
# pure laws
def n(*a): p(*a)
p("C13","Coordinates and nodes are in bijection",
 "For every storage type, axis ordering and depth it can hold, importing coordinates and reading them back is the identity on the grid of that depth, and distinct coordinates give distinct nodes.",
 ["inputs"],"all coordinates, depths, orderings, storage types","Tests sample random cells at two or three depths per type.",
 [A2,A3,D2,D3,NU],[("from_grid_index / to_grid_index",A2+", "+A3)],None,["from_grid_index, to_grid_index"])
p("C14","The ordering is a total order",
 "For all indices of one type the comparison is total, antisymmetric and transitive, and partial comparison always agrees with it.",
 ["inputs"],"all triples of indices","Tests only look at neighbours of one sorted random batch.",
 [A2,A3],[("Ord impls",A2+", "+A3)],None,["cmp, partial_cmp"])
p("C15","Bit-range access reads and writes exactly the range",
 "For every unsigned integer type and for byte vectors, reading a bit range returns exactly those bits and writing a range changes exactly those bits, for every range inside the value.",
 ["inputs"],"all values and in-bounds ranges","Tests use a handful of literal ranges on u8, u16 and one vector.",
 [NU],[("impl_bits!, Bits for Vec<u8>",NU)],None,["number::Bits"])
p("C16","Bit-spreading helpers equal the one-bit-at-a-time definition",
 "Each helper that spreads the bits of a number apart places bit i of the input at position 2i or 3i (plus its offset) and zeros elsewhere, for every input.",
 ["inputs"],"all inputs of each helper","Tests check patterns of trailing ones only.",
 [NU],[("add_zero(es)_before/behind_every_bit_*",NU)],None,["number::add_*"])
p("C17","Alignment rounds up to the next multiple",
 "Aligning a number to a non-zero boundary returns the smallest multiple of the boundary that is not smaller than it whenever that multiple is representable, and a zero boundary leaves it unchanged.",
 ["inputs"],"all numbers and boundaries of each width","There are no tests for it.",
 ["src/align.rs"],[("align_to","src/align.rs")],None,["align::Alignable"])
p("C18","Axis orderings are permutations",
 "Every cell ordering maps the cells of a node one-to-one onto the corners of the unit square or cube, consistently between its two forms, and cell numbers convert to cells and back without loss, refusing numbers out of range.",
 ["inputs"],"all orderings and cells (a few dozen cases)","A finite table the unit tests already enumerate nearly completely.",
 [D2,D3,DM],[("to_index, get_bit_shifts_for_xyz, TryFrom<usize>",D2+", "+D3)],None,["dimensions::*"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80; assert x['statement'].count('. ')<=3,(x['id'],x['statement'].count('. '))
