"""Per-property check specifications: harnesses, entry points, real sources, bounds."""
COMMON_ASSUMPTIONS = [
 'LLVM IR of the real sources is produced by clang 18 -O1 (vectorisation, unrolling off); iostream/locale formatting is stubbed (symbolic values print as "?")',
 'memory allocation never fails; out-of-line libstdc++ pieces (std::string, tree/list/hash helpers) are taken from the same headers instantiated in engine/rt.cc',
 'CountedRef.h-style access declarations are rewritten to using-declarations through a VFS overlay so that clang accepts them (no semantic change)',
 'uninitialised memory reads as 0xCD bytes; LLVM undef/poison reads as 0',
]
TB = ['TimBase/Debug', 'TimBase/Exception', 'TimBase/StringUtil', 'TimBase/Thread/Thread', 'TimBase/Thread/SmartLock']
DMI = TB + ['DMI/' + x for x in 'AID-DMI-Registry AtomicID BOIO BObj BlockSet Container CountedRefBase CountedRefTarget DMI DynamicTypeManager Exception HIID List NumArray NumArrayFuncs NumArrayFuncs2 NumArrayFuncs3 NumArrayFuncs4 NumArrayFuncs5 NumArrayFuncs6 NumArrayFuncs7 NumArrayFuncs8 Record Registry SmartBlock Timestamp TypeInfo Vec'.split()]
DMI_NOARR = [x for x in DMI if x not in ['DMI/NumArrayFuncs%d' % i for i in (2, 3, 4, 6)]]
OCT = DMI + ['OCTOPUSSY/' + x for x in 'AID-OCTOPUSSY-Registry Message MsgAddress Subscriptions OctopussyDebugContext'.split()]
DSP = OCT + ['OCTOPUSSY/' + x for x in 'Dispatcher WPInterface WorkProcess OctopussyConfig'.split()] + ['DMI/ConfigMgr']
VLS = DMI + ['MEQ/AID-Meq-Registry', 'MEQ/Axis', 'MEQ/Vells']
MEQ = DMI + ['MEQ/AID-Meq-Registry', 'MEQ/Axis', 'MEQ/Domain', 'MEQ/Cells', 'MEQ/RequestId']
MVS = MEQ + ['MEQ/Vells', 'MEQ/VellSet', 'MEQ/Result']
NOD = MVS + ['MEQ/' + x for x in 'Forest Function Node Node_init Node_commands NodeNursery SymdepMap MTPool Request Rider'.split()]
def E(name, *reach, **kw): return dict(name=name, reach=list(reach), **kw)
SPECS = {
 'D01': dict(groups=[dict(harness=['hiid'], sources=DMI_NOARR, entries=[E('hiid_pack', 'end', 'short'), E('hiid_text', 'end', opts=['--symfmt']), E('hiid_literal', 'end'), E('hiid_wild_text', 'end', opts=['--symfmt'])])],
   bounds="identifiers of 0-5 (thorough 8) elements with arbitrary 32-bit values; destination buffers 0, 4, 8 bytes too large or 1-3 bytes too small; text form of 1-3 (4) elements drawn from names, indices 0-30 (120), '?', '*', '#', '/' and ':'; literals of 1-3 (5) arbitrary non-separator characters; wire bytes of 1-3 elements including malformed literal markers",
   outside='longer identifiers; names not in the built-in registry; capital letters inside literals'),
 'D02': dict(groups=[dict(harness=['hiid'], sources=DMI_NOARR, entries=[E('hiid_order', 'lt', 'gt', 'eq'), E('hiid_match', 'match', 'nomatch'), E('hiid_subset', 'sub', 'nosub')])],
   bounds='pairs of identifiers of 0-3 (4) arbitrary 32-bit elements for the order; patterns of 0-3 (4) elements from {*, ?, slash-free values 0..3} for matching and subsets, with witnesses of up to 3 more elements',
   outside='longer identifiers'),
 'D03': dict(groups=[dict(harness=['hiid'], sources=DMI_NOARR, entries=[E('hiid_edit', 'push', 'pop', 'cat', 'subneg', 'lead', 'trail'), E('hiid_slash', 'slash', 'lead2')])],
   bounds='identifiers of 0-4 (5) arbitrary 32-bit elements, counts 0-6, positions from either end, operands of 0-3 elements',
   outside='longer identifiers'),
 'D04': dict(groups=[dict(harness=['cref'], sources=DMI_NOARR, entries=[E('cref_history2', 'end', 'write', 'refused'), E('cref_history3', 'end', 'write', 'refused'), E('cref_threads', 'end', opts=['--memsched', '--preempt', '2'], opts_t=['--memsched', '--preempt', '3'], threads=True)])],
   bounds='every history of 2 (thorough 3) operations out of 11 kinds over 2 references and 1 (2) over 3 references, after 12 different starting configurations, with symbolic contents; two threads running one of 4 operation sequences each over a shared object, every interleaving of shared-memory accesses and lock operations with at most 2 (3) preemptions',
   outside='longer histories, more references or threads, weak memory reordering; whether a lock survives a private copy taken through a locked reference is not specified'),
 'D11': dict(groups=[dict(harness=['block'], sources=DMI_NOARR, entries=[E('block_resize', 'end', 'grow'), E('blockset_history', 'end', 'pop', 'move', 'write'), E('blockset_cursor', 'end', 'flush')])],
   bounds='blocks of 0-4 (8) symbolic bytes, resized to 0-5 (8); two block queues, histories of 3 (4) operations out of 9 kinds with blocks of 0-2 symbolic bytes; cursor over 0-3 (4) blocks of 0-3 bytes in chunks of 1-3',
   outside='shared-memory (SysV) blocks; larger blocks and longer histories'),
 'D12': dict(groups=[dict(harness=['tstamp'], sources=DMI_NOARR, entries=[E('ts_arith', 'end'), E('ts_order', 'lt', 'gt', 'eq'), E('ts_normalize', 'end'), E('ts_fromsec', 'end'), E('ts_text', 'end'), E('ts_tiny', 'end'), E('ts_scale', 'end')])],
   bounds='seconds in +-2^40 and any microseconds 0-999999 for arithmetic and order; multiples of 1/64 s up to 2^14 (2^30) and every double in (-1,1) for conversion from floating point; 20 instants for the text form; 40 instants scaled by 11 factors',
   outside='wall-clock reading (now()); text forms of other instants'),
 'D05': dict(groups=[dict(harness=['record'], sources=DMI_NOARR, entries=[E('record_history', 'end', 'refused', 'copy'), E('hook_chain', 'end')])],
   bounds='histories of 3 (thorough 4) operations (add, replace, remove, put/get/remove through hooks, copies, protection) on two records of up to 3 fields with symbolic integer contents; subscript chains of up to 3 levels through records and vectors', outside='longer histories and deeper nesting'),
 'D06': dict(groups=[dict(harness=['serial'], sources=DMI, entries=[E('serial_flat', 'end', 'scribble', 'clone'), E('serial_nested', 'end', 'scribble', 'clone')])],
   bounds='objects: records of 0-2 fields, lists of 0-2 items, vectors and arrays (int, double) of 1-3 elements and rank up to 2, nested two levels, with symbolic 32/64-bit contents; one overwrite of the sent or received side after the transfer', outside='larger and deeper objects; string arrays (not supported by the build)'),
 'D07': dict(groups=[dict(harness=['serial'], sources=DMI, entries=[E('serial_damaged', 'end', 'accepted', 'walked', 'refused'), E('serial_damaged_nested', 'end', 'accepted', 'walked', 'refused')])],
   bounds='the wire blocks of 7 (flat) and 5 (nested) representative objects; any one 32-bit word of any block replaced by an arbitrary value (identifiers, types: by representative wrong values), any block cut short at any byte or missing', outside='two or more independent corruptions; larger objects'),
 'D08': dict(groups=[dict(harness=['seq'], sources=DMI, entries=[E('vec_history', 'end', 'refused', 'assign', 'serial'), E('list_history', 'end', 'refused', 'copy')])],
   bounds='vectors of int, string and records: histories of 3 (4) operations out of 8 kinds; lists: histories of 2 (3) operations out of 10 kinds over 0-2 initial items, positions -4..3, symbolic contents', outside='longer histories'),
 'D13': dict(groups=[dict(harness=['seq'], sources=DMI, entries=[E('pack_roundtrip', 'end'), E('pack_damaged', 'end', 'unpacked', 'refused')])],
   bounds='vectors of int, string and identifiers, maps of int to double and string, arrays of int and string with 0-2 (3) entries of symbolic content; buffers exact, 3 bytes too large, 1 byte too small; damage: any aligned 64-bit word replaced by any value, or truncation at any byte', outside='more entries; several independent corruptions'),
 'D09': dict(groups=[dict(harness=['numarray'], sources=DMI, entries=[E('na_slice', 'end', 'slice', 'refused'), E('na_partial', 'end'), E('na_cow', 'end'), E('na_ref', 'end')])],
   bounds='arrays of rank 1-2 with 1-3 (thorough 4) elements per axis and symbolic contents; indices and ranges with every start, end and step around the valid range, open ends and missing axes; histories of 2 (3) operations out of 5 on two arrays sharing data; references to a row, column or tail, writable or not', outside='larger arrays, higher ranks, element types other than int and double'),
 'D10': dict(groups=[dict(harness=['convert'], sources=DMI, entries=[E('convert_numeric', 'end'), E('convert_refused', 'end')])],
   bounds='source types bool, char, short, int, long, float, double, fcomplex, dcomplex read and assigned four ways as 9 (thorough 12) target types, with symbolic source values; every non-numeric or array-valued target refused', outside='values that the target type cannot represent; long double'),
 'O01': dict(groups=[dict(harness=['octo'], sources=OCT, entries=[E('msg_roundtrip', 'end', 'scribble'), E('msg_copy', 'end'), E('msg_damaged', 'end', 'accepted', 'refused', 'walked')])],
   bounds='messages with identifiers of 0-3 elements, symbolic addresses, priority, state and flags, an optional payload (block or small record), serialised and copied in every form, one overwrite after the transfer; damage: any one 32-bit word of any block (addresses and types by representative wrong values), any truncation, any missing block', outside='larger payloads and longer identifiers; several independent corruptions'),
 'O02': dict(groups=[dict(harness=['octo'], sources=OCT, entries=[E('subs_history', 'end', 'match', 'nomatch'), E('subs_damaged', 'end', 'accepted', 'refused')])],
   bounds='histories of 2 (thorough 3) add/remove operations over masks of up to 2 elements including wildcards, every scope; messages from the same, another process or another host; packed form intact or with any one word altered or cut short', outside='longer histories and masks'),
 'O03': dict(groups=[dict(harness=['disp'], sources=DSP, entries=[E('route_send', 'end', 'sent', 'none', 'published'), E('route_publish', 'end', 'sent', 'none', 'published')])],
   bounds='4 attached processes (two of one class, one acting as forwarder) on one dispatcher, every address built from 4 classes, instances 0-2 or any, 4 process and 4 host forms; local and foreign senders, every subscription scope and publishing scope, symbolic identifier and body; one recipient or the sender writing to the message afterwards', outside='more processes; the socket gateway itself; processes attached while messages are in flight'),
 'O04': dict(groups=[dict(harness=['disp'], sources=DSP, entries=[E('queue_order', 'end', 'held', 'woken'), E('queue_ops', 'end', 'held', 'woken'), E('queue_failure', 'end', 'detached'), E('queue_starve', 'end')])],
   bounds='2 processes; queues of up to 4 (thorough 5) messages with arbitrary priorities 0-4095; up to 2 (3) operations (send, remove, search, poll, hold, requeue) from inside a handler; failure at any of 3 messages; priority difference up to 6 for starvation', outside='separate worker threads (single-threaded polling only); longer histories'),
 'O05': dict(groups=[dict(harness=['disp'], sources=DSP, entries=[E('ev_timeouts', 'end', 'served', 'fired', 'removed'), E('ev_inputs', 'end', 'served', 'seen', 'removed', 'cancelled'), E('ev_signals', 'end', 'served', 'raised', 'removed')])],
   bounds='the real event loop with up to 3 timeouts, 3 inputs or 4 signals over 2 processes, 2 (thorough 3) wake-ups; arbitrary clock advance up to 3 s (us resolution), periods up to 2 s, every readiness pattern of the descriptors; additions, removals and cancellations while the loop waits', outside='longer histories; kernel behaviour (select, sigaction and the clock are modelled in the harness); true concurrency between the event thread and the processes'),
 'M01': dict(groups=[dict(harness=['cells'], sources=MEQ, entries=[E('rqid_masks', 'end', 'same', 'differ')])], bounds='pairs of request ids of 0-3 (thorough 5) arbitrary 32-bit indices, every mask of 5 bits for comparison, every mask of 4 (5) bits for increment and assignment',
   outside='longer ids; negative masks'),
 'M02': dict(groups=[dict(harness=['cells'], sources=MEQ, entries=[E('domain_ops', 'end', 'equal', 'differ', 'superset'), E('domain_refuse', 'accepted', 'refused')])], bounds='domains with up to 2 (thorough 3) axes whose limits are any multiples of 1/8 within +-125 (+-2^17), second and further axes from a few fixed intervals; records with 0-3 symbolic limits on a valid or invalid axis, of the right or a wrong type',
   outside='limits that are not multiples of 1/8'),
 'M03': dict(groups=[dict(harness=['cells'], sources=MEQ, entries=[E('cells_grid', 'end'), E('cells_copy', 'end'), E('cells_compare', 'end', 'equal', 'resolution', 'domain'), E('cells_superset', 'end', 'clash', 'merged'), E('cells_resample', 'end', 'refused', 'noop', 'resampled')])], bounds='grids with 1 (thorough 2) main axes of up to 4 (5) cells and further axes of 1 cell, any centre that is a multiple of 1/8 within +-2^17, any regular step up to 1920 and irregular spacings and cell sizes from {1,2} x a unit; resampling of up to 3 (6) cells by every whole factor up to 3 (6)',
   outside='more cells; combinations of more than two irregular axes; integration by a factor that does not divide the number of cells (drops cells, documented in the source)'),
 'M04': dict(groups=[dict(harness=['vells'], sources=VLS, entries=[E('vells_arith', 'end', 'refused'), E('vells_unary', 'end', 'refused'), E('vells_binary', 'end', 'refused'), E('vells_copy', 'end')])], bounds='real and complex arrays of rank 1-2 (thorough 3) with 1-2 (one operand up to 3) points per axis, values any multiple of 1/8 within +-2^17 (divisors: distinct values whose squared modulus is a power of two); operators + - * / in place, out of place and on shared copies; 25 unary and 7 binary functions (transcendental ones as uninterpreted functions); copies by wire, clone, reference and assignment followed by one write',
   outside='complex arguments of transcendental functions; values that are not multiples of 1/8; larger arrays'),
 'M05': dict(groups=[dict(harness=['vells'], sources=VLS, entries=[E('vflags_ops', 'end', 'refused', 'mask', 'type'), E('vflags_merge', 'end'), E('vflags_values', 'end', 'where', 'refused'), E('vells_minmax', 'end')])], bounds='flag arrays of rank 1-2 (3) with 1-2 (one operand up to 3) points per axis and arbitrary 32-bit flags and masks; operators | & ^ ~ in place, out of place, on shared copies, with scalar masks and wrong types; merging with any mask into absent, owned or shared flags; element-wise extremes of flagged operands',
   outside='larger arrays'),
 'M06': dict(groups=[dict(harness=['vells'], sources=VLS, entries=[E('vells_reduce', 'end', 'refused', 'some', 'none')])], bounds='real and complex arrays of rank 1-2 with 1-2 points per axis, flags of any compatible shape with arbitrary 2-bit values, any 3-bit mask, full shapes with up to one additional axis of 2 points; values multiples of 1/8 within +-128 (products: within +-3/8)',
   outside='larger arrays; extremes when every point is flagged (unspecified)'),
 'M07': dict(groups=[dict(harness=['vellset'], sources=MVS, entries=[E('vset_history', 'end', 'refused', 'fail', 'flagged'), E('vset_copy', 'end', 'copied', 'refused', 'fail', 'flagged')])], bounds='sequences of 2 (thorough 3) out of 12 operations from 4 starting configurations (empty, main value, 1 or 2 solvable ids with all perturbed values), 1-2 sets of perturbations, shapes of rank 1-2 with 1-2 points per axis (4 shapes, thorough 5), arbitrary ids, values multiples of 1/8, up to 3 fails; copies over 6 routes after one operation and followed by one operation on either side',
   outside='values carrying flags of their own when set; changing the number of perturbation sets to the same non-zero number (unspecified); sets with solvable ids but no main value when copied'),
 'M08': dict(groups=[dict(harness=['vellset'], sources=MVS, entries=[E('result_history', 'end', 'refused', 'variable'), E('result_copy', 'end', 'copied', 'refused', 'variable')])], bounds='0-4 value sets in 9 configurations of dimensions (rank 0-3), sequences of 2 (thorough 3) out of 5 operations, scalar, variable or failed value sets, indices -1..3 per axis, 6 copying routes followed by one operation on either side',
   outside='larger tensors; results whose varying values have no grid when copied'),
 'M09': dict(groups=[dict(harness=['node'], sources=NOD, entries=[E('func_values', 'end', 'perturbed', 'uneven', 'failed', 'missing'), E('func_flags', 'end', 'flagged', 'failed', 'missing'), E('func_planes', 'end', 'failed', 'missing')])],
   bounds='a weighted sum of 2 (thorough 3) children; each has a value, missing data or a failure; every subset of up to 2 of 3 symbolic solvable ids, 1 or 2 sets of perturbations per child, exact symbolic values; flags and masks of 2 children of 1 or 2 points, all 32 bits symbolic; 2 planes, each child scalar or tensor; missing data allowed or not',
   outside='functions other than a sum (each node class has its own); time and frequency grids; integrated children; flags of a scalar null value'),
 'M10': dict(groups=[dict(harness=['node'], sources=NOD, entries=[E('cache_requests', 'end', 'cached', 'partly'), E('cache_states', 'end', 'cached', 'partly')])], 
   bounds='forests of 4 nodes (a node with two children, one of which it shares with its other child); 3 requests that each differ from the one before in one (thorough: up to two) of type, iteration, state, domain, or have no id or the same id; next-request hints right, wrong or absent; the policies never, minimal, smart and always, for all nodes or different for each; leaf dependency masks symbolic over 1-2 (2-3) parts, leaf values exact and symbolic; one state change of either leaf per request',
   outside='longer sequences; several requests at once (threads); parameter updates and discovery requests'),
 'M12': dict(groups=[dict(harness=['node'], sources=NOD, entries=[E('rider_commands', 'end', 'commanded', 'bad')])], 
   bounds='a forest of 3 nodes, one of them in an extra group or none; for each of the groups all and that one: commands for all, 4 lists of 2 entries by name, index, several names or anyone, and by node index (including one of no node); symbolic 16-bit arguments; a malformed command; the same request twice',
   outside='commands other than setting state'),
 'M13': dict(groups=[dict(harness=['node'], sources=NOD, entries=[E('poll_children', 'end', 'refused', 'abandoned', 'failed', 'missing', 'result')])], 
   bounds='3 children (or 2 and a gap) and a stepchild; every combination of value, missing data and failure; the three policies for failures and for missing data; 6 poll orders, some of which name unknown or duplicate children; symbolic dependency masks',
   outside='polling by several threads'),
 'M15': dict(groups=[dict(harness=['request'], sources=NOD, entries=[E('request_history', 'end', 'command'), E('request_copy', 'end', 'copied')])], 
   bounds='sequences of 2 (thorough 3) operations on 3 kinds of fresh request: ids, type, grid, and commands for 2 groups in 3 places with all creation flags, clearing, copying; 6 ways of copying followed by a change of either side or the end of the original',
   outside='other fields of the record'),
 'M16': dict(groups=[dict(harness=['request'], sources=NOD, entries=[E('dep_masks', 'end', 'active'), E('forest_ids', 'end', 'changed')])], 
   bounds='sequences of 3 (thorough 4) operations on dependency maps of 4 names with symbolic masks; sequences of 3 (4) new request ids from ids of 0-3 parts',
   outside='masks shared by several dependencies of a forest'),
 'M11': dict(groups=[dict(harness=['node'], sources=NOD, entries=[E('forest_registry', 'end', 'refused', 'removed', 'list', 'lookup')])], bounds='sequences of 2 (thorough 3) operations (create with a given or automatic index 1-3 (4), one of 2 (3) names or none and a known, non-node or unknown class; remove; clear; list) on 5 starting forests; one lookup or removal at an arbitrary 32-bit index after a shorter sequence',
   outside='larger forests; which index an automatically numbered node gets (any free one)'),
}
