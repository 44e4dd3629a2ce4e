#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}), **({'observe_at': observe} if observe else {})), _note=note, _na=na))

prop('D01', 'Hierarchical identifiers survive wire and text form',
 'A hierarchical identifier written to its wire form and read back is the same identifier, and the writer uses exactly the announced number of bytes and refuses a buffer that is too small. The text form of an identifier made of registered names, indices, wildcards, separators and quoted literal strings parses back to the same identifier whatever the case of the letters. Bytes off the wire that do not form a well-formed identifier can be printed without reading outside it.',
 ['inputs'], 'every sequence of elements up to the length bound, every 32-bit element value, every literal string, every buffer size around the exact one',
 'Identifiers are parameterised by element values, lengths and buffer sizes; the existing tests only use a few constant names.',
 ['DMI/src/HIID.h', 'DMI/src/HIID.cc', 'DMI/src/AtomicID.cc', 'DMI/src/AtomicID.h'],
 [('pack/unpack', 'HIID::pack, HIID::unpack'), ('text', 'HIID::toString, HIID::addString, AtomicID::toString, AtomicID::findName'), ('literals', 'HIID::makeLiteral')])
prop('D02', 'Identifier ordering, equality and wildcard matching are lawful',
 'Identifiers are totally ordered lexicographically by their elements and equality is element-wise, so they can be used as map keys. Pattern matching treats "?" as any one element and "*" as any remainder, and is symmetric; one pattern is a subset of another exactly when every identifier that matches the first also matches the second.',
 ['inputs'], 'every pair (and witness) of identifiers up to the length bound, every element value',
 'The relations quantify over pairs and triples of identifiers with wildcards anywhere; message routing tests use a handful of fixed subscriptions.',
 ['DMI/src/HIID.h', 'DMI/src/HIID.cc', 'DMI/src/AtomicID.h'],
 [('order', 'HIID::operator<, HIID::operator=='), ('matching', 'HIID::matches, HIID::subsetOf, HIID::prefixedBy')])
prop('D03', 'Editing an identifier changes exactly the requested part',
 'Concatenation, adding or removing elements at either end, taking a sub-identifier (with positions counted from either end), and splitting at a slash each produce exactly the elements asked for, in order, and leave every other element unchanged.',
 ['inputs'], 'every identifier up to the length bound, every element value, every position and count',
 'Off-by-one and byte-count errors only show for particular lengths, positions and element values.',
 ['DMI/src/HIID.h', 'DMI/src/HIID.cc'],
 [('front/back edits', 'HIID::push_front, HIID::pop_front, HIID::popLeadIndex, HIID::popTrailIndex'), ('sub-ids', 'HIID::subId, HIID::splitAtSlash, HIID::findFirstSlash'), ('concatenation', 'HIID::add')])

prop('D04', 'Counted references isolate copies and own their objects exactly',
 'However references to a shared object are copied, transferred, privatised, locked, written through and destroyed, a write through one copy-on-write reference is never visible through another, references explicitly declared shared see the writes made through one another, an object lives exactly as long as some reference (or an external owner) owns it, and operations on a locked or empty reference are refused without effect. The same holds when two threads use their own references to a common object at the same time.',
 ['inputs', 'histories', 'schedules'], 'every history of operations up to the bound, every interleaving of two threads with a bounded number of preemptions, symbolic object contents',
 'Isolation and destruction depend on the order of operations over several references and on thread timing; tests run a few fixed sequences on one thread.',
 ['DMI/src/CountedRefBase.cc', 'DMI/src/CountedRefBase.h', 'DMI/src/CountedRefTarget.cc', 'DMI/src/CountedRefTarget.h', 'DMI/src/CountedRef.h'],
 [('copy/transfer', 'CountedRefBase::copy, xfer, attach, detach'), ('copy on write', 'CountedRefBase::privatize, CountedRef::dewr'), ('destruction', 'CountedRefBase::detach, CountedRefTarget destructor')])
prop('D11', 'Data blocks and block queues keep their bytes, order and counts',
 'A data block holds exactly the bytes put into it; copies are independent of the original, resizing keeps the common part (clearing the rest on request), and memory is released exactly once. A queue of blocks behaves as a first-in first-out queue under any sequence of pushes, pops, moves and copies between queues, and its byte cursor delivers all bytes in order and discards exactly the blocks consumed.',
 ['inputs', 'histories'], 'every block size and content up to the bound, every history of queue operations up to the bound',
 'Queue histories and block boundaries multiply quickly; tests push and pop a few fixed blocks.',
 ['DMI/src/SmartBlock.cc', 'DMI/src/SmartBlock.h', 'DMI/src/BlockSet.cc', 'DMI/src/BlockSet.h'],
 [('block memory', 'SmartBlock::init, resize, destroy, clone'), ('queue', 'BlockSet::push, pop, pushFront, popMove, pushCopy, copyAll'), ('cursor', 'BlockSet::initCursor, getCursorData, flushToCursor')])
prop('D12', 'Timestamps are exact, normalised and totally ordered',
 'Time stamps behave as exact signed microsecond counts: sums and differences are exact and normalised, subtraction undoes addition, comparisons agree with the sign of the difference, scaling by simple factors is exact, conversion from floating-point seconds is normalised and rounds down, and the text form in each unit prints the instant in that unit.',
 ['inputs'], 'every pair of instants within the bound, every double near zero',
 'Carry and sign errors show only for particular microsecond values and negative instants; there are no tests of timestamps.',
 ['DMI/src/Timestamp.h', 'DMI/src/Timestamp.cc'],
 [('arithmetic', 'Timestamp::operator+=, operator-=, operator*=, normalize'), ('order', 'Timestamp::operator<, operator=='), ('conversion', 'Timestamp(double), Timestamp::toString')])

prop('D05', 'A record is a faithful map from identifiers to objects',
 'Whatever sequence of adds, replacements, removals, assignments through subscripts and copies is applied to a record, each field holds exactly the object last put there, a removed field hands out its object, and a copy is independent of its original unless sharing was asked for. A request that cannot be honoured (adding an existing field, removing or reading a missing one, changing a protected field or a read-only record) is refused and leaves the record unchanged. A chain of subscripts through nested containers reads and writes exactly the addressed element.',
 ['inputs', 'histories'], 'every history of record operations up to the bound, symbolic contents, every subscript chain up to the bound',
 'Copy-on-write sharing between records, protection and partial failure only show up in particular sequences of operations.',
 ['DMI/src/Record.cc', 'DMI/src/Record.h', 'DMI/src/Container.cc', 'DMI/src/Container.h', 'DMI/src/NC-Hooks.h', 'DMI/src/NC-ConstHooks.h'],
 [('fields', 'Record::addField, Record::removeField, Record::Field'), ('subscripts', 'Container::ConstHook, Container::Hook, Record::get, Record::insert, Record::remove'), ('copies', 'Record::cloneOther')])
prop('D06', 'Serialised objects unpack to equal, independent objects',
 'Any object (record, list, vector, numeric array, nested in one another) converted to a set of blocks and reconstructed is equal to the original in type, structure and content, uses up exactly the blocks announced for it, and leaves whatever follows in the set untouched. Neither later writes to the original nor writes to the reconstructed object change the other.',
 ['inputs'], 'every object shape up to the bound, symbolic contents',
 'Contents and shapes are unbounded inputs, and sharing of blocks between sender and receiver only shows when one of them writes afterwards.',
 ['DMI/src/Record.cc', 'DMI/src/List.cc', 'DMI/src/Vec.cc', 'DMI/src/NumArray.cc', 'DMI/src/DynamicTypeManager.cc', 'DMI/src/BObj.h'],
 [('pack', 'toBlock of Record, List, Vec, NumArray'), ('unpack', 'DynamicTypeManager::construct, fromBlock of Record, List, Vec, NumArray')])
prop('D07', 'Damaged block sets are refused and never corrupt memory',
 'Whatever single word of a serialised object is altered on the way, and wherever a block is cut short or dropped, reconstructing it either throws an exception or yields an object that can be walked, printed and destroyed safely. It never reads or writes outside its blocks, leaks, or allocates by an unchecked count.',
 ['inputs', 'fault_sequences'], 'every value of any one word of any block, every truncation point, every missing block',
 'The space of damaged inputs is the full range of every header word; tests only unpack what they packed.',
 ['DMI/src/DynamicTypeManager.cc', 'DMI/src/Record.cc', 'DMI/src/List.cc', 'DMI/src/Vec.cc', 'DMI/src/NumArray.cc', 'DMI/src/BlockSet.cc', 'DMI/src/BObj.h'],
 [('header checks', 'BObj::checkHeader, fromBlock of Record, List, Vec, NumArray'), ('block queue', 'BlockSet::pop, BlockSet::popMove')])
prop('D08', 'Vectors and lists behave as sequences of their elements',
 'A vector holds the elements last assigned at each position, grows by one when the next position is assigned, keeps its common part (new elements empty or zero) when resized, and stays so across assignment, copying and serialisation. A list inserts, replaces and removes at the position counted from either end, keeps the order of all other items, and appending, also of itself, adds exactly the other items. Positions outside the sequence are refused without effect.',
 ['inputs', 'histories'], 'every history of operations up to the bound, every position around the valid range, symbolic contents',
 'Errors sit at boundary positions (negative, empty, one past the end) and in combinations such as resize followed by serialisation.',
 ['DMI/src/Vec.cc', 'DMI/src/Vec.h', 'DMI/src/List.cc', 'DMI/src/List.h'],
 [('vector', 'Vec::init, resize, put, insert, remove, get, cloneOther'), ('list', 'List::put, get, remove, append, applyIndex, applyIndexConst')])
prop('D13', 'Packed sequences, maps and arrays unpack unchanged, or are refused',
 'A sequence, map or array written by the generic packers takes exactly the announced number of bytes, is refused (without touching memory outside it) when the buffer is too small, and unpacks to equal contents. Bytes altered in any one place or cut short are either refused or unpack to some well-formed value, without reading outside the buffer.',
 ['inputs', 'fault_sequences'], 'every content up to the size bound, every buffer size around the exact one, every value of any one word, every truncation',
 'Sizes stored in the data drive all offsets, so every 64-bit value of every header word matters.',
 ['DMI/src/Packer.h'],
 [('sequences', 'SeqPacker'), ('maps', 'MapPacker'), ('arrays', 'ArrayPacker'), ('strings', 'Packer<string>')])

prop('D09', 'Array slices address exactly the selected elements',
 'Selecting part of a numeric array by indices and ranges yields exactly the elements the selection names, in order, with the shape it implies; reading or writing through the slice reaches those elements and no others, and a selection outside the array is refused. A copy, a serialised form or a private version taken through a slice holds the slice only, and an array that shares its data with another is never changed by a write to the other.',
 ['inputs', 'histories'], 'every index, range and step around the valid range for every small shape, symbolic contents, every listed order of operations',
 'Index arithmetic over shapes, strides and offsets goes wrong only for particular ranges, steps and combinations with copying.',
 ['DMI/src/NumArray.cc', 'DMI/src/NumArray.h', 'DMI/src/NumArrayFuncs.h'],
 [('slicing', 'NumArray::parseHIID, NumArray::get, NumArray::init'), ('copies', 'NumArray::cloneOther, NumArray::makeWritable, NumArray::toBlock')])
prop('D10', 'Scalar fields read back as the same number in any numeric type',
 'A number stored in a container under one numeric type and read as another is the same number whenever the other type can represent it and its C++ conversion (the real part, for a complex number) otherwise, whether read or assigned through subscripts; a complex target gets a zero imaginary part. Asking for a number where the field holds no number, or for a type with no conversion, is refused and changes nothing.',
 ['inputs'], 'every ordered pair of numeric types, symbolic values over the exactly representable range',
 'The conversion table has over a hundred entries generated by macros, each valid for a whole range of values.',
 ['DMI/src/TypeInfo.cc', 'DMI/src/TypeInfo.h', 'DMI/src/Container.cc', 'DMI/src/NC-ConstHooks.h'],
 [('conversion', 'DMI::convertScalar, Container::ConstHook::get_scalar'), ('assignment', 'Container::Hook::assign_scalar')])
prop('O01', 'Messages survive transfer and copying, and damaged ones are refused',
 'A message taken apart into blocks and rebuilt elsewhere has the same identifier, source, destination, priority, state, flags and payload, and shares no writable data with the original; a copy of a message likewise. Blocks that were altered in one place, cut short or lost are refused or give a well-formed message, never an access outside the received data.',
 ['inputs', 'fault_sequences'], 'every symbolic header field and payload content, every form of copy, every value of any one word, every truncation',
 'Header fields and sizes are raw memory: the errors appear only for particular values or truncations.',
 ['OCTOPUSSY/src/Message.cc', 'OCTOPUSSY/src/Message.h'],
 [('serialisation', 'Message::toBlock, Message::fromBlock'), ('copying', 'Message::operator=, Message::clone, Message::cloneOther')])
prop('O02', 'Subscriptions match exactly the messages asked for',
 'After any sequence of subscribing and unsubscribing, a message matches the set exactly if some current mask matches its identifier and its sender lies within that subscription\'s scope (local process, host or anywhere). Packing and unpacking a subscription set changes none of this, and a damaged packed set is refused or yields a well-formed set without access outside the buffer.',
 ['inputs', 'histories', 'fault_sequences'], 'every history up to the bound, every message, every sender, every damaged word',
 'Overlapping wildcard masks with different scopes make the result depend on the order and combination of operations.',
 ['OCTOPUSSY/src/Subscriptions.cc', 'OCTOPUSSY/src/Subscriptions.h'],
 [('editing and matching', 'Subscriptions::add, Subscriptions::remove, Subscriptions::matches'), ('transfer', 'Subscriptions::pack, Subscriptions::unpack')])
prop('O03', 'Messages reach exactly their recipients, each with its own copy',
 'A message sent to an address is queued exactly once at every local process that the address designates, and at every forwarding process when the address reaches beyond this process; a published message goes to exactly the processes with a matching subscription within both scopes; the number reported to the sender is the number of deliveries. Each recipient sees the identifier, sender, destination, priority and payload as they were when sent, whatever the sender or another recipient does to its own reference afterwards.',
 ['inputs', 'histories'], 'every address form, sender, scope, subscription and identifier within the bound, symbolic payload, every later writer',
 'Addresses combine wildcards, classes, instances, hosts and scopes; sharing between recipients only shows when one of them writes.',
 ['OCTOPUSSY/src/Dispatcher.cc', 'OCTOPUSSY/src/WPInterface.cc', 'OCTOPUSSY/src/MsgAddress.h', 'OCTOPUSSY/src/Subscriptions.cc'],
 [('routing', 'Dispatcher::send'), ('delivery', 'WPInterface::do_poll, WPInterface::deliver'), ('publishing', 'WPInterface::publish, WPInterface::send, WPInterface::subscribe')])
prop('O04', 'Queued messages are delivered once, in priority order, to healthy processes',
 'Every message queued at a process is handed to it exactly once, the oldest of the highest priority first, unless it is removed from the queue, held or put back by the handler; nothing stays in a queue unless the message in front is held. A handler is never re-entered, other processes keep being served while it waits, a process whose handler fails is detached without loss for the others, and a message gains priority as it waits so that no busy process starves another.',
 ['inputs', 'histories'], 'every priority, every handler result and every operation on the queue from inside a handler, within the bound',
 'The order depends on arbitrary priorities and on what handlers do to the queue while they run.',
 ['OCTOPUSSY/src/WPInterface.cc', 'OCTOPUSSY/src/Dispatcher.cc'],
 [('queue', 'WPInterface::enqueue, dequeue, searchQueue'), ('polling', 'WPInterface::do_poll, Dispatcher::poll, WPInterface::needRepoll')])
prop('O05', 'Timeouts, inputs and signals are reported exactly when asked for',
 'A process gets a timeout event for each of its timeouts when, and only when, it becomes due, an input event when a watched condition is seen on a descriptor, and a signal event for a signal it asked for; one-shot events fire once and are then forgotten, a removed event is never delivered, and removing tells whether there was anything to remove. The event loop never sleeps beyond the next timeout, is woken when an earlier one is added, watches exactly the descriptors asked for, and previous signal handlers are restored.',
 ['inputs', 'histories'], 'every clock value, period and readiness pattern within the bound, every history of additions, removals and cancellations',
 'The outcome depends on the exact clock values and on operations that happen while the loop is waiting.',
 ['OCTOPUSSY/src/Dispatcher.cc', 'OCTOPUSSY/src/WPInterface.cc', 'OCTOPUSSY/src/WorkProcess.cc'],
 [('event loop', 'Dispatcher::eventThread, Dispatcher::checkEvents'), ('registration', 'Dispatcher::addTimeout, removeTimeout, addInput, removeInput, addSignal, removeSignal'), ('delivery', 'WPInterface::enqueue, WPInterface::do_poll')])
prop('M01', 'Request identifiers compare and change index by index',
 'Two request identifiers compare equal under a dependency mask exactly when every index in the mask is equal (missing indices count as zero), the difference mask names exactly the indices that differ, and incrementing, setting or masking changes exactly the indices in the mask. Hence a result cached for an earlier request is still valid exactly when none of the indices it depends on has changed.',
 ['inputs'], 'every pair of identifiers up to the length bound, every 32-bit index value, every mask within the bound',
 'Cache validity depends on arbitrary index values and on identifiers of different lengths; tests only count requests up.',
 ['MEQ/src/RequestId.cc', 'MEQ/src/RequestId.h'],
 [('comparison', 'RqId::maskedCompare, RqId::diffMask'), ('changes', 'RqId::incrSubId, RqId::setSubId, RqId::maskSubId')])
prop('M02', 'Domains are equal, merged and transferred axis by axis',
 'A domain holds for each defined axis the interval it was given, start before end; two domains are equal exactly when all their axes are, the envelope of two domains is the smallest one covering both, and one covers the projection of another exactly when each of its intervals does. Copies and domains rebuilt from their wire form or record form are equal and independent, and a malformed domain record is refused.',
 ['inputs'], 'every pair of domains within the bound, every copying route, every malformed record within the bound',
 'Orderings and overlaps of intervals, missing axes and shared copies cannot be sampled; tests use a few fixed domains.',
 ['MEQ/src/Domain.cc', 'MEQ/src/Domain.h', 'MEQ/src/Axis.cc'],
 [('axes', 'Domain::defineAxis, Domain::validateContent'), ('envelope', 'Domain::envelope, Domain::expandToEnvelope, Domain::supersetOfProj')])
prop('M03', 'Grids keep exactly the cells given and combine consistently',
 'A grid has on every axis exactly the cell centres and sizes it was given, with matching edges, regular segments, shape, rank and enclosing domain; copies in any form are equal and independent. Grids compare equal exactly when all cells are, can be merged exactly when their common axes match, and resampling by a whole factor keeps the domain and partitions or merges cells exactly, refusing other factors.',
 ['inputs', 'histories'], 'every grid within the bound, every copying route followed by a change on either side, every resampling factor within the bound',
 'Cell positions, sizes and axis combinations are unbounded inputs, and shared copies only differ after a later change.',
 ['MEQ/src/Cells.cc', 'MEQ/src/Cells.h'],
 [('axes', 'Cells::setCells, Cells::setNumCells, Cells::recomputeSegments, Cells::recomputeDomain'), ('comparison', 'Cells::compare, Cells::operator=='), ('combination', 'Cells::superset, Cells resampling constructors')])
prop('M04', 'Array arithmetic is element-wise over the combined shape',
 'Every arithmetic operator and mathematical function on arrays of values yields, at every point of the combined shape, the result for the corresponding points of its operands, an axis on which an operand does not vary being repeated; incompatible shapes and functions undefined for complex values are refused. In-place and out-of-place forms give the same result, operands and earlier copies are never changed, and copies in any form are equal and independent.',
 ['inputs'], 'every pair of shapes and types within the bound, symbolic values, in-place or not, shared storage or not',
 'Strided iteration over mixed shapes and shared storage goes wrong only for particular combinations of ranks and extents.',
 ['MEQ/src/Vells.cc', 'MEQ/src/Vells.h'],
 [('shapes and strides', 'Vells::computeStrides, Vells::canApplyInPlace, Vells::DimCounter'), ('operators', 'Vells binary, in-place and unary operators'), ('functions', 'VellsMath unary and binary functions')])
prop('M05', 'Data flags combine bit by bit and point by point',
 'Flag operators combine the flags of corresponding points bit by bit over the combined shape, apply to flags only, and change nothing but their target. Merging flags under a mask adds exactly the masked bits to every point without disturbing other holders of either array; replacing flagged values touches exactly the points flagged under the mask; and element-wise extremes ignore flagged operands.',
 ['inputs'], 'every pair of shapes within the bound, every 32-bit flag value and mask, shared or owned flags',
 'Flags mark bad data in every result; masks, shapes and sharing multiply far beyond sampled cases.',
 ['MEQ/src/Vells.cc', 'MEQ/src/Vells.h'],
 [('operators', 'Vells flag operators'), ('merging', 'Vells::mergeFlags'), ('use of flags', 'Vells::replaceFlaggedValues, Vells::whereEq, VellsMath::min, VellsMath::max')])
prop('M06', 'Reductions cover every unflagged point exactly once',
 'The sum, product, mean, least and greatest value and number of points of an array are those over all points of the full shape that are not flagged under the mask, a value or flag that is constant along an axis standing for every point of that axis.',
 ['inputs'], 'every combination of value shape, flag shape and full shape within the bound, symbolic values, flags and masks',
 'The weight of collapsed axes depends on the three shapes together and on which points are flagged.',
 ['MEQ/src/Vells.cc', 'MEQ/src/Vells.h'],
 [('reductions', 'VellsMath::sum, product, mean, min, max, nelements')])
prop('M07', 'A value set holds exactly what was put in, and a fail keeps every fail',
 'Through any sequence of operations a set of values holds exactly the main value, flags, weights, solvable ids, perturbations and perturbed values last put in, the flags and weights applying to main and perturbed values alike; its shape covers all of them and shapes that do not conform are refused without changing the set. Adding a fail drops the values and keeps every fail added before. A copy by any route equals the original and neither is affected by later changes of the other.',
 ['inputs', 'histories'], 'every sequence of operations within the bound on every starting configuration, symbolic values, every copying route',
 'The state is kept twice (record fields and shortcuts); disagreements only show after particular sequences or copies.',
 ['MEQ/src/VellSet.cc', 'MEQ/src/VellSet.h'],
 [('contents', 'VellSet::setValue, setSpids, setPerturbedValue, setDataFlags'), ('fails', 'VellSet::addFail'), ('copies', 'VellSet::validateContent, copy constructor, assignment')])
prop('M08', 'A result keeps its value sets, dimensions, grid and fails together',
 'A result has exactly the dimensions and value sets asked for and last assigned, indices outside them are refused, and its number of fails is that of its failed sets. It has a grid whenever a value set varies, and a grid that does not fit the values is refused. A copy by any route (wire, clone, record, assignment) equals the original and neither is affected by later changes of the other.',
 ['inputs', 'histories'], 'every sequence of operations within the bound for every dimension within the bound, symbolic indices and values, every copying route',
 'Dimensions, value sets and grid are cached outside the record that travels; a mismatch needs particular sequences.',
 ['MEQ/src/Result.cc', 'MEQ/src/Result.h'],
 [('dimensions', 'Result::setDims, allocateVellSets, getOffsetChk'), ('grid', 'Result::setCells, clearCells, verifyShape'), ('copies', 'Result::validateContent, copy constructor, assignment')])

prop('M09', 'A function node applies its function to values and perturbed values alike',
 'The result of a function of several children has, for each solvable id of any child, the function of the children\'s perturbed values (main values where a child does not depend on the id), and as many planes as its tensor children. Flags are those of the children under the masks given. Every failure of a child is passed on in the plane it belongs to, and missing data stays missing unless the function allows it.',
 ['inputs'], 'all sets of solvable ids, values, flags, masks, failures and missing parts of the children within the bound',
 'Derivatives for the solver are computed from the perturbed values; a slip in the merge of ids shows only for particular overlapping sets.',
 ['MEQ/src/Function.cc', 'MEQ/src/Function.h'],
 [('evaluation', 'Function::getResult, evaluate'), ('ids', 'Function::findSpids'), ('flags', 'Function::evaluateFlags')])

prop('M11', 'The forest holds exactly the nodes created, under their names and indices',
 'A node created gets the index asked for or a free one, is found by that index and by its name, and is listed, until it is removed. Names and indices in use and unknown classes are refused and leave the forest as it was. Any other index or name is refused.',
 ['inputs', 'histories'], 'every sequence of operations within the bound and every 32-bit index',
 'Indices come from scripts and remote requests; an index just past the end is read as a node only after particular histories.',
 ['MEQ/src/Forest.cc', 'MEQ/src/Forest.h'],
 [('creation', 'Forest::create, remove, clear'), ('lookup', 'Forest::get, getRef, valid, findIndex, findNode'), ('listing', 'Forest::getNodeList')])

prop('M10', 'Cached results are those a fresh evaluation would give',
 'Whatever the cache policies, next-request hints, earlier requests and changes of state, the result of a request is that of evaluating the tree afresh, with derivatives exactly if the request asks for them. Under a policy that caches, a node with two parents is evaluated once per request. Under the policy always, a leaf is evaluated again only if a part of the request id it depends on, or its state, has changed.',
 ['inputs', 'histories'], 'every sequence of requests and state changes within the bound, every dependency mask, every policy and hint',
 'A stale result depends on which of several caches is held or released along a particular sequence of requests; each leaf has its own dependencies.',
 ['MEQ/src/Node.cc', 'MEQ/src/Node.h', 'MEQ/src/RequestId.cc'],
 [('lookup', 'Node::getCachedResult'), ('storing and releasing', 'Node::cacheResult, holdChildCaches, holdCache'), ('state', 'Node::propagateStateDependency')])

prop('M12', 'Commands in a request reach exactly the nodes they are addressed to',
 'A request with commands has them carried out once, before the result is worked out, by exactly the nodes addressed: all of a group, the first entry of a list that names the node or its index or no one in particular, and those under the index of the node. A malformed command makes the request fail but not later ones.',
 ['inputs', 'histories'], 'every combination of commands within the bound with symbolic arguments',
 'Addressing combines groups, names, lists and indices; the effect of a failed command shows only in the next request.',
 ['MEQ/src/Node_commands.cc', 'MEQ/src/Node.cc'],
 [('commands', 'Node::processRequestRider, processCommands, processCommand'), ('failures', 'Node::execute')])

prop('M13', 'Children are polled in order, and their failures handled as the policy says',
 'A node polls each of its children once in the order set, the rest after those named, and stops at the first failure or missing data if the policy for it is to abandon. Failures are collected and passed on, missing data is passed on, or either is ignored, as its policy says; the dependencies of the result are those of the children polled. Settings that make no sense are refused and leave the node as it was.',
 ['inputs', 'histories'], 'every combination of child outcomes, policies, gaps and orders within the bound',
 'Policies, orders and outcomes of children combine; a refused setting has its effect in a later request.',
 ['MEQ/src/NodeNursery.cc', 'MEQ/src/Node.cc'],
 [('polling', 'NodeNursery::syncPoll, backgroundPoll'), ('settings', 'NodeNursery::setState, setChildPollOrder'), ('outcome', 'Node::pollChildren, execute')])

prop('M15', 'A request keeps its ids, type, grid and commands together',
 'A request has the ids, type and grid last given and its commands are those put in by the functions provided, each in its place, until cleared or replaced. A copy by any route (wire, clone, record, assignment) equals the original and neither is affected by later changes of the other.',
 ['inputs', 'histories'], 'every sequence of operations within the bound, every copying route, symbolic arguments',
 'Shortcuts to grid and commands are kept outside the record that travels; a mismatch needs particular sequences.',
 ['MEQ/src/Request.cc', 'MEQ/src/Request.h', 'MEQ/src/Rider.cc'],
 [('request', 'Request::setId, setNextId, setCells, validateContent, validateRider, copyRider, clearRider'), ('commands', 'Rider::getCmdRec_All, getCmdRec_ByNodeIndex, getCmdRec_ByList, clear')])

prop('M16', 'Symbolic dependencies map to the parts of request ids they stand for',
 'The mask of a set of symbolic dependencies is the union of their masks, whatever the order in which masks and sets were given, also after a trip as a record. A new request id asked of the forest differs from the one given in exactly the part that stands for the dependency named, and its value there was not given out before.',
 ['inputs', 'histories'], 'every sequence of operations within the bound, symbolic masks and ids',
 'Cache validity rests on these masks; they are set from scripts in any order.',
 ['MEQ/src/SymdepMap.cc', 'MEQ/src/SymdepMap.h', 'MEQ/src/Forest.cc'],
 [('dependencies', 'SymdepMap::set, setActive, load, toRecord, getMask'), ('ids', 'Forest::incrRequestId, getDependMask')])

NA = [
 ('N01', 'Python values and Timba objects convert to each other unchanged', 'A value converted from Python to a Timba object and back (and the reverse) is equal to the original, and reference counts on both sides balance.', ['OCTOPython/src/DataConv.cc', 'OCTOPython/src/LazyObjRef.cc'], 'conversion', 'the code under test is a client of the CPython and NumPy C API on every line; deciding it symbolically means executing the interpreter and NumPy (binary libraries, no IR here) or replacing them by a hand-written model, which would decide the model and not the code'),
 ('N02', 'A solve reduces the residual of its equations', 'For a well-conditioned set of equations the solver converges to parameters that minimise the squared residual, and reports its metrics truthfully.', ['MeqNodes/src/Solver.cc'], 'Solver::processSolver', 'the numerical core is casacore LSQaips, present here as a binary only, and convergence is a claim about rounded floating-point iterations that an SMT solver cannot decide at any useful size'),
 ('N03', 'Sky and earth coordinates follow the astronomical conventions', 'Nodes for azimuth, elevation, sidereal time, UVW and parallactic angle agree with the astronomical definitions to the stated precision.', ['MeqNodes/src/AzEl.cc', 'MeqNodes/src/LST.cc', 'MeqNodes/src/UVW.cc', 'MeqNodes/src/ParAngle.cc'], 'evaluate', 'the results come from casacore measures (binary library and data tables) through transcendental functions; there is neither code to encode nor an exact theory to decide it in'),
 ('N04', 'Visibility data sets and images are read and written without loss', 'Data, flags and headers written to a measurement set or FITS file and read again are the same.', ['AppAgent/AppUtils/src/MSInputChannel.cc', 'AppAgent/AppUtils/src/MSOutputChannel.cc', 'MeqNodes/src/FITSUtils.cc'], 'read and write', 'the content of the files is produced by casacore tables and cfitsio, binary libraries that work on a real file system; only glue code is in the repository'),
 ('N05', 'Gateways carry messages between hosts in order and without loss', 'Messages handed to a gateway reach the peer complete and in order, a lost peer is detected, and a damaged stream ends the connection.', ['OCTOPUSSY/src/MTGatewayWP.cc', 'OCTOPUSSY/src/GatewayWP.cc', 'OCTOPUSSY/src/GWClientWP.cc'], 'reader and writer threads', 'the guarantee is about two processes with reader, writer and heartbeat threads over kernel sockets; the kernel (partial transfers, buffering, signals, timers) would be a hand-written model with more behaviour than the code, beyond reach here; the parts that are code (packing, routing, queues) are decided in O01 to O05'),
 ('N06', 'Evaluation over several processes gives the result of one process', 'A forest distributed over MPI processes gives the results that it would give in one process.', ['MeqMPI/src/MeqMPI.cc', 'MeqMPI/src/MPIProxy.cc'], 'remote execution', 'depends on an MPI run time that is not part of the repository and is compiled out of the build here'),
]
for i, t, st, files, mech, reason in NA: prop(i, t, st, ['inputs'], 'every input', 'Tests cover a few fixed inputs.', files, [(mech, files[0])], na=reason)

def main():
    import sys; sys.path.insert(0, os.path.join(V, 'tools'))
    import specs
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks = []; na = []
    for p in P:
        if p['_na']: na.append(dict(property=p['id'], reason=p['_na'])); continue
        s = specs.SPECS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='python3 tools/check.py --property %s --tier quick' % p['id'], thorough_cmd='python3 tools/check.py --property %s --tier thorough' % p['id'],
            technique='symbolic execution of the LLVM IR of the real code with an SMT solver (Z3)', level='model_checking',
            level_note=p['_note'] or ('Every value within the bounds is covered by the solver: %s. Outside: %s. Counterexamples are replayed in a native build; trusted: clang front end, the IR executor in engine/, Z3, the library models listed in the evidence.' % (s.get('bounds', ''), s.get('outside', 'longer inputs')))))
    m = dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
main()
