"""writes properties.jsonl (one place to edit the wording)"""
import json, os
P = []
def p(id, title, st, over, qt, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': list(observe), 'hook_needed': None}})
MQ = 'src/message_queue.cpp'
REGION = ('shared region', 'total size | message count | front free bytes | N message sizes | N*S data bytes', MQ)
p('C01', 'Queue delivers messages in FIFO order, byte for byte',
  'A message accepted by a queue is later returned exactly once, with exactly the bytes and length it was pushed with, and messages come out in the order they were accepted. Accepting a message, removing one, or refusing an operation never alters, reorders, drops or duplicates any other queued message.',
  ['histories', 'inputs', 'configurations'], 'every geometry (capacity x expected size), every reachable occupancy including wrapped/compacted ones, every message length and content, every arbitrary byte of every other message',
  'The tests push a few fixed small messages into a few geometries; compaction, long backlogs and arbitrary occupancy are quantified over all states.',
  [MQ, 'src/message_queue.h'], [('append behind the last message, compact to the front when the tail is short', MQ + ':pushBack'), ('copy out the front message and shift the size list', MQ + ':popFront')], [REGION], ['MessageQueue::pushBack', 'MessageQueue::popFront', 'MessageQueue::msgNumber'])
p('C02', 'Queue operations stay inside the shared region and the caller buffers',
  'For every accepted geometry and every queue state a queue can get into, no queue operation reads or writes outside the shared region or outside the buffer it was given, and no size or offset computation overflows. Distinct queued messages always occupy disjoint bytes of the data area, and only the bytes of a delivered message are written to the receiver\'s buffer.',
  ['inputs', 'configurations', 'histories'], 'all capacities and expected sizes up to 2^31-1, all occupancies, all message and buffer sizes',
  'Tests run a handful of small geometries without sanitizers; an off-by-one at a boundary occupancy or a 32-bit overflow at a large geometry corrupts memory silently.',
  [MQ], [('bounds derived from total size, header area and the sum of the message sizes', MQ + ':pushBack'), ('front free accounting', MQ + ':popFront')], [REGION], ['pushBack', 'popFront', 'checkSpaceSufficient', 'open', 'create'])
p('C03', 'Queue capacity accounting is exact',
  'A push is accepted exactly when fewer than the capacity messages are queued and the queued bytes plus the new message fit in capacity x expected size, and the space query gives the same answer and says "wait" exactly when the message could fit into an empty queue. Space is fully recovered as messages are removed, however often the queue has been filled and drained. A refused push, an empty pop, or a pop into a too small buffer changes nothing, and the too-small pop reports the size needed.',
  ['inputs', 'histories', 'configurations'], 'all geometries, all occupancies and fragmentations, all message sizes (including larger than the queue), all buffer sizes',
  'Tests check acceptance for a few sizes on fresh queues, not at every occupancy, fragmentation and boundary size.',
  [MQ], [('free-space computation', MQ + ':pushBack'), ('space query', MQ + ':checkSpaceSufficient'), ('needed size reporting', MQ + ':popFront')], [REGION], ['pushBack', 'checkSpaceSufficient', 'popFront'])
p('C04', 'Creating or opening a queue is all-or-nothing',
  'Creating a queue either succeeds, leaving an empty queue of exactly the configured geometry whatever the memory held before, or fails and leaves nothing acquired: no descriptor, mapping or semaphore stays open. Opening a queue that some process has not created fails, leaves nothing acquired and creates nothing, and opening an existing one never modifies its content. Closing releases everything exactly once.',
  ['fault_sequences', 'configurations', 'histories'], 'every combination of failures of the operating-system calls, every geometry, arbitrary previous memory content',
  'The tests never make an OS call fail and never look for leaked descriptors or side effects of a failed open.',
  [MQ, 'src/shared_memory.cpp', 'src/semaphore.cpp'], [('roll back of the parts already acquired', MQ + ':create'), ('existence check before open', 'src/semaphore.cpp:IsExist')], [REGION], ['MessageQueue::create', 'MessageQueue::open', 'MessageQueue::close'])
p('C05', 'Shared memory objects are mapped whole, released once, unlinked by the creator',
  'A created or opened shared memory object gives access to exactly the requested number of bytes, all of them backed by the object, or the call fails and holds no resource. Closing unmaps and closes everything exactly once, is harmless when repeated, and removes the name if and only if this object created it.',
  ['fault_sequences', 'histories'], 'every failure of every system call, every size, every sequence of create/open/close on one object',
  'Tests use the success path with fixed sizes only.',
  ['src/shared_memory.cpp'], [('roll back on ftruncate/mmap failure', 'src/shared_memory.cpp:create'), ('creator flag', 'src/shared_memory.cpp:close')], [], ['SharedMemory::create', 'SharedMemory::open', 'SharedMemory::close', 'SharedMemory::valid'])
p('C06', 'Timed semaphore wait: exact deadline, truthful result',
  'Waiting on a semaphore with a non-negative timeout waits until exactly now + timeout (a valid absolute time, for every current time and every timeout), a negative timeout waits without limit, and the call reports success exactly when one unit was taken. Releasing adds exactly one unit, operations on a closed semaphore do nothing, and asking whether a semaphore exists has no side effect and answers truthfully.',
  ['inputs', 'fault_sequences'], 'every clock value, every 64-bit timeout, every result of the underlying calls',
  'Tests wait a few milliseconds; the result depends on the fraction of the current second, which they sample but never enumerate.',
  ['src/semaphore.cpp'], [('absolute deadline computation', 'src/semaphore.cpp:wait'), ('existence probe', 'src/semaphore.cpp:IsExist')], [], ['Semaphore::wait', 'Semaphore::release', 'Semaphore::IsExist', 'Semaphore::open'])
p('C07', 'Events wake their waiters and report their state truthfully',
  'An event wait returns true exactly when the event is set or cancelled at the moment it returns, waits no longer than the requested time (without limit when negative) and never returns early with false. Every change of the set or cancelled state is made under the event\'s lock, every change that can release a waiter wakes all waiters, and set/unset/cancel/reset each change exactly what they name.',
  ['schedules', 'inputs'], 'all timeouts, all interleavings of state changes with a wait (state may change arbitrarily while the lock is released)',
  'Tests exercise one or two schedules with short sleeps.',
  ['src/event.cpp'], [('predicate wait under the mutex', 'src/event.cpp:wait'), ('notify after every state change', 'src/event.cpp')], [], ['Event::wait', 'Event::set', 'Event::cancel', 'Event::reset'])
p('C08', 'Queue content is only touched while holding its inter-process lock',
  'Every access to a queue shared between processes (space query, push, pop, count) is made while the accessing thread holds that queue\'s inter-process lock. A lock that was acquired is released exactly once on every path, also when something throws, and a lock that was not acquired (timeout) is never released.',
  ['schedules', 'fault_sequences', 'histories'], 'every outcome of lock acquisition, space query, push, pop, allocation, message content and exceptions in every iteration of every sender and dispatcher thread',
  'A double unlock or an unlocked access only shows under contention between processes and on timeout or exception paths the tests never take.',
  ['src/sender.cpp', 'src/call_dispatcher.cpp', 'src/resp_dispatcher.cpp', MQ], [('lock/unlock around queue access', 'src/sender.cpp:sendCallThreadProc'), ('lock/unlock around pop', 'src/call_dispatcher.cpp:dispatchThreadProc'), ('lock/unlock around pop', 'src/resp_dispatcher.cpp:dispatchRespThreadProc')], [], ['Sender threads', 'dispatcher threads'])
p('C09', 'Every queued message has a pending read signal',
  'Exactly one read signal is posted for every message pushed, none for a message that was not pushed. A dispatcher that consumes a read signal without removing a message (because it could not get the lock in time) gives the signal back, so no message can be stranded in a queue while its receiver sleeps.',
  ['schedules', 'fault_sequences', 'histories'], 'every outcome of locking, space, push and pop in every iteration of sender and dispatcher threads',
  'Losing a signal requires lock contention at a particular point; the message is then delayed forever, which tests do not provoke.',
  ['src/sender.cpp', 'src/call_dispatcher.cpp', 'src/resp_dispatcher.cpp'], [('notify after push', 'src/sender.cpp'), ('wait, lock, pop', 'src/call_dispatcher.cpp'), ('wait, lock, pop', 'src/resp_dispatcher.cpp')], [], ['Sender threads', 'dispatcher threads'])
p('C10', 'Every call that is handed over gets exactly one outcome',
  'Each call accepted for sending ends up either as exactly one message in the target\'s queue (and then no failure is reported for it), or with exactly one failure result of the right kind (timeout or failure) delivered to its promise or callback and no message sent. The call is registered as awaiting a response before it can be answered, and is deregistered when sending fails.',
  ['schedules', 'fault_sequences', 'inputs'], 'every combination of target lookup, lock, space, push and exception outcomes, promise and callback calls, any backlog',
  'Tests cover success, and timeout against a missing channel; not each failing step with each result style.',
  ['src/sender.cpp', 'src/veigar.cpp', 'include/veigar/veigar.inl'], [('send loop', 'src/sender.cpp:sendCallThreadProc'), ('hand-over', 'src/veigar.cpp:sendCall')], [], ['Veigar::syncCall', 'Veigar::asyncCall'])
p('C11', 'A response completes exactly the call it answers, exactly once',
  'A well-formed response (an array with response flag and a call id) completes the pending call with the same call id and no other, delivering its error text and result value unchanged; a response whose id is unknown or already answered, or that is not well-formed, completes nothing. A call is completed at most once however often a response for it arrives, and receiving any response leaves the dispatcher able to process the next one.',
  ['histories', 'inputs', 'schedules'], 'arbitrary registry contents, arbitrary responses (known, unknown, duplicate ids, wrong flag, wrong shape), promise and callback calls',
  'Tests receive only the responses the library itself produces, in order, once.',
  ['src/resp_dispatcher.cpp'], [('registry lookup under the mutex', 'src/resp_dispatcher.cpp:dispatchRespThreadProc')], [('ongoing calls', 'call id -> promise/callback', 'src/resp_dispatcher.h')], ['promise / callback of the caller'])
p('C12', 'A call runs exactly the function bound to its name and is answered once',
  'A well-formed call executes the function currently bound to the named function exactly once with the given arguments, and the caller named in the call gets exactly one response carrying that call\'s id and either the result or an error text. An unknown name, a wrong argument count or type, or an exception thrown by the function yields an error response instead of executing something else; a malformed message executes nothing.',
  ['inputs', 'histories', 'fault_sequences'], 'arbitrary registries, function names, argument lists (any count and type), bodies that throw, arbitrary malformed messages',
  'Tests call well-formed functions; the message space and the registry contents are unbounded.',
  ['src/call_dispatcher.cpp', 'include/veigar/call_dispatcher.inl', 'src/response.cpp'], [('dispatch by name', 'src/call_dispatcher.cpp:dispatchCall'), ('argument count check and conversion', 'include/veigar/call_dispatcher.inl')], [('registry', 'function name -> functor', 'include/veigar/call_dispatcher.h')], ['bound functions', 'Veigar::sendResponse'])
p('C13', 'Call ids are never shared by two calls of one instance',
  'Two different calls issued by one instance never carry the same call id (within 2^32 calls), whatever the function names and from whichever threads they are issued.',
  ['inputs', 'schedules', 'histories'], 'all pairs of function names and sequence numbers, all interleavings',
  'Collisions depend on particular name/number combinations such as a function name ending in digits; tests use a few names.',
  ['src/veigar.cpp'], [('id = instance id, function name, sequence number', 'src/veigar.cpp:getNextCallId')], [('call counter', 'atomic', 'src/veigar.cpp')], ['Veigar::asyncCall'])
p('C14', 'The function registry reflects exactly the binds and unbinds made',
  'Binding a free name makes exactly that name callable with exactly the given function and argument count; binding a name that is taken is refused and leaves the existing binding in place. Unbinding removes exactly that name and is harmless for unknown names, the list of names is exactly the bound ones, and only uninitialising the instance clears them all.',
  ['histories', 'inputs'], 'arbitrary registry contents and names; functions with and without arguments and results',
  'Tests bind and unbind a few names on fresh instances.',
  ['include/veigar/call_dispatcher.inl', 'src/call_dispatcher.cpp', 'src/veigar.cpp'], [('registry', 'include/veigar/call_dispatcher.inl')], [], ['Veigar::bind', 'Veigar::unbind', 'Veigar::bindNames'])
p('C15', 'Message payload buffers are copied whole and freed exactly once',
  'The payload handed to a sender is an exact private copy of the message, is never read after being freed, and is freed exactly once: after it was pushed or given up, or at shutdown if it was still waiting. No payload is leaked by uninitialising an instance, whatever is still waiting to be sent.',
  ['histories', 'fault_sequences', 'schedules'], 'arbitrary numbers of waiting calls and responses at shutdown, every failure outcome of every send',
  'The tests run without leak or use-after-free detection and do not shut down with a backlog.',
  ['src/sender.cpp', 'src/veigar.cpp'], [('free after send', 'src/sender.cpp'), ('drain at uninit', 'src/sender.cpp:uninit')], [], ['Veigar::uninit'])
p('C16', 'Waiting for queue space respects the call timeout',
  'Waiting for room in a full queue never takes place when the message can never fit, is given up only when the call\'s own timeout has really elapsed or the instance is shutting down, re-examines the queue after every pause, and does not keep other processes from draining the queue while it pauses. The timeout used equals the requested milliseconds for every 32-bit value.',
  ['inputs', 'schedules'], 'all timeouts and start times, all clock readings, all sequences of space-query answers',
  'Tests use short timeouts and never run into a full queue for long; the arithmetic is only exercised for tiny values.',
  ['src/sender.cpp', 'src/veigar.cpp'], [('checkSpaceAndWait loop', 'src/sender.cpp'), ('timeout conversion', 'src/veigar.cpp:sendCall')], [], ['Veigar::syncCall', 'Veigar::asyncCall'])
p('C17', 'Initialisation is all-or-nothing and instances can be reused',
  'Initialising an instance either succeeds with its channel, queues and threads all running, or fails with everything rolled back and no crash, whatever step failed and whatever the arguments; repeating it reports success only for the same channel. Uninitialising stops and joins every thread, releases every queue, is harmless when repeated, and leaves an instance that can be initialised again.',
  ['fault_sequences', 'inputs', 'histories'], 'every failing step, every channel name (including empty) and geometry, repeated init/uninit sequences',
  'Tests never make an initialisation step fail.',
  ['src/veigar.cpp', 'src/sender.cpp', 'src/resp_dispatcher.cpp', 'src/call_dispatcher.cpp'], [('init with roll back', 'src/veigar.cpp:init'), ('stop, join, close', 'src/*:uninit')], [], ['Veigar::init', 'Veigar::uninit', 'Veigar::isInit'])
p('C18', 'Integers and booleans survive the wire unchanged',
  'Every integer of every width and signedness and every boolean that is packed as an argument or result unpacks, on the other side, to a value of the same type equal to the one that was packed, using the shortest standard encoding, and consuming exactly the bytes written.',
  ['inputs'], 'all values of int8..int64, uint8..uint64 and bool',
  'Tests pack a few values per type; width boundaries and sign handling are 2^64 inputs.',
  ['include/veigar/msgpack/v1/pack.hpp', 'include/veigar/msgpack/v2/parse.hpp', 'include/veigar/msgpack/v1/adaptor/int.hpp'], [('format selection', 'include/veigar/msgpack/v1/pack.hpp'), ('parser', 'include/veigar/msgpack/v2/parse.hpp')], [], ['call arguments and results'])
p('C19', 'Floating point values survive the wire bit for bit',
  'Every float and double, including NaNs with their payload, infinities, signed zero and subnormals, that is packed as an argument or result unpacks to a value of the same type with the same bits (only a signalling NaN may arrive as the quiet NaN with the same payload).',
  ['inputs'], 'all 2^32 floats and 2^64 doubles',
  'Tests use a few ordinary values and compare with ==.',
  ['include/veigar/msgpack/v1/pack.hpp', 'include/veigar/msgpack/v2/parse.hpp', 'include/veigar/msgpack/v1/adaptor/float.hpp'], [('big-endian bit copy', 'include/veigar/msgpack/v1/pack.hpp')], [], ['call arguments and results'])
p('C20', 'Lengths of strings, binaries, arrays and maps survive the wire',
  'The length header written for a string, binary, array or map of any length up to 2^32-1 is read back as exactly that kind and length, and the following payload bytes are delivered unchanged and completely. A message that is cut short anywhere is never delivered as if it were complete.',
  ['inputs', 'fault_sequences'], 'all lengths 0..2^32-1 of each kind; every truncation point',
  'Tests use short strings; the boundaries 31/32, 255/256, 65535/65536 and truncation points are not enumerated.',
  ['include/veigar/msgpack/v1/pack.hpp', 'include/veigar/msgpack/v2/parse.hpp'], [('length headers', 'include/veigar/msgpack/v1/pack.hpp'), ('incremental parser', 'include/veigar/msgpack/v2/parse.hpp')], [], ['call arguments and results'])
p('C21', 'Conversions either preserve the value or fail',
  'Converting a received value to a requested type either yields a value equal to the received one, or fails with an error: an integer that is out of range for the requested type, or a value of another kind, is never silently truncated, wrapped or reinterpreted. Any number converts to a floating point type, as the nearest value of that type.',
  ['inputs'], 'all received values of all kinds, all integer, bool, float, string, byte, collection and user-defined target types',
  'Tests convert to the type that was sent.',
  ['include/veigar/msgpack/v1/adaptor/int.hpp', 'include/veigar/msgpack/v1/adaptor/bool.hpp', 'include/veigar/msgpack/v1/adaptor/float.hpp', 'include/veigar/call_result.h'], [('range-checked conversion', 'include/veigar/msgpack/v1/adaptor/int.hpp')], [], ['CallResult::convertObject', 'arguments of bound functions'])
p('C22', 'Decoding arbitrary bytes is memory safe',
  'Whatever bytes arrive in a queue, decoding them never reads outside the received message, never follows an uninitialised pointer and never crashes: the bytes decode to a value, are reported incomplete, or are rejected with an error. Nor does converting the decoded value to the type that a function or a caller asks for.',
  ['inputs'], 'all byte strings',
  'Tests only decode what the library itself encoded.',
  ['include/veigar/msgpack/v2/parse.hpp', 'include/veigar/msgpack/v2/create_object_visitor.hpp', 'include/veigar/msgpack/v3/unpack.hpp'], [('length checks of the incremental parser', 'include/veigar/msgpack/v2/parse.hpp')], [], ['dispatcher threads'])
p('C23', 'A synchronous call returns within its timeout',
  'A synchronous call returns to the caller no later than its timeout (plus scheduling delay), also when the target has accepted the call but never answers or has died.',
  ['schedules', 'crash_points'], 'every point at which the peer can stop', 'Needs a peer that dies or hangs after accepting the call.',
  ['include/veigar/veigar.inl'], [('future.get()', 'include/veigar/veigar.inl:syncCall')], [], ['Veigar::syncCall'])
p('C24', 'The registry and configuration are safe to use from several threads',
  'Binding, unbinding and listing functions or changing the lock timeout while calls are being dispatched never corrupts the registry and never runs a function after its unbind returned.',
  ['schedules'], 'all interleavings of bind/unbind with dispatch', 'Tests bind before initialising.',
  ['include/veigar/call_dispatcher.inl', 'src/call_dispatcher.cpp'], [('none: the registry is not locked', 'src/call_dispatcher.cpp')], [], ['Veigar::bind', 'Veigar::unbind'])
p('C25', 'A crashed peer does not wedge a queue',
  'When a process dies at any point, including while it holds a queue\'s inter-process lock, other processes can still use their own channels and recover the queue.',
  ['crash_points'], 'every instruction at which a process can die', 'Needs killing a process inside the critical section.',
  [MQ, 'src/semaphore.cpp'], [('POSIX named semaphore as lock (no owner recovery)', 'src/semaphore.cpp')], [], ['MessageQueue::processRWLock'])
p('C26', 'Instance identifiers are unique across processes',
  'Two instances, also in different processes, never use the same instance identifier.',
  ['histories'], 'all sets of instances', 'Needs many processes; randomness is not observable in one test run.',
  ['src/uuid.cpp'], [('pseudo random 128-bit identifier', 'src/uuid.cpp')], [], ['call ids'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
