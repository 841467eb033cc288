"""units (what is extracted and linked) and checks (which harnesses decide which property)"""

MQ_REPO = ['message_queue.cpp', 'shared_memory.cpp', 'semaphore.cpp']

BSWAP = ['-fgnuc-version=4.3.0']     # byte swaps of the C library as the compiler's intrinsic, as every gcc compiles them

DECODE_HARNESSES = ['d_0', 'd_a', 'd_k', 'd_v', 'd_aa', 'd_ka', 'd_va', 'd_ak', 'd_kk', 'd_vk', 'd_av', 'd_kv', 'd_vv', 'd_val0', 'd_val1', 'd_val2']

COLL_BOUND = {'k_vector': 17, 'k_list': 17, 'k_deque': 17, 'k_forward': 17, 'k_texts': 2, 'k_map': 2, 'k_multimap': 2, 'k_set': 2, 'k_nested': 2}
COLL_TRIPS = list(COLL_BOUND) + ['k_bytes', 'k_ubytes', 'k_array', 'k_pair', 'k_tuple', 'k_complex', 'k_shared', 'k_unique', 'k_define', 'k_define_map']
COLL_ATOMS = ['c_text', 'c_bytes', 'c_ubytes', 'c_array_char', 'c_array_uchar', 'c_carray_char', 'c_carray_uchar', 'c_time', 'c_shared', 'c_result']   # nothing in them depends on elements
COLL_CONV = COLL_ATOMS + ['c_vector', 'c_list', 'c_deque', 'c_forward', 'c_array', 'c_carray', 'c_pair', 'c_tuple', 'c_complex', 'c_map', 'c_set', 'c_define', 'c_define_map']

UNITS = {
    'posix': {'harness': 'harness/posix.cpp', 'repo': MQ_REPO},
    'event': {'harness': 'harness/event.cpp', 'repo': ['event.cpp']},
    'sender': {'harness': 'harness/sender.cpp', 'repo': ['sender.cpp', 'event.cpp'] + MQ_REPO, 'containers': True},
    'resp': {'harness': 'harness/resp.cpp', 'repo': ['resp_dispatcher.cpp', 'event.cpp'] + MQ_REPO, 'containers': True},
    'call': {'harness': 'harness/call.cpp', 'repo': ['harness/call_impl.cpp', 'response.cpp', 'event.cpp'] + MQ_REPO, 'containers': True},
    'reg': {'harness': 'harness/reg.cpp', 'repo': ['harness/call_impl.cpp', 'response.cpp', 'event.cpp'] + MQ_REPO, 'containers': True, 'partial': True,
            'fnbounded': {'names': 'at most three bound functions'}},
    'inst': {'harness': 'harness/inst.cpp', 'repo': ['harness/veigar_impl.cpp'], 'containers': True, 'partial': True},
    'async': {'harness': 'harness/async.cpp', 'repo': [], 'containers': True, 'partial': True},
    'wire': {'harness': 'harness/wire.cpp', 'repo': [], 'opts': {'mode': 'bv'}, 'irflags': BSWAP},
    'wirelen': {'harness': 'harness/wirelen.cpp', 'repo': [], 'irflags': BSWAP},
    'decode': {'harness': 'harness/decode.cpp', 'repo': [], 'partial': True, 'fnbounded': {h: 'at most two open containers at the start of an iteration of the parser' for h in DECODE_HARNESSES}, 'irflags': BSWAP},
    'payload': {'harness': 'harness/payload.cpp', 'repo': ['response.cpp'], 'irflags': BSWAP, 'partial': True},
    'coll': {'harness': 'harness/coll.cpp', 'repo': [], 'irflags': BSWAP, 'partial': True,
             'fnbounded': dict([(h, 'at most %d elements' % n) for h, n in COLL_BOUND.items()] + [(h, 'at most three elements in an array, two in a map') for h in COLL_CONV if h not in COLL_ATOMS])},
    'mq': {'harness': 'harness/mq.cpp', 'repo': MQ_REPO},
}

MQ = [('mq', 'push'), ('mq', 'pushbad'), ('mq', 'space'), ('mq', 'pop'), ('mq', 'num')]

MQNOTE = ('Every obligation of the queue operations is discharged for every geometry, occupancy, message and buffer, with no bound '
          '(loops by inferred and then checked invariants). Assumes the representation invariant at entry (re-established by every '
          'operation and by create), exclusive access (property C08) and data areas below 2^46 bytes; trusts clang, virc and z3.')

CHECKS = {
    'C01': {'runs': MQ, 'note': MQNOTE},
    'C02': {'runs': MQ, 'note': MQNOTE},
    'C03': {'runs': MQ, 'note': MQNOTE},
}

POSIXNOTE = ('Discharged for every size, timeout, clock value, prior existence of the names and every combination of failing system calls. '
             'The POSIX calls are replaced by executable contracts over a ghost world (harness/posix_env.h); trusts those, clang, virc and z3.')
CHECKS['C04'] = {'runs': [('posix', 'mq_create'), ('posix', 'mq_open'), ('posix', 'mq_open_content')], 'note': POSIXNOTE}
CHECKS['C05'] = {'runs': [('posix', 'shm_create'), ('posix', 'shm_open'), ('posix', 'shm_reuse')], 'note': POSIXNOTE}
CHECKS['C06'] = {'runs': [('posix', 'sem_wait'), ('posix', 'sem_wait_forever'), ('posix', 'sem_open'), ('posix', 'sem_exist')], 'note': POSIXNOTE}
CHECKS['C07'] = {'runs': [('event', 'ev_ops'), ('event', 'ev_ctor'), ('event', 'ev_query'), ('event', 'ev_wait')],
                 'note': 'Discharged for every state, every interleaved change by other threads while the lock is free, every spurious wake-up and '
                         'any number of them (inferred inductive loop invariant), timeouts up to 2^41 ms and clocks below 2^62 ns. The pthread and clock '
                         'calls below libstdc++ are executable contracts (harness/thread_env.h); libstdc++ headers are verified as part of the code.',
                 'assumptions': ['timeouts up to 2^41 ms, clocks below 2^62 ns']}

SENDNOTE = ('Discharged for every message, channel, timeout, clock value, list content and length, table of target queues, outcome of every '
            'queue and event operation, and one failing allocation per message; the thread loops are cut at an inductive invariant and each '
            'iteration is verified from an arbitrary state satisfying it. Queue, event, clock, std::thread, std::promise and std::unordered_map/'
            'queue are replaced by executable contracts (harness/glue_env.h, model/vf_containers.h); the queue and event contracts are '
            'discharged in the units mq, posix and event.')
SEND = [('sender', 'call_thread'), ('sender', 'call_thread_norecipient'), ('sender', 'resp_thread'), ('sender', 'add'), ('sender', 'stop')]
CHECKS['C08'] = {'runs': SEND, 'note': SENDNOTE}
CHECKS['C09'] = {'runs': SEND[:3], 'note': SENDNOTE}
CHECKS['C10'] = {'runs': SEND, 'note': SENDNOTE}
CHECKS['C15'] = {'runs': SEND, 'note': SENDNOTE}
CHECKS['C16'] = {'runs': SEND[:4], 'note': SENDNOTE}
for _c in ('C08', 'C09', 'C10', 'C15', 'C16'):
    CHECKS[_c]['assumptions'] = ['message payloads below 2^46 bytes, clocks below 2^61 us', 'a promise or callback supplied by the library never throws']

CALL = [('call', 'call_loop')]
REG = [('reg', h) for h in ('bind_v0', 'bind_v2', 'bind_r0', 'bind_r2', 'unbind')]
RESP = [('resp', 'resp_loop'), ('resp', 'resp_table')]
CHECKS['C08']['runs'] = CHECKS['C08']['runs'] + RESP[:1]
CHECKS['C09']['runs'] = CHECKS['C09']['runs'] + RESP[:1]
CHECKS['C10']['runs'] = CHECKS['C10']['runs'] + RESP[1:]
CHECKS["C11"] = {"runs": RESP, "note": SENDNOTE}
CHECKS['C08']['runs'] = CHECKS['C08']['runs'] + CALL
CHECKS['C09']['runs'] = CHECKS['C09']['runs'] + CALL
CHECKS['C12'] = {'runs': CALL + REG + [('sender', 'resp_thread'), ('sender', 'add')], 'note': SENDNOTE + ' The registry stand-in holds arbitrary functions under arbitrary names; bind() is verified for four functor '
                 'kinds (with/without arguments and result) as representatives of the template.'}
CHECKS['C14'] = {'runs': REG + [('reg', 'names')] + CALL + [('call', 'call_init')], 'note': CHECKS['C12']['note'] + ' The list of names is checked for up to three bound functions (bounded).'}
CHECKS['C17'] = {'runs': [('call', 'call_init'), ('resp', 'resp_init'), ('sender', 'start'), ('sender', 'stop')], 'note': ''}

INST_NOTE = (' The instance layer (units inst and async) is verified for every input, one failing allocation, and every outcome of the parts below it, '
             'which are stubs that follow the contracts discharged in the other units.')
ASYNC = [('async', h) for h in ('a_promise', 'a_promise_args', 'a_callback', 'a_sync')]
SENDC, SENDR, CALLID, REGI, INIT = ('inst', 'v_sendcall'), ('inst', 'v_sendresp'), ('inst', 'v_callid'), ('inst', 'v_registry'), ('inst', 'v_init')
for _c, _h in (('C04', [INIT]), ('C10', [SENDC, REGI] + ASYNC), ('C11', [ASYNC[0], ASYNC[3]]), ('C12', [SENDR] + ASYNC), ('C14', [REGI, ('inst', 'v_names')]), ('C15', [SENDC, SENDR]),
               ('C16', [SENDC, SENDR, REGI] + ASYNC), ('C17', [INIT])):
    CHECKS[_c]['runs'] = CHECKS[_c]['runs'] + _h
    CHECKS[_c]['note'] += INST_NOTE
CHECKS['C13'] = {'runs': [CALLID] + ASYNC,
                 'note': 'Two ids of one instance, for two arbitrary function names and an arbitrary state of the counter and of the instance id, with arbitrary other calls '
                         'by other threads before every access to the counter, differ; and the id is the one under which the call is packed, registered and '
                         'reported to the caller.  The atomic counter is sequentially consistent.' + INST_NOTE,
                 'assumptions': ['at most 2^32 calls lie between two calls of one instance']}
CHECKS['C17']['note'] = ('Discharged for every step of Veigar::init, of the start of sender, response and call dispatcher that can fail, with failing allocations, and for '
                         'uninit in every state that init can leave.' + INST_NOTE)

WIRE_NOTE = ('Discharged for every value (bit-precise, floating point included) on the real packer, buffer, unpacker, parser, visitor, zone and conversions; '
             'allocation is assumed to succeed. Floating point semantics are those of SMT-LIB (round to nearest even, NaN bits as on x86-64).')
INTS = ['char', 'schar', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'wchar']
CHECKS['C18'] = {'runs': [('wire', 'w_' + t) for t in INTS + ['bool']], 'note': WIRE_NOTE}
CHECKS['C19'] = {'runs': [('wire', 'w_' + f + r) for f in ('float', 'double') for r in ('', '_result')], 'note': WIRE_NOTE,
                 'assumptions': ['a signalling NaN that passes through a floating point register arrives quiet (x86-64 conversion semantics)']}
CHECKS['C20'] = {'runs': [('wirelen', h) for h in ('l_str', 'l_bin', 'l_ext', 'l_append', 'l_two', 'z_alloc')] + [('decode', h) for h in ('l_array', 'l_map', 'd_0', 'd_a', 'd_k', 'd_v', 'd_val0', 'd_val1')],
                 'note': WIRE_NOTE}
CHECKS['C21'] = {'runs': [('wire', 'x_' + t) for t in INTS + ['bool', 'float', 'double']], 'note': WIRE_NOTE}

DECODE = [('decode', h) for h in DECODE_HARNESSES]
CHECKS['C22'] = {'runs': DECODE + [('wirelen', 'l_two'), ('wirelen', 'z_alloc')], 'level': 'other',
                 'note': 'The loop of the parser is cut at a stated invariant that relates its position, its stack, the stack of the visitor and the values read so far; '
                         'every iteration is verified for a message of any length below 4 GiB with any bytes, any position, containers of any size with any number of values to come. '
                         'Bounded: at most two containers are open at the start of an iteration (three at its end).  The zone is a stub with the contract verified in wirelen.'}
CHECKS['C20']['note'] = ('Lengths, headers, payload bytes, buffer growth and truncation of texts, binaries and extensions of every length, and the headers of arrays and maps '
                         'of every size, are discharged on the real packer, buffer, unpacker, parser, visitor and zone. The elements of containers: as C22, with at most one '
                         'open container at the start of an iteration of the parser (bounded).')

COLL_NOTE = (' Collections (unit coll): vectors, lists, deques, arrays, byte vectors, pairs, tuples, maps, sets, nested vectors, pointers, complex numbers and types of the user are '
             'packed directly and through an object, unpacked and converted, with the numbers of elements stated as bounded; byte vectors have every length.')
CHECKS['C20']['runs'] = CHECKS['C20']['runs'] + [('coll', h) for h in COLL_TRIPS] + [('wire', 'w_time')]
CHECKS['C20']['note'] += COLL_NOTE
CHECKS['C21']['runs'] = CHECKS['C21']['runs'] + [('coll', h) for h in COLL_TRIPS + COLL_CONV]
CHECKS['C21']['note'] += COLL_NOTE + (' Conversions of a received value of every kind to each of these types (bounded: arrays of at most three numbers, maps of at most two pairs) '
                                      'succeed exactly for the kinds the type is sent as, and preserve the value.')
CHECKS['C22']['runs'] = CHECKS['C22']['runs'] + [('coll', h) for h in COLL_CONV]
CHECKS['C22']['note'] += ' Memory safety of the conversions of decoded values to C++ types: unit coll (texts, binaries and extensions of every length, arrays of at most three elements).'

CHECKS['C11']['runs'] = CHECKS['C11']['runs'] + [('coll', 'c_result')]

PAYLOAD = [('payload', 'p_' + h) for h in ('error', 'result_int', 'result_text', 'result_nothing')]
PCALL = [('payload', 'p_call_' + h) for h in ('id', 'from', 'name', 'args', 'number')]
CHECKS['C11']['runs'] = CHECKS['C11']['runs'] + PAYLOAD
CHECKS['C12']['runs'] = CHECKS['C12']['runs'] + PAYLOAD + PCALL
CHECKS['C20']['runs'] = CHECKS['C20']['runs'] + [('payload', 'p_string')]
for _c in ('C11', 'C12'):
    CHECKS[_c]['note'] += (' That the messages of calls and responses are read back by the other side as they were made is discharged on the real Response, packer, unpacker and '
                           'conversions for texts of every length and bytes (unit payload), for 32-bit numbers, texts and no value as results and arguments.')

TRUSTED = {
    'base': ['virc (this verifier: /verif/virc), z3, clang 18 front end and its -O1 sroa/simplifycfg output on the extracted IR'],
    'assumptions': [],
}

SYNC = [('posix', 'mq_sync'), ('posix', 'mq_sync_closed'), ('posix', 'mq_sync_two')]
for _c in ('C08', 'C09'):
    CHECKS[_c]['runs'] = CHECKS[_c]['runs'] + SYNC
    CHECKS[_c]['note'] += (' That the lock and the read signal of a queue are the two semaphores of that queue, shared by all processes that opened it, that exactly one unit '
                           'is taken or given back, and the deadline of the lock, are discharged on the real MessageQueue and Semaphore over the POSIX contracts (unit posix).')
CHECKS['C04']['runs'] = CHECKS['C04']['runs'] + SYNC[2:]

NOTAPP = {
    'C23': 'liveness under a peer that stops: the code blocks in future.get() with no deadline, a progress property that no pre/postcondition of one function expresses',
    'C24': 'data races over all interleavings: the registry is unsynchronised by design of the interface (bind before init); contracts on sequential code cannot express absence of races',
    'C25': 'crash at an arbitrary instruction while holding a POSIX semaphore: no contract on the code that runs can recover it; the mechanism (an ownerless semaphore) cannot satisfy it',
    'C26': 'probabilistic property of an unseeded rand(): not expressible as a contract over one execution',
}
