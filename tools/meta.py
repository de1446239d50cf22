#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []  # (id, title, statement, over, qtext, why, files, mechanisms, status) ; status = ('claim', level, note) or ('na', reason)
def prop(id, title, statement, over, qtext, why, files, mech, status): P.append((id, title, statement, over.split(), qtext, why, files, mech, status))

prop('P01', 'Integer and option encoding is lossless, bounded and canonical',
 'Encoding any 64-bit integer and decoding it yields the same integer and consumes exactly the bytes written; decoding arbitrary bytes never reads outside the given range and rejects, rather than misreads, truncated or overlong input. Length-prefixed fields and options (type, value, end marker) parse back to exactly what was written, and a parse never reports a field that extends past the buffer.',
 'inputs', 'every 64-bit value; every byte string of every length as parser input', 'The test encodes a handful of values; the 2^64 value space and arbitrary hostile input are not reachable by sampling.',
 ['src/VLU.cpp', 'src/Option.cpp', 'src/Hex.cpp', 'include/rtmfp/VLU.hpp', 'include/rtmfp/Option.hpp'], ['VLU::parse', 'VLU::append', 'VLU::parseField', 'Option::parse', 'Option::append'],
 ('claim', 'proof', 'all inputs; the decoder loop is unrolled to its code-imposed maximum (the length is data-independent-bounded by the 64-bit shift check), no bound of ours'))
prop('P02', 'Packets are assembled within their size limit with exact chunk framing',
 'Whatever sequence of pushes, chunk starts, commits and rollbacks is issued, the assembler never writes outside its buffer, never exceeds the configured packet size, reports exactly the remaining room, and a refused push leaves the packet unchanged. Each committed chunk carries its exact length, and a rollback restores the packet to the last committed state.',
 'inputs histories', 'every assembler state, every push size, every mark/commit position', 'No test exercises the packet assembler at all; limits are hit only at particular fill levels.',
 ['src/PacketAssembler.cpp'], ['PacketAssembler::push', 'PacketAssembler::startChunk', 'PacketAssembler::commitChunk', 'PacketAssembler::rollback'],
 ('claim', 'proof', 'every public function is verified from an arbitrary assembler state satisfying the representation invariant'))
prop('P03', 'Socket addresses convert and compare faithfully',
 'Converting an address to its wire encoding and back yields an equal address (host, port, family and origin), and decoding arbitrary bytes never reads past the end and accepts only complete encodings. Two addresses compare equal exactly when family, host and port agree, ordering is a strict total order consistent with equality, and host/port edits change nothing else.',
 'inputs', 'every IPv4/IPv6 address and port, every byte string up to the encoding size', 'The test checks a few literal addresses; the property is over the whole address space and hostile bytes.',
 ['src/Address.cpp', 'include/rtmfp/Address.hpp'], ['Address::encode', 'Address::setFromEncoding', 'Address::operator==', 'Address::operator<', 'Address::setPort'],
 ('claim', 'proof', 'all inputs: every family, host, port and origin, every byte string'))
prop('P04', 'Range sets behave exactly as mathematical sets of integers',
 'After any sequence of insertions and removals of 64-bit indices, ranges and whole sets, membership, count, iteration and the lowest range reflect exactly the set of integers so specified, including at the ends of the 64-bit range. The stored ranges stay sorted, non-empty, disjoint and non-adjacent.',
 'inputs histories', 'every reachable set, every 64-bit index and range', 'Not covered by tests directly; wrong answers need particular adjacency or boundary patterns.',
 ['src/IndexSet.cpp', 'include/rtmfp/IndexSet.hpp'], ['IndexSet::add', 'IndexSet::remove', 'IndexSet::contains', 'IndexSet::indicesDo'],
 ('claim', 'other', 'range arithmetic proved for all inputs; the list-walking operations are verified for all index values over every set of up to 3 (thorough: 4) ranges - bounded in the number of ranges'))
prop('P05', 'Lists keep order, links, names and sums consistent under every operation',
 'Inserting, moving or removing an element anywhere changes only that element\'s position: every other element keeps its value, name and relative order in both directions, and a name stays valid until its element is removed. Size, membership queries and, for summing lists, the running sum always agree with the contents, and out-of-range names are reported rather than dereferenced.',
 'inputs histories', 'every list content, length and free-list state, every position', 'The test walks a few literal sequences; link corruption needs particular neighbours and free-list states.',
 ['include/rtmfp/List.hpp'], ['List::addAfter', 'List::remove', 'List::moveNameToTail', 'List::moveNameToHead', 'SumList'],
 ('claim', 'proof', 'unbounded: every operation from an arbitrary well-formed list (arbitrary length, ghost position tables); storage growth and multi-step sequences additionally checked with stated bounds (growth n=16)'))
prop('P06', 'Reference counting neither leaks nor frees early',
 'An object handed out by reference lives exactly as long as some holder exists: retaining and releasing, copying, moving, assigning and swapping handles, and conversion to and from shared pointers keep the count equal to the number of holders. The object is destroyed exactly once, when the last holder goes away.',
 'histories', 'every count value, every handle operation, self-assignment and aliasing included', 'The tests follow one straight-line scenario; early free or leak appears only under particular aliasing.',
 ['src/Object.cpp', 'include/rtmfp/Object.hpp', 'include/rtmfp/Retainer.hpp'], ['Object::retain', 'Object::release', 'Retainer', 'share_ref'],
 ('claim', 'proof', 'unbounded over count values; every handle operation under contract'))
prop('P07', 'Received messages are delivered intact, once and in order',
 'Whatever order, duplication or loss pattern fragments of a flow arrive in, every message delivered to the user is the exact concatenation of its sender\'s fragments, delivered at most once, and in original-order mode in non-decreasing sender order. A message missing any fragment is never delivered, and gaps left by abandoned messages are skipped only when the sender says so.',
 'inputs histories fault_sequences', 'every arrival order, duplication and loss pattern of fragments', 'No test reaches the receiving side of the protocol.',
 ['src/RecvFlow.cpp', 'include/rtmfp/rtmfp.hpp'], ['RecvFlow::onData', 'RecvFlow::insertFragment', 'RecvFlow::tryDeliver', 'RecvFlow::deliverInOriginalOrder'],
 ('claim', 'other', 'bounded histories: every arrival of up to 4 (thorough: 5) packets over 4 sequence numbers with every fragment marking, duplication, loss and forward sequence number; network histories, user callbacks that close or change the flow from within a delivery included'))
prop('P08', 'Acknowledgements report exactly what was received and a true window',
 'An acknowledgement never claims a sequence number that was not received or told to be skipped, covers everything received as far as it fits, and never exceeds the space allowed. The advertised window reflects the receive buffer limit less what is held, rounded up to a whole block, and is zero when nothing is free.',
 'inputs histories', 'every set of received sequence numbers, every packet space', 'No test builds acknowledgements.',
 ['src/RecvFlow.cpp'], ['RecvFlow::assembleAck', 'RecvFlow::onData'],
 ('claim', 'other', 'the advertised window is proved for all buffer states; acknowledged ranges are verified for all sequence numbers over up to 3 extra ranges and every packet space (bounded in the number of ranges)'))
prop('P09', 'Messages are fragmented completely, in order, with fresh sequence numbers',
 'Writing a message queues fragments whose concatenation is exactly the message, with first/middle/last marks that match their position and no fragment larger than the path allows. Sequence numbers are assigned consecutively, never reused, in the order of transmission, and a fragment placed in a packet is encoded exactly.',
 'inputs histories', 'every message length and content, every packet space', 'No test exercises the sending side of the protocol.',
 ['src/SendFlow.cpp'], ['SendFlow::write', 'SendFlow::assembleData'],
 ('claim', 'other', 'fragmentation verified for messages of every length up to 3 (thorough: 6) full fragments with symbolic content; packet placement verified for every queue of up to 2 (thorough: 3) fragments, state, gap, window and a set of packet rooms, by parsing the packet back'))
prop('P10', 'Outstanding data is accounted exactly and loss is declared correctly',
 'Bytes counted as outstanding always equal the bytes of fragments in flight, an acknowledged fragment is never sent again and its message is credited exactly once, and only fragments overtaken by enough later acknowledged ones (or timed out) are declared lost and queued for retransmission.',
 'inputs histories fault_sequences', 'every acknowledgement content and order against every send-queue state', 'No test delivers acknowledgements to a sending flow.',
 ['src/SendFlow.cpp', 'src/Session.cpp'], ['SendFlow::onAck', 'SendFlow::ackRange', 'SendFlow::onLoss'],
 ('claim', 'other', 'acknowledgement, loss and timeout handling verified for every queue of up to 3 fragments in any transmission order with arbitrary sequence numbers, sizes, NAK counts and acknowledged ranges (bounded in the number of fragments and ranges)'))
prop('P11', 'Abandoned messages are forgotten consistently and flows finish cleanly',
 'Once a message is abandoned none of its data is transmitted any more (only an empty fragment marked abandoned), and the forward sequence number told to the receiver never passes a fragment still to be delivered. A closed flow transmits a final mark on its last fragment and completes only when that has been acknowledged or the session ended; a rejected flow reports its exception once and abandons every message.',
 'inputs histories', 'every queue state and abandonment pattern', 'No test exercises abandonment in the protocol.',
 ['src/SendFlow.cpp'], ['SendFlow::trimSendQueue', 'SendFlow::close', 'SendFlow::assembleData'],
 ('claim', 'other', 'verified for every queue of up to 3 fragments, receipt state, and close, exception, acknowledgement and session-end order (bounded in the number of fragments); callbacks that write, close the flow or close the session included'))
prop('P12', 'Write receipts report each outcome exactly once and truthfully',
 'A receipt\'s finished callback runs exactly once: as delivered when the last fragment is acknowledged, or as abandoned when it is abandoned before that, and neither state ever changes afterwards. Deadlines and dependency on an earlier receipt cause abandonment exactly when they are passed, and a chain can only shorten deadlines.',
 'inputs histories', 'every use count, deadline, clock value and operation order', 'No test covers receipts; the callback-once rule is over arbitrary histories.',
 ['src/WriteReceipt.cpp', 'include/rtmfp/WriteReceipt.hpp'], ['WriteReceipt::abandon', 'IssuerWriteReceipt::abandonIfNeeded', 'IssuerWriteReceipt::useCountDown', 'WriteReceiptChain::append'],
 ('claim', 'proof', 'each receipt operation verified from an arbitrary receipt state; chains bounded to 3 receipts'))
prop('P13', 'Hostile packets are parsed safely',
 'Any byte string presented as a decrypted packet is parsed without reading outside it, and truncated or malformed chunks are ignored without affecting state. Chunks are only acted on when their fields are completely present.',
 'inputs', 'every packet content and length', 'No test feeds packets to the protocol core.',
 ['src/Session.cpp', 'src/VLU.cpp', 'src/RTMFP.cpp'], ['ISession::onReceivePacket', 'StartupSession::onIIKeyingChunk', 'Session::onUserDataChunk', 'Session::onUserData', 'Session::onAckChunk', 'Session::onFIHelloChunk', 'Session::onPingChunk'],
 ('claim', 'proof', 'packet framing and every chunk parser for chunks of every length and content (numbers by the contract of VLU::parse, which P01 proves); option lists and redirect address lists are bounded in their number of entries'))
prop('P14', 'Session states only move forward and closing is orderly',
 'A session moves only along opening, open, near- or far-close, linger and closed, never back; user-visible close is reported once and every flow is told. Chunks are accepted only in the states that permit them.',
 'inputs histories', 'every state and every event', 'No test runs a session.',
 ['src/Session.cpp', 'src/SendFlow.cpp', 'src/RecvFlow.cpp'], ['Session::close', 'Session::abort', 'Session::abortFlowsAndTimers', 'Session::onCloseChunk', 'Session::onCloseAckChunk', 'Session::setNearclose', 'Session::onKeepaliveAlarm', 'Session::onIdleAlarm'],
 ('claim', 'other', 'every state and event, each with up to one flow in each direction and callbacks that drop, close or end the session (bounded in flows); histories of up to 3 events; alarms proved for all times and limits'))
prop('P15', 'Congestion window stays within its limits and reacts to loss',
 'The congestion window never falls below its minimum nor grows while not being used, loss or a timeout reduces it as specified, and nothing beyond the window is transmitted except what the rules for time-critical data allow.',
 'inputs histories', 'every window, outstanding count and event order', 'No test runs congestion control.',
 ['src/Session.cpp'], ['Session::updateCWND', 'Session::onTimeoutAlarm', 'Session::scheduleBurstAlarm', 'Session::onInterfaceWritable', 'Session::onEcnReportChunk'],
 ('claim', 'proof', 'window update, timeout, pacing and ECN reaction from an arbitrary congestion state; growth per acknowledgement and the transmission gate are bounded (sampled windows, up to 2 flows)'))
prop('P16', 'Round-trip estimation and timeouts stay sane',
 'Round-trip estimates are updated only from genuine echoes, smoothed as specified, and the retransmission timeout is never below its minimum and equals the specified function of the estimates, whatever timestamps the peer sends.',
 'inputs histories', 'every timestamp and echo value', 'No test reaches timestamp handling.',
 ['src/Session.cpp', 'src/RTMFP.cpp'], ['Session::onPacketHeader', 'Session::onTimeoutAlarm', 'Session::rescheduleTimeoutAlarm', 'Session::getTimestampEcho', 'Session::checkBaseRTT'],
 ('claim', 'proof', 'packet headers, timeouts and timestamps from an arbitrary state; the base round-trip history is bounded in length, echo holding times are sampled in whole ticks and arbitrary within a tick'))
prop('P17', 'A session moves to a new address only after a verified probe',
 'A packet from a different address never redirects a session by itself: the far end must return the exact unexpired challenge from that address first, and a failed or stale reply leaves the address unchanged.',
 'inputs histories', 'every packet source and ping reply content', 'No test covers mobility.',
 ['src/Session.cpp', 'src/RTMFP.cpp'], ['Session::onPingReplyChunk', 'Session::onMobilityCheckReply', 'Session::makeMobilityCheck', 'Session::onPacketAfterChunks', 'RTMFP::onSessionAddressDidChange'],
 ('claim', 'other', 'challenge content, probing and all other chunks for all inputs; ping replies for all contents at sampled time-encoding lengths and reply lengths (bounded); the hash is an arbitrary function recorded by the harness'))
prop('P18', 'Handshake accepts only authentic, fresh cookies and consistent peers',
 'A responder commits state only for an initiator whose cookie it issued itself to that address within the cookie lifetime and whose certificate is authentic and signature verifies. An initiator proceeds only with a responder that matches what it asked for, a repeated request gets the same answer, and simultaneous opening ends with one session.',
 'inputs histories', 'every handshake chunk content, every cookie byte string', 'No test runs a handshake.',
 ['src/RTMFP.cpp', 'src/Session.cpp'], ['RTMFP::onIIKeying', 'RTMFP::checkCookie', 'RTMFP::makeCookie', 'RTMFP::onIHello', 'Session::onRHello', 'Session::onCookieChange', 'Session::onRIKeying'],
 ('claim', 'other', 'each handshake step for every outcome of every check, every existing and competing session of the peer, and any address, tag, session ID and cookie time; forged cookie contents are arbitrary at sampled lengths (bounded); the crypto adapter is a contract'))
prop('P20', 'Encrypted packets are authenticated and never replayed',
 'A packet is accepted exactly when its length, its authentication tag (or checksum) and its sequence number are right under the session keys; tampered, truncated or oversized packets are rejected, without leaving a trace and without reading or writing out of bounds. No sequence number is accepted twice and none is reused when sending. Keying gives both ends the same options and keys, only when what either end requires is offered, and established keys are never replaced.',
 'inputs histories', 'every packet content, length and receive history; every option combination', 'No test exercises the crypto adapter.',
 ['src/FlashCryptoAdapter.cpp', 'src/PlainCryptoAdapter.cpp'], ['FlashCryptoKey::decrypt', 'FlashCryptoKey::encrypt', 'FlashCryptoKey::initiatorCombineResponderKeyingComponent', 'FlashCryptoKey::generateResponderKeyingComponent', 'FlashCryptoKey::computeKeysAndNonces'],
 ('claim', 'other', 'one packet sealed or opened is proved for every length, content, buffer size and outcome of the primitives (checksum, number encoding and number history by their contracts, proved for P01, P04 and P28); histories of 3 packets with arbitrary numbers, and keying over combinations of options, key kinds and groups, are bounded; AES, HMAC, SHA-256 and Diffie-Hellman are contracts'))
prop('P21', 'Certificates and endpoint selectors are matched strictly',
 'A certificate is identified by its canonical bytes and uses only groups and keys within them, malformed ones are refused, and an endpoint selector selects a certificate exactly when each host name and ancillary part in it matches, a fingerprint deciding alone. Reading a selector or certificate never leaves its bytes. When both ends open at once exactly one wins, unless they hold the same certificate.',
 'inputs', 'every certificate and selector byte string', 'No test exercises certificate parsing.',
 ['src/FlashCryptoAdapter.cpp'], ['FlashCryptoCert::init', 'FlashCryptoCert::isSelectedByEPD', 'FlashCryptoAdapter::isSelectedByEPD', 'FlashCryptoAdapter::EPDParseState::parse', 'FlashCryptoAdapter::checkNearWinsGlare'],
 ('claim', 'other', 'searching an option list is proved safe for lists of any length; the meaning of certificates and selectors is verified for lists of up to 3 options of every kind with arbitrary keys (bounded), and SHA-256 is a contract'))
prop('P22', 'Timers fire exactly when due, in order, and never after cancellation',
 'A timer fires once for each due time at or before the current time, in time order, never before it is due and never after being canceled, even when canceled or rescheduled from another timer\'s action or its own. A recurring timer is rescheduled strictly later, skipping missed periods when so configured, and the reported sleep time is the time to the earliest pending timer.',
 'inputs schedules histories', 'every set of fire times, clock value, and action that cancels or reschedules', 'Tests run a few timers on the wall clock; interactions from within actions and missed periods are not covered.',
 ['src/Timer.cpp', 'include/rtmfp/Timer.hpp'], ['TimerList::fireDueTimers', 'Timer::basicFire', 'Timer::setNextFireTime', 'Timer::cancel'],
 ('claim', 'other', 'one firing of a recurring timer is proved for all times and intervals; list-level behaviour is verified for all times over up to 3 timers (bounded in the number of timers); times are exact reals'))
prop('P23', 'The reorder buffer delivers each message once and never stalls',
 'Every message inserted is delivered at most once, unchanged, and in sequence order unless reported late; a message is reported late exactly when something newer was already delivered. Nothing that can be delivered stays queued, a flush empties the buffer, and closing from a delivery callback is safe.',
 'inputs histories schedules', 'every arrival order, clock value and timeout', 'The test runs fixed arrival orders.',
 ['src/ReorderBuffer.cpp', 'include/rtmfp/ReorderBuffer.hpp'], ['ReorderBuffer::insert', 'ReorderBuffer::flush'],
 ('claim', 'other', 'the delivery step is verified from arbitrary buffer state; histories of operations over arbitrary sequence numbers, clocks and timeouts are bounded in length (stated in the evidence)'))
prop('P24', 'AMF0 values survive encoding and hostile input is rejected safely',
 'Encoding a value whose nesting is within the supported limit and decoding the result yields an equal value and consumes exactly its bytes (absent members become undefined); decoding arbitrary bytes never reads out of bounds, never recurses beyond the nesting limit, and either fails, leaving the cursor alone, or yields a complete value. Container edits keep keys unique and encodable and array indexing consistent; a lookup always yields a value.',
 'inputs', 'every value and every byte string', 'The test decodes fixed byte strings.',
 ['src/AMF.cpp', 'include/rtmfp/AMF.hpp'], ['AMF0::decode', 'AMF0Object::decode', 'AMF0String::encode'],
 ('claim', 'other', 'decoding of scalars and strings, memory safety of container bodies and removal from arrays are proved for input of any length and depth; container round trips (up to 3 members), every body of up to 7 bytes, nesting, and histories of 3 edits are bounded'))
prop('P25', 'TC message framing and classification are lossless and safe on any input',
 'Building a TC message header, stream metadata or command and parsing it gives back the same type, timestamp, stream, order, name, transaction and payload, and truncated input is rejected without reading past the end or setting anything. Timestamps compare modulo 2^32, and audio and video payload classification depends only on the leading bytes and never reads past the given length.',
 'inputs', 'every type, timestamp, payload length and byte string', 'The test checks literal messages.',
 ['src/TCMessage.cpp', 'include/rtmfp/TCMessage.hpp'], ['TCMessage::parseHeader', 'TCMessage::message', 'TCMessage::parseUserCommand'],
 ('claim', 'proof', 'headers, metadata, timestamps and audio/video payload classification are proved for all inputs of every length; command building is bounded in name and payload length'))
prop('P26', 'Flow synchronization releases all members together, once',
 'Flows sharing a synchronization point are held until the stated number has reached it and are then all released; a flow is never released early, never left held after the point completes, and different points do not affect each other.',
 'inputs histories schedules', 'every announced count, member order and unsync pattern', 'The test runs one scenario.',
 ['src/FlowSyncManager.cpp', 'include/rtmfp/FlowSyncManager.hpp'], ['FlowSyncManager::sync', 'FlowSyncManager::resetFlow'],
 ('claim', 'other', 'announcement encoding and parsing are verified for all counts and byte strings; synchronization of up to 3 (thorough: 4) flows with arbitrary counts and orders is bounded in the number of flows'))
prop('P27', 'Media headers are classified correctly for every input',
 'Codec, frame kind and sequence-header predicates depend only on the leading bytes, never read past the given length, and agree with the container specification for every header value.',
 'inputs', 'every byte string', 'The test checks a few headers.',
 ['src/Media.cpp', 'include/rtmfp/Media.hpp'], ['Media::isVideoKeyframe', 'Media::isVideoSequenceSpecial'],
 ('na', 'contracts not yet written'))
prop('P28', 'Hex and checksum utilities compute their definitions for all inputs',
 'Hex encoding followed by decoding is the identity for every byte string, and malformed or odd-length text is rejected. The Internet checksum and CRC equal their mathematical definitions for every length, can be computed in pieces, and never read outside the input.',
 'inputs', 'every byte string of every length', 'Tests compare a few known vectors.',
 ['src/Hex.cpp', 'src/Checksums.cpp'], ['Hex::encode', 'Hex::decode', 'in_cksum', 'crc32_be', 'crc32_le'],
 ('claim', 'proof', 'single-step and loop contracts unbounded; text round trips bounded in length as stated in the evidence'))
prop('P29', 'Measured rates follow the decaying-window definition',
 'A reported rate is never negative, equals the count over the window plus the undecayed part of the previous window, and decays to zero when nothing is counted for two windows. Updates from before the window are ignored and a window has a positive minimum length.',
 'inputs histories', 'every count, clock value and window length', 'The test runs one schedule.',
 ['src/RateTracker.cpp'], ['RateTracker::update', 'RateTracker::getRate'],
 ('claim', 'proof', 'every operation from an arbitrary tracker state; reals are exact'))
prop('P30', 'Transmission opportunities go to the highest-priority work',
 'Work waiting to transmit is served in priority order, first-come within a priority, none is lost or served twice per request, and the scheduler goes idle exactly when nothing is waiting.',
 'inputs histories', 'every set of waiting work and priorities', 'No test covers scheduling.',
 ['src/RTMFP.cpp', 'src/Interface.cpp'], ['RTMFP::scheduleWrite', 'Interface::onWritable', 'Interface::scheduleWrite'],
 ('claim', 'other', 'up to 3 pieces of work at arbitrary priorities, including work scheduled from within a transmission opportunity (bounded)'))
prop('P31', 'TC connections dispatch commands and media to the right stream safely',
 'Commands, media and data messages are delivered to the stream and transaction they name and to no other; malformed messages are ignored or close the connection without reading out of bounds. Each transaction gets at most one answer and connection close is reported once.',
 'inputs histories', 'every message byte string, every stream and transaction state', 'No test drives a TC connection.',
 ['src/TCConnection.cpp', 'src/RTMFPTCConnection.cpp'], ['TCConnection::onMessage', 'TCConnection::onCommandMessage'],
 ('na', 'contracts not yet written'))
prop('P32', 'Redirector client advertises and redirects faithfully',
 'The redirector client registers exactly the addresses configured, answers only genuine redirector messages, and recovers by reconnecting with the specified backoff after a disconnect.',
 'inputs histories fault_sequences', 'every event order', 'No test drives the redirector client.',
 ['src/RedirectorClient.cpp'], ['RedirectorClient::connect', 'RedirectorClient::onMessage'],
 ('na', 'contracts not yet written'))
prop('P33', 'URI helpers are total and round-trip percent encoding',
 'Percent-decoding inverts percent-encoding for every string, malformed escapes are passed through or rejected without reading out of bounds, and query and path splitting partition their input exactly.',
 'inputs', 'every string up to the stated length', 'The test checks literal URIs.',
 ['src/URIParse.cpp', 'include/rtmfp/URIParse.hpp'], ['URIParse::percentDecode', 'URIParse::safePercentDecode', 'URIParse::split'],
 ('claim', 'other', 'bounded in string length (stated in the evidence); regular-expression based splitting in the constructor is outside the verified text'))
prop('P34', 'Tasks handed between threads run exactly once, in order',
 'Every task handed to a performer before it is closed runs exactly once on the run loop thread in submission order, synchronous tasks return after running, and closing rejects later tasks without losing earlier ones.',
 'schedules', 'every interleaving of producers and the run loop', 'The test samples a few schedules.',
 ['src/Performer.cpp', 'src/RunLoop.cpp', 'src/PosixRunLoop.cpp'], ['Performer::perform', 'RunLoop::doLater'],
 ('na', 'irvc is a sequential deductive verifier: std::mutex, std::condition_variable and pipes are trusted primitives with no interleaving semantics, so no contract in reach can state or decide a property quantified over thread schedules'))

def main():
    ids = set()
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for (id, title, st, over, qt, why, files, mech, status) in P:
            assert id not in ids and len(title) <= 80, (id, len(title)); ids.add(id)
            f.write(json.dumps({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': [{'name': m, 'where': files[0]} for m in mech], 'hook_needed': None}}, ensure_ascii=False) + '\n')
    man = {'version': 1, 'setup_cmd': 'mkdir -p build evidence && make -s -j4 -C engine OUT=$PWD/build',
        'checks': [], 'not_applicable': [],
        'notes': 'All checks are contract harnesses (harness/*.cpp) that include the real sources of /repo, compiled to LLVM IR by clang on every run; irvc (engine/) generates verification conditions from the IR and discharges them with z3 and cvc5. Entries h_* are unbounded, entries b_* are bounded stand-ins, counted separately in the evidence.'}
    for (id, title, st, over, qt, why, files, mech, status) in P:
        if status[0] == 'claim':
            man['checks'].append({'property': id, 'quick_cmd': 'python3 run.py %s' % id, 'thorough_cmd': 'python3 run.py %s --tier thorough' % id,
                'technique': 'contract-based deductive verification of the compiled real code (irvc VCs, z3/cvc5)', 'level': status[1],
                'level_note': status[2] + '. Trusted: clang front end and LLVM scalar passes, irvc, z3/cvc5, the libstdc++ models listed in the evidence; floating point treated as exact reals; allocation succeeds; single thread; exceptions treated as failure.'})
        else:
            man['not_applicable'].append({'property': id, 'reason': status[1]})
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
if __name__ == '__main__': main()
