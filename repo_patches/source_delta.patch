From 2d7d6e671515c16c5dcbad8f02abe399450fa48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 01/11] fix: IndexSet::indicesDo terminates when the last range
 ends at UINTMAX_MAX

---
 src/IndexSet.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/IndexSet.cpp b/src/IndexSet.cpp
index 07a87cc..0c42f92 100644
--- a/src/IndexSet.cpp
+++ b/src/IndexSet.cpp
@@ -152,12 +152,13 @@ bool IndexSet::extentsDo(const std::function<bool(uintmax_t fromIndex, uintmax_t
 bool IndexSet::indicesDo(const std::function<bool(uintmax_t eachIndex)> &each_f) const
 {
 	return extentsDo([&] (uintmax_t fromIndex, uintmax_t toIndex) {
-		for(uintmax_t eachIndex = fromIndex; eachIndex <= toIndex; eachIndex++)
+		for(uintmax_t eachIndex = fromIndex; ; eachIndex++)
 		{
 			if(not each_f(eachIndex))
 				return false;
+			if(eachIndex == toIndex)
+				return true; // toIndex can be UINTMAX_MAX
 		}
-		return true;
 	});
 }
 
-- 
2.43.0


From 5dc2be059a7479bd680e3cea7671e4543d68de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 02/11] fix: IndexSet::remove of a set from itself doesn't
 iterate over erased ranges

---
 src/IndexSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/IndexSet.cpp b/src/IndexSet.cpp
index 0c42f92..19ec4a0 100644
--- a/src/IndexSet.cpp
+++ b/src/IndexSet.cpp
@@ -269,6 +269,9 @@ void IndexSet::remove(uintmax_t anIndex)
 
 void IndexSet::remove(const IndexSet& other)
 {
+	if(&other == this)
+		return clear();
+
 	other.extentsDo([&] (uintmax_t fromIndex, uintmax_t toIndex) { remove(fromIndex, toIndex); return true; });
 }
 
-- 
2.43.0


From a7329d85124c6ec293756cd1fd0ed6647f3d01fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:41 +0000
Subject: [PATCH 03/11] fix: ReorderBuffer initializes m_highestSeen, flush()
 used an indeterminate sequence number

---
 src/ReorderBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 591f309..9e79aa5 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -21,7 +21,8 @@ ReorderBuffer::Message::Message(const uint8_t *payload, size_t len, uintmax_t se
 
 ReorderBuffer::ReorderBuffer(Duration windowPeriod) :
 	m_csn(0),
-	m_deliveredThrough(0)
+	m_deliveredThrough(0),
+	m_highestSeen(0)
 {
 	m_reorderPeriod = std::max(windowPeriod, Duration(0));
 }
-- 
2.43.0


From bb8c6554a22a986cb1ea29ebf9885e7ef41bc600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:41 +0000
Subject: [PATCH 04/11] fix: FlowSyncManager doesn't sign-extend flow counts
 with the high bit set

---
 src/FlowSyncManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FlowSyncManager.cpp b/src/FlowSyncManager.cpp
index 0d8c2e0..4e49699 100644
--- a/src/FlowSyncManager.cpp
+++ b/src/FlowSyncManager.cpp
@@ -89,8 +89,8 @@ size_t FlowSyncManager::parseUserCommandPayload(const uint8_t *payload, const ui
 	if((limit - payload) < 8)
 		return 0;
 
-	syncID = (payload[0] << 24) | (payload[1] << 16) | (payload[2] << 8) | payload[3];
-	count = (payload[4] << 24) | (payload[5] << 16) | (payload[6] << 8) | payload[7];
+	syncID = (uint32_t(payload[0]) << 24) | (payload[1] << 16) | (payload[2] << 8) | payload[3];
+	count = (uint32_t(payload[4]) << 24) | (payload[5] << 16) | (payload[6] << 8) | payload[7];
 
 	return 8;
 }
-- 
2.43.0


From a2abbbbb90537777f9304f67373993c4bee77dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 05/11] fix: ReorderBuffer dequeues a message before delivering
 it, onMessage may close() or insert()

---
 src/ReorderBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 9e79aa5..ef490e8 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -130,9 +130,9 @@ void ReorderBuffer::tryDeliver()
 		auto it = m_messagesBySequence.begin();
 		if(shouldDeliverNow(it->first))
 		{
-			auto &message_ptr = it->second;
+			auto message_ptr = it->second;
+			m_messagesBySequence.erase(it); // before delivering, onMessage might close() or insert()
 			deliverMessage(message_ptr->m_payload.data(), message_ptr->m_payload.size(), message_ptr->m_sequenceNumber, message_ptr->m_fragmentCount);
-			m_messagesBySequence.erase(it);
 		}
 		else
 			break;
-- 
2.43.0


From 8dc06e72288cc62372cdc63c46214518bbc0186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:25 +0000
Subject: [PATCH 06/11] fix: RecvFlow doesn't chain fragments across message
 boundaries, a stale segment start could escape the receive buffer

---
 src/RecvFlow.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index db091f0..4a4db38 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -299,14 +299,18 @@ long RecvFlow::insertFragment(uintmax_t sequenceNumber, uint8_t flags, const uin
 	if((USERDATA_FRA_BEGIN != fra) and ((prevName = m_recv_buffer.prev(name)) > 0))
 	{
 		auto prevFragment = m_recv_buffer.at(prevName);
-		if(prevFragment->m_sequence_number == sequenceNumber - 1)
+		if(  (prevFragment->m_sequence_number == sequenceNumber - 1)
+		 and ((USERDATA_FRA_BEGIN == prevFragment->m_fra) or (USERDATA_FRA_MIDDLE == prevFragment->m_fra))
+		)
 			fragment->m_segmentStart = prevFragment->m_segmentStart;
 	}
 
 	if((USERDATA_FRA_END != fra) and ((nextName = m_recv_buffer.next(name)) > 0))
 	{
 		auto nextFragment = m_recv_buffer.at(nextName);
-		if(nextFragment->m_sequence_number == sequenceNumber + 1)
+		if(  (nextFragment->m_sequence_number == sequenceNumber + 1)
+		 and ((USERDATA_FRA_MIDDLE == nextFragment->m_fra) or (USERDATA_FRA_END == nextFragment->m_fra))
+		)
 			fragment->m_segmentEnd = nextFragment->m_segmentEnd;
 	}
 
-- 
2.43.0


From 1a80d39b2c3647ef5bf4e9a0601d807e25c0a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:28 +0000
Subject: [PATCH 07/11] fix: RecvFlow window rounding doesn't overflow for a
 huge buffer capacity

---
 src/RecvFlow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index 4a4db38..a01b9e8 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -440,7 +440,7 @@ bool RecvFlow::assembleAck(PacketAssembler *packet, bool truncateAllowed, bool s
 		advertise_bytes = 0;
 	else
 		advertise_bytes = std::min(m_buffer_capacity - buffered_size, m_window_limit);
-	size_t advertise_blocks = (advertise_bytes + 1023) / 1024;
+	size_t advertise_blocks = advertise_bytes / 1024 + ((advertise_bytes % 1024) ? 1 : 0);
 
 	if((0 == advertise_blocks) and (m_buffer_capacity > 0) and (m_window_limit > 0) and (RO_HOLD != m_rxOrder))
 		advertise_blocks = 1;
-- 
2.43.0


From a3359e587c5e432b4c0d2a81f823caf59d2aa4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:00 +0000
Subject: [PATCH 08/11] fix: SendFlow survives finished callbacks that write,
 close the flow or close the session

---
 src/SendFlow.cpp | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index cbc86aa..92a1987 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -341,19 +341,23 @@ bool SendFlow::isMaybeReadyForTransmission()
 
 void SendFlow::trimSendQueue(Time now)
 {
+	// finished callbacks can write to or close this flow or close the session, which can
+	// change the send queue, so hold each fragment instead of referring into the queue.
+	auto myself = share_ref(this);
 	bool anyTrimmed = false;
 	while(true)
 	{
 		if(m_send_queue.size() < 2)
 			break;
-		auto &first = m_send_queue.firstValue();
+		long name = m_send_queue.first();
+		auto first = m_send_queue.firstValue();
 		if(first->m_in_flight)
 			break;
 		first->m_receipt->abandonIfNeeded(now);
-		if(not first->m_receipt->isAbandoned())
+		if((not first->m_receipt->isAbandoned()) or not m_send_queue.has(name))
 			break;
+		m_send_queue.remove(name);
 		first->m_receipt->useCountDown();
-		m_send_queue.removeFirst();
 		anyTrimmed = true;
 	}
 
@@ -376,7 +380,7 @@ void SendFlow::scheduleTrimSendQueue()
 
 uintmax_t SendFlow::findForwardSequenceNumber(Time now)
 {
-	auto &first = m_send_queue.firstValue();
+	auto first = m_send_queue.firstValue();
 
 	if(not first->m_in_flight)
 		first->m_receipt->abandonIfNeeded(now);
@@ -396,8 +400,11 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 	if(not isMaybeReadyForTransmission())
 		return false;
 
+	auto myself = share_ref(this);
 	Time now = m_rtmfp->getCurrentTime();
 	trimSendQueue(now);
+	if(m_send_queue.empty())
+		return false; // closed in a finished callback
 	uintmax_t fsn = findForwardSequenceNumber(now);
 	bool firstChunk = true;
 	uintmax_t previousSN = 0;
@@ -428,7 +435,7 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(m_outstanding_bytes >= m_rx_buffer_size)
 			break;
 
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name);
 		if(frag->m_in_flight)
 			continue;
 
@@ -437,6 +444,8 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(frag->m_ever_sent and not frag->m_receipt->retransmit)
 			frag->m_receipt->abandon();
 		frag->m_receipt->abandonIfNeeded(now);
+		if(not m_send_queue.has(name))
+			break; // closed in a finished callback
 		uint8_t flag_abn = frag->m_receipt->isAbandoned() ? USERDATA_FLAG_ABN : 0;
 
 		// departure from §3.6.2.3: we send a fragment even if abandoned (though with
@@ -498,7 +507,7 @@ overrun:
 		break;
 	}
 
-	if(not firstChunk)
+	if(m_session and not firstChunk)
 	{
 		if(m_priority > PRI_ROUTINE)
 			packet->setTimeCriticalFlag();
@@ -513,15 +522,13 @@ overrun:
 
 void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 {
-	while(name > 0)
+	while((name > 0) and m_send_queue.has(name)) // can be closed in a finished callback
 	{
-		long next = m_send_queue.next(name);
-
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name);
 
 		if(frag->m_sequence_number < ackFrom)
 		{
-			name = next;
+			name = m_send_queue.next(name);
 			continue;
 		}
 
@@ -536,11 +543,11 @@ void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 			m_outstanding_bytes -= frag->m_transmit_size;
 		}
 
-		frag->m_receipt->useCountDown();
-
+		long next = m_send_queue.next(name);
 		m_send_queue.remove(name);
-
 		name = next;
+
+		frag->m_receipt->useCountDown();
 	}
 }
 
@@ -555,6 +562,7 @@ void SendFlow::onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t c
 		m_tmp_association.reset();
 	}
 
+	auto hold = share_ref(this); // can be closed in a finished callback
 	m_rx_buffer_size = bufferBytesAvailable;
 
 	if(0 == m_rx_buffer_size)
@@ -624,7 +632,7 @@ void SendFlow::onExceptionReport(uintmax_t exceptionCode)
 	if(exception_f)
 		exception_f(exceptionCode);
 
-	m_send_queue.valuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
+	m_send_queue.safeValuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
 
 	release();
 }
-- 
2.43.0


From 2a7955536bc0f576e65e2c173ef4dba9af38e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:30 +0000
Subject: [PATCH 09/11] fix: Interface::onWritable could go idle with work
 scheduled from a user callback still waiting

---
 src/Interface.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/Interface.cpp b/src/Interface.cpp
index 4e7864a..c6b55dd 100644
--- a/src/Interface.cpp
+++ b/src/Interface.cpp
@@ -15,21 +15,26 @@ Interface::Interface(int interfaceID, RTMFP *rtmfp) :
 
 bool Interface::onWritable()
 {
-	for(int pri = PRI_HIGHEST; pri >= PRI_LOWEST; pri--)
+	int pri = PRI_HIGHEST;
+	while(pri >= PRI_LOWEST)
 	{
-		long name;
 		auto &q = m_sessions[pri];
+		long name = q.first();
 
-		while((name = q.first()))
+		if(not name)
 		{
-			if(q.at(name)->onInterfaceWritable(m_id, pri))
-			{
-				q.moveNameToTail(name);
-				return true;
-			}
+			pri--;
+			continue;
+		}
 
-			q.remove(name);
+		if(q.at(name)->onInterfaceWritable(m_id, pri))
+		{
+			q.moveNameToTail(name);
+			return true;
 		}
+
+		q.remove(name);
+		pri = PRI_HIGHEST; // more work could have been scheduled in a user callback
 	}
 
 	m_writeScheduled = false;
-- 
2.43.0


From 077fd36f58091f6dfc2a23e3e59088259b8d5b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:36 +0000
Subject: [PATCH 10/11] fix: SendFlow::onSessionDidClose survives an exception
 callback that drops the last reference to the flow

---
 src/SendFlow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 92a1987..9b51e26 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -303,6 +303,7 @@ void SendFlow::onSessionDidClose(std::shared_ptr<Session> session)
 {
 	if((m_session == session) or ((not m_session) and (m_openingSession == session)))
 	{
+		auto myself = share_ref(this); // closing might release the last reference to me
 		onExceptionReport(0);
 		m_send_queue.clear();
 	}
-- 
2.43.0


From ccc1696a8581ce208cb374e14dcadd750f880bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:48 +0000
Subject: [PATCH 11/11] fix: a repeated responder keying component replaced the
 established session keys with keys of an empty shared secret

---
 src/FlashCryptoAdapter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FlashCryptoAdapter.cpp b/src/FlashCryptoAdapter.cpp
index 4dae557..9d64c77 100644
--- a/src/FlashCryptoAdapter.cpp
+++ b/src/FlashCryptoAdapter.cpp
@@ -734,6 +734,9 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 {
 	const uint8_t *componentLimit = responderComponent + len;
 
+	if(m_complete)
+		return false; // the shared secret is gone; keep the established keys
+
 	// try to fail on cheaper stuff first
 
 	uint8_t sseqFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_SSEQ_NEGOTIATION);
-- 
2.43.0

