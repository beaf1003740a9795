From 0c20d79bcfe81e85da60409fefa3cded0457bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 001/130] fix: Keep track of previous entry after REPLACE in
 rrr_fifo_search_and_replace

When an entry was replaced, the previous pointer did not advance to it. If
the callback then asked for the next entry to be given away, the replaced
entry was unlinked as well and lost, or gptr_last was set to the wrong entry.
---
 src/lib/fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/fifo.c b/src/lib/fifo.c
index af9227b..d6212bd 100644
--- a/src/lib/fifo.c
+++ b/src/lib/fifo.c
@@ -545,6 +545,8 @@ int rrr_fifo_search_and_replace (
 
 				__rrr_fifo_entry_destroy(buffer, entry);
 				rrr_length_dec_bug (&buffer->entry_count);
+
+				entry = prev;
 			}
 			else {
 				if (entry->data == data) {
@@ -565,7 +567,6 @@ int rrr_fifo_search_and_replace (
 				rrr_length_dec_bug (&buffer->entry_count);
 			}
 
-			entry = prev;
 			did_something = 1;
 		}
 		if ((actions & RRR_FIFO_SEARCH_STOP) != 0) {
-- 
2.43.0


From 5ab24c56af0f94285207156e40ee40524c6a7c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 002/130] fix: Store the order of entries in
 rrr_fifo_protected_write

The order was never saved in the entry, hence ordered writes were always
placed as if all existing entries had order 0.
---
 src/lib/fifo_protected.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index f8c9c56..c09792c 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -422,6 +422,8 @@ static void __rrr_fifo_protected_write_update_pointers (
 ) {
 	struct rrr_fifo_protected_entry *pos = buffer->gptr_first;
 
+	entry->order = order;
+
 	if (pos == NULL) {
 		buffer->gptr_first = entry;
 		buffer->gptr_last = entry;
-- 
2.43.0


From ae7e9dfe75add54618362c6dfc4ac7d3d79e1f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 003/130] fix: Propagate callback error from
 rrr_fifo_protected_write_delayed

The error flag from the callback was cleared before returning, hence callers
were told that the write succeeded although nothing had been written.
---
 src/lib/fifo_protected.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index c09792c..3b5af30 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -935,6 +935,7 @@ int rrr_fifo_protected_write_delayed (
 				if ((ret &= ~RRR_FIFO_PROTECTED_GLOBAL_ERR) != 0) {
 					RRR_BUG("BUG: Callback returned GLOBAL_ERR along with return values %i in rrr_fifo_protected_delayed_write\n", ret);
 				}
+				ret = RRR_FIFO_PROTECTED_GLOBAL_ERR;
 				goto out;
 			}
 			else if ((ret & RRR_FIFO_PROTECTED_WRITE_DROP) == RRR_FIFO_PROTECTED_WRITE_DROP) {
-- 
2.43.0


From 76e760feb471592245aedfe2ccb86dd4cf05c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:46 +0000
Subject: [PATCH 004/130] Verification hook: allow smaller
 RRR_FIFO_PROTECTED_MAX_READS

---
 src/lib/fifo_protected.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/fifo_protected.h b/src/lib/fifo_protected.h
index e13feca..9afaf77 100644
--- a/src/lib/fifo_protected.h
+++ b/src/lib/fifo_protected.h
@@ -29,7 +29,11 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include "fifo_common.h"
 
 #define RRR_FIFO_PROTECTED_DEFAULT_RATELIMIT 100 // If this many entries has been inserted without a read, sleep a bit
+#ifdef RRR_VERIF_FIFO_PROTECTED_MAX_READS
+#define RRR_FIFO_PROTECTED_MAX_READS RRR_VERIF_FIFO_PROTECTED_MAX_READS // Verification only, makes the limit reachable with few entries
+#else
 #define RRR_FIFO_PROTECTED_MAX_READS 500 // Maximum number of reads per call to a read function
+#endif
 
 #define RRR_FIFO_PROTECTED_OK             RRR_FIFO_COMMON_OK
 #define RRR_FIFO_PROTECTED_GLOBAL_ERR     RRR_FIFO_COMMON_GLOBAL_ERR
-- 
2.43.0


From f544acc88fe12027ec2f37bba4b41d7add5981d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 005/130] fix: Do not put back foreign entries in
 rrr_fifo_protected_read_clear_forward

When the callback stops at the last of the entries taken and the maximum
number of reads had been reached, the next entry was never taken out of the
buffer. Putting it back caused it to be used after free if another reader
had read it in the meantime.
---
 src/lib/fifo_protected.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index 3b5af30..d825354 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -589,8 +589,8 @@ int rrr_fifo_protected_read_clear_forward (
 					pthread_cleanup_push(__rrr_fifo_protected_unlock_void, buffer);
 					struct rrr_fifo_protected_entry *new_first = next;
 
-					if (next == NULL) {
-						// We are done anyway
+					if (next == stop) {
+						// We are done anyway, the entry at the stop position (if any) is not ours
 					}
 					else {
 						last_element->next = buffer->gptr_first;
-- 
2.43.0


From d4b2f7f54f54afb6dcc9d213a53e3503df1ff0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 006/130] fix: take slot reference before the entry becomes
 visible to readers

rrr_msg_holder_slot_write_incref() increfed the entry after it had been
published. A reader could release the last reference in between.
---
 src/lib/message_holder/message_holder_slot.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index 62ac996..654f0e5 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -472,12 +472,15 @@ int rrr_msg_holder_slot_write_incref (
 ) {
 	int ret = 0;
 
+	// Incref must be done prior to the write. A reader may take and
+	// release the entry immediately when it is present in the slot.
+	rrr_msg_holder_incref(entry_new);
+
 	if ((ret = __rrr_msg_holder_slot_write(slot, entry_new, check_cancel_callback, check_cancel_callback_arg)) != 0) {
+		rrr_msg_holder_decref(entry_new);
 		goto out;
 	}
 
-	rrr_msg_holder_incref(entry_new);
-
 	out:
 	return ret;
 }
-- 
2.43.0


From 71065e7157c5e208a098b049fd87da648568758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 007/130] fix: remove entry from collection before publishing
 it in a slot

rrr_msg_holder_slot_write_from_collection() unlinked the entry after it
had been published, a reader could free it in between.
---
 src/lib/message_holder/message_holder_slot.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index 654f0e5..e747ecc 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -494,11 +494,12 @@ int rrr_msg_holder_slot_write_from_collection (
 	int ret = 0;
 
 	while (RRR_LL_COUNT(collection) > 0) {
-		struct rrr_msg_holder *entry = RRR_LL_FIRST(collection);
+		// The entry must be out of the list before a reader may use or free it
+		struct rrr_msg_holder *entry = RRR_LL_SHIFT(collection);
 		if ((ret = __rrr_msg_holder_slot_write (slot, entry, check_cancel_callback, check_cancel_callback_arg)) != 0) {
+			RRR_LL_UNSHIFT(collection, entry);
 			goto out;
 		}
-		(void)RRR_LL_SHIFT(collection);
 	}
 
 	out:
-- 
2.43.0


From c1c6e7b2ea37569a513fa7a6d927ac8775a31cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 008/130] fix: get unique ID while lock is held

The counter was read after the lock had been released, two threads could
get the same ID.
---
 src/lib/message_broker.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index 4943116..49ead8e 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -988,8 +988,7 @@ int __rrr_message_broker_get_next_unique_id_callback (
 		void *callback_arg_2
 ) {
 	uint64_t *unique_counter = callback_arg_1;
-
-	(void)(callback_arg_2);
+	uint64_t *result = callback_arg_2;
 
 	(*unique_counter)++;
 
@@ -997,6 +996,8 @@ int __rrr_message_broker_get_next_unique_id_callback (
 		*unique_counter = 1;
 	}
 
+	*result = *unique_counter;
+
 	return 0;
 }
 
@@ -1013,7 +1014,7 @@ int rrr_message_broker_get_next_unique_id (
 				costumer->slot,
 				__rrr_message_broker_get_next_unique_id_callback,
 				&costumer->unique_counter,
-				NULL
+				result
 		)) != 0) {
 			goto out;
 		}
@@ -1023,14 +1024,12 @@ int rrr_message_broker_get_next_unique_id (
 				&costumer->main_queue,
 				__rrr_message_broker_get_next_unique_id_callback,
 				&costumer->unique_counter,
-				NULL
+				result
 		)) != 0) {
 			goto out;
 		}
 	}
 
-	*result = costumer->unique_counter;
-
 	out:
 	return ret;
 }
-- 
2.43.0


From a9be69098030c3facade3445cc1c0bc552147e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 009/130] fix: notify reader for each entry when writing
 collection to slot

All entries of a collection were written to the slot prior to sending any
notification. As the slot has only one element, the writer would wait
forever for a reader which was never notified if there was more than one
entry in the collection. Errors were also overwritten.
---
 src/lib/message_broker.c                     | 44 ++++++++++++++++++--
 src/lib/message_holder/message_holder_slot.c |  9 +++-
 src/lib/message_holder/message_holder_slot.h |  4 +-
 3 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index 49ead8e..4477267 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -1299,6 +1299,23 @@ int __rrr_message_broker_write_entries_from_collection_callback (RRR_FIFO_PROTEC
 	return (RRR_LL_COUNT(collection) > 0 ? RRR_FIFO_PROTECTED_WRITE_AGAIN : RRR_FIFO_PROTECTED_OK);
 }
 
+struct rrr_message_broker_write_entries_from_collection_slot_callback_data {
+	struct rrr_message_broker_costumer *costumer;
+	int (*check_cancel_callback)(void *arg);
+	void *check_cancel_callback_arg;
+};
+
+static int __rrr_message_broker_write_entries_from_collection_slot_callback (void *arg) {
+	struct rrr_message_broker_write_entries_from_collection_slot_callback_data *callback_data = arg;
+
+	return __rrr_message_broker_write_notifications_send (
+			callback_data->costumer,
+			1,
+			callback_data->check_cancel_callback,
+			callback_data->check_cancel_callback_arg
+	);
+}
+
 // This function removes entries one by one from the given collection. All refcounts passed in
 // must equal exactly 1. If this function ails, entries might still reside inside the collection
 // which have not yet been added to the buffer. The caller owns these. Read about 'unsafe' above.
@@ -1329,10 +1346,31 @@ int rrr_message_broker_write_entries_from_collection_unsafe (
 	RRR_LL_ITERATE_END();
 
 	if (costumer->slot != NULL) {
-		ret = rrr_msg_holder_slot_write_from_collection(costumer->slot, collection, check_cancel_callback, check_cancel_callback_arg);
+		struct rrr_message_broker_write_entries_from_collection_slot_callback_data callback_data = {
+			costumer,
+			check_cancel_callback,
+			check_cancel_callback_arg
+		};
+
+		ret = rrr_msg_holder_slot_write_from_collection (
+				costumer->slot,
+				collection,
+				check_cancel_callback,
+				check_cancel_callback_arg,
+				__rrr_message_broker_write_entries_from_collection_slot_callback,
+				&callback_data
+		);
+		goto out;
 	}
-	else {
-		ret = rrr_fifo_protected_write(&costumer->main_queue, __rrr_message_broker_write_entries_from_collection_callback, collection);
+
+	if ((ret = rrr_fifo_protected_write (
+			&costumer->main_queue,
+			__rrr_message_broker_write_entries_from_collection_callback,
+			collection
+	)) != 0) {
+		RRR_MSG_0("Error while writing to buffer in %s\n", __func__);
+		ret = RRR_MESSAGE_BROKER_ERR;
+		goto out;
 	}
 
 	while (written_entries > 0) {
diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index e747ecc..2fb16a4 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -489,7 +489,9 @@ int rrr_msg_holder_slot_write_from_collection (
 		struct rrr_msg_holder_slot *slot,
 		struct rrr_msg_holder_collection *collection,
 		int (*check_cancel_callback)(void *arg),
-		void *check_cancel_callback_arg
+		void *check_cancel_callback_arg,
+		int (*after_write_callback)(void *arg),
+		void *after_write_callback_arg
 ) {
 	int ret = 0;
 
@@ -500,6 +502,11 @@ int rrr_msg_holder_slot_write_from_collection (
 			RRR_LL_UNSHIFT(collection, entry);
 			goto out;
 		}
+		// Next write will block until the reader has read, hence
+		// any notification must be sent for each entry.
+		if ((ret = after_write_callback(after_write_callback_arg)) != 0) {
+			goto out;
+		}
 	}
 
 	out:
diff --git a/src/lib/message_holder/message_holder_slot.h b/src/lib/message_holder/message_holder_slot.h
index cfa09b4..b156f36 100644
--- a/src/lib/message_holder/message_holder_slot.h
+++ b/src/lib/message_holder/message_holder_slot.h
@@ -87,7 +87,9 @@ int rrr_msg_holder_slot_write_from_collection (
 		struct rrr_msg_holder_slot *slot,
 		struct rrr_msg_holder_collection *collection,
 		int (*check_cancel_callback)(void *arg),
-		void *check_cancel_callback_arg
+		void *check_cancel_callback_arg,
+		int (*after_write_callback)(void *arg),
+		void *after_write_callback_arg
 );
 int rrr_msg_holder_slot_with_lock_do (
 		struct rrr_msg_holder_slot *slot,
-- 
2.43.0


From c58bcf497d931b60c87f1679aa9a4d5b2d893bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:04 +0000
Subject: [PATCH 010/130] fix: deliver deferred event amount after pause

An amount left by an event function is deferred and the event is
activated again. If the function was then paused, this activation was
deleted and the amount was not delivered until a new event was passed.
---
 src/lib/event/event.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/event/event.c b/src/lib/event/event.c
index f44b983..b19cb65 100644
--- a/src/lib/event/event.c
+++ b/src/lib/event/event.c
@@ -189,6 +189,11 @@ static void __rrr_event_unpause (
 	for (uint8_t i = 0; i <= RRR_EVENT_FUNCTION_MAX; i++) {
 		if (queue->functions[i].is_paused) {
 			event_add(queue->functions[i].signal_event, NULL);
+
+			// Any activation for deferred amount was removed with the pause
+			if (queue->deferred_amount[queue->functions[i].index] > 0) {
+				event_active(queue->functions[i].signal_event, 0, 0);
+			}
 		}
 	}
 }
-- 
2.43.0


From 109cb367ef4f065061b4d25ed541c49dc08fc173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:30 +0000
Subject: [PATCH 011/130] fix: keep the result of earlier conversions when the
 last methods of a list are not applicable

---
 src/lib/type_conversion.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/type_conversion.c b/src/lib/type_conversion.c
index 4f61f46..4909c1c 100644
--- a/src/lib/type_conversion.c
+++ b/src/lib/type_conversion.c
@@ -660,7 +660,7 @@ static int __rrr_type_convert_using_list (
 	if ((ret = __rrr_type_convert_using_list (target, next_source, list, pos + 1, flags)) != 0) {
 		if (ret == RRR_TYPE_CONVERSION_DONE) {
 			if (result_local == NULL) {
-				ret = RRR_TYPE_CONVERSION_NOT_POSSIBLE;
+				// An earlier conversion in the list may have succeeded, let its level store the result
 				goto out;
 			}
 
@@ -683,7 +683,14 @@ int rrr_type_convert_using_list (
 		const struct rrr_type_conversion_collection *list,
 		const int flags
 ) {
-	return __rrr_type_convert_using_list (target, source, list, 0, flags);
+	int ret = 0;
+
+	if ((ret = __rrr_type_convert_using_list (target, source, list, 0, flags)) == RRR_TYPE_CONVERSION_DONE) {
+		// No method was applicable
+		ret = RRR_TYPE_CONVERSION_NOT_POSSIBLE;
+	}
+
+	return ret;
 }
 
 void rrr_type_conversion_collection_destroy (
-- 
2.43.0


From cc636a945dcf208220b79bf5fc31bedf6f333c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:28 +0000
Subject: [PATCH 012/130] fix: do not read past the end of the topic when
 matching a wildcard with an empty level

---
 src/lib/mqtt/mqtt_topic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_topic.c b/src/lib/mqtt/mqtt_topic.c
index 0eb0c94..c68d729 100644
--- a/src/lib/mqtt/mqtt_topic.c
+++ b/src/lib/mqtt/mqtt_topic.c
@@ -191,7 +191,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 			assert(topic_token_pos == 0);
 			assert(filter_token_pos == 0);
 
-			if (*topic_pos == '$') {
+			if (topic_pos != topic_end && *topic_pos == '$') {
 				return RRR_MQTT_TOKEN_MISMATCH;
 			}
 
@@ -202,7 +202,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 			assert(topic_token_pos == 0);
 			assert(filter_token_pos == 0);
 
-			if (*topic_pos == '$') {
+			if (topic_pos != topic_end && *topic_pos == '$') {
 				return RRR_MQTT_TOKEN_MISMATCH;
 			}
 			for (; topic_pos < topic_end; topic_pos++) {
-- 
2.43.0


From 9754f8fcb26fc5e40647119d9dcec54e11343e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 013/130] fix: incrementing past UINT32_MAX wraps to a value
 outside of the range

---
 src/lib/util/increment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/util/increment.c b/src/lib/util/increment.c
index 404d2c7..14ee661 100644
--- a/src/lib/util/increment.c
+++ b/src/lib/util/increment.c
@@ -158,7 +158,7 @@ uint32_t rrr_increment_basic (
 		uint32_t min,
 		uint32_t max
 ) {
-	uint64_t value_tmp = value + step;
+	uint64_t value_tmp = (uint64_t) value + step;
 	if (value_tmp > max || value_tmp < min) {
 		value_tmp = min;
 	}
-- 
2.43.0


From 68c0d1929fbb7905bd661dfeb7672b176bc7eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 014/130] fix: incrementer treated a stored ID of 0 as not
 stored

---
 src/modules/p_incrementer.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/modules/p_incrementer.c b/src/modules/p_incrementer.c
index b2781f2..513813c 100644
--- a/src/modules/p_incrementer.c
+++ b/src/modules/p_incrementer.c
@@ -103,6 +103,7 @@ static int incrementer_msgdb_delivery_callback (RRR_MSGDB_CLIENT_DELIVERY_CALLBA
 
 struct incrementer_get_id_from_msgdb_callback_data {
 	unsigned long long int *result;
+	int *found;
 	const char *tag;
 };
 
@@ -145,6 +146,7 @@ static int incrementer_get_id_from_msgdb_callback (
 			goto out;
 		}
 		*(callback_data->result) = value->definition->to_ull(value);
+		*(callback_data->found) = 1;
 	}
 
 	out:
@@ -155,12 +157,14 @@ static int incrementer_get_id_from_msgdb_callback (
 
 static int incrementer_get_id_from_msgdb (
 		unsigned long long int *result_llu,
+		int *found,
 		struct incrementer_data *data,
 		const char *tag
 ) {
 	int ret = 0;
 
 	*result_llu = 0;
+	*found = 0;
 
 	if (data->msgdb_socket == NULL) {
 		goto out;
@@ -168,6 +172,7 @@ static int incrementer_get_id_from_msgdb (
 
 	struct incrementer_get_id_from_msgdb_callback_data callback_data = {
 		result_llu,
+		found,
 		tag
 	};
 
@@ -190,22 +195,24 @@ static int incrementer_get_id_from_msgdb (
 
 static int incrementer_get_id (
 		unsigned long long int *result_llu,
+		int *found,
 		struct incrementer_data *data,
 		const char *tag
 ) {
 	int ret = 0;
 
 	*result_llu = 0;
+	*found = 0;
 
 	RRR_DBG_3("Incrementer instance %s retrieving ID for tag '%s'...\n",
 			INSTANCE_D_NAME(data->thread_data), tag);
 
 	const char *result = NULL;
 	if ((result = rrr_map_get_value(&data->db_used_ids, tag)) == NULL) {
-		if ((ret = incrementer_get_id_from_msgdb(result_llu, data, tag)) != 0) {
+		if ((ret = incrementer_get_id_from_msgdb(result_llu, found, data, tag)) != 0) {
 			goto out;
 		}
-		if (*result_llu != 0) {
+		if (*found) {
 			RRR_DBG_3("=> Result from Message DB: %llu\n", *result_llu);
 			goto out;
 		}
@@ -228,6 +235,8 @@ static int incrementer_get_id (
 		goto out;
 	}
 
+	*found = 1;
+
 	out:
 	return ret;
 }
@@ -364,6 +373,7 @@ static int incrementer_process_subject (
 	uint16_t topic_tmp_length = 0;
 	struct rrr_string_builder topic_new = {0};
 	unsigned long long old_id_llu = 0;
+	int old_id_found = 0;
 	uint64_t prefix = 0;
 
 	if ((ret = rrr_msg_msg_topic_and_length_get (
@@ -375,15 +385,12 @@ static int incrementer_process_subject (
 		goto out;
 	}
 
-	if ((ret = incrementer_get_id(&old_id_llu, data, topic_tmp)) != 0) {
+	if ((ret = incrementer_get_id(&old_id_llu, &old_id_found, data, topic_tmp)) != 0) {
 		goto out;
 	}
 
 	if (old_id_llu == 0) {
-		if (data->id_tag != NULL && *data->id_tag != '\0' &&
-		    !rrr_map_get_value(&data->db_used_ids, topic_tmp) &&
-		    !rrr_map_get_value(&data->db_initial_ids, topic_tmp)
-		) {
+		if (data->id_tag != NULL && *data->id_tag != '\0' && !old_id_found) {
 			RRR_MSG_0("No ID stored or initialized for subject with topic %s in incrementer instance %s despite explicit initialization being configured\n",
 				topic_tmp, INSTANCE_D_NAME(data->thread_data));
 			ret = 1;
-- 
2.43.0


From bbb3846f432f07aee71a9092aa098e07e2bde011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 015/130] fix: report failure to decompress damaged or
 truncated data

---
 src/lib/zlib/rrr_zlib.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/zlib/rrr_zlib.c b/src/lib/zlib/rrr_zlib.c
index 79e0231..eeb1a8f 100644
--- a/src/lib/zlib/rrr_zlib.c
+++ b/src/lib/zlib/rrr_zlib.c
@@ -86,7 +86,8 @@ static int __rrr_zlib_loop (
 	while (1) {
 		if (stream->avail_out > outsize_max) {
 			RRR_MSG_0("Too many allocation attempts in %s. Possibly corrupt input.\n", __func__);
-			return RRR_ZLIB_INCOMPLETE;
+			ret = RRR_ZLIB_INCOMPLETE;
+			goto out;
 		}
 
 		buf_size_old = buf_size;
@@ -129,6 +130,7 @@ static int __rrr_zlib_loop (
 			case RRR_ZLIB_INCOMPLETE:
 				continue;
 			default:
+				ret = RRR_ZLIB_ERR;
 				goto out;
 		}
 	}
@@ -185,6 +187,7 @@ int rrr_zlib_gzip_decompress_with_outsize (
 
 	if (inflateInit2(&stream, 32 /* Enable auto gzip decompress */) != Z_OK) {
 		RRR_MSG_0("Failed to initialize stream in %s\n", __func__);
+		ret = RRR_ZLIB_ERR;
 		goto out;
 	}
 
@@ -299,6 +302,7 @@ int rrr_zlib_gzip_compress_with_outsize (
 			Z_DEFAULT_STRATEGY
 	) != Z_OK) {
 		RRR_MSG_0("Failed to initialize stream in %s\n", __func__);
+		ret = RRR_ZLIB_ERR;
 		goto out;
 	}
 
-- 
2.43.0


From b86c04a0e63f97b03f12e4c516e14aca795f3be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:35 +0000
Subject: [PATCH 016/130] fix: validate UTF-8 after a NUL character

---
 src/lib/util/utf8.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/util/utf8.c b/src/lib/util/utf8.c
index 450aa70..c6005be 100644
--- a/src/lib/util/utf8.c
+++ b/src/lib/util/utf8.c
@@ -109,9 +109,9 @@ int rrr_utf8_validate (const char *buf, rrr_length len) {
 	const char *end = buf + len;
 
 	uint32_t result = 0;
-	do {
+	while (ret == 0 && pos < end) {
 		ret = rrr_utf8_get_character (&result, &pos, end);
-	} while (ret == 0 && !(ret == 0 && result == 0));
+	}
 
 	return ret;
 }
@@ -128,15 +128,14 @@ int rrr_utf8_validate_and_iterate (
 	const char *end = buf + len;
 
 	uint32_t result = 0;
-	do {
-		ret = rrr_utf8_get_character (&result, &pos, end);
-		if (ret != 0 || (ret == 0 && result == 0)) {
+	while (pos < end) {
+		if ((ret = rrr_utf8_get_character (&result, &pos, end)) != 0) {
 			return ret;
 		}
 		if ((ret = callback(result, callback_arg)) != 0) {
 			return ret;
 		}
-	} while (ret == 0);
+	}
 
 	return ret;
 }
-- 
2.43.0


From 19919f2d152a6eb9353ae3874f13d19d01765a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 017/130] fix: base64 accepted misplaced padding, and base64url
 could not decode lengths it encodes

---
 src/lib/util/base64.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/lib/util/base64.c b/src/lib/util/base64.c
index 0759cb5..140c1e1 100644
--- a/src/lib/util/base64.c
+++ b/src/lib/util/base64.c
@@ -135,8 +135,19 @@ unsigned char * rrr_base64_decode(const unsigned char *src, rrr_biglength len,
 		if (tmp == 0x80)
 			continue;
 
-		if (src[i] == '=')
+		if (src[i] == '=') {
+			if (count < 2) {
+				/* Invalid padding */
+				rrr_free(out);
+				return NULL;
+			}
 			pad++;
+		}
+		else if (pad) {
+			/* Data within padding */
+			rrr_free(out);
+			return NULL;
+		}
 		block[count] = tmp;
 		count++;
 		if (count == 4) {
@@ -145,15 +156,7 @@ unsigned char * rrr_base64_decode(const unsigned char *src, rrr_biglength len,
 			*pos++ = (unsigned char) ((block[2] << 6) | block[3]);
 			count = 0;
 			if (pad) {
-				if (pad == 1)
-					pos--;
-				else if (pad == 2)
-					pos -= 2;
-				else {
-					/* Invalid padding */
-					rrr_free(out);
-					return NULL;
-				}
+				pos -= pad;
 				break;
 			}
 		}
@@ -229,10 +232,11 @@ unsigned char *rrr_base64url_decode(const unsigned char *src, rrr_biglength len,
 			count++;
 	}
 
-	if (count == 0 || count % 4)
+	/* No padding is used, the last block may have two or three characters */
+	if (count == 0 || count % 4 == 1)
 		return NULL;
 
-	olen = count / 4 * 3;
+	olen = count / 4 * 3 + 3;
 	pos = out = rrr_allocate(olen);
 	if (out == NULL)
 		return NULL;
@@ -253,6 +257,11 @@ unsigned char *rrr_base64url_decode(const unsigned char *src, rrr_biglength len,
 		}
 	}
 
+	if (count >= 2)
+		*pos++ = (unsigned char) ((block[0] << 2) | (block[1] >> 4));
+	if (count == 3)
+		*pos++ = (unsigned char) ((block[1] << 4) | (block[2] >> 2));
+
 	*out_len = (rrr_biglength) (pos - out);
 	return out;
 }
-- 
2.43.0


From 416f85bbb51ad28b875151599ede619c1692b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 018/130] fix: refuse percent sequences with only one
 hexadecimal digit

---
 src/lib/http/http_part.c | 2 +-
 src/lib/http/http_util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_part.c b/src/lib/http/http_part.c
index 5f1b972..0df67e2 100644
--- a/src/lib/http/http_part.c
+++ b/src/lib/http/http_part.c
@@ -428,7 +428,7 @@ static int __rrr_http_part_query_string_parse (
 			unsigned long long int result = 0;
 
 			rrr_length result_len = 0;
-			if (rrr_http_util_strtoull_raw (&result, &result_len, start + 1, start + 3, 16) != 0) {
+			if (rrr_http_util_strtoull_raw (&result, &result_len, start + 1, start + 3, 16) != 0 || result_len != 2) {
 				RRR_MSG_0("Invalid %%-sequence in HTTP query string\n");
 				rrr_http_util_print_where_message(start, end);
 				ret = RRR_HTTP_PARSE_SOFT_ERR;
diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 0904eca..c8e5ee0 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -270,7 +270,7 @@ static int __rrr_http_util_decode_urlencoded_string (
 			unsigned long long int result = 0;
 
 			rrr_length result_len = 0;
-			if (rrr_http_util_strtoull_raw (&result, &result_len, (const char *) start + 1, (const char *) start + 3, 16) != 0) {
+			if (rrr_http_util_strtoull_raw (&result, &result_len, (const char *) start + 1, (const char *) start + 3, 16) != 0 || result_len != 2) {
 				if (RRR_DEBUGLEVEL_3) {
 					RRR_MSG_3("Invalid %%-sequence in urlencoded string\n");
 					rrr_http_util_print_where_message((const char *) start, (const char *) end);
-- 
2.43.0


From 7c34c9ed4676fd56782434f4c61aa33dec02ee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 019/130] fix: HTTP case insensitive search missed matches and
 returned partial ones

---
 src/lib/http/http_util.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index c8e5ee0..3b6b832 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -749,7 +749,8 @@ int rrr_http_util_strcasestr (
 		}
 		else {
 			if (revert_position != NULL) {
-				pos = revert_position;
+				// Continue one position after the start of the failed match
+				pos = revert_position - 1;
 				revert_position = NULL;
 			}
 			needle_pos = needle;
@@ -758,6 +759,11 @@ int rrr_http_util_strcasestr (
 		}
 	}
 
+	if (needle_pos != needle_end) {
+		// Not found, or only a part of the needle at the end
+		return 1;
+	}
+
 	*result_start = result;
 	*result_len = len;
 
-- 
2.43.0


From ab1310c8604eeb68b40e8839aa6f9daae3e672dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 020/130] fix: do not read past the end of a URI with no port

---
 src/lib/http/http_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 3b6b832..5beb157 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1026,7 +1026,7 @@ static int __rrr_http_util_uri_parse_hostname_and_port (
 		uri_new->host[result_len_tmp] = '\0';
 	}
 
-	if (**pos == ':') {
+	if (*pos < end && **pos == ':') {
 		(*pos)++;
 		unsigned long long port = 0;
 		if (rrr_http_util_strtoull_raw(&port, &result_len_tmp, *pos, end, 10) != 0 || port < 1 || port > 65535) {
@@ -1040,7 +1040,7 @@ static int __rrr_http_util_uri_parse_hostname_and_port (
 		*pos += result_len_tmp;
 	}
 	else if (force_port) {
-		RRR_MSG_0("Invalid character x%02x after hostname in host:port URI\n", **pos);
+		RRR_MSG_0("Missing port after hostname in host:port URI\n");
 		ret = 1;
 		goto out;
 	}
-- 
2.43.0


From 998862cb115c72f3e530705362bb8c298585c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 021/130] fix: copy the endpoint when an HTTP URI is duplicated

---
 src/lib/http/http_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 5beb157..d0587ec 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -820,7 +820,7 @@ int rrr_http_util_uri_dup (
 		goto out_free;
 	}
 
-	if (uri_result->endpoint != NULL && (uri_result->endpoint = rrr_strdup(uri->endpoint)) == NULL) {
+	if (uri->endpoint != NULL && (uri_result->endpoint = rrr_strdup(uri->endpoint)) == NULL) {
 		RRR_MSG_0("Could not allocate memory for endpoint in %s\n", __func__);
 		ret = 1;
 		goto out_free;
-- 
2.43.0


From 2db63d69fd9fad1c9a59cf5dc8ebb959cbd04120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 022/130] fix: match the whole protocol name in HTTP URIs

---
 src/lib/http/http_util.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index d0587ec..ad7c402 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1151,16 +1151,16 @@ static int __rrr_http_util_uri_parse_callback (
 		}
 		else if (rrr_http_util_strcasestr(&new_pos, &result_len_tmp, pos, end, "://") == 0) {
 			ssize_t protocol_name_length = new_pos - pos;
-			if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "https", 5) == 0) {
+			if (protocol_name_length == 5 && rrr_posix_strncasecmp(pos, "https", 5) == 0) {
 				uri_new->protocol = rrr_strdup("https");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "http", 4) == 0) {
+			else if (protocol_name_length == 4 && rrr_posix_strncasecmp(pos, "http", 4) == 0) {
 				uri_new->protocol = rrr_strdup("http");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "ws", 2) == 0) {
+			else if (protocol_name_length == 2 && rrr_posix_strncasecmp(pos, "ws", 2) == 0) {
 				uri_new->protocol = rrr_strdup("ws");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "wss", 3) == 0) {
+			else if (protocol_name_length == 3 && rrr_posix_strncasecmp(pos, "wss", 3) == 0) {
 				uri_new->protocol = rrr_strdup("wss");
 			}
 			else {
-- 
2.43.0


From abcd35cf8d22e53aac7573f1892eaddd04ddf474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 023/130] fix: make quoting and unquoting of HTTP header values
 inverse

---
 src/lib/http/http_util.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index ad7c402..89a629f 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -397,6 +397,7 @@ static int __rrr_http_util_unquote_string_callback (
 
 	while (start < end) {
 		if (*start == '"' || *start == '(') {
+			unsigned char startquote = *start;
 			unsigned char endquote = (*start == '"' ? '"' : ')');
 
 			// Skip past begin quote
@@ -410,8 +411,8 @@ static int __rrr_http_util_unquote_string_callback (
 				if (*start == '\\') {
 					if (start + 1 < end) {
 						unsigned char next = *(start + 1);
-						if (next == endquote) {
-							// Write only the quote character
+						if (next == endquote || next == startquote || next == '\\' || next == '\r') {
+							// Write only the quoted character
 							start++;
 						}
 						else {
@@ -488,7 +489,8 @@ char *rrr_http_util_header_value_quote (
 			// Don't break, check all chars for validity
 		}
 		else if (__rrr_http_util_is_ascii_non_ctl(c)) {
-			// OK
+			// Not allowed in tokens
+			needs_quote = 1;
 		}
 		else {
 			RRR_MSG_0("Invalid octet %02x in rrr_http_util_quote_header_value\n", c);
-- 
2.43.0


From 1e121216987b8634955c625f0f3caeca6380a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 024/130] fix: keep HTTP field values beginning with a NUL byte

---
 src/lib/http/http_fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_fields.c b/src/lib/http/http_fields.c
index 09793ee..4c873b5 100644
--- a/src/lib/http/http_fields.c
+++ b/src/lib/http/http_fields.c
@@ -129,7 +129,7 @@ int rrr_http_field_value_set (
 ) {
 	int ret = 0;
 
-	if (value != NULL && *value != '\0' && value_length != 0) {
+	if (value != NULL && value_length != 0) {
 		if (rrr_nullsafe_str_new_or_replace_raw(&target->value, value, value_length) != 0) {
 			RRR_MSG_0("Could not allocate memory in rrr_http_field_set_value\n");
 			ret = 1;
-- 
2.43.0


From fd4e06541948e70d76454e2b3da7b74e2f666b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 025/130] fix: do not add whitespace after form data to the
 last value

---
 src/lib/http/http_part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_part.c b/src/lib/http/http_part.c
index 0df67e2..276ac64 100644
--- a/src/lib/http/http_part.c
+++ b/src/lib/http/http_part.c
@@ -411,7 +411,7 @@ static int __rrr_http_part_query_string_parse (
 
 		unsigned char c = (unsigned char) *start;
 
-		if (start + 1 >= end || c == ' ' || c == '\t' || c == '\r' || c == '\n') {
+		if (start + 1 >= end || *(start+1) == ' ' || *(start+1) == '\t' || *(start+1) == '\r' || *(start+1) == '\n') {
 			end_is_near = 1;
 		}
 
-- 
2.43.0


From 177b89a2d648cc4e5d0b28961694fe722d2ea89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 026/130] fix: escape backslash in quoted query values and
 refuse NUL

---
 src/lib/http/http_query_builder.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/http/http_query_builder.c b/src/lib/http/http_query_builder.c
index 53602e4..2707e43 100644
--- a/src/lib/http/http_query_builder.c
+++ b/src/lib/http/http_query_builder.c
@@ -86,7 +86,13 @@ static int __rrr_http_query_builder_escape_field (
 
 	for (rrr_biglength i = 0; i < length; i++) {
 		char c = *(source + i);
-		if (c == '"' || (add_double_quotes == 0 && (c == ',' || c == '=' || c == ' ' || c == '\t' || c == '\r' || c == '\n'))) {
+		if (c == '\0') {
+			// The query is a zero-terminated string
+			RRR_MSG_0("NULL character in HTTP query field\n");
+			rrr_free(result);
+			return RRR_HTTP_SOFT_ERROR;
+		}
+		if (c == '"' || (add_double_quotes != 0 && c == '\\') || (add_double_quotes == 0 && (c == ',' || c == '=' || c == ' ' || c == '\t' || c == '\r' || c == '\n'))) {
 			*(wpos++) = '\\';
 		}
 		*(wpos++) = c;
@@ -142,9 +148,8 @@ int rrr_http_query_builder_append_type_value_as_escaped_string (
 	else if (RRR_TYPE_IS_BLOB(value->definition->type)) {
 		// For value with 0 length, only the tag is output with value 1
 		if (value->total_stored_length > 0) {
-			if (__rrr_http_query_builder_escape_field(&value_tmp, value->data, value->total_stored_length, do_quote_values) != 0) {
+			if ((ret = __rrr_http_query_builder_escape_field(&value_tmp, value->data, value->total_stored_length, do_quote_values)) != 0) {
 				RRR_MSG_0("Could not escape blob field in rrr_http_query_builder_append_type_value_as_escaped_string\n");
-				ret = RRR_HTTP_HARD_ERROR;
 				goto out;
 			}
 
-- 
2.43.0


From d8ed4b3147d4cf57e9a075347bcc26b4000e7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 027/130] fix: refuse numbers which do not fit in HTTP headers
 and chunks

---
 src/lib/http/http_util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 89a629f..3e66104 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -26,6 +26,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include <ctype.h>
 #include <stdarg.h>
 #include <assert.h>
+#include <errno.h>
 
 #include "../log.h"
 #include "../allocator.h"
@@ -660,8 +661,14 @@ int rrr_http_util_strtoull_raw (
 	buf[numbers_end - start] = '\0';
 
 	char *endptr;
+	errno = 0;
 	unsigned long long int number = strtoull(buf, &endptr, base);
 
+	if (errno == ERANGE) {
+		RRR_DBG_3("Number was too big in %s\n", __func__);
+		return 1;
+	}
+
 	if (endptr == NULL) {
 		RRR_BUG("Endpointer was NULL in %s\n", __func__);
 	}
-- 
2.43.0


From 4daad853d95cc14b39b160c591b1b2009c3a57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:45 +0000
Subject: [PATCH 028/130] fix: parse the host of URIs beginning with // and
 allow :// in endpoints

---
 src/lib/http/http_util.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 3e66104..af757dc 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1150,15 +1150,23 @@ static int __rrr_http_util_uri_parse_callback (
 	const char *end = str + len;
 
 	const char *new_pos = NULL;
+	int has_host = 0;
 
 	{
 		rrr_length result_len_tmp = 0;
+		const char *name_end = pos;
+
+		while (name_end < end && __rrr_http_util_is_alphanumeric((unsigned char) *name_end)) {
+			name_end++;
+		}
 
 		// Parse protocol if present
 		if (rrr_http_util_strcasestr(&new_pos, &result_len_tmp, pos, end, "//") == 0 && new_pos == pos) {
 			// OK, empty protocol
+			has_host = 1;
 		}
-		else if (rrr_http_util_strcasestr(&new_pos, &result_len_tmp, pos, end, "://") == 0) {
+		// The separator may also be part of the endpoint or query string
+		else if (rrr_http_util_strcasestr(&new_pos, &result_len_tmp, pos, end, "://") == 0 && new_pos <= name_end) {
 			ssize_t protocol_name_length = new_pos - pos;
 			if (protocol_name_length == 5 && rrr_posix_strncasecmp(pos, "https", 5) == 0) {
 				uri_new->protocol = rrr_strdup("https");
@@ -1183,6 +1191,7 @@ static int __rrr_http_util_uri_parse_callback (
 				ret = 1;
 				goto out;
 			}
+			has_host = 1;
 		}
 		else {
 			new_pos = pos;
@@ -1192,8 +1201,8 @@ static int __rrr_http_util_uri_parse_callback (
 		pos = new_pos + result_len_tmp;
 	}
 
-	// Parse hostname if protocol is present
-	if (uri_new->protocol != NULL) {
+	// Parse hostname if protocol or // is present
+	if (has_host) {
 		if ((ret = __rrr_http_util_uri_parse_hostname_and_port (
 				uri_new,
 				&pos,
-- 
2.43.0


From 388872ff446e152a153325b8a9d6c9b061da63aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:45 +0000
Subject: [PATCH 029/130] fix: refuse URIs with garbage after the port

---
 src/lib/http/http_util.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index af757dc..17e0c9c 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1047,6 +1047,12 @@ static int __rrr_http_util_uri_parse_hostname_and_port (
 		uri_new->port = (uint16_t) port;
 
 		*pos += result_len_tmp;
+
+		if (*pos < end && !(allow_slash && **pos == '/')) {
+			RRR_MSG_0("Invalid character x%02x after port in host:port URI\n", **pos);
+			ret = 1;
+			goto out;
+		}
 	}
 	else if (force_port) {
 		RRR_MSG_0("Missing port after hostname in host:port URI\n");
-- 
2.43.0


From 31d4d31d8e7e8e9ee5e18f978629d3ca18207f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 030/130] fix: terminate the string when the string builder
 chops

---
 src/lib/helpers/string_builder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/helpers/string_builder.c b/src/lib/helpers/string_builder.c
index c6774ad..2ce02f8 100644
--- a/src/lib/helpers/string_builder.c
+++ b/src/lib/helpers/string_builder.c
@@ -255,5 +255,6 @@ void rrr_string_builder_chop (
 ) {
 	if (string_builder->wpos > 0) {
 		string_builder->wpos -= 1;
+		string_builder->buf[string_builder->wpos] = '\0';
 	}
 }
-- 
2.43.0


From 16c193d4c2c740e74777cb21bdfa979141a91d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 031/130] fix: use the tag as query column name when no
 translation is set

---
 src/lib/http/http_query_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_query_builder.c b/src/lib/http/http_query_builder.c
index 2707e43..172ef25 100644
--- a/src/lib/http/http_query_builder.c
+++ b/src/lib/http/http_query_builder.c
@@ -266,7 +266,7 @@ int rrr_http_query_builder_append_values_from_array (
 			}
 
 			// If value is set, translation is to be used
-			const char *tag_to_use = node_value != NULL ? node_value : node_tag;
+			const char *tag_to_use = node_value != NULL && *node_value != '\0' ? node_value : node_tag;
 
 			if ((ret = __rrr_http_query_builder_append_type_value (
 				query_builder,
-- 
2.43.0


From 1ad754d8417870454498fbf4ae095810278e1562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 032/130] fix: refuse messages with a stated size smaller than
 the header

---
 src/lib/messages/msg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/messages/msg.c b/src/lib/messages/msg.c
index 0abf4e2..f06992b 100644
--- a/src/lib/messages/msg.c
+++ b/src/lib/messages/msg.c
@@ -141,6 +141,11 @@ int rrr_msg_get_target_size_and_check_checksum (
 		return RRR_MSG_READ_SOFT_ERROR;
 	}
 
+	if (rrr_be32toh(msg->msg_size) < sizeof(*msg)) {
+		// Stated size is smaller than the header
+		return RRR_MSG_READ_SOFT_ERROR;
+	}
+
 	*target_size = rrr_be32toh(msg->msg_size);
 
 	return RRR_MSG_READ_OK;
-- 
2.43.0


From 7130e8171322d7bfffbbcf9338df8d406cb096d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 033/130] fix: refuse messages with topic length exceeding the
 message

---
 src/lib/messages/msg_msg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/messages/msg_msg.c b/src/lib/messages/msg_msg.c
index 4d7e821..b8b37f6 100644
--- a/src/lib/messages/msg_msg.c
+++ b/src/lib/messages/msg_msg.c
@@ -260,6 +260,11 @@ static int __message_validate (const struct rrr_msg_msg *message){
 		ret = 1;
 		goto out;
 	}
+	if (MSG_TOPIC_LENGTH(message) > message->msg_size - (sizeof(*message) - 1)) {
+		RRR_DBG_1("Topic length %u exceeds size of message in message_validate\n", MSG_TOPIC_LENGTH(message));
+		ret = 1;
+		goto out;
+	}
 	if (!MSG_CLASS_OK(message)) {
 		RRR_DBG_1("Invalid class %u in message to message_validate\n", MSG_CLASS(message));
 		ret = 1;
-- 
2.43.0


From ef3b3f5e082000aeaa2cb9dde2a86ca381ff2a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 034/130] fix: refuse address messages which are too long

---
 src/lib/messages/msg_addr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/messages/msg_addr.h b/src/lib/messages/msg_addr.h
index c4b1558..b846e9a 100644
--- a/src/lib/messages/msg_addr.h
+++ b/src/lib/messages/msg_addr.h
@@ -36,7 +36,7 @@ struct rrr_msg_addr {
 } __attribute((__packed__));
 
 #define RRR_MSG_ADDR_SIZE_OK(msg) \
-	((msg)->msg_size >= sizeof(*(msg)) - sizeof ((msg)->addr))
+	((msg)->msg_size >= sizeof(*(msg)) - sizeof ((msg)->addr) && (msg)->msg_size <= sizeof(*(msg)))
 
 // NOTE ! This will underflow and wrap around if msg_size is small. We only check for 0 here.
 #define RRR_MSG_ADDR_GET_ADDR_LEN(msg) \
-- 
2.43.0


From d59889572f1f606db6a7852872a0ba1254552940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 035/130] fix: size checks and termination of log messages

---
 src/lib/messages/msg_log.c | 9 +++++++++
 src/lib/messages/msg_log.h | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib/messages/msg_log.c b/src/lib/messages/msg_log.c
index 9ade221..d8160ee 100644
--- a/src/lib/messages/msg_log.c
+++ b/src/lib/messages/msg_log.c
@@ -44,6 +44,11 @@ int rrr_msg_msg_log_to_host (struct rrr_msg_log *msg) {
 		return 1;
 	}
 
+	if (memchr(msg->file, '\0', sizeof(msg->file)) == NULL) {
+		RRR_MSG_0("File was not 0-terminated in rrr_msg_msg_log_to_host\n");
+		return 1;
+	}
+
 	if (msg->prefix_size > 0 && *(msg->prefix_and_message + msg->prefix_size - 1) != '\0') {
 		RRR_MSG_0("Prefix was not 0-terminated in rrr_msg_msg_log_to_host\n");
 		return 1;
@@ -143,6 +148,10 @@ int rrr_msg_msg_log_new (
 	memcpy(result->prefix_and_message, prefix, prefix_size);
 	memcpy(RRR_MSG_LOG_MSG_POS(result), message, message_size);
 
+	// Terminate in case of truncation
+	result->prefix_and_message[prefix_size - 1] = '\0';
+	RRR_MSG_LOG_MSG_POS(result)[message_size - 1] = '\0';
+
 	result->loglevel_translated = loglevel_translated;
 	result->loglevel_orig = loglevel_orig;
 
diff --git a/src/lib/messages/msg_log.h b/src/lib/messages/msg_log.h
index b2733ee..8c9790c 100644
--- a/src/lib/messages/msg_log.h
+++ b/src/lib/messages/msg_log.h
@@ -35,7 +35,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 	((msg->prefix_and_message) + (msg)->prefix_size)
 
 #define RRR_MSG_LOG_SIZE_OK(msg)											\
-	((msg)->prefix_size > (msg)->msg_size - sizeof(*(msg)) - 1 ? 0 : 1)
+	((msg)->msg_size >= sizeof(*(msg)) && (msg)->prefix_size <= (msg)->msg_size - sizeof(*(msg)) ? 1 : 0)
 
 #define RRR_MSG_LOG_LEVEL_ORIG_NOT_GIVEN RRR_LOG_LEVEL_NOT_GIVEN
 
-- 
2.43.0


From d70893c329fdb4444c8ff49e35d82888c5623206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 036/130] fix: refuse statistics messages with too long path or
 data

---
 src/lib/stats/stats_message.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/stats/stats_message.c b/src/lib/stats/stats_message.c
index fb75af0..734bcac 100644
--- a/src/lib/stats/stats_message.c
+++ b/src/lib/stats/stats_message.c
@@ -93,6 +93,18 @@ static int __rrr_msg_stats_unpack (
 		goto out;
 	}
 
+	if (path_size > sizeof(target->path)) {
+		RRR_MSG_0("Path in received statistics packet was too long\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
+	if (actual_path_and_data_size - path_size > sizeof(target->data)) {
+		RRR_MSG_0("Data in received statistics packet was too long\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
 	memset (target, '\0', sizeof(*target));
 
 	target->flags = flags;
-- 
2.43.0


From a1b5412a397e0d706ffb5af0e0c213aef5494f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:52 +0000
Subject: [PATCH 037/130] fix: refuse log messages shorter than the log message
 header

---
 src/lib/messages/msg_log.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/messages/msg_log.c b/src/lib/messages/msg_log.c
index d8160ee..dc5fc02 100644
--- a/src/lib/messages/msg_log.c
+++ b/src/lib/messages/msg_log.c
@@ -36,6 +36,11 @@ void rrr_msg_msg_log_prepare_for_network (struct rrr_msg_log *msg) {
 }
 
 int rrr_msg_msg_log_to_host (struct rrr_msg_log *msg) {
+	if (msg->msg_size < sizeof(*msg)) {
+		RRR_MSG_0("Log message was too short in rrr_msg_msg_log_to_host\n");
+		return 1;
+	}
+
 	msg->prefix_size = rrr_be16toh(msg->prefix_size);
 	msg->line = rrr_be32toh(msg->line);
 
-- 
2.43.0


From 076ed2bc034e1bc4f9fa14070b4a91f2f91834ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:30 +0000
Subject: [PATCH 038/130] fix: rewind past values without fixed length in array
 trees

---
 src/lib/array_tree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/array_tree.c b/src/lib/array_tree.c
index abf4228..21da03f 100644
--- a/src/lib/array_tree.c
+++ b/src/lib/array_tree.c
@@ -1409,6 +1409,11 @@ int __rrr_array_tree_import_value_callback (
 
 	callback_data->pos += parsed_bytes;
 
+	// Types without a fixed length do not set this, it is needed to be able to REWIND
+	if (value->definition->max_length == 0) {
+		new_value->import_length = parsed_bytes;
+	}
+
 	RRR_LL_APPEND(&callback_data->array, new_value);
 	new_value = NULL;
 
-- 
2.43.0


From d21718160cddd82c70d20d889dfefee5e726d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:54 +0000
Subject: [PATCH 039/130] fix: compare whole tag when resolving references in
 array trees

---
 src/lib/array_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/array_tree.c b/src/lib/array_tree.c
index 21da03f..834bb7b 100644
--- a/src/lib/array_tree.c
+++ b/src/lib/array_tree.c
@@ -1299,7 +1299,7 @@ int __rrr_array_tree_import_value_resolve_ref (
 		const char *name
 ) {
 	RRR_LL_ITERATE_BEGIN_REVERSE(source, struct rrr_type_value);
-		if (node->tag != NULL && strncmp(name, node->tag, node->tag_length) == 0) {
+		if (node->tag != NULL && rrr_type_value_is_tag(node, name)) {
 			uint64_t result_tmp = node->definition->to_64(node);
 			if (result_tmp > RRR_LENGTH_MAX) {
 				RRR_MSG_0("Evaluation of reference '%s' resulted in a value of %" PRIu64 " while maximum value is %" PRIrrrl "\n",
@@ -1432,7 +1432,7 @@ static int __rrr_array_tree_import_condition_name_evaluate_callback (
 	struct rrr_array *array_tmp = arg;
 
 	RRR_LL_ITERATE_BEGIN_REVERSE(array_tmp, struct rrr_type_value);
-		if (node->tag != NULL && strncmp(node->tag, name, node->tag_length) == 0) {
+		if (node->tag != NULL && rrr_type_value_is_tag(node, name)) {
 			*result = node->definition->to_64(node);
 			*is_signed = RRR_TYPE_FLAG_IS_SIGNED(node->flags);
 			return RRR_ARRAY_TREE_OK;
-- 
2.43.0


From 0edc98c9699962754c9b0879bedc5d69a5dd79de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 040/130] fix: check for overflow of total size of array values

---
 src/lib/type.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index 11a58fc..834be26 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -75,6 +75,17 @@ static int __rrr_type_convert_unsigned_integer_10 (
         return RRR_TYPE_PARSE_INCOMPLETE;                      \
     }
 
+// The element count may originate from input data
+#define CHECK_TOTAL_SIZE(target,element_size)                                                          \
+    do {rrr_biglength total_size_tmp = (rrr_biglength) node->element_count * (element_size);           \
+        if (total_size_tmp > RRR_LENGTH_MAX) {                                                         \
+            RRR_MSG_0("Total size of array value exceeds maximum (%" PRIrrrl " elements) in %s\n",     \
+                    node->element_count, __func__);                                                    \
+            return RRR_TYPE_PARSE_SOFT_ERR;                                                            \
+        }                                                                                              \
+        target = (rrr_length) total_size_tmp;                                                          \
+    } while (0)
+
 static uint64_t __rrr_type_expand_be (
 		rrr_length import_length,
 		const char *src,
@@ -174,8 +185,10 @@ static int __rrr_type_import_int (
 	}
 
 	rrr_length array_size = node->element_count;
-	rrr_length total_size = node->element_count * node->import_length;
+	rrr_length total_size = 0;
 
+	CHECK_TOTAL_SIZE(total_size, sizeof(uint64_t));
+	CHECK_TOTAL_SIZE(total_size, node->import_length);
 	CHECK_END_AND_RETURN(total_size);
 
 	node->total_stored_length = node->element_count * (rrr_length) sizeof(uint64_t);
@@ -225,8 +238,9 @@ static int __rrr_type_import_blob (RRR_TYPE_IMPORT_ARGS) {
 		RRR_BUG("data was not NULL in %s\n", __func__);
 	}
 
-	rrr_length total_size = node->import_length * node->element_count;
+	rrr_length total_size = 0;
 
+	CHECK_TOTAL_SIZE(total_size, node->import_length);
 	CHECK_END_AND_RETURN(total_size);
 
 	// Prevent 0 bytes allocation which occurs upon empty str
@@ -439,8 +453,9 @@ static int __rrr_type_import_sep_stx (RRR_TYPE_IMPORT_ARGS, int (*validate)(char
 		RRR_BUG("data was not NULL in %s\n", __func__);
 	}
 
-	rrr_length total_size = node->import_length * node->element_count;
+	rrr_length total_size = 0;
 
+	CHECK_TOTAL_SIZE(total_size, node->import_length);
 	CHECK_END_AND_RETURN(total_size);
 
 	rrr_length found = 0;
-- 
2.43.0


From 5bb0e0ed38a6fc1e48dd16b29f4c08c776598060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:11 +0000
Subject: [PATCH 041/130] fix: message in array is incomplete when there is no
 data yet

---
 src/lib/type.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index 834be26..7a3ea1f 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -639,9 +639,8 @@ static int __rrr_type_import_msg (RRR_TYPE_IMPORT_ARGS) {
 	}
 
 	if (count != node->element_count && node->element_count != 0) {
-		RRR_MSG_0("Number of messages in array did not match definition. Found %i but expected %" PRIu32 "\n",
-				count, node->element_count);
-		ret = RRR_TYPE_PARSE_SOFT_ERR;
+		// More data is needed
+		ret = RRR_TYPE_PARSE_INCOMPLETE;
 		goto out;
 	}
 
-- 
2.43.0


From df6ce84c1835e7b105aa3648269b9745016902bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:12 +0000
Subject: [PATCH 042/130] fix: fixed point number split in the sign or base
 prefix is incomplete

---
 src/lib/fixed_point.c | 2 +-
 src/lib/type.c        | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/fixed_point.c b/src/lib/fixed_point.c
index a8aa3fb..c3459eb 100644
--- a/src/lib/fixed_point.c
+++ b/src/lib/fixed_point.c
@@ -260,7 +260,7 @@ static int __rrr_fixp_str_preliminary_parse (
 	*is_negative = 0;
 
 	// PREFIX PARSING
-	if (str_length > 3) {
+	if (str_length >= 3) {
 		if (strncmp(start, "16#", 3) == 0) {
 			*base = 16;
 			start += 3;
diff --git a/src/lib/type.c b/src/lib/type.c
index 7a3ea1f..5f0cb9e 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -976,13 +976,17 @@ static int __rrr_type_import_fixp (RRR_TYPE_IMPORT_ARGS) {
 	rrr_fixp fixp = 0;
 	const char *endptr = NULL;
 
+	CHECK_END_AND_RETURN(1);
+
 	if ((ret = rrr_fixp_str_to_fixp (
 			&fixp,
 			start,
 			rrr_length_from_ptr_sub_bug_const (end, start),
 			&endptr
 	)) != 0) {
-		return RRR_TYPE_PARSE_SOFT_ERR;
+		return ret == RRR_FIXED_POINT_PARSE_INCOMPLETE
+			? RRR_TYPE_PARSE_INCOMPLETE
+			: RRR_TYPE_PARSE_SOFT_ERR;
 	}
 
 	// Fixed point needs another field after it to know where the number ends
-- 
2.43.0


From 9e8bebf5617a9f7591d3a48f256e555eddd73281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:40 +0000
Subject: [PATCH 043/130] fix: refuse ustr and istr numbers out of range

---
 src/lib/type.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index 5f0cb9e..a2e5318 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -25,6 +25,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include <inttypes.h>
 #include <ctype.h>
 #include <assert.h>
+#include <errno.h>
 
 #include "log.h"
 #include "allocator.h"
@@ -48,8 +49,9 @@ static int __rrr_type_convert_integer_10 (
 	if (*value == '\0') {
 		return 1;
 	}
+	errno = 0;
 	*result = strtoll(value, end, 10);
-	if (*end == value) {
+	if (*end == value || errno == ERANGE) {
 		return 1;
 	}
 	return 0;
@@ -63,8 +65,9 @@ static int __rrr_type_convert_unsigned_integer_10 (
 	if (*value == '\0') {
 		return 1;
 	}
+	errno = 0;
 	*result = strtoull(value, end, 10);
-	if (*end == value) {
+	if (*end == value || errno == ERANGE) {
 		return 1;
 	}
 	return 0;
-- 
2.43.0


From 474cbfe622ffc6eeff4f62018e76fb3c9235612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:10 +0000
Subject: [PATCH 044/130] fix: refuse array messages with invalid element
 counts

---
 src/lib/type.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/lib/type.c b/src/lib/type.c
index a2e5318..a8f1ee5 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -1611,6 +1611,24 @@ int rrr_type_value_new_and_unpack (
 		goto out_free;
 	}
 
+	if ( value->element_count == 0 ||
+	    (value->total_stored_length % value->element_count != 0 && !RRR_TYPE_IS_MSG(value->definition->type))
+	) {
+		RRR_MSG_0("Element count %" PRIrrrl " does not match length %" PRIrrrl " of type %s in %s\n",
+				value->element_count, value->total_stored_length, type->identifier, __func__);
+		ret = 1;
+		goto out_free;
+	}
+
+	if ((RRR_TYPE_IS_64(value->definition->type) || RRR_TYPE_IS_FIXP(value->definition->type)) &&
+	    value->total_stored_length / value->element_count != sizeof(uint64_t)
+	) {
+		RRR_MSG_0("Element count %" PRIrrrl " does not match length %" PRIrrrl " of type %s in %s\n",
+				value->element_count, value->total_stored_length, type->identifier, __func__);
+		ret = 1;
+		goto out_free;
+	}
+
 	*result = value;
 
 	goto out;
-- 
2.43.0


From b23a44ac35d18fdd449be2f528da5a34f8243387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:24 +0000
Subject: [PATCH 045/130] fix: read 64 bit array values by index at the right
 position

---
 src/lib/array.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/array.c b/src/lib/array.c
index 3fe66c9..bb65645 100644
--- a/src/lib/array.c
+++ b/src/lib/array.c
@@ -480,8 +480,15 @@ static int __rrr_array_get_value_64_by_tag (
 		goto out;
 	}
 
-	signed_result = *((int64_t*) value->data + (sizeof(int64_t) * index));
-	unsigned_result = *((uint64_t*) value->data + (sizeof(uint64_t) * index));
+	if ((rrr_biglength) value->element_count * sizeof(uint64_t) != value->total_stored_length) {
+		RRR_MSG_0("Array value '%s' of type '%s' does not hold 64 bit values\n",
+				tag, value->definition->identifier);
+		ret = 1;
+		goto out;
+	}
+
+	memcpy(&signed_result, value->data + sizeof(int64_t) * index, sizeof(signed_result));
+	memcpy(&unsigned_result, value->data + sizeof(uint64_t) * index, sizeof(unsigned_result));
 
 	if (do_signed) {
 		if (!RRR_TYPE_FLAG_IS_SIGNED(value->flags) && unsigned_result > INT64_MAX) {
-- 
2.43.0


From 32d9373f8166f06423da9efcf3adb081ad4af487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:43 +0000
Subject: [PATCH 046/130] fix: do not report a tag as present in malformed
 array messages

---
 src/lib/array.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/lib/array.c b/src/lib/array.c
index bb65645..9f36d57 100644
--- a/src/lib/array.c
+++ b/src/lib/array.c
@@ -1282,11 +1282,18 @@ int rrr_array_message_iterate_values (
 #define RRR_ARRAY_MESSAGE_ITERATE_RAW_CALLBACK_HAS_TAG() \
 	(strlen(tag) == tag_length && memcmp(data_start, tag, tag_length) == 0)
 
+struct rrr_array_message_has_tag_callback_data {
+	const char *tag;
+	int found;
+};
+
 static int __rrr_array_message_has_tag_callback (
 		RRR_TYPE_RAW_FIELDS,
 		void *arg
 ) {
-	const char *tag = arg;
+	struct rrr_array_message_has_tag_callback_data *callback_data = arg;
+
+	const char *tag = callback_data->tag;
 
 	(void)(type);
 	(void)(flags);
@@ -1294,8 +1301,8 @@ static int __rrr_array_message_has_tag_callback (
 	(void)(element_count);
 
 	if (RRR_ARRAY_MESSAGE_ITERATE_RAW_CALLBACK_HAS_TAG()) {
-		// Iterator will break out and return 1 if the tag is found
-		return 1;
+		callback_data->found = 1;
+		return RRR_ARRAY_ITERATE_STOP;
 	}
 
 	return 0;
@@ -1309,11 +1316,17 @@ int rrr_array_message_has_tag (
 		return 0;
 	}
 
+	struct rrr_array_message_has_tag_callback_data callback_data = {
+		tag,
+		0
+	};
+
+	// The tag is not found if the message is malformed
 	return rrr_array_message_iterate (
 			message_orig,
 			__rrr_array_message_has_tag_callback,
-			(void *) tag // Cast away const OK
-	);
+			&callback_data
+	) == 0 && callback_data.found;
 }
 
 struct rrr_array_message_clone_value_by_tag_callback_data {
-- 
2.43.0


From 84bb08f87a5a7ddb89213987eeac87bd2d3a373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:56 +0000
Subject: [PATCH 047/130] fix: fail export of fixp values instead of aborting

---
 src/lib/type.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index a8f1ee5..bd0a17c 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -788,13 +788,14 @@ static int __rrr_type_fixp_pack (RRR_TYPE_PACK_ARGS) {
 }
 
 static int __rrr_type_fixp_export (RRR_TYPE_EXPORT_ARGS) {
-	RRR_BUG("%s not implemented", __func__);
-
 	(void)(target);
-	(void)(written_bytes);
 	(void)(node);
 
-	return 0;
+	*written_bytes = 0;
+
+	RRR_MSG_0("Export of fixp values is not possible, the value must be converted to another type first\n");
+
+	return 1;
 }
 
 static int __rrr_type_blob_unpack (RRR_TYPE_UNPACK_ARGS) {
-- 
2.43.0


From 94998629a5a2839092d3c30fd5cba08b049c2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:27 +0000
Subject: [PATCH 048/130] fix: refuse fixed point numbers out of range

---
 src/lib/fixed_point.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/fixed_point.c b/src/lib/fixed_point.c
index c3459eb..266d1c4 100644
--- a/src/lib/fixed_point.c
+++ b/src/lib/fixed_point.c
@@ -403,10 +403,18 @@ int rrr_fixp_str_to_fixp (
 	factor = 1.0;
 	for (const char *pos = (dot != NULL ? dot - 1 : end - 1); pos >= start; pos--) {
 		char c = *pos;
-		result_integer += (uint64_t) (__rrr_fixp_convert_char(c) * factor);
+		long double position_value = __rrr_fixp_convert_char(c) * factor;
+		if (!(position_value <= RRR_FIXED_POINT_NUMBER_MAX)) {
+			return RRR_FIXED_POINT_PARSE_ERR;
+		}
+		result_integer += (uint64_t) position_value;
 		factor *= base;
 	}
 
+	if (result_integer > RRR_FIXED_POINT_NUMBER_MAX) {
+		return RRR_FIXED_POINT_PARSE_ERR;
+	}
+
 	result |= (result_integer << RRR_FIXED_POINT_BASE2_EXPONENT);
 	result &= ~((uint64_t) 1 << 63);
 
-- 
2.43.0


From 3f7c04b5c5cb4522895a4172e26df75f84f5736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:27 +0000
Subject: [PATCH 049/130] fix: write the sign of negative fixed point numbers
 in base 16

---
 src/lib/fixed_point.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/fixed_point.c b/src/lib/fixed_point.c
index 266d1c4..0941120 100644
--- a/src/lib/fixed_point.c
+++ b/src/lib/fixed_point.c
@@ -130,8 +130,11 @@ int rrr_fixp_to_str_16 (
 ) {
 	unsigned char buf[8];
 
-	source = (rrr_fixp) rrr_htobe64((uint64_t) source);
-	memcpy(buf, &source, sizeof(buf));
+	const char *sign = source < 0 ? "-" : "";
+	uint64_t positive = source < 0 ? 0 - (uint64_t) source : (uint64_t) source;
+
+	positive = rrr_htobe64(positive);
+	memcpy(buf, &positive, sizeof(buf));
 
 	char tmp_b[32];
 	int wpos = 0;
@@ -148,12 +151,12 @@ int rrr_fixp_to_str_16 (
 
 	tmp_b[wpos] = '\0';
 
-	size_t size = strlen("16#") + strlen(tmp_b) + 1;
+	size_t size = strlen("16#") + strlen(sign) + strlen(tmp_b) + 1;
 	if (size > target_size) {
 		return 1;
 	}
 
-	sprintf(target, "16#%s", tmp_b);
+	sprintf(target, "16#%s%s", sign, tmp_b);
 
 	return 0;
 }
-- 
2.43.0


From cc77fc70dc1d3e4c36201025381ed53b1a9958ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 050/130] fix: Make operators of equal priority in conditions
 left associative

---
 src/lib/condition.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index a8f93c7..cd5733e 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -305,7 +305,13 @@ static int __rrr_condition_shunting_yard_shunt_op (
 	else {
 		while (RRR_LL_COUNT(&shunting_yard->op_stack) > 0) {
 			struct rrr_condition_shunting_yard_carrier *carrier = RRR_LL_FIRST(&shunting_yard->op_stack);
-			if (carrier->op->prio < carrier_new->op->prio && carrier->op != operator_par_open) {
+			// Operators of equal priority are left associative, except from prefix operators
+			if (carrier->op != operator_par_open && (
+				carrier->op->prio < carrier_new->op->prio || (
+					carrier->op->prio == carrier_new->op->prio &&
+					carrier->op->prio != RRR_CONDITION_PRIORITY_SINGULAR
+				)
+			)) {
 				carrier = RRR_LL_SHIFT(&shunting_yard->op_stack);
 				RRR_LL_APPEND(shunting_yard, carrier);
 			}
-- 
2.43.0


From aae8e27e163d049a4ec01a28b4c431478a13609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 051/130] fix: Interpret - after end paranthesis in conditions
 as subtraction

---
 src/lib/condition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index cd5733e..d87e25e 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -402,7 +402,7 @@ int rrr_condition_interpret (
 		}
 
 		if (op != NULL) {
-			prev_was_op = 1;
+			prev_was_op = (op != operator_par_close);
 
 			if ((ret = __rrr_condition_shunting_yard_shunt_op (
 					&par_level,
-- 
2.43.0


From 3dcfa71ed14fa59c12a9976643d881a277e6cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 052/130] fix: Evaluate conditions which consist of a single
 value

---
 src/lib/condition.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index d87e25e..3824f59 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -912,6 +912,11 @@ int rrr_condition_evaluate (
 			)) != 0) {
 				goto out;
 			}
+
+			if (element_count == 1) {
+				// No operators in the expression
+				*result = position->result;
+			}
 		}
 	}
 
-- 
2.43.0


From 529bd8baa0bc52e11f0a7a12dab7f6904fbc862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 053/130] fix: Refuse conditions where an operator is missing
 its values

---
 src/lib/condition.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index 3824f59..d580dd8 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -245,7 +245,12 @@ static int __rrr_condition_shunting_yard_finalize (
 		int value_count = 0;
 		RRR_LL_ITERATE_BEGIN(shunting_yard, struct rrr_condition_shunting_yard_carrier);
 			if (node->op) {
-				if (node->op->prio != RRR_CONDITION_PRIORITY_SINGULAR) {
+				const int is_singular = node->op->prio == RRR_CONDITION_PRIORITY_SINGULAR;
+				if (value_count - op_count < (is_singular ? 1 : 2)) {
+					RRR_MSG_0("Missing value for operator %s in condition expression\n", node->op->op);
+					return RRR_CONDITION_SOFT_ERROR;
+				}
+				if (!is_singular) {
 					op_count++;
 				}
 			}
-- 
2.43.0


From bfdebc551b4c3c10f160c3876de7509897be4a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 054/130] fix: Refuse constants in conditions which do not fit
 in 64 bits

---
 src/lib/condition.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index d580dd8..4aa156b 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -21,6 +21,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <sys/types.h>
 #include <stdlib.h>
+#include <errno.h>
 #include <string.h>
 
 #include "condition.h"
@@ -346,6 +347,21 @@ static int __rrr_condition_shunting_yard_shunt_value (
 		goto out;
 	}
 
+	errno = 0;
+	if (*carrier_new->value == '-') {
+		strtoll(carrier_new->value, NULL, 10);
+	}
+	else if (*carrier_new->value != '{') {
+		strtoull(carrier_new->value, NULL, rrr_posix_strncasecmp(carrier_new->value, "0x", 2) == 0 ? 16 : 10);
+	}
+
+	if (errno == ERANGE) {
+		RRR_MSG_0("Value %s in condition is out of range\n", carrier_new->value);
+		__rrr_condition_shunting_yard_carrier_free_if_not_null(carrier_new);
+		ret = RRR_CONDITION_SOFT_ERROR;
+		goto out;
+	}
+
 	RRR_LL_APPEND(shunting_yard, carrier_new);
 
 	out:
-- 
2.43.0


From 4851101f5b4955ec8e5ae089b855755db3485dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 055/130] fix: Accept array value definitions of two characters

---
 src/lib/array_tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/array_tree.c b/src/lib/array_tree.c
index 834bb7b..40d6db1 100644
--- a/src/lib/array_tree.c
+++ b/src/lib/array_tree.c
@@ -795,7 +795,7 @@ static int __rrr_array_tree_interpret_node (
 			}
 		}
 
-		if (i < 2) {
+		if (i < 1) {
 			RRR_MSG_0("Array value definition was too short (less than 2 characters long)\n");
 			ret = RRR_ARRAY_TREE_SOFT_ERROR;
 			goto out_destroy;
-- 
2.43.0


From 0c4ef50f55ff518c586c3400411040ab725dbe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 056/130] fix: Refuse vain values with data in array messages

---
 src/lib/type.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index bd0a17c..6e08163 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -1190,7 +1190,10 @@ static int __rrr_type_import_str (RRR_TYPE_IMPORT_ARGS) {
 }
 
 static int __rrr_type_vain_unpack (RRR_TYPE_UNPACK_ARGS) {
-	(void)(node);
+	if (node->total_stored_length != 0) {
+		RRR_MSG_0("Length of vain type was not 0 in %s\n", __func__);
+		return 1;
+	}
 	return 0;
 }
 
-- 
2.43.0


From 92d8d8aff12344d2ac6c9deed7dba5f8e5125383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 057/130] fix: End nsep array values at SOH and STX

---
 src/lib/type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index 6e08163..0c6c1f9 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -1074,7 +1074,7 @@ static int __get_import_length_nsep (RRR_TYPE_GET_IMPORT_LENGTH_ARGS) {
 
 	// Parse any number of bytes until a separator is found.
 	for (const char *pos = start; pos < end; pos++) {
-		if (RRR_TYPE_CHAR_IS_SEP_A(*pos)||RRR_TYPE_CHAR_IS_SEP_F(*pos)) {
+		if (RRR_TYPE_CHAR_IS_SEP_A(*pos)||RRR_TYPE_CHAR_IS_SEP_F(*pos)||RRR_TYPE_CHAR_IS_STX(*pos)) {
 			if (length == 0) {
 				RRR_MSG_0("No characters found for array nsep-field, only separator found\n");
 				ret = RRR_TYPE_PARSE_SOFT_ERR;
-- 
2.43.0


From ceacb5836d8f533e40c21a0dc68e91a7899fbd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 058/130] fix: Convert all elements of array values to JSON

---
 src/lib/json/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/json/json.c b/src/lib/json/json.c
index 9f7d3ca..d192efb 100644
--- a/src/lib/json/json.c
+++ b/src/lib/json/json.c
@@ -449,7 +449,7 @@ static int __rrr_json_from_array_callback (
 		}
 
 		RRR_LL_ITERATE_BEGIN(node_values, const struct rrr_type_value);
-			if ((ret = __rrr_json_type_to_object(&object_new, RRR_LL_FIRST(node_values))) != 0) {
+			if ((ret = __rrr_json_type_to_object(&object_new, node)) != 0) {
 				goto out;
 			}
 			if ((ret = __rrr_json_array_add(array, &object_new)) != 0) {
-- 
2.43.0


From 4b70e67d1a097fee350b317e91aadba779c0e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 059/130] fix: Preserve NULL characters in strings from JSON

---
 src/lib/json/json.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/json/json.c b/src/lib/json/json.c
index d192efb..7fcebac 100644
--- a/src/lib/json/json.c
+++ b/src/lib/json/json.c
@@ -81,7 +81,13 @@ static int __rrr_json_to_array_recurse_object (
 
 			RRR_DBG_3("        => STRING %s\n", value);
 
-			if ((ret = rrr_array_push_value_str_with_tag(&array_tmp, key, value)) != 0) {
+			// String may contain NULL characters
+			if ((ret = rrr_array_push_value_str_with_tag_with_size (
+					&array_tmp,
+					key,
+					value,
+					(rrr_length) json_object_get_string_len(object)
+			)) != 0) {
 				goto out;
 			}
 		}
-- 
2.43.0


From 5a7ac00e2e4ef78d643e86844507821aaffe0dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 060/130] fix: Preserve large unsigned integers from JSON

---
 src/lib/json/json.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib/json/json.c b/src/lib/json/json.c
index 7fcebac..ed2d686 100644
--- a/src/lib/json/json.c
+++ b/src/lib/json/json.c
@@ -94,6 +94,22 @@ static int __rrr_json_to_array_recurse_object (
 		else if (type == json_type_int) {
 			const int64_t value = json_object_get_int64(object);
 
+#ifdef RRR_HAVE_JSONC_NEW_UINT64
+			// The signed value is clamped if it is out of range
+			const uint64_t value_unsigned = value == INT64_MAX ? json_object_get_uint64(object) : 0;
+
+			if (value_unsigned > INT64_MAX) {
+				RRR_DBG_3("        => UINT %" PRIu64 "\n", value_unsigned);
+
+				if ((ret = rrr_array_push_value_u64_with_tag(&array_tmp, key, value_unsigned)) != 0) {
+					goto out;
+				}
+
+				json_object_iter_next(&iterator);
+				continue;
+			}
+#endif
+
 			RRR_DBG_3("        => INT %" PRIi64 "\n", value);
 
 			if ((ret = rrr_array_push_value_i64_with_tag(&array_tmp, key, value)) != 0) {
-- 
2.43.0


From a41d2d02e6839779300c9103479e9f15928165b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 061/130] fix: Refuse floating point values out of range in
 fixed point conversion

---
 src/lib/fixed_point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/fixed_point.c b/src/lib/fixed_point.c
index 0941120..7772c90 100644
--- a/src/lib/fixed_point.c
+++ b/src/lib/fixed_point.c
@@ -70,7 +70,7 @@ int rrr_fixp_ldouble_to_fixp (
 	int sign = 0;
 	uint64_t result = 0;
 
-	if (!isfinite(fraction)) {
+	if (!isfinite(source) || !isfinite(fraction) || fabsl(integer) > RRR_FIXED_POINT_NUMBER_MAX) {
 		return 1;
 	}
 
-- 
2.43.0


From 6b52edbb9b56c95a6f499324aa5c43bf6cc1574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 062/130] fix: Convert fixed point values to JSON numbers

---
 src/lib/json/json.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib/json/json.c b/src/lib/json/json.c
index ed2d686..7a6f548 100644
--- a/src/lib/json/json.c
+++ b/src/lib/json/json.c
@@ -330,6 +330,23 @@ static int __rrr_json_type_to_object (
 #endif
 			}
 		}
+		else if (RRR_TYPE_IS_FIXP(value->definition->type)) {
+			rrr_fixp value_fixp;
+			long double value_double;
+			char buf[512];
+
+			memcpy(&value_fixp, value->data, sizeof(value_fixp));
+
+			if ( rrr_fixp_to_ldouble(&value_double, value_fixp) != 0 ||
+			     rrr_fixp_to_str_double(buf, sizeof(buf), value_fixp) != 0
+			) {
+				RRR_MSG_0("Could not convert fixed point value in %s\n", __func__);
+				ret = 1;
+				goto out;
+			}
+
+			object_new = json_object_new_double_s((double) value_double, buf);
+		}
 		else {
 			if (value->total_stored_length > INT_MAX) {
 				RRR_MSG_0("Cannot convery array value to JSON string, data too long (%llu>%llu)\n",
-- 
2.43.0


From 3217d2a525c889c8d4d7d26f8c3706a4243b2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 063/130] fix: parser: do not read past end of input, refuse
 missing names in definitions

---
 src/lib/configuration.c |  5 ++++-
 src/lib/parse.c         | 38 +++++++++++++++++++++-----------------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/lib/configuration.c b/src/lib/configuration.c
index c633e85..0130f86 100644
--- a/src/lib/configuration.c
+++ b/src/lib/configuration.c
@@ -202,6 +202,7 @@ static int __rrr_config_parse_block (
 
 	if (callback_data.name_main == NULL) {
 		RRR_MSG_0("Block name missing after [\n");
+		ret = 1;
 		goto out;
 	}
 
@@ -261,7 +262,8 @@ static int __rrr_config_parse_array_tree (
 	}
 
 	if (name == NULL) {
-		RRR_MSG_0("Array tree name missing after [\n");
+		RRR_MSG_0("Array tree name missing after {\n");
+		ret = 1;
 		goto out;
 	}
 
@@ -307,6 +309,7 @@ static int __rrr_config_parse_discern_stack (
 	if (name == NULL) {
 		RRR_MSG_0("Definition name for %s missing after %c\n",
 			type_name, delimeters[0]);
+		ret = 1;
 		goto out;
 	}
 
diff --git a/src/lib/parse.c b/src/lib/parse.c
index f8de84b..96f1657 100644
--- a/src/lib/parse.c
+++ b/src/lib/parse.c
@@ -126,11 +126,12 @@ void rrr_parse_comment (
 		return;
 	}
 
-	char c = pos->data[pos->pos];
-
-	while (c != '\r' && c != '\n' && pos->pos < pos->size) {
+	while (!RRR_PARSE_CHECK_EOF(pos)) {
+		const char c = pos->data[pos->pos];
+		if (c == '\r' || c == '\n') {
+			break;
+		}
 		pos->pos++;
-		c = pos->data[pos->pos];
 	}
 
 	rrr_parse_ignore_spaces_and_increment_line(pos);
@@ -282,8 +283,8 @@ void rrr_parse_match_until (
 	rrr_length pos_orig = pos->pos;
 
 	int found = 0;
-	char c = pos->data[pos->pos];
 	while (!RRR_PARSE_CHECK_EOF(pos)) {
+		const char c = pos->data[pos->pos];
 		if (__rrr_parse_match_char(c, flags)) {
 			found = 1;
 			break;
@@ -296,7 +297,6 @@ void rrr_parse_match_until (
 			}
 			break;
 		}
-		c = pos->data[pos->pos];
 	}
 
 	if (found == 0) {
@@ -315,17 +315,13 @@ void rrr_parse_non_newline (
 	*start = pos->pos;
 	*end = pos->pos;
 
-	char c = pos->data[pos->pos];
 	while (!RRR_PARSE_CHECK_EOF(pos)) {
+		const char c = pos->data[pos->pos];
 		if (c == '\r' || c == '\n') {
 			break;
 		}
 
 		pos->pos++;
-		if (RRR_PARSE_CHECK_EOF(pos)) {
-			break;
-		}
-		c = pos->data[pos->pos];
 	}
 
 	*end = (rrr_slength) pos->pos - 1;
@@ -339,17 +335,13 @@ void rrr_parse_non_control (
 	*start = pos->pos;
 	*end = pos->pos;
 
-	char c = pos->data[pos->pos];
 	while (!RRR_PARSE_CHECK_EOF(pos)) {
+		const char c = pos->data[pos->pos];
 		if (RRR_PARSE_MATCH_C_CONTROL(c)) {
 			break;
 		}
 
 		pos->pos++;
-		if (RRR_PARSE_CHECK_EOF(pos)) {
-			break;
-		}
-		c = pos->data[pos->pos];
 	}
 
 	*end = (rrr_slength) pos->pos - 1;
@@ -563,12 +555,20 @@ static int __rrr_parse_str_extract_name_with_subscript (
 
 	rrr_parse_ignore_spaces_and_increment_line(pos);
 
+	if (RRR_PARSE_CHECK_EOF(pos)) {
+		goto out_missing_end_char;
+	}
+
 	const char cur_char = *(pos->data + pos->pos);
-	if (RRR_PARSE_CHECK_EOF(pos) || (cur_char != end_char && cur_char != subscript_char)) {
+	if (cur_char != end_char && cur_char != subscript_char) {
 		goto out_missing_end_char;
 	}
 	rrr_length_inc_bug(&pos->pos);
 
+	if (end < start) {
+		goto out_missing_name;
+	}
+
 	rrr_length name_length = rrr_length_inc_bug_const(rrr_length_from_slength_sub_bug_const(end, start));
 	if ((name = rrr_allocate(name_length + 1)) == NULL) {
 		goto out_failed_alloc;
@@ -609,6 +609,10 @@ static int __rrr_parse_str_extract_name_with_subscript (
 		RRR_MSG_0("End character %c or subscription %c missing after name\n", end_char, subscript_char);
 		ret = 1;
 		goto out;
+	out_missing_name:
+		RRR_MSG_0("Name missing before character %c\n", cur_char);
+		ret = 1;
+		goto out;
 	out:
 		RRR_FREE_IF_NOT_NULL(name);
 		return ret;
-- 
2.43.0


From 40b05b3a22ed557d59568f8200972fd2ae47cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 064/130] fix: settings: refuse numbers out of range, read
 unsigned integer settings, free replaced value

---
 src/lib/settings.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/settings.c b/src/lib/settings.c
index 14977f9..4906177 100644
--- a/src/lib/settings.c
+++ b/src/lib/settings.c
@@ -20,6 +20,8 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 */
 
 #include <stdlib.h>
+#include <errno.h>
+#include <math.h>
 #include <string.h>
 
 #include "log.h"
@@ -52,7 +54,7 @@ static int __rrr_settings_init (
 
 	memset(target, '\0', sizeof(*target));
 
-	target->settings = rrr_allocate(sizeof(*(target->settings)) * count);
+	target->settings = rrr_allocate_zero(sizeof(*(target->settings)) * count);
 	if (target->settings == NULL) {
 		RRR_MSG_0("Could not allocate memory in __rrr_settings_init\n");
 		ret = 1;
@@ -293,6 +295,7 @@ static int __rrr_settings_add_raw (
 		goto out_free;
 	}
 
+	RRR_FREE_IF_NOT_NULL(setting->data);
 	memset (setting, '\0', sizeof(*setting));
 
 	if ((ret = __rrr_settings_set_setting_name(setting, name)) != 0) {
@@ -652,7 +655,7 @@ int rrr_settings_setting_to_uint (
 		}
 		*target = *((rrr_setting_uint*) setting->data);
 	}
-	if (setting->type == RRR_SETTINGS_TYPE_DOUBLE) {
+	else if (setting->type == RRR_SETTINGS_TYPE_DOUBLE) {
 		if (sizeof(rrr_setting_double) != setting->data_size) {
 			RRR_BUG("BUG: Setting double size mismatch\n");
 		}
@@ -676,9 +679,10 @@ int rrr_settings_setting_to_uint (
 		}
 
 		char *end;
+		errno = 0;
 		rrr_setting_uint tmp = strtoull(tmp_string, &end, 10);
 
-		if (*end != '\0') {
+		if (*end != '\0' || end == tmp_string || errno == ERANGE) {
 			ret = RRR_SETTING_PARSE_ERROR;
 			RRR_MSG_0("Syntax error while converting setting '%s' with value '%s' to unsigned integer\n", setting->name, tmp_string);
 			goto out;
@@ -712,7 +716,7 @@ int rrr_settings_setting_to_double (
 		}
 		*target = (rrr_setting_double) *((rrr_setting_uint*) setting->data);
 	}
-	if (setting->type == RRR_SETTINGS_TYPE_DOUBLE) {
+	else if (setting->type == RRR_SETTINGS_TYPE_DOUBLE) {
 		if (sizeof(rrr_setting_double) != setting->data_size) {
 			RRR_BUG("BUG: Setting double size mismatch\n");
 		}
@@ -738,7 +742,7 @@ int rrr_settings_setting_to_double (
 		char *end;
 		rrr_setting_double tmp = strtod(tmp_string, &end);
 
-		if (*end != '\0') {
+		if (*end != '\0' || end == tmp_string || tmp == HUGE_VAL) {
 			ret = RRR_SETTING_PARSE_ERROR;
 			RRR_MSG_0("Syntax error while converting setting '%s' with value '%s' to double\n", setting->name, tmp_string);
 			goto out;
-- 
2.43.0


From ceba0276e62ad2bf1dfff2c0ea83e52a8f09f6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 065/130] fix: cmdline: refuse empty, negative and too large
 numbers and values given to flags

---
 src/lib/cmdlineparser/cmdline.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/lib/cmdlineparser/cmdline.c b/src/lib/cmdlineparser/cmdline.c
index 16ba6ed..78f1276 100644
--- a/src/lib/cmdlineparser/cmdline.c
+++ b/src/lib/cmdlineparser/cmdline.c
@@ -23,6 +23,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include <stdio.h>
 #include <stddef.h>
 #include <stdlib.h>
+#include <errno.h>
 #include <inttypes.h>
 
 #include "cmdline.h"
@@ -151,7 +152,7 @@ int cmd_convert_hex_byte(const char *value, char *result) {
 	char *err;
 	long int intermediate = strtol(value, &err, 16);
 
-	if (err[0] != '\0' || intermediate < 0 || intermediate > 0xff) {
+	if (err[0] != '\0' || err == value || intermediate < 0 || intermediate > 0xff) {
 		return 1;
 	}
 
@@ -162,9 +163,11 @@ int cmd_convert_hex_byte(const char *value, char *result) {
 
 int cmd_convert_hex_64(const char *value, uint64_t *result) {
 	char *err;
+	errno = 0;
 	uint64_t intermediate = strtoull(value, &err, 16);
 
-	if (err[0] != '\0') {
+	// Note that strtoull accepts negative numbers
+	if (err[0] != '\0' || err == value || errno == ERANGE || strchr(value, '-') != NULL) {
 		return 1;
 	}
 
@@ -175,9 +178,11 @@ int cmd_convert_hex_64(const char *value, uint64_t *result) {
 
 int cmd_convert_uint64_10(const char *value, uint64_t *result) {
 	char *err;
+	errno = 0;
 	*result = strtoull(value, &err, 10);
 
-	if (err[0] != '\0') {
+	// Note that strtoull accepts negative numbers
+	if (err[0] != '\0' || err == value || errno == ERANGE || strchr(value, '-') != NULL) {
 		return 1;
 	}
 
@@ -186,9 +191,10 @@ int cmd_convert_uint64_10(const char *value, uint64_t *result) {
 
 int cmd_convert_integer_10(const char *value, long int *result) {
 	char *err;
+	errno = 0;
 	*result = strtol(value, &err, 10);
 
-	if (err[0] != '\0') {
+	if (err[0] != '\0' || err == value || errno == ERANGE) {
 		return 1;
 	}
 
@@ -199,7 +205,7 @@ int cmd_convert_float(const char *value, float *result) {
 	char *err;
 	*result = strtof(value, &err);
 
-	if (err[0] != '\0') {
+	if (err[0] != '\0' || err == value) {
 		return 1;
 	}
 
@@ -399,7 +405,7 @@ static const struct cmd_arg_rule *__cmd_get_rule_by_longname (const struct cmd_a
 	const struct cmd_arg_rule *rule = NULL;
 	rule = &rules[i];
 	while (rule->longname != NULL) {
-		if ((rule->flags & CMD_ARG_FLAG_NO_FLAG) == 0 && strcmp(rule->longname, longname) == 0) {
+		if ((rule->flags & (CMD_ARG_FLAG_NO_FLAG|CMD_ARG_FLAG_NO_FLAG_MULTI)) == 0 && strcmp(rule->longname, longname) == 0) {
 			return rule;
 		}
 		i++;
@@ -413,7 +419,7 @@ static const struct cmd_arg_rule *__cmd_get_rule_by_shortname (const struct cmd_
 	const struct cmd_arg_rule *rule = NULL;
 	rule = &rules[i];
 	while (rule->longname != NULL) {
-		if ((rule->flags & CMD_ARG_FLAG_NO_FLAG) == 0 && rule->shortname == shortname) {
+		if ((rule->flags & (CMD_ARG_FLAG_NO_FLAG|CMD_ARG_FLAG_NO_FLAG_MULTI)) == 0 && rule->shortname == shortname) {
 			return rule;
 		}
 		i++;
@@ -503,6 +509,10 @@ int cmd_parse (struct cmd_data *data, cmd_conf config) {
 					return 1;
 				}
 				else if ((rule->flags & CMD_ARG_FLAG_HAS_ARGUMENT) == 0) {
+					if (pos_equal != NULL) {
+						fprintf (stderr, "Error: Argument given to '%c' which takes no arguments\n", *(pos+j));
+						return 1;
+					}
 					struct cmd_arg_pair *pair = NULL;
 					if (__cmd_arg_pair_new(&pair, rule) != 0) {
 						return 1;
-- 
2.43.0


From 8dc3afae7d55b2c0bb93136a49699f0164e1e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 066/130] fix: configuration: refuse trailing data after
 definition names, free array definition on errors, accept packed setting
 names of maximum length

---
 src/lib/instance_config.c | 12 +++++++++++-
 src/lib/settings.c        |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib/instance_config.c b/src/lib/instance_config.c
index 2fd1f6b..c50b2af 100644
--- a/src/lib/instance_config.c
+++ b/src/lib/instance_config.c
@@ -401,7 +401,7 @@ static int __rrr_instance_config_parse_name_or_definition_from_config_silent_fai
 			if (rrr_parse_match_word(&pos, ",")) {
 				rrr_parse_ignore_space_and_tab(&pos);
 				if (!rrr_parse_match_word(&pos, tag_start)) {
-					RRR_MSG_0("Expected tag start %s after comma\n");
+					RRR_MSG_0("Expected tag start %s after comma\n", tag_start);
 					ret = 1;
 					goto out;
 				}
@@ -409,6 +409,12 @@ static int __rrr_instance_config_parse_name_or_definition_from_config_silent_fai
 			}
 		} while (comma);
 
+		if (!RRR_PARSE_CHECK_EOF(&pos)) {
+			RRR_MSG_0("Extra data after name indicated by %s\n", tag_start);
+			ret = 1;
+			goto out;
+		}
+
 		goto out;
 	}
 
@@ -538,8 +544,12 @@ int rrr_instance_config_parse_array_tree_definition_from_config_silent_fail (
 	assert(callback_data.new_tree != NULL);
 
 	*target_array_tree = callback_data.new_tree;
+	callback_data.new_tree = NULL;
 
 	out:
+	if (callback_data.new_tree != NULL) {
+		rrr_array_tree_destroy(callback_data.new_tree);
+	}
 	return ret;
 }
 
diff --git a/src/lib/settings.c b/src/lib/settings.c
index 4906177..e88fc90 100644
--- a/src/lib/settings.c
+++ b/src/lib/settings.c
@@ -1082,7 +1082,7 @@ int rrr_settings_packed_validate (
 
 	const char *end = setting->name + sizeof(setting->name) - 1;
 	int null_ok = 0;
-	for (const char *pos = setting->name; pos != end; pos++) {
+	for (const char *pos = setting->name; pos <= end; pos++) {
 		if (*pos == '\0') {
 			null_ok = 1;
 		}
-- 
2.43.0


From 0172315addb77614ca2d5b6d8a896817c16d7341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 067/130] fix: parser: do not treat non-ASCII bytes as control
 characters

---
 src/lib/parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/parse.h b/src/lib/parse.h
index 0b1e750..27bb6e5 100644
--- a/src/lib/parse.h
+++ b/src/lib/parse.h
@@ -64,7 +64,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #define RRR_PARSE_MATCH_C_NULL(c) 		\
 	((c) == '\0')
 #define RRR_PARSE_MATCH_C_CONTROL(c)	\
-	((c) <= 0x1f)
+	((unsigned char) (c) <= 0x1f)
 #define RRR_PARSE_MATCH_C_TAG(c)	\
 	(RRR_PARSE_MATCH_C_LETTER(c) || RRR_PARSE_MATCH_C_NUMBER(c))
 
-- 
2.43.0


From ad31a082e220319c6aa2c28f5a3b8f7edce92388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 068/130] fix: configuration: allow comment after definition
 name

---
 src/lib/instance_config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/instance_config.c b/src/lib/instance_config.c
index c50b2af..aaf9a4b 100644
--- a/src/lib/instance_config.c
+++ b/src/lib/instance_config.c
@@ -409,7 +409,8 @@ static int __rrr_instance_config_parse_name_or_definition_from_config_silent_fai
 			}
 		} while (comma);
 
-		if (!RRR_PARSE_CHECK_EOF(&pos)) {
+		// Comments may follow
+		if (!RRR_PARSE_CHECK_EOF(&pos) && *(pos.data + pos.pos) != '#') {
 			RRR_MSG_0("Extra data after name indicated by %s\n", tag_start);
 			ret = 1;
 			goto out;
-- 
2.43.0


From de3984e2c5a6e73802bcf22ec57adf5a5210bae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 069/130] fix: passwd: compare complete hashes, refuse
 malformed hashes, salts and null bytes without aborting

---
 src/lib/passwd.c | 28 +++++++++++++++++++++++++---
 src/lib/passwd.h |  1 +
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/lib/passwd.c b/src/lib/passwd.c
index 1169b79..1eb09db 100644
--- a/src/lib/passwd.c
+++ b/src/lib/passwd.c
@@ -165,7 +165,10 @@ static int __rrr_passwd_check_base64 (
 		goto out;
 	}
 
-	if (memcmp(hash, base64_tmp, strlen(hash)) == 0) {
+	// Encoder inserts newlines
+	rrr_parse_str_strip_newlines((char *) base64_tmp);
+
+	if (strcmp(hash, (const char *) base64_tmp) == 0) {
 		ret = 0; // Authenticated
 	}
 	else {
@@ -212,7 +215,9 @@ static int __rrr_passwd_openssl_encrypt (
 	}
 
 	if (salt_bin_length < RRR_PASSWD_SALT_BYTES) {
-		RRR_BUG("BUG:Salt too short in __rrr_passwd_openssl_encrypt\n");
+		RRR_MSG_0("Salt too short in __rrr_passwd_openssl_encrypt\n");
+		ret = 1;
+		goto out;
 	}
 
 	size_t password_plain_length = strlen(password_plain);
@@ -264,6 +269,11 @@ static int __rrr_passwd_check_openssl (
 		goto out;
 	}
 
+	if (hash_raw_length != RRR_PASSWD_HASH_KEY_LENGTH) {
+		RRR_MSG_0("Wrong length of hash in __rrr_passwd_check_openssl\n");
+		goto out;
+	}
+
 	if (__rrr_passwd_openssl_encrypt(tmp, password, (const unsigned char *) salt) != 0) {
 		goto out;
 	}
@@ -326,6 +336,11 @@ static int __rrr_passwd_check_callback (
 		goto out;
 	}
 
+	if (*enctype != '\0' && enctype[1] != '\0') {
+		RRR_MSG_0("Enctype '%s' unknown for password\n", enctype);
+		goto out;
+	}
+
 	switch (*(enctype)) {
 		case RRR_PASSWD_ENCTYPE_BASE64:
 			if (*salt != '\0') {
@@ -410,6 +425,7 @@ int rrr_passwd_encrypt (
 	sprintf(final, "$%c$%s$", RRR_PASSWD_ENCTYPE_OPENSSL, base64_tmp);
 
 	if (__rrr_passwd_openssl_encrypt(tmp, password, (const unsigned char *) base64_tmp) != 0) {
+		ret = 1;
 		goto out;
 	}
 
@@ -503,7 +519,7 @@ static int __rrr_passwd_iterate_lines_split_columns_callback (
 	return rrr_parse_str_split (
 			callback_data->permissions,
 			',',
-			32,
+			RRR_PASSWD_PERMISSIONS_MAX,
 			__rrr_passwd_iterate_lines_split_permissions_callback,
 			arg
 	);
@@ -539,6 +555,12 @@ int rrr_passwd_iterate_lines (
 			NULL
 	};
 
+	if (input_data_size > 0 && memchr(input_data, '\0', input_data_size) != NULL) {
+		RRR_MSG_0("Null byte found in password file\n");
+		ret = 1;
+		goto out;
+	}
+
 	while (!RRR_PARSE_CHECK_EOF(&parse_pos)) {
 		rrr_length line_start = 0;
 		rrr_slength line_end = 0;
diff --git a/src/lib/passwd.h b/src/lib/passwd.h
index bb30780..6870e3c 100644
--- a/src/lib/passwd.h
+++ b/src/lib/passwd.h
@@ -23,6 +23,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #define RRR_PASSWD_H
 
 #define RRR_PASSWD_MAX_INPUT_LENGTH 1024
+#define RRR_PASSWD_PERMISSIONS_MAX 32
 
 #include "rrr_types.h"
 #include "util/linked_list.h"
-- 
2.43.0


From aa62e6a9c8e354208524a4b14239566ad41130a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 070/130] fix: rrr_passwd: replace password file atomically,
 complete short writes, refuse names and permissions which break the file

---
 src/rrr_passwd.c | 85 +++++++++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 37 deletions(-)

diff --git a/src/rrr_passwd.c b/src/rrr_passwd.c
index dbfd1a3..9bf017b 100644
--- a/src/rrr_passwd.c
+++ b/src/rrr_passwd.c
@@ -123,6 +123,10 @@ static int __rrr_passwd_validate_str (const char *str) {
 		RRR_MSG_0("Invalid character ','\n");
 		ret = 1;
 	}
+	if (strpbrk(str, "\r\n") != NULL) {
+		RRR_MSG_0("Invalid newline character\n");
+		ret = 1;
+	}
 
 	return ret;
 }
@@ -225,6 +229,13 @@ static int __rrr_passwd_parse_config (struct rrr_passwd_data *data, struct cmd_d
 		goto out;
 	}
 
+	// Leading spaces are ignored when the file is read
+	if (strchr(" \t", *username) != NULL) {
+		RRR_MSG_0("Username may not begin with space\n");
+		ret = 1;
+		goto out;
+	}
+
 	// Validate option combinations
 	if (data->do_remove_user != 0) {
 		if (	data->do_create_user != 0 ||
@@ -250,8 +261,27 @@ static int __rrr_passwd_parse_config (struct rrr_passwd_data *data, struct cmd_d
 	return ret;
 }
 
+static int __rrr_passwd_write_all (
+		int fd,
+		const char *data,
+		size_t size
+) {
+	while (size > 0) {
+		ssize_t bytes = write(fd, data, size);
+		if (bytes < 0 && errno == EINTR) {
+			continue;
+		}
+		if (bytes <= 0) {
+			return 1;
+		}
+		data += bytes;
+		size -= (size_t) bytes;
+	}
+	return 0;
+}
+
 #define WRITE_AND_CHECK(str,len)                               \
-    if (write(fd, str, len) < 0) {                             \
+    if (__rrr_passwd_write_all(fd, str, len) != 0) {                             \
         RRR_MSG_0("Could not write to output file in process_line_callback\n"); \
         ret = 1;                                               \
         goto out;                                              \
@@ -300,6 +330,11 @@ static int __rrr_passwd_write_user (
 	int permissions_total = 0;
 	RRR_LL_ITERATE_BEGIN(&permissions_tmp, const struct rrr_passwd_permission);
 		if (*(node->permission) != '\0') {
+			if (permissions_total == RRR_PASSWD_PERMISSIONS_MAX) {
+				RRR_MSG_0("Too many permissions for user '%s', maximum is %i\n", username, RRR_PASSWD_PERMISSIONS_MAX);
+				ret = 1;
+				goto out;
+			}
 			if (permissions_total > 0) {
 				WRITE_AND_CHECK(",", 1);
 			}
@@ -450,11 +485,10 @@ int main (int argc, const char **argv, const char **env) {
 	}
 	rrr_strerror_init();
 
-	int fd_out = 0;
+	int fd_out = -1;
 	rrr_biglength passwd_file_size = 0;
 	char *passwd_file_contents = NULL;
 	char *temporary_file_name = NULL;
-	char *oldfile_name = NULL;
 
 	struct cmd_data cmd;
 	struct rrr_passwd_data data;
@@ -517,14 +551,8 @@ int main (int argc, const char **argv, const char **env) {
 		goto out;
 	}
 
-	if (rrr_asprintf(&oldfile_name, "%s.old", data.filename) < 0) {
-		RRR_MSG_0("Could not create oldfile name\n");
-		ret = EXIT_FAILURE;
-		goto out;
-	}
-
 	if (data.do_stdout != 0) {
-		fd_out = 0; // STDOUT
+		fd_out = STDOUT_FILENO;
 	}
 	else {
 		if ((fd_out = rrr_socket_mkstemp(temporary_file_name, "rrr_passwd")) <= 0) {
@@ -569,51 +597,34 @@ int main (int argc, const char **argv, const char **env) {
 		goto out;
 	}
 
-	if (fd_out > 0) {
-		if (rename(data.filename, oldfile_name) != 0) {
-			RRR_MSG_0("Could not move original file '%s' ot '%s': %s\n",
-					data.filename, oldfile_name, rrr_strerror(errno));
-			ret = 1;
+	if (data.do_stdout == 0) {
+		// Replace the original atomically
+		if (fsync(fd_out) != 0) {
+			RRR_MSG_0("Could not synchronize temporary file '%s': %s\n",
+					temporary_file_name, rrr_strerror(errno));
+			ret = EXIT_FAILURE;
 			goto out;
 		}
 
-		// After this, all gotos after errors are to restore_oldfile
-
 		if (rename(temporary_file_name, data.filename) != 0) {
 			RRR_MSG_0("Could not rename temporary file '%s' to '%s': %s\n",
 					temporary_file_name, data.filename, rrr_strerror(errno));
-			ret = 1;
-			goto out_restore_oldfile;
+			ret = EXIT_FAILURE;
+			goto out;
 		}
-
-		// Oldfile gets unlinked below
 	}
 
-	goto out;
-
-	out_restore_oldfile:
-		if (rename(oldfile_name, data.filename)) {
-			RRR_MSG_0("Warning: Could not restore oldfile '%s' to original file '%s' while recovering from error, this must be fixed manually. Original file is now missing.: %s\n",
-					oldfile_name, data.filename, rrr_strerror(errno));
-			// Make sure oldfile (which is now the original file) is not unlinked
-			RRR_FREE_IF_NOT_NULL(oldfile_name);
-		}
 	out:
 		RRR_FREE_IF_NOT_NULL(passwd_file_contents);
 		// Looks like Linux unlinks the file in case we forget, but this does not
 		// seem to be documented. Unlink here.
-		if (temporary_file_name != NULL && *temporary_file_name != '\0' && fd_out > 0) {
+		if (temporary_file_name != NULL && data.do_stdout == 0 && fd_out > 0) {
 			// Ignore results in case we attempt to unlink the XXXXXX version
 			unlink(temporary_file_name);
 		}
-		if (oldfile_name != NULL && *oldfile_name != '\0') {
-			unlink(oldfile_name);
-		}
-
-		RRR_FREE_IF_NOT_NULL(oldfile_name);
 		RRR_FREE_IF_NOT_NULL(temporary_file_name);
 
-		if (fd_out > 0) {
+		if (data.do_stdout == 0 && fd_out > 0) {
 			rrr_socket_close(fd_out);
 		}
 		rrr_config_set_debuglevel_on_exit();
-- 
2.43.0


From b3fa5e0f82524d456c994919d66466a2cdb465ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 071/130] fix: discern stack: refuse definition without
 elements

---
 src/lib/discern_stack.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/discern_stack.c b/src/lib/discern_stack.c
index 7877408..7ab759e 100644
--- a/src/lib/discern_stack.c
+++ b/src/lib/discern_stack.c
@@ -1113,6 +1113,14 @@ static int __rrr_discern_stack_parse (
 		}
 	}
 
+	if (list.wpos == 0) {
+		// Only comments and spaces before EOF
+		RRR_MSG_0("Unexpected end of file while parsing discern stack definition\n");
+		ret = 1;
+		*fault = RRR_DISCERN_STACK_FAULT_END_MISSING;
+		goto out;
+	}
+
 	if (stack.wpos != 0) {
 		// Happens if POP is missing and we reach EOF
 		RRR_MSG_0("Discern definition would not have empty stack after execution, maybe there are not enough POP operators?\n");
-- 
2.43.0


From ccce8df7ab9e12f01703a621f54ad05407f24cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:25 +0000
Subject: [PATCH 072/130] fix: modbus: release transaction of refused response

---
 src/lib/modbus/rrr_modbus.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/modbus/rrr_modbus.c b/src/lib/modbus/rrr_modbus.c
index 7a853c9..7b4a15c 100644
--- a/src/lib/modbus/rrr_modbus.c
+++ b/src/lib/modbus/rrr_modbus.c
@@ -425,14 +425,16 @@ static int __rrr_modbus_client_receive_16_write_multiple_registers (
     do {if (frame_size > sizeof(frame->mbap) + sizeof(frame->res.type) + sizeof(frame->res.function_code)) {  \
         RRR_MSG_0("Max frame size exceeded for received frame %" PRIrrrl ">%llu\n",                           \
 	    frame_size, (unsigned long long) (sizeof(frame->mbap) + sizeof(frame->res.type)));                \
-        return RRR_MODBUS_SOFT_ERROR;                                                                         \
+        ret = RRR_MODBUS_SOFT_ERROR;                                                                          \
+        goto out;                                                                                             \
     }} while(0)
 
 #define VALIDATE_TRANSACTION_FUNCTION_CODE(code)                                       \
     do {if (code != transaction.req.function_code) {                                   \
         RRR_MSG_0("Function code mismatch for received frame %d<>%d\n",                \
             frame->res.function_code - 0x80, transaction.req.function_code);           \
-        return RRR_MODBUS_SOFT_ERROR;                                                  \
+        ret = RRR_MODBUS_SOFT_ERROR;                                                   \
+        goto out;                                                                      \
     }} while(0)
 
 static int __rrr_modbus_client_receive (
-- 
2.43.0


From ffaeefe698be20953666a788090955b2f5ba2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:00 +0000
Subject: [PATCH 073/130] fix: modbus: refuse frames of other protocols

---
 src/lib/modbus/rrr_modbus.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/modbus/rrr_modbus.c b/src/lib/modbus/rrr_modbus.c
index 7b4a15c..e28ad95 100644
--- a/src/lib/modbus/rrr_modbus.c
+++ b/src/lib/modbus/rrr_modbus.c
@@ -554,6 +554,12 @@ int rrr_modbus_client_read (
 
 	const rrr_length frame_size = data_pos + frame.mbap.length;
 
+	if (frame.mbap.protocol_identifier != 0) {
+		RRR_MSG_0("Received frame with unknown protocol identifier %u\n", frame.mbap.protocol_identifier);
+		ret = RRR_MODBUS_SOFT_ERROR;
+		goto out;
+	}
+
 	if (frame.mbap.length < 1) {
 		RRR_MSG_0("Received frame with zero in length field\n");
 		ret = RRR_MODBUS_SOFT_ERROR;
-- 
2.43.0


From a481c2c4274c8c53dcbf29dbd7905e400cc658eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:00 +0000
Subject: [PATCH 074/130] fix: modbus: refuse error response without exception
 code

---
 src/lib/modbus/rrr_modbus.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/modbus/rrr_modbus.c b/src/lib/modbus/rrr_modbus.c
index e28ad95..fc14d2e 100644
--- a/src/lib/modbus/rrr_modbus.c
+++ b/src/lib/modbus/rrr_modbus.c
@@ -458,7 +458,11 @@ static int __rrr_modbus_client_receive (
 	}
 
 	if (frame->res.function_code > 0x80) {
-		VALIDATE_FRAME_SIZE(error);
+		if (frame_size != sizeof(frame->mbap) + sizeof(frame->res.error) + sizeof(frame->res.function_code)) {
+			RRR_MSG_0("Unexpected frame size %" PRIrrrl " for received error frame\n", frame_size);
+			ret = RRR_MODBUS_SOFT_ERROR;
+			goto out;
+		}
 		VALIDATE_TRANSACTION_FUNCTION_CODE(frame->res.function_code - 0x80);
 		if (client->callbacks.cb_res_error == NULL) {
 			RRR_BUG("Error callback not set in %s\n", __func__);
-- 
2.43.0


From 30600a795cb0de4916efec047bbe54245f69d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 075/130] fix: websocket: check overflow of frame length

---
 src/lib/websocket/websocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 3a99193..46edc09 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -360,7 +360,7 @@ int __rrr_websocket_get_target_size (
 
 	rrr_biglength target_len = header_new.header_len + header_new.payload_len;
 
-	if (target_len > (rrr_biglength) SSIZE_MAX) {
+	if (target_len > (rrr_biglength) SSIZE_MAX || target_len < header_new.payload_len) {
 		RRR_MSG_0("Total specified length og websocket frame was too big (%" PRIrrrbl ">%lli)\n",
 				target_len, (long long int) SSIZE_MAX);
 		ret = RRR_READ_SOFT_ERROR;
-- 
2.43.0


From 84f50fe33b13d600d208a0b26a0cd5a2fcfdca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 076/130] fix: websocket: refuse frames with reserved bits

---
 src/lib/websocket/websocket.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 46edc09..15a3cd2 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -335,6 +335,12 @@ int __rrr_websocket_get_target_size (
 	flags >>= 1;
 	header_new.fin = flags & 1;
 
+	if (header_new.rsv1 || header_new.rsv2 || header_new.rsv3) {
+		RRR_MSG_0("Received websocket frame with reserved bits set\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
 	if (payload_len == 126) {
 		const char *pos = read_session->rx_buf_ptr + header_new.header_len;
 		INC_LENGTH(2);
-- 
2.43.0


From b516d0f98aa19008ef91e9ac8b848d751effdc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 077/130] fix: websocket: keep fragmentation state when control
 frames are received

---
 src/lib/websocket/websocket.c | 42 +++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 15a3cd2..e5e7f14 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -384,6 +384,7 @@ int __rrr_websocket_get_target_size (
 
 int __rrr_websocket_receive_callback_final_step (
 		struct rrr_websocket_state *ws_state,
+		uint8_t opcode,
 		const struct rrr_nullsafe_str *payload,
 		int (*final_callback)(RRR_WEBSOCKET_FRAME_CALLBACK_ARGS),
 		void *final_callback_arg
@@ -391,11 +392,11 @@ int __rrr_websocket_receive_callback_final_step (
 	int ret = 0;
 
 	RRR_DBG_3("Websocket receive frame type %u size %" PRIrrr_nullsafe_len "\n",
-			ws_state->last_receive_opcode, rrr_nullsafe_str_len(payload));
+			opcode, rrr_nullsafe_str_len(payload));
 
 	// last_receive time is updated in get_target_size function
 
-	switch (ws_state->last_receive_opcode) {
+	switch (opcode) {
 		case RRR_WEBSOCKET_OPCODE_CONNECTION_CLOSE:
 			ret = RRR_READ_EOF;
 			goto out;
@@ -412,7 +413,7 @@ int __rrr_websocket_receive_callback_final_step (
 			break;
 		default:
 			ret = final_callback (
-					ws_state->last_receive_opcode,
+					opcode,
 					payload,
 					final_callback_arg
 			);
@@ -430,6 +431,21 @@ static int __rrr_websocket_receive_callback_fragmentation_step_nullsafe_callback
 	struct rrr_websocket_callback_data *callback_data = arg;
 	return __rrr_websocket_receive_callback_final_step (
 			callback_data->ws_state,
+			callback_data->ws_state->last_receive_opcode,
+			payload,
+			callback_data->callback,
+			callback_data->callback_arg
+	);
+}
+
+static int __rrr_websocket_receive_callback_control_step_nullsafe_callback (
+		const struct rrr_nullsafe_str *payload,
+		void *arg
+) {
+	struct rrr_websocket_callback_data *callback_data = arg;
+	return __rrr_websocket_receive_callback_final_step (
+			callback_data->ws_state,
+			callback_data->ws_state->receive_state.header.opcode,
 			payload,
 			callback_data->callback,
 			callback_data->callback_arg
@@ -487,6 +503,7 @@ static int __rrr_websocket_receive_callback_fragmentation_step (
 	goto out_no_clear;
 	out:
 		rrr_websocket_state_clear_receive(ws_state);
+		ws_state->last_receive_opcode = 0;
 	out_no_clear:
 		return ret;
 }
@@ -513,9 +530,6 @@ int __rrr_websocket_receive_callback_interpret_step (
 
 	// Zero opcode means CONTINUATION frame
 	if (opcode) {
-		// First non-fin frame has opcode, start new fragmented frame and reset header
-		rrr_websocket_state_clear_receive(ws_state);
-
 		switch (opcode) {
 			case RRR_WEBSOCKET_OPCODE_CONNECTION_CLOSE:
 			case RRR_WEBSOCKET_OPCODE_PING:
@@ -530,7 +544,16 @@ int __rrr_websocket_receive_callback_interpret_step (
 					ret = RRR_READ_SOFT_ERROR;
 					goto out;
 				}
-				break;
+
+				// Control frames may arrive between the fragments of
+				// a message, don't touch the fragmentation state.
+				ret = rrr_nullsafe_str_with_tmp_str_do (
+						payload,
+						(rrr_length) payload_len,
+						__rrr_websocket_receive_callback_control_step_nullsafe_callback,
+						callback_data
+				);
+				goto out;
 			case RRR_WEBSOCKET_OPCODE_TEXT:
 			case RRR_WEBSOCKET_OPCODE_BINARY:
 				break;
@@ -540,8 +563,9 @@ int __rrr_websocket_receive_callback_interpret_step (
 				goto out;
 		};
 
-		if (!fin && opcode != RRR_WEBSOCKET_OPCODE_TEXT && opcode != RRR_WEBSOCKET_OPCODE_BINARY) {
-			RRR_MSG_0("Received fragmented websocket frame of type %i which is not allowed, only TEXT and BINARY may be fragmented\n", opcode);
+		// First frame of new message
+		if (ws_state->last_receive_opcode) {
+			RRR_MSG_0("Received new websocket message of type %u while the previous fragmented message was not complete\n", opcode);
 			ret = RRR_READ_SOFT_ERROR;
 			goto out;
 		}
-- 
2.43.0


From ab438857b49252f09d40ea2d4d0b7f7d8fecf6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 078/130] fix: websocket: return the data of a ping in the pong

---
 src/lib/websocket/websocket.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index e5e7f14..78c2a6d 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -391,6 +391,9 @@ int __rrr_websocket_receive_callback_final_step (
 ) {
 	int ret = 0;
 
+	char *pong_payload = NULL;
+	rrr_nullsafe_len pong_len = 0;
+
 	RRR_DBG_3("Websocket receive frame type %u size %" PRIrrr_nullsafe_len "\n",
 			opcode, rrr_nullsafe_str_len(payload));
 
@@ -401,11 +404,19 @@ int __rrr_websocket_receive_callback_final_step (
 			ret = RRR_READ_EOF;
 			goto out;
 		case RRR_WEBSOCKET_OPCODE_PING:
+			if ((pong_len = rrr_nullsafe_str_len(payload)) > 0) {
+				if ((pong_payload = rrr_allocate(pong_len)) == NULL) {
+					RRR_MSG_0("Could not allocate memory for pong in %s\n", __func__);
+					ret = RRR_READ_HARD_ERROR;
+					goto out;
+				}
+				rrr_nullsafe_str_copyto(&pong_len, pong_payload, pong_len, payload);
+			}
 			ret = rrr_websocket_frame_enqueue (
 					ws_state,
 					RRR_WEBSOCKET_OPCODE_PONG,
-					NULL,
-					0
+					&pong_payload,
+					pong_len
 			);
 			break;
 		case RRR_WEBSOCKET_OPCODE_PONG:
@@ -421,6 +432,7 @@ int __rrr_websocket_receive_callback_final_step (
 	};
 
 	out:
+	RRR_FREE_IF_NOT_NULL(pong_payload);
 	return ret;
 }
 
-- 
2.43.0


From 127dcde4032c84be5f71eb52bca84ede8d075470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 079/130] fix: make room for chunk padding in new memory maps

---
 src/lib/rrr_mmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/rrr_mmap.c b/src/lib/rrr_mmap.c
index 7b6864e..b8f5dcd 100644
--- a/src/lib/rrr_mmap.c
+++ b/src/lib/rrr_mmap.c
@@ -434,6 +434,9 @@ static int __rrr_mmap_init (
 	heap_size += sizeof(rrr_mmap_sentinel_template);
 #endif
 
+	// Make room for padding of the chunk size done when allocating
+	heap_size += RRR_MMAP_HEAP_CHUNK_MIN_SIZE;
+
 	rrr_biglength heap_size_padded = heap_size + (4096 - (heap_size % 4096));
 
 #if UINT64_MAX > SIZE_MAX
-- 
2.43.0


From c7a3aa84bca805db0aeaaf10680fa9eeeaea9b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 080/130] fix: search freed blocks from the beginning of a
 memory map when the end is reached

---
 src/lib/rrr_mmap.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/rrr_mmap.c b/src/lib/rrr_mmap.c
index b8f5dcd..1430c11 100644
--- a/src/lib/rrr_mmap.c
+++ b/src/lib/rrr_mmap.c
@@ -278,8 +278,7 @@ static void *__rrr_mmap_allocate_with_handles (
 
 		if (block_pos > mmap->heap_size) {
 			// Out of memory, not room for another index.
-			result = NULL;
-			goto out_unlock;
+			goto out_wrap;
 		}
 
 		rrr_biglength merge_j = 0;
@@ -299,8 +298,7 @@ static void *__rrr_mmap_allocate_with_handles (
 				// Allocate new block
 				if ((block_pos + req_size_padded) > mmap->heap_size) {
 					// Out of memory, allocation would overrun end
-					result = NULL;
-					goto out_unlock;
+					goto out_wrap;
 				}
 				index->block_sizes[j] = req_size_padded;
 				index->block_used_map |= used_mask;
@@ -356,6 +354,8 @@ static void *__rrr_mmap_allocate_with_handles (
 		}
 	}
 
+	out_wrap:
+
 	if (retry_count--) {
 		block_pos = 0;
 		goto retry;
-- 
2.43.0


From eb1acdf2286457b8dfed899fa26a54804e51f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 081/130] fix: free shared memory with handle 0

---
 src/lib/rrr_mmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rrr_mmap.c b/src/lib/rrr_mmap.c
index 1430c11..6677568 100644
--- a/src/lib/rrr_mmap.c
+++ b/src/lib/rrr_mmap.c
@@ -493,7 +493,7 @@ static int __rrr_mmap_init (
 static void __rrr_mmap_cleanup (
 		struct rrr_mmap *mmap
 ) {
-	if (mmap->shm_heap) {
+	if (mmap->collection->shm_master) {
 		rrr_shm_collection_master_free(mmap->collection->shm_master, mmap->shm_heap);
 	}
 	else {
-- 
2.43.0


From c6b39baa4dadcd7874742b81f68933e5d1f23508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 082/130] fix: return error when size of shared memory can not
 be set

---
 src/lib/rrr_shm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/rrr_shm.c b/src/lib/rrr_shm.c
index ebce18f..de28a9d 100644
--- a/src/lib/rrr_shm.c
+++ b/src/lib/rrr_shm.c
@@ -227,6 +227,7 @@ static int __rrr_shm_open_create (
 
 	if (ftruncate (fd_tmp, (off_t) size) != 0) {
 		RRR_MSG_0("ftruncate size %llu failed in %s: %s\n", (long long unsigned) size, __func__, rrr_strerror(errno));
+		ret = 1;
 		goto out_close;
 	}
 
-- 
2.43.0


From 5a769537a49f8d36ad3d83673fecbb92a9e0d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 083/130] fix: clean up all memory map collections when
 creation fails

---
 src/lib/rrr_mmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rrr_mmap.c b/src/lib/rrr_mmap.c
index 6677568..ff5c915 100644
--- a/src/lib/rrr_mmap.c
+++ b/src/lib/rrr_mmap.c
@@ -795,7 +795,7 @@ int rrr_mmap_collections_new (
 		if ((ret = __rrr_mmap_collection_init(&collections[i], is_pshared, creator)) != 0) {
 			goto out_free;
 		}
-		i_cleanup_max = i;
+		i_cleanup_max = i + 1;
 	}
 
 	*result = collections;
-- 
2.43.0


From e1c5f6a5ca838fa46ccfbae5a6cf5b041e0e87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 084/130] Verification hook: allow smaller
 RRR_MMAP_CHANNEL_SLOTS

---
 src/lib/mmap_channel.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/mmap_channel.h b/src/lib/mmap_channel.h
index cb15abc..e229c2c 100644
--- a/src/lib/mmap_channel.h
+++ b/src/lib/mmap_channel.h
@@ -28,7 +28,11 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include "log.h"
 #include "read_constants.h"
 
+#ifdef RRR_VERIF_MMAP_CHANNEL_SLOTS
+#define RRR_MMAP_CHANNEL_SLOTS RRR_VERIF_MMAP_CHANNEL_SLOTS // Verification only, makes a full channel reachable with few blocks
+#else
 #define RRR_MMAP_CHANNEL_SLOTS 1024
+#endif
 
 // Size when a new memory map is allocated in a collection. The total
 // amount of available memory will be more as the collection may have
-- 
2.43.0


From 577d61e3661495d54b3868831b5ad5f59d1c6ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 085/130] fix: handle failing shmat in mmap channel

---
 src/lib/mmap_channel.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/mmap_channel.c b/src/lib/mmap_channel.c
index 3b689b7..2b8d0c4 100644
--- a/src/lib/mmap_channel.c
+++ b/src/lib/mmap_channel.c
@@ -122,7 +122,7 @@ static int __rrr_mmap_channel_block_free (
 		if (block->ptr_shm_or_mmap_writer == NULL) {
 			// Attempt to recover from previously failed allocation
 			struct shmid_ds ds;
-			if (shmctl(block->shmid, IPC_STAT, &ds) != block->shmid) {
+			if (shmctl(block->shmid, IPC_STAT, &ds) != 0) {
 				RRR_MSG_0("Warning: shmctl IPC_STAT failed in %s: %s\n", __func__, rrr_strerror(errno));
 			}
 			else {
@@ -243,14 +243,16 @@ static int __rrr_mmap_channel_allocate (
 		} while (shmid <= 0);
 
 		block->shmid = shmid;
-		block->size_capacity = data_size;
 
-		if ((block->ptr_shm_or_mmap_writer = shmat(shmid, NULL, 0)) == NULL) {
+		if ((block->ptr_shm_or_mmap_writer = shmat(shmid, NULL, 0)) == (void *) -1) {
+			block->ptr_shm_or_mmap_writer = NULL;
 			RRR_MSG_0("shmat failed in %s: %s\n", __func__, rrr_strerror(errno));
 			ret = 1;
 			goto out;
 		}
 
+		block->size_capacity = data_size;
+
 		if (shmctl(shmid, IPC_RMID, NULL) != 0) {
 			RRR_MSG_0("shmctl IPC_RMID failed in %s: %s\n", __func__, rrr_strerror(errno));
 			ret = 1;
@@ -458,7 +460,7 @@ int rrr_mmap_channel_read_with_callback (
 	if (block->shmid != 0) {
 		const char *data_pointer = NULL;
 
-		if ((data_pointer = shmat(block->shmid, NULL, 0)) == NULL) {
+		if ((data_pointer = shmat(block->shmid, NULL, 0)) == (void *) -1) {
 			RRR_MSG_0("Could not get shm pointer in %s: %s\n", __func__, rrr_strerror(errno));
 			ret = 1;
 			goto out_unlock;
-- 
2.43.0


From f9e29bc030ae603ac07df3a45d382b224ac012be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 086/130] fix: msgdb: verify data checksum of stored messages

---
 src/lib/msgdb/msgdb_server.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index e039a21..b386d53 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -539,6 +539,12 @@ static int __rrr_msgdb_server_open_and_read_file (
 		goto out;
 	}
 
+	if (!do_head_only && rrr_msg_check_data_checksum_and_length(msg_tmp, (rrr_length) file_size) != 0) {
+		RRR_MSG_0("Data verification of '%s' failed in message db server (checksum error)\n", str);
+		ret = RRR_MSGDB_SOFT_ERROR;
+		goto out;
+	}
+
 	if (!RRR_MSG_IS_RRR_MESSAGE(msg_tmp)) {
 		RRR_MSG_0("Message type of '%u' was not RRR message in message db server\n", msg_tmp->msg_type);
 		ret = RRR_MSGDB_SOFT_ERROR;
-- 
2.43.0


From 2d21ba67fda518cb6206e97e3929f4d5219c2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 087/130] fix: msgdb: do not assume working directory is
 unchanged

---
 src/lib/msgdb/msgdb_server.c | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index b386d53..e3b090d 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -85,7 +85,6 @@ struct rrr_msgdb_server {
 	struct rrr_socket_client_collection *clients;
 	uint64_t recv_count;
 	struct rrr_event_queue *queue;
-	char prev_chdir[PATH_MAX];
 };
 
 void rrr_msgdb_server_destroy_void (
@@ -127,11 +126,9 @@ static int __rrr_msgdb_server_chdir (
 		const char *directory,
 		int silent
 ) {
-	int ret = 0;
+	(void)(server);
 
-	if (directory[0] == '/' && strcmp(directory, server->prev_chdir) == 0) {
-		goto out;
-	}
+	int ret = 0;
 
 	if (chdir(directory) != 0) {
 		if (!silent) {
@@ -148,14 +145,6 @@ static int __rrr_msgdb_server_chdir (
 		goto out;
 	}
 
-	if (directory[0] == '/') {
-		strncpy(server->prev_chdir, directory, sizeof(server->prev_chdir));
-		server->prev_chdir[sizeof(server->prev_chdir) - 1] = '\0';
-	}
-	else {
-		server->prev_chdir[0] = '\0';
-	}
-
 	RRR_DBG_3("msgdb chdir '%s'\n", directory);
 
 	out:
-- 
2.43.0


From 024e41f04427c8aa10c28190d4aef04469171277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 088/130] fix: msgdb: second iteration request must not stop
 the server

---
 src/lib/msgdb/msgdb_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index e3b090d..9122e25 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -798,7 +798,7 @@ static int __rrr_msgdb_server_iteration_begin (
 
 	if (client->iteration_session != NULL) {
 		RRR_MSG_0("Attempted to start iteration session while one was already in progress\n");
-		ret = RRR_MSGDB_HARD_ERROR;
+		ret = RRR_MSGDB_SOFT_ERROR;
 		goto out;
 	}
 
-- 
2.43.0


From 666a5f3c32512df83ae380a36b00f2639facefd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 089/130] fix: msgdb: do not restart directory when iteration
 is interrupted

---
 src/lib/msgdb/msgdb_server.c | 104 ++++++++++++++++++++++++++++-------
 1 file changed, 84 insertions(+), 20 deletions(-)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index 9122e25..9d450a8 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -65,6 +65,7 @@ struct rrr_msgdb_server_client;
 
 struct rrr_msgdb_server_iteration_session {
 	struct rrr_array dirs;
+	struct rrr_array files; // Remaining files of current directory
 	uint32_t min_age_s;
 
 	int (*file_callback)(RRR_MSGDB_SERVER_ITERATION_FILE_CALLBACK_ARGS);
@@ -76,6 +77,7 @@ static void __rrr_msgdb_server_iteration_session_destroy (
 		struct rrr_msgdb_server_iteration_session *session
 ) {
 	rrr_array_clear(&session->dirs);
+	rrr_array_clear(&session->files);
 	rrr_free(session);
 }
 
@@ -647,35 +649,49 @@ static int __rrr_msgdb_server_get (
 	return ret;
 }
 
-struct rrr_msgdb_server_client_iteration_session_process_file_callback_data {
+struct rrr_msgdb_server_client_iteration_session_readdir_callback_data {
 	struct rrr_msgdb_server_client *client;
-	uint64_t time_end;
+	const char *dir;
 };
 
-static int __rrr_msgdb_server_client_iteration_session_process_file_callback (
+static int __rrr_msgdb_server_client_iteration_session_readdir_callback (
 		struct dirent *entry,
 		const char *orig_path,
 		const char *resolved_path,
 		unsigned char type,
 		void *private_data
 ) {
-	struct rrr_msgdb_server_client_iteration_session_process_file_callback_data *callback_data = private_data;
-	struct rrr_msgdb_server_client *client = callback_data->client;;
-	struct rrr_msgdb_server_iteration_session *session = client->iteration_session;
+	struct rrr_msgdb_server_client_iteration_session_readdir_callback_data *callback_data = private_data;
 
-	(void)(entry);
+	(void)(orig_path);
 	(void)(resolved_path);
 
+	char path[PATH_MAX];
+
+	if (type == DT_DIR) {
+		return 0;
+	}
+
+	if (snprintf(path, sizeof(path), "%s/%s", callback_data->dir, entry->d_name) >= (int) sizeof(path)) {
+		RRR_MSG_0("Warning: msgdb path of file '%s' was too long\n", entry->d_name);
+		return 0;
+	}
+
+	return rrr_array_push_value_str_with_tag(&callback_data->client->iteration_session->files, "file", path);
+}
+
+static int __rrr_msgdb_server_client_iteration_session_process_file (
+		struct rrr_msgdb_server_client *client,
+		const char *orig_path
+) {
+	struct rrr_msgdb_server_iteration_session *session = client->iteration_session;
+
 	int ret = 0;
 
 	const uint64_t min_age_us = (uint64_t) session->min_age_s * 1000 * 1000;
 
 	char *msg_tmp = NULL;
 
-	if (type == DT_DIR) {
-		goto out;
-	}
-
 	if (strncmp (orig_path, "./", 2) == 0) {
 		orig_path += 2;
 	}
@@ -716,13 +732,53 @@ static int __rrr_msgdb_server_client_iteration_session_process_file_callback (
 			RRR_MSG_0("Warning: msgdb deletion failed for '%s'\n", orig_path);
 		}
 	out:
-		if (ret == 0 && rrr_time_get_64() > callback_data->time_end) {
-			ret = RRR_MSGDB_INCOMPLETE;
-		}
 		RRR_FREE_IF_NOT_NULL(msg_tmp);
 		return ret;
 }
 
+static int __rrr_msgdb_server_client_iteration_session_process_files (
+		struct rrr_msgdb_server_client *client,
+		uint64_t time_end
+) {
+	struct rrr_msgdb_server_iteration_session *session = client->iteration_session;
+
+	int ret = 0;
+
+	char *path_tmp = NULL;
+
+	if (RRR_LL_COUNT(&session->files) == 0) {
+		goto out;
+	}
+
+	if ((ret = __rrr_msgdb_server_chdir_base(client->server)) != 0) {
+		goto out;
+	}
+
+	RRR_LL_ITERATE_BEGIN(&session->files, struct rrr_type_value);
+		if (rrr_time_get_64() > time_end) {
+			ret = RRR_MSGDB_INCOMPLETE;
+			goto out;
+		}
+
+		RRR_LL_ITERATE_SET_DESTROY();
+
+		RRR_FREE_IF_NOT_NULL(path_tmp);
+
+		if ((ret = node->definition->to_str(&path_tmp, node)) != 0) {
+			RRR_MSG_0("Failed to extract string in %s\n", __func__);
+			goto out;
+		}
+
+		if ((ret = __rrr_msgdb_server_client_iteration_session_process_file(client, path_tmp)) != 0) {
+			goto out;
+		}
+	RRR_LL_ITERATE_END_CHECK_DESTROY(&session->files, 0; rrr_type_value_destroy(node));
+
+	out:
+	RRR_FREE_IF_NOT_NULL(path_tmp);
+	return ret;
+}
+
 static int __rrr_msgdb_server_client_iteration_session_process (
 		struct rrr_msgdb_server_client *client
 ) {
@@ -735,12 +791,12 @@ static int __rrr_msgdb_server_client_iteration_session_process (
 
 	uint64_t time_end = rrr_time_get_64() + RRR_MSGDB_SERVER_ITERATION_MAX_MS * 1000;
 
-	struct rrr_msgdb_server_client_iteration_session_process_file_callback_data file_callback_data = {
-		client,
-		time_end
-	};
-
 	RRR_LL_ITERATE_BEGIN(&session->dirs, struct rrr_type_value);
+		// Finish files of previous directory first
+		if ((ret = __rrr_msgdb_server_client_iteration_session_process_files (client, time_end)) != 0) {
+			goto out;
+		}
+
 		if (rrr_time_get_64() > time_end) {
 			ret = RRR_MSGDB_INCOMPLETE;
 			goto out;
@@ -771,7 +827,11 @@ static int __rrr_msgdb_server_client_iteration_session_process (
 				// Ignore
 				RRR_LL_ITERATE_NEXT();
 			}
-			if ((ret = rrr_readdir_foreach(".", __rrr_msgdb_server_client_iteration_session_process_file_callback, &file_callback_data)) != 0) {
+			struct rrr_msgdb_server_client_iteration_session_readdir_callback_data readdir_callback_data = {
+				client,
+				path_tmp
+			};
+			if ((ret = rrr_readdir_foreach(".", __rrr_msgdb_server_client_iteration_session_readdir_callback, &readdir_callback_data)) != 0) {
 				goto out;
 			}
 		}
@@ -780,6 +840,10 @@ static int __rrr_msgdb_server_client_iteration_session_process (
 		}
 	RRR_LL_ITERATE_END_CHECK_DESTROY(&session->dirs, 0; rrr_type_value_destroy(node));
 
+	if ((ret = __rrr_msgdb_server_client_iteration_session_process_files (client, time_end)) != 0) {
+		goto out;
+	}
+
 	ret = session->complete_callback (client, session->callback_arg);
 
 	out:
-- 
2.43.0


From 02af56c2002ac3beb9b28eb8f682ef0933d958d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 090/130] fix: msgdb: do not delete messages which can not be
 read

---
 src/lib/msgdb/msgdb_server.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index 9d450a8..edc2726 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -460,12 +460,16 @@ static int __rrr_msgdb_server_idx_make_directory_index (
 
 static int __rrr_msgdb_server_open_and_read_file (
 		struct rrr_msg_msg **target,
+		int *is_unreadable,
 		const char *str,
 		int do_head_only,
 		const char *topic_to_verify
 ) {
 	int ret = 0;
 
+	// Set if the contents of the file are not known due to read error
+	*is_unreadable = 0;
+
 	struct rrr_msg *msg_tmp = NULL;
 
 	rrr_biglength total_read;
@@ -484,6 +488,7 @@ static int __rrr_msgdb_server_open_and_read_file (
 			RRR_MSG_0("Could not read file '%s' in message db server\n",
 				str);
 		}
+		*is_unreadable = 1;
 		ret = RRR_MSGDB_SOFT_ERROR;
 		goto out;
 	}
@@ -585,9 +590,11 @@ static int __rrr_msgdb_server_get_raw (
 	int ret = 0;
 
 	struct rrr_msg_msg *msg_tmp  = NULL;
+	int is_unreadable = 0;
 
 	if ((ret = __rrr_msgdb_server_open_and_read_file (
 			&msg_tmp,
+			&is_unreadable,
 			str,
 			0 /* Whole file */,
 			topic_to_verify
@@ -691,6 +698,7 @@ static int __rrr_msgdb_server_client_iteration_session_process_file (
 	const uint64_t min_age_us = (uint64_t) session->min_age_s * 1000 * 1000;
 
 	char *msg_tmp = NULL;
+	int is_unreadable = 0;
 
 	if (strncmp (orig_path, "./", 2) == 0) {
 		orig_path += 2;
@@ -698,10 +706,14 @@ static int __rrr_msgdb_server_client_iteration_session_process_file (
 
 	if (__rrr_msgdb_server_open_and_read_file (
 				(struct rrr_msg_msg **) &msg_tmp,
+				&is_unreadable,
 				orig_path,
 				1, /* Head only */
 				NULL /* No topic to verify */
 	) != 0) {
+		if (is_unreadable) {
+			goto out;
+		}
 		RRR_MSG_0("Warning: msgdb failed to read header of '%s'. Deleting file.\n",
 				orig_path
 		);
-- 
2.43.0


From 38e396d482343d24395c28010fdd6033736871c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 091/130] fix: msgdb: damaged message must not stop index

---
 src/lib/msgdb/msgdb_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index edc2726..ad3baa8 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -947,6 +947,10 @@ static int __rrr_msgdb_server_idx_callback (RRR_MSGDB_SERVER_ITERATION_FILE_CALL
 			NULL,
 			client->fd
 	)) != 0) {
+		if (ret == RRR_MSGDB_SOFT_ERROR) {
+			RRR_MSG_0("Warning: msgdb could not read '%s', it is not included in the index\n", path);
+			ret = 0;
+		}
 		goto out;
 	}
 
-- 
2.43.0


From b10fbe016347e3b6b2d267b0e1af83e070473ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 092/130] fix: msgdb: use absolute path of directory

---
 src/lib/msgdb/msgdb_server.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index ad3baa8..42c6192 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -1441,7 +1441,22 @@ int rrr_msgdb_server_new (
 
 	memset(server, '\0', sizeof(*server));
 
-	if ((server->directory = rrr_strdup(directory)) == NULL) {
+	char directory_abs[PATH_MAX * 2] = "";
+
+	// Store absolute path as the working directory changes during operation
+	if (*directory != '/') {
+		if (getcwd(directory_abs, PATH_MAX) == NULL || strlen(directory) > PATH_MAX) {
+			RRR_MSG_0("Failed to find absolute path of directory '%s' in %s: %s\n",
+				directory, __func__, rrr_strerror(errno));
+			ret = 1;
+			goto out_free;
+		}
+		strcat(directory_abs, "/");
+	}
+
+	strcat(directory_abs, directory);
+
+	if ((server->directory = rrr_strdup(directory_abs)) == NULL) {
 		RRR_MSG_0("Could not allocate memory for directory in %S\n", __func__);
 		ret = 1;
 		goto out_free;
-- 
2.43.0


From 3a244e75987c4f28d2248cf7a1d5b3301d9098e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 093/130] fix: length of merged HTTP chunks included the header

---
 src/lib/http/http_part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_part.c b/src/lib/http/http_part.c
index 276ac64..ef8c6e7 100644
--- a/src/lib/http/http_part.c
+++ b/src/lib/http/http_part.c
@@ -759,7 +759,7 @@ int rrr_http_part_chunks_merge (
 	RRR_LL_ITERATE_END_CHECK_DESTROY(&part->chunks, 0; rrr_free(node));
 
 	part->is_chunked = 0;
-	part->data_length = wpos;
+	part->data_length = wpos - top_length;
 
 	*result_data = data_new;
 	data_new = NULL;
-- 
2.43.0


From 1cc82cf5aa70f4262d53edf6aad1b9cde8deef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 094/130] fix: overflow in check of HTTP chunk length

---
 src/lib/http/http_part_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index dd6f580..ee5e935 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -378,7 +378,7 @@ static int __rrr_http_part_parse_chunk (
 	rrr_biglength parsed_bytes_previous_chunk = 0;
 
 	if (last_chunk != NULL) {
-		if (buf + last_chunk->start + last_chunk->length > end) {
+		if (last_chunk->length > rrr_biglength_from_ptr_sub_bug_const(end, buf) - last_chunk->start) {
 			// Need to read more
 			ret = RRR_HTTP_PARSE_INCOMPLETE;
 			goto out;
-- 
2.43.0


From a9e0b30960e03a326603a725b76deb202e998c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 095/130] fix: overflow in target size of HTTP message

---
 src/lib/http/http_part_parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index ee5e935..3ba981a 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -703,6 +703,12 @@ int rrr_http_part_parse (
 	const struct rrr_http_header_field *transfer_encoding = rrr_http_part_header_field_get(part, "transfer-encoding");
 
 	if (content_length != NULL) {
+		if (content_length->value_unsigned > RRR_BIGLENGTH_MAX - part->headroom_length - part->header_length) {
+			RRR_MSG_0("Content-Length %llu too big in HTTP header\n", content_length->value_unsigned);
+			ret = RRR_HTTP_PARSE_SOFT_ERR;
+			goto out;
+		}
+
 		part->data_length = content_length->value_unsigned;
 		*target_size = part->headroom_length + part->header_length + content_length->value_unsigned;
 
-- 
2.43.0


From 102eb6d22dc29eb50ba804e7adab2f8f5ef8b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 096/130] fix: body of HTTP response terminated by close was
 lost

---
 src/lib/http/http_application_http1.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/http/http_application_http1.c b/src/lib/http/http_application_http1.c
index 7a3c031..78a7019 100644
--- a/src/lib/http/http_application_http1.c
+++ b/src/lib/http/http_application_http1.c
@@ -426,6 +426,11 @@ static int __rrr_http_application_http1_response_receive_callback (
 
 	int ret = 0;
 
+	if (transaction->response_part->data_length_unknown) {
+		// Response was terminated by connection close, everything after the header is the body
+		transaction->response_part->data_length = read_session->rx_buf_wpos - RRR_HTTP_PART_TOP_LENGTH(transaction->response_part);
+	}
+
 	if (RRR_DEBUGLEVEL_3) {
 		rrr_http_part_header_dump(transaction->response_part);
 	}
-- 
2.43.0


From 9365414ee26a7d2534b5141a518ee69f904e3deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 097/130] fix: HTTP response terminated by close was complete
 when no data was available

---
 src/lib/net_transport/net_transport_defines.h | 2 +-
 src/lib/read.c                                | 9 +++++++--
 src/lib/read_constants.h                      | 1 +
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib/net_transport/net_transport_defines.h b/src/lib/net_transport/net_transport_defines.h
index eed6d59..ca5bb87 100644
--- a/src/lib/net_transport/net_transport_defines.h
+++ b/src/lib/net_transport/net_transport_defines.h
@@ -53,7 +53,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #define RRR_NET_TRANSPORT_SEND_INCOMPLETE		RRR_NET_TRANSPORT_READ_INCOMPLETE
 
 #define RRR_NET_TRANSPORT_READ_COMPLETE_METHOD_TARGET_LENGTH	RRR_READ_COMPLETE_METHOD_TARGET_LENGTH
-#define RRR_NET_TRANSPORT_READ_COMPLETE_METHOD_CONN_CLOSE		RRR_READ_COMPLETE_METHOD_ZERO_BYTES_READ
+#define RRR_NET_TRANSPORT_READ_COMPLETE_METHOD_CONN_CLOSE		RRR_READ_COMPLETE_METHOD_CONN_CLOSE
 
 enum rrr_net_transport_type {
 	RRR_NET_TRANSPORT_NONE     = 0,
diff --git a/src/lib/read.c b/src/lib/read.c
index 33d88bf..7b600ff 100644
--- a/src/lib/read.c
+++ b/src/lib/read.c
@@ -310,7 +310,10 @@ static int __rrr_read_message_using_callbacks (
 	if (bytes == 0 || ret_from_read != 0) {
 		// In situations where zero bytes are read, the downstream framework should
 		// return something else than OK. If not, we will always exit here.
-		if (read_session->read_complete_method == RRR_READ_COMPLETE_METHOD_ZERO_BYTES_READ) {
+		if ( read_session->read_complete_method == RRR_READ_COMPLETE_METHOD_ZERO_BYTES_READ || (
+		     read_session->read_complete_method == RRR_READ_COMPLETE_METHOD_CONN_CLOSE &&
+		     (ret_from_read & RRR_READ_EOF)
+		)) {
 			if (read_session->target_size > 0) {
 				RRR_BUG("Target size was set in %s while complete method was connection closed\n", __func__);
 			}
@@ -494,7 +497,8 @@ static int __rrr_read_message_using_callbacks (
 	}
 
 	if (read_session->rx_buf_wpos > read_session->target_size &&
-			read_session->read_complete_method != RRR_READ_COMPLETE_METHOD_ZERO_BYTES_READ
+			read_session->read_complete_method != RRR_READ_COMPLETE_METHOD_ZERO_BYTES_READ &&
+			read_session->read_complete_method != RRR_READ_COMPLETE_METHOD_CONN_CLOSE
 	) {
 		if (read_session->rx_overshoot != NULL) {
 			RRR_BUG("overshoot was not NULL in %s\n", __func__);
@@ -530,6 +534,7 @@ static int __rrr_read_message_using_callbacks (
 		}
 	}
 	else if (read_session->read_complete_method == RRR_READ_COMPLETE_METHOD_ZERO_BYTES_READ ||
+			read_session->read_complete_method == RRR_READ_COMPLETE_METHOD_CONN_CLOSE ||
 			read_session->read_complete_method == RRR_READ_COMPLETE_METHOD_TARGET_LENGTH
 	) {
 		ret = RRR_READ_INCOMPLETE;
diff --git a/src/lib/read_constants.h b/src/lib/read_constants.h
index 351fbc5..1d75a2d 100644
--- a/src/lib/read_constants.h
+++ b/src/lib/read_constants.h
@@ -89,5 +89,6 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 // Applicable only when using the read framework
 #define RRR_READ_COMPLETE_METHOD_TARGET_LENGTH			0
 #define RRR_READ_COMPLETE_METHOD_ZERO_BYTES_READ		11
+#define RRR_READ_COMPLETE_METHOD_CONN_CLOSE			12
 
 #endif /* RRR_READ_CONSTANTS_H */
-- 
2.43.0


From 9eb6913e34e7e6fec839da32f34176d33c295eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 098/130] fix: HTTP response with short response line was not
 refused

---
 src/lib/http/http_part_parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index 3ba981a..6666230 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -55,7 +55,8 @@ static int __rrr_http_part_parse_response_code (
 	}
 
 	if (crlf - start < (ssize_t) strlen("HTTP/1.x 200")) {
-		ret = RRR_HTTP_PARSE_INCOMPLETE;
+		RRR_MSG_0("Response line too short in HTTP response\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
 		goto out;
 	}
 
-- 
2.43.0


From 4680751ab2b0fb21c634b9fa7ec58fb1a54b69a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 099/130] fix: parts of the HTTP request line were searched for
 in the headers

---
 src/lib/http/http_part_parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index 6666230..4bd690e 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -134,7 +134,7 @@ static int __rrr_http_part_parse_request (
 		goto out;
 	}
 
-	if ((space = rrr_http_util_find_whsp(start, end)) == NULL) {
+	if ((space = rrr_http_util_find_whsp(start, crlf)) == NULL) {
 		RRR_MSG_0("Whitespace missing after request method in HTTP request\n");
 		rrr_http_util_print_where_message(start, end);
 		ret = RRR_HTTP_PARSE_SOFT_ERR;
@@ -161,7 +161,7 @@ static int __rrr_http_part_parse_request (
 	start += space - start;
 	start += rrr_http_util_count_whsp(start, end);
 
-	if ((space = rrr_http_util_find_whsp(start, end)) == NULL) {
+	if ((space = rrr_http_util_find_whsp(start, crlf)) == NULL) {
 		RRR_MSG_0("Whitespace missing after request URI in HTTP request\n");
 		rrr_http_util_print_where_message(start, end);
 		ret = RRR_HTTP_PARSE_SOFT_ERR;
-- 
2.43.0


From 9b23214339ff7089acfd37582869f07a36e180dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 100/130] fix: missing CRLF after HTTP chunk data was accepted

---
 src/lib/http/http_part_parse.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index 4bd690e..fc6be2a 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -222,7 +222,8 @@ static int __rrr_http_part_parse_chunk_header (
 		rrr_biglength *parsed_bytes,
 		const char *buf,
 		rrr_biglength start_pos,
-		const char *end
+		const char *end,
+		int is_after_chunk
 ) {
 	int ret = RRR_HTTP_PARSE_OK;
 
@@ -255,6 +256,17 @@ static int __rrr_http_part_parse_chunk_header (
 		goto out;
 	}
 
+	// The data of a previous chunk is followed by \r\n
+	if (is_after_chunk && crlf != pos) {
+		if (end - pos < 2 && *pos == '\r') {
+			ret = RRR_HTTP_PARSE_INCOMPLETE;
+			goto out;
+		}
+		RRR_MSG_0("CRLF missing after chunk data\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
+
 	// Allow extra \r\n at beginning
 	if (crlf == pos) {
 		pos += 2;
@@ -398,7 +410,8 @@ static int __rrr_http_part_parse_chunk (
 			&parsed_bytes_total,
 			buf,
 			start_pos + parsed_bytes_previous_chunk,
-			end
+			end,
+			last_chunk != NULL
 	)) == 0 && new_chunk != NULL) { // != NULL check due to false positive warning about use of NULL from scan-build
 		RRR_DBG_3("Found new HTTP chunk start %" PRIrrrbl " length %" PRIrrrbl "\n", new_chunk->start, new_chunk->length);
 		RRR_LL_APPEND(chunks, new_chunk);
-- 
2.43.0


From 3999ac4164642764d03ceaf8dc844df5005e44ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 101/130] fix: data after the last HTTP chunk was not checked

---
 src/lib/http/http_part_parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index fc6be2a..bda6583 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -307,6 +307,12 @@ static int __rrr_http_part_parse_chunk_header (
 		goto out;
 	}
 
+	if (chunk_length == 0 && (*pos != '\r' || *(pos + 1) != '\n')) {
+		RRR_MSG_0("CRLF missing after last chunk, note that trailers are not supported\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
+
 	struct rrr_http_chunk *new_chunk = NULL;
 	rrr_biglength chunk_start = rrr_biglength_from_ptr_sub_bug_const (pos, buf);
 
-- 
2.43.0


From 4348e041982278b860e42ae2271d8eb6fd903810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 102/130] fix: ambiguous framing of HTTP messages was accepted

---
 src/lib/http/http_part_parse.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index bda6583..c28986f 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -722,6 +722,24 @@ int rrr_http_part_parse (
 	const struct rrr_http_header_field *content_length = rrr_http_part_header_field_get(part, "content-length");
 	const struct rrr_http_header_field *transfer_encoding = rrr_http_part_header_field_get(part, "transfer-encoding");
 
+	if (content_length != NULL && transfer_encoding != NULL && parse_type != RRR_HTTP_PARSE_MULTIPART) {
+		// Interpretation by other parties is uncertain
+		RRR_MSG_0("Both Content-Length and Transfer-Encoding given in HTTP header\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
+
+	RRR_LL_ITERATE_BEGIN(&part->headers, const struct rrr_http_header_field);
+		if (content_length != NULL &&
+		    rrr_nullsafe_str_cmpto(node->name, "content-length") == 0 &&
+		    node->value_unsigned != content_length->value_unsigned
+		) {
+			RRR_MSG_0("Multiple different Content-Length values in HTTP header\n");
+			ret = RRR_HTTP_PARSE_SOFT_ERR;
+			goto out;
+		}
+	RRR_LL_ITERATE_END();
+
 	if (content_length != NULL) {
 		if (content_length->value_unsigned > RRR_BIGLENGTH_MAX - part->headroom_length - part->header_length) {
 			RRR_MSG_0("Content-Length %llu too big in HTTP header\n", content_length->value_unsigned);
@@ -743,6 +761,11 @@ int rrr_http_part_parse (
 		RRR_DBG_3("HTTP 'Transfer-Encoding: chunked' found in response\n");
 		goto out_parse_chunked;
 	}
+	else if (transfer_encoding != NULL && parse_type == RRR_HTTP_PARSE_REQUEST) {
+		RRR_MSG_0("Unsupported Transfer-Encoding in HTTP request, cannot tell the length of the body\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
 	else if (	parse_type == RRR_HTTP_PARSE_REQUEST ||
 				part->response_code == RRR_HTTP_RESPONSE_CODE_OK_NO_CONTENT ||
 				part->response_code == RRR_HTTP_RESPONSE_CODE_SWITCHING_PROTOCOLS
-- 
2.43.0


From 1a7e79e2795401682e41b2ae2595406400c665f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 103/130] fix: empty name and whitespace around name of HTTP
 header field was accepted

---
 src/lib/http/http_header_fields.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/http/http_header_fields.c b/src/lib/http/http_header_fields.c
index e70c9b6..0b70a8c 100644
--- a/src/lib/http/http_header_fields.c
+++ b/src/lib/http/http_header_fields.c
@@ -1266,6 +1266,11 @@ static int __rrr_http_header_field_parse_name_and_value_field_create_callback (C
 			return RRR_HTTP_PARSE_SOFT_ERR;
 		}
 
+		if (colon == start || *start == ' ' || *start == '\t' || *(colon - 1) == ' ' || *(colon - 1) == '\t') {
+			RRR_MSG_0("Empty name or whitespace around name in HTTP header field\n");
+			return RRR_HTTP_PARSE_SOFT_ERR;
+		}
+
 		if (rrr_http_header_field_new_raw (
 				field,
 				start,
-- 
2.43.0


From 1eeaea929d6c26fd153a372e0f7ec2207ce125c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 104/130] fix: http: multipart boundary was found inside lines
 and headers

---
 src/lib/http/http_part_multipart.c | 31 +++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/lib/http/http_part_multipart.c b/src/lib/http/http_part_multipart.c
index 3e06466..a11b138 100644
--- a/src/lib/http/http_part_multipart.c
+++ b/src/lib/http/http_part_multipart.c
@@ -31,9 +31,11 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include "http_util.h"
 #include "../random.h"
 #include "../util/gnu.h"
+#include "../util/posix.h"
 #include "../helpers/nullsafe_str.h"
 
 struct rrr_http_part_multipart_process_part_find_end_callback_data {
+	const char *part_start;
 	rrr_length part_length;
 };
 
@@ -57,6 +59,14 @@ static int __rrr_http_part_multipart_process_part_find_end_callback (
 		return 1;
 	}
 
+	// Boundary must be at the beginning of a line
+	if (part_length > 0 && (
+		part_length < 2 ||
+		rrr_memcmp(callback_data->part_start + part_length - 2, "\r\n", 2) != 0
+	)) {
+		return RRR_HTTP_PARSE_OK;
+	}
+
 	callback_data->part_length = (rrr_length) part_length;
 
 	return RRR_HTTP_PARSE_EOF;
@@ -68,6 +78,7 @@ struct rrr_http_part_multipart_process_part_callback_data {
 	rrr_biglength *parsed_bytes;
 	const struct rrr_nullsafe_str *boundary_with_dashes_end;
 	const char *data_ptr;
+	rrr_biglength body_pos;
 };
 
 static int __rrr_http_part_multipart_process_part_callback (
@@ -84,6 +95,16 @@ static int __rrr_http_part_multipart_process_part_callback (
 	struct rrr_http_part *new_part = NULL;
 	int end_boundary_found = 0;
 
+	const rrr_nullsafe_len boundary_pos = rrr_nullsafe_str_len(haystack_orig) - rrr_nullsafe_str_len(pos_at_needle);
+
+	// Boundary must be at the beginning of a line in the body
+	if (boundary_pos < callback_data->body_pos || (
+		boundary_pos > callback_data->body_pos &&
+		rrr_memcmp(callback_data->data_ptr + boundary_pos - 2, "\r\n", 2) != 0
+	)) {
+		goto out;
+	}
+
 	if ((rrr_biglength) RRR_LL_COUNT(callback_data->parent) >= callback_data->max_parts) {
 		RRR_DBG_3("Too many parts in HTTP multipart, max is %i\n", callback_data->max_parts);
 		ret = RRR_HTTP_SOFT_ERROR;
@@ -102,6 +123,7 @@ static int __rrr_http_part_multipart_process_part_callback (
 	}
 
 	struct rrr_http_part_multipart_process_part_find_end_callback_data find_end_callback_data = {
+		callback_data->data_ptr + rrr_nullsafe_str_len(haystack_orig) - rrr_nullsafe_str_len(pos_after_needle),
 		0
 	};
 
@@ -166,8 +188,10 @@ static int __rrr_http_part_multipart_process_part_callback (
 		RRR_BUG("BUG: Request or response not 0 in __rrr_http_part_process_multipart_part\n");
 	}
 
-	if (new_part->header_complete != 1 && RRR_DEBUGLEVEL_3) {
-		RRR_DBG_3("Invalid header specification in HTTP multipart request part header\n");
+	if (!new_part->header_complete || find_end_callback_data.part_length < new_part->header_length + 2) {
+		RRR_DBG_3("Header of part in HTTP multipart request did not end before the boundary\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
 	}
 
 	new_part->headroom_length = rrr_nullsafe_str_len(haystack_orig) - rrr_nullsafe_str_len(pos_after_needle);
@@ -256,7 +280,8 @@ static int __rrr_http_part_multipart_process_parts (
 			max_parts,
 			parsed_bytes,
 			boundary_with_dashes_end,
-			start
+			start,
+			parent->headroom_length + parent->header_length
 	};
 
 	if ((ret = rrr_nullsafe_str_str_raw (
-- 
2.43.0


From 3c5f909918c0d92330e5bf381430d702febe0d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 105/130] fix: http: status code of response was not checked

---
 src/lib/http/http_part_parse.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index c28986f..1b5a202 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -80,7 +80,11 @@ static int __rrr_http_part_parse_response_code (
 	start += rrr_http_util_count_whsp(start, end);
 
 	unsigned long long int response_code = 0;
-	if (rrr_http_util_strtoull_raw(&response_code, &tmp_len, start, crlf, 10) != 0 || response_code > 999) {
+	if (rrr_http_util_strtoull_raw(&response_code, &tmp_len, start, crlf, 10) != 0 ||
+	    response_code < 100 ||
+	    response_code > 999 ||
+	    (start + tmp_len < crlf && *(start + tmp_len) != ' ')
+	) {
 		RRR_MSG_0("Could not understand HTTP response code in __rrr_http_parse_response_code\n");
 		ret = RRR_HTTP_PARSE_SOFT_ERR;
 		goto out;
-- 
2.43.0


From 18b780d524ff516e8a9c5fb1c1bbb6a95f81ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 106/130] fix: Length of MQTT blob properties counted once

---
 src/lib/mqtt/mqtt_parse.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 18577aa..81fa6b5 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -679,8 +679,6 @@ static int __rrr_mqtt_parse_property_blob (RRR_PROPERTY_PARSER_DEFINITION) {
 	target->length_orig = blob_length;
 	target->internal_data_type = RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB;
 
-	bytes_parsed += blob_length;
-
 	*bytes_parsed_final = bytes_parsed;
 
 	return ret;
-- 
2.43.0


From 0beaec065a3c4e899c3a008504fb05fe4b4dfbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 107/130] fix: MQTT packets may arrive in any number of
 fragments

---
 src/lib/mqtt/mqtt_parse.c | 10 ----------
 src/lib/mqtt/mqtt_parse.h |  1 -
 2 files changed, 11 deletions(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 81fa6b5..d3f3b4e 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -1490,16 +1490,6 @@ void rrr_mqtt_packet_parse (
 		RRR_MQTT_PARSE_STATUS_SET(session,RRR_MQTT_PARSE_STATUS_FIXED_HEADER_DONE);
 	}
 
-	if (!RRR_MQTT_PARSE_VARIABLE_HEADER_IS_DONE(session)) {
-		session->header_parse_attempts++;
-		if (session->header_parse_attempts > 10) {
-			RRR_MSG_0("Could not parse packet of type %s after 10 attempts, input might be too short or CONNECT missing\n",
-					session->type_properties->name);
-			RRR_MQTT_PARSE_STATUS_SET_ERR(session);
-			goto out;
-		}
-	}
-
 //	printf ("calling parse for type %s total bytes received %li/%li\n",
 //			session->type_properties->name, session->buf_size, session->target_size);
 
diff --git a/src/lib/mqtt/mqtt_parse.h b/src/lib/mqtt/mqtt_parse.h
index 3536b45..907930c 100644
--- a/src/lib/mqtt/mqtt_parse.h
+++ b/src/lib/mqtt/mqtt_parse.h
@@ -64,7 +64,6 @@ struct rrr_mqtt_parse_session {
 	int status;
 	const char *buf;
 
-	int header_parse_attempts;
 	const struct rrr_mqtt_p_type_properties *type_properties;
 	const struct rrr_mqtt_p_protocol_version *protocol_version;
 
-- 
2.43.0


From 0b098a42e5df44f4540b66a35376c7e1a53b6828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 108/130] fix: Do not parse MQTT packet fields beyond end of
 packet

---
 src/lib/mqtt/mqtt_parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index d3f3b4e..ed196fe 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -1490,6 +1490,11 @@ void rrr_mqtt_packet_parse (
 		RRR_MQTT_PARSE_STATUS_SET(session,RRR_MQTT_PARSE_STATUS_FIXED_HEADER_DONE);
 	}
 
+	// Data behind the packet belongs to the next packet
+	if (session->buf_wpos > session->target_size) {
+		session->buf_wpos = session->target_size;
+	}
+
 //	printf ("calling parse for type %s total bytes received %li/%li\n",
 //			session->type_properties->name, session->buf_size, session->target_size);
 
-- 
2.43.0


From a47cd7882b2ff0073ecaac969e4dd1d389dc8b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 109/130] fix: Memory leak when parsing of MQTT property fails

---
 src/lib/mqtt/mqtt_parse.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index ed196fe..3ca51e3 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -775,8 +775,13 @@ static int __rrr_mqtt_parse_properties (
 	const char *properties_body_end = properties_body_start + property_length;
 
 	while (end < properties_body_end) {
-		uint8_t type;
-		PARSE_U8_RAW(start,end,type);
+		start = end;
+		end = start + 1;
+		if (PARSE_CHECK_END_RAW(end,session->buf+session->buf_wpos)) {
+			ret = RRR_MQTT_INCOMPLETE;
+			goto out;
+		}
+		const uint8_t type = *((uint8_t *) start);
 
 		const struct rrr_mqtt_property_definition *property_def = rrr_mqtt_property_get_definition(type);
 		if (property_def == NULL) {
@@ -793,7 +798,7 @@ static int __rrr_mqtt_parse_properties (
 		start = end;
 		ret = property_parsers[property_def->internal_data_type](property_tmp, session, start, &bytes_parsed);
 		if (ret != 0) {
-			return ret;
+			goto out;
 		}
 		end = start + bytes_parsed;
 
-- 
2.43.0


From 3726efba4a9384ef2a2d2a7556096a7ecbd7f9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 110/130] fix: MQTT properties may not exceed property length

---
 src/lib/mqtt/mqtt_parse.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 3ca51e3..9243265 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -774,6 +774,12 @@ static int __rrr_mqtt_parse_properties (
 	const char *properties_body_start = start;
 	const char *properties_body_end = properties_body_start + property_length;
 
+	if (PARSE_CHECK_END_RAW(properties_body_end,session->buf+session->target_size)) {
+		RRR_MSG_0("Property length exceeds end of MQTT packet\n");
+		ret = RRR_MQTT_SOFT_ERROR;
+		goto out;
+	}
+
 	while (end < properties_body_end) {
 		start = end;
 		end = start + 1;
@@ -802,6 +808,12 @@ static int __rrr_mqtt_parse_properties (
 		}
 		end = start + bytes_parsed;
 
+		if (PARSE_CHECK_END_RAW(end,properties_body_end)) {
+			RRR_MSG_0("Property 0x%02x exceeds end of properties in MQTT packet\n", type);
+			ret = RRR_MQTT_SOFT_ERROR;
+			goto out;
+		}
+
 		rrr_mqtt_property_collection_add (target, property_tmp);
 		property_tmp = NULL;
 	}
-- 
2.43.0


From ce13f1a9ffe762e8b365ca302c8fc183d31a9e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 111/130] fix: Accept MQTT v5 acknowledgements with reason but
 no property length

---
 src/lib/mqtt/mqtt_parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 9243265..b9b73a2 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -1077,6 +1077,9 @@ int rrr_mqtt_parse_def_puback (struct rrr_mqtt_parse_session *session) {
 			RRR_BUG("Unknown packet type %u in %s\n", RRR_MQTT_P_GET_TYPE(def_puback), __func__);
 		}
 
+		// Property length may be skipped if there are no properties
+		PARSE_CHECK_NO_MORE_DATA();
+
 		PARSE_PROPERTIES_IF_V5(def_puback,properties);
 	}
 
-- 
2.43.0


From 4d0aaffca4262109f0ecd58ec311bb35e6fccaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 112/130] fix: Verify reason of received MQTT DISCONNECT

---
 src/lib/mqtt/mqtt_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index b9b73a2..74c076d 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -1395,7 +1395,7 @@ int rrr_mqtt_parse_disconnect (struct rrr_mqtt_parse_session *session) {
 	}
 
 	PARSE_PREPARE(1);
-	disconnect->reason_v5 = *((uint8_t*) parse_state->start);
+	PARSE_SAVE_AND_CHECK_REASON_STRUCT(disconnect,disconnect,*((uint8_t*) parse_state->start));
 
 	if (session->target_size - session->variable_header_pos == 1) {
 		// Allowed to skip disconnect property length if there are no properties
-- 
2.43.0


From 86b383fb20370b87e55d692b363d80b147ecbce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 113/130] fix: Zero length MQTT properties and fields

---
 src/lib/mqtt/mqtt_assemble.c    |  4 ++--
 src/lib/mqtt/mqtt_payload_buf.c |  4 ----
 src/lib/mqtt/mqtt_property.c    | 14 ++++----------
 3 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/lib/mqtt/mqtt_assemble.c b/src/lib/mqtt/mqtt_assemble.c
index 3206194..b6cb751 100644
--- a/src/lib/mqtt/mqtt_assemble.c
+++ b/src/lib/mqtt/mqtt_assemble.c
@@ -134,8 +134,8 @@ static int __rrr_mqtt_assemble_put_properties_callback (
 
 	int ret = RRR_MQTT_ASSEMBLE_OK;
 
-	if (property->data == NULL || property->length == 0) {
-		RRR_BUG("Property data and/or length was 0 in %s\n", __func__);
+	if (property->data == NULL) {
+		RRR_BUG("Property data was NULL in %s\n", __func__);
 	}
 
 	PUT_U8(property->definition->identifier);
diff --git a/src/lib/mqtt/mqtt_payload_buf.c b/src/lib/mqtt/mqtt_payload_buf.c
index 4a03070..8575876 100644
--- a/src/lib/mqtt/mqtt_payload_buf.c
+++ b/src/lib/mqtt/mqtt_payload_buf.c
@@ -63,10 +63,6 @@ void rrr_mqtt_payload_buf_dump (struct rrr_mqtt_payload_buf_session *session) {
 }
 
 int rrr_mqtt_payload_buf_ensure (struct rrr_mqtt_payload_buf_session *session, rrr_length size) {
-	if (size <= 0) {
-		RRR_BUG("size was <= 0 in %s\n", __func__);
-	}
-
 	if (session->wpos + size <= session->buf + session->buf_size) {
 		return RRR_MQTT_PAYLOAD_BUF_OK;
 	}
diff --git a/src/lib/mqtt/mqtt_property.c b/src/lib/mqtt/mqtt_property.c
index 0828938..066d039 100644
--- a/src/lib/mqtt/mqtt_property.c
+++ b/src/lib/mqtt/mqtt_property.c
@@ -139,11 +139,8 @@ int rrr_mqtt_property_clone (
 	RRR_LL_NODE_INIT(result);
 	result->sibling = NULL;
 
-	if (result->length <= 0) {
-		RRR_BUG("Length was <= 0 in %s\n", __func__);
-	}
-
-	if ((result->data = rrr_allocate(result->length)) == NULL) {
+	// Length may be zero, data must still be non-NULL
+	if ((result->data = rrr_allocate(result->length > 0 ? result->length : 1)) == NULL) {
 		RRR_MSG_0("Could not allocate memory for data in %s\n", __func__);
 		ret = 1;
 		goto out_free;
@@ -233,9 +230,6 @@ const char *rrr_mqtt_property_get_blob (
 	if (property->internal_data_type != RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB) {
 		RRR_BUG("Property was not BLOB in %s\n", __func__);
 	}
-	if (property->length < 1) {
-		RRR_BUG("Length of property was <1 in %s\n", __func__);
-	}
 	*length = property->length;
 	return property->data;
 }
@@ -295,9 +289,9 @@ static int __rrr_mqtt_property_clone (
 	result->order = source->order;
 	result->internal_data_type = source->internal_data_type;
 
-	if (source->length > 0) {
+	if (source->data != NULL) {
 		result->length = source->length;
-		if ((result->data = rrr_allocate(result->length)) == NULL) {
+		if ((result->data = rrr_allocate(result->length > 0 ? result->length : 1)) == NULL) {
 			RRR_MSG_0("Could not allocate memory for data in %s\n", __func__);
 			ret = 1;
 			goto out_destroy;
-- 
2.43.0


From 681509a660a470c3e8a5e9d88eec9fb14ddf023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 114/130] fix: Protocol name of MQTT 3.1 when sending CONNECT

---
 src/lib/mqtt/mqtt_packet.c |  2 +-
 src/lib/mqtt/mqtt_parse.c  | 22 ++--------------------
 2 files changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/lib/mqtt/mqtt_packet.c b/src/lib/mqtt/mqtt_packet.c
index 8cab14d..d7944eb 100644
--- a/src/lib/mqtt/mqtt_packet.c
+++ b/src/lib/mqtt/mqtt_packet.c
@@ -39,7 +39,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include "../helpers/nullsafe_str.h"
 
 static const struct rrr_mqtt_p_protocol_version protocol_versions[] = {
-		{RRR_MQTT_VERSION_3_1, "MQISDP"},
+		{RRR_MQTT_VERSION_3_1, "MQIsdp"},
 		{RRR_MQTT_VERSION_3_1_1, "MQTT"},
 		{RRR_MQTT_VERSION_5, "MQTT"},
 		{0, NULL}
diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 74c076d..514d606 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -20,7 +20,6 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 */
 
 #include <stdlib.h>
-#include <ctype.h>
 #include <string.h>
 
 #include "../log.h"
@@ -33,6 +32,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include "mqtt_topic.h"
 #include "mqtt_common.h"
 
+#include "../util/posix.h"
 #include "../util/utf8.h"
 #include "../util/rrr_endian.h"
 #include "../util/macro_utils.h"
@@ -831,25 +831,7 @@ static int __rrr_mqtt_parse_protocol_version_validate_name (
 		const struct rrr_mqtt_p_protocol_version *protocol_version,
 		const char *string
 ) {
-	size_t len = strlen(string);
-
-	if (len > 16) {
-		RRR_BUG("Length overflow (%llu>%d) in %s\n",
-			(unsigned long long) len, 16, __func__);
-	}
-
-	char uppercase[len + 1];
-	uppercase[len] = '\0';
-
-	const char *input = string;
-	char *output = uppercase;
-	while (*input) {
-		*output = (char) toupper(*input);
-		output++;
-		input++;
-	}
-
-	if (strcmp(protocol_version->name, uppercase) == 0) {
+	if (rrr_posix_strcasecmp(protocol_version->name, string) == 0) {
 		return 0;
 	}
 
-- 
2.43.0


From 34623a3d34049981f8dfd3412814b11aa5a19da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 115/130] fix: MQTT SUBSCRIBE with No Local or Retain As
 Published

---
 src/lib/mqtt/mqtt_assemble.c     | 2 +-
 src/lib/mqtt/mqtt_subscription.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_assemble.c b/src/lib/mqtt/mqtt_assemble.c
index b6cb751..acf9666 100644
--- a/src/lib/mqtt/mqtt_assemble.c
+++ b/src/lib/mqtt/mqtt_assemble.c
@@ -378,7 +378,7 @@ int __rrr_mqtt_assemble_sub_usub_callback (struct rrr_mqtt_subscription *sub, vo
 	struct assemble_sub_usub_callback_data *callback_data = arg;
 	struct rrr_mqtt_payload_buf_session *session = callback_data->session;
 
-	if (sub->nl > 0 || sub->rap > 0 || sub->retain_handling > 2 || sub->qos_or_reason_v5 > 2) {
+	if (sub->nl > 1 || sub->rap > 1 || sub->retain_handling > 2 || sub->qos_or_reason_v5 > 2) {
 		RRR_BUG("Invalid flags/QoS in %s\n", __func__);
 	}
 
diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index 10fc0bf..0409c92 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -60,7 +60,7 @@ int rrr_mqtt_subscription_new (
 
 	*target = NULL;
 
-	if (nl > 0 || rap > 0 || retain_handling > 2) {
+	if (nl > 1 || rap > 1 || retain_handling > 2) {
 		RRR_BUG("Invalid flags in %s\n", __func__);
 	}
 
-- 
2.43.0


From dfd25941814bc6bf342d1a30c97ff93e61e9f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 116/130] fix: MQTT reasons allowed in DISCONNECT and PUBACK

---
 src/lib/mqtt/mqtt_packet.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/lib/mqtt/mqtt_packet.c b/src/lib/mqtt/mqtt_packet.c
index d7944eb..f0da052 100644
--- a/src/lib/mqtt/mqtt_packet.c
+++ b/src/lib/mqtt/mqtt_packet.c
@@ -255,7 +255,7 @@ const struct rrr_mqtt_p_reason rrr_mqtt_p_reason_map[] = {
         { 0x84, RRR_MQTT_P_31_REASON_BAD_PROTOCOL_VERSION,  1, 0, 0, 0, 0, 0, "Refused/unsupported protocol version"},
         { 0x85, RRR_MQTT_P_31_REASON_CLIENT_ID_REJECTED,    1, 0, 0, 0, 0, 0, "Client identifier not valid/rejected"},
         { 0x86, RRR_MQTT_P_31_REASON_BAD_CREDENTIALS,       1, 0, 0, 0, 0, 0, "Bad user name or password"},
-        { 0x87, RRR_MQTT_P_31_REASON_NOT_AUTHORIZED,        1, 0, 1, 0, 1, 1, "Not authorized"},
+        { 0x87, RRR_MQTT_P_31_REASON_NOT_AUTHORIZED,        1, 1, 1, 0, 1, 1, "Not authorized"},
         { 0x88, RRR_MQTT_P_31_REASON_SERVER_UNAVAILABLE,    1, 0, 0, 0, 0, 0, "Server unavailable"},
 
         { 0x01, RRR_MQTT_P_31_REASON_OK,                    0, 0, 0, 0, 1, 0, "Success with QoS 1"},
@@ -276,22 +276,22 @@ const struct rrr_mqtt_p_reason rrr_mqtt_p_reason_map[] = {
         { 0x8E, RRR_MQTT_P_31_REASON_NA,                    0, 1, 0, 0, 0, 0, "Session taken over"},
         { 0x8F, RRR_MQTT_P_31_REASON_NA,                    0, 1, 0, 0, 1, 1, "Topic filter invalid"},
 
-        { 0x90, RRR_MQTT_P_31_REASON_NO_CONNACK,            1, 0, 1, 0, 0, 0, "Topic Name invalid"},
+        { 0x90, RRR_MQTT_P_31_REASON_NO_CONNACK,            1, 1, 1, 0, 0, 0, "Topic Name invalid"},
         { 0x91, RRR_MQTT_P_31_REASON_NA,                    0, 0, 1, 0, 1, 1, "Packet identifier in use"},
-        { 0x92, RRR_MQTT_P_31_REASON_NA,                    0, 0, 1, 1, 0, 0, "Packet identifier not found"},
+        { 0x92, RRR_MQTT_P_31_REASON_NA,                    0, 0, 0, 1, 0, 0, "Packet identifier not found"},
         { 0x93, RRR_MQTT_P_31_REASON_NA,                    0, 1, 0, 0, 0, 0, "Receive maximum exceeded"},
         { 0x94, RRR_MQTT_P_31_REASON_NA,                    0, 1, 0, 0, 0, 0, "Topic alias invalid"},
-        { 0x95, RRR_MQTT_P_31_REASON_NO_CONNACK,            1, 0, 0, 0, 0, 0, "Packet too large"},
+        { 0x95, RRR_MQTT_P_31_REASON_NO_CONNACK,            1, 1, 0, 0, 0, 0, "Packet too large"},
         { 0x96, RRR_MQTT_P_31_REASON_NA,                    0, 1, 0, 0, 0, 0, "Messsage rate too large"},
-        { 0x97, RRR_MQTT_P_31_REASON_NO_CONNACK,            1, 0, 1, 0, 1, 0, "Quota exceeded"},
+        { 0x97, RRR_MQTT_P_31_REASON_NO_CONNACK,            1, 1, 1, 0, 1, 0, "Quota exceeded"},
         { 0x98, RRR_MQTT_P_31_REASON_NA,                    0, 1, 0, 0, 0, 0, "Administrative action"},
-        { 0x99, RRR_MQTT_P_31_REASON_NO_CONNACK,            1, 0, 1, 0, 0, 0, "Payload format invalid"},
-        { 0x9A, RRR_MQTT_P_31_REASON_NO_CONNACK,            1, 0, 0, 0, 0, 0, "Retain not supported"},
-        { 0x9B, RRR_MQTT_P_31_REASON_NO_CONNACK,            1, 0, 0, 0, 0, 0, "QoS not supported"},
-        { 0x9C, RRR_MQTT_P_31_REASON_SERVER_UNAVAILABLE,    1, 0, 0, 0, 0, 0, "Use another server"},
-        { 0x9D, RRR_MQTT_P_31_REASON_SERVER_UNAVAILABLE,    1, 0, 0, 0, 0, 0, "Server moved"},
-        { 0x9E, RRR_MQTT_P_31_REASON_NA,                    0, 0, 0, 0, 1, 0, "Shared subscriptions not supported"},
-        { 0x9F, RRR_MQTT_P_31_REASON_SERVER_UNAVAILABLE,    1, 0, 0, 0, 0, 0, "Connection rate exceeded"},
+        { 0x99, RRR_MQTT_P_31_REASON_NO_CONNACK,            1, 1, 1, 0, 0, 0, "Payload format invalid"},
+        { 0x9A, RRR_MQTT_P_31_REASON_NO_CONNACK,            1, 1, 0, 0, 0, 0, "Retain not supported"},
+        { 0x9B, RRR_MQTT_P_31_REASON_NO_CONNACK,            1, 1, 0, 0, 0, 0, "QoS not supported"},
+        { 0x9C, RRR_MQTT_P_31_REASON_SERVER_UNAVAILABLE,    1, 1, 0, 0, 0, 0, "Use another server"},
+        { 0x9D, RRR_MQTT_P_31_REASON_SERVER_UNAVAILABLE,    1, 1, 0, 0, 0, 0, "Server moved"},
+        { 0x9E, RRR_MQTT_P_31_REASON_NA,                    0, 1, 0, 0, 1, 0, "Shared subscriptions not supported"},
+        { 0x9F, RRR_MQTT_P_31_REASON_SERVER_UNAVAILABLE,    1, 1, 0, 0, 0, 0, "Connection rate exceeded"},
 
         { 0xA0, RRR_MQTT_P_31_REASON_NA,                    0, 1, 0, 0, 0, 0, "Maximum connect time"},
         { 0xA1, RRR_MQTT_P_31_REASON_NA,                    0, 1, 0, 0, 1, 0, "Subscription Identifiers not supported"},
-- 
2.43.0


From b88f3c9a7dec4fdfce597ec1d658dcebcf54c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 117/130] fix: Discard outbound publishes of the old session
 when a client starts clean

---
 src/lib/mqtt/mqtt_session_ram.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index ade8871..0d29ee5 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -97,6 +97,9 @@ struct rrr_mqtt_session_collection_ram_data {
 	// Checks and modifications to perform before transmitting publish (broker handles expiry)
 	int (*pretransmit_method)(RRR_MQTT_SESSION_RAM_PRETRANSMIT_METHOD_ARGS);
 
+	// Preserve outbound PUBLISH with QoS 1 and 2 when a session is cleaned (client only)
+	int do_preserve_publish;
+
 	// Packets in this queue are retained and will be published upon new subscriptions matching
 	// topics.
 	struct rrr_mqtt_p_queue retain_buffer;
@@ -1221,8 +1224,10 @@ static int __rrr_mqtt_session_ram_clean_preserve_publish_and_release_id_callback
 	struct rrr_mqtt_p_publish *publish_new = NULL;
 
 	// We need to check for all possible complete states, just like when housekeeping
-	// the queue. Complete packets are not preserved.
-	if (	RRR_MQTT_P_GET_TYPE(packet) == RRR_MQTT_P_TYPE_PUBLISH &&
+	// the queue. Complete packets are not preserved. In the broker, nothing from the old
+	// session may survive.
+	if (	preserve_callback_data->ram_session->ram_data->do_preserve_publish &&
+			RRR_MQTT_P_GET_TYPE(packet) == RRR_MQTT_P_TYPE_PUBLISH &&
 			packet->planned_expiry_time == 0 &&
 			(
 					(RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) == 1 && publish->qos_packets.puback == NULL) ||
@@ -3179,6 +3184,7 @@ static int __rrr_mqtt_session_collection_ram_new (
 		struct rrr_mqtt_session_collection **sessions,
 		int (*delivery_method)(RRR_MQTT_SESSION_RAM_DELIVERY_METHOD_ARGS),
 		int (*pretransmit_method)(RRR_MQTT_SESSION_RAM_PRETRANSMIT_METHOD_ARGS),
+		int do_preserve_publish,
 		void *arg
 ) {
 	int ret = 0;
@@ -3210,6 +3216,7 @@ static int __rrr_mqtt_session_collection_ram_new (
 
 	ram_data->delivery_method = delivery_method;
 	ram_data->pretransmit_method = pretransmit_method;
+	ram_data->do_preserve_publish = do_preserve_publish;
 
 	*sessions = (struct rrr_mqtt_session_collection *) ram_data;
 
@@ -3229,6 +3236,7 @@ int rrr_mqtt_session_collection_ram_new_broker (struct rrr_mqtt_session_collecti
 			sessions,
 			__rrr_mqtt_session_ram_delivery_forward,
 			__rrr_mqtt_session_ram_pretransmit_forward,
+			0,
 			arg
 	);
 }
@@ -3238,6 +3246,7 @@ int rrr_mqtt_session_collection_ram_new_client (struct rrr_mqtt_session_collecti
 			sessions,
 			__rrr_mqtt_session_ram_delivery_local,
 			__rrr_mqtt_session_ram_pretransmit_local,
+			1,
 			arg
 	);
 }
-- 
2.43.0


From 991d4d020faaf9aa1ab3293354fcb106847fed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 118/130] fix: Send retained messages again when a subscription
 is replaced

---
 src/lib/mqtt/mqtt_subscription.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index 0409c92..3c25ddd 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -615,13 +615,14 @@ int rrr_mqtt_subscription_collection_append_unique_copy_from_collection (
 		ret = rrr_mqtt_subscription_collection_add_unique(target, &subscription_tmp, 1);
 		rrr_mqtt_subscription_destroy(subscription_tmp); // Destroy function checks for NULL
 
-		if ((ret & RRR_MQTT_SUBSCRIPTION_REPLACED) == 0) {
-			if (new_subscrition_callback != NULL) {
-				ret = new_subscrition_callback(node, new_subscrition_callback_arg);
-			}
-		}
-		else {
-			ret &= ~(RRR_MQTT_SUBSCRIPTION_REPLACED);
+		// Retained messages are to be sent for new subscriptions (retain handling 0 and 1) and
+		// are to be sent again when a subscription is replaced (retain handling 0)
+		const uint8_t retain_handling_max = (ret & RRR_MQTT_SUBSCRIPTION_REPLACED) ? 0 : 1;
+
+		ret &= ~(RRR_MQTT_SUBSCRIPTION_REPLACED);
+
+		if (ret == 0 && new_subscrition_callback != NULL && node->retain_handling <= retain_handling_max) {
+			ret = new_subscrition_callback(node, new_subscrition_callback_arg);
 		}
 
 		if (ret != 0) {
-- 
2.43.0


From abe6785f6486caddcb1c53af2d70f57cadacb68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 119/130] fix: End clean sessions of MQTT 3.1 clients with the
 network connection

---
 src/lib/mqtt/mqtt_broker.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index f558227..13c1448 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -577,8 +577,12 @@ static int _rrr_mqtt_broker_handle_connect_session_init (
 
 	if (!RRR_MQTT_P_IS_V5(connect)) {
 		// Default for version 3.1 is that sessions do not expire,
-		// only use clean session to control this
-		session_properties.numbers.session_expiry = 0xffffffff;
+		// only use clean session to control this. A clean session lasts
+		// only as long as the network connection.
+		session_properties.numbers.session_expiry = RRR_MQTT_P_CONNECT_GET_FLAG_CLEAN_START(connect)
+			? 0
+			: 0xffffffff
+		;
 	}
 
 	struct rrr_mqtt_common_parse_properties_data_connect callback_data = {
-- 
2.43.0


From 1b75b3ef21c4057762b566da10d25b8a18e3fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 120/130] fix: Publish will and end session when a connection
 is taken over

---
 src/lib/mqtt/mqtt_broker.c      | 11 ++++++++++-
 src/lib/mqtt/mqtt_connection.c  |  9 +++++++++
 src/lib/mqtt/mqtt_connection.h  |  3 +++
 src/lib/mqtt/mqtt_session_ram.c |  4 +++-
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index 13c1448..3e3b3b6 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -153,6 +153,12 @@ static int __rrr_mqtt_broker_check_unique_client_id_callback (struct rrr_net_tra
 		goto out;
 	}
 
+	// The network connection of the existing client has now ended. Publish any will and end the
+	// session if it does not outlive the connection before the new connection gets the session.
+	if ((ret = rrr_mqtt_conn_iterator_ctx_notify_disconnect(handle)) != 0) {
+		goto out;
+	}
+
 	callback_data->other_client_was_disconnected = 1;
 
 	out:
@@ -478,7 +484,7 @@ static int __rrr_mqtt_broker_handle_connect_check_client_identifier (
 				ret = RRR_MQTT_SESSION_INTERNAL_ERROR;
 				goto out;
 			}
-			if (session == NULL) {
+			if (*session == NULL) {
 				RRR_DBG_2("Client ID cannot begin with '" RRR_MQTT_BROKER_CLIENT_PREFIX "' unless a session with such name already exists\n");
 				*reason_v5 = RRR_MQTT_P_5_REASON_CLIENT_ID_REJECTED;
 				goto out;
@@ -505,6 +511,9 @@ static int __rrr_mqtt_broker_handle_connect_check_client_identifier (
 		 goto out;
 	}
 
+	// The session may have ended with the connection of the existing client, look it up again later
+	*session = NULL;
+
 	if ((ret = rrr_mqtt_conn_set_client_id (connection, connect->client_identifier)) != 0) {
 		RRR_MSG_0("Could not set client ID in %s\n", __func__);
 		goto out;
diff --git a/src/lib/mqtt/mqtt_connection.c b/src/lib/mqtt/mqtt_connection.c
index 2427520..e0926bd 100644
--- a/src/lib/mqtt/mqtt_connection.c
+++ b/src/lib/mqtt/mqtt_connection.c
@@ -368,6 +368,15 @@ static int __rrr_mqtt_connection_disconnect_call_event_handler_if_needed (
 	return ret;
 }
 
+int rrr_mqtt_conn_iterator_ctx_notify_disconnect (
+		struct rrr_net_transport_handle *handle
+) {
+	// Connection may already be in CLOSE_WAIT
+	struct rrr_mqtt_conn *connection = RRR_NET_TRANSPORT_CTX_PRIVATE_PTR(handle);
+
+	return __rrr_mqtt_connection_disconnect_call_event_handler_if_needed(connection);
+}
+
 static int __rrr_mqtt_connection_in_iterator_disconnect (
 		RRR_NET_TRANSPORT_APPLICATION_PRE_DESTROY_ARGS
 ) {
diff --git a/src/lib/mqtt/mqtt_connection.h b/src/lib/mqtt/mqtt_connection.h
index c8d112d..76305c1 100644
--- a/src/lib/mqtt/mqtt_connection.h
+++ b/src/lib/mqtt/mqtt_connection.h
@@ -211,6 +211,9 @@ int rrr_mqtt_conn_iterator_ctx_set_disconnect_reason (
 		struct rrr_net_transport_handle *handle,
 		uint8_t reason_v5
 );
+int rrr_mqtt_conn_iterator_ctx_notify_disconnect (
+		struct rrr_net_transport_handle *handle
+);
 int rrr_mqtt_conn_iterator_ctx_send_disconnect (
 		struct rrr_net_transport_handle *handle
 );
diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 0d29ee5..344f476 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -2793,7 +2793,9 @@ static int __rrr_mqtt_session_ram_notify_disconnect (
 			reason_v5
 	);
 
-	if (reason_v5 == RRR_MQTT_P_5_REASON_SESSION_TAKEN_OVER) {
+	// In the broker, the session is about to be used by a new connection and the old
+	// connection has ended like any other. The expire time is reset by the new connection.
+	if (reason_v5 == RRR_MQTT_P_5_REASON_SESSION_TAKEN_OVER && ram_data->do_preserve_publish) {
 		RRR_DBG_1("Session notify disconnect no deletion due to session take-over\n");
 		ram_session->expire_time = 0; // Never
 		goto out;
-- 
2.43.0


From caa501615c0eefc16a41a2d4352b5637871e10b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 121/130] fix: Send incomplete publishes again at once when a
 session is resumed

---
 src/lib/mqtt/mqtt_session_ram.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 344f476..5dcd992 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1341,6 +1341,23 @@ static int __rrr_mqtt_session_ram_clean_final (struct rrr_mqtt_session_ram *ram_
 	return ret;
 }
 
+static int __rrr_mqtt_session_ram_resend_callback (RRR_FIFO_READ_CALLBACK_ARGS) {
+	struct rrr_mqtt_p_publish *publish = (struct rrr_mqtt_p_publish *) data;
+
+	(void)(size);
+	(void)(arg);
+
+	if (	RRR_MQTT_P_GET_TYPE(publish) == RRR_MQTT_P_TYPE_PUBLISH &&
+		RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) > 0 &&
+		publish->last_attempt != 0
+	) {
+		publish->last_attempt = 0;
+		RRR_MQTT_P_PUBLISH_SET_FLAG_DUP(publish, 1);
+	}
+
+	return RRR_FIFO_OK;
+}
+
 static int __rrr_mqtt_session_ram_init (
 		struct rrr_mqtt_session_collection *collection,
 		struct rrr_mqtt_session **session_to_find,
@@ -1371,6 +1388,16 @@ static int __rrr_mqtt_session_ram_init (
 	if (clean_session) {
 		__rrr_mqtt_session_ram_clean_final(ram_session);
 	}
+	else if (rrr_fifo_search (
+			&ram_session->to_remote_buffer.buffer,
+			__rrr_mqtt_session_ram_resend_callback,
+			NULL
+	) != 0) {
+		// Incomplete publishes must be sent again on the new connection, and before any newer ones
+		RRR_MSG_0("Could not prepare publishes for resending in %s\n", __func__);
+		ret = RRR_MQTT_SESSION_INTERNAL_ERROR;
+		goto out;
+	}
 
 	RRR_DBG_2("Initialize ram session, expiry interval is %" PRIu32 " have will publish %p clean session %i to remote buffer count %" PRIrrrl "\n",
 			ram_session->session_properties.numbers.session_expiry,
-- 
2.43.0


From ec61b646a1254f23f0cfeb4eab0ddb4d97f3afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 122/130] fix: Keep session of MQTT 3.1 clients when the
 connection is lost

---
 src/lib/mqtt/mqtt_client.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/mqtt/mqtt_client.c b/src/lib/mqtt/mqtt_client.c
index b682446..6136de6 100644
--- a/src/lib/mqtt/mqtt_client.c
+++ b/src/lib/mqtt/mqtt_client.c
@@ -553,6 +553,10 @@ int rrr_mqtt_client_connect (
 			}
 		}
 	}
+	else {
+		// No properties in version 3.1
+		session_properties_tmp.numbers.session_expiry = 0xffffffff;
+	}
 
 	data->protocol_version = protocol_version;
 
-- 
2.43.0


From 723ae8164859b40bc8b2695fca28f6deb01cc5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 123/130] fix: Use a session which lasts in the MQTT client
 module

---
 src/modules/p_mqttclient.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index 4b1102e..4d7b97a 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -2289,6 +2289,15 @@ static void *thread_entry_mqtt_client (struct rrr_thread *thread) {
 
 	// Successive connect attempts or re-connect does not require clean start to be set. Server
 	// will respond with CONNACK with session present=0 if we need to clean up our state.
+	if (clean_start && data->version < 5 && data->client_identifier != NULL && *(data->client_identifier) != '\0') {
+		// In version 3.1.1, a session started with the clean flag ends with its network
+		// connection. Connect once more to obtain a session which lasts.
+		clean_start = 0;
+		rrr_mqtt_client_disconnect(data->mqtt_client_data, data->transport_handle, RRR_MQTT_P_5_REASON_OK);
+		data->disconnect_time = rrr_time_get_64();
+		mqttclient_wait_disconnect(data);
+		goto reconnect;
+	}
 	clean_start = 0;
 
 	if ((ret_tmp = mqttclient_do_subscribe(data)) != 0) {
-- 
2.43.0


From 8f3145b64719cb31983ee6ba68716522d2b72fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:55 +0000
Subject: [PATCH 124/130] fix: Connect once in the MQTT client module (reverts
 723ae81)

---
 src/modules/p_mqttclient.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index 4d7b97a..4b1102e 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -2289,15 +2289,6 @@ static void *thread_entry_mqtt_client (struct rrr_thread *thread) {
 
 	// Successive connect attempts or re-connect does not require clean start to be set. Server
 	// will respond with CONNACK with session present=0 if we need to clean up our state.
-	if (clean_start && data->version < 5 && data->client_identifier != NULL && *(data->client_identifier) != '\0') {
-		// In version 3.1.1, a session started with the clean flag ends with its network
-		// connection. Connect once more to obtain a session which lasts.
-		clean_start = 0;
-		rrr_mqtt_client_disconnect(data->mqtt_client_data, data->transport_handle, RRR_MQTT_P_5_REASON_OK);
-		data->disconnect_time = rrr_time_get_64();
-		mqttclient_wait_disconnect(data);
-		goto reconnect;
-	}
 	clean_start = 0;
 
 	if ((ret_tmp = mqttclient_do_subscribe(data)) != 0) {
-- 
2.43.0


From 330a2a67fa07c633dec12d0c15587ed8959667a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:55 +0000
Subject: [PATCH 125/130] fix: Keep sessions of MQTT 3.1 clients when they
 disconnect (reverts abe6785)

---
 src/lib/mqtt/mqtt_broker.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index 3e3b3b6..444c434 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -586,12 +586,8 @@ static int _rrr_mqtt_broker_handle_connect_session_init (
 
 	if (!RRR_MQTT_P_IS_V5(connect)) {
 		// Default for version 3.1 is that sessions do not expire,
-		// only use clean session to control this. A clean session lasts
-		// only as long as the network connection.
-		session_properties.numbers.session_expiry = RRR_MQTT_P_CONNECT_GET_FLAG_CLEAN_START(connect)
-			? 0
-			: 0xffffffff
-		;
+		// only use clean session to control this
+		session_properties.numbers.session_expiry = 0xffffffff;
 	}
 
 	struct rrr_mqtt_common_parse_properties_data_connect callback_data = {
-- 
2.43.0


From 433fcd9a450acf822552c706cd1c9964ed29dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:15 +0000
Subject: [PATCH 126/130] fix: Do not send retained messages again to clients
 which repeat subscriptions (reverts 991d4d0)

---
 src/lib/mqtt/mqtt_subscription.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index 3c25ddd..0409c92 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -615,14 +615,13 @@ int rrr_mqtt_subscription_collection_append_unique_copy_from_collection (
 		ret = rrr_mqtt_subscription_collection_add_unique(target, &subscription_tmp, 1);
 		rrr_mqtt_subscription_destroy(subscription_tmp); // Destroy function checks for NULL
 
-		// Retained messages are to be sent for new subscriptions (retain handling 0 and 1) and
-		// are to be sent again when a subscription is replaced (retain handling 0)
-		const uint8_t retain_handling_max = (ret & RRR_MQTT_SUBSCRIPTION_REPLACED) ? 0 : 1;
-
-		ret &= ~(RRR_MQTT_SUBSCRIPTION_REPLACED);
-
-		if (ret == 0 && new_subscrition_callback != NULL && node->retain_handling <= retain_handling_max) {
-			ret = new_subscrition_callback(node, new_subscrition_callback_arg);
+		if ((ret & RRR_MQTT_SUBSCRIPTION_REPLACED) == 0) {
+			if (new_subscrition_callback != NULL) {
+				ret = new_subscrition_callback(node, new_subscrition_callback_arg);
+			}
+		}
+		else {
+			ret &= ~(RRR_MQTT_SUBSCRIPTION_REPLACED);
 		}
 
 		if (ret != 0) {
-- 
2.43.0


From 8fce85a7e09d0a6e115aba028cf3e500320da3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 127/130] fix: Honour retain handling 2 of MQTT subscriptions

---
 src/lib/mqtt/mqtt_session_ram.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 5dcd992..b492e10 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -2998,6 +2998,11 @@ static int __rrr_mqtt_session_ram_receive_new_subscription_callback (
 
 	struct rrr_mqtt_subscription *subscription_new = NULL;
 
+	if (subscription->retain_handling > 1) {
+		// No retained messages requested
+		return 0;
+	}
+
 	if (rrr_mqtt_subscription_clone(&subscription_new, subscription) != 0) {
 		RRR_MSG_0("Could not clone subscription in %s\n", __func__);
 		return 1;
-- 
2.43.0


From 9834afd8ca0273416fcfe50b8d84baee214d5199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 128/130] fix: Tolerate retransmission of an MQTT QoS 1 publish
 on the same connection

---
 src/lib/mqtt/mqtt_session_ram.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index b492e10..4e57a0a 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1678,8 +1678,9 @@ static int __rrr_mqtt_session_ram_process_ack_callback (RRR_FIFO_READ_CALLBACK_A
 				publish->qos_packets.puback = NULL;
 			}
 			else if (publish->is_outbound == 0) {
-				if ((ret = ram_session->ram_data->delivery_method(ram_session, publish)) != RRR_MQTT_SESSION_OK) {
-					RRR_MSG_0("Error while delivering PUBLISH in %s return was %i\n", __func__, ret);
+				int ret_tmp;
+				if ((ret_tmp = ram_session->ram_data->delivery_method(ram_session, publish)) != RRR_MQTT_SESSION_OK) {
+					RRR_MSG_0("Error while delivering PUBLISH in %s return was %i\n", __func__, ret_tmp);
 					ret = RRR_FIFO_GLOBAL_ERR;
 					goto out;
 				}
-- 
2.43.0


From 97836f8e421644a625428f86d1c87bceb56f06ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:06 +0000
Subject: [PATCH 129/130] fix: Complete a partially sent chunk before other
 chunks are sent on the same connection

---
 src/lib/socket/rrr_socket_send_chunk.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/lib/socket/rrr_socket_send_chunk.c b/src/lib/socket/rrr_socket_send_chunk.c
index 8ebf6e6..da6e00e 100644
--- a/src/lib/socket/rrr_socket_send_chunk.c
+++ b/src/lib/socket/rrr_socket_send_chunk.c
@@ -302,6 +302,19 @@ int rrr_socket_send_chunk_collection_push_const_with_address_and_private_data (
 	);
 }
 
+/*
+ * A chunk which is partially sent must be completed before any other chunk
+ * is sent, also when chunks with higher priority are pushed in the meantime.
+ */
+static void __rrr_socket_send_chunk_collection_move_first (
+		struct rrr_socket_send_chunk_collection *chunks,
+		struct rrr_socket_send_chunk_collection_list *list,
+		struct rrr_socket_send_chunk *chunk
+) {
+	RRR_LL_REMOVE_NODE_NO_FREE(list, chunk);
+	RRR_LL_UNSHIFT(&chunks->chunk_lists[0], chunk);
+}
+
 static int __rrr_socket_send_chunk_collection_send (
 		struct rrr_socket_send_chunk_collection *chunks,
 		int fd,
@@ -330,6 +343,9 @@ static int __rrr_socket_send_chunk_collection_send (
 			)) != 0) {
 				if (ret == RRR_SOCKET_WRITE_INCOMPLETE) {
 					node->data_pos += written_bytes;
+					if (node->data_pos > 0) {
+						__rrr_socket_send_chunk_collection_move_first(chunks, list, node);
+					}
 				}
 				goto out;
 			}
@@ -380,6 +396,7 @@ int rrr_socket_send_chunk_collection_send_with_callback (
 	int ret = 0;
 
 	int max = 10;
+	int stop = 0;
 	RRR_SOCKET_SEND_CHUNK_LISTS_ITERATE_BEGIN();
 		RRR_LL_ITERATE_BEGIN(list, struct rrr_socket_send_chunk);
 			if (!chunks->silent)
@@ -404,13 +421,22 @@ int rrr_socket_send_chunk_collection_send_with_callback (
 			else if (node->data_pos == node->data_size) {
 				RRR_LL_ITERATE_SET_DESTROY(); // Chunk complete
 			}
+			else if (node->data_pos > 0) {
+				__rrr_socket_send_chunk_collection_move_first(chunks, list, node);
+				goto out;
+			}
 
 			if (ret != 0 || written_bytes == 0 || max-- == 0) {
+				stop = 1;
 				RRR_LL_ITERATE_LAST();
 			}
 		RRR_LL_ITERATE_END_CHECK_DESTROY(list, 0; __rrr_socket_send_chunk_destroy(node));
+		if (stop) {
+			goto out;
+		}
 	RRR_SOCKET_SEND_CHUNK_LISTS_ITERATE_END();
 
+	out:
 	return ret;
 }
 
-- 
2.43.0


From e9b32b11dc8f59814a866ae44f141f66cd61b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:06 +0000
Subject: [PATCH 130/130] fix: Use after free in send notification when a
 client with unsent data is destroyed

---
 src/lib/socket/rrr_socket_client.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/socket/rrr_socket_client.c b/src/lib/socket/rrr_socket_client.c
index 8c1bcb1..24ad242 100644
--- a/src/lib/socket/rrr_socket_client.c
+++ b/src/lib/socket/rrr_socket_client.c
@@ -309,10 +309,7 @@ static int __rrr_socket_client_destroy_dangerous (
 ) {
 	struct rrr_socket_client_collection *collection = client->collection;
 
-	RRR_LL_DESTROY(client, struct rrr_socket_client_fd, __rrr_socket_client_fd_destroy(node));
-	if (client->private_data != NULL) {
-		client->collection->callback_private_data_destroy(client->private_data);
-	}
+	// The notify callback uses the connected fd, must be done before the fd is destroyed
 	if (collection->chunk_send_notify_callback) {
 		rrr_socket_send_chunk_collection_clear_with_callback (
 				&client->send_chunks,
@@ -323,6 +320,10 @@ static int __rrr_socket_client_destroy_dangerous (
 	else {
 		rrr_socket_send_chunk_collection_clear(&client->send_chunks);
 	}
+	RRR_LL_DESTROY(client, struct rrr_socket_client_fd, __rrr_socket_client_fd_destroy(node));
+	if (client->private_data != NULL) {
+		client->collection->callback_private_data_destroy(client->private_data);
+	}
 	rrr_read_session_collection_clear(&client->read_sessions);
 	rrr_free(client);
 	return 0;
-- 
2.43.0

