From 7e1539f482067450b1cabee743707c789e1565db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 01/31] fix: ring buffer reads past its end when full, and
 number parsing goes wrong over the roll over

---
 src/core/http_parse.cpp       | 29 ++-----------------
 src/core/http_parse_cache.cpp |  7 ++---
 src/core/read_buffer.cpp      | 52 ++++++++++++++---------------------
 src/core/read_buffer.h        |  8 +++++-
 4 files changed, 32 insertions(+), 64 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index c86f097..1518b02 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -27,31 +27,9 @@
 
 
 void skip_over_newlines(struct read_buffer* rb) {
-	char* buffer;
-	int end = rbuf_read_to_end(rb);
-
-	//Nothing to skip
-	if (end == 0) {
-		return;
-	}
-
-	//Iterate over buffer until the end of the buffer
-	buffer = RBUF_READPTR(rb);
-	for (int i = 0; i < end; i++) {
-		if (*buffer != '\r' && *buffer != '\n') {
-			return;
-		}
-#ifdef DEBUG_BUILD
-		rbuf_debug_read_check(rb, 1);
-#endif
-		rb->read_position++;
-		rbuf_debug_check(rb);
-		buffer++;
-	}
-
-	//Go over anything from the start
-	end = rbuf_read_remaining(rb) - end;
-	for (int i = 0; i < end; i++) {
+	//Iterate over the buffer, until something else is found
+	while (rbuf_read_remaining(rb) != 0) {
+		char* buffer = RBUF_READPTR(rb);
 		if (*buffer != '\r' && *buffer != '\n') {
 			return;
 		}
@@ -60,7 +38,6 @@ void skip_over_newlines(struct read_buffer* rb) {
 #endif
 		rb->read_position++;
 		rbuf_debug_check(rb);
-		buffer++;
 	}
 }
 
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 2edf4be..1567887 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -301,10 +301,7 @@ static state_action http_read_requeststarturl2(scache_connection* connection, ch
 
 static state_action http_read_headers(scache_connection* connection, char* buffer, int n, uint32_t& temporary) {
 	if (*buffer == ':') {
-		int bytes = buffer - RBUF_READ(connection->input);
-		if (bytes < 0) {
-			bytes = rbuf_read_to_end(&connection->input) + (buffer - RBUF_START(connection->input));
-		}
+		int bytes = n;
 		DEBUG("[#%d] Found header of length %d\n", connection->client_sock, bytes);
 
 		if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
@@ -671,7 +668,7 @@ state_action http_cache_handle_headers(scache_connection* connection) {
 
 state_action http_cache_handle_request_body(scache_connection* connection) {
 	DEBUG("[#%d] Handling STATE_REQUESTBODY\n", connection->client_sock);
-	int max_write = rbuf_read_to_end(&connection->input);
+	int max_write = rbuf_read_contiguous(&connection->input);
 	assert(max_write >= 0);
 	int to_write = connection->cache.target.key.end_position - connection->cache.target.key.position;
 	assert(to_write >= 0);
diff --git a/src/core/read_buffer.cpp b/src/core/read_buffer.cpp
index b381b1e..72cd334 100644
--- a/src/core/read_buffer.cpp
+++ b/src/core/read_buffer.cpp
@@ -1,5 +1,6 @@
 #include <assert.h>
 #include <string.h>
+#include <limits.h>
 #include "read_buffer.h"
 #include "debug.h"
 
@@ -13,7 +14,7 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	assert(dest != NULL);
 	rbuf_debug_check(buffer);
 	assert(n <= BUFFER_SIZE);
-	int to_end = rbuf_read_to_end(buffer);
+	int to_end = rbuf_read_contiguous(buffer);
 
 	if (n == 0) {
 		//No bytes to be read
@@ -40,7 +41,6 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	to_end = rbuf_read_remaining(buffer) - to_end;
 	if (to_end != 0) {
 		//Dont read more than needed
-		assert(to_end <= n);
 		if (to_end > n) {
 			to_end = n;
 		}
@@ -72,13 +72,13 @@ int rbuf_cmpn(struct read_buffer* buffer, const char* with, int n) {
 	}
 
 	//Read the maximum we can / want
-	to_end = rbuf_read_to_end(buffer);
+	to_end = rbuf_read_contiguous(buffer);
 	if (n < to_end) {
 		to_end = n;
 	}
 
 	//Copy this ammount
-	int result = strncmp(with, RBUF_READPTR(buffer), to_end);
+	int result = memcmp(with, RBUF_READPTR(buffer), to_end);
 	n -= to_end;
 
 	//Do we need more?
@@ -87,7 +87,7 @@ int rbuf_cmpn(struct read_buffer* buffer, const char* with, int n) {
 		return result;
 	}
 
-	return strncmp(with + to_end, RBUF_STARTPTR(buffer), n);
+	return memcmp(with + to_end, RBUF_STARTPTR(buffer), n);
 
 	//Shouldnt happen
 	return result;
@@ -97,44 +97,26 @@ bool rbuf_strntol(struct read_buffer* buffer, int* output, int max)
 {
 	rbuf_debug_check(buffer);
 	int result = 0;
-	int n = rbuf_read_to_end(buffer);
+	int n = rbuf_read_remaining(buffer);
 	if (max != -1 && max < n) {
 		n = max;
-		max -= n;
 	}
 
-	char* buf = RBUF_READPTR(buffer);
-
-	//Handle forward
-	while (n--)
+	for (int i = 0; i < n; i++)
 	{
-		result *= 10;
-		int number = (*buf++) - '0';
+		int number = buffer->buffer[(buffer->read_position + i) & (BUFFER_SIZE - 1)] - '0';
 
 		if (number > 9 || number < 0) {
-			DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
+			DEBUG("Expected number got char %c\n", (unsigned char)(number + '0'));
 			return false;
 		}
-		result += number;
-	}
 
-	if (max != 0) {
-		//How many after roll over?
-		n = rbuf_read_remaining(buffer) - n;
-		buf = RBUF_STARTPTR(buffer);
-
-		//Handle rollover
-		while (n--)
-		{
-			result *= 10;
-			int n = (*buf++) - '0';
-
-			if (n > 9 || n < 0) {
-				DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
-				return false;
-			}
-			result += n;
+		//Does not fit
+		if (result > (INT_MAX - number) / 10) {
+			DEBUG("Number too large\n");
+			return false;
 		}
+		result = result * 10 + number;
 	}
 
 	*output = result;
@@ -165,6 +147,12 @@ int rbuf_read_to_end(struct read_buffer* buffer) {
 		return BUFFER_SIZE - to_end;
 	}
 }
+int rbuf_read_contiguous(struct read_buffer* buffer) {
+	int to_end = BUFFER_SIZE - (buffer->read_position & (BUFFER_SIZE - 1));
+	int remaining = rbuf_read_remaining(buffer);
+
+	return remaining < to_end ? remaining : to_end;
+}
 int rbuf_write_remaining(struct read_buffer* buffer) {
 	rbuf_debug_check(buffer);
 	return RBUF_WRITELENPTR(buffer);
diff --git a/src/core/read_buffer.h b/src/core/read_buffer.h
index bf9e09c..4248ebe 100644
--- a/src/core/read_buffer.h
+++ b/src/core/read_buffer.h
@@ -51,6 +51,12 @@ until the end (highest index)
 */
 int rbuf_read_to_end(struct read_buffer* buffer);
 
+/*
+Get the number of bytes that can be read from the current
+position without rolling over, whatever the fill level
+*/
+int rbuf_read_contiguous(struct read_buffer* buffer);
+
 /*
 Get the number of bytes that can be written until maximum
 capacity.
@@ -132,7 +138,7 @@ Move the write offset
 Helper to Iterate over circular buffer
 */
 #define RBUF_ITERATE(rb,n,buffer,end,ret,inner) do { \
-	end = rbuf_read_to_end(&rb); \
+	end = rbuf_read_contiguous(&rb); \
 	n = 0; \
 	if (end != 0) { \
 		buffer = RBUF_READ(rb); \
-- 
2.43.0


From d6b6c4fe9b417c1591ccd586acba586f4b92e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 02/31] fix: requests already received with an earlier one are
 never answered

---
 src/core/http.cpp         | 19 +++++++++++--------
 src/core/http_respond.cpp |  7 +++++--
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index d50115a..ebc8efb 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -58,22 +58,25 @@ state_action http_read_handle(scache_connection* connection) {
 		}
 		if (num < 0) {
 			num = errno;
-			if (num != EAGAIN && num != EWOULDBLOCK) {
+			if (num != EAGAIN && num != EWOULDBLOCK && num != EINTR) {
 				DEBUG("[#%d] A socket error occured while reading: %d\n", fd, num);
 				return close_connection;
 			}
 
-			DEBUG("[#%d] Needs more bytes, got errno %d\n", fd, num);
-			return needs_more_read;
+			//Bytes read earlier (i.e the next pipelined request) can still be processed
+			if (rbuf_read_remaining(&connection->input) == 0) {
+				DEBUG("[#%d] Needs more bytes, got errno %d\n", fd, num);
+				return needs_more_read;
+			}
 		}
-		
-		DEBUG("[#%d] Reading %d bytes from socket (write pos: %d, read pos: %d)\n", fd, num, connection->input.write_position, connection->input.read_position);
-
+		else {
+			DEBUG("[#%d] Reading %d bytes from socket (write pos: %d, read pos: %d)\n", fd, num, connection->input.write_position, connection->input.read_position);
 
-		RBUF_WRITEMOVE(connection->input, (uint16_t)num);
+			RBUF_WRITEMOVE(connection->input, (uint16_t)num);
+		}
 	}
 
-	state_action run;
+	state_action run = needs_more_read;
 	int to_end = -1, to_end_old;
 	do {
 		if(!connection->epollin) break;
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index bd99f9b..34b20c4 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -63,8 +63,11 @@ bool http_register_read(scache_connection* connection) {
 
 	bool res = connection_register_read(connection);
 
-	if (!connection_stop_soon() && rbuf_write_remaining(&connection->input)) {
-		http_read_handle(connection);
+	if (res && !connection_stop_soon()) {
+		//The next request may have been received already
+		if (http_read_handle(connection) == close_connection) {
+			return false;
+		}
 	}
 
 	return res;
-- 
2.43.0


From 4a7047722991d7adc25dafdcf4b9b9520b86fa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 03/31] fix: tables deleted while in use are leaked, used after
 free or take newer tables with them

---
 src/core/db.cpp               | 83 ++++++++++++++++++++++++-----------
 src/core/db.h                 |  4 +-
 src/core/http_parse_cache.cpp | 49 ++++++++++++++-------
 3 files changed, 93 insertions(+), 43 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 3a01b23..9c56680 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -259,24 +259,28 @@ void db_entry_actually_delete(cache_entry* entry) {
 void db_table_actually_delete(db_table* entry) {
 	DEBUG("[#] Cleaning up table due to refcount == 0\n");
 
-	//Remove table from database
+	//Remove table from database (unless its place was taken by a newer table)
 	khiter_t k = kh_get(table, db.tables, entry->hash);
-	if (k != kh_end(db.tables)) {
+	if (k != kh_end(db.tables) && kh_value(db.tables, k) == entry) {
 		kh_del(table, db.tables, k);
 	}
 
+	// Clear key hash table
+	kh_destroy(entry, entry->cache_hash_set);
+
 	//Free key
 	free(entry->key);
 	free(entry);
 }
 
-static void db_table_deref(db_table* entry, bool actually_delete = false) {
+static void db_table_deref(db_table* entry) {
 	DEBUG("[#] Decrementing table refcount - was: %d\n", entry->refs);
 	assert(entry->refs > 0);
 	entry->refs--;
 	 
 	//Actually clean up the entry
-	if (entry->refs == 0 && (actually_delete || entry->deleted)) {
+	//No keys and no connections, whether deleted or never filled
+	if (entry->refs == 0) {
 		//Remove table from hash set
 		db_table_actually_delete(entry);
 	}
@@ -292,7 +296,7 @@ void db_entry_deref(cache_entry* entry, bool table) {
 	entry->refs--;
 
 	//Deref the table
-	if (table && entry->table) {
+	if (table) {
 		db_table_deref(entry->table);
 	}
 
@@ -641,7 +645,7 @@ static bool db_load_from_save(){
 					continue;
 				}
 				if(table != NULL){
-					db_table_deref(table, true);
+					db_table_deref(table);
 					table = NULL;
 				}
 				table = db_table_get_write(strdup(buffer2), strlen(buffer2));
@@ -694,7 +698,7 @@ static bool db_load_from_save(){
 	}
 
 	if(table != NULL){
-		db_table_deref(table, true);
+		db_table_deref(table);
 		table = NULL;
 	}
 
@@ -1019,6 +1023,25 @@ struct db_table* db_table_get_write(char* name, int length) {
 	return table;
 }
 
+/**
+Find the current table of the same name, if the table was deleted since it was looked up.
+
+Takes over the reference to table, returns NULL if there is none (only if not for writing)
+*/
+struct db_table* db_table_reopen(struct db_table* table, bool write) {
+	if (!table->deleted) {
+		return table;
+	}
+
+	int length = table->key_length;
+	char* name = (char*)malloc(length + 1);
+	memcpy(name, table->key, length);
+	name[length] = 0;
+	db_table_close(table);
+
+	return write ? db_table_get_write(name, length) : db_table_get_read(name, length);
+}
+
 void db_entry_handle_softdelete(cache_entry* entry, khiter_t k) {
 	//It is possible when over-writing for this to be called twice.
 	if(entry->deleted) return;
@@ -1071,6 +1094,7 @@ cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length
 		assert(entry->hash == hash);
 		//If we are currently writing, then it will be mocked
 		if (entry->writing == true) {
+			free(key);
 			return NULL;
 		}
 
@@ -1152,10 +1176,6 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 
 	assert(!entry->deleted);
 
-	//Stats
-	db.db_stats_deletes++;
-	db.db_stats_operations++;
-
 	//Refs
 	db_entry_incref(entry, false);
 
@@ -1191,24 +1211,35 @@ static void db_entry_cleanup(cache_entry* entry) {
 	}
 }
 
+bool db_entry_request_delete(cache_entry* entry) {
+	//Already removed (or replaced) by another request, expiry or eviction
+	if (entry->deleted) {
+		return false;
+	}
+
+	//Stats
+	db.db_stats_deletes++;
+	db.db_stats_operations++;
+
+	db_entry_handle_delete(entry);
+	return true;
+}
+
 bool db_entry_handle_delete(cache_entry* entry) {
 	khiter_t k = kh_get(entry, entry->table->cache_hash_set, entry->hash);
 
 	return db_entry_handle_delete(entry, k);
 }
 
-void db_delete_table_entry(db_table* table, khiter_t k, bool actually_delete = true) {
-	// Clear key hash table
-	kh_destroy(entry, table->cache_hash_set);
+void db_delete_table_entry(db_table* table, khiter_t k, bool had_keys = true) {
+	// Remove now, even if not fully de-refed
+	assert(k != kh_end(db.tables));
+	kh_del(table, db.tables, k);
 
-	// If not fully de-refed remove now, not later
-	if (table->refs != 0) {
-		assert(k != kh_end(db.tables));
-		kh_del(table, db.tables, k);
+	//Remove reference holding table open (taken with the first key)
+	if (had_keys) {
+		db_table_deref(table);
 	}
-
-	//Remove reference holding table open
-	db_table_deref(table, actually_delete);
 }
 
 
@@ -1216,19 +1247,22 @@ void db_table_handle_delete(db_table* table, khiter_t k) {
 	//Set deleted
 	assert(!table->deleted);
 	table->deleted = true;
+	bool had_keys = kh_size(table->cache_hash_set) != 0;
 
 	//Delete keys from table
 	for (khiter_t ke = kh_begin(table->cache_hash_set); ke != kh_end(table->cache_hash_set); ++ke) {
 		if (kh_exist(table->cache_hash_set, ke)) {
 			cache_entry* ce = kh_val(table->cache_hash_set, ke);
 			if (!ce->deleted) {
+				//May free the entry, removes its file
 				db_entry_handle_softdelete(ce, ke);
-				db_entry_cleanup(ce);
+				assert(db.db_keys != 0);
+				db.db_keys--;
 			}
 		}
 	}
 	
-	db_delete_table_entry(table, k);
+	db_delete_table_entry(table, k, had_keys);
 }
 
 
@@ -1269,8 +1303,7 @@ bool db_entry_handle_delete(cache_entry* entry, khiter_t k) {
 		entry->table->deleted = true;
 		k = kh_get(table, db.tables, entry->table->hash);
 		assert (k != kh_end(db.tables));
-		db_delete_table_entry(entry->table, k, true);
-		entry->table = NULL;
+		db_delete_table_entry(entry->table, k);
 		return true;
 	}
 	return false;
diff --git a/src/core/db.h b/src/core/db.h
index c0e12e4..9ef7f5d 100644
--- a/src/core/db.h
+++ b/src/core/db.h
@@ -60,6 +60,7 @@ void db_close();
 /* Lookup Table in Database */
 struct db_table* db_table_get_read(char* name, int length);
 struct db_table* db_table_get_write(char* name, int length);
+struct db_table* db_table_reopen(struct db_table* table, bool write);
 
 /* Lookup Cache Entry in Table */
 struct cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length);
@@ -70,7 +71,8 @@ struct cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_
 void db_target_write_allocate(struct cache_target* target, uint32_t data_length);
 void db_complete_writing(cache_entry* entry);
 
-/* Delete an entry (request) */
+/* Delete an entry (request), false if it is already gone */
+bool db_entry_request_delete(struct cache_entry* entry);
 bool db_entry_handle_delete(struct cache_entry* entry, khiter_t k);
 bool db_entry_handle_delete(struct cache_entry* entry);
 
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 1567887..2f9bd5b 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -58,7 +58,7 @@ static state_action http_headers_response_after_eol(scache_connection* connectio
 	return needs_more_read;
 }
 
-static bool http_key_lookup(scache_connection* connection, int n) {
+static state_action http_key_lookup(scache_connection* connection, int n) {
 	//Key request
 	//Copy the key from the buffer
 	char* key = (char*)malloc(sizeof(char)* (n + 1));
@@ -67,11 +67,19 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 
 	DEBUG("[#%d] Request key: \"%s\" (%d)\n", connection->client_sock, key, n);
 
-	struct cache_entry* entry;
+	struct cache_entry* entry = NULL;
+	//The table may have been deleted since it was looked up
+	connection->cache.target.table.table = db_table_reopen(connection->cache.target.table.table, REQUEST_IS(connection->method, REQUEST_HTTPPUT));
+
 	//TODO: memcpy always?
 	if (REQUEST_IS(connection->method, REQUEST_HTTPGET) || REQUEST_IS(connection->method, REQUEST_HTTPHEAD)) {
 		//db_entry_get_read will free key if necessary
-		entry = db_entry_get_read(connection->cache.target.table.table, key, n);
+		if (connection->cache.target.table.table) {
+			entry = db_entry_get_read(connection->cache.target.table.table, key, n);
+		}
+		else{
+			free(key);
+		}
 	}
 	else if (REQUEST_IS(connection->method, REQUEST_HTTPPUT)) {
 		//It is the responsibility of db_entry_get_write to free key if necessary
@@ -81,8 +89,13 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 		}
 	}
 	else if (REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
-		//It is the responsibility of db_entry_get_write to free key if necessary
-		entry = db_entry_get_delete(connection->cache.target.table.table, key, n);
+		//It is the responsibility of db_entry_get_delete to free key if necessary
+		if (connection->cache.target.table.table) {
+			entry = db_entry_get_delete(connection->cache.target.table.table, key, n);
+		}
+		else{
+			free(key);
+		}
 
 		connection->output_buffer = http_templates[HTTPTEMPLATE_FULLHTTP200DELETED];
 		connection->output_length = http_templates_length[HTTPTEMPLATE_FULLHTTP200DELETED];
@@ -90,6 +103,7 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 	else
 	{
 		DEBUG("[#%d] Has request key but is not GET, HEAD, PUT or DELETE (binary: %x)\n", connection->client_sock, connection->method);
+		free(key);
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 	}
 
@@ -110,12 +124,15 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 		db_target_setup(&connection->cache.target.key, entry, REQUEST_IS(connection->method, REQUEST_HTTPPUT));
 	}
 	else{
-		db_table_close(connection->cache.target.table.table);
+		if (connection->cache.target.table.table) {
+			db_table_close(connection->cache.target.table.table);
+		}
 		connection->cache.target.key.entry = NULL;
 		connection->cache.target.key.fd = -1;
 	}
 
-	return true;
+	connection->state = 0;
+	return needs_more_read;
 }
 
 static inline state_action http_read_requeststartmethod(scache_connection* connection, char* buffer, int n) {
@@ -289,11 +306,10 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 static state_action http_read_requeststarturl2(scache_connection* connection, char* buffer, int n)
 {
 	if (*buffer == ' ') {
-		bool temporary = http_key_lookup(connection, n);
+		state_action ret = http_key_lookup(connection, n);
 		RBUF_READMOVE(connection->input, n + 1);
-		connection->state = 0;
 
-		return temporary ? needs_more_read : registered_write;
+		return ret;
 	}
 
 	return continue_processing;
@@ -373,7 +389,9 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 						return res ? registered_write : close_connection;
 					}
 					if (REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
-						db_entry_handle_delete(connection->cache.target.key.entry);
+						if (!db_entry_request_delete(connection->cache.target.key.entry)) {
+							return http_write_response(connection, HTTPTEMPLATE_FULL404);
+						}
 
 						return http_write_response(connection, HTTPTEMPLATE_FULLHTTP200DELETED);
 					}
@@ -388,7 +406,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			if (REQUEST_IS(connection->method, REQUEST_HTTPGET)) {
 				assert(connection->input.read_position == connection->input.write_position);
 
-				if (!connection->cache.target.table.table) {
+				if (!connection->cache.target.table.table || connection->cache.target.table.table->deleted) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
 				connection->output_buffer = http_templates[HTTPTEMPLATE_HEADERS200_CONCLOSE];
@@ -399,7 +417,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 				
 			}
 			if (REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
-				if (!connection->cache.target.table.table) {
+				if (!connection->cache.target.table.table || connection->cache.target.table.table->deleted) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
 				db_table_handle_delete(connection->cache.target.table.table);
@@ -543,10 +561,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 				rbuf_copyn(&connection->input, key, length);
 				cache_entry* entry = db_entry_get_delete(connection->cache.target.table.table, key, length);
 				if (entry != NULL) {
-					if (db_entry_handle_delete(entry))
-					{
-						connection->cache.target.table.table = NULL;
-					}
+					db_entry_request_delete(entry);
 					db_entry_deref(entry, false);
 				}
 			}
-- 
2.43.0


From 1defea0e1539ddc4c1b1898e8fb258d47ac56e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 04/31] fix: an upload deleted before its length arrives leaks
 its file and stays counted

---
 src/core/db.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 9c56680..acb9eae 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1344,16 +1344,14 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 		//Else: We are going to use a block, and the entry is currently a block
 	}
 
-	//Update database counters
+	//Update database counters (an entry deleted in the meantime is no longer counted)
+	if (!entry->deleted) {
+		db.db_size_bytes += (uint64_t)data_length - entry->data_length;
+	}
 	if (entry->block == -2)
 	{
-		db.db_size_bytes += data_length;
 		entry->block = -1; // must be file
 	}
-	else
-	{
-		db.db_size_bytes += data_length - entry->data_length;
-	}
 	
 	entry->data_length = data_length;
 
@@ -1364,6 +1362,11 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 		if (ftruncate(target->fd, data_length)<0) {
 			PWARN("File truncation failed (fd: %d, length: %d)", target->fd, data_length);
 		}
+
+		//Deleted in the meantime, nothing else will remove the file
+		if (entry->deleted && target->fd >= 0) {
+			db_entry_delete(entry);
+		}
 	}
 }
 
-- 
2.43.0


From 539eca3369789b86aaac94cc0465cfc5da861ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 05/31] fix: header values split between packets or at the end
 of the ring buffer are misread

---
 src/core/http_parse_cache.cpp | 59 ++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 2f9bd5b..01954ba 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -318,6 +318,7 @@ static state_action http_read_requeststarturl2(scache_connection* connection, ch
 static state_action http_read_headers(scache_connection* connection, char* buffer, int n, uint32_t& temporary) {
 	if (*buffer == ':') {
 		int bytes = n;
+		temporary = 0;
 		DEBUG("[#%d] Found header of length %d\n", connection->client_sock, bytes);
 
 		if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
@@ -443,20 +444,25 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 }
 
 static state_action http_read_header_extraction(scache_connection* connection, char* buffer, int n) {
-	int temporary = 0;
-	if (*buffer == ' ' && !temporary) {
-		RBUF_READMOVE(connection->input, 1);
-	}
-	else if (*buffer == '\n' || *buffer == '\r') {
-		//We are going to have to skip another char if \r\n
-		if (*buffer == '\r') {
-			temporary = 2;
-		}
-		else{
-			temporary = 1;
+	//Only once all of the line has been received
+	if (*buffer == '\n') {
+		//The value is what is left without surrounding spaces
+		int length = n;
+		while (length > 0 && *RBUF_READ(connection->input) == ' ') {
+			RBUF_READMOVE(connection->input, 1);
+			length--;
 		}
 
-		int length = buffer - RBUF_READ(connection->input);
+		//Bytes to skip after the value, i.e \r\n
+		int temporary = 1;
+		while (length > 0) {
+			char last = connection->input.buffer[(connection->input.read_position + length - 1) & (BUFFER_SIZE - 1)];
+			if (last != ' ' && (last != '\r' || temporary != 1)) {
+				break;
+			}
+			length--;
+			temporary++;
+		}
 
 		switch (connection->state) {
 		case HEADER_CONTENTLENGTH:
@@ -494,22 +500,20 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 
 		case HEADER_XTTL:
 			if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
-				if (connection->cache.target.key.entry != NULL) {
-					int ttl;
-					if (!rbuf_strntol(&connection->input, &ttl, length)) {
-						WARN("Invalid X-Ttl value provided");
+				int ttl;
+				if (!rbuf_strntol(&connection->input, &ttl, length)) {
+					WARN("Invalid X-Ttl value provided");
 
-						//This is an INVALID request
-						RBUF_READMOVE(connection->input, length + temporary);
-						return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
-					}
+					//This is an INVALID request
+					RBUF_READMOVE(connection->input, length + temporary);
+					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
+				}
 
-					//Else: We are writing, initalize fd now
-					DEBUG("[#%d] X-Ttl of %d found\n", connection->client_sock, ttl);
+				//Else: We are writing, initalize fd now
+				DEBUG("[#%d] X-Ttl of %d found\n", connection->client_sock, ttl);
 
-					if (ttl != 0) {
-						connection->cache.target.key.entry->expires = ttl + current_time.tv_sec;
-					}
+				if (connection->cache.target.key.entry != NULL && ttl != 0) {
+					connection->cache.target.key.entry->expires = ttl + current_time.tv_sec;
 				}
 			}
 
@@ -663,6 +667,11 @@ state_action http_cache_handle_headers_extract(scache_connection* connection) {
 	state_action ret = continue_processing;
 	DEBUG("[#%d] Handling HTTP Header extraction\n", connection->client_sock);
 	RBUF_ITERATE(connection->input, n, buffer, end, ret, http_read_header_extraction(connection, buffer, n));
+
+	//make sure we dont 100% fill up
+	if (connection->handler == http_cache_handle_headers_extract && rbuf_write_remaining(&connection->input) == 0) {
+		return http_write_response(connection, HTTPTEMPLATE_FULLREQUESTTOOLARGE);
+	}
 	return ret;
 }
 
-- 
2.43.0


From f470c8904f161bb766e873cac87b052a19db91b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 06/31] fix: uploads with a missing or repeated Content-Length
 are mishandled

---
 src/core/http_parse_cache.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 01954ba..2f6741f 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -131,6 +131,11 @@ static state_action http_key_lookup(scache_connection* connection, int n) {
 		connection->cache.target.key.fd = -1;
 	}
 
+	//No length is known yet for writes
+	if (REQUEST_IS(connection->method, REQUEST_HTTPPUT)) {
+		connection->cache.target.key.position = connection->cache.target.key.end_position = 0;
+	}
+
 	connection->state = 0;
 	return needs_more_read;
 }
@@ -371,7 +376,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			// Router: Entry / Key level
 			if (REQUEST_IS(connection->method, REQUEST_CACHE_LEVELKEY)) {
 				if (REQUEST_IS(connection->method, REQUEST_HTTPPUT)) {
-					if (connection->cache.target.key.entry != NULL && connection->cache.target.key.entry->data_length == 0) {
+					if (connection->cache.target.key.end_position == connection->cache.target.key.position) {
 						DEBUG("[#%d] No valid content-length provided for PUT request\n", connection->client_sock);
 						return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDCONTENTLENGTH);
 					}
@@ -476,6 +481,20 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 				}
 
+				//Only one length can be given, space is already allocated
+				if (connection->cache.target.key.end_position != connection->cache.target.key.position) {
+					WARN("Repeated Content-Length provided");
+
+					//This is an INVALID request
+					RBUF_READMOVE(connection->input, length + temporary);
+					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDCONTENTLENGTH);
+				}
+
+				//No content is the same as no length (rejected once all headers are read)
+				if (content_length == 0) {
+					break;
+				}
+
 				//Else: We are writing, initalize fd now
 				DEBUG("[#%d] Content-Length of %d found\n", connection->client_sock, content_length);
 
-- 
2.43.0


From 2e6085bae4df866b5073110989282868987f4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 07/31] fix: 404 and 400 responses to HEAD carry a body

---
 src/core/http.cpp             | 15 +++++++++++++++
 src/core/http.h               |  1 +
 src/core/http_parse_cache.cpp |  9 +++------
 src/core/http_parse_mon.cpp   | 12 ++++--------
 4 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index ebc8efb..bccb92b 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -164,6 +164,21 @@ void http_templates_init() {
 	}
 }
 
+/*
+Set a static response as output, there is no body in the response to HEAD requests
+*/
+void http_output_template(scache_connection* connection, int http_template) {
+	connection->output_buffer = http_templates[http_template];
+	connection->output_length = http_templates_length[http_template];
+
+	if (REQUEST_IS(connection->method, REQUEST_HTTPHEAD)) {
+		const char* end = strstr(connection->output_buffer, "\r\n\r\n");
+		if (end != NULL) {
+			connection->output_length = end + 4 - connection->output_buffer;
+		}
+	}
+}
+
 /* Where new connections land */
 void http_connection_handler(scache_connection* connection) {
 	if(connection->ltype == cache_connection){
diff --git a/src/core/http.h b/src/core/http.h
index 882720c..1ec845c 100644
--- a/src/core/http.h
+++ b/src/core/http.h
@@ -105,6 +105,7 @@ int extern http_templates_length[NUMBER_OF_HTTPTEMPLATE];
 state_action http_read_handle(scache_connection* connection);
 state_action http_write_handle(scache_connection* connection);
 void http_templates_init();
+void http_output_template(scache_connection* connection, int http_template);
 void http_connection_handler(scache_connection* connection);
 void http_cleanup(scache_connection* connection);
 
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 2f6741f..997c079 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -35,16 +35,14 @@ static state_action http_stats_after_eol(scache_connection* connection) {
 
 static state_action http_write_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
-	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	http_output_template(connection, http_template);
 	connection->state = 1;
 	return needs_more_read;
 }
 
 static state_action http_write_response(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection,  http_respond_writeonly);
-	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	http_output_template(connection, http_template);
 	connection->state = 0;
 	bool res = connection_register_write(connection);
 	return res?registered_write:close_connection;
@@ -52,8 +50,7 @@ static state_action http_write_response(scache_connection* connection, int http_
 
 static state_action http_headers_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection,  http_handle_eolwritetoend);
-	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	http_output_template(connection, http_template);
 	connection->state = 2;
 	return needs_more_read;
 }
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 759300f..cd6f443 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -61,16 +61,14 @@ static void enable_keepalive(int sock) {
 
 static state_action http_write_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
-	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	http_output_template(connection, http_template);
 	connection->state = 0;
 	return needs_more_read;
 }
 
 static state_action http_write_response(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection,  http_respond_writeonly);
-	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	http_output_template(connection, http_template);
 	connection->state = 0;
 	bool res = connection_register_write(connection);
 	return res?registered_write:close_connection;
@@ -79,8 +77,7 @@ static state_action http_write_response(scache_connection* connection, int http_
 
 static state_action http_headers_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection,  http_handle_eolwritetoend);
-	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	http_output_template(connection, http_template);
 	connection->state = 2;
 	return needs_more_read;
 }
@@ -159,8 +156,7 @@ state_action http_handle_mon_eolwrite_initial(scache_connection* connection) {
 static state_action http_headers_response_count(scache_connection* connection, int http_template) {
 	connection->state = 2;
 	CONNECTION_HANDLER(connection,  http_handle_mon_eolwrite_initial);
-	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	http_output_template(connection, http_template);
 	return needs_more_read;
 }
 
-- 
2.43.0


From 44b46d9bbbe28baa0a2b4b6898d6db6fea4d7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 08/31] fix: the end of a request is missed when its response
 is not about a key

---
 src/core/http_parse_cache.cpp | 25 ++++++++++++++++---------
 src/core/http_parse_mon.cpp   | 12 +++++++-----
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 997c079..27eb7e5 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -28,7 +28,7 @@
 extern int epfd;
 
 static state_action http_stats_after_eol(scache_connection* connection) {
-	connection->state = 0;
+	connection->state = 2;
 	CONNECTION_HANDLER(connection,  http_cache_handle_eolstats);
 	return needs_more_read;
 }
@@ -36,7 +36,7 @@ static state_action http_stats_after_eol(scache_connection* connection) {
 static state_action http_write_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
 	http_output_template(connection, http_template);
-	connection->state = 1;
+	connection->state = 2; // i.e the end of the headers
 	return needs_more_read;
 }
 
@@ -212,8 +212,10 @@ static inline state_action http_read_requeststartmethod(scache_connection* conne
 }
 
 static inline state_action http_read_requeststarturl1(scache_connection* connection, char* buffer, int n) {
-	//Assert: first char is a / (start of URL)
-	assert(n != 0 || *buffer == '/');
+	//First char is a / (start of URL), and the URL is a single line
+	if ((n == 0 && *buffer != '/') || *buffer == '\n') {
+		return http_write_response(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
+	}
 
 	// search either for / (goto http_read_requeststarturl2) or " " goto next step
 	if (n != 0) {
@@ -266,7 +268,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 					//Stats Command
 					DEBUG("[#%d] Request stats\n", connection->client_sock);
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					return http_stats_after_eol(connection);
 				}
 
@@ -276,10 +278,10 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				connection->cache.target.table.table = db_table_get_read(key, n - 1);
 				connection->cache.target.table.start = 0;
 				connection->cache.target.table.limit = DEFAULT_LISTING_LIMIT;
-				RBUF_READMOVE(connection->input, n + 1);
+				RBUF_READMOVE(connection->input, n);
 
 				//Else request for table/key
-				CONNECTION_HANDLER(connection, http_cache_handle_headers);
+				CONNECTION_HANDLER(connection, http_cache_handle_httpversion);
 				connection->state = 0;
 				return needs_more_read;
 			} 
@@ -288,7 +290,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				DEBUG("[#%d] Request admin url: \"%s\" (%d)\n", connection->client_sock, key, n);
 				if(n == 3 && strncmp(key, "gc", n	) == 0){
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					
 					//GC
 					db_lru_gc();
@@ -297,7 +299,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 			}
 			
 			free(key);
-			RBUF_READMOVE(connection->input, n + 1);
+			RBUF_READMOVE(connection->input, n);
 			return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 		}
 	}
@@ -307,6 +309,11 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 
 static state_action http_read_requeststarturl2(scache_connection* connection, char* buffer, int n)
 {
+	//The URL is a single line
+	if (*buffer == '\n') {
+		return http_write_response(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
+	}
+
 	if (*buffer == ' ') {
 		state_action ret = http_key_lookup(connection, n);
 		RBUF_READMOVE(connection->input, n + 1);
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index cd6f443..40e95dd 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -62,7 +62,7 @@ static void enable_keepalive(int sock) {
 static state_action http_write_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
 	http_output_template(connection, http_template);
-	connection->state = 0;
+	connection->state = 2; // i.e the end of the headers
 	return needs_more_read;
 }
 
@@ -203,8 +203,10 @@ static inline state_action http_read_requeststartmethod_mon(scache_connection* c
 }
 
 static inline state_action http_mon_read_requeststarturl(scache_connection* connection, char* buffer, int n) {
-	//Assert: first char is a / (start of URL)
-	assert(n != 0 || *buffer == '/');
+	//First char is a / (start of URL), and the URL is a single line
+	if ((n == 0 && *buffer != '/') || *buffer == '\n') {
+		return http_write_response(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
+	}
 
 	// search either for / (goto http_read_requeststarturl2) or " " goto next step
 	if (n != 0) {
@@ -217,7 +219,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 		char* key = (char*)malloc(sizeof(char) * (n + 1));
 		rbuf_copyn(&connection->input, key, n - 1);
 		key[n - 1] = 0;//Null terminate the key
-		RBUF_READMOVE(connection->input, n + 1);
+		RBUF_READMOVE(connection->input, n);
 
 		if(n == 1){ // URL: "/"
 			free(key);
@@ -230,7 +232,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 			free(key);
 			connection->state = 2;	
 			CONNECTION_HANDLER(connection,  http_handle_mon_eolwrite_initial);
-			return http_handle_mon_eolwrite_initial(connection);
+			return needs_more_read;
 		}
 
 		DEBUG("[#%d] HTTP 404 Not Found for URL \"%s\" of length %d\n", connection->client_sock, key, n);
-- 
2.43.0


From 748ef90fb2a53c00a791d9576bd633ff994bc6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 09/31] fix: connections are kept open, and answer what was
 left of the request, after Connection: Close

---
 src/core/connection_structures.h |  3 ++-
 src/core/http.cpp                |  1 +
 src/core/http_parse.cpp          |  6 +++---
 src/core/http_respond.cpp        | 17 +++++++++++++++++
 src/core/http_respond.h          |  1 +
 5 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/core/connection_structures.h b/src/core/connection_structures.h
index 9cf38c6..20be259 100644
--- a/src/core/connection_structures.h
+++ b/src/core/connection_structures.h
@@ -49,7 +49,8 @@ struct scache_connection {
 	bool is_writing, // cache = cache for write, mon = is writing count values
 	     epollin,
 		 epollout,
-		 epollrdhup;
+		 epollrdhup,
+		 close_after_write;
 
 	connection_ctype ltype;
 
diff --git a/src/core/http.cpp b/src/core/http.cpp
index bccb92b..30d386d 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -170,6 +170,7 @@ Set a static response as output, there is no body in the response to HEAD reques
 void http_output_template(scache_connection* connection, int http_template) {
 	connection->output_buffer = http_templates[http_template];
 	connection->output_length = http_templates_length[http_template];
+	connection->close_after_write = strstr(connection->output_buffer, "Connection: Close") != NULL;
 
 	if (REQUEST_IS(connection->method, REQUEST_HTTPHEAD)) {
 		const char* end = strstr(connection->output_buffer, "\r\n\r\n");
diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index 1518b02..0d4645a 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -90,8 +90,8 @@ state_action http_handle_eolwritetoend(scache_connection* connection) {
 }
 
 state_action http_discard_input(scache_connection* connection) {
-	//todo discard from readbuffer
 	connection_register_read(connection);
-	rbuf_read_to_end(&connection->input);
+	int n = rbuf_read_remaining(&connection->input);
+	RBUF_READMOVE(connection->input, n);
 	return continue_processing;
-}
\ No newline at end of file
+}
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index 34b20c4..6f41eb4 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -166,9 +166,26 @@ state_action http_respond_contentbody(scache_connection* connection) {
 	return continue_processing;
 }
 
+//The response told the client that the connection ends here
+state_action http_respond_close(scache_connection* connection) {
+	assert(connection->epollout && !connection->epollin);
+	http_cleanup(connection);
+
+	//Anything the client has still sent is read (and discarded) as otherwise
+	//the response could be lost with the connection
+	shutdown(connection->client_sock, SHUT_WR);
+	CONNECTION_HANDLER(connection,  http_discard_input);
+	bool res = http_register_read(connection);
+	return res ? continue_processing : close_connection;
+}
+
 state_action http_respond_writeonly(scache_connection* connection) {
 	assert(connection->epollout && !connection->epollin);
 	DEBUG("[#%d] Sending static response then closing\n", connection->client_sock);
+	if (connection->close_after_write) {
+		return http_respond_close(connection);
+	}
+
 	//Static response, after witing, read next request
 	http_cleanup(connection);
 	assert(connection->ltype == cache_connection || connection->ltype == mon_connection);
diff --git a/src/core/http_respond.h b/src/core/http_respond.h
index 2896247..50f182e 100644
--- a/src/core/http_respond.h
+++ b/src/core/http_respond.h
@@ -6,6 +6,7 @@ state_action http_respond_contentlength(scache_connection* connection);
 state_action http_respond_responseend(scache_connection* connection);
 state_action http_respond_contentbody(scache_connection* connection);
 state_action http_respond_writeonly(scache_connection* connection);
+state_action http_respond_close(scache_connection* connection);
 state_action http_respond_cleanupafterwrite(scache_connection* connection) ;
 state_action http_respond_listing(scache_connection* connection);
 state_action http_respond_listingentries(scache_connection* connection);
-- 
2.43.0


From ec0b148847e1f8ee64c13d742dad958f4d7de717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 10/31] fix: table listings miss keys, repeat them over ranges
 and read the table while it changes

---
 src/core/http_parse_cache.cpp |   2 -
 src/core/http_respond.cpp     | 109 ++++++++++------------------------
 src/core/http_respond.h       |   1 -
 3 files changed, 33 insertions(+), 79 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 27eb7e5..233a46e 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -414,8 +414,6 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			
 			//Router: Table level
 			if (REQUEST_IS(connection->method, REQUEST_HTTPGET)) {
-				assert(connection->input.read_position == connection->input.write_position);
-
 				if (!connection->cache.target.table.table || connection->cache.target.table.table->deleted) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index 6f41eb4..a9c8069 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -211,91 +211,48 @@ state_action http_respond_cleanupafterwrite(scache_connection* connection) {
 	return continue_processing;
 }
 
-state_action http_respond_listing_separator(scache_connection* connection) {
+//The headers and keys of the listing, all at once as the table may change while it is being sent
+state_action http_respond_listingentries(scache_connection* connection) {
 	assert(connection->epollout && !connection->epollin);
-	connection->output_buffer = "\r\n";
-	connection->output_length = 2;
-	CONNECTION_HANDLER(connection,  http_respond_listing);
-
-	return continue_processing;
-}
-
-state_action http_respond_close_connection(scache_connection* connection) {
-	return close_connection;
-}
-
-state_action http_respond_listing(scache_connection* connection) {
 	DEBUG("[#%d] Sending listing response\n", connection->client_sock);
+	khash_t(entry)* keys = connection->cache.target.table.table->cache_hash_set;
+	char header[64];
 
-	if (connection->cache.target.table.start > kh_end(connection->cache.target.table.table->cache_hash_set)) {
-		connection->cache.target.table.start = kh_end(connection->cache.target.table.table->cache_hash_set);
-		connection->cache.target.table.limit = 0;
-	}else if ((connection->cache.target.table.limit + connection->cache.target.table.start) > kh_end(connection->cache.target.table.table->cache_hash_set)) {
-		connection->cache.target.table.limit = kh_end(connection->cache.target.table.table->cache_hash_set) - (connection->cache.target.table.start + 1);
-	}
-
-	if (connection->cache.target.table.limit > 0) {
-		cache_entry* entry = NULL;
-		int i = connection->cache.target.table.limit + connection->cache.target.table.start;
-		while (!kh_exist(connection->cache.target.table.table->cache_hash_set, i)) {
-			if (connection->cache.target.table.limit == 0) {
-				return close_connection;
-			}
-			connection->cache.target.table.limit--;
-			i--;
-		}
-		entry = kh_val(connection->cache.target.table.table->cache_hash_set, i);
-
-		bool cleanup = false;
-		if (connection->cache.target.table.limit) {
-			connection->cache.target.table.limit--;
-		}
-		else{
-			cleanup = true;
-		}
-
-		if (entry != NULL) {
-			//Returns the number of chars put into the buffer
-			connection->output_buffer = entry->key;
-			connection->output_length = entry->key_length;
-			CONNECTION_HANDLER(connection,  http_respond_listing_separator);
+	//Returns the number of chars put into the buffer
+	int length = snprintf(header, sizeof(header), "X-Entries: %u\r\nX-Total: %u\r\n\r\n", kh_size(keys), kh_n_buckets(keys));
 
-			if (cleanup) {
-				CONNECTION_HANDLER(connection,  http_respond_close_connection);
-			}
+	//Positions are counted from the last bucket
+	uint64_t start = connection->cache.target.table.start;
+	uint64_t end = start + connection->cache.target.table.limit;
+	if (end > kh_n_buckets(keys)) {
+		end = kh_n_buckets(keys);
+	}
 
-			return continue_processing;
+	size_t total = length;
+	for (uint64_t i = start; i < end; i++) {
+		khiter_t k = kh_n_buckets(keys) - 1 - i;
+		if (kh_exist(keys, k)) {
+			total += kh_val(keys, k)->key_length + 2;
 		}
 	}
 
-	return close_connection;
-}
-
-state_action http_respond_listingtotal(scache_connection* connection) {
-	char header[32];
-
-	if (REQUEST_IS(connection->method, REQUEST_GETTABLE)) {
-		DEBUG("[#%d] Responding with X-Total\n", connection->client_sock);
-		//Returns the number of chars put into the buffer
-		int temp = snprintf(header, sizeof(header), "X-Total: %d\r\n", kh_n_buckets(connection->cache.target.table.table->cache_hash_set));
-
-		copy_to_outputbuffer(connection, header, temp);
+	char* output = (char*)malloc(total);
+	connection->output_buffer = connection->output_buffer_free = output;
+	connection->output_length = total;
+
+	memcpy(output, header, length);
+	output += length;
+	for (uint64_t i = start; i < end; i++) {
+		khiter_t k = kh_n_buckets(keys) - 1 - i;
+		if (kh_exist(keys, k)) {
+			cache_entry* entry = kh_val(keys, k);
+			memcpy(output, entry->key, entry->key_length);
+			output += entry->key_length;
+			memcpy(output, "\r\n", 2);
+			output += 2;
+		}
 	}
 
-	CONNECTION_HANDLER(connection,  http_respond_listing_separator);
+	CONNECTION_HANDLER(connection,  http_respond_close);
 	return continue_processing;
 }
-
-state_action http_respond_listingentries(scache_connection* connection) {
-	char header[32];
-
-	if (REQUEST_IS(connection->method, REQUEST_GETTABLE)) {
-		DEBUG("[#%d] Responding with X-Entries\n", connection->client_sock);
-		//Returns the number of chars put into the buffer
-		int temp = snprintf(header, sizeof(header), "X-Entries: %d\r\n", kh_size(connection->cache.target.table.table->cache_hash_set));
-
-		copy_to_outputbuffer(connection, header, temp);
-	}
-	CONNECTION_HANDLER(connection,  http_respond_listingtotal);
-	return continue_processing;
-}
\ No newline at end of file
diff --git a/src/core/http_respond.h b/src/core/http_respond.h
index 50f182e..546636c 100644
--- a/src/core/http_respond.h
+++ b/src/core/http_respond.h
@@ -8,6 +8,5 @@ state_action http_respond_contentbody(scache_connection* connection);
 state_action http_respond_writeonly(scache_connection* connection);
 state_action http_respond_close(scache_connection* connection);
 state_action http_respond_cleanupafterwrite(scache_connection* connection) ;
-state_action http_respond_listing(scache_connection* connection);
 state_action http_respond_listingentries(scache_connection* connection);
 state_action http_respond_stats(scache_connection* connection);
\ No newline at end of file
-- 
2.43.0


From 588453991871898761412cd4805fe581b18922ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 11/31] fix: responses the socket accepts only in parts are
 corrupted or cut short, their buffers leak

---
 src/core/http.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 30d386d..e721884 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -113,9 +113,13 @@ state_action http_write_handle(scache_connection* connection) {
 		//Send data
 		int num = write(connection->client_sock, connection->output_buffer, connection->output_length);
 		if (num < 0) {
-			//TODO: handle error
+			//Try again once there is room
+			if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) {
+				return continue_processing;
+			}
 			return close_connection;
 		}
+		connection->output_buffer += num;
 		connection->output_length -= num;
 
 		//Check if done
@@ -147,6 +151,14 @@ Cleanup & Reset state for a HTTP connection
 void http_cleanup(scache_connection* connection) {
 	assert(connection != NULL);
 	DEBUG("[#%d] Cleaning up connection of type %s\n", connection->client_sock, connection_type_string(connection->ltype));
+
+	//Output that was never (completely) sent
+	if (connection->output_buffer_free) {
+		free(connection->output_buffer_free);
+		connection->output_buffer_free = NULL;
+		connection->output_buffer = NULL;
+	}
+
 	if(connection->ltype == cache_connection){
 		cache_destroy(connection);
 	} else if(connection->ltype == mon_connection){
-- 
2.43.0


From 5ba5c588d08cf185614c7a9201348ed7140e78e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 12/31] fix: uploads are corrupted when the disk accepts a part
 of a write or none of it

---
 src/core/db.cpp               |  5 +++
 src/core/http_parse_cache.cpp | 57 ++++++++++++++++++++---------------
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index acb9eae..a05bb04 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -31,6 +31,7 @@ LRU
 #include <sys/wait.h>
 #include <unistd.h>
 #include <assert.h>
+#include <errno.h>
 #include "db.h"
 #include "debug.h"
 #include "hash.h"
@@ -803,6 +804,10 @@ int db_entry_open_create(struct cache_entry* e) {
 		if(fd >= 0) {
 			return fd;
 		}
+		//Another number does not help
+		if(errno != EEXIST) {
+			break;
+		}
 		// This will rollover -- and that's expected
 		// it ensures safety after saving
 		e->it++;
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 233a46e..2276438 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -713,40 +713,47 @@ state_action http_cache_handle_headers(scache_connection* connection) {
 
 state_action http_cache_handle_request_body(scache_connection* connection) {
 	DEBUG("[#%d] Handling STATE_REQUESTBODY\n", connection->client_sock);
-	int max_write = rbuf_read_contiguous(&connection->input);
-	assert(max_write >= 0);
-	int to_write = connection->cache.target.key.end_position - connection->cache.target.key.position;
-	assert(to_write >= 0);
-
-	//Limit to the ammount read from socket
-	DEBUG("[#%d] Wanting to write %d bytes (max: %d) to fd %d\n", connection->client_sock, to_write, max_write, connection->cache.target.key.fd);
-	if (to_write > max_write) {
-		to_write = max_write;
-	}
 
-	if (to_write != 0) {
+	//What was received may roll over the end of the buffer, and be written in pieces
+	while (connection->cache.target.key.position != connection->cache.target.key.end_position) {
+		off64_t to_write = connection->cache.target.key.end_position - connection->cache.target.key.position;
+		int max_write = rbuf_read_contiguous(&connection->input);
+		assert(max_write >= 0);
+		assert(to_write >= 0);
+
+		//Limit to the ammount read from socket
+		DEBUG("[#%d] Wanting to write %d bytes (max: %d) to fd %d\n", connection->client_sock, (int)to_write, max_write, connection->cache.target.key.fd);
+		if (to_write > max_write) {
+			to_write = max_write;
+		}
+
+		if (to_write == 0) {
+			return continue_processing;
+		}
+
 		if (connection->is_writing) {
 			// Write data
 			if(lseek64(connection->cache.target.key.fd, connection->cache.target.key.position, SEEK_SET) == -1) {
 				PWARN("[#%d] Failed to seek for PUT", connection->client_sock);
-				return http_write_response(connection, HTTPTEMPLATE_FULL404);				
+				return close_connection;
 			}
-			int read_bytes = write(connection->cache.target.key.fd, RBUF_READ(connection->input), to_write);
+			ssize_t written = write(connection->cache.target.key.fd, RBUF_READ(connection->input), to_write);
+			if (written <= 0) {
+				if (written == -1 && errno == EINTR) {
+					continue;
+				}
 
-			//Handle the bytes written
-			DEBUG("[#%d] %d bytes to fd %d at position %u\n", connection->client_sock, read_bytes, connection->cache.target.key.fd, connection->cache.target.key.position);
-			RBUF_READMOVE(connection->input, read_bytes);
-			connection->cache.target.key.position += read_bytes;
-		}
-		else{
-			max_write = connection->cache.target.key.end_position - connection->cache.target.key.position;
-			if(to_write > max_write){
-				to_write = max_write;
+				//The value can not be stored, there is no response (and no value) for this
+				PWARN("[#%d] Failed to write for PUT", connection->client_sock);
+				return close_connection;
 			}
-
-			RBUF_READMOVE(connection->input, to_write);
-			connection->cache.target.key.position += to_write;
+			to_write = written;
+			DEBUG("[#%d] %d bytes to fd %d at position %u\n", connection->client_sock, (int)to_write, connection->cache.target.key.fd, (uint32_t)connection->cache.target.key.position);
 		}
+
+		//Handle the bytes written
+		RBUF_READMOVE(connection->input, to_write);
+		connection->cache.target.key.position += to_write;
 	}
 
 	//Check if done
-- 
2.43.0


From c878ab887998c1f44e7a71408c2b120a4460e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 13/31] fix: signals interrupt the database half way through a
 change and can end flushing for good

---
 src/core/connection.cpp | 16 ++++++++++++----
 src/core/db.cpp         | 36 +++++++++++++++++++++---------------
 src/core/timer.cpp      | 28 +++++++++++++++++++++++++---
 src/core/timer.h        |  3 ++-
 4 files changed, 60 insertions(+), 23 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index b4442a5..d6b1e8b 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -22,6 +22,7 @@
 #include <netinet/tcp.h>
 #include <sys/eventfd.h>
 #include <pthread.h>
+#include <signal.h>
 #include <set>
 #include <algorithm>
 #include <fcntl.h>
@@ -30,10 +31,8 @@
 #include "debug.h"
 #include "http.h"
 #include "settings.h"
-#ifdef DEBUG_BUILD
-/* For reference counting checks */
+#include "timer.h"
 #include "db.h"
-#endif
 
 /* Globals */
 listener_collection scache_listeners = { .listeners = NULL, .listener_count = 0 };
@@ -495,13 +494,17 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 	thread_arg[0].eventfd = thread_arg[1].eventfd = efd;
 	thread_arg[0].ready = thread_arg[1].ready = false;
 
-	// Start Acceptor threads
+	// Start Acceptor threads, signals are handled by this thread only
+	sigset_t all_signals, old_signals;
+	sigfillset(&all_signals);
+	pthread_sigmask(SIG_BLOCK, &all_signals, &old_signals);
 	res = pthread_create(&tid[0], NULL, &connection_handle_accept, (void*)&thread_arg[0]);
 	if (res != 0)
 		PFATAL("can't create cache accept thread");
 	res = pthread_create(&tid[1], NULL, &connection_handle_accept, (void*)(&thread_arg[1]));
 	if (res != 0)
 		PFATAL("can't create mon accept thread");
+	pthread_sigmask(SIG_SETMASK, &old_signals, NULL);
 	
 	// Add monitoring socket
 	scache_connection monitoring_connection;
@@ -615,6 +618,11 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 				// send out monitoring messages
 				res = read(fd, &u, sizeof(u));
 				monitoring_check();
+
+				// a collection was requested by signal
+				if (timer_take_gc_request()) {
+					db_lru_gc();
+				}
 			}
 		}
 
diff --git a/src/core/db.cpp b/src/core/db.cpp
index a05bb04..3a14298 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -32,6 +32,7 @@ LRU
 #include <unistd.h>
 #include <assert.h>
 #include <errno.h>
+#include <signal.h>
 #include "db.h"
 #include "debug.h"
 #include "hash.h"
@@ -66,7 +67,7 @@ struct db_details db {
 	.tables = NULL
 };
 
-pid_t current_flush = 0;
+static volatile pid_t current_flush = 0;
 
 static pid_t db_index_flush(bool copyOnWrite = true);
 
@@ -421,19 +422,19 @@ bool db_expire_cursor() {
 }
 
 static bool currently_flushing(int flags){
-	if(current_flush == 0) return false;
 	int status, w;
-	w = waitpid(current_flush, &status, flags);
-	if (w) {
-		if (WIFEXITED(status)) {
-			current_flush = 0;
-			return false;
-		}
-	} else if(w == -1) {
-		current_flush = 0;
-		return false;
+	pid_t pid = current_flush;
+	if(pid == 0) return false;
+	do {
+		w = waitpid(pid, &status, flags);
+	} while(w == -1 && errno == EINTR);
+	if (w == 0) {
+		return true;
 	}
-	return true;
+
+	// ended (-1 if it was reaped on SIGCHLD already)
+	current_flush = 0;
+	return false;
 }
 
 void db_handle_sigchld(pid_t pid){
@@ -475,13 +476,18 @@ void db_lru_gc() {
 	// Check for running flush
 	if(currently_flushing(WNOHANG)) return;
 
-	// Flush index
+	// Flush index, may end before the pid is known
+	sigset_t block, old;
+	sigemptyset(&block);
+	sigaddset(&block, SIGCHLD);
+	pthread_sigmask(SIG_BLOCK, &block, &old);
 	pid_t pid = db_index_flush(DB_ENABLE_COPY_ON_WRITE);
 	if(pid == -1){
 		PWARN("Unable to fork");
-		return;
+	} else {
+		current_flush = pid;
 	}
-	current_flush = pid;
+	pthread_sigmask(SIG_SETMASK, &old, NULL);
 }
 
 static void db_clear_directory(const char* directory) {
diff --git a/src/core/timer.cpp b/src/core/timer.cpp
index 5c833df..20e83b7 100644
--- a/src/core/timer.cpp
+++ b/src/core/timer.cpp
@@ -6,6 +6,7 @@
 #include <sys/time.h>
 #include <stdint.h>
 #include <unistd.h>
+#include <errno.h>
 #include "http_parse.h"
 #include "timer.h"
 #include "db.h"
@@ -13,6 +14,7 @@
 
 volatile struct timeval current_time;
 static int mon_fd;
+static volatile sig_atomic_t gc_requested = 0;
 
 static void timer_store_current_time()
 {
@@ -29,6 +31,7 @@ static void timer_store_current_time()
 static void timer_handler(int signum)
 {
 	uint64_t u = 1;
+	int saved_errno = errno;
 
 	// time accurate to the nearest 5ms
 	timer_store_current_time();
@@ -36,26 +39,45 @@ static void timer_handler(int signum)
 	// check for monitoring updates
 	if(monitoing_needs_to_run()){
 		write(mon_fd, &u, sizeof(u));
-	}	
+	}
+
+	errno = saved_errno;
 }
 
 static void child_handler(int signum)
 {
 	int wstat;
 	pid_t	pid;
+	int saved_errno = errno;
 
 	while (true) {
 		pid = waitpid (-1, &wstat, WNOHANG );
 		if (pid <= 0)
-			return;
+			break;
 			
 		db_handle_sigchld(pid);
 	}
+
+	errno = saved_errno;
 }
 
 static void flush_handler(int signum)
 {
-	db_lru_gc();
+	uint64_t u = 1;
+	int saved_errno = errno;
+
+	// what was interrupted may be using the database, so let the event loop do it
+	gc_requested = 1;
+	write(mon_fd, &u, sizeof(u));
+
+	errno = saved_errno;
+}
+
+bool timer_take_gc_request()
+{
+	bool requested = gc_requested != 0;
+	gc_requested = 0;
+	return requested;
 }
 
 void timer_setup(int evfd)
diff --git a/src/core/timer.h b/src/core/timer.h
index 4f720d5..19d4948 100644
--- a/src/core/timer.h
+++ b/src/core/timer.h
@@ -1,4 +1,5 @@
 volatile extern struct timeval current_time;
 
 void timer_setup(int evfd);
-void timer_cleanup();
\ No newline at end of file
+void timer_cleanup();
+bool timer_take_gc_request();
\ No newline at end of file
-- 
2.43.0


From 27dc48734c1168433842785b6ada997e141d132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 14/31] fix: loading the saved index corrupts names, never
 releases entries and hands out blocks and files in use

---
 src/core/db.cpp | 74 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 17 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 3a14298..d0ef6af 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -41,6 +41,7 @@ LRU
 #include "signal_handle.h"
 #include "connection.h"
 
+#include <vector>
 #ifdef DEBUG_BUILD
 #include <set>
 #endif
@@ -579,9 +580,7 @@ static void db_load_from_save_insert(db_table* table, cache_entry* entry){
 	k = kh_put(entry, table->cache_hash_set, entry->hash, &ret);
 	kh_value(table->cache_hash_set, k) = entry;
 
-	//Refs
-	db_entry_incref(entry, false);
-
+	//No reference is held, as for any other entry not in use
 	assert(!entry->deleted);
 	db.db_size_bytes += entry->data_length;
 }
@@ -603,12 +602,46 @@ static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t
 	return entry;
 }
 
+//Names are stored as they are, i.e may contain anything but a newline
+static char* db_load_name(const char* name, int length){
+	char* ret = (char*)malloc(length + 1);
+	memcpy(ret, name, length);
+	ret[length] = 0;
+	return ret;
+}
+
+//All blocks that no entry uses are free
+static void db_load_free_blocks(){
+	std::vector<bool> used(db.blocks_exist, false);
+	for (khiter_t ke = kh_begin(db.tables); ke < kh_end(db.tables); ++ke) {
+		if (!kh_exist(db.tables, ke)) continue;
+		db_table* table = kh_val(db.tables, ke);
+		for (khiter_t kee = kh_begin(table->cache_hash_set); kee != kh_end(table->cache_hash_set); ++kee) {
+			if (!kh_exist(table->cache_hash_set, kee)) continue;
+			cache_entry* entry = kh_val(table->cache_hash_set, kee);
+			if (entry->block >= 0 && (uint32_t)entry->block < db.blocks_exist) {
+				used[entry->block] = true;
+			}
+		}
+	}
+
+	uint32_t count = db.blocks_exist;
+	for (uint32_t i = 0; i < count; i++) {
+		if (!used[i]) {
+			db_block_free(i);
+		}
+	}
+}
+
 static bool db_load_from_save(){
-	char buffer[MAX_PATH], buffer2[2048];
+	char buffer[MAX_PATH];
 	char *bp = NULL;
 	bool ret = false;
 	size_t len = 0;
-	uint32_t u1, u2, u3, u4;
+	uint32_t u2, u4;
+	unsigned long expires;
+	uint32_t max_it = 0;
+	int name;
 	db_table* table = NULL;
 	cache_entry* entry;
 	int d1;
@@ -638,24 +671,17 @@ static bool db_load_from_save(){
 
 	while ((read = getline(&bp, &len, fp)) != -1) {
         if(read <= 2 || bp[1] != ':') continue;
+		if(bp[read - 1] == '\n') read--;
 		switch(bp[0]){
 			case 'f':
-				if(sscanf(bp, "f:%u", &u1) != 1){
-					WARN("Free block parsing error\n");
-					continue;
-				}
-				db_block_free(u1);
+				// free blocks are those not used by any entry
 			break;
 			case 't':
-				if(sscanf(bp, "t:%s", buffer2) != 1){
-					WARN("Table parsing error\n");
-					continue;
-				}
 				if(table != NULL){
 					db_table_deref(table);
 					table = NULL;
 				}
-				table = db_table_get_write(strdup(buffer2), strlen(buffer2));
+				table = db_table_get_write(db_load_name(bp + 2, read - 2), read - 2);
 				entry = NULL;
 				break;
 			case 'b':
@@ -664,13 +690,18 @@ static bool db_load_from_save(){
 					WARN("File entry must be after table\n");
 					continue;
 				}
-				if(sscanf(bp+1, ":%d:%u:%u:%u:%s", &d1, &u2, &u3, &u4, buffer2) != 5){
+				name = 0;
+				if(sscanf(bp+1, ":%d:%u:%lu:%u:%n", &d1, &u2, &expires, &u4, &name) != 4 || name == 0){
 					WARN("Entry parsing error\n");
 					continue;
 				}
 			
 				//>block, ce->data_length, ce->expires, ce->it
-				entry = db_load_from_save_entry(table, strdup(buffer2), strlen(buffer2), d1, u2, u3, u4);
+				name++;
+				entry = db_load_from_save_entry(table, db_load_name(bp + name, read - name), read - name, d1, u2, expires, u4);
+				if(u4 > max_it){
+					max_it = u4;
+				}
 
 				if(d1 < 0){
 					// Test file existance
@@ -678,6 +709,7 @@ static bool db_load_from_save(){
 					
 					if( access( buffer, F_OK ) == -1 ) {
 						DEBUG("skipping as file %s does not exist\n", buffer);
+						free(entry->key);
 						free(entry);
 						continue;
 					}
@@ -685,6 +717,7 @@ static bool db_load_from_save(){
 					// Test size of blockfile
 					if(d1 >= db.blocks_exist){
 						DEBUG("skipping as block %d does not exist\n", d1);
+						free(entry->key);
 						free(entry);
 						continue;
 					}
@@ -709,6 +742,9 @@ static bool db_load_from_save(){
 		table = NULL;
 	}
 
+	// The files of saved entries must not be used again for other values
+	nextit = max_it + 1;
+
 	// move over block file (via link to preserve save)
 	snprintf(buffer, sizeof(buffer), "%s/blockfile.db.save", db.path_root);
 	unlink(db.path_blockfile);
@@ -768,6 +804,10 @@ bool db_open(const char* path) {
 	db.blocks_exist = (uint32_t)(size / BLOCK_LENGTH);
 	lseek64(db.fd_blockfile, 0L, SEEK_SET);
 
+	if(!will_black){
+		db_load_free_blocks();
+	}
+
 	// Mark all blocks that already exist in the block file as non-allocated
 	if(will_black){
 		if(size > (BLOCK_MAX_LOAD * BLOCK_LENGTH)) {
-- 
2.43.0


From 629a7dfd7752d3b2497a03d886f0989365bb3fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 15/31] fix: index and block file of different flushes are
 loaded together after a crash, paths with spaces lose everything

---
 src/core/db.cpp | 52 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index d0ef6af..3d0df81 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -33,6 +33,7 @@ LRU
 #include <assert.h>
 #include <errno.h>
 #include <signal.h>
+#include <spawn.h>
 #include "db.h"
 #include "debug.h"
 #include "hash.h"
@@ -341,17 +342,36 @@ void db_lru_cleanup_percent(int* bytes_to_remove) {
 	DEBUG("[#] LRU attempted to remove %d bytes, %d bytes remaining\n", debug_bytes, *bytes_to_remove);
 }
 
-static void force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
-	char buffer[8096];
+static bool force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
 	//TODO: reflink
 	/*int ret = link(fileThatExists, fileThatDoesNotExist);
-	char buffer[8096];
 	if(ret != 0){
 		PWARN("Unable to hard link");*/
 		//Really bad! Temporary.
-		snprintf(buffer, sizeof(buffer), "cp %s %s", fileThatExists, fileThatDoesNotExist);
-		printf("Executing %s\n", buffer);
-		system(buffer);
+		char* const argv[] = { (char*)"cp", (char*)"--", (char*)fileThatExists, (char*)fileThatDoesNotExist, NULL };
+		printf("Executing cp %s %s\n", fileThatExists, fileThatDoesNotExist);
+
+		//SIGCHLD would reap it
+		sigset_t block, old;
+		sigemptyset(&block);
+		sigaddset(&block, SIGCHLD);
+		pthread_sigmask(SIG_BLOCK, &block, &old);
+
+		posix_spawnattr_t attr;
+		posix_spawnattr_init(&attr);
+		posix_spawnattr_setflags(&attr, POSIX_SPAWN_SETSIGMASK);
+		posix_spawnattr_setsigmask(&attr, &old);
+
+		pid_t pid;
+		int status = -1;
+		int ret = posix_spawnp(&pid, argv[0], NULL, &attr, argv, environ);
+		if (ret == 0) {
+			while (waitpid(pid, &status, 0) == -1 && errno == EINTR);
+		}
+		posix_spawnattr_destroy(&attr);
+		pthread_sigmask(SIG_SETMASK, &old, NULL);
+
+		return ret == 0 && WIFEXITED(status) && WEXITSTATUS(status) == 0;
 	//}
 }
 
@@ -484,7 +504,7 @@ void db_lru_gc() {
 	pthread_sigmask(SIG_BLOCK, &block, &old);
 	pid_t pid = db_index_flush(DB_ENABLE_COPY_ON_WRITE);
 	if(pid == -1){
-		PWARN("Unable to fork");
+		PWARN("Unable to flush");
 	} else {
 		current_flush = pid;
 	}
@@ -748,7 +768,9 @@ static bool db_load_from_save(){
 	// move over block file (via link to preserve save)
 	snprintf(buffer, sizeof(buffer), "%s/blockfile.db.save", db.path_root);
 	unlink(db.path_blockfile);
-	force_link(buffer, db.path_blockfile);
+	if (!force_link(buffer, db.path_blockfile)) {
+		PFATAL("Unable to copy the saved block file");
+	}
 
 	ret = true;
 close_fd:
@@ -1491,7 +1513,11 @@ static pid_t db_index_flush(bool copyOnWrite){
 	fdatasync(db.fd_blockfile);
 
 	// create a hard link from the currentl block file to ${blockfile}.temp
-	force_link(db.path_blockfile, buffer);
+	if (!force_link(db.path_blockfile, buffer)) {
+		PWARN("Unable to flush index, unable to copy block file");
+		unlink(buffer);
+		return -1;
+	}
 
 	//If we are forking we can do so now
 	if(copyOnWrite){
@@ -1560,9 +1586,11 @@ static pid_t db_index_flush(bool copyOnWrite){
 	temp = snprintf(buffer4, sizeof(buffer4), "%s.save", db.path_blockfile);
 	assert(temp > 0);
 
-	// execute the renames of tmp files to actual
-	rename(buffer, buffer2);
-	rename(buffer3, buffer4);
+	// execute the renames of tmp files to actual, an index is never
+	// to be found with the block file of another
+	if(rename(buffer3, buffer4) == 0) {
+		rename(buffer, buffer2);
+	}
 	unlink(buffer3);
 	unlink(buffer);
 
-- 
2.43.0


From b8e5bc8c546f26f43f5728767cfb50fe8ee6203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 16/31] fix: the block file is cut off beyond 4GiB

---
 src/core/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 3d0df81..eb012ca 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -187,7 +187,7 @@ void db_lru_hit(cache_entry* entry) {
 }
 
 static void db_block_size() {
-	if (ftruncate(db.fd_blockfile, db.blocks_exist*BLOCK_LENGTH) < 0) {
+	if (ftruncate(db.fd_blockfile, (off64_t)db.blocks_exist*BLOCK_LENGTH) < 0) {
 		PWARN("File truncation failed (length: %d)", db.blocks_exist);
 	}
 }
-- 
2.43.0


From 050d3f7b0de196d800251b08ed30d065456cfb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 17/31] fix: size limits are not enforced when more than 2GiB
 must be removed

---
 src/core/db.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index eb012ca..ced4d1e 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -317,8 +317,8 @@ void db_entry_incref(cache_entry* entry, bool table = true) {
 		db_table_incref(entry->table);
 }
 
-void db_lru_cleanup_percent(int* bytes_to_remove) {
-	int debug_bytes = *bytes_to_remove;
+void db_lru_cleanup_percent(int64_t* bytes_to_remove) {
+	int64_t debug_bytes = *bytes_to_remove;
 	while (db.lru_head != NULL && *bytes_to_remove > 0) {
 		cache_entry* l = db.lru_head;
 
@@ -339,7 +339,7 @@ void db_lru_cleanup_percent(int* bytes_to_remove) {
 		}
 	}
 	
-	DEBUG("[#] LRU attempted to remove %d bytes, %d bytes remaining\n", debug_bytes, *bytes_to_remove);
+	DEBUG("[#] LRU attempted to remove %lld bytes, %lld bytes remaining\n", (long long)debug_bytes, (long long)*bytes_to_remove);
 }
 
 static bool force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
@@ -470,20 +470,21 @@ void db_lru_gc() {
 	DEBUG("Starting %s\n", do_lru?"LRU GC":"Expiration Cursor");
 	if (do_lru)
 	{
-		int bytes_to_remove;
+		//How far below the maximum to get
+		int64_t margin = settings.max_size * (double)settings.db_lru_clear;
+		int64_t bytes_to_remove;
 		bool full_cycle;
 		int i = 0;
 		
 		//Do 5 iterations, or one full cycle of expirations
 		do
 		{
-			bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
 			full_cycle = db_expire_cursor();
 			i++;
 		} while (!full_cycle && i < 5);
 		
 		//Apply LRU
-		bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
+		bytes_to_remove = (int64_t)(db.db_size_bytes - settings.max_size) + margin;
 		if (bytes_to_remove > 0) {
 			db_lru_cleanup_percent(&bytes_to_remove);
 		}
-- 
2.43.0


From b5248a61786acb39b6d48b6633405a2f73b7151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 18/31] fix: IPv6 and invalid listen addresses are taken for
 something else

---
 src/core/settings.cpp | 146 +++++++++++++++++++-----------------------
 1 file changed, 66 insertions(+), 80 deletions(-)

diff --git a/src/core/settings.cpp b/src/core/settings.cpp
index 11263ed..4b5397a 100644
--- a/src/core/settings.cpp
+++ b/src/core/settings.cpp
@@ -55,25 +55,75 @@ char* string_allocate(const char* s)
 	return c;
 }
 
-enum bind_parse_state
+//Port, with a t appended if transparent
+static void parse_port(const char* bind, const char* port, scache_bind* target)
 {
-	first, ipv4, ipv6, unix_path, port
-};
+	char* end;
+	if (*port < '0' || *port > '9') {
+		FATAL("Error parsing bind address %s: no port", bind);
+	}
+	long number = strtol(port, &end, 10);
+	if (*end == 't') {
+		target->transparent = true;
+		end++;
+	}
+	if (*end != 0 || number > 65535) {
+		FATAL("Error parsing bind address %s: invalid port", bind);
+	}
+	target->port = number;
+}
+
+static void parse_bind(char* bind, scache_bind* target)
+{
+	char* address = bind;
+	char* end;
+
+	if (strncmp(bind, "u:", 2) == 0) {
+		target->af = AF_UNIX;
+		address += 2;
+		if (*address == 0 || strlen(address) >= sizeof(((struct sockaddr_un*)0)->sun_path)) {
+			FATAL("Error parsing bind address %s: invalid path", bind);
+		}
+		strcpy(target->addr, address);
+		return;
+	}
+
+	if (*bind == '[') {
+		target->af = AF_INET6;
+		address++;
+		end = strchr(bind, ']');
+		if (end == NULL || end[1] != ':') {
+			FATAL("Error parsing bind address %s: no port", bind);
+		}
+		parse_port(bind, end + 2, target);
+	}
+	else {
+		target->af = AF_INET;
+		end = strchr(bind, ':');
+		if (end == NULL) {
+			FATAL("Error parsing bind address %s: no port", bind);
+		}
+		parse_port(bind, end + 1, target);
+	}
+
+	*end = 0;
+	if (inet_pton(target->af, address, target->addr) != 1) {
+		FATAL("Error parsing bind address %s", bind);
+	}
+}
+
 static void parse_binds(const char* optarg_const, scache_binds* target)
 {
 	char* optarg = strdup(optarg_const);
-	int len = strlen(optarg);
-	bind_parse_state state = bind_parse_state::first;
-	int state_start = 0;
-	int num = 0;
-	for (int i = 0; i <= len; i++)
+	int num = 1;
+	for (char* c = optarg; *c != 0; c++)
 	{
-		if (optarg[i] == ',' || optarg[i] == 0)
+		if (*c == ',')
 		{
 			num++;
-		}	
+		}
 	}
-	
+
 	// Initialize memory for bind
 	scache_bind* current = (scache_bind*)malloc(sizeof(scache_bind) * num);
 	target->num = num;
@@ -81,77 +131,13 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 	memset(current, 0, sizeof(scache_bind) * num);
 
 	// Parse the options string
-	for (int i = 0; i <= len; i++)
+	char* rest = optarg;
+	char* bind;
+	while ((bind = strsep(&rest, ",")) != NULL)
 	{
-		char copy = optarg[i];
-		switch (state)
-		{
-		case bind_parse_state::first:
-			if (optarg[i] == '[')
-			{
-				current->af = AF_INET6;
-				state = bind_parse_state::ipv6;
-				state_start++;
-				break;
-			}
-			else if (optarg[i] == 'u' && optarg[i+1] == ':')
-			{
-				current->af = AF_UNIX;
-				state = bind_parse_state::unix_path;
-				state_start+=2;
-				i++;
-				break;
-			}
-			else
-			{
-				current->af = AF_INET;
-				state = bind_parse_state::ipv4;
-			}
-		case bind_parse_state::ipv6:
-		case bind_parse_state::ipv4:
-			if (optarg[i] == ':')
-			{
-				optarg[i] = 0;
-				if (inet_pton(current->af, optarg + state_start, current->addr) < 0) {
-					PFATAL("Error parsing bind address");
-				}
-				state = bind_parse_state::port;
-				state_start = i + 1;
-			}
-			break;
-		case bind_parse_state::unix_path:
-			if (optarg[i] == 0 || optarg[i] == ',')
-			{
-				memcpy(current->addr, optarg + state_start, i - state_start);
-				current->port = 0;
-				if (optarg[i] == ',')
-				{
-					current++;
-					state = bind_parse_state::first;
-					state_start = i + 1;				
-				}
-			}
-			break;
-		case bind_parse_state::port:
-			if(optarg[i] == 't'){
-				current->transparent = true;
-			}
-			else if (optarg[i] == 0 || optarg[i] == ',')
-			{
-				optarg[current->transparent ? (i - 1) : i] = 0;
-				current->port = atoi(optarg + state_start);
-				if (copy == ',')
-				{
-					current++;
-					state = bind_parse_state::first;
-					state_start = i + 1;				
-				}
-			}
-			
-			break;
-		}
+		parse_bind(bind, current++);
 	}
-		
+
 	free(optarg);
 }
 
-- 
2.43.0


From 9c5fb048eef00bc9cf327b63c24e460b3910db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 19/31] fix: stalled monitoring connections are freed while
 still in use

---
 src/core/http_parse_mon.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 40e95dd..15ee181 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -474,9 +474,13 @@ void monitoring_check(){
 		if(conn->output_buffer != NULL){
 			fd = conn->client_sock;
 			DEBUG("Failed to output buffer to monitoring connection, will close fd %d\n", fd);
-			http_cleanup(conn);
-			connection_remove(conn);
-			close_socket(fd);
+
+			// not in the list any more
+			if(mon_tail == conn) mon_tail = NULL;
+			conn->monitoring.next = conn->monitoring.prev = NULL;
+
+			// there may be events for it still, so the event loop closes it
+			shutdown(fd, SHUT_RDWR);
 			continue;
 		}
 
-- 
2.43.0


From a915d9d5dc7d4b2fbee36b1e4e578c68b98d41a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 20/31] fix: tables of equal hash are lost when one is deleted,
 and their files after a restart

---
 src/core/db.cpp          | 44 ++++++++++++++++++++++++++++++----------
 src/core/db_structures.h |  3 ++-
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index ced4d1e..38341d8 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -260,14 +260,33 @@ void db_entry_actually_delete(cache_entry* entry) {
 	free(entry);
 }
 
+//Remove table from database (unless already removed)
+static void db_table_unlink(db_table* table) {
+	khiter_t k = kh_get(table, db.tables, table->hash);
+	if (k == kh_end(db.tables) || kh_value(db.tables, k) != table) {
+		return;
+	}
+	kh_del(table, db.tables, k);
+
+	//Other tables of the same hash follow, they must not be behind a gap
+	uint32_t gap = table->hash;
+	for (uint32_t hash = gap + 1; (k = kh_get(table, db.tables, hash)) != kh_end(db.tables); hash++) {
+		db_table* next = kh_value(db.tables, k);
+		if (hash - next->name_hash >= hash - gap) {
+			int ret;
+			kh_del(table, db.tables, k);
+			next->hash = gap;
+			k = kh_put(table, db.tables, gap, &ret);
+			kh_value(db.tables, k) = next;
+			gap = hash;
+		}
+	}
+}
+
 void db_table_actually_delete(db_table* entry) {
 	DEBUG("[#] Cleaning up table due to refcount == 0\n");
 
-	//Remove table from database (unless its place was taken by a newer table)
-	khiter_t k = kh_get(table, db.tables, entry->hash);
-	if (k != kh_end(db.tables) && kh_value(db.tables, k) == entry) {
-		kh_del(table, db.tables, k);
-	}
+	db_table_unlink(entry);
 
 	// Clear key hash table
 	kh_destroy(entry, entry->cache_hash_set);
@@ -562,7 +581,7 @@ static uint32_t hash_string(const char* str, int length) {
 }
 
 static void get_key_path(cache_entry* e, char* out) {
-	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%d", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), e->table->hash, e->hash, e->it);
+	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%d", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), e->table->name_hash, e->hash, e->it);
 }
 
 
@@ -971,7 +990,7 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 
 	assert(!entry->deleted);
 
-	if (entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry->key_length != length) {
@@ -1032,7 +1051,7 @@ struct db_table* db_table_get_read(char* name, int length) {
 		assert(table->hash == hash);
 		
 		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
+		while_condition = table->key_length != length || memcmp(table->key, name, length) != 0;
 		if (while_condition)
 		{
 			hash++;
@@ -1055,6 +1074,7 @@ Returns NULL in case of cache collision
 */
 struct db_table* db_table_get_write(char* name, int length) {
 	uint32_t hash = hash_string(name, length);
+	uint32_t name_hash = hash;
 	khiter_t k;
 	db_table* table;
 	int ret;
@@ -1068,6 +1088,7 @@ struct db_table* db_table_get_write(char* name, int length) {
 		if (k == kh_end(db.tables)) {
 			table = (db_table*)malloc(sizeof(db_table));
 			table->hash = hash;
+			table->name_hash = name_hash;
 			table->key = name;
 			table->key_length = length;
 			table->refs = 1;
@@ -1084,7 +1105,7 @@ struct db_table* db_table_get_write(char* name, int length) {
 		assert(table->hash == hash);
 	
 		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
+		while_condition = table->key_length != length || memcmp(table->key, name, length) != 0;
 		if (while_condition)
 		{
 			hash++;
@@ -1223,7 +1244,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
 	cache_entry* entry = k == kh_end(table->cache_hash_set) ? NULL : kh_value(table->cache_hash_set, k);
 
-	if (entry == NULL || entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry == NULL || entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry == NULL) {
@@ -1308,7 +1329,8 @@ bool db_entry_handle_delete(cache_entry* entry) {
 void db_delete_table_entry(db_table* table, khiter_t k, bool had_keys = true) {
 	// Remove now, even if not fully de-refed
 	assert(k != kh_end(db.tables));
-	kh_del(table, db.tables, k);
+	assert(kh_value(db.tables, k) == table);
+	db_table_unlink(table);
 
 	//Remove reference holding table open (taken with the first key)
 	if (had_keys) {
diff --git a/src/core/db_structures.h b/src/core/db_structures.h
index df13efe..bff6293 100644
--- a/src/core/db_structures.h
+++ b/src/core/db_structures.h
@@ -32,7 +32,8 @@ struct cache_entry
 KHASH_MAP_INIT_INT(entry, struct cache_entry*)
 
 struct db_table {
-	uint32_t hash;
+	uint32_t hash; //where it is stored, differs from name_hash if that was taken
+	uint32_t name_hash;
 	char* key;
 	uint16_t key_length;
 
-- 
2.43.0


From ce5f005714c53f4c93fbb33d108ed7001cafc583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 21/31] fix: lookups of keys still being uploaded are counted
 as successful

---
 src/core/db.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 38341d8..a0b71e0 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1009,16 +1009,16 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 	//Free key text, not needed.
 	free(key);
 
-	//Stats
-	db.db_stats_gets++;
-	db.db_stats_operations++;
-
 	//Check if currently writing (unfinished)
 	if (entry->writing) {
 		//TODO: possibly future, subscribe and writer handles data delivery
 		return NULL;
 	}
 
+	//Stats
+	db.db_stats_gets++;
+	db.db_stats_operations++;
+
 	//LRU hit
 	db_lru_hit(entry);
 
-- 
2.43.0


From f280c627b1ccf94b182cac5ddc023d5916fb258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 22/31] fix: responses of small values are corrupted when the
 value is replaced before the client received them

---
 src/core/http_respond.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index a9c8069..9ee163d 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -138,7 +138,19 @@ state_action http_respond_contentbody(scache_connection* connection) {
 	assert(temp >= 0);
 	if (temp != 0) {
 		off_t pos = connection->cache.target.key.position;
-		ssize_t bytes_sent = sendfile64(fd, connection->cache.target.key.fd, &pos, temp);
+		ssize_t bytes_sent;
+		if (IS_SINGLE_FILE(connection->cache.target.key.entry)) {
+			bytes_sent = sendfile64(fd, connection->cache.target.key.fd, &pos, temp);
+		}
+		else {
+			//Once it was sent the block may be used for another value before the
+			//client receives it, sendfile would not have copied it by then
+			char block[BLOCK_LENGTH];
+			bytes_sent = pread64(connection->cache.target.key.fd, block, temp < BLOCK_LENGTH ? temp : BLOCK_LENGTH, pos);
+			if (bytes_sent > 0) {
+				bytes_sent = write(fd, block, bytes_sent);
+			}
+		}
 		if (bytes_sent == 0) {
 			DEBUG("[#%d] EOF Reached\r\n", fd);
 			return close_connection;
-- 
2.43.0


From 41bbb88369bfebea971338b53269af88f82bd800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 23/31] fix: contiguous readable bytes of a full ring buffer
 are negative after its positions wrapped

---
 src/core/read_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/read_buffer.cpp b/src/core/read_buffer.cpp
index 72cd334..ebac0da 100644
--- a/src/core/read_buffer.cpp
+++ b/src/core/read_buffer.cpp
@@ -141,7 +141,7 @@ int rbuf_read_to_end(struct read_buffer* buffer) {
 
 	uint16_t to_end = (buffer->read_position & (BUFFER_SIZE - 1));
 	if (to_end <= (buffer->write_position & (BUFFER_SIZE - 1))) {
-		return buffer->write_position - buffer->read_position;
+		return RBUF_READLENPTR(buffer);
 	}
 	else{
 		return BUFFER_SIZE - to_end;
-- 
2.43.0


From 39598abff49579c96be730bf2cc9a5d51cf43580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:34 +0000
Subject: [PATCH 24/31] fix: pid file of a daemon contains 0

---
 src/server/scache.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index 6f1abc8..4a98c13 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -131,7 +131,8 @@ int main(int argc, char** argv)
 	if (settings.daemon_mode) {
 		null_fd = open("/dev/null", O_RDONLY);
 		if (null_fd < 0) PFATAL("Cannot open '/dev/null'.");
-		pid = fork_off();
+		fork_off();
+		pid = getpid();
 	}
 	else{
 		pid = getpid();
-- 
2.43.0


From d6ee3e4ad84b921e4f99c2e0ba08989310436f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 25/31] fix: the server ends when clients use up its file
 descriptors

---
 src/core/connection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index d6b1e8b..a0404df 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -378,8 +378,10 @@ static void* connection_handle_accept(void *arg)
 					{
 						if(errno == ENOTSOCK){
 							PFATAL("[#] accept() failed on fd %d of type %s", fd, connection_type_string(our_type));
-						} else if(errno == EMFILE){
-							PFATAL("[#] accept() too many open files on fd %d of type %s", fd, connection_type_string(our_type));
+						} else if(errno == EMFILE || errno == ENFILE){
+							// the connection stays in the backlog until another one is closed
+							WARN("[#] accept() too many open files on fd %d of type %s", fd, connection_type_string(our_type));
+							usleep(50000);
 						} else {
 							WARN("[#] accept() failed on fd %d of type %s. Error: %s", fd, connection_type_string(our_type), strerror(errno));
 						}
-- 
2.43.0


From 682aaad56def968ef149116fcb2b0b9b9de41c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 26/31] fix: a delete cut off while its key is uploaded takes
 the file of the upload with it

---
 src/core/db.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index a0b71e0..10cf057 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -944,11 +944,8 @@ void db_target_entry_close(cache_target* target) {
 	if (target->entry != NULL) {
 		if (target->fd != db.fd_blockfile && target->fd >= 0) {
 			assert(target->fd > 0 || (settings.daemon_mode && target->fd >= 0));
+			//The file is removed with the entry, it may still be written to by another connection
 			close_fd(target->fd, "file descriptor (cache file)");
-
-			if(target->entry->writing){
-				db_entry_delete(target->entry);
-			}
 		}
 
 		target->fd = -1;
-- 
2.43.0


From 6b81b613ec6657ba4cbbf703f721cf710b30c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 27/31] fix: a value may be stored in the file name the saved
 index has for the previous one, and is served cut off after a crash

---
 src/core/db.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 10cf057..63a6a2f 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -897,8 +897,10 @@ int db_entry_open_create(struct cache_entry* e) {
 			break;
 		}
 		// This will rollover -- and that's expected
-		// it ensures safety after saving
-		e->it++;
+		// it ensures safety after saving: the numbers skipped are
+		// not to be given to a later value of the same key, which
+		// would be taken for the saved one after a crash
+		e->it = nextit++;
 	}
 	
 	return -1;
-- 
2.43.0


From dda6a03ad5dd8612ed12c1c3ff6f3a1557edb53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 28/31] fix: a flush outlives its killed server and mixes its
 index with the block file of the next one

---
 src/core/db.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 63a6a2f..9faf77b 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -24,6 +24,7 @@ LRU
 #include <stdio.h>
 #include <dirent.h>
 #include <string.h>
+#include <sys/prctl.h>
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <fcntl.h>
@@ -1543,9 +1544,14 @@ static pid_t db_index_flush(bool copyOnWrite){
 
 	//If we are forking we can do so now
 	if(copyOnWrite){
+		pid_t parent = getpid();
 		pid = fork();
 		if(pid != 0) return pid; // includes -1
 		signal_handler_remove();
+
+		//A flush is not to outlive its server, another may by then be using the files
+		prctl(PR_SET_PDEATHSIG, SIGKILL);
+		if(getppid() != parent) _exit(0);
 	}
 
 	// Open temporary index file
-- 
2.43.0


From f3115b80fdf73a745b0bc9d6893ef9d330f97cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 29/31] fix: the rest of a block file of strange size is not a
 block

A block file found without a saved index is cut to whole blocks, but the cut-off
rest was put in the list of free blocks all the same. The file was later
extended by a block of the same number: two values shared it.
---
 src/core/db.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 9faf77b..2e3b49e 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -863,7 +863,9 @@ bool db_open(const char* path) {
 		if((size % BLOCK_LENGTH) != 0){
 			WARN("Block file was strange size of %d", size);
 			
-			if(ftruncate(db.fd_blockfile, (size / BLOCK_LENGTH) * BLOCK_LENGTH) == -1){
+			//The rest is not a block
+			size = (size / BLOCK_LENGTH) * BLOCK_LENGTH;
+			if(ftruncate(db.fd_blockfile, size) == -1){
 				PFATAL("Failed to truncate blockfile %s", db.path_blockfile);
 			}
 		}
-- 
2.43.0


From e88bd839ce12f486c1474cda85a77a02848ff629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 30/31] fix: a client that ends its side does not lose what it
 sent before

---
 src/core/connection.cpp |  3 ++-
 src/core/http.cpp       | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index a0404df..39e8e48 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -657,7 +657,8 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 					if(!do_close && (events[n].events & EPOLLRDHUP)){
 						connection->epollrdhup = true;
 						if(connection->epollin){
-							do_close = true;
+							//What the client sent before is still to be read, followed by the end
+							do_close = !(events[n].events & EPOLLIN);
 						}else{
 							assert(connection->epollout);
 						}
diff --git a/src/core/http.cpp b/src/core/http.cpp
index e721884..3d662fe 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -43,6 +43,7 @@ return true to close the connection
 state_action http_read_handle(scache_connection* connection) {
 	int num;
 	int fd = connection->client_sock;
+	bool ended = false;
 
 	//Optimization
 	if (connection->input.write_position == connection->input.read_position) {
@@ -54,9 +55,13 @@ state_action http_read_handle(scache_connection* connection) {
 	if (num > 0) {
 		num = read(fd, RBUF_WRITE(connection->input), num);
 		if (num == 0) {
-			return close_connection;
+			//Bytes read earlier (i.e the next pipelined request) can still be processed
+			ended = true;
+			if (rbuf_read_remaining(&connection->input) == 0) {
+				return close_connection;
+			}
 		}
-		if (num < 0) {
+		else if (num < 0) {
 			num = errno;
 			if (num != EAGAIN && num != EWOULDBLOCK && num != EINTR) {
 				DEBUG("[#%d] A socket error occured while reading: %d\n", fd, num);
@@ -85,6 +90,11 @@ state_action http_read_handle(scache_connection* connection) {
 		to_end = rbuf_read_remaining(&connection->input);
 	} while (run == needs_more_read && to_end != 0 && to_end != to_end_old);
 
+	//Nothing follows what is being waited for
+	if (ended && connection->epollin) {
+		return close_connection;
+	}
+
 	//Handle buffer is full, not being processed
 	if (run != registered_write && run != close_connection && run != close_connection && num == 0 && rbuf_write_remaining(&connection->input) == 0) {
 		WARN("Buffer overflowed while handling %s which returned %s (epollin=%d), will disconnect", connection->handler_name, state_action_string[run], connection->epollin);
-- 
2.43.0


From 6128f79bb286884399d6b1140c5a4f506fac9841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 31/31] fix: a request with too long a URL is answered

---
 src/core/http_parse_cache.cpp | 5 +++++
 src/core/http_parse_mon.cpp   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 2276438..3e95e4c 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -649,6 +649,11 @@ state_action http_cache_handle_url(scache_connection* connection) {
 	else{
 		RBUF_ITERATE(connection->input, n, buffer, end, ret, http_read_requeststarturl2(connection, buffer, n));
 	}
+
+	//make sure we dont 100% fill up
+	if (connection->handler == http_cache_handle_url && rbuf_write_remaining(&connection->input) == 0) {
+		return http_write_response(connection, HTTPTEMPLATE_FULLREQUESTTOOLARGE);
+	}
 	return ret;
 }
 
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 15ee181..4271a7f 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -252,6 +252,11 @@ state_action http_mon_handle_url(scache_connection* connection) {
 	DEBUG("[#%d] Handling HTTP url for mon (Stage State: %d)\n", connection->client_sock, connection->state);
 
 	RBUF_ITERATE(connection->input, n, buffer, end, ret, http_mon_read_requeststarturl(connection, buffer, n));
+
+	//make sure we dont 100% fill up
+	if (connection->handler == http_mon_handle_url && rbuf_write_remaining(&connection->input) == 0) {
+		return http_write_response(connection, HTTPTEMPLATE_FULLREQUESTTOOLARGE);
+	}
 	return ret;
 }
 
-- 
2.43.0

