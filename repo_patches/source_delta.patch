From fe20e7115bbf3ad7ba1d49c241bd1e2c6f1faac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 01/33] fix: SHA-1 no longer overwrites the message blocks it
 is given

---
 src/viriatum_commons/checksum/sha1.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/checksum/sha1.c b/src/viriatum_commons/checksum/sha1.c
index 1dbfa2b..15c7d2c 100644
--- a/src/viriatum_commons/checksum/sha1.c
+++ b/src/viriatum_commons/checksum/sha1.c
@@ -92,9 +92,12 @@ void final_sha1(struct sha1_context_t *context, unsigned char *digest) {
 
 void _transform_sha1(unsigned int state[5], const unsigned char buffer[64]) {
     unsigned int a, b, c, d, e;
-    union sha1_block_t *block;
+    union sha1_block_t workspace;
+    union sha1_block_t *block = &workspace;
 
-    block = (union sha1_block_t *) buffer;
+    /* copies the block into the local workspace, the rounds expand
+    the block in place and the provided data must not be changed */
+    memcpy(workspace.c, buffer, 64);
 
     /* copies context state to working vars */
     a = state[0];
-- 
2.43.0


From 754edea98975bffd596a954708775cefeb63ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 02/33] fix: RC4 state box has room for all its 256 entries

---
 src/viriatum_commons/crypto/rc4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/crypto/rc4.h b/src/viriatum_commons/crypto/rc4.h
index 1a74dec..bb39ee1 100644
--- a/src/viriatum_commons/crypto/rc4.h
+++ b/src/viriatum_commons/crypto/rc4.h
@@ -31,7 +31,7 @@ typedef struct rc4_t {
     char *key;
     unsigned char x;
     unsigned char y;
-    unsigned char box[255];
+    unsigned char box[256];
 } rc4;
 
 VIRIATUM_EXPORT_PREFIX void create_rc4(char *key, struct rc4_t **rc4_pointer);
-- 
2.43.0


From 1baa971e0c22431777e72435407a3dd8411420b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:05 +0000
Subject: [PATCH 03/33] fix: base64 decoding rejects text that is not made of
 complete groups

---
 src/viriatum_commons/encoding/base_64.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/encoding/base_64.c b/src/viriatum_commons/encoding/base_64.c
index 4913570..9c41abc 100644
--- a/src/viriatum_commons/encoding/base_64.c
+++ b/src/viriatum_commons/encoding/base_64.c
@@ -63,7 +63,19 @@ ERROR_CODE decode_base64(
     size_t *decoded_buffer_length_pointer
 ) {
     /* retrieves the padding count from the encoded buffer */
-    unsigned int padding_count = _get_padding_count(encoded_buffer, encoded_buffer_length);
+    unsigned int padding_count = encoded_buffer_length > 0 ?\
+        _get_padding_count(encoded_buffer, encoded_buffer_length) : 0;
+
+    /* in case the text is not made of complete groups (or has more padding
+    than the one possible for a group) it's not decodable, raises an error */
+    if(encoded_buffer_length % 4 != 0 || padding_count > 2) {
+        *decoded_buffer_pointer = NULL;
+        *decoded_buffer_length_pointer = 0;
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid base64 text"
+        );
+    }
 
     /* allocates the decoded buffer according to the pre-defined
     rules and then assigns the decoded buffer length */
-- 
2.43.0


From d12d093637e197a7ad125c98c901623f780c065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:06 +0000
Subject: [PATCH 04/33] fix: percent decoding does not look past the end of the
 text

---
 src/viriatum_commons/encoding/percent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/encoding/percent.c b/src/viriatum_commons/encoding/percent.c
index 77cb449..0d16f10 100644
--- a/src/viriatum_commons/encoding/percent.c
+++ b/src/viriatum_commons/encoding/percent.c
@@ -99,7 +99,7 @@ ERROR_CODE decode_percent(unsigned char *buffer, size_t length, unsigned char *_
         /* in case the current pointer value refers a value
         that is the start character for a special value */
         if(*pointer == '%') {
-            if(pointer[1] && pointer[2]) {
+            if((size_t) (pointer - buffer) + 2 < length && pointer[1] && pointer[2]) {
                 /* converts the character using the hexadecimal value
                 from it and then increments the current buffer pointer
                 by a value of two (buffer advancing) */
-- 
2.43.0


From 4950c1a0d81757a357fd54554fb178d1b55460d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 05/33] fix: array list elements are kept inside its buffer,
 that grows

---
 src/viriatum_commons/structures/array_list.c | 26 +++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/structures/array_list.c b/src/viriatum_commons/structures/array_list.c
index dce5ad0..cf4ab52 100644
--- a/src/viriatum_commons/structures/array_list.c
+++ b/src/viriatum_commons/structures/array_list.c
@@ -70,8 +70,26 @@ void set_array_list(struct array_list_t *array_list, size_t index, void *element
     /*  calculates the base index value */
     size_t base_index = array_list->element_size * index;
 
+    void *base_address;
+
+    /* in case the index is not contained in the elements buffer
+    the buffer must grow so that the element fits in it */
+    if(index >= array_list->elements_buffer_size) {
+        size_t buffer_size = array_list->elements_buffer_size * 2;
+        if(buffer_size <= index) { buffer_size = index + 1; }
+        array_list->elements_buffer = (void **) REALLOC(
+            (void *) array_list->elements_buffer,
+            array_list->element_size * buffer_size
+        );
+        array_list->elements_buffer_size = buffer_size;
+    }
+
+    /* updates the size of the array list in case the element
+    is being set after the current last element */
+    if(index >= array_list->size) { array_list->size = index + 1; }
+
     /* retrieves the base address value */
-    void *base_address = &array_list->elements_buffer[base_index];
+    base_address = (char *) array_list->elements_buffer + base_index;
 
     /* copies the element to the array list
     elements buffer, using the element size */
@@ -82,8 +100,10 @@ void get_array_list(struct array_list_t *array_list, size_t index, void **elemen
     /*  calculates the base index value */
     size_t base_index = array_list->element_size * index;
 
-    /* retrieves the element from the element buffer */
-    void *element = &array_list->elements_buffer[base_index];
+    /* retrieves the element from the element buffer, there's no
+    element in case the index is past the end of the array list */
+    void *element = index < array_list->size ?
+        (char *) array_list->elements_buffer + base_index : NULL;
 
     /* sets the element in the element pointer */
     *element_pointer = element;
-- 
2.43.0


From bea692ec4863fe518e93522bf99448cf1469b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 06/33] fix: linked list access past the end and reuse after
 clear or pop

---
 src/viriatum_commons/structures/linked_list.c | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/structures/linked_list.c b/src/viriatum_commons/structures/linked_list.c
index 2c3e233..d0d3929 100644
--- a/src/viriatum_commons/structures/linked_list.c
+++ b/src/viriatum_commons/structures/linked_list.c
@@ -128,11 +128,19 @@ void clear_linked_list(struct linked_list_t *linked_list) {
     }
 
     /* resets the linked list size to the original
-    empty value of zero */
+    empty value of zero and removes the references to
+    the nodes that have just been deleted */
     linked_list->size = 0;
+    linked_list->first = NULL;
+    linked_list->last = NULL;
 }
 
 void append_linked_list(struct linked_list_t *linked_list, struct linked_list_node_t *linked_list_node) {
+    /* removes the links that the node may have kept from
+    a list where it was previously stored (and popped) */
+    linked_list_node->next = NULL;
+    linked_list_node->previous = NULL;
+
     /* in case the linked list is empty */
     if(linked_list->size == 0) {
         /* sets the linked list node as the first node */
@@ -155,6 +163,11 @@ void append_linked_list(struct linked_list_t *linked_list, struct linked_list_no
 }
 
 void append_front_linked_list(struct linked_list_t *linked_list, struct linked_list_node_t *linked_list_node) {
+    /* removes the links that the node may have kept from
+    a list where it was previously stored (and popped) */
+    linked_list_node->next = NULL;
+    linked_list_node->previous = NULL;
+
     /* in case the linked list is empty */
     if(linked_list->size == 0) {
         /* sets the linked list node as the last node */
@@ -364,6 +377,10 @@ void remove_index_linked_list(struct linked_list_t *linked_list, size_t index, c
     /* sets the initial iteration node */
     current_node = linked_list->first;
 
+    /* in case the index is past the end of the list there's
+    no node to be removed */
+    if(index >= linked_list->size) { return; }
+
     /* iterates over the index value */
     for(_index = 0; _index < index; _index++) {
         /* sets the current node as the next node */
@@ -384,8 +401,9 @@ void get_linked_list(struct linked_list_t *linked_list, size_t index, struct lin
     /* sets the initial iteration node */
     current_node = linked_list->first;
 
-    /* iterates over the index value */
-    for(_index = 0; _index < index; _index++) {
+    /* iterates over the index value, stopping at the end of
+    the list in case the index is past it */
+    for(_index = 0; _index < index && current_node != NULL; _index++) {
         /* sets the current node as the next node */
         current_node = current_node->next;
     }
@@ -402,7 +420,7 @@ void get_value_linked_list(struct linked_list_t *linked_list, size_t index, void
     get_linked_list(linked_list, index, &linked_list_node);
 
     /* sets the linked list node value in the value pointer */
-    *value_pointer = linked_list_node->value;
+    *value_pointer = linked_list_node == NULL ? NULL : linked_list_node->value;
 }
 
 void pop_linked_list(struct linked_list_t *linked_list, struct linked_list_node_t **linked_list_node_pointer) {
-- 
2.43.0


From a7c675c38849aed864f62d44e389d5bb5873810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 07/33] fix: sorting an empty sequence reads no element

---
 src/viriatum_commons/sorting/quicksort.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/sorting/quicksort.c b/src/viriatum_commons/sorting/quicksort.c
index 0266f38..a950059 100644
--- a/src/viriatum_commons/sorting/quicksort.c
+++ b/src/viriatum_commons/sorting/quicksort.c
@@ -30,8 +30,8 @@
 #include "quicksort.h"
 
 void sort_quicksort(void **sequence, size_t beginning, size_t end, comparator cmp) {
-    /* retrieves the initial pivor, left and right elements */
-    void *pivot = sequence[beginning];
+    /* retrieves the initial left and right elements */
+    void *pivot;
     size_t left = beginning + 1;
     size_t right = end;
 
@@ -42,6 +42,10 @@ void sort_quicksort(void **sequence, size_t beginning, size_t end, comparator cm
         return;
     }
 
+    /* retrieves the initial pivot element, only done here as
+    an empty sequence has no elements to be read */
+    pivot = sequence[beginning];
+
     /* iterates while the right index is greater
     than the left index */
     while(left < right) {
-- 
2.43.0


From 250479a7ccb1ca801c21c2bb45a0cc2c8e375075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:01 +0000
Subject: [PATCH 08/33] fix: popping an empty priority queue keeps its size at
 zero

---
 src/viriatum_commons/structures/priority_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/structures/priority_queue.c b/src/viriatum_commons/structures/priority_queue.c
index dadb1cd..222d1cf 100644
--- a/src/viriatum_commons/structures/priority_queue.c
+++ b/src/viriatum_commons/structures/priority_queue.c
@@ -106,5 +106,5 @@ void pop_priority_queue(struct priority_queue_t *priority_queue, void **value_po
     /* pops a value from the underlying list directly to the value pointer
     and then decrements the size of the current priority queue */
     pop_value_linked_list(priority_queue->list, value_pointer, TRUE);
-    priority_queue->size--;
+    priority_queue->size = priority_queue->list->size;
 }
-- 
2.43.0


From eadece11941769d4fbeea0179583441d5302112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:30 +0000
Subject: [PATCH 09/33] fix: hash map tells apart text keys of equal hash and
 counts each key once

---
 src/viriatum_commons/structures/hash_map.c | 25 ++++++++++++++++++----
 src/viriatum_commons/structures/hash_map.h |  1 +
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/structures/hash_map.c b/src/viriatum_commons/structures/hash_map.c
index e966013..014afbc 100644
--- a/src/viriatum_commons/structures/hash_map.c
+++ b/src/viriatum_commons/structures/hash_map.c
@@ -143,6 +143,16 @@ void set_value_string_hash_map(struct hash_map_t *hash_map, unsigned char *key_s
     set_value_hash_map(hash_map, key, key_string, value);
 }
 
+char _match_hash_map(struct hash_map_element_t *element, size_t key, unsigned char *key_string) {
+    /* the (hash) key must always be the same, in case a key
+    string is provided it must also be the one of the element
+    as different strings may have the same hash value */
+    if(element->key != key) { return FALSE; }
+    if(key_string == NULL) { return TRUE; }
+    if(element->key_string == NULL) { return FALSE; }
+    return strcmp((char *) element->key_string, (char *) key_string) == 0;
+}
+
 void get_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_string, struct hash_map_element_t **element_pointer) {
     /* allocates space for the hash map element to be used */
     struct hash_map_element_t *element;
@@ -168,7 +178,7 @@ void get_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_st
         requested (element found) note that an extra
         verification is done to make sure that in case
         a string key is specified it also matches */
-        if(element->key == key && (key_string == NULL || strcmp((char *) element->key_string, (char *) key_string) == 0)) {
+        if(_match_hash_map(element, key, key_string)) {
             /* breaks the loop */
             break;
         }
@@ -390,13 +400,20 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         /* retrieves the base address value */
         element = &hash_map->elements_buffer[index];
 
-        /* in case the element is empty or the
-        key is the same (overwrite) */
-        if(element->used == 0 || element->key == key) {
+        /* in case the element is empty must use it
+        as the place for the new key */
+        if(element->used == 0) {
             /* breaks the loop */
             break;
         }
 
+        /* in case the key is the same (overwrite), only the
+        value changes as the key is already in the element */
+        if(_match_hash_map(element, key, key_string)) {
+            element->value = value;
+            return;
+        }
+
         /* in case the index value is "normal"
         and sane (normal case) */
         if(index < hash_map->elements_buffer_size - 1) {
diff --git a/src/viriatum_commons/structures/hash_map.h b/src/viriatum_commons/structures/hash_map.h
index 01ef3cb..a1eb6c3 100644
--- a/src/viriatum_commons/structures/hash_map.h
+++ b/src/viriatum_commons/structures/hash_map.h
@@ -67,6 +67,7 @@ VIRIATUM_EXPORT_PREFIX void delete_hash_map(struct hash_map_t *hash_map);
 VIRIATUM_EXPORT_PREFIX void delete_values_hash_map(struct hash_map_t *hash_map);
 VIRIATUM_EXPORT_PREFIX void set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_string, void *value);
 VIRIATUM_EXPORT_PREFIX void set_value_string_hash_map(struct hash_map_t *hash_map, unsigned char *key_string, void *value);
+VIRIATUM_EXPORT_PREFIX char _match_hash_map(struct hash_map_element_t *element, size_t key, unsigned char *key_string);
 VIRIATUM_EXPORT_PREFIX void get_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_string, struct hash_map_element_t **element_pointer);
 VIRIATUM_EXPORT_PREFIX void get_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_string, void **value_pointer);
 VIRIATUM_EXPORT_PREFIX void get_value_string_hash_map(struct hash_map_t *hash_map, unsigned char *key_string, void **value_pointer);
-- 
2.43.0


From 1029f42b55ebaea1fb906737075e7e6378ac8b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:39 +0000
Subject: [PATCH 10/33] fix: setting a sort map key again does not repeat it in
 the iteration

---
 src/viriatum_commons/structures/sort_map.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/viriatum_commons/structures/sort_map.c b/src/viriatum_commons/structures/sort_map.c
index f447289..9f2f428 100644
--- a/src/viriatum_commons/structures/sort_map.c
+++ b/src/viriatum_commons/structures/sort_map.c
@@ -58,8 +58,14 @@ void delete_sort_map(struct sort_map_t *sort_map) {
 
 void set_value_sort_map(struct sort_map_t *sort_map, size_t key, unsigned char *key_string, void *value) {
     struct hash_map_element_t *element;
+    size_t size = sort_map->hash_map->size;
 
     set_value_hash_map(sort_map->hash_map, key, key_string, value);
+
+    /* in case the size of the map has not changed the key is already
+    in it (and in the key lists), only the value has been changed */
+    if(sort_map->hash_map->size == size) { return; }
+
     get_hash_map(sort_map->hash_map, key, key_string, &element);
     append_value_linked_list(sort_map->key_list, (void *) key);
     append_value_linked_list(sort_map->key_string_list, (void *) element->key_string);
-- 
2.43.0


From 3a69caa518680c23a686546d1d7486d97199c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:38 +0000
Subject: [PATCH 11/33] fix: memory stream size is the end of its data, also
 after seeks

---
 src/viriatum_commons/stream/memory_stream.c | 27 +++++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/viriatum_commons/stream/memory_stream.c b/src/viriatum_commons/stream/memory_stream.c
index 54de954..c383cd8 100644
--- a/src/viriatum_commons/stream/memory_stream.c
+++ b/src/viriatum_commons/stream/memory_stream.c
@@ -97,10 +97,13 @@ void close_memory_stream(struct stream_t *stream) {
 size_t read_memory_stream(struct stream_t *stream, unsigned char *buffer, size_t size) {
     struct memory_stream_t *memory_stream =\
         (struct memory_stream_t *) stream->lower;
-    size_t remaining = memory_stream->size - memory_stream->position;
+    size_t remaining = memory_stream->position > memory_stream->size ?
+        0 : memory_stream->size - memory_stream->position;
     size_t count = size > remaining ? remaining : size;
     unsigned char *pointer = &memory_stream->buffer[memory_stream->position];
 
+    if(count == 0) { return 0; }
+
     memcpy(buffer, pointer, count);
     memory_stream->position += count;
 
@@ -113,10 +116,14 @@ size_t write_memory_stream(struct stream_t *stream, unsigned char *buffer, size_
     unsigned char *pointer;
     struct memory_stream_t *memory_stream =\
         (struct memory_stream_t *) stream->lower;
-    size_t remaining = memory_stream->buffer_size - memory_stream->position;
+    size_t target = memory_stream->position + size;
+
+    /* in case there is nothing to be written the stream
+    remains exactly as it is */
+    if(size == 0) { return 0; }
 
-    if(size > remaining) {
-        extra = size - remaining;
+    if(target > memory_stream->buffer_size) {
+        extra = target - memory_stream->buffer_size;
         allocation = extra > SIZE_MEMORY_STREAM ? extra : SIZE_MEMORY_STREAM;
         memory_stream->buffer_size += allocation;
         memory_stream->buffer =    REALLOC(
@@ -125,10 +132,20 @@ size_t write_memory_stream(struct stream_t *stream, unsigned char *buffer, size_
         );
     }
 
+    /* in case the write starts past the end of the stream the
+    bytes in between are set to zero */
+    if(memory_stream->position > memory_stream->size) {
+        memset(
+            &memory_stream->buffer[memory_stream->size],
+            0,
+            memory_stream->position - memory_stream->size
+        );
+    }
+
     pointer = &memory_stream->buffer[memory_stream->position];
     memcpy(pointer, buffer, size);
     memory_stream->position += size;
-    memory_stream->size += size;
+    memory_stream->size = target > memory_stream->size ? target : memory_stream->size;
 
     return size;
 }
-- 
2.43.0


From b7498cd5b7fd9bb7eb9678eb535366123b09e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:37 +0000
Subject: [PATCH 12/33] fix: bit stream moves back over its buffer and reads
 zeros past the end

---
 src/viriatum_commons/stream/bit_stream.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/viriatum_commons/stream/bit_stream.c b/src/viriatum_commons/stream/bit_stream.c
index c75f693..2850961 100644
--- a/src/viriatum_commons/stream/bit_stream.c
+++ b/src/viriatum_commons/stream/bit_stream.c
@@ -188,7 +188,7 @@ void seek_bit_stream(
             set back plus one (this is the distance to the initial byte in
             the last read operation) */
             total_read = bit_stream->byte_current_read + bit_stream->byte_counter_read;
-            diff_read = bit_stream->byte_current_read - (size_t) byte_count + 1;
+            diff_read = (size_t) byte_count - bit_stream->byte_current_read + 1;
 
             /* retrieves the reference to the underlying stream and uses it to
             gather its current position and recalculates the new position using
@@ -201,11 +201,8 @@ void seek_bit_stream(
             /* reads the default (pre-defined) value of bytes from the stream and updated
             the counter and the current index values accordingly taking already into account
             that a new value is going to be read from the buffer */
-            bit_stream->byte_counter_read = stream->read(
-                stream,
-                bit_stream->buffer,
-                BIT_STREAM_BUFFER_SIZE
-            ) - 1;
+            _read_bit_stream(bit_stream);
+            bit_stream->byte_counter_read--;
             bit_stream->byte_current_read = 1;
         }
         /* otherwise the only the read buffer is moved back without having to
@@ -213,8 +210,8 @@ void seek_bit_stream(
         else {
             /* decrements the current byte for read by the number of bytes
             and increments the counter by the same amount (buffer move) */
-            bit_stream->byte_current_read -= (unsigned char) byte_count;
-            bit_stream->byte_counter_read += (unsigned char) byte_count;
+            bit_stream->byte_current_read -= (size_t) byte_count;
+            bit_stream->byte_counter_read += (size_t) byte_count;
         }
 
         /* reads the new current byte value from the buffer with the current
@@ -446,6 +443,14 @@ void _read_bit_stream(struct bit_stream_t *bit_stream) {
         BIT_STREAM_BUFFER_SIZE
     );
     bit_stream->byte_current_read = 0;
+
+    /* in case the end of the stream has been reached a zero byte is
+    used and skipped in the stream, so that moving back still works */
+    if(bit_stream->byte_counter_read == 0) {
+        bit_stream->buffer[0] = 0;
+        bit_stream->byte_counter_read = 1;
+        stream->seek(stream, stream->tell(stream) + 1);
+    }
 }
 
 void _write_bit_stream(struct bit_stream_t *bit_stream) {
-- 
2.43.0


From 82d3c6a9cf1f9b289cf6aeed0ec34732b1244d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:25 +0000
Subject: [PATCH 13/33] fix: huffman coding of empty, one symbol and very
 uneven data, and closing of the output

---
 src/viriatum_commons/compression/huffman.c | 49 ++++++++++++++++++----
 src/viriatum_commons/compression/huffman.h |  7 ++++
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/viriatum_commons/compression/huffman.c b/src/viriatum_commons/compression/huffman.c
index 53a1ab2..ab0ffed 100644
--- a/src/viriatum_commons/compression/huffman.c
+++ b/src/viriatum_commons/compression/huffman.c
@@ -232,7 +232,7 @@ void decode_table_huffman(struct huffman_t *huffman, struct stream_t *in, struct
 
     /* closes the output stream flusing all of it's data and then
     closes the input bit based stream also*/
-    in->close(out);
+    out->close(out);
     close_bit_stream(bit_stream);
 
     /* deletes the bit stream structure, avoiding the leak of any
@@ -387,6 +387,29 @@ void generate_prefix_huffman(struct huffman_t *huffman) {
 }
 
 void generate_table_huffman(struct huffman_t *huffman, struct stream_t *stream) {
+    size_t index;
+
+    /* runs the calculus of the frequencies for the provided
+    stream, at the end of the operation a table of frequencies
+    for each of the ascii symbols is created, please no that
+    this may be an expensive operation */
+    calc_freqs_huffman(huffman, stream);
+    _generate_tree_huffman(huffman);
+
+    /* in case there are codes that do not fit in a word the frequencies
+    are made more even and the tree is created again with them */
+    while(huffman->prefix_size > HUFFMAN_CODE_SIZE) {
+        delete_tree_huffman(huffman->root);
+        huffman->symbol_count = 0;
+        huffman->prefix_size = 0;
+        for(index = 0; index < HUFFMAN_SYMBOL_SIZE; index++) {
+            huffman->freqs[index] = (huffman->freqs[index] + 1) / 2;
+        }
+        _generate_tree_huffman(huffman);
+    }
+}
+
+void _generate_tree_huffman(struct huffman_t *huffman) {
     /* allocates the various temporary variables that are
     required for the generation of the huffman table/tree */
     size_t count;
@@ -400,12 +423,6 @@ void generate_table_huffman(struct huffman_t *huffman, struct stream_t *stream)
     comparision algorithm to the compare huffman one */
     create_priority_queue(&queue, _compare_huffman);
 
-    /* runs the calculus of the frequencies for the provided
-    stream, at the end of the operation a table of frequencies
-    for each of the ascii symbols is created, please no that
-    this may be an expensive operation */
-    calc_freqs_huffman(huffman, stream);
-
     /* iterates over the range of symbols of the default huffman
     tree implementation to create and insert a new node for each
     of the symbols that are considered value (more that one occurence) */
@@ -430,6 +447,16 @@ void generate_table_huffman(struct huffman_t *huffman, struct stream_t *stream)
         push_priority_queue(queue, (void *) node);
     }
 
+    /* in case there is only one symbol its node is set under a
+    root node, so that its code has one bit */
+    if(queue->size == 1) {
+        pop_priority_queue(queue, (void **) &left);
+        create_huffman_node(&node);
+        node->left = left;
+        node->value = left->value;
+        push_priority_queue(queue, (void *) node);
+    }
+
     /* iterates continuously creating the huffman tree using
     the pre-defined algorithm of frequecies */
     while(TRUE) {
@@ -520,7 +547,13 @@ void allocate_tree_huffman(
     unsigned char bit_count
 ) {
     unsigned char is_larger;
-    unsigned char is_leaf = node->left == NULL && node->right == NULL;
+    unsigned char is_leaf;
+
+    /* there is nothing to be done for a missing node (no symbols
+    or only one symbol exist) */
+    if(node == NULL) { return; }
+
+    is_leaf = node->left == NULL && node->right == NULL;
     if(is_leaf) {
         node->code = code;
         node->bit_count = bit_count;
diff --git a/src/viriatum_commons/compression/huffman.h b/src/viriatum_commons/compression/huffman.h
index 54f6c93..0621697 100644
--- a/src/viriatum_commons/compression/huffman.h
+++ b/src/viriatum_commons/compression/huffman.h
@@ -44,6 +44,12 @@
  */
 #define HUFFMAN_CODE_RANGE 65536
 
+/**
+ * The maximum number of bits of the code of a symbol,
+ * codes must fit in a word.
+ */
+#define HUFFMAN_CODE_SIZE 16
+
 /**
  * The size to be used in the huffman internal
  * buffer storage, all the buffer to be allocated
@@ -150,6 +156,7 @@ VIRIATUM_EXPORT_PREFIX void decode_table_huffman(struct huffman_t *huffman, stru
 VIRIATUM_EXPORT_PREFIX void decode_tree_huffman(struct huffman_t *huffman, struct stream_t *in, struct stream_t *out);
 VIRIATUM_EXPORT_PREFIX void generate_prefix_huffman(struct huffman_t *huffman);
 VIRIATUM_EXPORT_PREFIX void generate_table_huffman(struct huffman_t *huffman, struct stream_t *stream);
+VIRIATUM_EXPORT_PREFIX void _generate_tree_huffman(struct huffman_t *huffman);
 VIRIATUM_EXPORT_PREFIX void calc_freqs_huffman(struct huffman_t *huffman, struct stream_t *stream);
 VIRIATUM_EXPORT_PREFIX void allocate_tree_huffman(
     struct huffman_t *huffman,
-- 
2.43.0


From d47f2dfabc7e04aa1e9a6baa67cf2df6c078b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:58 +0000
Subject: [PATCH 14/33] fix: url parsing of fragments, long ports and the
 fixed-size copy of components

---
 src/viriatum_commons/formats/url.c | 36 +++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/viriatum_commons/formats/url.c b/src/viriatum_commons/formats/url.c
index 95ff5c9..4b1ca4a 100644
--- a/src/viriatum_commons/formats/url.c
+++ b/src/viriatum_commons/formats/url.c
@@ -170,6 +170,14 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
                         state = QUERY_STATE;
                         mark = pointer + 1;
                         break;
+
+                    case '#':
+                        length = pointer - mark;
+                        url_s->path.buffer = mark;
+                        url_s->path.length = length;
+                        state = FRAGMENT_STATE;
+                        mark = pointer + 1;
+                        break;
                 }
 
                 break;
@@ -247,6 +255,7 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
     }
 
     if(url_s->port_s.buffer != NULL) {
+        if(url_s->port_s.length >= sizeof(buffer)) { goto error; }
         memcpy(buffer, url_s->port_s.buffer, url_s->port_s.length);
         buffer[url_s->port_s.length] = '\0';
 
@@ -271,6 +280,10 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
     to be used as basis for the construction of the static one */
     struct url_t _url_s;
 
+    /* resets the resulting structure, so that there is always a
+    valid (eventually empty) value in it */
+    memset(url_s, 0, sizeof(struct url_static_t));
+
     error = parse_url(url, url_size, &_url_s);
     if(error) {
         RAISE_ERROR_M(
@@ -279,7 +292,20 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
         );
     }
 
-    memset(url_s, 0, sizeof(struct url_static_t));
+    /* verifies that every component fits in the place it has in
+    the static structure (including the final zero) */
+    if(_url_s.scheme.length >= sizeof(url_s->scheme) ||
+        _url_s.username.length >= sizeof(url_s->username) ||
+        _url_s.password.length >= sizeof(url_s->password) ||
+        _url_s.host.length >= sizeof(url_s->host) ||
+        _url_s.path.length >= sizeof(url_s->path) ||
+        _url_s.query.length >= sizeof(url_s->query) ||
+        _url_s.fragment.length >= sizeof(url_s->fragment)) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "The url is too long"
+        );
+    }
 
     if(_url_s.scheme.buffer != NULL) {
         memcpy(url_s->scheme, _url_s.scheme.buffer, _url_s.scheme.length);
@@ -298,24 +324,24 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
 
     if(_url_s.host.buffer != NULL) {
         memcpy(url_s->host, _url_s.host.buffer, _url_s.host.length);
-        url_s->password[_url_s.host.length] = '\0';
+        url_s->host[_url_s.host.length] = '\0';
     }
 
     if(_url_s.port != 0) { url_s->port = _url_s.port; }
 
     if(_url_s.path.buffer != NULL) {
         memcpy(url_s->path, _url_s.path.buffer, _url_s.path.length);
-        url_s->password[_url_s.path.length] = '\0';
+        url_s->path[_url_s.path.length] = '\0';
     }
 
     if(_url_s.query.buffer != NULL) {
         memcpy(url_s->query, _url_s.query.buffer, _url_s.query.length);
-        url_s->password[_url_s.query.length] = '\0';
+        url_s->query[_url_s.query.length] = '\0';
     }
 
     if(_url_s.fragment.buffer != NULL) {
         memcpy(url_s->fragment, _url_s.fragment.buffer, _url_s.fragment.length);
-        url_s->password[_url_s.fragment.length] = '\0';
+        url_s->fragment[_url_s.fragment.length] = '\0';
     }
 
     RAISE_NO_ERROR;
-- 
2.43.0


From 52dfced02dd88a56b1526d32396137d8ef16fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:18 +0000
Subject: [PATCH 15/33] fix: chunked HTTP messages no longer abort the server,
 lengths that overflow are refused

---
 src/viriatum/http/http_parser.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index d24946e..151717b 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -29,6 +29,8 @@
 
 #include "http_parser.h"
 
+#include <limits.h>
+
 int http_should_keep_alive(struct http_parser_t *http_parser) {
     /* in case the request is of type HTTP 1.1 */
     if(http_parser->http_major > 0 && http_parser->http_minor > 0) {
@@ -1387,6 +1389,11 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             goto error;
                         }
 
+                        /* a length that does not fit is not acceptable */
+                        if(http_parser->content_length > (INT_MAX - (byte - '0')) / 10) {
+                            goto error;
+                        }
+
                         http_parser->content_length *= 10;
                         http_parser->content_length += byte - '0';
 
@@ -1621,7 +1628,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                 break;
 
             case STATE_CHUNK_SIZE_START:
-                assert(read_count == 1);
                 assert(http_parser->flags & FLAG_CHUNKED);
 
                 unhex_value = unhex[byte];
@@ -1661,6 +1667,11 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     goto error;
                 }
 
+                /* a chunk size that does not fit is not acceptable */
+                if(http_parser->content_length > (INT_MAX - unhex_value) / 16) {
+                    goto error;
+                }
+
                 http_parser->content_length *= 16;
                 http_parser->content_length += unhex_value;
 
-- 
2.43.0


From b7140db574a800c70a4d035cc9f90b4232e04625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:26 +0000
Subject: [PATCH 16/33] fix: the HTTP parser starts the next message in a clean
 state after an upgrade

---
 src/viriatum/http/http_parser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 151717b..851920a 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -190,6 +190,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                 /* sets the initial parser values */
                 http_parser->flags = 0;
+                http_parser->upgrade = 0;
                 http_parser->content_length = -1;
 
                 /* calls the message begin callback indicating
@@ -227,6 +228,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
             case STATE_START_RES:
                 http_parser->flags = 0;
+                http_parser->upgrade = 0;
                 http_parser->content_length = -1;
 
                 HTTP_CALLBACK(message_begin);
@@ -433,6 +435,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                 }
 
                 http_parser->flags = 0;
+                http_parser->upgrade = 0;
                 http_parser->content_length = -1;
 
                 HTTP_CALLBACK(message_begin);
@@ -1547,8 +1550,9 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     /* Exit, the rest of the connect is in a different protocol. */
                     if(http_parser->upgrade) {
                         HTTP_CALLBACK(message_complete);
-
-                        return (int) (pointer - data) + 1;
+                        state = NEW_MESSAGE();
+                        parse_count++;
+                        break;
                     }
 
                     if(http_parser->flags & FLAG_SKIPBODY) {
-- 
2.43.0


From 83155e6460bfab64c9208126bea67f4a7ad1219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:54 +0000
Subject: [PATCH 17/33] fix: a response that ends with its connection is no
 longer cut after the first piece

---
 src/viriatum/handlers/handler_proxy.c | 2 +-
 src/viriatum/http/http_parser.c       | 6 ------
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 32525db..b5c35df 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -776,7 +776,7 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
         the service (proxy client) connection */
         if(handler_proxy_context->pending) {
             write_connection_c(
-                connection,
+                connection_s,
                 (unsigned char *) "",
                 0,
                 _cleanup_handler_proxy,
diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 851920a..cc23745 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1756,12 +1756,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
         }
     }
 
-    if(state == STATE_BODY_IDENTITY_EOF) {
-        HTTP_CALLBACK(message_complete);
-        state = NEW_MESSAGE();
-        parse_count++;
-    }
-
     /* updates (saves) the vaious parser state values into the
     proper structure so that they may be used latter in further
     parsing stages (partial parsing) */
-- 
2.43.0


From 4eb0c6f0ea215b4f63cbe132774e64be2009ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:01 +0000
Subject: [PATCH 18/33] fix: the last chunk of a message is not reported as
 another start line

---
 src/viriatum/http/http_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index cc23745..d298c76 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1704,7 +1704,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                 if(http_parser->content_length == 0) {
                     http_parser->flags |= FLAG_TRAILING;
-                    HTTP_CALLBACK(line);
                     state = STATE_HEADER_FIELD_START;
                 } else {
                     state = STATE_CHUNK_DATA;
-- 
2.43.0


From c076aa323f8180609d9ad37f8d14897ef3eabbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:48 +0000
Subject: [PATCH 19/33] fix: byte ranges are limited to the file, suffix ranges
 and lists are understood

---
 src/viriatum/handlers/handler_file.c | 14 ++--
 src/viriatum/http/http_util.c        | 97 ++++++++++++----------------
 2 files changed, 50 insertions(+), 61 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index f68fc89..7e71c5f 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -790,17 +790,17 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     }
     /* in case the range value is set for the current file request
     must calculate the range and retrive the associated file chunk */
-    else if(handler_file_context->range_status == 2) {
-        /* retrieves the initial and final bytes for the requested
-        range, the final range is set in accordance with the file
-        size that is provided */
-        get_http_range_limits(
+    /* retrieves the initial and final bytes for the requested
+    range, the final range is set in accordance with the file
+    size that is provided, a range that selects no byte of the
+    file is ignored (complete file is served) */
+    else if(handler_file_context->range_status == 2 &&\
+        !IS_ERROR_CODE(get_http_range_limits(
             handler_file_context->range,
             &handler_file_context->initial_byte,
             &handler_file_context->final_byte,
             file_size
-        );
-
+        ))) {
         /* writes the HTTP static headers to the response indicating
         that only a part of the file is going to be retrieved, then
         writes also the content range header indicating which bytes
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 1d4eeb0..39ea34c 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -29,6 +29,8 @@
 
 #include "http_util.h"
 
+#include <limits.h>
+
 size_t write_http_headers(
     struct connection_t *connection,
     char *buffer, size_t size,
@@ -427,32 +429,21 @@ ERROR_CODE write_http_error_a(
 }
 
 ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, size_t *final_byte, size_t size) {
-    /* allocates space for the byte to be used in the iteration,
-    for the mark value and for the iteration index counter */
+    /* allocates space for the various local variables to be used
+    for the processing of the range, note that only the first of
+    the ranges in the value is going to be considered */
     char byte;
-    char *start;
-    char *end;
-    size_t mark;
+    size_t mark = 0;
     size_t index;
-
-    /* creates the inital and final local values and starts them
-    at the invalid (unset) values (intial state) */
-    long long initial_byte_v = -1;
-    long long final_byte_v = -1;
-
-    /* retrieves the size of the range string using the normal
-    length if a string function */
-    size_t range_s = strlen((char *) range);
-
-    /* initializes the mark value with a zero indicating that the
-    equals separator may not be found (avoids critical problems) */
-    mark = 0;
-
-    /* iterates over the range string character values to try to
-    find the various key values in it from the byte */
+    unsigned long long initial_byte_v = 0;
+    unsigned long long final_byte_v = 0;
+    unsigned char is_range = FALSE;
+    unsigned char is_suffix = FALSE;
+    size_t range_s = strcspn((char *) range, ",");
+
+    /* iterates over the complete set of bytes of the (first) range
+    to find the mark of both the initial and the final values */
     for(index = 0; index < range_s; index++) {
-        /* retrieves the current byte in iteration and runs the
-        switch testing against it */
         byte = range[index];
         switch(byte) {
             case '=':
@@ -460,45 +451,43 @@ ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, siz
                 break;
 
             case '-':
-                if(index == 0) { initial_byte_v = 0; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
-                }
+                if(is_range) { break; }
+                if(index == mark) { is_suffix = TRUE; }
+                else { initial_byte_v = STROULL((char *) &range[mark], NULL, 10); }
+                is_range = TRUE;
                 mark = index + 1;
                 break;
-
-            case '\0':
-            case ',':
-                if(index == mark) { final_byte_v = size - 1; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
-                }
-                break;
         }
     }
 
-    /* in case the final byte value hasn't been already
-    set time to update its value with the final byte */
-    if(final_byte_v == -1) {
-        if(index == mark) { final_byte_v = size - 1; }
-        else {
-            start = (char *) &range[mark];
-            end = (char *) &range[index - 1];
-            final_byte_v = (long long) STROULL(start, &end, 10);
-        }
+    /* in case there's no final value the range extends until the end
+    otherwise the final value (or the size of the suffix) is retrieved */
+    if(mark >= range_s) { final_byte_v = is_suffix ? 0 : ULLONG_MAX; }
+    else { final_byte_v = STROULL((char *) &range[mark], NULL, 10); }
+
+    /* a range of the type suffix selects the last bytes of the contents
+    so both of the limits must be calculated from the size */
+    if(is_suffix) {
+        initial_byte_v = final_byte_v < size ? size - final_byte_v : 0;
+        is_range = final_byte_v > 0;
+        final_byte_v = ULLONG_MAX;
     }
 
-    /* updates both the initial and the final byte pointer
-    references with the appropriate values */
-    *initial_byte = initial_byte_v > 0 ? (size_t) initial_byte_v : 0;
-    *final_byte = final_byte_v > 0 ? (size_t) final_byte_v : 0;
+    /* in case no byte of the contents is selected by the range (or it's
+    not a range at all) there are no limits to be returned */
+    if(!is_range || initial_byte_v >= size || initial_byte_v > final_byte_v) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Range not satisfiable"
+        );
+    }
+
+    /* updates the initial and final bytes values limiting the final
+    one to the last byte of the contents */
+    *initial_byte = (size_t) initial_byte_v;
+    *final_byte = final_byte_v < size ? (size_t) final_byte_v : size - 1;
 
-    /* raises no error as both the initial and the final
-    byte values have been computed with success */
+    /* raises no error */
     RAISE_NO_ERROR;
 }
 
-- 
2.43.0


From 359735d9be90e1ad1da144b8e73855e25307d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:00 +0000
Subject: [PATCH 20/33] fix: the file handler never leaves the served folder,
 long urls do not overflow it

---
 src/viriatum/handlers/handler_file.c | 192 ++++++++++++---------------
 src/viriatum/handlers/handler_file.h |   6 -
 2 files changed, 84 insertions(+), 114 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 7e71c5f..966c6c1 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -252,15 +252,73 @@ ERROR_CODE message_begin_callback_handler_file(struct http_parser_t *http_parser
     RAISE_NO_ERROR;
 }
 
-ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
+/**
+ * Sets the url of the current request in the context, an url
+ * that is not valid (eg: too long) is set as an empty one and
+ * has no file associated.
+ *
+ * @param handler_file_context The context to be changed.
+ * @param data The buffer containing the path part of the url.
+ * @param data_size The size of the path part of the url.
+ */
+static void _set_url_handler_file(struct handler_file_context_t *handler_file_context, const unsigned char *data, size_t data_size) {
+    size_t decoded_size;
+    if(data_size > VIRIATUM_MAX_PATH_SIZE - 2) { data_size = 0; }
+    memcpy(handler_file_context->url, data, data_size);
+    handler_file_context->url[data_size] = '\0';
+    if(IS_ERROR_CODE(decode_percent(
+        handler_file_context->url,
+        data_size,
+        handler_file_context->url_d,
+        &decoded_size
+    ))) { handler_file_context->url_d[0] = '\0'; }
+}
+
+/**
+ * Resolves the (percent encoded) url into the path of the file to
+ * be served, that is always located inside the base path. An url
+ * that's not valid or that leaves the base path is resolved into
+ * an empty path, for which there's no file.
+ *
+ * @param handler_file_context The context to be changed.
+ * @param base_path The path to the folder to be served.
+ * @param url The url relative to the base path.
+ */
+static void _resolve_handler_file(struct handler_file_context_t *handler_file_context, const char *base_path, unsigned char *url) {
     size_t decoded_size;
+    size_t index;
+    size_t mark;
+    size_t base_size = strlen(base_path);
+    size_t url_size = strlen((char *) url);
+    unsigned char *path = handler_file_context->file_path_d;
+
+    /* until the url is known to be valid there's no file for it, an
+    url that is empty is the one that has been considered invalid */
+    path[0] = '\0';
+    if(handler_file_context->url[0] == '\0' || base_size + url_size + 2 > VIRIATUM_MAX_PATH_SIZE) { return; }
+
+    /* makes sure that there's a separator between the base path and
+    the url, so that only what is inside the folder is reached */
+    if(url_size > 0 && url[0] != '/') { path[base_size++] = '/'; }
+
+    /* decodes the url for the percent encoding, directly after the
+    base path */
+    if(IS_ERROR_CODE(decode_percent(url, url_size, &path[base_size], &decoded_size))) { path[0] = '\0'; return; }
+
+    /* verifies that there's no reference to a parent folder in
+    the segments of the (decoded) url */
+    mark = base_size;
+    for(index = base_size; index <= base_size + decoded_size; index++) {
+        if(path[index] != '/' && path[index] != '\\' && path[index] != '\0') { continue; }
+        if(index - mark == 2 && path[mark] == '.' && path[mark + 1] == '.') { path[0] = '\0'; return; }
+        mark = index + 1;
+    }
 
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
+    /* the url is valid and so the base path may be put in place */
+    memcpy(path, base_path, strlen(base_path));
+}
 
+ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     /* retrieves the handler file context from the HTTP parser */
     struct handler_file_context_t *handler_file_context =\
         (struct handler_file_context_t *) http_parser->context;
@@ -273,39 +331,19 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     /* copies the memory from the data to the url and then
     puts the end of string in the url, note that only the path
     part of the string is used for the url */
-    memcpy(handler_file_context->url, data, path_size);
-    handler_file_context->url[path_size] = '\0';
+    _set_url_handler_file(handler_file_context, data, path_size);
 
     /* prints a debug message */
     V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
 
-    /* creates the file path using the base viriatum path
+    /* resolves the file path using the base viriatum path
     this should be the complete absolute path */
-    file_path_size = SPRINTF(
-        (char *) handler_file_context->file_path,
-        VIRIATUM_MAX_PATH_SIZE,
-        "%s%s%s",
+    _resolve_handler_file(
+        handler_file_context,
         VIRIATUM_CONTENTS_PATH,
-        VIRIATUM_BASE_PATH,
         handler_file_context->url
     );
 
-    /* decodes the url and file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance the resulting
-    value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->url,
-        path_size,
-        handler_file_context->url_d,
-        &decoded_size
-    );
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
-
     /* raise no error */
     RAISE_NO_ERROR;
 }
@@ -528,7 +566,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     if(is_directory) {
         /* in case the current url does not ends with the trailing slash must
         redirect the user agent to the same location but with the trauling slash */
-        if(handler_file_context->url[strlen((char *) handler_file_context->url) - 1] != '/') {
+        if(handler_file_context->url[0] == '\0' || handler_file_context->url[strlen((char *) handler_file_context->url) - 1] != '/') {
             /* creates the new location by adding the slash character to the current
             handler file context url (avoids directory confusion) */
             memcpy(location, handler_file_context->url, strlen((char *) handler_file_context->url));
@@ -901,14 +939,6 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
 }
 
 ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* retrieves the handler file context from the HTTP parser
     and uses it to retrieve the reference to the base path in context */
     struct handler_file_context_t *handler_file_context =\
@@ -918,54 +948,17 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
     /* copies the memory from the data to the url and then
     puts the end of string in the url, note that only the path
     part of the string is used for the url */
-    memcpy(handler_file_context->url, data, data_size);
-    handler_file_context->url[data_size] = '\0';
+    _set_url_handler_file(handler_file_context, data, data_size);
 
     /* prints a debug message */
     V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
 
-    /* in case a base path is not defined the contant values
-    for the contents and base path must be used */
-    if(base_path == NULL) {
-        /* creates the file path using the base viriatum path
-        this should be the complete absolute path */
-        file_path_size = SPRINTF(
-            (char *) handler_file_context->file_path,
-            VIRIATUM_MAX_PATH_SIZE,
-            "%s%s%s",
-            VIRIATUM_CONTENTS_PATH,
-            VIRIATUM_BASE_PATH,
-            handler_file_context->url
-        );
-    }
-    /* otherwise the currently set base path is used instead for
-    the resolution of the file path */
-    else {
-        /* creates the file path using the base viriatum path
-        this should be the complete absolute path */
-        file_path_size = SPRINTF(
-            (char *) handler_file_context->file_path,
-            VIRIATUM_MAX_PATH_SIZE,
-            "%s%s",
-            base_path,
-            handler_file_context->url
-        );
-    }
-
-    /* decodes the url and file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance the resulting
-    value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->url,
-        data_size,
-        handler_file_context->url_d,
-        &decoded_size
-    );
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
+    /* resolves the file path, in case a base path is not defined the
+    contant values for the contents and base path must be used */
+    _resolve_handler_file(
+        handler_file_context,
+        base_path == NULL ? VIRIATUM_CONTENTS_PATH : (char *) base_path,
+        handler_file_context->url
     );
 
     /* raise no error */
@@ -973,17 +966,10 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
 }
 
 ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, size_t index, size_t offset) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* allocates space for the partial url, resulting from the
     remaining part from the matching of the location */
     unsigned char *partial_url;
+    size_t url_size;
 
     /* retrieves the handler file context from the HTTP parser */
     struct handler_file_context_t *handler_file_context =
@@ -1012,29 +998,19 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
     if(location->base_path == NULL) { RAISE_NO_ERROR; }
 
     /* retrieves the partial url match by "removing" the initial part
-    of the url in context */
-    partial_url = &handler_file_context->url[offset];
+    of the url in context (that may be empty in case it's not valid) */
+    url_size = strlen((char *) handler_file_context->url);
+    partial_url = &handler_file_context->url[offset < url_size ? offset : url_size];
 
-    /* creates the file path using the base viriatum path
+    /* resolves the file path using the base path of the location
     this should be the complete absolute path, note that
     only the partial url is used (offset from location) */
-    file_path_size = SPRINTF(
-        (char *) handler_file_context->file_path,
-        VIRIATUM_MAX_PATH_SIZE,
-        "%s%s",
-        location->base_path,
+    _resolve_handler_file(
+        handler_file_context,
+        (char *) location->base_path,
         partial_url
     );
 
-    /* decodes the file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance */
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
-
     /* raise no error */
     RAISE_NO_ERROR;
 }
diff --git a/src/viriatum/handlers/handler_file.h b/src/viriatum/handlers/handler_file.h
index 4c12f43..610032b 100644
--- a/src/viriatum/handlers/handler_file.h
+++ b/src/viriatum/handlers/handler_file.h
@@ -111,12 +111,6 @@ typedef struct handler_file_context_t {
      */
     unsigned char url_d[VIRIATUM_MAX_URL_SIZE];
 
-    /**
-     * The path to the file to be handled by
-     * the current file request.
-     */
-    unsigned char file_path[VIRIATUM_MAX_PATH_SIZE];
-
     /**
      * The url (percent) decoded version of the path
      * to the file to be handled by the current request.
-- 
2.43.0


From 92f391f6ecdaefedda8799eaaa68659bc35a130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:07 +0000
Subject: [PATCH 21/33] fix: the file handler bounds header values and closes
 connections whose file is gone or shorter

---
 src/viriatum/handlers/handler_file.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 966c6c1..bca1c16 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -352,6 +352,10 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
     /* retrieves the handler file context from the HTTP parser */
     struct handler_file_context_t *handler_file_context = (struct handler_file_context_t *) http_parser->context;
 
+    /* the previous header may have no value, in which case the next
+    value does not belong to it */
+    handler_file_context->next_header = UNDEFINED_HEADER;
+
     /* switches over the size of the header name (field)
     that was provided (used for faster parsing) */
     switch(data_size) {
@@ -411,24 +415,28 @@ ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser,
     to undefined no parsing will exist */
     switch(handler_file_context->next_header) {
         case ETAG:
-            memcpy(handler_file_context->etag, data, 10);
-            handler_file_context->etag[10] = '\0';
+            if(data_size >= sizeof(handler_file_context->etag)) { break; }
+            memcpy(handler_file_context->etag, data, data_size);
+            handler_file_context->etag[data_size] = '\0';
             handler_file_context->etag_status = 2;
             break;
 
         case CACHE_CONTROL:
+            if(data_size >= sizeof(handler_file_context->cache_control)) { break; }
             memcpy(handler_file_context->cache_control, data, data_size);
             handler_file_context->cache_control[data_size] = '\0';
             handler_file_context->cache_control_status = 2;
             break;
 
         case AUTHORIZATION:
+            if(data_size >= sizeof(handler_file_context->authorization)) { break; }
             memcpy(handler_file_context->authorization, data, data_size);
             handler_file_context->authorization[data_size] = '\0';
             handler_file_context->authorization_status = 2;
             break;
 
         case RANGE:
+            if(data_size >= sizeof(handler_file_context->range)) { break; }
             memcpy(handler_file_context->range, data, data_size);
             handler_file_context->range[data_size] = '\0';
             handler_file_context->range_status = 2;
@@ -1175,7 +1183,12 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
     if(file == NULL) {
         /* opens the file in the most secure manner making sure
         that the proper encoding is set for the path */
-        open_file((char *) file_path, "rb", &file);
+        if(IS_ERROR_CODE(open_file((char *) file_path, "rb", &file))) {
+            /* the announced contents are not available anymore, the
+            connection is the only way to indicate it */
+            handler_file_context->flags &= ~FLAG_KEEP_ALIVE;
+            return _cleanup_handler_file(connection, data, parameters);
+        }
 
         /* seeks to the end of the file and then to the
         beginig in order to correctly retrieve the size
@@ -1225,6 +1238,10 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
         /* unsets the file from the handler file context */
         handler_file_context->file = NULL;
 
+        /* in case the file is now shorter than what was announced the
+        connection must be closed so that the client side notices it */
+        if(remaining > 0) { handler_file_context->flags &= ~FLAG_KEEP_ALIVE; }
+
         /* runs the cleanup handler file (releases internal structures) */
         _cleanup_handler_file(connection, data, parameters);
 
-- 
2.43.0


From 4a88b17fa1b754ced92f693226aa5a5dc7301b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:14 +0000
Subject: [PATCH 22/33] fix: authorization is refused unless it is a verified
 basic credential

---
 src/viriatum/handlers/handler_file.c |  3 ++-
 src/viriatum/http/http_util.c        | 26 +++++++++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index bca1c16..d7f0e23 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -560,13 +560,14 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         must proceed with the authorization, otherwise invalidates
         the authorization result immediately (no information has
         been provided from the client side) */
+        auth_result = FALSE;
         if(handler_file_context->authorization_status == 2) {
             auth_http(
                 (char *) handler_file_context->auth_file,
                 (char *) handler_file_context->authorization,
                 &auth_result
             );
-        } else { auth_result = FALSE; }
+        }
     }
 
     /* in case the file path being request referes a directory
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 39ea34c..0c78bd5 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -533,7 +533,12 @@ ERROR_CODE log_http_request(char *host, char *identity, char *user, char *method
 }
 
 ERROR_CODE auth_http(char *auth_file, char *authorization, unsigned char *result) {
-    unsigned char is_default = strcmp(auth_file, "$default") == 0 ? TRUE : FALSE;
+    unsigned char is_default = auth_file != NULL && strcmp(auth_file, "$default") == 0 ? TRUE : FALSE;
+
+    /* access is only granted by an explicit verification, any problem
+    in it leaves the request as not authorized */
+    *result = FALSE;
+    if(auth_file == NULL) { RAISE_NO_ERROR; }
     if(is_default) { auth_default_http(auth_file, authorization, result); }
     else { auth_file_http(auth_file, authorization, result); }
     RAISE_NO_ERROR;
@@ -577,7 +582,7 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     type from the authorization base 64 value in case the value
     is not found raises an error indicating the problem */
     pointer = strchr(authorization, ' ');
-    if(pointer == NULL) {
+    if(pointer == NULL || pointer - authorization != 5 || strncmp(authorization + 1, "asic", 4) != 0 || (authorization[0] != 'B' && authorization[0] != 'b')) {
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Authorization value not valid"
@@ -619,6 +624,17 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     username_size = password_pointer - authorization_d - 1;
     password_size = authorization_d + authorization_size - password_pointer;
 
+    /* values that do not fit the internal buffers or that would be cut
+    in the comparision are never the ones of a valid user */
+    if(username_size >= sizeof(username) || password_size >= sizeof(password) ||
+        memchr(authorization_d, '\0', authorization_size) != NULL) {
+        FREE(authorization_d);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Authorization value not valid"
+        );
+    }
+
     /* copies both the username and the password values to
     the apropriate internal buffers (to be used in comparision) */
     memcpy(username, authorization_d, username_size);
@@ -629,7 +645,11 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     /* processes the passwd file using the provided file path
     for it, this is an expensive io driven operation, and must
     be used wth care */
-    process_passwd_file(auth_file, &passwd);
+    return_value = process_passwd_file(auth_file, &passwd);
+    if(IS_ERROR_CODE(return_value)) {
+        FREE(authorization_d);
+        RAISE_AGAIN(return_value);
+    }
 
     /* retrieves the password verification value for the
     retrieved username and in case it's valid compares it
-- 
2.43.0


From 4d3b8e871e74daa168a0bc9aed8ca602469e90e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:21 +0000
Subject: [PATCH 23/33] fix: passwd files with long users, repeated users or no
 last newline

---
 src/viriatum_commons/formats/passwd.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/viriatum_commons/formats/passwd.c b/src/viriatum_commons/formats/passwd.c
index 6bedccf..fd8dec0 100644
--- a/src/viriatum_commons/formats/passwd.c
+++ b/src/viriatum_commons/formats/passwd.c
@@ -56,6 +56,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     (static memory) as it's not going to be stored in map */
     char username[128];
     char *password;
+    char *previous;
 
     /* creates the "final" hash map that is going to be used to
     associated a username with a password and then allocates the
@@ -67,6 +68,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     provided path an in case an error occurs re-raises it */
     return_value = read_file(file_path, &buffer, &size);
     if(IS_ERROR_CODE(return_value)) {
+        delete_hash_map(passwd);
         RAISE_ERROR_F(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading file %s",
@@ -80,11 +82,12 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     state = PASSWD_USER;
 
     /* iterates over the buffer contents in its range to parse
-    it and populate the passwd hash map structure */
-    for(index = 0; index < size; index++) {
+    it and populate the passwd hash map structure, note that the
+    end of the buffer is also the end of the last line */
+    for(index = 0; index <= size; index++) {
         /* retrieves the current byte in iteration and the pointer
         address to the current buffer position */
-        current = buffer[index];
+        current = index < size ? buffer[index] : '\n';
         pointer = &buffer[index];
 
         /* switches over the current state to operate over the current
@@ -95,10 +98,14 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
                     case ':':
                     case '\n':
                         length = pointer - mark;
-                        memcpy(username, mark, length);
-                        username[length] = '\0';
                         mark = pointer + 1;
                         state = current == ':' ? PASSWD_PASSWORD : PASSWD_USER;
+                        if(length >= sizeof(username)) {
+                            state = current == ':' ? PASSWD_COMMENT : PASSWD_USER;
+                            break;
+                        }
+                        memcpy(username, pointer - length, length);
+                        username[length] = '\0';
                         break;
                 }
 
@@ -113,6 +120,12 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
                         memcpy(password, mark, length);
                         password[length] = '\0';
                         mark = pointer + 1;
+                        get_value_string_hash_map(
+                            passwd,
+                            (unsigned char *) username,
+                            (void **) &previous
+                        );
+                        if(previous != NULL) { FREE(previous); }
                         set_value_string_hash_map(
                             passwd,
                             (unsigned char *) username,
-- 
2.43.0


From d2b2a7bf2f4f3711c79a21b561a6f175e3f72376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:18 +0000
Subject: [PATCH 24/33] fix: not found messages and redirections of long paths
 overflowed their buffers

---
 src/viriatum/handlers/handler_file.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index d7f0e23..6d7a5aa 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -510,7 +510,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates space for the temporary buffer that will hold
     the description of the error to be sent to the client in case
     there is a problem (eg: file not found) */
-    char error_description[VIRIATUM_MAX_PATH_SIZE];
+    char error_description[VIRIATUM_MAX_PATH_SIZE + 32];
 
     /* allocates the space for the "read" result
     error code (valid by default) */
@@ -521,8 +521,9 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     unsigned char auth_result = TRUE;
 
     /* allocates the headers buffer (it will be releases automatically by the writter)
-    it need to be allocated in the heap so it gets throught the request cycle */
-    char *headers_buffer = MALLOC(VIRIATUM_HTTP_SIZE);
+    it need to be allocated in the heap so it gets throught the request cycle, note
+    that the location of a redirection must also fit in it */
+    char *headers_buffer = MALLOC(VIRIATUM_HTTP_SIZE + VIRIATUM_MAX_PATH_SIZE);
 
     /* retrieves the handler file context from the HTTP parser and uses
     it to retrieve the respective flags value */
@@ -713,7 +714,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         sends the error to the connection (with the current format) */
         SPRINTF(
             error_description,
-            VIRIATUM_MAX_PATH_SIZE,
+            sizeof(error_description),
             "File not found (%s)",
             handler_file_context->file_path_d
         );
@@ -764,7 +765,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         );
         SPRINTF(
             &headers_buffer[count],
-            VIRIATUM_HTTP_SIZE - count,
+            VIRIATUM_HTTP_SIZE + VIRIATUM_MAX_PATH_SIZE - count,
             CONTENT_LENGTH_H ": 0\r\n"
             LOCATION_H ": %s\r\n\r\n",
             location
-- 
2.43.0


From a372d864c49c42228841663b915e9f5b69072b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:50 +0000
Subject: [PATCH 25/33] fix: dispatch overflowed on long urls and used a
 location that did not match for index files

---
 src/viriatum/handlers/handler_dispatch.c | 39 +++++++++++++++++++-----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index d608614..9b9ef36 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -183,7 +183,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     int matching;
     size_t index;
     size_t _index;
-    size_t match_size;
+    size_t match_size = 0;
     size_t virtual_url_offset;
     int offsets[3] = { 0, 0, 0 };
     char regex_match = 0;
@@ -221,6 +221,15 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     and then uses it to calculate the size of the (base) path */
     char *pointer = (char *) memchr((char *) data, '?', data_size);
     size_t path_size = pointer == NULL ? data_size : pointer - (char *) data;
+    size_t query_size = data_size - path_size;
+
+    /* in case the url is so large that it would not be possible to store
+    it (together with an index file) no handler is selected for it, the
+    request is going to be answered by the current handler (as an error) */
+    if(data_size >= VIRIATUM_MAX_URL_SIZE - sizeof(options->index[0])) {
+        V_ERROR_F("Url with %ld bytes is too large\n", (long int) data_size);
+        RAISE_NO_ERROR;
+    }
 
     /* copies the memory from the data to the path (partial url),
     then puts the end of string in the path */
@@ -269,6 +278,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
         the selection of the index file as default is conditioned by the default
         index configuration option */
         if(handler->resolve_index && options->default_index
+            && sizeof(VIRIATUM_CONTENTS_PATH) + path_size + sizeof(options->index[0]) < VIRIATUM_MAX_PATH_SIZE
             && (path_size == 0 || path[path_size - 1] == '/')) {
             /* creates the base path from the viriatum contents path
             and the current provided path and then runs the file existence
@@ -297,6 +307,11 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
                 for the current request */
                 _index = index;
 
+                /* restores the default handler, to be used in case there's
+                no location matching the path of the index file */
+                handler_name = (unsigned char *) DISPATCH_DEFAULT_HANDLER;
+                regex_match = 0;
+
                 /* iterates over all the regular expressions so that they
                 may be tested agains the current path */
                 for(index = 0; index < dispatch_handler->regex_count; index++) {
@@ -320,6 +335,14 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             }
         }
 
+    } else {
+        /* prints an error message to the output */
+        V_ERROR_F("Error retrieving '%s' handler reference\n", handler_name);
+    }
+
+    /* runs the verification once again as the resolution of the
+    index file may have changed the handler of the request */
+    if(handler) {
         /* retrieves the current handler and then unsets it
         from the connection (detach) then sets the the proper
         handler in the connection and notifies it of the url */
@@ -340,8 +363,13 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             if the matched value starts with a slash value for such cases the
             offset to the virtual url must be reduced otherwise abnormal values
             to the url would be considered (creating additional path problems) */
-            virtual_url_offset = match_size > 0 && data[match_size - 1] == '/' ?\
+            virtual_url_offset = match_size > 0 && path[match_size - 1] == '/' ?\
                 match_size - 1 : match_size;
+
+            /* joins the (possibly resolved) path and the get parameters so
+            that the offset is always inside of the resulting url */
+            memcpy(base_path, path, path_size);
+            memcpy(&base_path[path_size], data + data_size - query_size, query_size);
             CALL_V(
                 http_connection->http_settings->on_location,
                 http_parser,
@@ -351,14 +379,11 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             CALL_V(
                 http_connection->http_settings->on_virtual_url,
                 http_parser,
-                data + virtual_url_offset,
-                data_size - virtual_url_offset
+                base_path + virtual_url_offset,
+                path_size + query_size - virtual_url_offset
             );
         }
 #endif
-    } else {
-        /* prints an error message to the output */
-        V_ERROR_F("Error retrieving '%s' handler reference\n", handler_name);
     }
 
     /* raise no error */
-- 
2.43.0


From 78df5a1ed9e123c457b06ef3702beae18ad582ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:10 +0000
Subject: [PATCH 26/33] fix: data handlers that close the connection crashed
 the read loop

---
 src/viriatum/stream/stream_io.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 4ff8eeb..d0f742b 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -305,6 +305,10 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
                 V_DEBUG("Finished calling on data handler\n");
             }
 
+            /* in case the connection has been closed by the data handler
+            there's nothing more to be read (io connection is released) */
+            if(connection->status == STATUS_CLOSED) { RAISE_NO_ERROR; }
+
             /* resets the buffer size to the original (initial)
             position so that it can be reused, note that both
             the buffer pointer and the buffer size are reseted */
@@ -320,7 +324,6 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             VIRIATUM_READ_SIZE,
             0
         );
-        connection->received += number_bytes;
 
         /* in case the number of bytes is zero (connection closed) */
         if(number_bytes == 0) {
@@ -374,6 +377,7 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
         buffer_pointer += number_bytes;
         buffer_size += number_bytes;
         total_bytes += number_bytes;
+        connection->received += number_bytes;
 
         /* in case the viriatum is set to blocking must break
         the loop, no more that one read operation is allowed */
@@ -404,15 +408,16 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             /* in case there's data pending to be processed must flush
             it even though there was a fatal error the data must be
             correctly processed by the underlying layer */
-            if(buffer_size > 0) {
+            if(buffer_size > 0 && io_connection->on_data != NULL) {
                 V_DEBUG("Calling on data handler\n");
                 io_connection->on_data(io_connection, buffer, buffer_size);
                 V_DEBUG("Finished calling on data handler\n");
             }
 
             /* closes the connection as the error was fatal, so this is the
-            best escape approach to solve the issue */
-            connection->close_connection(connection);
+            best escape approach to solve the issue (note that the data
+            handler may have already closed the connection) */
+            if(connection->status != STATUS_CLOSED) { connection->close_connection(connection); }
 
             /* breaks the switch */
             break;
@@ -486,7 +491,6 @@ ERROR_CODE write_handler_stream_io(struct connection_t *connection) {
             data->size,
             0
         );
-        connection->sent += number_bytes;
 
         /* in case there was an error receiving from the socket */
         if(SOCKET_TEST_ERROR(number_bytes)) {
@@ -534,6 +538,7 @@ ERROR_CODE write_handler_stream_io(struct connection_t *connection) {
 
         /* prints a debug message */
         V_DEBUG_F("Data [%d bytes] sent without errors\n", number_bytes);
+        connection->sent += number_bytes;
 
         /* in case the number of bytes sent is the same as the value size
         (not all data has been sent) */
-- 
2.43.0


From 96ebdc8ab951069ac8834274f530f920a0d891bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:22 +0000
Subject: [PATCH 27/33] fix: closed connections were used by pending operations
 and the event lists overflowed

---
 src/viriatum/polling/polling_epoll.c | 89 ++++++++++++++++++++++++----
 src/viriatum/polling/polling_epoll.h |  8 ++-
 2 files changed, 84 insertions(+), 13 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 6896c16..90b04bb 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -45,6 +45,8 @@ void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct
     polling_epoll->write_connections_size = 0;
     polling_epoll->error_connections_size = 0;
     polling_epoll->remove_connections_size = 0;
+    polling_epoll->remove_connections_capacity = 0;
+    polling_epoll->remove_connections = NULL;
     polling_epoll->read_outstanding_size = 0;
     polling_epoll->write_outstanding_size = 0;
 
@@ -64,6 +66,9 @@ void delete_polling_epoll(struct polling_epoll_t *polling_epoll) {
     in order to avoid any memory leak problem */
     if(polling_epoll->epoll_fd) { close(polling_epoll->epoll_fd); }
 
+    /* releases the list of connections to be removed */
+    if(polling_epoll->remove_connections) { FREE(polling_epoll->remove_connections); }
+
     /* releases the polling epoll */
     FREE(polling_epoll);
 }
@@ -152,6 +157,29 @@ ERROR_CODE register_connection_polling_epoll(struct polling_t *polling, struct c
     RAISE_NO_ERROR;
 }
 
+/**
+ * Removes a connection from a list of outstanding connections,
+ * so that it's not used after being closed (and deleted).
+ *
+ * @param outstanding The list of outstanding connections.
+ * @param size_pointer The pointer to the size of the list.
+ * @param connection The connection to be removed.
+ */
+static void _remove_outstanding_polling_epoll(
+    struct connection_t **outstanding,
+    size_t *size_pointer,
+    struct connection_t *connection
+) {
+    size_t index;
+    size_t size = 0;
+    for(index = 0; index < *size_pointer; index++) {
+        if(outstanding[index] == connection) { continue; }
+        outstanding[size] = outstanding[index];
+        size++;
+    }
+    *size_pointer = size;
+}
+
 ERROR_CODE unregister_connection_polling_epoll(
     struct polling_t *polling,
     struct connection_t *connection,
@@ -174,6 +202,38 @@ ERROR_CODE unregister_connection_polling_epoll(
         NULL
     );
 
+    /* removes the connection from the outstanding operations, as it's
+    not going to be available for the next poll iterations */
+    _remove_outstanding_polling_epoll(
+        polling_epoll->read_outstanding,
+        &polling_epoll->read_outstanding_size,
+        connection
+    );
+    _remove_outstanding_polling_epoll(
+        polling_epoll->write_outstanding,
+        &polling_epoll->write_outstanding_size,
+        connection
+    );
+
+    /* in case the remove connection flag is set the connection
+    is also added to the list of connections to be removed
+    after the io driven logic part is processed (at the end
+    of the logic loop) */
+    if(remove_c == TRUE) {
+        if(polling_epoll->remove_connections_size == polling_epoll->remove_connections_capacity) {
+            polling_epoll->remove_connections_capacity += VIRIATUM_MAX_EVENTS;
+            polling_epoll->remove_connections = (struct connection_t **) REALLOC(
+                (void *) polling_epoll->remove_connections,
+                polling_epoll->remove_connections_capacity * sizeof(struct connection_t *)
+            );
+        }
+        remove_connection(
+            polling_epoll->remove_connections,
+            &polling_epoll->remove_connections_size,
+            connection
+        );
+    }
+
     /* in case there was an error in epoll need to correctly
     handle it and propagate it to the caller */
     if(SOCKET_TEST_ERROR(result_code)) {
@@ -188,18 +248,6 @@ ERROR_CODE unregister_connection_polling_epoll(
         );
     }
 
-    /* in case the remove connection flag is set the connection
-    is also added to the list of connections to be removed
-    after the io driven logic part is processed (at the end
-    of the logic loop) */
-    if(remove_c == TRUE) {
-        remove_connection(
-            polling_epoll->remove_connections,
-            &polling_epoll->remove_connections_size,
-            connection
-        );
-    }
-
     /* decrements the counter that controls the number of events
     currently in the polling state in the epoll */
     polling_epoll->poll_count--;
@@ -316,6 +364,17 @@ ERROR_CODE register_write_polling_epoll(struct polling_t *polling, struct connec
         RAISE_NO_ERROR;
     }
 
+    /* in case there's no more space for outstanding connections asks
+    for a new event, to be triggered by the next poll operation */
+    _remove_outstanding_polling_epoll(
+        polling_epoll->write_outstanding,
+        &polling_epoll->write_outstanding_size,
+        connection
+    );
+    if(polling_epoll->write_outstanding_size == VIRIATUM_MAX_EVENTS) {
+        return register_read_polling_epoll(polling, connection);
+    }
+
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
     polling_epoll->write_outstanding[polling_epoll->write_outstanding_size] = connection;
@@ -340,6 +399,12 @@ ERROR_CODE add_outstanding_polling_epoll(struct polling_t *polling, struct conne
     read operations this request must be ignored */
     if(connection->is_outstanding == TRUE) { RAISE_NO_ERROR; }
 
+    /* in case there's no more space for outstanding connections asks
+    for a new event, to be triggered by the next poll operation */
+    if(polling_epoll->read_outstanding_size == VIRIATUM_MAX_EVENTS) {
+        return register_read_polling_epoll(polling, connection);
+    }
+
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
     polling_epoll->read_outstanding[polling_epoll->read_outstanding_size] = connection;
diff --git a/src/viriatum/polling/polling_epoll.h b/src/viriatum/polling/polling_epoll.h
index fc51160..76898ab 100644
--- a/src/viriatum/polling/polling_epoll.h
+++ b/src/viriatum/polling/polling_epoll.h
@@ -77,7 +77,13 @@ typedef struct polling_epoll_t {
      * to be house-kept (removed) at the end
      * of the polling cycle.
      */
-    struct connection_t *remove_connections[VIRIATUM_MAX_EVENTS];
+    struct connection_t **remove_connections;
+
+    /**
+     * The number of connections that the list of connections
+     * to be removed is currently able to hold.
+     */
+    size_t remove_connections_capacity;
 
     /**
      * The buffer that contains the various
-- 
2.43.0


From 59c649283bdd08686cad56fc398259180de54264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:31 +0000
Subject: [PATCH 28/33] fix: writing to a closed connection crashed

---
 src/viriatum/system/service.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 69b19c6..420afc1 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -1676,7 +1676,7 @@ ERROR_CODE write_connection_c(
     /* adds the file buffer to the write queue and then
     registers the connection for write in the next loop */
     append_value_linked_list(connection->write_queue, (void *) _data);
-    connection->register_write(connection);
+    CALL_V(connection->register_write, connection);
 
     /* prints a debug message about the data that is going
     to be sent through the socket */
-- 
2.43.0


From 221000716e307b41a7f5facff68e719ede83cf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:04 +0000
Subject: [PATCH 29/33] fix: the packing of the torrent handshake applied to
 every later structure

---
 src/viriatum/stream/stream_torrent.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/stream/stream_torrent.h b/src/viriatum/stream/stream_torrent.h
index 735e18c..b6dc7d3 100644
--- a/src/viriatum/stream/stream_torrent.h
+++ b/src/viriatum/stream/stream_torrent.h
@@ -60,7 +60,7 @@ typedef ERROR_CODE (*torrent_connection_update) (struct torrent_connection_t *to
  *
  * @see: http://www.bittorrent.org/beps/bep_0003.html
  */
-#pragma pack(1)
+#pragma pack(push, 1)
 typedef struct torrent_handshake_t {
     unsigned char torrent_size;
     char torrent_string[TORRENT_PROTOCOL_SIZE];
@@ -68,6 +68,7 @@ typedef struct torrent_handshake_t {
     unsigned char info_hash[20];
     unsigned char peer_id[20];
 } torrent_handshake;
+#pragma pack(pop)
 
 /**
  * Structure defining a logical
-- 
2.43.0


From 7a73baf612c7377f52884424d5ca93d7577b6bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:30 +0000
Subject: [PATCH 30/33] fix: the loop waited for events while operations were
 outstanding

---
 src/viriatum/polling/polling_epoll.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 90b04bb..34a065f 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -493,6 +493,11 @@ ERROR_CODE _poll_polling_epoll(
     int index;
     int event_count;
 
+    /* in case there are outstanding operations the wait must not
+    block, as there may be no more events to trigger them */
+    int is_outstanding = polling_epoll->read_outstanding_size > 0 ||\
+        polling_epoll->write_outstanding_size > 0;
+
     /* allocates space for the reference to the connection
     to be used in the iteration cycle (temporary object) */
     struct connection_t *connection;
@@ -520,14 +525,14 @@ ERROR_CODE _poll_polling_epoll(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        VIRIATUM_SELECT_TIMEOUT * 1000
+        is_outstanding ? 0 : VIRIATUM_SELECT_TIMEOUT * 1000
     );
 #else
     event_count = epoll_wait(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        -1
+        is_outstanding ? 0 : -1
     );
 #endif
 
-- 
2.43.0


From 33ce61e670d19813f77c7d3f44f6167a54503cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:33 +0000
Subject: [PATCH 31/33] fix: response headers and messages overflowed their
 buffer

---
 src/viriatum/http/http_util.c | 69 +++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 12 deletions(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 0c78bd5..30898dd 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -31,6 +31,27 @@
 
 #include <limits.h>
 
+/**
+ * Writes the formatted text at the end of what has been written
+ * to the buffer, limited to the size of it.
+ *
+ * @param buffer The buffer to be written.
+ * @param size The size (in bytes) of the buffer.
+ * @param count The number of bytes already in the buffer.
+ * @param format The format of the text to be written.
+ * @return The number of bytes in the buffer after the writing.
+ */
+static size_t _write_http(char *buffer, size_t size, size_t count, const char *format, ...) {
+    int result;
+    va_list arguments;
+    if(count >= size) { return count; }
+    va_start(arguments, format);
+    result = vsnprintf(&buffer[count], size - count, format, arguments);
+    va_end(arguments);
+    if(result < 0) { return count; }
+    return (size_t) result < size - count ? count + (size_t) result : size - 1;
+}
+
 size_t write_http_headers(
     struct connection_t *connection,
     char *buffer, size_t size,
@@ -44,9 +65,10 @@ size_t write_http_headers(
     into this buffer uses the most of static structures possible in order
     to accelerate the writing speed at the end of the writing the number
     of written bytes is retrieved as the count value */
-    size_t count = SPRINTF(
+    size_t count = _write_http(
         buffer,
         size,
+        0,
         "%s %d %s\r\n"
         CONNECTION_H ": %s\r\n"
         SERVER_H ": %s\r\n"
@@ -87,9 +109,10 @@ size_t write_http_headers_c(
         keep_alive,
         FALSE
     );
-    count += SPRINTF(
-        &buffer[count],
-        size - count,
+    count = _write_http(
+        buffer,
+        size,
+        count,
         CONTENT_LENGTH_H ": %lu\r\n"
         CACHE_CONTROL_H ": %s\r\n"
         "%s",
@@ -128,9 +151,10 @@ size_t write_http_headers_a(
         keep_alive,
         FALSE
     );
-    count += SPRINTF(
-        &buffer[count],
-        size - count,
+    count = _write_http(
+        buffer,
+        size,
+        count,
         CONTENT_LENGTH_H ": %lu\r\n"
         CACHE_CONTROL_H ": %s\r\n"
         WWW_AUTHENTICATE_H ": Basic realm=\"%s\"\r\n"
@@ -172,7 +196,26 @@ size_t write_http_headers_m(
         cache,
         TRUE
     );
-    memcpy(&buffer[count], message, content_length + 1);
+
+    /* in case the message does not fit the buffer it's truncated, the
+    announced length must be the one of the part that is written */
+    if(content_length > size - count - 1) {
+        content_length = size - count - 1;
+        count = write_http_headers_c(
+            connection,
+            buffer,
+            size,
+            version,
+            status_code,
+            status_message,
+            keep_alive,
+            content_length,
+            cache,
+            TRUE
+        );
+    }
+    memcpy(&buffer[count], message, content_length);
+    buffer[count + content_length] = '\0';
 
     /* returns the number of bytes written into the buffer */
     return count;
@@ -191,8 +234,9 @@ ERROR_CODE write_http_message(
 ) {
     /* allocates the headers buffer (it will be releases automatically by the writter)
     it need to be allocated in the heap so it gets throught the request cycle */
-    char *headers_buffer = buffer == NULL ? MALLOC(VIRIATUM_HTTP_SIZE) : buffer;
-    size = size == 0 ? VIRIATUM_HTTP_SIZE : size;
+    size_t headers_size = VIRIATUM_HTTP_SIZE + strlen(message);
+    char *headers_buffer = buffer == NULL ? MALLOC(headers_size) : buffer;
+    size = buffer == NULL ? headers_size : size == 0 ? VIRIATUM_HTTP_SIZE : size;
 
     /* writes the http static headers to the response and
     then writes the error description itself */
@@ -288,7 +332,7 @@ ERROR_CODE write_http_error_a(
     /* allocates the headers buffer (it will be releases automatically by the writter)
     it need to be allocated in the heap so it gets throught the request cycle */
     char *headers_buffer = buffer == NULL ? MALLOC(VIRIATUM_HTTP_SIZE) : buffer;
-    size = size == 0 ? VIRIATUM_HTTP_SIZE : size;
+    size = buffer == NULL || size == 0 ? VIRIATUM_HTTP_SIZE : size;
 
 #ifndef VIRIATUM_DEBUG
     /* sets the error description as null in order to avoid any
@@ -389,9 +433,10 @@ ERROR_CODE write_http_error_a(
         string in order to be correctly displayed then formats the error
         message using the code, message and description */
         error_description = error_description == NULL ? (char *) service->description : error_description;
-        SPRINTF(
+        _write_http(
             _error_description,
             sizeof(_error_description),
+            0,
             "%d - %s - %s",
             error_code,
             error_message,
-- 
2.43.0


From 7fd11ef89c79f8e280dc09aac4216e3ec315afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:05 +0000
Subject: [PATCH 32/33] fix: file errors were not reported or leaked the file

---
 src/viriatum_commons/io/file.c | 54 +++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 0a1e0a3..71737e0 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -93,23 +93,34 @@ ERROR_CODE read_file(char *file_path, unsigned char **buffer_pointer, size_t *fi
     file_size = ftell(file);
     fseek(file, 0, SEEK_SET);
 
+    /* in case the size of the file could not be determined closes
+    the file and raises an error */
+    if(file_size == (size_t) -1) {
+        fclose(file);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem reading from file"
+        );
+    }
+
     /* allocates space for the file buffer and then stores the
     complete set of contents from the file in it */
     file_buffer = (unsigned char *) MALLOC(file_size);
-    number_bytes = fread(file_buffer, 1, file_size, file);
+    number_bytes = file_buffer == NULL ? 0 : fread(file_buffer, 1, file_size, file);
+
+    /* closes the file to avoid any memory leak */
+    fclose(file);
 
     /* in case the number of read bytes is not the
     same as the total bytes in file (error) */
     if(number_bytes != file_size) {
+        FREE(file_buffer);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading from file"
         );
     }
 
-    /* closes the file to avoid any memory leak */
-    fclose(file);
-
     /* updates both the buffer and file size pointers from
     the provider values (output variables) */
     *buffer_pointer = file_buffer;
@@ -123,6 +134,11 @@ ERROR_CODE write_file(char *file_path, unsigned char *buffer, size_t buffer_size
     /* allocates space for the file */
     FILE *file;
 
+    /* allocates space for the number of bytes and for
+    the result of the closing of the file */
+    size_t number_bytes;
+    int result;
+
     /* ensures that the file path is correctly converted
     into the proper system path, through encoding conversion */
     SYSTEM_PATH(file_path);
@@ -131,8 +147,23 @@ ERROR_CODE write_file(char *file_path, unsigned char *buffer, size_t buffer_size
     from the provided buffer into it and closes the file to avoid
     any memory leaks */
     FOPEN(&file, file_path, "wb");
-    fwrite(buffer, sizeof(char), buffer_size, file);
-    fclose(file);
+    if(file == NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem opening file"
+        );
+    }
+    number_bytes = fwrite(buffer, sizeof(char), buffer_size, file);
+    result = fclose(file);
+
+    /* in case not all of the contents were written to the file
+    (error) the closing also writes pending contents */
+    if(number_bytes != buffer_size || result != 0) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem writing to file"
+        );
+    }
 
     /* raise no error */
     RAISE_NO_ERROR;
@@ -168,6 +199,15 @@ ERROR_CODE count_file(char *file_path, size_t *file_size_pointer) {
     file_size = ftell(file);
     fclose(file);
 
+    /* in case the size of the file could not be determined
+    must raise an error */
+    if(file_size == (size_t) -1) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem reading from file"
+        );
+    }
+
     /* sets the file size as the file size pointer */
     *file_size_pointer = file_size;
 
@@ -395,7 +435,7 @@ ERROR_CODE join_path_file(char *base_path, char *name, char *joined_path) {
 
     /* in case the base path ends with the separator
     (no need to add the extra separator)*/
-    if(base_path[base_path_length - 1] == '/') {
+    if(base_path_length > 0 && base_path[base_path_length - 1] == '/') {
         /* adds the name part to the joined path */
         memcpy(joined_path + base_path_length, name, name_length + 1);
     }
-- 
2.43.0


From bf034d4bec66a9ea54eeab81603b019d95def689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:38 +0000
Subject: [PATCH 33/33] fix: text helpers read or wrote outside of the text

---
 src/viriatum_commons/util/string_util.h | 82 +++++++++++--------------
 1 file changed, 37 insertions(+), 45 deletions(-)

diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index b9217d2..daeb4d4 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -56,12 +56,10 @@ static __inline unsigned char *base_string_value(unsigned char *string_value) {
     for(index = string_value_length; index > 0; index--) {
         /* retrieves the current character and in cas the value
         is either a slash or a back slash breaks the loop (target found) */
-        current_character = string_value[index];
+        current_character = string_value[index - 1];
         if(current_character == '\\' || current_character == '/') {
-            /* increments the index in order to set the apropriate
-            pointer value (need to point to the next chracter after
-            the slash) and then breaks the loop */
-            index += 1;
+            /* breaks the loop as the index is already the one of
+            the next character after the slash */
             break;
         }
     }
@@ -141,7 +139,8 @@ static __inline void normalize_path(char *string_value) {
 }
 
 static __inline char *extension_path(char *string_value) {
-    size_t index = strlen(string_value) - 1;
+    size_t length = strlen(string_value);
+    size_t index = length == 0 ? 0 : length - 1;
     while(string_value[index] != '.' && index != 0) { index--; }
     return &string_value[index];
 }
@@ -199,12 +198,11 @@ static __inline size_t trailing_size(char *buffer, size_t size) {
     char byte;
     char *_pointer = buffer + size - 1;
 
-    while(TRUE) {
+    while(size > 0) {
         byte = *_pointer;
         if(byte != ' ') { break; }
         _pointer--;
         size--;
-        if(size == 0) { break; }
     }
 
     return size;
@@ -215,12 +213,11 @@ static __inline size_t leading_offset(char *buffer, size_t size) {
     size_t _size = 0;
     char *_pointer = buffer;
 
-    while(TRUE) {
+    while(_size < size) {
         byte = *_pointer;
         if(byte != ' ') { break; }
         _pointer++;
         _size++;
-        if(_size == size) { break; }
     }
 
     return _size;
@@ -252,6 +249,7 @@ static __inline size_t split(char *string_value, char *buffer, size_t size_e, ch
             of index and then copies the string from one memory
             buffer to the other over the calculated size */
             size = index - _index;
+            size = size < size_e ? size : size_e - 1;
             memcpy(buffer, &string_value[_index], size);
             buffer[size] = '\0';
 
@@ -271,6 +269,7 @@ static __inline size_t split(char *string_value, char *buffer, size_t size_e, ch
             of index and then copies the string from one memory
             buffer to the other over the calculated size */
             size = index - _index;
+            size = size < size_e ? size : size_e - 1;
             memcpy(buffer, &string_value[_index], size);
             buffer[size] = '\0';
 
@@ -292,6 +291,14 @@ static __inline size_t split(char *string_value, char *buffer, size_t size_e, ch
     return count;
 }
 
+static __inline size_t format_delta_part(char *buffer, size_t size, size_t count, char *format, unsigned long long value) {
+    int result;
+    if(count + 1 >= size) { return count; }
+    result = snprintf(&buffer[count], size - count, format, value);
+    if(result < 0) { return count; }
+    return (size_t) result < size - count ? count + (size_t) result : size - 1;
+}
+
 static __inline size_t format_delta(char *buffer, size_t size, unsigned long long delta, size_t counts) {
     char *format;
     unsigned long long value;
@@ -299,78 +306,63 @@ static __inline size_t format_delta(char *buffer, size_t size, unsigned long lon
     size_t counter = 0;
     char valid = FALSE;
 
+    /* in case there's nothing to be written, returns an empty string */
+    if(size == 0) { return count; }
+    buffer[0] = '\0';
+    if(counts == 0) { return count; }
+
     value = delta / 86400;
     if(value > 0) {
-        if(value == 1) { format = "%d day "; }
-        else { format = "%d days "; }
+        if(value == 1) { format = "%llu day "; }
+        else { format = "%llu days "; }
 
-        count += SPRINTF(
-            &buffer[count],
-            size,
-            format,
-            value
-        );
+        count = format_delta_part(buffer, size, count, format, value);
         counter++;
         valid = TRUE;
     }
 
     if(counter == counts) {
-        buffer[count - 1] = '\0';
+        if(count > 0) { buffer[count - 1] = '\0'; }
         return count;
     }
 
     value = (delta % 86400) / 3600;
     if(valid || value > 0) {
-        if(value == 1) { format = "%d hour "; }
-        else { format = "%d hours "; }
+        if(value == 1) { format = "%llu hour "; }
+        else { format = "%llu hours "; }
 
-        count += SPRINTF(
-            &buffer[count],
-            size,
-            format,
-            value
-        );
+        count = format_delta_part(buffer, size, count, format, value);
         counter++;
         valid = TRUE;
     }
 
     if(counter == counts) {
-        buffer[count - 1] = '\0';
+        if(count > 0) { buffer[count - 1] = '\0'; }
         return count;
     }
 
     value = (delta % 3600) / 60;
     if(valid || value > 0) {
-        if(value == 1) { format = "%d minute "; }
-        else { format = "%d minutes "; }
+        if(value == 1) { format = "%llu minute "; }
+        else { format = "%llu minutes "; }
 
-        count += SPRINTF(
-            &buffer[count],
-            size,
-            format,
-            value
-        );
+        count = format_delta_part(buffer, size, count, format, value);
         counter++;
         valid = TRUE;
     }
 
     if(counter == counts) {
-        buffer[count - 1] = '\0';
+        if(count > 0) { buffer[count - 1] = '\0'; }
         return count;
     }
 
     valid = TRUE;
     value = delta % 60;
     if(valid) {
-        if(value == 1) { format = "%d second "; }
-        else { format = "%d seconds "; }
+        if(value == 1) { format = "%llu second "; }
+        else { format = "%llu seconds "; }
 
-        count += SPRINTF(
-            &buffer[count],
-            size,
-            format,
-            value
-        );
+        count = format_delta_part(buffer, size, count, format, value);
         counter++;
         valid = TRUE;
     }
-- 
2.43.0

