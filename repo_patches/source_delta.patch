From fc69712d8180a38f77321f2dcffc7ac3d3045e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 01/58] fix: no collective MPI operation in a server's
 checkpoint

Servers checkpoint at different times (orderly close with fewer clients than
servers, timer, request of a client). MPI_Reduce in PDC_Server_checkpoint made
one server wait for others which were waiting for requests.
---
 src/server/pdc_server.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index d73fd9b..0e8cf91 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1410,15 +1410,6 @@ PDC_Server_checkpoint()
     checkpoint_time_rank = PDC_get_elapsed_time_double(&pdc_timer_start, &pdc_timer_end_rank);
 #endif
 
-    int all_metadata_size, all_region_count;
-#ifdef ENABLE_MPI
-    MPI_Reduce(&metadata_size, &all_metadata_size, 1, MPI_INT, MPI_SUM, 0, MPI_COMM_WORLD);
-    MPI_Reduce(&region_count, &all_region_count, 1, MPI_INT, MPI_SUM, 0, MPI_COMM_WORLD);
-#else
-    all_metadata_size = metadata_size;
-    all_region_count  = region_count;
-#endif
-
 #ifdef PDC_TIMING
     printf("==PDC_SERVER[%4d]: checkpointed %10d objects, with %10d regions, took %7.2fs\n",
            pdc_server_rank_g, metadata_size, region_count, checkpoint_time_rank);
@@ -1432,8 +1423,10 @@ PDC_Server_checkpoint()
 #endif
 
     if (pdc_server_rank_g == 0) {
-        printf("==PDC_SERVER[ ALL]: checkpointed %10d objects, with %10d regions \n", all_metadata_size,
-               all_region_count);
+        // Servers checkpoint independently of each other (at close, by timer, or on a client's request), so
+        // there must be no collective communication here
+        printf("==PDC_SERVER[%4d]: checkpointed %10d objects, with %10d regions \n", pdc_server_rank_g,
+               metadata_size, region_count);
         fflush(stdout);
     }
 
-- 
2.43.0


From 7013d39c609b4f6c483e004ef6f2c252efcda084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 02/58] fix: metadata query buffer too small for a read of an
 object never written

Every request gets a counter in the buffer, but only the ones of known objects
were included in its size.
---
 .../pdc_server_region_transfer_metadata_query.c                 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 4e41132..e54d882 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -287,6 +287,8 @@ metadata_query_buf_create(pdc_obj_region_metadata *regions, int size, uint64_t *
                                                  (sizeof(uint32_t) + sizeof(uint64_t) * regions[i].ndim * 2);
         }
         else {
+            // The counter of this request (zero) is written to the buffer nevertheless
+            total_data_size += sizeof(int);
             printf("metadata_query_buf_create: Unable to find the object with ID %lu\n",
                    (long int)regions[i].obj_id);
         }
-- 
2.43.0


From a9ca1ac4591d5eac02d02ecba9e7fdb1833edc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 03/58] fix: checkpoint and restore the placement of written
 regions

The checkpoint held the value of a pointer and the memory next to it instead of
the offsets and sizes; the restart allocated too few bytes per object, left the
list of objects unterminated and linked only one region per object.
---
 .../pdc_server_region_transfer_metadata_query.c        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index e54d882..fa7ea5a 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -79,14 +79,15 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
         for (i = 0; i < n_objs; ++i) {
             if (metadata_server_objs) {
                 metadata_server_objs_end->next =
-                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs_end->next;
             }
             else {
-                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs;
             }
 
+            metadata_server_objs_end->next   = NULL;
             metadata_server_objs_end->obj_id = *(uint64_t *)ptr;
             ptr += sizeof(uint64_t);
             metadata_server_objs_end->ndim = *(int *)ptr;
@@ -110,7 +111,7 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
             ptr += sizeof(uint64_t) * metadata_server_objs_end->ndim * 2;
 
             for (j = 1; j < reg_count; ++j) {
-                metadata_server_objs_end->regions->next =
+                metadata_server_objs_end->regions_end->next =
                     (pdc_region_metadata_pkg *)malloc(sizeof(pdc_region_metadata_pkg));
                 metadata_server_objs_end->regions_end = metadata_server_objs_end->regions_end->next;
 
@@ -226,7 +227,8 @@ transfer_request_metadata_query_checkpoint(char **checkpoint, uint64_t *checkpoi
         while (region_temp) {
             memcpy(ptr, &(region_temp->data_server_id), sizeof(uint32_t));
             ptr += sizeof(uint32_t);
-            memcpy(ptr, &(region_temp->reg_offset), sizeof(uint64_t) * obj_temp->ndim * 2);
+            // offset and size are contiguous in memory
+            memcpy(ptr, region_temp->reg_offset, sizeof(uint64_t) * obj_temp->ndim * 2);
             ptr += sizeof(uint64_t) * obj_temp->ndim * 2;
             region_temp = region_temp->next;
         }
-- 
2.43.0


From f444a9f41942f6f1849361f9509543d824c7826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 04/58] fix: a write must update every cached region it
 overlaps

The scan stopped at the first cached region that contains the new one, and
forgot about containment when a later region did not contain it. Other cached
regions kept the previous data and returned or flushed it later.
---
 .../pdc_server_region/pdc_server_region_cache.c      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 40564e7..3ef2d47 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -560,23 +560,21 @@ PDC_transfer_request_data_write_out(uint64_t obj_id, int obj_ndim, const uint64_
         // data.
         region_cache_iter = obj_cache->region_cache;
         while (region_cache_iter != NULL) {
-            flag = 0;
             PDC_region_overlap_detect(region_info->ndim, region_info->offset, region_info->size,
                                       region_cache_iter->region_cache_info->offset,
                                       region_cache_iter->region_cache_info->size, &overlap_offset,
                                       &overlap_size);
             if (overlap_offset) {
-                flag = detect_region_contained(region_info->offset, region_info->size,
-                                               region_cache_iter->region_cache_info->offset,
-                                               region_cache_iter->region_cache_info->size, region_info->ndim);
+                if (detect_region_contained(region_info->offset, region_info->size,
+                                            region_cache_iter->region_cache_info->offset,
+                                            region_cache_iter->region_cache_info->size, region_info->ndim))
+                    flag = 1;
                 memcpy_overlap_subregion(
                     region_info->ndim, unit, buf, region_info->offset, region_info->size,
                     region_cache_iter->region_cache_info->buf, region_cache_iter->region_cache_info->offset,
                     region_cache_iter->region_cache_info->size, overlap_offset, overlap_size);
                 free(overlap_offset);
-                if (flag) {
-                    break;
-                }
+                // Continue, cached regions can overlap and all of them must have the new data.
             }
             /*
              else {
-- 
2.43.0


From 37aa1a817610f518fb5467c7fcfaf76471e64023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 05/58] fix: use after free of an object's cache entry when the
 server cache is full

PDC_region_cache_flush_all frees the entry whose timestamp was set afterwards.
---
 src/server/pdc_server_region/pdc_server_region_cache.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 3ef2d47..0b1646b 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -471,6 +471,7 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     memcpy(region_cache_info->size, size, sizeof(uint64_t) * ndim);
     memcpy(region_cache_info->buf, buf, sizeof(char) * buf_size);
     total_cache_size += buf_size;
+    gettimeofday(&(obj_cache->timestamp), NULL);
 
     pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
 
@@ -485,9 +486,7 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     }
 
     // printf("created cache region at offset %llu, buf size %llu, unit = %ld, ndim = %ld, obj_id = %llu\n",
-    //       offset[0], buf_size, unit, ndim, (long long unsigned)obj_cache->obj_id);
-
-    gettimeofday(&(obj_cache->timestamp), NULL);
+    //       offset[0], buf_size, unit, ndim, (long long unsigned)obj_id);
 
     return 0;
 }
-- 
2.43.0


From a48d9b8afafdaded8f7abd1a936edcbba7bfb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 06/58] fix: a read that overlaps no written region crashed or
 corrupted the client's requests

---
 src/api/pdc_region/pdc_region_transfer.c | 99 +++++++++++++-----------
 1 file changed, 54 insertions(+), 45 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index ee4e48c..8c3ab50 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -631,9 +631,23 @@ pack_region_metadata_query(pdc_transfer_request_start_all_pkg **transfer_request
     FUNC_LEAVE(ret_value);
 }
 
+/*
+ * Allocate what a request needs once we know the number of regions that it accesses. This number can be zero.
+ */
+static void
+set_region_partitions(pdc_transfer_request *transfer_request, int n_obj_servers)
+{
+    transfer_request->n_obj_servers  = n_obj_servers;
+    transfer_request->output_offsets = (uint64_t **)malloc(sizeof(uint64_t *) * n_obj_servers);
+    transfer_request->output_sizes   = (uint64_t **)malloc(sizeof(uint64_t *) * n_obj_servers);
+    transfer_request->sub_offsets    = (uint64_t **)malloc(sizeof(uint64_t *) * n_obj_servers);
+    transfer_request->obj_servers    = (uint32_t *)malloc(sizeof(uint32_t) * n_obj_servers);
+    set_obj_server_bufs(transfer_request);
+}
+
 static perr_t
 unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **transfer_request_input,
-                             pdc_transfer_request_start_all_pkg **transfer_request_head_ptr,
+                             int n_objs, pdc_transfer_request_start_all_pkg **transfer_request_head_ptr,
                              pdc_transfer_request_start_all_pkg **transfer_request_end_ptr, int *size_ptr)
 {
     perr_t                              ret_value = SUCCEED;
@@ -655,8 +669,16 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
     ptr += sizeof(int);
     // printf("unpack_region_metadata_query: received %d obj partitions\n", size);
     counter = 0;
-    index   = 0;
+    index   = -1;
     for (i = 0; i < size; ++i) {
+        // Every request has a counter, which is zero if the request does not overlap any region.
+        while (!counter) {
+            index++;
+            local_request = transfer_request_input[index]->transfer_request;
+            counter       = *(int *)ptr;
+            ptr += sizeof(int);
+            set_region_partitions(local_request, counter);
+        }
         if (transfer_request_head) {
             transfer_request_end->next =
                 (pdc_transfer_request_start_all_pkg *)malloc(sizeof(pdc_transfer_request_start_all_pkg));
@@ -667,23 +689,6 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
                 (pdc_transfer_request_start_all_pkg *)malloc(sizeof(pdc_transfer_request_start_all_pkg));
             transfer_request_end = transfer_request_head;
         }
-        // Obj ID + Obj dim + region offset + region size
-        if (!counter) {
-            counter = *(int *)ptr;
-            ptr += sizeof(int);
-            local_request                = transfer_request_input[index]->transfer_request;
-            local_request->n_obj_servers = counter;
-            local_request->output_offsets =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->output_sizes =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->sub_offsets =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->obj_servers = (uint32_t *)malloc(sizeof(uint32_t) * local_request->n_obj_servers);
-            // printf("unpack_region_metadata_query: checkpoint %d, local_request = %llu, index = %d\n",
-            // __LINE__, (long long unsigned) local_request, index);
-            set_obj_server_bufs(local_request);
-        }
         transfer_request_end->next             = NULL;
         transfer_request_end->transfer_request = local_request;
         transfer_request_end->data_server_id   = *(uint32_t *)ptr;
@@ -734,11 +739,12 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
                              transfer_request_end->remote_size);
         }
         counter--;
-        if (!counter) {
-            index++;
-        }
         // printf("unpack_region_metadata_query: @ line %d\n", __LINE__);
     }
+    // The remaining requests do not overlap any region.
+    for (index = index + 1; index < n_objs; ++index) {
+        set_region_partitions(transfer_request_input[index]->transfer_request, 0);
+    }
 
     *transfer_request_head_ptr = transfer_request_head;
     *transfer_request_end_ptr  = transfer_request_end;
@@ -808,17 +814,19 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                     output_buf, output_buf_size, query_id,
                     transfer_requests[index]->transfer_request->metadata_server_id);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-                unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
-                                             &transfer_request_end, &output_size);
+                unpack_region_metadata_query(output_buf, transfer_requests + index, n_objs,
+                                             &transfer_request_head, &transfer_request_end, &output_size);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
                 free(output_buf);
-                if (transfer_request_front_head) {
-                    previous->next = transfer_request_head;
-                }
-                else {
-                    transfer_request_front_head = transfer_request_head;
+                if (transfer_request_head) {
+                    if (transfer_request_front_head) {
+                        previous->next = transfer_request_head;
+                    }
+                    else {
+                        transfer_request_front_head = transfer_request_head;
+                    }
+                    previous = transfer_request_end;
                 }
-                previous = transfer_request_end;
             }
             index = i;
         }
@@ -847,21 +855,24 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                 output_buf, output_buf_size, query_id,
                 transfer_requests[index]->transfer_request->metadata_server_id);
             // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-            unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
-                                         &transfer_request_end, &output_size);
+            unpack_region_metadata_query(output_buf, transfer_requests + index, n_objs,
+                                         &transfer_request_head, &transfer_request_end, &output_size);
             // fprintf(stderr, "register_metadata: output_size = %d, checkpoint %d\n", output_size, __LINE__);
             free(output_buf);
-            if (transfer_request_front_head) {
-                previous->next = transfer_request_head;
-            }
-            else {
-                transfer_request_front_head = transfer_request_head;
+            if (transfer_request_head) {
+                if (transfer_request_front_head) {
+                    previous->next = transfer_request_head;
+                }
+                else {
+                    transfer_request_front_head = transfer_request_head;
+                }
+                previous = transfer_request_end;
             }
-            previous = transfer_request_end;
         }
     }
 
-    if (output_size) {
+    // The output is empty if no request overlaps any region.
+    if (size) {
         transfer_request_output = (pdc_transfer_request_start_all_pkg **)malloc(
             sizeof(pdc_transfer_request_start_all_pkg *) * (output_size + remain_size));
         transfer_request_head = transfer_request_front_head;
@@ -1104,12 +1115,8 @@ finish_start_all_requests(pdc_transfer_request_start_all_pkg **write_transfer_re
     }
     // MPI_Barrier(MPI_COMM_WORLD);
     // fprintf(stderr, "checkpoint %d\n", __LINE__);
-    if (write_size) {
-        free(write_transfer_request);
-    }
-    if (read_size) {
-        free(read_transfer_request);
-    }
+    free(write_transfer_request);
+    free(read_transfer_request);
     return 0;
 }
 
@@ -1605,6 +1612,8 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
         if (transfer_request->region_partition == PDC_REGION_STATIC ||
             transfer_request->region_partition == PDC_REGION_DYNAMIC ||
             transfer_request->region_partition == PDC_REGION_LOCAL) {
+            // There is nothing to wait for if the region does not overlap any region written.
+            *completed = PDC_TRANSFER_STATUS_COMPLETE;
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
                 ret_value = PDC_Client_transfer_request_status(transfer_request->metadata_id[i],
                                                                transfer_request->obj_servers[i], completed);
-- 
2.43.0


From 52b52152f292d82ef6fcf621db921aa0a80dba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 07/58] fix: a write inside a stored region failed if it was
 far from the region's start

---
 src/server/pdc_server_region/pdc_server_data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 9b3ae5b..92edf2e 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -4789,9 +4789,9 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
             if (region_info->ndim == 1) {
                 // 1D can overwrite data in region directly
                 pos = (overlap_offset[0] - overlap_region->start[0]) * unit;
-                if (pos > write_size) {
+                if (pos > overlap_region->data_size) {
                     printf("==PDC_SERVER[%d]: Error with buf pos calculation %llu / %llu! @ line %d\n",
-                           pdc_server_rank_g, pos, write_size, __LINE__);
+                           pdc_server_rank_g, pos, (long long unsigned)overlap_region->data_size, __LINE__);
                     ret_value = -1;
                     goto done;
                 }
-- 
2.43.0


From ab19d6fc9017ccdb5816b9f68a746df7dae3cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 08/58] fix: merging overlapping cached regions copied the
 wrong bytes

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 0b1646b..6def3b2 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -651,7 +651,8 @@ merge_requests(uint64_t *start, uint64_t *end, int request_size, char **buf, uin
         }
         else {
             if (end[i] > new_end[0][index]) {
-                memcpy(ptr, buf[i] + new_end[0][index] - start[i], (end[i] - new_end[0][index]) * unit);
+                memcpy(ptr, buf[i] + (new_end[0][index] - start[i]) * unit,
+                       (end[i] - new_end[0][index]) * unit);
                 ptr += (end[i] - new_end[0][index]) * unit;
                 new_end[0][index] = end[i];
             }
-- 
2.43.0


From 748a583c2d579217504a4b1a7107d80bc7860a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 09/58] fix: static region partition sent empty regions to
 servers without a part of the object

---
 src/api/pdc_region/pdc_region_transfer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 8c3ab50..33fd5ab 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -441,6 +441,10 @@ static_region_partition(char *buf, int ndim, uint64_t unit, pdc_access_t access_
             static_offset = x * s + (i - x) * (s + 1);
             static_size   = s + 1;
         }
+        // Dimensions smaller than the number of servers leave some servers without any part of the object.
+        if (!static_size) {
+            continue;
+        }
         // printf("static offset = %lu, static_size = %lu, offset = %lu, size = %lu\n", (long
         // unsigned)static_offset, (long unsigned)static_size, (long unsigned)offset[split_dim], (long
         // unsigned)size[split_dim]);
-- 
2.43.0


From 483e5fb857e5b231e319b4950fc4cb6b4a0a9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 10/58] fix: closing an object with outstanding transfers
 walked its freed request list

---
 src/api/pdc_obj/pdc_obj.c                | 13 +++++++++----
 src/api/pdc_region/pdc_region_transfer.c |  2 ++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 9b307e5..4618b50 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -393,12 +393,13 @@ PDC_obj_close(struct _pdc_obj_info *op)
     perr_t                      ret_value = SUCCEED;
     pdcid_t *                   transfer_request_id;
     pdc_local_transfer_request *temp, *previous;
-    int                         i;
+    int                         i, n;
 
     FUNC_ENTER(NULL);
 
     if (op->local_transfer_request_size) {
-        transfer_request_id = (pdcid_t *)malloc(sizeof(pdcid_t) * op->local_transfer_request_size);
+        n                   = op->local_transfer_request_size;
+        transfer_request_id = (pdcid_t *)malloc(sizeof(pdcid_t) * n);
         temp                = op->local_transfer_request_head;
         i                   = 0;
         while (temp != NULL) {
@@ -408,8 +409,12 @@ PDC_obj_close(struct _pdc_obj_info *op)
             free(previous);
             ++i;
         }
-        PDCregion_transfer_wait_all(transfer_request_id, op->local_transfer_request_size);
-        for (i = 0; i < op->local_transfer_request_size; ++i) {
+        // The wait below detaches each request from this object, the list must not be used any more.
+        op->local_transfer_request_head = NULL;
+        op->local_transfer_request_end  = NULL;
+        op->local_transfer_request_size = 0;
+        PDCregion_transfer_wait_all(transfer_request_id, n);
+        for (i = 0; i < n; ++i) {
             PDCregion_transfer_close(transfer_request_id[i]);
         }
         free(transfer_request_id);
diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 33fd5ab..9954f2a 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -366,6 +366,8 @@ remove_local_transfer_request(struct _pdc_obj_info *p, pdcid_t transfer_request_
             else {
                 // Not the first element, just take the current element away.
                 previous->next = temp->next;
+                if (temp == p->local_transfer_request_end)
+                    p->local_transfer_request_end = previous;
                 free(temp);
             }
             p->local_transfer_request_size--;
-- 
2.43.0


From 75ce8b909d22c7d45b124e7d80ae0d5f70c2312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 11/58] fix: polling the status of a transfer spread over
 several servers lost its completion

---
 src/api/pdc_region/pdc_region_transfer.c                     | 5 +++++
 .../pdc_server_region/pdc_server_region_request_handler.h    | 2 --
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 9954f2a..e4a169c 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1621,11 +1621,16 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
             // There is nothing to wait for if the region does not overlap any region written.
             *completed = PDC_TRANSFER_STATUS_COMPLETE;
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
+                // A server forgets a request once it has reported it complete, so it is asked only once.
+                if (transfer_request->metadata_id[i] == 0) {
+                    continue;
+                }
                 ret_value = PDC_Client_transfer_request_status(transfer_request->metadata_id[i],
                                                                transfer_request->obj_servers[i], completed);
                 if (*completed != PDC_TRANSFER_STATUS_COMPLETE) {
                     goto done;
                 }
+                transfer_request->metadata_id[i] = 0;
             }
             // If we reach here, then all transfers are finished.
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
diff --git a/src/server/pdc_server_region/pdc_server_region_request_handler.h b/src/server/pdc_server_region/pdc_server_region_request_handler.h
index 04ab484..d8d833c 100644
--- a/src/server/pdc_server_region/pdc_server_region_request_handler.h
+++ b/src/server/pdc_server_region/pdc_server_region_request_handler.h
@@ -276,8 +276,6 @@ transfer_request_wait_all_bulk_transfer_cb(const struct hg_cb_info *info)
         // unsigned)transfer_request_id, get_server_rank());
         if (status == PDC_TRANSFER_STATUS_PENDING) {
             PDC_try_finish_request(transfer_request_id, local_bulk_args->handle, handle_ref, 1);
-        }
-        if (status != PDC_TRANSFER_STATUS_COMPLETE) {
             fast_return = 0;
         }
     }
-- 
2.43.0


From b662c3d7dc423880cc8a70f9b77d01ba997c1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 12/58] fix: acknowledge a checkpoint request only after cached
 regions and metadata are written

---
 src/api/pdc_client_connect.c          | 6 +++++-
 src/server/pdc_client_server_common.c | 5 +++--
 src/server/pdc_server.c               | 7 ++++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index b890062..fb137a5 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -6010,6 +6010,9 @@ PDC_Client_server_checkpoint(uint32_t server_id)
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
+    if (lookup_args.ret != 1)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: server %u could not checkpoint", pdc_client_mpi_rank_g, server_id);
+
 done:
     fflush(stdout);
     HG_Destroy(rpc_handle);
@@ -6033,7 +6036,8 @@ PDC_Client_all_server_checkpoint()
         PGOTO_DONE(ret_value);
 
     for (i = 0; i < pdc_server_num_g; i++)
-        ret_value = PDC_Client_server_checkpoint(i);
+        if (PDC_Client_server_checkpoint(i) < 0)
+            ret_value = FAIL;
 
 done:
     fflush(stdout);
diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index d90f83b..10022bb 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -5869,8 +5869,9 @@ HG_TEST_RPC_CB(server_checkpoint_rpc, handle)
 
     HG_Get_input(handle, &in);
 
-    out.ret   = 1;
-    ret_value = HG_Respond(handle, PDC_Server_checkpoint_cb, &in, &out);
+    // The client takes the response as the completion of the checkpoint
+    out.ret   = PDC_Server_checkpoint_cb(NULL) == HG_SUCCESS ? 1 : -1;
+    ret_value = HG_Respond(handle, NULL, NULL, &out);
 
     ret_value = HG_Free_input(handle, &in);
     ret_value = HG_Destroy(handle);
diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 0e8cf91..5408a21 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1203,7 +1203,12 @@ PDC_Server_recv_shm_cb(const struct hg_cb_info *callback_info)
 hg_return_t
 PDC_Server_checkpoint_cb()
 {
-    PDC_Server_checkpoint();
+#ifdef PDC_SERVER_CACHE
+    // Region data in the cache has to be on storage before the metadata that refers to it
+    PDC_region_cache_flush_all();
+#endif
+    if (PDC_Server_checkpoint() < 0)
+        return HG_OTHER_ERROR;
 
     return HG_SUCCESS;
 }
-- 
2.43.0


From 1a6ec473436b1eaf0d2e1fb7f7a3726380a22412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 13/58] fix: write the metadata checkpoint atomically and
 report write errors

---
 src/server/pdc_server.c | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 5408a21..29c4e67 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1232,12 +1232,14 @@ PDC_Server_checkpoint()
     int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0, n_kvtag, key_len;
     uint32_t          hash_key;
     HashTablePair     pair;
-    char              checkpoint_file[ADDR_MAX], checkpoint_file_local[ADDR_MAX], cmd[4096];
+    char              checkpoint_file[ADDR_MAX], checkpoint_file_tmp[ADDR_MAX];
+    char              checkpoint_file_local[ADDR_MAX], cmd[4096];
     HashTableIterator hash_table_iter;
     char *            checkpoint;
     char *            env_char;
     uint64_t          checkpoint_size;
     bool              use_tmpfs = false;
+    int               write_error;
     FILE *            file;
 
     FUNC_ENTER(NULL);
@@ -1264,6 +1266,9 @@ PDC_Server_checkpoint()
 #endif
     snprintf(checkpoint_file, ADDR_MAX, "%s/%d/metadata_checkpoint.%d", pdc_server_tmp_dir_g,
              pdc_server_rank_g, pdc_server_rank_g);
+    // Written under another name first, the previous checkpoint stays valid until the new one is complete
+    snprintf(checkpoint_file_tmp, ADDR_MAX, "%s/%d/tmp_metadata_checkpoint.%d", pdc_server_tmp_dir_g,
+             pdc_server_rank_g, pdc_server_rank_g);
     snprintf(checkpoint_file_local, ADDR_MAX, "/tmp/metadata_checkpoint.%d", pdc_server_rank_g);
     if (pdc_server_rank_g == 0) {
         printf("==PDC_SERVER[%4d]: Checkpoint file [%s]\n", pdc_server_rank_g, checkpoint_file);
@@ -1273,7 +1278,7 @@ PDC_Server_checkpoint()
     if (use_tmpfs)
         file = fopen(checkpoint_file_local, "w+");
     else
-        file = fopen(checkpoint_file, "w+");
+        file = fopen(checkpoint_file_tmp, "w+");
 
     if (file == NULL) {
         printf("==PDC_SERVER[%d]: %s - Checkpoint file open error", pdc_server_rank_g, __func__);
@@ -1396,8 +1401,15 @@ PDC_Server_checkpoint()
     transfer_request_metadata_query_checkpoint(&checkpoint, &checkpoint_size);
     fwrite(&checkpoint_size, sizeof(uint64_t), 1, file);
     fwrite(checkpoint, checkpoint_size, 1, file);
+    free(checkpoint);
 
-    fclose(file);
+    write_error = ferror(file);
+    if (fclose(file) != 0 || write_error) {
+        printf("==PDC_SERVER[%d]: %s - Checkpoint file write error\n", pdc_server_rank_g, __func__);
+        remove(use_tmpfs ? checkpoint_file_local : checkpoint_file_tmp);
+        ret_value = FAIL;
+        goto done;
+    }
 
     if (use_tmpfs) {
 #ifdef PDC_TIMING
@@ -1406,8 +1418,20 @@ PDC_Server_checkpoint()
         printf("==PDC_SERVER[%4d]: write to tmpfs took %7.2fs\n", pdc_server_rank_g, checkpoint_time);
 #endif
         // Copy from /tmp to target under $PDC_TMPDIR
-        snprintf(cmd, 4096, "mv %s %s", checkpoint_file_local, checkpoint_file);
-        system(cmd);
+        snprintf(cmd, 4096, "mv %s %s", checkpoint_file_local, checkpoint_file_tmp);
+        if (system(cmd) != 0) {
+            printf("==PDC_SERVER[%d]: %s - Checkpoint file move error\n", pdc_server_rank_g, __func__);
+            remove(checkpoint_file_tmp);
+            ret_value = FAIL;
+            goto done;
+        }
+    }
+
+    if (rename(checkpoint_file_tmp, checkpoint_file) != 0) {
+        printf("==PDC_SERVER[%d]: %s - Checkpoint file rename error\n", pdc_server_rank_g, __func__);
+        remove(checkpoint_file_tmp);
+        ret_value = FAIL;
+        goto done;
     }
 
 #ifdef PDC_TIMING
-- 
2.43.0


From 479a41f5352e6843e0b7a58625a8fd74e202ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 14/58] fix: opening an object that does not exist crashed the
 client

---
 src/api/pdc_obj/pdc_obj.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 4618b50..88e4be1 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -581,6 +581,9 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
 
     if (ret == FAIL)
         PGOTO_ERROR(0, "query object failed");
+    // The query succeeds without a result when there is no object of this name
+    if (out == NULL)
+        PGOTO_DONE(0);
 
     obj_prop = PDCprop_create(PDC_OBJ_CREATE, pdc);
     PDCprop_set_obj_dims(obj_prop, out->ndim, out->dims);
-- 
2.43.0


From 914a06e48016ef7f0171a1c8ee447a5cfd3213d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 15/58] fix: deleting an object used the freed list of its hash
 entry

---
 src/server/pdc_server_metadata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 02380fc..b72695b 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1012,6 +1012,8 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
                     }
                     out->ret  = 1;
                     ret_value = SUCCEED;
+                    // The entry (and with the last item the whole list) is gone, stop here
+                    goto done;
                 }
             } // DL_FOREACH
         }     // while
-- 
2.43.0


From f2726d8c599b98cc9295f08a6106eb6a90d65ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 16/58] fix: an object whose creation failed stayed registered
 and crashed the client's close

---
 src/api/pdc_obj/pdc_obj.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 88e4be1..3a5206e 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -333,7 +333,6 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     if (!p->obj_info_pub)
         PGOTO_ERROR(0, "PDC pub object memory allocation failed");
     p->obj_info_pub->name      = strdup(obj_name);
-    p->obj_info_pub->local_id  = PDC_id_register(PDC_OBJ, p);
     p->obj_info_pub->meta_id   = 0;
     p->obj_info_pub->server_id = 0;
     if (location == PDC_OBJ_GLOBAL) {
@@ -360,6 +359,10 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     for (i = 0; i < obj_prop->obj_prop_pub->ndim; i++)
         p->obj_info_pub->obj_pt->dims[i] = obj_prop->obj_prop_pub->dims[i];
 
+    // Register last: what is registered is closed with the client, an object whose creation failed is not
+    // complete.
+    p->obj_info_pub->local_id = PDC_id_register(PDC_OBJ, p);
+
     ret_value = p->obj_info_pub->local_id;
 
 done:
-- 
2.43.0


From eb88099dcf64a71ba82dbaacd8ff604029485675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 17/58] fix: setting a tag again did not change its value, and
 its type was not returned

---
 src/api/pdc_client_connect.c     |  2 +-
 src/server/pdc_server_metadata.c | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index fb137a5..025f7d0 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -7204,7 +7204,7 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     else
         PGOTO_ERROR(FAIL, "PDC_get_kvtag: invalid tag content!");
 
-    *kvtag            = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
+    *kvtag            = (pdc_kvtag_t *)calloc(1, sizeof(pdc_kvtag_t));
     lookup_args.kvtag = *kvtag;
     hg_ret            = HG_Forward(metadata_get_kvtag_handle, metadata_get_kvtag_rpc_cb, &lookup_args, &in);
     if (hg_ret != HG_SUCCESS)
diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index b72695b..7e64160 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2763,15 +2763,29 @@ static perr_t
 PDC_add_kvtag_to_list(pdc_kvtag_list_t **list_head, pdc_kvtag_t *tag)
 {
     perr_t            ret_value = SUCCEED;
-    pdc_kvtag_list_t *new_list_item;
+    pdc_kvtag_list_t *new_list_item, *elt;
     pdc_kvtag_t *     newtag;
     FUNC_ENTER(NULL);
 
     PDC_kvtag_dup(tag, &newtag);
+
+    // A tag of the same name gets the new value
+    DL_FOREACH(*list_head, elt)
+    {
+        if (strcmp(elt->kvtag->name, tag->name) == 0) {
+            free(elt->kvtag->name);
+            free(elt->kvtag->value);
+            free(elt->kvtag);
+            elt->kvtag = newtag;
+            goto done;
+        }
+    }
+
     new_list_item        = (pdc_kvtag_list_t *)PDC_calloc(1, sizeof(pdc_kvtag_list_t));
     new_list_item->kvtag = newtag;
     DL_APPEND(*list_head, new_list_item);
 
+done:
     fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
@@ -2986,6 +3000,7 @@ PDC_get_kvtag_value_from_list(pdc_kvtag_list_t **list_head, char *key, metadata_
         if (strcmp(elt->kvtag->name, key) == 0) {
             out->kvtag.name  = elt->kvtag->name;
             out->kvtag.size  = elt->kvtag->size;
+            out->kvtag.type  = elt->kvtag->type;
             out->kvtag.value = elt->kvtag->value;
             break;
         }
-- 
2.43.0


From 4e5250c9a3a5d9777dc388e7f691be5614a59fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 18/58] fix: containers whose names have the same hash value
 were taken for one container

---
 src/server/pdc_server.c          |   7 +-
 src/server/pdc_server_metadata.c | 223 ++++++++++++++-----------------
 2 files changed, 105 insertions(+), 125 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 29c4e67..4201c27 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1490,6 +1490,7 @@ PDC_Server_restart(char *filename)
     pdc_hash_table_entry_head *  entry;
     pdc_cont_hash_table_entry_t *cont_entry;
     uint32_t *                   hash_key;
+    uint32_t                     cont_hash_key;
     unsigned                     idx;
     uint64_t                     checkpoint_size;
     char *                       checkpoint_buf;
@@ -1525,11 +1526,9 @@ PDC_Server_restart(char *filename)
     }
     all_cont = n_cont;
     while (n_cont > 0) {
-        hash_key = (uint32_t *)malloc(sizeof(uint32_t));
-        if (fread(hash_key, sizeof(uint32_t), 1, file) != 1) {
+        if (fread(&cont_hash_key, sizeof(uint32_t), 1, file) != 1) {
             printf("Read failed for hash_key\n");
         }
-        total_mem_usage_g += sizeof(uint32_t);
 
         // Reconstruct hash table
         cont_entry = (pdc_cont_hash_table_entry_t *)malloc(sizeof(pdc_cont_hash_table_entry_t));
@@ -1541,7 +1540,7 @@ PDC_Server_restart(char *filename)
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&pdc_container_hash_table_mutex_g);
 #endif
-        if (hash_table_insert(container_hash_table_g, hash_key, cont_entry) != 1) {
+        if (hash_table_insert(container_hash_table_g, strdup(cont_entry->cont_name), cont_entry) != 1) {
             printf("==PDC_SERVER[%d]: %s - hash table insert failed\n", pdc_server_rank_g, __func__);
             ret_value = FAIL;
         }
diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 7e64160..b1986e4 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -132,6 +132,33 @@ PDC_Server_metadata_int_hash(void *vlocation)
     return *((uint32_t *)vlocation);
 }
 
+/*
+ * Check if two container names are equal
+ *
+ * \param name1 [IN]           Container name
+ * \param name2 [IN]           Container name
+ *
+ * \return 1 if two names are equal, 0 otherwise
+ */
+static int
+PDC_Server_container_name_equal(void *name1, void *name2)
+{
+    return strcmp((char *)name1, (char *)name2) == 0;
+}
+
+/*
+ * Get a container name's location in hash table
+ *
+ * \param name [IN]            Container name
+ *
+ * \return the location of the name in the table
+ */
+static unsigned int
+PDC_Server_container_name_hash(void *name)
+{
+    return PDC_get_hash_by_name((char *)name);
+}
+
 /*
  * Free the hash key
  *
@@ -462,8 +489,9 @@ PDC_Server_init_hash_table()
     hash_table_register_free_functions(metadata_hash_table_g, PDC_Server_metadata_int_hash_key_free,
                                        PDC_Server_metadata_hash_value_free);
 
-    // Container hash table
-    container_hash_table_g = hash_table_new(PDC_Server_metadata_int_hash, PDC_Server_metadata_int_equal);
+    // Container hash table, the key is the container's name
+    container_hash_table_g =
+        hash_table_new(PDC_Server_container_name_hash, PDC_Server_container_name_equal);
     if (container_hash_table_g == NULL) {
         printf("==PDC_SERVER: container_hash_table_g init error! Exit...\n");
         goto done;
@@ -2178,8 +2206,8 @@ done:
 perr_t
 PDC_Server_create_container(gen_cont_id_in_t *in, gen_cont_id_out_t *out)
 {
-    perr_t    ret_value = SUCCEED;
-    uint32_t *hash_key;
+    perr_t ret_value = SUCCEED;
+    char * hash_key;
 
     FUNC_ENTER(NULL);
 
@@ -2210,21 +2238,19 @@ PDC_Server_create_container(gen_cont_id_in_t *in, gen_cont_id_out_t *out)
 
     if (container_hash_table_g != NULL) {
         // lookup
-        lookup_value = hash_table_lookup(container_hash_table_g, &in->hash_value);
+        lookup_value = hash_table_lookup(container_hash_table_g, (void *)in->cont_name);
 
-        // Is this hash value exist in the Hash table?
+        // Does this name exist in the Hash table?
         if (lookup_value != NULL) {
-            // Check if there exist container identical to current one
             out->cont_id = lookup_value->cont_id;
         }
         else {
-            hash_key = (uint32_t *)malloc(sizeof(uint32_t));
+            hash_key = strdup(in->cont_name);
             if (hash_key == NULL) {
                 printf("Cannot allocate hash_key!\n");
                 ret_value = FAIL;
                 goto done;
             }
-            *hash_key = in->hash_value;
 
             pdc_cont_hash_table_entry_t *entry =
                 (pdc_cont_hash_table_entry_t *)calloc(1, sizeof(pdc_cont_hash_table_entry_t));
@@ -2287,15 +2313,12 @@ done:
 perr_t
 PDC_Server_delete_container_by_name(gen_cont_id_in_t *in, gen_cont_id_out_t *out)
 {
-    perr_t   ret_value = SUCCEED;
-    uint32_t hash_key;
+    perr_t ret_value = SUCCEED;
 
     FUNC_ENTER(NULL);
 
     out->cont_id = 0;
 
-    hash_key = in->hash_value;
-
     pdc_cont_hash_table_entry_t *lookup_value;
 
 #ifdef ENABLE_MULTITHREAD
@@ -2304,7 +2327,7 @@ PDC_Server_delete_container_by_name(gen_cont_id_in_t *in, gen_cont_id_out_t *out
 
     if (container_hash_table_g != NULL) {
         // lookup
-        lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
+        lookup_value = hash_table_lookup(container_hash_table_g, (void *)in->cont_name);
 
         // Is this hash value exist in the Hash table?
         if (lookup_value != NULL) {
@@ -2318,7 +2341,7 @@ PDC_Server_delete_container_by_name(gen_cont_id_in_t *in, gen_cont_id_out_t *out
         else {
             // Check if there exist metadata identical to current one
             printf("==PDC_SERVER[%d]: Did not found existing container with same hash value, name=%s!\n",
-                   pdc_server_rank_g, lookup_value->cont_name);
+                   pdc_server_rank_g, in->cont_name);
             ret_value = FAIL;
         }
     }
@@ -2340,8 +2363,7 @@ done:
 perr_t
 PDC_Server_find_container_by_name(const char *cont_name, pdc_cont_hash_table_entry_t **out)
 {
-    perr_t   ret_value = SUCCEED;
-    uint32_t hash_key;
+    perr_t ret_value = SUCCEED;
 
     FUNC_ENTER(NULL);
     if (NULL == cont_name || NULL == out) {
@@ -2351,14 +2373,7 @@ PDC_Server_find_container_by_name(const char *cont_name, pdc_cont_hash_table_ent
 
     if (container_hash_table_g != NULL) {
         // lookup
-        hash_key = PDC_get_hash_by_name(cont_name);
-        *out     = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (*out != NULL) {
-            // Double check with name match
-            if (strcmp(cont_name, (*out)->cont_name) != 0) {
-                *out = NULL;
-            }
-        }
+        *out = hash_table_lookup(container_hash_table_g, (void *)cont_name);
     }
     else {
         printf("container_hash_table_g not initialized!\n");
@@ -2751,6 +2766,39 @@ PDC_free_cont_hash_table()
     return SUCCEED;
 }
 
+/*
+ * Find the kvtags of an object or container
+ *
+ * \param  hash_key[IN]     Hash value of its name
+ * \param  id[IN]           ID of the object or container
+ *
+ * \return Pointer to its kvtag list/NULL if there is no such object or container
+ */
+static pdc_kvtag_list_t **
+PDC_Server_find_kvtag_list(uint32_t hash_key, uint64_t id)
+{
+    pdc_kvtag_list_t **          ret_value = NULL;
+    pdc_hash_table_entry_head *  lookup_value;
+    pdc_metadata_t *             target;
+    pdc_cont_hash_table_entry_t *cont_entry = NULL;
+
+    FUNC_ENTER(NULL);
+
+    lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
+    if (lookup_value != NULL) {
+        target = find_metadata_by_id_from_list(lookup_value->metadata, id);
+        if (target != NULL)
+            ret_value = &target->kvtag_list_head;
+    }
+    if (ret_value == NULL) { // look for containers
+        PDC_Server_find_container_by_id(id, &cont_entry);
+        if (cont_entry != NULL)
+            ret_value = &cont_entry->kvtag_list_head;
+    }
+
+    FUNC_LEAVE(ret_value);
+}
+
 /*
  * Add the kvtag received from one client to the corresponding metadata structure
  *
@@ -2868,39 +2916,18 @@ done:
 static perr_t
 PDC_Server_add_kvtag_someta(metadata_add_kvtag_in_t *in, metadata_add_tag_out_t *out)
 {
-    perr_t                       ret_value = SUCCEED;
-    pdc_hash_table_entry_head *  lookup_value;
-    pdc_cont_hash_table_entry_t *cont_lookup_value;
-    uint32_t                     hash_key;
-
-    hash_key = in->hash_value;
+    perr_t             ret_value = SUCCEED;
+    pdc_kvtag_list_t **list_head;
 
-    lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
-        target = find_metadata_by_id_from_list(lookup_value->metadata, in->obj_id);
-        if (target != NULL) {
-            PDC_add_kvtag_to_list(&target->kvtag_list_head, &in->kvtag);
-            out->ret = 1;
-        } // if (lookup_value != NULL)
-        else {
-            // Object not found
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
-    }      // if lookup_value != NULL
-    else { // look for containers
-        cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
-            PDC_add_kvtag_to_list(&cont_lookup_value->kvtag_list_head, &in->kvtag);
-            out->ret = 1;
-        }
-        else {
-            printf("==PDC_SERVER[%d]: add tag target %" PRIu64 " not found!\n", pdc_server_rank_g,
-                   in->obj_id);
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
+    list_head = PDC_Server_find_kvtag_list(in->hash_value, in->obj_id);
+    if (list_head != NULL) {
+        PDC_add_kvtag_to_list(list_head, &in->kvtag);
+        out->ret = 1;
+    }
+    else {
+        printf("==PDC_SERVER[%d]: add tag target %" PRIu64 " not found!\n", pdc_server_rank_g, in->obj_id);
+        ret_value = FAIL;
+        out->ret  = -1;
     }
 
     return ret_value;
@@ -3122,39 +3149,17 @@ PDC_Server_get_kvtag_sqlite3(metadata_get_kvtag_in_t *in, metadata_get_kvtag_out
 static perr_t
 PDC_Server_get_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_get_kvtag_out_t *out)
 {
-    perr_t                       ret_value = SUCCEED;
-    uint32_t                     hash_key;
-    uint64_t                     obj_id;
-    pdc_hash_table_entry_head *  lookup_value;
-    pdc_cont_hash_table_entry_t *cont_lookup_value;
-
-    hash_key = in->hash_value;
-    obj_id   = in->obj_id;
+    perr_t             ret_value = SUCCEED;
+    pdc_kvtag_list_t **list_head;
 
-    lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
-        target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-        if (target != NULL) {
-            PDC_get_kvtag_value_from_list(&target->kvtag_list_head, in->key, out);
-            out->ret = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
+    list_head = PDC_Server_find_kvtag_list(in->hash_value, in->obj_id);
+    if (list_head != NULL) {
+        PDC_get_kvtag_value_from_list(list_head, in->key, out);
+        out->ret = 1;
     }
     else {
-
-        cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
-            PDC_get_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key, out);
-            out->ret = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
+        ret_value = FAIL;
+        out->ret  = -1;
     }
 
     return ret_value;
@@ -3320,43 +3325,19 @@ PDC_Server_del_kvtag_sqlite3(metadata_get_kvtag_in_t *in, metadata_add_tag_out_t
 static perr_t
 PDC_Server_del_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_add_tag_out_t *out)
 {
-    perr_t                       ret_value = SUCCEED;
-    uint32_t                     hash_key;
-    uint64_t                     obj_id;
-    pdc_hash_table_entry_head *  lookup_value;
-    pdc_cont_hash_table_entry_t *cont_lookup_value;
+    perr_t             ret_value = SUCCEED;
+    pdc_kvtag_list_t **list_head;
 
-    hash_key = in->hash_value;
-    obj_id   = in->obj_id;
-
-    // Look obj tags first
-    lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
-        target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-        if (target != NULL) {
-            ret_value = PDC_del_kvtag_value_from_list(&target->kvtag_list_head, in->key);
-            out->ret  = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-            printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g,
-                   __func__, in->key);
-        }
+    list_head = PDC_Server_find_kvtag_list(in->hash_value, in->obj_id);
+    if (list_head != NULL) {
+        ret_value = PDC_del_kvtag_value_from_list(list_head, in->key);
+        out->ret  = 1;
     }
     else {
-        cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
-            PDC_del_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key);
-            out->ret = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-            printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g,
-                   __func__, in->key);
-        }
+        ret_value = FAIL;
+        out->ret  = -1;
+        printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g, __func__,
+               in->key);
     }
 
     return ret_value;
-- 
2.43.0


From 5460fd73366162000f4fccb8a3a865aff2ba48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 19/58] fix: container membership kept objects added twice, a
 first batch of more than 64 objects overflowed its buffer

---
 src/server/pdc_server_metadata.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index b1986e4..d8f811b 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2451,6 +2451,7 @@ PDC_Server_container_add_objs(int n_obj, uint64_t *obj_ids, uint64_t cont_id)
     perr_t                       ret_value    = SUCCEED;
     pdc_cont_hash_table_entry_t *cont_entry   = NULL;
     int                          realloc_size = 0;
+    int                          i, j;
 
     FUNC_ENTER(NULL);
     ret_value = PDC_Server_find_container_by_id(cont_id, &cont_entry);
@@ -2458,8 +2459,8 @@ PDC_Server_container_add_objs(int n_obj, uint64_t *obj_ids, uint64_t cont_id)
     if (cont_entry != NULL) {
         // Check if need to allocate space
         if (cont_entry->n_allocated == 0) {
-            cont_entry->n_allocated = PDC_ALLOC_BASE_NUM;
-            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), PDC_ALLOC_BASE_NUM);
+            cont_entry->n_allocated = n_obj > PDC_ALLOC_BASE_NUM ? n_obj : PDC_ALLOC_BASE_NUM;
+            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), cont_entry->n_allocated);
             total_mem_usage_g += sizeof(uint64_t) * cont_entry->n_allocated;
         }
         else if (cont_entry->n_allocated < cont_entry->n_obj + n_obj) {
@@ -2485,17 +2486,21 @@ PDC_Server_container_add_objs(int n_obj, uint64_t *obj_ids, uint64_t cont_id)
             total_mem_usage_g += sizeof(uint64_t) * cont_entry->n_allocated;
         }
 
-        // Append the new ids
-        memcpy(cont_entry->obj_ids + cont_entry->n_obj, obj_ids, n_obj * sizeof(uint64_t));
-        cont_entry->n_obj += n_obj;
+        // Append the ids that are not in the container yet
+        for (i = 0; i < n_obj; i++) {
+            for (j = 0; j < cont_entry->n_obj; j++) {
+                if (cont_entry->obj_ids[j] == obj_ids[i])
+                    break;
+            }
+            if (j == cont_entry->n_obj)
+                cont_entry->obj_ids[cont_entry->n_obj++] = obj_ids[i];
+        }
 
         // Debug prints
         if (is_debug_g == 1) {
             printf("==PDC_SERVER[%d]: add %d objects to container %" PRIu64 ", total %d !\n",
                    pdc_server_rank_g, n_obj, cont_id, cont_entry->n_obj - cont_entry->n_deleted);
         }
-
-        // TODO: find duplicates
     }
     else {
         printf("==PDC_SERVER[%d]: %s - container %" PRIu64 " not found!\n", pdc_server_rank_g, __func__,
-- 
2.43.0


From 4a937c6acbe3d1ab906ebc0acea76290a286f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 20/58] fix: containers lost their members and tags at restart
 (the checkpoint held dangling pointers)

---
 src/server/pdc_server.c | 129 +++++++++++++++++++++++++++-------------
 1 file changed, 89 insertions(+), 40 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 4201c27..cde9923 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1213,6 +1213,73 @@ PDC_Server_checkpoint_cb()
     return HG_SUCCESS;
 }
 
+/*
+ * Write the kv tags of an object or container to the checkpoint file
+ *
+ * \param  list_head[IN]    List of kv tags
+ * \param  file[IN]         Checkpoint file
+ *
+ * \return void
+ */
+static void
+PDC_Server_checkpoint_kvtags(pdc_kvtag_list_t *list_head, FILE *file)
+{
+    pdc_kvtag_list_t *elt;
+    int               n_kvtag, key_len;
+
+    DL_COUNT(list_head, elt, n_kvtag);
+    fwrite(&n_kvtag, sizeof(int), 1, file);
+    DL_FOREACH(list_head, elt)
+    {
+        key_len = strlen(elt->kvtag->name) + 1;
+        fwrite(&key_len, sizeof(int), 1, file);
+        fwrite(elt->kvtag->name, key_len, 1, file);
+        fwrite(&elt->kvtag->size, sizeof(uint32_t), 1, file);
+        fwrite(&elt->kvtag->type, sizeof(int8_t), 1, file);
+        fwrite(elt->kvtag->value, elt->kvtag->size, 1, file);
+    }
+}
+
+/*
+ * Read the kv tags of an object or container from the checkpoint file
+ *
+ * \param  list_head[IN/OUT] List of kv tags
+ * \param  file[IN]          Checkpoint file
+ *
+ * \return void
+ */
+static void
+PDC_Server_restart_kvtags(pdc_kvtag_list_t **list_head, FILE *file)
+{
+    int n_kvtag, key_len, j;
+
+    if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
+        printf("Read failed for n_kvtag\n");
+    }
+    for (j = 0; j < n_kvtag; j++) {
+        pdc_kvtag_list_t *kvtag_list = (pdc_kvtag_list_t *)calloc(1, sizeof(pdc_kvtag_list_t));
+        kvtag_list->kvtag            = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
+        if (fread(&key_len, sizeof(int), 1, file) != 1) {
+            printf("Read failed for key_len\n");
+        }
+        kvtag_list->kvtag->name = malloc(key_len);
+        if (fread((void *)(kvtag_list->kvtag->name), key_len, 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->name\n");
+        }
+        if (fread(&kvtag_list->kvtag->size, sizeof(uint32_t), 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->size\n");
+        }
+        if (fread(&kvtag_list->kvtag->type, sizeof(int8_t), 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->type\n");
+        }
+        kvtag_list->kvtag->value = malloc(kvtag_list->kvtag->size);
+        if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->value\n");
+        }
+        DL_APPEND(*list_head, kvtag_list);
+    }
+}
+
 /*
  * Checkpoint in-memory metadata to persistant storage, each server writes to one file
  *
@@ -1226,10 +1293,9 @@ PDC_Server_checkpoint()
     perr_t                       ret_value = SUCCEED;
     pdc_metadata_t *             elt;
     region_list_t *              region_elt;
-    pdc_kvtag_list_t *           kvlist_elt;
     pdc_hash_table_entry_head *  head;
     pdc_cont_hash_table_entry_t *cont_head;
-    int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0, n_kvtag, key_len;
+    int               n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0;
     uint32_t          hash_key;
     HashTablePair     pair;
     char              checkpoint_file[ADDR_MAX], checkpoint_file_tmp[ADDR_MAX];
@@ -1298,6 +1364,11 @@ PDC_Server_checkpoint()
         hash_key = PDC_get_hash_by_name(cont_head->cont_name);
         fwrite(&hash_key, sizeof(uint32_t), 1, file);
         fwrite(cont_head, sizeof(pdc_cont_hash_table_entry_t), 1, file);
+
+        // The entry refers to its objects and kv tags
+        if (cont_head->n_obj > 0)
+            fwrite(cont_head->obj_ids, sizeof(uint64_t), cont_head->n_obj, file);
+        PDC_Server_checkpoint_kvtags(cont_head->kvtag_list_head, file);
     }
 
     // DHT
@@ -1321,17 +1392,7 @@ PDC_Server_checkpoint()
             fwrite(elt, sizeof(pdc_metadata_t), 1, file);
 
             // Write kv tags
-            DL_COUNT(elt->kvtag_list_head, kvlist_elt, n_kvtag);
-            fwrite(&n_kvtag, sizeof(int), 1, file);
-            DL_FOREACH(elt->kvtag_list_head, kvlist_elt)
-            {
-                key_len = strlen(kvlist_elt->kvtag->name) + 1;
-                fwrite(&key_len, sizeof(int), 1, file);
-                fwrite(kvlist_elt->kvtag->name, key_len, 1, file);
-                fwrite(&kvlist_elt->kvtag->size, sizeof(uint32_t), 1, file);
-                fwrite(&kvlist_elt->kvtag->type, sizeof(int8_t), 1, file);
-                fwrite(kvlist_elt->kvtag->value, kvlist_elt->kvtag->size, 1, file);
-            }
+            PDC_Server_checkpoint_kvtags(elt->kvtag_list_head, file);
 
             // Write region info
             n_region = 0;
@@ -1482,8 +1543,7 @@ perr_t
 PDC_Server_restart(char *filename)
 {
     perr_t ret_value = SUCCEED;
-    int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0,
-                              n_kvtag, key_len;
+    int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0;
     int                          n_cont, all_cont;
     pdc_metadata_t *             metadata, *elt;
     region_list_t *              region_list;
@@ -1537,6 +1597,19 @@ PDC_Server_restart(char *filename)
             printf("Read failed for cont_entry\n");
         }
 
+        cont_entry->n_allocated     = cont_entry->n_obj;
+        cont_entry->obj_ids         = NULL;
+        cont_entry->kvtag_list_head = NULL;
+        if (cont_entry->n_obj > 0) {
+            cont_entry->obj_ids = (uint64_t *)PDC_calloc(sizeof(uint64_t), cont_entry->n_obj);
+            total_mem_usage_g += sizeof(uint64_t) * cont_entry->n_allocated;
+            if (fread(cont_entry->obj_ids, sizeof(uint64_t), cont_entry->n_obj, file) !=
+                (size_t)cont_entry->n_obj) {
+                printf("Read failed for obj_ids\n");
+            }
+        }
+        PDC_Server_restart_kvtags(&cont_entry->kvtag_list_head, file);
+
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&pdc_container_hash_table_mutex_g);
 #endif
@@ -1590,31 +1663,7 @@ PDC_Server_restart(char *filename)
             (metadata + i)->all_storage_region_distributed = 0;
 
             // Read kv tags
-            if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
-                printf("Read failed for n_kvtag\n");
-            }
-            for (j = 0; j < n_kvtag; j++) {
-                pdc_kvtag_list_t *kvtag_list = (pdc_kvtag_list_t *)calloc(1, sizeof(pdc_kvtag_list_t));
-                kvtag_list->kvtag            = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
-                if (fread(&key_len, sizeof(int), 1, file) != 1) {
-                    printf("Read failed for key_len\n");
-                }
-                kvtag_list->kvtag->name = malloc(key_len);
-                if (fread((void *)(kvtag_list->kvtag->name), key_len, 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->name\n");
-                }
-                if (fread(&kvtag_list->kvtag->size, sizeof(uint32_t), 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->size\n");
-                }
-                if (fread(&kvtag_list->kvtag->type, sizeof(int8_t), 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->type\n");
-                }
-                kvtag_list->kvtag->value = malloc(kvtag_list->kvtag->size);
-                if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->value\n");
-                }
-                DL_APPEND((metadata + i)->kvtag_list_head, kvtag_list);
-            }
+            PDC_Server_restart_kvtags(&(metadata + i)->kvtag_list_head, file);
 
             if (fread(&n_region, sizeof(int), 1, file) != 1) {
                 printf("Read failed for n_region\n");
-- 
2.43.0


From 8906728e70389fc751871a8caa48dce61bf290e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 21/58] fix: identifiers were given a second time after a
 restart

---
 src/server/pdc_server.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index cde9923..1e002fd 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1464,6 +1464,9 @@ PDC_Server_checkpoint()
     fwrite(checkpoint, checkpoint_size, 1, file);
     free(checkpoint);
 
+    // Next ID to be given, so that a restarted server does not give one for a second time
+    fwrite(&pdc_id_seq_g, sizeof(uint64_t), 1, file);
+
     write_error = ferror(file);
     if (fclose(file) != 0 || write_error) {
         printf("==PDC_SERVER[%d]: %s - Checkpoint file write error\n", pdc_server_rank_g, __func__);
@@ -1817,6 +1820,10 @@ PDC_Server_restart(char *filename)
     transfer_request_metadata_query_init(pdc_server_size_g, checkpoint_buf);
     free(checkpoint_buf);
 
+    if (fread(&pdc_id_seq_g, sizeof(uint64_t), 1, file) != 1) {
+        printf("Read failed for pdc_id_seq_g\n");
+    }
+
     fclose(file);
     file = NULL;
 
-- 
2.43.0


From f493260b48d302824b90ea6ae0c1b35761389958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 22/58] fix: wake every caller of thpool_wait when the pool
 becomes idle

---
 src/commons/utils/thpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 2e3fec4..f1dd864 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -369,7 +369,7 @@ thread_do(struct thread *thread_p)
             pthread_mutex_lock(&thpool_p->thcount_lock);
             thpool_p->num_threads_working--;
             if (!thpool_p->num_threads_working) {
-                pthread_cond_signal(&thpool_p->threads_all_idle);
+                pthread_cond_broadcast(&thpool_p->threads_all_idle);
             }
             pthread_mutex_unlock(&thpool_p->thcount_lock);
         }
-- 
2.43.0


From 3a875dd3d422291d4b4728be986b6b155e96116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:05 +0000
Subject: [PATCH 23/58] fix: end only the threads of the pool that is destroyed

---
 src/commons/utils/thpool.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index f1dd864..709e2de 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -41,7 +41,6 @@
 #define err(str)
 #endif
 
-static volatile int threads_keepalive;
 static volatile int threads_on_hold;
 
 /* ========================== STRUCTURES ============================ */
@@ -81,6 +80,7 @@ typedef struct thpool_ {
     thread **       threads;             /* pointer to threads        */
     volatile int    num_threads_alive;   /* threads currently alive   */
     volatile int    num_threads_working; /* threads currently working */
+    volatile int    keepalive;           /* cleared to end the threads */
     pthread_mutex_t thcount_lock;        /* used for thread count etc */
     pthread_cond_t  threads_all_idle;    /* signal to thpool_wait     */
     jobqueue        jobqueue;            /* job queue                 */
@@ -112,8 +112,7 @@ struct thpool_ *
 thpool_init(int num_threads)
 {
 
-    threads_on_hold   = 0;
-    threads_keepalive = 1;
+    threads_on_hold = 0;
 
     if (num_threads < 0) {
         num_threads = 0;
@@ -128,6 +127,7 @@ thpool_init(int num_threads)
     }
     thpool_p->num_threads_alive   = 0;
     thpool_p->num_threads_working = 0;
+    thpool_p->keepalive           = 1;
 
     /* Initialise the job queue */
     if (jobqueue_init(&thpool_p->jobqueue) == -1) {
@@ -208,7 +208,7 @@ thpool_destroy(thpool_ *thpool_p)
     volatile int threads_total = thpool_p->num_threads_alive;
 
     /* End each thread 's infinite loop */
-    threads_keepalive = 0;
+    thpool_p->keepalive = 0;
 
     /* Give one second to kill idle threads */
     double TIMEOUT = 1.0;
@@ -345,11 +345,11 @@ thread_do(struct thread *thread_p)
     thpool_p->num_threads_alive += 1;
     pthread_mutex_unlock(&thpool_p->thcount_lock);
 
-    while (threads_keepalive) {
+    while (thpool_p->keepalive) {
 
         bsem_wait(thpool_p->jobqueue.has_jobs);
 
-        if (threads_keepalive) {
+        if (thpool_p->keepalive) {
 
             pthread_mutex_lock(&thpool_p->thcount_lock);
             thpool_p->num_threads_working++;
-- 
2.43.0


From 6a4d6847abd8323d23a9d3637b30f57ed21f7d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 24/58] fix: thpool_init reports a thread that cannot be
 created

---
 src/commons/utils/thpool.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 709e2de..2876b4c 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -151,14 +151,21 @@ thpool_init(int num_threads)
     /* Thread init */
     int n;
     for (n = 0; n < num_threads; n++) {
-        thread_init(thpool_p, &thpool_p->threads[n], n);
+        if (thread_init(thpool_p, &thpool_p->threads[n], n) != 0)
+            break;
 #if THPOOL_DEBUG
         printf("THPOOL_DEBUG: Created thread %d in pool \n", n);
 #endif
     }
 
     /* Wait for threads to initialize */
-    while (thpool_p->num_threads_alive != num_threads) {
+    while (thpool_p->num_threads_alive != n) {
+    }
+
+    if (n != num_threads) {
+        err("thpool_init(): Could not create all threads\n");
+        thpool_destroy(thpool_p);
+        return NULL;
     }
 
     return thpool_p;
@@ -279,7 +286,7 @@ thread_init(thpool_ *thpool_p, struct thread **thread_p, int id)
 {
 
     *thread_p = (struct thread *)malloc(sizeof(struct thread));
-    if (thread_p == NULL) {
+    if (*thread_p == NULL) {
         err("thread_init(): Could not allocate memory for thread\n");
         return -1;
     }
@@ -287,7 +294,11 @@ thread_init(thpool_ *thpool_p, struct thread **thread_p, int id)
     (*thread_p)->thpool_p = thpool_p;
     (*thread_p)->id       = id;
 
-    pthread_create(&(*thread_p)->pthread, NULL, (void *)thread_do, (*thread_p));
+    if (pthread_create(&(*thread_p)->pthread, NULL, (void *)thread_do, (*thread_p)) != 0) {
+        err("thread_init(): Could not create thread\n");
+        free(*thread_p);
+        return -1;
+    }
     pthread_detach((*thread_p)->pthread);
     return 0;
 }
-- 
2.43.0


From 8fbc718b19a0922b18423e02da05c31b9bd31086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 25/58] fix: do not free a thread pool whose last thread still
 holds its lock

---
 src/commons/utils/thpool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 2876b4c..4b46d7d 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -234,6 +234,10 @@ thpool_destroy(thpool_ *thpool_p)
         sleep(1);
     }
 
+    /* The last thread may still be about to release the lock */
+    pthread_mutex_lock(&thpool_p->thcount_lock);
+    pthread_mutex_unlock(&thpool_p->thcount_lock);
+
     /* Job queue cleanup */
     jobqueue_destroy(&thpool_p->jobqueue);
     /* Deallocs */
-- 
2.43.0


From 79d996cea99a62d574be1e7add2edaf8df26f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 26/58] fix: send short prefix and infix index queries to every
 server that may hold a match

---
 src/commons/index/dart/dart_core.c | 82 +++++++++++++++++++++---------
 1 file changed, 59 insertions(+), 23 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 43410f4..9d15371 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -80,14 +80,14 @@ get_base_virtual_node_id_by_string(DART *dart, char *str)
     int      n = 0;
     uint64_t c;
     uint64_t rst = 0;
-    uint64_t i_t_n;
+    uint64_t i_t_n   = 0;
     int      met_end = 0;
     for (n = 1; n <= dart->dart_tree_height; n++) {
         if (str[n - 1] == '\0') { // test if the string ends.
             met_end = 1;
         }
         if (str[n - 1] != '\0' && met_end == 0) { // if not, we calculate the character index.
-            i_t_n = ((uint64_t)str[n - 1]) % dart->alphabet_size;
+            i_t_n = ((uint64_t)(unsigned char)str[n - 1]) % dart->alphabet_size;
         }
         c = (i_t_n) * ((uint64_t)uint32_pow(dart->alphabet_size, dart->dart_tree_height - n));
         rst += c;
@@ -288,13 +288,13 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
         else {
             // otherwise, pre_leaf_index should be the index of proceeding character of the
             // leaf-level character in the alphabet.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = (int)(unsigned char)word[last_c_index - 1] % dart->alphabet_size;
         }
     }
     else {
         // if the length of the word exceeds the height of the DART partition tree,
         // definitely, post-leaf character exists.
-        post_leaf_index = (int)word[last_c_index + 1] % dart->alphabet_size;
+        post_leaf_index = (int)(unsigned char)word[last_c_index + 1] % dart->alphabet_size;
         // but, there is a case where DART partition tree is of height 1.
         // in this case, there will be no pre-leaf character.
         if (tree_height <= 1) {
@@ -302,10 +302,10 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
         }
         else {
             // otherwise, there will be a pre-leaf character.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = (int)(unsigned char)word[last_c_index - 1] % dart->alphabet_size;
         }
     }
-    int leaf_index = (int)word[last_c_index] % dart->alphabet_size;
+    int leaf_index = (int)(unsigned char)word[last_c_index] % dart->alphabet_size;
 
     int leaf_post_sum  = leaf_index + pre_leaf_index + post_leaf_index;
     int leaf_post_diff = abs(post_leaf_index - leaf_index - pre_leaf_index);
@@ -331,7 +331,7 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
     int ir_idx = (int)ceil((double)(dart->alphabet_size / 2));
 
     // We also calculate the region start position.
-    uint64_t region_start = ((((int)word[0] + ir_idx) % dart->alphabet_size)) *
+    uint64_t region_start = ((((int)(unsigned char)word[0] + ir_idx) % dart->alphabet_size)) *
                             region_size; // ((reconciled_vnode_idx)/region_size) * (region_size);
     // Finally, the reconciled vnode index is calculated.
     // reconciled_vnode_idx = (0 + region_start + region_offset) % dart->num_vnode;
@@ -418,6 +418,27 @@ get_server_ids_for_insert(DART *dart_g, char *keyword, get_server_info_callback
     return rst_len;
 }
 
+/**
+ * Mark the servers that hold any of num_vnode consecutive virtual nodes.
+ */
+static void
+mark_servers_of_vnodes(DART *dart, uint64_t first_vnode, uint64_t num_vnode, char *marked)
+{
+    uint64_t num_vnode_per_server = dart->num_vnode / dart->num_server;
+    uint64_t end                  = first_vnode + num_vnode;
+    uint64_t vnode                = first_vnode;
+
+    while (vnode < end) {
+        uint64_t id = vnode % dart->num_vnode;
+        marked[get_server_id_by_vnode_id(dart, id)] = 1;
+        // go to the first virtual node of the next server, or to the first of all
+        uint64_t step = num_vnode_per_server - id % num_vnode_per_server;
+        if (step > dart->num_vnode - id)
+            step = dart->num_vnode - id;
+        vnode += step;
+    }
+}
+
 /**
  * This function gives all the server ID according to the given query token.
  * The query token should not contain any wildcard sign.
@@ -471,31 +492,46 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
 
     // for prefix/suffix query, we seek for proper parent region and only perform query broadcast for that
     // region. when suffix tree mode is ON: suffix query == exact query, infix query == prefix query.
-    if (strlen(token) < dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
+    // A token that is not longer than the tree height does not determine the alternative virtual node.
+    if (strlen(token) <= dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
 #ifdef PDC_DART_SFX_TREE
-                                                     || op_type == OP_INFIX_QUERY
+                                                      || op_type == OP_INFIX_QUERY
 #else
-                                                     || op_type == OP_SUFFIX_QUERY
+                                                      || op_type == OP_SUFFIX_QUERY
 #endif
-                                                     )) {
+                                                      )) {
 
         // TODO: currently broadcast request to all virtual nodes in one region.
         // TODO: we have to consider if we can reduce the number of nodes we need to
         // access as the prefix length grows.
-        int region_size  = dart_g->num_vnode / dart_g->alphabet_size;
-        int region_start = ((((int)token[0] % dart_g->alphabet_size) + 0) * region_size);
-
-        uint64_t server_start = get_server_id_by_vnode_id(dart_g, region_start);
-        uint64_t server_end   = get_server_id_by_vnode_id(dart_g, region_start + region_size - 1);
-
-        int num_srvs    = server_end - server_start + 1;
-        out[0]          = (uint64_t *)calloc(num_srvs, sizeof(uint64_t));
-        int num_srv_ids = 0;
+        char *   to_query    = (char *)calloc(dart_g->num_server, sizeof(char));
+        uint64_t region_size = dart_g->num_vnode / dart_g->alphabet_size;
+        int      num_srvs    = 0;
+        uint64_t srvId;
+
+        if (token[0] == '\0') {
+            // every keyword matches
+            mark_servers_of_vnodes(dart_g, 0, dart_g->num_vnode, to_query);
+        }
+        else {
+            uint64_t base_region = (unsigned char)token[0] % dart_g->alphabet_size;
+            mark_servers_of_vnodes(dart_g, base_region * region_size, region_size, to_query);
+            if (dart_g->dart_tree_height > 1) {
+                // the alternative virtual node is in one of these two regions, see
+                // get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2
+                uint64_t alter_region =
+                    base_region +
+                    ((unsigned char)token[0] + dart_g->alphabet_size / 2) % dart_g->alphabet_size;
+                mark_servers_of_vnodes(dart_g, alter_region * region_size, 2 * region_size, to_query);
+            }
+        }
 
-        uint64_t srvId = server_start;
-        for (; srvId <= server_end; srvId++) {
-            out[0][num_srv_ids++] = srvId;
+        out[0] = (uint64_t *)calloc(dart_g->num_server, sizeof(uint64_t));
+        for (srvId = 0; srvId < dart_g->num_server; srvId++) {
+            if (to_query[srvId])
+                out[0][num_srvs++] = srvId;
         }
+        free(to_query);
         return num_srvs;
     }
     else {
-- 
2.43.0


From 096d05fa0cb4cb1625ee9c2d68f196abbb39c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 27/58] fix: full-key hashing sends suffix and one-letter
 prefix queries to all servers

---
 src/commons/index/dart/dart_core.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 9d15371..562f1c3 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -695,14 +695,18 @@ DHT_hash(DART *dart_g, size_t len, char *key, dart_op_type_t op_type, index_hash
     else if (op_type == OP_EXACT_QUERY) {
         is_full_scan = 0;
     }
-    else if (op_type == OP_PREFIX_QUERY || op_type == OP_SUFFIX_QUERY) {
-        if (len > 1) {
+    else if (op_type == OP_PREFIX_QUERY) {
+        // only when the initial alone is hashed does a prefix determine the server
+        if (len >= strlen(key)) {
             is_full_scan = 1;
         }
         else {
             is_full_scan = 0;
         }
     }
+    else if (op_type == OP_SUFFIX_QUERY) {
+        is_full_scan = 1;
+    }
     else if (op_type == OP_INFIX_QUERY) {
         is_full_scan = 1;
     }
-- 
2.43.0


From 157e6c3a1723ba0d945e230523c7175b44f9fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 28/58] fix: prefix iteration of the radix tree stops at a
 partial mismatch

---
 src/commons/collections/art.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 6d15e1d..7170e8e 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -1081,6 +1081,10 @@ art_iter_prefix(art_tree *t, const unsigned char *key, int key_len, art_callback
             }
             else if (depth + prefix_len == key_len) {
                 return recursive_iter(n, cb, data);
+                // The prefix differs within the path of this node
+            }
+            else if ((uint32_t)prefix_len < n->partial_len) {
+                return 0;
             }
 
             // if there is a full match, go deeper
-- 
2.43.0


From c0c684a48c4856ad4cd99f6eb517fd242b9d810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 29/58] fix: a single '*' is a pattern that matches everything

---
 src/commons/utils/string_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index 546d567..8fd90f7 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -77,7 +77,8 @@ pattern_type_t
 determine_pattern_type(const char *pattern)
 {
 
-    if (startsWith(pattern, "*")) {
+    // a single '*' is a prefix pattern with an empty prefix: it matches everything
+    if (startsWith(pattern, "*") && pattern[1] != '\0') {
         if (endsWith(pattern, "*")) {
             return PATTERN_MIDDLE;
         }
-- 
2.43.0


From 54178d1542eb125d083e950389842bd726187dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 30/58] fix: DART servers keep whole keywords

---
 src/api/pdc_client_connect.c           |  4 ----
 src/server/pdc_server_metadata_index.c | 16 ++++++++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 025f7d0..9343784 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -8658,10 +8658,6 @@ dart_perform_on_servers(index_hash_result_t **hash_result, int num_servers,
         lookup_args[i].is_id   = 1;
         lookup_args[i].op_type = op_type;
 
-        if (is_index_write_op(op_type)) {
-            dart_in->attr_key = strdup((*hash_result)[i].key);
-        }
-
         _dart_send_request_to_one_server(server_id, dart_in, &(lookup_args[i]), &(dart_request_handles[i]));
 
         num_requests++;
diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 1e91c42..2074c57 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -204,7 +204,9 @@ PDC_Server_dart_init()
 /* Create index item for KV in DART */
 /****************************/
 
-// #define PDC_DART_SFX_TREE
+// The local index keeps whole keywords: with every suffix of a keyword as an entry, a suffix could not be told
+// from a keyword, and deleting one keyword would delete the suffixes it shares with others.
+#undef PDC_DART_SFX_TREE
 
 perr_t
 create_prefix_index_for_attr_value(void **index, unsigned char *attr_value, void *data)
@@ -225,11 +227,15 @@ create_prefix_index_for_attr_value(void **index, unsigned char *attr_value, void
         art_insert(art_value_prefix_tree, attr_value, len, (void *)obj_id_set);
     }
 
-    int indexed = set_insert(obj_id_set, data);
-
-    if (indexed == -1) {
+    // every set frees its own elements
+    uint64_t *obj_id = (uint64_t *)malloc(sizeof(uint64_t));
+    if (obj_id == NULL) {
         return FAIL;
     }
+    *obj_id = *(uint64_t *)data;
+    if (set_insert(obj_id_set, obj_id) == 0) {
+        free(obj_id);
+    }
 
     return ret;
 }
@@ -314,6 +320,7 @@ metadata_index_create(char *attr_key, char *attr_value, uint64_t obj_locator, in
     // else if (index_type == DART_HASH) {
     create_index_for_attr_name(attr_key, attr_value, (void *)data);
     // }
+    free(data);
     timer_pause(&timer);
     // if (DART_SERVER_DEBUG) {
     //     printf("[Server_Side_Insert_%d] Timer to insert a keyword %s : %s into index = %.4f
@@ -428,6 +435,7 @@ metadata_index_delete(char *attr_key, char *attr_value, uint64_t obj_locator, in
     // else if (index_type == DART_HASH) {
     delete_index_for_attr_name(attr_key, attr_value, (void *)data);
     // }
+    free(data);
 
     timer_pause(&timer);
     // if (DART_SERVER_DEBUG) {
-- 
2.43.0


From 7bc1ef39681ca895f999dcc22f7bb292cdaac29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 31/58] fix: metadata queries send initialised conditions

---
 src/api/pdc_client_connect.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 9343784..764db4b 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -1617,7 +1617,7 @@ metadata_query_bulk_cb(const struct hg_cb_info *callback_info)
     origin_bulk_handle = output.bulk_handle;
     hg_info            = HG_Get_info(handle);
 
-    bulk_args = (struct bulk_args_t *)malloc(sizeof(struct bulk_args_t));
+    bulk_args = (struct bulk_args_t *)calloc(1, sizeof(struct bulk_args_t));
 
     bulk_args->handle = handle;
     bulk_args->nbytes = HG_Bulk_get_size(origin_bulk_handle);
@@ -1686,12 +1686,15 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
     in.obj_name       = " ";
     in.time_step_from = -1;
     in.time_step_to   = -1;
-    in.ndim           = -1;
+    in.ndim           = 0;
     in.tags           = " ";
+    in.k_query        = " ";
+    in.vfrom_query    = " ";
+    in.vto_query      = " ";
 
     if (is_list_all != 1) {
         in.user_id        = user_id;
-        in.ndim           = ndim;
+        in.ndim           = ndim > 0 ? ndim : 0;
         in.time_step_from = time_step_from;
         in.time_step_to   = time_step_to;
         if (app_name != NULL)
@@ -1717,7 +1720,7 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
         my_server_start = pdc_client_mpi_rank_g;
         my_server_end   = my_server_start + 1;
         if (pdc_client_mpi_rank_g >= pdc_server_num_g) {
-            my_server_end = -1;
+            my_server_end = my_server_start;
         }
     }
 
-- 
2.43.0


From 3f97124e95979dcb0b0a4276bf12ae3b6eedc826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 32/58] fix: metadata query results do not depend on live
 metadata and on n_metadata_g

---
 src/server/pdc_client_server_common.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index 10022bb..a42ecf1 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -4587,16 +4587,15 @@ HG_TEST_RPC_CB(query_partial, handle)
 
     // Fix when Mercury output in HG_Respond gets too large and cannot be transfered
     // hg_set_output(): Output size exceeds NA expected message size
-    pdc_metadata_t *large_serial_meta_buf;
-    if (*n_meta_ptr > 80) {
-        large_serial_meta_buf = (pdc_metadata_t *)malloc(sizeof(pdc_metadata_t) * (*n_meta_ptr));
-        for (i = 0; i < *n_meta_ptr; i++) {
-            memcpy(&large_serial_meta_buf[i], buf_ptrs[i], sizeof(pdc_metadata_t));
-        }
-        buf_ptrs[0]  = large_serial_meta_buf;
-        buf_sizes[0] = sizeof(pdc_metadata_t) * (*n_meta_ptr);
-        n_buf        = 1;
+    // The client fetches the result later, objects may have been changed or deleted by then: send a copy
+    pdc_metadata_t *large_serial_meta_buf =
+        (pdc_metadata_t *)malloc(sizeof(pdc_metadata_t) * (*n_meta_ptr));
+    for (i = 0; i < *n_meta_ptr; i++) {
+        memcpy(&large_serial_meta_buf[i], buf_ptrs[i], sizeof(pdc_metadata_t));
     }
+    buf_ptrs[0]  = large_serial_meta_buf;
+    buf_sizes[0] = sizeof(pdc_metadata_t) * (*n_meta_ptr);
+    n_buf        = 1;
 
     // Create bulk handle
     hg_ret =
-- 
2.43.0


From 2cbb1b5de0b3dc5e81098537f774b06ad2a214c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 33/58] fix: tag queries compare value sizes and report every
 object once; metadata query arrays hold every entry

---
 src/server/pdc_server_metadata.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index d8f811b..592fb5c 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1582,12 +1582,18 @@ PDC_Server_get_partial_query_result(metadata_query_transfer_in_t *in, uint32_t *
 
     FUNC_ENTER(NULL);
 
-    // n_buf = n_metadata_g + 1 for potential padding array
-    n_buf     = n_metadata_g + 1;
-    *buf_ptrs = (void **)calloc(n_buf, sizeof(void *));
-    for (i = 0; i < n_buf; i++) {
-        (*buf_ptrs)[i] = (void *)calloc(1, sizeof(void *));
+    // + 1 for potential padding array
+    n_buf = 1;
+    if (metadata_hash_table_g != NULL) {
+        hash_table_iterate(metadata_hash_table_g, &hash_table_iter);
+        while (hash_table_iter_has_more(&hash_table_iter)) {
+            pair = hash_table_iter_next(&hash_table_iter);
+            head = pair.value;
+            DL_COUNT(head->metadata, elt, i);
+            n_buf += i;
+        }
     }
+    *buf_ptrs = (void **)calloc(n_buf, sizeof(void *));
     // TODO: free buf_ptrs
     if (metadata_hash_table_g != NULL) {
 
@@ -1646,7 +1652,7 @@ _is_matching_kvtag(pdc_kvtag_t *in, pdc_kvtag_t *kvtag)
     }
     else { // FIXME: for all numeric types, we use memcmp to compare, for exact value query, but we also
            // have to support range query.
-        if (memcmp(in->value, kvtag->value, in->size) != 0)
+        if (in->size != kvtag->size || memcmp(in->value, kvtag->value, in->size) != 0)
             return FALSE;
     }
 
@@ -1875,7 +1881,7 @@ PDC_Server_query_kvtag_someta(pdc_kvtag_t *in, uint32_t *n_meta, uint64_t **obj_
                             *obj_ids = (void *)realloc(*obj_ids, alloc_size * sizeof(uint64_t));
                         }
                         (*obj_ids)[iter++] = elt->obj_id;
-                        // break; // FIXME: shall we break here? or continue to check other kvtags?
+                        break; // one matching kvtag is enough, report every object once
                     }
                     else {
 #ifdef PDC_DEBUG_OUTPUT
-- 
2.43.0


From 65b12feee8460aee2ae6f94d7e613421df994d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 34/58] fix: hash table and set operations on missing elements,
 empty sets and without memory

---
 src/commons/collections/pdc_set.c   |  2 +-
 src/commons/profiling/pdc_hashtab.c | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/commons/collections/pdc_set.c b/src/commons/collections/pdc_set.c
index 8ec6524..b17260a 100644
--- a/src/commons/collections/pdc_set.c
+++ b/src/commons/collections/pdc_set.c
@@ -393,7 +393,7 @@ set_to_array(Set *set)
 
     /* Create an array to hold the set entries */
 
-    array = PDC_malloc(sizeof(SetValue) * set->entries);
+    array = PDC_malloc(sizeof(SetValue) * (set->entries > 0 ? set->entries : 1));
 
     if (array == NULL) {
         return NULL;
diff --git a/src/commons/profiling/pdc_hashtab.c b/src/commons/profiling/pdc_hashtab.c
index e59b7e3..fba1e80 100644
--- a/src/commons/profiling/pdc_hashtab.c
+++ b/src/commons/profiling/pdc_hashtab.c
@@ -218,6 +218,8 @@ void htab_empty(htab) htab_t htab;
                 (*htab->del_f)(htab->entries[i]);
 
     memset(htab->entries, 0, htab->size * sizeof(PTR));
+    htab->n_elements = 0;
+    htab->n_deleted  = 0;
 }
 
 /* Similar to htab_find_slot, but without several unwanted side effects:
@@ -268,15 +270,17 @@ static int htab_expand(htab) htab_t htab;
     PTR *olimit;
     PTR *p;
     PTR *nentries;
+    size_t nsize;
 
     oentries = htab->entries;
     olimit   = oentries + htab->size;
 
-    htab->size = higher_prime_number(htab->size * 2);
+    nsize = higher_prime_number(htab->size * 2);
 
-    nentries = (PTR *)(*htab->alloc_f)(htab->size, sizeof(PTR *));
+    nentries = (PTR *)(*htab->alloc_f)(nsize, sizeof(PTR *));
     if (nentries == NULL)
         return 0;
+    htab->size    = nsize;
     htab->entries = nentries;
     htab->n_elements -= htab->n_deleted;
     htab->n_deleted = 0;
@@ -429,7 +433,7 @@ PTR  element;
     PTR *slot;
 
     slot = htab_find_slot(htab, element, NO_INSERT);
-    if (*slot == EMPTY_ENTRY)
+    if (slot == NULL || *slot == EMPTY_ENTRY)
         return;
 
     if (htab->del_f)
-- 
2.43.0


From 2cebd2f4decde55dc7c8c272565db7d108c5ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 35/58] fix: deque lost its elements when it grew and could
 shrink to nothing; vector grew by nothing and lost its items without memory

---
 src/commons/collections/pdc_deque.c  | 13 ++++++-------
 src/commons/collections/pdc_vector.c | 11 ++++++++---
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/commons/collections/pdc_deque.c b/src/commons/collections/pdc_deque.c
index 5d2280c..1829bc4 100644
--- a/src/commons/collections/pdc_deque.c
+++ b/src/commons/collections/pdc_deque.c
@@ -22,17 +22,16 @@ resize_deque(PDC_deque_t *deque, size_t new_capacity)
         exit(1);
     }
 
-    size_t i = 0;
-    while (deque->head != deque->tail) {
-        new_data[i++] = deque->data[deque->head];
-        deque->head   = (deque->head + 1) % deque->capacity;
+    // a full deque has head == tail, as an empty one has
+    for (size_t i = 0; i < deque->size; i++) {
+        new_data[i] = deque->data[(deque->head + i) % deque->capacity];
     }
 
     free(deque->data);
     deque->data     = new_data;
     deque->capacity = new_capacity;
     deque->head     = 0;
-    deque->tail     = i;
+    deque->tail     = deque->size % new_capacity;
 }
 
 void
@@ -66,7 +65,7 @@ PDC_deque_pop_front(PDC_deque_t *deque)
     void *value = deque->data[deque->head];
     deque->head = (deque->head + 1) % deque->capacity;
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
@@ -81,7 +80,7 @@ PDC_deque_pop_back(PDC_deque_t *deque)
     deque->tail = (deque->tail - 1 + deque->capacity) % deque->capacity;
     void *value = deque->data[deque->tail];
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
diff --git a/src/commons/collections/pdc_vector.c b/src/commons/collections/pdc_vector.c
index ac28c64..e3fe28f 100644
--- a/src/commons/collections/pdc_vector.c
+++ b/src/commons/collections/pdc_vector.c
@@ -56,11 +56,16 @@ pdc_vector_add(PDC_VECTOR *vector, void *item)
 
     // Expand the array of items if necessary.
     if (vector->item_count >= vector->capacity) {
-        vector->capacity *= vector->expansion_factor;
-        vector->items = (void **)realloc(vector->items, vector->capacity * sizeof(void *));
-        if (vector->items == NULL) {
+        size_t new_capacity = vector->capacity * vector->expansion_factor;
+        if (new_capacity <= vector->capacity) {
+            new_capacity = vector->capacity + 1;
+        }
+        void **new_items = (void **)realloc(vector->items, new_capacity * sizeof(void *));
+        if (new_items == NULL) {
             return;
         }
+        vector->items    = new_items;
+        vector->capacity = new_capacity;
     }
 
     // Add the new item to the end of the array.
-- 
2.43.0


From f0b541711e521cd956ad64b197bb03bf28361d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:06 +0000
Subject: [PATCH 36/58] fix: filters forgot keys when they grew, when a
 saturated counter was decremented, and crashed without memory

---
 src/server/dablooms/pdc_dablooms.c | 61 ++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/server/dablooms/pdc_dablooms.c b/src/server/dablooms/pdc_dablooms.c
index 2be56c8..f84b90a 100644
--- a/src/server/dablooms/pdc_dablooms.c
+++ b/src/server/dablooms/pdc_dablooms.c
@@ -32,13 +32,24 @@ dablooms_version(void)
 void
 free_bitmap(bitmap_t *bitmap)
 {
+    if (bitmap != NULL)
+        free(bitmap->array);
     free(bitmap);
 }
 
 bitmap_t *
 bitmap_resize(bitmap_t *bitmap, size_t new_size)
 {
-    bitmap->array = PDC_malloc(new_size);
+    char * array    = realloc(bitmap->array, new_size);
+    size_t old_size = bitmap->array == NULL ? 0 : bitmap->bytes;
+
+    if (array == NULL) {
+        return NULL;
+    }
+    if (new_size > old_size) {
+        memset(array + old_size, 0, new_size - old_size);
+    }
+    bitmap->array = array;
     bitmap->bytes = new_size;
     return bitmap;
 }
@@ -58,7 +69,8 @@ new_bitmap(size_t bytes)
     bitmap->bytes = bytes;
     bitmap->array = NULL;
 
-    if ((bitmap = bitmap_resize(bitmap, bytes)) == NULL) {
+    if (bitmap_resize(bitmap, bytes) == NULL) {
+        free_bitmap(bitmap);
         return NULL;
     }
 
@@ -110,6 +122,10 @@ bitmap_decrement(bitmap_t *bitmap, unsigned int index, long offset)
         fprintf(stderr, "Error, Decrementing zero\n");
         return -1;
     }
+    /* a counter at its limit has lost count: it must stay set */
+    if (temp == 0x0f) {
+        return 0;
+    }
 
     bitmap->array[access] = n;
     return 0;
@@ -170,7 +186,7 @@ free_counting_bloom(counting_bloom_t *bloom)
     if (bloom != NULL) {
         free(bloom->hashes);
         bloom->hashes = NULL;
-        free(bloom->bitmap);
+        free_bitmap(bloom->bitmap);
         free(bloom);
         bloom = NULL;
     }
@@ -196,6 +212,10 @@ counting_bloom_init(unsigned int capacity, double error_rate, long offset)
     /* rounding-up integer divide by 2 of bloom->size */
     bloom->num_bytes = ((bloom->size + 1) / 2) + sizeof(counting_bloom_header_t);
     bloom->hashes    = PDC_calloc(bloom->nfuncs, sizeof(uint32_t));
+    if (bloom->hashes == NULL) {
+        free(bloom);
+        return NULL;
+    }
 
     return bloom;
 }
@@ -205,8 +225,15 @@ new_counting_bloom(unsigned int capacity, double error_rate)
 {
     counting_bloom_t *cur_bloom;
 
-    cur_bloom         = counting_bloom_init(capacity, error_rate, 0);
+    cur_bloom = counting_bloom_init(capacity, error_rate, 0);
+    if (cur_bloom == NULL) {
+        return NULL;
+    }
     cur_bloom->bitmap = new_bitmap(cur_bloom->num_bytes);
+    if (cur_bloom->bitmap == NULL) {
+        free_counting_bloom(cur_bloom);
+        return NULL;
+    }
     cur_bloom->header = (counting_bloom_header_t *)(cur_bloom->bitmap->array);
     return cur_bloom;
 }
@@ -288,20 +315,26 @@ new_counting_bloom_from_scale(scaling_bloom_t *bloom)
     unsigned int      i;
     long              offset;
     double            error_rate;
-    counting_bloom_t *cur_bloom;
+    counting_bloom_t *cur_bloom, **blooms;
 
     error_rate = bloom->error_rate * (pow(ERROR_TIGHTENING_RATIO, bloom->num_blooms + 1));
 
-    if ((bloom->blooms = realloc(bloom->blooms, (bloom->num_blooms + 1) * sizeof(counting_bloom_t *))) ==
-        NULL) {
+    if ((blooms = realloc(bloom->blooms, (bloom->num_blooms + 1) * sizeof(counting_bloom_t *))) == NULL) {
         fprintf(stderr, "Error, could not realloc a new bloom filter\n");
         return NULL;
     }
+    bloom->blooms = blooms;
 
-    cur_bloom                        = counting_bloom_init(bloom->capacity, error_rate, bloom->num_bytes);
+    cur_bloom = counting_bloom_init(bloom->capacity, error_rate, bloom->num_bytes);
+    if (cur_bloom == NULL) {
+        return NULL;
+    }
     bloom->blooms[bloom->num_blooms] = cur_bloom;
 
-    bloom->bitmap = bitmap_resize(bloom->bitmap, bloom->num_bytes + cur_bloom->num_bytes);
+    if (bitmap_resize(bloom->bitmap, bloom->num_bytes + cur_bloom->num_bytes) == NULL) {
+        free_counting_bloom(cur_bloom);
+        return NULL;
+    }
 
     /* reset header pointer, as mmap may have moved */
     bloom->header = (scaling_bloom_header_t *)bloom->bitmap->array;
@@ -333,7 +366,9 @@ scaling_bloom_add(scaling_bloom_t *bloom, const char *s, size_t len, uint64_t id
     }
 
     if ((id > bloom->header->max_id) && (cur_bloom->header->count >= cur_bloom->capacity - 1)) {
-        cur_bloom                = new_counting_bloom_from_scale(bloom);
+        if ((cur_bloom = new_counting_bloom_from_scale(bloom)) == NULL) {
+            return -1;
+        }
         cur_bloom->header->count = 0;
         cur_bloom->header->id    = bloom->header->max_id + 1;
     }
@@ -385,7 +420,7 @@ scaling_bloom_init(unsigned int capacity, double error_rate)
     }
     if ((bloom->bitmap = new_bitmap(sizeof(scaling_bloom_header_t))) == NULL) {
         fprintf(stderr, "Error, Could not create bitmap with file\n");
-        free_scaling_bloom(bloom);
+        free(bloom);
         return NULL;
     }
 
@@ -406,7 +441,9 @@ new_scaling_bloom(unsigned int capacity, double error_rate)
     scaling_bloom_t * bloom;
     counting_bloom_t *cur_bloom;
 
-    bloom = scaling_bloom_init(capacity, error_rate);
+    if ((bloom = scaling_bloom_init(capacity, error_rate)) == NULL) {
+        return NULL;
+    }
 
     if (!(cur_bloom = new_counting_bloom_from_scale(bloom))) {
         fprintf(stderr, "Error, Could not create counting bloom\n");
-- 
2.43.0


From 19f750a26ba917428e7aabb02971c4b5fc85200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:12 +0000
Subject: [PATCH 37/58] fix: histogram bins are contiguous, cover all values
 and do not depend on the allocator

---
 src/api/pdc_analysis/pdc_hist_pkg.c | 65 +++++++++++++++++------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/api/pdc_analysis/pdc_hist_pkg.c b/src/api/pdc_analysis/pdc_hist_pkg.c
index 75343a1..5290ae0 100644
--- a/src/api/pdc_analysis/pdc_hist_pkg.c
+++ b/src/api/pdc_analysis/pdc_hist_pkg.c
@@ -1,4 +1,5 @@
 #include "pdc_hist_pkg.h"
+#include <float.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -112,44 +113,49 @@ PDC_create_hist(pdc_var_type_t dtype, int nbin, double min, double max)
     pdc_histogram_t *ret_value = NULL;
     pdc_histogram_t *hist;
     int              i;
-    double           min_bin, max_bin, bin_incr;
+    double           min_bin, bin_incr;
 
     FUNC_ENTER(NULL);
 
     if (nbin < 4 || min > max)
         PGOTO_DONE(NULL);
 
-    bin_incr = floor_power_of_2((max - min) / (nbin - 2)); // Excluding first and last bin (open ended)
-    nbin     = ceil((max - min) / bin_incr);
+    bin_incr = floor_power_of_2(max / (nbin - 2) - min / (nbin - 2)); // Excluding first and last bin
+    if (bin_incr <= 0)
+        bin_incr = DBL_MIN;
+    // The boundaries must differ from each other in double precision
+    while (bin_incr < DBL_MAX / 4 && (min + bin_incr - min != bin_incr || max + bin_incr - max != bin_incr))
+        bin_incr *= 2;
 
-    hist        = (pdc_histogram_t *)malloc(sizeof(pdc_histogram_t));
+    // Bins start at multiples of the increment, so that those of other histograms can be merged; the first and
+    // the last one are extended to hold the smallest and the largest value.
+    min_bin = floor(min / bin_incr) * bin_incr + bin_incr;
+    nbin    = max > min_bin ? (int)((max - min_bin) / bin_incr) + 2 : 2;
+
+    hist = (pdc_histogram_t *)calloc(1, sizeof(pdc_histogram_t));
+    if (NULL == hist)
+        PGOTO_ERROR(NULL, "== cannot allocate histogram!");
     hist->incr  = bin_incr;
     hist->dtype = dtype;
     hist->range = (double *)calloc(sizeof(double), nbin * 2);
     hist->bin   = (uint64_t *)calloc(sizeof(uint64_t), nbin);
     hist->nbin  = nbin;
-
-    min_bin = floor(min);
-    while (min_bin <= min) {
-        min_bin += bin_incr;
-    }
-
-    max_bin = ceil(max);
-    while (max_bin >= max) {
-        max_bin -= bin_incr;
+    if (NULL == hist->range || NULL == hist->bin) {
+        PDC_free_hist(hist);
+        PGOTO_ERROR(NULL, "== cannot allocate histogram bins!");
     }
 
     hist->range[0] = min_bin;
     hist->range[1] = min_bin;
 
-    hist->range[nbin * 2 - 1] = max_bin;
-    hist->range[nbin * 2 - 2] = max_bin;
-
     for (i = 2; i < nbin * 2 - 2; i += 2) {
         hist->range[i]     = hist->range[i - 1];
-        hist->range[i + 1] = hist->range[i] + bin_incr;
+        hist->range[i + 1] = min_bin + (i / 2) * bin_incr;
     }
 
+    hist->range[nbin * 2 - 2] = hist->range[nbin * 2 - 3];
+    hist->range[nbin * 2 - 1] = hist->range[nbin * 2 - 2];
+
     ret_value = hist;
 
 done:
@@ -175,7 +181,10 @@ done:
                         (hist)->range[((hist)->nbin * 2) - 1] = ldata[i];                                    \
                 }                                                                                            \
                 else {                                                                                       \
-                    (hist)->bin[(int)((ldata[i] - (hist)->range[1]) / (hist)->incr + 1)]++;                  \
+                    mid = (int)(ldata[i] / (hist)->incr - (hist)->range[1] / (hist)->incr + 1);              \
+                    if (mid > (hist)->nbin - 2 || ldata[i] < (hist)->range[mid * 2])                         \
+                        mid--; /* the difference was rounded up */                                           \
+                    (hist)->bin[mid]++;                                                                      \
                 }                                                                                            \
             }                                                                                                \
         }                                                                                                    \
@@ -334,13 +343,19 @@ PDC_dup_hist(pdc_histogram_t *hist)
     if (NULL == hist)
         PGOTO_DONE(NULL);
 
-    nbin       = hist->nbin;
-    res        = (pdc_histogram_t *)malloc(sizeof(pdc_histogram_t));
+    nbin = hist->nbin;
+    res  = (pdc_histogram_t *)calloc(1, sizeof(pdc_histogram_t));
+    if (NULL == res)
+        PGOTO_ERROR(NULL, "== cannot allocate histogram!");
     res->dtype = hist->dtype;
     res->nbin  = nbin;
     res->range = (double *)calloc(sizeof(double), nbin * 2);
     res->bin   = (uint64_t *)calloc(sizeof(uint64_t), nbin);
     res->incr  = hist->incr;
+    if (NULL == res->range || NULL == res->bin) {
+        PDC_free_hist(res);
+        PGOTO_ERROR(NULL, "== cannot allocate histogram bins!");
+    }
 
     memcpy(res->range, hist->range, sizeof(double) * nbin * 2);
     memcpy(res->bin, hist->bin, sizeof(double) * nbin);
@@ -365,8 +380,8 @@ PDC_merge_hist(int n, pdc_histogram_t **hists)
     if (n == 0 || NULL == hists)
         PGOTO_DONE(NULL);
 
-    tot_min  = hists[0]->range[1];
-    tot_max  = hists[0]->range[2 * hists[0]->nbin - 2];
+    tot_min  = hists[0]->range[0];
+    tot_max  = hists[0]->range[2 * hists[0]->nbin - 1];
     incr_max = hists[0]->incr;
 
     for (i = 1; i < n; i++) {
@@ -431,11 +446,9 @@ PDC_copy_hist(pdc_histogram_t *to, pdc_histogram_t *from)
 
     to->incr  = from->incr;
     to->dtype = from->dtype;
-    if (NULL == to->range)
-        to->range = (double *)calloc(sizeof(double), nbin * 2);
+    to->range = (double *)realloc(to->range, sizeof(double) * nbin * 2);
     memcpy(to->range, from->range, sizeof(double) * nbin * 2);
-    if (NULL == to->bin)
-        to->bin = (uint64_t *)calloc(sizeof(uint64_t), nbin);
+    to->bin = (uint64_t *)realloc(to->bin, sizeof(uint64_t) * nbin);
     memcpy(to->bin, from->bin, sizeof(uint64_t) * nbin);
     to->nbin = from->nbin;
 
-- 
2.43.0


From 52d6f489f71868b46b7c74815c9f3c5b8c5a5935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 38/58] fix: storage errors, short and interrupted transfers no
 longer lose cached or stored region data

---
 src/server/pdc_server.c                       |   9 +-
 .../pdc_server_region/pdc_server_data.c       | 111 +++++++++++++-----
 .../pdc_server_region_cache.c                 |  73 ++++++++++--
 .../pdc_server_region_transfer.c              |   4 +-
 4 files changed, 148 insertions(+), 49 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 1e002fd..51d8df2 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1203,14 +1203,17 @@ PDC_Server_recv_shm_cb(const struct hg_cb_info *callback_info)
 hg_return_t
 PDC_Server_checkpoint_cb()
 {
+    hg_return_t ret_value = HG_SUCCESS;
+
 #ifdef PDC_SERVER_CACHE
     // Region data in the cache has to be on storage before the metadata that refers to it
-    PDC_region_cache_flush_all();
+    if (PDC_region_cache_flush_all() < 0)
+        ret_value = HG_OTHER_ERROR;
 #endif
     if (PDC_Server_checkpoint() < 0)
-        return HG_OTHER_ERROR;
+        ret_value = HG_OTHER_ERROR;
 
-    return HG_SUCCESS;
+    return ret_value;
 }
 
 /*
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 92edf2e..40b027f 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -345,6 +345,9 @@ PDC_Server_register_obj_region_by_pointer(data_server_region_t **new_obj_reg_ptr
 
         new_obj_reg->fd = server_open_storage(new_obj_reg->storage_location, obj_id);
         if (new_obj_reg->fd < 0) {
+            free(new_obj_reg->storage_location);
+            free(new_obj_reg);
+            ret_value = FAIL;
             goto done;
         }
         DL_APPEND(dataserver_region_g, new_obj_reg);
@@ -357,6 +360,7 @@ PDC_Server_register_obj_region_by_pointer(data_server_region_t **new_obj_reg_ptr
             new_obj_reg->close_flag = close_flag;
             new_obj_reg->fd         = open(new_obj_reg->storage_location, O_RDWR | O_CREAT, 0666);
             if (new_obj_reg->fd < 0) {
+                ret_value = FAIL;
                 goto done;
             }
         }
@@ -4692,31 +4696,46 @@ PDC_Server_posix_write(int fd, void *buf, uint64_t write_size)
 
     FUNC_ENTER(NULL);
 
-    while (write_size > max_write_size) {
-        ret = write(fd, buf, max_write_size);
-        if (ret < 0 || ret != (ssize_t)max_write_size) {
-            printf("==PDC_SERVER[%d]: in-loop: write %d failed, ret = %ld, max_write_size = %llu\n",
-                   pdc_server_rank_g, fd, ret, max_write_size);
+    while (write_bytes < write_size) {
+        ret = write(fd, (char *)buf + write_bytes,
+                    write_size - write_bytes < max_write_size ? write_size - write_bytes : max_write_size);
+        if (ret < 0 && errno == EINTR)
+            continue;
+        if (ret <= 0) {
+            printf("==PDC_SERVER[%d]: write %d failed, not all data written %llu/%llu\n", pdc_server_rank_g,
+                   fd, (long long unsigned)write_bytes, (long long unsigned)write_size);
             ret_value = FAIL;
             goto done;
         }
         write_bytes += ret;
-        buf += max_write_size;
-        write_size -= max_write_size;
-    }
-
-    ret = write(fd, buf, write_size);
-    if (ret < 0 || ret != (ssize_t)write_size) {
-        printf("==PDC_SERVER[%d]: write %d failed, not all data written %llu/%llu\n", pdc_server_rank_g, fd,
-               write_bytes, write_size);
-        ret_value = FAIL;
-        goto done;
     }
 
 done:
     FUNC_LEAVE(ret_value);
 }
 
+/*
+ * Like pread(), and continues when it is interrupted or returns less than asked for before the end of the file
+ */
+static ssize_t
+PDC_Server_posix_pread(int fd, void *buf, size_t size, off_t offset)
+{
+    size_t  read_bytes = 0;
+    ssize_t ret;
+
+    while (read_bytes < size) {
+        ret = pread(fd, (char *)buf + read_bytes, size - read_bytes, offset + read_bytes);
+        if (ret < 0 && errno == EINTR)
+            continue;
+        if (ret < 0)
+            return ret;
+        if (ret == 0)
+            break;
+        read_bytes += ret;
+    }
+    return read_bytes;
+}
+
 // No PDC_SERVER_CACHE
 perr_t
 PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info, void *buf, size_t unit)
@@ -4726,8 +4745,9 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
     region_list_t *       overlap_region = NULL;
     int                   is_contained   = 0;
     uint64_t              i, j, pos;
-    uint64_t *            overlap_offset, *overlap_size;
+    uint64_t *            overlap_offset = NULL, *overlap_size;
     char *                tmp_buf;
+    region_list_t *       request_region = NULL;
 #if 0
     size_t                total_write_size = 0, local_write_size;
     int is_overlap;
@@ -4747,8 +4767,14 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
         write_size *= region_info->size[2];
     region = PDC_Server_get_obj_region(obj_id);
     PDC_Server_register_obj_region_by_pointer(&region, obj_id, 0);
+    if (region == NULL || region->fd < 0) {
+        printf("==PDC_SERVER[%d]: cannot open the storage of object %" PRIu64 "\n", pdc_server_rank_g, obj_id);
+        region    = NULL;
+        ret_value = FAIL;
+        goto done;
+    }
 
-    region_list_t *request_region = (region_list_t *)calloc(1, sizeof(region_list_t));
+    request_region = (region_list_t *)calloc(1, sizeof(region_list_t));
     for (i = 0; i < region_info->ndim; i++) {
         request_region->start[i] = region_info->offset[i];
         request_region->count[i] = region_info->size[i];
@@ -4824,9 +4850,12 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
 #ifdef PDC_TIMING
                     start_posix = MPI_Wtime();
 #endif
-                    if (pread(region->fd, tmp_buf, overlap_region->data_size, overlap_region->offset) !=
+                    if (PDC_Server_posix_pread(region->fd, tmp_buf, overlap_region->data_size, overlap_region->offset) !=
                         (ssize_t)overlap_region->data_size) {
                         printf("==PDC_SERVER[%d]: pread failed to read enough bytes\n", pdc_server_rank_g);
+                        free(tmp_buf);
+                        ret_value = FAIL;
+                        goto done;
                     }
 #ifdef PDC_TIMING
                     pdc_server_timings->PDCdata_server_read_posix += MPI_Wtime() - start_posix;
@@ -4845,12 +4874,12 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
 #ifdef PDC_TIMING
                     pdc_server_timings->PDCdata_server_write_posix += MPI_Wtime() - start_posix;
 #endif
+                    free(tmp_buf);
                     if (ret_value != SUCCEED) {
                         printf("==PDC_SERVER[%d]: PDC_Server_posix_write FAILED!\n", pdc_server_rank_g);
                         ret_value = FAIL;
                         goto done;
                     }
-                    free(tmp_buf);
                 }
                 else {
                     if (region_info->ndim == 2) {
@@ -4972,6 +5001,12 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
 #endif
                                 free(tmp_buf);
                             }
+                            if (ret_value != SUCCEED) {
+                                printf("==PDC_SERVER[%d]: PDC_Server_posix_write FAILED!\n",
+                                       pdc_server_rank_g);
+                                ret_value = FAIL;
+                                goto done;
+                            }
                         }
                         else {
                             for (i = 0; i < overlap_size[0]; ++i) {
@@ -5001,6 +5036,12 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
                                     pdc_server_timings->PDCdata_server_write_posix +=
                                         MPI_Wtime() - start_posix;
 #endif
+                                    if (ret_value != SUCCEED) {
+                                        printf("==PDC_SERVER[%d]: PDC_Server_posix_write FAILED!\n",
+                                               pdc_server_rank_g);
+                                        ret_value = FAIL;
+                                        goto done;
+                                    }
                                 }
                             }
                         }
@@ -5008,6 +5049,7 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
                 }
             }
             free(overlap_offset);
+            overlap_offset = NULL;
         }
     }
     if (is_contained == 0) {
@@ -5029,11 +5071,7 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
         // Store storage information
         request_region->data_size = write_size;
         DL_APPEND(region->region_storage_head, request_region);
-        PDC_Server_unregister_obj_region_by_pointer(region, 0);
-    }
-    else {
-        PDC_Server_unregister_obj_region_by_pointer(region, 0);
-        free(request_region);
+        request_region = NULL;
     }
 
 #ifdef ENABLE_TIMING
@@ -5049,6 +5087,10 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
 #endif
     /* printf("==PDC_SERVER[%d]: write region %llu bytes\n", pdc_server_rank_g, request_region->data_size); */
 done:
+    if (region != NULL)
+        PDC_Server_unregister_obj_region_by_pointer(region, 0);
+    free(request_region);
+    free(overlap_offset);
     fflush(stdout);
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_data_write_out
@@ -5080,6 +5122,11 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
     // The location string is cached, so we utilize
     // that to reopen the file.
     PDC_Server_register_obj_region_by_pointer(&region, obj_id, 0);
+    if (region == NULL || region->fd < 0) {
+        printf("==PDC_SERVER[%d]: cannot open the storage of object %" PRIu64 "\n", pdc_server_rank_g, obj_id);
+        ret_value = FAIL;
+        goto done;
+    }
 
     for (i = 0; i < region_info->ndim; i++) {
         request_bytes *= region_info->size[i];
@@ -5114,7 +5161,7 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
 #endif
                 /* printf("POSIX read from file offset %lu, region start = %lu, region size = %lu\n", */
                 /*        overlap_region->offset, overlap_region->start[0], overlap_region->count[0]); */
-                if (pread(region->fd, buf + (overlap_offset[0] - region_info->offset[0]) * unit,
+                if (PDC_Server_posix_pread(region->fd, buf + (overlap_offset[0] - region_info->offset[0]) * unit,
                           overlap_size[0] * unit,
                           overlap_region->offset + pos) != (ssize_t)(overlap_size[0] * unit)) {
                     printf("==PDC_SERVER[%d]: pread failed to read enough bytes\n", pdc_server_rank_g);
@@ -5137,7 +5184,7 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
 #ifdef PDC_TIMING
                     start_posix = MPI_Wtime();
 #endif
-                    if (pread(region->fd, tmp_buf, overlap_region->data_size, overlap_region->offset) !=
+                    if (PDC_Server_posix_pread(region->fd, tmp_buf, overlap_region->data_size, overlap_region->offset) !=
                         (ssize_t)overlap_region->data_size) {
                         printf("==PDC_SERVER[%d]: pread failed to read enough bytes\n", pdc_server_rank_g);
                     }
@@ -5163,7 +5210,7 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
 #ifdef PDC_TIMING
                                 start_posix = MPI_Wtime();
 #endif
-                                if (pread(region->fd,
+                                if (PDC_Server_posix_pread(region->fd,
                                           buf + (overlap_offset[0] - region_info->offset[0]) *
                                                     region_info->size[1] * unit,
                                           overlap_size[0] * overlap_size[1] * unit,
@@ -5181,7 +5228,7 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
 #ifdef PDC_TIMING
                                 start_posix = MPI_Wtime();
 #endif
-                                if (pread(region->fd, tmp_buf, overlap_size[0] * overlap_size[1] * unit,
+                                if (PDC_Server_posix_pread(region->fd, tmp_buf, overlap_size[0] * overlap_size[1] * unit,
                                           overlap_region->offset + pos) !=
                                     (ssize_t)(overlap_size[0] * overlap_size[1] * unit)) {
                                     printf("==PDC_SERVER[%d]: pread failed to read enough bytes\n",
@@ -5205,7 +5252,7 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
 #ifdef PDC_TIMING
                                 start_posix = MPI_Wtime();
 #endif
-                                if (pread(region->fd,
+                                if (PDC_Server_posix_pread(region->fd,
                                           buf + ((overlap_offset[0] - region_info->offset[0] + i) *
                                                      region_info->size[1] +
                                                  overlap_offset[1] - region_info->offset[1]) *
@@ -5235,7 +5282,7 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
 #ifdef PDC_TIMING
                                 start_posix = MPI_Wtime();
 #endif
-                                if (pread(region->fd,
+                                if (PDC_Server_posix_pread(region->fd,
                                           buf + (overlap_offset[0] - region_info->offset[0]) *
                                                     region_info->size[1] * region_info->size[2] * unit,
                                           overlap_size[0] * overlap_size[1] * overlap_size[2] * unit,
@@ -5254,7 +5301,7 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
 #ifdef PDC_TIMING
                                 start_posix = MPI_Wtime();
 #endif
-                                if (pread(region->fd, tmp_buf,
+                                if (PDC_Server_posix_pread(region->fd, tmp_buf,
                                           overlap_size[0] * overlap_size[1] * overlap_size[2] * unit,
                                           overlap_region->offset + pos) !=
                                     (ssize_t)(overlap_size[0] * overlap_size[1] * overlap_size[2] * unit)) {
@@ -5282,7 +5329,7 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
 #ifdef PDC_TIMING
                                     start_posix = MPI_Wtime();
 #endif
-                                    if (pread(region->fd,
+                                    if (PDC_Server_posix_pread(region->fd,
                                               buf + (((overlap_offset[0] - region_info->offset[0] + i) *
                                                           region_info->size[1] +
                                                       (overlap_offset[1] - region_info->offset[1] + j)) *
diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 6def3b2..a292fee 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -762,12 +762,16 @@ PDC_region_cache_flush_by_pointer(uint64_t obj_id, pdc_obj_cache *obj_cache)
 #ifdef ENABLE_MPI
     MPI_Comm_rank(MPI_COMM_WORLD, &server_rank);
 #endif
-    // Iterate through all cache regions and use POSIX I/O to write them back to file system.
-    region_cache_iter = obj_cache->region_cache;
+    // Iterate through all cache regions and use POSIX I/O to write them back to file system. Regions that cannot
+    // be written stay in the cache.
+    region_cache_iter            = obj_cache->region_cache;
+    obj_cache->region_cache      = NULL;
+    obj_cache->region_cache_end  = NULL;
+    obj_cache->region_cache_size = 0;
     while (region_cache_iter != NULL) {
         region_cache_info = region_cache_iter->region_cache_info;
-        PDC_Server_transfer_request_io(obj_id, obj_cache->ndim, obj_cache->dims, region_cache_info,
-                                       region_cache_info->buf, region_cache_info->unit, 1);
+        region_cache_temp = region_cache_iter;
+        region_cache_iter = region_cache_iter->next;
         if (obj_cache->ndim >= 1)
             write_size = region_cache_info->unit * region_cache_info->size[0];
         if (obj_cache->ndim >= 2)
@@ -775,6 +779,26 @@ PDC_region_cache_flush_by_pointer(uint64_t obj_id, pdc_obj_cache *obj_cache)
         if (obj_cache->ndim >= 3)
             write_size *= region_cache_info->size[2];
 
+        if (PDC_Server_transfer_request_io(obj_id, obj_cache->ndim, obj_cache->dims, region_cache_info,
+                                           region_cache_info->buf, region_cache_info->unit, 1) != SUCCEED) {
+            printf("==PDC_SERVER[%d]: cannot flush a region of object %" PRIu64 ", will try again\n",
+                   server_rank, obj_id);
+            if (obj_cache->ndim == 1) {
+                // The buffer is part of the merged one
+                char *kept_buf = (char *)malloc(write_size);
+                memcpy(kept_buf, region_cache_info->buf, write_size);
+                region_cache_info->buf = kept_buf;
+            }
+            region_cache_temp->next = NULL;
+            if (obj_cache->region_cache == NULL)
+                obj_cache->region_cache = region_cache_temp;
+            else
+                obj_cache->region_cache_end->next = region_cache_temp;
+            obj_cache->region_cache_end = region_cache_temp;
+            obj_cache->region_cache_size++;
+            continue;
+        }
+
         printf("==PDC_SERVER[%d]: server flushed %.1f / %.1f MB to storage\n", server_rank,
                write_size / 1048576.0, total_cache_size / 1048576.0);
 
@@ -784,16 +808,12 @@ PDC_region_cache_flush_by_pointer(uint64_t obj_id, pdc_obj_cache *obj_cache)
             free(region_cache_info->buf);
         }
         free(region_cache_info);
-        region_cache_temp = region_cache_iter;
-        region_cache_iter = region_cache_iter->next;
         free(region_cache_temp);
         nflush++;
     }
     if (merged_request_size && obj_cache->ndim == 1) {
         free(buf_ptr);
     }
-    obj_cache->region_cache      = NULL;
-    obj_cache->region_cache_size = 0;
     gettimeofday(&(obj_cache->timestamp), NULL);
 #ifdef PDC_TIMING
     pdc_server_timings->PDCcache_flush += MPI_Wtime() - start_time;
@@ -819,29 +839,42 @@ PDC_region_cache_flush(uint64_t obj_id)
         return 1;
     }
     PDC_region_cache_flush_by_pointer(obj_id, obj_cache);
-    return 0;
+    return obj_cache->region_cache == NULL ? 0 : -1;
 }
 
 int
 PDC_region_cache_flush_all()
 {
+    int            ret_value = 0;
     pdc_obj_cache *obj_cache_iter, *obj_cache_temp;
     pthread_mutex_lock(&pdc_obj_cache_list_mutex);
 
-    obj_cache_iter = obj_cache_list;
+    obj_cache_iter     = obj_cache_list;
+    obj_cache_list     = NULL;
+    obj_cache_list_end = NULL;
     while (obj_cache_iter != NULL) {
         PDC_region_cache_flush_by_pointer(obj_cache_iter->obj_id, obj_cache_iter);
         obj_cache_temp = obj_cache_iter;
         obj_cache_iter = obj_cache_iter->next;
+        if (obj_cache_temp->region_cache != NULL) {
+            // Not everything could be written, keep the rest
+            obj_cache_temp->next = NULL;
+            if (obj_cache_list == NULL)
+                obj_cache_list = obj_cache_temp;
+            else
+                obj_cache_list_end->next = obj_cache_temp;
+            obj_cache_list_end = obj_cache_temp;
+            ret_value          = -1;
+            continue;
+        }
         if (obj_cache_temp->ndim) {
             free(obj_cache_temp->dims);
         }
 
         free(obj_cache_temp);
     }
-    obj_cache_list = NULL;
     pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
-    return 0;
+    return ret_value;
 }
 
 void *
@@ -978,6 +1011,22 @@ PDC_region_fetch(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dims, struct
             PDC_region_cache_flush_by_pointer(obj_id, obj_cache);
         }
         PDC_Server_transfer_request_io(obj_id, obj_ndim, obj_dims, region_info, buf, unit, 0);
+        // Data that could not be flushed is newer than the storage
+        region_cache_iter = obj_cache == NULL ? NULL : obj_cache->region_cache;
+        while (region_cache_iter != NULL) {
+            PDC_region_overlap_detect(region_info->ndim, region_info->offset, region_info->size,
+                                      region_cache_iter->region_cache_info->offset,
+                                      region_cache_iter->region_cache_info->size, &overlap_offset,
+                                      &overlap_size);
+            if (overlap_offset) {
+                memcpy_overlap_subregion(region_info->ndim, unit, region_cache_iter->region_cache_info->buf,
+                                         region_cache_iter->region_cache_info->offset,
+                                         region_cache_iter->region_cache_info->size, buf, region_info->offset,
+                                         region_info->size, overlap_offset, overlap_size);
+                free(overlap_offset);
+            }
+            region_cache_iter = region_cache_iter->next;
+        }
     }
     return 0;
 }
diff --git a/src/server/pdc_server_region/pdc_server_region_transfer.c b/src/server/pdc_server_region/pdc_server_region_transfer.c
index 8f7ab88..3468eb8 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer.c
@@ -285,10 +285,10 @@ PDC_Server_transfer_request_io(uint64_t obj_id, int obj_ndim, const uint64_t *ob
     if (io_by_region_g || obj_ndim == 0) {
         // PDC_Server_register_obj_region(obj_id);
         if (is_write) {
-            PDC_Server_data_write_out(obj_id, region_info, buf, unit);
+            ret_value = PDC_Server_data_write_out(obj_id, region_info, buf, unit);
         }
         else {
-            PDC_Server_data_read_from(obj_id, region_info, buf, unit);
+            ret_value = PDC_Server_data_read_from(obj_id, region_info, buf, unit);
         }
         // PDC_Server_unregister_obj_region(obj_id);
         goto done;
-- 
2.43.0


From 7648ea5f4e055cee44952a902f2b9e60466fb36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 39/58] fix: requests answered after a close request are stored

---
 src/server/pdc_server.c | 56 +++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 51d8df2..62c2506 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -703,45 +703,55 @@ done:
 perr_t
 PDC_Server_set_close(void)
 {
-    perr_t             ret_value = SUCCEED;
+    perr_t ret_value = SUCCEED;
+
+    // Exit from the loop once the requests that have arrived so far are answered, start finalize process
+    hg_atomic_set32(&close_server_g, 1);
+
+    FUNC_LEAVE(ret_value);
+}
+
+/*
+ * Store everything and answer the close request. Called when no more requests are served.
+ *
+ * \return void
+ */
+static void
+PDC_Server_close(void)
+{
     close_server_out_t close_out;
 #ifdef PDC_TIMING
     double start;
 #endif
 
-    while (hg_atomic_get32(&close_server_g) == 0) {
-        // Exit from the loop, start finalize process
 #ifdef PDC_SERVER_CACHE
-        PDC_region_server_cache_finalize();
+    PDC_region_server_cache_finalize();
 #endif
 
 #ifdef PDC_ENABLE_CHECKPOINT
 #ifdef PDC_TIMING
-        start = MPI_Wtime();
+    start = MPI_Wtime();
 #endif
-        char *tmp_env_char = getenv("PDC_DISABLE_CHECKPOINT");
-        if (tmp_env_char != NULL && strcmp(tmp_env_char, "TRUE") == 0) {
-            if (pdc_server_rank_g == 0) {
-                printf("==PDC_SERVER[0]: checkpoint disabled!\n");
-            }
-        }
-        else {
-            PDC_Server_checkpoint();
+    char *tmp_env_char = getenv("PDC_DISABLE_CHECKPOINT");
+    if (tmp_env_char != NULL && strcmp(tmp_env_char, "TRUE") == 0) {
+        if (pdc_server_rank_g == 0) {
+            printf("==PDC_SERVER[0]: checkpoint disabled!\n");
         }
+    }
+    else {
+        PDC_Server_checkpoint();
+    }
 #ifdef PDC_TIMING
-        pdc_server_timings->PDCserver_checkpoint += MPI_Wtime() - start;
+    pdc_server_timings->PDCserver_checkpoint += MPI_Wtime() - start;
 #endif
 #endif
-        /* Barrier is needed here to make sure all servers have checkpointed data. */
-        close_out.ret = 88;
-        HG_Respond(close_all_server_handle_g, NULL, NULL, &close_out);
-        HG_Destroy(close_all_server_handle_g);
+    /* Barrier is needed here to make sure all servers have checkpointed data. */
+    close_out.ret = 88;
+    HG_Respond(close_all_server_handle_g, NULL, NULL, &close_out);
+    HG_Destroy(close_all_server_handle_g);
 #ifdef ENABLE_MPI
-        MPI_Barrier(MPI_COMM_WORLD);
+    MPI_Barrier(MPI_COMM_WORLD);
 #endif
-        hg_atomic_set32(&close_server_g, 1);
-    }
-    FUNC_LEAVE(ret_value);
 }
 
 #ifdef PDC_HAS_CRAY_DRC
@@ -2426,6 +2436,8 @@ server_run(int argc, char *argv[])
 #else
     PDC_Server_loop(hg_context_g);
 #endif
+    if (hg_atomic_get32(&close_server_g))
+        PDC_Server_close();
 
 #ifdef ENABLE_TIMING
     PDC_print_IO_stats();
-- 
2.43.0


From cf6a6ec07984683eb003ba56ba886d82bc219e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 40/58] fix: an object property without a user has none

---
 src/api/pdc_obj/pdc_prop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 65f1985..eb6e507 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -99,6 +99,7 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         q->data_loc                       = NULL;
         q->app_name                       = NULL;
         q->time_step                      = 0;
+        q->user_id                        = 0;
         q->tags                           = NULL;
         q->buf                            = NULL;
         new_id_o                          = PDC_id_register(PDC_OBJ_PROP, q);
-- 
2.43.0


From 8136aea709409208c74aa4be3b9e61ef8a808297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 41/58] fix: closed and unknown handles are rejected, closed
 transfer requests are released

---
 src/api/pdc_client_connect.c               | 78 ++++++++++++++++------
 src/api/pdc_obj/pdc_cont.c                 | 18 +++--
 src/api/pdc_obj/pdc_obj.c                  | 15 ++++-
 src/api/pdc_obj/pdc_prop.c                 |  1 +
 src/api/pdc_region/pdc_region.c            | 14 +++-
 src/api/pdc_region/pdc_region_transfer.c   | 49 +++++++++++---
 src/commons/utils/include/pdc_linkedlist.h |  2 +-
 7 files changed, 131 insertions(+), 46 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 764db4b..beac8b8 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2001,7 +2001,7 @@ PDC_Client_add_tag(pdcid_t obj_id, const char *tag)
 {
     perr_t                         ret_value = SUCCEED;
     hg_return_t                    hg_ret    = 0;
-    hg_handle_t                    metadata_add_tag_handle;
+    hg_handle_t                    metadata_add_tag_handle = HG_HANDLE_NULL;
     uint64_t                       meta_id;
     uint32_t                       server_id;
     struct _pdc_obj_info *         obj_prop;
@@ -2013,7 +2013,9 @@ PDC_Client_add_tag(pdcid_t obj_id, const char *tag)
     if (tag == NULL || tag[0] == 0)
         PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: - invalid tag content!", pdc_client_mpi_rank_g);
 
-    obj_prop  = PDC_obj_get_info(obj_id);
+    obj_prop = PDC_obj_get_info(obj_id);
+    if (obj_prop == NULL)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
     meta_id   = obj_prop->obj_info_pub->meta_id;
     server_id = PDC_get_server_by_obj_id(meta_id, pdc_server_num_g);
 
@@ -2091,7 +2093,7 @@ PDC_Client_update_metadata(pdc_metadata_t *old, pdc_metadata_t *new)
     uint32_t                       server_id = 0;
     metadata_update_in_t           in;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    metadata_update_handle;
+    hg_handle_t                    metadata_update_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2180,7 +2182,7 @@ PDC_Client_delete_metadata_by_id(uint64_t obj_id)
     metadata_delete_by_id_in_t     in;
     uint32_t                       server_id;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    metadata_delete_by_id_handle;
+    hg_handle_t                    metadata_delete_by_id_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2230,11 +2232,13 @@ PDC_Client_delete_metadata(char *delete_name, pdcid_t obj_delete_prop)
     int                            hash_name_value;
     uint32_t                       server_id;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    metadata_delete_handle;
+    hg_handle_t                    metadata_delete_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
     delete_prop = PDC_obj_prop_get_info(obj_delete_prop);
+    if (delete_prop == NULL)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
     // Fill input structure
     in.obj_name  = delete_name;
     in.time_step = delete_prop->time_step;
@@ -2349,7 +2353,7 @@ PDC_Client_query_metadata_name_timestep(const char *obj_name, int time_step, pdc
     uint32_t                        server_id;
     metadata_query_in_t             in;
     struct _pdc_metadata_query_args lookup_args;
-    hg_handle_t                     metadata_query_handle;
+    hg_handle_t                     metadata_query_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2641,6 +2645,8 @@ PDC_Client_send_name_recv_id(const char *obj_name, uint64_t cont_id, pdcid_t obj
 #endif
 
     create_prop = PDC_obj_prop_get_info(obj_create_prop);
+    if (create_prop == NULL)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
 
     if (obj_name == NULL)
         PGOTO_ERROR(FAIL, "Cannot create object with empty object name");
@@ -5496,15 +5502,20 @@ PDC_Client_add_objects_to_container(int nobj, pdcid_t *local_obj_ids, pdcid_t lo
 
     obj_ids = (uint64_t *)malloc(sizeof(uint64_t) * nobj);
     for (i = 0; i < nobj; i++) {
-        id_info    = PDC_find_id(local_obj_ids[i]);
+        id_info = PDC_find_id(local_obj_ids[i]);
+        if (id_info == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
         obj_ids[i] = ((struct _pdc_obj_info *)(id_info->obj_ptr))->obj_info_pub->meta_id;
     }
 
-    id_info      = PDC_find_id(local_cont_id);
+    id_info = PDC_find_id(local_cont_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
     cont_meta_id = ((struct _pdc_cont_info *)(id_info->obj_ptr))->cont_info_pub->meta_id;
 
     ret_value = PDC_Client_add_del_objects_to_container(nobj, obj_ids, cont_meta_id, ADD_OBJ);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
@@ -5522,15 +5533,20 @@ PDC_Client_del_objects_to_container(int nobj, pdcid_t *local_obj_ids, pdcid_t lo
 
     obj_ids = (uint64_t *)malloc(sizeof(uint64_t) * nobj);
     for (i = 0; i < nobj; i++) {
-        id_info    = PDC_find_id(local_obj_ids[i]);
+        id_info = PDC_find_id(local_obj_ids[i]);
+        if (id_info == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
         obj_ids[i] = ((struct _pdc_obj_info *)(id_info->obj_ptr))->obj_info_pub->meta_id;
     }
 
-    id_info      = PDC_find_id(local_cont_id);
+    id_info = PDC_find_id(local_cont_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
     cont_meta_id = ((struct _pdc_cont_info *)(id_info->obj_ptr))->cont_info_pub->meta_id;
 
     ret_value = PDC_Client_add_del_objects_to_container(nobj, obj_ids, cont_meta_id, DEL_OBJ);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
@@ -7063,7 +7079,7 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     hg_return_t                    hg_ret    = 0;
     uint64_t                       meta_id;
     uint32_t                       server_id;
-    hg_handle_t                    metadata_add_kvtag_handle;
+    hg_handle_t                    metadata_add_kvtag_handle = HG_HANDLE_NULL;
     metadata_add_kvtag_in_t        in;
     struct _pdc_obj_info *         obj_prop;
     struct _pdc_cont_info *        cont_prop;
@@ -7072,13 +7088,17 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     FUNC_ENTER(NULL);
 
     if (is_cont == 0) {
-        obj_prop      = PDC_obj_get_info(obj_id);
+        obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
         meta_id       = obj_prop->obj_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(obj_prop->obj_info_pub->name);
     }
     else {
-        cont_prop     = PDC_cont_get_info(obj_id);
+        cont_prop = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
         meta_id       = cont_prop->cont_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(cont_prop->cont_info_pub->name);
@@ -7171,7 +7191,7 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     hg_return_t                hg_ret    = 0;
     uint64_t                   meta_id;
     uint32_t                   server_id;
-    hg_handle_t                metadata_get_kvtag_handle;
+    hg_handle_t                metadata_get_kvtag_handle = HG_HANDLE_NULL;
     metadata_get_kvtag_in_t    in;
     struct _pdc_get_kvtag_args lookup_args;
     struct _pdc_obj_info *     obj_prop;
@@ -7180,13 +7200,17 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     FUNC_ENTER(NULL);
 
     if (is_cont == 0) {
-        obj_prop      = PDC_obj_get_info(obj_id);
+        obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
         meta_id       = obj_prop->obj_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(obj_prop->obj_info_pub->name);
     }
     else {
-        cont_prop     = PDC_cont_get_info(obj_id);
+        cont_prop = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
         meta_id       = cont_prop->cont_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(cont_prop->cont_info_pub->name);
@@ -7476,7 +7500,7 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
     hg_return_t                    hg_ret    = 0;
     uint64_t                       meta_id;
     uint32_t                       server_id;
-    hg_handle_t                    metadata_del_kvtag_handle;
+    hg_handle_t                    metadata_del_kvtag_handle = HG_HANDLE_NULL;
     metadata_get_kvtag_in_t        in;
     struct _pdc_obj_info *         obj_prop;
     struct _pdc_cont_info *        cont_prop;
@@ -7486,11 +7510,15 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
 
     if (is_cont) {
         cont_prop = PDC_cont_get_info(obj_id);
-        meta_id   = cont_prop->cont_info_pub->meta_id;
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
+        meta_id = cont_prop->cont_info_pub->meta_id;
     }
     else {
         obj_prop = PDC_obj_get_info(obj_id);
-        meta_id  = obj_prop->obj_info_pub->meta_id;
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
+        meta_id = obj_prop->obj_info_pub->meta_id;
     }
 
     server_id = PDC_get_server_by_obj_id(meta_id, pdc_server_num_g);
@@ -7732,7 +7760,9 @@ PDCobj_put_data(const char *obj_name, void *data, uint64_t size, pdcid_t cont_id
     FUNC_ENTER(NULL);
 
     id_info = PDC_find_id(cont_id);
-    info    = (struct _pdc_cont_info *)(id_info->obj_ptr);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "==PDC_CLIENT[%d]: invalid container handle!", pdc_client_mpi_rank_g);
+    info = (struct _pdc_cont_info *)(id_info->obj_ptr);
 
     obj_prop = PDCprop_create(PDC_OBJ_CREATE, info->cont_pt->pdc->local_id);
     PDCprop_set_obj_type(obj_prop, PDC_CHAR);
@@ -7839,11 +7869,15 @@ PDC_Client_del_metadata(pdcid_t obj_id, int is_cont)
 
     if (is_cont) {
         cont_prop = PDC_cont_get_info(obj_id);
-        meta_id   = cont_prop->cont_info_pub->meta_id;
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
+        meta_id = cont_prop->cont_info_pub->meta_id;
     }
     else {
         obj_prop = PDC_obj_get_info(obj_id);
-        meta_id  = obj_prop->obj_info_pub->meta_id;
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid handle!", pdc_client_mpi_rank_g);
+        meta_id = obj_prop->obj_info_pub->meta_id;
     }
 
     ret_value = PDC_Client_delete_metadata_by_id(meta_id);
diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index 4366c41..b40236a 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -70,7 +70,9 @@ PDCcont_create(const char *cont_name, pdcid_t cont_prop_id)
         PGOTO_ERROR(0, "PDC pub container memory allocation failed");
     p->cont_info_pub->name = strdup(cont_name);
 
-    id_info   = PDC_find_id(cont_prop_id);
+    id_info = PDC_find_id(cont_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container property");
     cont_prop = (struct _pdc_cont_prop *)(id_info->obj_ptr);
 
     p->cont_pt = (struct _pdc_cont_prop *)PDC_calloc(1, sizeof(struct _pdc_cont_prop));
@@ -119,7 +121,9 @@ PDCcont_create_col(const char *cont_name, pdcid_t cont_prop_id)
         PGOTO_ERROR(0, "PDC pub container memory allocation failed");
     p->cont_info_pub->name = strdup(cont_name);
 
-    id_info   = PDC_find_id(cont_prop_id);
+    id_info = PDC_find_id(cont_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container property");
     cont_prop = (struct _pdc_cont_prop *)(id_info->obj_ptr);
 
     p->cont_pt = (struct _pdc_cont_prop *)PDC_calloc(1, sizeof(struct _pdc_cont_prop));
@@ -169,7 +173,9 @@ PDC_cont_create_local(pdcid_t pdc, const char *cont_name, uint64_t cont_meta_id)
 
     cont_prop_id = PDCprop_create(PDC_CONT_CREATE, pdc);
 
-    id_info    = PDC_find_id(cont_prop_id);
+    id_info = PDC_find_id(cont_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container property");
     cont_prop  = (struct _pdc_cont_prop *)(id_info->obj_ptr);
     p->cont_pt = (struct _pdc_cont_prop *)PDC_calloc(1, sizeof(struct _pdc_cont_prop));
     if (!p->cont_pt)
@@ -365,10 +371,8 @@ PDCcont_get_info(const char *cont_name)
     cont_id = PDC_find_byname(PDC_CONT, cont_name);
 
     tmp = PDC_cont_get_info(cont_id);
-
-    ret_value = (struct pdc_cont_info *)PDC_calloc(1, sizeof(struct pdc_cont_info));
-    if (!ret_value)
-        PGOTO_ERROR(NULL, "cannot allocate memory");
+    if (tmp == NULL)
+        PGOTO_ERROR(NULL, "cannot locate container");
 
     ret_value = tmp->cont_info_pub;
 
diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 3a5206e..efe34d3 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -251,6 +251,8 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     }
     else {
         id_info = PDC_find_id(cont_id);
+        if (id_info == NULL)
+            PGOTO_ERROR(0, "cannot locate container");
         /* struct _pdc_cont_info field */
         cont_info = (struct _pdc_cont_info *)(id_info->obj_ptr);
 
@@ -283,7 +285,9 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
         meta_id                         = p->cont->cont_info_pub->meta_id;
     }
 
-    id_info  = PDC_find_id(obj_prop_id);
+    id_info = PDC_find_id(obj_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate object property");
     obj_prop = (struct _pdc_obj_prop *)(id_info->obj_ptr);
 
     /* struct _pdc_obj_prop field */
@@ -726,7 +730,7 @@ PDCobj_iter_next(obj_handle *ohandle, pdcid_t cont_id)
 
     while (next != NULL &&
            ((struct _pdc_obj_info *)(next->obj_ptr))->cont->cont_info_pub->local_id != cont_id) {
-        next = PDC_LIST_NEXT(ohandle, entry);
+        next = PDC_LIST_NEXT(next, entry);
     }
 
     ret_value = next;
@@ -987,6 +991,8 @@ PDCobj_set_dims(pdcid_t obj_id, int ndim, uint64_t *dims)
     info = PDC_find_id(obj_id);
     if (info == NULL) {
         fprintf(stderr, "PDCobj_set_dims: cannnot find obj id @ line %d\n", __LINE__);
+        ret_value = FAIL;
+        goto done;
     }
     object = (struct _pdc_obj_info *)(info->obj_ptr);
     if (object->local_transfer_request_size) {
@@ -1023,13 +1029,16 @@ PDCobj_get_dims(pdcid_t obj_id, int *ndim, uint64_t **dims)
 
     info = PDC_find_id(obj_id);
     if (info == NULL) {
-        fprintf(stderr, "PDCobj_set_dims: cannnot find obj id @ line %d\n", __LINE__);
+        fprintf(stderr, "PDCobj_get_dims: cannnot find obj id @ line %d\n", __LINE__);
+        ret_value = FAIL;
+        goto done;
     }
     object = (struct _pdc_obj_info *)(info->obj_ptr);
     *ndim  = object->obj_pt->obj_prop_pub->ndim;
     *dims  = (uint64_t *)malloc(sizeof(uint64_t) * ndim[0]);
     memcpy(*dims, object->obj_pt->obj_prop_pub->dims, sizeof(uint64_t) * ndim[0]);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index eb6e507..c623122 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -163,6 +163,7 @@ PDCprop_obj_dup(pdcid_t prop_id)
     q->obj_prop_pub->dims             = (uint64_t *)malloc(info->obj_prop_pub->ndim * sizeof(uint64_t));
     q->obj_prop_pub->type             = PDC_UNKNOWN;
     q->obj_prop_pub->region_partition = info->obj_prop_pub->region_partition;
+    q->obj_prop_pub->consistency      = info->obj_prop_pub->consistency;
     for (i = 0; i < info->obj_prop_pub->ndim; i++)
         (q->obj_prop_pub->dims)[i] = (info->obj_prop_pub->dims)[i];
 
diff --git a/src/api/pdc_region/pdc_region.c b/src/api/pdc_region/pdc_region.c
index 5b5aa1f..8d52f2f 100644
--- a/src/api/pdc_region/pdc_region.c
+++ b/src/api/pdc_region/pdc_region.c
@@ -223,7 +223,9 @@ PDCbuf_obj_map(void *buf, pdc_var_type_t local_type, pdcid_t local_reg, pdcid_t
     FUNC_ENTER(NULL);
 
     reginfo1 = PDC_find_id(local_reg);
-    reg1     = (struct pdc_region_info *)(reginfo1->obj_ptr);
+    if (reginfo1 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate local region ID");
+    reg1 = (struct pdc_region_info *)(reginfo1->obj_ptr);
 
     objinfo2 = PDC_find_id(remote_obj);
     if (objinfo2 == NULL)
@@ -234,7 +236,9 @@ PDCbuf_obj_map(void *buf, pdc_var_type_t local_type, pdcid_t local_reg, pdcid_t
     remote_type    = obj2->obj_pt->obj_prop_pub->type;
 
     reginfo2 = PDC_find_id(remote_reg);
-    reg2     = (struct pdc_region_info *)(reginfo2->obj_ptr);
+    if (reginfo2 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate remote region ID");
+    reg2 = (struct pdc_region_info *)(reginfo2->obj_ptr);
     if (obj2->obj_pt->obj_prop_pub->ndim != reg2->ndim)
         PGOTO_ERROR(FAIL, "remote object dimension and region dimension does not match");
     for (i = 0; i < reg2->ndim; i++)
@@ -335,7 +339,9 @@ PDCreg_obtain_lock(pdcid_t obj_id, pdcid_t reg_id, pdc_access_t access_type, pdc
     // object_info = PDC_obj_get_info(obj_id);
     data_type   = object_info->obj_pt->obj_prop_pub->type;
     region_info = PDCregion_get_info(reg_id);
-    ret_value   = PDC_Client_region_lock(object_info->obj_info_pub->meta_id, object_info, region_info,
+    if (region_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate region ID");
+    ret_value = PDC_Client_region_lock(object_info->obj_info_pub->meta_id, object_info, region_info,
                                        access_type, lock_mode, data_type, &obtained);
 
     // PDC_free_obj_info(object_info);
@@ -362,6 +368,8 @@ PDCreg_release_lock(pdcid_t obj_id, pdcid_t reg_id, pdc_access_t access_type)
     // object_info = PDC_obj_get_info(obj_id);
     data_type   = object_info->obj_pt->obj_prop_pub->type;
     region_info = PDCregion_get_info(reg_id);
+    if (region_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate region ID");
 
     ret_value = PDC_Client_region_release(object_info->obj_info_pub->meta_id, object_info, region_info,
                                           access_type, data_type, &released);
diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index e4a169c..e6754e8 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -199,12 +199,16 @@ PDCregion_transfer_create(void *buf, pdc_access_t access_type, pdcid_t obj_id, p
 
     FUNC_ENTER(NULL);
     reginfo1 = PDC_find_id(local_reg);
+    if (reginfo1 == NULL)
+        PGOTO_ERROR(0, "cannot locate local region ID");
     reg1     = (struct pdc_region_info *)(reginfo1->obj_ptr);
     reginfo2 = PDC_find_id(remote_reg);
+    if (reginfo2 == NULL)
+        PGOTO_ERROR(0, "cannot locate remote region ID");
     reg2     = (struct pdc_region_info *)(reginfo2->obj_ptr);
     objinfo2 = PDC_find_id(obj_id);
     if (objinfo2 == NULL)
-        PGOTO_ERROR(FAIL, "cannot locate remote object ID");
+        PGOTO_ERROR(0, "cannot locate remote object ID");
     obj2 = (struct _pdc_obj_info *)(objinfo2->obj_ptr);
     // remote_meta_id = obj2->obj_info_pub->meta_id;
 
@@ -283,13 +287,12 @@ PDCregion_transfer_close(pdcid_t transfer_request_id)
     FUNC_ENTER(NULL);
 
     transferinfo = PDC_find_id(transfer_request_id);
-    if (transferinfo == NULL) {
-        goto done;
-    }
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
-    if (transfer_request->metadata_id == NULL) {
-        goto done;
-    }
+    // A request that has been started and not waited for is waited for here.
+    if (transfer_request->metadata_id != NULL)
+        PDCregion_transfer_wait(transfer_request_id);
 
     // Check for consistency
     /*
@@ -944,8 +947,14 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
     posix_size_ptr[0]              = 0;
     *posix_transfer_request_id_ptr = (pdcid_t *)malloc(sizeof(pdcid_t) * size);
 
+    // Start all requests or none
     for (i = 0; i < size; ++i) {
-        transferinfo     = PDC_find_id(transfer_request_id[i]);
+        transferinfo = PDC_find_id(transfer_request_id[i]);
+        if (transferinfo == NULL) {
+            printf("PDC Client PDCregion_transfer_start_all cannot locate transfer request @ line %d\n",
+                   __LINE__);
+            return FAIL;
+        }
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
         if (transfer_request->metadata_id != NULL) {
             printf("PDC Client PDCregion_transfer_start_all attempt to start existing transfer request @ "
@@ -953,6 +962,11 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
                    __LINE__);
             return FAIL;
         }
+    }
+
+    for (i = 0; i < size; ++i) {
+        transferinfo     = PDC_find_id(transfer_request_id[i]);
+        transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
         if (transfer_request->consistency == PDC_CONSISTENCY_POSIX) {
             posix_transfer_request_id_ptr[0][posix_size_ptr[0]] = transfer_request_id[i];
             posix_size_ptr[0]++;
@@ -1342,6 +1356,10 @@ PDCregion_transfer_start_all(pdcid_t *transfer_request_id, int size)
     ret_value = prepare_start_all_requests(transfer_request_id, size, &write_transfer_requests,
                                            &read_transfer_requests, &write_size, &read_size,
                                            &posix_transfer_request_id, &posix_size);
+    if (ret_value != SUCCEED) {
+        free(posix_transfer_request_id);
+        goto done;
+    }
     /*
         printf("PDCregion_transfer_start_all: checkpoint %d, write_size = %d, read_size = %d\n", __LINE__,
                write_size, read_size);
@@ -1370,6 +1388,7 @@ PDCregion_transfer_start_all(pdcid_t *transfer_request_id, int size)
     finish_start_all_requests(write_transfer_requests, read_transfer_requests, write_size, read_size);
     // fprintf(stderr, "PDCregion_transfer_start_all: checkpoint %d\n", __LINE__);
     // MPI_Barrier(MPI_COMM_WORLD);
+done:
     FUNC_LEAVE(ret_value);
 }
 
@@ -1442,6 +1461,8 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
     FUNC_ENTER(NULL);
 
     transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
 
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
 
@@ -1610,7 +1631,9 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
 
     FUNC_ENTER(NULL);
 
-    transferinfo     = PDC_find_id(transfer_request_id);
+    transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
     if (transfer_request->metadata_id != NULL) {
         unit = transfer_request->unit;
@@ -1730,6 +1753,10 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
     // printf("entered PDCregion_transfer_wait_all @ line %d\n", __LINE__);
     total_requests        = 0;
     transfer_request_head = NULL;
+    for (i = 0; i < size; ++i) {
+        if (PDC_find_id(transfer_request_id[i]) == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
+    }
     for (i = 0; i < size; ++i) {
         transferinfo     = PDC_find_id(transfer_request_id[i]);
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
@@ -1930,7 +1957,9 @@ PDCregion_transfer_wait(pdcid_t transfer_request_id)
 
     FUNC_ENTER(NULL);
 
-    transferinfo     = PDC_find_id(transfer_request_id);
+    transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
     if (transfer_request->metadata_id != NULL) {
         // For region dynamic case, it is implemented in the aggregated version for portability.
diff --git a/src/commons/utils/include/pdc_linkedlist.h b/src/commons/utils/include/pdc_linkedlist.h
index a9de691..1c04fdd 100644
--- a/src/commons/utils/include/pdc_linkedlist.h
+++ b/src/commons/utils/include/pdc_linkedlist.h
@@ -109,7 +109,7 @@
     for ((var) = ((head_ptr)->head); (var); (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH(var, head_ptr, entry_field_name, item, value)                                        \
-    for ((var) = ((head_ptr)->head); (((var)->item != value) && (var));                                      \
+    for ((var) = ((head_ptr)->head); ((var) && ((var)->item != value));                                      \
          (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH_CONT_NAME(var, head_ptr, entry_field_name, member, n, name)                          \
-- 
2.43.0


From 5a2387d9a3e9febce4cf9a83a79093f7935b61c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 42/58] fix: waiting for several transfers of which some are of
 POSIX objects

---
 src/api/pdc_region/pdc_region_transfer.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index e6754e8..974e991 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1381,7 +1381,7 @@ PDCregion_transfer_start_all(pdcid_t *transfer_request_id, int size)
     */
 
     // For POSIX consistency, we block here until the data is received by the server
-    PDCregion_transfer_wait_all(posix_transfer_request_id, posix_size);
+    ret_value = PDCregion_transfer_wait_all(posix_transfer_request_id, posix_size);
     free(posix_transfer_request_id);
 
     // Clean up memory
@@ -1553,7 +1553,7 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
 
     // For POSIX consistency, we block here until the data is received by the server
     if (transfer_request->consistency == PDC_CONSISTENCY_POSIX) {
-        PDCregion_transfer_wait(transfer_request_id);
+        ret_value = PDCregion_transfer_wait(transfer_request_id);
     }
 
 done:
@@ -1761,6 +1761,9 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
         transferinfo     = PDC_find_id(transfer_request_id[i]);
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
         if (!transfer_request->metadata_id) {
+            // With POSIX consistency the request has been waited for when it was started
+            if (transfer_request->consistency == PDC_CONSISTENCY_POSIX)
+                continue;
             fprintf(stderr,
                     "PDCregion_transfer_wait_all [rank %d] @ line %d: Attempt to wait for a transfer request "
                     "that has not been started.\n",
@@ -1902,6 +1905,8 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
         transferinfo     = PDC_find_id(transfer_request_id[i]);
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
         unit             = transfer_request->unit;
+        if (transfer_request->metadata_id == NULL)
+            continue;
 
         if (transfer_request->region_partition == PDC_OBJ_STATIC &&
             transfer_request->access_type == PDC_READ) {
-- 
2.43.0


From 288413c68a8afa176e19eafafa88ef2122f05b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 43/58] fix: the consistency of an object is stored with it

---
 src/api/pdc_client_connect.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index beac8b8..1ae06eb 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2657,6 +2657,7 @@ PDC_Client_send_name_recv_id(const char *obj_name, uint64_t cont_id, pdcid_t obj
     in.data.cont_id          = cont_id;
     in.data.time_step        = create_prop->time_step;
     in.data.user_id          = create_prop->user_id;
+    in.data.consistency      = create_prop->obj_prop_pub->consistency;
     in.data_type             = create_prop->obj_prop_pub->type;
     in.data.data_server_id   = PDC_CLIENT_DATA_SERVER();
     in.data.region_partition = create_prop->obj_prop_pub->region_partition;
-- 
2.43.0


From 1ac9f56b4ba138ca93f4ed7657897cbcc33baf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:36 +0000
Subject: [PATCH 44/58] fix: the radix tree kept the children of 16-way nodes
 in signed byte order

---
 src/commons/collections/art.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 7170e8e..163ddcd 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -492,8 +492,9 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
 #ifdef __i386__
         __m128i cmp;
 
-        // Compare the key to all 16 stored keys
-        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c), _mm_loadu_si128((__m128i *)n->keys));
+        // Compare the key to all 16 stored keys. The comparison is signed, flip the sign bits
+        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c ^ 0x80),
+                             _mm_xor_si128(_mm_loadu_si128((__m128i *)n->keys), _mm_set1_epi8(-128)));
 
         // Use a mask to ignore children that don't exist
         unsigned bitfield = _mm_movemask_epi8(cmp) & mask;
@@ -501,8 +502,9 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
 #ifdef __amd64__
         __m128i cmp;
 
-        // Compare the key to all 16 stored keys
-        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c), _mm_loadu_si128((__m128i *)n->keys));
+        // Compare the key to all 16 stored keys. The comparison is signed, flip the sign bits
+        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c ^ 0x80),
+                             _mm_xor_si128(_mm_loadu_si128((__m128i *)n->keys), _mm_set1_epi8(-128)));
 
         // Use a mask to ignore children that don't exist
         unsigned bitfield = _mm_movemask_epi8(cmp) & mask;
-- 
2.43.0


From 4b2398195cdbe23e589c8e598f53c93f874f4fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:24 +0000
Subject: [PATCH 45/58] fix: radix tree insertion and deletion when memory
 cannot be allocated

---
 src/commons/collections/art.c         | 80 ++++++++++++++++++++-------
 src/commons/collections/include/art.h |  6 +-
 2 files changed, 64 insertions(+), 22 deletions(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 163ddcd..e9bdc77 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -72,7 +72,8 @@ alloc_node(uint8_t type)
         default:
             abort();
     }
-    n->type = type;
+    if (n)
+        n->type = type;
     return n;
 }
 
@@ -423,6 +424,8 @@ static art_leaf *
 make_leaf(const unsigned char *key, int key_len, void *value)
 {
     art_leaf *l = (art_leaf *)PDC_calloc(1, sizeof(art_leaf) + key_len);
+    if (!l)
+        return NULL;
     l->value    = value;
     l->key_len  = key_len;
     memcpy(l->key, key, key_len);
@@ -449,15 +452,17 @@ copy_header(art_node *dest, art_node *src)
     memcpy(dest->partial, src->partial, min(MAX_PREFIX_LEN, src->partial_len));
 }
 
-static void
+// The add_child functions return 0, or -1 without changing the node when there is no memory to enlarge it
+static int
 add_child256(art_node256 *n, art_node **ref, unsigned char c, void *child)
 {
     (void)ref;
     n->n.num_children++;
     n->children[c] = (art_node *)child;
+    return 0;
 }
 
-static void
+static int
 add_child48(art_node48 *n, art_node **ref, unsigned char c, void *child)
 {
     if (n->n.num_children < 48) {
@@ -470,6 +475,8 @@ add_child48(art_node48 *n, art_node **ref, unsigned char c, void *child)
     }
     else {
         art_node256 *new_node = (art_node256 *)alloc_node(NODE256);
+        if (!new_node)
+            return -1;
         for (int i = 0; i < 256; i++) {
             if (n->keys[i]) {
                 new_node->children[i] = n->children[n->keys[i] - 1];
@@ -478,11 +485,12 @@ add_child48(art_node48 *n, art_node **ref, unsigned char c, void *child)
         copy_header((art_node *)new_node, (art_node *)n);
         *ref = (art_node *)new_node;
         free(n);
-        add_child256(new_node, ref, c, child);
+        return add_child256(new_node, ref, c, child);
     }
+    return 0;
 }
 
-static void
+static int
 add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
 {
     if (n->n.num_children < 16) {
@@ -538,6 +546,8 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
     }
     else {
         art_node48 *new_node = (art_node48 *)alloc_node(NODE48);
+        if (!new_node)
+            return -1;
 
         // Copy the child pointers and populate the key map
         memcpy(new_node->children, n->children, sizeof(void *) * n->n.num_children);
@@ -547,11 +557,12 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
         copy_header((art_node *)new_node, (art_node *)n);
         *ref = (art_node *)new_node;
         free(n);
-        add_child48(new_node, ref, c, child);
+        return add_child48(new_node, ref, c, child);
     }
+    return 0;
 }
 
-static void
+static int
 add_child4(art_node4 *n, art_node **ref, unsigned char c, void *child)
 {
     if (n->n.num_children < 4) {
@@ -572,6 +583,8 @@ add_child4(art_node4 *n, art_node **ref, unsigned char c, void *child)
     }
     else {
         art_node16 *new_node = (art_node16 *)alloc_node(NODE16);
+        if (!new_node)
+            return -1;
 
         // Copy the child pointers and the key map
         memcpy(new_node->children, n->children, sizeof(void *) * n->n.num_children);
@@ -579,11 +592,12 @@ add_child4(art_node4 *n, art_node **ref, unsigned char c, void *child)
         copy_header((art_node *)new_node, (art_node *)n);
         *ref = (art_node *)new_node;
         free(n);
-        add_child16(new_node, ref, c, child);
+        return add_child16(new_node, ref, c, child);
     }
+    return 0;
 }
 
-static void
+static int
 add_child(art_node *n, art_node **ref, unsigned char c, void *child)
 {
     switch (n->type) {
@@ -626,13 +640,18 @@ prefix_mismatch(const art_node *n, const unsigned char *key, int key_len, int de
     return idx;
 }
 
+// *old is set to 1 if the key was in the tree, and to -1 if there is no memory to insert it
 static void *
 recursive_insert(art_node *n, art_node **ref, const unsigned char *key, int key_len, void *value, int depth,
                  int *old, int replace)
 {
     // If we are at a NULL node, inject a leaf
     if (!n) {
-        *ref = (art_node *)SET_LEAF(make_leaf(key, key_len, value));
+        art_leaf *l = make_leaf(key, key_len, value);
+        if (l)
+            *ref = (art_node *)SET_LEAF(l);
+        else
+            *old = -1;
         return NULL;
     }
 
@@ -654,6 +673,12 @@ recursive_insert(art_node *n, art_node **ref, const unsigned char *key, int key_
 
         // Create a new leaf
         art_leaf *l2 = make_leaf(key, key_len, value);
+        if (!new_node || !l2) {
+            free(new_node);
+            free(l2);
+            *old = -1;
+            return NULL;
+        }
 
         // Determine longest prefix
         int longest_prefix      = longest_common_prefix(l, l2, depth);
@@ -676,7 +701,14 @@ recursive_insert(art_node *n, art_node **ref, const unsigned char *key, int key_
         }
 
         // Create a new node
-        art_node4 *new_node     = (art_node4 *)alloc_node(NODE4);
+        art_node4 *new_node = (art_node4 *)alloc_node(NODE4);
+        art_leaf * new_leaf = make_leaf(key, key_len, value);
+        if (!new_node || !new_leaf) {
+            free(new_node);
+            free(new_leaf);
+            *old = -1;
+            return NULL;
+        }
         *ref                    = (art_node *)new_node;
         new_node->n.partial_len = prefix_diff;
         memcpy(new_node->n.partial, n->partial, min(MAX_PREFIX_LEN, prefix_diff));
@@ -695,8 +727,7 @@ recursive_insert(art_node *n, art_node **ref, const unsigned char *key, int key_
         }
 
         // Insert the new leaf
-        art_leaf *l = make_leaf(key, key_len, value);
-        add_child4(new_node, ref, key[depth + prefix_diff], SET_LEAF(l));
+        add_child4(new_node, ref, key[depth + prefix_diff], SET_LEAF(new_leaf));
         return NULL;
     }
 
@@ -710,7 +741,10 @@ RECURSE_SEARCH:;
 
     // No child, node goes within us
     art_leaf *l = make_leaf(key, key_len, value);
-    add_child(n, ref, key[depth], SET_LEAF(l));
+    if (!l || add_child(n, ref, key[depth], SET_LEAF(l)) != 0) {
+        free(l);
+        *old = -1;
+    }
     return NULL;
 }
 
@@ -760,9 +794,11 @@ remove_child256(art_node256 *n, art_node **ref, unsigned char c)
 
     // Resize to a node48 on underflow, not immediately to prevent
     // trashing if we sit on the 48/49 boundary
-    if (n->n.num_children == 37) {
+    if (n->n.num_children <= 37) {
         art_node48 *new_node = (art_node48 *)alloc_node(NODE48);
-        *ref                 = (art_node *)new_node;
+        if (!new_node)
+            return;
+        *ref = (art_node *)new_node;
         copy_header((art_node *)new_node, (art_node *)n);
 
         int pos = 0;
@@ -785,9 +821,11 @@ remove_child48(art_node48 *n, art_node **ref, unsigned char c)
     n->children[pos - 1] = NULL;
     n->n.num_children--;
 
-    if (n->n.num_children == 12) {
+    if (n->n.num_children <= 12) {
         art_node16 *new_node = (art_node16 *)alloc_node(NODE16);
-        *ref                 = (art_node *)new_node;
+        if (!new_node)
+            return;
+        *ref = (art_node *)new_node;
         copy_header((art_node *)new_node, (art_node *)n);
 
         int child = 0;
@@ -811,9 +849,11 @@ remove_child16(art_node16 *n, art_node **ref, art_node **l)
     memmove(n->children + pos, n->children + pos + 1, (n->n.num_children - 1 - pos) * sizeof(void *));
     n->n.num_children--;
 
-    if (n->n.num_children == 3) {
+    if (n->n.num_children <= 3) {
         art_node4 *new_node = (art_node4 *)alloc_node(NODE4);
-        *ref                = (art_node *)new_node;
+        if (!new_node)
+            return;
+        *ref = (art_node *)new_node;
         copy_header((art_node *)new_node, (art_node *)n);
         memcpy(new_node->keys, n->keys, 4);
         memcpy(new_node->children, n->children, 4 * sizeof(void *));
diff --git a/src/commons/collections/include/art.h b/src/commons/collections/include/art.h
index 0b918a0..d79d95a 100644
--- a/src/commons/collections/include/art.h
+++ b/src/commons/collections/include/art.h
@@ -165,7 +165,8 @@ art_size(art_tree *t)
  * @arg key the key
  * @arg key_len the length of the key
  * @arg value opaque value.
- * @return null if the item was newly inserted, otherwise
+ * @return null if the item was newly inserted (or cannot be for lack of memory, then the
+ * tree and its size are unchanged), otherwise
  * the old value pointer is returned.
  */
 void *art_insert(art_tree *t, const unsigned char *key, int key_len, void *value);
@@ -176,7 +177,8 @@ void *art_insert(art_tree *t, const unsigned char *key, int key_len, void *value
  * @arg key the key
  * @arg key_len the length of the key
  * @arg value opaque value.
- * @return null if the item was newly inserted, otherwise
+ * @return null if the item was newly inserted (or cannot be for lack of memory, then the
+ * tree and its size are unchanged), otherwise
  * the old value pointer is returned.
  */
 void *art_insert_no_replace(art_tree *t, const unsigned char *key, int key_len, void *value);
-- 
2.43.0


From 0ae7a620589f6c680484bb3647fe01a3a943874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 46/58] fix: region locks are passed on to one waiter, mapped
 buffers belong to their client

---
 src/server/pdc_client_server_common.c         |  79 +++--
 .../pdc_server_region/pdc_server_data.c       | 325 +++++++++---------
 2 files changed, 218 insertions(+), 186 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index a42ecf1..ee17b1a 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -2645,6 +2645,7 @@ buf_map_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info)
     region_buf_map_t *    elt;
 #else
     struct pdc_region_info *remote_reg_info = NULL;
+    perr_t                  data_ret        = FAIL;
 #endif
 
     FUNC_ENTER(NULL);
@@ -2668,10 +2669,10 @@ buf_map_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info)
         PGOTO_ERROR(HG_PROTOCOL_ERROR, "Error in region_release_bulk_transfer_cb()");
     }
 
+#ifdef ENABLE_MULTITHREAD
     out.ret = 1;
     HG_Respond(bulk_args->handle, NULL, NULL, &out);
 
-#ifdef ENABLE_MULTITHREAD
     bulk_args->work.func = pdc_region_write_out_progress;
     bulk_args->work.args = bulk_args;
 
@@ -2727,17 +2728,13 @@ buf_map_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info)
                               (bulk_args->in).data_unit);
 */
 #ifdef PDC_SERVER_CACHE
-    PDC_transfer_request_data_write_out(bulk_args->remote_obj_id, 0, NULL, remote_reg_info,
-                                        (void *)bulk_args->data_buf, (bulk_args->in).data_unit);
+    data_ret = PDC_transfer_request_data_write_out(bulk_args->remote_obj_id, 0, NULL, remote_reg_info,
+                                                   (void *)bulk_args->data_buf, (bulk_args->in).data_unit);
 #else
-    PDC_Server_transfer_request_io(bulk_args->remote_obj_id, 0, NULL, remote_reg_info, bulk_args->data_buf,
-                                   (bulk_args->in).data_unit, 1);
+    data_ret = PDC_Server_transfer_request_io(bulk_args->remote_obj_id, 0, NULL, remote_reg_info,
+                                              bulk_args->data_buf, (bulk_args->in).data_unit, 1);
 #endif
 
-    // Perform lock release function
-    PDC_Data_Server_region_release(&(bulk_args->in), &out);
-
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, remote_reg_info);
 #endif
 
 #ifdef PDC_TIMING
@@ -2750,9 +2747,17 @@ done:
     fflush(stdout);
 
 #ifndef ENABLE_MULTITHREAD
-    free(remote_reg_info->offset);
-    free(remote_reg_info->size);
-    free(remote_reg_info);
+    // Perform lock release function
+    PDC_Data_Server_region_release(&(bulk_args->in), &out);
+    if (data_ret != SUCCEED)
+        out.ret = 0;
+    HG_Respond(bulk_args->handle, NULL, NULL, &out);
+
+    if (remote_reg_info != NULL) {
+        free(remote_reg_info->offset);
+        free(remote_reg_info->size);
+        free(remote_reg_info);
+    }
 
     HG_Bulk_free(bulk_args->remote_bulk_handle);
     HG_Free_input(bulk_args->handle, &(bulk_args->in));
@@ -2794,10 +2799,6 @@ obj_map_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info)
         PGOTO_ERROR(HG_PROTOCOL_ERROR, "Error in region_release_bulk_transfer_cb()");
     }
 
-    // release the lock
-    PDC_Data_Server_region_release(&(bulk_args->in), &out);
-    HG_Respond(bulk_args->handle, NULL, NULL, &out);
-
 #ifdef PDC_TIMING
     end = MPI_Wtime();
     pdc_server_timings->PDCreg_release_lock_bulk_transfer_inner_read_rpc += end - start;
@@ -2806,7 +2807,16 @@ obj_map_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info)
 
 done:
     fflush(stdout);
+    // release the lock
+    PDC_Data_Server_region_release(&(bulk_args->in), &out);
+    if (ret_value != HG_SUCCESS)
+        out.ret = 0;
+    HG_Respond(bulk_args->handle, NULL, NULL, &out);
+
+    free(bulk_args->remote_reg_info->offset);
+    free(bulk_args->remote_reg_info->size);
     free(bulk_args->remote_reg_info);
+    HG_Bulk_free(bulk_args->remote_bulk_handle);
     HG_Free_input(bulk_args->handle, &(bulk_args->in));
     HG_Destroy(bulk_args->handle);
     free(bulk_args);
@@ -2898,6 +2908,11 @@ HG_TEST_RPC_CB(region_release, handle)
         request_region = (region_list_t *)malloc(sizeof(region_list_t));
         PDC_region_transfer_t_to_list_t(&in.region, request_region);
         target_obj = PDC_Server_get_obj_region(in.obj_id);
+        if (target_obj == NULL) {
+            free(request_region);
+            error = 1;
+            PGOTO_ERROR(HG_OTHER_ERROR, "==PDC SERVER: no region of the object is locked");
+        }
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
 #endif
@@ -2949,14 +2964,16 @@ HG_TEST_RPC_CB(region_release, handle)
 
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) > 0) {
-                dirty_reg = 1;
-                tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+                tmp = (region_list_t *)malloc(sizeof(region_list_t));
                 DL_FOREACH_SAFE(target_obj->region_buf_map_head, eltt2, eltt_tmp)
                 {
                     PDC_region_transfer_t_to_list_t(&(eltt2->remote_region_unit), tmp);
-                    if (PDC_is_same_region_list(tmp, request_region) == 1) {
+                    // the buffer of the client that releases the lock
+                    if (PDC_is_same_region_list(tmp, request_region) == 1 &&
+                        HG_Addr_cmp(hg_info->hg_class, hg_info->addr, eltt2->local_addr)) {
+                        dirty_reg = 1;
                         // get remote object memory addr
-                        data_buf = PDC_Server_get_region_buf_ptr(in.obj_id, in.region);
+                        data_buf = eltt2->remote_data_ptr;
                         if (in.region.ndim == 1) {
                             remote_count  = 1;
                             data_ptrs_to  = (void **)malloc(sizeof(void *));
@@ -3158,6 +3175,11 @@ HG_TEST_RPC_CB(region_release, handle)
         request_region = (region_list_t *)malloc(sizeof(region_list_t));
         PDC_region_transfer_t_to_list_t(&in.region, request_region);
         target_obj = PDC_Server_get_obj_region(in.obj_id);
+        if (target_obj == NULL) {
+            free(request_region);
+            error = 1;
+            PGOTO_ERROR(HG_OTHER_ERROR, "==PDC SERVER: no region of the object is locked");
+        }
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
 #endif
@@ -3165,15 +3187,17 @@ HG_TEST_RPC_CB(region_release, handle)
         {
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) > 0) {
-                dirty_reg = 1;
-                tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+                tmp = (region_list_t *)malloc(sizeof(region_list_t));
                 DL_FOREACH(target_obj->region_buf_map_head, eltt)
                 {
                     PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
-                    if (PDC_is_same_region_list(tmp, request_region) == 1) {
+                    // the buffer of the client that releases the lock
+                    if (PDC_is_same_region_list(tmp, request_region) == 1 &&
+                        HG_Addr_cmp(hg_info->hg_class, hg_info->addr, eltt->local_addr)) {
+                        dirty_reg = 1;
                         // type_size = eltt->remote_unit;
                         // get remote object memory addr
-                        data_buf = PDC_Server_get_region_buf_ptr(in.obj_id, in.region);
+                        data_buf = eltt->remote_data_ptr;
                         if (in.region.ndim == 1) {
                             remote_count  = 1;
                             data_ptrs_to  = (void **)malloc(sizeof(void *));
@@ -4266,13 +4290,12 @@ HG_TEST_RPC_CB(buf_unmap, handle)
     ret = PDC_Data_Server_buf_unmap(info, &in);
     if (ret != SUCCEED) {
         out.ret = 0;
-        PGOTO_ERROR(
-            HG_OTHER_ERROR,
-            "===PDC_DATA_SERVER: HG_TEST_RPC_CB(buf_unmap, handle) - PDC_Data_Server_buf_unmap() failed");
-        fflush(stdout);
         HG_Respond(handle, NULL, NULL, &out);
         HG_Free_input(handle, &in);
         HG_Destroy(handle);
+        PGOTO_ERROR(
+            HG_OTHER_ERROR,
+            "===PDC_DATA_SERVER: HG_TEST_RPC_CB(buf_unmap, handle) - PDC_Data_Server_buf_unmap() failed");
     }
     else {
         out.ret = 1;
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 40b027f..74a04de 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -26,6 +26,7 @@
 #include <time.h>
 #include <sys/time.h>
 #include <unistd.h>
+#include <pthread.h>
 #include <sys/syscall.h>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -57,8 +58,9 @@
 #include "pdc_region.h"
 
 // Global object region info list in local data server
-data_server_region_t *      dataserver_region_g     = NULL;
-data_server_region_unmap_t *dataserver_region_unmap = NULL;
+data_server_region_t *      dataserver_region_g          = NULL;
+static pthread_mutex_t      dataserver_region_list_mutex = PTHREAD_MUTEX_INITIALIZER;
+data_server_region_unmap_t *dataserver_region_unmap      = NULL;
 
 int pdc_buffered_bulk_update_total_g = 0;
 int pdc_nbuffered_bulk_update_g      = 0;
@@ -117,13 +119,6 @@ fill_storage_path(char *storage_location, pdcid_t obj_id)
     return 0;
 }
 
-static int
-server_open_storage(char *storage_location, pdcid_t obj_id)
-{
-    fill_storage_path(storage_location, obj_id);
-    return open(storage_location, O_RDWR | O_CREAT, 0666);
-}
-
 perr_t
 PDC_Server_set_lustre_stripe(const char *path, int stripe_count, int stripe_size_MB)
 {
@@ -287,6 +282,7 @@ PDC_Server_get_obj_region(pdcid_t obj_id)
 
     FUNC_ENTER(NULL);
 
+    pthread_mutex_lock(&dataserver_region_list_mutex);
     if (dataserver_region_g != NULL) {
         DL_FOREACH(dataserver_region_g, elt)
         {
@@ -294,10 +290,54 @@ PDC_Server_get_obj_region(pdcid_t obj_id)
                 ret_value = elt;
         }
     }
+    pthread_mutex_unlock(&dataserver_region_list_mutex);
 
     FUNC_LEAVE(ret_value);
 }
 
+/*
+ * Get the record of an object's regions, create it if there is none.
+ * The storage of a new record is opened when it is needed first.
+ *
+ * \param  obj_id[IN]     Object ID
+ *
+ * \return Pointer to the record, NULL without memory
+ */
+static data_server_region_t *
+PDC_Server_get_or_new_obj_region(pdcid_t obj_id)
+{
+    data_server_region_t *ret_value = NULL;
+    data_server_region_t *elt       = NULL;
+
+    FUNC_ENTER(NULL);
+
+    // The thread that flushes the cache creates records, too
+    pthread_mutex_lock(&dataserver_region_list_mutex);
+    DL_FOREACH(dataserver_region_g, elt)
+    {
+        if (elt->obj_id == obj_id)
+            ret_value = elt;
+    }
+    if (ret_value == NULL) {
+        ret_value = (data_server_region_t *)calloc(1, sizeof(struct data_server_region_t));
+        if (ret_value == NULL)
+            goto done;
+        ret_value->obj_id           = obj_id;
+        ret_value->fd               = -1;
+        ret_value->storage_location = (char *)calloc(ADDR_MAX, sizeof(char));
+        if (ret_value->storage_location == NULL) {
+            free(ret_value);
+            ret_value = NULL;
+            goto done;
+        }
+        DL_APPEND(dataserver_region_g, ret_value);
+    }
+
+done:
+    pthread_mutex_unlock(&dataserver_region_list_mutex);
+    FUNC_LEAVE(ret_value);
+}
+
 perr_t
 PDC_Server_clear_obj_region()
 {
@@ -331,39 +371,20 @@ PDC_Server_register_obj_region_by_pointer(data_server_region_t **new_obj_reg_ptr
     FUNC_ENTER(NULL);
 
     if (new_obj_reg == NULL) {
-        new_obj_reg = (data_server_region_t *)malloc(sizeof(struct data_server_region_t));
-        if (new_obj_reg == NULL) {
-            ret_value = FAIL;
-        }
-        new_obj_reg->obj_id                   = obj_id;
-        new_obj_reg->region_lock_head         = NULL;
-        new_obj_reg->region_buf_map_head      = NULL;
-        new_obj_reg->region_lock_request_head = NULL;
-        new_obj_reg->region_storage_head      = NULL;
-        new_obj_reg->close_flag               = close_flag;
-        new_obj_reg->storage_location         = (char *)malloc(sizeof(char) * ADDR_MAX);
-
-        new_obj_reg->fd = server_open_storage(new_obj_reg->storage_location, obj_id);
+        new_obj_reg = PDC_Server_get_or_new_obj_region(obj_id);
+        if (new_obj_reg == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_SERVER: cannot allocate the record of an object");
+    }
+    if (new_obj_reg->fd == -1) {
+        fill_storage_path(new_obj_reg->storage_location, obj_id);
+    }
+    if (new_obj_reg->fd < 0) {
+        new_obj_reg->close_flag = close_flag;
+        new_obj_reg->fd         = open(new_obj_reg->storage_location, O_RDWR | O_CREAT, 0666);
         if (new_obj_reg->fd < 0) {
-            free(new_obj_reg->storage_location);
-            free(new_obj_reg);
             ret_value = FAIL;
             goto done;
         }
-        DL_APPEND(dataserver_region_g, new_obj_reg);
-    }
-    else {
-        if (new_obj_reg->fd == -1) {
-            fill_storage_path(new_obj_reg->storage_location, obj_id);
-        }
-        if (new_obj_reg->fd < 0) {
-            new_obj_reg->close_flag = close_flag;
-            new_obj_reg->fd         = open(new_obj_reg->storage_location, O_RDWR | O_CREAT, 0666);
-            if (new_obj_reg->fd < 0) {
-                ret_value = FAIL;
-                goto done;
-            }
-        }
     }
     *new_obj_reg_ptr = new_obj_reg;
 
@@ -411,6 +432,90 @@ PDC_Server_unregister_obj_region(pdcid_t obj_id)
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_unregister_obj_region
 
+/*
+ * Add a region to the locked regions of an object
+ *
+ * \param  obj_reg[IN]        Record of the object
+ * \param  request_region[IN] Region to be locked, owned by the list afterwards
+ */
+static void
+PDC_Server_hold_region_lock(data_server_region_t *obj_reg, region_list_t *request_region)
+{
+    region_list_t *   tmp;
+    region_buf_map_t *eltt;
+
+    FUNC_ENTER(NULL);
+
+    // check if the lock region is used in buf map function
+    tmp = (region_list_t *)malloc(sizeof(region_list_t));
+    DL_FOREACH(obj_reg->region_buf_map_head, eltt)
+    {
+        PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
+        if (PDC_is_same_region_list(tmp, request_region) == 1) {
+            request_region->reg_dirty_from_buf = 1;
+            hg_atomic_incr32(&(request_region->buf_map_refcount));
+            /* printf("%s: set reg_dirty_from_buf and buf_map_refcount\n", __func__); */
+        }
+    }
+    free(tmp);
+
+#ifdef ENABLE_MULTITHREAD
+    hg_thread_mutex_lock(&lock_list_mutex_g);
+#endif
+    DL_APPEND(obj_reg->region_lock_head, request_region);
+#ifdef ENABLE_MULTITHREAD
+    hg_thread_mutex_unlock(&lock_list_mutex_g);
+#endif
+
+    FUNC_LEAVE_VOID;
+}
+
+/*
+ * Give the lock of a region to the first request that waits for it, unless it is held
+ *
+ * \param  obj_reg[IN]     Record of the object
+ * \param  region[IN]      Region that was released
+ */
+static void
+PDC_Server_grant_region_lock(data_server_region_t *obj_reg, region_list_t *region)
+{
+    region_list_t *   elt, *waiting = NULL;
+    hg_handle_t       handle;
+    region_lock_out_t out;
+
+    FUNC_ENTER(NULL);
+
+#ifdef ENABLE_MULTITHREAD
+    hg_thread_mutex_lock(&lock_request_mutex_g);
+#endif
+    DL_FOREACH(obj_reg->region_lock_head, elt)
+    {
+        if (is_region_identical(region, elt) == 1)
+            goto done;
+    }
+    DL_FOREACH(obj_reg->region_lock_request_head, elt)
+    {
+        if (is_region_identical(region, elt) == 1) {
+            waiting = elt;
+            break;
+        }
+    }
+    if (waiting != NULL) {
+        DL_DELETE(obj_reg->region_lock_request_head, waiting);
+        handle = waiting->lock_handle;
+        PDC_Server_hold_region_lock(obj_reg, waiting);
+        out.ret = 1;
+        HG_Respond(handle, NULL, NULL, &out);
+        HG_Destroy(handle);
+    }
+
+done:
+#ifdef ENABLE_MULTITHREAD
+    hg_thread_mutex_unlock(&lock_request_mutex_g);
+#endif
+    FUNC_LEAVE_VOID;
+}
+
 perr_t
 PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_handle_t *handle)
 {
@@ -418,8 +523,7 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
     int                   ndim;
     region_list_t *       request_region;
     data_server_region_t *new_obj_reg;
-    region_list_t *       elt1, *tmp;
-    region_buf_map_t *    eltt;
+    region_list_t *       elt1;
     int                   error      = 0;
     int                   found_lock = 0;
     // time_t                t;
@@ -463,19 +567,10 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&region_struct_mutex_g);
 #endif
-    new_obj_reg = PDC_Server_get_obj_region(in->obj_id);
+    new_obj_reg = PDC_Server_get_or_new_obj_region(in->obj_id);
     if (new_obj_reg == NULL) {
-        new_obj_reg = (data_server_region_t *)malloc(sizeof(struct data_server_region_t));
-        if (new_obj_reg == NULL) {
-            error = 1;
-            PGOTO_ERROR(FAIL, "PDC_SERVER: PDC_Server_region_lock() allocates new object failed");
-        }
-        new_obj_reg->obj_id                   = in->obj_id;
-        new_obj_reg->region_lock_head         = NULL;
-        new_obj_reg->region_buf_map_head      = NULL;
-        new_obj_reg->region_lock_request_head = NULL;
-        new_obj_reg->region_storage_head      = NULL;
-        DL_APPEND(dataserver_region_g, new_obj_reg);
+        error = 1;
+        PGOTO_ERROR(FAIL, "PDC_SERVER: PDC_Server_region_lock() allocates new object failed");
     }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&region_struct_mutex_g);
@@ -490,41 +585,24 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
         if (PDC_is_same_region_list(elt1, request_region) == 1) {
             found_lock = 1;
             if (in->lock_mode == PDC_BLOCK) {
+                // Answered when the lock is released by its holder
                 ret_value                   = FAIL;
                 request_region->lock_handle = *handle;
                 DL_APPEND(new_obj_reg->region_lock_request_head, request_region);
             }
-            else
+            else {
                 error = 1;
+                free(request_region);
+            }
+            break;
         }
     }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&lock_list_mutex_g);
 #endif
 
-    if (found_lock == 0) {
-        // check if the lock region is used in buf map function
-        tmp = (region_list_t *)malloc(sizeof(region_list_t));
-        DL_FOREACH(new_obj_reg->region_buf_map_head, eltt)
-        {
-            PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
-            if (PDC_is_same_region_list(tmp, request_region) == 1) {
-                request_region->reg_dirty_from_buf = 1;
-                hg_atomic_incr32(&(request_region->buf_map_refcount));
-                /* printf("%s: set reg_dirty_from_buf and buf_map_refcount\n", __func__); */
-            }
-        }
-        free(tmp);
-
-#ifdef ENABLE_MULTITHREAD
-        hg_thread_mutex_lock(&lock_list_mutex_g);
-#endif
-        // No overlaps found
-        DL_APPEND(new_obj_reg->region_lock_head, request_region);
-#ifdef ENABLE_MULTITHREAD
-        hg_thread_mutex_unlock(&lock_list_mutex_g);
-#endif
-    }
+    if (found_lock == 0)
+        PDC_Server_hold_region_lock(new_obj_reg, request_region);
 
     out->ret = 1;
 
@@ -545,9 +623,7 @@ PDC_Server_release_lock_request(uint64_t obj_id, struct pdc_region_info *region)
 {
     perr_t                ret_value = SUCCEED;
     region_list_t *       request_region;
-    region_list_t *       elt, *tmp;
     data_server_region_t *new_obj_reg;
-    region_lock_out_t     out;
 
     FUNC_ENTER(NULL);
 
@@ -559,22 +635,7 @@ PDC_Server_release_lock_request(uint64_t obj_id, struct pdc_region_info *region)
     if (new_obj_reg == NULL) {
         PGOTO_ERROR(FAIL, "===PDC Server: cannot locate data_server_region_t strcut for object ID");
     }
-#ifdef ENABLE_MULTITHREAD
-    hg_thread_mutex_lock(&lock_request_mutex_g);
-#endif
-    DL_FOREACH_SAFE(new_obj_reg->region_lock_request_head, elt, tmp)
-    {
-        if (is_region_identical(request_region, elt) == 1) {
-            out.ret = 1;
-            HG_Respond(elt->lock_handle, NULL, NULL, &out);
-            HG_Destroy(elt->lock_handle);
-            DL_DELETE(new_obj_reg->region_lock_request_head, elt);
-            free(elt);
-        }
-    }
-#ifdef ENABLE_MULTITHREAD
-    hg_thread_mutex_unlock(&lock_request_mutex_g);
-#endif
+    PDC_Server_grant_region_lock(new_obj_reg, request_region);
     free(request_region);
 
 done:
@@ -600,6 +661,7 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
     /* tm = *localtime(&t); */
     /* printf("start PDC_Data_Server_region_release %02d:%02d:%02d\n", tm.tm_hour, tm.tm_min, tm.tm_sec); */
 
+    out->ret = 0;
     ndim = in->region.ndim;
 
     // Convert transferred lock region to structure
@@ -658,6 +720,7 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
         printf("==PDC_SERVER[%d]: requested release region/object does not exist\n", pdc_server_rank_g);
         goto done;
     }
+    PDC_Server_grant_region_lock(obj_reg, &request_region);
     out->ret = 1;
 
 done:
@@ -762,7 +825,8 @@ PDC_Data_Server_buf_unmap(const struct hg_info *info, buf_unmap_in_t *in)
     DL_FOREACH_SAFE(target_obj->region_buf_map_head, elt, tmp)
     {
         if (in->remote_obj_id == elt->remote_obj_id &&
-            PDC_region_is_identical(in->remote_region, elt->remote_region_unit)) {
+            PDC_region_is_identical(in->remote_region, elt->remote_region_unit) &&
+            HG_Addr_cmp(info->hg_class, info->addr, elt->local_addr)) {
 #ifdef ENABLE_MULTITHREAD
             // wait for work to be done, then free
             hg_thread_mutex_lock(&(elt->bulk_args->work_mutex));
@@ -820,10 +884,6 @@ PDC_Data_Server_buf_unmap(const struct hg_info *info, buf_unmap_in_t *in)
         }
     }
 
-    if (target_obj->region_buf_map_head == NULL && pdc_server_rank_g == 0) {
-        close(target_obj->fd);
-        target_obj->fd = -1;
-    }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&data_buf_map_mutex_g);
 #endif
@@ -886,10 +946,6 @@ PDC_Data_Server_check_unmap()
                 }
             }
         }
-        if (target_obj->region_buf_map_head == NULL && pdc_server_rank_g == 0) {
-            close(target_obj->fd);
-            target_obj->fd = -1;
-        }
         hg_thread_mutex_unlock(&data_buf_map_mutex_g);
         if (completed == 1) {
             DL_DELETE(dataserver_region_unmap, elt1);
@@ -923,7 +979,6 @@ server_send_buf_unmap_addr_rpc_cb(const struct hg_cb_info *callback_info)
     }
 
 done:
-    HG_Respond(tranx_args->handle, NULL, NULL, &out);
     HG_Free_input(tranx_args->handle, &(tranx_args->in));
     HG_Destroy(tranx_args->handle);
     HG_Free_output(handle, &out);
@@ -1210,66 +1265,16 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
     region_list_t *       elt_reg;
     region_buf_map_t *    buf_map_ptr = NULL;
     region_buf_map_t *    tmp;
-    int                   dup                      = 0;
-    char *                data_path                = NULL;
-    char *                user_specified_data_path = NULL;
-    char                  storage_location[ADDR_MAX];
-#ifdef ENABLE_LUSTRE
-    int stripe_count, stripe_size;
-#endif
+    int                   dup         = 0;
 
     FUNC_ENTER(NULL);
 
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&region_struct_mutex_g);
 #endif
-    new_obj_reg = PDC_Server_get_obj_region(in->remote_obj_id);
-    if (new_obj_reg == NULL) {
-        new_obj_reg = (data_server_region_t *)malloc(sizeof(struct data_server_region_t));
-        if (new_obj_reg == NULL)
-            PGOTO_ERROR(NULL, "PDC_SERVER: PDC_Server_insert_buf_map_region() allocates new object failed");
-        new_obj_reg->obj_id                   = in->remote_obj_id;
-        new_obj_reg->region_lock_head         = NULL;
-        new_obj_reg->region_buf_map_head      = NULL;
-        new_obj_reg->region_lock_request_head = NULL;
-        new_obj_reg->region_storage_head      = NULL;
-
-        new_obj_reg->fd = server_open_storage(storage_location, in->remote_obj_id);
-        // Generate a location for data storage for data server to write
-        user_specified_data_path = getenv("PDC_DATA_LOC");
-
-        if (user_specified_data_path != NULL)
-            data_path = user_specified_data_path;
-        else {
-            data_path = getenv("SCRATCH");
-            if (data_path == NULL)
-                data_path = ".";
-        }
-        // Data path prefix will be $SCRATCH/pdc_data/$obj_id/
-        snprintf(storage_location, ADDR_MAX, "%.200s/pdc_data/%" PRIu64 "/server%d/s%04d.bin", data_path,
-                 in->remote_obj_id, pdc_server_rank_g, pdc_server_rank_g);
-        PDC_mkdir(storage_location);
-
-#ifdef ENABLE_LUSTRE
-        if (pdc_nost_per_file_g != 1)
-            stripe_count = lustre_total_ost_g / pdc_server_size_g;
-        else
-            stripe_count = pdc_nost_per_file_g;
-        stripe_size = lustre_stripe_size_mb_g;
-        PDC_Server_set_lustre_stripe(storage_location, stripe_count, stripe_size);
-
-        if (is_debug_g == 1 && pdc_server_rank_g == 0) {
-            printf("storage_location is %s\n", storage_location);
-        }
-#endif
-        new_obj_reg->fd = open(storage_location, O_RDWR | O_CREAT, 0666);
-        if (new_obj_reg->fd == -1) {
-            printf("==PDC_SERVER[%d]: open %s failed\n", pdc_server_rank_g, storage_location);
-            goto done;
-        }
-        new_obj_reg->storage_location = strdup(storage_location);
-        DL_APPEND(dataserver_region_g, new_obj_reg);
-    }
+    new_obj_reg = PDC_Server_get_or_new_obj_region(in->remote_obj_id);
+    if (new_obj_reg == NULL)
+        PGOTO_ERROR(NULL, "PDC_SERVER: PDC_Server_insert_buf_map_region() allocates new object failed");
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&region_struct_mutex_g);
 #endif
@@ -1279,6 +1284,9 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
 #endif
     DL_FOREACH(new_obj_reg->region_buf_map_head, tmp)
     {
+        // a mapping of another client
+        if (!HG_Addr_cmp(info->hg_class, info->addr, tmp->local_addr))
+            continue;
         if (in->ndim == 1) {
             if (tmp->remote_obj_id == in->remote_obj_id &&
                 in->remote_region_unit.start_0 == tmp->remote_region_unit.start_0 &&
@@ -1439,6 +1447,7 @@ PDC_Server_maybe_allocate_region_buf_ptr(pdcid_t obj_id, region_info_transfer_t
 
         buf_map_ptr                       = (region_buf_map_t *)malloc(sizeof(region_buf_map_t));
         buf_map_ptr->remote_obj_id        = obj_id;
+        buf_map_ptr->local_addr           = HG_ADDR_NULL;
         buf_map_ptr->remote_ndim          = region.ndim;
         buf_map_ptr->remote_data_ptr      = ret_value;
         buf_map_ptr->remote_region_unit   = region;
-- 
2.43.0


From eb0c95aa420d0c19e75543e70612f64567760dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:31 +0000
Subject: [PATCH 47/58] fix: servers remember the address of every client

---
 src/server/pdc_server.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 62c2506..ff2a026 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -277,7 +277,8 @@ PDC_Server_get_client_addr(const struct hg_cb_info *callback_info)
     hg_thread_mutex_lock(&pdc_client_addr_mutex_g);
 #endif
 
-    if (pdc_client_info_g && in->is_init == 1) {
+    // All clients of an application announce themselves, each replaces its own address only
+    if (pdc_client_info_g && in->nclient != pdc_client_num_g) {
         if (is_debug_g && pdc_server_rank_g == 0) {
             printf("==PDC_SERVER[%d]: new application run detected, create new client info\n",
                    pdc_server_rank_g);
@@ -304,6 +305,12 @@ PDC_Server_get_client_addr(const struct hg_cb_info *callback_info)
             PDC_client_info_init(&pdc_client_info_g[i]);
     }
 
+    if (pdc_client_info_g[in->client_id].addr_valid == 1 &&
+        strncmp(pdc_client_info_g[in->client_id].addr_string, in->client_addr, ADDR_MAX) != 0) {
+        HG_Addr_free(hg_class_g, pdc_client_info_g[in->client_id].addr);
+        pdc_client_info_g[in->client_id].addr_valid = 0;
+    }
+
     // Copy the client's address
     memcpy(pdc_client_info_g[in->client_id].addr_string, in->client_addr, sizeof(char) * ADDR_MAX);
 
@@ -621,10 +628,15 @@ PDC_Server_lookup_client_cb(const struct hg_cb_info *callback_info)
 
     if (client_id >= (uint32_t)pdc_client_num_g) {
         printf("==PDC_SERVER[%d]: invalid input client id %d\n", pdc_server_rank_g, client_id);
+        server_lookup_args->ret_int = -1;
         goto done;
     }
-    pdc_client_info_g[client_id].addr       = callback_info->info.lookup.addr;
-    pdc_client_info_g[client_id].addr_valid = 1;
+    server_lookup_args->ret_int = -1;
+    if (callback_info->ret == HG_SUCCESS) {
+        pdc_client_info_g[client_id].addr       = callback_info->info.lookup.addr;
+        pdc_client_info_g[client_id].addr_valid = 1;
+        server_lookup_args->ret_int             = 1;
+    }
 
 done:
     fflush(stdout);
@@ -661,6 +673,7 @@ PDC_Server_lookup_client(uint32_t client_id)
     server_lookup_args_t lookup_args;
     char *               target_addr_string;
 
+    memset(&lookup_args, 0, sizeof(lookup_args));
     lookup_args.server_id   = pdc_server_rank_g;
     lookup_args.client_id   = client_id;
     lookup_args.server_addr = pdc_client_info_g[client_id].addr_string;
@@ -674,7 +687,16 @@ PDC_Server_lookup_client(uint32_t client_id)
         goto done;
     }
 
-    hg_ret = HG_Trigger(hg_context_g, 0 /* timeout */, 1 /* max count */, &actual_count);
+    // The callback writes to lookup_args, and other callbacks may be triggered before it
+    while (lookup_args.ret_int == 0) {
+        hg_ret = HG_Trigger(hg_context_g, 0 /* timeout */, 1 /* max count */, &actual_count);
+        if (lookup_args.ret_int == 0 && (hg_ret != HG_SUCCESS || actual_count == 0))
+            HG_Progress(hg_context_g, 100);
+    }
+    if (lookup_args.ret_int != 1) {
+        printf("==PDC_SERVER[%d]: Connection to client %d FAILED!\n", pdc_server_rank_g, client_id);
+        ret_value = FAIL;
+    }
 
 done:
     fflush(stdout);
-- 
2.43.0


From 35e9e9602e2ca7c30e8b6279eda6af6f530f76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:31 +0000
Subject: [PATCH 48/58] fix: PDCquery_and keeps all limits of a range

---
 src/api/pdc_query/pdc_query.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_query/pdc_query.c b/src/api/pdc_query/pdc_query.c
index 25df43e..976def4 100644
--- a/src/api/pdc_query/pdc_query.c
+++ b/src/api/pdc_query/pdc_query.c
@@ -94,7 +94,8 @@ PDCquery_and(pdc_query_t *q1, pdc_query_t *q2)
         return NULL;
 
     // must be same obj, same type, lvalue < rvalue
-    if (q1->constraint && q2->constraint) {
+    // (a constraint that is a range already has no room for another limit)
+    if (q1->constraint && q2->constraint && q1->constraint->is_range != 1 && q2->constraint->is_range != 1) {
         while (q1->constraint->obj_id == q2->constraint->obj_id &&
                q1->constraint->type == q2->constraint->type) {
 
-- 
2.43.0


From 0455b250f04c1d9f6fea3460b43daec04dd4e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:31 +0000
Subject: [PATCH 49/58] fix: data queries on one server select what a scan of
 the stored data selects

---
 src/api/include/pdc_client_connect.h          |   2 +
 src/api/pdc_client_connect.c                  | 119 +++++--
 .../pdc_server_region/pdc_server_data.c       | 335 +++++++++++++++---
 3 files changed, 378 insertions(+), 78 deletions(-)

diff --git a/src/api/include/pdc_client_connect.h b/src/api/include/pdc_client_connect.h
index acf8fa7..68586ff 100644
--- a/src/api/include/pdc_client_connect.h
+++ b/src/api/include/pdc_client_connect.h
@@ -152,6 +152,8 @@ struct _pdc_query_result_list {
     void **   data_arr;
     uint64_t *data_arr_size;
     uint64_t  recv_data_nhits;
+    int       is_received; // the result (or the data) has arrived
+    int       is_awaited;  // the client waits for it
 
     struct _pdc_query_result_list *prev;
     struct _pdc_query_result_list *next;
diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 1ae06eb..1df16d1 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -63,6 +63,7 @@
 #include <inttypes.h>
 #include <math.h>
 #include <sys/time.h>
+#include <limits.h>
 
 #include "pdc_timing.h"
 
@@ -7987,15 +7988,53 @@ done:
 int
 gen_query_id()
 {
-    int ret_value = 0;
+    int             ret_value = 0;
+    static uint64_t seq       = 0;
+    struct timeval  now;
 
     FUNC_ENTER(NULL);
 
-    ret_value = rand();
+    // Servers know a query by its id only, no two clients may use the same one
+    if (seq == 0) {
+        gettimeofday(&now, NULL);
+        seq = (uint64_t)now.tv_sec * 1000 + now.tv_usec / 1000;
+    }
+    ret_value =
+        (int)(seq++ % (INT_MAX / pdc_client_mpi_size_g)) * pdc_client_mpi_size_g + pdc_client_mpi_rank_g;
 
     FUNC_LEAVE(ret_value);
 }
 
+// The result of a query has arrived
+static void
+PDC_query_result_received(struct _pdc_query_result_list *result)
+{
+    FUNC_ENTER(NULL);
+
+    // It can be here before the server has answered the request, which is waited for in the same way
+    result->is_received = 1;
+    if (result->is_awaited)
+        hg_atomic_decr32(&atomic_work_todo_g);
+
+    FUNC_LEAVE_VOID;
+}
+
+static void
+PDC_query_result_wait(struct _pdc_query_result_list *result)
+{
+    FUNC_ENTER(NULL);
+
+    if (result->is_received == 0) {
+        result->is_awaited = 1;
+        hg_atomic_set32(&atomic_work_todo_g, 1);
+        PDC_Client_check_response(&send_context_g);
+        result->is_awaited = 0;
+    }
+    result->is_received = 0;
+
+    FUNC_LEAVE_VOID;
+}
+
 hg_return_t
 PDC_recv_nhits(const struct hg_cb_info *callback_info)
 {
@@ -8012,11 +8051,11 @@ PDC_recv_nhits(const struct hg_cb_info *callback_info)
     {
         if (result_elt->query_id == in->query_id) {
             result_elt->nhits = in->nhits;
+            PDC_query_result_received(result_elt);
             break;
         }
     }
 
-    hg_atomic_decr32(&atomic_work_todo_g);
     free(in);
 
     fflush(stdout);
@@ -8078,12 +8117,13 @@ PDC_send_data_query(pdc_query_t *query, pdc_query_get_op_t get_op, uint64_t *nhi
 
         HG_Create(send_context_g, pdc_server_info_g[server_id].addr, send_data_query_register_id_g, &handle);
 
+        lookup_args.ret = -1;
+        hg_atomic_set32(&atomic_work_todo_g, 1);
         hg_ret = HG_Forward(handle, pdc_client_check_int_ret_cb, &lookup_args, query_xfer);
         if (hg_ret != HG_SUCCESS)
             PGOTO_ERROR(FAIL, "PDC_Client_del_kvtag_metadata_with_name(): Could not start HG_Forward()");
 
         // Wait for response from server
-        hg_atomic_set32(&atomic_work_todo_g, 1);
         PDC_Client_check_response(&send_context_g);
 
         if (lookup_args.ret != 1)
@@ -8094,8 +8134,7 @@ PDC_send_data_query(pdc_query_t *query, pdc_query_get_op_t get_op, uint64_t *nhi
     }
 
     // Wait for server to send query result
-    hg_atomic_set32(&atomic_work_todo_g, 1);
-    PDC_Client_check_response(&send_context_g);
+    PDC_query_result_wait(result);
 
     if (nhits)
         *nhits = result->nhits;
@@ -8153,10 +8192,13 @@ PDC_recv_coords(const struct hg_cb_info *callback_info)
         DL_FOREACH(pdcquery_result_list_head_g, result_elt)
         {
             if (result_elt->query_id == query_id) {
-                result_elt->ndim   = ndim;
-                result_elt->nhits  = nhits;
-                result_elt->coords = (uint64_t *)malloc(nhits * ndim * sizeof(uint64_t));
-                memcpy(result_elt->coords, buf, nhits * ndim * sizeof(uint64_t));
+                result_elt->ndim  = ndim;
+                result_elt->nhits = nhits;
+                if (nhits > 0) {
+                    result_elt->coords = (uint64_t *)malloc(nhits * ndim * sizeof(uint64_t));
+                    memcpy(result_elt->coords, buf, nhits * ndim * sizeof(uint64_t));
+                }
+                PDC_query_result_received(result_elt);
                 break;
             }
         }
@@ -8166,7 +8208,6 @@ PDC_recv_coords(const struct hg_cb_info *callback_info)
     } // End else
 
 done:
-    hg_atomic_decr32(&atomic_work_todo_g);
     if (nhits > 0) {
         ret_value = HG_Bulk_free(local_bulk_handle);
         if (ret_value != HG_SUCCESS)
@@ -8200,7 +8241,7 @@ PDC_Client_get_sel_data(pdcid_t obj_id, pdc_selection_t *sel, void *data)
 {
     perr_t                         ret_value = SUCCEED;
     hg_return_t                    hg_ret;
-    hg_handle_t                    handle;
+    hg_handle_t                    handle = HG_HANDLE_NULL;
     int                            i;
     uint32_t                       server_id;
     uint64_t                       meta_id, off;
@@ -8214,6 +8255,18 @@ PDC_Client_get_sel_data(pdcid_t obj_id, pdc_selection_t *sel, void *data)
     if (sel == NULL)
         PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: NULL input!", pdc_client_mpi_rank_g);
 
+    // Nothing selected, nothing to read
+    if (sel->nhits == 0)
+        PGOTO_DONE(SUCCEED);
+
+    DL_FOREACH(pdcquery_result_list_head_g, result_elt)
+    {
+        if (result_elt->query_id == sel->query_id)
+            break;
+    }
+    if (result_elt == NULL)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: selection of an unknown query!", pdc_client_mpi_rank_g);
+
     if (PDC_find_id(obj_id) != NULL) {
         obj_prop = PDC_obj_get_info(obj_id);
         meta_id  = obj_prop->obj_info_pub->meta_id;
@@ -8232,12 +8285,13 @@ PDC_Client_get_sel_data(pdcid_t obj_id, pdc_selection_t *sel, void *data)
 
     HG_Create(send_context_g, pdc_server_info_g[server_id].addr, get_sel_data_register_id_g, &handle);
 
+    lookup_args.ret = -1;
+    hg_atomic_set32(&atomic_work_todo_g, 1);
     hg_ret = HG_Forward(handle, pdc_client_check_int_ret_cb, &lookup_args, &in);
     if (hg_ret != HG_SUCCESS)
         PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: ERROR with HG_Forward", pdc_client_mpi_rank_g);
 
     // Wait for response from server
-    hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
     if (lookup_args.ret != 1) {
@@ -8246,30 +8300,24 @@ PDC_Client_get_sel_data(pdcid_t obj_id, pdc_selection_t *sel, void *data)
     }
 
     // Wait for server to send data
-    hg_atomic_set32(&atomic_work_todo_g, 1);
-    PDC_Client_check_response(&send_context_g);
+    PDC_query_result_wait(result_elt);
 
     // Copy the result to user's buffer
-    DL_FOREACH(pdcquery_result_list_head_g, result_elt)
-    {
-        if (result_elt->query_id == in.query_id) {
-            off = 0;
-            for (i = 0; i < pdc_server_num_g; i++) {
-                if (result_elt->data_arr[i] != NULL) {
-                    memcpy(data + off, result_elt->data_arr[i], result_elt->data_arr_size[i]);
-                    off += result_elt->data_arr_size[i];
-                    free(result_elt->data_arr[i]);
-                    result_elt->data_arr[i] = NULL;
-                }
-            }
-            result_elt->recv_data_nhits = 0;
-            break;
+    off = 0;
+    for (i = 0; i < pdc_server_num_g && result_elt->data_arr != NULL; i++) {
+        if (result_elt->data_arr[i] != NULL) {
+            memcpy(data + off, result_elt->data_arr[i], result_elt->data_arr_size[i]);
+            off += result_elt->data_arr_size[i];
+            free(result_elt->data_arr[i]);
+            result_elt->data_arr[i] = NULL;
         }
     }
+    result_elt->recv_data_nhits = 0;
 
 done:
     fflush(stdout);
-    HG_Destroy(handle);
+    if (handle != HG_HANDLE_NULL)
+        HG_Destroy(handle);
 
     FUNC_LEAVE(ret_value);
 }
@@ -8309,7 +8357,7 @@ PDC_recv_read_coords_data(const struct hg_cb_info *callback_info)
             if (result_elt->query_id == query_id) {
                 if (result_elt->data_arr == NULL) {
                     result_elt->data_arr      = calloc(sizeof(void *), pdc_server_num_g);
-                    result_elt->data_arr_size = calloc(sizeof(uint64_t *), pdc_server_num_g);
+                    result_elt->data_arr_size = calloc(sizeof(uint64_t), pdc_server_num_g);
                 }
 
                 result_elt->data_arr[seq_id] = malloc(bulk_args->nbytes);
@@ -8322,14 +8370,11 @@ PDC_recv_read_coords_data(const struct hg_cb_info *callback_info)
         if (result_elt == NULL)
             PGOTO_ERROR(HG_OTHER_ERROR, "==PDC_CLIENT[%d]: Invalid task ID!", pdc_client_mpi_rank_g);
 
-        if (result_elt->recv_data_nhits == result_elt->nhits) {
-            hg_atomic_decr32(&atomic_work_todo_g);
-        }
-        else if (result_elt->recv_data_nhits > result_elt->nhits) {
+        if (result_elt->recv_data_nhits >= result_elt->nhits)
+            PDC_query_result_received(result_elt);
+        if (result_elt->recv_data_nhits > result_elt->nhits)
             PGOTO_ERROR(HG_OTHER_ERROR, "==PDC_CLIENT[%d]: received more results data than expected!",
                         pdc_client_mpi_rank_g);
-            hg_atomic_decr32(&atomic_work_todo_g);
-        }
     } // End else
 
 done:
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 74a04de..17d5a67 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -54,6 +54,7 @@
 #include "pdc_server_metadata.h"
 #include "pdc_server.h"
 #include "pdc_hist_pkg.h"
+#include "pdc_server_region_cache.h"
 #include "pdc_timing.h"
 #include "pdc_region.h"
 
@@ -6573,22 +6574,34 @@ is_idx_within_region(uint64_t idx, region_list_t *region, region_list_t *region_
     return 1;
 }
 
+static int
+compare_coords(const uint64_t *a, const uint64_t *b, int ndim)
+{
+    int i;
+
+    for (i = 0; i < ndim; i++) {
+        if (a[i] != b[i])
+            return a[i] < b[i] ? -1 : 1;
+    }
+    return 0;
+}
+
 int
 compare_coords_1d(const void *a, const void *b)
 {
-    return (memcmp(a, b, sizeof(uint64_t)));
+    return compare_coords((const uint64_t *)a, (const uint64_t *)b, 1);
 }
 
 int
 compare_coords_2d(const void *a, const void *b)
 {
-    return (memcmp(a, b, sizeof(uint64_t) * 2));
+    return compare_coords((const uint64_t *)a, (const uint64_t *)b, 2);
 }
 
 int
 compare_coords_3d(const void *a, const void *b)
 {
-    return (memcmp(a, b, sizeof(uint64_t) * 3));
+    return compare_coords((const uint64_t *)a, (const uint64_t *)b, 3);
 }
 
 /* perr_t QUERY_EVALUATE_SCAN_OPT(uint64_t _n, float *_data, pdc_query_op_t _op, void *_value, */
@@ -7839,37 +7852,6 @@ attach_sel_to_query(pdc_query_t *query, void *sel)
         query->sel = sel;
 }
 
-perr_t
-attach_local_storage_region_to_query(pdc_query_t *query)
-
-{
-    /* pdc_metadata_t *meta; */
-    data_server_region_t *obj_reg;
-
-    if (NULL == query->constraint) {
-        printf("==PDC_SERVER[%d]: %s - query->constraint is NULL!\n", pdc_server_rank_g, __func__);
-        return FAIL;
-    }
-
-    /* meta = PDC_Server_get_obj_metadata(query->constraint->obj_id); */
-    /* if (NULL == meta) { */
-    /*     printf("==PDC_SERVER[%d]: %s - cannot find metadata %" PRIu64 "!\n", pdc_server_rank_g, __func__,
-     */
-    /*            query->constraint->obj_id); */
-    /*     return FAIL; */
-    /* } */
-    /* query->constraint->storage_region_list_head = meta->storage_region_list_head; */
-
-    obj_reg = PDC_Server_get_obj_region(query->constraint->obj_id);
-    if (obj_reg == NULL) {
-        printf("==PDC_SERVER[%d]: %s - cannot find region from object!\n", pdc_server_rank_g, __func__);
-    }
-    else
-        query->constraint->storage_region_list_head = obj_reg->region_storage_head;
-
-    return SUCCEED;
-}
-
 static perr_t
 PDC_Server_send_nhits_to_server(query_task_t *task)
 {
@@ -8028,7 +8010,7 @@ PDC_Server_send_coords_to_client(query_task_t *task)
     perr_t        ret_value = SUCCEED;
     hg_return_t   hg_ret;
     hg_handle_t   handle;
-    hg_bulk_t     bulk_handle;
+    hg_bulk_t     bulk_handle = NULL;
     bulk_rpc_in_t in;
     hg_size_t     buf_sizes;
     void *        buf;
@@ -8254,7 +8236,7 @@ PDC_send_data_to_client(int client_id, void *buf, size_t ndim, size_t unit_size,
     perr_t        ret_value = SUCCEED;
     hg_return_t   hg_ret;
     hg_handle_t   handle;
-    hg_bulk_t     bulk_handle;
+    hg_bulk_t     bulk_handle = NULL;
     bulk_rpc_in_t in;
     hg_size_t     buf_sizes;
 
@@ -8657,6 +8639,253 @@ done:
     return ret_value;
 }
 
+#define MACRO_QUERY_OP_HOLDS(_op, _a, _b)                                                                    \
+    ((_op) == PDC_GT                                                                                         \
+         ? (_a) > (_b)                                                                                       \
+         : (_op) == PDC_LT                                                                                   \
+               ? (_a) < (_b)                                                                                 \
+               : (_op) == PDC_GTE ? (_a) >= (_b)                                                             \
+                                  : (_op) == PDC_LTE ? (_a) <= (_b) : (_op) == PDC_EQ && (_a) == (_b))
+
+#define MACRO_QUERY_ELEM_MATCHES(TYPE, _constraint, _elem)                                                   \
+    ({                                                                                                       \
+        TYPE _v, _lo, _hi;                                                                                   \
+        memcpy(&_v, (_elem), sizeof(TYPE));                                                                  \
+        memcpy(&_lo, &(_constraint)->value, sizeof(TYPE));                                                   \
+        memcpy(&_hi, &(_constraint)->value2, sizeof(TYPE));                                                  \
+        MACRO_QUERY_OP_HOLDS((_constraint)->op, _v, _lo) &&                                                  \
+            ((_constraint)->is_range != 1 || MACRO_QUERY_OP_HOLDS((_constraint)->op2, _v, _hi));             \
+    })
+
+static int
+PDC_Server_query_elem_matches(pdc_query_constraint_t *constraint, const char *elem)
+{
+    switch (constraint->type) {
+        case PDC_FLOAT:
+            return MACRO_QUERY_ELEM_MATCHES(float, constraint, elem);
+        case PDC_DOUBLE:
+            return MACRO_QUERY_ELEM_MATCHES(double, constraint, elem);
+        case PDC_INT:
+            return MACRO_QUERY_ELEM_MATCHES(int, constraint, elem);
+        case PDC_UINT:
+            return MACRO_QUERY_ELEM_MATCHES(uint32_t, constraint, elem);
+        case PDC_INT64:
+            return MACRO_QUERY_ELEM_MATCHES(int64_t, constraint, elem);
+        case PDC_UINT64:
+            return MACRO_QUERY_ELEM_MATCHES(uint64_t, constraint, elem);
+        default:
+            return 0;
+    }
+}
+
+// Find the elements of one condition in the storage regions of its object, in increasing order of their
+// coordinates
+static perr_t
+PDC_Server_query_scan(query_task_t *task, pdc_query_constraint_t *constraint, pdc_selection_t *sel)
+{
+    perr_t                 ret_value = SUCCEED;
+    data_server_region_t * obj_reg;
+    region_list_t *        elt, *region_constraint = task->region_constraint;
+    struct pdc_region_info part;
+    uint64_t               offset[DIM_MAX], size[DIM_MAX], coord[DIM_MAX], end, i, j, nelem, *coords;
+    size_t                 unit = PDC_get_var_type_size(constraint->type);
+    int                    d, ndim = 0;
+    char *                 buf;
+
+#ifdef PDC_SERVER_CACHE
+    // What is still in the cache has no storage region yet. No other thread may flush while the storage
+    // regions are visited.
+    pthread_mutex_lock(&pdc_obj_cache_list_mutex);
+    PDC_region_cache_flush(constraint->obj_id);
+#endif
+
+    obj_reg = PDC_Server_get_obj_region(constraint->obj_id);
+    if (obj_reg == NULL)
+        goto done;
+
+    DL_FOREACH(obj_reg->region_storage_head, elt)
+    {
+        ndim = (int)elt->ndim;
+        if (task->ndim == 0)
+            task->ndim = ndim;
+        if (ndim < 1 || ndim > 3 || ndim != task->ndim) {
+            printf("==PDC_SERVER[%d]: %s - error with ndim = %d!\n", pdc_server_rank_g, __func__, ndim);
+            ret_value = FAIL;
+            goto done;
+        }
+
+        // Part of the region that lies in the region constraint
+        nelem = 1;
+        for (d = 0; d < ndim; d++) {
+            offset[d] = elt->start[d];
+            end       = elt->start[d] + elt->count[d];
+            if (region_constraint != NULL && (int)region_constraint->ndim > d) {
+                if (region_constraint->start[d] > offset[d])
+                    offset[d] = region_constraint->start[d];
+                if (region_constraint->start[d] + region_constraint->count[d] < end)
+                    end = region_constraint->start[d] + region_constraint->count[d];
+            }
+            size[d] = end > offset[d] ? end - offset[d] : 0;
+            nelem *= size[d];
+        }
+        if (nelem == 0)
+            continue;
+
+        memset(&part, 0, sizeof(part));
+        part.ndim   = ndim;
+        part.offset = offset;
+        part.size   = size;
+        buf         = (char *)malloc(nelem * unit);
+        if (buf == NULL || PDC_Server_data_read_from(constraint->obj_id, &part, buf, unit) != SUCCEED) {
+            printf("==PDC_SERVER[%d]: %s - error reading a storage region!\n", pdc_server_rank_g, __func__);
+            free(buf);
+            ret_value = FAIL;
+            goto done;
+        }
+
+        memcpy(coord, offset, sizeof(uint64_t) * ndim);
+        for (i = 0; i < nelem; i++) {
+            if (PDC_Server_query_elem_matches(constraint, buf + i * unit)) {
+                if ((sel->nhits + 1) * ndim > sel->coords_alloc) {
+                    sel->coords_alloc = sel->coords_alloc * 2 + 1024;
+                    coords = (uint64_t *)realloc(sel->coords, sel->coords_alloc * sizeof(uint64_t));
+                    if (coords == NULL) {
+                        printf("==PDC_SERVER[%d]: %s - error with malloc!\n", pdc_server_rank_g, __func__);
+                        free(buf);
+                        ret_value = FAIL;
+                        goto done;
+                    }
+                    sel->coords = coords;
+                }
+                memcpy(&sel->coords[sel->nhits * ndim], coord, sizeof(uint64_t) * ndim);
+                sel->nhits++;
+            }
+            // The last dimension changes fastest
+            for (d = ndim - 1; d >= 0; d--) {
+                if (++coord[d] < offset[d] + size[d])
+                    break;
+                coord[d] = offset[d];
+            }
+        }
+        free(buf);
+    }
+
+    // Storage regions may overlap
+    if (sel->nhits > 1) {
+        qsort(sel->coords, sel->nhits, sizeof(uint64_t) * ndim,
+              ndim == 1 ? compare_coords_1d : ndim == 2 ? compare_coords_2d : compare_coords_3d);
+        for (i = 1, j = 1; i < sel->nhits; i++) {
+            if (compare_coords(&sel->coords[i * ndim], &sel->coords[(j - 1) * ndim], ndim) != 0) {
+                memmove(&sel->coords[j * ndim], &sel->coords[i * ndim], sizeof(uint64_t) * ndim);
+                j++;
+            }
+        }
+        sel->nhits = j;
+    }
+
+done:
+#ifdef PDC_SERVER_CACHE
+    pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
+#endif
+    fflush(stdout);
+    return ret_value;
+}
+
+// Evaluate a query over the storage regions of this server, the coordinates of the selection are sorted
+static perr_t
+PDC_Server_query_evaluate(query_task_t *task, pdc_query_t *query, pdc_selection_t *sel)
+{
+    perr_t          ret_value = SUCCEED;
+    pdc_selection_t left, right;
+    uint64_t        i = 0, j = 0;
+    int             cmp, ndim, is_or;
+
+    memset(&left, 0, sizeof(left));
+    memset(&right, 0, sizeof(right));
+
+    if (query->left == NULL && query->right == NULL) {
+        ret_value = PDC_Server_query_scan(task, query->constraint, sel);
+        goto done;
+    }
+
+    if (PDC_Server_query_evaluate(task, query->left, &left) != SUCCEED ||
+        PDC_Server_query_evaluate(task, query->right, &right) != SUCCEED) {
+        ret_value = FAIL;
+        goto done;
+    }
+
+    ndim              = task->ndim;
+    is_or             = query->combine_op == PDC_QUERY_OR;
+    sel->coords_alloc = (left.nhits + right.nhits) * ndim + 1;
+    sel->coords       = (uint64_t *)malloc(sel->coords_alloc * sizeof(uint64_t));
+    if (sel->coords == NULL) {
+        printf("==PDC_SERVER[%d]: %s - error with malloc!\n", pdc_server_rank_g, __func__);
+        ret_value = FAIL;
+        goto done;
+    }
+
+    while (i < left.nhits || j < right.nhits) {
+        if (i == left.nhits)
+            cmp = 1;
+        else if (j == right.nhits)
+            cmp = -1;
+        else
+            cmp = compare_coords(&left.coords[i * ndim], &right.coords[j * ndim], ndim);
+
+        if (cmp == 0 || is_or) {
+            memcpy(&sel->coords[sel->nhits * ndim],
+                   cmp <= 0 ? &left.coords[i * ndim] : &right.coords[j * ndim], ndim * sizeof(uint64_t));
+            sel->nhits++;
+        }
+        if (cmp <= 0)
+            i++;
+        if (cmp >= 0)
+            j++;
+    }
+
+done:
+    free(left.coords);
+    free(right.coords);
+    return ret_value;
+}
+
+// Read the elements of an object at the given coordinates
+static perr_t
+PDC_Server_read_sel_data(uint64_t obj_id, int ndim, uint64_t nhits, uint64_t *coords, size_t unit, char *buf)
+{
+    perr_t                 ret_value = SUCCEED;
+    struct pdc_region_info part;
+    uint64_t               i, n, size[DIM_MAX];
+    int                    d;
+
+#ifdef PDC_SERVER_CACHE
+    pthread_mutex_lock(&pdc_obj_cache_list_mutex);
+    PDC_region_cache_flush(obj_id);
+#endif
+
+    memset(&part, 0, sizeof(part));
+    part.ndim = ndim;
+    part.size = size;
+    for (i = 0; i < nhits && ret_value == SUCCEED; i += n) {
+        // Elements that follow each other in the last dimension are read together
+        for (n = 1; i + n < nhits; n++) {
+            for (d = 0; d < ndim - 1 && coords[(i + n) * ndim + d] == coords[i * ndim + d]; d++)
+                ;
+            if (d < ndim - 1 || coords[(i + n) * ndim + d] != coords[i * ndim + d] + n)
+                break;
+        }
+        for (d = 0; d < ndim; d++)
+            size[d] = d == ndim - 1 ? n : 1;
+        part.offset = &coords[i * ndim];
+        ret_value   = PDC_Server_data_read_from(obj_id, &part, buf + i * unit, unit);
+    }
+
+#ifdef PDC_SERVER_CACHE
+    pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
+#endif
+    return ret_value;
+}
+
 perr_t
 PDC_Server_do_query(query_task_t *task)
 {
@@ -8672,7 +8901,17 @@ PDC_Server_do_query(query_task_t *task)
 #endif
 
     // Evaluate query
-    PDC_query_visit(task->query, PDC_Server_query_evaluate_merge_opt, task, NULL, PDC_QUERY_NONE);
+    if (pdc_server_size_g == 1) {
+        free(task->query->sel->coords);
+        memset(task->query->sel, 0, sizeof(pdc_selection_t));
+        if (PDC_Server_query_evaluate(task, task->query, task->query->sel) != SUCCEED) {
+            printf("==PDC_SERVER[%d]: %s - error evaluating the query!\n", pdc_server_rank_g, __func__);
+            task->query->sel->nhits = 0;
+        }
+        task->nhits = task->query->sel->nhits;
+    }
+    else
+        PDC_query_visit(task->query, PDC_Server_query_evaluate_merge_opt, task, NULL, PDC_QUERY_NONE);
 
     // No need to store the coords for nhits
     if (task->get_op == PDC_QUERY_GET_NHITS) {
@@ -9258,6 +9497,12 @@ PDC_Server_recv_data_query(const struct hg_cb_info *callback_info)
         }
     }
 
+    if (1 == query_id_exist && pdc_server_size_g == 1) {
+        // The id of an earlier query is used again
+        DL_DELETE(query_task_list_head_g, new_task);
+        query_id_exist = 0;
+    }
+
     if (0 == query_id_exist) {
         new_task = (query_task_t *)calloc(1, sizeof(query_task_t));
         DL_APPEND(query_task_list_head_g, new_task);
@@ -9283,9 +9528,6 @@ PDC_Server_recv_data_query(const struct hg_cb_info *callback_info)
     // Traverse the query tree and process the query constraints that has metadata stored in here
     if (pdc_server_size_g == 1) {
 
-        // Attach local storage region to query
-        PDC_query_visit_leaf_with_cb(query, attach_local_storage_region_to_query);
-
         PDC_Server_do_query(new_task);
 
         PDC_Server_send_query_result_to_client(new_task);
@@ -9542,6 +9784,7 @@ PDC_Server_recv_get_sel_data(const struct hg_cb_info *callback_info)
     get_sel_data_rpc_in_t *in  = (get_sel_data_rpc_in_t *)callback_info->arg;
     query_task_t *         task_elt, *task = NULL;
     pdc_metadata_t *       meta;
+    size_t                 unit_size;
     struct hg_cb_info      fake_callback_info = {0};
 
     DL_FOREACH(query_task_list_head_g, task_elt)
@@ -9588,7 +9831,17 @@ PDC_Server_recv_get_sel_data(const struct hg_cb_info *callback_info)
     }
     else {
         // Only one server, go ahead and read myself
-        PDC_Server_recv_read_sel_obj_data(&fake_callback_info);
+        unit_size = PDC_get_var_type_size(meta->data_type);
+        free(task->my_data);
+        task->my_data = calloc(task->nhits + 1, unit_size);
+        if (NULL == task->my_data || NULL == task->query->sel->coords ||
+            PDC_Server_read_sel_data(in->obj_id, task->ndim, task->nhits, task->query->sel->coords, unit_size,
+                                     task->my_data) != SUCCEED) {
+            printf("==PDC_SERVER[%d]: %s - cannot read the selected data\n", pdc_server_rank_g, __func__);
+            goto done;
+        }
+        PDC_send_data_to_client(task->client_id, task->my_data, task->ndim, unit_size, task->nhits,
+                                task->query_id, pdc_server_rank_g);
     }
 
 done:
-- 
2.43.0


From 85ba93a9a1124883e8e74752836de90b2f26fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 50/58] fix: file helpers report a failed open, flush or read

---
 src/commons/file/common_io.c | 40 +++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/commons/file/common_io.c b/src/commons/file/common_io.c
index ae7af7f..01ec06b 100644
--- a/src/commons/file/common_io.c
+++ b/src/commons/file/common_io.c
@@ -11,7 +11,6 @@ open_file(char *filename, char *mode)
     FILE *fp = fopen(filename, mode);
     if (fp == NULL) {
         fprintf(stderr, "Error opening file %s: %s\n", filename, strerror(errno));
-        exit(1);
     }
     return fp;
 }
@@ -44,6 +43,8 @@ read_file(FILE *fp, io_buffer_t *buffer)
     // Read the file into the buffer
     if (fread(buffer->buffer, 1, buffer->size, fp) != buffer->size) {
         fprintf(stderr, "Error reading file\n");
+        free(buffer->buffer);
+        buffer->buffer = NULL;
         return 1;
     }
     buffer->buffer[buffer->size] = '\0';
@@ -108,17 +109,22 @@ read_text_file(char *filename, void (*callback)(char *line))
     char *  line = NULL;
     size_t  len  = 0;
     ssize_t read;
+    if (fp == NULL) {
+        return 1;
+    }
     while ((read = getline(&line, &len, fp)) != -1) {
         if (line[read - 1] == '\n') {
             line[read - 1] = '\0';
         }
         callback(line);
     }
-    if (ferror(fp)) {
+    free(line);
+    // the loop also ends when the stream fails or there is no memory for the line
+    if (ferror(fp) || !feof(fp)) {
         fprintf(stderr, "Error reading file\n");
+        close_file(fp);
         return 1;
     }
-    free(line);
     close_file(fp);
     return 0;
 }
@@ -127,6 +133,9 @@ int
 write_text_file(char *filename, char **lines, size_t num_lines)
 {
     FILE *fp = open_file(filename, IO_MODE_WRITE);
+    if (fp == NULL) {
+        return 1;
+    }
     for (size_t i = 0; i < num_lines; i++) {
         if (fprintf(fp, "%s\n", lines[i]) < 0) {
             fprintf(stderr, "Error writing to file\n");
@@ -134,14 +143,17 @@ write_text_file(char *filename, char **lines, size_t num_lines)
             return 1;
         }
     }
-    close_file(fp);
-    return 0;
+    // what is still buffered is written now, which may fail
+    return close_file(fp);
 }
 
 int
 read_binary_file(char *filename, void *buffer, size_t size)
 {
-    FILE *fp = open_file(filename, IO_MODE_BINARY IO_MODE_READ);
+    FILE *fp = open_file(filename, IO_MODE_READ IO_MODE_BINARY);
+    if (fp == NULL) {
+        return 1;
+    }
     if (fread(buffer, 1, size, fp) != size) {
         fprintf(stderr, "Error reading file\n");
         close_file(fp);
@@ -154,20 +166,25 @@ read_binary_file(char *filename, void *buffer, size_t size)
 int
 write_binary_file(char *filename, void *buffer, size_t size)
 {
-    FILE *fp = open_file(filename, IO_MODE_BINARY IO_MODE_WRITE);
+    FILE *fp = open_file(filename, IO_MODE_WRITE IO_MODE_BINARY);
+    if (fp == NULL) {
+        return 1;
+    }
     if (fwrite(buffer, 1, size, fp) != size) {
         fprintf(stderr, "Error writing file\n");
         close_file(fp);
         return 1;
     }
-    close_file(fp);
-    return 0;
+    return close_file(fp);
 }
 
 int
 update_binary_file(char *filename, void *buffer, size_t size, unsigned long start_pos, size_t length)
 {
-    FILE *fp = open_file(filename, IO_MODE_BINARY IO_MODE_READ IO_MODE_WRITE);
+    FILE *fp = open_file(filename, IO_MODE_READ IO_MODE_BINARY "+");
+    if (fp == NULL) {
+        return 1;
+    }
     if (fseek(fp, start_pos, SEEK_SET) != 0) {
         fprintf(stderr, "Error seeking to starting position\n");
         close_file(fp);
@@ -183,6 +200,5 @@ update_binary_file(char *filename, void *buffer, size_t size, unsigned long star
         close_file(fp);
         return 1;
     }
-    close_file(fp);
-    return 0;
+    return close_file(fp);
 }
\ No newline at end of file
-- 
2.43.0


From 1d063a389094d28097e82c4b9ddda24bc60e9cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:38 +0000
Subject: [PATCH 51/58] fix: stopwatches do not depend on changes of the system
 time

---
 src/commons/utils/timer_utils.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/commons/utils/timer_utils.c b/src/commons/utils/timer_utils.c
index a768ae1..e547dfd 100644
--- a/src/commons/utils/timer_utils.c
+++ b/src/commons/utils/timer_utils.c
@@ -1,5 +1,7 @@
 #include "timer_utils.h"
 
+#include <time.h>
+
 #define MICROSECONDS_IN_SECONDS 1000000
 
 /**
@@ -34,10 +36,21 @@ timer_s_timestamp()
     return (timer_ms_timestamp() / 1000);
 }
 
+/**
+ * Microseconds of a clock that is never set: durations must not depend on changes of the system time.
+ */
+static int64_t
+stopwatch_us()
+{
+    struct timespec tmp;
+    clock_gettime(CLOCK_MONOTONIC, &tmp);
+    return (int64_t)tmp.tv_sec * MICROSECONDS_IN_SECONDS + tmp.tv_nsec / 1000;
+}
+
 void
 timer_start(stopwatch_t *t)
 {
-    t->start_mark = timer_us_timestamp();
+    t->start_mark = stopwatch_us();
     t->pause_mark = 0;
     t->running    = true;
     t->paused     = false;
@@ -49,7 +62,7 @@ timer_pause(stopwatch_t *t)
     if (!(t->running) || (t->paused))
         return;
 
-    t->pause_mark = timer_us_timestamp() - (t->start_mark);
+    t->pause_mark = stopwatch_us() - (t->start_mark);
     t->running    = false;
     t->paused     = true;
 }
@@ -60,7 +73,7 @@ timer_unpause(stopwatch_t *t)
     if (t->running || !(t->paused))
         return;
 
-    t->start_mark = timer_us_timestamp() - (t->pause_mark);
+    t->start_mark = stopwatch_us() - (t->pause_mark);
     t->running    = true;
     t->paused     = false;
 }
@@ -69,7 +82,7 @@ double
 timer_delta_us(stopwatch_t *t)
 {
     if (t->running)
-        return timer_us_timestamp() - (t->start_mark);
+        return stopwatch_us() - (t->start_mark);
 
     if (t->paused)
         return t->pause_mark;
-- 
2.43.0


From 21b27c72684c7d91247c1dc8c7ff1b5aad7a7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:30 +0000
Subject: [PATCH 52/58] fix: looking an object up by name on all servers waits
 for every answer

---
 src/api/pdc_client_connect.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 1df16d1..cf34985 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2290,10 +2290,18 @@ PDC_Client_query_metadata_name_only(const char *obj_name, pdc_metadata_t **out)
     struct _pdc_metadata_query_args **lookup_args;
     uint32_t                          server_id;
     uint32_t                          i, count = 0;
-    hg_handle_t *                     metadata_query_handle;
+    hg_handle_t *                     metadata_query_handle = NULL;
 
     FUNC_ENTER(NULL);
 
+    *out = NULL;
+
+    // Looking a server up waits for responses, all of them have to be known before the requests are sent
+    for (server_id = 0; server_id < (uint32_t)pdc_server_num_g; server_id++) {
+        if (PDC_Client_try_lookup_server(server_id, 0) != SUCCEED)
+            PGOTO_ERROR(FAIL, "==CLIENT[%d]: ERROR with PDC_Client_try_lookup_server", pdc_client_mpi_rank_g);
+    }
+
     metadata_query_handle = (hg_handle_t *)malloc(sizeof(hg_handle_t) * pdc_server_num_g);
 
     // Fill input structure
@@ -2306,14 +2314,11 @@ PDC_Client_query_metadata_name_only(const char *obj_name, pdc_metadata_t **out)
 
     for (server_id = 0; server_id < (uint32_t)pdc_server_num_g; server_id++) {
         lookup_args[server_id] =
-            (struct _pdc_metadata_query_args *)malloc(sizeof(struct _pdc_metadata_query_args));
+            (struct _pdc_metadata_query_args *)calloc(1, sizeof(struct _pdc_metadata_query_args));
 
         // Debug statistics for counting number of messages sent to each server.
         debug_server_id_count[server_id]++;
 
-        if (PDC_Client_try_lookup_server(server_id, 0) != SUCCEED)
-            PGOTO_ERROR(FAIL, "==CLIENT[%d]: ERROR with PDC_Client_try_lookup_server", pdc_client_mpi_rank_g);
-
         HG_Create(send_context_g, pdc_server_info_g[server_id].addr, metadata_query_register_id_g,
                   &metadata_query_handle[server_id]);
 
-- 
2.43.0


From f43a93c6f2357d95f09efd4557114d617b931e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:19 +0000
Subject: [PATCH 53/58] fix: PDCobj_flush_start names the object by its
 metadata id

---
 src/api/pdc_obj/pdc_obj.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index efe34d3..ae72b85 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -459,12 +459,19 @@ PDC_obj_close(struct _pdc_obj_info *op)
 perr_t
 PDCobj_flush_start(pdcid_t obj_id)
 {
-    perr_t ret_value = SUCCEED;
+    perr_t               ret_value = SUCCEED;
+    struct _pdc_id_info *id_info   = NULL;
 
     FUNC_ENTER(NULL);
 
-    PDC_Client_flush_obj(obj_id);
+    id_info = PDC_find_id(obj_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object ID");
 
+    // The servers know the object by its metadata ID
+    ret_value = PDC_Client_flush_obj(((struct _pdc_obj_info *)(id_info->obj_ptr))->obj_info_pub->meta_id);
+
+done:
     fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
-- 
2.43.0


From fcf504c50563eb89450995bbe4add18943e4c23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 54/58] fix: the cache's idle time does not depend on changes
 of the system time

---
 .../pdc_server_region_cache.c                 | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index a292fee..2ecbac3 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -28,7 +28,7 @@ typedef struct pdc_obj_cache {
     pdc_region_cache *    region_cache;
     pdc_region_cache *    region_cache_end;
     int                   region_cache_size;
-    struct timeval        timestamp;
+    struct timespec       timestamp; // of the monotonic clock: setting the time must not delay a flush
 } pdc_obj_cache;
 
 static pdc_obj_cache *obj_cache_list, *obj_cache_list_end;
@@ -471,7 +471,7 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     memcpy(region_cache_info->size, size, sizeof(uint64_t) * ndim);
     memcpy(region_cache_info->buf, buf, sizeof(char) * buf_size);
     total_cache_size += buf_size;
-    gettimeofday(&(obj_cache->timestamp), NULL);
+    clock_gettime(CLOCK_MONOTONIC, &(obj_cache->timestamp));
 
     pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
 
@@ -814,7 +814,7 @@ PDC_region_cache_flush_by_pointer(uint64_t obj_id, pdc_obj_cache *obj_cache)
     if (merged_request_size && obj_cache->ndim == 1) {
         free(buf_ptr);
     }
-    gettimeofday(&(obj_cache->timestamp), NULL);
+    clock_gettime(CLOCK_MONOTONIC, &(obj_cache->timestamp));
 #ifdef PDC_TIMING
     pdc_server_timings->PDCcache_flush += MPI_Wtime() - start_time;
 #endif
@@ -880,12 +880,12 @@ PDC_region_cache_flush_all()
 void *
 PDC_region_cache_clock_cycle(void *ptr)
 {
-    pdc_obj_cache *obj_cache, *obj_cache_iter;
-    struct timeval current_time;
-    struct timeval finish_time;
-    int            nflush            = 0;
-    double         flush_frequency_s = PDC_CACHE_FLUSH_TIME_INT, elapsed_time;
-    int            server_rank       = 0;
+    pdc_obj_cache * obj_cache, *obj_cache_iter;
+    struct timespec current_time;
+    struct timespec finish_time;
+    int             nflush            = 0;
+    double          flush_frequency_s = PDC_CACHE_FLUSH_TIME_INT, elapsed_time;
+    int             server_rank       = 0;
 
     char *p = getenv("PDC_SERVER_CACHE_FLUSH_FREQUENCY_S");
     if (p != NULL)
@@ -899,14 +899,14 @@ PDC_region_cache_clock_cycle(void *ptr)
         pthread_mutex_lock(&pdc_cache_mutex);
         if (!pdc_recycle_close_flag) {
             pthread_mutex_lock(&pdc_obj_cache_list_mutex);
-            gettimeofday(&current_time, NULL);
+            clock_gettime(CLOCK_MONOTONIC, &current_time);
             obj_cache_iter = obj_cache_list;
             nflush         = 0;
             while (obj_cache_iter != NULL) {
                 obj_cache = obj_cache_iter;
                 // flush every *flush_frequency_s seconds
                 elapsed_time = current_time.tv_sec - obj_cache->timestamp.tv_sec +
-                               (current_time.tv_usec - obj_cache->timestamp.tv_usec) / 1000000.0;
+                               (current_time.tv_nsec - obj_cache->timestamp.tv_nsec) / 1000000000.0;
                 /* if (current_time.tv_sec - obj_cache->timestamp.tv_sec > flush_frequency_s) { */
                 if (elapsed_time >= flush_frequency_s) {
                     nflush += PDC_region_cache_flush_by_pointer(obj_cache->obj_id, obj_cache);
@@ -917,9 +917,9 @@ PDC_region_cache_clock_cycle(void *ptr)
 #ifdef ENABLE_MPI
                 MPI_Comm_rank(MPI_COMM_WORLD, &server_rank);
 #endif
-                gettimeofday(&finish_time, NULL);
+                clock_gettime(CLOCK_MONOTONIC, &finish_time);
                 elapsed_time = finish_time.tv_sec - current_time.tv_sec +
-                               (finish_time.tv_usec - current_time.tv_usec) / 1000000.0;
+                               (finish_time.tv_nsec - current_time.tv_nsec) / 1000000000.0;
                 fprintf(stderr,
                         "==PDC_SERVER[%d]: flushed %d regions to storage (full/every %.0fs), took %.4fs\n",
                         server_rank, nflush, flush_frequency_s, elapsed_time);
-- 
2.43.0


From ae0a976f49e9beadce1e8b3a56a5a39a78b7c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:01 +0000
Subject: [PATCH 55/58] fix: collective creation and opening give every client
 the same answer

---
 src/api/pdc_client_connect.c | 24 ++++++++++++++-----
 src/api/pdc_obj/pdc_cont.c   |  2 ++
 src/api/pdc_obj/pdc_mpi.c    | 45 +++++++++++++++++++++++++++++-------
 3 files changed, 57 insertions(+), 14 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index cf34985..8d104f8 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2450,13 +2450,23 @@ PDC_Client_query_metadata_name_timestep_agg(const char *obj_name, int time_step,
     FUNC_ENTER(NULL);
 
 #ifdef ENABLE_MPI
-    if (pdc_client_mpi_rank_g == 0)
+    int found = 0;
+
+    *out = NULL;
+    if (pdc_client_mpi_rank_g == 0) {
         ret_value = PDC_Client_query_metadata_name_timestep(obj_name, time_step, out, metadata_server_id);
+        found     = *out != NULL;
+    }
 
     MPI_Bcast(&ret_value, 1, MPI_INT, 0, PDC_CLIENT_COMM_WORLD_g);
     if (ret_value != SUCCEED)
         PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: - ERROR with query [%s]", pdc_client_mpi_rank_g, obj_name);
 
+    // The query succeeds without a result when there is no object of this name
+    MPI_Bcast(&found, 1, MPI_INT, 0, PDC_CLIENT_COMM_WORLD_g);
+    if (!found)
+        PGOTO_DONE(SUCCEED);
+
     if (pdc_client_mpi_rank_g != 0)
         *out = (pdc_metadata_t *)calloc(1, sizeof(pdc_metadata_t));
 
@@ -2557,6 +2567,7 @@ PDC_Client_create_cont_id_mpi(const char *cont_name, pdcid_t cont_create_prop, p
         ret_value = PDC_Client_create_cont_id(cont_name, cont_create_prop, cont_id);
     }
 #ifdef ENABLE_MPI
+    MPI_Bcast(&ret_value, 1, MPI_INT, 0, PDC_CLIENT_COMM_WORLD_g);
     MPI_Bcast(cont_id, 1, MPI_LONG_LONG, 0, PDC_CLIENT_COMM_WORLD_g);
 #endif
 
@@ -5700,12 +5711,13 @@ PDC_Client_query_container_name_col(const char *cont_name, uint64_t *cont_meta_i
     FUNC_ENTER(NULL);
 
 #ifdef ENABLE_MPI
-    if (pdc_client_mpi_rank_g == 0) {
+    if (pdc_client_mpi_rank_g == 0)
         ret_value = PDC_Client_query_container_name(cont_name, cont_meta_id);
-        if (ret_value != SUCCEED)
-            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: error with PDC_Client_query_container_name",
-                        pdc_client_mpi_rank_g);
-    }
+
+    MPI_Bcast(&ret_value, 1, MPI_INT, 0, PDC_CLIENT_COMM_WORLD_g);
+    if (ret_value != SUCCEED)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: error with PDC_Client_query_container_name",
+                    pdc_client_mpi_rank_g);
 
     MPI_Bcast(cont_meta_id, 1, MPI_LONG_LONG, 0, PDC_CLIENT_COMM_WORLD_g);
 #else
diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index b40236a..8809565 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -305,6 +305,8 @@ PDCcont_open_col(const char *cont_name, pdcid_t pdc)
     ret = PDC_Client_query_container_name_col(cont_name, &cont_meta_id);
     if (ret == FAIL)
         PGOTO_ERROR(0, "query container name failed");
+    if (cont_meta_id == 0)
+        PGOTO_ERROR(0, "query container not found");
     cont_id   = PDC_cont_create_local(pdc, cont_name, cont_meta_id);
     ret_value = cont_id;
 
diff --git a/src/api/pdc_obj/pdc_mpi.c b/src/api/pdc_obj/pdc_mpi.c
index 4db4d04..2163e0d 100644
--- a/src/api/pdc_obj/pdc_mpi.c
+++ b/src/api/pdc_obj/pdc_mpi.c
@@ -32,30 +32,59 @@
 pdcid_t
 PDCobj_create_mpi(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, int rank_id, MPI_Comm comm)
 {
-    pdcid_t               ret_value = SUCCEED;
+    pdcid_t               ret_value = 0;
     struct _pdc_obj_info *p         = NULL;
     struct _pdc_id_info * id_info   = NULL;
-    int                   rank;
+    int                   rank, created = 0;
+    uint64_t              meta_id            = 0;
+    uint32_t              metadata_server_id = 0, data_server_id = 0;
+    uint8_t               region_partition = 0;
 
     FUNC_ENTER(NULL);
 
     MPI_Comm_rank(comm, &rank);
     if (rank == rank_id) {
         ret_value = PDC_obj_create(cont_id, obj_name, obj_prop_id, PDC_OBJ_GLOBAL);
+        created   = ret_value != 0;
     }
-    else
+
+    // Without an object on the server the creation fails on all ranks
+    MPI_Bcast(&created, 1, MPI_INT, rank_id, comm);
+    if (!created)
+        PGOTO_ERROR(0, "Unable to create object [%s]", obj_name);
+
+    if (rank != rank_id)
         ret_value = PDC_obj_create(cont_id, obj_name, obj_prop_id, PDC_OBJ_LOCAL);
 
     id_info = PDC_find_id(ret_value);
-    p       = (struct _pdc_obj_info *)(id_info->obj_ptr);
+    if (id_info != NULL)
+        p = (struct _pdc_obj_info *)(id_info->obj_ptr);
+
+    if (rank == rank_id) {
+        meta_id            = p->obj_info_pub->meta_id;
+        metadata_server_id = p->obj_info_pub->metadata_server_id;
+        data_server_id     = ((pdc_metadata_t *)p->metadata)->data_server_id;
+        region_partition   = (uint8_t)((pdc_metadata_t *)p->metadata)->region_partition;
+    }
 
-    MPI_Bcast(&(p->obj_info_pub->meta_id), 1, MPI_LONG_LONG, rank_id, comm);
-    MPI_Bcast(&(p->obj_info_pub->metadata_server_id), 1, MPI_UINT32_T, rank_id, comm);
-    MPI_Bcast(&(((pdc_metadata_t *)p->metadata)->data_server_id), 1, MPI_UINT32_T, rank_id, comm);
-    MPI_Bcast(&(((pdc_metadata_t *)p->metadata)->region_partition), 1, MPI_UINT8_T, rank_id, comm);
+    MPI_Bcast(&meta_id, 1, MPI_LONG_LONG, rank_id, comm);
+    MPI_Bcast(&metadata_server_id, 1, MPI_UINT32_T, rank_id, comm);
+    MPI_Bcast(&data_server_id, 1, MPI_UINT32_T, rank_id, comm);
+    MPI_Bcast(&region_partition, 1, MPI_UINT8_T, rank_id, comm);
+
+    if (p != NULL) {
+        p->obj_info_pub->meta_id                           = meta_id;
+        p->obj_info_pub->metadata_server_id                = metadata_server_id;
+        ((pdc_metadata_t *)p->metadata)->obj_id            = meta_id;
+        ((pdc_metadata_t *)p->metadata)->data_server_id    = data_server_id;
+        ((pdc_metadata_t *)p->metadata)->region_partition  = region_partition;
+    }
     // printf("PDCobj_create_mpi: obj partition for %s is %u @ rank %d\n", obj_name, (unsigned)
     // (((pdc_metadata_t *)p->metadata)->region_partition),rank);
     // PDC_Client_attach_metadata_to_local_obj((char *)obj_name, p->meta_id, p->cont->meta_id, p);
+
+done:
+    fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
 
-- 
2.43.0


From 4f4efcddc89d82133cb6fbcb164649a4f40241f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:30 +0000
Subject: [PATCH 56/58] fix: deleting an object by name reports that there was
 none

---
 src/api/pdc_client_connect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 8d104f8..615e7c2 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2270,7 +2270,7 @@ PDC_Client_delete_metadata(char *delete_name, pdcid_t obj_delete_prop)
     PDC_Client_check_response(&send_context_g);
 
     if (lookup_args.ret != 1)
-        printf("PDC_CLIENT: delete NOT successful ... ret_value = %d\n", lookup_args.ret);
+        PGOTO_ERROR(FAIL, "PDC_CLIENT: delete NOT successful ... ret_value = %d", lookup_args.ret);
 
 done:
     fflush(stdout);
-- 
2.43.0


From 7a69df503bc2d10073875f3e2e4851f30c3eb9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:30 +0000
Subject: [PATCH 57/58] fix: names and tags that do not fit are refused instead
 of overrunning their buffers

---
 src/server/pdc_client_server_common.c |  4 +-
 src/server/pdc_server_metadata.c      | 75 +++++++++++++++++++++------
 2 files changed, 62 insertions(+), 17 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index ee17b1a..06cd836 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -1592,15 +1592,15 @@ HG_TEST_RPC_CB(gen_cont_id, handle)
     HG_Get_input(handle, &in);
 
     // Insert to hash table
+    // The client is told of a failure by the container ID 0
     ret_value = PDC_Server_create_container(&in, &out);
     if (ret_value != SUCCEED)
-        PGOTO_ERROR(ret_value, "==PDC_SERVER: error with container object creation");
+        printf("==PDC_SERVER: error with container object creation\n");
 
     HG_Respond(handle, NULL, NULL, &out);
     HG_Free_input(handle, &in);
     HG_Destroy(handle);
 
-done:
     fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 592fb5c..66c5599 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -258,6 +258,28 @@ PDC_Server_metadata_init(pdc_metadata_t *a)
 }
 // ^ hash table
 
+/*
+ * Append a tag to a ','-separated list of tags
+ *
+ * \param  tags [IN/OUT]    List of tags, TAG_LEN_MAX characters
+ * \param  new_tag [IN]     Tag to append
+ *
+ * \return Non-negative on success/Negative when the tag does not fit
+ */
+static perr_t
+append_tag(char *tags, const char *new_tag)
+{
+    size_t len = strlen(tags);
+
+    if (len + 1 + strlen(new_tag) >= TAG_LEN_MAX)
+        return FAIL;
+    // add a ',' to separate different tags
+    tags[len] = ',';
+    strcpy(tags + len + 1, new_tag);
+
+    return SUCCEED;
+}
+
 /*
  * Concatenate the metadata's obj_name and time_step to one char array
  *
@@ -757,11 +779,10 @@ PDC_Server_add_tag_metadata(metadata_add_tag_in_t *in, metadata_add_tag_out_t *o
                 // obj_name change is done through client with delete and add operation.
                 if (in->new_tag != NULL && in->new_tag[0] != 0 &&
                     !(in->new_tag[0] == ' ' && in->new_tag[1] == 0)) {
-                    // add a ',' to separate different tags
-                    target->tags[strlen(target->tags) + 1] = 0;
-                    target->tags[strlen(target->tags)]     = ',';
-                    strcat(target->tags, in->new_tag);
-                    out->ret = 1;
+                    if (append_tag(target->tags, in->new_tag) == SUCCEED)
+                        out->ret = 1;
+                    else
+                        out->ret = -1;
                 }
                 else
                     out->ret = -1;
@@ -872,6 +893,14 @@ PDC_Server_update_metadata(metadata_update_in_t *in, metadata_update_out_t *out)
                 // Check and find valid update fields
                 // Currently user_id, obj_name are not supported to be updated in this way
                 // obj_name change is done through client with delete and add operation.
+                if (strlen(in->new_metadata.app_name) >= OBJ_NAME_MAX ||
+                    strlen(in->new_metadata.data_location) >= ADDR_MAX ||
+                    (in->new_metadata.tags[0] != 0 && strcmp(in->new_metadata.tags, " ") != 0 &&
+                     strlen(target->tags) + 1 + strlen(in->new_metadata.tags) >= TAG_LEN_MAX)) {
+                    printf("==PDC_SERVER: updated metadata is too long!\n");
+                    out->ret = -1;
+                    goto done;
+                }
                 if (in->new_metadata.time_step != -1)
                     target->time_step = in->new_metadata.time_step;
                 if (in->new_metadata.app_name[0] != 0 &&
@@ -882,10 +911,7 @@ PDC_Server_update_metadata(metadata_update_in_t *in, metadata_update_out_t *out)
                     strcpy(target->data_location, in->new_metadata.data_location);
                 if (in->new_metadata.tags[0] != 0 &&
                     !(in->new_metadata.tags[0] == ' ' && in->new_metadata.tags[1] == 0)) {
-                    // add a ',' to separate different tags
-                    target->tags[strlen(target->tags) + 1] = 0;
-                    target->tags[strlen(target->tags)]     = ',';
-                    strcat(target->tags, in->new_metadata.tags);
+                    append_tag(target->tags, in->new_metadata.tags);
                 }
                 if (in->new_metadata.current_state != 0) {
                     target->transform_state          = in->new_metadata.current_state;
@@ -1123,7 +1149,7 @@ PDC_delete_metadata_from_hash_table(metadata_delete_in_t *in, metadata_delete_ou
 
     pdc_hash_table_entry_head *lookup_value;
     pdc_metadata_t             metadata;
-    strcpy(metadata.obj_name, in->obj_name);
+    snprintf(metadata.obj_name, OBJ_NAME_MAX, "%s", in->obj_name);
     metadata.time_step   = in->time_step;
     metadata.app_name[0] = 0;
     metadata.user_id     = -1;
@@ -1140,7 +1166,7 @@ PDC_delete_metadata_from_hash_table(metadata_delete_in_t *in, metadata_delete_ou
         lookup_value = hash_table_lookup(metadata_hash_table_g, hash_key);
 
         // Is this hash value exist in the Hash table?
-        if (lookup_value != NULL) {
+        if (lookup_value != NULL && strlen(in->obj_name) < OBJ_NAME_MAX) {
             // Check if there exist metadata identical to current one
             target = find_identical_metadata(lookup_value, &metadata);
             if (target != NULL) {
@@ -1249,6 +1275,14 @@ PDC_insert_metadata_to_hash_table(gen_obj_id_in_t *in, gen_obj_id_out_t *out)
     gettimeofday(&pdc_timer_start, 0);
 #endif
 
+    out->obj_id = 0;
+    if (strlen(in->data.obj_name) >= OBJ_NAME_MAX || strlen(in->data.app_name) >= OBJ_NAME_MAX ||
+        strlen(in->data.tags) >= TAG_LEN_MAX || strlen(in->data.data_location) >= ADDR_MAX) {
+        printf("==PDC_SERVER[%d]: metadata of the new object is too long!\n", pdc_server_rank_g);
+        ret_value = FAIL;
+        goto done;
+    }
+
     metadata = (pdc_metadata_t *)PDC_malloc(sizeof(pdc_metadata_t));
     if (metadata == NULL) {
         printf("Cannot allocate pdc_metadata_t!\n");
@@ -1964,7 +1998,7 @@ PDC_Server_search_with_name_timestep(const char *obj_name, uint32_t hash_key, ui
 
     name = obj_name;
 
-    strcpy(metadata.obj_name, name);
+    snprintf(metadata.obj_name, OBJ_NAME_MAX, "%s", name);
     metadata.time_step = ts;
 
     if (metadata_hash_table_g != NULL) {
@@ -1972,7 +2006,7 @@ PDC_Server_search_with_name_timestep(const char *obj_name, uint32_t hash_key, ui
         lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
 
         // Is this hash value exist in the Hash table?
-        if (lookup_value != NULL) {
+        if (lookup_value != NULL && strlen(name) < OBJ_NAME_MAX) {
             *out = find_identical_metadata(lookup_value, &metadata);
 
             if (*out == NULL) {
@@ -2015,7 +2049,7 @@ PDC_Server_search_with_name_hash(const char *obj_name, uint32_t hash_key, pdc_me
 
     name = obj_name;
 
-    strcpy(metadata.obj_name, name);
+    snprintf(metadata.obj_name, OBJ_NAME_MAX, "%s", name);
     // TODO: currently PDC_Client_query_metadata_name_timestep is not taking timestep for querying
     metadata.time_step = 0;
 
@@ -2024,7 +2058,7 @@ PDC_Server_search_with_name_hash(const char *obj_name, uint32_t hash_key, pdc_me
         lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
 
         // Is this hash value exist in the Hash table?
-        if (lookup_value != NULL) {
+        if (lookup_value != NULL && strlen(name) < OBJ_NAME_MAX) {
             *out = find_identical_metadata(lookup_value, &metadata);
 
             if (*out == NULL) {
@@ -2219,6 +2253,12 @@ PDC_Server_create_container(gen_cont_id_in_t *in, gen_cont_id_out_t *out)
 
     out->cont_id = 0;
 
+    if (strlen(in->cont_name) >= ADDR_MAX) {
+        printf("==PDC_SERVER[%d]: name of the new container is too long!\n", pdc_server_rank_g);
+        ret_value = FAIL;
+        goto done;
+    }
+
 #ifdef ENABLE_TIMING
     // Timing
     struct timeval pdc_timer_start;
@@ -2575,6 +2615,11 @@ PDC_Server_container_add_tags(uint64_t cont_id, char *tags)
     if (cont_entry != NULL) {
 
         if (tags != NULL) {
+            if (strlen(cont_entry->tags) + strlen(tags) >= TAG_LEN_MAX) {
+                printf("==PDC_SERVER[%d]: %s - tags do not fit!\n", pdc_server_rank_g, __func__);
+                ret_value = FAIL;
+                goto done;
+            }
             strcat(cont_entry->tags, tags);
         }
     }
-- 
2.43.0


From ec05e9a0f4541ccd0f9e6358a6b0673342e2c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:10 +0000
Subject: [PATCH 58/58] fix: PDC_Client_query_tag fills all fields of its
 request

---
 src/api/pdc_client_connect.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 615e7c2..c846160 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -1805,6 +1805,9 @@ PDC_Client_query_tag(const char *tags, int *n_res, pdc_metadata_t ***out)
     in.time_step_to   = -1;
     in.ndim           = 0;
     in.tags           = tags;
+    in.k_query        = " ";
+    in.vfrom_query    = " ";
+    in.vto_query      = " ";
 
     *out   = NULL;
     *n_res = 0;
-- 
2.43.0

