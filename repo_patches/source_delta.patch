From fbbf88e40b236860efc000b87c428c5b12e75690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 01/75] fix: PDCobj_open of an object that does not exist
 returns 0 instead of dereferencing NULL

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 9b307e5..0f01513 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -574,7 +574,7 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
     else
         ret = PDC_Client_query_metadata_name_timestep_agg(obj_name, 0, &out, &metadata_server_id);
 
-    if (ret == FAIL)
+    if (ret == FAIL || out == NULL)
         PGOTO_ERROR(0, "query object failed");
 
     obj_prop = PDCprop_create(PDC_OBJ_CREATE, pdc);
-- 
2.43.0


From a7c18a33e5b9f6f139a6181db0f5b16ed8556b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 02/75] fix: a rejected object creation leaves no half-built
 handle behind The handle was registered before the server was asked, so
 iterating over the objects or closing the library after a rejected creation
 read uninitialised memory.

---
 src/api/pdc_obj/pdc_obj.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 0f01513..c83bbf0 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -333,7 +333,6 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     if (!p->obj_info_pub)
         PGOTO_ERROR(0, "PDC pub object memory allocation failed");
     p->obj_info_pub->name      = strdup(obj_name);
-    p->obj_info_pub->local_id  = PDC_id_register(PDC_OBJ, p);
     p->obj_info_pub->meta_id   = 0;
     p->obj_info_pub->server_id = 0;
     if (location == PDC_OBJ_GLOBAL) {
@@ -360,7 +359,8 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     for (i = 0; i < obj_prop->obj_prop_pub->ndim; i++)
         p->obj_info_pub->obj_pt->dims[i] = obj_prop->obj_prop_pub->dims[i];
 
-    ret_value = p->obj_info_pub->local_id;
+    p->obj_info_pub->local_id = PDC_id_register(PDC_OBJ, p);
+    ret_value                 = p->obj_info_pub->local_id;
 
 done:
     fflush(stdout);
-- 
2.43.0


From d0b5ec9a221d4eb1c2e1ba966c97a3f0c59b339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 03/75] fix: PDCobj_iter_next advances past objects of other
 containers instead of looping forever

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index c83bbf0..7299eee 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -715,7 +715,7 @@ PDCobj_iter_next(obj_handle *ohandle, pdcid_t cont_id)
 
     while (next != NULL &&
            ((struct _pdc_obj_info *)(next->obj_ptr))->cont->cont_info_pub->local_id != cont_id) {
-        next = PDC_LIST_NEXT(ohandle, entry);
+        next = PDC_LIST_NEXT(next, entry);
     }
 
     ret_value = next;
-- 
2.43.0


From 156dc63f285106bd0a8dbc49f74d49471c65bda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 04/75] fix: deleting an object by id does not go on walking
 the freed list and hash entry

---
 src/server/pdc_server_metadata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 02380fc..84b0a11 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1012,6 +1012,8 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
                     }
                     out->ret  = 1;
                     ret_value = SUCCEED;
+                    // Ids are unique, and the list and its entry may be gone by now
+                    goto done;
                 }
             } // DL_FOREACH
         }     // while
-- 
2.43.0


From 70469f612e79c754abede3a2c577ae1484988aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 05/75] fix: metadata queries send initialised strings for the
 fields they do not use

---
 src/api/pdc_client_connect.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index b890062..7b1eae1 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -1688,6 +1688,9 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
     in.time_step_to   = -1;
     in.ndim           = -1;
     in.tags           = " ";
+    in.k_query        = " ";
+    in.vfrom_query    = " ";
+    in.vto_query      = " ";
 
     if (is_list_all != 1) {
         in.user_id        = user_id;
@@ -1801,6 +1804,9 @@ PDC_Client_query_tag(const char *tags, int *n_res, pdc_metadata_t ***out)
     in.time_step_to   = -1;
     in.ndim           = 0;
     in.tags           = tags;
+    in.k_query        = " ";
+    in.vfrom_query    = " ";
+    in.vto_query      = " ";
 
     *out   = NULL;
     *n_res = 0;
-- 
2.43.0


From e4be15ee731b3ced57be57776b6bc07c7d1fe502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 06/75] fix: a client with a rank beyond the number of servers
 asks no server in a partial metadata query

---
 src/api/pdc_client_connect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 7b1eae1..5a2e340 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -1720,7 +1720,7 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
         my_server_start = pdc_client_mpi_rank_g;
         my_server_end   = my_server_start + 1;
         if (pdc_client_mpi_rank_g >= pdc_server_num_g) {
-            my_server_end = -1;
+            my_server_end = my_server_start;
         }
     }
 
-- 
2.43.0


From 4650651d1da95da8e3b6c3724651632596d09c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 07/75] fix: reading a tag returns the type it was stored with

---
 src/server/pdc_server_metadata.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 84b0a11..277bd53 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2986,6 +2986,7 @@ PDC_get_kvtag_value_from_list(pdc_kvtag_list_t **list_head, char *key, metadata_
         if (strcmp(elt->kvtag->name, key) == 0) {
             out->kvtag.name  = elt->kvtag->name;
             out->kvtag.size  = elt->kvtag->size;
+            out->kvtag.type  = elt->kvtag->type;
             out->kvtag.value = elt->kvtag->value;
             break;
         }
-- 
2.43.0


From e3d7f43daccd8d39040fe3a0424f13115fe797ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 08/75] fix: setting a tag again replaces its value The second
 value was appended behind the first one, so reading the tag kept returning
 the old value and deleting it uncovered the new one.

---
 src/server/pdc_server_metadata.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 277bd53..f391614 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2768,10 +2768,22 @@ PDC_add_kvtag_to_list(pdc_kvtag_list_t **list_head, pdc_kvtag_t *tag)
     FUNC_ENTER(NULL);
 
     PDC_kvtag_dup(tag, &newtag);
+
+    // A tag has one value, setting it again replaces the previous one
+    DL_FOREACH(*list_head, new_list_item)
+    {
+        if (strcmp(new_list_item->kvtag->name, tag->name) == 0) {
+            PDC_free_kvtag(&new_list_item->kvtag);
+            new_list_item->kvtag = newtag;
+            goto done;
+        }
+    }
+
     new_list_item        = (pdc_kvtag_list_t *)PDC_calloc(1, sizeof(pdc_kvtag_list_t));
     new_list_item->kvtag = newtag;
     DL_APPEND(*list_head, new_list_item);
 
+done:
     fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
-- 
2.43.0


From 900c073fb6a3d62cb2c961c6110166bed364b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 09/75] fix: tags of a container work when an object has the
 same name, and never land on another container

---
 src/server/pdc_server_metadata.c | 58 +++++++++++---------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index f391614..a45d7f7 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2869,27 +2869,21 @@ PDC_Server_add_kvtag_someta(metadata_add_kvtag_in_t *in, metadata_add_tag_out_t
     perr_t                       ret_value = SUCCEED;
     pdc_hash_table_entry_head *  lookup_value;
     pdc_cont_hash_table_entry_t *cont_lookup_value;
+    pdc_metadata_t *             target = NULL;
     uint32_t                     hash_key;
 
     hash_key = in->hash_value;
 
     lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
+    if (lookup_value != NULL)
         target = find_metadata_by_id_from_list(lookup_value->metadata, in->obj_id);
-        if (target != NULL) {
-            PDC_add_kvtag_to_list(&target->kvtag_list_head, &in->kvtag);
-            out->ret = 1;
-        } // if (lookup_value != NULL)
-        else {
-            // Object not found
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
-    }      // if lookup_value != NULL
-    else { // look for containers
+    if (target != NULL) {
+        PDC_add_kvtag_to_list(&target->kvtag_list_head, &in->kvtag);
+        out->ret = 1;
+    }
+    else { // look for containers, an object and a container may have the same name
         cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
+        if (cont_lookup_value != NULL && cont_lookup_value->cont_id == in->obj_id) {
             PDC_add_kvtag_to_list(&cont_lookup_value->kvtag_list_head, &in->kvtag);
             out->ret = 1;
         }
@@ -3125,27 +3119,22 @@ PDC_Server_get_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_get_kvtag_out_
     uint64_t                     obj_id;
     pdc_hash_table_entry_head *  lookup_value;
     pdc_cont_hash_table_entry_t *cont_lookup_value;
+    pdc_metadata_t *             target = NULL;
 
     hash_key = in->hash_value;
     obj_id   = in->obj_id;
 
     lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
+    if (lookup_value != NULL)
         target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-        if (target != NULL) {
-            PDC_get_kvtag_value_from_list(&target->kvtag_list_head, in->key, out);
-            out->ret = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
+    if (target != NULL) {
+        PDC_get_kvtag_value_from_list(&target->kvtag_list_head, in->key, out);
+        out->ret = 1;
     }
     else {
 
         cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
+        if (cont_lookup_value != NULL && cont_lookup_value->cont_id == obj_id) {
             PDC_get_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key, out);
             out->ret = 1;
         }
@@ -3323,29 +3312,22 @@ PDC_Server_del_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_add_tag_out_t
     uint64_t                     obj_id;
     pdc_hash_table_entry_head *  lookup_value;
     pdc_cont_hash_table_entry_t *cont_lookup_value;
+    pdc_metadata_t *             target = NULL;
 
     hash_key = in->hash_value;
     obj_id   = in->obj_id;
 
     // Look obj tags first
     lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
+    if (lookup_value != NULL)
         target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-        if (target != NULL) {
-            ret_value = PDC_del_kvtag_value_from_list(&target->kvtag_list_head, in->key);
-            out->ret  = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-            printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g,
-                   __func__, in->key);
-        }
+    if (target != NULL) {
+        ret_value = PDC_del_kvtag_value_from_list(&target->kvtag_list_head, in->key);
+        out->ret  = 1;
     }
     else {
         cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
+        if (cont_lookup_value != NULL && cont_lookup_value->cont_id == obj_id) {
             PDC_del_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key);
             out->ret = 1;
         }
-- 
2.43.0


From 6d3a2a2ce8c52d38482bb87e6171e018ea83e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 10/75] fix: object ids and tags of containers survive a
 checkpoint and restart Only the pointers were saved; after a restart any use
 of them read freed memory.

---
 src/server/pdc_server.c | 54 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index d73fd9b..709427e 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1288,6 +1288,22 @@ PDC_Server_checkpoint()
         hash_key = PDC_get_hash_by_name(cont_head->cont_name);
         fwrite(&hash_key, sizeof(uint32_t), 1, file);
         fwrite(cont_head, sizeof(pdc_cont_hash_table_entry_t), 1, file);
+
+        // The entry only holds pointers to its object ids and kv tags
+        if (cont_head->n_obj > 0)
+            fwrite(cont_head->obj_ids, sizeof(uint64_t), cont_head->n_obj, file);
+
+        DL_COUNT(cont_head->kvtag_list_head, kvlist_elt, n_kvtag);
+        fwrite(&n_kvtag, sizeof(int), 1, file);
+        DL_FOREACH(cont_head->kvtag_list_head, kvlist_elt)
+        {
+            key_len = strlen(kvlist_elt->kvtag->name) + 1;
+            fwrite(&key_len, sizeof(int), 1, file);
+            fwrite(kvlist_elt->kvtag->name, key_len, 1, file);
+            fwrite(&kvlist_elt->kvtag->size, sizeof(uint32_t), 1, file);
+            fwrite(&kvlist_elt->kvtag->type, sizeof(int8_t), 1, file);
+            fwrite(kvlist_elt->kvtag->value, kvlist_elt->kvtag->size, 1, file);
+        }
     }
 
     // DHT
@@ -1516,6 +1532,44 @@ PDC_Server_restart(char *filename)
             printf("Read failed for cont_entry\n");
         }
 
+        // The pointers that were saved belong to the previous server process
+        cont_entry->obj_ids         = NULL;
+        cont_entry->n_allocated     = 0;
+        cont_entry->kvtag_list_head = NULL;
+        if (cont_entry->n_obj > 0) {
+            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), cont_entry->n_obj);
+            cont_entry->n_allocated = cont_entry->n_obj;
+            if (fread(cont_entry->obj_ids, sizeof(uint64_t), cont_entry->n_obj, file) !=
+                (size_t)cont_entry->n_obj) {
+                printf("Read failed for cont_entry->obj_ids\n");
+            }
+        }
+        if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
+            printf("Read failed for n_kvtag\n");
+        }
+        for (j = 0; j < n_kvtag; j++) {
+            pdc_kvtag_list_t *kvtag_list = (pdc_kvtag_list_t *)calloc(1, sizeof(pdc_kvtag_list_t));
+            kvtag_list->kvtag            = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
+            if (fread(&key_len, sizeof(int), 1, file) != 1) {
+                printf("Read failed for key_len\n");
+            }
+            kvtag_list->kvtag->name = malloc(key_len);
+            if (fread((void *)(kvtag_list->kvtag->name), key_len, 1, file) != 1) {
+                printf("Read failed for kvtag_list->kvtag->name\n");
+            }
+            if (fread(&kvtag_list->kvtag->size, sizeof(uint32_t), 1, file) != 1) {
+                printf("Read failed for kvtag_list->kvtag->size\n");
+            }
+            if (fread(&kvtag_list->kvtag->type, sizeof(int8_t), 1, file) != 1) {
+                printf("Read failed for kvtag_list->kvtag->type\n");
+            }
+            kvtag_list->kvtag->value = malloc(kvtag_list->kvtag->size);
+            if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
+                printf("Read failed for kvtag_list->kvtag->value\n");
+            }
+            DL_APPEND(cont_entry->kvtag_list_head, kvtag_list);
+        }
+
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&pdc_container_hash_table_mutex_g);
 #endif
-- 
2.43.0


From bc3b205ed27345840ff6132cfaefc9968f2ed8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 11/75] fix: ids handed out after a restart do not repeat the
 ones of restored objects

---
 src/server/pdc_server.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 709427e..daf02ba 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1408,6 +1408,9 @@ PDC_Server_checkpoint()
     fwrite(&checkpoint_size, sizeof(uint64_t), 1, file);
     fwrite(checkpoint, checkpoint_size, 1, file);
 
+    // New ids must not repeat the ones handed out before a restart
+    fwrite(&pdc_id_seq_g, sizeof(uint64_t), 1, file);
+
     fclose(file);
 
     if (use_tmpfs) {
@@ -1801,6 +1804,10 @@ PDC_Server_restart(char *filename)
     transfer_request_metadata_query_init(pdc_server_size_g, checkpoint_buf);
     free(checkpoint_buf);
 
+    if (fread(&pdc_id_seq_g, sizeof(uint64_t), 1, file) != 1) {
+        printf("Read failed for pdc_id_seq_g\n");
+    }
+
     fclose(file);
     file = NULL;
 
-- 
2.43.0


From 3b695362695b7d865b2bae31d394d83da8274dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 12/75] fix: the object count only drops when an object is
 deleted by id Deleting a container or an id that does not exist made it too
 small, and the list of all objects, sized by it, was written past its end.

---
 src/server/pdc_server_metadata.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index a45d7f7..cdc56e2 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -932,7 +932,7 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
     HashTableIterator hash_table_iter;
     HashTablePair     pair;
     uint64_t          target_obj_id;
-    int               n_entry;
+    int               n_entry, n_deleted = 0;
 
     FUNC_ENTER(NULL);
 
@@ -1010,6 +1010,7 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
                         uint32_t hash_key = PDC_get_hash_by_name(elt->obj_name);
                         hash_table_remove(metadata_hash_table_g, &hash_key);
                     }
+                    n_deleted = 1;
                     out->ret  = 1;
                     ret_value = SUCCEED;
                     // Ids are unique, and the list and its entry may be gone by now
@@ -1054,7 +1055,7 @@ done:
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&n_metadata_mutex_g);
 #endif
-    n_metadata_g--;
+    n_metadata_g -= n_deleted;
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&n_metadata_mutex_g);
 #endif
-- 
2.43.0


From b33a5328908192bb08f6b02509af92f27d8c5c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 13/75] fix: the first objects added to a container may be more
 than the default allocation

---
 src/server/pdc_server_metadata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index cdc56e2..33ae24d 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2444,8 +2444,8 @@ PDC_Server_container_add_objs(int n_obj, uint64_t *obj_ids, uint64_t cont_id)
     if (cont_entry != NULL) {
         // Check if need to allocate space
         if (cont_entry->n_allocated == 0) {
-            cont_entry->n_allocated = PDC_ALLOC_BASE_NUM;
-            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), PDC_ALLOC_BASE_NUM);
+            cont_entry->n_allocated = n_obj > PDC_ALLOC_BASE_NUM ? n_obj : PDC_ALLOC_BASE_NUM;
+            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), cont_entry->n_allocated);
             total_mem_usage_g += sizeof(uint64_t) * cont_entry->n_allocated;
         }
         else if (cont_entry->n_allocated < cont_entry->n_obj + n_obj) {
-- 
2.43.0


From 8429b823c4b62d847fd2ad876677e460a0fedb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 14/75] fix: the output of a tag query without a result is
 freed once

---
 src/api/pdc_client_connect.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 5a2e340..8b5039b 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -7319,7 +7319,6 @@ kvtag_query_forward_cb(const struct hg_cb_info *callback_info)
         // hg_atomic_decr32(&atomic_work_todo_g);
         bulk_arg->n_meta  = 0;
         bulk_arg->obj_ids = NULL;
-        HG_Free_output(handle, &output);
         HG_Destroy(handle);
         PGOTO_DONE(ret_value);
     }
-- 
2.43.0


From c5515bdb89ea1b40003f63cb2c1f255578d3c98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 15/75] fix: the bulk handle of a tag query result is only
 freed with the output it came in

---
 src/api/pdc_client_connect.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 8b5039b..64d7f6c 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -7231,7 +7231,6 @@ kvtag_query_bulk_cb(const struct hg_cb_info *hg_cb_info)
 {
     hg_return_t         ret_value = HG_SUCCESS;
     struct bulk_args_t *bulk_args;
-    hg_bulk_t           origin_bulk_handle = hg_cb_info->info.bulk.origin_handle;
     hg_bulk_t           local_bulk_handle  = hg_cb_info->info.bulk.local_handle;
     uint32_t            n_meta, actual_cnt;
     void *              buf = NULL;
@@ -7275,10 +7274,6 @@ kvtag_query_bulk_cb(const struct hg_cb_info *hg_cb_info)
     if (ret_value != HG_SUCCESS)
         PGOTO_ERROR(ret_value, "Could not free HG bulk handle");
 
-    ret_value = HG_Bulk_free(origin_bulk_handle);
-    if (ret_value != HG_SUCCESS)
-        PGOTO_ERROR(ret_value, "Could not free HG bulk handle");
-
 done:
     hg_atomic_decr32(&bulk_todo_g);
     hg_atomic_cas32(&bulk_transfer_done_g, 0, 1);
-- 
2.43.0


From 678b28b9742652ee4635f5ec7cbdd2bdd51ced9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 16/75] fix: a write lays out a 2D or 3D local region as a read
 does The rows of the user's buffer were taken to be as long as the region for
 a write and as long as the object's rows for a read.

---
 src/api/pdc_region/pdc_region_transfer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index ee4e48c..7cf044d 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -537,7 +537,7 @@ pack_region_buffer(char *buf, uint64_t *obj_dims, size_t total_data_size, int lo
         if (access_type == PDC_WRITE) {
             ptr = *new_buf;
             for (i = 0; i < local_size[0]; ++i) {
-                memcpy(ptr, buf + ((local_offset[0] + i) * local_size[1] + local_offset[1]) * unit,
+                memcpy(ptr, buf + ((local_offset[0] + i) * obj_dims[1] + local_offset[1]) * unit,
                        local_size[1] * unit);
                 ptr += local_size[1] * unit;
             }
@@ -550,8 +550,8 @@ pack_region_buffer(char *buf, uint64_t *obj_dims, size_t total_data_size, int lo
             for (i = 0; i < local_size[0]; ++i) {
                 for (j = 0; j < local_size[1]; ++j) {
                     memcpy(ptr,
-                           buf + ((local_offset[0] + i) * local_size[1] * local_size[2] +
-                                  (local_offset[1] + j) * local_size[2] + local_offset[2]) *
+                           buf + ((local_offset[0] + i) * obj_dims[1] * obj_dims[2] +
+                                  (local_offset[1] + j) * obj_dims[2] + local_offset[2]) *
                                      unit,
                            local_size[2] * unit);
                     ptr += local_size[2] * unit;
-- 
2.43.0


From b29b8eda30149ab86073a0c3390aff60185ecac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 17/75] fix: a write into a cached region also updates the
 other cached regions it overlaps A region cached later kept the old data,
 which was read or flushed over the new data.

---
 .../pdc_server_region/pdc_server_region_cache.c     | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 40564e7..5297662 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -560,23 +560,22 @@ PDC_transfer_request_data_write_out(uint64_t obj_id, int obj_ndim, const uint64_
         // data.
         region_cache_iter = obj_cache->region_cache;
         while (region_cache_iter != NULL) {
-            flag = 0;
             PDC_region_overlap_detect(region_info->ndim, region_info->offset, region_info->size,
                                       region_cache_iter->region_cache_info->offset,
                                       region_cache_iter->region_cache_info->size, &overlap_offset,
                                       &overlap_size);
             if (overlap_offset) {
-                flag = detect_region_contained(region_info->offset, region_info->size,
-                                               region_cache_iter->region_cache_info->offset,
-                                               region_cache_iter->region_cache_info->size, region_info->ndim);
+                // Every cached region that overlaps has to be updated, not only the first one that contains
+                // the input region.
+                if (detect_region_contained(region_info->offset, region_info->size,
+                                            region_cache_iter->region_cache_info->offset,
+                                            region_cache_iter->region_cache_info->size, region_info->ndim))
+                    flag = 1;
                 memcpy_overlap_subregion(
                     region_info->ndim, unit, buf, region_info->offset, region_info->size,
                     region_cache_iter->region_cache_info->buf, region_cache_iter->region_cache_info->offset,
                     region_cache_iter->region_cache_info->size, overlap_offset, overlap_size);
                 free(overlap_offset);
-                if (flag) {
-                    break;
-                }
             }
             /*
              else {
-- 
2.43.0


From 12dde83e3b87e29da58d5be93e436f7843a72246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 18/75] fix: a full region cache is flushed without touching
 the freed object entry

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 5297662..b20b30b 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -471,6 +471,7 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     memcpy(region_cache_info->size, size, sizeof(uint64_t) * ndim);
     memcpy(region_cache_info->buf, buf, sizeof(char) * buf_size);
     total_cache_size += buf_size;
+    gettimeofday(&(obj_cache->timestamp), NULL);
 
     pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
 
@@ -487,8 +488,6 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     // printf("created cache region at offset %llu, buf size %llu, unit = %ld, ndim = %ld, obj_id = %llu\n",
     //       offset[0], buf_size, unit, ndim, (long long unsigned)obj_cache->obj_id);
 
-    gettimeofday(&(obj_cache->timestamp), NULL);
-
     return 0;
 }
 
-- 
2.43.0


From 715a756975b06c65d04595e43471694a69796afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 19/75] fix: an object property starts with user id 0 instead
 of an uninitialised one

---
 src/api/pdc_obj/pdc_prop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 65f1985..2dfc6e1 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -98,6 +98,7 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         q->obj_prop_pub->consistency      = PDC_CONSISTENCY_EVENTUAL;
         q->data_loc                       = NULL;
         q->app_name                       = NULL;
+        q->user_id                        = 0;
         q->time_step                      = 0;
         q->tags                           = NULL;
         q->buf                            = NULL;
-- 
2.43.0


From 9c12437c459eebf83fcc325593c03150f2941028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 20/75] fix: a duplicated object property has all the fields of
 the original Type, user id and data location were dropped and the consistency
 was left uninitialised.

---
 src/api/pdc_obj/pdc_prop.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 2dfc6e1..af110c0 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -150,8 +150,12 @@ PDCprop_obj_dup(pdcid_t prop_id)
     q->time_step = info->time_step;
     if (info->tags)
         q->tags = strdup(info->tags);
-    q->data_loc = NULL;
-    q->buf      = NULL;
+    if (info->data_loc)
+        q->data_loc = strdup(info->data_loc);
+    q->user_id     = info->user_id;
+    q->type_extent = info->type_extent;
+    q->locus       = info->locus;
+    q->buf         = NULL;
 
     /* struct obj_prop_pub field */
     q->obj_prop_pub = (struct pdc_obj_prop *)PDC_malloc(sizeof(struct pdc_obj_prop));
@@ -161,8 +165,9 @@ PDCprop_obj_dup(pdcid_t prop_id)
     q->obj_prop_pub->obj_prop_id      = new_id;
     q->obj_prop_pub->ndim             = info->obj_prop_pub->ndim;
     q->obj_prop_pub->dims             = (uint64_t *)malloc(info->obj_prop_pub->ndim * sizeof(uint64_t));
-    q->obj_prop_pub->type             = PDC_UNKNOWN;
+    q->obj_prop_pub->type             = info->obj_prop_pub->type;
     q->obj_prop_pub->region_partition = info->obj_prop_pub->region_partition;
+    q->obj_prop_pub->consistency      = info->obj_prop_pub->consistency;
     for (i = 0; i < info->obj_prop_pub->ndim; i++)
         (q->obj_prop_pub->dims)[i] = (info->obj_prop_pub->dims)[i];
 
-- 
2.43.0


From 4f60af3dff72bb5fe89fa000200591817d4bffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 21/75] fix: setting the dimensions of an object property again
 may lower their number

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 7299eee..385aab6 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -875,8 +875,8 @@ PDCprop_set_obj_dims(pdcid_t obj_prop, PDC_int_t ndim, uint64_t *dims)
             free(prop->obj_prop_pub->dims);
         }
         prop->obj_prop_pub->dims = (uint64_t *)malloc(ndim * sizeof(uint64_t));
-        prop->obj_prop_pub->ndim = ndim;
     }
+    prop->obj_prop_pub->ndim = ndim;
     memcpy(prop->obj_prop_pub->dims, dims, ndim * sizeof(uint64_t));
 
 done:
-- 
2.43.0


From e3dcb30fd9930e4e06f6b8f9244066d70fa1cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 22/75] fix: a tag query compares values of the same size only
 A shorter stored value was read past its end, and a longer one matched by its
 first bytes.

---
 src/server/pdc_server_metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 33ae24d..f581241 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1619,7 +1619,7 @@ _is_matching_kvtag(pdc_kvtag_t *in, pdc_kvtag_t *kvtag)
     }
     else { // FIXME: for all numeric types, we use memcmp to compare, for exact value query, but we also
            // have to support range query.
-        if (memcmp(in->value, kvtag->value, in->size) != 0)
+        if (in->size != kvtag->size || memcmp(in->value, kvtag->value, in->size) != 0)
             return FALSE;
     }
 
-- 
2.43.0


From 3dd184d2372a88a0135f829c54fe3bd6939af8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 23/75] fix: the object count only drops when an object is
 deleted by name Deleting a name that does not exist made it too small, and a
 metadata query, sized by it, wrote past its end.

---
 src/server/pdc_server_metadata.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index f581241..a2e5a8a 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1183,7 +1183,8 @@ PDC_delete_metadata_from_hash_table(metadata_delete_in_t *in, metadata_delete_ou
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&n_metadata_mutex_g);
 #endif
-    n_metadata_g--;
+    if (out->ret == 1)
+        n_metadata_g--;
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&n_metadata_mutex_g);
 #endif
-- 
2.43.0


From dffb250557f867ca079ed0f1ae1f80a6c51d8dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 24/75] fix: the object count is restored with the objects
 after a restart Metadata queries are sized by it and wrote past their end.

---
 src/server/pdc_server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index daf02ba..28aefe0 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1811,6 +1811,8 @@ PDC_Server_restart(char *filename)
     fclose(file);
     file = NULL;
 
+    n_metadata_g = nobj;
+
 #ifdef ENABLE_MPI
     MPI_Reduce(&nobj, &all_nobj, 1, MPI_INT, MPI_SUM, 0, MPI_COMM_WORLD);
     MPI_Reduce(&total_region, &all_n_region, 1, MPI_INT, MPI_SUM, 0, MPI_COMM_WORLD);
-- 
2.43.0


From 23c3630561cfa7cf6bed72f7945e4c074f580047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 25/75] fix: a lone star in a tag query matches every string

---
 src/commons/utils/string_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index 546d567..27898d8 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -61,7 +61,8 @@ simple_matches(const char *str, const char *pattern)
             result = (tok == NULL ? 0 : endsWith(str, tok));
             break;
         case PATTERN_MIDDLE:
-            tok    = substring(pattern, 1, strlen(pattern) - 1);
+            // a single "*" has no token between two stars, and matches every string
+            tok    = strlen(pattern) == 1 ? substr(pattern, 1) : substring(pattern, 1, strlen(pattern) - 1);
             result = (tok == NULL ? 0 : contains(str, tok));
             break;
         default:
-- 
2.43.0


From 24f6573390184af2eac92fb4e2682497858b98b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 26/75] fix: the object count restored at a restart is not
 reset afterwards

---
 src/server/pdc_server.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 28aefe0..daa0151 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -995,8 +995,6 @@ drc_access_again:
     // Initalize atomic variable to finalize server
     hg_atomic_set32(&close_server_g, 0);
 
-    n_metadata_g = 0;
-
     // Initialize DART
     PDC_Server_dart_init();
 
-- 
2.43.0


From 8a0531385c734fde5660c0978c2dd3b4442177ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 27/75] fix: keep the elements of a full deque when it grows,
 and never shrink it to nothing

---
 src/commons/collections/pdc_deque.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/commons/collections/pdc_deque.c b/src/commons/collections/pdc_deque.c
index 5d2280c..eb80f05 100644
--- a/src/commons/collections/pdc_deque.c
+++ b/src/commons/collections/pdc_deque.c
@@ -22,10 +22,10 @@ resize_deque(PDC_deque_t *deque, size_t new_capacity)
         exit(1);
     }
 
-    size_t i = 0;
-    while (deque->head != deque->tail) {
-        new_data[i++] = deque->data[deque->head];
-        deque->head   = (deque->head + 1) % deque->capacity;
+    // head == tail when the deque is full as well as when it is empty, so go by the size
+    size_t i;
+    for (i = 0; i < deque->size; i++) {
+        new_data[i] = deque->data[(deque->head + i) % deque->capacity];
     }
 
     free(deque->data);
@@ -66,7 +66,7 @@ PDC_deque_pop_front(PDC_deque_t *deque)
     void *value = deque->data[deque->head];
     deque->head = (deque->head + 1) % deque->capacity;
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
@@ -81,7 +81,7 @@ PDC_deque_pop_back(PDC_deque_t *deque)
     deque->tail = (deque->tail - 1 + deque->capacity) % deque->capacity;
     void *value = deque->data[deque->tail];
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
-- 
2.43.0


From 40f63e8f281be546e700af58439990eef742f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 28/75] fix: grow a vector by at least one item

---
 src/commons/collections/pdc_vector.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/commons/collections/pdc_vector.c b/src/commons/collections/pdc_vector.c
index ac28c64..b74141e 100644
--- a/src/commons/collections/pdc_vector.c
+++ b/src/commons/collections/pdc_vector.c
@@ -56,11 +56,17 @@ pdc_vector_add(PDC_VECTOR *vector, void *item)
 
     // Expand the array of items if necessary.
     if (vector->item_count >= vector->capacity) {
-        vector->capacity *= vector->expansion_factor;
-        vector->items = (void **)realloc(vector->items, vector->capacity * sizeof(void *));
-        if (vector->items == NULL) {
+        size_t new_capacity = (size_t)(vector->capacity * vector->expansion_factor);
+        // a small capacity or factor may not make room for even one more item
+        if (new_capacity <= vector->item_count) {
+            new_capacity = vector->item_count + 1;
+        }
+        void **new_items = (void **)realloc(vector->items, new_capacity * sizeof(void *));
+        if (new_items == NULL) {
             return;
         }
+        vector->items    = new_items;
+        vector->capacity = new_capacity;
     }
 
     // Add the new item to the end of the array.
-- 
2.43.0


From f4116df7d850dc502afd5efe21f5676749b0994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 29/75] fix: define the stack functions under the names the
 header declares

---
 src/commons/collections/pdc_stack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/commons/collections/pdc_stack.c b/src/commons/collections/pdc_stack.c
index 3b33275..8bd5cb8 100644
--- a/src/commons/collections/pdc_stack.c
+++ b/src/commons/collections/pdc_stack.c
@@ -6,7 +6,7 @@
 #define DEFAULT_CAPACITY 16
 
 void
-stack_init(PDC_stack_t *stack)
+PDC_stack_init(PDC_stack_t *stack)
 {
     stack->data     = malloc(sizeof(void *) * DEFAULT_CAPACITY);
     stack->size     = 0;
@@ -14,7 +14,7 @@ stack_init(PDC_stack_t *stack)
 }
 
 void
-stack_push(PDC_stack_t *stack, void *value)
+PDC_stack_push(PDC_stack_t *stack, void *value)
 {
     if (stack->size == stack->capacity) {
         size_t new_capacity = stack->capacity * 2;
@@ -30,7 +30,7 @@ stack_push(PDC_stack_t *stack, void *value)
 }
 
 void *
-stack_pop(PDC_stack_t *stack)
+PDC_stack_pop(PDC_stack_t *stack)
 {
     if (stack->size == 0) {
         printf("Stack underflow!\n");
@@ -40,7 +40,7 @@ stack_pop(PDC_stack_t *stack)
 }
 
 void
-stack_free(PDC_stack_t *stack)
+PDC_stack_free(PDC_stack_t *stack)
 {
     free(stack->data);
 }
\ No newline at end of file
-- 
2.43.0


From ae5fe1752b90230f6440242cbe92346b4ea0223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 30/75] fix: keep the terminator of a key in its radix tree
 leaf

---
 src/commons/collections/art.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 6d15e1d..023419b 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -422,7 +422,8 @@ art_maximum(art_tree *t)
 static art_leaf *
 make_leaf(const unsigned char *key, int key_len, void *value)
 {
-    art_leaf *l = (art_leaf *)PDC_calloc(1, sizeof(art_leaf) + key_len);
+    // one more byte, zero: a key that is a prefix of another one branches off at its terminator
+    art_leaf *l = (art_leaf *)PDC_calloc(1, sizeof(art_leaf) + key_len + 1);
     l->value    = value;
     l->key_len  = key_len;
     memcpy(l->key, key, key_len);
-- 
2.43.0


From b3e1b206f63fe295944edd6f77a4f3474f9b250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 31/75] fix: order radix tree keys by unsigned bytes in nodes
 of 16

---
 src/commons/collections/art.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 023419b..e1c689f 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -494,7 +494,10 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
         __m128i cmp;
 
         // Compare the key to all 16 stored keys
-        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c), _mm_loadu_si128((__m128i *)n->keys));
+        // (the comparison is a signed one, the order of the keys is not)
+        __m128i flip = _mm_set1_epi8((char)0x80);
+        cmp          = _mm_cmplt_epi8(_mm_xor_si128(_mm_set1_epi8(c), flip),
+                             _mm_xor_si128(_mm_loadu_si128((__m128i *)n->keys), flip));
 
         // Use a mask to ignore children that don't exist
         unsigned bitfield = _mm_movemask_epi8(cmp) & mask;
@@ -503,7 +506,10 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
         __m128i cmp;
 
         // Compare the key to all 16 stored keys
-        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c), _mm_loadu_si128((__m128i *)n->keys));
+        // (the comparison is a signed one, the order of the keys is not)
+        __m128i flip = _mm_set1_epi8((char)0x80);
+        cmp          = _mm_cmplt_epi8(_mm_xor_si128(_mm_set1_epi8(c), flip),
+                             _mm_xor_si128(_mm_loadu_si128((__m128i *)n->keys), flip));
 
         // Use a mask to ignore children that don't exist
         unsigned bitfield = _mm_movemask_epi8(cmp) & mask;
-- 
2.43.0


From e99c20b514163c961f211a3edb65f8c13311806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 32/75] fix: do not list keys that differ from the prefix
 inside a compressed path

---
 src/commons/collections/art.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index e1c689f..968c254 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -1080,16 +1080,16 @@ art_iter_prefix(art_tree *t, const unsigned char *key, int key_len, art_callback
                 prefix_len = n->partial_len;
             }
 
-            // If there is no match, search is terminated
-            if (!prefix_len) {
-                return 0;
-
-                // If we've matched the prefix, iterate on this node
-            }
-            else if (depth + prefix_len == key_len) {
+            // If we've matched the prefix, iterate on this node
+            if (depth + prefix_len == key_len) {
                 return recursive_iter(n, cb, data);
             }
 
+            // If there is no full match, search is terminated
+            if ((uint32_t)prefix_len < n->partial_len) {
+                return 0;
+            }
+
             // if there is a full match, go deeper
             depth = depth + n->partial_len;
         }
-- 
2.43.0


From 5e965251aeeb3975b16ff59046d7f1bd05a115f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 33/75] fix: do not read past a key shorter than a radix tree
 path

---
 src/commons/collections/art.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 968c254..61719bf 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -327,6 +327,9 @@ art_search(const art_tree *t, const unsigned char *key, int key_len)
             if (prefix_len != min(MAX_PREFIX_LEN, n->partial_len))
                 return NULL;
             depth = depth + n->partial_len;
+            // only the first bytes of a long prefix were compared
+            if (depth > key_len)
+                return NULL;
         }
 
         // Recursively search
@@ -900,6 +903,9 @@ recursive_delete(art_node *n, art_node **ref, const unsigned char *key, int key_
             return NULL;
         }
         depth = depth + n->partial_len;
+        // only the first bytes of a long prefix were compared
+        if (depth > key_len)
+            return NULL;
     }
 
     // Find child node
-- 
2.43.0


From 04d497f4478176efc86b17319207c84588cdce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 34/75] fix: the array of an empty set

---
 src/commons/collections/pdc_set.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commons/collections/pdc_set.c b/src/commons/collections/pdc_set.c
index 8ec6524..1c373db 100644
--- a/src/commons/collections/pdc_set.c
+++ b/src/commons/collections/pdc_set.c
@@ -393,7 +393,8 @@ set_to_array(Set *set)
 
     /* Create an array to hold the set entries */
 
-    array = PDC_malloc(sizeof(SetValue) * set->entries);
+    /* (of an empty set as well: PDC_malloc refuses a size of zero) */
+    array = PDC_malloc(sizeof(SetValue) * (set->entries > 0 ? set->entries : 1));
 
     if (array == NULL) {
         return NULL;
-- 
2.43.0


From 257825a77cd170670358c03feb72fe14b5b8cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 35/75] fix: do not read past the end of a keyword shorter than
 the DART tree

---
 src/commons/index/dart/dart_core.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 43410f4..780b21a 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -80,13 +80,13 @@ get_base_virtual_node_id_by_string(DART *dart, char *str)
     int      n = 0;
     uint64_t c;
     uint64_t rst = 0;
-    uint64_t i_t_n;
+    uint64_t i_t_n   = 0;
     int      met_end = 0;
     for (n = 1; n <= dart->dart_tree_height; n++) {
-        if (str[n - 1] == '\0') { // test if the string ends.
+        if (met_end == 0 && str[n - 1] == '\0') { // test if the string ends.
             met_end = 1;
         }
-        if (str[n - 1] != '\0' && met_end == 0) { // if not, we calculate the character index.
+        if (met_end == 0) { // if not, we calculate the character index.
             i_t_n = ((uint64_t)str[n - 1]) % dart->alphabet_size;
         }
         c = (i_t_n) * ((uint64_t)uint32_pow(dart->alphabet_size, dart->dart_tree_height - n));
-- 
2.43.0


From a6ea644c062c9952d78cdcb31a9fbcf3dc2aa281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 36/75] fix: send short DART prefix queries to every server
 that may have a match

---
 src/commons/index/dart/dart_core.c | 44 ++++++++++++++++++------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 780b21a..82cf14f 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -331,7 +331,7 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
     int ir_idx = (int)ceil((double)(dart->alphabet_size / 2));
 
     // We also calculate the region start position.
-    uint64_t region_start = ((((int)word[0] + ir_idx) % dart->alphabet_size)) *
+    uint64_t region_start = ((((int)(unsigned char)word[0] + ir_idx) % dart->alphabet_size)) *
                             region_size; // ((reconciled_vnode_idx)/region_size) * (region_size);
     // Finally, the reconciled vnode index is calculated.
     // reconciled_vnode_idx = (0 + region_start + region_offset) % dart->num_vnode;
@@ -471,32 +471,42 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
 
     // for prefix/suffix query, we seek for proper parent region and only perform query broadcast for that
     // region. when suffix tree mode is ON: suffix query == exact query, infix query == prefix query.
-    if (strlen(token) < dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
+    // a keyword that begins with a token of the height of the tree may have a post-leaf character which the
+    // token lacks, and its alternative virtual node depends on that.
+    if (strlen(token) <= dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
 #ifdef PDC_DART_SFX_TREE
-                                                     || op_type == OP_INFIX_QUERY
+                                                      || op_type == OP_INFIX_QUERY
 #else
-                                                     || op_type == OP_SUFFIX_QUERY
+                                                      || op_type == OP_SUFFIX_QUERY
 #endif
-                                                     )) {
+                                                      )) {
 
         // TODO: currently broadcast request to all virtual nodes in one region.
         // TODO: we have to consider if we can reduce the number of nodes we need to
         // access as the prefix length grows.
-        int region_size  = dart_g->num_vnode / dart_g->alphabet_size;
-        int region_start = ((((int)token[0] % dart_g->alphabet_size) + 0) * region_size);
-
-        uint64_t server_start = get_server_id_by_vnode_id(dart_g, region_start);
-        uint64_t server_end   = get_server_id_by_vnode_id(dart_g, region_start + region_size - 1);
-
-        int num_srvs    = server_end - server_start + 1;
-        out[0]          = (uint64_t *)calloc(num_srvs, sizeof(uint64_t));
+        uint64_t region_size  = dart_g->num_vnode / dart_g->alphabet_size;
+        uint64_t base_vnode   = get_base_virtual_node_id_by_string(dart_g, token);
+        uint64_t region_start = base_vnode / region_size * region_size;
+        // a keyword of this region may be on its alternative virtual node, which lies in one of the two
+        // regions from here on (see get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2).
+        int      ir_idx    = dart_g->alphabet_size / 2;
+        uint64_t alt_start = region_start + ((int)(unsigned char)token[0] + ir_idx) %
+                                                dart_g->alphabet_size * region_size;
+
+        out[0]          = (uint64_t *)calloc(dart_g->num_server, sizeof(uint64_t));
+        char *chosen    = (char *)calloc(dart_g->num_server, sizeof(char));
         int num_srv_ids = 0;
 
-        uint64_t srvId = server_start;
-        for (; srvId <= server_end; srvId++) {
-            out[0][num_srv_ids++] = srvId;
+        for (uint64_t i = 0; i < 3 * region_size; i++) {
+            uint64_t vnode = i < region_size ? region_start + i : alt_start + (i - region_size);
+            uint64_t srvId = get_server_id_by_vnode_id(dart_g, vnode % dart_g->num_vnode);
+            if (!chosen[srvId]) {
+                chosen[srvId]         = 1;
+                out[0][num_srv_ids++] = srvId;
+            }
         }
-        return num_srvs;
+        free(chosen);
+        return num_srv_ids;
     }
     else {
         // this branch handles the following cases:
-- 
2.43.0


From addfbe5e1500837184fe2116e70ecf11975b83ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 37/75] fix: flushing overlapping cached regions takes the data
 of later ones from the right place The offset into the buffer was counted in
 bytes instead of elements.

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index b20b30b..e3279e7 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -652,7 +652,8 @@ merge_requests(uint64_t *start, uint64_t *end, int request_size, char **buf, uin
         }
         else {
             if (end[i] > new_end[0][index]) {
-                memcpy(ptr, buf[i] + new_end[0][index] - start[i], (end[i] - new_end[0][index]) * unit);
+                memcpy(ptr, buf[i] + (new_end[0][index] - start[i]) * unit,
+                       (end[i] - new_end[0][index]) * unit);
                 ptr += (end[i] - new_end[0][index]) * unit;
                 new_end[0][index] = end[i];
             }
-- 
2.43.0


From a308fbf785f15c0026d19839f461fb5e0dc5bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 38/75] fix: a write may start anywhere in a stored
 one-dimensional region The position in the stored region was compared with
 the size of the write, so writes behind it were dropped.

---
 src/server/pdc_server_region/pdc_server_data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 9b3ae5b..cb716ca 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -4789,9 +4789,9 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
             if (region_info->ndim == 1) {
                 // 1D can overwrite data in region directly
                 pos = (overlap_offset[0] - overlap_region->start[0]) * unit;
-                if (pos > write_size) {
+                if (pos > overlap_region->data_size) {
                     printf("==PDC_SERVER[%d]: Error with buf pos calculation %llu / %llu! @ line %d\n",
-                           pdc_server_rank_g, pos, write_size, __LINE__);
+                           pdc_server_rank_g, pos, overlap_region->data_size, __LINE__);
                     ret_value = -1;
                     goto done;
                 }
-- 
2.43.0


From 975b6a46a0489deedc2373f56c94547459399224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 39/75] fix: a static partition leaves out servers without a
 part of the object An object with fewer elements than servers sent them empty
 regions, and reading one crashed the server.

---
 src/api/pdc_region/pdc_region_transfer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 7cf044d..b697f8f 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -446,7 +446,8 @@ static_region_partition(char *buf, int ndim, uint64_t unit, pdc_access_t access_
         // unsigned)size[split_dim]);
         // Check if this region fits into the server static region.
         if ((static_offset + static_size > offset[split_dim] && offset[split_dim] >= static_offset) ||
-            (offset[split_dim] + size[split_dim] > static_offset && static_offset >= offset[split_dim])) {
+            (static_size > 0 && offset[split_dim] + size[split_dim] > static_offset &&
+             static_offset >= offset[split_dim])) {
             // record data server ID
             data_server_ids[0][*n_data_servers] = i;
             // The overlapping region is allocated here.
-- 
2.43.0


From c5ae54c6411b58b34b2e46a5f145388457dcc77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 40/75] fix: the checkpoint keeps the offsets and sizes of
 written regions It copied the bytes behind the pointer to them.

---
 .../pdc_server_region_transfer_metadata_query.c                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 4e41132..2bc794f 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -226,7 +226,7 @@ transfer_request_metadata_query_checkpoint(char **checkpoint, uint64_t *checkpoi
         while (region_temp) {
             memcpy(ptr, &(region_temp->data_server_id), sizeof(uint32_t));
             ptr += sizeof(uint32_t);
-            memcpy(ptr, &(region_temp->reg_offset), sizeof(uint64_t) * obj_temp->ndim * 2);
+            memcpy(ptr, region_temp->reg_offset, sizeof(uint64_t) * obj_temp->ndim * 2);
             ptr += sizeof(uint64_t) * obj_temp->ndim * 2;
             region_temp = region_temp->next;
         }
-- 
2.43.0


From d349b17c2874b6450975ef7b63c9dc0769eed7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 41/75] fix: reading the written regions back from a checkpoint
 The list elements were allocated too small and not terminated, and every
 region replaced the second one.

---
 .../pdc_server_region_transfer_metadata_query.c           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 2bc794f..d8cb328 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -78,14 +78,14 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
         ptr += sizeof(int);
         for (i = 0; i < n_objs; ++i) {
             if (metadata_server_objs) {
-                metadata_server_objs_end->next =
-                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                metadata_server_objs_end->next = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs_end->next;
             }
             else {
-                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs;
             }
+            metadata_server_objs_end->next = NULL;
 
             metadata_server_objs_end->obj_id = *(uint64_t *)ptr;
             ptr += sizeof(uint64_t);
@@ -110,7 +110,7 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
             ptr += sizeof(uint64_t) * metadata_server_objs_end->ndim * 2;
 
             for (j = 1; j < reg_count; ++j) {
-                metadata_server_objs_end->regions->next =
+                metadata_server_objs_end->regions_end->next =
                     (pdc_region_metadata_pkg *)malloc(sizeof(pdc_region_metadata_pkg));
                 metadata_server_objs_end->regions_end = metadata_server_objs_end->regions_end->next;
 
-- 
2.43.0


From efbd1dc9e89340ed3b2279f18d135cba324b1615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 42/75] fix: buffer of a region metadata query too small for
 objects without regions

---
 .../pdc_server_region_transfer_metadata_query.c             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index d8cb328..4e2dbd3 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -262,6 +262,8 @@ metadata_query_buf_create(pdc_obj_region_metadata *regions, int size, uint64_t *
     transfer_request_counter_total = 0;
     transfer_request_counters      = (int *)calloc(size, sizeof(int));
     for (i = 0; i < size; ++i) {
+        // The number of overlapping regions is sent for every region, also for those of unknown objects.
+        total_data_size += sizeof(int);
         temp = metadata_server_objs;
         // First check which obj list
         while (temp) {
@@ -283,8 +285,8 @@ metadata_query_buf_create(pdc_obj_region_metadata *regions, int size, uint64_t *
                 region_metadata = region_metadata->next;
             }
             transfer_request_counter_total += transfer_request_counters[i];
-            total_data_size += sizeof(int) + transfer_request_counters[i] *
-                                                 (sizeof(uint32_t) + sizeof(uint64_t) * regions[i].ndim * 2);
+            total_data_size += transfer_request_counters[i] *
+                               (sizeof(uint32_t) + sizeof(uint64_t) * regions[i].ndim * 2);
         }
         else {
             printf("metadata_query_buf_create: Unable to find the object with ID %lu\n",
-- 
2.43.0


From 471facd6336b90d39d810c112abe781ce41311f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 43/75] fix: reading a dynamically or locally placed region
 that was never written A request without any stored region took the count of
 the next one for a server, or kept a request without buffers, and crashed the
 client.

---
 src/api/pdc_region/pdc_region_transfer.c | 153 ++++++++++-------------
 1 file changed, 65 insertions(+), 88 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index b697f8f..d78e928 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -633,7 +633,7 @@ pack_region_metadata_query(pdc_transfer_request_start_all_pkg **transfer_request
 }
 
 static perr_t
-unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **transfer_request_input,
+unpack_region_metadata_query(char *buf, int n_objs, pdc_transfer_request_start_all_pkg **transfer_request_input,
                              pdc_transfer_request_start_all_pkg **transfer_request_head_ptr,
                              pdc_transfer_request_start_all_pkg **transfer_request_end_ptr, int *size_ptr)
 {
@@ -655,90 +655,63 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
     size                  = *(int *)ptr;
     ptr += sizeof(int);
     // printf("unpack_region_metadata_query: received %d obj partitions\n", size);
-    counter = 0;
-    index   = 0;
-    for (i = 0; i < size; ++i) {
-        if (transfer_request_head) {
-            transfer_request_end->next =
-                (pdc_transfer_request_start_all_pkg *)malloc(sizeof(pdc_transfer_request_start_all_pkg));
-            transfer_request_end = transfer_request_end->next;
-        }
-        else {
-            transfer_request_head =
-                (pdc_transfer_request_start_all_pkg *)malloc(sizeof(pdc_transfer_request_start_all_pkg));
-            transfer_request_end = transfer_request_head;
-        }
-        // Obj ID + Obj dim + region offset + region size
-        if (!counter) {
-            counter = *(int *)ptr;
-            ptr += sizeof(int);
-            local_request                = transfer_request_input[index]->transfer_request;
-            local_request->n_obj_servers = counter;
-            local_request->output_offsets =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->output_sizes =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->sub_offsets =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->obj_servers = (uint32_t *)malloc(sizeof(uint32_t) * local_request->n_obj_servers);
-            // printf("unpack_region_metadata_query: checkpoint %d, local_request = %llu, index = %d\n",
-            // __LINE__, (long long unsigned) local_request, index);
-            set_obj_server_bufs(local_request);
-        }
-        transfer_request_end->next             = NULL;
-        transfer_request_end->transfer_request = local_request;
-        transfer_request_end->data_server_id   = *(uint32_t *)ptr;
-        // printf("unpack_region_metadata_query: @ line %d, i = %d, counter = %d, data_server_id = %u\n",
-        // __LINE__, i, counter, transfer_request_end->data_server_id);
+    for (index = 0; index < n_objs; ++index) {
+        // A request may overlap with no region at all, for example when it reads what was never written.
+        counter = *(int *)ptr;
+        ptr += sizeof(int);
+        local_request                 = transfer_request_input[index]->transfer_request;
+        local_request->n_obj_servers  = counter;
+        local_request->output_offsets = (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
+        local_request->output_sizes   = (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
+        local_request->sub_offsets    = (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
+        local_request->obj_servers    = (uint32_t *)malloc(sizeof(uint32_t) * local_request->n_obj_servers);
+        set_obj_server_bufs(local_request);
 
-        ptr += sizeof(uint32_t);
-        transfer_request_end->remote_offset =
-            (uint64_t *)malloc(sizeof(uint64_t) * local_request->remote_region_ndim * 3);
-        transfer_request_end->remote_size =
-            transfer_request_end->remote_offset + local_request->remote_region_ndim;
-        sub_offset = transfer_request_end->remote_offset + local_request->remote_region_ndim * 2;
-        memcpy(transfer_request_end->remote_offset, ptr,
-               sizeof(uint64_t) * local_request->remote_region_ndim * 2);
-        ptr += sizeof(uint64_t) * local_request->remote_region_ndim * 2;
-
-        transfer_request_end->index = local_request->n_obj_servers - counter;
-        local_request->output_offsets[local_request->n_obj_servers - counter] =
-            transfer_request_end->remote_offset;
-        local_request->output_sizes[local_request->n_obj_servers - counter] =
-            transfer_request_end->remote_size;
-        local_request->sub_offsets[local_request->n_obj_servers - counter] = sub_offset;
-        local_request->obj_servers[local_request->n_obj_servers - counter] =
-            transfer_request_end->data_server_id;
-        region_size = local_request->unit;
-        for (j = 0; j < local_request->remote_region_ndim; ++j) {
-            region_size *= transfer_request_end->remote_size[j];
-            sub_offset[j] = transfer_request_end->remote_offset[j] - local_request->remote_region_offset[j];
-        }
-        /*
-                printf("unpack_region_metadata_query: @ line %d remote_region_offset = %lu, %lu,
-           remote_region_size "
-                       "= %lu, %lu, suboffset = %lu, %lu, remote_offset = %lu,%lu, remote_size = %lu,%lu\n",
-                       __LINE__, (long unsigned)local_request->remote_region_offset[0],
-                       (long unsigned)local_request->remote_region_offset[1],
-                       (long unsigned)local_request->remote_region_size[0],
-                       (long unsigned)local_request->remote_region_size[1], (long unsigned)sub_offset[0],
-                       (long unsigned)sub_offset[1], (long unsigned)transfer_request_end->remote_offset[0],
-                       (long unsigned)transfer_request_end->remote_offset[1],
-                       (long unsigned)transfer_request_end->remote_size[0],
-                       (long unsigned)transfer_request_end->remote_size[1]);
-        */
-        if (local_request->access_type == PDC_WRITE) {
-            transfer_request_end->buf = (char *)malloc(region_size);
-            memcpy_subregion(local_request->remote_region_ndim, local_request->unit,
-                             local_request->access_type, transfer_request_input[index]->buf,
-                             local_request->remote_region_size, transfer_request_end->buf, sub_offset,
-                             transfer_request_end->remote_size);
-        }
-        counter--;
-        if (!counter) {
-            index++;
+        // Obj ID + Obj dim + region offset + region size
+        for (i = 0; i < counter; ++i) {
+            if (transfer_request_head) {
+                transfer_request_end->next =
+                    (pdc_transfer_request_start_all_pkg *)malloc(sizeof(pdc_transfer_request_start_all_pkg));
+                transfer_request_end = transfer_request_end->next;
+            }
+            else {
+                transfer_request_head =
+                    (pdc_transfer_request_start_all_pkg *)malloc(sizeof(pdc_transfer_request_start_all_pkg));
+                transfer_request_end = transfer_request_head;
+            }
+            transfer_request_end->next             = NULL;
+            transfer_request_end->transfer_request = local_request;
+            transfer_request_end->data_server_id   = *(uint32_t *)ptr;
+
+            ptr += sizeof(uint32_t);
+            transfer_request_end->remote_offset =
+                (uint64_t *)malloc(sizeof(uint64_t) * local_request->remote_region_ndim * 3);
+            transfer_request_end->remote_size =
+                transfer_request_end->remote_offset + local_request->remote_region_ndim;
+            sub_offset = transfer_request_end->remote_offset + local_request->remote_region_ndim * 2;
+            memcpy(transfer_request_end->remote_offset, ptr,
+                   sizeof(uint64_t) * local_request->remote_region_ndim * 2);
+            ptr += sizeof(uint64_t) * local_request->remote_region_ndim * 2;
+
+            transfer_request_end->index      = i;
+            local_request->output_offsets[i] = transfer_request_end->remote_offset;
+            local_request->output_sizes[i]   = transfer_request_end->remote_size;
+            local_request->sub_offsets[i]    = sub_offset;
+            local_request->obj_servers[i]    = transfer_request_end->data_server_id;
+            region_size                      = local_request->unit;
+            for (j = 0; j < local_request->remote_region_ndim; ++j) {
+                region_size *= transfer_request_end->remote_size[j];
+                sub_offset[j] =
+                    transfer_request_end->remote_offset[j] - local_request->remote_region_offset[j];
+            }
+            if (local_request->access_type == PDC_WRITE) {
+                transfer_request_end->buf = (char *)malloc(region_size);
+                memcpy_subregion(local_request->remote_region_ndim, local_request->unit,
+                                 local_request->access_type, transfer_request_input[index]->buf,
+                                 local_request->remote_region_size, transfer_request_end->buf, sub_offset,
+                                 transfer_request_end->remote_size);
+            }
         }
-        // printf("unpack_region_metadata_query: @ line %d\n", __LINE__);
     }
 
     *transfer_request_head_ptr = transfer_request_head;
@@ -809,7 +782,7 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                     output_buf, output_buf_size, query_id,
                     transfer_requests[index]->transfer_request->metadata_server_id);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-                unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
+                unpack_region_metadata_query(output_buf, n_objs, transfer_requests + index, &transfer_request_head,
                                              &transfer_request_end, &output_size);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
                 free(output_buf);
@@ -819,7 +792,9 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                 else {
                     transfer_request_front_head = transfer_request_head;
                 }
-                previous = transfer_request_end;
+                if (transfer_request_head) {
+                    previous = transfer_request_end;
+                }
             }
             index = i;
         }
@@ -848,7 +823,7 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                 output_buf, output_buf_size, query_id,
                 transfer_requests[index]->transfer_request->metadata_server_id);
             // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-            unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
+            unpack_region_metadata_query(output_buf, n_objs, transfer_requests + index, &transfer_request_head,
                                          &transfer_request_end, &output_size);
             // fprintf(stderr, "register_metadata: output_size = %d, checkpoint %d\n", output_size, __LINE__);
             free(output_buf);
@@ -858,11 +833,13 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
             else {
                 transfer_request_front_head = transfer_request_head;
             }
-            previous = transfer_request_end;
+            if (transfer_request_head) {
+                previous = transfer_request_end;
+            }
         }
     }
 
-    if (output_size) {
+    if (size) {
         transfer_request_output = (pdc_transfer_request_start_all_pkg **)malloc(
             sizeof(pdc_transfer_request_start_all_pkg *) * (output_size + remain_size));
         transfer_request_head = transfer_request_front_head;
-- 
2.43.0


From 37cae8e8eb5df2208de175be5d0640d75ae14d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 44/75] fix: the list of transfers of an object after its last
 one finished Its end kept pointing to the freed element, and the next
 transfer was linked there.

---
 src/api/pdc_region/pdc_region_transfer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index d78e928..67a44d2 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -366,6 +366,9 @@ remove_local_transfer_request(struct _pdc_obj_info *p, pdcid_t transfer_request_
             else {
                 // Not the first element, just take the current element away.
                 previous->next = temp->next;
+                if (p->local_transfer_request_end == temp) {
+                    p->local_transfer_request_end = previous;
+                }
                 free(temp);
             }
             p->local_transfer_request_size--;
-- 
2.43.0


From a9cf2e33523929d87a3989ad2f5105e588cfc4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 45/75] fix: closing an object with unfinished transfers freed
 its list of them twice

---
 src/api/pdc_obj/pdc_obj.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 385aab6..a7513ce 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -392,24 +392,24 @@ PDC_obj_close(struct _pdc_obj_info *op)
 {
     perr_t                      ret_value = SUCCEED;
     pdcid_t *                   transfer_request_id;
-    pdc_local_transfer_request *temp, *previous;
-    int                         i;
+    pdc_local_transfer_request *temp;
+    int                         i, n_requests;
 
     FUNC_ENTER(NULL);
 
     if (op->local_transfer_request_size) {
-        transfer_request_id = (pdcid_t *)malloc(sizeof(pdcid_t) * op->local_transfer_request_size);
+        // Waiting for a request takes it out of the list.
+        n_requests          = op->local_transfer_request_size;
+        transfer_request_id = (pdcid_t *)malloc(sizeof(pdcid_t) * n_requests);
         temp                = op->local_transfer_request_head;
         i                   = 0;
         while (temp != NULL) {
             transfer_request_id[i] = temp->local_id;
-            previous               = temp;
             temp                   = temp->next;
-            free(previous);
             ++i;
         }
-        PDCregion_transfer_wait_all(transfer_request_id, op->local_transfer_request_size);
-        for (i = 0; i < op->local_transfer_request_size; ++i) {
+        PDCregion_transfer_wait_all(transfer_request_id, n_requests);
+        for (i = 0; i < n_requests; ++i) {
             PDCregion_transfer_close(transfer_request_id[i]);
         }
         free(transfer_request_id);
-- 
2.43.0


From 84375a4f2dc20803615da2469d2b4f87b3827a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 46/75] fix: waiting for a batch of transfers of which some
 were seen to be complete The server never answered when a status check had
 taken all of them out of its list.

---
 .../pdc_server_region/pdc_server_region_request_handler.h      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_request_handler.h b/src/server/pdc_server_region/pdc_server_region_request_handler.h
index 04ab484..db283df 100644
--- a/src/server/pdc_server_region/pdc_server_region_request_handler.h
+++ b/src/server/pdc_server_region/pdc_server_region_request_handler.h
@@ -274,10 +274,9 @@ transfer_request_wait_all_bulk_transfer_cb(const struct hg_cb_info *info)
         status = PDC_check_request(transfer_request_id);
         // printf("processing transfer_id = %llu, pdc_server_rank = %d\n", (long long
         // unsigned)transfer_request_id, get_server_rank());
+        // Requests that are not found have been completed and taken out of the list by a status check.
         if (status == PDC_TRANSFER_STATUS_PENDING) {
             PDC_try_finish_request(transfer_request_id, local_bulk_args->handle, handle_ref, 1);
-        }
-        if (status != PDC_TRANSFER_STATUS_COMPLETE) {
             fast_return = 0;
         }
     }
-- 
2.43.0


From 7090e3c46b6d4f8d3ae760edb141823f2a368a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 47/75] fix: the status of a transfer spread over several
 servers When one server had finished before another, later checks returned
 not found for ever, and a transfer without any server returned no status.

---
 src/api/pdc_region/pdc_region_transfer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 67a44d2..1d56525 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1589,11 +1589,13 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
                 ret_value = PDC_Client_transfer_request_status(transfer_request->metadata_id[i],
                                                                transfer_request->obj_servers[i], completed);
-                if (*completed != PDC_TRANSFER_STATUS_COMPLETE) {
+                // A server forgets a finished request once it has told us, so not found means complete.
+                if (*completed == PDC_TRANSFER_STATUS_PENDING) {
                     goto done;
                 }
             }
             // If we reach here, then all transfers are finished.
+            *completed = PDC_TRANSFER_STATUS_COMPLETE;
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
                 // printf("finished waiting for data from server %d, output_offsets = %lu, output_size = %lu,
                 // metadata_id = %lu\n", transfer_request->obj_servers[i],
-- 
2.43.0


From 8123e49928b10e514f71768d35c4cf6fb1ea761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 48/75] fix: closing a transfer waits for it if it is under
 way, and always frees it It freed a request that its object still listed and
 whose data was still on the way, and never freed one that was complete.

---
 src/api/pdc_region/pdc_region_transfer.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 1d56525..a2881f7 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -287,20 +287,12 @@ PDCregion_transfer_close(pdcid_t transfer_request_id)
         goto done;
     }
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
-    if (transfer_request->metadata_id == NULL) {
-        goto done;
+    // A request that was started and not waited for is completed first.
+    if (transfer_request->metadata_id != NULL) {
+        PDCregion_transfer_wait(transfer_request_id);
     }
 
-    // Check for consistency
-    /*
-        pdc_consistency_t consistency = transfer_request->consistency;
-        if (consistency == PDC_CONSISTENCY_POSIX || consistency == PDC_CONSISTENCY_COMMIT ||
-            consistency == PDC_CONSISTENCY_SESSION) {
-            PDCregion_transfer_wait(transfer_request_id);
-        }
-    */
     free(transfer_request->local_region_offset);
-    free(transfer_request->metadata_id);
     free(transfer_request);
 
     /* When the reference count reaches zero the resources are freed */
-- 
2.43.0


From e98dbd5199597d20275f5e12262b080c137d43ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 49/75] fix: a transfer may be started again once it is
 complete The buffers of its first run were used and freed a second time.

---
 src/api/pdc_region/pdc_region_transfer.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index a2881f7..1ab8777 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -563,6 +563,19 @@ pack_region_buffer(char *buf, uint64_t *obj_dims, size_t total_data_size, int lo
     FUNC_LEAVE(ret_value);
 }
 
+/*
+ * What an earlier start of the same request used was freed when it was complete.
+ */
+static void
+reset_obj_server_bufs(pdc_transfer_request *transfer_request)
+{
+    transfer_request->new_buf       = NULL;
+    transfer_request->bulk_buf      = NULL;
+    transfer_request->bulk_buf_ref  = NULL;
+    transfer_request->read_bulk_buf = NULL;
+    transfer_request->output_buf    = NULL;
+}
+
 static perr_t
 set_obj_server_bufs(pdc_transfer_request *transfer_request)
 {
@@ -914,6 +927,7 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
             posix_size_ptr[0]++;
         }
 
+        reset_obj_server_bufs(transfer_request);
         attach_local_transfer_request(transfer_request->obj_pointer, transfer_request_id[i]);
         unit = transfer_request->unit;
         pack_region_buffer(transfer_request->buf, transfer_request->obj_dims,
@@ -1420,6 +1434,7 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
         goto done;
     }
 
+    reset_obj_server_bufs(transfer_request);
     attach_local_transfer_request(transfer_request->obj_pointer, transfer_request_id);
 
     // Pack local region to a contiguous memory buffer
-- 
2.43.0


From 00abdc309aca614eed6f95df6fe47ecf69d2b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:15 +0000
Subject: [PATCH 50/75] fix: a checkpoint only replaces the previous one when
 it is complete

It was written over the previous one, so that a crash or a full file system
while it was written left no usable checkpoint.
---
 src/server/pdc_server.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index daa0151..caf69c6 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1225,12 +1225,14 @@ PDC_Server_checkpoint()
     int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0, n_kvtag, key_len;
     uint32_t          hash_key;
     HashTablePair     pair;
-    char              checkpoint_file[ADDR_MAX], checkpoint_file_local[ADDR_MAX], cmd[4096];
+    char              checkpoint_file[ADDR_MAX], checkpoint_file_tmp[ADDR_MAX], checkpoint_file_local[ADDR_MAX],
+        cmd[4096];
     HashTableIterator hash_table_iter;
     char *            checkpoint;
     char *            env_char;
     uint64_t          checkpoint_size;
     bool              use_tmpfs = false;
+    int               write_err;
     FILE *            file;
 
     FUNC_ENTER(NULL);
@@ -1257,6 +1259,9 @@ PDC_Server_checkpoint()
 #endif
     snprintf(checkpoint_file, ADDR_MAX, "%s/%d/metadata_checkpoint.%d", pdc_server_tmp_dir_g,
              pdc_server_rank_g, pdc_server_rank_g);
+    // Written under another name first, so that the previous checkpoint is there until this one is complete
+    snprintf(checkpoint_file_tmp, ADDR_MAX, "%s/%d/checkpoint_tmp.%d", pdc_server_tmp_dir_g,
+             pdc_server_rank_g, pdc_server_rank_g);
     snprintf(checkpoint_file_local, ADDR_MAX, "/tmp/metadata_checkpoint.%d", pdc_server_rank_g);
     if (pdc_server_rank_g == 0) {
         printf("==PDC_SERVER[%4d]: Checkpoint file [%s]\n", pdc_server_rank_g, checkpoint_file);
@@ -1266,7 +1271,7 @@ PDC_Server_checkpoint()
     if (use_tmpfs)
         file = fopen(checkpoint_file_local, "w+");
     else
-        file = fopen(checkpoint_file, "w+");
+        file = fopen(checkpoint_file_tmp, "w+");
 
     if (file == NULL) {
         printf("==PDC_SERVER[%d]: %s - Checkpoint file open error", pdc_server_rank_g, __func__);
@@ -1409,17 +1414,29 @@ PDC_Server_checkpoint()
     // New ids must not repeat the ones handed out before a restart
     fwrite(&pdc_id_seq_g, sizeof(uint64_t), 1, file);
 
-    fclose(file);
+    // The previous checkpoint is only replaced by one that is complete
+    write_err = ferror(file);
+    if (fclose(file) != 0 || write_err) {
+        printf("==PDC_SERVER[%d]: %s - Checkpoint file write error\n", pdc_server_rank_g, __func__);
+        remove(use_tmpfs ? checkpoint_file_local : checkpoint_file_tmp);
+        ret_value = FAIL;
+    }
 
-    if (use_tmpfs) {
+    if (use_tmpfs && ret_value == SUCCEED) {
 #ifdef PDC_TIMING
         gettimeofday(&pdc_timer_end_rank, 0);
         checkpoint_time = PDC_get_elapsed_time_double(&pdc_timer_start, &pdc_timer_end_rank);
         printf("==PDC_SERVER[%4d]: write to tmpfs took %7.2fs\n", pdc_server_rank_g, checkpoint_time);
 #endif
         // Copy from /tmp to target under $PDC_TMPDIR
-        snprintf(cmd, 4096, "mv %s %s", checkpoint_file_local, checkpoint_file);
-        system(cmd);
+        snprintf(cmd, 4096, "mv %s %s", checkpoint_file_local, checkpoint_file_tmp);
+        if (system(cmd) != 0)
+            ret_value = FAIL;
+    }
+
+    if (ret_value == SUCCEED && rename(checkpoint_file_tmp, checkpoint_file) != 0) {
+        printf("==PDC_SERVER[%d]: %s - Checkpoint file rename error\n", pdc_server_rank_g, __func__);
+        ret_value = FAIL;
     }
 
 #ifdef PDC_TIMING
-- 
2.43.0


From 4c70c45d3d3eab717d53101e71391e3ba4307f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 51/75] fix: the filters start empty and keep their counters
 when they grow

---
 src/server/dablooms/pdc_dablooms.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/server/dablooms/pdc_dablooms.c b/src/server/dablooms/pdc_dablooms.c
index 2be56c8..db4f868 100644
--- a/src/server/dablooms/pdc_dablooms.c
+++ b/src/server/dablooms/pdc_dablooms.c
@@ -32,13 +32,26 @@ dablooms_version(void)
 void
 free_bitmap(bitmap_t *bitmap)
 {
-    free(bitmap);
+    if (bitmap != NULL) {
+        free(bitmap->array);
+        free(bitmap);
+    }
 }
 
 bitmap_t *
 bitmap_resize(bitmap_t *bitmap, size_t new_size)
 {
-    bitmap->array = PDC_malloc(new_size);
+    size_t old_size = bitmap->array == NULL ? 0 : bitmap->bytes;
+    char * array    = (char *)realloc(bitmap->array, new_size);
+
+    if (array == NULL) {
+        return NULL;
+    }
+    /* what was there stays, and the counters that are added start at zero */
+    if (new_size > old_size) {
+        memset(array + old_size, 0, new_size - old_size);
+    }
+    bitmap->array = array;
     bitmap->bytes = new_size;
     return bitmap;
 }
@@ -170,7 +183,7 @@ free_counting_bloom(counting_bloom_t *bloom)
     if (bloom != NULL) {
         free(bloom->hashes);
         bloom->hashes = NULL;
-        free(bloom->bitmap);
+        free_bitmap(bloom->bitmap);
         free(bloom);
         bloom = NULL;
     }
-- 
2.43.0


From f667ecd9952707ad7d6d72bc70d9f58b72cfdade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 52/75] fix: a value in a list of tags is in no range when the
 tag is absent

---
 src/commons/utils/query_utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commons/utils/query_utils.c b/src/commons/utils/query_utils.c
index c0ea640..f52425c 100644
--- a/src/commons/utils/query_utils.c
+++ b/src/commons/utils/query_utils.c
@@ -340,6 +340,9 @@ int
 is_value_in_range(const char *tagslist, const char *tagname, int from, int to)
 {
     const char *matched_kv = k_v_matches_p(tagslist, tagname, NULL);
+    if (matched_kv == NULL) {
+        return 0;
+    }
     char *      value      = get_value(matched_kv, '=');
     int         v          = atoi(value);
     return (v >= from && v <= to);
-- 
2.43.0


From 3b8530b5677a69af8158d45800a3ef4165a5c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 53/75] fix: a substring that starts past the end of the string
 is empty

---
 src/commons/utils/string_utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index 27898d8..3647943 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -117,7 +117,10 @@ substring(const char *str, int start, int end)
     // Length of the original string
     int str_len = strlen(str);
 
-    // Adjust end if it is beyond the length of the string
+    // Adjust start and end if they are beyond the length of the string
+    if (start > str_len) {
+        start = str_len;
+    }
     if (end > str_len) {
         end = str_len;
     }
-- 
2.43.0


From 8f2576d2437eafd03579013ac89672ed12bdbfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 54/75] fix: thread pools do not share their state

---
 src/commons/utils/thpool.c | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 2e3fec4..ca59f88 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -41,9 +41,6 @@
 #define err(str)
 #endif
 
-static volatile int threads_keepalive;
-static volatile int threads_on_hold;
-
 /* ========================== STRUCTURES ============================ */
 
 /* Binary semaphore */
@@ -81,11 +78,16 @@ typedef struct thpool_ {
     thread **       threads;             /* pointer to threads        */
     volatile int    num_threads_alive;   /* threads currently alive   */
     volatile int    num_threads_working; /* threads currently working */
+    volatile int    keepalive;           /* cleared to end the threads */
+    volatile int    on_hold;             /* set while paused          */
     pthread_mutex_t thcount_lock;        /* used for thread count etc */
     pthread_cond_t  threads_all_idle;    /* signal to thpool_wait     */
     jobqueue        jobqueue;            /* job queue                 */
 } thpool_;
 
+/* The pool the calling thread belongs to */
+static __thread thpool_ *thread_pool;
+
 /* ========================== PROTOTYPES ============================ */
 
 static int   thread_init(thpool_ *thpool_p, struct thread **thread_p, int id);
@@ -112,9 +114,6 @@ struct thpool_ *
 thpool_init(int num_threads)
 {
 
-    threads_on_hold   = 0;
-    threads_keepalive = 1;
-
     if (num_threads < 0) {
         num_threads = 0;
     }
@@ -128,6 +127,8 @@ thpool_init(int num_threads)
     }
     thpool_p->num_threads_alive   = 0;
     thpool_p->num_threads_working = 0;
+    thpool_p->keepalive           = 1;
+    thpool_p->on_hold             = 0;
 
     /* Initialise the job queue */
     if (jobqueue_init(&thpool_p->jobqueue) == -1) {
@@ -208,7 +209,7 @@ thpool_destroy(thpool_ *thpool_p)
     volatile int threads_total = thpool_p->num_threads_alive;
 
     /* End each thread 's infinite loop */
-    threads_keepalive = 0;
+    thpool_p->keepalive = 0;
 
     /* Give one second to kill idle threads */
     double TIMEOUT = 1.0;
@@ -243,6 +244,7 @@ void
 thpool_pause(thpool_ *thpool_p)
 {
     int n;
+    thpool_p->on_hold = 1;
     for (n = 0; n < thpool_p->num_threads_alive; n++) {
         pthread_kill(thpool_p->threads[n]->pthread, SIGUSR1);
     }
@@ -252,12 +254,7 @@ thpool_pause(thpool_ *thpool_p)
 void
 thpool_resume(thpool_ *thpool_p)
 {
-    // resuming a single threadpool hasn't been
-    // implemented yet, meanwhile this supresses
-    // the warnings
-    (void)thpool_p;
-
-    threads_on_hold = 0;
+    thpool_p->on_hold = 0;
 }
 
 int
@@ -297,8 +294,7 @@ static void
 thread_hold(int sig_id)
 {
     (void)sig_id;
-    threads_on_hold = 1;
-    while (threads_on_hold) {
+    while (thread_pool->on_hold && thread_pool->keepalive) {
         sleep(1);
     }
 }
@@ -330,6 +326,7 @@ thread_do(struct thread *thread_p)
 
     /* Assure all threads have been created before starting serving */
     thpool_ *thpool_p = thread_p->thpool_p;
+    thread_pool       = thpool_p;
 
     /* Register signal handler */
     struct sigaction act;
@@ -345,11 +342,11 @@ thread_do(struct thread *thread_p)
     thpool_p->num_threads_alive += 1;
     pthread_mutex_unlock(&thpool_p->thcount_lock);
 
-    while (threads_keepalive) {
+    while (thpool_p->keepalive) {
 
         bsem_wait(thpool_p->jobqueue.has_jobs);
 
-        if (threads_keepalive) {
+        if (thpool_p->keepalive) {
 
             pthread_mutex_lock(&thpool_p->thcount_lock);
             thpool_p->num_threads_working++;
-- 
2.43.0


From 07afd4d5a995e5070105afa7ad5d86071d5297a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:35 +0000
Subject: [PATCH 55/75] fix: a thread is not paused while it holds a lock of
 its pool

---
 src/commons/utils/thpool.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index ca59f88..7f55dec 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -328,6 +328,12 @@ thread_do(struct thread *thread_p)
     thpool_ *thpool_p = thread_p->thpool_p;
     thread_pool       = thpool_p;
 
+    sigset_t hold_set;
+    /* Only a job is held wherever it is, as what is outside of it may hold the locks of the pool */
+    sigemptyset(&hold_set);
+    sigaddset(&hold_set, SIGUSR1);
+    pthread_sigmask(SIG_BLOCK, &hold_set, NULL);
+
     /* Register signal handler */
     struct sigaction act;
     sigemptyset(&act.sa_mask);
@@ -345,6 +351,7 @@ thread_do(struct thread *thread_p)
     while (thpool_p->keepalive) {
 
         bsem_wait(thpool_p->jobqueue.has_jobs);
+        thread_hold(SIGUSR1);
 
         if (thpool_p->keepalive) {
 
@@ -359,7 +366,9 @@ thread_do(struct thread *thread_p)
             if (job_p) {
                 func_buff = job_p->function;
                 arg_buff  = job_p->arg;
+                pthread_sigmask(SIG_UNBLOCK, &hold_set, NULL);
                 func_buff(arg_buff);
+                pthread_sigmask(SIG_BLOCK, &hold_set, NULL);
                 free(job_p);
             }
 
-- 
2.43.0


From 837979e56d335bcd2c9c0d64f60103a76f3d621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:43 +0000
Subject: [PATCH 56/75] fix: a thread pool is freed when its last thread has
 left it

---
 src/commons/utils/thpool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 7f55dec..3860aad 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -228,6 +228,10 @@ thpool_destroy(thpool_ *thpool_p)
         sleep(1);
     }
 
+    /* The last thread may not have left the lock yet */
+    pthread_mutex_lock(&thpool_p->thcount_lock);
+    pthread_mutex_unlock(&thpool_p->thcount_lock);
+
     /* Job queue cleanup */
     jobqueue_destroy(&thpool_p->jobqueue);
     /* Deallocs */
-- 
2.43.0


From 77bb6b70cba81639a73c93ad138963487cc6601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 57/75] fix: all who wait for a thread pool are woken

---
 src/commons/utils/thpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 3860aad..685bc5c 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -379,7 +379,7 @@ thread_do(struct thread *thread_p)
             pthread_mutex_lock(&thpool_p->thcount_lock);
             thpool_p->num_threads_working--;
             if (!thpool_p->num_threads_working) {
-                pthread_cond_signal(&thpool_p->threads_all_idle);
+                pthread_cond_broadcast(&thpool_p->threads_all_idle);
             }
             pthread_mutex_unlock(&thpool_p->thcount_lock);
         }
-- 
2.43.0


From 913f64bbb8075ff1b2fb87ac1d8d04b366afaf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 58/75] fix: a thread is not paused while it adds a job

---
 src/commons/utils/thpool.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 685bc5c..5618fc1 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -169,7 +169,8 @@ thpool_init(int num_threads)
 int
 thpool_add_work(thpool_ *thpool_p, void (*function_p)(void *), void *arg_p)
 {
-    job *newjob;
+    job *    newjob;
+    sigset_t hold_set, old_set;
 
     newjob = (struct job *)malloc(sizeof(struct job));
     if (newjob == NULL) {
@@ -181,8 +182,12 @@ thpool_add_work(thpool_ *thpool_p, void (*function_p)(void *), void *arg_p)
     newjob->function = function_p;
     newjob->arg      = arg_p;
 
-    /* add job to queue */
+    /* add job to queue; a job that does so is not held meanwhile */
+    sigemptyset(&hold_set);
+    sigaddset(&hold_set, SIGUSR1);
+    pthread_sigmask(SIG_BLOCK, &hold_set, &old_set);
     jobqueue_push(&thpool_p->jobqueue, newjob);
+    pthread_sigmask(SIG_SETMASK, &old_set, NULL);
 
     return 0;
 }
-- 
2.43.0


From 60f10a2611cdf7d4ace92945b89c1ee0113dcbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:03 +0000
Subject: [PATCH 59/75] fix: binary files are opened with modes that exist

---
 src/commons/file/common_io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commons/file/common_io.c b/src/commons/file/common_io.c
index ae7af7f..c52a0e2 100644
--- a/src/commons/file/common_io.c
+++ b/src/commons/file/common_io.c
@@ -141,7 +141,7 @@ write_text_file(char *filename, char **lines, size_t num_lines)
 int
 read_binary_file(char *filename, void *buffer, size_t size)
 {
-    FILE *fp = open_file(filename, IO_MODE_BINARY IO_MODE_READ);
+    FILE *fp = open_file(filename, IO_MODE_READ IO_MODE_BINARY);
     if (fread(buffer, 1, size, fp) != size) {
         fprintf(stderr, "Error reading file\n");
         close_file(fp);
@@ -154,7 +154,7 @@ read_binary_file(char *filename, void *buffer, size_t size)
 int
 write_binary_file(char *filename, void *buffer, size_t size)
 {
-    FILE *fp = open_file(filename, IO_MODE_BINARY IO_MODE_WRITE);
+    FILE *fp = open_file(filename, IO_MODE_WRITE IO_MODE_BINARY);
     if (fwrite(buffer, 1, size, fp) != size) {
         fprintf(stderr, "Error writing file\n");
         close_file(fp);
@@ -167,7 +167,7 @@ write_binary_file(char *filename, void *buffer, size_t size)
 int
 update_binary_file(char *filename, void *buffer, size_t size, unsigned long start_pos, size_t length)
 {
-    FILE *fp = open_file(filename, IO_MODE_BINARY IO_MODE_READ IO_MODE_WRITE);
+    FILE *fp = open_file(filename, IO_MODE_READ "+" IO_MODE_BINARY);
     if (fseek(fp, start_pos, SEEK_SET) != 0) {
         fprintf(stderr, "Error seeking to starting position\n");
         close_file(fp);
-- 
2.43.0


From 99bc99237fd113fbe2313faf6207b6c240c0cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:24 +0000
Subject: [PATCH 60/75] fix: writing a file fails when closing it does

---
 src/commons/file/common_io.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/commons/file/common_io.c b/src/commons/file/common_io.c
index c52a0e2..07e7318 100644
--- a/src/commons/file/common_io.c
+++ b/src/commons/file/common_io.c
@@ -134,8 +134,7 @@ write_text_file(char *filename, char **lines, size_t num_lines)
             return 1;
         }
     }
-    close_file(fp);
-    return 0;
+    return close_file(fp);
 }
 
 int
@@ -160,8 +159,7 @@ write_binary_file(char *filename, void *buffer, size_t size)
         close_file(fp);
         return 1;
     }
-    close_file(fp);
-    return 0;
+    return close_file(fp);
 }
 
 int
@@ -183,6 +181,5 @@ update_binary_file(char *filename, void *buffer, size_t size, unsigned long star
         close_file(fp);
         return 1;
     }
-    close_file(fp);
-    return 0;
+    return close_file(fp);
 }
\ No newline at end of file
-- 
2.43.0


From 61666dd47795070dc3f281ef2480356ff47e6ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 61/75] fix: a star alone in an index search matches everything

The client (for a name) and the server (for a value) took the text between
the two stars of "*" and died on the NULL they got; an empty token was only
sent to the servers of one region.
---
 src/api/pdc_client_connect.c           | 3 ++-
 src/commons/index/dart/dart_core.c     | 4 +++-
 src/server/pdc_server_metadata_index.c | 6 ++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 64d7f6c..a5098b5 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -8735,7 +8735,8 @@ PDC_Client_search_obj_ref_through_dart(dart_hash_algo_t hash_algo, char *query_s
         case PATTERN_MIDDLE:
             // tok = (char *)calloc(strlen(k_query)-2, sizeof(char));
             // strncpy(tok, &k_query[1], strlen(k_query)-2);
-            affix   = substring(k_query, 1, strlen(k_query) - 1);
+            // a single "*" has no token between two stars, and matches every key
+            affix   = strlen(k_query) == 1 ? substr(k_query, 1) : substring(k_query, 1, strlen(k_query) - 1);
             tok     = strdup(affix);
             dart_op = OP_INFIX_QUERY;
             break;
diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 82cf14f..66cdaeb 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -497,7 +497,9 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
         char *chosen    = (char *)calloc(dart_g->num_server, sizeof(char));
         int num_srv_ids = 0;
 
-        for (uint64_t i = 0; i < 3 * region_size; i++) {
+        // an empty token is in every keyword, of whichever region
+        uint64_t num_searched = token[0] == '\0' ? dart_g->num_vnode : 3 * region_size;
+        for (uint64_t i = 0; i < num_searched; i++) {
             uint64_t vnode = i < region_size ? region_start + i : alt_start + (i - region_size);
             uint64_t srvId = get_server_id_by_vnode_id(dart_g, vnode % dart_g->num_vnode);
             if (!chosen[srvId]) {
diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 1e91c42..6a38f6e 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -555,7 +555,9 @@ level_one_art_callback(void *data, const unsigned char *key, uint32_t key_len, v
                 }
                 break;
             case PATTERN_MIDDLE:
-                tok            = substring(secondary_query, 1, strlen(secondary_query) - 1);
+                // a single "*" has no token between two stars, and matches every value
+                tok = strlen(secondary_query) == 1 ? substr(secondary_query, 1)
+                                                   : substring(secondary_query, 1, strlen(secondary_query) - 1);
                 secondary_trie = (art_tree *)leafcnt->extra_prefix_index;
                 if (secondary_trie != NULL) {
 #ifndef PDC_DART_SFX_TREE
@@ -651,7 +653,7 @@ metadata_index_search(char *query, int index_type, uint64_t *n_obj_ids_ptr, uint
                 break;
             case PATTERN_MIDDLE:
                 qType_string = "Infix";
-                tok          = substring(k_query, 1, strlen(k_query) - 1);
+                tok = strlen(k_query) == 1 ? substr(k_query, 1) : substring(k_query, 1, strlen(k_query) - 1);
 #ifndef PDC_DART_SFX_TREE
                 param->level_one_infix = tok;
                 art_iter(art_key_prefix_tree_g, level_one_art_callback, param);
-- 
2.43.0


From ab0a752469705940d92bbdbc8a1b5eda3c3573b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 62/75] fix: each set of object ids in the index has an id of
 its own

One allocated id was put into the sets of all suffixes, each of which frees
it when the id is removed.
---
 src/server/pdc_server_metadata_index.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 6a38f6e..6ed7248 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -225,11 +225,16 @@ create_prefix_index_for_attr_value(void **index, unsigned char *attr_value, void
         art_insert(art_value_prefix_tree, attr_value, len, (void *)obj_id_set);
     }
 
-    int indexed = set_insert(obj_id_set, data);
-
-    if (indexed == -1) {
+    // every set frees the values in it, so each gets one of its own
+    uint64_t *obj_id = (uint64_t *)malloc(sizeof(uint64_t));
+    if (obj_id == NULL) {
         return FAIL;
     }
+    *obj_id = *(uint64_t *)data;
+
+    if (set_insert(obj_id_set, obj_id) == 0) {
+        free(obj_id);
+    }
 
     return ret;
 }
@@ -313,6 +318,7 @@ metadata_index_create(char *attr_key, char *attr_value, uint64_t obj_locator, in
     // }
     // else if (index_type == DART_HASH) {
     create_index_for_attr_name(attr_key, attr_value, (void *)data);
+    free(data);
     // }
     timer_pause(&timer);
     // if (DART_SERVER_DEBUG) {
@@ -427,6 +433,7 @@ metadata_index_delete(char *attr_key, char *attr_value, uint64_t obj_locator, in
     // }
     // else if (index_type == DART_HASH) {
     delete_index_for_attr_name(attr_key, attr_value, (void *)data);
+    free(data);
     // }
 
     timer_pause(&timer);
-- 
2.43.0


From 5ae3d621c54810bc7895157e8e0ddae9463c9063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 63/75] fix: the index removes what it has added

Adding a name put all of its suffixes into the index of a server although
DART sends each suffix by itself, while removing it took out the name only;
with the DHTs, which send the name only, the suffixes stayed.
---
 src/server/pdc_server_metadata_index.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 6ed7248..d112a50 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -240,7 +240,7 @@ create_prefix_index_for_attr_value(void **index, unsigned char *attr_value, void
 }
 
 art_tree *
-create_index_for_attr_name(char *attr_name, char *attr_value, void *data)
+create_index_for_attr_name(char *attr_name, char *attr_value, void *data, int8_t index_type)
 {
 
     int                     len          = strlen(attr_name);
@@ -254,7 +254,8 @@ create_index_for_attr_name(char *attr_name, char *attr_value, void *data)
         nm_key  = (rr == 1) ? (unsigned char *)reverse_str(attr_name) : (unsigned char *)attr_name;
         nm_trie = (rr == 1) ? art_key_suffix_tree_g : art_key_prefix_tree_g;
 #else
-    int sub_loop_count = len; // should be 'len', but we already iterate all suffixes at client side
+    // should be 'len', but with DART we already iterate all suffixes at client side
+    int sub_loop_count = index_type == DART_HASH ? 1 : len;
     nm_trie            = art_key_prefix_tree_g;
     for (int j = 0; j < sub_loop_count; j++) {
         nm_key         = (unsigned char *)substring(attr_name, j, len);
@@ -317,7 +318,7 @@ metadata_index_create(char *attr_key, char *attr_value, uint64_t obj_locator, in
     //     create_hash_table_for_keyword(attr_key, attr_value, 1, (void *)data);
     // }
     // else if (index_type == DART_HASH) {
-    create_index_for_attr_name(attr_key, attr_value, (void *)data);
+    create_index_for_attr_name(attr_key, attr_value, (void *)data, index_type);
     free(data);
     // }
     timer_pause(&timer);
@@ -368,7 +369,7 @@ delete_prefix_index_for_attr_value(void **index, unsigned char *attr_value, void
 }
 
 void
-delete_index_for_attr_name(char *attr_name, char *attr_value, void *data)
+delete_index_for_attr_name(char *attr_name, char *attr_value, void *data, int8_t index_type)
 {
     int                     len          = strlen(attr_name);
     key_index_leaf_content *leaf_content = NULL;
@@ -381,7 +382,8 @@ delete_index_for_attr_name(char *attr_name, char *attr_value, void *data)
         nm_key  = rr == 1 ? (unsigned char *)reverse_str(attr_name) : (unsigned char *)attr_name;
         nm_trie = rr == 1 ? art_key_suffix_tree_g : art_key_prefix_tree_g;
 #else
-    int sub_loop_count = 1; // should be 'len', but we already iterate all suffixes at client side;
+    // should be 'len', but with DART we already iterate all suffixes at client side
+    int sub_loop_count = index_type == DART_HASH ? 1 : len;
     nm_trie            = art_key_prefix_tree_g;
     for (int j = 0; j < sub_loop_count; j++) {
         nm_key = (unsigned char *)substring(attr_name, j, len);
@@ -432,7 +434,7 @@ metadata_index_delete(char *attr_key, char *attr_value, uint64_t obj_locator, in
     //     delete_hash_table_for_keyword(attr_key, 1, (void *)obj_locator);
     // }
     // else if (index_type == DART_HASH) {
-    delete_index_for_attr_name(attr_key, attr_value, (void *)data);
+    delete_index_for_attr_name(attr_key, attr_value, (void *)data, index_type);
     free(data);
     // }
 
-- 
2.43.0


From f0db127001a3ba95292a948147c14a8be530676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 64/75] fix: DHT searches ask every server that may have a
 match

Keys are not placed by what a suffix begins with, nor, when hashed whole, by
the one character of a prefix.
---
 src/commons/index/dart/dart_core.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 66cdaeb..579de7e 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -671,15 +671,17 @@ DHT_hash(DART *dart_g, size_t len, char *key, dart_op_type_t op_type, index_hash
     else if (op_type == OP_EXACT_QUERY) {
         is_full_scan = 0;
     }
-    else if (op_type == OP_PREFIX_QUERY || op_type == OP_SUFFIX_QUERY) {
-        if (len > 1) {
+    else if (op_type == OP_PREFIX_QUERY) {
+        // only if keys are placed by their initial, those with the same prefix are together; a token of one
+        // character does not tell how keys are placed.
+        if (len > 1 || strlen(key) <= 1) {
             is_full_scan = 1;
         }
         else {
             is_full_scan = 0;
         }
     }
-    else if (op_type == OP_INFIX_QUERY) {
+    else if (op_type == OP_SUFFIX_QUERY || op_type == OP_INFIX_QUERY) {
         is_full_scan = 1;
     }
 
-- 
2.43.0


From fdcedc3a416a5358c177521fd2af767ad91823c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 65/75] fix: without suffix tree, servers get names and not
 their reverses

The reversed name, which only chooses the server, was indexed as if it were
the name, so that suffix searches missed it and reversed names were found.
---
 src/commons/index/dart/dart_core.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 579de7e..829f6d2 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -640,7 +640,12 @@ DART_hash(DART *dart_g, char *key, dart_op_type_t op_type, get_server_info_callb
         }
         for (int j = 0; j < tmp_out_len; j++) {
             (*out)[ret_value - tmp_out_len + j].server_id = temp_out[j];
-            (*out)[ret_value - tmp_out_len + j].key       = tok;
+#ifdef PDC_DART_SFX_TREE
+            (*out)[ret_value - tmp_out_len + j].key = tok;
+#else
+            // the server reverses the keyword by itself
+            (*out)[ret_value - tmp_out_len + j].key = key;
+#endif
         }
         if (temp_out != NULL)
             free(temp_out);
-- 
2.43.0


From 995ef3fcc0fd9c846e139c001d721c05f0b95bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:27 +0000
Subject: [PATCH 66/75] fix: a released region lock goes to the first request
 that waits for it

---
 src/server/pdc_client_server_common.c         | 16 -----
 .../include/pdc_server_data.h                 | 10 ---
 .../pdc_server_region/pdc_server_data.c       | 70 ++++++++-----------
 3 files changed, 31 insertions(+), 65 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index d90f83b..aeb8091 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -1206,12 +1206,6 @@ PDC_Server_update_local_region_storage_loc(region_list_t *region ATTRIBUTE(unuse
     return SUCCEED;
 }
 perr_t
-PDC_Server_release_lock_request(uint64_t obj_id                ATTRIBUTE(unused),
-                                struct pdc_region_info *region ATTRIBUTE(unused))
-{
-    return SUCCEED;
-}
-perr_t
 PDC_Server_data_write_out(uint64_t obj_id                     ATTRIBUTE(unused),
                           struct pdc_region_info *region_info ATTRIBUTE(unused), void *buf ATTRIBUTE(unused),
                           size_t unit ATTRIBUTE(unused))
@@ -2150,8 +2144,6 @@ pdc_region_write_out_progress(void *arg)
     // Perform lock release function
     PDC_Data_Server_region_release(&(bulk_args->in), &out);
 
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, remote_reg_info);
-
     free(remote_reg_info->offset);
     free(remote_reg_info->size);
     free(remote_reg_info);
@@ -2197,8 +2189,6 @@ obj_map_region_release_bulk_transfer_thread_cb(const struct hg_cb_info *hg_cb_in
     // release the lock
     PDC_Data_Server_region_release(&(bulk_args->in), &out);
 
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, bulk_args->remote_reg_info);
-
 done:
     fflush(stdout);
     free(bulk_args->remote_reg_info->offset);
@@ -2438,8 +2428,6 @@ transform_and_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_inf
 
     PDC_Server_data_write_out(bulk_args->remote_obj_id, remote_reg_info, bulk_args->data_buf, unit);
     PDC_Data_Server_region_release((region_lock_in_t *)&bulk_args->in, &out);
-
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, remote_reg_info);
 #endif
 
 done:
@@ -2596,8 +2584,6 @@ analysis_and_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info
         (local_reg_info->offset)[3] = bulk_args->in.region.start_3;
         (local_reg_info->size)[3]   = bulk_args->in.region.count_3;
     }
-    PDC_Server_release_lock_request(bulk_args->in.obj_id, local_reg_info);
-
     averages[0] = analysis_t;
     averages[1] = io_t;
 #ifdef ENABLE_MPI
@@ -2736,8 +2722,6 @@ buf_map_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info)
 
     // Perform lock release function
     PDC_Data_Server_region_release(&(bulk_args->in), &out);
-
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, remote_reg_info);
 #endif
 
 #ifdef PDC_TIMING
diff --git a/src/server/pdc_server_region/include/pdc_server_data.h b/src/server/pdc_server_region/include/pdc_server_data.h
index a204aa4..8bb7a6c 100644
--- a/src/server/pdc_server_region/include/pdc_server_data.h
+++ b/src/server/pdc_server_region/include/pdc_server_data.h
@@ -719,16 +719,6 @@ hg_return_t PDC_Server_bulk_cleanup_cb(const struct hg_cb_info *callback_info);
 perr_t PDC_Server_notify_client_multi_io_complete(uint32_t client_id, int client_seq_id, int n_completed,
                                                   region_list_t *completed_rg_list);
 
-/**
- * Data server processes lock release request
- *
- * \param obj_id [IN]           Object ID
- * \param region [IN]           Region
- *
- * \return Non-negative on success/Negative on failure
- */
-perr_t PDC_Server_release_lock_request(uint64_t obj_id, struct pdc_region_info *region);
-
 /**
  * ********
  *
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index cb716ca..d5bea7e 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -407,6 +407,23 @@ PDC_Server_unregister_obj_region(pdcid_t obj_id)
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_unregister_obj_region
 
+// The lock of a region that is mapped to a buffer moves data when it is released
+static void
+PDC_Server_set_lock_mapping(data_server_region_t *obj_reg, region_list_t *lock)
+{
+    region_list_t     mapped;
+    region_buf_map_t *elt;
+
+    DL_FOREACH(obj_reg->region_buf_map_head, elt)
+    {
+        PDC_region_transfer_t_to_list_t(&(elt->remote_region_unit), &mapped);
+        if (PDC_is_same_region_list(&mapped, lock) == 1) {
+            lock->reg_dirty_from_buf = 1;
+            hg_atomic_incr32(&(lock->buf_map_refcount));
+        }
+    }
+}
+
 perr_t
 PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_handle_t *handle)
 {
@@ -414,8 +431,7 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
     int                   ndim;
     region_list_t *       request_region;
     data_server_region_t *new_obj_reg;
-    region_list_t *       elt1, *tmp;
-    region_buf_map_t *    eltt;
+    region_list_t *       elt1;
     int                   error      = 0;
     int                   found_lock = 0;
     // time_t                t;
@@ -500,17 +516,7 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
 
     if (found_lock == 0) {
         // check if the lock region is used in buf map function
-        tmp = (region_list_t *)malloc(sizeof(region_list_t));
-        DL_FOREACH(new_obj_reg->region_buf_map_head, eltt)
-        {
-            PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
-            if (PDC_is_same_region_list(tmp, request_region) == 1) {
-                request_region->reg_dirty_from_buf = 1;
-                hg_atomic_incr32(&(request_region->buf_map_refcount));
-                /* printf("%s: set reg_dirty_from_buf and buf_map_refcount\n", __func__); */
-            }
-        }
-        free(tmp);
+        PDC_Server_set_lock_mapping(new_obj_reg, request_region);
 
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
@@ -536,46 +542,31 @@ done:
     FUNC_LEAVE(ret_value);
 }
 
-perr_t
-PDC_Server_release_lock_request(uint64_t obj_id, struct pdc_region_info *region)
+// The lock of the region has been released: the first request that waits for it gets it
+static void
+PDC_Server_release_lock_request(data_server_region_t *obj_reg, region_list_t *region)
 {
-    perr_t                ret_value = SUCCEED;
-    region_list_t *       request_region;
-    region_list_t *       elt, *tmp;
-    data_server_region_t *new_obj_reg;
-    region_lock_out_t     out;
-
-    FUNC_ENTER(NULL);
-
-    request_region = (region_list_t *)malloc(sizeof(region_list_t));
-    PDC_init_region_list(request_region);
-    PDC_region_info_to_list_t(region, request_region);
+    region_list_t *   elt;
+    region_lock_out_t out;
 
-    new_obj_reg = PDC_Server_get_obj_region(obj_id);
-    if (new_obj_reg == NULL) {
-        PGOTO_ERROR(FAIL, "===PDC Server: cannot locate data_server_region_t strcut for object ID");
-    }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&lock_request_mutex_g);
 #endif
-    DL_FOREACH_SAFE(new_obj_reg->region_lock_request_head, elt, tmp)
+    DL_FOREACH(obj_reg->region_lock_request_head, elt)
     {
-        if (is_region_identical(request_region, elt) == 1) {
+        if (is_region_identical(region, elt) == 1) {
+            DL_DELETE(obj_reg->region_lock_request_head, elt);
+            PDC_Server_set_lock_mapping(obj_reg, elt);
+            DL_APPEND(obj_reg->region_lock_head, elt);
             out.ret = 1;
             HG_Respond(elt->lock_handle, NULL, NULL, &out);
             HG_Destroy(elt->lock_handle);
-            DL_DELETE(new_obj_reg->region_lock_request_head, elt);
-            free(elt);
+            break;
         }
     }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&lock_request_mutex_g);
 #endif
-    free(request_region);
-
-done:
-    fflush(stdout);
-    FUNC_LEAVE(ret_value);
 }
 
 perr_t
@@ -642,6 +633,7 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
             DL_DELETE(obj_reg->region_lock_head, tmp1);
             free(tmp1);
             tmp1 = NULL;
+            PDC_Server_release_lock_request(obj_reg, &request_region);
             break;
         }
     }
-- 
2.43.0


From 40ce6b2ad61c80b9ce44c930a229a59e07618531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:27 +0000
Subject: [PATCH 67/75] fix: releasing a region lock that is not held fails

---
 src/server/pdc_server_region/pdc_server_data.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index d5bea7e..7d21a38 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -587,6 +587,7 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
     /* tm = *localtime(&t); */
     /* printf("start PDC_Data_Server_region_release %02d:%02d:%02d\n", tm.tm_hour, tm.tm_min, tm.tm_sec); */
 
+    out->ret = 0;
     ndim = in->region.ndim;
 
     // Convert transferred lock region to structure
-- 
2.43.0


From eb7c690f6df6626966f9080f4478f488b63759a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:38 +0000
Subject: [PATCH 68/75] fix: an object whose region is locked first has its
 storage opened like any other

---
 src/server/pdc_server_region/pdc_server_data.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 7d21a38..78b2093 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -477,17 +477,11 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
 #endif
     new_obj_reg = PDC_Server_get_obj_region(in->obj_id);
     if (new_obj_reg == NULL) {
-        new_obj_reg = (data_server_region_t *)malloc(sizeof(struct data_server_region_t));
+        PDC_Server_register_obj_region_by_pointer(&new_obj_reg, in->obj_id, 0);
         if (new_obj_reg == NULL) {
             error = 1;
             PGOTO_ERROR(FAIL, "PDC_SERVER: PDC_Server_region_lock() allocates new object failed");
         }
-        new_obj_reg->obj_id                   = in->obj_id;
-        new_obj_reg->region_lock_head         = NULL;
-        new_obj_reg->region_buf_map_head      = NULL;
-        new_obj_reg->region_lock_request_head = NULL;
-        new_obj_reg->region_storage_head      = NULL;
-        DL_APPEND(dataserver_region_g, new_obj_reg);
     }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&region_struct_mutex_g);
-- 
2.43.0


From 8ca9f95098a96f0b6f508a50602bd204e35f9953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:32 +0000
Subject: [PATCH 69/75] fix: releasing a region lock moves the data of the
 client that releases it

---
 src/server/pdc_client_server_common.c         | 23 ++++++++++++-------
 .../include/pdc_server_data.h                 | 10 ++++++++
 .../pdc_server_region/pdc_server_data.c       | 11 ++++++++-
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index aeb8091..f9b0e05 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -1163,6 +1163,11 @@ PDC_Meta_Server_buf_map(buf_map_in_t *in                  ATTRIBUTE(unused),
 {
     return SUCCEED;
 }
+int
+PDC_Server_is_mapped_by(const struct hg_info *info ATTRIBUTE(unused), region_buf_map_t *map ATTRIBUTE(unused))
+{
+    return 0;
+}
 perr_t
 PDC_Data_Server_region_release(region_lock_in_t *in   ATTRIBUTE(unused),
                                region_lock_out_t *out ATTRIBUTE(unused))
@@ -2933,14 +2938,15 @@ HG_TEST_RPC_CB(region_release, handle)
 
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) > 0) {
-                dirty_reg = 1;
-                tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+                tmp = (region_list_t *)malloc(sizeof(region_list_t));
                 DL_FOREACH_SAFE(target_obj->region_buf_map_head, eltt2, eltt_tmp)
                 {
                     PDC_region_transfer_t_to_list_t(&(eltt2->remote_region_unit), tmp);
-                    if (PDC_is_same_region_list(tmp, request_region) == 1) {
+                    if (PDC_is_same_region_list(tmp, request_region) == 1 &&
+                        PDC_Server_is_mapped_by(hg_info, eltt2)) {
+                        dirty_reg = 1;
                         // get remote object memory addr
-                        data_buf = PDC_Server_get_region_buf_ptr(in.obj_id, in.region);
+                        data_buf = eltt2->remote_data_ptr;
                         if (in.region.ndim == 1) {
                             remote_count  = 1;
                             data_ptrs_to  = (void **)malloc(sizeof(void *));
@@ -3149,15 +3155,16 @@ HG_TEST_RPC_CB(region_release, handle)
         {
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) > 0) {
-                dirty_reg = 1;
-                tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+                tmp = (region_list_t *)malloc(sizeof(region_list_t));
                 DL_FOREACH(target_obj->region_buf_map_head, eltt)
                 {
                     PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
-                    if (PDC_is_same_region_list(tmp, request_region) == 1) {
+                    if (PDC_is_same_region_list(tmp, request_region) == 1 &&
+                        PDC_Server_is_mapped_by(hg_info, eltt)) {
+                        dirty_reg = 1;
                         // type_size = eltt->remote_unit;
                         // get remote object memory addr
-                        data_buf = PDC_Server_get_region_buf_ptr(in.obj_id, in.region);
+                        data_buf = eltt->remote_data_ptr;
                         if (in.region.ndim == 1) {
                             remote_count  = 1;
                             data_ptrs_to  = (void **)malloc(sizeof(void *));
diff --git a/src/server/pdc_server_region/include/pdc_server_data.h b/src/server/pdc_server_region/include/pdc_server_data.h
index 8bb7a6c..cdaa922 100644
--- a/src/server/pdc_server_region/include/pdc_server_data.h
+++ b/src/server/pdc_server_region/include/pdc_server_data.h
@@ -329,6 +329,16 @@ extern int     use_fastbit_idx_g;
 region_buf_map_t *PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in,
                                           region_list_t *request_region, void *data_ptr);
 
+/**
+ * Is the buffer of a mapping one of the client that sent a request?
+ *
+ * \param info [IN]             Mercury info of the request
+ * \param map [IN]              Mapping of a region to a buffer
+ *
+ * \return 1 if it is/0 otherwise
+ */
+int PDC_Server_is_mapped_by(const struct hg_info *info, region_buf_map_t *map);
+
 /**
  * Data server process buffer unmap
  *
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 78b2093..eae5996 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -724,6 +724,12 @@ region_list_cmp_by_client_id(region_list_t *a, region_list_t *b)
     return (a->client_ids[0] - b->client_ids[0]);
 }
 
+int
+PDC_Server_is_mapped_by(const struct hg_info *info, region_buf_map_t *map)
+{
+    return HG_Addr_cmp(info->hg_class, info->addr, map->local_addr) ? 1 : 0;
+}
+
 perr_t
 PDC_Data_Server_buf_unmap(const struct hg_info *info, buf_unmap_in_t *in)
 {
@@ -745,7 +751,8 @@ PDC_Data_Server_buf_unmap(const struct hg_info *info, buf_unmap_in_t *in)
     DL_FOREACH_SAFE(target_obj->region_buf_map_head, elt, tmp)
     {
         if (in->remote_obj_id == elt->remote_obj_id &&
-            PDC_region_is_identical(in->remote_region, elt->remote_region_unit)) {
+            PDC_region_is_identical(in->remote_region, elt->remote_region_unit) &&
+            PDC_Server_is_mapped_by(info, elt)) {
 #ifdef ENABLE_MULTITHREAD
             // wait for work to be done, then free
             hg_thread_mutex_lock(&(elt->bulk_args->work_mutex));
@@ -1262,6 +1269,8 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
 #endif
     DL_FOREACH(new_obj_reg->region_buf_map_head, tmp)
     {
+        if (!PDC_Server_is_mapped_by(info, tmp))
+            continue;
         if (in->ndim == 1) {
             if (tmp->remote_obj_id == in->remote_obj_id &&
                 in->remote_region_unit.start_0 == tmp->remote_region_unit.start_0 &&
-- 
2.43.0


From 7d5d786d97db2410cec37042dde6ea59c1b96402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:32 +0000
Subject: [PATCH 70/75] fix: releasing a region lock of an object without any
 fails

---
 src/server/pdc_client_server_common.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index f9b0e05..c065f1b 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -2887,6 +2887,11 @@ HG_TEST_RPC_CB(region_release, handle)
         request_region = (region_list_t *)malloc(sizeof(region_list_t));
         PDC_region_transfer_t_to_list_t(&in.region, request_region);
         target_obj = PDC_Server_get_obj_region(in.obj_id);
+        if (target_obj == NULL) {
+            free(request_region);
+            error = 1;
+            PGOTO_ERROR(HG_OTHER_ERROR, "==PDC SERVER: no region of the object has been locked");
+        }
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
 #endif
@@ -3148,6 +3153,11 @@ HG_TEST_RPC_CB(region_release, handle)
         request_region = (region_list_t *)malloc(sizeof(region_list_t));
         PDC_region_transfer_t_to_list_t(&in.region, request_region);
         target_obj = PDC_Server_get_obj_region(in.obj_id);
+        if (target_obj == NULL) {
+            free(request_region);
+            error = 1;
+            PGOTO_ERROR(HG_OTHER_ERROR, "==PDC SERVER: no region of the object has been locked");
+        }
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
 #endif
-- 
2.43.0


From 6a361a5168aa9f8d3efc6555bd92e681238a616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 71/75] fix: the thread that flushes the cache and a request
 for a lock or a map agree on the object they add

---
 .../pdc_server_region/pdc_server_data.c       | 79 ++++++-------------
 1 file changed, 26 insertions(+), 53 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index eae5996..7afc810 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -37,6 +37,7 @@
 #include <math.h>
 #include <sys/shm.h>
 #include <sys/mman.h>
+#include <pthread.h>
 
 #include "pdc_config.h"
 
@@ -58,6 +59,8 @@
 
 // Global object region info list in local data server
 data_server_region_t *      dataserver_region_g     = NULL;
+// The thread that flushes the cache finds and adds objects, too
+static pthread_mutex_t      dataserver_region_mutex_g = PTHREAD_MUTEX_INITIALIZER;
 data_server_region_unmap_t *dataserver_region_unmap = NULL;
 
 int pdc_buffered_bulk_update_total_g = 0;
@@ -279,14 +282,13 @@ PDC_Server_region_lock_status(PDC_mapping_info_t *mapped_region, int *lock_statu
     FUNC_LEAVE(ret_value);
 }
 
-data_server_region_t *
-PDC_Server_get_obj_region(pdcid_t obj_id)
+// dataserver_region_mutex_g is held
+static data_server_region_t *
+PDC_Server_find_obj_region(pdcid_t obj_id)
 {
     data_server_region_t *ret_value = NULL;
     data_server_region_t *elt       = NULL;
 
-    FUNC_ENTER(NULL);
-
     if (dataserver_region_g != NULL) {
         DL_FOREACH(dataserver_region_g, elt)
         {
@@ -295,6 +297,20 @@ PDC_Server_get_obj_region(pdcid_t obj_id)
         }
     }
 
+    return ret_value;
+}
+
+data_server_region_t *
+PDC_Server_get_obj_region(pdcid_t obj_id)
+{
+    data_server_region_t *ret_value = NULL;
+
+    FUNC_ENTER(NULL);
+
+    pthread_mutex_lock(&dataserver_region_mutex_g);
+    ret_value = PDC_Server_find_obj_region(obj_id);
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
+
     FUNC_LEAVE(ret_value);
 }
 
@@ -330,6 +346,9 @@ PDC_Server_register_obj_region_by_pointer(data_server_region_t **new_obj_reg_ptr
 
     FUNC_ENTER(NULL);
 
+    pthread_mutex_lock(&dataserver_region_mutex_g);
+    if (new_obj_reg == NULL)
+        new_obj_reg = PDC_Server_find_obj_region(obj_id);
     if (new_obj_reg == NULL) {
         new_obj_reg = (data_server_region_t *)malloc(sizeof(struct data_server_region_t));
         if (new_obj_reg == NULL) {
@@ -364,6 +383,7 @@ PDC_Server_register_obj_region_by_pointer(data_server_region_t **new_obj_reg_ptr
     *new_obj_reg_ptr = new_obj_reg;
 
 done:
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_register_obj_region
 
@@ -1200,13 +1220,7 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
     region_list_t *       elt_reg;
     region_buf_map_t *    buf_map_ptr = NULL;
     region_buf_map_t *    tmp;
-    int                   dup                      = 0;
-    char *                data_path                = NULL;
-    char *                user_specified_data_path = NULL;
-    char                  storage_location[ADDR_MAX];
-#ifdef ENABLE_LUSTRE
-    int stripe_count, stripe_size;
-#endif
+    int                   dup         = 0;
 
     FUNC_ENTER(NULL);
 
@@ -1215,50 +1229,9 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
 #endif
     new_obj_reg = PDC_Server_get_obj_region(in->remote_obj_id);
     if (new_obj_reg == NULL) {
-        new_obj_reg = (data_server_region_t *)malloc(sizeof(struct data_server_region_t));
+        PDC_Server_register_obj_region_by_pointer(&new_obj_reg, in->remote_obj_id, 0);
         if (new_obj_reg == NULL)
             PGOTO_ERROR(NULL, "PDC_SERVER: PDC_Server_insert_buf_map_region() allocates new object failed");
-        new_obj_reg->obj_id                   = in->remote_obj_id;
-        new_obj_reg->region_lock_head         = NULL;
-        new_obj_reg->region_buf_map_head      = NULL;
-        new_obj_reg->region_lock_request_head = NULL;
-        new_obj_reg->region_storage_head      = NULL;
-
-        new_obj_reg->fd = server_open_storage(storage_location, in->remote_obj_id);
-        // Generate a location for data storage for data server to write
-        user_specified_data_path = getenv("PDC_DATA_LOC");
-
-        if (user_specified_data_path != NULL)
-            data_path = user_specified_data_path;
-        else {
-            data_path = getenv("SCRATCH");
-            if (data_path == NULL)
-                data_path = ".";
-        }
-        // Data path prefix will be $SCRATCH/pdc_data/$obj_id/
-        snprintf(storage_location, ADDR_MAX, "%.200s/pdc_data/%" PRIu64 "/server%d/s%04d.bin", data_path,
-                 in->remote_obj_id, pdc_server_rank_g, pdc_server_rank_g);
-        PDC_mkdir(storage_location);
-
-#ifdef ENABLE_LUSTRE
-        if (pdc_nost_per_file_g != 1)
-            stripe_count = lustre_total_ost_g / pdc_server_size_g;
-        else
-            stripe_count = pdc_nost_per_file_g;
-        stripe_size = lustre_stripe_size_mb_g;
-        PDC_Server_set_lustre_stripe(storage_location, stripe_count, stripe_size);
-
-        if (is_debug_g == 1 && pdc_server_rank_g == 0) {
-            printf("storage_location is %s\n", storage_location);
-        }
-#endif
-        new_obj_reg->fd = open(storage_location, O_RDWR | O_CREAT, 0666);
-        if (new_obj_reg->fd == -1) {
-            printf("==PDC_SERVER[%d]: open %s failed\n", pdc_server_rank_g, storage_location);
-            goto done;
-        }
-        new_obj_reg->storage_location = strdup(storage_location);
-        DL_APPEND(dataserver_region_g, new_obj_reg);
     }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&region_struct_mutex_g);
-- 
2.43.0


From 60380340f8815145ef060517f3954eefb9d4de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:32 +0000
Subject: [PATCH 72/75] fix: unmapping the last region of an object does not
 close its storage under a write

---
 src/server/pdc_server_region/pdc_server_data.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 7afc810..d0715b9 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -60,7 +60,9 @@
 // Global object region info list in local data server
 data_server_region_t *      dataserver_region_g     = NULL;
 // The thread that flushes the cache finds and adds objects, too
-static pthread_mutex_t      dataserver_region_mutex_g = PTHREAD_MUTEX_INITIALIZER;
+static pthread_mutex_t             dataserver_region_mutex_g = PTHREAD_MUTEX_INITIALIZER;
+// Held while the storage of an object is read, written or closed
+static pthread_mutex_t             dataserver_storage_mutex_g = PTHREAD_MUTEX_INITIALIZER;
 data_server_region_unmap_t *dataserver_region_unmap = NULL;
 
 int pdc_buffered_bulk_update_total_g = 0;
@@ -831,8 +833,10 @@ PDC_Data_Server_buf_unmap(const struct hg_info *info, buf_unmap_in_t *in)
     }
 
     if (target_obj->region_buf_map_head == NULL && pdc_server_rank_g == 0) {
+        pthread_mutex_lock(&dataserver_storage_mutex_g);
         close(target_obj->fd);
         target_obj->fd = -1;
+        pthread_mutex_unlock(&dataserver_storage_mutex_g);
     }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&data_buf_map_mutex_g);
@@ -897,8 +901,10 @@ PDC_Data_Server_check_unmap()
             }
         }
         if (target_obj->region_buf_map_head == NULL && pdc_server_rank_g == 0) {
+            pthread_mutex_lock(&dataserver_storage_mutex_g);
             close(target_obj->fd);
             target_obj->fd = -1;
+            pthread_mutex_unlock(&dataserver_storage_mutex_g);
         }
         hg_thread_mutex_unlock(&data_buf_map_mutex_g);
         if (completed == 1) {
@@ -4702,6 +4708,8 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
     int is_overlap;
 #endif
     FUNC_ENTER(NULL);
+
+    pthread_mutex_lock(&dataserver_storage_mutex_g);
 #ifdef PDC_TIMING
     double start = MPI_Wtime(), start_posix;
 #endif
@@ -5018,6 +5026,7 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
 #endif
     /* printf("==PDC_SERVER[%d]: write region %llu bytes\n", pdc_server_rank_g, request_region->data_size); */
 done:
+    pthread_mutex_unlock(&dataserver_storage_mutex_g);
     fflush(stdout);
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_data_write_out
@@ -5035,6 +5044,8 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
     char *                tmp_buf;
 
     FUNC_ENTER(NULL);
+
+    pthread_mutex_lock(&dataserver_storage_mutex_g);
 #ifdef PDC_TIMING
     double start = MPI_Wtime(), start_posix;
 #endif
@@ -5290,6 +5301,7 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
 #endif
 
 done:
+    pthread_mutex_unlock(&dataserver_storage_mutex_g);
     fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
-- 
2.43.0


From e0e67b733a83843ab4c6cfc33322c02878b01c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:28 +0000
Subject: [PATCH 73/75] fix: a client that lists objects gets a copy that other
 clients' requests do not change

---
 src/server/pdc_client_server_common.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index c065f1b..77e1ec2 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -4586,18 +4586,16 @@ HG_TEST_RPC_CB(query_partial, handle)
     /*     n_buf++; */
     /* } */
 
-    // Fix when Mercury output in HG_Respond gets too large and cannot be transfered
+    // The client reads the metadata after the response, when another request may have changed or deleted
+    // it: send a copy. One buffer also keeps the bulk handle small:
     // hg_set_output(): Output size exceeds NA expected message size
-    pdc_metadata_t *large_serial_meta_buf;
-    if (*n_meta_ptr > 80) {
-        large_serial_meta_buf = (pdc_metadata_t *)malloc(sizeof(pdc_metadata_t) * (*n_meta_ptr));
-        for (i = 0; i < *n_meta_ptr; i++) {
-            memcpy(&large_serial_meta_buf[i], buf_ptrs[i], sizeof(pdc_metadata_t));
-        }
-        buf_ptrs[0]  = large_serial_meta_buf;
-        buf_sizes[0] = sizeof(pdc_metadata_t) * (*n_meta_ptr);
-        n_buf        = 1;
+    pdc_metadata_t *serial_meta_buf = (pdc_metadata_t *)malloc(sizeof(pdc_metadata_t) * (*n_meta_ptr));
+    for (i = 0; i < *n_meta_ptr; i++) {
+        memcpy(&serial_meta_buf[i], buf_ptrs[i], sizeof(pdc_metadata_t));
     }
+    buf_ptrs[0]  = serial_meta_buf;
+    buf_sizes[0] = sizeof(pdc_metadata_t) * (*n_meta_ptr);
+    n_buf        = 1;
 
     // Create bulk handle
     hg_ret =
-- 
2.43.0


From 50a87219863779499fafe232735478fec9df082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:32 +0000
Subject: [PATCH 74/75] fix: removing an element that a profiling hash table
 does not have does nothing

---
 src/commons/profiling/pdc_hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/profiling/pdc_hashtab.c b/src/commons/profiling/pdc_hashtab.c
index e59b7e3..e4bf401 100644
--- a/src/commons/profiling/pdc_hashtab.c
+++ b/src/commons/profiling/pdc_hashtab.c
@@ -429,7 +429,7 @@ PTR  element;
     PTR *slot;
 
     slot = htab_find_slot(htab, element, NO_INSERT);
-    if (*slot == EMPTY_ENTRY)
+    if (slot == NULL || *slot == EMPTY_ENTRY)
         return;
 
     if (htab->del_f)
-- 
2.43.0


From 68e852efd2121b8a63bfa43cadc490997fa82e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:15 +0000
Subject: [PATCH 75/75] fix: a profiling hash table that was emptied counts no
 elements

---
 src/commons/profiling/pdc_hashtab.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/commons/profiling/pdc_hashtab.c b/src/commons/profiling/pdc_hashtab.c
index e4bf401..c0926c3 100644
--- a/src/commons/profiling/pdc_hashtab.c
+++ b/src/commons/profiling/pdc_hashtab.c
@@ -218,6 +218,8 @@ void htab_empty(htab) htab_t htab;
                 (*htab->del_f)(htab->entries[i]);
 
     memset(htab->entries, 0, htab->size * sizeof(PTR));
+    htab->n_elements = 0;
+    htab->n_deleted  = 0;
 }
 
 /* Similar to htab_find_slot, but without several unwanted side effects:
-- 
2.43.0

