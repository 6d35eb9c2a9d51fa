From 5d8744a74381a4e36e38d33e5ec18e96237bff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 01/68] fix: do not write through a NULL row count when asked
 for the columns of a DELETE query

---
 libmsi/delete.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmsi/delete.c b/libmsi/delete.c
index 3a3623c..d0d9374 100644
--- a/libmsi/delete.c
+++ b/libmsi/delete.c
@@ -113,7 +113,8 @@ static unsigned delete_view_get_dimensions( LibmsiView *view, unsigned *rows, un
     if( !dv->table )
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
-    *rows = 0;
+    if( rows )
+        *rows = 0;
 
     return dv->table->ops->get_dimensions( dv->table, NULL, cols );
 }
-- 
2.43.0


From 8bfe56c968086d7d198c5a53f8b9304637dd9abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 02/68] fix: DELETE removes the matching rows last one first,
 so that removing one does not shift the next

---
 libmsi/delete.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libmsi/delete.c b/libmsi/delete.c
index d0d9374..5117b80 100644
--- a/libmsi/delete.c
+++ b/libmsi/delete.c
@@ -85,9 +85,13 @@ static unsigned delete_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     TRACE("deleting %d rows\n", rows);
 
-    /* blank out all the rows that match */
-    for ( i=0; i<rows; i++ )
-        dv->table->ops->delete_row( dv->table, i );
+    /* remove all the rows that match, last one first: removing a row shifts the rows behind it */
+    for ( i=rows; i>0; i-- )
+    {
+        r = dv->table->ops->delete_row( dv->table, i - 1 );
+        if( r != LIBMSI_RESULT_SUCCESS )
+            return r;
+    }
 
     return LIBMSI_RESULT_SUCCESS;
 }
-- 
2.43.0


From 3f5c0c0919e75bc399f35f97c18e55a5c44f216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 03/68] fix: WHERE parameters: each marker takes its own
 parameter, a missing one or a string compared with a number is an error

---
 libmsi/where.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index f0a3082..9902892 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -473,6 +473,11 @@ static unsigned expr_eval_unary( LibmsiWhereView *wv, const unsigned rows[],
     return LIBMSI_RESULT_SUCCESS;
 }
 
+static inline bool has_parameter(const LibmsiRecord *record, unsigned index)
+{
+    return record && index <= libmsi_record_get_field_count(record);
+}
+
 static unsigned expr_eval_string( LibmsiWhereView *wv, const unsigned rows[],
                                      const struct expr *expr,
                                      const LibmsiRecord *record,
@@ -495,7 +500,11 @@ static unsigned expr_eval_string( LibmsiWhereView *wv, const unsigned rows[],
         break;
 
     case EXPR_WILDCARD:
-        *str = _libmsi_record_get_string_raw(record, ++wv->rec_index);
+        *str = NULL;
+        if (!has_parameter(record, ++wv->rec_index))
+            r = LIBMSI_RESULT_INVALID_PARAMETER;
+        else
+            *str = _libmsi_record_get_string_raw(record, wv->rec_index);
         break;
 
     default:
@@ -512,15 +521,18 @@ static unsigned expr_eval_strcmp( LibmsiWhereView *wv, const unsigned rows[], co
 {
     int sr;
     const char *l_str, *r_str;
-    unsigned r;
+    unsigned rl, rr;
 
     *val = true;
-    r = expr_eval_string(wv, rows, expr->left, record, &l_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
-        return r;
-    r = expr_eval_string(wv, rows, expr->right, record, &r_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
-        return r;
+    /* evaluate both sides: each parameter marker has to take its own parameter */
+    rl = expr_eval_string(wv, rows, expr->left, record, &l_str);
+    rr = expr_eval_string(wv, rows, expr->right, record, &r_str);
+    if (rl != LIBMSI_RESULT_SUCCESS && rl != LIBMSI_RESULT_CONTINUE)
+        return rl;
+    if (rr != LIBMSI_RESULT_SUCCESS && rr != LIBMSI_RESULT_CONTINUE)
+        return rr;
+    if (rl == LIBMSI_RESULT_CONTINUE || rr == LIBMSI_RESULT_CONTINUE)
+        return LIBMSI_RESULT_CONTINUE;
 
     if( l_str == r_str ||
         ((!l_str || !*l_str) && (!r_str || !*r_str)) )
@@ -579,7 +591,9 @@ static unsigned where_view_evaluate( LibmsiWhereView *wv, const unsigned rows[],
         return expr_eval_strcmp( wv, rows, &cond->u.expr, val, record );
 
     case EXPR_WILDCARD:
-        *val = libmsi_record_get_int( record, ++wv->rec_index );
+        if (!has_parameter( record, ++wv->rec_index ))
+            return LIBMSI_RESULT_INVALID_PARAMETER;
+        *val = libmsi_record_get_int( record, wv->rec_index );
         return LIBMSI_RESULT_SUCCESS;
 
     default:
@@ -803,7 +817,7 @@ static unsigned where_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     qsort(wv->reorder, wv->row_count, sizeof(LibmsiRowEntry *), compare_entry);
 
-    if (wv->order_info)
+    if (r == LIBMSI_RESULT_SUCCESS && wv->order_info)
         r = wv->order_info->error;
 
     msi_free( rows );
-- 
2.43.0


From 99d87ca5a0209c29a7b10b2c5d53820d375a3c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 04/68] fix: store all columns of a 32-column table, refuse
 tables with more columns than a row mask can name

---
 libmsi/msipriv.h |  4 ++++
 libmsi/select.c  |  4 ++--
 libmsi/table.c   | 19 +++++++++++++++----
 libmsi/update.c  |  2 +-
 libmsi/where.c   |  8 ++++----
 5 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 086dd55..a56cf46 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -76,6 +76,10 @@ typedef enum LibmsiCondition
 
 #define MSITYPE_IS_BINARY(type) (((type) & ~MSITYPE_NULLABLE) == (MSITYPE_STRING|MSITYPE_VALID))
 
+/* a row mask has one bit for each column */
+#define MSI_MAX_COLUMNS 32
+#define MSI_ALL_COLUMNS(count) ((count) >= MSI_MAX_COLUMNS ? ~0u : (1u << (count)) - 1)
+
 struct _LibmsiTable;
 typedef struct _LibmsiTable LibmsiTable;
 
diff --git a/libmsi/select.c b/libmsi/select.c
index c4ab6fd..eb99f13 100644
--- a/libmsi/select.c
+++ b/libmsi/select.c
@@ -106,7 +106,7 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<sv->num_cols) )
+    if ( mask & ~MSI_ALL_COLUMNS(sv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* find the number of columns in the table below */
@@ -125,7 +125,7 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
         r = _libmsi_record_copy_field( rec, i+1, expanded, sv->cols[ i ] );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
-        expanded_mask |= (1<<(sv->cols[i]-1));
+        expanded_mask |= (1u<<(sv->cols[i]-1));
     }
 
     /* set the row in the underlying table */
diff --git a/libmsi/table.c b/libmsi/table.c
index 5e0a6f8..5d4becf 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -741,6 +741,14 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
         return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
     }
 
+    for( i = 0, col = col_info; col; col = col->next )
+        i++;
+    if( i > MSI_MAX_COLUMNS )
+    {
+        g_warning("table %s has more than %d columns\n", debugstr_a(name), MSI_MAX_COLUMNS);
+        return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+    }
+
     table = msi_alloc( sizeof (LibmsiTable) + strlen(name)*sizeof (char) );
     if( !table )
         return LIBMSI_RESULT_FUNCTION_FAILED;
@@ -1317,7 +1325,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<tv->num_cols) )
+    if ( mask & ~MSI_ALL_COLUMNS(tv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     for ( i = 0; i < tv->num_cols; i++ )
@@ -1325,7 +1333,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         bool persistent;
 
         /* only update the fields specified in the mask */
-        if ( !(mask&(1<<i)) )
+        if ( !(mask&(1u<<i)) )
             continue;
 
         persistent = (tv->table->persistent != LIBMSI_CONDITION_FALSE) &&
@@ -1656,7 +1664,7 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
-    return table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    return table_view_set_row( view, row, rec, MSI_ALL_COLUMNS(tv->num_cols) );
 }
 
 static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
@@ -1887,6 +1895,9 @@ static unsigned table_view_add_column(LibmsiView *view, const char *table, unsig
     LibmsiRecord *rec;
     unsigned r, i;
 
+    if (number > MSI_MAX_COLUMNS)
+        return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+
     rec = libmsi_record_new(4);
     if (!rec)
         return LIBMSI_RESULT_OUTOFMEMORY;
@@ -2509,7 +2520,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                 else if (mask & 1)
                 {
                     TRACE("modifying full row [%d]:\n", row);
-                    r = table_view_set_row( &tv->view, row, rec, (1 << tv->num_cols) - 1 );
+                    r = table_view_set_row( &tv->view, row, rec, MSI_ALL_COLUMNS(tv->num_cols) );
                     if (r != LIBMSI_RESULT_SUCCESS)
                         g_warning("failed to modify row %u\n", r);
                 }
diff --git a/libmsi/update.c b/libmsi/update.c
index 95effb4..e811d4d 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -105,7 +105,7 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     for ( i=0; i<row_count; i++ )
     {
-        r = wv->ops->set_row( wv, i, values, (1 << col_count) - 1 );
+        r = wv->ops->set_row( wv, i, values, MSI_ALL_COLUMNS(col_count) );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
     }
diff --git a/libmsi/where.c b/libmsi/where.c
index 9902892..d3f565a 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -280,7 +280,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    if (mask >= 1 << wv->col_count)
+    if (mask & ~MSI_ALL_COLUMNS(wv->col_count))
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     do
@@ -288,7 +288,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         for (i = 0; i < table->col_count; i++) {
             unsigned type;
 
-            if (!(mask_copy & (1 << i)))
+            if (!(mask_copy & (1u << i)))
                 continue;
             r = table->view->ops->get_column_info(table->view, i + 1, NULL,
                                             &type, NULL, NULL );
@@ -297,7 +297,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             if (type & MSITYPE_KEY)
                 return LIBMSI_RESULT_FUNCTION_FAILED;
         }
-        mask_copy >>= table->col_count;
+        mask_copy = table->col_count < MSI_MAX_COLUMNS ? mask_copy >> table->col_count : 0;
     }
     while (mask_copy && (table = table->next));
 
@@ -307,7 +307,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     {
         const unsigned col_count = table->col_count;
         LibmsiRecord *reduced;
-        unsigned reduced_mask = (mask >> offset) & ((1 << col_count) - 1);
+        unsigned reduced_mask = offset < MSI_MAX_COLUMNS ? (mask >> offset) & MSI_ALL_COLUMNS(col_count) : 0;
 
         if (!reduced_mask)
         {
-- 
2.43.0


From 65c0a243b9f4995ac0a278a042e621da55816db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 05/68] fix: UPDATE refuses to change primary keys or to store
 NULL where it is not allowed, with or without WHERE

---
 libmsi/update.c | 7 ++-----
 libmsi/where.c  | 6 +++++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/libmsi/update.c b/libmsi/update.c
index e811d4d..616223b 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -215,11 +215,8 @@ unsigned update_view_create( LibmsiDatabase *db, LibmsiView **view, char *table,
 
     TRACE("%p\n", uv );
 
-    if (expr)
-        r = where_view_create( db, &wv, table, expr );
-    else
-        r = table_view_create( db, table, &wv );
-
+    /* also without a condition: it is what refuses to change primary keys */
+    r = where_view_create( db, &wv, table, expr );
     if( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
diff --git a/libmsi/where.c b/libmsi/where.c
index d3f565a..182250c 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -269,7 +269,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     unsigned i, r, offset = 0;
     JOINTABLE *table = wv->tables;
     unsigned *rows;
-    unsigned mask_copy = mask;
+    unsigned mask_copy = mask, first = 0;
 
     TRACE("%p %d %p %08x\n", wv, row, rec, mask );
 
@@ -296,7 +296,11 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
                 return r;
             if (type & MSITYPE_KEY)
                 return LIBMSI_RESULT_FUNCTION_FAILED;
+            if (!(type & MSITYPE_NULLABLE) && !MSITYPE_IS_BINARY(type) &&
+                libmsi_record_is_null(rec, first + i + 1))
+                return LIBMSI_RESULT_INVALID_DATA;
         }
+        first += table->col_count;
         mask_copy = table->col_count < MSI_MAX_COLUMNS ? mask_copy >> table->col_count : 0;
     }
     while (mask_copy && (table = table->next));
-- 
2.43.0


From 701b3f928dd887472d23fe15f0cc04238d144177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 06/68] fix: check that every value of a row can be stored
 before any of them is

---
 libmsi/table.c | 62 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 5d4becf..04fee17 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1296,21 +1296,57 @@ static unsigned get_table_value_from_record( LibmsiTableView *tv, LibmsiRecord *
             if (r != LIBMSI_RESULT_SUCCESS)
                 return LIBMSI_RESULT_NOT_FOUND;
         }
-        else *pvalue = 0;
+        else
+            return LIBMSI_RESULT_FUNCTION_FAILED;
     }
-    else if ( bytes_per_column( tv->db, &columninfo, LONG_STR_BYTES ) == 2 )
+    else
     {
-        *pvalue = 0x8000 + libmsi_record_get_int( rec, iField );
-        if ( *pvalue & 0xffff0000 )
-        {
-            g_critical("field %u value %d out of range\n", iField, *pvalue - 0x8000);
+        int ival = libmsi_record_get_int( rec, iField );
+
+        /* not a number at all */
+        if ( ival == LIBMSI_NULL_INT && _libmsi_record_get_string_raw( rec, iField ) )
             return LIBMSI_RESULT_FUNCTION_FAILED;
+
+        if ( bytes_per_column( tv->db, &columninfo, LONG_STR_BYTES ) == 2 )
+        {
+            /* -0x8000 is how a null is stored */
+            if ( ival < -0x7fff || ival > 0x7fff )
+            {
+                g_warning("field %u value %d out of range\n", iField, ival);
+                return LIBMSI_RESULT_FUNCTION_FAILED;
+            }
+            *pvalue = 0x8000 + ival;
         }
+        else
+            *pvalue = ival ^ 0x80000000;
     }
-    else
+
+    return LIBMSI_RESULT_SUCCESS;
+}
+
+/* check that every value can be stored, before any of them is */
+static unsigned table_validate_values( LibmsiTableView *tv, LibmsiRecord *rec, unsigned mask )
+{
+    unsigned i, r, val;
+
+    for ( i = 0; i < tv->num_cols; i++ )
     {
-        int ival = libmsi_record_get_int( rec, iField );
-        *pvalue = ival ^ 0x80000000;
+        if ( !(mask&(1u<<i)) || libmsi_record_is_null( rec, i + 1 ) )
+            continue;
+
+        r = get_table_value_from_record( tv, rec, i + 1, &val );
+        if ( r != LIBMSI_RESULT_SUCCESS && r != LIBMSI_RESULT_NOT_FOUND )
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+
+        if ( MSITYPE_IS_BINARY(tv->columns[i].type) )
+        {
+            GsfInput *stm;
+
+            r = _libmsi_record_get_gsf_input( rec, i + 1, &stm );
+            if ( r != LIBMSI_RESULT_SUCCESS )
+                return r;
+            g_object_unref(G_OBJECT(stm));
+        }
     }
 
     return LIBMSI_RESULT_SUCCESS;
@@ -1328,6 +1364,10 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if ( mask & ~MSI_ALL_COLUMNS(tv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
+    r = table_validate_values( tv, rec, mask );
+    if ( r != LIBMSI_RESULT_SUCCESS )
+        return r;
+
     for ( i = 0; i < tv->num_cols; i++ )
     {
         bool persistent;
@@ -1646,6 +1686,10 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
     if( r != LIBMSI_RESULT_SUCCESS )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
+    r = table_validate_values( tv, rec, MSI_ALL_COLUMNS(tv->num_cols) );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        return r;
+
     if (row == -1)
         row = find_insert_index( tv, rec );
 
-- 
2.43.0


From 80e820c5c582ad7d08cf19fdb1e2a4feac7e2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 07/68] fix: a null binary cell reads as null even if a stream
 of the row's name exists

---
 libmsi/libmsi-query.c |  2 +-
 libmsi/table.c        | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index 759613c..a1463c0 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -321,7 +321,7 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
                 _libmsi_record_set_gsf_input(*rec, i, stm);
                 g_object_unref(G_OBJECT(stm));
             }
-            else
+            else if (ret != LIBMSI_RESULT_SUCCESS)
                 g_warning("failed to get stream\n");
 
             continue;
diff --git a/libmsi/table.c b/libmsi/table.c
index 04fee17..6e0c8ae 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1162,13 +1162,23 @@ err:
 static unsigned table_view_fetch_stream( LibmsiView *view, unsigned row, unsigned col, GsfInput **stm )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
-    unsigned r;
+    unsigned r, ival;
     char *encname;
     char *full_name = NULL;
 
     if( !view->ops->fetch_int )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
+    /* a null cell has no stream, whatever an earlier row of the same key left behind */
+    r = view->ops->fetch_int( view, row, col, &ival );
+    if ( r != LIBMSI_RESULT_SUCCESS )
+        return r;
+    if ( !ival )
+    {
+        *stm = NULL;
+        return LIBMSI_RESULT_SUCCESS;
+    }
+
     r = msi_stream_name( tv, row, &full_name );
     if ( r != LIBMSI_RESULT_SUCCESS )
     {
-- 
2.43.0


From 0dd582c6cd0b45cc918e1056eecb227a9c7f3198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 08/68] fix: fetching from a statement without rows is an
 error; DISTINCT can fetch streams and be executed again

---
 libmsi/distinct.c     | 19 ++++++++++++++++++-
 libmsi/libmsi-query.c |  4 ++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/libmsi/distinct.c b/libmsi/distinct.c
index 2d9aab9..42678e5 100644
--- a/libmsi/distinct.c
+++ b/libmsi/distinct.c
@@ -99,6 +99,21 @@ static unsigned distinct_view_fetch_int( LibmsiView *view, unsigned row, unsigne
     return dv->table->ops->fetch_int( dv->table, row, col, val );
 }
 
+static unsigned distinct_view_fetch_stream( LibmsiView *view, unsigned row, unsigned col, GsfInput **stm )
+{
+    LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
+
+    TRACE("%p %d %d %p\n", dv, row, col, stm );
+
+    if( !dv->table )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
+    if( row >= dv->row_count )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
+    return dv->table->ops->fetch_stream( dv->table, dv->translation[ row ], col, stm );
+}
+
 static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
@@ -118,6 +133,8 @@ static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
     if( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
+    msi_free( dv->translation );
+    dv->row_count = 0;
     dv->translation = msi_alloc( r_count*sizeof(unsigned) );
     if( !dv->translation )
         return LIBMSI_RESULT_FUNCTION_FAILED;
@@ -250,7 +267,7 @@ static unsigned distinct_view_find_matching_rows( LibmsiView *view, unsigned col
 static const LibmsiViewOps distinct_ops =
 {
     distinct_view_fetch_int,
-    NULL,
+    distinct_view_fetch_stream,
     NULL,
     NULL,
     NULL,
diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index a1463c0..ae8d221 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -288,6 +288,10 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
 
     TRACE("%p %p %d %p\n", db, view, row, rec);
 
+    /* only some statements have rows to fetch */
+    if (!view->ops->fetch_int || !view->ops->fetch_stream || !view->ops->get_column_info)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     ret = view->ops->get_dimensions(view, &row_count, &col_count);
     if (ret)
         return ret;
-- 
2.43.0


From 4e5a66f70529b0bdc93adc813eb5ec990f105024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 09/68] fix: commit replaces the file in one step and reports
 every failure; closing without commit leaves the file alone

---
 libmsi/libmsi-database.c | 249 ++++++++++++++++++++++++++-------------
 libmsi/msipriv.h         |   4 +-
 libmsi/table.c           |  15 +--
 3 files changed, 177 insertions(+), 91 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e0c68cc..c187945 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -122,7 +122,7 @@ libmsi_database_finalize (GObject *object)
 {
     LibmsiDatabase *self = LIBMSI_DATABASE (object);
 
-    _libmsi_database_close (self, false);
+    _libmsi_database_close (self);
     free_cached_tables (self);
     free_transforms (self);
 
@@ -573,10 +573,72 @@ void append_storage_to_db( LibmsiDatabase *db, GsfInfile *stg )
 #endif
 }
 
-LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
+/* give up what was written since the transaction started */
+static void discard_transaction(LibmsiDatabase *db)
 {
-    TRACE("%p %d\n", db, committed);
+    if ( db->outfile )
+    {
+        /* closing an output in error removes what it has written so far,
+         * instead of letting it take the place of the output file */
+        gsf_output_set_error( db->outsink, 0, "not committed" );
+        gsf_output_close(GSF_OUTPUT(db->outfile));
+        g_object_unref(G_OBJECT(db->outfile));
+        db->outfile = NULL;
+    }
+
+    if ( db->outsink )
+    {
+        if ( !gsf_output_is_closed( db->outsink ) )
+        {
+            gsf_output_set_error( db->outsink, 0, "not committed" );
+            gsf_output_close( db->outsink );
+        }
+        g_object_unref(G_OBJECT(db->outsink));
+        db->outsink = NULL;
+    }
+}
+
+/* put what was written since the transaction started at its final place */
+static LibmsiResult finish_transaction(LibmsiDatabase *db)
+{
+    bool ok;
+
+    ok = gsf_output_close(GSF_OUTPUT(db->outfile)) && !gsf_output_error( db->outsink );
+    g_object_unref(G_OBJECT(db->outfile));
+    db->outfile = NULL;
+    if ( !gsf_output_is_closed( db->outsink ) )
+    {
+        if ( !ok )
+            gsf_output_set_error( db->outsink, 0, "not committed" );
+        ok = gsf_output_close( db->outsink ) && ok;
+    }
+    g_object_unref(G_OBJECT(db->outsink));
+    db->outsink = NULL;
+    if ( !ok )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
+    if ( db->rename_outpath )
+    {
+        /* replaces the old file in one step */
+        if ( rename( db->outpath, db->path ) )
+        {
+            unlink( db->outpath );
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+        }
+        msi_free( db->outpath );
+    }
+    else
+    {
+        msi_free( db->path );
+        db->path = db->outpath;
+    }
+    db->outpath = NULL;
+    db->unlink_outpath = false;
+    return LIBMSI_RESULT_SUCCESS;
+}
 
+static void close_infile(LibmsiDatabase *db)
+{
     if ( db->strings )
     {
         msi_destroy_stringtable( db->strings);
@@ -589,53 +651,35 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
         db->infile = NULL;
     }
 
-    if ( db->outfile )
-    {
-        gsf_output_close(GSF_OUTPUT(db->outfile));
-        g_object_unref(G_OBJECT(db->outfile));
-        db->outfile = NULL;
-    }
     free_streams( db );
     free_storages( db );
+}
 
-    if (db->outpath) {
-        if (!committed) {
-            unlink( db->outpath );
-            msi_free( db->outpath );
-        } else if (db->rename_outpath) {
-            unlink(db->path);
-            rename(db->outpath, db->path);
-            msi_free( db->outpath );
-        } else {
-            msi_free( db->path );
-            db->path = db->outpath;
-        }
-    }
+void _libmsi_database_close(LibmsiDatabase *db)
+{
+    TRACE("%p\n", db);
+
+    discard_transaction( db );
+    close_infile( db );
+
+    if ( db->outpath && db->unlink_outpath )
+        unlink( db->outpath );
+    msi_free( db->outpath );
     db->outpath = NULL;
-    return LIBMSI_RESULT_SUCCESS;
 }
 
 LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
 {
-    unsigned ret = LIBMSI_RESULT_SUCCESS;
     GsfOutput *out;
     GsfOutfile *stg = NULL;
-    char *tmpfile = NULL;
-    char path[PATH_MAX];
 
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_SUCCESS;
 
-    db->rename_outpath = false;
     if( !db->outpath )
     {
-        strcpy( path, db->path );
-        if (db->flags & LIBMSI_DB_FLAGS_TRANSACT)
-	{
-            strcat( path, ".tmp" );
-            db->rename_outpath = true;
-	}
-        db->outpath = strdup(path);
+        db->rename_outpath = !!(db->flags & LIBMSI_DB_FLAGS_TRANSACT);
+        db->outpath = g_strconcat( db->path, db->rename_outpath ? ".tmp" : NULL, NULL );
     }
 
     TRACE("%p %s\n", db, db->outpath);
@@ -646,36 +690,27 @@ LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
         g_warning("open file failed for %s\n", debugstr_a(db->outpath));
         return LIBMSI_RESULT_OPEN_FAILED;
     }
+    db->outsink = out;
+
     stg = gsf_outfile_msole_new(out);
-    g_object_unref(G_OBJECT(out));
     if (!stg)
     {
         g_warning("open failed for %s\n", debugstr_a(db->outpath));
+        discard_transaction( db );
         return LIBMSI_RESULT_OPEN_FAILED;
     }
+    db->outfile = stg;
 
     if (!gsf_outfile_msole_set_class_id(GSF_OUTFILE_MSOLE(stg),
                                         db->flags & LIBMSI_DB_FLAGS_PATCH ?
                                         clsid_msi_patch : clsid_msi_database ))
     {
         g_warning("set guid failed\n");
-        ret = LIBMSI_RESULT_FUNCTION_FAILED;
-        goto end;
+        discard_transaction( db );
+        return LIBMSI_RESULT_FUNCTION_FAILED;
     }
 
-    db->outfile = stg;
-    g_object_ref(G_OBJECT(db->outfile));
-
-end:
-    if (ret) {
-        if (db->outfile)
-            g_object_unref(G_OBJECT(db->outfile));
-        db->outfile = NULL;
-    }
-    if (stg)
-        g_object_unref(G_OBJECT(stg));
-    msi_free(tmpfile);
-    return ret;
+    return LIBMSI_RESULT_SUCCESS;
 }
 
 static char *msi_read_text_archive(const char *path, unsigned *len)
@@ -2119,11 +2154,13 @@ static void cache_infile_structure( LibmsiDatabase *db )
     for (i = 0; i < n; i++)
     {
         GsfInput *in = gsf_infile_child_by_index(db->infile, i);
-        const char* name = gsf_input_name(in);
+        const char* name = in ? gsf_input_name(in) : NULL;
         const uint8_t *name8 = (const uint8_t *)name;
 
         if (!name) {
             g_warn_if_reached();
+            if (in)
+                g_object_unref(G_OBJECT(in));
             continue;
         }
         /* table streams are not in the _Streams table */
@@ -2134,22 +2171,22 @@ static void cache_infile_structure( LibmsiDatabase *db )
                 g_autofree char *decname = NULL;
 
                 decname = decode_streamname(name + 3);
-                if ( !strcmp( decname, szStringPool ) ||
-                     !strcmp( decname, szStringData ) )
-                    continue;
-
-                r = _libmsi_open_table( db, decname, false );
-                g_warn_if_fail (r == LIBMSI_RESULT_SUCCESS);
+                if ( strcmp( decname, szStringPool ) &&
+                     strcmp( decname, szStringData ) )
+                {
+                    r = _libmsi_open_table( db, decname, false );
+                    g_warn_if_fail (r == LIBMSI_RESULT_SUCCESS);
+                }
             }
             else
             {
                 r = msi_alloc_stream(db, name, GSF_INPUT(in));
-                g_object_unref(G_OBJECT(in));
             }
         } else {
             msi_open_storage(db, name);
         }
 
+        g_object_unref(G_OBJECT(in));
     }
 }
 
@@ -2295,16 +2332,28 @@ static int gsf_infile_copy(GsfInfile *inf, GsfOutfile *outf)
     for (i = 0; i < n; i++) {
         const char *name = gsf_infile_name_by_index(inf, i);
         GsfInput *child = gsf_infile_child_by_index(inf, i);
-        GsfInfile *childf = GSF_IS_INFILE (child) ? GSF_INFILE (child) : NULL;
-        gboolean is_dir = childf && gsf_infile_num_children (childf) > 0;
-        GsfOutput *dest = gsf_outfile_new_child(outf, name, is_dir);
+        GsfInfile *childf;
+        gboolean is_dir;
+        GsfOutput *dest;
         gboolean ok;
 
+        if (!child)
+            return false;
+
+        childf = GSF_IS_INFILE (child) ? GSF_INFILE (child) : NULL;
+        is_dir = childf && gsf_infile_num_children (childf) >= 0;
+        dest = gsf_outfile_new_child(outf, name, is_dir);
+        if (!dest) {
+            g_object_unref(G_OBJECT(child));
+            return false;
+        }
+
         if (is_dir)
             ok = gsf_infile_copy(childf, GSF_OUTFILE(dest));
         else
             ok = gsf_input_copy(child, dest);
 
+        ok = gsf_output_close(dest) && ok;
         g_object_unref(G_OBJECT(child));
         g_object_unref(G_OBJECT(dest));
         if (!ok)
@@ -2325,13 +2374,11 @@ static unsigned commit_storage( const char *name, GsfInfile *stg, void *opaque)
     if ( !outstg )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
-    if ( !gsf_infile_copy( stg, outstg ) )
-        goto end;
-
-    ret = LIBMSI_RESULT_SUCCESS;
+    if ( gsf_infile_copy( stg, outstg ) )
+        ret = LIBMSI_RESULT_SUCCESS;
 
-end:
-    gsf_output_close(GSF_OUTPUT(outstg));
+    if ( !gsf_output_close(GSF_OUTPUT(outstg)) )
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(G_OBJECT(outstg));
     return ret;
 }
@@ -2352,13 +2399,11 @@ static unsigned commit_stream( const char *name, GsfInput *stm, void *opaque)
 
     gsf_input_seek (stm, 0, G_SEEK_SET);
     gsf_output_seek (outstm, 0, G_SEEK_SET);
-    if ( !gsf_input_copy( stm, outstm ))
-        goto end;
+    if ( gsf_input_copy( stm, outstm ) )
+        ret = LIBMSI_RESULT_SUCCESS;
 
-    ret = LIBMSI_RESULT_SUCCESS;
-
-end:
-    gsf_output_close(GSF_OUTPUT(outstm));
+    if ( !gsf_output_close(GSF_OUTPUT(outstm)) )
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(G_OBJECT(outstm));
     return ret;
 }
@@ -2385,6 +2430,13 @@ libmsi_database_commit (LibmsiDatabase *db, GError **error)
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         goto end;
 
+    if (!db->outfile) {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "no output file to commit to\n");
+        goto end;
+    }
+
     /* FIXME: lock the database */
 
     r = msi_save_string_table (db->strings, db, &bytes_per_strref);
@@ -2415,17 +2467,44 @@ libmsi_database_commit (LibmsiDatabase *db, GError **error)
         goto end;
     }
 
-    db->bytes_per_strref = bytes_per_strref;
-
     /* FIXME: unlock the database */
 
-    _libmsi_database_close(db, true);
+    r = finish_transaction (db);
+    if (r != LIBMSI_RESULT_SUCCESS) {
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "failed to write the database file r=%08x\n", r);
+        goto end;
+    }
+
+    free_cached_tables (db);
+    close_infile (db);
     db->flags &= ~LIBMSI_DB_FLAGS_CREATE;
     db->flags |= LIBMSI_DB_FLAGS_TRANSACT;
-    _libmsi_database_open(db);
-    _libmsi_database_start_transaction(db);
+    r = _libmsi_database_open (db);
+    if (r != LIBMSI_RESULT_SUCCESS) {
+        /* the file is complete, but this handle cannot go on with it */
+        free_cached_tables (db);
+        close_infile (db);
+        db->strings = msi_init_string_table (&db->bytes_per_strref);
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "failed to open the committed database r=%08x\n", r);
+        goto out;
+    }
+
+    r = _libmsi_database_start_transaction (db);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "failed to start a new transaction r=%08x\n", r);
+    goto out;
 
 end:
+    if (r != LIBMSI_RESULT_SUCCESS) {
+        /* forget what was written; the changes can still be committed */
+        discard_transaction (db);
+        _libmsi_database_start_transaction (db);
+    }
+
+out:
     g_object_unref(db);
 
     return r == LIBMSI_RESULT_SUCCESS;
@@ -2577,8 +2656,12 @@ init (LibmsiDatabase *self, GError **error)
     if (self->flags & LIBMSI_DB_FLAGS_CREATE) {
         self->strings = msi_init_string_table (&self->bytes_per_strref);
     } else {
-        if (_libmsi_database_open(self))
+        ret = _libmsi_database_open (self);
+        if (ret != LIBMSI_RESULT_SUCCESS) {
+            g_set_error (error, LIBMSI_RESULT_ERROR, ret,
+                         "failed to open %s r=%08x\n", self->path, ret);
             return FALSE;
+        }
     }
 
     self->media_transform_offset = MSI_INITIAL_MEDIA_TRANSFORM_OFFSET;
@@ -2587,9 +2670,15 @@ init (LibmsiDatabase *self, GError **error)
     if (TRACE_ON && self->infile)
         enum_stream_names (self->infile);
 
+    /* an output file given by the caller does not outlive the handle if not committed */
+    self->unlink_outpath = self->outpath && !(self->flags & LIBMSI_DB_FLAGS_READONLY);
+
     ret = _libmsi_database_start_transaction (self);
+    if (ret != LIBMSI_RESULT_SUCCESS)
+        g_set_error (error, LIBMSI_RESULT_ERROR, ret,
+                     "failed to write %s r=%08x\n", self->outpath, ret);
 
-    return !ret;
+    return ret == LIBMSI_RESULT_SUCCESS;
 }
 
 /**
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index a56cf46..a4155f0 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -95,11 +95,13 @@ struct _LibmsiDatabase
 
     GsfInfile *infile;
     GsfOutfile *outfile;
+    GsfOutput *outsink;
     string_table *strings;
     unsigned bytes_per_strref;
     char *path;
     char *outpath;
     bool rename_outpath;
+    bool unlink_outpath;
     guint flags;
     unsigned media_transform_offset;
     unsigned media_transform_disk_id;
@@ -398,7 +400,7 @@ extern char *decode_streamname(const char *in);
 /* database internals */
 extern LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db);
 extern LibmsiResult _libmsi_database_open(LibmsiDatabase *db);
-extern LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed);
+extern void _libmsi_database_close(LibmsiDatabase *db);
 unsigned msi_create_stream( LibmsiDatabase *db, const char *stname, GsfInput *stm );
 extern unsigned msi_get_raw_stream( LibmsiDatabase *, const char *, GsfInput **);
 void msi_destroy_stream( LibmsiDatabase *, const char * );
diff --git a/libmsi/table.c b/libmsi/table.c
index 6e0c8ae..1db777a 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -335,16 +335,13 @@ unsigned write_stream_data( LibmsiDatabase *db, const char *stname,
         return ret;
     }
 
-    if (! gsf_output_write(stm, sz, data) )
-    {
+    if ( gsf_output_write(stm, sz, data) )
+        ret = LIBMSI_RESULT_SUCCESS;
+    else
         g_warning("Failed to Write\n");
-        goto end;
-    }
 
-    ret = LIBMSI_RESULT_SUCCESS;
-
-end:
-    gsf_output_close(GSF_OUTPUT(stm));
+    if (! gsf_output_close(GSF_OUTPUT(stm)) )
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(G_OBJECT(stm));
     return ret;
 }
@@ -2124,8 +2121,6 @@ unsigned _libmsi_database_commit_tables( LibmsiDatabase *db, unsigned bytes_per_
                   debugstr_a(table->name), r);
             return r;
         }
-        list_remove(&table->entry);
-        free_table(table);
     }
 
     return r;
-- 
2.43.0


From 7158a99a366eeb38b611a2130ae1b347833ba97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 10/68] fix: the reference count of a string does not wrap
 around to zero

---
 libmsi/string.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 0b20c0b..8407d46 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -249,6 +249,15 @@ static unsigned _libmsi_id_from_string( const string_table *st, const char *buff
     return r;
 }
 
+/* more references than a count can hold stay at the largest count */
+static void add_refs( string_table *st, unsigned n, uint16_t refcount, enum StringPersistence persistence )
+{
+    uint16_t *refs = persistence == StringPersistent ? &st->strings[n].persistent_refcount
+                                                     : &st->strings[n].nonpersistent_refcount;
+
+    *refs = MIN( *refs + refcount, G_MAXUINT16 );
+}
+
 static int msi_addstring( string_table *st, unsigned n, const char *data, int len, uint16_t refcount, enum StringPersistence persistence )
 {
     char *str;
@@ -271,10 +280,7 @@ static int msi_addstring( string_table *st, unsigned n, const char *data, int le
     {
         if( LIBMSI_RESULT_SUCCESS == _libmsi_id_from_string( st, data, &n ) )
         {
-            if (persistence == StringPersistent)
-                st->strings[n].persistent_refcount += refcount;
-            else
-                st->strings[n].nonpersistent_refcount += refcount;
+            add_refs( st, n, refcount, persistence );
             return n;
         }
         n = st_find_free_entry( st );
@@ -315,10 +321,7 @@ int _libmsi_add_string( string_table *st, const char *data, int len, uint16_t re
 
     if( _libmsi_id_from_string_utf8( st, data, &n ) == LIBMSI_RESULT_SUCCESS )
     {
-        if (persistence == StringPersistent)
-            st->strings[n].persistent_refcount += refcount;
-        else
-            st->strings[n].nonpersistent_refcount += refcount;
+        add_refs( st, n, refcount, persistence );
         return n;
     }
 
-- 
2.43.0


From 3d114a4ab51f215f2e6eace74a6e0fa9068fa8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 11/68] fix: read back strings of 64 KiB and more

---
 libmsi/string.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 8407d46..b4b5db8 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -536,7 +536,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
          */
         if (GUINT16_FROM_LE(pool[i*2]) == 0)
         {
-            len = (GUINT16_FROM_LE(pool[i*2+3]) << 16) + GUINT16_FROM_LE(pool[i*2+2]);
+            if ( i + 1 >= count )
+            {
+                g_critical("string pool ends within a string\n");
+                break;
+            }
+            len = (refs << 16) + GUINT16_FROM_LE(pool[i*2+2]);
+            refs = GUINT16_FROM_LE(pool[i*2+3]);
             i += 2;
         }
         else
@@ -545,7 +551,7 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
             i += 1;
         }
 
-        if ( (offset + len) > datasize )
+        if ( len > datasize - offset )
         {
             g_critical("string table corrupt?\n");
             break;
-- 
2.43.0


From 02d562bbec6029b0a04c105c547e9471d9836c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 12/68] fix: committing a string its codepage cannot hold is an
 error, not a crash

---
 libmsi/string.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index b4b5db8..6942939 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -390,8 +390,14 @@ static unsigned _libmsi_string_id( const string_table *st, unsigned id, char *bu
     cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
     str = g_convert_with_iconv(str_utf8, -1, cpconv, NULL, &len, NULL);
     g_iconv_close(cpconv);
+    if( !str )
+    {
+        g_warning("string %u cannot be stored in codepage %d\n", id, codepage);
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+    }
     if( *sz < len )
     {
+        msi_free(str);
         *sz = len;
         return LIBMSI_RESULT_MORE_DATA;
     }
@@ -460,6 +466,8 @@ static void string_totalsize( const string_table *st, unsigned *datasize, unsign
             cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
             str = g_convert_with_iconv( st->strings[i].str, -1, cpconv, NULL, &len, NULL);
             g_iconv_close(cpconv);
+            if( !str )
+                len = 0;
 	    msi_free(str);
             (*datasize) += len;
             if (len>0xffff)
@@ -634,8 +642,8 @@ unsigned msi_save_string_table( const string_table *st, LibmsiDatabase *db, unsi
         r = _libmsi_string_id( st, n, data+used, &sz );
         if( r != LIBMSI_RESULT_SUCCESS )
         {
-            g_critical("failed to fetch string\n");
-            sz = 0;
+            g_warning("failed to fetch string\n");
+            goto err;
         }
 
         if (sz == 0) {
-- 
2.43.0


From 492c3f277792cb860a0f6c405059f986055277ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 13/68] fix: a commit writes all persistent rows of a table
 that has temporary ones

---
 libmsi/table.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 1db777a..6cb68c7 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -876,7 +876,7 @@ err:
 static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned bytes_per_strref )
 {
     uint8_t *rawdata = NULL;
-    unsigned rawsize, i, j, row_size, row_count;
+    unsigned rawsize, i, j, row_size, row_count, saved;
     unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* Nothing to do for non-persistent tables */
@@ -893,14 +893,11 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     TRACE("Saving %s\n", debugstr_a( t->name ) );
 
     row_size = msi_table_get_row_size( db, t->colinfo, t->col_count, bytes_per_strref );
-    row_count = t->row_count;
+    row_count = 0;
     for (i = 0; i < t->row_count; i++)
     {
-        if (!t->data_persistent[i])
-        {
-            row_count = 1; /* yes, this is bizarre */
-            break;
-        }
+        if (t->data_persistent[i])
+            row_count++;
     }
     rawsize = row_count * row_size;
     rawdata = msi_alloc_zero( rawsize );
@@ -911,11 +908,13 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     }
 
     rawsize = 0;
+    saved = 0;
     for (i = 0; i < t->row_count; i++)
     {
         unsigned ofs = 0, ofs_mem = 0;
 
-        if (!t->data_persistent[i]) break;
+        /* temporary rows are not part of the file */
+        if (!t->data_persistent[i]) continue;
 
         for (j = 0; j < t->col_count; j++)
         {
@@ -939,11 +938,12 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
             }
             for (k = 0; k < n; k++)
             {
-                rawdata[ofs * row_count + i * n + k] = t->data[i][ofs_mem + k];
+                rawdata[ofs * row_count + saved * n + k] = t->data[i][ofs_mem + k];
             }
             ofs_mem += m;
             ofs += n;
         }
+        saved++;
         rawsize += row_size;
     }
 
-- 
2.43.0


From 40f260aa399b8e4889f8ab27ef0d1eb7e7f29cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 14/68] fix: INSERT places the row by its stored keys or not at
 all, and stores strings first seen in a temporary row

---
 libmsi/table.c | 114 ++++++++++++++++++++++++-------------------------
 1 file changed, 57 insertions(+), 57 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 6cb68c7..61b316c 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1359,6 +1359,18 @@ static unsigned table_validate_values( LibmsiTableView *tv, LibmsiRecord *rec, u
     return LIBMSI_RESULT_SUCCESS;
 }
 
+/* the rows have changed place */
+static void table_reset_hash( LibmsiTableView *tv )
+{
+    unsigned i;
+
+    for (i = 0; i < tv->num_cols; i++)
+    {
+        msi_free( tv->columns[i].hash_table );
+        tv->columns[i].hash_table = NULL;
+    }
+}
+
 static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord *rec, unsigned mask )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
@@ -1419,20 +1431,20 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             }
             else if ( tv->columns[i].type & MSITYPE_STRING )
             {
+                const char *sval;
                 unsigned x;
 
-                if ( r != LIBMSI_RESULT_SUCCESS )
-                {
-                    const char *sval = _libmsi_record_get_string_raw( rec, i + 1 );
-                    val = _libmsi_add_string( tv->db->strings, sval, -1, 1,
-                      persistent ? StringPersistent : StringNonPersistent );
-                }
-                else
+                if ( r == LIBMSI_RESULT_SUCCESS )
                 {
                     table_view_fetch_int(&tv->view, row, i + 1, &x);
                     if (val == x)
                         continue;
                 }
+
+                /* a string known from a temporary row is not yet part of the file */
+                sval = _libmsi_record_get_string_raw( rec, i + 1 );
+                val = _libmsi_add_string( tv->db->strings, sval, -1, 1,
+                  persistent ? StringPersistent : StringNonPersistent );
             }
             else
             {
@@ -1623,68 +1635,52 @@ static unsigned table_validate_new( LibmsiTableView *tv, LibmsiRecord *rec, unsi
     return LIBMSI_RESULT_SUCCESS;
 }
 
-static int compare_record( LibmsiTableView *tv, unsigned row, LibmsiRecord *rec )
+/* order two rows of the table by the stored values of their key columns */
+static int compare_rows( LibmsiTableView *tv, unsigned row1, unsigned row2 )
 {
-    unsigned r, i, ivalue, x;
+    unsigned i, x, y;
 
     for (i = 0; i < tv->num_cols; i++ )
     {
         if (!(tv->columns[i].type & MSITYPE_KEY)) continue;
 
-        r = get_table_value_from_record( tv, rec, i + 1, &ivalue );
-        if (r != LIBMSI_RESULT_SUCCESS)
-            return 1;
-
-        r = table_view_fetch_int( &tv->view, row, i + 1, &x );
-        if (r != LIBMSI_RESULT_SUCCESS)
+        if (table_view_fetch_int( &tv->view, row1, i + 1, &x ) != LIBMSI_RESULT_SUCCESS ||
+            table_view_fetch_int( &tv->view, row2, i + 1, &y ) != LIBMSI_RESULT_SUCCESS)
         {
-            g_warning("table_view_fetch_int should not fail here %u\n", r);
+            g_warning("table_view_fetch_int should not fail here\n");
             return -1;
         }
-        if (ivalue > x)
-        {
-            return 1;
-        }
-        else if (ivalue == x)
-        {
-            if (i < tv->num_cols - 1) continue;
-            return 0;
-        }
-        else
-            return -1;
+        if (x != y)
+            return x < y ? -1 : 1;
     }
     return 1;
 }
 
-static int find_insert_index( LibmsiTableView *tv, LibmsiRecord *rec )
+/* where the last row of the table belongs among the others */
+static unsigned find_insert_index( LibmsiTableView *tv )
 {
-    int idx, c, low = 0, high = tv->table->row_count - 1;
-
-    TRACE("%p %p\n", tv, rec);
+    int idx, last = tv->table->row_count - 1, low = 0, high = last - 1;
 
     while (low <= high)
     {
         idx = (low + high) / 2;
-        c = compare_record( tv, idx, rec );
 
-        if (c < 0)
+        if (compare_rows( tv, last, idx ) < 0)
             high = idx - 1;
-        else if (c > 0)
-            low = idx + 1;
         else
-        {
-            TRACE("found %u\n", idx);
-            return idx;
-        }
+            low = idx + 1;
     }
     TRACE("found %u\n", high + 1);
     return high + 1;
 }
 
+static unsigned table_view_delete_row( LibmsiView *view, unsigned row );
+
 static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
-    unsigned i, r;
+    unsigned i, r, last = -1;
+    uint8_t *data;
 
     TRACE("%p %p %s\n", tv, rec, temporary ? "true" : "false" );
 
@@ -1697,25 +1693,34 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
     if( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
-    if (row == -1)
-        row = find_insert_index( tv, rec );
-
-    r = table_create_new_row( view, &row, temporary );
+    r = table_create_new_row( view, &last, temporary );
     TRACE("insert_row returned %08x\n", r);
     if( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
-    /* shift the rows to make room for the new row */
-    for (i = tv->table->row_count - 1; i > row; i--)
+    r = table_view_set_row( view, last, rec, MSI_ALL_COLUMNS(tv->num_cols) );
+    if( r != LIBMSI_RESULT_SUCCESS )
     {
-        memmove(&(tv->table->data[i][0]),
-                &(tv->table->data[i - 1][0]), tv->row_size);
-        tv->table->data_persistent[i] = tv->table->data_persistent[i - 1];
+        table_view_delete_row( view, last );
+        return r;
     }
 
-    /* Re-set the persistence flag */
+    if (row == -1)
+        row = find_insert_index( tv );
+
+    /* move the new row from the end to its place */
+    data = tv->table->data[last];
+    for (i = last; i > row; i--)
+    {
+        tv->table->data[i] = tv->table->data[i - 1];
+        tv->table->data_persistent[i] = tv->table->data_persistent[i - 1];
+    }
+    tv->table->data[row] = data;
     tv->table->data_persistent[row] = !temporary;
-    return table_view_set_row( view, row, rec, MSI_ALL_COLUMNS(tv->num_cols) );
+
+    table_reset_hash( tv );
+
+    return LIBMSI_RESULT_SUCCESS;
 }
 
 static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
@@ -1738,12 +1743,7 @@ static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
     num_rows = tv->table->row_count;
     tv->table->row_count--;
 
-    /* reset the hash tables */
-    for (i = 0; i < tv->num_cols; i++)
-    {
-        msi_free( tv->columns[i].hash_table );
-        tv->columns[i].hash_table = NULL;
-    }
+    table_reset_hash( tv );
 
     for (i = row + 1; i < num_rows; i++)
     {
-- 
2.43.0


From 7981a08599f63a14f583935f10b6796d406f537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 15/68] fix: a missing parameter makes INSERT and UPDATE fail,
 and WHERE markers follow the markers of SET, not its columns

---
 libmsi/insert.c | 6 +++++-
 libmsi/update.c | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/libmsi/insert.c b/libmsi/insert.c
index 11edffe..522f0ea 100644
--- a/libmsi/insert.c
+++ b/libmsi/insert.c
@@ -80,7 +80,8 @@ LibmsiRecord *msi_query_merge_record( unsigned fields, const column_info *vl, Li
         case EXPR_WILDCARD:
             if( !rec )
                 goto err;
-            _libmsi_record_copy_field( rec, wildcard_count, merged, i );
+            if( _libmsi_record_copy_field( rec, wildcard_count, merged, i ) != LIBMSI_RESULT_SUCCESS )
+                goto err;
             wildcard_count++;
             break;
         default:
@@ -223,7 +224,10 @@ static unsigned insert_view_execute( LibmsiView *view, LibmsiRecord *record )
      */
     values = msi_query_merge_record( col_count, iv->vals, record );
     if( !values )
+    {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto err;
+    }
 
     r = msi_arrange_record( iv, &values );
     if( r != LIBMSI_RESULT_SUCCESS )
diff --git a/libmsi/update.c b/libmsi/update.c
index 616223b..851a749 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -64,11 +64,15 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
     {
         r = libmsi_record_get_field_count(record);
 
+        /* the markers of the SET list come first */
         for (i = 0; col; col = col->next)
-            i++;
+        {
+            if (col->val->type == EXPR_WILDCARD)
+                i++;
+        }
 
         cols_count = i;
-        where_count = r - i;
+        where_count = r > i ? r - i : 0;
 
         if (where_count > 0)
         {
-- 
2.43.0


From 851347819e5067733b00d236520fac2560ed2f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 16/68] fix: refuse to store a stream in an integer column
 instead of storing NULL

---
 libmsi/libmsi-record.c | 4 ----
 libmsi/msipriv.h       | 5 +++++
 libmsi/table.c         | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index 6339338..382ed29 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -37,10 +37,6 @@ enum
 
 G_DEFINE_TYPE (LibmsiRecord, libmsi_record, G_TYPE_OBJECT);
 
-#define LIBMSI_FIELD_TYPE_NULL   0
-#define LIBMSI_FIELD_TYPE_INT    1
-#define LIBMSI_FIELD_TYPE_STR   3
-#define LIBMSI_FIELD_TYPE_STREAM 4
 
 static void
 libmsi_record_init (LibmsiRecord *self)
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index a4155f0..cff78fd 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -125,6 +125,11 @@ struct _LibmsiQuery
 };
 
 /* maybe we can use a Variant instead of doing it ourselves? */
+#define LIBMSI_FIELD_TYPE_NULL   0
+#define LIBMSI_FIELD_TYPE_INT    1
+#define LIBMSI_FIELD_TYPE_STR   3
+#define LIBMSI_FIELD_TYPE_STREAM 4
+
 typedef struct _LibmsiField
 {
     unsigned type;
diff --git a/libmsi/table.c b/libmsi/table.c
index 61b316c..cdf6f9a 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1311,7 +1311,7 @@ static unsigned get_table_value_from_record( LibmsiTableView *tv, LibmsiRecord *
         int ival = libmsi_record_get_int( rec, iField );
 
         /* not a number at all */
-        if ( ival == LIBMSI_NULL_INT && _libmsi_record_get_string_raw( rec, iField ) )
+        if ( ival == LIBMSI_NULL_INT && rec->fields[iField].type != LIBMSI_FIELD_TYPE_INT )
             return LIBMSI_RESULT_FUNCTION_FAILED;
 
         if ( bytes_per_column( tv->db, &columninfo, LONG_STR_BYTES ) == 2 )
-- 
2.43.0


From da9e7d51d8a59ce66398fe423196a7d25cb8a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 17/68] fix: queries that outlive an altered, dropped or
 committed table report an error instead of reading freed memory

---
 libmsi/libmsi-database.c |   2 +-
 libmsi/table.c           | 124 +++++++++++++++++++++++++++++++++------
 2 files changed, 106 insertions(+), 20 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index c187945..66eff98 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1078,7 +1078,7 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
     }
 
 done:
-    msi_free(view);
+    view->ops->delete(view);
     return r;
 }
 
diff --git a/libmsi/table.c b/libmsi/table.c
index cdf6f9a..3b584ba 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -61,6 +61,8 @@ struct _LibmsiTable
     unsigned col_count;
     LibmsiCondition persistent;
     int ref_count;
+    int view_count;     /* views that point to this structure */
+    bool detached;      /* no longer part of the database, kept for its views */
     char name[1];
 };
 
@@ -359,8 +361,21 @@ static void free_table( LibmsiTable *table )
         msi_free( table->data[i] );
     msi_free( table->data );
     msi_free( table->data_persistent );
-    msi_free_colinfo( table->colinfo, table->col_count );
+    if( table->colinfo )
+        msi_free_colinfo( table->colinfo, table->col_count );
     msi_free( table->colinfo );
+
+    if( table->view_count )
+    {
+        /* the last view frees it */
+        table->detached = true;
+        table->data = NULL;
+        table->data_persistent = NULL;
+        table->row_count = 0;
+        table->colinfo = NULL;
+        table->col_count = 0;
+        return;
+    }
     msi_free( table );
 }
 
@@ -751,6 +766,8 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     table->ref_count = 1;
+    table->view_count = 0;
+    table->detached = false;
     table->row_count = 0;
     table->data = NULL;
     table->data_persistent = NULL;
@@ -1024,16 +1041,56 @@ typedef struct _LibmsiTableView
     LibmsiColumnInfo *columns;
     unsigned           num_cols;
     unsigned           row_size;
+    unsigned           schema_cols;
+    unsigned           schema;
     char          name[1];
 } LibmsiTableView;
 
+/* identifies the first count columns of a table */
+static unsigned table_schema( const LibmsiTable *table, unsigned count )
+{
+    unsigned i, hash = count;
+
+    for (i = 0; i < count; i++)
+    {
+        hash = hash * 31 + table->colinfo[i].type;
+        if (table->colinfo[i].colname)
+            hash = hash * 31 + g_str_hash( table->colinfo[i].colname );
+    }
+    return hash;
+}
+
+static void table_view_attach( LibmsiTableView *tv, LibmsiTable *table )
+{
+    LibmsiTable *old = tv->table;
+
+    if (table)
+        table->view_count++;
+    tv->table = table;
+    if (old && !--old->view_count && old->detached)
+        free_table( old );
+}
+
+/* The table may have been altered, dropped or committed since it was last
+ * looked at. */
+static unsigned table_view_sync( LibmsiTableView *tv )
+{
+    if( !tv->table || tv->table->detached )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
+    tv->columns = tv->table->colinfo;
+    tv->num_cols = tv->columns ? tv->table->col_count : 0;
+    tv->row_size = msi_table_get_row_size( tv->db, tv->columns, tv->num_cols, LONG_STR_BYTES );
+    return LIBMSI_RESULT_SUCCESS;
+}
+
 static unsigned table_view_fetch_int( LibmsiView *view, unsigned row, unsigned col, unsigned *val )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
     unsigned offset, n;
 
-    if( !tv->table )
-        return LIBMSI_RESULT_INVALID_PARAMETER;
+    if( table_view_sync( tv ) != LIBMSI_RESULT_SUCCESS )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
 
     if( (col==0) || (col>tv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
@@ -1163,6 +1220,7 @@ static unsigned table_view_fetch_stream( LibmsiView *view, unsigned row, unsigne
     char *encname;
     char *full_name = NULL;
 
+    *stm = NULL;
     if( !view->ops->fetch_int )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
@@ -1376,8 +1434,8 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     LibmsiTableView *tv = (LibmsiTableView*)view;
     unsigned i, val, r = LIBMSI_RESULT_SUCCESS;
 
-    if ( !tv->table )
-        return LIBMSI_RESULT_INVALID_PARAMETER;
+    if( table_view_sync( tv ) != LIBMSI_RESULT_SUCCESS )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* test if any of the mask bits are invalid */
     if ( mask & ~MSI_ALL_COLUMNS(tv->num_cols) )
@@ -1523,8 +1581,29 @@ static unsigned table_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
 
+    LibmsiTable *table;
+    unsigned r;
+
     TRACE("%p %p\n", tv, record);
 
+    if( tv->table->detached )
+    {
+        /* what has the name now must be the table the query was made for */
+        if( !table_view_exists( tv->db, tv->name ) )
+            return LIBMSI_RESULT_INVALID_TABLE;
+        r = get_table( tv->db, tv->name, &table );
+        if( r != LIBMSI_RESULT_SUCCESS )
+            return r;
+        if( table->col_count < tv->schema_cols ||
+            table_schema( table, tv->schema_cols ) != tv->schema )
+            return LIBMSI_RESULT_INVALID_TABLE;
+        table_view_attach( tv, table );
+    }
+
+    r = table_view_sync( tv );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        return r;
+
     TRACE("There are %d columns\n", tv->num_cols );
 
     return LIBMSI_RESULT_SUCCESS;
@@ -1543,14 +1622,13 @@ static unsigned table_view_get_dimensions( LibmsiView *view, unsigned *rows, uns
 
     TRACE("%p %p %p\n", view, rows, cols );
 
+    if( table_view_sync( tv ) != LIBMSI_RESULT_SUCCESS )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     if( cols )
         *cols = tv->num_cols;
     if( rows )
-    {
-        if( !tv->table )
-            return LIBMSI_RESULT_INVALID_PARAMETER;
         *rows = tv->table->row_count;
-    }
 
     return LIBMSI_RESULT_SUCCESS;
 }
@@ -1563,6 +1641,9 @@ static unsigned table_view_get_column_info( LibmsiView *view,
 
     TRACE("%p %d %p %p\n", tv, n, name, type );
 
+    if( table_view_sync( tv ) != LIBMSI_RESULT_SUCCESS )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     if( ( n == 0 ) || ( n > tv->num_cols ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
@@ -1684,6 +1765,9 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     TRACE("%p %p %s\n", tv, rec, temporary ? "true" : "false" );
 
+    if( table_view_sync( tv ) != LIBMSI_RESULT_SUCCESS )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     /* check that the key is unique - can we find a matching row? */
     r = table_validate_new( tv, rec, NULL );
     if( r != LIBMSI_RESULT_SUCCESS )
@@ -1730,8 +1814,8 @@ static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
 
     TRACE("%p %d\n", tv, row);
 
-    if ( !tv->table )
-        return LIBMSI_RESULT_INVALID_PARAMETER;
+    if( table_view_sync( tv ) != LIBMSI_RESULT_SUCCESS )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
 
     r = table_view_get_dimensions( view, &num_rows, &num_cols );
     if ( r != LIBMSI_RESULT_SUCCESS )
@@ -1762,7 +1846,7 @@ static unsigned table_view_delete( LibmsiView *view )
 
     TRACE("%p\n", view );
 
-    tv->table = NULL;
+    table_view_attach( tv, NULL );
     tv->columns = NULL;
 
     msi_free( tv );
@@ -1778,8 +1862,8 @@ static unsigned table_view_find_matching_rows( LibmsiView *view, unsigned col,
 
     TRACE("%p, %d, %u, %p\n", view, col, val, *handle);
 
-    if( !tv->table )
-        return LIBMSI_RESULT_INVALID_PARAMETER;
+    if( table_view_sync( tv ) != LIBMSI_RESULT_SUCCESS )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
 
     if( (col==0) || (col > tv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
@@ -2055,6 +2139,7 @@ static const LibmsiViewOps table_ops =
 unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **view )
 {
     LibmsiTableView *tv ;
+    LibmsiTable *table;
     unsigned r, sz;
 
     TRACE("%p %s %p\n", db, debugstr_a(name), view );
@@ -2069,7 +2154,7 @@ unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **v
     if( !tv )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
-    r = get_table( db, name, &tv->table );
+    r = get_table( db, name, &table );
     if( r != LIBMSI_RESULT_SUCCESS )
     {
         msi_free( tv );
@@ -2077,14 +2162,15 @@ unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **v
         return r;
     }
 
-    TRACE("table %p found with %d columns\n", tv->table, tv->table->col_count);
+    TRACE("table %p found with %d columns\n", table, table->col_count);
 
     /* fill the structure */
     tv->view.ops = &table_ops;
     tv->db = db;
-    tv->columns = tv->table->colinfo;
-    tv->num_cols = tv->table->col_count;
-    tv->row_size = msi_table_get_row_size( db, tv->table->colinfo, tv->table->col_count, LONG_STR_BYTES );
+    table_view_attach( tv, table );
+    table_view_sync( tv );
+    tv->schema_cols = table->col_count;
+    tv->schema = table_schema( table, table->col_count );
 
     TRACE("%s one row is %d bytes\n", debugstr_a(name), tv->row_size );
 
-- 
2.43.0


From df77707ab1ddeb2f536806a5dfc8cddefd8cead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 18/68] fix: temporary columns and tables stay out of the file,
 go when nobody holds them, and can be dropped

---
 libmsi/alter.c |  99 ++++++++++---------
 libmsi/drop.c  |   8 ++
 libmsi/table.c | 252 ++++++++++++++++++++++++++++++++++---------------
 3 files changed, 232 insertions(+), 127 deletions(-)

diff --git a/libmsi/alter.c b/libmsi/alter.c
index 0c7a21c..33317ff 100644
--- a/libmsi/alter.c
+++ b/libmsi/alter.c
@@ -63,71 +63,53 @@ static unsigned alter_view_get_row( LibmsiView *view, unsigned row, LibmsiRecord
     return av->table->ops->get_row(av->table, row, rec);
 }
 
-static unsigned count_iter(LibmsiRecord *row, void *param)
+/* can the column be added? */
+static unsigned alter_check_column(LibmsiAlterView *av)
 {
-    (*(unsigned *)param)++;
-    return LIBMSI_RESULT_SUCCESS;
-}
-
-static bool check_column_exists(LibmsiDatabase *db, const char *table, const char *column)
-{
-    LibmsiQuery *view;
-    LibmsiRecord *rec;
-    unsigned r;
+    const char *name;
+    unsigned r, i, num_cols;
 
-    static const char query[] =
-	    "SELECT * FROM `_Columns` WHERE `Table`='%s' AND `Name`='%s'";
+    /* the columns of temporary tables are not listed in _Columns, those of the
+     * table and column lists are fixed */
+    if (_libmsi_database_is_table_persistent(av->db, av->colinfo->table) != LIBMSI_CONDITION_TRUE)
+        return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
 
-    r = _libmsi_query_open(db, &view, query, table, column);
+    r = av->table->ops->get_dimensions(av->table, NULL, &num_cols);
     if (r != LIBMSI_RESULT_SUCCESS)
-        return false;
+        return r;
 
-    r = _libmsi_query_execute(view, NULL);
-    if (r != LIBMSI_RESULT_SUCCESS)
-        goto done;
+    if (num_cols >= MSI_MAX_COLUMNS)
+        return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
 
-    r = _libmsi_query_fetch(view, &rec);
-    if (r == LIBMSI_RESULT_SUCCESS)
-        g_object_unref(rec);
+    for (i = 1; i <= num_cols; i++)
+    {
+        r = av->table->ops->get_column_info(av->table, i, &name, NULL, NULL, NULL);
+        if (r != LIBMSI_RESULT_SUCCESS)
+            return r;
+        if (!strcmp(name, av->colinfo->column))
+            return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+    }
 
-done:
-    g_object_unref(view);
-    return (r == LIBMSI_RESULT_SUCCESS);
+    return LIBMSI_RESULT_SUCCESS;
 }
 
 static unsigned alter_add_column(LibmsiAlterView *av)
 {
-    unsigned r, colnum = 1;
-    LibmsiQuery *view;
+    unsigned r, num_cols;
     LibmsiView *columns;
 
     static const char szColumns[] = "_Columns";
-    static const char query[] =
-        "SELECT * FROM `_Columns` WHERE `Table`='%s' ORDER BY `Number`";
 
-    r = table_view_create(av->db, szColumns, &columns);
+    r = av->table->ops->get_dimensions(av->table, NULL, &num_cols);
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    if (check_column_exists(av->db, av->colinfo->table, av->colinfo->column))
-    {
-        columns->ops->delete(columns);
-        return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
-    }
+    r = table_view_create(av->db, szColumns, &columns);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        return r;
 
-    r = _libmsi_query_open(av->db, &view, query, av->colinfo->table);
-    if (r == LIBMSI_RESULT_SUCCESS)
-    {
-        r = _libmsi_query_iterate_records(view, NULL, count_iter, &colnum);
-        g_object_unref(view);
-        if (r != LIBMSI_RESULT_SUCCESS)
-        {
-            columns->ops->delete(columns);
-            return r;
-        }
-    }
     r = columns->ops->add_column(columns, av->colinfo->table,
-                                 colnum, av->colinfo->column,
+                                 num_cols + 1, av->colinfo->column,
                                  av->colinfo->type, (av->hold == 1));
 
     columns->ops->delete(columns);
@@ -137,18 +119,25 @@ static unsigned alter_add_column(LibmsiAlterView *av)
 static unsigned alter_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiAlterView *av = (LibmsiAlterView*)view;
-    unsigned ref;
+    unsigned r;
 
     TRACE("%p %p\n", av, record);
 
+    r = av->table->ops->execute(av->table, NULL);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        return r;
+
+    if (av->colinfo)
+    {
+        r = alter_check_column(av);
+        if (r != LIBMSI_RESULT_SUCCESS)
+            return r;
+    }
+
     if (av->hold == 1)
         av->table->ops->add_ref(av->table);
     else if (av->hold == -1)
-    {
-        ref = av->table->ops->release(av->table);
-        if (ref == 0)
-            av->table = NULL;
-    }
+        av->table->ops->release(av->table);
 
     if (av->colinfo)
         return alter_add_column(av);
@@ -244,6 +233,14 @@ unsigned alter_view_create( LibmsiDatabase *db, LibmsiView **view, const char *n
         return r;
     }
 
+    /* streams and storages are no tables to alter */
+    if (!av->table->ops->add_ref)
+    {
+        av->table->ops->delete( av->table );
+        msi_free( av );
+        return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+    }
+
     if (colinfo)
         colinfo->table = name;
 
diff --git a/libmsi/drop.c b/libmsi/drop.c
index 2fd2501..b34168c 100644
--- a/libmsi/drop.c
+++ b/libmsi/drop.c
@@ -125,6 +125,14 @@ unsigned drop_view_create(LibmsiDatabase *db, LibmsiView **view, const char *nam
         return r;
     }
 
+    /* streams and storages are no tables to drop */
+    if (!dv->table->ops->drop)
+    {
+        dv->table->ops->delete( dv->table );
+        msi_free( dv );
+        return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+    }
+
     dv->view.ops = &drop_ops;
     dv->db = db;
 
diff --git a/libmsi/table.c b/libmsi/table.c
index 3b584ba..29aa01a 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -63,6 +63,7 @@ struct _LibmsiTable
     int ref_count;
     int view_count;     /* views that point to this structure */
     bool detached;      /* no longer part of the database, kept for its views */
+    unsigned removals;  /* how often a column was removed */
     char name[1];
 };
 
@@ -686,8 +687,6 @@ static unsigned get_tablecolumns( LibmsiDatabase *db, const char *szTableName, L
     }
     TRACE("Table id is %d, row count is %d\n", table_id, table->row_count);
 
-    /* Note: _Columns table doesn't have non-persistent data */
-
     /* if maxcount is non-zero, assume it's exactly right for this table */
     if (colinfo) memset( colinfo, 0, maxcount * sizeof(*colinfo) );
     count = table->row_count;
@@ -719,6 +718,7 @@ static unsigned get_tablecolumns( LibmsiDatabase *db, const char *szTableName, L
             colinfo[col - 1].offset = 0;
             colinfo[col - 1].ref_count = 0;
             colinfo[col - 1].hash_table = NULL;
+            colinfo[col - 1].temporary = colinfo[col - 1].type & MSITYPE_TEMPORARY;
         }
         n++;
     }
@@ -768,6 +768,7 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
     table->ref_count = 1;
     table->view_count = 0;
     table->detached = false;
+    table->removals = 0;
     table->row_count = 0;
     table->data = NULL;
     table->data_persistent = NULL;
@@ -865,7 +866,7 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
                 !libmsi_record_set_int(rec, 4, col->type))
                 goto err;
 
-            r = tv->ops->insert_row( tv, rec, -1, false );
+            r = tv->ops->insert_row( tv, rec, -1, col->temporary );
             if( r )
                 goto err;
 
@@ -890,6 +891,24 @@ err:
     return r;
 }
 
+/* The columns of a table are numbered without gaps, also when there are
+ * temporary ones between them: the number in the file of the column that a row
+ * of _Columns describes. */
+static unsigned saved_column_number( const LibmsiTable *t, unsigned row )
+{
+    unsigned i, number = (1 << 15) + 1;
+
+    for (i = 0; i < t->row_count; i++)
+    {
+        if (t->data_persistent[i] &&
+            !memcmp( t->data[i], t->data[row], LONG_STR_BYTES ) &&
+            read_table_int( t->data, i, t->colinfo[1].offset, sizeof(uint16_t) ) <
+            read_table_int( t->data, row, t->colinfo[1].offset, sizeof(uint16_t) ))
+            number++;
+    }
+    return number;
+}
+
 static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned bytes_per_strref )
 {
     uint8_t *rawdata = NULL;
@@ -909,7 +928,13 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
 
     TRACE("Saving %s\n", debugstr_a( t->name ) );
 
-    row_size = msi_table_get_row_size( db, t->colinfo, t->col_count, bytes_per_strref );
+    /* neither temporary columns nor temporary rows are part of the file */
+    row_size = 0;
+    for (j = 0; j < t->col_count; j++)
+    {
+        if (!(t->colinfo[j].type & MSITYPE_TEMPORARY))
+            row_size += bytes_per_column( db, &t->colinfo[j], bytes_per_strref );
+    }
     row_count = 0;
     for (i = 0; i < t->row_count; i++)
     {
@@ -930,7 +955,6 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     {
         unsigned ofs = 0, ofs_mem = 0;
 
-        /* temporary rows are not part of the file */
         if (!t->data_persistent[i]) continue;
 
         for (j = 0; j < t->col_count; j++)
@@ -944,6 +968,11 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
                 g_critical("oops - unknown column width %d\n", n);
                 goto err;
             }
+            if (t->colinfo[j].type & MSITYPE_TEMPORARY)
+            {
+                ofs_mem += m;
+                continue;
+            }
             if (t->colinfo[j].type & MSITYPE_STRING && n < m)
             {
                 unsigned id = read_table_int( t->data, i, ofs_mem, LONG_STR_BYTES );
@@ -957,6 +986,12 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
             {
                 rawdata[ofs * row_count + saved * n + k] = t->data[i][ofs_mem + k];
             }
+            if (j == 1 && !strcmp( t->name, szColumns ))
+            {
+                unsigned number = saved_column_number( t, i );
+                for (k = 0; k < n; k++)
+                    rawdata[ofs * row_count + saved * n + k] = number >> k * 8;
+            }
             ofs_mem += m;
             ofs += n;
         }
@@ -972,30 +1007,42 @@ err:
     return r;
 }
 
-static void msi_update_table_columns( LibmsiDatabase *db, const char *name )
+static unsigned msi_update_table_columns( LibmsiDatabase *db, const char *name )
 {
     LibmsiTable *table;
-    unsigned size, offset, old_count;
-    unsigned n;
+    LibmsiColumnInfo *colinfo = NULL;
+    unsigned r, size, offset, count = 0;
+    unsigned i, n;
 
     table = find_cached_table( db, name );
-    old_count = table->col_count;
-    msi_free_colinfo( table->colinfo, table->col_count );
-    msi_free( table->colinfo );
-    table->colinfo = NULL;
 
-    table_get_column_info( db, name, &table->colinfo, &table->col_count );
-    if (!table->col_count) return;
+    r = table_get_column_info( db, name, &colinfo, &count );
+    if (r != LIBMSI_RESULT_SUCCESS)
+        return r;
 
-    size = msi_table_get_row_size( db, table->colinfo, table->col_count, LONG_STR_BYTES );
-    offset = table->colinfo[table->col_count - 1].offset;
+    /* the holds stay */
+    for ( n = 0; n < count; n++ )
+    {
+        for ( i = 0; i < table->col_count; i++ )
+            if (!strcmp( colinfo[n].colname, table->colinfo[i].colname ))
+                colinfo[n].ref_count = table->colinfo[i].ref_count;
+    }
+
+    size = msi_table_get_row_size( db, colinfo, count, LONG_STR_BYTES );
+    offset = colinfo[count - 1].offset;
 
     for ( n = 0; n < table->row_count; n++ )
     {
         table->data[n] = msi_realloc( table->data[n], size );
-        if (old_count < table->col_count)
+        if (table->col_count < count)
             memset( &table->data[n][offset], 0, size - offset );
     }
+
+    msi_free_colinfo( table->colinfo, table->col_count );
+    msi_free( table->colinfo );
+    table->colinfo = colinfo;
+    table->col_count = count;
+    return LIBMSI_RESULT_SUCCESS;
 }
 
 /* try to find the table name in the _Tables table */
@@ -1043,6 +1090,7 @@ typedef struct _LibmsiTableView
     unsigned           row_size;
     unsigned           schema_cols;
     unsigned           schema;
+    unsigned           removals;
     char          name[1];
 } LibmsiTableView;
 
@@ -1078,6 +1126,15 @@ static unsigned table_view_sync( LibmsiTableView *tv )
     if( !tv->table || tv->table->detached )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
+    if( tv->removals != tv->table->removals )
+    {
+        /* the columns the view was made for may have other numbers now */
+        if( tv->table->col_count < tv->schema_cols ||
+            table_schema( tv->table, tv->schema_cols ) != tv->schema )
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+        tv->removals = tv->table->removals;
+    }
+
     tv->columns = tv->table->colinfo;
     tv->num_cols = tv->columns ? tv->table->col_count : 0;
     tv->row_size = msi_table_get_row_size( tv->db, tv->columns, tv->num_cols, LONG_STR_BYTES );
@@ -1598,6 +1655,7 @@ static unsigned table_view_execute( LibmsiView *view, LibmsiRecord *record )
             table_schema( table, tv->schema_cols ) != tv->schema )
             return LIBMSI_RESULT_INVALID_TABLE;
         table_view_attach( tv, table );
+        tv->removals = table->removals;
     }
 
     r = table_view_sync( tv );
@@ -1952,9 +2010,11 @@ static unsigned table_view_add_ref(LibmsiView *view)
 static unsigned table_view_remove_column(LibmsiView *view, const char *table, unsigned number)
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
+    LibmsiTableView *ctv;
+    LibmsiTable *msitable;
     LibmsiRecord *rec = NULL;
     LibmsiView *columns = NULL;
-    unsigned row, r;
+    unsigned row, r, i, id, val, next, size;
 
     rec = libmsi_record_new(2);
     if (!rec)
@@ -1968,16 +2028,41 @@ static unsigned table_view_remove_column(LibmsiView *view, const char *table, un
         g_object_unref(rec);
         return r;
     }
+    ctv = (LibmsiTableView *)columns;
 
-    r = msi_table_find_row((LibmsiTableView *)columns, rec, &row, NULL);
+    r = msi_table_find_row(ctv, rec, &row, NULL);
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
-    r = table_view_delete_row(columns, row);
+    msitable = find_cached_table(tv->db, table);
+    if (!msitable || number > msitable->col_count || msitable->col_count < 2) {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+        goto done;
+    }
+
+    r = columns->ops->fetch_int(columns, row, 1, &id);
+    if (r == LIBMSI_RESULT_SUCCESS)
+        r = table_view_delete_row(columns, row);
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
-    msi_update_table_columns(tv->db, table);
+    /* the columns after it move up, their cells with them */
+    for (row = 0; row < ctv->table->row_count; row++)
+    {
+        if (columns->ops->fetch_int(columns, row, 1, &val) == LIBMSI_RESULT_SUCCESS && val == id &&
+            columns->ops->fetch_int(columns, row, 2, &val) == LIBMSI_RESULT_SUCCESS && val - (1 << 15) > number)
+            table_view_set_int(ctv, row, 2, val - 1);
+    }
+    if (number < msitable->col_count)
+    {
+        next = msitable->colinfo[number].offset;
+        size = msi_table_get_row_size(tv->db, msitable->colinfo, msitable->col_count, LONG_STR_BYTES);
+        for (i = 0; i < msitable->row_count; i++)
+            memmove(msitable->data[i] + msitable->colinfo[number - 1].offset, msitable->data[i] + next, size - next);
+    }
+
+    msitable->removals++;
+    r = msi_update_table_columns(tv->db, table);
 
 done:
     g_object_unref(rec);
@@ -1985,38 +2070,62 @@ done:
     return r;
 }
 
+/* the entry of the table in _Tables */
+static unsigned table_view_remove_entry(LibmsiTableView *tv)
+{
+    LibmsiView *tables = NULL;
+    LibmsiRecord *rec;
+    unsigned r, row;
+
+    rec = libmsi_record_new(1);
+    if (!rec)
+        return LIBMSI_RESULT_OUTOFMEMORY;
+
+    libmsi_record_set_string(rec, 1, tv->name);
+
+    r = table_view_create(tv->db, szTables, &tables);
+    if (r != LIBMSI_RESULT_SUCCESS) {
+        g_object_unref(rec);
+        return r;
+    }
+
+    r = msi_table_find_row((LibmsiTableView *)tables, rec, &row, NULL);
+    if (r == LIBMSI_RESULT_SUCCESS)
+        r = table_view_delete_row(tables, row);
+
+    g_object_unref(rec);
+    tables->ops->delete(tables);
+    return r;
+}
+
 static unsigned table_view_release(LibmsiView *view)
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
-    int ref = tv->table->ref_count;
-    unsigned i, r;
+    LibmsiTable *table = tv->table;
+    int ref = table->ref_count;
+    unsigned i;
 
     TRACE("%p %d\n", view, ref);
 
-    for (i = 0; i < tv->table->col_count; i++)
+    if (table->persistent != LIBMSI_CONDITION_FALSE)
     {
-        if (tv->table->colinfo[i].type & MSITYPE_TEMPORARY)
+        for (i = table->col_count; i > 0; i--)
         {
-            ref = __sync_sub_and_fetch(&tv->table->colinfo[i].ref_count, 1);
-            if (ref == 0)
-            {
-                r = table_view_remove_column(view, tv->table->colinfo[i].tablename,
-                                        tv->table->colinfo[i].number);
-                if (r != LIBMSI_RESULT_SUCCESS)
-                    break;
-            }
+            if (!(table->colinfo[i - 1].type & MSITYPE_TEMPORARY))
+                continue;
+            if (__sync_sub_and_fetch(&table->colinfo[i - 1].ref_count, 1) <= 0)
+                table_view_remove_column(view, table->colinfo[i - 1].tablename,
+                                         table->colinfo[i - 1].number);
         }
     }
 
-    ref = __sync_sub_and_fetch(&tv->table->ref_count, 1);
-    if (ref == 0)
+    ref = __sync_sub_and_fetch(&table->ref_count, 1);
+    if (ref <= 0 && table->persistent == LIBMSI_CONDITION_FALSE)
     {
-        if (!tv->table->row_count)
-        {
-            list_remove(&tv->table->entry);
-            free_table(tv->table);
-            table_view_delete(view);
-        }
+        /* nobody holds the temporary table any more */
+        table_view_remove_entry(tv);
+        list_remove(&table->entry);
+        free_table(table);
     }
 
     return ref;
@@ -2042,11 +2151,13 @@ static unsigned table_view_add_column(LibmsiView *view, const char *table, unsig
     libmsi_record_set_string(rec, 3, column);
     libmsi_record_set_int(rec, 4, type);
 
-    r = table_view_insert_row(&tv->view, rec, -1, false);
+    r = table_view_insert_row(&tv->view, rec, -1, type & MSITYPE_TEMPORARY);
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
-    msi_update_table_columns(tv->db, table);
+    r = msi_update_table_columns(tv->db, table);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto done;
 
     if (!hold)
         goto done;
@@ -2069,48 +2180,36 @@ done:
 static unsigned table_view_drop(LibmsiView *view)
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
-    LibmsiView *tables = NULL;
-    LibmsiRecord *rec = NULL;
-    unsigned r, row;
-    int i;
+    LibmsiTable *table = tv->table;
+    LibmsiView *columns = NULL;
+    unsigned r, row, id, val;
 
     TRACE("dropping table %s\n", debugstr_a(tv->name));
 
-    for (i = tv->table->col_count - 1; i >= 0; i--)
-    {
-        r = table_view_remove_column(view, tv->table->colinfo[i].tablename,
-                                tv->table->colinfo[i].number);
-        if (r != LIBMSI_RESULT_SUCCESS)
-            return r;
-    }
-
-    rec = libmsi_record_new(1);
-    if (!rec)
-        return LIBMSI_RESULT_OUTOFMEMORY;
-
-    libmsi_record_set_string(rec, 1, tv->name);
-
-    r = table_view_create(tv->db, szTables, &tables);
-    if (r != LIBMSI_RESULT_SUCCESS) {
-        g_object_unref(rec);
-        return r;
-    }
+    if (table->persistent == LIBMSI_CONDITION_NONE)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
 
-    r = msi_table_find_row((LibmsiTableView *)tables, rec, &row, NULL);
+    r = _libmsi_id_from_string_utf8(tv->db->strings, tv->name, &id);
     if (r != LIBMSI_RESULT_SUCCESS)
-        goto done;
+        return r;
 
-    r = table_view_delete_row(tables, row);
+    r = table_view_create(tv->db, szColumns, &columns);
     if (r != LIBMSI_RESULT_SUCCESS)
-        goto done;
-
-    list_remove(&tv->table->entry);
-    free_table(tv->table);
+        return r;
 
-done:
-    g_object_unref(rec);
-    tables->ops->delete(tables);
+    r = table_view_remove_entry(tv);
+    if (r == LIBMSI_RESULT_SUCCESS)
+    {
+        for (row = ((LibmsiTableView *)columns)->table->row_count; row > 0; row--)
+        {
+            if (columns->ops->fetch_int(columns, row - 1, 1, &val) == LIBMSI_RESULT_SUCCESS && val == id)
+                table_view_delete_row(columns, row - 1);
+        }
+        list_remove(&table->entry);
+        free_table(table);
+    }
 
+    columns->ops->delete(columns);
     return r;
 }
 
@@ -2168,6 +2267,7 @@ unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **v
     tv->view.ops = &table_ops;
     tv->db = db;
     table_view_attach( tv, table );
+    tv->removals = table->removals;
     table_view_sync( tv );
     tv->schema_cols = table->col_count;
     tv->schema = table_schema( table, table->col_count );
-- 
2.43.0


From 4de7ec57062762e7909363f3484e5a1e3d005ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 19/68] fix: skipping in a stream reports success as success

---
 libmsi/libmsi-istream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index e74e8fb..b612041 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -114,7 +114,7 @@ input_stream_skip (GInputStream *stream,
     LibmsiIStream *self = LIBMSI_ISTREAM (stream);
 
     count = MIN (count, gsf_input_remaining (self->input));
-    if (!gsf_input_seek (self->input, count, G_SEEK_CUR))
+    if (gsf_input_seek (self->input, count, G_SEEK_CUR))
         return -1;
 
     return count;
-- 
2.43.0


From b182703fb7c0b3c18aa9dceefb5c22e2ca5a4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 20/68] fix: _Streams and _Storages views stay within their
 rows, report failures and see what other queries changed

---
 libmsi/libmsi-database.c |  4 ++
 libmsi/msipriv.h         |  1 +
 libmsi/storages.c        | 77 ++++++++++++++++++++++++---------
 libmsi/streams.c         | 92 +++++++++++++++++++++++++++-------------
 4 files changed, 125 insertions(+), 49 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 66eff98..9560bb8 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -273,6 +273,7 @@ unsigned msi_create_storage( LibmsiDatabase *db, const char *stname, GsfInput *s
         }
     }
 
+    r = LIBMSI_RESULT_FUNCTION_FAILED;
     origstg = gsf_infile_msole_new(stm, NULL);
     if (origstg == NULL)
         goto done;
@@ -315,6 +316,7 @@ void msi_destroy_storage( LibmsiDatabase *db, const char *stname )
 
             list_remove( &storage->entry );
             g_object_unref(G_OBJECT(storage->stg));
+            msi_free( storage->name );
             msi_free( storage );
             break;
         }
@@ -525,6 +527,7 @@ void msi_destroy_stream( LibmsiDatabase *db, const char *stname )
 
             list_remove( &stream->entry );
             g_object_unref(G_OBJECT(stream->stm));
+            msi_free( stream->name );
             msi_free( stream );
             break;
         }
@@ -2478,6 +2481,7 @@ libmsi_database_commit (LibmsiDatabase *db, GError **error)
 
     free_cached_tables (db);
     close_infile (db);
+    db->generation++;
     db->flags &= ~LIBMSI_DB_FLAGS_CREATE;
     db->flags |= LIBMSI_DB_FLAGS_TRANSACT;
     r = _libmsi_database_open (db);
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index cff78fd..55d9d7c 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -103,6 +103,7 @@ struct _LibmsiDatabase
     bool rename_outpath;
     bool unlink_outpath;
     guint flags;
+    unsigned generation;    /* how often it was loaded again, by a commit */
     unsigned media_transform_offset;
     unsigned media_transform_disk_id;
     struct list tables;
diff --git a/libmsi/storages.c b/libmsi/storages.c
index 3914305..5853a7a 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -43,14 +43,18 @@ typedef struct _LibmsiStorageView
     unsigned max_storages;
     unsigned num_rows;
     unsigned row_size;
+    unsigned generation;
 } LibmsiStorageView;
 
+static unsigned add_storages_to_table(LibmsiStorageView *sv);
+
 static bool storages_set_table_size(LibmsiStorageView *sv, unsigned size)
 {
     if (size >= sv->max_storages)
     {
+        sv->storages = msi_realloc_zero(sv->storages, sv->max_storages * sizeof(STORAGE *),
+                                        sv->max_storages * 2 * sizeof(STORAGE *));
         sv->max_storages *= 2;
-        sv->storages = msi_realloc(sv->storages, sv->max_storages * sizeof(STORAGE *));
         if (!sv->storages)
             return false;
     }
@@ -80,6 +84,10 @@ static unsigned storages_view_fetch_int(LibmsiView *view, unsigned row, unsigned
     if (col != 1)
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
+    /* a commit gives the strings new numbers */
+    if (sv->generation != sv->db->generation)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     if (row >= sv->num_rows)
         return NO_MORE_ITEMS;
 
@@ -104,9 +112,9 @@ static unsigned storages_view_get_row( LibmsiView *view, unsigned row, LibmsiRec
 {
     LibmsiStorageView *sv = (LibmsiStorageView *)view;
 
-    g_warning("FIXME: %p %d %p\n", sv, row, rec);
+    TRACE("%p %d %p\n", sv, row, rec);
 
-    return LIBMSI_RESULT_CALL_NOT_IMPLEMENTED;
+    return msi_view_get_row( sv->db, view, row, rec );
 }
 
 static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiRecord *rec, unsigned mask)
@@ -114,12 +122,13 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
     LibmsiStorageView *sv = (LibmsiStorageView *)view;
     STORAGE *storage;
     GsfInput *stm;
+    const char *raw;
     char *name = NULL;
-    unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
+    unsigned r;
 
     TRACE("(%p, %p)\n", view, rec);
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows || sv->generation != sv->db->generation)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     r = _libmsi_record_get_gsf_input(rec, 2, &stm);
@@ -129,25 +138,34 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
     if (sv->storages[row]) {
         if (mask & 1) {
             g_warning("FIXME: renaming storage via UPDATE on _Storages table\n");
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
             goto done;
         }
 
-        storage = sv->storages[row];
-        name = strdup(msi_string_lookup_id(sv->db->strings, storage->str_index));
-    } else {
-        name = strdup(_libmsi_record_get_string_raw(rec, 1));
-    }
-    if (!name)
+        raw = msi_string_lookup_id(sv->db->strings, sv->storages[row]->str_index);
+    } else
+        raw = _libmsi_record_get_string_raw(rec, 1);
+
+    if (!raw || !*raw)
     {
-        r = LIBMSI_RESULT_OUTOFMEMORY;
+        g_warning("failed to retrieve storage name\n");
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto done;
     }
+    name = strdup(raw);
+
+    r = msi_create_storage(sv->db, name, stm);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto done;
 
-    msi_create_storage(sv->db, name, stm);
     storage = create_storage(sv, name);
     if (!storage)
+    {
         r = LIBMSI_RESULT_FUNCTION_FAILED;
+        goto done;
+    }
 
+    msi_free(sv->storages[row]);
     sv->storages[row] = storage;
 
 done:
@@ -160,16 +178,28 @@ done:
 static unsigned storages_view_insert_row(LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary)
 {
     LibmsiStorageView *sv = (LibmsiStorageView *)view;
+    unsigned i, r;
 
-    if (!storages_set_table_size(sv, ++sv->num_rows))
+    if (!storages_set_table_size(sv, sv->num_rows + 1))
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
+    sv->num_rows++;
     if (row == -1)
         row = sv->num_rows - 1;
 
-    /* FIXME have to readjust rows */
+    /* shift the rows to make room for the new row */
+    for (i = sv->num_rows - 1; i > row; i--)
+        sv->storages[i] = sv->storages[i - 1];
+    sv->storages[row] = NULL;
 
-    return storages_view_set_row(view, row, rec, 0);
+    r = storages_view_set_row(view, row, rec, 0);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        for (i = row + 1; i < sv->num_rows; i++)
+            sv->storages[i - 1] = sv->storages[i];
+        sv->num_rows--;
+    }
+    return r;
 }
 
 static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
@@ -178,7 +208,7 @@ static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
     const char *name;
     unsigned i;
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows || sv->generation != sv->db->generation)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     name = msi_string_lookup_id(sv->db->strings, sv->storages[row]->str_index);
@@ -189,6 +219,7 @@ static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
     }
 
     msi_destroy_storage(sv->db, name);
+    msi_free(sv->storages[row]);
 
     /* shift the remaining rows */
     for (i = row + 1; i < sv->num_rows; i++)
@@ -202,8 +233,15 @@ static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
 
 static unsigned storages_view_execute(LibmsiView *view, LibmsiRecord *record)
 {
+    LibmsiStorageView *sv = (LibmsiStorageView *)view;
+
     TRACE("(%p, %p)\n", view, record);
-    return LIBMSI_RESULT_SUCCESS;
+
+    /* other queries may have added or removed storages */
+    while (sv->num_rows)
+        msi_free(sv->storages[--sv->num_rows]);
+    msi_free(sv->storages);
+    return add_storages_to_table(sv);
 }
 
 static unsigned storages_view_close(LibmsiView *view)
@@ -293,7 +331,7 @@ static unsigned storages_view_find_matching_rows(LibmsiView *view, unsigned col,
     }
 
     *handle = (MSIITERHANDLE)(uintptr_t)++index;
-    if (index >= sv->num_rows)
+    if (index > sv->num_rows)
         return NO_MORE_ITEMS;
 
     return LIBMSI_RESULT_SUCCESS;
@@ -342,6 +380,7 @@ static unsigned add_storage_to_table(const char *name, GsfInfile *stg, void *opa
 
 static unsigned add_storages_to_table(LibmsiStorageView *sv)
 {
+    sv->generation = sv->db->generation;
     sv->max_storages = 1;
     sv->storages = msi_alloc_zero(sizeof(STORAGE *));
     if (!sv->storages)
diff --git a/libmsi/streams.c b/libmsi/streams.c
index 025e53c..9c18a9b 100644
--- a/libmsi/streams.c
+++ b/libmsi/streams.c
@@ -43,8 +43,11 @@ typedef struct _LibmsiStreamsView
     unsigned max_streams;
     unsigned num_rows;
     unsigned row_size;
+    unsigned generation;
 } LibmsiStreamsView;
 
+static unsigned add_streams_to_table(LibmsiStreamsView *sv);
+
 static bool streams_set_table_size(LibmsiStreamsView *sv, unsigned size)
 {
     if (size >= sv->max_streams)
@@ -83,6 +86,15 @@ static STREAM *create_stream(LibmsiStreamsView *sv, const char *name, bool encod
     return stream;
 }
 
+static void free_stream(STREAM *stream)
+{
+    if (!stream)
+        return;
+    if (stream->stream)
+        g_object_unref(G_OBJECT(stream->stream));
+    msi_free(stream);
+}
+
 static unsigned streams_view_fetch_int(LibmsiView *view, unsigned row, unsigned col, unsigned *val)
 {
     LibmsiStreamsView *sv = (LibmsiStreamsView *)view;
@@ -92,6 +104,10 @@ static unsigned streams_view_fetch_int(LibmsiView *view, unsigned row, unsigned
     if (col != 1)
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
+    /* a commit gives the strings new numbers */
+    if (sv->generation != sv->db->generation)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     if (row >= sv->num_rows)
         return NO_MORE_ITEMS;
 
@@ -127,14 +143,15 @@ static unsigned streams_view_get_row( LibmsiView *view, unsigned row, LibmsiReco
 static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecord *rec, unsigned mask)
 {
     LibmsiStreamsView *sv = (LibmsiStreamsView *)view;
-    STREAM *stream = NULL;
+    STREAM *stream;
     GsfInput *stm;
+    const char *raw;
     char *name = NULL;
     unsigned r;
 
     TRACE("(%p, %d, %p, %08x)\n", view, row, rec, mask);
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows || sv->generation != sv->db->generation)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     r = _libmsi_record_get_gsf_input(rec, 2, &stm);
@@ -144,34 +161,37 @@ static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecor
     if (sv->streams[row]) {
         if (mask & 1) {
             g_warning("FIXME: renaming stream via UPDATE on _Streams table");
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
             goto done;
         }
 
-        stream = sv->streams[row];
-        name = strdup(msi_string_lookup_id(sv->db->strings, stream->str_index));
-    } else {
-        name = strdup(_libmsi_record_get_string_raw(rec, 1));
-        if (!name)
-        {
-            g_warning("failed to retrieve stream name\n");
-            goto done;
-        }
+        raw = msi_string_lookup_id(sv->db->strings, sv->streams[row]->str_index);
+    } else
+        raw = _libmsi_record_get_string_raw(rec, 1);
 
-        stream = create_stream(sv, name, false, stm);
-    }
-
-    if (!stream)
+    if (!raw || !*raw)
+    {
+        g_warning("failed to retrieve stream name\n");
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto done;
+    }
+    name = strdup(raw);
 
     r = msi_create_stream(sv->db, name, stm);
     if (r != LIBMSI_RESULT_SUCCESS)
     {
         g_warning("failed to create stream: %08x\n", r);
-        g_object_unref(G_OBJECT(stream->stream));
-        msi_free(stream);
         goto done;
     }
 
+    stream = create_stream(sv, name, false, stm);
+    if (!stream)
+    {
+        r = LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
+        goto done;
+    }
+
+    free_stream(sv->streams[row]);
     sv->streams[row] = stream;
 
 done:
@@ -185,13 +205,14 @@ done:
 static unsigned streams_view_insert_row(LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary)
 {
     LibmsiStreamsView *sv = (LibmsiStreamsView *)view;
-    unsigned i;
+    unsigned i, r;
 
     TRACE("(%p, %p, %d, %d)\n", view, rec, row, temporary);
 
-    if (!streams_set_table_size(sv, ++sv->num_rows))
+    if (!streams_set_table_size(sv, sv->num_rows + 1))
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
+    sv->num_rows++;
     if (row == -1)
         row = sv->num_rows - 1;
 
@@ -200,8 +221,16 @@ static unsigned streams_view_insert_row(LibmsiView *view, LibmsiRecord *rec, uns
     {
         sv->streams[i] = sv->streams[i - 1];
     }
+    sv->streams[row] = NULL;
 
-    return streams_view_set_row(view, row, rec, 0);
+    r = streams_view_set_row(view, row, rec, 0);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        for (i = row + 1; i < sv->num_rows; i++)
+            sv->streams[i - 1] = sv->streams[i];
+        sv->num_rows--;
+    }
+    return r;
 }
 
 static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
@@ -211,7 +240,7 @@ static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
     char *encname;
     unsigned i;
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows || sv->generation != sv->db->generation)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     name = msi_string_lookup_id(sv->db->strings, sv->streams[row]->str_index);
@@ -223,6 +252,8 @@ static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
 
     encname = encode_streamname(false, name);
     msi_destroy_stream(sv->db, encname);
+    msi_free(encname);
+    free_stream(sv->streams[row]);
 
     /* shift the remaining rows */
     for (i = row + 1; i < sv->num_rows; i++)
@@ -236,8 +267,15 @@ static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
 
 static unsigned streams_view_execute(LibmsiView *view, LibmsiRecord *record)
 {
+    LibmsiStreamsView *sv = (LibmsiStreamsView *)view;
+
     TRACE("(%p, %p)\n", view, record);
-    return LIBMSI_RESULT_SUCCESS;
+
+    /* other queries may have added or removed streams */
+    while (sv->num_rows)
+        free_stream(sv->streams[--sv->num_rows]);
+    msi_free(sv->streams);
+    return add_streams_to_table(sv);
 }
 
 static unsigned streams_view_close(LibmsiView *view)
@@ -295,14 +333,7 @@ static unsigned streams_view_delete(LibmsiView *view)
     TRACE("(%p)\n", view);
 
     for (i = 0; i < sv->num_rows; i++)
-    {
-        if (sv->streams[i])
-        {
-            if (sv->streams[i]->stream)
-                g_object_unref(G_OBJECT(sv->streams[i]->stream));
-            msi_free(sv->streams[i]);
-        }
-    }
+        free_stream(sv->streams[i]);
 
     msi_free(sv->streams);
     msi_free(sv);
@@ -383,6 +414,7 @@ static unsigned add_stream_to_table(const char *name, GsfInput *stm, void *opaqu
 
 static unsigned add_streams_to_table(LibmsiStreamsView *sv)
 {
+    sv->generation = sv->db->generation;
     sv->max_streams = 1;
     sv->streams = msi_alloc_zero(sizeof(STREAM *));
     if (!sv->streams)
-- 
2.43.0


From 235a86eeea39af43022cf570c0c6115360e87494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 21/68] fix: a fetch that cannot read a column is an error;
 closing or asking a query without view is safe

---
 libmsi/libmsi-query.c | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index ae8d221..9c49d48 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -310,10 +310,7 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
     {
         ret = view->ops->get_column_info(view, i, NULL, &type, NULL, NULL);
         if (ret)
-        {
-            g_critical("Error getting column type for %d\n", i);
-            continue;
-        }
+            goto err;
 
         if (MSITYPE_IS_BINARY(type))
         {
@@ -333,10 +330,7 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
 
         ret = view->ops->fetch_int(view, row, i, &ival);
         if (ret)
-        {
-            g_critical("Error fetching data for %d\n", i);
-            continue;
-        }
+            goto err;
 
         if (! (type & MSITYPE_VALID))
             g_critical("Invalid type!\n");
@@ -362,6 +356,12 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
     }
 
     return LIBMSI_RESULT_SUCCESS;
+
+err:
+    /* the table is not what it was when the query was executed */
+    g_object_unref(*rec);
+    *rec = NULL;
+    return ret;
 }
 
 LibmsiResult _libmsi_query_fetch(LibmsiQuery *query, LibmsiRecord **prec)
@@ -438,12 +438,10 @@ libmsi_query_close (LibmsiQuery *query, GError **error)
 
     g_object_ref(query);
     view = query->view;
-    if( !view )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
-    if( !view->ops->close )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
-
-    ret = view->ops->close( view );
+    if( view && view->ops->close )
+        ret = view->ops->close( view );
+    else
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(query);
 
     /* FIXME: raise error when it happens */
@@ -577,7 +575,10 @@ LibmsiResult _libmsi_query_get_column_info( LibmsiQuery *query, LibmsiColInfo in
         name = NULL;
         r = view->ops->get_column_info( view, i+1, &name, &type, &temporary, NULL );
         if( r != LIBMSI_RESULT_SUCCESS )
-            continue;
+        {
+            g_object_unref(rec);
+            return r;
+        }
         if (info == LIBMSI_COL_INFO_NAMES)
             libmsi_record_set_string( rec, i+1, name );
         else
@@ -601,7 +602,7 @@ LibmsiResult _libmsi_query_get_column_info( LibmsiQuery *query, LibmsiColInfo in
 LibmsiRecord *
 libmsi_query_get_column_info (LibmsiQuery *query, LibmsiColInfo info, GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %d\n", query, info);
@@ -639,9 +640,9 @@ libmsi_query_get_error (LibmsiQuery *query, gchar **column, GError **error)
     g_return_if_fail (!error || *error == NULL);
 
     v = query->view;
-    if (v->error != LIBMSI_DB_ERROR_SUCCESS) {
+    if (v && v->error != LIBMSI_DB_ERROR_SUCCESS) {
         /* FIXME: view could have a GError with message? */
-        g_set_error (error, LIBMSI_DB_ERROR, v->error, G_STRFUNC);
+        g_set_error_literal (error, LIBMSI_DB_ERROR, v->error, G_STRFUNC);
         if (column)
             *column = g_strdup (v->error_column);
     }
-- 
2.43.0


From 21b5785035a404b938d70fee89120386c6430f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 22/68] fix: ORDER BY sorts by all its columns, not several
 times by the first

---
 libmsi/where.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmsi/where.c b/libmsi/where.c
index 182250c..f589482 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -987,6 +987,8 @@ static unsigned where_view_sort(LibmsiView *view, column_info *columns)
         r = parse_column(wv, &orderinfo->columns[i], NULL);
         if (r != LIBMSI_RESULT_SUCCESS)
             goto error;
+
+        column = column->next;
     }
 
     wv->order_info = orderinfo;
-- 
2.43.0


From 154f529d170431bfd30bc5f2d92006b58c078ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 23/68] fix: a table stream that cannot be read is an error,
 not an empty table; streams are read from their start

---
 libmsi/libmsi-istream.c |  9 ++++++++-
 libmsi/libmsi-record.c  |  4 ++++
 libmsi/table.c          | 36 +++++++++++++++++++++++++++++-------
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index b612041..c59c338 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -146,7 +146,14 @@ G_GNUC_INTERNAL LibmsiIStream *
 libmsi_istream_new (GsfInput *input)
 {
     GsfInput *dup = gsf_input_dup (input, NULL);
-    g_return_val_if_fail (dup, NULL);
+    if (!dup)
+        return NULL;
+
+    /* a duplicate starts where its original stands */
+    if (gsf_input_seek (dup, 0, G_SEEK_SET)) {
+        g_object_unref (dup);
+        return NULL;
+    }
 
     LibmsiIStream *self = g_object_new (LIBMSI_TYPE_ISTREAM, NULL);
     self->input = dup;
diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index 382ed29..ad14029 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -491,10 +491,14 @@ static unsigned _libmsi_addstream_from_file(const char *szFile, GsfInput **pstm)
     {
         data = g_try_malloc(sz);
         if (!data)
+        {
+            g_object_unref(G_OBJECT(stm));
             return LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
+        }
 
         if (!gsf_input_read(stm, sz, data))
         {
+            g_free(data);
             g_object_unref(G_OBJECT(stm));
             return LIBMSI_RESULT_FUNCTION_FAILED;
         }
diff --git a/libmsi/table.c b/libmsi/table.c
index 29aa01a..9b0c8d2 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -255,6 +255,21 @@ void enum_stream_names( GsfInfile *stg )
     }
 }
 
+static bool has_stream( GsfInfile *stg, const char *encname )
+{
+    int i, n = gsf_infile_num_children( stg );
+
+    for (i = 0; i < n; i++)
+    {
+        const char *name = gsf_infile_name_by_index( stg, i );
+
+        if (name && !strcmp( name, encname ))
+            return true;
+    }
+    return false;
+}
+
+/* LIBMSI_RESULT_NOT_FOUND: there is no such stream */
 unsigned read_stream_data( GsfInfile *stg, const char *stname,
                        uint8_t **pdata, unsigned *psz )
 {
@@ -264,20 +279,23 @@ unsigned read_stream_data( GsfInfile *stg, const char *stname,
     GsfInput *stm = NULL;
     char *encname;
 
+    if ( !stg )
+        return LIBMSI_RESULT_NOT_FOUND;
+
     encname = encode_streamname(true, stname);
 
     TRACE("%s -> %s\n",debugstr_a(stname),debugstr_a(encname));
 
-    if ( !stg )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
-
     stm = gsf_infile_child_by_name(stg, encname );
-    msi_free(encname);
     if( !stm )
     {
         TRACE("open stream failed - empty table?\n");
+        if( !has_stream( stg, encname ) )
+            ret = LIBMSI_RESULT_NOT_FOUND;
+        msi_free(encname);
         return ret;
     }
+    msi_free(encname);
 
     if( gsf_input_size(stm) >> 32 )
     {
@@ -401,15 +419,19 @@ static unsigned msi_table_get_row_size( LibmsiDatabase *db, const LibmsiColumnIn
 static unsigned read_table_from_storage( LibmsiDatabase *db, LibmsiTable *t, GsfInfile *stg )
 {
     uint8_t *rawdata = NULL;
-    unsigned rawsize = 0, i, j, row_size, row_size_mem;
+    unsigned r, rawsize = 0, i, j, row_size, row_size_mem;
 
     TRACE("%s\n",debugstr_a(t->name));
 
     row_size = msi_table_get_row_size( db, t->colinfo, t->col_count, db->bytes_per_strref );
     row_size_mem = msi_table_get_row_size( db, t->colinfo, t->col_count, LONG_STR_BYTES );
 
-    /* if we can't read the table, just assume that it's empty */
-    read_stream_data( stg, t->name, &rawdata, &rawsize );
+    /* a table without a stream is empty, one that can't be read is not */
+    r = read_stream_data( stg, t->name, &rawdata, &rawsize );
+    if( r == LIBMSI_RESULT_NOT_FOUND )
+        return LIBMSI_RESULT_SUCCESS;
+    if( r != LIBMSI_RESULT_SUCCESS )
+        return r;
     if( !rawdata )
         return LIBMSI_RESULT_SUCCESS;
 
-- 
2.43.0


From d55dbdb06eacc57b59433e367c79aab8cc42c93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 24/68] fix: read summary information within its bounds; asking
 for an absent property or another type invents no value

---
 libmsi/libmsi-summary-info.c | 77 ++++++++++++++++++++++++++----------
 libmsi/msipriv.h             |  1 +
 2 files changed, 57 insertions(+), 21 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 2e7f513..8c011a1 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -129,7 +129,8 @@ libmsi_summary_info_constructed (GObject *object)
     if (self->database) {
         r = msi_get_raw_stream (self->database, szSumInfo, &stm);
         if (r == 0) {
-            load_summary_info (self, stm);
+            r = load_summary_info (self, stm);
+            self->unreadable = r == LIBMSI_RESULT_INVALID_DATA || r == LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
             g_object_unref (G_OBJECT (stm));
         }
     }
@@ -322,37 +323,42 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
     for( i = 0; i < cProperties; i++ )
     {
         valid = TRUE;
-        int propid = read_dword(data, &idofs);
-        unsigned dwOffset = read_dword(data, &idofs);
-        int proptype;
+        unsigned propid, dwOffset, proptype;
 
-        if( propid >= MSI_MAX_PROPS )
+        if( idofs > sz || sz - idofs < 8 )
         {
-            g_critical("Unknown property ID %d\n", propid );
+            g_critical("not enough data for %u properties\n", cProperties);
             break;
         }
+        propid = read_dword(data, &idofs);
+        dwOffset = read_dword(data, &idofs);
+
+        if( propid >= MSI_MAX_PROPS )
+        {
+            g_critical("Unknown property ID %u\n", propid );
+            continue;
+        }
 
         type = get_type( propid );
         if( type == OLEVT_EMPTY )
         {
-            g_critical("propid %d has unknown type\n", propid);
-            break;
+            g_critical("propid %u has unknown type\n", propid);
+            continue;
         }
 
         property = &prop[ propid ];
 
-        if( dwOffset + 4 > sz )
+        if( dwOffset > sz || sz - dwOffset < 8 )
         {
             g_critical("not enough data for type %d %d \n", dwOffset, sz);
             break;
         }
 
         proptype = read_dword(data, &dwOffset);
-        if( dwOffset + 4 > sz )
-        {
-            g_critical("not enough data for type %d %d \n", dwOffset, sz);
-            break;
-        }
+
+        /* the first of several values for a property counts */
+        if( property->vt != OLEVT_EMPTY )
+            continue;
 
         switch(proptype)
         {
@@ -361,7 +367,7 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
             property->intval = read_dword(data, &dwOffset);
             break;
         case OLEVT_FILETIME:
-            if( dwOffset + 8 > sz )
+            if( sz - dwOffset < 8 )
             {
                 g_critical("not enough data for type %d %d \n", dwOffset, sz);
                 valid = FALSE;
@@ -372,7 +378,7 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
             break;
         case OLEVT_LPSTR:
             len = read_dword(data, &dwOffset);
-            if(len == 0 || dwOffset + len > sz )
+            if(len == 0 || len > sz - dwOffset )
             {
                 g_critical("not enough data for type %d %d %d \n", dwOffset, len, sz);
                 valid = FALSE;
@@ -383,7 +389,9 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
             str[ len - 1 ] = 0;
             break;
         default:
-            g_warn_if_reached ();
+            g_critical("unknown type %u of property %u\n", proptype, propid);
+            valid = FALSE;
+            break;
         }
 
         if (valid == FALSE) {
@@ -438,7 +446,17 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
         return LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
 
     if (!gsf_input_read(stm, sz, data))
+    {
+        ret = LIBMSI_RESULT_INVALID_DATA;
         goto done;
+    }
+
+    /* set header, format header and section header */
+    if( sz < 28 + 20 )
+    {
+        g_critical("property set too short\n");
+        goto done;
+    }
 
     /* process the set header */
     ofs = 0;
@@ -458,10 +476,17 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
     /* seek to the location of the section */
     ofs += 16;
     ofs = dwOffset = read_dword(data, &ofs);
+    if( dwOffset > sz || sz - dwOffset < 8 )
+    {
+        g_critical("section outside of the property set\n");
+        goto done;
+    }
 
     /* read the section itself */
     cbSection = read_dword( data, &ofs );
     cProperties = read_dword( data, &ofs );
+    if( cbSection > sz - dwOffset )
+        cbSection = sz - dwOffset;
 
     if( cProperties > MSI_MAX_PROPS )
     {
@@ -473,6 +498,7 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
     read_properties_from_data( si->property,
                                &data[dwOffset],
                                cbSection, cProperties );
+    ret = LIBMSI_RESULT_SUCCESS;
 
 done:
     msi_free( data );
@@ -724,6 +750,10 @@ static void _summary_info_get_property (LibmsiSummaryInfo *si, unsigned uiProper
         g_return_if_reached ();
     }
 
+    if (type != LIBMSI_PROPERTY_TYPE_EMPTY && puiDataType && *puiDataType != type)
+        g_set_error (error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_DATATYPE_MISMATCH,
+                     "Property of another type");
+
     if (puiDataType)
         *puiDataType = type;
 
@@ -743,7 +773,7 @@ libmsi_summary_info_get_int (LibmsiSummaryInfo *self, LibmsiProperty prop,
                              GError **error)
 {
     LibmsiPropertyType type;
-    gint val;
+    gint val = -1;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), -1);
     g_return_val_if_fail (!error || *error == NULL, -1);
@@ -768,7 +798,7 @@ libmsi_summary_info_get_filetime (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                   GError **error)
 {
     LibmsiPropertyType type;
-    guint64 val;
+    guint64 val = 0;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), 0);
     g_return_val_if_fail (!error || *error == NULL, 0);
@@ -793,7 +823,7 @@ libmsi_summary_info_get_string (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                 GError **error)
 {
     LibmsiPropertyType type;
-    const gchar *str;
+    const gchar *str = NULL;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), FALSE);
     g_return_val_if_fail (!error || *error == NULL, FALSE);
@@ -832,7 +862,7 @@ static LibmsiResult _libmsi_summary_info_set_property( LibmsiSummaryInfo *si, un
     }
     else if( prop->vt != type )
     {
-        ret = LIBMSI_RESULT_SUCCESS;
+        ret = LIBMSI_RESULT_DATATYPE_MISMATCH;
         goto end;
     }
 
@@ -1140,6 +1170,11 @@ libmsi_summary_info_new (LibmsiDatabase *database, unsigned update_count,
                          "database", database,
                          "update-count", update_count,
                          NULL);
+    if (self->unreadable) {
+        g_set_error_literal (error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_INVALID_DATA, G_STRFUNC);
+        g_object_unref (self);
+        return NULL;
+    }
 
     return self;
 }
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 55d9d7c..42afe3d 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -317,6 +317,7 @@ struct _LibmsiSummaryInfo
     LibmsiDatabase *database;
     unsigned update_count;
     LibmsiOLEVariant property[MSI_MAX_PROPS];
+    gboolean unreadable;
 };
 
 typedef struct _LibmsiIStream LibmsiIStream;
-- 
2.43.0


From 987f09d62492e8be2aed45724d347b990c51b1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:56 +0000
Subject: [PATCH 25/68] fix: archives are parsed within their bounds and
 checked before rows are deleted; export escapes values and reports write
 errors

---
 libmsi/libmsi-database.c     | 320 +++++++++++++++++++++++------------
 libmsi/libmsi-summary-info.c |   9 +-
 2 files changed, 216 insertions(+), 113 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 9560bb8..96e9bdb 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -18,6 +18,7 @@
  * Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA 02110-1301, USA
  */
 
+#include <errno.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <unistd.h>
@@ -724,77 +725,62 @@ static char *msi_read_text_archive(const char *path, unsigned *len)
     if (!g_file_get_contents(path, &data, &nread, NULL))
         return NULL;
 
-    while (!data[nread - 1]) nread--;
+    while (nread && !data[nread - 1]) nread--;
     *len = nread;
     return data;
 }
 
+/* Characters that would end a field or a row have stand-ins in an archive. */
+static char unescape_char(char c)
+{
+    switch (c)
+    {
+    case '\0':   return '\n';
+    case '\x10': return '\t';
+    case '\x11': return '\r';
+    case '\x19': return '\n';
+    default:     return c;
+    }
+}
+
 static void msi_parse_line(char **line, char ***entries, unsigned *num_entries, unsigned *len)
 {
-    char *ptr = *line;
-    char *save;
-    unsigned i, count = 1, chars_left = *len;
+    char *ptr, *end, *next;
+    unsigned i, count = 1;
 
     *entries = NULL;
 
     /* stay on this line */
-    while (chars_left && *ptr != '\n')
-    {
-        /* entries are separated by tabs */
+    end = memchr(*line, '\n', *len);
+    next = end ? end + 1 : *line + *len;
+    if (!end)
+        end = next;
+    while (end > *line && end[-1] == '\r')
+        end--;
+
+    /* entries are separated by tabs */
+    for (ptr = *line; ptr < end; ptr++)
         if (*ptr == '\t')
             count++;
 
-        ptr++;
-        chars_left--;
-    }
-
     *entries = msi_alloc(count * sizeof(char *));
     if (!*entries)
         return;
 
-    /* store pointers into the data */
-    chars_left = *len;
+    /* store pointers into the data, which is NULL-separated */
     for (i = 0, ptr = *line; i < count; i++)
     {
-        while (chars_left && *ptr == '\r')
-        {
-            ptr++;
-            chars_left--;
-        }
-        save = ptr;
-
-        while (chars_left && *ptr != '\t' && *ptr != '\n' && *ptr != '\r')
-        {
-            if (!*ptr) *ptr = '\n'; /* convert embedded nulls to \n */
-            if (ptr > *line && *ptr == '\x19' && *(ptr - 1) == '\x11')
-            {
-                *ptr = '\n';
-                *(ptr - 1) = '\r';
-            }
+        while (ptr < end && *ptr == '\r')
             ptr++;
-            chars_left--;
-        }
-
-        /* NULL-separate the data */
-        if (*ptr == '\n' || *ptr == '\r')
-        {
-            while (chars_left && (*ptr == '\n' || *ptr == '\r'))
-            {
-                *(ptr++) = 0;
-                chars_left--;
-            }
-        }
-        else if (*ptr)
-        {
-            *(ptr++) = 0;
-            chars_left--;
-        }
-        (*entries)[i] = save;
+        (*entries)[i] = ptr;
+        for (; ptr < end && *ptr != '\t'; ptr++)
+            *ptr = unescape_char(*ptr);
+        *(ptr++) = 0;
     }
 
     /* move to the next line if there's more, else EOF */
-    *line = ptr;
-    *len = chars_left;
+    *len -= next - *line;
+    *line = next;
     if (num_entries)
         *num_entries = count;
 }
@@ -817,15 +803,14 @@ static char *msi_build_createsql_prelude(char *table)
 
 static char *msi_build_createsql_columns(char **columns_data, char **types, unsigned num_columns)
 {
-    char *columns;
-    char *p;
+    GString *columns = g_string_new("");
     const char *type;
-    unsigned sql_size = 1, i, len;
-    char expanded[128], *ptr;
-    char size[10], comma[2], extra[30];
+    unsigned i, len;
+    char *ptr;
+    char size[16], comma[2], extra[30];
 
     static const char column_fmt[] = "`%s` %s%s%s%s ";
-    static const char size_fmt[] = "(%s)";
+    static const char size_fmt[] = "(%u)";
     static const char type_char[] = "CHAR";
     static const char type_int[] = "INT";
     static const char type_long[] = "LONG";
@@ -833,10 +818,6 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
     static const char type_notnull[] = " NOT NULL";
     static const char localizable[] = " LOCALIZABLE";
 
-    columns = msi_alloc_zero(sql_size * sizeof(char));
-    if (!columns)
-        return NULL;
-
     for (i = 0; i < num_columns; i++)
     {
         type = NULL;
@@ -848,6 +829,13 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
             comma[0] = ',';
 
         ptr = &types[i][1];
+        len = strspn(ptr, "0123456789");
+        if (len > 9 || ptr[len] || strchr(columns_data[i], '`'))
+        {
+            g_warning("invalid type %s of column %s\n", types[i], columns_data[i]);
+            g_string_free(columns, TRUE);
+            return NULL;
+        }
         len = atol(ptr);
         extra[0] = '\0';
 
@@ -859,14 +847,14 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
             case 'L':
                 strcat(extra, localizable);
                 type = type_char;
-                sprintf(size, size_fmt, ptr);
+                sprintf(size, size_fmt, len);
                 break;
             case 's':
                 strcpy(extra, type_notnull);
                 /* fall through */
             case 'S':
                 type = type_char;
-                sprintf(size, size_fmt, ptr);
+                sprintf(size, size_fmt, len);
                 break;
             case 'i':
                 strcpy(extra, type_notnull);
@@ -879,7 +867,7 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
                 else
                 {
                     g_warning("invalid int width %u\n", len);
-                    msi_free(columns);
+                    g_string_free(columns, TRUE);
                     return NULL;
                 }
                 break;
@@ -891,25 +879,14 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
                 break;
             default:
                 g_critical("Unknown type: %c\n", types[i][0]);
-                msi_free(columns);
+                g_string_free(columns, TRUE);
                 return NULL;
         }
 
-        sprintf(expanded, column_fmt, columns_data[i], type, size, extra, comma);
-        sql_size += strlen(expanded);
-
-        p = msi_realloc(columns, sql_size * sizeof(char));
-        if (!p)
-        {
-            msi_free(columns);
-            return NULL;
-        }
-        columns = p;
-
-        strcat(columns, expanded);
+        g_string_append_printf(columns, column_fmt, columns_data[i], type, size, extra, comma);
     }
 
-    return columns;
+    return g_string_free(columns, FALSE);
 }
 
 static char *msi_build_createsql_postlude(char **primary_keys, unsigned num_keys)
@@ -954,7 +931,7 @@ done:
 static unsigned msi_add_table_to_db(LibmsiDatabase *db, char **columns, char **types, char **labels, unsigned num_labels, unsigned num_columns)
 {
     unsigned r = LIBMSI_RESULT_OUTOFMEMORY;
-    unsigned size;
+    unsigned size, i;
     LibmsiQuery *view = NULL;
     char *create_sql = NULL;
     char *prelude;
@@ -962,6 +939,13 @@ static unsigned msi_add_table_to_db(LibmsiDatabase *db, char **columns, char **t
     char *postlude;
     GError *error = NULL; // FIXME: move error handling to caller
 
+    /* a table has a name and keys */
+    if (num_labels < 2)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+    for (i = 0; i < num_labels; i++)
+        if (strchr(labels[i], '`'))
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+
     prelude = msi_build_createsql_prelude(labels[0]);
     columns_sql = msi_build_createsql_columns(columns, types, num_columns);
     postlude = msi_build_createsql_postlude(labels + 1, num_labels - 1); /* skip over table name */
@@ -1017,7 +1001,18 @@ static unsigned construct_record(unsigned num_columns, char **types,
                 break;
             case 'I': case 'i':
                 if (*data[i])
-                    libmsi_record_set_int(*rec, i + 1, atoi(data[i]));
+                {
+                    char *end;
+                    gint64 val = g_ascii_strtoll(data[i], &end, 10);
+
+                    if (*end || val <= G_MININT32 || val > G_MAXINT32)
+                    {
+                        g_warning("invalid integer %s\n", data[i]);
+                        g_object_unref(*rec);
+                        return LIBMSI_RESULT_FUNCTION_FAILED;
+                    }
+                    libmsi_record_set_int(*rec, i + 1, val);
+                }
                 break;
             case 'V': case 'v':
                 if (*data[i])
@@ -1027,7 +1022,10 @@ static unsigned construct_record(unsigned num_columns, char **types,
                     r = _libmsi_record_load_stream_from_file(*rec, i + 1, file);
                     g_free (file);
                     if (r != LIBMSI_RESULT_SUCCESS)
+                    {
+                        g_object_unref(*rec);
                         return LIBMSI_RESULT_FUNCTION_FAILED;
+                    }
                 }
                 break;
             default:
@@ -1055,7 +1053,35 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
 
     r = view->ops->get_dimensions( view, &num_rows, &num_cols );
     if (r != LIBMSI_RESULT_SUCCESS)
-        return r;
+        goto done;
+
+    /* the archive must describe the table that is there */
+    if (num_cols != num_columns)
+    {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+        goto done;
+    }
+    for (i = 0; i < num_columns; i++)
+    {
+        const char *name;
+        unsigned type;
+        bool is_string, is_binary;
+
+        r = view->ops->get_column_info( view, i + 1, &name, &type, NULL, NULL );
+        if (r != LIBMSI_RESULT_SUCCESS)
+            goto done;
+
+        is_binary = MSITYPE_IS_BINARY(type);
+        is_string = !is_binary && (type & MSITYPE_STRING);
+        if (strcmp( name, columns[i] ) ||
+            is_binary != (types[i][0] == 'v' || types[i][0] == 'V') ||
+            is_string != (types[i][0] && strchr( "lLsS", types[i][0] )))
+        {
+            g_warning("column %s does not match the table\n", columns[i]);
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+            goto done;
+        }
+    }
 
     while (num_rows > 0)
     {
@@ -1115,10 +1141,13 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     msi_parse_line( &ptr, &types, &num_types, &len );
     msi_parse_line( &ptr, &labels, &num_labels, &len );
 
-    if (num_columns == 1 && !columns[0][0] && num_labels == 1 && !labels[0][0] &&
-        num_types == 2 && !strcmp( types[1], forcecodepage ))
+    if (!columns || !types || !labels)
+        goto done;
+
+    if (num_columns == 1 && !columns[0][0] && num_types == 1 && !types[0][0] &&
+        num_labels == 2 && !strcmp( labels[1], forcecodepage ))
     {
-        r = msi_set_string_table_codepage( db->strings, atoi( types[0] ) );
+        r = msi_set_string_table_codepage( db->strings, atoi( labels[0] ) );
         goto done;
     }
 
@@ -1138,9 +1167,31 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     /* read in the table records */
     while (len)
     {
-        msi_parse_line( &ptr, &records[num_records], NULL, &len );
+        unsigned num_entries = 0;
+
+        msi_parse_line( &ptr, &records[num_records], &num_entries, &len );
+        if (!records[num_records])
+        {
+            r = LIBMSI_RESULT_OUTOFMEMORY;
+            goto done;
+        }
+
+        /* a blank line is a row only where a single NULL can be one */
+        if (num_entries == 1 && !records[num_records][0][0] &&
+            (num_columns > 1 || !g_ascii_isupper( types[0][0] )))
+        {
+            msi_free(records[num_records]);
+            continue;
+        }
 
         num_records++;
+        if (num_entries != num_columns)
+        {
+            g_warning("row %u has %u fields instead of %u\n", num_records, num_entries, num_columns);
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+            goto done;
+        }
+
         temp_records = msi_realloc(records, (num_records + 1) * sizeof(char **));
         if (!temp_records)
         {
@@ -1221,6 +1272,42 @@ libmsi_database_import (LibmsiDatabase *db,
     return r == LIBMSI_RESULT_SUCCESS;
 }
 
+static gboolean
+msi_export_write (int fd, const char *data, gsize len)
+{
+    while (len) {
+        gssize n = write (fd, data, len);
+
+        if (n < 0 && errno == EINTR)
+            continue;
+        if (n <= 0)
+            return FALSE;
+        data += n;
+        len -= n;
+    }
+
+    return TRUE;
+}
+
+static gboolean
+msi_export_field (int fd, const char *str)
+{
+    g_autofree char *escaped = g_strdup (str);
+    char *p;
+
+    /* characters that would end a field or a row have stand-ins */
+    for (p = escaped; *p; p++) {
+        if (*p == '\t')
+            *p = '\x10';
+        else if (*p == '\r')
+            *p = '\x11';
+        else if (*p == '\n')
+            *p = '\x19';
+    }
+
+    return msi_export_write (fd, escaped, p - escaped);
+}
+
 static gboolean
 msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
                    GError **error)
@@ -1230,21 +1317,28 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
     GInputStream *in = NULL;
     GOutputStream *out = NULL;
     gssize spliced = -1;
+    const char *name = g_object_get_data (G_OBJECT (gsfin), "stname");
 
-    if (!table_dir)
+    if (!table_dir || !name || strchr (name, '/'))
         goto end;
 
     if (!g_file_make_directory_with_parents (table_dir, NULL, &err) &&
         !g_error_matches (err, G_IO_ERROR, G_IO_ERROR_EXISTS)) {
         g_propagate_error (error, err);
+        err = NULL;
         goto end;
     }
 
-    *str = g_strdup (g_object_get_data (G_OBJECT (gsfin), "stname"));
-    file = g_file_get_child (table_dir, *str);
-    out = G_OUTPUT_STREAM (g_file_replace (file, NULL, FALSE, 0, NULL, error));
+    file = g_file_get_child (table_dir, name);
     in = G_INPUT_STREAM (libmsi_istream_new (gsfin));
-    spliced = g_output_stream_splice (out, in, 0, NULL, NULL);
+    if (!in)
+        goto end;
+    out = G_OUTPUT_STREAM (g_file_replace (file, NULL, FALSE, 0, NULL, error));
+    if (!out)
+        goto end;
+    spliced = g_output_stream_splice (out, in, G_OUTPUT_STREAM_SPLICE_CLOSE_TARGET, NULL, error);
+    if (spliced != -1)
+        *str = g_strdup (name);
 
 end:
     g_clear_error (&err);
@@ -1282,8 +1376,7 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
                 goto end;
         }
 
-        /* TODO full_write */
-        if (write (fd, str, strlen (str)) != strlen (str)) {
+        if (!msi_export_field (fd, str)) {
             g_free (str);
             goto end;
         }
@@ -1291,7 +1384,7 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
         g_free (str);
 
         const char *sep = (i < count) ? "\t" : "\r\n";
-        if (write (fd, sep, strlen (sep)) != strlen (sep))
+        if (!msi_export_write (fd, sep, strlen (sep)))
             goto end;
     }
 
@@ -1327,7 +1420,7 @@ static LibmsiResult msi_export_forcecodepage( int fd, unsigned codepage )
     sprintf( data, fmt, codepage );
 
     sz = strlen(data) + 1;
-    if (write( fd, data, sz ) != sz)
+    if (!msi_export_write( fd, data, sz ))
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     return LIBMSI_RESULT_SUCCESS;
@@ -1340,14 +1433,12 @@ static LibmsiResult msi_export_summaryinfo (LibmsiDatabase *db, int fd, GError *
     LibmsiResult result = LIBMSI_RESULT_FUNCTION_FAILED;
     LibmsiSummaryInfo *si = libmsi_summary_info_new (db, 0, error);
     gchar *str = NULL;
-    gssize sz;
     int i;
 
     if (!si)
         goto end;
 
-    sz = strlen (header);
-    if (write (fd, header, sz) != sz)
+    if (!msi_export_write (fd, header, strlen (header)))
         goto end;
 
     for (i = 0; i < MSI_MAX_PROPS; i++)
@@ -1355,10 +1446,14 @@ static LibmsiResult msi_export_summaryinfo (LibmsiDatabase *db, int fd, GError *
             gchar *val = summary_info_as_string (si, i);
             if (!val)
                 goto end;
-            str = g_strdup_printf ("%d\t%s\r\n", i, val);
-            sz = strlen (str);
-            if (write (fd, str, sz) != sz)
+            str = g_strdup_printf ("%d\t", i);
+            if (!msi_export_write (fd, str, strlen (str)) ||
+                !msi_export_field (fd, val) ||
+                !msi_export_write (fd, "\r\n", 2)) {
+                g_free (val);
                 goto end;
+            }
+            g_free (val);
             g_free (str);
             str = NULL;
         }
@@ -1375,7 +1470,7 @@ end:
 static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *table,
                                         int fd, GError **error)
 {
-    static const char query[] = "select * from %s";
+    static const char query[] = "select * from `%s`";
     LibmsiRecord *rec = NULL;
     LibmsiQuery *view = NULL;
     LibmsiResult r;
@@ -1392,40 +1487,45 @@ static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *tabl
     r = _libmsi_query_open( db, &view, query, table );
     if (r == LIBMSI_RESULT_SUCCESS)
     {
+        ExportRow export = {
+            .fd = fd,
+            .table_dir = strchr (table, '/') || !strcmp (table, "..") || !strcmp (table, ".") ?
+                NULL : g_file_new_for_path (table),
+            .error = error
+        };
+
         /* write out row 1, the column names */
         r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &rec);
         if (r == LIBMSI_RESULT_SUCCESS)
         {
-            msi_export_record( fd, rec, 1, NULL, error);
+            r = msi_export_record( fd, rec, 1, NULL, error);
             g_object_unref(rec);
         }
 
         /* write out row 2, the column types */
-        r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_TYPES, &rec);
+        if (r == LIBMSI_RESULT_SUCCESS)
+            r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_TYPES, &rec);
         if (r == LIBMSI_RESULT_SUCCESS)
         {
-            msi_export_record( fd, rec, 1, NULL, error);
+            r = msi_export_record( fd, rec, 1, NULL, error);
             g_object_unref(rec);
         }
 
         /* write out row 3, the table name + keys */
-        r = _libmsi_database_get_primary_keys( db, table, &rec );
+        if (r == LIBMSI_RESULT_SUCCESS)
+            r = _libmsi_database_get_primary_keys( db, table, &rec );
         if (r == LIBMSI_RESULT_SUCCESS)
         {
             libmsi_record_set_string( rec, 0, table );
-            msi_export_record( fd, rec, 0, NULL, error);
+            r = msi_export_record( fd, rec, 0, NULL, error);
             g_object_unref(rec);
         }
 
         /* write out row 4 onwards, the data */
-        ExportRow export = {
-            .fd = fd,
-            .table_dir = g_file_new_for_path (table),
-            .error = error
-        };
-        r = _libmsi_query_iterate_records( view, 0, msi_export_row, &export);
+        if (r == LIBMSI_RESULT_SUCCESS)
+            r = _libmsi_query_iterate_records( view, 0, msi_export_row, &export);
 
-        g_object_unref (export.table_dir);
+        g_clear_object (&export.table_dir);
         g_object_unref (view);
     }
 
diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 8c011a1..0f53ce0 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -1045,6 +1045,10 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
     unsigned i, j;
     LibmsiSummaryInfo *si;
 
+    /* pairs of a property and its value */
+    if (num_columns % 2)
+        return r;
+
     si = libmsi_summary_info_new (db, num_records * (num_columns / 2), NULL);
     if (!si)
     {
@@ -1058,7 +1062,7 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
         {
             unsigned pid;
             int int_value = 0;
-            guint64 ft_value;
+            guint64 ft_value = 0;
             char *str_value = NULL;
 
             r = parse_prop( records[i][j], records[i][j + 1], &pid, &int_value, &ft_value, &str_value );
@@ -1067,10 +1071,9 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
 
             assert( get_type(pid) != OLEVT_EMPTY );
             r = _libmsi_summary_info_set_property( si, pid, get_type(pid), int_value, &ft_value, str_value );
+            msi_free(str_value);
             if (r != LIBMSI_RESULT_SUCCESS)
                 goto end;
-
-            msi_free(str_value);
         }
     }
 
-- 
2.43.0


From 6133ab44977554d164ec5465f674b1ff437bbfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:30 +0000
Subject: [PATCH 26/68] fix: streams that cannot be opened are errors when read
 or committed, not absent; a handle lost after a commit is not committed again

---
 libmsi/libmsi-database.c     | 45 +++++++++++++++++++++++++-----------
 libmsi/libmsi-query.c        |  2 ++
 libmsi/libmsi-summary-info.c |  3 ++-
 libmsi/streams.c             |  3 +++
 4 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 96e9bdb..32f92b8 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -341,6 +341,7 @@ static unsigned find_infile_stream( LibmsiDatabase *db, const char *name, GsfInp
     return LIBMSI_RESULT_FUNCTION_FAILED;
 }
 
+/* stm is NULL for a stream that is there, but can't be opened */
 static unsigned msi_alloc_stream( LibmsiDatabase *db, const char *stname, GsfInput *stm)
 {
     LibmsiStream *stream;
@@ -349,7 +350,8 @@ static unsigned msi_alloc_stream( LibmsiDatabase *db, const char *stname, GsfInp
     if (!(stream = msi_alloc( sizeof(LibmsiStream) ))) return LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
     stream->name = strdup( stname );
     stream->stm = stm;
-    g_object_ref(G_OBJECT(stm));
+    if (stm)
+        g_object_ref(G_OBJECT(stm));
     list_add_tail( &db->streams, &stream->entry );
     return LIBMSI_RESULT_SUCCESS;
 }
@@ -433,9 +435,10 @@ unsigned msi_enum_db_streams(LibmsiDatabase *db,
         GsfInput *stm;
 
         stm = stream->stm;
-        g_object_ref(G_OBJECT(stm));
+        if (stm)
+            g_object_ref(G_OBJECT(stm));
         r = fn( stream->name, stm, opaque);
-        g_object_unref(G_OBJECT(stm));
+        g_clear_object(&stm);
 
         if (r) {
             return r;
@@ -476,11 +479,11 @@ unsigned clone_infile_stream( LibmsiDatabase *db, const char *name, GsfInput **s
 
     if (find_infile_stream( db, name, &stream ) == LIBMSI_RESULT_SUCCESS)
     {
-        stream = gsf_input_dup( stream, NULL );
+        stream = stream ? gsf_input_dup( stream, NULL ) : NULL;
         if( !stream )
         {
             g_warning("failed to clone stream\n");
-            return LIBMSI_RESULT_FUNCTION_FAILED;
+            return LIBMSI_RESULT_INVALID_DATA;
         }
 
         gsf_input_seek( stream, 0, G_SEEK_SET );
@@ -500,8 +503,10 @@ unsigned msi_get_raw_stream( LibmsiDatabase *db, const char *stname, GsfInput **
     decoded = decode_streamname(stname);
     TRACE("%s -> %s\n", debugstr_a(stname), debugstr_a(decoded));
 
-    if (clone_infile_stream( db, stname, stm ) == LIBMSI_RESULT_SUCCESS)
-        return LIBMSI_RESULT_SUCCESS;
+    /* LIBMSI_RESULT_INVALID_DATA: the stream is there, but can't be read */
+    ret = clone_infile_stream( db, stname, stm );
+    if (ret == LIBMSI_RESULT_SUCCESS || ret == LIBMSI_RESULT_INVALID_DATA)
+        return ret;
 
     LIST_FOR_EACH_ENTRY( transform, &db->transforms, LibmsiTransform, entry )
     {
@@ -527,7 +532,7 @@ void msi_destroy_stream( LibmsiDatabase *db, const char *stname )
             TRACE("destroying %s\n", debugstr_a(stname));
 
             list_remove( &stream->entry );
-            g_object_unref(G_OBJECT(stream->stm));
+            g_clear_object(&stream->stm);
             msi_free( stream->name );
             msi_free( stream );
             break;
@@ -553,7 +558,7 @@ static void free_streams( LibmsiDatabase *db )
     {
         LibmsiStream *s = LIST_ENTRY(list_head( &db->streams ), LibmsiStream, entry);
         list_remove( &s->entry );
-        g_object_unref(G_OBJECT(s->stm));
+        g_clear_object(&s->stm);
         msi_free( s->name );
         msi_free( s );
     }
@@ -2257,7 +2262,7 @@ static void cache_infile_structure( LibmsiDatabase *db )
     for (i = 0; i < n; i++)
     {
         GsfInput *in = gsf_infile_child_by_index(db->infile, i);
-        const char* name = in ? gsf_input_name(in) : NULL;
+        const char* name = in ? gsf_input_name(in) : gsf_infile_name_by_index(db->infile, i);
         const uint8_t *name8 = (const uint8_t *)name;
 
         if (!name) {
@@ -2267,7 +2272,7 @@ static void cache_infile_structure( LibmsiDatabase *db )
             continue;
         }
         /* table streams are not in the _Streams table */
-        if (!GSF_IS_INFILE(in) || gsf_infile_num_children(GSF_INFILE(in)) == -1) {
+        if (!in || !GSF_IS_INFILE(in) || gsf_infile_num_children(GSF_INFILE(in)) == -1) {
             /* UTF-8 encoding of 0x4840.  */
             if (name8[0] == 0xe4 && name8[1] == 0xa1 && name8[2] == 0x80)
             {
@@ -2283,13 +2288,13 @@ static void cache_infile_structure( LibmsiDatabase *db )
             }
             else
             {
-                r = msi_alloc_stream(db, name, GSF_INPUT(in));
+                r = msi_alloc_stream(db, name, in);
             }
         } else {
             msi_open_storage(db, name);
         }
 
-        g_object_unref(G_OBJECT(in));
+        g_clear_object(&in);
     }
 }
 
@@ -2496,6 +2501,12 @@ static unsigned commit_stream( const char *name, GsfInput *stm, void *opaque)
     decname = decode_streamname(name);
     TRACE("%s(%s) %p %p\n", debugstr_a(name), debugstr_a(decname), stm, opaque);
 
+    if ( !stm )
+    {
+        g_warning("stream %s can't be read\n", debugstr_a(decname));
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+    }
+
     outstm = gsf_outfile_new_child( db->outfile, name, false );
     if ( !outstm )
         return LIBMSI_RESULT_FUNCTION_FAILED;
@@ -2533,6 +2544,14 @@ libmsi_database_commit (LibmsiDatabase *db, GError **error)
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         goto end;
 
+    if (!db->infile && !(db->flags & LIBMSI_DB_FLAGS_CREATE)) {
+        /* what this handle still shows must not replace the file */
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "the database could not be opened after the last commit\n");
+        goto out;
+    }
+
     if (!db->outfile) {
         r = LIBMSI_RESULT_FUNCTION_FAILED;
         g_set_error (error, LIBMSI_RESULT_ERROR, r,
diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index 9c49d48..193852f 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -322,6 +322,8 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
                 _libmsi_record_set_gsf_input(*rec, i, stm);
                 g_object_unref(G_OBJECT(stm));
             }
+            else if (ret == LIBMSI_RESULT_INVALID_DATA)
+                goto err;
             else if (ret != LIBMSI_RESULT_SUCCESS)
                 g_warning("failed to get stream\n");
 
diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 0f53ce0..8d4aa4a 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -132,7 +132,8 @@ libmsi_summary_info_constructed (GObject *object)
             r = load_summary_info (self, stm);
             self->unreadable = r == LIBMSI_RESULT_INVALID_DATA || r == LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
             g_object_unref (G_OBJECT (stm));
-        }
+        } else if (r == LIBMSI_RESULT_INVALID_DATA)
+            self->unreadable = TRUE;
     }
 
     if (G_OBJECT_CLASS (libmsi_summary_info_parent_class)->constructed)
diff --git a/libmsi/streams.c b/libmsi/streams.c
index 9c18a9b..688fe90 100644
--- a/libmsi/streams.c
+++ b/libmsi/streams.c
@@ -125,6 +125,9 @@ static unsigned streams_view_fetch_stream(LibmsiView *view, unsigned row, unsign
     if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
+    if (!sv->streams[row]->stream)
+        return LIBMSI_RESULT_INVALID_DATA;
+
     g_object_ref(G_OBJECT(sv->streams[row]->stream));
     *stm = sv->streams[row]->stream;
 
-- 
2.43.0


From 92e8b6b0aa5ffa40929aea422a3e3a5cdfda5a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 27/68] fix: refuse a primary key that names a column twice

---
 libmsi/sql-parser.y | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 7b8d912..4bc02ae 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -987,6 +987,9 @@ static bool sql_mark_primary_keys( column_info **cols,
         {
             if( strcmp( k->column, c->column ) )
                 continue;
+            /* a column listed twice would be swapped out of the table */
+            if( c->type & MSITYPE_KEY )
+                return false;
             c->type |= MSITYPE_KEY;
             found = true;
             if (idx != count)
-- 
2.43.0


From 38959ce3ff41dc16c3e4370b597d65d419e2d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:52 +0000
Subject: [PATCH 28/68] fix: refuse stream, storage and table names that cannot
 be stored as themselves

---
 libmsi/libmsi-database.c | 25 +++++++++++++++++++++++++
 libmsi/msipriv.h         |  1 +
 libmsi/table.c           | 40 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 66 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 32f92b8..6cd2005 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -247,6 +247,7 @@ done:
 unsigned msi_create_storage( LibmsiDatabase *db, const char *stname, GsfInput *stm )
 {
     LibmsiStorage *storage;
+    LibmsiStream *stream;
     GsfInfile *origstg = NULL;
     bool found = false;
     unsigned r;
@@ -254,6 +255,15 @@ unsigned msi_create_storage( LibmsiDatabase *db, const char *stname, GsfInput *s
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_ACCESS_DENIED;
 
+    if (!msi_is_storable_name( NULL, stname ))
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
+    LIST_FOR_EACH_ENTRY( stream, &db->streams, LibmsiStream, entry )
+    {
+        if( !strcmp( stname, stream->name ) )
+            return LIBMSI_RESULT_INVALID_PARAMETER;
+    }
+
     LIST_FOR_EACH_ENTRY( storage, &db->storages, LibmsiStorage, entry )
     {
         if( !strcmp( stname, storage->name ) )
@@ -392,6 +402,7 @@ unsigned write_raw_stream_data( LibmsiDatabase *db, const char *stname,
 unsigned msi_create_stream( LibmsiDatabase *db, const char *stname, GsfInput *stm )
 {
     LibmsiStream *stream;
+    LibmsiStorage *storage;
     char *encname = NULL;
     unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
     bool found = false;
@@ -400,6 +411,20 @@ unsigned msi_create_stream( LibmsiDatabase *db, const char *stname, GsfInput *st
         return LIBMSI_RESULT_ACCESS_DENIED;
 
     encname = encode_streamname(false, stname);
+    if (!encname || !msi_is_storable_name( stname, encname ))
+    {
+        msi_free(encname);
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+    }
+
+    LIST_FOR_EACH_ENTRY( storage, &db->storages, LibmsiStorage, entry )
+    {
+        if( !strcmp( encname, storage->name ) )
+        {
+            msi_free(encname);
+            return LIBMSI_RESULT_INVALID_PARAMETER;
+        }
+    }
 
     LIST_FOR_EACH_ENTRY( stream, &db->streams, LibmsiStream, entry )
     {
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 42afe3d..3c0682b 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -403,6 +403,7 @@ extern bool _libmsi_record_compare_fields(const LibmsiRecord *a, const LibmsiRec
 extern void enum_stream_names( GsfInfile *stg );
 extern char *encode_streamname(bool bTable, const char *in);
 extern char *decode_streamname(const char *in);
+extern bool msi_is_storable_name(const char *name, const char *encname);
 
 /* database internals */
 extern LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db);
diff --git a/libmsi/table.c b/libmsi/table.c
index 9b0c8d2..6596c49 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -236,6 +236,35 @@ char *decode_streamname(const char *in)
     return out;
 }
 
+/*
+ * An entry of a compound file holds a name of up to 31 UTF-16 units. And a name
+ * that contains the characters other names are encoded with, or starts with the
+ * mark of a table (U+4840), would stand for another stream or a table.
+ */
+bool msi_is_storable_name( const char *name, const char *encname )
+{
+    glong units = 0;
+    gunichar2 *utf16;
+    g_autofree char *decname = NULL;
+
+    utf16 = g_utf8_to_utf16( encname, -1, NULL, &units, NULL );
+    g_free( utf16 );
+    if( !utf16 || units < 1 || units > 31 )
+        return false;
+
+    if( !name )
+        return true;
+
+    if( g_str_has_prefix( name, "\xe4\xa1\x80" ) )
+        return false;
+
+    /* past the mark of a table */
+    if( g_str_has_prefix( encname, "\xe4\xa1\x80" ) )
+        encname += 3;
+    decname = decode_streamname( encname );
+    return !strcmp( decname, name );
+}
+
 void enum_stream_names( GsfInfile *stg )
 {
     unsigned n, i;
@@ -766,6 +795,8 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
     LibmsiRecord *rec = NULL;
     column_info *col;
     LibmsiTable *table;
+    char *encname;
+    bool storable;
     unsigned i;
 
     /* only add tables that don't exist already */
@@ -775,6 +806,15 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
         return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
     }
 
+    encname = strlen( name ) < 2 * MAX_STREAM_NAME ? encode_streamname( true, name ) : NULL;
+    storable = encname && msi_is_storable_name( name, encname );
+    msi_free( encname );
+    if( !storable )
+    {
+        g_warning("table %s cannot be stored under this name\n", debugstr_a(name));
+        return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+    }
+
     for( i = 0, col = col_info; col; col = col->next )
         i++;
     if( i > MSI_MAX_COLUMNS )
-- 
2.43.0


From 20198b4f8b4f598cb337a1beef3eba4ffc4a5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:04 +0000
Subject: [PATCH 29/68] fix: read the primary keys of a table whatever its name

---
 libmsi/libmsi-database.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 6cd2005..948632e 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2660,6 +2660,7 @@ out:
 
 struct msi_primary_key_record_info
 {
+    const char *table;
     unsigned n;
     LibmsiRecord *rec;
 };
@@ -2671,6 +2672,10 @@ static unsigned msi_primary_key_iterator( LibmsiRecord *rec, void *param )
     const char *table;
     unsigned type;
 
+    table = _libmsi_record_get_string_raw( rec, 1 );
+    if( !table || strcmp( table, info->table ) )
+        return LIBMSI_RESULT_SUCCESS;
+
     type = libmsi_record_get_int( rec, 4 );
     if( type & MSITYPE_KEY )
     {
@@ -2678,10 +2683,7 @@ static unsigned msi_primary_key_iterator( LibmsiRecord *rec, void *param )
         if( info->rec )
         {
             if ( info->n == 1 )
-            {
-                table = _libmsi_record_get_string_raw( rec, 1 );
                 libmsi_record_set_string( info->rec, 0, table);
-            }
 
             name = _libmsi_record_get_string_raw( rec, 3 );
             libmsi_record_set_string( info->rec, info->n, name );
@@ -2694,7 +2696,8 @@ static unsigned msi_primary_key_iterator( LibmsiRecord *rec, void *param )
 unsigned _libmsi_database_get_primary_keys( LibmsiDatabase *db,
                 const char *table, LibmsiRecord **prec )
 {
-    static const char sql[] = "select * from `_Columns` where `Table` = '%s'";
+    /* any character may be part of a table's name, so it cannot be quoted */
+    static const char sql[] = "select * from `_Columns`";
     struct msi_primary_key_record_info info;
     LibmsiQuery *query = NULL;
     unsigned r;
@@ -2702,13 +2705,14 @@ unsigned _libmsi_database_get_primary_keys( LibmsiDatabase *db,
     if (!table_view_exists( db, table ))
         return LIBMSI_RESULT_INVALID_TABLE;
 
-    r = _libmsi_query_open( db, &query, sql, table );
+    r = _libmsi_query_open( db, &query, sql );
     if( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
     /* count the number of primary key records */
     info.n = 0;
     info.rec = 0;
+    info.table = table;
     r = _libmsi_query_iterate_records( query, 0, msi_primary_key_iterator, &info );
     if( r == LIBMSI_RESULT_SUCCESS )
     {
@@ -2742,7 +2746,7 @@ libmsi_database_get_primary_keys (LibmsiDatabase *db,
                                   const char *table,
                                   GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %s\n", db, debugstr_a(table));
-- 
2.43.0


From 5e325b74aefad3c8864c35ff40dd1c30adcb4614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:49 +0000
Subject: [PATCH 30/68] fix: merge matches rows whose keys are NULL or contain
 apostrophes

---
 libmsi/libmsi-database.c | 105 ++++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 50 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 948632e..84938af 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1745,64 +1745,56 @@ done:
     return r;
 }
 
-static char *get_key_value(LibmsiQuery *view, const char *key, LibmsiRecord *rec)
-{
-    LibmsiRecord *colnames;
-    char *str;
-    unsigned r, i = 0;
-    int cmp;
-
-    r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &colnames);
-    if (r != LIBMSI_RESULT_SUCCESS)
-        return NULL;
-
-    do
-    {
-        str = msi_dup_record_field(colnames, ++i);
-        cmp = strcmp( key, str );
-        msi_free(str);
-    } while (cmp);
-
-    g_object_unref(colnames);
-
-    if (_libmsi_record_get_string_raw(rec, i))  /* check record field is a string */
-        /* quote string record fields */
-        str = g_strdup_printf ("'%s'", _libmsi_record_get_string_raw (rec, i));
-    else
-        str = libmsi_record_get_string (rec, i);
-
-    return str;
-}
-
+/* a query for the row with the primary key of rec, and its parameters */
 static char *create_diff_row_query(LibmsiDatabase *merge, LibmsiQuery *view,
-                                    char *table, LibmsiRecord *rec)
+                                    char *table, LibmsiRecord *rec,
+                                    LibmsiRecord **params)
 {
-    GString *query;
-    char *val;
-    const char *key;
-    LibmsiRecord *keys;
-    unsigned r, i, count;
+    GString *query = NULL;
+    const char *key, *name;
+    LibmsiRecord *keys = NULL, *colnames = NULL;
+    unsigned r, i, j, count, numcols, n = 0;
 
+    *params = NULL;
     r = _libmsi_database_get_primary_keys(merge, table, &keys);
     if (r != LIBMSI_RESULT_SUCCESS)
         return NULL;
 
+    r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &colnames);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto done;
+
     query = g_string_sized_new(256);
-    g_string_printf (query, "SELECT * FROM %s WHERE ", table);
+    g_string_printf (query, "SELECT * FROM `%s` WHERE ", table);
     count = libmsi_record_get_field_count(keys);
+    numcols = libmsi_record_get_field_count(colnames);
+    *params = libmsi_record_new(count);
     for (i = 1; i <= count; i++)
     {
         key = _libmsi_record_get_string_raw(keys, i);
-        val = get_key_value(view, key, rec);
+        for (j = 1; j <= numcols; j++)
+        {
+            name = _libmsi_record_get_string_raw(colnames, j);
+            if (name && !strcmp(key, name))
+                break;
+        }
 
-        if (i == count)
-            g_string_append_printf (query, "`%s` = %s", key, val);
+        if (i > 1)
+            g_string_append (query, " AND ");
+        if (libmsi_record_is_null(rec, j))
+            g_string_append_printf (query, "`%s` IS NULL", key);
         else
-            g_string_append_printf (query, "`%s` = %s AND ", key, val);
+        {
+            g_string_append_printf (query, "`%s` = ?", key);
+            _libmsi_record_copy_field(rec, j, *params, ++n);
+        }
     }
 
+done:
     g_object_unref(keys);
-    return  g_string_free (query, FALSE);
+    if (colnames)
+        g_object_unref(colnames);
+    return query ? g_string_free (query, FALSE) : NULL;
 }
 
 static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
@@ -1812,21 +1804,25 @@ static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
     MERGEROW *mergerow;
     LibmsiQuery *dbview = NULL;
     LibmsiRecord *row = NULL;
+    LibmsiRecord *params = NULL;
     char *query = NULL;
     unsigned r = LIBMSI_RESULT_SUCCESS;
     GError *err = NULL;
 
     if (table_view_exists(data->db, table->name))
     {
-        query = create_diff_row_query(data->merge, data->curview, table->name, rec);
+        query = create_diff_row_query(data->merge, data->curview, table->name, rec, &params);
         if (!query)
             return LIBMSI_RESULT_OUTOFMEMORY;
 
         dbview = libmsi_query_new(data->db, query, &err);
         if (err)
+        {
+            r = err->code ? err->code : LIBMSI_RESULT_FUNCTION_FAILED;
             goto done;
+        }
 
-        r = _libmsi_query_execute(dbview, NULL);
+        r = _libmsi_query_execute(dbview, params);
         if (r != LIBMSI_RESULT_SUCCESS)
             goto done;
 
@@ -1864,8 +1860,12 @@ done:
         g_critical("%s", err->message);
     g_clear_error(&err);
     msi_free(query);
-    g_object_unref(row);
-    g_object_unref(dbview);
+    if (params)
+        g_object_unref(params);
+    if (row)
+        g_object_unref(row);
+    if (dbview)
+        g_object_unref(dbview);
     return r;
 }
 
@@ -2009,7 +2009,7 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     MERGETABLE *table;
     LibmsiQuery *mergeview = NULL;
 
-    static const char query[] = "SELECT * FROM %s";
+    static const char query[] = "SELECT * FROM `%s`";
 
     table = msi_alloc_zero(sizeof(MERGETABLE));
     if (!table)
@@ -2059,7 +2059,7 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     const char *name;
     unsigned r;
 
-    static const char query[] = "SELECT * FROM %s";
+    static const char query[] = "SELECT * FROM `%s`";
 
     name = _libmsi_record_get_string_raw(rec, 1);
 
@@ -2158,12 +2158,13 @@ static unsigned update_merge_errors(LibmsiDatabase *db, const char *error,
 {
     unsigned r;
     LibmsiQuery *view;
+    LibmsiRecord *rec;
 
     static const char create[] =
         "CREATE TABLE `%s` (`Table` CHAR(255) NOT NULL, "
 	"`NumRowMergeConflicts` SHORT NOT NULL PRIMARY KEY `Table`)";
     static const char insert[] =
-        "INSERT INTO `%s` (`Table`, `NumRowMergeConflicts`) VALUES ('%s', %d)";
+        "INSERT INTO `%s` (`Table`, `NumRowMergeConflicts`) VALUES (?, ?)";
 
     if (!table_view_exists(db, error))
     {
@@ -2177,11 +2178,15 @@ static unsigned update_merge_errors(LibmsiDatabase *db, const char *error,
             return r;
     }
 
-    r = _libmsi_query_open(db, &view, insert, error, table, numconflicts);
+    r = _libmsi_query_open(db, &view, insert, error);
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    r = _libmsi_query_execute(view, NULL);
+    rec = libmsi_record_new(2);
+    libmsi_record_set_string(rec, 1, table);
+    libmsi_record_set_int(rec, 2, numconflicts);
+    r = _libmsi_query_execute(view, rec);
+    g_object_unref(rec);
     g_object_unref(view);
     return r;
 }
-- 
2.43.0


From ec991ba002a4e8fb42e9a32735dc9b19d3758a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:22 +0000
Subject: [PATCH 31/68] fix: merge frees its rows, and works without an error
 table or with views that failed to open

---
 libmsi/libmsi-database.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 84938af..66a1978 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1740,7 +1740,8 @@ static unsigned merge_verify_primary_keys(LibmsiDatabase *db, LibmsiDatabase *me
 
 done:
     g_object_unref(dbrec);
-    g_object_unref(mergerec);
+    if (mergerec)
+        g_object_unref(mergerec);
 
     return r;
 }
@@ -1964,7 +1965,7 @@ static void merge_free_rows(MERGETABLE *table)
         MERGEROW *row = LIST_ENTRY(item, MERGEROW, entry);
 
         list_remove(&row->entry);
-        g_object_unref(row);
+        g_object_unref(row->data);
         msi_free(row);
     }
 }
@@ -2017,6 +2018,7 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
        *ptable = NULL;
        return LIBMSI_RESULT_OUTOFMEMORY;
     }
+    list_init(&table->rows);
 
     r = msi_get_table_labels(db, name, &table->labels, &table->numlabels);
     if (r != LIBMSI_RESULT_SUCCESS)
@@ -2034,8 +2036,6 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     if (r != LIBMSI_RESULT_SUCCESS)
         goto err;
 
-    list_init(&table->rows);
-
     table->name = strdup(name);
     table->numconflicts = 0;
 
@@ -2044,7 +2044,8 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     return LIBMSI_RESULT_SUCCESS;
 
 err:
-    g_object_unref(mergeview);
+    if (mergeview)
+        g_object_unref(mergeview);
     free_merge_table(table);
     *ptable = NULL;
     return r;
@@ -2098,8 +2099,10 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     list_add_tail(data->tabledata, &table->entry);
 
 done:
-    g_object_unref(dbview);
-    g_object_unref(mergeview);
+    if (dbview)
+        g_object_unref(dbview);
+    if (mergeview)
+        g_object_unref(mergeview);
     return r;
 }
 
@@ -2209,7 +2212,7 @@ libmsi_database_merge (LibmsiDatabase *db,
     struct list tabledata = LIST_INIT(tabledata);
     struct list *item, *cursor;
     MERGETABLE *table;
-    bool conflicts;
+    bool conflicts = false;
     unsigned r;
 
     TRACE("(%p, %p, %s)\n", db, merge,
@@ -2226,13 +2229,15 @@ libmsi_database_merge (LibmsiDatabase *db,
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
-    conflicts = false;
     LIST_FOR_EACH_ENTRY(table, &tabledata, MERGETABLE, entry)
     {
         if (table->numconflicts)
         {
             conflicts = true;
 
+            if (!tablename)
+                continue;
+
             r = update_merge_errors(db, tablename, table->name,
                                     table->numconflicts);
             if (r != LIBMSI_RESULT_SUCCESS)
@@ -2246,6 +2251,10 @@ libmsi_database_merge (LibmsiDatabase *db,
         }
     }
 
+    if (conflicts)
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+
+done:
     LIST_FOR_EACH_SAFE(item, cursor, &tabledata)
     {
         table = LIST_ENTRY(item, MERGETABLE, entry);
@@ -2253,10 +2262,6 @@ libmsi_database_merge (LibmsiDatabase *db,
         free_merge_table(table);
     }
 
-    if (conflicts)
-        r = LIBMSI_RESULT_FUNCTION_FAILED;
-
-done:
     if (r != LIBMSI_RESULT_SUCCESS)
         g_set_error (error, LIBMSI_RESULT_ERROR, r, G_STRFUNC);
     g_object_unref(db);
-- 
2.43.0


From da3c94120b79c161bc302914dc0a7063e4c35d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:27 +0000
Subject: [PATCH 32/68] fix: merging an equal row with a stream, or without the
 last columns, is no conflict

---
 libmsi/libmsi-database.c | 50 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 66a1978..711dc02 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1798,6 +1798,54 @@ done:
     return query ? g_string_free (query, FALSE) : NULL;
 }
 
+static bool merge_same_stream(GsfInput *a, GsfInput *b)
+{
+    GsfInput *in[2] = { gsf_input_dup(a, NULL), gsf_input_dup(b, NULL) };
+    bool same = false;
+
+    if (in[0] && in[1] && gsf_input_size(in[0]) == gsf_input_size(in[1]) &&
+        !gsf_input_seek(in[0], 0, G_SEEK_SET) && !gsf_input_seek(in[1], 0, G_SEEK_SET))
+    {
+        gsf_off_t left = gsf_input_size(in[0]);
+
+        same = true;
+        while (same && left > 0)
+        {
+            size_t n = MIN(left, 4096);
+            const uint8_t *x = gsf_input_read(in[0], n, NULL);
+            const uint8_t *y = gsf_input_read(in[1], n, NULL);
+
+            same = x && y && !memcmp(x, y, n);
+            left -= n;
+        }
+    }
+
+    if (in[0])
+        g_object_unref(in[0]);
+    if (in[1])
+        g_object_unref(in[1]);
+    return same;
+}
+
+/* whether the columns that both rows have are equal */
+static bool merge_same_row(LibmsiRecord *a, LibmsiRecord *b)
+{
+    unsigned i, count = MIN(libmsi_record_get_field_count(a), libmsi_record_get_field_count(b));
+
+    for (i = 1; i <= count; i++)
+    {
+        if (a->fields[i].type == LIBMSI_FIELD_TYPE_STREAM && b->fields[i].type == LIBMSI_FIELD_TYPE_STREAM)
+        {
+            if (!merge_same_stream(a->fields[i].u.stream, b->fields[i].u.stream))
+                return false;
+        }
+        else if (!_libmsi_record_compare_fields(a, b, i))
+            return false;
+    }
+
+    return true;
+}
+
 static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
 {
     MERGEDATA *data = param;
@@ -1828,7 +1876,7 @@ static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
             goto done;
 
         r = _libmsi_query_fetch(dbview, &row);
-        if (r == LIBMSI_RESULT_SUCCESS && !_libmsi_record_compare(rec, row))
+        if (r == LIBMSI_RESULT_SUCCESS && !merge_same_row(rec, row))
         {
             table->numconflicts++;
             goto done;
-- 
2.43.0


From d43eec957877a8770bf5ccf1a7f5f6962adb6ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:43 +0000
Subject: [PATCH 33/68] fix: merging again with the same error table replaces
 its count of conflicts

---
 libmsi/libmsi-database.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 711dc02..da7f5ca 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2216,6 +2216,7 @@ static unsigned update_merge_errors(LibmsiDatabase *db, const char *error,
 	"`NumRowMergeConflicts` SHORT NOT NULL PRIMARY KEY `Table`)";
     static const char insert[] =
         "INSERT INTO `%s` (`Table`, `NumRowMergeConflicts`) VALUES (?, ?)";
+    static const char delete[] = "DELETE FROM `%s` WHERE `Table` = ?";
 
     if (!table_view_exists(db, error))
     {
@@ -2229,16 +2230,29 @@ static unsigned update_merge_errors(LibmsiDatabase *db, const char *error,
             return r;
     }
 
-    r = _libmsi_query_open(db, &view, insert, error);
-    if (r != LIBMSI_RESULT_SUCCESS)
-        return r;
-
     rec = libmsi_record_new(2);
     libmsi_record_set_string(rec, 1, table);
     libmsi_record_set_int(rec, 2, numconflicts);
+
+    /* the count of an earlier merge is replaced */
+    r = _libmsi_query_open(db, &view, delete, error);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto done;
+
     r = _libmsi_query_execute(view, rec);
-    g_object_unref(rec);
     g_object_unref(view);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto done;
+
+    r = _libmsi_query_open(db, &view, insert, error);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto done;
+
+    r = _libmsi_query_execute(view, rec);
+    g_object_unref(view);
+
+done:
+    g_object_unref(rec);
     return r;
 }
 
-- 
2.43.0


From d64cc438c227df519a202bfce044db6230227ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 34/68] fix: conditions and joins work on tables with a space
 in their name

---
 libmsi/sql-parser.y | 5 +++--
 libmsi/where.c      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 4bc02ae..22e4572 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -753,7 +753,8 @@ number:
 
 static char *parser_add_table( void *info, const char *list, const char *table )
 {
-    static const char space[] = {' ',0};
+    /* the one character that a name can't have */
+    static const char separator[] = {'`',0};
     unsigned len = strlen( list ) + strlen( table ) + 2;
     char *ret;
 
@@ -761,7 +762,7 @@ static char *parser_add_table( void *info, const char *list, const char *table )
     if( ret )
     {
         strcpy( ret, list );
-        strcat( ret, space );
+        strcat( ret, separator );
         strcat( ret, table );
     }
     return ret;
diff --git a/libmsi/where.c b/libmsi/where.c
index f589482..3e93722 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -1132,7 +1132,7 @@ unsigned where_view_create( LibmsiDatabase *db, LibmsiView **view, char *tables,
     {
         JOINTABLE *table;
 
-        if ((ptr = strchr(tables, ' ')))
+        if ((ptr = strchr(tables, '`')))
             *ptr = '\0';
 
         table = msi_alloc(sizeof(JOINTABLE));
-- 
2.43.0


From 93506a1052d7ae41d01b43f14a07a53db4932eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 35/68] fix: apply transforms as they describe: dropped tables,
 added columns, streams, NULL cells, errors

---
 libmsi/libmsi-database.c |  55 +----
 libmsi/msipriv.h         |   2 -
 libmsi/table.c           | 456 ++++++++++++++++++++++-----------------
 3 files changed, 264 insertions(+), 249 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index da7f5ca..35a90fc 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -61,11 +61,6 @@ const guint8 clsid_msi_patch[16] = { 0x86, 0x10, 0x0c, 0x00, 0x00, 0x00, 0x00, 0
 #define IS_INTMSIDBOPEN(x)      \
       ((x) >= LIBMSI_DB_OPEN_READONLY && (x) <= LIBMSI_DB_OPEN_CREATE)
 
-typedef struct _LibmsiTransform {
-    struct list entry;
-    GsfInfile *stg;
-} LibmsiTransform;
-
 typedef struct _LibmsiStorage {
     struct list entry;
     char *name;
@@ -94,7 +89,6 @@ static void
 libmsi_database_init (LibmsiDatabase *self)
 {
     list_init (&self->tables);
-    list_init (&self->transforms);
     list_init (&self->streams);
     list_init (&self->storages);
 }
@@ -106,18 +100,6 @@ libmsi_database_constructed (GObject *object)
         G_OBJECT_CLASS (libmsi_database_parent_class)->constructed (object);
 }
 
-static void
-free_transforms (LibmsiDatabase *db)
-{
-    while (!list_empty(&db->transforms)) {
-        LibmsiTransform *t = LIST_ENTRY(list_head(&db->transforms),
-                                        LibmsiTransform, entry);
-        list_remove(&t->entry);
-        g_object_unref(G_OBJECT(t->stg));
-        msi_free(t);
-    }
-}
-
 static void
 libmsi_database_finalize (GObject *object)
 {
@@ -125,7 +107,6 @@ libmsi_database_finalize (GObject *object)
 
     _libmsi_database_close (self);
     free_cached_tables (self);
-    free_transforms (self);
 
     g_free (self->path);
 
@@ -523,25 +504,12 @@ unsigned msi_get_raw_stream( LibmsiDatabase *db, const char *stname, GsfInput **
 {
     unsigned ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_autofree char *decoded = NULL;
-    LibmsiTransform *transform;
 
     decoded = decode_streamname(stname);
     TRACE("%s -> %s\n", debugstr_a(stname), debugstr_a(decoded));
 
     /* LIBMSI_RESULT_INVALID_DATA: the stream is there, but can't be read */
     ret = clone_infile_stream( db, stname, stm );
-    if (ret == LIBMSI_RESULT_SUCCESS || ret == LIBMSI_RESULT_INVALID_DATA)
-        return ret;
-
-    LIST_FOR_EACH_ENTRY( transform, &db->transforms, LibmsiTransform, entry )
-    {
-        *stm = gsf_infile_child_by_name( transform->stg, stname );
-        if (*stm)
-        {
-            ret = LIBMSI_RESULT_SUCCESS;
-            break;
-        }
-    }
 
     return ret;
 }
@@ -589,24 +557,6 @@ static void free_streams( LibmsiDatabase *db )
     }
 }
 
-void append_storage_to_db( LibmsiDatabase *db, GsfInfile *stg )
-{
-    LibmsiTransform *t;
-
-    t = msi_alloc( sizeof *t );
-    t->stg = stg;
-    g_object_ref(G_OBJECT(t->stg));
-    list_add_head( &db->transforms, &t->entry );
-
-#if 0
-    /* the transform may add or replace streams...
-     *
-     * FIXME: Hmm, the MSI is always searched before the transform though.
-     * For now disable this. */
-    free_streams( db );
-#endif
-}
-
 /* give up what was written since the transaction started */
 static void discard_transaction(LibmsiDatabase *db)
 {
@@ -2477,6 +2427,11 @@ unsigned _libmsi_database_apply_transform( LibmsiDatabase *db,
     }
     stg = gsf_infile_msole_new( in, NULL );
     g_object_unref(G_OBJECT(in));
+    if (!stg)
+    {
+        g_warning("%s is no transform\n", debugstr_a(szTransformFile));
+        return LIBMSI_RESULT_OPEN_FAILED;
+    }
 
     if( !gsf_infile_msole_get_class_id (GSF_INFILE_MSOLE(stg), uuid))
     {
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 3c0682b..5743353 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -107,7 +107,6 @@ struct _LibmsiDatabase
     unsigned media_transform_offset;
     unsigned media_transform_disk_id;
     struct list tables;
-    struct list transforms;
     struct list streams;
     struct list storages;
 };
@@ -382,7 +381,6 @@ extern unsigned _libmsi_database_commit_streams( LibmsiDatabase *db );
 extern unsigned msi_table_apply_transform( LibmsiDatabase *db, GsfInfile *stg );
 extern unsigned _libmsi_database_apply_transform( LibmsiDatabase *db,
                  const char *szTransformFile);
-extern void append_storage_to_db( LibmsiDatabase *db, GsfInfile *stg );
 extern unsigned _libmsi_database_commit_storages( LibmsiDatabase *db );
 
 /* record internals */
diff --git a/libmsi/table.c b/libmsi/table.c
index 6596c49..de2e616 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2425,7 +2425,14 @@ static unsigned msi_record_encoded_stream_name( const LibmsiTableView *tv, Libms
     {
         if ( tv->columns[i].type & MSITYPE_KEY )
         {
-            sval = msi_dup_record_field( rec, i + 1 );
+            /* nulls are part of the name as msi_stream_name has them */
+            if ( !libmsi_record_is_null( rec, i + 1 ) )
+                sval = msi_dup_record_field( rec, i + 1 );
+            else if ( tv->columns[i].type & MSITYPE_STRING )
+                sval = strdup( "" );
+            else
+                sval = strdup( bytes_per_column( tv->db, &tv->columns[i], LONG_STR_BYTES ) == 2 ?
+                               "-32768" : "-2147483648" );
             if ( !sval )
             {
                 r = LIBMSI_RESULT_OUTOFMEMORY;
@@ -2461,16 +2468,62 @@ err:
     return r;
 }
 
+/* the columns that are present in a row of a transform, and the size of the
+ * row in bytes; 0 if there is no complete row */
+static unsigned transform_row_columns( const LibmsiTableView *tv, const uint8_t *rawdata, unsigned rawsize,
+                                       unsigned bytes_per_strref, unsigned *columns )
+{
+    unsigned i, mask, sz = 2;
+
+    if ( rawsize < sz || tv->num_cols > MSI_MAX_COLUMNS )
+        return 0;
+
+    mask = rawdata[0] | (rawdata[1] << 8);
+
+    *columns = 0;
+    if ( mask & 1 )
+    {
+        /*
+         * if the low bit is set, columns are continuous and
+         * the number of columns is specified in the high byte
+         */
+        if ( (mask >> 8) > tv->num_cols )
+            return 0;
+        *columns = MSI_ALL_COLUMNS( mask >> 8 );
+    }
+    else
+    {
+        /*
+         * If the low bit is not set, mask is a bitmask.
+         * Excepting for key fields, which are always present,
+         *  each bit indicates that a field is present in the transform record.
+         *
+         * mask == 0 is a special case ... only the keys will be present
+         * and it means that this row should be deleted.
+         */
+        if ( mask & ~MSI_ALL_COLUMNS( tv->num_cols ) )
+            return 0;
+        *columns = mask;
+        for ( i = 0; i < tv->num_cols; i++ )
+            if ( tv->columns[i].type & MSITYPE_KEY )
+                *columns |= 1u << i;
+    }
+
+    for ( i = 0; i < tv->num_cols; i++ )
+        if ( *columns & (1u << i) )
+            sz += bytes_per_column( tv->db, &tv->columns[i], bytes_per_strref );
+
+    return sz <= rawsize ? sz : 0;
+}
+
 static LibmsiRecord *msi_get_transform_record( const LibmsiTableView *tv, const string_table *st,
-                                            GsfInfile *stg,
-                                            const uint8_t *rawdata, unsigned bytes_per_strref )
+                                            GsfInfile *stg, const uint8_t *rawdata,
+                                            unsigned present, unsigned bytes_per_strref )
 {
     unsigned i, val, ofs = 0;
-    uint16_t mask;
     LibmsiColumnInfo *columns = tv->columns;
     LibmsiRecord *rec;
 
-    mask = rawdata[0] | (rawdata[1] << 8);
     rawdata += 2;
 
     rec = libmsi_record_new( tv->num_cols );
@@ -2480,70 +2533,62 @@ static LibmsiRecord *msi_get_transform_record( const LibmsiTableView *tv, const
     TRACE("row ->\n");
     for( i=0; i<tv->num_cols; i++ )
     {
-        if ( (mask&1) && (i>=(mask>>8)) )
-            break;
-        /* all keys must be present */
-        if ( (~mask&1) && (~columns[i].type & MSITYPE_KEY) && ((1<<i) & ~mask) )
+        unsigned n = bytes_per_column( tv->db, &columns[i], bytes_per_strref );
+
+        if ( !(present & (1u << i)) )
             continue;
 
+        val = read_raw_int(rawdata, ofs, n);
+        ofs += n;
+
         if( MSITYPE_IS_BINARY(tv->columns[i].type) )
         {
             char *encname;
             GsfInput *stm = NULL;
             unsigned r;
 
-            ofs += bytes_per_column( tv->db, &columns[i], bytes_per_strref );
+            if ( !val )
+                continue;
 
             r = msi_record_encoded_stream_name( tv, rec, &encname );
             if ( r != LIBMSI_RESULT_SUCCESS )
-                return NULL;
+                goto err;
 
             stm = gsf_infile_child_by_name( stg, encname );
-            if ( r != LIBMSI_RESULT_SUCCESS )
+            TRACE(" field %d [%s]\n", i+1, debugstr_a(encname));
+            msi_free( encname );
+            if ( !stm )
             {
-                msi_free( encname );
-                return NULL;
+                g_warning("the transform lacks the stream of a row\n");
+                goto err;
             }
 
             _libmsi_record_load_stream( rec, i+1, stm );
-            TRACE(" field %d [%s]\n", i+1, debugstr_a(encname));
-            msi_free( encname );
         }
         else if( columns[i].type & MSITYPE_STRING )
         {
-            const char *sval;
+            const char *sval = msi_string_lookup_id( st, val );
 
-            val = read_raw_int(rawdata, ofs, bytes_per_strref);
-            sval = msi_string_lookup_id( st, val );
+            if ( val && !sval )
+            {
+                g_warning("the transform lacks string %u\n", val);
+                goto err;
+            }
             libmsi_record_set_string( rec, i+1, sval );
             TRACE(" field %d [%s]\n", i+1, debugstr_a(sval));
-            ofs += bytes_per_strref;
         }
         else
         {
-            unsigned n = bytes_per_column( tv->db, &columns[i], bytes_per_strref );
-            switch( n )
-            {
-            case 2:
-                val = read_raw_int(rawdata, ofs, n);
-                if (val)
-                    libmsi_record_set_int( rec, i+1, val-0x8000 );
-                TRACE(" field %d [0x%04x]\n", i+1, val );
-                break;
-            case 4:
-                val = read_raw_int(rawdata, ofs, n);
-                if (val)
-                    libmsi_record_set_int( rec, i+1, val^0x80000000 );
-                TRACE(" field %d [0x%08x]\n", i+1, val );
-                break;
-            default:
-                g_critical("oops - unknown column width %d\n", n);
-                break;
-            }
-            ofs += n;
+            if (val)
+                libmsi_record_set_int( rec, i+1, n == 2 ? (int)(val-0x8000) : (int)(val^0x80000000) );
+            TRACE(" field %d [0x%08x]\n", i+1, val );
         }
     }
     return rec;
+
+err:
+    g_object_unref(rec);
+    return NULL;
 }
 
 static void dump_record( LibmsiRecord *rec )
@@ -2564,18 +2609,6 @@ static void dump_record( LibmsiRecord *rec )
     }
 }
 
-static void dump_table( const string_table *st, const uint16_t *rawdata, unsigned rawsize )
-{
-    const char *sval;
-    unsigned i;
-
-    for( i=0; i<(rawsize/2); i++ )
-    {
-        sval = msi_string_lookup_id( st, rawdata[i] );
-        TRACE(" %04x %s\n", rawdata[i], debugstr_a(sval) );
-    }
-}
-
 static unsigned* msi_record_to_row( const LibmsiTableView *tv, LibmsiRecord *rec )
 {
     const char *str;
@@ -2678,31 +2711,56 @@ typedef struct
     char *name;
 } TRANSFORMDATA;
 
+static bool table_has_columns( LibmsiDatabase *db, const char *name )
+{
+    unsigned count = 0;
+
+    return get_tablecolumns( db, name, NULL, &count ) == LIBMSI_RESULT_SUCCESS && count;
+}
+
+static unsigned msi_drop_table( LibmsiDatabase *db, const char *name )
+{
+    LibmsiView *view;
+    unsigned r;
+
+    r = table_view_create( db, name, &view );
+    if (r != LIBMSI_RESULT_SUCCESS)
+        return r;
+
+    r = view->ops->drop ? view->ops->drop( view ) : LIBMSI_RESULT_FUNCTION_FAILED;
+    view->ops->delete( view );
+    return r;
+}
+
 static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                                       string_table *st, TRANSFORMDATA *transform,
                                       unsigned bytes_per_strref )
 {
     uint8_t *rawdata = NULL;
     LibmsiTableView *tv = NULL;
-    unsigned r, n, sz, i, mask, num_cols, colcol = 0, rawsize = 0;
+    unsigned r, n, sz, mask, columns, colcol = 0, rawsize = 0;
     LibmsiRecord *rec = NULL;
-    char coltable[32];
+    g_autofree char *coltable = NULL;
+    bool is_tables, is_columns;
     const char *name;
 
     if (!transform)
         return LIBMSI_RESULT_SUCCESS;
 
     name = transform->name;
+    is_tables = !strcmp( name, szTables );
+    is_columns = !strcmp( name, szColumns );
 
-    coltable[0] = 0;
     TRACE("%p %p %p %s\n", db, stg, st, debugstr_a(name) );
 
     /* read the transform data */
-    read_stream_data( stg, name, &rawdata, &rawsize );
+    r = read_stream_data( stg, name, &rawdata, &rawsize );
+    if ( r != LIBMSI_RESULT_SUCCESS )
+        return r;
     if ( !rawdata )
     {
         TRACE("table %s empty\n", debugstr_a(name) );
-        return LIBMSI_RESULT_INVALID_TABLE;
+        return LIBMSI_RESULT_SUCCESS;
     }
 
     /* create a table view */
@@ -2718,141 +2776,156 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
           debugstr_a(name), tv->num_cols, tv->row_size, rawsize );
 
     /* interpret the data */
-    for (n = 0; n < rawsize;)
+    for (n = 0; n < rawsize; n += sz)
     {
+        const char *table = NULL;
+        unsigned row = 0;
+
+        sz = transform_row_columns( tv, &rawdata[n], rawsize - n, bytes_per_strref, &columns );
+        if (!sz)
+        {
+            g_warning("invalid row in the transform of table %s\n", name);
+            r = LIBMSI_RESULT_INVALID_DATA;
+            goto err;
+        }
         mask = rawdata[n] | (rawdata[n + 1] << 8);
-        if (mask & 1)
+
+        rec = msi_get_transform_record( tv, st, stg, &rawdata[n], columns, bytes_per_strref );
+        if (!rec)
         {
-            /*
-             * if the low bit is set, columns are continuous and
-             * the number of columns is specified in the high byte
-             */
-            sz = 2;
-            num_cols = mask >> 8;
-            for (i = 0; i < num_cols; i++)
-            {
-                if( (tv->columns[i].type & MSITYPE_STRING) &&
-                    ! MSITYPE_IS_BINARY(tv->columns[i].type) )
-                    sz += bytes_per_strref;
-                else
-                    sz += bytes_per_column( tv->db, &tv->columns[i], bytes_per_strref );
-            }
+            r = LIBMSI_RESULT_INVALID_DATA;
+            goto err;
         }
-        else
+
+        if (is_columns)
         {
+            LibmsiTable *t;
+
+            table = _libmsi_record_get_string_raw( rec, 1 );
+            if (!table || !*table)
+            {
+                r = LIBMSI_RESULT_INVALID_DATA;
+                goto err;
+            }
+
             /*
-             * If the low bit is not set, mask is a bitmask.
-             * Excepting for key fields, which are always present,
-             *  each bit indicates that a field is present in the transform record.
-             *
-             * mask == 0 is a special case ... only the keys will be present
-             * and it means that this row should be deleted.
+             * Native msi seems writes nul into the Number (2nd) column of
+             * the _Columns table, only when the columns are from a new table
              */
-            sz = 2;
-            num_cols = tv->num_cols;
-            for (i = 0; i < num_cols; i++)
+            if (libmsi_record_is_null( rec, 2 ))
             {
-                if ((tv->columns[i].type & MSITYPE_KEY) || ((1 << i) & mask))
+                /* reset the column number on a new table */
+                if (!coltable || strcmp( coltable, table ))
                 {
-                    if ((tv->columns[i].type & MSITYPE_STRING) &&
-                        !MSITYPE_IS_BINARY(tv->columns[i].type))
-                        sz += bytes_per_strref;
-                    else
-                        sz += bytes_per_column( tv->db, &tv->columns[i], bytes_per_strref );
+                    colcol = 0;
+                    g_free( coltable );
+                    coltable = g_strdup( table );
                 }
+
+                /* fix nul column numbers */
+                libmsi_record_set_int( rec, 2, ++colcol );
             }
-        }
 
-        /* check we didn't run of the end of the table */
-        if (n + sz > rawsize)
-        {
-            g_critical("borked.\n");
-            dump_table( st, (uint16_t *)rawdata, rawsize );
-            break;
+            /* the rows in the database have the columns the table had so far */
+            if (table_has_columns( db, table ))
+            {
+                r = get_table( db, table, &t );
+                if (r != LIBMSI_RESULT_SUCCESS)
+                    goto err;
+            }
         }
 
-        rec = msi_get_transform_record( tv, st, stg, &rawdata[n], bytes_per_strref );
-        if (rec)
-        {
-            char table[32];
-            unsigned number = LIBMSI_NULL_INT;
-            unsigned row = 0;
+        if (TRACE_ON) dump_record( rec );
 
-            if (!strcmp( name, szColumns ))
+        r = msi_table_find_row( tv, rec, &row, NULL );
+        if (r == LIBMSI_RESULT_SUCCESS)
+        {
+            if (is_tables && !mask)
             {
-                unsigned tablesz = 32;
-                _libmsi_record_get_string( rec, 1, table, &tablesz );
-                number = libmsi_record_get_int( rec, 2 );
-
-                /*
-                 * Native msi seems writes nul into the Number (2nd) column of
-                 * the _Columns table, only when the columns are from a new table
-                 */
-                if ( number == LIBMSI_NULL_INT )
-                {
-                    /* reset the column number on a new table */
-                    if (strcmp( coltable, table ))
-                    {
-                        colcol = 0;
-                        strcpy( coltable, table );
-                    }
-
-                    /* fix nul column numbers */
-                    libmsi_record_set_int( rec, 2, ++colcol );
-                }
+                TRACE("dropping table\n");
+                r = msi_drop_table( db, _libmsi_record_get_string_raw( rec, 1 ) );
             }
-
-            if (TRACE_ON) dump_record( rec );
-
-            r = msi_table_find_row( tv, rec, &row, NULL );
-            if (r == LIBMSI_RESULT_SUCCESS)
+            else if (is_tables || is_columns)
             {
-                if (!mask)
-                {
-                    TRACE("deleting row [%d]:\n", row);
-                    r = table_view_delete_row( &tv->view, row );
-                    if (r != LIBMSI_RESULT_SUCCESS)
-                        g_warning("failed to delete row %u\n", r);
-                }
-                else if (mask & 1)
-                {
-                    TRACE("modifying full row [%d]:\n", row);
-                    r = table_view_set_row( &tv->view, row, rec, MSI_ALL_COLUMNS(tv->num_cols) );
-                    if (r != LIBMSI_RESULT_SUCCESS)
-                        g_warning("failed to modify row %u\n", r);
-                }
-                else
-                {
-                    TRACE("modifying masked row [%d]:\n", row);
-                    r = table_view_set_row( &tv->view, row, rec, mask );
-                    if (r != LIBMSI_RESULT_SUCCESS)
-                        g_warning("failed to modify row %u\n", r);
-                }
+                /* neither a column nor the name of a table can change */
+                r = LIBMSI_RESULT_INVALID_DATA;
+            }
+            else if (!mask)
+            {
+                TRACE("deleting row [%d]:\n", row);
+                r = table_view_delete_row( &tv->view, row );
             }
             else
             {
-                TRACE("inserting row\n");
-                r = table_view_insert_row( &tv->view, rec, -1, false );
-                if (r != LIBMSI_RESULT_SUCCESS)
-                    g_warning("failed to insert row %u\n", r);
+                TRACE("modifying row [%d]:\n", row);
+                r = table_view_set_row( &tv->view, row, rec, columns );
             }
+        }
+        else if (mask & 1)
+        {
+            TRACE("inserting row\n");
+            r = table_view_insert_row( &tv->view, rec, -1, false );
+            if (r == LIBMSI_RESULT_SUCCESS && is_columns && find_cached_table( db, table ))
+                r = msi_update_table_columns( db, table );
+        }
+        else if (is_columns && !mask && !table_view_exists( db, table ))
+        {
+            TRACE("the column went with its table\n");
+            r = LIBMSI_RESULT_SUCCESS;
+        }
+        else
+            r = LIBMSI_RESULT_NOT_FOUND;
 
-            if (number != LIBMSI_NULL_INT && !strcmp( name, szColumns ))
-                msi_update_table_columns( db, table );
-
-            g_object_unref(rec);
+        if (r != LIBMSI_RESULT_SUCCESS)
+        {
+            g_warning("failed to apply a row of the transform to table %s: %u\n", name, r);
+            goto err;
         }
 
-        n += sz;
+        g_object_unref(rec);
+        rec = NULL;
     }
 
 err:
     /* no need to free the table, it's associated with the database */
+    if( rec )
+        g_object_unref(rec);
     msi_free( rawdata );
     if( tv )
         tv->view.ops->delete( &tv->view );
 
-    return LIBMSI_RESULT_SUCCESS;
+    return r;
+}
+
+/* the streams of a transform take the place of those of the database */
+static unsigned msi_apply_transform_streams( LibmsiDatabase *db, GsfInfile *stg )
+{
+    unsigned r = LIBMSI_RESULT_SUCCESS;
+    int i, n = gsf_infile_num_children(stg);
+
+    for (i = 0; i < n && r == LIBMSI_RESULT_SUCCESS; i++)
+    {
+        const char *encname = gsf_infile_name_by_index(stg, i);
+        g_autofree char *name = NULL;
+        GsfInput *stm;
+
+        /* tables and the transform's own description */
+        if (!encname || !strncmp( encname, "\xe4\xa1\x80", 3 ) || encname[0] == 5)
+            continue;
+
+        stm = gsf_infile_child_by_index(stg, i);
+        if (!stm)
+            return LIBMSI_RESULT_INVALID_DATA;
+
+        if (!GSF_IS_INFILE( stm ) || gsf_infile_num_children( GSF_INFILE( stm ) ) < 0)
+        {
+            name = decode_streamname( encname );
+            r = _libmsi_add_stream( db, name, stm );
+        }
+        g_object_unref(G_OBJECT(stm));
+    }
+
+    return r;
 }
 
 /*
@@ -2865,43 +2938,46 @@ unsigned msi_table_apply_transform( LibmsiDatabase *db, GsfInfile *stg )
     struct list transforms;
     TRANSFORMDATA *transform;
     TRANSFORMDATA *tables = NULL, *columns = NULL;
-    unsigned i, n, r;
+    unsigned i, n;
     string_table *strings;
     unsigned ret = LIBMSI_RESULT_FUNCTION_FAILED;
     unsigned bytes_per_strref;
 
     TRACE("%p %p\n", db, stg );
 
+    list_init(&transforms);
+
     strings = msi_load_string_table( stg, &bytes_per_strref );
     if( !strings )
         goto end;
 
     n = gsf_infile_num_children(stg);
 
-    list_init(&transforms);
-
     for (i = 0; i < n; i++)
     {
-        LibmsiTableView *tv = NULL;
-        const uint8_t *encname;
+        const char *encname;
         g_autofree char *name = NULL;
 
-        encname = (const uint8_t *) gsf_infile_name_by_index(stg, i);
-        if ( encname[0] != 0xe4 || encname[1] != 0xa1 || encname[2] != 0x80)
+        encname = gsf_infile_name_by_index(stg, i);
+        if ( !encname || strncmp( encname, "\xe4\xa1\x80", 3 ) )
             continue;
 
-        name = decode_streamname((char*)encname);
+        /* a table stream's name starts with a character of its own */
+        name = decode_streamname(encname);
         if ( !strcmp( name+3, szStringPool ) ||
              !strcmp( name+3, szStringData ) )
             continue;
 
         transform = msi_alloc_zero( sizeof(TRANSFORMDATA) );
         if ( !transform )
-            break;
+        {
+            ret = LIBMSI_RESULT_OUTOFMEMORY;
+            goto end;
+        }
 
         list_add_tail( &transforms, &transform->entry );
 
-        transform->name = strdup( name + 1 );
+        transform->name = strdup( name+3 );
 
         if ( !strcmp( transform->name, szTables ) )
             tables = transform;
@@ -2909,20 +2985,6 @@ unsigned msi_table_apply_transform( LibmsiDatabase *db, GsfInfile *stg )
             columns = transform;
 
         TRACE("transform contains stream %s\n", debugstr_a(name));
-
-        /* load the table */
-        r = table_view_create( db, transform->name, (LibmsiView**) &tv );
-        if( r != LIBMSI_RESULT_SUCCESS )
-            continue;
-
-        r = tv->view.ops->execute( &tv->view, NULL );
-        if( r != LIBMSI_RESULT_SUCCESS )
-        {
-            tv->view.ops->delete( &tv->view );
-            continue;
-        }
-
-        tv->view.ops->delete( &tv->view );
     }
 
     /*
@@ -2930,35 +2992,35 @@ unsigned msi_table_apply_transform( LibmsiDatabase *db, GsfInfile *stg )
      * the table metadata is correct, and empty tables exist.
      */
     ret = msi_table_load_transform( db, stg, strings, tables, bytes_per_strref );
-    if (ret != LIBMSI_RESULT_SUCCESS && ret != LIBMSI_RESULT_INVALID_TABLE)
+    if (ret != LIBMSI_RESULT_SUCCESS)
         goto end;
 
     ret = msi_table_load_transform( db, stg, strings, columns, bytes_per_strref );
-    if (ret != LIBMSI_RESULT_SUCCESS && ret != LIBMSI_RESULT_INVALID_TABLE)
+    if (ret != LIBMSI_RESULT_SUCCESS)
         goto end;
 
-    ret = LIBMSI_RESULT_SUCCESS;
+    LIST_FOR_EACH_ENTRY( transform, &transforms, TRANSFORMDATA, entry )
+    {
+        if ( transform == tables || transform == columns )
+            continue;
 
+        ret = msi_table_load_transform( db, stg, strings, transform, bytes_per_strref );
+        if (ret != LIBMSI_RESULT_SUCCESS)
+            goto end;
+    }
+
+    ret = msi_apply_transform_streams( db, stg );
+
+end:
     while ( !list_empty( &transforms ) )
     {
         transform = LIST_ENTRY( list_head( &transforms ), TRANSFORMDATA, entry );
 
-        if ( strcmp( transform->name, szColumns ) &&
-             strcmp( transform->name, szTables ) &&
-             ret == LIBMSI_RESULT_SUCCESS )
-        {
-            ret = msi_table_load_transform( db, stg, strings, transform, bytes_per_strref );
-        }
-
         list_remove( &transform->entry );
         msi_free( transform->name );
         msi_free( transform );
     }
 
-    if ( ret == LIBMSI_RESULT_SUCCESS )
-        append_storage_to_db( db, stg );
-
-end:
     if ( strings )
         msi_destroy_stringtable( strings );
 
-- 
2.43.0


From a0aca9c146851cc4d0b49449a9bf30b12931fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 36/68] fix: reject '-' as an integer, and wrap long digit
 strings without undefined overflow

---
 libmsi/libmsi-record.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index ad14029..feb2cee 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -155,11 +155,13 @@ libmsi_record_get_field_count (const LibmsiRecord *self)
 
 static bool expr_int_from_string( const char *str, int *out )
 {
-    int x = 0;
+    unsigned x = 0; /* too many digits wrap around */
     const char *p = str;
 
     if( *p == '-' ) /* skip the minus sign */
         p++;
+    if( !*p )
+        return false;
     while ( *p )
     {
         if( (*p < '0') || (*p > '9') )
-- 
2.43.0


From 0a8d091a18cfe9365df8fdd0855daefc9e0faae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 37/68] fix: execute every table of a join, and report a table
 that cannot be

---
 libmsi/where.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index 3e93722..b6ac232 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -781,6 +781,7 @@ static unsigned where_view_execute( LibmsiView *view, LibmsiRecord *record )
     unsigned *rows;
     JOINTABLE **ordered_tables;
     int i = 0;
+    bool empty = false;
 
     TRACE("%p %p\n", wv, record);
 
@@ -793,7 +794,9 @@ static unsigned where_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     do
     {
-        table->view->ops->execute(table->view, NULL);
+        r = table->view->ops->execute(table->view, NULL);
+        if (r != LIBMSI_RESULT_SUCCESS)
+            return r;
 
         r = table->view->ops->get_dimensions(table->view, &table->row_count, NULL);
         if (r != LIBMSI_RESULT_SUCCESS)
@@ -802,12 +805,15 @@ static unsigned where_view_execute( LibmsiView *view, LibmsiRecord *record )
             return r;
         }
 
-        /* each table must have at least one row */
         if (table->row_count == 0)
-            return LIBMSI_RESULT_SUCCESS;
+            empty = true;
     }
     while ((table = table->next));
 
+    /* each table must have at least one row */
+    if (empty)
+        return LIBMSI_RESULT_SUCCESS;
+
     ordered_tables = ordertables( wv );
 
     rows = msi_alloc( wv->table_count * sizeof(*rows) );
-- 
2.43.0


From 21ada9a679eaf68a8e818c47b201bdef105ae5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 38/68] fix: do not enter unreferenced pool strings among the
 used ones

---
 libmsi/string.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 6942939..a1954e7 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -565,9 +565,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
             break;
         }
 
-        r = msi_addstring( st, n, data+offset, len, refs, StringPersistent );
-        if( r != n )
-            g_critical("Failed to add string %d\n", n );
+        /* nothing uses a string without references: its id is free */
+        if ( refs )
+        {
+            r = msi_addstring( st, n, data+offset, len, refs, StringPersistent );
+            if( r != n )
+                g_critical("Failed to add string %d\n", n );
+        }
         n++;
         offset += len;
     }
-- 
2.43.0


From 56a6a115343148f661639dad5ef28b2571c8caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 39/68] fix: reject lone quotes, '*' within lists, oversized
 numbers and empty table names in SQL; bound the depth of conditions

---
 libmsi/query.h      |  1 +
 libmsi/sql-parser.y | 57 ++++++++++++++++++++++++++++++++++-----------
 libmsi/tokenize.c   | 16 ++++++-------
 libmsi/where.c      |  2 +-
 4 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/libmsi/query.h b/libmsi/query.h
index 78791fd..8238174 100644
--- a/libmsi/query.h
+++ b/libmsi/query.h
@@ -82,6 +82,7 @@ union ext_column
 struct expr
 {
     int type;
+    unsigned depth;
     union
     {
         struct complex_expr expr;
diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 22e4572..1eef8cd 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -23,6 +23,7 @@
 
 #include "config.h"
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -34,6 +35,9 @@
 #define YYLEX_PARAM info
 #define YYPARSE_PARAM info
 
+/* the deepest nesting of a condition, counting the terms of a chain of ANDs or ORs */
+#define MAX_EXPR_DEPTH 10000
+
 static int sql_error(void *info, const char *str);
 
 
@@ -51,7 +55,7 @@ typedef struct _LibmsiSQLInput
 } SQL_input;
 
 static unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **str );
-static int sql_atoi( void *info );
+static bool sql_atoi( void *info, int *value );
 static int sql_lex( void *SQL_lval, SQL_input *info );
 
 static char *parser_add_table( void *info, const char *list, const char *table );
@@ -111,7 +115,7 @@ static struct expr * build_expr_wildcard( void *info );
           COLUMN AGG_FUNCTION.
 
 %type <string> table tablelist id string
-%type <column_list> selcollist collist selcolumn column column_and_type column_def table_def
+%type <column_list> selcollist selcolumns collist columns selcolumn column column_and_type column_def table_def
 %type <column_list> column_assignment update_assign_list constlist
 %type <query> query from selectfrom unorderdfrom
 %type <query> oneupdate onedelete oneselect onequery onecreate oneinsert onealter onedrop
@@ -446,27 +450,35 @@ selectfrom:
     ;
 
 selcollist:
+    selcolumns
+  | TK_STAR
+        {
+            $$ = NULL;
+        }
+    ;
+
+selcolumns:
     selcolumn
-  | selcolumn TK_COMMA selcollist
+  | selcolumn TK_COMMA selcolumns
         {
             $1->next = $3;
         }
+    ;
+
+collist:
+    columns
   | TK_STAR
         {
             $$ = NULL;
         }
     ;
 
-collist:
+columns:
     column
-  | column TK_COMMA collist
+  | column TK_COMMA columns
         {
             $1->next = $3;
         }
-  | TK_STAR
-        {
-            $$ = NULL;
-        }
     ;
 
 from:
@@ -745,7 +757,8 @@ string:
 number:
     TK_INTEGER
         {
-            $$ = sql_atoi( info );
+            if( !sql_atoi( info, &$$ ) )
+                YYABORT;
         }
     ;
 
@@ -847,7 +860,8 @@ unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **
     return LIBMSI_RESULT_SUCCESS;
 }
 
-int sql_atoi( void *info )
+/* false if the number does not fit an int */
+static bool sql_atoi( void *info, int *value )
 {
     SQL_input* sql = (SQL_input*) info;
     const char *p = &sql->command[sql->n];
@@ -858,12 +872,15 @@ int sql_atoi( void *info )
         if( '0' > p[i] || '9' < p[i] )
         {
             g_critical("should only be numbers here!\n");
-            break;
+            return false;
         }
+        if( r > ( INT_MAX - (p[i]-'0') ) / 10 )
+            return false;
         r = (p[i]-'0') + r*10;
     }
 
-    return r;
+    *value = r;
+    return true;
 }
 
 static int sql_error(void *info, const char *str )
@@ -877,16 +894,24 @@ static struct expr * build_expr_wildcard( void *info )
     if( e )
     {
         e->type = EXPR_WILDCARD;
+        e->depth = 0;
     }
     return e;
 }
 
 static struct expr * build_expr_complex( void *info, struct expr *l, unsigned op, struct expr *r )
 {
-    struct expr *e = parser_alloc( info, sizeof *e );
+    struct expr *e;
+
+    /* conditions are checked and evaluated recursively */
+    if( l->depth >= MAX_EXPR_DEPTH || r->depth >= MAX_EXPR_DEPTH )
+        return NULL;
+
+    e = parser_alloc( info, sizeof *e );
     if( e )
     {
         e->type = EXPR_COMPLEX;
+        e->depth = 1 + MAX( l->depth, r->depth );
         e->u.expr.left = l;
         e->u.expr.op = op;
         e->u.expr.right = r;
@@ -900,6 +925,7 @@ static struct expr * build_expr_unary( void *info, struct expr *l, unsigned op )
     if( e )
     {
         e->type = EXPR_UNARY;
+        e->depth = 1;
         e->u.expr.left = l;
         e->u.expr.op = op;
         e->u.expr.right = NULL;
@@ -913,6 +939,7 @@ static struct expr * build_expr_column( void *info, const column_info *column )
     if( e )
     {
         e->type = EXPR_COLUMN;
+        e->depth = 0;
         e->u.column.unparsed.column = column->column;
         e->u.column.unparsed.table = column->table;
     }
@@ -925,6 +952,7 @@ static struct expr * build_expr_ival( void *info, int val )
     if( e )
     {
         e->type = EXPR_IVAL;
+        e->depth = 0;
         e->u.ival = val;
     }
     return e;
@@ -936,6 +964,7 @@ static struct expr * build_expr_sval( void *info, const struct sql_str *str )
     if( e )
     {
         e->type = EXPR_SVAL;
+        e->depth = 0;
         if( sql_unescape_string( info, str, (char **)&e->u.sval ) != LIBMSI_RESULT_SUCCESS )
             return NULL; /* e will be freed by query destructor */
     }
diff --git a/libmsi/tokenize.c b/libmsi/tokenize.c
index 20a3327..4a98796 100644
--- a/libmsi/tokenize.c
+++ b/libmsi/tokenize.c
@@ -172,7 +172,6 @@ int sql_get_token(const char *zz, int *tokenType, int *skip){
       *tokenType = TK_SPACE;
       return i;
     case '-':
-      if( z[1]==0 ) return -1;
       *tokenType = TK_MINUS;
       return 1;
     case '(':
@@ -209,7 +208,7 @@ int sql_get_token(const char *zz, int *tokenType, int *skip){
     case '!':
       if( z[1]!='=' ){
         *tokenType = TK_ILLEGAL;
-        return 2;
+        return 1;
       }else{
         *tokenType = TK_NE;
         return 2;
@@ -226,19 +225,18 @@ int sql_get_token(const char *zz, int *tokenType, int *skip){
         if( z[i]==delim )
           break;
       }
-      if( z[i] ) i++;
-      if( delim == '`' )
+      if( !z[i] )
+        *tokenType = TK_ILLEGAL;
+      else if( delim == '`' )
         *tokenType = TK_ID;
       else
         *tokenType = TK_STRING;
+      if( z[i] ) i++;
       return i;
     }
     case '.':
-      if( !isdigit(z[1]) ){
-        *tokenType = TK_DOT;
-        return 1;
-      }
-      /* Fall through */
+      *tokenType = TK_DOT;
+      return 1;
     case '0': case '1': case '2': case '3': case '4':
     case '5': case '6': case '7': case '8': case '9':
       *tokenType = TK_INTEGER;
diff --git a/libmsi/where.c b/libmsi/where.c
index b6ac232..4252c2e 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -1134,7 +1134,7 @@ unsigned where_view_create( LibmsiDatabase *db, LibmsiView **view, char *tables,
     wv->db = g_object_ref(db);
     wv->cond = cond;
 
-    while (*tables)
+    for (;;)
     {
         JOINTABLE *table;
 
-- 
2.43.0


From 1c562bfd0db53df08f0a8cc6725bf70e917fdf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 40/68] fix: archives with a malformed codepage, number, time
 or property id are refused, not stored as zero

---
 libmsi/libmsi-database.c     | 10 ++++-
 libmsi/libmsi-summary-info.c | 82 +++++++++++++++++++++---------------
 2 files changed, 57 insertions(+), 35 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 35a90fc..a2cc8ba 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1127,7 +1127,15 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     if (num_columns == 1 && !columns[0][0] && num_types == 1 && !types[0][0] &&
         num_labels == 2 && !strcmp( labels[1], forcecodepage ))
     {
-        r = msi_set_string_table_codepage( db->strings, atoi( labels[0] ) );
+        char *end;
+        long codepage = strtol( labels[0], &end, 10 );
+
+        if (end == labels[0] || *end || codepage < 0 || codepage > G_MAXUINT16)
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+            goto done;
+        }
+        r = msi_set_string_table_codepage( db->strings, codepage );
         goto done;
     }
 
diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 8d4aa4a..08506b4 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -21,6 +21,8 @@
 #include <stdarg.h>
 #include <time.h>
 #include <assert.h>
+#include <errno.h>
+#include <stdlib.h>
 
 #include "libmsi-summary-info.h"
 
@@ -259,53 +261,39 @@ static gchar* filetime_to_string (guint64 ft)
     ft -= 134774ULL * 86400ULL;
 
     dt = g_date_time_new_from_unix_local(ft);
+    if (!dt)
+        return g_strdup ("");
 
     return g_date_time_format(dt, "%Y/%m/%d %H:%M:%S");
 }
 
-static void parse_filetime( const char *str, guint64 *ft )
+/* YYYY/MM/DD hh:mm:ss, local time */
+static bool parse_filetime( const char *str, guint64 *ft )
 {
-    /* set to 0, tm_isdst can make the result vary: */
+    /* tm_isdst can make the result vary */
     struct tm tm = { 0, };
+    int end = 0;
     time_t t;
-    const char *p = str;
-    char *end;
-
-
-    /* YYYY/MM/DD hh:mm:ss */
-
-    while ( *p == ' ' || *p == '\t' ) p++;
-
-    tm.tm_year = strtol( p, &end, 10 ) - 1900;
-    if (*end != '/') return;
-    p = end + 1;
 
-    tm.tm_mon = strtol( p, &end, 10 ) - 1;
-    if (*end != '/') return;
-    p = end + 1;
+    if (sscanf( str, " %d/%d/%d %d:%d:%d%n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday,
+                &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &end ) != 6 || str[end])
+        return false;
 
-    tm.tm_mday = strtol( p, &end, 10 );
-    if (*end != ' ') return;
-    p = end + 1;
-
-    while ( *p == ' ' || *p == '\t' ) p++;
-
-    tm.tm_hour = strtol( p, &end, 10 );
-    if (*end != ':') return;
-    p = end + 1;
-
-    tm.tm_min = strtol( p, &end, 10 );
-    if (*end != ':') return;
-    p = end + 1;
-
-    tm.tm_sec = strtol( p, &end, 10 );
+    if (tm.tm_year < 1601 || tm.tm_year > 30827 || tm.tm_mon < 1 || tm.tm_mon > 12 ||
+        tm.tm_mday < 1 || tm.tm_mday > 31 || !g_date_valid_dmy( tm.tm_mday, tm.tm_mon, tm.tm_year ) ||
+        tm.tm_hour < 0 || tm.tm_hour > 23 || tm.tm_min < 0 || tm.tm_min > 59 ||
+        tm.tm_sec < 0 || tm.tm_sec > 59)
+        return false;
 
+    tm.tm_year -= 1900;
+    tm.tm_mon -= 1;
     t = mktime(&tm);
 
     /* Add number of seconds between 1601-01-01 and 1970-01-01,
      * then convert to 100 ns units.
      */
     *ft = (t + 134774ULL * 86400ULL) * 10000000ULL;
+    return true;
 }
 
 /* FIXME: doesn't deal with endian conversion */
@@ -999,25 +987,51 @@ libmsi_summary_info_set_filetime (LibmsiSummaryInfo *self, LibmsiProperty prop,
     return TRUE;
 }
 
+static bool parse_int( const char *str, long min, long max, int *value )
+{
+    char *end;
+    long v;
+
+    errno = 0;
+    v = strtol( str, &end, 10 );
+    if (end == str || *end || g_ascii_isspace( *str ) || errno || v < min || v > max)
+        return false;
+
+    *value = v;
+    return true;
+}
+
 static unsigned parse_prop( const char *prop, const char *value, unsigned *pid, int *int_value,
                         guint64 *ft_value, char **str_value )
 {
-    *pid = atoi( prop );
+    int id;
+
+    if (!parse_int( prop, 0, LIBMSI_PROPERTY_SECURITY, &id ))
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
+    *pid = id;
     switch (*pid)
     {
     case LIBMSI_PROPERTY_CODEPAGE:
+        /* stored in 16 bits */
+        if (!parse_int( value, G_MININT16, G_MAXUINT16, int_value ))
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+        break;
+
     case LIBMSI_PROPERTY_SOURCE:
     case LIBMSI_PROPERTY_RESTRICT:
     case LIBMSI_PROPERTY_SECURITY:
     case LIBMSI_PROPERTY_VERSION:
-        *int_value = atoi( value );
+        if (!parse_int( value, G_MININT32, G_MAXINT32, int_value ))
+            return LIBMSI_RESULT_FUNCTION_FAILED;
         break;
 
     case LIBMSI_PROPERTY_EDITTIME:
     case LIBMSI_PROPERTY_LASTPRINTED:
     case LIBMSI_PROPERTY_CREATED_TM:
     case LIBMSI_PROPERTY_LASTSAVED_TM:
-        parse_filetime( value, ft_value );
+        if (!parse_filetime( value, ft_value ))
+            return LIBMSI_RESULT_FUNCTION_FAILED;
         break;
 
     case LIBMSI_PROPERTY_SUBJECT:
-- 
2.43.0


From 4333eb9e269d78c087f4c33d966637e6b8ef4d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 41/68] fix: msibuild stops at the first failing edit without
 committing, and steps over exactly the operands of an option

---
 tools/msibuild.c | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index ef7c875..7bbe259 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -102,7 +102,6 @@ static gboolean open_database(const char *msifile, LibmsiDatabase **db,
         if (!libmsi_database_commit(*db, error))
         {
             fprintf(stderr, "failed to commit database\n");
-            g_object_unref(*db);
             goto end;
         }
     }
@@ -183,7 +182,8 @@ static gboolean add_stream(const char *stream, const char *file, GError **error)
     rec = libmsi_record_new(2);
     libmsi_record_set_string(rec, 1, stream);
     if (!libmsi_record_load_stream(rec, 2, file)) {
-        fprintf(stderr, "failed to load stream (%u)\n", r);
+        g_set_error(error, G_FILE_ERROR, G_FILE_ERROR_FAILED,
+                    "failed to load stream from %s", file);
         goto end;
     }
 
@@ -203,7 +203,7 @@ end:
     if (rec)
         g_object_unref(rec);
     if (query) {
-        libmsi_query_close(query, error);
+        libmsi_query_close(query, NULL);
         g_object_unref(query);
     }
 
@@ -231,7 +231,7 @@ static int do_query(const char *sql, void *opaque)
 
 end:
     if (query) {
-        libmsi_query_close(query, error);
+        libmsi_query_close(query, NULL);
         g_object_unref(query);
     }
 
@@ -275,15 +275,17 @@ int main(int argc, char *argv[])
     } else {
         success = open_database(argv[1], &db, &error);
     }
-    if (!success) return 1;
+    if (!success)
+        goto end;
 
+    success = FALSE;
     argc -= 2, argv += 2;
     while (argc > 0) {
         int ret;
-        if (argc < 2 || argv[0][0] != '-' || argv[0][2])
+        if (argc < 2 || argv[0][0] != '-' || !argv[0][1] || argv[0][2])
         {
             show_usage();
-            return 1;
+            goto end;
         }
 
         switch (argv[0][1])
@@ -298,12 +300,12 @@ int main(int argc, char *argv[])
                                   n > 3 ? argv[3] : NULL,
                                   n > 4 ? argv[4] : NULL, &error))
                 goto end;
-            argc -= n + 1, argv += n + 1;
+            argc -= n, argv += n;
             break;
         case 'i':
             do {
                 if (!import_table(argv[1], &error))
-                    break;
+                    goto end;
 
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
@@ -316,14 +318,18 @@ int main(int argc, char *argv[])
                     ret = sql_get_statement("", do_query, &error);
                 }
                 if (ret) {
-                    break;
+                    goto end;
                 }
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
             argc--, argv++;
             break;
         case 'a':
-            if (argc < 3) break;
+            if (argc < 3)
+            {
+                show_usage();
+                goto end;
+            }
             if (!add_stream(argv[1], argv[2], &error))
                 goto end;
             argc -= 3, argv += 3;
@@ -331,21 +337,24 @@ int main(int argc, char *argv[])
         default:
             fprintf(stdout, "unknown option\n");
             show_usage();
-            break;
+            goto end;
         }
     }
 
     if (!libmsi_database_commit(db, &error))
         goto end;
 
+    success = TRUE;
+
 end:
-    g_object_unref(db);
+    if (db)
+        g_object_unref(db);
 
     if (error != NULL) {
         g_printerr("error: %s\n", error->message);
         g_clear_error(&error);
-        exit(1);
+        success = FALSE;
     }
 
-    return 0;
+    return success ? 0 : 1;
 }
-- 
2.43.0


From d328590c00a9621aeb1d15125e2c373cc3756ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 42/68] fix: msibuild ignores blank statements around
 separators

---
 tools/sqldelim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/sqldelim.c b/tools/sqldelim.c
index ed2e2b1..3700db0 100644
--- a/tools/sqldelim.c
+++ b/tools/sqldelim.c
@@ -230,7 +230,7 @@ stmt:
             cont = false;
             stmt = g_strndup(str.str, str.len);
             g_string_erase(&str, 0, str.len);
-            if (stmt[0]) {
+            if (*g_strchug(stmt)) {
                 ret = fn(stmt, opaque);
             }
             free(stmt);
-- 
2.43.0


From ce397a622c13b054be71d552cb97ea074cf2d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 43/68] fix: msibuild does not crash on an empty query text

---
 tools/sqldelim.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/sqldelim.c b/tools/sqldelim.c
index 3700db0..79d9fc4 100644
--- a/tools/sqldelim.c
+++ b/tools/sqldelim.c
@@ -228,6 +228,8 @@ int sql_get_statement(const char *start,
         if (done) {
 stmt:
             cont = false;
+            if (!str.len)
+                continue;
             stmt = g_strndup(str.str, str.len);
             g_string_erase(&str, 0, str.len);
             if (*g_strchug(stmt)) {
-- 
2.43.0


From dade03c1cb7e77e988366f055bf28ee813662d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:14 +0000
Subject: [PATCH 44/68] fix: msiinfo export -s names the real primary keys,
 separates and quotes values as SQL has them, and msiinfo reports missing
 streams and failed writes

---
 tools/msiinfo.c | 82 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 29 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index f029ef8..4569505 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -378,14 +378,25 @@ static int cmd_extract(struct Command *cmd, int argc, char **argv, GError **erro
     g_object_unref(rec);
 
     rec = libmsi_query_fetch(query, error);
+    r = 1;
     if (*error)
         goto end;
+    if (!rec) {
+        g_set_error(error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_NOT_FOUND,
+                    "no stream %s", argv[2]);
+        goto end;
+    }
 
 #if O_BINARY
     _setmode(STDOUT_FILENO, O_BINARY);
 #endif
 
-    in = G_INPUT_STREAM (libmsi_record_get_stream(rec, 1));
+    in = libmsi_record_get_stream(rec, 1);
+    if (!in) {
+        g_set_error(error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_INVALID_DATA,
+                    "stream %s cannot be read", argv[2]);
+        goto end;
+    }
     for (;;) {
         n_read = g_input_stream_read (in, buffer, sizeof (buffer), NULL, error);
         if (n_read == -1)
@@ -427,7 +438,7 @@ static gboolean export_create_table(const char *table,
         !strcmp(table, "_Columns") ||
         !strcmp(table, "_Streams") ||
         !strcmp(table, "_Storages")) {
-        return 0;
+        return TRUE;
     }
 
     printf("CREATE TABLE `%s` (", table);
@@ -480,7 +491,7 @@ static gboolean export_create_table(const char *table,
 
     for (i = 1; i <= num_keys; i++)
     {
-        name = libmsi_record_get_string(names, i);
+        name = libmsi_record_get_string(keys, i);
         g_return_val_if_fail(name != NULL, FALSE);
 
         printf("%s `%s`", (i > 1 ? "," : " PRIMARY KEY"), name);
@@ -490,28 +501,28 @@ static gboolean export_create_table(const char *table,
     return TRUE;
 }
 
-static void print_quoted_string(const char *s)
+/* There are no escapes in a string literal.  */
+static gboolean print_quoted_string(const char *s, GError **error)
 {
-    putchar('\'');
-    for (; *s; s++) {
-        switch (*s) {
-        case '\n': putchar('\\'); putchar('n'); break;
-        case '\r': putchar('\\'); putchar('r'); break;
-        case '\\': putchar('\\'); putchar('\\'); break;
-        case '\'': putchar('\\'); putchar('\''); break;
-        default: putchar(*s);
-        }
+    if (strchr(s, '\'')) {
+        g_set_error(error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_INVALID_DATA,
+                    "no SQL literal for a string with a quote: %s", s);
+        return FALSE;
     }
-    putchar('\'');
+
+    printf("'%s'", s);
+    return TRUE;
 }
 
 static gboolean export_insert(const char *table,
                               LibmsiRecord *names,
                               LibmsiRecord *types,
-                              LibmsiRecord *vals)
+                              LibmsiRecord *vals,
+                              GError **error)
 {
     guint num_columns = libmsi_record_get_field_count(names);
     gchar *name, *type;
+    gboolean first = TRUE, ok = TRUE;
     guint i;
     char *s;
 
@@ -525,23 +536,26 @@ static gboolean export_insert(const char *table,
         name = libmsi_record_get_string(names, i);
         g_return_val_if_fail(name != NULL, FALSE);
 
-        if (i > 1) {
+        if (!first) {
             printf(", ");
         }
+        first = FALSE;
 
         printf("`%s`", name);
         g_free(name);
     }
     printf(") VALUES (");
+    first = TRUE;
     for (i = 1; i <= num_columns; i++)
     {
         if (libmsi_record_is_null(vals, i)) {
             continue;
         }
 
-        if (i > 1) {
+        if (!first) {
             printf(", ");
         }
+        first = FALSE;
 
         type = libmsi_record_get_string(types, i);
         g_return_val_if_fail(type != NULL, FALSE);
@@ -551,7 +565,7 @@ static gboolean export_insert(const char *table,
             case 'l': case 'L':
             case 's': case 'S':
                 s = libmsi_record_get_string(vals, i);
-                print_quoted_string(s);
+                ok = print_quoted_string(s, error);
                 g_free(s);
                 break;
 
@@ -566,6 +580,8 @@ static gboolean export_insert(const char *table,
         }
 
         g_free(type);
+        if (!ok)
+            return FALSE;
     }
     printf(")\n");
     return TRUE;
@@ -584,7 +600,8 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
 
     sql = g_strdup_printf("select * from `%s`", table);
     query = libmsi_query_new(db, sql, error);
-    if (*error) {
+    g_free(sql);
+    if (!query || !libmsi_query_execute(query, NULL, error)) {
         goto done;
     }
 
@@ -610,8 +627,9 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
         goto done;
 
     /* write out row 4 onwards, the data */
+    success = TRUE;
     while ((rec = libmsi_query_fetch(query, &err))) {
-        success = export_insert(table, name, type, rec);
+        success = export_insert(table, name, type, rec, error);
         g_object_unref(rec);
         if (!success) {
             break;
@@ -623,13 +641,11 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
         success = FALSE;
     }
 
-    g_clear_error(&err);
-
 done:
-    g_object_unref(name);
-    g_object_unref(type);
-    g_object_unref(keys);
-    g_object_unref(query);
+    g_clear_object(&name);
+    g_clear_object(&type);
+    g_clear_object(&keys);
+    g_clear_object(&query);
     return success;
 }
 
@@ -637,6 +653,7 @@ static int cmd_export(struct Command *cmd, int argc, char **argv, GError **error
 {
     LibmsiDatabase *db = NULL;
     gboolean sql = FALSE;
+    int r = 0;
 
     if (argc > 1 && !strcmp(argv[1], "-s")) {
         sql = TRUE;
@@ -654,7 +671,7 @@ static int cmd_export(struct Command *cmd, int argc, char **argv, GError **error
 
     if (sql) {
         if (!export_sql(db, argv[2], error))
-            return 1;
+            r = 1;
     } else {
 #if O_BINARY
         _setmode(STDOUT_FILENO, O_BINARY);
@@ -667,7 +684,7 @@ end:
     if (db)
         g_object_unref(db);
 
-    return *error ? 1 : 0;
+    return *error ? 1 : r;
 }
 
 static int cmd_version(struct Command *cmd, int argc, char **argv, GError **error)
@@ -770,8 +787,15 @@ int main(int argc, char **argv)
     int result = cmd->func(cmd, argc - 1, argv + 1, &error);
     if (error != NULL) {
         g_printerr("error: %s\n", error->message);
-        print_libmsi_error(error->code);
+        if (error->domain == LIBMSI_RESULT_ERROR)
+            print_libmsi_error(error->code);
         g_clear_error(&error);
+        result = 1;
+    }
+
+    if (fflush(stdout) || ferror(stdout)) {
+        perror("write");
+        result = 1;
     }
 
     return result;
-- 
2.43.0


From 44ab634f7a75e52565956d629d5fcd6023c4fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 45/68] fix: an archive whose key columns do not come first is
 imported by column name

---
 libmsi/libmsi-database.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index a2cc8ba..35cc6ff 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -963,7 +963,7 @@ done:
     return r;
 }
 
-static unsigned construct_record(unsigned num_columns, char **types,
+static unsigned construct_record(unsigned num_columns, char **types, const unsigned *fields,
                              char **data, const char *name, LibmsiRecord **rec)
 {
     unsigned i;
@@ -977,7 +977,7 @@ static unsigned construct_record(unsigned num_columns, char **types,
         switch (types[i][0])
         {
             case 'L': case 'l': case 'S': case 's':
-                libmsi_record_set_string(*rec, i + 1, data[i]);
+                libmsi_record_set_string(*rec, fields[i], data[i]);
                 break;
             case 'I': case 'i':
                 if (*data[i])
@@ -991,7 +991,7 @@ static unsigned construct_record(unsigned num_columns, char **types,
                         g_object_unref(*rec);
                         return LIBMSI_RESULT_FUNCTION_FAILED;
                     }
-                    libmsi_record_set_int(*rec, i + 1, val);
+                    libmsi_record_set_int(*rec, fields[i], val);
                 }
                 break;
             case 'V': case 'v':
@@ -999,7 +999,7 @@ static unsigned construct_record(unsigned num_columns, char **types,
                 {
                     unsigned r;
                     char *file = g_build_filename (name, data[i], NULL);
-                    r = _libmsi_record_load_stream_from_file(*rec, i + 1, file);
+                    r = _libmsi_record_load_stream_from_file(*rec, fields[i], file);
                     g_free (file);
                     if (r != LIBMSI_RESULT_SUCCESS)
                     {
@@ -1023,6 +1023,7 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
                                      int num_columns, int num_records)
 {
     unsigned r, num_rows, num_cols;
+    g_autofree unsigned *fields = NULL;
     int i;
     LibmsiView *view;
     LibmsiRecord *rec;
@@ -1041,23 +1042,35 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
         r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto done;
     }
+    fields = g_new0(unsigned, num_columns);
     for (i = 0; i < num_columns; i++)
     {
         const char *name;
-        unsigned type;
+        unsigned type, n;
         bool is_string, is_binary;
+        int j;
 
         r = view->ops->get_column_info( view, i + 1, &name, &type, NULL, NULL );
         if (r != LIBMSI_RESULT_SUCCESS)
             goto done;
 
+        /* the key columns come first in the table, wherever the archive has them */
+        for (j = n = 0; j < num_columns; j++)
+        {
+            if (!fields[j] && !strcmp( name, columns[j] ))
+            {
+                fields[j] = n = i + 1;
+                break;
+            }
+        }
+
         is_binary = MSITYPE_IS_BINARY(type);
         is_string = !is_binary && (type & MSITYPE_STRING);
-        if (strcmp( name, columns[i] ) ||
-            is_binary != (types[i][0] == 'v' || types[i][0] == 'V') ||
-            is_string != (types[i][0] && strchr( "lLsS", types[i][0] )))
+        if (!n ||
+            is_binary != (types[j][0] == 'v' || types[j][0] == 'V') ||
+            is_string != (types[j][0] && strchr( "lLsS", types[j][0] )))
         {
-            g_warning("column %s does not match the table\n", columns[i]);
+            g_warning("column %s does not match the table\n", name);
             r = LIBMSI_RESULT_FUNCTION_FAILED;
             goto done;
         }
@@ -1072,7 +1085,7 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
 
     for (i = 0; i < num_records; i++)
     {
-        r = construct_record(num_columns, types, records[i], labels[0], &rec);
+        r = construct_record(num_columns, types, fields, records[i], labels[0], &rec);
         if (r != LIBMSI_RESULT_SUCCESS)
             goto done;
 
-- 
2.43.0


From fc96ecf03a1c872075914e5281276020c9918260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 46/68] fix: white space before a number of an archive is
 refused like white space after it

---
 libmsi/libmsi-database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 35cc6ff..79aa8ed 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -985,7 +985,7 @@ static unsigned construct_record(unsigned num_columns, char **types, const unsig
                     char *end;
                     gint64 val = g_ascii_strtoll(data[i], &end, 10);
 
-                    if (*end || val <= G_MININT32 || val > G_MAXINT32)
+                    if (*end || g_ascii_isspace(*data[i]) || val <= G_MININT32 || val > G_MAXINT32)
                     {
                         g_warning("invalid integer %s\n", data[i]);
                         g_object_unref(*rec);
-- 
2.43.0


From fd23fbd9898688d50387387ab232aa14aa82bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 47/68] fix: msidump keeps odd names whole, writes nothing
 outside the directory and reports failures

---
 tools/msidump.in | 49 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/tools/msidump.in b/tools/msidump.in
index a6e3b7c..e470595 100644
--- a/tools/msidump.in
+++ b/tools/msidump.in
@@ -72,6 +72,10 @@ while true ; do
             signature=true
             ;;
         -d|--directory)
+            if [[ $# -lt 2 ]] ; then
+                usage
+                exit 1
+            fi
             destdir=$2
             shift
             ;;
@@ -119,26 +123,45 @@ signature=${signature:-false}
 
 # Here we go
 
+# Names come from the package: keep what they name below the directory.
+safe()
+{
+    case $1 in
+        */*|.|..)
+            echo "Error: unsafe name: '$1'" >&2
+            result=1
+            return 1
+            ;;
+    esac
+}
+
+result=0
+msifile=$(realpath -- "$1")
+cd -- "$destdir"
+
 if $tables ; then
-    TABLES=$(msiinfo tables "$1")
-    for i in $TABLES; do
+    TABLES=$(msiinfo tables "$msifile")
+    while IFS= read -r i; do
+        [[ -n $i ]] && safe "$i" || continue
         echo "Exporting table $i..."
-        msiinfo export "$1" "$i" > "$destdir/$i.idt"
-    done
+        msiinfo export "$msifile" "$i" > "./$i.idt"
+    done <<< "$TABLES"
 fi
 
 if $streams ; then
-    mkdir -p "$destdir/_Streams"
-    STREAMS=$(msiinfo streams "$1")
-    for i in $STREAMS; do
+    mkdir -p _Streams
+    STREAMS=$(msiinfo streams "$msifile")
+    while IFS= read -r i; do
+        [[ -n $i ]] && safe "$i" || continue
         echo "Exporting stream $i..."
-        msiinfo extract "$1" "$i" > "$destdir/_Streams/$i"
-    done
+        msiinfo extract "$msifile" "$i" > "_Streams/$i"
+    done <<< "$STREAMS"
 fi
 
 if $signature ; then
-    signature="$destdir/signature"
-    echo "Exporting asn1parsed $signature ..."
-    rm -f "$signature"
-    (msiinfo extract "$1" $'\005DigitalSignature' 2>/dev/null | openssl asn1parse -i -inform de > "$signature") || true
+    echo "Exporting asn1parsed $destdir/signature ..."
+    rm -f signature
+    (msiinfo extract "$msifile" $'\005DigitalSignature' 2>/dev/null | openssl asn1parse -i -inform de > signature) || true
 fi
+
+exit $result
-- 
2.43.0


From 078bb2083df4fe2c3de36da3d7c347c077aa4ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 48/68] fix: msiextract stays inside the directory and reports
 broken packages instead of crashing or looping

---
 tools/msiextract.vala | 51 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index f19e07c..7c2af70 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -22,6 +22,16 @@ public string get_long_name (string str) {
     return str;
 }
 
+// Names come from the package: whether a path made of them stays below the
+// directory it is extracted to. Cabinets separate by backslashes.
+public bool is_safe_path (string path) {
+    foreach (var part in path.replace ("\\", "/").split ("/"))
+        if (part == "..")
+            return false;
+
+    return !Path.is_absolute (path.replace ("\\", "/"));
+}
+
 // Look for a case insensitive match of cab in the directory dir.
 public string lookup_cab (string dir, string cab) throws GLib.Error
 {
@@ -48,13 +58,20 @@ public void extract_cab (Libmsi.Database db, string cab,
 
     if (cab.has_prefix ("#")) {
         var name = cab.substring (1);
-        var query = new Libmsi.Query (db, "SELECT `Data` FROM `_Streams` WHERE `Name` = '%s'".printf (name));
-        query.execute ();
+        var query = new Libmsi.Query (db, "SELECT `Data` FROM `_Streams` WHERE `Name` = ?");
+        var param = new Libmsi.Record (1);
+        param.set_string (1, name);
+        query.execute (param);
         var rec = query.fetch ();
-        cabinet.load (rec.get_stream (1));
+        var stream = rec != null ? rec.get_stream (1) : null;
+        if (stream == null)
+            throw new IOError.NOT_FOUND ("no cabinet " + cab);
+        cabinet.load (stream);
     }
     else {
         // Look for the cab file in the directory the MSI file resides in.
+        if (cab.contains ("/"))
+            throw new IOError.INVALID_FILENAME ("unsafe name: " + cab);
         var dbpath = File.new_for_path (db.path).get_parent ();
         cab = lookup_cab (dbpath.get_path (), cab);
 
@@ -66,20 +83,28 @@ public void extract_cab (Libmsi.Database db, string cab,
     }
 
     var path = File.new_for_path (directory);
+    string? unsafe = null;
     cabinet.extract_simple (path, (current) => {
             var extname = cab_to_name.lookup (current.get_name ());
             if (extname == null) {
                 extname = current.get_name ();
                 warning ("couldn't lookup MSI name, fallback on cab name %s", extname);
             }
+            if (!is_safe_path (extname)) {
+                unsafe = extname;
+                return false;
+            }
             current.set_extract_name (extname);
             GLib.stdout.printf ("%s\n", extname);
             return true;
         }, null);
+    if (unsafe != null)
+        throw new IOError.INVALID_FILENAME ("unsafe name: " + unsafe);
 }
 
 public string? get_directory_name (Libmsi.Record rec) throws GLib.Error {
-    var name = get_long_name (rec.get_string (3));
+    // the target name, which the source name may follow
+    var name = get_long_name (rec.get_string (3).split (":", 2)[0]);
 
     // only by intuition...
     if (rec.get_string (1) == "ProgramFilesFolder")
@@ -106,13 +131,21 @@ public void extract (string filename) throws GLib.Error {
     while ((rec = query.fetch ()) != null) {
         var dir_id = rec.get_string (3);
         var dir_rec = directories.lookup (dir_id);
+        if (dir_rec == null)
+            throw new IOError.NOT_FOUND ("no directory " + dir_id);
         var dir = get_directory_name (dir_rec);
 
-        do {
+        for (uint depth = 0; ; depth++) {
+            var id = dir_rec.get_string (1);
             var parent = dir_rec.get_string (2);
+            // the root is its own parent, or has none
+            if (parent == id)
+                break;
             dir_rec = directories.lookup (parent);
             if (dir_rec == null)
                 break;
+            if (depth > directories.size ())
+                throw new IOError.INVALID_DATA ("directory %s is below itself".printf (dir_id));
             parent = get_directory_name (dir_rec);
             if (parent == null)
                 break;
@@ -120,7 +153,7 @@ public void extract (string filename) throws GLib.Error {
                 continue;
 
             dir = Path.build_filename (parent, dir);
-        } while (true);
+        }
 
         components_dir.insert (rec.get_string (1), dir);
     }
@@ -130,14 +163,18 @@ public void extract (string filename) throws GLib.Error {
     query.execute ();
     while ((rec = query.fetch ()) != null) {
         var dir = components_dir.lookup (rec.get_string (2));
+        if (dir == null)
+            throw new IOError.NOT_FOUND ("no component " + rec.get_string (2));
         var file = Path.build_filename (dir, get_long_name (rec.get_string (3)));
         if (list_only)
             GLib.stdout.printf ("%s\n", file);
+        else if (!is_safe_path (file))
+            throw new IOError.INVALID_FILENAME ("unsafe name: " + file);
         cab_to_name.insert (rec.get_string (1), file);
     }
 
     if (list_only)
-        exit (0);
+        return;
 
     query = new Libmsi.Query (db, "SELECT * FROM `Media`");
     query.execute ();
-- 
2.43.0


From c8655162990c1e54aec6ec553ec37a254d4fb7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 49/68] fix: wixl preprocessor knows elseif, compares numbers
 of variables, expands definitions, ignores unselected directives and keeps a
 lone dollar

Numeric comparisons of variables always took them as 0; directives inside
an unselected branch were still evaluated; undef of var.NAME did nothing;
messages were used as a format; endless includes ended in a crash.
---
 tools/wixl/preprocessor.vala | 67 +++++++++++++++++++++++++-----------
 tools/wixl/util.vala         |  2 ++
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 1769d3c..3a35f10 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -82,7 +82,8 @@ namespace Wixl {
                         throw new Wixl.Error.FAILED ("Undefined variable %s", substring);
                     result += val;
                     end += closing + 1;
-                }
+                } else if (pos == 0 || str[pos - 1] != '$')
+                    result += "$";
             }
 
             return result + str[end:str.length];
@@ -185,7 +186,14 @@ namespace Wixl {
                 throw new Wixl.Error.FAILED ("Invalid term");
             }
 
-            int to_int (Value val) {
+            int to_int (Value val) throws GLib.Error {
+                if (val.holds (typeof (string))) {
+                    int number = 0;
+                    if (val.get_string () == null || val.get_string () == "" || !int.try_parse (val.get_string (), out number))
+                        throw new Wixl.Error.FAILED ("Expected a number: %s", val.get_string ());
+                    return number;
+                }
+
                 Value result = 0;
                 val.transform (ref result);
                 return result.get_int ();
@@ -336,7 +344,7 @@ namespace Wixl {
         }
 
         void print (string prefix, Location loc, string msg) {
-            stderr.printf (loc.to_string () + ": " + prefix + ": " + msg + "\n");
+            stderr.printf ("%s: %s: %s\n", loc.to_string (), prefix, msg);
         }
 
         class IfContext {
@@ -374,6 +382,10 @@ namespace Wixl {
             }
         }
 
+        string argument (Xml.TextReader reader) {
+            return (reader.const_value () ?? "").strip ();
+        }
+
         void preprocess_xml (Xml.TextReader reader, Xml.TextWriter writer, File? file, bool is_include = false) throws GLib.Error {
             IfContext context = new IfContext (true, true);
             var ifstack = new Queue<IfContext> ();
@@ -389,13 +401,13 @@ namespace Wixl {
                     switch (reader.const_local_name ()) {
                     case "ifdef":
                         ifstack.push_head (context);
-                        var value = reader.const_value ().strip ();
-                        context = new IfContext (context.enabled && context.is_true, eval_variable (value, file) != null, IfContext.State.IF);
+                        var enabled = context.enabled && context.is_true;
+                        context = new IfContext (enabled, enabled && eval_variable (argument (reader), file) != null, IfContext.State.IF);
                         break;
                     case "ifndef":
                         ifstack.push_head (context);
-                        var value = reader.const_value ().strip ();
-                        context = new IfContext (context.enabled && context.is_true, eval_variable (value, file) == null, IfContext.State.IF);
+                        var enabled = context.enabled && context.is_true;
+                        context = new IfContext (enabled, enabled && eval_variable (argument (reader), file) == null, IfContext.State.IF);
                         break;
                     case "else":
                         if (ifstack.is_empty ())
@@ -412,8 +424,16 @@ namespace Wixl {
                         break;
                     case "if":
                         ifstack.push_head (context);
-                        var value = reader.const_value ().strip ();
-                        context = new IfContext (context.enabled && context.is_true, eval_condition (value, file), IfContext.State.IF);
+                        var enabled = context.enabled && context.is_true;
+                        context = new IfContext (enabled, enabled && eval_condition (argument (reader), file), IfContext.State.IF);
+                        break;
+                    case "elseif":
+                        if (ifstack.is_empty ())
+                            throw new Wixl.Error.FAILED ("Unmatched elseif");
+                        if (!context.state.in_if ())
+                            throw new Wixl.Error.FAILED ("Unmatched elseif");
+                        context.state = IfContext.State.ELSEIF;
+                        context.is_true = context.enabled && context.never_true && eval_condition (argument (reader), file);
                         break;
                     default:
                         handled = false;
@@ -430,30 +450,30 @@ namespace Wixl {
                     case "define":
                         MatchInfo info;
                         var r = /^\s*(?P<name>.+?)\s*=\s*(?P<value>.+?)\s*$/;
-                        if (r.match (reader.const_value (), 0, out info)) {
+                        var definition = argument (reader);
+                        if (r.match (definition, 0, out info)) {
                             var name = remove_prefix ("var.", info.fetch_named ("name"));
-                            var value = unquote (info.fetch_named ("value"));
+                            var value = eval (unquote (info.fetch_named ("value")), file);
                             define_variable (name, value);
                         } else
                             throw new Wixl.Error.FAILED ("invalid define");
                         break;
                     case "undef":
-                        var value = reader.const_value ().strip ();
-                        undefine_variable (value);
+                        undefine_variable (remove_prefix ("var.", argument (reader)));
                         break;
                     case "require":
-                        var value = eval (reader.const_value (), file).strip ();
+                        var value = eval (argument (reader), file);
                         include (value, loc, writer, true);
                         break;
                     case "include":
-                        var value = eval (reader.const_value (), file).strip ();
+                        var value = eval (argument (reader), file);
                         include (value, loc, writer);
                         break;
                     case "warning":
-                        print ("warning", loc, eval (reader.const_value (), file));
+                        print ("warning", loc, eval (argument (reader), file));
                         break;
                     case "error":
-                        print ("error", loc, eval (reader.const_value (), file));
+                        print ("error", loc, eval (argument (reader), file));
                         Posix.exit (1);
                         break;
                     default:
@@ -498,6 +518,7 @@ namespace Wixl {
                 throw new Wixl.Error.FAILED ("Failed to parse XML");
         }
 
+        uint include_depth = 0;
         bool include_try (string filename, Xml.TextWriter writer) throws GLib.Error {
             string data;
             var file = File.new_for_path (filename);
@@ -508,8 +529,12 @@ namespace Wixl {
                 return false;
             }
 
+            if (include_depth >= 128)
+                throw new Wixl.Error.FAILED ("Too many nested includes: %s", filename);
+            include_depth++;
             var reader = new Xml.TextReader.for_doc (data, "");
             preprocess_xml (reader, writer, file, true);
+            include_depth--;
             return true;
         }
 
@@ -526,9 +551,11 @@ namespace Wixl {
 
             string[] dirs = {};
             dirs += name;
-            foreach (var dir in includedirs)
-                dirs += dir.get_child (name).get_path ();
-            dirs += loc.file.get_parent ().get_child (name).get_path ();
+            if (!Path.is_absolute (name)) {
+                foreach (var dir in includedirs)
+                    dirs += dir.get_child (name).get_path ();
+                dirs += loc.file.get_parent ().get_child (name).get_path ();
+            }
 
             foreach (var inc in dirs) {
                 success = include_try (inc, writer);
diff --git a/tools/wixl/util.vala b/tools/wixl/util.vala
index 689b284..31a02a7 100644
--- a/tools/wixl/util.vala
+++ b/tools/wixl/util.vala
@@ -116,6 +116,8 @@ namespace Wixl {
     }
 
     public string unquote (string str) {
+        if (str.length < 2)
+            return str;
         if ((str[0] == '\'' && str[str.length-1] == '\'') ||
             (str[0] == '"' && str[str.length-1] == '"'))
             return str[1:-1];
-- 
2.43.0


From d5968a9cae2939b11ab932cef2a386eb70f2ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 50/68] fix: wixl: number actions so that every placement
 holds, or refuse the source

Actions were sorted without regard to explicit numbers, generated numbers
could collide, contradictions and unknown actions were accepted, and
overridable placements replaced others.
---
 tools/wixl/builder.vala |  45 +++------
 tools/wixl/msi.vala     | 207 ++++++++++++++++++++++++++++------------
 tools/wixl/wix.vala     |  11 +++
 3 files changed, 169 insertions(+), 94 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index a241111..df447b7 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1026,7 +1026,8 @@ namespace Wixl {
 
         public override void visit_action (WixAction action) throws GLib.Error {
             var parent = action.parent as WixSequence;
-            var table = db.tables.lookup (parent.name) as MsiTableSequence;
+            var table_name = parent.name == "AdvertiseExecuteSequence" ? "AdvtExecuteSequence" : parent.name;
+            var table = db.tables.lookup (table_name) as MsiTableSequence;
 
             if (action.name == "Custom")
                 action.name = action.Action;
@@ -1035,40 +1036,19 @@ namespace Wixl {
 
             var node = table.get_action (action.name);
 
-            if ( node.action != null ) {
-                return;
-            }
-
-            node.action = action;
-
-            if (action.OnExit != null) {
-                if (action.OnExit == "success") node.sequence = -1;
-                if (action.OnExit == "cancel") node.sequence = -2;
-                if (action.OnExit == "error") node.sequence = -3;
-                if (action.OnExit == "suspend") node.sequence = -4;
-            } else {
-                if (action.Sequence != null) {
-                    node.sequence = int.parse (action.Sequence);
-                }
-
-                if (action.After != null) {
-                    node.add_dep (table.get_action (action.After));
-                }
-
-                if (action.Before != null) {
-                    var before = table.get_action (action.Before);
-                    before.add_dep (node);
+            // an overridable placement counts when there is no other
+            if (node.action != null) {
+                var overridable = parse_yesno (action.Overridable);
+                if (parse_yesno (node.action.Overridable) == overridable) {
+                    if (node.action.same_placement (action))
+                        return;
+                    throw new Wixl.Error.FAILED ("%s: action %s is placed twice", parent.name, action.name);
                 }
+                if (overridable)
+                    return;
             }
 
-            // set condition from either an attribute or inner text
-            if (action.Condition != null) {
-                node.condition = action.Condition;
-            } else if (action.children.length () > 0) {
-                return_if_fail (action.children.length () == 1);
-                var text = action.children.first ().data as WixText;
-                node.condition = text.Text.strip();
-            }
+            node.action = action;
         }
 
         public override void visit_progid (WixProgId progid) throws GLib.Error {
@@ -1439,6 +1419,7 @@ namespace Wixl {
             var table = db.table_install_execute_sequence;
             var node = table.get_action ("RemoveExistingProducts");
             warn_if_fail (node.action == null);
+            node.required = true;
             node.add_dep (table.get_action ("InstallValidate"));
         }
 
diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 4ff0560..905ce88 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -342,96 +342,177 @@ namespace Wixl {
         public class Action {
             public string name;
             public string? condition;
-            public int sequence = -999;
+            public int sequence = UNSET;
             public WixAction? action;
+            public bool required;
 
-            public bool visited = false;
-            public bool incoming_deps = false;
+            // the numbers an action without one can have
+            public int first = 1;
+            public int last = MAX_SEQUENCE;
 
-            // Use it as a set, so value is not refcounted please vala
-            public HashTable<Action, Action*> depends_on = new HashTable<Action, Action*> (direct_hash, direct_equal);
+            // the actions this one comes after
+            public List<weak Action> depends_on;
 
             public void add_dep (Action a) {
-                hash_table_add (depends_on, a);
-                a.incoming_deps = true;
-            }
-
-            public int dep_max() {
-                int ret = -1;
-                var it = HashTableIter <Action, Action*> (depends_on);
-                Action dep;
-                while (it.next (null, out dep))
-                    if (dep.sequence > ret)
-                        ret = dep.sequence;
-                return ret;
+                depends_on.append (a);
             }
         }
 
+        const int UNSET = -999;
+        const int MAX_SEQUENCE = 32767;
+
         HashTable<string, Action> actions = new HashTable<string, Action> (str_hash, str_equal);
 
-        void sort_topological_visit (Action action, ref List<Action> sorted) {
-            if (action.visited)
-                return;
+        // by name, so that the result depends neither on the order in
+        // which the actions were added nor on where they are in memory
+        List<weak Action> sorted_actions () {
+            var list = actions.get_values ();
+            list.sort ((a, b) => { return strcmp (a.name, b.name); });
+            return list;
+        }
 
-            action.visited = true;
+        void place (Action node) throws GLib.Error {
+            var action = node.action;
+
+            if (action.OnExit != null) {
+                if (action.OnExit == "success") node.sequence = -1;
+                if (action.OnExit == "cancel") node.sequence = -2;
+                if (action.OnExit == "error") node.sequence = -3;
+                if (action.OnExit == "suspend") node.sequence = -4;
+            } else {
+                if (action.Sequence != null) {
+                    int sequence = 0;
+                    if (!int.try_parse (action.Sequence, out sequence))
+                        throw new Wixl.Error.FAILED ("invalid sequence %s of action %s", action.Sequence, node.name);
+                    node.sequence = sequence;
+                }
 
-            Action dep;
-            var it = HashTableIter <Action, Action*> (action.depends_on);
-            while (it.next (null, out dep))
-                sort_topological_visit (dep, ref sorted);
+                if (action.After != null)
+                    node.add_dep (get_action (action.After));
 
-            sorted.append (action);
+                if (action.Before != null)
+                    get_action (action.Before).add_dep (node);
+            }
+
+            // set condition from either an attribute or inner text
+            if (action.Condition != null) {
+                node.condition = action.Condition;
+            } else if (action.children.length () > 0) {
+                return_if_fail (action.children.length () == 1);
+                var text = action.children.first ().data as WixText;
+                node.condition = text.Text.strip();
+            }
         }
 
-        // before sorting topologically, sort the actions so that the
-        // one with the least max sequence dependency comes first.
-        List<weak Action> sorted_actions() {
-            CompareFunc<Action> cmp = (a, b) => {
-                if (a.sequence == b.sequence) {
-                    var a_dep = a.dep_max();
-                    var b_dep = b.dep_max();
-                    return a_dep - b_dep;
+        // Narrow the numbers of each action down to those which its order
+        // relative to the numbered ones leaves.
+        void bound_actions (List<weak Action> list) throws GLib.Error {
+            foreach (var action in list) {
+                if (action.sequence != UNSET)
+                    action.first = action.last = action.sequence;
+            }
+
+            bool changed = true;
+            for (uint round = 0; changed; round++) {
+                if (round > list.length ())
+                    throw new Wixl.Error.FAILED ("%s: the order of the actions is cyclic", name);
+
+                changed = false;
+                foreach (var action in list) {
+                    foreach (var dep in action.depends_on) {
+                        if (action.sequence == UNSET && action.first <= dep.first) {
+                            action.first = dep.first + 1;
+                            changed = true;
+                        }
+                        if (dep.sequence == UNSET && dep.last >= action.last) {
+                            dep.last = action.last - 1;
+                            changed = true;
+                        }
+                    }
                 }
-                return a.sequence - b.sequence;
-            };
-            var list = actions.get_values ();
-            list.sort(cmp);
-            return list;
+            }
         }
 
-        List<Action> sort_topological () {
-            List<Action> sorted = null;
+        // Number the other actions, the most urgent of those which can have
+        // a number first. Without tight, an action is only kept from numbers
+        // it can't have; with it, also right before the one it precedes.
+        bool number_actions (List<weak Action> list, bool tight) {
+            var taken = new HashTable<int, int> (direct_hash, direct_equal);
+            List<weak Action> todo = null;
+            var result = new HashTable<weak Action, int> (direct_hash, direct_equal);
+            var first = new HashTable<weak Action, int> (direct_hash, direct_equal);
+
+            foreach (var action in list) {
+                if (action.sequence != UNSET)
+                    taken.insert (action.sequence, 1);
+                else
+                    todo.append (action);
+            }
 
-            foreach (var action in sorted_actions()) {
-                if (action.incoming_deps)
-                    continue;
-                sort_topological_visit (action, ref sorted);
+            foreach (var action in todo) {
+                int from = action.first;
+                if (tight && from == 1 && action.last < MAX_SEQUENCE) {
+                    foreach (var other in list) {
+                        if (other.sequence != UNSET && other.sequence >= from && other.sequence <= action.last)
+                            from = other.sequence + 1;
+                    }
+                }
+                first.insert (action, from);
             }
 
-            return sorted;
-        }
+            for (int number = 1; todo != null; number++) {
+                if (number > MAX_SEQUENCE)
+                    return false;
+                if (taken.contains (number))
+                    continue;
 
-        void add_implicit_deps () {
-            Action? prev = null;
-            foreach (var a in sorted_actions()) {
-                if (a.sequence == -999)
+                weak Action? next = null;
+                foreach (var action in todo) {
+                    bool ready = first.lookup (action) <= number;
+                    foreach (var dep in action.depends_on) {
+                        if (dep.sequence == UNSET && !result.contains (dep))
+                            ready = false;
+                    }
+                    if (ready && (next == null || action.last < next.last))
+                        next = action;
+                }
+                if (next == null)
                     continue;
-                if (prev != null)
-                    a.add_dep (prev);
-                prev = a;
+                if (number > next.last)
+                    return false;
+                result.insert (next, number);
+                todo.remove (next);
             }
+
+            foreach (var action in list) {
+                if (action.sequence == UNSET)
+                    action.sequence = result.lookup (action);
+            }
+            return true;
         }
 
         public void add_sorted_actions () throws GLib.Error {
-            add_implicit_deps ();
-            var sorted = sort_topological ();
+            foreach (var action in sorted_actions ()) {
+                if (action.action != null)
+                    place (action);
+            }
 
-            int sequence = 0;
-            foreach (var action in sorted) {
-                if (action.sequence == -999)
-                    action.sequence = ++sequence;
+            var list = sorted_actions ();
+            foreach (var action in list) {
+                if (action.sequence == UNSET && action.action == null && !action.required)
+                    throw new Wixl.Error.FAILED ("%s: no action %s", name, action.name);
+            }
 
-                sequence = action.sequence;
+            bound_actions (list);
+            if (!number_actions (list, true) && !number_actions (list, false))
+                throw new Wixl.Error.FAILED ("%s: the order of the actions is contradictory", name);
+
+            list.sort ((a, b) => { return a.sequence - b.sequence; });
+            foreach (var action in list) {
+                foreach (var dep in action.depends_on) {
+                    if (dep.sequence >= action.sequence)
+                        throw new Wixl.Error.FAILED ("%s: %s cannot come after %s", name, action.name, dep.name);
+                }
                 add (action.name, action.condition, action.sequence);
             }
         }
@@ -446,8 +527,10 @@ namespace Wixl {
             action.name = name;
 
             var default = MSIDefault.get_action_by_name (name);
-            if (default != null)
+            if (default != null) {
                 action.sequence = default.sequence;
+                action.condition = default.condition;
+            }
 
             return action;
         }
diff --git a/tools/wixl/wix.vala b/tools/wixl/wix.vala
index 2bfb362..7984cd4 100644
--- a/tools/wixl/wix.vala
+++ b/tools/wixl/wix.vala
@@ -740,6 +740,17 @@ namespace Wixl {
             name = node->name;
         }
 
+        string? condition_text () {
+            if (Condition != null || children.length () == 0)
+                return Condition;
+            return (children.first ().data as WixText).Text.strip ();
+        }
+
+        public bool same_placement (WixAction other) {
+            return After == other.After && Before == other.Before && Sequence == other.Sequence &&
+                OnExit == other.OnExit && condition_text () == other.condition_text ();
+        }
+
         public override void accept (WixNodeVisitor visitor) throws GLib.Error {
             visitor.visit_action (this);
         }
-- 
2.43.0


From 0e29377fff5d436490a076ac4b8d025c2f2c524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 51/68] fix: wixl keeps references, media and components
 consistent or refuses the source

---
 tools/wixl/builder.vala | 100 +++++++++++++++++++++++++++++-----------
 tools/wixl/msi.vala     |  94 +++++++++++++++++++++++++++++++++++++
 tools/wixl/wix.vala     |   3 +-
 3 files changed, 170 insertions(+), 27 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index df447b7..40b1a6f 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -284,10 +284,6 @@ namespace Wixl {
                     // versioned/companion files don't need rows in hash table
                     continue;
                 
-                var component = f.parent as WixComponent;
-                if (component.in_feature.length () == 0)
-                    continue;
-
                 db.table_file_hash.add_with_file (f.Id, f.file);
             }
         }
@@ -325,16 +321,28 @@ namespace Wixl {
         private void build_cabinet () throws GLib.Error {
             var sequence = 0;
 
+            // the sequence numbers of a disk follow those of the disks before it
+            medias.sort ((a, b) => {
+                var i = int.parse (a.Id);
+                var j = int.parse (b.Id);
+                return (int) (i > j) - (int) (i < j);
+            });
+
+            foreach (var rec in db.table_file.records) {
+                var f = rec.get_data<WixFile> ("wixfile");
+                var found = false;
+                foreach (var m in medias)
+                    found |= int.parse (m.Id) == int.parse (f.DiskId);
+                if (!found)
+                    throw new Wixl.Error.FAILED ("file %s is on disk %s, which is not defined", f.Id, f.DiskId);
+            }
+
             foreach (var m in medias) {
                 var folder = new GCab.Folder (GCab.Compression.MSZIP);
 
                 foreach (var rec in db.table_file.records) {
                     var f = rec.get_data<WixFile> ("wixfile");
-                    if (f.DiskId != m.Id)
-                        continue;
-
-                    var component = f.parent as WixComponent;
-                    if (component.in_feature.length () == 0)
+                    if (int.parse (f.DiskId) != int.parse (m.Id))
                         continue;
 
                     folder.add_file (new GCab.File.with_file (f.Id, f.file), false);
@@ -346,20 +354,39 @@ namespace Wixl {
                 cab.add_folder (folder);
                 var output = new MemoryOutputStream (null, realloc, free);
                 cab.write (output, null, null, null);
-                var input = new MemoryInputStream.from_data (output.get_data ()[0:output.data_size], null);
-                if (parse_yesno (m.EmbedCab))
+                if (parse_yesno (m.EmbedCab)) {
+                    var input = new MemoryInputStream.from_data (output.get_data ()[0:output.data_size], null);
                     db.table_streams.add (m.Cabinet, input, output.data_size);
+                } else
+                    db.add_cabinet (m.Cabinet, output.get_data ()[0:output.data_size]);
 
                 db.table_media.set_last_sequence (m.record, sequence);
             }
         }
 
+        // components that belong to no feature are not installed
+        private void drop_unused_components () throws GLib.Error {
+            var unused = new HashTable<string, WixComponent> (str_hash, str_equal);
+
+            foreach (var component in get_elements<WixComponent> ()) {
+                if (component.in_feature.length () == 0)
+                    unused.insert (component.Id, component);
+            }
+            foreach (var component in get_elements<WixComponent> ()) {
+                if (component.in_feature.length () != 0)
+                    unused.remove (component.Id);
+            }
+            db.remove_components (unused);
+        }
+
         private void shortcut_target () throws GLib.Error {
             var shortcuts = get_elements<WixShortcut> ();
             foreach (var sc in shortcuts) {
                 if (sc.Target != null)
                     continue;
                 var component = sc.get_component ();
+                if (component.in_feature.length () == 0)
+                    continue;
                 var feature = component.in_feature.first ().data;
                 MsiTableShortcut.set_target (sc.record, feature.Id);
             }
@@ -383,6 +410,7 @@ namespace Wixl {
             }
             root = null;
 
+            drop_unused_components ();
             property_update ();
             shortcut_target ();
             sequence_actions ();
@@ -446,7 +474,7 @@ namespace Wixl {
                 } else if (package.InstallScope == "perMachine") {
                     db.table_property.add ("ALLUSERS", "1");
                 } else {
-                    error ("invalid InstallScope value: %s", package.InstallScope);
+                    throw new Wixl.Error.FAILED ("invalid InstallScope value: %s", package.InstallScope);
                 }
             }
             db.info.set_property (Libmsi.Property.SOURCE, source);
@@ -469,6 +497,13 @@ namespace Wixl {
         public override void visit_media (WixMedia media) throws GLib.Error {
             var cabinet = media.Cabinet;
 
+            if (media.Id == null || cabinet == null || cabinet == "")
+                throw new Wixl.Error.FAILED ("a Media needs an Id and a Cabinet");
+            foreach (var m in medias) {
+                if (m.Cabinet == cabinet)
+                    throw new Wixl.Error.FAILED ("cabinet %s is used by two Media", cabinet);
+            }
+
             if (parse_yesno (media.EmbedCab))
                 cabinet = "#" + cabinet;
 
@@ -580,6 +615,7 @@ namespace Wixl {
         }
 
         enum InstallDefaultValue {
+            [Description (nick = "followParent")]
             FollowParent = 0,
             Local,
             Source;
@@ -705,14 +741,19 @@ namespace Wixl {
         }
 
         void feature_add_component_group (WixFeature feature, WixComponentGroup group) throws GLib.Error {
+            if (group.visiting)
+                throw new Wixl.Error.FAILED ("component group %s contains itself", group.Id);
+
+            group.visiting = true;
             foreach (var node in group.children) {
                 var child = node as WixElement;
                 if (child is WixComponentGroupRef) {
                     feature_add_component_group (feature, resolve<WixComponentGroup> (child));
-                } else {
+                } else if (child != null) {
                     feature_add_component (feature, resolve<WixComponent> (child));
                 }
             }
+            group.visiting = false;
         }
 
         public override void visit_component_ref (WixComponentRef ref) throws GLib.Error {
@@ -751,11 +792,14 @@ namespace Wixl {
         WixDirectory get_directory (WixComponent comp) throws GLib.Error {
             if (comp.parent is WixComponentGroup) {
                 var group = comp.parent as WixComponentGroup;
-                return find_element<WixDirectory> (group.Directory);
+                var dir = group.Directory != null ? find_element<WixDirectory> (group.Directory) : null;
+                if (dir == null)
+                    throw new Wixl.Error.FAILED ("couldn't resolve the directory of component %s", comp.Id);
+                return dir;
             } else if (comp.parent is WixDirectory || comp.parent is WixDirectoryRef) {
                 return resolve<WixDirectory> (comp.parent);
             } else
-                error ("unhandled parent type %s", comp.parent.name);
+                throw new Wixl.Error.FAILED ("unhandled parent type %s", comp.parent.name);
         }
 
         public override void visit_remove_folder (WixRemoveFolder rm) throws GLib.Error {
@@ -805,11 +849,11 @@ namespace Wixl {
         }
 
         enum RegistryRoot {
+            HKMU = -1,
             HKCR,
             HKCU,
             HKLM,
-            HKU,
-            HKMU;
+            HKU;
 
             public static RegistryRoot from_string(string s) throws GLib.Error {
                 return enum_from_string<RegistryRoot> (s);
@@ -824,7 +868,7 @@ namespace Wixl {
             if (reg.parent is WixRegistryKey) {
                 var regkey = reg.parent as WixRegistryKey;
                 comp = regkey.parent as WixComponent;
-                reg_key = regkey.Key + "\\" + reg.Key;
+                reg_key = reg.Key != null ? regkey.Key + "\\" + reg.Key : regkey.Key;
                 reg_root = regkey.Root;
             } else if (reg.parent is WixComponent) {
                 comp = reg.parent as WixComponent;
@@ -837,6 +881,9 @@ namespace Wixl {
             if (reg.Root != null)
                 reg_root = reg.Root;
 
+            if (reg.Type == null || reg.Value == null || reg_root == null || reg_key == null)
+                throw new Wixl.Error.FAILED ("a RegistryValue needs a Root, a Key, a Type and a Value");
+
             var value = reg.Value;
             var t = RegistryValueType.from_string (reg.Type);
             var r = RegistryRoot.from_string (reg_root.down ());
@@ -910,7 +957,6 @@ namespace Wixl {
 
         public override void visit_file (WixFile file) throws GLib.Error {
             file.DiskId = file.DiskId ?? "1";
-            return_if_fail (file.DiskId == "1");
 
             var name = file.path_name ();
             var source = file.Source ?? name;
@@ -958,10 +1004,8 @@ namespace Wixl {
                 message ("unimplemented");
 
             var component = shortcut.get_component ();
-            if (directory == null && shortcut.parent is WixComponent) {
-                var dir = resolve<WixDirectory> (component.parent);
-                directory = dir.Id;
-            }
+            if (directory == null)
+                directory = get_directory (component).Id;
 
             var rec = db.table_shortcut.add (shortcut.Id, directory, shortcut.Name, component.Id);
             shortcut.record = rec;
@@ -984,7 +1028,8 @@ namespace Wixl {
         }
 
         public override void visit_condition (WixCondition condition) throws GLib.Error {
-            return_if_fail (condition.children.length () == 1);
+            if (condition.children.length () != 1)
+                throw new Wixl.Error.FAILED ("a Condition needs a text");
             var text = condition.children.first ().data as WixText;
 
             db.table_launch_condition.add (text.Text.strip(), condition.Message);
@@ -1279,6 +1324,9 @@ namespace Wixl {
         public override void visit_registry_search (WixRegistrySearch search) throws GLib.Error {
             var property = search.parent as WixProperty;
 
+            if (search.Root == null || search.Key == null || search.Type == null)
+                throw new Wixl.Error.FAILED ("a RegistrySearch needs a Root, a Key and a Type");
+
             var root = RegistryRoot.from_string (search.Root.down ());
             var type = RegistryType.from_string (search.Type.down ());
 
@@ -1344,7 +1392,7 @@ namespace Wixl {
                 target = action.ExeCommand;
             } else if (action.ExeCommand != null && action.FileKey != null) {
                 if (find_element<WixFile>(action.FileKey) == null)
-                    error ("file reference '%s' not defined", action.FileKey);
+                    throw new Wixl.Error.FAILED ("file reference '%s' not defined", action.FileKey);
 
                 type = CustomActionType.EXE_FILE;
                 source = action.FileKey;
@@ -1637,7 +1685,7 @@ namespace Wixl {
             string help;
 
             if (!(control.parent is WixDialog)) {
-                error ("unhandled parent type %s", control.parent.name);
+                throw new Wixl.Error.FAILED ("unhandled parent type %s", control.parent.name);
             }
 
             // static controls don't need to be enabled
diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 905ce88..23477d3 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -6,6 +6,8 @@ namespace Wixl {
 
         public class string sql_create;
         public class string sql_insert;
+        // where a record names its component, or 0
+        public class int component_field = 0;
 
         public virtual void create (Libmsi.Database db) throws GLib.Error {
             var query = new Libmsi.Query (db, sql_create);
@@ -597,6 +599,7 @@ namespace Wixl {
     class MsiTableFile: MsiTable {
         static construct {
             name = "File";
+            component_field = 2;
             sql_create = "CREATE TABLE `File` (`File` CHAR(72) NOT NULL, `Component_` CHAR(72) NOT NULL, `FileName` CHAR(255) NOT NULL LOCALIZABLE, `FileSize` LONG NOT NULL, `Version` CHAR(72), `Language` CHAR(20), `Attributes` INT, `Sequence` LONG NOT NULL PRIMARY KEY `File`)";
             sql_insert = "INSERT INTO `File` (`File`, `Component_`, `FileName`, `FileSize`, `Version`, `Attributes`, `Sequence`) VALUES (?, ?, ?, ?, ?, ?, ?)";
         }
@@ -729,6 +732,7 @@ namespace Wixl {
     class MsiTableComponent: MsiTable {
         static construct {
             name = "Component";
+            component_field = 1;
             sql_create = "CREATE TABLE `Component` (`Component` CHAR(72) NOT NULL, `ComponentId` CHAR(38), `Directory_` CHAR(72) NOT NULL, `Attributes` INT NOT NULL, `Condition` CHAR(255), `KeyPath` CHAR(72) PRIMARY KEY `Component`)";
             sql_insert = "INSERT INTO `Component` (`Component`, `ComponentId`, `Directory_`, `Attributes`, `KeyPath`) VALUES (?, ?, ?, ?, ?)";
         }
@@ -766,6 +770,7 @@ namespace Wixl {
     class MsiTableRegistry: MsiTable {
         static construct {
             name = "Registry";
+            component_field = 4;
             sql_create = "CREATE TABLE `Registry` (`Registry` CHAR(72) NOT NULL, `Root` INT NOT NULL, `Key` CHAR(255) NOT NULL LOCALIZABLE, `Name` CHAR(255) LOCALIZABLE, `Value` CHAR(0) LOCALIZABLE, `Component_` CHAR(72) NOT NULL PRIMARY KEY `Registry`)";
             sql_insert = "INSERT INTO `Registry` (`Registry`, `Root`, `Key`, `Component_`, `Name`, `Value`) VALUES (?, ?, ?, ?, ?, ?)";
         }
@@ -787,6 +792,7 @@ namespace Wixl {
     class MsiTableShortcut: MsiTable {
         static construct {
             name = "Shortcut";
+            component_field = 4;
             sql_create = "CREATE TABLE `Shortcut` (`Shortcut` CHAR(72) NOT NULL, `Directory_` CHAR(72) NOT NULL, `Name` CHAR(128) NOT NULL LOCALIZABLE, `Component_` CHAR(72) NOT NULL, `Target` CHAR(72) NOT NULL, `Arguments` CHAR(255), `Description` CHAR(255) LOCALIZABLE, `Hotkey` INT, `Icon_` CHAR(72), `IconIndex` INT, `ShowCmd` INT, `WkDir` CHAR(72), `DisplayResourceDLL` CHAR(255), `DisplayResourceId` INT, `DescriptionResourceDLL` CHAR(255), `DescriptionResourceId` INT PRIMARY KEY `Shortcut`)";
             sql_insert = "INSERT INTO `Shortcut` (`Shortcut`, `Directory_`, `Name`, `Component_`, `Target`, `Icon_`, `IconIndex`, `WkDir`, `Description`, `Arguments`) VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?)";
         }
@@ -839,6 +845,7 @@ namespace Wixl {
     class MsiTableCreateFolder: MsiTable {
         static construct {
             name = "CreateFolder";
+            component_field = 2;
             sql_create = "CREATE TABLE `CreateFolder` (`Directory_` CHAR(72) NOT NULL, `Component_` CHAR(72) NOT NULL PRIMARY KEY `Directory_`, `Component_`)";
             sql_insert = "INSERT INTO `CreateFolder` (`Directory_`, `Component_`) VALUES (?, ?)";
         }
@@ -856,6 +863,7 @@ namespace Wixl {
     class MsiTableRemoveFile: MsiTable {
         static construct {
             name = "RemoveFile";
+            component_field = 2;
             sql_create = "CREATE TABLE `RemoveFile` (`FileKey` CHAR(72) NOT NULL, `Component_` CHAR(72) NOT NULL, `FileName` CHAR(255) LOCALIZABLE, `DirProperty` CHAR(72) NOT NULL, `InstallMode` INT NOT NULL PRIMARY KEY `FileKey`)";
             sql_insert = "INSERT INTO `RemoveFile` (`FileKey`, `Component_`, `DirProperty`, `InstallMode`) VALUES (?, ?, ?, ?)";
         }
@@ -898,6 +906,7 @@ namespace Wixl {
     class MsiTableServiceControl : MsiTable {
         static construct {
             name = "ServiceControl";
+            component_field = 6;
             sql_create = "CREATE TABLE `ServiceControl` (`ServiceControl` CHAR(72) NOT NULL, `Name` CHAR(255) NOT NULL LOCALIZABLE, `Event` INT NOT NULL, `Arguments` CHAR(255) LOCALIZABLE, `Wait` INT, `Component_` CHAR(72) NOT NULL PRIMARY KEY `ServiceControl`)";
             sql_insert = "INSERT INTO `ServiceControl` (`ServiceControl`, `Name`, `Event`, `Arguments`, `Wait`, `Component_`) VALUES (?, ?, ?, ?, ?, ?)";
         }
@@ -919,6 +928,7 @@ namespace Wixl {
     class MsiTableServiceInstall : MsiTable {
         static construct {
             name = "ServiceInstall";
+            component_field = 12;
             sql_create = "CREATE TABLE `ServiceInstall` (`ServiceInstall` CHAR(72) NOT NULL, `Name` CHAR(255) NOT NULL, `DisplayName` CHAR(255) LOCALIZABLE, `ServiceType` LONG NOT NULL, `StartType` LONG NOT NULL, `ErrorControl` LONG NOT NULL, `LoadOrderGroup` CHAR(255), `Dependencies` CHAR(255), `StartName` CHAR(255), `Password` CHAR(255), `Arguments` CHAR(255), `Component_` CHAR(72) NOT NULL, `Description` CHAR(255) LOCALIZABLE PRIMARY KEY `ServiceInstall`)";
             sql_insert = "INSERT INTO `ServiceInstall` (`ServiceInstall`, `Name`, `DisplayName`, `ServiceType`, `StartType`, `ErrorControl`, `LoadOrderGroup`, `Dependencies`, `StartName`, `Password`, `Arguments`, `Component_`, `Description`) VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?)";
         }
@@ -1043,6 +1053,7 @@ namespace Wixl {
     class MsiTableIniFile: MsiTable {
         static construct {
             name = "IniFile";
+            component_field = 8;
             sql_create = "CREATE TABLE `IniFile` (`IniFile` CHAR(72) NOT NULL, `FileName` CHAR(255) NOT NULL LOCALIZABLE, `DirProperty` CHAR(72), `Section` CHAR(255) NOT NULL LOCALIZABLE, `Key` CHAR(255) NOT NULL LOCALIZABLE, `Value` CHAR(255) NOT NULL LOCALIZABLE, `Action` INT NOT NULL, `Component_` CHAR(72) NOT NULL PRIMARY KEY `IniFile`)";
             sql_insert = "INSERT INTO `IniFile` (`IniFile`, `FileName`, `DirProperty`, `Section`, `Key`, Value`, `Action`, `Component_`) VALUES (?, ?, ?, ?, ?, ?, ?, ?)";
         }
@@ -1066,6 +1077,7 @@ namespace Wixl {
     class MsiTableRemoveIniFile: MsiTable {
         static construct {
             name = "RemoveIniFile";
+            component_field = 8;
             sql_create = "CREATE TABLE `RemoveIniFile` (`RemoveIniFile` CHAR(72) NOT NULL, `FileName` CHAR(255) NOT NULL LOCALIZABLE, `DirProperty` CHAR(72), `Section` CHAR(255) NOT NULL LOCALIZABLE, `Key` CHAR(255) NOT NULL LOCALIZABLE, `Value` CHAR(255) LOCALIZABLE, `Action` INT NOT NULL, `Component_` CHAR(72) NOT NULL PRIMARY KEY `RemoveIniFile`)";
             sql_insert = "INSERT INTO `RemoveIniFile` (`RemoveIniFile`, `FileName`, `DirProperty`, `Section`, `Key`, Value`, `Action`, `Component_`) VALUES (?, ?, ?, ?, ?, ?, ?, ?)";
         }
@@ -1358,10 +1370,92 @@ namespace Wixl {
             }
         }
 
+        HashTable<string, Bytes> cabinets = new HashTable<string, Bytes> (str_hash, str_equal);
+
+        // a cabinet beside the package
+        public void add_cabinet (string name, uint8[] data) throws GLib.Error {
+            if (Path.get_basename (name) != name)
+                throw new Wixl.Error.FAILED ("cabinet %s is not a file name", name);
+            cabinets.insert (name, new Bytes (data));
+        }
+
+        public void remove_components (HashTable<string, WixComponent> components) {
+            foreach (var table in tables.get_values ()) {
+                var kept = new List<Libmsi.Record> ();
+
+                if (table.component_field == 0)
+                    continue;
+                foreach (var r in table.records) {
+                    if (!components.contains (r.get_string (table.component_field)))
+                        kept.append (r);
+                }
+                table.records = (owned) kept;
+            }
+        }
+
+        private void check_reference (MsiTable table, int field, string what, MsiTable target) throws GLib.Error {
+            var keys = new GenericSet<string> (str_hash, str_equal);
+
+            foreach (var r in target.records)
+                keys.add (r.get_string (1));
+            foreach (var r in table.records) {
+                if (!r.is_null (field) && !keys.contains (r.get_string (field)))
+                    throw new Wixl.Error.FAILED ("%s %s: couldn't resolve %s %s", table.name, r.get_string (1), what, r.get_string (field));
+            }
+        }
+
+        private void check_references () throws GLib.Error {
+            check_reference (table_shortcut, 6, "icon", table_icon);
+            check_reference (table_feature, 8, "directory", table_directory);
+
+            foreach (var r in table_custom_action.records) {
+                MsiTable? target = null;
+
+                switch (r.get_int (2) & 0x3f) {
+                case 1: case 2: case 5: case 6:
+                    target = table_binary;
+                    break;
+                case 17: case 18: case 21: case 22:
+                    target = table_file;
+                    break;
+                }
+                if (target == null)
+                    continue;
+
+                var found = false;
+                foreach (var t in target.records)
+                    found |= t.get_string (1) == r.get_string (3);
+                if (!found)
+                    throw new Wixl.Error.FAILED ("CustomAction %s: couldn't resolve %s", r.get_string (1), r.get_string (3));
+            }
+
+            var parents = new HashTable<string, string> (str_hash, str_equal);
+            foreach (var r in table_directory.records) {
+                if (!r.is_null (2))
+                    parents.insert (r.get_string (1), r.get_string (2));
+            }
+            foreach (var r in table_directory.records) {
+                var dir = r.get_string (1);
+                for (var n = 0; parents.contains (dir); n++) {
+                    if (n > parents.size ())
+                        throw new Wixl.Error.FAILED ("directory %s is inside itself", dir);
+                    dir = parents.lookup (dir);
+                }
+            }
+        }
+
         public void build (string filename) throws GLib.Error {
             string name;
             MsiTable table;
 
+            check_references ();
+
+            var dir = File.new_for_path (filename).get_parent ();
+            foreach (var cab in cabinets.get_keys ()) {
+                var file = dir.get_child (cab);
+                file.replace_contents (cabinets.lookup (cab).get_data (), null, false, FileCreateFlags.NONE, null);
+            }
+
             var db = new Libmsi.Database (filename, Libmsi.DbFlags.CREATE, null);
             info.save (db);
 
diff --git a/tools/wixl/wix.vala b/tools/wixl/wix.vala
index 7984cd4..93cf49b 100644
--- a/tools/wixl/wix.vala
+++ b/tools/wixl/wix.vala
@@ -229,7 +229,7 @@ namespace Wixl {
                 default:
                     break;
                 }
-                error ("unhandled child %s node %s", name, child->name);
+                throw new Wixl.Error.FAILED ("unhandled child %s node %s", name, child->name);
             }
         }
 
@@ -281,6 +281,7 @@ namespace Wixl {
         }
 
         public string Directory { get; set; }
+        public bool visiting;
 
     }
 
-- 
2.43.0


From 215fd72bda225eae69b7381fbf5c7964289e0299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 52/68] fix: wixl-heat lists each path once, escapes names and
 reports what it cannot list

---
 tools/wixl/wixl-heat.vala | 186 ++++++++++++++++++++++++++------------
 1 file changed, 130 insertions(+), 56 deletions(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 4c828f7..752cca5 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -26,8 +26,95 @@ bool filtered (string file) {
     return false;
 }
 
+bool dollar_needed = false;
+
+// what the preprocessor turns back into the name: it drops one dollar of
+// several, and takes a dollar before a parenthesis for a variable
 string escape_filename(string filename) {
-    return filename.replace("$", "$$");
+    var escaped = "";
+
+    for (var i = 0; i < filename.length; i++) {
+        escaped += filename[i].to_string ();
+        if (filename[i] != '$' || filename[i + 1] == '$')
+            continue;
+        if (filename[i + 1] == '(') {
+            escaped += "(var.WixlHeatDollar)";
+            dollar_needed = true;
+        } else
+            escaped += "$";
+    }
+
+    return escaped;
+}
+
+// an XML attribute's text
+string attribute (string text) {
+    return Markup.escape_text (text).replace ("\t", "&#9;");
+}
+
+bool presentable (string text) {
+    if (!text.validate ())
+        return false;
+    for (var i = 0; i < text.length; i++)
+        if (text[i] >= 0 && text[i] < ' ' && text[i] != '\t')
+            return false;
+
+    return text.index_of ("\xef\xbf\xbe") == -1 && text.index_of ("\xef\xbf\xbf") == -1;
+}
+
+class HeatDirectory {
+    string name;
+    string path;
+    List<HeatDirectory> children;
+    List<string> files;
+
+    public HeatDirectory (string name, string path) {
+        this.name = name;
+        this.path = path;
+    }
+
+    public HeatDirectory get_child (string name) {
+        foreach (var child in children)
+            if (child.name == name)
+                return child;
+
+        var child = new HeatDirectory (name, path + name + Path.DIR_SEPARATOR_S);
+        children.append (child);
+        return child;
+    }
+
+    public bool add_file (string file) {
+        foreach (var f in files)
+            if (f == file)
+                return false;
+
+        files.append (file);
+        return true;
+    }
+
+    void write_files (StringBuilder output, string indent, string sourcedir) {
+        foreach (var file in files) {
+            var source = sourcedir + Path.DIR_SEPARATOR_S + escape_filename (file);
+
+            output.append (indent + "<Component ");
+            if (win64)
+                output.append ("Win64=\"$(var.Win64)\" ");
+            output.append ("Id=\"%s\" Guid=\"*\">\n".printf (generate_id ("cmp", 1, file)));
+            output.append (indent + "  <File Id=\"%s\" KeyPath=\"yes\" Source=\"%s\"/>\n".printf (generate_id ("fil", 1, source), attribute (source)));
+            output.append (indent + "</Component>\n");
+        }
+    }
+
+    public void write (StringBuilder output, string indent, string sourcedir) {
+        write_files (output, indent, sourcedir);
+        foreach (var child in children) {
+            var id = generate_id ("dir", 5, dr, vardir ?? "", cg ?? "", prefix, child.path);
+
+            output.append (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (id, attribute (escape_filename (child.name))));
+            child.write (output, indent + "  ", sourcedir);
+            output.append (indent + "</Directory>\n");
+        }
+    }
 }
 
 public int main (string[] args) {
@@ -44,10 +131,11 @@ public int main (string[] args) {
     try {
         opt_context.parse (ref args);
     } catch (OptionError.BAD_VALUE err) {
-        GLib.stdout.printf (opt_context.get_help (true, null));
+        GLib.stdout.printf ("%s", opt_context.get_help (true, null));
         return 1;
     } catch (OptionError error) {
-        warning (error.message);
+        GLib.stderr.printf ("%s\n", error.message);
+        return 1;
     }
 
     if (prefix == null) {
@@ -57,14 +145,8 @@ public int main (string[] args) {
     if (vardir != null)
         sourcedir = "$(%s)".printf (vardir);
 
-    stdout.printf ("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
-    stdout.printf ("<Wix xmlns=\"http://schemas.microsoft.com/wix/2006/wi\">\n");
-    stdout.printf ("  <Fragment>\n");
-    stdout.printf ("    <DirectoryRef Id=\"%s\">\n".printf (dr));
-
-    string[] last_path = null;
+    var root = new HeatDirectory ("", "");
     List<string> cmpref = null;
-    var indent = "      ";
 
     try {
         var dis = new DataInputStream (new UnixInputStream (0));
@@ -78,62 +160,54 @@ public int main (string[] args) {
             if (filtered (file))
                 continue;
 
+            if (!presentable (file))
+                throw new Wixl.Error.FAILED ("'%s' cannot be written in XML".printf (file.escape (null)));
+
             var gfile = File.new_for_path (line);
             var is_directory = gfile.query_file_type (FileQueryInfoFlags.NONE) == FileType.DIRECTORY;
 
-            var dir = is_directory ? file : Path.get_dirname (file);
-            var path = dir.split (Path.DIR_SEPARATOR_S, -1);
-            var i = 0;
-            if (last_path != null) {
-                while ((path[i] != null && last_path[i] != null) &&
-                       path[i] == last_path[i])
-                    i++;
-                for (var j = last_path.length - i; j > 0; j--) {
-                    indent = indent[0:-2];
-                    stdout.printf (indent + "</Directory>\n");
-                }
-            }
-            for (; i < path.length; i++) {
-                stdout.printf (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), path[i]));
-                indent += "  ";
-            }
-            last_path = path;
-
-            if (!is_directory) {
-                var id = generate_id ("cmp", 1, file);
-                cmpref.append (id);
-                if (win64)
-                    stdout.printf (indent + "<Component Win64=\"$(var.Win64)\" Id=\"%s\" Guid=\"*\">\n".printf (id));
-                else
-                    stdout.printf (indent + "<Component Id=\"%s\" Guid=\"*\">\n".printf (id));
-                file = sourcedir + Path.DIR_SEPARATOR_S + escape_filename(file);
-                stdout.printf (indent + "  <File Id=\"%s\" KeyPath=\"yes\" Source=\"%s\"/>\n".printf (generate_id ("fil", 1, file), file));
-                stdout.printf (indent + "</Component>\n");
-            }
+            var dir = root;
+            foreach (var name in (is_directory ? file : Path.get_dirname (file)).split (Path.DIR_SEPARATOR_S, -1))
+                if (name != "" && name != ".")
+                    dir = dir.get_child (name);
+
+            if (!is_directory && dir.add_file (file))
+                cmpref.append (generate_id ("cmp", 1, file));
         }
     } catch (GLib.Error error) {
-        warning (error.message);
-    }
-
-    indent = indent[0:-2];
-    foreach (var l in last_path) {
-      stdout.printf (indent + "</Directory>\n");
-      indent = indent[0:-2];
+        GLib.stderr.printf ("%s\n", error.message);
+        return 1;
     }
 
-    stdout.printf ("    </DirectoryRef>\n");
-    stdout.printf ("  </Fragment>\n");
+    var output = new StringBuilder ();
+    root.write (output, "      ", sourcedir);
+
+    stdout.puts ("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
+    stdout.puts ("<Wix xmlns=\"http://schemas.microsoft.com/wix/2006/wi\">\n");
+    if (dollar_needed)
+        stdout.puts ("  <?define WixlHeatDollar = \"$\"?>\n");
+    stdout.puts ("  <Fragment>\n");
+    stdout.puts ("    <DirectoryRef Id=\"%s\">\n".printf (attribute (dr)));
+    stdout.puts (output.str);
+    stdout.puts ("    </DirectoryRef>\n");
+    stdout.puts ("  </Fragment>\n");
     if (cg != null) {
-        stdout.printf ("  <Fragment>\n");
-        stdout.printf ("    <ComponentGroup Id=\"%s\">\n".printf (cg));
+        stdout.puts ("  <Fragment>\n");
+        stdout.puts ("    <ComponentGroup Id=\"%s\">\n".printf (attribute (cg)));
         foreach (var id in cmpref)
-            stdout.printf ("      <ComponentRef Id=\"%s\"/>\n".printf (id));
-        stdout.printf ("    </ComponentGroup>\n");
-        stdout.printf ("  </Fragment>\n");
+            stdout.puts ("      <ComponentRef Id=\"%s\"/>\n".printf (id));
+        stdout.puts ("    </ComponentGroup>\n");
+        stdout.puts ("  </Fragment>\n");
     }
 
-    stdout.printf ("</Wix>\n");
-    stdout.printf ("<!-- generated with %s -->\n", Config.PACKAGE_STRING);
-    stdout.printf ("<!-- %s -->\n", cmdline.replace ("--", "-"));
+    stdout.puts ("</Wix>\n");
+    stdout.puts ("<!-- generated with %s -->\n".printf (Config.PACKAGE_STRING));
+    while (cmdline.index_of ("--") != -1)
+        cmdline = cmdline.replace ("--", "-");
+    stdout.puts ("<!-- %s -->\n".printf (presentable (cmdline) ? cmdline : cmdline.escape (null)));
+    if (stdout.flush () != 0 || stdout.error () != 0) {
+        GLib.stderr.printf ("Cannot write the fragment\n");
+        return 1;
+    }
     return 0;
 }
-- 
2.43.0


From b0f595a1e04e0b56d8ad046417761bd9f35e1817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 53/68] fix: msidiff handles packages and directories with
 spaces, keeps diff options apart and ignores extraction times

---
 tools/msidiff.in | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/tools/msidiff.in b/tools/msidiff.in
index 7d54aac..258a90f 100644
--- a/tools/msidiff.in
+++ b/tools/msidiff.in
@@ -25,7 +25,7 @@ set -e
 
 unset CDPATH
 tmpdir=
-diffopts=
+diffopts=()
 list=
 long=
 tables=
@@ -36,7 +36,7 @@ trap cleanup EXIT
 cleanup()
 {
     set +e
-    [ -z "$tmpdir" -o ! -d "$tmpdir" ] || rm -rf "$tmpdir"
+    [ -z "$tmpdir" -o ! -d "$tmpdir" ] || rm -rf -- "$tmpdir"
 }
 
 version()
@@ -81,44 +81,44 @@ EOF
 while true ; do
     case $1 in
         -t|--tables)
-            if [[ $tables$diffopts ]] ; then
-                diffopts+=" $1"
+            if [[ $tables${diffopts[*]} ]] ; then
+                diffopts+=("$1")
             else
                 tables=true
             fi
             ;;
         -l|--list)
-            if [[ $list$diffopts ]] ; then
-                diffopts+=" $1"
+            if [[ $list${diffopts[*]} ]] ; then
+                diffopts+=("$1")
             else
                 list=true
             fi
             ;;
         -L|--long-list)
-            if [[ $long$diffopts ]] ; then
-                diffopts+=" $1"
+            if [[ $long${diffopts[*]} ]] ; then
+                diffopts+=("$1")
             else
                 long=true
             fi
             ;;
         -h|--help)
-            if [[ $diffopts ]] ; then
-                diffopts+=" $1"
+            if [[ ${diffopts[*]} ]] ; then
+                diffopts+=("$1")
             else
                 help
                 exit 0
             fi
             ;;
         -v|--version)
-            if [[ $diffopts ]] ; then
-                diffopts+=" $1"
+            if [[ ${diffopts[*]} ]] ; then
+                diffopts+=("$1")
             else
                 version
                 exit 0
             fi
             ;;
         -*)
-            diffopts+=" $1"
+            diffopts+=("$1")
             ;;
         *)
             break
@@ -139,14 +139,18 @@ for file in "$1" "$2" ; do
     fi
 done
 
-tmpdir=`mktemp -d ${TMPDIR:-/tmp}/msidiff.XXXXXX`
+tmpdir=$(mktemp -d "${TMPDIR:-/tmp}/msidiff.XXXXXX")
+tmpdir=$(realpath -- "$tmpdir")
 
 mkdir "$tmpdir/old" "$tmpdir/new"
-msidump --signature --tables --directory "$tmpdir/old" $1 >/dev/null
-msidump --signature --tables --directory "$tmpdir/new" $2 >/dev/null
+msidump --signature --tables --directory "$tmpdir/old" "$1" >/dev/null
+msidump --signature --tables --directory "$tmpdir/new" "$2" >/dev/null
 if ${list:-false} || ${long:-false} ; then
-  msiextract --directory "$tmpdir/old/files" $1 >/dev/null
-  msiextract --directory "$tmpdir/new/files" $2 >/dev/null
+  mkdir -p "$tmpdir/old/files" "$tmpdir/new/files"
+  msiextract --directory "$tmpdir/old/files" "$1" >/dev/null
+  msiextract --directory "$tmpdir/new/files" "$2" >/dev/null
+  # When they were extracted is not a difference.
+  find "$tmpdir/old/files" "$tmpdir/new/files" -exec touch -d @0 {} +
 fi
 
 cd "$tmpdir"
@@ -188,7 +192,7 @@ long=${long:-false}
 
 if $tables ; then
     set +e
-    diff -r ${diffopts:-$diffcopts} "$old" "$new"
+    diff -r "${diffopts[@]:-$diffcopts}" "$old" "$new"
     [[ $? -eq 0 || $? -eq 1 ]] || exit $?
     set -e
 fi
@@ -198,7 +202,7 @@ if $list ; then
     find "$old/files" | sort | cut -d/ -f 3- -s > "$old.files"
     find "$new/files" | sort | cut -d/ -f 3- -s > "$new.files"
     set +e
-    diff ${diffopts:-$diffoopts} "$old.files" "$new.files"
+    diff "${diffopts[@]:-$diffoopts}" "$old.files" "$new.files"
     [[ $? -eq 0 || $? -eq 1 ]] || exit $?
     set -e
 fi
@@ -213,7 +217,7 @@ if $long ; then
                   s|.*\s\Q$new/files\E$|| ; s|(\s)\Q$new/files/\E|\1|" | \
         sort > "$new.files"
     set +e
-    diff ${diffopts:-$diffoopts} "$old.files" "$new.files"
+    diff "${diffopts[@]:-$diffoopts}" "$old.files" "$new.files"
     [[ $? -eq 0 || $? -eq 1 ]] || exit $?
     set -e
 fi
-- 
2.43.0


From b68176cbe24a3355b59dbc99e086633808fc3fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 54/68] fix: wixl marks services as vital

---
 tools/wixl/builder.vala | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 40b1a6f..a579956 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1296,6 +1296,8 @@ namespace Wixl {
 
             if (parse_yesno (service_install.Interactive))
                 ServiceType |= 1 << 8;
+            if (parse_yesno (service_install.Vital))
+                ErrorControl |= 1 << 15;
 
             if (ServiceDependencies == "")
                 ServiceDependencies = null;
-- 
2.43.0


From e6293404eee5cd119726b8c62202b68bf4708587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 55/68] fix: wixl hides the target of custom actions that ask
 for it

---
 tools/wixl/builder.vala | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index a579956..9bf3e6d 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1372,6 +1372,7 @@ namespace Wixl {
             ROLLBACK = 0x100,
             COMMIT = 0x200,
             NO_IMPERSONATE = 0x800,
+            HIDE_TARGET = 0x2000,
             TS_AWARE = 0x4000,
         }
 
@@ -1430,6 +1431,8 @@ namespace Wixl {
 
             if ((type & CustomActionType.IN_SCRIPT) == CustomActionType.IN_SCRIPT && !parse_yesno (action.Impersonate))
                 type |= CustomActionType.NO_IMPERSONATE;
+            if (parse_yesno (action.HideTarget))
+                type |= CustomActionType.HIDE_TARGET;
 
             db.table_custom_action.add (action.Id, type, source, target);
         }
-- 
2.43.0


From 98196418d572ff0c09a2426a5521edf99965dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 56/68] fix: wixl builds ini lines without a directory and
 refuses those without a value

---
 tools/wixl/builder.vala |  3 +++
 tools/wixl/msi.vala     | 10 +++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 9bf3e6d..76fb65c 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -991,6 +991,9 @@ namespace Wixl {
             var component = inifile.parent as WixComponent;
             var action = IniFileAction.from_string (inifile.Action);
 
+            if (inifile.Value == null && action != IniFileAction.removeLine)
+                throw new Wixl.Error.FAILED ("IniFile %s needs a Value", inifile.Id);
+
             if (action == IniFileAction.addLine || action == IniFileAction.createLine || action == IniFileAction.addTag)
                 db.table_ini_file.add (inifile.Id, inifile.Name, inifile.Directory, inifile.Section, inifile.Key, inifile.Value, action, component.Id);
             else
diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 23477d3..49f1339 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -1058,11 +1058,11 @@ namespace Wixl {
             sql_insert = "INSERT INTO `IniFile` (`IniFile`, `FileName`, `DirProperty`, `Section`, `Key`, Value`, `Action`, `Component_`) VALUES (?, ?, ?, ?, ?, ?, ?, ?)";
         }
 
-        public void add (string IniFile, string FileName, string DirProperty, string Section, string Key, string Value, int Action, string Component) throws GLib.Error {
+        public void add (string IniFile, string FileName, string? DirProperty, string Section, string Key, string Value, int Action, string Component) throws GLib.Error {
             var rec = new Libmsi.Record (8);
             if (!rec.set_string (1, IniFile) ||
                 !rec.set_string (2, FileName) ||
-                !rec.set_string (3, DirProperty) ||
+                (DirProperty != null && !rec.set_string (3, DirProperty)) ||
                 !rec.set_string (4, Section) ||
                 !rec.set_string (5, Key) ||
                 !rec.set_string (6, Value) ||
@@ -1082,14 +1082,14 @@ namespace Wixl {
             sql_insert = "INSERT INTO `RemoveIniFile` (`RemoveIniFile`, `FileName`, `DirProperty`, `Section`, `Key`, Value`, `Action`, `Component_`) VALUES (?, ?, ?, ?, ?, ?, ?, ?)";
         }
 
-        public void add (string IniFile, string FileName, string DirProperty, string Section, string Key, string? Value, int Action, string Component) throws GLib.Error {
+        public void add (string IniFile, string FileName, string? DirProperty, string Section, string Key, string? Value, int Action, string Component) throws GLib.Error {
             var rec = new Libmsi.Record (8);
             if (!rec.set_string (1, IniFile) ||
                 !rec.set_string (2, FileName) ||
-                !rec.set_string (3, DirProperty) ||
+                (DirProperty != null && !rec.set_string (3, DirProperty)) ||
                 !rec.set_string (4, Section) ||
                 !rec.set_string (5, Key) ||
-                !rec.set_string (6, Value) ||
+                (Value != null && !rec.set_string (6, Value)) ||
                 !rec.set_int (7, Action) ||
                 !rec.set_string (8, Component))
                 throw new Wixl.Error.FAILED ("failed to add record");
-- 
2.43.0


From 31c7eef737150b0b99a74e48f7c0b546bd4cd230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 57/68] fix: wixl creates the folder that CreateFolder names

---
 tools/wixl/builder.vala | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 76fb65c..faeb67a 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1171,7 +1171,9 @@ namespace Wixl {
 
         public override void visit_create_folder (WixCreateFolder folder) throws GLib.Error {
             var component = folder.parent as WixComponent;
-            var dir = get_directory (component);
+            var dir = folder.Directory != null ? find_element<WixDirectory> (folder.Directory) : get_directory (component);
+            if (dir == null)
+                throw new Wixl.Error.FAILED ("couldn't resolve directory %s", folder.Directory);
             db.table_create_folder.add (dir.Id, component.Id);
         }
 
-- 
2.43.0


From b4f803c8f14f3fb1c519254bc0a68777d5d102bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 58/68] fix: wixl uses the Command of a Verb

---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index faeb67a..3da87f8 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1142,7 +1142,7 @@ namespace Wixl {
                                      comp.Id,
                                      key);
 
-            db.table_registry.add (regid, 0, key, comp.Id, null, "Open");
+            db.table_registry.add (regid, 0, key, comp.Id, null, verb.Command ?? "Open");
 
             key += "\\command";
             regid = generate_id ("reg", 2,
-- 
2.43.0


From 4e63d80ead8bf2c30602ab471635ff63249bb34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 59/68] fix: wixl searches for the default value of a registry
 key

---
 tools/wixl/msi.vala | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 49f1339..f0e0fe0 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -1006,12 +1006,12 @@ namespace Wixl {
             sql_insert = "INSERT INTO `RegLocator` (`Signature_`, `Root`, `Key`, `Name`, `Type`) VALUES (?, ?, ?, ?, ?)";
         }
 
-        public void add (string Signature, int Root, string Key, string Name, int Type) throws GLib.Error {
+        public void add (string Signature, int Root, string Key, string? Name, int Type) throws GLib.Error {
             var rec = new Libmsi.Record (5);
             if (!rec.set_string (1, Signature) ||
                 !rec.set_int (2, Root) ||
                 !rec.set_string (3, Key) ||
-                !rec.set_string (4, Name) ||
+                (Name != null && !rec.set_string (4, Name)) ||
                 !rec.set_int (5, Type))
                 throw new Wixl.Error.FAILED ("failed to add record");
 
-- 
2.43.0


From ab7e2506cb5c9c0da7c163e8e271fd0e34206a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 60/68] fix: wixl lists secure properties

---
 tools/wixl/builder.vala | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 3da87f8..4313546 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -488,6 +488,9 @@ namespace Wixl {
         }
 
         public override void visit_property (WixProperty prop) throws GLib.Error {
+            if (parse_yesno (prop.Secure) && !(prop.Id in secureProperties))
+                secureProperties += prop.Id;
+
             if (prop.Value == null)
                 return;
 
-- 
2.43.0


From 6d2d35b03e0a79dc0de23fd992e16bcd82ff3c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 61/68] fix: wixl sets the bits of remote volumes and bitmaps
 of controls

---
 tools/wixl/builder.vala | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 4313546..ada0f4a 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1729,8 +1729,12 @@ namespace Wixl {
             // Volume and Directory
             if (parse_yesno (control.Fixed))
                 attributes |= ControlAttributes.FIXED_VOLUME;
+            if (parse_yesno (control.Remote))
+                attributes |= ControlAttributes.REMOTE_VOLUME;
 
             // PictureButton
+            if (parse_yesno (control.Bitmap))
+                attributes |= ControlAttributes.BITMAP;
             if (control.IconSize != null) {
                 if (control.IconSize == "16") {
                     attributes |= ControlAttributes.ICON_SIZE_16;
-- 
2.43.0


From dc0fd836eb24f311fcd58da65a0f81f5a4580e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 62/68] fix: wixl takes the condition of an event from the text
 of Publish

---
 tools/wixl/builder.vala | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index ada0f4a..cf14329 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1862,6 +1862,10 @@ namespace Wixl {
 
             if (publish.Condition != null) {
                 condition = publish.Condition;
+            } else if (publish.children.length () > 0) {
+                var text = (publish.children.first ().data as WixText).Text.strip ();
+                if (text != "")
+                    condition = text;
             }
 
             if (publish.Order != null) {
-- 
2.43.0


From 50281f511ef338ca47fac63a5f8f9b57f27bbafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 63/68] fix: wixl refuses dialogs without the extension ui or
 without controls

---
 tools/wixl/builder.vala | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index cf14329..f5c4492 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1498,7 +1498,13 @@ namespace Wixl {
             }
         }
 
+        void require_ui (WixElement element) throws GLib.Error {
+            if (!(Extension.UI in extensions))
+                throw new Wixl.Error.FAILED ("%s needs the extension ui", element.name);
+        }
+
         public override void visit_ui_text (WixUIText text) throws GLib.Error {
+            require_ui (text);
             db.table_ui_text.add (text.Id, text.Value);
         }
 
@@ -1532,6 +1538,7 @@ namespace Wixl {
             int? color = null;
             TextStyleBits bits = 0;
 
+            require_ui (style);
             if (style.Blue != null || style.Green != null ||
                     style.Red != null) {
 
@@ -1602,6 +1609,8 @@ namespace Wixl {
             if (parse_yesno (dialog.ErrorDialog))
                 attributes |= DialogStyleBits.ERROR;
 
+            if (dialog.children.length () == 0)
+                throw new Wixl.Error.FAILED ("dialog %s has no controls", dialog.Id);
             WixControl first = dialog.children.first().data as WixControl;
 
             db.table_dialog.add (dialog.Id, hcenter, vcenter, width, height,
@@ -1695,8 +1704,8 @@ namespace Wixl {
             int width = 500;
             int height = 500;
             string? filename = null;
-            string help;
 
+            require_ui (control);
             if (!(control.parent is WixDialog)) {
                 throw new Wixl.Error.FAILED ("unhandled parent type %s", control.parent.name);
             }
@@ -1765,8 +1774,6 @@ namespace Wixl {
             if (control.Height != null)
                 height = int.parse (control.Height);
 
-            help = control.ToolTip + "|";
-
             if ( control.file != null ) {
                 filename = control.file.get_path();
             }
@@ -1836,6 +1843,7 @@ namespace Wixl {
             string argument = null;
             string condition = "1";
 
+            require_ui (publish);
             if (publish.parent is WixUI) {
                 control = publish.Control;
                 dialog = publish.Dialog;
@@ -1886,6 +1894,7 @@ namespace Wixl {
             int order;
             WixRadioButtonGroup group = radio.parent as WixRadioButtonGroup;
 
+            require_ui (radio);
             property = group.Property;
             order = group.order++;
 
@@ -1899,6 +1908,7 @@ namespace Wixl {
             string control;
             string dialog;
 
+            require_ui (subscribe);
             dialog = subscribe.parent.parent.Id;
             control = subscribe.parent.Id;
 
-- 
2.43.0


From 672348f67d859221ed2c3c56904c67c976a032eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 64/68] fix: wixl loads the dialogs that events lead to

---
 tools/wixl/builder.vala | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index f5c4492..cd6ec5f 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1868,6 +1868,13 @@ namespace Wixl {
                 argument = publish.Value;
             }
 
+            // the dialogs it leads to are part of the package as well
+            if ((event == "NewDialog" || event == "SpawnDialog" || event == "SpawnWaitDialog") &&
+                argument != null && !argument.contains ("[") &&
+                find_element<WixDialog>(argument) == null) {
+                load_extension_file(Extension.UI, argument);
+            }
+
             if (publish.Condition != null) {
                 condition = publish.Condition;
             } else if (publish.children.length () > 0) {
-- 
2.43.0


From 69a6269d99b8172e60e00424be8f89bf2a43464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:29 +0000
Subject: [PATCH 65/68] fix: values of temporary columns are not counted in the
 file

---
 libmsi/table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index de2e616..ffaeeb0 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1573,7 +1573,8 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             continue;
 
         persistent = (tv->table->persistent != LIBMSI_CONDITION_FALSE) &&
-                     (tv->table->data_persistent[row]);
+                     (tv->table->data_persistent[row]) &&
+                     !(tv->columns[i].type & MSITYPE_TEMPORARY);
         /* FIXME: should we allow updating keys? */
 
         val = 0;
-- 
2.43.0


From df38d89779c2944898de11c02b9869cbcc67a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 66/68] fix: loading a stream that is too short reports an
 error

---
 libmsi/libmsi-record.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index feb2cee..2b49f2e 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -614,16 +614,25 @@ libmsi_record_set_stream (LibmsiRecord *rec, guint field,
     gsize bytes_read = 0;
     GsfInput *stm = NULL;
     guint8 *data = g_malloc (count);
+    unsigned ret;
 
     if (!g_input_stream_read_all (input, data, count, &bytes_read,
-                                  cancellable, error) ||
-        bytes_read != count) {
+                                  cancellable, error)) {
+        g_free (data);
+        return FALSE;
+    }
+
+    if (bytes_read != count) {
+        g_set_error (error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_INVALID_DATA,
+                     "The stream has only %" G_GSIZE_FORMAT " bytes", bytes_read);
         g_free (data);
         return FALSE;
     }
 
     stm = gsf_input_memory_new (data, count, TRUE);
-    if (_libmsi_record_load_stream (rec, field, stm) != LIBMSI_RESULT_SUCCESS) {
+    ret = _libmsi_record_load_stream (rec, field, stm);
+    if (ret != LIBMSI_RESULT_SUCCESS) {
+        g_set_error_literal (error, LIBMSI_RESULT_ERROR, ret, G_STRFUNC);
         g_object_unref (stm);
         return FALSE;
     }
-- 
2.43.0


From c891e4c9c00054a1980a24d660c97e50336c34c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:02 +0000
Subject: [PATCH 67/68] fix: reading, skipping and seeking a stream report why
 they fail

---
 libmsi/libmsi-istream.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index c59c338..df4984f 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -51,7 +51,13 @@ libmsi_seek (GSeekable *seekable, goffset offset,
 {
     g_return_val_if_fail (LIBMSI_IS_ISTREAM(seekable), FALSE);
 
-    return !gsf_input_seek (LIBMSI_ISTREAM(seekable)->input, offset, type);
+    if (gsf_input_seek (LIBMSI_ISTREAM(seekable)->input, offset, type)) {
+        g_set_error_literal (error, G_IO_ERROR, G_IO_ERROR_INVALID_ARGUMENT,
+                             "seek outside of the stream");
+        return FALSE;
+    }
+
+    return TRUE;
 }
 
 static gboolean
@@ -99,8 +105,11 @@ input_stream_read (GInputStream  *stream,
         return 0;
 
     count = MIN(count, remaining);
-    if (!gsf_input_read (self->input, count, buffer))
+    if (!gsf_input_read (self->input, count, buffer)) {
+        g_set_error_literal (error, G_IO_ERROR, G_IO_ERROR_FAILED,
+                             "the stream could not be read");
         return -1;
+    }
 
     return count;
 }
@@ -114,8 +123,11 @@ input_stream_skip (GInputStream *stream,
     LibmsiIStream *self = LIBMSI_ISTREAM (stream);
 
     count = MIN (count, gsf_input_remaining (self->input));
-    if (gsf_input_seek (self->input, count, G_SEEK_CUR))
+    if (gsf_input_seek (self->input, count, G_SEEK_CUR)) {
+        g_set_error_literal (error, G_IO_ERROR, G_IO_ERROR_FAILED,
+                             "the stream could not be skipped");
         return -1;
+    }
 
     return count;
 }
-- 
2.43.0


From 547a92c2c2a65e817690ddeed9baf2e5382db4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:07 +0000
Subject: [PATCH 68/68] fix: truncating the stream of a record is refused, not
 a call through a null pointer

---
 libmsi/libmsi-istream.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index df4984f..79c0fb9 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -66,6 +66,15 @@ libmsi_can_truncate (GSeekable *seekable)
     return FALSE;
 }
 
+static gboolean
+libmsi_truncate (GSeekable *seekable, goffset offset,
+                 GCancellable *cancellable, GError **error)
+{
+    g_set_error_literal (error, G_IO_ERROR, G_IO_ERROR_NOT_SUPPORTED,
+                         "an input stream cannot be truncated");
+    return FALSE;
+}
+
 static void
 libmsi_seekable_iface_init (GSeekableIface *iface)
 {
@@ -73,6 +82,7 @@ libmsi_seekable_iface_init (GSeekableIface *iface)
     iface->can_seek = libmsi_can_seek;
     iface->seek = libmsi_seek;
     iface->can_truncate = libmsi_can_truncate;
+    iface->truncate_fn = libmsi_truncate;
 }
 
 static void
-- 
2.43.0

