From 9a73142dadb497bd089705cf1675401194bf3c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 01/46] fix: unique() of the database dataset no longer
 modifies the caller's column list

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index df95d22..eb2e171 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -234,7 +234,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     def unique(self, columns=None, copy=True):
         columns = self._handle_columns(columns)
         new_ds = self.copy() if copy else self
-        new_ds.columns = columns
+        new_ds.columns = shallowcopy(columns)  # never share (and modify) the list provided by the caller
         if copy: self._record_interaction()
 
         # make sure to always maintain rid on DatabaseInteractionsDataset instances
-- 
2.43.0


From 52c049d6b58666103d15106fb17932ac075538cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 02/46] fix: quote string values of database dataset queries as
 SQL literals

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index eb2e171..0816aab 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -746,7 +746,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 elif col_type is list:
                     value = list(value).__repr__()
                 else:
-                    value = str('"' + value + '"')
+                    value = "'" + value.replace("'", "''") + "'"  # double quotes would denote a column name in SQL
             except ValueError:
                 raise Exception(
                     f'Query "{query}" was failed to be parsed: check if no invalid comparisons are being made '
-- 
2.43.0


From 49156c2e78da4d7758642fbb1fa7236d6855729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 03/46] fix: database datasets reduced by unique() can be
 migrated to their own table

---
 DRecPy/Dataset/db_dataset.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 0816aab..5826baf 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -675,6 +675,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     first_line = next(csv.reader([row], delimiter=new_delimiter))
                 num_lines += 1
 
+        required_cols = ['rid', 'user', 'item', 'interaction']
+
+        for req_col in required_cols:
+            assert req_col in self.columns, f'Missing "{req_col}" column.'
+
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
         self._open_connection(join(data_path(), f'interactions_{id(self)}.{str(random.random()).split(".")[1]}.tmp.sqlite'))
@@ -907,11 +912,6 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             list: 'TEXT'
         }
 
-        required_cols = ['rid', 'user', 'item', 'interaction']
-
-        for req_col in required_cols:
-            assert req_col in self.columns, f'Missing "{req_col}" column.'
-
         create_sql_statement = f'CREATE TABLE {table_name} (' \
             'rid INTEGER PRIMARY KEY,' \
             'uid INTEGER,' \
-- 
2.43.0


From 40d512872ef104762dbfab8815d9a486563c8e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 04/46] fix: ordered comparisons on raw ids of in-memory
 datasets no longer compare internal ids

---
 DRecPy/Dataset/mem_dataset.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 8774c71..46359fe 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -422,13 +422,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             else:
                 value = int(value)
 
-            # use internal ids aux structures to speed up search
-            if column == 'user' and self.has_internal_ids and 'int' not in col_dtype:
-                column = 'uid'
-                value = self.user_to_uid(value)
-            elif column == 'item' and self.has_internal_ids and 'int' not in col_dtype:
-                column = 'iid'
-                value = self.item_to_iid(value)
+            # use internal ids aux structures to speed up search (internal ids don't preserve the order of raw ids)
+            if operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype:
+                if column == 'user' and 'uid' in self.columns:
+                    column = 'uid'
+                    value = self.user_to_uid(value)
+                elif column == 'item' and 'iid' in self.columns:
+                    column = 'iid'
+                    value = self.item_to_iid(value)
 
             if column == 'rid':
                 values = self._df.index.values
-- 
2.43.0


From 51802d5c2cfa7c196c924c93169faf86a6b5034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:35 +0000
Subject: [PATCH 05/46] fix: name temporary tables and files uniquely, whatever
 the state of the global random generator

---
 DRecPy/Dataset/db_dataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 5826baf..7c1b2c2 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -6,6 +6,7 @@ import sqlite3 as sql
 from copy import copy as shallowcopy
 import csv
 import random
+from uuid import uuid4
 from tqdm import tqdm
 from os import remove
 from os import rename
@@ -528,7 +529,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 cur_read.execute(self._build_new_state())
 
                 self._col_types[column] = new_col_type
-                new_table_name = f'interactions_{str(random.random()).split(".")[1]}'
+                new_table_name = f'interactions_{uuid4().hex}'
                 c = self._open_cursor()
                 self._build_table(c, new_table_name)
 
@@ -682,7 +683,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
-        self._open_connection(join(data_path(), f'interactions_{id(self)}.{str(random.random()).split(".")[1]}.tmp.sqlite'))
+        self._open_connection(join(data_path(), f'interactions_{id(self)}.{uuid4().hex}.tmp.sqlite'))
         self._build_table(self._open_cursor())
         self._n_rows = 0
 
@@ -836,7 +837,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         else:
             # this are more instances using the current active table on this database
             # optimize query path by creating a new compressed query node
-            red_table = f'interactions_{str(random.random()).split(".")[1]}'
+            red_table = f'interactions_{uuid4().hex}'
 
             self._build_table(c, table_name=red_table)
 
-- 
2.43.0


From 5d61d7417f41b785abf0bd3ebf9e7a39519d42c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:28 +0000
Subject: [PATCH 06/46] fix: assigning internal ids or applying a
 transformation never modifies a table shared with other instances

---
 DRecPy/Dataset/db_dataset.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 7c1b2c2..403482b 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -443,7 +443,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     f.write('\n')
 
     def assign_internal_ids(self):
-        self._optimize_states()
+        self._optimize_states(skip_empty_query=False, own_table=True)  # never modify a table used by other instances
         self._conn.commit()
 
         # create cursor for reads and updates
@@ -508,7 +508,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             assert new_col_type in supported_types, f'New column type "{new_col_type}" is not supported. Supported types: {supported_types}.'
 
             if new_col_type == self._col_types[column]:  # type does not change
-                self._optimize_states(skip_empty_query=False)  # migrate records if current table is shared
+                # migrate records if current table is shared
+                self._optimize_states(skip_empty_query=False, own_table=True)
 
                 cur_read = self._open_cursor()
                 cur_updt = self._open_cursor()
@@ -810,7 +811,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._n_rows_before_opt = self._n_rows
             self._optimize_states()
 
-    def _optimize_states(self, skip_empty_query=True):
+    def _optimize_states(self, skip_empty_query=True, own_table=False):
         """Auxiliary method that should be called inside .values() and .unique() that computes
         the results from executing the self.state_query on the current table and:
             - If this is the only instance using the current active table:
@@ -818,18 +819,22 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             - If not:
                 1. Creates a reduced table;
                 2. Inserts state query result into the new reduced table.
+
+        If own_table is set, the records always end up on a table that is only used by this instance and that isn't
+        being read by any open value generator, so that its contents can be modified.
         """
         self._queries_wo_optimize = 0
         self._n_direct_interactions = 0
 
+        being_read = len(self._open_value_generators) > 0
         if self._state_query == '' and skip_empty_query: return  # nothing to optimize
-        if len(self._open_value_generators) > 0: return  # can't optimize due to value generators being read
+        if being_read and not own_table: return  # can't optimize due to value generators being read
 
         self._log('Optimizing state...')
 
         c = self._open_cursor()
 
-        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1:
+        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 and not being_read:
             # this is the only instance using the current active table on this database
             if self._state_query != '':
                 c.execute(f'DELETE FROM {self._active_table} '
-- 
2.43.0


From 770e66db1ab1c50e2f4564d7e1be950bfc00d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:47 +0000
Subject: [PATCH 07/46] fix: failed operations of the database dataset are
 rolled back and leave the instance as it was

---
 DRecPy/Dataset/db_dataset.py | 150 +++++++++++++++++++++--------------
 1 file changed, 92 insertions(+), 58 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 403482b..56f84a0 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -3,6 +3,7 @@ from .file_utils import data_path
 from .file_utils import register_temp_file
 from .file_utils import unregister_temp_file
 import sqlite3 as sql
+from contextlib import contextmanager
 from copy import copy as shallowcopy
 import csv
 import random
@@ -235,8 +236,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     def unique(self, columns=None, copy=True):
         columns = self._handle_columns(columns)
         new_ds = self.copy() if copy else self
-        new_ds.columns = shallowcopy(columns)  # never share (and modify) the list provided by the caller
         if copy: self._record_interaction()
+        new_columns = shallowcopy(columns)  # never share (and modify) the list provided by the caller
 
         # make sure to always maintain rid on DatabaseInteractionsDataset instances
         new_cols = ','.join(columns)
@@ -247,9 +248,15 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             new_state = f'SELECT {new_cols}, rid FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \
                 f'(SELECT MIN(rid) FROM ({new_ds._curr_state_source()}) ' \
                 f'GROUP BY {new_cols})'
-            new_ds.columns.append('rid')
+            new_columns.append('rid')
 
-        new_ds._update_state(new_state)
+        old_columns = new_ds.columns
+        new_ds.columns = new_columns
+        try:
+            new_ds._update_state(new_state)
+        except BaseException:
+            new_ds.columns = old_columns
+            raise
         return new_ds
 
     def count_unique(self, columns=None):
@@ -444,17 +451,22 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def assign_internal_ids(self):
         self._optimize_states(skip_empty_query=False, own_table=True)  # never modify a table used by other instances
-        self._conn.commit()
 
+        with self._transaction():
+            self._assign_internal_ids()
+
+        for col in ['uid', 'iid']:
+            if col not in self.columns: self.columns.append(col)
+            self._col_types[col] = int
+        self.has_internal_ids = True
+
+    def _assign_internal_ids(self):
         # create cursor for reads and updates
         c = self._open_cursor()
         self._drop_internal_id_indexes(c, table_name=self._active_table)
         update_c = self._open_cursor()
-        update_c.execute('BEGIN')
 
         # assigns internal ids to users (uids)
-        if 'uid' not in self.columns: self.columns.append('uid')
-        self._col_types['uid'] = int
         c.execute(f'SELECT COUNT(DISTINCT(user)) FROM {self._active_table}')
         n_uniq_users = c.fetchone()[0]
         c.execute(f'SELECT DISTINCT(user) FROM {self._active_table} ORDER BY rid')
@@ -467,8 +479,6 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             curr_uid += 1
 
         # assigns internal ids to items (iids)
-        if 'iid' not in self.columns: self.columns.append('iid')
-        self._col_types['iid'] = int
         c.execute(f'SELECT COUNT(DISTINCT(item)) FROM {self._active_table}')
         n_uniq_items = c.fetchone()[0]
         c.execute(f'SELECT DISTINCT(item) FROM {self._active_table} ORDER BY rid')
@@ -480,11 +490,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             update_c.execute(f'UPDATE {self._active_table} SET iid = ? WHERE item = ?', (curr_iid, item))
             curr_iid += 1
 
-        update_c.execute("END")
-
         self._create_internal_id_indexes(c, table_name=self._active_table)  # after optimize_states, self._state_query = new table name
-        self._conn.commit()
-        self.has_internal_ids = True
 
     def remove_internal_ids(self):
         self.has_internal_ids = False
@@ -511,56 +517,59 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 # migrate records if current table is shared
                 self._optimize_states(skip_empty_query=False, own_table=True)
 
-                cur_read = self._open_cursor()
-                cur_updt = self._open_cursor()
-                cur_updt.execute('BEGIN')
-
-                cur_read.execute(self._build_new_state())
-                _iter = cur_read
-                if self.verbose: _iter = tqdm(cur_read, total=len(self), desc='Applying transformation')
-                for row in _iter:
-                    record = self._from_row_to_record(row, [column, 'rid'])
-                    cur_updt.execute(f'UPDATE {self._active_table} SET {column} = ? WHERE rid = ?',
-                                     (function(record[column]), record['rid']))
-
-                cur_updt.execute("END")
+                with self._transaction():
+                    cur_read = self._open_cursor()
+                    cur_updt = self._open_cursor()
+
+                    cur_read.execute(self._build_new_state())
+                    _iter = cur_read
+                    if self.verbose: _iter = tqdm(cur_read, total=len(self), desc='Applying transformation')
+                    for row in _iter:
+                        record = self._from_row_to_record(row, [column, 'rid'])
+                        cur_updt.execute(f'UPDATE {self._active_table} SET {column} = ? WHERE rid = ?',
+                                         (function(record[column]), record['rid']))
             else:
                 # type changes, require table structure change
-                cur_read = self._open_cursor()
-                cur_read.execute(self._build_new_state())
-
+                old_col_type = self._col_types[column]
                 self._col_types[column] = new_col_type
                 new_table_name = f'interactions_{uuid4().hex}'
-                c = self._open_cursor()
-                self._build_table(c, new_table_name)
-
-                cols = ','.join(self.columns)
-                vars = ','.join('?' * len(self.columns))
-
-                updt_col_index = self.columns.index(column)
-                chunk = []
-                _iter = cur_read
-                if self.verbose: _iter = tqdm(cur_read, total=len(self), desc='Applying transformation')
-                for row in _iter:
-                    record = self._from_row_to_record(row, self.columns, to_list=True)
-                    record[updt_col_index] = function(record[updt_col_index])
-                    chunk.append(tuple(record))
-                    if len(chunk) == self.chunk_size:
-                        c.executemany(f'INSERT INTO {new_table_name} ({cols}) VALUES ({vars})', chunk)
-                        chunk = []
+                try:
+                    with self._transaction():
+                        cur_read = self._open_cursor()
+                        cur_read.execute(self._build_new_state())
+
+                        c = self._open_cursor()
+                        self._build_table(c, new_table_name)
 
-                if len(chunk) > 0:
-                    c.executemany(f'INSERT INTO {new_table_name} ({cols}) VALUES ({vars})', chunk)
+                        cols = ','.join(self.columns)
+                        vars = ','.join('?' * len(self.columns))
+
+                        updt_col_index = self.columns.index(column)
+                        chunk = []
+                        _iter = cur_read
+                        if self.verbose: _iter = tqdm(cur_read, total=len(self), desc='Applying transformation')
+                        for row in _iter:
+                            record = self._from_row_to_record(row, self.columns, to_list=True)
+                            record[updt_col_index] = function(record[updt_col_index])
+                            chunk.append(tuple(record))
+                            if len(chunk) == self.chunk_size:
+                                c.executemany(f'INSERT INTO {new_table_name} ({cols}) VALUES ({vars})', chunk)
+                                chunk = []
+
+                        if len(chunk) > 0:
+                            c.executemany(f'INSERT INTO {new_table_name} ({cols}) VALUES ({vars})', chunk)
+
+                        self._build_indexes(self._open_cursor(), table_name=new_table_name)
+                except BaseException:
+                    self._col_types[column] = old_col_type
+                    raise
 
-                self._build_indexes(self._open_cursor(), table_name=new_table_name)
                 self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
                 self._shared_db_table_instances[self._db_path + new_table_name] = set()
                 self._shared_db_table_instances[self._db_path + new_table_name].add(id(self))
                 self._active_table = new_table_name
                 self._state_query = ''
 
-            self._conn.commit()
-
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
 
@@ -832,6 +841,24 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         self._log('Optimizing state...')
 
+        try:
+            with self._transaction():
+                new_table = self._write_optimized_state(being_read)
+        except sql.Error:
+            if own_table: raise
+            return  # the current state remains valid, it just wasn't optimized
+
+        if new_table != self._active_table:
+            # do not delete set because there are more instances using the db, table pair
+            self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
+            self._shared_db_table_instances[self._db_path + new_table] = set()
+            self._shared_db_table_instances[self._db_path + new_table].add(id(self))
+            self._active_table = new_table
+
+        self._state_query = ''
+
+    def _write_optimized_state(self, being_read):
+        """Writes the records of the current state and returns the name of the table they were written to."""
         c = self._open_cursor()
 
         if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 and not being_read:
@@ -839,6 +866,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if self._state_query != '':
                 c.execute(f'DELETE FROM {self._active_table} '
                           f'WHERE rid NOT IN (SELECT rid FROM ({self._curr_state_source()}))')
+            return self._active_table
         else:
             # this are more instances using the current active table on this database
             # optimize query path by creating a new compressed query node
@@ -850,14 +878,20 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             c.execute(f'INSERT INTO {red_table} ({col_names}) SELECT {col_names} FROM ({self._curr_state_source()})')
 
             self._build_indexes(c, table_name=red_table)
-            # do not delete set because there are more instances using the db, table pair
-            self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
-            self._shared_db_table_instances[self._db_path + red_table] = set()
-            self._shared_db_table_instances[self._db_path + red_table].add(id(self))
-            self._active_table = red_table
+            return red_table
 
-        self._state_query = ''
+    @contextmanager
+    def _transaction(self):
+        """Commits the changes made to the database inside a with block, or undoes all of them if the block fails."""
+        c = self._open_cursor()
         self._conn.commit()
+        c.execute('BEGIN')
+        try:
+            yield
+            self._conn.commit()
+        except BaseException:
+            self._conn.rollback()
+            raise
 
     def _from_row_to_record(self, row, projected_columns, to_list=False):
         interaction = {k: v for k, v in zip(self.columns, row) if k in projected_columns}
@@ -958,7 +992,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     @staticmethod
     def _set_pragmas(conn):
-        conn.execute('PRAGMA journal_mode=OFF')  # no need for rollback journals - https://www.sqlite.org/pragma.html#pragma_journal_mode
+        conn.execute('PRAGMA journal_mode=MEMORY')  # failed operations are rolled back, but no journal files are needed - https://www.sqlite.org/pragma.html#pragma_journal_mode
         conn.commit()
         conn.execute('PRAGMA synchronous=OFF')  # no need to sync - https://www.sqlite.org/pragma.html#pragma_synchronous
         conn.commit()
-- 
2.43.0


From 33d98db2276df68ff0138606474256fa8ab60ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:27 +0000
Subject: [PATCH 08/46] fix: database files provided by the user are never
 modified nor removed

---
 DRecPy/Dataset/db_dataset.py | 54 +++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 56f84a0..342c753 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -14,6 +14,7 @@ from os import rename
 from os.path import isfile
 from os.path import join
 from os.path import expanduser
+from pathlib import Path
 from scipy.sparse import csr_matrix
 
 
@@ -21,6 +22,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     _open_value_generators = set()  # a set containing the still open value generators (not fully read or not GCed)
     _shared_db_instances = dict()  # maps the db file paths to a list of object ids currently using it
     _shared_db_table_instances = dict()  # maps the db file path + table name to a list of object ids currently using it
+    _temp_db_paths = set()  # the auxiliary db files created by this class (the only ones that are ever modified or removed)
     _opt_ratio_threshold = 0.8  # after at least a 20% reduction between old and new states
     _opt_n_query_threshold = 3  # only check if should optimize after X queries w/o optimize
     _opt_n_rows_threshold = 5000  # only optimize if the row diff between states is at least X
@@ -39,6 +41,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._queries_wo_optimize = 0
         self._conn = None
         self._db_path = None
+        self._origin_path = None  # path of the db file the data was loaded from (if any)
         self._active_table = kwds.get('active_table', 'interactions')
         self._col_types = None
         self._n_rows = None
@@ -404,14 +407,13 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         Returns:
             None.
         """
-        if len(path) == 0 and '.tmp.' in self._db_path:
+        if len(path) == 0 and self._origin_path is None:
             raise Exception('No save path was specified.')
 
-        if len(path) == 0: path = self._db_path
+        if len(path) == 0: path = self._origin_path
 
         if path.endswith('.sqlite'):
-            if path == self._db_path and len(self._shared_db_instances[path]) > 1 or \
-                    path != self._db_path and path in self._shared_db_instances and len(self._shared_db_instances[path]) > 0:
+            if path in self._shared_db_instances:
                 raise Exception(f'Cannot save the current data into "{path}" because there are other '
                                 f'instances that are using this file.')
             tmp_path = path + ".tmp"
@@ -428,14 +430,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             new_db.commit()
             new_db.close()
 
-            if path == self._db_path:  # updating origin db - requires to re-open connection
-                self._conn.close()
-                if isfile(path): remove(path)
-                rename(tmp_path, path)
-                self._open_connection(path, loading=True)
-            else:  # saving into distinct destination
-                if isfile(path): remove(path)
-                rename(tmp_path, path)
+            if isfile(path): remove(path)
+            rename(tmp_path, path)
         else:
             projected_cols = self._handle_columns(columns)
             if 'rid' in projected_cols: projected_cols.remove('rid')
@@ -578,6 +574,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                          verbose=False)
 
         new.columns = shallowcopy(self.columns)
+        new._origin_path = self._origin_path
         new.has_internal_ids = self.has_internal_ids
         new._n_rows = self._n_rows
         new._state_query = shallowcopy(self._state_query)
@@ -592,22 +589,26 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     def close(self):
         """Cleanup method to delete temporary database files when they're not in use anymore."""
 
-        if self._db_path is not None and self._db_path + self._active_table in self._shared_db_table_instances:
+        if self._db_path is not None and \
+                id(self) in self._shared_db_table_instances.get(self._db_path + self._active_table, ()):
             self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
             if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
                 del self._shared_db_table_instances[self._db_path + self._active_table]
                 if len(self._open_value_generators) == 0:
-                    self._open_cursor().execute(f'DROP TABLE {self._active_table}')
+                    try:
+                        self._open_cursor().execute(f'DROP TABLE {self._active_table}')
+                    except sql.Error: pass  # the space is reclaimed when the db file is removed
 
         if self._conn is not None:
             self._conn.close()
 
-        if self._db_path is not None and self._db_path in self._shared_db_instances:
+        if self._db_path is not None and id(self) in self._shared_db_instances.get(self._db_path, ()):
             self._shared_db_instances[self._db_path].remove(id(self))
             if len(self._shared_db_instances[self._db_path]) == 0:
                 del self._shared_db_instances[self._db_path]
-                if '.tmp.' in self._db_path:
-                    remove(self._db_path)
+                if self._db_path in self._temp_db_paths:
+                    self._temp_db_paths.remove(self._db_path)
+                    if isfile(self._db_path): remove(self._db_path)
                     unregister_temp_file(self._db_path)
 
     def __str__(self):
@@ -616,9 +617,23 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     """ Auxiliary private methods"""
     def _load_from_db(self, path):
         self._log('Trying to load data from existing database...')
-        self._open_connection(path, loading=True)
+        if path in self._temp_db_paths:  # copying an instance
+            self._open_connection(path, loading=True)
+        else:  # work on a private copy, the provided file is never modified nor removed
+            self._origin_path = path
+            if not isfile(path): raise FileNotFoundError(f'No database file found at "{path}".')
+            origin = sql.connect(f'{Path(path).absolute().as_uri()}?mode=ro', uri=True)
+            try:
+                self._open_connection(join(data_path(), f'interactions_{id(self)}.{uuid4().hex}.tmp.sqlite'))
+                origin.backup(self._conn)
+            finally:
+                origin.close()
+
         self._n_rows = len(self)
-        self.columns = [v[1] for v in self._conn.execute('PRAGMA table_info(interactions)').fetchall() if v[1] not in ['uid', 'iid']]
+        table_info = self._conn.execute(f'PRAGMA table_info({self._active_table})').fetchall()
+        self.columns = [v[1] for v in table_info if v[1] not in ['uid', 'iid']]
+        sql_py_type = {'INTEGER': int, 'REAL': float}
+        self._col_types = {v[1]: sql_py_type.get(v[2].upper(), str) for v in table_info}
 
     def _load_from_csv(self, path, delimiter, has_header, encoding):
 
@@ -910,6 +925,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if loading:
                 raise FileNotFoundError(f'No database file found at "{db_path}".')
             register_temp_file(db_path)
+            self._temp_db_paths.add(db_path)
         self._db_path = db_path
         self._conn = sql.connect(db_path, check_same_thread=False)
         self._set_pragmas(self._conn)
-- 
2.43.0


From 80db5e124caf58c38112eb618a893c23fb94850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:46 +0000
Subject: [PATCH 09/46] fix: saving a dataset never leaves a damaged file
 behind and honours the provided columns

---
 DRecPy/Dataset/db_dataset.py  | 80 ++++++++++++++++-------------------
 DRecPy/Dataset/file_utils.py  | 16 +++++++
 DRecPy/Dataset/mem_dataset.py |  9 ++--
 3 files changed, 57 insertions(+), 48 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 342c753..a63947e 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -2,6 +2,7 @@ from .dataset_abc import InteractionDatasetABC
 from .file_utils import data_path
 from .file_utils import register_temp_file
 from .file_utils import unregister_temp_file
+from .file_utils import replace_file
 import sqlite3 as sql
 from contextlib import contextmanager
 from copy import copy as shallowcopy
@@ -10,7 +11,6 @@ import random
 from uuid import uuid4
 from tqdm import tqdm
 from os import remove
-from os import rename
 from os.path import isfile
 from os.path import join
 from os.path import expanduser
@@ -412,38 +412,32 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         if len(path) == 0: path = self._origin_path
 
+        projected_cols = [col for col in self._handle_columns(columns) if col not in ['rid', 'uid', 'iid']]
+
         if path.endswith('.sqlite'):
             if path in self._shared_db_instances:
                 raise Exception(f'Cannot save the current data into "{path}" because there are other '
                                 f'instances that are using this file.')
-            tmp_path = path + ".tmp"
-            if isfile(tmp_path): remove(tmp_path)
-
-            new_db = sql.connect(tmp_path, check_same_thread=False)
-            self._set_pragmas(new_db)
-            new_db_c = new_db.cursor()
-
-            self._build_table(new_db_c)
-            self._copy_to_new_db(new_db_c)
-            self._build_indexes(new_db_c)
-            new_db_c.close()
-            new_db.commit()
-            new_db.close()
-
-            if isfile(path): remove(path)
-            rename(tmp_path, path)
+            with replace_file(path) as tmp_path:
+                new_db = sql.connect(tmp_path, check_same_thread=False)
+                try:
+                    self._set_pragmas(new_db)
+                    new_db_c = new_db.cursor()
+
+                    self._build_table(new_db_c, columns=projected_cols)
+                    self._copy_to_new_db(new_db_c, projected_cols)
+                    self._build_indexes(new_db_c, columns=projected_cols)
+                    new_db_c.close()
+                    new_db.commit()
+                finally:
+                    new_db.close()
         else:
-            projected_cols = self._handle_columns(columns)
-            if 'rid' in projected_cols: projected_cols.remove('rid')
-            if 'uid' in projected_cols: projected_cols.remove('uid')
-            if 'iid' in projected_cols: projected_cols.remove('iid')
-            with open(path, 'w') as f:
-                if write_header:
-                    f.write(','.join(projected_cols))
-                    f.write('\n')
-                for row in self.values(columns=projected_cols, to_list=True):
-                    f.write(','.join([str(col) if col is not None else '' for col in row]))
-                    f.write('\n')
+            with replace_file(path) as tmp_path:
+                with open(tmp_path, 'w', newline='', encoding='utf8') as f:
+                    writer = csv.writer(f, lineterminator='\n')
+                    if write_header: writer.writerow(projected_cols)
+                    for row in self.values(columns=projected_cols, to_list=True):
+                        writer.writerow(row if len(projected_cols) > 1 else [row])
 
     def assign_internal_ids(self):
         self._optimize_states(skip_empty_query=False, own_table=True)  # never modify a table used by other instances
@@ -937,14 +931,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._open_connection(self._db_path)
             return self._conn.cursor()
 
-    def _copy_to_new_db(self, c, keep_rids=False):
-        """Copies the records returned from the current state to the interactions table of the provided connection."""
+    def _copy_to_new_db(self, c, columns, keep_rids=False):
+        """Copies the given columns of the records returned from the current state to the interactions table of the
+        provided connection."""
         records = []
         ctd = 0
-        projected_cols = shallowcopy(self.columns)
-        # make sure 'rid' is the last column
-        projected_cols.remove('rid')
-        projected_cols.append('rid')
+        projected_cols = columns + ['rid']  # make sure 'rid' is the last column
 
         cols = ','.join(projected_cols)
         vars = ','.join('?' * len(projected_cols))
@@ -960,7 +952,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         if len(records) > 0: c.executemany(insert_query, records)
 
-    def _build_table(self, c, table_name='interactions'):
+    def _build_table(self, c, table_name='interactions', columns=None):
         py_sql_type = {
             int: 'INTEGER',
             float: 'REAL',
@@ -973,7 +965,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             'uid INTEGER,' \
             'iid INTEGER'
 
-        for col in self.columns:
+        for col in columns or self.columns:
             if col not in ['rid', 'uid', 'iid']:
                 create_sql_statement += f',{col} {py_sql_type[self._col_types[col]]}'
 
@@ -981,22 +973,24 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         c.execute(create_sql_statement)
 
-    def _build_indexes(self, c, table_name='interactions'):
+    def _build_indexes(self, c, table_name='interactions', columns=None):
+        columns = columns or self.columns
         c.execute(f'CREATE INDEX rid_idx_{table_name} ON {table_name} (rid)')
 
-        if 'user' in self.columns:
+        if 'user' in columns:
             c.execute(f'CREATE INDEX user_idx_{table_name} ON {table_name} (user)')
 
-        if 'item' in self.columns:
+        if 'item' in columns:
             c.execute(f'CREATE INDEX item_idx_{table_name} ON {table_name} (item)')
 
-        self._create_internal_id_indexes(c, table_name)
+        self._create_internal_id_indexes(c, table_name, columns)
 
-    def _create_internal_id_indexes(self, c, table_name='interactions'):
-        if 'user' in self.columns:
+    def _create_internal_id_indexes(self, c, table_name='interactions', columns=None):
+        columns = columns or self.columns
+        if 'user' in columns:
             c.execute(f'CREATE INDEX uid_idx_{table_name} ON {table_name} (uid)')
 
-        if 'item' in self.columns:
+        if 'item' in columns:
             c.execute(f'CREATE INDEX iid_idx_{table_name} ON {table_name} (iid)')
 
     def _drop_internal_id_indexes(self, c, table_name='interactions'):
diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index 140a84d..15a59e7 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -1,3 +1,4 @@
+from contextlib import contextmanager
 import os
 
 
@@ -21,6 +22,21 @@ def is_stored(ds_name):
     return os.path.exists(ds_path)
 
 
+@contextmanager
+def replace_file(path):
+    """Auxiliary context manager used to write a file: yields the path of a temporary file, that only takes the place of
+    the one at the given path once it has been fully written."""
+    path = os.path.realpath(path)
+    tmp_path = path + '.tmp'
+    if os.path.isfile(tmp_path): os.remove(tmp_path)
+    try:
+        yield tmp_path
+        os.replace(tmp_path, path)
+    except BaseException:
+        if os.path.isfile(tmp_path): os.remove(tmp_path)
+        raise
+
+
 def register_temp_file(file_path):
     try:
         with open(os.path.join(data_path(), 'tmp_files.txt'), 'a') as f:
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 46359fe..ad4a382 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -1,4 +1,5 @@
 from .dataset_abc import InteractionDatasetABC
+from .file_utils import replace_file
 from copy import deepcopy
 import pandas as pd
 from pandas.api.types import is_string_dtype
@@ -300,11 +301,9 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         if len(path) == 0: path = self.path
 
-        projected_cols = deepcopy(self.columns)
-        if 'rid' in projected_cols: projected_cols.remove('rid')
-        if 'uid' in projected_cols: projected_cols.remove('uid')
-        if 'iid' in projected_cols: projected_cols.remove('iid')
-        self._df[projected_cols].to_csv(path, index=None, header=write_header)
+        projected_cols = [col for col in self._handle_columns(columns) if col not in ['rid', 'uid', 'iid']]
+        with replace_file(path) as tmp_path:
+            self._df[projected_cols].to_csv(tmp_path, index=None, header=write_header)
 
     def assign_internal_ids(self):
         self._df = self._df.copy()  # to avoid issues with other instances modifying the df (df objects are shared)
-- 
2.43.0


From b71c5630485b5c4906016fde25cd5d8f40ffa766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:14 +0000
Subject: [PATCH 10/46] fix: open value generators of the database dataset
 aren't affected by later operations, and abandoned ones don't lock the
 database

---
 DRecPy/Dataset/db_dataset.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index a63947e..07a4bad 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -177,12 +177,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         rng = random
         if seed is not None: rng = random.Random(seed)
 
-        c = self._open_cursor()
         max_uid = self.max('uid')
         while True:
             random_uid = rng.randint(0, max_uid)
             query_conditions = self._parse_query(f'uid == {random_uid}')
             new_state = self._build_new_state(query_conditions)
+            c = self._open_cursor()
             count = c.execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
             if count == 0: continue
 
@@ -196,6 +196,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     chosen_record = {k: v for k, v in zip(self.columns, row)}
                     break
                 curr_idx += 1
+            c.close()  # don't keep the records locked until the next one is requested
 
             if chosen_record is not None: yield chosen_record
 
@@ -232,7 +233,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 random_uid = rng.randint(0, max_uid)
                 random_iid = rng.randint(0, max_iid)
                 query_conditions = self._parse_query(f'uid == {random_uid}, iid == {random_iid}')
-                new_state = self._build_new_state(query_conditions)
+                new_state = self._build_new_state(query_conditions, limit=1)
                 if c.execute(new_state).fetchone() is None:
                     yield random_uid, random_iid
 
@@ -291,20 +292,20 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             def __init__(self, open_value_generators, row_to_record_fn):
                 self.open_value_generators = open_value_generators
                 self.row_to_record_fn = row_to_record_fn
-                self.iter = self.__iter__()
                 self.removed_gen = False
                 open_value_generators.add(c)
 
             def __iter__(self):
-                for row in c:
-                    yield self.row_to_record_fn(row, columns, to_list)
-
-                self.removed_gen = True
-                self.open_value_generators.remove(c)
-                c.close()
+                return self
 
             def __next__(self):
-                return next(self.iter)
+                if self.removed_gen: raise StopIteration
+                try:
+                    row = next(c)
+                except StopIteration:
+                    self.close()
+                    raise
+                return self.row_to_record_fn(row, columns, to_list, row_columns)
 
             def __del__(self):
                 if not self.removed_gen:
@@ -322,6 +323,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         columns = self._handle_columns(columns)
 
         curr_state_query = self._build_new_state()
+        row_columns = shallowcopy(self.columns)  # might change while the values are being read
         c = self._open_cursor()
         c.execute(curr_state_query)
 
@@ -902,8 +904,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._conn.rollback()
             raise
 
-    def _from_row_to_record(self, row, projected_columns, to_list=False):
-        interaction = {k: v for k, v in zip(self.columns, row) if k in projected_columns}
+    def _from_row_to_record(self, row, projected_columns, to_list=False, row_columns=None):
+        interaction = {k: v for k, v in zip(row_columns or self.columns, row) if k in projected_columns}
         if to_list:
             list_interaction = [interaction[col] for col in projected_columns]
             if len(list_interaction) == 1: return list_interaction[0]
-- 
2.43.0


From 9d56f4f65840f532e85cc2f045fe2ba5cb921808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:47 +0000
Subject: [PATCH 11/46] fix: interaction vectors are never outdated nor
 truncated, and sampling of in-memory datasets works with any number of users

---
 DRecPy/Dataset/db_dataset.py  | 23 +++++++++++++++++------
 DRecPy/Dataset/mem_dataset.py | 34 +++++++++++++++++++++-------------
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 07a4bad..ebae13c 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -126,12 +126,13 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             interactions.append(float(interaction))  # floats due to tf not supporting NPY_INT during np.array to tensor
 
         try:
-            self._user_interaction_vec_cache[uid] = csr_matrix((interactions, ([0] * len(interactions), cols)),
-                                                               shape=(1, max_iid + 1))[0]
+            vec = csr_matrix((interactions, ([0] * len(interactions), cols)), shape=(1, max_iid + 1))[0]
         except MemoryError:
             self._user_interaction_vec_cache.clear()
+            vec = csr_matrix((interactions, ([0] * len(interactions), cols)), shape=(1, max_iid + 1))[0]
 
-        return self._user_interaction_vec_cache[uid]
+        self._user_interaction_vec_cache[uid] = vec
+        return vec
 
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
@@ -152,12 +153,13 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             interactions.append(float(interaction))  # floats due to tf not supporting NPY_INT during np.array to tensor
 
         try:
-            self._item_interaction_vec_cache[iid] = csr_matrix((interactions, ([0] * len(interactions), cols)),
-                                                               shape=(1, max_uid + 1))[0]
+            vec = csr_matrix((interactions, ([0] * len(interactions), cols)), shape=(1, max_uid + 1))[0]
         except MemoryError:
             self._item_interaction_vec_cache.clear()
+            vec = csr_matrix((interactions, ([0] * len(interactions), cols)), shape=(1, max_uid + 1))[0]
 
-        return self._item_interaction_vec_cache[iid]
+        self._item_interaction_vec_cache[iid] = vec
+        return vec
 
     def select_random_generator(self, query=None, seed=None):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
@@ -447,6 +449,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         with self._transaction():
             self._assign_internal_ids()
 
+        self._clear_interaction_vec_caches()
         for col in ['uid', 'iid']:
             if col not in self.columns: self.columns.append(col)
             self._col_types[col] = int
@@ -562,6 +565,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 self._active_table = new_table_name
                 self._state_query = ''
 
+            self._clear_interaction_vec_caches()
+
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
 
@@ -822,6 +827,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._n_rows = self._open_cursor().execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
 
         self._state_query = new_state
+        self._clear_interaction_vec_caches()
 
         if self._n_rows_before_opt > 0 and self._n_rows > 0 \
                 and self._queries_wo_optimize >= self._opt_n_query_threshold \
@@ -831,6 +837,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._n_rows_before_opt = self._n_rows
             self._optimize_states()
 
+    def _clear_interaction_vec_caches(self):
+        """Must be called whenever the records of the current instance change."""
+        self._user_interaction_vec_cache.clear()
+        self._item_interaction_vec_cache.clear()
+
     def _optimize_states(self, skip_empty_query=True, own_table=False):
         """Auxiliary method that should be called inside .values() and .unique() that computes
         the results from executing the self.state_query on the current table and:
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index ad4a382..f3a6447 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -5,7 +5,6 @@ import pandas as pd
 from pandas.api.types import is_string_dtype
 import random
 from scipy.sparse import csr_matrix
-import numpy as np
 
 
 class MemoryInteractionDataset(InteractionDatasetABC):
@@ -24,6 +23,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         self._item_mapping_inv = None
         self._cached_interaction_matrix = None  # users in rows, items in cols
         self._cached_trans_interaction_matrix = None  # items in rows, users in cols
+        self._cached_interaction_matrix_df = None  # the df used to build the cached matrices
 
         self._log('Trying to load data into memory...')
 
@@ -115,7 +115,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         rng = random
         if seed is not None: rng = random.Random(seed)
 
-        max_uid = self.max('uid')
+        max_uid = int(self.max('uid'))
         df_columns = [col for col in self.columns if col != 'rid']
         while True:
             random_uid = rng.randint(0, max_uid)
@@ -141,14 +141,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         else:
             try:
                 negative_ds = self._apply_query(f'interaction < {interaction_threshold}', in_place=False)
-                existing_null_pair_gen = self.select_random_generator(negative_ds, seed=seed)
+                existing_null_pair_gen = self._select_random_generator(negative_ds, seed=seed)
                 next(existing_null_pair_gen)  # force error if there's no matches
             except:
                 existing_null_pair_gen = None
 
-        max_uid = self.max('uid')
-        max_iid = self.max('iid')
-        n_possible_combs = max_uid.astype(np.float) * max_iid.astype(np.float)
+        max_uid = int(self.max('uid'))
+        max_iid = int(self.max('iid'))
+        n_possible_combs = max_uid * max_iid
 
         uid_values = self._df['uid'].values
         iid_values = self._df['iid'].values
@@ -168,6 +168,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         assert self.uid_to_user(uid) is not None, f'User internal id {uid} was not found.'
 
         try:
+            self._discard_outdated_interaction_matrix()
             if self._cached_interaction_matrix is not None and self._cached_interaction_matrix.shape[0] <= 1:
                 raise MemoryError
 
@@ -188,13 +189,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='iid').shape[0]))[0]
+                              shape=(1, int(self.max('iid')) + 1))[0]
 
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
         assert self.iid_to_item(iid) is not None, f'Item internal id {iid} was not found.'
 
         try:
+            self._discard_outdated_interaction_matrix()
             if self._cached_interaction_matrix is not None and self._cached_interaction_matrix.shape[0] <= 1:
                 raise MemoryError
 
@@ -209,14 +211,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             cols, interactions = [], []
             df_segment = self._df[self._df['iid'].values == iid]
             projected_cols = [col for col in self.columns if col != 'rid']
-            iid_col_idx = projected_cols.index('iid')
+            uid_col_idx = projected_cols.index('uid')
             interaction_col_idx = projected_cols.index('interaction')
             for row in df_segment[projected_cols].values:
-                cols.append(row[iid_col_idx])
+                cols.append(row[uid_col_idx])
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='uid').shape[0]))[0]
+                              shape=(1, int(self.max('uid')) + 1))[0]
 
     def unique(self, columns=None, copy=True):
         columns = self._handle_columns(columns).copy()
@@ -353,7 +355,6 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             if column == 'interaction' and self._cached_interaction_matrix is not None:
                 self._cached_interaction_matrix = None
                 self._cached_trans_interaction_matrix = None
-                self._build_interaction_matrix()
 
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
@@ -377,6 +378,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         new._cached_interaction_matrix = None
         new._cached_trans_interaction_matrix = None
+        new._cached_interaction_matrix_df = None
 
         return new
 
@@ -477,11 +479,17 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 return self._df[condition_vector]
             return self._df
 
+    def _discard_outdated_interaction_matrix(self):
+        if self._cached_interaction_matrix_df is not self._df:  # the df is replaced whenever a modification is done
+            self._cached_interaction_matrix = None
+            self._cached_trans_interaction_matrix = None
+            self._cached_interaction_matrix_df = self._df
+
     def _build_interaction_matrix(self):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
 
         users, cols, interactions = [], [], []
-        n_uids = self.count_unique('uid')
+        n_uids = int(self.max('uid')) + 1  # some of the internal ids might not be present anymore
         projected_cols = [col for col in self.columns if col != 'rid']
         iid_col_idx = projected_cols.index('iid')
         interaction_col_idx = projected_cols.index('interaction')
@@ -493,6 +501,6 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 interactions.append(float(row[interaction_col_idx]))  # floats due to tf not supporting NPY_INT during np.array to tensor
 
         self._cached_interaction_matrix = csr_matrix((interactions, (users, cols)),
-                                                     shape=(n_uids, self.count_unique('iid')))
+                                                     shape=(n_uids, int(self.max('iid')) + 1))
 
         self._cached_trans_interaction_matrix = self._cached_interaction_matrix.transpose()
-- 
2.43.0


From 4a551c641ae42e154c9714b7268821aaf9169720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:29 +0000
Subject: [PATCH 12/46] fix: importing the package doesn't delete temporary
 files of other running processes

---
 DRecPy/Dataset/file_utils.py | 65 +++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index 15a59e7..2973c40 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -1,5 +1,7 @@
 from contextlib import contextmanager
 import os
+import re
+import threading
 
 
 def data_path():
@@ -37,39 +39,62 @@ def replace_file(path):
         raise
 
 
+_REGISTRY_PATTERN = r'tmp_files(_(\d+))?\.txt$'
+_registry_lock = threading.Lock()
+
+
+def _registry_path():
+    """Each process has its own registry of temporary files, so that it can be told whether they're still in use."""
+    return os.path.join(data_path(), f'tmp_files_{os.getpid()}.txt')
+
+
+def _owner_is_running(registry):
+    """Verifies if the process that owns the given registry of temporary files is still running."""
+    pid = re.match(_REGISTRY_PATTERN, registry).group(2)
+    if pid is None or os.name != 'posix': return False
+    if int(pid) == os.getpid(): return False  # left by a previous process with the same pid
+    try:
+        os.kill(int(pid), 0)  # doesn't send any signal
+    except ProcessLookupError:
+        return False
+    except OSError: pass
+    return True
+
+
 def register_temp_file(file_path):
     try:
-        with open(os.path.join(data_path(), 'tmp_files.txt'), 'a') as f:
+        with _registry_lock, open(_registry_path(), 'a') as f:
             f.write(file_path + '\n')
     except NameError: pass  # possible errors with calling 'open' on __del__
     except FileNotFoundError: pass
 
 
 def unregister_temp_file(file_path):
-    empty = True
-
     try:
-        with open(os.path.join(data_path(), 'tmp_files.txt'), 'r') as f:
-            paths = f.readlines()
-        with open(os.path.join(data_path(), 'tmp_files.txt'), 'w') as f:
-            for path in paths:
-                if path.strip("\n") != file_path:
-                    f.write(path)
-                    empty = False
+        with _registry_lock:
+            with open(_registry_path(), 'r') as f:
+                paths = [path for path in f if path.strip("\n") != file_path]
+            if len(paths) == 0:
+                os.remove(_registry_path())
+            else:
+                with replace_file(_registry_path()) as tmp_path, open(tmp_path, 'w') as f:
+                    f.writelines(paths)
     except NameError: pass
     except FileNotFoundError: pass
 
-    if empty:
-        os.remove(os.path.join(data_path(), 'tmp_files.txt'))
-
 
 def delete_temp_files():
+    """Deletes the temporary files left behind by processes that aren't running anymore."""
     try:
-        with open(os.path.join(data_path(), 'tmp_files.txt'), 'r') as f:
-            for path in f:
-                try:
-                    os.remove(path.strip())
-                except: pass
-        os.remove(os.path.join(data_path(), 'tmp_files.txt'))
+        for registry in os.listdir(data_path()):
+            if not re.match(_REGISTRY_PATTERN, registry) or _owner_is_running(registry): continue
+            try:
+                with open(os.path.join(data_path(), registry), 'r') as f:
+                    for path in f:
+                        try:
+                            os.remove(path.strip())
+                        except: pass
+                os.remove(os.path.join(data_path(), registry))
+            except FileNotFoundError: pass  # already deleted by another process
     except NameError: pass
-    except FileNotFoundError: pass
\ No newline at end of file
+    except FileNotFoundError: pass
-- 
2.43.0


From 087bb59551d7b3b50f09fdde4411278a40fdc4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:56 +0000
Subject: [PATCH 13/46] fix: list sampler supports string identifiers and
 samples negatives deterministically

---
 DRecPy/Dataset/query_utils.py  | 3 +++
 DRecPy/Sampler/list_sampler.py | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)
 create mode 100644 DRecPy/Dataset/query_utils.py

diff --git a/DRecPy/Dataset/query_utils.py b/DRecPy/Dataset/query_utils.py
new file mode 100644
index 0000000..b704b45
--- /dev/null
+++ b/DRecPy/Dataset/query_utils.py
@@ -0,0 +1,3 @@
+def query_value(value):
+    """Auxiliary method to represent a value (such as a raw user or item identifier) on a dataset query."""
+    return repr(value) if isinstance(value, str) else value
diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index a6175ef..ff906e2 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -1,4 +1,5 @@
 from DRecPy.Dataset import InteractionDatasetABC
+from DRecPy.Dataset.query_utils import query_value
 import random
 
 
@@ -94,7 +95,7 @@ class ListSampler:
                 chosen_group = self.rng.choice(self.unique_groups)
                 if not isinstance(chosen_group, list):
                     chosen_group = [chosen_group]
-                query = ','.join([f'{group_col} == {chosen_col_group}' for group_col, chosen_col_group
+                query = ','.join([f'{group_col} == {query_value(chosen_col_group)}' for group_col, chosen_col_group
                                   in zip(self.group_columns, chosen_group)])
                 group_records_ds = self.interaction_dataset.select(query)
                 if self.interaction_threshold is None:
@@ -144,7 +145,7 @@ class ListSampler:
                                         f'({self.neg_ratio}) or the n_targets ({self.n_targets}).')
                     continue
 
-                negative_ids = self.rng.sample(eligible_negative_ids, n_negative_ids)
+                negative_ids = self.rng.sample(sorted(eligible_negative_ids), n_negative_ids)
                 group_records_list.append((positive_group_records, target_group_records, negative_ids))
                 break
 
-- 
2.43.0


From 5391da1fbb3ee5ed9c08a4e17469f79819d0660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:56 +0000
Subject: [PATCH 14/46] fix: failures of split and evaluation tasks aren't
 hidden nor block the caller, and string identifiers are supported

---
 .../Processes/ranking_evaluation.py           |  7 +++--
 .../Processes/recommendation_evaluation.py    | 28 ++++++++++++-------
 DRecPy/Evaluation/Splits/leave_k_out.py       | 16 +++++++----
 DRecPy/Evaluation/Splits/matrix_split.py      | 11 +++++---
 4 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 4333e20..ae00eb8 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -3,6 +3,7 @@ from DRecPy.Evaluation.Metrics import Precision
 from DRecPy.Evaluation.Metrics import Recall
 from DRecPy.Evaluation.Metrics import HitRatio
 from DRecPy.Evaluation.Metrics import NDCG
+from DRecPy.Dataset.query_utils import query_value
 import random
 from tqdm import tqdm
 import matplotlib.pyplot as plt
@@ -164,7 +165,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                               train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {query_value(user)}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -194,7 +195,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                 user_train_pos_ds = user_test_pos_ds
             else:
                 user_train_pos_ds = model.interaction_dataset \
-                    .select(f'user == {user}, interaction >= {interaction_threshold}')
+                    .select(f'user == {query_value(user)}, interaction >= {interaction_threshold}')
 
             item_blacklist = set(user_train_pos_ds.unique('item').values_list('item', to_list=True))
             if not train_evaluation:
@@ -220,7 +221,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
 
     # rank according to model
     recommendations = [item for _, item in model.rank(user, all_items, novelty=novelty, skip_invalid_items=True)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {query_value(item)}', ['interaction'], to_list=True) or 0)
                    for item in all_items}
 
     # evaluate performance
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index 98816b9..41f334f 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -3,12 +3,14 @@ from DRecPy.Evaluation.Metrics import Precision
 from DRecPy.Evaluation.Metrics import Recall
 from DRecPy.Evaluation.Metrics import HitRatio
 from DRecPy.Evaluation.Metrics import NDCG
+from DRecPy.Dataset.query_utils import query_value
 import random
 from tqdm import tqdm
 import matplotlib.pyplot as plt
 from multiprocessing.pool import ThreadPool
 from threading import Lock
 import time
+import logging
 
 n_tasks_done = 0
 n_tasks_lock = Lock()
@@ -135,10 +137,23 @@ def recommendation_evaluation(model, ds_test=None, n_test_users=None, k=10, n_po
 
 def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
+    global n_tasks_done
+
+    try:
+        __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                         novelty, ignore_low_predictions_threshold, metric_sums, k, rng)
+    except Exception as e:
+        logging.error(e)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
+
+
+def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    global n_tasks_done
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {query_value(user)}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -146,8 +161,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
         user_interacted_items = user_test_pos_ds.values_list(['item', 'interaction'])
     else:
         if len(user_test_pos_ds) < n_pos_interactions:  # not enough positive interactions
-            with n_tasks_lock:
-                n_tasks_done += 1
             return
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
@@ -157,13 +170,11 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     # join and shuffle all items
     if len(user_interacted_items) == 0:
-        with n_tasks_lock:
-            n_tasks_done += 1
         return
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
                                                            interaction_threshold=ignore_low_predictions_threshold)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {query_value(item)}', ['interaction'], to_list=True) or 0)
                    for item in set(user_interacted_items).union(set(recommendations))}
 
     # evaluate performance
@@ -187,6 +198,3 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
                     metric_sums[(m.name, k_)][0] += m(**params)
                     metric_sums[(m.name, k_)][1] += 1
                 except: pass
-
-    with n_tasks_lock:
-        n_tasks_done += 1
diff --git a/DRecPy/Evaluation/Splits/leave_k_out.py b/DRecPy/Evaluation/Splits/leave_k_out.py
index 2d2a91e..20fab67 100644
--- a/DRecPy/Evaluation/Splits/leave_k_out.py
+++ b/DRecPy/Evaluation/Splits/leave_k_out.py
@@ -1,3 +1,4 @@
+from DRecPy.Dataset.query_utils import query_value
 from multiprocessing.pool import ThreadPool
 from threading import Lock
 from heapq import heappush, heapreplace
@@ -63,18 +64,20 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
     n_tasks_done, n_tasks = 0, 0
 
     pool = ThreadPool(processes=max_concurrent_threads)
-    train_rids_to_rem, test_rids = [], []
+    train_rids_to_rem, test_rids, errors = [], [], []
     for user in _iter:
         seed += 1
         n_tasks += 1
         if ratio_variant:
             pool.apply_async(_leave_k_out_user_ratio, (interaction_dataset, train_rids_to_rem, test_rids,
                                                        min_user_interactions, user, k, random.Random(seed),
-                                                       last_timestamps, timestamp_label))
+                                                       last_timestamps, timestamp_label),
+                             error_callback=errors.append)
         else:
             pool.apply_async(_leave_k_out_user_fixed, (interaction_dataset, train_rids_to_rem, test_rids,
                                                        min_user_interactions, user, k, random.Random(seed),
-                                                       last_timestamps, timestamp_label))
+                                                       last_timestamps, timestamp_label),
+                             error_callback=errors.append)
 
     pool.close()  # Done adding tasks
 
@@ -84,11 +87,12 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
         while n_tasks_done <= n_tasks:
             pbar.update(n_tasks_done - curr_done)
             curr_done = n_tasks_done
-            if n_tasks_done == n_tasks:
+            if n_tasks_done + len(errors) >= n_tasks:
                 break
             time.sleep(1)
 
     pool.join()  # Wait for all tasks to complete
+    if len(errors) > 0: raise errors[0]
 
     ds_test = interaction_dataset.drop(test_rids, keep=True)
     ds_train = interaction_dataset.drop(train_rids_to_rem + test_rids)
@@ -98,7 +102,7 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
 
 def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {query_value(user)}')
     n_sampled_items = int(len(user_rows_ds) * k)
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, n_sampled_items, rng,
                       last_timestamps, timestamp_label)
@@ -106,7 +110,7 @@ def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, m
 
 def _leave_k_out_user_fixed(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {query_value(user)}')
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
                       last_timestamps, timestamp_label)
 
diff --git a/DRecPy/Evaluation/Splits/matrix_split.py b/DRecPy/Evaluation/Splits/matrix_split.py
index 2d1fa6d..ff24b03 100644
--- a/DRecPy/Evaluation/Splits/matrix_split.py
+++ b/DRecPy/Evaluation/Splits/matrix_split.py
@@ -1,3 +1,4 @@
+from DRecPy.Dataset.query_utils import query_value
 from multiprocessing.pool import ThreadPool
 from threading import Lock
 import random
@@ -57,11 +58,12 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
     n_tasks_done, n_tasks = 0, 0
 
     pool = ThreadPool(processes=max_concurrent_threads)
-    train_rids_to_rem, test_rids = [], []
+    train_rids_to_rem, test_rids, errors = [], [], []
     for user in _iter:
         n_tasks += 1
         pool.apply_async(_matrix_split_user, (interaction_dataset, train_rids_to_rem, test_rids, user,
-                                              min_user_interactions, test_items_set, test_users_set))
+                                              min_user_interactions, test_items_set, test_users_set),
+                         error_callback=errors.append)
 
     pool.close()  # Done adding tasks
 
@@ -71,11 +73,12 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
         while n_tasks_done <= n_tasks:
             pbar.update(n_tasks_done - curr_done)
             curr_done = n_tasks_done
-            if n_tasks_done == n_tasks:
+            if n_tasks_done + len(errors) >= n_tasks:
                 break
             time.sleep(1)
 
     pool.join()  # Wait for all tasks to complete
+    if len(errors) > 0: raise errors[0]
 
     ds_test = interaction_dataset.drop(test_rids, keep=True)
     ds_train = interaction_dataset.drop(train_rids_to_rem + test_rids)
@@ -86,7 +89,7 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
 def _matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,
                        test_users_set):
     global n_tasks_done
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {query_value(user)}')
 
     if len(user_rows_ds) < min_user_interactions:  # not enough user interactions
         with train_rem_lock:
-- 
2.43.0


From 1a836579f12aa24725bda6cbd7955ce751ec8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:44 +0000
Subject: [PATCH 15/46] fix: early stopping restores the weights of the best
 epoch, and refitting a model doesn't reuse the state of previous fits

---
 DRecPy/Recommender/Baseline/base_knn.py |  3 ++
 DRecPy/Recommender/Baseline/item_knn.py |  2 +-
 DRecPy/Recommender/Baseline/user_knn.py |  2 +-
 DRecPy/Recommender/recommender_abc.py   | 42 +++++++++++++++++--------
 4 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/DRecPy/Recommender/Baseline/base_knn.py b/DRecPy/Recommender/Baseline/base_knn.py
index 22867e7..b79b19e 100644
--- a/DRecPy/Recommender/Baseline/base_knn.py
+++ b/DRecPy/Recommender/Baseline/base_knn.py
@@ -73,6 +73,9 @@ class BaseKNN(RecommenderABC, ABC):
         self._neighbours = dict()
 
     def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
+        self._similarities = dict()  # must not contain values computed for previous fits
+        self._neighbours = dict()
+
         self._info('Computing similarity matrix...')
         self._compute_similarities()
 
diff --git a/DRecPy/Recommender/Baseline/item_knn.py b/DRecPy/Recommender/Baseline/item_knn.py
index 1b38355..fba92c6 100644
--- a/DRecPy/Recommender/Baseline/item_knn.py
+++ b/DRecPy/Recommender/Baseline/item_knn.py
@@ -23,7 +23,7 @@ class ItemKNN(BaseKNN):
         item_rated_users = {}
         interactions, uids, iids = [], [], []
         for record in self.interaction_dataset.values():
-            u, i, r = record['uid'], record['iid'], record['interaction']
+            u, i, r = int(record['uid']), int(record['iid']), record['interaction']
             interactions.append(r)
             uids.append(u)
             iids.append(i)
diff --git a/DRecPy/Recommender/Baseline/user_knn.py b/DRecPy/Recommender/Baseline/user_knn.py
index 7803dbf..3ddeba3 100644
--- a/DRecPy/Recommender/Baseline/user_knn.py
+++ b/DRecPy/Recommender/Baseline/user_knn.py
@@ -23,7 +23,7 @@ class UserKNN(BaseKNN):
         user_rated_items = {}
         interactions, uids, iids = [], [], []
         for record in self.interaction_dataset.values():
-            u, i, r = record['uid'], record['iid'], record['interaction']
+            u, i, r = int(record['uid']), int(record['iid']), record['interaction']
             interactions.append(r)
             uids.append(u)
             iids.append(i)
diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 352aac3..1f2583d 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -68,6 +68,7 @@ class RecommenderABC(ABC):
         self.trainable_layers = []
         self.trainable_models = []
         self.epoch_weights = []
+        self._n_initial_trainables = None
         self.optimizer = None
 
         self._loss_tracker = None
@@ -134,7 +135,7 @@ class RecommenderABC(ABC):
         self.interaction_dataset = interaction_dataset
         if copy_dataset:
             self._info('Cloning new dataset instance...')
-            self.interaction_dataset = interaction_dataset.__copy__()
+            self.interaction_dataset = interaction_dataset.copy()
         self.interaction_dataset.assign_internal_ids()
 
         self.min_interaction = self.interaction_dataset.min('interaction')
@@ -146,6 +147,7 @@ class RecommenderABC(ABC):
         self.n_rows = len(self.interaction_dataset)
 
         self._loss_tracker = LossTracker()
+        self._reset_trainables()
 
         self._log_initial_info()
 
@@ -183,6 +185,7 @@ class RecommenderABC(ABC):
             for metric in epoch_callback_ret:
                 self._loss_tracker.add_epoch_callback_result(metric, epoch_callback_ret[metric], 0)
 
+        initial_weights = self._get_weights()
         _iter = range(1, epochs+1)
         if self.verbose:
             _iter = tqdm(range(1, epochs+1), total=epochs, desc='Fitting model...', position=0, leave=True)
@@ -228,8 +231,8 @@ class RecommenderABC(ABC):
                                                                             self._loss_tracker.called_epochs)
                     if early_stopping_rule.stop_training(e, early_stopping_best_epoch, epochs):
                         break
-                except InvalidEpochValidationResultsException as e:
-                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {e}')
+                except InvalidEpochValidationResultsException as error:
+                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {error}')
 
             if early_stopping_best_epoch is not None:
                 progress_desc += f' | {early_stopping_rule.__class__.__name__} best epoch: {early_stopping_best_epoch}'
@@ -247,13 +250,13 @@ class RecommenderABC(ABC):
                 if self.verbose:
                     _iter.set_description(progress_desc)
                 self._info(progress_desc, log_console=False)
-            except InvalidEpochValidationResultsException as e:
-                self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {e}')
+            except InvalidEpochValidationResultsException as error:
+                self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {error}')
 
         if early_stopping_best_epoch is not None and early_stopping_best_epoch != epochs:
             self._info(f'Reverting network weights to epoch {early_stopping_best_epoch} due to the evaluation of the '
                        f'early stopping rule {early_stopping_rule.__class__.__name__}.')
-            self._revert_weights(early_stopping_best_epoch)
+            self._revert_weights(early_stopping_best_epoch, initial_weights)
 
         if self.verbose:
             self._loss_tracker.display_graph(
@@ -281,6 +284,15 @@ class RecommenderABC(ABC):
         for variable in variables:
             self._register_trainable(variable)
 
+    def _reset_trainables(self):
+        """Removes the variables registered, and the weights stored, by previous fits."""
+        trainables = [self.trainable_vars, self.trainable_weights, self.trainable_layers, self.trainable_models]
+        if self._n_initial_trainables is None:
+            self._n_initial_trainables = [len(variables) for variables in trainables]
+        for variables, n in zip(trainables, self._n_initial_trainables):
+            del variables[n:]
+        self.epoch_weights = []
+
     def _register_optimizer(self, optimizer):
         self.optimizer = optimizer
 
@@ -333,15 +345,19 @@ class RecommenderABC(ABC):
                 trainable_var = [trainable_var]
             self.optimizer.apply_gradients(zip(gradient, trainable_var))
 
-    def _store_epoch_weights(self):
-        self.epoch_weights.append({
+    def _get_weights(self):
+        return {
             'trainable_weights': copy.deepcopy(self.trainable_weights),
-            'trainable_layers': [layer.trainable_weights for layer in self.trainable_layers],
-            'trainable_models': [model.trainable_weights for model in self.trainable_models]
-        })
+            'trainable_layers': [layer.get_weights() for layer in self.trainable_layers],
+            'trainable_models': [model.get_weights() for model in self.trainable_models]
+        }
+
+    def _store_epoch_weights(self):
+        self.epoch_weights.append(self._get_weights())
 
-    def _revert_weights(self, epoch):
-        target_weights = self.epoch_weights[epoch-1]  # convert to 0-based idx
+    def _revert_weights(self, epoch, initial_weights):
+        # convert to 0-based idx (epoch 0 represents the state before training)
+        target_weights = self.epoch_weights[epoch-1] if epoch > 0 else initial_weights
         for model, weights in zip(self.trainable_models, target_weights['trainable_models']):
             model.set_weights(weights)
         for layer, weights in zip(self.trainable_layers, target_weights['trainable_layers']):
-- 
2.43.0


From b71325f4489ae5f4760c0f7d1262335162764640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:18 +0000
Subject: [PATCH 16/46] fix: saving a model never leaves a damaged file behind

---
 DRecPy/Dataset/file_utils.py          | 2 +-
 DRecPy/Recommender/recommender_abc.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index 2973c40..a5e6359 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -29,7 +29,7 @@ def replace_file(path):
     """Auxiliary context manager used to write a file: yields the path of a temporary file, that only takes the place of
     the one at the given path once it has been fully written."""
     path = os.path.realpath(path)
-    tmp_path = path + '.tmp'
+    tmp_path = path + '.tmp' + os.path.splitext(path)[1]  # the extension might define the format of the file
     if os.path.isfile(tmp_path): os.remove(tmp_path)
     try:
         yield tmp_path
diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 1f2583d..3d83546 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -3,6 +3,7 @@ from abc import abstractmethod
 from joblib import load
 from joblib import dump
 from tqdm import tqdm
+from DRecPy.Dataset.file_utils import replace_file
 from DRecPy.Evaluation import LossTracker
 from heapq import nlargest
 import random
@@ -525,7 +526,8 @@ class RecommenderABC(ABC):
         Returns:
             None.
         """
-        dump(self, save_path)
+        with replace_file(save_path) as tmp_path:
+            dump(self, tmp_path)
 
     @staticmethod
     def load(load_path):  # todo: need interactionsDataset when loading?
-- 
2.43.0


From b4407007b6d13e7a43024c0178a0dab909ee1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:30 +0000
Subject: [PATCH 17/46] fix: interrupted or failed downloads of integrated
 datasets aren't considered as stored, and encodings are preserved

---
 DRecPy/Dataset/db_dataset.py          |  2 +-
 DRecPy/Dataset/integrated_datasets.py | 72 ++++++++++++++++-----------
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ebae13c..e382883 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -695,7 +695,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         # read num of lines + detect column types
         num_lines = 0
         first_line = None
-        with open(path, 'r') as f:
+        with open(path, 'r', encoding=encoding) as f:
             for row in f:
                 if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
                     if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 452fda7..26cf87c 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -1,8 +1,11 @@
 import os
+import shutil
+import tempfile
 from zipfile import ZipFile
 import requests
 from DRecPy.Dataset import InteractionDataset
 from DRecPy.Evaluation.Splits import leave_k_out
+from .file_utils import data_path
 from .file_utils import get_dataset_path
 from .file_utils import is_stored
 
@@ -60,34 +63,45 @@ def download_dataset(ds_name):
     """Download the dataset with name passed as argument."""
     ds_options = DATASETS[ds_name]
     print('> Downloading from', ds_options.url)
-    data = requests.get(ds_options.url).content
-
-    dataset_path = get_dataset_path(ds_name)
-    if not os.path.exists(dataset_path):
-        os.makedirs(dataset_path)
-
-    if ds_options.unzip:
-        print('> Extracting files from zip')
-        tmp_path = os.path.join(dataset_path, 'tmp.zip')
-        with open(tmp_path, "wb") as f:
-            f.write(data)
-
-        with ZipFile(tmp_path, 'r') as tmp_zip:
-            tmp_zip.extractall(dataset_path)
-
-        # if dataset comes in folder, move it to dataset root folder
-        if ds_options.unzip_folder is not None:
-            src = os.path.join(dataset_path, ds_options.unzip_folder)
-            for f in os.listdir(src):
-                _from = os.path.join(src, f)
-                _to = os.path.join(dataset_path, f)
-                os.rename(_from, _to)
-            os.removedirs(src)
-
-        os.remove(tmp_path)
-    else:
-        with open(os.path.join(dataset_path, ds_options.full_file), 'w') as f:
-            f.write(data.decode(ds_options.encoding))
+    response = requests.get(ds_options.url)
+    response.raise_for_status()
+    data = response.content
+
+    # the dataset is only considered as stored once all files are in place
+    tmp_folder = tempfile.mkdtemp(prefix=ds_name + '_', suffix='.tmp', dir=data_path())
+    tmp_dataset_path = os.path.join(tmp_folder, ds_name)
+    try:
+        os.mkdir(tmp_dataset_path)
+
+        if ds_options.unzip:
+            print('> Extracting files from zip')
+            tmp_path = os.path.join(tmp_dataset_path, 'tmp.zip')
+            with open(tmp_path, "wb") as f:
+                f.write(data)
+
+            with ZipFile(tmp_path, 'r') as tmp_zip:
+                tmp_zip.extractall(tmp_dataset_path)
+
+            # if dataset comes in folder, move it to dataset root folder
+            if ds_options.unzip_folder is not None:
+                src = os.path.join(tmp_dataset_path, ds_options.unzip_folder)
+                for f in os.listdir(src):
+                    _from = os.path.join(src, f)
+                    _to = os.path.join(tmp_dataset_path, f)
+                    os.rename(_from, _to)
+                os.rmdir(src)
+
+            os.remove(tmp_path)
+        else:
+            with open(os.path.join(tmp_dataset_path, ds_options.full_file), 'wb') as f:
+                f.write(data)
+
+        try:
+            os.rename(tmp_dataset_path, get_dataset_path(ds_name))
+        except OSError:
+            if not is_stored(ds_name): raise  # otherwise, it has been downloaded by another thread or process meanwhile
+    finally:
+        shutil.rmtree(tmp_folder, ignore_errors=True)
 
 
 def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, verbose=True, **kwds):
@@ -100,7 +114,7 @@ def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, ve
         download_dataset(ds_name)
 
     if is_generated:
-        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding=ds_options.encoding,
+        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding='utf8',
                                   in_memory=not force_out_of_memory, verbose=verbose, **kwds)
     else:
         return InteractionDataset(path, delimiter=ds_options.delimiter, columns=ds_options.columns,
-- 
2.43.0


From 18155bf6ecabd4440347c6624bc2124f359be88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:57 +0000
Subject: [PATCH 18/46] fix: operations that modify a database dataset work
 while it's being read, and never abort its readers when refused

---
 DRecPy/Dataset/db_dataset.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index e382883..8ecfd55 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -458,7 +458,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     def _assign_internal_ids(self):
         # create cursor for reads and updates
         c = self._open_cursor()
-        self._drop_internal_id_indexes(c, table_name=self._active_table)
+        being_read = len(self._open_value_generators) > 0
+        if not being_read:  # indexes can't be dropped while the database is being read
+            self._drop_internal_id_indexes(c, table_name=self._active_table)
         update_c = self._open_cursor()
 
         # assigns internal ids to users (uids)
@@ -485,7 +487,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             update_c.execute(f'UPDATE {self._active_table} SET iid = ? WHERE item = ?', (curr_iid, item))
             curr_iid += 1
 
-        self._create_internal_id_indexes(c, table_name=self._active_table)  # after optimize_states, self._state_query = new table name
+        if not being_read:
+            self._create_internal_id_indexes(c, table_name=self._active_table)  # after optimize_states, self._state_query = new table name
 
     def remove_internal_ids(self):
         self.has_internal_ids = False
@@ -907,7 +910,13 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         """Commits the changes made to the database inside a with block, or undoes all of them if the block fails."""
         c = self._open_cursor()
         self._conn.commit()
-        c.execute('BEGIN')
+        try:
+            c.execute('BEGIN EXCLUSIVE')  # fails before any change if there are other instances reading from the database
+        except sql.OperationalError:
+            # the lock that wasn't obtained is left pending (blocking any new reads) if this instance is also reading
+            c.execute('BEGIN IMMEDIATE')
+            self._conn.rollback()
+            raise
         try:
             yield
             self._conn.commit()
-- 
2.43.0


From 463c7023b0f55e4076d6c6c162d33625f6545d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:10 +0000
Subject: [PATCH 19/46] fix: fitting doesn't fail when there are no correlated
 users or items

---
 DRecPy/Recommender/Baseline/similarity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 159dbce..5eed25c 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -166,6 +166,7 @@ def pearson_corr(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
+    if len(data) == 0: return csr_matrix((n, n))  # there are no correlated rows
     return csr_matrix((data, (rows, cols)))
 
 
-- 
2.43.0


From 34692f34644c7c27f8efe70d5d5db3a5a40e7184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:54 +0000
Subject: [PATCH 20/46] fix: temporary files of failed loads are removed, and a
 damaged list of temporary files doesn't hide others

---
 DRecPy/Dataset/db_dataset.py | 24 ++++++++++++++++--------
 DRecPy/Dataset/file_utils.py | 29 ++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 8ecfd55..9b6f805 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -58,10 +58,15 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._item_vec_cache_limit = kwds.get('item_vec_cache_limit')
 
         path = expanduser(path)
-        if path.endswith('.sqlite'):
-            self._load_from_db(path)
-        else:
-            self._load_from_csv(path, kwds.get('delimiter', ','), kwds.get('has_header', True), kwds.get('encoding', None))
+        try:
+            if path.endswith('.sqlite'):
+                self._load_from_db(path)
+            else:
+                self._load_from_csv(path, kwds.get('delimiter', ','), kwds.get('has_header', True), kwds.get('encoding', None))
+        except BaseException:
+            if self._conn is not None: self._conn.close()
+            if self._db_path not in self._shared_db_instances: self._remove_temp_db()
+            raise
 
         if self._db_path not in self._shared_db_instances:
             self._shared_db_instances[self._db_path] = set()
@@ -610,10 +615,13 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._shared_db_instances[self._db_path].remove(id(self))
             if len(self._shared_db_instances[self._db_path]) == 0:
                 del self._shared_db_instances[self._db_path]
-                if self._db_path in self._temp_db_paths:
-                    self._temp_db_paths.remove(self._db_path)
-                    if isfile(self._db_path): remove(self._db_path)
-                    unregister_temp_file(self._db_path)
+                self._remove_temp_db()
+
+    def _remove_temp_db(self):
+        if self._db_path in self._temp_db_paths:
+            self._temp_db_paths.remove(self._db_path)
+            if isfile(self._db_path): remove(self._db_path)
+            unregister_temp_file(self._db_path)
 
     def __str__(self):
         return f'[DatabaseInteractionDataset with shape ({len(self)}, {len(self.columns)})]'
diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index a5e6359..82ddd52 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -39,7 +39,7 @@ def replace_file(path):
         raise
 
 
-_REGISTRY_PATTERN = r'tmp_files(_(\d+))?\.txt$'
+_REGISTRY_PATTERN = r'tmp_files(_(\d+))?\.txt(\.tmp\.txt)?$'  # might have been left while being replaced
 _registry_lock = threading.Lock()
 
 
@@ -61,24 +61,31 @@ def _owner_is_running(registry):
     return True
 
 
+def _update_registry(update):
+    """Replaces the registered paths of the current process by the ones returned by the given function."""
+    with _registry_lock:
+        paths = []
+        if os.path.isfile(_registry_path()):
+            with open(_registry_path(), 'r') as f:
+                paths = [path.strip('\n') for path in f]
+        paths = update(paths)
+        if len(paths) == 0:
+            os.remove(_registry_path())
+        else:
+            with replace_file(_registry_path()) as tmp_path, open(tmp_path, 'w') as f:
+                f.writelines(path + '\n' for path in paths)
+
+
 def register_temp_file(file_path):
     try:
-        with _registry_lock, open(_registry_path(), 'a') as f:
-            f.write(file_path + '\n')
+        _update_registry(lambda paths: paths + [file_path])
     except NameError: pass  # possible errors with calling 'open' on __del__
     except FileNotFoundError: pass
 
 
 def unregister_temp_file(file_path):
     try:
-        with _registry_lock:
-            with open(_registry_path(), 'r') as f:
-                paths = [path for path in f if path.strip("\n") != file_path]
-            if len(paths) == 0:
-                os.remove(_registry_path())
-            else:
-                with replace_file(_registry_path()) as tmp_path, open(tmp_path, 'w') as f:
-                    f.writelines(paths)
+        _update_registry(lambda paths: [path for path in paths if path != file_path])
     except NameError: pass
     except FileNotFoundError: pass
 
-- 
2.43.0


From f9cc827d027e2ae323d6c8b44bc595ff15c97669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:12 +0000
Subject: [PATCH 21/46] fix: empty files can be loaded into a database dataset

---
 DRecPy/Dataset/db_dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 9b6f805..fde712c 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -655,6 +655,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             projected_cols.remove('rid')
 
             col_types = {'rid': int}
+            if first_line is None:  # no records to infer from
+                col_types.update({col: float if col == 'interaction' else str for col in projected_cols})
+                return col_types
+
             for value, col in zip(first_line, projected_cols):
                 col_types[col] = self._infer_value_type(value)
 
-- 
2.43.0


From 16f069e7cc987f46a38ec84766a93a5a92a393b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:53 +0000
Subject: [PATCH 22/46] fix: database datasets can be used by multiple threads
 at the same time

---
 DRecPy/Dataset/db_dataset.py | 79 +++++++++++++++++++++++++++---------
 DRecPy/Dataset/file_utils.py |  2 +-
 2 files changed, 60 insertions(+), 21 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index fde712c..cad0a1b 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -6,6 +6,8 @@ from .file_utils import replace_file
 import sqlite3 as sql
 from contextlib import contextmanager
 from copy import copy as shallowcopy
+from functools import wraps
+from threading import RLock
 import csv
 import random
 from uuid import uuid4
@@ -18,7 +20,18 @@ from pathlib import Path
 from scipy.sparse import csr_matrix
 
 
+def _synchronized(method):
+    """Instances share their tables (and can be shared themselves) with other threads, so their methods must not be
+    interleaved."""
+    @wraps(method)
+    def wrapper(self, *args, **kwds):
+        with self._lock:
+            return method(self, *args, **kwds)
+    return wrapper
+
+
 class DatabaseInteractionDataset(InteractionDatasetABC):
+    _lock = RLock()  # must be held while using the database or any of the following attributes
     _open_value_generators = set()  # a set containing the still open value generators (not fully read or not GCed)
     _shared_db_instances = dict()  # maps the db file paths to a list of object ids currently using it
     _shared_db_table_instances = dict()  # maps the db file path + table name to a list of object ids currently using it
@@ -30,6 +43,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     _default_user_vec_cache_limit = 1000
     _default_item_vec_cache_limit = 1000
 
+    @_synchronized
     def __init__(self, path='', columns=None, **kwds):
         super().__init__(**kwds)
 
@@ -81,6 +95,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         self._log('Done!')
 
+    @_synchronized
     def __len__(self):
         if self._n_rows is None:
             c = self._open_cursor()
@@ -88,6 +103,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._n_rows = c.fetchone()[0]
         return self._n_rows
 
+    @_synchronized
     def select(self, query, copy=True):
         new_ds = self.copy() if copy else self
         if copy: self._record_interaction()
@@ -98,6 +114,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return new_ds
 
+    @_synchronized
     def select_one(self, query, columns=None, to_list=False):
         self._record_interaction()
         query_conditions = self._parse_query(query)
@@ -112,6 +129,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return self._from_row_to_record(row, columns, to_list)
 
+    @_synchronized
     def select_user_interaction_vec(self, uid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
         assert self.uid_to_user(uid) is not None, f'User internal id {uid} was not found.'
@@ -139,6 +157,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._user_interaction_vec_cache[uid] = vec
         return vec
 
+    @_synchronized
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
         assert self.iid_to_item(iid) is not None, f'Item internal id {iid} was not found.'
@@ -166,6 +185,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._item_interaction_vec_cache[iid] = vec
         return vec
 
+    @_synchronized
     def select_random_generator(self, query=None, seed=None):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -187,23 +207,24 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         max_uid = self.max('uid')
         while True:
             random_uid = rng.randint(0, max_uid)
-            query_conditions = self._parse_query(f'uid == {random_uid}')
-            new_state = self._build_new_state(query_conditions)
-            c = self._open_cursor()
-            count = c.execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
-            if count == 0: continue
-
-            chosen_record = None
-            chosen_idx = rng.randint(0, count - 1)
-
-            c.execute(new_state)
-            curr_idx = 0
-            for row in c:
-                if curr_idx == chosen_idx:
-                    chosen_record = {k: v for k, v in zip(self.columns, row)}
-                    break
-                curr_idx += 1
-            c.close()  # don't keep the records locked until the next one is requested
+            with self._lock:
+                query_conditions = self._parse_query(f'uid == {random_uid}')
+                new_state = self._build_new_state(query_conditions)
+                c = self._open_cursor()
+                count = c.execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
+                if count == 0: continue
+
+                chosen_record = None
+                chosen_idx = rng.randint(0, count - 1)
+
+                c.execute(new_state)
+                curr_idx = 0
+                for row in c:
+                    if curr_idx == chosen_idx:
+                        chosen_record = {k: v for k, v in zip(self.columns, row)}
+                        break
+                    curr_idx += 1
+                c.close()  # don't keep the records locked until the next one is requested
 
             if chosen_record is not None: yield chosen_record
 
@@ -239,11 +260,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             else:
                 random_uid = rng.randint(0, max_uid)
                 random_iid = rng.randint(0, max_iid)
-                query_conditions = self._parse_query(f'uid == {random_uid}, iid == {random_iid}')
-                new_state = self._build_new_state(query_conditions, limit=1)
-                if c.execute(new_state).fetchone() is None:
+                with self._lock:
+                    query_conditions = self._parse_query(f'uid == {random_uid}, iid == {random_iid}')
+                    new_state = self._build_new_state(query_conditions, limit=1)
+                    is_null_pair = c.execute(new_state).fetchone() is None
+                if is_null_pair:
                     yield random_uid, random_iid
 
+    @_synchronized
     def unique(self, columns=None, copy=True):
         columns = self._handle_columns(columns)
         new_ds = self.copy() if copy else self
@@ -270,6 +294,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             raise
         return new_ds
 
+    @_synchronized
     def count_unique(self, columns=None):
         self._record_interaction()
         columns = self._handle_columns(columns)
@@ -278,6 +303,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         c.execute(f'SELECT COUNT(*) FROM (SELECT DISTINCT {",".join(columns)} FROM ({self._curr_state_source()}))')
         return c.fetchone()[0]
 
+    @_synchronized
     def max(self, column=None):
         self._record_interaction()
         self._validate_column(column)
@@ -286,6 +312,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         c.execute(f'SELECT MAX({column}) FROM ({self._curr_state_source()})')
         return c.fetchone()[0]
 
+    @_synchronized
     def min(self, column=None):
         self._record_interaction()
         self._validate_column(column)
@@ -294,6 +321,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         c.execute(f'SELECT MIN({column}) FROM ({self._curr_state_source()})')
         return c.fetchone()[0]
 
+    @_synchronized
     def values(self, columns=None, to_list=False):
         class ValueGenerator:
             def __init__(self, open_value_generators, row_to_record_fn):
@@ -336,6 +364,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return ValueGenerator(self._open_value_generators, self._from_row_to_record)
 
+    @_synchronized
     def drop(self, record_ids, copy=True, keep=False):
         new_ds = self.copy() if copy else self
         if copy: self._record_interaction()
@@ -349,6 +378,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         new_ds._update_state(new_state)
         return new_ds
 
+    @_synchronized
     def user_to_uid(self, user):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -366,6 +396,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return None if ret is None else ret[0]
 
+    @_synchronized
     def uid_to_user(self, uid):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -375,6 +406,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return None if ret is None else ret[0]
 
+    @_synchronized
     def item_to_iid(self, item):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -392,6 +424,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return None if ret is None else ret[0]
 
+    @_synchronized
     def iid_to_item(self, iid):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -401,6 +434,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return None if ret is None else ret[0]
 
+    @_synchronized
     def save(self, path='', columns=None, write_header=False):
         """Persists the current dataset instance in the provided path, as a csv or sqlite file.
         Note that internal identifiers, such as the row id (rid), user internal id (uid) and item internal id (iid)
@@ -448,6 +482,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     for row in self.values(columns=projected_cols, to_list=True):
                         writer.writerow(row if len(projected_cols) > 1 else [row])
 
+    @_synchronized
     def assign_internal_ids(self):
         self._optimize_states(skip_empty_query=False, own_table=True)  # never modify a table used by other instances
 
@@ -495,6 +530,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         if not being_read:
             self._create_internal_id_indexes(c, table_name=self._active_table)  # after optimize_states, self._state_query = new table name
 
+    @_synchronized
     def remove_internal_ids(self):
         self.has_internal_ids = False
         if 'uid' in self.columns:
@@ -502,6 +538,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self.columns.remove('uid')
             self.columns.remove('iid')
 
+    @_synchronized
     def apply(self, column, function):
         self._validate_column(column)
         read_only_columns = ['rid', 'uid', 'iid', 'user', 'item']
@@ -578,6 +615,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
 
+    @_synchronized
     def copy(self):
         new = type(self)(path=self._db_path, active_table=self._active_table, columns=shallowcopy(self.columns),
                          verbose=False)
@@ -595,6 +633,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return new
 
+    @_synchronized
     def close(self):
         """Cleanup method to delete temporary database files when they're not in use anymore."""
 
diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index 82ddd52..ff9aee1 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -40,7 +40,7 @@ def replace_file(path):
 
 
 _REGISTRY_PATTERN = r'tmp_files(_(\d+))?\.txt(\.tmp\.txt)?$'  # might have been left while being replaced
-_registry_lock = threading.Lock()
+_registry_lock = threading.RLock()  # abandoned datasets might be collected at any time
 
 
 def _registry_path():
-- 
2.43.0


From a0eda27dbfae3f6939b41d4577fcfb86d9d001c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:34 +0000
Subject: [PATCH 23/46] fix: HitRatio compares identifiers by value, as the
 other ranking metrics do

---
 DRecPy/Evaluation/Metrics/ranking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Evaluation/Metrics/ranking.py b/DRecPy/Evaluation/Metrics/ranking.py
index b39d12f..1f0b8a2 100644
--- a/DRecPy/Evaluation/Metrics/ranking.py
+++ b/DRecPy/Evaluation/Metrics/ranking.py
@@ -108,8 +108,8 @@ class HitRatio(RankingMetricABC):
         if relevant_recommendations is None: return 0
         if k is not None: recommendations = recommendations[:k]
 
-        recommendations = set([str(item) for item in recommendations])
-        relevant_recommendations = set([str(item) for item in relevant_recommendations])
+        recommendations = set(recommendations)
+        relevant_recommendations = set(relevant_recommendations)
 
         return len(recommendations.intersection(relevant_recommendations)) / len(relevant_recommendations)
 
-- 
2.43.0


From c882cf02b7dcfcf342a0e40571ed9f58c0abdd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:12 +0000
Subject: [PATCH 24/46] fix: list sampler returns the requested number of
 targets, and groups slightly longer than the maximum can be sampled

---
 DRecPy/Sampler/list_sampler.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index ff906e2..ae86796 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -117,11 +117,10 @@ class ListSampler:
                 all_positive_group_records = positive_group_records
 
                 padding = None
-                if self.max_positive_records is not None and len(positive_group_records) > self.max_positive_records:
-                    if self.n_targets is None:
-                        padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records)
-                    else:
-                        padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records - self.n_targets)
+                n_targets = 0 if self.n_targets is None else self.n_targets
+                if self.max_positive_records is not None and \
+                        len(positive_group_records) > self.max_positive_records + n_targets:
+                    padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records - n_targets)
                     positive_group_records = positive_group_records[padding:padding + self.max_positive_records]
 
                 if self.n_targets is None:
@@ -130,8 +129,8 @@ class ListSampler:
 
                 eligible_negative_ids = self.unique_negative_ids.difference(set([rec[self.negative_ids_col] for rec in all_positive_group_records]))
                 if padding is None:
-                    target_group_records = positive_group_records[self.n_targets:]
-                    positive_group_records = positive_group_records[:self.n_targets]
+                    target_group_records = positive_group_records[-self.n_targets:]
+                    positive_group_records = positive_group_records[:-self.n_targets]
                 else:
                     target_group_records = all_positive_group_records[padding + self.max_positive_records:padding + self.max_positive_records + self.n_targets]
 
-- 
2.43.0


From 40c051dc7a07545671519b34a79222266d70274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:12 +0000
Subject: [PATCH 25/46] fix: interaction vectors of in-memory datasets can be
 requested by multiple threads

---
 DRecPy/Dataset/mem_dataset.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index f3a6447..92d9740 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -1,13 +1,26 @@
 from .dataset_abc import InteractionDatasetABC
 from .file_utils import replace_file
 from copy import deepcopy
+from functools import wraps
+from threading import RLock
 import pandas as pd
 from pandas.api.types import is_string_dtype
 import random
 from scipy.sparse import csr_matrix
 
 
+def _synchronized(method):
+    """The cached interaction matrices of an instance might be requested (and built) by multiple threads."""
+    @wraps(method)
+    def wrapper(self, *args, **kwds):
+        with self._interaction_matrix_lock:
+            return method(self, *args, **kwds)
+    return wrapper
+
+
 class MemoryInteractionDataset(InteractionDatasetABC):
+    _interaction_matrix_lock = RLock()  # must be held while using the cached interaction matrices
+
     def __init__(self, path='', columns=None, **kwds):
         super().__init__(**kwds)
 
@@ -163,6 +176,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 if not found:
                     yield random_uid, random_iid
 
+    @_synchronized
     def select_user_interaction_vec(self, uid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
         assert self.uid_to_user(uid) is not None, f'User internal id {uid} was not found.'
@@ -191,6 +205,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
                               shape=(1, int(self.max('iid')) + 1))[0]
 
+    @_synchronized
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
         assert self.iid_to_item(iid) is not None, f'Item internal id {iid} was not found.'
-- 
2.43.0


From 23d3fa2d277fd4365fa87af83da2e9ef1700d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:52 +0000
Subject: [PATCH 26/46] fix: column labels of data frames are compared by value

---
 DRecPy/Dataset/mem_dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 92d9740..a407b07 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -67,15 +67,15 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         if self.columns is None:
             self.columns = list(self._df.columns) + ['rid']
             user_label = kwds.get('user_label', None)
-            if user_label is not None and user_label is not 'user':
+            if user_label is not None and user_label != 'user':
                 self.columns.remove(user_label)
 
             item_label = kwds.get('item_label', None)
-            if item_label is not None and item_label is not 'item':
+            if item_label is not None and item_label != 'item':
                 self.columns.remove(item_label)
 
             interaction_label = kwds.get('interaction_label', None)
-            if interaction_label is not None and interaction_label is not 'interaction':
+            if interaction_label is not None and interaction_label != 'interaction':
                 self.columns.remove(interaction_label)
 
         # remove extra columns
-- 
2.43.0


From 3bbc7ef173705602cd04d397db080fc52e1ff157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:47 +0000
Subject: [PATCH 27/46] fix: data frames with a repeated or custom index get
 unique record ids

---
 DRecPy/Dataset/dataset_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/dataset_factory.py b/DRecPy/Dataset/dataset_factory.py
index 783bcc0..7e504ae 100644
--- a/DRecPy/Dataset/dataset_factory.py
+++ b/DRecPy/Dataset/dataset_factory.py
@@ -50,5 +50,5 @@ class InteractionsDatasetFactory:
         Returns:
             A InteractionDataset instance containing the provided data.
         """
-        return MemoryInteractionDataset(df=df.copy(), user_label=user_label, item_label=item_label,
+        return MemoryInteractionDataset(df=df.reset_index(drop=True), user_label=user_label, item_label=item_label,
                                         interaction_label=interaction_label, **kwds)
-- 
2.43.0


From 9cef3f740fc7afc6f0a7ab7a65343a45ce7faf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:47 +0000
Subject: [PATCH 28/46] fix: files with several skipped columns can be loaded

---
 DRecPy/Dataset/db_dataset.py  | 2 +-
 DRecPy/Dataset/mem_dataset.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index cad0a1b..aa2e0e4 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -1039,7 +1039,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             'iid INTEGER'
 
         for col in columns or self.columns:
-            if col not in ['rid', 'uid', 'iid']:
+            if col not in ['rid', 'uid', 'iid', None]:  # skip cols are never stored
                 create_sql_statement += f',{col} {py_sql_type[self._col_types[col]]}'
 
         create_sql_statement += ')'
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index a407b07..91552d1 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -46,9 +46,10 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             has_header = kwds.get('has_header', True)
 
             use_cols = [i for col, i in zip(projected_cols, range(len(projected_cols))) if col is not None]
+            names = [col for col in projected_cols if col is not None]
             skip_rows = 1 if has_header else 0
 
-            self._df = pd.read_csv(path, delimiter=delimiter, names=projected_cols, encoding=kwds.get('encoding'),
+            self._df = pd.read_csv(path, delimiter=delimiter, names=names, encoding=kwds.get('encoding'),
                                    skiprows=skip_rows, usecols=use_cols)
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
-- 
2.43.0


From d45a77b6d407e50afc646ee0869163374a2f5908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:48 +0000
Subject: [PATCH 29/46] fix: identifiers of type float can be looked up on
 in-memory datasets

---
 DRecPy/Dataset/mem_dataset.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 91552d1..ae08849 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -289,6 +289,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 user = int(user)
             except ValueError:
                 raise Exception(f'The provided user type does not match the inferred type (expected: int, found: {type(user)}')
+        elif 'float' in user_dtype:
+            try:
+                user = float(user)
+            except ValueError:
+                raise Exception(f'The provided user type does not match the inferred type (expected: float, found: {type(user)}')
         else: user = str(user)
         return self._user_mapping[user] if user in self._user_mapping else None
 
@@ -306,6 +311,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 item = int(item)
             except ValueError:
                 raise Exception(f'The provided item type does not match the inferred type (expected: int, found: {type(item)}')
+        elif 'float' in item_dtype:
+            try:
+                item = float(item)
+            except ValueError:
+                raise Exception(f'The provided item type does not match the inferred type (expected: float, found: {type(item)}')
         else: item = str(item)
         return self._item_mapping[item] if item in self._item_mapping else None
 
-- 
2.43.0


From 793c366ffaf514c207dd0907ab92ef278711e312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:45 +0000
Subject: [PATCH 30/46] fix: csv files with quoted line breaks, blank lines or
 long delimiters are loaded by the database backend as by the memory one

---
 DRecPy/Dataset/db_dataset.py | 42 ++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index aa2e0e4..460ad6e 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -703,16 +703,22 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
             return col_types
 
-        def process_segment(chunk, delimiter):
+        def read_rows(f):
+            if len(delimiter) > 1:  # due to csv not accept delimiters with more than 1 char
+                rows = (row.rstrip('\r\n').split(delimiter) for row in f)
+            else:
+                rows = csv.reader(f, delimiter=delimiter)
+            return (row for row in rows if row not in ([], ['']))  # skip blank lines
+
+        def process_segment(chunk):
             c = self._open_cursor()
             projected_cols = shallowcopy(self.columns)
             # rid is never read from file - remove it to not cause issues with zip(row, projected_cols)
             projected_cols.remove('rid')
 
             try:
-                csv_reader = csv.reader(chunk, delimiter=delimiter)
                 records = []
-                for row in csv_reader:
+                for row in chunk:
                     record = []
                     for value, col in zip(row, projected_cols):
                         if col is None:  # accept None cols when reading as skip cols
@@ -738,22 +744,13 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         self._log('Trying to load data from file, using auxiliary database...')
 
-        # select delimiter
-        orig_delimiter = delimiter
-        new_delimiter = orig_delimiter
-        replace_delimiter = False
-        if len(orig_delimiter) > 1:  # due to csv not accept delimiters with more than 1 char
-            replace_delimiter = True
-            new_delimiter = ','
-
         # read num of lines + detect column types
         num_lines = 0
         first_line = None
-        with open(path, 'r', encoding=encoding) as f:
-            for row in f:
-                if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
-                    if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
-                    first_line = next(csv.reader([row], delimiter=new_delimiter))
+        with open(path, 'r', encoding=encoding, newline='') as f:
+            if has_header is not False: f.readline()
+            for row in read_rows(f):
+                if first_line is None: first_line = row
                 num_lines += 1
 
         required_cols = ['rid', 'user', 'item', 'interaction']
@@ -769,20 +766,17 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # import data into db
         chunk = []
-        curr_line = 0
-        with open(path, 'r', encoding=encoding) as f:
+        with open(path, 'r', encoding=encoding, newline='') as f:
             if has_header is not False: f.readline()
-            _iter = f
-            if self.verbose: _iter = tqdm(f, total=num_lines, desc='Importing dataset')
+            _iter = read_rows(f)
+            if self.verbose: _iter = tqdm(_iter, total=num_lines, desc='Importing dataset')
             for row in _iter:
-                curr_line += 1
-                if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
                 chunk.append(row)
                 if len(chunk) == self.chunk_size:
-                    process_segment(chunk, new_delimiter)
+                    process_segment(chunk)
                     chunk = []
             if len(chunk) > 0:
-                process_segment(chunk, new_delimiter)
+                process_segment(chunk)
 
         self._build_indexes(self._open_cursor())
         self._conn.commit()
-- 
2.43.0


From e9132e4221453bb74aba5c17718043328af697a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 31/46] fix: processes creating the data folder at the same
 time don't fail

---
 DRecPy/Dataset/file_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index ff9aee1..98e154a 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -9,7 +9,7 @@ def data_path():
     path = os.environ.get('DATA_FOLDER', os.path.join(os.path.expanduser('~'), '.DRecPy_data'))
     if not os.path.exists(path):
         print('> Creating data path at', path)
-        os.makedirs(path)
+        os.makedirs(path, exist_ok=True)  # might have been created meanwhile
     return path
 
 
-- 
2.43.0


From 4df43e487f1eb3b94c57cf0708c44bdd7a83ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:46 +0000
Subject: [PATCH 32/46] fix: processes saving to the same file at the same time
 don't overwrite each other's temporary file

---
 DRecPy/Dataset/file_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index 98e154a..5ee0d97 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -2,6 +2,7 @@ from contextlib import contextmanager
 import os
 import re
 import threading
+from uuid import uuid4
 
 
 def data_path():
@@ -29,8 +30,8 @@ def replace_file(path):
     """Auxiliary context manager used to write a file: yields the path of a temporary file, that only takes the place of
     the one at the given path once it has been fully written."""
     path = os.path.realpath(path)
-    tmp_path = path + '.tmp' + os.path.splitext(path)[1]  # the extension might define the format of the file
-    if os.path.isfile(tmp_path): os.remove(tmp_path)
+    # unique, since others might be writing the same file; the extension might define the format of the file
+    tmp_path = f'{path}.{uuid4().hex}.tmp{os.path.splitext(path)[1]}'
     try:
         yield tmp_path
         os.replace(tmp_path, path)
@@ -39,7 +40,7 @@ def replace_file(path):
         raise
 
 
-_REGISTRY_PATTERN = r'tmp_files(_(\d+))?\.txt(\.tmp\.txt)?$'  # might have been left while being replaced
+_REGISTRY_PATTERN = r'tmp_files(_(\d+))?\.txt(\.([0-9a-f]+\.)?tmp\.txt)?$'  # might have been left while being replaced
 _registry_lock = threading.RLock()  # abandoned datasets might be collected at any time
 
 
-- 
2.43.0


From 0ea21d7b439d97d7776f818cb2e1b3c3f9fbc5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:45 +0000
Subject: [PATCH 33/46] fix: removing the internal ids of a filtered database
 dataset keeps the remaining columns aligned

---
 DRecPy/Dataset/db_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 460ad6e..379c942 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -537,6 +537,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             # no need to remove from db, since it doesnt slow down - removing projected columns is enough
             self.columns.remove('uid')
             self.columns.remove('iid')
+            if self._state_query != '':  # the columns of the state have to match self.columns
+                self._state_query = f'SELECT {",".join(self.columns)} FROM ({self._state_query}) WHERE 1 = 1'
 
     @_synchronized
     def apply(self, column, function):
-- 
2.43.0


From 278a5821eea970dba52132d8884a0a13f40f3aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:46 +0000
Subject: [PATCH 34/46] fix: a fit that fails doesn't leave a model mixing two
 fits

---
 DRecPy/Recommender/recommender_abc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 3d83546..7c72fd1 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -133,6 +133,7 @@ class RecommenderABC(ABC):
         Returns:
             None.
         """
+        self.fitted = False  # a fit that fails must not leave a model mixing the previous fit with this one
         self.interaction_dataset = interaction_dataset
         if copy_dataset:
             self._info('Cloning new dataset instance...')
-- 
2.43.0


From 2160e3cffa88ea49dbddb2d084e174d97201c792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:51 +0000
Subject: [PATCH 35/46] fix: splits with a given seed don't depend on the order
 in which the database returns records

---
 DRecPy/Evaluation/Splits/leave_k_out.py  |  9 +++++----
 DRecPy/Evaluation/Splits/matrix_split.py |  9 ++++-----
 DRecPy/Evaluation/Splits/random_split.py | 13 +++++++------
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/DRecPy/Evaluation/Splits/leave_k_out.py b/DRecPy/Evaluation/Splits/leave_k_out.py
index 20fab67..3ba90bd 100644
--- a/DRecPy/Evaluation/Splits/leave_k_out.py
+++ b/DRecPy/Evaluation/Splits/leave_k_out.py
@@ -54,11 +54,12 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
         raise Exception('The k parameter should be in the (0, 1) range when it\'s used as the percentage of '
                         'interactions to sample to the test set, per user. Current value: ' + str(k))
 
-    unique_users_ds = interaction_dataset.unique('user')
+    # always follow the record order, so that the split doesn't depend on the order in which the dataset is read
+    users = [user for _, user in sorted(interaction_dataset.unique('user').values_list(['rid', 'user'], to_list=True))]
     if kwds.get('verbose', True):
-        _iter = tqdm(unique_users_ds.values('user', to_list=True), total=len(unique_users_ds), desc='Creating user split tasks')
+        _iter = tqdm(users, total=len(users), desc='Creating user split tasks')
     else:
-        _iter = unique_users_ds.values('user', to_list=True)
+        _iter = users
 
     global n_tasks_done
     n_tasks_done, n_tasks = 0, 0
@@ -131,7 +132,7 @@ def _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_inter
             with test_lock:
                 test_rids.extend([rid for _, rid in sampled_test_rids])
         else:
-            user_rows_rids = user_rows_ds.values_list('rid', to_list=True)
+            user_rows_rids = sorted(user_rows_ds.values_list('rid', to_list=True))
             with test_lock:
                 test_rids.extend(rng.sample(user_rows_rids, k))
 
diff --git a/DRecPy/Evaluation/Splits/matrix_split.py b/DRecPy/Evaluation/Splits/matrix_split.py
index ff24b03..382cc29 100644
--- a/DRecPy/Evaluation/Splits/matrix_split.py
+++ b/DRecPy/Evaluation/Splits/matrix_split.py
@@ -41,13 +41,12 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
     assert max_concurrent_threads > 0, f'The value of max_concurrent_threads ({max_concurrent_threads}) must be > 0.'
 
     rng = random.Random(seed)
-    ds_unique_users = interaction_dataset.unique('user')
-    all_users = ds_unique_users.values_list('user', to_list=True)
+    # always follow the record order, so that the split doesn't depend on the order in which the dataset is read
+    all_users = [user for _, user in sorted(interaction_dataset.unique('user').values_list(['rid', 'user'], to_list=True))]
     test_users_set = set(rng.sample(all_users, math.floor(len(all_users) * user_test_ratio)))
 
-    ds_unique_items = interaction_dataset.unique('item')
-    test_items_set = set(rng.sample(ds_unique_items.values_list('item', to_list=True),
-                                    math.floor(len(ds_unique_items) * item_test_ratio)))
+    all_items = [item for _, item in sorted(interaction_dataset.unique('item').values_list(['rid', 'item'], to_list=True))]
+    test_items_set = set(rng.sample(all_items, math.floor(len(all_items) * item_test_ratio)))
 
     if kwds.get('verbose', True):
         _iter = tqdm(all_users, total=len(all_users), desc='Creating user split tasks')
diff --git a/DRecPy/Evaluation/Splits/random_split.py b/DRecPy/Evaluation/Splits/random_split.py
index c3cedb0..5538746 100644
--- a/DRecPy/Evaluation/Splits/random_split.py
+++ b/DRecPy/Evaluation/Splits/random_split.py
@@ -28,22 +28,23 @@ def random_split(interaction_dataset, test_ratio=0.25, seed=0, **kwds):
 
     test_rids = []
 
-    total_rows = len(interaction_dataset)
+    # always follow the record order, so that the split doesn't depend on the order in which the dataset is read
+    rids = sorted(interaction_dataset.values_list('rid', to_list=True))
+    total_rows = len(rids)
     test_idxs = sorted(rng.sample(range(0, total_rows), math.floor(total_rows * test_ratio)))
 
     assert len(test_idxs) > 0, f'The test_ratio of {test_ratio} is not enough to split any row from the full dataset.'
 
     if kwds.get('verbose', True):
-        _iter = tqdm(zip(range(len(interaction_dataset)), interaction_dataset.values('rid')),
-                     total=len(interaction_dataset), desc='Splitting dataset')
+        _iter = tqdm(enumerate(rids), total=total_rows, desc='Splitting dataset')
     else:
-        _iter = zip(range(len(interaction_dataset)), interaction_dataset.values('rid'))
+        _iter = enumerate(rids)
 
     pointer = 0
-    for idx, record in _iter:
+    for idx, rid in _iter:
         if idx == test_idxs[pointer]:
             pointer += 1
-            test_rids.append(record['rid'])
+            test_rids.append(rid)
             if pointer >= len(test_idxs): break
 
     ds_test = interaction_dataset.drop(test_rids, keep=True)
-- 
2.43.0


From 51284f44cb42a47d58c2d91c9b8941041208b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:31 +0000
Subject: [PATCH 36/46] fix: reciprocal rank is evaluated with the most
 relevant item instead of the least relevant

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 2 +-
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index ae00eb8..a0ac17e 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -177,7 +177,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # get negative interactions
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index 41f334f..48ec956 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -165,7 +165,7 @@ def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # join and shuffle all items
-- 
2.43.0


From f3eed873cf34bc337ed36fd57274c123986f0713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 37/46] fix: release the cursor of an unfinished reader when
 the reader is released

The generator's class kept the cursor alive through a reference cycle, so that
after the dataset was closed the database stayed locked until the next garbage
collection.
---
 DRecPy/Dataset/db_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 379c942..d78a0b8 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -343,6 +343,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 return self.row_to_record_fn(row, columns, to_list, row_columns)
 
             def __del__(self):
+                nonlocal c
                 if not self.removed_gen:
                     self.open_value_generators.remove(c)
                     self.removed_gen = True
@@ -350,6 +351,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                         c.close()
                     except Exception:
                         pass
+                    c = None  # the cursor of a closed instance is only released (unlocking the database) when deleted
 
             def close(self):
                 self.__del__()
-- 
2.43.0


From d0b0f3f9208e94f287d30f7a337a76ecb5d1cb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 38/46] fix: do not reconnect a closed database dataset

Using a closed dataset silently created a new temporary database file, which was
never removed.
---
 DRecPy/Dataset/db_dataset.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index d78a0b8..992f063 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -996,11 +996,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._set_pragmas(self._conn)
 
     def _open_cursor(self):
-        try:
-            return self._conn.cursor()
-        except:
-            self._open_connection(self._db_path)
-            return self._conn.cursor()
+        return self._conn.cursor()  # raises if the instance was closed: its data might have been deleted already
 
     def _copy_to_new_db(self, c, columns, keep_rids=False):
         """Copies the given columns of the records returned from the current state to the interactions table of the
-- 
2.43.0


From 43d9b8aef4e811a769a4646d454818f7567101a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 39/46] fix: update the weights of all trainable variables in
 one optimizer step

Applying the gradients variable by variable counts each variable as a step of
the optimizer, and fails with the default optimizer when more than one variable
was registered, as it only accepts the variables of its first call.
---
 DRecPy/Recommender/recommender_abc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 7c72fd1..ab97923 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -340,12 +340,15 @@ class RecommenderABC(ABC):
                     for trainable in trainable_layers + trainable_models])
 
     def _update_weights(self, gradients, trainable_weights):
+        grads_and_vars = []
         for gradient, trainable_var in zip(gradients, trainable_weights):
             if tf.is_tensor(gradient):
                 gradient = [gradient]
             if tf.is_tensor(trainable_var):
                 trainable_var = [trainable_var]
-            self.optimizer.apply_gradients(zip(gradient, trainable_var))
+            grads_and_vars.extend(zip(gradient, trainable_var))
+        # a single call: each one counts as a step of the optimizer, which might only accept the variables of its first call
+        self.optimizer.apply_gradients(grads_and_vars)
 
     def _get_weights(self):
         return {
-- 
2.43.0


From eae9a9ecf6c291ca73c34fe227e577a505be5812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 40/46] fix: fitting the deep recommenders failed with Keras 3

Only plain variables can be watched explicitly (those of layers and models always
are), and losses expect tensors of one shape: lists of predictions were broadcast
against the values of the other users of the batch.
---
 DRecPy/Recommender/caser.py           | 2 +-
 DRecPy/Recommender/cdae.py            | 2 +-
 DRecPy/Recommender/dmf.py             | 2 +-
 DRecPy/Recommender/recommender_abc.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index b816bb8..36ef481 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -120,7 +120,7 @@ class Caser(RecommenderABC):
         return tf.reduce_sum(tf.multiply(concat_dense_1_input, w_), 2) + tf.squeeze(b_, 2)
 
     def _compute_batch_loss(self, predictions, desired_values, **kwds):
-        return self._loss(desired_values, predictions)
+        return self._loss(tf.stack(desired_values), tf.stack(predictions))
 
     def _predict(self, uid, iid, **kwds):
         raise NotImplementedError('This model does not support point-based predictions.')
diff --git a/DRecPy/Recommender/cdae.py b/DRecPy/Recommender/cdae.py
index a908503..e2499f7 100644
--- a/DRecPy/Recommender/cdae.py
+++ b/DRecPy/Recommender/cdae.py
@@ -54,7 +54,7 @@ class CDAE(RecommenderABC):
             predictions.append(prediction_vector)
             desired_values.append(desired_vector)
 
-        return predictions, desired_values
+        return tf.concat(predictions, axis=0), tf.convert_to_tensor(desired_values, dtype=tf.float32)
 
     def _reconstruct_for_training(self, uid):
         user_embedding = tf.nn.embedding_lookup(self.V, uid)
diff --git a/DRecPy/Recommender/dmf.py b/DRecPy/Recommender/dmf.py
index 33a8b66..7519fd6 100644
--- a/DRecPy/Recommender/dmf.py
+++ b/DRecPy/Recommender/dmf.py
@@ -96,7 +96,7 @@ class DMF(RecommenderABC):
         return predictions, batch_samples['desired_values']
 
     def _compute_batch_loss(self, predictions, desired_values, **kwds):
-        return self._loss(desired_values, predictions)
+        return self._loss(tf.convert_to_tensor(desired_values, dtype=tf.float32), predictions)
 
     def _predict(self, uid, iid, **kwds):
         user_tensors, item_tensors = self._preprocess_input([uid], [iid])
diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index ab97923..164fc0a 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -199,7 +199,7 @@ class RecommenderABC(ABC):
                 trainable_weights = self.trainable_weights + \
                                     [layer.trainable_weights for layer in self.trainable_layers] + \
                                     [model.trainable_weights for model in self.trainable_models]
-                for trainable_weight in trainable_weights:
+                for trainable_weight in self.trainable_weights:  # variables of layers and models are always watched
                     tape.watch(trainable_weight)
 
                 loss = self._compute_batch_loss(predictions, desired_values, **kwds) + \
-- 
2.43.0


From 9f2f62ab9dd9113f0d60466313a4e17177507b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 41/46] fix: the seed of a deep recommender determines its
 initial weights

With Keras 3 they came from the global random generator, and fitting a model
again continued with the random state left by its previous fit.
---
 DRecPy/Recommender/caser.py           | 23 +++++++++++++++--------
 DRecPy/Recommender/cdae.py            | 14 ++++++++------
 DRecPy/Recommender/dmf.py             | 12 ++++++++----
 DRecPy/Recommender/recommender_abc.py |  5 +++++
 4 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index 36ef481..ce843b6 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -44,29 +44,32 @@ class Caser(RecommenderABC):
 
     def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
         l2_reg = tf.keras.regularizers.l2(reg_rate)
-        self.user_embeddings = tf.keras.layers.Embedding(self.n_users, self.d, embeddings_regularizer=l2_reg)
+        self.user_embeddings = self._new_embedding(self.n_users, self.d, embeddings_regularizer=l2_reg)
         self._register_trainable(self.user_embeddings)
 
-        self.item_embeddings = tf.keras.layers.Embedding(self.n_items, self.d, embeddings_regularizer=l2_reg)
+        self.item_embeddings = self._new_embedding(self.n_items, self.d, embeddings_regularizer=l2_reg)
         self._register_trainable(self.item_embeddings)
 
-        self.conv_v = tf.keras.layers.Conv1D(filters=self.n_v, kernel_size=self.L, kernel_regularizer=l2_reg)
+        self.conv_v = tf.keras.layers.Conv1D(filters=self.n_v, kernel_size=self.L, kernel_regularizer=l2_reg,
+                                             kernel_initializer=tf.initializers.GlorotUniform(self._new_seed()))
         self._register_trainable(self.conv_v)
 
         self.convs_h = []
         for i in range(self.L):
-            self.convs_h.append(tf.keras.layers.Conv1D(filters=self.n_h, kernel_size=i+1, kernel_regularizer=l2_reg))
+            self.convs_h.append(tf.keras.layers.Conv1D(filters=self.n_h, kernel_size=i+1, kernel_regularizer=l2_reg,
+                                                       kernel_initializer=tf.initializers.GlorotUniform(self._new_seed())))
         self._register_trainables(self.convs_h)
 
-        self.dropout = tf.keras.layers.Dropout(self.dropout_rate)
+        self.dropout = tf.keras.layers.Dropout(self.dropout_rate, seed=self._new_seed())
 
-        self.dense_0 = tf.keras.layers.Dense(self.d, activation=self.act_mlp, input_shape=(self.d * self.n_v + self.n_h,), kernel_regularizer=l2_reg)
+        self.dense_0 = tf.keras.layers.Dense(self.d, activation=self.act_mlp, input_shape=(self.d * self.n_v + self.n_h,), kernel_regularizer=l2_reg,
+                                             kernel_initializer=tf.initializers.GlorotUniform(self._new_seed()))
         self._register_trainable(self.dense_0)
 
-        self.dense_1_W = tf.keras.layers.Embedding(self.n_items, 2 * self.d, embeddings_regularizer=l2_reg)
+        self.dense_1_W = self._new_embedding(self.n_items, 2 * self.d, embeddings_regularizer=l2_reg)
         self._register_trainable(self.dense_1_W)
 
-        self.dense_1_b = tf.keras.layers.Embedding(self.n_items, 1)
+        self.dense_1_b = self._new_embedding(self.n_items, 1)
         self._register_trainable(self.dense_1_b)
 
         self._sampler = ListSampler(self.interaction_dataset, ['uid'], neg_ratio=neg_ratio, n_targets=self.T,
@@ -74,6 +77,10 @@ class Caser(RecommenderABC):
                                     min_positive_records=self.L, max_positive_records=self.L,
                                     sort_column=self.sort_column, seed=self.seed)
 
+    def _new_embedding(self, *args, **kwds):
+        return tf.keras.layers.Embedding(*args, embeddings_initializer=tf.initializers.RandomUniform(
+            -0.05, 0.05, seed=self._new_seed()), **kwds)
+
     def _sample_batch(self, batch_size, **kwds):
         uids, iids_before, iids_after = [], [], []
         for (pos_user_records, target_user_records, negative_iids) in self._sampler.sample_group_records(batch_size):
diff --git a/DRecPy/Recommender/cdae.py b/DRecPy/Recommender/cdae.py
index e2499f7..932d88e 100644
--- a/DRecPy/Recommender/cdae.py
+++ b/DRecPy/Recommender/cdae.py
@@ -32,13 +32,15 @@ class CDAE(RecommenderABC):
         else: raise Exception(f'Loss function "{loss}" is not supported. Supported losses: "mse", "bce".')
 
     def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
-        weight_initializer = tf.initializers.GlorotUniform()
-        self.W = tf.Variable(weight_initializer(shape=[self.n_items, self.hidden_factors]))
-        self.W_ = tf.Variable(weight_initializer(shape=[self.hidden_factors, self.n_items]))
-        self.V = tf.Variable(weight_initializer(shape=[self.n_users, self.hidden_factors]))
+        def new_variable(shape):
+            return tf.Variable(tf.initializers.GlorotUniform(self._new_seed())(shape=shape))
 
-        self.b = tf.Variable(weight_initializer(shape=[self.hidden_factors]))
-        self.b_ = tf.Variable(weight_initializer(shape=[self.n_items]))
+        self.W = new_variable([self.n_items, self.hidden_factors])
+        self.W_ = new_variable([self.hidden_factors, self.n_items])
+        self.V = new_variable([self.n_users, self.hidden_factors])
+
+        self.b = new_variable([self.hidden_factors])
+        self.b_ = new_variable([self.n_items])
 
         self._register_trainables([self.W, self.W_, self.V, self.b, self.b_])
 
diff --git a/DRecPy/Recommender/dmf.py b/DRecPy/Recommender/dmf.py
index 7519fd6..9c74515 100644
--- a/DRecPy/Recommender/dmf.py
+++ b/DRecPy/Recommender/dmf.py
@@ -47,15 +47,19 @@ class DMF(RecommenderABC):
         l2_reg = tf.keras.regularizers.l2(reg_rate)
         self.user_nn = tf.keras.Sequential()
         self.user_nn.add(tf.keras.layers.Dense(self.user_factors[0], activation=tf.nn.relu,
-                                               input_shape=(self.n_items,), kernel_regularizer=l2_reg, autocast=False))
+                                               input_shape=(self.n_items,), kernel_regularizer=l2_reg,
+                                               kernel_initializer=tf.initializers.GlorotUniform(self._new_seed()), autocast=False))
         for user_factor in self.user_factors[1:]:
-            self.user_nn.add(tf.keras.layers.Dense(user_factor, activation=tf.nn.relu, kernel_regularizer=l2_reg))
+            self.user_nn.add(tf.keras.layers.Dense(user_factor, activation=tf.nn.relu, kernel_regularizer=l2_reg,
+                                                   kernel_initializer=tf.initializers.GlorotUniform(self._new_seed())))
 
         self.item_nn = tf.keras.Sequential()
         self.item_nn.add(tf.keras.layers.Dense(self.item_factors[0], activation=tf.nn.relu,
-                                               input_shape=(self.n_users,), kernel_regularizer=l2_reg, autocast=False))
+                                               input_shape=(self.n_users,), kernel_regularizer=l2_reg,
+                                               kernel_initializer=tf.initializers.GlorotUniform(self._new_seed()), autocast=False))
         for item_factor in self.item_factors[1:]:
-            self.item_nn.add(tf.keras.layers.Dense(item_factor, activation=tf.nn.relu, kernel_regularizer=l2_reg))
+            self.item_nn.add(tf.keras.layers.Dense(item_factor, activation=tf.nn.relu, kernel_regularizer=l2_reg,
+                                                   kernel_initializer=tf.initializers.GlorotUniform(self._new_seed())))
 
         self._register_trainables([self.user_nn, self.item_nn])
 
diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 164fc0a..d1cd791 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -148,6 +148,7 @@ class RecommenderABC(ABC):
         self.n_items = self.interaction_dataset.count_unique('iid')
         self.n_rows = len(self.interaction_dataset)
 
+        self._rng = random.Random(self.seed)
         self._loss_tracker = LossTracker()
         self._reset_trainables()
 
@@ -295,6 +296,10 @@ class RecommenderABC(ABC):
             del variables[n:]
         self.epoch_weights = []
 
+    def _new_seed(self):
+        """Returns a seed for a weight initializer or layer, which would otherwise use the global random generator."""
+        return self._rng.randrange(2 ** 31)
+
     def _register_optimizer(self, optimizer):
         self.optimizer = optimizer
 
-- 
2.43.0


From 5d737bc54647cf239e86557706fe27629a8382b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 42/46] fix: CDAE and DMF models could not be saved

Their samplers hold generators, which cannot be pickled.
---
 DRecPy/Recommender/recommender_abc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index d1cd791..183416f 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -526,6 +526,11 @@ class RecommenderABC(ABC):
         if self._file_logger and log_file:
             self._file_logger.error(msg)
 
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        state.pop('_sampler', None)  # only used while fitting, which creates a new one, and its generators can't be saved
+        return state
+
     def save(self, save_path):  # todo: need interactionsDataset when saving?
         """Save/export the current model.
 
-- 
2.43.0


From 3f1d864d639c45725279285f274899608231c9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 43/46] fix: Caser ranked items that were not given when
 novelty was not requested

---
 DRecPy/Recommender/caser.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index ce843b6..5d30f83 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -142,12 +142,9 @@ class Caser(RecommenderABC):
 
         all_items = list(range(self.n_items))
         predictions = self._predict_batch_aux([uid], [user_iids[-self.L:]], [all_items])[0]
-        item_preds = list(zip(predictions, all_items))
-
+        iids = set(iids)
         if novelty:
-            user_iids_set = set(user_iids)
-            novel_user_iids = list(filter(lambda x: x not in user_iids_set, iids))
-            item_preds = [(pred, item) for pred, item in item_preds if item in novel_user_iids]
-            return nlargest(n, item_preds)
+            iids = iids.difference(user_iids)
+        item_preds = [(pred, item) for pred, item in zip(predictions, all_items) if item in iids]
 
         return nlargest(n, item_preds)
-- 
2.43.0


From ec738c4faabc466a0b4269e550c98965896fd9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:00 +0000
Subject: [PATCH 44/46] fix: early stopping at the initial epoch failed for
 Caser

Its layers had no weights yet when the initial ones were stored.
---
 DRecPy/Recommender/caser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index 5d30f83..a76714e 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -72,6 +72,8 @@ class Caser(RecommenderABC):
         self.dense_1_b = self._new_embedding(self.n_items, 1)
         self._register_trainable(self.dense_1_b)
 
+        self._predict_batch_aux([0], [[0] * self.L], [[0]])  # builds the layers: their initial weights might be restored
+
         self._sampler = ListSampler(self.interaction_dataset, ['uid'], neg_ratio=neg_ratio, n_targets=self.T,
                                     interaction_threshold=self.interaction_threshold, negative_ids_col='iid',
                                     min_positive_records=self.L, max_positive_records=self.L,
-- 
2.43.0


From 5ec90585cab8520448003ddbe9cb8ab1ebaff921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 45/46] fix: rankings of UserKNN left out items without
 neighbours when averages are used

Their predictions are the average interactions of the items, and the ones of
ItemKNN include them.
---
 DRecPy/Recommender/Baseline/user_knn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/Baseline/user_knn.py b/DRecPy/Recommender/Baseline/user_knn.py
index 3ddeba3..5244072 100644
--- a/DRecPy/Recommender/Baseline/user_knn.py
+++ b/DRecPy/Recommender/Baseline/user_knn.py
@@ -72,13 +72,12 @@ class UserKNN(BaseKNN):
             rated_items = self.interaction_dataset.select(f'uid == {uid}').values_list('iid', to_list=True)
             iids = iids.difference(set(rated_items))
 
-        tmp_iid_info = dict()
+        tmp_iid_info = {iid: ([], []) for iid in iids}
 
         for similarity, neighbour in self._neighbours[uid]:
             neighbour_records = self.interaction_dataset.select(f'uid == {neighbour}')
             for iid, interaction in neighbour_records.values(['iid', 'interaction'], to_list=True):
                 if iid not in iids: continue
-                if iid not in tmp_iid_info: tmp_iid_info[iid] = ([], [])
                 tmp_iid_info[iid][0].append(interaction)
                 tmp_iid_info[iid][1].append(similarity)
 
-- 
2.43.0


From aa78a40a26ee3159b6f21e113f9f460225557fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:36 +0000
Subject: [PATCH 46/46] fix: CDAE predicted the scores of all items for an
 unknown one

---
 DRecPy/Recommender/cdae.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Recommender/cdae.py b/DRecPy/Recommender/cdae.py
index 932d88e..6af87dc 100644
--- a/DRecPy/Recommender/cdae.py
+++ b/DRecPy/Recommender/cdae.py
@@ -84,13 +84,13 @@ class CDAE(RecommenderABC):
         return sum([tf.nn.l2_loss(v) for v in [self.W, self.W_, self.V]]) * reg_rate / batch_size
 
     def _predict(self, uid, iid=None, **kwds):
-        if uid is None: return None
+        if uid is None or iid is None: return None
 
         predictions = self._reconstruct_for_predictions(uid)
-        return predictions if iid is None else predictions[iid]
+        return predictions[iid]
 
     def _rank(self, uid, iids, n, novelty):
-        predictions = self._predict(uid)
+        predictions = self._reconstruct_for_predictions(uid)
 
         if novelty:
             user_ds = self.interaction_dataset.select(f'uid == {uid}')
-- 
2.43.0

