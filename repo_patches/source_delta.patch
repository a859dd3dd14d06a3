From b5a10ddb4a845ffe4c4fa7ef386469a9ef7e5b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 01/34] fix: get_set_formats reports binary 58b sets

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 32961f4..4c6bb1b 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -227,7 +227,7 @@ class UFF:
                     try:
                         block_data = data[si:ei + 1].splitlines()
                         self._set_types[ii] = int(block_data[1][0:6])
-                        if block_data[1][6].lower() == 'b':
+                        if block_data[1][6:7].lower() == b'b':
                             self._set_formats[ii] = 1
                     except:
                         # Some non-valid blocks found; ignore the exception
-- 
2.43.0


From 73b9a58b10d76cf57863581139605b9577674f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 02/34] fix: refresh forgets the sets of a file that became
 empty or missing

---
 pyuff/pyuff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 4c6bb1b..d9d9b68 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -169,6 +169,11 @@ class UFF:
         True otherwise.
         """
         self._refreshed = False
+        # Forget what was known about a previous content of the file
+        self._block_ind = []
+        self._n_sets = 0
+        self._set_types = np.array(())
+        self._set_formats = np.array(())
         if not self.file_exists():
             return False  # cannot read the file if it does not exist
         try:
-- 
2.43.0


From d20149a8563fb89415c727d8ae3d4dfea6b2a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 03/34] fix: read_sets without a set number sees the sets of a
 file that has to be refreshed first

---
 pyuff/pyuff.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index d9d9b68..f6f1f7f 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -262,6 +262,11 @@ class UFF:
                      This usefull for large files.         
         """
         dset = []
+        if not self.file_exists():
+            raise Exception('Cannot read from a non-existing file: ' + self._filename)
+        if not self._refreshed:
+            if not self.refresh():
+                raise Exception('Cannot read from the file: ' + self._filename)
         if setn is None:
             read_range = range(0, self._n_sets)
         else:
@@ -269,11 +274,6 @@ class UFF:
                 read_range = [setn]
             else:
                 read_range = setn
-        if not self.file_exists():
-            raise Exception('Cannot read from a non-existing file: ' + self._filename)
-        if not self._refreshed:
-            if not self.refresh():
-                raise Exception('Cannot read from the file: ' + self._filename)
         try:
             for ii in read_range:
                 dset.append(self._read_set(ii, header_only=header_only))
-- 
2.43.0


From ff2b7ba1c26d73ab7d8ddae543406da1f6be8984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 04/34] fix: overwriting a file with a binary 58 set keeps its
 header and data

---
 pyuff/datasets/dataset_58.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 3d48c82..16080bd 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -960,21 +960,14 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[2::3] = dset['data'].imag
         # always write data in double precision
         if dset['binary']:
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wb')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'ab')
-            # write data
+            # write the data bytes right behind the header, to the same open
+            # file (re-opening it in overwrite mode would erase the header)
+            fh.flush()
             if bo == 1:
-                [fh.write(struct.pack('<d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
             else:
-                [fh.write(struct.pack('>d', datai)) for datai in data]
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wt', encoding='utf-8')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'at', encoding='utf-8')
+                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
+            fh.buffer.flush()
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
-- 
2.43.0


From b4a3fe1139822d88783cc465a75c20672fae3d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 05/34] fix: binary 58 sets are written in the precision their
 header declares

---
 pyuff/datasets/dataset_58.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 16080bd..1341c69 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -958,15 +958,16 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[0:-2:3] = dset['x']
                 data[1:-1:3] = dset['data'].real
                 data[2::3] = dset['data'].imag
-        # always write data in double precision
         if dset['binary']:
             # write the data bytes right behind the header, to the same open
             # file (re-opening it in overwrite mode would erase the header)
             fh.flush()
-            if bo == 1:
-                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
-            else:
-                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
+            if not is_double:
+                # values beyond the single precision range are clipped to it
+                with np.errstate(over='ignore'):
+                    data = np.nan_to_num(np.asarray(data, dtype='f4'))
+            fmt = ('<' if bo == 1 else '>') + ('d' if is_double else 'f')
+            [fh.buffer.write(struct.pack(fmt, datai)) for datai in data]
             fh.buffer.flush()
         else:
             if is_double: # write double precision
-- 
2.43.0


From 39c162d14d7e1e63b4f24ec20c724c71cfaf0828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 06/34] fix: binary 58 header gives the number of data bytes
 that follow

---
 pyuff/datasets/dataset_58.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 1341c69..76204ee 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -877,6 +877,9 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         # => ord_data_type = 5 (single) and 6 (double) for complex data
         num_pts = len(dset['data'])
         is_r = not np.iscomplexobj(dset['data'])
+        is_even = bool(dset['abscissa_spacing'])  # handling even/uneven abscissa spacing manually
+        # values per point: one or two for the ordinate, one for an uneven abscissa
+        n_values = num_pts * ((1 if is_r else 2) + (0 if is_even else 1))
         if is_r:
             # real data
             if force_double:
@@ -888,18 +891,16 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
 
         if dset['ord_data_type'] in [4, 6]: # double precision
             is_double = True
-            n_bytes = num_pts * 8
+            n_bytes = n_values * 8
         elif dset['ord_data_type'] in [2, 5]: # sigle precision
             is_double = False
-            n_bytes = num_pts * 4
+            n_bytes = n_values * 4
 
         if 'n_bytes' in dset.keys():
             dset['n_bytes'] = n_bytes
 
         ord_data_type = dset['ord_data_type']
 
-        is_even = bool(dset['abscissa_spacing'])  # handling even/uneven abscissa spacing manually
-
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
-- 
2.43.0


From bb18e46b4ed6ece83a0aa5fba6f7a966220c1b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 07/34] fix: adding to a file without a final line end no
 longer merges two delimiters

---
 pyuff/pyuff.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index f6f1f7f..48a175c 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -405,6 +405,16 @@ class UFF:
             pass
         return dset
 
+    def _ends_within_line(self):
+        """
+        Returns True if the file has some content, but no line end after it.
+        """
+        if not self.file_exists() or os.path.getsize(self._filename) == 0:
+            return False
+        with open(self._filename, 'rb') as fh:
+            fh.seek(-1, os.SEEK_END)
+            return fh.read(1) not in (b'\n', b'\r')
+
     def _write_set(self, dset, mode='add', force_double=True):
         """
         Writes UFF data (UFF data-sets) to the file.  The mode can be
@@ -430,9 +440,13 @@ class UFF:
         elif mode.lower() == 'add':
             # add (append) mode
             try:
+                unfinished_line = self._ends_within_line()
                 fh = open(self._filename, 'at', encoding='utf-8')
             except:
                 raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
+            if unfinished_line:
+                # the delimiter of the new data-set has to start its own line
+                fh.write('\n')
         else:
             raise Exception('Unknown mode: ' + mode)
         try:
-- 
2.43.0


From 24e6532d0e06e0083730a1be9e2be87aeec8f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 08/34] fix: a failed write leaves no incomplete data-set in
 the file

---
 pyuff/pyuff.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 48a175c..198c9f7 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -433,6 +433,7 @@ class UFF:
         """
         if mode.lower() == 'overwrite':
             # overwrite mode
+            size_before = 0
             try:
                 fh = open(self._filename, 'wt', encoding='utf-8')
             except:
@@ -440,6 +441,7 @@ class UFF:
         elif mode.lower() == 'add':
             # add (append) mode
             try:
+                size_before = os.path.getsize(self._filename) if self.file_exists() else 0
                 unfinished_line = self._ends_within_line()
                 fh = open(self._filename, 'at', encoding='utf-8')
             except:
@@ -493,11 +495,16 @@ class UFF:
             else:
                 # Unsupported data-set - do nothing
                 pass
-        except:
             fh.close()
+        except:
+            try:
+                fh.close()
+            except OSError:
+                pass
+            # Do not leave an incomplete data-set in the file
+            os.truncate(self._filename, size_before)
+            self.refresh()
             raise  # re-raise the last exception
-        else:
-            fh.close()
         self.refresh()
 
 
-- 
2.43.0


From 9e0bf6c476f539786b5bd453bda82646a9841d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 09/34] fix: prepare_group keeps the temperature and contact
 set numbers

---
 pyuff/datasets/dataset_2429.py | 4 ++--
 pyuff/datasets/dataset_2467.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 89c9bbb..3436b5f 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -259,8 +259,8 @@ def prepare_group(
         'active_restraint_set_no_for_group':  active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
         }
     
     if return_full_dict is False:
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 324cf46..40f96de 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -240,8 +240,8 @@ def prepare_group(
         'active_restraint_set_no_for_group': active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
     }
 
     if return_full_dict is False:
-- 
2.43.0


From 8700a065e0a90c08322a0a9ef9a3049f47bfa6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 10/34] fix: reading 2429 keeps a last group without entities

---
 pyuff/datasets/dataset_2429.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 3436b5f..b13dce1 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -156,7 +156,7 @@ def _extract2429(block_data):
         
         # there can be multiple groups in the data-set, therefore need to loop.
         lineIndex = 2
-        while lineIndex < len(split_data) - 2:
+        while lineIndex < len(split_data) - 1:
             group = {}
             group.update(_parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                             ['group_number', 'active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
-- 
2.43.0


From f0383af337defd20aeb06a4e6e4f9b0df35c29a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 11/34] fix: writing 2429 writes all groups with all their
 entities

---
 pyuff/datasets/dataset_2429.py | 51 +++++++++++++++-------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index b13dce1..9200988 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -111,36 +111,31 @@ def _write2429(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0 }
 
-        dset = _opt_fields(dset, dict)
+        # a data-set holds a list of groups; a single group can also be given directly
+        groups = dset['groups'] if 'groups' in dset else [dset]
         fh.write('%6i\n%6i\n' % (-1, 2429))
 
-        # Record 1
-        # Field 8 (last field) contains the number or entities in the group
-        fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['group_number'], 
-                                                            dset['active_constraint_set_no_for_group'],
-                                                            dset['active_restraint_set_no_for_group'],
-                                                            dset['active_load_set_no_for_group'],
-                                                            dset['active_dof_set_no_for_group'],
-                                                            dset['active_temperature_set_no_for_group'],
-                                                            dset['active_contact_set_no_for_group'],
-                                                            len(dset['entity_type_code'])))
-        # Record 2
-        fh.write('%-40s\n' % (dset['group_name']))
-
-        # Record 3-N
-        # Write the full lines (which have 4 pairs)
-        for i in range(len(dset['entity_type_code']) // 4):
-            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4],
-                                                                dset['entity_type_code'][i * 4 + 1], dset['entity_tag'][i * 4 + 1],
-                                                                dset['entity_type_code'][i * 4 + 2], dset['entity_tag'][i * 4 + 2],
-                                                                dset['entity_type_code'][i * 4 + 3], dset['entity_tag'][i * 4 + 3]))
-        # Write the last line
-        for i in range(len(dset['entity_type_code']) % 4):
-            # don't write the line break just yet
-            fh.write('%10i%10i' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4]))
-        # Write the missing line break, but only if a non full last line has been written
-        if (len(dset['entity_type_code']) % 4 != 0):
-            fh.write('\n')
+        for group in groups:
+            group = _opt_fields(group, dict)
+            # Record 1
+            # Field 8 (last field) contains the number or entities in the group
+            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'], 
+                                                                group['active_constraint_set_no_for_group'],
+                                                                group['active_restraint_set_no_for_group'],
+                                                                group['active_load_set_no_for_group'],
+                                                                group['active_dof_set_no_for_group'],
+                                                                group['active_temperature_set_no_for_group'],
+                                                                group['active_contact_set_no_for_group'],
+                                                                len(group['entity_type_code'])))
+            # Record 2
+            fh.write('%-40s\n' % (group['group_name']))
+            # Record 3-N
+            # Full lines have 4 pairs, the last line can have less
+            n_entities = len(group['entity_type_code'])
+            for i in range(0, n_entities, 4):
+                for k in range(i, min(i + 4, n_entities)):
+                    fh.write('%10i%10i' % (group['entity_type_code'][k], group['entity_tag'][k]))
+                fh.write('\n')
 
         fh.write('%6i\n' % -1)
 
-- 
2.43.0


From 3af856703f7e7ce76a542cc9e2dff301f8ee7f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 12/34] fix: writing 2467 fills in the active set numbers a
 group leaves out

---
 pyuff/datasets/dataset_2467.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 40f96de..eeceabc 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -61,10 +61,10 @@ def _write2467(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0}
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2467))
 
         for group in dset['groups']:
+            group = _opt_fields(group, dict)
             # Record 1
             # Field 8 (last field) contains the number or entities in the group
             fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'],
-- 
2.43.0


From 033a8a94e9c5022b1f7716b90fb8e8f9510fe51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 13/34] fix: prepare_2467 checks the fields of a group under
 their own names

---
 pyuff/datasets/dataset_2467.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index eeceabc..d4408d3 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -282,6 +282,8 @@ def prepare_2467(
             item['group_name'],
             item['entity_type_code'],
             item['entity_tag'],
+            item['entity_node_leaf_id'],
+            item['entity_component_id'],
             item['active_constraint_set_no_for_group'],
             item['active_restraint_set_no_for_group'],
             item['active_load_set_no_for_group'],
-- 
2.43.0


From 7415db8c5f308a3ced39f5bc33c01da3c87cf11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 14/34] fix: 151 writes the file date and time given to
 prepare_151

---
 pyuff/datasets/dataset_151.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 2cec823..1ae60e9 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -57,8 +57,8 @@ def _write151(fh, dset):
                                         'time_db_created': ts,
                                         'date_db_saved': ds,
                                         'time_db_saved': ts,
-                                        'date_file_written': ds,
-                                        'time_file_written': ts})
+                                        'date_file_written': dset.get('date_db_written', ds),
+                                        'time_file_written': dset.get('time_db_written', ts)})
         # write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 151, ' '))
         fh.write('%-80s\n' % dset['model_name'])
-- 
2.43.0


From 3cbdd9ff67e47d32eea82394f05d0d4adec89a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 15/34] fix: 82 counts and writes all nodes of a trace line

---
 pyuff/datasets/dataset_82.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 4e0459a..32f6662 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -52,9 +52,7 @@ def _write82(fh, dset):
         # write strings to the file
         # removed jul 2017: unique_nodes = set(dset['nodes'])
         # removed jul 2017:if 0 in unique_nodes: unique_nodes.remove(0)
-        # number of changes of node need to
-        # n_nodes = len(dset['nodes'])
-        n_nodes = np.sum((dset['nodes'][1:] - dset['nodes'][:-1]) != 0) + 1
+        n_nodes = len(dset['nodes'])
         fh.write('%6i\n%6i%74s\n' % (-1, 82, ' '))
         fh.write('%10i%10i%10i\n' % (dset['trace_num'], n_nodes, dset['color']))
         fh.write('%-80s\n' % dset['id'])
@@ -87,6 +85,9 @@ def _extract82(block_data):
         split_data = ''.join(split_data[4:])
         split_data = split_data.split()
         dset['nodes'] = np.asarray([float(str) for str in split_data])
+        if not np.any(dset['nodes'][dset['n_nodes']:]):
+            # some programs fill the last line with zeros, they are not counted as nodes
+            dset['nodes'] = dset['nodes'][:dset['n_nodes']].copy()
     except:
         raise Exception('Error reading data-set #82')
     return dset
-- 
2.43.0


From 104d2e8d03a6a541a0853da42c89315755c864c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 16/34] fix: 1858 record 1 is written in the columns it is read
 from (6I12)

---
 pyuff/datasets/dataset_1858.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index ed7a475..1017d81 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -112,7 +112,7 @@ def _write1858(fh, dset):
         dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i%74s\n' % (-1, 1858, ' '))
 
-        fh.write('%10i%10i%10i%10i%10i%10i\n' % (
+        fh.write('%12i%12i%12i%12i%12i%12i\n' % (
             dset['record_num'],
             dset['octave_format'],
             dset['measurement_run'],
-- 
2.43.0


From 5e3e4d03537a15e6b0c69740f628f72695d26a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 17/34] fix: convert_dataset_2412_to_82 converts more than one
 element set

---
 pyuff/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/tools.py b/pyuff/tools.py
index a748cfb..703fd40 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -131,9 +131,9 @@ def convert_dataset_2412_to_82(datasets):
     """Converts the dataset 2412 to dataset 82"""
 
     datasets_82 = []
-    nodes = list()
     for i in range(0, len(datasets)):
         if (datasets[i]["type"] == 2412) and ("quad" in datasets[i].keys()):
+            nodes = list()
             for j in range(len(datasets[i]["quad"]["nodes_nums"])):
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][1])
-- 
2.43.0


From c31888bf4879b4bfdccaf87f5234662d8efbb06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 18/34] fix: 2412 writes the beam record of all elements it
 reads it for

---
 pyuff/datasets/dataset_2412.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 301f169..c8075af 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -44,6 +44,10 @@ Records 1 - 3 are repeated for each beam element in the model.
     else:
         print(out)   
 
+# Elements that are seen as rods and written and read with an additional line
+RODS = {11, 21, 22, 23, 24}
+
+
 def _write2412(fh, dset):
     try:
         fh.write('%6i\n%6i%74s\n' % (-1, 2412, ' '))
@@ -60,7 +64,7 @@ def _write2412(fh, dset):
                     elem['color'],
                     elem['num_nodes'],
                 ))
-                if elem['fe_descriptor'] == 11:
+                if elem['fe_descriptor'] in RODS:
                 # Rods have to be written in 3 lines - ad additional line here
                     fh.write('%10i%10i%10i\n' % (
                         elem['beam_orientation'],
@@ -80,8 +84,6 @@ def _extract2412(block_data):
     dset = {'type': 2412}
     # Define dictionary of possible elements types for legacy interface
     elt_type_dict = {41: 'triangle', 44: 'quad'}
-    # Elements that are seen as rods and read as 3 lines
-    rods_dict = {11, 21, 22, 23, 24}
 
     # Read data
     try:
@@ -99,7 +101,7 @@ def _extract2412(block_data):
             dict_tmp['mat_table'] = int(line[3])
             dict_tmp['color'] = int(line[4])
             dict_tmp['num_nodes'] = int(line[5])
-            if dict_tmp['fe_descriptor'] in rods_dict:
+            if dict_tmp['fe_descriptor'] in RODS:
                 # element is a rod and covers 3 lines
                 dict_tmp['beam_orientation'] = int(split_data[i+1][0])
                 dict_tmp['beam_foreend_cross'] = int(split_data[i + 1][1])
-- 
2.43.0


From be5ed90b3feb3557093a0014e969c4af0e4bb01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 19/34] fix: 2412 elements of more than 8 nodes are written and
 read over several lines

---
 pyuff/datasets/dataset_2412.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index c8075af..31d369e 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -71,9 +71,10 @@ def _write2412(fh, dset):
                         elem['beam_foreend_cross'],
                         elem['beam_aftend_cross']
                     ))
-                for ii in elem['nodes_nums']:
-                    fh.write('%10i' % ii)
-                fh.write('\n')
+                # at most 8 nodes fit on a line
+                nodes = elem['nodes_nums']
+                for ii in range(0, max(len(nodes), 1), 8):
+                    fh.write(''.join(['%10i' % node for node in nodes[ii:ii + 8]]) + '\n')
         fh.write('%6i\n' % -1)
     except:
         raise Exception('Error writing data-set #2412')
@@ -112,6 +113,11 @@ def _extract2412(block_data):
                 # element is no rod and covers 2 lines
                 dict_tmp['nodes_nums'] = [int(e) for e in split_data[i+1]]
                 i += 2
+            # nodes that do not fit on one line continue on the next ones
+            nodes = dict_tmp['nodes_nums']
+            while 0 < len(nodes) < dict_tmp['num_nodes'] and len(nodes) % 8 == 0:
+                nodes.extend([int(e) for e in split_data[i]])
+                i += 1
             desc = dict_tmp['fe_descriptor']
             if not desc in dset:
                 dset[desc] = []
-- 
2.43.0


From 4e453c9c90189641def9415c56b9c2ca4255ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 20/34] fix: 2412 elements prepared with prepare_2412 are
 written instead of silently left out

---
 pyuff/datasets/dataset_2412.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 31d369e..5e8462c 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -48,14 +48,31 @@ Records 1 - 3 are repeated for each beam element in the model.
 RODS = {11, 21, 22, 23, 24}
 
 
+def _elements_from_arrays(arrays):
+    """Returns a list of elements from a dict of arrays, see prepare_2412."""
+    elements = []
+    for i in range(len(arrays['element_nums'])):
+        elem = {'color': 0, 'num_nodes': len(arrays['nodes_nums'][i])}
+        elem.update({key: arrays[key][i] for key in (
+            'element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes', 'nodes_nums',
+            'beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross') if arrays.get(key) is not None})
+        elements.append(elem)
+    return elements
+
+
 def _write2412(fh, dset):
     try:
+        # Elements given as arrays only: in the legacy interface or directly as prepared
+        elements = {el_type: dset[el_type] for el_type in dset if type(el_type) is int}
+        for name, num in (('triangle', 41), ('quad', 44)):
+            if name in dset and num not in dset:
+                elements[name] = _elements_from_arrays(dset[name])
+        if 'element_nums' in dset:
+            elements['prepared'] = _elements_from_arrays(dset)
+
         fh.write('%6i\n%6i%74s\n' % (-1, 2412, ' '))
-        for el_type in dset:
-            if type(el_type) is not int:
-                # Skip 'type', 'triangle' and 'quad' indices
-                continue
-            for elem in dset[el_type]:
+        for el_type in elements:
+            for elem in elements[el_type]:
                 fh.write('%10i%10i%10i%10i%10i%10i\n' % (
                     elem['element_nums'],
                     elem['fe_descriptor'],
-- 
2.43.0


From 1cc8f8c277b023331f89ce785639319ac00b10af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 21/34] fix: 2414 writes negative values of records 12 and 13
 in their columns

---
 pyuff/datasets/dataset_2414.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index ef84fe7..fd57159 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -594,14 +594,14 @@ def _write2414(fh, dset):
             fh.write('%10i%10i\n' % (
                                             dset['creation_option'], 
                                             dset['number_retained']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['time'], 
                                             dset['frequency'], 
                                             dset['eigenvalue'], 
                                             dset['modal_mass'],
                                             dset['viscous_damping'], 
                                             dset['hysteretic_damping']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['real_part_eigenvalue'], 
                                             dset['imaginary_part_eigenvalue'], 
                                             dset['real_part_of_modal_A_or_modal_mass'], 
@@ -651,14 +651,14 @@ def _write2414(fh, dset):
                                             dset['record11_field6'], 
                                             dset['record11_field7'],
                                             dset['record11_field8']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record12_field1'], 
                                             dset['record12_field2'],
                                             dset['record12_field3'],
                                             dset['record12_field4'], 
                                             dset['record12_field5'],
                                             dset['record12_field6']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record13_field1'], 
                                             dset['record13_field2'],
                                             dset['record13_field3'],
-- 
2.43.0


From 9492fd5972056b2f50257cfed2e0592662ef50ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 22/34] fix: 2414 with data at points ends with a delimiter

---
 pyuff/datasets/dataset_2414.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index fd57159..d4b58fe 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -699,6 +699,7 @@ def _write2414(fh, dset):
 
             elif dset['dataset_location'] == 5:
                 print('Dataset location 5 has not been implemented yet for writing dataset 2414.')
+                fh.write('%6i\n' % (-1))
 
             else:
                 print('Unknown dataset location ' + str(dset['dataset_location']) + '.')
-- 
2.43.0


From 12de24df603cdfc3a67808b410ccf052dcaae842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 23/34] fix: fix_58b keeps the last delimiter of a file without
 a final line end

---
 pyuff/datasets/dataset_58.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 76204ee..ad16de6 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1522,7 +1522,7 @@ def fix_58b(filename,fixed_filename=None):
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
                     prev_line = lines[-2].rstrip(b'\r\n')
-                    prev_line += b'    -1' + lines[-1][-1:]  # Keep the newline character
+                    prev_line += b'    -1' + lines[-1][len(lines[-1].rstrip(b'\r\n')):]  # Keep the newline character, if any
                     lines[-2] = prev_line
                     lines.pop()  # Remove the last line
                 else:
-- 
2.43.0


From faafefde8478d052a4e40760922d962b1051874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 24/34] fix: 55 writes and reads complex data with 6 values per
 node

---
 pyuff/datasets/dataset_55.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 1528971..d4966bd 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -440,12 +440,16 @@ def _write55(fh, dset):
                                 (dset['r1'][k], dset['r2'][k], dset['r3'][k], dset['r4'][k], dset['r5'][k],
                                 dset['r6'][k]))
         elif data_type == 5:
-            # Complex data; n_data_per_node is assumed being 3
+            # Complex data; 3 complex values fit on a line
             for k in range(0, n):
                 fh.write('%10i\n' % dset['node_nums'][k])
                 fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' %
                             (dset['r1'][k].real, dset['r1'][k].imag, dset['r2'][k].real, dset['r2'][k].imag,
                             dset['r3'][k].real, dset['r3'][k].imag))
+                if n_data_per_node == 6:
+                    fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' %
+                                (dset['r4'][k].real, dset['r4'][k].imag, dset['r5'][k].real, dset['r5'][k].imag,
+                                dset['r6'][k].real, dset['r6'][k].imag))
         else:
             raise ValueError('Unsupported data type')
         fh.write('%6i\n' % -1)
@@ -503,8 +507,12 @@ def _extract55(block_data):
                                                 ['freq', '', '', '', '', '']))
             # Body
         split_data = ''.join(split_data[10:])
-        node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])
-        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
+        # one line for the node number, one or two lines for its values
+        lines = split_data.splitlines(True)
+        n_lines = 3 if dset['data_type'] == 5 and dset['n_data_per_node'] == 6 else 2
+        node_nums = np.asarray([int(str) for str in lines[::n_lines]])
+        value_lines = [str for i, str in enumerate(lines) if i % n_lines != 0]
+        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) ] for str in value_lines], 'd').flatten()
         if dset['data_type'] == 2:
             # real data
             if dset['n_data_per_node'] == 3:
@@ -528,7 +536,9 @@ def _extract55(block_data):
                 dset['r2'] = node_vals[2::6].copy() + 1.j * node_vals[3::6].copy()
                 dset['r3'] = node_vals[4::6].copy() + 1.j * node_vals[5::6].copy()
             else:
-                raise Exception('Cannot handle 6 points per node and complex data when reading data-set #55')
+                dset['node_nums'] = node_nums.copy()
+                for i in range(6):
+                    dset['r%i' % (i + 1)] = node_vals[2 * i::12] + 1.j * node_vals[2 * i + 1::12]
         else:
             raise Exception('Error reading data-set #55')
     except:
-- 
2.43.0


From c4254890ce1f2052aa93f3b5605984f334c86581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 25/34] fix: reading a damaged 2414, 2429 or 2467 with a
 negative count ends

---
 pyuff/datasets/dataset_2414.py | 3 +++
 pyuff/datasets/dataset_2429.py | 3 +++
 pyuff/datasets/dataset_2467.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index d4b58fe..6a8359d 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -830,6 +830,9 @@ def _extract2414(block_data):
                     else:
                         numberOfLinesInRecord15 = math.ceil(numberOfValuesPerNode / 6)
                     # a list of numpy array, since the number of lines is not fixed.
+                    if numberOfLinesInRecord15 < 0:
+                        # the loop over the lines would not end
+                        raise Exception('Error reading data-set #2414')
                     dset['data_at_nodes_on_element'].append([np.array([float(elem) for elem in item.split()], float) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
 
                     lineIndex = lineIndex + 1 + numberOfLinesInRecord15
diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 9200988..f0561a3 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -159,6 +159,9 @@ def _extract2429(block_data):
             group.update(_parse_header_line(split_data[lineIndex + 1], 1, [40], [1], ['group_name']))
             # Record 1 field 8 (last field) contains the number or entities in the group
             # max 4 items per line, last line in group doesn't necessarily contain 4 elements
+            if group['number_of_entities_in_group'] < 0:
+                # the loop over the lines would not end
+                raise Exception('Error reading data-set #2429')
             indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 4) + lineIndex + 2
             # split all lines and then each line in separate integers. Put this in a ndarray
             values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index d4408d3..3af7db8 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -132,6 +132,9 @@ def _extract2467(block_data):
                                 'active_dof_set_no_for_group', 'active_temperature_set_no_for_group',
                                 'active_contact_set_no_for_group', 'number_of_entities_in_group']))
         group.update(_parse_header_line(split_data[lineIndex + 1], 1, [40], [1], ['group_name']))
+        if group['number_of_entities_in_group'] < 0:
+            # the loop over the lines would not end
+            raise Exception('Error reading data-set #2467')
         indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 2) + lineIndex + 2
         # split all lines and then each line in separate integers. Put this in a ndarray
         values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
-- 
2.43.0


From 3627da607b07c7f53874dc191a6dd2dccf0068a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 26/34] fix: a padded last delimiter without a line end is
 recognised

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 198c9f7..1f89b48 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -199,7 +199,7 @@ class UFF:
                     elif ind+6 < data_len and data[ind+6] in [10, 13]:
                         block_ind.append(ind)
                     # Check the line continues with blanks up to character 80
-                    elif ind+80 < data_len and data[ind+6:ind+80] == \
+                    elif ind+80 <= data_len and data[ind+6:ind+80] == \
                         b'                                                                          ':
                         block_ind.append(ind)
                     
-- 
2.43.0


From a70dde2463c3dfc0e2dffa4608996cbe4b713c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 27/34] fix: fix_58b does not take a record that reads -1 for a
 delimiter

---
 pyuff/datasets/dataset_58.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index ad16de6..70bbf27 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1518,7 +1518,7 @@ def fix_58b(filename,fixed_filename=None):
             lines = data.splitlines(keepends=True)
 
             # Fix 1: Adjust ending '    -1' line
-            if len(lines) >= 1 and lines[-1].strip() == b'-1':
+            if len(lines) >= 1 and lines[-1].rstrip() == b'    -1':
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
                     prev_line = lines[-2].rstrip(b'\r\n')
@@ -1531,7 +1531,7 @@ def fix_58b(filename,fixed_filename=None):
             # Fix 2: Adjust 'data\n    -1\n    -1\n data' patterns
             i = 0
             while i < len(lines) - 3:
-                if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
+                if (lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1'):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
                     data_line = lines[i].rstrip(b'\r\n')  # Remove newline characters
                     data_line += b'    -1' + lines[i+1][-1:]  # Add '    -1' and newline
-- 
2.43.0


From 94c13cb07252a4a5b2d04b51dc2461ed7391cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 28/34] fix: convert_dataset_2412_to_82 skips element sets
 without quads

---
 pyuff/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/tools.py b/pyuff/tools.py
index 703fd40..59fb5cd 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -147,6 +147,8 @@ def convert_dataset_2412_to_82(datasets):
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][3])
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                 nodes.append(0)
+            if len(nodes) == 0:
+                continue
             nodes = np.array(nodes)
             dataset_82 = pyuff.prepare_82(
                 trace_num=i,
-- 
2.43.0


From 56c0055d22b2c21d1dbcca4d9c88817289725a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 29/34] fix: dataset 18 - read records padded with blanks to 80
 columns

---
 pyuff/datasets/dataset_18.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index f394faf..6a260cd 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -93,7 +93,7 @@ def _extract18(block_data):
 
         # -- Get Record 31 and 32
         # ... these are the origins of cs defined in ref
-        line_data = ''.join(split_data[4::4])
+        line_data = ''.join([s[:78] for s in split_data[4::4]])
         rec_31 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
         dset['ref_o'] = np.vstack((np.array(rec_31[::6]),
                                     np.array(rec_31[1::6]),
@@ -105,7 +105,7 @@ def _extract18(block_data):
                                         np.array(rec_31[5::6]))).transpose()
 
         # ... these are the points on the xz plane
-        line_data = ''.join(split_data[5::4])
+        line_data = ''.join([s[:39] for s in split_data[5::4]])
         rec_32 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
         dset['xz_point'] = np.vstack((np.array(rec_32[::3]),
                                         np.array(rec_32[1::3]),
-- 
2.43.0


From 7bf093e31805e29fb1d8c385782c8d837e5f35ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 30/34] fix: dataset 55 - read value records padded with blanks
 to 80 columns

---
 pyuff/datasets/dataset_55.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index d4966bd..0f421ac 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -512,7 +512,7 @@ def _extract55(block_data):
         n_lines = 3 if dset['data_type'] == 5 and dset['n_data_per_node'] == 6 else 2
         node_nums = np.asarray([int(str) for str in lines[::n_lines]])
         value_lines = [str for i, str in enumerate(lines) if i % n_lines != 0]
-        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) ] for str in value_lines], 'd').flatten()
+        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) if str[i*13:(i+1)*13].strip()] for str in value_lines], 'd').flatten()
         if dset['data_type'] == 2:
             # real data
             if dset['n_data_per_node'] == 3:
-- 
2.43.0


From 3232143c8baa1d631493ae7cf3d6a5321fd7a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 31/34] fix: dataset 58 - read a last double precision record
 padded with blanks to 80 columns

---
 pyuff/datasets/dataset_58.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 70bbf27..a9e8054 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1100,12 +1100,12 @@ def _extract58(block_data, header_only=False):
                         values.extend([float(line[13 * i:13 * (i + 1)]) for i in range(len(line) // 13) if line[13 * i:13 * (i + 1)]!='             '])
                 elif ((dset['ord_data_type'] == 4) or (dset['ord_data_type'] == 6)) and (dset['abscissa_spacing'] == 1):
                     for line in split_data:  # '4E20.12'
-                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line) // 20)])
+                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line) // 20) if line[20 * i:20 * (i + 1)].strip()])
                 elif (dset['ord_data_type'] == 4) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 2(E13.5,E20.12)
                         values.extend(
                             [float(line[13 * (i + j) + 20 * (i):13 * (i + 1) + 20 * (i + j)]) \
-                                for i in range(len(line) // 33) for j in [0, 1]])
+                                for i in range(len(line) // 33) if line[33 * i:33 * (i + 1)].strip() for j in [0, 1]])
                 elif (dset['ord_data_type'] == 6) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 1E13.5,2E20.12
                         values.extend([float(line[0:13]), float(line[13:33]), float(line[33:53])])
-- 
2.43.0


From 990eb9a41a3863f42a9f867576b96c5a5d7e3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 32/34] fix: reading 2467 does not print its groups, which
 fails where the output cannot encode their names

---
 pyuff/datasets/dataset_2467.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 3af7db8..fbc6abf 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -124,7 +124,6 @@ def _extract2467(block_data):
     lineIndex = 0
     while lineIndex < len(split_data):
         group = {}
-        print(f"<{split_data[lineIndex]}>")
         group.update(
             _parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                ['group_number', 'active_constraint_set_no_for_group',
@@ -144,8 +143,6 @@ def _extract2467(block_data):
         group['entity_tag'] = np.array(values[1::4].copy(), dtype=int)
         group['entity_node_leaf_id'] = np.array(values[2::4].copy(), dtype=int)
         group['entity_component_id'] = np.array(values[3::4].copy(), dtype=int)
-        print(group)
-        print("\n\n")
         dset['groups'].append(group)  # dset is a dictionary, but 'groups' is a list
 
         lineIndex = indexLastLineForGroup
-- 
2.43.0


From 9c028d2159f2d554fc660ccefca5d896d7e30e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:16 +0000
Subject: [PATCH 33/34] fix: increment of an abscissa given as unsigned or
 short integers

---
 pyuff/datasets/dataset_58.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index a9e8054..b18ec34 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -904,7 +904,8 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
-        dx = dset['x'][1] - dset['x'][0]
+        # as floats, differences of short or unsigned integers would wrap around
+        dx = float(dset['x'][1]) - float(dset['x'][0])
         fh.write('%6i\n%6i' % (-1, 58))
         if dset['binary']:
             if sys.byteorder == 'little':
-- 
2.43.0


From ec7604aa78ccb7fb7f3cae6a4a0b87bcfcfec89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:20 +0000
Subject: [PATCH 34/34] fix: write data-set 55 as complex data if any of its
 components is complex

---
 pyuff/datasets/dataset_55.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 0f421ac..81fd5b8 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -395,7 +395,8 @@ def _write55(fh, dset):
             n_data_per_node = 6
         else:
             n_data_per_node = 3
-        if np.iscomplexobj(dset['r1']):
+        # the data are complex if any of the components is
+        if any(np.iscomplexobj(dset['r%i' % (k + 1)]) for k in range(n_data_per_node)):
             data_type = 5
         else:
             data_type = 2
-- 
2.43.0

