From 2c6c660596fd66426bc7bfc9e0d7d18b08f4ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 01/46] fix: undocumented instructions need -i on every CPU

slo, rla, ... were assembled without -i in 65C02 mode, where their
opcodes belong to other instructions.
---
 CMakePasm/source/opcodes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/opcodes.cc b/CMakePasm/source/opcodes.cc
index 690bdcb..24792e0 100644
--- a/CMakePasm/source/opcodes.cc
+++ b/CMakePasm/source/opcodes.cc
@@ -450,7 +450,7 @@ int get_op_code(const int instruction, const int addressing_mode)
     if ((instruction >= 0 && instruction < _maxOpcode) &&
         (addressing_mode >= 0 && addressing_mode < max_addressing_mode))
     {
-        if (!allow_illegal_op_codes && instruction >= _illegalStart && cpu_mode == cpu_6502)
+        if (!allow_illegal_op_codes && instruction >= _illegalStart)
             return -1;
 
         switch (cpu_mode)  // NOLINT(hicpp-multiway-paths-covered)
-- 
2.43.0


From 8090e44b0a4b894e6990f053b10de3e8c96f3893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 02/46] fix: relative branch range is -128..127

---
 CMakePasm/source/expand.cc    | 2 +-
 CMakePasm/source/genoutput.cc | 2 +-
 CMakePasm/source/node.cc      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7e8b5f0..b99691a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -919,7 +919,7 @@ int expand_op_code_node(const parse_node_ptr p)
                 // make sure a branch is in range
                 const int op = op_value - (p->opcode.program_counter + 2);
 
-                if (op > 128 || op < -127)
+                if (op > 127 || op < -128)
                 {
                     // reverse the logic and insert a jmp
                     switch (p->opcode.instruction)
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 2fabd7d..b921c1f 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -224,7 +224,7 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
             // make sure a branch is in range
             op -= (p->opcode.program_counter + 2);
 
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 error(error_value_out_of_range);
                 return 0;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 64ed315..8e68a3a 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1751,7 +1751,7 @@ int generate_list_node(const parse_node_ptr p)
         if (p->opcode.mode == r)
         {
             op -= (p->opcode.program_counter + 2);
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 // This error is reported in generate_output
                 fprintf(console, "%s\n", current_buffer);
-- 
2.43.0


From d79de6bdf9ceb7a691cad3db68115bfc0be7e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 03/46] fix: a branch takes a plain operand only

---
 CMakePasm/source/node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 8e68a3a..05d1669 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -335,7 +335,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
 
     // a branch will look like absolute addressing so we check to
     // see if it really relative
-    if (get_op_code(op, r) != -1)
+    if (mode == a && get_op_code(op, r) != -1)
     {
         mode = r;
     }
-- 
2.43.0


From eb00f2a9b59bb337eed91926762e6f906476f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:17 +0000
Subject: [PATCH 04/46] fix: invert bvc and bvs when a branch is out of range,
 reject others without opposite

---
 CMakePasm/source/expand.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index b99691a..37078e2 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -925,6 +925,16 @@ int expand_op_code_node(const parse_node_ptr p)
                     switch (p->opcode.instruction)
                     {
                     default:
+                        // there is no opposite condition
+                        error(error_value_out_of_range);
+                        break;
+
+                    case _bvs:
+                        p->opcode.instruction = _bvc;
+                        break;
+
+                    case _bvc:
+                        p->opcode.instruction = _bvs;
                         break;
 
                     case _bcs:
-- 
2.43.0


From aab9ec481ec3d04bed93923ca1fde1e9207d4b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 05/46] fix: a branch replaced by a jump leaves its statement
 unchanged and keeps its target

---
 CMakePasm/source/expand.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 37078e2..8b5428d 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -802,6 +802,7 @@ int expand_op_code_node(const parse_node_ptr p)
     int mode_check = p->opcode.mode;
     const int save_mode = p->opcode.mode;
     const int save_op_code = p->opcode.opcode;
+    const int save_instruction = p->opcode.instruction;
     int op_bytes;
 
     if (program_counter_assigned > 0)
@@ -965,7 +966,7 @@ int expand_op_code_node(const parse_node_ptr p)
                     if (code2 != -1)
                     {
                         const parse_node_ptr target = p->op[index];
-                        const parse_node_ptr jmp = opcode_node(_jmp, a, 1, target);
+                        const parse_node_ptr jmp = opcode_node(_jmp, a, 1, constant_node(op_value, 0));
 
                         if (target == nullptr || jmp == nullptr)
                         {
@@ -979,6 +980,7 @@ int expand_op_code_node(const parse_node_ptr p)
                             p->op[index] = constant_node(program_counter + 5, 0);
                             generate_list_node(p);
                             generate_output(output_file, p);
+                            p->op[index] = target;
                         }
                         program_counter += get_op_code_byte_count(p) + 1;
                         if (final_pass)
@@ -990,6 +992,7 @@ int expand_op_code_node(const parse_node_ptr p)
                             warn(error_branch_out_of_range);
                         }
                         program_counter += get_op_code_byte_count(jmp) + 1;
+                        p->opcode.instruction = save_instruction;
                         p->opcode.opcode = save_op_code;
                         p->opcode.mode = save_mode;
 
-- 
2.43.0


From 18f8e65e1c467bea094331fff5d85d07eb4affbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:28 +0000
Subject: [PATCH 06/46] fix: an instruction operand that does not fit is an
 error

---
 CMakePasm/source/expand.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 8b5428d..04660bd 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -878,7 +878,13 @@ int expand_op_code_node(const parse_node_ptr p)
             large_op = large_op | ((op_value & ~0xFF) != 0);
 
             out_of_range = out_of_range | ((op_value & ~0xFFFF) != 0 || (op_bytes < 2 && large_op));
-            if (out_of_range && op_bytes < 2 && (op_value & ~0xFFFF) == 0)
+
+            // no part of a value may be lost
+            if (op_value > 0xFFFF || op_value < -0xFFFE)
+                error(error_value_out_of_range);
+
+            // a negative value is allowed for immediate mode
+            if (out_of_range && op_bytes < 2 && (p->opcode.mode != I || op_value > 0 || op_value < -0xFE))
             {
                 switch (p->opcode.mode)
                 {
-- 
2.43.0


From d7b4b5116de82dfdd9f5c683b5226332b833b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 07/46] fix: a gap between image and location counter is found
 with a C64 header and after relocation

---
 CMakePasm/source/expand.cc    | 2 ++
 CMakePasm/source/genoutput.cc | 7 ++++---
 CMakePasm/source/genoutput.h  | 1 +
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 04660bd..afa4c18 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1104,6 +1104,7 @@ int expand_operator_program_counter_assign_node(const parse_node_ptr p)
 
     program_counter = op;
     origin = op;
+    byte_delta = total_bytes_written;
     return 0;
 }
 
@@ -1124,6 +1125,7 @@ int expand_operator_org_node(const parse_node_ptr p)
     const int op = expand_node(p->op[0]);
     program_counter = op;
     origin = op;
+    byte_delta = total_bytes_written;
     origin_specified = true;
     org_origin_specified = true;
     return 0;
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index b921c1f..9e95f2f 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -17,7 +17,7 @@
 
 // number of byte written to output file
 int total_bytes_written = 0;
-static int byte_delta = 0;
+int byte_delta = 0;
 int origin = 0;
 
 int write_byte(FILE* file, unsigned char ch);
@@ -274,8 +274,9 @@ int generate_output(FILE* file, const parse_node_ptr p)
         }
     }
 
-    const int delta = program_counter - (origin + total_bytes_written);
-    if (delta > 0)
+    // the header is not part of the program
+    const int delta = program_counter - (origin + total_bytes_written - byte_delta);
+    if (delta != 0)
     {
         error(error_value_out_of_range);
         exit(-1);        
diff --git a/CMakePasm/source/genoutput.h b/CMakePasm/source/genoutput.h
index d03c6ef..a742352 100644
--- a/CMakePasm/source/genoutput.h
+++ b/CMakePasm/source/genoutput.h
@@ -7,4 +7,5 @@ extern int get_op_code_byte_count(parse_node_ptr p);
 extern void generate_output_reset(void);
 
 extern int total_bytes_written;
+extern int byte_delta;
 
-- 
2.43.0


From a7d47455f6f3bd639d3921c2f56793b630dceaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 08/46] fix: a program without origin is written from the
 default location

---
 CMakePasm/source/expand.cc    | 2 --
 CMakePasm/source/genoutput.cc | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index afa4c18..4fb4d8f 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -682,8 +682,6 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
 //
 int expand_data_node(const parse_node_ptr p)
 {
-    origin_specified = true;
-
     expansion_type = data_bytes;
     data_size = p->data.size;
     if (p->data.size == data_string)
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 9e95f2f..4b9888a 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -261,7 +261,7 @@ int generate_output(FILE* file, const parse_node_ptr p)
     const int start_bytes = total_bytes_written;
 
     // if there is no output file exit
-    if (file == NULL || !origin_specified)
+    if (file == NULL)
         return 0;
 
     // header
-- 
2.43.0


From b5aadb0f3b135d074b7f1cbeb8f8019c49bab336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:50 +0000
Subject: [PATCH 09/46] fix: an error of the final pass ends assembly with a
 failure

---
 CMakePasm/source/pass.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 4dbbc92..4702317 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -299,6 +299,13 @@ int assemble(void)
 
     delete_list_table();
 
+    // errors of the final pass
+    if (error_count > 0)
+    {
+        fprintf(console_error, "%d error(s)\n", error_count);
+        return -1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From f45fbf5bc831df84fd27da63570023ea68d0cd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:50 +0000
Subject: [PATCH 10/46] fix: image data that cannot be delivered on close is an
 error

---
 CMakePasm/source/pass.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 4702317..3c26501 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -253,7 +253,11 @@ int assemble(void)
     // close output line_content
     if (output_file != nullptr)
     {
-        fclose(output_file);
+        if (fclose(output_file) != 0)
+        {
+            error(error_writing_output_file);
+        }
+        output_file = nullptr;
         fprintf(console, "\n%d bytes written to %s\n\n", total_bytes_written, output_file_name);
     }
 
-- 
2.43.0


From 10ab7a31b0b00234940a23a5a7a79e13c47ee0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 11/46] fix: the listing of strings and numbers uses released
 and foreign memory no more

---
 CMakePasm/source/node.cc | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 05d1669..ab80b60 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1612,6 +1612,7 @@ int generate_list_node(const parse_node_ptr p)
 
                 if (add_list(current_file_name, yylineno, current_buffer) == nullptr)
                 {
+                    FREE(current_buffer);
                     error(error_creating_list_node);
                     return 0;
                 }
@@ -1622,8 +1623,17 @@ int generate_list_node(const parse_node_ptr p)
         // if using a string with WORD then pad to a word boundary
         if (data_size == 2 && p->str.len % 2)
         {
+            // the last row is full, start a new one
+            if (col == 0)
+            {
+                string_start = str;
+                current_ptr = current_buffer;
+                op = (program_counter + bytes) & 0xFFFF;
+                sprintf(current_ptr, "$%02X%02X:", ((op) >> 8), op & 0xFF);
+                current_ptr += strlen(current_ptr);
+            }
             col++;
-            sprintf(current_ptr, " $%02X", *str & 0xFF);
+            sprintf(current_ptr, " $%02X", 0);
             current_ptr += strlen(current_ptr);
             pad = 1;
         }
@@ -1647,12 +1657,16 @@ int generate_list_node(const parse_node_ptr p)
                 }
                 if (len == col - 1 && pad)
                 {
-                    sprintf(current_ptr, "$%02X", string_start[len]);
+                    sprintf(current_ptr, "$%02X", 0);
                 }
-                else
+                else if (isprint(string_start[len]))
                 {
                     sprintf(current_ptr, "'%c'", string_start[len]);
                 }
+                else
+                {
+                    sprintf(current_ptr, "$%02X", string_start[len] & 0xFF);
+                }
                 current_ptr += strlen(current_ptr);
             }
 
@@ -1675,17 +1689,18 @@ int generate_list_node(const parse_node_ptr p)
 
         unsigned char hi = static_cast<unsigned char>((op & 0xFF00) >> 8);
         const unsigned char lo = static_cast<unsigned char>(op & 0xFF);
+        const bool two_bytes = data_size > 1 || (data_size == 0 && (op & ~0xFF) != 0);
 
         if (op < 0 && data_size == 1)
         {
             hi = 0;
         }
         // check for overflow
-        if (hi != 0 && data_size < 2)
+        if (hi != 0 && data_size == 1)
         {
-            FREE(current_buffer);
             // This error is reported in generate_output
             fprintf(console, "%s\n", current_buffer);
+            FREE(current_buffer);
             return 0;
         }
 
@@ -1704,7 +1719,7 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
 
         // output hi byte
-        if (data_size > 1)
+        if (two_bytes)
         {
             sprintf(current_ptr, " $%02X", hi);
             current_ptr += strlen(current_ptr);
@@ -1718,7 +1733,7 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
         sprintf(current_ptr, "$%02X", lo);
         current_ptr += strlen(current_ptr);
-        if (data_size > 1 || (data_size == 0 && hi != 0))
+        if (two_bytes)
         {
             sprintf(current_ptr, ", $%02X", hi);
             // ReSharper disable once CppAssignedValueIsNeverUsed
@@ -1755,6 +1770,7 @@ int generate_list_node(const parse_node_ptr p)
             {
                 // This error is reported in generate_output
                 fprintf(console, "%s\n", current_buffer);
+                FREE(current_buffer);
                 return 0;
             }
             op &= 0xFF;
-- 
2.43.0


From 21248ec815c94e6bdcd609b531c06173ac4dabc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 12/46] fix: a file that cannot be opened is not read by .load
 or the listing

---
 CMakePasm/source/expand.cc  | 1 +
 CMakePasm/source/genlist.cc | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4fb4d8f..fca6461 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -420,6 +420,7 @@ int expand_operator_load_node(const parse_node_ptr p)
     if (fd == nullptr)
     {
         error(error_cant_open_include_file);
+        return 0;
     }
 
     fseek(fd, 0, SEEK_END);
diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 0e7f002..c30be52 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -91,7 +91,7 @@ void generate_list_file(FILE* list_file)
         internal_buffer[0] = 0;
         file_line_node* source_list = get_file_line(list_node->filename, line);
 
-        if (list_node->list_directive)
+        if (list_node->list_directive || source_list == nullptr)
             continue;
 
         if (source_list->displayed == 0)
-- 
2.43.0


From a7e760812229f8b2a2158826691552aa8ed5e08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 13/46] fix: .fill advances by its count, also for count 0 and
 behind the C64 header

---
 CMakePasm/source/expand.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index fca6461..f148834 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -378,9 +378,8 @@ int expand_operator_fill_node(const parse_node_ptr p)
                 {
                     generate_fill_node2 = data_node(data_word, constant_node(byt << 8 | byt, false));
                 }
-                int bytes = generate_output(output_file, generate_fill_node2);
-                if (bytes == 0)
-                    bytes = 2;
+                const int bytes = 2;
+                generate_output(output_file, generate_fill_node2);
                 generate_list_node(generate_fill_node2);
                 program_counter += bytes;
                 count -= bytes;
@@ -393,9 +392,8 @@ int expand_operator_fill_node(const parse_node_ptr p)
                 {
                     generate_fill_node1 = data_node(data_byte, constant_node(byt, false));
                 }
-                int bytes = generate_output(output_file, generate_fill_node1);
-                if (bytes == 0)
-                    bytes = 1;
+                const int bytes = 1;
+                generate_output(output_file, generate_fill_node1);
                 generate_list_node(generate_fill_node1);
                 program_counter += bytes;
                 count -= bytes;
@@ -405,7 +403,7 @@ int expand_operator_fill_node(const parse_node_ptr p)
     }
     else
     {
-        program_counter += count > 0 ? count : 1;
+        program_counter += count;
     }
     return byt;
 }
-- 
2.43.0


From 5a5ea6486fb7deedf04e327ca8f503b53d4cd679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 14/46] fix: a number in .str advances by the bytes written for
 it

---
 CMakePasm/source/expand.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index f148834..561a8f1 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1278,8 +1278,7 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             else
             {
                 const int op = expand_node(pp);
-                const int hi = (op & 0xFF00) >> 8;
-                if (hi != 0)
+                if ((op & ~0xFF) != 0)
                     program_counter++;
                 program_counter++;
             }
-- 
2.43.0


From 7d291114986c93bcd8abdc17425f86f618b344bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 15/46] fix: an unfinished escape sequence is reported and not
 read past its end

---
 CMakePasm/source/str.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/str.cc b/CMakePasm/source/str.cc
index 5688386..32e6fb3 100644
--- a/CMakePasm/source/str.cc
+++ b/CMakePasm/source/str.cc
@@ -42,6 +42,10 @@ char* sanitize_string(char* str)
         {
             switch (tolower(*(++str)))
             {
+            case 0:
+                error(error_unrecognized_escape_sequence);
+                continue;
+
             case 'a':
                 esc_char = '\a';
                 break;
@@ -72,10 +76,10 @@ char* sanitize_string(char* str)
 
             case 'x':
                 str++;
-                if (*str == 0)
+                if (!isxdigit(*str) || !isxdigit(*(str + 1)))
                 {
                     error(error_unrecognized_escape_sequence);
-                    break;
+                    continue;
                 }
                 while (isxdigit(*str) && isxdigit(*(str + 1)))
                 {
-- 
2.43.0


From 7ba7fc7d00f485219a07980aa38e0851ae43b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 16/46] fix: an anonymous label that does not exist is not
 looked up outside its file's labels

---
 CMakePasm/source/sym.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 2e16c48..f8923e8 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -345,7 +345,8 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 || found_index < minus_symbol_table_index)
+        if (found_index >= 0 && found_index < minus_symbol_table_index &&
+            stricmp(file, minus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
@@ -369,7 +370,8 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index -1 + depth;
-        if (found_index >= 0 || found_index < plus_symbol_table_index)
+        if (found_index >= 0 && found_index < plus_symbol_table_index &&
+            stricmp(file, plus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
-- 
2.43.0


From 2b4e20e6156296ccedf9ae9778d9fd35426a5393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 17/46] fix: the first value of a label is a change, also 0 and
 for anonymous labels

---
 CMakePasm/source/expand.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 561a8f1..45cf169 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1699,7 +1699,11 @@ int expand_operator_equ_node(const parse_node_ptr p)
     if (stricmp(p->op[0]->id.name, "-") == 0)
     {
         int index = find_minus_symbol_definition(current_file_name, yylineno);
-        if (index < 0) add_minus_symbol(current_file_name, yylineno, op);
+        if (index < 0)
+        {
+            add_minus_symbol(current_file_name, yylineno, op);
+            sym_value_changed++;
+        }
 
         index = find_minus_symbol(strlen(p->op[0]->id.name), current_file_name, yylineno);
 
@@ -1717,7 +1721,11 @@ int expand_operator_equ_node(const parse_node_ptr p)
     if (stricmp(p->op[0]->id.name, "+") == 0)
     {
         int index = find_plus_symbol_definition(current_file_name, yylineno);
-        if (index < 0) add_plus_symbol(current_file_name, yylineno, op);
+        if (index < 0)
+        {
+            add_plus_symbol(current_file_name, yylineno, op);
+            sym_value_changed++;
+        }
 
         index = find_plus_symbol(strlen(p->op[0]->id.name), current_file_name, yylineno - 1);
 
@@ -1757,6 +1765,9 @@ int expand_operator_equ_node(const parse_node_ptr p)
             sym = add_symbol(temp);
             FREE(temp);
         }
+        // a first value of 0 is a change as well
+        if (!sym->is_initialized && sym->value == op && !sym->is_macro_param && !sym->is_var)
+            sym_value_changed++;
         set_symbol_value(sym, op);
         sym->is_initialized = true;
         if (p->op[0]->type == type_label)
-- 
2.43.0


From aa9655bcdfad58baaba5174a598cab780e6c1586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 18/46] fix: a number too large for a value is an error

---
 CMakePasm/source/pasm.l | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 2791320..057fc5d 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -6,6 +6,7 @@
 
 #include <stdbool.h>
 
+#include "error.h"
 #include "flex.h"
 #include "pasm.h"
 #include "str.h"
@@ -36,7 +37,9 @@ extern bool Debug_AddList;
 #define OP_65C02_REL(op)    { OP_REL(op); }
 #define INT(off, base)      { \
                                 P_TOK("INTEGER") \
-                                yylval.iValue = (int) strtol (yytext + off, NULL, base);\
+                                const unsigned long long int_value = strtoull(yytext + off, NULL, base);\
+                                if (int_value > 0x7FFFFFFF) error(error_value_out_of_range);\
+                                yylval.iValue = (int) int_value;\
                                 return INTEGER;\
                             }
 #define INT_1BYTE           {\
-- 
2.43.0


From 984905687680dd503e983170c9780bd3dae74071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 19/46] fix: a shift by a negative count or more than the word
 is defined

---
 CMakePasm/source/expand.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 45cf169..9c1707b 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1057,7 +1057,14 @@ int expand_operator_not_node(const parse_node_ptr p)
 //
 int expand_operator_shift_left_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) << expand_node(p->op[1]);
+    const unsigned int value = expand_node(p->op[0]);
+    const int count = expand_node(p->op[1]);
+    if (count < 0)
+    {
+        error(error_value_out_of_range);
+        return 0;
+    }
+    return count > 31 ? 0 : static_cast<int>(value << count);
 }
 
 //
@@ -1065,7 +1072,14 @@ int expand_operator_shift_left_node(const parse_node_ptr p)
 //
 int expand_operator_shift_right_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) >> expand_node(p->op[1]);
+    const int value = expand_node(p->op[0]);
+    const int count = expand_node(p->op[1]);
+    if (count < 0)
+    {
+        error(error_value_out_of_range);
+        return 0;
+    }
+    return value >> (count > 31 ? 31 : count);
 }
 
 //
-- 
2.43.0


From e161d224f0a6d7f7f459c48b8a343087fc008df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 20/46] fix: dividing the smallest number by -1 does not trap

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 9c1707b..4b33158 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1856,7 +1856,7 @@ int expand_operator_divide_node(const parse_node_ptr p)
         error(error_divide_by_zero);
         return 0;
     }
-    return expand_node(p->op[0]) / expand_node(p->op[1]);
+    return static_cast<int>(static_cast<long long>(expand_node(p->op[0])) / expand_node(p->op[1]));
 }
 
 /// <summary>
-- 
2.43.0


From 662bcff1a6caf112df2237e2e953d98522220b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 21/46] fix: hashing a pointer shifts within the word

---
 CMakePasm/source/hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/hash.cc b/CMakePasm/source/hash.cc
index 12efd51..7ba5aeb 100644
--- a/CMakePasm/source/hash.cc
+++ b/CMakePasm/source/hash.cc
@@ -30,7 +30,7 @@ unsigned int hash_pointer_function(const void* key)
 
     for (size_t index = 0; index < sizeof(void*); ++index)
     {
-        const unsigned char b = (((unsigned long long)key) & (0xFF << (8 * index))) >> (8 * index);  // NOLINT(clang-diagnostic-implicit-int-conversion)
+        const unsigned char b = (((unsigned long long)key) >> (8 * index)) & 0xFF;  // NOLINT(clang-diagnostic-implicit-int-conversion)
 
         hash += b;
         hash += hash << 10;
-- 
2.43.0


From 6076e25b5362470c55ee8755c8bdd061c3279a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 22/46] fix: a skipped .ifdef inside another conditional ends
 at its own .endif

---
 CMakePasm/source/pasm.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 057fc5d..afdb972 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -210,8 +210,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 <IF_DEF>".ENDIF"            {
                                 P_TOK("ENDIF")
                                 SV_TOK
-                                ifdef_stack->pop(ifdef_stack->instance); 
-                                if (ifdef_stack->instance->index < 0)
+                                int last_if = * (int*) ifdef_stack->pop(ifdef_stack->instance);
+                                if (last_if == 0)
                                 {
                                     if (final_pass)
                                     {
-- 
2.43.0


From 10565aa1e7e4482b66da49193532902b652a3e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 23/46] fix: .else without .if is a syntax error

---
 CMakePasm/source/pasm.l | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index afdb972..5af52dc 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -240,6 +240,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".ELSE"                     {
                                 P_TOK("ELSE")
                                 SV_TOK
+                                if (ifdef_stack->instance->index < 0) return ELSE;
+
                                 int last_if = * (int*) ifdef_stack->top(ifdef_stack->instance);
                                 if (last_if != 0)
                                 {
-- 
2.43.0


From 21731de60bfdc0d6e861fbbc648450098a85013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 24/46] fix: comments, names and strings in skipped text hold
 no conditionals

---
 CMakePasm/source/pasm.l | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 5af52dc..863d0a6 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -220,6 +220,11 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                     BEGIN(INITIAL); 
                                 }
                             }
+<IF_DEF>;[^\n]*             { /* comments, names and strings hold no directives */ }
+<IF_DEF>[/][/][^\n]*        { /* ignore ifdef false */ }
+<IF_DEF>[\'].[\']           { /* ignore ifdef false */ }
+<IF_DEF>{STRVALUE}          { /* ignore ifdef false */ }
+<IF_DEF>{SYMB}              { /* ignore ifdef false */ }
 <IF_DEF>.|[\n]              { /* ignore ifdef false */ }
 ".ENDIF"                    {  
                                 P_TOK("ENDIF")
-- 
2.43.0


From 4952a61435ebe631272533cf63476cb9cbc90b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 25/46] fix: -d takes decimal values of any length

---
 CMakePasm/source/parseargs.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index f18b837..61389e5 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -311,16 +311,13 @@ int parse_arguments(const int argc, char* argv[])
             {
                 sym_val = (int)strtol(val + 1, NULL, 2);
             }
-            else if (strlen(val) > 2)
+            else if (val[0] == '0' && val[1] == 'x')
             {
-                if (val[0] == '0' && val[1] == 'x')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 16);
-                }
-                else if (val[0] == '0' && val[1] == 'b')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 2);
-                }
+                sym_val = (int)strtol(val + 2, NULL, 16);
+            }
+            else if (val[0] == '0' && val[1] == 'b')
+            {
+                sym_val = (int)strtol(val + 2, NULL, 2);
             }
             else
             {
-- 
2.43.0


From b21f137b7909407950299b0ed96fa6a0154be89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 26/46] fix: an error with a long parameter is reported once

---
 CMakePasm/source/error.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 86806d9..fdbbed0 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -102,12 +102,12 @@ void error2(const int err_num, const char* parameter)
     if (strlen(errors[err_num]) + strlen(parameter) + 2 < max_line_len)
     {
         sprintf(internal_buffer, "%s %s", errors[err_num], parameter);  // NOLINT(cert-err33-c)
+        yyerror(internal_buffer);
     }
     else
     {
         error(err_num);
     }
-    yyerror(internal_buffer);
 }
 
 /// <summary>
-- 
2.43.0


From 17a9440829590cb0e6a6b11ae29f96541f821f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 27/46] fix: formatted names and listing lines fit their
 buffers

---
 CMakePasm/source/expand.cc  | 4 ++--
 CMakePasm/source/genlist.cc | 8 +++-----
 CMakePasm/source/sym.cc     | 6 +++---
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4b33158..ebce364 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1395,7 +1395,7 @@ int expand_macro_id_node(const parse_node_ptr p)
     const macro_dict_entry* macro_dict_entry = create_macro_entry(p->id.name);
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
+    snprintf(internal_buffer, max_line_len, "%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
     last_label = const_cast<char*>(STRDUP(internal_buffer));
 
     expand_id_node(p);
@@ -1430,7 +1430,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
+    snprintf(internal_buffer, max_line_len, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
     last_label = (char*) STRDUP(internal_buffer);
 
     if (p->macro.macro != nullptr)
diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index c30be52..483fdd1 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -98,8 +98,7 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, "", source_list->line_content);
-                fputs(internal_buffer, list_file);
+                fprintf(list_file, source_indent_format, "", source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -147,7 +146,7 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, source_list->line_content);
+                fprintf(list_file, source_indent_format, list_node->output, source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -155,10 +154,9 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, "\n");
+                fprintf(list_file, source_indent_format, list_node->output, "\n");
             }
         }
-        fputs(internal_buffer, list_file);
 
         for (source_list = source_list->next; source_list && source_list->line_number <= end_line; source_list = source_list->next)
         {
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index f8923e8..ea38d83 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -223,7 +223,7 @@ symbol_table_ptr add_symbol(char* name)
 
 symbol_table_ptr look_up_macro_param(const int param_number)
 {
-    char macro_param_name[sizeof(int) + 5] = {0};
+    char macro_param_name[16] = {0};
 
     sprintf(macro_param_name, "\\%d", param_number);
     return static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, macro_param_name));
@@ -588,7 +588,7 @@ char* format_local_plus_minus_sym(char* name, char* label)
 
     sprintf(number_buffer, "%d", yylineno);
 
-    const int new_len = strlen(last_label) + 1 + strlen(name) + 1 + strlen(number_buffer) + 1 + 2 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
+    const int new_len = strlen(label) + 1 + strlen(name) + 1 + strlen(number_buffer) + 1 + 2 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
 
     char* new_name = static_cast<char*>(MALLOC(new_len));
     if (new_name)
@@ -602,7 +602,7 @@ char* format_local_plus_minus_sym(char* name, char* label)
 
 char* format_local_sym(char* name, const char* label)
 {
-    const int new_len = strlen(last_label) + 1 + strlen(name) + 1 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
+    const int new_len = strlen(label) + 1 + strlen(name) + 1 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
     char* new_name = static_cast<char*>(MALLOC(new_len));
     if (new_name)
     {
-- 
2.43.0


From f3600abcc01c40e60f7a5d0008fd0cb4c4bf98cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 28/46] fix: a growing dictionary keeps its values in place and
 their order

---
 CMakePasm/source/dictionary.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/source/dictionary.cc b/CMakePasm/source/dictionary.cc
index a49689e..16e4e43 100644
--- a/CMakePasm/source/dictionary.cc
+++ b/CMakePasm/source/dictionary.cc
@@ -122,17 +122,28 @@ static dictionary_ptr grow(const dictionary_ptr d)
     d2->collisions = 0;
     for (int index = 0; index < d->size; index++)
     {
-        for (element_ptr element = d->table[index]; element != 0; element = element->next)
+        element_ptr next;
+        for (element_ptr element = d->table[index]; element != 0; element = next)
         {
-            /* note: this recopies everything */
-            /* a more efficient implementation would
-             * to avoid this problem */
-            dict_insert(&d2, element->key, element->value);
+            // values stay where they are, and the latest of equal keys stays first
+            next = element->next;
+            element->next = 0;
+
+            const unsigned long h = (d2->key_type == 0
+                ? hash_function(static_cast<const char*>(element->key))
+                : hash_pointer_function(element->key)) % d2->size;
+            element_ptr* link = &d2->table[h];
+            if (*link)
+                d2->collisions++;
+            while (*link)
+                link = &(*link)->next;
+            *link = element;
+            d2->number_elements++;
         }
     }
 
-    free(d->table);
-    free(d);
+    FREE(d->table);
+    FREE(d);
 
     return d2;
 }
@@ -204,7 +215,6 @@ void* dict_insert(dictionary_ptr* dd, void* key, void* value)
     if (d->number_elements >= static_cast<long>((double)d->size * MAX_LOAD_FACTOR))
     {
         *dd = grow(d);
-        return dict_search(*dd, key);
     }
 
     return e->value;
@@ -270,6 +280,7 @@ void dict_delete(const dictionary_ptr d, const void* key)
                 // ReSharper disable once CppPointerConversionDropsQualifiers
                 FREE(p);  // NOLINT(clang-diagnostic-incompatible-pointer-types-discards-qualifiers)
                 FREE(e->value);
+                FREE(e);
                 (d->number_elements)--;
                 return;
             }
@@ -285,6 +296,7 @@ void dict_delete(const dictionary_ptr d, const void* key)
             {
                 const element_ptr e = *prev;
                 *prev = e->next;
+                FREE(e->value);
                 FREE(e);
                 d->number_elements--;
                 return;
-- 
2.43.0


From 386ddde24562c7140171f53c63f2c09591c5e28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 29/46] fix: dictionary values are copied with their own size

---
 CMakePasm/source/expand.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index ebce364..61a8f44 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1347,7 +1347,7 @@ macro_dict_entry* create_macro_entry(const char* name)
 {
     // ReSharper disable once CppTooWideScope
     if (macro_dict == nullptr)
-        macro_dict = dict_create(sizeof(macro_dict_entry*), 0);
+        macro_dict = dict_create(sizeof(struct macro_dict_entry), 0);
 
     auto* macro_dict_entry = static_cast<struct macro_dict_entry*>(dict_search(macro_dict, name));
     if (macro_dict_entry == nullptr)
@@ -1373,7 +1373,7 @@ void reset_macro_dict(void)
 
     if (macro_dict == nullptr)
     {
-        macro_dict = dict_create(sizeof(macro_dict_entry*), 0);
+        macro_dict = dict_create(sizeof(struct macro_dict_entry), 0);
     }
     for (int index = 0; index < macro_dict->size; index++)
     {
@@ -2059,7 +2059,7 @@ bool has_uninitialized_symbol(const parse_node_ptr p)
 
 static dictionary_ptr create_op_table_dictionary(op_table table[], const size_t size)
 {
-    dictionary_ptr dictionary = dict_create(sizeof(op_table), -1);
+    dictionary_ptr dictionary = dict_create(sizeof(expr), -1);
     for (size_t i = 0; i < size; ++i)
     {
         dict_insert(&dictionary, (void*)static_cast<size_t>(table[i].tag), &table[i].function);
-- 
2.43.0


From cb27ddd486b35764144aea84c50bedab8449679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 30/46] fix: saving macro arguments is balanced when one is
 missing

---
 CMakePasm/source/sym.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index ea38d83..fee25e7 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -477,8 +477,8 @@ void push_macro_params(void)
             }
             else
             {
+                macro_stack_param_entry.values[index] = 0;
                 error(error_macro_parameter_not_found);
-                return;
             }
         }
     }
@@ -506,7 +506,6 @@ void pop_macro_params(void)
         else
         {
             error(error_macro_parameter_not_found);
-            return;
         }
     }
     if (macro_stack_param_entry_ptr->num_nodes > 0)
-- 
2.43.0


From 2be4399dd4f1722379f6f813f4d0ab7cb9ffd472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:09 +0000
Subject: [PATCH 31/46] fix: the source root of eolconvert is not taken from
 released memory

---
 CMakePasm/eolconvert/eolconvert.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index 39b7408..704c0c5 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -23,7 +23,7 @@ int process_directories(const set<fs::path>& directories, const fs::path& source
 int process_directory(const fs::path& directory, const fs::path& source_root, const fs::path& install_path);
 int process_files(const set<fs::path>& files, const fs::path& source_root, const fs::path& install_path);
 int process_file(const fs::path& path, const fs::path& source_root, const fs::path& install_path);
-char* extract_directory(int n, string path);
+string extract_directory(int n, string path);
 
 bool is_eol(uint8_t ch);
 int replace_eol(const fs::path& path, const fs::path& out_path);
@@ -84,7 +84,7 @@ int main(const int argc, char** argv)
     return 0;
 }
 
-char* extract_directory(int n, string path)
+string extract_directory(int n, string path)
 {
     char buffer[1024] = { 0 };
     int count = 0;
@@ -106,12 +106,12 @@ char* extract_directory(int n, string path)
                     index++;
                 }
                 buffer[i] = ch;
-                return (char*)string(buffer).c_str();
+                return buffer;
             }
         }
         index--;
     }
-    return NULL;
+    return string();
 } 
 
 //--------------------------------------------------------------------------//
-- 
2.43.0


From a6bc4e8de341a43d1c3f2fa9143a94dd64731530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:33 +0000
Subject: [PATCH 32/46] fix: each pass starts with the scanner, settings,
 counters and macros of the first one

---
 CMakePasm/source/expand.cc |  9 +++++++++
 CMakePasm/source/flex.h    |  2 ++
 CMakePasm/source/pasm.l    | 11 +++++++++++
 CMakePasm/source/pass.cc   | 19 +++++++++++++++++++
 CMakePasm/source/sym.cc    | 22 ++++++++++++++++++++++
 CMakePasm/source/sym.h     |  1 +
 6 files changed, 64 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 61a8f44..23b47e9 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1370,6 +1370,15 @@ macro_dict_entry* create_macro_entry(const char* name)
 void reset_macro_dict(void)
 {
     code_generated = 0;
+    program_counter_assigned = 0;
+    expand_level = 0;
+    macro_parameter_index = 0;
+    max_macro_param = 0;
+    for_x_count = 0;
+    for_y_count = 0;
+    data_size = 0;
+    expansion_type = macro_parameter;
+    print_list_state = 1;
 
     if (macro_dict == nullptr)
     {
diff --git a/CMakePasm/source/flex.h b/CMakePasm/source/flex.h
index f5dbe26..14e04b3 100644
--- a/CMakePasm/source/flex.h
+++ b/CMakePasm/source/flex.h
@@ -1,4 +1,6 @@
 #pragma once
+
+extern void reset_scanner(void);
 #include <stdio.h>
 
 // flex bison functions and variables
diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 863d0a6..16d01f7 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -460,3 +460,14 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
 .                           { yyerror("Parse: syntax error"); }
 
 %%
+
+/*
+ * start each pass like the first one
+ */
+void reset_scanner(void)
+{
+    BEGIN(INITIAL);
+    do_count = 0;
+    if (last_token != nullptr) FREE(last_token);
+    last_token = nullptr;
+}
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 3c26501..b1ddb48 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -14,9 +14,11 @@
 #include "genlist.h"
 #include "genoutput.h"
 #include "memory.h"
+#include "opcodes.h"
 #include "pasm.h"
 #include "pasm.tab.h"
 #include "stacks.h"
+#include "sym.h"
 
 const int max_passes = 20;
 
@@ -92,6 +94,10 @@ void reset_lex(void)
         ifdef_stack->clear(ifdef_stack->instance);
     }
     in_macro_definition = 0;
+
+    reset_scanner();
+    reset_macros();
+    generate_output_reset();
 }
 
 
@@ -187,9 +193,18 @@ int assemble(void)
         }
     }
 
+    // directives change these, each pass starts with the command line settings
+    const auto start_cpu_mode = cpu_mode;
+    const auto start_illegal = allow_illegal_op_codes;
+    const bool start_ignore_warnings = ignore_warnings;
+
     int clean_pass_count = 0;
     do
     {
+        cpu_mode = start_cpu_mode;
+        allow_illegal_op_codes = start_illegal;
+        ignore_warnings = start_ignore_warnings;
+
         if (verbose)
         {
             fprintf(console, "Pass %d\n", pass);
@@ -238,6 +253,10 @@ int assemble(void)
     // set final pass flag
     final_pass = true;
 
+    cpu_mode = start_cpu_mode;
+    allow_illegal_op_codes = start_illegal;
+    ignore_warnings = start_ignore_warnings;
+
     if (output_file_name != nullptr)
     {
         output_file = fopen(output_file_name, "wb");
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index fee25e7..126468f 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -447,6 +447,28 @@ int get_max_macro_parameter(void)
     return max_macro_param;
 }
 
+/// <summary>
+/// Forget the macros of the last pass, their nodes are released
+/// </summary>
+void reset_macros(void)
+{
+    if (macro_params_stack != NULL)
+        macro_params_stack->clear(macro_params_stack->instance);
+
+    if (symbol_dictionary == NULL)
+        return;
+
+    for (int index = 0; index < symbol_dictionary->size; index++)
+    {
+        for (element_ptr elem = symbol_dictionary->table[index]; elem; elem = elem->next)
+        {
+            const auto sym = static_cast<symbol_table_ptr>(elem->value);
+            sym->is_macro_name = false;
+            sym->macro_node = NULL;
+        }
+    }
+}
+
 void push_macro_params(void)
 {
     if (macro_params_stack == NULL)
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 8636fb8..34edf4f 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -43,6 +43,7 @@ extern void add_minus_symbol(const char* file, int line, int value);
 extern void add_plus_symbol(const char* file, int line, int value);
 extern int find_minus_symbol_definition(const char* file, int line);
 extern int find_plus_symbol_definition(const char* file, int line);
+extern void reset_macros(void);
 extern void push_macro_params(void);
 extern void pop_macro_params(void);
 extern int unresolved_symbol_count(void);
-- 
2.43.0


From 79000e25445ff2e87b89779348953972e15b8604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:47 +0000
Subject: [PATCH 33/46] fix: an origin outside the address space is reported

---
 CMakePasm/source/expand.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 23b47e9..e079510 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1111,6 +1111,11 @@ int expand_operator_program_counter_assign_node(const parse_node_ptr p)
 {
     program_counter_assigned++;
     const int op = expand_node(p->op[0]);
+    if (op < 0 || op > max_address)
+    {
+        error(error_value_out_of_range);
+        return 0;
+    }
     origin_specified = true;
 
     program_counter = op;
@@ -1134,6 +1139,11 @@ int expand_operator_org_node(const parse_node_ptr p)
         return 0;
     }
     const int op = expand_node(p->op[0]);
+    if (op < 0 || op > max_address)
+    {
+        error(error_value_out_of_range);
+        return 0;
+    }
     program_counter = op;
     origin = op;
     byte_delta = total_bytes_written;
-- 
2.43.0


From b0a1163b6840c93b76d40b7f567bc53e0a0b7b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:48 +0000
Subject: [PATCH 34/46] fix: a symbol value on the command line is taken
 completely or rejected

---
 CMakePasm/source/parseargs.cc | 42 ++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index 61389e5..9b0eead 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -301,37 +301,59 @@ int parse_arguments(const int argc, char* argv[])
             }
             const char* val = argv[arg_index];
 
-            int sym_val = 0;
+            long sym_val = 0;
+            char* val_end = NULL;
 
             if (val[0] == '$')
             {
-                sym_val = (int)strtol(val + 1, NULL, 16);
+                val += 1;
+                sym_val = strtol(val, &val_end, 16);
             }
             else if (val[0] == '%')
             {
-                sym_val = (int)strtol(val + 1, NULL, 2);
+                val += 1;
+                sym_val = strtol(val, &val_end, 2);
             }
             else if (val[0] == '0' && val[1] == 'x')
             {
-                sym_val = (int)strtol(val + 2, NULL, 16);
+                val += 2;
+                sym_val = strtol(val, &val_end, 16);
             }
             else if (val[0] == '0' && val[1] == 'b')
             {
-                sym_val = (int)strtol(val + 2, NULL, 2);
+                val += 2;
+                sym_val = strtol(val, &val_end, 2);
             }
             else
             {
-                sym_val = (int)strtol(val, NULL, 10);
+                sym_val = strtol(val, &val_end, 10);
+            }
+
+            // all of the text must be a value a symbol can have
+            if (val_end == val || *val_end != 0)
+            {
+                error(error_invalid_parameters);
+                usage();
+                exit(-1);
+            }
+            if (sym_val < 0 || sym_val > 0xFFFF)
+            {
+                error(error_value_out_of_range);
+                usage();
+                exit(-1);
             }
 
             // ReSharper disable once CppLocalVariableMayBeConst
             symbol_table_ptr sym = add_symbol(sym_name);
-            if (sym != NULL)
+            if (sym == NULL)
             {
-                set_symbol_value(sym, sym_val);
-                sym->is_initialized = true;
-                sym->times_accessed = 1000;
+                error(error_adding_symbol);
+                usage();
+                exit(-1);
             }
+            set_symbol_value(sym, static_cast<int>(sym_val));
+            sym->is_initialized = true;
+            sym->times_accessed = 1000;
             arg_index++;
             continue;
         }
-- 
2.43.0


From 3bcbf86d60669ff0b66b2c26b675df772162919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:40 +0000
Subject: [PATCH 35/46] fix: an undefined local label before any label is
 unresolved

---
 CMakePasm/source/sym.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 126468f..3c63a1a 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -210,8 +210,6 @@ symbol_table_ptr add_symbol(char* name)
     if (sym.name[0] == '@')
     {
         sym.is_local = true;
-        sym.is_initialized = true;
-        sym.value = 0;
     }
 
     current_scope = temp_section;
-- 
2.43.0


From 507810264df5eb85c625fabe367b03d313ba5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:31 +0000
Subject: [PATCH 36/46] fix: references to missing anonymous labels are
 unresolved

---
 CMakePasm/source/expand.cc | 12 +++++++++++-
 CMakePasm/source/expand.h  |  1 +
 CMakePasm/source/pass.cc   |  1 +
 CMakePasm/source/sym.cc    |  4 ++--
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index e079510..ec800eb 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -48,6 +48,11 @@ int max_address = 0xFFFF;
 // number of symbols whose values changed
 int sym_value_changed = 0;
 
+//
+//  references to anonymous labels that do not exist
+//
+int unresolved_references = 0;
+
 // nest level of expand_node();
 int expand_level = 0;
 
@@ -505,7 +510,12 @@ int expand_plus_minus_node(const parse_node_ptr p)
 int expand_id_node(const parse_node_ptr p)
 {
     if (p->id.name[0] == '-' || p->id.name[0] == '+')
-        return expand_plus_minus_node(p);
+    {
+        const int value = expand_plus_minus_node(p);
+        if (p->id.i == nullptr || !p->id.i->is_initialized)
+            unresolved_references++;
+        return value;
+    }
 
     symbol_table_ptr sym = p->id.i;
     if (p->id.name[0] == '@')
diff --git a/CMakePasm/source/expand.h b/CMakePasm/source/expand.h
index de008c0..f535f81 100644
--- a/CMakePasm/source/expand.h
+++ b/CMakePasm/source/expand.h
@@ -15,6 +15,7 @@ extern bool has_uninitialized_symbol(parse_node_ptr p);
 extern int get_op_byte_count(parse_node_ptr p);
 
 extern int sym_value_changed;
+extern int unresolved_references;
 extern int print_list_state;
 extern int end_expansion;
 extern dictionary_ptr macro_dict;
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index b1ddb48..c419b42 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -34,6 +34,7 @@ void reset_lex(void)
     last_label = nullptr;
 
     sym_value_changed = 0;
+    unresolved_references = 0;
 
     // reset the Program Counter
     program_counter = program_origin_default;
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 3c63a1a..ca6f6a4 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -808,10 +808,10 @@ void dump_unresolved_symbols(FILE* file)
 
 int unresolved_symbol_count(void)
 {
-    int count = 0;
+    int count = unresolved_references;
 
     if (symbol_dictionary == NULL)
-        return 0;
+        return count;
 
     for (int index = 0; index < symbol_dictionary->size; index++)
     {
-- 
2.43.0


From 6d9dbe615eaab34505b32f188f7aaa5c9392c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:04 +0000
Subject: [PATCH 37/46] fix: a block comment in skipped text holds no
 directives

---
 CMakePasm/source/pasm.l | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 16d01f7..cead01a 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -56,6 +56,7 @@ extern bool Debug_AddList;
 
 %x C_COMMENT
 %xx IF_DEF
+%x SKIP_COMMENT
 
 ES                          (\\(['"\?\\abfnrtv]|[0-7]{1,3}|x[a-fA-F0-9]+))
 LOGOR                       [|][|]
@@ -222,7 +223,11 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                             }
 <IF_DEF>;[^\n]*             { /* comments, names and strings hold no directives */ }
 <IF_DEF>[/][/][^\n]*        { /* ignore ifdef false */ }
+<IF_DEF>"/*"                { BEGIN(SKIP_COMMENT); }
+<SKIP_COMMENT>"*/"          { BEGIN(IF_DEF); }
+<SKIP_COMMENT>.|[\n]        { /* ignore comments */ }
 <IF_DEF>[\'].[\']           { /* ignore ifdef false */ }
+<IF_DEF>[\'][\\].[\']       { /* ignore ifdef false */ }
 <IF_DEF>{STRVALUE}          { /* ignore ifdef false */ }
 <IF_DEF>{SYMB}              { /* ignore ifdef false */ }
 <IF_DEF>.|[\n]              { /* ignore ifdef false */ }
-- 
2.43.0


From 5baf063503cca6f3c755ceed3d0c3e797dd89f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:04 +0000
Subject: [PATCH 38/46] fix: a register loop up to 255 includes 255

---
 CMakePasm/source/expand.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index ec800eb..cb7eb47 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -644,8 +644,8 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
     const parse_node_ptr loop_next = opcode_node(increment_flag > 0 ? inc_op : dec_op, i, 0);
     expand_node(loop_next);
 
-    // check to see if we need a compare
-    if (end != 0)
+    // check to see if we need a compare, counting up to 255 ends when the register wraps to 0
+    if (end != 0 && !(increment_flag > 0 && end == 255))
     {
         parse_node_ptr cmp_node;
         if (increment_flag > 0 && end < 255)
-- 
2.43.0


From 59732dbfa1be7e7a44a31d59072fcd401fee3855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:11 +0000
Subject: [PATCH 39/46] fix: a counting loop that cannot advance is reported

---
 CMakePasm/source/expand.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index cb7eb47..9fdcb85 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -13,6 +13,7 @@
 // ReSharper disable CppClangTidyClangDiagnosticIntToVoidPointerCast
 #pragma warning(disable:4996 4267 4312 4090)
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -1571,6 +1572,13 @@ int expand_operator_for_node(const parse_node_ptr p)
     if (p->number_of_ops == 5)
         step_val = expand_node(p->op[4]);
 
+    // would never end
+    if (step_val == 0)
+    {
+        error(error_value_out_of_range);
+        return 0;
+    }
+
     const parse_node_ptr pp = p->op[0];
     if (pp->op[0]->type == type_id)
     {
@@ -1618,7 +1626,11 @@ int expand_operator_for_node(const parse_node_ptr p)
                 error(error_infinite_loop_detected);
                 return 0;
             }
-            set_symbol_value(sym, sym->value + step_val);
+            const long long next_value = static_cast<long long>(sym->value) + step_val;
+            if (next_value > INT_MAX || next_value < INT_MIN)
+                break;
+            if (set_symbol_value(sym, static_cast<int>(next_value)) == nullptr)
+                return 0;
         } while (true);
     }
     else
-- 
2.43.0


From 601f91d84db5ac257c16903e623937151845a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:14 +0000
Subject: [PATCH 40/46] fix: macro parameters do not belong to a section

---
 CMakePasm/source/sym.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index ca6f6a4..ce095f3 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -145,7 +145,8 @@ symbol_table_ptr add_symbol(char* name)
         }
     }
 
-    if (strstr(name, "."))
+    // macro parameters belong to the call, not to a section
+    if (strstr(name, ".") || name[0] == '\\')
         current_scope = NULL;
 
     if (name[0] == '.')
-- 
2.43.0


From 1f7d6377277b9aa75e72d91e8bd6ef07bbe0690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:54 +0000
Subject: [PATCH 41/46] fix: a reference to an anonymous label keeps the local
 label scope

---
 CMakePasm/source/sym.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index ce095f3..92fb072 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -75,11 +75,6 @@ int compare_plus_minus_sym_value(const plus_minus_sym* a, const char* file, cons
 
 symbol_table_ptr add_plus_minus_sym(char* name)
 {
-    const auto blank = "";
-
-    if (last_label == nullptr)
-        last_label = const_cast<char*>(&blank[0]);
-
     symbol_table sym = { 0 };  // NOLINT(clang-diagnostic-missing-field-initializers)
     char* temp_section = current_scope;
 
-- 
2.43.0


From 7d4200406d0e7561a6c91fcf5f3dab0b46a5480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:24 +0000
Subject: [PATCH 42/46] fix: macro arguments are all evaluated before the
 parameters change

---
 CMakePasm/source/expand.cc | 57 ++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 9fdcb85..e79e931 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -29,6 +29,7 @@
 #include "genoutput.h"
 #include "memory.h"
 #include "pasm.h"
+#include "stacks.h"
 
 extern bool Debug_AddList;
 extern void print_node(parse_node_ptr p, std::ostream& file);
@@ -189,6 +190,11 @@ int end_expansion = 0;
 //
 int macro_parameter_index = 0;
 
+//
+// values of the arguments of the macro call
+//
+static stack_ptr macro_arguments = nullptr;
+
 //
 // flag to unroll loops
 // always true for now
@@ -1171,7 +1177,6 @@ int expand_operator_org_node(const parse_node_ptr p)
 int expand_operator_expression_list_node(const parse_node_ptr p)
 {
     symbol_table_ptr symbol_ptr = nullptr;
-    char sym_name[max_macro_param_name_len] = { 0 };
 
     for (int index = 0; index < p->number_of_ops; index++)
     {
@@ -1240,20 +1245,12 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
                 error(error_value_out_of_range);
                 return 0;
             }
-            if (++macro_parameter_index > max_macro_param)
-                max_macro_param = macro_parameter_index;
-
-            sprintf(sym_name, "\\%d", macro_parameter_index);
-            symbol_ptr = add_symbol(sym_name);
-            if (symbol_ptr != nullptr)
-            {
-                set_symbol_value(symbol_ptr, expand_node(pp));
-                symbol_ptr->is_initialized = true;
-            }
-            else
             {
-                error(error_out_of_memory);
-                exit(-1);
+                // the parameters are set when all arguments are known
+                const int argument = expand_node(pp);
+                if (macro_arguments == nullptr)
+                    macro_arguments = create_stack(sizeof(int));
+                macro_arguments->push(macro_arguments->instance, &argument);
             }
             break;
 
@@ -1400,6 +1397,8 @@ void reset_macro_dict(void)
     data_size = 0;
     expansion_type = macro_parameter;
     print_list_state = 1;
+    if (macro_arguments != nullptr)
+        macro_arguments->clear(macro_arguments->instance);
 
     if (macro_dict == nullptr)
     {
@@ -1443,6 +1442,35 @@ int expand_macro_id_node(const parse_node_ptr p)
     return sym->value;
 }
 
+/// <summary>
+/// Give the parameters of a macro the values of the arguments
+/// </summary>
+static void set_macro_parameters(void)
+{
+    char sym_name[max_macro_param_name_len] = { 0 };
+
+    if (macro_arguments == nullptr)
+        return;
+
+    const int count = static_cast<int>(macro_arguments->instance->index) + 1;
+    while (macro_parameter_index < count)
+    {
+        if (++macro_parameter_index > max_macro_param)
+            max_macro_param = macro_parameter_index;
+
+        sprintf(sym_name, "\\%d", macro_parameter_index);
+        const symbol_table_ptr symbol_ptr = add_symbol(sym_name);
+        if (symbol_ptr == nullptr)
+        {
+            error(error_out_of_memory);
+            exit(-1);
+        }
+        set_symbol_value(symbol_ptr, *static_cast<int*>(macro_arguments->item_at(macro_arguments->instance, macro_parameter_index - 1)));
+        symbol_ptr->is_initialized = true;
+    }
+    macro_arguments->clear(macro_arguments->instance);
+}
+
 /// <summary>
 /// Operator Macro Expansion (macro call)
 /// </summary>
@@ -1458,6 +1486,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
 
     if (p->macro.macro_params != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
+    set_macro_parameters();
 
     char* temp = last_label;
     snprintf(internal_buffer, max_line_len, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
-- 
2.43.0


From 2a83288c71c8fa7635379ab45c1ffc036820fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:04 +0000
Subject: [PATCH 43/46] fix: the end of a section with a dotted name restores
 the enclosing scope

---
 CMakePasm/source/expand.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index e79e931..c8529b4 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -195,6 +195,11 @@ int macro_parameter_index = 0;
 //
 static stack_ptr macro_arguments = nullptr;
 
+//
+// lengths of the scopes around the open sections
+//
+static stack_ptr enclosing_scopes = nullptr;
+
 //
 // flag to unroll loops
 // always true for now
@@ -715,6 +720,13 @@ int expand_data_node(const parse_node_ptr p)
 int expand_operator_section_node(const parse_node_ptr p)
 {
     char* name = p->op[0]->id.name;
+
+    // the end of the section restores the enclosing scope
+    const size_t enclosing = current_scope != nullptr ? strlen(current_scope) : 0;
+    if (enclosing_scopes == nullptr)
+        enclosing_scopes = create_stack(sizeof(size_t));
+    enclosing_scopes->push(enclosing_scopes->instance, &enclosing);
+
     if (current_scope != nullptr)
     {
         const size_t len = strlen(current_scope) + strlen(name) + 2;
@@ -756,8 +768,16 @@ int expand_operator_end_section_node(parse_node_ptr p)
     }
 
     long int index = strlen(current_scope);
-    while (index >= 0 && current_scope[index] != '.')
-        index--;
+    if (enclosing_scopes != nullptr && enclosing_scopes->instance->index >= 0)
+    {
+        const auto enclosing = static_cast<long int>(*static_cast<size_t*>(enclosing_scopes->pop(enclosing_scopes->instance)));
+        index = enclosing > 0 && enclosing < index ? enclosing : -1;
+    }
+    else
+    {
+        while (index >= 0 && current_scope[index] != '.')
+            index--;
+    }
     if (index >= 0)
         current_scope[index] = 0;
     else
@@ -1399,6 +1419,8 @@ void reset_macro_dict(void)
     print_list_state = 1;
     if (macro_arguments != nullptr)
         macro_arguments->clear(macro_arguments->instance);
+    if (enclosing_scopes != nullptr)
+        enclosing_scopes->clear(enclosing_scopes->instance);
 
     if (macro_dict == nullptr)
     {
-- 
2.43.0


From a9b760378d788b195faade4d3016c2b1c054ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:32 +0000
Subject: [PATCH 44/46] fix: a macro parameter without an argument is reported

---
 CMakePasm/source/expand.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c8529b4..c85888c 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -529,6 +529,13 @@ int expand_id_node(const parse_node_ptr p)
         return value;
     }
 
+    // a parameter the macro was not given
+    if (p->id.name[0] == '\\' && in_macro_definition <= 0 && atoi(p->id.name + 1) > macro_parameter_index)
+    {
+        error(error_macro_parameter_not_found);
+        return 0;
+    }
+
     symbol_table_ptr sym = p->id.i;
     if (p->id.name[0] == '@')
     {
@@ -1471,6 +1478,7 @@ static void set_macro_parameters(void)
 {
     char sym_name[max_macro_param_name_len] = { 0 };
 
+    macro_parameter_index = 0;
     if (macro_arguments == nullptr)
         return;
 
@@ -1503,8 +1511,9 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     macro_dict_entry* macro_dict_entry = create_macro_entry(p->macro.name);
     push_macro_params();
 
+    // the arguments are evaluated with the parameters of the caller
+    const int caller_parameters = macro_parameter_index;
     expansion_type = macro_parameter;
-    macro_parameter_index = 0;
 
     if (p->macro.macro_params != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
@@ -1520,6 +1529,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     macro_dict_entry->times_executed++;
 
     last_label = temp;
+    macro_parameter_index = caller_parameters;
     pop_macro_params();
 
     return 0;
-- 
2.43.0


From e38c53e04e0cc2ba9df012ab12e80cd3716ad9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:02 +0000
Subject: [PATCH 45/46] fix: local labels of a macro belong to its calls, not
 to its definition

---
 CMakePasm/source/expand.cc | 27 +++++++++++++++++++++++++++
 CMakePasm/source/expand.h  |  1 +
 CMakePasm/source/node.cc   |  8 ++++++--
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c85888c..1bd7f5e 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -228,6 +228,11 @@ static parse_node_ptr generate_fill_node2 = nullptr;
 //
 static ExprExpansionType expansion_type = macro_parameter;
 
+//
+// operands are evaluated before the statement is complete
+//
+static int previewing = 0;
+
 dictionary_ptr expand_operator_table_dictionary = nullptr;
 dictionary_ptr expand_table_dictionary = nullptr;
 
@@ -539,6 +544,17 @@ int expand_id_node(const parse_node_ptr p)
     symbol_table_ptr sym = p->id.i;
     if (p->id.name[0] == '@')
     {
+        // the label of this line or the call of the macro may still change the scope
+        if (previewing > 0)
+        {
+            char* name = last_label != nullptr ? format_local_sym(p->id.name, last_label) : p->id.name;
+            sym = in_macro_definition > 0 ? nullptr : look_up_symbol(name);
+            if (name != p->id.name)
+                FREE(name);
+            p->id.i = sym;
+            return sym != nullptr && sym->is_initialized ? sym->value : 0;
+        }
+
         sym = add_symbol(p->id.name);
         p->id.i = sym;
     }
@@ -555,6 +571,17 @@ int expand_id_node(const parse_node_ptr p)
     return sym->is_initialized ? sym->value : 0;
 }
 
+//
+// value of an operand while its statement is parsed
+//
+int preview_node(const parse_node_ptr p)
+{
+    previewing++;
+    const int value = expand_node(p);
+    previewing--;
+    return value;
+}
+
 //
 // Label node
 //
diff --git a/CMakePasm/source/expand.h b/CMakePasm/source/expand.h
index f535f81..bffce64 100644
--- a/CMakePasm/source/expand.h
+++ b/CMakePasm/source/expand.h
@@ -6,6 +6,7 @@ extern void init_expander(void);
 extern void destroy_expander(void);
 extern int expand_node(parse_node_ptr p);
 extern void reset_macro_dict(void);
+extern int preview_node(parse_node_ptr p);
 extern char* last_label;
 extern char* current_scope;
 extern void dump_op_table(void);
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index ab80b60..2f7b664 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -193,6 +193,10 @@ parse_node_ptr id_node(const char* name)
 /// <returns>parseNodePtr.</returns>
 parse_node_ptr label_node(char* name)
 {
+    // the labels of a macro get their scope from the call
+    if (in_macro_definition > 0)
+        return id_node_common(name, type_label);
+
     if (name[0] != '@' && name[0] != '-' && name[0] != '+')
         last_label = name;
     else if (last_label != nullptr && name[0] == '@')
@@ -351,7 +355,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
         for (index = 0; index < number_of_ops; index++)
         {
             p->op[index] = va_arg(ap, parse_node_ptr);
-            val = expand_node(p->op[index]);
+            val = preview_node(p->op[index]);
         }
         va_end(ap);
     }
@@ -426,7 +430,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
     for (index = 0; index < number_of_ops; index++)
     {
         if (p->op[index])
-            expand_node(p->op[index]);
+            preview_node(p->op[index]);
     }
 
     p->opcode.opcode = code;
-- 
2.43.0


From daa4954735f9b7b263b6e6a7d2fb31b6922df91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:53 +0000
Subject: [PATCH 46/46] fix: a branch to a local or anonymous label at address
 0 is replaced by a jump when it is out of range

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 1bd7f5e..ef3c1d0 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -939,7 +939,7 @@ int expand_op_code_node(const parse_node_ptr p)
             // fix for local labels
             const char ch = (pp->type == type_id) ? pp->id.name[0] : 0;
             if (op_value == 0 && p->opcode.mode == r && p->number_of_ops == 1 && pp->type == type_id 
-                && (ch == '@' || ch == '-' || ch =='+') )
+                && (ch == '@' || ch == '-' || ch =='+') && (pp->id.i == nullptr || !pp->id.i->is_initialized))
                 op_value = program_counter;
 
             // ReSharper disable once CppRedundantParentheses
-- 
2.43.0

