From e6f1d548f4f7dd4d1cd7a0d6f509dffebe0a0bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 01/43] fix: do not count an element in an empty collection
 value

---
 source/core/parsing/execute_callbacks.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/execute_callbacks.c b/source/core/parsing/execute_callbacks.c
index 234e0a6..48d5c60 100644
--- a/source/core/parsing/execute_callbacks.c
+++ b/source/core/parsing/execute_callbacks.c
@@ -38,7 +38,8 @@ int execute_callbacks(argus_t *argus, argus_option_t *option, char *value)
         return (status);
 
     option->is_set = true;
-    if (option->value_count == 0)
+    if (option->value_count == 0 &&
+        !(option->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP | VALUE_TYPE_VARIADIC)))
         option->value_count = 1;
 
     if (option->flags & FLAG_EXIT)
-- 
2.43.0


From 8023babe1b105a94c68e3e7b20a145b4ceb11eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 02/43] fix: restore option state on free so a table can be
 parsed again

---
 source/api/argus_parse.c   |  2 ++
 source/utils/value_utils.c | 20 +++++++++++---------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/source/api/argus_parse.c b/source/api/argus_parse.c
index 35da575..840ef6f 100644
--- a/source/api/argus_parse.c
+++ b/source/api/argus_parse.c
@@ -20,6 +20,8 @@ void argus_free(argus_t *argus);
 
 int argus_parse(argus_t *argus, int argc, char **argv)
 {
+    argus->subcommand_depth = 0;
+
     int status        = parse_args(argus, argus->options, argc - 1, &argv[1]);
     argus->error_code = status;
     if (status == ARGUS_SHOULD_EXIT) {
diff --git a/source/utils/value_utils.c b/source/utils/value_utils.c
index 917a0da..d5dc23a 100644
--- a/source/utils/value_utils.c
+++ b/source/utils/value_utils.c
@@ -16,15 +16,17 @@
 
 void free_option_value(argus_option_t *option)
 {
-    if (option->is_allocated == false)
-        return;
-
-    if (option->free_handler != NULL)
-        option->free_handler(option);
-    else
-        free(option->value.as_ptr);
-    option->is_allocated = false;
-    option->value.as_ptr = NULL;
+    if (option->is_allocated) {
+        if (option->free_handler != NULL)
+            option->free_handler(option);
+        else
+            free(option->value.as_ptr);
+        option->is_allocated = false;
+    }
+    option->value          = option->default_value;
+    option->value_count    = 0;
+    option->value_capacity = 0;
+    option->is_set         = option->have_default;
 }
 
 argus_value_t choices_to_value(argus_valtype_t type, argus_value_t choices, size_t choices_count,
-- 
2.43.0


From 42f8c6b82bd935b9736e84d72fd38c414015f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 03/43] fix: bound the subcommand stack

---
 source/core/parsing/option_handle_subcommand.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/core/parsing/option_handle_subcommand.c b/source/core/parsing/option_handle_subcommand.c
index 630cd08..ddce988 100644
--- a/source/core/parsing/option_handle_subcommand.c
+++ b/source/core/parsing/option_handle_subcommand.c
@@ -7,11 +7,19 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include "argus/errors.h"
 #include "argus/internal/parsing.h"
 #include "argus/types.h"
 
 int handle_subcommand(argus_t *argus, argus_option_t *option, int argc, char **argv)
 {
+    if (argus->subcommand_depth >= MAX_SUBCOMMAND_DEPTH) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_STACK_OVERFLOW,
+                            "Subcommand '%s' exceeds the maximum depth (%d)", option->name,
+                            MAX_SUBCOMMAND_DEPTH);
+        return ARGUS_ERROR_STACK_OVERFLOW;
+    }
+
     option->is_set                                   = true;
     argus->subcommand_stack[argus->subcommand_depth] = option;
     argus->subcommand_depth++;
-- 
2.43.0


From 18f98513dd5d2b85b011db059556745c7c298086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 04/43] fix: release the key of updated and rejected map pairs

---
 source/callbacks/handlers/map_bool_handler.c   | 6 ++++--
 source/callbacks/handlers/map_float_handler.c  | 6 ++++--
 source/callbacks/handlers/map_int_handler.c    | 6 ++++--
 source/callbacks/handlers/map_string_handler.c | 9 +++++----
 4 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 1a2548a..1603bd2 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -72,8 +72,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -85,6 +85,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
                             "Invalid boolean value for key '%s': '%s' (expected true/false, "
                             "yes/no, 1/0, on/off, y/n)",
                             key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -94,6 +95,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Key exists, update value
     if (key_index >= 0) {
         option->value.as_map[key_index].value.as_bool = (bool)bool_value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         adjust_map_size(option);
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 2a1bfd8..a27055f 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -34,8 +34,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -48,6 +48,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid float value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -57,6 +58,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Key exists, update value
     if (key_index >= 0) {
         option->value.as_map[key_index].value.as_float = float_value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         adjust_map_size(option);
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 23cd668..6771a77 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -35,8 +35,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -49,6 +49,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -58,6 +59,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Key exists, update value
     if (key_index >= 0) {
         option->value.as_map[key_index].value.as_int64 = int_value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         adjust_map_size(option);
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index cd504ce..c1b3b07 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -34,15 +34,15 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = safe_strdup(separator + 1);
     if (value == NULL) {
         free(key);
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for value '%s'",
-                            value);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for value of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
 
@@ -53,6 +53,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         // Key exists, update value
         free(option->value.as_map[key_index].value.as_string);
         option->value.as_map[key_index].value.as_string = value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
 
-- 
2.43.0


From 5a3179a960ca061080344ac74f62a3f795f73343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 05/43] fix: release partially built collections after a failed
 parse

---
 source/utils/multi_values.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 0fe8b65..babbdb3 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -453,6 +453,7 @@ void adjust_array_size(argus_option_t *option)
             option->value_capacity = 0;
             return;
         }
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
@@ -474,6 +475,7 @@ void adjust_map_size(argus_option_t *option)
             option->value_capacity = 0;
             return;
         }
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
-- 
2.43.0


From 2955e3000d18bad10ccadda5512a61b42ef9e2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 06/43] fix: let environment variables take precedence over
 defaults

---
 includes/argus/types.h                  | 1 +
 source/core/parsing/execute_callbacks.c | 3 ++-
 source/core/parsing/load_env_vars.c     | 2 +-
 source/utils/value_utils.c              | 1 +
 4 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/includes/argus/types.h b/includes/argus/types.h
index 3a5d34b..74da846 100644
--- a/includes/argus/types.h
+++ b/includes/argus/types.h
@@ -277,6 +277,7 @@ struct argus_option_s
     /* Flags and state metadata */
     argus_optflags_t flags;
     bool             is_set;
+    bool             is_provided; /* Set by the command line or the environment */
 
     /* Subcommand metadata */
     argus_action_t         action;
diff --git a/source/core/parsing/execute_callbacks.c b/source/core/parsing/execute_callbacks.c
index 48d5c60..0416c13 100644
--- a/source/core/parsing/execute_callbacks.c
+++ b/source/core/parsing/execute_callbacks.c
@@ -37,7 +37,8 @@ int execute_callbacks(argus_t *argus, argus_option_t *option, char *value)
     if (status != ARGUS_SUCCESS)
         return (status);
 
-    option->is_set = true;
+    option->is_set      = true;
+    option->is_provided = true;
     if (option->value_count == 0 &&
         !(option->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP | VALUE_TYPE_VARIADIC)))
         option->value_count = 1;
diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index e03c241..63bdc8c 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -73,7 +73,7 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (option->type == TYPE_GROUP || option->type == TYPE_SUBCOMMAND)
             continue;
 
-        if (option->is_set && !(option->flags & FLAG_ENV_OVERRIDE))
+        if (option->is_provided && !(option->flags & FLAG_ENV_OVERRIDE))
             continue;
 
         const char *env_name = get_env_var_name(argus, option);
diff --git a/source/utils/value_utils.c b/source/utils/value_utils.c
index d5dc23a..d458891 100644
--- a/source/utils/value_utils.c
+++ b/source/utils/value_utils.c
@@ -27,6 +27,7 @@ void free_option_value(argus_option_t *option)
     option->value_count    = 0;
     option->value_capacity = 0;
     option->is_set         = option->have_default;
+    option->is_provided    = false;
 }
 
 argus_value_t choices_to_value(argus_valtype_t type, argus_value_t choices, size_t choices_count,
-- 
2.43.0


From baf4ebb56ce037470c0932be69ce07dfad06bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 07/43] fix: replace collections overridden by the environment
 and drop dangling restore

---
 source/core/parsing/load_env_vars.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index 63bdc8c..36f8285 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -14,6 +14,7 @@
 
 #include "argus/errors.h"
 #include "argus/internal/parsing.h"
+#include "argus/internal/utils.h"
 #include "argus/types.h"
 
 /**
@@ -84,18 +85,13 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (!env_value)
             continue;
 
-        bool          was_set   = option->is_set;
-        argus_value_t old_value = option->value;
+        // The variable replaces the command line value instead of extending it
+        if (option->is_provided)
+            free_option_value(option);
 
-        //! possible leak here
         int status = execute_callbacks(argus, option, env_value);
-        if (status != ARGUS_SUCCESS) {
-            if (was_set) {
-                option->is_set = was_set;
-                option->value  = old_value;
-            }
+        if (status != ARGUS_SUCCESS)
             return (status);
-        }
     }
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From 7dc8eb5b044cb4e611b5066d823968f1fc3b075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 08/43] fix: enforce FLAG_REQUIRED on options

---
 source/core/parsing/post_parse_validation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/parsing/post_parse_validation.c b/source/core/parsing/post_parse_validation.c
index 5793dab..7af38d9 100644
--- a/source/core/parsing/post_parse_validation.c
+++ b/source/core/parsing/post_parse_validation.c
@@ -83,6 +83,12 @@ static int validate_options_set(argus_t *argus, argus_option_t *options)
             return (ARGUS_ERROR_MISSING_REQUIRED);
         }
 
+        if (option->type == TYPE_OPTION && (option->flags & FLAG_REQUIRED) && !option->is_set) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_REQUIRED,
+                                "Required option missing: '%s'", option->name);
+            return (ARGUS_ERROR_MISSING_REQUIRED);
+        }
+
         if (option->is_set) {
             int status;
 
-- 
2.43.0


From e2f9aede2eeeadc6c474f6fda1b954b2a8b36731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 09/43] fix: do not let default values violate option relations

---
 source/core/parsing/post_parse_validation.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/core/parsing/post_parse_validation.c b/source/core/parsing/post_parse_validation.c
index 7af38d9..336813b 100644
--- a/source/core/parsing/post_parse_validation.c
+++ b/source/core/parsing/post_parse_validation.c
@@ -35,7 +35,7 @@ static int validate_conflicts(argus_t *argus, argus_option_t *options, argus_opt
     if (option->conflict) {
         for (int j = 0; option->conflict[j] != NULL; ++j) {
             argus_option_t *conflict = find_option_by_name(options, option->conflict[j]);
-            if (conflict && conflict->is_set) {
+            if (conflict && conflict->is_provided) {
                 ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_CONFLICTING_OPTIONS,
                                     "Conflict between '%s' and '%s'", option->name, conflict->name);
                 return (ARGUS_ERROR_CONFLICTING_OPTIONS);
@@ -92,7 +92,7 @@ static int validate_options_set(argus_t *argus, argus_option_t *options)
         if (option->is_set) {
             int status;
 
-            if (current_group_is_exclusive) {
+            if (current_group_is_exclusive && option->is_provided) {
                 if (first_set_option_name == NULL) {
                     first_set_option_name = option->name;
                 } else {
@@ -107,6 +107,10 @@ static int validate_options_set(argus_t *argus, argus_option_t *options)
             if (status != ARGUS_SUCCESS)
                 return (status);
 
+            // A default value is not a use of the option
+            if (!option->is_provided)
+                continue;
+
             status = validate_required(argus, options, option);
             if (status != ARGUS_SUCCESS)
                 return (status);
-- 
2.43.0


From 4a0e694ae2a74b0f66475778ffdf18fff30811af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 10/43] fix: reject malformed and out of range integer and
 float values

---
 source/callbacks/handlers/float_handler.c | 15 ++++++++++++---
 source/callbacks/handlers/int_handler.c   | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/handlers/float_handler.c b/source/callbacks/handlers/float_handler.c
index d216444..3719025 100644
--- a/source/callbacks/handlers/float_handler.c
+++ b/source/callbacks/handlers/float_handler.c
@@ -7,16 +7,25 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include <errno.h>
+#include <math.h>
 #include <stdlib.h>
 
 #include "argus/errors.h"
-#include "argus/internal/utils.h"
 #include "argus/options.h"
 #include "argus/types.h"
 
 int float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-    option->value.as_float = strtof(value, NULL);
+    char *endptr = NULL;
+
+    errno               = 0;
+    double parsed_value = strtod(value, &endptr);
+    if (endptr == value || *endptr != '\0' || (errno == ERANGE && isinf(parsed_value))) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT, "Invalid float value '%s' for '%s'",
+                            value, option->name);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+    option->value.as_float = parsed_value;
     return (ARGUS_SUCCESS);
 }
diff --git a/source/callbacks/handlers/int_handler.c b/source/callbacks/handlers/int_handler.c
index 168c266..c79e7c4 100644
--- a/source/callbacks/handlers/int_handler.c
+++ b/source/callbacks/handlers/int_handler.c
@@ -8,14 +8,23 @@
  */
 
 #include "argus/errors.h"
-#include "argus/internal/utils.h"
 #include "argus/types.h"
 
+#include <errno.h>
+#include <stdint.h>
 #include <stdlib.h>
 
 int int_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-    option->value = (argus_value_t){.as_int64 = strtoll(value, NULL, 10)};
+    char *endptr = NULL;
+
+    errno                = 0;
+    int64_t parsed_value = strtoll(value, &endptr, 10);
+    if (endptr == value || *endptr != '\0' || errno == ERANGE) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT,
+                            "Invalid integer value '%s' for '%s'", value, option->name);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+    option->value = (argus_value_t){.as_int64 = parsed_value};
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From 64669d18e041fad159f1fd01f869994ca6745d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 11/43] fix: reject malformed float array elements

---
 .../callbacks/handlers/array_float_handler.c  | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index 4e8d4a0..db5cd31 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -7,6 +7,8 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include <errno.h>
+#include <math.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -15,28 +17,44 @@
 #include "argus/options.h"
 #include "argus/types.h"
 
-static void set_value(argus_option_t *option, char *value)
+static int set_value(argus_t *argus, argus_option_t *option, char *value)
 {
+    char *endptr = NULL;
+
+    errno               = 0;
+    double parsed_value = strtod(value, &endptr);
+    if (endptr == value || *endptr != '\0' || (errno == ERANGE && isinf(parsed_value))) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT, "Invalid float value: '%s'", value);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+
     adjust_array_size(option);
-    option->value.as_array[option->value_count].as_float = strtof(value, NULL);
+    option->value.as_array[option->value_count].as_float = parsed_value;
     option->value_count++;
+    return ARGUS_SUCCESS;
 }
 
 int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-
     if (strchr(value, ',') != NULL) {
         char **splited_values = split(value, ",");
         if (splited_values == NULL) {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to split string '%s'", value);
             return ARGUS_ERROR_MEMORY;
         }
-        for (size_t i = 0; splited_values[i] != NULL; ++i)
-            set_value(option, splited_values[i]);
+        for (size_t i = 0; splited_values[i] != NULL; ++i) {
+            int status = set_value(argus, option, splited_values[i]);
+            if (status != ARGUS_SUCCESS) {
+                free_split(splited_values);
+                return status;
+            }
+        }
         free_split(splited_values);
-    } else
-        set_value(option, value);
+    } else {
+        int status = set_value(argus, option, value);
+        if (status != ARGUS_SUCCESS)
+            return status;
+    }
 
     apply_array_flags(option);
     option->is_allocated = true;
-- 
2.43.0


From 5239b9ff2bc192dfee226adf7f3a433a06412e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 12/43] fix: validate integers on 64 bits and ranges of floats

---
 .../callbacks/validators/choices_validator.c  | 11 +++++++----
 source/callbacks/validators/range_validator.c | 19 +++++++++++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index a276015..a617ac1 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -14,6 +14,7 @@
 
 #include "argus/errors.h"
 #include "argus/internal/cross_platform.h"
+#include "argus/options.h"
 #include "argus/types.h"
 
 // Forward declaration
@@ -45,19 +46,21 @@ int choices_int_validator(argus_t *argus, void *option_ptr, validator_data_t dat
     argus_option_t *option  = (argus_option_t *)option_ptr;
     choices_data_t *choices = &data.choices;
 
+    // Custom handlers may only fill the int member
+    int64_t value = option->handler == int_handler ? option->value.as_int64 : option->value.as_int;
+
     for (size_t i = 0; i < choices->count; i++) {
-        if (option->value.as_int == choices->as_ints[i])
+        if (value == choices->as_ints[i])
             return ARGUS_SUCCESS;
     }
 
     char *choices_formatted = format_choices_validator(data);
     if (choices_formatted) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%d' is not one of [%s]",
-                            option->value.as_int, choices_formatted);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%" PRId64 "' is not one of [%s]", value, choices_formatted);
         free(choices_formatted);
     } else {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE,
-                            "Value '%d' is not one of the choices", option->value.as_int);
+                            "Value '%" PRId64 "' is not one of the choices", value);
     }
     return ARGUS_ERROR_INVALID_CHOICE;
 }
diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index b521b20..ae74337 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -12,6 +12,7 @@
 #include <stdlib.h>
 
 #include "argus/errors.h"
+#include "argus/options.h"
 #include "argus/types.h"
 
 int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
@@ -25,9 +26,23 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
         return ARGUS_ERROR_INVALID_RANGE;
     }
 
-    if (option->value.as_int < data.range.min || option->value.as_int > data.range.max) {
+    if (option->handler == float_handler) {
+        double value = option->value.as_float;
+        if (!(value >= (double)data.range.min && value <= (double)data.range.max)) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
+                                "Value %g is out of range %" PRId64 "-%" PRId64, value,
+                                data.range.min, data.range.max);
+            return ARGUS_ERROR_INVALID_RANGE;
+        }
+        return (ARGUS_SUCCESS);
+    }
+
+    // Custom handlers may only fill the int member
+    int64_t value = option->handler == int_handler ? option->value.as_int64 : option->value.as_int;
+
+    if (value < data.range.min || value > data.range.max) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
-                            "Value %d is out of range %" PRId64 "-%" PRId64, option->value.as_int,
+                            "Value %" PRId64 " is out of range %" PRId64 "-%" PRId64, value,
                             data.range.min, data.range.max);
         return ARGUS_ERROR_INVALID_RANGE;
     }
-- 
2.43.0


From c15ed08020ba63bf29f9b3c1a298d51694c7e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 13/43] fix: order and compare 64-bit collection integers on
 all their bits

---
 source/utils/multi_values.c | 46 +++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index babbdb3..622a7e6 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -29,6 +29,18 @@ static int compare_int_values(const void *a, const void *b)
     return 0;
 }
 
+static int compare_int64_values(const void *a, const void *b)
+{
+    const argus_value_t *va = (const argus_value_t *)a;
+    const argus_value_t *vb = (const argus_value_t *)b;
+
+    if (va->as_int64 < vb->as_int64)
+        return -1;
+    if (va->as_int64 > vb->as_int64)
+        return 1;
+    return 0;
+}
+
 static int compare_string_values(const void *a, const void *b)
 {
     const argus_value_t *va = (const argus_value_t *)a;
@@ -72,9 +84,9 @@ static int compare_map_int_values(const void *a, const void *b)
     const argus_pair_t *pa = (const argus_pair_t *)a;
     const argus_pair_t *pb = (const argus_pair_t *)b;
 
-    if (pa->value.as_int < pb->value.as_int)
+    if (pa->value.as_int64 < pb->value.as_int64)
         return -1;
-    if (pa->value.as_int > pb->value.as_int)
+    if (pa->value.as_int64 > pb->value.as_int64)
         return 1;
     return 0;
 }
@@ -165,6 +177,23 @@ size_t make_int_array_unique(argus_value_t *array, size_t count)
     return unique_count;
 }
 
+static size_t make_int64_array_unique(argus_value_t *array, size_t count)
+{
+    size_t unique_count = 0;
+
+    for (size_t i = 0; i < count; i++) {
+        bool is_duplicate = false;
+
+        for (size_t j = 0; j < unique_count && !is_duplicate; j++)
+            is_duplicate = array[i].as_int64 == array[j].as_int64;
+
+        if (!is_duplicate)
+            array[unique_count++] = array[i];
+    }
+
+    return unique_count;
+}
+
 size_t make_string_array_unique(argus_value_t *array, size_t count)
 {
     if (count <= 1)
@@ -287,7 +316,7 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
             switch (type) {
                 case VALUE_TYPE_INT:
                 case VALUE_TYPE_MAP_INT:
-                    is_duplicate = (map[i].value.as_int == map[j].value.as_int);
+                    is_duplicate = (map[i].value.as_int64 == map[j].value.as_int64);
                     break;
 
                 case VALUE_TYPE_STRING:
@@ -352,10 +381,14 @@ void apply_array_flags(argus_option_t *option)
     if (option->flags & FLAG_SORTED) {
         switch (option->value_type) {
             case VALUE_TYPE_ARRAY_INT:
-            case VALUE_TYPE_VARIADIC_INT:
                 sort_int_array(option->value.as_array, option->value_count);
                 break;
 
+            case VALUE_TYPE_VARIADIC_INT:
+                qsort(option->value.as_array, option->value_count, sizeof(argus_value_t),
+                      compare_int64_values);
+                break;
+
             case VALUE_TYPE_ARRAY_STRING:
             case VALUE_TYPE_VARIADIC_STRING:
                 sort_string_array(option->value.as_array, option->value_count);
@@ -377,10 +410,13 @@ void apply_array_flags(argus_option_t *option)
 
         switch (option->value_type) {
             case VALUE_TYPE_ARRAY_INT:
-            case VALUE_TYPE_VARIADIC_INT:
                 new_count = make_int_array_unique(option->value.as_array, option->value_count);
                 break;
 
+            case VALUE_TYPE_VARIADIC_INT:
+                new_count = make_int64_array_unique(option->value.as_array, option->value_count);
+                break;
+
             case VALUE_TYPE_ARRAY_STRING:
             case VALUE_TYPE_VARIADIC_STRING:
                 new_count = make_string_array_unique(option->value.as_array, option->value_count);
-- 
2.43.0


From 42e6bfee672e6cfc59183830d26928a8e43a5cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 14/43] fix: reject malformed and overflowing integer array
 elements

---
 source/callbacks/handlers/array_int_handler.c | 40 ++++++++++++++-----
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 6853cff..14102b2 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -8,6 +8,9 @@
  */
 
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -48,6 +51,21 @@ const char *search_range_separator(const char *value, const char *separators)
     return NULL;
 }
 
+/**
+ * Parse exactly the text [value, end) as an int
+ */
+static int parse_int(const char *value, const char *end, int *result)
+{
+    char *endptr = NULL;
+
+    errno       = 0;
+    long parsed = strtol(value, &endptr, 10);
+    if (endptr == value || endptr != end || errno == ERANGE || parsed < INT_MIN || parsed > INT_MAX)
+        return -1;
+    *result = (int)parsed;
+    return 0;
+}
+
 /**
  * Parse a string into an integer range
  * Formats supported: "42", "-42", "1-5", "-5-5", "-10--5"
@@ -58,23 +76,23 @@ const char *search_range_separator(const char *value, const char *separators)
  */
 static int parse_int_range(int_argus_range_t *range, const char *value)
 {
+    const char *end = value + strlen(value);
+
     const char *range_separator = search_range_separator(value, "-:");
     if (range_separator != NULL) {
         // Successfully parsed as a range
         // Normalize range using MIN/MAX
-        int start    = strtol(value, NULL, 10);
-        int end      = strtol(range_separator + 1, NULL, 10);
-        range->start = MIN(start, end);
-        range->end   = MAX(start, end);
+        int first, last;
+        if (parse_int(value, range_separator, &first) != 0 ||
+            parse_int(range_separator + 1, end, &last) != 0)
+            return -1;  // Invalid range format
+        range->start = MIN(first, last);
+        range->end   = MAX(first, last);
         return 0;
     }
 
     // Not a range, try as a single value
-    char *endptr = NULL;
-    range->start = strtol(value, &endptr, 10);
-
-    // Check if the entire string was a valid integer
-    if (*endptr != '\0')
+    if (parse_int(value, end, &range->start) != 0)
         return -1;  // Invalid integer format
 
     // Single value case (start = end)
@@ -87,9 +105,9 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
  */
 static void add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
-    for (int i = range->start; i <= range->end; i++) {
+    for (int64_t i = range->start; i <= range->end; i++) {
         adjust_array_size(option);
-        option->value.as_array[option->value_count].as_int = i;
+        option->value.as_array[option->value_count].as_int64 = i;
         option->value_count++;
     }
 }
-- 
2.43.0


From 6d040f8a4c3fb0b1bf662595f7459ed45cfe773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 15/43] fix: reject out of range numbers in maps and variadics

---
 source/callbacks/handlers/map_float_handler.c      | 7 +++++--
 source/callbacks/handlers/map_int_handler.c        | 6 ++++--
 source/callbacks/handlers/variadic_float_handler.c | 8 ++++++--
 source/callbacks/handlers/variadic_int_handler.c   | 7 +++++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index a27055f..06fde90 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -9,6 +9,8 @@
 
 #define _GNU_SOURCE  // NOLINT
 
+#include <errno.h>
+#include <math.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -41,11 +43,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     char *value = separator + 1;
 
     // Convert the string value to float
-    char  *endptr;
+    char *endptr;
+    errno              = 0;
     double float_value = strtod(value, &endptr);
 
     // Check if conversion was successful
-    if (*value == '\0' || *endptr != '\0') {
+    if (endptr == value || *endptr != '\0' || (errno == ERANGE && isinf(float_value))) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid float value for key '%s': '%s'", key, value);
         free(key);
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 6771a77..d7d512b 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -10,6 +10,7 @@
 #define _GNU_SOURCE  // NOLINT
 
 #include <stdint.h>
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -42,11 +43,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     char *value = separator + 1;
 
     // Convert the string value to integer
-    char   *endptr;
+    char *endptr;
+    errno             = 0;
     int64_t int_value = strtoll(value, &endptr, 10);
 
     // Check if conversion was successful
-    if (*value == '\0' || *endptr != '\0') {
+    if (endptr == value || *endptr != '\0' || errno == ERANGE) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
         free(key);
diff --git a/source/callbacks/handlers/variadic_float_handler.c b/source/callbacks/handlers/variadic_float_handler.c
index b054858..7fb2f11 100644
--- a/source/callbacks/handlers/variadic_float_handler.c
+++ b/source/callbacks/handlers/variadic_float_handler.c
@@ -9,6 +9,8 @@
 
 #define _GNU_SOURCE  // NOLINT
 
+#include <errno.h>
+#include <math.h>
 #include <stdlib.h>
 
 #include "argus/errors.h"
@@ -22,10 +24,12 @@ static int set_float_value(argus_option_t *option, char *value)
     if (option->value_capacity == 0)
         return ARGUS_ERROR_MEMORY;
 
-    char  *endptr;
+    char *endptr;
+
+    errno               = 0;
     double parsed_value = strtod(value, &endptr);
 
-    if (*endptr != '\0' || endptr == value)
+    if (*endptr != '\0' || endptr == value || (errno == ERANGE && isinf(parsed_value)))
         return ARGUS_ERROR_INVALID_VALUE;
 
     option->value.as_array[option->value_count].as_float = parsed_value;
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index 4b675a5..1a8302b 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -10,6 +10,7 @@
 #include <stdint.h>
 #define _GNU_SOURCE  // NOLINT
 
+#include <errno.h>
 #include <stdlib.h>
 
 #include "argus/errors.h"
@@ -23,10 +24,12 @@ static int set_int_value(argus_option_t *option, char *value)
     if (option->value_capacity == 0)
         return ARGUS_ERROR_MEMORY;
 
-    char     *endptr;
+    char *endptr;
+
+    errno                  = 0;
     long long parsed_value = strtoll(value, &endptr, 10);
 
-    if (*endptr != '\0' || endptr == value)
+    if (*endptr != '\0' || endptr == value || errno == ERANGE)
         return ARGUS_ERROR_INVALID_VALUE;
 
     option->value.as_array[option->value_count].as_int64 = parsed_value;
-- 
2.43.0


From 8f625a0823a62d774266bfcc76dcb3d012eedae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 16/43] fix: let an exact subcommand name win over longer names
 declared before it

---
 source/core/parsing/parse_args.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index e730c0d..dc7827c 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -20,6 +20,13 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
 {
     argus_option_t *subcommand = NULL;
 
+    for (int i = 0; options[i].type != TYPE_NONE; ++i) {
+        if (options[i].type == TYPE_SUBCOMMAND && strcmp(name, options[i].name) == 0) {
+            *result = &options[i];
+            return ARGUS_SUCCESS;
+        }
+    }
+
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         if (options[i].type == TYPE_SUBCOMMAND && starts_with(name, options[i].name) != NULL) {
             if (subcommand != NULL) {
@@ -27,14 +34,11 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
                                     "'%s' is ambigous and could match:\n"
                                     "  '%s' - %s\n"
                                     "  '%s' - %s",
-                                    name, subcommand->name, subcommand->help, options[i].name,
-                                    options[i].help);
+                                    name, subcommand->name,
+                                    subcommand->help ? subcommand->help : "", options[i].name,
+                                    options[i].help ? options[i].help : "");
                 return ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND;
             }
-            if (subcommand == NULL && strcmp(name, options[i].name) == 0) {
-                *result = &options[i];
-                return ARGUS_SUCCESS;
-            }
             subcommand = &options[i];
         }
     }
-- 
2.43.0


From b64439fd062d58107ab6903968841aa83453d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 17/43] fix: match option path components in full

---
 source/utils/option_lookup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index f213dad..28cee49 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -123,7 +123,8 @@ argus_option_t *find_option_by_active_path(argus_t argus, const char *option_pat
 
         const char *command          = argus.subcommand_stack[i]->name;
         size_t      component_lenght = next_dot - component;
-        if (strncmp(component, command, component_lenght) != 0)
+        if (strlen(command) != component_lenght ||
+            strncmp(component, command, component_lenght) != 0)
             return (NULL);
 
         component = next_dot + 1;
-- 
2.43.0


From abd7ea5a9603e7f7f38fea11bf442193500c7010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 18/43] fix: keep a lone dash and a repeated double dash as
 positionals

---
 source/core/parsing/parse_args.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index dc7827c..ab2aca3 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -55,7 +55,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
     for (int i = 0; i < argc; ++i) {
         char *arg = argv[i];
 
-        if (strcmp(arg, "--") == 0) {
+        if (!only_positional && strcmp(arg, "--") == 0) {
             only_positional = true;
             continue;
         }
@@ -76,7 +76,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
         }
 
         char *short_arg = starts_with("-", arg);
-        if (short_arg != NULL) {
+        if (short_arg != NULL && short_arg[0] != '\0') {
             // Checking if this is a negative number or an option
             if (isdigit(short_arg[0]) || (short_arg[0] == '.' && isdigit(short_arg[1]))) {
                 argus_option_t *pos_opt = find_positional(options, positional_index);
-- 
2.43.0


From 017518c3f78dfd7ebe813a0283ceb8fdb93cfb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 19/43] fix: accept negative numbers for numeric variadic
 positionals

---
 source/core/parsing/parse_args.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index ab2aca3..18cc820 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -81,7 +81,8 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
             if (isdigit(short_arg[0]) || (short_arg[0] == '.' && isdigit(short_arg[1]))) {
                 argus_option_t *pos_opt = find_positional(options, positional_index);
 
-                if (pos_opt && (pos_opt->value_type & VALUE_TYPE_ANY_NUMERIC)) {
+                if (pos_opt && (pos_opt->value_type & (VALUE_TYPE_ANY_NUMERIC | VALUE_TYPE_VARIADIC_INT |
+                                                       VALUE_TYPE_VARIADIC_FLOAT))) {
                     status = handle_positional(argus, options, arg, positional_index++);
                     if (status != ARGUS_SUCCESS)
                         return (status);
-- 
2.43.0


From 345b959cc108ed6d95a0406c8e77d8e0e84905bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 20/43] fix: compare long option names of any length in full

---
 includes/argus/internal/utils.h          |  1 +
 source/core/parsing/option_handle_long.c | 17 ++++++-----------
 source/utils/option_lookup.c             | 13 +++++++++----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/includes/argus/internal/utils.h b/includes/argus/internal/utils.h
index c84d768..9c15821 100644
--- a/includes/argus/internal/utils.h
+++ b/includes/argus/internal/utils.h
@@ -82,6 +82,7 @@ void print_value_array(FILE *stream, argus_valtype_t type, argus_value_t *values
  * Option lookup functions
  */
 argus_option_t       *find_option_by_lname(argus_option_t *options, const char *lname);
+argus_option_t *find_option_by_lname_n(argus_option_t *options, const char *lname, size_t len);
 argus_option_t       *find_option_by_name(argus_option_t *options, const char *name);
 argus_option_t       *find_option_by_sname(argus_option_t *options, char sname);
 argus_option_t       *find_positional(argus_option_t *options, int position);
diff --git a/source/core/parsing/option_handle_long.c b/source/core/parsing/option_handle_long.c
index b2fe6fc..4516d5b 100644
--- a/source/core/parsing/option_handle_long.c
+++ b/source/core/parsing/option_handle_long.c
@@ -11,7 +11,6 @@
 #include <string.h>
 
 #include "argus/errors.h"
-#include "argus/internal/cross_platform.h"
 #include "argus/internal/parsing.h"
 #include "argus/internal/utils.h"
 #include "argus/types.h"
@@ -19,17 +18,13 @@
 int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char **argv, int argc,
                        int *current_index)
 {
-    char  option_name[64] = {0};
-    char *equal_pos       = strchr(arg, '=');
-    if (equal_pos != NULL) {
-        safe_strncpy(option_name, sizeof(option_name), arg, equal_pos - arg);
-    } else
-        safe_strncpy(option_name, sizeof(option_name), arg, sizeof(option_name) - 1);
+    char *equal_pos = strchr(arg, '=');
+    int   name_len  = (int)(equal_pos != NULL ? (size_t)(equal_pos - arg) : strlen(arg));
 
-    argus_option_t *option = find_option_by_lname(options, option_name);
+    argus_option_t *option = find_option_by_lname_n(options, arg, name_len);
     if (option == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT, "Unknown option: '--%s'",
-                            option_name);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT, "Unknown option: '--%.*s'",
+                            name_len, arg);
         return ARGUS_ERROR_INVALID_ARGUMENT;
     }
 
@@ -42,7 +37,7 @@ int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char
             value = argv[*current_index];
         } else {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_VALUE,
-                                "Missing value for option: '--%s'", option_name);
+                                "Missing value for option: '--%.*s'", name_len, arg);
             return ARGUS_ERROR_MISSING_VALUE;
         }
     }
diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index 28cee49..44805fd 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -13,18 +13,23 @@
 #include "argus/internal/utils.h"
 #include "argus/types.h"
 
-argus_option_t *find_option_by_lname(argus_option_t *options, const char *lname)
+argus_option_t *find_option_by_lname_n(argus_option_t *options, const char *lname, size_t len)
 {
-    if (lname == NULL)
-        return (NULL);
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         if (options[i].type == TYPE_OPTION && options[i].lname &&
-            strcmp(options[i].lname, lname) == 0)
+            strlen(options[i].lname) == len && strncmp(options[i].lname, lname, len) == 0)
             return (&options[i]);
     }
     return (NULL);
 }
 
+argus_option_t *find_option_by_lname(argus_option_t *options, const char *lname)
+{
+    if (lname == NULL)
+        return (NULL);
+    return (find_option_by_lname_n(options, lname, strlen(lname)));
+}
+
 argus_option_t *find_option_by_sname(argus_option_t *options, char sname)
 {
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
-- 
2.43.0


From 5e944cf8581f0ec3d8fe66a1b20c99a86a67e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 21/43] fix: read the boolean value of a flag set by the
 environment

---
 source/callbacks/handlers/flag_handler.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/callbacks/handlers/flag_handler.c b/source/callbacks/handlers/flag_handler.c
index 0f1c029..12adce9 100644
--- a/source/callbacks/handlers/flag_handler.c
+++ b/source/callbacks/handlers/flag_handler.c
@@ -8,13 +8,14 @@
  */
 
 #include "argus/errors.h"
-#include "argus/internal/utils.h"
+#include "argus/options.h"
 #include "argus/types.h"
 
 int flag_handler(argus_t *argus, argus_option_t *option, char *arg)
 {
-    UNUSED(argus);
-    UNUSED(arg);
+    // Only the environment passes a value, in the formats of boolean options
+    if (arg != NULL)
+        return (bool_handler(argus, option, arg));
     option->value.as_bool = true;
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From 1527c35d38628755536a766f18338c00ddc50569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 22/43] fix: terminate when help descriptions have no room to
 wrap

---
 source/display/help/help_formatter.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 3762515..37f2baf 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -10,6 +10,7 @@
 #define _GNU_SOURCE  // NOLINT
 
 #include <stdbool.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -166,6 +167,9 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
     if (!text || !*text)
         return;
 
+    // No room for a description column: print without wrapping
+    size_t width = line_width > indent + 2 ? line_width - indent - 2 : SIZE_MAX;
+
     size_t text_len    = strlen(text);
     size_t line_start  = 0;
     size_t current_pos = 0;
@@ -173,7 +177,7 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
 
     while (current_pos < text_len) {
         while (current_pos < text_len &&
-               current_pos - line_start < line_width - indent - 2 &&  // Consider "- " prefix
+               current_pos - line_start < width &&  // Consider "- " prefix
                text[current_pos] != '\n') {
             if (text[current_pos] == ' ')
                 last_space = current_pos;
@@ -187,7 +191,7 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
 
             if (current_pos < text_len)
                 putnchar(' ', indent + 2);
-        } else if (current_pos - line_start >= line_width - indent - 2) {
+        } else if (current_pos - line_start >= width) {
             if (last_space > line_start) {
                 printf("%.*s\n", (int)(last_space - line_start), text + line_start);
                 line_start = last_space + 1;
-- 
2.43.0


From dc63cb5db4e7081ce7d41118036c1cf4535e0890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 23/43] fix: size help buffers for all markers and 64-bit
 bounds

---
 source/callbacks/validators/count_validator.c  | 4 ++--
 source/callbacks/validators/length_validator.c | 4 ++--
 source/callbacks/validators/range_validator.c  | 4 ++--
 source/display/help/help_formatter.c           | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/callbacks/validators/count_validator.c b/source/callbacks/validators/count_validator.c
index fc44cc1..d60514a 100644
--- a/source/callbacks/validators/count_validator.c
+++ b/source/callbacks/validators/count_validator.c
@@ -43,10 +43,10 @@ int count_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_count_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
     return result;
 }
diff --git a/source/callbacks/validators/length_validator.c b/source/callbacks/validators/length_validator.c
index bea096a..013cbdf 100644
--- a/source/callbacks/validators/length_validator.c
+++ b/source/callbacks/validators/length_validator.c
@@ -48,10 +48,10 @@ int length_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_length_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64 " chars", data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64 " chars", data.range.min, data.range.max);
     return result;
 }
diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index ae74337..abf6e09 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -51,10 +51,10 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_range_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
     return result;
 }
diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 37f2baf..48eabd0 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -377,7 +377,7 @@ static char *append_flag_info(char *description, const argus_option_t *option)
     if (!(option->flags & (FLAG_EXIT | FLAG_REQUIRED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL)))
         return description;
 
-    char attrs_buf[32] = {0};
+    char attrs_buf[64] = {0};
 
     if (option->flags & FLAG_EXIT)
         safe_strcat(attrs_buf, sizeof(attrs_buf), " (exit)");
-- 
2.43.0


From 041f93c6e8af86944449fc27562ca7b67101e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 24/43] fix: show long defaults and validator details in full

---
 source/display/help/help_formatter.c | 33 +++++++++++++++-------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 48eabd0..a94b25e 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -9,6 +9,7 @@
 
 #define _GNU_SOURCE  // NOLINT
 
+#include <inttypes.h>
 #include <stdbool.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -273,13 +274,14 @@ static char *append_default_info(char *description, const argus_option_t *option
 
     switch (option->value_type) {
         case VALUE_TYPE_INT:
-            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%d)",
-                     option->default_value.as_int);
+            snprintf(default_buf + default_len, sizeof(default_buf) - default_len,
+                     "%" PRId64 ")", option->default_value.as_int64);
             break;
         case VALUE_TYPE_STRING:
             if (option->default_value.as_string) {
-                snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "\"%s\")",
-                         option->default_value.as_string);
+                description = append_to_description(description, " (default: \"");
+                description = append_to_description(description, option->default_value.as_string);
+                return append_to_description(description, "\")");
             } else
                 snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "null)");
             break;
@@ -320,27 +322,28 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
             if (validator->formatter) {
                 char *validator_desc = validator->formatter(validator->data);
                 if (validator_desc) {
-                    char validator_info[256] = {0};
+                    const char *before = NULL;
+                    const char *after  = ")";
 
                     if (validator->func == regex_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (pattern: %s)",
-                                 validator_desc);
+                        before = " (pattern: ";
                     } else if (validator->func == choices_string_validator ||
                                validator->func == choices_int_validator ||
                                validator->func == choices_float_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " [%s]", validator_desc);
+                        before = " [";
+                        after  = "]";
                     } else if (validator->func == length_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (%s)", validator_desc);
+                        before = " (";
                     } else if (validator->func == range_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (range: %s)",
-                                 validator_desc);
+                        before = " (range: ";
                     } else if (validator->func == count_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (count: %s)",
-                                 validator_desc);
+                        before = " (count: ";
                     }
 
-                    if (validator_info[0] != '\0') {
-                        description = append_to_description(description, validator_info);
+                    if (before != NULL) {
+                        description = append_to_description(description, before);
+                        description = append_to_description(description, validator_desc);
+                        description = append_to_description(description, after);
                     }
 
                     free(validator_desc);
-- 
2.43.0


From 805835851cffa6b8eab22c829655d14e34618032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 25/43] fix: do not truncate the hint of a collection in help

---
 includes/argus/internal/help.h       |  9 ---------
 source/display/help/help_formatter.c | 13 +++----------
 2 files changed, 3 insertions(+), 19 deletions(-)

diff --git a/includes/argus/internal/help.h b/includes/argus/internal/help.h
index e44b47a..45bbe60 100644
--- a/includes/argus/internal/help.h
+++ b/includes/argus/internal/help.h
@@ -122,15 +122,6 @@ const char *get_base_type_name(argus_valtype_t type);
  */
 const char *get_collection_format(argus_valtype_t type);
 
-/**
- * Format a collection hint
- *
- * @param format     Format pattern
- * @param type_name  Base type name
- * @return           Formatted hint string (static buffer)
- */
-char *format_collection_hint(const char *format, const char *type_name);
-
 /**
  * Print wrapped text with proper indentation
  *
diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index a94b25e..c486407 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -63,14 +63,6 @@ const char *get_collection_format(argus_valtype_t type)
     return NULL;
 }
 
-char *format_collection_hint(const char *format, const char *type_name)
-{
-    static char buffer[64];
-
-    snprintf(buffer, sizeof(buffer), format, type_name);
-    return buffer;
-}
-
 bool is_short_hint(argus_t *argus, const char *hint)
 {
     if (!hint)
@@ -232,8 +224,9 @@ size_t print_option_name(argus_t *argus, const argus_option_t *option, size_t in
             const char *collection_format = get_collection_format(option->value_type);
 
             if (collection_format) {
-                const char *format_str = format_collection_hint(collection_format, smart_hint);
-                name_len += printf(" <%s>", format_str);
+                name_len += printf(" <");
+                name_len += printf(collection_format, smart_hint);
+                name_len += printf(">");
             } else
                 name_len += printf(" <%s>", smart_hint);
             free(smart_hint);
-- 
2.43.0


From 82deebc0ec400c6c6f8162ee48c0c6cda78547e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 26/43] fix: list float choices with enough digits to be usable

---
 source/callbacks/validators/choices_validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index a617ac1..ef4c820 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -128,7 +128,7 @@ char *format_choices_validator(validator_data_t data)
                 safe_strcat(result, total_length + 1, item);
                 break;
             case VALUE_TYPE_FLOAT:
-                snprintf(item, sizeof(item), "%.2g", choices->as_floats[i]);
+                snprintf(item, sizeof(item), "%.10g", choices->as_floats[i]);
                 safe_strcat(result, total_length + 1, item);
                 break;
             default:
-- 
2.43.0


From baf758aaae6da1cb14498670e855fd0c46ff4108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 27/43] fix: leave hidden subcommands out of help and command
 lists

---
 source/display/command_display.c     | 10 ++++++----
 source/display/help/help_organizer.c |  3 +++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/display/command_display.c b/source/display/command_display.c
index 4c4e5a7..f26fae7 100644
--- a/source/display/command_display.c
+++ b/source/display/command_display.c
@@ -48,7 +48,7 @@ static void print_subcommand_paths(const argus_option_t *options, const char *ba
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &options[i];
 
-        if (option->type != TYPE_SUBCOMMAND)
+        if (option->type != TYPE_SUBCOMMAND || (option->flags & FLAG_HIDDEN))
             continue;
 
         if (!current_group_started && !*first_in_group)
@@ -114,7 +114,7 @@ static bool print_simple_commands_group(argus_t *argus)
     for (int i = 0; argus->options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &argus->options[i];
 
-        if (is_effectively_simple_command(option)) {
+        if (is_effectively_simple_command(option) && !(option->flags & FLAG_HIDDEN)) {
             char command_path[COMMAND_BUFFER_SIZE];
             snprintf(command_path, sizeof(command_path), "%s %s", argus->program_name,
                      option->name);
@@ -133,7 +133,8 @@ static void print_command_families(argus_t *argus, bool printed_simple_commands)
     for (int i = 0; argus->options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &argus->options[i];
 
-        if (option->type != TYPE_SUBCOMMAND || !has_executable_subcommands(option))
+        if (option->type != TYPE_SUBCOMMAND || (option->flags & FLAG_HIDDEN) ||
+            !has_executable_subcommands(option))
             continue;
 
         if (printed_simple_commands || !first_family)
@@ -151,7 +152,8 @@ static void print_command_families(argus_t *argus, bool printed_simple_commands)
         for (int j = 0; option->sub_options[j].type != TYPE_NONE; ++j) {
             const argus_option_t *sub_option = &option->sub_options[j];
 
-            if (sub_option->type != TYPE_SUBCOMMAND || sub_option->action == NULL)
+            if (sub_option->type != TYPE_SUBCOMMAND || sub_option->action == NULL ||
+                (sub_option->flags & FLAG_HIDDEN))
                 continue;
 
             char full_command_path[FULL_PATH_BUFFER_SIZE];
diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index 2f34084..4962a4f 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -103,6 +103,9 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 break;
 
             case TYPE_SUBCOMMAND:
+                if (option->flags & FLAG_HIDDEN)
+                    continue;
+
                 add_option_to_list(&data->subcommands, option);
                 break;
 
-- 
2.43.0


From a0880e9e0f03614bbc898e2b4ff736d404e538e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 28/43] fix: describe every error code

---
 source/core/error.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/core/error.c b/source/core/error.c
index 28921ae..8ed0a15 100644
--- a/source/core/error.c
+++ b/source/core/error.c
@@ -56,6 +56,24 @@ const char *argus_strerror(argus_error_type_t error)
             return "Missing help option";
         case ARGUS_ERROR_STACK_OVERFLOW:
             return "Error stack overflow";
+        case ARGUS_STRUCT_ERROR:
+            return "Invalid structure";
+        case ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND:
+            return "Ambiguous subcommand";
+        case ARGUS_ERROR_NO_VALUE:
+            return "No value";
+        case ARGUS_ERROR_INVALID_TYPE:
+            return "Invalid type";
+        case ARGUS_ERROR_INVALID_INDEX:
+            return "Invalid index";
+        case ARGUS_ERROR_INVALID_KEY:
+            return "Invalid key";
+        case ARGUS_ERROR_MEMORY:
+            return "Memory allocation failed";
+        case ARGUS_ERROR_INTERNAL:
+            return "Internal error";
+        case ARGUS_ERROR_UNSUPPORTED:
+            return "Unsupported operation";
         default:
             return "Unknown error";
     }
-- 
2.43.0


From 2107cd4e711ae09a3dbd4fde12c189c9e7ccf055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 29/43] fix: accept sorted and unique variadic positionals in
 definition checks

---
 source/core/validation/validate_arguments.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 5f9b03c..4ec9698 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -143,9 +143,7 @@ int validate_positional(argus_t *argus, argus_option_t *option)
             ARGUS_STRUCT_ERROR(option, "Invalid flags for POSITIONAL_MANY argument");
             status = ARGUS_ERROR_INVALID_FLAG;
         }
-    }
-
-    if (option->flags & ~POSITIONAL_FLAG_MASK) {
+    } else if (option->flags & ~POSITIONAL_FLAG_MASK) {
         ARGUS_STRUCT_ERROR(option, "Invalid flags for positional");
         status = ARGUS_ERROR_INVALID_FLAG;
     }
-- 
2.43.0


From 478d185dc701cc86d942a0bb7cff17da80fb420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 30/43] fix: do not resolve group titles as options

---
 source/utils/option_lookup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index 44805fd..fb35a52 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -56,7 +56,8 @@ argus_option_t *find_positional(argus_option_t *options, int position)
 argus_option_t *find_option_by_name(argus_option_t *options, const char *name)
 {
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
-        if (options[i].name && strcmp(options[i].name, name) == 0) {
+        if (options[i].type != TYPE_GROUP && options[i].name &&
+            strcmp(options[i].name, name) == 0) {
             return (&options[i]);
         }
     }
-- 
2.43.0


From e2bee489e81cd80dbb403ef7bfd6e24d49ce3ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 31/43] fix: anchor the IPv4 pattern at the end

---
 includes/argus/regex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/includes/argus/regex.h b/includes/argus/regex.h
index e756311..088c008 100644
--- a/includes/argus/regex.h
+++ b/includes/argus/regex.h
@@ -97,7 +97,7 @@
     /* IPv4 address: 0-255.0-255.0-255.0-255 */
     #define ARGUS_RE_IPV4                                                                          \
         MAKE_REGEX("^((25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-"  \
-                   "9][0-9]?)",                                                                    \
+                   "9][0-9]?)$",                                                                   \
                    "IPv4")
 
     /* Simplified IPv6 pattern */
-- 
2.43.0


From d523e8904dc8ec25af004fa4227a8a910562295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 32/43] fix: do not let a pattern's end anchor ignore a final
 newline

---
 source/callbacks/validators/regex_validator.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/callbacks/validators/regex_validator.c b/source/callbacks/validators/regex_validator.c
index 14e697c..b07d556 100644
--- a/source/callbacks/validators/regex_validator.c
+++ b/source/callbacks/validators/regex_validator.c
@@ -45,8 +45,9 @@ int regex_validator(argus_t *argus, void *value_ptr, validator_data_t data)
 
     int         errorcode;
     PCRE2_SIZE  erroroffset;
-    pcre2_code *re = pcre2_compile((PCRE2_SPTR)pattern, PCRE2_ZERO_TERMINATED, 0, &errorcode,
-                                   &erroroffset, NULL);
+    // '$' only matches at the very end of the value, not before a final newline
+    pcre2_code *re = pcre2_compile((PCRE2_SPTR)pattern, PCRE2_ZERO_TERMINATED,
+                                   PCRE2_DOLLAR_ENDONLY, &errorcode, &erroroffset, NULL);
 
     if (re == NULL) {
         PCRE2_UCHAR buffer[256];
-- 
2.43.0


From 43feda705c5ca2d45bfb6e9e1396e56c03448742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 33/43] fix: refuse white space in URLs and accept
 one-character hosts

---
 includes/argus/regex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/includes/argus/regex.h b/includes/argus/regex.h
index 088c008..7d05935 100644
--- a/includes/argus/regex.h
+++ b/includes/argus/regex.h
@@ -124,10 +124,10 @@
         MAKE_REGEX("^(?=.{1,253}$)((?!-)[A-Za-z0-9-]{1,63}(?<!-)\\.)+[A-Za-z]{2,}$", "domain")
 
     /* URL pattern - supports many protocols */
-    #define ARGUS_RE_URL  MAKE_REGEX("^([a-zA-Z][a-zA-Z0-9+.-]*):\\/\\/[^\\s/$.?#].[^\\s]*$", "URL")
+    #define ARGUS_RE_URL  MAKE_REGEX("^([a-zA-Z][a-zA-Z0-9+.-]*):\\/\\/[^\\s/$.?#][^\\s]*$", "URL")
 
     /* More specific URL patterns */
-    #define ARGUS_RE_HTTP MAKE_REGEX("^https?:\\/\\/[^\\s/$.?#].[^\\s]*$", "HTTP-URL")
+    #define ARGUS_RE_HTTP MAKE_REGEX("^https?:\\/\\/[^\\s/$.?#][^\\s]*$", "HTTP-URL")
 
     /* Basic port number (1-65535) */
     #define ARGUS_RE_PORT                                                                          \
-- 
2.43.0


From 12b6d0f66075e85278f7ee15aab749665525c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 34/43] fix: report a failed growth of a collection instead of
 writing past it

---
 source/callbacks/handlers/array_float_handler.c     |  4 ++++
 source/callbacks/handlers/array_int_handler.c       | 10 ++++++++--
 source/callbacks/handlers/array_string_handler.c    |  2 +-
 source/callbacks/handlers/map_bool_handler.c        |  6 ++++++
 source/callbacks/handlers/map_float_handler.c       |  6 ++++++
 source/callbacks/handlers/map_int_handler.c         |  6 ++++++
 source/callbacks/handlers/map_string_handler.c      |  7 +++++++
 source/callbacks/handlers/variadic_float_handler.c  |  2 +-
 source/callbacks/handlers/variadic_int_handler.c    |  2 +-
 source/callbacks/handlers/variadic_string_handler.c |  2 +-
 10 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index db5cd31..66c4e0d 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -29,6 +29,10 @@ static int set_value(argus_t *argus, argus_option_t *option, char *value)
     }
 
     adjust_array_size(option);
+    if (option->value_count >= option->value_capacity) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '%s'", value);
+        return ARGUS_ERROR_MEMORY;
+    }
     option->value.as_array[option->value_count].as_float = parsed_value;
     option->value_count++;
     return ARGUS_SUCCESS;
diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 14102b2..a84b94f 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -103,13 +103,16 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
 /**
  * Add a range of integers to the option's value array
  */
-static void add_range_values(argus_option_t *option, const int_argus_range_t *range)
+static int add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
     for (int64_t i = range->start; i <= range->end; i++) {
         adjust_array_size(option);
+        if (option->value_count >= option->value_capacity)
+            return ARGUS_ERROR_MEMORY;
         option->value.as_array[option->value_count].as_int64 = i;
         option->value_count++;
     }
+    return ARGUS_SUCCESS;
 }
 
 /**
@@ -124,7 +127,10 @@ static int set_value(argus_t *argus, argus_option_t *option, char *value)
                             "Invalid integer or range format: '%s'", value);
         return ARGUS_ERROR_INVALID_FORMAT;
     }
-    add_range_values(option, &range);
+    if (add_range_values(option, &range) != ARGUS_SUCCESS) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '%s'", value);
+        return ARGUS_ERROR_MEMORY;
+    }
     return (ARGUS_SUCCESS);
 }
 
diff --git a/source/callbacks/handlers/array_string_handler.c b/source/callbacks/handlers/array_string_handler.c
index 02b7222..d8235a4 100644
--- a/source/callbacks/handlers/array_string_handler.c
+++ b/source/callbacks/handlers/array_string_handler.c
@@ -21,7 +21,7 @@
 static int set_value(argus_option_t *option, char *value)
 {
     adjust_array_size(option);
-    if (option->value_capacity == 0)  // adjust_array_size failed
+    if (option->value_count >= option->value_capacity)  // adjust_array_size failed
         return ARGUS_ERROR_MEMORY;
 
     char *dup_value = safe_strdup(value);
diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 1603bd2..542e040 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -99,6 +99,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     } else {
         // Key doesn't exist, add new entry
         adjust_map_size(option);
+        if (option->value_count >= option->value_capacity) {
+            free(key);
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY,
+                                "Failed to allocate memory for pair '%s'", pair);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key           = key;
         option->value.as_map[option->value_count].value.as_bool = (bool)bool_value;
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 06fde90..b49a31e 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -65,6 +65,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     } else {
         // Key doesn't exist, add new entry
         adjust_map_size(option);
+        if (option->value_count >= option->value_capacity) {
+            free(key);
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY,
+                                "Failed to allocate memory for pair '%s'", pair);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_float = float_value;
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index d7d512b..0bb8da4 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -65,6 +65,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     } else {
         // Key doesn't exist, add new entry
         adjust_map_size(option);
+        if (option->value_count >= option->value_capacity) {
+            free(key);
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY,
+                                "Failed to allocate memory for pair '%s'", pair);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_int64 = int_value;
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index c1b3b07..1714b06 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -58,6 +58,13 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         // Key doesn't exist, add new entry
 
         adjust_map_size(option);
+        if (option->value_count >= option->value_capacity) {
+            free(key);
+            free(value);
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY,
+                                "Failed to allocate memory for pair '%s'", pair);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key             = key;
         option->value.as_map[option->value_count].value.as_string = value;
diff --git a/source/callbacks/handlers/variadic_float_handler.c b/source/callbacks/handlers/variadic_float_handler.c
index 7fb2f11..f0275c9 100644
--- a/source/callbacks/handlers/variadic_float_handler.c
+++ b/source/callbacks/handlers/variadic_float_handler.c
@@ -21,7 +21,7 @@
 static int set_float_value(argus_option_t *option, char *value)
 {
     adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (option->value_count >= option->value_capacity)  // adjust_array_size failed
         return ARGUS_ERROR_MEMORY;
 
     char *endptr;
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index 1a8302b..380ed79 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -21,7 +21,7 @@
 static int set_int_value(argus_option_t *option, char *value)
 {
     adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (option->value_count >= option->value_capacity)  // adjust_array_size failed
         return ARGUS_ERROR_MEMORY;
 
     char *endptr;
diff --git a/source/callbacks/handlers/variadic_string_handler.c b/source/callbacks/handlers/variadic_string_handler.c
index e13b314..74e618e 100644
--- a/source/callbacks/handlers/variadic_string_handler.c
+++ b/source/callbacks/handlers/variadic_string_handler.c
@@ -21,7 +21,7 @@
 static int set_string_value(argus_option_t *option, char *value)
 {
     adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (option->value_count >= option->value_capacity)  // adjust_array_size failed
         return ARGUS_ERROR_MEMORY;
 
     char *dup_value = safe_strdup(value);
-- 
2.43.0


From 1a458d495d961b8993b775bdf2699e60824821ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 35/43] fix: make map values unique even when memory is short

---
 source/utils/multi_values.c | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 622a7e6..95d7d6b 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -295,24 +295,13 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
     if (count <= 1)
         return count;
 
-    // Allocate array to track duplicates
-    bool *duplicates = calloc(count, sizeof(bool));
-    if (!duplicates)
-        return count;  // Failed to allocate, return unchanged
-
     size_t unique_count = 0;
 
-    // Mark duplicates
+    // Keep each pair whose value was not seen before, in order
     for (size_t i = 0; i < count; i++) {
-        if (duplicates[i])
-            continue;
-
-        for (size_t j = i + 1; j < count; j++) {
-            if (duplicates[j])
-                continue;
-
-            bool is_duplicate = false;
+        bool is_duplicate = false;
 
+        for (size_t j = 0; j < unique_count && !is_duplicate; j++) {
             switch (type) {
                 case VALUE_TYPE_INT:
                 case VALUE_TYPE_MAP_INT:
@@ -341,18 +330,10 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
                 default:
                     break;
             }
-
-            if (is_duplicate)
-                duplicates[j] = true;
         }
-    }
 
-    // Rebuild the array without duplicates
-    for (size_t i = 0; i < count; i++) {
-        if (!duplicates[i]) {
-            if (i != unique_count)
-                map[unique_count] = map[i];
-            unique_count++;
+        if (!is_duplicate) {
+            map[unique_count++] = map[i];
         } else {
             // Free duplicate string keys
             free((void *)map[i].key);
@@ -364,7 +345,6 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
         }
     }
 
-    free(duplicates);
     return unique_count;
 }
 
-- 
2.43.0


From 77cc1c081301088542dcfa0684068edd264fca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 36/43] fix: recognise repeated infinities as duplicates

---
 source/utils/multi_values.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 95d7d6b..beadfca 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -66,6 +66,12 @@ static int compare_float_values(const void *a, const void *b)
     return 0;
 }
 
+/* Floats closer than a small epsilon, or equal infinities, are the same value */
+static bool same_float(double a, double b)
+{
+    return a == b || fabs(a - b) < 0.0000001;
+}
+
 static int compare_map_keys(const void *a, const void *b)
 {
     const argus_pair_t *pa = (const argus_pair_t *)a;
@@ -232,8 +238,7 @@ size_t make_float_array_unique(argus_value_t *array, size_t count)
         bool is_duplicate = false;
 
         for (size_t j = 0; j < unique_count; j++) {
-            // Use small epsilon for float comparison
-            if (fabs(array[i].as_float - array[j].as_float) < 0.0000001) {
+            if (same_float(array[i].as_float, array[j].as_float)) {
                 is_duplicate = true;
                 break;
             }
@@ -318,8 +323,7 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
 
                 case VALUE_TYPE_FLOAT:
                 case VALUE_TYPE_MAP_FLOAT:
-                    is_duplicate =
-                        (fabs(map[i].value.as_float - map[j].value.as_float) < 0.0000001);
+                    is_duplicate = same_float(map[i].value.as_float, map[j].value.as_float);
                     break;
 
                 case VALUE_TYPE_BOOL:
-- 
2.43.0


From d83934ba58be179e654696aaaf4ff0d405a8bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 37/43] fix: do not crash printing help when a group cannot be
 allocated

---
 source/display/help/help_organizer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index 4962a4f..e4db8ac 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -93,7 +93,8 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 if (current_group != NULL) {
                     if (group == NULL)
                         group = find_or_create_group(data, current_group);
-                    add_option_to_list(&group->options, option);
+                    if (group != NULL)
+                        add_option_to_list(&group->options, option);
                 } else
                     add_option_to_list(&data->ungrouped, option);
                 break;
-- 
2.43.0


From a777c8405ff024e0ade5fcf54bcb7db5c3bab723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 38/43] fix: keep the value of floating-point defaults

---
 includes/argus/options.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/includes/argus/options.h b/includes/argus/options.h
index af3565c..c18730a 100644
--- a/includes/argus/options.h
+++ b/includes/argus/options.h
@@ -72,8 +72,14 @@ ARGUS_API char *format_choices_validator(validator_data_t data);
 # define ARGUS_DEBUG_INFO            .line = 0, .file = NULL
 #endif /* ARGUS_DEBUG */
 #define DEFINE_NAME(lname, sname) ((lname) ? (lname) : CHAR_TO_STRING(sname))
-#define DEFAULT(val)            .value = (argus_value_t){ .raw = (uintptr_t)(val) },         \
-                                .default_value = (argus_value_t){ .raw = (uintptr_t)(val) }, \
+#define _FLOAT_OR_ZERO_(val)    _Generic((val), float: (val), double: (val), default: 0.0)
+#define _DEFAULT_VALUE_(val)                                             \
+    _Generic((val),                                                      \
+        float: (argus_value_t){ .as_float = _FLOAT_OR_ZERO_(val) },      \
+        double: (argus_value_t){ .as_float = _FLOAT_OR_ZERO_(val) },     \
+        default: (argus_value_t){ .raw = (uintptr_t)(val) })
+#define DEFAULT(val)            .value = _DEFAULT_VALUE_(val),         \
+                                .default_value = _DEFAULT_VALUE_(val), \
                                 .is_set = true, \
                                 .have_default = true
 #define HANDLER(fn)             .handler = (argus_handler_t)(fn)
-- 
2.43.0


From 56e66b9ab85ddb08355851791725087537e2c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 39/43] fix: show the validator of a positional in its help

---
 source/display/help/help_formatter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index c486407..b7fb268 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -301,7 +301,8 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
         return description;
 
     bool validator_used_in_hint = false;
-    if (has_single_validator(option) && !option->hint && option->validators[0]->formatter) {
+    if (option->type == TYPE_OPTION && has_single_validator(option) && !option->hint &&
+        option->validators[0]->formatter) {
         char *validator_hint = option->validators[0]->formatter(option->validators[0]->data);
         if (validator_hint && is_short_hint(argus, validator_hint))
             validator_used_in_hint = true;
-- 
2.43.0


From dd76499d59a0a843e6ed1da027f6a324b4cfbdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 40/43] fix: no line break after a description that fills its
 last line

---
 source/display/help/help_formatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index b7fb268..d80664f 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -184,7 +184,7 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
 
             if (current_pos < text_len)
                 putnchar(' ', indent + 2);
-        } else if (current_pos - line_start >= width) {
+        } else if (current_pos < text_len) {
             if (last_space > line_start) {
                 printf("%.*s\n", (int)(last_space - line_start), text + line_start);
                 line_start = last_space + 1;
-- 
2.43.0


From a0a230ddb5489cf837be705c02b9897b59d1738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 41/43] fix: stop checking definitions below the maximum depth

---
 source/core/validation/validate_structure.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/core/validation/validate_structure.c b/source/core/validation/validate_structure.c
index acb8db8..cc01891 100644
--- a/source/core/validation/validate_structure.c
+++ b/source/core/validation/validate_structure.c
@@ -206,8 +206,7 @@ int validate_structure(argus_t *argus, argus_option_t *options)
                 ARGUS_STRUCT_ERROR(option, "Subcommand depth exceeds maximum allowed (%d)",
                                    MAX_SUBCOMMAND_DEPTH);
                 status = ARGUS_ERROR_MALFORMED_OPTION;
-            }
-            if (validate_structure(argus, option->sub_options) != ARGUS_SUCCESS)
+            } else if (validate_structure(argus, option->sub_options) != ARGUS_SUCCESS)
                 status = ARGUS_ERROR_MALFORMED_OPTION;
             subcommand_depth--;
         }
-- 
2.43.0


From d720fcaec92b111eb129e012b794c356b285caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 42/43] fix: show custom validator descriptions in option help

A custom validator's formatter text was fetched and dropped unless it was short enough to be used as
the value hint; the documentation shows it in parentheses after the help text.
---
 source/display/help/help_formatter.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index d80664f..cf94437 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -316,7 +316,7 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
             if (validator->formatter) {
                 char *validator_desc = validator->formatter(validator->data);
                 if (validator_desc) {
-                    const char *before = NULL;
+                    const char *before = " (";
                     const char *after  = ")";
 
                     if (validator->func == regex_validator) {
@@ -326,19 +326,15 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
                                validator->func == choices_float_validator) {
                         before = " [";
                         after  = "]";
-                    } else if (validator->func == length_validator) {
-                        before = " (";
                     } else if (validator->func == range_validator) {
                         before = " (range: ";
                     } else if (validator->func == count_validator) {
                         before = " (count: ";
                     }
 
-                    if (before != NULL) {
-                        description = append_to_description(description, before);
-                        description = append_to_description(description, validator_desc);
-                        description = append_to_description(description, after);
-                    }
+                    description = append_to_description(description, before);
+                    description = append_to_description(description, validator_desc);
+                    description = append_to_description(description, after);
 
                     free(validator_desc);
                 }
-- 
2.43.0


From c1b84961ecb3ea053af4dbb324766a5b1c9ffc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 43/43] fix: show the validator of a flag in its help

---
 source/display/help/help_formatter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index cf94437..b5b6feb 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -301,8 +301,8 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
         return description;
 
     bool validator_used_in_hint = false;
-    if (option->type == TYPE_OPTION && has_single_validator(option) && !option->hint &&
-        option->validators[0]->formatter) {
+    if (option->type == TYPE_OPTION && option->value_type != VALUE_TYPE_FLAG &&
+        has_single_validator(option) && !option->hint && option->validators[0]->formatter) {
         char *validator_hint = option->validators[0]->formatter(option->validators[0]->data);
         if (validator_hint && is_short_hint(argus, validator_hint))
             validator_used_in_hint = true;
-- 
2.43.0

