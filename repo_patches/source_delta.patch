From 2b6c855238a5a347f78e0e833d1ed2efc3d7ee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 01/29] fix: keep non-ASCII text intact when parsing

Each byte was converted to a rune on its own, so every multi-byte
character in a key or string was re-encoded as Latin-1.
---
 json/JSON.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 475ee08..aab923a 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -161,9 +161,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		i := *index
 		previous_value := ""
 		if *index > 0 {
-			previous_value = string(json_string[i-1])
+			previous_value = json_string[i-1 : i]
 		}
-		value := string(json_string[i])
+		value := json_string[i : i+1]
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
-- 
2.43.0


From 394c778d43cba29211028a56c09f31c0406c4002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 02/29] fix: report malformed json instead of panicking

Content after the closing bracket of the document popped an empty stack,
and a value or key made of one quote was sliced out of range.
---
 json/JSON.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index aab923a..cbe3dac 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -126,7 +126,7 @@ func Parse(s string) (*Map, []error) {
 
 func unquote_key_value(key string) (string, []error) {
 	var errors []error
-	if strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
+	if len(key) >= 2 && strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
 		key = (key)[1:(len(key) - 1)]
 	} else {
 		errors = append(errors, fmt.Errorf("error: key does not start with  \" or end with \""))
@@ -167,6 +167,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
+		if parent_map != nil && len(*list) == 0 {
+			errors = append(errors, fmt.Errorf("error: unexpected content after the end of the json at index %d", i))
+			return nil, errors
+		}
+
 		if !parsing_string {
 			if value == "\"" && previous_value != "\\" {
 				parsing_string = true
@@ -468,7 +473,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	string_value = strings.Replace(string_value, "\\\"", "\"", -1)
 
 	if ((*list)[len(*list)-1]).IsMap() {
-		if strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
+		if len(key_value) >= 2 && strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
 			dequoted_value := (key_value)[1:(len(key_value) - 1)]
 			key_value = dequoted_value
 		} else {
@@ -477,7 +482,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	}
 
 	if strings.Contains(string_value, "\"") {
-		if strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
+		if len(string_value) >= 2 && strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
 			data_type = "string"
 			dequoted_value := (string_value)[1:(len(string_value) - 1)]
 			string_value = dequoted_value
-- 
2.43.0


From a52702a1c5b8774ebbdaa338b9c10db004fcf7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 03/29] fix: decode and encode string escapes so text with
 backslashes survives saving

---
 json/JSON.go | 114 +++++++++++++++++++++++++++++++++++++++++++--------
 json/Map.go  |   8 +---
 2 files changed, 98 insertions(+), 24 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index cbe3dac..798f136 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -7,6 +7,8 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	common "github.com/matehaxor03/holistic_common/common"
 )
@@ -20,6 +22,82 @@ func cloneString(value *string) *string {
 	return &temp
 }
 
+func escapeString(value string) string {
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		character := value[i]
+		switch {
+		case character == '"' || character == '\\':
+			result.WriteByte('\\')
+			result.WriteByte(character)
+		case character == '\n':
+			result.WriteString("\\n")
+		case character == '\r':
+			result.WriteString("\\r")
+		case character == '\t':
+			result.WriteString("\\t")
+		case character < 0x20:
+			result.WriteString(fmt.Sprintf("\\u%04x", character))
+		default:
+			result.WriteByte(character)
+		}
+	}
+	return result.String()
+}
+
+func unescapeString(value string) string {
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		if value[i] != '\\' || i+1 == len(value) {
+			result.WriteByte(value[i])
+			continue
+		}
+
+		i++
+		switch value[i] {
+		case '"', '\\', '/':
+			result.WriteByte(value[i])
+		case 'b':
+			result.WriteByte('\b')
+		case 'f':
+			result.WriteByte('\f')
+		case 'n':
+			result.WriteByte('\n')
+		case 'r':
+			result.WriteByte('\r')
+		case 't':
+			result.WriteByte('\t')
+		case 'u':
+			code, found := unicodeEscape(value, i)
+			if !found {
+				result.WriteString("\\u")
+				continue
+			}
+			i += 4
+			if utf16.IsSurrogate(code) && i+2 < len(value) && value[i+1] == '\\' && value[i+2] == 'u' {
+				low, low_found := unicodeEscape(value, i+2)
+				if combined := utf16.DecodeRune(code, low); low_found && combined != utf8.RuneError {
+					code = combined
+					i += 6
+				}
+			}
+			result.WriteRune(code)
+		default:
+			result.WriteByte('\\')
+			result.WriteByte(value[i])
+		}
+	}
+	return result.String()
+}
+
+func unicodeEscape(value string, index int) (rune, bool) {
+	if index+5 > len(value) {
+		return 0, false
+	}
+	code, code_error := strconv.ParseUint(value[index+1:index+5], 16, 16)
+	return rune(code), code_error == nil
+}
+
 func getTimeNow() *time.Time {
 	now := time.Now()
 	return &now
@@ -136,7 +214,7 @@ func unquote_key_value(key string) (string, []error) {
 		return "", errors
 	}
 
-	return key, nil
+	return unescapeString(key), nil
 }
 
 func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map) (*Map, []error) {
@@ -156,6 +234,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 	temp_mode := cloneString(mode)
 	current_mode := *temp_mode
 	var parent_map *Map = nil
+	escaped := false
 
 	for *index < uint64(len(json_string)) {
 		i := *index
@@ -164,6 +243,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 			previous_value = json_string[i-1 : i]
 		}
 		value := json_string[i : i+1]
+		escaped = previous_value == "\\" && !escaped
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
@@ -173,7 +253,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		}
 
 		if !parsing_string {
-			if value == "\"" && previous_value != "\\" {
+			if value == "\"" && !escaped {
 				parsing_string = true
 				opention_quote, opention_quote_errors := metrics.GetInt("opening_quote")
 				if opention_quote_errors != nil {
@@ -211,7 +291,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				}
 			}
 		} else {
-			if value == "\"" && previous_value != "\\" {
+			if value == "\"" && !escaped {
 				parsing_string = false
 				closing_quote, closing_quote_errors := metrics.GetInt("closing_quote")
 				if closing_quote_errors != nil {
@@ -273,7 +353,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 						current_mode = mode_looking_for_next_value_or_end
 					}
 				}
-			} else if value == "\"" && previous_value != "\\" {
+			} else if value == "\"" && !escaped {
 				current_mode = mode_looking_for_key_name
 				temp_key_r += value
 			}
@@ -282,7 +362,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		}
 
 		if current_mode == mode_looking_for_key_name {
-			if value == "\"" && previous_value != "\\" {
+			if value == "\"" && !escaped {
 				current_mode = mode_looking_for_key_name_column
 			}
 			temp_key_r += value
@@ -469,8 +549,8 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	key_value = strings.TrimSpace(key_value)
 	string_value = strings.TrimSpace(string_value)
 
-	key_value = strings.Replace(key_value, "\\\"", "\"", -1)
-	string_value = strings.Replace(string_value, "\\\"", "\"", -1)
+	key_value = unescapeString(key_value)
+	string_value = unescapeString(string_value)
 
 	if ((*list)[len(*list)-1]).IsMap() {
 		if len(key_value) >= 2 && strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
@@ -799,40 +879,40 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		temp_string := temp_value.(string)
 		clone_string := common.CloneString(&temp_string)
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(escapeString(*clone_string))
 		json.WriteString("\"")
 	case "*string":
 		clone_string := common.CloneString(temp_value.(*string))
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(escapeString(*clone_string))
 		json.WriteString("\"")
 	case "error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value.(error)), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value.(error))))
 		json.WriteString("\"")
 	case "*error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", *(temp_value.(*error))), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", *(temp_value.(*error)))))
 		json.WriteString("\"")
 	case "*url.Error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error()), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error())))
 		json.WriteString("\"")
 	case "exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "*exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "*errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "bool":
 		if temp_value.(bool) {
@@ -924,7 +1004,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("]")
 	case "func(string, *string, string, string) []error", "func(json.Map) []error", "*func(json.Map) []error", "*func(string) []error", "func(string) []error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", rep), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", rep)))
 		json.WriteString("\"")
 	case "*time.Time":
 		json.WriteString("\"")
diff --git a/json/Map.go b/json/Map.go
index 30e06f5..23a0533 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -331,14 +331,8 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		json.WriteString("{")
 		for i := 0; i < length; i++ {
 			key := (temp_keys)[i]
-			key_clone := common.CloneString(&key)
-			escaped_key, escaped_key_error := common.EscapeString(*key_clone, "\"")
-			if escaped_key_error != nil {
-				errors = append(errors, escaped_key_error)
-				return errors
-			}
 			json.WriteString("\"")
-			json.WriteString(escaped_key)
+			json.WriteString(escapeString(key))
 			json.WriteString("\":")
 			string_conversion_errors := ConvertInterfaceValueToJSONStringValue(json, internal_map[key])
 			if string_conversion_errors != nil {
-- 
2.43.0


From 536cc0c1d9e568e22ef05040191936b583d4f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 04/29] fix: write decimals with all their digits and refuse
 NaN and infinity

---
 json/JSON.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 798f136..d1b3d11 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -2,6 +2,7 @@ package json
 
 import (
 	"fmt"
+	"math"
 	"net/url"
 	"os/exec"
 	"strconv"
@@ -98,6 +99,19 @@ func unicodeEscape(value string, index int) (rune, bool) {
 	return rune(code), code_error == nil
 }
 
+func writeFloat(json *strings.Builder, value float64, bit_size int) []error {
+	if math.IsNaN(value) || math.IsInf(value, 0) {
+		return []error{fmt.Errorf("error: number %f cannot be written as json", value)}
+	}
+
+	result := strconv.FormatFloat(value, 'f', -1, bit_size)
+	json.WriteString(result)
+	if !strings.Contains(result, ".") {
+		json.WriteString(".0")
+	}
+	return nil
+}
+
 func getTimeNow() *time.Time {
 	now := time.Now()
 	return &now
@@ -1053,13 +1067,13 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 	case "int":
 		json.WriteString(strconv.FormatInt(int64(temp_value.(int)), 10))
 	case "*float64":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float64))))
+		errors = append(errors, writeFloat(json, *(temp_value.(*float64)), 64)...)
 	case "float64":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float64))))
+		errors = append(errors, writeFloat(json, temp_value.(float64), 64)...)
 	case "*float32":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float32))))
+		errors = append(errors, writeFloat(json, float64(*(temp_value.(*float32))), 32)...)
 	case "float32":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float32))))
+		errors = append(errors, writeFloat(json, float64(temp_value.(float32)), 32)...)
 	case "nil":
 		json.WriteString("null")
 	default:
-- 
2.43.0


From 6c372d016211cca9c52e2a4e42e0605ed693bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 05/29] fix: load decimals that single precision cannot hold as
 float64

---
 json/JSON.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index d1b3d11..a0850f1 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -658,6 +658,8 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 
 					float32_temp, float32_temp_error := strconv.ParseFloat(string_value, 32)
 					if float32_temp_error != nil {
+					} else if strconv.FormatFloat(float32_temp, 'g', -1, 32) != strconv.FormatFloat(float64_temp, 'g', -1, 64) {
+						// single precision would lose digits
 					} else {
 						data_type = "float32"
 						float32_conv := float32(float32_temp)
-- 
2.43.0


From b808efa2cc749e28fc0bf427a48b82e4f18e80b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 06/29] fix: stored times, errors and functions are not nil

---
 json/Value.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 819b5e0..659d4bf 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -649,18 +649,7 @@ func NewValue(v interface{}) (*Value) {
 			return value == s			
 		},
 		IsNil: func() bool {
-			temp_value := this().GetObject()
-			if common.IsNil(temp_value) {
-				return true
-			}
-			
-			return !(common.IsValue(temp_value) ||
-					common.IsNumber(temp_value) || 
-					common.IsBool(temp_value) || 
-					common.IsString(temp_value) || 
-					common.IsArray(temp_value) || 
-					common.IsMap(temp_value) ||
-					common.IsFunc(temp_value))
+			return common.IsNil(this().GetObject())
 		},
 		IsBool: func() bool {
 			return common.IsBool(this().GetObject())
-- 
2.43.0


From ce1f1e67aafc68d8bca3eeff7cdd56cb791464c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 07/29] fix: report reading a non-string as a string instead of
 panicking

---
 json/Value.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json/Value.go b/json/Value.go
index 659d4bf..f531341 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -564,7 +564,6 @@ func NewValue(v interface{}) (*Value) {
 			case "*string":
 				result = this().GetObject().(*string)
 			default:
-				panic("debug")
 				errors = append(errors, fmt.Errorf("error Value.GetString: type %s is not supported please implement for attribute", rep))
 			}
 		
-- 
2.43.0


From 8ab76603e807c9a998952d56d341adb53490ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 08/29] fix: refuse unsigned integers too large for a signed
 read

---
 json/Value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index f531341..583fc7b 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1112,10 +1112,18 @@ func NewValue(v interface{}) (*Value) {
 					temp_value = int64(x)
 				case "*uint":
 					x := this().GetObject().(*uint)
-					temp_value = int64(*x)
+					if *x > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", *x))
+					} else {
+						temp_value = int64(*x)
+					}
 				case "uint":
 					x := this().GetObject().(uint)
-					temp_value = int64(x)
+					if x > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", x))
+					} else {
+						temp_value = int64(x)
+					}
 				case "*string":
 					value, value_error := strconv.ParseInt(*(this().GetObject().(*string)), 10, 64)
 					if value_error != nil {
-- 
2.43.0


From f6463f0439f19e7ab59e86483b83022b120abfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 09/29] fix: hand out a copy of the key list so later edits do
 not change it

---
 json/Map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/Map.go b/json/Map.go
index 23a0533..86c6596 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -567,7 +567,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return toJSONString(json_payload_builder)
 		},
 		GetKeys: func() ([]string) {
-			return getKeys()
+			return append([]string{}, getKeys()...)
 		},
 		SetArray: func(s string, array *Array) {
 			set_map_value := NewValue(array)
-- 
2.43.0


From 6a024e7549d1c007aede053fab1322bd74cafd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:58 +0000
Subject: [PATCH 10/29] fix: keep percent signs in cloned error messages

---
 json/Value.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 583fc7b..a3ffb33 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -202,38 +202,38 @@ func NewValue(v interface{}) (*Value) {
 					cloned_value.SetString(&result)
 				case "error":
 					result := fmt.Sprintf("%s",  temp_object.(error).Error())
-					cloned_value.SetErrorValue(fmt.Errorf(result))
+					cloned_value.SetErrorValue(fmt.Errorf("%s", result))
 				case "[]error": 
 					result := temp_object.([]error)
 					var result_array []error
 					for _, result_array_value := range result {
-						e := fmt.Errorf(fmt.Sprintf("%s", result_array_value.Error()))
+						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
 					cloned_value.SetErrorsValue(result_array)				
 				case "*error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "*url.Error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*url.Error))).Error()) 
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "exec.ExitError":
 					result := fmt.Sprintf("%s", temp_object.(exec.ExitError))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*exec.ExitError":
 					result := fmt.Sprintf("%s", *(temp_object.(*exec.ExitError)))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "bool":
 					if temp_object.(bool) {
-- 
2.43.0


From 3153b4c42e41047ca88d6f3f817c6d99a2a470de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 11/29] fix: keep words such as nil stored as strings

---
 json/Array.go |  2 --
 json/JSON.go  |  2 ++
 json/Value.go | 22 ++++++++++++----------
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index c542672..d16b92f 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -440,8 +440,6 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-			} else if common.IsNil(value) {
-				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
 			}
 		
 			if len(errors) > 0 {
diff --git a/json/JSON.go b/json/JSON.go
index a0850f1..37d7932 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -874,6 +874,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		return errors
 	}
 
+	value = holdString(value)
 	if common.IsNil(value) {
 		json.WriteString("null")
 		return nil
@@ -1093,6 +1094,7 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	var errors []error
 	var result string
 
+	value = holdString(value)
 	if common.IsNil(value) {
 		return "null", nil
 	}
diff --git a/json/Value.go b/json/Value.go
index a3ffb33..ffb7185 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -132,9 +132,18 @@ func NewValueValue(v interface{}) (Value) {
 }
 
 
+// words such as nil and <nil> are taken for nothing by common.IsNil unless they are held by a pointer
+func holdString(value interface{}) interface{} {
+	string_value, is_string := value.(string)
+	if is_string && common.IsNil(string_value) {
+		return &string_value
+	}
+	return value
+}
+
 func NewValue(v interface{}) (*Value) {
 	var this_value *Value
-	internal_value := v
+	internal_value := holdString(v)
 
 	set_this := func(value *Value) {
 		this_value = value
@@ -149,7 +158,7 @@ func NewValue(v interface{}) (*Value) {
 	}
 
 	setObject := func(value interface{}) {
-		internal_value = value
+		internal_value = holdString(value)
 	}
 
 	clone := func() (*Value, []error) {
@@ -629,14 +638,7 @@ func NewValue(v interface{}) (*Value) {
 			return value == *s			
 		},
 		IsValueEqualToStringValue: func(s string) (bool) {
-			this_nil := this().IsNil()
-			compare_nil := common.IsNil(s)
-			
-			if this_nil && compare_nil {
-				return true
-			}
-			
-			if this_nil != compare_nil {
+			if this().IsNil() {
 				return false
 			}
 
-- 
2.43.0


From 58e4c181021083cd15c1719f2b276e983e4374e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 12/29] fix: implement declared accessors that were left
 unassigned and crashed when called

---
 json/Array.go | 114 +++++++++++++++++++++++++++++++++++++++++++++++++-
 json/Map.go   |  41 ++++++++++++++++++
 json/Value.go |  50 ++++++++++++++++++++++
 3 files changed, 204 insertions(+), 1 deletion(-)

diff --git a/json/Array.go b/json/Array.go
index d16b92f..349fb13 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -178,7 +178,8 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		return cloned, nil
 	}
 
-	created_array := Array{
+	var created_array Array
+	created_array = Array{
 		Clone: func() (*Array, []error) {
 			return clone()
 		},
@@ -420,6 +421,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		GetValues: func() *[](*Value) {
 			return getValues()
 		},
+		GetArrayValue: func() (Array, []error) {
+			return created_array, nil
+		},
 		/*GetValue: func() *Value {
 			return getValue()
 		},*/
@@ -906,6 +910,114 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return result, nil
 		},
+		GetArrayOfInt: func() (*[](*int), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](*int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)			 
+				} else {
+					int_value, int_value_errors := array_value.GetInt()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return &result, nil
+		},
+		GetArrayOfIntValue: func() ([](int), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value")) 
+				} else {
+					int_value, int_value_errors := array_value.GetIntValue()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return result, nil
+		},
+		GetArrayOfUInt: func() (*[](*uint), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](*uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)			 
+				} else {
+					uint_value, uint_value_errors := array_value.GetUInt()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return &result, nil
+		},
+		GetArrayOfUIntValue: func() ([](uint), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value")) 
+				} else {
+					uint_value, uint_value_errors := array_value.GetUIntValue()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return result, nil
+		},
 		GetArrayOfBool: func() (*[](*bool), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
diff --git a/json/Map.go b/json/Map.go
index 86c6596..6d63085 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -681,6 +681,24 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return array.GetArrayOfUInt64()
 		},
+		GetArrayOfInt: func(s string) (*[]*int, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfInt()
+		},
+		GetArrayOfUInt: func(s string) (*[]*uint, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfUInt()
+		},
 		GetArrayOfFloat32: func(s string) (*[]*float32, []error) {
 			array, array_errors := getArray(s)
 			if array_errors != nil {
@@ -822,6 +840,14 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetBool()
 		},
+		GetBoolValue: func(s string) (bool, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetBoolValue value is nil"))
+				return false, errors
+			}
+			return getInternalValue(s).GetBoolValue()
+		},
 		SetBool: func(s string, value *bool) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
@@ -975,6 +1001,21 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetIntValue()
 		},
+		GetUInt: func(s string) (*uint, []error) {
+			if isValueNilForMap(s) {
+				return nil, nil
+			}
+
+			return getInternalValue(s).GetUInt()
+		},
+		GetUIntValue: func(s string) (uint, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetUIntValue value is nil"))
+				return 0, errors
+			}
+			return getInternalValue(s).GetUIntValue()
+		},
 		SetInt: func(s string, value *int) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
diff --git a/json/Value.go b/json/Value.go
index ffb7185..a34787b 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1837,6 +1837,56 @@ func NewValue(v interface{}) (*Value) {
 		
 			return result, nil
 		},
+		GetUInt: func() (*uint, []error) {
+			var errors []error
+			var result uint
+			bit_size := strconv.IntSize
+			if bit_size == 32 {
+				temp_value, temp_value_errors := this().GetUInt32()
+				if temp_value_errors != nil {
+					return nil, temp_value_errors
+				} else if temp_value == nil {
+					return nil, nil
+				}
+		
+				result = uint(*temp_value)
+			} else if bit_size == 64 {
+				temp_value, temp_value_errors := this().GetUInt64()
+				if temp_value_errors != nil {
+					return nil, temp_value_errors
+				} else if temp_value == nil {
+					return nil, nil
+				}
+		
+				result = uint(*temp_value)
+			} else {
+				errors = append(errors, fmt.Errorf("Value.GetUInt bit size is not supported: %d", bit_size))
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+		
+			return &result, nil
+		},
+		GetUIntValue: func() (uint, []error) {
+			var errors []error
+			uint_value, uint_value_errors := this().GetUInt()
+			if uint_value_errors != nil {
+				errors = append(errors, uint_value_errors...)
+			} else if uint_value == nil {
+				errors = append(errors, fmt.Errorf("error:  Value.GetUInt returned nil"))
+			}
+		
+			if len(errors) > 0 {
+				return 0, errors
+			}
+		
+			uint_conv := uint(*uint_value)
+			result := uint_conv
+		
+			return result, nil
+		},
 		SetObject: func(value interface{}) () {
 			setObject(value)
 		},
-- 
2.43.0


From ba3ed8ee015917e9c2298e5158aaea7dda1a33ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 13/29] fix: report reading plain text as a time instead of
 panicking

---
 json/Value.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index a34787b..eb6f526 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -161,6 +161,14 @@ func NewValue(v interface{}) (*Value) {
 		internal_value = holdString(value)
 	}
 
+	// common.GetTime only reports text that is not a time when it is held by a pointer
+	getTimeObject := func() interface{} {
+		if string_value, is_string := getObject().(string); is_string {
+			return &string_value
+		}
+		return getObject()
+	}
+
 	clone := func() (*Value, []error) {
 		var errors []error
 		temp_value := this()
@@ -1357,17 +1365,17 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			return common.GetTimeWithDecimalPlaces(this().GetObject(), decimal_places)
+			return common.GetTimeWithDecimalPlaces(getTimeObject(), decimal_places)
 		},
 		GetTime: func() (*time.Time, []error) {
 			if this().IsNil() {
 				return nil, nil
 			}
 		
-			return common.GetTime(this().GetObject())
+			return common.GetTime(getTimeObject())
 		},
 		GetTimeValue: func() (time.Time, []error) {
-			temp_time, temp_time_errors := common.GetTime(this().GetObject())
+			temp_time, temp_time_errors := common.GetTime(getTimeObject())
 			if temp_time_errors != nil {
 				return (*common.GetTimeZero()), temp_time_errors
 			} else if common.IsNil(temp_time) {
-- 
2.43.0


From 441406a702873c540ad4d5d4104902f72b69a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 14/29] fix: report reading a missing time in its plain form

---
 json/Value.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json/Value.go b/json/Value.go
index eb6f526..97df812 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1379,7 +1379,9 @@ func NewValue(v interface{}) (*Value) {
 			if temp_time_errors != nil {
 				return (*common.GetTimeZero()), temp_time_errors
 			} else if common.IsNil(temp_time) {
-				return (*common.GetTimeZero()), temp_time_errors
+				var errors []error
+				errors = append(errors, fmt.Errorf("Value.GetTimeValue is nil"))
+				return (*common.GetTimeZero()), errors
 			}
 			return *temp_time, nil
 		},
-- 
2.43.0


From 1d473396648eb388d1cb422fabf997d2a18fd72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 15/29] fix: write instants in UTC so they reload as the same
 instant

---
 json/JSON.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 37d7932..bebd049 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1025,7 +1025,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("\"")
 	case "*time.Time":
 		json.WriteString("\"")
-		json.WriteString((*(temp_value.(*time.Time))).Format("2006-01-02 15:04:05.000000"))
+		json.WriteString((*(temp_value.(*time.Time))).UTC().Format("2006-01-02 15:04:05.000000"))
 		json.WriteString("\"")
 	case "map[string]map[string][][]string":
 		json.WriteString("\"map[string]map[string][][]string\"")
@@ -1142,7 +1142,7 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 			result = "false"
 		}
 	case "*time.Time":
-		result = (*(temp_value.(*time.Time))).Format("2006-01-02 15:04:05.000000")
+		result = (*(temp_value.(*time.Time))).UTC().Format("2006-01-02 15:04:05.000000")
 	case "map[string]map[string][][]string":
 		result = "map[string]map[string][][]string"
 	case "*uint64":
-- 
2.43.0


From 7ccf388f50a87f71c6c7faba35447a3ed29e4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 16/29] fix: save instants that were stored in their plain form

---
 json/JSON.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index bebd049..62862a5 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1027,6 +1027,10 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("\"")
 		json.WriteString((*(temp_value.(*time.Time))).UTC().Format("2006-01-02 15:04:05.000000"))
 		json.WriteString("\"")
+	case "time.Time":
+		json.WriteString("\"")
+		json.WriteString((temp_value.(time.Time)).UTC().Format("2006-01-02 15:04:05.000000"))
+		json.WriteString("\"")
 	case "map[string]map[string][][]string":
 		json.WriteString("\"map[string]map[string][][]string\"")
 	case "*uint64":
@@ -1143,6 +1147,8 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		}
 	case "*time.Time":
 		result = (*(temp_value.(*time.Time))).UTC().Format("2006-01-02 15:04:05.000000")
+	case "time.Time":
+		result = (temp_value.(time.Time)).UTC().Format("2006-01-02 15:04:05.000000")
 	case "map[string]map[string][][]string":
 		result = "map[string]map[string][][]string"
 	case "*uint64":
-- 
2.43.0


From 45d779ce4000675a83f901461ed05c4f0d97e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 17/29] fix: report reading a nil time in its plain form
 instead of panicking

---
 json/Value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json/Value.go b/json/Value.go
index 97df812..b785310 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1375,6 +1375,12 @@ func NewValue(v interface{}) (*Value) {
 			return common.GetTime(getTimeObject())
 		},
 		GetTimeValue: func() (time.Time, []error) {
+			if this().IsNil() {
+				var errors []error
+				errors = append(errors, fmt.Errorf("Value.GetTimeValue time is nil"))
+				return (*common.GetTimeZero()), errors
+			}
+
 			temp_time, temp_time_errors := common.GetTime(getTimeObject())
 			if temp_time_errors != nil {
 				return (*common.GetTimeZero()), temp_time_errors
-- 
2.43.0


From e48695890cfbd83e601d99483c9f9a81cdd8d9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 18/29] fix: keep the only entry of a native map when it is
 null under the key value

---
 json/Map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/Map.go b/json/Map.go
index 6d63085..8a391d4 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -412,7 +412,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		return cloned, nil
 	}
 
-	if !common.IsNil(m) {
+	if m != nil {
 		current_type := ""
 		for key, value := range *m {
 			current_type = common.GetType(value)
-- 
2.43.0


From f388f16fba2f9e3d9c647eb30ecebf43aa81835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 19/29] fix: report reading a missing list of booleans in its
 plain form

---
 json/Map.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/json/Map.go b/json/Map.go
index 8a391d4..e58a993 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -750,11 +750,9 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return array.GetArrayOfBool()
 		},
 		GetArrayOfBoolValue: func(s string) ([]bool, []error) {
-			array, array_errors := getArray(s)
+			array, array_errors := getArrayValue(s)
 			if array_errors != nil {
 				return nil, array_errors
-			} else if common.IsNil(array) {
-				return nil, nil
 			}
 			return array.GetArrayOfBoolValue()
 		},
-- 
2.43.0


From 119786fcdadbfeeda9bd90a257ec323ed99fe4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:03 +0000
Subject: [PATCH 20/29] fix: cloning a stored function keeps the function

---
 json/Value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index b785310..0c8ff4a 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -362,8 +362,8 @@ func NewValue(v interface{}) (*Value) {
 					result := "map[string]map[string][][]string"
 					cloned_value.SetStringValue(result)
 				case "*func(string) []error":
-					result := "*func(string) []error"
-					cloned_value.SetStringValue(result)
+					result := *(temp_object.(*func(string) []error))
+					cloned_value.SetObject(&result)
 				default:
 					errors = append(errors, fmt.Errorf("error: Value.Clone: type %s is not supported please implement", rep))
 			}
-- 
2.43.0


From 94c87a05c5d382cda0cd240b3c9fd82c23585bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:05 +0000
Subject: [PATCH 21/29] fix: cloning an empty error list keeps it an empty list

---
 json/Value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/Value.go b/json/Value.go
index 0c8ff4a..f744f32 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -222,7 +222,7 @@ func NewValue(v interface{}) (*Value) {
 					cloned_value.SetErrorValue(fmt.Errorf("%s", result))
 				case "[]error": 
 					result := temp_object.([]error)
-					var result_array []error
+					result_array := []error{}
 					for _, result_array_value := range result {
 						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
-- 
2.43.0


From 0dec63dcd1b7b1e0e0f9f40598fb1fcfffd74bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 22/29] fix: errors with a text such as nil are not taken for
 nothing

---
 json/Value.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/json/Value.go b/json/Value.go
index f744f32..d663bd2 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"net/url"
 	"os/exec"
+	"reflect"
 )
 
 type Value struct {
@@ -138,6 +139,13 @@ func holdString(value interface{}) interface{} {
 	if is_string && common.IsNil(string_value) {
 		return &string_value
 	}
+	// so are errors with such a text; only a pointer to nothing is no error at all
+	error_value, is_error := value.(error)
+	if is_error && common.IsNil(error_value) {
+		if reflected := reflect.ValueOf(error_value); reflected.Kind() != reflect.Ptr || !reflected.IsNil() {
+			return &error_value
+		}
+	}
 	return value
 }
 
-- 
2.43.0


From f8e611eb5e87a72c0cf04a558eb5d22b54523731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 23/29] fix: text whose brackets are not nested properly is
 refused

A closing bracket of the wrong kind was taken for the one expected, and text
ending before a key got its value passed as complete, so damaged text loaded
as a document without an error.
---
 json/JSON.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 62862a5..7c50c99 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -288,6 +288,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 					closing_count, _ := metrics.GetInt("}")
 					*closing_count++
 					metrics.SetInt("}", closing_count)
+
+					if len(*list) > 0 && !((*list)[len(*list)-1]).IsMap() {
+						errors = append(errors, fmt.Errorf("error: } does not match the opening bracket at index %d", i))
+						return nil, errors
+					}
 				}
 
 				if value == "[" {
@@ -302,6 +307,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 					closing_count, _ := metrics.GetInt("]")
 					*closing_count++
 					metrics.SetInt("]", closing_count)
+
+					if len(*list) > 0 && !((*list)[len(*list)-1]).IsArray() {
+						errors = append(errors, fmt.Errorf("error: ] does not match the opening bracket at index %d", i))
+						return nil, errors
+					}
 				}
 			}
 		} else {
@@ -538,6 +548,10 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		*index++
 	}
 
+	if len(errors) == 0 && !parsing_string && len(*list) > 0 {
+		errors = append(errors, fmt.Errorf("error: json ends before everything in it was closed"))
+	}
+
 	if len(errors) > 0 {
 		return nil, errors
 	}
-- 
2.43.0


From 1a6652ceb05697b724515f4957e523c4ed26f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 24/29] fix: decimals were rendered as plain text with six
 digits after the point

---
 json/JSON.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 7c50c99..da12d04 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1206,13 +1206,13 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "int":
 		result = strconv.FormatInt(int64(temp_value.(int)), 10)
 	case "*float64":
-		result = fmt.Sprintf("%f", *(temp_value.(*float64)))
+		result = strconv.FormatFloat(*(temp_value.(*float64)), 'f', -1, 64)
 	case "float64":
-		result = fmt.Sprintf("%f", (temp_value.(float64)))
+		result = strconv.FormatFloat(temp_value.(float64), 'f', -1, 64)
 	case "*float32":
-		result = fmt.Sprintf("%f", *(temp_value.(*float32)))
+		result = strconv.FormatFloat(float64(*(temp_value.(*float32))), 'f', -1, 32)
 	case "float32":
-		result = fmt.Sprintf("%f", (temp_value.(float32)))
+		result = strconv.FormatFloat(float64(temp_value.(float32)), 'f', -1, 32)
 	case "json.Value":
 		result = fmt.Sprintf("%s", (temp_value.(Value)).GetObject())
 	case "*json.Value":
-- 
2.43.0


From 64b22ac4e0ed3c94db10d49757e006af2ca94d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 25/29] fix: null held by a value could not be rendered as
 plain text

---
 json/JSON.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index da12d04..fa6cb97 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1127,6 +1127,10 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		temp_value = value
 	}
 
+	if common.IsNil(temp_value) {
+		return "null", nil
+	}
+
 	rep = common.GetType(temp_value)
 	switch rep {
 	case "string":
-- 
2.43.0


From f79e2b468daa83d53818005d07a2cab66dcc8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 26/29] fix: a value held by another value was rendered with
 formatting artefacts

---
 json/JSON.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index fa6cb97..3d4c1f8 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1217,10 +1217,8 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		result = strconv.FormatFloat(float64(*(temp_value.(*float32))), 'f', -1, 32)
 	case "float32":
 		result = strconv.FormatFloat(float64(temp_value.(float32)), 'f', -1, 32)
-	case "json.Value":
-		result = fmt.Sprintf("%s", (temp_value.(Value)).GetObject())
-	case "*json.Value":
-		result = fmt.Sprintf("%s", (*(temp_value.(*Value))).GetObject())
+	case "json.Value", "*json.Value":
+		return ConvertInterfaceValueToStringValue(temp_value)
 	default:
 		errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToStringValue: type %s is not supported please implement", rep))
 	}
-- 
2.43.0


From 64ee9b639f3a2c74094ee33c081df567f625df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 27/29] fix: elements without a value crashed cloning and
 element reads of arrays

---
 json/Array.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/json/Array.go b/json/Array.go
index 349fb13..9399f86 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -123,7 +123,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		temp_values := getValues()
 		cloned := NewArray()
 		for _, temp_value := range *temp_values {
-			if temp_value.IsMap() {
+			if temp_value == nil {
+				cloned.AppendNil()
+			} else if temp_value.IsMap() {
 				temp_map, temp_map_errors := temp_value.GetMap()
 				if temp_map_errors != nil {
 					errors = append(errors, temp_map_errors...)
@@ -441,6 +443,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return "", errors
 			}
 		
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
+				return "", errors
+			}
+
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
@@ -465,6 +472,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return nil, errors
 			}
 		
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
+				return nil, errors
+			}
+
 			value, value_errors := ((*a)[index]).GetMap()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-- 
2.43.0


From b5b35c49d1b4a36cc9ac9734a2056e3253ce4aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 28/29] fix: every document claimed to be nil

---
 json/Map.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/json/Map.go b/json/Map.go
index e58a993..74b6fe0 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -448,18 +448,8 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		IsNull: func(s string) bool {
 			return isValueNilForMap(s)
 		},
-		IsNil: func() bool {			
-			if common.IsNil(internal_map) {
-				return true
-			}
-	
-			return !(common.IsValue(internal_map) ||
-					common.IsNumber(internal_map) || 
-					common.IsBool(internal_map) || 
-					common.IsString(internal_map) || 
-					common.IsArray(internal_map) || 
-					common.IsMap(internal_map) ||
-					common.IsFunc(internal_map))
+		IsNil: func() bool {
+			return internal_map == nil
 		},
 		IsBool: func(s string) bool {
 			if isValueNilForMap(s) {
-- 
2.43.0


From ef619eb0f5b1b77d58d64562dc53703c45354354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 29/29] fix: cloning an error list with a missing error crashed

---
 json/Value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/json/Value.go b/json/Value.go
index d663bd2..acd0399 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -232,6 +232,10 @@ func NewValue(v interface{}) (*Value) {
 					result := temp_object.([]error)
 					result_array := []error{}
 					for _, result_array_value := range result {
+						if result_array_value == nil {
+							result_array = append(result_array, nil)
+							continue
+						}
 						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
-- 
2.43.0

