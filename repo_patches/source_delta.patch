From 97a9c4efa03c86c780898aeeb38f6d78b01e9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 01/42] fix: parse and print null members instead of panicking

---
 internal/tson/serialization.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 9f7f10d..ff01b73 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -48,6 +48,8 @@ func Marshal(t Tson) ([]byte, error) {
 // array: 	element inside an array (timestamp is printed before the primitive).
 func marshalTson(v Value, ctx int) (string, error) {
 	switch val := v.(type) {
+	case nil:
+		return "null", nil
 	case Object:
 		return marshalObject(val)
 	case Array:
@@ -449,6 +451,8 @@ func Unmarshal(data []byte, t *Tson) (err error) {
 // wrapIfPrimitive wraps a raw primitive with a timestamp.
 func wrapIfPrimitive(v any, timestamp int64) Value {
 	switch val := v.(type) {
+	case nil: // null has no timestamp
+		return nil
 	case string:
 		return Leaf[string]{Value: val, Timestamp: timestamp}
 	case float64:
-- 
2.43.0


From f34c8ab7203229a89df29595e9a44f0ec0c9d239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 02/42] fix: members without a timestamp get the default one
 and keep a postfix one

---
 internal/tson/serialization.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index ff01b73..c258ae3 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -719,7 +719,7 @@ func (p *Parser) parseObject() (Value, error) {
 		}
 		p.skipWhitespace()
 		// optional timestamp after key
-		var ts int64 = 0
+		var ts int64 = DefaultTimestamp
 		if p.peek() == '<' {
 			ts, err = p.parseTimestamp()
 			if err != nil {
@@ -763,7 +763,7 @@ func (p *Parser) parseArray() (Value, error) {
 	}
 	for {
 		p.skipWhitespace()
-		var ts int64 = 0
+		var ts int64 = DefaultTimestamp
 		if p.peek() == '<' {
 			var err error
 			ts, err = p.parseTimestamp()
-- 
2.43.0


From 670c3bfe6cc15b8630f6d48112924200dd8d35eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 03/42] fix: reject trailing data after a TSON document

---
 internal/tson/serialization.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index c258ae3..a1c833d 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -444,8 +444,13 @@ type Parser struct {
 // and stores the result in the value pointed to by t.
 func Unmarshal(data []byte, t *Tson) (err error) {
 	p := &Parser{input: data, pos: 0}
-	*t, err = p.parseTson()
-	return err
+	if *t, err = p.parseTson(); err != nil {
+		return err
+	}
+	if p.skipWhitespace(); p.pos < len(p.input) {
+		return fmt.Errorf("unexpected character '%c' after the document at pos %d", p.peek(), p.pos)
+	}
+	return nil
 }
 
 // wrapIfPrimitive wraps a raw primitive with a timestamp.
-- 
2.43.0


From 44a9752476413457fcde05c60b3041d62095c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 04/42] fix: write strings with escapes the TSON parser can
 read back

---
 internal/tson/serialization.go | 53 +++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index a1c833d..61e53c0 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -58,17 +58,17 @@ func marshalTson(v Value, ctx int) (string, error) {
 		if ctx == array {
 			// In array, prefix timestamp before primitive.
 			if val.Timestamp >= 0 { // Timestamp is positive (exists)
-				return fmt.Sprintf("<%d> %q", val.Timestamp, val.Value), nil
+				return fmt.Sprintf("<%d> %s", val.Timestamp, quote(val.Value)), nil
 			}
-			return fmt.Sprintf("<> %q", val.Value), nil // No timestamp
+			return fmt.Sprintf("<> %s", quote(val.Value)), nil // No timestamp
 		} else if ctx == object {
 			// In object, the timestamp is printed with the key.
-			return fmt.Sprintf("%q", val.Value), nil
+			return quote(val.Value), nil
 		} else { // top-level
 			if val.Timestamp >= 0 {
-				return fmt.Sprintf("%q <%d>", val.Value, val.Timestamp), nil
+				return fmt.Sprintf("%s <%d>", quote(val.Value), val.Timestamp), nil
 			}
-			return fmt.Sprintf("%q <>", val.Value), nil
+			return fmt.Sprintf("%s <>", quote(val.Value)), nil
 		}
 	case Leaf[float64]:
 		if ctx == array {
@@ -116,7 +116,7 @@ func marshalObject(obj Object) (string, error) {
 		} else {
 			first = false
 		}
-		s.WriteString(fmt.Sprintf("%q", key))
+		s.WriteString(quote(key))
 		switch leaf := value.(type) {
 		case Leaf[string]:
 			if leaf.Timestamp >= 0 {
@@ -194,7 +194,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 	case float64:
 		return fmt.Sprintf("%.f", t), nil
 	case string:
-		return strconv.Quote(t), nil
+		return quote(t), nil
 
 	case map[string]any:
 		if isLeaf, leafVal, ts := checkLeaf(t); isLeaf {
@@ -230,7 +230,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 				s.WriteString(",\n")
 			}
 			first = false
-			keyStr := strconv.Quote(key)
+			keyStr := quote(key)
 			if m, ok := val.(map[string]any); ok {
 				if isLeaf, leafVal, ts := checkLeaf(m); isLeaf {
 					primStr, err := formatPrimitive(leafVal)
@@ -296,7 +296,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 				s.WriteString(",\n")
 			}
 			first = false
-			keyStr := strconv.Quote(key)
+			keyStr := quote(key)
 			// Tson의 값이 Leaf라면, key 뒤에 timestamp를 붙여 출력
 			switch leaf := val.(type) {
 			case Leaf[string]:
@@ -304,7 +304,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 				if leaf.Timestamp >= 0 {
 					s.WriteString(strconv.FormatInt(leaf.Timestamp, 10))
 				}
-				s.WriteString(">: " + strconv.Quote(leaf.Value))
+				s.WriteString(">: " + quote(leaf.Value))
 			case Leaf[float64]:
 				s.WriteString(currentIndent + indent + keyStr + " <")
 				if leaf.Timestamp >= 0 {
@@ -341,9 +341,9 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 			case Leaf[string]:
 				s.WriteString(currentIndent + indent)
 				if leaf.Timestamp >= 0 {
-					s.WriteString(fmt.Sprintf("<%d> %s", leaf.Timestamp, strconv.Quote(leaf.Value)))
+					s.WriteString(fmt.Sprintf("<%d> %s", leaf.Timestamp, quote(leaf.Value)))
 				} else {
-					s.WriteString(fmt.Sprintf("<> %s", strconv.Quote(leaf.Value)))
+					s.WriteString(fmt.Sprintf("<> %s", quote(leaf.Value)))
 				}
 			case Leaf[float64]:
 				s.WriteString(currentIndent + indent)
@@ -371,7 +371,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 		return s.String(), nil
 
 	case Leaf[string]:
-		primStr := strconv.Quote(t.Value)
+		primStr := quote(t.Value)
 		if ctx == array {
 			if t.Timestamp >= 0 {
 				return fmt.Sprintf("<%d> %s", t.Timestamp, primStr), nil
@@ -422,7 +422,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 func formatPrimitive(v any) (string, error) {
 	switch t := v.(type) {
 	case string:
-		return strconv.Quote(t), nil
+		return quote(t), nil
 	case float64, int, int64, uint, uint64:
 		return fmt.Sprintf("%v", t), nil
 	case bool:
@@ -432,6 +432,31 @@ func formatPrimitive(v any) (string, error) {
 	}
 }
 
+// quote returns s as a string literal which parseString reads back unchanged:
+// only the characters that have an escape sequence in TSON are escaped.
+func quote(s string) string {
+	quoted := []byte{'"'}
+	for _, ch := range []byte(s) {
+		switch ch {
+		case '"', '\\':
+			quoted = append(quoted, '\\', ch)
+		case '\b':
+			quoted = append(quoted, '\\', 'b')
+		case '\f':
+			quoted = append(quoted, '\\', 'f')
+		case '\n':
+			quoted = append(quoted, '\\', 'n')
+		case '\r':
+			quoted = append(quoted, '\\', 'r')
+		case '\t':
+			quoted = append(quoted, '\\', 't')
+		default:
+			quoted = append(quoted, ch)
+		}
+	}
+	return string(append(quoted, '"'))
+}
+
 // <<<<<<<<< Unmarshalling
 
 // Parser struct maintains the parsing state.
-- 
2.43.0


From 9a27dcabbd689b266ab485ec258de0db03bef07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 05/42] fix: parse numbers with an exponent, which the writer
 emits

---
 internal/tson/serialization.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 61e53c0..8a128bf 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -696,6 +696,15 @@ func (p *Parser) parseNumber() (float64, error) {
 			p.pos++
 		}
 	}
+	if p.pos < len(p.input) && (p.peek() == 'e' || p.peek() == 'E') {
+		p.pos++
+		if p.pos < len(p.input) && (p.peek() == '+' || p.peek() == '-') {
+			p.pos++
+		}
+		for p.pos < len(p.input) && p.input[p.pos] >= '0' && p.input[p.pos] <= '9' {
+			p.pos++
+		}
+	}
 	numStr := string(p.input[start:p.pos])
 	return strconv.ParseFloat(numStr, 64)
 }
-- 
2.43.0


From cb4dfd609801115813b3b194c4160db477896aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 06/42] fix: MarshalIndent keeps the fraction of bare numbers

---
 internal/tson/serialization.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 8a128bf..f388f45 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -192,7 +192,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 	case bool:
 		return fmt.Sprintf("%v", t), nil
 	case float64:
-		return fmt.Sprintf("%.f", t), nil
+		return fmt.Sprintf("%v", t), nil
 	case string:
 		return quote(t), nil
 
-- 
2.43.0


From a59e6b6ad247b34d5e1d3b97f9141620b4def09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 07/42] fix: GetValue splits a path before unescaping and
 accepts any path

---
 internal/tson/tson.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index d41dc9a..a1dadce 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -100,9 +100,18 @@ func GetValue(t Tson, path string) (v Value, err error) {
 		}
 	}
 
+	if path == "" { // The whole document
+		return t, nil
+	}
+	if !strings.HasPrefix(path, "/") {
+		return nil, fmt.Errorf("invalid path: %s", path)
+	}
+
 	rfc6901Decoder := strings.NewReplacer("~1", "/", "~0", "~")
-	path = rfc6901Decoder.Replace(path)
 	parts := strings.Split(path, "/")[1:]
+	for i, part := range parts { // Decode after splitting: a key may contain "/"
+		parts[i] = rfc6901Decoder.Replace(part)
+	}
 
 	return getValue(t, parts)
 }
-- 
2.43.0


From 09b38ca6332da7f746af33e8854c88eb1818dc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 08/42] fix: GetLatestTimestamp ignores null members instead of
 panicking

---
 internal/tson/tson.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index a1dadce..4f7fff9 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -162,6 +162,8 @@ func GetLatestTimestamp(t Tson) int64 {
 	}
 
 	switch v := t.(type) {
+	case nil: // null has no timestamp
+		return DefaultTimestamp
 	case Leaf[string]:
 		return v.Timestamp
 	case Leaf[float64]:
-- 
2.43.0


From e0fb5c7925bb23395b2b378ed04a3331dcd02f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 09/42] fix: FromCompatibleTsonBytes keeps 64-bit timestamps
 and rejects bad data with an error

---
 internal/tson/tson.go | 72 +++++++++++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 17 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 4f7fff9..703a725 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -13,6 +13,7 @@
 package tson
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"reflect"
@@ -225,46 +226,79 @@ func ToCompatibleTsonBytes(t Tson) (j []byte, err error) {
 // FromCompatibleTsonBytes converts a JSON byte array (with leaf nodes as { "value": ..., "timestamp": ... })
 // into a Tson object.
 func FromCompatibleTsonBytes(data []byte, t *Tson) error {
-	var convert func(v any) Value
-	convert = func(v any) Value {
+	var convert func(v any) (Value, error)
+	convert = func(v any) (Value, error) {
 		switch t := v.(type) {
+		case nil:
+			return nil, nil
 		case map[string]any:
 			if isLeaf, leafVal, ts := checkLeaf(t); isLeaf {
-				switch leafVal.(type) {
+				switch leaf := leafVal.(type) {
+				case nil:
+					return nil, nil
 				case string:
-					return Leaf[string]{Value: leafVal.(string), Timestamp: ts}
-				case float64:
-					return Leaf[float64]{Value: leafVal.(float64), Timestamp: ts}
+					return Leaf[string]{Value: leaf, Timestamp: ts}, nil
+				case json.Number:
+					f, err := leaf.Float64()
+					if err != nil {
+						return nil, err
+					}
+					return Leaf[float64]{Value: f, Timestamp: ts}, nil
 				case bool:
-					return Leaf[bool]{Value: leafVal.(bool), Timestamp: ts}
+					return Leaf[bool]{Value: leaf, Timestamp: ts}, nil
 				default:
-					return nil // NOT supported
+					return nil, fmt.Errorf("FromCompatibleTsonBytes: unsupported leaf value %T", leafVal)
 				}
 			}
 			obj := Object{}
 			for key, val := range t {
-				obj[key] = convert(val)
+				elem, err := convert(val)
+				if err != nil {
+					return nil, err
+				}
+				obj[key] = elem
 			}
-			return obj
+			return obj, nil
 		case []any:
 			arr := Array{}
-			for _, elem := range t {
-				arr = append(arr, convert(elem))
+			for _, val := range t {
+				elem, err := convert(val)
+				if err != nil {
+					return nil, err
+				}
+				arr = append(arr, elem)
 			}
-			return arr
+			return arr, nil
 		default:
-			panic("FromCompatibleTsonBytes: Not a compatible TSON data")
+			return nil, fmt.Errorf("FromCompatibleTsonBytes: Not a compatible TSON data")
 		}
 	}
 
-	var intermediate any
-	if err := json.Unmarshal(data, &intermediate); err != nil {
+	intermediate, err := unmarshalNumbers(data)
+	if err != nil {
 		return err
 	}
-	*t = convert(intermediate)
+	converted, err := convert(intermediate)
+	if err != nil {
+		return err
+	}
+	*t = converted
 	return nil
 }
 
+// unmarshalNumbers is json.Unmarshal, but keeps numbers as json.Number:
+// a float64 cannot hold every timestamp.
+func unmarshalNumbers(data []byte) (v any, err error) {
+	if err = json.Unmarshal(data, &v); err != nil {
+		return nil, err
+	}
+	d := json.NewDecoder(bytes.NewReader(data))
+	d.UseNumber()
+	v = nil
+	err = d.Decode(&v)
+	return v, err
+}
+
 // ToCompatibleTson converts the given TSON to a JSON object.
 // NOTE: The timestamp field is kept
 func ToCompatibleTson(t Tson, o *any) error {
@@ -483,6 +517,10 @@ func checkLeaf(m map[string]any) (bool, any, int64) {
 				return true, val, int64(t)
 			case int64:
 				return true, val, t
+			case json.Number:
+				if ts, err := t.Int64(); err == nil {
+					return true, val, ts
+				}
 			}
 		}
 	}
-- 
2.43.0


From 46b112c144453520bfc64f04f81ebf4a8e0bac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 10/42] fix: ToJson strips the timestamp of a top-level leaf as
 well

---
 internal/tson/tson.go | 59 +++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 39 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 703a725..718e256 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -318,52 +318,33 @@ func ToCompatibleTson(t Tson, o *any) error {
 // ToJson converts the given TSON to a JSON byte slice.
 // NOTE: The timestamp field is removed
 func ToJson(t Tson, j *any) (err error) {
-	var removeTimestamp func(o any)
-	removeTimestamp = func(o any) {
-		switch value := o.(type) {
-		case map[string]any:
+	var removeTimestamp func(t Tson) any
+	removeTimestamp = func(t Tson) any {
+		switch value := t.(type) {
+		case Leaf[string]:
+			return value.Value
+		case Leaf[float64]:
+			return value.Value
+		case Leaf[bool]:
+			return value.Value
+		case Object:
+			obj := make(map[string]any, len(value))
 			for k, v := range value {
-				switch leaf := v.(type) {
-				case Leaf[string]:
-					value[k] = leaf.Value
-				case Leaf[float64]:
-					value[k] = leaf.Value
-				case Leaf[bool]:
-					value[k] = leaf.Value
-				case map[string]any:
-					if isLeaf, leafVal, _ := checkLeaf(leaf); isLeaf {
-						value[k] = leafVal
-					} else {
-						removeTimestamp(v)
-					}
-				default:
-					removeTimestamp(v)
-				}
+				obj[k] = removeTimestamp(v)
 			}
-		case []any:
+			return obj
+		case Array:
+			arr := make([]any, len(value))
 			for i, v := range value {
-				switch leaf := v.(type) {
-				case Leaf[string]:
-					value[i] = leaf.Value
-				case Leaf[float64]:
-					value[i] = leaf.Value
-				case Leaf[bool]:
-					value[i] = leaf.Value
-				case map[string]any:
-					if isLeaf, leafVal, _ := checkLeaf(leaf); isLeaf {
-						value[i] = leafVal
-					} else {
-						removeTimestamp(leaf)
-					}
-				default:
-					removeTimestamp(v)
-				}
+				arr[i] = removeTimestamp(v)
 			}
+			return arr
+		default:
+			return nil
 		}
 	}
 
-	ToCompatibleTson(t, j)
-	removeTimestamp(*j)
+	*j = removeTimestamp(t)
 
 	return nil
 }
-- 
2.43.0


From fe9844fb1db090144ec00e8e5f082b7642722d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 11/42] fix: FromJson leaves its input unchanged and accepts
 null and top-level values

---
 internal/tson/tson.go | 59 +++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 718e256..0bd89c4 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -352,45 +352,48 @@ func ToJson(t Tson, j *any) (err error) {
 // FromJson converts the given JSON object to a TSON.
 // NOTE: The timestamp field is added with the default(< 0) value.
 func FromJson(o any, t *Tson) (err error) {
-	var addTimestamp func(o any)
-	addTimestamp = func(o any) {
+	var addTimestamp func(o any) (Value, error)
+	addTimestamp = func(o any) (Value, error) {
 		switch value := o.(type) {
+		case nil:
+			return nil, nil
+		case string:
+			return Leaf[string]{Value: value, Timestamp: DefaultTimestamp}, nil
+		case float64:
+			return Leaf[float64]{Value: value, Timestamp: DefaultTimestamp}, nil
+		case bool:
+			return Leaf[bool]{Value: value, Timestamp: DefaultTimestamp}, nil
 		case map[string]any:
+			obj := Object{}
 			for k, v := range value {
-				switch leaf := v.(type) {
-				case string:
-					value[k] = Leaf[string]{Value: leaf, Timestamp: DefaultTimestamp}
-				case float64:
-					value[k] = Leaf[float64]{Value: leaf, Timestamp: DefaultTimestamp}
-				case bool:
-					value[k] = Leaf[bool]{Value: leaf, Timestamp: DefaultTimestamp}
-				default:
-					addTimestamp(v)
+				elem, err := addTimestamp(v)
+				if err != nil {
+					return nil, err
 				}
+				obj[k] = elem
 			}
+			return obj, nil
 		case []any:
-			for i, v := range value {
-				switch leaf := v.(type) {
-				case string:
-					value[i] = Leaf[string]{Value: leaf, Timestamp: DefaultTimestamp}
-				case float64:
-					value[i] = Leaf[float64]{Value: leaf, Timestamp: DefaultTimestamp}
-				case bool:
-					value[i] = Leaf[bool]{Value: leaf, Timestamp: DefaultTimestamp}
-				default:
-					addTimestamp(v)
+			arr := Array{}
+			for _, v := range value {
+				elem, err := addTimestamp(v)
+				if err != nil {
+					return nil, err
 				}
+				arr = append(arr, elem)
 			}
+			return arr, nil
+		default:
+			return nil, fmt.Errorf("FromJson: not a JSON value: %T", o)
 		}
 	}
 
-	addTimestamp(o)
-
-	// Step 1: Convert TSON(any) to CompatibleTSON(JSON with timestamp)
-	str, err := json.Marshal(o)
-
-	// Step 2: Convert CompatibleTSON to TSON
-	return FromCompatibleTsonBytes(str, t)
+	converted, err := addTimestamp(o)
+	if err != nil {
+		return err
+	}
+	*t = converted
+	return nil
 }
 
 // ToJsonBytes converts the given TSON to a JSON byte slice.
-- 
2.43.0


From 0f97c1db2f98a36373d28bb9afcda57056550732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 12/42] fix: Equal compares timestamps exactly instead of as
 float64

---
 internal/tson/tson.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 0bd89c4..acbe178 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -119,20 +119,7 @@ func GetValue(t Tson, path string) (v Value, err error) {
 
 // Equal checks if two TSONs are equal, including timestamps.
 func Equal(t1, t2 Tson) (ret bool, err error) {
-	var (
-		o1, o2 any
-		b1, _  = ToCompatibleTsonBytes(t1)
-		b2, _  = ToCompatibleTsonBytes(t2)
-	)
-
-	// Check if the given TSONs are valid
-	if err = json.Unmarshal(b1, &o1); err != nil {
-		return false, err
-	}
-	if err = json.Unmarshal(b2, &o2); err != nil {
-		return false, err
-	}
-	return reflect.DeepEqual(o1, o2), nil
+	return reflect.DeepEqual(t1, t2), nil
 }
 
 // EqualWithoutTimestamp checks if two TSONs are equal, excluding timestamps.
-- 
2.43.0


From 899664e706930b0dc8cc3661591481ad44a09b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 13/42] fix: escape the path of a serialised operation

---
 internal/tsonpatch/tsonpatch.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index df2802b..d7a7130 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -88,22 +88,26 @@ type Operation struct {
 // String converts the Operation to a JSON string.
 func (p *Operation) String() string {
 	var ( // Using vanila JSON here
-		op        = p.Op
-		path      = p.Path
+		op, _     = json.Marshal(p.Op)
+		path, _   = json.Marshal(p.Path)
 		value, _  = json.Marshal(p.Value)
 		timestamp = p.Timestamp
 		buf       bytes.Buffer
 	)
 	fmt.Fprintf(&buf,
-		`{ "op": "%s", "path": "%s", "value": %s, "timestamp": %d }`,
+		`{ "op": %s, "path": %s, "value": %s, "timestamp": %d }`,
 		op, path, value, timestamp)
 	return buf.String()
 }
 
 // Marshal converts the Operation to a JSON byte Array.
 func (p *Operation) Marshal() (b []byte, err error) {
-	var buf bytes.Buffer
-	fmt.Fprintf(&buf, `{ "op": "%s", "path": "%s"`, p.Op, p.Path)
+	var (
+		buf     bytes.Buffer
+		op, _   = json.Marshal(p.Op)
+		path, _ = json.Marshal(p.Path)
+	)
+	fmt.Fprintf(&buf, `{ "op": %s, "path": %s`, op, path)
 	if p.Value != nil || p.Op == OpReplace || p.Op == OpAdd || p.Op == OpTest {
 		if v, err := json.Marshal(p.Value); err != nil {
 			return nil, err
-- 
2.43.0


From 6dc9755b0c7e10d109e372da000ea17664c3f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 14/42] fix: ApplyPatch applies each operation to the result of
 the one before

---
 internal/tsonpatch/tsonpatch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index d7a7130..75addf5 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -144,8 +144,9 @@ func GeneratePatchWithTimestamp(origin, modified tson.Tson) (Patch, error) {
 
 // ApplyPatch applies a JSON patch to a TSON document
 func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
+	t = doc
 	for _, op := range patch {
-		if t, err = ApplyOperation(doc, op); err != nil {
+		if t, err = ApplyOperation(t, op); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 46afa22517d0d6ecc1b7195e6218daf2c08f50ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 15/42] fix: ApplyOperation resolves JSON Pointer paths

---
 internal/tsonpatch/tsonpatch.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 75addf5..8b5dd30 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -154,11 +154,23 @@ func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
 }
 
 func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
-	path := rfc6901Decoder.Replace(op.Path)
+	// The empty path addresses the whole document: apply to a parent of it
+	if op.Path == "" {
+		if t, err = applyTraverse(tson.Object{"": doc}, []string{""}, op); err != nil {
+			return nil, err
+		}
+		return t.(tson.Object)[""], nil
+	}
 
-	// Split the path into parts, ignoring the first empty string
-	path = strings.ReplaceAll(path, ".", "/")
+	// Split the path into parts: a JSON Pointer ("/a/b"), or else a dotted path ("a.b")
+	path, isPointer := strings.CutPrefix(op.Path, "/")
+	if !isPointer {
+		path = strings.ReplaceAll(path, ".", "/")
+	}
 	parts := strings.Split(path, "/")
+	for i, part := range parts { // Decode after splitting: a key may contain "/"
+		parts[i] = rfc6901Decoder.Replace(part)
+	}
 
 	// Traverse the TSON document
 	if t, err = applyTraverse(doc, parts, op); err != nil {
-- 
2.43.0


From 72a9fd3c0a439a4b832acd6fa3c943ee39427f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 16/42] fix: apply operations at any depth inside array members

---
 internal/tsonpatch/tsonpatch.go | 41 +--------------------------------
 1 file changed, 1 insertion(+), 40 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 8b5dd30..dac4754 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -232,48 +232,9 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 				return nil, err
 			}
 		case tson.Array:
-			idx, err := getIndex(parts[1])
-			if err != nil {
+			if j[part], err = applyTraverse(value, parts[1:], op); err != nil {
 				return nil, err
 			}
-
-			switch op.Op {
-			case OpAdd, OpReplace:
-				if idx >= len(value) {
-					// 배열 크기가 충분하지 않은 경우 확장
-					newArray := make(tson.Array, idx+1)
-					copy(newArray, value)
-					value = newArray
-					j[part] = value
-				}
-
-				// 타입 변환 로직 개선
-				switch opValue := op.Value.(type) {
-				case string:
-					value[idx] = tson.Leaf[string]{Value: opValue, Timestamp: op.Timestamp}
-				case float64:
-					value[idx] = tson.Leaf[float64]{Value: opValue, Timestamp: op.Timestamp}
-				case int:
-					value[idx] = tson.Leaf[float64]{Value: float64(opValue), Timestamp: op.Timestamp}
-				case bool:
-					value[idx] = tson.Leaf[bool]{Value: opValue, Timestamp: op.Timestamp}
-				case nil:
-					return nil, fmt.Errorf("applyTraverse(): Nil value not supported for array element")
-				default:
-					if elem, ok := value[idx].(tson.Object); ok || elem == nil {
-						// 객체나 nil인 경우 재귀적으로 처리
-						if j[part], err = applyTraverse(value[idx], parts[1:], op); err != nil {
-							return nil, err
-						}
-					} else {
-						return nil, fmt.Errorf("applyTraverse(): Unsupported array element type %T", op.Value)
-					}
-				}
-			case OpRemove:
-				j[part] = append(value[:idx], value[idx+1:]...)
-			default:
-				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
-			}
 		case nil:
 			// 경로가 없는 경우 새로 생성
 			if op.Op == OpAdd || op.Op == OpReplace {
-- 
2.43.0


From 9aa7d339dc27023b64ac34de2130fbb7a54a9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 17/42] fix: report operations that cannot be carried out
 instead of panicking or ignoring them

---
 internal/tsonpatch/tsonpatch.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index dac4754..ca50be7 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -185,11 +185,6 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 		return doc, nil
 	}
 
-	switch doc.(type) { // If doc is a leaf node, return
-	case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-		return doc, nil
-	}
-
 	switch part := parts[0]; j := doc.(type) {
 	case tson.Object:
 		if len(parts) == 1 { // Only a single part of path left
@@ -217,7 +212,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			case OpRemove:
 				delete(j, part)
 			case OpMove, OpCopy, OpTest:
-				panic(fmt.Sprintf("applyTraverse(): Operation %s not implemented", op.Op))
+				return nil, fmt.Errorf("applyTraverse(): Operation %s not implemented", op.Op)
 			default:
 				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
 			}
@@ -226,7 +221,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 
 		switch value := j[part].(type) { // Recursively traverse the TSON document
 		case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-			panic("applyTraverse(): Leaf[T] should not be here")
+			return nil, fmt.Errorf("applyTraverse(): Cannot %s below the leaf %s", op.Op, part)
 		case tson.Object:
 			if j[part], err = applyTraverse(value, parts[1:], op); err != nil {
 				return nil, err
@@ -272,7 +267,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 
 		// 배열 인덱스 범위 체크 및 확장
 		if idx >= len(j) {
-			if op.Op == OpAdd || op.Op == OpReplace {
+			if idx == len(j) && (op.Op == OpAdd || op.Op == OpReplace) {
 				// 배열 확장
 				newArray := make(tson.Array, idx+1)
 				copy(newArray, j)
@@ -403,7 +398,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 // }
 
 func getIndex(part string) (idx int, err error) {
-	if idx, err = strconv.Atoi(part); err != nil {
+	if idx, err = strconv.Atoi(part); err != nil || idx < 0 {
 		return -1, fmt.Errorf("getIndex(): Invalid index %s", part)
 	}
 	return idx, nil
-- 
2.43.0


From 90474859e47e2ccc4124a4175ada3e48e97b0122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 18/42] fix: applying a patch no longer modifies the given
 document

---
 internal/tsonpatch/tsonpatch.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index ca50be7..1977f5c 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -20,7 +20,9 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -187,6 +189,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 
 	switch part := parts[0]; j := doc.(type) {
 	case tson.Object:
+		j = maps.Clone(j) // Never modify the given document
 		if len(parts) == 1 { // Only a single part of path left
 			switch op.Op { // switch by operation type
 			case OpAdd, OpReplace:
@@ -259,6 +262,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 
 		return j, nil
 	case tson.Array:
+		j = slices.Clone(j) // Never modify the given document
 		// 배열 처리 로직...
 		idx, err := getIndex(part)
 		if err != nil {
-- 
2.43.0


From 9a8344428eba0785d957a62d17b7b097e9f461ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 19/42] fix: generated paths keep empty keys

---
 internal/tsonpatch/tsonpatch.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 1977f5c..904baa0 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -416,12 +416,6 @@ var (
 
 func makePath(path string, newPart any) string {
 	key := rfc6901Encoder.Replace(fmt.Sprintf("%v", newPart))
-	if path == "" {
-		return "/" + key
-	}
-	if strings.HasSuffix(path, "/") {
-		return path + key
-	}
 	return path + "/" + key
 }
 
-- 
2.43.0


From e07a59bbc9e27b12bd1f13a25eae6a79e91ea92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 20/42] fix: generate a patch for retyped and null members
 instead of panicking

---
 internal/tsonpatch/tsonpatch.go | 62 ++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 904baa0..f2099b4 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -481,6 +481,8 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			case tson.Array:
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
+			case nil:
+				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			default:
 				panic(fmt.Sprintf("diff(): Unknown type %T for origValue", origValue))
 			}
@@ -491,6 +493,20 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 
 func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		// Replaced by a value of another type
+		switch modLeaf := modValue.(type) {
+		case tson.Leaf[string]:
+			patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
+		case tson.Leaf[float64]:
+			patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
+		case tson.Leaf[bool]:
+			patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
+		default:
+			return nil, fmt.Errorf("handleValues(): Unknown type %T for modValue", modValue)
+		}
+		return patch, nil
+	}
 	switch origin := origValue.(type) {
 	case tson.Leaf[string]:
 		if !matchesValue(origValue, modValue) {
@@ -513,20 +529,8 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 			return nil, err
 		}
 	case tson.Array:
-		modified, ok := modValue.(tson.Array)
-		if !ok { // tson.Array replaced by non-Array
-			var mod any = modValue
-			switch modLeaf := mod.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			default:
-				return nil, fmt.Errorf("handleValues(): Unknown type %T for modValue", modValue)
-			}
-		} else if len(origin) != len(modified) { // Different array lengths
+		modified := modValue.(tson.Array)
+		if len(origin) != len(modified) { // Different array lengths
 			patch = append(patch, compareArray(origin, modified, path)...)
 		} else { // Same length, compare elements
 			for i := range modified {
@@ -563,6 +567,20 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 // handleValuesWithTimestamp는 타임스탬프 변경도 감지하여 패치를 생성합니다.
 func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		// Replaced by a value of another type
+		switch modLeaf := modValue.(type) {
+		case tson.Leaf[string]:
+			patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
+		case tson.Leaf[float64]:
+			patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
+		case tson.Leaf[bool]:
+			patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
+		default:
+			return nil, fmt.Errorf("handleValuesWithTimestamp(): Unknown type %T for modValue", modValue)
+		}
+		return patch, nil
+	}
 
 	// 타임스탬프 변경 감지
 	timestampChanged := !matchTimestamp(origValue, modValue)
@@ -600,20 +618,8 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 		}
 
 	case tson.Array:
-		modified, ok := modValue.(tson.Array)
-		if !ok { // tson.Array replaced by non-Array
-			var mod any = modValue
-			switch modLeaf := mod.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			default:
-				return nil, fmt.Errorf("handleValuesWithTimestamp(): Unknown type %T for modValue", modValue)
-			}
-		} else if len(origin) != len(modified) { // Different array lengths
+		modified := modValue.(tson.Array)
+		if len(origin) != len(modified) { // Different array lengths
 			patch = append(patch, compareArrayWithTimestamp(origin, modified, path)...)
 		} else { // Same length, compare elements
 			for i := range modified {
-- 
2.43.0


From b0f09bdcb4c13e29e2d37606a3ff6d67cb779740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 21/42] fix: patches between arrays of different length give
 the new array

---
 internal/tsonpatch/tsonpatch.go | 129 +++++++++-----------------------
 1 file changed, 37 insertions(+), 92 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index f2099b4..d6d196f 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -531,7 +531,9 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 	case tson.Array:
 		modified := modValue.(tson.Array)
 		if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArray(origin, modified, path)...)
+			if patch, err = compareArray(origin, modified, path, patch); err != nil {
+				return nil, err
+			}
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValues(origin[i], modified[i], makePath(path, i), patch)
@@ -620,7 +622,9 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 	case tson.Array:
 		modified := modValue.(tson.Array)
 		if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArrayWithTimestamp(origin, modified, path)...)
+			if patch, err = compareArrayWithTimestamp(origin, modified, path, patch); err != nil {
+				return nil, err
+			}
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValuesWithTimestamp(origin[i], modified[i], makePath(path, i), patch)
@@ -756,23 +760,38 @@ func matchTimestamp(origin, modified tson.Value) bool {
 	return false
 }
 
-// compareArray generates remove and add operations
-func compareArray(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
-		// TODO: is there a way to calculate the timestamp?
-		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
+// compareArray generates the operations that turn origArr into modArr, an array of another length.
+func compareArray(origArr, modArr tson.Array, p string, patch Patch) (Patch, error) {
+	var err error
+	// Compare the elements at the indexes both arrays have
+	for i := 0; i < len(origArr) && i < len(modArr); i++ {
+		if patch, err = handleValues(origArr[i], modArr[i], makePath(p, i), patch); err != nil {
+			return nil, err
+		}
+	}
+	return resizeArray(origArr, modArr, p, patch)
+}
 
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
+// compareArrayWithTimestamp는 두 배열을 비교하여 패치를 생성합니다. 타임스탬프 변경도 감지합니다.
+func compareArrayWithTimestamp(origArr, modArr tson.Array, p string, patch Patch) (Patch, error) {
+	var err error
+	// Compare the elements at the indexes both arrays have
+	for i := 0; i < len(origArr) && i < len(modArr); i++ {
+		if patch, err = handleValuesWithTimestamp(origArr[i], modArr[i], makePath(p, i), patch); err != nil {
+			return nil, err
+		}
 	}
-	patch = reversed
+	return resizeArray(origArr, modArr, p, patch)
+}
 
-	// Find elements that need to be added.
-	processArray(modArr, origArr, func(i int, value any) {
-		switch leaf := value.(type) {
+// resizeArray removes the elements only origArr has, the last one first, and adds those only modArr has.
+func resizeArray(origArr, modArr tson.Array, p string, patch Patch) (Patch, error) {
+	for i := len(origArr) - 1; i >= len(modArr); i-- {
+		// TODO: is there a way to calculate the timestamp?
+		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
+	}
+	for i := len(origArr); i < len(modArr); i++ {
+		switch leaf := modArr[i].(type) {
 		case tson.Leaf[string]:
 			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
 		case tson.Leaf[float64]:
@@ -780,82 +799,8 @@ func compareArray(origArr, modArr tson.Array, p string) (patch Patch) {
 		case tson.Leaf[bool]:
 			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
 		default:
-			panic(fmt.Sprintf("compareArray(): Unknown type %T for value", value))
-		}
-	})
-	return patch
-}
-
-// compareArrayWithTimestamp는 두 배열을 비교하여 패치를 생성합니다. 타임스탬프 변경도 감지합니다.
-func compareArrayWithTimestamp(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
-		// TODO: is there a way to calculate the timestamp?
-		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
-	}
-	patch = reversed
-
-	// Find elements that need to be added, or have changed values or timestamps
-	for i, value := range modArr {
-		// 원래 배열과 수정된 배열의 같은 인덱스에서 값 또는 타임스탬프 변경 확인
-		if i < len(origArr) {
-			valuesEqual := matchesValue(origArr[i], value)
-			timestampEqual := matchTimestamp(origArr[i], value)
-
-			if !valuesEqual || !timestampEqual {
-				switch leaf := value.(type) {
-				case tson.Leaf[string]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[float64]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[bool]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				}
-			}
-		} else {
-			// 새로 추가된 요소
-			switch leaf := value.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			default:
-				panic(fmt.Sprintf("compareArrayWithTimestamp(): Unknown type %T for value", value))
-			}
-		}
-	}
-
-	return patch
-}
-
-// processArray processes two arrays calling applyOp whenever a value is absent.
-func processArray(origArr, modArr tson.Array, applyOp func(i int, value any)) {
-	// Note: map[T]struct{} is used to simulate a set.
-	foundIndexes := make(map[int]struct{}, len(origArr))
-	reverseFoundIndexes := make(map[int]struct{}, len(origArr))
-
-	for idx1, value1 := range origArr {
-		for idx2, value2 := range modArr {
-			if _, ok := reverseFoundIndexes[idx2]; ok {
-				// This one is already found.
-				continue
-			}
-			if reflect.DeepEqual(value1, value2) {
-				// Mark this as found
-				foundIndexes[idx1] = struct{}{}
-				reverseFoundIndexes[idx2] = struct{}{}
-				break
-			}
-		}
-		if _, ok := foundIndexes[idx1]; !ok {
-			applyOp(idx1, value1)
+			return nil, fmt.Errorf("resizeArray(): Unknown type %T for value", modArr[i])
 		}
 	}
+	return patch, nil
 }
-- 
2.43.0


From 0bf030b162f7068721c9624424dc2ece1b9be50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 22/42] fix: Snapshot accumulates the patches of all versions
 up to the target

---
 internal/logument/logument.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 98dda3b..cb2f146 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -219,19 +219,17 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 		panic(err)
 	}
 
-	var timedSnapshot tsonSnapshot
+	timedSnapshot := latestSnapshot
 
 	if latestVersion != vk {
 		// Apply patches from the latest version to the target version
 		for i := latestVersion + 1; i <= vk; i++ {
 			var err error
-			timedSnapshot, err = tsonpatch.ApplyPatch(latestSnapshot, lgm.Patches[i])
+			timedSnapshot, err = tsonpatch.ApplyPatch(timedSnapshot, lgm.Patches[i])
 			if err != nil {
 				panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 			}
 		}
-	} else {
-		timedSnapshot = latestSnapshot
 	}
 
 	if _, exists := lgm.Snapshots[vk]; !exists {
-- 
2.43.0


From 87e6fcc896b58b6621e90dc459878fe5676efb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 23/42] fix: Store copies the given patches, and an empty pool
 makes no version

---
 internal/logument/logument.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index cb2f146..ca58a38 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -159,11 +159,8 @@ func (lgm *Logument) Store(inputPatches any) {
 		panic("Invalid type for initialPatches. Must be Patch or []Patch.")
 	}
 
-	if lgm.PatchPool == nil {
-		lgm.PatchPool = patches
-	} else {
-		lgm.PatchPool = append(lgm.PatchPool, patches...)
-	}
+	// The pool starts as nil, so it never shares memory with the caller's patches
+	lgm.PatchPool = append(lgm.PatchPool, patches...)
 }
 
 func (lgm *Logument) findLatest(targetVersion uint64) (latestVersion uint64, latestSnapshot tsonSnapshot, rr error) {
@@ -194,7 +191,7 @@ func (lgm *Logument) Append() error {
 		return fmt.Errorf("versions are not grown")
 	}
 
-	if lgm.PatchPool == nil {
+	if len(lgm.PatchPool) == 0 {
 		return nil
 	}
 
-- 
2.43.0


From 3e9ab66a2f19e9409df1f874eaae52e8d20f061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 24/42] fix: Track returns the compacted patches instead of
 changing the history

---
 internal/logument/logument.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index ca58a38..a9cf81c 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -464,7 +464,7 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 				latestValues[patch.Path] = patch.Value
 			}
 		}
-		lgm.Patches[path] = compactPatches
+		packedPatches[path] = compactPatches
 	}
 
 	return packedPatches
-- 
2.43.0


From ebc2669b41455294a1e8354fde441ceddf304385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 25/42] fix: compare patch values that Go cannot compare with
 ==

---
 internal/logument/logument.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index a9cf81c..3a9a641 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"reflect"
 	"sort"
 	"strconv"
 	"strings"
@@ -453,7 +454,7 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 			// Compare to previous value if it exists at the same path
 			if prev, exists := latestValues[patch.Path]; exists {
 				// If value has changed, keep the patch and update the status bool { return paths[i] < paths[j] })
-				if prev != patch.Value {
+				if !reflect.DeepEqual(prev, patch.Value) {
 					compactPatches = append(compactPatches, patch)
 					latestValues[patch.Path] = patch.Value
 				}
@@ -493,7 +494,7 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 				// Compare to previous value if it exists at the same path
 				if prev, exists := latestValues[p.Path]; exists {
 					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
+					if !reflect.DeepEqual(prev, p.Value) {
 						compactPatches = append(compactPatches, p)
 						latestValues[p.Path] = p.Value
 					}
@@ -607,7 +608,7 @@ func (lgm *Logument) Compact(targetPath string) {
 				// Compare to previous value if it exists at the same path
 				if prev, exists := latestValues[p.Path]; exists {
 					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
+					if !reflect.DeepEqual(prev, p.Value) {
 						compactPatches = append(compactPatches, p)
 						latestValues[p.Path] = p.Value
 					}
-- 
2.43.0


From 72229a922b24f8043acfce7f0f33ccbdf520f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 26/42] fix: compaction keeps removals and the values set after
 them

---
 internal/logument/logument.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 3a9a641..87fc6c0 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -451,8 +451,12 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 		patches := packedPatches[path]
 		compactPatches := make(tsonPatches, 0, len(patches))
 		for _, patch := range patches {
-			// Compare to previous value if it exists at the same path
-			if prev, exists := latestValues[patch.Path]; exists {
+			if patch.Op == tsonpatch.OpRemove {
+				// Always keep removals: they may change the value at other paths as well
+				compactPatches = append(compactPatches, patch)
+				clear(latestValues)
+				// Compare to previous value if it exists at the same path
+			} else if prev, exists := latestValues[patch.Path]; exists {
 				// If value has changed, keep the patch and update the status bool { return paths[i] < paths[j] })
 				if !reflect.DeepEqual(prev, patch.Value) {
 					compactPatches = append(compactPatches, patch)
@@ -491,8 +495,12 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
 			if p.Timestamp >= tsi && p.Timestamp <= tsj {
-				// Compare to previous value if it exists at the same path
-				if prev, exists := latestValues[p.Path]; exists {
+				if p.Op == tsonpatch.OpRemove {
+					// Always keep removals: they may change the value at other paths as well
+					compactPatches = append(compactPatches, p)
+					clear(latestValues)
+					// Compare to previous value if it exists at the same path
+				} else if prev, exists := latestValues[p.Path]; exists {
 					// If value has changed, keep the patch and update the status
 					if !reflect.DeepEqual(prev, p.Value) {
 						compactPatches = append(compactPatches, p)
@@ -605,8 +613,12 @@ func (lgm *Logument) Compact(targetPath string) {
 		for _, p := range ps {
 			pt := rfc6901Decoder.Replace(p.Path)
 			if strings.HasPrefix(pt, targetPath) {
-				// Compare to previous value if it exists at the same path
-				if prev, exists := latestValues[p.Path]; exists {
+				if p.Op == tsonpatch.OpRemove {
+					// Always keep removals: they may change the value at other paths as well
+					compactPatches = append(compactPatches, p)
+					clear(latestValues)
+					// Compare to previous value if it exists at the same path
+				} else if prev, exists := latestValues[p.Path]; exists {
 					// If value has changed, keep the patch and update the status
 					if !reflect.DeepEqual(prev, p.Value) {
 						compactPatches = append(compactPatches, p)
-- 
2.43.0


From d19a01842db633c144f7e1ff9ff34f7c635d6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 27/42] fix: TemporalSnapshot applies every patch up to the
 time, in order, and records nothing

---
 exp/utils_temporal.go         |  3 ++
 internal/logument/logument.go | 57 ++++++++---------------------------
 2 files changed, 16 insertions(+), 44 deletions(-)

diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 5c19c99..9620a04 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -386,6 +386,9 @@ func createLogumentFromPatches(path string, patches []TsonPatch) *logument.Logum
 
 	// Create the Logument
 	lgm := logument.NewLogument(initialTson, tsonPatches)
+	if err := lgm.Append(); err != nil {
+		panic(err)
+	}
 	return lgm
 }
 
diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 87fc6c0..c901ebe 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -238,62 +238,31 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 }
 
 func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
-	versions := lgm.getSortedVersions("snapshot")
-
-	// Find the latest timestamp before the target timestamp
-	latestVersion := lgm.Version[0]
-	for _, version := range versions {
-		s := lgm.Snapshots[version]
-		lts := tson.GetLatestTimestamp(s)
-		if lts <= tsk {
-			latestVersion = version
-		} else {
-			break
-		}
-	}
-
-	// Get the latest snapshot
-	latestSnapshot := lgm.Snapshots[latestVersion]
-
-	if latestVersion >= lgm.Version[len(lgm.Version)-1] {
-		if lgm.PatchPool != nil {
-			lgm.Append()
-		} else {
-			return latestSnapshot
+	// Collect the patches up to the target timestamp, in the order they were recorded
+	var timedPatches tsonpatch.Patch
+	for _, version := range lgm.getSortedVersions("patch") {
+		for _, p := range lgm.Patches[version] {
+			if p.Timestamp <= tsk {
+				timedPatches = append(timedPatches, p)
+			}
 		}
 	}
-
-	// Create a map to store the most recent patch for each path
-	latestPatchMap := make(map[string]tsonpatch.Operation)
-
-	// Iterate through the patches and keep only the most recent one for each path
-	sort.Slice(lgm.Patches[latestVersion+1], func(i, j int) bool {
-		return lgm.Patches[latestVersion+1][i].Timestamp < lgm.Patches[latestVersion+1][j].Timestamp
-	})
-
-	for _, p := range lgm.Patches[latestVersion+1] {
+	for _, p := range lgm.PatchPool {
 		if p.Timestamp <= tsk {
-			// Check if we've seen this path before and if this patch is more recent
-			if existing, exists := latestPatchMap[p.Path]; !exists || p.Timestamp > existing.Timestamp {
-				latestPatchMap[p.Path] = p
-			}
+			timedPatches = append(timedPatches, p)
 		}
 	}
 
-	// Convert the map to a slice
-	var latestPatches tsonpatch.Patch
-	for _, patch := range latestPatchMap {
-		latestPatches = append(latestPatches, patch)
-	}
+	sort.SliceStable(timedPatches, func(i, j int) bool {
+		return timedPatches[i].Timestamp < timedPatches[j].Timestamp
+	})
 
 	// Apply patches
-	timedSnapshot, err := tsonpatch.ApplyPatch(latestSnapshot, latestPatches)
+	timedSnapshot, err := tsonpatch.ApplyPatch(lgm.Snapshots[lgm.Version[0]], timedPatches)
 	if err != nil {
 		panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 	}
 
-	// lgm.Snapshots[latestVersion+1] = timedSnapshot
-
 	return timedSnapshot
 }
 
-- 
2.43.0


From 5a1fb5646aa0689e13bfc231f9e758917891a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 28/42] fix: a slice contains every version of its range and
 their base snapshot

---
 internal/logument/logument.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index c901ebe..0e36432 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -300,25 +300,25 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 	SlicedPatches := make(map[uint64]tsonPatches)
 	for _, version := range versionsFromPatch {
 		if version >= vi && version <= vj {
-			// SlicedVersions always includes all versions between the start and end versions
-			// because lgm.Version and lgm.PatchMap are continuous.
-			// However, lgm.Snapshots may not be continuous,
-			// so the following line works correctly only in this loop.
-			SlicedVersions = append(SlicedVersions, version)
 			SlicedPatches[version] = lgm.Patches[version]
 		}
 	}
 
-	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
-		SlicedSnapshots[vi] = lgm.Snapshot(vi)
+	for _, version := range lgm.Version {
+		if version >= vi && version <= vj {
+			SlicedVersions = append(SlicedVersions, version)
+		}
 	}
 
+	// Add the snapshot at the start version, on which the later versions are based
+	SlicedSnapshots[vi] = lgm.Snapshot(vi)
+
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: lgm.Snapshot(vj),
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
-- 
2.43.0


From cd8ba5217b405b5a986258dc32c7347b0112fac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 29/42] fix: TemporalSlice lists each version once, with the
 snapshot before its first patch

---
 internal/logument/logument.go | 44 +++++++++++++++++------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 0e36432..dfadf51 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
@@ -336,17 +337,10 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 			"\nEnd time: " + strconv.FormatInt(tsj, 10))
 	}
 
+	// The slice is based on the version before its first patch
 	var SlicedVersions []uint64
-
-	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
-	SlicedSnapshots := make(map[uint64]tsonSnapshot)
-	for _, version := range versionsFromSnapshot {
-		snapshot := lgm.Snapshots[version]
-		latestTimestamp := tson.GetLatestTimestamp(snapshot)
-		if latestTimestamp >= tsi && latestTimestamp <= tsj {
-			SlicedSnapshots[version] = snapshot
-		}
-	}
+	startVersion := lgm.Version[0]
+	endVersion := startVersion
 
 	versionsFromPatch := lgm.getSortedVersions("patch")
 	SlicedPatches := make(map[uint64]tsonPatches)
@@ -354,27 +348,31 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 		patches := lgm.Patches[version]
 		for _, patch := range patches {
 			if patch.Timestamp >= tsi && patch.Timestamp <= tsj {
-				// SlicedVersions always includes all versions between the start and end times
-				// because lgm.Version and lgm.PatchMap are continuous.
-				// However, lgm.Snapshots may not be continuous,
-				// so the following line works correctly only in this loop.
-				SlicedVersions = append(SlicedVersions, version)
+				if len(SlicedPatches) == 0 {
+					startVersion = version - 1
+				}
+				endVersion = version
 				SlicedPatches[version] = append(SlicedPatches[version], patch)
 			}
 		}
 	}
+	for version := startVersion; version <= endVersion; version++ {
+		SlicedVersions = append(SlicedVersions, version)
+	}
 
-	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
-		startVersion := SlicedVersions[0]
-		SlicedSnapshots[startVersion] = lgm.TemporalSnapshot(tsi)
+	// Add the snapshot just before the start time
+	startSnapshot := lgm.Snapshots[lgm.Version[0]]
+	if tsi > math.MinInt64 {
+		startSnapshot = lgm.TemporalSnapshot(tsi - 1)
 	}
+	SlicedSnapshots := map[uint64]tsonSnapshot{startVersion: startSnapshot}
 
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: lgm.TemporalSnapshot(tsj),
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
-- 
2.43.0


From a49cfef05415e8109670678b8510cbfa3977f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 30/42] fix: Compact and History no longer match paths that
 only share a textual prefix

---
 internal/logument/logument.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index dfadf51..b9ded65 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -13,12 +13,6 @@ import (
 	"github.com/davecgh/go-spew/spew"
 )
 
-// Note: http://tools.ietf.org/html/rfc6901#section-4 :
-var (
-	// rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
-)
-
 type tsonSnapshot = tson.Tson
 type tsonPatches = tsonpatch.Patch // []jsonpatch.Operation
 
@@ -578,8 +572,7 @@ func (lgm *Logument) Compact(targetPath string) {
 		ps := lgm.Patches[version]
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
-			pt := rfc6901Decoder.Replace(p.Path)
-			if strings.HasPrefix(pt, targetPath) {
+			if isUnder(p.Path, targetPath) {
 				if p.Op == tsonpatch.OpRemove {
 					// Always keep removals: they may change the value at other paths as well
 					compactPatches = append(compactPatches, p)
@@ -606,6 +599,18 @@ func (lgm *Logument) Compact(targetPath string) {
 	}
 }
 
+// isUnder reports whether path addresses the target path or a location below it.
+func isUnder(path, target string) bool {
+	rest, found := strings.CutPrefix(path, target)
+	if !found {
+		return false
+	}
+	if target == "" || rest == "" || rest[0] == '/' {
+		return true
+	}
+	return rest[0] == '.' && !strings.HasPrefix(path, "/") // Dotted path
+}
+
 func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 	// Get the history of the changes at the target path
 	// The history should contain all the patches that have changed the value at the target path
@@ -619,8 +624,7 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 	historyPatches := make(map[string]tsonPatches)
 	for _, patches := range lgm.Patches {
 		for _, patch := range patches {
-			path := rfc6901Decoder.Replace(patch.Path)
-			if strings.HasPrefix(path, targetPath) {
+			if isUnder(patch.Path, targetPath) {
 				historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
 			}
 		}
-- 
2.43.0


From f0fda13f8cd793a2c689050a5921b7fc4dc2e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 31/42] fix: History lists the patches by timestamp and allows
 paths added later

---
 internal/logument/logument.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index b9ded65..3d909a8 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -621,22 +621,27 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 
 	lgm.Compact(targetPath)
 
-	historyPatches := make(map[string]tsonPatches)
-	for _, patches := range lgm.Patches {
-		for _, patch := range patches {
+	var targetPatches tsonPatches
+	for _, version := range lgm.getSortedVersions("patch") {
+		for _, patch := range lgm.Patches[version] {
 			if isUnder(patch.Path, targetPath) {
-				historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
+				targetPatches = append(targetPatches, patch)
 			}
 		}
 	}
+	sort.SliceStable(targetPatches, func(i, j int) bool {
+		return targetPatches[i].Timestamp < targetPatches[j].Timestamp
+	})
+
+	historyPatches := make(map[string]tsonPatches)
+	for _, patch := range targetPatches {
+		historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
+	}
 
 	// Add the initial value to the history
 	for key := range historyPatches {
 		val, err := tson.GetValue(lgm.Snapshots[0], key)
-		if err != nil {
-			panic("Failed to get the value from the snapshot. Error: " + err.Error())
-		}
-		if val != nil {
+		if err == nil && val != nil { // The path may have been added later
 			historyPatches[key] = append([]tsonpatch.Operation{{
 				Op:        tsonpatch.OpAdd,
 				Path:      key,
-- 
2.43.0


From 90bb93bc37dd342916c6dde3ddef0ceaa65830b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 32/42] fix: TestSet compares with the current state

---
 internal/logument/logument.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 3d909a8..5cf4624 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -517,13 +517,7 @@ func (lgm *Logument) TestSet(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	latesetSnapshot := lgm.Snapshots[lgm.Version[len(lgm.Version)-1]]
-	// if _, exists := lgm.Snapshots[vk]; !exists {
-	// 	s := lgm.Snapshot(vk)
-	// 	lgm.Snapshots[vk] = s
-	// }
-
-	exist_value, err := tson.GetValue(latesetSnapshot, patch.Path)
+	exist_value, err := tson.GetValue(lgm.CurrentState, patch.Path)
 	if err != nil {
 		lgm.Set(vk,
 			tsonpatch.Operation{
@@ -550,6 +544,9 @@ func leafCompareValue(leafValue tson.Value, value any) bool {
 		if floatVal, ok := value.(float64); ok {
 			return leaf.Value == floatVal
 		}
+		if intVal, ok := value.(int); ok {
+			return leaf.Value == float64(intVal)
+		}
 	case tson.Leaf[bool]:
 		if boolVal, ok := value.(bool); ok {
 			return leaf.Value == boolVal
-- 
2.43.0


From d9f546e524093d3ca47097b4ef9b7d3bfd173749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 33/42] fix: each generated data set derives from the one
 before it

---
 internal/vssgen/args.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index 427a634..bb71494 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -19,6 +19,7 @@ func ParseArgs(defaultDataset string) (option map[string]any) {
 		cars       = flag.Int("cars", -1, "[required] Number of cars to generate")
 		files      = flag.Int("files", -1, "[required] Number of JSON files per car")
 		changeRate = flag.Float64("change_rate", 0.2, "Change rate for each car")
+		maintain   = flag.Float64("maintain_rate", 0.0, "Rate of timestamp-only changes for each car")
 		size       = flag.Float64("size", 1.0, "Dataset size ratio 0.0-1.0")
 	)
 
@@ -33,15 +34,17 @@ func ParseArgs(defaultDataset string) (option map[string]any) {
 	fmt.Println("--cars:", *cars)
 	fmt.Println("--files:", *files)
 	fmt.Println("--change_rate:", *changeRate)
+	fmt.Println("--maintain_rate:", *maintain)
 	fmt.Println("--size:", *size)
 
 	// Return the parsed arguments in JSON format
 	return map[string]any{
-		"dataset":     *dataset,
-		"cars":        *cars,
-		"files":       *files,
-		"change_rate": *changeRate,
-		"size":        *size,
+		"dataset":       *dataset,
+		"cars":          *cars,
+		"files":         *files,
+		"change_rate":   *changeRate,
+		"maintain_rate": *maintain,
+		"size":          *size,
 	}
 }
 
@@ -106,7 +109,8 @@ func Generate(metadata map[string]any, dataFolder string) {
 
 		// Generate the rest of the JSON files
 		for j := 2; j <= files; j++ {
-			data, patch := data.GenerateNext(changeRate, maintainRate, i, j)
+			var patch *VssJson
+			data, patch = data.GenerateNext(changeRate, maintainRate, i, j)
 			data.Save(filepath.Join(carDir, fmt.Sprintf("%d_%d.tson", i, j)))
 			patch.Save(filepath.Join(patchDir, fmt.Sprintf("%d_%d.json", i, j)))
 			bar.Add(1)
-- 
2.43.0


From 7ceabe0f139fb8a7ca8e9acb8753c001fa92ee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 34/42] fix: the web demo passes the maintain rate the
 generator requires

---
 web_demo.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/web_demo.go b/web_demo.go
index 0745eb6..77d496c 100644
--- a/web_demo.go
+++ b/web_demo.go
@@ -46,11 +46,12 @@ func generateVss(userDefined bool) {
 		option = vssgen.ParseArgs(defaultDataset)
 	} else {
 		option = map[string]any{
-			"dataset":     defaultDataset,
-			"cars":        defaultCarCount,
-			"files":       defaultFileCount,
-			"change_rate": 0.2,
-			"size":        0.1,
+			"dataset":       defaultDataset,
+			"cars":          defaultCarCount,
+			"files":         defaultFileCount,
+			"change_rate":   0.2,
+			"maintain_rate": 0.0,
+			"size":          0.1,
 		}
 	}
 	outputDir := "./dataset"
-- 
2.43.0


From c8c8975de551425ef10c686e7d4957f0ee8f0c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 35/42] fix: compaction notices removals outside its target
 path

---
 internal/logument/logument.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 5cf4624..a95b902 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -590,6 +590,10 @@ func (lgm *Logument) Compact(targetPath string) {
 			} else {
 				// Keep patches that do not match the targetPath
 				compactPatches = append(compactPatches, p)
+				if p.Op == tsonpatch.OpRemove {
+					// A removal elsewhere may remove the target as well
+					clear(latestValues)
+				}
 			}
 		}
 		lgm.Patches[version] = compactPatches
-- 
2.43.0


From d321d29e56fe1d655d283634b2d6c6beb84093d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 36/42] fix: the history of a slice starts with the value in
 its own first document

---
 internal/logument/logument.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index a95b902..be31b3b 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -641,7 +641,7 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 
 	// Add the initial value to the history
 	for key := range historyPatches {
-		val, err := tson.GetValue(lgm.Snapshots[0], key)
+		val, err := tson.GetValue(lgm.Snapshots[lgm.Version[0]], key)
 		if err == nil && val != nil { // The path may have been added later
 			historyPatches[key] = append([]tsonpatch.Operation{{
 				Op:        tsonpatch.OpAdd,
-- 
2.43.0


From 5fa5ce11302c4526a2645cf8ec4dcbb8abad2293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 37/42] fix: ToCompatibleTsonBytesSorted rejected documents
 with null

---
 internal/tson/tson.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index acbe178..f9b251a 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -511,6 +511,8 @@ func ToCompatibleTsonBytesSorted(t Tson) ([]byte, error) {
 // toSortedInterface recursively converts TSON -> map/slice with sorted keys.
 func toSortedInterface(t Tson) (any, error) {
 	switch val := t.(type) {
+	case nil:
+		return nil, nil
 	case Leaf[string]:
 		return map[string]any{"value": val.Value, "timestamp": val.Timestamp}, nil
 	case Leaf[float64]:
-- 
2.43.0


From dc8b97d454889a748f64c5c401e6c65c4e2899d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 38/42] fix: ToCompatibleTson rounded timestamps beyond 2^53

---
 internal/tson/tson.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index f9b251a..d7341ac 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -289,15 +289,16 @@ func unmarshalNumbers(data []byte) (v any, err error) {
 // ToCompatibleTson converts the given TSON to a JSON object.
 // NOTE: The timestamp field is kept
 func ToCompatibleTson(t Tson, o *any) error {
-	// Convert TSON to Compatible TSON (JSON with timestamp)
-	barr, err := ToCompatibleTsonBytes(t)
-	if err != nil {
+	// Check if the TSON can be written as Compatible TSON (JSON with timestamp)
+	if _, err := ToCompatibleTsonBytes(t); err != nil {
 		return err
 	}
-	// Convert JSON byte slice to JSON object
-	if err = json.Unmarshal(barr, o); err != nil {
+	// Convert TSON to JSON object, with exact timestamps (int64)
+	compatible, err := toSortedInterface(t)
+	if err != nil {
 		return err
 	}
+	*o = compatible
 
 	return nil
 }
-- 
2.43.0


From b55d142da8445eb4e5314eff46356bb016fc8cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:15 +0000
Subject: [PATCH 39/42] fix: generated change files keep 64-bit timestamps and
 may be empty

---
 internal/vssgen/vss.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 6225caf..62652ca 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -365,14 +365,19 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 
 	ops, _ := tsonpatch.GeneratePatchWithTimestamp(origin, modified)
 
-	// Step 2. Convert the patch object to a []byte
-	bytes, _ := json.Marshal(ops)
-
-	// Step 3. Unmarshal the []byte to a JSON object
-	var patch any
-	json.Unmarshal(bytes, &patch)
+	// Step 2. Convert the patch object to a JSON object
+	// NOTE: a detour over encoding/json would round the timestamps to float64
+	patch := make([]any, 0, len(ops))
+	for _, op := range ops {
+		patch = append(patch, map[string]any{
+			"op":          string(op.Op),
+			"path":        op.Path,
+			tsonValue:     op.Value,
+			tsonTimestamp: op.Timestamp,
+		})
+	}
 
-	// Step 4. Return the new dataset and the patch
+	// Step 3. Return the new dataset and the patch
 	return &VssJson{initialized: true, data: result}, &VssJson{initialized: true, data: patch}
 }
 
@@ -395,7 +400,7 @@ func (vss *VssJson) Save(file string) {
 
 			fmt.Fprintf(&buf,
 				`{ "op": "%s", "path": "%s", "value": %#v, "timestamp": %d }`,
-				d["op"], d["path"], d[tsonValue], int64(d[tsonTimestamp].(float64)))
+				d["op"], d["path"], d[tsonValue], d[tsonTimestamp])
 			lines = append(lines, "    "+buf.String())
 		}
 
-- 
2.43.0


From c85988a86b7b19c020159c1a0ab55344a78c6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 40/42] fix: change files are JSON for every path and value

---
 internal/vssgen/vss.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 62652ca..9dd3d6e 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -398,9 +398,11 @@ func (vss *VssJson) Save(file string) {
 			var buf bytes.Buffer
 			d := item.(map[string]any)
 
+			path, _ := json.Marshal(d["path"])
+			value, _ := json.Marshal(d[tsonValue])
 			fmt.Fprintf(&buf,
-				`{ "op": "%s", "path": "%s", "value": %#v, "timestamp": %d }`,
-				d["op"], d["path"], d[tsonValue], d[tsonTimestamp])
+				`{ "op": "%s", "path": %s, "value": %s, "timestamp": %d }`,
+				d["op"], path, value, d[tsonTimestamp])
 			lines = append(lines, "    "+buf.String())
 		}
 
-- 
2.43.0


From 6e1e6be3dc208abc651083378ef84efba3e99a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 41/42] fix: a signal without a value stays in the next data
 set

---
 internal/vssgen/vss.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 9dd3d6e..d05984f 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -327,6 +327,11 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 						tsonValue:     rand.Float64() * 100,
 						tsonTimestamp: timestamp,
 					}
+				default:
+					new[node] = map[string]any{
+						tsonValue:     value.(map[string]any)[tsonValue],
+						tsonTimestamp: timestamp,
+					}
 				}
 			} else if r < (changeRate + maintainRate) {
 				// 값은 변하지 않고 타임스탬프만 변경되는 패치 생성
-- 
2.43.0


From 52561dac5516cfc7f55b0d6818de9db177449912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 42/42] fix: write a signal without value (null) in
 formatPrimitive

---
 internal/tson/serialization.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index f388f45..b98199a 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -421,6 +421,8 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 // formatPrimitive converts a primitive value (string, float64, bool) into its string representation.
 func formatPrimitive(v any) (string, error) {
 	switch t := v.(type) {
+	case nil:
+		return "null", nil
 	case string:
 		return quote(t), nil
 	case float64, int, int64, uint, uint64:
-- 
2.43.0

