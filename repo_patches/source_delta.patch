From 9e54d49104db9b44950bfe2d520024b428be002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 01/43] fix: tson: accept and print null instead of panicking
 or failing on it

---
 internal/tson/serialization.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 9f7f10d..f727a7f 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -48,6 +48,8 @@ func Marshal(t Tson) ([]byte, error) {
 // array: 	element inside an array (timestamp is printed before the primitive).
 func marshalTson(v Value, ctx int) (string, error) {
 	switch val := v.(type) {
+	case nil:
+		return "null", nil
 	case Object:
 		return marshalObject(val)
 	case Array:
@@ -200,6 +202,9 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 			if err != nil {
 				return "", err
 			}
+			if leafVal == nil { // null carries no timestamp
+				return primStr, nil
+			}
 			switch ctx {
 			case object:
 				return primStr, nil
@@ -419,6 +424,8 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 // formatPrimitive converts a primitive value (string, float64, bool) into its string representation.
 func formatPrimitive(v any) (string, error) {
 	switch t := v.(type) {
+	case nil:
+		return "null", nil
 	case string:
 		return strconv.Quote(t), nil
 	case float64, int, int64, uint, uint64:
@@ -470,8 +477,10 @@ func wrapIfPrimitive(v any, timestamp int64) Value {
 			val.Timestamp = timestamp
 		}
 		return val
-	default:
-		return v.(Value)
+	case Value:
+		return val
+	default: // null carries no timestamp
+		return nil
 	}
 }
 
-- 
2.43.0


From 9a6daa7f4dadb925786cbd176295f8dfa07908b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 02/43] fix: tson: reject trailing data after a document

---
 internal/tson/serialization.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index f727a7f..ac4efef 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -449,8 +449,15 @@ type Parser struct {
 // and stores the result in the value pointed to by t.
 func Unmarshal(data []byte, t *Tson) (err error) {
 	p := &Parser{input: data, pos: 0}
-	*t, err = p.parseTson()
-	return err
+	v, err := p.parseTson()
+	if err != nil {
+		return err
+	}
+	if p.skipWhitespace(); p.pos < len(p.input) {
+		return fmt.Errorf("unexpected trailing data at pos %d", p.pos)
+	}
+	*t = v
+	return nil
 }
 
 // wrapIfPrimitive wraps a raw primitive with a timestamp.
-- 
2.43.0


From e2c576fe1bcd858b6733d2e34c66f4c0ee893d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 03/43] fix: tson: bound the nesting depth accepted by the
 parser

---
 internal/tson/serialization.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index ac4efef..bf77717 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -443,6 +443,20 @@ func formatPrimitive(v any) (string, error) {
 type Parser struct {
 	input []byte
 	pos   int
+	depth int
+}
+
+// maxDepth is the deepest nesting of objects and arrays that is accepted
+// (the same limit as encoding/json).
+const maxDepth = 10000
+
+// enter notes that one more object or array has been opened.
+func (p *Parser) enter() error {
+	if p.depth >= maxDepth {
+		return fmt.Errorf("exceeded max nesting depth at pos %d", p.pos)
+	}
+	p.depth++
+	return nil
 }
 
 // Unmarshal parses the TSON bytes with '<>' timestamp
@@ -716,6 +730,10 @@ func (p *Parser) parseObject() (Value, error) {
 	if err := p.expect('{'); err != nil {
 		return nil, err
 	}
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer func() { p.depth-- }()
 	obj := Object{}
 	p.skipWhitespace()
 	if p.peek() == '}' {
@@ -767,6 +785,10 @@ func (p *Parser) parseArray() (Value, error) {
 	if err := p.expect('['); err != nil {
 		return nil, err
 	}
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer func() { p.depth-- }()
 	arr := Array{}
 	p.skipWhitespace()
 	if p.peek() == ']' {
-- 
2.43.0


From 2e9ae425038157bd8b5efa34894784cff5f20e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 04/43] fix: tson: read exponents and print fractions of
 numbers

---
 internal/tson/serialization.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index bf77717..9aa2484 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -192,7 +192,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 	case bool:
 		return fmt.Sprintf("%v", t), nil
 	case float64:
-		return fmt.Sprintf("%.f", t), nil
+		return fmt.Sprintf("%v", t), nil
 	case string:
 		return strconv.Quote(t), nil
 
@@ -692,6 +692,15 @@ func (p *Parser) parseNumber() (float64, error) {
 			p.pos++
 		}
 	}
+	if ch := p.peek(); ch == 'e' || ch == 'E' {
+		p.pos++
+		if ch := p.peek(); ch == '+' || ch == '-' {
+			p.pos++
+		}
+		for p.pos < len(p.input) && p.input[p.pos] >= '0' && p.input[p.pos] <= '9' {
+			p.pos++
+		}
+	}
 	numStr := string(p.input[start:p.pos])
 	return strconv.ParseFloat(numStr, 64)
 }
-- 
2.43.0


From 1f95f064c6b8c0e0e3f1c330235fbc0429962152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 05/43] fix: tson: read back every string escape that is
 written

---
 internal/tson/serialization.go | 42 ++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 9aa2484..5495224 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -14,6 +14,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // ToCompatibleTsonString converts TSON to a string.
@@ -665,6 +667,36 @@ func (p *Parser) parseString() (string, error) {
 				result = append(result, '\r')
 			case 't':
 				result = append(result, '\t')
+			case 'a':
+				result = append(result, '\a')
+			case 'v':
+				result = append(result, '\v')
+			case 'x':
+				code, err := p.parseHex(2)
+				if err != nil {
+					return "", err
+				}
+				result = append(result, byte(code))
+			case 'u':
+				code, err := p.parseHex(4)
+				if err != nil {
+					return "", err
+				}
+				if utf16.IsSurrogate(rune(code)) && p.startsWith("\\u") {
+					p.pos += 2
+					low, err := p.parseHex(4)
+					if err != nil {
+						return "", err
+					}
+					code = uint64(utf16.DecodeRune(rune(code), rune(low)))
+				}
+				result = utf8.AppendRune(result, rune(code))
+			case 'U':
+				code, err := p.parseHex(8)
+				if err != nil {
+					return "", err
+				}
+				result = utf8.AppendRune(result, rune(code))
 			default:
 				return "", fmt.Errorf("invalid escape character: %c", esc)
 			}
@@ -677,6 +709,16 @@ func (p *Parser) parseString() (string, error) {
 	return "", fmt.Errorf("unterminated string")
 }
 
+// parseHex parses the n hexadecimal digits of an escape sequence.
+func (p *Parser) parseHex(n int) (uint64, error) {
+	if p.pos+n > len(p.input) {
+		return 0, fmt.Errorf("unterminated escape sequence")
+	}
+	digits := string(p.input[p.pos : p.pos+n])
+	p.pos += n
+	return strconv.ParseUint(digits, 16, 32)
+}
+
 // parseNumber parses a number.
 func (p *Parser) parseNumber() (float64, error) {
 	start := p.pos
-- 
2.43.0


From 5b2cde31f5a2fb713ccf0a24c4c6d0db4ab39078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 06/43] fix: tson: keep the timestamp that follows a value
 inside a container

---
 internal/tson/serialization.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 5495224..6624b5e 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -800,7 +800,7 @@ func (p *Parser) parseObject() (Value, error) {
 		}
 		p.skipWhitespace()
 		// optional timestamp after key
-		var ts int64 = 0
+		ts := DefaultTimestamp
 		if p.peek() == '<' {
 			ts, err = p.parseTimestamp()
 			if err != nil {
@@ -848,7 +848,7 @@ func (p *Parser) parseArray() (Value, error) {
 	}
 	for {
 		p.skipWhitespace()
-		var ts int64 = 0
+		ts := DefaultTimestamp
 		if p.peek() == '<' {
 			var err error
 			ts, err = p.parseTimestamp()
-- 
2.43.0


From fcef75ec0b82c880df6d3494dd2700f8e919cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 07/43] fix: tson: decode compatible TSON without panics or
 rounded timestamps

---
 internal/tson/tson.go | 74 +++++++++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 16 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index d41dc9a..1355755 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -13,8 +13,10 @@
 package tson
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
+	"io"
 	"reflect"
 	"sort"
 	"strconv"
@@ -214,46 +216,79 @@ func ToCompatibleTsonBytes(t Tson) (j []byte, err error) {
 // FromCompatibleTsonBytes converts a JSON byte array (with leaf nodes as { "value": ..., "timestamp": ... })
 // into a Tson object.
 func FromCompatibleTsonBytes(data []byte, t *Tson) error {
-	var convert func(v any) Value
-	convert = func(v any) Value {
+	var convert func(v any) (Value, error)
+	convert = func(v any) (Value, error) {
 		switch t := v.(type) {
+		case nil:
+			return nil, nil
 		case map[string]any:
 			if isLeaf, leafVal, ts := checkLeaf(t); isLeaf {
-				switch leafVal.(type) {
+				switch val := leafVal.(type) {
 				case string:
-					return Leaf[string]{Value: leafVal.(string), Timestamp: ts}
-				case float64:
-					return Leaf[float64]{Value: leafVal.(float64), Timestamp: ts}
+					return Leaf[string]{Value: val, Timestamp: ts}, nil
+				case json.Number:
+					f, err := val.Float64()
+					if err != nil {
+						return nil, err
+					}
+					return Leaf[float64]{Value: f, Timestamp: ts}, nil
 				case bool:
-					return Leaf[bool]{Value: leafVal.(bool), Timestamp: ts}
+					return Leaf[bool]{Value: val, Timestamp: ts}, nil
+				case nil:
+					return nil, nil
 				default:
-					return nil // NOT supported
+					return nil, fmt.Errorf("FromCompatibleTsonBytes: invalid leaf type %T", leafVal)
 				}
 			}
 			obj := Object{}
 			for key, val := range t {
-				obj[key] = convert(val)
+				child, err := convert(val)
+				if err != nil {
+					return nil, err
+				}
+				obj[key] = child
 			}
-			return obj
+			return obj, nil
 		case []any:
 			arr := Array{}
 			for _, elem := range t {
-				arr = append(arr, convert(elem))
+				child, err := convert(elem)
+				if err != nil {
+					return nil, err
+				}
+				arr = append(arr, child)
 			}
-			return arr
+			return arr, nil
 		default:
-			panic("FromCompatibleTsonBytes: Not a compatible TSON data")
+			return nil, fmt.Errorf("FromCompatibleTsonBytes: Not a compatible TSON data (%T)", v)
 		}
 	}
 
-	var intermediate any
-	if err := json.Unmarshal(data, &intermediate); err != nil {
+	intermediate, err := decodeExact(data)
+	if err != nil {
 		return err
 	}
-	*t = convert(intermediate)
+	v, err := convert(intermediate)
+	if err != nil {
+		return err
+	}
+	*t = v
 	return nil
 }
 
+// decodeExact decodes JSON data without rounding its numbers.
+func decodeExact(data []byte) (v any, err error) {
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+	if err = dec.Decode(&v); err != nil {
+		return nil, err
+	}
+	if _, err = dec.Token(); err != io.EOF {
+		return nil, fmt.Errorf("unexpected data after top-level value")
+	}
+	return v, nil
+}
+
 // ToCompatibleTson converts the given TSON to a JSON object.
 // NOTE: The timestamp field is kept
 func ToCompatibleTson(t Tson, o *any) error {
@@ -472,6 +507,13 @@ func checkLeaf(m map[string]any) (bool, any, int64) {
 				return true, val, int64(t)
 			case int64:
 				return true, val, t
+			case json.Number:
+				if ts, err := t.Int64(); err == nil {
+					return true, val, ts
+				}
+				if ts, err := t.Float64(); err == nil {
+					return true, val, int64(ts)
+				}
 			}
 		}
 	}
-- 
2.43.0


From be89d8641587c09f2cf285d39093ca34bfe60d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 08/43] fix: tson: compare timestamps exactly

---
 internal/tson/tson.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 1355755..7b54b09 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -118,10 +118,10 @@ func Equal(t1, t2 Tson) (ret bool, err error) {
 	)
 
 	// Check if the given TSONs are valid
-	if err = json.Unmarshal(b1, &o1); err != nil {
+	if o1, err = decodeExact(b1); err != nil {
 		return false, err
 	}
-	if err = json.Unmarshal(b2, &o2); err != nil {
+	if o2, err = decodeExact(b2); err != nil {
 		return false, err
 	}
 	return reflect.DeepEqual(o1, o2), nil
-- 
2.43.0


From afc5d4bc32e751fd78c9562d9045a8df9232fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 09/43] fix: tson: strip the timestamp of a top-level leaf and
 report failures in ToJson

---
 internal/tson/tson.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 7b54b09..c83ac1a 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -352,7 +352,15 @@ func ToJson(t Tson, j *any) (err error) {
 		}
 	}
 
-	ToCompatibleTson(t, j)
+	if err = ToCompatibleTson(t, j); err != nil {
+		return err
+	}
+	if m, ok := (*j).(map[string]any); ok {
+		if isLeaf, leafVal, _ := checkLeaf(m); isLeaf {
+			*j = leafVal
+			return nil
+		}
+	}
 	removeTimestamp(*j)
 
 	return nil
-- 
2.43.0


From 22ccb93175160b87498d4af094530d0e58a2bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 10/43] fix: tson: leave the caller's JSON untouched in
 FromJson and accept every JSON value

---
 internal/tson/tson.go | 59 +++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index c83ac1a..51011dc 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -369,45 +369,48 @@ func ToJson(t Tson, j *any) (err error) {
 // FromJson converts the given JSON object to a TSON.
 // NOTE: The timestamp field is added with the default(< 0) value.
 func FromJson(o any, t *Tson) (err error) {
-	var addTimestamp func(o any)
-	addTimestamp = func(o any) {
+	var addTimestamp func(o any) (Value, error)
+	addTimestamp = func(o any) (Value, error) {
 		switch value := o.(type) {
+		case nil:
+			return nil, nil
+		case string:
+			return Leaf[string]{Value: value, Timestamp: DefaultTimestamp}, nil
+		case float64:
+			return Leaf[float64]{Value: value, Timestamp: DefaultTimestamp}, nil
+		case bool:
+			return Leaf[bool]{Value: value, Timestamp: DefaultTimestamp}, nil
 		case map[string]any:
+			obj := Object{}
 			for k, v := range value {
-				switch leaf := v.(type) {
-				case string:
-					value[k] = Leaf[string]{Value: leaf, Timestamp: DefaultTimestamp}
-				case float64:
-					value[k] = Leaf[float64]{Value: leaf, Timestamp: DefaultTimestamp}
-				case bool:
-					value[k] = Leaf[bool]{Value: leaf, Timestamp: DefaultTimestamp}
-				default:
-					addTimestamp(v)
+				child, err := addTimestamp(v)
+				if err != nil {
+					return nil, err
 				}
+				obj[k] = child
 			}
+			return obj, nil
 		case []any:
-			for i, v := range value {
-				switch leaf := v.(type) {
-				case string:
-					value[i] = Leaf[string]{Value: leaf, Timestamp: DefaultTimestamp}
-				case float64:
-					value[i] = Leaf[float64]{Value: leaf, Timestamp: DefaultTimestamp}
-				case bool:
-					value[i] = Leaf[bool]{Value: leaf, Timestamp: DefaultTimestamp}
-				default:
-					addTimestamp(v)
+			arr := Array{}
+			for _, v := range value {
+				child, err := addTimestamp(v)
+				if err != nil {
+					return nil, err
 				}
+				arr = append(arr, child)
 			}
+			return arr, nil
+		default:
+			return nil, fmt.Errorf("FromJson: unsupported type %T", o)
 		}
 	}
 
-	addTimestamp(o)
-
-	// Step 1: Convert TSON(any) to CompatibleTSON(JSON with timestamp)
-	str, err := json.Marshal(o)
-
-	// Step 2: Convert CompatibleTSON to TSON
-	return FromCompatibleTsonBytes(str, t)
+	v, err := addTimestamp(o)
+	if err != nil {
+		return err
+	}
+	*t = v
+	return nil
 }
 
 // ToJsonBytes converts the given TSON to a JSON byte slice.
-- 
2.43.0


From 7b631ef5982180b134d486015471fc47ce3d31df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 11/43] fix: tson: handle null in GetLatestTimestamp and the
 sorted conversion

---
 internal/tson/tson.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 51011dc..13d2484 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -155,6 +155,8 @@ func GetLatestTimestamp(t Tson) int64 {
 	}
 
 	switch v := t.(type) {
+	case nil: // null carries no timestamp
+		return DefaultTimestamp
 	case Leaf[string]:
 		return v.Timestamp
 	case Leaf[float64]:
@@ -544,6 +546,8 @@ func ToCompatibleTsonBytesSorted(t Tson) ([]byte, error) {
 // toSortedInterface recursively converts TSON -> map/slice with sorted keys.
 func toSortedInterface(t Tson) (any, error) {
 	switch val := t.(type) {
+	case nil:
+		return nil, nil
 	case Leaf[string]:
 		return map[string]any{"value": val.Value, "timestamp": val.Timestamp}, nil
 	case Leaf[float64]:
-- 
2.43.0


From 99e6017a05c7a2fe4e8aee4ce83ad6013626a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 12/43] fix: tson: decode paths per segment and accept root and
 dotted paths

---
 internal/tson/tson.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 13d2484..b43acf7 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -102,13 +102,32 @@ func GetValue(t Tson, path string) (v Value, err error) {
 		}
 	}
 
-	rfc6901Decoder := strings.NewReplacer("~1", "/", "~0", "~")
-	path = rfc6901Decoder.Replace(path)
-	parts := strings.Split(path, "/")[1:]
+	parts := SplitPath(path)
+	if len(parts) == 0 { // The empty path denotes the whole document
+		return t, nil
+	}
 
 	return getValue(t, parts)
 }
 
+// SplitPath splits a path into its decoded segments.
+// A path that starts with '/' is a JSON pointer (RFC 6901), in which only '/' separates the segments;
+// any other path, except the empty one, is in the dotted form (Vehicle.Speed).
+func SplitPath(path string) []string {
+	if path == "" {
+		return nil
+	}
+	if path[0] != '/' {
+		path = "/" + strings.ReplaceAll(path, ".", "/")
+	}
+	rfc6901Decoder := strings.NewReplacer("~1", "/", "~0", "~")
+	parts := strings.Split(path[1:], "/")
+	for i, part := range parts {
+		parts[i] = rfc6901Decoder.Replace(part)
+	}
+	return parts
+}
+
 // Equal checks if two TSONs are equal, including timestamps.
 func Equal(t1, t2 Tson) (ret bool, err error) {
 	var (
-- 
2.43.0


From e2ab8df8dd8f071df2f84ce2b102d5477fede5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 13/43] fix: tsonpatch: chain operations and leave the given
 document unchanged

---
 internal/tson/tson.go           | 20 ++++++++++++++++++++
 internal/tsonpatch/tsonpatch.go | 10 +++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index b43acf7..4892267 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -128,6 +128,26 @@ func SplitPath(path string) []string {
 	return parts
 }
 
+// Clone returns a deep copy of the given TSON.
+func Clone(t Tson) Tson {
+	switch v := t.(type) {
+	case Object:
+		obj := make(Object, len(v))
+		for key, value := range v {
+			obj[key] = Clone(value)
+		}
+		return obj
+	case Array:
+		arr := make(Array, len(v))
+		for i, value := range v {
+			arr[i] = Clone(value)
+		}
+		return arr
+	default: // Leaves are immutable values
+		return t
+	}
+}
+
 // Equal checks if two TSONs are equal, including timestamps.
 func Equal(t1, t2 Tson) (ret bool, err error) {
 	var (
diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index df2802b..b01932b 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -139,16 +139,24 @@ func GeneratePatchWithTimestamp(origin, modified tson.Tson) (Patch, error) {
 }
 
 // ApplyPatch applies a JSON patch to a TSON document
+// The operations are applied in order to a copy of the document; doc itself is left unchanged.
 func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
+	t = tson.Clone(doc)
 	for _, op := range patch {
-		if t, err = ApplyOperation(doc, op); err != nil {
+		if t, err = applyOperation(t, op); err != nil {
 			return nil, err
 		}
 	}
 	return t, nil
 }
 
+// ApplyOperation applies a single operation to a copy of the document.
 func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
+	return applyOperation(tson.Clone(doc), op)
+}
+
+// applyOperation applies a single operation to doc in place.
+func applyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 	path := rfc6901Decoder.Replace(op.Path)
 
 	// Split the path into parts, ignoring the first empty string
-- 
2.43.0


From 7e47a80c89d6278ccaafa16d9720ad73ca5277d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 14/43] fix: tsonpatch: address the nodes that generated paths
 name

---
 internal/tsonpatch/tsonpatch.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index b01932b..82905fb 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -157,11 +157,8 @@ func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 
 // applyOperation applies a single operation to doc in place.
 func applyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
-	path := rfc6901Decoder.Replace(op.Path)
-
 	// Split the path into parts, ignoring the first empty string
-	path = strings.ReplaceAll(path, ".", "/")
-	parts := strings.Split(path, "/")
+	parts := tson.SplitPath(op.Path)
 
 	// Traverse the TSON document
 	if t, err = applyTraverse(doc, parts, op); err != nil {
@@ -440,19 +437,10 @@ func getIndex(part string) (idx int, err error) {
 }
 
 // Note: http://tools.ietf.org/html/rfc6901#section-4 :
-var (
-	rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
-)
+var rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
 
 func makePath(path string, newPart any) string {
 	key := rfc6901Encoder.Replace(fmt.Sprintf("%v", newPart))
-	if path == "" {
-		return "/" + key
-	}
-	if strings.HasSuffix(path, "/") {
-		return path + key
-	}
 	return path + "/" + key
 }
 
-- 
2.43.0


From 93e2f16c7b15b726e2ba6bc256e2ca3fee162651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 15/43] fix: tsonpatch: reject inapplicable operations with an
 error instead of a panic

---
 internal/tsonpatch/tsonpatch.go | 126 ++++++++++++++------------------
 1 file changed, 55 insertions(+), 71 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 82905fb..a7c399a 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -169,13 +169,13 @@ func applyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 
 // applyTraverse 함수 수정
 func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, err error) {
-	if len(parts) == 0 { // If the path is empty, return
-		return doc, nil
+	if len(parts) == 0 { // The empty path denotes the whole document
+		return applyRoot(op)
 	}
 
-	switch doc.(type) { // If doc is a leaf node, return
+	switch doc.(type) { // A leaf node has no children
 	case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-		return doc, nil
+		return nil, fmt.Errorf("applyTraverse(): Cannot %s %q below a leaf", op.Op, parts[0])
 	}
 
 	switch part := parts[0]; j := doc.(type) {
@@ -205,7 +205,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			case OpRemove:
 				delete(j, part)
 			case OpMove, OpCopy, OpTest:
-				panic(fmt.Sprintf("applyTraverse(): Operation %s not implemented", op.Op))
+				return nil, fmt.Errorf("applyTraverse(): Operation %s not implemented", op.Op)
 			default:
 				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
 			}
@@ -213,77 +213,18 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 		}
 
 		switch value := j[part].(type) { // Recursively traverse the TSON document
-		case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-			panic("applyTraverse(): Leaf[T] should not be here")
-		case tson.Object:
+		case tson.Object, tson.Array, tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
 			if j[part], err = applyTraverse(value, parts[1:], op); err != nil {
 				return nil, err
 			}
-		case tson.Array:
-			idx, err := getIndex(parts[1])
+		case nil:
+			// 경로가 없는 경우 새로 생성
+			container, err := newContainer(op, part, parts[1])
 			if err != nil {
 				return nil, err
 			}
-
-			switch op.Op {
-			case OpAdd, OpReplace:
-				if idx >= len(value) {
-					// 배열 크기가 충분하지 않은 경우 확장
-					newArray := make(tson.Array, idx+1)
-					copy(newArray, value)
-					value = newArray
-					j[part] = value
-				}
-
-				// 타입 변환 로직 개선
-				switch opValue := op.Value.(type) {
-				case string:
-					value[idx] = tson.Leaf[string]{Value: opValue, Timestamp: op.Timestamp}
-				case float64:
-					value[idx] = tson.Leaf[float64]{Value: opValue, Timestamp: op.Timestamp}
-				case int:
-					value[idx] = tson.Leaf[float64]{Value: float64(opValue), Timestamp: op.Timestamp}
-				case bool:
-					value[idx] = tson.Leaf[bool]{Value: opValue, Timestamp: op.Timestamp}
-				case nil:
-					return nil, fmt.Errorf("applyTraverse(): Nil value not supported for array element")
-				default:
-					if elem, ok := value[idx].(tson.Object); ok || elem == nil {
-						// 객체나 nil인 경우 재귀적으로 처리
-						if j[part], err = applyTraverse(value[idx], parts[1:], op); err != nil {
-							return nil, err
-						}
-					} else {
-						return nil, fmt.Errorf("applyTraverse(): Unsupported array element type %T", op.Value)
-					}
-				}
-			case OpRemove:
-				j[part] = append(value[:idx], value[idx+1:]...)
-			default:
-				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
-			}
-		case nil:
-			// 경로가 없는 경우 새로 생성
-			if op.Op == OpAdd || op.Op == OpReplace {
-				// 다음 부분이 숫자면 배열, 아니면 객체 생성
-				_, err := getIndex(parts[1])
-				if err == nil {
-					// 배열 생성
-					newArray := make(tson.Array, 0)
-					j[part] = newArray
-					if j[part], err = applyTraverse(newArray, parts[1:], op); err != nil {
-						return nil, err
-					}
-				} else {
-					// 객체 생성
-					newObj := make(tson.Object)
-					j[part] = newObj
-					if j[part], err = applyTraverse(newObj, parts[1:], op); err != nil {
-						return nil, err
-					}
-				}
-			} else {
-				return nil, fmt.Errorf("applyTraverse(): Cannot %s on nil value at %s", op.Op, part)
+			if j[part], err = applyTraverse(container, parts[1:], op); err != nil {
+				return nil, err
 			}
 		default:
 			return nil, fmt.Errorf("traverse(): Unknown type %T for value", value)
@@ -333,6 +274,11 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			}
 		} else {
 			// 중간 부분이면 재귀 호출
+			if j[idx] == nil {
+				if j[idx], err = newContainer(op, part, parts[1]); err != nil {
+					return nil, err
+				}
+			}
 			if j[idx], err = applyTraverse(j[idx], parts[1:], op); err != nil {
 				return nil, err
 			}
@@ -429,8 +375,46 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 // 	}
 // }
 
+// applyRoot applies an operation that targets the whole document.
+func applyRoot(op Operation) (tson.Tson, error) {
+	switch op.Op {
+	case OpAdd, OpReplace:
+		switch value := op.Value.(type) {
+		case string:
+			return tson.Leaf[string]{Value: value, Timestamp: op.Timestamp}, nil
+		case float64:
+			return tson.Leaf[float64]{Value: value, Timestamp: op.Timestamp}, nil
+		case int:
+			return tson.Leaf[float64]{Value: float64(value), Timestamp: op.Timestamp}, nil
+		case bool:
+			return tson.Leaf[bool]{Value: value, Timestamp: op.Timestamp}, nil
+		default:
+			return nil, fmt.Errorf("applyRoot(): Unsupported value type %T", op.Value)
+		}
+	case OpRemove:
+		return nil, nil
+	default:
+		return nil, fmt.Errorf("applyRoot(): Unknown operation %s", op.Op)
+	}
+}
+
+// newContainer returns the empty array or object that is created for a missing node at part,
+// depending on whether the path goes on with an index or with a key.
+func newContainer(op Operation, part, next string) (tson.Tson, error) {
+	if op.Op != OpAdd && op.Op != OpReplace {
+		return nil, fmt.Errorf("applyTraverse(): Cannot %s on nil value at %s", op.Op, part)
+	}
+	if _, err := getIndex(next); err == nil {
+		return tson.Array{}, nil
+	}
+	return tson.Object{}, nil
+}
+
+// maxIndex bounds the length to which an operation can extend an array.
+const maxIndex = 1 << 20
+
 func getIndex(part string) (idx int, err error) {
-	if idx, err = strconv.Atoi(part); err != nil {
+	if idx, err = strconv.Atoi(part); err != nil || idx < 0 || idx > maxIndex {
 		return -1, fmt.Errorf("getIndex(): Invalid index %s", part)
 	}
 	return idx, nil
-- 
2.43.0


From 0ba5f00a474fdf74f8f4bcc11e50b2e7cd7c1a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 16/43] fix: logument: replay every version onto the previous
 one in Snapshot

---
 internal/logument/logument.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 98dda3b..63e25a1 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -219,19 +219,14 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 		panic(err)
 	}
 
-	var timedSnapshot tsonSnapshot
-
-	if latestVersion != vk {
-		// Apply patches from the latest version to the target version
-		for i := latestVersion + 1; i <= vk; i++ {
-			var err error
-			timedSnapshot, err = tsonpatch.ApplyPatch(latestSnapshot, lgm.Patches[i])
-			if err != nil {
-				panic("Failed to make a snapshot with the given version. Error: " + err.Error())
-			}
+	timedSnapshot := latestSnapshot
+
+	// Apply patches from the latest version to the target version
+	for i := latestVersion + 1; i <= vk; i++ {
+		timedSnapshot, err = tsonpatch.ApplyPatch(timedSnapshot, lgm.Patches[i])
+		if err != nil {
+			panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 		}
-	} else {
-		timedSnapshot = latestSnapshot
 	}
 
 	if _, exists := lgm.Snapshots[vk]; !exists {
-- 
2.43.0


From 9e5b23ac9d1be0561a11b8fa1766bd580aab0adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 17/43] fix: logument: keep an own copy of stored patches

---
 internal/logument/logument.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 63e25a1..7709fe1 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -160,7 +161,8 @@ func (lgm *Logument) Store(inputPatches any) {
 	}
 
 	if lgm.PatchPool == nil {
-		lgm.PatchPool = patches
+		// Keep an own copy: the caller may reuse its slice
+		lgm.PatchPool = slices.Clone(patches)
 	} else {
 		lgm.PatchPool = append(lgm.PatchPool, patches...)
 	}
-- 
2.43.0


From c9d84e6f5e68546726594b58d3ad80e1f6282ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 18/43] fix: logument: compare container values without
 panicking

---
 internal/logument/logument.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 7709fe1..f199229 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"reflect"
 	"slices"
 	"sort"
 	"strconv"
@@ -455,7 +456,7 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 			// Compare to previous value if it exists at the same path
 			if prev, exists := latestValues[patch.Path]; exists {
 				// If value has changed, keep the patch and update the status bool { return paths[i] < paths[j] })
-				if prev != patch.Value {
+				if !reflect.DeepEqual(prev, patch.Value) {
 					compactPatches = append(compactPatches, patch)
 					latestValues[patch.Path] = patch.Value
 				}
@@ -495,7 +496,7 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 				// Compare to previous value if it exists at the same path
 				if prev, exists := latestValues[p.Path]; exists {
 					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
+					if !reflect.DeepEqual(prev, p.Value) {
 						compactPatches = append(compactPatches, p)
 						latestValues[p.Path] = p.Value
 					}
@@ -609,7 +610,7 @@ func (lgm *Logument) Compact(targetPath string) {
 				// Compare to previous value if it exists at the same path
 				if prev, exists := latestValues[p.Path]; exists {
 					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
+					if !reflect.DeepEqual(prev, p.Value) {
 						compactPatches = append(compactPatches, p)
 						latestValues[p.Path] = p.Value
 					}
-- 
2.43.0


From 9439135fb9457c0591b1b7c7a9d951fd919faec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 19/43] fix: logument: return the compacted patches from Track
 and leave the log unchanged

---
 internal/logument/logument.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index f199229..e7567b2 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -467,7 +467,7 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 				latestValues[patch.Path] = patch.Value
 			}
 		}
-		lgm.Patches[path] = compactPatches
+		packedPatches[path] = compactPatches
 	}
 
 	return packedPatches
-- 
2.43.0


From 3a7170d2949d0150d753adbe2ba5fbd03e428371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 20/43] fix: logument: leave the log unchanged in History and
 order its result

---
 internal/logument/logument.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index e7567b2..c6684c5 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -598,6 +598,15 @@ func (lgm *Logument) Compact(targetPath string) {
 		panic("Versions are not continuous.")
 	}
 
+	for version, patches := range lgm.compacted(targetPath) {
+		lgm.Patches[version] = patches
+	}
+}
+
+// compacted returns the patches of every version without those at or below
+// targetPath that do not change the value
+func (lgm *Logument) compacted(targetPath string) map[uint64]tsonPatches {
+	compacted := make(map[uint64]tsonPatches, len(lgm.Patches))
 	latestValues := make(map[string]any)
 
 	versions := lgm.getSortedVersions("patch")
@@ -625,8 +634,10 @@ func (lgm *Logument) Compact(targetPath string) {
 				compactPatches = append(compactPatches, p)
 			}
 		}
-		lgm.Patches[version] = compactPatches
+		compacted[version] = compactPatches
 	}
+
+	return compacted
 }
 
 func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
@@ -637,11 +648,11 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 		panic("Versions are not continuous.")
 	}
 
-	lgm.Compact(targetPath)
+	compacted := lgm.compacted(targetPath)
 
 	historyPatches := make(map[string]tsonPatches)
-	for _, patches := range lgm.Patches {
-		for _, patch := range patches {
+	for _, version := range lgm.getSortedVersions("patch") {
+		for _, patch := range compacted[version] {
 			path := rfc6901Decoder.Replace(patch.Path)
 			if strings.HasPrefix(path, targetPath) {
 				historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
@@ -651,11 +662,13 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 
 	// Add the initial value to the history
 	for key := range historyPatches {
-		val, err := tson.GetValue(lgm.Snapshots[0], key)
-		if err != nil {
-			panic("Failed to get the value from the snapshot. Error: " + err.Error())
-		}
-		if val != nil {
+		sort.SliceStable(historyPatches[key], func(i, j int) bool {
+			return historyPatches[key][i].Timestamp < historyPatches[key][j].Timestamp
+		})
+
+		// A path added later has no initial value
+		val, err := tson.GetValue(lgm.Snapshots[lgm.Version[0]], key)
+		if err == nil && val != nil {
 			historyPatches[key] = append([]tsonpatch.Operation{{
 				Op:        tsonpatch.OpAdd,
 				Path:      key,
-- 
2.43.0


From c4372ec8dd1e95589c285acdc083d3b2f611bf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 21/43] fix: logument: match whole path segments in Compact and
 History

---
 internal/logument/logument.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index c6684c5..3251768 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -6,19 +6,12 @@ import (
 	"slices"
 	"sort"
 	"strconv"
-	"strings"
 
 	"github.com/CAU-CPSS/logument/internal/tson"
 	"github.com/CAU-CPSS/logument/internal/tsonpatch"
 	"github.com/davecgh/go-spew/spew"
 )
 
-// Note: http://tools.ietf.org/html/rfc6901#section-4 :
-var (
-	// rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
-)
-
 type tsonSnapshot = tson.Tson
 type tsonPatches = tsonpatch.Patch // []jsonpatch.Operation
 
@@ -603,6 +596,12 @@ func (lgm *Logument) Compact(targetPath string) {
 	}
 }
 
+// isUnder reports whether path names targetPath or a node below it
+func isUnder(path, targetPath string) bool {
+	parts, target := tson.SplitPath(path), tson.SplitPath(targetPath)
+	return len(parts) >= len(target) && slices.Equal(parts[:len(target)], target)
+}
+
 // compacted returns the patches of every version without those at or below
 // targetPath that do not change the value
 func (lgm *Logument) compacted(targetPath string) map[uint64]tsonPatches {
@@ -614,8 +613,7 @@ func (lgm *Logument) compacted(targetPath string) map[uint64]tsonPatches {
 		ps := lgm.Patches[version]
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
-			pt := rfc6901Decoder.Replace(p.Path)
-			if strings.HasPrefix(pt, targetPath) {
+			if isUnder(p.Path, targetPath) {
 				// Compare to previous value if it exists at the same path
 				if prev, exists := latestValues[p.Path]; exists {
 					// If value has changed, keep the patch and update the status
@@ -653,8 +651,7 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 	historyPatches := make(map[string]tsonPatches)
 	for _, version := range lgm.getSortedVersions("patch") {
 		for _, patch := range compacted[version] {
-			path := rfc6901Decoder.Replace(patch.Path)
-			if strings.HasPrefix(path, targetPath) {
+			if isUnder(patch.Path, targetPath) {
 				historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
 			}
 		}
-- 
2.43.0


From 11b6960a9ee9eaa648701a5003de81489279c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 22/43] fix: logument: keep the start version and its snapshot
 in Slice

---
 internal/logument/logument.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 3251768..af0c58f 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -312,7 +312,13 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 			"\nLatest version: " + strconv.FormatUint(lgm.Version[len(lgm.Version)-1], 10))
 	}
 
+	// The initial version has no patch but belongs to the subset, too
 	var SlicedVersions []uint64
+	for _, version := range lgm.Version {
+		if version >= vi && version <= vj {
+			SlicedVersions = append(SlicedVersions, version)
+		}
+	}
 
 	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
 	SlicedSnapshots := make(map[uint64]tsonSnapshot)
@@ -326,25 +332,21 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 	SlicedPatches := make(map[uint64]tsonPatches)
 	for _, version := range versionsFromPatch {
 		if version >= vi && version <= vj {
-			// SlicedVersions always includes all versions between the start and end versions
-			// because lgm.Version and lgm.PatchMap are continuous.
-			// However, lgm.Snapshots may not be continuous,
-			// so the following line works correctly only in this loop.
-			SlicedVersions = append(SlicedVersions, version)
 			SlicedPatches[version] = lgm.Patches[version]
 		}
 	}
 
 	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
+	if _, exists := SlicedSnapshots[vi]; !exists {
 		SlicedSnapshots[vi] = lgm.Snapshot(vi)
 	}
 
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: lgm.Snapshot(vj),
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
-- 
2.43.0


From f949d67511f2530d7247fdbb3eb311492c815a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 23/43] fix: logument: replay all earlier operations in time
 order in TemporalSnapshot

---
 internal/logument/logument.go | 45 +++++++++++++++++------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index af0c58f..26da36b 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -251,44 +251,43 @@ func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
 	latestSnapshot := lgm.Snapshots[latestVersion]
 
 	if latestVersion >= lgm.Version[len(lgm.Version)-1] {
-		if lgm.PatchPool != nil {
-			lgm.Append()
-		} else {
+		if lgm.PatchPool == nil {
 			return latestSnapshot
 		}
+		if err := lgm.Append(); err != nil {
+			panic("Failed to append the pending patches. Error: " + err.Error())
+		}
 	}
 
-	// Create a map to store the most recent patch for each path
-	latestPatchMap := make(map[string]tsonpatch.Operation)
-
-	// Iterate through the patches and keep only the most recent one for each path
-	sort.Slice(lgm.Patches[latestVersion+1], func(i, j int) bool {
-		return lgm.Patches[latestVersion+1][i].Timestamp < lgm.Patches[latestVersion+1][j].Timestamp
-	})
+	return lgm.replayUntil(latestVersion, tsk)
+}
 
-	for _, p := range lgm.Patches[latestVersion+1] {
-		if p.Timestamp <= tsk {
-			// Check if we've seen this path before and if this patch is more recent
-			if existing, exists := latestPatchMap[p.Path]; !exists || p.Timestamp > existing.Timestamp {
-				latestPatchMap[p.Path] = p
+// replayUntil applies the operations that follow the snapshot of the given
+// version and are not later than tsk, in the order of their timestamps
+func (lgm *Logument) replayUntil(base uint64, tsk int64) tsonSnapshot {
+	var patches tsonpatch.Patch
+	for _, version := range lgm.getSortedVersions("patch") {
+		if version <= base {
+			continue
+		}
+		for _, p := range lgm.Patches[version] {
+			if p.Timestamp <= tsk {
+				patches = append(patches, p)
 			}
 		}
 	}
 
-	// Convert the map to a slice
-	var latestPatches tsonpatch.Patch
-	for _, patch := range latestPatchMap {
-		latestPatches = append(latestPatches, patch)
-	}
+	// Operations of the same time stay in the order they were recorded
+	sort.SliceStable(patches, func(i, j int) bool {
+		return patches[i].Timestamp < patches[j].Timestamp
+	})
 
 	// Apply patches
-	timedSnapshot, err := tsonpatch.ApplyPatch(latestSnapshot, latestPatches)
+	timedSnapshot, err := tsonpatch.ApplyPatch(lgm.Snapshots[base], patches)
 	if err != nil {
 		panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 	}
 
-	// lgm.Snapshots[latestVersion+1] = timedSnapshot
-
 	return timedSnapshot
 }
 
-- 
2.43.0


From 6872c9d1c27d978cb6dcfcaa6cf1849add1cf6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 24/43] fix: logument: return a continuous log with its
 starting state from TemporalSlice

---
 internal/logument/logument.go | 54 ++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 26da36b..928cc01 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"slices"
 	"sort"
@@ -232,7 +233,8 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 	return timedSnapshot
 }
 
-func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
+// findLatestBefore returns the version of the latest snapshot at the target timestamp
+func (lgm *Logument) findLatestBefore(tsk int64) uint64 {
 	versions := lgm.getSortedVersions("snapshot")
 
 	// Find the latest timestamp before the target timestamp
@@ -247,7 +249,12 @@ func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
 		}
 	}
 
+	return latestVersion
+}
+
+func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
 	// Get the latest snapshot
+	latestVersion := lgm.findLatestBefore(tsk)
 	latestSnapshot := lgm.Snapshots[latestVersion]
 
 	if latestVersion >= lgm.Version[len(lgm.Version)-1] {
@@ -363,16 +370,11 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 			"\nEnd time: " + strconv.FormatInt(tsj, 10))
 	}
 
-	var SlicedVersions []uint64
-
-	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
-	SlicedSnapshots := make(map[uint64]tsonSnapshot)
-	for _, version := range versionsFromSnapshot {
-		snapshot := lgm.Snapshots[version]
-		latestTimestamp := tson.GetLatestTimestamp(snapshot)
-		if latestTimestamp >= tsi && latestTimestamp <= tsj {
-			SlicedSnapshots[version] = snapshot
-		}
+	// The subset starts with the state just before the start time
+	firstVersion, lastVersion := lgm.Version[0], lgm.Version[0]
+	firstSnapshot := lgm.Snapshots[firstVersion]
+	if tsi > math.MinInt64 {
+		firstSnapshot = lgm.replayUntil(lgm.findLatestBefore(tsi-1), tsi-1)
 	}
 
 	versionsFromPatch := lgm.getSortedVersions("patch")
@@ -381,20 +383,31 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 		patches := lgm.Patches[version]
 		for _, patch := range patches {
 			if patch.Timestamp >= tsi && patch.Timestamp <= tsj {
-				// SlicedVersions always includes all versions between the start and end times
-				// because lgm.Version and lgm.PatchMap are continuous.
-				// However, lgm.Snapshots may not be continuous,
-				// so the following line works correctly only in this loop.
-				SlicedVersions = append(SlicedVersions, version)
+				if len(SlicedPatches) == 0 {
+					firstVersion = version - 1
+				}
+				lastVersion = version
 				SlicedPatches[version] = append(SlicedPatches[version], patch)
 			}
 		}
 	}
 
-	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
-		startVersion := SlicedVersions[0]
-		SlicedSnapshots[startVersion] = lgm.TemporalSnapshot(tsi)
+	// Versions are continuous even if some of them have no patch between the
+	// start and end times
+	SlicedVersions := []uint64{firstVersion}
+	for version := firstVersion + 1; version <= lastVersion; version++ {
+		SlicedVersions = append(SlicedVersions, version)
+	}
+
+	SlicedSnapshots := map[uint64]tsonSnapshot{firstVersion: firstSnapshot}
+	for _, version := range lgm.getSortedVersions("snapshot") {
+		if version > firstVersion && version <= lastVersion {
+			snapshot := lgm.Snapshots[version]
+			latestTimestamp := tson.GetLatestTimestamp(snapshot)
+			if latestTimestamp >= tsi && latestTimestamp <= tsj {
+				SlicedSnapshots[version] = snapshot
+			}
+		}
 	}
 
 	slicedLgm := &Logument{
@@ -403,6 +416,7 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 		Patches:   SlicedPatches,
 		PatchPool: nil,
 	}
+	slicedLgm.CurrentState = slicedLgm.Snapshot(lastVersion)
 
 	return slicedLgm
 }
-- 
2.43.0


From 3bd97b0eddabee3379b734168d73acbb054095d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 25/43] fix: logument: compare with the latest state in TestSet

---
 internal/logument/logument.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 928cc01..317b91b 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -558,11 +558,11 @@ func (lgm *Logument) TestSet(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	latesetSnapshot := lgm.Snapshots[lgm.Version[len(lgm.Version)-1]]
-	// if _, exists := lgm.Snapshots[vk]; !exists {
-	// 	s := lgm.Snapshot(vk)
-	// 	lgm.Snapshots[vk] = s
-	// }
+	// The latest state includes the patches that are still pending
+	latesetSnapshot, err := tsonpatch.ApplyPatch(lgm.Snapshot(lgm.Version[len(lgm.Version)-1]), lgm.PatchPool)
+	if err != nil {
+		panic(fmt.Sprintf("failed to apply the pending patches: %v", err))
+	}
 
 	exist_value, err := tson.GetValue(latesetSnapshot, patch.Path)
 	if err != nil {
-- 
2.43.0


From e648dd31a4150a80a44d898401393dfb0e24e797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 26/43] fix: tsonpatch: return an empty patch for equal
 documents

---
 internal/tsonpatch/tsonpatch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index a7c399a..f7995f7 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -123,7 +123,7 @@ func NewOperation(op OpType, path string, value any, timestamp int64) Operation
 // GeneratePatch generates a JSON patch from two TSON documents
 func GeneratePatch(origin, modified tson.Tson) (Patch, error) {
 	// If the two TSON documents are equal, return an empty patch
-	if eq, err := tson.Equal(origin, modified); err != nil && eq {
+	if eq, err := tson.Equal(origin, modified); err == nil && eq {
 		return Patch{}, nil
 	}
 	return handleValues(origin, modified, "", Patch{})
@@ -132,7 +132,7 @@ func GeneratePatch(origin, modified tson.Tson) (Patch, error) {
 // GeneratePatchWithTimestamp는 타임스탬프 변경도 감지하여 패치를 생성합니다.
 func GeneratePatchWithTimestamp(origin, modified tson.Tson) (Patch, error) {
 	// If the two TSON documents are equal, return an empty patch
-	if eq, err := tson.Equal(origin, modified); err != nil && eq {
+	if eq, err := tson.Equal(origin, modified); err == nil && eq {
 		return Patch{}, nil
 	}
 	return handleValuesWithTimestamp(origin, modified, "", Patch{})
-- 
2.43.0


From fe782b7b4442ba170b652f7a1be28557c04f86b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 27/43] fix: tsonpatch: report changed kinds instead of
 panicking

---
 internal/tsonpatch/tsonpatch.go | 38 ++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index f7995f7..c964a8c 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -490,16 +490,42 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			case tson.Array:
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
+			case nil:
+				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			default:
-				panic(fmt.Sprintf("diff(): Unknown type %T for origValue", origValue))
+				return nil, fmt.Errorf("diff(): Unknown type %T for origValue", origValue)
 			}
 		}
 	}
 	return patch, nil
 }
 
+// leafOperation creates the operation that sets a leaf at path.
+func leafOperation(op OpType, path string, value tson.Value) (Operation, error) {
+	switch leaf := value.(type) {
+	case tson.Leaf[string]:
+		return NewOperation(op, path, leaf.Value, leaf.Timestamp), nil
+	case tson.Leaf[float64]:
+		return NewOperation(op, path, leaf.Value, leaf.Timestamp), nil
+	case tson.Leaf[bool]:
+		return NewOperation(op, path, leaf.Value, leaf.Timestamp), nil
+	default:
+		return Operation{}, fmt.Errorf("leafOperation(): Unknown type %T for value", value)
+	}
+}
+
 func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
+
+	// "replace": Type has changed
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		op, err := leafOperation(OpReplace, path, modValue)
+		if err != nil {
+			return nil, err
+		}
+		return append(patch, op), nil
+	}
+
 	switch origin := origValue.(type) {
 	case tson.Leaf[string]:
 		if !matchesValue(origValue, modValue) {
@@ -573,6 +599,16 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
 
+	// "replace": Type has changed
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		op, err := leafOperation(OpReplace, path, modValue)
+		if err != nil {
+			return nil, err
+		}
+		return append(patch, op), nil
+	}
+
+
 	// 타임스탬프 변경 감지
 	timestampChanged := !matchTimestamp(origValue, modValue)
 
-- 
2.43.0


From 5d3854c6fa57c7192c59b759e2b1fd27cb5e4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 28/43] fix: tsonpatch: compare arrays of different lengths
 element by element

---
 internal/tsonpatch/tsonpatch.go | 129 +++++++++-----------------------
 1 file changed, 35 insertions(+), 94 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index c964a8c..5e626c1 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -562,7 +562,11 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 				return nil, fmt.Errorf("handleValues(): Unknown type %T for modValue", modValue)
 			}
 		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArray(origin, modified, path)...)
+			operations, err := compareArray(origin, modified, path)
+			if err != nil {
+				return nil, err
+			}
+			patch = append(patch, operations...)
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValues(origin[i], modified[i], makePath(path, i), patch)
@@ -659,7 +663,11 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 				return nil, fmt.Errorf("handleValuesWithTimestamp(): Unknown type %T for modValue", modValue)
 			}
 		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArrayWithTimestamp(origin, modified, path)...)
+			operations, err := compareArrayWithTimestamp(origin, modified, path)
+			if err != nil {
+				return nil, err
+			}
+			patch = append(patch, operations...)
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValuesWithTimestamp(origin[i], modified[i], makePath(path, i), patch)
@@ -795,106 +803,39 @@ func matchTimestamp(origin, modified tson.Value) bool {
 	return false
 }
 
-// compareArray generates remove and add operations
-func compareArray(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
-		// TODO: is there a way to calculate the timestamp?
-		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
-	}
-	patch = reversed
-
-	// Find elements that need to be added.
-	processArray(modArr, origArr, func(i int, value any) {
-		switch leaf := value.(type) {
-		case tson.Leaf[string]:
-			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-		case tson.Leaf[float64]:
-			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-		case tson.Leaf[bool]:
-			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-		default:
-			panic(fmt.Sprintf("compareArray(): Unknown type %T for value", value))
+// compareArray compares two arrays element by element
+func compareArray(origArr, modArr tson.Array, p string) (patch Patch, err error) {
+	for i := 0; i < len(origArr) && i < len(modArr); i++ {
+		if patch, err = handleValues(origArr[i], modArr[i], makePath(p, i), patch); err != nil {
+			return nil, err
 		}
-	})
-	return patch
+	}
+	return compareTail(origArr, modArr, p, patch)
 }
 
 // compareArrayWithTimestamp는 두 배열을 비교하여 패치를 생성합니다. 타임스탬프 변경도 감지합니다.
-func compareArrayWithTimestamp(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
-		// TODO: is there a way to calculate the timestamp?
-		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
-	}
-	patch = reversed
-
-	// Find elements that need to be added, or have changed values or timestamps
-	for i, value := range modArr {
-		// 원래 배열과 수정된 배열의 같은 인덱스에서 값 또는 타임스탬프 변경 확인
-		if i < len(origArr) {
-			valuesEqual := matchesValue(origArr[i], value)
-			timestampEqual := matchTimestamp(origArr[i], value)
-
-			if !valuesEqual || !timestampEqual {
-				switch leaf := value.(type) {
-				case tson.Leaf[string]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[float64]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[bool]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				}
-			}
-		} else {
-			// 새로 추가된 요소
-			switch leaf := value.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			default:
-				panic(fmt.Sprintf("compareArrayWithTimestamp(): Unknown type %T for value", value))
-			}
+func compareArrayWithTimestamp(origArr, modArr tson.Array, p string) (patch Patch, err error) {
+	for i := 0; i < len(origArr) && i < len(modArr); i++ {
+		if patch, err = handleValuesWithTimestamp(origArr[i], modArr[i], makePath(p, i), patch); err != nil {
+			return nil, err
 		}
 	}
-
-	return patch
+	return compareTail(origArr, modArr, p, patch)
 }
 
-// processArray processes two arrays calling applyOp whenever a value is absent.
-func processArray(origArr, modArr tson.Array, applyOp func(i int, value any)) {
-	// Note: map[T]struct{} is used to simulate a set.
-	foundIndexes := make(map[int]struct{}, len(origArr))
-	reverseFoundIndexes := make(map[int]struct{}, len(origArr))
-
-	for idx1, value1 := range origArr {
-		for idx2, value2 := range modArr {
-			if _, ok := reverseFoundIndexes[idx2]; ok {
-				// This one is already found.
-				continue
-			}
-			if reflect.DeepEqual(value1, value2) {
-				// Mark this as found
-				foundIndexes[idx1] = struct{}{}
-				reverseFoundIndexes[idx2] = struct{}{}
-				break
-			}
-		}
-		if _, ok := foundIndexes[idx1]; !ok {
-			applyOp(idx1, value1)
+// compareTail generates remove and add operations for the elements that only one of the arrays has.
+func compareTail(origArr, modArr tson.Array, p string, patch Patch) (Patch, error) {
+	// Remove from the end, so that the remaining indexes stay valid
+	for i := len(origArr) - 1; i >= len(modArr); i-- {
+		// TODO: is there a way to calculate the timestamp?
+		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
+	}
+	for i := len(origArr); i < len(modArr); i++ {
+		op, err := leafOperation(OpAdd, makePath(p, i), modArr[i])
+		if err != nil {
+			return nil, err
 		}
+		patch = append(patch, op)
 	}
+	return patch, nil
 }
-- 
2.43.0


From 6675a4486c2d65cde7e114618f6d378d878426c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 29/43] fix: tsonpatch: gofmt

fix: tsonpatch: write operations as valid JSON
---
 internal/tsonpatch/tsonpatch.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 5e626c1..a734c36 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -88,14 +88,17 @@ type Operation struct {
 // String converts the Operation to a JSON string.
 func (p *Operation) String() string {
 	var ( // Using vanila JSON here
-		op        = p.Op
-		path      = p.Path
-		value, _  = json.Marshal(p.Value)
-		timestamp = p.Timestamp
-		buf       bytes.Buffer
+		op, _      = json.Marshal(p.Op)
+		path, _    = json.Marshal(p.Path)
+		value, err = json.Marshal(p.Value)
+		timestamp  = p.Timestamp
+		buf        bytes.Buffer
 	)
+	if err != nil {
+		value = []byte("null")
+	}
 	fmt.Fprintf(&buf,
-		`{ "op": "%s", "path": "%s", "value": %s, "timestamp": %d }`,
+		`{ "op": %s, "path": %s, "value": %s, "timestamp": %d }`,
 		op, path, value, timestamp)
 	return buf.String()
 }
@@ -103,7 +106,15 @@ func (p *Operation) String() string {
 // Marshal converts the Operation to a JSON byte Array.
 func (p *Operation) Marshal() (b []byte, err error) {
 	var buf bytes.Buffer
-	fmt.Fprintf(&buf, `{ "op": "%s", "path": "%s"`, p.Op, p.Path)
+	op, err := json.Marshal(p.Op)
+	if err != nil {
+		return nil, err
+	}
+	path, err := json.Marshal(p.Path)
+	if err != nil {
+		return nil, err
+	}
+	fmt.Fprintf(&buf, `{ "op": %s, "path": %s`, op, path)
 	if p.Value != nil || p.Op == OpReplace || p.Op == OpAdd || p.Op == OpTest {
 		if v, err := json.Marshal(p.Value); err != nil {
 			return nil, err
@@ -612,7 +623,6 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 		return append(patch, op), nil
 	}
 
-
 	// 타임스탬프 변경 감지
 	timestampChanged := !matchTimestamp(origValue, modValue)
 
-- 
2.43.0


From 992f64d7457cbe1ce1b0a054431708d61ce1e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 30/43] fix: vssgen: build every patch against the previous
 dataset

---
 internal/vssgen/args.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index 427a634..15c0a94 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -106,7 +106,8 @@ func Generate(metadata map[string]any, dataFolder string) {
 
 		// Generate the rest of the JSON files
 		for j := 2; j <= files; j++ {
-			data, patch := data.GenerateNext(changeRate, maintainRate, i, j)
+			next, patch := data.GenerateNext(changeRate, maintainRate, i, j)
+			data = next
 			data.Save(filepath.Join(carDir, fmt.Sprintf("%d_%d.tson", i, j)))
 			patch.Save(filepath.Join(patchDir, fmt.Sprintf("%d_%d.json", i, j)))
 			bar.Add(1)
-- 
2.43.0


From 47f7f621d468dd046dbafbaf6ab5010630dbfb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 31/43] fix: vssgen: provide the maintain_rate option that the
 generator reads

---
 internal/vssgen/args.go | 23 +++++++++++++----------
 web_demo.go             | 11 ++++++-----
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index 15c0a94..7bbfd85 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -15,11 +15,12 @@ const metadataFile = "metadata.json"
 // ParseArgs parses command line arguments (dataset, cars, files, change_rate, size)
 func ParseArgs(defaultDataset string) (option map[string]any) {
 	var (
-		dataset    = flag.String("dataset", defaultDataset, "Path to VSS JSON datset")
-		cars       = flag.Int("cars", -1, "[required] Number of cars to generate")
-		files      = flag.Int("files", -1, "[required] Number of JSON files per car")
-		changeRate = flag.Float64("change_rate", 0.2, "Change rate for each car")
-		size       = flag.Float64("size", 1.0, "Dataset size ratio 0.0-1.0")
+		dataset      = flag.String("dataset", defaultDataset, "Path to VSS JSON datset")
+		cars         = flag.Int("cars", -1, "[required] Number of cars to generate")
+		files        = flag.Int("files", -1, "[required] Number of JSON files per car")
+		changeRate   = flag.Float64("change_rate", 0.2, "Change rate for each car")
+		maintainRate = flag.Float64("maintain_rate", 0.0, "Rate of values that only get a new timestamp")
+		size         = flag.Float64("size", 1.0, "Dataset size ratio 0.0-1.0")
 	)
 
 	// If required arguments are not provided, print usage and exit
@@ -33,15 +34,17 @@ func ParseArgs(defaultDataset string) (option map[string]any) {
 	fmt.Println("--cars:", *cars)
 	fmt.Println("--files:", *files)
 	fmt.Println("--change_rate:", *changeRate)
+	fmt.Println("--maintain_rate:", *maintainRate)
 	fmt.Println("--size:", *size)
 
 	// Return the parsed arguments in JSON format
 	return map[string]any{
-		"dataset":     *dataset,
-		"cars":        *cars,
-		"files":       *files,
-		"change_rate": *changeRate,
-		"size":        *size,
+		"dataset":       *dataset,
+		"cars":          *cars,
+		"files":         *files,
+		"change_rate":   *changeRate,
+		"maintain_rate": *maintainRate,
+		"size":          *size,
 	}
 }
 
diff --git a/web_demo.go b/web_demo.go
index 0745eb6..77d496c 100644
--- a/web_demo.go
+++ b/web_demo.go
@@ -46,11 +46,12 @@ func generateVss(userDefined bool) {
 		option = vssgen.ParseArgs(defaultDataset)
 	} else {
 		option = map[string]any{
-			"dataset":     defaultDataset,
-			"cars":        defaultCarCount,
-			"files":       defaultFileCount,
-			"change_rate": 0.2,
-			"size":        0.1,
+			"dataset":       defaultDataset,
+			"cars":          defaultCarCount,
+			"files":         defaultFileCount,
+			"change_rate":   0.2,
+			"maintain_rate": 0.0,
+			"size":          0.1,
 		}
 	}
 	outputDir := "./dataset"
-- 
2.43.0


From f6089fed94f18b297cc68519efe9baa7eb708c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 32/43] fix: vssgen: keep all values and exact timestamps in
 generated patches

---
 internal/tson/serialization.go |  2 ++
 internal/vssgen/vss.go         | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 6624b5e..8bcb4b2 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -195,6 +195,8 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 		return fmt.Sprintf("%v", t), nil
 	case float64:
 		return fmt.Sprintf("%v", t), nil
+	case json.Number:
+		return t.String(), nil
 	case string:
 		return strconv.Quote(t), nil
 
diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 6225caf..e19ec0e 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -327,6 +327,9 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 						tsonValue:     rand.Float64() * 100,
 						tsonTimestamp: timestamp,
 					}
+				default:
+					// There is no other value to choose
+					new[node] = value
 				}
 			} else if r < (changeRate + maintainRate) {
 				// 값은 변하지 않고 타임스탬프만 변경되는 패치 생성
@@ -363,14 +366,24 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 		panic(err)
 	}
 
-	ops, _ := tsonpatch.GeneratePatchWithTimestamp(origin, modified)
+	ops, err := tsonpatch.GeneratePatchWithTimestamp(origin, modified)
+	if err != nil {
+		panic(err)
+	}
 
 	// Step 2. Convert the patch object to a []byte
-	bytes, _ := json.Marshal(ops)
+	patchBytes, err := json.Marshal(ops)
+	if err != nil {
+		panic(err)
+	}
 
-	// Step 3. Unmarshal the []byte to a JSON object
+	// Step 3. Unmarshal the []byte to a JSON object, keeping the timestamps exact
 	var patch any
-	json.Unmarshal(bytes, &patch)
+	decoder := json.NewDecoder(bytes.NewReader(patchBytes))
+	decoder.UseNumber()
+	if err := decoder.Decode(&patch); err != nil {
+		panic(err)
+	}
 
 	// Step 4. Return the new dataset and the patch
 	return &VssJson{initialized: true, data: result}, &VssJson{initialized: true, data: patch}
-- 
2.43.0


From b0cc63502b9b1bf9a9fb2b0834299e92d6b849bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 33/43] fix: vssgen: save patches as valid JSON

---
 internal/vssgen/vss.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index e19ec0e..08441bd 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -399,17 +399,22 @@ func (vss *VssJson) Save(file string) {
 		data, err = tson.MarshalIndent(vss.data, "", "    ")
 		if err != nil {
 			fmt.Printf("Error marshalling JSON: %v\n", err)
+			return
 		}
 	} else { // If JSON patch
 		var lines []string
-		for _, item := range vss.data.([]any) {
-			var buf bytes.Buffer
-			d := item.(map[string]any)
-
-			fmt.Fprintf(&buf,
-				`{ "op": "%s", "path": "%s", "value": %#v, "timestamp": %d }`,
-				d["op"], d["path"], d[tsonValue], int64(d[tsonTimestamp].(float64)))
-			lines = append(lines, "    "+buf.String())
+		patch, err := tsonpatch.FromJson(vss.data)
+		if err != nil {
+			fmt.Printf("Error converting patch: %v\n", err)
+			return
+		}
+		for _, op := range patch {
+			line, err := op.Marshal()
+			if err != nil {
+				fmt.Printf("Error marshalling JSON: %v\n", err)
+				return
+			}
+			lines = append(lines, "    "+string(line))
 		}
 
 		// Join all lines with commas and wrap them in square brackets
-- 
2.43.0


From b86acd28d8364667956c50c6e53ca463ec19e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 34/43] fix: web: accept only numbers in data file names

---
 web_demo.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/web_demo.go b/web_demo.go
index 77d496c..5cd1f0f 100644
--- a/web_demo.go
+++ b/web_demo.go
@@ -72,13 +72,22 @@ func homeHandler(w http.ResponseWriter, r *http.Request) {
 
 // updateHandler handles the update request, sending the TSON or Patch
 func updateHandler(w http.ResponseWriter, r *http.Request) {
-	car := r.URL.Query().Get("car")
+	car, err := strconv.Atoi(r.URL.Query().Get("car"))
+	if err != nil {
+		http.Error(w, "car must be a number", http.StatusBadRequest)
+		return
+	}
 	if patch := r.URL.Query().Get("patch"); patch == "" {
 		// Send the TSON snapshot
-		b, _ := os.ReadFile(fmt.Sprintf("dataset/car_%s/tson/%s_1.tson", car, car))
+		b, _ := os.ReadFile(fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", car, car))
 		w.Write(b)
 	} else { // Send the patch
-		b, _ := os.ReadFile(fmt.Sprintf("dataset/car_%s/patches/%s_%s.json", car, car, patch))
+		number, err := strconv.Atoi(patch)
+		if err != nil {
+			http.Error(w, "patch must be a number", http.StatusBadRequest)
+			return
+		}
+		b, _ := os.ReadFile(fmt.Sprintf("dataset/car_%d/patches/%d_%d.json", car, car, number))
 		w.Write(b)
 	}
 }
-- 
2.43.0


From 6e37370f9dce2000fe8a64630df3c9af3c8004de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 35/43] fix: web: report unusable requests instead of panicking

---
 web_demo.go | 59 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/web_demo.go b/web_demo.go
index 5cd1f0f..be4f7a7 100644
--- a/web_demo.go
+++ b/web_demo.go
@@ -79,43 +79,72 @@ func updateHandler(w http.ResponseWriter, r *http.Request) {
 	}
 	if patch := r.URL.Query().Get("patch"); patch == "" {
 		// Send the TSON snapshot
-		b, _ := os.ReadFile(fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", car, car))
-		w.Write(b)
+		sendFile(w, fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", car, car))
 	} else { // Send the patch
 		number, err := strconv.Atoi(patch)
 		if err != nil {
 			http.Error(w, "patch must be a number", http.StatusBadRequest)
 			return
 		}
-		b, _ := os.ReadFile(fmt.Sprintf("dataset/car_%d/patches/%d_%d.json", car, car, number))
-		w.Write(b)
+		sendFile(w, fmt.Sprintf("dataset/car_%d/patches/%d_%d.json", car, car, number))
 	}
 }
 
+// sendFile sends the content of a file
+func sendFile(w http.ResponseWriter, fileName string) {
+	b, err := os.ReadFile(fileName)
+	if err != nil {
+		http.Error(w, "no such data", http.StatusNotFound)
+		return
+	}
+	w.Write(b)
+}
+
 // patchHandler handles the patch request, sending the patched TSON
 func patchHandler(w http.ResponseWriter, r *http.Request) {
-	var (
-		car, _          = strconv.Atoi(r.URL.Query().Get("car"))
-		maxpatch, _     = strconv.Atoi(r.URL.Query().Get("patch"))
-		originalTson, _ = os.ReadFile(fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", car, car))
-		lgm             = logument.NewLogument(originalTson, nil)
-	)
+	car, err := strconv.Atoi(r.URL.Query().Get("car"))
+	if err != nil {
+		http.Error(w, "car must be a number", http.StatusBadRequest)
+		return
+	}
+	maxpatch, err := strconv.Atoi(r.URL.Query().Get("patch"))
+	if err != nil {
+		http.Error(w, "patch must be a number", http.StatusBadRequest)
+		return
+	}
+	originalTson, err := os.ReadFile(fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", car, car))
+	if err != nil {
+		http.Error(w, "no such data", http.StatusNotFound)
+		return
+	}
+	lgm := logument.NewLogument(originalTson, nil)
 
 	for i := 2; i <= maxpatch; i++ {
 		// Read patch file
 		fileName := fmt.Sprintf("dataset/car_%d/patches/%d_%d.json", car, car, i)
-		patch, _ := os.ReadFile(fileName)
+		patch, err := os.ReadFile(fileName)
+		if err != nil {
+			http.Error(w, "no such data", http.StatusNotFound)
+			return
+		}
 
 		// Append it to the PatchPool
 		lgm.Store(patch)
 	}
 
 	// Apply the pathes and make a snapshot
-	lgm.Append()
+	if err := lgm.Append(); err != nil {
+		http.Error(w, err.Error(), http.StatusInternalServerError)
+		return
+	}
 
-	// Take the snapshot
-	snapshot := lgm.Snapshot(1)
-	result, _ := tson.MarshalIndent(snapshot, "", "  ")
+	// Take the latest snapshot; without a patch it is the original one
+	snapshot := lgm.Snapshot(lgm.Version[len(lgm.Version)-1])
+	result, err := tson.MarshalIndent(snapshot, "", "  ")
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusInternalServerError)
+		return
+	}
 
 	// Send the result
 	w.Write(result)
-- 
2.43.0


From 013dcc1d36454e6584140e3867cb580e8e03e0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 36/43] fix: exp: keep the value of a single-segment item

---
 exp/tjson.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index f0fd5e8..4e51e48 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -75,16 +75,14 @@ func (doc *TJSONDocument) AddItem(path string, startTime, endTime int64, value i
 			currentItem.Children[key] = childItem
 		}
 		currentItem = childItem
+	}
 
-		// 마지막 부분일 경우 값도 설정
-		if i == len(parts)-1 {
-			version := &TJSONVersion{
-				Timestamp: timestamp,
-				Data:      value,
-			}
-			currentItem.Versions = append(currentItem.Versions, version)
-		}
+	// 경로의 마지막 항목에 값 설정
+	version := &TJSONVersion{
+		Timestamp: timestamp,
+		Data:      value,
 	}
+	currentItem.Versions = append(currentItem.Versions, version)
 
 	return nil
 }
-- 
2.43.0


From a6888b7e0d5031c13d76ef544975ce699607658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 37/43] fix: exp: keep the order of patches with equal
 timestamps

---
 exp/tjson.go          | 6 ++++--
 exp/utils_temporal.go | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index 4e51e48..bbeb70c 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -3,6 +3,7 @@ package exp
 import (
 	"fmt"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -275,8 +276,9 @@ func parseTimeRange(timeRange string) (int64, int64) {
 func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 	doc := NewTJSONDocument()
 
-	// Sort patches by timestamp
-	sort.Slice(patches, func(i, j int) bool {
+	// Sort a copy of the patches by timestamp, keeping the order of equal ones
+	patches = slices.Clone(patches)
+	sort.SliceStable(patches, func(i, j int) bool {
 		return patches[i].Timestamp < patches[j].Timestamp
 	})
 
diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 5c19c99..6317e0c 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -74,7 +74,7 @@ func NewTemporalQueryExperiment(inputDir, baseOutDir, scenario string, tsonPatch
 	allPatches = append(allPatches, tsonPatches...)
 
 	// Sort by timestamp
-	sort.Slice(allPatches, func(i, j int) bool {
+	sort.SliceStable(allPatches, func(i, j int) bool {
 		return allPatches[i].Timestamp < allPatches[j].Timestamp
 	})
 
-- 
2.43.0


From b4dd5058490197e9dddcd61fb9c89d6c1361ae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 38/43] fix: exp: report the found events in order

---
 exp/utils_temporal.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 6317e0c..7f27b30 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -4,8 +4,10 @@ import (
 	"encoding/csv"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"os"
 	"path/filepath"
+	"slices"
 	"sort"
 	"strings"
 	"time"
@@ -465,8 +467,8 @@ func findEventsInLogument(lgm *logument.Logument, path string, startTime, endTim
 	// Find all timestamps where the value exceeds the threshold
 	eventTimes := make([]int64, 0)
 
-	for _, patches := range changes {
-		for _, patch := range patches {
+	for _, version := range slices.Sorted(maps.Keys(changes)) {
+		for _, patch := range changes[version] {
 			if patch.Path == path {
 				if val, ok := patch.Value.(float64); ok && val > threshold {
 					eventTimes = append(eventTimes, patch.Timestamp)
-- 
2.43.0


From 85b46fe72d5359d45c7550ebfeccd4e53f56b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 39/43] fix: exp: count the attribute updates, too

---
 exp/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exp/utils.go b/exp/utils.go
index 2547e70..87b1f08 100644
--- a/exp/utils.go
+++ b/exp/utils.go
@@ -32,6 +32,9 @@ func calculateExpectedUpdateCount(vehicle *VehicleData, durationSec int) int {
 	for _, actuator := range vehicle.ActuatorsLowVar {
 		totalExpectedUpdates += durationSec * 1000 / actuator.UpdateInterval
 	}
+	for _, attribute := range vehicle.Attributes {
+		totalExpectedUpdates += durationSec * 1000 / attribute.UpdateInterval
+	}
 
 	return totalExpectedUpdates
 }
-- 
2.43.0


From 9b2d67d9eac125e7e08ab13067233d821cd0f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 40/43] fix: exp: generate a valid timestamp for a single
 sample

---
 exp/exp_temporal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exp/exp_temporal.go b/exp/exp_temporal.go
index 4b4ee3f..21672dd 100644
--- a/exp/exp_temporal.go
+++ b/exp/exp_temporal.go
@@ -182,7 +182,10 @@ func generateTimestamps(patches []TsonPatch, count int) []int64 {
 	timeRange := maxTime - minTime
 
 	for i := 0; i < count; i++ {
-		position := float64(i) / float64(count-1)
+		position := 0.0
+		if count > 1 {
+			position = float64(i) / float64(count-1)
+		}
 		timestamps[i] = minTime + int64(position*float64(timeRange))
 	}
 
-- 
2.43.0


From 004e751f6d57314abe6456c8ce19a0eddf34e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 41/43] fix: exp: select among at least two values

---
 exp/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exp/utils.go b/exp/utils.go
index 87b1f08..6c739d3 100644
--- a/exp/utils.go
+++ b/exp/utils.go
@@ -445,6 +445,9 @@ func calculateNewStringValue(sensor *SensorData, currentTimeMs int64, scenario s
 		if changeProb == 0.0 {
 			changeProb = 0.05
 		}
+		if numChoices < 2 { // 현재 값과 다른 값이 항상 존재해야 함
+			numChoices = 2
+		}
 
 		// 변경 확률에 따라 결정
 		if rand.Float64() < changeProb {
-- 
2.43.0


From a81302a0d0c1ab755cadb2c14ed7aa713624c34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 42/43] fix: logument: compare integer values in TestSet

---
 internal/logument/logument.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 317b91b..5e6e02d 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -588,8 +588,11 @@ func leafCompareValue(leafValue tson.Value, value any) bool {
 			return leaf.Value == strVal
 		}
 	case tson.Leaf[float64]:
-		if floatVal, ok := value.(float64); ok {
-			return leaf.Value == floatVal
+		switch number := value.(type) {
+		case float64:
+			return leaf.Value == number
+		case int:
+			return leaf.Value == float64(number)
 		}
 	case tson.Leaf[bool]:
 		if boolVal, ok := value.(bool); ok {
-- 
2.43.0


From 8d64e21590b0c1421d22cbf6f26b34fd4d0c4d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:11 +0000
Subject: [PATCH 43/43] fix: tsonpatch: bound the depth of the paths that
 operations apply to

---
 internal/tsonpatch/tsonpatch.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index a734c36..fdf04b3 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -166,10 +166,17 @@ func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 	return applyOperation(tson.Clone(doc), op)
 }
 
+// maxParts bounds the depth of the nodes that an operation can address or create,
+// so that descending into a document always ends within the stack.
+const maxParts = 10000
+
 // applyOperation applies a single operation to doc in place.
 func applyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 	// Split the path into parts, ignoring the first empty string
 	parts := tson.SplitPath(op.Path)
+	if len(parts) > maxParts {
+		return nil, fmt.Errorf("applyOperation(): Path of %d parts is too deep", len(parts))
+	}
 
 	// Traverse the TSON document
 	if t, err = applyTraverse(doc, parts, op); err != nil {
-- 
2.43.0

