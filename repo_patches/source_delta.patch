From f5009fec1230519344635df1b0d3969ad6bdce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:07 +0000
Subject: [PATCH 01/94] fix: reject trailing data after a JSON document

---
 enc/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enc/json.go b/enc/json.go
index 10c01fa..99b734b 100644
--- a/enc/json.go
+++ b/enc/json.go
@@ -3,6 +3,7 @@ package enc
 import (
 	"bytes"
 	"encoding/json"
+	"io"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -82,5 +83,8 @@ func (this JSON) Decode(c ctx.C, data []byte) (Node, error) {
 	if err != nil {
 		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "%w", err)
 	}
+	if _, err := dec.Token(); err != io.EOF { // the decoder stops at the end of the first value
+		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "unexpected data after the JSON value")
+	}
 	return fromNative(obj), nil
 }
-- 
2.43.0


From 9306d80df4351f27700e2869b446bb6ed8c22f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 02/94] fix: marshal uint64 above MaxInt64 as its value, and
 refuse NaN/Inf instead of panicking

---
 enc/handler.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index fa079a9..55efba9 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -3,7 +3,9 @@ package enc
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
+	"strconv"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -208,10 +210,16 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	case reflect.Bool:
 		return Bool(v.Bool()), nil
 	case reflect.Float64, reflect.Float32:
+		if math.IsNaN(v.Float()) || math.IsInf(v.Float(), 0) {
+			return nil, ctx.NewErrorf(c, "can't marshal %T %v", in, in)
+		}
 		return Float(v.Float()), nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return Integer(v.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if v.Uint() > math.MaxInt64 { // too big for Integer
+			return Digits(strconv.FormatUint(v.Uint(), 10)), nil
+		}
 		return Integer(v.Uint()), nil
 	case reflect.String:
 		return String(v.String()), nil
-- 
2.43.0


From 2abb614aeff98e39ac7ca46c0f19ee0e37aece03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 03/94] fix: refuse integer map keys out of range for the key
 type

---
 enc/map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index 5c84ba2..ed0b2db 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -63,12 +63,18 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
+				if kv.OverflowInt(i) {
+					return ctx.NewErrorf(c, "key %q is out of range for %v at %v", k, intokt, handler.path.String()+"#key")
+				}
 				kv.SetInt(i)
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 				i, err := strconv.ParseUint(k, 10, 64)
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
+				if kv.OverflowUint(i) {
+					return ctx.NewErrorf(c, "key %q is out of range for %v at %v", k, intokt, handler.path.String()+"#key")
+				}
 				kv.SetUint(i)
 			default:
 				err := handler.Append("#key").unmarshal(c, String(k), kv)
-- 
2.43.0


From b67045c544a461fe6173257cd672ccccdbe99d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 04/94] fix: refuse numbers out of range for the target type,
 and do not drop exponents

---
 enc/numeric.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/enc/numeric.go b/enc/numeric.go
index 7e7476d..ff8f658 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -29,8 +29,13 @@ type Integer int
 var _ Node = Integer(0)
 var _ Numeric = Integer(0)
 
-func (this Integer) Int64() (int64, error)        { return int64(this), nil }
-func (this Integer) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Integer) Int64() (int64, error) { return int64(this), nil }
+func (this Integer) Uint64() (uint64, error) {
+	if this < 0 {
+		return 0, fmt.Errorf("%d is out of range for uint64", int64(this))
+	}
+	return uint64(this), nil
+}
 func (this Integer) Float64() (float64, error)    { return float64(this), nil }
 func (this Integer) String() string               { return strconv.FormatInt(int64(this), 10) }
 func (this Integer) GoString() string             { return fmt.Sprintf("enc.Integer{%v}", int64(this)) }
@@ -48,8 +53,18 @@ type Float float64
 var _ Node = Float(0)
 var _ Numeric = Float(0)
 
-func (this Float) Int64() (int64, error)        { return int64(this), nil }
-func (this Float) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Float) Int64() (int64, error) {
+	if !(this >= -1<<63 && this < 1<<63) { // also NaN
+		return 0, fmt.Errorf("%v is out of range for int64", float64(this))
+	}
+	return int64(this), nil
+}
+func (this Float) Uint64() (uint64, error) {
+	if !(this > -1 && this < 1<<64) { // also NaN
+		return 0, fmt.Errorf("%v is out of range for uint64", float64(this))
+	}
+	return uint64(this), nil
+}
 func (this Float) Float64() (float64, error)    { return float64(this), nil }
 func (this Float) String() string               { return strconv.FormatFloat(float64(this), 'g', -1, 64) }
 func (this Float) GoString() string             { return fmt.Sprintf("enc.Float{%v}", float64(this)) }
@@ -77,6 +92,9 @@ func (this Digits) Uint64() (uint64, error) {
 	return i, err
 }
 func trimDecimal(s string) string {
+	if strings.ContainsAny(s, "eE") {
+		return s // what comes before the dot is not the integer part
+	}
 	if strings.Contains(string(s), ".") {
 		return strings.Split(s, ".")[0]
 	}
@@ -130,6 +148,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowFloat(f) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %T into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetFloat(f)
 	case reflect.Int,
 		reflect.Int8,
@@ -140,6 +161,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowInt(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %T into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetInt(int64(i))
 	case reflect.Uint,
 		reflect.Uint8,
@@ -150,6 +174,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowUint(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %T into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
 		v := reflect.ValueOf(this.native())
-- 
2.43.0


From 3c79e863775a518d35503d9f23fffb7c016bdc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 05/94] fix: marshal nil pointers to types with value receivers
 as null instead of panicking

---
 enc/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index 55efba9..344596e 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -176,6 +176,9 @@ func Marshal(c ctx.C, in any) (Node, error) {
 
 func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	//log.Warnf(c, "OHA: %T %v", in, in)
+	if v := reflect.ValueOf(in); v.Kind() == reflect.Pointer && v.IsNil() {
+		return Nil{}, nil // before the interfaces below: their methods can't be called using a nil pointer
+	}
 	switch in := in.(type) {
 	case nil:
 		return Nil{}, nil
-- 
2.43.0


From 25c4fc5182287a8907c15ea2136c498afb0f7f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 06/94] fix: omitempty must not drop non-nil pointers and
 interfaces

---
 enc/handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index 344596e..f5f1729 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -296,6 +296,12 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 			continue
 		}
 		fv := v.Field(i)
+		switch fv.Kind() {
+		case reflect.Pointer, reflect.Interface:
+			if !fv.IsNil() { // a pointer to a zero is not empty, or it would come back as nil
+				tag.OmitEmpty = false
+			}
+		}
 		fn, err := this.Marshal(c, fv.Interface())
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 85c7ccd90c8d8c3f18783b80f9811d44a4423c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 07/94] fix: an untyped target gets the JSON names of ordered
 pairs

---
 enc/pairs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enc/pairs.go b/enc/pairs.go
index 9534a05..d0c2d1f 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -26,7 +26,7 @@ func (this Pairs) AsMap() Map {
 func (this Pairs) native() any {
 	out := map[string]any{}
 	for _, p := range this {
-		out[p.Name] = p.Value.native()
+		out[p.JSON] = p.Value.native() // same names as the JSON text and AsMap()
 	}
 	return out
 }
-- 
2.43.0


From 9b3a70a66c535705b539325662a6d75a1dfe77fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 08/94] fix: do not fill fields tagged json:"-" from the empty
 key

---
 enc/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index ed0b2db..8af9570 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -100,6 +100,9 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 			ft := vt.Field(i)
 			if ft.IsExported() {
 				tag := parseTag(ft)
+				if tag.Skip {
+					continue
+				}
 				seen[tag.JSON] = true
 				v, ok := this[tag.JSON]
 				if ok {
-- 
2.43.0


From c3f100d4663e8ea2e8da210c44158c1df24e4838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 09/94] fix: convert time and duration nodes instead of
 panicking

---
 enc/time.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/enc/time.go b/enc/time.go
index 5f31a7c..fc25c3d 100644
--- a/enc/time.go
+++ b/enc/time.go
@@ -58,7 +58,7 @@ func (this *Time) UnmarshalJSON(j []byte) error {
 func (this Time) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	v := reflect.ValueOf(this)
 	if v.CanConvert(into.Type()) {
-		into.Set(v)
+		into.Set(v.Convert(into.Type()))
 		return nil
 	}
 	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
@@ -87,9 +87,12 @@ func (this Duration) String() string {
 
 func (this Duration) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	v := reflect.ValueOf(this)
-	if v.CanConvert(into.Type()) {
-		into.Set(v)
-		return nil
+	switch into.Kind() {
+	case reflect.Int64, reflect.Interface: // any other number would be cut, and a string would get a rune
+		if v.CanConvert(into.Type()) {
+			into.Set(v.Convert(into.Type()))
+			return nil
+		}
 	}
 	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 }
-- 
2.43.0


From f94092d15f762319c2aae6f279e88472314e005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 10/94] fix: unmarshalling into a non-empty interface is an
 error, not a panic

---
 enc/handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index f5f1729..46356d3 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -158,6 +158,11 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 		}
 	*/
 
+	if v.Kind() == reflect.Interface && v.NumMethod() > 0 {
+		if _, isNil := from.(Nil); !isNil {
+			return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", this.path, from, v.Type())
+		}
+	}
 	return from.unmarshalInto(c, this, v)
 }
 
-- 
2.43.0


From dfd2f2fa017106367457bd275ac6155abfb10f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 11/94] fix: unmarshalling into something that is not a pointer
 is an error, not a panic

---
 enc/handler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enc/handler.go b/enc/handler.go
index 46356d3..51c710e 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -46,7 +46,11 @@ func (this Handler) Unmarshal(c ctx.C, n Node, into any) error {
 	if n == nil {
 		n = Nil{}
 	}
-	v := reflect.ValueOf(into).Elem()
+	v := reflect.ValueOf(into)
+	if v.Kind() != reflect.Pointer || v.IsNil() {
+		return ctx.NewErrorf(c, "can't unmarshal into %T, a non-nil pointer is required", into)
+	}
+	v = v.Elem()
 	return this.Append(v.Type()).unmarshal(c, n, v)
 }
 
-- 
2.43.0


From 99c354f2a9316e6276daa402b0790aaf93d5e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 12/94] fix: marshalling channels, complex numbers and other
 unsupported kinds is an error, not a panic

---
 enc/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enc/handler.go b/enc/handler.go
index 51c710e..dc0fa4c 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -217,7 +217,7 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	default:
 		log.Warnf(c, "possible wrong fallback for type %T", in)
 		return fromNative(in), nil
-	case reflect.Func:
+	case reflect.Func, reflect.Chan, reflect.Complex64, reflect.Complex128, reflect.Uintptr, reflect.UnsafePointer:
 		return nil, ctx.NewErrorf(c, "can't marshal %T", in)
 	case reflect.Bool:
 		return Bool(v.Bool()), nil
-- 
2.43.0


From 64720f6c552912adbb911ffc346c425f69fb3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 13/94] fix: assign what a factory returns

---
 enc/handler.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index dc0fa4c..294bfb5 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -132,13 +132,11 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 				return ctx.NewErrorf(c, "factory error: %w", err)
 			}
 			s := reflect.ValueOf(obj)
-			if !s.CanConvert(v.Elem().Type()) {
-				return ctx.NewErrorf(c, "Factory %v returned %v which can't be converted to %v",
-					v.Type().Elem(), s.Type(), v.Elem().Type())
+			if !s.IsValid() || !s.CanConvert(v.Type()) {
+				return ctx.NewErrorf(c, "Factory %v returned %T which can't be converted to it", v.Type(), obj)
 			}
-			log.Debugf(c, "Factory %v returned %v which can be converted to %v",
-				v.Type().Elem(), s.Type(), v.Elem().Type())
-			v.Elem().Set(s) // we set the value, not the pointer... because go.reflect
+			log.Debugf(c, "Factory %v returned %v which can be converted to it", v.Type(), s.Type())
+			v.Set(s.Convert(v.Type()))
 			return nil
 		}
 	}
-- 
2.43.0


From 7a52cacddf2b4aa2a1468bb61fe7fff7a98a79a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 14/94] fix: report numbers that JSON can't hold as errors
 instead of panicking

---
 enc/handler.go | 17 ++++++++++++++---
 enc/json.go    | 14 +++++---------
 enc/pairs.go   | 13 +++++++++++--
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 294bfb5..648b9e9 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -87,12 +87,20 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 		if this.Debugf != nil {
 			this.Debugf(c, "is %T", into)
 		}
-		*into = JSON{}.Encode(c, from)
+		j, err := json.Marshal(from)
+		if err != nil {
+			return ctx.WrapError(c, err)
+		}
+		*into = j
 		warnIneff(c, "Warn: inefficient json.RawMessage, use enc.Node instead")
 		return nil
 	case *time.Time:
 		var t time.Time
-		err := json.Unmarshal(JSON{}.Encode(c, from), &t)
+		j, err := json.Marshal(from)
+		if err != nil {
+			return ctx.WrapError(c, err)
+		}
+		err = json.Unmarshal(j, &t)
 		if err != nil {
 			return ctx.NewErrorf(c, "can't unmarshal %#v as time", from)
 		}
@@ -103,7 +111,10 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 			this.Debugf(c, "is %T", into)
 		}
 		warnIneff(c, "Warn: inefficient %T.UnmarshalJSON(): implement enc.Unmarshaler instead", into)
-		j, _ := json.Marshal(from) // we must go back to the json
+		j, err := json.Marshal(from) // we must go back to the json
+		if err != nil {
+			return ctx.WrapError(c, err)
+		}
 		return into.UnmarshalJSON(j)
 	case *Node:
 		if this.Debugf != nil {
diff --git a/enc/json.go b/enc/json.go
index 99b734b..b519e55 100644
--- a/enc/json.go
+++ b/enc/json.go
@@ -31,7 +31,11 @@ func MarshalJSON(c ctx.C, from any) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return JSON{}.Encode(c, n), nil
+	j, err := json.Marshal(n) // like Encode() but with an error instead of a panic
+	if err != nil {
+		return nil, ctx.WrapError(c, err)
+	}
+	return j, nil
 }
 
 func UnmarshalJSON(c ctx.C, j []byte, into any) error {
@@ -64,14 +68,6 @@ func (this JSON) Encode(c ctx.C, n Node) []byte {
 	}
 }
 
-func mustJSON(in any) []byte {
-	j, err := json.Marshal(in)
-	if err != nil {
-		panic(err)
-	}
-	return j
-}
-
 func (this JSON) Decode(c ctx.C, data []byte) (Node, error) {
 	if len(data) == 0 {
 		return nil, nil // NOTE(oha): we don't want to give error for empty or nil data
diff --git a/enc/pairs.go b/enc/pairs.go
index d0c2d1f..43d524e 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -2,6 +2,7 @@ package enc
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"reflect"
 	"strings"
@@ -54,9 +55,17 @@ func (this Pairs) MarshalJSON() ([]byte, error) {
 		if i > 0 {
 			buf.WriteString(", ")
 		}
-		buf.Write(mustJSON(p.JSON))
+		k, err := json.Marshal(p.JSON)
+		if err != nil {
+			return nil, err
+		}
+		v, err := json.Marshal(p.Value)
+		if err != nil {
+			return nil, err
+		}
+		buf.Write(k)
 		buf.WriteString(": ")
-		buf.Write(mustJSON(p.Value))
+		buf.Write(v)
 	}
 	buf.WriteString("}")
 	return buf.Bytes(), nil
-- 
2.43.0


From fa9a7a8562e6d58e2759a251b3e0d3c464bca65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 15/94] fix: the path given to UnhandledFields is not
 overwritten later

---
 enc/handler.go | 2 +-
 enc/map.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 648b9e9..50aadca 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -25,7 +25,7 @@ type Handler struct {
 }
 
 func (this Handler) Append(p any) Handler {
-	this.path = append(this.path, p)
+	this.path = append(this.path[:len(this.path):len(this.path)], p) // never share the tail with a sibling
 	return this
 }
 
diff --git a/enc/map.go b/enc/map.go
index 8af9570..02dbe74 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -116,7 +116,7 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		if handler.UnhandledFields != nil {
 			for k, v := range this {
 				if !seen[k] {
-					err := handler.UnhandledFields(c, append(handler.path, k), v)
+					err := handler.UnhandledFields(c, handler.Append(k).path, v)
 					if err != nil {
 						return ctx.WrapError(c, err)
 					}
-- 
2.43.0


From fc848fa4dc00c9d7129a7ccec45c70fac16eed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 16/94] fix: a missing node in a tree is the same as Nil, not a
 panic

---
 enc/handler.go | 3 +++
 enc/list.go    | 2 +-
 enc/map.go     | 2 +-
 enc/nil.go     | 8 ++++++++
 enc/pairs.go   | 2 +-
 5 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 50aadca..46802b5 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -60,6 +60,9 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 	if this.Debugf != nil {
 		this.Debugf(c, "unmarshal( %v -> %v{%v} )", from, v.Type(), v)
 	}
+	if from == nil {
+		from = Nil{}
+	}
 	if !v.CanSet() {
 		return ctx.NewErrorf(c, "can't assign %v", v)
 	}
diff --git a/enc/list.go b/enc/list.go
index ef0fe6d..a711bbf 100644
--- a/enc/list.go
+++ b/enc/list.go
@@ -15,7 +15,7 @@ var _ Node = List{}
 func (this List) native() any {
 	out := []any{}
 	for _, n := range this {
-		x := n.native()
+		x := nativeOf(n)
 		out = append(out, x)
 	}
 	return out
diff --git a/enc/map.go b/enc/map.go
index 02dbe74..4d3e65f 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -18,7 +18,7 @@ var _ Node = Map{}
 func (this Map) native() any {
 	out := map[string]any{}
 	for k, n := range this {
-		out[k] = n.native()
+		out[k] = nativeOf(n)
 	}
 	return out
 }
diff --git a/enc/nil.go b/enc/nil.go
index 68887d5..39210b1 100644
--- a/enc/nil.go
+++ b/enc/nil.go
@@ -26,3 +26,11 @@ func (this Nil) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 	into.SetZero()
 	return nil
 }
+
+// same as n.native(), but a missing node is treated as Nil{}
+func nativeOf(n Node) any {
+	if n == nil {
+		return nil
+	}
+	return n.native()
+}
diff --git a/enc/pairs.go b/enc/pairs.go
index 43d524e..8a4b6d0 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -27,7 +27,7 @@ func (this Pairs) AsMap() Map {
 func (this Pairs) native() any {
 	out := map[string]any{}
 	for _, p := range this {
-		out[p.JSON] = p.Value.native() // same names as the JSON text and AsMap()
+		out[p.JSON] = nativeOf(p.Value) // same names as the JSON text and AsMap()
 	}
 	return out
 }
-- 
2.43.0


From 3b173df2aaddafd62e46615c802ce51ed19301b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 17/94] fix: enc: guard the set of already reported inefficient
 types

---
 enc/handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 46802b5..7bdf1da 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"reflect"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -29,7 +30,7 @@ func (this Handler) Append(p any) Handler {
 	return this
 }
 
-var ineff = map[string]bool{}
+var ineff sync.Map // messages already logged by warnIneff()
 
 func MustUnmarshal(c ctx.C, n Node, into any) {
 	err := Handler{}.Unmarshal(c, n, into)
@@ -184,8 +185,7 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 
 func warnIneff(c ctx.C, f string, args ...any) {
 	msg := fmt.Sprintf(f, args...)
-	if !ineff[msg] {
-		ineff[msg] = true
+	if _, done := ineff.LoadOrStore(msg, true); !done {
 		log.Warnf(c, f, args...)
 	}
 }
-- 
2.43.0


From a009ae1c611e8a47d71a14d2d368359b9e5f334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:42 +0000
Subject: [PATCH 18/94] fix: ctx: number spans on their shared tracking context

---
 ctx/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx/span.go b/ctx/span.go
index 401c379..ee68440 100644
--- a/ctx/span.go
+++ b/ctx/span.go
@@ -18,7 +18,7 @@ func WithTracking(c C, suggest string) C {
 	if suggest == "" {
 		suggest = uuid.NewString()
 	}
-	return trackingCtx{
+	return &trackingCtx{
 		C:    WithTag(c, "tracking-id", suggest),
 		ID:   suggest,
 		Last: 0,
@@ -38,7 +38,7 @@ func GetTracking(c C) string {
 
 type trackingNext struct{}
 
-func (c trackingCtx) Value(k any) any {
+func (c *trackingCtx) Value(k any) any {
 	switch k.(type) {
 	case trackingNext:
 		step := atomic.AddInt32(&c.Last, 1)
-- 
2.43.0


From 84d8a43b6390d59db9b53ea7e39c1a37919c7b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 19/94] fix: ctx: keep a copy of a tag given as raw JSON

---
 ctx/tags.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctx/tags.go b/ctx/tags.go
index f5b91ad..fdb96b5 100644
--- a/ctx/tags.go
+++ b/ctx/tags.go
@@ -26,6 +26,7 @@ func WithTag(c C, key string, val any) C {
 		}
 	default:
 	}
+	j = append([]byte(nil), j...) // the caller may reuse its slice
 	if j == nil {
 		var err error
 		j, err = json.Marshal(val)
-- 
2.43.0


From 231166343a31a78b6754652016a5533ac72f221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:54 +0000
Subject: [PATCH 20/94] fix: log: a logger or helper set on a derived context
 stays there

---
 ctx/log/log.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index ea64de9..1d87d28 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -75,9 +75,9 @@ func wrapSlogLogger(l *slog.Logger) LogFunc {
 // Returns a new context with the custom LogFunc attached,
 // but without handling of tags and Loggable arguments.
 func WithLogFunc(c ctx.C, l LogFunc) ctx.C {
-	conf := extractConfig(c)
+	conf := *extractConfig(c) // the parent keeps its own
 	conf.logFunc = l
-	return withConfig(c, conf)
+	return withConfig(c, &conf)
 }
 
 // Returns a new context with the specified helper func attached,
@@ -85,9 +85,9 @@ func WithLogFunc(c ctx.C, l LogFunc) ctx.C {
 // Useful for tests if you do logging with the t.Logf func (wrapped in a LogFunc),
 // and add the t.Helper func with this - ensuring that the relevant src line is logged.
 func WithHelper(c ctx.C, h func()) ctx.C {
-	conf := extractConfig(c)
+	conf := *extractConfig(c) // the parent keeps its own
 	conf.helper = h
-	return withConfig(c, conf)
+	return withConfig(c, &conf)
 }
 
 // Creates a slog JSON logger with a certain default configuration, with the default minimum log level of debug
-- 
2.43.0


From c69cc5b3980fb283e641208bd1ecb71d3f76b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:58 +0000
Subject: [PATCH 21/94] fix: log: don't rewrite the caller's argument slice

---
 ctx/log/log.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 1d87d28..5cecedd 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -176,6 +176,7 @@ func extractConfig(c ctx.C) *config {
 
 func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
 	errs := []map[string]any{}
+	args = append([]any(nil), args...) // the slice may belong to the caller
 	for i := 0; i < len(args); i++ {
 		switch arg := args[i].(type) {
 		case Loggable:
-- 
2.43.0


From 5c2c6207fe2b79581ffcec33d2f28feabd8c4fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:01 +0000
Subject: [PATCH 22/94] fix: log: leave tags named like a standard attribute
 alone

---
 ctx/log/log.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 5cecedd..0ad9c9e 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -94,6 +94,9 @@ func WithHelper(c ctx.C, h func()) ctx.C {
 func NewDefaultSlogLogger(out io.Writer) *slog.Logger {
 	DefaultLoggerLevel.Set(slog.LevelDebug)
 	return slog.New(slog.NewJSONHandler(out, &slog.HandlerOptions{Level: DefaultLoggerLevel, ReplaceAttr: func(groups []string, a slog.Attr) slog.Attr {
+		if len(groups) > 0 {
+			return a // a tag may have any name
+		}
 		switch a.Key {
 		case slog.LevelKey:
 			level := a.Value.Any().(slog.Level)
-- 
2.43.0


From 068f9ec894855abdf29805bd4ab09558656b6bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:37 +0000
Subject: [PATCH 23/94] fix: log: survive nil error and Loggable pointers

---
 ctx/log/log.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 0ad9c9e..31251c8 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"log/slog"
 	"os"
+	"reflect"
 	"runtime"
 	"strings"
 
@@ -181,6 +182,9 @@ func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
 	errs := []map[string]any{}
 	args = append([]any(nil), args...) // the slice may belong to the caller
 	for i := 0; i < len(args); i++ {
+		if v := reflect.ValueOf(args[i]); v.Kind() == reflect.Pointer && v.IsNil() {
+			continue // its methods may not support it, and there is nothing to tell
+		}
 		switch arg := args[i].(type) {
 		case Loggable:
 			// if it implements Loggable, replace it with the return value and allow manipulation of tags
-- 
2.43.0


From 6b320f0a27111245cc1b7250010162e0451af9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:29 +0000
Subject: [PATCH 24/94] fix: utils: an error gate traps only its own error

---
 utils/errors.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/errors.go b/utils/errors.go
index 541321e..ddbbb1f 100644
--- a/utils/errors.go
+++ b/utils/errors.go
@@ -12,13 +12,14 @@ func (err EOD) Error() string { return "EOD" }
 
 // call the given function passing an error, if the error is returned back (wrapped or not) it will be ignored
 func ErrorGate(f func(err error) error) error {
-	err := f(errGate{})
-	if errors.Is(err, errGate{}) {
+	gate := &errGate{}
+	err := f(gate)
+	if errors.Is(err, gate) { // this very call's, gates can be nested
 		return nil
 	}
 	return err
 }
 
-type errGate struct{}
+type errGate struct{ _ byte } // not empty: each needs its own address
 
 func (err errGate) Error() string { return "Error: should have been trapped by ErrorGate()" }
-- 
2.43.0


From aae01b2575ac18cf5b0366eff33423147eeaf663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 25/94] fix: config: load bool and int fields of named types

---
 config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 0e98501..f7537ef 100644
--- a/config/config.go
+++ b/config/config.go
@@ -96,13 +96,13 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 		default:
 			return ctx.NewErrorf(nil, "can't convert to boobool field %s: %q", name, val)
 		}
-		dest.Set(reflect.ValueOf(v))
+		dest.SetBool(v)
 	case reflect.Int:
 		i, err := strconv.Atoi(val)
 		if err != nil {
 			return ctx.NewErrorf(nil, "can't convert to int field %s: %q", name, val)
 		}
-		dest.Set(reflect.ValueOf(i))
+		dest.SetInt(int64(i))
 	case reflect.String:
 		v := reflect.ValueOf(val).Convert(dest.Type())
 		dest.Set(v)
-- 
2.43.0


From a3eb14c7b1bce63f875b939fe4c94b0380503a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 26/94] fix: config: name the setting in every conversion error

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index f7537ef..ea0aa14 100644
--- a/config/config.go
+++ b/config/config.go
@@ -58,7 +58,7 @@ func From[T any](c ctx.C, cfg T, f func(string) string) (T, error) {
 		fv := v.Field(i)
 		err := unmarshalText(c, fv, key, val)
 		if err != nil {
-			return cfg, err
+			return cfg, ctx.NewErrorf(c, "config %q: %w", key, err)
 		}
 		//log.Debugf(c, "config: %q=%#v", key, fv)
 	}
-- 
2.43.0


From d63b12e9ad910bf0580bc4700346906476003a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 27/94] fix: config: don't append a list to the preset value's
 backing array

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index ea0aa14..4cf8161 100644
--- a/config/config.go
+++ b/config/config.go
@@ -109,7 +109,7 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 	case reflect.Slice:
 		if val != "" {
 			parts := strings.Split(val, ",")
-			x := dest
+			x := reflect.MakeSlice(dest.Type(), 0, len(parts))
 			for _, el := range parts {
 				v := reflect.Indirect(reflect.New(dest.Type().Elem()))
 				err := unmarshalText(c, v, name+"[]", el)
-- 
2.43.0


From 2aab311ec661e4e658b65f3a2cccd2dbdbba0488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:31 +0000
Subject: [PATCH 28/94] fix: config: convert the keys of a map to its key type

---
 config/config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 4cf8161..27b1f58 100644
--- a/config/config.go
+++ b/config/config.go
@@ -132,7 +132,12 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 				if err != nil {
 					return err
 				}
-				m.SetMapIndex(reflect.ValueOf(key), v)
+				k := reflect.Indirect(reflect.New(dest.Type().Key()))
+				err = unmarshalText(c, k, name+"[]", key)
+				if err != nil {
+					return err
+				}
+				m.SetMapIndex(k, v)
 			}
 			dest.Set(m)
 		}
-- 
2.43.0


From df62ce496aaea264ea92012ad2760b324b4f6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 29/94] fix: config: refuse an interface as a configuration
 instead of panicking

---
 config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 27b1f58..a440bf5 100644
--- a/config/config.go
+++ b/config/config.go
@@ -19,10 +19,10 @@ func Must[T any](c ctx.C, cfg T, f func(string) string) T {
 }
 
 func From[T any](c ctx.C, cfg T, f func(string) string) (T, error) {
-	if reflect.TypeOf(cfg).Kind() != reflect.Struct {
+	v := reflect.ValueOf(&cfg).Elem()
+	if v.Kind() != reflect.Struct {
 		return cfg, ctx.NewErrorf(c, "expected struct, got %T", cfg)
 	}
-	v := reflect.ValueOf(&cfg).Elem()
 	t := v.Type()
 	for i := 0; i < v.NumField(); i++ {
 		ft := t.Field(i)
-- 
2.43.0


From 81969a0c81454e4e307ad4aee4c3c63d9e3b8337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:35 +0000
Subject: [PATCH 30/94] fix: config: refuse a tagged unexported field instead
 of panicking

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index a440bf5..0976eae 100644
--- a/config/config.go
+++ b/config/config.go
@@ -32,6 +32,9 @@ func From[T any](c ctx.C, cfg T, f func(string) string) (T, error) {
 		}
 		parts := strings.Split(tag, ",")
 		key := parts[0]
+		if !ft.IsExported() {
+			return cfg, ctx.NewErrorf(c, "can't set unexported field %s for %q", ft.Name, key)
+		}
 
 		var defVal string
 		var hasDef bool
-- 
2.43.0


From 0165b3344e197d3a170f4adefdbdb20b5d56b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:14 +0000
Subject: [PATCH 31/94] fix: enc: print the entries of a map in a fixed order

---
 enc/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index 4d3e65f..be1ec56 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -35,6 +36,7 @@ func (this Map) String() string {
 	for k, v := range this {
 		p = append(p, fmt.Sprintf("%q:%s", k, v))
 	}
+	sort.Strings(p) // the same text every time
 	return "{" + strings.Join(p, ", ") + "}"
 }
 
@@ -43,6 +45,7 @@ func (this Map) GoString() string {
 	for k, v := range this {
 		p = append(p, fmt.Sprintf("%q:%s", k, v))
 	}
+	sort.Strings(p) // the same text every time
 	return "enc.Map{" + strings.Join(p, ", ") + "}"
 }
 
-- 
2.43.0


From c3fb7b020a5a6047156f75c5702da6cf7098978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:16 +0000
Subject: [PATCH 32/94] fix: storage: a filter without a value matches a
 missing field instead of panicking

---
 storage/keyvalue.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/storage/keyvalue.go b/storage/keyvalue.go
index 9fc0d51..75e46c2 100644
--- a/storage/keyvalue.go
+++ b/storage/keyvalue.go
@@ -100,12 +100,16 @@ func (this Filter) Check(c ctx.C, val enc.Map) (bool, error) {
 	if v == nil {
 		v = enc.Nil{}
 	}
-	log.Debugf(c, "Check(%q %q %v)", v, this.Cmp, this.Val)
+	want := this.Val
+	if want == nil {
+		want = enc.Nil{}
+	}
+	log.Debugf(c, "Check(%q %q %v)", v, this.Cmp, want)
 	switch this.Cmp {
 	case Equal:
-		return v.GoString() == this.Val.GoString(), nil
+		return v.GoString() == want.GoString(), nil
 	case NotEqual:
-		return v.GoString() != this.Val.GoString(), nil
+		return v.GoString() != want.GoString(), nil
 	default:
 		return false, ctx.NewErrorf(c, "unsupported cmp operator: %q", this.Cmp)
 	}
-- 
2.43.0


From 2a73134101406872b8cf461b0e748fde4df67f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 33/94] fix: storage: don't share values with the callers

---
 storage/keyvalue.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/storage/keyvalue.go b/storage/keyvalue.go
index 75e46c2..a5b94f7 100644
--- a/storage/keyvalue.go
+++ b/storage/keyvalue.go
@@ -33,13 +33,13 @@ func (this *memKeyValue) Get(c ctx.C, key string) (enc.Map, error) {
 	this.m.Lock()
 	defer this.m.Unlock()
 	v := this.data[key]
-	return v, nil
+	return copyMap(v), nil
 }
 
 func (this *memKeyValue) Upsert(c ctx.C, key string, val enc.Map) error {
 	this.m.Lock()
 	defer this.m.Unlock()
-	this.data[key] = val
+	this.data[key] = copyMap(val)
 	return nil
 }
 
@@ -66,7 +66,7 @@ func (this *memKeyValue) Range(c ctx.C, f func(c ctx.C, key string, val enc.Map)
 			}
 			log.Debugf(c, "prep %q is %v", k, ok)
 			if ok {
-				list = append(list, pair{k, v})
+				list = append(list, pair{k, copyMap(v)})
 			}
 		}
 		return nil
@@ -85,6 +85,40 @@ func (this *memKeyValue) Range(c ctx.C, f func(c ctx.C, key string, val enc.Map)
 	return nil
 }
 
+// values are copied on the way in and out, so that nobody can change what is stored but by Upsert and Delete
+func copyMap(in enc.Map) enc.Map {
+	if in == nil {
+		return nil
+	}
+	out := make(enc.Map, len(in))
+	for k, v := range in {
+		out[k] = copyNode(v)
+	}
+	return out
+}
+
+func copyNode(in enc.Node) enc.Node {
+	switch in := in.(type) {
+	case enc.Map:
+		return copyMap(in)
+	case enc.List:
+		out := make(enc.List, len(in))
+		for i, v := range in {
+			out[i] = copyNode(v)
+		}
+		return out
+	case enc.Pairs:
+		out := make(enc.Pairs, len(in))
+		for i, p := range in {
+			p.Value = copyNode(p.Value)
+			out[i] = p
+		}
+		return out
+	default:
+		return in // scalars can't be changed
+	}
+}
+
 func check(c ctx.C, val enc.Map, filters ...Filter) (bool, error) {
 	for _, f := range filters {
 		ok, err := f.Check(c, val)
-- 
2.43.0


From 2f7a646fa9e57c257b0e8560f5087ac1da7d0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:09 +0000
Subject: [PATCH 34/94] fix: caches: a hit counts as use in the LRU

---
 storage/keyvalue.go | 6 ++++++
 utils/caches/lru.go | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/storage/keyvalue.go b/storage/keyvalue.go
index a5b94f7..abc47dc 100644
--- a/storage/keyvalue.go
+++ b/storage/keyvalue.go
@@ -102,12 +102,18 @@ func copyNode(in enc.Node) enc.Node {
 	case enc.Map:
 		return copyMap(in)
 	case enc.List:
+		if in == nil {
+			return in
+		}
 		out := make(enc.List, len(in))
 		for i, v := range in {
 			out[i] = copyNode(v)
 		}
 		return out
 	case enc.Pairs:
+		if in == nil {
+			return in
+		}
 		out := make(enc.Pairs, len(in))
 		for i, p := range in {
 			p.Value = copyNode(p.Value)
diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index dd3e596..5f80847 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -64,10 +64,10 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 
 	i, exists := this.heap.index[k]
 	if exists {
-		entry := this.heap.list[i]
-		entry.last = time.Now()
+		val := this.heap.list[i].val
+		this.heap.list[i].last = time.Now()
 		heap.Fix(this.heap, i)
-		return entry.val, HIT, nil
+		return val, HIT, nil
 	}
 
 	// TODO(oha): this is wrong, we shouldn't hold a lock onMiss
-- 
2.43.0


From 464610da89e76392e97e5bb0325fa54503861559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 35/94] fix: caches: lock the LRU while printing it

---
 utils/caches/lru.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index 5f80847..31b5d1e 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -98,6 +98,9 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 }
 
 func (this *LRU[K, V]) String() string {
+	this.l.Lock()
+	defer this.l.Unlock()
+
 	if len(this.heap.list) == 0 {
 		return fmt.Sprintf("LRU{%d/%d, empty}", this.curSize, this.MaxSize)
 	}
-- 
2.43.0


From 70aae3886f578ec44cb86eac2a58d4aa66a92150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:02 +0000
Subject: [PATCH 36/94] fix: caches: don't load a new request cache entry twice

---
 utils/caches/request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/caches/request.go b/utils/caches/request.go
index 227c5c3..c9798b4 100644
--- a/utils/caches/request.go
+++ b/utils/caches/request.go
@@ -44,8 +44,8 @@ func (this *RequestCache[K, V]) Request(c ctx.C, key K) (V, HitMiss, error) {
 	defer e.m.Unlock()
 
 	//log.Debugf(c, "ReqCache[%v] %v expired %v ago", key, hit, time.Since(e.expire))
-	// not a miss, and not expired
-	if hit != MISS && time.Until(e.expire) >= 0 {
+	// not expired (a new entry is until someone loads it, and that might have been another caller)
+	if time.Until(e.expire) >= 0 {
 		if e.err != nil {
 			return e.V, HIT, e.err
 		} else {
-- 
2.43.0


From 2b23e92e3c27fa4cb0f03b74c00de281b7da0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:35 +0000
Subject: [PATCH 37/94] fix: sync: range over nil keys and values of a map of
 interfaces

---
 utils/sync/map.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/sync/map.go b/utils/sync/map.go
index 8ec73ce..1a2816c 100644
--- a/utils/sync/map.go
+++ b/utils/sync/map.go
@@ -91,7 +91,9 @@ func (this *Map[K, V]) Store(key K, val V) {
 
 func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 	this.m.Range(func(key, val any) bool {
-		return f(key.(K), val.(V))
+		k, _ := key.(K) // nil if K is an interface
+		v, _ := val.(V) // same
+		return f(k, v)
 	})
 }
 
@@ -99,7 +101,9 @@ func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 func (this *Map[K, V]) RangeErr(f func(key K, val V) error) error {
 	var err error
 	this.m.Range(func(key, val any) bool {
-		err = f(key.(K), val.(V))
+		k, _ := key.(K) // nil if K is an interface
+		v, _ := val.(V) // same
+		err = f(k, v)
 		return err == nil
 	})
 	return err
-- 
2.43.0


From 4f98300b79aeecfc030d0368b0889a9222f64959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 38/94] fix: utils: ReadAll keeps data returned together with
 an error

---
 utils/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/io.go b/utils/io.go
index c822cb1..20d6c8b 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -21,11 +21,11 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 		buf := make([]byte, 8192)
 		for c.Err() == nil {
 			ct, err := r.Read(buf)
+			_, _ = out.Write(buf[0:ct]) // might come together with an error
 			if err != nil {
 				ch <- err
 				return
 			}
-			_, _ = out.Write(buf[0:ct])
 			//log.Printf("read %d bytes...", ct)
 		}
 	}()
-- 
2.43.0


From 6f9367c1c91e1c593ddb6506ba645226b82ee217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 39/94] fix: utils: ReadAll doesn't share its buffer with a
 read in progress after a cancel

---
 utils/io.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index 20d6c8b..004ee01 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"bytes"
 	"io"
+	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -11,7 +12,15 @@ import (
 // Note: it uses an internal go-routine, which will block on read
 // If the close function is passed, it will be called when read is exhausted.
 func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
+	var m sync.Mutex // after a cancel a read may still be going on
 	out := bytes.Buffer{}
+	done := func() []byte {
+		m.Lock()
+		defer m.Unlock()
+		b := out.Bytes()
+		out = bytes.Buffer{} // what comes later is not for the caller
+		return b
+	}
 	ch := make(chan error, 1)
 	if close != nil {
 		defer close() // nolint
@@ -21,7 +30,9 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 		buf := make([]byte, 8192)
 		for c.Err() == nil {
 			ct, err := r.Read(buf)
+			m.Lock()
 			_, _ = out.Write(buf[0:ct]) // might come together with an error
+			m.Unlock()
 			if err != nil {
 				ch <- err
 				return
@@ -31,11 +42,11 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 	}()
 	select {
 	case <-c.Done():
-		return out.Bytes(), ctx.NewErrorf(c, "timeout: %w", c.Err())
+		return done(), ctx.NewErrorf(c, "timeout: %w", c.Err())
 	case err := <-ch:
 		if err == io.EOF {
-			return out.Bytes(), nil
+			return done(), nil
 		}
-		return out.Bytes(), ctx.NewErrorf(c, "ReadAll: %w", err)
+		return done(), ctx.NewErrorf(c, "ReadAll: %w", err)
 	}
 }
-- 
2.43.0


From 843b6cd8e0340e59682912b2736104f127b5613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:02 +0000
Subject: [PATCH 40/94] fix: shutdown holds counted under a lock, so that a
 hold taken while others wait for the end does not panic and a release
 repeated does not drop someone else's hold

---
 shutdown/shutdown.go | 45 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/shutdown/shutdown.go b/shutdown/shutdown.go
index 2aab1ac..1f533e3 100644
--- a/shutdown/shutdown.go
+++ b/shutdown/shutdown.go
@@ -19,15 +19,25 @@ type shutter struct {
 	ch5  chan struct{}
 	once sync.Once
 	// active services holding the shutdown to complete
-	wg sync.WaitGroup
+	mx      sync.Mutex
+	holds   int
+	drained chan struct{} // closed when the last of the current holds is released
 }
 
+var closedCh = func() chan struct{} {
+	ch := make(chan struct{})
+	close(ch)
+	return ch
+}()
+
 var shutdowner = newShutter()
 
 func newShutter() *shutter {
 	return &shutter{
 		ch:  make(chan struct{}),
 		ch5: make(chan struct{}),
+		// no hold yet
+		drained: closedCh,
 	}
 }
 
@@ -54,25 +64,38 @@ func (this *shutter) started5Sec() <-chan struct{} {
 
 // returns a channel that will close when the shutdown has completed
 func (this *shutter) done() <-chan struct{} {
-	ch := make(chan struct{})
-	go func() {
-		this.wg.Wait()
-		close(ch)
-	}()
-	return ch
+	this.mx.Lock()
+	defer this.mx.Unlock()
+	return this.drained
 }
 
 // prevent the shutdown to complete until released
+// NOTE: holds may come and go while others are waiting for done(), which a sync.WaitGroup would not allow
 func (this *shutter) hold() ReleaseFn {
-	this.wg.Add(1)
-	return this.wg.Done
+	this.mx.Lock()
+	defer this.mx.Unlock()
+	if this.holds == 0 {
+		this.drained = make(chan struct{})
+	}
+	this.holds++
+	var once sync.Once
+	return func() { once.Do(this.release) }
+}
+
+func (this *shutter) release() {
+	this.mx.Lock()
+	defer this.mx.Unlock()
+	this.holds--
+	if this.holds == 0 {
+		close(this.drained)
+	}
 }
 
 // prevents the shutdown to complete until released, and also wait for the shutdown to start
 func (this *shutter) holdAndWait() ReleaseFn {
-	this.wg.Add(1)
+	release := this.hold()
 	<-this.ch
-	return this.wg.Done
+	return release
 }
 
 // setup signals and wait for the shutdown to complete
-- 
2.43.0


From 1c708a61ecc8289940239797444f77cb0c96dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:20 +0000
Subject: [PATCH 41/94] fix: api handlers with private fields: state is copied
 for each request instead of panicking, inputs and outputs are refused when
 registered

---
 api/handler.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/api/handler.go b/api/handler.go
index a2e2234..80709de 100644
--- a/api/handler.go
+++ b/api/handler.go
@@ -15,7 +15,7 @@ type Handler[T any] struct {
 	urls []*url.URL
 
 	auth *field
-	init map[int]reflect.Value
+	init reflect.Value // copied into each request, never modified
 	in   []field
 	out  []field
 }
@@ -36,9 +36,7 @@ func NewClient[T any](c ctx.C, init T) (Client[T], error) {
 func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 	log.Debugf(c, "NewHandler[%T]", init)
 	initV := reflect.ValueOf(init)
-	this := Handler[T]{
-		init: map[int]reflect.Value{},
-	}
+	this := Handler[T]{}
 	if initV.Kind() != reflect.Pointer {
 		return this, ctx.NewErrorf(c, "expected *struct, got %T", init)
 	}
@@ -52,7 +50,10 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		return this, ctx.NewErrorf(c, "expected *struct, got %T", init)
 	}
 
-	// TODO(oha) use init as initializer
+	// NOTE: copied as a whole, so unexported fields are there too
+	this.init = reflect.New(this.typ).Elem()
+	this.init.Set(initV)
+
 	for i := 0; i < this.typ.NumField(); i++ {
 		ft := this.typ.Field(i)
 		tag, err := parseTags(c, ft)
@@ -60,6 +61,9 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 			return this, err
 		}
 		//log.Debugf(c, "%v.%s %+v", this.typ, ft.Name, tag)
+		if (tag.in || tag.out || tag.auth) && !ft.IsExported() {
+			return this, ctx.NewErrorf(c, "unexported field with an api tag: %T.%s", init, ft.Name)
+		}
 		f := field{i, tag}
 		if tag.auth {
 			if this.auth != nil {
@@ -76,12 +80,8 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		if tag.url != nil {
 			this.urls = append(this.urls, tag.url)
 		}
-		if !tag.in && !tag.out && tag.url == nil {
-			v := initV.Field(f.i)
-			if !v.IsZero() {
-				this.init[f.i] = v
-				//log.Debugf(c, "init %v.%s = %#v", this.typ, f.tag.name, v)
-			}
+		if v := this.init.Field(f.i); v.CanSet() && (tag.in || tag.out || tag.url != nil) {
+			v.SetZero()
 		}
 	}
 
@@ -223,10 +223,7 @@ func (this Server[T]) Recv(c ctx.C, req ServerRequest) (T, error) {
 	log.Debugf(c, "Server[%T].Recv(%+v)", zero, req)
 	ptrV := reflect.New(this.typ)
 	v := ptrV.Elem()
-	for i, fv := range this.init {
-		v.Field(i).Set(fv)
-		//log.Debugf(c, "init %T.%v = %#v", this.typ, this.typ.Field(i).Name, fv)
-	}
+	v.Set(this.init)
 	for _, f := range this.in {
 		fv := v.Field(f.i)
 		err := req.Unmarshal(c, f.tag.name, fv)
-- 
2.43.0


From c712d72763089ba2f6818bb17ce2be68c0829b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:45 +0000
Subject: [PATCH 42/94] fix: http requests served through Server.Handle are
 counted once, and with the status sent

---
 http/mux.go    | 33 ++++++++++++++++++++++++++-------
 http/server.go |  8 ++------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/http/mux.go b/http/mux.go
index cac7611..0239607 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -24,8 +24,16 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-		w2 := &response{w, 0}
+		w2 := &response{ResponseWriter: w, path: path}
 		switch w := w.(type) {
+		case responseHijacker: // came through the server, which will observe it
+			w.path = path
+			h.ServeHTTP(w, r.WithContext(c))
+			return
+		case *response: // same
+			w.path = path
+			h.ServeHTTP(w, r.WithContext(c))
+			return
 		case http.Hijacker:
 			// if there is an hijacker, we need to be a bit clever
 			h.ServeHTTP(responseHijacker{w2, w}, r.WithContext(c))
@@ -33,11 +41,7 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 			h.ServeHTTP(w2, r.WithContext(c))
 		}
 
-		metric{
-			Method: r.Method,
-			Code:   w2.code,
-			Path:   path,
-		}.observe(time.Since(t0))
+		w2.observe(r, t0)
 	})
 
 	p := &openapi.Path{}
@@ -47,7 +51,21 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 
 type response struct {
 	http.ResponseWriter
-	code int
+	code     int
+	path     string
+	hijacked bool
+}
+
+func (r *response) observe(req *http.Request, t0 time.Time) {
+	code := r.code
+	if code == 0 && !r.hijacked {
+		code = 200 // what is sent when the handler writes nothing
+	}
+	metric{
+		Method: req.Method,
+		Code:   code,
+		Path:   r.path,
+	}.observe(time.Since(t0))
 }
 
 type responseHijacker struct {
@@ -75,5 +93,6 @@ func (r *response) Write(b []byte) (int, error) {
 }
 
 func (r responseHijacker) Hijack() (conn net.Conn, rw *bufio.ReadWriter, err error) {
+	r.hijacked = true
 	return r.hijacker.Hijack()
 }
diff --git a/http/server.go b/http/server.go
index f5c4cc0..bedd9e3 100644
--- a/http/server.go
+++ b/http/server.go
@@ -47,7 +47,7 @@ func NewServer(c ctx.C) *Server {
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-		w2 := &response{w, 0}
+		w2 := &response{ResponseWriter: w, path: r.URL.Path} // TODO(oha) if we have templates, this won't work
 		switch w := w.(type) {
 		case http.Hijacker:
 			// if there is an hijacker, we need to be a bit clever
@@ -56,11 +56,7 @@ func NewServer(c ctx.C) *Server {
 			this.mux.ServeHTTP(w2, r.WithContext(c))
 		}
 
-		metric{
-			Method: r.Method,
-			Code:   w2.code,
-			Path:   r.URL.Path, // TODO(oha) if we have templates, this won't work
-		}.observe(time.Since(t0))
+		w2.observe(r, t0)
 	})
 
 	this.mux.HandleFunc("/live", func(w http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From a63c5ccbaac2b981bb9a083d33baf83d7a956804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:48 +0000
Subject: [PATCH 43/94] fix: an informational status does not stand for the
 final one

---
 http/mux.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/mux.go b/http/mux.go
index 0239607..84b1bca 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -76,6 +76,10 @@ type responseHijacker struct {
 var _ http.Hijacker = &responseHijacker{}
 
 func (r *response) WriteHeader(code int) {
+	if r.code == 0 && code >= 100 && code < 200 && code != http.StatusSwitchingProtocols {
+		r.ResponseWriter.WriteHeader(code) // informational, the status is still to come
+		return
+	}
 	if r.code != 0 {
 		stack := utils.Stack(1, 10)
 		log.Warnf(nil, "duplicate WriteHeader() at %s", strings.Join(stack, "\n"))
-- 
2.43.0


From b110608cae816347f584b32653e4abcf953f6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:50 +0000
Subject: [PATCH 44/94] fix: an http.Error without a valid code is reported as
 an internal error

---
 http/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/error.go b/http/error.go
index 5f82d34..b7bcc02 100644
--- a/http/error.go
+++ b/http/error.go
@@ -33,7 +33,7 @@ func (this Error) Unwrap() error {
 
 func ErrorCode(err error, def int) int {
 	var e Error
-	if errors.As(err, &e) {
+	if errors.As(err, &e) && e.Code >= 200 && e.Code <= 999 { // anything else can't be sent as the status of a response
 		return e.Code
 	}
 	return def
-- 
2.43.0


From b00e56204657effd95583696575eadc46ee7b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:53 +0000
Subject: [PATCH 45/94] fix: a malformed API request body is the client's error

---
 http/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/api.go b/http/api.go
index 69f2ef4..4631503 100644
--- a/http/api.go
+++ b/http/api.go
@@ -33,7 +33,7 @@ func (s *Server) RegisterAPI(c ctx.C, obj Doable) (*openapi.PathItem, error) {
 		if r.Body != nil {
 			err := req.ReadFrom(c, bytes.NewBuffer(in))
 			if err != nil {
-				return nil, ctx.NewErrorf(c, "can't read request body: %v", err)
+				return nil, NewErrorf(c, 400, "can't read request body: %v", err)
 			}
 			defer r.Body.Close()
 		} else {
-- 
2.43.0


From 3911e595e67364efa93ba247f95081a40f157ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:56 +0000
Subject: [PATCH 46/94] fix: responses are compressed for clients which accept
 gzip as an encoding

---
 http/server.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index bedd9e3..db836ed 100644
--- a/http/server.go
+++ b/http/server.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"strconv"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -226,7 +227,7 @@ func (this *Server) handleRequest(path string, f func(c ctx.C, in []byte, r *htt
 		}
 
 		w.Header().Add("Content-Type", "application/json")
-		if len(out) > 16*1024 && strings.Contains(r.Header.Get("Accept"), "gzip") { // TODO ugly parsing, but good enough for now
+		if len(out) > 16*1024 && acceptsGzip(r) {
 			w.Header().Add("Content-Encoding", "gzip")
 			w2 := gzip.NewWriter(w)
 			_, err = w2.Write(out)
@@ -240,3 +241,22 @@ func (this *Server) handleRequest(path string, f func(c ctx.C, in []byte, r *htt
 		}
 	})
 }
+
+// true if gzip is listed in the Accept-Encoding header, unless with a weight of 0
+func acceptsGzip(r *http.Request) bool {
+	for _, h := range r.Header.Values("Accept-Encoding") {
+		for _, enc := range strings.Split(h, ",") {
+			name, params, _ := strings.Cut(enc, ";")
+			if !strings.EqualFold(strings.TrimSpace(name), "gzip") {
+				continue
+			}
+			k, v, ok := strings.Cut(params, "=")
+			if !ok || !strings.EqualFold(strings.TrimSpace(k), "q") {
+				return true
+			}
+			q, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
+			return err == nil && q > 0
+		}
+	}
+	return false
+}
-- 
2.43.0


From 51775f91cca0f699f7541e70f5af636e584796f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:44 +0000
Subject: [PATCH 47/94] fix: the http client closes the response body whatever
 the outcome

---
 http/client.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/http/client.go b/http/client.go
index e242969..9da3831 100644
--- a/http/client.go
+++ b/http/client.go
@@ -28,11 +28,13 @@ func (this Client) Get(c ctx.C, url string) ([]byte, error) {
 		return nil, ctx.NewErrorf(c, "can't create request: %w", err)
 	}
 	res, err := this.Do(req)
+	if res != nil && res.Body != nil {
+		defer res.Body.Close() // also when the status is an error
+	}
 	if err != nil {
 		return nil, err
 	}
 	if res.Body != nil {
-		defer res.Body.Close()
 		return io.ReadAll(res.Body)
 	}
 	return nil, nil
@@ -49,11 +51,13 @@ func (this Client) Post(c ctx.C, url string, body []byte) ([]byte, error) {
 	}
 	req.Header.Set(`Content-Type`, `application/json`)
 	res, err := this.Do(req)
+	if res != nil && res.Body != nil {
+		defer res.Body.Close() // also when the status is an error
+	}
 	if err != nil {
 		return nil, err
 	}
 	if res.Body != nil {
-		defer res.Body.Close()
 		return io.ReadAll(res.Body)
 	}
 	return nil, nil
@@ -104,6 +108,9 @@ func (this Client) API(c ctx.C, obj Doable) error {
 
 		log.Debugf(c, "client[%T].Send() %s", obj, j)
 		res, err := this.Do(req)
+		if res != nil && res.Body != nil {
+			defer res.Body.Close() // whatever happens next
+		}
 		if err != nil {
 			return ctx.NewErrorf(c, "can't send request: %w", err)
 		}
@@ -116,7 +123,6 @@ func (this Client) API(c ctx.C, obj Doable) error {
 			if err != nil {
 				return ctx.NewErrorf(c, "can't read response: %w", err)
 			}
-			res.Body.Close()
 			log.Debugf(c, "client[%T].Recv() %s", obj, j)
 			return h.Recv(c, data, obj)
 		default:
-- 
2.43.0


From 2549a1959e7f3db0b12ad44b1f5233a7b5255bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:46 +0000
Subject: [PATCH 48/94] fix: the http client refuses an API object without url

---
 http/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/client.go b/http/client.go
index 9da3831..f29307e 100644
--- a/http/client.go
+++ b/http/client.go
@@ -94,6 +94,9 @@ func (this Client) API(c ctx.C, obj Doable) error {
 		}
 
 		u := h.URL()
+		if u == nil {
+			return ctx.NewErrorf(c, "no URL for %T", obj)
+		}
 		if this.BaseUrl != nil {
 			u, err = this.BaseUrl.Parse(u.String())
 			if err != nil {
-- 
2.43.0


From 8deabdb3d1e5373ca720b73f132da07309e91170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:55 +0000
Subject: [PATCH 49/94] fix: websocket pings are answered instead of crashing
 the process

---
 http/ws/ws.go | 55 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index 8b18d60..19910b3 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -1,7 +1,6 @@
 package ws
 
 import (
-	"fmt"
 	"io"
 	"sync"
 
@@ -62,11 +61,16 @@ func (this *wsImpl) write(c ctx.C, data []byte) error {
 }
 
 func (this *wsImpl) Read(c ctx.C) (enc.Node, error) {
-	j, err := this.read(c)
-	if err != nil {
-		return nil, err
+	for {
+		j, err := this.read(c)
+		if err != nil {
+			return nil, err
+		}
+		if j == nil {
+			continue // a control frame, which has been dealt with
+		}
+		return enc.JSON{}.Decode(c, j)
 	}
-	return enc.JSON{}.Decode(c, j)
 }
 
 func (this *wsImpl) read(c ctx.C) ([]byte, error) {
@@ -92,24 +96,16 @@ func (this *wsImpl) read(c ctx.C) ([]byte, error) {
 		// TODO read message and debug?
 		return nil, ctx.WrapError(c, io.EOF)
 	case websocket.PingFrame, websocket.PongFrame:
-		panic("unsupported ping-pong")
-		/*
-			            // TODO implements this
-						b := make([]byte, maxControlFramePayloadLength)
-						n, err := io.ReadFull(frame, b)
-						if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-							return nil, err
-						}
-						io.Copy(ioutil.Discard, frame)
-						if frame.PayloadType() == PingFrame {
-							if _, err := handler.WritePong(b[:n]); err != nil {
-								return nil, err
-							}
-						}
-						return nil, nil
-		*/
+		data, err := io.ReadAll(r)
+		if err != nil {
+			return nil, ctx.WrapError(c, err)
+		}
+		if r.PayloadType() == websocket.PingFrame {
+			return nil, this.pong(c, data)
+		}
+		return nil, nil
 	default:
-		panic(fmt.Sprintf("unexpected type %b", r.PayloadType()))
+		return nil, ctx.NewErrorf(c, "unexpected type %b", r.PayloadType())
 	}
 
 	data, err := io.ReadAll(r)
@@ -120,6 +116,21 @@ func (this *wsImpl) read(c ctx.C) ([]byte, error) {
 	return data, nil
 }
 
+// answer a ping with its own payload
+func (this *wsImpl) pong(c ctx.C, data []byte) error {
+	if len(data) > 125 {
+		return ctx.NewErrorf(c, "ping too long: %d", len(data))
+	}
+	this.m.Lock()
+	defer this.m.Unlock()
+	w, err := this.conn.NewFrameWriter(websocket.PongFrame)
+	if err != nil {
+		return ctx.WrapError(c, err)
+	}
+	_, err = w.Write(data)
+	return ctx.WrapError(c, err)
+}
+
 func (this *wsImpl) Close(c ctx.C, status int) error {
 	err := this.conn.WriteClose(status)
 	if err != nil {
-- 
2.43.0


From dd27a98224314bbce160bc5377a3854b411ec61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 50/94] fix: a websocket message cut short by the end of the
 connection is not delivered

---
 http/ws/ws.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index 19910b3..4ee7aa7 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -79,10 +79,10 @@ func (this *wsImpl) read(c ctx.C) ([]byte, error) {
 		return nil, err
 	}
 	hr := r.HeaderReader()
+	var head []byte
 	if hr != nil {
-		//d, _ := io.ReadAll(hr)
-		//log.Debugf(c, "ws head: %x (%q)", d, d)
-		_, _ = io.Copy(io.Discard, hr) // we don't care
+		head, _ = io.ReadAll(hr)
+		//log.Debugf(c, "ws head: %x (%q)", head, head)
 	}
 	if c.Err() != nil {
 		return nil, ctx.WrapError(c, c.Err())
@@ -100,6 +100,9 @@ func (this *wsImpl) read(c ctx.C) ([]byte, error) {
 		if err != nil {
 			return nil, ctx.WrapError(c, err)
 		}
+		if len(head)+len(data) != r.Len() {
+			return nil, ctx.WrapError(c, io.ErrUnexpectedEOF)
+		}
 		if r.PayloadType() == websocket.PingFrame {
 			return nil, this.pong(c, data)
 		}
@@ -112,6 +115,9 @@ func (this *wsImpl) read(c ctx.C) ([]byte, error) {
 	if err != nil {
 		return nil, ctx.WrapError(c, err)
 	}
+	if len(head)+len(data) != r.Len() { // the connection ended within the frame
+		return nil, ctx.WrapError(c, io.ErrUnexpectedEOF)
+	}
 	log.Debugf(c, "ws recv: %s", data)
 	return data, nil
 }
-- 
2.43.0


From a7d7e51f2b6e840bff0df7ff57eb1e0a7c0d030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:22 +0000
Subject: [PATCH 51/94] fix: the first fragment of a websocket message is not
 taken for the message

---
 http/ws/ws.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index 4ee7aa7..a240fc8 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -92,6 +92,9 @@ func (this *wsImpl) read(c ctx.C) ([]byte, error) {
 	case websocket.ContinuationFrame:
 		return nil, ctx.NewErrorf(c, "unsupported continuation")
 	case websocket.TextFrame, websocket.BinaryFrame:
+		if len(head) > 0 && head[0]&0x80 == 0 { // not FIN
+			return nil, ctx.NewErrorf(c, "unsupported continuation")
+		}
 	case websocket.CloseFrame:
 		// TODO read message and debug?
 		return nil, ctx.WrapError(c, io.EOF)
-- 
2.43.0


From 72b86cc94ba7549dcbd588997d20b1ecf5a6185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:24 +0000
Subject: [PATCH 52/94] fix: the websocket disconnect frame carries the text of
 any error

---
 http/ws/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/ws/conn.go b/http/ws/conn.go
index 58536d6..760c737 100644
--- a/http/ws/conn.go
+++ b/http/ws/conn.go
@@ -61,7 +61,7 @@ func (this *Conn) Loop(c ctx.C) error {
 			if err != nil {
 				this.Send(c, Frame{
 					Type: "disconnect",
-					Data: enc.MustMarshal(c, err),
+					Data: enc.String(err.Error()),
 				})
 				return ctx.NewErrorf(c, "closing: %v", err)
 			}
-- 
2.43.0


From d6f27765c075344aaaed59f29e896a4c074a545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 53/94] fix: a struct can be registered as websocket object by
 value

---
 http/ws/reflect.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 7f149f6..c12d8f9 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -105,7 +105,9 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 	switch origVal.Kind() {
 	case reflect.Pointer:
 	case reflect.Struct:
-		origVal = origVal.Addr() // make sure it's a pointer
+		ptr := reflect.New(origVal.Type()) // make sure it's a pointer
+		ptr.Elem().Set(origVal)
+		origVal = ptr
 	default:
 		return ctx.NewErrorf(c, "expected struct or *struct, got %T", obj)
 	}
-- 
2.43.0


From b752ed72ce4985f68620cabd3e5897b64342da61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 54/94] fix: only the public fields of a websocket object are
 copied

---
 http/ws/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index c12d8f9..347c2b3 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -121,7 +121,7 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 	for i := 0; i < origVal.Elem().NumField(); i++ {
 		i := i
 		fv := origVal.Elem().Field(i)
-		if !fv.IsZero() {
+		if ptrType.Elem().Field(i).IsExported() && !fv.IsZero() {
 			this.fields = append(this.fields, fieldInit{
 				index: i,
 				value: fv,
-- 
2.43.0


From 0c5e855d6ab55ec188385a327c75dd2b9580456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:45 +0000
Subject: [PATCH 55/94] fix: a failing websocket call is answered once

---
 http/ws/reflect.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 347c2b3..f2b8e84 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -40,13 +40,7 @@ func (this builder) build(c C, req enc.Node) any {
 		method := method
 		c.ch.byPath[method.name] = func(c C, req enc.Node) error {
 			err := method.call(c, v, req)
-			if err != nil {
-				c.ch.Conn.Send(c, Frame{
-					Channel: c.ch.ID,
-					Path:    method.name,
-					Type:    "return",
-					Data:    enc.MustMarshal(c, err),
-				})
+			if err != nil { // sent to the client by the channel
 				return ctx.NewErrorf(c, "ws[%s|%s]: %v", c.ch.ID, method.name, err)
 			}
 			c.ch.Conn.Send(c, Frame{
-- 
2.43.0


From 1ea0242a952b230b6a84f4df48dafd1351a5fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 56/94] fix: closing a websocket channel leaves the others open

---
 http/ws/rpc.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/http/ws/rpc.go b/http/ws/rpc.go
index 4ccb874..99d89ce 100644
--- a/http/ws/rpc.go
+++ b/http/ws/rpc.go
@@ -43,7 +43,13 @@ func (this *RpcConn) onFrame(c ctx.C, f Frame) error {
 	switch f.Type {
 	case "close":
 		// WAIT FOR STUFF?
-		return this.Close(c, 1000)
+		if f.Channel == "" {
+			return this.Close(c, 1000)
+		}
+		if ch := this.byChan.Get(f.Channel); ch != nil {
+			return ch.Close(c)
+		}
+		return ctx.NewErrorf(c, "unknown channel")
 	case "new", "open":
 		if fn := this.h.byPath.Get(f.Path); fn != nil {
 			return fn(c, this, f)
-- 
2.43.0


From eb23e9352ef8e2dd026e24caf7a33358b71aa53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:12 +0000
Subject: [PATCH 57/94] fix: a websocket channel whose Init fails is reported
 and not opened

---
 http/ws/handler.go | 10 +++++++++-
 http/ws/reflect.go |  6 +++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/http/ws/handler.go b/http/ws/handler.go
index 195c46d..002de41 100644
--- a/http/ws/handler.go
+++ b/http/ws/handler.go
@@ -125,10 +125,18 @@ func (this *RpcHandler) Register(c ctx.C, obj any) error {
 			ID:     f.Channel,
 		}
 		conn.byChan.Store(ch.ID, ch)
-		obj := b.build(C{
+		obj, err := b.build(C{
 			C:  c,
 			ch: ch,
 		}, f.Data)
+		if err != nil {
+			conn.byChan.Delete(ch.ID)
+			return conn.Send(c, Frame{
+				Channel: ch.ID,
+				Type:    "error",
+				Data:    enc.String(err.Error()),
+			})
+		}
 		log.Debugf(c, "new %+v", obj)
 		return nil
 	})
diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index f2b8e84..4ab75aa 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -20,7 +20,7 @@ type builder struct {
 }
 
 // init a new object, and bind it's methods to the channel
-func (this builder) build(c C, req enc.Node) any {
+func (this builder) build(c C, req enc.Node) (any, error) {
 	v := reflect.New(this.structType)
 	for _, c := range this.fields {
 		//log.Debugf(nil, "set %v", c.value)
@@ -30,7 +30,7 @@ func (this builder) build(c C, req enc.Node) any {
 	if this.constructor.methodName != "" {
 		err := this.constructor.call(c, v, req)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 
@@ -52,7 +52,7 @@ func (this builder) build(c C, req enc.Node) any {
 		}
 	}
 
-	return v.Interface()
+	return v.Interface(), nil
 }
 
 type method struct {
-- 
2.43.0


From 18689440a268c266740562533d8a719548a5b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:15 +0000
Subject: [PATCH 58/94] fix: sending what can't be marshalled over a websocket
 is an error

---
 http/ws/channel.go | 6 +++++-
 http/ws/conn.go    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/http/ws/channel.go b/http/ws/channel.go
index 27ff6da..f007e13 100644
--- a/http/ws/channel.go
+++ b/http/ws/channel.go
@@ -77,10 +77,14 @@ type C struct {
 }
 
 func (c C) Reply(path string, obj any) error {
+	n, err := enc.Marshal(c, obj)
+	if err != nil {
+		return err
+	}
 	return c.ch.Conn.Send(c, Frame{
 		Channel: c.ch.ID,
 		Path:    path,
-		Data:    enc.MustMarshal(c, obj),
+		Data:    n,
 	})
 }
 
diff --git a/http/ws/conn.go b/http/ws/conn.go
index 760c737..f833bac 100644
--- a/http/ws/conn.go
+++ b/http/ws/conn.go
@@ -70,5 +70,9 @@ func (this *Conn) Loop(c ctx.C) error {
 }
 
 func (this *Conn) Send(c ctx.C, obj any) error {
-	return this.ws.Write(c, enc.MustMarshal(c, obj))
+	n, err := enc.Marshal(c, obj)
+	if err != nil {
+		return err
+	}
+	return this.ws.Write(c, n)
 }
-- 
2.43.0


From 2d7428a9ba060f5e785a81620e2bb093c83088f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 59/94] fix: closing a websocket does not interfere with a
 concurrent send

---
 http/ws/ws.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index a240fc8..91ce88e 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -141,8 +141,11 @@ func (this *wsImpl) pong(c ctx.C, data []byte) error {
 }
 
 func (this *wsImpl) Close(c ctx.C, status int) error {
+	this.m.Lock()
+	defer this.m.Unlock()
 	err := this.conn.WriteClose(status)
 	if err != nil {
+		_ = this.conn.Close()
 		return err
 	}
 	return this.conn.Close()
-- 
2.43.0


From ed6cfaf4b190922796515185779b3cfb9519abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:04 +0000
Subject: [PATCH 60/94] fix: the websocket test client can be used for several
 channels at once

---
 http/ws/test.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/http/ws/test.go b/http/ws/test.go
index 565a8f0..7c05059 100644
--- a/http/ws/test.go
+++ b/http/ws/test.go
@@ -2,6 +2,7 @@ package ws
 
 import (
 	"io"
+	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
@@ -15,6 +16,7 @@ type TestClient struct {
 }
 
 type testWS struct {
+	m      sync.Mutex // protects byChan and closed
 	byChan map[string]func(ctx.C, Frame) error
 	inbox  chan Frame
 	closed bool
@@ -23,6 +25,8 @@ type testWS struct {
 var _ impl = &testWS{}
 
 func (this *testWS) Close(c ctx.C, reason int) error {
+	this.m.Lock()
+	defer this.m.Unlock()
 	this.closed = true
 	return nil
 }
@@ -41,7 +45,10 @@ func (this *testWS) Read(c ctx.C) (enc.Node, error) {
 }
 
 func (this *testWS) Write(c ctx.C, n enc.Node) error {
-	if this.closed {
+	this.m.Lock()
+	closed := this.closed
+	this.m.Unlock()
+	if closed {
 		return io.ErrClosedPipe
 	}
 	var f Frame
@@ -49,13 +56,21 @@ func (this *testWS) Write(c ctx.C, n enc.Node) error {
 		return ctx.WrapError(c, err)
 	}
 
+	this.m.Lock()
 	h := this.byChan[f.Channel]
+	this.m.Unlock()
 	if h == nil {
 		return ctx.NewErrorf(c, "unknown channel %q", f.Channel)
 	}
 	return h(c, f)
 }
 
+func (this *testWS) handle(chID string, h func(ctx.C, Frame) error) {
+	this.m.Lock()
+	defer this.m.Unlock()
+	this.byChan[chID] = h
+}
+
 // create a local websocket loop and return a client connected to it
 func (this *RpcHandler) NewTest(c ctx.C) *TestClient {
 	ws := &testWS{
@@ -92,7 +107,7 @@ func (this *TestClient) Close(c ctx.C) error {
 func (this *TestClient) Open(c ctx.C, path string, data any, onData func(ctx.C, Frame) error) (call func(ctx.C, string, any) error, err error) {
 	chID := uuid.NewString()
 	ech := make(chan error, 1)
-	this.ws.byChan[chID] = func(c ctx.C, f Frame) error {
+	this.ws.handle(chID, func(c ctx.C, f Frame) error {
 		switch f.Type {
 		case "return", "error":
 			var err error
@@ -112,7 +127,7 @@ func (this *TestClient) Open(c ctx.C, path string, data any, onData func(ctx.C,
 			}
 		}
 		return nil
-	}
+	})
 	return func(c ctx.C, path string, data any) error {
 			err := this.Send(c, Frame{
 				Channel: chID,
@@ -144,14 +159,14 @@ func (this *TestClient) NewContext(c ctx.C, size int) (C, <-chan Frame) {
 		Conn: this.conn,
 		ID:   uuid.NewString(),
 	}
-	this.ws.byChan[ch.ID] = func(c ctx.C, f Frame) error {
+	this.ws.handle(ch.ID, func(c ctx.C, f Frame) error {
 		select {
 		case outbox <- f:
 			return nil
 		case <-c.Done():
 			return c.Err()
 		}
-	}
+	})
 	return C{
 		C:  c,
 		ch: &ch,
-- 
2.43.0


From 71e655b67e79738789de151b5c529ab8d7218141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 61/94] fix: printing a counter does not race with observing it

---
 utils/prom/counter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index caf75da..837fd73 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -31,6 +31,12 @@ func (this *counter) observe(val float64) {
 	this.sum += val
 }
 
+func (this *counter) value() float64 {
+	this.m.Lock()
+	defer this.m.Unlock()
+	return this.sum
+}
+
 func (this *Counter) Print(w io.Writer) error {
 	first := true
 	return this.val.RangeErr(func(l string, v *counter) error {
@@ -53,10 +59,10 @@ func (this *Counter) Print(w io.Writer) error {
 			}
 		}
 		if l == "" {
-			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.sum)
+			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.value())
 			return err
 		} else {
-			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.sum)
+			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.value())
 			return err
 		}
 	})
-- 
2.43.0


From 30105ebfba3be03af518dfd2e2dea69e6bd62989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:54 +0000
Subject: [PATCH 62/94] fix: a histogram can be printed before its first
 observation is counted

---
 utils/prom/histogram.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index e16d811..012defb 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -53,6 +53,14 @@ func (this *histogramTS) observe(le []float64, val float64) {
 	}
 }
 
+// count of the i-th bucket, there are none before the first observation
+func (this *histogramTS) bucket(i int) int {
+	if i < len(this.buckets) {
+		return this.buckets[i]
+	}
+	return 0
+}
+
 func (this *Histogram) Print(name string, w io.Writer) (err error) {
 	first := true
 	return this.val.RangeErr(func(l string, v *histogramTS) error {
@@ -76,7 +84,7 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 	defer this.m.Unlock()
 	if labels == "" {
 		for i, le := range le {
-			b := this.buckets[i]
+			b := this.bucket(i)
 			_, err = fmt.Fprintf(w, "%s_bucket{le=\"%v\"} %d\n", name, le, b)
 			if err != nil {
 				return err
@@ -98,7 +106,7 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 		}
 	} else {
 		for i, le := range le {
-			b := this.buckets[i]
+			b := this.bucket(i)
 			_, err = fmt.Fprintf(w, "%s_bucket{%s,le=\"%v\"} %d\n", name, labels, le, b)
 			if err != nil {
 				return err
-- 
2.43.0


From ebf3e34daaad81ed7a3827608a3c10fd3668945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:35 +0000
Subject: [PATCH 63/94] fix: label values are escaped as the exposition format
 has it

---
 utils/prom/labels.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/prom/labels.go b/utils/prom/labels.go
index 66760a0..9d63a8b 100644
--- a/utils/prom/labels.go
+++ b/utils/prom/labels.go
@@ -2,8 +2,12 @@ package prom
 
 import (
 	"fmt"
+	"strings"
 )
 
+// the only escapes the exposition format knows
+var labelEscaper = strings.NewReplacer(`\`, `\\`, "\n", `\n`, `"`, `\"`)
+
 // returns a list of labels comma separated
 func stringify(keys []string, vals []string) string {
 	if len(keys) != len(vals) {
@@ -11,7 +15,7 @@ func stringify(keys []string, vals []string) string {
 	}
 	s := ""
 	for i := 0; i < len(keys); i++ {
-		s += fmt.Sprintf(",%s=%q", keys[i], vals[i])
+		s += fmt.Sprintf(",%s=\"%s\"", keys[i], labelEscaper.Replace(strings.ToValidUTF8(vals[i], "\uFFFD")))
 	}
 	if s == "" {
 		return ""
-- 
2.43.0


From fd55d0aa5801950ed914cdbe2090f1dbcebd0adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:40 +0000
Subject: [PATCH 64/94] fix: counters and sums are printed with all their
 digits

---
 utils/prom/counter.go   | 4 ++--
 utils/prom/histogram.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index 837fd73..b7ff8de 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -59,10 +59,10 @@ func (this *Counter) Print(w io.Writer) error {
 			}
 		}
 		if l == "" {
-			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.value())
+			_, err := fmt.Fprintf(w, "%s %v\n", this.Name, v.value())
 			return err
 		} else {
-			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.value())
+			_, err := fmt.Fprintf(w, "%s{%s} %v\n", this.Name, l, v.value())
 			return err
 		}
 	})
diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index 012defb..4c4e285 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -96,7 +96,7 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 			return err
 		}
 
-		_, err = fmt.Fprintf(w, "%s_sum %f\n", name, this.sum)
+		_, err = fmt.Fprintf(w, "%s_sum %v\n", name, this.sum)
 		if err != nil {
 			return err
 		}
@@ -118,7 +118,7 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 			return err
 		}
 
-		_, err = fmt.Fprintf(w, "%s_sum{%s} %f\n", name, labels, this.sum)
+		_, err = fmt.Fprintf(w, "%s_sum{%s} %v\n", name, labels, this.sum)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4ed690443c1169dcf3843c61f49c2fc3b0c2a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:44 +0000
Subject: [PATCH 65/94] fix: descriptions of metrics are escaped

---
 utils/prom/counter.go   | 2 +-
 utils/prom/custom.go    | 2 +-
 utils/prom/gauge.go     | 2 +-
 utils/prom/histogram.go | 2 +-
 utils/prom/labels.go    | 7 +++++++
 5 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index b7ff8de..a19de32 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -42,7 +42,7 @@ func (this *Counter) Print(w io.Writer) error {
 	return this.val.RangeErr(func(l string, v *counter) error {
 		if first {
 			first = false
-			_, err := fmt.Fprintf(w, "# HELP %s %s\n", this.Name, this.Desc)
+			_, err := fmt.Fprintf(w, "# HELP %s %s\n", this.Name, escapeHelp(this.Desc))
 			if err != nil {
 				return err
 			}
diff --git a/utils/prom/custom.go b/utils/prom/custom.go
index 87e2c23..0c8de8f 100644
--- a/utils/prom/custom.go
+++ b/utils/prom/custom.go
@@ -17,7 +17,7 @@ func (this *Custom) Print(name string, w io.Writer) error {
 	if len(m) == 0 {
 		return nil
 	}
-	_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, this.Desc)
+	_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, escapeHelp(this.Desc))
 	if err != nil {
 		return err
 	}
diff --git a/utils/prom/gauge.go b/utils/prom/gauge.go
index 12a7d20..31b7617 100644
--- a/utils/prom/gauge.go
+++ b/utils/prom/gauge.go
@@ -67,7 +67,7 @@ func (this *Gauge) Print(name string, w io.Writer) error {
 	return this.val.RangeErr(func(l string, x gaugeEntry) error {
 		if first {
 			first = false
-			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, this.Desc)
+			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, escapeHelp(this.Desc))
 			if err != nil {
 				return err
 			}
diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index 4c4e285..0a1ecb0 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -66,7 +66,7 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 	return this.val.RangeErr(func(l string, v *histogramTS) error {
 		if first {
 			first = false
-			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, this.Desc)
+			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, escapeHelp(this.Desc))
 			if err != nil {
 				return err
 			}
diff --git a/utils/prom/labels.go b/utils/prom/labels.go
index 9d63a8b..57d1d0b 100644
--- a/utils/prom/labels.go
+++ b/utils/prom/labels.go
@@ -22,3 +22,10 @@ func stringify(keys []string, vals []string) string {
 	}
 	return s[1:]
 }
+
+var helpEscaper = strings.NewReplacer(`\`, `\\`, "\n", `\n`)
+
+// returns the description as it is written in a HELP line
+func escapeHelp(desc string) string {
+	return helpEscaper.Replace(strings.ToValidUTF8(desc, "\uFFFD"))
+}
-- 
2.43.0


From 585e5d1433422eb550677c156dfd6582048ce479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:48 +0000
Subject: [PATCH 66/94] fix: a histogram with an explicit +Inf bucket reports
 it once

---
 utils/prom/histogram.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index 0a1ecb0..a0c8414 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -3,6 +3,7 @@ package prom
 import (
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	"github.com/Aize-Public/forego/utils/sync"
@@ -84,6 +85,9 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 	defer this.m.Unlock()
 	if labels == "" {
 		for i, le := range le {
+			if math.IsInf(le, 1) {
+				continue // always reported below
+			}
 			b := this.bucket(i)
 			_, err = fmt.Fprintf(w, "%s_bucket{le=\"%v\"} %d\n", name, le, b)
 			if err != nil {
@@ -106,6 +110,9 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 		}
 	} else {
 		for i, le := range le {
+			if math.IsInf(le, 1) {
+				continue // always reported below
+			}
 			b := this.bucket(i)
 			_, err = fmt.Fprintf(w, "%s_bucket{%s,le=\"%v\"} %d\n", name, labels, le, b)
 			if err != nil {
-- 
2.43.0


From 2d6e6e006b7c487a09c70cd5cfa3b658e5fc770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:53 +0000
Subject: [PATCH 67/94] fix: the metrics page says what it is

---
 utils/prom/http.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/prom/http.go b/utils/prom/http.go
index 83366c0..b489e4b 100644
--- a/utils/prom/http.go
+++ b/utils/prom/http.go
@@ -7,6 +7,7 @@ import (
 
 func Handler() http.HandlerFunc {
 	return func(w http.ResponseWriter, r *http.Request) {
+		w.Header().Set("Content-Type", "text/plain; version=0.0.4; charset=utf-8")
 		err := Range(func(name string, m Metric) error {
 			err := m.Print(name, w)
 			return err
-- 
2.43.0


From 672286f797cb723ad00258129d7855578132a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:57 +0000
Subject: [PATCH 68/94] fix: a custom metric without a type is untyped

---
 utils/prom/custom.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/prom/custom.go b/utils/prom/custom.go
index 0c8de8f..01cdd6f 100644
--- a/utils/prom/custom.go
+++ b/utils/prom/custom.go
@@ -21,7 +21,11 @@ func (this *Custom) Print(name string, w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Fprintf(w, "# TYPE %s %s\n", name, this.Type)
+	typ := this.Type
+	if typ == "" {
+		typ = "untyped"
+	}
+	_, err = fmt.Fprintf(w, "# TYPE %s %s\n", name, typ)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1d3e9c904e70dd478d9c667ba72aa9a9b4129ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:29 +0000
Subject: [PATCH 69/94] fix: an unsupported element type is an error of the
 schema, not a crash

---
 api/openapi/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index a681d0c..0416e40 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -45,6 +45,9 @@ func (this *Service) SchemaFromType(c ctx.C, t reflect.Type, tags *reflect.Struc
 
 func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string) (s *Schema, err error) {
 	defer func() {
+		if s == nil {
+			return // failed
+		}
 		if s.Format == s.Type {
 			s.Format = ""
 		}
-- 
2.43.0


From e13c53a47b703fa72dd2d6ae18e9afb3ae3488bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:32 +0000
Subject: [PATCH 70/94] fix: the schema of a struct has the fields that travel

---
 api/openapi/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 0416e40..892ba50 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -212,6 +212,9 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			var fields []string
 			for i := 0; i < tt.NumField(); i++ {
 				f := tt.Field(i)
+				if !f.IsExported() || f.Tag.Get("json") == "-" {
+					continue // same as enc
+				}
 				s, err := this.schemaFromType(c, f.Type, f.Tag.Get("doc"), strings.TrimSpace(f.Tag.Get("example")))
 				if err != nil {
 					return structSchema, err
-- 
2.43.0


From 824c4c83f5cbc5f057cf21b5a66f86ebd52a5a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:57 +0000
Subject: [PATCH 71/94] fix: a struct that can't be described is not left half
 described

---
 api/openapi/schema.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 892ba50..6232465 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -39,7 +39,18 @@ func (this *Service) SchemaFromType(c ctx.C, t reflect.Type, tags *reflect.Struc
 		doc = tags.Get("doc")
 		example = strings.TrimSpace(tags.Get("example"))
 	}
+	known := map[string]bool{}
+	for k := range this.Components.Schemas {
+		known[k] = true
+	}
 	s, err := this.schemaFromType(c, t, doc, example)
+	if err != nil {
+		for k := range this.Components.Schemas {
+			if !known[k] {
+				delete(this.Components.Schemas, k) // incomplete, or used only by what is
+			}
+		}
+	}
 	return s, err
 }
 
-- 
2.43.0


From efc543783b9e6741d5d3bbe8825fe6a1f1534bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:00 +0000
Subject: [PATCH 72/94] fix: lists and maps which contain themselves can be
 described

---
 api/openapi/openapi.go |  4 ++++
 api/openapi/schema.go  | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/api/openapi/openapi.go b/api/openapi/openapi.go
index 55a4837..bd7760b 100644
--- a/api/openapi/openapi.go
+++ b/api/openapi/openapi.go
@@ -1,5 +1,7 @@
 package openapi
 
+import "reflect"
+
 func NewService(title string) *Service {
 	out := &Service{
 		OpenAPI: "3.0.0",
@@ -32,6 +34,8 @@ type Service struct {
 
 	Paths      map[string]*Path `json:"paths"`
 	Components Component        `json:"components"`
+
+	building map[reflect.Type]bool // named lists and maps being described
 }
 
 type Component struct {
diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 6232465..b228a08 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -136,6 +136,24 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 		}
 	}
 
+	if tt.Name() != "" {
+		switch tt.Kind() {
+		case reflect.Array, reflect.Slice, reflect.Map: // named, so it may contain itself
+			if this.building[tt] {
+				schema := &Schema{Type: "array", Format: t.String(), Items: &Schema{}}
+				if tt.Kind() == reflect.Map {
+					schema = &Schema{Type: "object", Format: t.String()}
+				}
+				return schema, nil
+			}
+			if this.building == nil {
+				this.building = map[reflect.Type]bool{}
+			}
+			this.building[tt] = true
+			defer delete(this.building, tt)
+		}
+	}
+
 	switch tt.Kind() {
 	case reflect.Bool:
 		return &Schema{
-- 
2.43.0


From cca7d736cfa0ea1f922b78e7680239cfc717deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:45 +0000
Subject: [PATCH 73/94] fix: a type that marshals to a negative number can be
 described

---
 api/openapi/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index b228a08..ad455c7 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -116,7 +116,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 					Format:  t.String(),
 					Example: tryDecodingAsBool(c, example),
 				}, nil
-			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':
+			case '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':
 				// It could be either integer or float here, but it's not always possible to determine which
 				// Therefore just setting the type to "number", and doing best effort parsing of the example
 				var ex any
-- 
2.43.0


From 9a9094012a07650840e1282ac8dd4e6003acb677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:49 +0000
Subject: [PATCH 74/94] fix: the schema of a type with its own marshaller has
 the type it marshals to

---
 api/openapi/schema.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index ad455c7..ad42959 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -102,8 +102,35 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 		j, err := enc.MarshalJSON(c, zero)
 		if err == nil {
 			switch j[0] {
-			case '{', 'n', '[':
+			case '{':
 				// object like, we dig further...
+				switch tt.Kind() {
+				case reflect.Struct, reflect.Map:
+				default:
+					return &Schema{
+						Type:    "object",
+						Format:  t.String(),
+						Example: tryDecodingAsMap(c, example),
+					}, nil
+				}
+			case '[':
+				// list like, same
+				switch tt.Kind() {
+				case reflect.Slice, reflect.Array:
+				default:
+					return &Schema{
+						Type:    "array",
+						Format:  t.String(),
+						Items:   &Schema{},
+						Example: tryDecodingAsList(c, example),
+					}, nil
+				}
+			case 'n':
+				// null doesn't tell what the other values are
+				return &Schema{
+					Format:  t.String(),
+					Example: tryDecodingAsNode(c, example),
+				}, nil
 			case '"':
 				return &Schema{
 					Type:    "string",
@@ -133,6 +160,12 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			default:
 				panic(fmt.Sprintf("%s => %s", t.String(), j))
 			}
+		} else {
+			// same, the zero value can't be marshalled but others can
+			return &Schema{
+				Format:  t.String(),
+				Example: tryDecodingAsNode(c, example),
+			}, nil
 		}
 	}
 
-- 
2.43.0


From 796a94aed18f20b66bec7821a5a774a2c8694d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:52 +0000
Subject: [PATCH 75/94] fix: pointers to types with a marshaller on the pointer
 are described by what they marshal to

---
 api/openapi/schema.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index ad42959..9f9859b 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -74,6 +74,11 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 	}
 
 	zero := reflect.New(tt).Elem().Interface()
+	if t != tt && !isMarshaler(zero) {
+		if ptr := reflect.New(tt).Interface(); isMarshaler(ptr) { // enc uses the methods of the pointer too
+			zero = ptr
+		}
+	}
 	switch zero.(type) {
 	case json.RawMessage:
 		return &Schema{
@@ -333,6 +338,14 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 	}
 }
 
+func isMarshaler(v any) bool {
+	switch v.(type) {
+	case json.Marshaler, enc.Marshaler:
+		return true
+	}
+	return false
+}
+
 func (this *Service) formatFromSchema(s *Schema) string {
 	if s == nil {
 		return ""
-- 
2.43.0


From 33144c567bdf41ba48ab01fdfb82683a58b770d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:55 +0000
Subject: [PATCH 76/94] fix: errors and digits are described as what is sent

---
 api/openapi/schema.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 9f9859b..023f997 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -101,6 +101,20 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			Example: example,
 		}, nil
 
+	case ctx.Error:
+		return &Schema{
+			Type:    "string",
+			Format:  t.String(),
+			Example: example,
+		}, nil
+
+	case enc.Digits: // its zero value is no number
+		return &Schema{
+			Type:    "number",
+			Format:  t.String(),
+			Example: tryDecodingAsFloat(c, example),
+		}, nil
+
 	case json.Marshaler, enc.Marshaler:
 		// Handle corner case where a type can be struct, but marshalled to a primitive json type
 		// In openapi schema, we want to describe the marshalled json type
-- 
2.43.0


From ab3eb337d4ff789af78c0150e454d2a00ae6d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 77/94] fix: the zero ctx.Error has a text

---
 ctx/error.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctx/error.go b/ctx/error.go
index 641767d..5d5e84f 100644
--- a/ctx/error.go
+++ b/ctx/error.go
@@ -31,6 +31,9 @@ type Error struct {
 }
 
 func (err Error) Error() string {
+	if err.Err == nil {
+		return "<nil>" // zero value
+	}
 	return err.Err.Error()
 }
 
-- 
2.43.0


From ea477139ff4bf7d24b1c6be649e7fe9fb1afb02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:41 +0000
Subject: [PATCH 78/94] fix: components are named as OpenAPI allows

---
 api/openapi/schema.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 023f997..6579017 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -326,7 +326,13 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 		// While named structs are referenced with "$ref"
 		// Create reference
 		structKey := tt.PkgPath() + "/" + tt.Name()
-		structKey = strings.ReplaceAll(structKey, "/", "_")
+		structKey = strings.Map(func(r rune) rune {
+			switch {
+			case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '.', r == '-', r == '_':
+				return r
+			}
+			return '_' // "/", and what is in the name of a generic type
+		}, structKey)
 		schema := &Schema{Reference: referencePrefix + structKey}
 
 		// Add definition if not exists (the same struct type should only be defined once)
-- 
2.43.0


From b526d719a1ed26c11ba715c0060d8c924543a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:44 +0000
Subject: [PATCH 79/94] fix: two types with the same name are described by two
 components

---
 api/openapi/openapi.go |  3 ++-
 api/openapi/schema.go  | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/api/openapi/openapi.go b/api/openapi/openapi.go
index bd7760b..f668981 100644
--- a/api/openapi/openapi.go
+++ b/api/openapi/openapi.go
@@ -35,7 +35,8 @@ type Service struct {
 	Paths      map[string]*Path `json:"paths"`
 	Components Component        `json:"components"`
 
-	building map[reflect.Type]bool // named lists and maps being described
+	building map[reflect.Type]bool   // named lists and maps being described
+	types    map[string]reflect.Type // the type of each component
 }
 
 type Component struct {
diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 6579017..d6fe74d 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -333,6 +333,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			}
 			return '_' // "/", and what is in the name of a generic type
 		}, structKey)
+		structKey = this.componentName(structKey, tt)
 		schema := &Schema{Reference: referencePrefix + structKey}
 
 		// Add definition if not exists (the same struct type should only be defined once)
@@ -358,6 +359,19 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 	}
 }
 
+// the name of the component of the given type, which is the given one unless another type has it
+func (this *Service) componentName(key string, t reflect.Type) string {
+	name := key
+	for n := 2; this.types[name] != nil && this.types[name] != t; n++ {
+		name = fmt.Sprintf("%s_%d", key, n)
+	}
+	if this.types == nil {
+		this.types = map[string]reflect.Type{}
+	}
+	this.types[name] = t
+	return name
+}
+
 func isMarshaler(v any) bool {
 	switch v.(type) {
 	case json.Marshaler, enc.Marshaler:
-- 
2.43.0


From 4218cbe84f6b85a68ae3a8ded88551309955d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 80/94] fix: an example that is no JSON number does not break
 the document

---
 api/openapi/schema.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index d6fe74d..d08a6bb 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -3,6 +3,7 @@ package openapi
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -417,6 +418,10 @@ func tryDecodingAsFloat(c ctx.C, v string) any {
 		log.Warnf(c, "Unable to parse example %q as float: %s", v, err)
 		return v
 	}
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		log.Warnf(c, "Unable to use example %q as float: there is no JSON for it", v)
+		return v
+	}
 	return f
 }
 
-- 
2.43.0


From fb1879a2319944892f34acab91ca89e38e8fb8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:54 +0000
Subject: [PATCH 81/94] fix: the buffered pipe keeps its own copy of what is
 written

---
 test/io.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/test/io.go b/test/io.go
index 863f2b2..382c527 100644
--- a/test/io.go
+++ b/test/io.go
@@ -32,7 +32,10 @@ func (this *BufferedRWC) Append(p []byte) {
 	if this.readClosed {
 		panic(io.ErrClosedPipe)
 	}
-	this.ToRead = append(this.ToRead, p)
+	if len(p) == 0 {
+		return
+	}
+	this.ToRead = append(this.ToRead, append([]byte(nil), p...)) // p is still of the caller
 	this.cond.Signal()
 }
 
@@ -93,7 +96,7 @@ func (this *BufferedRWC) Write(b []byte) (int, error) {
 	if this.readClosed {
 		return 0, io.ErrClosedPipe
 	}
-	this.Written = append(this.Written, b)
+	this.Written = append(this.Written, append([]byte(nil), b...)) // b is still of the caller
 	return len(b), nil
 }
 
-- 
2.43.0


From b273a61cc2fd2b849284d998fa40ee4e599119d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:57 +0000
Subject: [PATCH 82/94] fix: reading into an empty slice does not block

---
 test/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test/io.go b/test/io.go
index 382c527..39aea65 100644
--- a/test/io.go
+++ b/test/io.go
@@ -57,7 +57,7 @@ func (this *BufferedRWC) Read(dst []byte) (int, error) {
 	this.cond.L.Lock()
 	defer this.cond.L.Unlock()
 
-	if cap(dst) == 0 {
+	if len(dst) == 0 {
 		if len(this.ToRead) == 0 && this.readClosed {
 			return 0, io.EOF
 		}
-- 
2.43.0


From 7e83d107e78d436a17b7a0a90d29d050a22500e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:00 +0000
Subject: [PATCH 83/94] fix: an append wakes every reader

---
 test/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test/io.go b/test/io.go
index 39aea65..0ed1f02 100644
--- a/test/io.go
+++ b/test/io.go
@@ -36,7 +36,7 @@ func (this *BufferedRWC) Append(p []byte) {
 		return
 	}
 	this.ToRead = append(this.ToRead, append([]byte(nil), p...)) // p is still of the caller
-	this.cond.Signal()
+	this.cond.Broadcast() // one reader may not take it all
 }
 
 func (this *BufferedRWC) IsReadClosed() bool {
-- 
2.43.0


From 19c464a5121df691822e6c832775ee43b8849670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:04 +0000
Subject: [PATCH 84/94] fix: closing the buffered pipe wakes its readers

---
 test/io.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/test/io.go b/test/io.go
index 0ed1f02..caf275d 100644
--- a/test/io.go
+++ b/test/io.go
@@ -103,9 +103,11 @@ func (this *BufferedRWC) Write(b []byte) (int, error) {
 func (this *BufferedRWC) Close() error {
 	this.cond.L.Lock()
 	defer this.cond.L.Unlock()
+	this.Closed = true
 	if this.readClosed {
 		return io.ErrClosedPipe
 	}
 	this.readClosed = true
+	this.cond.Broadcast()
 	return nil
 }
-- 
2.43.0


From 8be82affe87ce0b83c9456ede6528d150a59e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:44 +0000
Subject: [PATCH 85/94] fix: assertions survive calls whose source can't be
 read

---
 test/util.go           | 7 +++++--
 utils/ast/call_args.go | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/test/util.go b/test/util.go
index 08a54b2..65ee04c 100644
--- a/test/util.go
+++ b/test/util.go
@@ -42,8 +42,11 @@ type res struct {
 
 // retrieve the argument of the function
 func (res res) argument(above, argNum int) res {
-	call, _, _ := ast.Caller(above + 1)
-	res.msg = call.Args[argNum].Src + ": " + res.msg
+	call, src, err := ast.Caller(above + 1)
+	if err == nil && argNum < len(call.Args) {
+		src = call.Args[argNum].Src
+	}
+	res.msg = src + ": " + res.msg
 	return res
 }
 
diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index 1901a34..03a0696 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -38,7 +38,7 @@ func (a Arg) String() string {
 // Helper: returns the source code that assigned the first argument or the argument source code or some other messages
 func Assignment(above, arg int) string {
 	a, fl, aerr := Caller(above + 1)
-	if aerr != nil {
+	if aerr != nil || arg >= len(a.Args) { // not the call, or its arguments are the results of another one
 		return fl
 		//return fmt.Sprintf("<can't parse: %v>", aerr)
 	} else {
-- 
2.43.0


From 997792f1cf912cc3e035c24ce6582782d59f1823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:47 +0000
Subject: [PATCH 86/94] fix: assertions accept an empty function literal

---
 utils/ast/call_args.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index 03a0696..f5d7545 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -135,6 +135,9 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						}
 						switch a := a.(type) {
 						case *ast.FuncLit:
+							if len(a.Body.List) == 0 {
+								break // nothing in there
+							}
 							start := a.Body.List[0].Pos()
 							end := a.Body.List[len(a.Body.List)-1].End()
 							arg.Src = this.Src(start, end)
@@ -163,6 +166,9 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						}
 						switch a := a.(type) {
 						case *ast.FuncLit:
+							if len(a.Body.List) == 0 {
+								break // nothing in there
+							}
 							start := a.Body.List[0].Pos()
 							end := a.Body.List[len(a.Body.List)-1].End()
 							arg.Src = this.Src(start, end) // `func() { BODY }` => `BODY`
-- 
2.43.0


From 6ae4b6a4e68fd5e97311528647279fa6292584d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:50 +0000
Subject: [PATCH 87/94] fix: test.Nil knows nil functions and unsafe pointers

---
 test/nil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test/nil.go b/test/nil.go
index 612f546..6f67d96 100644
--- a/test/nil.go
+++ b/test/nil.go
@@ -23,7 +23,7 @@ func isNil(a any) res {
 	default:
 		v := reflect.ValueOf(a)
 		switch v.Kind() {
-		case reflect.Slice, reflect.Map, reflect.Chan, reflect.Pointer:
+		case reflect.Slice, reflect.Map, reflect.Chan, reflect.Pointer, reflect.Func, reflect.UnsafePointer:
 			return res{v.IsNil(), fmt.Sprintf("%#v", a)}
 		default:
 			return res{false, stringy{a}.String()}
-- 
2.43.0


From 3cf1fd7bbbede9e87b8b710d548341973662a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:53 +0000
Subject: [PATCH 88/94] fix: Shift and Pop fail for a nil list

---
 test/list.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/test/list.go b/test/list.go
index 5dcafae..d1f014d 100644
--- a/test/list.go
+++ b/test/list.go
@@ -24,6 +24,9 @@ func Pop[T any](t *testing.T, list *[]T) T {
 }
 
 func shift[T any](list *[]T) (t T, r res) {
+	if list == nil {
+		return t, res{false, "nil"}
+	}
 	switch len(*list) {
 	case 0:
 		return t, res{false, "empty"}
@@ -35,6 +38,9 @@ func shift[T any](list *[]T) (t T, r res) {
 }
 
 func pop[T any](list *[]T) (t T, r res) {
+	if list == nil {
+		return t, res{false, "nil"}
+	}
 	switch len(*list) {
 	case 0:
 		return t, res{false, "empty"}
-- 
2.43.0


From 04f75c352e24d2df7974893851d94d0f9595bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:53 +0000
Subject: [PATCH 89/94] fix: EqualsType compares the types, not their names

---
 test/equals.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/test/equals.go b/test/equals.go
index 81e39bb..1c2db69 100644
--- a/test/equals.go
+++ b/test/equals.go
@@ -2,6 +2,7 @@ package test
 
 import (
 	"fmt"
+	"reflect"
 	"testing"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -10,10 +11,16 @@ import (
 
 func EqualsType(t *testing.T, expect, got any) {
 	t.Helper()
-	equal(
-		fmt.Sprintf("%T", expect),
-		fmt.Sprintf("%T", got),
-	).prefix("EqualsType(%s, %s)", NoQuote(ast.Assignment(0, 1)), NoQuote(ast.Assignment(0, 2))).true(t)
+	equalType(expect, got).prefix("EqualsType(%s, %s)", NoQuote(ast.Assignment(0, 1)), NoQuote(ast.Assignment(0, 2))).true(t)
+}
+
+func equalType(expect, got any) res {
+	e := fmt.Sprintf("%T", expect)
+	g := fmt.Sprintf("%T", got)
+	if reflect.TypeOf(expect) != reflect.TypeOf(got) { // even if they have the same name
+		return res{false, fmt.Sprintf("%s != %s", e, g)}
+	}
+	return res{true, e}
 }
 
 func EqualsStr(t *testing.T, expect, got string) {
-- 
2.43.0


From 66b505fece24f362984a02891fd92d715013c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:57 +0000
Subject: [PATCH 90/94] fix: EqualsJSON compares the values

---
 test/equals.go | 67 +++++++++++++++++++++++++++++++++++++++++++++++++-
 test/util.go   | 20 +++++++++------
 2 files changed, 79 insertions(+), 8 deletions(-)

diff --git a/test/equals.go b/test/equals.go
index 1c2db69..4440890 100644
--- a/test/equals.go
+++ b/test/equals.go
@@ -1,8 +1,11 @@
 package test
 
 import (
+	"encoding/json"
 	"fmt"
+	"math/big"
 	"reflect"
+	"strings"
 	"testing"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -80,9 +83,71 @@ func NotEqualsJSON(c ctx.C, expect, got any) {
 func equalJSON(c ctx.C, expect, got any) res {
 	e := jsonish(c, expect)
 	g := jsonish(c, got)
-	if e == g {
+	if e == g || sameJSON(e, g) {
 		return res{true, e}
 	} else {
 		return res{false, fmt.Sprintf("%s != %s", e, g)}
 	}
 }
+
+// the same value, whatever the order of the fields or the way the numbers are written
+func sameJSON(e, g string) bool {
+	var x, y any
+	if !decodeJSON(e, &x) || !decodeJSON(g, &y) {
+		return false
+	}
+	return reflect.DeepEqual(x, y)
+}
+
+func decodeJSON(j string, v *any) bool {
+	if !json.Valid([]byte(j)) {
+		return false
+	}
+	d := json.NewDecoder(strings.NewReader(j))
+	d.UseNumber()
+	if d.Decode(v) != nil {
+		return false
+	}
+	*v = plainNumbers(*v)
+	return true
+}
+
+func plainNumbers(v any) any {
+	switch v := v.(type) {
+	case json.Number:
+		return plainNumber(string(v))
+	case []any:
+		for i := range v {
+			v[i] = plainNumbers(v[i])
+		}
+	case map[string]any:
+		for k := range v {
+			v[k] = plainNumbers(v[k])
+		}
+	}
+	return v
+}
+
+// all the ways to write a number into one: no dot, no zeros at the ends, then the exponent
+func plainNumber(s string) json.Number {
+	exp := new(big.Int)
+	if i := strings.IndexAny(s, "eE"); i >= 0 {
+		exp.SetString(strings.TrimPrefix(s[i+1:], "+"), 10)
+		s = s[:i]
+	}
+	sign := ""
+	if strings.HasPrefix(s, "-") {
+		sign, s = "-", s[1:]
+	}
+	if i := strings.IndexByte(s, '.'); i >= 0 {
+		exp.Sub(exp, big.NewInt(int64(len(s)-i-1)))
+		s = s[:i] + s[i+1:]
+	}
+	s = strings.TrimLeft(s, "0")
+	if s == "" {
+		return "0"
+	}
+	n := strings.TrimRight(s, "0")
+	exp.Add(exp, big.NewInt(int64(len(s)-len(n))))
+	return json.Number(sign + n + "e" + exp.String())
+}
diff --git a/test/util.go b/test/util.go
index 65ee04c..a599a29 100644
--- a/test/util.go
+++ b/test/util.go
@@ -18,15 +18,11 @@ import (
 func jsonish(c ctx.C, v any) string {
 	switch x := v.(type) {
 	case json.RawMessage:
-		_ = json.Unmarshal(x, &v) // make it into any, so we can marshal it again and canonicalize it
+		v = canonical(c, x, v)
 	case []byte:
-		if json.Valid(x) {
-			_ = json.Unmarshal(x, &v) // make it into any, so we can marshal it again and canonicalize it
-		}
+		v = canonical(c, x, v)
 	case string:
-		if json.Valid([]byte(x)) {
-			_ = json.Unmarshal([]byte(x), &v) // make it into any, so we can marshal it again and canonicalize it
-		}
+		v = canonical(c, []byte(x), v)
 	}
 	j, err := enc.MarshalJSON(c, v)
 	if err != nil {
@@ -35,6 +31,16 @@ func jsonish(c ctx.C, v any) string {
 	return string(j)
 }
 
+// if it's json make it into a node, so we can marshal it again and canonicalize it, without losing digits
+func canonical(c ctx.C, j []byte, v any) any {
+	if json.Valid(j) {
+		if n, err := (enc.JSON{}).Decode(c, j); err == nil {
+			return n
+		}
+	}
+	return v
+}
+
 type res struct {
 	succeed bool
 	msg     string
-- 
2.43.0


From 82db824cf251f6d11fe2b04efadb09e324b3b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 91/94] fix: assertions survive a String() that panics

---
 test/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test/util.go b/test/util.go
index a599a29..6987976 100644
--- a/test/util.go
+++ b/test/util.go
@@ -105,7 +105,7 @@ func (this stringy) String() string {
 	case string:
 		return Quote(v)
 	case fmt.Stringer:
-		return Quote(v.String())
+		return Quote(fmt.Sprint(v)) // it may panic
 	default:
 		return fmt.Sprintf("%#v", v)
 	}
-- 
2.43.0


From d7d45fdae5352eb2e6020ffa88b014bad457994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 92/94] Revert the changes to the test package: /repo's test
 helpers stay as they were

---
 test/equals.go | 82 +++-----------------------------------------------
 test/io.go     | 13 +++-----
 test/list.go   |  6 ----
 test/nil.go    |  2 +-
 test/util.go   | 29 ++++++------------
 5 files changed, 20 insertions(+), 112 deletions(-)

diff --git a/test/equals.go b/test/equals.go
index 4440890..81e39bb 100644
--- a/test/equals.go
+++ b/test/equals.go
@@ -1,11 +1,7 @@
 package test
 
 import (
-	"encoding/json"
 	"fmt"
-	"math/big"
-	"reflect"
-	"strings"
 	"testing"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -14,16 +10,10 @@ import (
 
 func EqualsType(t *testing.T, expect, got any) {
 	t.Helper()
-	equalType(expect, got).prefix("EqualsType(%s, %s)", NoQuote(ast.Assignment(0, 1)), NoQuote(ast.Assignment(0, 2))).true(t)
-}
-
-func equalType(expect, got any) res {
-	e := fmt.Sprintf("%T", expect)
-	g := fmt.Sprintf("%T", got)
-	if reflect.TypeOf(expect) != reflect.TypeOf(got) { // even if they have the same name
-		return res{false, fmt.Sprintf("%s != %s", e, g)}
-	}
-	return res{true, e}
+	equal(
+		fmt.Sprintf("%T", expect),
+		fmt.Sprintf("%T", got),
+	).prefix("EqualsType(%s, %s)", NoQuote(ast.Assignment(0, 1)), NoQuote(ast.Assignment(0, 2))).true(t)
 }
 
 func EqualsStr(t *testing.T, expect, got string) {
@@ -83,71 +73,9 @@ func NotEqualsJSON(c ctx.C, expect, got any) {
 func equalJSON(c ctx.C, expect, got any) res {
 	e := jsonish(c, expect)
 	g := jsonish(c, got)
-	if e == g || sameJSON(e, g) {
+	if e == g {
 		return res{true, e}
 	} else {
 		return res{false, fmt.Sprintf("%s != %s", e, g)}
 	}
 }
-
-// the same value, whatever the order of the fields or the way the numbers are written
-func sameJSON(e, g string) bool {
-	var x, y any
-	if !decodeJSON(e, &x) || !decodeJSON(g, &y) {
-		return false
-	}
-	return reflect.DeepEqual(x, y)
-}
-
-func decodeJSON(j string, v *any) bool {
-	if !json.Valid([]byte(j)) {
-		return false
-	}
-	d := json.NewDecoder(strings.NewReader(j))
-	d.UseNumber()
-	if d.Decode(v) != nil {
-		return false
-	}
-	*v = plainNumbers(*v)
-	return true
-}
-
-func plainNumbers(v any) any {
-	switch v := v.(type) {
-	case json.Number:
-		return plainNumber(string(v))
-	case []any:
-		for i := range v {
-			v[i] = plainNumbers(v[i])
-		}
-	case map[string]any:
-		for k := range v {
-			v[k] = plainNumbers(v[k])
-		}
-	}
-	return v
-}
-
-// all the ways to write a number into one: no dot, no zeros at the ends, then the exponent
-func plainNumber(s string) json.Number {
-	exp := new(big.Int)
-	if i := strings.IndexAny(s, "eE"); i >= 0 {
-		exp.SetString(strings.TrimPrefix(s[i+1:], "+"), 10)
-		s = s[:i]
-	}
-	sign := ""
-	if strings.HasPrefix(s, "-") {
-		sign, s = "-", s[1:]
-	}
-	if i := strings.IndexByte(s, '.'); i >= 0 {
-		exp.Sub(exp, big.NewInt(int64(len(s)-i-1)))
-		s = s[:i] + s[i+1:]
-	}
-	s = strings.TrimLeft(s, "0")
-	if s == "" {
-		return "0"
-	}
-	n := strings.TrimRight(s, "0")
-	exp.Add(exp, big.NewInt(int64(len(s)-len(n))))
-	return json.Number(sign + n + "e" + exp.String())
-}
diff --git a/test/io.go b/test/io.go
index caf275d..863f2b2 100644
--- a/test/io.go
+++ b/test/io.go
@@ -32,11 +32,8 @@ func (this *BufferedRWC) Append(p []byte) {
 	if this.readClosed {
 		panic(io.ErrClosedPipe)
 	}
-	if len(p) == 0 {
-		return
-	}
-	this.ToRead = append(this.ToRead, append([]byte(nil), p...)) // p is still of the caller
-	this.cond.Broadcast() // one reader may not take it all
+	this.ToRead = append(this.ToRead, p)
+	this.cond.Signal()
 }
 
 func (this *BufferedRWC) IsReadClosed() bool {
@@ -57,7 +54,7 @@ func (this *BufferedRWC) Read(dst []byte) (int, error) {
 	this.cond.L.Lock()
 	defer this.cond.L.Unlock()
 
-	if len(dst) == 0 {
+	if cap(dst) == 0 {
 		if len(this.ToRead) == 0 && this.readClosed {
 			return 0, io.EOF
 		}
@@ -96,18 +93,16 @@ func (this *BufferedRWC) Write(b []byte) (int, error) {
 	if this.readClosed {
 		return 0, io.ErrClosedPipe
 	}
-	this.Written = append(this.Written, append([]byte(nil), b...)) // b is still of the caller
+	this.Written = append(this.Written, b)
 	return len(b), nil
 }
 
 func (this *BufferedRWC) Close() error {
 	this.cond.L.Lock()
 	defer this.cond.L.Unlock()
-	this.Closed = true
 	if this.readClosed {
 		return io.ErrClosedPipe
 	}
 	this.readClosed = true
-	this.cond.Broadcast()
 	return nil
 }
diff --git a/test/list.go b/test/list.go
index d1f014d..5dcafae 100644
--- a/test/list.go
+++ b/test/list.go
@@ -24,9 +24,6 @@ func Pop[T any](t *testing.T, list *[]T) T {
 }
 
 func shift[T any](list *[]T) (t T, r res) {
-	if list == nil {
-		return t, res{false, "nil"}
-	}
 	switch len(*list) {
 	case 0:
 		return t, res{false, "empty"}
@@ -38,9 +35,6 @@ func shift[T any](list *[]T) (t T, r res) {
 }
 
 func pop[T any](list *[]T) (t T, r res) {
-	if list == nil {
-		return t, res{false, "nil"}
-	}
 	switch len(*list) {
 	case 0:
 		return t, res{false, "empty"}
diff --git a/test/nil.go b/test/nil.go
index 6f67d96..612f546 100644
--- a/test/nil.go
+++ b/test/nil.go
@@ -23,7 +23,7 @@ func isNil(a any) res {
 	default:
 		v := reflect.ValueOf(a)
 		switch v.Kind() {
-		case reflect.Slice, reflect.Map, reflect.Chan, reflect.Pointer, reflect.Func, reflect.UnsafePointer:
+		case reflect.Slice, reflect.Map, reflect.Chan, reflect.Pointer:
 			return res{v.IsNil(), fmt.Sprintf("%#v", a)}
 		default:
 			return res{false, stringy{a}.String()}
diff --git a/test/util.go b/test/util.go
index 6987976..08a54b2 100644
--- a/test/util.go
+++ b/test/util.go
@@ -18,11 +18,15 @@ import (
 func jsonish(c ctx.C, v any) string {
 	switch x := v.(type) {
 	case json.RawMessage:
-		v = canonical(c, x, v)
+		_ = json.Unmarshal(x, &v) // make it into any, so we can marshal it again and canonicalize it
 	case []byte:
-		v = canonical(c, x, v)
+		if json.Valid(x) {
+			_ = json.Unmarshal(x, &v) // make it into any, so we can marshal it again and canonicalize it
+		}
 	case string:
-		v = canonical(c, []byte(x), v)
+		if json.Valid([]byte(x)) {
+			_ = json.Unmarshal([]byte(x), &v) // make it into any, so we can marshal it again and canonicalize it
+		}
 	}
 	j, err := enc.MarshalJSON(c, v)
 	if err != nil {
@@ -31,16 +35,6 @@ func jsonish(c ctx.C, v any) string {
 	return string(j)
 }
 
-// if it's json make it into a node, so we can marshal it again and canonicalize it, without losing digits
-func canonical(c ctx.C, j []byte, v any) any {
-	if json.Valid(j) {
-		if n, err := (enc.JSON{}).Decode(c, j); err == nil {
-			return n
-		}
-	}
-	return v
-}
-
 type res struct {
 	succeed bool
 	msg     string
@@ -48,11 +42,8 @@ type res struct {
 
 // retrieve the argument of the function
 func (res res) argument(above, argNum int) res {
-	call, src, err := ast.Caller(above + 1)
-	if err == nil && argNum < len(call.Args) {
-		src = call.Args[argNum].Src
-	}
-	res.msg = src + ": " + res.msg
+	call, _, _ := ast.Caller(above + 1)
+	res.msg = call.Args[argNum].Src + ": " + res.msg
 	return res
 }
 
@@ -105,7 +96,7 @@ func (this stringy) String() string {
 	case string:
 		return Quote(v)
 	case fmt.Stringer:
-		return Quote(fmt.Sprint(v)) // it may panic
+		return Quote(v.String())
 	default:
 		return fmt.Sprintf("%#v", v)
 	}
-- 
2.43.0


From e3d44e914b00c5214d630c5b1c256732f24b0321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:18 +0000
Subject: [PATCH 93/94] fix: use a map key's own unmarshaler, it was marshalled
 by its own marshaler

---
 enc/map.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/enc/map.go b/enc/map.go
index be1ec56..51561e4 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -58,7 +58,12 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		mv := reflect.MakeMap(t)
 		for k, n := range this {
 			kv := reflect.New(intokt).Elem()
-			switch intokt.Kind() {
+			kind := intokt.Kind()
+			switch kv.Addr().Interface().(type) {
+			case Unmarshaler, json.Unmarshaler:
+				kind = reflect.Invalid // marshalled by its own method, so it takes its own method
+			}
+			switch kind {
 			case reflect.String:
 				kv.SetString(k)
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -81,6 +86,9 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 				kv.SetUint(i)
 			default:
 				err := handler.Append("#key").unmarshal(c, String(k), kv)
+				if _, numErr := strconv.ParseFloat(k, 64); err != nil && numErr == nil {
+					err = handler.Append("#key").unmarshal(c, Digits(k), kv) // numbers are keys as well
+				}
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to %v", k, intokt)
 				}
-- 
2.43.0


From 5b6f4ef3f2db6089d1c12f8b0c85d6c876568eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:08 +0000
Subject: [PATCH 94/94] fix: a listening server holds the shutdown until its
 requests in flight are done, and Listen returns if it has begun

---
 http/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/http/server.go b/http/server.go
index db836ed..7ca8679 100644
--- a/http/server.go
+++ b/http/server.go
@@ -4,6 +4,7 @@ import (
 	"compress/gzip"
 	"context"
 	"encoding/json"
+	"errors"
 	"io"
 	"net"
 	"net/http"
@@ -114,6 +115,7 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		return nil, err
 	}
 	ch := make(chan error, 1)
+	closed := make(chan struct{}) // when the requests in flight are done
 
 	// we start the server in a goroutine
 	go func() {
@@ -129,9 +131,14 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		if err != nil {
 			log.Warnf(c, "listen(%q) %v", addr, err)
 		}
+		l.once.Do(func() { ch <- err }) // it never came to Accept()
+		if errors.Is(err, http.ErrServerClosed) {
+			<-closed // keep the hold until then
+		}
 	}()
 
 	go func() {
+		defer close(closed)
 		<-shutdown.Started()
 		c, cf := ctx.WithTimeout(c, 30*time.Second)
 		defer cf()
-- 
2.43.0

