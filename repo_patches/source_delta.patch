From 94013ec57937871349c97af2df125a1af3e4118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:13 +0000
Subject: [PATCH 01/42] fix: reject 20-digit integers exceeding the range of
 uint64

The accumulated uint64 may overflow more than one round and still be greater
than 10^19, for example 30000000000000000000. Such numbers were accepted with
a wrong value.
---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 249222a..bafe424 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -853,7 +853,8 @@ func (it iter) parsePositiveIntResult(p pool, start, end int, integer uint64) (*
 	if le > len(uintMaxStr) {
 		return nil, it.numErrorf(start, "value too large")
 	} else if le == len(uintMaxStr) {
-		if integer < uintMaxDigits {
+		// integer may have overflowed for more than one round, thus compare in text
+		if integer < uintMaxDigits || unsafe.BtoS(it[start:end]) > uintMaxStr {
 			return nil, it.numErrorf(start, "value too large")
 		}
 	}
-- 
2.43.0


From 47070abe3ae2b7ec2fea9f1ec9cfc10b12d02bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:30 +0000
Subject: [PATCH 02/42] fix: apply the JSON grammar to the integer part of
 numbers

Numbers such as -01, 01.5, 01e5 and -.5 were accepted and written out again as
illegal JSON, while a legal float with a long integer part ending with zeros
could be rejected because the accumulated integer overflowed to zero. Parsing a
number from an empty string panicked.
---
 unmarshal.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index bafe424..06529a0 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -703,14 +703,6 @@ func (it iter) parseNumber(
 				// OK
 			} else if dotGot {
 				intAfterDotGot = true
-			} else if negative {
-				if integer == 0 && idx != offset+1 {
-					err = it.numErrorf(idx, "unexpected zero")
-					return
-				}
-			} else if integer == 0 {
-				err = it.numErrorf(idx, "unexpected zero")
-				return
 			}
 			integer *= 10
 
@@ -763,6 +755,10 @@ func (it iter) parseNumber(
 		idx--
 	}
 
+	if err = it.checkNumberIntegerPart(offset, idx); err != nil {
+		return
+	}
+
 	if floated {
 		if dotGot && !intAfterDotGot {
 			err = it.numErrorf(offset, "integer after dot missing")
@@ -795,6 +791,21 @@ func (it iter) parseNumber(
 	return v, idx, len(it)-idx == 0, err
 }
 
+// checkNumberIntegerPart checks whether the integer part of a number, which is in
+// [start, end), starts with a digit and has no redundant leading zero.
+func (it iter) checkNumberIntegerPart(start, end int) error {
+	if start < end && it[start] == '-' {
+		start++
+	}
+	if start >= end || it[start] < '0' || it[start] > '9' {
+		return it.numErrorf(start, "invalid number format")
+	}
+	if it[start] == '0' && start+1 < end && it[start+1] >= '0' && it[start+1] <= '9' {
+		return it.numErrorf(start, "unexpected zero")
+	}
+	return nil
+}
+
 func (it iter) numErrorf(offset int, f string, a ...any) error {
 	a = append([]any{offset}, a...)
 	return fmt.Errorf("parsing number at index %d: "+f, a...)
-- 
2.43.0


From 1d07c045a61381133f4fabfbb8fe23b02e5d2df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:33 +0000
Subject: [PATCH 03/42] fix: reject UTF-16 low surrogate without a leading high
 one

---
 unmarshal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 06529a0..51d9cf1 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -494,6 +494,12 @@ func (it iter) handleEscapeUnicodeStartWithEnd(i *int, end int, sectEnd *int) (e
 
 	// reference: [JSON 序列化中的转义和 Unicode 编码](https://cloud.tencent.com/developer/article/1625557/)
 	// should get another unicode-escaped character
+	if r >= 0xDC00 {
+		return fmt.Errorf(
+			"%w, unexpected low surrogate 0x%04X at position %d", ErrIllegalString, r, *i,
+		)
+	}
+
 	if end-*i <= 11 {
 		return fmt.Errorf("insufficient UTF-16 data at offset %d", *i)
 	}
-- 
2.43.0


From d073f9f052c30c5d828b9d743f8a92350b1e6c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:37 +0000
Subject: [PATCH 04/42] fix: escape vertical tab when marshaling

---
 option.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/option.go b/option.go
index 163bff1..8de6b68 100644
--- a/option.go
+++ b/option.go
@@ -580,6 +580,7 @@ func (o *Opt) parseEscapingFuncs() {
 	iterate(0x00, 0x07, escAsciiControlChar)
 	// 0x08 is \b, encoding/json marshal as \u0008, but according to JSON standard, it should be "\b"
 	iterate(0x0E, 0x1F, escAsciiControlChar)
+	o.asciiCharEscapingFunc[0x0B] = escAsciiControlChar // vertical tab
 	o.asciiCharEscapingFunc[0x7F] = escAsciiControlChar // encoding/json does not escape DEL
 
 	// ASCII characters always to be escaped
-- 
2.43.0


From 63cae1613aaeefe878653468127db39adcbdbe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:18 +0000
Subject: [PATCH 05/42] fix: do not lose the comma after an omitted null value

With OptOmitNull, the key-value right after an omitted null was written as if
it was the first one of the object.
---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 405d9d4..949f09b 100644
--- a/marshal.go
+++ b/marshal.go
@@ -260,7 +260,7 @@ func writeObjectChildren(
 	parentInfo *ParentInfo, buf buffer.Buffer, isFirstOne bool, key string, child *V, opt *Opt,
 ) (written bool) {
 	if child.IsNull() && opt.OmitNull {
-		return false
+		return !isFirstOne // keep what has been written before
 	}
 	if !isFirstOne {
 		_ = buf.WriteByte(',')
-- 
2.43.0


From 4dded4987b94cd86f8c82c18d5ea9a41cfebb4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 06/42] fix: report errors of nested values when marshaling

An unsupported float (NaN, Inf) inside an object or an array was silently
ignored and illegal JSON was returned.
---
 marshal.go | 50 +++++++++++++++++++++++++++++++-------------------
 sort.go    | 16 ++++++++++++----
 2 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/marshal.go b/marshal.go
index 949f09b..b984e33 100644
--- a/marshal.go
+++ b/marshal.go
@@ -76,9 +76,9 @@ func marshalToBuffer(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt)
 	case Null:
 		marshalNull(buf)
 	case Object:
-		marshalObject(v, parentInfo, buf, opt)
+		err = marshalObject(v, parentInfo, buf, opt)
 	case Array:
-		marshalArray(v, parentInfo, buf, opt)
+		err = marshalArray(v, parentInfo, buf, opt)
 	}
 	return err
 }
@@ -216,10 +216,10 @@ func marshalNull(buf buffer.Buffer) {
 	_, _ = buf.WriteString("null")
 }
 
-func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.object) == 0 {
 		_, _ = buf.WriteString("{}")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -227,18 +227,21 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 
 	if opt.MarshalLessFunc != nil {
 		sov := newSortObjectV(v, parentInfo, opt)
-		sov.marshalObjectWithLessFunc(buf, opt)
+		err = sov.marshalObjectWithLessFunc(buf, opt)
 
 	} else if len(opt.MarshalKeySequence) > 0 {
 		sssv := newSortStringSliceV(v, opt)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else if opt.marshalBySetSequence {
 		sssv := newSortStringSliceVBySetSeq(v)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else {
-		writeObjectKVInRandomizedSequence(v, buf, opt)
+		err = writeObjectKVInRandomizedSequence(v, buf, opt)
+	}
+	if err != nil {
+		return err
 	}
 
 	opt.indent.cnt--
@@ -247,20 +250,25 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte('}')
+	return nil
 }
 
-func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) {
+func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) (err error) {
 	firstWritten := false
 	for k, child := range v.children.object {
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		firstWritten, err = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		if err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 func writeObjectChildren(
 	parentInfo *ParentInfo, buf buffer.Buffer, isFirstOne bool, key string, child *V, opt *Opt,
-) (written bool) {
+) (written bool, err error) {
 	if child.IsNull() && opt.OmitNull {
-		return !isFirstOne // keep what has been written before
+		return !isFirstOne, nil // keep what has been written before
 	}
 	if !isFirstOne {
 		_ = buf.WriteByte(',')
@@ -280,8 +288,8 @@ func writeObjectChildren(
 		_, _ = buf.WriteString("\":")
 	}
 
-	_ = marshalToBuffer(child, parentInfo, buf, opt)
-	return true
+	err = marshalToBuffer(child, parentInfo, buf, opt)
+	return true, err
 }
 
 func writeIndent(buf buffer.Buffer, opt *Opt) {
@@ -291,10 +299,10 @@ func writeIndent(buf buffer.Buffer, opt *Opt) {
 	}
 }
 
-func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.arr) == 0 {
 		_, _ = buf.WriteString("[]")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -309,12 +317,15 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 			writeIndent(buf, opt)
 		}
 		if opt.MarshalLessFunc == nil {
-			_ = marshalToBuffer(child, nil, buf, opt)
+			err = marshalToBuffer(child, nil, buf, opt)
 		} else {
-			_ = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
+			err = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
 		}
-		return true
+		return err == nil
 	})
+	if err != nil {
+		return err
+	}
 
 	opt.indent.cnt--
 	if opt.indent.enabled {
@@ -322,4 +333,5 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte(']')
+	return nil
 }
diff --git a/sort.go b/sort.go
index 0ebfc8e..07eaf3e 100644
--- a/sort.go
+++ b/sort.go
@@ -186,7 +186,7 @@ func DefaultStringSequence(parent *ParentInfo, key1, key2 string, v1, v2 *V) boo
 	return strings.Compare(key1, key2) <= 0
 }
 
-func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
+func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) (err error) {
 	// sort
 	sort.Sort(sov)
 
@@ -195,8 +195,12 @@ func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
 	for i, key := range sov.keys {
 		child := sov.values[i]
 		par := newParentInfo(child, sov.parentInfo, stringKey(key))
-		firstWritten = writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		firstWritten, err = writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 type sortObjectV struct {
@@ -235,7 +239,7 @@ func newSortObjectV(v *V, parentInfo *ParentInfo, opt *Opt) *sortObjectV {
 }
 
 // marshalObjectWithStringSlice use a slice to determine sequence of object
-func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) {
+func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) (err error) {
 	// sort
 	sort.Sort(sssv)
 
@@ -243,8 +247,12 @@ func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, op
 	firstWritten := false
 	for i, key := range sssv.keys {
 		child := sssv.values[i]
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		firstWritten, err = writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 type sortStringSliceV struct {
-- 
2.43.0


From 6d0624d26e18a8db668ce714704f3cfff5bdbd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:41 +0000
Subject: [PATCH 07/42] fix: do not append or insert illegal values into an
 array

Append ignored the error of importing the given value and appended a value that
does not exist. Like Set, Append and Insert now refuse such values, which made
the array marshaled as illegal JSON.
---
 insert_append_delete.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/insert_append_delete.go b/insert_append_delete.go
index 535a4a2..3fe631d 100644
--- a/insert_append_delete.go
+++ b/insert_append_delete.go
@@ -192,6 +192,9 @@ func (ins *insert) Before(firstParam any, otherParams ...any) (*V, error) {
 	if v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(otherParams)
@@ -241,6 +244,9 @@ func (ins *insert) After(firstParam any, otherParams ...any) (*V, error) {
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(otherParams)
@@ -428,11 +434,17 @@ func (v *V) AppendArray() Appender {
 //
 // InTheBeginning 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最前端
 func (apd *appender) InTheBeginning(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(params)
@@ -478,11 +490,17 @@ func (apd *appender) InTheBeginning(params ...any) (*V, error) {
 //
 // InTheEnd 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最后面
 func (apd *appender) InTheEnd(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
 	if v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(params)
-- 
2.43.0


From 1b4bab52b7ee174817a298245b5f483b86586815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:14 +0000
Subject: [PATCH 08/42] fix: Set should not append when an array index is out
 of range

Set().At(10, "key") on a short array silently appended a new value to its end
instead of returning ErrOutOfRange as Set().At(10) does.
---
 set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/set.go b/set.go
index 3e4ba4a..6afeb48 100644
--- a/set.go
+++ b/set.go
@@ -284,6 +284,10 @@ func (s *setter) atArray(firstParam any, otherParams []any) (*V, error) {
 	child, ok := childAtIndex(v, pos)
 	isNewChild := false
 	if !ok {
+		// only the position right after the last one could be appended
+		if pos != len(v.children.arr) {
+			return &V{}, ErrOutOfRange
+		}
 		isNewChild = true
 		if _, err := anyToString(otherParams[0]); err == nil {
 			child = NewObject()
-- 
2.43.0


From 4ffe09454188e2f434c400111812fda8c32532ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:18 +0000
Subject: [PATCH 09/42] fix: an oversized unsigned index is out of range

It was converted to a negative integer and located an element from the end of
the array.
---
 conv.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conv.go b/conv.go
index 0c9f90c..272417c 100644
--- a/conv.go
+++ b/conv.go
@@ -142,7 +142,11 @@ func anyToInt(v any) (u int, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return int(value.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return int(value.Uint()), nil
+		i := int(value.Uint())
+		if i < 0 || uint64(i) != value.Uint() {
+			return 0, ErrOutOfRange // should not be treated as a negative index
+		}
+		return i, nil
 	default:
 		return 0, fmt.Errorf("%v is not a number", reflect.TypeOf(v))
 	}
-- 
2.43.0


From 287c14d521731b85df8546a92440ff1bc1ad62dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:31 +0000
Subject: [PATCH 10/42] fix: Unmarshal should not return nil value for empty
 input

---
 jsonvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonvalue.go b/jsonvalue.go
index d9e64de..eb3faf7 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -238,7 +238,7 @@ func MustUnmarshal(b []byte) *V {
 func Unmarshal(b []byte) (ret *V, err error) {
 	le := len(b)
 	if le == 0 {
-		return nil, ErrNilParameter
+		return &V{}, ErrNilParameter
 	}
 
 	trueB := make([]byte, len(b))
-- 
2.43.0


From 917c693c37362c72927fd39914a5ab5344e93d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:31 +0000
Subject: [PATCH 11/42] fix: KeyPath.String panics before any option is
 combined

The default options had no escaping function before SetDefaultMarshalOptions was
called.
---
 option.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index 8de6b68..8022608 100644
--- a/option.go
+++ b/option.go
@@ -221,7 +221,9 @@ func ResetDefaultMarshalOptions() {
 }
 
 func emptyOptions() *Opt {
-	return &Opt{}
+	opt := &Opt{}
+	opt.parseEscapingFuncs()
+	return opt
 }
 
 func getDefaultOptions() *Opt {
-- 
2.43.0


From 1a69d918db1fca4accd969c943943bd8fac54d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:44 +0000
Subject: [PATCH 12/42] fix: IsFloat and IsInteger for numbers created from a
 float

NewFloat64(1.5) was regarded as an integer.
---
 new.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/new.go b/new.go
index e2cb548..3ae614f 100644
--- a/new.go
+++ b/new.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"reflect"
 	"strconv"
+	"strings"
 )
 
 // New generate a new jsonvalue type via given type. If given type is not supported,
@@ -258,6 +259,9 @@ func newFloat64f(p pool, f float64, format byte, prec, bitSize int) *V {
 	if isValidFloat(f) {
 		s := strconv.FormatFloat(f, format, prec, bitSize)
 		v.srcByte = []byte(s)
+		v.num.floated = strings.ContainsAny(s, ".eE")
+	} else {
+		v.num.floated = true
 	}
 
 	return v
-- 
2.43.0


From bee8aec71679e85285f639c46915d9eda3fabb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:07 +0000
Subject: [PATCH 13/42] fix: comparison of NaN and infinities

They have no decimal text and were compared as zero: +Inf equaled to both -Inf
and NaN, and NaN equaled to 0.
---
 compare.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/compare.go b/compare.go
index 9f7f8b2..b997dac 100644
--- a/compare.go
+++ b/compare.go
@@ -2,6 +2,7 @@ package jsonvalue
 
 import (
 	"bytes"
+	"math"
 
 	"github.com/shopspring/decimal"
 )
@@ -48,6 +49,10 @@ func greaterThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if isNaNOrInf(left) || isNaNOrInf(right) {
+		l, r := left.num.f64, right.num.f64
+		return l > r, !math.IsNaN(l) && !math.IsNaN(r)
+	}
 	a1, _ := decimal.NewFromString(string(left.srcByte))
 	a2, _ := decimal.NewFromString(string(right.srcByte))
 	return a1.GreaterThan(a2), true
@@ -57,6 +62,10 @@ func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if isNaNOrInf(left) || isNaNOrInf(right) {
+		l, r := left.num.f64, right.num.f64
+		return l >= r, !math.IsNaN(l) && !math.IsNaN(r)
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true, true
 	}
@@ -94,7 +103,16 @@ func (v *V) Equal(another *V) bool {
 	}
 }
 
+// isNaNOrInf tells whether a number is one of those without a decimal text
+func isNaNOrInf(v *V) bool {
+	return len(v.srcByte) == 0
+}
+
 func numberEqual(left, right *V) bool {
+	if isNaNOrInf(left) || isNaNOrInf(right) {
+		l, r := left.num.f64, right.num.f64
+		return l == r || (math.IsNaN(l) && math.IsNaN(r))
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true
 	}
-- 
2.43.0


From 2cebe0f1d4e6a6d77337d4899a7d18acc6cdefa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:12 +0000
Subject: [PATCH 14/42] fix: check the continuation bytes of UTF-8 characters

Only the leading byte was checked, so that a truncated character swallowed the
following bytes, including the ending quote of the string.
---
 unmarshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 51d9cf1..78bbe34 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/Andrew-M-C/go.jsonvalue/internal/unsafe"
 )
@@ -391,6 +392,10 @@ func (it iter) parseStrFromBytesForwardWithQuote(offset int) (sectLenWithoutQuot
 			)
 			return
 		}
+		if !utf8.Valid(it[*i : *i+le]) {
+			err = fmt.Errorf("%w: illegal UTF8 string at Position %d", ErrIllegalString, *i)
+			return
+		}
 		it.memcpy(sectEnd, *i, le)
 		sectEnd += le
 		*i += le
-- 
2.43.0


From 88897ec3ebc65db6f46a6fcd23f8a18bfbed28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:33 +0000
Subject: [PATCH 15/42] fix: make SetDefaultMarshalOptions goroutine-safe as
 documented

The default options were written and read without synchronization.
---
 jsonvalue_internal.go | 4 ++--
 option.go             | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonvalue_internal.go b/jsonvalue_internal.go
index f797560..f125abc 100644
--- a/jsonvalue_internal.go
+++ b/jsonvalue_internal.go
@@ -11,7 +11,7 @@ import (
 var internal = struct {
 	b64 *base64.Encoding
 
-	defaultMarshalOption *Opt
+	defaultMarshalOption atomic.Value // *Opt
 
 	predict struct {
 		bytesPerValue uint64
@@ -26,7 +26,7 @@ var internal = struct {
 
 func init() {
 	internal.b64 = base64.StdEncoding
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 	internalAddPredictSizePerValue(16, 1)
 
 	internal.types.JSONMarshaler = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
diff --git a/option.go b/option.go
index 8022608..ca6c367 100644
--- a/option.go
+++ b/option.go
@@ -210,14 +210,14 @@ func (o Opt) mergeTo(tgt *Opt) {
 func SetDefaultMarshalOptions(opts ...Option) {
 	opt := emptyOptions()
 	opt.combineOptionsFrom(opts)
-	internal.defaultMarshalOption = opt
+	internal.defaultMarshalOption.Store(opt)
 }
 
 // ResetDefaultMarshalOptions reset default marshaling options to system default.
 //
 // ResetDefaultMarshalOptions 重设序列化时的默认选项为系统最原始的版本。
 func ResetDefaultMarshalOptions() {
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 }
 
 func emptyOptions() *Opt {
@@ -227,7 +227,7 @@ func emptyOptions() *Opt {
 }
 
 func getDefaultOptions() *Opt {
-	res := *internal.defaultMarshalOption
+	res := *internal.defaultMarshalOption.Load().(*Opt)
 	return &res
 }
 
-- 
2.43.0


From 9dc845f30e801b4a90ce540d0f2bb47ebc63fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:04 +0000
Subject: [PATCH 16/42] fix: import nil marshalers as null

They were dropped from structs and maps, and became a nil *V inside arrays which
panicked when being marshaled. Import((*V)(nil)) returned nil.
---
 import_export.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/import_export.go b/import_export.go
index 724754e..739a5a3 100644
--- a/import_export.go
+++ b/import_export.go
@@ -192,7 +192,7 @@ func getPointerOfValue(v reflect.Value) reflect.Value {
 
 func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 	if v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	j, _ := v.Interface().(deepCopier)
 	return j.deepCopy(), nil
@@ -200,11 +200,11 @@ func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 
 func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	marshaler, _ := v.Interface().(json.Marshaler)
 	if marshaler == nil {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	b, err := marshaler.MarshalJSON()
 	if err != nil {
@@ -246,11 +246,11 @@ func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 
 func parseTextMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	marshaler, _ := v.Interface().(encoding.TextMarshaler)
 	if marshaler == nil {
-		return NewNull(), nil // empty
+		return parseNullValue(v, ex)
 	}
 	b, err := marshaler.MarshalText()
 	if err != nil {
-- 
2.43.0


From 495eb12c9b455ade648204c7cf00aeec0933a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:25 +0000
Subject: [PATCH 17/42] fix: omitempty affects the tagged field only

It was also applied to the values of a map, and to what a pointer or an interface
refers to, thus a non-nil pointer to zero and zero values of a map were omitted.
---
 import_export.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index 739a5a3..7f35d50 100644
--- a/import_export.go
+++ b/import_export.go
@@ -104,7 +104,7 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		fu = parseArrayValue
 
 	case reflect.Interface:
-		return validateValAndReturnParser(v.Elem(), ex)
+		fu = parseInterfaceValue
 
 	case reflect.Map:
 		switch v.Type().Key().Kind() {
@@ -362,6 +362,7 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 	}
 
 	res := NewObject()
+	ex.omitempty = false // only affects the map itself
 
 	for _, kk := range keys {
 		vv := v.MapIndex(kk)
@@ -402,6 +403,7 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 		return parseNullValue(v, ex)
 	}
 
+	ex.omitempty = false // the pointer is not empty, no matter what it points to
 	v, fu, err := validateValAndReturnParser(v.Elem(), ex)
 	if err != nil {
 		return nil, err
@@ -410,6 +412,10 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 	return fu(v, ex)
 }
 
+func parseInterfaceValue(v reflect.Value, ex ext) (*V, error) {
+	return parsePtrValue(v, ex)
+}
+
 func parseSliceValue(v reflect.Value, ex ext) (*V, error) {
 	if v.IsNil() || v.Len() == 0 {
 		if ex.shouldOmitEmpty() {
-- 
2.43.0


From f2156caa115cf4cc5ab1794df676d454eaf03333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:38 +0000
Subject: [PATCH 18/42] fix: the string option of JSON tags

It was ignored for strings, and was applied to the elements of arrays, maps and
interfaces, which encoding/json does not.
---
 import_export.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/import_export.go b/import_export.go
index 7f35d50..79ad921 100644
--- a/import_export.go
+++ b/import_export.go
@@ -328,7 +328,7 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
-	ex.omitempty = false
+	ex.omitempty, ex.toString = false, false
 	res := NewArray()
 	le := v.Len()
 
@@ -362,7 +362,7 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 	}
 
 	res := NewObject()
-	ex.omitempty = false // only affects the map itself
+	ex.omitempty, ex.toString = false, false // only affects the map itself
 
 	for _, kk := range keys {
 		vv := v.MapIndex(kk)
@@ -413,6 +413,7 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseInterfaceValue(v reflect.Value, ex ext) (*V, error) {
+	ex.toString = false
 	return parsePtrValue(v, ex)
 }
 
@@ -442,6 +443,9 @@ func parseStringValue(v reflect.Value, ex ext) (*V, error) {
 		return nil, nil
 	}
 
+	if ex.toString {
+		return NewString(NewString(str).MustMarshalString()), nil
+	}
 	return NewString(str), nil
 }
 
-- 
2.43.0


From f6b879ca520b5cd8519e200fc289df04bc4384b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:09 +0000
Subject: [PATCH 19/42] fix: import embedded fields in the same way as
 encoding/json

An embedded field with a name in its tag is not flattened, neither is an embedded
map. A nil pointer of embedded struct has no fields, instead of a null one.
---
 import_export.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/import_export.go b/import_export.go
index 79ad921..428a22b 100644
--- a/import_export.go
+++ b/import_export.go
@@ -484,11 +484,11 @@ func parseStructFieldValue(
 	fv reflect.Value, ft reflect.StructField, parentEx ext,
 ) (keys []string, children []*V, err error) {
 
-	if ft.Anonymous {
+	if ft.Anonymous && !hasNameInTag(ft, "json") {
 		return parseStructAnonymousFieldValue(fv, ft, parentEx)
 	}
 
-	if !fv.CanInterface() {
+	if !fv.CanInterface() && !isEmbeddedStruct(ft) {
 		return
 	}
 
@@ -524,7 +524,7 @@ func parseStructAnonymousFieldValue(
 		return nil, nil, nil
 	}
 	if fv.Kind() == reflect.Ptr && fv.IsNil() {
-		if ex.shouldOmitEmpty() {
+		if ex.shouldOmitEmpty() || isEmbeddedStruct(ft) {
 			return nil, nil, nil
 		}
 		return []string{fieldName}, []*V{NewNull()}, nil
@@ -556,6 +556,12 @@ func parseStructAnonymousFieldValue(
 		return []string{fieldName}, []*V{child}, nil
 
 	case Object:
+		if !isEmbeddedStruct(ft) { // such as a map
+			if ex.private {
+				return nil, nil, nil
+			}
+			return []string{fieldName}, []*V{child}, nil
+		}
 		child.RangeObjectsBySetSequence(func(k string, c *V) bool {
 			keys = append(keys, k)
 			children = append(children, c)
@@ -565,6 +571,21 @@ func parseStructAnonymousFieldValue(
 	}
 }
 
+// isEmbeddedStruct tells whether a field is an embedded struct or pointer of struct
+func isEmbeddedStruct(ft reflect.StructField) bool {
+	t := ft.Type
+	if t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
+	return ft.Anonymous && t.Kind() == reflect.Struct
+}
+
+// hasNameInTag tells whether a field name is given by its tag
+func hasNameInTag(ft reflect.StructField, name string) bool {
+	fieldName := strings.TrimSpace(strings.Split(ft.Tag.Get(name), ",")[0])
+	return fieldName != "" && fieldName != "-"
+}
+
 func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field string, ex ext) {
 	tg := ft.Tag.Get(name)
 
-- 
2.43.0


From 0153f78dc36111abd85286f4b84b3a3752ecb24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:13 +0000
Subject: [PATCH 20/42] fix: import named byte slice types as base64 string

---
 import_export.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/import_export.go b/import_export.go
index 428a22b..ce849af 100644
--- a/import_export.go
+++ b/import_export.go
@@ -122,7 +122,7 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		fu = parsePtrValue
 
 	case reflect.Slice:
-		if v.Type() == reflect.TypeOf([]byte{}) {
+		if isBytesType(v.Type()) {
 			fu = parseBytesValue
 		} else {
 			fu = parseSliceValue
@@ -428,8 +428,18 @@ func parseSliceValue(v reflect.Value, ex ext) (*V, error) {
 	return parseArrayValue(v, ex)
 }
 
+// isBytesType tells whether a slice type should be encoded in base64, the same as
+// encoding/json
+func isBytesType(t reflect.Type) bool {
+	if t.Elem().Kind() != reflect.Uint8 {
+		return false
+	}
+	p := reflect.PtrTo(t.Elem())
+	return !p.Implements(internal.types.JSONMarshaler) && !p.Implements(internal.types.TextMarshaler)
+}
+
 func parseBytesValue(v reflect.Value, ex ext) (*V, error) {
-	b := v.Interface().([]byte)
+	b := v.Bytes()
 	if len(b) == 0 && ex.shouldOmitEmpty() {
 		return nil, nil
 	}
-- 
2.43.0


From 43defbb79b658952e53a7ea22b54cb396902ed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:32 +0000
Subject: [PATCH 21/42] fix: import json.Number as a number

---
 import_export.go      | 25 ++++++++++++++++++++++++-
 jsonvalue_internal.go |  2 ++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index ce849af..2827768 100644
--- a/import_export.go
+++ b/import_export.go
@@ -129,7 +129,11 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		}
 
 	case reflect.String:
-		fu = parseStringValue
+		if v.Type() == internal.types.JSONNumber {
+			fu = parseJSONNumberValue
+		} else {
+			fu = parseStringValue
+		}
 
 	case reflect.Struct:
 		fu = parseStructValue
@@ -459,6 +463,25 @@ func parseStringValue(v reflect.Value, ex ext) (*V, error) {
 	return NewString(str), nil
 }
 
+func parseJSONNumberValue(v reflect.Value, ex ext) (*V, error) {
+	str := v.String()
+	if str == "" && ex.shouldOmitEmpty() {
+		return nil, nil
+	}
+	if str == "" {
+		str = "0" // the same as encoding/json
+	}
+
+	res, err := UnmarshalString(str)
+	if err != nil || !res.IsNumber() || len(res.srcByte) != len(str) {
+		return nil, fmt.Errorf("%w: invalid json.Number %q", ErrNotValidNumberValue, str)
+	}
+	if ex.toString {
+		return NewString(str), nil
+	}
+	return res, nil
+}
+
 func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 	t := v.Type()
 	numField := t.NumField()
diff --git a/jsonvalue_internal.go b/jsonvalue_internal.go
index f125abc..144119b 100644
--- a/jsonvalue_internal.go
+++ b/jsonvalue_internal.go
@@ -21,6 +21,7 @@ var internal = struct {
 	types struct {
 		JSONMarshaler reflect.Type
 		TextMarshaler reflect.Type
+		JSONNumber    reflect.Type
 	}
 }{}
 
@@ -31,6 +32,7 @@ func init() {
 
 	internal.types.JSONMarshaler = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
 	internal.types.TextMarshaler = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
+	internal.types.JSONNumber = reflect.TypeOf(json.Number(""))
 }
 
 func internalLoadPredictSizePerValue() int {
-- 
2.43.0


From ceb1d2f9a6e1e2d4b81f991e41ffef9b293b32ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:53 +0000
Subject: [PATCH 22/42] fix: a field tagged with "-," is named "-" instead of
 ignored

---
 import_export.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/import_export.go b/import_export.go
index 2827768..a45816d 100644
--- a/import_export.go
+++ b/import_export.go
@@ -526,7 +526,7 @@ func parseStructFieldValue(
 	}
 
 	fieldName, ex := readFieldTag(ft, "json", parentEx)
-	if fieldName == "-" {
+	if isIgnoredByTag(ft, "json") {
 		return
 	}
 
@@ -553,7 +553,7 @@ func parseStructAnonymousFieldValue(
 ) (keys []string, children []*V, err error) {
 
 	fieldName, ex := readAnonymousFieldTag(ft, "json", parentEx)
-	if fieldName == "-" {
+	if isIgnoredByTag(ft, "json") {
 		return nil, nil, nil
 	}
 	if fv.Kind() == reflect.Ptr && fv.IsNil() {
@@ -616,7 +616,13 @@ func isEmbeddedStruct(ft reflect.StructField) bool {
 // hasNameInTag tells whether a field name is given by its tag
 func hasNameInTag(ft reflect.StructField, name string) bool {
 	fieldName := strings.TrimSpace(strings.Split(ft.Tag.Get(name), ",")[0])
-	return fieldName != "" && fieldName != "-"
+	return fieldName != "" && !isIgnoredByTag(ft, name)
+}
+
+// isIgnoredByTag tells whether a field is ignored. Note that the field name is "-"
+// for tag "-,"
+func isIgnoredByTag(ft reflect.StructField, name string) bool {
+	return strings.TrimSpace(ft.Tag.Get(name)) == "-"
 }
 
 func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field string, ex ext) {
-- 
2.43.0


From 7aa05cfa88dab1266d720b7f36a9019d35f87890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 23/42] fix: omitempty should omit an array without any element

---
 import_export.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index a45816d..dacdfb8 100644
--- a/import_export.go
+++ b/import_export.go
@@ -332,9 +332,12 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
+	le := v.Len()
+	if le == 0 && ex.shouldOmitEmpty() {
+		return nil, nil
+	}
 	ex.omitempty, ex.toString = false, false
 	res := NewArray()
-	le := v.Len()
 
 	for i := 0; i < le; i++ {
 		vv := v.Index(i)
-- 
2.43.0


From a250051f2d81c6477e40dab26d5dfff2c2033d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:13 +0000
Subject: [PATCH 24/42] fix: import maps whose keys implement
 encoding.TextMarshaler

---
 import_export.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index dacdfb8..97a38f3 100644
--- a/import_export.go
+++ b/import_export.go
@@ -107,7 +107,12 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		fu = parseInterfaceValue
 
 	case reflect.Map:
-		switch v.Type().Key().Kind() {
+		keyType := v.Type().Key()
+		if keyType.Kind() != reflect.String && keyType.Implements(internal.types.TextMarshaler) {
+			fu = parseTextMarshalerMapValue
+			break
+		}
+		switch keyType.Kind() {
 		default:
 			err = fmt.Errorf("unsupported key type for a map: %v", v.Type().Key())
 		case reflect.String:
@@ -405,6 +410,24 @@ func parseUintMapValue(v reflect.Value, ex ext) (*V, error) {
 	})
 }
 
+func parseTextMarshalerMapValue(v reflect.Value, ex ext) (*V, error) {
+	var keyErr error
+	res, err := parseMapValue(v, ex, func(k reflect.Value) string {
+		if k.Kind() == reflect.Ptr && k.IsNil() {
+			return ""
+		}
+		b, err := k.Interface().(encoding.TextMarshaler).MarshalText()
+		if err != nil {
+			keyErr = err
+		}
+		return string(b)
+	})
+	if err == nil && keyErr != nil {
+		return nil, keyErr
+	}
+	return res, err
+}
+
 func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 	if v.IsNil() {
 		return parseNullValue(v, ex)
-- 
2.43.0


From 511a873ed216a2a5608bf7f4d83cfd90f90764e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:59 +0000
Subject: [PATCH 25/42] fix: Get from a value which is not a container returns
 ErrTypeNotMatch

As documented in docs/en/04_get.md, the error can be identified by errors.Is().
---
 get.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/get.go b/get.go
index 2ebf605..f01a738 100644
--- a/get.go
+++ b/get.go
@@ -102,7 +102,7 @@ func getInCurrentValue(v *V, caseless bool, param any) (*V, error) {
 	case Object:
 		return getInCurrentObject(v, caseless, param)
 	default:
-		return &V{}, fmt.Errorf("%v type does not supports Get()", v.valueType)
+		return &V{}, fmt.Errorf("%w: %v type does not supports Get()", ErrTypeNotMatch, v.valueType)
 	}
 }
 
-- 
2.43.0


From a24eba5bdd1bdd3840127404883ae477de5f7945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:10 +0000
Subject: [PATCH 26/42] fix: import embedded structs which are marshalers as
 their fields

---
 import_export.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/import_export.go b/import_export.go
index 97a38f3..fbbda2e 100644
--- a/import_export.go
+++ b/import_export.go
@@ -589,6 +589,11 @@ func parseStructAnonymousFieldValue(
 		return []string{fieldName}, []*V{NewNull()}, nil
 	}
 
+	if isEmbeddedStruct(ft) {
+		// always treated as its fields, even if the embedded type is a marshaler
+		return parseEmbeddedStruct(reflect.Indirect(fv), ex)
+	}
+
 	fv, fu, err := validateValAndReturnParser(fv, ex)
 	if err != nil {
 		err = fmt.Errorf("parsing anonymous field error: %w", err)
@@ -608,26 +613,26 @@ func parseStructAnonymousFieldValue(
 	default: // invalid
 		return nil, nil, nil
 
-	case String, Number, Boolean, Null, Array:
+	case String, Number, Boolean, Null, Array, Object:
 		if ex.private {
 			return nil, nil, nil
 		}
 		return []string{fieldName}, []*V{child}, nil
+	}
+}
 
-	case Object:
-		if !isEmbeddedStruct(ft) { // such as a map
-			if ex.private {
-				return nil, nil, nil
-			}
-			return []string{fieldName}, []*V{child}, nil
-		}
-		child.RangeObjectsBySetSequence(func(k string, c *V) bool {
-			keys = append(keys, k)
-			children = append(children, c)
-			return true
-		})
+func parseEmbeddedStruct(fv reflect.Value, ex ext) (keys []string, children []*V, err error) {
+	child, err := parseStructValue(fv, ex)
+	if err != nil {
+		err = fmt.Errorf("parsing anonymous field error: %w", err)
 		return
 	}
+	child.RangeObjectsBySetSequence(func(k string, c *V) bool {
+		keys = append(keys, k)
+		children = append(children, c)
+		return true
+	})
+	return
 }
 
 // isEmbeddedStruct tells whether a field is an embedded struct or pointer of struct
-- 
2.43.0


From 421f349c9d0493f4b5a022763e8a521398634983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:15 +0000
Subject: [PATCH 27/42] fix: the string option of JSON tags goes through one
 pointer only

---
 import_export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/import_export.go b/import_export.go
index fbbda2e..f8f5156 100644
--- a/import_export.go
+++ b/import_export.go
@@ -556,6 +556,10 @@ func parseStructFieldValue(
 		return
 	}
 
+	if t := ft.Type; t.Kind() == reflect.Ptr && (t.Name() != "" || t.Elem().Kind() == reflect.Ptr) {
+		ex.toString = false // only goes through one unnamed pointer, the same as encoding/json
+	}
+
 	fv, fu, err := validateValAndReturnParser(fv, ex)
 	if err != nil {
 		err = fmt.Errorf("parsing field '%s' error: %w", fieldName, err)
-- 
2.43.0


From 30ae741347c0464f8251f6d835ad1a3393a02958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:44 +0000
Subject: [PATCH 28/42] fix: NaN and Inf with the string option of JSON tags
 are errors

---
 import_export.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/import_export.go b/import_export.go
index f8f5156..449a4bb 100644
--- a/import_export.go
+++ b/import_export.go
@@ -318,8 +318,7 @@ func parseFloat64Value(v reflect.Value, ex ext) (*V, error) {
 		return nil, nil
 	}
 	if ex.toString {
-		f64 := NewFloat64(f)
-		return NewString(f64.MustMarshalString()), nil
+		return parseToStringValue(NewFloat64(f))
 	}
 	return NewFloat64(f), nil
 }
@@ -330,12 +329,19 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 		return nil, nil
 	}
 	if ex.toString {
-		f32 := NewFloat32(float32(f))
-		return NewString(f32.MustMarshalString()), nil
+		return parseToStringValue(NewFloat32(float32(f)))
 	}
 	return NewFloat32(float32(f)), nil
 }
 
+func parseToStringValue(v *V) (*V, error) {
+	s, err := v.MarshalString()
+	if err != nil {
+		return nil, err // NaN or Inf
+	}
+	return NewString(s), nil
+}
+
 func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
 	le := v.Len()
 	if le == 0 && ex.shouldOmitEmpty() {
-- 
2.43.0


From f075c4e0becbe9db312389e36e9004bd033e5de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 29/42] fix: omitempty does not apply to what a double pointer
 points to

---
 import_export.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/import_export.go b/import_export.go
index 449a4bb..0250012 100644
--- a/import_export.go
+++ b/import_export.go
@@ -162,18 +162,8 @@ func checkAndParseMarshaler(v reflect.Value) (out reflect.Value, fu parserFunc)
 		return v, parseTextMarshaler
 	}
 
-	// check its origin type
+	// a pointer to something else, which will be checked after dereferencing
 	if v.Kind() == reflect.Ptr {
-		if v.IsNil() {
-			return
-		}
-		elem := v.Elem()
-		if elem.Type().Implements(internal.types.JSONMarshaler) {
-			return elem, parseJSONMarshaler
-		}
-		if elem.Type().Implements(internal.types.TextMarshaler) {
-			return elem, parseTextMarshaler
-		}
 		return
 	}
 
-- 
2.43.0


From 12bc78bfee86ed76db6a57a64083518c44a93d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:25 +0000
Subject: [PATCH 30/42] fix: comparing with a nil value is false instead of a
 panic

---
 compare.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compare.go b/compare.go
index b997dac..8248aef 100644
--- a/compare.go
+++ b/compare.go
@@ -46,6 +46,9 @@ func (v *V) LessThanOrEqual(another *V) bool {
 }
 
 func greaterThan(left, right *V) (result, ok bool) {
+	if left == nil || right == nil {
+		return false, false
+	}
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
@@ -59,6 +62,9 @@ func greaterThan(left, right *V) (result, ok bool) {
 }
 
 func greaterOrEqualThan(left, right *V) (result, ok bool) {
+	if left == nil || right == nil {
+		return false, false
+	}
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
-- 
2.43.0


From 71e65a25cf664164e0a4b0e9354228dd20e41732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:15 +0000
Subject: [PATCH 31/42] fix: beta.Contains with a nil value is false instead of
 a panic

---
 beta/contain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beta/contain.go b/beta/contain.go
index ae3b374..6daa184 100644
--- a/beta/contain.go
+++ b/beta/contain.go
@@ -23,6 +23,9 @@ func Contains(v *jsonvalue.V, sub any, inPath ...any) bool {
 			return false
 		}
 	}
+	if subV == nil {
+		return false
+	}
 	if len(inPath) > 0 {
 		v, err = v.Get(inPath[0], inPath[1:]...)
 		if err != nil {
-- 
2.43.0


From d3d72830242545bf963f32c31db84e9d4ac32141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:40 +0000
Subject: [PATCH 32/42] fix: importing a *V which does not exist is an error

---
 import_export.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index 0250012..582ee9a 100644
--- a/import_export.go
+++ b/import_export.go
@@ -194,7 +194,11 @@ func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 		return parseNullValue(v, ex)
 	}
 	j, _ := v.Interface().(deepCopier)
-	return j.deepCopy(), nil
+	res := j.deepCopy()
+	if res.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
+	return res, nil
 }
 
 func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
-- 
2.43.0


From c24f6c01c7eb28d32b3122237440bf4f721ddd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:44 +0000
Subject: [PATCH 33/42] fix: comparing numbers of very different magnitudes
 does not expand them

Comparing 1e-1000000000 with 1 expanded the latter to a billion digits.
---
 compare.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/compare.go b/compare.go
index 8248aef..9f1ced7 100644
--- a/compare.go
+++ b/compare.go
@@ -56,9 +56,7 @@ func greaterThan(left, right *V) (result, ok bool) {
 		l, r := left.num.f64, right.num.f64
 		return l > r, !math.IsNaN(l) && !math.IsNaN(r)
 	}
-	a1, _ := decimal.NewFromString(string(left.srcByte))
-	a2, _ := decimal.NewFromString(string(right.srcByte))
-	return a1.GreaterThan(a2), true
+	return compareNumbers(left, right) > 0, true
 }
 
 func greaterOrEqualThan(left, right *V) (result, ok bool) {
@@ -75,9 +73,7 @@ func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true, true
 	}
-	a1, _ := decimal.NewFromString(string(left.srcByte))
-	a2, _ := decimal.NewFromString(string(right.srcByte))
-	return a1.GreaterThanOrEqual(a2), true
+	return compareNumbers(left, right) >= 0, true
 }
 
 // Equal shows whether the content of two JSON values equal to each other.
@@ -123,9 +119,37 @@ func numberEqual(left, right *V) bool {
 		return true
 	}
 
+	return compareNumbers(left, right) == 0
+}
+
+// compareNumbers compares the exact values of two numbers. Numbers of different
+// magnitudes are not given to decimal, which would expand them to the same exponent,
+// no matter how many digits that takes.
+func compareNumbers(left, right *V) int {
 	d1, _ := decimal.NewFromString(string(left.srcByte))
 	d2, _ := decimal.NewFromString(string(right.srcByte))
-	return d1.Equal(d2)
+
+	sign := d1.Sign()
+	if sign != d2.Sign() {
+		if sign > d2.Sign() {
+			return 1
+		}
+		return -1
+	}
+	if sign == 0 {
+		return 0
+	}
+
+	m1 := int64(d1.NumDigits()) + int64(d1.Exponent())
+	m2 := int64(d2.NumDigits()) + int64(d2.Exponent())
+	const tolerance = 2 // NumDigits may be off by one
+	if m1 > m2+tolerance {
+		return sign
+	}
+	if m2 > m1+tolerance {
+		return -sign
+	}
+	return d1.Cmp(d2)
 }
 
 func objectEqual(left, right *V) bool {
-- 
2.43.0


From 2122bdf185bba2cefb3180aed9667ca3338ece7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:45 +0000
Subject: [PATCH 34/42] fix: importing a cyclic value is an error instead of a
 stack overflow

The same as encoding/json, pointers, maps and slices are checked when nested deeply.
---
 import_export.go | 68 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 65 insertions(+), 3 deletions(-)

diff --git a/import_export.go b/import_export.go
index 582ee9a..b857141 100644
--- a/import_export.go
+++ b/import_export.go
@@ -52,6 +52,42 @@ type ext struct {
 
 	// extended jsonvalue options
 	ignoreOmitempty bool
+
+	// nesting level of pointers, maps and slices, and those deeply nested ones which
+	// are being parsed
+	level   int
+	parents map[parentRef]struct{}
+}
+
+// parentRef identifies a pointer, map or slice
+type parentRef struct {
+	typ reflect.Type
+	ptr uintptr
+	len int
+}
+
+// enter should be invoked before parsing what a pointer, map or slice refers to. The same
+// as encoding/json, cycles are detected only when it is deeply nested.
+func (e *ext) enter(v reflect.Value) (leave func(), err error) {
+	const startDetectingCyclesAfter = 1000
+
+	e.level++
+	if e.level <= startDetectingCyclesAfter {
+		return func() {}, nil
+	}
+
+	ref := parentRef{typ: v.Type(), ptr: v.Pointer()}
+	if v.Kind() == reflect.Slice {
+		ref.len = v.Len()
+	}
+	if _, exist := e.parents[ref]; exist {
+		return nil, fmt.Errorf("jsonvalue: encountered a cycle via %v", v.Type())
+	}
+	if e.parents == nil {
+		e.parents = map[parentRef]struct{}{}
+	}
+	e.parents[ref] = struct{}{}
+	return func() { delete(e.parents, ref) }, nil
 }
 
 func (e ext) shouldOmitEmpty() bool {
@@ -376,6 +412,12 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 	res := NewObject()
 	ex.omitempty, ex.toString = false, false // only affects the map itself
 
+	leave, err := ex.enter(v)
+	if err != nil {
+		return nil, err
+	}
+	defer leave()
+
 	for _, kk := range keys {
 		vv := v.MapIndex(kk)
 		vv, fu, err := validateValAndReturnParser(vv, ex)
@@ -434,6 +476,13 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 	}
 
 	ex.omitempty = false // the pointer is not empty, no matter what it points to
+	if v.Kind() == reflect.Ptr {
+		leave, err := ex.enter(v)
+		if err != nil {
+			return nil, err
+		}
+		defer leave()
+	}
 	v, fu, err := validateValAndReturnParser(v.Elem(), ex)
 	if err != nil {
 		return nil, err
@@ -455,6 +504,11 @@ func parseSliceValue(v reflect.Value, ex ext) (*V, error) {
 		return NewArray(), nil
 	}
 
+	leave, err := ex.enter(v)
+	if err != nil {
+		return nil, err
+	}
+	defer leave()
 	return parseArrayValue(v, ex)
 }
 
@@ -594,6 +648,13 @@ func parseStructAnonymousFieldValue(
 	}
 
 	if isEmbeddedStruct(ft) {
+		if fv.Kind() == reflect.Ptr {
+			leave, err := ex.enter(fv)
+			if err != nil {
+				return nil, nil, err
+			}
+			defer leave()
+		}
 		// always treated as its fields, even if the embedded type is a marshaler
 		return parseEmbeddedStruct(reflect.Indirect(fv), ex)
 	}
@@ -664,9 +725,9 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 	tg := ft.Tag.Get(name)
 
 	if tg == "" {
-		return ft.Name, ext{
-			ignoreOmitempty: parentEx.ignoreOmitempty,
-		}
+		ex.ignoreOmitempty = parentEx.ignoreOmitempty
+		ex.level, ex.parents = parentEx.level, parentEx.parents
+		return ft.Name, ex
 	}
 
 	parts := strings.Split(tg, ",")
@@ -686,6 +747,7 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 		field = ft.Name
 	}
 	ex.ignoreOmitempty = parentEx.ignoreOmitempty
+	ex.level, ex.parents = parentEx.level, parentEx.parents
 	return
 }
 
-- 
2.43.0


From aa2b874e88e57226fb49ef8a49959e1aa8ce55b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 35/42] fix: a KeyPath kept by a less function does not change
 afterwards

---
 sort.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 07eaf3e..63fa435 100644
--- a/sort.go
+++ b/sort.go
@@ -166,9 +166,12 @@ func newParentInfo(v *V, nilableParentInfo *ParentInfo, key Key) *ParentInfo {
 		}
 	}
 
+	// siblings should not share the same storage, a path may be kept by the invoker
+	path := make(KeyPath, 0, len(nilableParentInfo.KeyPath)+1)
+	path = append(path, nilableParentInfo.KeyPath...)
 	return &ParentInfo{
 		Parent:  v,
-		KeyPath: append(nilableParentInfo.KeyPath, &key),
+		KeyPath: append(path, &key),
 	}
 }
 
-- 
2.43.0


From 74c861bcc42f41597d65fa349a7db32b42074c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:18 +0000
Subject: [PATCH 36/42] fix: an empty key in a KeyPath is not taken for the
 index 0

---
 sort.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sort.go b/sort.go
index 63fa435..d2744c1 100644
--- a/sort.go
+++ b/sort.go
@@ -70,8 +70,9 @@ func (v *sortArrayV) Swap(i, j int) {
 //
 // Key 是 KeyPath 类型的成员
 type Key struct {
-	s string
-	i int
+	s     string
+	i     int
+	isStr bool
 }
 
 func intKey(i int) Key {
@@ -79,14 +80,14 @@ func intKey(i int) Key {
 }
 
 func stringKey(s string) Key {
-	return Key{s: s}
+	return Key{s: s, isStr: true}
 }
 
 // String returns string value of a key
 //
 // String 返回当前键值对的键的描述
 func (k *Key) String() string {
-	if k.s != "" {
+	if k.isStr {
 		return k.s
 	}
 	return strconv.Itoa(k.i)
@@ -96,14 +97,14 @@ func (k *Key) String() string {
 //
 // IsString 判断当前的键是不是一个 string 类型，如果是的话，那么它是一个 object JSON 的子成员。
 func (k *Key) IsString() bool {
-	return k.s != ""
+	return k.isStr
 }
 
 // Int returns int value of a key.
 //
 // Int 返回当前键值对的 int 值。
 func (k *Key) Int() int {
-	if k.s == "" {
+	if !k.isStr {
 		return k.i
 	}
 	return 0
@@ -113,7 +114,7 @@ func (k *Key) Int() int {
 //
 // IsInt 判断当前的键是不是一个整型类型，如果是的话，那么它是一个 array JSON 的子成员。
 func (k *Key) IsInt() bool {
-	return k.s == ""
+	return !k.isStr
 }
 
 // KeyPath identifies a full path of keys of object in jsonvalue.
-- 
2.43.0


From c1c62db377cd2cce0026fb1c44e7df4192cce8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:53 +0000
Subject: [PATCH 37/42] fix: importing a struct resolves fields of the same
 name as encoding/json does

---
 import_export.go | 113 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 105 insertions(+), 8 deletions(-)

diff --git a/import_export.go b/import_export.go
index b857141..0488e95 100644
--- a/import_export.go
+++ b/import_export.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
+	"sync"
 )
 
 // Export convert jsonvalue to another type of parameter. The target parameter type should match the type of *V.
@@ -50,6 +51,9 @@ type ext struct {
 	// revert of isExported
 	private bool
 
+	// which fields of the struct being parsed are not hidden
+	fields *structFields
+
 	// extended jsonvalue options
 	ignoreOmitempty bool
 
@@ -563,12 +567,20 @@ func parseJSONNumberValue(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseStructValue(v reflect.Value, ex ext) (*V, error) {
+	ex.fields = visibleStructFields(v.Type())
+	return parseStructFields(v, ex)
+}
+
+func parseStructFields(v reflect.Value, ex ext) (*V, error) {
 	t := v.Type()
 	numField := t.NumField()
 
 	res := NewObject()
 
 	for i := 0; i < numField; i++ {
+		if !ex.fields.visible[i] {
+			continue
+		}
 		vv := v.Field(i)
 		tt := t.Field(i)
 
@@ -648,13 +660,7 @@ func parseStructAnonymousFieldValue(
 	}
 
 	if isEmbeddedStruct(ft) {
-		if fv.Kind() == reflect.Ptr {
-			leave, err := ex.enter(fv)
-			if err != nil {
-				return nil, nil, err
-			}
-			defer leave()
-		}
+		ex.fields = parentEx.fields.embedded[ft.Index[0]]
 		// always treated as its fields, even if the embedded type is a marshaler
 		return parseEmbeddedStruct(reflect.Indirect(fv), ex)
 	}
@@ -687,7 +693,7 @@ func parseStructAnonymousFieldValue(
 }
 
 func parseEmbeddedStruct(fv reflect.Value, ex ext) (keys []string, children []*V, err error) {
-	child, err := parseStructValue(fv, ex)
+	child, err := parseStructFields(fv, ex)
 	if err != nil {
 		err = fmt.Errorf("parsing anonymous field error: %w", err)
 		return
@@ -700,6 +706,97 @@ func parseEmbeddedStruct(fv reflect.Value, ex ext) (keys []string, children []*V
 	return
 }
 
+// structFields tells which fields of a struct are visible, and the same for the fields
+// of its embedded structs
+type structFields struct {
+	visible  []bool
+	embedded []*structFields
+}
+
+type structFieldInfo struct {
+	visible *bool
+	depth   int
+	tagged  bool
+}
+
+var structFieldsCache sync.Map // reflect.Type -> *structFields
+
+// visibleStructFields finds the visible fields in the same way as encoding/json: for
+// several fields with the same name, the least nested one is visible. Then, the one
+// whose name is given by a tag. If there is still more than one, none of them is visible.
+func visibleStructFields(t reflect.Type) *structFields {
+	if res, exist := structFieldsCache.Load(t); exist {
+		return res.(*structFields)
+	}
+
+	all := map[string][]structFieldInfo{}
+	res := collectStructFields(t, []reflect.Type{t}, all)
+
+	for _, fields := range all {
+		best, count := fields[0], 1
+		for _, f := range fields[1:] {
+			if f.depth < best.depth || (f.depth == best.depth && f.tagged && !best.tagged) {
+				best, count = f, 1
+			} else if f.depth == best.depth && f.tagged == best.tagged {
+				count++
+			}
+		}
+		*best.visible = count == 1
+	}
+
+	structFieldsCache.Store(t, res)
+	return res
+}
+
+// collectStructFields collects the fields of a struct and of its embedded ones by their names
+func collectStructFields(t reflect.Type, parents []reflect.Type, all map[string][]structFieldInfo) *structFields {
+	res := &structFields{
+		visible:  make([]bool, t.NumField()),
+		embedded: make([]*structFields, t.NumField()),
+	}
+
+	for i := 0; i < t.NumField(); i++ {
+		ft := t.Field(i)
+		if isIgnoredByTag(ft, "json") {
+			continue
+		}
+		tagged := hasNameInTag(ft, "json")
+
+		if isEmbeddedStruct(ft) && !tagged {
+			et := ft.Type
+			if et.Kind() == reflect.Ptr {
+				et = et.Elem()
+			}
+			if !containsType(parents, et) {
+				res.visible[i] = true
+				res.embedded[i] = collectStructFields(et, append(parents[:len(parents):len(parents)], et), all)
+			}
+			continue
+		}
+
+		if ft.PkgPath != "" && !isEmbeddedStruct(ft) {
+			continue // not exported
+		}
+		name, _ := readFieldTag(ft, "json", ext{})
+		all[name] = append(all[name], structFieldInfo{
+			visible: &res.visible[i],
+			depth:   len(parents),
+			tagged:  tagged,
+		})
+	}
+
+	return res
+}
+
+func containsType(types []reflect.Type, t reflect.Type) bool {
+	for _, typ := range types {
+		if typ == t {
+			return true
+		}
+	}
+	return false
+}
+
 // isEmbeddedStruct tells whether a field is an embedded struct or pointer of struct
 func isEmbeddedStruct(ft reflect.StructField) bool {
 	t := ft.Type
-- 
2.43.0


From 356c5b83250e0e518950f1c50d949e56589b2829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 38/42] fix: the string option writes numbers and strings as
 encoding/json does

---
 import_export.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/import_export.go b/import_export.go
index 0488e95..44a071b 100644
--- a/import_export.go
+++ b/import_export.go
@@ -352,7 +352,7 @@ func parseFloat64Value(v reflect.Value, ex ext) (*V, error) {
 		return nil, nil
 	}
 	if ex.toString {
-		return parseToStringValue(NewFloat64(f))
+		return parseToStringValue(f)
 	}
 	return NewFloat64(f), nil
 }
@@ -363,17 +363,18 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 		return nil, nil
 	}
 	if ex.toString {
-		return parseToStringValue(NewFloat32(float32(f)))
+		return parseToStringValue(float32(f))
 	}
 	return NewFloat32(float32(f)), nil
 }
 
-func parseToStringValue(v *V) (*V, error) {
-	s, err := v.MarshalString()
+// parseToStringValue gives the JSON text of v as a string, in the very form of encoding/json
+func parseToStringValue(v interface{}) (*V, error) {
+	b, err := json.Marshal(v)
 	if err != nil {
 		return nil, err // NaN or Inf
 	}
-	return NewString(s), nil
+	return NewString(string(b)), nil
 }
 
 func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
@@ -542,7 +543,7 @@ func parseStringValue(v reflect.Value, ex ext) (*V, error) {
 	}
 
 	if ex.toString {
-		return NewString(NewString(str).MustMarshalString()), nil
+		return parseToStringValue(str)
 	}
 	return NewString(str), nil
 }
-- 
2.43.0


From 8a9998c3b905345e2fe5bb4fcaa96ebc84249218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:56 +0000
Subject: [PATCH 39/42] fix: embedded types with a non-ASCII exported name are
 imported

---
 import_export.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/import_export.go b/import_export.go
index 44a071b..a71b038 100644
--- a/import_export.go
+++ b/import_export.go
@@ -852,12 +852,6 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 func readAnonymousFieldTag(ft reflect.StructField, name string, parentEx ext) (field string, ex ext) {
 	field, ex = readFieldTag(ft, name, parentEx)
 
-	firstChar := ft.Name[0]
-	if firstChar >= 'A' && firstChar <= 'Z' {
-		ex.private = false
-	} else {
-		ex.private = true
-	}
-
+	ex.private = ft.PkgPath != ""
 	return
 }
-- 
2.43.0


From 3aeeda4c9e9049324562fc045a47f88dc61a19d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:13 +0000
Subject: [PATCH 40/42] fix: NewFloat64 and NewFloat32 write zero and exponents
 as encoding/json does

---
 new.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/new.go b/new.go
index 3ae614f..05522a7 100644
--- a/new.go
+++ b/new.go
@@ -182,11 +182,11 @@ func NewArray() *V {
 func NewFloat64(f float64) *V {
 	abs := math.Abs(f)
 	format := byte('f')
-	if abs < 1e-6 || abs >= 1e21 {
+	if abs != 0 && (abs < 1e-6 || abs >= 1e21) {
 		format = byte('e')
 	}
 
-	return newFloat64f(globalPool{}, f, format, -1, 64)
+	return cleanUpExponent(newFloat64f(globalPool{}, f, format, -1, 64))
 }
 
 // NewFloat64f returns an initialized num jsonvalue value by float64 type. The format and prec parameter are used in
@@ -207,13 +207,13 @@ func NewFloat64f(f float64, format byte, prec int) *V {
 // NewFloat32 根据指定的 float32 类型返回一个初始化好的数字类型的 jsonvalue 值。数字转出来的字符串格式参照 encoding/json 中的逻辑。
 func NewFloat32(f float32) *V {
 	f64 := float64(f)
-	abs := math.Abs(f64)
+	abs := float32(math.Abs(f64))
 	format := byte('f')
-	if abs < 1e-6 || abs >= 1e21 {
+	if abs != 0 && (abs < 1e-6 || abs >= 1e21) {
 		format = byte('e')
 	}
 
-	return newFloat64f(globalPool{}, f64, format, -1, 32)
+	return cleanUpExponent(newFloat64f(globalPool{}, f64, format, -1, 32))
 }
 
 // NewFloat32f returns an initialized num jsonvalue value by float64 type. The format and prec parameter are used in
@@ -267,6 +267,16 @@ func newFloat64f(p pool, f float64, format byte, prec, bitSize int) *V {
 	return v
 }
 
+// cleanUpExponent cleans up e-09 to e-9, the same as encoding/json
+func cleanUpExponent(v *V) *V {
+	b := v.srcByte
+	if n := len(b); n >= 4 && b[n-4] == 'e' && b[n-3] == '-' && b[n-2] == '0' {
+		b[n-2] = b[n-1]
+		v.srcByte = b[:n-1]
+	}
+	return v
+}
+
 func validateFloat64Format(f byte) error {
 	switch f {
 	case 'f', 'E', 'e', 'G', 'g':
-- 
2.43.0


From 3fc7ae48af7f568dcd6580b612e9eada6f89b300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:20 +0000
Subject: [PATCH 41/42] fix: a JSON marshaler by pointer takes precedence over
 a text marshaler

---
 import_export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/import_export.go b/import_export.go
index a71b038..a6e2fbd 100644
--- a/import_export.go
+++ b/import_export.go
@@ -198,6 +198,10 @@ func checkAndParseMarshaler(v reflect.Value) (out reflect.Value, fu parserFunc)
 	if v.Type().Implements(internal.types.JSONMarshaler) {
 		return v, parseJSONMarshaler
 	}
+	// a JSON marshaler by pointer takes precedence over a text marshaler, as in encoding/json
+	if v.CanAddr() && reflect.PtrTo(v.Type()).Implements(internal.types.JSONMarshaler) {
+		return getPointerOfValue(v), parseJSONMarshaler
+	}
 	if v.Type().Implements(internal.types.TextMarshaler) {
 		return v, parseTextMarshaler
 	}
-- 
2.43.0


From 0ac8cc9f9ec4f2992251b834261bdf563094deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:49 +0000
Subject: [PATCH 42/42] fix: Caseless of a value which becomes an object later
 ignores case

---
 get.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/get.go b/get.go
index f01a738..4a1d46a 100644
--- a/get.go
+++ b/get.go
@@ -409,14 +409,8 @@ var _ Caseless = (*V)(nil)
 //
 // 注意: 该函数不是协程安全的，如果在多协程场景下，调用该函数，需要加上写锁，而不能用读锁。
 func (v *V) Caseless() Caseless {
-	switch v.valueType {
-	default:
-		return v
-
-	case Array, Object:
-		return &caselessOp{
-			v: v,
-		}
+	return &caselessOp{
+		v: v,
 	}
 }
 
-- 
2.43.0

