From a6842d9c17cca49ab8ce0d87f7263a05860db4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 01/26] fix: codec reads every field completely instead of
 accepting short reads

A single Read may return fewer bytes than asked for; the missing bytes were
silently taken as zero, so a truncated or split stream decoded to a wrong value.
---
 codec/decoder.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index 2549b35..fef63a3 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -14,7 +14,7 @@ import (
 
 func readByte(reader io.Reader) (byte, error) {
 	var data bytes1
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -24,7 +24,7 @@ func readByte(reader io.Reader) (byte, error) {
 
 func readUint16(reader io.Reader) (uint16, error) {
 	var data bytes2
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -34,7 +34,7 @@ func readUint16(reader io.Reader) (uint16, error) {
 
 func readUint32(reader io.Reader) (uint32, error) {
 	var data bytes4
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -44,7 +44,7 @@ func readUint32(reader io.Reader) (uint32, error) {
 
 func readUint64(reader io.Reader) (uint64, error) {
 	var data bytes8
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if err != nil {
 		return 0, err
 	}
@@ -54,7 +54,7 @@ func readUint64(reader io.Reader) (uint64, error) {
 
 func readInt16(reader io.Reader) (int16, error) {
 	var data bytes2
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -64,7 +64,7 @@ func readInt16(reader io.Reader) (int16, error) {
 
 func readInt32(reader io.Reader) (int32, error) {
 	var data bytes4
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -74,7 +74,7 @@ func readInt32(reader io.Reader) (int32, error) {
 
 func readInt64(reader io.Reader) (int64, error) {
 	var data bytes8
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -233,7 +233,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 			}
 
 			data := make(bytes, n)
-			_, err = reader.Read(data)
+			_, err = io.ReadFull(reader, data)
 			if nil != err {
 				return nil, err
 			}
-- 
2.43.0


From 19d0be585ee1f8c79016eb15763574ff09d178ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 02/26] fix: floats with small bit patterns decode instead of
 panicking

The bits of a float are encoded as an unsigned integer, which is narrowed to
as few bytes as possible; the decoder insisted on the full width.
---
 codec/decoder.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index fef63a3..bdd6814 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -138,7 +138,12 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return nil, err
 			}
 
-			return math.Float32frombits(data.(uint32)), nil
+			bits, ok := toUint64(data)
+			if !ok || bits > math.MaxUint32 {
+				return nil, fmt.Errorf("Invalid float32 data: %v", data)
+			}
+
+			return math.Float32frombits(uint32(bits)), nil
 		}
 	case cFloat64:
 		{
@@ -147,7 +152,12 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return nil, err
 			}
 
-			return math.Float64frombits(data.(uint64)), nil
+			bits, ok := toUint64(data)
+			if !ok {
+				return nil, fmt.Errorf("Invalid float64 data: %v", data)
+			}
+
+			return math.Float64frombits(bits), nil
 		}
 	case cUint8:
 		{
@@ -262,3 +272,20 @@ func decode(reader io.Reader) (v interface{}, err error) {
 
 	return nil, fmt.Errorf("Unsupported code: %s", strconv.Itoa(int(c)))
 }
+
+// toUint64 widens the unsigned value a float's bits have been encoded as,
+// small ones being encoded in fewer bytes.
+func toUint64(data interface{}) (uint64, bool) {
+	switch v := data.(type) {
+	case uint8:
+		return uint64(v), true
+	case uint16:
+		return uint64(v), true
+	case uint32:
+		return uint64(v), true
+	case uint64:
+		return v, true
+	}
+
+	return 0, false
+}
-- 
2.43.0


From 360fe0baaceb8e078d333493ec90c168a09c2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 03/26] fix: decoding a map with an array or map as key reports
 an error

Such keys cannot be hashed, so malformed bytes made the decoder panic.
---
 codec/decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/decoder.go b/codec/decoder.go
index bdd6814..bde409a 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -112,6 +112,11 @@ func decodeMap(reader io.Reader, count uint) (map[interface{}]interface{}, error
 			return nil, err
 		}
 
+		switch k.(type) {
+		case []interface{}, map[interface{}]interface{}:
+			return nil, fmt.Errorf("Unsupported map key: %v", k)
+		}
+
 		dict[k] = v
 	}
 
-- 
2.43.0


From efb2c21c59d487faaac7fae0c1ef306903823606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:04 +0000
Subject: [PATCH 04/26] fix: decoding does not allocate what a length field
 merely announces

A few malformed bytes could make the decoder allocate gigabytes for a string or
an array; both now grow with the bytes actually received.
---
 codec/decoder.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index bde409a..b47a759 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -10,6 +10,7 @@ import (
 	"math"
 
 	"strconv"
+	"strings"
 )
 
 func readByte(reader io.Reader) (byte, error) {
@@ -84,14 +85,14 @@ func readInt64(reader io.Reader) (int64, error) {
 
 func decodeArray(reader io.Reader, count uint) ([]interface{}, error) {
 	var i uint
-	arr := make([]interface{}, count)
+	arr := make([]interface{}, 0)
 	for i = 0; i < count; i++ {
 		v, err := decode(reader)
 		if nil != err {
 			return nil, err
 		}
 
-		arr[i] = v
+		arr = append(arr, v)
 	}
 
 	return arr, nil
@@ -247,13 +248,13 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return "", nil
 			}
 
-			data := make(bytes, n)
-			_, err = io.ReadFull(reader, data)
+			var data strings.Builder
+			_, err = io.CopyN(&data, reader, int64(n))
 			if nil != err {
 				return nil, err
 			}
 
-			return string(data), nil
+			return data.String(), nil
 		}
 	case cArr32:
 		{
-- 
2.43.0


From 67cfca26213a210fa04484f0aefad73bb9d92c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:47 +0000
Subject: [PATCH 05/26] fix: accessors accept values held as int or uint

---
 codec/any.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/codec/any.go b/codec/any.go
index 6a93f5c..7521f92 100644
--- a/codec/any.go
+++ b/codec/any.go
@@ -28,6 +28,8 @@ const (
 	aFloat64 aType = 0x0d
 	aArr     aType = 0x0e
 	aMap     aType = 0x0f
+	aInt     aType = 0x10
+	aUint    aType = 0x11
 )
 
 type any struct {
@@ -65,6 +67,8 @@ func (a *any) Int() (int, error) {
 		return int(a.s.(int32)), nil
 	case aInt64:
 		return int(a.s.(int64)), nil
+	case aInt:
+		return int(a.s.(int)), nil
 	}
 
 	return -1, fmt.Errorf("Can't convert %d to int!", a.tp)
@@ -80,6 +84,8 @@ func (a *any) Int8() (int8, error) {
 		return int8(a.s.(int32)), nil
 	case aInt64:
 		return int8(a.s.(int64)), nil
+	case aInt:
+		return int8(a.s.(int)), nil
 	}
 
 	return -1, fmt.Errorf("Can't convert %d to int8!", a.tp)
@@ -95,6 +101,8 @@ func (a *any) Int16() (int16, error) {
 		return int16(a.s.(int32)), nil
 	case aInt64:
 		return int16(a.s.(int64)), nil
+	case aInt:
+		return int16(a.s.(int)), nil
 	}
 
 	return -1, fmt.Errorf("Can't convert %d to int16!", a.tp)
@@ -110,6 +118,8 @@ func (a *any) Int32() (int32, error) {
 		return int32(a.s.(int32)), nil
 	case aInt64:
 		return int32(a.s.(int64)), nil
+	case aInt:
+		return int32(a.s.(int)), nil
 	}
 
 	return -1, fmt.Errorf("Can't convert %d to int32!", a.tp)
@@ -125,6 +135,8 @@ func (a *any) Int64() (int64, error) {
 		return int64(a.s.(int32)), nil
 	case aInt64:
 		return int64(a.s.(int64)), nil
+	case aInt:
+		return int64(a.s.(int)), nil
 	}
 
 	return -1, fmt.Errorf("Can't convert %d to int64!", a.tp)
@@ -140,6 +152,8 @@ func (a *any) Uint() (uint, error) {
 		return uint(a.s.(uint32)), nil
 	case aUint64:
 		return uint(a.s.(uint64)), nil
+	case aUint:
+		return uint(a.s.(uint)), nil
 	}
 
 	return 0, fmt.Errorf("Can't convert %d to uint8!", a.tp)
@@ -155,6 +169,8 @@ func (a *any) Uint8() (uint8, error) {
 		return uint8(a.s.(uint32)), nil
 	case aUint64:
 		return uint8(a.s.(uint64)), nil
+	case aUint:
+		return uint8(a.s.(uint)), nil
 	}
 
 	return 0, fmt.Errorf("Can't convert %d to uint8!", a.tp)
@@ -170,6 +186,8 @@ func (a *any) Uint16() (uint16, error) {
 		return uint16(a.s.(uint32)), nil
 	case aUint64:
 		return uint16(a.s.(uint64)), nil
+	case aUint:
+		return uint16(a.s.(uint)), nil
 	}
 
 	return 0, fmt.Errorf("Can't convert %d to uint16!", a.tp)
@@ -185,6 +203,8 @@ func (a *any) Uint32() (uint32, error) {
 		return uint32(a.s.(uint32)), nil
 	case aUint64:
 		return uint32(a.s.(uint64)), nil
+	case aUint:
+		return uint32(a.s.(uint)), nil
 	}
 
 	return 0, fmt.Errorf("Can't convert %d to uint32!", a.tp)
@@ -200,6 +220,8 @@ func (a *any) Uint64() (uint64, error) {
 		return uint64(a.s.(uint32)), nil
 	case aUint64:
 		return uint64(a.s.(uint64)), nil
+	case aUint:
+		return uint64(a.s.(uint)), nil
 	}
 
 	return 0, fmt.Errorf("Can't convert %d to uint64!", a.tp)
@@ -286,6 +308,10 @@ func (a *any) normalize() {
 		a.tp = aInt64
 	case uint64:
 		a.tp = aUint64
+	case int:
+		a.tp = aInt
+	case uint:
+		a.tp = aUint
 	case float32:
 		a.tp = aFloat32
 	case float64:
-- 
2.43.0


From 9fededfa9ad55a1bf12f2b86e6dbc9fb343dcc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:47 +0000
Subject: [PATCH 06/26] fix: Arr and Map report an error for slices and maps of
 other types instead of panicking

---
 codec/any.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codec/any.go b/codec/any.go
index 7521f92..44f6807 100644
--- a/codec/any.go
+++ b/codec/any.go
@@ -251,7 +251,9 @@ func (a *any) Float64() (float64, error) {
 
 func (a *any) Arr() ([]interface{}, error) {
 	if aArr == a.tp {
-		return a.s.([]interface{}), nil
+		if arr, ok := a.s.([]interface{}); ok {
+			return arr, nil
+		}
 	}
 
 	return nil, fmt.Errorf("Can't convert %d to array!", a.tp)
@@ -259,7 +261,9 @@ func (a *any) Arr() ([]interface{}, error) {
 
 func (a *any) Map() (map[interface{}]interface{}, error) {
 	if aMap == a.tp {
-		return a.s.(map[interface{}]interface{}), nil
+		if dict, ok := a.s.(map[interface{}]interface{}); ok {
+			return dict, nil
+		}
 	}
 
 	return nil, fmt.Errorf("Can't convert %d to map!", a.tp)
-- 
2.43.0


From 667b341f7152b674cb7a57b077a2c34c14a15f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 07/26] fix: a failed decode leaves the held value and its type
 tag consistent

---
 codec/any.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/any.go b/codec/any.go
index 44f6807..7d0a8b4 100644
--- a/codec/any.go
+++ b/codec/any.go
@@ -275,12 +275,12 @@ func (a *any) Encode(writer io.Writer) error {
 }
 
 func (a *any) Decode(reader io.Reader) error {
-	var err error
-	a.s, err = decode(reader)
+	v, err := decode(reader)
 	if err != nil {
 		return err
 	}
 
+	a.s = v
 	a.normalize()
 
 	return nil
-- 
2.43.0


From 4328a76cd9e13ba25f92082e7711e4b8085fa133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 08/26] fix: call timeouts keep their fractional part

---
 chancall/callee.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index f75d9e5..03d78c0 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -62,7 +62,7 @@ func (c *callee) result(request *callRequest, response *callResponse) (err error
 
 func track(request *callRequest, timeout float32) {
 	go func() {
-		time.Sleep(time.Duration(timeout) * time.Second)
+		time.Sleep(time.Duration(float64(timeout) * float64(time.Second)))
 		request.Lock()
 		{
 			if !request.done {
-- 
2.43.0


From 602dff9902a083cca89db1e20879528a819b7b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 09/26] fix: concurrent calls through one caller each get their
 own response

---
 chancall/API.go    |  1 -
 chancall/caller.go | 13 +++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/chancall/API.go b/chancall/API.go
index 98ee2df..fa81444 100644
--- a/chancall/API.go
+++ b/chancall/API.go
@@ -37,7 +37,6 @@ func NewCallee(name string, target interface{}) ICallee {
 func NewCaller(c ICallee) ICaller {
 	caller := new(caller)
 	caller.callee = c.(*callee)
-	caller.callResponse = make(chan *callResponse, 1)
 
 	return caller
 }
diff --git a/chancall/caller.go b/chancall/caller.go
index ade1f1e..a186535 100644
--- a/chancall/caller.go
+++ b/chancall/caller.go
@@ -9,37 +9,38 @@ import (
 )
 
 type caller struct {
-	callee       *callee
-	callResponse chan *callResponse
+	callee *callee
 }
 
 func (c *caller) Call(method string, args ...interface{}) error {
+	callResponse := make(chan *callResponse, 1)
 	err := c.call(&callRequest{
 		method:       method,
 		args:         args,
-		callResponse: c.callResponse,
+		callResponse: callResponse,
 		done:         false,
 	}, true)
 	if nil != err {
 		return err
 	}
 
-	response := <-c.callResponse
+	response := <-callResponse
 	return response.err
 }
 
 func (c *caller) CallWithResult(method string, args ...interface{}) ([]interface{}, error) {
+	callResponse := make(chan *callResponse, 1)
 	err := c.call(&callRequest{
 		method:       method,
 		args:         args,
-		callResponse: c.callResponse,
+		callResponse: callResponse,
 		done:         false,
 	}, true)
 	if nil != err {
 		return nil, err
 	}
 
-	response := <-c.callResponse
+	response := <-callResponse
 	return response.result, response.err
 }
 
-- 
2.43.0


From e1b48cfdf557d01176a80708eb7ec8b2120ce548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:48 +0000
Subject: [PATCH 10/26] fix: calls of unknown methods or with arguments that
 don't fit are answered with an error

---
 chancall/callee.go |  4 ++--
 chancall/meta.go   | 55 +++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index 03d78c0..d7f4f14 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -34,8 +34,8 @@ func (c *callee) handling() {
 
 func (c *callee) process(request *callRequest) (err error) {
 	track(request, c.meta.timeout(request.method))
-	result := c.meta.call(request.method, request.args...)
-	return c.result(request, &callResponse{result: result})
+	result, err := c.meta.call(request.method, request.args...)
+	return c.result(request, &callResponse{result: result, err: err})
 }
 
 func (c *callee) result(request *callRequest, response *callResponse) (err error) {
diff --git a/chancall/meta.go b/chancall/meta.go
index 24ba9d8..d0303e9 100644
--- a/chancall/meta.go
+++ b/chancall/meta.go
@@ -5,6 +5,7 @@
 package chancall
 
 import (
+	"fmt"
 	"reflect"
 )
 
@@ -41,12 +42,12 @@ func (m *meta) collect(target interface{}) {
 	}
 }
 
-func (m *meta) call(method string, args ...interface{}) []interface{} {
+func (m *meta) call(method string, args ...interface{}) ([]interface{}, error) {
 	f := m.funcs[method]
 	if nil != f && f.fn.IsValid() {
-		params := make([]reflect.Value, 0)
-		for i, arg := range args {
-			params = append(params, reflect.ValueOf(arg).Convert(f.ft.In(i)))
+		params, err := f.params(args)
+		if nil != err {
+			return nil, fmt.Errorf("[%s] %s", method, err.Error())
 		}
 		ret := f.fn.Call(params)
 
@@ -55,10 +56,52 @@ func (m *meta) call(method string, args ...interface{}) []interface{} {
 			result[i] = r.Interface()
 		}
 
-		return result
+		return result, nil
 	}
 
-	return nil
+	return nil, fmt.Errorf("[%s] no such method!", method)
+}
+
+// params converts args to the types of the function's parameters.
+func (f *fcall) params(args []interface{}) (params []reflect.Value, err error) {
+	// An argument that can't be converted panics.
+	defer func() {
+		if r := recover(); r != nil {
+			params, err = nil, fmt.Errorf("Invalid argument: %v", r)
+		}
+	}()
+
+	count := f.ft.NumIn()
+	if len(args) < count-1 || (len(args) != count && !f.ft.IsVariadic()) {
+		return nil, fmt.Errorf("Invalid argument count: %d", len(args))
+	}
+
+	params = make([]reflect.Value, 0)
+	for i, arg := range args {
+		var t reflect.Type
+		if f.ft.IsVariadic() && i >= count-1 {
+			t = f.ft.In(count - 1).Elem()
+		} else {
+			t = f.ft.In(i)
+		}
+
+		if nil == arg && nillable(t) {
+			params = append(params, reflect.Zero(t))
+		} else {
+			params = append(params, reflect.ValueOf(arg).Convert(t))
+		}
+	}
+
+	return params, nil
+}
+
+func nillable(t reflect.Type) bool {
+	switch t.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+		return true
+	}
+
+	return false
 }
 
 func (m *meta) timeout(method string) float32 {
-- 
2.43.0


From 3ed81e7d73dc4613a4d6e426ae9b746a4721030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 11/26] fix: docks connected over IPv6 are told apart and
 announced with their address

---
 hub.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hub.go b/hub.go
index df51a2c..9184c00 100644
--- a/hub.go
+++ b/hub.go
@@ -179,6 +179,10 @@ func (h *hub) respondQueryImme(peer network.IPeer, dockAddr string) {
 }
 
 func pickIP(addr string) string {
-	info := strings.Split(addr, ":")
-	return info[0]
+	// The host part of an IPv6 address has colons, too.
+	if i := strings.LastIndex(addr, ":"); i >= 0 {
+		return addr[:i]
+	}
+
+	return addr
 }
-- 
2.43.0


From 15dc48ba8e6c27a087ae10acb30314c6d6a4b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 12/26] fix: a readiness report covers all registrations of the
 dock

---
 hub.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hub.go b/hub.go
index 9184c00..0696dba 100644
--- a/hub.go
+++ b/hub.go
@@ -100,7 +100,6 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 						stub := i.Value.(*stub)
 						if stub.peer == peer {
 							stub.ready = true
-							break
 						}
 					}
 				}
-- 
2.43.0


From 3b93b4feda8519e5e702a4e0366cb4495aa12641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:15 +0000
Subject: [PATCH 13/26] fix: the hub reads and changes its provider lists under
 their lock only

---
 hub.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hub.go b/hub.go
index 0696dba..9a13298 100644
--- a/hub.go
+++ b/hub.go
@@ -45,9 +45,6 @@ type stub struct {
 func (h *hub) Close() {
 	h.socket.Close()
 	h.socket = nil
-	h.docks = nil
-	h.assignPorts = nil
-	h.blackPorts = nil
 }
 
 func (h *hub) OnConnected(peer network.IPeer) {
@@ -94,7 +91,6 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 			for _, slot := range req.Slots {
 				h.docksMutex.Lock()
 				stubs, ok := h.docks[slot]
-				h.docksMutex.Unlock()
 				if ok {
 					for i := stubs.Front(); i != nil; i = i.Next() {
 						stub := i.Value.(*stub)
@@ -103,6 +99,7 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 						}
 					}
 				}
+				h.docksMutex.Unlock()
 			}
 		}
 	case cQueryRequest:
@@ -112,18 +109,19 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 				for {
 					h.docksMutex.Lock()
 					docks, ok := h.docks[req.Slot]
-					h.docksMutex.Unlock()
 					if ok {
 						// Loop from back to front, means the 'new' one will
 						// be serve at first.
 						for i := docks.Back(); i != nil; i = i.Prev() {
 							stub := i.Value.(*stub)
 							if stub.ready {
+								h.docksMutex.Unlock()
 								h.respondQueryImme(peer, stub.addr)
 								return
 							}
 						}
 					}
+					h.docksMutex.Unlock()
 				}
 			}()
 		}
-- 
2.43.0


From c301bcbb7efd94e14b4f60ca9cb5dcaf3854ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:24 +0000
Subject: [PATCH 14/26] fix: malformed frames are dropped instead of ending the
 process

---
 network/peer.go |  2 +-
 protocol.go     | 13 +++++++++++--
 serializer.go   | 20 +++++++++++++++++---
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/network/peer.go b/network/peer.go
index d7fae50..b3ea192 100644
--- a/network/peer.go
+++ b/network/peer.go
@@ -92,7 +92,7 @@ func (p *peer) run() {
 				}
 
 				obj := p.serializer.Unmarshal(slice)
-				if nil != p.sink {
+				if nil != p.sink && nil != obj {
 					p.sink.OnPacket(p, obj)
 				}
 			}
diff --git a/protocol.go b/protocol.go
index 63d7b5e..259f2d0 100644
--- a/protocol.go
+++ b/protocol.go
@@ -5,6 +5,7 @@
 package ferry
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/muguangyi/ferry/codec"
@@ -104,7 +105,11 @@ func (p *protoReady) Unmarshal(reader io.Reader) error {
 
 	p.Slots = make([]string, len(arr))
 	for i, iv := range arr {
-		p.Slots[i] = iv.(string)
+		slot, ok := iv.(string)
+		if !ok {
+			return fmt.Errorf("feature name expected, got %T", iv)
+		}
+		p.Slots[i] = slot
 	}
 
 	return nil
@@ -133,7 +138,11 @@ func (p *protoRegisterRequest) Unmarshal(reader io.Reader) error {
 
 	p.Slots = make([]string, len(arr))
 	for i, iv := range arr {
-		p.Slots[i] = iv.(string)
+		slot, ok := iv.(string)
+		if !ok {
+			return fmt.Errorf("feature name expected, got %T", iv)
+		}
+		p.Slots[i] = slot
 	}
 
 	return nil
diff --git a/serializer.go b/serializer.go
index 76bafb7..2d45299 100644
--- a/serializer.go
+++ b/serializer.go
@@ -65,27 +65,41 @@ func (s *serializer) Marshal(obj interface{}) []byte {
 }
 
 func (s *serializer) Unmarshal(data []byte) interface{} {
+	// NOTE: What peers send is not under control, drop malformed frames.
+	if len(data) < 4 {
+		log.Println("Incomplete frame!")
+		return nil
+	}
+
 	length := (int(data[0]) | int(data[1])<<8 | int(data[2])<<16 | int(data[3])<<24)
+	if len(data) < 4+length {
+		log.Println("Incomplete frame!")
+		return nil
+	}
 	body := data[4 : 4+length]
 
 	reader := bytes.NewReader(body)
 	any := codec.NewAny(nil)
 	err := any.Decode(reader)
 	if nil != err {
-		log.Fatal(err)
+		log.Println(err)
 		return nil
 	}
 	value, err := any.Uint8()
 	if nil != err {
-		log.Fatal(err)
+		log.Println(err)
 		return nil
 	}
 
 	id := cProtoType(value)
 	p := s.maker(id)
+	if nil == p {
+		log.Println("Unknown protocol:", id)
+		return nil
+	}
 	err = p.Unmarshal(reader)
 	if nil != err {
-		log.Fatal(err)
+		log.Println(err)
 		return nil
 	}
 
-- 
2.43.0


From 6381761c6e1fc552f294b892df7b15b5408c30a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:25 +0000
Subject: [PATCH 15/26] fix: concurrent sends never block on a full queue

---
 network/peer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/network/peer.go b/network/peer.go
index b3ea192..55eda56 100644
--- a/network/peer.go
+++ b/network/peer.go
@@ -52,11 +52,10 @@ func (p *peer) RemoteAddr() net.Addr {
 }
 
 func (p *peer) Send(obj interface{}) {
-	if len(p.sendPackets) == cap(p.sendPackets) {
-		return
+	select {
+	case p.sendPackets <- obj:
+	default:
 	}
-
-	p.sendPackets <- obj
 }
 
 func (p *peer) run() {
-- 
2.43.0


From 5fef16b8806c4c48e437c5c6fada09ae127840fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:25 +0000
Subject: [PATCH 16/26] fix: the mock connection keeps what does not fit the
 read buffer

---
 network/mock.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/network/mock.go b/network/mock.go
index e00f205..26cd704 100644
--- a/network/mock.go
+++ b/network/mock.go
@@ -146,14 +146,20 @@ type conn struct {
 	remoteAddr *addr
 	peer       *conn
 	chanbuf    chan []byte
+	remain     []byte // received, but not read yet
 }
 
 func (c *conn) Read(b []byte) (n int, err error) {
-	bytes := <-c.chanbuf
+	bytes := c.remain
+	if 0 == len(bytes) {
+		bytes = <-c.chanbuf
+	}
 	if nil == bytes {
 		return 0, fmt.Errorf("Target peer is closed!")
 	} else {
-		return copy(b, bytes), nil
+		n = copy(b, bytes)
+		c.remain = bytes[n:]
+		return n, nil
 	}
 }
 
-- 
2.43.0


From ef89bfabe2cc1c9b575272f2a08fff9c4609fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:26 +0000
Subject: [PATCH 17/26] fix: the mock connection does not share the written
 buffer

---
 network/mock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network/mock.go b/network/mock.go
index 26cd704..d455f2b 100644
--- a/network/mock.go
+++ b/network/mock.go
@@ -165,6 +165,10 @@ func (c *conn) Read(b []byte) (n int, err error) {
 
 func (c *conn) Write(b []byte) (n int, err error) {
 	if nil != c.peer {
+		if nil != b {
+			// The caller may reuse b once Write returns.
+			b = append(make([]byte, 0, len(b)), b...)
+		}
 		c.peer.chanbuf <- b
 		return len(b), nil
 	} else {
-- 
2.43.0


From 1b25f388889c56bd37f09c8f0d85df0461623609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:26 +0000
Subject: [PATCH 18/26] fix: mock listeners and ports are only used under their
 lock

---
 network/mock.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/network/mock.go b/network/mock.go
index d455f2b..03ec194 100644
--- a/network/mock.go
+++ b/network/mock.go
@@ -51,14 +51,19 @@ func (n *netMockTcp) Dial(network string, address string) (net.Conn, error) {
 		timeout := 1 * time.Second
 		for {
 			if 0 == c.status {
+				listenersMutex.Lock()
 				listener := listeners[address]
 				if nil != listener {
 					vport += 1
+					port := vport
+					listenersMutex.Unlock()
 					c.status = 1
 					c.localAddr.network = network
-					c.localAddr.address = fmt.Sprintf("0.0.0.0:%d", vport)
+					c.localAddr.address = fmt.Sprintf("0.0.0.0:%d", port)
 					c.remoteAddr = listener.address
 					listener.chanconn <- c
+				} else {
+					listenersMutex.Unlock()
 				}
 			} else if 2 == c.status {
 				break
@@ -85,8 +90,8 @@ func (n *netMockTcp) Dial(network string, address string) (net.Conn, error) {
 func reset() {
 	listenersMutex.Lock()
 	listeners = make(map[string]*listener)
-	listenersMutex.Unlock()
 	vport = 65535
+	listenersMutex.Unlock()
 }
 
 func formatAddr(addr string) string {
-- 
2.43.0


From f403dd3fe9ee9331a370e0bf4af15fe4207b6399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:01 +0000
Subject: [PATCH 19/26] fix: the serializer registry is only used under a lock

---
 network/API.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/network/API.go b/network/API.go
index c33d905..eb82407 100644
--- a/network/API.go
+++ b/network/API.go
@@ -70,7 +70,9 @@ func NewSocket(addr string, serializer string, sink ISocketSink) ISocket {
 	})
 	s := new(socket)
 	s.addr = addr
+	serializersMutex.Lock()
 	s.serializer = serializers[serializer]
+	serializersMutex.Unlock()
 	s.sink = sink
 
 	return s
@@ -84,10 +86,13 @@ func Mock(network string) {
 
 // ExtendSerializer extend serializer type with name and handling object.
 func ExtendSerializer(name string, serializer ISerializer) {
+	serializersMutex.Lock()
 	serializers[name] = serializer
+	serializersMutex.Unlock()
 }
 
 var (
-	serializers map[string]ISerializer = make(map[string]ISerializer)
-	once        sync.Once
+	serializersMutex sync.Mutex
+	serializers      map[string]ISerializer = make(map[string]ISerializer)
+	once             sync.Once
 )
-- 
2.43.0


From 7b5e303e10444e6419ce894281732cbaf9636daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:02 +0000
Subject: [PATCH 20/26] fix: concurrent remote calls have different indexes

---
 rpc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpc.go b/rpc.go
index 7c172c9..4159569 100644
--- a/rpc.go
+++ b/rpc.go
@@ -5,11 +5,15 @@
 package ferry
 
 import (
+	"sync/atomic"
 	"time"
 )
 
+// Index of the last RPC, unique in the process.
+var rpcIndex = time.Now().UnixNano()
+
 func newRpc() *rpc {
-	return &rpc{index: time.Now().UnixNano(), req: nil, ret: make(chan *ret, 1)}
+	return &rpc{index: atomic.AddInt64(&rpcIndex, 1), req: nil, ret: make(chan *ret, 1)}
 }
 
 type rpc struct {
-- 
2.43.0


From 68f6003878c27ee1b855a268fa20d9b2df2fd5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:02 +0000
Subject: [PATCH 21/26] fix: pending remote calls are used under locks, sent
 once and answered once

---
 dock.go | 22 ++++++++++++++++++++--
 rpc.go  | 12 ++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/dock.go b/dock.go
index 7039e6e..5dc247c 100644
--- a/dock.go
+++ b/dock.go
@@ -37,6 +37,7 @@ type dock struct {
 	slots            map[string]*slot
 	remoteSlotsMutex sync.Mutex
 	remoteSlots      map[string]network.IPeer
+	rpcsMutex        sync.Mutex
 	rpcs             map[int64]*rpc
 }
 
@@ -84,8 +85,14 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 			// Check if there is a RPC waiting for this Dock.
 			resp := pack.P.(*protoReady)
 			for _, slot := range resp.Slots {
+				d.rpcsMutex.Lock()
+				rpcs := make([]*rpc, 0, len(d.rpcs))
 				for _, r := range d.rpcs {
-					if r.req != nil && r.req.Slot == slot {
+					rpcs = append(rpcs, r)
+				}
+				d.rpcsMutex.Unlock()
+				for _, r := range rpcs {
+					if r.waits(d, slot) {
 						d.commit(r)
 					}
 				}
@@ -176,7 +183,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 	case cRpcResponse:
 		{
 			resp := pack.P.(*protoRpcResponse)
+			d.rpcsMutex.Lock()
 			rpc := d.rpcs[resp.Index]
+			delete(d.rpcs, resp.Index)
+			d.rpcsMutex.Unlock()
 			if nil != rpc {
 				go func() {
 					rpc.callback(&ret{
@@ -189,7 +199,6 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 							return nil
 						}(),
 					})
-					delete(d.rpcs, resp.Index)
 				}()
 			}
 		}
@@ -227,7 +236,9 @@ func (d *dock) call(name string, method string, args ...interface{}) error {
 		return chancall.NewCaller(target.callee).Call(method, args...)
 	} else {
 		rpc := newRpc()
+		d.rpcsMutex.Lock()
 		d.rpcs[rpc.index] = rpc
+		d.rpcsMutex.Unlock()
 		return rpc.call(d, name, method, args...)
 	}
 }
@@ -238,7 +249,9 @@ func (d *dock) callWithResult(name string, method string, args ...interface{}) (
 		return chancall.NewCaller(target.callee).CallWithResult(method, args...)
 	} else {
 		rpc := newRpc()
+		d.rpcsMutex.Lock()
 		d.rpcs[rpc.index] = rpc
+		d.rpcsMutex.Unlock()
 		return rpc.callWithResult(d, name, method, args...)
 	}
 }
@@ -247,6 +260,11 @@ func (d *dock) commit(rpc *rpc) {
 	d.remoteSlotsMutex.Lock()
 	defer d.remoteSlotsMutex.Unlock()
 
+	// Another routine could have sent it in the meantime.
+	if nil == rpc.req {
+		return
+	}
+
 	peer, ok := d.remoteSlots[rpc.req.Slot]
 	if ok {
 		peer.Send(&packer{
diff --git a/rpc.go b/rpc.go
index 4159569..8309f29 100644
--- a/rpc.go
+++ b/rpc.go
@@ -28,6 +28,7 @@ type ret struct {
 }
 
 func (r *rpc) call(dock *dock, name string, method string, args ...interface{}) error {
+	dock.remoteSlotsMutex.Lock()
 	r.req = &protoRpcRequest{
 		Index:      r.index,
 		Slot:       name,
@@ -35,6 +36,7 @@ func (r *rpc) call(dock *dock, name string, method string, args ...interface{})
 		Args:       args,
 		WithResult: false,
 	}
+	dock.remoteSlotsMutex.Unlock()
 
 	dock.commit(r)
 
@@ -45,6 +47,7 @@ func (r *rpc) call(dock *dock, name string, method string, args ...interface{})
 }
 
 func (r *rpc) callWithResult(dock *dock, name string, method string, args ...interface{}) ([]interface{}, error) {
+	dock.remoteSlotsMutex.Lock()
 	r.req = &protoRpcRequest{
 		Index:      r.index,
 		Slot:       name,
@@ -52,6 +55,7 @@ func (r *rpc) callWithResult(dock *dock, name string, method string, args ...int
 		Args:       args,
 		WithResult: true,
 	}
+	dock.remoteSlotsMutex.Unlock()
 
 	dock.commit(r)
 
@@ -61,6 +65,14 @@ func (r *rpc) callWithResult(dock *dock, name string, method string, args ...int
 	return ret.result, ret.err
 }
 
+// waits reports if the request is still to be sent to a provider of slot.
+func (r *rpc) waits(dock *dock, slot string) bool {
+	dock.remoteSlotsMutex.Lock()
+	defer dock.remoteSlotsMutex.Unlock()
+
+	return nil != r.req && r.req.Slot == slot
+}
+
 func (r *rpc) callback(ret *ret) {
 	r.ret <- ret
 }
-- 
2.43.0


From 931fae42cca00c86cc5fee2842e50af2b50e2201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:03 +0000
Subject: [PATCH 22/26] fix: requests for features the dock does not carry are
 answered with an error

---
 dock.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dock.go b/dock.go
index 5dc247c..40d3ed5 100644
--- a/dock.go
+++ b/dock.go
@@ -178,6 +178,16 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 					}
 					peer.Send(resp)
 				}()
+			} else {
+				peer.Send(&packer{
+					Id: cRpcResponse,
+					P: &protoRpcResponse{
+						Index:  req.Index,
+						Slot:   req.Slot,
+						Method: req.Method,
+						Err:    fmt.Sprintf("Feature [%s] is not available!", req.Slot),
+					},
+				})
 			}
 		}
 	case cRpcResponse:
-- 
2.43.0


From 69404db48e66933531c3ba0e8fc365b9bb391744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:03 +0000
Subject: [PATCH 23/26] fix: instances started at the same time are all closed,
 and once

---
 runtime.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/runtime.go b/runtime.go
index 80428ab..6974e42 100644
--- a/runtime.go
+++ b/runtime.go
@@ -8,16 +8,22 @@ import (
 	"log"
 	"os"
 	"os/signal"
+	"sync"
 )
 
 type instance interface {
 	Close()
 }
 
-var insts []instance = make([]instance, 0)
+var (
+	instsMutex sync.Mutex
+	insts      []instance = make([]instance, 0)
+)
 
 func wait(inst instance) {
+	instsMutex.Lock()
 	insts = append(insts, inst)
+	instsMutex.Unlock()
 
 	c := make(chan os.Signal, 1)
 	signal.Notify(c, os.Interrupt, os.Kill)
@@ -27,8 +33,12 @@ func wait(inst instance) {
 }
 
 func destroy() {
-	for i := len(insts) - 1; i >= 0; i-- {
-		insts[i].Close()
+	instsMutex.Lock()
+	closing := insts
+	insts = nil
+	instsMutex.Unlock()
+
+	for i := len(closing) - 1; i >= 0; i-- {
+		closing[i].Close()
 	}
-	insts = insts[:0]
 }
-- 
2.43.0


From 9c6a512b3a439a2fad28b915f120319eec30b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:59 +0000
Subject: [PATCH 24/26] fix: writing no bytes to a mock connection does not
 close it

---
 network/mock.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/network/mock.go b/network/mock.go
index 03ec194..0026cd4 100644
--- a/network/mock.go
+++ b/network/mock.go
@@ -170,11 +170,8 @@ func (c *conn) Read(b []byte) (n int, err error) {
 
 func (c *conn) Write(b []byte) (n int, err error) {
 	if nil != c.peer {
-		if nil != b {
-			// The caller may reuse b once Write returns.
-			b = append(make([]byte, 0, len(b)), b...)
-		}
-		c.peer.chanbuf <- b
+		// The caller may reuse b once Write returns.
+		c.peer.chanbuf <- append(make([]byte, 0, len(b)), b...)
 		return len(b), nil
 	} else {
 		return 0, fmt.Errorf("Conn is nil!")
@@ -182,7 +179,9 @@ func (c *conn) Write(b []byte) (n int, err error) {
 }
 
 func (c *conn) Close() error {
-	c.Write(nil)
+	if nil != c.peer {
+		c.peer.chanbuf <- nil
+	}
 	c.peer = nil
 	return nil
 }
-- 
2.43.0


From 8a7b90717a1243ee39bef15edb8ca58c003fe5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:26 +0000
Subject: [PATCH 25/26] fix: the hub's socket is the dock's first one even if
 the hub answers at once

---
 dock.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dock.go b/dock.go
index 40d3ed5..eb4df88 100644
--- a/dock.go
+++ b/dock.go
@@ -218,9 +218,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 func (d *dock) run(hubAddr string) {
 	network.ExtendSerializer("ferry", newSerializer())
 
+	// The hub could answer before Dial returns, its socket has to be the first one by then.
 	socket := network.NewSocket(hubAddr, "ferry", d)
-	socket.Dial()
 	d.sockets = append(d.sockets, socket)
+	socket.Dial()
 }
 
 func (d *dock) collect() []string {
-- 
2.43.0


From 79907903426a2c0c591916e1573c82dd4620fc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:38 +0000
Subject: [PATCH 26/26] fix: a message kind beyond 8 bits is unknown, not
 truncated to another kind

---
 serializer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/serializer.go b/serializer.go
index 2d45299..7381804 100644
--- a/serializer.go
+++ b/serializer.go
@@ -8,6 +8,7 @@ import (
 	"bytes"
 	"io"
 	"log"
+	"math"
 
 	"github.com/muguangyi/ferry/codec"
 	"github.com/muguangyi/ferry/network"
@@ -85,11 +86,15 @@ func (s *serializer) Unmarshal(data []byte) interface{} {
 		log.Println(err)
 		return nil
 	}
-	value, err := any.Uint8()
+	value, err := any.Uint64()
 	if nil != err {
 		log.Println(err)
 		return nil
 	}
+	if value > math.MaxUint8 {
+		log.Println("Unknown protocol:", value)
+		return nil
+	}
 
 	id := cProtoType(value)
 	p := s.maker(id)
-- 
2.43.0

