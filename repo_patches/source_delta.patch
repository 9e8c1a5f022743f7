From c28caf8b5a194f6350b23c4c36f7e14f2b3af57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 01/27] fix: interface fields and elements hold non-struct
 concretes without a field key

---
 binary-decode.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 8259e91..862f5a8 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -367,13 +367,17 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	// Only a root value (bare) was written by MarshalBinaryBare, which puts a
+	// field key (and, for ByteLength types, a length) before non-struct values.
+	// The contents of interface fields and elements have neither.
+	cbare := true
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
 	if !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
 		len(bz) > 0 &&
 		(crv.Kind() != reflect.Interface) &&
 		isKnownType &&
-		fopts.BinFieldNum == 1 {
+		bare {
 		var (
 			fnum      uint32
 			typ       Typ3
@@ -392,10 +396,11 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 				typWanted, fnum, cinfo.Type, typ)
 		}
 		slide(&bz, &n, nFnumTyp3)
+		cbare = typWanted != Typ3ByteLength
 	}
 
 	// Decode into the concrete type.
-	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, true)
+	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
 	if slide(&bz, &n, _n) && err != nil {
 		rv.Set(irvSet) // Helps with debugging
 		return
-- 
2.43.0


From faf955a438d9c69d6bb64b22065fe44a1d838eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 02/27] fix: encode lists of byte slices and byte arrays
 instead of dropping them

---
 binary-encode.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/binary-encode.go b/binary-encode.go
index d10ebfc..78bba05 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -70,19 +70,20 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 		} else if kind := info.Type.Elem().Kind(); kind == reflect.Slice || kind == reflect.Array {
 			// for proto3 compatibility, we do not allow multidimensional arrays,
 			// unless the elements involved are bytes (e.g. [][]byte)
-			if info.Type.Elem().Elem().Kind() != reflect.Uint8 { // byte is an alias for uint8
-				elem := info.Type.Elem()
-				for {
-					if elem.Kind() == reflect.Slice || elem.Kind() == reflect.Array {
-						elem = elem.Elem()
-						continue
-					}
-					if elem.Kind() == reflect.Uint8 { // byte is an alias for uint8
-						break
-					}
-					err = errors.New("multidimensional arrays not allowed")
+			elem := info.Type.Elem()
+			for {
+				if elem.Kind() == reflect.Slice || elem.Kind() == reflect.Array {
+					elem = elem.Elem()
+					continue
+				}
+				if elem.Kind() == reflect.Uint8 { // byte is an alias for uint8
 					break
 				}
+				err = errors.New("multidimensional arrays not allowed")
+				break
+			}
+			if err == nil {
+				err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 			}
 		} else {
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
@@ -108,6 +109,9 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 				err = errors.New("multidimensional slices not allowed")
 				break
 			}
+			if err == nil {
+				err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
+			}
 		default:
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
-- 
2.43.0


From 133a7be7bd1633d17c93d423680fa8c885901775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 03/27] fix: number the elements of root lists 1, as the
 decoder expects

---
 amino.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amino.go b/amino.go
index 9716ae7..ae38710 100644
--- a/amino.go
+++ b/amino.go
@@ -219,7 +219,7 @@ func (cdc *Codec) MarshalBinaryBare(o interface{}) ([]byte, error) {
 		writeEmpty := false
 		typ3 := typeToTyp3(info.Type, FieldOptions{})
 		bare := typ3 != Typ3ByteLength
-		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{}, rv, writeEmpty, bare); err != nil {
+		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{BinFieldNum: 1}, rv, writeEmpty, bare); err != nil {
 			return nil, err
 		}
 		bz = buf.Bytes()
-- 
2.43.0


From 4d0531b7d280b1f02d68cf4528d8e7d1cfb36234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 04/27] fix: encode and decode byte slices and arrays whose
 element is a named byte type

---
 binary-decode.go | 4 ++--
 binary-encode.go | 5 +++--
 json-decode.go   | 3 ++-
 json-encode.go   | 7 ++++---
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 862f5a8..5915cba 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -455,7 +455,7 @@ func (cdc *Codec) decodeReflectBinaryByteArray(bz []byte, info *TypeInfo, rv ref
 	}
 
 	// Copy read byteslice to rv array.
-	reflect.Copy(rv, reflect.ValueOf(byteslice))
+	copy(rv.Slice(0, length).Bytes(), byteslice)
 	return n, err
 }
 
@@ -628,7 +628,7 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 		// NOTE: We prefer nil slices.
 		rv.Set(info.ZeroValue)
 	} else {
-		rv.Set(reflect.ValueOf(byteslice))
+		rv.SetBytes(byteslice)
 	}
 	return n, err
 }
diff --git a/binary-encode.go b/binary-encode.go
index 78bba05..b0d142c 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -294,8 +294,9 @@ func (cdc *Codec) encodeReflectBinaryByteArray(w io.Writer, info *TypeInfo, rv r
 	if rv.CanAddr() {
 		byteslice = rv.Slice(0, length).Bytes()
 	} else {
-		byteslice = make([]byte, length)
-		reflect.Copy(reflect.ValueOf(byteslice), rv) // XXX: looks expensive!
+		arv := reflect.New(rv.Type()).Elem()
+		arv.Set(rv) // XXX: looks expensive!
+		byteslice = arv.Slice(0, length).Bytes()
 	}
 
 	// Write byte-length prefixed byteslice.
diff --git a/json-decode.go b/json-decode.go
index d6bc0ff..9435ae8 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -257,8 +257,9 @@ func (cdc *Codec) decodeReflectJSONArray(bz []byte, info *TypeInfo, rv reflect.V
 		if len(buf) != length {
 			err = fmt.Errorf("decodeReflectJSONArray: byte-length mismatch, got %v want %v",
 				len(buf), length)
+			return
 		}
-		reflect.Copy(rv, reflect.ValueOf(buf))
+		copy(rv.Slice(0, length).Bytes(), buf)
 		return
 
 	default: // General case.
diff --git a/json-encode.go b/json-encode.go
index 1d2778c..fd698f9 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -217,11 +217,12 @@ func (cdc *Codec) encodeReflectJSONList(w io.Writer, info *TypeInfo, rv reflect.
 		// NOTE: Base64 encoding preserves the exact original number of bytes.
 		// Get readable slice of bytes.
 		var bz []byte
-		if rv.CanAddr() {
+		if rv.Kind() == reflect.Slice || rv.CanAddr() {
 			bz = rv.Slice(0, length).Bytes()
 		} else {
-			bz = make([]byte, length)
-			reflect.Copy(reflect.ValueOf(bz), rv) // XXX: looks expensive!
+			arv := reflect.New(rv.Type()).Elem()
+			arv.Set(rv) // XXX: looks expensive!
+			bz = arv.Slice(0, length).Bytes()
 		}
 		var jsonBytes []byte
 		jsonBytes, err = json.Marshal(bz) // base64 encode
-- 
2.43.0


From 92fb655cd7a3534cf9c6593a3d2d995c4cbe50b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 05/27] fix: a nested frame is consumed exactly, whatever the
 form of its length

---
 binary-decode.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 5915cba..8cb9f74 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -341,7 +341,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -493,7 +493,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -587,6 +587,10 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 				err = fmt.Errorf("unexpected field number %v after repeated field number %v", fnum, fopts.BinFieldNum)
 				return
 			}
+			if !bare {
+				err = errors.New("bytes left over after reading array contents")
+				return
+			}
 		}
 	}
 	return n, err
@@ -671,7 +675,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -759,6 +763,10 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			}
 			srv = reflect.Append(srv, erv)
 		}
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading slice contents")
+			return
+		}
 	}
 	rv.Set(srv)
 	return n, err
@@ -789,7 +797,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -802,6 +810,10 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 		if slide(&bz, &n, _n) && err != nil {
 			return
 		}
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading time contents")
+			return
+		}
 		rv.Set(reflect.ValueOf(t))
 
 	default:
-- 
2.43.0


From 3563e6ea73b3033f502418aa2ecb4b02360a3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 06/27] fix: reject varints that overflow uint32 instead of
 truncating them

---
 binary-decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 8cb9f74..72ec49c 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -226,6 +226,10 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
+			if num > math.MaxUint32 {
+				err = ErrOverflowInt
+				return
+			}
 			rv.SetUint(num)
 		}
 		return
-- 
2.43.0


From 63defaf2217fc83b9c06d36e4865800ef07077a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 07/27] fix: release the codec lock when an unsupported type
 panics

---
 codec.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/codec.go b/codec.go
index b8b4c9b..117590b 100644
--- a/codec.go
+++ b/codec.go
@@ -364,10 +364,9 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 }
 
 func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error) {
-	// We do not use defer cdc.mtx.Unlock() here due to performance overhead of
-	// defer in go1.11 (and prior versions). Ensure new code paths unlock the
-	// mutex.
 	cdc.mtx.Lock() // requires wlock because we might set.
+	// Deferred, since unsupported types panic while their info is constructed.
+	defer cdc.mtx.Unlock()
 
 	// Dereference pointer type.
 	for rt.Kind() == reflect.Ptr {
@@ -378,14 +377,12 @@ func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error)
 	if !ok {
 		if rt.Kind() == reflect.Interface {
 			err = fmt.Errorf("unregistered interface %v", rt)
-			cdc.mtx.Unlock()
 			return
 		}
 
 		info = cdc.newTypeInfoUnregistered(rt)
 		cdc.setTypeInfoNolock(info)
 	}
-	cdc.mtx.Unlock()
 	return info, nil
 }
 
-- 
2.43.0


From 7374d9f3fa5187b62ec15be2bfafd056fde77517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 08/27] fix: DeepCopy copies slices and map values, nested nil
 pointers and addressable repr types

---
 deep_copy.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 8e9a157..2df8777 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -43,7 +43,7 @@ func _deepCopy(src, dst reflect.Value) {
 	switch src.Kind() {
 	case reflect.Ptr:
 		cpy := reflect.New(src.Type().Elem())
-		_deepCopy(src.Elem(), cpy.Elem())
+		deepCopy(src.Elem(), cpy.Elem())
 		dst.Set(cpy)
 		return
 
@@ -83,7 +83,7 @@ func _deepCopy(src, dst reflect.Value) {
 			cpy := reflect.MakeSlice(
 				src.Type(), src.Len(), src.Len())
 			reflect.Copy(cpy, src)
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		default:
 			cpy := reflect.MakeSlice(
@@ -93,7 +93,7 @@ func _deepCopy(src, dst reflect.Value) {
 				ecpy := cpy.Index(i)
 				deepCopy(esrc, ecpy)
 			}
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		}
 
@@ -119,7 +119,9 @@ func _deepCopy(src, dst reflect.Value) {
 		keys := src.MapKeys()
 		for _, key := range keys {
 			val := src.MapIndex(key)
-			cpy.SetMapIndex(key, val)
+			vcpy := reflect.New(val.Type()).Elem()
+			deepCopy(val, vcpy)
+			cpy.SetMapIndex(key, vcpy)
 		}
 		dst.Set(cpy)
 		return
@@ -199,8 +201,6 @@ func callAminoCopy(src, dst reflect.Value) bool {
 	if !canAminoCopy(src) {
 		return false
 	}
-	cpy := reflect.New(src.Type().Elem())
-	dst.Set(cpy)
 	ma := src.MethodByName("MarshalAmino")
 	ua := dst.MethodByName("UnmarshalAmino")
 	outs := ma.Call(nil)
-- 
2.43.0


From ad81ccad117468eb2b19c38f62734870d2747a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 09/27] fix: the length-prefixed reader respects maxSize and
 survives short reads and hostile prefixes

---
 amino.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/amino.go b/amino.go
index ae38710..d43dedc 100644
--- a/amino.go
+++ b/amino.go
@@ -297,7 +297,7 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	var l int64
 	var buf [binary.MaxVarintLen64]byte
 	for i := 0; i < len(buf); i++ {
-		_, err = r.Read(buf[i : i+1])
+		_, err = io.ReadFull(r, buf[i:i+1])
 		if err != nil {
 			return
 		}
@@ -305,15 +305,17 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 		if buf[i]&0x80 == 0 {
 			break
 		}
-		if n >= maxSize {
+		if maxSize > 0 && n >= maxSize {
 			err = errors.Errorf(
 				"read overflow, maxSize is %v but uvarint(length-prefix) is itself greater than maxSize",
 				maxSize,
 			)
+			return
 		}
 	}
-	u64, _ := binary.Uvarint(buf[:])
-	if err != nil {
+	u64, un := binary.Uvarint(buf[:])
+	if un <= 0 {
+		err = errors.Errorf("Error reading msg byte-length prefix: got code %v", un)
 		return
 	}
 	if maxSize > 0 {
@@ -331,21 +333,26 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	}
 	l = int64(u64)
 	if l < 0 {
-		_ = errors.Errorf( //nolint:errcheck
+		err = errors.Errorf(
 			"read overflow, this implementation can't read this because, why would anyone have this much data? Hello from 2018",
 		)
+		return
 	}
 
 	// Read that many bytes.
-	var bz = make([]byte, l)
-	_, err = io.ReadFull(r, bz)
+	// NOTE: l is not to be trusted, so allocate as the bytes arrive.
+	var body bytes.Buffer
+	nBody, err := io.CopyN(&body, r, l)
 	if err != nil {
+		if err == io.EOF && nBody > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
 	n += l
 
 	// Decode.
-	err = cdc.UnmarshalBinaryBare(bz, ptr)
+	err = cdc.UnmarshalBinaryBare(body.Bytes(), ptr)
 	return n, err
 }
 
-- 
2.43.0


From 13a8bb65ed6ab1cd3708d1c2e03dcec18da9a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 10/27] fix: a rejected registration leaves the codec as it
 was, also when it races with Seal

---
 codec.go | 84 +++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 28 deletions(-)

diff --git a/codec.go b/codec.go
index 117590b..5b79c1f 100644
--- a/codec.go
+++ b/codec.go
@@ -168,6 +168,7 @@ func (cdc *Codec) RegisterInterface(ptr interface{}, iopts *InterfaceOptions) {
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock()
 		cdc.collectImplementersNolock(info)
 		err := cdc.checkConflictsInPrioNolock(info)
 		if err != nil {
@@ -237,6 +238,8 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock()
+		cdc.assertNewTypeInfoNolock(info)
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
 	}()
@@ -330,25 +333,24 @@ func (cdc *Codec) assertNotSealed() {
 	cdc.mtx.Lock()
 	defer cdc.mtx.Unlock()
 
+	cdc.assertNotSealedNolock()
+}
+
+func (cdc *Codec) assertNotSealedNolock() {
 	if cdc.sealed {
 		panic("codec sealed")
 	}
 }
 
-func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
-
+// Panics if info conflicts with one that was set before.
+func (cdc *Codec) assertNewTypeInfoNolock(info *TypeInfo) {
 	if info.Type.Kind() == reflect.Ptr {
 		panic(fmt.Sprintf("unexpected pointer type"))
 	}
 	if _, ok := cdc.typeInfos[info.Type]; ok {
 		panic(fmt.Sprintf("TypeInfo already exists for %v", info.Type))
 	}
-
-	cdc.typeInfos[info.Type] = info
-	if info.Type.Kind() == reflect.Interface {
-		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
-	} else if info.Registered {
-		cdc.concreteInfos = append(cdc.concreteInfos, info)
+	if info.Type.Kind() != reflect.Interface && info.Registered {
 		disfix := info.GetDisfix()
 		if existing, ok := cdc.disfixToTypeInfo[disfix]; ok {
 			panic(fmt.Sprintf("disfix <%X> already registered for %v", disfix, existing.Type))
@@ -356,6 +358,18 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 		if existing, ok := cdc.nameToTypeInfo[info.Name]; ok {
 			panic(fmt.Sprintf("name <%s> already registered for %v", info.Name, existing.Type))
 		}
+	}
+}
+
+func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
+	cdc.assertNewTypeInfoNolock(info)
+
+	cdc.typeInfos[info.Type] = info
+	if info.Type.Kind() == reflect.Interface {
+		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
+	} else if info.Registered {
+		cdc.concreteInfos = append(cdc.concreteInfos, info)
+		disfix := info.GetDisfix()
 		cdc.disfixToTypeInfo[disfix] = info
 		cdc.nameToTypeInfo[info.Name] = info
 		//cdc.prefixToTypeInfos[prefix] =
@@ -637,43 +651,57 @@ func (cdc *Codec) checkConflictsInPrioNolock(iinfo *TypeInfo) error {
 			continue
 		}
 		for _, cinfo := range cinfos {
-			var inPrio = false
-			for _, disfix := range iinfo.InterfaceInfo.Priority {
-				if cinfo.GetDisfix() == disfix {
-					inPrio = true
-				}
-			}
-			if !inPrio {
-				return errors.Errorf("%v conflicts with %v other(s). Add it to the priority list for %v.",
-					cinfo.Type, len(cinfos), iinfo.Type)
+			if err := checkInPrio(iinfo, cinfo, len(cinfos)); err != nil {
+				return err
 			}
 		}
 	}
 	return nil
 }
 
+// Returns an error if cinfo isn't in the priority list of iinfo.
+func checkInPrio(iinfo, cinfo *TypeInfo, numImpls int) error {
+	var inPrio = false
+	for _, disfix := range iinfo.InterfaceInfo.Priority {
+		if cinfo.GetDisfix() == disfix {
+			inPrio = true
+		}
+	}
+	if !inPrio {
+		return errors.Errorf("%v conflicts with %v other(s). Add it to the priority list for %v.",
+			cinfo.Type, numImpls, iinfo.Type)
+	}
+	return nil
+}
+
 func (cdc *Codec) addCheckConflictsWithConcreteNolock(cinfo *TypeInfo) {
 
 	// Iterate over registered interfaces that this "implements".
 	// "Implement" in quotes because we only consider the pointer, for extra
 	// safety.
+	// First check that all conflicts are in `.Priority`, for every interface,
+	// so that a conflict leaves all of them as they were.
 	for _, iinfo := range cdc.interfaceInfos {
 		if !cinfo.PtrToType.Implements(iinfo.Type) {
 			continue
 		}
+		impls := iinfo.Implementers[cinfo.Prefix]
+		if len(impls) == 0 {
+			continue
+		}
+		for _, cinfo := range append(impls[:len(impls):len(impls)], cinfo) {
+			if err := checkInPrio(iinfo, cinfo, len(impls)+1); err != nil {
+				panic(err)
+			}
+		}
+	}
 
-		// Add cinfo to iinfo.Implementers.
-		var origImpls = iinfo.Implementers[cinfo.Prefix]
-		iinfo.Implementers[cinfo.Prefix] = append(origImpls, cinfo)
-
-		// Finally, check that all conflicts are in `.Priority`.
-		// NOTE: This could be optimized, but it's non-trivial.
-		err := cdc.checkConflictsInPrioNolock(iinfo)
-		if err != nil {
-			// Return to previous state.
-			iinfo.Implementers[cinfo.Prefix] = origImpls
-			panic(err)
+	// Then add cinfo to iinfo.Implementers.
+	for _, iinfo := range cdc.interfaceInfos {
+		if !cinfo.PtrToType.Implements(iinfo.Type) {
+			continue
 		}
+		iinfo.Implementers[cinfo.Prefix] = append(iinfo.Implementers[cinfo.Prefix], cinfo)
 	}
 }
 
-- 
2.43.0


From d6dbf1fba6db2a41063ac748a8ef31d8003aecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 11/27] fix: escape registered names in the JSON type wrapper

---
 amino.go       |  2 +-
 json-encode.go | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/amino.go b/amino.go
index d43dedc..0a3d5df 100644
--- a/amino.go
+++ b/amino.go
@@ -513,7 +513,7 @@ func (cdc *Codec) MarshalJSON(o interface{}) ([]byte, error) {
 
 	// Write the disfix wrapper if it is a registered concrete type.
 	if info.Registered {
-		err = writeStr(w, _fmt(`{"type":"%s","value":`, info.Name))
+		err = writeTypeWrapper(w, info.Name)
 		if err != nil {
 			return nil, err
 		}
diff --git a/json-encode.go b/json-encode.go
index fd698f9..97daa8b 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -171,7 +171,7 @@ func (cdc *Codec) encodeReflectJSONInterface(w io.Writer, iinfo *TypeInfo, rv re
 
 	// Write interface wrapper.
 	// Part 1:
-	err = writeStr(w, _fmt(`{"type":"%s","value":`, cinfo.Name))
+	err = writeTypeWrapper(w, cinfo.Name)
 	if err != nil {
 		return
 	}
@@ -440,8 +440,17 @@ func writeStr(w io.Writer, s string) (err error) {
 	return
 }
 
-func _fmt(s string, args ...interface{}) string {
-	return fmt.Sprintf(s, args...)
+// Writes the first part of the wrapper for registered concrete types.
+func writeTypeWrapper(w io.Writer, name string) (err error) {
+	err = writeStr(w, `{"type":`)
+	if err != nil {
+		return
+	}
+	err = invokeStdlibJSONMarshal(w, name)
+	if err != nil {
+		return
+	}
+	return writeStr(w, `,"value":`)
 }
 
 // For json:",omitempty".
-- 
2.43.0


From 3a34eb6bf1013b700df79f24bed1c67cacf9f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 12/27] fix: write JSON map entries in key order

---
 json-encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index 97daa8b..faaf2c9 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"sort"
 	"time"
 
 	"github.com/pkg/errors"
@@ -368,7 +369,9 @@ func (cdc *Codec) encodeReflectJSONMap(w io.Writer, info *TypeInfo, rv reflect.V
 	}
 
 	var writeComma = false
-	for _, krv := range rv.MapKeys() {
+	var krvs = rv.MapKeys()
+	sort.Slice(krvs, func(i, j int) bool { return krvs[i].String() < krvs[j].String() })
+	for _, krv := range krvs {
 		// Get dereferenced object value and info.
 		var vrv, _, isNil = derefPointers(rv.MapIndex(krv))
 
-- 
2.43.0


From b13fb005bfa6bb2b2cbe1e9686592ee4cf5c30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 13/27] fix: malformed or mistyped input is an error, not a
 panic, when decoding interfaces and JSON

---
 binary-decode.go |  9 ++++++---
 json-decode.go   |  9 ++++++---
 reflect.go       | 15 +++++++++++++++
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 72ec49c..68d6b5c 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -370,7 +370,10 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 	}
 
 	// Construct the concrete type.
-	var crv, irvSet = constructConcreteType(cinfo)
+	crv, irvSet, err := constructConcreteTypeFor(cinfo, rv.Type())
+	if err != nil {
+		return
+	}
 	// Only a root value (bare) was written by MarshalBinaryBare, which puts a
 	// field key (and, for ByteLength types, a length) before non-struct values.
 	// The contents of interface fields and elements have neither.
@@ -420,8 +423,8 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 	// We need to set here, for when !PointerPreferred and the type
 	// is say, an array of bytes (e.g. [32]byte), then we must call
 	// rv.Set() *after* the value was acquired.
-	// NOTE: rv.Set() should succeed because it was validated
-	// already during Register[Interface/Concrete].
+	// NOTE: rv.Set() succeeds because constructConcreteTypeFor() checked
+	// that the concrete type implements the interface.
 	rv.Set(irvSet)
 	return n, err
 }
diff --git a/json-decode.go b/json-decode.go
index 9435ae8..7525dfa 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -116,7 +116,7 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 	case reflect.Int64, reflect.Int:
 		fallthrough
 	case reflect.Uint64, reflect.Uint:
-		if bz[0] != '"' || bz[len(bz)-1] != '"' {
+		if len(bz) < 2 || bz[0] != '"' || bz[len(bz)-1] != '"' {
 			err = errors.Errorf(
 				"invalid character -- Amino:JSON int/int64/uint/uint64 expects quoted values for javascript numeric support, got: %v", // nolint: lll
 				string(bz),
@@ -216,7 +216,10 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 	}
 
 	// Construct the concrete type.
-	var crv, irvSet = constructConcreteType(cinfo)
+	crv, irvSet, err := constructConcreteTypeFor(cinfo, rv.Type())
+	if err != nil {
+		return
+	}
 
 	// Decode into the concrete type.
 	err = cdc.decodeReflectJSON(bz, cinfo, crv, fopts)
@@ -468,7 +471,7 @@ func (cdc *Codec) decodeReflectJSONMap(bz []byte, info *TypeInfo, rv reflect.Val
 		}
 
 		// And set.
-		krv := reflect.New(reflect.TypeOf("")).Elem()
+		krv := reflect.New(krt).Elem()
 		krv.SetString(key)
 		mrv.SetMapIndex(krv, vrv)
 	}
diff --git a/reflect.go b/reflect.go
index ab95603..8a63b07 100644
--- a/reflect.go
+++ b/reflect.go
@@ -188,6 +188,21 @@ func constructConcreteType(cinfo *TypeInfo) (crv, irvSet reflect.Value) {
 	return
 }
 
+// Like constructConcreteType, but for a value to be set on an interface of
+// type irt. If only the pointer implements irt, that is what irvSet is.
+// Returns an error if neither does.
+func constructConcreteTypeFor(cinfo *TypeInfo, irt reflect.Type) (crv, irvSet reflect.Value, err error) {
+	crv, irvSet = constructConcreteType(cinfo)
+	if irvSet.Type().Implements(irt) {
+		return
+	}
+	irvSet = crv.Addr()
+	if !irvSet.Type().Implements(irt) {
+		err = fmt.Errorf("%v does not implement %v", cinfo.Type, irt)
+	}
+	return
+}
+
 // CONTRACT: rt.Kind() != reflect.Ptr
 func typeToTyp3(rt reflect.Type, opts FieldOptions) Typ3 {
 	switch rt.Kind() {
-- 
2.43.0


From df61d5113e80e5da7381f3fcb94863f4bded3f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 14/27] fix: decoding into a non-nil pointer to a list does not
 panic

---
 amino.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index 0a3d5df..f180c53 100644
--- a/amino.go
+++ b/amino.go
@@ -478,8 +478,8 @@ func isPointerToStructOrToRepeatedStruct(rv reflect.Value, rt reflect.Type) bool
 		return rt.Kind() == reflect.Slice && rt.Elem().Kind() == reflect.Struct ||
 			rt.Kind() == reflect.Array && rt.Elem().Kind() == reflect.Struct
 	}
-	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Elem().Kind() == reflect.Struct
-	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Elem().Kind() == reflect.Struct
+	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Type().Elem().Kind() == reflect.Struct
+	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Type().Elem().Kind() == reflect.Struct
 	return isRepeatedStructAr || isRepeatedStructSl
 }
 
-- 
2.43.0


From 9dd2614e3837cdc196361497b0ca1e9443c01866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 15/27] fix: write_empty fields may be nil pointers or nil
 interfaces

---
 binary-decode.go | 5 +++++
 binary-encode.go | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 68d6b5c..c93fee3 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -347,6 +347,11 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		// This is a trick for debuggability -- we slide on &n more later.
 		n += _n - len(buf)
 		bz = buf
+		if len(bz) == 0 {
+			// This is how a nil interface is written.
+			rv.Set(iinfo.ZeroValue)
+			return
+		}
 	}
 
 	// Consume disambiguation / prefix bytes.
diff --git a/binary-encode.go b/binary-encode.go
index b0d142c..d8c9540 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -447,9 +447,10 @@ func (cdc *Codec) encodeReflectBinaryStruct(w io.Writer, info *TypeInfo, rv refl
 			var frv = rv.Field(field.Index)
 			var frvIsPtr = frv.Kind() == reflect.Ptr
 			var dfrv, isDefault = isDefaultValue(frv)
-			if isDefault && !field.WriteEmpty {
+			if isDefault && (!field.WriteEmpty || !dfrv.IsValid()) {
 				// Do not encode default value fields
-				// (except when `amino:"write_empty"` is set).
+				// (except when `amino:"write_empty"` is set,
+				// but there is no value to write for a nil pointer).
 				continue
 			}
 			if field.UnpackedList {
-- 
2.43.0


From 54a7c509fad59705c51fe8884154d5d4625aac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 16/27] fix: decode JSON struct fields with the options of the
 field, as they are encoded

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index 7525dfa..47093d7 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -417,7 +417,7 @@ func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.
 		}
 
 		// Decode into field rv.
-		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, fopts)
+		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, field.FieldOptions)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From b2fabcdbcf9995b29a322c9649636c29199a5541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 17/27] fix: read the implementers of an interface under the
 codec lock when encoding

---
 binary-encode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binary-encode.go b/binary-encode.go
index d8c9540..73d96b3 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -249,8 +249,10 @@ func (cdc *Codec) encodeReflectBinaryInterface(w io.Writer, iinfo *TypeInfo, rv
 	needDisamb := false
 	if iinfo.AlwaysDisambiguate {
 		needDisamb = true
-	} else if len(iinfo.Implementers[cinfo.Prefix]) > 1 {
-		needDisamb = true
+	} else {
+		cdc.mtx.RLock() // Implementers is mutated by registrations.
+		needDisamb = len(iinfo.Implementers[cinfo.Prefix]) > 1
+		cdc.mtx.RUnlock()
 	}
 	if needDisamb {
 		_, err = buf.Write(append([]byte{0x00}, cinfo.Disamb[:]...))
-- 
2.43.0


From d938f950da7f622bf305800f1102b22776d6df47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 18/27] fix: an omitted struct decodes to what it was encoded
 from when it contains times

---
 binary-decode.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index c93fee3..eac2c7e 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -573,7 +573,10 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 				!(isErtStructPointer && fopts.EmptyElements) {
 
 				slide(&bz, &n, 1)
-				erv.Set(defaultValue(erv.Type()))
+				err = cdc.setDefaultValue(einfo, erv)
+				if err != nil {
+					return
+				}
 				continue
 			}
 			// Normal case, read next non-nil element from bz.
@@ -760,7 +763,10 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 				!(isErtStructPointer && fopts.EmptyElements) {
 
 				slide(&bz, &n, 1)
-				erv.Set(defaultValue(erv.Type()))
+				err = cdc.setDefaultValue(einfo, erv)
+				if err != nil {
+					return
+				}
 				srv = reflect.Append(srv, erv)
 				continue
 			}
@@ -843,7 +849,10 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 
 			// We're done if we've consumed all the bytes.
 			if len(bz) == 0 {
-				frv.Set(defaultValue(frv.Type()))
+				err = cdc.setDefaultValue(finfo, frv)
+				if err != nil {
+					return
+				}
 				continue
 			}
 
@@ -863,7 +872,10 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 				fnum, typ, _n, err = decodeFieldNumberAndTyp3(bz)
 				if field.BinFieldNum < fnum {
 					// Set zero field value.
-					frv.Set(defaultValue(frv.Type()))
+					err = cdc.setDefaultValue(finfo, frv)
+					if err != nil {
+						return
+					}
 					continue
 					// Do not slide, we will read it again.
 				}
@@ -926,6 +938,17 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 	return n, err
 }
 
+// Sets rv to the value that is written as no bytes at all.
+// For structs that depends on the fields, e.g. 1970 for a time.
+// CONTRACT: rv.CanAddr() is true.
+func (cdc *Codec) setDefaultValue(info *TypeInfo, rv reflect.Value) (err error) {
+	rv.Set(defaultValue(rv.Type()))
+	if rv.Kind() == reflect.Struct && info.Type != timeType && !info.IsAminoUnmarshaler {
+		_, err = cdc.decodeReflectBinaryStruct(nil, info, rv, FieldOptions{}, true)
+	}
+	return
+}
+
 //----------------------------------------
 // consume* for skipping struct fields
 
-- 
2.43.0


From 966ac8341045c65d5a7a926a8fa6ffa3cd53937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 19/27] fix: zero scalars, written as no bytes, can be read
 back at the root

---
 amino.go         | 19 +++++++++++++++++++
 binary-decode.go |  5 +++++
 2 files changed, 24 insertions(+)

diff --git a/amino.go b/amino.go
index f180c53..ff66109 100644
--- a/amino.go
+++ b/amino.go
@@ -425,6 +425,10 @@ func (cdc *Codec) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
 
 		slide(&bz, &nWrap, nFnumTyp3)
 		bare = typeToTyp3(info.Type, FieldOptions{}) != Typ3ByteLength
+	} else if len(bz) == 0 && isWrittenEmpty(info.Type) {
+		// MarshalBinaryBare writes nothing for these if they are zero.
+		rv.Set(reflect.Zero(rt))
+		return nil
 	}
 
 	// Decode contents into rv.
@@ -483,6 +487,21 @@ func isPointerToStructOrToRepeatedStruct(rv reflect.Value, rt reflect.Type) bool
 	return isRepeatedStructAr || isRepeatedStructSl
 }
 
+// Returns true for the types of which MarshalBinaryBare writes the zero value
+// as no bytes, but which don't decode from no bytes by themselves.
+func isWrittenEmpty(rt reflect.Type) bool {
+	switch rt.Kind() {
+	case reflect.Bool, reflect.String,
+		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return true
+	case reflect.Array:
+		return rt.Len() == 0
+	default:
+		return false
+	}
+}
+
 func derefType(rt reflect.Type) (drt reflect.Type) {
 	drt = rt
 	for drt.Kind() == reflect.Ptr {
diff --git a/binary-decode.go b/binary-decode.go
index eac2c7e..f483149 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -412,6 +412,11 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 	}
 
 	// Decode into the concrete type.
+	if bare && len(bz) == 0 && isWrittenEmpty(cinfo.Type) {
+		// As in UnmarshalBinaryBare, crv is zero already.
+		rv.Set(irvSet)
+		return
+	}
 	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
 	if slide(&bz, &n, _n) && err != nil {
 		rv.Set(irvSet) // Helps with debugging
-- 
2.43.0


From 1e4ae4908bdca682f17ba0c335948c267ce8700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 20/27] fix: aminoscan reports truncated and malformed input
 instead of hanging or crashing

---
 cmd/aminoscan/aminoscan.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/aminoscan/aminoscan.go b/cmd/aminoscan/aminoscan.go
index 03aaefd..503d37a 100644
--- a/cmd/aminoscan/aminoscan.go
+++ b/cmd/aminoscan/aminoscan.go
@@ -77,7 +77,7 @@ func scanAny(typ amino.Typ3, bz []byte, indent string) (s string, n int, err err
 	case amino.Typ3_4Byte:
 		s, n, err = scan4Byte(bz, indent)
 	default:
-		panic("should not happen")
+		err = fmt.Errorf("invalid typ3 %v", typ)
 	}
 	return
 }
@@ -85,6 +85,7 @@ func scanAny(typ amino.Typ3, bz []byte, indent string) (s string, n int, err err
 func scanVarint(bz []byte, indent string) (s string, n int, err error) {
 	if len(bz) == 0 {
 		err = fmt.Errorf("EOF while reading (U)Varint")
+		return
 	}
 	// First try Varint.
 	okI64 := true
@@ -96,7 +97,7 @@ func scanVarint(bz []byte, indent string) (s string, n int, err error) {
 	// Then try Uvarint.
 	okU64 := true
 	u64, _n := binary.Uvarint(bz)
-	if n != _n {
+	if n != _n || n == 0 {
 		n = 0
 		okU64 = false
 	}
@@ -132,13 +133,12 @@ func scan8Byte(bz []byte, indent string) (s string, n int, err error) {
 func scanByteLength(bz []byte, indent string) (s string, n int, err error) {
 	// Read the length.
 	l64, _n := binary.Uvarint(bz)
-	if n < 0 {
-		n = 0
+	if _n <= 0 {
 		err = errors.New("error decoding uvarint")
 		return
 	}
 	length := int(l64)
-	if length >= len(bz) {
+	if length < 0 || length > len(bz)-_n {
 		err = errors.New("while reading 8byte field, EOF was encountered")
 		return
 	}
@@ -175,7 +175,7 @@ func scanStruct(bz []byte, indent string, isRoot bool) (s string, n int, err err
 func scanFieldKey(bz []byte, indent string) (s string, typ amino.Typ3, n int, err error) {
 	var u64 uint64
 	u64, n = binary.Uvarint(bz)
-	if n < 0 {
+	if n <= 0 {
 		n = 0
 		err = errors.New("error decoding uvarint")
 		return
-- 
2.43.0


From 0cb8c4221e744caeb8e25fafc4df2a68f2a069c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 21/27] fix: a root interface value that ends after its field
 key is truncated

---
 binary-decode.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index f483149..6c76f66 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -409,14 +409,13 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		}
 		slide(&bz, &n, nFnumTyp3)
 		cbare = typWanted != Typ3ByteLength
-	}
-
-	// Decode into the concrete type.
-	if bare && len(bz) == 0 && isWrittenEmpty(cinfo.Type) {
+	} else if bare && len(bz) == 0 && isWrittenEmpty(cinfo.Type) {
 		// As in UnmarshalBinaryBare, crv is zero already.
 		rv.Set(irvSet)
 		return
 	}
+
+	// Decode into the concrete type.
 	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
 	if slide(&bz, &n, _n) && err != nil {
 		rv.Set(irvSet) // Helps with debugging
-- 
2.43.0


From f4b99450261ef161c8173873899ba07f69eadc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 22/27] fix: skip repeated unknown fields, which are lists of a
 newer version

---
 binary-decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index 6c76f66..13faae1 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -926,7 +926,8 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
-			if fnum <= lastFieldNum {
+			// NOTE: An unknown field may be a list, with an entry for each item.
+			if fnum < lastFieldNum || fnum <= uint32(len(info.Fields)) {
 				err = fmt.Errorf("encountered fieldnNum: %v, but we have already seen fnum: %v\nbytes:%X",
 					fnum, lastFieldNum, bz)
 				return
-- 
2.43.0


From 7ecb400503b1bce41389e5640ce16e631100a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 23/27] fix: DeepCopy uses the MarshalAmino pair of values that
 are not addressable

---
 deep_copy.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/deep_copy.go b/deep_copy.go
index 2df8777..2841a85 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -196,7 +196,15 @@ func callAminoCopy(src, dst reflect.Value) bool {
 		src = src.Addr()
 		dst = dst.Addr()
 	default:
-		return false
+		// A root value, map value or interface content: call the methods,
+		// which may have pointer receivers, on an addressable copy of it.
+		if !dst.CanAddr() {
+			panic("should not happen")
+		}
+		cpy := reflect.New(src.Type())
+		cpy.Elem().Set(src)
+		src = cpy
+		dst = dst.Addr()
 	}
 	if !canAminoCopy(src) {
 		return false
-- 
2.43.0


From 4e968ef53863aeb2398e489dbf4b849e01489dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 24/27] fix: a channel in a field is refused even while it
 holds no elements

---
 reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect.go b/reflect.go
index 8a63b07..d0454f8 100644
--- a/reflect.go
+++ b/reflect.go
@@ -116,9 +116,9 @@ func isDefaultValue(rv reflect.Value) (erv reflect.Value, isDefaultValue bool) {
 		return rv, rv.Uint() == 0
 	case reflect.String:
 		return rv, rv.Len() == 0
-	case reflect.Chan, reflect.Map, reflect.Slice:
+	case reflect.Map, reflect.Slice:
 		return rv, rv.IsNil() || rv.Len() == 0
-	case reflect.Func, reflect.Interface:
+	case reflect.Chan, reflect.Func, reflect.Interface:
 		return rv, rv.IsNil()
 	default:
 		return rv, false
-- 
2.43.0


From 0a5c101e6fdafad6c3404ace698766dae598f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 25/27] fix: a 64-bit integer in quotes is an integer, not null
 or padded with spaces

---
 json-decode.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/json-decode.go b/json-decode.go
index 47093d7..1ad3bef 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -126,6 +126,9 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 			}
 		}
 		bz = bz[1 : len(bz)-1]
+		if len(bz) == 0 || (bz[0] != '-' && !isDigit(bz[0])) || !isDigit(bz[len(bz)-1]) {
+			return errors.Errorf("amino:JSON expects an integer in the quotes, got: %q", bz)
+		}
 		fallthrough
 	case reflect.Int32, reflect.Int16, reflect.Int8,
 		reflect.Uint32, reflect.Uint16, reflect.Uint8:
@@ -152,6 +155,10 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 	return err
 }
 
+func isDigit(b byte) bool {
+	return '0' <= b && b <= '9'
+}
+
 func invokeStdlibJSONUnmarshal(bz []byte, rv reflect.Value, fopts FieldOptions) error {
 	if !rv.CanAddr() && rv.Kind() != reflect.Ptr {
 		panic("rv not addressable nor pointer")
-- 
2.43.0


From d36f978119dad7dbaa59b10b97320681de86fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 26/27] fix: JSON interface values whose interface includes
 json.Marshaler were written bare, and nil ones panicked

---
 json-encode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index faaf2c9..145bdbb 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -51,12 +51,14 @@ func (cdc *Codec) encodeReflectJSON(w io.Writer, info *TypeInfo, rv reflect.Valu
 		rv = reflect.ValueOf(ct)
 	}
 	// Handle override if rv implements json.Marshaler.
+	// NOTE: An interface may include json.Marshaler, but it can be nil and
+	// what it holds needs its type wrapper.
 	if rv.CanAddr() { // Try pointer first.
 		if rv.Addr().Type().Implements(jsonMarshalerType) {
 			err = invokeMarshalJSON(w, rv.Addr())
 			return
 		}
-	} else if rv.Type().Implements(jsonMarshalerType) {
+	} else if rv.Kind() != reflect.Interface && rv.Type().Implements(jsonMarshalerType) {
 		err = invokeMarshalJSON(w, rv)
 		return
 	}
-- 
2.43.0


From 965af05129a997b48df4b1cbb3fc9ee3eebd58f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 27/27] fix: DeepCopy did not use the methods of scalar types
 in lists

---
 deep_copy.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 2841a85..2600051 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -54,7 +54,7 @@ func _deepCopy(src, dst reflect.Value) {
 		return
 
 	case reflect.Array:
-		switch src.Type().Elem().Kind() {
+		switch plainKind(src.Type().Elem()) {
 		case reflect.Int64, reflect.Int32, reflect.Int16,
 			reflect.Int8, reflect.Int, reflect.Uint64,
 			reflect.Uint32, reflect.Uint16, reflect.Uint8,
@@ -73,7 +73,7 @@ func _deepCopy(src, dst reflect.Value) {
 		}
 
 	case reflect.Slice:
-		switch src.Type().Elem().Kind() {
+		switch plainKind(src.Type().Elem()) {
 		case reflect.Int64, reflect.Int32, reflect.Int16,
 			reflect.Int8, reflect.Int, reflect.Uint64,
 			reflect.Uint32, reflect.Uint16, reflect.Uint8,
@@ -149,6 +149,15 @@ func _deepCopy(src, dst reflect.Value) {
 //----------------------------------------
 // misc.
 
+// The kind of rt, or reflect.Invalid if rt or *rt has methods, as one of
+// them may be .DeepCopy() or .MarshalAmino().
+func plainKind(rt reflect.Type) reflect.Kind {
+	if reflect.PtrTo(rt).NumMethod() > 0 {
+		return reflect.Invalid
+	}
+	return rt.Kind()
+}
+
 // Call .DeepCopy() method if possible.
 func callDeepCopy(src, dst reflect.Value) bool {
 	dc := src.MethodByName("DeepCopy")
-- 
2.43.0

