From feaa7a6b34f21f3ff6e74f9863c65c55aa99d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 01/27] fix: read the 16-bit field id of a record in the
 TypeScript protocol

Field ids are written as u16 (by both targets) but Storage read only the low
byte, so a field with an id above 255 was stored under a wrong id.
---
 .../render/typescript/static/protocol.convertor.storage.ts      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index cc74a1e..2b81038 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -37,7 +37,7 @@ export class Storage {
 
 	private _getId(buffer: Buffer, position: number): number | Error {
 		try {
-			return buffer.readUInt8(position);
+			return buffer.readUInt16LE(position);
 		} catch (err) {
 			return err instanceof Error
 				? err
-- 
2.43.0


From 6d70b9697dc2d09e52672f8e9f736e0acd808e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 02/27] fix: refuse truncated field records instead of
 panicking (Rust protocol)

Storage read the id, the size class, the size and the body of a field without
checking that the bytes are there, and allocated the announced size first, so
a truncated or forged body brought the process down.
---
 .../render/rust/static/protocol.storage.rs    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cli/src/protocol/render/rust/static/protocol.storage.rs b/cli/src/protocol/render/rust/static/protocol.storage.rs
index 20fb0fe..1d255ed 100644
--- a/cli/src/protocol/render/rust/static/protocol.storage.rs
+++ b/cli/src/protocol/render/rust/static/protocol.storage.rs
@@ -49,6 +49,9 @@ impl Storage {
         } else {
             return Err("Fail to set cursor position".to_string());
         }
+        if cursor.remaining() < sizes::U16_LEN {
+            return Err("Not enough bytes to read id of property".to_string());
+        }
         let id = cursor.get_u16_le();
         Ok((id, pos + sizes::U16_LEN))
     }
@@ -60,7 +63,20 @@ impl Storage {
         } else {
             return Err("Fail to set cursor position".to_string());
         }
+        if cursor.remaining() < sizes::U8_LEN {
+            return Err("Not enough bytes to read rank of property length".to_string());
+        }
         let prop_body_len_rank = cursor.get_u8();
+        let prop_body_len_required: usize = match prop_body_len_rank {
+            8 => sizes::U8_LEN,
+            16 => sizes::U16_LEN,
+            32 => sizes::U32_LEN,
+            64 => sizes::U64_LEN,
+            _ => 0,
+        };
+        if cursor.remaining() < prop_body_len_required {
+            return Err("Not enough bytes to read length of property".to_string());
+        }
         let prop_body_len_usize: usize;
         let prop_rank_len: usize = 1;
         let prop_size_len: usize;
@@ -101,6 +117,9 @@ impl Storage {
                 return Err(format!("Unknown rank has been gotten: {}", v));
             }
         };
+        if cursor.remaining() < prop_body_len_usize {
+            return Err("Not enough bytes to read body of property".to_string());
+        }
         let mut prop_body_buf = vec![0; prop_body_len_usize];
         prop_body_buf.copy_from_slice(
             &buf[(pos + prop_rank_len + prop_size_len)
-- 
2.43.0


From fdf0495f4bfbc4d32c354bd431da2eb20daba8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 03/27] fix: compare announced lengths without overflow (Rust
 protocol)

An announced length close to u64::MAX overflowed the addition in the bounds
check and the slice behind it panicked.
---
 cli/src/protocol/render/rust/static/protocol.decode.rs  | 4 ++--
 cli/src/protocol/render/rust/static/protocol.packing.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.decode.rs b/cli/src/protocol/render/rust/static/protocol.decode.rs
index 3d2ad78..1a15edb 100644
--- a/cli/src/protocol/render/rust/static/protocol.decode.rs
+++ b/cli/src/protocol/render/rust/static/protocol.decode.rs
@@ -92,7 +92,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if buffer.len() - sizes::U64_LEN < item_len as usize {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
@@ -606,7 +606,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if buffer.len() - sizes::U64_LEN < item_len as usize {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
diff --git a/cli/src/protocol/render/rust/static/protocol.packing.rs b/cli/src/protocol/render/rust/static/protocol.packing.rs
index f29a44e..9e58533 100644
--- a/cli/src/protocol/render/rust/static/protocol.packing.rs
+++ b/cli/src/protocol/render/rust/static/protocol.packing.rs
@@ -98,7 +98,7 @@ pub fn get_header_from_buffer(buf: &[u8]) -> Result<PackageHeader, String> {
 }
 
 pub fn has_buffer_body(buf: &[u8], header: &PackageHeader) -> bool {
-    buf.len() >= header.len_usize + MSG_HEADER_LEN
+    buf.len() >= MSG_HEADER_LEN && buf.len() - MSG_HEADER_LEN >= header.len_usize
 }
 
 pub fn get_body_from_buffer(
@@ -106,8 +106,8 @@ pub fn get_body_from_buffer(
     header: &PackageHeader,
     uuid: Option<String>,
 ) -> Result<(Vec<u8>, Vec<u8>), String> {
-    if buf.len() < header.len_usize + MSG_HEADER_LEN {
-        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len() - MSG_HEADER_LEN));
+    if !has_buffer_body(buf, header) {
+        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len()));
     }
     // Get body
     let mut body = vec![0; header.len_usize];
-- 
2.43.0


From 3dc329db64c1c30c0588254ddbf8ca7936662778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 04/27] fix: accept enum values whose payload is empty (Rust
 protocol)

A variant holding an empty string, an empty sequence or an empty struct is
encoded as its index only; extract refused exactly that length.
---
 cli/src/protocol/render/rust/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 54554e5..df46284 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -304,7 +304,7 @@ impl RustRender {
             enums.name
         );
         body = format!(
-            "{}{}if buf.len() <= sizes::U16_LEN {{\n",
+            "{}{}if buf.len() < sizes::U16_LEN {{\n",
             body,
             self.spaces(level + 2)
         );
-- 
2.43.0


From d42e01d90038936c779c98facc6f6251535cf993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 05/27] fix: drop a message with a foreign signature instead of
 reading it forever (TypeScript)

---
 cli/src/protocol/render/typescript/static/packing.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/packing.ts b/cli/src/protocol/render/typescript/static/packing.ts
index a15edf5..f5a72f5 100644
--- a/cli/src/protocol/render/typescript/static/packing.ts
+++ b/cli/src/protocol/render/typescript/static/packing.ts
@@ -84,10 +84,8 @@ export abstract class BufferReader<T> {
 						this._queue.push(msg);
 					}
 				}
-				this._buffer = this._buffer.slice(
-					MessageHeader.SIZE + header.len
-				);
 			}
+			this._buffer = this._buffer.slice(MessageHeader.SIZE + header.len);
 		} while (true);
 		return errors.length > 0 ? errors : undefined;
 	}
-- 
2.43.0


From 0987780a7ead7204220e709b71f9a413d6ce74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 06/27] fix: report an unknown message id as an error instead
 of throwing out of the reader (TypeScript)

---
 cli/src/protocol/render/typescript/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index e052e23..f9e40e3 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1670,7 +1670,7 @@ impl TypescriptRender {
             body = format!("{}{}return err instanceof Error ? err : {{ header: {{ id: header.id, sequence: header.sequence, timestamp: header.ts }}, msg: {{ {}}}, getRef: () => instance }};\n", body, self.spaces(4), self.get_available_entity(structs.parent, &structs.name, &mut store.clone()));
         }
         body = format!(
-            "{}{}default: throw new Error(`Unknown message id=${{header.id}}`);\n",
+            "{}{}default: return new Error(`Unknown message id=${{header.id}}`);\n",
             body,
             self.spaces(3)
         );
-- 
2.43.0


From 4e895bf16e1aa0d8665d56dfe057c0e3e89fbfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 07/27] fix: report a truncated or unknown enum value as an
 error instead of throwing (TypeScript)

---
 .../static/protocol.primitives.enum.ts        | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
index 7ab80e9..b0ae00f 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
@@ -88,15 +88,22 @@ export abstract class Enum<T> {
 
 	public decode(bytes: ArrayBufferLike): Error | undefined {
 		const buffer = Buffer.from(bytes);
-		const id: number = buffer.readUInt16LE();
-		const target: ISigned<any> = this.getOptionValue(id);
-		const error: Error | undefined = target.decode(
-			bytes.slice(u16.getSize(), buffer.byteLength)
-		);
-		if (error instanceof Error) {
-			return error;
+		if (buffer.byteLength < u16.getSize()) {
+			return new Error(
+				`Invalid buffer size. Expected at least ${u16.getSize()} bytes, actual ${
+					buffer.byteLength
+				} bytes`
+			);
 		}
 		try {
+			const id: number = buffer.readUInt16LE();
+			const target: ISigned<any> = this.getOptionValue(id);
+			const error: Error | undefined = target.decode(
+				bytes.slice(u16.getSize(), buffer.byteLength)
+			);
+			if (error instanceof Error) {
+				return error;
+			}
 			this._value = new Option<any>(id, target);
 		} catch (e) {
 			return new Error(`Fail to decode due error: ${e}`);
-- 
2.43.0


From 8d0744bc017ee5f438771a10613f651c43bdccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 08/27] fix: refuse truncated items of string and struct arrays
 (TypeScript)

---
 .../render/typescript/static/protocol.convertor.ts     | 10 ++++++++++
 .../static/protocol.primitives.array.string.utf8.ts    |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
index a20a8d7..dbe8b55 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
@@ -177,6 +177,11 @@ export abstract class Convertor<T> {
 		}
 		let offset: number = 0;
 		do {
+			if (buffer.byteLength - offset < u64.getSize()) {
+				return new Error(
+					`Not enough bytes to read length of ${this.getSignature()}/${this.getId()} in an array`
+				);
+			}
 			const len = buffer.readBigUInt64LE(offset);
 			if (isNaN(Number(len)) || !isFinite(Number(len))) {
 				return new Error(
@@ -184,6 +189,11 @@ export abstract class Convertor<T> {
 				);
 			}
 			offset += u64.getSize();
+			if (buffer.byteLength - offset < Number(len)) {
+				return new Error(
+					`Not enough bytes to read ${this.getSignature()}/${this.getId()} in an array`
+				);
+			}
 			const body = buffer.slice(offset, offset + Number(len));
 			const self = this.defaults();
 			if (typeof (self as any).decode !== "function") {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
index 497bcc3..cc6ba8c 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
@@ -61,11 +61,17 @@ export class ArrayStrUTF8 extends Primitive<string[]> {
 		}
 		let offset: number = 0;
 		do {
+			if (buffer.byteLength - offset < u32.getSize()) {
+				return new Error(`Not enough bytes to read length of string in an array`);
+			}
 			const len = buffer.readUInt32LE(offset);
 			if (isNaN(len) || !isFinite(len)) {
 				return new Error(`Invalid length of string in an array`);
 			}
 			offset += u32.getSize();
+			if (buffer.byteLength - offset < len) {
+				return new Error(`Not enough bytes to read string in an array`);
+			}
 			const body = buffer.slice(offset, offset + len);
 			const str = StrUTF8.decode(body);
 			if (str instanceof Error) {
-- 
2.43.0


From e1a9365d87b84d727952e4aa0c7cfb4fbc353af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 09/27] fix: refer to entities of groups by their full path in
 the generated TypeScript

---
 cli/src/protocol/render/typescript/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index f9e40e3..3ba804c 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -423,7 +423,7 @@ impl TypescriptRender {
                         body,
                         self.spaces(level + 1),
                         field.name,
-                        enums.name,
+                        store.get_enum_path(enums.id).join("."),
                     );
                     body = format!(
                         "{}\n{}{}this._{}.set(this.{});",
@@ -1075,7 +1075,7 @@ impl TypescriptRender {
                 for variant in &enums.variants {
                     if let Some(struct_id) = variant.ref_type_id {
                         if let Some(strct) = store.get_struct(struct_id) {
-                            body = format!("{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: false }},", body, self.spaces(level + 1), variant.name, strct.name, if variant.repeated { "true" } else { "false" });
+                            body = format!("{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: false }},", body, self.spaces(level + 1), variant.name, store.get_struct_path(strct.id).join("."), if variant.repeated { "true" } else { "false" });
                         } else {
                             stop!("Nested enums aren't supported.");
                         }
@@ -1159,7 +1159,7 @@ impl TypescriptRender {
                         store.get_struct_path(strct.id).join("."),
                         store.get_struct_path(strct.id).join(".")
                     );
-                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, strct.name, field.id, field.name, field.name);
+                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, store.get_struct_path(strct.id).join("."), field.id, field.name, field.name);
                     body = format!(
                         "{}\n{}if (arr{} instanceof Error) {{",
                         body,
@@ -1344,7 +1344,8 @@ impl TypescriptRender {
             };
             if let Some(strct) = store.get_struct(entity_id) {
                 if field.repeated {
-                    body = format!("() => {{{} const self: {} = {}.defaults(); return this.getBufferFromBuf<{}[]>({}, Protocol.ESize.u64, self.encodeSelfArray.bind(self), this.{}); }}", optional, strct.name, strct.name, strct.name, field.id, field.name);
+                    let path = store.get_struct_path(strct.id).join(".");
+                    body = format!("() => {{{} const self: {} = {}.defaults(); return this.getBufferFromBuf<{}[]>({}, Protocol.ESize.u64, self.encodeSelfArray.bind(self), this.{}); }}", optional, path, path, path, field.id, field.name);
                 } else {
                     body = format!("() => {{{} const buffer = this.{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
                 }
@@ -1431,7 +1432,10 @@ impl TypescriptRender {
                     if store.get_struct(ref_type_id).is_some() {
                         store.get_struct_path(ref_type_id).join(".")
                     } else if let Some(enums) = store.get_enum(ref_type_id) {
-                        format!("I{}", enums.name)
+                        let mut path = store.get_enum_path(enums.id);
+                        path.pop();
+                        path.push(format!("I{}", enums.name));
+                        path.join(".")
                     } else {
                         stop!(
                             "Fail to find a struct/enum id: {} for field {}",
-- 
2.43.0


From 6dda1eeef9c7678da472c77555d55fb9cd42503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 10/27] fix: do not evaluate validators of later namespaces
 while the generated TypeScript module loads

---
 cli/src/protocol/render/typescript/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index 3ba804c..da87875 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -446,7 +446,7 @@ impl TypescriptRender {
 
     fn struct_map(&self, strct: &Struct, store: &mut Store, level: u8) -> String {
         let mut body = format!(
-            "{}public static scheme: Protocol.IPropScheme[] = [",
+            "{}public static get scheme(): Protocol.IPropScheme[] {{ return [",
             self.spaces(level)
         );
         for field in &strct.fields {
@@ -456,7 +456,7 @@ impl TypescriptRender {
                 self.get_field_map_def(field, &mut store.clone(), level + 1),
             );
         }
-        body = format!("{}\n{}];\n", body, self.spaces(level));
+        body = format!("{}\n{}]; }}\n", body, self.spaces(level));
         body
     }
 
-- 
2.43.0


From 06422ba565023c7fe9de006c14d66a288ad81116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 11/27] fix: encode the current value of an enum field in the
 generated TypeScript

---
 cli/src/protocol/render/typescript/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index da87875..9411c70 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1350,7 +1350,7 @@ impl TypescriptRender {
                     body = format!("() => {{{} const buffer = this.{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
                 }
             } else if store.get_enum(entity_id).is_some() {
-                body = format!("() => {{{} const buffer = this._{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
+                body = format!("() => {{{} this._{}.set(this.{}); const buffer = this._{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.name, field.name, field.id);
             } else {
                 stop!(
                     "Fail to find a type by ref {} for field {}",
-- 
2.43.0


From 3ac333c8dfbf9c2d35c1e84c7b7d194e9d9ba4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 12/27] fix: decode optional and repeated optional enum fields
 with their own type (Rust protocol)

---
 cli/src/protocol/render/rust/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index df46284..5730798 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -97,7 +97,11 @@ impl RustRender {
         for field in &strct.fields {
             if field.optional {
                 if let Some(id) = field.ref_type_id {
-                    if let Some(enums) = store.get_enum(id) {
+                    if store.get_enum(id).is_some() {
+                        let mut type_ref = self.get_type_ref(field);
+                        if field.repeated {
+                            type_ref = format!("Vec::<{}>", type_ref);
+                        }
                         body = format!(
                             "{}{}if let Some(buf) = storage.get({}) {{\n",
                             body,
@@ -112,7 +116,7 @@ impl RustRender {
                             field.name
                         );
                         body = format!("{}{}}} else {{\n", body, self.spaces(level + 3));
-                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, enums.name, field.id);
+                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, type_ref, field.id);
                         body = format!("{}{}Ok(val) => Some(val),\n", body, self.spaces(level + 5));
                         body = format!(
                             "{}{}Err(e) => {{ return Err(e) }},\n",
-- 
2.43.0


From 6d53784e4e8252bbd464cc85b4fdc40517957a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 13/27] fix: take the assigned key, not the method, into
 account in assigned() of the TypeScript producer

---
 .../render/producer/typescript/render_identification.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_identification.rs b/cli/src/workflow/render/producer/typescript/render_identification.rs
index adb72fd..c62c6be 100644
--- a/cli/src/workflow/render/producer/typescript/render_identification.rs
+++ b/cli/src/workflow/render/producer/typescript/render_identification.rs
@@ -62,7 +62,7 @@ export class Identification {
     }
 
     public assigned(): boolean {
-        if (this.assign === undefined) {
+        if (this._assigned === undefined) {
             switch (this._strategy) {
                 case ProducerIdentificationStrategy.Ignore:
                     return true;
-- 
2.43.0


From 376c0c23de943d383d0b483025c426569f2bfe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 14/27] fix: do not wait for handshake answers of the Rust
 consumer under the sequence of broadcasts

---
 cli/src/workflow/render/consumer/rust/render_consumer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 715f3bf..64bf78e 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -637,8 +637,8 @@ where
     let mut key = options.key.clone();
     let response = api
         .request(
-            0,
-            &key.pack(0, None)
+            1,
+            &key.pack(1, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
@@ -675,9 +675,9 @@ where
     };
     let response = api
         .request(
-            1,
+            2,
             &hash
-                .pack(1, None)
+                .pack(2, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
-- 
2.43.0


From 2bde1dbace49303915d63f9dc741349adf4a2d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 15/27] fix: a response that comes after the timeout of its
 request does not stop the Rust consumer

---
 .../workflow/render/consumer/rust/render_consumer.rs  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 64bf78e..25bf041 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -444,12 +444,13 @@ where
             }
             Channel::AcceptIncome((sequence, msg, tx_response)) => {
                 let accepted = if let Some(response) = pending.remove(&sequence) {
-                    response.send(msg).map_err(|_| {
-                        ConsumerError::APIChannel(format!(
-                            "Fail to use pending channel; sequence: {}",
+                    if response.send(msg).is_err() {
+                        warn!(
+                            target: logs::targets::CONSUMER,
+                            "response with sequence {} came too late; request isn't pending anymore",
                             sequence
-                        ))
-                    })?;
+                        );
+                    }
                     true
                 } else {
                     false
-- 
2.43.0


From a36354535b6e1805c4df65e316983ba21c78a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:28 +0000
Subject: [PATCH 16/27] fix: allow the same broadcast for several conclusions
 of a request

Both producers declared it once per conclusion: the generated Rust did not
compile, and in TypeScript the last declaration replaced the others, so that
the broadcast could be supplied with one conclusion only.
---
 .../producer/rust/render_request_response.rs  | 35 +++++++++---
 .../typescript/render_request_handler.rs      | 54 ++++++++++++++++---
 2 files changed, 77 insertions(+), 12 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index 2239344..96889be 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -102,7 +102,7 @@ impl Render {
                     brodcast_output = format!(
                         "{}{},{}",
                         brodcast_output,
-                        self.get_broadcast_type_name(broadcast),
+                        self.get_broadcast_type_name(request, broadcast),
                         if pos == action.broadcast.len() - 1 {
                             ""
                         } else {
@@ -129,21 +129,30 @@ impl Render {
 
     fn get_broadcast_types(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
-        for action in request.actions.iter() {
+        for (pos, action) in request.actions.iter().enumerate() {
             if !action.broadcast.is_empty() {
                 for broadcast in action.broadcast.iter() {
+                    // The same broadcast can be declared for several conclusions
+                    let first = request.actions.iter().position(|a| {
+                        a.broadcast.iter().any(|b| {
+                            b.reference == broadcast.reference && b.optional == broadcast.optional
+                        })
+                    });
+                    if first != Some(pos) {
+                        continue;
+                    }
                     if broadcast.optional {
                         output = format!(
                             "{}type {} = Option<(Vec<Uuid>, protocol::{})>;\n",
                             output,
-                            self.get_broadcast_type_name(broadcast),
+                            self.get_broadcast_type_name(request, broadcast),
                             tools::into_rust_path(&broadcast.reference),
                         );
                     } else {
                         output = format!(
                             "{}type {} = (Vec<Uuid>, protocol::{});\n",
                             output,
-                            self.get_broadcast_type_name(broadcast),
+                            self.get_broadcast_type_name(request, broadcast),
                             tools::into_rust_path(&broadcast.reference),
                         );
                     }
@@ -153,8 +162,22 @@ impl Render {
         Ok(output)
     }
 
-    fn get_broadcast_type_name(&self, broadcast: &Broadcast) -> String {
-        format!("Broadcast{}", broadcast.reference.replace(".", ""))
+    fn get_broadcast_type_name(&self, request: &Request, broadcast: &Broadcast) -> String {
+        let required_as_well = request.actions.iter().any(|action| {
+            action
+                .broadcast
+                .iter()
+                .any(|b| b.reference == broadcast.reference && !b.optional)
+        });
+        format!(
+            "{}Broadcast{}",
+            if broadcast.optional && required_as_well {
+                "Optional"
+            } else {
+                ""
+            },
+            broadcast.reference.replace(".", "")
+        )
     }
 
     fn get_dest_file(&self, base: &Path, request: &Request) -> Result<PathBuf, String> {
diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index 7820748..3da925c 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -77,11 +77,10 @@ export function handler(
 }"#;
     pub const BROADCAST_IMPL: &str = r#"[[name]](msg: Protocol.[[reference]]): Response {
     if (
-        self._response.getId() !==
-        Protocol.[[conclusion]].getId()
+        [[foreign]]
     ) {
         throw new Error(
-            `Message "Protocol.[[reference]]" can be used only with "Protocol.[[conclusion]]"`
+            `Message "Protocol.[[reference]]" can be used only with [[conclusions]]`
         );
     }
     if (
@@ -250,8 +249,11 @@ impl Render {
 
     fn get_methods_declarations(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
-        for action in request.actions.iter() {
+        for (pos, action) in request.actions.iter().enumerate() {
             for broadcast in action.broadcast.iter() {
+                if !self.is_first_usage(request, pos, &broadcast.reference) {
+                    continue;
+                }
                 output = format!(
                     "{}\n{}(msg: Protocol.{}): Response;",
                     output,
@@ -265,18 +267,58 @@ impl Render {
 
     fn get_methods_implementations(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
-        for action in request.actions.iter() {
+        for (pos, action) in request.actions.iter().enumerate() {
             for broadcast in action.broadcast.iter() {
+                if !self.is_first_usage(request, pos, &broadcast.reference) {
+                    continue;
+                }
+                // The same broadcast can be declared for several conclusions
+                let mut foreign = String::new();
+                let mut conclusions = String::new();
+                for other in request.actions.iter() {
+                    if other
+                        .broadcast
+                        .iter()
+                        .any(|b| b.reference == broadcast.reference)
+                    {
+                        let response = other.get_response()?;
+                        foreign = format!(
+                            "{}{}self._response.getId() !==\n        Protocol.{}.getId()",
+                            foreign,
+                            if foreign.is_empty() {
+                                ""
+                            } else {
+                                " &&\n        "
+                            },
+                            response,
+                        );
+                        conclusions = format!(
+                            "{}{}\"Protocol.{}\"",
+                            conclusions,
+                            if conclusions.is_empty() { "" } else { " or " },
+                            response,
+                        );
+                    }
+                }
                 let mut out = templates::BROADCAST_IMPL.to_owned();
                 out = out.replace("[[name]]", &broadcast.reference.replace(".", ""));
                 out = out.replace("[[reference]]", &broadcast.reference);
-                out = out.replace("[[conclusion]]", &action.get_response()?);
+                out = out.replace("[[foreign]]", &foreign);
+                out = out.replace("[[conclusions]]", &conclusions);
                 output = format!("{}\n{}", output, out,);
             }
         }
         Ok(tools::inject_tabs(3, output))
     }
 
+    fn is_first_usage(&self, request: &Request, pos: usize, reference: &str) -> bool {
+        request
+            .actions
+            .iter()
+            .position(|action| action.broadcast.iter().any(|b| b.reference == reference))
+            == Some(pos)
+    }
+
     fn get_broadcast_checks(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
         for action in request.actions.iter() {
-- 
2.43.0


From e103111b337f36b523557f1de934c3b8e1ec96de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:48 +0000
Subject: [PATCH 17/27] fix: comments of a workflow may hold any character

---
 cli/src/workflow/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index f668bf4..af86c30 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -209,7 +209,7 @@ impl Parser {
         let mut limited: bool = false;
         let mut comment: bool = false;
         for char in content.chars() {
-            pass += 1;
+            pass += char.len_utf8();
             if comment && char == chars::CARET {
                 comment = false;
             } else if comment {
-- 
2.43.0


From cf3a5e7a92a4f67a30a27dd9f1eb21beb50c70e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:48 +0000
Subject: [PATCH 18/27] fix: a word at the very end of a file is read once

---
 cli/src/protocol/parser.rs | 2 +-
 cli/src/workflow/parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 3aba545..c9087ec 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -389,7 +389,7 @@ impl Parser {
         if str.is_empty() {
             Ok(ENext::End())
         } else {
-            Ok(ENext::Word((str, pass - 1, None)))
+            Ok(ENext::Word((str, pass, None)))
         }
     }
 
diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index af86c30..a0e80f6 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -281,7 +281,7 @@ impl Parser {
         if str.is_empty() {
             Ok(ENext::End())
         } else {
-            Ok(ENext::Word((str, pass - 1, None)))
+            Ok(ENext::Word((str, pass, None)))
         }
     }
 
-- 
2.43.0


From e822d6880b4257443b9c00838a13a72428b71654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:48 +0000
Subject: [PATCH 19/27] fix: a declaration cut off at the end of a file is an
 error

---
 cli/src/protocol/parser.rs | 3 +++
 cli/src/protocol/store.rs  | 4 ++++
 cli/src/workflow/parser.rs | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index c9087ec..492649c 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -282,6 +282,9 @@ impl Parser {
                             offset
                         }
                         ENext::End() => {
+                            if store.is_opened() {
+                                errs.push("Unexpected end of file".to_owned());
+                            }
                             break;
                         }
                     };
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 1b1815e..f9403d4 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -363,6 +363,10 @@ impl Store {
         }
     }
 
+    pub fn is_opened(&self) -> bool {
+        self.c_group.is_some() || self.c_struct.is_some() || self.c_enum.is_some()
+    }
+
     pub fn is_enum_opened(&mut self) -> bool {
         self.c_enum.is_some()
     }
diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index a0e80f6..6c10413 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -109,6 +109,9 @@ impl Parser {
                             }
                         }
                         ENext::End() => {
+                            if opened.is_some() {
+                                return Err(self.err("Unexpected end of file"));
+                            }
                             break;
                         }
                         _ => 0,
-- 
2.43.0


From 8150780005f79b36559f7bad3f8f40c7bf00f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:48 +0000
Subject: [PATCH 20/27] fix: a failed run ends with a failure exit code

---
 cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 312214c..af90535 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -21,6 +21,7 @@ fn main() {
         std::process::exit(1);
     }
     if let Err(errors) = ctrl.actions() {
-        println!("{}", errors.join("\n"))
+        println!("{}", errors.join("\n"));
+        std::process::exit(1);
     }
 }
-- 
2.43.0


From 48e31441a3e25602b7b668fe9e2c80fa40539e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 21/27] fix: exit with a failure code when the current
 directory cannot be read

---
 cli/src/ctrlargs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/ctrlargs.rs b/cli/src/ctrlargs.rs
index f61688a..d4551fe 100644
--- a/cli/src/ctrlargs.rs
+++ b/cli/src/ctrlargs.rs
@@ -66,7 +66,7 @@ impl CtrlArgs {
             Ok(pwd) => pwd,
             Err(e) => {
                 println!("Fail to detect pwd folder: {}", e);
-                std::process::exit(0);
+                std::process::exit(1);
             }
         };
         let mut args: Vec<String> = env::args().collect();
-- 
2.43.0


From b94e2f52defbb75b2c336e47d52cdda5bb9c2ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:43 +0000
Subject: [PATCH 22/27] fix: show the broadcasts of a request with a single
 response in the diagram

---
 cli/src/workflow/render/puml/render_request.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cli/src/workflow/render/puml/render_request.rs b/cli/src/workflow/render/puml/render_request.rs
index 1edf2b6..0dda5f2 100644
--- a/cli/src/workflow/render/puml/render_request.rs
+++ b/cli/src/workflow/render/puml/render_request.rs
@@ -67,6 +67,16 @@ impl RenderRequest {
             }
         } else {
             output = format!("\nProducer -> Consumer: {}", request.get_response()?);
+            for action in &request.actions {
+                for broadcast in &action.broadcast {
+                    output = format!(
+                        "{}\nProducer {} Consumers: {}",
+                        output,
+                        if broadcast.optional { "-->" } else { "->" },
+                        broadcast.reference,
+                    );
+                }
+            }
         }
         Ok(output)
     }
-- 
2.43.0


From 5937e4fedc0ff6690e73764b36ee21455765892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:48 +0000
Subject: [PATCH 23/27] fix: serve a consumer no further once the producer has
 decided to disconnect it

---
 cli/src/workflow/render/producer/rust/render_mod.rs       | 4 ++++
 cli/src/workflow/render/producer/typescript/render_mod.rs | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 44ba0c6..e6e170d 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -444,6 +444,10 @@ pub mod producer {
             } else {
                 return Ok(());
             };
+            if consumer.get_identification().is_discredited() {
+                // Consumer was discredited by a previous message of the same chunk
+                return Ok(());
+            }
             match message {
                 [[indentification_self_enum_ref]] if !consumer.is_hash_accepted() => {
                     trace!(
diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 1842f8d..7242035 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -132,6 +132,10 @@ export class Producer {
     }
 
     public disconnect(uuid: string): Promise<void> {
+        const consumer = this._consumers.get(uuid);
+        if (consumer !== undefined) {
+            consumer.getIdentification().discredited();
+        }
         return this._server.disconnect(uuid);
     }
 
@@ -247,6 +251,9 @@ export class Producer {
             if (message === undefined) {
                 return;
             }
+            if (consumer.getIdentification().isDiscredited()) {
+                return;
+            }
             let extracted = this._extract(
                 message.msg,
                 "[[self_key]]"
-- 
2.43.0


From 8e0e265b0c909d3dbdd000077fb03655934d30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 24/27] fix: handle every message with the state the previous
 ones left, however the stream is cut into chunks

---
 cli/src/workflow/render/producer/rust/render_mod.rs    | 10 ++++------
 .../workflow/render/producer/typescript/render_mod.rs  |  1 -
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index e6e170d..0b159a5 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -388,7 +388,7 @@ pub mod producer {
             "new chunk of data from {} has been gotten",
             uuid,
         );
-        let (messages, assigned, has_key) = if let Some(consumer) = consumers.get_mut(&uuid) {
+        let messages = if let Some(consumer) = consumers.get_mut(&uuid) {
             if !consumer.is_confirmed() {
                 disconnect(uuid, consumer, control).await?;
                 emitters::error::emit::<E, C>(
@@ -417,11 +417,7 @@ pub mod producer {
                 .await?;
                 return Ok(());
             } else {
-                (
-                    consumer.get_messages(),
-                    consumer.get_identification().assigned(),
-                    consumer.get_identification().has_key(),
-                )
+                consumer.get_messages()
             }
         } else {
             responsing_err(
@@ -448,6 +444,8 @@ pub mod producer {
                 // Consumer was discredited by a previous message of the same chunk
                 return Ok(());
             }
+            let assigned = consumer.get_identification().assigned();
+            let has_key = consumer.get_identification().has_key();
             match message {
                 [[indentification_self_enum_ref]] if !consumer.is_hash_accepted() => {
                     trace!(
diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 7242035..c3cf314 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -448,7 +448,6 @@ export class Producer {
 					)}`
 				);
 			} catch (_) {}
-            break;
         } while (true);
     }
 
-- 
2.43.0


From 0bc62c90d8e61a706c93626a097a38cf43003279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:20 +0000
Subject: [PATCH 25/27] fix: end outstanding requests and drop undecoded bytes
 when the TypeScript consumer loses its connection

---
 .../render/consumer/typescript/render_beacon.rs        |  3 +++
 .../render/consumer/typescript/render_consumer.rs      | 10 +++++++++-
 .../render/consumer/typescript/render_request.rs       |  3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_beacon.rs b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
index 9f476b9..6a82002 100644
--- a/cli/src/workflow/render/consumer/typescript/render_beacon.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
@@ -104,6 +104,9 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
                     }
                 })
                 .catch((err: Error) => {
+                    if (this._state === ERequestState.Pending) {
+                        this._state = ERequestState.Ready;
+                    }
                     reject(err);
                 });
         });
diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 0c42841..e8f3937 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -72,6 +72,7 @@ export class Consumer {
     private readonly _client: Client;
     private readonly _subscriptions: { [key: string]: Subscription } = {};
     private readonly _pending: Map<number, (response: Protocol.IAvailableMessages) => void> = new Map();
+    private readonly _rejectors: Map<number, (err: Error) => void> = new Map();
     private readonly _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
     private readonly _logger: Logger;
     private readonly _options: Options;
@@ -160,8 +161,9 @@ export class Consumer {
         if (sequence === undefined) {
             return Promise.resolve({});
         }
-        return new Promise((resolve) => {
+        return new Promise((resolve, reject) => {
             this._pending.set(sequence, resolve);
+            this._rejectors.set(sequence, reject);
         });
     }
 
@@ -232,6 +234,11 @@ export class Consumer {
     private _onClientDisconnected() {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
+        this._buffer.destroy();
+        const rejectors = Array.from(this._rejectors.values());
+        this._pending.clear();
+        this._rejectors.clear();
+        rejectors.forEach((reject) => reject(new Error(`Connection is lost`)));
         this.disconnected.emit();
     }
 
@@ -253,6 +260,7 @@ export class Consumer {
             }
             const pending = this._pending.get(msg.header.sequence);
             if (pending !== undefined) {
+                this._rejectors.delete(msg.header.sequence);
                 this._pending.delete(msg.header.sequence);
                 pending(msg.msg);
             }[[broadcasts_checking]]
diff --git a/cli/src/workflow/render/consumer/typescript/render_request.rs b/cli/src/workflow/render/consumer/typescript/render_request.rs
index d25bf40..ff5242e 100644
--- a/cli/src/workflow/render/consumer/typescript/render_request.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_request.rs
@@ -54,6 +54,9 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
                         return reject(new Error(`Unexpected state for request "[[reference]]".`));
                 }
             }).catch((err: Error) => {
+                if (this._state === ERequestState.Pending) {
+                    this._state = ERequestState.Ready;
+                }
                 reject(err);
             });
         });
-- 
2.43.0


From 61406794984506f460c13c0911e40eb539bb3adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:23 +0000
Subject: [PATCH 26/27] fix: a consumer that vanished before its confirmation
 was sent ended the Rust producer

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 0b159a5..7b2c13b 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -808,14 +808,20 @@ pub mod producer {
                     MergedChannel::Confirmation(uuid) => {
                         if let Some(consumer) = consumers.get_mut(&uuid) {
                             consumer.confirm();
-                            control
+                            if let Err(err) = control
                                 .send(
                                     (protocol::InternalServiceGroup::ConnectConfirmationBeacon {})
                                         .pack(0, Some(uuid.to_string()))
                                         .map_err(|e| ProducerError::Protocol(uuid, e))?,
                                     Some(uuid),
                                 )
-                                .await?;
+                                .await
+                            {
+                                warn!(
+                                    target: logs::targets::PRODUCER,
+                                    "fail to confirm connection of {}; error: {:?}", uuid, err,
+                                );
+                            }
                         } else {
                             emitters::error::emit::<E, C>(
                                 ProducerError::ConsumerError(format!(
-- 
2.43.0


From 74fb264e1c8c7eece70468ee2a90cb4d13bca51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:25 +0000
Subject: [PATCH 27/27] fix: a consumer that could not be disconnected ended
 the Rust producer

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 7b2c13b..891f85e 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -324,7 +324,12 @@ pub mod producer {
             return Ok(());
         }
         consumer.get_mut_identification().discredited();
-        control.disconnect(uuid).await?;
+        if let Err(err) = control.disconnect(uuid).await {
+            warn!(
+                target: logs::targets::PRODUCER,
+                "fail to disconnect {}; error: {:?}", uuid, err,
+            );
+        }
         Ok(())
     }
 
-- 
2.43.0

