From c1ae150d5873a4d61d59f6dc6a1515cb0181c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 01/21] fix: retry interrupted reads when filling the stream
 buffer

---
 src/readable.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/readable.rs b/src/readable.rs
index d6d130a..f7e117a 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -296,6 +296,16 @@ struct StreamReader< C: Context, S: Read > {
     is_buffering: bool
 }
 
+#[cfg(feature = "std")]
+fn read_retrying_interrupted< S: Read >( reader: &mut S, chunk: &mut [u8] ) -> std::io::Result< usize > {
+    loop {
+        match reader.read( chunk ) {
+            Err( ref error ) if error.kind() == std::io::ErrorKind::Interrupted => continue,
+            result => return result
+        }
+    }
+}
+
 #[cfg(feature = "std")]
 impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
     #[inline(never)]
@@ -304,7 +314,7 @@ impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
             let reader = &mut self.reader;
             while self.buffer.len() < self.buffer.capacity() {
                 let bytes_written = self.buffer.try_append_with( self.buffer.capacity() - self.buffer.len(), |chunk| {
-                    reader.read( chunk )
+                    read_retrying_interrupted( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
@@ -363,7 +373,7 @@ impl< 'a, C: Context, S: Read > Reader< 'a, C > for StreamReader< C, S > {
                 }
 
                 let bytes_written = self.buffer.try_append_with( chunk_size, |chunk| {
-                    reader.read( chunk )
+                    read_retrying_interrupted( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
-- 
2.43.0


From d6b06b19609c2ead55f3d7bbc0e3e4534afb6d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 02/21] fix: peek_u64_varint returned wrong values for
 multi-byte varints

---
 src/varint.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/varint.rs b/src/varint.rs
index 93e7b3c..21d621a 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -164,7 +164,19 @@ impl VarInt64 {
         where C: Context,
               R: Reader< 'a, C >
     {
-        impl_read!( reader, peek_u8, peek_bytes )
+        let first_byte = reader.peek_u8()?;
+        let length = (!first_byte).leading_zeros() as usize;
+
+        let upper_mask = 0b11111111_u64 >> length;
+        let upper_bits = (upper_mask & (first_byte as u64)).wrapping_shl( length as u32 * 8 );
+
+        // Peeking always starts at the current position, so the first byte has to be peeked again.
+        let mut bytes = [0; 9];
+        reader.peek_bytes( &mut bytes[ ..length + 1 ] )?;
+
+        let mut value = [0; 8];
+        value[ ..length ].copy_from_slice( &bytes[ 1..length + 1 ] );
+        Ok( VarInt64( upper_bits | u64::from_le_bytes( value ) ) )
     }
 }
 
-- 
2.43.0


From f8b138fdf4f0cfe5a429e0a2db004d2fc1193ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 03/21] fix: decode zigzag-encoded varints into the original
 signed value

---
 src/varint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/varint.rs b/src/varint.rs
index 21d621a..e2220d8 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -99,7 +99,7 @@ impl From< VarInt64 > for i64 {
     #[inline]
     fn from( value: VarInt64 ) -> Self {
         let value = value.0;
-        ((value >> 1) ^ (value << 15)) as i64
+        ((value >> 1) as i64) ^ -((value & 1) as i64)
     }
 }
 
-- 
2.43.0


From bca7bdf20efcb87dbcc7a6973c2676803f20cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 04/21] fix: reject unrepresentable durations instead of
 panicking

---
 src/error.rs         | 7 +++++++
 src/readable_impl.rs | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 480f3ba..d1d2e80 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -9,6 +9,7 @@ pub enum ErrorKind {
     InvalidEnumVariant,
     InvalidUtf8,
     InvalidSystemTime,
+    InvalidDuration,
     ZeroNonZero,
     OutOfRangeLength,
     OutOfRangeUsize,
@@ -92,6 +93,7 @@ impl core::fmt::Display for Error {
             ErrorKind::InvalidEnumVariant => write!( fmt, "invalid enum variant" ),
             ErrorKind::InvalidUtf8 => write!( fmt, "encountered invalid utf-8" ),
             ErrorKind::InvalidSystemTime => write!( fmt, "encountered invalid system time object" ),
+            ErrorKind::InvalidDuration => write!( fmt, "encountered an out of range duration" ),
             ErrorKind::ZeroNonZero => write!( fmt, "a field which is supposed to be non-zero is zero" ),
             ErrorKind::OutOfRangeLength => write!( fmt, "out of range length" ),
             ErrorKind::OutOfRangeUsize => write!( fmt, "value cannot fit into an usize on this architecture" ),
@@ -205,6 +207,11 @@ pub fn error_invalid_system_time< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::InvalidSystemTime ) )
 }
 
+#[cold]
+pub fn error_invalid_duration< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::InvalidDuration ) )
+}
+
 #[cfg(feature = "alloc")]
 #[cold]
 pub fn error_expected_constant< T >( constant: &'static [u8] ) -> T where T: From< Error > {
diff --git a/src/readable_impl.rs b/src/readable_impl.rs
index 032b114..db419a3 100644
--- a/src/readable_impl.rs
+++ b/src/readable_impl.rs
@@ -562,7 +562,12 @@ impl< 'a, C > Readable< 'a, C > for core::time::Duration where C: Context {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let secs = reader.read_u64()?;
         let nanos = reader.read_u32()?;
-        Ok( core::time::Duration::new( secs, nanos ) )
+
+        const NANOS_PER_SEC: u32 = 1_000_000_000;
+        match secs.checked_add( (nanos / NANOS_PER_SEC) as u64 ) {
+            Some( secs ) => Ok( core::time::Duration::new( secs, nanos % NANOS_PER_SEC ) ),
+            None => Err( crate::error::error_invalid_duration() )
+        }
     }
 
     #[inline]
-- 
2.43.0


From abe29bdff678453310f1853e45fcae8d5f48bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 05/21] fix: reject out of range timestamps instead of
 panicking

---
 src/error.rs      | 8 ++++++++
 src/ext_chrono.rs | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index d1d2e80..b3dfcc1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -10,6 +10,7 @@ pub enum ErrorKind {
     InvalidUtf8,
     InvalidSystemTime,
     InvalidDuration,
+    InvalidDateTime,
     ZeroNonZero,
     OutOfRangeLength,
     OutOfRangeUsize,
@@ -93,6 +94,7 @@ impl core::fmt::Display for Error {
             ErrorKind::InvalidEnumVariant => write!( fmt, "invalid enum variant" ),
             ErrorKind::InvalidUtf8 => write!( fmt, "encountered invalid utf-8" ),
             ErrorKind::InvalidSystemTime => write!( fmt, "encountered invalid system time object" ),
+            ErrorKind::InvalidDateTime => write!( fmt, "encountered an out of range date and time" ),
             ErrorKind::InvalidDuration => write!( fmt, "encountered an out of range duration" ),
             ErrorKind::ZeroNonZero => write!( fmt, "a field which is supposed to be non-zero is zero" ),
             ErrorKind::OutOfRangeLength => write!( fmt, "out of range length" ),
@@ -212,6 +214,12 @@ pub fn error_invalid_duration< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::InvalidDuration ) )
 }
 
+#[cfg(feature = "chrono")]
+#[cold]
+pub fn error_invalid_date_time< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::InvalidDateTime ) )
+}
+
 #[cfg(feature = "alloc")]
 #[cold]
 pub fn error_expected_constant< T >( constant: &'static [u8] ) -> T where T: From< Error > {
diff --git a/src/ext_chrono.rs b/src/ext_chrono.rs
index 5397a71..93c4e73 100644
--- a/src/ext_chrono.rs
+++ b/src/ext_chrono.rs
@@ -20,7 +20,7 @@ impl< 'a, C > Readable< 'a, C > for DateTime< Utc >
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let seconds = reader.read_i64()?;
         let subsec_nanos = reader.read_u32()?;
-        Ok( Utc.timestamp( seconds, subsec_nanos ) )
+        Utc.timestamp_opt( seconds, subsec_nanos ).single().ok_or_else( crate::error::error_invalid_date_time )
     }
 
     #[inline]
-- 
2.43.0


From 2418d4f3b87662ab799f55026befde7554f1d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 06/21] fix: report errors which only surface when
 write_to_file flushes its buffer

---
 src/writable.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/writable.rs b/src/writable.rs
index 716fce8..e935023 100644
--- a/src/writable.rs
+++ b/src/writable.rs
@@ -236,8 +236,12 @@ pub trait Writable< C: Context > {
             let error = Error::from_io_error( error );
             <C::Error as From< Error >>::from( error )
         })?;
-        let stream = io::BufWriter::new( stream );
-        self.write_to_stream_with_ctx( context, stream )
+        let mut stream = io::BufWriter::new( stream );
+        self.write_to_stream_with_ctx( context, &mut stream )?;
+        io::Write::flush( &mut stream ).map_err( |error| {
+            let error = Error::from_io_error( error );
+            <C::Error as From< Error >>::from( error )
+        })
     }
 
     #[inline]
-- 
2.43.0


From 04df6c948bbc96cabda269547becedf6c440748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 07/21] fix: read_vec preallocated whatever a stream promised,
 skipped zero-sized elements and leaked on panic

---
 src/reader.rs | 56 +++++++++++++++++++++------------------------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index eb5febd..3b83261 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -526,47 +526,37 @@ pub trait Reader< 'a, C: Context >: Sized {
             return Err( error_end_of_input() );
         }
 
-        let mut vec = Vec::with_capacity( length );
+        // When reading from a source of an unknown size there might be a lot less data than promised,
+        // so in that case don't preallocate too much memory upfront.
+        const MAX_PREALLOCATION: usize = 64 * 1024;
+        let preallocate = if self.can_read_at_least( required ).is_some() {
+            length
+        } else {
+            core::cmp::min( length, MAX_PREALLOCATION / core::cmp::max( 1, mem::size_of::< T >() ) )
+        };
+
+        let mut vec: Vec< T > = Vec::with_capacity( preallocate );
         if T::speedy_is_primitive() {
             unsafe {
-                self.read_bytes_into_ptr( vec.as_mut_ptr() as *mut u8, vec.capacity() * core::mem::size_of::< T >() )?;
-                vec.set_len( length );
+                self.read_bytes_into_ptr( vec.as_mut_ptr() as *mut u8, preallocate * mem::size_of::< T >() )?;
+                vec.set_len( preallocate );
             }
 
-            T::speedy_convert_slice_endianness( self.endianness(), &mut vec );
-        } else {
-            #[inline(never)]
-            #[cold]
-            fn drop_vec< T >( mut vec: Vec< T >, length: usize ) {
+            while vec.len() < length {
+                let offset = vec.len();
+                let count = core::cmp::min( length - offset, core::cmp::max( 1, offset ) );
+                vec.reserve( count );
                 unsafe {
-                    vec.set_len( length );
+                    self.read_bytes_into_ptr( vec.as_mut_ptr().add( offset ) as *mut u8, count * mem::size_of::< T >() )?;
+                    vec.set_len( offset + count );
                 }
-
-                core::mem::drop( vec );
             }
 
-            let mut p = vec.as_mut_ptr();
-            let e = unsafe { p.add( length ) };
-
-            // We deliberately have a separate counter instead
-            // of subtracting pointers as this optimizes better.
-            let mut count = 0;
-            while p < e {
-                let value = match self.read_value() {
-                    Ok( value ) => value,
-                    Err( error ) => {
-                        drop_vec( vec, count );
-                        return Err( error );
-                    }
-                };
-                unsafe {
-                    core::ptr::write( p, value );
-                    p = p.add( 1 );
-                    count += 1;
-                }
-            }
-            unsafe {
-                vec.set_len( length );
+            T::speedy_convert_slice_endianness( self.endianness(), &mut vec );
+        } else {
+            while vec.len() < length {
+                let value = self.read_value()?;
+                vec.push( value );
             }
         }
 
-- 
2.43.0


From 6f33525c75d7323a1937bbc2dbed23ca5a9cb1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 08/21] fix: check for overflow in read_cow when the length
 comes from a 64-bit length field

---
 src/reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3b83261..a05ac01 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -589,9 +589,14 @@ pub trait Reader< 'a, C: Context >: Sized {
               [T]: ToOwned< Owned = Vec< T > >
     {
         if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
-            if let Some( bytes ) = self.read_bytes_borrowed( length * mem::size_of::< T >() ) {
+            let bytesize = match length.checked_mul( mem::size_of::< T >() ) {
+                Some( bytesize ) => bytesize,
+                None => return Err( error_end_of_input() )
+            };
+
+            if let Some( bytes ) = self.read_bytes_borrowed( bytesize ) {
                 let bytes = bytes?;
-                assert_eq!( bytes.len(), length * mem::size_of::< T >() );
+                assert_eq!( bytes.len(), bytesize );
 
                 if mem::align_of::< T >() == 1 || bytes.as_ptr() as usize % mem::align_of::< T >() == 0 {
                     let slice = unsafe { T::speedy_slice_from_bytes( bytes ) };
-- 
2.43.0


From bf240e0900ac684f84a462b100badf82bc89087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 09/21] fix: reject misaligned input for borrowed slices
 instead of creating misaligned references

---
 speedy-derive/src/lib.rs     | 15 ++----------
 src/error.rs                 |  7 ++++++
 src/private.rs               | 46 +++++++++++++++++++++++++++++++++++-
 src/readable_unsized_impl.rs | 19 +++------------
 4 files changed, 57 insertions(+), 30 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 6dd2f61..bcbe8e6 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1573,22 +1573,11 @@ fn read_field_body( field: &Field ) -> TokenStream {
         if let Some( ref read_length_body ) = read_length_body {
             inner = quote! {{
                 let _length_ = #read_length_body;
-                _length_.checked_mul( core::mem::size_of::< #inner_ty >() )
-                    .ok_or_else( speedy::private::error_out_of_range_length )
-                    .and_then( |bytelength| {
-                        _reader_.read_bytes_borrowed( bytelength )
-                            .ok_or_else( speedy::private::error_unsized )
-                            .and_then( |error| error )
-                    })
-                    .map( |slice| unsafe { core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, _length_ ) } )
+                speedy::private::read_borrowed_slice::< C_, _, #inner_ty >( _length_, _reader_ )
             }}
         } else {
             inner = quote! {{
-                _reader_.read_bytes_borrowed_until_eof()
-                    .ok_or_else( speedy::private::error_unsized )
-                    .map( |slice| unsafe {
-                        core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, slice.len() / core::mem::size_of::< #inner_ty >() )
-                    })
+                speedy::private::read_borrowed_slice_until_eof::< C_, _, #inner_ty >( _reader_ )
             }}
         }
 
diff --git a/src/error.rs b/src/error.rs
index b3dfcc1..fb87d85 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -34,6 +34,7 @@ pub enum ErrorKind {
 
     Unsized,
     EndiannessMismatch,
+    MisalignedInput,
 
     #[cfg(feature = "std")]
     IoError( std::io::Error )
@@ -107,6 +108,7 @@ impl core::fmt::Display for Error {
             ErrorKind::ExpectedConstant { constant } => write!( fmt, "expected a predefined {} bytes(s) long constant", constant.len() ),
             ErrorKind::Unsized => write!( fmt, "type is unsized hence requires zero-copy deserialization; use `read_from_buffer` or similar to deserialize it" ),
             ErrorKind::EndiannessMismatch => write!( fmt, "endianness mismatch" ),
+            ErrorKind::MisalignedInput => write!( fmt, "the input data is not properly aligned to be borrowed as the requested type" ),
 
             #[cfg(feature = "std")]
             ErrorKind::IoError( ref error ) => write!( fmt, "{}", error ),
@@ -235,3 +237,8 @@ pub fn error_unsized< T >() -> T where T: From< Error > {
 pub fn error_endianness_mismatch< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::EndiannessMismatch ) )
 }
+
+#[cold]
+pub fn error_misaligned_input< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::MisalignedInput ) )
+}
diff --git a/src/private.rs b/src/private.rs
index 40076e6..6a4af2a 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -9,7 +9,10 @@ use {
 };
 
 #[cfg(feature = "alloc")]
-use crate::{Error, error::{error_expected_constant, error_invalid_string_utf8}};
+use crate::error::{error_expected_constant, error_invalid_string_utf8};
+
+use crate::Error;
+use crate::error::{error_end_of_input, error_misaligned_input};
 
 #[cfg(feature = "alloc")]
 use alloc::{borrow::Cow, string::String, vec::Vec};
@@ -54,6 +57,47 @@ pub fn cow_bytes_to_cow_str< E >( bytes: Cow<'_, [u8] > ) -> Result< Cow<'_, str
     }
 }
 
+// The type passed as `T` here must be able to hold any bit pattern,
+// and `bytes` must be at least `length * size_of::< T >()` bytes long.
+#[inline(always)]
+unsafe fn cast_slice< 'a, T, E >( bytes: &'a [u8], length: usize ) -> Result< &'a [T], E > where E: From< Error > {
+    debug_assert!( bytes.len() >= length * core::mem::size_of::< T >() );
+
+    let mut pointer = bytes.as_ptr() as *const T;
+    if core::mem::align_of::< T >() != 1 {
+        if length == 0 || core::mem::size_of::< T >() == 0 {
+            // There's nothing to borrow, but the pointer still has to be aligned.
+            pointer = core::ptr::NonNull::dangling().as_ptr();
+        } else if pointer as usize % core::mem::align_of::< T >() != 0 {
+            return Err( error_misaligned_input() );
+        }
+    }
+
+    Ok( unsafe { core::slice::from_raw_parts( pointer, length ) } )
+}
+
+#[inline(always)]
+pub fn read_borrowed_slice< 'a, C, R, T >( length: usize, reader: &mut R ) -> Result< &'a [T], C::Error >
+    where C: Context,
+          R: Reader< 'a, C >,
+          T: ZeroCopyable< C, T >
+{
+    let bytelength = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( error_end_of_input )?;
+    let bytes = reader.read_bytes_borrowed( bytelength ).ok_or_else( error_unsized )??;
+    unsafe { cast_slice( bytes, length ) }
+}
+
+#[inline(always)]
+pub fn read_borrowed_slice_until_eof< 'a, C, R, T >( reader: &mut R ) -> Result< &'a [T], C::Error >
+    where C: Context,
+          R: Reader< 'a, C >,
+          T: ZeroCopyable< C, T >
+{
+    let bytes = reader.read_bytes_borrowed_until_eof().ok_or_else( error_unsized )?;
+    let length = bytes.len().checked_div( core::mem::size_of::< T >() ).unwrap_or( 0 );
+    unsafe { cast_slice( bytes, length ) }
+}
+
 #[inline]
 pub fn write_length_u64_varint< C, W >( length: usize, writer: &mut W ) -> Result< (), C::Error >
     where C: Context,
diff --git a/src/readable_unsized_impl.rs b/src/readable_unsized_impl.rs
index 1285686..f1315cb 100644
--- a/src/readable_unsized_impl.rs
+++ b/src/readable_unsized_impl.rs
@@ -40,12 +40,7 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
         }
 
         let length = crate::private::read_length( reader )?;
-        let bytelength = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( crate::error::error_out_of_range_length )?;
-        let bytes = reader.read_bytes_borrowed( bytelength ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe {
-            core::slice::from_raw_parts( bytes.as_ptr() as *const T, length )
-        };
-        Ok( slice )
+        crate::private::read_borrowed_slice( length, reader )
     }
 
     #[inline]
@@ -54,13 +49,6 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
     }
 }
 
-#[inline(always)]
-unsafe fn cast_slice< T, const N: usize >( slice: &[u8] ) -> &[T; N] {
-    unsafe {
-        &*(slice.as_ptr() as *const [T; N])
-    }
-}
-
 impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where T: crate::utils::ZeroCopyable< C, T > {
     #[inline]
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
@@ -68,9 +56,8 @@ impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where
             return Err( crate::error::error_endianness_mismatch() );
         }
 
-        let bytes = reader.read_bytes_borrowed( core::mem::size_of::< T >() * N ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe { cast_slice( bytes ) };
-        Ok( slice )
+        let slice: &[T] = crate::private::read_borrowed_slice( N, reader )?;
+        Ok( unsafe { &*(slice.as_ptr() as *const [T; N]) } )
     }
 
     #[inline]
-- 
2.43.0


From 2ebbf4af4c65fe9a674e787deeff2f482efbb834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 10/21] fix: report an overflowing collection length as an
 unexpected end of input

---
 src/reader.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index a05ac01..74d35ba 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -638,9 +638,7 @@ pub trait Reader< 'a, C: Context >: Sized {
               T: Readable< 'a, C >
     {
         if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
-            let bytesize = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( || {
-                crate::error::error_too_big_usize_for_this_architecture() // TODO: Use different error maybe?
-            })?;
+            let bytesize = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( error_end_of_input )?;
 
             if let Some( bytes ) = self.read_bytes_borrowed_from_reader( bytesize ) {
                 let bytes = bytes?;
@@ -664,9 +662,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         struct Pair< K, V >( K, V );
 
         if K::speedy_is_primitive() && V::speedy_is_primitive() && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
-            let bytesize = length.checked_mul( core::mem::size_of::< Pair< K, V > >() ).ok_or_else( || {
-                crate::error::error_too_big_usize_for_this_architecture()
-            })?;
+            let bytesize = length.checked_mul( core::mem::size_of::< Pair< K, V > >() ).ok_or_else( error_end_of_input )?;
 
             if let Some( bytes ) = self.read_bytes_borrowed_from_reader( bytesize ) {
                 let bytes = bytes?;
-- 
2.43.0


From 8f2fcb1182b5efece1b943608525662265d7176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 11/21] fix: never expose uninitialized memory to user-provided
 readers

---
 src/circular_buffer.rs | 17 +++++------------
 src/reader.rs          |  6 +++++-
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/circular_buffer.rs b/src/circular_buffer.rs
index 8321eb5..03b8e26 100644
--- a/src/circular_buffer.rs
+++ b/src/circular_buffer.rs
@@ -215,16 +215,9 @@ impl CircularBuffer {
     }
 
     pub fn with_capacity( capacity: usize ) -> Self {
-        let mut buffer = Vec::with_capacity( capacity );
-        unsafe {
-            buffer.set_len( capacity );
-            if cfg!( debug_assertions ) {
-                std::ptr::write_bytes( buffer.as_mut_ptr(), 0xFF, buffer.len() );
-            }
-        }
-
+        // This buffer is passed to user-provided `Read` implementations, so it must be initialized.
         CircularBuffer {
-            buffer: buffer.into_boxed_slice(),
+            buffer: vec![ 0_u8; capacity ].into_boxed_slice(),
             position: 0,
             length: 0
         }
@@ -271,9 +264,7 @@ impl CircularBuffer {
         }
 
         new_capacity = new_buffer.capacity();
-        unsafe {
-            new_buffer.set_len( new_capacity );
-        }
+        new_buffer.resize( new_capacity, 0_u8 );
 
         let (a, b) = occupied( self.position, self.length, self.buffer.len() );
         new_buffer[ 0..a.len() ].copy_from_slice( &self.buffer[ a.clone() ] );
@@ -290,7 +281,9 @@ impl CircularBuffer {
         self.reserve( size );
 
         let (range, _) = empty( self.position, self.length, self.buffer.len(), size );
+        let chunk_length = range.len();
         let bytes_written = callback( &mut self.buffer[ range ] )?;
+        assert!( bytes_written <= chunk_length, "the underlying reader claims to have read more bytes than were requested" );
 
         self.length += bytes_written;
         Ok( bytes_written )
diff --git a/src/reader.rs b/src/reader.rs
index 74d35ba..d41ceda 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -62,6 +62,8 @@ pub trait Reader< 'a, C: Context >: Sized {
     #[inline(always)]
     unsafe fn read_bytes_into_ptr( &mut self, output: *mut u8, length: usize ) -> Result< (), C::Error > {
         unsafe {
+            // The output might be uninitialized, so make sure that's not observable.
+            core::ptr::write_bytes( output, 0, length );
             self.read_bytes( core::slice::from_raw_parts_mut( output, length ) )
         }
     }
@@ -69,6 +71,8 @@ pub trait Reader< 'a, C: Context >: Sized {
     #[inline(always)]
     unsafe fn peek_bytes_into_ptr( &mut self, output: *mut u8, length: usize ) -> Result< (), C::Error > {
         unsafe {
+            // The output might be uninitialized, so make sure that's not observable.
+            core::ptr::write_bytes( output, 0, length );
             self.peek_bytes( core::slice::from_raw_parts_mut( output, length ) )
         }
     }
@@ -76,7 +80,7 @@ pub trait Reader< 'a, C: Context >: Sized {
     #[inline(always)]
     fn skip_bytes( &mut self, mut length: usize ) -> Result< (), C::Error > {
         const CHUNK_SIZE: usize = 1024;
-        let mut dummy_buffer: [MaybeUninit< u8 >; CHUNK_SIZE] = unsafe { MaybeUninit::uninit().assume_init() };
+        let mut dummy_buffer: [MaybeUninit< u8 >; CHUNK_SIZE] = [MaybeUninit::uninit(); CHUNK_SIZE];
 
         while length > 0 {
             let chunk_size = if length < CHUNK_SIZE { length } else { CHUNK_SIZE };
-- 
2.43.0


From aa6ec56b8e8742fb8fd632bd220bbd7bec2e4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 12/21] fix: do not treat derived zero-sized types as
 bulk-copyable primitives (division by zero)

---
 speedy-derive/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index bcbe8e6..521bb05 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2043,8 +2043,13 @@ fn min< I >( values: I ) -> TokenStream where I: IntoIterator< Item = TokenStrea
 }
 
 fn generate_is_primitive( fields: &[Field], is_writable: bool, check_order: bool, is_forced: bool ) -> TokenStream {
-    if fields.is_empty() || is_forced {
-        return quote! { true };
+    // A type which doesn't take up any space in memory can't be read nor written in bulk.
+    if fields.is_empty() {
+        return quote! { false };
+    }
+
+    if is_forced {
+        return quote! { core::mem::size_of::< Self >() != 0 };
     }
 
     let mut is_primitive = Vec::new();
@@ -2079,6 +2084,7 @@ fn generate_is_primitive( fields: &[Field], is_writable: bool, check_order: bool
 
     is_primitive.push( quote! {
         && (#(#fields_size)*) == core::mem::size_of::< Self >()
+        && core::mem::size_of::< Self >() != 0
     });
 
     if check_order {
@@ -2157,7 +2163,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                 quote! {
                     #[inline(always)]
                     fn speedy_is_primitive() -> bool {
-                        <#field_ty as speedy::Readable< 'a_, C_ >>::speedy_is_primitive()
+                        <#field_ty as speedy::Readable< 'a_, C_ >>::speedy_is_primitive() && core::mem::size_of::< Self >() != 0
                     }
 
                     #[inline]
@@ -2369,7 +2375,7 @@ fn impl_writable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                     quote! {
                         #[inline(always)]
                         fn speedy_is_primitive() -> bool {
-                            <#field_ty as speedy::Writable< C_ >>::speedy_is_primitive()
+                            <#field_ty as speedy::Writable< C_ >>::speedy_is_primitive() && core::mem::size_of::< Self >() != 0
                         }
 
                         #[inline(always)]
-- 
2.43.0


From b73583ae36850391212149c141ba264f8a8d4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 13/21] fix: implement endianness flipping for derived
 transparent types

---
 speedy-derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 521bb05..ea4c7b8 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2172,6 +2172,13 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                         core::slice::from_raw_parts( slice.as_ptr() as *const Self, slice.len() )
                     }
 
+                    #[inline(always)]
+                    unsafe fn speedy_flip_endianness( itself: *mut Self ) {
+                        unsafe {
+                            <#field_ty as speedy::Readable< 'a_, C_ >>::speedy_flip_endianness( itself as *mut #field_ty );
+                        }
+                    }
+
                     #[inline(always)]
                     fn speedy_convert_slice_endianness( endianness: speedy::Endianness, slice: &mut [Self] ) {
                         unsafe {
-- 
2.43.0


From 83032a0bcda8c13eecb9f991bdc3dd9c15ff7391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 14/21] fix: take field attributes into account when deriving
 bulk copies for transparent and packed types

---
 speedy-derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index ea4c7b8..4f2a439 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2132,7 +2132,7 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
         is_ty_transparent,
         is_ty_potentially_primitive: can_be_primitive && (is_forced || is_ty_transparent || is_ty_packed || is_ty_c || is_ty_simple || (!uses_generics( &input ) && structure.fields.len() <= 4)),
         check_order,
-        impl_zerocopyable: is_ty_packed || is_ty_transparent || is_forced,
+        impl_zerocopyable: can_be_primitive && (is_ty_packed || is_ty_transparent || is_forced),
         is_forced
     }
 }
@@ -2158,7 +2158,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                 field_types.push( field.raw_ty.clone() );
             }
 
-            let impl_primitive = if is_primitive.is_ty_transparent {
+            let impl_primitive = if is_primitive.is_ty_transparent && is_primitive.is_ty_potentially_primitive {
                 let field_ty = &structure.fields[ 0 ].raw_ty;
                 quote! {
                     #[inline(always)]
@@ -2377,7 +2377,7 @@ fn impl_writable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let (body, _) = writable_body( &mut types, &st );
 
             let impl_primitive =
-                if is_primitive.is_ty_transparent {
+                if is_primitive.is_ty_transparent && is_primitive.is_ty_potentially_primitive {
                     let field_ty = &st.fields[ 0 ].raw_ty;
                     quote! {
                         #[inline(always)]
-- 
2.43.0


From 80414f334d6c33468c0c2999de1df101bfdf945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 15/21] fix: default_on_eof on an optional container always
 falls back to None

---
 speedy-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 4f2a439..0322711 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1423,7 +1423,7 @@ fn read_field_body( field: &Field ) -> TokenStream {
                 speedy::private::#read_length_fn( _reader_ )
             };
 
-            if field.default_on_eof {
+            if field.default_on_eof && !matches!( field.ty, Opt::Option( _ ) ) {
                 Some( default_on_eof_body( body ) )
             } else {
                 Some( quote! { #body? } )
-- 
2.43.0


From 2ea9f402a6a831b2095f457e98dd40a5c16d4484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 16/21] fix: support skipped fields in enum variants

---
 speedy-derive/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 0322711..836943d 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1804,22 +1804,30 @@ fn write_field_body( field: &Field ) -> TokenStream {
 }
 
 fn writable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream) {
-    let mut field_names = Vec::new();
+    let mut field_patterns = Vec::new();
     let mut field_writers = Vec::new();
     for field in &st.fields {
         if field.skip {
+            if field.name.is_none() {
+                field_patterns.push( quote! { _ } );
+            } else {
+                let name = field.name();
+                field_patterns.push( quote! { #name: _ } );
+            }
+
             continue;
         }
 
         let write_value = write_field_body( &field );
         types.extend( field.bound_types() );
 
-        field_names.push( field.var_name().clone() );
+        let name = field.var_name();
+        field_patterns.push( quote! { ref #name } );
         field_writers.push( write_value );
     }
 
     let body = quote! { #(#field_writers)* };
-    let initializer = quote! { #(ref #field_names),* };
+    let initializer = quote! { #(#field_patterns),* };
     let initializer = match st.kind {
         StructKind::Unit => initializer,
         StructKind::Unnamed => quote! { ( #initializer ) },
-- 
2.43.0


From d577a4e8dc6c904d5b7665ec25ed4f9093af5df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 17/21] fix: accept -128_i8 as a constant prefix

---
 speedy-derive/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 836943d..cd56c75 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -916,7 +916,10 @@ impl syn::parse::Parse for FieldAttribute {
                             match literal {
                                 syn::Lit::Int( literal ) => {
                                     if literal.suffix() == "i8" {
-                                        vec![ (literal.base10_parse::< i8 >().unwrap() * -1) as u8 ]
+                                        match literal.base10_parse::< u8 >() {
+                                            Ok( value ) if value <= 128 => vec![ value.wrapping_neg() ],
+                                            _ => return generic_error()
+                                        }
                                     } else if literal.suffix() == "u8" {
                                         return generic_error()
                                     } else {
-- 
2.43.0


From c2f1f72c2bde8d40112fa1abba1ad9b16fc27491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 18/21] fix: derive usable bounds for optional fields of
 generic types

---
 speedy-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index cd56c75..af19dbe 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -801,7 +801,8 @@ impl< 'a > Field< 'a > {
             | Ty::CowStr( .. )
             | Ty::Primitive( .. )
                 => vec![],
-            | Ty::Ty( _ ) => vec![ self.raw_ty.clone() ]
+            | Ty::Ty( inner_ty )
+                => vec![ inner_ty.clone() ]
         }
     }
 
-- 
2.43.0


From f3a8dcb0f84777f6b962997eff728daaf7ff9472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 19/21] fix: refuse huge slices of zero-sized elements instead
 of running into unreachable_unchecked

---
 src/writable_impl.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/writable_impl.rs b/src/writable_impl.rs
index da28115..50b979d 100644
--- a/src/writable_impl.rs
+++ b/src/writable_impl.rs
@@ -7,7 +7,7 @@ use crate::writer::Writer;
 
 use crate::context::Context;
 
-use crate::private::write_length;
+use crate::private::{error_out_of_range_length, write_length};
 
 #[cfg(feature = "std")]
 use std::{
@@ -260,6 +260,11 @@ impl< C: Context, T: Writable< C > > Writable< C > for [T] {
 
     #[inline]
     fn bytes_needed( &self ) -> Result< usize, C::Error > {
+        // Slices of zero-sized elements don't take up any memory, so they can have *any* length.
+        if mem::size_of::< T >() == 0 && self.len() as u64 > core::u32::MAX as u64 {
+            return Err( error_out_of_range_length() );
+        }
+
         unsafe_is_length!( self.len() );
 
         if T::speedy_is_primitive() {
-- 
2.43.0


From 2870111603e37cbd6ba19adc41aa0fc5e514d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 20/21] fix: keep the byte order of IPv6 addresses on
 big-endian machines

---
 src/readable_impl.rs | 2 +-
 src/writable_impl.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/readable_impl.rs b/src/readable_impl.rs
index db419a3..da326bb 100644
--- a/src/readable_impl.rs
+++ b/src/readable_impl.rs
@@ -527,7 +527,7 @@ impl< 'a, C > Readable< 'a, C > for core::net::Ipv6Addr where C: Context {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let mut octets = [0; 16];
         reader.read_bytes( &mut octets )?;
-        if !reader.endianness().conversion_necessary() {
+        if reader.endianness() == Endianness::LittleEndian {
             octets.reverse();
         }
 
diff --git a/src/writable_impl.rs b/src/writable_impl.rs
index 50b979d..6698e47 100644
--- a/src/writable_impl.rs
+++ b/src/writable_impl.rs
@@ -620,7 +620,7 @@ impl< C > Writable< C > for core::net::Ipv6Addr where C: Context {
     #[inline]
     fn write_to< W >( &self, writer: &mut W ) -> Result< (), C::Error > where W: ?Sized + Writer< C > {
         let mut octets = self.octets();
-        if !writer.endianness().conversion_necessary() {
+        if writer.endianness() == Endianness::LittleEndian {
             octets.reverse();
         }
 
-- 
2.43.0


From b20901a92230eaf15ca6127227b090550335e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:41 +0000
Subject: [PATCH 21/21] fix: read files whose size is not known upfront (pipes,
 devices, procfs) in read_from_file

---
 src/readable.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/readable.rs b/src/readable.rs
index f7e117a..22493b1 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -657,6 +657,12 @@ pub trait Readable< 'a, C: Context >: Sized {
             }
 
             let mut mmap = Mmap::open( &stream )?;
+            if mmap.is_empty() {
+                // Either the file's really empty, or its size is not known upfront
+                // since it's e.g. a pipe, a device, or was generated by the kernel.
+                return Self::read_from_stream_buffered_with_ctx( context, stream );
+            }
+
             unsafe {
                 mmap.madvise( MADV_SEQUENTIAL )?;
                 mmap.madvise( MADV_WILLNEED )?;
-- 
2.43.0

