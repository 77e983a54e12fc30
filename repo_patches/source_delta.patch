From b851caba0b91601427712a1c26264db9d9647575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 01/17] fix: reject long frames whose length can't hold control
 and address

A length byte of 0 or 1 made `length - 2` underflow: a panic in debug builds
and a wrapped, 254 byte read in release ones.
---
 src/parse/link_layer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 08a323b..f8d5be2 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -138,7 +138,9 @@ where
 		+ winnow::stream::Compare<u8>
 		+ Clone,
 {
+	// NOTE: The length always covers at least the control and address bytes
 	let length = binary::u8
+		.verify(|v| *v >= 2)
 		.context(StrContext::Label("length"))
 		.parse_next(input)?;
 	binary::u8
-- 
2.43.0


From fd6cf58767f4c376122f993112e183ae483124fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 02/17] fix: ask for more data when partial input ends before
 the control byte

The bit level parsers used the plain error type, which can't represent
"incomplete", so streaming input that happened to be split directly before the
control byte was rejected instead of waiting for the rest of the frame.
---
 src/parse/link_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index f8d5be2..5671203 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -73,7 +73,7 @@ impl Control {
 			bits::bool.context(StrContext::Label("PRM")),
 			bits::bool.context(StrContext::Label("FCB/ACD")),
 			bits::bool.context(StrContext::Label("FCV/DFC")),
-			bits::take::<_, u8, _, MBusError>(4_usize).context(StrContext::Label("function")),
+			bits::take::<_, u8, _, ErrMode<MBusError>>(4_usize).context(StrContext::Label("function")),
 		))
 		.verify_map(|(_, prm, fcb_acd, fcv_dfc, function)| {
 			Some(if prm {
-- 
2.43.0


From de5616b6e09a13101c602309b87d4e4f6b4fbfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 03/17] fix: leave bytes after a long frame to the caller

Long frames demanded the end of the input after the frame tail, unlike short
frames and ACKs. When streaming, a frame was therefore accepted or rejected
depending on whether the next frame's first byte had arrived yet.
`Parser::parse` still rejects trailing bytes.
---
 src/parse/link_layer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 5671203..d3463a9 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -3,7 +3,7 @@
 
 use winnow::binary;
 use winnow::binary::bits;
-use winnow::combinator::{alt, cut_err, eof, preceded};
+use winnow::combinator::{alt, cut_err, preceded};
 use winnow::error::{AddContext, ErrMode, ParserError, StrContext};
 use winnow::prelude::*;
 use winnow::stream::{Stream, StreamIsPartial};
@@ -162,13 +162,12 @@ where
 	)
 		.parse_next(input)?;
 
-	let (data, checksum, _, _) = (
+	let (data, checksum, _) = (
 		// NOTE: The `length` includes the `control` and `address` bytes parsed above as well as
 		// the actual packet data, so we need to knock 2 bytes off the data length.
 		take(length - 2).context(StrContext::Label("packet data")),
 		binary::u8.context(StrContext::Label("checksum")),
 		FRAME_TAIL.void().context(StrContext::Label("frame tail")),
-		eof.void(),
 	)
 		.parse_next(input)?;
 
-- 
2.43.0


From 8d015838af900c3a6b5c9aeb52f117c1fe4766cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 04/17] fix: report function 15 as link not implemented

---
 src/parse/link_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index d3463a9..72198fb 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -107,7 +107,7 @@ impl Control {
 						9 => SecondaryControlMessage::UserDataUnavailable,
 						11 => SecondaryControlMessage::Status,
 						14 => SecondaryControlMessage::LinkNotFunctioning,
-						15 => SecondaryControlMessage::LinkNotFunctioning,
+						15 => SecondaryControlMessage::LinkNotImplemented,
 						_ => return None,
 					},
 				}
-- 
2.43.0


From b33232e44d5a313aa1d6441713e227197247d2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 05/17] fix: return an error instead of panicking on
 unsupported CI fields

Format and compact frames hit todo!() and 0x64, 0x65, 0x84 & 0x85 hit
unreachable!(), so a single telegram could take down the whole program.
---
 src/parse/transport_layer/control_info.rs | 24 ++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index cf17a49..782d062 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -167,15 +167,33 @@ impl MBusMessage {
 			0x6D => Self::TimeAdjustmentToDevice(header, parse_remaining.parse_next(input)?),
 			// Actual mbus
 			0x51 | 0x5A | 0x5B => Self::CommandToDevice(header, parse_remaining.parse_next(input)?),
-			0x69..=0x6B => todo!("format frame"),
+			0x69..=0x6B => {
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&ci_checkpoint,
+					StrContext::Label("unsupported CI field (format frame)"),
+				));
+			}
 			0x6E..=0x70 => Self::ApplicationErrorFromDevice(
 				header,
 				ApplicationErrorMessage::parse.parse_next(input)?,
 			),
 			0x71 | 0x74 | 0x75 => Self::AlarmFromDevice(header, parse_remaining.parse_next(input)?),
 			0x72 | 0x78 | 0x7A => Self::ResponseFromDevice(header, Frame::parse.parse_next(input)?),
-			0x73 | 0x79 | 0x7B => todo!("compact frame"),
-			_ => unreachable!(),
+			0x73 | 0x79 | 0x7B => {
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&ci_checkpoint,
+					StrContext::Label("unsupported CI field (compact frame)"),
+				));
+			}
+			_ => {
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&ci_checkpoint,
+					StrContext::Label("unsupported CI field"),
+				));
+			}
 		})
 	}
 }
-- 
2.43.0


From b8342aff77ae4e9c99c95d7758e86a4763613d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 06/17] fix: return an error instead of panicking on encrypted
 packets

---
 src/parse/transport_layer/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 1bdc7a1..ddf0e9d 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -119,7 +119,8 @@ impl SecurityMode {
 				}
 				// libmbus strikes again
 				6 | 11 | 12 | 14 | 16..=31 => Some(SecurityMode::Reserved(raw_value)),
-				_ => todo!("Packet encryption is not yet supported (mode {security_mode})"),
+				// TODO: Packet encryption is not yet supported
+				_ => None,
 			}
 		})
 		.parse_next(input)
-- 
2.43.0


From 0907d886aadd5f2b8072e68a533bcf22a10bdcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:18 +0000
Subject: [PATCH 07/17] fix: read the security mode from the right bits of the
 configuration field

The mode is in bits 8 to 12 (the low five bits of the second byte), not 11 to
15. Encrypted packets with one of the top flags set were mistaken for a
reserved mode and their ciphertext was parsed as plain records.
---
 src/parse/transport_layer/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index ddf0e9d..8ed9dd2 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -105,10 +105,10 @@ impl SecurityMode {
 			.parse_next(input)?;
 		(binary::bits::bits::<_, _, MBusError, _, _>((
 			binary::bits::take(8_usize).context(StrContext::Label("Security mode info low")),
-			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 			binary::bits::take(3_usize).context(StrContext::Label("Security mode info high")),
+			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 		)))
-		.verify_map(|(info_low, security_mode, info_high): (u8, u8, u8)| {
+		.verify_map(|(info_low, info_high, security_mode): (u8, u8, u8)| {
 			match security_mode {
 				0 => {
 					if info_high == 0 && info_low == 0 {
-- 
2.43.0


From 4e5ac65cdbdbec4ade9503a3b9bd38e5b64f24c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 08/17] fix: accept application reset, command and device
 selection without header

CI fields 0x50 to 0x52 are handled further down but were turned away as
reserved because the list of headerless CI fields didn't include them.
---
 src/parse/transport_layer/control_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index 782d062..84f2747 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -64,6 +64,7 @@ impl MBusMessage {
 
 		let header = match ci {
 			0x00..=0x1F
+			| 0x50..=0x52
 			| 0x54
 			| 0x5C
 			| 0x66
-- 
2.43.0


From 0aa8c683e3e9a8d9488dc3cfa569c46e5d8021e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 09/17] fix: return an error instead of asserting on too many
 DIFEs

The number of DIFEs is up to the sender, but winnow's assert panics in debug
builds as it is meant for bugs in the parser itself.
---
 src/parse/application_layer/dib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index 5fcf55f..04016f4 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -5,7 +5,8 @@
 use crate::parse::error::{MBResult, MBusError};
 use crate::parse::types::BitsInput;
 use winnow::binary::bits;
-use winnow::error::{ParserError, StrContext};
+use winnow::error::{AddContext, ParserError, StrContext};
+use winnow::stream::Stream;
 use winnow::Parser;
 
 #[derive(Debug, Clone, Copy)]
@@ -95,7 +96,11 @@ impl DataInfoBlock {
 		let mut i = 1;
 		while extension {
 			if i > 10 {
-				return Err(MBusError::assert(input, "Packet has more than 10 DIFEs!"));
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&input.checkpoint(),
+					StrContext::Label("DIFE count, packet has more than 10 DIFEs"),
+				));
 			}
 
 			let mut dife_device: u16;
-- 
2.43.0


From 5f79c754d2f92048c0547cb51cc353d349d3543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 10/17] fix: put the DIFE's storage, tariff and device bits in
 the right place

They were shifted too far, e.g. the second record of manual_frame3.hex was
reported with storage number 33 instead of 5 and the third one with tariff 8
and device 2 instead of 2 and 1.
---
 src/parse/application_layer/dib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index 04016f4..8ace232 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -122,9 +122,11 @@ impl DataInfoBlock {
 				break;
 			}
 
-			dife_device <<= i;
-			dife_tariff <<= 2 * i;
-			dife_storage <<= 4 * i;
+			// The DIF has the lowest bit of the storage number but no tariff or
+			// device bits at all
+			dife_device <<= i - 1;
+			dife_tariff <<= 2 * (i - 1);
+			dife_storage <<= 4 * (i - 1) + 1;
 			i += 1;
 
 			device += dife_device;
-- 
2.43.0


From 7bb9f6459fa92e679da7918a0c97e4cd988e25b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 11/17] fix: accept zero as a positive variable length BCD
 number

---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 21041f7..d58d06a 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -84,7 +84,7 @@ impl Record {
 							parse_latin1(n).map(DataType::String).parse_next(input)?
 						}
 						n @ 0xC0..=0xC9 => parse_bcd(n - 0xC0)
-							.verify(|v| *v > 0)
+							.verify(|v| *v >= 0)
 							.map(DataType::Signed)
 							.parse_next(input)?,
 						n @ 0xD0..=0xD9 => parse_bcd(n - 0xD0)
-- 
2.43.0


From 2a1f3b81a08886590e137fc82973643484acb573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 12/17] fix: recognise type I date times by their actual size

Type I is 48 bits long. There is no 5 byte data type so these were never
decoded and got reported as a plain number of invalid type instead.
---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index d58d06a..5c9e81e 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -136,7 +136,7 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::LVAR => ValueType::TypeMDatetime,
 			RawDataType::Binary(4) => ValueType::TypeFDateTime,
 			RawDataType::Binary(3) => ValueType::TypeJTime,
-			RawDataType::Binary(5) => ValueType::TypeIDateTime,
+			RawDataType::Binary(6) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
 		vt => vt,
-- 
2.43.0


From e5fc50e1429a990e4c7913773df418624d0334fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 13/17] fix: only decode type K daylight savings from 4 byte
 fields

4 bytes were always consumed no matter what size the DIF declared, which
swallowed or leaked bytes of the following records.
---
 src/parse/application_layer/record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 5c9e81e..a4361dc 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -139,6 +139,10 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::Binary(6) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
+		ValueType::DSTTypeK => match dib.raw_type {
+			RawDataType::Binary(4) => ValueType::DSTTypeK,
+			_ => ValueType::Invalid(vif!(E111 0010)),
+		},
 		vt => vt,
 	};
 	vib
-- 
2.43.0


From 50612ec5196c1c2d7547f8f26de10d7a64c53fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 14/17] fix: join the two halves of the type K local deviation
 the right way round

As with the two part years of the other types the first byte has the lowest
three bits. Before this, values from 4 to 7 (and so on) could not even occur.
---
 src/parse/types/date.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/types/date.rs b/src/parse/types/date.rs
index 75fe821..7c579fd 100644
--- a/src/parse/types/date.rs
+++ b/src/parse/types/date.rs
@@ -461,13 +461,13 @@ impl TypeKDST {
 	pub fn parse(input: &mut &Bytes) -> MBResult<Self> {
 		bits::bits::<_, _, MBusError, _, _>((
 			// byte 1
-			bits::take(3_usize).context(StrContext::Label("gmt deviation upper")),
+			bits::take(3_usize).context(StrContext::Label("gmt deviation lower")),
 			bits::take(5_usize)
 				.verify(|v| matches!(v, 0..=23 | 31))
 				.context(StrContext::Label("hour begins")),
 			// byte 2
 			bits::bool.context(StrContext::Label("enable")),
-			bits::take(2_usize).context(StrContext::Label("gmt deviation lower")),
+			bits::take(2_usize).context(StrContext::Label("gmt deviation upper")),
 			bits::take(5_usize)
 				.verify(|v| matches!(v, 1..=31))
 				.context(StrContext::Label("day begins")),
@@ -489,10 +489,10 @@ impl TypeKDST {
 		))
 		.map(
 			|(
-				gmt_u,
+				gmt_l,
 				starts_hour,
 				enable,
-				gmt_l,
+				gmt_u,
 				starts_day,
 				dst_plus,
 				dst_deviation,
-- 
2.43.0


From 350b9a7a9305e5b691e450fff33f2d9e3216db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 15/17] fix: don't look for byte order marks in latin-1 strings

Text that happened to start with the bytes of a BOM was decoded as UTF-8 or
UTF-16 and lost those bytes.
---
 src/parse/link_layer.rs   | 3 ++-
 src/parse/types/string.rs | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 72198fb..86b1a45 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -73,7 +73,8 @@ impl Control {
 			bits::bool.context(StrContext::Label("PRM")),
 			bits::bool.context(StrContext::Label("FCB/ACD")),
 			bits::bool.context(StrContext::Label("FCV/DFC")),
-			bits::take::<_, u8, _, ErrMode<MBusError>>(4_usize).context(StrContext::Label("function")),
+			bits::take::<_, u8, _, ErrMode<MBusError>>(4_usize)
+				.context(StrContext::Label("function")),
 		))
 		.verify_map(|(_, prm, fcb_acd, fcv_dfc, function)| {
 			Some(if prm {
diff --git a/src/parse/types/string.rs b/src/parse/types/string.rs
index 759a174..0f27218 100644
--- a/src/parse/types/string.rs
+++ b/src/parse/types/string.rs
@@ -29,7 +29,14 @@ pub fn parse_latin1<'a>(num_bytes: usize) -> impl Parser<&'a Bytes, String, MBus
 			repeat::<_, _, (), _, _>(num_bytes, binary::u8)
 				.context(StrContext::Label("latin-1 string"))
 				.take()
-				.map(|data| WINDOWS_1252.decode(data).0.chars().rev().collect())
+				.map(|data| {
+					WINDOWS_1252
+						.decode_without_bom_handling(data)
+						.0
+						.chars()
+						.rev()
+						.collect()
+				})
 				.parse_next(input)
 		}
 	}
-- 
2.43.0


From 4b95bdf4c54c388dc6275f7cbb6b8bec6837aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 16/17] fix: don't take signed entries of hex files for bytes

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a5b14f4..6ed50a1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,9 +10,14 @@ pub mod utils {
 
 			data.trim()
 				.split(' ')
-				.map(|substr| u8::from_str_radix(substr, 16))
-				.collect::<Result<Vec<_>, _>>()
-				.map_err(|e| e.into())
+				.map(|substr| {
+					// NOTE: from_str_radix would accept a leading plus sign
+					if substr.starts_with('+') {
+						return Err(format!("{substr:?} is not a hexadecimal byte").into());
+					}
+					u8::from_str_radix(substr, 16).map_err(|e| e.into())
+				})
+				.collect()
 		} else {
 			std::fs::read(filename).map_err(|e| e.into())
 		}
-- 
2.43.0


From e2a3c0a164efc48c5cc36c665685474da83398d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 17/17] fix: an error without context was displayed as an empty
 line

---
 src/parse/error.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse/error.rs b/src/parse/error.rs
index 9f18b55..c2e8c0f 100644
--- a/src/parse/error.rs
+++ b/src/parse/error.rs
@@ -76,6 +76,10 @@ impl std::fmt::Display for MBusError {
 			let padding = " ".repeat(level);
 			writeln!(f, "{padding}{context}")?;
 		}
+		// A mismatch nobody put into words is still an error
+		if ctx.cause().is_none() && ctx.context().next().is_none() {
+			writeln!(f, "unexpected or missing data")?;
+		}
 		Ok(())
 	}
 }
-- 
2.43.0

