From 9c28db4f99469c76e253ad970e2d678dfff20112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:53 +0000
Subject: [PATCH 01/16] fix: reject fixed array offsets that point outside the
 data instead of panicking

---
 ethabi/src/decoder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 825ec25..a4c2aa8 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -161,8 +161,15 @@ fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeR
 		ParamType::FixedArray(ref t, len) => {
 			let is_dynamic = param.is_dynamic();
 
-			let (tail, mut new_offset) =
-				if is_dynamic { (&data[as_usize(&peek_32_bytes(data, offset)?)?..], 0) } else { (data, offset) };
+			let (tail, mut new_offset) = if is_dynamic {
+				let offset = as_usize(&peek_32_bytes(data, offset)?)?;
+				if offset > data.len() {
+					return Err(Error::InvalidData);
+				}
+				(&data[offset..], 0)
+			} else {
+				(data, offset)
+			};
 
 			let mut tokens = vec![];
 
-- 
2.43.0


From 0274428d61428b0842bf17862cb2054cf94b053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:53 +0000
Subject: [PATCH 02/16] fix: advance past all words of a fixed byte string when
 decoding

---
 ethabi/src/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index a4c2aa8..a8f6fd8 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -112,9 +112,10 @@ fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeR
 		}
 		ParamType::FixedBytes(len) => {
 			// FixedBytes is anything from bytes1 to bytes32. These values
-			// are padded with trailing zeros to fill 32 bytes.
+			// are padded with trailing zeros to fill 32 bytes (or, for sizes
+			// other than these, as many 32 byte words as the encoder writes).
 			let bytes = take_bytes(data, offset, len)?;
-			let result = DecodeResult { token: Token::FixedBytes(bytes), new_offset: offset + 32 };
+			let result = DecodeResult { token: Token::FixedBytes(bytes), new_offset: offset + (len + 31) / 32 * 32 };
 			Ok(result)
 		}
 		ParamType::Bytes => {
-- 
2.43.0


From 8c3e22f541d4f62ca888c1552b92b5d8bb9aaae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:53 +0000
Subject: [PATCH 03/16] fix: type check tuples only against the same number of
 components

---
 ethabi/src/token/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index 1df997c..c74c5a0 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -125,7 +125,7 @@ impl Token {
 			}
 			Token::Tuple(ref tokens) => {
 				if let ParamType::Tuple(ref param_type) = *param_type {
-					tokens.iter().enumerate().all(|(i, t)| t.type_check(&param_type[i]))
+					tokens.len() == param_type.len() && tokens.iter().zip(param_type).all(|(t, p)| t.type_check(p))
 				} else {
 					false
 				}
-- 
2.43.0


From 1ebdc28ea550168c4eced698f418ca0766fa12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:53 +0000
Subject: [PATCH 04/16] fix: reject fixed bytes that encode to fewer words than
 their type

---
 ethabi/src/token/token.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index c74c5a0..8b4762a 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -104,7 +104,8 @@ impl Token {
 			Token::String(_) => *param_type == ParamType::String,
 			Token::FixedBytes(ref bytes) => {
 				if let ParamType::FixedBytes(size) = *param_type {
-					size >= bytes.len()
+					// shorter values are padded with zeros, but they have to fill the same number of words
+					size >= bytes.len() && (size + 31) / 32 == (bytes.len() + 31) / 32
 				} else {
 					false
 				}
-- 
2.43.0


From 95b579b2a3ff933789751a4f4937462c962390f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 05/16] fix: read nested tuples at any depth and reject
 malformed type names instead of panicking

---
 ethabi/src/param_type/reader.rs | 118 +++++++-------------------------
 1 file changed, 23 insertions(+), 95 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index 83e0267..9a407d7 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -17,120 +17,48 @@ impl Reader {
 		match name.chars().last() {
 			// check if it is a struct
 			Some(')') => {
-				if !name.starts_with('(') {
-					return Err(Error::InvalidName(name.to_owned()));
-				};
-
+				let invalid = || Error::InvalidName(name.to_owned());
+				let inner = name.strip_prefix('(').and_then(|s| s.strip_suffix(')')).ok_or_else(invalid)?;
 				let mut subtypes = Vec::new();
-				let mut subtuples = Vec::new();
-				let mut nested = 0isize;
-				let mut top_level_paren_open = 0usize;
-				let mut last_item = 1;
-				let mut chars = name.chars().enumerate();
-
-				// Iterate over name and build the nested tuple structure
-				while let Some((mut pos, c)) = chars.next() {
-					match c {
-						'(' => {
-							top_level_paren_open = pos;
-							nested += 1;
-							// If an '(' is encountered within the tuple
-							// insert an empty subtuples vector to be filled
-							if nested > 1 {
-								subtuples.push(vec![]);
+				if !inner.is_empty() {
+					let mut nested = 0usize;
+					let mut last_item = 0;
+
+					// split at the commas of this tuple, nested tuples are read recursively
+					for (pos, c) in inner.char_indices() {
+						match c {
+							'(' => nested += 1,
+							')' => nested = nested.checked_sub(1).ok_or_else(invalid)?,
+							',' if nested == 0 => {
+								subtypes.push(Reader::read(&inner[last_item..pos])?);
 								last_item = pos + 1;
 							}
+							_ => (),
 						}
-						')' => {
-							nested -= 1;
-
-							// End parsing and return an error if parentheses aren't symmetrical
-							if nested < 0 {
-								return Err(Error::InvalidName(name.to_owned()));
-							}
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							else if name[last_item..pos].is_empty() {
-								last_item = pos + 1;
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 0 {
-								// check for trailing brackets that indicate array of tuples
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							else if nested > 0 {
-								// this makes sure trailing brackets are included for the next step
-								loop {
-									match chars.clone().next() {
-										Some((_, ',')) | Some((_, ')')) | None => break,
-										_ => {
-											// consume the char and shift position
-											chars.next();
-											pos += 1;
-										}
-									}
-								}
-
-								// parse the nested tuple
-								let inner_tuple = &name[top_level_paren_open..=pos];
-								let subtype = Reader::read(inner_tuple)?;
+					}
 
-								if nested > 1 {
-									let mut subtuple = std::mem::take(&mut subtuples[(nested - 2) as usize]);
-									subtuple.push(subtype);
-									subtypes.push(ParamType::Tuple(subtuple));
-								} else {
-									subtypes.push(subtype);
-								}
-								last_item = pos + 1;
-							}
-						}
-						',' => {
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							if name[last_item..pos].is_empty() {
-								last_item = pos + 1
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							// insert it into the subtuple vector for the current depth level
-							else if nested > 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtuples[(nested - 2) as usize].push(subtype);
-								last_item = pos + 1;
-							}
-						}
-						_ => (),
+					// parentheses aren't symmetrical
+					if nested != 0 {
+						return Err(invalid());
 					}
+					subtypes.push(Reader::read(&inner[last_item..])?);
 				}
 				return Ok(ParamType::Tuple(subtypes));
 			}
 			// check if it is a fixed or dynamic array.
 			Some(']') => {
 				// take number part
-				let num: String =
-					name.chars().rev().skip(1).take_while(|c| *c != '[').collect::<String>().chars().rev().collect();
+				let open = name.rfind('[').ok_or_else(|| Error::InvalidName(name.to_owned()))?;
+				let num = &name[open + 1..name.len() - 1];
 
-				let count = name.chars().count();
 				return if num.is_empty() {
 					// we already know it's a dynamic array!
-					let subtype = Reader::read(&name[..count - 2])?;
+					let subtype = Reader::read(&name[..open])?;
 					Ok(ParamType::Array(Box::new(subtype)))
 				} else {
 					// it's a fixed array.
 					let len = num.parse()?;
-					let subtype = Reader::read(&name[..count - num.len() - 2])?;
+					let subtype = Reader::read(&name[..open])?;
 					Ok(ParamType::FixedArray(Box::new(subtype), len))
 				};
 			}
-- 
2.43.0


From 6faae287498e0b66fca4c20a3a14a42d267060bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 06/16] fix: reject a plus sign in the size of a type name

---
 ethabi/src/param_type/reader.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index 9a407d7..b1ba159 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -57,7 +57,7 @@ impl Reader {
 					Ok(ParamType::Array(Box::new(subtype)))
 				} else {
 					// it's a fixed array.
-					let len = num.parse()?;
+					let len = read_size(name, num)?;
 					let subtype = Reader::read(&name[..open])?;
 					Ok(ParamType::FixedArray(Box::new(subtype), len))
 				};
@@ -74,15 +74,15 @@ impl Reader {
 			"tuple" => ParamType::Tuple(vec![]),
 			"uint" => ParamType::Uint(256),
 			s if s.starts_with("int") => {
-				let len = s[3..].parse()?;
+				let len = read_size(s, &s[3..])?;
 				ParamType::Int(len)
 			}
 			s if s.starts_with("uint") => {
-				let len = s[4..].parse()?;
+				let len = read_size(s, &s[4..])?;
 				ParamType::Uint(len)
 			}
 			s if s.starts_with("bytes") => {
-				let len = s[5..].parse()?;
+				let len = read_size(s, &s[5..])?;
 				ParamType::FixedBytes(len)
 			}
 			_ => {
@@ -94,6 +94,14 @@ impl Reader {
 	}
 }
 
+/// Reads a size, which consists of digits only (`parse` alone would also take a sign).
+fn read_size(name: &str, size: &str) -> Result<usize, Error> {
+	if size.starts_with('+') {
+		return Err(Error::InvalidName(name.to_owned()));
+	}
+	Ok(size.parse()?)
+}
+
 #[cfg(test)]
 mod tests {
 	use super::Reader;
-- 
2.43.0


From 89f7d0fbc618352e7d8811853b5c83ccbad6133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 07/16] fix: split array and tuple text at its own commas,
 check tuple arity, accept non-ASCII text

---
 ethabi/src/token/mod.rs | 144 ++++++++++++----------------------------
 1 file changed, 42 insertions(+), 102 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 6330a43..b7a5a22 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -12,8 +12,6 @@ mod lenient;
 mod strict;
 mod token;
 
-use std::cmp::Ordering::{Equal, Less};
-
 pub use self::{lenient::LenientTokenizer, strict::StrictTokenizer, token::Token};
 use crate::{Error, ParamType};
 
@@ -46,112 +44,16 @@ pub trait Tokenizer {
 
 	/// Tried to parse a struct as a vector of tokens
 	fn tokenize_struct(value: &str, param: &[ParamType]) -> Result<Vec<Token>, Error> {
-		if !value.starts_with('(') || !value.ends_with(')') {
+		let items = split_items(value, '(', ')')?;
+		if items.len() != param.len() {
 			return Err(Error::InvalidData);
 		}
-
-		if value.chars().count() == 2 {
-			return Ok(vec![]);
-		}
-
-		let mut result = vec![];
-		let mut nested = 0isize;
-		let mut ignore = false;
-		let mut last_item = 1;
-		let mut params = param.iter();
-		for (pos, ch) in value.chars().enumerate() {
-			match ch {
-				'(' if !ignore => {
-					nested += 1;
-				}
-				')' if !ignore => {
-					nested -= 1;
-
-					match nested.cmp(&0) {
-						Less => {
-							return Err(Error::InvalidData);
-						}
-						Equal => {
-							let sub = &value[last_item..pos];
-							let token = Self::tokenize(params.next().ok_or(Error::InvalidData)?, sub)?;
-							result.push(token);
-							last_item = pos + 1;
-						}
-						_ => {}
-					}
-				}
-				'"' => {
-					ignore = !ignore;
-				}
-				',' if nested == 1 && !ignore => {
-					let sub = &value[last_item..pos];
-					let token = Self::tokenize(params.next().ok_or(Error::InvalidData)?, sub)?;
-					result.push(token);
-					last_item = pos + 1;
-				}
-				_ => (),
-			}
-		}
-
-		if ignore {
-			return Err(Error::InvalidData);
-		}
-
-		Ok(result)
+		param.iter().zip(items).map(|(param, item)| Self::tokenize(param, item)).collect()
 	}
 
 	/// Tries to parse a value as a vector of tokens.
 	fn tokenize_array(value: &str, param: &ParamType) -> Result<Vec<Token>, Error> {
-		if !value.starts_with('[') || !value.ends_with(']') {
-			return Err(Error::InvalidData);
-		}
-
-		if value.chars().count() == 2 {
-			return Ok(vec![]);
-		}
-
-		let mut result = vec![];
-		let mut nested = 0isize;
-		let mut ignore = false;
-		let mut last_item = 1;
-		for (i, ch) in value.chars().enumerate() {
-			match ch {
-				'[' if !ignore => {
-					nested += 1;
-				}
-				']' if !ignore => {
-					nested -= 1;
-					match nested.cmp(&0) {
-						Less => {
-							return Err(Error::InvalidData);
-						}
-						Equal => {
-							let sub = &value[last_item..i];
-							let token = Self::tokenize(param, sub)?;
-							result.push(token);
-							last_item = i + 1;
-						}
-						_ => {}
-					}
-				}
-				'"' => {
-					ignore = !ignore;
-				}
-				',' if nested == 1 && !ignore => {
-					let sub = &value[last_item..i];
-					let token = Self::tokenize(param, sub)?;
-					result.push(token);
-					last_item = i + 1;
-				}
-				_ => (),
-			}
-		}
-
-		if ignore {
-			return Err(Error::InvalidData);
-		}
-
-		Ok(result)
+		split_items(value, '[', ']')?.into_iter().map(|item| Self::tokenize(param, item)).collect()
 	}
 
 	/// Tries to parse a value as an address.
@@ -176,6 +78,44 @@ pub trait Tokenizer {
 	fn tokenize_int(value: &str) -> Result<[u8; 32], Error>;
 }
 
+/// Splits the text between `open` and `close` at its outermost commas, that is at those which are
+/// neither inside of nested brackets or parentheses nor between double quotes.
+fn split_items(value: &str, open: char, close: char) -> Result<Vec<&str>, Error> {
+	let inner = value.strip_prefix(open).and_then(|v| v.strip_suffix(close)).ok_or(Error::InvalidData)?;
+	if inner.is_empty() {
+		return Ok(vec![]);
+	}
+
+	let mut items = vec![];
+	let mut nested = vec![];
+	let mut ignore = false;
+	let mut last_item = 0;
+	for (pos, ch) in inner.char_indices() {
+		match ch {
+			'"' => ignore = !ignore,
+			'[' if !ignore => nested.push(']'),
+			'(' if !ignore => nested.push(')'),
+			']' | ')' if !ignore => {
+				if nested.pop() != Some(ch) {
+					return Err(Error::InvalidData);
+				}
+			}
+			',' if nested.is_empty() && !ignore => {
+				items.push(&inner[last_item..pos]);
+				last_item = pos + 1;
+			}
+			_ => (),
+		}
+	}
+
+	if ignore || !nested.is_empty() {
+		return Err(Error::InvalidData);
+	}
+
+	items.push(&inner[last_item..]);
+	Ok(items)
+}
+
 #[cfg(test)]
 mod test {
 	use super::{LenientTokenizer, ParamType, Tokenizer};
-- 
2.43.0


From b269f9e14f38b68c254da1b927c4a8282f757896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 08/16] fix: do not read text without digits or with several
 minus signs as a number

---
 ethabi/src/token/lenient.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/token/lenient.rs b/ethabi/src/token/lenient.rs
index aa63e39..7d55ac0 100644
--- a/ethabi/src/token/lenient.rs
+++ b/ethabi/src/token/lenient.rs
@@ -16,6 +16,14 @@ use anyhow::anyhow;
 /// Tries to parse string as a token. Does not require string to clearly represent the value.
 pub struct LenientTokenizer;
 
+// The empty text is not a number, although `from_dec_str` reads it as zero.
+fn parse_decimal(value: &str) -> Result<Uint, Error> {
+	if value.is_empty() {
+		return Err(Error::InvalidData);
+	}
+	Ok(Uint::from_dec_str(value)?)
+}
+
 impl Tokenizer for LenientTokenizer {
 	fn tokenize_address(value: &str) -> Result<[u8; 20], Error> {
 		StrictTokenizer::tokenize_address(value)
@@ -43,7 +51,7 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
-		let uint = Uint::from_dec_str(value)?;
+		let uint = parse_decimal(value)?;
 		Ok(uint.into())
 	}
 
@@ -56,7 +64,7 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
-		let abs = Uint::from_dec_str(value.trim_start_matches('-'))?;
+		let abs = parse_decimal(value.strip_prefix('-').unwrap_or(value))?;
 		let max = Uint::max_value() / 2;
 		let int = if value.starts_with('-') {
 			if abs.is_zero() {
-- 
2.43.0


From 1c88c27422efbd38c8132eaa57cbcf5753f6ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:46 +0000
Subject: [PATCH 09/16] fix: give every event param its own value when names
 repeat or are missing

---
 ethabi/src/event.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index d725906..64fbd97 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -10,7 +10,6 @@
 
 use serde::{Deserialize, Serialize};
 use sha3::{Digest, Keccak256};
-use std::collections::HashMap;
 
 use crate::{
 	decode, encode, signature::long_signature, Error, EventParam, Hash, Log, LogParam, ParamType, RawLog,
@@ -30,11 +29,6 @@ pub struct Event {
 }
 
 impl Event {
-	/// Returns names of all params.
-	fn params_names(&self) -> Vec<String> {
-		self.inputs.iter().map(|p| p.name.clone()).collect()
-	}
-
 	/// Returns types of all params.
 	fn param_types(&self) -> Vec<ParamType> {
 		self.inputs.iter().map(|p| p.kind.clone()).collect()
@@ -151,21 +145,22 @@ impl Event {
 			return Err(Error::InvalidData);
 		}
 
-		let topics_named_tokens = topic_params.into_iter().map(|p| p.name).zip(topic_tokens.into_iter());
-
 		let data_types = data_params.iter().map(|p| p.kind.clone()).collect::<Vec<ParamType>>();
 
 		let data_tokens = decode(&data_types, &data)?;
 
-		let data_named_tokens = data_params.into_iter().map(|p| p.name).zip(data_tokens.into_iter());
-
-		let named_tokens = topics_named_tokens.chain(data_named_tokens).collect::<HashMap<String, Token>>();
+		// names need not be unique (or given at all), the order tells which value belongs to which param
+		let mut topic_tokens = topic_tokens.into_iter();
+		let mut data_tokens = data_tokens.into_iter();
 
 		let decoded_params = self
-			.params_names()
-			.into_iter()
-			.map(|name| LogParam { name: name.clone(), value: named_tokens[&name].clone() })
-			.collect();
+			.inputs
+			.iter()
+			.map(|p| {
+				let value = if p.indexed { topic_tokens.next() } else { data_tokens.next() };
+				Ok(LogParam { name: p.name.clone(), value: value.ok_or(Error::InvalidData)? })
+			})
+			.collect::<Result<_>>()?;
 
 		let result = Log { params: decoded_params };
 
-- 
2.43.0


From 285a55211aab74f89544efcb4682a68c40a578b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:46 +0000
Subject: [PATCH 10/16] fix: hash indexed strings, bytes, arrays and tuples as
 Solidity does when building filters

---
 ethabi/src/event.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index 64fbd97..94d987f 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -50,7 +50,12 @@ impl Event {
 			if !token.type_check(kind) {
 				return Err(Error::InvalidData);
 			}
-			let encoded = encode(&[token]);
+			let encoded = match token {
+				Token::String(_) | Token::Bytes(_) | Token::Array(_) | Token::FixedArray(_) | Token::Tuple(_) => {
+					return Ok(Hash::from_slice(Keccak256::digest(&encode_in_place(token)).as_slice()));
+				}
+				_ => encode(&[token]),
+			};
 			if encoded.len() == 32 {
 				let mut data = [0u8; 32];
 				data.copy_from_slice(&encoded);
@@ -60,6 +65,25 @@ impl Event {
 			}
 		}
 
+		// Encoding that is hashed for indexed params which aren't value types: no offsets and no lengths, see
+		// https://solidity.readthedocs.io/en/develop/abi-spec.html#encoding-of-indexed-event-parameters
+		fn encode_in_place(token: Token) -> Vec<u8> {
+			match token {
+				Token::String(string) => string.into_bytes(),
+				Token::Bytes(bytes) => bytes,
+				Token::Array(tokens) | Token::FixedArray(tokens) | Token::Tuple(tokens) => tokens
+					.into_iter()
+					.flat_map(|token| {
+						// members are padded to a multiple of 32 bytes
+						let mut encoded = encode_in_place(token);
+						encoded.resize((encoded.len() + 31) / 32 * 32, 0);
+						encoded
+					})
+					.collect(),
+				token => encode(&[token]),
+			}
+		}
+
 		fn convert_topic(topic: Topic<Token>, kind: Option<&ParamType>) -> Result<Topic<Hash>> {
 			match topic {
 				Topic::Any => Ok(Topic::Any),
-- 
2.43.0


From 69f4e5385729674f1241a6cf006de9e55bd1f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:46 +0000
Subject: [PATCH 11/16] fix: skip the values of unknown keys in params

---
 ethabi/src/event_param.rs | 6 ++++--
 ethabi/src/param.rs       | 6 ++++--
 ethabi/src/tuple_param.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ethabi/src/event_param.rs b/ethabi/src/event_param.rs
index bf279fb..ae2f16d 100644
--- a/ethabi/src/event_param.rs
+++ b/ethabi/src/event_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType, TupleParam};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -81,7 +81,9 @@ impl<'a> Visitor<'a> for EventParamVisitor {
 					}
 					indexed = Some(map.next_value()?);
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/param.rs b/ethabi/src/param.rs
index a7ed4e5..9d4dff5 100644
--- a/ethabi/src/param.rs
+++ b/ethabi/src/param.rs
@@ -9,7 +9,7 @@
 //! Function param.
 
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	Deserialize, Deserializer, Serialize, Serializer,
 };
 use std::fmt;
@@ -82,7 +82,9 @@ impl<'a> Visitor<'a> for ParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/tuple_param.rs b/ethabi/src/tuple_param.rs
index 1fd72e7..5f8f716 100644
--- a/ethabi/src/tuple_param.rs
+++ b/ethabi/src/tuple_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -83,7 +83,9 @@ impl<'a> Visitor<'a> for TupleParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 
-- 
2.43.0


From 0425e047b94493acfbbea205a21a07606d6e5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:46 +0000
Subject: [PATCH 12/16] fix: reject a number of params the function does not
 take

---
 cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index db84036..be438ac 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -172,6 +172,10 @@ fn parse_tokens(params: &[(ParamType, &str)], lenient: bool) -> anyhow::Result<V
 fn encode_input(path: &str, name_or_signature: &str, values: &[String], lenient: bool) -> anyhow::Result<String> {
 	let function = load_function(path, name_or_signature)?;
 
+	if values.len() != function.inputs.len() {
+		return Err(anyhow!("expected {} params, {} given", function.inputs.len(), values.len()));
+	}
+
 	let params: Vec<_> =
 		function.inputs.iter().map(|param| param.kind.clone()).zip(values.iter().map(|v| v as &str)).collect();
 
-- 
2.43.0


From b9cb0b030ba0b32d1024d3257b5ab937afd8bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:28 +0000
Subject: [PATCH 13/16] fix: generate valid bindings for fixed arrays in
 outputs, logs and nested types

---
 derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index ce70efa..2beb457 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -143,7 +143,7 @@ fn rust_type(input: &ParamType) -> proc_macro2::TokenStream {
 		}
 		ParamType::FixedArray(ref kind, size) => {
 			let t = rust_type(&*kind);
-			quote! { [#t, #size] }
+			quote! { [#t; #size] }
 		}
 		ParamType::Tuple(_) => {
 			unimplemented!("Tuples are not supported. https://github.com/openethereum/ethabi/issues/175")
@@ -267,10 +267,10 @@ fn from_token(kind: &ParamType, token: &proc_macro2::TokenStream) -> proc_macro2
 		ParamType::FixedArray(ref kind, size) => {
 			let inner = quote! { inner };
 			let inner_loop = from_token(kind, &inner);
-			let to_array = vec![quote! { iter.next() }; size];
+			let to_array = vec![quote! { iter.next().expect(INTERNAL_ERR) }; size];
 			quote! {
 				{
-					let iter = #token.to_array().expect(INTERNAL_ERR).into_iter()
+					let mut iter = #token.into_fixed_array().expect(INTERNAL_ERR).into_iter()
 						.map(|#inner| #inner_loop);
 					[#(#to_array),*]
 				}
-- 
2.43.0


From faf9ea9316854870596793c9e6a7be09d638b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:30 +0000
Subject: [PATCH 14/16] fix: give indexed strings, bytes and arrays their topic
 hash in generated logs instead of panicking

---
 derive/src/event.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 079ce7a..c0fdfa9 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -6,6 +6,7 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
+use ethabi::ParamType;
 use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
@@ -43,13 +44,30 @@ impl<'a> From<&'a ethabi::Event> for Event {
 				}
 			})
 			.collect();
-		let kinds: Vec<_> = e.inputs.iter().map(|param| rust_type(&param.kind)).collect();
+		// indexed params that do not fit a topic appear in logs as their hash
+		let log_kinds: Vec<_> = e
+			.inputs
+			.iter()
+			.map(|param| match param.kind {
+				ParamType::String
+				| ParamType::Bytes
+				| ParamType::Array(_)
+				| ParamType::FixedArray(_, _)
+				| ParamType::Tuple(_)
+					if param.indexed =>
+				{
+					ParamType::FixedBytes(32)
+				}
+				ref kind => kind.clone(),
+			})
+			.collect();
+		let kinds: Vec<_> = log_kinds.iter().map(rust_type).collect();
 		let log_fields =
 			names.iter().zip(kinds.iter()).map(|(param_name, kind)| quote! { pub #param_name: #kind }).collect();
 
 		let log_iter = quote! { log.next().expect(INTERNAL_ERR).value };
 
-		let to_log: Vec<_> = e.inputs.iter().map(|param| from_token(&param.kind, &log_iter)).collect();
+		let to_log: Vec<_> = log_kinds.iter().map(|kind| from_token(kind, &log_iter)).collect();
 
 		let log_init =
 			names.iter().zip(to_log.iter()).map(|(param_name, convert)| quote! { #param_name: #convert }).collect();
-- 
2.43.0


From 5f404c7c2f73bcd7ded7a0b40144257a3083a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:02 +0000
Subject: [PATCH 15/16] fix: do not overflow on huge fixed bytes sizes or
 offsets when decoding and type checking

---
 ethabi/src/decoder.rs     | 4 ++--
 ethabi/src/token/token.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index a8f6fd8..8aab6a2 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -63,7 +63,7 @@ pub fn decode(types: &[ParamType], data: &[u8]) -> Result<Vec<Token>, Error> {
 }
 
 fn peek(data: &[u8], offset: usize, len: usize) -> Result<&[u8], Error> {
-	if offset + len > data.len() {
+	if len > data.len() || offset > data.len() - len {
 		Err(Error::InvalidData)
 	} else {
 		Ok(&data[offset..(offset + len)])
@@ -79,7 +79,7 @@ fn peek_32_bytes(data: &[u8], offset: usize) -> Result<Word, Error> {
 }
 
 fn take_bytes(data: &[u8], offset: usize, len: usize) -> Result<Vec<u8>, Error> {
-	if offset + len > data.len() {
+	if len > data.len() || offset > data.len() - len {
 		Err(Error::InvalidData)
 	} else {
 		Ok((&data[offset..(offset + len)]).to_vec())
diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index 8b4762a..601d1f2 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -105,7 +105,7 @@ impl Token {
 			Token::FixedBytes(ref bytes) => {
 				if let ParamType::FixedBytes(size) = *param_type {
 					// shorter values are padded with zeros, but they have to fill the same number of words
-					size >= bytes.len() && (size + 31) / 32 == (bytes.len() + 31) / 32
+					size >= bytes.len() && size.saturating_add(31) / 32 == (bytes.len() + 31) / 32
 				} else {
 					false
 				}
-- 
2.43.0


From fa2aca15cc28c5d6c2c7d915fd0845bfbc193fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:43 +0000
Subject: [PATCH 16/16] fix: generate valid bindings for arrays of fixed bytes
 and of arrays in arguments and filters

---
 derive/src/event.rs |  4 ++--
 derive/src/lib.rs   | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index c0fdfa9..599055e 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -11,7 +11,7 @@ use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
-use super::{from_token, get_template_names, rust_type, to_syntax_string, to_token};
+use super::{by_value, from_token, get_template_names, rust_type, to_syntax_string, to_token};
 
 /// Structure used to generate contract's event interface.
 pub struct Event {
@@ -114,7 +114,7 @@ impl<'a> From<&'a ethabi::Event> for Event {
 			.map(|(index, (param_name, param))| {
 				let topic = syn::Ident::new(&format!("topic{}", index), Span::call_site());
 				let i = quote! { i };
-				let to_token = to_token(&i, &param.kind);
+				let to_token = to_token(&by_value(&i, &param.kind), &param.kind);
 				quote! { #topic: #param_name.into().map(|#i| #to_token), }
 			})
 			.collect();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 2beb457..02079da 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -183,14 +183,38 @@ fn template_param_type(input: &ParamType, index: usize) -> proc_macro2::TokenStr
 
 fn from_template_param(input: &ParamType, name: &syn::Ident) -> proc_macro2::TokenStream {
 	match *input {
-		ParamType::Array(_) => quote! { #name.into_iter().map(Into::into).collect::<Vec<_>>() },
-		ParamType::FixedArray(_, _) => {
-			quote! { (Box::new(#name.into()) as Box<[_]>).into_vec().into_iter().map(Into::into).collect::<Vec<_>>() }
+		ParamType::Array(ref kind) => {
+			let t = collected_type(kind);
+			quote! { #name.into_iter().map(Into::into).collect::<Vec<#t>>() }
+		}
+		ParamType::FixedArray(ref kind, _) => {
+			let t = collected_type(kind);
+			quote! { (Box::new(#name.into()) as Box<[_]>).into_vec().into_iter().map(Into::into).collect::<Vec<#t>>() }
 		}
 		_ => quote! {#name.into() },
 	}
 }
 
+/// Type of the elements an array param is collected into.
+///
+/// Spelled out where `to_token` calls methods of the elements, so that it can not be inferred.
+fn collected_type(kind: &ParamType) -> proc_macro2::TokenStream {
+	match *kind {
+		ParamType::FixedBytes(_) | ParamType::Array(_) | ParamType::FixedArray(_, _) => rust_type(kind),
+		_ => quote! { _ },
+	}
+}
+
+/// Expression for `to_token` that iterates over a value of given kind by value.
+///
+/// `array.into_iter()` iterates over references in editions before 2021.
+fn by_value(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::TokenStream {
+	match *kind {
+		ParamType::FixedArray(_, _) => quote! { IntoIterator::into_iter(#name) },
+		_ => name.clone(),
+	}
+}
+
 fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::TokenStream {
 	match *kind {
 		ParamType::Address => quote! { ethabi::Token::Address(#name) },
@@ -202,7 +226,7 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 		ParamType::String => quote! { ethabi::Token::String(#name) },
 		ParamType::Array(ref kind) => {
 			let inner_name = quote! { inner };
-			let inner_loop = to_token(&inner_name, kind);
+			let inner_loop = to_token(&by_value(&inner_name, kind), kind);
 			quote! {
 				// note the double {{
 				{
@@ -213,7 +237,7 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 		}
 		ParamType::FixedArray(ref kind, _) => {
 			let inner_name = quote! { inner };
-			let inner_loop = to_token(&inner_name, kind);
+			let inner_loop = to_token(&by_value(&inner_name, kind), kind);
 			quote! {
 				// note the double {{
 				{
-- 
2.43.0

