From 5cefe007b0574c0ab86574ea21d465fb350caf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 01/55] fix: turn Southwest clockwise to Northwest, not
 Northeast

---
 crates/dreammaker/src/dmi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index e4b9d6e..dfd3f2b 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -172,7 +172,7 @@ impl Dir {
             Dir::Northeast => Dir::Southeast,
             Dir::Northwest => Dir::Northeast,
             Dir::Southeast => Dir::Southwest,
-            Dir::Southwest => Dir::Northeast,
+            Dir::Southwest => Dir::Northwest,
         }
     }
 
-- 
2.43.0


From da9ddfbd6c3a34d91903cd6125c035e4180a4bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 02/55] fix: report malformed DMI metadata instead of panicking

---
 crates/dreammaker/src/dmi.rs | 59 ++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index dfd3f2b..7c38c21 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -316,7 +316,7 @@ impl Metadata {
         let state = self.get_icon_state(icon_state)?;
         let icon_index = state.index_of_frame(dir, frame);
 
-        let icon_count = bitmap_width / self.width;
+        let icon_count = bitmap_width.checked_div(self.width).filter(|&n| n > 0)?;
         let (icon_x, icon_y) = (icon_index % icon_count, icon_index / icon_count);
         Some((
             icon_x * self.width,
@@ -435,17 +435,29 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
         if line.starts_with("# END DMI") {
             break;
         }
-        let (key, value) = line.trim().split_once(" = ").unwrap();
+        let bad_line = || {
+            io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("Bad line in dmi metadata: {line:?}"),
+            )
+        };
+        let (key, value) = line.trim().split_once(" = ").ok_or_else(bad_line)?;
         match key {
-            "width" => metadata.width = value.parse().unwrap(),
-            "height" => metadata.height = value.parse().unwrap(),
+            "width" => metadata.width = value.parse().map_err(|_| bad_line())?,
+            "height" => metadata.height = value.parse().map_err(|_| bad_line())?,
             "state" => {
                 if let Some(state) = state.take() {
                     frames_so_far += state.frames.count() * state.dirs.count();
                     metadata.states.push(state);
                 }
-                let unquoted = value[1..value.len() - 1].to_owned(); // TODO: unquote
-                assert!(!unquoted.contains('\\') && !unquoted.contains('"'));
+                let unquoted = value
+                    .strip_prefix('"')
+                    .and_then(|v| v.strip_suffix('"'))
+                    .ok_or_else(bad_line)?
+                    .to_owned(); // TODO: unquote
+                if unquoted.contains('\\') || unquoted.contains('"') {
+                    return Err(bad_line());
+                }
 
                 let count = duplicate_map.entry(unquoted.clone()).or_insert(0);
 
@@ -473,30 +485,30 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                 *count += 1;
             },
             "dirs" => {
-                let state = state.as_mut().unwrap();
-                let n: u8 = value.parse().unwrap();
+                let state = state.as_mut().ok_or_else(bad_line)?;
+                let n: u8 = value.parse().map_err(|_| bad_line())?;
                 state.dirs = match n {
                     1 => Dirs::One,
                     4 => Dirs::Four,
                     8 => Dirs::Eight,
-                    _ => panic!(),
+                    _ => return Err(bad_line()),
                 };
             },
             "frames" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(bad_line)?;
                 match state.frames {
                     Frames::One => {},
-                    _ => panic!(),
+                    _ => return Err(bad_line()),
                 }
-                state.frames = Frames::Count(value.parse().unwrap());
+                state.frames = Frames::Count(value.parse().map_err(|_| bad_line())?);
             },
             "delay" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(bad_line)?;
                 let mut vector: Vec<f32> = value
                     .split(',')
                     .map(str::parse)
                     .collect::<Result<Vec<_>, _>>()
-                    .unwrap();
+                    .map_err(|_| bad_line())?;
                 match state.frames {
                     Frames::One => {
                         if vector.iter().all(|&n| n == 1.) {
@@ -511,14 +523,23 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                             state.frames = Frames::Delays(vector);
                         }
                     },
-                    Frames::Delays(_) => panic!(),
+                    Frames::Delays(_) => return Err(bad_line()),
                 }
             },
-            "loop" => state.as_mut().unwrap().loop_ = value.parse().unwrap(),
-            "rewind" => state.as_mut().unwrap().rewind = value.parse::<u8>().unwrap() != 0,
+            "loop" => {
+                let state = state.as_mut().ok_or_else(bad_line)?;
+                state.loop_ = value.parse().map_err(|_| bad_line())?;
+            },
+            "rewind" => {
+                let state = state.as_mut().ok_or_else(bad_line)?;
+                state.rewind = value.parse::<u8>().map_err(|_| bad_line())? != 0;
+            },
             "hotspot" => { /* TODO */ },
-            "movement" => state.as_mut().unwrap().movement = value.parse::<u8>().unwrap() != 0,
-            _ => panic!(),
+            "movement" => {
+                let state = state.as_mut().ok_or_else(bad_line)?;
+                state.movement = value.parse::<u8>().map_err(|_| bad_line())? != 0;
+            },
+            _ => return Err(bad_line()),
         }
     }
     metadata.states.extend(state);
-- 
2.43.0


From ecd15ea919dd44656c7d8e16b854a47a2b24e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 03/55] fix: keep composited colours from overflowing at low
 alpha

---
 crates/dmm-tools/src/dmi.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/dmm-tools/src/dmi.rs b/crates/dmm-tools/src/dmi.rs
index 8326c69..2bcb42f 100644
--- a/crates/dmm-tools/src/dmi.rs
+++ b/crates/dmm-tools/src/dmi.rs
@@ -212,11 +212,13 @@ impl Image {
 
                 // out_A = src_A + dst_A (1 - src_A)
                 // out_RGB = (src_RGB src_A + dst_RGB dst_A (1 - src_A)) / out_A
-                let out_a = src_tint.a + mul255(dst.a, 255 - src_tint.a);
+                let dst_a = mul255(dst.a, 255 - src_tint.a);
+                let out_a = src_tint.a + dst_a;
                 if out_a != 0 {
                     for i in 0..3 {
+                        // the weights add up to out_a, so that this cannot exceed 255
                         dst[i] = ((src_tint[i] as u32 * src_tint.a as u32
-                            + dst[i] as u32 * dst.a as u32 * (255 - src_tint.a as u32) / 255)
+                            + dst[i] as u32 * dst_a as u32)
                             / out_a as u32) as u8;
                     }
                 } else {
-- 
2.43.0


From 266495f454b889ca163165ac058ddc48d2efde76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 04/55] fix: order tiny negative layers correctly

---
 crates/dmm-tools/src/minimap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index 947c542..1349e7f 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -461,7 +461,7 @@ impl From<f32> for Layer {
     fn from(f: f32) -> Layer {
         Layer {
             whole: f.floor() as i16,
-            frac: ((f.fract() + 1.).fract() * 65536.) as u16,
+            frac: ((f - f.floor()) * 65536.) as u16,
         }
     }
 }
-- 
2.43.0


From eb3307b03183fa4ae21d60b63cc081c1bf2077b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 05/55] fix: read an escaped backslash at the end of a map
 string

---
 crates/dmm-tools/src/dmm/read.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index a1766d2..62734f8 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -89,14 +89,14 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         if in_data_block {
             if in_varedit_block {
                 if in_quote_block {
-                    if ch == b'\\' {
+                    if escaping {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-                        escaping = true;
-                    } else if escaping {
+                        escaping = false;
+                    } else if ch == b'\\' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-                        escaping = false;
+                        escaping = true;
                     } else if ch == b'"' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-- 
2.43.0


From da92a0f4d4e4c6cf4299c27d7ffec2a8ee795e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 06/55] fix: read block strings in map variables

---
 crates/dmm-tools/src/dmm/read.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 62734f8..dc50de7 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -26,11 +26,13 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut curr_key_length = 0;
 
     let mut in_quote_block = false;
+    let mut in_block_string = false; // {"..."}, only meaningful with in_quote_block
     let mut in_key_block = false;
     let mut in_data_block = false;
     let mut in_varedit_block = false;
     let mut after_data_block = false;
     let mut escaping = false;
+    let mut after_quote = false;
     let mut skip_whitespace = false;
 
     let mut curr_key_start_location = Location::default();
@@ -65,7 +67,9 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     while let Some(ch) = chars.next() {
         // Readability, simple elif chain isn't duplicate code
         #[allow(clippy::if_same_then_else)]
-        if ch == b'\n' || ch == b'\r' {
+        if in_quote_block && in_block_string {
+            // newlines and tabs are part of the string
+        } else if ch == b'\n' || ch == b'\r' {
             in_comment_line = false;
             comment_trigger = false;
             continue;
@@ -97,6 +101,12 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
                         escaping = true;
+                    } else if in_block_string {
+                        // ends at the first unescaped "}
+                        in_quote_block = !(ch == b'}' && after_quote);
+                        curr_datum.push(ch);
+                        after_quote = ch == b'"';
+                        continue;
                     } else if ch == b'"' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
@@ -105,6 +115,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
                     }
+                    after_quote = false;
                 } else {
                     // in_quote_block
                     if skip_whitespace && ch == b' ' {
@@ -115,6 +126,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
 
                     if ch == b'"' {
                         set_curr_datum_start_location!();
+                        in_block_string = curr_datum.last() == Some(&b'{');
                         curr_datum.push(ch);
                         in_quote_block = true;
                     } else if ch == b'=' && curr_var.is_empty() {
-- 
2.43.0


From 861d9209f81a546512348ca676a8f0b9ef5a4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 07/55] fix: quote strings with only escaped quotes as plain
 strings

---
 crates/dreammaker/src/lexer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index b077da5..934d4a9 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -362,9 +362,20 @@ pub struct Quote<'a>(pub &'a str);
 impl<'a> fmt::Display for Quote<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let s = self.0;
-        if s.contains("\"}") {
+        // quotes which are already escaped need nothing further
+        let mut bare_quote = false;
+        let mut bare_end = false;
+        let mut escaped = false;
+        let mut after_quote = false;
+        for byte in s.bytes() {
+            bare_end |= after_quote && byte == b'}';
+            after_quote = byte == b'"' && !escaped;
+            bare_quote |= after_quote;
+            escaped = byte == b'\\' && !escaped;
+        }
+        if bare_end {
             write!(f, "@@{s}@")
-        } else if s.contains('"') || s.contains('\n') {
+        } else if bare_quote || s.contains('\n') {
             write!(f, "{{\"{s}\"}}")
         } else {
             write!(f, "\"{s}\"")
-- 
2.43.0


From 72f2b89eefc74d40829a86da02c60baab5604375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 08/55] fix: report malformed map files instead of panicking

---
 crates/dmm-tools/src/dmm/read.rs | 65 ++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index dc50de7..debfbcd 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -176,12 +176,20 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         } else if in_key_block {
             if ch == b'"' {
                 in_key_block = false;
-                assert!(map.key_length == 0 || map.key_length == curr_key_length);
+                if map.key_length != 0 && map.key_length != curr_key_length {
+                    return Err(DMError::new(
+                        chars.location(),
+                        "keys of different lengths in map dictionary",
+                    ));
+                }
                 map.key_length = curr_key_length;
             } else {
                 if curr_key == 0 {
                     curr_key_start_location = chars.location();
                 }
+                if curr_key_length >= super::MAX_KEY_LENGTH {
+                    return Err(DMError::new(chars.location(), "map key is too long"));
+                }
                 curr_key = advance_key(chars.location(), curr_key, ch)?;
                 curr_key_length += 1;
             }
@@ -238,14 +246,32 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     ));
                 }
             } else if ch == b')' {
-                assert_eq!(reading_coord, Coord::Z);
+                if reading_coord != Coord::Z {
+                    return Err(DMError::new(
+                        chars.location(),
+                        "Incorrect number of coordinates",
+                    ));
+                }
                 curr_z = take(&mut curr_num);
                 max_z = max(max_z, curr_z);
+                if curr_x == 0 || curr_y == 0 || curr_z == 0 {
+                    return Err(DMError::new(
+                        chars.location(),
+                        "map coordinates start at 1",
+                    ));
+                }
                 in_coord_block = false;
                 reading_coord = Coord::X;
             } else {
-                match (ch as char).to_digit(10) {
-                    Some(x) => curr_num = 10 * curr_num + x as usize,
+                let digit = (ch as char).to_digit(10);
+                match digit.map(|x| 10 * curr_num + x as usize) {
+                    Some(num) if num <= u32::MAX as usize => curr_num = num,
+                    Some(_) => {
+                        return Err(DMError::new(
+                            chars.location(),
+                            "map coordinate is too large",
+                        ));
+                    },
                     None => {
                         return Err(DMError::new(
                             chars.location(),
@@ -258,7 +284,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             if ch == b'"' {
                 in_map_string = false;
                 adjust_y = true;
-                curr_y -= 1;
+                curr_y = curr_y.saturating_sub(1);
             } else if ch == b'\r' {
                 // nothing
             } else if ch == b'\n' {
@@ -269,6 +295,9 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 }
                 curr_x = base_x;
             } else {
+                if map.key_length == 0 {
+                    return Err(DMError::new(chars.location(), "map has no dictionary"));
+                }
                 curr_key = advance_key(chars.location(), curr_key, ch)?;
                 curr_key_length += 1;
                 if curr_key_length == map.key_length {
@@ -292,20 +321,24 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     }
     max_y = max(max_y, curr_y);
 
-    let mut result = Ok(());
-    map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
-        if let Some(&tile) = grid.get(&(x + 1, y + 1, z + 1)) {
-            tile
-        } else {
-            result = Err(DMError::new(
-                chars.location(),
-                format!("no value for tile ({}, {}, {})", x + 1, y + 1, z + 1),
-            ));
-            Key(0)
+    // Before allocating, as the coordinates might claim a size of any magnitude.
+    for z in 1..=max_z {
+        for y in 1..=max_y {
+            for x in 1..=max_x {
+                if !grid.contains_key(&(x, y, z)) {
+                    return Err(DMError::new(
+                        chars.location(),
+                        format!("no value for tile ({x}, {y}, {z})"),
+                    ));
+                }
+            }
         }
+    }
+    map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
+        grid[&(x + 1, y + 1, z + 1)]
     });
 
-    result
+    Ok(())
 }
 
 fn advance_key(loc: Location, curr_key: KeyType, ch: u8) -> Result<KeyType, DMError> {
-- 
2.43.0


From 836afb8e98a96b3ec58ef5ba43b2ef778d1a85b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 09/55] fix: keep the last row of a map grid without a final
 newline

---
 crates/dmm-tools/src/dmm/read.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index debfbcd..42bc13e 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -310,6 +310,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         ));
                     }
                     max_x = max(max_x, curr_x);
+                    max_y = max(max_y, curr_y);
                     curr_x += 1;
                 }
             }
-- 
2.43.0


From d0649d89d7d10f4d160b03e21a2e411fd925dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 10/55] fix: keep tabs inside map strings

---
 crates/dmm-tools/src/dmm/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 42bc13e..45d3c08 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -75,7 +75,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             continue;
         } else if in_comment_line {
             continue;
-        } else if ch == b'\t' {
+        } else if ch == b'\t' && !in_quote_block {
             continue;
         }
 
-- 
2.43.0


From f2a9c2895ed058058d647b16017c5d82cea1a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 11/55] fix: read map resource names containing punctuation

---
 crates/dmm-tools/src/dmm/read.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 45d3c08..4474b20 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -26,6 +26,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut curr_key_length = 0;
 
     let mut in_quote_block = false;
+    let mut quote_end = b'"'; // or ' for resources, only meaningful with in_quote_block
     let mut in_block_string = false; // {"..."}, only meaningful with in_quote_block
     let mut in_key_block = false;
     let mut in_data_block = false;
@@ -107,7 +108,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         curr_datum.push(ch);
                         after_quote = ch == b'"';
                         continue;
-                    } else if ch == b'"' {
+                    } else if ch == quote_end {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
                         in_quote_block = false;
@@ -124,9 +125,10 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     }
                     skip_whitespace = false;
 
-                    if ch == b'"' {
+                    if ch == b'"' || ch == b'\'' {
                         set_curr_datum_start_location!();
-                        in_block_string = curr_datum.last() == Some(&b'{');
+                        quote_end = ch;
+                        in_block_string = ch == b'"' && curr_datum.last() == Some(&b'{');
                         curr_datum.push(ch);
                         in_quote_block = true;
                     } else if ch == b'=' && curr_var.is_empty() {
-- 
2.43.0


From 1a443af879e9c9175af7f224f8ee9d6276014e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 12/55] fix: continue a string over one line break with either
 line ending

---
 crates/dreammaker/src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 934d4a9..78ba617 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -1039,6 +1039,8 @@ impl<'ctx> Lexer<'ctx> {
             match ch {
                 b'\r' | b'\n' if backslash => {
                     backslash = false;
+                    // have skip_ws see this line break, so that it skips no other
+                    self.put_back(Some(ch));
                     let next = self.skip_ws(true);
                     self.put_back(next);
                 },
-- 
2.43.0


From 8f4f0046178c96bc6b3bad359bb09d822609fc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 13/55] fix: accept any indent width inside top-level braces

---
 crates/dreammaker/src/indents.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index 8487b4b..f9584a2 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -15,7 +15,8 @@ pub struct IndentProcessor<'ctx, I> {
     eol_location: Option<Location>,
     output: VecDeque<LocatedToken>,
 
-    // If we're indented, the number of spaces per indent and the number of indents.
+    // If we're indented, the number of spaces per indent (0 if not known yet)
+    // and the number of indents.
     current: Option<(usize, usize)>,
     // The number of spaces/tabs accumulated on the current line. None when not at line head.
     current_spaces: Option<usize>,
@@ -115,6 +116,12 @@ where
                 },
                 Some((spaces_per_indent, indents_)) => {
                     indents = indents_;
+                    // an explicit brace does not tell how wide an indent is,
+                    // the first line inside it does
+                    let spaces_per_indent = match spaces_per_indent {
+                        0 => (spaces / indents).max(1),
+                        n => n,
+                    };
                     if spaces == 0 {
                         self.current = None;
                         new_indents = 0;
@@ -171,7 +178,7 @@ where
         match read {
             Token::Punct(Punctuation::LBrace) => {
                 self.current = match self.current {
-                    None => Some((1, 1)),
+                    None => Some((0, 1)),
                     Some((x, y)) => Some((x, y + 1)),
                 };
             },
-- 
2.43.0


From edf7e433c3e71924d99e39469d3127361fdafdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 14/55] fix: do not panic when an interpolated string begins in
 a malformed directive

---
 crates/dreammaker/src/preprocessor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index daa926b..9a4956a 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1215,7 +1215,10 @@ impl<'ctx> Preprocessor<'ctx> {
                                 self.push_output(Token::Ident(ident.to_owned(), false));
                                 match other {
                                     Token::InterpStringBegin(_) => self.in_interp_string += 1,
-                                    Token::InterpStringEnd(_) => self.in_interp_string -= 1,
+                                    Token::InterpStringEnd(_) => {
+                                        self.in_interp_string =
+                                            self.in_interp_string.saturating_sub(1)
+                                    },
                                     _ => {},
                                 }
                                 self.push_output(other);
@@ -1391,7 +1394,10 @@ impl<'ctx> Preprocessor<'ctx> {
                 }
             },
             Token::InterpStringBegin(_) => self.in_interp_string += 1,
-            Token::InterpStringEnd(_) => self.in_interp_string -= 1,
+            // the matching begin may have been part of a malformed directive
+            Token::InterpStringEnd(_) => {
+                self.in_interp_string = self.in_interp_string.saturating_sub(1)
+            },
             // documentation is accumulated, and flushed if no #define follows
             Token::DocComment(doc) if doc.target == DocTarget::FollowingItem => {
                 self.docs_in.push_back((self.last_input_loc, doc));
-- 
2.43.0


From 1696d0b61bd1afbb9961b6e2adee18e3b00b8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:59 +0000
Subject: [PATCH 15/55] fix: expand a macro that follows a bare function-like
 macro name

---
 crates/dreammaker/src/preprocessor.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 9a4956a..8ccefe2 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1213,15 +1213,12 @@ impl<'ctx> Preprocessor<'ctx> {
                             Token::Punct(Punctuation::LParen) => {},
                             other => {
                                 self.push_output(Token::Ident(ident.to_owned(), false));
-                                match other {
-                                    Token::InterpStringBegin(_) => self.in_interp_string += 1,
-                                    Token::InterpStringEnd(_) => {
-                                        self.in_interp_string =
-                                            self.in_interp_string.saturating_sub(1)
-                                    },
-                                    _ => {},
-                                }
-                                self.push_output(other);
+                                // what follows is read again: it may be a macro
+                                // itself, or the end of an #if line
+                                self.include_stack.stack.push(Include::Expansion {
+                                    location: _last_expected_loc,
+                                    tokens: VecDeque::from([other]),
+                                });
                                 return Ok(());
                             },
                         }
-- 
2.43.0


From 133284678f6e9164731316d26669631776d162d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:52 +0000
Subject: [PATCH 16/55] fix: put named rgb() arguments in their channels

---
 crates/dreammaker/src/constants.rs | 56 ++++++++++++++++--------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index ad7a611..b8e471d 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -1112,7 +1112,6 @@ impl<'a> ConstantFolder<'a> {
             l: bool,
             c: bool,
             y: bool,
-            a: Option<i32>,
         }
 
         if args.len() != 3 && args.len() != 4 && args.len() != 5 {
@@ -1141,7 +1140,7 @@ impl<'a> ConstantFolder<'a> {
                         "l" | "luminance" => color_args.l = true,
                         "c" | "chroma" => color_args.c = true,
                         "y" => color_args.y = true,
-                        "a" | "alpha" => color_args.a = kwarg_value.to_int(),
+                        "a" | "alpha" => {},
                         "space" => match kwarg_value.to_int() {
                             // Do we have an actual colorspace specified? Set the values.
                             Some(0) => space = Some(ColorSpace::Rgb),
@@ -1195,13 +1194,16 @@ impl<'a> ConstantFolder<'a> {
             ColorSpace::Rgb // Default
         };
 
-        let mut value_vec: Vec<f64> = vec![];
+        // The three color components followed by alpha
+        let mut channels: [Option<f64>; 4] = [None; 4];
+        let mut arg_pos = 0;
 
-        for (arg_pos, (value, potential_kwarg_value)) in arguments.iter().enumerate() {
+        for (value, potential_kwarg_value) in arguments.iter() {
             let mut to_check = value;
+            let mut channel = arg_pos;
 
             // Determines the range based on predetermined colorspace
-            let mut range = match arg_pos {
+            let mut range = match channel {
                 0 => match space {
                     ColorSpace::Rgb => 0..=255, //r
                     ColorSpace::Hsv => 0..=360, //h
@@ -1228,14 +1230,16 @@ impl<'a> ConstantFolder<'a> {
                 if let Some(kwarg) = value.as_str() {
                     to_check = kwarg_value; // Set the value to actually check to be our associated vaue
 
-                    range = match kwarg {
-                        "r" | "red" | "g" | "green" | "b" | "blue" => 0..=255,
-                        "h" | "hue" => 0..=360,
-                        "s" | "saturation" => 0..=100,
-                        "v" | "value" => 0..=100,
-                        "c" | "chroma" => 0..=100,
-                        "l" | "y" | "luminance" => 0..=100,
-                        "a" | "alpha" => 0..=255,
+                    (channel, range) = match kwarg {
+                        "r" | "red" => (0, 0..=255),
+                        "g" | "green" => (1, 0..=255),
+                        "b" | "blue" => (2, 0..=255),
+                        "h" | "hue" => (0, 0..=360),
+                        "s" | "saturation" => (1, 0..=100),
+                        "v" | "value" => (2, 0..=100),
+                        "c" | "chroma" => (1, 0..=100),
+                        "l" | "y" | "luminance" => (2, 0..=100),
+                        "a" | "alpha" => (3, 0..=255),
                         "space" => continue, // Don't range-check the value of the space
                         _ => {
                             return Err(self
@@ -1262,31 +1266,29 @@ impl<'a> ConstantFolder<'a> {
                         .with_location(self.location));
                 }
                 let clamped = std::cmp::max(::std::cmp::min(i, *range.end()), *range.start());
-                value_vec.push(clamped.into());
+                if let Some(each) = channels.get_mut(channel) {
+                    *each = Some(clamped.into());
+                }
+                arg_pos += 1;
             } else {
                 return Err(self.error("malformed rgb() call, value wasn't an int"));
             }
         }
 
-        assert!(value_vec.len() >= 3); // Make sure we got 3+ values
+        let [Some(first), Some(second), Some(third), alpha] = channels else {
+            return Err(self.error("malformed rgb() call, missing a color component"));
+        };
 
         // Convert our color given a space to a rgb hexcode
         let color: Rgb = match space {
-            ColorSpace::Rgb => Rgb::new(value_vec[0], value_vec[1], value_vec[2]),
-            ColorSpace::Hsv => {
-                Hsv::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
-            },
-            ColorSpace::Hsl => {
-                Hsl::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
-            },
-            ColorSpace::Hcy => Lch::new(value_vec[2], value_vec[1], value_vec[0]).into(),
+            ColorSpace::Rgb => Rgb::new(first, second, third),
+            ColorSpace::Hsv => Hsv::new(first, second * 0.01, third * 0.01).into(),
+            ColorSpace::Hsl => Hsl::new(first, second * 0.01, third * 0.01).into(),
+            ColorSpace::Hcy => Lch::new(third, second, first).into(),
         };
 
-        // Extract the raw 4th alpha positional argument if it wasn't a kwarg
-        let alpha = color_args.a.or_else(|| value_vec.get(3).map(|&x| x as i32));
-
         // APPARENTLY the author thinks fractional rgb is a thing, hence the rounding
-        if let Some(alpha) = alpha {
+        if let Some(alpha) = alpha.map(|x| x as i32) {
             Ok(format!(
                 "#{:02x}{:02x}{:02x}{:02x}",
                 color.r.round() as u8,
-- 
2.43.0


From 5b4d261d4186df575c4bcf4d99eb164068cbfc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 17/55] fix: compare null constants equal whatever their
 declared type

---
 crates/dreammaker/src/constants.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index b8e471d..c39fdcc 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -118,7 +118,8 @@ impl std::hash::Hash for Constant {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         std::mem::discriminant(self).hash(state);
         match self {
-            Constant::Null(p) => p.hash(state),
+            // The type hint is not part of the value
+            Constant::Null(_) => {},
             Constant::New { type_, args } => (type_, args).hash(state),
             Constant::List(list) => list.hash(state),
             Constant::Call(f, args) => (f, args).hash(state),
@@ -133,7 +134,8 @@ impl std::hash::Hash for Constant {
 impl std::cmp::PartialEq for Constant {
     fn eq(&self, other: &Constant) -> bool {
         match (self, other) {
-            (Constant::Null(p1), Constant::Null(p2)) => p1 == p2,
+            // The type hint is not part of the value
+            (Constant::Null(_), Constant::Null(_)) => true,
             (
                 Constant::New {
                     type_: type1,
-- 
2.43.0


From 8631b481ebee9be390550590fd3f9fd0f5cda68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 18/55] fix: quote a string in a delimiter it does not contain

---
 crates/dreammaker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 78ba617..1d4a3c2 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -374,7 +374,10 @@ impl<'a> fmt::Display for Quote<'a> {
             escaped = byte == b'\\' && !escaped;
         }
         if bare_end {
-            write!(f, "@@{s}@")
+            // a raw string may be delimited by any character it does not contain
+            let delim = "@#$%^&*|~!?.,:;".chars().find(|&c| !s.contains(c));
+            let delim = delim.unwrap_or('@');
+            write!(f, "@{delim}{s}{delim}")
         } else if bare_quote || s.contains('\n') {
             write!(f, "{{\"{s}\"}}")
         } else {
-- 
2.43.0


From 69933258a5cd1afbe52df4994e074b4e4cb5f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 19/55] fix: reject a constant followed by a stray token

---
 crates/dreammaker/src/constants.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index c39fdcc..fddb1f8 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -448,13 +448,23 @@ impl fmt::Display for ConstFn {
 // The constant evaluator
 
 pub fn evaluate_str(location: Location, input: &[u8]) -> Result<Constant, DMError> {
-    use super::lexer::{Lexer, LocationTracker, from_utf8_or_latin1_borrowed};
+    use super::lexer::{
+        Lexer, LocationTracker, Punctuation, Token, from_utf8_or_latin1_borrowed,
+    };
 
     let ctx = Context::default();
     let mut lexer = Lexer::from_input(&ctx, LocationTracker::from_location(location, input.into()));
-    let expr = crate::parser::parse_expression(&ctx, location, &mut lexer)?;
+    // the parser looks one token past the expression, which must be the line's end
+    let mut ended = false;
+    let expr = crate::parser::parse_expression(
+        &ctx,
+        location,
+        lexer
+            .by_ref()
+            .inspect(|t| ended = t.token == Token::Punct(Punctuation::Newline)),
+    )?;
     let leftover = lexer.remaining();
-    if !leftover.is_empty() {
+    if !ended || !leftover.is_empty() {
         return Err(DMError::new(
             location,
             format!(
-- 
2.43.0


From f7b4fa8227eb1cea99a77207f57b0a075a652382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 20/55] fix: place the final line break's tokens on the last
 line of code

---
 crates/dreammaker/src/indents.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index f9584a2..b16ca69 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -225,10 +225,10 @@ where
             } else if self.eof_yielded {
                 return None;
             } else {
-                self.push(Token::Punct(Punctuation::Semicolon));
+                self.push_semicolon();
                 if let Some((_, indents)) = self.current {
                     for _ in 0..indents {
-                        self.push(Token::Punct(Punctuation::RBrace));
+                        self.push_eol(Token::Punct(Punctuation::RBrace));
                     }
                 }
                 self.current = None;
-- 
2.43.0


From 625347a3b705d94411b9fe0d9b8bd6cf9a7523b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 21/55] fix: report circular parent types instead of looping
 forever

---
 crates/dreammaker/src/objtree.rs | 38 ++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 63b0b18..c0aed08 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -1012,6 +1012,44 @@ impl ObjectTreeBuilder {
                 self.inner.redirected_parent_types.push(type_idx);
             }
         }
+
+        self.break_parent_type_cycles(context);
+    }
+
+    /// Anything which walks up or down the parent types relies on the root being reached.
+    fn break_parent_type_cycles(&mut self, context: &Context) {
+        // A cycle has at least one type whose parent isn't its parent path.
+        for type_idx in self.inner.redirected_parent_types.clone() {
+            let mut current = self.inner[type_idx].parent_type;
+            let mut steps = 0;
+            while current != type_idx
+                && current != NodeIndex::new(0)
+                && steps < self.inner.graph.len()
+            {
+                current = self.inner[current].parent_type;
+                steps += 1;
+            }
+            if current != type_idx {
+                continue;
+            }
+
+            let ty = &mut self.inner[type_idx];
+            let location = match ty.vars.get("parent_type") {
+                Some(var) => var.value.location,
+                None => ty.location,
+            };
+            context.register_error(DMError::new(
+                location,
+                format!("{}/parent_type is circular", ty.path),
+            ));
+            // same fallback as for a bad parent_type
+            ty.parent_type = NodeIndex::new(0);
+            if ty.parent_path == ty.parent_type {
+                self.inner
+                    .redirected_parent_types
+                    .retain(|&idx| idx != type_idx);
+            }
+        }
     }
 
     // ------------------------------------------------------------------------
-- 
2.43.0


From a82f6b5a2f5d820a5c346a4959f28cce05edb19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 22/55] fix: do not call a variable recursive after its value
 failed to evaluate

---
 crates/dreammaker/src/constants.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index fddb1f8..dacafb7 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -608,11 +608,12 @@ fn constant_ident_lookup(
         } else {
             Some(&type_hint)
         },
-    )?;
+    );
     // and store it into 'value', then return it
     let var = tree[ty].vars.get_mut(ident).unwrap();
-    var.value.constant = Some(value.clone());
     var.value.being_evaluated = false;
+    let value = value?;
+    var.value.constant = Some(value.clone());
     Ok(ConstLookup::Found(/*type_hint,*/ value))
 }
 
-- 
2.43.0


From 0817e7aca22ae658084126e58c9aab95f2e7690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 23/55] fix: check should_not_sleep procs that another one
 calls

---
 crates/dreamchecker/src/lib.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 5af8d51..a4fd279 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -759,10 +759,6 @@ impl<'o> AnalyzeObjectTree<'o> {
         let mut must_not_sleep: Vec<_> = self.must_not_sleep.directive.iter().collect();
         must_not_sleep.sort_by_key(|(procref, _)| procref.get().location);
         for (procref, &(_, location)) in must_not_sleep {
-            if !visited.insert(*procref) {
-                continue;
-            }
-
             if let Some(sleepvec) = self.sleeping_procs.get_violators(*procref) {
                 error(
                     procref.get().location,
-- 
2.43.0


From 3777aba3f1761b1cceeec64c21051b27bf662d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 24/55] fix: look for sleeping overrides below every receiver a
 proc is called on

---
 crates/dreamchecker/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index a4fd279..5d457a7 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -753,7 +753,10 @@ impl<'o> AnalyzeObjectTree<'o> {
             .iter_types()
             .flat_map(|type_ref: TypeRef| type_ref.iter_self_procs())
             .count();
-        let mut visited = HashSet::<ProcRef<'o>>::with_capacity(total_procs);
+        // What a proc can run into depends on the object it runs on.
+        let mut visited =
+            HashSet::<(ProcRef<'o>, TypeRef<'o>, bool)>::with_capacity(total_procs);
+        let mut reported = HashSet::<ProcRef<'o>>::new();
         let mut to_visit =
             VecDeque::<(ProcRef<'o>, CallStack, bool, ProcRef<'o>, TypeRef<'o>, bool)>::new();
         let mut must_not_sleep: Vec<_> = self.must_not_sleep.directive.iter().collect();
@@ -800,7 +803,7 @@ impl<'o> AnalyzeObjectTree<'o> {
                 if new_context {
                     continue;
                 }
-                if !visited.insert(nextproc) {
+                if !visited.insert((nextproc, receiver, is_exact)) {
                     continue;
                 }
                 if self.waitfor_procs.contains(&nextproc) {
@@ -815,6 +818,9 @@ impl<'o> AnalyzeObjectTree<'o> {
                 }
 
                 if let Some(sleepvec) = self.sleeping_procs.get_violators(nextproc) {
+                    if !reported.insert(nextproc) {
+                        continue;
+                    }
                     let parent_proc_type_index = parent_proc.ty().index();
                     let next_proc_type_index = nextproc.ty().index();
 
-- 
2.43.0


From c7f92b36592ce1173f46daaca6effa6c8c1255e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 25/55] fix: follow self-calls to the override of the object
 they run on

---
 crates/dreamchecker/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 5d457a7..7fd1678 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -879,11 +879,16 @@ impl<'o> AnalyzeObjectTree<'o> {
                         } else {
                             each.src
                         };
+                        // A self-call runs the receiver's override, if it has one.
+                        let mut called = each.proc;
+                        if each.inherit_receiver && !each.is_exact && !called.ty().is_root() {
+                            called = receiver.get_proc(called.name()).unwrap_or(called);
+                        }
                         to_visit.push_back((
-                            each.proc,
+                            called,
                             newstack,
                             each.new_context,
-                            each.proc,
+                            called,
                             call_receiver,
                             each.is_exact,
                         ));
-- 
2.43.0


From 5fdcb180ecd1fa8480d28be172d57bb51d2b7396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 26/55] fix: do not overflow on switch case ranges that end in
 a huge number

---
 crates/dreamchecker/src/switch_rand_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/switch_rand_range.rs b/crates/dreamchecker/src/switch_rand_range.rs
index 770b3b8..3c262a7 100644
--- a/crates/dreamchecker/src/switch_rand_range.rs
+++ b/crates/dreamchecker/src/switch_rand_range.rs
@@ -50,7 +50,7 @@ pub fn check_switch_rand_range(
         if *start > first_uncovered {
             break;
         } else {
-            first_uncovered = std::cmp::max(first_uncovered, end + 1);
+            first_uncovered = std::cmp::max(first_uncovered, end.saturating_add(1));
         }
     }
 
-- 
2.43.0


From b718928cc3429ba4b3e77e0b2585078614fe95d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 27/55] fix: do not let break and continue end more than their
 loop

---
 crates/dreamchecker/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 7fd1678..daab8b7 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1388,6 +1388,14 @@ impl ControlFlow {
         }
     }
 
+    /// Leave a loop whose body runs at least once. Only a `return` ends more than the loop.
+    pub fn exit_loop(&mut self) {
+        self.returns = self.returns && !self.fuzzy;
+        self.continues = false;
+        self.breaks = false;
+        self.fuzzy = false;
+    }
+
     pub fn end_loop(&mut self) {
         self.returns = false;
         self.continues = false;
@@ -1740,6 +1748,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         "do while terminates without ever reaching condition",
                     )
                     .register(self.context);
+                    state.exit_loop();
                     return state;
                 }
                 self.visit_expression(
@@ -1923,6 +1932,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                 )
                                 .register(self.context);
                             } else {
+                                state.exit_loop();
                                 return state;
                             }
                         }
-- 
2.43.0


From 8c0a00dc78f4700d0fd9713befba42917ba9550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 28/55] fix: heed the step when deciding whether a range loop
 runs

---
 crates/dreammaker/src/ast.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/dreammaker/src/ast.rs b/crates/dreammaker/src/ast.rs
index 4f3422b..406a8af 100644
--- a/crates/dreammaker/src/ast.rs
+++ b/crates/dreammaker/src/ast.rs
@@ -1256,13 +1256,13 @@ impl Term {
                     return Some(false);
                 }
                 if let Some(stepexp) = step {
-                    if let Some(stepterm) = stepexp.as_term() {
-                        if let Term::Int(_s) = stepterm {
-                            return Some(true);
-                        }
-                    } else {
-                        return Some(true);
-                    }
+                    // which way the range runs
+                    let step = stepexp.clone().simple_evaluate(Location::default()).ok()?;
+                    return match step.to_float()? {
+                        s if s > 0.0 => Some(i <= o),
+                        s if s < 0.0 => Some(i >= o),
+                        _ => None,
+                    };
                 }
                 return Some(i <= o);
             }
-- 
2.43.0


From 6adfba8974d725fc25f8af67eb6354c1812dcacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 29/55] fix: do not call a label after a return unreachable

---
 crates/dreamchecker/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index daab8b7..663f3d1 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1388,6 +1388,14 @@ impl ControlFlow {
         }
     }
 
+    /// Forget whether the code so far ends, but not that it may jump.
+    pub fn uncertain(&self) -> ControlFlow {
+        ControlFlow {
+            fuzzy: self.fuzzy || self.continues || self.breaks,
+            ..ControlFlow::allfalse()
+        }
+    }
+
     /// Leave a loop whose body runs at least once. Only a `return` ends more than the loop.
     pub fn exit_loop(&mut self) {
         self.returns = self.returns && !self.fuzzy;
@@ -1585,6 +1593,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
     ) -> ControlFlow {
         let mut term = ControlFlow::allfalse();
         for stmt in block.iter() {
+            if let Statement::Label { .. } = stmt.elem {
+                // A `goto` may lead here.
+                term = term.uncertain();
+            }
             if term.terminates() {
                 error(stmt.location, "possible unreachable code here")
                     .with_errortype("unreachable_code")
@@ -2078,7 +2090,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             },
             Statement::Goto(_) => {},
             Statement::Label { name: _, block } => {
-                self.visit_block(block, &mut local_vars.clone(), false);
+                return self.visit_block(block, &mut local_vars.clone(), false);
             },
             Statement::Del(expr) => {
                 self.visit_expression(location, expr, None, local_vars);
-- 
2.43.0


From b24fe8ec8d03d6313ea2ea6584c49ac1a471fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 30/55] fix: heed break and continue inside try and catch

---
 crates/dreamchecker/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 663f3d1..a31cef3 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2045,7 +2045,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 catch_params,
                 catch_block,
             } => {
-                self.visit_block(try_block, &mut local_vars.clone(), false);
+                let mut state = self.visit_block(try_block, &mut local_vars.clone(), false);
                 if catch_params.len() > 1 {
                     error(
                         location,
@@ -2070,7 +2070,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     let var_type: VarType = type_path.iter().map(ToOwned::to_owned).collect();
                     self.visit_var(location, &var_type, var_name, None, &mut catch_locals);
                 }
-                self.visit_block(catch_block, &mut catch_locals, false);
+                state.merge(self.visit_block(catch_block, &mut catch_locals, false));
+                // Either block may be cut short or never start.
+                return state.uncertain();
             },
             Statement::Continue(_) => {
                 return ControlFlow {
-- 
2.43.0


From eadd43e0d5ab1cbb6feea817bdcfd3e0cd7a6116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:15 +0000
Subject: [PATCH 31/55] fix: judge private and protected vars by the type that
 declares them

---
 crates/dreamchecker/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index a31cef3..b8a8ccf 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2858,7 +2858,19 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         // Or maybe we should also handle new procpath() returning a procpath.
                         Analysis::from(StaticType::Proc)
                     } else if let Some(decl) = ty.get_var_declaration(name) {
-                        if ty != self.ty && decl.var_type.flags.is_private() {
+                        // Access depends on the type which declares the var, not the receiver's.
+                        let mut owner = ty;
+                        while !owner
+                            .vars
+                            .get(name)
+                            .is_some_and(|var| var.declaration.is_some())
+                        {
+                            let Some(parent) = owner.parent_type() else {
+                                break;
+                            };
+                            owner = parent;
+                        }
+                        if (ty != self.ty || owner != self.ty) && decl.var_type.flags.is_private() {
                             error(
                                 location,
                                 format!("field {name:?} on {ty} is declared as private"),
@@ -2867,7 +2879,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                             .set_severity(Severity::Warning)
                             .with_note(decl.location, "definition is here")
                             .register(self.context);
-                        } else if !self.ty.is_subtype_of(ty.get())
+                        } else if !self.ty.is_subtype_of(owner.get())
                             && decl.var_type.flags.is_protected()
                         {
                             error(
-- 
2.43.0


From d476d8b8e6ca314474488c3135ee82d2b672fc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:19 +0000
Subject: [PATCH 32/55] fix: report overrides that themselves set
 should_not_override

---
 crates/dreamchecker/src/lib.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index b8a8ccf..ac240ed 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1521,18 +1521,17 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     .register(self.context);
                 }
             }
+            // The override may set this as well, which does not exempt it.
             if let Some((proc, true, location)) =
-                self.env.must_not_override.get_self_or_parent(self.proc_ref)
+                self.env.must_not_override.get_self_or_parent(parent)
             {
-                if proc != self.proc_ref {
-                    error(
-                        self.proc_ref.location,
-                        format!("proc overrides parent, prohibited by {proc}"),
-                    )
-                    .with_note(location, "prohibited by this must_not_override annotation")
-                    .with_errortype("must_not_override")
-                    .register(self.context);
-                }
+                error(
+                    self.proc_ref.location,
+                    format!("proc overrides parent, prohibited by {proc}"),
+                )
+                .with_note(location, "prohibited by this must_not_override annotation")
+                .with_errortype("must_not_override")
+                .register(self.context);
             }
             if self.calls_parent {
                 if !matches!(
-- 
2.43.0


From 7270180a597a5c18856d6b2c6dfef3f5a5fcbe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 33/55] fix: look for impure overrides below the receiver they
 are called on

---
 crates/dreamchecker/src/lib.rs | 116 ++++++++++++++++-----------------
 1 file changed, 58 insertions(+), 58 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index ac240ed..31c499a 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -381,7 +381,6 @@ fn run_inner(context: &Context, objtree: &ObjectTree, cli: bool) {
     objtree.root().recurse(&mut |ty| {
         for proc in ty.iter_self_procs() {
             analyzer.check_kwargs(proc);
-            analyzer.propagate_violations(proc);
         }
     });
 
@@ -579,21 +578,6 @@ impl<'o> ViolatingProcs<'o> {
     }
 }
 
-#[derive(Default, Debug)]
-pub struct ViolatingOverrides<'o> {
-    overrides: HashMap<ProcRef<'o>, Vec<ProcRef<'o>>>,
-}
-
-impl<'o> ViolatingOverrides<'o> {
-    pub fn insert_override(&mut self, proc: ProcRef<'o>, child: ProcRef<'o>) {
-        self.overrides.entry(proc).or_default().push(child);
-    }
-
-    pub fn get_override_violators(&self, proc: ProcRef<'o>) -> Option<&Vec<ProcRef<'o>>> {
-        self.overrides.get(&proc)
-    }
-}
-
 /// An edge in the call tree: proc called, call site, whether it's a new context
 /// (`spawn`), the receiver type, whether the call is exact (never dispatches to
 /// an override), and whether it runs on the caller's own object (self-calls,
@@ -632,7 +616,6 @@ pub struct AnalyzeObjectTree<'o> {
     /// Procs with waitfor=0 or waitfor=FALSE
     waitfor_procs: HashSet<ProcRef<'o>>,
 
-    impure_overrides: ViolatingOverrides<'o>,
 }
 
 impl<'o> AnalyzeObjectTree<'o> {
@@ -681,7 +664,6 @@ impl<'o> AnalyzeObjectTree<'o> {
             sleeping_procs: Default::default(),
             impure_procs: Default::default(),
             waitfor_procs: Default::default(),
-            impure_overrides: Default::default(),
         }
     }
 
@@ -913,48 +895,81 @@ impl<'o> AnalyzeObjectTree<'o> {
                 .with_impure_operations(impurevec)
                 .register(self.context)
             }
-            let mut visited = HashSet::<ProcRef<'o>>::new();
-            let mut to_visit = VecDeque::<(ProcRef<'o>, CallStack)>::new();
+            let mut visited = HashSet::<(ProcRef<'o>, TypeRef<'o>, bool)>::new();
+            let mut reported = HashSet::<ProcRef<'o>>::new();
+            let mut to_visit =
+                VecDeque::<(ProcRef<'o>, CallStack, ProcRef<'o>, TypeRef<'o>, bool)>::new();
             if let Some(procscalled) = self.call_tree.get(procref) {
                 for each in procscalled {
                     let mut callstack = CallStack::default();
                     callstack.add_step(each.proc, each.location, each.new_context);
-                    to_visit.push_back((each.proc, callstack));
+                    let receiver = if each.inherit_receiver {
+                        procref.ty()
+                    } else {
+                        each.src
+                    };
+                    to_visit.push_back((each.proc, callstack, each.proc, receiver, each.is_exact));
                 }
             }
-            while let Some((nextproc, callstack)) = to_visit.pop_front() {
-                if !visited.insert(nextproc) {
+            while let Some((nextproc, callstack, parent_proc, receiver, is_exact)) =
+                to_visit.pop_front()
+            {
+                if !visited.insert((nextproc, receiver, is_exact)) {
                     continue;
                 }
                 if let Some(impurevec) = self.impure_procs.get_violators(nextproc) {
-                    error(procref.get().location, format!("{procref} sets SpacemanDMM_should_be_pure but calls a {nextproc} that does impure operations"))
-                        .with_note(*location, "SpacemanDMM_should_be_pure set here")
-                        .with_errortype("must_be_pure")
-                        .with_callstack(&callstack)
-                        .with_impure_operations(impurevec)
-                        .register(self.context)
-                } else if let Some(overrideimpure) =
-                    self.impure_overrides.get_override_violators(nextproc)
-                {
-                    for child_violator in overrideimpure {
-                        if procref.ty().is_subtype_of(&nextproc.ty())
-                            && !child_violator.ty().is_subtype_of(&procref.ty())
-                        {
-                            continue;
-                        }
-                        error(procref.get().location, format!("{procref} calls {nextproc} which has override child proc that does impure operations {child_violator}"))
-                            .with_note(*location, "SpacemanDMM_should_not_pure set here")
+                    if reported.insert(nextproc) {
+                        let desc = if nextproc == parent_proc {
+                            format!(
+                                "{procref} sets SpacemanDMM_should_be_pure but calls a {nextproc} that does impure operations"
+                            )
+                        } else {
+                            format!(
+                                "{procref} calls {parent_proc} which has override child proc that does impure operations {nextproc}"
+                            )
+                        };
+                        error(procref.get().location, desc)
+                            .with_note(*location, "SpacemanDMM_should_be_pure set here")
                             .with_errortype("must_be_pure")
                             .with_callstack(&callstack)
-                            .with_blocking_builtins(self.impure_procs.get_violators(*child_violator).unwrap())
+                            .with_impure_operations(impurevec)
                             .register(self.context)
                     }
                 }
+                // New() propogates via ..() and causes weirdness
+                if !is_exact && nextproc.name() != "New" {
+                    nextproc.recurse_children_within(receiver, &mut |child_proc| {
+                        to_visit.push_back((
+                            child_proc,
+                            callstack.clone(),
+                            nextproc,
+                            child_proc.ty(),
+                            true,
+                        ));
+                    });
+                }
                 if let Some(calledvec) = self.call_tree.get(&nextproc) {
                     for each in calledvec.iter() {
                         let mut newstack = callstack.clone();
-                        newstack.add_step(each.proc, *location, each.new_context);
-                        to_visit.push_back((each.proc, newstack));
+                        newstack.add_step(each.proc, each.location, each.new_context);
+                        // Self-calls inherit this receiver; explicit calls use their own.
+                        let call_receiver = if each.inherit_receiver {
+                            receiver
+                        } else {
+                            each.src
+                        };
+                        // A self-call runs the receiver's override, if it has one.
+                        let mut called = each.proc;
+                        if each.inherit_receiver && !each.is_exact && !called.ty().is_root() {
+                            called = receiver.get_proc(called.name()).unwrap_or(called);
+                        }
+                        to_visit.push_back((
+                            called,
+                            newstack,
+                            called,
+                            call_receiver,
+                            each.is_exact,
+                        ));
                     }
                 }
             }
@@ -1080,21 +1095,6 @@ impl<'o> AnalyzeObjectTree<'o> {
         }
     }
 
-    /// Propagate violations make up the inheritence graph
-    pub fn propagate_violations(&mut self, proc: ProcRef<'o>) {
-        if proc.name() == "New" {
-            // New() propogates via ..() and causes weirdness
-            return;
-        }
-        if self.impure_procs.get_violators(proc).is_some() {
-            let mut next = proc.parent_proc();
-            while let Some(current) = next {
-                self.impure_overrides.insert_override(current, proc);
-                next = current.parent_proc();
-            }
-        }
-    }
-
     /// Check and build a list of bad overrides of kwargs for a ProcRef
     pub fn check_kwargs(&mut self, proc: ProcRef) {
         let param_names: HashSet<&Ident> = proc.parameters.iter().map(|p| &p.name).collect();
-- 
2.43.0


From 046fe09cfa4847c33861651537ca62b1bd5c5879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 34/55] fix: do not call changing a local variable impure for
 its initial value

---
 crates/dreamchecker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 31c499a..7e38d4c 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2208,6 +2208,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             None => Analysis::null(),
         };
         analysis.static_ty = static_type;
+        // Changing a local changes nothing else, wherever its value is from.
+        analysis.is_impure = None;
 
         // Save var to locals
         local_vars.insert(name.clone(), LocalVar { location, analysis });
-- 
2.43.0


From 1be9ce15cae8c7f122cd29bb459ce84b57ae3ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 35/55] fix: treat changes to src's, global's and parameters'
 vars as impure

---
 crates/dreamchecker/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 7e38d4c..cfa8301 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1477,7 +1477,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             Analysis::from_static_type(self.objtree.expect("/callee")).into(),
         );
         if !self.ty.is_root() {
-            local_vars.insert("src".into(), Analysis::from_static_type(self.ty).into());
+            local_vars.insert(
+                "src".into(),
+                Analysis::from_static_type_impure(self.ty).into(),
+            );
         }
         local_vars.insert(
             "global".into(),
@@ -2892,8 +2895,12 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                             .with_note(decl.location, "definition is here")
                             .register(self.context);
                         }
-                        self.static_type(location, &decl.var_type.type_path)
-                            .with_fix_hint(decl.location, "add additional type info here")
+                        let mut ana = self
+                            .static_type(location, &decl.var_type.type_path)
+                            .with_fix_hint(decl.location, "add additional type info here");
+                        // As impure to change as what it belongs to.
+                        ana.is_impure = lhs.is_impure;
+                        ana
                     } else {
                         error(location, format!("undefined field: {name:?} on {ty}"))
                             .register(self.context);
-- 
2.43.0


From 514fd6e75e28b06282eb476ef35a74236fe8b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 36/55] fix: report missing keyword args for calls on types
 that inherit the proc

---
 crates/dreamchecker/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index cfa8301..9e6e74f 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1100,10 +1100,12 @@ impl<'o> AnalyzeObjectTree<'o> {
         let param_names: HashSet<&Ident> = proc.parameters.iter().map(|p| &p.name).collect();
 
         // Start at the parent - calls which immediately resolve to bad kwargs
-        // error earlier in the process.
-        let mut next = proc.parent_proc();
+        // error earlier in the process. Calls are recorded by the type they are
+        // made on, which need not define the proc itself.
+        let mut next = proc.parent_proc().and(proc.ty().parent_type());
         while let Some(current) = next {
-            if let Some(kwargs) = self.used_kwargs.get_mut(&current.to_string()) {
+            let key = format!("{}/proc/{}", current, proc.name());
+            if let Some(kwargs) = self.used_kwargs.get_mut(&key) {
                 let mut missing = Vec::new();
 
                 for (keyword, location) in kwargs.called_at.iter() {
@@ -1122,7 +1124,7 @@ impl<'o> AnalyzeObjectTree<'o> {
                     );
                 }
             }
-            next = current.parent_proc();
+            next = current.parent_type();
         }
     }
 
-- 
2.43.0


From 08b2f6454fdc8957307271d92ed60df978d80f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:41 +0000
Subject: [PATCH 37/55] fix: let no_operator_overload be configured as
 documented

---
 crates/dreamchecker/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 9e6e74f..44cd8e1 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -3114,6 +3114,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             location,
             format!("Attempting {operator} on a {typeerror} which does not overload {operator}"),
         )
+        .with_errortype("no_operator_overload")
         .register(self.context);
         Analysis::empty()
     }
-- 
2.43.0


From 81f0317a3051be65a8a9069892234e779b1e7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:32 +0000
Subject: [PATCH 38/55] fix: show numbers of any magnitude rounded to six
 digits

---
 crates/dreammaker/src/lexer.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 1d4a3c2..0074b15 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -407,20 +407,19 @@ impl fmt::Display for FormatFloat {
         } else if n == 0.0 {
             f.write_str("0")
         } else {
-            let exp = n.abs().log10().floor();
-            let factor = 10.0f32.powf(5.0 - exp);
-            if exp >= 6.0 || exp <= -5.0 {
-                let n2 = (n * factor).round() * 1.0e-5;
-                let mut precision = 0;
-                while precision < 5
-                    && (n2 * 10.0f32.powi(precision)) != (n2 * 10.0f32.powi(precision)).round()
-                {
-                    precision += 1;
-                }
-                write!(f, "{:.*}e{:+04}", precision as usize, n2, exp)
+            // six significant digits, rounded before the exponent is known
+            let scientific = format!("{n:.5e}");
+            let (mantissa, exp) = scientific.split_once('e').unwrap();
+            let exp: i32 = exp.parse().unwrap();
+            if exp >= 6 || exp <= -5 {
+                let mantissa = mantissa.trim_end_matches('0').trim_end_matches('.');
+                write!(f, "{mantissa}e{exp:+04}")
             } else {
-                let n2 = (n * factor).round() / factor;
-                write!(f, "{n2}")
+                let plain = format!("{:.*}", (5 - exp) as usize, n);
+                f.write_str(match plain.contains('.') {
+                    true => plain.trim_end_matches('0').trim_end_matches('.'),
+                    false => &plain,
+                })
             }
         }
     }
-- 
2.43.0


From 3c0d0bd16a860b1d7df5a9e769cc5279e1fdd4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:38 +0000
Subject: [PATCH 39/55] fix: keep edits at their positions within the line, and
 refuse reversed ranges

---
 crates/dm-langserver/src/document.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/dm-langserver/src/document.rs b/crates/dm-langserver/src/document.rs
index b5f96c4..6381f87 100644
--- a/crates/dm-langserver/src/document.rs
+++ b/crates/dm-langserver/src/document.rs
@@ -144,6 +144,9 @@ impl Document {
 
         let start_pos = total_offset(&self.text, range.start.line, range.start.character)?;
         let end_pos = total_offset(&self.text, range.end.line, range.end.character)?;
+        if start_pos > end_pos {
+            return Err(invalid_request("range ends before it starts"));
+        }
         Rc::make_mut(&mut self.text).replace_range(start_pos..end_pos, &change.text);
         Ok(())
     }
@@ -166,8 +169,18 @@ fn line_offset(text: &str, line_number: u32) -> Result<usize, jsonrpc::Error> {
 fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, jsonrpc::Error> {
     let start = line_offset(text, line)?;
 
+    // "If the character value is greater than the line length it defaults back
+    // to the line length."
+    let rest = &text[start..];
+    let line_text = rest.split('\n').next().unwrap_or("");
+    let has_newline = line_text.len() < rest.len();
+    let line_text = match line_text.strip_suffix('\r') {
+        Some(stripped) if has_newline => stripped,
+        _ => line_text,
+    };
+
     // column is measured in UTF-16 code units, which is really inconvenient.
-    let mut chars = text[start..].chars();
+    let mut chars = line_text.chars();
     while character > 0 {
         if let Some(ch) = chars.next() {
             character = character.saturating_sub(ch.len_utf16() as u32);
@@ -175,7 +188,7 @@ fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, json
             break;
         }
     }
-    Ok(text.len() - chars.as_str().len())
+    Ok(start + line_text.len() - chars.as_str().len())
 }
 
 // Reverse of the above.
@@ -199,10 +212,10 @@ pub fn offset_to_position(text: &str, offset: usize) -> lsp_types::Position {
 }
 
 pub fn get_range(text: &str, range: lsp_types::Range) -> Result<&str, jsonrpc::Error> {
-    Ok(
-        &text[total_offset(text, range.start.line, range.start.character)?
-            ..total_offset(text, range.end.line, range.end.character)?],
-    )
+    let start = total_offset(text, range.start.line, range.start.character)?;
+    let end = total_offset(text, range.end.line, range.end.character)?;
+    text.get(start..end)
+        .ok_or_else(|| invalid_request("range ends before it starts"))
 }
 
 pub fn find_word(text: &str, offset: usize) -> &str {
-- 
2.43.0


From 93c21c6ef0583bd334319e5674763db60a5b0bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:38 +0000
Subject: [PATCH 40/55] include a verification harness in dm-langserver where
 cfg(verif_harness) is set

---
 crates/dm-langserver/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index ec3beb8..36849bc 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2670,3 +2670,6 @@ where
 fn component_to_source(component: dm::Component) -> Option<String> {
     Some(component.name().unwrap_or("dm-langserver").to_owned())
 }
+
+#[cfg(verif_harness)] // what a verification harness adds to this crate
+include!(env!("VERIF_HARNESS"));
-- 
2.43.0


From 50d4c7d6e9de092951fee6605cae1c12d04682b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:29 +0000
Subject: [PATCH 41/55] fix: do not look up the members of untyped variables in
 the global scope

---
 crates/dm-langserver/src/main.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 36849bc..f4c021e 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -927,6 +927,12 @@ impl Engine {
         I: Iterator<Item = (Span, &'b Annotation)> + Clone,
     {
         let (mut next, proc_name) = self.find_type_context(iter);
+        // A variable without a type leads nowhere, not to the root.
+        let type_of = |var_type: &'b dm::ast::VarType| {
+            self.objtree
+                .type_by_path(var_type.type_path.iter())
+                .filter(|ty| !ty.is_root())
+        };
         // find the first; check the global scope, parameters, and "src"
         let mut priors = priors.iter();
         let first = match priors.next() {
@@ -946,14 +952,14 @@ impl Engine {
         } else {
             next = match self.find_unscoped_var(iter, next, proc_name, first) {
                 UnscopedVar::Parameter { param, .. } => {
-                    self.objtree.type_by_path(param.var_type.type_path.iter())
+                    type_of(&param.var_type)
                 },
                 UnscopedVar::Variable { ty, .. } => match ty.get_var_declaration(first) {
-                    Some(decl) => self.objtree.type_by_path(decl.var_type.type_path.iter()),
+                    Some(decl) => type_of(&decl.var_type),
                     None => None,
                 },
                 UnscopedVar::Local { var_type, .. } => {
-                    self.objtree.type_by_path(var_type.type_path.iter())
+                    type_of(var_type)
                 },
                 UnscopedVar::None => None,
             };
@@ -963,7 +969,7 @@ impl Engine {
         for var_name in priors {
             if let Some(current) = next.take() {
                 if let Some(decl) = current.get_var_declaration(var_name) {
-                    next = self.objtree.type_by_path(decl.var_type.type_path.iter());
+                    next = type_of(&decl.var_type);
                 }
             } else {
                 break;
-- 
2.43.0


From 1739ce99d0bc058615e575cfb62dbf104cd1cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 42/55] fix: do not count uses through typed values as uses of
 globals

---
 crates/dm-langserver/src/find_references.rs | 25 ++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index 9f446d2..3b67ff2 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -143,6 +143,25 @@ struct Local<'o> {
     symbol: SymbolId,
 }
 
+/// Find a variable through a value of the given type, on which globals are not
+/// members.
+fn member_var<'o>(ty: TypeRef<'o>, name: &str) -> Option<&'o VarDeclaration> {
+    let mut next = Some(ty);
+    while let Some(ty) = next {
+        if let Some(decl) = ty.get().vars.get(name).and_then(|v| v.declaration.as_ref()) {
+            return Some(decl);
+        }
+        next = ty.parent_type_without_root();
+    }
+    None
+}
+
+/// Find a proc through a value of the given type.
+fn member_proc<'o>(ty: TypeRef<'o>, name: &str) -> Option<ProcRef<'o>> {
+    ty.get_proc(name)
+        .filter(|proc| ty.is_root() || !proc.ty().is_root())
+}
+
 struct WalkProc<'o> {
     tab: &'o mut ReferencesTable,
     objtree: &'o ObjectTree,
@@ -749,7 +768,7 @@ impl<'o> WalkProc<'o> {
         name: &'o str,
     ) -> StaticType<'o> {
         if let Some(ty) = lhs.basic_type() {
-            if let Some(decl) = ty.get_var_declaration(name) {
+            if let Some(decl) = member_var(ty, name) {
                 self.tab.use_symbol(decl.id, location);
                 self.static_type(location, &decl.var_type.type_path)
             } else {
@@ -781,7 +800,7 @@ impl<'o> WalkProc<'o> {
             Follow::StaticField(name) => self.visit_field(location, lhs, name),
             Follow::Call(_, name, arguments) => {
                 if let Some(ty) = lhs.basic_type() {
-                    if let Some(proc) = ty.get_proc(name) {
+                    if let Some(proc) = member_proc(ty, name) {
                         self.visit_call(location, ty, proc, arguments, false)
                     } else {
                         self.visit_arguments(location, arguments);
@@ -794,7 +813,7 @@ impl<'o> WalkProc<'o> {
             },
             Follow::ProcReference(name) => {
                 if let Some(ty) = lhs.basic_type() {
-                    if let Some(decl) = ty.get_proc_declaration(name) {
+                    if let Some(decl) = member_proc(ty, name).and_then(|p| p.get_declaration()) {
                         self.tab.use_symbol(decl.id, location);
                     }
                 }
-- 
2.43.0


From 621b96479e55aeb16389192b7f2b00c5e4d9fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:56 +0000
Subject: [PATCH 43/55] fix: find references in every expression, and end local
 variables with their block

---
 crates/dm-langserver/src/find_references.rs | 66 +++++++++++++++------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index 3b67ff2..5f0ce15 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -138,6 +138,7 @@ impl<'o> StaticType<'o> {
     }
 }
 
+#[derive(Clone)]
 struct Local<'o> {
     ty: StaticType<'o>,
     symbol: SymbolId,
@@ -260,9 +261,12 @@ impl<'o> WalkProc<'o> {
     }
 
     fn visit_block(&mut self, block: &'o [Spanned<Statement>]) {
+        // Variables declared in a block aren't visible after it.
+        let outer = self.local_vars.clone();
         for stmt in block.iter() {
             self.visit_statement(stmt.location, &stmt.elem);
         }
+        self.local_vars = outer;
     }
 
     fn visit_statement(&mut self, location: Location, statement: &'o Statement) {
@@ -306,6 +310,7 @@ impl<'o> WalkProc<'o> {
                 inc,
                 block,
             } => {
+                let outer = self.local_vars.clone();
                 if let Some(init) = init {
                     self.visit_statement(location, init);
                 }
@@ -316,6 +321,7 @@ impl<'o> WalkProc<'o> {
                     self.visit_statement(location, inc);
                 }
                 self.visit_block(block);
+                self.local_vars = outer;
             },
             Statement::ForList(for_list) => {
                 let ForListStatement {
@@ -325,13 +331,17 @@ impl<'o> WalkProc<'o> {
                     block,
                     ..
                 } = &**for_list;
+                let outer = self.local_vars.clone();
                 if let Some(in_list) = in_list {
                     self.visit_expression(location, in_list, None);
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, None);
+                } else {
+                    self.visit_ident(location, name);
                 }
                 self.visit_block(block);
+                self.local_vars = outer;
             },
             Statement::ForRange(for_range) => {
                 let ForRangeStatement {
@@ -342,14 +352,19 @@ impl<'o> WalkProc<'o> {
                     step,
                     block,
                 } = &**for_range;
+                let outer = self.local_vars.clone();
                 self.visit_expression(location, end, None);
                 if let Some(step) = step {
                     self.visit_expression(location, step, None);
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, Some(start));
+                } else {
+                    self.visit_ident(location, name);
+                    self.visit_expression(location, start, None);
                 }
                 self.visit_block(block);
+                self.local_vars = outer;
             },
             Statement::Var(var) => self.visit_var_stmt(location, var),
             Statement::Vars(vars) => {
@@ -394,6 +409,7 @@ impl<'o> WalkProc<'o> {
                 catch_block,
             } => {
                 self.visit_block(try_block);
+                let outer = self.local_vars.clone();
                 for caught in catch_params.iter() {
                     let (var_name, mut type_path) = match caught.split_last() {
                         Some(x) => x,
@@ -407,11 +423,16 @@ impl<'o> WalkProc<'o> {
                     self.visit_var(location, &var_type, var_name, None);
                 }
                 self.visit_block(catch_block);
+                self.local_vars = outer;
             },
             Statement::Continue(_) => {},
             Statement::Break(_) => {},
             Statement::Goto(_) => {},
-            Statement::Crash(_) => {},
+            Statement::Crash(expr) => {
+                if let Some(expr) = expr {
+                    self.visit_expression(location, expr, None);
+                }
+            },
             Statement::Label { name: _, block } => self.visit_block(block),
             Statement::Del(expr) => {
                 self.visit_expression(location, expr, None);
@@ -425,11 +446,14 @@ impl<'o> WalkProc<'o> {
                     in_list,
                     block,
                 } = &**for_key_value;
+                let outer = self.local_vars.clone();
                 if let Some(in_list) = in_list {
                     self.visit_expression(location, in_list, None);
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, key, None);
+                } else {
+                    self.visit_ident(location, key);
                 }
                 // the "v" in a DM for (var/k, v) statement is essentially typeless.
                 // There is currently no way to change that.
@@ -440,6 +464,7 @@ impl<'o> WalkProc<'o> {
                 };
                 self.visit_var(location, &var_type_value, value, None);
                 self.visit_block(block);
+                self.local_vars = outer;
             },
         }
     }
@@ -574,6 +599,7 @@ impl<'o> WalkProc<'o> {
                 if let Some(proc) = self.ty.get_proc(unscoped_name) {
                     self.visit_call(location, src, proc, args, false)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -583,6 +609,7 @@ impl<'o> WalkProc<'o> {
                     // Self calls are exact, and won't ever call an override.
                     self.visit_call(location, src, proc, args, true)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -593,6 +620,7 @@ impl<'o> WalkProc<'o> {
                     // Parent calls are exact, and won't ever call an override.
                     self.visit_call(location, src, proc, args, true)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -602,13 +630,13 @@ impl<'o> WalkProc<'o> {
                 let typepath = self.visit_prefab(location, prefab);
                 self.visit_new(location, typepath, args)
             },
-            Term::NewMiniExpr { expr, .. } => {
+            Term::NewMiniExpr { expr, args } => {
                 let mut current = self.visit_ident(location, &expr.ident);
                 for field in expr.fields.iter() {
                     current = self.visit_field(location, current, &field.ident);
                 }
                 // The whole point is it's dynamic, so don't try anything
-                StaticType::None
+                self.visit_new(location, None, args)
             },
 
             Term::List(args) => {
@@ -713,24 +741,23 @@ impl<'o> WalkProc<'o> {
         typepath: Option<TypeRef<'o>>,
         args: &'o Option<Box<[Expression]>>,
     ) -> StaticType<'o> {
-        if let Some(typepath) = typepath {
-            if let Some(new_proc) = typepath.get_proc("New") {
-                self.visit_call(
-                    location,
-                    typepath,
-                    new_proc,
-                    args.as_ref().map_or(&[], |v| &v[..]),
-                    // New calls are exact: `new /datum()` will always call
-                    // `/datum/New()` and never an override.
-                    true,
-                );
-            }
+        let args = args.as_ref().map_or(&[][..], |v| &v[..]);
+        if let Some(new_proc) = typepath.and_then(|ty| ty.get_proc("New")) {
+            self.visit_call(
+                location,
+                new_proc.ty(),
+                new_proc,
+                args,
+                // New calls are exact: `new /datum()` will always call
+                // `/datum/New()` and never an override.
+                true,
+            );
+        } else {
             // If we had a diagnostic context here, we'd error for
             // types other than `/list`, which has no `New()`.
-            StaticType::Type(typepath)
-        } else {
-            StaticType::None
+            self.visit_arguments(location, args);
         }
+        typepath.map_or(StaticType::None, StaticType::Type)
     }
 
     fn visit_prefab(&mut self, location: Location, prefab: &'o Prefab) -> Option<TypeRef<'o>> {
@@ -757,6 +784,9 @@ impl<'o> WalkProc<'o> {
             }
             Some(nav.ty())
         } else {
+            for (_, expr) in prefab.vars.iter() {
+                self.visit_expression(location, expr, None);
+            }
             None
         }
     }
-- 
2.43.0


From e8469341fdaf3d0ccb1f7c8456a99b3bfe7d49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:18 +0000
Subject: [PATCH 44/55] fix: end the scopes of local variables where their
 block ends

---
 crates/dreammaker/src/annotation.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/annotation.rs b/crates/dreammaker/src/annotation.rs
index b38ffd0..858a4d4 100644
--- a/crates/dreammaker/src/annotation.rs
+++ b/crates/dreammaker/src/annotation.rs
@@ -90,8 +90,19 @@ impl AnnotationTree {
         self.tree.iter()
     }
 
-    pub fn get_location(&self, loc: Location) -> Iter<'_> {
-        self.tree.range(range(loc.pred(), loc))
+    /// Annotations at the given location or ending just before it, as the
+    /// cursor is considered to be on a name when it is directly after it.
+    /// This is not so for the scopes of local variables.
+    pub fn get_location(
+        &self,
+        loc: Location,
+    ) -> impl Iterator<Item = (RangeInclusive<Location>, &Annotation)> + Clone {
+        self.tree.range(range(loc.pred(), loc)).filter(
+            move |(span, annotation)| match annotation {
+                Annotation::LocalVarScope(..) => span.end >= loc,
+                _ => true,
+            },
+        )
     }
 
     pub fn get_range(&self, place: std::ops::Range<Location>) -> Iter<'_> {
-- 
2.43.0


From c074e55cf083fe75e9a96a9c2b0bc864623c2402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 45/55] fix: go to the innermost of the local variables of a
 name

---
 crates/dm-langserver/src/main.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index f4c021e..c8746eb 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -881,16 +881,18 @@ impl Engine {
     where
         I: Iterator<Item = (Span, &'b Annotation)> + Clone,
     {
-        // local variables
-        for (span, annotation) in iter.clone() {
-            if let Annotation::LocalVarScope(var_type, name) = annotation {
-                if name == var_name {
-                    return UnscopedVar::Local {
-                        loc: span.start,
-                        var_type,
-                    };
-                }
-            }
+        // local variables, the innermost first
+        let local = iter
+            .clone()
+            .filter_map(|(span, annotation)| match annotation {
+                Annotation::LocalVarScope(var_type, name) if name == var_name => {
+                    Some((span.start, var_type))
+                },
+                _ => None,
+            })
+            .max_by_key(|&(loc, _)| loc);
+        if let Some((loc, var_type)) = local {
+            return UnscopedVar::Local { loc, var_type };
         }
 
         // proc parameters
-- 
2.43.0


From 0ac81df26531ecd7a6f1de08447d6dd08b64796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 46/55] fix: end the scopes of the variables of a loop with the
 loop

---
 crates/dreammaker/src/parser.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 77ec4b6..6d68639 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1501,6 +1501,23 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         &mut self,
         loop_ctx: &LoopContext,
         vars: &mut Vec<(Location, VarType, Ident)>,
+    ) -> Status<Spanned<Statement>> {
+        // The variables of a loop aren't visible after it.
+        let outer_vars = vars.len();
+        let is_loop = matches!(self.peek(), Token::Ident(i, _) if i == "for");
+        let result = self.unscoped_statement(loop_ctx, vars);
+        if is_loop {
+            for (loc, var_type, name) in vars.drain(outer_vars..) {
+                self.annotate(loc, || Annotation::LocalVarScope(var_type, name));
+            }
+        }
+        result
+    }
+
+    fn unscoped_statement(
+        &mut self,
+        loop_ctx: &LoopContext,
+        vars: &mut Vec<(Location, VarType, Ident)>,
     ) -> Status<Spanned<Statement>> {
         let start = self.location();
         let spanned = |v| success(Spanned::new(start, v));
-- 
2.43.0


From 21b6e3fe302050899660f173f0496b6af0148c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:45 +0000
Subject: [PATCH 47/55] fix: scope the second variable of a key-value loop and
 the caught variables

---
 crates/dreammaker/src/parser.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 6d68639..2210dd6 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1641,12 +1641,19 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                             };
                             // Value is the lhs of for(k, [v in x])
                             // It should also pass only if it's an ident
+                            let value_location = match *lhs {
+                                Expression::Base { ref term, .. } => term.location,
+                                _ => start,
+                            };
                             let value = match lhs.into_term() {
                                 Some(Term::Ident(value)) => value,
                                 _ => return Err(self.error(
                                     "value must be a variable in a for (key, value) statement",
                                 )),
                             };
+                            if self.annotations.is_some() {
+                                vars.push((value_location, VarType::default(), value.clone()));
+                            }
                             // TODO : check if `x` is an ident/a "list()" or "alist()" statement ?
                             require!(self.exact(Token::Punct(Punctuation::RParen)));
                             // Returns a for(k,v)
@@ -1825,17 +1832,28 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             let try_block = require!(self.block(loop_ctx));
             self.skip_phantom_semicolons()?;
             require!(self.exact_ident("catch"));
+            let mut catch_vars: Vec<(Location, VarType, Ident)> = Vec::new();
             let catch_params = if let Some(()) = self.exact(Token::Punct(Punctuation::LParen))? {
                 require!(
                     self.separated(Punctuation::Comma, Punctuation::RParen, None, |this| {
                         // TODO: improve upon this cheap approximation
-                        success(leading!(this.tree_path(true)).1.into_boxed_slice())
+                        let path = leading!(this.tree_path(true)).1;
+                        if this.annotations.is_some() {
+                            if let Some((name, ty)) = path.split_last() {
+                                let ty = ty.iter().filter(|&part| part != "var").cloned();
+                                catch_vars.push((this.location, ty.collect(), name.clone()));
+                            }
+                        }
+                        success(path.into_boxed_slice())
                     })
                 )
             } else {
                 Vec::new()
             };
             let catch_block = require!(self.block(loop_ctx));
+            for (loc, var_type, name) in catch_vars {
+                self.annotate(loc, || Annotation::LocalVarScope(var_type, name));
+            }
             spanned(Statement::TryCatch {
                 try_block,
                 catch_params: catch_params.into_boxed_slice(),
-- 
2.43.0


From f8b8174d2c9d6db3b1b611cb389bfea8390e3473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:57 +0000
Subject: [PATCH 48/55] fix: list operator** and operator>= among the static
 identifiers

Parsing a definition of either panicked in debug builds and leaked in release builds.
---
 crates/dreammaker/src/intern.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreammaker/src/intern.rs b/crates/dreammaker/src/intern.rs
index cef3b7f..bcd7172 100644
--- a/crates/dreammaker/src/intern.rs
+++ b/crates/dreammaker/src/intern.rs
@@ -487,6 +487,7 @@ static STATIC_IDENTS: Set<&'static str> = phf_set! {
     "operator[]",
     "operator[]=",
     "operator*",
+    "operator**",
     "operator*=",
     "operator/",
     "operator/=",
@@ -508,6 +509,7 @@ static STATIC_IDENTS: Set<&'static str> = phf_set! {
     "operator<=",
     "operator<=>",
     "operator>",
+    "operator>=",
     "operator>>",
     "operator>>=",
     "operator|",
-- 
2.43.0


From b90b77115fdc72a17c7cf6658e5c1758a0acef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:57 +0000
Subject: [PATCH 49/55] fix: no overflow on color strings with more than eight
 digits

---
 crates/dmm-tools/src/minimap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index 1349e7f..4c03cc0 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -565,7 +565,7 @@ pub fn color_of<'s, T: GetVar<'s> + ?Sized>(objtree: &'s ObjectTree, atom: &T) -
         Constant::String(ref color) if color.starts_with('#') => {
             let mut sum = 0;
             for ch in color[1..color.len()].chars() {
-                sum = 16 * sum + ch.to_digit(16).unwrap_or(0);
+                sum = (sum << 4) | ch.to_digit(16).unwrap_or(0);
             }
             if color.len() == 7 {
                 // #rrggbb
-- 
2.43.0


From 031e8c0c2a17267eddb80d1bc58ac822f067d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:57 +0000
Subject: [PATCH 50/55] fix: unanchored objects and mobs do not smooth with
 their neighbors

Their paths do not start with /atom/movable/, so the rule never applied to them.
---
 crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs | 2 +-
 crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
index aff702f..a170c70 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
@@ -103,7 +103,7 @@ fn calculate_adjacencies(
 ) -> i32 {
     // Easier to read as a nested conditional
     #[allow(clippy::collapsible_if)]
-    if atom.istype("/atom/movable/") {
+    if atom.istype("/atom/movable/") || atom.istype("/obj/") || atom.istype("/mob/") {
         if atom.get_var("can_be_unanchored", objtree).to_bool()
             && !atom.get_var("anchored", objtree).to_bool()
         {
diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
index bcdcaba..3c68a4c 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
@@ -92,7 +92,7 @@ fn calculate_adjacencies(
 ) -> i32 {
     // Easier to read as a nested conditional
     #[allow(clippy::collapsible_if)]
-    if atom.istype("/atom/movable/") {
+    if atom.istype("/atom/movable/") || atom.istype("/obj/") || atom.istype("/mob/") {
         if atom.get_var("can_be_unanchored", objtree).to_bool()
             && !atom.get_var("anchored", objtree).to_bool()
         {
-- 
2.43.0


From ddc65af8390acb022d06144eba7aa1948caf4048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:23 +0000
Subject: [PATCH 51/55] fix: keep the input type of for-list statements

The type after `as` was read ahead for key-value loops and then dropped for the others.
---
 crates/dreammaker/src/parser.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 2210dd6..32f712d 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1748,12 +1748,8 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     _ => return Err(self.error("for-list must start with variable")),
                 };
 
-                let input_type = if let Some(()) = self.exact_ident("as")? {
-                    // for(var/a as obj
-                    Some(require!(self.input_type()))
-                } else {
-                    None
-                };
+                // for(var/a as obj
+                let input_type = key_input_type;
 
                 let in_list = if let Some(()) = self.exact(Token::Punct(Punctuation::In))? {
                     let value = require!(self.expression());
-- 
2.43.0


From edd5f114312dcb88ed627950011d323d6894b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:23 +0000
Subject: [PATCH 52/55] fix: check the start of a range loop over an existing
 variable

---
 crates/dreamchecker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 44cd8e1..2148268 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1936,6 +1936,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, Some(start), &mut scoped_locals);
+                } else {
+                    self.visit_expression(location, start, None, &mut scoped_locals);
                 }
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
                 if let Some(startterm) = start.as_term() {
-- 
2.43.0


From ada76814223bb123bf2d97cf8f19575f8de4f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:40 +0000
Subject: [PATCH 53/55] fix: check the arguments of calls and new() whose
 target is unknown

What such a call passes was not analyzed at all, so blocking calls, impure
operations and mistakes in it went unnoticed.
---
 crates/dreamchecker/src/lib.rs | 42 +++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 2148268..7650510 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2543,6 +2543,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         format!("undefined proc: {:?} on {}", unscoped_name, self.ty),
                     )
                     .register(self.context);
+                    self.visit_arguments(location, args, local_vars);
                     Analysis::empty()
                 }
             },
@@ -2561,6 +2562,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     error(location, format!("proc has no parent: {}", self.proc_ref))
                         .with_errortype("proc_has_no_parent")
                         .register(self.context);
+                    self.visit_arguments(location, args, local_vars);
                     Analysis::empty()
                 }
             },
@@ -2578,6 +2580,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 } else {
                     error(location, format!("undefined global proc: {global_name:?}"))
                         .register(self.context);
+                    self.visit_arguments(location, args, local_vars);
                     Analysis::empty()
                 }
             },
@@ -2589,6 +2592,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     error(location, "no type hint available on implicit new()")
                         .with_errortype("no_typehint_implicit_new")
                         .register(self.context);
+                    if let Some(args) = args {
+                        self.visit_arguments(location, args, local_vars);
+                    }
                     Analysis::empty()
                 }
             },
@@ -2602,11 +2608,17 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         format!("failed to resolve path {}", FormatTypePath(&prefab.path)),
                     )
                     .register(self.context);
+                    if let Some(args) = args {
+                        self.visit_arguments(location, args, local_vars);
+                    }
                     Analysis::empty()
                 }
             },
-            Term::NewMiniExpr { .. } => {
+            Term::NewMiniExpr { expr: _, args } => {
                 // TODO: evaluate
+                if let Some(args) = args {
+                    self.visit_arguments(location, args, local_vars);
+                }
                 Analysis::empty()
             },
 
@@ -2752,16 +2764,21 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 false,
                 local_vars,
             );
-        } else if typepath.path != "/list"
-            && typepath.path != "/alist"
-            && typepath.path != "/vector"
-            && typepath.path != "/pixloc"
-        {
-            error(
-                location,
-                format!("couldn't find {}/proc/New", typepath.path),
-            )
-            .register(self.context);
+        } else {
+            if typepath.path != "/list"
+                && typepath.path != "/alist"
+                && typepath.path != "/vector"
+                && typepath.path != "/pixloc"
+            {
+                error(
+                    location,
+                    format!("couldn't find {}/proc/New", typepath.path),
+                )
+                .register(self.context);
+            }
+            if let Some(args) = args {
+                self.visit_arguments(location, args, local_vars);
+            }
         }
         assumption_set![Assumption::IsType(true, typepath)].into()
     }
@@ -2984,6 +3001,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                     "prohibited by this private_proc annotation",
                                 )
                                 .register(self.context);
+                                self.visit_arguments(location, arguments, local_vars);
                                 return Analysis::empty(); // dont double up with visit_call()
                             }
                         }
@@ -3010,6 +3028,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     } else {
                         error(location, format!("undefined proc: {name:?} on {ty}"))
                             .register(self.context);
+                        self.visit_arguments(location, arguments, local_vars);
                         Analysis::empty()
                     }
                 } else {
@@ -3021,6 +3040,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     .with_errortype("proc_call_static_type")
                     .with_fix_hint(&lhs)
                     .register(self.context);
+                    self.visit_arguments(location, arguments, local_vars);
                     Analysis::empty()
                 }
             },
-- 
2.43.0


From 6c6380bb6e50a7b2a9c27303f04d9dfb8b34b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:56 +0000
Subject: [PATCH 54/55] fix: keep doc comments that follow the opening brace of
 a block on their own lines

---
 crates/dreammaker/src/parser.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 32f712d..66c81e8 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -654,6 +654,18 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         self.next_comment_of_target(DocTarget::EnclosingItem)
     }
 
+    /// Collect the `//!` comments after a `{`, also on the lines following it.
+    fn block_doc_comments(&mut self, docs: &mut DocCollection) -> Result<(), DMError> {
+        loop {
+            while let Some(comment) = self.enclosing_doc_comment()? {
+                docs.push(comment);
+            }
+            if self.exact(Token::Punct(Punctuation::Semicolon))?.is_none() {
+                return Ok(());
+            }
+        }
+    }
+
     // ------------------------------------------------------------------------
     // Object tree - root
 
@@ -929,9 +941,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 let start = self.updated_location();
 
                 // Inside-block `//!` comments for types.
-                while let Some(comment) = self.enclosing_doc_comment()? {
-                    docs.push(comment);
-                }
+                self.block_doc_comments(&mut docs)?;
                 if !docs.is_empty() && (proc_builder.is_some() || var_type.is_some()) {
                     // Can't apply docs to `var/` or `proc/` blocks.
                     DMError::new(
@@ -1219,9 +1229,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             body_tt.push(LocatedToken::new(self.location, Punct(LBrace)));
 
             // enclosing doc comments `//!` can appear after the `{`
-            while let Some(comment) = self.enclosing_doc_comment()? {
-                docs.push(comment);
-            }
+            self.block_doc_comments(&mut docs)?;
 
             // read the rest of the line
             while self.exact(Punct(RBrace))?.is_none() {
-- 
2.43.0


From d076875949782588558d31e130633217cccd8fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:56 +0000
Subject: [PATCH 55/55] fix: keep doc comments before #if and #elif for the
 item after them

---
 crates/dreammaker/src/preprocessor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 8ccefe2..87d970a 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -619,6 +619,9 @@ impl<'ctx> Preprocessor<'ctx> {
     }
 
     fn evaluate_inner(&mut self) -> Result<bool, DMError> {
+        // doc comments before the directive belong to what follows it
+        let docs = std::mem::take(&mut self.docs_in);
+
         // pump real_next to fill output until we get a real newline on input
         let start = self.last_input_loc;
         while let Some(tok) = self.inner_next() {
@@ -633,6 +636,9 @@ impl<'ctx> Preprocessor<'ctx> {
             }
         }
 
+        let trailing = std::mem::replace(&mut self.docs_in, docs);
+        self.docs_in.extend(trailing);
+
         // If we're inside an inactive #if, don't actually evaluate.
         // #ifdef FOO -- #if FOO == 5 will error otherwise.
         if self.is_disabled() {
-- 
2.43.0

