From cad46493411c4cfa38a287bf0d5211cdee8bf09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 01/19] fix: do not panic on short, empty or non-ASCII sentence
 types

---
 src/lib.rs | 54 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bcf5f6e..bc08254 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -196,15 +196,15 @@ impl NmeaParser {
 
         // Recognize GNSS system by talker ID.
         let nav_system = {
-            if &sentence_type[0..1] == "$" {
-                match &sentence_type[1..3] {
-                    "GN" => Some(gnss::NavigationSystem::Combination),
-                    "GP" => Some(gnss::NavigationSystem::Gps),
-                    "GL" => Some(gnss::NavigationSystem::Glonass),
-                    "GA" => Some(gnss::NavigationSystem::Galileo),
-                    "BD" => Some(gnss::NavigationSystem::Beidou),
-                    "GI" => Some(gnss::NavigationSystem::Navic),
-                    "QZ" => Some(gnss::NavigationSystem::Qzss),
+            if sentence_type.starts_with('$') {
+                match sentence_type.get(1..3) {
+                    Some("GN") => Some(gnss::NavigationSystem::Combination),
+                    Some("GP") => Some(gnss::NavigationSystem::Gps),
+                    Some("GL") => Some(gnss::NavigationSystem::Glonass),
+                    Some("GA") => Some(gnss::NavigationSystem::Galileo),
+                    Some("BD") => Some(gnss::NavigationSystem::Beidou),
+                    Some("GI") => Some(gnss::NavigationSystem::Navic),
+                    Some("QZ") => Some(gnss::NavigationSystem::Qzss),
                     _ => Some(gnss::NavigationSystem::Other),
                 }
             } else {
@@ -214,22 +214,28 @@ impl NmeaParser {
         if nav_system != None {
             // Shorten the GNSS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("${}", &sentence_type[3..6]);
+                sentence_type = match sentence_type.get(3..6) {
+                    Some(s) => format!("${}", s),
+                    None => {
+                        return Err(ParseError::InvalidSentence(
+                                   format!("Invalid NMEA sentence type: {}", sentence_type)));
+                    }
+                };
             }
         }
 
         // Recognize AIS station
         let station = {
-            if &sentence_type[0..1] == "!" {
-                match &sentence_type[1..3] {
-                    "AB" => Some(ais::Station::BaseStation),
-                    "AD" => Some(ais::Station::DependentAisBaseStation),
-                    "AI" => Some(ais::Station::MobileStation),
-                    "AN" => Some(ais::Station::AidToNavigationStation),
-                    "AR" => Some(ais::Station::AisReceivingStation),
-                    "AS" => Some(ais::Station::LimitedBaseStation),
-                    "AT" => Some(ais::Station::AisTransmittingStation),
-                    "AX" => Some(ais::Station::RepeaterStation),
+            if sentence_type.starts_with('!') {
+                match sentence_type.get(1..3) {
+                    Some("AB") => Some(ais::Station::BaseStation),
+                    Some("AD") => Some(ais::Station::DependentAisBaseStation),
+                    Some("AI") => Some(ais::Station::MobileStation),
+                    Some("AN") => Some(ais::Station::AidToNavigationStation),
+                    Some("AR") => Some(ais::Station::AisReceivingStation),
+                    Some("AS") => Some(ais::Station::LimitedBaseStation),
+                    Some("AT") => Some(ais::Station::AisTransmittingStation),
+                    Some("AX") => Some(ais::Station::RepeaterStation),
                     _ => Some(ais::Station::Other),
                 }
             } else {
@@ -239,7 +245,13 @@ impl NmeaParser {
         if station != None {
             // Shorten the AIS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("!{}", &sentence_type[3..6]);
+                sentence_type = match sentence_type.get(3..6) {
+                    Some(s) => format!("!{}", s),
+                    None => {
+                        return Err(ParseError::InvalidSentence(
+                                   format!("Invalid NMEA sentence type: {}", sentence_type)));
+                    }
+                };
             }
         }
 
-- 
2.43.0


From e5014c17358a1ad94a3523c27ccd9617f5d62e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 02/19] fix: reject AIS payloads with characters outside of the
 armouring alphabet

---
 src/lib.rs  | 3 ++-
 src/util.rs | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bc08254..e7c6417 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -394,9 +394,10 @@ impl NmeaParser {
                 }
 
                 // Try parse the payload
+                let payload_bits = parse_payload(&payload_string)?;
                 let mut bv: Option<BitVec> = None;
                 if fragment_count == 1 {
-                    bv = parse_payload(&payload_string).ok();
+                    bv = Some(payload_bits);
                 } else if fragment_count == 2 {
                     if let Some(msg_id) = message_id {
                         let key1 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
diff --git a/src/util.rs b/src/util.rs
index bbbb3b1..78a13eb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -28,10 +28,11 @@ pub fn make_fragment_key(sentence_type: &String, message_id: u64, fragment_count
 pub fn parse_payload(payload: &String) -> Result<BitVec, String> {   
     let mut bv = BitVec::<LocalBits, usize>::with_capacity(payload.len() * 6); // or Lsb0 or Msb0 ?
     for c in payload.chars() {
-        let mut ci = (c as u8) - 48;
-        if ci > 40 {
-            ci -= 8;
-        }
+        let ci = match c {
+            '0' ..= 'W' => (c as u8) - 48,
+            '`' ..= 'w' => (c as u8) - 56,
+            _ => { return Err(format!("Invalid payload character: {}", c)); }
+        };
 
         // Pick bits
         for i in 0..6 {
-- 
2.43.0


From 68543a28274fad460b635133589decd17dc1e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 03/19] fix: do not panic on short, malformed or impossible
 times of day

---
 src/util.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 78a13eb..1f86935 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -136,10 +136,12 @@ pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) ->
 
 /// Parse time field of format HHMMSS and convert it to DateTime<Utc> using the current time.
 pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, String> {
-    if let Some(hour) = hhmmss[0..2].parse::<u32>().ok() {
-        if let Some(minute) = hhmmss[2..4].parse::<u32>().ok() {
-            if let Some(second) = hhmmss[4..6].parse::<u32>().ok() {
-                return Ok(Utc.ymd(now.year(), now.month(), now.day()).and_hms(hour, minute, second))
+    if let Some(hour) = pick_n2(hhmmss, 0) {
+        if let Some(minute) = pick_n2(hhmmss, 2) {
+            if let Some(second) = pick_n2(hhmmss, 4) {
+                if let Some(dt) = now.date().and_hms_opt(hour, minute, second) {
+                    return Ok(dt);
+                }
             }
         }
     }
@@ -167,6 +169,16 @@ pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>,
     return Err(format!("Invalid date format: {}", yymmdd));
 }
 
+/// A simple helper to pick a number of exactly two digits from the given string.
+fn pick_n2(s: &str, i: usize) -> Option<u32> {
+    let s2 = s.get(i .. i + 2)?;
+    if s2.bytes().all(|b| b.is_ascii_digit()) {
+        s2.parse().ok()
+    } else {
+        None
+    }
+}
+
 /// A simple helper to pick a substring of length two from the given string.
 fn pick_s2(s: &str, i: usize) -> String {
     s.chars().skip(i).take(2).collect()
-- 
2.43.0


From f7aadd4169e390f0dd7742c500bddf8ef69bda3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 04/19] fix: do not panic on impossible RMC dates and times

---
 src/util.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 1f86935..42a4f0d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -151,18 +151,21 @@ pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, S
 /// Parse time fields of formats YYMMDD and HHMMSS and convert them to DateTime<Utc>.
 pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>, String> {
     let century = (Utc::now().year() / 100) * 100;
-    if let Some(day) = pick_s2(yymmdd, 0).parse::<u32>().ok() {
-        if let Some(month) = pick_s2(yymmdd, 2).parse::<u32>().ok() {
-            if let Some(year) = pick_s2(yymmdd, 4).parse::<i32>().ok() {
-                if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
-                    if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
-                        if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
-                            return Ok(Utc.ymd(century + year, month, day)
-                                         .and_hms(hour, minute, second))
+    if let Some(day) = pick_n2(yymmdd, 0) {
+        if let Some(month) = pick_n2(yymmdd, 2) {
+            if let Some(year) = pick_n2(yymmdd, 4) {
+                if let Some(date) = Utc.ymd_opt(century + year as i32, month, day).single() {
+                    if let Some(hour) = pick_n2(hhmmss, 0) {
+                        if let Some(minute) = pick_n2(hhmmss, 2) {
+                            if let Some(second) = pick_n2(hhmmss, 4) {
+                                if let Some(dt) = date.and_hms_opt(hour, minute, second) {
+                                    return Ok(dt);
+                                }
+                            }
                         }
                     }
+                    return Err(format!("Invalid time format: {}", hhmmss));
                 }
-                return Err(format!("Invalid time format: {}", hhmmss));
             }
         }
     }
@@ -179,11 +182,6 @@ fn pick_n2(s: &str, i: usize) -> Option<u32> {
     }
 }
 
-/// A simple helper to pick a substring of length two from the given string.
-fn pick_s2(s: &str, i: usize) -> String {
-    s.chars().skip(i).take(2).collect()
-}
-
 /// Parse latitude from two string.
 /// lat_string = DDMM.MMM representing latitude
 /// hemisphere = N for north, S for south
-- 
2.43.0


From 5ed232cca856bde71b0544cf859be88947f2fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 05/19] fix: do not panic on base station reports without a
 valid time

---
 src/ais/vdm_t4.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ais/vdm_t4.rs b/src/ais/vdm_t4.rs
index 2d0748f..d37bd40 100644
--- a/src/ais/vdm_t4.rs
+++ b/src/ais/vdm_t4.rs
@@ -82,12 +82,18 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 8, 30) as u32
         },
         timestamp: {
-            Some(Utc.ymd(pick_u64(&bv, 38, 14) as i32, 
-                        pick_u64(&bv, 52, 4) as u32, 
-                        pick_u64(&bv, 56, 5) as u32)
-                    .and_hms(pick_u64(&bv, 61, 5) as u32, 
-                             pick_u64(&bv, 66, 6) as u32, 
-                             pick_u64(&bv, 72, 6) as u32))
+            match pick_u64(&bv, 38, 14) as i32 {
+                0 => { None }, // not available
+                year => {
+                    Utc.ymd_opt(year,
+                                pick_u64(&bv, 52, 4) as u32, 
+                                pick_u64(&bv, 56, 5) as u32)
+                        .single()
+                        .and_then(|date| date.and_hms_opt(pick_u64(&bv, 61, 5) as u32, 
+                                                          pick_u64(&bv, 66, 6) as u32, 
+                                                          pick_u64(&bv, 72, 6) as u32))
+                },
+            }
         },        
         high_position_accuracy: {
             pick_u64(&bv, 78, 1) != 0
-- 
2.43.0


From 24e76093997a5e6c81a994946d196d4b60928c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 06/19] fix: pick the next occurrence of the ETA and do not
 panic on impossible ones

---
 src/util.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 42a4f0d..4148da7 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -100,7 +100,7 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     let mut minute = pick_u64(bv, index + 4 + 5 + 5, 6) as u32;
     let mut second = pick_u64(bv, index + 4 + 5 + 5 + 6, 6) as u32;
     
-    if month == 0 && day == 0 && hour == 24 && minute == 60 && second == 60 {
+    if month == 0 && day == 0 && hour == 24 && minute == 60 {
         return None;
     }
     
@@ -108,17 +108,13 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     if day == 0    { day = now.day(); }
     if hour == 24  { hour = 23; minute = 59; second = 59; }
     if minute == 60  { minute = 59; second = 59; }
-    if second == 60  { second = 59; }
+    if second >= 60  { second = 59; }
     
-    // This and next year
-    let this_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
-    let next_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
-
-    if now <= this_year_eta {
-        Some(DateTime::<Utc>::from_utc(this_year_eta, Utc))
-    } else {
-        Some(DateTime::<Utc>::from_utc(next_year_eta, Utc))
-    }
+    // This year, next year or (for the leap day) the next leap year
+    (0 ..= 8).filter_map(|i| NaiveDate::from_ymd_opt(now.year() + i, month, day))
+             .filter_map(|date| date.and_hms_opt(hour, minute, second))
+             .find(|eta| now <= *eta)
+             .map(|eta| DateTime::<Utc>::from_utc(eta, Utc))
 }
 
 /// Pick field from comma-separated sentence or None if empty field.
-- 
2.43.0


From 4f96e848f4149072d5ade3658bcec4b6335d4a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 07/19] fix: reject GSV message numbers outside of the group
 and do not loop over missing ones

---
 src/gnss/gsv.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/gnss/gsv.rs b/src/gnss/gsv.rs
index efdc429..edc6859 100644
--- a/src/gnss/gsv.rs
+++ b/src/gnss/gsv.rs
@@ -45,18 +45,14 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
     let msg_type = split.get(0).unwrap_or(&"");
     let msg_count = pick_number_field(&split, 1)?.unwrap_or(0);
     let msg_num = pick_number_field(&split, 2)?.unwrap_or(0);
-    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());
-
-    let mut found_count = 0;
-    for i in 1..(msg_count + 1) {
-        if store.contains_key(make_gsv_key(msg_type, msg_count, i)) {
-            found_count += 1;
-        }
+    if msg_num < 1 || msg_num > msg_count {
+        return Err(format!("Invalid GSV message number: {}/{}", msg_num, msg_count).into());
     }
+    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());
 
-    if found_count == msg_count {
+    if (1 ..= msg_count).all(|i| store.contains_key(make_gsv_key(msg_type, msg_count, i))) {
         let mut v = Vec::new();
-        for i in 1..(msg_count + 1) {
+        for i in 1 ..= msg_count {
             if let Some(sentence) = store.pull_string(make_gsv_key(msg_type, msg_count, i)) {
                 let split: Vec<&str> = sentence.split(',').collect();
                 for j in 0..4 {
-- 
2.43.0


From feafc6fb21ee21503bd491e1d9976464677e2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 08/19] fix: ship types 80-89 are tankers and 90-99 other ships

---
 src/ais/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index bc0b8aa..e9140ba 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -452,10 +452,10 @@ impl ShipType {
                 ShipType::Cargo
             },
             80 | 81 | 82 | 83 | 84 | 85 | 86 | 87 | 88 | 89 => {
-                ShipType::Cargo
+                ShipType::Tanker
             },
             90 | 91 | 92 | 93 | 94 | 95 | 96 | 97 | 98 | 99 => {
-                ShipType::Cargo
+                ShipType::Other
             },
             _ => {
                 warn!("Unexpected ship and cargo type: {}", raw);
-- 
2.43.0


From 800af5560cd9b836a42774a07e4b4c90e197df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 09/19] fix: read the class B flags of type 18 from their own
 bits

---
 src/ais/vdm_t18.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/ais/vdm_t18.rs b/src/ais/vdm_t18.rs
index 3201a2b..76c0254 100644
--- a/src/ais/vdm_t18.rs
+++ b/src/ais/vdm_t18.rs
@@ -73,18 +73,14 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
                 }
             },
         timestamp_seconds: pick_u64(&bv, 133, 6) as u8,
-        class_b_unit_flag: { 
-            None 
-        },
-        class_b_display:    Some(pick_u64(&bv, 141, 1) != 0),
-        class_b_dsc:        Some(pick_u64(&bv, 142, 1) != 0),
-        class_b_band_flag:  Some(pick_u64(&bv, 143, 1) != 0),
-        class_b_msg22_flag: Some(pick_u64(&bv, 144, 1) != 0),
-        class_b_mode_flag:  Some(pick_u64(&bv, 145, 1) != 0),
-        raim_flag:          pick_u64(&bv, 141, 1) != 0,
-        class_b_css_flag: {
-            None
-        },
+        class_b_unit_flag:  Some(pick_u64(&bv, 141, 1) != 0),
+        class_b_display:    Some(pick_u64(&bv, 142, 1) != 0),
+        class_b_dsc:        Some(pick_u64(&bv, 143, 1) != 0),
+        class_b_band_flag:  Some(pick_u64(&bv, 144, 1) != 0),
+        class_b_msg22_flag: Some(pick_u64(&bv, 145, 1) != 0),
+        class_b_mode_flag:  Some(pick_u64(&bv, 146, 1) != 0),
+        raim_flag:          pick_u64(&bv, 147, 1) != 0,
+        class_b_css_flag:   Some(pick_u64(&bv, 148, 1) != 0),
         radio_status:            Some(pick_u64(&bv, 149, 19) as u32),
         nav_status:              NavigationStatus::NotDefined,
         rot:                     None,
-- 
2.43.0


From ef76118c8f831a2b29316bdb00c32026c4de9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 10/19] fix: read the off-position indicator of type 21 from
 its own bit

---
 src/ais/vdm_t21.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index ddcb097..f1f1054 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -347,7 +347,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 253, 6) as u8
         },
         off_position_indicator: {
-            pick_u64(&bv, 243, 1) != 0
+            pick_u64(&bv, 259, 1) != 0
         },
         regional: {
             pick_u64(&bv, 260, 8) as u8
-- 
2.43.0


From 4e264659a95aae0d2525358bf07cd04f143e463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 11/19] fix: type 5 messages come from class A vessels

---
 src/ais/vdm_t5.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t5.rs b/src/ais/vdm_t5.rs
index 37fb814..c1b24e9 100644
--- a/src/ais/vdm_t5.rs
+++ b/src/ais/vdm_t5.rs
@@ -20,7 +20,7 @@ use super::*;
 pub fn handle(bv: &BitVec, _station: Station, own_vessel: bool) -> Result<ParsedSentence, ParseError> {
     return Ok(ParsedSentence::VesselStaticData(VesselStaticData{
         own_vessel:              own_vessel,
-        ais_type:                AisClass::ClassB,
+        ais_type:                AisClass::ClassA,
         mmsi:                    pick_u64(&bv, 8, 30) as u32,
         ais_version_indicator:   pick_u64(&bv, 38, 2) as u8,
         imo_number: {
-- 
2.43.0


From 054beb4467f4bf6cdf0f0908c81ee4282b503dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 12/19] fix: special manoeuvre indicator 1 means not engaged

---
 src/ais/vdm_t1t2t3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index 8a68569..aa66a56 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -119,7 +119,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             let raw = pick_u64(&bv, 143, 2);
             match raw {
                 0 => { None },
-                1 => { Some(true) },
+                1 => { Some(false) },
                 2 => { Some(true) },
                 _ => {
                     warn!("Unrecognized Maneuver Indicator value: {}", raw);
-- 
2.43.0


From dfa4f0d3b5763b75ee8f8dab16abb1cdab5ae37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 13/19] fix: do not scale the rate of turn twice

---
 src/ais/vdm_t1t2t3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index aa66a56..7b00227 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -38,9 +38,9 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         rot: {
             let raw = pick_i64(&bv, 42, 8);
             if -126 <= raw && raw < 0 {
-                Some(-((-raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some(-(-raw as f64 / 4.733).powi(2))
             } else if 0 <= raw && raw <= 126 {
-                Some(((raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some((raw as f64 / 4.733).powi(2))
             } else {
                 None
             }
-- 
2.43.0


From 9ebf0cd3063200cbd95be8c74b78fe0100446fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 14/19] fix: the name in type 24 part A has 20 characters

---
 src/ais/vdm_t24.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index 23a4bfd..d3f47a5 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -47,7 +47,7 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         },
         name: {
             if part_a {
-                let raw = pick_string(&bv, 40, 120);
+                let raw = pick_string(&bv, 40, 20);
                 match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
             } else {
                 None
-- 
2.43.0


From 0c86e12b4ec88ff567295e3bef87332d309f2c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 15/19] fix: do not complete a type 24 message with two copies
 of the same part

---
 src/ais/vdm_t24.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index d3f47a5..f235b0a 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -129,12 +129,16 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         }
     };
 
-    // Check whether we can return a complete or incomplete response
-    if let Some(vsd2) = store.pull_vsd(vsd.mmsi) {
-        Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?))
-    } else {
-        store.push_vsd(vsd.mmsi, vsd);
-        Ok(ParsedSentence::Incomplete)
+    // Check whether we can return a complete or incomplete response. A repeated part replaces
+    // the saved one (only part B has equipment model).
+    match store.pull_vsd(vsd.mmsi) {
+        Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b => {
+            Ok(ParsedSentence::VesselStaticData(vsd.merge(vsd2)?))
+        },
+        _ => {
+            store.push_vsd(vsd.mmsi, vsd);
+            Ok(ParsedSentence::Incomplete)
+        }
     }
 }
 
-- 
2.43.0


From 646c7768e325c56458caa56de8f9d6566e7c388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 16/19] fix: reject coordinates with trailing garbage

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 4148da7..4ea14c0 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -184,7 +184,7 @@ fn pick_n2(s: &str, i: usize) -> Option<u32> {
 pub fn parse_latitude_ddmm_mmm(lat_string: &str, hemisphere: &str) -> Result<Option<f64>, String> {
     // DDMM.MMM
     if lat_string != "" {
-        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\.[0-9]+)").unwrap();
+        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\.[0-9]+)$").unwrap();
         if let Some(caps) = re.captures(lat_string) {
             let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
             let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
@@ -204,7 +204,7 @@ pub fn parse_latitude_ddmm_mmm(lat_string: &str, hemisphere: &str) -> Result<Opt
 pub fn parse_longitude_dddmm_mmm(lon_string: &str, eastwest: &str) -> Result<Option<f64>, String> {
     // DDDMM.MMM
     if lon_string != "" {
-        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\.[0-9]+)").unwrap();
+        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\.[0-9]+)$").unwrap();
         if let Some(caps) = re.captures(lon_string) {
             let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
             let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
-- 
2.43.0


From 35922b6a0ae9d7ec3fb7bc677734c8f7823fcd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 17/19] fix: numeric fields cannot be "nan" or "inf"

---
 src/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 4ea14c0..c76e0cb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -121,6 +121,10 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
 pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) -> Result<Option<T>, String> {
     let s = split.get(num).unwrap_or(&"");
     if *s != "" {
+        // Spelled-out numbers like "inf" or "nan" are accepted by f64
+        if s.contains(|c: char| c.is_alphabetic() && c != 'e' && c != 'E') {
+            return Err(format!("Failed to parse field {}: {}", num, s));
+        }
         match s.parse::<T>() {
             Ok(p)   => { Ok(Some(p)) }, 
             Err(_e) => { Err(format!("Failed to parse field {}: {}", num, s)) }
-- 
2.43.0


From 7820613ca22b45170f3ccf7d3642ccb9dae2da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 18/19] fix: recognize the FAA simulator mode

---
 src/gnss/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gnss/mod.rs b/src/gnss/mod.rs
index 0e6959e..bf2bad5 100644
--- a/src/gnss/mod.rs
+++ b/src/gnss/mod.rs
@@ -110,6 +110,7 @@ impl FaaMode {
             "D" => Ok(FaaMode::Differential),
             "E" => Ok(FaaMode::Estimated),
             "N" => Ok(FaaMode::NotValid),
+            "S" => Ok(FaaMode::Simulator),
             _ => { Err(format!("Unrecognized FAA information value: {}", val)) }
         }
     }
-- 
2.43.0


From 058c9a9979f3180b03dcbc6d17c1b62a0fcf8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:34 +0000
Subject: [PATCH 19/19] fix: country codes of North Korea, Reunion and the
 Democratic Republic of the Congo

---
 mid-to-iso3166.py | 10 ++++++----
 src/ais/mod.rs    |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/mid-to-iso3166.py b/mid-to-iso3166.py
index fa1c100..f36ac11 100755
--- a/mid-to-iso3166.py
+++ b/mid-to-iso3166.py
@@ -581,7 +581,7 @@ MID = MID \
          .replace("France - Saint Paul and Amsterdam Islands", "French Southern Territories") \
          .replace("France - Kerguelen Islands", "French Southern Territories") \
          .replace("France - Crozet Archipelago", "French Southern Territories") \
-         .replace("France - Reunion", "French Southern Territories") \
+         .replace("France - Reunion", "Reunion") \
          .replace("France - Adelie Land", "French Southern Territories") \
          .replace("France - ", "") \
          .replace("Australia - ", "") \
@@ -601,11 +601,11 @@ MID = MID \
                   "Saint Helena, Ascension and Tristan da Cunha") \
          .replace("United Kingdom of Great Britain and Northern Ireland - ", "") \
          .replace("Argentine Republic", "Argentina") \
-         .replace("Democratic Republic of the Congo", "Congo") \
+         .replace("Democratic Republic of the Congo", "Congo, Democratic Republic of the") \
          .replace("Togolese Republic", "Togo") \
          .replace("Gabonese Republic", "Gabon") \
          .replace("Kyrgyz Republic", "Kyrgyzstan") \
-         .replace("Democratic People's Republic of Korea", "Korea") \
+         .replace("Democratic People's Republic of Korea", "Korea, Democratic People's Republic of") \
          .replace("State of Palestine", "Palestine, State of") \
          .replace("Czech Republic", "Czechia") \
          .replace("Slovak Republic", "Slovakia") \
@@ -617,7 +617,9 @@ MID = MID \
 ISO_3166 = ISO_3166.replace("Virgin Islands (U.S.)", "United States Virgin Islands") \
                    .replace("Virgin Islands (British)", "British Virgin Islands") 
 ISO_3166 = re.sub(r'( \(.*?\))', "", ISO_3166)
-ISO_3166 += "\nFrance - Reunion  RE ZZZ 000"
+ISO_3166 += "\nReunion  RE ZZZ 000"
+ISO_3166 += "\nCongo, Democratic Republic of the  CD COD 180"
+ISO_3166 += "\nKorea, Democratic People's Republic of  KP PRK 408"
 ISO_3166 += "\nVatican City State  VA ZZZ 000"
 
 # Parse ISO-3166 mapping
diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index e9140ba..d2e8c07 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -802,7 +802,7 @@ impl VesselStaticData {
             440 => Some("KR"), // Korea
             441 => Some("KR"), // Korea
             443 => Some("PS"), // Palestine, State of
-            445 => Some("KR"), // Korea
+            445 => Some("KP"), // Korea, Democratic People's Republic of
             447 => Some("KW"), // Kuwait
             450 => Some("LB"), // Lebanon
             451 => Some("KG"), // Kyrgyzstan
@@ -905,7 +905,7 @@ impl VesselStaticData {
             656 => Some("NE"), // Niger
             657 => Some("NG"), // Nigeria
             659 => Some("NA"), // Namibia
-            660 => Some("TF"), // French Southern Territories
+            660 => Some("RE"), // Reunion
             661 => Some("RW"), // Rwanda
             662 => Some("SD"), // Sudan
             663 => Some("SN"), // Senegal
@@ -920,7 +920,7 @@ impl VesselStaticData {
             672 => Some("TN"), // Tunisia
             674 => Some("TZ"), // Tanzania, United Republic of
             675 => Some("UG"), // Uganda
-            676 => Some("CG"), // Congo
+            676 => Some("CD"), // Congo, Democratic Republic of the
             677 => Some("TZ"), // Tanzania, United Republic of
             678 => Some("ZM"), // Zambia
             679 => Some("ZW"), // Zimbabwe
-- 
2.43.0

