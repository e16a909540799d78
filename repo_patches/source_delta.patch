From 130a0c61f624fddcd625a35b51d59888577992e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 01/26] fix: check a frame's size against the bytes left after
 its index

A frame cut off by the end of the data was accepted whenever the whole
recording was longer than the frame, and slicing its body panicked.
---
 src/qw/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index 8dab71e..0e4634e 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -24,7 +24,7 @@ pub struct Info {
 
 impl Info {
     pub fn from_data_and_index(data: &[u8], index: usize) -> Result<Self> {
-        let mut cur = Cursor::new(&data[index..]);
+        let mut cur = Cursor::new(data.get(index..).unwrap_or_default());
 
         let duration = cur.read_byte()? as u32;
 
@@ -48,7 +48,7 @@ impl Info {
         let header_size = cur.position() as usize;
         let size = header_size + body_size;
 
-        if data.len() < size {
+        if cur.get_ref().len() < size {
             return Err(e!("Frame is smaller than expected size"));
         }
 
-- 
2.43.0


From 5aa6e4ea6ea7e81bbb30185c28dff8fcaeba033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 02/26] fix: return an error for damaged or incomplete embedded
 statistics

Statistics text without a complete chain of blocks around it made
ktxstats_string panic, or return an empty or partial document.
---
 src/ktxstats.rs | 18 +++++++++++++-----
 src/qw/block.rs |  6 +++++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/ktxstats.rs b/src/ktxstats.rs
index 50f839c..957ed72 100644
--- a/src/ktxstats.rs
+++ b/src/ktxstats.rs
@@ -15,20 +15,28 @@ pub fn ktxstats_v3(data: &[u8]) -> Result<KtxstatsV3> {
 pub fn ktxstats_string(data: &[u8]) -> Result<String> {
     const TOTAL_HEADER_SIZE: usize = frame::MULTI_HEADER_SIZE + block::HEADER_SIZE;
 
-    let Some(mut offset) = data.rfind(br#"{"version": "#) else {
+    let Some(mut offset) = data
+        .rfind(br#"{"version": "#)
+        .and_then(|o| o.checked_sub(TOTAL_HEADER_SIZE))
+    else {
         return Err(e!("ktxstats not found"));
     };
-    offset -= TOTAL_HEADER_SIZE;
     let mut content = Vec::new();
 
     // read blocks
-    while let Ok(info) = block::Info::try_from(&data[offset + frame::MULTI_HEADER_SIZE..]) {
+    loop {
+        let header = data.get(offset + frame::MULTI_HEADER_SIZE..);
+        let info = block::Info::try_from(header.unwrap_or_default())?;
+
         if info.hidden_message != HiddenMessage::Demoinfo {
-            break;
+            return Err(e!("ktxstats is incomplete"));
         }
 
         offset += TOTAL_HEADER_SIZE;
-        content.extend_from_slice(&data[offset..offset + info.body_size]);
+        let Some(body) = data.get(offset..offset + info.body_size) else {
+            return Err(e!("ktxstats is incomplete"));
+        };
+        content.extend_from_slice(body);
 
         if info.number == 0 {
             break;
diff --git a/src/qw/block.rs b/src/qw/block.rs
index db73330..63a7145 100644
--- a/src/qw/block.rs
+++ b/src/qw/block.rs
@@ -1,5 +1,7 @@
 use std::io::Cursor;
 
+use anyhow::anyhow as e;
+
 use crate::qw::primitives::{numsize, ReadPrimitives};
 use crate::qw::prot::HiddenMessage;
 
@@ -19,7 +21,9 @@ impl TryFrom<&[u8]> for Info {
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
         let mut cur = Cursor::new(value);
         // exclude block number bytes from size
-        let body_size = cur.read_u32()? as usize - numsize::SHORT;
+        let Some(body_size) = (cur.read_u32()? as usize).checked_sub(numsize::SHORT) else {
+            return Err(e!("Block is smaller than its block number"));
+        };
 
         Ok(Info {
             body_size,
-- 
2.43.0


From 664b9763c54f6986e6a1ec311780e25c81ca0abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 03/26] fix: look for serverinfo in recordings shorter than
 1280 bytes

serverinfo_string sliced the first 1280 bytes unconditionally and
panicked on anything shorter, also through is_valid and timestamp.
---
 src/serverinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serverinfo.rs b/src/serverinfo.rs
index 2e29027..8fe3655 100644
--- a/src/serverinfo.rs
+++ b/src/serverinfo.rs
@@ -11,7 +11,7 @@ pub fn serverinfo_string(data: &[u8]) -> Result<String> {
     const MAX_OFFSET: usize = 256;
     const MAX_SIZE: usize = 1024;
     let Some((from, to)) = bytesextra::offsets_between(
-        &data[..MAX_OFFSET + MAX_SIZE],
+        &data[..data.len().min(MAX_OFFSET + MAX_SIZE)],
         br#"fullserverinfo ""#,
         &[b'"'],
     ) else {
-- 
2.43.0


From a6b67d1527d550966294ecefacf5666c6e3bdb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 04/26] fix: do not look for client info past the end of the
 data

clientinfo_strings panicked when the spawn block lies within 512 bytes of
the end of the recording.
---
 src/clientinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index cfd775e..a204d25 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -24,7 +24,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
 
     let mut result: Vec<String> = vec![];
 
-    while let Some(name_offset) = data[offset..offset + MAX_LOOKAHEAD]
+    while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
         .map(|o| offset + o)
     {
-- 
2.43.0


From eea2c209c5bc746307decde4c0f4df3a24dfe335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 05/26] fix: return an error for impossible match durations

A countdown that outlasts the demo, or a negative, infinite or huge duration in
the statistics, made match_duration panic, as did the millisecond sum of
a recording longer than 2^32 ms.
---
 src/duration.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 9e876ac..4820221 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -43,7 +43,8 @@ pub fn match_duration(data: &[u8]) -> Result<Duration> {
 pub fn match_duration_from_seeking(data: &[u8]) -> Result<Duration> {
     let end = demo_duration(data)?;
     let begin = countdown_duration(data).unwrap_or(Duration::ZERO);
-    Ok(end - begin)
+    end.checked_sub(begin)
+        .ok_or_else(|| e!("Demo ends before the match begins"))
 }
 
 pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
@@ -54,19 +55,19 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
         return Err(e!("Duration not found in ktxstats"));
     };
     let duration_f: f64 = ktxstats_s[from..to].parse()?;
-    Ok(Duration::from_secs_f64(duration_f))
+    Ok(Duration::try_from_secs_f64(duration_f)?)
 }
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
     let mut index = 0;
-    let mut total_ms: u32 = 0;
+    let mut total_ms: u64 = 0;
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
         if index >= target_offset {
             break;
         }
 
-        total_ms += frame_info.duration;
+        total_ms += u64::from(frame_info.duration);
         index += frame_info.size;
     }
 
-- 
2.43.0


From f078a7c838bc5b25219b409e4cf67e37d82a5bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 06/26] fix: return an error for a match date with misplaced
 multi-byte characters

Slicing the text at fixed byte offsets panicked when one of them lies
inside a character.
---
 src/matchdate.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/matchdate.rs b/src/matchdate.rs
index 7cd32dd..4ee39cb 100644
--- a/src/matchdate.rs
+++ b/src/matchdate.rs
@@ -18,11 +18,16 @@ pub fn matchdate(data: &[u8]) -> Result<DateTime<Utc>> {
 }
 
 fn replace_tz_abbr_with_offset(timestamp: &str) -> Result<String> {
-    let tz_abbr = &timestamp[DATETIME_LEN + 1..];
+    let (Some(datetime), Some(tz_abbr)) = (
+        timestamp.get(..DATETIME_LEN),
+        timestamp.get(DATETIME_LEN + 1..),
+    ) else {
+        return Err(e!("Invalid matchdate"));
+    };
     let Some(tz_offset) = timezone::utc_offset(tz_abbr) else {
         return Err(e!("Invalid timezone abbreviation"));
     };
-    Ok(format!("{}{}", &timestamp[..DATETIME_LEN], tz_offset))
+    Ok(format!("{}{}", datetime, tz_offset))
 }
 
 pub fn matchdate_string(data: &[u8]) -> Result<String> {
-- 
2.43.0


From b89877a8c69f5b0dd1426cd41975ab27d2b12fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 07/26] fix: reject numeric UTC offsets that are not two or
 four digits

+1 was padded to +1000 and taken for ten hours, silently giving another
instant.
---
 src/timezone.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/timezone.rs b/src/timezone.rs
index bf047a9..ca9bb87 100644
--- a/src/timezone.rs
+++ b/src/timezone.rs
@@ -235,12 +235,14 @@ fn utc_offset_by_offset(offset: &str) -> Option<String> {
     };
 
     // support +xx and +xxxx
-    let offset = format!("{:0<4}", offset[1..].replace(':', ""));
+    let digits = offset[1..].replace(':', "");
 
-    if offset.len() != 4 {
+    if ![2, 4].contains(&digits.len()) || !digits.bytes().all(|b| b.is_ascii_digit()) {
         return None;
     }
 
+    let offset = format!("{:0<4}", digits);
+
     // validate that number is between 0000 and 1200
     match offset.parse::<i32>() {
         Ok(number) if (0..=1200).contains(&number) => {
-- 
2.43.0


From 6b273eef5acbadd379c925446c1da4712aebba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 08/26] fix: sum ping samples in 32 bits

Eight samples of 8192 ms or more overflowed the 16 bit sum.
---
 src/ping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ping.rs b/src/ping.rs
index 2d0fc13..1d859c5 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -51,7 +51,7 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut average_ping: HashMap<u8, u32> = HashMap::new();
 
     for (pnum, pings) in total_pings.iter() {
-        let pings_sum = pings.iter().sum::<u16>();
+        let pings_sum = pings.iter().map(|p| u32::from(*p)).sum::<u32>();
         let avg_ping = (pings_sum as f32 / pings.len() as f32) as u32;
         average_ping.insert(*pnum, avg_ping);
     }
-- 
2.43.0


From 3e24105d94c66b622df821038819d640f8d31116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 09/26] fix: add up team frags and pings without overflow

Extreme frags or pings (a negative ping in the statistics becomes a huge
one) overflowed the 32 bit sums.
---
 src/team.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index dbb4d18..e57e1fe 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -25,13 +25,15 @@ impl From<&[Player]> for Team {
             color: [0, 0],
         };
 
+        let mut total_ping: u64 = 0;
+
         for player in players.iter() {
             team.players.push(player.clone());
-            team.frags += player.frags;
-            team.ping += player.ping;
+            team.frags = team.frags.saturating_add(player.frags);
+            total_ping += u64::from(player.ping);
         }
 
-        team.ping = (team.ping as f32 / team.players.len() as f32).round() as u32;
+        team.ping = (total_ping as f64 / team.players.len() as f64).round() as u32;
         let player_colors: Vec<[u8; 2]> = team.players.iter().map(|p| p.color).collect();
         team.color = majority_color(&player_colors).unwrap_or(players[0].color);
 
-- 
2.43.0


From c0b03b6fda840cec6fb900cfc7f18473a96ce0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 10/26] fix: make team colors and team order independent of
 hash order

A tie between colors, and the order of teams whose names differ only by
case, depended on the iteration order of a HashMap and so varied from
call to call. More than 255 players of one color overflowed the count.
---
 src/team.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index e57e1fe..85d9d96 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -54,7 +54,10 @@ pub fn teams_from_players(players: &[Player]) -> Vec<Team> {
         teams.push(Team::from(teamplayers.as_slice()))
     }
 
-    teams.sort_by(|a, b| a.name.to_lowercase().cmp(&b.name.to_lowercase()));
+    teams.sort_by(|a, b| {
+        let by_lowercase = a.name.to_lowercase().cmp(&b.name.to_lowercase());
+        by_lowercase.then_with(|| a.name.cmp(&b.name))
+    });
 
     teams
 }
@@ -66,7 +69,7 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
         _ => {}
     };
 
-    let mut color_count: HashMap<[u8; 2], u8> = HashMap::new();
+    let mut color_count: HashMap<[u8; 2], usize> = HashMap::new();
     for color in colors.iter() {
         let count = color_count.entry(*color).or_insert(0);
         *count += 1;
@@ -74,10 +77,11 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
 
     let mut max_color = None;
     let mut max_count = 0;
-    for (color, count) in color_count.iter() {
-        if *count > max_count {
+    for color in colors.iter() {
+        let count = color_count[color];
+        if count > max_count {
             max_color = Some(*color);
-            max_count = *count;
+            max_count = count;
         }
     }
 
-- 
2.43.0


From b2c2eb7b60206484c8ea88c9a525bbfcf1ad5a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 11/26] fix: keep players with equal name and frags in client
 order

players_from_parsing collected the players from a HashMap, so that their
order varied from call to call, and two clients with one number shared an
entry.
---
 src/players.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/players.rs b/src/players.rs
index 0214868..9c52fe5 100644
--- a/src/players.rs
+++ b/src/players.rs
@@ -1,5 +1,3 @@
-use std::collections::HashMap;
-
 use anyhow::Result;
 use ktxstats::v3::KtxstatsV3;
 
@@ -28,7 +26,7 @@ pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
     let clients = clients(data)?;
     let pings = ping_per_player_number(data)?;
     let frags = frags_per_player_name(data);
-    let mut pmap: HashMap<u8, Player> = HashMap::new();
+    let mut players: Vec<Player> = vec![];
 
     for c in clients.iter().filter(|c| !c.is_spectator) {
         let player = Player {
@@ -41,10 +39,9 @@ pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
             auth_cc: c.auth_cc.clone(),
             is_bot: c.is_bot,
         };
-        pmap.insert(c.number, player);
+        players.push(player);
     }
 
-    let mut players: Vec<Player> = pmap.values().cloned().collect();
     players.sort_by(player::sort());
     Ok(players)
 }
-- 
2.43.0


From 4218a6b42ea92ee1114e0f97828383d3f8203366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 12/26] fix: count more than 255 flag events per player

The 8 bit counters overflowed.
---
 src/flags.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 9caeeb8..bce6c8a 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -12,13 +12,13 @@ use crate::qw::prot::{MessageType, PrintId};
 
 #[derive(Debug, Default, PartialEq, Eq)]
 pub struct PlayerFlagEvents {
-    captures: u8,
-    pickups: u8,
-    returns: u8,
-    carrier_frags: u8,
-    defends: u8,
-    carrier_defends: u8,
-    carrier_defends_vs_aggressive: u8,
+    captures: u32,
+    pickups: u32,
+    returns: u32,
+    carrier_frags: u32,
+    defends: u32,
+    carrier_defends: u32,
+    carrier_defends_vs_aggressive: u32,
 }
 
 pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEvents> {
-- 
2.43.0


From 47bc9ef52e83748b103ed4689d8f2ba321b33411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 13/26] fix: count every flag message of a frame

With two complete flag messages in one frame, the second was dropped or
glued to the first. Prints are now joined until the message ends with a
newline.
---
 src/flags.rs | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index bce6c8a..6ef8168 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -4,7 +4,6 @@ use std::io::Cursor;
 use bstr::ByteSlice;
 
 use crate::qw::flagevent::FlagEvent;
-use crate::qw::flagprint;
 use crate::qw::frame;
 use crate::qw::message::message_type::ReadMessageType;
 use crate::qw::message::print::ReadPrint;
@@ -40,15 +39,11 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
             if mt == MessageType::Print {
                 if let Ok(p) = body.read_print() {
                     if p.id == PrintId::High && !p.content.is_empty() {
-                        if current_print.is_empty() {
-                            current_print.extend_from_slice(&p.content);
-                        } else {
-                            if is_message_suffix(&p.content) {
-                                current_print.extend_from_slice(&p.content);
-                            }
-
-                            prints.push(current_print.clone());
-                            current_print = vec![];
+                        current_print.extend_from_slice(&p.content);
+
+                        // a message may be split into several prints
+                        if current_print.ends_with(b"\n") {
+                            prints.push(std::mem::take(&mut current_print));
                         }
                     }
                 }
@@ -107,17 +102,6 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
     player_flag_events
 }
 
-fn is_message_suffix(print: &[u8]) -> bool {
-    [
-        flagprint::X_RETURNED_FLAG.to_vec(),
-        flagprint::X_GOT_FLAG.to_vec(),
-        flagprint::X_CAPTURED_FLAG.to_vec(),
-    ]
-    .iter()
-    .flatten()
-    .any(|n| quake_text::bytestr::to_unicode(print).ends_with(n))
-}
-
 #[cfg(test)]
 mod tests {
     use std::fs::read;
-- 
2.43.0


From 850327971d5d65f4afc5ad3843e16cd4b530967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 14/26] fix: number clients by their slot on the server

Clients were numbered by position in the spawn block, which is wrong as
soon as a slot in between is unused: pings and anonymous team kills were
given to the wrong player or to nobody.
---
 src/clientinfo.rs | 38 ++++++++++++++++++++++++++++++++++++--
 src/clients.rs    |  6 +++---
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index a204d25..1911858 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -1,7 +1,12 @@
+use std::ops::Range;
+
 use anyhow::{anyhow as e, Result};
 use bstr::ByteSlice;
 pub use quake_clientinfo::Clientinfo;
 
+use crate::qw::primitives::numsize;
+use crate::qw::prot::MessageType;
+
 pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
     let info: Vec<Clientinfo> = clientinfo_strings(data)?
         .iter()
@@ -11,6 +16,35 @@ pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
 }
 
 pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
+    let strings = clientinfo_ranges(data)?
+        .into_iter()
+        .map(|range| quake_text::bytestr::to_unicode(&data[range]))
+        .collect();
+    Ok(strings)
+}
+
+/// Player numbers, in the order of the client info.
+pub(crate) fn player_numbers(data: &[u8]) -> Result<Vec<u8>> {
+    // [type] [player number] [user id] [user info]
+    const HEADER_SIZE: usize = 2 + numsize::LONG;
+
+    let numbers = clientinfo_ranges(data)?
+        .iter()
+        .enumerate()
+        .map(|(position, range)| {
+            let header = range.start.checked_sub(HEADER_SIZE).map(|o| &data[o..]);
+            match header {
+                Some([t, number, ..]) if MessageType::from(t) == MessageType::UpdateUserinfo => {
+                    *number
+                }
+                _ => position as u8,
+            }
+        })
+        .collect();
+    Ok(numbers)
+}
+
+fn clientinfo_ranges(data: &[u8]) -> Result<Vec<Range<usize>>> {
     const CMD_SPAWN: [u8; 0x0A] = [0x09, 0x63, 0x6D, 0x64, 0x20, 0x73, 0x70, 0x61, 0x77, 0x6E];
 
     let Some(mut offset) = data.find(CMD_SPAWN) else {
@@ -22,7 +56,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
     const MIN_LEN: usize = r#"\name\ "#.len();
     const MAX_LEN: usize = 256;
 
-    let mut result: Vec<String> = vec![];
+    let mut result: Vec<Range<usize>> = vec![];
 
     while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
@@ -40,7 +74,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
             break;
         }
 
-        result.push(quake_text::bytestr::to_unicode(&data[from..to]));
+        result.push(from..to);
         offset = to;
 
         if offset >= max_offset {
diff --git a/src/clients.rs b/src/clients.rs
index 48710fd..44e934d 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -8,10 +8,10 @@ use crate::clientinfo;
 pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
     let clients: Vec<Client> = clientinfo::clientinfo(data)?
         .iter()
-        .enumerate()
-        .map(|(number, info)| {
+        .zip(clientinfo::player_numbers(data)?)
+        .map(|(info, number)| {
             let mut client = Client::from(info);
-            client.number = number as u8;
+            client.number = number;
             client
         })
         .collect();
-- 
2.43.0


From aa924ddd6864b6b8c8c4d8bcdae855c7ce78809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 15/26] fix: do not read hidden data and sequence numbers as
 messages

The body of a hidden frame starts with the length of its data and that of
a set frame with sequence numbers; whenever their first byte happened to
be that of a print, ping or frag update, it was taken for one.
---
 src/flags.rs    |  7 ++++---
 src/frags.rs    | 12 ++++++++----
 src/ping.rs     |  6 ++++--
 src/prints.rs   |  6 ++++--
 src/qw/frame.rs | 13 +++++++++++++
 5 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 6ef8168..fba258f 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -26,13 +26,14 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
     let mut prints: Vec<Vec<u8>> = vec![];
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
-        if frame_info.body_size == 0 || data[frame_info.clone().body_range].find(b"flag").is_none()
-        {
+        let messages = frame_info.messages(data);
+
+        if messages.find(b"flag").is_none() {
             index += frame_info.size;
             continue;
         }
 
-        let mut body = Cursor::new(&data[frame_info.clone().body_range]);
+        let mut body = Cursor::new(messages);
         let mut current_print: Vec<u8> = vec![];
 
         while let Ok(mt) = body.read_message_type() {
diff --git a/src/frags.rs b/src/frags.rs
index dcd8d0a..f52704c 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -17,12 +17,14 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     let mut print_frames: Vec<(Print, frame::Info)> = vec![];
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
-        if frame_info.body_size == 0 {
+        let messages = frame_info.messages(data);
+
+        if messages.is_empty() {
             index += frame_info.size;
             continue;
         }
 
-        let mut body = Cursor::new(&data[frame_info.clone().body_range]);
+        let mut body = Cursor::new(messages);
 
         if body
             .read_message_type()
@@ -88,14 +90,16 @@ fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<Stri
     const MAX_FRAME_COUNT: usize = 4;
 
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
+        let messages = info.messages(data);
+
         if frame_count >= MAX_FRAME_COUNT {
             break;
-        } else if info.body_size == 0 {
+        } else if messages.is_empty() {
             index += info.size;
             continue;
         }
 
-        let mut body = Cursor::new(&data[info.body_range.clone()]);
+        let mut body = Cursor::new(messages);
 
         if frame_count == 1 {
             body.read_print().ok();
diff --git a/src/ping.rs b/src/ping.rs
index 1d859c5..e0e7030 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -15,8 +15,10 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut total_pings: HashMap<u8, Vec<u16>> = HashMap::new();
 
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
-        if info.body_size > 0 {
-            let mut body = Cursor::new(&data[info.body_range.clone()]);
+        let messages = info.messages(data);
+
+        if !messages.is_empty() {
+            let mut body = Cursor::new(messages);
             let mut did_ping_update = false;
 
             while body
diff --git a/src/prints.rs b/src/prints.rs
index da62734..b76eb54 100644
--- a/src/prints.rs
+++ b/src/prints.rs
@@ -11,8 +11,10 @@ pub fn prints(data: &[u8]) -> Vec<Print> {
     let mut prints: Vec<Print> = Vec::new();
 
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
-        if info.body_size > 0 {
-            let mut body = Cursor::new(&data[info.body_range]);
+        let messages = info.messages(data);
+
+        if !messages.is_empty() {
+            let mut body = Cursor::new(messages);
 
             while body
                 .read_message_type()
diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index 0e4634e..39b44f0 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -64,6 +64,19 @@ impl Info {
             body_range: index + header_size..index + size,
         })
     }
+
+    /// The game messages of the frame, if any. Set frames hold sequence numbers and frames that
+    /// target multiple players, but none of them, hold hidden data.
+    pub fn messages<'a>(&self, data: &'a [u8]) -> &'a [u8] {
+        let is_hidden = self.target == Target::Multiple
+            && data[self.header_range.clone()][numsize::SHORT..MULTI_HEADER_SIZE - numsize::LONG]
+                == [0; numsize::LONG];
+
+        match self.command == Command::Read && !is_hidden {
+            true => &data[self.body_range.clone()],
+            false => &[],
+        }
+    }
 }
 
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From 9f02854cf56d210a5fe37c8ca27c81167bcbdce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 16/26] fix: list each team once

The case-insensitive sort does not bring equal names together when names
differ in case or color only, so that dedup left a team in twice.
---
 src/clients.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/clients.rs b/src/clients.rs
index 44e934d..063235e 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -70,6 +70,8 @@ pub fn team_names(data: &[u8]) -> Result<Vec<String>> {
         .map(|c| c.team.clone())
         .collect();
 
+    // sort by name before the case-insensitive sort, to have equal names next to each other
+    names.sort();
     names = unicode::sort(&names);
     names.dedup();
     Ok(names)
-- 
2.43.0


From ae0d7fc5fb253063fdd2cd446497a88897ebf841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 17/26] fix: read every print that opens a frame for frags

Prints of the same moment share a frame; only the first was looked at, so
that a kill announced together with another message was not counted.
---
 src/frags.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/frags.rs b/src/frags.rs
index f52704c..99143ce 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -26,7 +26,7 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
 
         let mut body = Cursor::new(messages);
 
-        if body
+        while body
             .read_message_type()
             .is_ok_and(|t| t == MessageType::Print)
         {
@@ -100,15 +100,16 @@ fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<Stri
         }
 
         let mut body = Cursor::new(messages);
+        let mut message_type = body.read_message_type();
 
         if frame_count == 1 {
-            body.read_print().ok();
+            while message_type.as_ref().is_ok_and(|t| *t == MessageType::Print) {
+                body.read_print().ok();
+                message_type = body.read_message_type();
+            }
         }
 
-        if body
-            .read_message_type()
-            .is_ok_and(|t| t == MessageType::UpdateFrags)
-        {
+        if message_type.is_ok_and(|t| t == MessageType::UpdateFrags) {
             if let Ok(u) = body.read_update_frags() {
                 frag_update_player_numbers.push(u.player_number);
             }
-- 
2.43.0


From 726bfab5def5c2302dd03b5f05e9575722bfa3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 18/26] fix: look at all score updates of a frame for the team
 killer

The scores of all players that changed are sent together, in slot order;
when another one came first the team kill was charged to nobody.
---
 src/frags.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/frags.rs b/src/frags.rs
index 99143ce..64e38b1 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -103,16 +103,20 @@ fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<Stri
         let mut message_type = body.read_message_type();
 
         if frame_count == 1 {
-            while message_type.as_ref().is_ok_and(|t| *t == MessageType::Print) {
+            while message_type
+                .as_ref()
+                .is_ok_and(|t| *t == MessageType::Print)
+            {
                 body.read_print().ok();
                 message_type = body.read_message_type();
             }
         }
 
-        if message_type.is_ok_and(|t| t == MessageType::UpdateFrags) {
+        while message_type.is_ok_and(|t| t == MessageType::UpdateFrags) {
             if let Ok(u) = body.read_update_frags() {
                 frag_update_player_numbers.push(u.player_number);
             }
+            message_type = body.read_message_type();
         }
 
         index += info.size;
-- 
2.43.0


From 72b8e12ab60036f8acc5abf25bde5d9731f548b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 19/26] fix: reject UTC offsets with a misplaced colon

---
 src/timezone.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/timezone.rs b/src/timezone.rs
index ca9bb87..f7adea0 100644
--- a/src/timezone.rs
+++ b/src/timezone.rs
@@ -234,8 +234,14 @@ fn utc_offset_by_offset(offset: &str) -> Option<String> {
         }
     };
 
-    // support +xx and +xxxx
-    let digits = offset[1..].replace(':', "");
+    // support +xx, +xxxx and +xx:xx
+    let digits = match offset[1..].split_once(':') {
+        Some((hours, minutes)) if hours.len() == 2 && minutes.len() == 2 => {
+            hours.to_string() + minutes
+        }
+        Some(_) => return None,
+        None => offset[1..].to_string(),
+    };
 
     if ![2, 4].contains(&digits.len()) || !digits.bytes().all(|b| b.is_ascii_digit()) {
         return None;
-- 
2.43.0


From 92bba505061550d40d9a7deb4e686480299a0c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 20/26] fix: average any number of ping samples exactly

---
 src/ping.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ping.rs b/src/ping.rs
index e0e7030..e57147e 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -53,8 +53,8 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut average_ping: HashMap<u8, u32> = HashMap::new();
 
     for (pnum, pings) in total_pings.iter() {
-        let pings_sum = pings.iter().map(|p| u32::from(*p)).sum::<u32>();
-        let avg_ping = (pings_sum as f32 / pings.len() as f32) as u32;
+        let pings_sum = pings.iter().map(|p| u64::from(*p)).sum::<u64>();
+        let avg_ping = (pings_sum / pings.len() as u64) as u32;
         average_ping.insert(*pnum, avg_ping);
     }
 
-- 
2.43.0


From 7dece0aff19c8fa79b2ae8a741becc247b1f125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 21/26] fix: keep names that end with a blank character apart
 in obituaries

---
 src/frags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frags.rs b/src/frags.rs
index 64e38b1..1c67d0b 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -45,7 +45,7 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     for (print, frame_info) in print_frames {
         let content_u = quake_text::bytestr::to_unicode(&print.content);
 
-        match FragEvent::try_from(content_u.trim_end()) {
+        match FragEvent::try_from(content_u.trim_end_matches('\n')) {
             Ok(event) => match event {
                 FragEvent::Frag { killer, .. } => {
                     let killer = frags.entry(killer).or_insert(0);
-- 
2.43.0


From e3811e87da285bbe3237ba9ae63ad405a62b333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 22/26] fix: read the last value of a client info string as it
 is

---
 src/clientinfo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index 1911858..dfd5a20 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -10,7 +10,8 @@ use crate::qw::prot::MessageType;
 pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
     let info: Vec<Clientinfo> = clientinfo_strings(data)?
         .iter()
-        .map(|s| Clientinfo::from(s.as_str()))
+        // the closing delimiter keeps the last value from being trimmed
+        .map(|s| Clientinfo::from(format!("{s}\\").as_str()))
         .collect();
     Ok(info)
 }
-- 
2.43.0


From 6a36f86b31fa742125f468f47e938f46ca53f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 23/26] fix: read the last value of the server settings as it
 is

---
 src/serverinfo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serverinfo.rs b/src/serverinfo.rs
index 8fe3655..c8f9b67 100644
--- a/src/serverinfo.rs
+++ b/src/serverinfo.rs
@@ -4,7 +4,8 @@ pub use quake_serverinfo::Settings;
 use crate::bytesextra;
 
 pub fn serverinfo(data: &[u8]) -> Result<Settings> {
-    serverinfo_string(data).map(|str| Settings::from(str.as_str()))
+    // the closing delimiter keeps the last value from being trimmed
+    serverinfo_string(data).map(|str| Settings::from(format!("{str}\\").as_str()))
 }
 
 pub fn serverinfo_string(data: &[u8]) -> Result<String> {
-- 
2.43.0


From a3f9f367bb8c130a05999f725f12bd0a772ad56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 24/26] fix: report the sum of frame times exactly

---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 4820221..95b066a 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -71,7 +71,7 @@ fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
         index += frame_info.size;
     }
 
-    Duration::from_secs_f32(total_ms as f32 / 1000.0)
+    Duration::from_millis(total_ms)
 }
 
 #[cfg(test)]
-- 
2.43.0


From d3f6f83753ef250215368601c04cee5bc99553ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:10 +0000
Subject: [PATCH 25/26] fix: list clients behind a long run of unused slots

The name of the next client was looked for within 512 bytes. The entry of an unused slot takes
24 bytes, so that all clients behind 14 or more of them were lost.
---
 src/clientinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index dfd5a20..5b067d2 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -52,7 +52,7 @@ fn clientinfo_ranges(data: &[u8]) -> Result<Vec<Range<usize>>> {
         return Err(e!("Unable to find clientinfo strings"));
     };
     const MAX_PLAYERS: usize = 24;
-    const MAX_LOOKAHEAD: usize = 512;
+    const MAX_LOOKAHEAD: usize = 1280; // user info of 256 bytes, behind 31 unused slots of 24 bytes
     let max_offset: usize = offset + MAX_PLAYERS * MAX_LOOKAHEAD;
     const MIN_LEN: usize = r#"\name\ "#.len();
     const MAX_LEN: usize = 256;
-- 
2.43.0


From d5c4f037d0d43aaea8b972332af6f07bb385f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:40 +0000
Subject: [PATCH 26/26] fix: see a bot in statistics whose blocks are split
 inside its mention

---
 src/clients.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/clients.rs b/src/clients.rs
index 063235e..704c0e9 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -4,6 +4,7 @@ use quake_text::unicode;
 
 use crate::client::Client;
 use crate::clientinfo;
+use crate::ktxstats::ktxstats_string;
 
 pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
     let clients: Vec<Client> = clientinfo::clientinfo(data)?
@@ -23,7 +24,11 @@ pub fn has_bot_players(data: &[u8]) -> Result<bool> {
         return Ok(true);
     }
 
-    Ok(data.rfind(br#""bot": {"#).is_some())
+    const BOT_NEEDLE: &str = r#""bot": {"#;
+    let is_mentioned = data.rfind(BOT_NEEDLE).is_some();
+
+    // the mention may be split between two blocks of ktxstats
+    Ok(is_mentioned || ktxstats_string(data).is_ok_and(|s| s.contains(BOT_NEEDLE)))
 }
 
 pub fn has_human_players(data: &[u8]) -> Result<bool> {
-- 
2.43.0

