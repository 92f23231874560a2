From dc4d24c1ecf9a6dd2c84c5b53c37c4661c191bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 01/33] fix: reject variable length integers that do not fit in
 63 bits instead of overflowing

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 88d3368..672112e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,8 +156,16 @@ pub fn parse_vlq_int(input: &[u8]) -> IResult<&[u8], i64> {
     let mut bits: i64 = 6;
     while (v_int_value & 0x80) != 0 {
         let (new_tail, new_v_int_value) = dbg_peek_hex(u8, "v_int")(tail)?;
+        let chunk = new_v_int_value as i64 & 0x7fi64;
+        if bits > 62 || chunk > (i64::MAX >> bits) {
+            // The magnitude does not fit in 63 bits, the input is not a valid i64.
+            return Err(nom::Err::Failure(nom::error::Error::new(
+                tail,
+                nom::error::ErrorKind::TooLarge,
+            )));
+        }
         tail = new_tail;
-        result |= ((new_v_int_value as i64 & 0x7fi64) << bits) as i64;
+        result |= chunk << bits;
         v_int_value = new_v_int_value;
         bits += 7;
     }
-- 
2.43.0


From 6392ebb1b421cfbfcfab83bc2ad20607a71ca3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 02/33] fix: do not overflow when a 64 bits wide packed int has
 a negative offset

---
 src/bit_packed_decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bit_packed_decoder.rs b/src/bit_packed_decoder.rs
index 62c07a5..4295ad8 100644
--- a/src/bit_packed_decoder.rs
+++ b/src/bit_packed_decoder.rs
@@ -147,7 +147,8 @@ pub fn parse_packed_int(
     num_bits: usize,
 ) -> S2ProtoResult<(&[u8], usize), i64> {
     let (tail, num) = take_n_bits_into_i64(input, num_bits)?;
-    let res = offset + num;
+    // A 64 bits wide value spans the whole i64 range, the biased sum is modulo 2^64.
+    let res = offset.wrapping_add(num);
     tracing::debug!("parse_packed_int: {}", res);
     Ok((tail, res))
 }
-- 
2.43.0


From 603733126c07b01a61f37fc9a2878861ee1e1e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 03/33] fix: read optional fields after the bit that says they
 are provided

---
 src/generator/decoder_type.rs     | 6 ++++--
 src/versions/protocol87702/mod.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 929b990..7c41994 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -875,14 +875,14 @@ impl DecoderType {
                     let array_size_bits =
                         (array_length.parse::<f32>().unwrap().log2() + 1.).floor() as usize;
                     type_impl_def.push_str(&format!(
-                        "let (tail, array_length) = take_n_bits_into_i64(input, {array_size_bits})?;\n\
+                        "let (tail, array_length) = take_n_bits_into_i64(tail, {array_size_bits})?;\n\
                         let array_length = array_length as usize;\n\
                          tracing::debug!(\"Reading array length: {array_length}\");\n\
                          "
                     ));
                     if is_bit_array {
                         type_impl_def.push_str(&format!(
-                            "let (tail, array) = take_bit_array(input, array_length)?;\n"
+                            "let (tail, array) = take_bit_array(tail, array_length)?;\n"
                         ));
                     } else {
                         type_impl_def.push_str(&format!(
@@ -897,6 +897,8 @@ impl DecoderType {
                     type_impl_def.push_str("(tail, Some(array))");
                 } else {
                     if field_value_parser.contains("input,") {
+                        // The value follows the bit that says whether it is provided.
+                        let field_value_parser = field_value_parser.replace("input,", "tail,");
                         type_impl_def
                             .push_str(&format!("let (tail, res) = {field_value_parser}?;\n"));
                     } else {
diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index 71d60bc..cc0845a 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -6207,7 +6207,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<Vec<Uint8>>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_data_deprecated) = if is_provided {
-                let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+                let (mut tail, array_length) = take_n_bits_into_i64(tail, 5)?;
                 let array_length = array_length as usize;
                 tracing::debug!("Reading array length: {array_length}");
                 let max_initial_capacity =
@@ -12478,7 +12478,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<i64>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_sequence) = if is_provided {
-                let (tail, res) = parse_packed_int(input, 1, 32usize)?;
+                let (tail, res) = parse_packed_int(tail, 1, 32usize)?;
                 (tail, Some(res))
             } else {
                 (tail, None)
-- 
2.43.0


From 7927a8d2120f441fe838fc9f982c705d86a7c5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 04/33] fix: read the lobby slots of protocols up to 75689 with
 their own layout

---
 src/versions/protocol75689/lobby_slots.rs | 103 ++++++
 src/versions/protocol75689/mod.rs         | 365 +++++++++++++++++++++-
 2 files changed, 463 insertions(+), 5 deletions(-)
 create mode 100644 src/versions/protocol75689/lobby_slots.rs

diff --git a/src/versions/protocol75689/lobby_slots.rs b/src/versions/protocol75689/lobby_slots.rs
new file mode 100644
index 0000000..af9a213
--- /dev/null
+++ b/src/versions/protocol75689/lobby_slots.rs
@@ -0,0 +1,103 @@
+//! Returns the players data at the initial state of the game.
+//! The lobby slots of this protocol have a narrower handicap, a shorter list of licenses, and miss
+//! the co-op fields that were added later, otherwise they are the same as in protocol87702
+
+use super::bit_packed::*;
+use crate::init_data::InitData;
+use crate::versions::protocol87702::bit_packed as protocol87702;
+use crate::*;
+use nom_mpq::MPQ;
+
+impl ReplaySInitData {
+    /// Read the Init Data
+    #[tracing::instrument(level = "debug", skip(mpq, file_contents))]
+    pub fn read_init_data(mpq: &MPQ, file_contents: &[u8]) -> Result<InitData, S2ProtocolError> {
+        let (_, init_data_sector) =
+            mpq.read_mpq_file_sector("replay.initData", false, file_contents)?;
+        let (_, replay_sinitdata) = ReplaySInitData::parse((&init_data_sector, 0usize))?;
+        protocol87702::ReplaySInitData::from(replay_sinitdata).try_into()
+    }
+}
+
+impl From<ReplaySInitData> for protocol87702::ReplaySInitData {
+    fn from(source: ReplaySInitData) -> Self {
+        Self {
+            m_sync_lobby_state: source.m_sync_lobby_state.into(),
+        }
+    }
+}
+
+impl From<GameSLobbySyncState> for protocol87702::GameSLobbySyncState {
+    fn from(source: GameSLobbySyncState) -> Self {
+        Self {
+            m_user_initial_data: source.m_user_initial_data,
+            m_game_description: source.m_game_description,
+            m_lobby_state: source.m_lobby_state.into(),
+        }
+    }
+}
+
+impl From<GameSLobbyState> for protocol87702::GameSLobbyState {
+    fn from(source: GameSLobbyState) -> Self {
+        Self {
+            m_phase: source.m_phase,
+            m_max_users: source.m_max_users,
+            m_max_observers: source.m_max_observers,
+            m_slots: protocol87702::GameCLobbySlotArray {
+                value: source.m_slots.value.into_iter().map(|v| v.into()).collect(),
+            },
+            m_random_seed: source.m_random_seed,
+            m_host_user_id: source.m_host_user_id,
+            m_is_single_player: source.m_is_single_player,
+            m_picked_map_tag: source.m_picked_map_tag,
+            m_game_duration: source.m_game_duration,
+            m_default_difficulty: source.m_default_difficulty,
+            m_default_ai_build: source.m_default_ai_build,
+        }
+    }
+}
+
+impl From<GameSLobbySlot> for protocol87702::GameSLobbySlot {
+    fn from(source: GameSLobbySlot) -> Self {
+        Self {
+            m_control: source.m_control,
+            m_user_id: source.m_user_id,
+            m_team_id: source.m_team_id,
+            m_color_pref: source.m_color_pref,
+            m_race_pref: source.m_race_pref,
+            m_difficulty: source.m_difficulty,
+            m_ai_build: source.m_ai_build,
+            m_handicap: protocol87702::GameTHandicap {
+                value: Uint32 {
+                    value: source.m_handicap.value,
+                },
+            },
+            m_observe: source.m_observe,
+            m_logo_index: source.m_logo_index,
+            m_hero: source.m_hero,
+            m_skin: source.m_skin,
+            m_mount: source.m_mount,
+            m_artifacts: source.m_artifacts,
+            m_working_set_slot_id: source.m_working_set_slot_id,
+            m_rewards: source.m_rewards,
+            m_toon_handle: source.m_toon_handle,
+            m_licenses: protocol87702::GameCLicenseArray {
+                value: source.m_licenses.value,
+            },
+            m_tandem_leader_id: source.m_tandem_leader_id,
+            m_commander: source.m_commander,
+            m_commander_level: source.m_commander_level,
+            m_has_silence_penalty: source.m_has_silence_penalty,
+            m_tandem_id: source.m_tandem_id,
+            m_commander_mastery_level: source.m_commander_mastery_level,
+            m_commander_mastery_talents: source.m_commander_mastery_talents,
+            m_trophy_id: source.m_trophy_id,
+            m_reward_overrides: source.m_reward_overrides,
+            m_brutal_plus_difficulty: Uint32 { value: 0 },
+            m_retry_mutation_indexes: protocol87702::GameCRetryMutationIndexArray { value: vec![] },
+            m_a_c_enemy_race: Uint32 { value: 0 },
+            m_a_c_enemy_wave_type: Uint32 { value: 0 },
+            m_selected_commander_prestige: Uint32 { value: 0 },
+        }
+    }
+}
diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index 3462b46..947e8e6 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -1,4 +1,5 @@
 pub use crate::versions::protocol87702::events::*;
+mod lobby_slots;
 pub mod byte_aligned {
     //! Generated code from source: ../s2protocol/json/protocol75689.json
     //! All byte aligned types are compatible with protocol87702
@@ -60,7 +61,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::GameCCheatString;
     pub use crate::versions::protocol87702::bit_packed::GameCCommanderMasteryTalentArray;
     pub use crate::versions::protocol87702::bit_packed::GameCGameCacheName;
-    pub use crate::versions::protocol87702::bit_packed::GameCLobbySlotArray;
     pub use crate::versions::protocol87702::bit_packed::GameCModPaths;
     pub use crate::versions::protocol87702::bit_packed::GameCPlayerDetailsArray;
     pub use crate::versions::protocol87702::bit_packed::GameCRewardArray;
@@ -130,8 +130,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::GameSHijackReplaySessionUserInfo;
     pub use crate::versions::protocol87702::bit_packed::GameSLoadGameDoneEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSLoadingProgressMessage;
-    pub use crate::versions::protocol87702::bit_packed::GameSLobbyState;
-    pub use crate::versions::protocol87702::bit_packed::GameSLobbySyncState;
     pub use crate::versions::protocol87702::bit_packed::GameSMapCoord;
     pub use crate::versions::protocol87702::bit_packed::GameSMapCoord3D;
     pub use crate::versions::protocol87702::bit_packed::GameSMuteChatEvent;
@@ -164,7 +162,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::GameSSetAbsoluteGameSpeedEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetGameDurationEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetGameSpeedEvent;
-    pub use crate::versions::protocol87702::bit_packed::GameSSetLobbySlotEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetSyncLoadingTimeEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetSyncPlayingTimeEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSingleStepGameEvent;
@@ -296,7 +293,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::Int64;
     pub use crate::versions::protocol87702::bit_packed::MEventData;
     pub use crate::versions::protocol87702::bit_packed::ReplaySGameUserId;
-    pub use crate::versions::protocol87702::bit_packed::ReplaySInitData;
     pub use crate::versions::protocol87702::bit_packed::SUserInitialData;
     pub use crate::versions::protocol87702::bit_packed::SVarUint32;
     pub use crate::versions::protocol87702::bit_packed::SVersion;
@@ -2105,4 +2101,363 @@ pub mod bit_packed {
             }
         }
     }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameCLobbySlotArray {
+        pub value: Vec<GameSLobbySlot>,
+    }
+    impl GameCLobbySlotArray {
+        #[tracing::instrument(name="75689::GameCLobbySlotArray::ArrayType::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let array_length_num_bits: usize = 5;
+            let (mut tail, array_length) = parse_packed_int(input, 0, array_length_num_bits)?;
+            // compat_count(GameSLobbySlot::parse, array_length as usize)(tail)?;
+            let array_length = array_length as usize;
+            tracing::debug!("Reading array length: {array_length}");
+            let max_initial_capacity =
+                MAX_INITIAL_CAPACITY_BYTES / std::mem::size_of::<GameSLobbySlot>().max(1);
+            let mut array = Vec::with_capacity(array_length.min(max_initial_capacity));
+            for _ in 0..array_length {
+                let (new_tail, data) = GameSLobbySlot::parse(tail)?;
+                tail = new_tail;
+                array.push(data);
+            }
+            Ok((tail, Self { value: array }))
+        }
+    }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameSLobbyState {
+        pub m_phase: GameEPhase,
+        pub m_max_users: TUserCount,
+        pub m_max_observers: TUserCount,
+        pub m_slots: GameCLobbySlotArray,
+        pub m_random_seed: Uint32,
+        pub m_host_user_id: Option<TUserId>,
+        pub m_is_single_player: bool,
+        pub m_picked_map_tag: Uint8,
+        pub m_game_duration: Uint32,
+        pub m_default_difficulty: GameTDifficulty,
+        pub m_default_ai_build: GameTaiBuild,
+    }
+    impl GameSLobbyState {
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_phase(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), GameEPhase> {
+            let (tail, m_phase) = GameEPhase::parse(input)?;
+            tracing::debug!("m_phase: {:?}", m_phase);
+            Ok((tail, m_phase))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_max_users(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), TUserCount> {
+            let (tail, m_max_users) = TUserCount::parse(input)?;
+            tracing::debug!("m_max_users: {:?}", m_max_users);
+            Ok((tail, m_max_users))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_max_observers(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), TUserCount> {
+            let (tail, m_max_observers) = TUserCount::parse(input)?;
+            tracing::debug!("m_max_observers: {:?}", m_max_observers);
+            Ok((tail, m_max_observers))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_slots(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameCLobbySlotArray> {
+            let (tail, m_slots) = GameCLobbySlotArray::parse(input)?;
+            tracing::debug!("m_slots: {:?}", m_slots);
+            Ok((tail, m_slots))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_random_seed(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Uint32> {
+            let (tail, m_random_seed) = Uint32::parse(input)?;
+            tracing::debug!("m_random_seed: {:?}", m_random_seed);
+            Ok((tail, m_random_seed))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_host_user_id(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), Option<TUserId>> {
+            let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
+            let (tail, m_host_user_id) = if is_provided {
+                let (tail, res) = TUserId::parse(tail)?;
+                (tail, Some(res))
+            } else {
+                (tail, None)
+            };
+            tracing::debug!("m_host_user_id: {:?}", m_host_user_id);
+            Ok((tail, m_host_user_id))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_is_single_player(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), bool> {
+            let (tail, m_is_single_player) = parse_bool(input)?;
+            tracing::debug!("m_is_single_player: {:?}", m_is_single_player);
+            Ok((tail, m_is_single_player))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_picked_map_tag(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), Uint8> {
+            let (tail, m_picked_map_tag) = Uint8::parse(input)?;
+            tracing::debug!("m_picked_map_tag: {:?}", m_picked_map_tag);
+            Ok((tail, m_picked_map_tag))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_game_duration(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), Uint32> {
+            let (tail, m_game_duration) = Uint32::parse(input)?;
+            tracing::debug!("m_game_duration: {:?}", m_game_duration);
+            Ok((tail, m_game_duration))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_default_difficulty(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameTDifficulty> {
+            let (tail, m_default_difficulty) = GameTDifficulty::parse(input)?;
+            tracing::debug!("m_default_difficulty: {:?}", m_default_difficulty);
+            Ok((tail, m_default_difficulty))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_default_ai_build(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameTaiBuild> {
+            let (tail, m_default_ai_build) = GameTaiBuild::parse(input)?;
+            tracing::debug!("m_default_ai_build: {:?}", m_default_ai_build);
+            Ok((tail, m_default_ai_build))
+        }
+        #[tracing::instrument(name="75689::bit_packed::GameSLobbyState::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let mut tail = input;
+            let mut m_phase: Option<GameEPhase> = None;
+            let mut m_max_users: Option<TUserCount> = None;
+            let mut m_max_observers: Option<TUserCount> = None;
+            let mut m_slots: Option<GameCLobbySlotArray> = None;
+            let mut m_random_seed: Option<Uint32> = None;
+            let mut m_host_user_id: Option<Option<TUserId>> = Some(None);
+            let mut m_is_single_player: Option<bool> = None;
+            let mut m_picked_map_tag: Option<Uint8> = None;
+            let mut m_game_duration: Option<Uint32> = None;
+            let mut m_default_difficulty: Option<GameTDifficulty> = None;
+            let mut m_default_ai_build: Option<GameTaiBuild> = None;
+            if m_phase.is_none() {
+                let (new_tail, parsed_m_phase) = Self::parse_m_phase(tail)?;
+                tail = new_tail;
+                m_phase = Some(parsed_m_phase);
+            }
+            if m_max_users.is_none() {
+                let (new_tail, parsed_m_max_users) = Self::parse_m_max_users(tail)?;
+                tail = new_tail;
+                m_max_users = Some(parsed_m_max_users);
+            }
+            if m_max_observers.is_none() {
+                let (new_tail, parsed_m_max_observers) = Self::parse_m_max_observers(tail)?;
+                tail = new_tail;
+                m_max_observers = Some(parsed_m_max_observers);
+            }
+            if m_slots.is_none() {
+                let (new_tail, parsed_m_slots) = Self::parse_m_slots(tail)?;
+                tail = new_tail;
+                m_slots = Some(parsed_m_slots);
+            }
+            if m_random_seed.is_none() {
+                let (new_tail, parsed_m_random_seed) = Self::parse_m_random_seed(tail)?;
+                tail = new_tail;
+                m_random_seed = Some(parsed_m_random_seed);
+            }
+            if let Some(None) = m_host_user_id {
+                let (new_tail, parsed_m_host_user_id) = Self::parse_m_host_user_id(tail)?;
+                tail = new_tail;
+                m_host_user_id = Some(parsed_m_host_user_id);
+            }
+            if m_is_single_player.is_none() {
+                let (new_tail, parsed_m_is_single_player) = Self::parse_m_is_single_player(tail)?;
+                tail = new_tail;
+                m_is_single_player = Some(parsed_m_is_single_player);
+            }
+            if m_picked_map_tag.is_none() {
+                let (new_tail, parsed_m_picked_map_tag) = Self::parse_m_picked_map_tag(tail)?;
+                tail = new_tail;
+                m_picked_map_tag = Some(parsed_m_picked_map_tag);
+            }
+            if m_game_duration.is_none() {
+                let (new_tail, parsed_m_game_duration) = Self::parse_m_game_duration(tail)?;
+                tail = new_tail;
+                m_game_duration = Some(parsed_m_game_duration);
+            }
+            if m_default_difficulty.is_none() {
+                let (new_tail, parsed_m_default_difficulty) =
+                    Self::parse_m_default_difficulty(tail)?;
+                tail = new_tail;
+                m_default_difficulty = Some(parsed_m_default_difficulty);
+            }
+            if m_default_ai_build.is_none() {
+                let (new_tail, parsed_m_default_ai_build) = Self::parse_m_default_ai_build(tail)?;
+                tail = new_tail;
+                m_default_ai_build = Some(parsed_m_default_ai_build);
+            }
+            Ok((
+                tail,
+                Self {
+                    m_phase: ok_or_return_missing_field_err!(m_phase),
+                    m_max_users: ok_or_return_missing_field_err!(m_max_users),
+                    m_max_observers: ok_or_return_missing_field_err!(m_max_observers),
+                    m_slots: ok_or_return_missing_field_err!(m_slots),
+                    m_random_seed: ok_or_return_missing_field_err!(m_random_seed),
+                    m_host_user_id: ok_or_return_missing_field_err!(m_host_user_id),
+                    m_is_single_player: ok_or_return_missing_field_err!(m_is_single_player),
+                    m_picked_map_tag: ok_or_return_missing_field_err!(m_picked_map_tag),
+                    m_game_duration: ok_or_return_missing_field_err!(m_game_duration),
+                    m_default_difficulty: ok_or_return_missing_field_err!(m_default_difficulty),
+                    m_default_ai_build: ok_or_return_missing_field_err!(m_default_ai_build),
+                },
+            ))
+        }
+    }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameSLobbySyncState {
+        pub m_user_initial_data: CUserInitialDataArray,
+        pub m_game_description: GameSGameDescription,
+        pub m_lobby_state: GameSLobbyState,
+    }
+    impl GameSLobbySyncState {
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_user_initial_data(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), CUserInitialDataArray> {
+            let (tail, m_user_initial_data) = CUserInitialDataArray::parse(input)?;
+            tracing::debug!("m_user_initial_data: {:?}", m_user_initial_data);
+            Ok((tail, m_user_initial_data))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_game_description(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameSGameDescription> {
+            let (tail, m_game_description) = GameSGameDescription::parse(input)?;
+            tracing::debug!("m_game_description: {:?}", m_game_description);
+            Ok((tail, m_game_description))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_lobby_state(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameSLobbyState> {
+            let (tail, m_lobby_state) = GameSLobbyState::parse(input)?;
+            tracing::debug!("m_lobby_state: {:?}", m_lobby_state);
+            Ok((tail, m_lobby_state))
+        }
+        #[tracing::instrument(name="75689::bit_packed::GameSLobbySyncState::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let mut tail = input;
+            let mut m_user_initial_data: Option<CUserInitialDataArray> = None;
+            let mut m_game_description: Option<GameSGameDescription> = None;
+            let mut m_lobby_state: Option<GameSLobbyState> = None;
+            if m_user_initial_data.is_none() {
+                let (new_tail, parsed_m_user_initial_data) = Self::parse_m_user_initial_data(tail)?;
+                tail = new_tail;
+                m_user_initial_data = Some(parsed_m_user_initial_data);
+            }
+            if m_game_description.is_none() {
+                let (new_tail, parsed_m_game_description) = Self::parse_m_game_description(tail)?;
+                tail = new_tail;
+                m_game_description = Some(parsed_m_game_description);
+            }
+            if m_lobby_state.is_none() {
+                let (new_tail, parsed_m_lobby_state) = Self::parse_m_lobby_state(tail)?;
+                tail = new_tail;
+                m_lobby_state = Some(parsed_m_lobby_state);
+            }
+            Ok((
+                tail,
+                Self {
+                    m_user_initial_data: ok_or_return_missing_field_err!(m_user_initial_data),
+                    m_game_description: ok_or_return_missing_field_err!(m_game_description),
+                    m_lobby_state: ok_or_return_missing_field_err!(m_lobby_state),
+                },
+            ))
+        }
+    }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct ReplaySInitData {
+        pub m_sync_lobby_state: GameSLobbySyncState,
+    }
+    impl ReplaySInitData {
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_sync_lobby_state(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameSLobbySyncState> {
+            let (tail, m_sync_lobby_state) = GameSLobbySyncState::parse(input)?;
+            tracing::debug!("m_sync_lobby_state: {:?}", m_sync_lobby_state);
+            Ok((tail, m_sync_lobby_state))
+        }
+        #[tracing::instrument(name="75689::bit_packed::ReplaySInitData::Parse", level = "debug", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let mut tail = input;
+            let mut m_sync_lobby_state: Option<GameSLobbySyncState> = None;
+            if m_sync_lobby_state.is_none() {
+                let (new_tail, parsed_m_sync_lobby_state) = Self::parse_m_sync_lobby_state(tail)?;
+                tail = new_tail;
+                m_sync_lobby_state = Some(parsed_m_sync_lobby_state);
+            }
+            Ok((
+                tail,
+                Self {
+                    m_sync_lobby_state: ok_or_return_missing_field_err!(m_sync_lobby_state),
+                },
+            ))
+        }
+    }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameSSetLobbySlotEvent {
+        pub m_slot_id: GameTLobbySlotId,
+        pub m_slot_change: GameSLobbySlotChange,
+    }
+    impl GameSSetLobbySlotEvent {
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_slot_id(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameTLobbySlotId> {
+            let (tail, m_slot_id) = GameTLobbySlotId::parse(input)?;
+            tracing::debug!("m_slot_id: {:?}", m_slot_id);
+            Ok((tail, m_slot_id))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_slot_change(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameSLobbySlotChange> {
+            let (tail, m_slot_change) = GameSLobbySlotChange::parse(input)?;
+            tracing::debug!("m_slot_change: {:?}", m_slot_change);
+            Ok((tail, m_slot_change))
+        }
+        #[tracing::instrument(name="75689::bit_packed::GameSSetLobbySlotEvent::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let mut tail = input;
+            let mut m_slot_id: Option<GameTLobbySlotId> = None;
+            let mut m_slot_change: Option<GameSLobbySlotChange> = None;
+            if m_slot_id.is_none() {
+                let (new_tail, parsed_m_slot_id) = Self::parse_m_slot_id(tail)?;
+                tail = new_tail;
+                m_slot_id = Some(parsed_m_slot_id);
+            }
+            if m_slot_change.is_none() {
+                let (new_tail, parsed_m_slot_change) = Self::parse_m_slot_change(tail)?;
+                tail = new_tail;
+                m_slot_change = Some(parsed_m_slot_change);
+            }
+            Ok((
+                tail,
+                Self {
+                    m_slot_id: ok_or_return_missing_field_err!(m_slot_id),
+                    m_slot_change: ok_or_return_missing_field_err!(m_slot_change),
+                },
+            ))
+        }
+    }
 }
-- 
2.43.0


From 41e244a47d4ae2babb2d26dabcd21921684ba67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 05/33] fix: emit tracker events before the game events of the
 same loop, as documented

---
 src/state/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 122680e..174bda4 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -692,9 +692,11 @@ impl Iterator for SC2EventIterator {
             let next_game_event_loop = self.get_game_loop();
             let event: SC2EventType = match (next_tracker_event_loop, next_game_event_loop) {
                 (Some(next_tracker_event_loop), Some(next_game_event_loop)) => {
-                    // Both events are populated, compare the loop and return the lowest one
+                    // Both events are populated, compare the loop and return the lowest one, the
+                    // tracker events take priority when both are in the same game loop.
+                    // NOTE: f64 represents every possible game loop exactly, f32 doesn't.
                     if next_tracker_event_loop
-                        < (next_game_event_loop as f32 * TRACKER_SPEED_RATIO) as i64
+                        <= (next_game_event_loop as f64 * f64::from(TRACKER_SPEED_RATIO)) as i64
                     {
                         self.next_tracker_event.take().unwrap()
                     } else {
-- 
2.43.0


From 4f14403be8ca88faca4fdc27ace764ae96eba720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 06/33] fix: apply the min_loop and max_loop filters to game
 events too

---
 src/state/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 174bda4..ad167dd 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -601,16 +601,18 @@ impl SC2EventIteratorItem {
     /// Returns true if the event should be skipped based on the filters
     #[tracing::instrument(level = "debug")]
     fn shoud_skip_event(&self, event: &SC2EventType, filters: &SC2ReplayFilters) -> bool {
+        let event_loop = match event {
+            SC2EventType::Tracker { tracker_loop, .. } => *tracker_loop,
+            SC2EventType::Game { game_loop, .. } => *game_loop,
+        };
         if let Some(min_loop) = filters.min_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop < min_loop
+            && event_loop < min_loop
         {
             tracing::debug!("Skipping event below min_loop {min_loop}");
             return true;
         }
         if let Some(max_loop) = filters.max_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop > max_loop
+            && event_loop > max_loop
         {
             tracing::debug!("Skipping event above max_loop {max_loop}");
             return true;
-- 
2.43.0


From 613942a45a9855c1e5303e806f0279a6d53f734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 07/33] fix: emit max_events events instead of one less

---
 src/state/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index ad167dd..56969d0 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -674,6 +674,11 @@ impl Iterator for SC2EventIterator {
     type Item = SC2EventIteratorItem;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if let Some(ref filters) = self.filters
+            && filters.is_max_event_reached()
+        {
+            return None;
+        }
         loop {
             // Fill the next_tracker_event if they are empty.
             if self.next_tracker_event.is_none() {
@@ -721,9 +726,6 @@ impl Iterator for SC2EventIterator {
                     continue;
                 }
                 filters.decrease_allowed_event_counter();
-                if filters.is_max_event_reached() {
-                    return None;
-                }
             }
             #[cfg(feature = "tracing_info_level")]
             iterator_item.emit_info_log();
-- 
2.43.0


From ff637b1b3e081e3f327218af187ab379c71cede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 08/33] fix: remove dead units from the control groups, these
 contain tags and not tag indexes

---
 src/tracker_events/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 6a67b54..9d88c8f 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -249,7 +249,8 @@ pub fn handle_unit_died(
     // Clean up the unit from previous groups where it was selected.
     for (_idx, state) in sc2_state.user_state.iter_mut() {
         for group_idx in 0..11 {
-            state.control_groups[group_idx].retain(|&x| x != unit_dead.unit_tag_index);
+            state.control_groups[group_idx]
+                .retain(|&x| unit_tag_index(x.into()) != unit_dead.unit_tag_index);
         }
     }
     match sc2_state.units.remove(&unit_dead.unit_tag_index) {
-- 
2.43.0


From ba155e8a1699409e62bc1e1dc34e39cde42431bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 09/33] fix: find the target unit of a command by the index in
 its tag

The units are registered by tag index, the tag itself only matches by accident.
---
 src/game_events/state.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index ff10261..0f7619b 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -63,7 +63,7 @@ pub fn handle_cmd(
     // For now this is not implemented and a unit maybe have a target unit, even tho the active
     // command is Stop.
     let target = if let GameSCmdData::TargetUnit(tu) = &cmd.m_data {
-        sc2_state.units.get(&tu.m_tag).cloned()
+        sc2_state.units.get(&unit_tag_index(tu.m_tag.into())).cloned()
     } else {
         None
     };
@@ -160,25 +160,20 @@ pub fn handle_update_target_unit(
     target_unit: GameSCmdUpdateTargetUnitEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
     // The TargetPoint does not contain the ability id or command index.
-    let registered_target_unit = match sc2_state.units.get(&target_unit.m_target.m_tag) {
+    let registered_target_unit = match sc2_state
+        .units
+        .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
+    {
         Some(x) => x.clone(),
         None => {
-            match sc2_state
-                .units
-                .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
-            {
-                Some(x) => x.clone(),
-                None => {
-                    tracing::warn!(
-                        "Unit not found for target unit: {}",
-                        target_unit.m_target.m_tag
-                    );
-                    return (
-                        ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
-                        UnitChangeHint::None,
-                    );
-                }
-            }
+            tracing::warn!(
+                "Unit not found for target unit: {}",
+                target_unit.m_target.m_tag
+            );
+            return (
+                ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
+                UnitChangeHint::None,
+            );
         }
     };
     let mut user_selected_unit_ids: Vec<u32> = vec![];
-- 
2.43.0


From 1abcc91d668b81d5d1424c4d009f77c933a13193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 10/33] fix: keep the target unit name of a unit command in
 step with its target

---
 src/game_events/state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 0f7619b..df14b0d 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -132,6 +132,7 @@ pub fn handle_update_target_point(
                 .set_data_target_point(target_point.m_target.clone());
             // Unset any previous ability vs a target unit.
             registered_unit.cmd.other_unit = None;
+            registered_unit.cmd.other_unit_name = None;
             registered_unit.last_game_loop = game_loop;
             user_selected_units.push(registered_unit.clone());
         } else {
@@ -187,6 +188,7 @@ pub fn handle_update_target_unit(
             registered_unit
                 .cmd
                 .set_data_target_unit(target_unit.m_target.clone().into());
+            registered_unit.cmd.other_unit_name = Some(registered_target_unit.name.clone());
             registered_unit.last_game_loop = game_loop;
             user_selected_units.push(registered_unit.clone());
         } else {
-- 
2.43.0


From b4b140c52dade89d5ed96c793b5516f642f840fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 11/33] fix: keep the selected units marked when a control
 group is set, appended to or cleared

---
 src/game_events/state.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index df14b0d..422101a 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -321,10 +321,7 @@ pub fn update_control_group(
     user_id: i64,
     ctrl_group_evt: GameSControlGroupUpdateEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
-    let mut updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
-        UnitChangeHint::Selection(units) => units,
-        _ => unreachable!(),
-    };
+    let mut updated_units = vec![];
     match ctrl_group_evt.m_control_group_update {
         GameEControlGroupUpdate::ESet => {
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
@@ -381,6 +378,13 @@ pub fn update_control_group(
             }
         }
         GameEControlGroupUpdate::ERecall => {
+            // Only recalling a group changes which units are selected.
+            let mut unmarked_units =
+                match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
+                    UnitChangeHint::Selection(units) => units,
+                    _ => unreachable!(),
+                };
+            updated_units.append(&mut unmarked_units);
             let mut current_selected_units: Vec<u32> = vec![];
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
                 user_state.control_groups[ACTIVE_UNITS_GROUP_IDX] = user_state.control_groups
-- 
2.43.0


From 91020c0f44ed6078d845b37458ce9bf5215a9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 12/33] fix: steal units from the last control group too

---
 src/game_events/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 422101a..995d291 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -334,7 +334,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
@@ -365,7 +365,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let mut current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
-- 
2.43.0


From bb96947c70e903874c9c2d1421f4c32f2dac3367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 13/33] fix: keep the radius of selected units when their type
 changes

---
 src/state/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 56969d0..5af2c12 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -96,7 +96,12 @@ impl SC2Unit {
     pub fn set_unit_props(&mut self, balance_units: &VersionedBalanceUnits) {
         let (radius, color) =
             get_unit_sized_color(&self.name, self.user_id.unwrap_or(0) as i64, balance_units);
-        self.radius = radius;
+        // The radius of the selected units is twice as big, see mark_selected_units.
+        self.radius = if self.is_selected {
+            radius * 2.0
+        } else {
+            radius
+        };
         self.color = color;
     }
 }
-- 
2.43.0


From 70f42a1a8093692b32c04a68ed7f756c26ed5308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 14/33] fix: report the units that remain selected once and as
 they are after the event

---
 src/game_events/state.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 995d291..f44458b 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -63,7 +63,10 @@ pub fn handle_cmd(
     // For now this is not implemented and a unit maybe have a target unit, even tho the active
     // command is Stop.
     let target = if let GameSCmdData::TargetUnit(tu) = &cmd.m_data {
-        sc2_state.units.get(&unit_tag_index(tu.m_tag.into())).cloned()
+        sc2_state
+            .units
+            .get(&unit_tag_index(tu.m_tag.into()))
+            .cloned()
     } else {
         None
     };
@@ -266,6 +269,17 @@ pub fn mark_selected_units(
     UnitChangeHint::Selection(updated_units)
 }
 
+/// Returns the current state of the units that have been updated, each of them once.
+fn current_units(sc2_state: &SC2ReplayState, mut updated_units: Vec<SC2Unit>) -> Vec<SC2Unit> {
+    updated_units.sort_unstable();
+    updated_units.dedup();
+    updated_units
+        .iter()
+        .filter_map(|unit| sc2_state.units.get(&unit.tag_index))
+        .cloned()
+        .collect()
+}
+
 /// Registers units as being selected.
 /// The previous selected units radius is decreased to its normal state.
 /// The new selected units radius is increased.
@@ -304,11 +318,9 @@ pub fn handle_selection_delta(
         state.control_groups[selection_delta.m_control_group_id as usize] =
             selection_delta.m_delta.m_add_unit_tags.clone();
     }
-    updated_units.sort_unstable();
-    updated_units.dedup();
     (
         ReplayGameEvent::SelectionDelta(selection_delta),
-        UnitChangeHint::Selection(updated_units),
+        UnitChangeHint::Selection(current_units(sc2_state, updated_units)),
     )
 }
 
@@ -402,7 +414,7 @@ pub fn update_control_group(
     }
     (
         ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),
-        UnitChangeHint::Selection(updated_units),
+        UnitChangeHint::Selection(current_units(sc2_state, updated_units)),
     )
 }
 
-- 
2.43.0


From 38084d7f289016dab77285e8d12e063ceedea924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 15/33] fix: do not panic on control groups that do not exist

---
 src/game_events/state.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index f44458b..3429f67 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -296,6 +296,16 @@ pub fn handle_selection_delta(
     selection_delta: GameSSelectionDeltaEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
     let mut updated_units = vec![];
+    if selection_delta.m_control_group_id as usize > ACTIVE_UNITS_GROUP_IDX {
+        tracing::warn!(
+            "Unknown control group id: {}",
+            selection_delta.m_control_group_id
+        );
+        return (
+            ReplayGameEvent::SelectionDelta(selection_delta),
+            UnitChangeHint::None,
+        );
+    }
     if selection_delta.m_control_group_id == ACTIVE_UNITS_GROUP_IDX as u8 {
         let mut unmarked_units =
             match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
@@ -334,6 +344,16 @@ pub fn update_control_group(
     ctrl_group_evt: GameSControlGroupUpdateEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
     let mut updated_units = vec![];
+    if ctrl_group_evt.m_control_group_index as usize > ACTIVE_UNITS_GROUP_IDX {
+        tracing::warn!(
+            "Unknown control group index: {}",
+            ctrl_group_evt.m_control_group_index
+        );
+        return (
+            ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),
+            UnitChangeHint::None,
+        );
+    }
     match ctrl_group_evt.m_control_group_update {
         GameEControlGroupUpdate::ESet => {
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
-- 
2.43.0


From 4c27a886d1700b07daa9f04e21feafe0c909d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 16/33] fix: report the registered unit when it is initialized
 again

---
 src/tracker_events/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 9d88c8f..c063ca1 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -54,12 +54,16 @@ pub fn handle_unit_init(
     #[cfg(feature = "tracing_info_level")]
     tracing::info!("Initializing unit: {:?}", sc2_unit);
 
-    if let Some(ref mut unit) = sc2_state.units.get_mut(&unit_init.unit_tag_index) {
+    if let Some(unit) = sc2_state.units.get_mut(&unit_init.unit_tag_index) {
         // This happens for example when a unit is burrowed.
         unit.last_game_loop = game_loop;
         unit.pos = Vec3D::new(unit_init.x as f32, unit_init.y as f32, 0.);
         unit.is_init = true;
         unit.name.clone_from(&unit_init.unit_type_name);
+        unit.user_id = sc2_unit.user_id;
+        unit.player_name.clone_from(&sc2_unit.player_name);
+        unit.set_unit_props(&sc2_state.balance_units);
+        sc2_unit = unit.clone();
     } else {
         sc2_state
             .units
-- 
2.43.0


From 5beeddc17aa7cf18b83d7d54ebd1e3d044f094c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 17/33] fix: register the name, owner, position and creator
 ability of the units that are born

---
 src/tracker_events/state.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index c063ca1..d8d6734 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -101,6 +101,14 @@ pub fn handle_unit_born(
         // If the unit already exists, we update properties and return it.
         unit.creator_ability_name = unit_born.creator_ability_name.clone();
         unit.last_game_loop = game_loop;
+        unit.name.clone_from(&unit_born.unit_type_name);
+        unit.pos = Vec3D::new(unit_born.x as f32, unit_born.y as f32, 0.);
+        unit.user_id = Some(unit_born.control_player_id);
+        unit.player_name = get_player_name_by_tracker_control_player_id(
+            &sc2_state.user_state,
+            unit_born.control_player_id,
+        );
+        unit.set_unit_props(&sc2_state.balance_units);
         (
             ReplayTrackerEvent::UnitBorn(unit_born),
             UnitChangeHint::Registered {
@@ -116,6 +124,7 @@ pub fn handle_unit_born(
             name: unit_born.unit_type_name.clone(),
             pos: Vec3D::new(unit_born.x as f32, unit_born.y as f32, 0.),
             init_game_loop: game_loop,
+            creator_ability_name: unit_born.creator_ability_name.clone(),
             tag_index: unit_born.unit_tag_index,
             player_name: get_player_name_by_tracker_control_player_id(
                 &sc2_state.user_state,
-- 
2.43.0


From 2e04ecaf55d59dac60431c6028e8ad92142e18e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 18/33] fix: keep track of the owner of a unit when it changes

---
 src/tracker_events/state.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index d8d6734..ed41a1b 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -187,6 +187,35 @@ pub fn handle_unit_type_change(
     }
 }
 
+/// Handles the state management for unit owner change messages
+/// For example, units that are mind controlled.
+#[tracing::instrument(level = "debug", skip(sc2_state))]
+pub fn handle_unit_owner_change(
+    sc2_state: &mut SC2ReplayState,
+    game_loop: i64,
+    owner_change: UnitOwnerChangeEvent,
+) -> (ReplayTrackerEvent, UnitChangeHint) {
+    let mut change_hint = UnitChangeHint::None;
+    if let Some(unit) = sc2_state.units.get_mut(&owner_change.unit_tag_index) {
+        let old_unit_state = unit.clone();
+        unit.user_id = Some(owner_change.control_player_id);
+        unit.player_name = get_player_name_by_tracker_control_player_id(
+            &sc2_state.user_state,
+            owner_change.control_player_id,
+        );
+        unit.last_game_loop = game_loop;
+        unit.set_unit_props(&sc2_state.balance_units);
+        change_hint = UnitChangeHint::Registered {
+            unit: Box::new(unit.clone()),
+            creator: Some(old_unit_state),
+        };
+    }
+    (
+        ReplayTrackerEvent::UnitOwnerChange(owner_change),
+        change_hint,
+    )
+}
+
 /// Handles the state management for unit born messages
 /// These are units with instant creation such as at the start of the game.
 #[tracing::instrument(level = "debug", skip(sc2_state))]
@@ -308,6 +337,9 @@ pub fn handle_tracker_event(
         ReplayTrackerEvent::UnitTypeChange(unit_change) => {
             handle_unit_type_change(sc2_state, tracker_loop, unit_change)
         }
+        ReplayTrackerEvent::UnitOwnerChange(owner_change) => {
+            handle_unit_owner_change(sc2_state, tracker_loop, owner_change)
+        }
         ReplayTrackerEvent::UnitInit(unit_init) => {
             handle_unit_init(sc2_state, tracker_loop, unit_init)
         }
-- 
2.43.0


From 5b2898ed154afa71b73bfae642b056b85e49978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 19/33] fix: use the ability of the unit of the row in the
 command flat rows

---
 .../arrow_store/cmd_event_flat_row.rs         | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/game_events/arrow_store/cmd_event_flat_row.rs b/src/game_events/arrow_store/cmd_event_flat_row.rs
index b13c713..1d6edd4 100644
--- a/src/game_events/arrow_store/cmd_event_flat_row.rs
+++ b/src/game_events/arrow_store/cmd_event_flat_row.rs
@@ -48,19 +48,21 @@ impl CmdTargetPointEventFlatRow {
         };
         let ext_replay_seconds = crate::convert_game_loop_to_seconds(game_loop);
         if let crate::UnitChangeHint::Abilities { units, .. } = change_hint {
-            let ability: String = event
-                .m_abil
-                .as_ref()
-                .map(|abil| abil.ability.clone())
-                .unwrap_or_default();
             for unit in units {
+                // The event has the ability name of only one of the units.
+                let ability: String = unit
+                    .cmd
+                    .abil
+                    .as_ref()
+                    .map(|abil| abil.ability.clone())
+                    .unwrap_or_default();
                 let unit_name = unit.name.clone();
                 res.push(Self {
                     user_id,
                     player_name: player_name.clone(),
                     cmd_flags: event.m_cmd_flags,
                     abil_link: event.m_abil.as_ref().map(|abil| abil.m_abil_link),
-                    ability: ability.clone(),
+                    ability,
                     abil_cmd_index: event.m_abil.as_ref().map(|abil| abil.m_abil_cmd_index),
                     target_point_x: map_coord.x,
                     target_point_y: map_coord.y,
@@ -141,8 +143,10 @@ impl CmdTargetUnitEventFlatRow {
                     cmd_flags: event.m_cmd_flags,
                     abil_link: event.m_abil.as_ref().map(|abil| abil.m_abil_link),
                     abil_cmd_index: event.m_abil.as_ref().map(|abil| abil.m_abil_cmd_index),
-                    ability: event
-                        .m_abil
+                    // The event has the ability name of only one of the units.
+                    ability: unit_hint
+                        .cmd
+                        .abil
                         .as_ref()
                         .map(|abil| abil.ability.clone())
                         .unwrap_or_default(),
-- 
2.43.0


From 184998129ba613ae3424b0df54931f6056a2af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 20/33] fix: do not mark units as selected by users that have
 no state

---
 src/game_events/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 3429f67..ade896b 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -246,10 +246,14 @@ pub fn unmark_previously_selected_units(
 pub fn mark_selected_units(
     sc2_state: &mut SC2ReplayState,
     game_loop: i64,
-    _user_id: i64,
+    user_id: i64,
     selected_units: &[u32],
 ) -> UnitChangeHint {
     let mut updated_unit_ids = vec![];
+    if !sc2_state.user_state.contains_key(&user_id) {
+        // The selection of this user is not tracked, so the units would remain selected forever.
+        return UnitChangeHint::Selection(vec![]);
+    }
     for new_selected_unit in selected_units {
         let unit_index = unit_tag_index(*new_selected_unit as i64);
         if let Some(ref mut unit) = sc2_state.units.get_mut(&unit_index) {
-- 
2.43.0


From 8e9c7f376a5caf0586f20e6eb7b86d53a54bdcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 21/33] fix: do not panic on unit positions that are out of
 range

---
 src/tracker_events/unit_positions.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tracker_events/unit_positions.rs b/src/tracker_events/unit_positions.rs
index b010c75..f69f9fc 100644
--- a/src/tracker_events/unit_positions.rs
+++ b/src/tracker_events/unit_positions.rs
@@ -39,9 +39,10 @@ impl UnitPositionsEvent {
         let mut unit_index = self.first_unit_index as i32;
         let mut res = vec![];
         for relative_unit_pos in self.items.chunks_exact(3) {
-            unit_index += relative_unit_pos[0];
-            let x = relative_unit_pos[1] * 4;
-            let y = relative_unit_pos[2] * 4;
+            // The items come as they are in the file, out of range values must not panic.
+            unit_index = unit_index.wrapping_add(relative_unit_pos[0]);
+            let x = relative_unit_pos[1].saturating_mul(4);
+            let y = relative_unit_pos[2].saturating_mul(4);
             res.push(UnitPosition {
                 tag: unit_index as u32,
                 x,
-- 
2.43.0


From a10ffec5443b1731ef311cbf81e681161261b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 22/33] fix: look the lobby user up by user id, not by slot
 position

---
 src/details.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/details.rs b/src/details.rs
index 595e68f..24494ec 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -201,6 +201,11 @@ impl TryFrom<&InitData> for Vec<PlayerLobbyDetails> {
                     }
                 }
                 let slot_idx = slot_idx?;
+                // The users are listed by their user id, the slots are listed in their own order.
+                let user_init_data = init.sync_lobby_state.lobby_state.slots[slot_idx]
+                    .user_id
+                    .and_then(|user_id| usize::try_from(user_id).ok())
+                    .and_then(|user_id| init.sync_lobby_state.user_initial_data.get(user_id));
                 Some(PlayerLobbyDetails {
                     title: details.title.clone(),
                     game_description: init.sync_lobby_state.game_description.clone(),
@@ -208,15 +213,8 @@ impl TryFrom<&InitData> for Vec<PlayerLobbyDetails> {
                     player_details: player.clone(),
                     time_utc: details.time_utc,
                     time_local_offset: details.time_local_offset,
-                    user_init_data_name: init
-                        .sync_lobby_state
-                        .user_initial_data
-                        .get(slot_idx)
-                        .map_or("".to_string(), |u| u.name.clone()),
-                    user_init_data_clan_tag: init
-                        .sync_lobby_state
-                        .user_initial_data
-                        .get(slot_idx)
+                    user_init_data_name: user_init_data.map_or("".to_string(), |u| u.name.clone()),
+                    user_init_data_clan_tag: user_init_data
                         .map_or("".to_string(), |u| u.clan_tag.clone().unwrap_or_default()),
                     tracker_setup_player_id: None,
                     tracker_setup_slot_id: None,
-- 
2.43.0


From 571b3e2304c0b4bcd9cd0ae1bcf0a4a0660c1e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 23/33] fix: do not panic on cache handles that are too short

---
 src/details.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/details.rs b/src/details.rs
index 24494ec..64b7bb9 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -81,6 +81,11 @@ impl From<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow {
         let mut cache_handle_region = None;
         let mut cache_handle_extension = None;
         for cache_handle in &source.cache_handles {
+            // The extension, the delimiter and the region must be present.
+            if cache_handle.len() < 16 {
+                tracing::warn!("Skipping cache handle that is too short: {cache_handle}");
+                continue;
+            }
             // 8 characters for the extension
             let (ext_str, remaining) = cache_handle.split_at(8);
             let extension = make_string_from_hex_chars(ext_str);
-- 
2.43.0


From 5bc93c77714d6d3b3ea53aeab20b34b4f0e3804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 24/33] fix: order equally frequent players and maps by name,
 not at random

---
 src/dir_stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dir_stats.rs b/src/dir_stats.rs
index 5b67468..257ec89 100644
--- a/src/dir_stats.rs
+++ b/src/dir_stats.rs
@@ -89,10 +89,10 @@ pub fn scan_path(
     }
 
     let mut user_freq_vec: Vec<(String, usize)> = user_freq.into_iter().collect();
-    user_freq_vec.sort_by_key(|b| std::cmp::Reverse(b.1));
+    user_freq_vec.sort_by(|a, b| b.1.cmp(&a.1).then_with(|| a.0.cmp(&b.0)));
     stats.top_10_players = user_freq_vec.into_iter().take(10).collect();
     let mut map_freq_vec: Vec<(String, usize)> = map_freq.into_iter().collect();
-    map_freq_vec.sort_by_key(|b| std::cmp::Reverse(b.1));
+    map_freq_vec.sort_by(|a, b| b.1.cmp(&a.1).then_with(|| a.0.cmp(&b.0)));
     stats.top_10_maps = map_freq_vec.into_iter().take(10).collect();
 
     Ok(stats)
-- 
2.43.0


From a7591e5cdeee2ac95b6e0cc9a60c274184728427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 25/33] fix: return the input that follows the document header
 fields

---
 src/cache_handles/document_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache_handles/document_header.rs b/src/cache_handles/document_header.rs
index 355ce6a..4371124 100644
--- a/src/cache_handles/document_header.rs
+++ b/src/cache_handles/document_header.rs
@@ -176,7 +176,7 @@ impl DocumentHeader {
             new_tail = tail;
         }
 
-        Ok((tail, res))
+        Ok((new_tail, res))
     }
 }
 
-- 
2.43.0


From e15d1bbeb838e6d770267081435121d33cc748fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 26/33] fix: reject map bounds that are negative

---
 src/cache_handles/map_info.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cache_handles/map_info.rs b/src/cache_handles/map_info.rs
index 6983f24..3a3aba3 100644
--- a/src/cache_handles/map_info.rs
+++ b/src/cache_handles/map_info.rs
@@ -135,6 +135,15 @@ impl MapInfo {
             dbg_peek_hex(take(4usize), "read map cell_top, 4 bytes")(tail)?;
         let (_, cell_top) = i32(nom::number::Endianness::Little)(cell_top_bytes)?;
 
+        // The playable area is inside of the map, the origin is at the left bottom.
+        if cell_left < 0 || cell_bottom < 0 {
+            return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
+                "MapInfoOrigin".to_string(),
+                0,
+                "MapInfoCellLeftBottom".to_string(),
+                cell_left.min(cell_bottom),
+            )));
+        }
         if cell_left >= cell_right {
             return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
                 "MapInfoCellLeft".to_string(),
-- 
2.43.0


From f258a8958046b4fd63f17a9e2a0a77c4d4e33f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 27/33] fix: set the version of the balance units that are read

---
 src/game_events/ability/balance_data/json_handler.rs | 6 ++++--
 src/game_events/ability/balance_data/mod.rs          | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/game_events/ability/balance_data/json_handler.rs b/src/game_events/ability/balance_data/json_handler.rs
index 164868f..e0e2948 100644
--- a/src/game_events/ability/balance_data/json_handler.rs
+++ b/src/game_events/ability/balance_data/json_handler.rs
@@ -74,8 +74,9 @@ pub fn read_balance_data_from_json_dir<P: AsRef<Path>>(
             let entry = entry?;
             if entry.file_type()?.is_file() {
                 let file_path = entry.path();
-                let versioned_balance_unit: VersionedBalanceUnit =
+                let mut versioned_balance_unit: VersionedBalanceUnit =
                     serde_json::from_reader(File::open(file_path)?)?;
+                versioned_balance_unit.version = version;
                 let unit_name = entry
                     .file_name()
                     .to_string_lossy()
@@ -114,7 +115,8 @@ pub fn read_balance_data_from_included_assets()
             }
         };
         let unit_name = parts[1].trim_end_matches(".json").to_string();
-        let versioned_balance_unit: VersionedBalanceUnit = serde_json::from_slice(contents)?;
+        let mut versioned_balance_unit: VersionedBalanceUnit = serde_json::from_slice(contents)?;
+        versioned_balance_unit.version = version;
         balance_data.insert((version, unit_name), versioned_balance_unit);
     }
     tracing::info!(
diff --git a/src/game_events/ability/balance_data/mod.rs b/src/game_events/ability/balance_data/mod.rs
index 85de2fb..9f18757 100644
--- a/src/game_events/ability/balance_data/mod.rs
+++ b/src/game_events/ability/balance_data/mod.rs
@@ -60,13 +60,15 @@ pub fn traverse_versioned_balance_abilities(
             {
                 tracing::debug!("Processing XML file: {:?}", path);
                 let files_content = std::fs::read_to_string(&path)?;
-                let unit = match serde_xml_rs::from_str::<VersionedBalanceUnit>(&files_content) {
+                let mut unit = match serde_xml_rs::from_str::<VersionedBalanceUnit>(&files_content)
+                {
                     Ok(val) => val,
                     Err(err) => {
                         tracing::error!("Failed to parse XML file {:?}: {}", path, err);
                         continue;
                     }
                 };
+                unit.version = protocol_version;
                 res.insert((protocol_version, unit.id.clone()), unit);
             }
         }
-- 
2.43.0


From d9cd5cbbd0710347422b5b57cf6c8f0d89ec9fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 28/33] fix: report replays without a valid header as errors,
 not panics

---
 src/protocol_version_decoder.rs |  2 +-
 src/versions/mod.rs             | 31 +++++++++++++++++++++----------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/protocol_version_decoder.rs b/src/protocol_version_decoder.rs
index 468c96c..daf29fc 100644
--- a/src/protocol_version_decoder.rs
+++ b/src/protocol_version_decoder.rs
@@ -53,6 +53,6 @@ pub fn read_protocol_header(mpq: &MPQ) -> S2ProtoResult<&[u8], ReplaySHeader> {
     let user_data = mpq
         .user_data
         .as_ref()
-        .expect("Unable to locate protocol version, missing user data in MPQ");
+        .ok_or_else(|| S2ProtocolError::MissingField("user_data".to_string()))?;
     ReplaySHeader::parse(&user_data.content)
 }
diff --git a/src/versions/mod.rs b/src/versions/mod.rs
index f4a0c0c..60ba957 100644
--- a/src/versions/mod.rs
+++ b/src/versions/mod.rs
@@ -10,7 +10,18 @@ use nom_mpq::MPQ;
 pub mod protocol75689;
 pub mod protocol87702;
 
-/// Attempts to read the tracker events, panics under unknown protocol
+/// The signature all the replays carry in their header.
+fn validate_signature(signature: &[u8]) -> Result<(), S2ProtocolError> {
+    if signature == b"StarCraft II replay\x1b11" {
+        Ok(())
+    } else {
+        Err(S2ProtocolError::ByteAligned(format!(
+            "Unexpected replay signature: {signature:02x?}"
+        )))
+    }
+}
+
+/// Attempts to read the tracker events, fails under an unknown signature
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_tracker_events(
     file_name: &str,
@@ -23,7 +34,7 @@ pub fn read_tracker_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header.m_signature)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::byte_aligned::ReplayTrackerEEventId::read_tracker_events(
             mpq,
@@ -41,7 +52,7 @@ pub fn read_tracker_events(
     }
 }
 
-/// Attempts to read the game events, panics under unknown protocol
+/// Attempts to read the game events, fails under an unknown signature
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_game_events(
     file_name: &str,
@@ -54,7 +65,7 @@ pub fn read_game_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header.m_signature)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::GameEEventId::read_events(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -63,7 +74,7 @@ pub fn read_game_events(
     }
 }
 
-/// Attempts to read the message events, panics under unknown protocol
+/// Attempts to read the message events, fails under an unknown signature
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_message_events(
     file_name: &str,
@@ -76,7 +87,7 @@ pub fn read_message_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header.m_signature)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::GameEMessageId::read_events(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -85,7 +96,7 @@ pub fn read_message_events(
     }
 }
 
-/// Attempts to read the details, panics under unknown protocol
+/// Attempts to read the details, fails under an unknown signature
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_details(
     file_name: &str,
@@ -98,7 +109,7 @@ pub fn read_details(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header.m_signature)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::byte_aligned::GameSDetails::read_details(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -107,7 +118,7 @@ pub fn read_details(
     }
 }
 
-/// Attempts to read the initData, panics if signature doesn't match
+/// Attempts to read the initData, fails under an unknown signature
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_init_data(
     file_name: &str,
@@ -120,7 +131,7 @@ pub fn read_init_data(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header.m_signature)?;
     let res = match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::ReplaySInitData::read_init_data(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
-- 
2.43.0


From ae3ed92fc54b671d63f14ab4282e4f44892f3f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 29/33] fix: read event streams that hold no event

---
 src/versions/protocol75689/mod.rs                | 6 ++----
 src/versions/protocol87702/events/game/mod.rs    | 6 ++----
 src/versions/protocol87702/events/message/mod.rs | 6 ++----
 src/versions/protocol87702/events/tracker/mod.rs | 6 ++----
 4 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index 947e8e6..ce99d87 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -1222,7 +1222,8 @@ pub mod bit_packed {
             let mut res = vec![];
             let mut count = 1usize;
             let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
-            loop {
+            // The archive may hold no event at all.
+            while event_tail.0.input_len() > 0 {
                 tracing::debug!("-----------------------------------------------");
                 tracing::debug!("Event number: {}", count);
                 let (new_event_tail, (delta, user_id, event)) =
@@ -1239,9 +1240,6 @@ pub mod bit_packed {
                         tracing::debug!("Skipping event: {:?}", err);
                     }
                 };
-                if event_tail.0.input_len() == 0 {
-                    break;
-                }
             }
             Ok(res)
         }
diff --git a/src/versions/protocol87702/events/game/mod.rs b/src/versions/protocol87702/events/game/mod.rs
index 3365b67..f87fa24 100644
--- a/src/versions/protocol87702/events/game/mod.rs
+++ b/src/versions/protocol87702/events/game/mod.rs
@@ -42,7 +42,8 @@ impl GameEEventId {
         let mut res = vec![];
         let mut count = 1usize;
         let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
-        loop {
+        // The archive may hold no event at all.
+        while event_tail.0.input_len() > 0 {
             tracing::debug!("-----------------------------------------------");
             tracing::debug!("Event number: {}", count);
             let (new_event_tail, (delta, user_id, event)) = Self::parse_event_triplet(event_tail)?;
@@ -58,9 +59,6 @@ impl GameEEventId {
                     tracing::debug!("Skipping event: {:?}", err);
                 }
             };
-            if event_tail.0.input_len() == 0 {
-                break;
-            }
         }
         Ok(res)
     }
diff --git a/src/versions/protocol87702/events/message/mod.rs b/src/versions/protocol87702/events/message/mod.rs
index 5f2ca75..aa07b3c 100644
--- a/src/versions/protocol87702/events/message/mod.rs
+++ b/src/versions/protocol87702/events/message/mod.rs
@@ -36,7 +36,8 @@ impl GameEMessageId {
         let mut res = vec![];
         let mut count = 1usize;
         let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
-        loop {
+        // The archive may hold no event at all.
+        while event_tail.0.input_len() > 0 {
             tracing::debug!("-----------------------------------------------");
             tracing::debug!("Event number: {}", count);
             let (new_event_tail, (delta, user_id, event)) = Self::parse_event_triplet(event_tail)?;
@@ -52,9 +53,6 @@ impl GameEMessageId {
                     tracing::debug!("Skipping event: {:?}", err);
                 }
             };
-            if event_tail.0.input_len() == 0 {
-                break;
-            }
         }
         Ok(res)
     }
diff --git a/src/versions/protocol87702/events/tracker/mod.rs b/src/versions/protocol87702/events/tracker/mod.rs
index 28b61d1..6a360dd 100644
--- a/src/versions/protocol87702/events/tracker/mod.rs
+++ b/src/versions/protocol87702/events/tracker/mod.rs
@@ -33,7 +33,8 @@ impl ReplayTrackerEEventId {
             mpq.read_mpq_file_sector("replay.tracker.events", false, file_contents)?;
         let mut res = vec![];
         let mut event_tail: &[u8] = &tracker_events;
-        loop {
+        // The archive may hold no event at all.
+        while event_tail.input_len() > 0 {
             let (new_event_tail, (delta, event)) = Self::parse_event_pair(event_tail)?;
             event_tail = new_event_tail;
             match event.try_into() {
@@ -42,9 +43,6 @@ impl ReplayTrackerEEventId {
                     tracing::debug!("Skipping event: {:?}", err);
                 }
             };
-            if event_tail.input_len() == 0 {
-                break;
-            }
         }
         Ok(res)
     }
-- 
2.43.0


From 82d70f77c208a758501b06f7836ead24f344e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 30/33] fix: skip replays whose file name is not unicode
 instead of panicking

---
 src/dir_stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dir_stats.rs b/src/dir_stats.rs
index 257ec89..65c1fc6 100644
--- a/src/dir_stats.rs
+++ b/src/dir_stats.rs
@@ -107,7 +107,7 @@ pub fn try_read_init_data(
     let (_, mpq) = parser::parse(&file_contents)?;
     let source_path: String = source
         .to_str()
-        .expect("Failed to convert file name to str")
+        .ok_or("Failed to convert file name to str")?
         .to_string();
     // NOTE: A fake "ext_fs_id" is created because the current impl is thought
     // of mainly for writing arrow ipc files... Maybe this is not a good idea.
-- 
2.43.0


From 89d513bacd832a4719738e85721c50b3317c9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 31/33] fix: a replay with a date outside of the years 1677 to
 2262 no longer aborts the details file

---
 src/details.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/details.rs b/src/details.rs
index 64b7bb9..a2eb6ec 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -137,7 +137,11 @@ impl From<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow {
             ext_fs_id: source.ext_fs_id,
             ext_fs_sha256: source.ext_fs_sha256,
             ext_fs_file_name: source.ext_fs_file_name,
-            ext_datetime: source.ext_datetime,
+            // Arrow keeps nanoseconds since 1970, which end in the years 1677 and 2262.
+            ext_datetime: match source.ext_datetime.and_utc().timestamp_nanos_opt() {
+                Some(_) => source.ext_datetime,
+                None => Default::default(),
+            },
         }
     }
 }
-- 
2.43.0


From 42da4c0d2bc6c65f35147535ceaef25bab5d6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 32/33] fix: a balance unit whose name ends in .json keeps its
 name when it is read

---
 .../ability/balance_data/json_handler.rs           | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/game_events/ability/balance_data/json_handler.rs b/src/game_events/ability/balance_data/json_handler.rs
index e0e2948..a74879d 100644
--- a/src/game_events/ability/balance_data/json_handler.rs
+++ b/src/game_events/ability/balance_data/json_handler.rs
@@ -77,10 +77,11 @@ pub fn read_balance_data_from_json_dir<P: AsRef<Path>>(
                 let mut versioned_balance_unit: VersionedBalanceUnit =
                     serde_json::from_reader(File::open(file_path)?)?;
                 versioned_balance_unit.version = version;
-                let unit_name = entry
-                    .file_name()
-                    .to_string_lossy()
-                    .trim_end_matches(".json")
+                let file_name = entry.file_name().to_string_lossy().to_string();
+                // Only the extension goes, the name of the unit may end in ".json" as well.
+                let unit_name = file_name
+                    .strip_suffix(".json")
+                    .unwrap_or(&file_name)
                     .to_string();
                 balance_data.insert((version, unit_name), versioned_balance_unit);
             }
@@ -114,7 +115,10 @@ pub fn read_balance_data_from_included_assets()
                 continue;
             }
         };
-        let unit_name = parts[1].trim_end_matches(".json").to_string();
+        let unit_name = parts[1]
+            .strip_suffix(".json")
+            .unwrap_or(parts[1])
+            .to_string();
         let mut versioned_balance_unit: VersionedBalanceUnit = serde_json::from_slice(contents)?;
         versioned_balance_unit.version = version;
         balance_data.insert((version, unit_name), versioned_balance_unit);
-- 
2.43.0


From f02304bfdedec5a0691e2d7e6ccb1838aaa287c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:20 +0000
Subject: [PATCH 33/33] fix: the name of a player that several users share does
 not depend on the order of a hash map

---
 src/tracker_events/state.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index ed41a1b..fce0182 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -13,15 +13,13 @@ pub fn get_player_name_by_tracker_control_player_id(
     user_state: &HashMap<i64, SC2UserState>,
     tracker_control_player_id: u8,
 ) -> Option<String> {
-    for user_state in user_state.values() {
-        if let Some(tracker_setup_player_id) =
-            user_state.player_lobby_details.tracker_setup_player_id
-            && tracker_setup_player_id == tracker_control_player_id
-        {
-            return Some(user_state.player_lobby_details.player_details.name.clone());
-        }
-    }
-    None
+    user_state
+        .iter()
+        .filter(|(_, user)| {
+            user.player_lobby_details.tracker_setup_player_id == Some(tracker_control_player_id)
+        })
+        .min_by_key(|(user_id, _)| **user_id)
+        .map(|(_, user)| user.player_lobby_details.player_details.name.clone())
 }
 
 /// Handles the state management for unit init messages
-- 
2.43.0

