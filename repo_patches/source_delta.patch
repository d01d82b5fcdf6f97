From 18cbce5ff380504123ac3b01fc333f2fec6658a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:55 +0000
Subject: [PATCH] fix: count the governance program id in
 GovernanceMessage::written_size

---
 .../programs/wormhole-governance/src/instructions/governance.rs  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solana/programs/wormhole-governance/src/instructions/governance.rs b/solana/programs/wormhole-governance/src/instructions/governance.rs
index 1c92eb2..2b98ee0 100644
--- a/solana/programs/wormhole-governance/src/instructions/governance.rs
+++ b/solana/programs/wormhole-governance/src/instructions/governance.rs
@@ -229,6 +229,7 @@ impl Writeable for GovernanceMessage {
         Self::MODULE.len()
         + GovernanceAction::SIZE.unwrap() // action
         + u16::SIZE.unwrap() // chain
+        + <[u8; 32]>::SIZE.unwrap() // governance_program_id
         + <[u8; 32]>::SIZE.unwrap() // program_id
         + u16::SIZE.unwrap() // accounts_len
         + self.accounts.iter()  // accounts
-- 
2.43.0

