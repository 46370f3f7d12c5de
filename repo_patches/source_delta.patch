From 4212aef2f556d89a5a8eb44c23c641479ff2e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 1/6] fix: refused MerkleBlock concealment must not conceal
 anything

conceal_except (and conceal_other) used to conceal all the other messages
and to drop entropy before finding out that a requested protocol is not
known and returning LeafNotKnown, thus losing the information.
---
 commit_verify/src/mpc/block.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index a7125ec..da9bfaa 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -319,7 +319,15 @@ impl MerkleBlock {
         let protocols = protocols.as_ref();
 
         let mut count = 0usize;
+
+        // Nothing must be concealed if the request is refused
         let mut not_found = protocols.iter().copied().collect::<BTreeSet<_>>();
+        for protocol_id in self.known_protocol_ids() {
+            not_found.remove(&protocol_id);
+        }
+        if let Some(protocol_id) = not_found.into_iter().next() {
+            return Err(LeafNotKnown(protocol_id));
+        }
 
         self.entropy = None;
 
@@ -330,7 +338,7 @@ impl MerkleBlock {
                     // Do nothing
                 }
                 TreeNode::CommitmentLeaf { protocol_id: p, .. } if protocols.contains(p) => {
-                    not_found.remove(p);
+                    // Do nothing
                 }
                 TreeNode::CommitmentLeaf { .. } => {
                     count += 1;
@@ -342,10 +350,6 @@ impl MerkleBlock {
             }
         }
 
-        if let Some(protocol_id) = not_found.into_iter().next() {
-            return Err(LeafNotKnown(protocol_id));
-        }
-
         loop {
             debug_assert!(!self.cross_section.is_empty());
             let prev_count = count;
-- 
2.43.0


From e36d7b7a1d68b5fd7fd31619e3e67884045008a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 2/6] fix: refuse inconsistent MerkleBlock data during decoding

A block received from a third party, which cross-section does not cover the
tree exactly once, has nodes deeper than the tree or a message in a position
other than the one prescribed for its protocol, was accepted. It panicked on
any further use, or proved several messages for the same protocol. The
claimed number of nodes was used for memory allocation, such that a message
of a few bytes was able to abort the process.
---
 commit_verify/src/mpc/block.rs | 135 ++++++++++++++++++++++++++++++++-
 1 file changed, 132 insertions(+), 3 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index da9bfaa..c84caa7 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -26,7 +26,10 @@ use std::collections::{BTreeMap, BTreeSet};
 
 use amplify::confinement::{Confined, NonEmptyVec, U32 as U32MAX};
 use amplify::num::u5;
-use strict_encoding::{StrictDeserialize, StrictDumb, StrictEncode, StrictSerialize};
+use strict_encoding::{
+    DecodeError, ReadStruct, StrictDecode, StrictDeserialize, StrictDumb, StrictEncode,
+    StrictSerialize, StrictType, TypedRead,
+};
 
 use crate::id::CommitId;
 use crate::merkle::{MerkleBuoy, MerkleHash};
@@ -95,6 +98,24 @@ enum TreeNode {
     },
 }
 
+/// Errors in the cross-section of a [`MerkleBlock`] received from a third
+/// party.
+#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug, Display, Error)]
+#[display(doc_comments)]
+pub enum InvalidCrossSection {
+    /// cross-section of the LNPBP-4 merkle block does not cover each of the
+    /// tree leaves exactly once.
+    BrokenCoverage,
+
+    /// protocol id {protocol_id} in the LNPBP-4 merkle block is at the position
+    /// {actual}, which doesn't match the expected position {expected}.
+    MisplacedLeaf {
+        protocol_id: ProtocolId,
+        expected: u32,
+        actual: u32,
+    },
+}
+
 impl TreeNode {
     fn with(hash1: MerkleHash, hash2: MerkleHash, depth: u5, width: u32) -> TreeNode {
         TreeNode::ConcealedNode {
@@ -151,11 +172,15 @@ impl Conceal for MerkleConcealed {
 
 /// Partially-concealed merkle tree data.
 #[derive(Getters, Clone, PartialEq, Eq, Hash, Debug)]
-#[derive(StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictType, StrictEncode)]
 #[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
 #[derive(CommitEncode)]
 #[commit_encode(crate = crate, strategy = conceal, id = Commitment)]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(Serialize, Deserialize),
+    serde(try_from = "unchecked::MerkleBlock")
+)]
 pub struct MerkleBlock {
     /// Method used to construct MPC proof (hash function, merklization).
     #[getter(as_copy)]
@@ -192,6 +217,80 @@ impl StrictDumb for MerkleBlock {
     }
 }
 
+/// Cross-section with a yet unchecked content.
+///
+/// Used to decode the nodes one by one, since the claimed number of nodes can't
+/// be trusted and must not be used for a memory allocation.
+struct UncheckedCrossSection(Vec<TreeNode>);
+
+impl StrictType for UncheckedCrossSection {
+    const STRICT_LIB_NAME: &'static str = LIB_NAME_COMMIT_VERIFY;
+}
+
+impl StrictDecode for UncheckedCrossSection {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let len = u32::strict_decode(reader)?;
+        let mut nodes = Vec::new();
+        for _ in 0..len {
+            nodes.push(TreeNode::strict_decode(reader)?);
+        }
+        Ok(Self(nodes))
+    }
+}
+
+impl StrictDecode for MerkleBlock {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let block = reader.read_struct(|reader| {
+            let method = reader.read_field(fname!("method"))?;
+            let depth = reader.read_field(fname!("depth"))?;
+            let cofactor = reader.read_field(fname!("cofactor"))?;
+            let UncheckedCrossSection(nodes) = reader.read_field(fname!("crossSection"))?;
+            let entropy = reader.read_field(fname!("entropy"))?;
+            Ok(MerkleBlock {
+                method,
+                depth,
+                cofactor,
+                cross_section: NonEmptyVec::try_from(nodes)?,
+                entropy,
+            })
+        })?;
+        block
+            .check_cross_section()
+            .map_err(|err| DecodeError::DataIntegrityError(err.to_string()))?;
+        Ok(block)
+    }
+}
+
+#[cfg(feature = "serde")]
+mod unchecked {
+    use super::*;
+
+    #[derive(Deserialize)]
+    pub struct MerkleBlock {
+        method: Method,
+        depth: u5,
+        cofactor: u16,
+        cross_section: NonEmptyVec<TreeNode, U32MAX>,
+        entropy: Option<u64>,
+    }
+
+    impl TryFrom<MerkleBlock> for super::MerkleBlock {
+        type Error = InvalidCrossSection;
+
+        fn try_from(block: MerkleBlock) -> Result<Self, Self::Error> {
+            let block = super::MerkleBlock {
+                method: block.method,
+                depth: block.depth,
+                cofactor: block.cofactor,
+                cross_section: block.cross_section,
+                entropy: block.entropy,
+            };
+            block.check_cross_section()?;
+            Ok(block)
+        }
+    }
+}
+
 impl StrictSerialize for MerkleBlock {}
 impl StrictDeserialize for MerkleBlock {}
 
@@ -287,6 +386,36 @@ impl MerkleBlock {
         })
     }
 
+    /// Ensures that the nodes of the cross-section cover the tree completely and
+    /// without overlaps and that each known message resides in the position
+    /// prescribed for its protocol.
+    fn check_cross_section(&self) -> Result<(), InvalidCrossSection> {
+        let width = self.width_limit();
+        let mut offset = 0u32;
+        for node in &self.cross_section {
+            // This is zero for nodes which are claimed to be deeper than the tree
+            let span = width >> node.depth_or(self.depth).to_u8();
+            if span == 0 || offset % span != 0 || span > width - offset {
+                return Err(InvalidCrossSection::BrokenCoverage);
+            }
+            if let TreeNode::CommitmentLeaf { protocol_id, .. } = node {
+                let expected = self.protocol_id_pos(*protocol_id);
+                if expected != offset {
+                    return Err(InvalidCrossSection::MisplacedLeaf {
+                        protocol_id: *protocol_id,
+                        expected,
+                        actual: offset,
+                    });
+                }
+            }
+            offset += span;
+        }
+        if offset != width {
+            return Err(InvalidCrossSection::BrokenCoverage);
+        }
+        Ok(())
+    }
+
     /// Conceals all commitments in the block except for the commitment under
     /// given `protocol_id`. Also removes information about the entropy value
     /// used.
-- 
2.43.0


From 9788e2b13de33099d48fe646a4044498f75d3e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 3/6] fix: refuse MerkleProof with a path longer than the
 maximal tree depth

The type of the path allows 32 elements, which is more than the depth can
represent, such that a proof received from a third party panicked on any use.
---
 commit_verify/src/mpc/block.rs | 62 ++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index c84caa7..4d06d13 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -116,6 +116,12 @@ pub enum InvalidCrossSection {
     },
 }
 
+/// merkle path of an LNPBP-4 proof has length {0}, which exceeds the maximal
+/// depth of the tree.
+#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug, Display, Error)]
+#[display(doc_comments)]
+pub struct InvalidPath(usize);
+
 impl TreeNode {
     fn with(hash1: MerkleHash, hash2: MerkleHash, depth: u5, width: u32) -> TreeNode {
         TreeNode::ConcealedNode {
@@ -289,6 +295,29 @@ mod unchecked {
             Ok(block)
         }
     }
+
+    #[derive(Deserialize)]
+    pub struct MerkleProof {
+        method: Method,
+        pos: u32,
+        cofactor: u16,
+        path: Confined<Vec<MerkleHash>, 0, 32>,
+    }
+
+    impl TryFrom<MerkleProof> for super::MerkleProof {
+        type Error = InvalidPath;
+
+        fn try_from(proof: MerkleProof) -> Result<Self, Self::Error> {
+            let proof = super::MerkleProof {
+                method: proof.method,
+                pos: proof.pos,
+                cofactor: proof.cofactor,
+                path: proof.path,
+            };
+            proof.check_path()?;
+            Ok(proof)
+        }
+    }
 }
 
 impl StrictSerialize for MerkleBlock {}
@@ -798,9 +827,13 @@ impl Conceal for MerkleBlock {
 
 /// A proof of the merkle commitment.
 #[derive(Getters, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
-#[derive(StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictType, StrictEncode)]
 #[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(Serialize, Deserialize),
+    serde(try_from = "unchecked::MerkleProof")
+)]
 pub struct MerkleProof {
     /// Method used to construct MPC proof (hash function, merklization).
     #[getter(as_copy)]
@@ -822,6 +855,23 @@ pub struct MerkleProof {
     path: Confined<Vec<MerkleHash>, 0, 32>,
 }
 
+impl StrictDecode for MerkleProof {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let proof = reader.read_struct(|reader| {
+            Ok(MerkleProof {
+                method: reader.read_field(fname!("method"))?,
+                pos: reader.read_field(fname!("pos"))?,
+                cofactor: reader.read_field(fname!("cofactor"))?,
+                path: reader.read_field(fname!("path"))?,
+            })
+        })?;
+        proof
+            .check_path()
+            .map_err(|err| DecodeError::DataIntegrityError(err.to_string()))?;
+        Ok(proof)
+    }
+}
+
 impl Proof for MerkleProof {
     fn matches(&self, other: &Self) -> bool {
         self.cofactor == other.cofactor && self.merkle_root() == other.merkle_root()
@@ -829,6 +879,14 @@ impl Proof for MerkleProof {
 }
 
 impl MerkleProof {
+    /// Ensures that the path doesn't exceed the maximal depth of the tree.
+    fn check_path(&self) -> Result<(), InvalidPath> {
+        match self.path.len() {
+            len if len > u5::MAX.to_u8() as usize => Err(InvalidPath(len)),
+            _ => Ok(()),
+        }
+    }
+
     /// Computes the depth of the merkle tree.
     pub fn depth(&self) -> u5 { u5::with(self.path.len() as u8) }
 
-- 
2.43.0


From 121218bfe83718fc5ffe0bfc7ea73acbfcf24d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 4/6] fix: do not underflow factored width for a cofactor above
 tree width

The cofactor is provided by third parties and is not limited by the width;
positions of the protocols are computed with saturation as well.
---
 commit_verify/src/mpc/block.rs | 8 ++++++--
 commit_verify/src/mpc/tree.rs  | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index 4d06d13..f75d591 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -761,7 +761,9 @@ Changed commitment id: {}",
 
     /// Computes the factored width of the merkle tree according to the formula
     /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit().saturating_sub(self.cofactor as u32)
+    }
 
     pub fn known_protocol_ids(&self) -> impl Iterator<Item = ProtocolId> + '_ {
         self.cross_section.iter().filter_map(|item| match item {
@@ -895,7 +897,9 @@ impl MerkleProof {
 
     /// Computes the factored width of the merkle tree according to the formula
     /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit().saturating_sub(self.cofactor as u32)
+    }
 
     /// Converts the proof into inner merkle path representation
     pub fn into_path(self) -> Confined<Vec<MerkleHash>, 0, 32> { self.path }
diff --git a/commit_verify/src/mpc/tree.rs b/commit_verify/src/mpc/tree.rs
index f1999fc..628a832 100644
--- a/commit_verify/src/mpc/tree.rs
+++ b/commit_verify/src/mpc/tree.rs
@@ -199,7 +199,9 @@ impl MerkleTree {
 
     /// Computes the factored width of the merkle tree, equal to `2 ^ depth -
     /// cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit().saturating_sub(self.cofactor as u32)
+    }
 
     pub fn depth(&self) -> u5 { self.depth }
 
-- 
2.43.0


From bdb4e59d5759ccb9c4f482d82252f8533ee04d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 5/6] fix: refuse MerkleTree data with misplaced messages
 during decoding

Positions of the messages in a decoded tree were not checked against the
messages and the protocols, so that a tree received from a third party was
able to have several messages under the same protocol.
---
 commit_verify/src/mpc/tree.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/commit_verify/src/mpc/tree.rs b/commit_verify/src/mpc/tree.rs
index 628a832..a547ed9 100644
--- a/commit_verify/src/mpc/tree.rs
+++ b/commit_verify/src/mpc/tree.rs
@@ -22,6 +22,7 @@
 use amplify::confinement::{LargeVec, MediumOrdMap};
 use amplify::num::{u256, u5};
 use amplify::Wrapper;
+use strict_encoding::{DecodeError, ReadStruct, StrictDecode, TypedRead};
 
 pub use self::commit::Error;
 use crate::merkle::MerkleHash;
@@ -40,7 +41,7 @@ type OrderedMap = MediumOrdMap<u32, (ProtocolId, Message)>;
 
 /// Complete information about LNPBP-4 merkle tree.
 #[derive(Clone, PartialEq, Eq, Hash, Debug)]
-#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictDumb, StrictType, StrictEncode)]
 #[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
 #[derive(CommitEncode)]
 #[commit_encode(crate = crate, strategy = conceal, id = Commitment)]
@@ -64,6 +65,34 @@ pub struct MerkleTree {
     pub(super) map: OrderedMap,
 }
 
+impl StrictDecode for MerkleTree {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let tree = reader.read_struct(|reader| {
+            Ok(MerkleTree {
+                method: reader.read_field(fname!("method"))?,
+                depth: reader.read_field(fname!("depth"))?,
+                entropy: reader.read_field(fname!("entropy"))?,
+                cofactor: reader.read_field(fname!("cofactor"))?,
+                messages: reader.read_field(fname!("messages"))?,
+                map: reader.read_field(fname!("map"))?,
+            })
+        })?;
+        // Each of the messages, and nothing else, must reside in the position
+        // prescribed for its protocol
+        if tree.map.len() != tree.messages.len() ||
+            !tree.map.iter().all(|(pos, (protocol_id, message))| {
+                tree.messages.get(protocol_id) == Some(message) &&
+                    tree.protocol_id_pos(*protocol_id) == *pos
+            })
+        {
+            return Err(DecodeError::DataIntegrityError(s!(
+                "positions of the messages in LNPBP-4 merkle tree are invalid"
+            )));
+        }
+        Ok(tree)
+    }
+}
+
 impl Proof for MerkleTree {
     fn matches(&self, other: &Self) -> bool { self.commit_id() == other.commit_id() }
 }
-- 
2.43.0


From a4b612578507a3fcf0578c713376f5ac4c76b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:38 +0000
Subject: [PATCH 6/6] fix: refuse tree depth out of range in data deserialized
 with serde

---
 commit_verify/src/mpc/block.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index f75d591..72cb750 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -85,6 +85,7 @@ enum TreeNode {
     /// A node of the tree with concealed leaf or tree branch information.
     ConcealedNode {
         /// Depth of the node.
+        #[cfg_attr(feature = "serde", serde(deserialize_with = "unchecked::depth"))]
         depth: u5,
         /// Node hash.
         hash: MerkleHash,
@@ -160,6 +161,7 @@ impl TreeNode {
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(rename_all = "camelCase"))]
 pub struct MerkleConcealed {
     /// Tree depth (up to 16).
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "unchecked::depth"))]
     depth: u5,
 
     /// Cofactor is used as an additive to the modulo divisor to improve packing
@@ -269,11 +271,21 @@ impl StrictDecode for MerkleBlock {
 
 #[cfg(feature = "serde")]
 mod unchecked {
+    use serde::de::Error;
+    use serde::{Deserialize, Deserializer};
+
     use super::*;
 
+    /// Deserialization of [`u5`] doesn't check the range of the value.
+    pub fn depth<'de, D: Deserializer<'de>>(deserializer: D) -> Result<u5, D::Error> {
+        let depth = u8::deserialize(deserializer)?;
+        u5::try_from(depth).map_err(|_| D::Error::custom("tree depth exceeds 31"))
+    }
+
     #[derive(Deserialize)]
     pub struct MerkleBlock {
         method: Method,
+        #[serde(deserialize_with = "depth")]
         depth: u5,
         cofactor: u16,
         cross_section: NonEmptyVec<TreeNode, U32MAX>,
-- 
2.43.0

