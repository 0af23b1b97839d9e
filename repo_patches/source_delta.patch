From 753daf8e726ddd53929f2cba5dae86a801c53b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 01/18] fix: return errors instead of panicking on misplaced or
 incomplete hierarchy lines

---
 src/errors.rs |  9 +++++++++
 src/parse.rs  | 20 ++++++++++++--------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 1359c52..89e0655 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -101,6 +101,11 @@ pub enum LoadJointsError {
         /// Line number in the source bvh where the error occurred.
         line: usize,
     },
+    /// A keyword or a brace was encountered in the wrong location.
+    UnexpectedKeyword {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
     /// A `CHANNELS` section was encountered in the wrong location.
     UnexpectedChannelsSection {
         /// Line number in the source bvh where the error occurred.
@@ -150,6 +155,7 @@ impl LoadJointsError {
     pub fn line(&self) -> Option<usize> {
         match *self {
             LoadJointsError::MissingJointName { line }
+            | LoadJointsError::UnexpectedKeyword { line }
             | LoadJointsError::UnexpectedChannelsSection { line }
             | LoadJointsError::ParseNumChannelsError { line, .. }
             | LoadJointsError::ParseChannelError { line, .. }
@@ -177,6 +183,9 @@ impl fmt::Display for LoadJointsError {
             LoadJointsError::MissingJointName { line } => {
                 write!(f, "{}: the name is missing from the joints section", line)
             }
+            LoadJointsError::UnexpectedKeyword { line } => {
+                write!(f, "{}: unexpectedly encountered a keyword or brace", line)
+            }
             LoadJointsError::UnexpectedChannelsSection { line } => write!(
                 f,
                 "{}: unexpectedly encountered a \"CHANNELS\" section",
diff --git a/src/parse.rs b/src/parse.rs
index 48d7f0e..1568f5a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -227,7 +227,6 @@ Ok((data, (frame_time, num_frames, motion_data)))
 */
 
 impl Bvh {
-    // @TODO: Remove panics
     /// Logic for parsing the data from a `BufRead`.
     pub(crate) fn read_joints(
         &mut self,
@@ -298,7 +297,7 @@ impl Bvh {
             match first_token.as_bytes() {
                 HEIRARCHY_KEYWORD => {
                     if curr_mode != ParseMode::NotStarted {
-                        panic!("Unexpected hierarchy");
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
                     curr_mode = ParseMode::InHeirarchy;
                     next_expected_line = NextExpectedLine::RootName;
@@ -307,20 +306,25 @@ impl Bvh {
                     if curr_mode != ParseMode::InHeirarchy
                         || next_expected_line != NextExpectedLine::RootName
                     {
-                        panic!("Unexpected root: {:?}", curr_mode);
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
 
                     if let Some(name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing root name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
                 }
                 OPEN_BRACE => {
                     curr_depth += 1;
                 }
                 CLOSE_BRACE => {
-                    curr_depth -= 1;
+                    curr_depth = match curr_depth.checked_sub(1) {
+                        Some(depth) => depth,
+                        None => {
+                            return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
+                        }
+                    };
                     if curr_depth == 0 {
                         // We have closed the brace of the root joint.
                         curr_mode = ParseMode::Finished;
@@ -347,12 +351,12 @@ impl Bvh {
                     if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
                         in_end_site = true;
                     } else {
-                        panic!("Unexpected end keyword");
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
                 }
                 JOINT_KEYWORD => {
                     if curr_mode != ParseMode::InHeirarchy {
-                        panic!("Unexpected Joint");
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
 
                     if !pushed_end_site_joint {
@@ -376,7 +380,7 @@ impl Bvh {
                     if let Some(mut name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing joint name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
                 }
                 OFFSET_KEYWORD => {
-- 
2.43.0


From 2a8579d0451616398a0c969ec13e2c9905457f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 02/18] fix: build the joint tree from the braces of the file

Joints without an end site were dropped or attached to the wrong parent,
a second end site added a joint that is not in the file, and a second
CHANNELS section left motion indices without a channel.
---
 src/parse.rs | 134 +++++++++++++++++++++++++++------------------------
 1 file changed, 72 insertions(+), 62 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1568f5a..db0c4b4 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -263,25 +263,14 @@ impl Bvh {
             RootName,
         }
 
-        let mut joints = vec![];
+        let mut joints: Vec<JointData> = vec![];
         let mut curr_mode = ParseMode::NotStarted;
         let mut curr_channel = 0usize;
-        let (mut curr_index, mut curr_depth) = (0usize, 0usize);
         let mut next_expected_line = NextExpectedLine::Hierarchy;
 
-        let mut curr_joint = JointData::empty_root();
+        // The indices of the joints whose braces are currently open.
+        let mut open_joints: Vec<usize> = vec![];
         let mut in_end_site = false;
-        let mut pushed_end_site_joint = false;
-
-        #[inline]
-        fn get_parent_index(joints: &[JointData], for_depth: usize) -> usize {
-            joints
-                .iter()
-                .rev()
-                .find(|jd| jd.depth() == for_depth.saturating_sub(2))
-                .and_then(|jd| jd.private_data().map(|p| p.self_index))
-                .unwrap_or(0)
-        }
 
         for (line_num, line) in lines {
             let line = line?;
@@ -310,83 +299,90 @@ impl Bvh {
                     }
 
                     if let Some(name) = tokens.next() {
-                        curr_joint.set_name(name);
+                        let mut root = JointData::empty_root();
+                        root.set_name(name);
+                        joints.push(root);
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OPEN_BRACE => {
-                    curr_depth += 1;
+                    if next_expected_line != NextExpectedLine::OpeningBrace {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
+                    }
+                    if !in_end_site {
+                        open_joints.push(joints.len() - 1);
+                    }
+                    next_expected_line = NextExpectedLine::ClosingBrace;
                 }
                 CLOSE_BRACE => {
-                    curr_depth = match curr_depth.checked_sub(1) {
-                        Some(depth) => depth,
-                        None => {
-                            return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
-                        }
-                    };
-                    if curr_depth == 0 {
-                        // We have closed the brace of the root joint.
-                        curr_mode = ParseMode::Finished;
+                    if next_expected_line != NextExpectedLine::ClosingBrace {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
-
                     if in_end_site {
-                        if let JointData::Child {
-                            ref mut private, ..
-                        } = curr_joint
-                        {
-                            private.self_index = curr_index;
-                            private.parent_index = get_parent_index(&joints, curr_depth);
-                            private.depth = curr_depth - 1;
-                        }
-
-                        let new_joint = mem::replace(&mut curr_joint, JointData::empty_child());
-                        joints.push(new_joint);
-                        curr_index += 1;
                         in_end_site = false;
-                        pushed_end_site_joint = true;
+                    } else {
+                        open_joints.pop();
+                        if open_joints.is_empty() {
+                            // We have closed the brace of the root joint.
+                            curr_mode = ParseMode::Finished;
+                        }
                     }
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
+                    if next_expected_line != NextExpectedLine::ClosingBrace
+                        || in_end_site
+                        || open_joints
+                            .last()
+                            .map_or(true, |&idx| joints[idx].end_site().is_some())
+                    {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
+                    }
+
                     if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
                         in_end_site = true;
+                        next_expected_line = NextExpectedLine::OpeningBrace;
                     } else {
                         return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
                 }
                 JOINT_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
-                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
-                    }
-
-                    if !pushed_end_site_joint {
-                        if let JointData::Child {
-                            ref mut private, ..
-                        } = curr_joint
+                    let parent_index = match open_joints.last() {
+                        Some(&idx)
+                            if next_expected_line == NextExpectedLine::ClosingBrace
+                                && !in_end_site =>
                         {
-                            private.self_index = curr_index;
-                            private.parent_index = get_parent_index(&joints, curr_depth);
-                            private.depth = curr_depth - 1;
+                            idx
                         }
+                        _ => return Err(LoadJointsError::UnexpectedKeyword { line: line_num }),
+                    };
 
-                        let new_joint = mem::replace(&mut curr_joint, JointData::empty_child());
-                        joints.push(new_joint);
-
-                        curr_index += 1;
-                    } else {
-                        pushed_end_site_joint = false;
+                    let mut joint = JointData::empty_child();
+                    if let Some(private) = joint.private_data_mut() {
+                        private.self_index = joints.len();
+                        private.parent_index = parent_index;
+                        private.depth = open_joints.len();
                     }
 
-                    if let Some(mut name) = tokens.next() {
-                        curr_joint.set_name(name);
+                    if let Some(name) = tokens.next() {
+                        joint.set_name(name);
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+
+                    joints.push(joint);
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OFFSET_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
-                        return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num });
-                    }
+                    let curr_joint = match open_joints.last() {
+                        Some(&idx) if next_expected_line == NextExpectedLine::ClosingBrace => {
+                            &mut joints[idx]
+                        }
+                        _ => {
+                            return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num })
+                        }
+                    };
 
                     let mut offset = [0.0, 0.0, 0.0];
 
@@ -415,7 +411,21 @@ impl Bvh {
                     curr_joint.set_offset(offset, in_end_site);
                 }
                 CHANNELS_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    let curr_joint = match open_joints.last() {
+                        Some(&idx)
+                            if next_expected_line == NextExpectedLine::ClosingBrace
+                                && !in_end_site =>
+                        {
+                            &mut joints[idx]
+                        }
+                        _ => {
+                            return Err(LoadJointsError::UnexpectedChannelsSection {
+                                line: line_num,
+                            })
+                        }
+                    };
+
+                    if !curr_joint.channels().is_empty() {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
                     }
 
-- 
2.43.0


From b0731e7c37692d834ca0db47b2adee8a48043290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 03/18] fix: keep the end site of the root joint instead of
 overwriting its offset

---
 src/joint.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index cda2fd4..4424189 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -26,6 +26,8 @@ pub(crate) enum JointData {
         offset: Offset,
         /// The channels applicable to this `Joint`.
         channels: SmallVec<[Channel; 6]>,
+        /// End site offset.
+        end_site_offset: Option<Offset>,
     },
     /// A child joint in the skeleton.
     Child {
@@ -81,8 +83,11 @@ impl JointData {
             JointData::Child {
                 ref end_site_offset,
                 ..
+            }
+            | JointData::Root {
+                ref end_site_offset,
+                ..
             } => end_site_offset.as_ref(),
-            _ => None,
         }
     }
 
@@ -145,6 +150,7 @@ impl JointData {
             name: Default::default(),
             offset: [0.0, 0.0, 0.0].into(),
             channels: Default::default(),
+            end_site_offset: Default::default(),
         }
     }
 
@@ -170,8 +176,12 @@ impl JointData {
     pub(crate) fn set_offset(&mut self, new_offset: impl Into<Offset>, is_site: bool) {
         let new_offset = new_offset.into();
         match *self {
-            JointData::Root { ref mut offset, .. } => *offset = new_offset,
-            JointData::Child {
+            JointData::Root {
+                ref mut offset,
+                ref mut end_site_offset,
+                ..
+            }
+            | JointData::Child {
                 ref mut offset,
                 ref mut end_site_offset,
                 ..
-- 
2.43.0


From 87c20510f1357e24780ed02964f2b87ef83840de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 04/18] fix: do not cut joint names at a colon

---
 src/parse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index db0c4b4..de56098 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -278,6 +278,9 @@ impl Bvh {
 
             let mut tokens = line.fields_with(|c: char| c.is_ascii_whitespace() || c == ':');
 
+            // Names may contain a ':'.
+            let name = line.fields_with(|c: char| c.is_ascii_whitespace()).nth(1);
+
             let first_token = match tokens.next() {
                 Some(tok) => tok,
                 None => continue,
@@ -298,7 +301,7 @@ impl Bvh {
                         return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
 
-                    if let Some(name) = tokens.next() {
+                    if let Some(name) = name {
                         let mut root = JointData::empty_root();
                         root.set_name(name);
                         joints.push(root);
@@ -365,7 +368,7 @@ impl Bvh {
                         private.depth = open_joints.len();
                     }
 
-                    if let Some(name) = tokens.next() {
+                    if let Some(name) = name {
                         joint.set_name(name);
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
-- 
2.43.0


From 0c459800d3f9db151e0e97d43e536cb1cb9cfadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 05/18] fix: do not reserve memory for the channel count
 written in the file

---
 src/parse.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index de56098..fdc5938 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -432,7 +432,7 @@ impl Bvh {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
                     }
 
-                    let num_channels: usize = tokens
+                    let _num_channels: usize = tokens
                         .next()
                         .ok_or(LoadJointsError::ParseNumChannelsError {
                             error: None,
@@ -447,7 +447,6 @@ impl Bvh {
                         })?;
 
                     let mut channels: SmallVec<[Channel; 6]> = Default::default();
-                    channels.reserve(num_channels);
 
                     while let Some(tok) = tokens.next() {
                         let channel_ty = ChannelType::try_from(tok).map_err(|e| {
-- 
2.43.0


From c359b935921c0c1aa8fb9bb79cb0f88f77f7f5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 06/18] fix: do not overflow or reserve memory for the frame
 count written in the file

---
 src/parse.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index fdc5938..b8e4cf4 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -610,9 +610,8 @@ impl Bvh {
                 }
             })?;
 
-        let expected_total_motion_values = self.num_channels * num_frames;
-
-        self.motion_values.reserve(expected_total_motion_values);
+        // The number of frames comes from the file, so nothing is reserved for it up front.
+        let expected_total_motion_values = self.num_channels.saturating_mul(num_frames);
 
         for (line_num, line) in lines {
             let line = line?;
@@ -628,7 +627,7 @@ impl Bvh {
             }
         }
 
-        if self.motion_values.len() != self.num_channels * num_frames {
+        if self.motion_values.len() != expected_total_motion_values {
             return Err(LoadMotionError::MotionCountMismatch {
                 actual_total_motion_values: self.motion_values.len(),
                 expected_total_motion_values,
-- 
2.43.0


From bb024159d3d25e2e40852bd281148bc728f55413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 07/18] fix: reject a frame time which is not a valid duration
 instead of panicking

---
 src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index b8e4cf4..225e2e0 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -591,7 +591,12 @@ impl Bvh {
                                 line: line_num,
                             }
                         })?;
-                        Ok(Duration::from_secs_f64(frame_time_secs))
+                        Duration::try_from_secs_f64(frame_time_secs).map_err(|_| {
+                            LoadMotionError::MissingFrameTime {
+                                parse_error: None,
+                                line: line_num,
+                            }
+                        })
                     } else {
                         Err(LoadMotionError::MissingFrameTime {
                             parse_error: None,
-- 
2.43.0


From 037b731a770e26b62d7821428449f88efd2b2fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 08/18] fix: report a missing frame time value as a missing
 frame time

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 225e2e0..ee9fed2 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -608,7 +608,7 @@ impl Bvh {
                 match tokens.next() {
                     Some(tok) if tok == b":" => parse_frame_time(tokens.next()),
                     Some(tok) => parse_frame_time(Some(tok)),
-                    None => Err(LoadMotionError::MissingNumFrames {
+                    None => Err(LoadMotionError::MissingFrameTime {
                         parse_error: None,
                         line: line_num,
                     }),
-- 
2.43.0


From a1ee647500bfa8f6761a887c09d2ddcdece85cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 09/18] fix: close the braces of joints without an end site
 when writing

---
 src/write.rs | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 688356c..bfff3eb 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -267,27 +267,28 @@ impl WriteOptions {
                                 chunk.extend(self.indent.prefix_chars(depth));
                                 chunk.push(b'}');
                                 chunk.extend_from_slice(terminator);
+                            }
 
-                                let next_joint = joints.next();
-                                let prev_joint = mem::replace(current_joint, next_joint).unwrap();
-
-                                let (curr_depth, mut depth_difference) =
-                                    if let Some(ref curr_j) = *current_joint {
-                                        let curr_depth = curr_j.data().depth();
-                                        (curr_depth, Some(prev_joint.data().depth() - curr_depth))
-                                    } else {
-                                        (0, Some(prev_joint.data().depth()))
-                                    };
-
-                                while let Some(d) = depth_difference {
-                                    chunk.extend(self.indent.prefix_chars(curr_depth + d));
-                                    chunk.push(b'}');
-                                    chunk.extend_from_slice(terminator);
-                                    depth_difference =
-                                        depth_difference.and_then(|d| d.checked_sub(1));
-                                }
-                            } else {
-                                *current_joint = joints.next();
+                            let next_joint = joints.next();
+                            let prev_joint = mem::replace(current_joint, next_joint).unwrap();
+
+                            let (curr_depth, mut depth_difference) =
+                                if let Some(ref curr_j) = *current_joint {
+                                    let curr_depth = curr_j.data().depth();
+                                    // If the next joint is a child, the braces stay open.
+                                    (
+                                        curr_depth,
+                                        prev_joint.data().depth().checked_sub(curr_depth),
+                                    )
+                                } else {
+                                    (0, Some(prev_joint.data().depth()))
+                                };
+
+                            while let Some(d) = depth_difference {
+                                chunk.extend(self.indent.prefix_chars(curr_depth + d));
+                                chunk.push(b'}');
+                                chunk.extend_from_slice(terminator);
+                                depth_difference = depth_difference.and_then(|d| d.checked_sub(1));
                             }
                             *wrote_name = false;
                             *wrote_offset = false;
-- 
2.43.0


From 43a3f40ca68b81d6dc0a248edcde8caca46f6f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 10/18] fix: retry short and interrupted writes instead of
 failing

---
 src/write.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index bfff3eb..3e15a23 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -56,21 +56,10 @@ impl WriteOptions {
     /// Output the `Bvh` file to the `writer` with the given options.
     pub fn write<W: Write>(&self, bvh: &Bvh, writer: &mut W) -> io::Result<()> {
         let mut curr_chunk = vec![];
-        let mut curr_bytes_written = 0usize;
-        let mut curr_string_len = 0usize;
         let mut iter_state = WriteOptionsIterState::new();
 
         while self.next_chunk(bvh, &mut curr_chunk, &mut iter_state) != false {
-            let bytes: &[u8] = curr_chunk.as_ref();
-            curr_string_len += bytes.len();
-            curr_bytes_written += writer.write(bytes)?;
-
-            if curr_bytes_written != curr_string_len {
-                return Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "Data has been dropped while writing to file",
-                ));
-            }
+            writer.write_all(&curr_chunk)?;
         }
         writer.flush()
     }
-- 
2.43.0


From 9e65e387665b0ced5ebbc407aa358162bcf37025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 11/18] fix: keep the order of the frames behind an inserted
 frame

---
 src/frame_cursor.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 7835fe2..3389902 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -549,7 +549,7 @@ impl<'bvh> From<FrameCursor<'bvh>> for FramesMut<'bvh> {
 /// # Panics
 ///
 /// Panics if `index` is out of bounds.
-fn vec_insert_slice<T: Clone + Default>(vec: &mut Vec<T>, index: usize, slice: &[T]) {
+fn vec_insert_slice<T: Clone>(vec: &mut Vec<T>, index: usize, slice: &[T]) {
     assert!(
         index <= vec.len(),
         "attempted to insert a slice at index {} into a vec of length {}",
@@ -557,24 +557,11 @@ fn vec_insert_slice<T: Clone + Default>(vec: &mut Vec<T>, index: usize, slice: &
         vec.len(),
     );
 
-    let spare_capacity = vec.capacity().saturating_sub(vec.len());
-    if slice.len() > spare_capacity {
-        vec.reserve(slice.len() - spare_capacity);
-    }
-
     let old_len = vec.len();
-    let new_len = vec.len() + slice.len();
-    vec.resize_with(new_len, T::default);
+    vec.extend_from_slice(slice);
 
-    // Move the existing items to the end
-    for (to_move, end_index) in (index..old_len).into_iter().zip(old_len + index..new_len) {
-        vec.swap(to_move, end_index);
-    }
-
-    // Clone the slice into the new area
-    for (i, item) in slice.iter().enumerate() {
-        vec[i + index] = item.clone();
-    }
+    // Move the slice from the end to `index`, and the existing items after it
+    vec[index..].rotate_left(old_len - index);
 }
 
 #[test]
-- 
2.43.0


From 01ac5785337012f36acc9608620f5e0d81bd1090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 12/18] fix: report an error when there is no frame to remove
 at the cursor

---
 src/frame_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 3389902..93322f0 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -403,7 +403,7 @@ impl<'bvh> FrameCursor<'bvh> {
     /// # } // fn main()
     /// ```
     pub fn remove_frame(&mut self) -> Result<&mut Self, FrameRemoveError> {
-        if self.len() == 0 {
+        if self.index >= self.len() {
             return Err(FrameRemoveError::new(self.index));
         }
 
-- 
2.43.0


From d342ba21109b15d5ff3549673ea2db5406b5e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:46 +0000
Subject: [PATCH 13/18] fix: move the cursor to the start when all frames are
 removed

---
 src/frame_cursor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 93322f0..6c655e1 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -481,6 +481,7 @@ impl<'bvh> FrameCursor<'bvh> {
     #[inline]
     pub fn remove_all_frames(&mut self) -> &mut Self {
         self.bvh.motion_values.clear();
+        self.index = 0;
         self
     }
 
-- 
2.43.0


From b2d1cfbde3eae0bb8903732c0b18b43c1e5b3280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 14/18] fix: do not overflow or rely on the upper size hint
 when inserting frames

---
 src/frame_cursor.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 6c655e1..0918a2d 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -317,12 +317,11 @@ impl<'bvh> FrameCursor<'bvh> {
     {
         let frames = frames.into_iter();
         let num_channels = self.num_channels();
-        let num_frames = {
-            let (low, up) = frames.size_hint();
-            up.unwrap_or(low)
-        };
+        let (num_frames, _) = frames.size_hint();
 
-        self.bvh.motion_values.reserve(num_frames * num_channels);
+        self.bvh
+            .motion_values
+            .reserve(num_frames.saturating_mul(num_channels));
 
         for frame in frames.into_iter() {
             let frame = frame.as_ref();
-- 
2.43.0


From 185c7f0fb4c6ef7fa98f2aff88562d6c8adab565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 15/18] fix: iterate over the children of a joint instead of
 panicking

---
 src/joint.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index 4424189..7e6ea5e 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -402,6 +402,7 @@ pub struct Joints<'a> {
     pub(crate) joints: &'a [JointData],
     // pub(crate) motion_values: &'a [f32],
     pub(crate) current_joint: usize,
+    /// The index of the parent when only the children of a joint are visited.
     pub(crate) from_child: Option<usize>,
 }
 
@@ -431,24 +432,11 @@ impl<'a> Joints<'a> {
     /// need to iterate through to the end sites of all children, you will
     /// need to continually call `iter_children` on each `Joint` in the iterator.
     pub(crate) fn iter_children(joint: &Joint<'a>) -> Self {
-        let first_child = joint
-            .joints
-            .iter()
-            .find(|jd| {
-                if let Some(p) = jd.private_data() {
-                    p.parent_index == joint.index
-                } else {
-                    false
-                }
-            })
-            .map(JointData::index)
-            .unwrap();
-
         Joints {
             joints: joint.joints,
             // clips: joint.clips,
-            current_joint: joint.data().index(),
-            from_child: Some(first_child),
+            current_joint: 0,
+            from_child: Some(joint.index),
         }
     }
 
@@ -472,6 +460,14 @@ impl<'a> Joints<'a> {
 impl<'a> Iterator for Joints<'a> {
     type Item = Joint<'a>;
     fn next(&mut self) -> Option<Self::Item> {
+        if let Some(parent) = self.from_child {
+            self.current_joint += self
+                .joints
+                .get(self.current_joint..)?
+                .iter()
+                .position(|jd| jd.parent_index() == Some(parent))?;
+        }
+
         if self.current_joint >= self.joints.len() {
             return None;
         }
@@ -481,11 +477,7 @@ impl<'a> Iterator for Joints<'a> {
             joints: self.joints,
         });
 
-        if self.from_child.is_none() {
-            self.current_joint += 1;
-        } else {
-            unimplemented!()
-        }
+        self.current_joint += 1;
 
         joint
     }
-- 
2.43.0


From e1c33144b37e362c02b04ed04625003351db4c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 16/18] fix: visit the joints in the mutable joint iterator

---
 src/joint.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index 7e6ea5e..c010acb 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -8,7 +8,7 @@ use std::{
     ffi::{CStr, CString},
     fmt, mem,
     ops::{Deref, DerefMut},
-    str,
+    slice, str,
 };
 
 /// A 3-element point representing the location of a joint offset or
@@ -506,7 +506,13 @@ impl<'a> Iterator for JointsMut<'a> {
     type Item = JointMut<'a>;
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        None
+        let (joint, rest) = mem::take(&mut self.joints).split_first_mut()?;
+        self.joints = rest;
+        self.current_joint += 1;
+        Some(JointMut {
+            index: 0,
+            joints: slice::from_mut(joint),
+        })
     }
 }
 
@@ -814,9 +820,9 @@ impl fmt::Debug for Joint<'_> {
 
 /// A view of a joint which provides mutable access.
 pub struct JointMut<'a> {
-    /// Index of the `Joint` in the skeleton.
+    /// Index of the `Joint` in `joints`.
     pub(crate) index: usize,
-    /// `Joints` array which the joint is part of.
+    /// The part of the `Joints` array which contains the joint.
     pub(crate) joints: &'a mut [JointData],
 }
 
-- 
2.43.0


From a52e54c57d1fbdfda1ca06cb9a5248331be2931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 17/18] fix: accept joints with 4, 5 or 7 channels in the bvh
 macro

---
 src/macros.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index d17bd0c..57701f6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -110,9 +110,9 @@ macro_rules! parse_joints_internal {
         CHANNELS 4 $ch0:ident $ch1:ident $ch2:ident $ch3:ident
         $($rest:tt)*
     )) => {
-        bvh_anim$crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim$crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
-        bvh_anim$crate::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -125,9 +125,9 @@ macro_rules! parse_joints_internal {
             $ch4:ident
         $($rest:tt)*
     )) => {
-        bvh_anim::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
-        bvh_anim::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -148,6 +148,7 @@ macro_rules! parse_joints_internal {
     };
 
     ($builder:ident (
+        OFFSET $ofst_x:literal $ofst_y:literal $ofst_z:literal
         CHANNELS 7
             $ch0:ident
             $ch1:ident
-- 
2.43.0


From c833699090fc0af8b22413d4383bae568868f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:53 +0000
Subject: [PATCH 18/18] fix: reject channels written behind a child joint

The channels of a joint number the values of a frame in joint order, but a
CHANNELS section behind a child joint was numbered after the child's.
---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index ee9fed2..1d40552 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -417,7 +417,8 @@ impl Bvh {
                     let curr_joint = match open_joints.last() {
                         Some(&idx)
                             if next_expected_line == NextExpectedLine::ClosingBrace
-                                && !in_end_site =>
+                                && !in_end_site
+                                && idx + 1 == joints.len() =>
                         {
                             &mut joints[idx]
                         }
-- 
2.43.0

