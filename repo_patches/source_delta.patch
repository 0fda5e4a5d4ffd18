From 043edb91bcbf16a54710a14ccf2e65d6e6bcaffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 01/15] fix: IPv6 subtraction must borrow whenever the bottom
 half underflows

sub_internal only borrowed when the top halves were equal (and then always
failed), so e.g. 1:: minus 1 (top halves differ) came out 2^64 too large.
---
 src/addr.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index 0bb0fc3..e46b4f2 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -275,13 +275,7 @@ impl Ipv6Address {
 
     fn sub_internal(addrtop64: u64, addrbot64: u64, offtop64: u64, offbot64: u64) -> Option<Ipv6Address> {
         let bot_diff = addrbot64.wrapping_sub(offbot64);
-        let is_borrow =
-            addrtop64 < offtop64
-            || (
-                addrtop64 == offtop64
-                && addrbot64 < offbot64
-            )
-        ;
+        let is_borrow = addrbot64 < offbot64;
 
         let mut top_diff = addrtop64.checked_sub(offtop64)?;
         if is_borrow {
-- 
2.43.0


From b99fcd544ebc36e3b1381f1102c7c86f71220f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 02/15] fix: IPv6 add_offset/subtract_offset must not negate
 i32::MIN

Negating the offset overflows for i32::MIN (panic in debug builds, endless
mutual recursion in release builds); use its magnitude instead.
---
 src/addr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index e46b4f2..a1118d8 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -356,7 +356,10 @@ impl IpAddress for Ipv6Address {
 
     fn add_offset(&self, offset: i32) -> Option<Ipv6Address> {
         if offset < 0 {
-            Ipv6Address::subtract_offset(&self, -offset)
+            Ipv6Address::sub_internal(
+                self.top_half, self.bottom_half,
+                0, offset.unsigned_abs().into(),
+            )
         } else {
             Ipv6Address::add_internal(
                 self.top_half, self.bottom_half,
@@ -374,7 +377,10 @@ impl IpAddress for Ipv6Address {
 
     fn subtract_offset(&self, offset: i32) -> Option<Ipv6Address> {
         if offset < 0 {
-            Ipv6Address::add_offset(&self, -offset)
+            Ipv6Address::add_internal(
+                self.top_half, self.bottom_half,
+                0, offset.unsigned_abs().into(),
+            )
         } else {
             Ipv6Address::sub_internal(
                 self.top_half, self.bottom_half,
-- 
2.43.0


From ea3ea35295a0346ef1a617cf5b63130402f2b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 03/15] fix: parse IPv6 addresses with seven groups before or
 after "::"

An address such as 1:2:3:4:5:6:7:: (which is how such an address is displayed) was rejected as having
nine chunks.
---
 src/addr.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index a1118d8..04e2ef6 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -395,14 +395,22 @@ impl FromStr for Ipv6Address {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let mut addr_str = String::from(s);
-        if addr_str.starts_with(':') {
+        if addr_str.starts_with(':') && !addr_str.starts_with("::") {
             addr_str.insert(0, '0');
         }
-        if addr_str.ends_with(':') {
+        if addr_str.ends_with(':') && !addr_str.ends_with("::") {
             addr_str.push('0');
         }
 
-        let chunks: Vec<&str> = addr_str.split(":").collect();
+        let mut chunks: Vec<&str> = addr_str.split(":").collect();
+        if s.starts_with("::") {
+            // the first of two empty chunks is not a shortening element
+            chunks.remove(0);
+        }
+        if s.ends_with("::") {
+            // neither is the last of two empty chunks
+            chunks.pop();
+        }
         if chunks.len() > 8 {
             return Err(IpAddressParseError::IncorrectChunkCount(chunks.len(), 8));
         }
-- 
2.43.0


From 233018f1b3c65d32bb4f1b792f64549a9aa9b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 04/15] fix: reject empty IPv6 text and lone leading or
 trailing colons

The empty text was parsed as ::, and 1:2:3:4:5:6:7: and :1:2:3:4:5:6:7 as if the missing group were 0.
---
 src/addr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/addr.rs b/src/addr.rs
index 04e2ef6..b670b85 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -461,6 +461,14 @@ impl FromStr for Ipv6Address {
             // leave remaining chunks as zero
         }
 
+        // a colon at either end is only valid as part of a shortening element
+        if s.len() == 0 || (s.starts_with(':') && !s.starts_with("::")) {
+            return Err(IpAddressParseError::EmptyChunk(0));
+        }
+        if s.ends_with(':') && !s.ends_with("::") {
+            return Err(IpAddressParseError::EmptyChunk(chunks.len() - 1));
+        }
+
         let mut top_half: u64 = 0;
         let mut bottom_half: u64 = 0;
         for i in 0..8 {
-- 
2.43.0


From c4ce6e8024ca68f81111b7311280d59856c8ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 05/15] fix: do not add line breaks when colors are disabled

---
 src/console.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/console.rs b/src/console.rs
index 31f2031..a9411b6 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -78,5 +78,5 @@ pub fn write_in_color<S: AsRef<str>>(text: S, color: Option<Color>, pad_to: isiz
         }
     }
 
-    println!("{}", padded);
+    print!("{}", padded);
 }
-- 
2.43.0


From acc88f238acae603838e3a95bb513a366dd06ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 06/15] fix: end the "no hosts/net" line

---
 src/cmds/show_net.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 1802ebb..3f44c24 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -120,6 +120,7 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
             println!();
         } else {
             write_in_color("no hosts/net", Some(LABEL_COLOR), 0);
+            println!();
         }
     }
 }
-- 
2.43.0


From 502bbf454d23fe7962b0f8f65bd2af5dc7f809f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:49 +0000
Subject: [PATCH 07/15] fix: derange ranges that reach the end of the address
 space

---
 src/cmds/derange.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cmds/derange.rs b/src/cmds/derange.rs
index 83d7738..ee4dcc6 100644
--- a/src/cmds/derange.rs
+++ b/src/cmds/derange.rs
@@ -65,12 +65,22 @@ pub fn range_to_subnets<A: IpAddress>(
     // start with the full mask
     let mut current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
     while first_addr <= last_addr {
+        let current_prefix = current_subnet.cidr_prefix().unwrap();
+        if current_prefix == 0 {
+            // the subnet spans the whole address space; there is nothing larger and nothing left
+            ret.push(current_subnet);
+            break;
+        }
+
         // try enlarging the subnet
-        let larger_subnet = IpNetwork::new_with_prefix(first_addr, current_subnet.cidr_prefix().unwrap() - 1);
+        let larger_subnet = IpNetwork::new_with_prefix(first_addr, current_prefix - 1);
         if larger_subnet.base_addr() != first_addr || larger_subnet.last_addr_of_subnet() > last_addr {
             // we've gone beyond; store what we have and continue with the next chunk
             ret.push(current_subnet);
-            first_addr = current_subnet.next_subnet_base_addr().unwrap();
+            first_addr = match current_subnet.next_subnet_base_addr() {
+                Some(next_addr) => next_addr,
+                None => break, // this was the end of the address space
+            };
             current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
         } else {
             // anchor the growth and continue
-- 
2.43.0


From 0610884ab22295e75bc4d942362293f2c650f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:53 +0000
Subject: [PATCH 08/15] fix: split no longer reports networks beyond the split
 one as unused when it is used up

---
 src/cmds/split.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 958c2ce..9de5f0b 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -74,12 +74,14 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
     if !subnet.contains(&max_used_address) {
         println!("Network is too small");
     } else if let Some(next_unused_address) = max_used_address.add_offset(1) {
-        println!("Unused networks:");
         let last_address = subnet.last_addr_of_subnet();
-        let unused_subnets = range_to_subnets(next_unused_address, last_address);
+        if next_unused_address <= last_address {
+            println!("Unused networks:");
+            let unused_subnets = range_to_subnets(next_unused_address, last_address);
 
-        for unused_subnet in unused_subnets {
-            println!("{}", unused_subnet);
+            for unused_subnet in unused_subnets {
+                println!("{}", unused_subnet);
+            }
         }
     }
 
-- 
2.43.0


From f32bf3b264171ec9bd562b988b9c9c07d5c17a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 09/15] fix: split reports networks that begin before the
 network to split as not fitting

---
 src/cmds/split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 9de5f0b..1c08d66 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -71,7 +71,7 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
         .map(|sn| sn.last_addr_of_subnet())
         .max()
         .expect("no subnets returned");
-    if !subnet.contains(&max_used_address) {
+    if split_subnets.iter().any(|sn| !subnet.is_superset_of(sn)) {
         println!("Network is too small");
     } else if let Some(next_unused_address) = max_used_address.add_offset(1) {
         let last_address = subnet.last_addr_of_subnet();
-- 
2.43.0


From a01b0564cd565fcb2b869a7fbc5261446917d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:43 +0000
Subject: [PATCH 10/15] fix: split no longer refuses networks that end at the
 end of the address space or span all of it

---
 src/cmds/split.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 1c08d66..0c3c5eb 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -102,28 +102,26 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
 
     let mut index_to_subnet: HashMap<usize, IpNetwork<A>> = HashMap::new();
 
-    let mut current_net = IpNetwork::new_with_prefix(subnet.base_addr(), subnet.subnet_mask().byte_count()*8);
+    let mut next_base_addr = Some(subnet.base_addr());
     for (i, host_count) in indexes_and_host_counts {
+        let base_addr = match next_base_addr {
+            Some(nba) => nba,
+            // the address space ends with the previous network
+            None => return None,
+        };
+        let mut current_net = IpNetwork::new_with_prefix(base_addr, subnet.subnet_mask().byte_count()*8);
         while current_net.host_count() < host_count {
             let cidr_prefix = current_net.cidr_prefix().unwrap();
             if cidr_prefix == 0 {
-                break;
+                // this won't fit
+                return None;
             }
             current_net = IpNetwork::new_with_prefix(current_net.base_addr(), cidr_prefix - 1);
         }
 
-        if current_net.cidr_prefix().unwrap() == 0 {
-            // this won't fit
-            return None;
-        }
-
         // we fit!
         index_to_subnet.insert(i, current_net);
-        let next_subnet_base_addr = match current_net.next_subnet_base_addr() {
-            Some(nsba) => nsba,
-            None => return None,
-        };
-        current_net = IpNetwork::new_with_prefix(next_subnet_base_addr, current_net.subnet_mask().byte_count()*8);
+        next_base_addr = current_net.next_subnet_base_addr();
     }
 
     let mut ordered_subnets: Vec<(usize, IpNetwork<A>)> = index_to_subnet.iter()
-- 
2.43.0


From 1ca7ea0f04350953f358161c7489c3ac6b804110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:14 +0000
Subject: [PATCH 11/15] fix: minimize drops networks that a merged network with
 a mixed mask contains

---
 src/cmds/minimize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmds/minimize.rs b/src/cmds/minimize.rs
index f828662..a36f93f 100644
--- a/src/cmds/minimize.rs
+++ b/src/cmds/minimize.rs
@@ -114,8 +114,8 @@ pub fn minimize_subnets<A: IpAddress>(
                 assert!(new_subnet.is_superset_of(&subnets[j]));
 
                 // replace the lower subnets with the upper subnet
-                filtered_subnets.remove(&subnets[i]);
-                filtered_subnets.remove(&subnets[j]);
+                // (and drop any other subnets that the upper subnet contains)
+                filtered_subnets.retain(|net| !new_subnet.is_superset_of(net));
                 filtered_subnets.insert(new_subnet);
 
                 subnets_merged = true;
-- 
2.43.0


From 158ffdbe2c0f39d9b54a45cdff1c6a1abc63f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:02 +0000
Subject: [PATCH 12/15] fix: whether networks intersect depends on the bits
 both masks select

---
 src/net.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index c8141a4..7b6cdc5 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -233,13 +233,11 @@ impl<A: IpAddress> IpNetwork<A> {
     /// Returns whether this network and another network intersect, i.e. there is at least one
     /// address that is contained in both networks.
     pub fn intersects(&self, other: &IpNetwork<A>) -> bool {
-        let self_first = self.base_addr;
-        let self_last = self.last_addr_of_subnet();
-        let other_first = other.base_addr;
-        let other_last = other.last_addr_of_subnet();
-
-        // thisFirst <= otherLast && otherFirst <= thisLast
-        self_first <= other_last && other_first <= self_last
+        // an address is contained in both networks if its bits equal those of both base addresses
+        // wherever they are part of the respective network; there is such an address if the base
+        // addresses agree on all bits that are part of both networks
+        let common_mask = self.subnet_mask & other.subnet_mask;
+        self.base_addr & common_mask == other.base_addr & common_mask
     }
 }
 impl<A: IpAddress> fmt::Display for IpNetwork<A> {
-- 
2.43.0


From 87cf043f76ab8236300b711dbaf23e0d81853ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:02 +0000
Subject: [PATCH 13/15] fix: the full form of an IPv6 address is no longer
 empty

---
 src/addr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addr.rs b/src/addr.rs
index b670b85..d78b231 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -220,7 +220,7 @@ impl Ipv6Address {
     pub fn to_full_string(&self) -> String {
         let chunks = self.to_chunks();
         let mut chunk_strings = Vec::with_capacity(chunks.len());
-        for i in 0..chunk_strings.len() {
+        for i in 0..chunks.len() {
             chunk_strings.push(format!("{:04x}", chunks[i]));
         }
         chunk_strings.join(":")
-- 
2.43.0


From afa4283a25781a7df85af841d7f6a10188259266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:02 +0000
Subject: [PATCH 14/15] fix: arguments that are not valid Unicode are reported
 instead of panicking

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21da9bf..1dc116a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -45,7 +45,10 @@ fn usage() {
 }
 
 fn do_main() -> i32 {
-    let args: Vec<String> = std::env::args().collect();
+    // arguments need not be valid Unicode; no valid argument contains the replacement character
+    let args: Vec<String> = std::env::args_os()
+        .map(|arg| arg.to_string_lossy().into_owned())
+        .collect();
 
     if args.len() < 2 {
         usage();
-- 
2.43.0


From 75dc220f2fae8edad43690e2581c0c98d65e1492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:02 +0000
Subject: [PATCH 15/15] fix: class bits are coloured if the mask covers those
 of the class only

---
 src/cmds/show_net.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 3f44c24..00e9b6c 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -177,11 +177,11 @@ fn output_binary_ipv4_address(
                 } else if bitvec[0] == '1' && mask_bitvec[1] == '0' {
                     // first bit, 1, is part of the network, but second isn't
                     color_class = false;
-                } else if bitvec[1] == '1' && mask_bitvec[2] == '0' {
+                } else if bits.starts_with("11") && mask_bitvec[2] == '0' {
                     // first two bits, both 1, are part of the network, but third isn't
                     color_class = false;
-                } else if bitvec[2] == '1' && mask_bitvec[3] == '0' {
-                    // first two bits, both 1, are part of the network, but third isn't
+                } else if bits.starts_with("111") && mask_bitvec[3] == '0' {
+                    // first three bits, all 1, are part of the network, but fourth isn't
                     color_class = false;
                 }
             }
-- 
2.43.0

