From 63e67bc01ee237b3a78ad3c0cdfd308dac9481f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 01/45] fix: cylindrical system draws in-place random positions
 inside its domain

random_pos_to_vec drew from (-1, 1) and scaled by twice the radius/length, so
positions up to 2L outside of the system were returned.
---
 src/system_mod/cont_cyl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index ab01119..b9271fc 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -228,11 +228,11 @@ impl SystemCore<f64> for ContCylindricalSystem{
 
             let mut r : f64 = 0f64;
             for i in 0..d{
-                vec[i] *= 2f64 * sys_radius;
+                vec[i] *= sys_radius;
                 r += vec[i] * vec[i];
             }
             for i in d..dim{
-                vec[i] *= 2f64 * sys_length;
+                vec[i] *= sys_length;
             }
 
             r = r.sqrt();
-- 
2.43.0


From 5dd866552fce156b6b3f2e35794d37953a09ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 02/45] fix: out-of-system point of a cylindrical system lies
 outside of it

When every axis is circular, or the radius exceeds the length, the point
(2L, 2L, ..) could lie inside of the system.
---
 src/system_mod/cont_cyl.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index b9271fc..39d9148 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -248,9 +248,10 @@ impl SystemCore<f64> for ContCylindricalSystem{
         // system 밖의 점을 하나 출력해주는 함수
         // searcher를 새로 정의할 때, 맨 처음 위치를 시스템 밖에 두면 편리해서 생긴 기능
 
-        let sys_length : f64 = self.sys_length;
+        // circular domain이 더 클 수도 있으므로, radius와 length 중 큰 값의 2배를 사용
+        let sys_size : f64 = self.sys_radius.max(self.sys_length);
         let dim : usize = self.dim;
-        return Position::new(vec![2f64 * sys_length; dim]);   // circular domain에선 아니더라도 rectangular domain에서 밖으로 나감
+        return Position::new(vec![2f64 * sys_size; dim]);
     }
 
     fn position_out_of_system_to_vec(&self, vec: &mut Position<f64>) -> Result<(), Error>{
@@ -260,9 +261,9 @@ impl SystemCore<f64> for ContCylindricalSystem{
             return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
         }
 
-        let sys_length : f64 = self.sys_length;
+        let sys_size : f64 = self.sys_radius.max(self.sys_length);
         for x in vec.iter_mut(){
-            *x = 2f64 * sys_length;
+            *x = 2f64 * sys_size;
         }
         Ok(())
     }
-- 
2.43.0


From b0e234012df0967aed39f55239805969fa1ce506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 03/45] fix: configuration values containing a colon can be
 read back

read_args_from_lines split the whole line at every ':', so the type and the
boundary condition of a cylindrical system, a mixed boundary condition or an
output directory with a colon were written but rejected on reading.
---
 src/argument.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argument.rs b/src/argument.rs
index b35d5d4..a495a8a 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -144,7 +144,7 @@ macro_rules! impl_fn_read_args_from_lines{
                                 Some(x) => x.map_err(Error::make_error_io)?,
                                 None => {return Err(Error::make_error_syntax(ErrorCode::InvalidFile));}
                             };
-                            let split : Vec<String> = list.split(":")
+                            let split : Vec<String> = list.splitn(2, ":")
                                                           .map(|s| s.to_string())
                                                           .collect();
                             if split.len() != 2{
-- 
2.43.0


From 24609d2bf5957044be4425c1abc666b2eaee690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 04/45] fix: unreadable configuration values are reported as
 errors

read_args_from_vec and read_args_from_lines panicked on a value which does not
parse although they return Result; an analysis, which skips files that it can
not read, was aborted by such a file.
---
 src/argument.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/argument.rs b/src/argument.rs
index a495a8a..d703231 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -111,7 +111,7 @@ macro_rules! impl_fn_read_args_from_vec{
                     )*
                 $($var : {
                         let word : &str = iter.next().unwrap().trim();
-                        word.parse().expect("Failed to parse\n")
+                        word.parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?
                     },
                     )*
             })
@@ -151,7 +151,7 @@ macro_rules! impl_fn_read_args_from_lines{
                                 return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
                             }
                             let val_string : &str = &split[1].trim();
-                            val_string.parse().expect("Failed to parse\n")},
+                            val_string.parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFormat))?},
                     )*
             })
         }
-- 
2.43.0


From 43e32c30878a50a6e958a10c0e56378571a9559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 05/45] fix: malformed type texts are rejected instead of
 panicking

---
 src/agent_mod/types.rs | 15 ++++++++-------
 src/analysis.rs        |  4 ++--
 src/system_mod/mod.rs  | 10 +++++-----
 src/time_mod/mod.rs    | 11 ++++++-----
 4 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/agent_mod/types.rs b/src/agent_mod/types.rs
index 3213635..9df8f10 100644
--- a/src/agent_mod/types.rs
+++ b/src/agent_mod/types.rs
@@ -171,8 +171,9 @@ impl FromStr for MoveType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
-            "Brownian" => Ok(MoveType::Brownian(split[4].parse::<f64>().expect("Failed to parse"))),
+        match *split.get(0).unwrap_or(&""){
+            "Brownian" => split.get(4).unwrap_or(&"").parse::<f64>().map(|c| MoveType::Brownian(c))
+                               .map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             "Levy" => Ok(MoveType::Levy),
             _ => {
                 if split.len() == 1{
@@ -232,8 +233,8 @@ impl<T : FromStr + Default + Clone> FromStr for InitType<T>{
             }
         }
         else{
-            match split[1]{
-                "all" => Ok(InitType::<T>::SpecificPosition(split[4].parse::<Position<T>>().expect("Failed to parse"))),
+            match *split.get(1).unwrap_or(&""){
+                "all" => Ok(InitType::<T>::SpecificPosition(split.get(4).unwrap_or(&"").parse::<Position<T>>()?)),
                 "agents" => Ok(InitType::<T>::Uniform),
                 _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             }
@@ -300,7 +301,7 @@ impl FromStr for InteractType{
             let name = split[0];
             match name{
                 "Exponential" => {
-                    let args : Vec<&str> = split[1].split(',').collect();
+                    let args : Vec<&str> = split.get(1).unwrap_or(&"").split(',').collect();
                     if args.len() != 2{
                         return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
                     }
@@ -315,7 +316,7 @@ impl FromStr for InteractType{
                     return Ok(InteractType::Coulomb3D);
                 },
                 "LennardJones" => {
-                    let ptl_size : f64 = split[1].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                    let ptl_size : f64 = split.get(1).unwrap_or(&"").parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                     return Ok(InteractType::LennardJones(ptl_size));
                 }
                 _ => {
@@ -323,7 +324,7 @@ impl FromStr for InteractType{
                 }
             }
         } else {
-            match split[0]{
+            match *split.get(0).unwrap_or(&""){
                 "Exponential" => {
                     if split.len() != 10{
                         return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
diff --git a/src/analysis.rs b/src/analysis.rs
index b23c025..c0c0370 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -993,8 +993,8 @@ impl<T> FromStr for Pair<T>
     fn from_str(s : &str) -> Result<Self, Self::Err>{
         let mut trim = s.to_string();
         trim.retain(|c| c != '(' && c != ')');
-        let splitted : Vec<T> = trim.split(',').map(|t| t.parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)).unwrap())
-                           .collect();
+        let splitted : Vec<T> = trim.split(',').map(|t| t.parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)))
+                           .collect::<Result<Vec<T>, Self::Err>>()?;
         if splitted.len() != 2{
             return Err(Error::make_error_syntax(ErrorCode::InvalidNumberOfArguments));
         }
diff --git a/src/system_mod/mod.rs b/src/system_mod/mod.rs
index c0bac70..321f440 100644
--- a/src/system_mod/mod.rs
+++ b/src/system_mod/mod.rs
@@ -70,13 +70,13 @@ impl FromStr for SystemType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
+        match *split.get(0).unwrap_or(&""){
             "Continuous" => {
-                match split[1]{
+                match *split.get(1).unwrap_or(&""){
                     "Circular" => Ok(SystemType::ContinuousCircular),
                     "Rectangular" => Ok(SystemType::ContinuousRectangular),
                     "Cylindrical" => {
-                        let d = split[3][3..].parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                        let d = split.get(3).and_then(|s| s.get(3..)).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                         Ok(SystemType::ContinuousCylindrical(d))
                     }
                     _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
@@ -136,11 +136,11 @@ impl FromStr for BoundaryCond{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
+        match *split.get(0).unwrap_or(&""){
             "Reflective"    => Ok(BoundaryCond::Reflection),
             "Periodic"      => Ok(BoundaryCond::Periodic),
             "Mixed"         => {
-                let x = split[3][3..].parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let x = split.get(3).and_then(|s| s.get(3..)).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(BoundaryCond::Mixed(x))
             },
             string => {
diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index ef4d950..bc4bcaa 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -62,12 +62,13 @@ impl FromStr for TimeType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
-            "Constant" => Ok(TimeType::Constant(split[5].parse::<f64>().expect("Failed to parse"))),
+        match *split.get(0).unwrap_or(&""){
+            "Constant" => split.get(5).unwrap_or(&"").parse::<f64>().map(|c| TimeType::Constant(c))
+                               .map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             "Exponential" => {
-                let dt_min = split[5].parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
-                let dt_max = split[7].parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
-                let length = split[13].parse::<usize>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let dt_min = split.get(5).unwrap_or(&"").parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let dt_max = split.get(7).unwrap_or(&"").parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let length = split.get(13).unwrap_or(&"").parse::<usize>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(TimeType::Exponential(dt_min, dt_max, length))
             },
             _ => {
-- 
2.43.0


From 20a759995b93003817b5ac2c146d7ac6a388164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 06/45] fix: datasets with different parameters are not
 identified with each other

---
 src/macros.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 9f05ce1..c765729 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -136,14 +136,8 @@ macro_rules! derive_hash{
         impl Hash for $name{
             fn hash<H: Hasher>(&self, state: &mut H){
                 $(
-                    let mut c = self.$var as f64 * 1e10;
-                    let mut b : f64 = 0.0;
-
-                    if c < 0.0 {
-                        c = - c;
-                        b = 1.0;
-                    }
-                    ((c + b) as usize).hash(state);
+                    // Adding 0.0 merges the two zeros, every other value has its own bit pattern.
+                    (self.$var as f64 + 0f64).to_bits().hash(state);
                     )*
             }
         }
-- 
2.43.0


From d56cf9d48e870227b38623ae55d2b8fd645539a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 07/45] fix: simulation! builds datasets of cylindrical systems
 and merging agents

---
 moledyn_proc/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moledyn_proc/src/lib.rs b/moledyn_proc/src/lib.rs
index 1ec717d..d02d7e6 100644
--- a/moledyn_proc/src/lib.rs
+++ b/moledyn_proc/src/lib.rs
@@ -75,7 +75,7 @@ fn ident_to_dataset(ident : &proc_macro2::Ident) -> proc_macro2::TokenStream{
         },
         "ContCylindricalSystem" => {
             let tokens = proc_quote::quote!{
-                ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [radius, f64, length, f64, dim, usize]
+                ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]
             };
             tokens.into()
         },
@@ -103,7 +103,7 @@ fn ident_to_dataset(ident : &proc_macro2::Ident) -> proc_macro2::TokenStream{
         },
         "ContPassiveMergeAgent" => {
             let tokens = proc_quote::quote!{
-                ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [radius, f64, alpha, f64, num_agent, usize]
+                ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]
             };
             tokens.into()
         },
-- 
2.43.0


From 155d8901ed5455702abb2989522c9c4d6e88a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 08/45] fix: vector time analysis accepts the number of
 arguments it reads

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index c0c0370..4f61e3a 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -747,7 +747,7 @@ impl VarN for TimeVecAnalysis{
 }
 
 impl Analysis for TimeVecAnalysis{
-    const NUM_ARGS : usize = 4;
+    const NUM_ARGS : usize = 5;
 
     // Clear data
     fn clear(&mut self){
-- 
2.43.0


From 8ddb011aa2de532834194965ddedf9fb1ab5a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 09/45] fix: setup with given arguments skips the leading ones
 for analysis too

---
 src/setup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setup.rs b/src/setup.rs
index a451711..1f3e928 100644
--- a/src/setup.rs
+++ b/src/setup.rs
@@ -103,7 +103,7 @@ macro_rules! setup_simulation_fixed{
         define_total_num_args!($($struct_type),*);
 
         if $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS || $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS + 1{
-                return <$analysis>::analyze::<$dataset>(&$args, WIDTH, $prefix);
+                return <$analysis>::analyze::<$dataset>(&$args[NUM_SKIP..], WIDTH, $prefix);
         }
         else if $args.len() - NUM_SKIP != TOTAL_NUM_ARGS{
             export_simulation_item!($args, $analysis $(, $struct_type)*);
-- 
2.43.0


From f1c2caa7b9031a105f99a9e36943cd1c46dd0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 10/45] fix: a value at the maximal time is counted in the last
 bin

---
 src/analysis.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 4f61e3a..c93ef89 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -226,7 +226,9 @@ macro_rules! construct_trait_bin {
                 return None;
             }
             else{
-                return Some(((fpt - self.min_time) / self.bin_size).floor() as usize);
+                // Value at max_time belongs to the last bin
+                let idx = ((fpt - self.min_time) / self.bin_size).floor() as usize;
+                return Some(idx.min(self.num_bin.saturating_sub(1)));
             }
         }
 
@@ -236,7 +238,8 @@ macro_rules! construct_trait_bin {
                 return None;
             }
             else{
-                return Some(((fpt / self.min_time).log2() / self.lbin_size.log2()).floor() as usize);
+                let idx = ((fpt / self.min_time).log2() / self.lbin_size.log2()).floor() as usize;
+                return Some(idx.min(self.num_lbin.saturating_sub(1)));
             }
         }
     }
-- 
2.43.0


From e213f78d8431fa469de78069c88031b1285b94b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 11/45] fix: bin sizes which cannot cover the time range are
 rejected

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index c93ef89..73e8f9d 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -153,7 +153,7 @@ macro_rules! construct_trait_bin {
 () => {
         #[allow(dead_code)]
         fn update_from_bin_size(&mut self, min_time : f64, max_time : f64, bin_size : f64, lbin_size : f64) -> Result<(), Error>{
-            if min_time < 0f64 || max_time < min_time || bin_size < 0f64 || lbin_size < 0f64{
+            if min_time < 0f64 || max_time < min_time || bin_size <= 0f64 || lbin_size <= 1f64{
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
-- 
2.43.0


From 3177f5e21511f996e2351fafe7a043d52b700614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 12/45] fix: exported distributions contain every bin which has
 data

---
 src/analysis.rs | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 73e8f9d..14e5f8c 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -457,10 +457,10 @@ impl Analysis for TimeAnalysis{
         let mut time = self.min_time - bin_size / 2f64;
         for (i, &x) in self.hist.iter().enumerate(){
             time += bin_size;
-            if x.abs() < 1e-15{
+            let n = self.count[i];
+            if n == 0{
                 continue;
             }
-            let n = self.count[i];
             writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\n", prec, time, n, x)).map_err(Error::make_error_io)?;
         }
         Ok(())
@@ -473,10 +473,10 @@ impl Analysis for TimeAnalysis{
 
         for (i, &x) in self.lhist.iter().enumerate(){
             time *= r;
-            if x.abs() < 1e-15{
+            let n = self.lcount[i];
+            if n == 0{
                 continue;
             }
-            let n = self.lcount[i];
             writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\n", prec, time, n, x)).map_err(Error::make_error_io)?;
         }
         Ok(())
@@ -786,9 +786,8 @@ impl Analysis for TimeVecAnalysis{
     fn export_distribution<W: Write>(&self, prec : usize, writer : &mut W) -> Result<(), Error>{
         let bin_size = self.bin_size;
         let mut time = self.min_time + bin_size / 2f64;
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_bin{
             let mut string = String::new();
             let mut check = false;
 
@@ -797,7 +796,7 @@ impl Analysis for TimeVecAnalysis{
                 let n = self.count[idx][i];
                 let x = self.hist[idx][i];
 
-                if x > 1e-15{
+                if n > 0{
                     check = true;
                 }
                 string.push_str(format!("{}", format_args!("{1:0$}\t{2:0$e}\t", prec, n, x)).as_str());
@@ -807,8 +806,6 @@ impl Analysis for TimeVecAnalysis{
             }
 
             time += bin_size;
-            i += 1;
-
         }
         Ok(())
     }
@@ -817,9 +814,8 @@ impl Analysis for TimeVecAnalysis{
     fn export_log_scaled_distribution<W: Write>(&self, prec : usize, writer: &mut W) -> Result<(), Error>{
         let lbin_size = self.lbin_size;
         let mut time = self.min_time * lbin_size.sqrt();
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_lbin{
             let mut string = String::new();
             let mut check = false;
 
@@ -828,7 +824,7 @@ impl Analysis for TimeVecAnalysis{
                 let n = self.lcount[idx][i];
                 let x = self.lhist[idx][i];
 
-                if x > 1e-15{
+                if n > 0{
                     check = true;
                 }
                 string.push_str(format!("{}", format_args!("{1:0$}\t{2:0$e}\t", prec, n, x)).as_str());
@@ -838,7 +834,6 @@ impl Analysis for TimeVecAnalysis{
             }
 
             time *= lbin_size;
-            i += 1;
         }
         Ok(())
     }
@@ -1186,20 +1181,17 @@ impl Analysis for ProcessAnalysis{
     fn export_distribution<W: Write>(&self, prec : usize, writer : &mut W) -> Result<(), Error>{
         let bin_size = self.bin_size;
         let mut time = self.min_time + bin_size / 2f64;
-        let mut i : usize = 0;
-
-        while time <= self.max_time{
 
+        for i in 0..self.num_bin{
             let n = self.count[i];
             let x = self.mean[i];
             let dx = self.stddev[i];
 
-            if x > 1e-15{
+            if n > 0{
                 writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\t{4:0$e}\n", prec, time, n, x, dx)).map_err(Error::make_error_io)?;
             }
 
             time += bin_size;
-            i += 1;
         }
         Ok(())
     }
@@ -1208,19 +1200,17 @@ impl Analysis for ProcessAnalysis{
     fn export_log_scaled_distribution<W: Write>(&self, prec : usize, writer: &mut W) -> Result<(), Error>{
         let lbin_size = self.lbin_size;
         let mut time = self.min_time * lbin_size.sqrt();
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_lbin{
             let n = self.lcount[i];
             let x = self.log_mean[i];
             let dx = self.log_stddev[i];
 
-            if x > 1e-15{
+            if n > 0{
                 writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\t{4:0$e}\n", prec, time, n, x, dx)).map_err(Error::make_error_io)?;
             }
 
             time *= lbin_size;
-            i += 1;
         }
         Ok(())
     }
-- 
2.43.0


From 0b6a22042275a673cda35126a8fac3174a753fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 13/45] fix: standard deviation of equal values is zero instead
 of NaN

---
 src/analysis.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 14e5f8c..4413579 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -406,7 +406,7 @@ impl Var1 for TimeAnalysis{
         let en : f64= self.ensemble as f64;
 
         self.mean = self.mean / en;
-        self.stddev = ((self.stddev / en) - self.mean.powi(2)).sqrt();
+        self.stddev = ((self.stddev / en) - self.mean.powi(2)).max(0f64).sqrt();
 
         let d_bin : f64 = en * (self.bin_size as f64);
         let lbin : f64 = self.lbin_size;
@@ -729,7 +729,7 @@ impl VarN for TimeVecAnalysis{
 
         for idx in 0..self.num_var{
             self.means[idx] = self.means[idx] / en;
-            self.stddevs[idx] = ((self.stddevs[idx] / en) - self.means[idx].powi(2)).sqrt();
+            self.stddevs[idx] = ((self.stddevs[idx] / en) - self.means[idx].powi(2)).max(0f64).sqrt();
 
             let mut d_lbin : f64 = self.min_time * en * (lbin - 1f64);
 
@@ -1122,14 +1122,14 @@ impl VarTime for ProcessAnalysis{
         let en = self.tot_point as f64;
 
         self.long_term_mean = self.long_term_mean / en;
-        self.long_term_stddev = ((self.long_term_stddev / en) - self.long_term_mean.powi(2)).sqrt();
+        self.long_term_stddev = ((self.long_term_stddev / en) - self.long_term_mean.powi(2)).max(0f64).sqrt();
 
         let count = &self.count;
         let mean = &mut self.mean;
         let stddev = &mut self.stddev;
         for (i, &x) in count.iter().enumerate(){
             mean[i] = mean[i] / (x as f64);
-            stddev[i] = (stddev[i] / (x as f64) - mean[i].powi(2)).sqrt();
+            stddev[i] = (stddev[i] / (x as f64) - mean[i].powi(2)).max(0f64).sqrt();
         }
 
         let lcount = &self.lcount;
@@ -1137,7 +1137,7 @@ impl VarTime for ProcessAnalysis{
         let log_stddev = &mut self.log_stddev;
         for (i, &x) in lcount.iter().enumerate(){
             log_mean[i] = log_mean[i] / (x as f64);
-            log_stddev[i] = (log_stddev[i] / (x as f64) - log_mean[i].powi(2)).sqrt();
+            log_stddev[i] = (log_stddev[i] / (x as f64) - log_mean[i].powi(2)).max(0f64).sqrt();
         }
     }
 }
-- 
2.43.0


From 6c1bc16d2151d52735ba972a4bf69d5e52689af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 14/45] fix: summary columns follow the order of the summary
 header

---
 src/analysis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 4413579..b1c8fcd 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -448,7 +448,7 @@ impl Analysis for TimeAnalysis{
 
     #[allow(dead_code)]
     fn export_mean_stddev(&self, prec : usize) -> Result<String, Error>{
-        Ok(format!("{}", format_args!("{1:<0$e}\t{2:<0$e}\t{3:<0$}", prec, self.mean, self.stddev, self.ensemble)))
+        Ok(format!("{}", format_args!("{1:<0$}\t{2:<0$e}\t{3:<0$e}", prec, self.ensemble, self.mean, self.stddev)))
     }
 
     #[allow(dead_code)]
@@ -1172,8 +1172,8 @@ impl Analysis for ProcessAnalysis{
     #[allow(dead_code)]
     fn export_mean_stddev(&self, prec : usize) -> Result<String, Error>{
         let mut string = String::new();
-        string.push_str(format!("{}", format_args!("{1:<0$e}\t{2:<0$e}\t {3:<0$}\t",
-                        prec, self.long_term_mean, self.long_term_stddev, self.ensemble)).as_str());
+        string.push_str(format!("{}", format_args!("{1:<0$}\t{2:<0$e}\t{3:<0$e}\t",
+                        prec, self.ensemble, self.long_term_mean, self.long_term_stddev)).as_str());
         Ok(string)
     }
 
-- 
2.43.0


From c33cd4b24df3c3e5edb555511795032b67cab0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 15/45] fix: clearing a process analysis forgets the number of
 points

---
 src/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index b1c8fcd..49e606e 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -1149,6 +1149,7 @@ impl Analysis for ProcessAnalysis{
     fn clear(&mut self){
         self.long_term_mean = 0f64;
         self.long_term_stddev = 0f64;
+        self.tot_point = 0;
         self.ensemble = 0;
 
         self.mean = vec![0f64; self.num_bin];
-- 
2.43.0


From 4e9a1be66dc1c22b36e0b7387da935bf4d9c8d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 16/45] fix: analysis reports unreadable arguments and data as
 errors

---
 src/analysis.rs | 55 +++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 49e606e..92bed9b 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -514,9 +514,9 @@ impl Analysis for TimeAnalysis{
         match args.len(){
             4 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                num_bin  = args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                num_bin  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
 
                 let bin_info =  Self::convert_num_bin_to_bin_size(min_time, max_time, num_bin)?;
@@ -525,10 +525,10 @@ impl Analysis for TimeAnalysis{
             },
             5 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                bin_size = args[idx].parse().unwrap();      idx+=1;
-                lbin_size= args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                bin_size = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                lbin_size= args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
             },
             _ => {
@@ -594,7 +594,7 @@ impl Analysis for TimeAnalysis{
 
             for line in lines{
                 let line = line.map_err(Error::make_error_io)?;
-                let time : f64 = line.trim().parse().unwrap();
+                let time : f64 = line.trim().parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFormat))?;
                 analysis.add_ensemble(time);
             }
 
@@ -873,10 +873,10 @@ impl Analysis for TimeVecAnalysis{
         match args.len(){
             5 => {
                 let mut idx : usize = 0;
-                num_var  = args[idx].parse().unwrap();      idx+=1;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                num_bin  = args[idx].parse().unwrap();      idx+=1;
+                num_var  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                num_bin  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
 
                 let bin_info =  Self::convert_num_bin_to_bin_size(min_time, max_time, num_bin)?;
@@ -885,11 +885,11 @@ impl Analysis for TimeVecAnalysis{
             },
             6 => {
                 let mut idx : usize = 0;
-                num_var  = args[idx].parse().unwrap();      idx+=1;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                bin_size = args[idx].parse().unwrap();      idx+=1;
-                lbin_size= args[idx].parse().unwrap();      idx+=1;
+                num_var  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                bin_size = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                lbin_size= args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
             },
             _ => {
@@ -955,7 +955,12 @@ impl Analysis for TimeVecAnalysis{
 
             for line in lines{
                 let line = line.map_err(Error::make_error_io)?;
-                let values = line.trim().split_whitespace().map(|x| x.parse::<f64>().unwrap()).collect();
+                let values = line.trim().split_whitespace()
+                                 .map(|x| x.parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFormat)))
+                                 .collect::<Result<Vec<f64>, Error>>()?;
+                if analysis.num_var != 0 && values.len() != analysis.num_var{
+                    return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
+                }
                 analysis.add_ensemble(values);
             }
 
@@ -1250,9 +1255,9 @@ impl Analysis for ProcessAnalysis{
         match args.len(){
             4 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                num_bin  = args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                num_bin  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
 
                 let bin_info =  Self::convert_num_bin_to_bin_size(min_time, max_time, num_bin)?;
@@ -1261,10 +1266,10 @@ impl Analysis for ProcessAnalysis{
             },
             5 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                bin_size = args[idx].parse().unwrap();      idx+=1;
-                lbin_size= args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                bin_size = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                lbin_size= args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
             },
             _ => {
-- 
2.43.0


From 2348fdc1a92b56f6e574a5128a8451eeca933b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 17/45] fix: time analysis skips data files without data

---
 src/analysis.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index 92bed9b..09283db 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -602,6 +602,9 @@ impl Analysis for TimeAnalysis{
         }
 
         for (dataset, analysis) in hashmap.iter_mut(){
+            if analysis.ensemble == 0{
+                continue;
+            }
             analysis.draw();
 
             let hist_filename = dataset.export_file_removed_idx(prefix);
-- 
2.43.0


From 41af86174eee0b0820219fda78384ba9b8bff6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 18/45] fix: increase ratio of exponential time step is larger
 than one for any length

---
 src/time_mod/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index bc4bcaa..ab3d32b 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -214,7 +214,7 @@ impl ExponentialStep{
         }
 
         let inc : f64;
-        if length == 1{
+        if length <= 2{
             inc = 1.2f64;
         }
         else if length < 10{
@@ -241,12 +241,8 @@ impl ExponentialStep{
         }
         match self.titype{
             TimeType::Exponential(_min, _max, length) =>{
-                if inc * 2f64 > length as f64{
-                    self.inc = (length as f64) / 2f64;
-                }
-                else{
-                    self.inc = inc;
-                }
+                // Upper limit should be larger than 1 even for short length
+                self.inc = inc.min((length as f64 / 2f64).max(1.2f64));
             }
             _ => {
                 return Err(Error::make_error_syntax(ErrorCode::InvalidType));
-- 
2.43.0


From e2508b79f0b6231aa1f1bccd5f01561199932119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 19/45] fix: arguments rejected by constructors are rejected in
 conversion too

---
 src/system_mod/cont_cyl.rs | 2 +-
 src/time_mod/mod.rs        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index 39d9148..289abf8 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -53,7 +53,7 @@ impl ContCylindricalSystem{
                 panic!("{:?}", ErrorCode::InvalidArgumentInput);
             },
         };
-        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || argument.sys_radius < 0f64 ||
+        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || argument.sys_radius <= 0f64 ||
                 argument.sys_length <= 0f64 || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index ab3d32b..8651087 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -174,7 +174,7 @@ impl ConstStep{
     pub fn convert_from(argument : &ConstStepArguments) -> Self{
         let tmax : f64;
 
-        if argument.tmax < 0f64 || argument.dt < 0f64{
+        if argument.tmax < 0f64 || argument.dt < 1e-15{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
         else if argument.tmax < 1e-10{
@@ -343,7 +343,7 @@ impl ExponentialStep{
         let length : usize = argument.length;
         let mut tmax : f64 = argument.tmax;
 
-        if tmax < 0f64 || dt_min < 0f64
+        if tmax < 0f64 || dt_min < 1e-15
             || dt_min > dt_max || length < 10{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
-- 
2.43.0


From e3d0f96a55ab83fe150643e566ca3719605802b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 20/45] fix: small time limit of constant time step is not
 ignored

---
 src/time_mod/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index 8651087..1dc5e31 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -133,7 +133,7 @@ impl TimeIterator for ConstStep{
         if tmax < 0f64{
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
-        else if tmax < 1e-10{
+        else if tmax < 1e-15{
             self.tmax = std::f64::MAX;
         }
         else{
@@ -177,7 +177,7 @@ impl ConstStep{
         if argument.tmax < 0f64 || argument.dt < 1e-15{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
-        else if argument.tmax < 1e-10{
+        else if argument.tmax < 1e-15{
             tmax = std::f64::MAX;
         }
         else{
-- 
2.43.0


From 5322a9ddcb38a6460b46eccf8e3e96fa1719cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 21/45] fix: refused merge leaves every cluster unchanged

---
 src/agent_mod/cont_passive_merge.rs |  4 ++--
 src/iterator.rs                     | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/agent_mod/cont_passive_merge.rs b/src/agent_mod/cont_passive_merge.rs
index 74157e0..6c6e687 100644
--- a/src/agent_mod/cont_passive_merge.rs
+++ b/src/agent_mod/cont_passive_merge.rs
@@ -225,9 +225,9 @@ impl Passive<f64, f64> for ContPassiveMergeAgent{
 
 impl Merge for ContPassiveMergeAgent{
     fn merge(&mut self, other : &Self) -> Result<(), Error>{
-        self.size = self.size + other.size;
         match self.mtype{
             MoveType::Brownian(_c) =>{
+                self.size = self.size + other.size;
                 let coeff = (self.size as f64).powf(-self.alpha);
                 self.mtype = MoveType::Brownian(coeff);
                 Ok(())
@@ -243,9 +243,9 @@ impl Merge for ContPassiveMergeAgent{
     }
 
     fn add_size(&mut self, size : usize) -> Result<(), Error>{
-        self.size = self.size + size;
         match self.mtype{
             MoveType::Brownian(_c) =>{
+                self.size = self.size + size;
                 let coeff = (self.size as f64).powf(-self.alpha);
                 self.mtype = MoveType::Brownian(coeff);
                 Ok(())
diff --git a/src/iterator.rs b/src/iterator.rs
index 88c25e9..f179ab4 100644
--- a/src/iterator.rs
+++ b/src/iterator.rs
@@ -314,6 +314,16 @@ impl<T> LinkedList<T>{
 impl<M : Merge> LinkedList<M>{
     #[allow(dead_code)]
     pub fn merge(&mut self, idx1 : usize, idx2 : usize) -> Result<(), Error>{
+        // Check all before changing anything
+        for &idx in &[idx1, idx2]{
+            if self.links.len() <= idx || self.links[idx].alive == false{
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
+        }
+        if idx1 == idx2{
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
+
         let size : usize = self.contents[idx2].size();
         self.contents[idx1].add_size(size)?;
         self.del(idx2)?;
-- 
2.43.0


From dd2627de22c4353151f939a0a1ac9c540c09e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 22/45] fix: deletion during pair traversal neither skips nor
 repeats pairs

---
 src/iterator.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/iterator.rs b/src/iterator.rs
index f179ab4..71d62b4 100644
--- a/src/iterator.rs
+++ b/src/iterator.rs
@@ -120,12 +120,6 @@ impl<T> LinkedList<T>{
         self.links[idx].alive = false;
         let node = self.links[idx];
 
-        for c in &mut self.current{
-            if *c == Some(idx){
-                *c = node.next;
-            }
-        }
-
         match node.prev{
             Some(prev) => {self.links[prev].next = node.next;},
             None => {self.head = node.next;},
@@ -136,6 +130,20 @@ impl<T> LinkedList<T>{
             None => {self.tail = node.prev;},
         }
 
+        // Move cursors away from the deleted node
+        if self.current[0] == Some(idx){
+            self.current[0] = node.next;
+            self.current[1] = node.next.map_or(None, |x| self.links[x].next);
+        }
+        else if self.current[1] == Some(idx){
+            self.current[1] = node.next;
+            if node.next == None{
+                // No more pairs with the first one
+                self.current[0] = self.current[0].map_or(None, |x| self.links[x].next);
+                self.current[1] = self.current[0].map_or(None, |x| self.links[x].next);
+            }
+        }
+
         Ok(())
     }
 
@@ -181,6 +189,7 @@ impl<T> LinkedList<T>{
     #[allow(dead_code)]
     pub fn into_iter(&mut self){
         self.current[0] = self.head;
+        self.current[1] = None;
     }
 
     pub fn into_double_iter(&mut self){
-- 
2.43.0


From c057e5703a58dd477b773b94989cf2bb6091f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 23/45] fix: merged cluster scales the diffusion coefficient of
 its agent

---
 src/agent_mod/cont_passive_merge.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/agent_mod/cont_passive_merge.rs b/src/agent_mod/cont_passive_merge.rs
index 6c6e687..e1af565 100644
--- a/src/agent_mod/cont_passive_merge.rs
+++ b/src/agent_mod/cont_passive_merge.rs
@@ -89,10 +89,11 @@ impl ContPassiveMergeAgent{
             }
         }
 
-        self.size = 1;
         match self.mtype{
-            MoveType::Brownian(_c) =>{
-                let coeff = (self.size as f64).powf(-self.alpha);
+            MoveType::Brownian(c) =>{
+                // Return to the diffusion coefficient of a single ptl
+                let coeff = c * (self.size as f64).powf(self.alpha);
+                self.size = 1;
                 self.mtype = MoveType::Brownian(coeff);
             },
             _ => {
@@ -226,9 +227,10 @@ impl Passive<f64, f64> for ContPassiveMergeAgent{
 impl Merge for ContPassiveMergeAgent{
     fn merge(&mut self, other : &Self) -> Result<(), Error>{
         match self.mtype{
-            MoveType::Brownian(_c) =>{
+            MoveType::Brownian(c) =>{
+                let single = c * (self.size as f64).powf(self.alpha);      // Coefficient of a single ptl
                 self.size = self.size + other.size;
-                let coeff = (self.size as f64).powf(-self.alpha);
+                let coeff = single * (self.size as f64).powf(-self.alpha);
                 self.mtype = MoveType::Brownian(coeff);
                 Ok(())
             },
@@ -244,9 +246,10 @@ impl Merge for ContPassiveMergeAgent{
 
     fn add_size(&mut self, size : usize) -> Result<(), Error>{
         match self.mtype{
-            MoveType::Brownian(_c) =>{
+            MoveType::Brownian(c) =>{
+                let single = c * (self.size as f64).powf(self.alpha);      // Coefficient of a single ptl
                 self.size = self.size + size;
-                let coeff = (self.size as f64).powf(-self.alpha);
+                let coeff = single * (self.size as f64).powf(-self.alpha);
                 self.mtype = MoveType::Brownian(coeff);
                 Ok(())
             },
-- 
2.43.0


From 58e0beed75dcc40b80af7bc5b592a4d366487d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 24/45] fix: distance of integer positions does not overflow

---
 src/position.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index 85b01e0..0f47cd5 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -185,7 +185,8 @@ impl Position<i32>{
 
         let mut r : f64 = 0.0f64;
         for (&x, &y) in self.iter().zip(other.iter()){
-            r += ((x - y) *  (x - y)) as f64;
+            let d = x as f64 - y as f64;
+            r += d * d;
         }
         return Ok(r.sqrt());
     }
-- 
2.43.0


From 88bdfce5774013381bce1b0602a41262176868f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 25/45] fix: unreadable components of a position are rejected
 instead of read as zero

---
 src/position.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 0f47cd5..d414e4b 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -123,8 +123,8 @@ impl<T : FromStr + Default + Clone> FromStr for Position<T>{
                                  .split(|c| c == ',' || c == ':')
                                  .collect();
         let coords: Vec<T> = coords.iter()
-                                     .map(|x| x.parse::<T>().map_or(Default::default(), |v| v))
-                                     .collect();
+                                     .map(|x| x.trim().parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)))
+                                     .collect::<Result<Vec<T>, Self::Err>>()?;
         return Ok(Position::<T>::new(coords));
     }
 }
-- 
2.43.0


From 93a7b3510435b619694d427b2865f3de58bd6482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 26/45] fix: displacement of wrong dimension is rejected before
 moving

---
 src/system_mod/cont_circ.rs  | 12 ++++++++++++
 src/system_mod/cont_cubic.rs |  4 ++++
 src/system_mod/cont_cyl.rs   |  4 ++++
 3 files changed, 20 insertions(+)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index 8b3f5ef..76cb523 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -80,6 +80,10 @@ impl SystemCore<f64> for ContCircSystem{
         // pos : initial position of ptl
         // dp : displacement of ptl
 
+        if self.dim != pos.dim() || self.dim != dp.dim(){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         pos.mut_add(dp);                           // add dp to pos
         if self.check_inclusion(pos)?{              // if ptl is still in the system after movement
             return Ok(());                          // return
@@ -175,6 +179,10 @@ pub fn check_bc_exact(sys: ContCircSystem, pos: &mut Position<f64>, dp: &mut Pos
     // pos : initial position of ptl
     // dp : displacement of ptl
 
+    if sys.dim != pos.dim() || sys.dim != dp.dim(){
+        return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+    }
+
     pos.mut_add(dp);
     if sys.check_inclusion(pos)?{
         return Ok(());
@@ -203,6 +211,10 @@ pub fn check_bc_first_order(sys: ContCircSystem, pos: &mut Position<f64>, dp: &m
     // 위의 정확한 계산에서 dp가 작고, pos이 경계에 가깝단 조건에서 first order만 남긴 결과
     // 비례로 줄여들어오는 것보다 오히려 더 안좋다.
 
+    if sys.dim != pos.dim() || sys.dim != dp.dim(){
+        return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+    }
+
     pos.mut_add(dp);
     if sys.check_inclusion(pos)?{
         return Ok(());
diff --git a/src/system_mod/cont_cubic.rs b/src/system_mod/cont_cubic.rs
index 1ae66dd..6cb410e 100644
--- a/src/system_mod/cont_cubic.rs
+++ b/src/system_mod/cont_cubic.rs
@@ -91,6 +91,10 @@ impl SystemCore<f64> for ContCubicSystem{
         // pos : initial position of ptl
         // dp : displacement of ptl
 
+        if self.dim != pos.dim() || self.dim != dp.dim(){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         pos.mut_add(dp);                           // add dp to pos
         if self.check_inclusion(pos)?{              // if ptl is still in the system after movement
             return Ok(());                          // return
diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index 289abf8..aae3d1f 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -112,6 +112,10 @@ impl SystemCore<f64> for ContCylindricalSystem{
         // pos : initial position of ptl
         // dp : displacement of ptl
 
+        if self.dim != pos.dim() || self.dim != dp.dim(){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         pos.mut_add(dp);                           // add dp to pos
         if self.check_inclusion(pos)?{              // if ptl is still in the system after movement
             return Ok(());                          // return
-- 
2.43.0


From e2cfa1455512a805106a052270cc2a8856285515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 27/45] fix: deletion during plain traversal does not start a
 pair traversal

---
 src/iterator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iterator.rs b/src/iterator.rs
index 71d62b4..c486fd0 100644
--- a/src/iterator.rs
+++ b/src/iterator.rs
@@ -133,7 +133,9 @@ impl<T> LinkedList<T>{
         // Move cursors away from the deleted node
         if self.current[0] == Some(idx){
             self.current[0] = node.next;
-            self.current[1] = node.next.map_or(None, |x| self.links[x].next);
+            if self.current[1] != None{                 // only a pair traversal has the second cursor
+                self.current[1] = node.next.map_or(None, |x| self.links[x].next);
+            }
         }
         else if self.current[1] == Some(idx){
             self.current[1] = node.next;
-- 
2.43.0


From f798eda566104d21c5566b870a0042563725e5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 28/45] fix: split dimension is read only after the printed 0..
 prefix

---
 src/system_mod/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system_mod/mod.rs b/src/system_mod/mod.rs
index 321f440..01616d1 100644
--- a/src/system_mod/mod.rs
+++ b/src/system_mod/mod.rs
@@ -76,7 +76,7 @@ impl FromStr for SystemType{
                     "Circular" => Ok(SystemType::ContinuousCircular),
                     "Rectangular" => Ok(SystemType::ContinuousRectangular),
                     "Cylindrical" => {
-                        let d = split.get(3).and_then(|s| s.get(3..)).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                        let d = split.get(3).and_then(|s| s.strip_prefix("0..")).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                         Ok(SystemType::ContinuousCylindrical(d))
                     }
                     _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
@@ -140,7 +140,7 @@ impl FromStr for BoundaryCond{
             "Reflective"    => Ok(BoundaryCond::Reflection),
             "Periodic"      => Ok(BoundaryCond::Periodic),
             "Mixed"         => {
-                let x = split.get(3).and_then(|s| s.get(3..)).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let x = split.get(3).and_then(|s| s.strip_prefix("0..")).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(BoundaryCond::Mixed(x))
             },
             string => {
-- 
2.43.0


From 9cd709cc41f67a0f50f4bd9c72c65befd5591a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 29/45] fix: trailing text after a numeric shape or boundary
 condition is refused

---
 src/system_mod/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/system_mod/mod.rs b/src/system_mod/mod.rs
index 01616d1..bffe8ac 100644
--- a/src/system_mod/mod.rs
+++ b/src/system_mod/mod.rs
@@ -86,7 +86,7 @@ impl FromStr for SystemType{
             "Network" => Ok(SystemType::Network),
             "Circular" => Ok(SystemType::ContinuousCircular),
             "Rectangular" => Ok(SystemType::ContinuousRectangular),
-            string =>{
+            string if split.len() == 1 =>{
                 let d = string.parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 if d <= 0{
                     Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput))
@@ -94,7 +94,8 @@ impl FromStr for SystemType{
                 else{
                     Ok(SystemType::ContinuousCylindrical(d))
                 }
-            }
+            },
+            _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
         }
     }
 }
@@ -143,7 +144,7 @@ impl FromStr for BoundaryCond{
                 let x = split.get(3).and_then(|s| s.strip_prefix("0..")).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(BoundaryCond::Mixed(x))
             },
-            string => {
+            string if split.len() == 1 => {
                 let x = string.parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 if x <= 0{
                     Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput))
@@ -152,6 +153,7 @@ impl FromStr for BoundaryCond{
                     Ok(BoundaryCond::Mixed(x))
                 }
             },
+            _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
         }
     }
 }
-- 
2.43.0


From 7613924a3b277cd472944af34238ae38244cb402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 30/45] fix: a blank data line is refused when the number of
 variables is taken from the data

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 09283db..a02a6dd 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -961,7 +961,7 @@ impl Analysis for TimeVecAnalysis{
                 let values = line.trim().split_whitespace()
                                  .map(|x| x.parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFormat)))
                                  .collect::<Result<Vec<f64>, Error>>()?;
-                if analysis.num_var != 0 && values.len() != analysis.num_var{
+                if values.is_empty() || (analysis.num_var != 0 && values.len() != analysis.num_var){
                     return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
                 }
                 analysis.add_ensemble(values);
-- 
2.43.0


From fe47347e7360dbaebb5d4e0af50c0a0b22a23c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 31/45] fix: exponential agent renewed in another dimension
 states that dimension in its interaction

---
 src/agent_mod/cont_passive_exp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/agent_mod/cont_passive_exp.rs b/src/agent_mod/cont_passive_exp.rs
index d0819f0..2caff31 100644
--- a/src/agent_mod/cont_passive_exp.rs
+++ b/src/agent_mod/cont_passive_exp.rs
@@ -129,6 +129,7 @@ impl ContPassiveExpAgent{
             Err(_) => {
                 self.pos = sys.position_out_of_system();
                 self.exp_dim = self.pos.dim();
+                self.int_type = InteractType::Exponential(self.exp_dim, self.gamma);
 
                 let (coeff_pot, coeff_force) = Self::coeff(self.exp_dim, self.gamma, self.strength)?;
                 self.coeff_pot = coeff_pot;
-- 
2.43.0


From d2999de2c9163a120c6bc0dff5680394a3228300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:37 +0000
Subject: [PATCH 32/45] fix: an analysis whose summary could not be written in
 full ended with success

---
 src/analysis.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index a02a6dd..c58e810 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -484,7 +484,7 @@ impl Analysis for TimeAnalysis{
 
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
         // Export datas
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
@@ -612,6 +612,7 @@ impl Analysis for TimeAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
@@ -844,7 +845,7 @@ impl Analysis for TimeVecAnalysis{
     // export data to summary file
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
 
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
@@ -981,6 +982,7 @@ impl Analysis for TimeVecAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
@@ -1227,7 +1229,7 @@ impl Analysis for ProcessAnalysis{
     // export data to summary file
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
 
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
@@ -1360,6 +1362,7 @@ impl Analysis for ProcessAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
-- 
2.43.0


From 109f39ab1c4703358ea0cb17089718665c3c4708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:54 +0000
Subject: [PATCH 33/45] fix: systems with a size that is not a number were
 accepted

---
 src/system_mod/cont_circ.rs  | 4 ++--
 src/system_mod/cont_cubic.rs | 4 ++--
 src/system_mod/cont_cyl.rs   | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index 76cb523..d0228c3 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -16,7 +16,7 @@ impl ContCircSystem{
         // r : radius of system
         // dim : dimension of system
 
-        if r <= 0f64 || dim == 0{
+        if !(r > 0f64) || dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
@@ -39,7 +39,7 @@ impl ContCircSystem{
     #[allow(dead_code)]
     pub fn convert_from(argument : &ContCircSystemArguments) -> Self{
 
-        if argument.sys_size <= 0f64 || argument.dim == 0{
+        if !(argument.sys_size > 0f64) || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
diff --git a/src/system_mod/cont_cubic.rs b/src/system_mod/cont_cubic.rs
index 6cb410e..c6c0d77 100644
--- a/src/system_mod/cont_cubic.rs
+++ b/src/system_mod/cont_cubic.rs
@@ -16,7 +16,7 @@ impl ContCubicSystem{
         // length : length, width, height of system
         // dim : dimension of system
 
-        if length <= 0f64 || dim ==0 {
+        if !(length > 0f64) || dim ==0 {
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
@@ -45,7 +45,7 @@ impl ContCubicSystem{
     #[allow(dead_code)]
     pub fn convert_from(argument : &ContCubicSystemArguments) -> Self{
 
-        if argument.sys_size <= 0f64 || argument.dim == 0{
+        if !(argument.sys_size > 0f64) || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index aae3d1f..30c68cf 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -17,7 +17,7 @@ impl ContCylindricalSystem{
         // length : length, width, height of system
         // dim : dimension of system
 
-        if cyl_dim > dim || sys_radius <= 0f64 || sys_length <= 0f64 || dim == 0{
+        if cyl_dim > dim || !(sys_radius > 0f64) || !(sys_length > 0f64) || dim == 0{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
 
@@ -53,8 +53,8 @@ impl ContCylindricalSystem{
                 panic!("{:?}", ErrorCode::InvalidArgumentInput);
             },
         };
-        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || argument.sys_radius <= 0f64 ||
-                argument.sys_length <= 0f64 || argument.dim == 0{
+        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || !(argument.sys_radius > 0f64) ||
+                !(argument.sys_length > 0f64) || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
-- 
2.43.0


From e2fe126007640bc9e015d6f2af0c8e26d81c981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:55 +0000
Subject: [PATCH 34/45] fix: clocks accepted steps, limits and ratios that are
 not numbers

---
 src/time_mod/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index 1dc5e31..3f3faee 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -104,7 +104,7 @@ pub struct ConstStep{
 impl ConstStep{
     #[allow(dead_code)]
     pub fn new(dt : f64) -> Result<Self, Error>{
-        if dt < 1e-15{
+        if !(dt >= 1e-15){
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
         Ok(Self{
@@ -130,7 +130,7 @@ impl TimeIterator for ConstStep{
     }
 
     fn set_tmax(&mut self, tmax : f64) -> Result<(), Error>{
-        if tmax < 0f64{
+        if !(tmax >= 0f64){
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
         else if tmax < 1e-15{
@@ -174,7 +174,7 @@ impl ConstStep{
     pub fn convert_from(argument : &ConstStepArguments) -> Self{
         let tmax : f64;
 
-        if argument.tmax < 0f64 || argument.dt < 1e-15{
+        if !(argument.tmax >= 0f64) || !(argument.dt >= 1e-15){
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
         else if argument.tmax < 1e-15{
@@ -209,7 +209,7 @@ pub struct ExponentialStep{
 impl ExponentialStep{
     #[allow(dead_code)]
     pub fn new(dt_min : f64, dt_max : f64, length : usize) -> Result<Self, Error>{
-        if dt_min < 1e-15 || dt_min > dt_max || length == 0{
+        if !(dt_min >= 1e-15) || !(dt_min <= dt_max) || length == 0{
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
 
@@ -236,7 +236,7 @@ impl ExponentialStep{
 
     #[allow(dead_code)]
     pub fn set_inc(&mut self, inc : f64) -> Result<(), Error>{
-        if inc <= 1f64{
+        if !(inc > 1f64){
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
         match self.titype{
@@ -278,7 +278,7 @@ impl TimeIterator for ExponentialStep{
     }
 
     fn set_tmax(&mut self, tmax : f64) -> Result<(), Error>{
-        if tmax < 0f64{
+        if !(tmax >= 0f64){
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
         else if tmax < 1e-15{
@@ -343,8 +343,8 @@ impl ExponentialStep{
         let length : usize = argument.length;
         let mut tmax : f64 = argument.tmax;
 
-        if tmax < 0f64 || dt_min < 1e-15
-            || dt_min > dt_max || length < 10{
+        if !(tmax >= 0f64) || !(dt_min >= 1e-15)
+            || !(dt_min <= dt_max) || length < 10{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
         else if tmax < 1e-15{
-- 
2.43.0


From 4a8ed2597beb7369aa1af4d6f6a3d698053f7b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:36 +0000
Subject: [PATCH 35/45] fix: bins that are not finite numbers or have no range
 were accepted, values that are not numbers were counted

---
 src/analysis.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index c58e810..a4da1a0 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -153,7 +153,8 @@ macro_rules! construct_trait_bin {
 () => {
         #[allow(dead_code)]
         fn update_from_bin_size(&mut self, min_time : f64, max_time : f64, bin_size : f64, lbin_size : f64) -> Result<(), Error>{
-            if min_time < 0f64 || max_time < min_time || bin_size <= 0f64 || lbin_size <= 1f64{
+            let finite = max_time.is_finite() && bin_size.is_finite() && lbin_size.is_finite();
+            if !(finite && min_time >= 0f64) || max_time < min_time || bin_size <= 0f64 || lbin_size <= 1f64{
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
@@ -179,7 +180,7 @@ macro_rules! construct_trait_bin {
 
         #[allow(dead_code)]
         fn update_from_num_bin(&mut self, min_time : f64, max_time : f64, num_bin : usize) -> Result<(), Error>{
-            if min_time < 0f64 || max_time < min_time || num_bin < 10{
+            if !(max_time.is_finite() && min_time >= 0f64) || max_time < min_time || num_bin < 10{
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
@@ -203,7 +204,7 @@ macro_rules! construct_trait_bin {
         }
 
         fn convert_num_bin_to_bin_size(min_time : f64, max_time : f64, num_bin : usize) -> Result<(f64, f64), Error>{
-            if min_time < 0f64 || max_time < min_time || num_bin < 10{
+            if !(max_time.is_finite() && min_time >= 0f64) || max_time < min_time || num_bin < 10{
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
@@ -217,12 +218,17 @@ macro_rules! construct_trait_bin {
 
             let bin_size : f64 = (max_time - time) / (num_bin as f64);
             let lbin_size : f64 = (max_time / time).powf(1f64 / (num_bin as f64));
+
+            // The range is too short to be divided into bins
+            if bin_size <= 0f64 || lbin_size <= 1f64{
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
             return Ok((bin_size, lbin_size));
         }
 
         #[allow(dead_code)]
         fn bin_pos(&self, fpt : f64) -> Option<usize>{
-            if fpt < self.min_time || self.max_time < fpt{
+            if !(self.min_time <= fpt && fpt <= self.max_time){
                 return None;
             }
             else{
@@ -234,7 +240,7 @@ macro_rules! construct_trait_bin {
 
         #[allow(dead_code)]
         fn lbin_pos(&self, fpt : f64) -> Option<usize>{
-            if fpt < self.min_time || self.max_time < fpt{
+            if !(self.min_time <= fpt && fpt <= self.max_time){
                 return None;
             }
             else{
-- 
2.43.0


From 80ecb7391479901ba1ff8d808657e2a224d24ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:40 +0000
Subject: [PATCH 36/45] fix: configuration lines are read under their own names
 only

---
 src/argument.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argument.rs b/src/argument.rs
index d703231..fdab99f 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -147,7 +147,7 @@ macro_rules! impl_fn_read_args_from_lines{
                             let split : Vec<String> = list.splitn(2, ":")
                                                           .map(|s| s.to_string())
                                                           .collect();
-                            if split.len() != 2{
+                            if split.len() != 2 || split[0].trim() != stringify!($var){
                                 return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
                             }
                             let val_string : &str = &split[1].trim();
-- 
2.43.0


From 488eb7e427006fafa0842096ed3b79216132865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:06 +0000
Subject: [PATCH 37/45] fix: initialisations were read from sentences with any
 first word

---
 src/agent_mod/types.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/agent_mod/types.rs b/src/agent_mod/types.rs
index 9df8f10..668dbf6 100644
--- a/src/agent_mod/types.rs
+++ b/src/agent_mod/types.rs
@@ -233,6 +233,9 @@ impl<T : FromStr + Default + Clone> FromStr for InitType<T>{
             }
         }
         else{
+            if *split.get(0).unwrap_or(&"") != "Initialize"{
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
             match *split.get(1).unwrap_or(&""){
                 "all" => Ok(InitType::<T>::SpecificPosition(split.get(4).unwrap_or(&"").parse::<Position<T>>()?)),
                 "agents" => Ok(InitType::<T>::Uniform),
-- 
2.43.0


From 951ea066c3063396ffa438bf36f22062ceda17ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:42 +0000
Subject: [PATCH 38/45] fix: data sets whose integer parameters differ beyond
 2^53 were the same key

---
 src/macros.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/macros.rs b/src/macros.rs
index c765729..ff4c798 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -138,6 +138,8 @@ macro_rules! derive_hash{
                 $(
                     // Adding 0.0 merges the two zeros, every other value has its own bit pattern.
                     (self.$var as f64 + 0f64).to_bits().hash(state);
+                    // Integers beyond 2^53 have no f64 of their own.
+                    (self.$var as u128).hash(state);
                     )*
             }
         }
-- 
2.43.0


From 2e202b4addcb6143b3b0c3dde0e92976c5a5a3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:21 +0000
Subject: [PATCH 39/45] fix: analyses run at the same time shared a result
 directory, and a missing data directory was made and analysed

---
 src/analysis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index a4da1a0..0a296f5 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -563,7 +563,7 @@ impl Analysis for TimeAnalysis{
 
         let summary_file : String = format!("{}/brief_result.dat", summary_dir);
 
-        fs::create_dir_all(&summary_dir).map_err(Error::make_error_io)?;
+        fs::create_dir(&summary_dir).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/linear_distribution", &summary_dir)).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/logarithmic_distribution", &summary_dir)).map_err(Error::make_error_io)?;
 
@@ -928,7 +928,7 @@ impl Analysis for TimeVecAnalysis{
 
         let summary_file : String = format!("{}/brief_result.dat", summary_dir);
 
-        fs::create_dir_all(&summary_dir).map_err(Error::make_error_io)?;
+        fs::create_dir(&summary_dir).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/linear_distribution", &summary_dir)).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/logarithmic_distribution", &summary_dir)).map_err(Error::make_error_io)?;
 
@@ -1309,7 +1309,7 @@ impl Analysis for ProcessAnalysis{
 
         let summary_file : String = format!("{}/brief_data.dat", summary_dir);
 
-        fs::create_dir_all(&summary_dir).map_err(Error::make_error_io)?;
+        fs::create_dir(&summary_dir).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/linear_distribution", &summary_dir)).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/logarithmic_distribution", &summary_dir)).map_err(Error::make_error_io)?;
 
-- 
2.43.0


From 65167faff728b9a8868bce8a4f2911aa2a94a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:31 +0000
Subject: [PATCH 40/45] fix: a position that is not a number counted as inside
 every system, so an overflowing move was accepted

---
 src/system_mod/cont_circ.rs  | 2 +-
 src/system_mod/cont_cubic.rs | 2 +-
 src/system_mod/cont_cyl.rs   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index d0228c3..98f3b10 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -65,7 +65,7 @@ impl SystemCore<f64> for ContCircSystem{
 
         let r : f64 = pos.norm();   // distance between center and position
 
-        if r > self.sys_size{
+        if !(r <= self.sys_size){
             return Ok(false);
         }
         else{
diff --git a/src/system_mod/cont_cubic.rs b/src/system_mod/cont_cubic.rs
index c6c0d77..d11c85e 100644
--- a/src/system_mod/cont_cubic.rs
+++ b/src/system_mod/cont_cubic.rs
@@ -77,7 +77,7 @@ impl SystemCore<f64> for ContCubicSystem{
 
         let length = self.sys_size;
         for x in &pos.coordinate{
-            if x.abs() > length{
+            if !(x.abs() <= length){
                 return Ok(false);
             }
         }
diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index 30c68cf..745ca37 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -91,13 +91,13 @@ impl SystemCore<f64> for ContCylindricalSystem{
             r += *x * *x;
         }
         r = r.sqrt();
-        if r > sys_radius{
+        if !(r <= sys_radius){
             return Ok(false);
         }
 
         let sys_length = self.sys_length;
         for x in &pos[d..]{
-            if x.abs() > sys_length{
+            if !(x.abs() <= sys_length){
                 return Ok(false);
             }
         }
-- 
2.43.0


From ffdc3f189032f33c9bc408b187ae2e9497bce167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:36 +0000
Subject: [PATCH 41/45] fix: distances to or from exponential agents that are
 not placed yet panicked

---
 src/agent_mod/cont_passive_exp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/agent_mod/cont_passive_exp.rs b/src/agent_mod/cont_passive_exp.rs
index 2caff31..c155b5d 100644
--- a/src/agent_mod/cont_passive_exp.rs
+++ b/src/agent_mod/cont_passive_exp.rs
@@ -207,7 +207,7 @@ impl AgentCore<f64> for ContPassiveExpAgent{
 
      // Mutual displacement
     fn mutual_displacement(&self, other : &Self) -> Result<(Position<f64>, f64), Error>{
-        if self.exp_dim != other.exp_dim{
+        if self.exp_dim != other.exp_dim || self.pos.dim() != other.pos.dim(){
             return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
         }
         let mut disp : Position<f64> = &other.pos - &self.pos;
@@ -218,7 +218,8 @@ impl AgentCore<f64> for ContPassiveExpAgent{
 
     fn mutual_displacement_to_vec(&self, other : &Self, vec : &mut Position<f64>) -> Result<f64, Error>{
         // return distance, and direction vector on vec
-        if self.exp_dim != other.exp_dim || self.exp_dim != vec.dim() {
+        if self.exp_dim != other.exp_dim || self.exp_dim != vec.dim()
+            || self.exp_dim != self.pos.dim() || self.exp_dim != other.pos.dim() {   // agents not placed yet have no position
             return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
         }
 
-- 
2.43.0


From 3fc2d308a6ac754771aaae8329039dc6820ba2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:57 +0000
Subject: [PATCH 42/45] fix: a program given fewer arguments than it skips
 panicked instead of explaining its usage

---
 src/setup.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/setup.rs b/src/setup.rs
index 1f3e928..c8aba8a 100644
--- a/src/setup.rs
+++ b/src/setup.rs
@@ -6,7 +6,7 @@ use crate::prelude::*;
 // #[allow(unused_macros)]
 macro_rules! export_simulation_item{
     ($name_args:ident, $analysis:ty $(,$var:ty)*) =>{
-        eprint!("{} arguments given.\nGiven Arguments : ", $name_args.len() - NUM_SKIP);
+        eprint!("{} arguments given.\nGiven Arguments : ", $name_args.len().saturating_sub(NUM_SKIP));
         for x in $name_args.iter().skip(NUM_SKIP){
             eprint!("{}  ", x);
         }
@@ -80,10 +80,10 @@ macro_rules! setup_simulation{
         const NUM_SKIP : usize = $skip;
 
         define_total_num_args!($($struct_type),*);
-        if $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS || $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS + 1{
+        if $args.len().saturating_sub(NUM_SKIP) == <$analysis>::NUM_ARGS || $args.len().saturating_sub(NUM_SKIP) == <$analysis>::NUM_ARGS + 1{
                 return <$analysis>::analyze::<$dataset>(&$args[NUM_SKIP..], WIDTH, $prefix);
         }
-        else if $args.len() - NUM_SKIP != TOTAL_NUM_ARGS{
+        else if $args.len().saturating_sub(NUM_SKIP) != TOTAL_NUM_ARGS{
             export_simulation_item!($args, $analysis $(, $struct_type)*);
         }
 
@@ -102,10 +102,10 @@ macro_rules! setup_simulation_fixed{
 
         define_total_num_args!($($struct_type),*);
 
-        if $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS || $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS + 1{
+        if $args.len().saturating_sub(NUM_SKIP) == <$analysis>::NUM_ARGS || $args.len().saturating_sub(NUM_SKIP) == <$analysis>::NUM_ARGS + 1{
                 return <$analysis>::analyze::<$dataset>(&$args[NUM_SKIP..], WIDTH, $prefix);
         }
-        else if $args.len() - NUM_SKIP != TOTAL_NUM_ARGS{
+        else if $args.len().saturating_sub(NUM_SKIP) != TOTAL_NUM_ARGS{
             export_simulation_item!($args, $analysis $(, $struct_type)*);
         }
 
-- 
2.43.0


From d8cb76a539f17e1471acc7d16ce98e3c7349b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:20 +0000
Subject: [PATCH 43/45] fix: printing a position without components panicked

---
 src/position.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index d414e4b..25e7c02 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -357,9 +357,11 @@ impl<T: Display> Display for Position<T>{
     fn fmt(&self, f : &mut Formatter) -> fmt::Result{
         let mut string = String::new();
 
-        write!(&mut string, "{}", self.coordinate[0])?;
-        for x in self.iter().skip(1){
-            write!(&mut string, ",{}", x)?;
+        for (i, x) in self.iter().enumerate(){
+            if i > 0{
+                write!(&mut string, ",")?;
+            }
+            write!(&mut string, "{}", x)?;
         }
         write!(f, "{}", string)
     }
@@ -368,9 +370,10 @@ impl<T: Display> Display for Position<T>{
 impl<T: LowerExp> LowerExp for Position<T>{
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result{
         // write!(f, "(")?;
-        LowerExp::fmt(&self.coordinate[0], f)?;
-        for x in self.iter().skip(1){
-            write!(f, ",")?;
+        for (i, x) in self.iter().enumerate(){
+            if i > 0{
+                write!(f, ",")?;
+            }
             LowerExp::fmt(x, f)?;
         }
         // write!(f, ")")?;
-- 
2.43.0


From 74ef9dee4c21cbc833217c14fc5210c7a3c8a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:35 +0000
Subject: [PATCH 44/45] fix: brackets in the middle of a pair were dropped,
 joining the digits around them

---
 src/analysis.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 0a296f5..a27c636 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -1005,8 +1005,7 @@ impl<T> FromStr for Pair<T>
     type Err = crate::error::Error;
 
     fn from_str(s : &str) -> Result<Self, Self::Err>{
-        let mut trim = s.to_string();
-        trim.retain(|c| c != '(' && c != ')');
+        let trim = s.trim_matches(|c| c == '(' || c == ')');
         let splitted : Vec<T> = trim.split(',').map(|t| t.parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)))
                            .collect::<Result<Vec<T>, Self::Err>>()?;
         if splitted.len() != 2{
-- 
2.43.0


From cad51f6f93360903f57c0791fd48704544845c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:19 +0000
Subject: [PATCH 45/45] fix: column names as wide as the column ran into the
 next one in the summary header

---
 src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index ff4c798..0aaf6b6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -155,7 +155,7 @@ macro_rules! export_form{
         #[allow(dead_code)]
         fn $name(width: usize) -> String{
             let mut string = String::new();
-            $(string.push_str(format!("{}", format_args!("{0:<1$}", stringify!($var), width)).as_str());
+            $(string.push_str(format!("{}", format_args!("{0:<1$} ", stringify!($var), width.saturating_sub(1))).as_str());
                 )*
             return string;
         }
@@ -169,7 +169,7 @@ macro_rules! pub_export_form{
         #[allow(dead_code)]
         pub fn $name(width: usize) -> String{
             let mut string = String::new();
-            $(string.push_str(format!("{}", format_args!("{0:<1$}", stringify!($var), width)).as_str());
+            $(string.push_str(format!("{}", format_args!("{0:<1$} ", stringify!($var), width.saturating_sub(1))).as_str());
                 )*
             return string;
         }
-- 
2.43.0

