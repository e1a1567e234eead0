From d4ef133121171b1e03790b36476d7a2e5687df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 01/63] fix: count rate-limit checks that are rejected for an
 invalid key

---
 crates/sip-ratelimit/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index 08a6bee..6f7e1ff 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -518,6 +518,9 @@ impl RateLimiter {
     ///
     /// * `key` - Identifier for rate limiting (IP address, username, etc.)
     pub fn check_rate_limit(&self, key: &str) -> bool {
+        // Track total checks (including those rejected for an invalid key)
+        let check_count = self.metrics.total_checks.fetch_add(1, Ordering::Relaxed) + 1;
+
         // Validate key for security
         if let Err(e) = validate_key(key) {
             debug!(key, error = %e, "invalid rate limit key");
@@ -528,9 +531,6 @@ impl RateLimiter {
             return false;
         }
 
-        // Track total checks
-        let check_count = self.metrics.total_checks.fetch_add(1, Ordering::Relaxed) + 1;
-
         // If disabled, allow all requests
         if !self.config.enabled {
             self.metrics
-- 
2.43.0


From 8f5439b2a1c4424ae73a6b15e90a6da89162cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 02/63] fix: refill rate-limit tokens at the exact configured
 rate

---
 crates/sip-ratelimit/src/lib.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index 6f7e1ff..e959003 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -229,6 +229,12 @@ impl RateLimitConfig {
         self.tokens_per_refill
     }
 
+    /// Exact time for one token, rounded up to a nanosecond. The millisecond
+    /// figure is rounded down, so refilling by it would exceed the rate.
+    fn refill_interval_ns(&self) -> u64 {
+        (self.window_secs * 1_000_000_000).div_ceil(u64::from(self.max_requests.max(1)))
+    }
+
     pub fn idle_timeout_secs(&self) -> u64 {
         self.idle_timeout_secs
     }
@@ -370,13 +376,16 @@ impl TokenBucket {
 
         let now = Instant::now();
         let elapsed = now.duration_since(self.last_refill);
-        let refill_interval = Duration::from_millis(config.refill_interval_ms);
+        let interval_ns = u128::from(config.refill_interval_ns());
+        let intervals = elapsed.as_nanos() / interval_ns;
 
-        if elapsed >= refill_interval {
-            let intervals = elapsed.as_millis() / config.refill_interval_ms as u128;
+        if intervals > 0 {
             let tokens_to_add = (intervals as f64) * (config.tokens_per_refill as f64);
             self.tokens = (self.tokens + tokens_to_add).min(config.burst_capacity as f64);
-            self.last_refill = now;
+            // Keep the part of an interval that has already passed, otherwise
+            // a client polling between refills is slowed below its rate.
+            let partial_ns = elapsed.as_nanos() % interval_ns;
+            self.last_refill = now - Duration::from_nanos(partial_ns as u64);
         }
     }
 
@@ -732,7 +741,7 @@ impl RateLimiter {
         let time_to_full = if bucket.tokens < self.config.burst_capacity as f64 {
             let tokens_needed = self.config.burst_capacity as f64 - bucket.tokens;
             let refills_needed = (tokens_needed / self.config.tokens_per_refill as f64).ceil();
-            Duration::from_millis(refills_needed as u64 * self.config.refill_interval_ms)
+            Duration::from_nanos(refills_needed as u64 * self.config.refill_interval_ns())
         } else {
             Duration::from_secs(0)
         };
-- 
2.43.0


From 7de794f651e06283f31d1ce6a3484df38143785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 03/63] fix: consume a digest nonce count only after the digest
 has been verified

---
 crates/sip-auth/src/lib.rs | 45 ++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 7ac0788..c86a665 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -627,6 +627,22 @@ impl NonceManager {
         }
     }
 
+    /// What `verify_with_nc` would answer, without recording the use.
+    fn would_accept_nc(
+        &self,
+        value: &str,
+        nc: u32,
+        method: &Method,
+        uri: &str,
+        body: &[u8],
+    ) -> bool {
+        let Some(mut nonce) = self.nonces.get(value).map(|entry| entry.value().clone()) else {
+            return false;
+        };
+        nonce.is_valid()
+            && nonce.validate_nc_with_request(nc, method, uri, body, self.max_request_age)
+    }
+
     /// Basic verification without nonce-count tracking (for backwards compatibility).
     /// Use verify_with_nc() for proper replay protection.
     pub fn verify(&self, value: &str) -> bool {
@@ -808,6 +824,7 @@ struct DigestParams {
     nonce: SmolStr,
     uri: SmolStr,
     response: SmolStr,
+    nc: Option<u32>,
     nc_raw: Option<SmolStr>,
     cnonce: Option<SmolStr>,
     qop: Option<Qop>,
@@ -986,7 +1003,7 @@ impl<S> DigestAuthenticator<S> {
             return Ok(None);
         }
 
-        let _validated_nc = if let Some(nc_str) = nc {
+        let validated_nc = if let Some(nc_str) = nc {
             let nc_value = u32::from_str_radix(nc_str.as_str(), 16)
                 .map_err(|_| anyhow!("invalid nc format"))?;
 
@@ -1003,7 +1020,10 @@ impl<S> DigestAuthenticator<S> {
                 return Ok(None);
             }
 
-            if !self.nonce_manager.verify_with_nc(
+            // Only a check: the nonce count is consumed once the digest has
+            // been verified (see `consume_nonce`), so that a request with bad
+            // credentials cannot advance a legitimate client's nonce.
+            if !self.nonce_manager.would_accept_nc(
                 nonce,
                 nc_value,
                 request.method(),
@@ -1028,11 +1048,28 @@ impl<S> DigestAuthenticator<S> {
             nonce: nonce.clone(),
             uri: uri.clone(),
             response: response.clone(),
+            nc: validated_nc,
             nc_raw: nc.cloned(),
             cnonce: cnonce.cloned(),
             qop,
         }))
     }
+
+    /// Records the use of a nonce by a request whose digest is correct.
+    /// Returns false if the nonce has been used up or has expired since
+    /// `prepare_digest` looked at it.
+    fn consume_nonce(&self, request: &Request, params: &DigestParams) -> bool {
+        match params.nc {
+            Some(nc) => self.nonce_manager.verify_with_nc(
+                params.nonce.as_str(),
+                nc,
+                request.method(),
+                request.uri().as_str(),
+                request.body(),
+            ),
+            None => self.nonce_manager.verify(params.nonce.as_str()),
+        }
+    }
 }
 
 impl<S> DigestAuthenticator<S> {
@@ -1365,7 +1402,7 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
         Ok(constant_time_eq(
             response_calc.as_bytes(),
             params.response.as_bytes(),
-        ))
+        ) && self.consume_nonce(request, &params))
     }
 
     fn credentials_for(&self, _method: &Method, _uri: &str) -> Option<Credentials> {
@@ -1428,7 +1465,7 @@ impl<S: AsyncCredentialStore> DigestAuthenticator<S> {
         Ok(constant_time_eq(
             response_calc.as_bytes(),
             params.response.as_bytes(),
-        ))
+        ) && self.consume_nonce(request, &params))
     }
 }
 
-- 
2.43.0


From 51d45dae8037a9243f25a660f20da94f3c3091c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 04/63] fix: keep the nonce table within its cap, also for
 small caps and concurrent challenges

---
 crates/sip-auth/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index c86a665..cb657e1 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -42,7 +42,7 @@ use sip_parse::parse_authorization_header;
 use sip_ratelimit::RateLimiter;
 use smol_str::SmolStr;
 use std::fmt::Write;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 use subtle::ConstantTimeEq;
 use tokio::{runtime::Handle, task};
@@ -567,6 +567,9 @@ pub struct NonceManager {
     ttl: Duration,
     max_nonces: usize,
     max_request_age: Duration,
+    /// Serialises making room and inserting, so that concurrent callers
+    /// cannot overshoot `max_nonces` together.
+    generate_lock: Mutex<()>,
 }
 
 impl NonceManager {
@@ -576,6 +579,7 @@ impl NonceManager {
             ttl,
             max_nonces: MAX_NONCE_COUNT,
             max_request_age: DEFAULT_MAX_REQUEST_AGE,
+            generate_lock: Mutex::new(()),
         }
     }
 
@@ -590,13 +594,18 @@ impl NonceManager {
     }
 
     pub fn generate(&self) -> Nonce {
+        let _guard = self
+            .generate_lock
+            .lock()
+            .unwrap_or_else(|poisoned| poisoned.into_inner());
+
         // If we're at capacity, run cleanup before generating new nonce
         if self.nonces.len() >= self.max_nonces {
             self.cleanup();
 
             // If still at capacity after cleanup, remove oldest nonces
             if self.nonces.len() >= self.max_nonces {
-                self.remove_oldest(self.max_nonces / 10); // Remove 10% of capacity
+                self.remove_oldest((self.max_nonces / 10).max(1)); // Remove 10% of capacity
             }
         }
 
-- 
2.43.0


From a0d0d0888cae79ec7e733feed04dd4cbf0f2c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 05/63] fix: age nonces that were first used with nonce count
 zero

---
 crates/sip-auth/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index cb657e1..ce2dd77 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -485,9 +485,9 @@ impl Nonce {
         max_request_age: Duration,
     ) -> bool {
         // Reject requests that are significantly delayed (potential replay attack)
-        if self.last_nc > 0 && self.last_used.elapsed() > max_request_age {
-            // If this isn't the first request (last_nc > 0) and it's been too long
-            // since the last successful auth, reject as potential replay
+        if self.last_request_hash.is_some() && self.last_used.elapsed() > max_request_age {
+            // If this isn't the first request (a hash is stored; nc may be 0) and it's
+            // been too long since the last successful auth, reject as potential replay
             return false;
         }
         // Compute hash of request (method:uri:body bytes).
@@ -678,13 +678,13 @@ impl NonceManager {
     /// request *before* any digest comparison, so this query is the only
     /// signal that separates that rejection from a credential failure.
     ///
-    /// A nonce that has never authenticated (`last_nc == 0`) is never
+    /// A nonce that has never authenticated (no request hash) is never
     /// reported — the age gate does not apply to first use. Disjoint from
     /// [`Self::is_stale`] by construction (`is_valid()` is required here).
     pub fn reuse_window_exceeded(&self, value: &str) -> bool {
         if let Some(entry) = self.nonces.get(value) {
             entry.is_valid()
-                && entry.last_nc() > 0
+                && entry.last_request_hash().is_some()
                 && entry.last_used().elapsed() > self.max_request_age
         } else {
             false
-- 
2.43.0


From 9fb6c9d686237b0ac12e7298f83e898614f3bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 06/63] fix: restart the client nonce count when the server
 supplies a new nonce

---
 crates/sip-auth/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index ce2dd77..684d39e 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -1758,6 +1758,9 @@ pub struct DigestClient {
     password: String,
     #[zeroize(skip)]
     nc: u32,
+    /// The nonce `nc` counts for.
+    #[zeroize(skip)]
+    nc_nonce: SmolStr,
 }
 
 impl std::fmt::Debug for DigestClient {
@@ -1812,6 +1815,7 @@ impl DigestClient {
             username: SmolStr::new(username),
             password: password.to_string(),
             nc: 0,
+            nc_nonce: SmolStr::default(),
         }
     }
 
@@ -1828,6 +1832,11 @@ impl DigestClient {
         opaque: Option<&str>,
         body: &[u8],
     ) -> String {
+        // RFC 7616 §3.4: nc counts the requests sent with this nonce.
+        if self.nc_nonce != nonce {
+            self.nc = 0;
+            self.nc_nonce = SmolStr::new(nonce);
+        }
         self.nc = self.nc.saturating_add(1);
         let nc_str = format!("{:08x}", self.nc);
         let cnonce: String = rand::rng()
-- 
2.43.0


From 22e2760f04c75e7cfc99d1b0428e0a44e2ad0df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 07/63] fix: leave all bindings alone when a REGISTER is
 refused or fails part-way

---
 crates/sip-registrar/src/lib.rs | 151 +++++++++++++++++++++++++++++---
 1 file changed, 139 insertions(+), 12 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 34f7be2..7e90c95 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -36,6 +36,7 @@ use sip_core::{
 use sip_parse::{header, parse_to_header};
 use sip_ratelimit::RateLimiter;
 use smol_str::SmolStr;
+use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::{Duration, Instant};
 use tokio::{runtime::Handle, task};
@@ -1473,6 +1474,104 @@ impl std::fmt::Display for NormalizeError {
 
 impl std::error::Error for NormalizeError {}
 
+/// The changes a REGISTER makes to an AOR, in request order: the contact URI
+/// with its new binding, or with `None` for a removal.
+type ContactChanges = Vec<(SmolStr, Option<Binding>)>;
+
+impl<S: AsyncLocationStore, A> BasicRegistrar<S, A> {
+    async fn apply_changes_async(&self, aor: &str, changes: &ContactChanges) -> Result<()> {
+        for (contact, binding) in changes {
+            match binding {
+                Some(binding) => {
+                    self.store.upsert(binding.clone()).await?;
+                    info!(aor = %aor, contact = %contact, expires = %binding.expires.as_secs(), "REGISTER stored binding");
+                }
+                None => {
+                    self.store.remove(aor, contact.as_str()).await?;
+                    info!(aor = %aor, contact = %contact, "REGISTER removed binding");
+                }
+            }
+        }
+        Ok(())
+    }
+
+    /// Puts the touched contacts back to what they were before a REGISTER
+    /// that failed part-way.
+    async fn undo_changes_async(
+        &self,
+        aor: &str,
+        changes: &ContactChanges,
+        existing: &HashMap<SmolStr, Binding>,
+        looked_up_at: Instant,
+    ) {
+        let elapsed = looked_up_at.elapsed();
+        // New bindings go first: they may occupy the room the old ones need.
+        for (contact, _) in changes {
+            if !existing.contains_key(contact) {
+                if let Err(e) = self.store.remove(aor, contact.as_str()).await {
+                    warn!(aor = %aor, contact = %contact, "REGISTER undo failed: {}", e);
+                }
+            }
+        }
+        for (contact, _) in changes {
+            if let Some(binding) = existing.get(contact) {
+                let mut binding = binding.clone();
+                binding.expires = binding.expires.saturating_sub(elapsed);
+                if let Err(e) = self.store.upsert(binding).await {
+                    warn!(aor = %aor, contact = %contact, "REGISTER undo failed: {}", e);
+                }
+            }
+        }
+    }
+}
+
+impl<S: LocationStore, A> BasicRegistrar<S, A> {
+    fn apply_changes(&self, aor: &str, changes: &ContactChanges) -> Result<()> {
+        for (contact, binding) in changes {
+            match binding {
+                Some(binding) => {
+                    self.store.upsert(binding.clone())?;
+                    info!(aor = %aor, contact = %contact, expires = %binding.expires.as_secs(), "REGISTER stored binding");
+                }
+                None => {
+                    self.store.remove(aor, contact.as_str())?;
+                    info!(aor = %aor, contact = %contact, "REGISTER removed binding");
+                }
+            }
+        }
+        Ok(())
+    }
+
+    /// Puts the touched contacts back to what they were before a REGISTER
+    /// that failed part-way.
+    fn undo_changes(
+        &self,
+        aor: &str,
+        changes: &ContactChanges,
+        existing: &HashMap<SmolStr, Binding>,
+        looked_up_at: Instant,
+    ) {
+        let elapsed = looked_up_at.elapsed();
+        // New bindings go first: they may occupy the room the old ones need.
+        for (contact, _) in changes {
+            if !existing.contains_key(contact) {
+                if let Err(e) = self.store.remove(aor, contact.as_str()) {
+                    warn!(aor = %aor, contact = %contact, "REGISTER undo failed: {}", e);
+                }
+            }
+        }
+        for (contact, _) in changes {
+            if let Some(binding) = existing.get(contact) {
+                let mut binding = binding.clone();
+                binding.expires = binding.expires.saturating_sub(elapsed);
+                if let Err(e) = self.store.upsert(binding) {
+                    warn!(aor = %aor, contact = %contact, "REGISTER undo failed: {}", e);
+                }
+            }
+        }
+    }
+}
+
 impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
     /// Async variant of REGISTER handling for async storage backends.
     pub async fn handle_register_async(&self, request: &Request) -> Result<Response> {
@@ -1668,11 +1767,15 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
         };
 
         let existing = self.store.lookup(&aor).await?;
-        let mut existing_by_contact = std::collections::HashMap::new();
+        let looked_up_at = Instant::now();
+        let mut existing_by_contact = HashMap::new();
         for binding in existing {
             existing_by_contact.insert(SmolStr::new(binding.contact()), binding);
         }
 
+        // Validate every contact before touching the store, so that a request
+        // that is refused because of one of them leaves all bindings alone.
+        let mut changes: ContactChanges = Vec::with_capacity(contacts.len());
         for contact in &contacts {
             let contact_uri = match self.extract_contact_uri(contact.as_str()) {
                 Ok(uri) => uri,
@@ -1753,8 +1856,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             }
 
             if expires.as_secs() == 0 {
-                self.store.remove(&aor, contact_uri.as_str()).await?;
-                info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding");
+                changes.push((contact_uri, None));
             } else {
                 let mut binding =
                     Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)?
@@ -1775,11 +1877,16 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     binding = binding.with_reg_id(reg_id);
                 }
 
-                self.store.upsert(binding).await?;
-                info!(aor = %aor, contact = %contact_uri, expires = %expires.as_secs(), "REGISTER stored binding");
+                changes.push((contact_uri, Some(binding)));
             }
         }
 
+        if let Err(e) = self.apply_changes_async(&aor, &changes).await {
+            self.undo_changes_async(&aor, &changes, &existing_by_contact, looked_up_at)
+                .await;
+            return Err(e);
+        }
+
         let mut headers = Headers::new();
 
         if let Some(via) = request.headers().get("Via") {
@@ -1798,7 +1905,14 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             headers.push(SmolStr::new("CSeq"), cseq)?;
         }
 
-        let bindings = self.store.lookup(&aor).await?;
+        let bindings = match self.store.lookup(&aor).await {
+            Ok(bindings) => bindings,
+            Err(e) => {
+                self.undo_changes_async(&aor, &changes, &existing_by_contact, looked_up_at)
+                    .await;
+                return Err(e);
+            }
+        };
         for binding in &bindings {
             headers.push(
                 SmolStr::new("Contact"),
@@ -2027,11 +2141,15 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
 
         // Process each contact
         let existing = self.store.lookup(&aor)?;
-        let mut existing_by_contact = std::collections::HashMap::new();
+        let looked_up_at = Instant::now();
+        let mut existing_by_contact = HashMap::new();
         for binding in existing {
             existing_by_contact.insert(binding.contact.clone(), binding);
         }
 
+        // Validate every contact before touching the store, so that a request
+        // that is refused because of one of them leaves all bindings alone.
+        let mut changes: ContactChanges = Vec::with_capacity(contacts.len());
         for contact in &contacts {
             let contact_uri = match self.extract_contact_uri(contact.as_str()) {
                 Ok(uri) => uri,
@@ -2114,8 +2232,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
 
             if expires.as_secs() == 0 {
                 // Remove binding
-                self.store.remove(&aor, contact_uri.as_str())?;
-                info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding");
+                changes.push((contact_uri, None));
             } else {
                 // Add or update binding
                 let mut binding =
@@ -2137,11 +2254,15 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                     binding = binding.with_reg_id(reg_id);
                 }
 
-                self.store.upsert(binding)?;
-                info!(aor = %aor, contact = %contact_uri, expires = %expires.as_secs(), "REGISTER stored binding");
+                changes.push((contact_uri, Some(binding)));
             }
         }
 
+        if let Err(e) = self.apply_changes(&aor, &changes) {
+            self.undo_changes(&aor, &changes, &existing_by_contact, looked_up_at);
+            return Err(e);
+        }
+
         // Build response
         let mut headers = Headers::new();
 
@@ -2163,7 +2284,13 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             headers.push(SmolStr::new("CSeq"), cseq)?;
         }
 
-        let bindings = self.store.lookup(&aor)?;
+        let bindings = match self.store.lookup(&aor) {
+            Ok(bindings) => bindings,
+            Err(e) => {
+                self.undo_changes(&aor, &changes, &existing_by_contact, looked_up_at);
+                return Err(e);
+            }
+        };
         for binding in &bindings {
             headers.push(
                 SmolStr::new("Contact"),
-- 
2.43.0


From ba85badf758db26782ae6267f2360e79f0737105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 08/63] fix: apply the CSeq check to wildcard removals and roll
 a failed one back

---
 crates/sip-registrar/src/lib.rs | 52 +++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 7e90c95..9bc59f5 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1478,6 +1478,13 @@ impl std::error::Error for NormalizeError {}
 /// with its new binding, or with `None` for a removal.
 type ContactChanges = Vec<(SmolStr, Option<Binding>)>;
 
+fn contacts_by_uri(bindings: Vec<Binding>) -> HashMap<SmolStr, Binding> {
+    bindings
+        .into_iter()
+        .map(|binding| (binding.contact.clone(), binding))
+        .collect()
+}
+
 impl<S: AsyncLocationStore, A> BasicRegistrar<S, A> {
     async fn apply_changes_async(&self, aor: &str, changes: &ContactChanges) -> Result<()> {
         for (contact, binding) in changes {
@@ -1723,7 +1730,22 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     "Bad Request - Wildcard Contact requires Expires: 0",
                 );
             }
-            self.store.remove_all(&aor).await?;
+            // RFC 3261 §10.3 step 6: the removal is subject to the same CSeq
+            // check as any other change to a binding.
+            let existing = contacts_by_uri(self.store.lookup(&aor).await?);
+            let looked_up_at = Instant::now();
+            if existing
+                .values()
+                .any(|b| b.call_id == call_id && cseq <= b.cseq)
+            {
+                return self.build_error_response(request, 400, "Bad Request - CSeq out of order");
+            }
+            if let Err(e) = self.store.remove_all(&aor).await {
+                let changes: ContactChanges = existing.keys().map(|c| (c.clone(), None)).collect();
+                self.undo_changes_async(&aor, &changes, &existing, looked_up_at)
+                    .await;
+                return Err(e);
+            }
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
             let mut headers = Headers::new();
@@ -1766,12 +1788,8 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             }
         };
 
-        let existing = self.store.lookup(&aor).await?;
+        let existing_by_contact = contacts_by_uri(self.store.lookup(&aor).await?);
         let looked_up_at = Instant::now();
-        let mut existing_by_contact = HashMap::new();
-        for binding in existing {
-            existing_by_contact.insert(SmolStr::new(binding.contact()), binding);
-        }
 
         // Validate every contact before touching the store, so that a request
         // that is refused because of one of them leaves all bindings alone.
@@ -2089,7 +2107,21 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                 );
             }
             // Remove all bindings for this AOR
-            self.store.remove_all(&aor)?;
+            // RFC 3261 §10.3 step 6: the removal is subject to the same CSeq
+            // check as any other change to a binding.
+            let existing = contacts_by_uri(self.store.lookup(&aor)?);
+            let looked_up_at = Instant::now();
+            if existing
+                .values()
+                .any(|b| b.call_id == call_id && cseq <= b.cseq)
+            {
+                return self.build_error_response(request, 400, "Bad Request - CSeq out of order");
+            }
+            if let Err(e) = self.store.remove_all(&aor) {
+                let changes: ContactChanges = existing.keys().map(|c| (c.clone(), None)).collect();
+                self.undo_changes(&aor, &changes, &existing, looked_up_at);
+                return Err(e);
+            }
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
             let mut headers = Headers::new();
@@ -2140,12 +2172,8 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         };
 
         // Process each contact
-        let existing = self.store.lookup(&aor)?;
+        let existing_by_contact = contacts_by_uri(self.store.lookup(&aor)?);
         let looked_up_at = Instant::now();
-        let mut existing_by_contact = HashMap::new();
-        for binding in existing {
-            existing_by_contact.insert(binding.contact.clone(), binding);
-        }
 
         // Validate every contact before touching the store, so that a request
         // that is refused because of one of them leaves all bindings alone.
-- 
2.43.0


From 56e091f0ea7f9a566587e31831e51096699e01fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 09/63] fix: make checking and applying a REGISTER one step per
 AOR

---
 crates/sip-registrar/src/lib.rs | 60 ++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 9bc59f5..c48644d 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -37,9 +37,13 @@ use sip_parse::{header, parse_to_header};
 use sip_ratelimit::RateLimiter;
 use smol_str::SmolStr;
 use std::collections::HashMap;
+use std::hash::{Hash, Hasher};
 use std::sync::Arc;
 use std::time::{Duration, Instant};
-use tokio::{runtime::Handle, task};
+use tokio::{
+    runtime::{Handle, RuntimeFlavor},
+    task,
+};
 use tracing::{info, warn};
 
 // Security constants for DoS prevention
@@ -1018,6 +1022,55 @@ pub struct BasicRegistrar<S, A> {
     /// This is how the registrar advertises RFC 5626 / RFC 3327
     /// capability to the UA, enabling flow-aware routing.
     advertise_outbound_and_path: bool,
+
+    /// Serialises changes to the same AOR, so that checking a REGISTER
+    /// against the current bindings and applying it is one step.
+    aor_locks: AorLocks,
+}
+
+/// Locks shared by the AORs that hash to the same slot.
+struct AorLocks {
+    slots: Box<[tokio::sync::Mutex<()>]>,
+}
+
+impl AorLocks {
+    const SLOTS: usize = 64;
+
+    fn new() -> Self {
+        Self {
+            slots: (0..Self::SLOTS)
+                .map(|_| tokio::sync::Mutex::new(()))
+                .collect(),
+        }
+    }
+
+    fn slot(&self, aor: &str) -> &tokio::sync::Mutex<()> {
+        let mut hasher = std::collections::hash_map::DefaultHasher::new();
+        aor.hash(&mut hasher);
+        &self.slots[hasher.finish() as usize % self.slots.len()]
+    }
+
+    async fn lock(&self, aor: &str) -> tokio::sync::MutexGuard<'_, ()> {
+        self.slot(aor).lock().await
+    }
+
+    /// Locks from synchronous code, which may itself run on a runtime thread.
+    fn lock_sync(&self, aor: &str) -> tokio::sync::MutexGuard<'_, ()> {
+        let slot = self.slot(aor);
+        if let Ok(guard) = slot.try_lock() {
+            return guard;
+        }
+        match Handle::try_current().map(|handle| handle.runtime_flavor()) {
+            Err(_) => slot.blocking_lock(),
+            Ok(RuntimeFlavor::MultiThread) => task::block_in_place(|| slot.blocking_lock()),
+            Ok(_) => loop {
+                std::thread::yield_now();
+                if let Ok(guard) = slot.try_lock() {
+                    break guard;
+                }
+            },
+        }
+    }
 }
 
 impl<S, A> BasicRegistrar<S, A> {
@@ -1032,6 +1085,7 @@ impl<S, A> BasicRegistrar<S, A> {
             rate_limit_key_fn: None,
             service_route: None,
             advertise_outbound_and_path: false,
+            aor_locks: AorLocks::new(),
         }
     }
 
@@ -1732,6 +1786,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             }
             // RFC 3261 §10.3 step 6: the removal is subject to the same CSeq
             // check as any other change to a binding.
+            let _guard = self.aor_locks.lock(&aor).await;
             let existing = contacts_by_uri(self.store.lookup(&aor).await?);
             let looked_up_at = Instant::now();
             if existing
@@ -1788,6 +1843,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             }
         };
 
+        let _guard = self.aor_locks.lock(&aor).await;
         let existing_by_contact = contacts_by_uri(self.store.lookup(&aor).await?);
         let looked_up_at = Instant::now();
 
@@ -2109,6 +2165,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             // Remove all bindings for this AOR
             // RFC 3261 §10.3 step 6: the removal is subject to the same CSeq
             // check as any other change to a binding.
+            let _guard = self.aor_locks.lock_sync(&aor);
             let existing = contacts_by_uri(self.store.lookup(&aor)?);
             let looked_up_at = Instant::now();
             if existing
@@ -2172,6 +2229,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         };
 
         // Process each contact
+        let _guard = self.aor_locks.lock_sync(&aor);
         let existing_by_contact = contacts_by_uri(self.store.lookup(&aor)?);
         let looked_up_at = Instant::now();
 
-- 
2.43.0


From 0aac78b5f0b74e553b980ad536cb77b861b46817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 10/63] fix: keep concurrent registrations within the total
 binding limit

---
 crates/sip-registrar/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index c48644d..e66c3c6 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -38,7 +38,7 @@ use sip_ratelimit::RateLimiter;
 use smol_str::SmolStr;
 use std::collections::HashMap;
 use std::hash::{Hash, Hasher};
-use std::sync::Arc;
+use std::sync::{Arc, Mutex, PoisonError};
 use std::time::{Duration, Instant};
 use tokio::{
     runtime::{Handle, RuntimeFlavor},
@@ -808,6 +808,8 @@ impl<T: LocationStore + 'static> AsyncLocationStore for SyncToAsyncAdapter<T> {
 #[derive(Default, Clone)]
 pub struct MemoryLocationStore {
     inner: Arc<DashMap<SmolStr, Vec<StoredBinding>>>,
+    /// Held from checking the total number of bindings to adding one.
+    insert_lock: Arc<Mutex<()>>,
 }
 
 #[derive(Debug, Clone)]
@@ -828,6 +830,7 @@ impl MemoryLocationStore {
     pub fn new() -> Self {
         Self {
             inner: Arc::new(DashMap::new()),
+            insert_lock: Arc::new(Mutex::new(())),
         }
     }
 
@@ -864,6 +867,11 @@ impl LocationStore for MemoryLocationStore {
         let expires_at = Instant::now() + binding.expires();
         let aor_key = SmolStr::new(binding.aor());
 
+        let _guard = self
+            .insert_lock
+            .lock()
+            .unwrap_or_else(PoisonError::into_inner);
+
         // Check total bindings limit (DoS prevention)
         let total_bindings: usize = self.inner.iter().map(|entry| entry.len()).sum();
         if total_bindings >= MAX_TOTAL_BINDINGS {
-- 
2.43.0


From 7fbbdec8cf701a481ec4f5c3d9d345a6c9dd0dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:26 +0000
Subject: [PATCH 11/63] fix: match an ACK to the latest INVITE, not to the
 latest request

A PRACK, UPDATE or INFO accepted between an INVITE and its ACK raised
remote_cseq, so the ACK was refused, while an ACK naming that other
request's CSeq was accepted.
---
 crates/sip-dialog/src/lib.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 6bf4d69..79547cb 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -280,6 +280,11 @@ pub struct Dialog {
     /// Remote CSeq number (tracked from requests we receive)
     remote_cseq: u32,
 
+    /// CSeq of the latest INVITE accepted from the remote party (0 if none).
+    /// An ACK reuses this number even when other requests (PRACK, UPDATE,
+    /// INFO, ...) have raised `remote_cseq` since.
+    remote_invite_cseq: u32,
+
     /// Last ACK CSeq number (tracked separately to prevent replay)
     last_ack_cseq: Option<u32>,
 
@@ -355,6 +360,7 @@ impl Dialog {
             route_set,
             local_cseq,
             remote_cseq,
+            remote_invite_cseq: 0,
             last_ack_cseq: None,
             local_uri,
             remote_uri,
@@ -401,6 +407,11 @@ impl Dialog {
         // Parse CSeq from request (this is remote CSeq since they sent it)
         let remote_cseq = parse_cseq_number(req.headers())?;
         validate_cseq(remote_cseq).ok()?;
+        let remote_invite_cseq = if req.method().as_str() == "INVITE" {
+            remote_cseq
+        } else {
+            0
+        };
         let local_cseq = 0; // Will be incremented when we send requests
 
         let (session_expires, refresher) = extract_session_timer(resp);
@@ -418,6 +429,7 @@ impl Dialog {
             route_set,
             local_cseq,
             remote_cseq,
+            remote_invite_cseq,
             last_ack_cseq: None,
             local_uri,
             remote_uri,
@@ -526,6 +538,7 @@ impl Dialog {
             remote_target,
             local_cseq,
             remote_cseq,
+            remote_invite_cseq: remote_cseq,
             last_ack_cseq,
             route_set,
             secure,
@@ -649,8 +662,9 @@ impl Dialog {
         }
 
         if req.method().as_str() == "ACK" {
-            // ACK for an INVITE dialog must reuse the INVITE's CSeq.
-            if cseq != self.remote_cseq || self.remote_cseq == 0 {
+            // ACK must reuse the CSeq of the INVITE it acknowledges, whatever
+            // other requests have been accepted since.
+            if cseq != self.remote_invite_cseq {
                 return Err(DialogError::InvalidCSeq);
             }
 
@@ -663,6 +677,9 @@ impl Dialog {
                 validate_cseq_increment(self.remote_cseq, cseq)?;
             }
             self.remote_cseq = cseq;
+            if req.method().as_str() == "INVITE" {
+                self.remote_invite_cseq = cseq;
+            }
         }
 
         // Update remote target from Contact
-- 
2.43.0


From 2d5e98b968326e975231ba4b3fa2839747249aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 12/63] fix: keep session timer tasks from acting after a stop
 or refresh

A timer task whose deadline coincided with a stop or refresh could still
signal, and at expiry it removed the entry of the timer that had replaced
it. Deadlines are now absolute, so a stall at the refresh point no longer
postpones the expiry.
---
 .../sip-dialog/src/session_timer_manager.rs   | 54 ++++++++++++-------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index f614998..47828e0 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -42,10 +42,11 @@
 
 use crate::DialogId;
 use dashmap::DashMap;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::mpsc;
-use tokio::time::{sleep, Instant};
+use tokio::time::{sleep_until, Instant};
 
 // Security: Session timer limits (DoS prevention)
 const MAX_SESSION_TIMERS: usize = 10_000;
@@ -72,6 +73,10 @@ pub enum SessionTimerEvent {
 /// Session timer task tracking.
 #[derive(Debug)]
 struct SessionTimerTask {
+    /// Which start of the timer this entry belongs to. A timer task acts only
+    /// while the entry it finds is its own, so a task that was replaced or
+    /// stopped just as its deadline passed stays silent.
+    generation: u64,
     /// When the session expires
     expiry_time: Instant,
     /// Task cancellation handle
@@ -86,6 +91,8 @@ struct SessionTimerTask {
 pub struct SessionTimerManager {
     /// Active session timer tasks indexed by DialogId
     tasks: Arc<DashMap<DialogId, SessionTimerTask>>,
+    /// Source of `SessionTimerTask::generation`
+    next_generation: Arc<AtomicU64>,
     /// Event channel for broadcasting timer events
     event_tx: Arc<mpsc::UnboundedSender<SessionTimerEvent>>,
     /// Receiver stored for cloning
@@ -98,6 +105,7 @@ impl SessionTimerManager {
         let (event_tx, event_rx) = mpsc::unbounded_channel();
         Self {
             tasks: Arc::new(DashMap::new()),
+            next_generation: Arc::new(AtomicU64::new(0)),
             event_tx: Arc::new(event_tx),
             event_rx: Arc::new(tokio::sync::Mutex::new(event_rx)),
         }
@@ -123,14 +131,20 @@ impl SessionTimerManager {
             return;
         }
 
-        let expiry_time = Instant::now() + session_expires;
+        let generation = self.next_generation.fetch_add(1, Ordering::Relaxed);
+        let started = Instant::now();
+        let refresh_time = started + session_expires / 2;
+        let expiry_time = started + session_expires;
         let (cancel_tx, mut cancel_rx) = mpsc::channel(SESSION_TIMER_CHANNEL_BOUND);
 
         let task = SessionTimerTask {
+            generation,
             expiry_time,
             cancel_tx: Some(cancel_tx),
         };
 
+        // A concurrent start may have got in since the stop above; dropping
+        // its entry closes the cancellation channel, which ends its task.
         self.tasks.insert(dialog_id.clone(), task);
 
         // Spawn timer task
@@ -139,15 +153,21 @@ impl SessionTimerManager {
         let dialog_id_clone = dialog_id.clone();
 
         tokio::spawn(async move {
-            // Calculate refresh time (Session-Expires / 2)
-            let refresh_duration = session_expires / 2;
+            // Events are sent while this timer's own entry is locked, so none
+            // can follow a stop or a refresh. Deadlines are absolute: a late
+            // refresh signal does not move the expiry.
 
             // If we're the refresher, schedule refresh event
             if is_refresher {
                 tokio::select! {
-                    _ = sleep(refresh_duration) => {
+                    _ = sleep_until(refresh_time) => {
                         // Emit refresh needed event
-                        let _ = event_tx.send(SessionTimerEvent::RefreshNeeded(dialog_id_clone.clone()));
+                        match tasks_ref.get(&dialog_id_clone) {
+                            Some(task) if task.generation == generation => {
+                                let _ = event_tx.send(SessionTimerEvent::RefreshNeeded(dialog_id_clone.clone()));
+                            }
+                            _ => return,
+                        }
                     }
                     _ = cancel_rx.recv() => {
                         // Timer cancelled
@@ -157,19 +177,17 @@ impl SessionTimerManager {
             }
 
             // Wait for remaining time until expiration
-            let remaining = if is_refresher {
-                session_expires / 2
-            } else {
-                session_expires
-            };
-
             tokio::select! {
-                _ = sleep(remaining) => {
-                    // Session expired - emit expiration event
-                    let _ = event_tx.send(SessionTimerEvent::SessionExpired(dialog_id_clone.clone()));
-
-                    // Remove task from tracking
-                    tasks_ref.remove(&dialog_id_clone);
+                _ = sleep_until(expiry_time) => {
+                    // Session expired - emit expiration event and remove the
+                    // task from tracking
+                    tasks_ref.remove_if(&dialog_id_clone, |_, task| {
+                        let own = task.generation == generation;
+                        if own {
+                            let _ = event_tx.send(SessionTimerEvent::SessionExpired(dialog_id_clone.clone()));
+                        }
+                        own
+                    });
                 }
                 _ = cancel_rx.recv() => {
                     // Timer cancelled (dialog refreshed or terminated)
-- 
2.43.0


From 4fba6c8c8825d06cd1fd1ac55a471b10111da303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 13/63] fix: keep the dialog store's Call-ID index in step with
 the table

put() of a known dialog listed it twice, and a put racing a remove could
lose or orphan the index entry.
---
 crates/sip-dialog/src/storage.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/crates/sip-dialog/src/storage.rs b/crates/sip-dialog/src/storage.rs
index fa383a9..7529966 100644
--- a/crates/sip-dialog/src/storage.rs
+++ b/crates/sip-dialog/src/storage.rs
@@ -4,6 +4,7 @@
 
 use crate::{Dialog, DialogId};
 use async_trait::async_trait;
+use dashmap::mapref::entry::Entry;
 use smol_str::SmolStr;
 
 /// Maximum number of dialogs in the in-memory store to prevent memory exhaustion.
@@ -60,19 +61,21 @@ impl DialogStore for InMemoryDialogStore {
         }
         let call_id = dialog.id.call_id.clone();
         let dialog_id = dialog.id.clone();
-        self.inner.insert(dialog.id.clone(), dialog);
-        // Update secondary index
-        self.by_call_id.entry(call_id).or_default().push(dialog_id);
+        // The index entry stays locked across both updates so that table and
+        // index cannot drift apart under concurrent put and remove.
+        let mut ids = self.by_call_id.entry(call_id).or_default();
+        if self.inner.insert(dialog_id.clone(), dialog).is_none() {
+            ids.push(dialog_id);
+        }
     }
 
     async fn remove(&self, id: &DialogId) {
-        self.inner.remove(id);
-        // Update secondary index
-        if let Some(mut ids) = self.by_call_id.get_mut(&id.call_id) {
-            ids.retain(|did| did != id);
-            if ids.is_empty() {
-                drop(ids);
-                self.by_call_id.remove(&id.call_id);
+        // Table and index change under the index entry's lock (see `put`).
+        if let Entry::Occupied(mut entry) = self.by_call_id.entry(id.call_id.clone()) {
+            self.inner.remove(id);
+            entry.get_mut().retain(|did| did != id);
+            if entry.get().is_empty() {
+                entry.remove();
             }
         }
     }
-- 
2.43.0


From 364bdb68b91267e3d79f2cc4099c168de45b8114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 14/63] fix: dialog and subscription tables: updates at the
 limit, clean-up, counters

Updating a known entry of a full table was refused; a subscription
replaced by an active one during clean-up was removed; updates counted as
created dialogs and cleaned-up ones not as terminated.
---
 crates/sip-dialog/src/lib.rs | 45 ++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 79547cb..6c20885 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -745,7 +745,9 @@ impl DialogManager {
         // MAX_EARLY_DIALOGS_PER_CALL_ID be exceeded under load).
         let _guard = self.insert_lock.lock();
 
-        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS {
+        // Updating a known dialog adds no entry, so the table limit does not
+        // apply to it.
+        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS && !self.dialogs.contains_key(&dialog.id) {
             return Err(DialogError::TooManyDialogs {
                 max: MAX_CONFIRMED_DIALOGS,
             });
@@ -766,8 +768,9 @@ impl DialogManager {
                 });
             }
         }
-        self.dialogs.insert(dialog.id.clone(), dialog);
-        self.metrics.record_created();
+        if self.dialogs.insert(dialog.id.clone(), dialog).is_none() {
+            self.metrics.record_created();
+        }
         Ok(())
     }
 
@@ -804,8 +807,13 @@ impl DialogManager {
 
     /// Removes all terminated dialogs.
     pub fn cleanup_terminated(&self) {
-        self.dialogs
-            .retain(|_, dialog| dialog.state != DialogStateType::Terminated);
+        self.dialogs.retain(|_, dialog| {
+            let keep = dialog.state != DialogStateType::Terminated;
+            if !keep {
+                self.metrics.record_terminated();
+            }
+            keep
+        });
     }
 
     /// Finds a dialog by its SIP Call-ID header value.
@@ -1692,7 +1700,11 @@ impl SubscriptionManager {
         // breached by concurrent callers (previously `len()` and `insert()`
         // were separate operations).
         let _guard = self.insert_lock.lock();
-        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS {
+        // Updating a known subscription adds no entry, so the limit does not
+        // apply to it.
+        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS
+            && !self.subscriptions.contains_key(&subscription.id)
+        {
             return Err(SubscriptionError::TooManySubscriptions {
                 max: MAX_SUBSCRIPTIONS,
             });
@@ -1733,17 +1745,16 @@ impl SubscriptionManager {
 
     /// Removes all terminated subscriptions.
     pub fn cleanup_terminated(&self) -> usize {
-        let terminated: Vec<_> = self
-            .subscriptions
-            .iter()
-            .filter(|entry| entry.value().state == SubscriptionState::Terminated)
-            .map(|entry| entry.key().clone())
-            .collect();
-
-        let count = terminated.len();
-        for id in terminated {
-            self.subscriptions.remove(&id);
-        }
+        // Decide and remove in one step per entry: an entry that is replaced
+        // by an active one meanwhile must stay.
+        let mut count = 0;
+        self.subscriptions.retain(|_, subscription| {
+            let keep = subscription.state != SubscriptionState::Terminated;
+            if !keep {
+                count += 1;
+            }
+            keep
+        });
         count
     }
 }
-- 
2.43.0


From 16d22d66d4eea7a89a13aff850c4943628e576ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 15/63] sip-transaction: sim-hooks feature with live
 transaction counts

---
 crates/sip-transaction/Cargo.toml     | 4 ++++
 crates/sip-transaction/src/manager.rs | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/crates/sip-transaction/Cargo.toml b/crates/sip-transaction/Cargo.toml
index eec3881..14f3292 100644
--- a/crates/sip-transaction/Cargo.toml
+++ b/crates/sip-transaction/Cargo.toml
@@ -27,3 +27,7 @@ sip-transport = { path = "../sip-transport" }
 [dev-dependencies]
 tokio = { workspace = true, features = ["test-util"] }
 proptest = "1"
+
+[features]
+# Accessors for the simulation harness; never enabled in shipped builds.
+sim-hooks = []
diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 7c04dd5..3eadbb9 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -1627,6 +1627,14 @@ impl TransactionManager {
     }
 }
 
+#[cfg(feature = "sim-hooks")]
+impl TransactionManager {
+    /// Number of live (server, client) transactions.
+    pub fn live_counts(&self) -> (usize, usize) {
+        (self.inner.server.len(), self.inner.client.len())
+    }
+}
+
 #[derive(Clone)]
 pub struct ServerTransactionHandle {
     manager: TransactionManager,
-- 
2.43.0


From bbe36f7319014d75caa0d15252febcbd9b8adbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 16/63] fix: a retransmitted request reached the transaction
 user again

receive_request gave the caller no way to tell a retransmission, already
answered by the transaction, from a new request, so siphond and the
integrated UAS handled every copy of a request.
---
 bins/siphond/src/main.rs              |  5 +++++
 crates/sip-transaction/src/manager.rs | 11 +++++++++++
 crates/sip-uas/src/integrated.rs      |  9 ++++++++-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/bins/siphond/src/main.rs b/bins/siphond/src/main.rs
index 7304d88..ca7cf20 100644
--- a/bins/siphond/src/main.rs
+++ b/bins/siphond/src/main.rs
@@ -685,6 +685,11 @@ async fn handle_packet(
             .receive_request(req.clone(), ctx.clone())
             .await;
 
+        // The transaction has already answered a retransmission.
+        if handle.is_retransmission() {
+            return;
+        }
+
         // Dispatch to appropriate handler
         let dispatcher = dispatcher.clone();
         tokio::spawn(async move {
diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 3eadbb9..0ac8038 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -787,6 +787,7 @@ impl TransactionManager {
                     return ServerTransactionHandle {
                         manager: self.clone(),
                         key: invite_key,
+                        retransmission: true,
                     };
                 }
             }
@@ -802,6 +803,7 @@ impl TransactionManager {
             return ServerTransactionHandle {
                 manager: self.clone(),
                 key,
+                retransmission: true,
             };
         }
 
@@ -862,6 +864,7 @@ impl TransactionManager {
         ServerTransactionHandle {
             manager: self.clone(),
             key,
+            retransmission: false,
         }
     }
 
@@ -1639,6 +1642,7 @@ impl TransactionManager {
 pub struct ServerTransactionHandle {
     manager: TransactionManager,
     key: TransactionKey,
+    retransmission: bool,
 }
 
 impl ServerTransactionHandle {
@@ -1654,6 +1658,13 @@ impl ServerTransactionHandle {
         &self.key
     }
 
+    /// Returns `true` when the request matched a transaction that already
+    /// existed. The transaction has answered it with the last response sent
+    /// (RFC 3261 §17.2), so it must not be passed to the transaction user.
+    pub fn is_retransmission(&self) -> bool {
+        self.retransmission
+    }
+
     /// See [`TransactionManager::ack_received`]: `true` means the ACK was
     /// absorbed by this transaction and must not reach the transaction user.
     pub async fn ack_received(&self) -> bool {
diff --git a/crates/sip-uas/src/integrated.rs b/crates/sip-uas/src/integrated.rs
index 8962fd2..427bbf1 100644
--- a/crates/sip-uas/src/integrated.rs
+++ b/crates/sip-uas/src/integrated.rs
@@ -61,7 +61,7 @@ use smol_str::SmolStr;
 use std::net::SocketAddr;
 use std::sync::Arc;
 use tokio::sync::Mutex;
-use tracing::{info, warn};
+use tracing::{debug, info, warn};
 
 use crate::{AcceptInviteOutcome, NegotiatedSessionTimer, SessionTimerPolicy, UserAgentServer};
 use std::time::Duration;
@@ -375,6 +375,13 @@ impl IntegratedUAS {
         handle: ServerTransactionHandle,
         ctx: &TransportContext,
     ) -> Result<()> {
+        // The transaction has already answered a retransmitted request; the
+        // application must see each request once.
+        if handle.is_retransmission() && request.method() != &Method::Ack {
+            debug!("Absorbed {:?} retransmission", request.method());
+            return Ok(());
+        }
+
         info!(
             "Dispatching {:?} request from {}",
             request.method(),
-- 
2.43.0


From 0fc133b5a06c72f6db7878b55c862399fb7c4bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 17/63] fix: sip-transaction: report an INVITE failure once,
 re-ACK its retransmissions

---
 crates/sip-transaction/src/fsm.rs | 34 +++++++++++++++++--------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index cfcc81c..5c1f034 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -561,11 +561,22 @@ impl ClientInviteFsm {
         current_state: crate::ClientInviteState,
         response: Response,
     ) -> Vec<ClientInviteAction> {
-        let code = response.code();
-        if (200..=299).contains(&code) {
+        let is_2xx = (200..=299).contains(&response.code());
+        if matches!(current_state, crate::ClientInviteState::Completed) {
+            // The TU has its outcome. Retransmissions of the failure are only
+            // re-acknowledged (RFC 3261 §17.1.1.2); a late 2xx is dropped.
+            if is_2xx {
+                return Vec::new();
+            }
+            return vec![ClientInviteAction::GenerateAck {
+                response,
+                is_2xx: false,
+            }];
+        }
+        if is_2xx {
             self.handle_final_2xx(response)
         } else {
-            self.handle_final_non_2xx(current_state, response)
+            self.handle_final_non_2xx(response)
         }
     }
 
@@ -582,13 +593,9 @@ impl ClientInviteFsm {
         ]
     }
 
-    fn handle_final_non_2xx(
-        &mut self,
-        current_state: crate::ClientInviteState,
-        response: Response,
-    ) -> Vec<ClientInviteAction> {
+    fn handle_final_non_2xx(&mut self, response: Response) -> Vec<ClientInviteAction> {
         self.state = crate::ClientInviteState::Completed;
-        let mut actions = vec![
+        vec![
             ClientInviteAction::Cancel(TransactionTimer::A),
             ClientInviteAction::Cancel(TransactionTimer::B),
             ClientInviteAction::Deliver(response.clone()),
@@ -596,14 +603,11 @@ impl ClientInviteFsm {
                 response,
                 is_2xx: false,
             },
-        ];
-        if !matches!(current_state, crate::ClientInviteState::Completed) {
-            actions.push(ClientInviteAction::Schedule {
+            ClientInviteAction::Schedule {
                 timer: TransactionTimer::D,
                 duration: self.timers.duration(TransactionTimer::D), // 0 for TCP/TLS, 32s for UDP
-            });
-        }
-        actions
+            },
+        ]
     }
 
     fn handle_timer_a(&mut self) -> Vec<ClientInviteAction> {
-- 
2.43.0


From 0ba06959769886f719fed54b5a14cdbd3fd07f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 18/63] fix: sip-transaction: an INVITE server transaction
 sends one final response only

---
 crates/sip-transaction/src/fsm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 5c1f034..907fe09 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -1020,9 +1020,9 @@ impl ServerInviteFsm {
             (Proceeding, ServerInviteEvent::ReceiveInvite(_)) => self.handle_receive_invite(),
             (Proceeding | Completed, ServerInviteEvent::ReceiveCancel) => self.handle_cancel(),
             (Proceeding, ServerInviteEvent::SendProvisional(resp)) => self.send_provisional(resp),
-            (Proceeding, ServerInviteEvent::SendFinal(resp))
-            | (Confirmed, ServerInviteEvent::SendFinal(resp))
-            | (Completed, ServerInviteEvent::SendFinal(resp)) => self.send_final(resp),
+            // Only the first final counts: once Completed or Confirmed, another
+            // one (say a 487 for a CANCEL that crossed a 486) would contradict it.
+            (Proceeding, ServerInviteEvent::SendFinal(resp)) => self.send_final(resp),
             (Completed, ServerInviteEvent::ReceiveAck) => self.handle_ack(),
             (Completed, ServerInviteEvent::TimerFired(TransactionTimer::G)) => {
                 self.handle_timer_g()
-- 
2.43.0


From d192fb7fa18cb9927acf3d0ab1d373d98e6b91ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 19/63] fix: sip-transaction: a send that fails after the final
 response is no second outcome

---
 crates/sip-transaction/src/fsm.rs     |  9 +++++++--
 crates/sip-transaction/src/manager.rs | 19 ++++++++++++++-----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 907fe09..7af6162 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -510,7 +510,9 @@ impl ClientInviteFsm {
             (Completed, ClientInviteEvent::TimerFired(TransactionTimer::D)) => {
                 self.handle_timer_d()
             }
-            (_, ClientInviteEvent::TransportError) => self.handle_transport_error(),
+            (Calling | Proceeding, ClientInviteEvent::TransportError) => {
+                self.handle_transport_error()
+            }
             (_, ClientInviteEvent::TimerFired(_)) => Vec::new(),
             _ => Vec::new(),
         }
@@ -707,7 +709,10 @@ impl ClientNonInviteFsm {
                 ClientNonInviteState::Completed,
                 ClientNonInviteEvent::TimerFired(TransactionTimer::K),
             ) => self.handle_timer_k(),
-            (_, ClientNonInviteEvent::TransportError) => self.handle_transport_error(),
+            (
+                ClientNonInviteState::Trying | ClientNonInviteState::Proceeding,
+                ClientNonInviteEvent::TransportError,
+            ) => self.handle_transport_error(),
             (_, _) => Vec::new(),
         }
     }
diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 0ac8038..302e632 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -1117,14 +1117,23 @@ impl TransactionManager {
         key: &TransactionKey,
     ) -> Option<ClientRuntimeActions> {
         if let Some(mut entry) = self.inner.client.get_mut(key) {
-            let actions = match &mut entry.kind {
+            // A transaction that already has its outcome ignores a send that
+            // fails late, and so must the TU.
+            let (actions, ignored) = match &mut entry.kind {
                 ClientKind::Invite(fsm) => {
-                    ClientRuntimeActions::Invite(fsm.on_event(ClientInviteEvent::TransportError))
+                    let actions = fsm.on_event(ClientInviteEvent::TransportError);
+                    let ignored = actions.is_empty();
+                    (ClientRuntimeActions::Invite(actions), ignored)
+                }
+                ClientKind::NonInvite(fsm) => {
+                    let actions = fsm.on_event(ClientNonInviteEvent::TransportError);
+                    let ignored = actions.is_empty();
+                    (ClientRuntimeActions::NonInvite(actions), ignored)
                 }
-                ClientKind::NonInvite(fsm) => ClientRuntimeActions::NonInvite(
-                    fsm.on_event(ClientNonInviteEvent::TransportError),
-                ),
             };
+            if ignored {
+                return None;
+            }
             let tu = entry.tu.clone();
             drop(entry);
             tu.on_transport_error(key).await;
-- 
2.43.0


From 7eef563330a15216f6465c4ab737005789cd7c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 20/63] fix: sip-transaction: a response under delivery
 survives its transaction being reaped

---
 crates/sip-transaction/src/manager.rs | 80 ++++++++++++++-------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 302e632..2b19312 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -963,6 +963,7 @@ impl TransactionManager {
             method: key.method.clone(),
             remaining_targets,
         };
+        let tu = entry.tu.clone();
 
         self.inner.client.insert(key.clone(), entry);
         self.inner.metrics.record_start(
@@ -970,7 +971,7 @@ impl TransactionManager {
             &format!("{:?}", key.method),
             TransactionRole::Client,
         );
-        self.apply_client_actions(&key, actions).await;
+        self.apply_client_actions(&key, actions, tu, ctx).await;
         Ok(key)
     }
 
@@ -1078,14 +1079,15 @@ impl TransactionManager {
                     fsm.on_event(ClientNonInviteEvent::TimerFired(timer)),
                 ),
             };
+            let (tu, ctx) = (entry.tu.clone(), entry.ctx.clone());
             drop(entry);
-            self.apply_client_actions(&key, actions).await;
+            self.apply_client_actions(&key, actions, tu, ctx).await;
         }
     }
 
     async fn process_client_transport_error(&self, key: TransactionKey) {
-        if let Some(actions) = self.client_transport_error_actions(&key).await {
-            self.apply_client_actions(&key, actions).await;
+        if let Some((actions, tu, ctx)) = self.client_transport_error_actions(&key).await {
+            self.apply_client_actions(&key, actions, tu, ctx).await;
         }
     }
 
@@ -1115,7 +1117,11 @@ impl TransactionManager {
     async fn client_transport_error_actions(
         &self,
         key: &TransactionKey,
-    ) -> Option<ClientRuntimeActions> {
+    ) -> Option<(
+        ClientRuntimeActions,
+        Arc<dyn ClientTransactionUser>,
+        TransportContext,
+    )> {
         if let Some(mut entry) = self.inner.client.get_mut(key) {
             // A transaction that already has its outcome ignores a send that
             // fails late, and so must the TU.
@@ -1134,10 +1140,10 @@ impl TransactionManager {
             if ignored {
                 return None;
             }
-            let tu = entry.tu.clone();
+            let (tu, ctx) = (entry.tu.clone(), entry.ctx.clone());
             drop(entry);
             tu.on_transport_error(key).await;
-            Some(actions)
+            Some((actions, tu, ctx))
         } else {
             None
         }
@@ -1232,13 +1238,23 @@ impl TransactionManager {
         }
     }
 
-    async fn apply_client_actions(&self, key: &TransactionKey, actions: ClientRuntimeActions) {
+    /// Carries out what the FSM decided. `tu` and `ctx` were read together with
+    /// the FSM event: another event may reap the entry while this one is still
+    /// being delivered, which must not cost the TU its response or its ACK.
+    async fn apply_client_actions(
+        &self,
+        key: &TransactionKey,
+        actions: ClientRuntimeActions,
+        tu: Arc<dyn ClientTransactionUser>,
+        ctx: TransportContext,
+    ) {
         match actions {
             ClientRuntimeActions::Invite(actions) => {
-                self.apply_client_invite_actions(key, actions).await;
+                self.apply_client_invite_actions(key, actions, tu, ctx)
+                    .await;
             }
             ClientRuntimeActions::NonInvite(actions) => {
-                self.apply_client_non_invite_actions(key, actions).await;
+                self.apply_client_non_invite_actions(key, actions, tu).await;
             }
         }
         self.reap_terminated_client(key);
@@ -1297,6 +1313,8 @@ impl TransactionManager {
         &self,
         key: &TransactionKey,
         actions: Vec<ClientInviteAction>,
+        tu: Arc<dyn ClientTransactionUser>,
+        ctx: TransportContext,
     ) {
         debug!(
             key = ?key,
@@ -1331,31 +1349,17 @@ impl TransactionManager {
                     self.dispatch_with_failover(key, bytes).await;
                 }
                 ClientInviteAction::Deliver(response) => {
-                    if let Some(entry) = self.inner.client.get(key) {
-                        let tu = entry.tu.clone();
-                        drop(entry);
-                        if response.code() < 200 {
-                            tu.on_provisional(key, &response).await;
-                        } else {
-                            tu.on_final(key, &response).await;
-                        }
+                    if response.code() < 200 {
+                        tu.on_provisional(key, &response).await;
+                    } else {
+                        tu.on_final(key, &response).await;
                     }
                 }
                 ClientInviteAction::ExpectPrack(response) => {
-                    if let Some(entry) = self.inner.client.get(key) {
-                        let tu = entry.tu.clone();
-                        let ctx = entry.ctx.clone();
-                        drop(entry);
-                        tu.send_prack(key, response, &ctx).await;
-                    }
+                    tu.send_prack(key, response, &ctx).await;
                 }
                 ClientInviteAction::GenerateAck { response, is_2xx } => {
-                    if let Some(entry) = self.inner.client.get(key) {
-                        let tu = entry.tu.clone();
-                        let ctx = entry.ctx.clone();
-                        drop(entry);
-                        tu.send_ack(key, response, &ctx, is_2xx).await;
-                    }
+                    tu.send_ack(key, response, &ctx, is_2xx).await;
                 }
                 ClientInviteAction::Schedule { timer, duration } => {
                     self.schedule_client_timer(key.clone(), timer, duration);
@@ -1382,6 +1386,7 @@ impl TransactionManager {
         &self,
         key: &TransactionKey,
         actions: Vec<ClientAction>,
+        tu: Arc<dyn ClientTransactionUser>,
     ) {
         for action in actions {
             match action {
@@ -1394,14 +1399,10 @@ impl TransactionManager {
                     self.dispatch_with_failover(key, bytes).await;
                 }
                 ClientAction::Deliver(response) => {
-                    if let Some(entry) = self.inner.client.get(key) {
-                        let tu = entry.tu.clone();
-                        drop(entry);
-                        if response.code() < 200 {
-                            tu.on_provisional(key, &response).await;
-                        } else {
-                            tu.on_final(key, &response).await;
-                        }
+                    if response.code() < 200 {
+                        tu.on_provisional(key, &response).await;
+                    } else {
+                        tu.on_final(key, &response).await;
                     }
                 }
                 ClientAction::Schedule { timer, duration } => {
@@ -1633,8 +1634,9 @@ impl TransactionManager {
                     ),
                 },
             };
+            let (tu, ctx) = (entry.tu.clone(), entry.ctx.clone());
             drop(entry);
-            self.apply_client_actions(key, actions).await;
+            self.apply_client_actions(key, actions, tu, ctx).await;
         }
     }
 }
-- 
2.43.0


From 53cae6b018582e265131fb32b2eb48761094aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 21/63] fix: sip-transaction: count every transaction end once,
 and always report a timeout

---
 crates/sip-transaction/src/manager.rs | 157 +++++++++++---------------
 1 file changed, 63 insertions(+), 94 deletions(-)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 2b19312..0ce53d1 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -668,9 +668,7 @@ impl TransactionManager {
                     limit = self.inner.limits.max_server_transactions,
                     "Server transaction limit reached, evicting oldest transaction"
                 );
-                if let Some((_, mut entry)) = self.inner.server.remove(&oldest_key) {
-                    entry.cancel_all();
-                }
+                self.end_server(&oldest_key, TransactionOutcome::Cancelled);
                 return true;
             }
         }
@@ -691,8 +689,7 @@ impl TransactionManager {
                     limit = self.inner.limits.max_client_transactions,
                     "Client transaction limit reached, evicting oldest transaction"
                 );
-                if let Some((_, mut entry)) = self.inner.client.remove(&oldest_key) {
-                    entry.cancel_all();
+                if let Some(entry) = self.end_client(&oldest_key, TransactionOutcome::Cancelled) {
                     // Notify TU that transaction was terminated due to resource limits
                     let tu = entry.tu.clone();
                     let key_clone = oldest_key.clone();
@@ -1094,23 +1091,9 @@ impl TransactionManager {
     async fn process_server_transport_error(&self, key: TransactionKey) {
         if let Some(actions) = self.server_transport_error_actions(&key) {
             self.apply_server_actions(&key, actions).await;
-        } else if let Some((_, entry)) = self.inner.server.remove(&key) {
+        } else {
             // If no actions, still record outcome for metrics.
-            let duration = entry.start_time.elapsed();
-            let transport = TransportType::from(transport_kind_to_transport(entry.ctx.transport));
-            self.inner.metrics.record_transaction_duration(
-                transport,
-                &format!("{:?}", entry.method),
-                duration,
-            );
-            self.inner
-                .metrics
-                .record_transaction_outcome(transport, TransactionOutcome::TransportError);
-            self.inner.metrics.record_complete(
-                transport,
-                &format!("{:?}", entry.method),
-                TransactionRole::Server,
-            );
+            self.end_server(&key, TransactionOutcome::TransportError);
         }
     }
 
@@ -1214,25 +1197,7 @@ impl TransactionManager {
                     }
                 }
                 ServerInviteAction::Terminate { .. } => {
-                    if let Some((_, mut entry)) = self.inner.server.remove(key) {
-                        entry.cancel_all();
-                        let duration = entry.start_time.elapsed();
-                        let transport =
-                            TransportType::from(transport_kind_to_transport(entry.ctx.transport));
-                        self.inner.metrics.record_transaction_duration(
-                            transport,
-                            &format!("{:?}", entry.method),
-                            duration,
-                        );
-                        self.inner
-                            .metrics
-                            .record_transaction_outcome(transport, TransactionOutcome::Completed);
-                        self.inner.metrics.record_complete(
-                            transport,
-                            &format!("{:?}", entry.method),
-                            TransactionRole::Server,
-                        );
-                    }
+                    self.end_server(key, TransactionOutcome::Completed);
                 }
             }
         }
@@ -1290,23 +1255,7 @@ impl TransactionManager {
             return;
         }
 
-        if let Some((_, entry)) = self.inner.client.remove(key) {
-            let duration = entry.start_time.elapsed();
-            let transport = TransportType::from(transport_kind_to_transport(entry.ctx.transport));
-            self.inner.metrics.record_transaction_duration(
-                transport,
-                &format!("{:?}", entry.method),
-                duration,
-            );
-            self.inner
-                .metrics
-                .record_transaction_outcome(transport, TransactionOutcome::Completed);
-            self.inner.metrics.record_complete(
-                transport,
-                &format!("{:?}", entry.method),
-                TransactionRole::Client,
-            );
-        }
+        self.end_client(key, TransactionOutcome::Completed);
     }
 
     async fn apply_client_invite_actions(
@@ -1370,13 +1319,8 @@ impl TransactionManager {
                     }
                 }
                 ClientInviteAction::Terminate { reason } => {
-                    if let Some(mut entry) = self.inner.client.get_mut(key) {
-                        entry.cancel_all();
-                        let tu = entry.tu.clone();
-                        drop(entry);
-                        tu.on_terminated(key, reason.as_str()).await;
-                    }
-                    self.inner.client.remove(key);
+                    self.end_client(key, Self::client_outcome(&reason));
+                    tu.on_terminated(key, reason.as_str()).await;
                 }
             }
         }
@@ -1414,41 +1358,66 @@ impl TransactionManager {
                     }
                 }
                 ClientAction::Terminate { reason } => {
-                    if let Some((_, entry)) = self.inner.client.remove(key) {
-                        let duration = entry.start_time.elapsed();
-                        let transport =
-                            TransportType::from(transport_kind_to_transport(entry.ctx.transport));
-                        let outcome = if reason.contains("Timer") {
-                            TransactionOutcome::Timeout
-                        } else if reason.contains("transport") {
-                            TransactionOutcome::TransportError
-                        } else if reason.contains("CANCEL") {
-                            TransactionOutcome::Cancelled
-                        } else {
-                            TransactionOutcome::Completed
-                        };
-
-                        self.inner.metrics.record_transaction_duration(
-                            transport,
-                            &format!("{:?}", entry.method),
-                            duration,
-                        );
-                        self.inner
-                            .metrics
-                            .record_transaction_outcome(transport, outcome);
-                        self.inner.metrics.record_complete(
-                            transport,
-                            &format!("{:?}", entry.method),
-                            TransactionRole::Client,
-                        );
-
-                        entry.tu.on_terminated(key, reason.as_str()).await;
-                    }
+                    self.end_client(key, Self::client_outcome(&reason));
+                    tu.on_terminated(key, reason.as_str()).await;
                 }
             }
         }
     }
 
+    fn client_outcome(reason: &str) -> TransactionOutcome {
+        if reason.contains("Timer") {
+            TransactionOutcome::Timeout
+        } else if reason.contains("transport") {
+            TransactionOutcome::TransportError
+        } else if reason.contains("CANCEL") {
+            TransactionOutcome::Cancelled
+        } else {
+            TransactionOutcome::Completed
+        }
+    }
+
+    /// Takes a client transaction out of the table, cancelling its timers and
+    /// counting its end. `None` when it is already gone.
+    fn end_client(&self, key: &TransactionKey, outcome: TransactionOutcome) -> Option<ClientEntry> {
+        let (_, mut entry) = self.inner.client.remove(key)?;
+        entry.cancel_all();
+        let transport = TransportType::from(transport_kind_to_transport(entry.ctx.transport));
+        let method = format!("{:?}", entry.method);
+        self.inner.metrics.record_transaction_duration(
+            transport,
+            &method,
+            entry.start_time.elapsed(),
+        );
+        self.inner
+            .metrics
+            .record_transaction_outcome(transport, outcome);
+        self.inner
+            .metrics
+            .record_complete(transport, &method, TransactionRole::Client);
+        Some(entry)
+    }
+
+    /// Server counterpart of [`Self::end_client`].
+    fn end_server(&self, key: &TransactionKey, outcome: TransactionOutcome) -> Option<ServerEntry> {
+        let (_, mut entry) = self.inner.server.remove(key)?;
+        entry.cancel_all();
+        let transport = TransportType::from(transport_kind_to_transport(entry.ctx.transport));
+        let method = format!("{:?}", entry.method);
+        self.inner.metrics.record_transaction_duration(
+            transport,
+            &method,
+            entry.start_time.elapsed(),
+        );
+        self.inner
+            .metrics
+            .record_transaction_outcome(transport, outcome);
+        self.inner
+            .metrics
+            .record_complete(transport, &method, TransactionRole::Server);
+        Some(entry)
+    }
+
     fn schedule_client_timer(
         &self,
         key: TransactionKey,
-- 
2.43.0


From c29ecffc42d6f14343460512f2b36b06da5716b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 22/63] fix: sip-transaction: admit transactions one at a time
 so caps and de-duplication hold

---
 crates/sip-transaction/src/manager.rs | 115 ++++++++++++++++----------
 1 file changed, 71 insertions(+), 44 deletions(-)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 0ce53d1..180b2a9 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -5,7 +5,7 @@
 use std::{
     collections::HashMap,
     net::SocketAddr,
-    sync::Arc,
+    sync::{Arc, Mutex},
     time::{Duration, Instant},
 };
 
@@ -422,6 +422,10 @@ struct ManagerInner {
     pool: Arc<ConnectionPool>,
     metrics: TransactionMetrics,
     limits: TransactionLimits,
+    /// Held while a transaction is admitted, so that the caps and the check for
+    /// an existing transaction hold however many arrive at once. Never held
+    /// across an await.
+    admission: Mutex<()>,
 }
 
 /// Helper to convert TransportKind to Transport for timer calculations
@@ -633,6 +637,7 @@ impl TransactionManager {
                 pool,
                 metrics: TransactionMetrics::new(),
                 limits,
+                admission: Mutex::new(()),
             }),
             cmd_tx,
         };
@@ -790,12 +795,7 @@ impl TransactionManager {
             }
         }
 
-        if let Some(mut entry) = self.inner.server.get_mut(&key) {
-            let actions = match &mut entry.kind {
-                ServerKind::Invite(fsm) => fsm.on_retransmit(),
-                ServerKind::NonInvite(fsm) => map_server_actions(fsm.on_retransmit()),
-            };
-            drop(entry);
+        if let Some(actions) = self.retransmission_actions(&key) {
             self.apply_server_actions(&key, actions).await;
             return ServerTransactionHandle {
                 manager: self.clone(),
@@ -826,45 +826,70 @@ impl TransactionManager {
 
         let method = request.method().clone();
         let transport_type = TransportType::from(transport);
-        self.inner.metrics.record_start(
-            transport_type,
-            &format!("{:?}", method),
-            TransactionRole::Server,
-        );
-        if let Some(via) = top_via(&request) {
-            self.inner.metrics.record_via_transport(via);
-        }
-        // Enforce transaction limits (evict oldest if at limit) before creating new entry
-        self.enforce_server_transaction_limit();
-
-        let mut entry = ServerEntry {
-            kind: match method {
-                Method::Invite => ServerKind::Invite(ServerInviteFsm::new(timers)),
-                _ => ServerKind::NonInvite(ServerNonInviteFsm::new(timers)),
-            },
-            ctx,
-            timers: HashMap::new(),
-            start_time: Instant::now(),
-            method,
-        };
+        let admitted = {
+            let _admission = self.inner.admission.lock().expect("admission lock");
+            if let Some(actions) = self.retransmission_actions(&key) {
+                // Another copy of this request got here first.
+                Err(actions)
+            } else {
+                self.inner.metrics.record_start(
+                    transport_type,
+                    &format!("{:?}", method),
+                    TransactionRole::Server,
+                );
+                if let Some(via) = top_via(&request) {
+                    self.inner.metrics.record_via_transport(via);
+                }
+                // Enforce transaction limits (evict oldest if at limit) before creating new entry
+                self.enforce_server_transaction_limit();
+
+                let mut entry = ServerEntry {
+                    kind: match method {
+                        Method::Invite => ServerKind::Invite(ServerInviteFsm::new(timers)),
+                        _ => ServerKind::NonInvite(ServerNonInviteFsm::new(timers)),
+                    },
+                    ctx,
+                    timers: HashMap::new(),
+                    start_time: Instant::now(),
+                    method,
+                };
+
+                let actions = match &mut entry.kind {
+                    ServerKind::Invite(fsm) => {
+                        fsm.on_event(ServerInviteEvent::ReceiveInvite(request))
+                    }
+                    ServerKind::NonInvite(fsm) => map_server_actions(
+                        fsm.on_event(ServerNonInviteEvent::ReceiveRequest(request)),
+                    ),
+                };
 
-        let actions = match &mut entry.kind {
-            ServerKind::Invite(fsm) => fsm.on_event(ServerInviteEvent::ReceiveInvite(request)),
-            ServerKind::NonInvite(fsm) => {
-                map_server_actions(fsm.on_event(ServerNonInviteEvent::ReceiveRequest(request)))
+                self.inner.server.insert(key.clone(), entry);
+                Ok(actions)
             }
         };
-
-        self.inner.server.insert(key.clone(), entry);
+        let (actions, retransmission) = match admitted {
+            Ok(actions) => (actions, false),
+            Err(actions) => (actions, true),
+        };
         self.apply_server_actions(&key, actions).await;
 
         ServerTransactionHandle {
             manager: self.clone(),
             key,
-            retransmission: false,
+            retransmission,
         }
     }
 
+    /// What a copy of the request of a live server transaction makes it do, or
+    /// `None` when there is no such transaction.
+    fn retransmission_actions(&self, key: &TransactionKey) -> Option<Vec<ServerInviteAction>> {
+        let entry = self.inner.server.get(key)?;
+        Some(match &entry.kind {
+            ServerKind::Invite(fsm) => fsm.on_retransmit(),
+            ServerKind::NonInvite(fsm) => map_server_actions(fsm.on_retransmit()),
+        })
+    }
+
     /// Starts a client transaction and transmits the initial request.
     pub async fn start_client_transaction(
         &self,
@@ -932,9 +957,6 @@ impl TransactionManager {
         let timers = TransportAwareTimers::with_defaults(transport, self.inner.timer_defaults);
         let transport_type = TransportType::from(transport);
 
-        // Enforce transaction limits (evict oldest if at limit) before creating new entry
-        self.enforce_client_transaction_limit();
-
         let (kind, actions) = if method == Method::Invite {
             let mut fsm = ClientInviteFsm::new(timers);
             let actions = fsm.on_event(ClientInviteEvent::SendInvite(request));
@@ -962,12 +984,17 @@ impl TransactionManager {
         };
         let tu = entry.tu.clone();
 
-        self.inner.client.insert(key.clone(), entry);
-        self.inner.metrics.record_start(
-            transport_type,
-            &format!("{:?}", key.method),
-            TransactionRole::Client,
-        );
+        {
+            let _admission = self.inner.admission.lock().expect("admission lock");
+            // Enforce transaction limits (evict oldest if at limit) before creating new entry
+            self.enforce_client_transaction_limit();
+            self.inner.client.insert(key.clone(), entry);
+            self.inner.metrics.record_start(
+                transport_type,
+                &format!("{:?}", key.method),
+                TransactionRole::Client,
+            );
+        }
         self.apply_client_actions(&key, actions, tu, ctx).await;
         Ok(key)
     }
-- 
2.43.0


From 423f6f3561d8c732b9539add361600cc7db07ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 23/63] fix: sip-transaction: an ACK opens no server
 transaction

---
 crates/sip-transaction/src/manager.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 180b2a9..5ead56c 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -793,6 +793,13 @@ impl TransactionManager {
                     };
                 }
             }
+            // No transaction of its own is ever created for an ACK (RFC 3261
+            // §17): nothing would answer it, so nothing would end it.
+            return ServerTransactionHandle {
+                manager: self.clone(),
+                key,
+                retransmission: false,
+            };
         }
 
         if let Some(actions) = self.retransmission_actions(&key) {
-- 
2.43.0


From 8d1902aa02198c57dc7fa21b7852fcf8735d7521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 24/63] fix: sip-transaction: a stalled send holds up no other
 transaction's timers

---
 crates/sip-transaction/src/manager.rs | 32 ++++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 5ead56c..9dc1cc0 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -744,20 +744,26 @@ impl TransactionManager {
         let manager = self.clone();
         tokio::spawn(async move {
             while let Some(cmd) = rx.recv().await {
-                match cmd {
-                    ManagerCommand::ServerTimerFired { key, timer } => {
-                        manager.handle_server_timer(key, timer).await;
-                    }
-                    ManagerCommand::ClientTimerFired { key, timer } => {
-                        manager.handle_client_timer(key, timer).await;
-                    }
-                    ManagerCommand::ClientTransportError { key } => {
-                        manager.process_client_transport_error(key).await;
-                    }
-                    ManagerCommand::ServerTransportError { key } => {
-                        manager.process_server_transport_error(key).await;
+                // Each command runs on its own: handling one may send, and a
+                // peer that stalls (or a queue this loop alone drains) must not
+                // hold up every other transaction's timers.
+                let manager = manager.clone();
+                tokio::spawn(async move {
+                    match cmd {
+                        ManagerCommand::ServerTimerFired { key, timer } => {
+                            manager.handle_server_timer(key, timer).await;
+                        }
+                        ManagerCommand::ClientTimerFired { key, timer } => {
+                            manager.handle_client_timer(key, timer).await;
+                        }
+                        ManagerCommand::ClientTransportError { key } => {
+                            manager.process_client_transport_error(key).await;
+                        }
+                        ManagerCommand::ServerTransportError { key } => {
+                            manager.process_server_transport_error(key).await;
+                        }
                     }
-                }
+                });
             }
         });
     }
-- 
2.43.0


From dfb8df00b630233100641a27316b3891052c3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 25/63] fix: sip-transaction: the timeout runs from the start,
 and no send outlives it

---
 crates/sip-transaction/src/fsm.rs     | 44 +++++++++++++++------------
 crates/sip-transaction/src/manager.rs | 10 ++++++
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 7af6162..e6d0c13 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -523,10 +523,18 @@ impl ClientInviteFsm {
         self.last_invite = Some(bytes.clone());
         self.state = crate::ClientInviteState::Calling;
 
-        let mut actions = vec![ClientInviteAction::Transmit {
-            bytes,
-            transport: TransportKind::Udp,
-        }];
+        // Timer B (transaction timeout) always runs, and from before the send,
+        // which may take its time or never return.
+        let mut actions = vec![
+            ClientInviteAction::Schedule {
+                timer: TransactionTimer::B,
+                duration: self.timers.duration(TransactionTimer::B),
+            },
+            ClientInviteAction::Transmit {
+                bytes,
+                transport: TransportKind::Udp,
+            },
+        ];
 
         // Only schedule Timer A if duration is non-zero (UDP only)
         let timer_a_duration = self.timers.duration(TransactionTimer::A);
@@ -537,12 +545,6 @@ impl ClientInviteFsm {
             });
         }
 
-        // Always schedule Timer B (transaction timeout)
-        actions.push(ClientInviteAction::Schedule {
-            timer: TransactionTimer::B,
-            duration: self.timers.duration(TransactionTimer::B),
-        });
-
         actions
     }
 
@@ -722,10 +724,18 @@ impl ClientNonInviteFsm {
         self.last_request = Some(bytes.clone());
         self.state = ClientNonInviteState::Trying;
 
-        let mut actions = vec![ClientAction::Transmit {
-            bytes,
-            transport: TransportKind::Udp,
-        }];
+        // Timer F (transaction timeout) always runs, and from before the send,
+        // which may take its time or never return.
+        let mut actions = vec![
+            ClientAction::Schedule {
+                timer: TransactionTimer::F,
+                duration: self.timers.duration(TransactionTimer::F),
+            },
+            ClientAction::Transmit {
+                bytes,
+                transport: TransportKind::Udp,
+            },
+        ];
 
         // Only schedule Timer E if duration is non-zero (UDP only)
         let timer_e_duration = self.timers.duration(TransactionTimer::E);
@@ -736,12 +746,6 @@ impl ClientNonInviteFsm {
             });
         }
 
-        // Always schedule Timer F (transaction timeout)
-        actions.push(ClientAction::Schedule {
-            timer: TransactionTimer::F,
-            duration: self.timers.duration(TransactionTimer::F),
-        });
-
         actions
     }
 
diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 9dc1cc0..148ab1c 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -505,7 +505,17 @@ impl TransactionManager {
         }
     }
 
+    /// Sends, giving up after 64*T1: a send that never returns must not keep its
+    /// transaction alive beyond every timer the transaction could have armed.
     async fn dispatch_with_pool(&self, ctx: &TransportContext, bytes: Bytes) -> Result<()> {
+        let limit = self.inner.timer_defaults.t1 * 64;
+        match time::timeout(limit, self.dispatch_unbounded(ctx, bytes)).await {
+            Ok(sent) => sent,
+            Err(_) => Err(anyhow!("send to {} timed out", ctx.peer)),
+        }
+    }
+
+    async fn dispatch_unbounded(&self, ctx: &TransportContext, bytes: Bytes) -> Result<()> {
         // Extract first line for logging
         let first_line = bytes
             .split(|&b| b == b'\r' || b == b'\n')
-- 
2.43.0


From cc3841c27b235a6ff1ee4aeebd71e05627c73c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 26/63] fix: sip-transaction: a 2xx in the wake of a timeout is
 no second outcome

---
 crates/sip-transaction/src/fsm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index e6d0c13..a57421a 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -463,6 +463,9 @@ pub struct ClientInviteFsm {
     timers: TransportAwareTimers,
     a_interval: Duration,
     last_invite: Option<Bytes>,
+    /// Ended by a 2xx, so that further 2xx (retransmitted or forked) belong to
+    /// the TU; after a timeout or transport error it has been told otherwise.
+    accepted: bool,
 }
 
 impl ClientInviteFsm {
@@ -481,6 +484,7 @@ impl ClientInviteFsm {
             timers,
             a_interval: a_initial,
             last_invite: None,
+            accepted: false,
         }
     }
 
@@ -497,7 +501,7 @@ impl ClientInviteFsm {
                 ClientInviteEvent::ReceiveFinal(response),
             ) => self.handle_final(*state, response),
             (Terminated, ClientInviteEvent::ReceiveFinal(response)) => {
-                if (200..=299).contains(&response.code()) {
+                if self.accepted && (200..=299).contains(&response.code()) {
                     self.handle_final_2xx(response)
                 } else {
                     Vec::new()
@@ -585,6 +589,7 @@ impl ClientInviteFsm {
     }
 
     fn handle_final_2xx(&mut self, response: Response) -> Vec<ClientInviteAction> {
+        self.accepted = true;
         self.state = crate::ClientInviteState::Terminated;
         vec![
             ClientInviteAction::Cancel(TransactionTimer::A),
-- 
2.43.0


From be8bb7cdd30e0a5279b20c07f01b4733fdd4cde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 27/63] fix: sip-transaction: no failover for a request that
 has been answered

---
 crates/sip-transaction/src/manager.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 148ab1c..84a30bb 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -393,6 +393,19 @@ impl ServerEntry {
 }
 
 impl ClientEntry {
+    fn awaits_final(&self) -> bool {
+        match &self.kind {
+            ClientKind::Invite(fsm) => matches!(
+                fsm.state(),
+                crate::ClientInviteState::Calling | crate::ClientInviteState::Proceeding
+            ),
+            ClientKind::NonInvite(fsm) => matches!(
+                fsm.state(),
+                crate::ClientNonInviteState::Trying | crate::ClientNonInviteState::Proceeding
+            ),
+        }
+    }
+
     fn cancel_timer(&mut self, timer: TransactionTimer) {
         if let Some(cancel) = self.timers.remove(&timer) {
             let _ = cancel.send(());
@@ -473,6 +486,12 @@ impl TransactionManager {
                     // escalate to the FSM.
                     let advanced = {
                         if let Some(mut entry) = self.inner.client.get_mut(key) {
+                            if !entry.awaits_final() {
+                                // Answered while this send was failing: trying
+                                // elsewhere would open a second server
+                                // transaction for a request that is over.
+                                return;
+                            }
                             if let Some(next) = (!entry.remaining_targets.is_empty())
                                 .then(|| entry.remaining_targets.remove(0))
                             {
-- 
2.43.0


From ea14dd74f62b6fdd9a672bbf7500b7cd97a84aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 28/63] fix: sip-observe: keep the minimum interval on a
 monotonic clock

The emission gate measured the interval on the system clock, so a backward
step silenced all metrics until the clock had caught up again and a forward
step let two records through together.
---
 crates/sip-observe/src/lib.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/sip-observe/src/lib.rs b/crates/sip-observe/src/lib.rs
index 7c9f313..6a56b3f 100644
--- a/crates/sip-observe/src/lib.rs
+++ b/crates/sip-observe/src/lib.rs
@@ -19,7 +19,7 @@ use once_cell::sync::OnceCell;
 use std::num::NonZeroU64;
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
-use std::time::{Duration, SystemTime, UNIX_EPOCH};
+use std::time::{Duration, Instant};
 use tracing::Level;
 
 /// Maximum length for transport identifiers emitted via tracing metrics.
@@ -139,6 +139,7 @@ impl TransportMetrics for TracingTransportMetrics {
 pub struct RateLimitedTracingTransportMetrics {
     min_interval: Duration,
     sample_every: NonZeroU64,
+    started: Instant,
     last_emit_ns: AtomicU64,
     counter: AtomicU64,
 }
@@ -148,6 +149,7 @@ impl RateLimitedTracingTransportMetrics {
         Self {
             min_interval,
             sample_every,
+            started: Instant::now(),
             last_emit_ns: AtomicU64::new(0),
             counter: AtomicU64::new(0),
         }
@@ -174,7 +176,10 @@ impl RateLimitedTracingTransportMetrics {
             return true;
         }
 
-        let now_ns = now_unix_ns();
+        // A monotonic clock, so that a step of the system clock neither
+        // silences the metrics nor lets two records through together. Offset by
+        // one interval: the first sampled event is never held back.
+        let now_ns = (self.started.elapsed().as_nanos() as u64).saturating_add(min_ns);
         let mut last = self.last_emit_ns.load(Ordering::Relaxed);
         loop {
             if now_ns.saturating_sub(last) < min_ns {
@@ -430,13 +435,6 @@ fn is_label_byte_safe(byte: u8) -> bool {
     matches!(byte, b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'.')
 }
 
-fn now_unix_ns() -> u64 {
-    SystemTime::now()
-        .duration_since(UNIX_EPOCH)
-        .map(|d| d.as_nanos() as u64)
-        .unwrap_or(0)
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 5cfb8be5292915ac972193f9fc027bea9cc90d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 29/63] fix: sip-dns: query the SRV name a NAPTR record names

The replacement field of a NAPTR record is the owner name of the SRV records
(RFC 3263 section 4.1). The service and protocol labels were prepended to it
once more, so no published SRV record reached through NAPTR was ever found and
resolution fell back to the address records and the default port.
---
 crates/sip-dns/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 244105f..96bc44d 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -649,9 +649,15 @@ impl SipResolver {
         transport: Transport,
         sips: bool,
     ) -> Result<Vec<DnsTarget>> {
-        let service = transport.as_service_str(sips);
-        let proto = transport.as_proto_str();
-        let srv_name = format!("{}._{}.{}", service, proto, host);
+        // The replacement of a NAPTR "s" record already is the name to query
+        // (RFC 3263 §4.1), e.g. `_sip._udp.example.com`.
+        let srv_name = if host.starts_with('_') {
+            host.to_string()
+        } else {
+            let service = transport.as_service_str(sips);
+            let proto = transport.as_proto_str();
+            format!("{}._{}.{}", service, proto, host)
+        };
 
         let lookup = tokio::time::timeout(
             self.query_timeout,
-- 
2.43.0


From 55d6bdf11b14260d078f457daaa7d265618a5cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 30/63] fix: sip-dns: one bad DHCP domain does not void the
 other servers

A domain from DHCP option 120 that cannot be a URI host failed the whole
resolution, although the other servers listed, or DNS, would have answered.
---
 crates/sip-dns/src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 96bc44d..737f28b 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -1214,11 +1214,12 @@ impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
                 }
                 DhcpSipServer::Domain(domain) => {
                     // Create a temporary URI with the DHCP domain for DNS resolution
-                    let temp_uri = uri
-                        .clone()
-                        .with_host(domain.clone())
-                        .map_err(|e| anyhow!(e))?
-                        .without_port();
+                    // A name no SIP URI can hold is skipped like one that
+                    // does not resolve
+                    let Ok(temp_uri) = uri.clone().with_host(domain.clone()) else {
+                        continue;
+                    };
+                    let temp_uri = temp_uri.without_port();
 
                     // Resolve the domain via DNS (RFC 3263)
                     if let Ok(targets) = self.dns_resolver.resolve(&temp_uri).await {
@@ -1305,11 +1306,10 @@ impl<D: DhcpProvider, R: Resolver> Resolver for HybridResolver<D, R> {
                             ));
                         }
                         DhcpSipServer::Domain(domain) => {
-                            let temp_uri = uri
-                                .clone()
-                                .with_host(domain.clone())
-                                .map_err(|e| anyhow!(e))?
-                                .without_port();
+                            let Ok(temp_uri) = uri.clone().with_host(domain.clone()) else {
+                                continue;
+                            };
+                            let temp_uri = temp_uri.without_port();
 
                             if let Ok(targets) = self.dns_resolver.resolve(&temp_uri).await {
                                 all_targets.extend(targets);
-- 
2.43.0


From 5088cc27fb725ba85645cdc654d10f56aa006125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 31/63] fix: sip-dns: the default port for TLS is 5061 under
 the sip scheme too

A sip URI with transport=tls and no port resolved to port 5060 (RFC 3261
section 19.1.2 gives 5061).
---
 crates/sip-dns/src/lib.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 737f28b..fb8ae8e 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -412,6 +412,15 @@ impl SipResolver {
         }
     }
 
+    /// The default port of the URI's transport: 5061 for TLS, also under the
+    /// `sip` scheme (RFC 3261 §19.1.2), otherwise 5060.
+    fn default_port(uri: &SipUri) -> u16 {
+        match Self::default_transport(uri) {
+            Transport::Tls | Transport::TlsSctp => 5061,
+            _ => 5060,
+        }
+    }
+
     /// Returns the transport parameter from the URI, if present.
     fn transport_param(uri: &SipUri) -> Option<Transport> {
         let transport_param = uri.params().get(&SmolStr::new("transport"))?;
@@ -439,9 +448,7 @@ impl SipResolver {
 
         // RFC 3263 §4: If numeric IP, use directly
         if Self::is_numeric_ip(host) {
-            let port = uri
-                .port()
-                .unwrap_or(if uri.is_sips() { 5061 } else { 5060 });
+            let port = uri.port().unwrap_or(Self::default_port(uri));
             return enforce_target_limit(vec![DnsTarget::unchecked_new(
                 host,
                 port,
@@ -506,7 +513,7 @@ impl SipResolver {
         // RFC 3263 §4.3: Fallback to A/AAAA if no SRV records. This is
         // the Twilio Secure Trunking path (hostname URI, no SRV).
         if all_targets.is_empty() {
-            let default_port = if uri.is_sips() { 5061 } else { 5060 };
+            let default_port = Self::default_port(uri);
             let ips = self.lookup_a_aaaa(host).await?;
             for ip in ips {
                 all_targets.push(
@@ -1208,7 +1215,7 @@ impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
             match server {
                 DhcpSipServer::Ipv4(addr) => {
                     // Use IPv4 address directly
-                    let port = if uri.is_sips() { 5061 } else { 5060 };
+                    let port = SipResolver::default_port(uri);
                     let transport = SipResolver::default_transport(uri);
                     all_targets.push(DnsTarget::unchecked_new(addr.to_string(), port, transport));
                 }
@@ -1297,7 +1304,7 @@ impl<D: DhcpProvider, R: Resolver> Resolver for HybridResolver<D, R> {
                 for server in servers {
                     match server {
                         DhcpSipServer::Ipv4(addr) => {
-                            let port = if uri.is_sips() { 5061 } else { 5060 };
+                            let port = SipResolver::default_port(uri);
                             let transport = SipResolver::default_transport(uri);
                             all_targets.push(DnsTarget::unchecked_new(
                                 addr.to_string(),
-- 
2.43.0


From 65fd496f13de4c5c9baa7f5cd3fd11f8989901d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 32/63] fix: sip-transport: deliver the complete messages that
 precede a framing error

---
 crates/sip-transport/src/lib.rs  |  36 ++++----
 crates/sip-transport/src/pool.rs | 144 +++++++++++++++----------------
 2 files changed, 92 insertions(+), 88 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 238a940..675f549 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -1563,7 +1563,7 @@ async fn spawn_tls_session(
     // set_stream_keepalive_interval).
     let mut keepalive = stream_keepalive_interval()
         .map(|d| tokio::time::interval_at(tokio::time::Instant::now() + d, d));
-    loop {
+    'session: loop {
         // Check if buffer has grown too large - protects against memory exhaustion
         if buf.len() >= MAX_BUFFER_SIZE {
             warn!(
@@ -1595,8 +1595,8 @@ async fn spawn_tls_session(
                 transport_metrics().on_packet_received(TransportLabel::Tls);
 
                 // Try to extract complete SIP messages
-                match drain_sip_frames(&mut buf) {
-                    Ok(frames) => {
+                let mut frames = Vec::new();
+                let framing = drain_sip_frames_into(&mut buf, &mut frames);
                         // First complete message ⇒ a real SIP speaker; switch
                         // off the Slowloris window to the established timeout.
                         if !frames.is_empty() {
@@ -1632,11 +1632,10 @@ async fn spawn_tls_session(
                                 error!("receiver dropped; shutting down tls session");
                                 transport_metrics()
                                     .on_error(TransportLabel::Tls, StageLabel::Dispatch);
-                                break;
+                                break 'session;
                             }
                         }
-                    }
-                    Err(e) => {
+                if let Err(e) = framing {
                         warn!(
                             peer = %peer,
                             error = %e,
@@ -1644,7 +1643,6 @@ async fn spawn_tls_session(
                         );
                         transport_metrics().on_error(TransportLabel::Tls, StageLabel::FramingError);
                         break;
-                    }
                 }
             }
             Ok(Err(e)) => {
@@ -1776,7 +1774,7 @@ async fn spawn_stream_session<S>(
     // set_stream_keepalive_interval).
     let mut keepalive = stream_keepalive_interval()
         .map(|d| tokio::time::interval_at(tokio::time::Instant::now() + d, d));
-    loop {
+    'session: loop {
         // Check if buffer has grown too large - protects against memory exhaustion
         if buf.len() >= MAX_BUFFER_SIZE {
             warn!(
@@ -1804,8 +1802,8 @@ async fn spawn_stream_session<S>(
                 transport_metrics().on_packet_received(transport.into());
 
                 // Try to extract complete SIP messages
-                match drain_sip_frames(&mut buf) {
-                    Ok(frames) => {
+                let mut frames = Vec::new();
+                let framing = drain_sip_frames_into(&mut buf, &mut frames);
                         // First complete message ⇒ a real SIP speaker; switch
                         // off the Slowloris window to the established timeout.
                         if !frames.is_empty() {
@@ -1845,11 +1843,10 @@ async fn spawn_stream_session<S>(
                                 error!("receiver dropped; shutting down {:?} session", transport);
                                 transport_metrics()
                                     .on_error(transport.into(), StageLabel::Dispatch);
-                                break;
+                                break 'session;
                             }
                         }
-                    }
-                    Err(e) => {
+                if let Err(e) = framing {
                         warn!(
                             peer = %peer,
                             error = %e,
@@ -1857,7 +1854,6 @@ async fn spawn_stream_session<S>(
                         );
                         transport_metrics().on_error(transport.into(), StageLabel::FramingError);
                         break;
-                    }
                 }
             }
             Ok(Err(e)) => {
@@ -1889,8 +1885,18 @@ async fn spawn_stream_session<S>(
 ///
 /// Enforces MAX_HEADER_SIZE and MAX_BODY_SIZE limits to prevent memory exhaustion attacks.
 /// Returns an error if limits are exceeded, causing the connection to be closed.
+#[cfg(test)]
 pub(crate) fn drain_sip_frames(buf: &mut BytesMut) -> Result<Vec<Bytes>> {
     let mut frames = Vec::new();
+    drain_sip_frames_into(buf, &mut frames)?;
+    Ok(frames)
+}
+
+/// As [`drain_sip_frames`], appending to `frames`: on an error it holds the
+/// complete messages that preceded the bad one. They are the peer's, and
+/// whether they shared a read with what follows is up to the network, so the
+/// caller delivers them before it closes the connection.
+pub(crate) fn drain_sip_frames_into(buf: &mut BytesMut, frames: &mut Vec<Bytes>) -> Result<()> {
     loop {
         // Handle CRLF keep-alive pings (RFC 5626)
         consume_leading_crlf(buf);
@@ -1960,7 +1966,7 @@ pub(crate) fn drain_sip_frames(buf: &mut BytesMut) -> Result<Vec<Bytes>> {
 
         frames.push(buf.split_to(needed).freeze());
     }
-    Ok(frames)
+    Ok(())
 }
 
 fn consume_leading_crlf(buf: &mut BytesMut) {
diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index ccc9ab2..de21833 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -56,7 +56,7 @@ pub enum ConnectionEvent {
 /// events are still delivered to subscribers that keep up.
 const CONNECTION_EVENT_CHANNEL_CAPACITY: usize = 256;
 
-use crate::{drain_sip_frames, InboundPacket, TransportKind, MAX_BUFFER_SIZE};
+use crate::{drain_sip_frames_into, InboundPacket, TransportKind, MAX_BUFFER_SIZE};
 
 /// Maximum number of pooled TCP connections (prevents file descriptor exhaustion).
 const MAX_POOL_SIZE: usize = 1000;
@@ -610,56 +610,54 @@ impl ConnectionPool {
                         }
                         Ok(n) => {
                             debug!(peer = %peer, bytes = n, "TCP client read {} bytes", n);
-                            match drain_sip_frames(&mut buf) {
-                                Ok(frames) => {
-                                    debug!(peer = %peer, frame_count = frames.len(), "TCP client drained {} SIP frames", frames.len());
-                                    for payload in frames {
-                                        // Extract first line for logging
-                                        let first_line = payload
-                                            .split(|&b| b == b'\r' || b == b'\n')
-                                            .next()
-                                            .and_then(|line| std::str::from_utf8(line).ok())
-                                            .unwrap_or("<invalid>");
-                                        debug!(peer = %peer, first_line = %first_line, "TCP client sending frame to inbound_tx");
-
-                                        // Inbound half of the pooled
-                                        // connection: the responses (and
-                                        // any in-dialog requests) the peer
-                                        // sends back. Emitted here for the
-                                        // same reason as the writer's
-                                        // outbound half (#341).
-                                        emit_pool_hep(
-                                            sip_hep::Direction::Inbound,
-                                            hep_local,
-                                            peer,
-                                            &payload,
-                                        );
-
-                                        let packet = InboundPacket {
-                                            transport: TransportKind::Tcp,
-                                            peer,
-                                            payload,
-                                            stream: Some(writer_tx.clone()),
-                                            // Arrived on a pooled outbound connection
-                                            // (RFC 5923 reuse), not a listener — no
-                                            // listener port to advertise.
-                                            local: None,
-                                        };
-                                        if inbound_tx.send(packet).await.is_err() {
-                                            warn!(peer = %peer, "TCP client inbound_tx channel closed");
-                                            break;
-                                        }
-                                    }
-                                }
-                                Err(e) => {
-                                    warn!(
-                                        peer = %peer,
-                                        error = %e,
-                                        "tcp client framing error, closing connection"
-                                    );
-                                    break;
+                            let mut frames = Vec::new();
+                            let framing = drain_sip_frames_into(&mut buf, &mut frames);
+                            debug!(peer = %peer, frame_count = frames.len(), "TCP client drained {} SIP frames", frames.len());
+                            for payload in frames {
+                                // Extract first line for logging
+                                let first_line = payload
+                                    .split(|&b| b == b'\r' || b == b'\n')
+                                    .next()
+                                    .and_then(|line| std::str::from_utf8(line).ok())
+                                    .unwrap_or("<invalid>");
+                                debug!(peer = %peer, first_line = %first_line, "TCP client sending frame to inbound_tx");
+
+                                // Inbound half of the pooled
+                                // connection: the responses (and
+                                // any in-dialog requests) the peer
+                                // sends back. Emitted here for the
+                                // same reason as the writer's
+                                // outbound half (#341).
+                                emit_pool_hep(
+                                    sip_hep::Direction::Inbound,
+                                    hep_local,
+                                    peer,
+                                    &payload,
+                                );
+
+                                let packet = InboundPacket {
+                                    transport: TransportKind::Tcp,
+                                    peer,
+                                    payload,
+                                    stream: Some(writer_tx.clone()),
+                                    // Arrived on a pooled outbound connection
+                                    // (RFC 5923 reuse), not a listener — no
+                                    // listener port to advertise.
+                                    local: None,
+                                };
+                                if inbound_tx.send(packet).await.is_err() {
+                                    warn!(peer = %peer, "TCP client inbound_tx channel closed");
+                                    return;
                                 }
                             }
+                            if let Err(e) = framing {
+                                warn!(
+                                    peer = %peer,
+                                    error = %e,
+                                    "tcp client framing error, closing connection"
+                                );
+                                break;
+                            }
                         }
                         Err(e) => {
                             warn!(
@@ -1215,31 +1213,31 @@ impl TlsPool {
                     }
                     match reader.read_buf(&mut buf).await {
                         Ok(0) => break,
-                        Ok(_) => match drain_sip_frames(&mut buf) {
-                            Ok(frames) => {
-                                for payload in frames {
-                                    // Inbound half of the pooled TLS
-                                    // connection (#341).
-                                    emit_pool_hep(
-                                        sip_hep::Direction::Inbound,
-                                        hep_local,
-                                        peer,
-                                        &payload,
-                                    );
-                                    let packet = InboundPacket {
-                                        transport: TransportKind::Tls,
-                                        peer,
-                                        payload,
-                                        stream: Some(writer_tx.clone()),
-                                        local: None,
-                                    };
-                                    if inbound_tx.send(packet).await.is_err() {
-                                        warn!(peer = %peer, "tls client inbound_tx channel closed");
-                                        return;
-                                    }
+                        Ok(_) => {
+                            let mut frames = Vec::new();
+                            let framing = drain_sip_frames_into(&mut buf, &mut frames);
+                            for payload in frames {
+                                // Inbound half of the pooled TLS
+                                // connection (#341).
+                                emit_pool_hep(
+                                    sip_hep::Direction::Inbound,
+                                    hep_local,
+                                    peer,
+                                    &payload,
+                                );
+                                let packet = InboundPacket {
+                                    transport: TransportKind::Tls,
+                                    peer,
+                                    payload,
+                                    stream: Some(writer_tx.clone()),
+                                    local: None,
+                                };
+                                if inbound_tx.send(packet).await.is_err() {
+                                    warn!(peer = %peer, "tls client inbound_tx channel closed");
+                                    return;
                                 }
                             }
-                            Err(e) => {
+                            if let Err(e) = framing {
                                 warn!(
                                     peer = %peer,
                                     error = %e,
@@ -1247,7 +1245,7 @@ impl TlsPool {
                                 );
                                 break;
                             }
-                        },
+                        }
                         Err(e) => {
                             warn!(
                                 peer = %peer,
-- 
2.43.0


From 5868e7da7dbc4ae407c5e7ddc75fc3b864ae4041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 33/63] fix: sip-transport: stream framing does not depend on
 how the header is cut or folded

---
 crates/sip-transport/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 675f549..31098ef 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -1908,8 +1908,10 @@ pub(crate) fn drain_sip_frames_into(buf: &mut BytesMut, frames: &mut Vec<Bytes>)
         let head_end = match memchr::memmem::find(buf.as_ref(), b"\r\n\r\n") {
             Some(pos) => pos,
             None => {
-                // No complete headers yet - check if buffer is growing too large
-                if buf.len() > MAX_HEADER_SIZE {
+                // No complete headers yet - check if buffer is growing too large.
+                // Up to three bytes of the terminator may already be here: a
+                // header at the limit passes however its end is cut up.
+                if buf.len() > MAX_HEADER_SIZE + 3 {
                     return Err(anyhow!(
                         "SIP headers exceed MAX_HEADER_SIZE ({} bytes), possible attack",
                         MAX_HEADER_SIZE
@@ -1989,12 +1991,22 @@ fn consume_leading_crlf(buf: &mut BytesMut) {
 
 fn parse_content_length(headers: &[u8]) -> Result<Option<usize>> {
     let mut found: Option<usize> = None;
+    let mut in_content_length = false;
     for line in headers.split(|b| *b == b'\n') {
         let line = if line.ends_with(b"\r") {
             &line[..line.len().saturating_sub(1)]
         } else {
             line
         };
+        // RFC 3261 §7.3.1: a line that starts with white space continues the
+        // header before it, whatever it looks like.
+        if line.starts_with(b" ") || line.starts_with(b"\t") {
+            if in_content_length && !trim_ascii_whitespace(line).is_empty() {
+                return Err(anyhow!("Content-Length header value is folded"));
+            }
+            continue;
+        }
+        in_content_length = false;
         let Some(colon) = memchr::memchr(b':', line) else {
             continue;
         };
@@ -2003,6 +2015,7 @@ fn parse_content_length(headers: &[u8]) -> Result<Option<usize>> {
         if !ascii_eq_ignore_case(name, b"content-length") && !ascii_eq_ignore_case(name, b"l") {
             continue;
         }
+        in_content_length = true;
         let value = trim_ascii_whitespace(&line[colon + 1..]);
         let parsed = parse_ascii_usize(value)?;
         if let Some(existing) = found {
-- 
2.43.0


From 276b661a720e59a58ead84b5a2cbec3fca1fe9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 34/63] fix: sip-transport: idle windows of a stream session
 are deadlines

---
 crates/sip-transport/src/lib.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 31098ef..1eef027 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -1558,6 +1558,8 @@ async fn spawn_tls_session(
     // False until this connection frames its first complete SIP message;
     // gates the Slowloris vs established idle timeout (see select_idle_timeout).
     let mut established = false;
+    let opened = tokio::time::Instant::now();
+    let mut last_inbound = opened;
     // Optional CRLF keepalive on established connections, so a quiet
     // trunk call's signaling path survives carrier idle windows (see
     // set_stream_keepalive_interval).
@@ -1578,19 +1580,25 @@ async fn spawn_tls_session(
         // Idle timeout: a short Slowloris window until the peer completes its
         // first SIP message, then the long (configurable) established timeout,
         // so a quiet-but-live trunk connection isn't reaped mid-call.
+        //
+        // Both are deadlines: the first counts from the accept, so that bytes
+        // dribbling in do not extend it, the second from the last inbound
+        // byte, so that our own keepalive ticks do not.
         let idle_timeout = select_idle_timeout(established);
+        let idle_deadline = if established { last_inbound } else { opened } + idle_timeout;
         tokio::select! {
             _ = maybe_keepalive_tick(&mut keepalive), if established => {
                 // RFC 5626 double-CRLF ping (see CRLF_KEEPALIVE_PING).
                 // try_send so a wedged writer can never stall reads.
                 let _ = writer_tx.try_send(Bytes::from_static(CRLF_KEEPALIVE_PING));
             }
-            result = tokio::time::timeout(idle_timeout, reader.read_buf(&mut buf)) => match result {
+            result = tokio::time::timeout_at(idle_deadline, reader.read_buf(&mut buf)) => match result {
             Ok(Ok(0)) => {
                 info!(%peer, "tls connection closed by peer (EOF)");
                 break;
             }
             Ok(Ok(n)) => {
+                last_inbound = tokio::time::Instant::now();
                 info!(%peer, bytes_read = n, buffer_len = buf.len(), "tls data received");
                 transport_metrics().on_packet_received(TransportLabel::Tls);
 
@@ -1769,6 +1777,8 @@ async fn spawn_stream_session<S>(
     // False until this connection frames its first complete SIP message;
     // gates the Slowloris vs established idle timeout (see select_idle_timeout).
     let mut established = false;
+    let opened = tokio::time::Instant::now();
+    let mut last_inbound = opened;
     // Optional CRLF keepalive on established connections, so a quiet
     // trunk call's signaling path survives carrier idle windows (see
     // set_stream_keepalive_interval).
@@ -1789,16 +1799,22 @@ async fn spawn_stream_session<S>(
         // Idle timeout: a short Slowloris window until the peer completes its
         // first SIP message, then the long (configurable) established timeout,
         // so a quiet-but-live trunk connection isn't reaped mid-call.
+        //
+        // Both are deadlines: the first counts from the accept, so that bytes
+        // dribbling in do not extend it, the second from the last inbound
+        // byte, so that our own keepalive ticks do not.
         let idle_timeout = select_idle_timeout(established);
+        let idle_deadline = if established { last_inbound } else { opened } + idle_timeout;
         tokio::select! {
             _ = maybe_keepalive_tick(&mut keepalive), if established => {
                 // RFC 5626 double-CRLF ping (see CRLF_KEEPALIVE_PING).
                 // try_send so a wedged writer can never stall reads.
                 let _ = writer_tx.try_send(Bytes::from_static(CRLF_KEEPALIVE_PING));
             }
-            result = tokio::time::timeout(idle_timeout, reader.read_buf(&mut buf)) => match result {
+            result = tokio::time::timeout_at(idle_deadline, reader.read_buf(&mut buf)) => match result {
             Ok(Ok(0)) => break,
             Ok(Ok(_)) => {
+                last_inbound = tokio::time::Instant::now();
                 transport_metrics().on_packet_received(transport.into());
 
                 // Try to extract complete SIP messages
-- 
2.43.0


From 2dbc8d889dbf0cf4d870d9bfbf444bffb6f9d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 35/63] fix: sip-transport: a peer that stops reading does not
 hold a session or its senders

---
 crates/sip-transport/src/lib.rs | 59 ++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 1eef027..6aaae53 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -190,6 +190,14 @@ async fn maybe_keepalive_tick(interval: &mut Option<tokio::time::Interval>) {
 /// Prevents indefinite blocking when a peer is unreachable or firewalled.
 const CONNECT_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(5);
 
+/// How long the end of an inbound stream session waits for the peer to take
+/// the frames still queued for it.
+const SESSION_CLOSE_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(5);
+
+/// How long a message waits for room in the queue of a stream connection whose
+/// peer does not read.
+const STREAM_QUEUE_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(5);
+
 /// Maximum number of concurrent sessions allowed from a single IP address.
 /// Prevents a single source from exhausting the global session limit.
 const MAX_SESSIONS_PER_IP: usize = 64;
@@ -776,9 +784,9 @@ pub async fn send_stream(
     writer: &mpsc::Sender<Bytes>,
     data: Bytes,
 ) -> Result<()> {
-    writer
-        .send(data)
+    tokio::time::timeout(STREAM_QUEUE_TIMEOUT, writer.send(data))
         .await
+        .map_err(|_| anyhow!("connection queue full for {:?}", STREAM_QUEUE_TIMEOUT))?
         .map_err(|_| anyhow!("connection writer dropped"))?;
     transport_metrics().on_packet_sent(transport.into());
     Ok(())
@@ -1685,22 +1693,32 @@ async fn spawn_tls_session(
     // dead socket until Timer B (issue #73).
     let _ = shutdown_tx.send(());
     drop(writer_tx);
-    match writer_handle.await {
-        Ok(writer) => {
-            // Reunite the stream halves
-            let mut tls_stream = reader.unsplit(writer);
-
-            // Perform proper TLS shutdown - send close_notify alert
-            if let Err(e) = tls_stream.shutdown().await {
-                // Don't log error if it's just "NotConnected" - peer may have already closed
-                if e.kind() != std::io::ErrorKind::NotConnected {
-                    warn!(%e, "tls shutdown error");
+    // A peer that has stopped reading gets a bounded time to take what is
+    // queued: the session's slot is held until this returns.
+    let writer_abort = writer_handle.abort_handle();
+    let closed = tokio::time::timeout(SESSION_CLOSE_TIMEOUT, async move {
+        match writer_handle.await {
+            Ok(writer) => {
+                // Reunite the stream halves
+                let mut tls_stream = reader.unsplit(writer);
+
+                // Perform proper TLS shutdown - send close_notify alert
+                if let Err(e) = tls_stream.shutdown().await {
+                    // Don't log error if it's just "NotConnected" - peer may have already closed
+                    if e.kind() != std::io::ErrorKind::NotConnected {
+                        warn!(%e, "tls shutdown error");
+                    }
                 }
             }
+            Err(e) => {
+                error!(%e, "failed to join writer task, cannot perform tls shutdown");
+            }
         }
-        Err(e) => {
-            error!(%e, "failed to join writer task, cannot perform tls shutdown");
-        }
+    })
+    .await;
+    if closed.is_err() {
+        warn!(%peer, "tls peer does not take the queued frames, dropping connection");
+        writer_abort.abort();
     }
 }
 
@@ -1892,7 +1910,16 @@ async fn spawn_stream_session<S>(
     // the session — so signal the writer explicitly (issue #73).
     let _ = shutdown_tx.send(());
     drop(writer_tx);
-    let _ = writer_handle.await;
+    // A peer that has stopped reading gets a bounded time to take what is
+    // queued: the session's slot is held until this returns.
+    let writer_abort = writer_handle.abort_handle();
+    if tokio::time::timeout(SESSION_CLOSE_TIMEOUT, writer_handle)
+        .await
+        .is_err()
+    {
+        warn!(%peer, "peer does not take the queued frames, dropping connection");
+        writer_abort.abort();
+    }
 }
 
 /// Splits buffered TCP/TLS data into complete SIP messages using Content-Length or CRLFCRLF.
-- 
2.43.0


From c0dd4d4974e164eeed56212c3a9aee8456f256b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 36/63] fix: sip-transport: a session accepted as another ends
 keeps its per-source count

---
 crates/sip-transport/src/lib.rs | 42 ++++++++++++---------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 6aaae53..4cefa4b 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -655,6 +655,16 @@ pub async fn send_udp(socket: &UdpSocket, to: &std::net::SocketAddr, data: &[u8]
     Ok(())
 }
 
+/// Ends one session's claim on its source's count. The entry goes with the
+/// last claim, and only while it is still the last: a connection accepted in
+/// between has its own.
+fn release_per_ip(per_ip: &dashmap::DashMap<std::net::IpAddr, usize>, ip: &std::net::IpAddr) {
+    if let Some(mut count) = per_ip.get_mut(ip) {
+        *count = count.saturating_sub(1);
+    }
+    per_ip.remove_if(ip, |_, count| *count == 0);
+}
+
 /// Accepts TCP connections, streaming frames to the supplied channel.
 pub async fn run_tcp(bind: &str, tx: mpsc::Sender<InboundPacket>) -> Result<()> {
     let bind_addr: SocketAddr = bind
@@ -717,9 +727,7 @@ pub async fn run_tcp(bind: &str, tx: mpsc::Sender<InboundPacket>) -> Result<()>
             Ok(permit) => permit,
             Err(_) => {
                 // Undo per-IP increment
-                if let Some(mut count) = per_ip.get_mut(&ip) {
-                    *count = count.saturating_sub(1);
-                }
+                release_per_ip(&per_ip, &ip);
                 warn!(%peer, "tcp session limit reached; dropping connection");
                 transport_metrics().on_error(TransportLabel::Tcp, StageLabel::SessionLimit);
                 continue;
@@ -742,13 +750,7 @@ pub async fn run_tcp(bind: &str, tx: mpsc::Sender<InboundPacket>) -> Result<()>
             )
             .await;
             // Decrement per-IP counter when session ends
-            if let Some(mut count) = per_ip_clone.get_mut(&ip) {
-                *count = count.saturating_sub(1);
-                if *count == 0 {
-                    drop(count);
-                    per_ip_clone.remove(&ip);
-                }
-            }
+            release_per_ip(&per_ip_clone, &ip);
         });
     }
 }
@@ -1313,9 +1315,7 @@ pub async fn run_tls_with_swappable_config(
             Ok(permit) => permit,
             Err(_) => {
                 // Undo per-IP increment
-                if let Some(mut count) = per_ip.get_mut(&ip) {
-                    *count = count.saturating_sub(1);
-                }
+                release_per_ip(&per_ip, &ip);
                 warn!(%peer, "tls session limit reached; dropping connection");
                 transport_metrics().on_error(TransportLabel::Tls, StageLabel::SessionLimit);
                 continue;
@@ -1339,13 +1339,7 @@ pub async fn run_tls_with_swappable_config(
                     error!(%e, "tls handshake error");
                     transport_metrics().on_error(TransportLabel::Tls, StageLabel::Handshake);
                     // Decrement per-IP counter on early return
-                    if let Some(mut count) = per_ip_clone.get_mut(&ip) {
-                        *count = count.saturating_sub(1);
-                        if *count == 0 {
-                            drop(count);
-                            per_ip_clone.remove(&ip);
-                        }
-                    }
+                    release_per_ip(&per_ip_clone, &ip);
                     return;
                 }
             };
@@ -1354,13 +1348,7 @@ pub async fn run_tls_with_swappable_config(
             // Use TLS-specific session handler with proper shutdown support
             spawn_tls_session(peer, local_addr, tls_stream, tx).await;
             // Decrement per-IP counter when session ends
-            if let Some(mut count) = per_ip_clone.get_mut(&ip) {
-                *count = count.saturating_sub(1);
-                if *count == 0 {
-                    drop(count);
-                    per_ip_clone.remove(&ip);
-                }
-            }
+            release_per_ip(&per_ip_clone, &ip);
         });
     }
 }
-- 
2.43.0


From c5b83bdfe8347c11401257eaade88105f3e397cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 37/63] fix: sip-transport: a silent peer does not hold a TLS
 handshake open

---
 crates/sip-transport/src/lib.rs  | 21 ++++++++++++++++++---
 crates/sip-transport/src/pool.rs |  7 ++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 4cefa4b..9cf3697 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -1181,7 +1181,10 @@ pub async fn run_wss_with_swappable_config(
         let acceptor = TlsAcceptor::from(swappable.load_full());
         tokio::spawn(async move {
             let _permit = permit;
-            match acceptor.accept(stream).await {
+            let handshake = tokio::time::timeout(HANDSHAKE_IDLE_TIMEOUT, acceptor.accept(stream))
+                .await
+                .unwrap_or_else(|_| Err(std::io::ErrorKind::TimedOut.into()));
+            match handshake {
                 Ok(tls_stream) => {
                     if let Err(e) =
                         handle_ws_connection(peer, local_addr, tls_stream, TransportKind::Wss, tx)
@@ -1209,7 +1212,16 @@ pub async fn send_tls(to: &SocketAddr, data: &[u8], config: &TlsConfig) -> Resul
         .await
         .map_err(|_| anyhow!("TLS connect timeout after {:?} to {}", CONNECT_TIMEOUT, to))??;
     let local = stream.local_addr().ok();
-    let mut tls_stream = connector.connect(server_name, stream).await?;
+    let mut tls_stream =
+        tokio::time::timeout(CONNECT_TIMEOUT, connector.connect(server_name, stream))
+            .await
+            .map_err(|_| {
+                anyhow!(
+                    "TLS handshake timeout after {:?} to {}",
+                    CONNECT_TIMEOUT,
+                    to
+                )
+            })??;
     tls_stream.write_all(data).await?;
     transport_metrics().on_packet_sent(TransportLabel::Tls);
     if let (Some(emitter), Some(local)) = (sip_hep::sip_hep(), local) {
@@ -1333,7 +1345,10 @@ pub async fn run_tls_with_swappable_config(
             let _permit = permit;
             let span = span_with_transport("tls_session", TransportLabel::Tls);
             let _entered = span.enter();
-            let tls_stream = match acceptor.accept(stream).await {
+            let handshake = tokio::time::timeout(HANDSHAKE_IDLE_TIMEOUT, acceptor.accept(stream))
+                .await
+                .unwrap_or_else(|_| Err(std::io::ErrorKind::TimedOut.into()));
+            let tls_stream = match handshake {
                 Ok(s) => s,
                 Err(e) => {
                     error!(%e, "tls handshake error");
diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index de21833..18f80fe 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -1158,7 +1158,12 @@ impl TlsPool {
         // HEP src for this pooled connection — read before the TCP stream
         // is consumed by the TLS handshake (#341).
         let hep_local = stream.local_addr().ok();
-        let tls_stream = connector.connect(server_name, stream).await?;
+        let tls_stream = tokio::time::timeout(
+            std::time::Duration::from_secs(5),
+            connector.connect(server_name, stream),
+        )
+        .await
+        .map_err(|_| anyhow!("TLS pool handshake timeout after 5s to {}", addr))??;
         // Split so the reader and writer tasks own separate halves; without
         // this the writer task holds the only handle to the TLS stream and
         // we never read responses (the original send_tls bug).
-- 
2.43.0


From b5ee305fe592b2bbb72fcc7371e1942285681d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 38/63] fix: sip-transport: a send does not hold the pool's
 lock while it waits

---
 crates/sip-transport/src/pool.rs | 82 ++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 36 deletions(-)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index 18f80fe..ccb2dde 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -56,7 +56,9 @@ pub enum ConnectionEvent {
 /// events are still delivered to subscribers that keep up.
 const CONNECTION_EVENT_CHANNEL_CAPACITY: usize = 256;
 
-use crate::{drain_sip_frames_into, InboundPacket, TransportKind, MAX_BUFFER_SIZE};
+use crate::{
+    drain_sip_frames_into, InboundPacket, TransportKind, MAX_BUFFER_SIZE, STREAM_QUEUE_TIMEOUT,
+};
 
 /// Maximum number of pooled TCP connections (prevents file descriptor exhaustion).
 const MAX_POOL_SIZE: usize = 1000;
@@ -85,6 +87,9 @@ pub(crate) const CRLF_KEEPALIVE_PING: &[u8] = b"\r\n\r\n";
 /// Connection entry with activity tracking for eviction.
 #[derive(Debug)]
 struct PoolEntry {
+    /// Tells this connection from a later one under the same key, so that
+    /// whoever finds it dead removes it and not its successor.
+    id: u64,
     sender: Sender<Bytes>,
     last_used: Instant,
     /// Abort handles for spawned tasks (writer + reader) to clean up on eviction.
@@ -105,7 +110,9 @@ impl Drop for PoolEntry {
 
 impl PoolEntry {
     fn new(sender: Sender<Bytes>, permit: OwnedSemaphorePermit) -> Self {
+        static NEXT_ID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
         Self {
+            id: NEXT_ID.fetch_add(1, std::sync::atomic::Ordering::Relaxed),
             sender,
             last_used: Instant::now(),
             task_handles: Vec::new(),
@@ -132,6 +139,34 @@ impl PoolEntry {
     }
 }
 
+/// Queues `payload` on the pooled connection under `key`. `Ok(false)` when
+/// there is none, or it has died (it is removed then).
+///
+/// The map is not locked while a full queue is waited for: its shard serves
+/// other peers too, and the task that would drain the queue.
+async fn send_on_existing<K>(map: &DashMap<K, PoolEntry>, key: &K, payload: &Bytes) -> Result<bool>
+where
+    K: std::hash::Hash + Eq,
+{
+    let Some((id, sender)) = map.get_mut(key).map(|mut entry| {
+        entry.touch(); // Update last activity time
+        (entry.id, entry.sender.clone())
+    }) else {
+        return Ok(false);
+    };
+    match tokio::time::timeout(STREAM_QUEUE_TIMEOUT, sender.send(payload.clone())).await {
+        Ok(Ok(())) => Ok(true),
+        Ok(Err(_)) => {
+            map.remove_if(key, |_, entry| entry.id == id);
+            Ok(false)
+        }
+        Err(_) => Err(anyhow!(
+            "connection queue full for {:?}",
+            STREAM_QUEUE_TIMEOUT
+        )),
+    }
+}
+
 /// Drives a writer half of a TCP / TLS stream, consuming send frames
 /// from the supplied channel and interleaving RFC 6223 CRLF keepalive
 /// pings on a configurable interval.
@@ -511,17 +546,9 @@ impl ConnectionPool {
         debug!(peer = %addr, "send_tcp called");
 
         // Try to use existing connection
-        if let Some(mut entry) = self.tcp.get_mut(&addr) {
-            debug!(peer = %addr, "found existing TCP connection, reusing");
-            entry.touch(); // Update last activity time
-            if entry.sender.send(payload.clone()).await.is_ok() {
-                debug!(peer = %addr, "reused existing TCP connection successfully");
-                return Ok(());
-            }
-            // Connection failed, remove it
-            debug!(peer = %addr, "existing TCP connection failed, removing");
-            drop(entry);
-            self.tcp.remove(&addr);
+        if send_on_existing(&self.tcp, &addr, &payload).await? {
+            debug!(peer = %addr, "reused existing TCP connection successfully");
+            return Ok(());
         }
 
         debug!(peer = %addr, "no existing connection found, creating new TCP connection");
@@ -712,15 +739,9 @@ impl ConnectionPool {
         debug!(url = %key, "send_ws called");
 
         // Try to use existing connection
-        if let Some(mut entry) = self.ws.get_mut(&key) {
-            entry.touch();
-            if entry.sender.send(payload.clone()).await.is_ok() {
-                debug!(url = %key, "reused existing WS connection successfully");
-                return Ok(());
-            }
-            drop(entry);
-            self.ws.remove(&key);
-            debug!(url = %key, "existing WS connection failed, removed");
+        if send_on_existing(&self.ws, &key, &payload).await? {
+            debug!(url = %key, "reused existing WS connection successfully");
+            return Ok(());
         }
 
         // Atomically reserve a slot (shared semaphore across TCP and WS) so
@@ -1102,14 +1123,8 @@ impl TlsPool {
         let key = (addr, server_name.clone());
 
         // Try to use existing connection (same peer + SNI).
-        if let Some(mut entry) = self.inner.get_mut(&key) {
-            entry.touch(); // Update last activity time
-            if entry.sender.send(payload.clone()).await.is_ok() {
-                return Ok(());
-            }
-            // Connection failed, remove it
-            drop(entry);
-            self.inner.remove(&key);
+        if send_on_existing(&self.inner, &key, &payload).await? {
+            return Ok(());
         }
 
         // RFC 5923 connection reuse: fall back to any live connection to the
@@ -1132,13 +1147,8 @@ impl TlsPool {
             .find(|e| e.key().0 == addr)
             .map(|e| e.key().clone());
         if let Some(k) = addr_match {
-            if let Some(mut entry) = self.inner.get_mut(&k) {
-                entry.touch();
-                if entry.sender.send(payload.clone()).await.is_ok() {
-                    return Ok(());
-                }
-                drop(entry);
-                self.inner.remove(&k);
+            if send_on_existing(&self.inner, &k, &payload).await? {
+                return Ok(());
             }
         }
 
-- 
2.43.0


From b724e9068fc4b2525a81da81a20470519f950e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 39/63] fix: sip-transport: a pooled connection ends once, with
 its entry, after writing what it accepted

---
 crates/sip-transport/src/pool.rs | 625 ++++++++++++++++---------------
 1 file changed, 333 insertions(+), 292 deletions(-)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index ccb2dde..bb18922 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -15,7 +15,7 @@ use tokio::{
     sync::{
         broadcast,
         mpsc::{self, Sender},
-        Mutex, OwnedSemaphorePermit, Semaphore,
+        oneshot, Mutex, OwnedSemaphorePermit, Semaphore,
     },
 };
 use tracing::{debug, warn};
@@ -84,6 +84,10 @@ pub const DEFAULT_KEEPALIVE_INTERVAL: Duration = Duration::from_secs(95);
 /// absorbs automatically — no handler intervention required.
 pub(crate) const CRLF_KEEPALIVE_PING: &[u8] = b"\r\n\r\n";
 
+/// How long a connection the pool has given up may take to write what it has
+/// accepted.
+const STOP_DRAIN_TIMEOUT: Duration = Duration::from_secs(5);
+
 /// Connection entry with activity tracking for eviction.
 #[derive(Debug)]
 struct PoolEntry {
@@ -92,22 +96,15 @@ struct PoolEntry {
     id: u64,
     sender: Sender<Bytes>,
     last_used: Instant,
-    /// Abort handles for spawned tasks (writer + reader) to clean up on eviction.
-    task_handles: Vec<tokio::task::AbortHandle>,
+    /// Dropped with the entry, which tells the writer to finish: it takes no
+    /// more, writes what it has accepted, and closes the connection.
+    _stop: Option<oneshot::Sender<()>>,
     /// Semaphore permit reserving this entry's slot in the pool. Dropping
     /// the PoolEntry releases the permit, which is what enforces the cap
     /// atomically across concurrent inserts.
     _permit: OwnedSemaphorePermit,
 }
 
-impl Drop for PoolEntry {
-    fn drop(&mut self) {
-        for handle in &self.task_handles {
-            handle.abort();
-        }
-    }
-}
-
 impl PoolEntry {
     fn new(sender: Sender<Bytes>, permit: OwnedSemaphorePermit) -> Self {
         static NEXT_ID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
@@ -115,7 +112,7 @@ impl PoolEntry {
             id: NEXT_ID.fetch_add(1, std::sync::atomic::Ordering::Relaxed),
             sender,
             last_used: Instant::now(),
-            task_handles: Vec::new(),
+            _stop: None,
             _permit: permit,
         }
     }
@@ -130,6 +127,13 @@ impl PoolEntry {
         Self::new(sender, permit)
     }
 
+    /// The signal the connection's writer waits for.
+    fn stop_signal(&mut self) -> oneshot::Receiver<()> {
+        let (tx, rx) = oneshot::channel();
+        self._stop = Some(tx);
+        rx
+    }
+
     fn touch(&mut self) {
         self.last_used = Instant::now();
     }
@@ -209,6 +213,9 @@ fn emit_pool_hep(
 async fn run_stream_writer_with_keepalive<W>(
     writer: &mut W,
     rx: &mut mpsc::Receiver<Bytes>,
+    // Resolves when the pool gives the connection up (eviction, idle cleanup,
+    // the peer closed its side).
+    mut stop: oneshot::Receiver<()>,
     keepalive: Option<Duration>,
     // HEP context for the outbound sends drained here. `local` is the
     // pooled connection's local socket address (`None` disables emission
@@ -226,32 +233,27 @@ async fn run_stream_writer_with_keepalive<W>(
         i.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
         i
     });
+    // Once stopped: when to give up on a peer that takes nothing more.
+    let mut deadline: Option<tokio::time::Instant> = None;
 
     loop {
-        tokio::select! {
+        let payload = tokio::select! {
             // Biased: drain payloads first so a busy connection
             // doesn't race the keepalive tick.
             biased;
 
+            _ = &mut stop, if deadline.is_none() => {
+                rx.close();
+                deadline = Some(tokio::time::Instant::now() + STOP_DRAIN_TIMEOUT);
+                continue;
+            }
+
             maybe_buf = rx.recv() => {
                 let Some(buf) = maybe_buf else {
                     // Channel closed — pool entry was dropped.
                     break;
                 };
-                if writer.write_all(&buf).await.is_err() {
-                    break;
-                }
-                if writer.flush().await.is_err() {
-                    break;
-                }
-                // Real SIP traffic — capture it. Only this branch emits;
-                // the keepalive branch below is `\r\n\r\n`, not a message.
-                emit_pool_hep(sip_hep::Direction::Outbound, hep_local, hep_peer, &buf);
-                // Real traffic means the NAT binding is fresh; reset
-                // the keepalive countdown.
-                if let Some(t) = keepalive_timer.as_mut() {
-                    t.reset();
-                }
+                Some(buf)
             }
 
             _ = async {
@@ -259,18 +261,150 @@ async fn run_stream_writer_with_keepalive<W>(
                     Some(t) => { t.tick().await; }
                     None => std::future::pending::<()>().await,
                 }
-            } => {
-                if writer.write_all(CRLF_KEEPALIVE_PING).await.is_err() {
-                    break;
+            } => None,
+        };
+
+        let frame = payload.as_deref().unwrap_or(CRLF_KEEPALIVE_PING);
+        let write = async {
+            writer.write_all(frame).await?;
+            writer.flush().await
+        };
+        tokio::pin!(write);
+        let written = loop {
+            let gives_up = async {
+                match deadline {
+                    Some(at) => tokio::time::sleep_until(at).await,
+                    None => std::future::pending().await,
                 }
-                if writer.flush().await.is_err() {
-                    break;
+            };
+            tokio::select! {
+                result = &mut write => break result.is_ok(),
+                _ = &mut stop, if deadline.is_none() => {
+                    rx.close();
+                    deadline = Some(tokio::time::Instant::now() + STOP_DRAIN_TIMEOUT);
                 }
+                _ = gives_up => break false,
+            }
+        };
+        if !written {
+            break;
+        }
+        if let Some(buf) = payload {
+            // Real SIP traffic — capture it. Keepalives are `\r\n\r\n`,
+            // not a message.
+            emit_pool_hep(sip_hep::Direction::Outbound, hep_local, hep_peer, &buf);
+            // Real traffic means the NAT binding is fresh; reset
+            // the keepalive countdown.
+            if let Some(t) = keepalive_timer.as_mut() {
+                t.reset();
             }
         }
     }
 }
 
+/// Reads a pooled connection until the peer closes it, it fails or its writer
+/// has finished (`writer_done`), handing complete messages to `inbound_tx`.
+/// Without one they are discarded: the connection is read all the same, to
+/// notice its end.
+async fn run_stream_reader<R>(
+    reader: &mut R,
+    transport: TransportKind,
+    peer: SocketAddr,
+    hep_local: Option<SocketAddr>,
+    // The connection's queue, for the packets' flow.
+    writer_tx: Sender<Bytes>,
+    writer_done: oneshot::Receiver<()>,
+    inbound_tx: Option<Sender<InboundPacket>>,
+) where
+    R: AsyncReadExt + Unpin,
+{
+    let read = async {
+        let mut buf = BytesMut::with_capacity(4096);
+        loop {
+            if buf.len() >= MAX_BUFFER_SIZE {
+                warn!(
+                    peer = %peer,
+                    ?transport,
+                    buffer_size = buf.len(),
+                    "client buffer exceeded MAX_BUFFER_SIZE, closing connection"
+                );
+                return;
+            }
+
+            match reader.read_buf(&mut buf).await {
+                Ok(0) => {
+                    debug!(peer = %peer, ?transport, "client connection closed by peer");
+                    return;
+                }
+                Ok(n) => {
+                    let Some(inbound_tx) = inbound_tx.as_ref() else {
+                        buf.clear();
+                        continue;
+                    };
+                    let mut frames = Vec::new();
+                    let framing = drain_sip_frames_into(&mut buf, &mut frames);
+                    debug!(peer = %peer, ?transport, bytes = n, frame_count = frames.len(), "client read");
+                    for payload in frames {
+                        // Inbound half of the pooled connection: the
+                        // responses (and any in-dialog requests) the peer
+                        // sends back. Emitted here for the same reason as
+                        // the writer's outbound half (#341).
+                        emit_pool_hep(sip_hep::Direction::Inbound, hep_local, peer, &payload);
+
+                        let packet = InboundPacket {
+                            transport,
+                            peer,
+                            payload,
+                            stream: Some(writer_tx.clone()),
+                            // Arrived on a pooled outbound connection
+                            // (RFC 5923 reuse), not a listener — no
+                            // listener port to advertise.
+                            local: None,
+                        };
+                        if inbound_tx.send(packet).await.is_err() {
+                            warn!(peer = %peer, ?transport, "client inbound_tx channel closed");
+                            return;
+                        }
+                    }
+                    if let Err(e) = framing {
+                        warn!(
+                            peer = %peer,
+                            ?transport,
+                            error = %e,
+                            "client framing error, closing connection"
+                        );
+                        return;
+                    }
+                }
+                Err(e) => {
+                    warn!(
+                        peer = %peer,
+                        ?transport,
+                        error = %e,
+                        "client read error, closing connection"
+                    );
+                    return;
+                }
+            }
+        }
+    };
+    tokio::select! {
+        _ = read => {}
+        _ = writer_done => {}
+    }
+}
+
+/// Removes the entry of a connection that has ended, unless a later
+/// connection has taken its place.
+fn remove_ended<K>(map: &std::sync::Weak<DashMap<K, PoolEntry>>, key: &K, id: u64)
+where
+    K: std::hash::Hash + Eq,
+{
+    if let Some(map) = map.upgrade() {
+        map.remove_if(key, |_, entry| entry.id == id);
+    }
+}
+
 /// Watches a writer task's `JoinHandle` and removes the corresponding
 /// pool entry when the writer exits — for any reason: graceful close
 /// (channel drained), peer-closed write, or a panic inside the writer.
@@ -295,6 +429,11 @@ fn spawn_writer_supervisor<K, F>(
     K: std::hash::Hash + Eq + Clone + Send + Sync + 'static,
     F: FnOnce(&K) -> String + Send + 'static,
 {
+    // The connection this writer belongs to: by the time the writer exits a
+    // later one may have taken its place. The map is held weakly, or it would
+    // outlive the pool.
+    let id = map.get(&key).map(|entry| entry.id);
+    let map = Arc::downgrade(&map);
     tokio::spawn(async move {
         let outcome = writer.await;
         let key_label = format_key(&key);
@@ -325,7 +464,9 @@ fn spawn_writer_supervisor<K, F>(
                 event_reason = Some(format!("writer cancelled: {e}"));
             }
         }
-        map.remove(&key);
+        if let Some(id) = id {
+            remove_ended(&map, &key, id);
+        }
 
         // Emit a ConnectionEvent so observers (metrics, reconnect
         // policies) see the death without waiting for the next send
@@ -576,19 +717,33 @@ impl ConnectionPool {
         let (mut reader, mut writer) = stream.into_split();
         let (tx, mut rx) = mpsc::channel::<Bytes>(64);
         let mut entry = PoolEntry::new(tx.clone(), permit);
-        debug!(peer = %addr, "creating new pool entry");
+        let id = entry.id;
+        let stop = entry.stop_signal();
+        // The queue is new and empty: this always fits, ahead of others' sends.
+        tx.try_send(payload)?;
+        let inbound_tx = self.inbound_tx.lock().await.clone();
+        // In the pool before its tasks run: each of them removes it.
+        self.tcp.insert(addr, entry);
+        debug!(peer = %addr, "inserted connection into pool");
 
         // Writer task. Drains the send channel and emits periodic
         // RFC 6223 keepalive pings (`\r\n\r\n`) on idle — the channel
         // branch resets the keepalive timer on every real send, so
         // busy connections never ping spuriously.
-        let writer_tx = tx.clone();
         let keepalive = self.keepalive_interval;
+        let (writer_done_tx, writer_done) = oneshot::channel::<()>();
         let writer_handle = tokio::spawn(async move {
-            run_stream_writer_with_keepalive(&mut writer, &mut rx, keepalive, hep_local, addr)
-                .await;
+            let _writer_done = writer_done_tx;
+            run_stream_writer_with_keepalive(
+                &mut writer,
+                &mut rx,
+                stop,
+                keepalive,
+                hep_local,
+                addr,
+            )
+            .await;
         });
-        entry.task_handles.push(writer_handle.abort_handle());
         // Supervise the writer: whenever it exits (graceful close,
         // peer-closed write, or panic) remove the entry from the pool
         // so the next send for this addr opens a fresh connection
@@ -608,112 +763,24 @@ impl ConnectionPool {
             }),
         );
 
-        // Optional reader task to deliver responses back to the inbound pipeline
-        let inbound_tx_guard = self.inbound_tx.lock().await;
-        let has_inbound_tx = inbound_tx_guard.is_some();
-        debug!(peer = %addr, has_inbound_tx = %has_inbound_tx, "checking if inbound_tx is set");
-
-        if let Some(inbound_tx) = inbound_tx_guard.clone() {
-            drop(inbound_tx_guard);
-            let peer = addr;
-            debug!(peer = %peer, "spawning TCP client reader task for outbound connection");
-            let reader_handle = tokio::spawn(async move {
-                let mut buf = BytesMut::with_capacity(4096);
-                debug!(peer = %peer, "TCP client reader task started");
-                loop {
-                    if buf.len() >= MAX_BUFFER_SIZE {
-                        warn!(
-                            peer = %peer,
-                            buffer_size = buf.len(),
-                            "tcp client buffer exceeded MAX_BUFFER_SIZE, closing connection"
-                        );
-                        break;
-                    }
-
-                    match reader.read_buf(&mut buf).await {
-                        Ok(0) => {
-                            debug!(peer = %peer, "TCP client connection closed by peer");
-                            break;
-                        }
-                        Ok(n) => {
-                            debug!(peer = %peer, bytes = n, "TCP client read {} bytes", n);
-                            let mut frames = Vec::new();
-                            let framing = drain_sip_frames_into(&mut buf, &mut frames);
-                            debug!(peer = %peer, frame_count = frames.len(), "TCP client drained {} SIP frames", frames.len());
-                            for payload in frames {
-                                // Extract first line for logging
-                                let first_line = payload
-                                    .split(|&b| b == b'\r' || b == b'\n')
-                                    .next()
-                                    .and_then(|line| std::str::from_utf8(line).ok())
-                                    .unwrap_or("<invalid>");
-                                debug!(peer = %peer, first_line = %first_line, "TCP client sending frame to inbound_tx");
-
-                                // Inbound half of the pooled
-                                // connection: the responses (and
-                                // any in-dialog requests) the peer
-                                // sends back. Emitted here for the
-                                // same reason as the writer's
-                                // outbound half (#341).
-                                emit_pool_hep(
-                                    sip_hep::Direction::Inbound,
-                                    hep_local,
-                                    peer,
-                                    &payload,
-                                );
-
-                                let packet = InboundPacket {
-                                    transport: TransportKind::Tcp,
-                                    peer,
-                                    payload,
-                                    stream: Some(writer_tx.clone()),
-                                    // Arrived on a pooled outbound connection
-                                    // (RFC 5923 reuse), not a listener — no
-                                    // listener port to advertise.
-                                    local: None,
-                                };
-                                if inbound_tx.send(packet).await.is_err() {
-                                    warn!(peer = %peer, "TCP client inbound_tx channel closed");
-                                    return;
-                                }
-                            }
-                            if let Err(e) = framing {
-                                warn!(
-                                    peer = %peer,
-                                    error = %e,
-                                    "tcp client framing error, closing connection"
-                                );
-                                break;
-                            }
-                        }
-                        Err(e) => {
-                            warn!(
-                                peer = %peer,
-                                error = %e,
-                                "tcp client read error, closing connection"
-                            );
-                            break;
-                        }
-                    }
-                }
-            });
-            entry.task_handles.push(reader_handle.abort_handle());
-        } else {
-            drop(inbound_tx_guard);
-            debug!(peer = %addr, "inbound_tx is None, skipping TCP client reader task");
-        }
-
-        self.tcp.insert(addr, entry);
-        debug!(peer = %addr, "inserted connection into pool");
+        // Reader task: delivers responses back to the inbound pipeline and
+        // notices the peer's close, which ends the connection for senders too.
+        let map = Arc::downgrade(&self.tcp);
+        tokio::spawn(async move {
+            run_stream_reader(
+                &mut reader,
+                TransportKind::Tcp,
+                addr,
+                hep_local,
+                tx,
+                writer_done,
+                inbound_tx,
+            )
+            .await;
+            remove_ended(&map, &addr, id);
+        });
 
-        let result = tx
-            .send(payload)
-            .await
-            .map_err(|_| anyhow!("connection writer closed"));
-        if result.is_err() {
-            self.tcp.remove(&addr);
-        }
-        result
+        Ok(())
     }
 
     /// Sends bytes over a pooled WebSocket connection; opens one if missing.
@@ -770,19 +837,58 @@ impl ConnectionPool {
         let (mut sink, mut stream) = ws_stream.split();
         let (tx, mut rx) = mpsc::channel::<Bytes>(64);
         let mut entry = PoolEntry::new(tx.clone(), permit);
+        let id = entry.id;
+        let mut stop = entry.stop_signal();
+        // The queue is new and empty: this always fits, ahead of others' sends.
+        tx.try_send(payload)?;
+        let inbound_tx = self.inbound_tx.lock().await.clone();
+        // In the pool before its tasks run: each of them removes it.
+        self.ws.insert(key.clone(), entry);
 
         // Writer task — reads from channel and sends WS Binary frames
         let writer_key = key.clone();
+        let (writer_done_tx, mut writer_done) = oneshot::channel::<()>();
         let writer_handle = tokio::spawn(async move {
-            while let Some(buf) = rx.recv().await {
-                if sink.send(Message::Binary(buf.to_vec())).await.is_err() {
+            let _writer_done = writer_done_tx;
+            let mut deadline: Option<tokio::time::Instant> = None;
+            loop {
+                let buf = tokio::select! {
+                    biased;
+                    _ = &mut stop, if deadline.is_none() => {
+                        rx.close();
+                        deadline = Some(tokio::time::Instant::now() + STOP_DRAIN_TIMEOUT);
+                        continue;
+                    }
+                    buf = rx.recv() => buf,
+                };
+                let Some(buf) = buf else {
+                    break;
+                };
+                let write = sink.send(Message::Binary(buf.to_vec()));
+                tokio::pin!(write);
+                let written = loop {
+                    let gives_up = async {
+                        match deadline {
+                            Some(at) => tokio::time::sleep_until(at).await,
+                            None => std::future::pending().await,
+                        }
+                    };
+                    tokio::select! {
+                        result = &mut write => break result.is_ok(),
+                        _ = &mut stop, if deadline.is_none() => {
+                            rx.close();
+                            deadline = Some(tokio::time::Instant::now() + STOP_DRAIN_TIMEOUT);
+                        }
+                        _ = gives_up => break false,
+                    }
+                };
+                if !written {
                     debug!(url = %writer_key, "WS writer: send failed, exiting");
                     break;
                 }
                 crate::transport_metrics().on_packet_sent(crate::TransportLabel::Ws);
             }
         });
-        entry.task_handles.push(writer_handle.abort_handle());
         spawn_writer_supervisor(
             writer_handle,
             Arc::clone(&self.ws),
@@ -795,72 +901,54 @@ impl ConnectionPool {
             None,
         );
 
-        // Optional reader task — feeds received frames back to inbound handler
-        let inbound_tx_guard = self.inbound_tx.lock().await;
-        if let Some(inbound_tx) = inbound_tx_guard.clone() {
-            drop(inbound_tx_guard);
-            // We need the peer SocketAddr for the InboundPacket. Parse it
-            // from the URL host:port. If that fails (unlikely for a just-
-            // connected URL), skip the reader — outbound-only is still useful.
-            let peer_addr = parse_ws_peer_addr(&key);
-            if let Some(peer) = peer_addr {
-                let reader_key = key.clone();
-                let reader_handle = tokio::spawn(async move {
-                    while let Some(msg) = stream.next().await {
-                        match msg {
-                            Ok(Message::Binary(data)) => {
-                                let packet = InboundPacket {
-                                    transport: TransportKind::Ws,
-                                    peer,
-                                    payload: Bytes::from(data),
-                                    stream: None,
-                                    local: None,
-                                };
-                                if inbound_tx.send(packet).await.is_err() {
-                                    debug!(url = %reader_key, "WS reader: inbound channel closed");
-                                    break;
-                                }
-                            }
-                            Ok(Message::Text(text)) => {
-                                let packet = InboundPacket {
-                                    transport: TransportKind::Ws,
-                                    peer,
-                                    payload: Bytes::from(text.into_bytes()),
-                                    stream: None,
-                                    local: None,
-                                };
-                                if inbound_tx.send(packet).await.is_err() {
-                                    break;
-                                }
-                            }
-                            Ok(Message::Close(_)) => {
-                                debug!(url = %reader_key, "WS reader: peer sent Close");
-                                break;
-                            }
-                            Ok(_) => {} // Ping/Pong handled by tungstenite
-                            Err(e) => {
-                                debug!(url = %reader_key, error = %e, "WS reader: error");
-                                break;
-                            }
+        // Reader task — feeds received frames back to inbound handler, and
+        // notices the peer's close. We need the peer SocketAddr for the
+        // InboundPacket. Parse it from the URL host:port. If that fails
+        // (unlikely for a just-connected URL), frames are discarded —
+        // outbound-only is still useful.
+        let inbound = inbound_tx.zip(parse_ws_peer_addr(&key));
+        let map = Arc::downgrade(&self.ws);
+        let reader_key = key.clone();
+        tokio::spawn(async move {
+            let read = async {
+                while let Some(msg) = stream.next().await {
+                    let payload = match msg {
+                        Ok(Message::Binary(data)) => Bytes::from(data),
+                        Ok(Message::Text(text)) => Bytes::from(text.into_bytes()),
+                        Ok(Message::Close(_)) => {
+                            debug!(url = %reader_key, "WS reader: peer sent Close");
+                            break;
                         }
+                        Ok(_) => continue, // Ping/Pong handled by tungstenite
+                        Err(e) => {
+                            debug!(url = %reader_key, error = %e, "WS reader: error");
+                            break;
+                        }
+                    };
+                    let Some((inbound_tx, peer)) = inbound.as_ref() else {
+                        continue;
+                    };
+                    let packet = InboundPacket {
+                        transport: TransportKind::Ws,
+                        peer: *peer,
+                        payload,
+                        stream: None,
+                        local: None,
+                    };
+                    if inbound_tx.send(packet).await.is_err() {
+                        debug!(url = %reader_key, "WS reader: inbound channel closed");
+                        break;
                     }
-                });
-                entry.task_handles.push(reader_handle.abort_handle());
+                }
+            };
+            tokio::select! {
+                _ = read => {}
+                _ = &mut writer_done => {}
             }
-        } else {
-            drop(inbound_tx_guard);
-        }
-
-        self.ws.insert(key.clone(), entry);
+            remove_ended(&map, &reader_key, id);
+        });
 
-        let result = tx
-            .send(payload)
-            .await
-            .map_err(|_| anyhow!("WS connection writer closed"));
-        if result.is_err() {
-            self.ws.remove(&key);
-        }
-        result
+        Ok(())
     }
 }
 
@@ -1180,20 +1268,34 @@ impl TlsPool {
         let (mut reader, mut writer) = tokio::io::split(tls_stream);
 
         let (tx, mut rx) = mpsc::channel::<Bytes>(64);
-        let writer_tx = tx.clone();
         let mut entry = PoolEntry::new(tx.clone(), permit);
+        let id = entry.id;
+        let stop = entry.stop_signal();
+        // The queue is new and empty: this always fits, ahead of others' sends.
+        tx.try_send(payload)?;
+        let inbound_tx = self.inbound_tx.lock().await.clone();
+        // In the pool before its tasks run: each of them removes it.
+        self.inner.insert(key.clone(), entry);
 
         // TLS writer task with keepalive (RFC 6223). Same idle-reset
         // semantics as the TCP pool; we read `keepalive_interval`
         // from the pool struct.
         let keepalive = self.keepalive_interval;
+        let (writer_done_tx, writer_done) = oneshot::channel::<()>();
         let writer_handle = tokio::spawn(async move {
-            run_stream_writer_with_keepalive(&mut writer, &mut rx, keepalive, hep_local, addr)
-                .await;
+            let _writer_done = writer_done_tx;
+            run_stream_writer_with_keepalive(
+                &mut writer,
+                &mut rx,
+                stop,
+                keepalive,
+                hep_local,
+                addr,
+            )
+            .await;
             // Perform proper TLS shutdown when connection closes.
-            let _ = writer.shutdown().await;
+            let _ = tokio::time::timeout(STOP_DRAIN_TIMEOUT, writer.shutdown()).await;
         });
-        entry.task_handles.push(writer_handle.abort_handle());
         spawn_writer_supervisor(
             writer_handle,
             Arc::clone(&self.inner),
@@ -1207,86 +1309,25 @@ impl TlsPool {
             }),
         );
 
-        // Optional reader task to deliver responses back to the inbound
-        // pipeline. Mirrors ConnectionPool::send_tcp's reader-task pattern;
-        // previously absent, which silently swallowed responses to all
-        // outbound TLS requests.
-        let inbound_tx_guard = self.inbound_tx.lock().await;
-        if let Some(inbound_tx) = inbound_tx_guard.clone() {
-            drop(inbound_tx_guard);
-            let peer = addr;
-            let reader_handle = tokio::spawn(async move {
-                let mut buf = BytesMut::with_capacity(4096);
-                loop {
-                    if buf.len() >= MAX_BUFFER_SIZE {
-                        warn!(
-                            peer = %peer,
-                            buffer_size = buf.len(),
-                            "tls client buffer exceeded MAX_BUFFER_SIZE, closing connection"
-                        );
-                        break;
-                    }
-                    match reader.read_buf(&mut buf).await {
-                        Ok(0) => break,
-                        Ok(_) => {
-                            let mut frames = Vec::new();
-                            let framing = drain_sip_frames_into(&mut buf, &mut frames);
-                            for payload in frames {
-                                // Inbound half of the pooled TLS
-                                // connection (#341).
-                                emit_pool_hep(
-                                    sip_hep::Direction::Inbound,
-                                    hep_local,
-                                    peer,
-                                    &payload,
-                                );
-                                let packet = InboundPacket {
-                                    transport: TransportKind::Tls,
-                                    peer,
-                                    payload,
-                                    stream: Some(writer_tx.clone()),
-                                    local: None,
-                                };
-                                if inbound_tx.send(packet).await.is_err() {
-                                    warn!(peer = %peer, "tls client inbound_tx channel closed");
-                                    return;
-                                }
-                            }
-                            if let Err(e) = framing {
-                                warn!(
-                                    peer = %peer,
-                                    error = %e,
-                                    "tls client framing error, closing connection"
-                                );
-                                break;
-                            }
-                        }
-                        Err(e) => {
-                            warn!(
-                                peer = %peer,
-                                error = %e,
-                                "tls client read error, closing connection"
-                            );
-                            break;
-                        }
-                    }
-                }
-            });
-            entry.task_handles.push(reader_handle.abort_handle());
-        } else {
-            drop(inbound_tx_guard);
-        }
-
-        self.inner.insert(key.clone(), entry);
+        // Reader task: delivers responses back to the inbound pipeline and
+        // notices the peer's close. Mirrors ConnectionPool::send_tcp.
+        let map = Arc::downgrade(&self.inner);
+        let reader_key = key.clone();
+        tokio::spawn(async move {
+            run_stream_reader(
+                &mut reader,
+                TransportKind::Tls,
+                addr,
+                hep_local,
+                tx,
+                writer_done,
+                inbound_tx,
+            )
+            .await;
+            remove_ended(&map, &reader_key, id);
+        });
 
-        let result = tx
-            .send(payload)
-            .await
-            .map_err(|_| anyhow!("tls connection writer closed"));
-        if result.is_err() {
-            self.inner.remove(&key);
-        }
-        result
+        Ok(())
     }
 }
 
-- 
2.43.0


From 2d0dbc5d1a96db1adbae042d09ebb1ea4fa1d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 40/63] fix: sip-transport: concurrent first sends to a peer
 share one connection

---
 crates/sip-transport/src/pool.rs | 174 ++++++++++++++++++++++++-------
 1 file changed, 136 insertions(+), 38 deletions(-)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index bb18922..9f216ca 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -57,7 +57,8 @@ pub enum ConnectionEvent {
 const CONNECTION_EVENT_CHANNEL_CAPACITY: usize = 256;
 
 use crate::{
-    drain_sip_frames_into, InboundPacket, TransportKind, MAX_BUFFER_SIZE, STREAM_QUEUE_TIMEOUT,
+    drain_sip_frames_into, InboundPacket, TransportKind, CONNECT_TIMEOUT, MAX_BUFFER_SIZE,
+    STREAM_QUEUE_TIMEOUT,
 };
 
 /// Maximum number of pooled TCP connections (prevents file descriptor exhaustion).
@@ -394,6 +395,62 @@ async fn run_stream_reader<R>(
     }
 }
 
+/// Serialises connection attempts to one peer: concurrent first sends share the
+/// connection the first of them opens.
+#[derive(Debug)]
+struct DialGates<K>(DashMap<K, Arc<Mutex<()>>>)
+where
+    K: std::hash::Hash + Eq;
+
+impl<K> DialGates<K>
+where
+    K: std::hash::Hash + Eq + Clone,
+{
+    fn new() -> Self {
+        Self(DashMap::new())
+    }
+
+    /// Waits for the attempt under way, if there is one.
+    async fn enter(&self, key: &K, deadline: tokio::time::Instant) -> Result<DialGuard<'_, K>> {
+        let gate = Arc::clone(&self.0.entry(key.clone()).or_default());
+        let mut guard = DialGuard {
+            gates: self,
+            key: key.clone(),
+            gate: Arc::clone(&gate),
+            held: None,
+        };
+        let held = tokio::time::timeout_at(deadline, gate.lock_owned())
+            .await
+            .map_err(|_| anyhow!("timeout waiting for a connection attempt to the same peer"))?;
+        guard.held = Some(held);
+        Ok(guard)
+    }
+}
+
+struct DialGuard<'a, K>
+where
+    K: std::hash::Hash + Eq,
+{
+    gates: &'a DialGates<K>,
+    key: K,
+    gate: Arc<Mutex<()>>,
+    held: Option<tokio::sync::OwnedMutexGuard<()>>,
+}
+
+impl<K> Drop for DialGuard<'_, K>
+where
+    K: std::hash::Hash + Eq,
+{
+    fn drop(&mut self) {
+        self.held = None;
+        // The last one out removes the gate: only it and the map hold it.
+        let gate = &self.gate;
+        self.gates.0.remove_if(&self.key, |_, g| {
+            Arc::ptr_eq(g, gate) && Arc::strong_count(g) == 2
+        });
+    }
+}
+
 /// Removes the entry of a connection that has ended, unless a later
 /// connection has taken its place.
 fn remove_ended<K>(map: &std::sync::Weak<DashMap<K, PoolEntry>>, key: &K, id: u64)
@@ -510,6 +567,9 @@ pub struct ConnectionPool {
     tcp: Arc<DashMap<SocketAddr, PoolEntry>>,
     #[cfg(feature = "ws")]
     ws: Arc<DashMap<String, PoolEntry>>,
+    tcp_dials: DialGates<SocketAddr>,
+    #[cfg(feature = "ws")]
+    ws_dials: DialGates<String>,
     max_size: usize,
     idle_timeout: Duration,
     inbound_tx: Arc<Mutex<Option<Sender<InboundPacket>>>>,
@@ -537,6 +597,9 @@ impl ConnectionPool {
             tcp: Arc::new(DashMap::new()),
             #[cfg(feature = "ws")]
             ws: Arc::new(DashMap::new()),
+            tcp_dials: DialGates::new(),
+            #[cfg(feature = "ws")]
+            ws_dials: DialGates::new(),
             max_size: MAX_POOL_SIZE,
             idle_timeout: IDLE_TIMEOUT,
             inbound_tx: Arc::new(Mutex::new(None)),
@@ -553,6 +616,9 @@ impl ConnectionPool {
             tcp: Arc::new(DashMap::new()),
             #[cfg(feature = "ws")]
             ws: Arc::new(DashMap::new()),
+            tcp_dials: DialGates::new(),
+            #[cfg(feature = "ws")]
+            ws_dials: DialGates::new(),
             max_size,
             idle_timeout,
             inbound_tx: Arc::new(Mutex::new(None)),
@@ -692,6 +758,14 @@ impl ConnectionPool {
             return Ok(());
         }
 
+        // One attempt per peer at a time; whoever waited for it uses what it
+        // opened.
+        let deadline = tokio::time::Instant::now() + CONNECT_TIMEOUT;
+        let _dialing = self.tcp_dials.enter(&addr, deadline).await?;
+        if send_on_existing(&self.tcp, &addr, &payload).await? {
+            return Ok(());
+        }
+
         debug!(peer = %addr, "no existing connection found, creating new TCP connection");
 
         // Atomically reserve a slot before doing anything expensive (DNS,
@@ -704,10 +778,9 @@ impl ConnectionPool {
 
         // Create new connection with timeout
         debug!(peer = %addr, "connecting to TCP peer");
-        let stream =
-            tokio::time::timeout(std::time::Duration::from_secs(5), TcpStream::connect(addr))
-                .await
-                .map_err(|_| anyhow!("TCP pool connect timeout after 5s to {}", addr))??;
+        let stream = tokio::time::timeout_at(deadline, TcpStream::connect(addr))
+            .await
+            .map_err(|_| anyhow!("TCP pool connect timeout after 5s to {}", addr))??;
         debug!(peer = %addr, "TCP connection established");
         // Local address for HEP src on this pooled connection, read once
         // before the split — the outbound INVITE/ACK/BYE and the inbound
@@ -811,6 +884,13 @@ impl ConnectionPool {
             return Ok(());
         }
 
+        // One attempt per peer at a time, as in `send_tcp`.
+        let deadline = tokio::time::Instant::now() + CONNECT_TIMEOUT;
+        let _dialing = self.ws_dials.enter(&key, deadline).await?;
+        if send_on_existing(&self.ws, &key, &payload).await? {
+            return Ok(());
+        }
+
         // Atomically reserve a slot (shared semaphore across TCP and WS) so
         // we can't blow the pool cap by racing concurrent callers.
         let permit = self
@@ -824,12 +904,10 @@ impl ConnectionPool {
             .headers_mut()
             .insert("Sec-WebSocket-Protocol", HeaderValue::from_static("sip"));
 
-        let (ws_stream, _response) = tokio::time::timeout(
-            std::time::Duration::from_secs(5),
-            tokio_tungstenite::connect_async(request),
-        )
-        .await
-        .map_err(|_| anyhow!("WS connect timeout after 5s to {}", key))??;
+        let (ws_stream, _response) =
+            tokio::time::timeout_at(deadline, tokio_tungstenite::connect_async(request))
+                .await
+                .map_err(|_| anyhow!("WS connect timeout after 5s to {}", key))??;
 
         crate::transport_metrics().on_connect(crate::TransportLabel::Ws);
         debug!(url = %key, "WS connection established");
@@ -1005,6 +1083,7 @@ pub struct TlsPool {
     // Arc-wrapped so the per-connection writer supervisor can remove
     // the entry when the writer exits; see ConnectionPool.
     inner: Arc<DashMap<(SocketAddr, String), PoolEntry>>,
+    dials: DialGates<SocketAddr>,
     max_size: usize,
     idle_timeout: Duration,
     /// Permits enforcing the pool cap atomically; see ConnectionPool.
@@ -1044,6 +1123,7 @@ impl TlsPool {
         let (events_tx, _) = broadcast::channel(CONNECTION_EVENT_CHANNEL_CAPACITY);
         let pool = Self {
             inner: Arc::new(DashMap::new()),
+            dials: DialGates::new(),
             max_size: MAX_POOL_SIZE,
             idle_timeout: IDLE_TIMEOUT,
             permits: Arc::new(Semaphore::new(MAX_POOL_SIZE)),
@@ -1060,6 +1140,7 @@ impl TlsPool {
         let (events_tx, _) = broadcast::channel(CONNECTION_EVENT_CHANNEL_CAPACITY);
         let pool = Self {
             inner: Arc::new(DashMap::new()),
+            dials: DialGates::new(),
             max_size,
             idle_timeout,
             permits: Arc::new(Semaphore::new(max_size)),
@@ -1201,18 +1282,15 @@ impl TlsPool {
         }
     }
 
-    pub async fn send_tls(
+    /// Queues `payload` on a live connection to the peer, if there is one:
+    /// the one for this SNI, else any other to the same address.
+    async fn send_on_connection_to(
         &self,
-        addr: SocketAddr,
-        server_name: String,
-        config: std::sync::Arc<ClientConfig>,
-        payload: Bytes,
-    ) -> Result<()> {
-        let key = (addr, server_name.clone());
-
-        // Try to use existing connection (same peer + SNI).
-        if send_on_existing(&self.inner, &key, &payload).await? {
-            return Ok(());
+        key: &(SocketAddr, String),
+        payload: &Bytes,
+    ) -> Result<bool> {
+        if send_on_existing(&self.inner, key, payload).await? {
+            return Ok(true);
         }
 
         // RFC 5923 connection reuse: fall back to any live connection to the
@@ -1229,16 +1307,40 @@ impl TlsPool {
         // param even names our original source port). Without this, locally
         // terminated outbound calls never deliver their BYE and hold/transfer
         // re-INVITEs never leave the box (siphon-ai #342 outbound half).
-        let addr_match = self
+        let others: Vec<_> = self
             .inner
             .iter()
-            .find(|e| e.key().0 == addr)
-            .map(|e| e.key().clone());
-        if let Some(k) = addr_match {
-            if send_on_existing(&self.inner, &k, &payload).await? {
-                return Ok(());
+            .filter(|e| e.key().0 == key.0)
+            .map(|e| e.key().clone())
+            .collect();
+        for other in others {
+            if send_on_existing(&self.inner, &other, payload).await? {
+                return Ok(true);
             }
         }
+        Ok(false)
+    }
+
+    pub async fn send_tls(
+        &self,
+        addr: SocketAddr,
+        server_name: String,
+        config: std::sync::Arc<ClientConfig>,
+        payload: Bytes,
+    ) -> Result<()> {
+        let key = (addr, server_name.clone());
+
+        if self.send_on_connection_to(&key, &payload).await? {
+            return Ok(());
+        }
+
+        // One attempt per peer at a time; whoever waited for it uses what it
+        // opened.
+        let deadline = tokio::time::Instant::now() + CONNECT_TIMEOUT;
+        let _dialing = self.dials.enter(&addr, deadline).await?;
+        if self.send_on_connection_to(&key, &payload).await? {
+            return Ok(());
+        }
 
         // Atomically reserve a slot before connecting; see ConnectionPool.
         let permit = self
@@ -1249,19 +1351,15 @@ impl TlsPool {
         let connector = TlsConnector::from(config.clone());
         let server_name =
             ServerName::try_from(server_name).map_err(|_| anyhow!("invalid TLS server name"))?;
-        let stream =
-            tokio::time::timeout(std::time::Duration::from_secs(5), TcpStream::connect(addr))
-                .await
-                .map_err(|_| anyhow!("TLS pool connect timeout after 5s to {}", addr))??;
+        let stream = tokio::time::timeout_at(deadline, TcpStream::connect(addr))
+            .await
+            .map_err(|_| anyhow!("TLS pool connect timeout after 5s to {}", addr))??;
         // HEP src for this pooled connection — read before the TCP stream
         // is consumed by the TLS handshake (#341).
         let hep_local = stream.local_addr().ok();
-        let tls_stream = tokio::time::timeout(
-            std::time::Duration::from_secs(5),
-            connector.connect(server_name, stream),
-        )
-        .await
-        .map_err(|_| anyhow!("TLS pool handshake timeout after 5s to {}", addr))??;
+        let tls_stream = tokio::time::timeout_at(deadline, connector.connect(server_name, stream))
+            .await
+            .map_err(|_| anyhow!("TLS pool handshake timeout after 5s to {}", addr))??;
         // Split so the reader and writer tasks own separate halves; without
         // this the writer task holds the only handle to the TLS stream and
         // we never read responses (the original send_tls bug).
-- 
2.43.0


From a3fb09883cc53efce8b1d07b3e977cd6657ddd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 41/63] fix: sip-transport: a silent peer does not hold a
 WebSocket upgrade open

---
 crates/sip-transport/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 9cf3697..bd57e1c 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -938,7 +938,7 @@ where
         max_message_size: Some(MAX_BODY_SIZE),
         ..Default::default()
     };
-    let ws_stream = tokio_tungstenite::accept_hdr_async_with_config(
+    let upgrade = tokio_tungstenite::accept_hdr_async_with_config(
         stream,
         |req: &Request, mut resp: tungstenite::handshake::server::Response| {
             if let Some(value) = req.headers().get("Sec-WebSocket-Protocol") {
@@ -962,8 +962,15 @@ where
             Ok(resp)
         },
         Some(ws_config),
-    )
-    .await?;
+    );
+    let ws_stream = tokio::time::timeout(HANDSHAKE_IDLE_TIMEOUT, upgrade)
+        .await
+        .map_err(|_| {
+            anyhow!(
+                "websocket upgrade not completed within {:?}",
+                HANDSHAKE_IDLE_TIMEOUT
+            )
+        })??;
 
     let (mut sink, mut stream) = ws_stream.split();
     let (writer_tx, mut writer_rx) = mpsc::channel::<Bytes>(64);
-- 
2.43.0


From 7bd5da3e4e59da51fd9d7521656ffb870c3e666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 42/63] fix: sip-transport: a connection the pool gives up is
 closed without resetting it

---
 crates/sip-transport/src/pool.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index 9f216ca..3b237a9 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -303,10 +303,14 @@ async fn run_stream_writer_with_keepalive<W>(
     }
 }
 
-/// Reads a pooled connection until the peer closes it, it fails or its writer
-/// has finished (`writer_done`), handing complete messages to `inbound_tx`.
-/// Without one they are discarded: the connection is read all the same, to
-/// notice its end.
+/// Reads a pooled connection until the peer closes it or it fails, handing
+/// complete messages to `inbound_tx`. Without one they are discarded: the
+/// connection is read all the same, to notice its end.
+///
+/// Once the writer has finished (`writer_done`) the peer has
+/// [`STOP_DRAIN_TIMEOUT`] to close too. Closing at once, with data of the
+/// peer unread or on its way, would reset the connection and lose what was
+/// written to it last.
 async fn run_stream_reader<R>(
     reader: &mut R,
     transport: TransportKind,
@@ -389,9 +393,13 @@ async fn run_stream_reader<R>(
             }
         }
     };
+    let given_up = async {
+        let _ = writer_done.await;
+        tokio::time::sleep(STOP_DRAIN_TIMEOUT).await;
+    };
     tokio::select! {
         _ = read => {}
-        _ = writer_done => {}
+        _ = given_up => {}
     }
 }
 
@@ -925,7 +933,7 @@ impl ConnectionPool {
 
         // Writer task — reads from channel and sends WS Binary frames
         let writer_key = key.clone();
-        let (writer_done_tx, mut writer_done) = oneshot::channel::<()>();
+        let (writer_done_tx, writer_done) = oneshot::channel::<()>();
         let writer_handle = tokio::spawn(async move {
             let _writer_done = writer_done_tx;
             let mut deadline: Option<tokio::time::Instant> = None;
@@ -966,6 +974,8 @@ impl ConnectionPool {
                 }
                 crate::transport_metrics().on_packet_sent(crate::TransportLabel::Ws);
             }
+            // The peer answers with its own Close, which ends the reader.
+            let _ = tokio::time::timeout(STOP_DRAIN_TIMEOUT, sink.close()).await;
         });
         spawn_writer_supervisor(
             writer_handle,
@@ -1019,9 +1029,14 @@ impl ConnectionPool {
                     }
                 }
             };
+            // As in `run_stream_reader`.
+            let given_up = async {
+                let _ = writer_done.await;
+                tokio::time::sleep(STOP_DRAIN_TIMEOUT).await;
+            };
             tokio::select! {
                 _ = read => {}
-                _ = &mut writer_done => {}
+                _ = given_up => {}
             }
             remove_ended(&map, &reader_key, id);
         });
-- 
2.43.0


From 6177b0635a001897d5c1b512cbf6a8f850ac6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 43/63] fix: sip-proxy: each branch of a forked request is
 counted once, and decided under one lock

Responses on several branches at once, repeated responses and late ones made a
proxy forward a second final response, forward none, or drop a 2xx that came
after a 6xx. CANCELs were rebuilt for branches that had theirs already.
---
 crates/sip-proxy/src/stateful.rs | 224 ++++++++++++++++---------------
 1 file changed, 119 insertions(+), 105 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index a35c766..9127717 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -30,7 +30,7 @@ use crate::cancel_ack::{AckForwarder, CancelForwarder};
 use crate::ProxyHelpers;
 use anyhow::Result;
 use dashmap::DashMap;
-use sip_core::{Request, Response, SipUri};
+use sip_core::{Method, Request, Response, SipUri};
 use smol_str::SmolStr;
 use std::collections::HashMap;
 use std::sync::Arc;
@@ -180,6 +180,9 @@ pub struct BranchInfo {
 
     /// Best response received so far (for response selection)
     pub(crate) best_response: Option<Response>,
+
+    /// A CANCEL has been built for this branch: it gets no second one.
+    cancel_built: bool,
 }
 
 impl BranchInfo {
@@ -198,6 +201,7 @@ impl BranchInfo {
             created_at,
             state,
             best_response: None,
+            cancel_built: false,
         })
     }
 
@@ -307,6 +311,10 @@ pub struct ProxyContext {
     /// [...] and MUST NOT create any new branches in this context."
     /// `add_branch` honours this flag.
     terminated_by_6xx: RwLock<bool>,
+
+    /// Set once the best response has been returned because every
+    /// branch was done; adding a branch (sequential forking) resets it.
+    all_done: RwLock<bool>,
 }
 
 impl ProxyContext {
@@ -361,6 +369,7 @@ impl ProxyContext {
             created_at: Instant::now(),
             timer_c_duration,
             terminated_by_6xx: RwLock::new(false),
+            all_done: RwLock::new(false),
         }
     }
 
@@ -370,12 +379,13 @@ impl ProxyContext {
     /// already received a 6xx response — RFC 3261 §16.7 #4 forbids
     /// new branches in that state.
     pub async fn add_branch(&self, branch_info: BranchInfo) -> Result<(), ProxyError> {
+        let mut branches = self.branches.write().await;
+
+        // Under the lock: a 6xx is processed while holding it.
         if *self.terminated_by_6xx.read().await {
             return Err(ProxyError::TerminatedBy6xx);
         }
 
-        let mut branches = self.branches.write().await;
-
         if branches.len() >= MAX_BRANCHES_PER_CONTEXT {
             return Err(ProxyError::TooManyBranches {
                 max: MAX_BRANCHES_PER_CONTEXT,
@@ -383,8 +393,11 @@ impl ProxyContext {
         }
 
         let mut count = self.outstanding_count.write().await;
-        branches.insert(branch_info.branch_id.clone(), branch_info);
-        *count += 1;
+        let replaced = branches.insert(branch_info.branch_id.clone(), branch_info);
+        if !replaced.is_some_and(|old| old.state != BranchState::Completed) {
+            *count += 1;
+        }
+        *self.all_done.write().await = false;
         Ok(())
     }
 
@@ -399,19 +412,31 @@ impl ProxyContext {
     ///
     /// Returns the response that should be forwarded upstream (if any).
     ///
+    /// Each branch counts once: what it sends after its final response,
+    /// other than a 2xx to an INVITE, is a retransmission or too late and
+    /// yields nothing. Once a final response has been returned, the only
+    /// further ones are 2xx responses to an INVITE (RFC 3261 §16.7 step 5).
+    ///
     /// # Locking
     ///
-    /// Releases `branches` before any further `await` on a method that
-    /// itself acquires `branches` (currently `cancel_other_branches`).
-    /// `tokio::sync::RwLock` is not reentrant — holding the write
-    /// guard across such a call deadlocks. Earlier revisions of this
-    /// function held `branches.write()` for the whole body and called
-    /// `cancel_other_branches` from inside that scope, which would
-    /// hang on the 2xx fork-cancel path with no diagnostic.
+    /// `branches` is held throughout, so that responses arriving at the same
+    /// time on several branches are decided one after the other. The other
+    /// locks are only ever taken while holding it, or alone.
     pub async fn process_response(
         self: &Arc<Self>,
         branch_id: &str,
         response: Response,
+    ) -> Option<Response> {
+        self.process(branch_id, response, false).await
+    }
+
+    /// `local`: the response stands for a failure noticed here, which only
+    /// concerns a branch still waiting.
+    async fn process(
+        self: &Arc<Self>,
+        branch_id: &str,
+        response: Response,
+        local: bool,
     ) -> Option<Response> {
         let is_final = response.code() >= 200;
         let is_two_xx = (200..300).contains(&response.code());
@@ -419,48 +444,38 @@ impl ProxyContext {
         // cancel siblings AND prevent any further forking via
         // `add_branch`.
         let is_six_xx = (600..700).contains(&response.code());
+        let is_invite = *self.original_request.method() == Method::Invite;
 
-        // Mutate the branch in its own scope so the write guard
-        // releases before we call cancel_other_branches below.
-        {
-            let mut branches = self.branches.write().await;
-            let branch = branches.get_mut(branch_id)?;
-
-            let was_trying = matches!(branch.state, BranchState::Trying);
+        let mut branches = self.branches.write().await;
+        let mut best_final = self.best_final.write().await;
+        let two_xx_sent = best_final.as_ref().is_some_and(is_success);
+        let six_xx_sent = *self.terminated_by_6xx.read().await;
+        let final_sent = two_xx_sent || six_xx_sent || *self.all_done.read().await;
+
+        let branch = branches.get_mut(branch_id)?;
+        let was = branch.state;
+        if local && !matches!(was, BranchState::Trying | BranchState::Proceeding) {
+            return None;
+        }
 
-            if response.code() >= 100 && response.code() < 200 {
+        if !is_final {
+            if was == BranchState::Trying || was == BranchState::Proceeding {
                 branch.state = BranchState::Proceeding;
+                branch.best_response = Some(response.clone());
                 // RFC 3261 §16.7 step 2: arm Timer C on the first
                 // transition into Proceeding so a silent downstream
                 // doesn't hang the upstream forever.
-                if was_trying {
+                if was == BranchState::Trying {
                     arm_timer_c(
                         Arc::downgrade(self),
                         branch_id.to_string(),
                         self.timer_c_duration,
                     );
                 }
-            } else if is_final {
-                branch.state = BranchState::Completed;
             }
-
-            // Store best response for this branch.
-            branch.best_response = Some(response.clone());
-        }
-
-        // Decrement the outstanding counter once the branches lock is
-        // released. Holding two write locks is fine in principle but
-        // keeping them strictly serialised keeps the lock graph
-        // trivial.
-        if is_final {
-            let mut count = self.outstanding_count.write().await;
-            if *count > 0 {
-                *count -= 1;
+            if final_sent || was == BranchState::Completed {
+                return None;
             }
-        }
-
-        // Handle provisional responses (always forward first 1xx per RFC 3261)
-        if !is_final {
             debug!(
                 "Forwarding provisional {} response from branch {}",
                 response.code(),
@@ -469,36 +484,41 @@ impl ProxyContext {
             return Some(response);
         }
 
-        // Handle final responses with response selection. The result
-        // is computed inside a small scope so the best_final write
-        // guard isn't held across `cancel_other_branches`.
-        let should_forward = {
-            let mut best_final = self.best_final.write().await;
-            let should = select_best_response(best_final.as_ref(), &response);
-            if should {
-                *best_final = Some(response.clone());
+        if was == BranchState::Completed && !(is_two_xx && is_invite) {
+            return None;
+        }
+        branch.state = BranchState::Completed;
+        branch.best_response = Some(response.clone());
+        let outstanding = {
+            let mut count = self.outstanding_count.write().await;
+            if was != BranchState::Completed {
+                *count = count.saturating_sub(1);
             }
-            should
+            *count
         };
 
         // Per RFC 3261 §16.7: only 2xx and 6xx finals may be forwarded
-        // as soon as they arrive. Every other final (1xx already
-        // returned above, 3xx/4xx/5xx) must be buffered until ALL
-        // branches have completed; otherwise we'd both (a) emit the
-        // wrong "best" upstream when a sibling later returns a better
-        // response, and (b) skip the §16.7 #7 401/407 aggregation
-        // step. `should_forward` here only controls whether we update
-        // the stored best — actual upstream forwarding for non-2xx/
-        // non-6xx happens via the "all branches complete" path below.
-        if should_forward && is_two_xx {
+        // as soon as they arrive. Every other final (3xx/4xx/5xx) must be
+        // buffered until ALL branches have completed; otherwise we'd both
+        // (a) emit the wrong "best" upstream when a sibling later returns
+        // a better response, and (b) skip the §16.7 #7 401/407 aggregation
+        // step.
+        if is_two_xx && (is_invite || !final_sent) {
             info!(
                 "Selected {} (2xx) — forwarding immediately and cancelling siblings",
                 response.code(),
             );
-            self.cancel_other_branches(branch_id).await;
+            *best_final = Some(response.clone());
+            Self::cancel_other_branches(&mut branches, branch_id);
             return Some(response);
         }
-        if should_forward && is_six_xx {
+        if final_sent {
+            return None;
+        }
+        if select_best_response(best_final.as_ref(), &response) {
+            *best_final = Some(response.clone());
+        }
+        if is_six_xx {
             info!(
                 "Selected {} (6xx) — global failure, cancelling siblings",
                 response.code(),
@@ -509,36 +529,30 @@ impl ProxyContext {
             // could even override the global failure with a 4xx that
             // arrives later.
             *self.terminated_by_6xx.write().await = true;
-            self.cancel_other_branches(branch_id).await;
+            Self::cancel_other_branches(&mut branches, branch_id);
             return Some(response);
         }
 
         // Check if all branches have completed
-        let outstanding = *self.outstanding_count.read().await;
-        if outstanding == 0 {
-            // All branches done - return the best we have. Take a
-            // fresh read of best_final since the earlier write guard
-            // has been released.
-            let best = self.best_final.read().await.clone();
-            if let Some(mut best) = best {
-                // RFC 3261 §16.7 #7: if the best response is 401 /
-                // 407, aggregate WWW-Authenticate / Proxy-Authenticate
-                // from every branch that returned 401 / 407 into the
-                // response we forward. The client needs all of them
-                // to construct a request that satisfies every realm
-                // simultaneously.
-                if best.code() == 401 || best.code() == 407 {
-                    self.aggregate_auth_challenges(&mut best).await;
-                }
-                info!(
-                    "All branches complete - forwarding best response {}",
-                    best.code()
-                );
-                return Some(best);
-            }
+        if outstanding > 0 {
+            return None;
         }
-
-        None
+        let mut best = best_final.clone()?;
+        *self.all_done.write().await = true;
+        // RFC 3261 §16.7 #7: if the best response is 401 /
+        // 407, aggregate WWW-Authenticate / Proxy-Authenticate
+        // from every branch that returned 401 / 407 into the
+        // response we forward. The client needs all of them
+        // to construct a request that satisfies every realm
+        // simultaneously.
+        if best.code() == 401 || best.code() == 407 {
+            Self::aggregate_auth_challenges(&branches, &mut best);
+        }
+        info!(
+            "All branches complete - forwarding best response {}",
+            best.code()
+        );
+        Some(best)
     }
 
     /// Adds `WWW-Authenticate` (for 401) and `Proxy-Authenticate`
@@ -548,8 +562,7 @@ impl ProxyContext {
     /// collect any WWW-Authenticate and Proxy-Authenticate header
     /// field values from all other 401 and 407 responses received
     /// and add them to this response without modification."
-    async fn aggregate_auth_challenges(&self, best: &mut Response) {
-        let branches = self.branches.read().await;
+    fn aggregate_auth_challenges(branches: &HashMap<SmolStr, BranchInfo>, best: &mut Response) {
         // Collect raw header values from every branch that responded
         // 401 or 407 — including the winning branch (`best` already
         // carries them, but iterating uniformly keeps the dedup logic
@@ -596,13 +609,8 @@ impl ProxyContext {
         }
     }
 
-    /// Cancel all branches except the specified one (winner)
-    ///
-    /// Returns branch IDs that should receive CANCEL.
-    async fn cancel_other_branches(&self, winner_branch: &str) -> Vec<SmolStr> {
-        let mut branches = self.branches.write().await;
-        let mut to_cancel = Vec::new();
-
+    /// Marks all branches except the specified one (winner) as cancelled
+    fn cancel_other_branches(branches: &mut HashMap<SmolStr, BranchInfo>, winner_branch: &str) {
         for (branch_id, branch) in branches.iter_mut() {
             if branch_id.as_str() != winner_branch
                 && !matches!(
@@ -615,31 +623,33 @@ impl ProxyContext {
                     branch_id, winner_branch
                 );
                 branch.state = BranchState::Cancelled;
-                to_cancel.push(branch_id.clone());
             }
         }
-
-        to_cancel
     }
 
     /// Build CANCEL requests for all branches marked as Cancelled/Trying/Proceeding.
     ///
+    /// A branch gets one CANCEL: those it has been built for already are left out.
+    ///
     /// The provided CANCEL template should already match the original INVITE's
     /// Call-ID/From/To/CSeq; this will rewrite the Via branch per target branch.
     pub async fn build_cancel_requests(&self, cancel_template: &Request) -> Vec<Request> {
-        let branches = self.branches.read().await;
+        let mut branches = self.branches.write().await;
         let mut cancels = Vec::new();
 
-        for (branch_id, branch) in branches.iter() {
-            if matches!(
-                branch.state,
-                BranchState::Cancelled | BranchState::Trying | BranchState::Proceeding
-            ) {
+        for (branch_id, branch) in branches.iter_mut() {
+            if !branch.cancel_built
+                && matches!(
+                    branch.state,
+                    BranchState::Cancelled | BranchState::Trying | BranchState::Proceeding
+                )
+            {
                 match CancelForwarder::prepare_cancel(cancel_template, branch_id.as_str()) {
                     Ok(mut cancel) => {
                         // Ensure Request-URI targets the original branch destination
                         ProxyHelpers::set_request_uri(&mut cancel, branch.target.clone());
                         cancels.push(cancel);
+                        branch.cancel_built = true;
                     }
                     Err(e) => warn!("Failed to prepare CANCEL for branch {}: {}", branch_id, e),
                 }
@@ -749,7 +759,7 @@ impl ProxyContext {
             call_id = %self.call_id,
             "Timer C fired (RFC 3261 §16.7 step 2) — synthesising 408 Request Timeout"
         );
-        if let Some(to_forward) = self.process_response(branch_id, synthetic).await {
+        if let Some(to_forward) = self.process(branch_id, synthetic, true).await {
             // Best-effort: push the synthesised 408 to the response
             // channel. If the receiver has already gone away (context
             // torn down) we silently drop — nothing to do.
@@ -811,7 +821,7 @@ impl ProxyContext {
             call_id = %self.call_id,
             "transport error reported (RFC 3261 §16.9) — synthesising 503 Service Unavailable"
         );
-        let forwarded = self.process_response(branch_id, synthetic).await;
+        let forwarded = self.process(branch_id, synthetic, true).await;
         if let Some(ref to_forward) = forwarded {
             let _ = self.response_tx.send(to_forward.clone());
         }
@@ -819,6 +829,10 @@ impl ProxyContext {
     }
 }
 
+fn is_success(response: &Response) -> bool {
+    (200..300).contains(&response.code())
+}
+
 /// Spawns the Timer C watchdog for a branch. Holds a `Weak` to the
 /// context so the task exits cleanly if the context is dropped before
 /// the timer fires. Sleep is a single tokio::time::sleep — no busy
-- 
2.43.0


From 5896803893b71e9cc5608d8516b8a6069a8f72b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 44/63] fix: sip-proxy: a 6xx response cancels the other
 branches' requests too

---
 crates/sip-proxy/src/service.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/sip-proxy/src/service.rs b/crates/sip-proxy/src/service.rs
index 6137df8..7b78202 100644
--- a/crates/sip-proxy/src/service.rs
+++ b/crates/sip-proxy/src/service.rs
@@ -178,9 +178,10 @@ impl ProxyService {
     ) -> ProxyActions {
         let forward = context.process_response(branch_id, response).await;
 
-        // Build CANCELs for losing branches if we have a winning 2xx
+        // Build CANCELs for losing branches if we have a winning 2xx, or
+        // a 6xx, which ends them too (RFC 3261 §16.7 step 5)
         let cancels = if let Some(ref resp) = forward {
-            if resp.code() >= 200 && resp.code() < 300 {
+            if (200..300).contains(&resp.code()) || resp.code() >= 600 {
                 let cancel_template = build_cancel_template(
                     &context.original_request,
                     context.proxy_host.as_str(),
-- 
2.43.0


From 52860a1c67befaa7e6c4bbaff99f6621fd5a50e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 45/63] fix: sip-proxy: a CANCEL carries the Via of the request
 it cancels and no other

---
 crates/sip-proxy/src/service.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/sip-proxy/src/service.rs b/crates/sip-proxy/src/service.rs
index 7b78202..b870dac 100644
--- a/crates/sip-proxy/src/service.rs
+++ b/crates/sip-proxy/src/service.rs
@@ -210,6 +210,8 @@ impl ProxyService {
 /// Build a CANCEL template from the original INVITE.
 fn build_cancel_template(original: &Request, proxy_host: &str, transport: &str) -> Request {
     let mut headers = original.headers().clone();
+    // The only Via of a CANCEL is that of the request it cancels (RFC 3261 §9.1)
+    headers.remove("Via");
     headers.remove("Content-Type");
     headers.remove("Content-Length");
     let mut cancel = Request::new(
-- 
2.43.0


From 99a02b19e02cd1bc68cc52654d9af1c8fb8940a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:08 +0000
Subject: [PATCH 46/63] fix: sip-proxy: a request that cannot be forwarded is
 refused, and old contexts make room for new ones

A target list met with an exhausted Max-Forwards gave an empty set of branches,
which never answers; a refused request left its context behind; and after
10,000 requests a proxy service refused every further one.
---
 crates/sip-proxy/src/service.rs  | 51 ++++++++++++++++++--------------
 crates/sip-proxy/src/stateful.rs |  3 ++
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/crates/sip-proxy/src/service.rs b/crates/sip-proxy/src/service.rs
index b870dac..e689998 100644
--- a/crates/sip-proxy/src/service.rs
+++ b/crates/sip-proxy/src/service.rs
@@ -114,18 +114,6 @@ impl ProxyService {
             .ok_or_else(|| anyhow!("Missing Call-ID header"))?;
         let client_branch = extract_top_via_branch(&original)?;
 
-        let (context, response_rx) = self
-            .proxy
-            .start_context(
-                original.clone(),
-                call_id.clone(),
-                SmolStr::new(client_branch),
-                SmolStr::new(proxy_host),
-                SmolStr::new(transport),
-                fork_mode,
-            )
-            .map_err(|e| anyhow!(e))?;
-
         let mut forwarded = Vec::new();
         let mut ordered_targets = targets;
         if matches!(fork_mode, ForkMode::Sequential) {
@@ -141,28 +129,47 @@ impl ProxyService {
             ordered_targets.truncate(1);
         }
 
+        // A request that cannot be forwarded (Max-Forwards) is an error, and
+        // starts nothing.
+        let mut branches = Vec::new();
         for target in ordered_targets {
-            if let Ok((request, branch)) = forwarding::prepare_forward(
+            let (request, branch) = forwarding::prepare_forward(
                 &original,
                 &target.uri,
                 proxy_host,
                 transport,
                 add_record_route,
                 proxy_uri,
-            ) {
-                let branch_info = BranchInfo::new(
+            )?;
+            branches.push(
+                BranchInfo::new(
                     branch.clone(),
                     target.uri.clone(),
                     std::time::Instant::now(),
                     BranchState::Trying,
                 )
-                .map_err(|e| anyhow!(e))?;
-                forwarded.push((branch.clone(), request.clone()));
-                // Track branch in context
-                context
-                    .add_branch(branch_info)
-                    .await
-                    .map_err(|e| anyhow!(e))?;
+                .map_err(|e| anyhow!(e))?,
+            );
+            forwarded.push((branch, request));
+        }
+
+        let (context, response_rx) = self
+            .proxy
+            .start_context(
+                original.clone(),
+                call_id.clone(),
+                client_branch.clone(),
+                SmolStr::new(proxy_host),
+                SmolStr::new(transport),
+                fork_mode,
+            )
+            .map_err(|e| anyhow!(e))?;
+
+        // Track branches in context
+        for branch_info in branches {
+            if let Err(e) = context.add_branch(branch_info).await {
+                self.proxy.remove_context(&client_branch);
+                return Err(anyhow!(e));
             }
         }
 
diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index 9127717..c694314 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -933,6 +933,9 @@ impl StatefulProxy {
         transport: SmolStr,
         fork_mode: ForkMode,
     ) -> Result<(Arc<ProxyContext>, mpsc::UnboundedReceiver<Response>), ProxyError> {
+        if self.contexts.len() >= MAX_PROXY_CONTEXTS {
+            self.cleanup_old();
+        }
         if self.contexts.len() >= MAX_PROXY_CONTEXTS {
             return Err(ProxyError::TooManyContexts {
                 max: MAX_PROXY_CONTEXTS,
-- 
2.43.0


From 9d7249ca8cd5c19205502ae1bae60025f4de75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 47/63] fix: sip-uas: a CANCEL is not challenged

---
 crates/sip-uas/src/integrated.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/sip-uas/src/integrated.rs b/crates/sip-uas/src/integrated.rs
index 427bbf1..261d3c3 100644
--- a/crates/sip-uas/src/integrated.rs
+++ b/crates/sip-uas/src/integrated.rs
@@ -388,7 +388,11 @@ impl IntegratedUAS {
             ctx.peer()
         );
 
-        if self.config.require_authentication && request.method() != &Method::Ack {
+        // A CANCEL cannot be resubmitted, so it is never challenged (RFC 3261
+        // §22.1).
+        if self.config.require_authentication
+            && !matches!(request.method(), Method::Ack | Method::Cancel)
+        {
             let helper = self.helper.lock().await;
             let is_authenticated = helper.verify_authentication(request)?;
             if !is_authenticated {
-- 
2.43.0


From 1f43b27970f5d0819f3905ed9acb8f692fa4a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 48/63] fix: sip-uas: a BYE ends the dialog whichever handler
 answers it

---
 crates/sip-uas/src/integrated.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/sip-uas/src/integrated.rs b/crates/sip-uas/src/integrated.rs
index 261d3c3..24c7e1e 100644
--- a/crates/sip-uas/src/integrated.rs
+++ b/crates/sip-uas/src/integrated.rs
@@ -446,9 +446,14 @@ impl IntegratedUAS {
                     helper.dialog_manager.find_by_request(request)
                 };
                 if let Some(dialog) = dialog {
-                    self.request_handler
+                    let handled = self
+                        .request_handler
                         .on_bye(request, handle, ctx, &dialog)
-                        .await?;
+                        .await;
+                    // The dialog has ended, whether or not the handler went
+                    // through `UserAgentServer::handle_bye`.
+                    self.dialog_manager.remove(dialog.id());
+                    handled?;
                 } else {
                     warn!("Received BYE for unknown dialog");
                     let mut response = UserAgentServer::create_response(
-- 
2.43.0


From 5828143346ddf2e665390d58c7b422e20ed40bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:19 +0000
Subject: [PATCH 49/63] fix: sip-uas: an INVITE answered by a CANCEL's 487 does
 not leave an accepted dialog

---
 crates/sip-transaction/src/manager.rs | 15 ++++++++++++++
 crates/sip-uas/src/integrated.rs      | 30 +++++++++++++++++++++++++--
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 84a30bb..6d91501 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -1584,6 +1584,13 @@ impl TransactionManager {
     }
 
     pub async fn send_final(&self, key: &TransactionKey, response: Response) {
+        self.try_send_final(key, response).await;
+    }
+
+    /// Like [`send_final`](Self::send_final), and reports whether the
+    /// transaction took the response: `false` when it has sent another final
+    /// response already (a 487, say, after a CANCEL) or no longer exists.
+    pub async fn try_send_final(&self, key: &TransactionKey, response: Response) -> bool {
         // Extract first line for logging
         let first_line = {
             let bytes = serialize_response(&response);
@@ -1618,8 +1625,11 @@ impl TransactionManager {
             );
 
             drop(entry);
+            let taken = !actions.is_empty();
             self.apply_server_actions(key, actions).await;
+            return taken;
         }
+        false
     }
 
     /// Feed an ACK to the matching server transaction.
@@ -1699,6 +1709,11 @@ impl ServerTransactionHandle {
         self.manager.send_final(&self.key, response).await;
     }
 
+    /// See [`TransactionManager::try_send_final`].
+    pub async fn try_send_final(&self, response: Response) -> bool {
+        self.manager.try_send_final(&self.key, response).await
+    }
+
     pub async fn send_provisional(&self, response: Response) {
         self.manager.send_provisional(&self.key, response).await;
     }
diff --git a/crates/sip-uas/src/integrated.rs b/crates/sip-uas/src/integrated.rs
index 24c7e1e..953c397 100644
--- a/crates/sip-uas/src/integrated.rs
+++ b/crates/sip-uas/src/integrated.rs
@@ -620,13 +620,38 @@ impl IntegratedUAS {
         sdp_body: Option<&str>,
     ) -> Result<Dialog> {
         let helper = self.helper.lock().await;
+        let known = self.dialog_manager.find_by_request(request);
         let (mut response, dialog) = helper.accept_invite(request, sdp_body)?;
         drop(helper);
         self.auto_fill_headers(&mut response, ctx).await;
-        handle.send_final(response).await;
+        self.send_accepted(handle, response, &dialog, known).await?;
         Ok(dialog)
     }
 
+    /// Sends the 2xx of `dialog`. When the INVITE has been answered meanwhile
+    /// (by the 487 of a CANCEL, say) the 2xx is not sent and establishes
+    /// nothing: the dialog table goes back to what it held before, `known`.
+    async fn send_accepted(
+        &self,
+        handle: &ServerTransactionHandle,
+        response: Response,
+        dialog: &Dialog,
+        known: Option<Dialog>,
+    ) -> Result<()> {
+        if handle.try_send_final(response).await {
+            return Ok(());
+        }
+        match known {
+            Some(known) => {
+                let _ = self.dialog_manager.insert(known);
+            }
+            None => {
+                self.dialog_manager.remove(dialog.id());
+            }
+        }
+        Err(anyhow!("INVITE was answered or cancelled meanwhile"))
+    }
+
     /// Session-timer-aware sibling of [`Self::accept_invite`]. Calls
     /// [`UserAgentServer::accept_invite_with_session_timer`] under the
     /// helper's lock, sends the prepared 2xx (or 422 on Min-SE violation),
@@ -643,6 +668,7 @@ impl IntegratedUAS {
         policy: &SessionTimerPolicy,
     ) -> Result<AcceptInviteAsyncOutcome> {
         let helper = self.helper.lock().await;
+        let known = self.dialog_manager.find_by_request(request);
         let outcome = helper.accept_invite_with_session_timer(request, sdp_body, policy)?;
         drop(helper);
         match outcome {
@@ -652,7 +678,7 @@ impl IntegratedUAS {
                 session_timer,
             } => {
                 self.auto_fill_headers(&mut response, ctx).await;
-                handle.send_final(response).await;
+                self.send_accepted(handle, response, &dialog, known).await?;
                 Ok(AcceptInviteAsyncOutcome::Accepted {
                     dialog,
                     session_timer,
-- 
2.43.0


From c237f6c19a8e9fa2b96009b47212e6b2cdd03f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:12 +0000
Subject: [PATCH 50/63] fix: sip-uas: credentials that dispatch has verified
 are not verified again as a replay

---
 crates/sip-uas/src/integrated.rs | 13 +++++----
 crates/sip-uas/src/lib.rs        | 47 ++++++++++++++++++--------------
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/crates/sip-uas/src/integrated.rs b/crates/sip-uas/src/integrated.rs
index 953c397..0a9cd36 100644
--- a/crates/sip-uas/src/integrated.rs
+++ b/crates/sip-uas/src/integrated.rs
@@ -1090,11 +1090,14 @@ impl IntegratedUASBuilder {
             }
         };
 
-        let helper = if let Some(authenticator) = self.authenticator {
-            UserAgentServer::new(local_uri, contact_uri).with_authenticator(authenticator)
-        } else {
-            UserAgentServer::new(local_uri, contact_uri)
-        };
+        let mut helper = UserAgentServer::new(local_uri, contact_uri);
+        if let Some(authenticator) = self.authenticator {
+            helper = helper.with_authenticator(authenticator);
+        }
+        if self.config.require_authentication {
+            // `dispatch` verifies every request.
+            helper = helper.with_preverified_requests();
+        }
         let dialog_manager = helper.dialog_manager.clone();
         let subscription_manager = helper.subscription_manager.clone();
 
diff --git a/crates/sip-uas/src/lib.rs b/crates/sip-uas/src/lib.rs
index 955cfbb..26795b0 100644
--- a/crates/sip-uas/src/lib.rs
+++ b/crates/sip-uas/src/lib.rs
@@ -251,6 +251,10 @@ pub struct UserAgentServer {
 
     /// Optional authenticator for challenge/response
     authenticator: Option<Arc<dyn Authenticator>>,
+
+    /// Requests arrive with their credentials verified. Verifying the same
+    /// credentials again would find them replayed.
+    preverified: bool,
 }
 
 impl UserAgentServer {
@@ -264,6 +268,7 @@ impl UserAgentServer {
             rseq_manager: Arc::new(RSeqManager::new()),
             prack_validator: Arc::new(PrackValidator::new()),
             authenticator: None,
+            preverified: false,
         }
     }
 
@@ -273,6 +278,24 @@ impl UserAgentServer {
         self
     }
 
+    /// Leaves the verification of credentials to the caller, for the `accept_*`
+    /// methods.
+    pub(crate) fn with_preverified_requests(mut self) -> Self {
+        self.preverified = true;
+        self
+    }
+
+    /// Verifies the credentials of a request about to be accepted, if an
+    /// authenticator is configured.
+    fn require_credentials(&self, request: &Request) -> Result<()> {
+        if self.preverified || self.verify_authentication(request)? {
+            return Ok(());
+        }
+        Err(anyhow!(
+            "Authentication required - use create_unauthorized first"
+        ))
+    }
+
     /// Creates a generic response with the given status code and reason.
     ///
     /// # Arguments
@@ -624,13 +647,7 @@ impl UserAgentServer {
         }
 
         // Verify authentication if configured
-        if let Some(auth) = &self.authenticator {
-            if !auth.verify(request, request.headers())? {
-                return Err(anyhow!(
-                    "Authentication required - use create_unauthorized first"
-                ));
-            }
-        }
+        self.require_credentials(request)?;
 
         // Create 200 OK response
         let response = self.create_ok(request, sdp_body);
@@ -696,13 +713,7 @@ impl UserAgentServer {
             return Err(anyhow!("Bad INVITE request"));
         }
 
-        if let Some(auth) = &self.authenticator {
-            if !auth.verify(request, request.headers())? {
-                return Err(anyhow!(
-                    "Authentication required - use create_unauthorized first"
-                ));
-            }
-        }
+        self.require_credentials(request)?;
 
         // ─── RFC 4028 negotiation ──────────────────────────────────────
         // Read request's Session-Expires (if any). Missing header is a
@@ -945,13 +956,7 @@ impl UserAgentServer {
         }
 
         // Verify authentication if configured
-        if let Some(auth) = &self.authenticator {
-            if !auth.verify(request, request.headers())? {
-                return Err(anyhow!(
-                    "Authentication required - use create_unauthorized first"
-                ));
-            }
-        }
+        self.require_credentials(request)?;
 
         // Create 200 OK response
         let mut response = Self::create_response(request, 200, "OK");
-- 
2.43.0


From 7acc24a05a26c6b34e755795d8b0112b3c0d294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 51/63] fix: sip-uas: a 2xx to an INVITE is repeated until its
 ACK, and the INVITE is not offered again

---
 crates/sip-uas/src/integrated.rs | 161 +++++++++++++++++++++++++++++--
 1 file changed, 152 insertions(+), 9 deletions(-)

diff --git a/crates/sip-uas/src/integrated.rs b/crates/sip-uas/src/integrated.rs
index 0a9cd36..bd091b5 100644
--- a/crates/sip-uas/src/integrated.rs
+++ b/crates/sip-uas/src/integrated.rs
@@ -50,17 +50,19 @@
 use anyhow::{anyhow, Result};
 use async_trait::async_trait;
 use sip_auth::Authenticator;
-use sip_core::{Method, Request, Response, SipUri, ViaHeader};
-use sip_dialog::{Dialog, DialogManager, SubscriptionManager};
+use sip_core::{Headers, Method, Request, Response, SipUri, ViaHeader};
+use sip_dialog::{Dialog, DialogId, DialogManager, SubscriptionManager};
 use sip_sdp::profiles::MediaProfileBuilder;
 use sip_transaction::{
     ServerTransactionHandle, TransactionKey, TransactionManager, TransportContext,
     TransportDispatcher,
 };
 use smol_str::SmolStr;
+use std::collections::HashMap;
 use std::net::SocketAddr;
-use std::sync::Arc;
-use tokio::sync::Mutex;
+use std::sync::{Arc, Mutex as StdMutex};
+use tokio::sync::{oneshot, Mutex};
+use tokio::time::Instant;
 use tracing::{debug, info, warn};
 
 use crate::{AcceptInviteOutcome, NegotiatedSessionTimer, SessionTimerPolicy, UserAgentServer};
@@ -352,6 +354,29 @@ pub struct IntegratedUAS {
     request_handler: Arc<dyn UasRequestHandler>,
     #[allow(dead_code)]
     sdp_profile: Option<MediaProfileBuilder>,
+    accepted: Arc<StdMutex<AcceptedInvites>>,
+}
+
+/// T1 and T2 (RFC 3261 §17.1.1.1), for the retransmission of 2xx responses.
+const T1: Duration = Duration::from_millis(500);
+const T2: Duration = Duration::from_secs(4);
+
+/// INVITEs answered with a 2xx within the last 64*T1. The server transaction
+/// ends with the 2xx, so it is the UAS that repeats the response until the ACK
+/// arrives (RFC 3261 §13.3.1.4) and recognises retransmissions of the INVITE.
+#[derive(Default)]
+struct AcceptedInvites {
+    responses: HashMap<TransactionKey, Response>,
+    /// By dialog: the CSeq of the INVITE, and a sender that is dropped when the
+    /// ACK arrives.
+    unacknowledged: HashMap<DialogId, (SmolStr, oneshot::Sender<()>)>,
+}
+
+/// The CSeq number, which an INVITE shares with its responses and with the ACK
+/// for its 2xx.
+fn cseq_number(headers: &Headers) -> Option<SmolStr> {
+    let number = headers.get("CSeq")?.split_whitespace().next()?;
+    Some(SmolStr::new(number))
 }
 
 impl IntegratedUAS {
@@ -388,6 +413,16 @@ impl IntegratedUAS {
             ctx.peer()
         );
 
+        // The same goes for an INVITE that has been accepted, whose
+        // transaction is gone.
+        if request.method() == &Method::Invite {
+            if let Some(response) = self.accepted_response(request) {
+                debug!("Answered INVITE retransmission");
+                handle.send_final(response).await;
+                return Ok(());
+            }
+        }
+
         // A CANCEL cannot be resubmitted, so it is never challenged (RFC 3261
         // §22.1).
         if self.config.require_authentication
@@ -429,6 +464,7 @@ impl IntegratedUAS {
                     .await?;
             }
             "ACK" => {
+                self.stop_retransmitting(request);
                 // ACK doesn't get a response
                 let dialog = {
                     let helper = self.helper.lock().await;
@@ -450,6 +486,8 @@ impl IntegratedUAS {
                         .request_handler
                         .on_bye(request, handle, ctx, &dialog)
                         .await;
+                    // The peer has had the 2xx, then.
+                    self.stop_retransmitting(request);
                     // The dialog has ended, whether or not the handler went
                     // through `UserAgentServer::handle_bye`.
                     self.dialog_manager.remove(dialog.id());
@@ -620,27 +658,56 @@ impl IntegratedUAS {
         sdp_body: Option<&str>,
     ) -> Result<Dialog> {
         let helper = self.helper.lock().await;
-        let known = self.dialog_manager.find_by_request(request);
+        let known = self.before_accepting(request)?;
         let (mut response, dialog) = helper.accept_invite(request, sdp_body)?;
         drop(helper);
         self.auto_fill_headers(&mut response, ctx).await;
-        self.send_accepted(handle, response, &dialog, known).await?;
+        self.send_accepted(handle, ctx, response, &dialog, known)
+            .await?;
         Ok(dialog)
     }
 
+    /// The dialog that `request`, an INVITE about to be accepted, belongs to.
+    fn before_accepting(&self, request: &Request) -> Result<Option<Dialog>> {
+        if self.accepted_response(request).is_some() {
+            return Err(anyhow!("INVITE was accepted already"));
+        }
+        Ok(self.dialog_manager.find_by_request(request))
+    }
+
     /// Sends the 2xx of `dialog`. When the INVITE has been answered meanwhile
     /// (by the 487 of a CANCEL, say) the 2xx is not sent and establishes
     /// nothing: the dialog table goes back to what it held before, `known`.
     async fn send_accepted(
         &self,
         handle: &ServerTransactionHandle,
+        ctx: &TransportContext,
         response: Response,
         dialog: &Dialog,
         known: Option<Dialog>,
     ) -> Result<()> {
-        if handle.try_send_final(response).await {
+        let (unacknowledged, acknowledged) = oneshot::channel();
+        {
+            let mut accepted = self.accepted.lock().unwrap();
+            accepted
+                .responses
+                .insert(handle.key().clone(), response.clone());
+            if let Some(cseq) = cseq_number(response.headers()) {
+                accepted
+                    .unacknowledged
+                    .insert(dialog.id().clone(), (cseq, unacknowledged));
+            }
+        }
+        if handle.try_send_final(response.clone()).await {
+            let (key, id) = (handle.key().clone(), dialog.id().clone());
+            self.retransmit_accepted(key, id, response, ctx.clone(), acknowledged);
             return Ok(());
         }
+        {
+            let mut accepted = self.accepted.lock().unwrap();
+            accepted.responses.remove(handle.key());
+            accepted.unacknowledged.remove(dialog.id());
+        }
         match known {
             Some(known) => {
                 let _ = self.dialog_manager.insert(known);
@@ -652,6 +719,80 @@ impl IntegratedUAS {
         Err(anyhow!("INVITE was answered or cancelled meanwhile"))
     }
 
+    /// Repeats a 2xx until it is acknowledged, and forgets it after 64*T1.
+    fn retransmit_accepted(
+        &self,
+        key: TransactionKey,
+        id: DialogId,
+        response: Response,
+        ctx: TransportContext,
+        mut acknowledged: oneshot::Receiver<()>,
+    ) {
+        let expiry = Instant::now() + T1 * 64;
+        let accepted = Arc::clone(&self.accepted);
+        let dispatcher = Arc::clone(&self.transport_dispatcher);
+        let bytes = sip_parse::serialize_response(&response);
+        tokio::spawn(async move {
+            let mut interval = T1;
+            loop {
+                let next = expiry.min(Instant::now() + interval);
+                if tokio::time::timeout_at(next, &mut acknowledged)
+                    .await
+                    .is_ok()
+                {
+                    break;
+                }
+                if next == expiry {
+                    warn!(key = ?key, "2xx was never acknowledged");
+                    break;
+                }
+                let sent =
+                    tokio::time::timeout_at(expiry, dispatcher.dispatch(&ctx, bytes.clone()));
+                if let Ok(Err(e)) = sent.await {
+                    warn!(%e, key = ?key, "2xx retransmission failed");
+                }
+                interval = T2.min(interval * 2);
+            }
+            tokio::time::sleep_until(expiry).await;
+            let mut accepted = accepted.lock().unwrap();
+            accepted.responses.remove(&key);
+            drop(acknowledged);
+            if let Some((_, tx)) = accepted.unacknowledged.get(&id) {
+                if tx.is_closed() {
+                    accepted.unacknowledged.remove(&id);
+                }
+            }
+        });
+    }
+
+    /// The 2xx that `request`, an INVITE, has been answered with already.
+    fn accepted_response(&self, request: &Request) -> Option<Response> {
+        let key = TransactionKey::from_request(request, true)?;
+        let accepted = self.accepted.lock().unwrap();
+        let response = accepted.responses.get(&key)?;
+        (response.headers().get("Call-ID") == request.headers().get("Call-ID")
+            && cseq_number(response.headers()) == cseq_number(request.headers()))
+        .then(|| response.clone())
+    }
+
+    /// Ends the retransmission of a 2xx that `request`, an ACK for it or a BYE
+    /// of its dialog, shows to have arrived.
+    fn stop_retransmitting(&self, request: &Request) {
+        let Some(id) = DialogId::from_request(request) else {
+            return;
+        };
+        // The peer's local tag is our remote tag.
+        let id = DialogId::unchecked_new(id.call_id(), id.remote_tag(), id.local_tag());
+        let mut accepted = self.accepted.lock().unwrap();
+        if let Some((cseq, _)) = accepted.unacknowledged.get(&id) {
+            if request.method() != &Method::Ack
+                || cseq_number(request.headers()).as_ref() == Some(cseq)
+            {
+                accepted.unacknowledged.remove(&id);
+            }
+        }
+    }
+
     /// Session-timer-aware sibling of [`Self::accept_invite`]. Calls
     /// [`UserAgentServer::accept_invite_with_session_timer`] under the
     /// helper's lock, sends the prepared 2xx (or 422 on Min-SE violation),
@@ -668,7 +809,7 @@ impl IntegratedUAS {
         policy: &SessionTimerPolicy,
     ) -> Result<AcceptInviteAsyncOutcome> {
         let helper = self.helper.lock().await;
-        let known = self.dialog_manager.find_by_request(request);
+        let known = self.before_accepting(request)?;
         let outcome = helper.accept_invite_with_session_timer(request, sdp_body, policy)?;
         drop(helper);
         match outcome {
@@ -678,7 +819,8 @@ impl IntegratedUAS {
                 session_timer,
             } => {
                 self.auto_fill_headers(&mut response, ctx).await;
-                self.send_accepted(handle, response, &dialog, known).await?;
+                self.send_accepted(handle, ctx, response, &dialog, known)
+                    .await?;
                 Ok(AcceptInviteAsyncOutcome::Accepted {
                     dialog,
                     session_timer,
@@ -1110,6 +1252,7 @@ impl IntegratedUASBuilder {
             config: self.config,
             dialog_manager,
             subscription_manager,
+            accepted: Arc::default(),
             request_handler,
             sdp_profile: self.sdp_profile,
         })
-- 
2.43.0


From f71ff0487a9146dbcc2db008292f7057fbce9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 52/63] fix: sip-uas: all responses to one request carry the
 same To tag

---
 crates/sip-uas/src/lib.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/sip-uas/src/lib.rs b/crates/sip-uas/src/lib.rs
index 26795b0..66a0e33 100644
--- a/crates/sip-uas/src/lib.rs
+++ b/crates/sip-uas/src/lib.rs
@@ -1417,6 +1417,33 @@ fn generate_tag() -> SmolStr {
     SmolStr::new(tag)
 }
 
+/// The To tag of a response with these headers. All responses to one request,
+/// provisional and final, carry the same tag (RFC 3261 §8.2.6.2), so it is
+/// derived from what identifies the request; a CANCEL shares it with the
+/// request it cancels.
+fn to_tag_for(headers: &Headers) -> SmolStr {
+    use std::hash::{BuildHasher, RandomState};
+    use std::sync::OnceLock;
+
+    static SECRET: OnceLock<RandomState> = OnceLock::new();
+
+    let branch = headers
+        .get("Via")
+        .and_then(sip_transaction::branch_from_via);
+    let (Some(branch), Some(call_id)) = (branch, headers.get("Call-ID")) else {
+        return generate_tag();
+    };
+    if let Some(counter) = deterministic_counter() {
+        return SmolStr::new(format!("t{:010x}", counter));
+    }
+    let cseq = headers
+        .get("CSeq")
+        .and_then(|value| value.split_whitespace().next());
+    let secret = SECRET.get_or_init(RandomState::new);
+    let tag = secret.hash_one((call_id, headers.get("From"), branch, cseq));
+    SmolStr::new(format!("{tag:016x}"))
+}
+
 /// Helper to generate a branch parameter (RFC 3261 magic cookie).
 fn generate_branch() -> String {
     use rand::{distr::Alphanumeric, RngExt};
@@ -1539,7 +1566,7 @@ fn ensure_to_tag_header(response: &mut Response) {
     // Add tag if missing
     if let Some(to) = to_value {
         if !has_tag {
-            let tag = generate_tag();
+            let tag = to_tag_for(response.headers());
             let new_to = format!("{};tag={}", to.as_str(), tag.as_str());
 
             // Replace To header
-- 
2.43.0


From 13c4d9ec2d3376001f73787e3eaa2be692e0edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:33 +0000
Subject: [PATCH 53/63] fix: sip-uac: provisional responses nobody reads do not
 stall the INVITE

---
 crates/sip-uac/src/integrated.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/sip-uac/src/integrated.rs b/crates/sip-uac/src/integrated.rs
index 2e7d8b2..056c71d 100644
--- a/crates/sip-uac/src/integrated.rs
+++ b/crates/sip-uac/src/integrated.rs
@@ -3428,8 +3428,15 @@ impl ClientTransactionUser for InviteTransactionUser {
             }
         }
 
-        // Forward to application
-        let _ = self.prov_tx.send(response.clone()).await;
+        // Forward to application. The transaction waits for this call, so an
+        // application that does not read its provisionals must not hold it up:
+        // what does not fit in the channel is dropped.
+        if let Err(mpsc::error::TrySendError::Full(_)) = self.prov_tx.try_send(response.clone()) {
+            debug!(
+                code = response.code(),
+                "provisional responses are not being read; dropping one"
+            );
+        }
     }
 
     async fn on_final(&self, _key: &TransactionKey, response: &Response) {
-- 
2.43.0


From 9f3fd0e76a2983c395c563c97fdf558ea8f1daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:33 +0000
Subject: [PATCH 54/63] fix: sip-uac: the dialog ends with the BYE sent in it

---
 crates/sip-uac/src/integrated.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/sip-uac/src/integrated.rs b/crates/sip-uac/src/integrated.rs
index 056c71d..49c1ec2 100644
--- a/crates/sip-uac/src/integrated.rs
+++ b/crates/sip-uac/src/integrated.rs
@@ -2160,7 +2160,10 @@ impl IntegratedUAC {
             .await;
 
         // Send and wait for response
-        self.send_non_invite_request(request, dns_target).await
+        let result = self.send_non_invite_request(request, dns_target).await;
+        // The session is over whatever the answer is (RFC 3261 §15.1.1).
+        self.dialog_manager.remove(dialog.id());
+        result
     }
 
     /// Sends a BYE request using an existing connection (RFC 5626 flow support).
@@ -2204,8 +2207,12 @@ impl IntegratedUAC {
         .await;
 
         info!("Sending BYE via flow for dialog {:?}", dialog.id());
-        self.send_non_invite_via_flow(request, &dns_target, &flow)
-            .await
+        let result = self
+            .send_non_invite_via_flow(request, &dns_target, &flow)
+            .await;
+        // The session is over whatever the answer is (RFC 3261 §15.1.1).
+        self.dialog_manager.remove(dialog.id());
+        result
     }
 
     /// Sends a non-INVITE request through an existing connection and waits
-- 
2.43.0


From 948fda1ae3686b513ebc9ac78a9979144ba28ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 55/63] fix: sip-uac: early dialogs end with their INVITE, and
 a repeated 2xx does not bring a dialog back

---
 crates/sip-uac/src/integrated.rs | 158 +++++++++++++++++++++++--------
 1 file changed, 118 insertions(+), 40 deletions(-)

diff --git a/crates/sip-uac/src/integrated.rs b/crates/sip-uac/src/integrated.rs
index 49c1ec2..26286a7 100644
--- a/crates/sip-uac/src/integrated.rs
+++ b/crates/sip-uac/src/integrated.rs
@@ -1712,6 +1712,7 @@ impl IntegratedUAC {
             transaction_manager: self.transaction_manager.clone(),
             dispatcher: self.transport_dispatcher.clone(),
             early_dialogs: early_dialogs.clone(),
+            outcome: Default::default(),
             dialog: shared_dialog.clone(),
             local_addr: self.local_addr,
             public_addr: self.public_addr,
@@ -1825,6 +1826,7 @@ impl IntegratedUAC {
             transaction_manager: self.transaction_manager.clone(),
             dispatcher: self.transport_dispatcher.clone(),
             early_dialogs: early_dialogs.clone(),
+            outcome: Default::default(),
             dialog: shared_dialog.clone(),
             local_addr: self.local_addr,
             public_addr: self.public_addr,
@@ -1963,6 +1965,7 @@ impl IntegratedUAC {
             transaction_manager: self.transaction_manager.clone(),
             dispatcher: self.transport_dispatcher.clone(),
             early_dialogs: early_dialogs.clone(),
+            outcome: Default::default(),
             dialog: shared_dialog.clone(),
             local_addr: self.local_addr,
             public_addr: self.public_addr,
@@ -2087,6 +2090,7 @@ impl IntegratedUAC {
             transaction_manager: self.transaction_manager.clone(),
             dispatcher: self.transport_dispatcher.clone(),
             early_dialogs: early_dialogs.clone(),
+            outcome: Default::default(),
             dialog: shared_dialog.clone(),
             local_addr: self.local_addr,
             public_addr: self.public_addr,
@@ -2854,6 +2858,7 @@ impl IntegratedUAC {
             transaction_manager: self.transaction_manager.clone(),
             dispatcher: self.transport_dispatcher.clone(),
             early_dialogs: early_dialogs.clone(),
+            outcome: Default::default(),
             dialog: shared_dialog.clone(),
             local_addr: self.local_addr,
             public_addr: self.public_addr,
@@ -2937,6 +2942,7 @@ impl IntegratedUAC {
             transaction_manager: self.transaction_manager.clone(),
             dispatcher: self.transport_dispatcher.clone(),
             early_dialogs: early_dialogs.clone(),
+            outcome: Default::default(),
             dialog: shared_dialog.clone(),
             local_addr: self.local_addr,
             public_addr: self.public_addr,
@@ -3290,6 +3296,25 @@ impl CallHandle {
     }
 }
 
+/// The remote tag of a response, where it has one.
+fn to_tag(response: &Response) -> Option<SmolStr> {
+    response
+        .headers()
+        .get_smol("To")
+        .and_then(sip_dialog::extract_tag)
+}
+
+/// What an INVITE attempt has come to.
+#[derive(Default)]
+struct InviteOutcome {
+    /// A final response (or a failure) has ended the attempt, so a provisional
+    /// response that is handled late no longer creates an early dialog.
+    ended: bool,
+    /// The dialogs its 2xx responses confirmed, by remote tag: a 2xx that is
+    /// repeated is acknowledged again, but does not set its dialog up again.
+    confirmed: std::collections::HashMap<SmolStr, Dialog>,
+}
+
 /// Transaction user for INVITE requests - handles ACK, PRACK, dialog creation, forking.
 struct InviteTransactionUser {
     prov_tx: mpsc::Sender<Response>,
@@ -3312,6 +3337,8 @@ struct InviteTransactionUser {
     dispatcher: Arc<dyn TransportDispatcher>,
     /// Track early dialogs for forking support (shared with CallHandle)
     early_dialogs: Arc<Mutex<std::collections::HashMap<SmolStr, Dialog>>>,
+    /// How this attempt has ended so far
+    outcome: Mutex<InviteOutcome>,
     /// Dialog reference (shared with CallHandle) - updated when 200 OK arrives
     dialog: Arc<RwLock<Dialog>>,
     local_addr: SocketAddr,
@@ -3319,6 +3346,83 @@ struct InviteTransactionUser {
 }
 
 impl InviteTransactionUser {
+    /// The dialog a 2xx confirms, and whether this is the first time it is seen.
+    async fn confirm_dialog(&self, response: &Response) -> Option<(Dialog, bool)> {
+        let helper = self.helper.lock().await;
+        let mut outcome = self.outcome.lock().await;
+        outcome.ended = true;
+        let remote_tag = to_tag(response)?;
+        if let Some(dialog) = outcome.confirmed.get(&remote_tag) {
+            return Some((dialog.clone(), false));
+        }
+        let dialog = helper.process_invite_response(&self.request, response)?;
+        outcome.confirmed.insert(remote_tag, dialog.clone());
+        drop(outcome);
+        drop(helper);
+        self.forget_early_dialogs().await;
+        Some((dialog, true))
+    }
+
+    /// Enters the early dialog a provisional response creates or updates.
+    async fn note_early_dialog(&self, response: &Response) -> Option<Dialog> {
+        let remote_tag = to_tag(response)?;
+        let helper = self.helper.lock().await;
+        let outcome = self.outcome.lock().await;
+        if outcome.ended {
+            return None;
+        }
+
+        // Track early dialog for forking support
+        let mut early_dialogs = self.early_dialogs.lock().await;
+        let known = early_dialogs.contains_key(&remote_tag);
+        if !known && early_dialogs.len() >= crate::MAX_EARLY_DIALOGS {
+            warn!(
+                "Max early dialogs limit reached ({}), ignoring new early dialog: to-tag={}",
+                crate::MAX_EARLY_DIALOGS,
+                remote_tag
+            );
+            return None;
+        }
+        let dialog = helper.process_invite_response(&self.request, response)?;
+        if known {
+            debug!(
+                "Updated existing early dialog from {}: to-tag={}",
+                response.code(),
+                remote_tag
+            );
+        } else {
+            debug!(
+                "Created new early dialog from {}: to-tag={} (forking detected: {} endpoints)",
+                response.code(),
+                remote_tag,
+                early_dialogs.len() + 1
+            );
+        }
+        early_dialogs.insert(remote_tag, dialog.clone());
+        Some(dialog)
+    }
+
+    /// Marks the attempt as failed: none of its early dialogs outlives it
+    /// (RFC 3261 §12.3).
+    async fn end_without_dialog(&self) {
+        self.outcome.lock().await.ended = true;
+        self.forget_early_dialogs().await;
+    }
+
+    /// Takes the dialogs that are still early out of the dialog manager. A
+    /// branch that answers 2xx later is entered again by its response.
+    async fn forget_early_dialogs(&self) {
+        for early in self.early_dialogs.lock().await.values() {
+            let still_early = self
+                .dialog_manager
+                .get(early.id())
+                .is_some_and(|d| d.state() == DialogStateType::Early);
+            if still_early {
+                self.dialog_manager.remove(early.id());
+            }
+        }
+    }
+
     /// Starts an authenticated re-INVITE after a 401/407 challenge
     /// (issue #83).
     ///
@@ -3360,6 +3464,7 @@ impl InviteTransactionUser {
             transaction_manager: self.transaction_manager.clone(),
             dispatcher: self.dispatcher.clone(),
             early_dialogs: self.early_dialogs.clone(),
+            outcome: Default::default(),
             dialog: self.dialog.clone(),
             local_addr: self.local_addr,
             public_addr: self.public_addr,
@@ -3399,40 +3504,7 @@ impl ClientTransactionUser for InviteTransactionUser {
         // Create or update dialog from provisional (if it has To-tag)
         // RFC 3261 §13.2.2.1: Provisional responses with To-tags create early dialogs
         if response.code() > 100 {
-            let helper = self.helper.lock().await;
-            if let Some(dialog) = helper.process_invite_response(&self.request, response) {
-                let to_tag = SmolStr::new(dialog.id().remote_tag());
-
-                // Track early dialog for forking support
-                let mut early_dialogs = self.early_dialogs.lock().await;
-
-                if early_dialogs.contains_key(&to_tag) {
-                    // Update existing early dialog (no bounds check needed)
-                    debug!(
-                        "Updated existing early dialog from {}: to-tag={}",
-                        response.code(),
-                        to_tag
-                    );
-                    early_dialogs.insert(to_tag, dialog);
-                } else {
-                    // New early dialog - enforce forking limit
-                    if early_dialogs.len() >= crate::MAX_EARLY_DIALOGS {
-                        warn!(
-                            "Max early dialogs limit reached ({}), ignoring new early dialog: to-tag={}",
-                            crate::MAX_EARLY_DIALOGS,
-                            to_tag
-                        );
-                    } else {
-                        debug!(
-                            "Created new early dialog from {}: to-tag={} (forking detected: {} endpoints)",
-                            response.code(),
-                            to_tag,
-                            early_dialogs.len() + 1
-                        );
-                        early_dialogs.insert(to_tag, dialog);
-                    }
-                }
-            }
+            self.note_early_dialog(response).await;
         }
 
         // Forward to application. The transaction waits for this call, so an
@@ -3449,6 +3521,10 @@ impl ClientTransactionUser for InviteTransactionUser {
     async fn on_final(&self, _key: &TransactionKey, response: &Response) {
         debug!(code = response.code(), "received final response");
 
+        if response.code() >= 300 {
+            self.end_without_dialog().await;
+        }
+
         // 401/407: start an authenticated retry instead of surfacing the
         // challenge (the transaction layer has already ACK'd this final).
         // Mirrors the non-INVITE retry semantics: bounded by
@@ -3475,9 +3551,7 @@ impl ClientTransactionUser for InviteTransactionUser {
 
         // Create or confirm dialog from 2xx and update CallHandle's dialog
         if response.code() >= 200 && response.code() < 300 {
-            let helper = self.helper.lock().await;
-            if let Some(confirmed_dialog) = helper.process_invite_response(&self.request, response)
-            {
+            if let Some((confirmed_dialog, true)) = self.confirm_dialog(response).await {
                 info!(
                     "Confirmed dialog from {}: {} (to-tag={})",
                     response.code(),
@@ -3500,6 +3574,8 @@ impl ClientTransactionUser for InviteTransactionUser {
     async fn on_terminated(&self, _key: &TransactionKey, reason: &str) {
         warn!("INVITE transaction terminated: {}", reason);
 
+        self.end_without_dialog().await;
+
         let mut tx = self.term_tx.lock().await;
         if let Some(tx) = tx.take() {
             let _ = tx.send(reason.to_string());
@@ -3521,12 +3597,12 @@ impl ClientTransactionUser for InviteTransactionUser {
 
         let original_via = self.request.headers().get("Via").map(|via| via.to_string());
 
-        let helper = self.helper.lock().await;
         let dialog = if is_2xx {
-            helper.process_invite_response(&self.request, &response)
+            self.confirm_dialog(&response).await.map(|(d, _)| d)
         } else {
             None
         };
+        let helper = self.helper.lock().await;
 
         if is_2xx && dialog.is_none() {
             error!("Failed to create dialog for 2xx ACK");
@@ -3688,8 +3764,8 @@ impl ClientTransactionUser for InviteTransactionUser {
         info!("Sending PRACK for reliable provisional {}", response.code());
 
         // Find dialog for this response
+        let dialog = self.note_early_dialog(&response).await;
         let helper = self.helper.lock().await;
-        let dialog = helper.process_invite_response(&self.request, &response);
 
         if let Some(dialog) = dialog {
             // Create PRACK
@@ -3725,6 +3801,8 @@ impl ClientTransactionUser for InviteTransactionUser {
     async fn on_transport_error(&self, _key: &TransactionKey) {
         error!("Transport error for INVITE transaction");
 
+        self.end_without_dialog().await;
+
         let mut tx = self.term_tx.lock().await;
         if let Some(tx) = tx.take() {
             let _ = tx.send("transport error".to_string());
-- 
2.43.0


From 9b4b6f09a419cbbc8770da55c6a7177ab0683376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:09 +0000
Subject: [PATCH 56/63] fix: sip-uac: an answer that comes after the peer's BYE
 does not bring the dialog back

---
 crates/sip-uac/src/integrated.rs | 8 ++++++--
 crates/sip-uac/src/lib.rs        | 9 ++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/sip-uac/src/integrated.rs b/crates/sip-uac/src/integrated.rs
index 26286a7..6f84e64 100644
--- a/crates/sip-uac/src/integrated.rs
+++ b/crates/sip-uac/src/integrated.rs
@@ -553,13 +553,17 @@ fn apply_in_dialog_response(
 ) -> Result<()> {
     if (200..300).contains(&response.code()) {
         dialog.update_from_response(response);
-        let _ = dialog_manager.insert(dialog.clone());
+        // A BYE from the peer may have ended the dialog while the request was
+        // on its way; its answer does not bring the dialog back.
+        if dialog_manager.get(dialog.id()).is_some() {
+            let _ = dialog_manager.insert(dialog.clone());
+        }
         return Ok(());
     }
 
     if matches!(response.code(), 408 | 481) {
         dialog.terminate();
-        let _ = dialog_manager.insert(dialog.clone());
+        dialog_manager.remove(dialog.id());
         return Err(anyhow!(
             "Received {} for in-dialog {}",
             response.code(),
diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index bdda6d6..625da9b 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -2323,7 +2323,14 @@ impl UserAgentClient {
             return Some(existing);
         }
 
-        let _ = self.dialog_manager.insert(dialog.clone());
+        // A response to a request sent inside a dialog does not bring back a
+        // dialog that has ended meanwhile.
+        let in_dialog = header(request.headers(), "To")
+            .and_then(sip_dialog::extract_tag)
+            .is_some();
+        if !in_dialog {
+            let _ = self.dialog_manager.insert(dialog.clone());
+        }
 
         Some(dialog)
     }
-- 
2.43.0


From ae7fc1c69f30b6772da70f35ff0a3ed1f60099ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:39 +0000
Subject: [PATCH 57/63] fix: sip-uac: an authenticated retry carries one set of
 credentials per realm

---
 crates/sip-uac/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index 625da9b..26509d1 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -968,6 +968,13 @@ impl UserAgentClient {
                 new_headers
                     .push(header.name_smol().clone(), header.value_smol().clone())
                     .unwrap();
+            } else if header.name().eq_ignore_ascii_case(response_header_name)
+                && parse_www_authenticate(header.value_smol())
+                    .is_ok_and(|params| params.get("realm") == Some(realm))
+            {
+                // The challenge asks for new credentials for this realm; the
+                // ones it refused are not sent again (RFC 3261 §22.2).
+                continue;
             } else {
                 new_headers
                     .push(header.name_smol().clone(), header.value_smol().clone())
-- 
2.43.0


From 860ae3624e7736686fec99c4ef59818bda6a9aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 58/63] fix: sip-uac: authenticated retries and PRACKs count in
 the CSeq sequence

---
 crates/sip-dialog/src/lib.rs     |  8 ++++++++
 crates/sip-uac/src/integrated.rs | 25 +++++++++++++++++++++++++
 crates/sip-uac/src/lib.rs        | 29 +++++++++++++++++++++++++++++
 3 files changed, 62 insertions(+)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 6c20885..e2fb633 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -580,6 +580,14 @@ impl Dialog {
         self.local_cseq
     }
 
+    /// Notes that a request with this CSeq number has been sent in the dialog,
+    /// so that the next one takes a higher number (RFC 3261 §12.2.1.1).
+    pub fn advance_local_cseq(&mut self, used: u32) {
+        if validate_cseq(used).is_ok() {
+            self.local_cseq = self.local_cseq.max(used);
+        }
+    }
+
     /// Updates dialog state from a received response (target refresh).
     ///
     /// # RFC 5057 Target Refresh
diff --git a/crates/sip-uac/src/integrated.rs b/crates/sip-uac/src/integrated.rs
index 6f84e64..1b8ca10 100644
--- a/crates/sip-uac/src/integrated.rs
+++ b/crates/sip-uac/src/integrated.rs
@@ -546,11 +546,22 @@ fn apply_route_set_to_request(dialog: &Dialog, request: &mut Request) {
     }
 }
 
+/// How far the CSeq number of an answer may be ahead of the dialog's own.
+const MAX_CSEQ_ADVANCE: u32 = 64;
+
 fn apply_in_dialog_response(
     dialog_manager: &DialogManager,
     dialog: &mut Dialog,
     response: &Response,
 ) -> Result<()> {
+    // The answer may be to an authenticated retry: every attempt took one CSeq
+    // number more than the dialog reserved.
+    if let Some(used) = crate::cseq_number(response.headers()) {
+        if used.wrapping_sub(dialog.local_cseq()) <= MAX_CSEQ_ADVANCE {
+            dialog.advance_local_cseq(used);
+        }
+    }
+
     if (200..300).contains(&response.code()) {
         dialog.update_from_response(response);
         // A BYE from the peer may have ended the dialog while the request was
@@ -3406,6 +3417,19 @@ impl InviteTransactionUser {
         Some(dialog)
     }
 
+    /// Enters in the early dialog the CSeq number its PRACK took, so that the
+    /// next request in it takes a higher one.
+    async fn note_prack_cseq(&self, mut dialog: Dialog, prack: &Request) {
+        let Some(used) = crate::cseq_number(prack.headers()) else {
+            return;
+        };
+        dialog.advance_local_cseq(used);
+        let outcome = self.outcome.lock().await;
+        if !outcome.ended && self.dialog_manager.get(dialog.id()).is_some() {
+            let _ = self.dialog_manager.insert(dialog);
+        }
+    }
+
     /// Marks the attempt as failed: none of its early dialogs outlives it
     /// (RFC 3261 §12.3).
     async fn end_without_dialog(&self) {
@@ -3776,6 +3800,7 @@ impl ClientTransactionUser for InviteTransactionUser {
             match helper.create_prack(&self.request, &response, &dialog) {
                 Ok(prack) => {
                     drop(helper);
+                    self.note_prack_cseq(dialog, &prack).await;
 
                     // PRACK is a non-INVITE client transaction (RFC 3262)
                     let tu = Arc::new(PrackTransactionUser);
diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index 26509d1..d8f7501 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -993,6 +993,12 @@ impl UserAgentClient {
             original_request.body().clone(),
         )?;
 
+        if new_request.method() == &Method::Register {
+            if let Some(used) = cseq_number(new_request.headers()) {
+                self.note_register_cseq(original_request.uri().as_str(), used);
+            }
+        }
+
         Ok(new_request)
     }
 
@@ -2326,6 +2332,9 @@ impl UserAgentClient {
         // Store in dialog manager or update existing dialog
         if let Some(mut existing) = self.dialog_manager.get(dialog.id()) {
             existing.update_from_response(response);
+            // The request may be an authenticated retry, whose CSeq is higher
+            // than the one the dialog reserved.
+            existing.advance_local_cseq(dialog.local_cseq());
             let _ = self.dialog_manager.insert(existing.clone());
             return Some(existing);
         }
@@ -3228,6 +3237,18 @@ impl UserAgentClient {
         tag
     }
 
+    /// Notes a CSeq number an authenticated REGISTER has taken, so that the
+    /// next REGISTER to this registrar takes a higher one.
+    fn note_register_cseq(&self, registrar_uri: &str, used: u32) {
+        let mut map = self
+            .register_cseqs
+            .lock()
+            .expect("register_cseqs lock poisoned");
+        if let Some(current) = map.get_mut(registrar_uri) {
+            *current = (*current).max(used);
+        }
+    }
+
     /// Returns the next CSeq to use on a REGISTER for this registrar. Starts
     /// at 1 for the first request, increments monotonically on each
     /// subsequent call. Paired with `register_call_id` so refresh and
@@ -3410,6 +3431,14 @@ fn deterministic_counter() -> Option<u64> {
 
     seed.map(|base| base.wrapping_add(COUNTER.fetch_add(1, Ordering::Relaxed)))
 }
+pub(crate) fn cseq_number(headers: &Headers) -> Option<u32> {
+    header(headers, "CSeq")?
+        .split_whitespace()
+        .next()?
+        .parse()
+        .ok()
+}
+
 fn parse_www_authenticate(value: &SmolStr) -> Result<std::collections::HashMap<String, String>> {
     use std::collections::HashMap;
 
-- 
2.43.0


From 4fdb6e6def0b1d6feb024419a4ddb7252c3f5f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:21 +0000
Subject: [PATCH 59/63] fix: sip-transaction: a 2xx that is repeated reaches
 the transaction user until its sender gives up

---
 crates/sip-transaction/src/fsm.rs     | 15 +++++++++
 crates/sip-transaction/src/manager.rs | 45 ++++++++++++++++++++++-----
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index a57421a..04afff5 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -473,6 +473,17 @@ impl ClientInviteFsm {
     pub fn state(&self) -> crate::ClientInviteState {
         self.state
     }
+
+    /// Whether the transaction has ended but still passes 2xx responses on.
+    pub(crate) fn awaits_repeated_2xx(&self) -> bool {
+        self.accepted
+    }
+
+    /// How long it does: the peer repeats its 2xx for 64*T1 unless an ACK
+    /// arrives, on any transport (RFC 3261 §13.3.1.4, RFC 6026 §7.2).
+    pub(crate) fn repeated_2xx_wait(&self) -> Duration {
+        self.timers.duration(TransactionTimer::B)
+    }
 }
 
 impl ClientInviteFsm {
@@ -514,6 +525,10 @@ impl ClientInviteFsm {
             (Completed, ClientInviteEvent::TimerFired(TransactionTimer::D)) => {
                 self.handle_timer_d()
             }
+            (Terminated, ClientInviteEvent::TimerFired(TransactionTimer::D)) => {
+                self.accepted = false;
+                Vec::new()
+            }
             (Calling | Proceeding, ClientInviteEvent::TransportError) => {
                 self.handle_transport_error()
             }
diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 6d91501..62e2016 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -393,6 +393,10 @@ impl ServerEntry {
 }
 
 impl ClientEntry {
+    fn accepted(&self) -> bool {
+        matches!(&self.kind, ClientKind::Invite(fsm) if fsm.awaits_repeated_2xx())
+    }
+
     fn awaits_final(&self) -> bool {
         match &self.kind {
             ClientKind::Invite(fsm) => matches!(
@@ -724,13 +728,17 @@ impl TransactionManager {
                     "Client transaction limit reached, evicting oldest transaction"
                 );
                 if let Some(entry) = self.end_client(&oldest_key, TransactionOutcome::Cancelled) {
-                    // Notify TU that transaction was terminated due to resource limits
-                    let tu = entry.tu.clone();
-                    let key_clone = oldest_key.clone();
-                    tokio::spawn(async move {
-                        tu.on_terminated(&key_clone, "resource limit exceeded")
-                            .await;
-                    });
+                    // Notify TU that transaction was terminated due to resource
+                    // limits, unless it has been accepted: then it is only the
+                    // wait for repeated responses that is cut short.
+                    if !entry.accepted() {
+                        let tu = entry.tu.clone();
+                        let key_clone = oldest_key.clone();
+                        tokio::spawn(async move {
+                            tu.on_terminated(&key_clone, "resource limit exceeded")
+                                .await;
+                        });
+                    }
                 }
                 return true;
             }
@@ -1305,6 +1313,9 @@ impl TransactionManager {
     /// `max_client_transactions` eviction reclaimed it — a registrar refresh
     /// alone filled the default 10_000 cap in about three and a half days.
     ///
+    /// An INVITE that was accepted stays until the peer can no longer repeat
+    /// its 2xx: each repetition is for the transaction user to acknowledge.
+    ///
     /// Keying the reap off the FSM state rather than the action keeps the
     /// transaction-user contract unchanged: no extra `on_terminated` call, and
     /// so no log line, for an ordinary completion.
@@ -1314,7 +1325,10 @@ impl TransactionManager {
                 return;
             };
             match &entry.kind {
-                ClientKind::Invite(fsm) => fsm.state() == crate::ClientInviteState::Terminated,
+                ClientKind::Invite(fsm) => {
+                    fsm.state() == crate::ClientInviteState::Terminated
+                        && !fsm.awaits_repeated_2xx()
+                }
                 ClientKind::NonInvite(fsm) => {
                     fsm.state() == crate::ClientNonInviteState::Terminated
                 }
@@ -1377,6 +1391,9 @@ impl TransactionManager {
                     tu.send_prack(key, response, &ctx).await;
                 }
                 ClientInviteAction::GenerateAck { response, is_2xx } => {
+                    if is_2xx {
+                        self.await_repeated_2xx(key);
+                    }
                     tu.send_ack(key, response, &ctx, is_2xx).await;
                 }
                 ClientInviteAction::Schedule { timer, duration } => {
@@ -1395,6 +1412,18 @@ impl TransactionManager {
         }
     }
 
+    /// Bounds the time an accepted INVITE stays in the table.
+    fn await_repeated_2xx(&self, key: &TransactionKey) {
+        let wait = match self.inner.client.get(key) {
+            Some(entry) if !entry.timers.contains_key(&TransactionTimer::D) => match &entry.kind {
+                ClientKind::Invite(fsm) => fsm.repeated_2xx_wait(),
+                ClientKind::NonInvite(_) => return,
+            },
+            _ => return,
+        };
+        self.schedule_client_timer(key.clone(), TransactionTimer::D, wait);
+    }
+
     async fn apply_client_non_invite_actions(
         &self,
         key: &TransactionKey,
-- 
2.43.0


From ea08cfce3d683edd61b77df58ddecaea7c2a1aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:17 +0000
Subject: [PATCH 60/63] fix: sip-uac: a request sent from a stale copy does not
 bring an ended dialog back

---
 crates/sip-uac/src/integrated.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/sip-uac/src/integrated.rs b/crates/sip-uac/src/integrated.rs
index 1b8ca10..6225e07 100644
--- a/crates/sip-uac/src/integrated.rs
+++ b/crates/sip-uac/src/integrated.rs
@@ -549,6 +549,14 @@ fn apply_route_set_to_request(dialog: &Dialog, request: &mut Request) {
 /// How far the CSeq number of an answer may be ahead of the dialog's own.
 const MAX_CSEQ_ADVANCE: u32 = 64;
 
+/// Stores what a request or its answer changed in `dialog`, unless the dialog
+/// has ended meanwhile: a stale copy does not bring it back.
+fn store_if_live(dialog_manager: &DialogManager, dialog: &Dialog) {
+    if dialog_manager.get(dialog.id()).is_some() {
+        let _ = dialog_manager.insert(dialog.clone());
+    }
+}
+
 fn apply_in_dialog_response(
     dialog_manager: &DialogManager,
     dialog: &mut Dialog,
@@ -566,9 +574,7 @@ fn apply_in_dialog_response(
         dialog.update_from_response(response);
         // A BYE from the peer may have ended the dialog while the request was
         // on its way; its answer does not bring the dialog back.
-        if dialog_manager.get(dialog.id()).is_some() {
-            let _ = dialog_manager.insert(dialog.clone());
-        }
+        store_if_live(dialog_manager, dialog);
         return Ok(());
     }
 
@@ -2490,7 +2496,7 @@ impl IntegratedUAC {
         drop(helper);
 
         let target_uri = prepare_in_dialog_request(dialog, &mut request);
-        let _ = self.dialog_manager.insert(dialog.clone());
+        store_if_live(&self.dialog_manager, dialog);
         let dns_target = self.resolve_target(&RequestTarget::Uri(target_uri)).await?;
 
         // Auto-fill Via/Contact using resolved transport
@@ -2627,7 +2633,7 @@ impl IntegratedUAC {
         mut request: Request,
     ) -> Result<Response> {
         let target_uri = prepare_in_dialog_request(dialog, &mut request);
-        let _ = self.dialog_manager.insert(dialog.clone());
+        store_if_live(&self.dialog_manager, dialog);
         let dns_target = self.resolve_target(&RequestTarget::Uri(target_uri)).await?;
 
         self.auto_fill_headers(&mut request, Some(dns_target.transport()))
@@ -2645,7 +2651,7 @@ impl IntegratedUAC {
         mut request: Request,
     ) -> Result<Response> {
         let target_uri = prepare_in_dialog_request(dialog, &mut request);
-        let _ = self.dialog_manager.insert(dialog.clone());
+        store_if_live(&self.dialog_manager, dialog);
         let dns_target = self.resolve_target(&RequestTarget::Uri(target_uri)).await?;
 
         self.auto_fill_headers(&mut request, Some(dns_target.transport()))
@@ -2715,7 +2721,7 @@ impl IntegratedUAC {
 
         // Same in-dialog preparation as send_in_dialog_invite.
         let target_uri = prepare_in_dialog_request(dialog, &mut request);
-        let _ = self.dialog_manager.insert(dialog.clone());
+        store_if_live(&self.dialog_manager, dialog);
 
         // Resolved only for the Via transport token; routing follows the flow.
         let dns_target = self.resolve_target(&RequestTarget::Uri(target_uri)).await?;
@@ -2813,7 +2819,7 @@ impl IntegratedUAC {
 
         // Same in-dialog preparation as send_in_dialog_non_invite
         let target_uri = prepare_in_dialog_request(dialog, &mut request);
-        let _ = self.dialog_manager.insert(dialog.clone());
+        store_if_live(&self.dialog_manager, dialog);
 
         // Resolved only for the Via transport token; routing follows the flow
         let dns_target = self.resolve_target(&RequestTarget::Uri(target_uri)).await?;
-- 
2.43.0


From 38ee63b8af6aa9d28fd4874c97783450c13c7a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:34 +0000
Subject: [PATCH 61/63] fix: sip-uas: a CANCEL does not undo a 2xx whose INVITE
 is repeated

---
 crates/sip-uas/src/integrated.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/sip-uas/src/integrated.rs b/crates/sip-uas/src/integrated.rs
index bd091b5..33d7a5a 100644
--- a/crates/sip-uas/src/integrated.rs
+++ b/crates/sip-uas/src/integrated.rs
@@ -507,12 +507,21 @@ impl IntegratedUAS {
                 self.request_handler.on_cancel(request, handle, ctx).await?;
                 if let Some(cancel_key) = TransactionKey::from_request(request, true) {
                     let invite_key = TransactionKey::new(cancel_key.branch(), Method::Invite, true);
-                    let mut response =
-                        UserAgentServer::create_request_terminated_from_cancel(request);
-                    self.auto_fill_headers(&mut response, ctx).await;
-                    self.transaction_manager
-                        .send_final(&invite_key, response)
-                        .await;
+                    // A CANCEL has no effect on an INVITE that has been
+                    // answered (RFC 3261 §9.2), also when a retransmission of
+                    // it is being looked at.
+                    let answered = {
+                        let accepted = self.accepted.lock().unwrap();
+                        accepted.responses.contains_key(&invite_key)
+                    };
+                    if !answered {
+                        let mut response =
+                            UserAgentServer::create_request_terminated_from_cancel(request);
+                        self.auto_fill_headers(&mut response, ctx).await;
+                        self.transaction_manager
+                            .send_final(&invite_key, response)
+                            .await;
+                    }
                 }
             }
             "REGISTER" => {
-- 
2.43.0


From 063e18116729c8ee4e45071bc4677aff13b32a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:57 +0000
Subject: [PATCH 62/63] fix: sip-uac, sip-uas: a dialog removed while its copy
 is being updated stays removed

---
 crates/sip-dialog/src/lib.rs     | 14 +++++++++++++
 crates/sip-uac/src/integrated.rs | 34 +++++++++++++++++---------------
 crates/sip-uas/src/integrated.rs |  2 +-
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index e2fb633..a8857cf 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -782,6 +782,20 @@ impl DialogManager {
         Ok(())
     }
 
+    /// Stores `dialog` in place of the entry that has its ID.
+    ///
+    /// Returns `false`, and stores nothing, when there is no such entry: a
+    /// dialog that has been removed meanwhile stays removed.
+    pub fn update(&self, dialog: Dialog) -> bool {
+        match self.dialogs.get_mut(&dialog.id) {
+            Some(mut entry) => {
+                *entry = dialog;
+                true
+            }
+            None => false,
+        }
+    }
+
     /// Retrieves a dialog by ID.
     pub fn get(&self, id: &DialogId) -> Option<Dialog> {
         self.dialogs.get(id).map(|entry| entry.clone())
diff --git a/crates/sip-uac/src/integrated.rs b/crates/sip-uac/src/integrated.rs
index 6225e07..c7f1b83 100644
--- a/crates/sip-uac/src/integrated.rs
+++ b/crates/sip-uac/src/integrated.rs
@@ -549,14 +549,6 @@ fn apply_route_set_to_request(dialog: &Dialog, request: &mut Request) {
 /// How far the CSeq number of an answer may be ahead of the dialog's own.
 const MAX_CSEQ_ADVANCE: u32 = 64;
 
-/// Stores what a request or its answer changed in `dialog`, unless the dialog
-/// has ended meanwhile: a stale copy does not bring it back.
-fn store_if_live(dialog_manager: &DialogManager, dialog: &Dialog) {
-    if dialog_manager.get(dialog.id()).is_some() {
-        let _ = dialog_manager.insert(dialog.clone());
-    }
-}
-
 fn apply_in_dialog_response(
     dialog_manager: &DialogManager,
     dialog: &mut Dialog,
@@ -574,7 +566,7 @@ fn apply_in_dialog_response(
         dialog.update_from_response(response);
         // A BYE from the peer may have ended the dialog while the request was
         // on its way; its answer does not bring the dialog back.
-        store_if_live(dialog_manager, dialog);
+        dialog_manager.update(dialog.clone());
         return Ok(());
     }
 
@@ -2496,7 +2488,9 @@ impl IntegratedUAC {
         drop(helper);
 
         let target_uri = prepare_in_dialog_request(dialog, &mut request);
-        store_if_live(&self.dialog_manager, dialog);
+        // Not if the dialog has ended meanwhile: a stale copy does not bring
+        // it back.
+        self.dialog_manager.update(dialog.clone());
         let dns_target = self.resolve_target(&RequestTarget::Uri(target_uri)).await?;
 
         // Auto-fill Via/Contact using resolved transport
@@ -2633,7 +2627,9 @@ impl IntegratedUAC {
         mut request: Request,
     ) -> Result<Response> {
         let target_uri = prepare_in_dialog_request(dialog, &mut request);
-        store_if_live(&self.dialog_manager, dialog);
+        // Not if the dialog has ended meanwhile: a stale copy does not bring
+        // it back.
+        self.dialog_manager.update(dialog.clone());
         let dns_target = self.resolve_target(&RequestTarget::Uri(target_uri)).await?;
 
         self.auto_fill_headers(&mut request, Some(dns_target.transport()))
@@ -2651,7 +2647,9 @@ impl IntegratedUAC {
         mut request: Request,
     ) -> Result<Response> {
         let target_uri = prepare_in_dialog_request(dialog, &mut request);
-        store_if_live(&self.dialog_manager, dialog);
+        // Not if the dialog has ended meanwhile: a stale copy does not bring
+        // it back.
+        self.dialog_manager.update(dialog.clone());
         let dns_target = self.resolve_target(&RequestTarget::Uri(target_uri)).await?;
 
         self.auto_fill_headers(&mut request, Some(dns_target.transport()))
@@ -2721,7 +2719,9 @@ impl IntegratedUAC {
 
         // Same in-dialog preparation as send_in_dialog_invite.
         let target_uri = prepare_in_dialog_request(dialog, &mut request);
-        store_if_live(&self.dialog_manager, dialog);
+        // Not if the dialog has ended meanwhile: a stale copy does not bring
+        // it back.
+        self.dialog_manager.update(dialog.clone());
 
         // Resolved only for the Via transport token; routing follows the flow.
         let dns_target = self.resolve_target(&RequestTarget::Uri(target_uri)).await?;
@@ -2819,7 +2819,9 @@ impl IntegratedUAC {
 
         // Same in-dialog preparation as send_in_dialog_non_invite
         let target_uri = prepare_in_dialog_request(dialog, &mut request);
-        store_if_live(&self.dialog_manager, dialog);
+        // Not if the dialog has ended meanwhile: a stale copy does not bring
+        // it back.
+        self.dialog_manager.update(dialog.clone());
 
         // Resolved only for the Via transport token; routing follows the flow
         let dns_target = self.resolve_target(&RequestTarget::Uri(target_uri)).await?;
@@ -3431,8 +3433,8 @@ impl InviteTransactionUser {
         };
         dialog.advance_local_cseq(used);
         let outcome = self.outcome.lock().await;
-        if !outcome.ended && self.dialog_manager.get(dialog.id()).is_some() {
-            let _ = self.dialog_manager.insert(dialog);
+        if !outcome.ended {
+            self.dialog_manager.update(dialog);
         }
     }
 
diff --git a/crates/sip-uas/src/integrated.rs b/crates/sip-uas/src/integrated.rs
index 33d7a5a..5dd0f31 100644
--- a/crates/sip-uas/src/integrated.rs
+++ b/crates/sip-uas/src/integrated.rs
@@ -719,7 +719,7 @@ impl IntegratedUAS {
         }
         match known {
             Some(known) => {
-                let _ = self.dialog_manager.insert(known);
+                self.dialog_manager.update(known);
             }
             None => {
                 self.dialog_manager.remove(dialog.id());
-- 
2.43.0


From 62804265ae7f0f6f35058052c866043339f502ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 63/63] fix: sip-registrar: the contacts listed in a 200 are
 enclosed in angle brackets

---
 crates/sip-registrar/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index e66c3c6..4b58c16 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -2419,11 +2419,13 @@ pub fn contact_headers(headers: &Headers) -> Vec<SmolStr> {
 }
 
 fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> SmolStr {
+    // RFC 3261 §20.10: without the angle brackets, the parameters of the URI
+    // would be read as parameters of the Contact.
     if expires.as_secs() == 0 {
-        SmolStr::new(format!("{};expires=0", contact_uri))
+        SmolStr::new(format!("<{}>;expires=0", contact_uri))
     } else {
         SmolStr::new(format!(
-            "{};expires={};q={}",
+            "<{}>;expires={};q={}",
             contact_uri,
             expires.as_secs(),
             q_value
-- 
2.43.0

