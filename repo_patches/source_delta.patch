From bb54d9d25e6646ffbd867426f208fda01ad94311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:22 +0000
Subject: [PATCH 01/26] fix: parse the host key of a key exchange reply

KeyBlob::parse already checks that nothing is left over; Key::parse checked the
slice from before the blob, so no reply was ever accepted.
---
 nora_ssh_core/src/message/key_exchange/ecdh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh_core/src/message/key_exchange/ecdh.rs b/nora_ssh_core/src/message/key_exchange/ecdh.rs
index 3db86c9..fd95e53 100644
--- a/nora_ssh_core/src/message/key_exchange/ecdh.rs
+++ b/nora_ssh_core/src/message/key_exchange/ecdh.rs
@@ -79,7 +79,7 @@ impl<'a> Key<'a> {
 	fn parse(data: &'a [u8]) -> Option<Self> {
 		let (name, data) = parse_string(data)?;
 		let blob = KeyBlob::parse(data)?;
-		data.is_empty().then(|| Self { name, blob })
+		Some(Self { name, blob })
 	}
 
 	fn serialize<'i>(&self, buf: &'i mut [u8]) -> Option<(usize, &'i mut [u8])> {
-- 
2.43.0


From 773bfe61e749f2cdb34a24c527dcc93a98aef7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:22 +0000
Subject: [PATCH 02/26] fix: refuse unencrypted packets that do not fit behind
 the length field

The four bytes of the length field were not accounted for, so a packet of almost
the size of the buffer panicked.
---
 nora_ssh/src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/packet.rs b/nora_ssh/src/packet.rs
index 439b092..34d42aa 100644
--- a/nora_ssh/src/packet.rs
+++ b/nora_ssh/src/packet.rs
@@ -13,7 +13,7 @@ pub async fn parse<'a, Io: AsyncReadExt + Unpin>(
 	let len = u32::from_be_bytes(buf[..4].try_into().unwrap())
 		.try_into()
 		.unwrap();
-	if len > buf.len() {
+	if len > buf.len() - 4 {
 		return Err(PacketParseError::TooLarge(len));
 	} else if len < 8 {
 		return Err(PacketParseError::TooSmall(len));
-- 
2.43.0


From a277073b2a3f32192f9a66ec6da769fcb37c38bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:22 +0000
Subject: [PATCH 03/26] fix: do not panic on unexpected messages during the key
 exchange

---
 nora_ssh/src/host.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 3ea0ae4..67f08c4 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -197,11 +197,12 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		let client_ephermal_public = Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_kex_ecdh_init()
-			.unwrap()
+			.ok_or(HandleNewClientError::ExpectedKeyExchangeEcdhInit)?
 			.client_ephermal_public_key;
-		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public).unwrap();
+		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public)
+			.map_err(|_| HandleNewClientError::InvalidPublicKey)?;
 		let client_ephermal_public = x25519_dalek::PublicKey::from(client_ephermal_public);
 
 		let server_public_key = self.host_key.public.to_encoded_point(false);
@@ -279,7 +280,7 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_new_keys()
 			.ok_or(HandleNewClientError::ExpectedKeys)?;
 
@@ -293,6 +294,8 @@ pub enum HandleNewClientError {
 	MessageParseError(MessageParseError),
 	PacketParseError(PacketParseError),
 	ExpectedKeyExchangeInit,
+	ExpectedKeyExchangeEcdhInit,
+	InvalidPublicKey,
 	UnsupportedAlgorithms,
 	ExpectedKeys,
 	#[allow(dead_code)]
-- 
2.43.0


From 0154431cdbbbfd134ca10c16ce540090f14cb77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:22 +0000
Subject: [PATCH 04/26] fix: refuse client keys that lead to an all-zero shared
 secret

---
 nora_ssh/src/host.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 67f08c4..3406ad2 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -221,6 +221,10 @@ impl Host<p256::NistP256> {
 			.update(client_ephermal_public.as_bytes())
 			.update(server_ephermal_public.as_bytes());
 		let shared_secret = server_ephermal_secret.diffie_hellman(&client_ephermal_public);
+		// RFC 8731, section 3: abort if the shared secret is all zero.
+		if !shared_secret.was_contributory() {
+			return Err(HandleNewClientError::InvalidPublicKey);
+		}
 		let hash = exchange_hash.update(shared_secret.as_bytes());
 		let sig = self.host_key.secret.sign(&hash);
 
-- 
2.43.0


From d43530bfb6e20a478328f75f38e2df7a7cec24ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:10 +0000
Subject: [PATCH 05/26] fix: ignore the packet that follows a wrong key
 exchange guess

---
 nora_ssh/src/host.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 3406ad2..b9229e8 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -188,6 +188,16 @@ impl Host<p256::NistP256> {
 			return Err(HandleNewClientError::UnsupportedAlgorithms);
 		}
 
+		// RFC 4253, section 7: if the client sends a packet based on a wrong guess it must be ignored.
+		let discard_guess = msg.first_kex_packet_follows
+			&& (msg.kex_algorithms.iter().next() != ALGORITHM_NAMES.first().copied()
+				|| msg.server_host_key_algorithms.iter().next() != Some(self.host_key.name()));
+		if discard_guess {
+			packet::parse(&mut pkt_buf, read, true, BlockSize::B8)
+				.await
+				.map_err(HandleNewClientError::PacketParseError)?;
+		}
+
 		// Generate temporary key for exchanging the secret
 		let server_ephermal_secret = x25519_dalek::EphemeralSecret::new(&mut rng);
 		let server_ephermal_public = x25519_dalek::PublicKey::from(&server_ephermal_secret);
@@ -260,7 +270,7 @@ impl Host<p256::NistP256> {
 		let receive_cipher = In(ChaCha20Poly1305::from_key_material(
 			&key_material,
 			Direction::ClientToServer,
-			3,
+			3 + u64::from(discard_guess),
 		));
 		let send_cipher = Out(ChaCha20Poly1305::from_key_material(
 			&key_material,
-- 
2.43.0


From 39048877c05df3a9817d66759cf365ca23891e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:10 +0000
Subject: [PATCH 06/26] fix: refuse clients that cannot do without compression

---
 nora_ssh/src/host.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index b9229e8..f241d9a 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -182,6 +182,14 @@ impl Host<p256::NistP256> {
 				.encryption_algorithms_server_to_client
 				.iter()
 				.any(|s| CIPHER_NAMES.iter().any(|&t| t == s))
+			|| !msg
+				.compression_algorithms_client_to_server
+				.iter()
+				.any(|s| s == "none")
+			|| !msg
+				.compression_algorithms_server_to_client
+				.iter()
+				.any(|s| s == "none")
 		// TODO we should handle the case where a HMAC needs to be selected if we're
 		// not using chacha20-poly1305
 		{
-- 
2.43.0


From 752488069c1c58fc7c624dfc2ada0724f25de44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:10 +0000
Subject: [PATCH 07/26] fix: find the identification string after any other
 line

Empty lines, lines ending in several CRs and lines that are a prefix of 'SSH-'
swallowed the line after them, and 'SSSH-' was taken for 'SSH-'.
---
 nora_ssh/src/identifier.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nora_ssh/src/identifier.rs b/nora_ssh/src/identifier.rs
index c45a942..ad74def 100644
--- a/nora_ssh/src/identifier.rs
+++ b/nora_ssh/src/identifier.rs
@@ -30,10 +30,9 @@ where
 		state = match (state, b) {
 			(State::EolLf, b'S') => State::S,
 			(State::S, b'S') => State::SS,
-			(State::SS, b'S') => State::SS,
 			(State::SS, b'H') => State::SSH,
 			(State::SSH, b'-') => break,
-			(State::Ignore, b'\r') => State::EolCr,
+			(_, b'\r') => State::EolCr,
 			(State::EolCr, b'\n') => State::EolLf,
 			_ => State::Ignore,
 		};
-- 
2.43.0


From b8b1ec414c6e5f17938bdb516c227350712f4685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:10 +0000
Subject: [PATCH 08/26] fix: never lose a wake-up for the transport lock

A waiter that was polled again kept its first waker, which may belong to another
task by then, and only the last waiter in the queue was woken even if it had
been dropped.
---
 nora_ssh/src/sync.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 4e7aff5..842dfeb 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -17,39 +17,34 @@ impl<T> LocalMutex<T> {
 	}
 
 	pub fn lock(&self) -> LocalMutexGuardFuture<'_, T> {
-		LocalMutexGuardFuture { inner: self, registered: false }
+		LocalMutexGuardFuture { inner: self }
 	}
 
 	fn push_waker(&self, waker: Waker) {
 		let mut q = self.queue.take();
-		q.push(waker);
+		if !q.iter().any(|w| w.will_wake(&waker)) {
+			q.push(waker);
+		}
 		self.queue.set(q);
 	}
 
-	fn pop_waker(&self) -> Option<Waker> {
-		let mut q = self.queue.take();
-		let w = q.pop();
-		self.queue.set(q);
-		w
+	fn take_wakers(&self) -> Vec<Waker> {
+		self.queue.take()
 	}
 }
 
 pub struct LocalMutexGuardFuture<'a, T> {
 	inner: &'a LocalMutex<T>,
-	registered: bool,
 }
 
 impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
 	type Output = LocalMutexGuard<'a, T>;
 
-	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
 		match self.inner.inner.try_borrow_mut() {
 			Ok(lock) => Poll::Ready(LocalMutexGuard { inner: self.inner, lock }),
 			Err(_) => {
-				if !self.registered {
-					self.inner.push_waker(cx.waker().clone());
-					self.registered = true;
-				}
+				self.inner.push_waker(cx.waker().clone());
 				Poll::Pending
 			}
 		}
@@ -77,6 +72,6 @@ impl<'a, T> DerefMut for LocalMutexGuard<'a, T> {
 
 impl<'a, T> Drop for LocalMutexGuard<'a, T> {
 	fn drop(&mut self) {
-		self.inner.pop_waker().map(|w| w.wake());
+		self.inner.take_wakers().into_iter().for_each(|w| w.wake());
 	}
 }
-- 
2.43.0


From ffffe68ec08f6c0a52465116caaa03ccd179b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:28 +0000
Subject: [PATCH 09/26] fix: no client can panic the server while it
 authenticates

Unexpected messages and I/O errors end the connection, unsupported methods are
answered with a failure, and large keys no longer overflow the buffers.
---
 nora_ssh/src/server.rs | 49 ++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 0234c21..56cc4ad 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -98,38 +98,40 @@ where
 
 		let mut pkt_buf = Vec::new();
 		pkt_buf.resize(35000, 0);
-		let mut pkt_buf_mini = [0; 256];
+		let mut pkt_buf_out = Vec::new();
+		pkt_buf_out.resize(35000, 0);
 
 		// Wait for userauth
-		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.unwrap();
-		let msg = Message::parse(data).unwrap();
-		let srv = <&[u8]>::from(msg.into_service_request().unwrap());
+		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
+		let msg = Message::parse(data).map_err(|_| ())?;
+		let srv = <&[u8]>::from(msg.into_service_request().ok_or(())?);
 		match srv {
 			b"ssh-userauth" => {
 				let msg = Message::ServiceAccept(msg::ServiceAccept::new(srv));
 				wr_enc
 					.send(
-						&mut pkt_buf_mini,
+						&mut pkt_buf_out,
 						|buf| msg.serialize(buf).unwrap().0.len(),
 						&mut wr,
 						&mut rng,
 					)
 					.await
-					.unwrap();
+					.map_err(|_| ())?;
 			}
-			_ => todo!(),
+			_ => return Err(()),
 		}
 
 		// Attempt authentication
-		let mut message = [0; 1024];
+		let mut message = Vec::new();
+		message.resize(pkt_buf.len() + 4 + session_identifier.len(), 0);
 		loop {
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
 			let msg = Message::parse(data).map_err(|_| ())?;
-			let ua = msg.into_user_auth().unwrap().into_request().ok_or(())?;
+			let ua = msg.into_user_auth().and_then(UserAuth::into_request).ok_or(())?;
 
 			let auth = match ua.method {
-				Method::None => Auth::None,
+				Method::None => Some(Auth::None),
 				Method::PublicKeyBlob { algorithm, blob } => {
 					let (a, b) = data::parse_string(blob).ok_or(())?;
 					let (key, b) = data::parse_string(b).ok_or(())?;
@@ -154,13 +156,13 @@ where
 					);
 					wr_enc
 						.send(
-							&mut pkt_buf_mini,
+							&mut pkt_buf_out,
 							|buf| msg.serialize(buf).unwrap().0.len(),
 							&mut wr,
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					continue;
 				}
 				Method::PublicKeySigned { algorithm, key: key_blob, signature } => {
@@ -190,17 +192,22 @@ where
 						algorithm,
 						key_blob,
 					)
-					.unwrap_or_else(|| todo!());
+					.ok_or(())?;
 
-					Auth::PublicKey { algorithm, signature, key, message }
+					Some(Auth::PublicKey { algorithm, signature, key, message })
 				}
-				Method::Password { password } => Auth::Password(password),
-				Method::PasswordRenew { .. } => todo!(),
-				Method::HostBased { .. } => todo!(),
-				Method::Other { .. } => todo!(),
+				Method::Password { password } => Some(Auth::Password(password)),
+				// Not supported
+				Method::PasswordRenew { .. } => None,
+				Method::HostBased { .. } => None,
+				Method::Other { .. } => None,
 			};
 
-			match self.handlers.authenticate(ua.user, ua.service, auth).await {
+			let result = match auth {
+				Some(auth) => self.handlers.authenticate(ua.user, ua.service, auth).await,
+				None => Err(()),
+			};
+			match result {
 				Ok(user) => {
 					// Accept
 					let msg = Message::UserAuth(UserAuth::Success(Success));
@@ -212,7 +219,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					return Ok(Client {
 						read: RefCell::new((rd, rd_enc)),
 						write: LocalMutex::new((wr, wr_enc)),
@@ -234,7 +241,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 				}
 			}
 		}
-- 
2.43.0


From 82a612acc71216ef8bc899d5558bafa38da83f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:28 +0000
Subject: [PATCH 10/26] fix: no client or program can panic the server in a
 session

Messages that make no sense end the connection, unsupported or failed requests
and channel types are answered with a failure, and broken pipes of a program
are treated as closed.
---
 nora_ssh/src/server.rs | 149 +++++++++++++++++++++--------------------
 1 file changed, 77 insertions(+), 72 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 56cc4ad..2612acd 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -19,7 +19,7 @@ use nora_ssh_core::{
 	cipher::{ChaCha20Poly1305, Cipher},
 	data,
 	identifier::Identifier,
-	message::{self as msg, channel::session::SessionRequest, Message},
+	message::{self as msg, channel::session::SessionRequest, Message, MessageParseError},
 };
 use rand::{CryptoRng, RngCore, SeedableRng};
 use subtle::CtOption;
@@ -303,7 +303,8 @@ where
 			channel: u32,
 		) -> (Io, [u8; 256], usize, u32) {
 			let mut buf = [0; 256];
-			let l = io.read(&mut buf).await.unwrap();
+			// Nothing more can be read after an error.
+			let l = io.read(&mut buf).await.unwrap_or(0);
 			(io, buf, l, channel)
 		}
 		let mut buf = Vec::new();
@@ -367,11 +368,31 @@ where
 		let (rd, enc) = &mut *read;
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
-			match Message::parse(data).unwrap() {
+			let msg = match Message::parse(data) {
+				Ok(msg) => msg,
+				// TODO reply with Unimplemented
+				Err(MessageParseError::UnknownMessageType(_)) => continue,
+				Err(e) => return Err(ReceiveError::Message(e)),
+			};
+			match msg {
+				Message::Channel(msg::Channel::Open(o)) if o.ty != b"session" => {
+					let msg = Message::Channel(msg::Channel::OpenFailure(
+						msg::channel::OpenFailure {
+							recipient_channel: o.sender_channel,
+							reason: msg::channel::OpenFailureReason::UnknownChannelType,
+							description: "unknown channel type",
+							language: b"",
+						},
+					));
+					self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						.await
+						.map_err(ReceiveError::Out)?;
+				}
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
-						ty: ChannelType::Session, // TODO actually check
+						ty: ChannelType::Session,
+						started: false,
 						stdin: None,
 					});
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
@@ -389,39 +410,27 @@ where
 				}
 				Message::Channel(msg::Channel::Request(r)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(r.recipient_channel).unwrap();
-					// TODO check if the channel is actually a session channel
-					let req = match SessionRequest::parse(r.ty, r.data) {
-						Err(_) => todo!(),
-						Ok(r) => r,
+					let ch = channels
+						.get_mut(r.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel(r.recipient_channel))?;
+					let ty = match SessionRequest::parse(r.ty, r.data) {
+						Ok(SessionRequest::Shell) => Some(SpawnType::Shell),
+						Ok(SessionRequest::Exec { command }) => Some(SpawnType::Exec { command }),
+						// Everything else is either invalid or unsupported.
+						_ => None,
 					};
-					let (msg, stdout, stderr, wait) = match req {
-						SessionRequest::Shell => {
-							let io = server
-								.handlers
-								.spawn(&mut *self.user.borrow_mut(), SpawnType::Shell, &[])
-								.await
-								.unwrap();
-							ch.stdin = io.stdin;
-							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
-							)
-						}
-						SessionRequest::Exec { command } => {
-							let io = server
-								.handlers
-								.spawn(
-									&mut *self.user.borrow_mut(),
-									SpawnType::Exec { command },
-									&[],
-								)
-								.await
-								.unwrap();
+					let io = match ty {
+						// Only one program can be started per channel.
+						Some(ty) if !ch.started => server
+							.handlers
+							.spawn(&mut *self.user.borrow_mut(), ty, &[])
+							.await
+							.ok(),
+						_ => None,
+					};
+					let (msg, stdout, stderr, wait) = match io {
+						Some(io) => {
+							ch.started = true;
 							ch.stdin = io.stdin;
 							(
 								Message::Channel(msg::Channel::Success(msg::channel::Success {
@@ -432,7 +441,7 @@ where
 								Some(io.wait),
 							)
 						}
-						SessionRequest::Pty { .. } => (
+						None => (
 							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
 								recipient_channel: ch.peer_channel,
 							})),
@@ -440,21 +449,6 @@ where
 							None,
 							None,
 						),
-						SessionRequest::X11 { .. } => todo!(),
-						SessionRequest::Env { .. } => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
-								recipient_channel: ch.peer_channel,
-							})),
-							None,
-							None,
-							None,
-						),
-						SessionRequest::Subsystem { .. } => todo!(),
-						SessionRequest::WindowChange { .. } => todo!(),
-						SessionRequest::XonXoff { .. } => todo!(),
-						SessionRequest::Signal { .. } => todo!(),
-						SessionRequest::ExitStatus { .. } => todo!(),
-						SessionRequest::ExitSignal { .. } => todo!(),
 					};
 					let channel = ch.peer_channel;
 					drop(channels);
@@ -477,39 +471,45 @@ where
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(d.recipient_channel).unwrap();
-					ch.stdin.as_mut().unwrap().write(d.data).await.unwrap();
+					let ch = channels
+						.get_mut(d.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel(d.recipient_channel))?;
+					if let Some(stdin) = ch.stdin.as_mut() {
+						// The program may no longer be interested in any input.
+						if stdin.write(d.data).await.is_err() {
+							ch.stdin.take();
+						}
+					}
 				}
-				Message::Channel(msg::Channel::ExtendedData(_)) => todo!(),
+				Message::Channel(msg::Channel::ExtendedData(_)) => {}
 				Message::Channel(msg::Channel::Eof(e)) => {
 					self.channels
 						.borrow_mut()
 						.get_mut(e.recipient_channel)
-						.unwrap()
+						.ok_or(ReceiveError::UnknownChannel(e.recipient_channel))?
 						.stdin
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					self.channels.borrow_mut().remove(c.recipient_channel);
 				}
-				Message::Channel(msg::Channel::OpenConfirmation(_)) => todo!(),
-				Message::Channel(msg::Channel::OpenFailure(_)) => todo!(),
-				Message::Channel(msg::Channel::WindowAdjust(_)) => todo!(),
-				Message::Channel(msg::Channel::Success(_)) => todo!(),
-				Message::Channel(msg::Channel::Failure(_)) => todo!(),
+				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
 				Message::Disconnect(_) => return Ok(Action::Exit),
 				Message::Ignore(_) => {}
-				Message::Unimplemented(_) => todo!(),
-				Message::Debug(_) => todo!(),
-				Message::KeyExchangeInit(_) => todo!(),
-				Message::KeyExchangeEcdhInit(_) => todo!(),
-				Message::KeyExchangeEcdhReply(_) => todo!(),
-				Message::NewKeys(_) => todo!(),
-				Message::ServiceRequest(req) => {
-					todo!("{:?}", core::str::from_utf8(req.into()))
-				}
-				Message::ServiceAccept(_) => todo!(),
-				Message::UserAuth(_) => todo!(),
+				Message::Unimplemented(_) => {}
+				Message::Debug(_) => {}
+				// RFC 4252, section 5.3: requests after success are silently ignored
+				Message::UserAuth(_) => {}
+				Message::Channel(msg::Channel::OpenConfirmation(_))
+				| Message::Channel(msg::Channel::OpenFailure(_))
+				| Message::Channel(msg::Channel::Success(_))
+				| Message::Channel(msg::Channel::Failure(_))
+				| Message::KeyExchangeInit(_)
+				| Message::KeyExchangeEcdhInit(_)
+				| Message::KeyExchangeEcdhReply(_)
+				| Message::NewKeys(_)
+				| Message::ServiceRequest(_)
+				| Message::ServiceAccept(_) => return Err(ReceiveError::UnexpectedMessage),
 			}
 		}
 	}
@@ -536,6 +536,8 @@ where
 	peer_channel: u32,
 	#[allow(dead_code)]
 	ty: ChannelType,
+	/// Whether a shell or command has been started already.
+	started: bool,
 	stdin: Option<Stdin>,
 }
 
@@ -564,6 +566,9 @@ pub enum SpawnType<'a> {
 pub enum ReceiveError {
 	In(InError),
 	Out(OutError),
+	Message(MessageParseError),
+	UnexpectedMessage,
+	UnknownChannel(u32),
 	Io(io::Error),
 }
 
-- 
2.43.0


From 52a12c20422f963f1719d89c8459d284e24ec7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:28 +0000
Subject: [PATCH 11/26] fix: write all received data to the program's stdin

---
 nora_ssh/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 2612acd..6dfae6c 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -476,7 +476,7 @@ where
 						.ok_or(ReceiveError::UnknownChannel(d.recipient_channel))?;
 					if let Some(stdin) = ch.stdin.as_mut() {
 						// The program may no longer be interested in any input.
-						if stdin.write(d.data).await.is_err() {
+						if stdin.write_all(d.data).await.is_err() {
 							ch.stdin.take();
 						}
 					}
-- 
2.43.0


From 01e69fd2ef9b7e44ba41d9d0cbda3a3018e10408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:13 +0000
Subject: [PATCH 12/26] fix: handle input and output of a connection
 concurrently

Whenever a program produced output the pending receive was dropped, and with it
any part of a packet already read, any reply half written and any command being
started.
---
 nora_ssh/src/server.rs | 70 ++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 19 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 6dfae6c..ff5149d 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -11,6 +11,7 @@ use elliptic_curve::{
 	Curve, Scalar,
 };
 use futures::{
+	channel::mpsc,
 	io, select, stream::FuturesUnordered, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt,
 	FutureExt, StreamExt,
 };
@@ -295,6 +296,35 @@ where
 	}
 
 	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
+		// Input and output must run concurrently as neither may be dropped in the middle of a
+		// packet and neither may wait for the other.
+		let (new_io, new_io_recv) = mpsc::unbounded();
+		select! {
+			ret = self.input(server, new_io).fuse() => ret,
+			ret = self.output(new_io_recv).fuse() => ret,
+		}
+	}
+
+	async fn input(
+		&self,
+		server: &Server<Handlers>,
+		new_io: mpsc::UnboundedSender<NewIo<Handlers::Stdout, Handlers::Stderr>>,
+	) -> Result<(), ReceiveError> {
+		let mut buf = Vec::new();
+		buf.resize(35000, 0);
+		loop {
+			match self.receive(&mut buf, server).await? {
+				Action::Exit => return Ok(()),
+				// The receiver lives as long as we do.
+				Action::NewIo(io) => new_io.unbounded_send(io).unwrap_or_else(|_| ()),
+			}
+		}
+	}
+
+	async fn output(
+		&self,
+		mut new_io: mpsc::UnboundedReceiver<NewIo<Handlers::Stdout, Handlers::Stderr>>,
+	) -> Result<(), ReceiveError> {
 		let mut stdout_inputs = FuturesUnordered::new();
 		let mut stderr_inputs = FuturesUnordered::new();
 		let mut wait_exit = FuturesUnordered::new();
@@ -311,18 +341,14 @@ where
 		buf.resize(35000, 0);
 		loop {
 			select! {
-				ret = self.receive(&mut buf, server).fuse() => match ret {
-					Ok(Action::Exit) => return Ok(()),
-					Ok(Action::NewIo { stdout, stderr, wait, channel }) => {
-						if let Some(stdout) = stdout {
-							stdout_inputs.push(read(stdout, channel));
-						}
-						if let Some(stderr) = stderr {
-							stderr_inputs.push(read(stderr, channel));
-						}
-						wait_exit.push(async move { (wait.await, channel) });
+				NewIo { stdout, stderr, wait, channel } = new_io.select_next_some() => {
+					if let Some(stdout) = stdout {
+						stdout_inputs.push(read(stdout, channel));
 					}
-					Err(e) => return Err(e),
+					if let Some(stderr) = stderr {
+						stderr_inputs.push(read(stderr, channel));
+					}
+					wait_exit.push(async move { (wait.await, channel) });
 				},
 				(stdout, data, l, channel) = stdout_inputs.select_next_some() => {
 					if l > 0 {
@@ -460,12 +486,12 @@ where
 					match (stdout, stderr) {
 						(None, None) => {}
 						(stdout, stderr) => {
-							return Ok(Action::NewIo {
+							return Ok(Action::NewIo(NewIo {
 								stdout,
 								stderr,
 								wait: wait.unwrap(),
 								channel,
-							})
+							}))
 						}
 					}
 				}
@@ -521,12 +547,18 @@ where
 	Stderr: AsyncRead + Unpin,
 {
 	Exit,
-	NewIo {
-		stdout: Option<Stdout>,
-		stderr: Option<Stderr>,
-		wait: Pin<Box<dyn Future<Output = u32>>>,
-		channel: u32,
-	},
+	NewIo(NewIo<Stdout, Stderr>),
+}
+
+struct NewIo<Stdout, Stderr>
+where
+	Stdout: AsyncRead + Unpin,
+	Stderr: AsyncRead + Unpin,
+{
+	stdout: Option<Stdout>,
+	stderr: Option<Stderr>,
+	wait: Pin<Box<dyn Future<Output = u32>>>,
+	channel: u32,
 }
 
 pub struct Channel<Stdin>
-- 
2.43.0


From 316231a8cf45cea7209528ac3f6c56d45b03f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:14 +0000
Subject: [PATCH 13/26] fix: send stderr as extended data instead of mixing it
 with stdout

---
 nora_ssh/src/server.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index ff5149d..337f0b9 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -295,6 +295,21 @@ where
 			.await
 	}
 
+	async fn send_channel_stderr(
+		&self,
+		buf: &mut [u8],
+		channel: u32,
+		data: &[u8],
+	) -> Result<(), OutError> {
+		let msg = Message::Channel(msg::Channel::ExtendedData(msg::channel::ExtendedData {
+			recipient_channel: channel,
+			ty: 1, // SSH_EXTENDED_DATA_STDERR
+			data,
+		}));
+		self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+			.await
+	}
+
 	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
 		// Input and output must run concurrently as neither may be dropped in the middle of a
 		// packet and neither may wait for the other.
@@ -366,7 +381,7 @@ where
 				(stderr, data, l, channel) = stderr_inputs.select_next_some() => {
 					if l > 0 {
 						stderr_inputs.push(read(stderr, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
+						self.send_channel_stderr(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
 					}
 				},
 				(status, channel) = wait_exit.select_next_some() => {
-- 
2.43.0


From e1335b951ec2dbaed8a520a10eb4bc83cfecd059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:59 +0000
Subject: [PATCH 14/26] fix: end channels properly

Exit status and stderr were sent after the channel had been closed or not at all
if there is no output stream, EOF was sent before stderr ended, and a close by
the client was not answered while output was still sent on the closed channel.
---
 nora_ssh/src/server.rs | 200 ++++++++++++++++++++++++++++-------------
 1 file changed, 139 insertions(+), 61 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 337f0b9..63708a9 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -4,16 +4,19 @@ use crate::{
 	host::{self, Host, HostKey, InError, OutError, SignKey},
 	sync::LocalMutex,
 };
-use core::{cell::RefCell, future::Future, pin::Pin};
+use core::{
+	cell::{Cell, RefCell},
+	future::Future,
+	pin::Pin,
+};
 use ecdsa::{hazmat::SignPrimitive, SignatureSize};
 use elliptic_curve::{
 	ops::{Invert, Reduce},
 	Curve, Scalar,
 };
 use futures::{
-	channel::mpsc,
-	io, select, stream::FuturesUnordered, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt,
-	FutureExt, StreamExt,
+	channel::mpsc, io, select, stream::FuturesUnordered, AsyncRead, AsyncReadExt, AsyncWrite,
+	AsyncWriteExt, FutureExt, StreamExt,
 };
 use generic_array::ArrayLength;
 use nora_ssh_core::{
@@ -23,6 +26,7 @@ use nora_ssh_core::{
 	message::{self as msg, channel::session::SessionRequest, Message, MessageParseError},
 };
 use rand::{CryptoRng, RngCore, SeedableRng};
+use std::rc::Rc;
 use subtle::CtOption;
 
 pub struct Server<Handlers>
@@ -129,7 +133,10 @@ where
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
 			let msg = Message::parse(data).map_err(|_| ())?;
-			let ua = msg.into_user_auth().and_then(UserAuth::into_request).ok_or(())?;
+			let ua = msg
+				.into_user_auth()
+				.and_then(UserAuth::into_request)
+				.ok_or(())?;
 
 			let auth = match ua.method {
 				Method::None => Some(Auth::None),
@@ -281,33 +288,67 @@ where
 		enc.send(buf, fill, wr, &mut *self.rng.borrow_mut()).await
 	}
 
+	/// Send a message on a channel, unless we closed that channel already.
 	async fn send_channel(
 		&self,
 		buf: &mut [u8],
-		channel: u32,
+		channel: &PeerChannel,
+		msg: msg::Channel<'_>,
+	) -> Result<(), OutError> {
+		let mut l = self.write.lock().await;
+		if channel.closed.get() {
+			return Ok(());
+		}
+		channel.closed.set(matches!(msg, msg::Channel::Close(_)));
+		let (wr, enc) = &mut *l;
+		let msg = Message::Channel(msg);
+		let fill = |buf: &mut [u8]| msg.serialize(buf).unwrap().0.len();
+		enc.send(buf, fill, wr, &mut *self.rng.borrow_mut()).await
+	}
+
+	async fn send_channel_data(
+		&self,
+		buf: &mut [u8],
+		channel: &PeerChannel,
 		data: &[u8],
 	) -> Result<(), OutError> {
-		let msg = Message::Channel(msg::Channel::Data(msg::channel::Data {
-			recipient_channel: channel,
-			data,
-		}));
-		self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
-			.await
+		let msg = msg::Channel::Data(msg::channel::Data { recipient_channel: channel.id, data });
+		self.send_channel(buf, channel, msg).await
 	}
 
 	async fn send_channel_stderr(
 		&self,
 		buf: &mut [u8],
-		channel: u32,
+		channel: &PeerChannel,
 		data: &[u8],
 	) -> Result<(), OutError> {
-		let msg = Message::Channel(msg::Channel::ExtendedData(msg::channel::ExtendedData {
-			recipient_channel: channel,
+		let msg = msg::Channel::ExtendedData(msg::channel::ExtendedData {
+			recipient_channel: channel.id,
 			ty: 1, // SSH_EXTENDED_DATA_STDERR
 			data,
-		}));
-		self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
-			.await
+		});
+		self.send_channel(buf, channel, msg).await
+	}
+
+	/// Send EOF when a channel has no output left, and close it when its program has exited too.
+	async fn send_channel_end(
+		&self,
+		buf: &mut [u8],
+		channel: &PeerChannel,
+	) -> Result<(), OutError> {
+		let recipient_channel = channel.id;
+		if channel.outputs.get() > 0 {
+			return Ok(());
+		}
+		if !channel.eof.replace(true) {
+			let msg = msg::Channel::Eof(msg::channel::Eof { recipient_channel });
+			self.send_channel(buf, channel, msg).await?;
+		}
+		if channel.exited.get() {
+			let msg = msg::Channel::Close(msg::channel::Close { recipient_channel });
+			self.send_channel(buf, channel, msg).await?;
+		}
+		Ok(())
 	}
 
 	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
@@ -345,8 +386,8 @@ where
 		let mut wait_exit = FuturesUnordered::new();
 		async fn read<Io: AsyncRead + Unpin>(
 			mut io: Io,
-			channel: u32,
-		) -> (Io, [u8; 256], usize, u32) {
+			channel: Rc<PeerChannel>,
+		) -> (Io, [u8; 256], usize, Rc<PeerChannel>) {
 			let mut buf = [0; 256];
 			// Nothing more can be read after an error.
 			let l = io.read(&mut buf).await.unwrap_or(0);
@@ -357,31 +398,37 @@ where
 		loop {
 			select! {
 				NewIo { stdout, stderr, wait, channel } = new_io.select_next_some() => {
+					let outputs = usize::from(stdout.is_some()) + usize::from(stderr.is_some());
+					channel.outputs.set(outputs);
 					if let Some(stdout) = stdout {
-						stdout_inputs.push(read(stdout, channel));
+						stdout_inputs.push(read(stdout, channel.clone()));
 					}
 					if let Some(stderr) = stderr {
-						stderr_inputs.push(read(stderr, channel));
+						stderr_inputs.push(read(stderr, channel.clone()));
 					}
+					self.send_channel_end(&mut buf, &channel).await.map_err(ReceiveError::Out)?;
 					wait_exit.push(async move { (wait.await, channel) });
 				},
 				(stdout, data, l, channel) = stdout_inputs.select_next_some() => {
 					if l > 0 {
-						stdout_inputs.push(read(stdout, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
+						self.send_channel_data(&mut buf, &channel, &data[..l]).await.map_err(ReceiveError::Out)?;
+						if !channel.closed.get() {
+							stdout_inputs.push(read(stdout, channel));
+						}
 					} else {
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Eof(msg::channel::Eof {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Close(msg::channel::Close {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
+						channel.outputs.set(channel.outputs.get() - 1);
+						self.send_channel_end(&mut buf, &channel).await.map_err(ReceiveError::Out)?;
 					}
 				},
 				(stderr, data, l, channel) = stderr_inputs.select_next_some() => {
 					if l > 0 {
-						stderr_inputs.push(read(stderr, channel));
-						self.send_channel_stderr(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
+						self.send_channel_stderr(&mut buf, &channel, &data[..l]).await.map_err(ReceiveError::Out)?;
+						if !channel.closed.get() {
+							stderr_inputs.push(read(stderr, channel));
+						}
+					} else {
+						channel.outputs.set(channel.outputs.get() - 1);
+						self.send_channel_end(&mut buf, &channel).await.map_err(ReceiveError::Out)?;
 					}
 				},
 				(status, channel) = wait_exit.select_next_some() => {
@@ -389,12 +436,14 @@ where
 					let (ty, l) = SessionRequest::ExitStatus {
 						status,
 					}.serialize(&mut data).unwrap();
-					self.send(&mut buf, |buf| Message::Channel(msg::Channel::Request(msg::channel::Request {
-						recipient_channel: channel,
+					self.send_channel(&mut buf, &channel, msg::Channel::Request(msg::channel::Request {
+						recipient_channel: channel.id,
 						ty,
 						data: &data[..l],
 						want_reply: false,
-					})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
+					})).await.map_err(ReceiveError::Out)?;
+					channel.exited.set(true);
+					self.send_channel_end(&mut buf, &channel).await.map_err(ReceiveError::Out)?;
 				}
 			}
 		}
@@ -417,21 +466,20 @@ where
 			};
 			match msg {
 				Message::Channel(msg::Channel::Open(o)) if o.ty != b"session" => {
-					let msg = Message::Channel(msg::Channel::OpenFailure(
-						msg::channel::OpenFailure {
+					let msg =
+						Message::Channel(msg::Channel::OpenFailure(msg::channel::OpenFailure {
 							recipient_channel: o.sender_channel,
 							reason: msg::channel::OpenFailureReason::UnknownChannelType,
 							description: "unknown channel type",
 							language: b"",
-						},
-					));
+						}));
 					self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
 						.await
 						.map_err(ReceiveError::Out)?;
 				}
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
-						peer_channel: o.sender_channel,
+						peer_channel: Rc::new(PeerChannel::new(o.sender_channel)),
 						ty: ChannelType::Session,
 						started: false,
 						stdin: None,
@@ -474,40 +522,32 @@ where
 							ch.started = true;
 							ch.stdin = io.stdin;
 							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
+								msg::Channel::Success(msg::channel::Success {
+									recipient_channel: ch.peer_channel.id,
+								}),
 								io.stdout,
 								io.stderr,
 								Some(io.wait),
 							)
 						}
 						None => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
-								recipient_channel: ch.peer_channel,
-							})),
+							msg::Channel::Failure(msg::channel::Failure {
+								recipient_channel: ch.peer_channel.id,
+							}),
 							None,
 							None,
 							None,
 						),
 					};
-					let channel = ch.peer_channel;
+					let channel = ch.peer_channel.clone();
 					drop(channels);
 					if r.want_reply {
-						self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						self.send_channel(buf, &channel, msg)
 							.await
 							.map_err(ReceiveError::Out)?;
 					}
-					match (stdout, stderr) {
-						(None, None) => {}
-						(stdout, stderr) => {
-							return Ok(Action::NewIo(NewIo {
-								stdout,
-								stderr,
-								wait: wait.unwrap(),
-								channel,
-							}))
-						}
+					if let Some(wait) = wait {
+						return Ok(Action::NewIo(NewIo { stdout, stderr, wait, channel }));
 					}
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
@@ -532,7 +572,19 @@ where
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
-					self.channels.borrow_mut().remove(c.recipient_channel);
+					let ch = self
+						.channels
+						.borrow_mut()
+						.remove(c.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel(c.recipient_channel))?;
+					let channel = ch.peer_channel.clone();
+					// Nobody is left to provide input.
+					drop(ch);
+					let msg =
+						msg::Channel::Close(msg::channel::Close { recipient_channel: channel.id });
+					self.send_channel(buf, &channel, msg)
+						.await
+						.map_err(ReceiveError::Out)?;
 				}
 				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
 				Message::Disconnect(_) => return Ok(Action::Exit),
@@ -573,14 +625,40 @@ where
 	stdout: Option<Stdout>,
 	stderr: Option<Stderr>,
 	wait: Pin<Box<dyn Future<Output = u32>>>,
-	channel: u32,
+	channel: Rc<PeerChannel>,
+}
+
+/// The part of a channel which outlives it if the peer closes it early.
+struct PeerChannel {
+	/// The number the peer uses for this channel.
+	id: u32,
+	/// The amount of output streams that have not ended yet.
+	outputs: Cell<usize>,
+	/// Whether the program has exited.
+	exited: Cell<bool>,
+	/// Whether we sent EOF.
+	eof: Cell<bool>,
+	/// Whether we sent a close. Nothing may be sent after it.
+	closed: Cell<bool>,
+}
+
+impl PeerChannel {
+	fn new(id: u32) -> Self {
+		Self {
+			id,
+			outputs: Cell::new(0),
+			exited: Cell::new(false),
+			eof: Cell::new(false),
+			closed: Cell::new(false),
+		}
+	}
 }
 
 pub struct Channel<Stdin>
 where
 	Stdin: AsyncWrite + Unpin,
 {
-	peer_channel: u32,
+	peer_channel: Rc<PeerChannel>,
 	#[allow(dead_code)]
 	ty: ChannelType,
 	/// Whether a shell or command has been started already.
-- 
2.43.0


From d7946c2120bbf1ce0ec744d29e4f892619c5e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:10 +0000
Subject: [PATCH 15/26] fix: refuse what the example server cannot do instead
 of panicking

---
 nora_sshd/src/main.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 3591409..fa766f0 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -12,7 +12,7 @@ use nora_ssh::{
 	Identifier,
 };
 use rand::rngs::StdRng;
-use std::os::unix::ffi::OsStrExt;
+use std::{os::unix::ffi::OsStrExt, time::Duration};
 
 #[async_std::main]
 async fn main() -> ! {
@@ -52,7 +52,13 @@ impl ServerHandlers for Handlers {
 	type Rng = StdRng;
 
 	async fn accept(&self) -> (Self::Read, Self::Write) {
-		self.listener.accept().await.unwrap().0.split()
+		loop {
+			match self.listener.accept().await {
+				Ok((stream, _)) => return stream.split(),
+				// The client may be gone already or we may have too many connections.
+				Err(_) => async_std::task::sleep(Duration::from_millis(100)).await,
+			}
+		}
 	}
 
 	async fn public_key_exists<'a>(
@@ -77,9 +83,8 @@ impl ServerHandlers for Handlers {
 	) -> Result<Self::User, ()> {
 		match auth {
 			Auth::None => Err(()),
-			Auth::Password(_pwd) => {
-				todo!()
-			}
+			// Not supported
+			Auth::Password(_pwd) => Err(()),
 			Auth::PublicKey { algorithm, key, signature, message } => {
 				if algorithm != b"ssh-ed25519" {
 					return Err(());
@@ -90,7 +95,7 @@ impl ServerHandlers for Handlers {
 					.map_err(|_| ())?;
 				key.verify(message, &signature.try_into().map_err(|_| ())?)
 					.map_err(|_| ())?;
-				Ok(User { _name: core::str::from_utf8(user).unwrap().into(), shell: None })
+				Ok(User { _name: core::str::from_utf8(user).map_err(|_| ())?.into(), shell: None })
 			}
 		}
 	}
@@ -107,13 +112,13 @@ impl ServerHandlers for Handlers {
 		};
 		match ty {
 			SpawnType::Shell => {
-				let shell = std::env::var_os("SHELL").unwrap();
+				let shell = std::env::var_os("SHELL").ok_or(())?;
 				let mut shell = process::Command::new(shell)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
@@ -128,14 +133,14 @@ impl ServerHandlers for Handlers {
 					.split(|c| c.is_ascii_whitespace())
 					.filter(|s| !s.is_empty())
 					.map(std::ffi::OsStr::from_bytes);
-				let bin = args.next().unwrap();
+				let bin = args.next().ok_or(())?;
 				let mut shell = process::Command::new(bin)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.args(args)
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
-- 
2.43.0


From 7d20670d0add4830cb2becd44820e2593ccdebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:11 +0000
Subject: [PATCH 16/26] fix: do not report success for a program that was
 killed

---
 nora_sshd/src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index fa766f0..c854b39 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -12,7 +12,10 @@ use nora_ssh::{
 	Identifier,
 };
 use rand::rngs::StdRng;
-use std::{os::unix::ffi::OsStrExt, time::Duration};
+use std::{
+	os::unix::{ffi::OsStrExt, process::ExitStatusExt},
+	time::Duration,
+};
 
 #[async_std::main]
 async fn main() -> ! {
@@ -108,7 +111,12 @@ impl ServerHandlers for Handlers {
 	) -> Result<IoSet<Self::Stdin, Self::Stdout, Self::Stderr>, ()> {
 		let wait = |child: &mut process::Child| {
 			let wait = child.status();
-			async move { wait.await.unwrap().code().unwrap_or(0) as u32 }
+			async move {
+				match wait.await {
+					Ok(s) => s.code().unwrap_or_else(|| 128 + s.signal().unwrap_or(0)) as u32,
+					Err(_) => 255,
+				}
+			}
 		};
 		match ty {
 			SpawnType::Shell => {
-- 
2.43.0


From 420029d02ab3eea7a9b0e43d45e986f5c3c68a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:11 +0000
Subject: [PATCH 17/26] fix: exit with a non-zero status if a transfer failed

---
 nora_scp/src/main.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index b8bf41e..8896e7e 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -22,17 +22,24 @@ use std::{
 	fs::{self, File},
 	io::{self, BufRead, BufReader, Read, Write},
 	path::PathBuf,
+	process,
 	str,
 };
 
 fn main() {
 	match start() {
 		Ok(()) => {}
-		Err(e) => eprintln!(
-			"{} failed: {}",
-			std::env::args().next().as_deref().unwrap_or("scp"),
-			e
-		),
+		Err(e) => {
+			eprintln!(
+				"{} failed: {}",
+				std::env::args_os()
+					.next()
+					.unwrap_or_else(|| "scp".into())
+					.to_string_lossy(),
+				e
+			);
+			process::exit(1);
+		}
 	}
 }
 
@@ -59,7 +66,7 @@ fn start() -> Result<(), Box<dyn Error>> {
 	match mode {
 		Mode::Receive => receive(&paths, make_dir),
 		Mode::Send => send(&paths),
-		Mode::Client => todo!(),
+		Mode::Client => Err("client mode is not supported")?,
 	}
 }
 
-- 
2.43.0


From 6aaf21d386b7c091ac219b2718dd8d20acfd52dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:11 +0000
Subject: [PATCH 18/26] fix: parse scp headers strictly

Names with spaces were cut short, headers without an end and with garbage were
accepted and directories panicked.
---
 nora_scp/src/main.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 8896e7e..7029f3a 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -97,18 +97,22 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				stdin.borrow_mut().read_until(b'\n', header)?;
 				// TODO try to support non-UTF8 when possible.
 				let header = str::from_utf8(header)?;
-				let mut parts = header.split(' ');
+				let header = header.strip_suffix('\n').ok_or("truncated header")?;
+				// Names may contain spaces
+				let mut parts = header.splitn(3, ' ');
 				let mode = parts.next().ok_or("missing mode")?;
 				let size = parts.next().ok_or("missing size")?;
-				let mut file = parts.next().ok_or("missing file")?;
-				if file.bytes().last() == Some(b'\n') {
-					file = &file[..file.len() - 1];
+				let file = parts.next().ok_or("missing file")?;
+				if mode.len() != 5 || !mode[1..].bytes().all(|c| matches!(c, b'0'..=b'7')) {
+					Err("invalid mode")?;
+				}
+				if !size.bytes().all(|c| c.is_ascii_digit()) {
+					Err("invalid size")?;
 				}
-				// TODO check for garbage
 				let size = size.parse::<usize>()?;
 				Ok(Some((Type::File, mode, size, file)))
 			}
-			(_, b'D') => todo!(),
+			(_, b'D') => Err("directories are not supported")?,
 			c => Err(format!("invalid mode {:?}", c))?,
 		}
 	}
-- 
2.43.0


From 10b14afe71408626ae2db97375fbf4f19c54bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:12 +0000
Subject: [PATCH 19/26] fix: do not let the sender choose a file outside the
 target directory

---
 nora_scp/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 7029f3a..0699089 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -145,6 +145,9 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 		while let Some((ty, _mode, size, file)) = read_header(&stdin, &mut header)? {
 			match ty {
 				Type::File => {
+					if matches!(file, "" | "." | "..") || file.contains('/') {
+						Err(format!("invalid file name {:?}", file))?;
+					}
 					let f = File::create(file)?;
 					ping_ready()?;
 					transfer_file(f, size)?;
-- 
2.43.0


From 158a53cccbd6ad1a2a86b36615e6c6d3928c3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:12 +0000
Subject: [PATCH 20/26] fix: send files as the protocol requires

The size was always announced as 42, the content had no trailing zero and no
acknowledgement of the receiver was waited for.
---
 nora_scp/src/main.rs | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 0699089..90bc9c4 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -176,23 +176,51 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 }
 
 fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
+	let mut stdin = io::stdin().lock();
+	let mut out = io::stdout().lock();
+	let mut wait_ready = || -> Result<(), Box<dyn Error>> {
+		let mut ack = [0];
+		stdin.read_exact(&mut ack)?;
+		match ack {
+			[b'\0'] => Ok(()),
+			_ => Err("expected '\\0'")?,
+		}
+	};
+
 	let mut buf = [0; 1 << 15];
+	wait_ready()?;
 	for path in from {
 		let mut f = File::open(path)?;
+		let meta = f.metadata()?;
+		if !meta.is_file() {
+			Err(format!("{:?} is not a regular file", path))?;
+		}
 		// TODO try to support non-UTF8 when possible.
 		let name = path
 			.file_name()
-			.unwrap()
+			.ok_or("path has no file name")?
 			.to_str()
 			.ok_or("failed to convert path to UTF-8")?;
-		println!("C{:04o} {} {}", 0o644, 42, name);
-		let mut out = io::stdout().lock();
-		loop {
-			match f.read(&mut buf)? {
-				0 => break,
-				n => out.write_all(&buf[..n])?,
+		if name.contains('\n') {
+			Err("file name contains a newline")?;
+		}
+		let mut size = meta.len();
+		write!(out, "C{:04o} {} {}\n", 0o644, size, name)?;
+		out.flush()?;
+		wait_ready()?;
+		while size > 0 {
+			let l = buf.len().min(size.try_into().unwrap_or(buf.len()));
+			match f.read(&mut buf[..l])? {
+				0 => Err("file became smaller")?,
+				n => {
+					out.write_all(&buf[..n])?;
+					size -= n as u64;
+				}
 			}
 		}
+		out.write_all(b"\0")?;
+		out.flush()?;
+		wait_ready()?;
 	}
 	Ok(())
 }
-- 
2.43.0


From cb5ea536cbb5a606018c7d0520c23b3db9bc8711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:00 +0000
Subject: [PATCH 21/26] fix: give a program no input if the peer sent EOF
 before starting it

---
 nora_ssh/src/server.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 63708a9..f9d1011 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -482,6 +482,7 @@ where
 						peer_channel: Rc::new(PeerChannel::new(o.sender_channel)),
 						ty: ChannelType::Session,
 						started: false,
+						eof: false,
 						stdin: None,
 					});
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
@@ -520,7 +521,8 @@ where
 					let (msg, stdout, stderr, wait) = match io {
 						Some(io) => {
 							ch.started = true;
-							ch.stdin = io.stdin;
+							// There may be no input to begin with.
+							ch.stdin = io.stdin.filter(|_| !ch.eof);
 							(
 								msg::Channel::Success(msg::channel::Success {
 									recipient_channel: ch.peer_channel.id,
@@ -564,12 +566,12 @@ where
 				}
 				Message::Channel(msg::Channel::ExtendedData(_)) => {}
 				Message::Channel(msg::Channel::Eof(e)) => {
-					self.channels
-						.borrow_mut()
+					let mut channels = self.channels.borrow_mut();
+					let ch = channels
 						.get_mut(e.recipient_channel)
-						.ok_or(ReceiveError::UnknownChannel(e.recipient_channel))?
-						.stdin
-						.take();
+						.ok_or(ReceiveError::UnknownChannel(e.recipient_channel))?;
+					ch.eof = true;
+					ch.stdin.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					let ch = self
@@ -663,6 +665,8 @@ where
 	ty: ChannelType,
 	/// Whether a shell or command has been started already.
 	started: bool,
+	/// Whether the peer sent EOF.
+	eof: bool,
 	stdin: Option<Stdin>,
 }
 
-- 
2.43.0


From b2bba4e33268a6cea16317d2a096d2ab74feb942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:37 +0000
Subject: [PATCH 22/26] fix: accept channel opens followed by data specific to
 their type

A client that asks for port forwarding (direct-tcpip) lost the whole
connection, since the data after the generic fields was taken for garbage,
instead of getting an open failure.
---
 nora_ssh_core/src/message/channel/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nora_ssh_core/src/message/channel/mod.rs b/nora_ssh_core/src/message/channel/mod.rs
index 5d77719..4e57cad 100644
--- a/nora_ssh_core/src/message/channel/mod.rs
+++ b/nora_ssh_core/src/message/channel/mod.rs
@@ -172,12 +172,13 @@ impl<'a> Open<'a> {
 		let (ty, data) = parse_string(data).ok_or(OpenParseError::Truncated)?;
 		if data.len() < 12 {
 			Err(OpenParseError::Truncated)
-		} else if data.len() > 12 {
+		} else if data.len() > 12 && ty == b"session" {
+			// Only other types are followed by data specific to them (RFC 4254, section 5.1).
 			Err(OpenParseError::Unread)
 		} else {
 			let sender_channel = u32::from_be_bytes(data[..4].try_into().unwrap());
 			let window_size = u32::from_be_bytes(data[4..8].try_into().unwrap());
-			let max_packet_size = u32::from_be_bytes(data[8..].try_into().unwrap());
+			let max_packet_size = u32::from_be_bytes(data[8..12].try_into().unwrap());
 			Ok(Self { ty, sender_channel, window_size, max_packet_size })
 		}
 	}
-- 
2.43.0


From 24460c5e3b5c36cc1c05f97978ac8aef38815f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:31 +0000
Subject: [PATCH 23/26] fix: grant clients a window we can serve and extend it

The server promised whatever window and packet size the client had chosen for
the other direction. Clients with larger packets than our buffer lost the
connection, and since the window was never extended, any client that respects
it could not send more than that (2 MiB for OpenSSH).
---
 nora_ssh/src/server.rs | 62 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 56 insertions(+), 6 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index f9d1011..5ebc4ba 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -29,6 +29,11 @@ use rand::{CryptoRng, RngCore, SeedableRng};
 use std::rc::Rc;
 use subtle::CtOption;
 
+/// How much data a peer may send on a channel before we grant it more.
+const WINDOW_SIZE: u32 = 2 << 20;
+/// How much data a peer may send at once. This must fit in our buffers.
+const MAX_PACKET_SIZE: u32 = 32768;
+
 pub struct Server<Handlers>
 where
 	Handlers: ServerHandlers,
@@ -355,9 +360,10 @@ where
 		// Input and output must run concurrently as neither may be dropped in the middle of a
 		// packet and neither may wait for the other.
 		let (new_io, new_io_recv) = mpsc::unbounded();
+		let (adjust, adjust_recv) = mpsc::unbounded();
 		select! {
-			ret = self.input(server, new_io).fuse() => ret,
-			ret = self.output(new_io_recv).fuse() => ret,
+			ret = self.input(server, new_io, adjust).fuse() => ret,
+			ret = self.output(new_io_recv, adjust_recv).fuse() => ret,
 		}
 	}
 
@@ -365,14 +371,16 @@ where
 		&self,
 		server: &Server<Handlers>,
 		new_io: mpsc::UnboundedSender<NewIo<Handlers::Stdout, Handlers::Stderr>>,
+		adjust: mpsc::UnboundedSender<Adjust>,
 	) -> Result<(), ReceiveError> {
 		let mut buf = Vec::new();
 		buf.resize(35000, 0);
 		loop {
 			match self.receive(&mut buf, server).await? {
 				Action::Exit => return Ok(()),
-				// The receiver lives as long as we do.
+				// The receivers live as long as we do.
 				Action::NewIo(io) => new_io.unbounded_send(io).unwrap_or_else(|_| ()),
+				Action::Adjust(a) => adjust.unbounded_send(a).unwrap_or_else(|_| ()),
 			}
 		}
 	}
@@ -380,6 +388,7 @@ where
 	async fn output(
 		&self,
 		mut new_io: mpsc::UnboundedReceiver<NewIo<Handlers::Stdout, Handlers::Stderr>>,
+		mut adjust: mpsc::UnboundedReceiver<Adjust>,
 	) -> Result<(), ReceiveError> {
 		let mut stdout_inputs = FuturesUnordered::new();
 		let mut stderr_inputs = FuturesUnordered::new();
@@ -409,6 +418,12 @@ where
 					self.send_channel_end(&mut buf, &channel).await.map_err(ReceiveError::Out)?;
 					wait_exit.push(async move { (wait.await, channel) });
 				},
+				Adjust { channel, add_bytes } = adjust.select_next_some() => {
+					self.send_channel(&mut buf, &channel, msg::Channel::WindowAdjust(msg::channel::WindowAdjust {
+						recipient_channel: channel.id,
+						add_bytes,
+					})).await.map_err(ReceiveError::Out)?;
+				},
 				(stdout, data, l, channel) = stdout_inputs.select_next_some() => {
 					if l > 0 {
 						self.send_channel_data(&mut buf, &channel, &data[..l]).await.map_err(ReceiveError::Out)?;
@@ -484,13 +499,14 @@ where
 						started: false,
 						eof: false,
 						stdin: None,
+						consumed: 0,
 					});
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
 						msg::channel::OpenConfirmation {
 							sender_channel: ch,
 							recipient_channel: o.sender_channel,
-							window_size: o.window_size,
-							max_packet_size: o.max_packet_size,
+							window_size: WINDOW_SIZE,
+							max_packet_size: MAX_PACKET_SIZE,
 							data: &[],
 						},
 					));
@@ -563,8 +579,18 @@ where
 							ch.stdin.take();
 						}
 					}
+					if let Some(adjust) = ch.consume(d.data.len()) {
+						return Ok(Action::Adjust(adjust));
+					}
+				}
+				Message::Channel(msg::Channel::ExtendedData(d)) => {
+					// There is nothing that could take it.
+					let mut channels = self.channels.borrow_mut();
+					let ch = channels.get_mut(d.recipient_channel);
+					if let Some(adjust) = ch.and_then(|ch| ch.consume(d.data.len())) {
+						return Ok(Action::Adjust(adjust));
+					}
 				}
-				Message::Channel(msg::Channel::ExtendedData(_)) => {}
 				Message::Channel(msg::Channel::Eof(e)) => {
 					let mut channels = self.channels.borrow_mut();
 					let ch = channels
@@ -617,6 +643,13 @@ where
 {
 	Exit,
 	NewIo(NewIo<Stdout, Stderr>),
+	Adjust(Adjust),
+}
+
+/// More data that a peer may send on a channel.
+struct Adjust {
+	channel: Rc<PeerChannel>,
+	add_bytes: u32,
 }
 
 struct NewIo<Stdout, Stderr>
@@ -668,6 +701,23 @@ where
 	/// Whether the peer sent EOF.
 	eof: bool,
 	stdin: Option<Stdin>,
+	/// How much of the window has been used up since we last extended it.
+	consumed: u32,
+}
+
+impl<Stdin> Channel<Stdin>
+where
+	Stdin: AsyncWrite + Unpin,
+{
+	/// Take note of data that has been dealt with. From time to time the peer must be granted more.
+	fn consume(&mut self, amount: usize) -> Option<Adjust> {
+		// No message is larger than our buffers.
+		self.consumed += amount as u32;
+		(self.consumed >= WINDOW_SIZE / 2).then(|| Adjust {
+			channel: self.peer_channel.clone(),
+			add_bytes: core::mem::take(&mut self.consumed),
+		})
+	}
 }
 
 pub struct IoSet<Stdin, Stdout, Stderr>
-- 
2.43.0


From fbbec4255870735dc179e8b5e0a9356579e90694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:45 +0000
Subject: [PATCH 24/26] fix: respect the window and packet size of the peer

All output was sent at once, whatever the client allowed. OpenSSH drops data
beyond its window, so a slow client lost output of its program.
---
 nora_ssh/src/server.rs | 133 +++++++++++++++++++++++++++++++++--------
 1 file changed, 109 insertions(+), 24 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 5ebc4ba..a9fb62c 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -7,7 +7,9 @@ use crate::{
 use core::{
 	cell::{Cell, RefCell},
 	future::Future,
+	ops::Range,
 	pin::Pin,
+	task::{Poll, Waker},
 };
 use ecdsa::{hazmat::SignPrimitive, SignatureSize};
 use elliptic_curve::{
@@ -15,8 +17,8 @@ use elliptic_curve::{
 	Curve, Scalar,
 };
 use futures::{
-	channel::mpsc, io, select, stream::FuturesUnordered, AsyncRead, AsyncReadExt, AsyncWrite,
-	AsyncWriteExt, FutureExt, StreamExt,
+	channel::mpsc, future::poll_fn, io, select, stream::FuturesUnordered, AsyncRead, AsyncReadExt,
+	AsyncWrite, AsyncWriteExt, FutureExt, StreamExt,
 };
 use generic_array::ArrayLength;
 use nora_ssh_core::{
@@ -304,7 +306,9 @@ where
 		if channel.closed.get() {
 			return Ok(());
 		}
-		channel.closed.set(matches!(msg, msg::Channel::Close(_)));
+		if matches!(msg, msg::Channel::Close(_)) {
+			channel.close();
+		}
 		let (wr, enc) = &mut *l;
 		let msg = Message::Channel(msg);
 		let fill = |buf: &mut [u8]| msg.serialize(buf).unwrap().0.len();
@@ -393,14 +397,15 @@ where
 		let mut stdout_inputs = FuturesUnordered::new();
 		let mut stderr_inputs = FuturesUnordered::new();
 		let mut wait_exit = FuturesUnordered::new();
-		async fn read<Io: AsyncRead + Unpin>(
-			mut io: Io,
-			channel: Rc<PeerChannel>,
-		) -> (Io, [u8; 256], usize, Rc<PeerChannel>) {
-			let mut buf = [0; 256];
-			// Nothing more can be read after an error.
-			let l = io.read(&mut buf).await.unwrap_or(0);
-			(io, buf, l, channel)
+		async fn read<Io: AsyncRead + Unpin>(mut output: Output<Io>) -> Output<Io> {
+			if output.data.is_empty() {
+				// Nothing more can be read after an error.
+				output.data = 0..output.io.read(&mut output.buf).await.unwrap_or(0);
+			}
+			if !output.data.is_empty() {
+				output.channel.writable().await;
+			}
+			output
 		}
 		let mut buf = Vec::new();
 		buf.resize(35000, 0);
@@ -410,10 +415,10 @@ where
 					let outputs = usize::from(stdout.is_some()) + usize::from(stderr.is_some());
 					channel.outputs.set(outputs);
 					if let Some(stdout) = stdout {
-						stdout_inputs.push(read(stdout, channel.clone()));
+						stdout_inputs.push(read(Output::new(stdout, channel.clone())));
 					}
 					if let Some(stderr) = stderr {
-						stderr_inputs.push(read(stderr, channel.clone()));
+						stderr_inputs.push(read(Output::new(stderr, channel.clone())));
 					}
 					self.send_channel_end(&mut buf, &channel).await.map_err(ReceiveError::Out)?;
 					wait_exit.push(async move { (wait.await, channel) });
@@ -424,22 +429,36 @@ where
 						add_bytes,
 					})).await.map_err(ReceiveError::Out)?;
 				},
-				(stdout, data, l, channel) = stdout_inputs.select_next_some() => {
-					if l > 0 {
-						self.send_channel_data(&mut buf, &channel, &data[..l]).await.map_err(ReceiveError::Out)?;
+				mut stdout = stdout_inputs.select_next_some() => {
+					let channel = stdout.channel.clone();
+					if !stdout.data.is_empty() {
+						// The other stream may have used up the window.
+						let l = channel.take_window(stdout.data.len());
+						if l > 0 {
+							let data = &stdout.buf[stdout.data.start..][..l];
+							self.send_channel_data(&mut buf, &channel, data).await.map_err(ReceiveError::Out)?;
+							stdout.data.start += l;
+						}
 						if !channel.closed.get() {
-							stdout_inputs.push(read(stdout, channel));
+							stdout_inputs.push(read(stdout));
 						}
 					} else {
 						channel.outputs.set(channel.outputs.get() - 1);
 						self.send_channel_end(&mut buf, &channel).await.map_err(ReceiveError::Out)?;
 					}
 				},
-				(stderr, data, l, channel) = stderr_inputs.select_next_some() => {
-					if l > 0 {
-						self.send_channel_stderr(&mut buf, &channel, &data[..l]).await.map_err(ReceiveError::Out)?;
+				mut stderr = stderr_inputs.select_next_some() => {
+					let channel = stderr.channel.clone();
+					if !stderr.data.is_empty() {
+						// The other stream may have used up the window.
+						let l = channel.take_window(stderr.data.len());
+						if l > 0 {
+							let data = &stderr.buf[stderr.data.start..][..l];
+							self.send_channel_stderr(&mut buf, &channel, data).await.map_err(ReceiveError::Out)?;
+							stderr.data.start += l;
+						}
 						if !channel.closed.get() {
-							stderr_inputs.push(read(stderr, channel));
+							stderr_inputs.push(read(stderr));
 						}
 					} else {
 						channel.outputs.set(channel.outputs.get() - 1);
@@ -494,7 +513,11 @@ where
 				}
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
-						peer_channel: Rc::new(PeerChannel::new(o.sender_channel)),
+						peer_channel: Rc::new(PeerChannel::new(
+							o.sender_channel,
+							o.window_size,
+							o.max_packet_size,
+						)),
 						ty: ChannelType::Session,
 						started: false,
 						eof: false,
@@ -614,7 +637,11 @@ where
 						.await
 						.map_err(ReceiveError::Out)?;
 				}
-				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
+				Message::Channel(msg::Channel::WindowAdjust(w)) => {
+					if let Some(ch) = self.channels.borrow_mut().get_mut(w.recipient_channel) {
+						ch.peer_channel.extend_window(w.add_bytes);
+					}
+				}
 				Message::Disconnect(_) => return Ok(Action::Exit),
 				Message::Ignore(_) => {}
 				Message::Unimplemented(_) => {}
@@ -646,6 +673,21 @@ where
 	Adjust(Adjust),
 }
 
+/// A stream of a program that is sent to the peer.
+struct Output<Io> {
+	io: Io,
+	buf: [u8; 256],
+	/// The part of the buffer that has not been sent yet.
+	data: Range<usize>,
+	channel: Rc<PeerChannel>,
+}
+
+impl<Io> Output<Io> {
+	fn new(io: Io, channel: Rc<PeerChannel>) -> Self {
+		Self { io, buf: [0; 256], data: 0..0, channel }
+	}
+}
+
 /// More data that a peer may send on a channel.
 struct Adjust {
 	channel: Rc<PeerChannel>,
@@ -667,6 +709,12 @@ where
 struct PeerChannel {
 	/// The number the peer uses for this channel.
 	id: u32,
+	/// How much data the peer accepts at once.
+	max_packet_size: u32,
+	/// How much data the peer accepts until it extends its window.
+	window: Cell<u32>,
+	/// The streams that wait for the window to be extended.
+	waiting: RefCell<Vec<Waker>>,
 	/// The amount of output streams that have not ended yet.
 	outputs: Cell<usize>,
 	/// Whether the program has exited.
@@ -678,15 +726,52 @@ struct PeerChannel {
 }
 
 impl PeerChannel {
-	fn new(id: u32) -> Self {
+	fn new(id: u32, window: u32, max_packet_size: u32) -> Self {
 		Self {
 			id,
+			max_packet_size,
+			window: Cell::new(window),
+			waiting: RefCell::new(Vec::new()),
 			outputs: Cell::new(0),
 			exited: Cell::new(false),
 			eof: Cell::new(false),
 			closed: Cell::new(false),
 		}
 	}
+
+	/// Wait until the peer accepts data, or until there is no use in waiting any longer.
+	async fn writable(&self) {
+		poll_fn(|cx| {
+			if self.closed.get() || self.window.get().min(self.max_packet_size) > 0 {
+				return Poll::Ready(());
+			}
+			self.waiting.borrow_mut().push(cx.waker().clone());
+			Poll::Pending
+		})
+		.await
+	}
+
+	/// Use up to this much of the window for a single message.
+	fn take_window(&self, amount: usize) -> usize {
+		let amount = u32::try_from(amount).unwrap_or(u32::MAX);
+		let amount = amount.min(self.window.get()).min(self.max_packet_size);
+		self.window.set(self.window.get() - amount);
+		amount as usize
+	}
+
+	fn extend_window(&self, amount: u32) {
+		self.window.set(self.window.get().saturating_add(amount));
+		self.wake();
+	}
+
+	fn close(&self) {
+		self.closed.set(true);
+		self.wake();
+	}
+
+	fn wake(&self) {
+		self.waiting.take().into_iter().for_each(Waker::wake);
+	}
 }
 
 pub struct Channel<Stdin>
-- 
2.43.0


From 4c81187e3224aef5bd52e9815bd10482fa72793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:48 +0000
Subject: [PATCH 25/26] fix: let other tasks run between packets

A program that never runs out of output or a peer that never runs out of
packets kept the server from doing anything else: the loops went on
without ever returning to the executor, so that not even the peer closing
the channel was noticed.
---
 nora_ssh/src/host.rs   |  3 +++
 nora_ssh/src/server.rs |  4 +++-
 nora_ssh/src/sync.rs   | 15 +++++++++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index f241d9a..199b256 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -1,6 +1,7 @@
 use crate::{
 	identifier::{self, ParseIdentError},
 	packet::{self, PacketParseError},
+	sync::yield_now,
 };
 use ecdsa::{
 	hazmat::SignPrimitive, signature::Signer, PrimeCurve, SignatureSize, SigningKey, VerifyingKey,
@@ -369,6 +370,8 @@ impl<D: Cipher> In<D> {
 	where
 		Io: AsyncReadExt + Unpin,
 	{
+		// The peer may never run out of packets.
+		yield_now().await;
 		let (len, data) = buf.split_at_mut(4);
 		io.read_exact(len).await.map_err(InError::Read)?;
 		let lenb = self
diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index a9fb62c..be805ea 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -2,7 +2,7 @@ use crate::{
 	arena::Arena,
 	auth::Auth,
 	host::{self, Host, HostKey, InError, OutError, SignKey},
-	sync::LocalMutex,
+	sync::{yield_now, LocalMutex},
 };
 use core::{
 	cell::{Cell, RefCell},
@@ -480,6 +480,8 @@ where
 					self.send_channel_end(&mut buf, &channel).await.map_err(ReceiveError::Out)?;
 				}
 			}
+			// A program may never run out of output.
+			yield_now().await;
 		}
 	}
 
diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 842dfeb..75b3ccb 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -1,10 +1,25 @@
 use core::{
 	cell::{Cell, RefCell, RefMut},
 	future::Future,
+	mem,
 	ops::{Deref, DerefMut},
 	pin::Pin,
 	task::{Context, Poll, Waker},
 };
+use futures::future::poll_fn;
+
+/// Let others run before going on. Needed in loops that may always have more to do.
+pub async fn yield_now() {
+	let mut yielded = false;
+	poll_fn(|cx| {
+		if mem::replace(&mut yielded, true) {
+			return Poll::Ready(());
+		}
+		cx.waker().wake_by_ref();
+		Poll::Pending
+	})
+	.await
+}
 
 pub struct LocalMutex<T> {
 	inner: RefCell<T>,
-- 
2.43.0


From eb29acc5b7da14fa33effebb0513ffd15e7013cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:42 +0000
Subject: [PATCH 26/26] fix: let other tasks run while waiting for an
 identification

A peer that sent lines without end in place of its identification kept
everyone else from being served.
---
 nora_ssh/src/identifier.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nora_ssh/src/identifier.rs b/nora_ssh/src/identifier.rs
index ad74def..0a0f91b 100644
--- a/nora_ssh/src/identifier.rs
+++ b/nora_ssh/src/identifier.rs
@@ -1,3 +1,4 @@
+use crate::sync::yield_now;
 use core::slice;
 use futures::io;
 use nora_ssh_core::identifier::Identifier;
@@ -23,6 +24,8 @@ where
 	}
 	let mut state = State::EolLf;
 	loop {
+		// The peer may never run out of lines.
+		yield_now().await;
 		let mut b = 0;
 		io.read_exact(slice::from_mut(&mut b))
 			.await
-- 
2.43.0

