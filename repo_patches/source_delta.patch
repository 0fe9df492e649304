From cff68a2dec351d7ab7831403a7b7c9a0255b756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:25 +0000
Subject: [PATCH 01/13] fix: never build a session from a bundle whose identity
 key is not the one known for the device

Trust is evaluated for the identity key on record. A bundle with another identity key was nevertheless used
to build the session during encryption, so a message could be encrypted for a key that was never trusted.
---
 omemo/session_manager.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index c5fc7d3..cdfab41 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1896,19 +1896,31 @@ class SessionManager(ABC):
 
                 try:
                     # Build the session if necessary, and encrypt the key material
-                    session, encrypted_key_material = await backend.build_session_active(
-                        device.bare_jid,
-                        device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
+                    if session is None:
+                        if bundle is None:
+                            bundle = await self._download_bundle(
+                                backend.namespace,
+                                device.bare_jid,
+                                device.device_id
+                            )
+
+                        # Trust was evaluated for the known identity key, don't build a session with another
+                        if bundle.identity_key != device.identity_key:
+                            raise KeyExchangeFailed(
+                                "The identity key of the bundle doesn't match the one known for the device."
+                            )
+
+                        session, encrypted_key_material = await backend.build_session_active(
                             device.bare_jid,
-                            device.device_id
-                        ) if bundle is None else bundle,
-                        plain_key_material
-                    ) if session is None else (session, await backend.encrypt_key_material(
-                        session,
-                        plain_key_material
-                    ))
+                            device.device_id,
+                            bundle,
+                            plain_key_material
+                        )
+                    else:
+                        encrypted_key_material = await backend.encrypt_key_material(
+                            session,
+                            plain_key_material
+                        )
                 except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                     # Those failures are non-critical, i.e. encryption for other devices is still performed
                     # and the errors are simply collected and returned.
-- 
2.43.0


From 575ca56de61b53f357bba1421bfcc8cec651c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:06 +0000
Subject: [PATCH 02/13] fix: device information stays available if a device is
 known from a namespace that is not loaded

Identity keys that are not known yet are looked up in the bundles of all namespaces of a device. For a
namespace whose backend is not loaded anymore, the download may raise UnknownNamespace, which made
get_device_information, encrypt and create fail.
---
 omemo/session_manager.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index cdfab41..27abf77 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1439,6 +1439,13 @@ class SessionManager(ABC):
                             f" namespace {namespace}.",
                             exc_info=True
                         )
+                    except UnknownNamespace:
+                        # The device may be known from a backend that is not currently loaded
+                        logging.getLogger(SessionManager.LOG_TAG).warning(
+                            f"Can't download the bundle of device {device_id} of bare JID {bare_jid}: the"
+                            f" namespace {namespace} is not known.",
+                            exc_info=True
+                        )
                     else:
                         logging.getLogger(SessionManager.LOG_TAG).debug(
                             f"Identity key information extracted from bundle of namespace {namespace}."
-- 
2.43.0


From 292ddb471e9fb0b2a876be47cdc2c3da1368d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:16 +0000
Subject: [PATCH 03/13] fix: persist the session before handing an empty
 message to the transport

If sending succeeded but storing the session failed or the process died in between, the next message of the
session was encrypted with a message key that had already been used.
---
 omemo/session_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 27abf77..bf53ca7 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1645,6 +1645,8 @@ class SessionManager(ABC):
 
         content, plain_key_material = await backend.encrypt_empty()
         encrypted_key_material = await backend.encrypt_key_material(session, plain_key_material)
+        # Persist the session before sending, to never use the same message key twice
+        await backend.store_session(session)
         await self._send_message(Message(
             backend.namespace,
             self.__own_bare_jid,
@@ -1656,7 +1658,6 @@ class SessionManager(ABC):
                 else None
             )) })
         ), session.bare_jid)
-        await backend.store_session(session)
 
     async def encrypt(
         self,
-- 
2.43.0


From 7ec7e4803724b006b27040da4d0e621e6486222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:07 +0000
Subject: [PATCH 04/13] fix: resume an interrupted setup instead of leaving the
 device unpublished

---
 omemo/session_manager.py | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index bf53ca7..f9e52b5 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -376,16 +376,11 @@ class SessionManager(ABC):
             ))
             logging.getLogger(SessionManager.LOG_TAG).debug(f"Generated device id: {self.__own_device_id}")
 
-            # Store the device information for this device
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                [ backend.namespace for backend in self.__backends ]
-            )
-
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { backend.namespace: True for backend in self.__backends }
-            )
+            # Store the device information for this device. The namespaces are recorded one by one when the device
+            # list is refreshed, following the publication of the corresponding bundle, such that an interrupted
+            # setup is resumed by the next run.
+            await storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces", [])
+            await storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active", {})
 
             await storage.store(
                 f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
@@ -438,19 +433,8 @@ class SessionManager(ABC):
                 f" {loaded_namespaces} vs. {active_namespaces} (now vs. previous run)"
             )
 
-            # Set the device active for all loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { namespace: True for namespace in loaded_namespaces }
-            )
-
-            # Store the updated list of loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                list(loaded_namespaces)
-            )
-
-            # Take care of the initialization of newly added backends
+            # Take care of the initialization of newly added backends. Refreshing the device list records the
+            # namespace, purging a removed backend removes it, both as one of the last steps.
             for backend in self.__backends:
                 if backend.namespace not in active_namespaces:
                     # Refill pre keys if necessary
-- 
2.43.0


From 1dc7772de4e1cbc668a95e9ece6fbb667f02c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:41 +0000
Subject: [PATCH 05/13] fix: a purge of a bare JID can be repeated after an
 interruption without leaving trust behind

---
 omemo/session_manager.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index f9e52b5..f1aa069 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -582,6 +582,13 @@ class SessionManager(ABC):
             except NothingException:
                 pass
 
+        # Delete information about the identity keys. This has to happen before the identity keys themselves are
+        # deleted, such that an interrupted purge can be repeated.
+        for identity_key in identity_keys:
+            await storage.delete(
+                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
+            )
+
         # Delete information about the individual devices
         for device_id in device_list:
             await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
@@ -592,12 +599,6 @@ class SessionManager(ABC):
         # Delete the device list
         await storage.delete(f"/devices/{bare_jid}/list")
 
-        # Delete information about the identity keys
-        for identity_key in identity_keys:
-            await storage.delete(
-                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
-            )
-
         # Remove backend-specific data
         for backend in self.__backends:
             await backend.purge_bare_jid(bare_jid)
-- 
2.43.0


From f70c4fa1fcf937cfdfeb32a70c3978c4eabb4079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:47 +0000
Subject: [PATCH 06/13] fix: overlapping storage operations never leave an
 outdated value in the cache

---
 omemo/storage.py | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/omemo/storage.py b/omemo/storage.py
index 4f344c3..6c221f6 100644
--- a/omemo/storage.py
+++ b/omemo/storage.py
@@ -4,7 +4,7 @@ from __future__ import annotations  # pylint: disable=unused-variable
 from abc import ABC, abstractmethod
 import base64
 import copy
-from typing import Callable, Dict, Generic, List, Optional, Type, TypeVar, Union, cast
+from typing import Awaitable, Callable, Dict, Generic, List, Optional, Type, TypeVar, Union, cast
 
 from .types import JSONType, OMEMOException
 
@@ -189,6 +189,9 @@ class Storage(ABC):
 
         self.__cache: Optional[Dict[str, Maybe[JSONType]]] = None if disable_cache else {}
 
+        # A token per key, replaced whenever a write begins or ends, to recognize overlapping operations.
+        self.__write_tokens: Dict[str, object] = {}
+
     @abstractmethod
     async def _load(self, key: str) -> Maybe[JSONType]:
         """
@@ -247,11 +250,41 @@ class Storage(ABC):
         if self.__cache is not None and key in self.__cache:
             return self.__cache[key]
 
+        token = self.__write_tokens.get(key, None)
         value = await self._load(key)
-        if self.__cache is not None:
+        # Only cache the value if it can't be outdated
+        if self.__cache is not None and self.__write_tokens.get(key, None) is token:
             self.__cache[key] = value
         return value
 
+    async def __write(self, key: str, write: Awaitable[None], value: Maybe[JSONType]) -> None:
+        """
+        Perform a write (or deletion) operation and update the cache accordingly.
+
+        Args:
+            key: The key identifying the value.
+            write: The write operation.
+            value: What the storage holds for the key following the write operation.
+        """
+
+        if self.__cache is None:
+            await write
+            return
+
+        token = self.__write_tokens[key] = object()
+        self.__cache.pop(key, None)
+        successful = False
+        try:
+            await write
+            successful = True
+        finally:
+            # If another write overlapped with this one, it's not known which of them came last.
+            if successful and self.__write_tokens[key] is token:
+                self.__cache[key] = value
+            else:
+                self.__cache.pop(key, None)
+            self.__write_tokens[key] = object()
+
     async def store(self, key: str, value: JSONType) -> None:
         """
         Store a value.
@@ -264,10 +297,7 @@ class Storage(ABC):
             StorageException: if any kind of storage operation failed. Forwarded from :meth:`_store`.
         """
 
-        await self._store(key, value)
-
-        if self.__cache is not None:
-            self.__cache[key] = Just(value)
+        await self.__write(key, self._store(key, value), Just(value))
 
     async def delete(self, key: str) -> None:
         """
@@ -281,10 +311,7 @@ class Storage(ABC):
                 exist. Forwarded from :meth:`_delete`.
         """
 
-        await self._delete(key)
-
-        if self.__cache is not None:
-            self.__cache[key] = Nothing()
+        await self.__write(key, self._delete(key), Nothing())
 
     async def store_bytes(self, key: str, value: bytes) -> None:
         """
-- 
2.43.0


From 90c593dbd680947e6a519b6c5d445932ac43bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:01 +0000
Subject: [PATCH 07/13] fix: back off between attempts to publish a rotated
 signed pre key

The delay was reset to one minute in every iteration, so that doubling it had no effect.
---
 omemo/session_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index f1aa069..5087fd6 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -661,8 +661,8 @@ class SessionManager(ABC):
 
                     # Rotate the signed pre if necessary
                     await backend.rotate_signed_pre_key()
+                    retry_delay = 60  # Start with one minute of retry delay
                     while True:
-                        retry_delay = 60  # Start with one minute of retry delay
                         try:
                             await self._upload_bundle(await backend.get_bundle(
                                 self.__own_bare_jid,
-- 
2.43.0


From 5fdfabf937bcd832c21e1e8dfbacca7c50286b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:56 +0000
Subject: [PATCH 08/13] fix: do not publish the bundle of a backend that was
 purged while its publication was retried

---
 omemo/session_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 5087fd6..4a69b0e 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -650,6 +650,10 @@ class SessionManager(ABC):
 
             # For each backend, check whether the signed pre key is due for rotation
             for backend in self.__backends:
+                # The backend may have been purged while another backend was being taken care of
+                if backend not in self.__backends:
+                    continue
+
                 signed_pre_key_age = await backend.signed_pre_key_age()
                 next_rotation = signed_pre_key_rotation_period - signed_pre_key_age
 
@@ -662,7 +666,7 @@ class SessionManager(ABC):
                     # Rotate the signed pre if necessary
                     await backend.rotate_signed_pre_key()
                     retry_delay = 60  # Start with one minute of retry delay
-                    while True:
+                    while backend in self.__backends:
                         try:
                             await self._upload_bundle(await backend.get_bundle(
                                 self.__own_bare_jid,
-- 
2.43.0


From d809e8f33bb177ab79fcbd272123a04667138489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:29 +0000
Subject: [PATCH 09/13] fix: never replace a session with one that belongs to
 another identity key

---
 omemo/session_manager.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 4a69b0e..e242332 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1224,15 +1224,23 @@ class SessionManager(ABC):
                     # Prepare an empty message
                     content, plain_key_material = await backend.encrypt_empty()
 
+                    bundle = await self._download_bundle(
+                        backend.namespace,
+                        device.bare_jid,
+                        device.device_id
+                    )
+
+                    # Don't replace the session with one that belongs to another identity key
+                    if bundle.identity_key != device.identity_key:
+                        raise KeyExchangeFailed(
+                            "The identity key of the bundle doesn't match the one known for the device."
+                        )
+
                     # Build a new session to replace the old one
                     session, encrypted_key_material = await backend.build_session_active(
                         device.bare_jid,
                         device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
-                            device.bare_jid,
-                            device.device_id
-                        ),
+                        bundle,
                         plain_key_material
                     )
 
-- 
2.43.0


From ef3a625ff00396e7a67627c275288b68c484fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:20 +0000
Subject: [PATCH 10/13] fix: accept a per-message limit of skipped keys between
 one and the per-session limit

Due to operator precedence every nonzero limit was rejected.
---
 omemo/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/backend.py b/omemo/backend.py
index 2e15ebc..4442b22 100644
--- a/omemo/backend.py
+++ b/omemo/backend.py
@@ -111,7 +111,7 @@ class Backend(ABC):
                 " skipped keys to keep is nonzero."
             )
 
-        if max_num_per_message_skipped_keys or 0 > max_num_per_session_skipped_keys:
+        if not 0 <= (max_num_per_message_skipped_keys or 0) <= max_num_per_session_skipped_keys:
             raise ValueError(
                 "The number of allowed per-message skipped keys must not be greater than the number of"
                 " per-session skipped keys to keep."
-- 
2.43.0


From f5dce8ececde132763af101ce94a476e3137eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:31 +0000
Subject: [PATCH 11/13] fix: a purge of a backend can be repeated if removing
 its offline data failed

---
 omemo/session_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index e242332..b191ad0 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -532,9 +532,7 @@ class SessionManager(ABC):
             list(device.namespaces)
         )
 
-        # If the backend is currently loaded, remove it from the list of loaded backends
         purged_backend = next(filter(lambda backend: backend.namespace == namespace, self.__backends), None)
-        self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))
 
         # Remaining backend-specific offline data removal
         if purged_backend is None:
@@ -549,6 +547,10 @@ class SessionManager(ABC):
             )
             await purged_backend.purge()
 
+        # If the backend is currently loaded, remove it from the list of loaded backends. Only done now, such that
+        # the purge can be repeated if removing the backend-specific offline data failed.
+        self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))
+
         # Second half of online data removal: delete the bundle of this device. This step has low priority,
         # thus done last.
         await self._delete_bundle(namespace, self.__own_device_id)
-- 
2.43.0


From 96319b9573f5ea85cabf8773d24bee2add3c6e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:40 +0000
Subject: [PATCH 12/13] fix: a queued empty message that can't be sent no
 longer drops the remaining ones

after_history_sync removed the queue and then stopped at the first message that
could not be sent, so the empty messages due for all other sessions were lost.
---
 omemo/session_manager.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index b191ad0..921ae7b 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1579,6 +1579,8 @@ class SessionManager(ABC):
 
         storage = self.__storage
 
+        sending_failed: Optional[MessageSendingFailed] = None
+
         self.__synchronizing = False
 
         # Delete pre keys that were hidden while in history synchronization mode
@@ -1617,7 +1619,14 @@ class SessionManager(ABC):
                     else:
                         # It is theoretically possible that the session has been deleted after an empty
                         # message was queued for it.
-                        await self.__send_empty_message(backend, session)
+                        try:
+                            await self.__send_empty_message(backend, session)
+                        except MessageSendingFailed as e:
+                            # Still send the remaining queued empty messages before reporting the failure
+                            sending_failed = e
+
+        if sending_failed is not None:
+            raise sending_failed
 
         logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
 
-- 
2.43.0


From e4246b8ed3679e1ce7aa7bcb406dc3d7f6b43550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 13/13] fix: resume the removal of a backend that was
 interrupted

---
 omemo/session_manager.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 921ae7b..9105e0c 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -426,15 +426,15 @@ class SessionManager(ABC):
         # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
         device, _ = await self.get_own_device_information()
         loaded_namespaces = frozenset(backend.namespace for backend in self.__backends)
-        active_namespaces = device.namespaces
-        if loaded_namespaces != active_namespaces:
+        active_namespaces = device.namespaces & frozenset(namespace for namespace, active in device.active if active)
+        if loaded_namespaces != active_namespaces or loaded_namespaces != device.namespaces:
             logging.getLogger(SessionManager.LOG_TAG).info(
                 "The list of backends loaded now differs from the list of backends that were loaded last run:"
                 f" {loaded_namespaces} vs. {active_namespaces} (now vs. previous run)"
             )
 
             # Take care of the initialization of newly added backends. Refreshing the device list records the
-            # namespace, purging a removed backend removes it, both as one of the last steps.
+            # namespace as active, purging a removed backend removes it, both as one of the last steps.
             for backend in self.__backends:
                 if backend.namespace not in active_namespaces:
                     # Refill pre keys if necessary
@@ -453,7 +453,7 @@ class SessionManager(ABC):
                     await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
 
             # Perform cleanup of removed backends
-            for namespace in active_namespaces - loaded_namespaces:
+            for namespace in device.namespaces - loaded_namespaces:
                 await self.purge_backend(namespace)
 
         # Start signed pre key rotation management "in the background"
@@ -518,19 +518,9 @@ class SessionManager(ABC):
         # Synchronize the offline device list with the online information
         device, _ = await self.get_own_device_information()
         active = dict(device.active)
-        active.pop(namespace, None)
-        device = device._replace(namespaces=device.namespaces - frozenset([ namespace ]))
-        device = device._replace(active=frozenset(active.items()))
-
-        await self.__storage.store(
-            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-            dict(device.active)
-        )
-
-        await self.__storage.store(
-            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-            list(device.namespaces)
-        )
+        if namespace in active:
+            active[namespace] = False
+            await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active", active)
 
         purged_backend = next(filter(lambda backend: backend.namespace == namespace, self.__backends), None)
 
@@ -555,6 +545,14 @@ class SessionManager(ABC):
         # thus done last.
         await self._delete_bundle(namespace, self.__own_device_id)
 
+        # Forget about the namespace as the final step, such that an interrupted removal is resumed by the next run.
+        active.pop(namespace, None)
+        await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active", active)
+        await self.__storage.store(
+            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
+            list(device.namespaces - frozenset([ namespace ]))
+        )
+
         logging.getLogger(SessionManager.LOG_TAG).info(f"Backend {namespace} purged.")
 
     async def purge_bare_jid(self, bare_jid: str) -> None:
-- 
2.43.0

