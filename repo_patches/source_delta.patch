From ceb97bcad73c533e3c1c34afa4c4033ca321d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:46 +0000
Subject: [PATCH 01/46] fix: FDB::read adds each field to the deduplicating
 hypercube under its own key

---
 src/fdb5/api/FDB.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/api/FDB.cc b/src/fdb5/api/FDB.cc
index d5f914d..1a478f8 100644
--- a/src/fdb5/api/FDB.cc
+++ b/src/fdb5/api/FDB.cc
@@ -242,7 +242,7 @@ eckit::DataHandle* FDB::read(ListIterator& it, bool sorted) {
             ListElementDeduplicator deduplicator;
             metkit::hypercube::HyperCubePayloaded<ListElement> cube(cubeRequest, deduplicator);
             for (const auto& elem : elements) {
-                cube.add(elem.combinedKey().request(), el);
+                cube.add(elem.combinedKey().request(), elem);
             }
 
             if (cube.countVacant() > 0) {
-- 
2.43.0


From 532787aa55d39266959b53f4306cb30f8447e738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 02/46] fix: WipeState::markAsSafe protects data that was
 marked for deletion before

---
 src/fdb5/database/WipeState.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/database/WipeState.h b/src/fdb5/database/WipeState.h
index a7efc7f..e6a0acb 100644
--- a/src/fdb5/database/WipeState.h
+++ b/src/fdb5/database/WipeState.h
@@ -68,7 +68,15 @@ public:
     bool isMarkedForDeletion(const eckit::URI& uri) const;
     bool isMarkedSafe(const eckit::URI& uri) const;
 
-    void markAsSafe(const std::set<eckit::URI>& uris) { safeURIs_.insert(uris.begin(), uris.end()); }
+    /// A safe URI is never deleted, even if it has been marked for deletion before (e.g. data referred to by two indexes)
+    void markAsSafe(const std::set<eckit::URI>& uris) {
+        safeURIs_.insert(uris.begin(), uris.end());
+        for (auto& [type, marked] : deleteURIs_) {
+            for (const auto& uri : uris) {
+                marked.erase(uri);
+            }
+        }
+    }
 
     void markForDeletion(WipeElementType type, const std::set<eckit::URI>& uris) {
         for (const auto& uri : uris) {
-- 
2.43.0


From 20294e39f14824ee194181438782c644663bc536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:39 +0000
Subject: [PATCH 03/46] fix: purge skips a database that is locked for wiping

---
 src/fdb5/api/local/PurgeVisitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fdb5/api/local/PurgeVisitor.cc b/src/fdb5/api/local/PurgeVisitor.cc
index 789386c..48ec687 100644
--- a/src/fdb5/api/local/PurgeVisitor.cc
+++ b/src/fdb5/api/local/PurgeVisitor.cc
@@ -75,6 +75,12 @@ void PurgeVisitor::visitDatum(const Field& field, const std::string& keyFingerpr
 }
 
 void PurgeVisitor::catalogueComplete(const Catalogue& catalogue) {
+
+    // n.b. visitDatabase rejected this DB (it is locked), so there is nothing to purge
+    if (!internalVisitor_) {
+        return;
+    }
+
     internalVisitor_->catalogueComplete(catalogue);
 
     internalVisitor_->gatherAuxiliaryURIs();
-- 
2.43.0


From 4bd4d98456ce071885552735fa66a26c6932d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:39 +0000
Subject: [PATCH 04/46] fix: the catalogue server refuses to archive into a
 database locked for archiving

---
 src/fdb5/remote/server/CatalogueHandler.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index 28cbfd8..e1963f2 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -582,11 +582,21 @@ bool CatalogueHandler::remove(bool control, uint32_t clientID) {
 
 CatalogueWriter& CatalogueHandler::catalogue(uint32_t id, const Key& dbKey) {
     std::lock_guard<std::mutex> lock(handlerMutex_);
+
+    CatalogueArchiver archiver(!single_, dbKey, config_);
+
+    // If this database is locked for archival then raise an exception (as a local archive does)
+    if (!archiver.catalogue->enabled(ControlIdentifier::Archive)) {
+        std::ostringstream ss;
+        ss << "Database " << *archiver.catalogue << " matches for key " << dbKey << " but is locked for archival";
+        throw eckit::UserError(ss.str(), Here());
+    }
+
     numControlConnection_++;
     if (!single_) {
         numDataConnection_++;
     }
-    return *((catalogues_.emplace(id, CatalogueArchiver(!single_, dbKey, config_)).first)->second.catalogue);
+    return *((catalogues_.emplace(id, std::move(archiver)).first)->second.catalogue);
 }
 
 const CatalogueHandler::WipeInProgress& CatalogueHandler::cachedWipeState(Key dbKey) const {
-- 
2.43.0


From 07bd1e43069af4d43aae9cd84cfd87275a9fe924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:39 +0000
Subject: [PATCH 05/46] fix: the catalogue server decodes the set of unknown
 URIs a client asks to wipe

---
 src/fdb5/remote/server/CatalogueHandler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index e1963f2..325ca6a 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -627,7 +627,8 @@ void CatalogueHandler::doWipeUnknowns(uint32_t clientID, uint32_t requestID, eck
     Key dbKey(s);
     const WipeInProgress& currentWipe = cachedWipeState(dbKey);
 
-    std::set<eckit::URI> rec_unknownURIs{s};
+    std::set<eckit::URI> rec_unknownURIs;
+    s >> rec_unknownURIs;
 
     // The client should not talk to us unless there are unknown URIs to wipe.
     ASSERT(!rec_unknownURIs.empty());
-- 
2.43.0


From 04f6d38c92455c43352974d8a6db718d105b1e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 06/46] fix: the metadata of a field are checked before it is
 written

---
 src/fdb5/database/Archiver.cc | 2 --
 src/fdb5/rules/Rule.cc        | 3 +++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/database/Archiver.cc b/src/fdb5/database/Archiver.cc
index 47051c8..077b23b 100644
--- a/src/fdb5/database/Archiver.cc
+++ b/src/fdb5/database/Archiver.cc
@@ -55,8 +55,6 @@ void Archiver::archive(const Key& key, BaseArchiveVisitor& visitor) {
         oss << "FDB: Could not find a rule to archive " << key;
         throw eckit::SeriousBug(oss.str());
     }
-    // validate metadata
-    rule->check(key);
 }
 
 void Archiver::flushDatabase(Database& db) {
diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 43cffe5..cc7d660 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -562,6 +562,9 @@ bool RuleDatum::expand(const Key& field, WriteVisitor& visitor, Key& full) const
             throw eckit::SeriousBug(oss.str());
         }
 
+        // validate metadata (before anything gets written)
+        check(field);
+
         if (visitor.selectDatum(*key, full)) {
             visitor.rule(this);
             static const bool matchFirstFdbRule = eckit::Resource<bool>("matchFirstFdbRule", true);
-- 
2.43.0


From aac9e9fc35dc3c94234ad2c385bc333239f3078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 07/46] fix: naming a database directory does not dereference
 an uninitialised iterator

---
 src/fdb5/toc/RootManager.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 47e3489..1b1d54a 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -134,7 +134,6 @@ private:  // methods
         size_t len = s.length();
         bool var = false;
         std::string word;
-        std::map<std::string, std::string>::const_iterator j;
 
         for (size_t i = 0; i < len; i++) {
             switch (s[i]) {
@@ -166,7 +165,7 @@ private:  // methods
                                 result += keyregex_.find(word)->second;
                             }
                             else {
-                                result += (*j).second;
+                                result += iter->second;
                             }
                         }
                     }
-- 
2.43.0


From 359e667f1a4fa33c61778e176181077048aa7381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 08/46] fix: a moved database finds its data whatever names its
 directory

TocStore::moveTo named the destination after the key, whereas the catalogue is moved into a directory with the
name of the source: with an fdb-namer (dbnames) the table of contents was separated from the data.
---
 src/fdb5/toc/TocStore.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 52d72af..5f0d353 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -358,7 +358,7 @@ void TocStore::moveTo(const Key& key, const Config& config, const eckit::URI& de
     for (const eckit::PathName& root : StoreRootManager(config).canMoveToRoots(key)) {
         if (root.sameAs(destPath)) {
             eckit::PathName src_db = directory_;
-            eckit::PathName dest_db = destPath / key.valuesToString();
+            eckit::PathName dest_db = destPath / src_db.baseName(true);
 
             dest_db.mkdir();
             DIR* dirp = ::opendir(src_db.asString().c_str());
-- 
2.43.0


From ae3e5423c4d329bfe84fa48eae44c3241390a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 09/46] fix: fdb_delete_handle reports a failing flush instead
 of terminating the process

---
 src/fdb5/api/fdb_c.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fdb5/api/fdb_c.cc b/src/fdb5/api/fdb_c.cc
index a8a301d..918bd69 100644
--- a/src/fdb5/api/fdb_c.cc
+++ b/src/fdb5/api/fdb_c.cc
@@ -560,6 +560,8 @@ int fdb_delete_purge_iterator(fdb_purge_iterator_t* it) {
 int fdb_delete_handle(fdb_handle_t* fdb) {
     return wrapApiFunction([fdb] {
         ASSERT(fdb);
+        // a failure must be reported, and cannot be from the destructor
+        fdb->flush();
         delete fdb;
     });
 }
-- 
2.43.0


From 61b65eeaea0b30d499bce67209af336b12b34683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 10/46] fix: the C interface reports null pointers as errors in
 every function

---
 src/fdb5/api/fdb_c.cc | 46 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/fdb5/api/fdb_c.cc b/src/fdb5/api/fdb_c.cc
index 918bd69..a25d61c 100644
--- a/src/fdb5/api/fdb_c.cc
+++ b/src/fdb5/api/fdb_c.cc
@@ -385,20 +385,32 @@ int fdb_set_failure_handler(fdb_failure_handler_t handler, void* context) {
 }
 
 int fdb_version(const char** version) {
-    return wrapApiFunction([version] { (*version) = fdb5_version_str(); });
+    return wrapApiFunction([version] {
+        ASSERT(version);
+        (*version) = fdb5_version_str();
+    });
 }
 
 int fdb_vcs_version(const char** sha1) {
-    return wrapApiFunction([sha1] { (*sha1) = fdb5_git_sha1(); });
+    return wrapApiFunction([sha1] {
+        ASSERT(sha1);
+        (*sha1) = fdb5_git_sha1();
+    });
 }
 
 
 int fdb_new_handle(fdb_handle_t** fdb) {
-    return wrapApiFunction([fdb] { *fdb = new fdb_handle_t(); });
+    return wrapApiFunction([fdb] {
+        ASSERT(fdb);
+        *fdb = new fdb_handle_t();
+    });
 }
 
 int fdb_new_handle_from_yaml(fdb_handle_t** fdb, const char* system_config, const char* user_config) {
     return wrapApiFunction([fdb, system_config, user_config] {
+        ASSERT(fdb);
+        ASSERT(system_config);
+        ASSERT(user_config);
         Config cfg{YAMLConfiguration(std::string(system_config)), YAMLConfiguration(std::string(user_config))};
         cfg.set("configSource", "yaml");
         cfg.expandConfig();
@@ -569,7 +581,10 @@ int fdb_delete_handle(fdb_handle_t* fdb) {
 /** ancillary functions for creating/destroying FDB objects */
 
 int fdb_new_key(fdb_key_t** key) {
-    return wrapApiFunction([key] { *key = new fdb_key_t(); });
+    return wrapApiFunction([key] {
+        ASSERT(key);
+        *key = new fdb_key_t();
+    });
 }
 int fdb_key_add(fdb_key_t* key, const char* param, const char* value) {
     return wrapApiFunction([key, param, value] {
@@ -588,7 +603,10 @@ int fdb_delete_key(fdb_key_t* key) {
 }
 
 int fdb_new_request(fdb_request_t** req) {
-    return wrapApiFunction([req] { *req = new fdb_request_t("retrieve"); });
+    return wrapApiFunction([req] {
+        ASSERT(req);
+        *req = new fdb_request_t("retrieve");
+    });
 }
 int fdb_request_add(fdb_request_t* req, const char* param, const char* values[], int numValues) {
     return wrapApiFunction([req, param, values, numValues] {
@@ -602,11 +620,16 @@ int fdb_request_get(fdb_request_t* req, const char* param, char** values[], size
     return wrapApiFunction([req, param, values, numValues] {
         ASSERT(req);
         ASSERT(param);
+        ASSERT(values);
+        ASSERT(numValues);
         *numValues = req->values(param, values);
     });
 }
 int fdb_expand_request(fdb_request_t* req) {
-    return wrapApiFunction([req] { req->expand(); });
+    return wrapApiFunction([req] {
+        ASSERT(req);
+        req->expand();
+    });
 }
 int fdb_delete_request(fdb_request_t* req) {
     return wrapApiFunction([req] {
@@ -645,7 +668,10 @@ int fdb_delete_listiterator(fdb_listiterator_t* it) {
 }
 
 int fdb_new_splitkey(fdb_split_key_t** key) {
-    return wrapApiFunction([key] { *key = new fdb_split_key_t(); });
+    return wrapApiFunction([key] {
+        ASSERT(key);
+        *key = new fdb_split_key_t();
+    });
 }
 
 int fdb_splitkey_next_metadata(fdb_split_key_t* it, const char** key, const char** value, size_t* level) {
@@ -668,7 +694,10 @@ int fdb_delete_splitkey(fdb_split_key_t* key) {
 }
 
 int fdb_new_datareader(fdb_datareader_t** dr) {
-    return wrapApiFunction([dr] { *dr = new fdb_datareader_t(); });
+    return wrapApiFunction([dr] {
+        ASSERT(dr);
+        *dr = new fdb_datareader_t();
+    });
 }
 int fdb_datareader_open(fdb_datareader_t* dr, long* size) {
     return wrapApiFunction([dr, size] {
@@ -716,6 +745,7 @@ int fdb_datareader_read(fdb_datareader_t* dr, void* buf, long count, long* read)
 int fdb_datareader_size(fdb_datareader_t* dr, long* size) {
     return wrapApiFunction([=] {
         ASSERT(dr);
+        ASSERT(size);
         *size = dr->size();
     });
 }
-- 
2.43.0


From 5e047b6ded2107efb1bb64868b60f0c8c4e02310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 11/46] fix: a store server does not mix up the wipes of one
 connection

The state of a wipe that was given up was kept for the next wipe of any database on the same connection, which then
deleted the data of the former and left the data of the latter.
---
 src/fdb5/remote/server/StoreHandler.cc | 17 +++++++++--------
 src/fdb5/remote/server/StoreHandler.h  |  5 +++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index a616a8a..7f306bb 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -353,7 +353,7 @@ void StoreHandler::doWipeUnknowns(const uint32_t clientID, const uint32_t reques
     eckit::MemoryStream s(payload);
     Key key(s);
 
-    const WipeInProgress& currentWipe = cachedWipeState(key);
+    const WipeInProgress& currentWipe = cachedWipeState(clientID, key);
 
     std::set<eckit::URI> uris{s};
 
@@ -382,7 +382,7 @@ void StoreHandler::doWipeURIs(const uint32_t clientID, const uint32_t requestID,
     eckit::MemoryStream s(payload);
     Key key(s);
 
-    const WipeInProgress& currentWipe = cachedWipeState(key);
+    const WipeInProgress& currentWipe = cachedWipeState(clientID, key);
 
     auto& store = getStore(clientID);
     store.doWipeURIs(*currentWipe.state);
@@ -392,14 +392,14 @@ void StoreHandler::doWipeFinish(const uint32_t clientID, const uint32_t requestI
     eckit::MemoryStream s(payload);
     Key key(s);
 
-    const WipeInProgress& currentWipe = cachedWipeState(key);
+    const WipeInProgress& currentWipe = cachedWipeState(clientID, key);
 
     // Delete empty DBs and finish the wipe.
 
     auto& store = getStore(clientID);
     store.doWipeEmptyDatabase();
 
-    wipesInProgress_.erase(key);
+    wipesInProgress_.erase({clientID, key});
 }
 
 void StoreHandler::doUnsafeFullWipe(const uint32_t clientID, const uint32_t requestID, const eckit::Buffer& payload) {
@@ -407,7 +407,7 @@ void StoreHandler::doUnsafeFullWipe(const uint32_t clientID, const uint32_t requ
     MemoryStream s(payload);
     Key key(s);
 
-    const WipeInProgress& currentWipe = cachedWipeState(key);
+    const WipeInProgress& currentWipe = cachedWipeState(clientID, key);
 
     auto& store = getStore(clientID);
     bool fullWipeSupported = store.doUnsafeFullWipe();
@@ -419,8 +419,8 @@ void StoreHandler::doUnsafeFullWipe(const uint32_t clientID, const uint32_t requ
     write(Message::Received, true, clientID, requestID, boolBuf.data(), stream.position());
 }
 
-const StoreHandler::WipeInProgress& StoreHandler::cachedWipeState(const Key& uri) const {
-    auto it = wipesInProgress_.find(uri);
+const StoreHandler::WipeInProgress& StoreHandler::cachedWipeState(uint32_t clientID, const Key& key) const {
+    auto it = wipesInProgress_.find({clientID, key});
     ASSERT(it != wipesInProgress_.end());
     return it->second;
 }
@@ -476,7 +476,8 @@ void StoreHandler::finaliseWipeState(const uint32_t clientID, const uint32_t req
     // keep state for doWipeURIs
     if (doit) {
         ASSERT(!unsafeAll);  // Until Im explicitly told otherwise, we dont support unsafeAll on remote fdb.
-        wipesInProgress_.emplace(dbkey, WipeInProgress{unsafeAll, std::move(storeState)});
+        wipesInProgress_.insert_or_assign(std::make_pair(clientID, dbkey),
+                                          WipeInProgress{unsafeAll, std::move(storeState)});
     }
 }
 
diff --git a/src/fdb5/remote/server/StoreHandler.h b/src/fdb5/remote/server/StoreHandler.h
index 8b4f10a..516c612 100644
--- a/src/fdb5/remote/server/StoreHandler.h
+++ b/src/fdb5/remote/server/StoreHandler.h
@@ -56,7 +56,7 @@ private:  // methods
     void doWipeFinish(const uint32_t clientID, const uint32_t requestID, const eckit::Buffer& payload);
     void doUnsafeFullWipe(const uint32_t clientID, const uint32_t requestID, const eckit::Buffer& payload);
 
-    const WipeInProgress& cachedWipeState(const Key& uri) const;
+    const WipeInProgress& cachedWipeState(uint32_t clientID, const Key& key) const;
 
     Store& getStore(uint32_t clientID);
     Store& store(uint32_t clientID, const Key& dbKey);
@@ -73,7 +73,8 @@ private:  // members
         std::unique_ptr<StoreWipeState> state;
     };
 
-    std::map<Key, WipeInProgress> wipesInProgress_;
+    // (clientID, database) --> wipe. n.b. the stores of different databases are distinct clients on one connection
+    std::map<std::pair<uint32_t, Key>, WipeInProgress> wipesInProgress_;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 6ecdb5ec42442dc65a4cc031ed9a159ce1b014d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 12/46] fix: a failed control request fails that request, with
 the server's explanation

Errors arrive on the data connection, where the pending request was never looked up: a request to a store waited for
ever. The text of the error was dropped (Buffer::copy copies into the buffer), and each error was sent twice, the
second one tearing the connection down.
---
 src/fdb5/api/RemoteFDB.cc                  |  4 +---
 src/fdb5/remote/client/ClientConnection.cc | 27 ++++++++++++++--------
 src/fdb5/remote/client/RemoteStore.cc      |  4 +---
 src/fdb5/remote/server/CatalogueHandler.cc |  4 ++--
 src/fdb5/remote/server/ServerConnection.cc |  4 ++--
 src/fdb5/remote/server/StoreHandler.cc     |  4 ++--
 6 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index b659412..48e312a 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -404,9 +404,7 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
                 // goes out of scope in the worker thread).
                 messageQueues_.erase(iter);
             }
-            std::string msg;
-            msg.resize(payload.size(), ' ');
-            payload.copy(&msg[0], payload.size());
+            std::string msg(static_cast<const char*>(payload.data()), payload.size());
             queue->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
             return true;
         }
diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index c75e32f..eb1c867 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -406,10 +406,7 @@ void ClientConnection::listeningControlThreadLoop() {
                     auto pp = promises_.find(hdr.requestID);
                     if (pp != promises_.end()) {
                         if (hdr.message == Message::Error) {
-                            std::string msg(hdr.payloadSize, ' ');
-                            if (hdr.payloadSize != 0) {
-                                payload.copy(msg.data(), payload.size());
-                            }
+                            std::string msg(static_cast<const char*>(payload.data()), hdr.payloadSize);
                             pp->second.set_exception(
                                 std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint_)));
                         }
@@ -455,9 +452,7 @@ void ClientConnection::listeningControlThreadLoop() {
                         ss << "RemoteFDB received an unhandled error on CONTROL connection. [clientID="
                            << hdr.clientID() << ",requestID=" << hdr.requestID << "]";
                         if (hdr.payloadSize) {
-                            std::string msg;
-                            msg.resize(payload.size(), ' ');
-                            payload.copy(msg.data(), payload.size());
+                            std::string msg(static_cast<const char*>(payload.data()), payload.size());
                             ss << ": " << msg;
                         }
                         throw RemoteFDBException(ss.str(), controlEndpoint_);
@@ -509,6 +504,20 @@ void ClientConnection::listeningDataThreadLoop() {
             }
             if (hdr.clientID()) {
                 bool handled = false;
+
+                // The server reports the failure of a control request on the data connection
+                if (hdr.message == Message::Error) {
+                    std::lock_guard lock(promisesMutex_);
+
+                    auto pp = promises_.find(hdr.requestID);
+                    if (pp != promises_.end()) {
+                        std::string msg(static_cast<const char*>(payload.data()), hdr.payloadSize);
+                        pp->second.set_exception(std::make_exception_ptr(RemoteFDBException(msg, dataEndpoint_)));
+                        promises_.erase(pp);
+                        continue;
+                    }
+                }
+
                 // Hold clientsMutex_ across the virtual dispatch too (not just the lookup)
                 std::lock_guard lock(clientsMutex_);
 
@@ -540,9 +549,7 @@ void ClientConnection::listeningDataThreadLoop() {
                         ss << "RemoteFDB received an unhandled error on DATA connection. [clientID=" << hdr.clientID()
                            << ",requestID=" << hdr.requestID << "]";
                         if (hdr.payloadSize) {
-                            std::string msg;
-                            msg.resize(payload.size(), ' ');
-                            payload.copy(msg.data(), payload.size());
+                            std::string msg(static_cast<const char*>(payload.data()), payload.size());
                             ss << ": " << msg;
                         }
                         throw RemoteFDBException(ss.str(), dataEndpoint_);
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 5308eeb..2d4df54 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -434,9 +434,7 @@ bool RemoteStore::handle(Message message, uint32_t requestID, eckit::Buffer&& pa
             std::lock_guard lock(messageMutex_);
             auto iter = messageQueues_.find(requestID);
             if (iter != messageQueues_.end()) {
-                std::string msg;
-                msg.resize(payload.size(), ' ');
-                payload.copy(&msg[0], payload.size());
+                std::string msg(static_cast<const char*>(payload.data()), payload.size());
                 iter->second->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
 
                 // Remove entry (shared_ptr --> message queue will be destroyed when it
diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index 325ca6a..cee15c9 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -94,7 +94,7 @@ Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with an error
 }
 
 Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint32_t requestID,
@@ -172,7 +172,7 @@ Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with an error
 }
 
 
diff --git a/src/fdb5/remote/server/ServerConnection.cc b/src/fdb5/remote/server/ServerConnection.cc
index 6655c2f..f54fe7d 100644
--- a/src/fdb5/remote/server/ServerConnection.cc
+++ b/src/fdb5/remote/server/ServerConnection.cc
@@ -110,7 +110,7 @@ Handled ServerConnection::handleData(Message message, uint32_t clientID, uint32_
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with an error
 }
 
 Handled ServerConnection::handleData(Message message, uint32_t clientID, uint32_t requestID, eckit::Buffer&& payload) {
@@ -137,7 +137,7 @@ Handled ServerConnection::handleData(Message message, uint32_t clientID, uint32_
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with an error
 }
 
 RemoteConfiguration ServerConnection::availableFunctionality() const {
diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index 7f306bb..e3b2a81 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -69,7 +69,7 @@ Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with an error
 }
 
 Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t requestID, eckit::Buffer&& payload) {
@@ -125,7 +125,7 @@ Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with an error
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 5febf83cba7387a337b47a6e72de45dabaa16481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 13/46] fix: a request that leaves out a keyword visits the
 file spaces whose regex mentions it

---
 src/fdb5/toc/RootManager.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 1b1d54a..7bb6c78 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -627,8 +627,13 @@ std::vector<PathName> RootManager::visitableRoots(const std::set<Key>& keys) {
     eckit::StringSet roots;
 
     std::set<std::string> keystrings;
+    // a regex cannot exclude the databases of a key some values of which are not known
+    bool partial = false;
     for (const auto& key : keys) {
         keystrings.insert(key.valuesToString());
+        for (const auto& [keyword, value] : key) {
+            partial = partial || value.empty();
+        }
     }
 
     LOG_DEBUG_LIB(LibFdb5) << "RootManager::visitableRoots() trying to match keys " << keystrings << std::endl;
@@ -637,7 +642,7 @@ std::vector<PathName> RootManager::visitableRoots(const std::set<Key>& keys) {
 
         bool matched = false;
         for (const std::string& k : keystrings) {
-            if (space.match(k) || k.empty()) {
+            if (space.match(k) || k.empty() || partial) {
                 LOG_DEBUG_LIB(LibFdb5) << "MATCH space " << space << std::endl;
                 space.enabled(ControlIdentifier::List, roots);
                 matched = true;
-- 
2.43.0


From ba352b00138119b940bf6d1f08931a8af9d3d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 14/46] fix: a database is found through its configured name
 when the values the request leaves out are unknown

---
 src/fdb5/toc/RootManager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 7bb6c78..e78acc1 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -79,7 +79,8 @@ public:
                 return false;
             }
 
-            if (!missing || i->second != missing) {
+            // a value that is not known excludes nothing
+            if (!missing || (i->second != missing && !i->second.empty())) {
                 if (!j->second.match(i->second)) {
                     return false;
                 }
-- 
2.43.0


From 9b32dede65cd8f4cba422a651c347a2575f80f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 15/46] fix: a failure to store a field remotely is reported by
 the flush instead of leaving it waiting

---
 src/fdb5/remote/client/RemoteStore.cc  | 29 +++++++++++---
 src/fdb5/remote/client/RemoteStore.h   | 55 ++++++++++++++++++++++++--
 src/fdb5/remote/server/StoreHandler.cc | 12 ++++--
 3 files changed, 84 insertions(+), 12 deletions(-)

diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 2d4df54..f25e914 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -341,6 +341,11 @@ size_t RemoteStore::flush() {
 
     size_t locations = complete ? locations_.archived() : locations_.wait();
 
+    if (auto failure = locations_.failure()) {
+        locations_.reset();
+        std::rethrow_exception(failure);
+    }
+
     Buffer sendBuf(defaultBufferSizeFlush);
     MemoryStream s(sendBuf);
     s << locations;
@@ -366,12 +371,16 @@ void RemoteStore::print(std::ostream& out) const {
 }
 
 void RemoteStore::closeConnection() {
-    std::lock_guard lock(messageMutex_);
-    for (auto& kv : messageQueues_) {
-        if (!kv.second->closed()) {
-            kv.second->interrupt(std::make_exception_ptr(eckit::Exception("Unexpected closure of store", Here())));
+    const auto failure = std::make_exception_ptr(eckit::Exception("Unexpected closure of store", Here()));
+    {
+        std::lock_guard lock(messageMutex_);
+        for (auto& kv : messageQueues_) {
+            if (!kv.second->closed()) {
+                kv.second->interrupt(failure);
+            }
         }
     }
+    locations_.failAll(failure);
 }
 
 const eckit::Configuration& RemoteStore::clientConfig() const {
@@ -431,11 +440,19 @@ bool RemoteStore::handle(Message message, uint32_t requestID, eckit::Buffer&& pa
             return true;
         }
         case Message::Error: {
+            const std::string msg(static_cast<const char*>(payload.data()), payload.size());
+            const auto failure = std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint()));
+
+            // the error may concern a field that is being archived...
+            if (locations_.fail(requestID, failure)) {
+                return true;
+            }
+
+            // ... or one that is being read
             std::lock_guard lock(messageMutex_);
             auto iter = messageQueues_.find(requestID);
             if (iter != messageQueues_.end()) {
-                std::string msg(static_cast<const char*>(payload.data()), payload.size());
-                iter->second->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
+                iter->second->interrupt(failure);
 
                 // Remove entry (shared_ptr --> message queue will be destroyed when it
                 // goes out of scope in the worker thread).
diff --git a/src/fdb5/remote/client/RemoteStore.h b/src/fdb5/remote/client/RemoteStore.h
index 44369bc..b120588 100644
--- a/src/fdb5/remote/client/RemoteStore.h
+++ b/src/fdb5/remote/client/RemoteStore.h
@@ -35,6 +35,7 @@
 #include <atomic>
 #include <cstddef>
 #include <cstdint>
+#include <exception>
 #include <functional>
 #include <future>
 #include <map>
@@ -65,6 +66,9 @@ public:
     void archive(uint32_t requestID,
                  std::function<void(const std::unique_ptr<const FieldLocation> fieldLocation)> catalogue_archive) {
         std::lock_guard<std::mutex> lock(locationMutex_);
+        if (failure_) {
+            std::rethrow_exception(failure_);
+        }
         locations_[requestID] = catalogue_archive;
         fieldsArchived_++;
         ASSERT(fieldsArchived_ - locationsReceived_ == locations_.size());
@@ -84,13 +88,45 @@ public:
         locations_.erase(it);
         locationsReceived_++;
 
-        ASSERT(fieldsArchived_ - locationsReceived_ == locations_.size());
-        if (archivalCompleted_.valid() && (fieldsArchived_ == locationsReceived_)) {
-            promiseArchivalCompleted_.set_value(locationsReceived_);
+        checkCompleted();
+        return true;
+    }
+
+    /// The field of this request will not be stored
+    /// @returns false if no location is expected for the request
+    bool fail(uint32_t requestID, const std::exception_ptr& failure) {
+
+        std::lock_guard<std::mutex> lock(locationMutex_);
+        auto it = locations_.find(requestID);
+        if (it == locations_.end()) {
+            return false;
         }
+
+        locations_.erase(it);
+        locationsReceived_++;
+        failure_ = failure;
+
+        checkCompleted();
         return true;
     }
 
+    /// No further location will be received
+    void failAll(const std::exception_ptr& failure) {
+
+        std::lock_guard<std::mutex> lock(locationMutex_);
+        locationsReceived_ += locations_.size();
+        locations_.clear();
+        failure_ = failure;
+
+        checkCompleted();
+    }
+
+    /// The reason why a field archived in this cycle was not stored, if any
+    std::exception_ptr failure() {
+        std::lock_guard<std::mutex> lock(locationMutex_);
+        return failure_;
+    }
+
     bool complete() {
         std::lock_guard<std::mutex> lock(locationMutex_);
 
@@ -101,6 +137,7 @@ public:
 
         promiseArchivalCompleted_ = std::promise<size_t>{};
         archivalCompleted_ = promiseArchivalCompleted_.get_future();
+        completionRequested_ = true;
         return false;
     }
 
@@ -115,16 +152,28 @@ public:
         fieldsArchived_ = locations_.size();
         locationsReceived_ = 0;
         storeRequested_ = false;
+        failure_ = nullptr;
     }
 
 private:
 
+    /// @pre locationMutex_ is held
+    void checkCompleted() {
+        ASSERT(fieldsArchived_ - locationsReceived_ == locations_.size());
+        if (completionRequested_ && (fieldsArchived_ == locationsReceived_)) {
+            completionRequested_ = false;
+            promiseArchivalCompleted_.set_value(locationsReceived_);
+        }
+    }
+
     std::mutex locationMutex_;
     std::map<uint32_t, std::function<void(const std::unique_ptr<const FieldLocation> fieldLocation)>> locations_;
     size_t fieldsArchived_{0};
     size_t locationsReceived_{0};
     std::promise<size_t> promiseArchivalCompleted_;
     std::future<size_t> archivalCompleted_;
+    bool completionRequested_{false};
+    std::exception_ptr failure_;
     std::atomic<bool> storeRequested_{false};
 };
 
diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index e3b2a81..4b75061 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -213,9 +213,15 @@ void StoreHandler::archiveBlob(const uint32_t clientID, const uint32_t requestID
     const char* charData = static_cast<const char*>(data);  // To allow pointer arithmetic
     Log::status() << "Archiving data: " << ss_key.str() << std::endl;
 
-    Store& ss = store(clientID, dbKey);
-
-    std::shared_ptr<const FieldLocation> location = ss.archive(idxKey, charData + s.position(), length - s.position());
+    std::shared_ptr<const FieldLocation> location;
+    try {
+        location = store(clientID, dbKey).archive(idxKey, charData + s.position(), length - s.position());
+    }
+    catch (const std::exception& e) {
+        // The client is waiting for the location of this field
+        error(e.what(), clientID, requestID);
+        return;
+    }
 
     std::promise<std::shared_ptr<const FieldLocation>> promise;
     promise.set_value(location);
-- 
2.43.0


From 8b9e37b581870dbeb11b5bc7c97f49f6915a39dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 16/46] fix: a failure to archive an entry in a remote
 catalogue is reported by the flush

---
 src/fdb5/remote/client/RemoteCatalogue.cc  |  5 +++--
 src/fdb5/remote/server/CatalogueHandler.cc | 22 +++++++++++++++++++---
 src/fdb5/remote/server/CatalogueHandler.h  |  1 +
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/fdb5/remote/client/RemoteCatalogue.cc b/src/fdb5/remote/client/RemoteCatalogue.cc
index 7674e90..aa92357 100644
--- a/src/fdb5/remote/client/RemoteCatalogue.cc
+++ b/src/fdb5/remote/client/RemoteCatalogue.cc
@@ -149,10 +149,11 @@ void RemoteCatalogue::flush(size_t archivedFields) {
 
         LOG_DEBUG_LIB(LibFdb5) << " RemoteCatalogue::flush - flushing " << numLocations_ << " fields" << std::endl;
 
+        // The server starts counting anew with each flush, be it successful or not
+        numLocations_ = 0;
+
         // The flush call is blocking
         controlWriteCheckResponse(Message::Flush, generateRequestID(), false, sendBuf, s.position());
-
-        numLocations_ = 0;
     }
 }
 
diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index cee15c9..e969fda 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -493,13 +493,19 @@ void CatalogueHandler::flush(uint32_t clientID, uint32_t requestID, eckit::Buffe
     }
 
     it->second.archivalCompleted.wait();
+    std::exception_ptr failure;
     {
         std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
+        std::swap(failure, it->second.archivalFailure);
         it->second.fieldLocationsReceived = std::promise<size_t>{};
         it->second.locationsExpected = 0;
         it->second.locationsArchived = 0;
     }
 
+    if (failure) {
+        std::rethrow_exception(failure);
+    }
+
     it->second.catalogue->flush(numArchived);
 
     Log::info() << "Flush complete" << std::endl;
@@ -530,12 +536,22 @@ void CatalogueHandler::archiveBlob(const uint32_t clientID, const uint32_t reque
         }
     }
 
-    if (!it->second.catalogue->selectIndex(idxKey)) {
-        it->second.catalogue->createIndex(idxKey, datumKey.keys().size());
+    std::exception_ptr failure;
+    try {
+        if (!it->second.catalogue->selectIndex(idxKey)) {
+            it->second.catalogue->createIndex(idxKey, datumKey.keys().size());
+        }
+        it->second.catalogue->archive(idxKey, datumKey, std::move(location));
+    }
+    catch (...) {
+        // The flush that waits for this location reports the failure
+        failure = std::current_exception();
     }
-    it->second.catalogue->archive(idxKey, datumKey, std::move(location));
     {
         std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
+        if (failure) {
+            it->second.archivalFailure = failure;
+        }
         it->second.locationsArchived++;
         if (it->second.locationsExpected != 0 && it->second.archivalCompleted.valid() &&
             it->second.locationsExpected == it->second.locationsArchived) {
diff --git a/src/fdb5/remote/server/CatalogueHandler.h b/src/fdb5/remote/server/CatalogueHandler.h
index 6fa7083..d0d9c75 100644
--- a/src/fdb5/remote/server/CatalogueHandler.h
+++ b/src/fdb5/remote/server/CatalogueHandler.h
@@ -39,6 +39,7 @@ struct CatalogueArchiver {
 
     std::promise<size_t> fieldLocationsReceived;
     std::future<size_t> archivalCompleted;
+    std::exception_ptr archivalFailure;  // why a location was not archived, reported by the next flush
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 7c655c5f0c397e8f8c0173a22893c4aca5f6c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 17/46] fix: a lost connection fails every request that waits
 on it instead of hanging or terminating the client

---
 src/fdb5/api/RemoteFDB.cc                  |  9 ++++++++
 src/fdb5/api/RemoteFDB.h                   |  1 +
 src/fdb5/remote/Connection.h               |  4 ++++
 src/fdb5/remote/client/ClientConnection.cc | 24 +++++++++++-----------
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index 48e312a..aaaf079 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -413,6 +413,15 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
     }
 }
 
+void RemoteFDB::closeConnection() {
+    std::lock_guard lock(messageQueueMutex_);
+    for (auto& [requestID, queue] : messageQueues_) {
+        if (!queue->closed()) {
+            queue->interrupt(std::make_exception_ptr(eckit::Exception("Unexpected closure of catalogue", Here())));
+        }
+    }
+}
+
 static FDBBuilder<RemoteFDB> builder("remote");
 
 }  // namespace fdb5
diff --git a/src/fdb5/api/RemoteFDB.h b/src/fdb5/api/RemoteFDB.h
index 178a2cd..4325a3f 100644
--- a/src/fdb5/api/RemoteFDB.h
+++ b/src/fdb5/api/RemoteFDB.h
@@ -82,6 +82,7 @@ private:  // methods
     const eckit::Configuration& clientConfig() const override;
     bool handle(Message message, uint32_t requestID) override;
     bool handle(Message message, uint32_t requestID, eckit::Buffer&& payload) override;
+    void closeConnection() override;
 
 private:  // members
 
diff --git a/src/fdb5/remote/Connection.h b/src/fdb5/remote/Connection.h
index 727354f..d0df560 100644
--- a/src/fdb5/remote/Connection.h
+++ b/src/fdb5/remote/Connection.h
@@ -100,6 +100,10 @@ private:  // methods
 
     virtual const eckit::net::TCPSocket& dataSocket() const = 0;
 
+protected:  // methods
+
+    void invalidate() { isValid_ = false; }
+
 protected:  // members
 
     bool single_;
diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index eb1c867..59c31e3 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -193,14 +193,13 @@ RemoteConfiguration ClientConnection::availableFunctionality(const Configuration
 
 std::future<Buffer> ClientConnection::controlWrite(const Client& client, const Message msg, const uint32_t requestID,
                                                    const bool /*dataListener*/, const PayloadList payloads) const {
-    if (!valid()) {
-        throw RemoteFDBException("Connection to " + std::string(controlEndpoint_) + " is no longer valid",
-                                 controlEndpoint_);
-    }
-
     std::future<Buffer> f;
     {
         std::lock_guard lock(promisesMutex_);
+        if (!valid()) {
+            throw RemoteFDBException("Connection to " + std::string(controlEndpoint_) + " is no longer valid",
+                                     controlEndpoint_);
+        }
         auto pp = promises_.emplace(requestID, std::promise<Buffer>{}).first;
         f = pp->second.get_future();
     }
@@ -267,12 +266,10 @@ void ClientConnection::dataWriteThreadLoop() {
         dataWriteQueue_.reset();
     }
     catch (...) {
+        // We don't want to let exceptions escape inside a worker thread.
         dataWriteQueue_->interrupt(std::current_exception());
-        throw;
+        handleConnectionError(std::current_exception());
     }
-
-    // We are inside an async, so don't need to worry about exceptions escaping.
-    // They will be released when flush() is called.
 }
 
 void ClientConnection::writeControlStartupMessage(const Configuration& config) {
@@ -343,6 +340,8 @@ SessionID ClientConnection::verifyServerStartupResponse() {
 
 void ClientConnection::failPendingRequests(const std::exception_ptr& eptr) {
     std::lock_guard lock(promisesMutex_);
+    // no new request may be added (see controlWrite), there is nobody left to listen for the response
+    invalidate();
     for (auto& [requestID, promise] : promises_) {
         promise.set_exception(eptr);
     }
@@ -365,12 +364,13 @@ void ClientConnection::handleConnectionError(const std::exception_ptr& eptr) {
         Log::error() << "error: unknown exception on connection " << controlEndpoint_ << std::endl;
     }
 
-    // nothing else will ever fulfil a promise once the listening thread has stopped
+    teardown();
+
+    // nothing else will ever fulfil a promise, nor fill a queue, once the listening thread has stopped
     std::ostringstream ss;
     ss << "Connection to " << controlEndpoint_ << " lost: " << reason;
     failPendingRequests(std::make_exception_ptr(RemoteFDBException(ss.str(), controlEndpoint_)));
-
-    teardown();
+    closeConnection();
 }
 
 void ClientConnection::listeningControlThreadLoop() {
-- 
2.43.0


From d682b90f39efdc95fce05d7ba2084eb76d42c883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 18/46] fix: fields that are not affected by a failing remote
 flush remain to be flushed

---
 src/fdb5/remote/client/RemoteCatalogue.cc  |  5 ++---
 src/fdb5/remote/client/RemoteStore.cc      |  6 ++---
 src/fdb5/remote/client/RemoteStore.h       | 26 ++++++++++++++--------
 src/fdb5/remote/server/CatalogueHandler.cc |  7 +++++-
 4 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/fdb5/remote/client/RemoteCatalogue.cc b/src/fdb5/remote/client/RemoteCatalogue.cc
index aa92357..7674e90 100644
--- a/src/fdb5/remote/client/RemoteCatalogue.cc
+++ b/src/fdb5/remote/client/RemoteCatalogue.cc
@@ -149,11 +149,10 @@ void RemoteCatalogue::flush(size_t archivedFields) {
 
         LOG_DEBUG_LIB(LibFdb5) << " RemoteCatalogue::flush - flushing " << numLocations_ << " fields" << std::endl;
 
-        // The server starts counting anew with each flush, be it successful or not
-        numLocations_ = 0;
-
         // The flush call is blocking
         controlWriteCheckResponse(Message::Flush, generateRequestID(), false, sendBuf, s.position());
+
+        numLocations_ = 0;
     }
 }
 
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index f25e914..697c9c8 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -332,6 +332,7 @@ size_t RemoteStore::flush() {
 
     // Flush only does anything if there is an ongoing archive();
     if (locations_.archived() == 0) {
+        locations_.checkFailure();
         return 0;
     }
 
@@ -341,10 +342,7 @@ size_t RemoteStore::flush() {
 
     size_t locations = complete ? locations_.archived() : locations_.wait();
 
-    if (auto failure = locations_.failure()) {
-        locations_.reset();
-        std::rethrow_exception(failure);
-    }
+    locations_.checkFailure();
 
     Buffer sendBuf(defaultBufferSizeFlush);
     MemoryStream s(sendBuf);
diff --git a/src/fdb5/remote/client/RemoteStore.h b/src/fdb5/remote/client/RemoteStore.h
index b120588..206b78a 100644
--- a/src/fdb5/remote/client/RemoteStore.h
+++ b/src/fdb5/remote/client/RemoteStore.h
@@ -66,6 +66,9 @@ public:
     void archive(uint32_t requestID,
                  std::function<void(const std::unique_ptr<const FieldLocation> fieldLocation)> catalogue_archive) {
         std::lock_guard<std::mutex> lock(locationMutex_);
+        if (closed_) {
+            std::rethrow_exception(closed_);
+        }
         if (failure_) {
             std::rethrow_exception(failure_);
         }
@@ -103,7 +106,7 @@ public:
         }
 
         locations_.erase(it);
-        locationsReceived_++;
+        fieldsArchived_--;
         failure_ = failure;
 
         checkCompleted();
@@ -114,17 +117,22 @@ public:
     void failAll(const std::exception_ptr& failure) {
 
         std::lock_guard<std::mutex> lock(locationMutex_);
-        locationsReceived_ += locations_.size();
-        locations_.clear();
-        failure_ = failure;
+        closed_ = failure;
+        if (!locations_.empty()) {
+            fieldsArchived_ -= locations_.size();
+            locations_.clear();
+            failure_ = failure;
+        }
 
         checkCompleted();
     }
 
-    /// The reason why a field archived in this cycle was not stored, if any
-    std::exception_ptr failure() {
+    /// Reports (once) the reason why fields were not stored, if any. The other fields remain to be flushed.
+    void checkFailure() {
         std::lock_guard<std::mutex> lock(locationMutex_);
-        return failure_;
+        if (auto failure = std::exchange(failure_, nullptr)) {
+            std::rethrow_exception(failure);
+        }
     }
 
     bool complete() {
@@ -152,7 +160,6 @@ public:
         fieldsArchived_ = locations_.size();
         locationsReceived_ = 0;
         storeRequested_ = false;
-        failure_ = nullptr;
     }
 
 private:
@@ -173,7 +180,8 @@ private:
     std::promise<size_t> promiseArchivalCompleted_;
     std::future<size_t> archivalCompleted_;
     bool completionRequested_{false};
-    std::exception_ptr failure_;
+    std::exception_ptr failure_;  // a field was not stored, to be reported by the next flush
+    std::exception_ptr closed_;   // no further field can be stored
     std::atomic<bool> storeRequested_{false};
 };
 
diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index e969fda..873c4c6 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -499,15 +499,20 @@ void CatalogueHandler::flush(uint32_t clientID, uint32_t requestID, eckit::Buffe
         std::swap(failure, it->second.archivalFailure);
         it->second.fieldLocationsReceived = std::promise<size_t>{};
         it->second.locationsExpected = 0;
-        it->second.locationsArchived = 0;
     }
 
+    // if the flush fails, its locations are still pending, and count for the next one
     if (failure) {
         std::rethrow_exception(failure);
     }
 
     it->second.catalogue->flush(numArchived);
 
+    {
+        std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
+        it->second.locationsArchived -= numArchived;
+    }
+
     Log::info() << "Flush complete" << std::endl;
     Log::status() << "Flush complete" << std::endl;
 }
-- 
2.43.0


From f43fe72e7a00d1819d9d786b34507eabd1ae07dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:41 +0000
Subject: [PATCH 19/46] fix: the marker file that permits several roots belongs
 to its database

---
 src/fdb5/toc/TocHandler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 68f7695..77e75a3 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1891,7 +1891,7 @@ std::vector<PathName> TocHandler::lockfilePaths() const {
 
     std::vector<PathName> paths;
 
-    for (const auto& name : {retrieve_lock_file, archive_lock_file, list_lock_file, wipe_lock_file}) {
+    for (const auto& [identifier, name] : controlfile_lookup) {
 
         PathName fullPath = fullControlFilePath(name);
         if (fullPath.exists()) {
-- 
2.43.0


From 16ced24b583dc15c89df0d6ba86c15a784cb807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 20/46] fix: the store reads the set of unknown URIs that the
 client sends

---
 src/fdb5/remote/server/StoreHandler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index 4b75061..d9cdd4f 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -361,7 +361,8 @@ void StoreHandler::doWipeUnknowns(const uint32_t clientID, const uint32_t reques
 
     const WipeInProgress& currentWipe = cachedWipeState(clientID, key);
 
-    std::set<eckit::URI> uris{s};
+    std::set<eckit::URI> uris;
+    s >> uris;
 
     // Only proceed if unsafeWipeAll is set.
     ASSERT(currentWipe.unsafeWipeAll);
-- 
2.43.0


From c22d43ddc00e416f2050c210794108c918f6fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 21/46] fix: one lock protects the catalogue server's FDB
 instances

---
 src/fdb5/remote/server/CatalogueHandler.cc | 2 +-
 src/fdb5/remote/server/CatalogueHandler.h  | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index 873c4c6..ed75cc9 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -304,7 +304,7 @@ void CatalogueHandler::handleApiCall(uint32_t clientID, uint32_t requestID, ecki
     ASSERT(workerThreads_.find(requestID) == workerThreads_.end());
 
     {
-        std::lock_guard<std::mutex> lock(fdbMutex_);
+        std::lock_guard<std::mutex> lock(handlerMutex_);
         auto it = fdbs_.find(clientID);
         if (it == fdbs_.end()) {
             fdbs_[clientID];
diff --git a/src/fdb5/remote/server/CatalogueHandler.h b/src/fdb5/remote/server/CatalogueHandler.h
index d0d9c75..af3d598 100644
--- a/src/fdb5/remote/server/CatalogueHandler.h
+++ b/src/fdb5/remote/server/CatalogueHandler.h
@@ -96,7 +96,6 @@ private:  // member
     std::map<uint32_t, CatalogueArchiver> catalogues_;
     std::map<uint32_t, FDB> fdbs_;
 
-    std::mutex fdbMutex_;
     std::mutex fieldLocationsMutex_;
 
     bool fdbControlConnection_;
-- 
2.43.0


From 567e1b13f596ced0b0253df30f54a5caef693c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 22/46] fix: flush looks up the catalogue under the lock that
 protects the catalogues

---
 src/fdb5/remote/server/CatalogueHandler.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index ed75cc9..f6fd802 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -479,8 +479,12 @@ void CatalogueHandler::flush(uint32_t clientID, uint32_t requestID, eckit::Buffe
         return;
     }
 
-    auto it = catalogues_.find(clientID);
-    ASSERT(it != catalogues_.end());
+    std::map<uint32_t, CatalogueArchiver>::iterator it;
+    {
+        std::lock_guard<std::mutex> lock(handlerMutex_);
+        it = catalogues_.find(clientID);
+        ASSERT(it != catalogues_.end());
+    }
 
     {
         std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
-- 
2.43.0


From a2f0682f327f6d9cc2fb497f582c71ce1bafabe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 23/46] fix: the wipes in progress are protected against
 concurrent requests

---
 src/fdb5/remote/server/CatalogueHandler.cc | 9 ++++++++-
 src/fdb5/remote/server/CatalogueHandler.h  | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index f6fd802..3d42c4e 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -248,6 +248,7 @@ struct WipeHelper : public BaseHelper<CatalogueWipeState> {
             // Keep a local copy of the catalogue wipe state, awaiting an explicit doWipeURIs command from the client
 
             // Expect this dbKey not to already be in progress
+            std::lock_guard<std::mutex> lock(handler.wipesMutex_);
             ASSERT(handler.wipesInProgress_.find(dbKey) == handler.wipesInProgress_.end());
 
             handler.wipesInProgress_.emplace(
@@ -257,6 +258,7 @@ struct WipeHelper : public BaseHelper<CatalogueWipeState> {
                                                                            state.indexesToMask(), state.config())});
         }
         else {
+            std::lock_guard<std::mutex> lock(handler.wipesMutex_);
             handler.wipesInProgress_.erase(dbKey);
         }
         return {s.position(), std::move(encodeBuffer)};
@@ -625,6 +627,7 @@ CatalogueWriter& CatalogueHandler::catalogue(uint32_t id, const Key& dbKey) {
 }
 
 const CatalogueHandler::WipeInProgress& CatalogueHandler::cachedWipeState(Key dbKey) const {
+    std::lock_guard<std::mutex> lock(wipesMutex_);
     auto it = wipesInProgress_.find(dbKey);
     ASSERT(it != wipesInProgress_.end());
     return it->second;
@@ -685,6 +688,7 @@ void CatalogueHandler::doWipeEmptyDatabase(uint32_t clientID, uint32_t requestID
 
     // Cleanup empty DBs and reset wipe state
     currentWipe.catalogue->doWipeEmptyDatabase();
+    std::lock_guard<std::mutex> lock(wipesMutex_);
     wipesInProgress_.erase(dbKey);
 }
 
@@ -700,7 +704,10 @@ void CatalogueHandler::doUnsafeFullWipe(uint32_t clientID, uint32_t requestID, e
     eckit::MemoryStream stream(boolBuf);
     stream << fullWipeSupported;
 
-    wipesInProgress_.erase(dbKey);
+    {
+        std::lock_guard<std::mutex> lock(wipesMutex_);
+        wipesInProgress_.erase(dbKey);
+    }
 
     write(Message::Received, true, clientID, requestID, boolBuf.data(), stream.position());
 }
diff --git a/src/fdb5/remote/server/CatalogueHandler.h b/src/fdb5/remote/server/CatalogueHandler.h
index af3d598..be87e62 100644
--- a/src/fdb5/remote/server/CatalogueHandler.h
+++ b/src/fdb5/remote/server/CatalogueHandler.h
@@ -107,6 +107,8 @@ private:  // member
         CatalogueWipeState state;
     };
 
+    // n.b. modified by the worker threads and by the control thread
+    mutable std::mutex wipesMutex_;
     std::map<Key, WipeInProgress> wipesInProgress_;
 };
 
-- 
2.43.0


From c891057071a2fb3d692456813a47c536e1aade63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 24/46] fix: fdb_list reports duplicates when asked for
 duplicates, not the opposite

---
 src/fdb5/api/fdb_c.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/api/fdb_c.cc b/src/fdb5/api/fdb_c.cc
index a25d61c..c7f5541 100644
--- a/src/fdb5/api/fdb_c.cc
+++ b/src/fdb5/api/fdb_c.cc
@@ -455,7 +455,7 @@ int fdb_list(fdb_handle_t* fdb, const fdb_request_t* req, fdb_listiterator_t** i
         std::vector<std::string> minKeySet;  // we consider an empty set
         const FDBToolRequest toolRequest(req ? req->request() : metkit::mars::MarsRequest(), req == nullptr, minKeySet);
 
-        *it = new fdb_listiterator_t(fdb->list(toolRequest, duplicates, d));
+        *it = new fdb_listiterator_t(fdb->list(toolRequest, !duplicates, d));
     });
 }
 
-- 
2.43.0


From cb23374b2ae641ff3ca516a084ee55e28b4d164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 25/46] fix: build each lane of a select FDB once when threads
 archive concurrently

---
 src/fdb5/api/SelectFDB.cc | 12 +++++++++---
 src/fdb5/api/SelectFDB.h  |  3 +++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/api/SelectFDB.cc b/src/fdb5/api/SelectFDB.cc
index 983436f..c018643 100644
--- a/src/fdb5/api/SelectFDB.cc
+++ b/src/fdb5/api/SelectFDB.cc
@@ -38,7 +38,7 @@ static FDBBuilder<SelectFDB> selectFdbBuilder("select");
 //----------------------------------------------------------------------------------------------------------------------
 
 SelectFDB::FDBLane::FDBLane(const eckit::LocalConfiguration& config) :
-    matcher_{config}, config_(config), fdb_(nullptr) {}
+    matcher_{config}, config_(config), fdb_(nullptr), mutex_(std::make_unique<std::mutex>()) {}
 
 template <typename T>  // T is either a MarsRequest or Key
 bool SelectFDB::FDBLane::matches(const T& vals, Matcher::MatchMissingPolicy matchOnMissing) const {
@@ -46,6 +46,7 @@ bool SelectFDB::FDBLane::matches(const T& vals, Matcher::MatchMissingPolicy matc
 }
 
 FDBBase& SelectFDB::FDBLane::get() {
+    std::lock_guard lock(*mutex_);
     if (!fdb_) {
         fdb_ = FDBFactory::instance().build(config_);
     }
@@ -53,8 +54,13 @@ FDBBase& SelectFDB::FDBLane::get() {
 }
 
 void SelectFDB::FDBLane::flush() {
-    if (fdb_) {
-        fdb_->flush();
+    std::shared_ptr<FDBBase> fdb;
+    {
+        std::lock_guard lock(*mutex_);
+        fdb = fdb_;
+    }
+    if (fdb) {
+        fdb->flush();
     }
 }
 
diff --git a/src/fdb5/api/SelectFDB.h b/src/fdb5/api/SelectFDB.h
index 9e01170..722b33a 100644
--- a/src/fdb5/api/SelectFDB.h
+++ b/src/fdb5/api/SelectFDB.h
@@ -18,6 +18,8 @@
 
 #pragma once
 
+#include <memory>
+#include <mutex>
 #include <optional>
 #include <string>
 #include <vector>
@@ -40,6 +42,7 @@ private:  // types
         SelectMatcher matcher_;
         Config config_;
         std::shared_ptr<FDBBase> fdb_;
+        std::unique_ptr<std::mutex> mutex_;  ///< protects fdb_, which is built when it is first needed
 
     public:
 
-- 
2.43.0


From c6649bdc68e2c095f584eca916712b4c229104b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 26/46] fix: callbacks registered on a select FDB reach its
 lanes

---
 src/fdb5/api/SelectFDB.cc       | 38 +++++++++++++++++++++++++++++++++
 src/fdb5/api/SelectFDB.h        |  8 +++++++
 src/fdb5/api/helpers/Callback.h |  6 ++++--
 3 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/api/SelectFDB.cc b/src/fdb5/api/SelectFDB.cc
index c018643..29d040b 100644
--- a/src/fdb5/api/SelectFDB.cc
+++ b/src/fdb5/api/SelectFDB.cc
@@ -49,10 +49,36 @@ FDBBase& SelectFDB::FDBLane::get() {
     std::lock_guard lock(*mutex_);
     if (!fdb_) {
         fdb_ = FDBFactory::instance().build(config_);
+        fdb_->registerFlushCallback(flushCallback_);
+        fdb_->registerArchiveCallback(archiveCallback_);
     }
     return *fdb_;
 }
 
+void SelectFDB::FDBLane::registerFlushCallback(const FlushCallback& callback) {
+    std::shared_ptr<FDBBase> fdb;
+    {
+        std::lock_guard lock(*mutex_);
+        flushCallback_ = callback;
+        fdb = fdb_;
+    }
+    if (fdb) {
+        fdb->registerFlushCallback(callback);
+    }
+}
+
+void SelectFDB::FDBLane::registerArchiveCallback(const ArchiveCallback& callback) {
+    std::shared_ptr<FDBBase> fdb;
+    {
+        std::lock_guard lock(*mutex_);
+        archiveCallback_ = callback;
+        fdb = fdb_;
+    }
+    if (fdb) {
+        fdb->registerArchiveCallback(callback);
+    }
+}
+
 void SelectFDB::FDBLane::flush() {
     std::shared_ptr<FDBBase> fdb;
     {
@@ -191,6 +217,18 @@ void SelectFDB::flush() {
 }
 
 
+void SelectFDB::registerFlushCallback(FlushCallback callback) {
+    for (auto& lane : subFdbs_) {
+        lane.registerFlushCallback(callback);
+    }
+}
+
+void SelectFDB::registerArchiveCallback(ArchiveCallback callback) {
+    for (auto& lane : subFdbs_) {
+        lane.registerArchiveCallback(callback);
+    }
+}
+
 void SelectFDB::print(std::ostream& s) const {
     s << "SelectFDB()";
 }
diff --git a/src/fdb5/api/SelectFDB.h b/src/fdb5/api/SelectFDB.h
index 722b33a..80bfbfd 100644
--- a/src/fdb5/api/SelectFDB.h
+++ b/src/fdb5/api/SelectFDB.h
@@ -42,6 +42,8 @@ private:  // types
         SelectMatcher matcher_;
         Config config_;
         std::shared_ptr<FDBBase> fdb_;
+        FlushCallback flushCallback_ = CALLBACK_FLUSH_NOOP;
+        ArchiveCallback archiveCallback_ = CALLBACK_ARCHIVE_NOOP;
         std::unique_ptr<std::mutex> mutex_;  ///< protects fdb_, which is built when it is first needed
 
     public:
@@ -52,6 +54,9 @@ private:  // types
 
         void flush();
 
+        void registerFlushCallback(const FlushCallback& callback);
+        void registerArchiveCallback(const ArchiveCallback& callback);
+
         template <typename T>  // T is either a mars request or a Key
         bool matches(const T& vals, metkit::mars::Matcher::MatchMissingPolicy matchOnMissing) const;
     };
@@ -88,6 +93,9 @@ public:  // methods
 
     void flush() override;
 
+    void registerFlushCallback(FlushCallback callback) override;
+    void registerArchiveCallback(ArchiveCallback callback) override;
+
 private:  // methods
 
     void print(std::ostream& s) const override;
diff --git a/src/fdb5/api/helpers/Callback.h b/src/fdb5/api/helpers/Callback.h
index c1f0f52..e5b0b1e 100644
--- a/src/fdb5/api/helpers/Callback.h
+++ b/src/fdb5/api/helpers/Callback.h
@@ -38,8 +38,10 @@ static const ConstructorCallback CALLBACK_CONSTRUCTOR_NOOP = [](auto&&...) {};
 class CallbackRegistry {
 public:
 
-    void registerFlushCallback(FlushCallback callback) { flushCallback_ = callback; }
-    void registerArchiveCallback(ArchiveCallback callback) { archiveCallback_ = callback; }
+    virtual ~CallbackRegistry() = default;
+
+    virtual void registerFlushCallback(FlushCallback callback) { flushCallback_ = callback; }
+    virtual void registerArchiveCallback(ArchiveCallback callback) { archiveCallback_ = callback; }
 
 protected:
 
-- 
2.43.0


From f041ad19cd6db58de464d0133abef67f56b3db68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 27/46] fix: an abandoned remote iterator must not block the
 connection

The worker that turns replies into elements stopped popping its bounded queue when the
consumer closed the iterator; the listening thread then blocked on the full queue, and with it
every other request on the connection. Drain the queue before leaving.
---
 src/fdb5/api/RemoteFDB.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index aaaf079..dcb4288 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -299,15 +299,23 @@ auto RemoteFDB::forwardApiCall(const HelperClass& helper, const FDBToolRequest&
         // this is handled in the AsyncIterator.
         new AsyncIterator(shared_from_this(), [messageQueue, remoteFDB](Queue<ValueType>& queue) {
             Buffer msg{0};
-            while (true) {
-                if (messageQueue->pop(msg) == -1) {
-                    break;
-                }
-                else {
-                    MemoryStream s(msg);
-                    queue.emplace(HelperClass::valueFromStream(s, remoteFDB));
+            try {
+                while (true) {
+                    if (messageQueue->pop(msg) == -1) {
+                        break;
+                    }
+                    else {
+                        MemoryStream s(msg);
+                        queue.emplace(HelperClass::valueFromStream(s, remoteFDB));
+                    }
                 }
             }
+            catch (...) {
+                // Nobody is interested in the remaining messages, but the server still sends them: take them off the
+                // (bounded) queue, or the thread that listens on the connection blocks for ever on a full queue.
+                while (messageQueue->pop(msg) != -1) {}
+                throw;
+            }
             // messageQueue goes out of scope --> destructed
         }));
 }
-- 
2.43.0


From 7ce9f3ce28ccaa3715bbdeb459b712db09a7aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 28/46] fix: loadIndexes outlives the tasks that fill its
 result

When one task fails, unwinding destroyed the vector of indexes before the futures whose
destruction waits for the remaining tasks, which went on writing into it.
---
 src/fdb5/toc/TocHandler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 77e75a3..fe2c58e 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1394,8 +1394,9 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
     static const int nthreads = eckit::Resource<long>("fdbLoadIndexThreads;$FDB_LOAD_INDEX_THREADS", 1);
 
     {
-        std::vector<std::future<void>> threads;
+        // n.b. declared before the futures, whose destruction waits for the tasks that write to it
         std::vector<TocIndex*> tocindexes(indexEntries.size(), nullptr);
+        std::vector<std::future<void>> threads;
 
         for (int i = 0; i < nthreads; ++i) {
             threads.emplace_back(std::async(std::launch::async, [i, &indexEntries, &tocindexes, debug, this] {
-- 
2.43.0


From e5d1cb01bf02f56468b2d42c3b19ff4e9c2ad98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 29/46] fix: FDBFileHandle closes its file when it is destroyed

The file stayed open, with its buffer freed, when a handle was destroyed before close() was
reached, e.g. after a failed flush.
---
 src/fdb5/io/FDBFileHandle.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/io/FDBFileHandle.cc b/src/fdb5/io/FDBFileHandle.cc
index c56ee71..bf1ad09 100644
--- a/src/fdb5/io/FDBFileHandle.cc
+++ b/src/fdb5/io/FDBFileHandle.cc
@@ -32,7 +32,13 @@ void FDBFileHandle::print(std::ostream& s) const {
 FDBFileHandle::FDBFileHandle(const std::string& name, size_t buffer) :
     path_(name), file_(nullptr), buffer_(buffer), pos_(0) {}
 
-FDBFileHandle::~FDBFileHandle() {}
+FDBFileHandle::~FDBFileHandle() {
+    if (file_) {
+        Log::warning() << "Closing FDBFileHandle " << path_ << std::endl;
+        ::fclose(file_);
+        file_ = nullptr;
+    }
+}
 
 Length FDBFileHandle::openForRead() {
     NOTIMP;
-- 
2.43.0


From 8316a8d0023751028299fd335b17282d4501127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 30/46] fix: fdb_delete_datareader releases the data handle of
 the reader

---
 src/fdb5/api/fdb_c.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/api/fdb_c.cc b/src/fdb5/api/fdb_c.cc
index c7f5541..06ff75f 100644
--- a/src/fdb5/api/fdb_c.cc
+++ b/src/fdb5/api/fdb_c.cc
@@ -187,6 +187,8 @@ private:
 struct fdb_datareader_t {
 public:
 
+    ~fdb_datareader_t() { delete dh_; }
+
     long open() {
         ASSERT(dh_);
         return dh_->openForRead();
@@ -222,7 +224,7 @@ public:
 
 private:
 
-    DataHandle* dh_;
+    DataHandle* dh_ = nullptr;
 };
 
 // Wipe iterator
-- 
2.43.0


From 26f066a303900db839deb028e19738773e93d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 31/46] fix: moving a database closes the directories it reads
 when it fails

An exception, e.g. of the queue of an abandoned iterator, left the directory stream open.
---
 src/fdb5/toc/TocMoveVisitor.cc | 16 +++++++---------
 src/fdb5/toc/TocStore.cc       |  6 +++---
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/fdb5/toc/TocMoveVisitor.cc b/src/fdb5/toc/TocMoveVisitor.cc
index 47dace3..7bc77cc 100644
--- a/src/fdb5/toc/TocMoveVisitor.cc
+++ b/src/fdb5/toc/TocMoveVisitor.cc
@@ -14,6 +14,7 @@
 
 #include "eckit/config/Resource.h"
 #include "eckit/distributed/Message.h"
+#include "eckit/filesystem/StdDir.h"
 #include "eckit/os/Stat.h"
 
 #include "fdb5/api/helpers/ControlIterator.h"
@@ -52,9 +53,9 @@ bool TocMoveVisitor::visitDatabase(const Catalogue& catalogue) {
     MoveVisitor::visitDatabase(catalogue_);
 
     // TOC specific checks: index files not locked
-    DIR* dirp = ::opendir(catalogue_.basePath().c_str());
+    eckit::StdDir dir(catalogue_.basePath().c_str());
     struct dirent* dp;
-    while ((dp = readdir(dirp)) != NULL) {
+    while ((dp = readdir(dir)) != NULL) {
         if (strstr(dp->d_name, ".index")) {
             eckit::PathName src_ = PathName(catalogue_.basePath()) / dp->d_name;
             int fd = ::open(src_.asString().c_str(), O_RDWR);
@@ -65,7 +66,6 @@ bool TocMoveVisitor::visitDatabase(const Catalogue& catalogue) {
             }
         }
     }
-    closedir(dirp);
 
     // TOC specific checks: destination path suitable for requested key
     if (dest_.scheme().empty() || dest_.scheme() == "toc" || dest_.scheme() == "file" || dest_.scheme() == "unix") {
@@ -120,29 +120,27 @@ void TocMoveVisitor::move() {
                 dest_db.mkdir();
             }
 
-            DIR* dirp = ::opendir(catalogue_.basePath().c_str());
+            eckit::StdDir dir(catalogue_.basePath().c_str());
             struct dirent* dp;
-            while ((dp = readdir(dirp)) != NULL) {
+            while ((dp = readdir(dir)) != NULL) {
                 if (strstr(dp->d_name, ".index") || strstr(dp->d_name, "toc.") || strstr(dp->d_name, "schema")) {
 
                     FileCopy fileCopy(catalogue_.basePath(), dest_db, dp->d_name);
                     queue_.emplace(fileCopy);
                 }
             }
-            closedir(dirp);
 
             FileCopy toc(catalogue_.basePath(), dest_db, "toc", true);
             queue_.emplace(toc);
 
-            dirp = ::opendir(catalogue_.basePath().c_str());
-            while ((dp = readdir(dirp)) != NULL) {
+            ::rewinddir(dir);
+            while ((dp = readdir(dir)) != NULL) {
                 if (strstr(dp->d_name, ".lock") || strstr(dp->d_name, "duplicates.allow")) {
 
                     FileCopy fileCopy(catalogue_.basePath(), dest_db, dp->d_name);
                     queue_.emplace(fileCopy);
                 }
             }
-            closedir(dirp);
             FileCopy folder(catalogue_.basePath(), "", "");
             queue_.emplace(folder);
         }
diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 5f0d353..0b3cd7f 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -14,6 +14,7 @@
 
 #include "eckit/config/Resource.h"
 #include "eckit/exception/Exceptions.h"
+#include "eckit/filesystem/StdDir.h"
 #include "eckit/filesystem/URI.h"
 #include "eckit/io/AIOHandle.h"
 #include "eckit/io/EmptyHandle.h"
@@ -361,10 +362,10 @@ void TocStore::moveTo(const Key& key, const Config& config, const eckit::URI& de
             eckit::PathName dest_db = destPath / src_db.baseName(true);
 
             dest_db.mkdir();
-            DIR* dirp = ::opendir(src_db.asString().c_str());
+            eckit::StdDir dir(src_db.asString().c_str());
             struct dirent* dp;
             std::multimap<long, std::unique_ptr<FileCopy>, std::greater<long>> files;
-            while ((dp = ::readdir(dirp)) != NULL) {
+            while ((dp = ::readdir(dir)) != NULL) {
                 if (strstr(dp->d_name, ".data")) {
                     eckit::PathName file(src_db / dp->d_name);
                     if ((file.extension() == ".data") ||
@@ -375,7 +376,6 @@ void TocStore::moveTo(const Key& key, const Config& config, const eckit::URI& de
                     }
                 }
             }
-            closedir(dirp);
 
             for (auto it = files.begin(); it != files.end(); it++) {
                 queue.emplace(*(it->second));
-- 
2.43.0


From b8b322d9ebfc08e0287e0f6e26d2aa847855e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 32/46] fix: moving a database releases the descriptors of the
 index files it locks

---
 src/fdb5/toc/TocMoveVisitor.cc | 10 ++++++++--
 src/fdb5/toc/TocMoveVisitor.h  |  5 +++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocMoveVisitor.cc b/src/fdb5/toc/TocMoveVisitor.cc
index 7bc77cc..6de30ef 100644
--- a/src/fdb5/toc/TocMoveVisitor.cc
+++ b/src/fdb5/toc/TocMoveVisitor.cc
@@ -43,7 +43,11 @@ TocMoveVisitor::TocMoveVisitor(const TocCatalogue& catalogue, const Store& store
                                eckit::Queue<MoveElement>& queue) :
     MoveVisitor(request, dest), catalogue_(catalogue), store_(store), queue_(queue) {}
 
-TocMoveVisitor::~TocMoveVisitor() {}
+TocMoveVisitor::~TocMoveVisitor() {
+    for (int fd : locked_) {
+        ::close(fd);  // releases the lock
+    }
+}
 
 bool TocMoveVisitor::visitDatabase(const Catalogue& catalogue) {
 
@@ -58,7 +62,9 @@ bool TocMoveVisitor::visitDatabase(const Catalogue& catalogue) {
     while ((dp = readdir(dir)) != NULL) {
         if (strstr(dp->d_name, ".index")) {
             eckit::PathName src_ = PathName(catalogue_.basePath()) / dp->d_name;
-            int fd = ::open(src_.asString().c_str(), O_RDWR);
+            int fd;
+            SYSCALL2(fd = ::open(src_.asString().c_str(), O_RDWR), src_);
+            locked_.push_back(fd);
             if (::flock(fd, LOCK_EX)) {
                 std::ostringstream ss;
                 ss << "Index file " << dp->d_name << " is locked";
diff --git a/src/fdb5/toc/TocMoveVisitor.h b/src/fdb5/toc/TocMoveVisitor.h
index 6e157bc..814bea6 100644
--- a/src/fdb5/toc/TocMoveVisitor.h
+++ b/src/fdb5/toc/TocMoveVisitor.h
@@ -14,6 +14,8 @@
 
 #pragma once
 
+#include <vector>
+
 #include "fdb5/api/helpers/MoveIterator.h"
 #include "fdb5/database/MoveVisitor.h"
 #include "fdb5/toc/TocCatalogue.h"
@@ -42,6 +44,9 @@ private:  // members
     const TocCatalogue& catalogue_;
     const Store& store_;
     eckit::Queue<MoveElement>& queue_;
+
+    // Descriptors of the index files, which are locked while the database is visited
+    std::vector<int> locked_;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 4a6663a63b9168e1ce445fea13d15bd772e0bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 33/46] fix: a FieldHandle that cannot be completed releases
 its data handles

The constructor kept raw pointers that only the destructor deletes; when the iterator failed
half-way, the handles made until then (and the remote reads they stand for) were lost.
---
 src/fdb5/io/FieldHandle.cc | 17 ++++++++---------
 src/fdb5/io/FieldHandle.h  |  6 +++++-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/fdb5/io/FieldHandle.cc b/src/fdb5/io/FieldHandle.cc
index d4a3d23..2c3a0a3 100644
--- a/src/fdb5/io/FieldHandle.cc
+++ b/src/fdb5/io/FieldHandle.cc
@@ -27,7 +27,7 @@ namespace fdb5 {
 //----------------------------------------------------------------------------------------------------------------------
 
 FieldHandle::FieldHandle(ListIterator& it) :
-    datahandles_({}),
+    datahandles_(),
     totalSize_(0),
     currentIdx_(0),
     current_(nullptr),
@@ -70,8 +70,9 @@ FieldHandle::FieldHandle(ListIterator& it) :
                 ListElement element;
                 if (cube.find(i, element)) {
                     eckit::Length len = element.location().length();
-                    eckit::DataHandle* dh = element.location().dataHandle();
-                    datahandles_.push_back(std::make_pair(len, dh));
+                    std::unique_ptr<eckit::DataHandle> handle(element.location().dataHandle());
+                    const eckit::DataHandle* dh = handle.get();
+                    datahandles_.emplace_back(len, std::move(handle));
 
                     totalSize_ += len;
                     bool canSeek = dh->canSeek();
@@ -86,8 +87,9 @@ FieldHandle::FieldHandle(ListIterator& it) :
     else {
         while (it.next(el)) {
             eckit::Length len = el.location().length();
-            eckit::DataHandle* dh = el.location().dataHandle();
-            datahandles_.push_back(std::make_pair(len, dh));
+            std::unique_ptr<eckit::DataHandle> handle(el.location().dataHandle());
+            const eckit::DataHandle* dh = handle.get();
+            datahandles_.emplace_back(len, std::move(handle));
 
             totalSize_ += len;
             bool canSeek = dh->canSeek();
@@ -105,9 +107,6 @@ FieldHandle::FieldHandle(ListIterator& it) :
 }
 
 FieldHandle::~FieldHandle() {
-    for (size_t i = 0; i < datahandles_.size(); i++) {
-        delete datahandles_[i].second;
-    }
     if (current_ && currentMemoryHandle_) {
         delete current_;
     }
@@ -124,7 +123,7 @@ void FieldHandle::openCurrent() {
     if (currentIdx_ < datahandles_.size()) {
 
         eckit::Length currentSize = datahandles_[currentIdx_].first;
-        current_ = datahandles_[currentIdx_].second;
+        current_ = datahandles_[currentIdx_].second.get();
         current_->openForRead();
 
         if (!current_->canSeek()) {
diff --git a/src/fdb5/io/FieldHandle.h b/src/fdb5/io/FieldHandle.h
index 4d2750f..e06dbd4 100644
--- a/src/fdb5/io/FieldHandle.h
+++ b/src/fdb5/io/FieldHandle.h
@@ -13,6 +13,10 @@
 
 #pragma once
 
+#include <memory>
+#include <utility>
+#include <vector>
+
 #include "eckit/io/Buffer.h"
 #include "eckit/io/DataHandle.h"
 
@@ -78,7 +82,7 @@ private:
 
     // -- Members
 
-    std::vector<std::pair<eckit::Length, DataHandle*>> datahandles_;
+    std::vector<std::pair<eckit::Length, std::unique_ptr<DataHandle>>> datahandles_;
     eckit::Length totalSize_;
 
     size_t currentIdx_;
-- 
2.43.0


From 42fd2ad20f1c765f140e7f805c28f78ab8d07b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 34/46] fix: reopening a SingleGribMungePartFileHandle closes
 the file it had open

---
 src/fdb5/io/SingleGribMungePartFileHandle.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fdb5/io/SingleGribMungePartFileHandle.cc b/src/fdb5/io/SingleGribMungePartFileHandle.cc
index 4df5018..4161422 100644
--- a/src/fdb5/io/SingleGribMungePartFileHandle.cc
+++ b/src/fdb5/io/SingleGribMungePartFileHandle.cc
@@ -64,6 +64,10 @@ SingleGribMungePartFileHandle::~SingleGribMungePartFileHandle() {
 Length SingleGribMungePartFileHandle::openForRead() {
 
     pos_ = 0;
+
+    if (file_) {
+        ::fclose(file_);
+    }
     file_ = ::fopen(name_.localPath(), "r");
 
     if (!file_) {
-- 
2.43.0


From a32af5c83f255e3f789a348cd0102e473e7205ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 35/46] fix: a read that is abandoned before it was sent is
 withdrawn instead of aborting the process

---
 src/fdb5/remote/client/ReadLimiter.cc | 32 ++++++++++++++++++---------
 src/fdb5/remote/client/ReadLimiter.h  |  3 +++
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/fdb5/remote/client/ReadLimiter.cc b/src/fdb5/remote/client/ReadLimiter.cc
index d0f8b9e..b8cf982 100644
--- a/src/fdb5/remote/client/ReadLimiter.cc
+++ b/src/fdb5/remote/client/ReadLimiter.cc
@@ -12,6 +12,7 @@
 
 #include "fdb5/remote/client/RemoteStore.h"
 
+#include <algorithm>
 #include <mutex>
 #include <sstream>
 
@@ -86,21 +87,32 @@ bool ReadLimiter::tryNextRequest() {
     return true;
 }
 
+bool ReadLimiter::release(uint32_t clientID, uint32_t requestID) {
+    auto it = activeRequests_.find(clientID);
+    if (it == activeRequests_.end() || it->second.erase(requestID) == 0) {
+        return false;
+    }
+
+    auto size = resultSizes_.find({clientID, requestID});
+    ASSERT(size != resultSizes_.end());
+    memoryUsed_ -= size->second;
+    resultSizes_.erase(size);
+    return true;
+}
+
 void ReadLimiter::finishRequest(uint32_t clientID, uint32_t requestID) {
     {
         std::lock_guard<std::mutex> lock(mutex_);
 
-        auto it = activeRequests_.find(clientID);
-        if (it == activeRequests_.end()) {
-            return;
+        if (!release(clientID, requestID)) {
+            // Not sent yet, and no longer wanted
+            auto it = std::find_if(requests_.begin(), requests_.end(), [&](const RequestInfo& request) {
+                return request.client->id() == clientID && request.id == requestID;
+            });
+            if (it != requests_.end()) {
+                requests_.erase(it);
+            }
         }
-
-        auto it2 = it->second.find(requestID);
-        ASSERT(it2 != it->second.end());
-
-        memoryUsed_ -= resultSizes_[{clientID, requestID}];
-        it->second.erase(it2);
-        resultSizes_.erase({clientID, requestID});
     }
 
     tryNextRequest();
diff --git a/src/fdb5/remote/client/ReadLimiter.h b/src/fdb5/remote/client/ReadLimiter.h
index bcacc40..a3ced16 100644
--- a/src/fdb5/remote/client/ReadLimiter.h
+++ b/src/fdb5/remote/client/ReadLimiter.h
@@ -75,6 +75,9 @@ private:
 
     ReadLimiter(size_t memoryLimit);
 
+    // Forget an active request (mutex_ must be held). Returns false if there is no such request.
+    bool release(uint32_t clientID, uint32_t requestID);
+
     // Send the request to the server
     void sendRequest(const RequestInfo& request) const;
 
-- 
2.43.0


From 591be71f3a70194cfde88f02fdcba5b9affec8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 36/46] fix: all reads that wait and fit into the memory
 released are sent, not just the first one

---
 src/fdb5/remote/client/ReadLimiter.cc | 26 +++++++++++++-------------
 src/fdb5/remote/client/ReadLimiter.h  |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/fdb5/remote/client/ReadLimiter.cc b/src/fdb5/remote/client/ReadLimiter.cc
index b8cf982..3a88c0a 100644
--- a/src/fdb5/remote/client/ReadLimiter.cc
+++ b/src/fdb5/remote/client/ReadLimiter.cc
@@ -67,24 +67,24 @@ void ReadLimiter::add(RemoteStore* client, uint32_t id, const FieldLocation& fie
 
 bool ReadLimiter::tryNextRequest() {
     std::lock_guard<std::mutex> lock(mutex_);
-    if (requests_.empty()) {
-        return false;
-    }
 
-    const auto& request = requests_.front();
+    bool sent = false;
 
-    if (memoryUsed_ + request.resultSize > memoryLimit_) {
-        return false;
-    }
+    while (!requests_.empty() && memoryUsed_ + requests_.front().resultSize <= memoryLimit_) {
 
-    activeRequests_[request.client->id()].insert(request.id);
-    resultSizes_[{request.client->id(), request.id}] = request.resultSize;
-    memoryUsed_ += request.resultSize;
+        const auto& request = requests_.front();
 
-    sendRequest(request);
+        activeRequests_[request.client->id()].insert(request.id);
+        resultSizes_[{request.client->id(), request.id}] = request.resultSize;
+        memoryUsed_ += request.resultSize;
 
-    requests_.pop_front();
-    return true;
+        sendRequest(request);
+
+        requests_.pop_front();
+        sent = true;
+    }
+
+    return sent;
 }
 
 bool ReadLimiter::release(uint32_t clientID, uint32_t requestID) {
diff --git a/src/fdb5/remote/client/ReadLimiter.h b/src/fdb5/remote/client/ReadLimiter.h
index a3ced16..13290d5 100644
--- a/src/fdb5/remote/client/ReadLimiter.h
+++ b/src/fdb5/remote/client/ReadLimiter.h
@@ -55,7 +55,7 @@ public:
     void add(RemoteStore* client, uint32_t id, const FieldLocation& fieldLocation,
              const Key& remapKey);  // use const *?
 
-    // Attempt to send the next request in the queue. Returns true if a request was sent.
+    // Attempt to send the next requests in the queue, as long as they fit into the memory. Returns true if one was sent.
     // If not enough memory is available, or there is no next request, returns false.
     bool tryNextRequest();
 
-- 
2.43.0


From 1e7998a217c1574445677754883c7016b4c8047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 37/46] fix: a read that cannot be sent fails for its own
 reader and leaves no trace in the limiter

---
 src/fdb5/remote/client/ReadLimiter.cc | 17 ++++++++++++-----
 src/fdb5/remote/client/ReadLimiter.h  |  7 ++++---
 src/fdb5/remote/client/RemoteStore.cc | 24 +++++++++++++-----------
 src/fdb5/remote/client/RemoteStore.h  |  3 +++
 4 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/fdb5/remote/client/ReadLimiter.cc b/src/fdb5/remote/client/ReadLimiter.cc
index 3a88c0a..46f82f1 100644
--- a/src/fdb5/remote/client/ReadLimiter.cc
+++ b/src/fdb5/remote/client/ReadLimiter.cc
@@ -13,6 +13,7 @@
 #include "fdb5/remote/client/RemoteStore.h"
 
 #include <algorithm>
+#include <exception>
 #include <mutex>
 #include <sstream>
 
@@ -72,16 +73,22 @@ bool ReadLimiter::tryNextRequest() {
 
     while (!requests_.empty() && memoryUsed_ + requests_.front().resultSize <= memoryLimit_) {
 
-        const auto& request = requests_.front();
+        const RequestInfo request = std::move(requests_.front());
+        requests_.pop_front();
 
         activeRequests_[request.client->id()].insert(request.id);
         resultSizes_[{request.client->id(), request.id}] = request.resultSize;
         memoryUsed_ += request.resultSize;
 
-        sendRequest(request);
-
-        requests_.pop_front();
-        sent = true;
+        try {
+            sendRequest(request);
+            sent = true;
+        }
+        catch (...) {
+            // Only the reader of this request is concerned. n.b. that is not necessarily the caller.
+            release(request.client->id(), request.id);
+            request.client->readFailed(request.id, std::current_exception());
+        }
     }
 
     return sent;
diff --git a/src/fdb5/remote/client/ReadLimiter.h b/src/fdb5/remote/client/ReadLimiter.h
index 13290d5..1c940bb 100644
--- a/src/fdb5/remote/client/ReadLimiter.h
+++ b/src/fdb5/remote/client/ReadLimiter.h
@@ -26,7 +26,7 @@ namespace fdb5::remote {
 //----------------------------------------------------------------------------------------------------------------------
 
 struct RequestInfo {
-    const RemoteStore* client;  // Non-owning
+    RemoteStore* client;        // Non-owning
     uint32_t id;                // note request ids are only unique per connection. Client id is unique within a process
     eckit::Buffer requestBuffer;  // Payload to send to the server
     size_t requestSize;
@@ -55,8 +55,9 @@ public:
     void add(RemoteStore* client, uint32_t id, const FieldLocation& fieldLocation,
              const Key& remapKey);  // use const *?
 
-    // Attempt to send the next requests in the queue, as long as they fit into the memory. Returns true if one was sent.
-    // If not enough memory is available, or there is no next request, returns false.
+    // Attempt to send the next requests in the queue, as long as they fit into the memory. Returns true if a request was
+    // sent. If not enough memory is available, or there is no next request, returns false. If a request cannot be sent,
+    // this is reported to its reader.
     bool tryNextRequest();
 
     void finishRequest(uint32_t clientID, uint32_t requestID);
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 697c9c8..6d1d6ef 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -248,8 +248,6 @@ RemoteStore::~RemoteStore() {
     // stop listening otherwise it may invoke a virtual call - e.g. closeConnection()
     deregister();
 
-    std::lock_guard lock(messageMutex_);
-
     // If we have launched a thread with an async and we manage to get here, this is
     // an error. n.b. if we don't do something, we will block in the destructor
     // of std::future.
@@ -381,6 +379,18 @@ void RemoteStore::closeConnection() {
     locations_.failAll(failure);
 }
 
+void RemoteStore::readFailed(uint32_t requestID, std::exception_ptr failure) {
+    std::lock_guard lock(messageMutex_);
+    auto iter = messageQueues_.find(requestID);
+    if (iter != messageQueues_.end()) {
+        iter->second->interrupt(failure);
+
+        // Remove entry (shared_ptr --> message queue will be destroyed when it
+        // goes out of scope in the worker thread).
+        messageQueues_.erase(iter);
+    }
+}
+
 const eckit::Configuration& RemoteStore::clientConfig() const {
     return config();
 }
@@ -447,15 +457,7 @@ bool RemoteStore::handle(Message message, uint32_t requestID, eckit::Buffer&& pa
             }
 
             // ... or one that is being read
-            std::lock_guard lock(messageMutex_);
-            auto iter = messageQueues_.find(requestID);
-            if (iter != messageQueues_.end()) {
-                iter->second->interrupt(failure);
-
-                // Remove entry (shared_ptr --> message queue will be destroyed when it
-                // goes out of scope in the worker thread).
-                messageQueues_.erase(iter);
-            }
+            readFailed(requestID, failure);
             return true;
         }
         default:
diff --git a/src/fdb5/remote/client/RemoteStore.h b/src/fdb5/remote/client/RemoteStore.h
index 206b78a..16d342b 100644
--- a/src/fdb5/remote/client/RemoteStore.h
+++ b/src/fdb5/remote/client/RemoteStore.h
@@ -235,6 +235,9 @@ public:  // methods
     void doWipeEmptyDatabase() const override;
     bool doUnsafeFullWipe() const override;
 
+    // Report a failure to the reader of a request, if there is one
+    void readFailed(uint32_t requestID, std::exception_ptr failure);
+
     const Config& config() const { return config_; }
 
 protected:  // methods
-- 
2.43.0


From 1330f5ee9085106b23fa5cb4fdf1f6d873896e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:21 +0000
Subject: [PATCH 38/46] fix: a database that was created anew is interpreted
 with the schema stored in it, not with that of its predecessor

---
 src/fdb5/rules/Schema.cc     | 31 +++++++++++++++++++++++++++++++
 src/fdb5/rules/Schema.h      | 17 +++++++++++++++++
 src/fdb5/toc/TocCatalogue.cc |  2 +-
 3 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/rules/Schema.cc b/src/fdb5/rules/Schema.cc
index d24d2c9..eece3fb 100644
--- a/src/fdb5/rules/Schema.cc
+++ b/src/fdb5/rules/Schema.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <sys/stat.h>
+
 #include <cstddef>
 #include <fstream>
 #include <iostream>
@@ -274,12 +276,33 @@ const Schema& SchemaRegistry::add(const eckit::PathName& path, Schema* schema) {
 
 const Schema& SchemaRegistry::get(const eckit::PathName& path) {
     std::lock_guard lock(m_);
+    return load(path);
+}
+
+const Schema& SchemaRegistry::getStored(const eckit::PathName& path) {
+    std::lock_guard lock(m_);
+
+    auto iter = schemas_.find(path);
+
+    if (iter != schemas_.end()) {
+        const auto current = version(path);
+        if (current && current != versions_[path]) {
+            replaced_.push_back(std::move(iter->second));
+            schemas_.erase(iter);
+        }
+    }
+
+    return load(path);
+}
+
+const Schema& SchemaRegistry::load(const eckit::PathName& path) {
 
     auto iter = schemas_.find(path);
 
     if (iter == schemas_.end()) {
         bool done = false;
 
+        versions_[path] = version(path);
         std::tie(iter, done) = schemas_.emplace(path, std::make_unique<Schema>(path));
 
         ASSERT(done);
@@ -289,6 +312,14 @@ const Schema& SchemaRegistry::get(const eckit::PathName& path) {
     return *iter->second;
 }
 
+std::optional<SchemaRegistry::Version> SchemaRegistry::version(const eckit::PathName& path) {
+    struct stat st;
+    if (::stat(path.localPath(), &st) != 0) {
+        return {};
+    }
+    return Version{st.st_dev, st.st_ino, st.st_size, st.st_mtim.tv_sec, st.st_mtim.tv_nsec};
+}
+
 //----------------------------------------------------------------------------------------------------------------------
 
 }  // namespace fdb5
diff --git a/src/fdb5/rules/Schema.h b/src/fdb5/rules/Schema.h
index 2bb07fa..43b5a87 100644
--- a/src/fdb5/rules/Schema.h
+++ b/src/fdb5/rules/Schema.h
@@ -16,6 +16,9 @@
 #ifndef fdb5_Schema_H
 #define fdb5_Schema_H
 
+#include <sys/types.h>
+
+#include <ctime>
 #include <iosfwd>
 #include <map>
 #include <memory>
@@ -23,6 +26,7 @@
 #include <optional>
 #include <set>
 #include <string>
+#include <tuple>
 #include <vector>
 
 #include "eckit/filesystem/PathName.h"
@@ -141,10 +145,23 @@ public:
     const Schema& add(const eckit::PathName& path, Schema* schema);
     const Schema& get(const eckit::PathName& path);
 
+    /// Get the schema that is stored in a database. The database may have been removed and created anew, with another
+    /// schema, since the file was loaded
+    const Schema& getStored(const eckit::PathName& path);
+
 private:
 
+    /// Identifies what a file contained when it was loaded
+    using Version = std::tuple<dev_t, ino_t, off_t, time_t, long>;
+
+    static std::optional<Version> version(const eckit::PathName& path);
+
+    const Schema& load(const eckit::PathName& path);
+
     std::mutex m_;
     std::map<eckit::PathName, std::unique_ptr<Schema>> schemas_;
+    std::map<eckit::PathName, std::optional<Version>> versions_;
+    std::vector<std::unique_ptr<Schema>> replaced_;  ///< may still be in use
 };
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/fdb5/toc/TocCatalogue.cc b/src/fdb5/toc/TocCatalogue.cc
index 154a42a..51b6f97 100644
--- a/src/fdb5/toc/TocCatalogue.cc
+++ b/src/fdb5/toc/TocCatalogue.cc
@@ -72,7 +72,7 @@ const Rule& TocCatalogue::rule() const {
 
 void TocCatalogue::loadSchema() {
     Timer timer("TocCatalogue::loadSchema()", Log::debug<LibFdb5>());
-    schema_ = &SchemaRegistry::instance().get(schemaPath());
+    schema_ = &SchemaRegistry::instance().getStored(schemaPath());
     rule_ = &schema_->matchingRule(dbKey_);
 }
 
-- 
2.43.0


From fbd8a8f00311a527d7e27e06404b4be3f2380c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 39/46] fix: pyfdb.FDB(user_config=...) without a config keeps
 the user configuration

---
 src/pyfdb/pyfdb.py             |  5 +----
 src/pyfdb_bindings/bindings.cc | 12 +++++++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pyfdb/pyfdb.py b/src/pyfdb/pyfdb.py
index 5794c81..f71a43b 100644
--- a/src/pyfdb/pyfdb.py
+++ b/src/pyfdb/pyfdb.py
@@ -104,12 +104,9 @@ class FDB:
         config = ConfigMapper.to_json(config)
         user_config = ConfigMapper.to_json(user_config)
 
-        if config is not None and user_config is not None:
+        if config is not None or user_config is not None:
             internal_config = Config(config, user_config)
             self.FDB = _FDB(internal_config)
-        elif config is not None:
-            internal_config = Config(config, None)
-            self.FDB = _FDB(internal_config)
         else:
             self.FDB = _FDB()
 
diff --git a/src/pyfdb_bindings/bindings.cc b/src/pyfdb_bindings/bindings.cc
index 234367e..7269d80 100644
--- a/src/pyfdb_bindings/bindings.cc
+++ b/src/pyfdb_bindings/bindings.cc
@@ -30,6 +30,7 @@
 #include <string>
 #include <utility>
 #include <vector>
+#include "eckit/config/LocalConfiguration.h"
 #include "eckit/config/YAMLConfiguration.h"
 #include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/URI.h"
@@ -154,11 +155,16 @@ PYBIND11_MODULE(pyfdb_bindings, m) {
 
     py::class_<fdb5::Config>(m, "Config")
         .def(py::init([]() { return fdb5::Config(); }))
-        .def(py::init([](const std::string& config, const std::optional<std::string>& user_config) {
+        .def(py::init([](const std::optional<std::string>& config, const std::optional<std::string>& user_config) {
+            if (!config.has_value()) {
+                return user_config.has_value()
+                           ? fdb5::Config(eckit::LocalConfiguration(), eckit::YAMLConfiguration(user_config.value()))
+                           : fdb5::Config();
+            }
             if (user_config.has_value()) {
-                return fdb5::Config(eckit::YAMLConfiguration(config), eckit::YAMLConfiguration(user_config.value()));
+                return fdb5::Config(eckit::YAMLConfiguration(config.value()), eckit::YAMLConfiguration(user_config.value()));
             }
-            return fdb5::Config(eckit::YAMLConfiguration(config));
+            return fdb5::Config(eckit::YAMLConfiguration(config.value()));
         }))
         .def("json",
              [](const fdb5::Config& config) {
-- 
2.43.0


From 2ea636192ca10dc65e938e5825a3e29c9010cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 40/46] fix: a failure to locate a listed element raises in
 Python instead of looking like an element without location

---
 src/pyfdb_bindings/bindings.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/pyfdb_bindings/bindings.cc b/src/pyfdb_bindings/bindings.cc
index 7269d80..cc906bb 100644
--- a/src/pyfdb_bindings/bindings.cc
+++ b/src/pyfdb_bindings/bindings.cc
@@ -358,22 +358,18 @@ PYBIND11_MODULE(pyfdb_bindings, m) {
              })
         .def("uri",
              [](const fdb5::ListElement& list_element) -> std::optional<eckit::URI> {
-                 try {
-                     return list_element.location().uri();
-                 }
-                 catch (std::exception& exception) {
+                 if (!list_element.hasLocation()) {
                      return std::nullopt;
-                 };
+                 }
+                 return list_element.location().uri();
              })
         .def(
             "data_handle",
             [](const fdb5::ListElement& list_element) -> std::optional<std::shared_ptr<eckit::DataHandle>> {
-                try {
-                    return std::shared_ptr<eckit::DataHandle>(list_element.location().dataHandle());
-                }
-                catch (std::exception& exception) {
+                if (!list_element.hasLocation()) {
                     return std::nullopt;
-                };
+                }
+                return std::shared_ptr<eckit::DataHandle>(list_element.location().dataHandle());
             },
             py::return_value_policy::reference_internal)
         .def("__repr__", [](const fdb5::ListElement& list_element) {
-- 
2.43.0


From 393ba86fff8c97a1e93f96070acd4dda7b7c3970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 41/46] fix: WipeElement.type returns the WipeElementType it is
 declared to return

---
 src/pyfdb/pyfdb_iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyfdb/pyfdb_iterator.py b/src/pyfdb/pyfdb_iterator.py
index 2af06e2..1367448 100644
--- a/src/pyfdb/pyfdb_iterator.py
+++ b/src/pyfdb/pyfdb_iterator.py
@@ -280,7 +280,7 @@ class WipeElement:
         self._element: _WipeElement = wipe_element
 
     def type(self) -> WipeElementType:
-        return self._element.type()
+        return WipeElementType._from_raw(self._element.type())
 
     def msg(self) -> str:
         return self._element.msg()
-- 
2.43.0


From 4fe0365a8711106dbc072b4ac6d0ab456da0acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 42/46] fix: a DataHandle whose open failed is not marked as
 opened

---
 src/pyfdb/pyfdb_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyfdb/pyfdb_type.py b/src/pyfdb/pyfdb_type.py
index b755d93..bcbe6bd 100644
--- a/src/pyfdb/pyfdb_type.py
+++ b/src/pyfdb/pyfdb_type.py
@@ -196,8 +196,8 @@ class DataHandle:
         """
         if self.opened is True:
             return
-        self.opened = True
         self.dataHandle.open()
+        self.opened = True
 
     def close(self) -> None:
         """
-- 
2.43.0


From c430aa648e63fbdbd0f46644911af265f044a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 43/46] fix: parts of a chunked data view whose fields differ
 in size are rejected

---
 src/chunked_data_view/ChunkedDataViewImpl.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/chunked_data_view/ChunkedDataViewImpl.cc b/src/chunked_data_view/ChunkedDataViewImpl.cc
index 2e11627..4eb2e59 100644
--- a/src/chunked_data_view/ChunkedDataViewImpl.cc
+++ b/src/chunked_data_view/ChunkedDataViewImpl.cc
@@ -81,6 +81,13 @@ ChunkedDataViewImpl::ChunkedDataViewImpl(std::vector<std::pair<ViewPart, std::sh
         size_t extensionOnExtensionAxis = 0;
 
         for (const auto& [part, _] : parts_) {
+            // The buffer of a chunk is sized by the first part: a part with other fields doesn't fit into it
+            if (part.layout().countValues != first_part.layout().countValues) {
+                std::ostringstream ss;
+                ss << "ChunkedDataViewImpl: Field size mismatch. All fields in a view need to be of equal size, got "
+                   << first_part.layout().countValues << " and " << part.layout().countValues;
+                throw eckit::UserError(ss.str());
+            }
             for (size_t idx = 0; idx < chunkedDataViewShape_.size(); ++idx) {
                 if (idx == extensionAxisIndex_) {
                     extensionOnExtensionAxis += part.extension()[idx];
-- 
2.43.0


From 61fa96cb836a33bd9bc5227527c0ac9d950c330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 44/46] fix: a chunk with two messages for one field and none
 for another is an error

---
 src/chunked_data_view/GribExtractor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/chunked_data_view/GribExtractor.cc b/src/chunked_data_view/GribExtractor.cc
index bd958e6..a158b4f 100644
--- a/src/chunked_data_view/GribExtractor.cc
+++ b/src/chunked_data_view/GribExtractor.cc
@@ -26,6 +26,7 @@
 #include <memory>
 #include <ostream>
 #include <sstream>
+#include <unordered_set>
 
 namespace chunked_data_view {
 
@@ -76,6 +77,7 @@ size_t GribExtractor::writeInto(std::unique_ptr<ListIteratorInterface> list_iter
 
     bool iterator_empty = true;
     size_t messagesWritten = 0;
+    std::unordered_set<size_t> filled;
 
     while (auto res = list_iterator->next()) {
 
@@ -104,6 +106,12 @@ size_t GribExtractor::writeInto(std::unique_ptr<ListIteratorInterface> list_iter
                    << ". All fields in your view need to be of equal size.";
                 throw eckit::Exception(ss.str());
             }
+            if (!filled.insert(msgIndex).second) {
+                // Counting it would hide a field that is missing
+                std::ostringstream ss;
+                ss << "GribExtractor: More than one GRIB message found for key: " << key;
+                throw eckit::Exception(ss.str());
+            }
             msg.getFloatArray("values", copyInto, ctx.layout.countValues);
             if (msg.getLong("bitmapPresent") != 0) {
                 const auto gribMissing = static_cast<float>(msg.getDouble("missingValue"));
-- 
2.43.0


From 07849515ef83c3bd0b6d48cb3a3e0e4b2bf60a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 45/46] fix: a chunked data view with a part that lacks the
 extension axis is rejected

---
 src/chunked_data_view/ChunkedDataViewBuilder.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chunked_data_view/ChunkedDataViewBuilder.cc b/src/chunked_data_view/ChunkedDataViewBuilder.cc
index c939248..0482421 100644
--- a/src/chunked_data_view/ChunkedDataViewBuilder.cc
+++ b/src/chunked_data_view/ChunkedDataViewBuilder.cc
@@ -95,9 +95,9 @@ std::unique_ptr<ChunkedDataView> ChunkedDataViewBuilder::build() {
         throw eckit::UserError(
             "ChunkedDataViewBuilder::build: Must specify an extension axis if multiple parts are specified.");
     }
-    if (extensionAxisIndex_.has_value()) {
-        const auto& firstPartAxis = std::get<1>(parts_[0]);
-        if (extensionAxisIndex_.value() >= firstPartAxis.size()) {
+    // Every part is placed along the extension axis, which is the first one by default
+    for (const auto& part : parts_) {
+        if (extensionAxisIndex_.value_or(0) >= std::get<1>(part).size()) {
             throw eckit::UserError("ChunkedDataViewBuilder::build: ExtensionAxis is not referring to a valid axis.");
         }
     }
-- 
2.43.0


From e121c80b10fe984ce63fb88aa9b1058dc378df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 46/46] fix: a chunked data view can be built more than once
 from the same builder

---
 src/chunked_data_view/ChunkedDataViewBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunked_data_view/ChunkedDataViewBuilder.cc b/src/chunked_data_view/ChunkedDataViewBuilder.cc
index 0482421..525d7cf 100644
--- a/src/chunked_data_view/ChunkedDataViewBuilder.cc
+++ b/src/chunked_data_view/ChunkedDataViewBuilder.cc
@@ -124,7 +124,7 @@ std::unique_ptr<ChunkedDataView> ChunkedDataViewBuilder::build() {
             ViewPart vp(std::move(request), layout, axes, offsetInChunkedDataView);
             part_offsets.push_back(part_offsets.back() + vp.extension()[extensionAxisIndex_.value_or(0)]);
 
-            viewParts.emplace_back(std::move(vp), std::move(ext));
+            viewParts.emplace_back(std::move(vp), ext);
         }
         catch (const std::exception& e) {
             std::ostringstream ss;
-- 
2.43.0

