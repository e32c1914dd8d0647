From a55fba35eb3e775601f785933a8168f4953f3059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:45 +0000
Subject: [PATCH 01/38] fix: RLP::payload() must reject items whose header plus
 payload exceed the data

The bound ignored the header bytes, so for a truncated item payload() returned
a null view and toBytes() read through it.
---
 libdevcore/RLP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdevcore/RLP.h b/libdevcore/RLP.h
index a80bd77..2af7219 100644
--- a/libdevcore/RLP.h
+++ b/libdevcore/RLP.h
@@ -395,7 +395,7 @@ public:
     /// @returns the data payload. Valid for all types.
     bytesConstRef payload() const {
         auto l = length();
-        if ( l > m_data.size() )
+        if ( l && payloadOffset() + l > m_data.size() )
             BOOST_THROW_EXCEPTION( BadRLP() );
         return m_data.cropped( payloadOffset(), l );
     }
-- 
2.43.0


From cd28459724ef4c8057f1a28e4c667a2468c57473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:45 +0000
Subject: [PATCH 02/38] fix: RLP list end iterator must point at the end of the
 item

With trailing bytes after the item (allowed by the non-strict modes) begin()
could never reach end(), so iterating the list did not terminate.
---
 libdevcore/RLP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdevcore/RLP.cpp b/libdevcore/RLP.cpp
index 8bbd3e2..6f37aa4 100644
--- a/libdevcore/RLP.cpp
+++ b/libdevcore/RLP.cpp
@@ -71,7 +71,7 @@ RLP::iterator::iterator( RLP const& _parent, bool _begin ) {
         m_currentItem = pl.cropped( 0, sizeAsEncoded( pl ) );
         m_remaining = pl.size() - m_currentItem.size();
     } else {
-        m_currentItem = _parent.data().cropped( _parent.data().size() );
+        m_currentItem = _parent.data().cropped( _parent.actualSize(), 0 );
         m_remaining = 0;
     }
 }
-- 
2.43.0


From e613e8edb8e2536fd8363967ad4b977c327103a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:21 +0000
Subject: [PATCH 03/38] fix: SecureFixedHash |= and &= must not compute
 exclusive or

---
 libdevcore/FixedHash.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libdevcore/FixedHash.h b/libdevcore/FixedHash.h
index 0375657..b01c4e8 100644
--- a/libdevcore/FixedHash.h
+++ b/libdevcore/FixedHash.h
@@ -406,14 +406,14 @@ public:
         return SecureFixedHash( *this ) ^= _c;
     }
     SecureFixedHash& operator|=( FixedHash< T > const& _c ) {
-        static_cast< FixedHash< T >& >( *this ).operator^=( _c );
+        static_cast< FixedHash< T >& >( *this ).operator|=( _c );
         return *this;
     }
     SecureFixedHash operator|( FixedHash< T > const& _c ) const {
         return SecureFixedHash( *this ) |= _c;
     }
     SecureFixedHash& operator&=( FixedHash< T > const& _c ) {
-        static_cast< FixedHash< T >& >( *this ).operator^=( _c );
+        static_cast< FixedHash< T >& >( *this ).operator&=( _c );
         return *this;
     }
     SecureFixedHash operator&( FixedHash< T > const& _c ) const {
@@ -429,7 +429,7 @@ public:
         return SecureFixedHash( *this ) ^= _c;
     }
     SecureFixedHash& operator|=( SecureFixedHash const& _c ) {
-        static_cast< FixedHash< T >& >( *this ).operator^=(
+        static_cast< FixedHash< T >& >( *this ).operator|=(
             static_cast< FixedHash< T > const& >( _c ) );
         return *this;
     }
@@ -437,7 +437,7 @@ public:
         return SecureFixedHash( *this ) |= _c;
     }
     SecureFixedHash& operator&=( SecureFixedHash const& _c ) {
-        static_cast< FixedHash< T >& >( *this ).operator^=(
+        static_cast< FixedHash< T >& >( *this ).operator&=(
             static_cast< FixedHash< T > const& >( _c ) );
         return *this;
     }
-- 
2.43.0


From 30581136ee7dbc9ebb9b7ddc3d5bf3d27c3aed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:19 +0000
Subject: [PATCH 04/38] fix: RangeMask::lowest must not overflow when asked for
 more items than remain

---
 libdevcore/RangeMask.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdevcore/RangeMask.h b/libdevcore/RangeMask.h
index 180a222..36a831c 100644
--- a/libdevcore/RangeMask.h
+++ b/libdevcore/RangeMask.h
@@ -67,7 +67,8 @@ public:
         RangeMask ret( m_all );
         for ( auto i = m_ranges.begin(); i != m_ranges.end() && _items; ++i )
             _items -=
-                ( ret.m_ranges[i->first] = std::min( i->first + _items, i->second ) ) - i->first;
+                ( ret.m_ranges[i->first] = i->first + std::min( _items, i->second - i->first ) ) -
+                i->first;
         return ret;
     }
 
-- 
2.43.0


From ca28cbfd6c903bd9c11d8b7f3e43e861079cb3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:19 +0000
Subject: [PATCH 05/38] fix: RangeMask::next of the largest unsigned must
 report the end, not wrap around

---
 libdevcore/RangeMask.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdevcore/RangeMask.h b/libdevcore/RangeMask.h
index 36a831c..df90717 100644
--- a/libdevcore/RangeMask.h
+++ b/libdevcore/RangeMask.h
@@ -191,7 +191,8 @@ public:
     /// @returns the smallest element in the range mask that is larger than _t or the end of the
     /// base range if such an element does not exist.
     unsigned next( unsigned _t ) const {
-        _t++;
+        if ( ++_t == 0 )
+            return m_all.second;  // nothing is larger than the largest unsigned
         // find next item in range at least _t
         auto uit = m_ranges.upper_bound( _t );  // > _t
         auto it = uit == m_ranges.begin() ? m_ranges.end() : std::prev( uit );
-- 
2.43.0


From 16e97ea6082b71aafa4add463fa80a0b81b83b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:19 +0000
Subject: [PATCH 06/38] fix: RangeMask difference with a mask of a wider ground
 range must not add elements

---
 libdevcore/RangeMask.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libdevcore/RangeMask.h b/libdevcore/RangeMask.h
index df90717..e25eb1f 100644
--- a/libdevcore/RangeMask.h
+++ b/libdevcore/RangeMask.h
@@ -102,6 +102,13 @@ public:
     RangeMask& operator-=( S const& _m ) {
         return invert().unionWith( _m ).invert();
     }
+    /// Removes the elements of the range mask _m, taking also the union of the ground ranges.
+    RangeMask& operator-=( RangeMask _m ) {
+        // extend the ground range first: the complement is relative to it
+        m_all.first = std::min( _m.m_all.first, m_all.first );
+        m_all.second = std::max( _m.m_all.second, m_all.second );
+        return invert().unionWith( _m ).invert();
+    }
 
     RangeMask& operator+=( RangeMask const& _m ) { return unionWith( _m ); }
 
-- 
2.43.0


From e42b527c4ea2d5a8764523358cbb7e406f36cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:51 +0000
Subject: [PATCH 07/38] fix: SelfdestructStorageLimitPatch can be named in the
 configuration

---
 libethereum/SchainPatch.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libethereum/SchainPatch.cpp b/libethereum/SchainPatch.cpp
index fde678f..c46ff5c 100644
--- a/libethereum/SchainPatch.cpp
+++ b/libethereum/SchainPatch.cpp
@@ -26,6 +26,8 @@ SchainPatchEnum getEnumForPatchName( const std::string& _patchName ) {
         return SchainPatchEnum::StorageDestructionPatch;
     else if ( _patchName == "SkipInvalidTransactionsPatch" )
         return SchainPatchEnum::SkipInvalidTransactionsPatch;
+    else if ( _patchName == "SelfdestructStorageLimitPatch" )
+        return SchainPatchEnum::SelfdestructStorageLimitPatch;
     else if ( _patchName == "VerifyDaSigsPatch" )
         return SchainPatchEnum::VerifyDaSigsPatch;
     else if ( _patchName == "FastConsensusPatch" )
-- 
2.43.0


From d7ae2d0920c3ab1d85db8b5be170e241cde94d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:47 +0000
Subject: [PATCH 08/38] fix: uploadChunk must reject input shorter than the
 declared chunk

---
 libethereum/Precompiled.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libethereum/Precompiled.cpp b/libethereum/Precompiled.cpp
index bfcff6b..84072b9 100644
--- a/libethereum/Precompiled.cpp
+++ b/libethereum/Precompiled.cpp
@@ -351,10 +351,14 @@ ETH_REGISTER_FS_PRECOMPILED( uploadChunk )( bytesConstRef _in, skale::OverlayFS*
             throw std::runtime_error(
                 "uploadChunk() failed because chunk gets out of the file bounds" );
         }
-        const _byte_* data =
-            _in.cropped( 128 + filenameBlocksCount * UINT256_SIZE, dataLength ).data();
+        bytesConstRef const data =
+            _in.cropped( 128 + filenameBlocksCount * UINT256_SIZE, dataLength );
+        if ( data.size() != dataLength ) {
+            throw std::runtime_error(
+                "uploadChunk() failed because input is shorter than the declared chunk" );
+        }
 
-        _overlayFS->writeChunk( filePath.string(), position, dataLength, data );
+        _overlayFS->writeChunk( filePath.string(), position, dataLength, data.data() );
 
         u256 code = 1;
         bytes response = toBigEndian( code );
-- 
2.43.0


From a0c005129f6e5eb4e3ddc453b3dde548c85a1c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:48 +0000
Subject: [PATCH 09/38] fix: uploadChunk bounds check must not wrap around

---
 libethereum/Precompiled.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libethereum/Precompiled.cpp b/libethereum/Precompiled.cpp
index 84072b9..9044a69 100644
--- a/libethereum/Precompiled.cpp
+++ b/libethereum/Precompiled.cpp
@@ -347,7 +347,8 @@ ETH_REGISTER_FS_PRECOMPILED( uploadChunk )( bytesConstRef _in, skale::OverlayFS*
         size_t const dataLength = byteDataLength.convert_to< size_t >();
 
         const fs::path filePath = getFileStorageDir( Address( address ) ) / filename;
-        if ( position + dataLength > stat_compute_file_size( filePath.c_str() ) ) {
+        size_t const fileSize = stat_compute_file_size( filePath.c_str() );
+        if ( position > fileSize || dataLength > fileSize - position ) {
             throw std::runtime_error(
                 "uploadChunk() failed because chunk gets out of the file bounds" );
         }
-- 
2.43.0


From 9be8769138a91591ed8603ff02629019cda9d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:23 +0000
Subject: [PATCH 10/38] fix: LogFilter must not read a topic that the log entry
 does not have

---
 libethereum/LogFilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libethereum/LogFilter.cpp b/libethereum/LogFilter.cpp
index 6e98d87..c6a04b5 100644
--- a/libethereum/LogFilter.cpp
+++ b/libethereum/LogFilter.cpp
@@ -139,7 +139,7 @@ LogEntries LogFilter::matches( TransactionReceipt const& _m ) const {
                 goto continue2;
             for ( unsigned i = 0; i < 4; ++i )
                 if ( !m_topics[i].empty() &&
-                     ( e.topics.size() < i || find( m_topics[i].begin(), m_topics[i].end(),
+                     ( e.topics.size() <= i || find( m_topics[i].begin(), m_topics[i].end(),
                                                   e.topics[i] ) == m_topics[i].end() ) )
                     goto continue2;
             ret.push_back( e );
-- 
2.43.0


From 196078f13030e832a1fe7d9f66231f3ebc6118f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 11/38] fix: unddos settings with per-method limits could not
 be loaded

The result of find() in the settings of one method was compared with end() of the
enclosing object, which nlohmann::json refuses with invalid_iterator.
---
 libskutils/src/unddos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libskutils/src/unddos.cpp b/libskutils/src/unddos.cpp
index 5d74c63..55515f6 100644
--- a/libskutils/src/unddos.cpp
+++ b/libskutils/src/unddos.cpp
@@ -188,9 +188,9 @@ void origin_entry_setting::fromJSON( const nlohmann::json& jo ) {
         for ( auto it = joCMS.cbegin(); it != joCMS.cend(); ++it ) {
             const nlohmann::json& joMethod = it.value();
             custom_method_setting cme;
-            if ( joMethod.find( "max_calls_per_second" ) != jo.end() )
+            if ( joMethod.find( "max_calls_per_second" ) != joMethod.end() )
                 cme.max_calls_per_second_ = joMethod["max_calls_per_second"].get< size_t >();
-            if ( joMethod.find( "max_calls_per_minute" ) != jo.end() )
+            if ( joMethod.find( "max_calls_per_minute" ) != joMethod.end() )
                 cme.max_calls_per_minute_ = joMethod["max_calls_per_minute"].get< size_t >();
             map_custom_method_settings_[it.key()] = cme;
         }
-- 
2.43.0


From 8e4ced7774bc7208e9e1b37b91962fd22be4da00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 12/38] fix: unddos forgot the ban of an origin when its calls
 left the time window

A ban longer than the window (the default one is 120 seconds, the window 60) ended
as soon as all calls of the origin were unloaded.
---
 libskutils/src/unddos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libskutils/src/unddos.cpp b/libskutils/src/unddos.cpp
index 55515f6..b73ea5b 100644
--- a/libskutils/src/unddos.cpp
+++ b/libskutils/src/unddos.cpp
@@ -673,8 +673,8 @@ size_t algorithm::unload_old_data_by_time_to_past(
         tracked_origin& to = const_cast< tracked_origin& >( *itWalk );
         size_t cntWalk = to.unload_old_data_by_time_to_past( ttmNow, durationToPast );
         cnt += cntWalk;
-        if ( to.time_entries_.empty() ) {
-            setOriginsTorRemove.insert( to.origin_ );  // TO-FIX: do not unload banned
+        if ( to.time_entries_.empty() && !to.check_ban( ttmNow ) ) {
+            setOriginsTorRemove.insert( to.origin_ );
         }
     }
     for ( const std::string& origin : setOriginsTorRemove )
-- 
2.43.0


From 89f304bb9ef031938976d9dc558097f18963695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 13/38] fix: unddos skipped the global limit for the first call
 of an origin

The first call of every origin was admitted before the whole-server limit was looked
at, so calls from changing origins were never limited.
---
 libskutils/src/unddos.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libskutils/src/unddos.cpp b/libskutils/src/unddos.cpp
index b73ea5b..8ed63fc 100644
--- a/libskutils/src/unddos.cpp
+++ b/libskutils/src/unddos.cpp
@@ -701,11 +701,8 @@ e_high_load_detection_result_t algorithm::register_call_from_origin(
     unload_old_data_by_time_to_past( ttmNow, durationToPast );  // unload first
     tracked_origins_t::iterator itFind = tracked_origins_.find( origin ),
                                 itEnd = tracked_origins_.end();
-    if ( itFind == itEnd ) {
-        tracked_origin to( origin, ttmNow );
-        tracked_origins_.insert( to );
-        return e_high_load_detection_result_t::ehldr_no_error;
-    }
+    if ( itFind == itEnd )
+        itFind = tracked_origins_.insert( tracked_origin( origin ) ).first;
     // return detect_high_load( origin.ttmNow, durationToPast )
     tracked_origin& to = const_cast< tracked_origin& >( *itFind );
     to.time_entries_.push_back( time_entry( ttmNow ) );
-- 
2.43.0


From ad0499aae3d57bf85dee6e825a3d94535baea197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 14/38] fix: unddos call counting missed bursts and lost the
 recent calls

After cntOptimizedMaxSteps entries the count was extrapolated from the age of the
last entry visited, which for a burst gives just the number of entries visited, so
limits above 16 were never reached by calls of the same second. The exact recount
did not restart at the newest call and so left out all entries visited before.
The entries are ordered by time, so find both ends of the window instead.
---
 libskutils/src/unddos.cpp | 47 ++++++---------------------------------
 1 file changed, 7 insertions(+), 40 deletions(-)

diff --git a/libskutils/src/unddos.cpp b/libskutils/src/unddos.cpp
index 8ed63fc..1e72bd2 100644
--- a/libskutils/src/unddos.cpp
+++ b/libskutils/src/unddos.cpp
@@ -575,52 +575,19 @@ size_t tracked_origin::unload_old_data_by_count( size_t cntEntriesMax ) {
 }
 
 size_t tracked_origin::count_to_past( time_tick_mark ttmNow, duration durationToPast,
-    size_t cntOptimizedMaxSteps, size_t cntTargetUnDDoS ) const {
+    size_t cntOptimizedMaxSteps, size_t /*cntTargetUnDDoS*/ ) const {
     // if ( durationToPast == duration( 0 ) )
     //    return 0;
     if ( cntOptimizedMaxSteps == 0 )
         return 0;
     adjust_now_tick_mark( ttmNow );
     time_tick_mark ttmUntil = ttmNow - durationToPast;
-    size_t cnt = 0, idxStep;
-    bool bNeedReScaling = false;
-    time_tick_mark ttRescaling = ttmUntil;
-    time_entries_t::const_reverse_iterator itWalk = time_entries_.crbegin(),
-                                           itEnd = time_entries_.crend();
-    for ( idxStep = 0; itWalk != itEnd; ++itWalk, ++idxStep ) {
-        const time_entry& te = ( *itWalk );
-        if ( ttmUntil <= te.ttm_ && te.ttm_ <= ttmNow ) {
-            ++cnt;
-            ttRescaling = te.ttm_ - ttmUntil;
-        }
-        if ( cntOptimizedMaxSteps != 0 && cntOptimizedMaxSteps != size_t( -1 ) &&
-             idxStep >= cntOptimizedMaxSteps ) {
-            bNeedReScaling = true;
-            break;
-        }
-    }
-    if ( bNeedReScaling && cnt > 0 ) {
-        bool isNeedRescan = false;
-        if ( ttRescaling > 0 ) {
-            cnt *= durationToPast;
-            cnt /= ttRescaling;
-            if ( cntTargetUnDDoS != 0 && cntTargetUnDDoS != size_t( -1 ) && cnt >= cntTargetUnDDoS )
-                isNeedRescan = true;
-        } else
-            isNeedRescan = true;
-        if ( isNeedRescan ) {
-            // need exact full result
-            cnt = 0;
-            time_entries_.crbegin();
-            itEnd = time_entries_.crend();
-            for ( idxStep = 0; itWalk != itEnd; ++itWalk, ++idxStep ) {
-                const time_entry& te = ( *itWalk );
-                if ( ttmUntil <= te.ttm_ && te.ttm_ <= ttmNow )
-                    ++cnt;
-            }
-        }
-    }
-    return cnt;
+    // entries are ordered by time
+    time_entries_t::const_iterator itTo = std::upper_bound(
+        time_entries_.cbegin(), time_entries_.cend(), time_entry( ttmNow ) );
+    time_entries_t::const_iterator itFrom =
+        std::lower_bound( time_entries_.cbegin(), itTo, time_entry( ttmUntil ) );
+    return size_t( itTo - itFrom );
 }
 
 bool tracked_origin::clear_ban() {
-- 
2.43.0


From 9b8f18df6db1291a7fb468dda1c6bc9547dd55e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 15/38] fix: unddos counted refused connections, which nobody
 unregisters

SkaleWsPeer forgets its origin when the registration is refused, so a refused
connection stayed in the counters forever and the origin (or the whole server) was
refused even after all of its connections had been closed.
---
 libskutils/src/unddos.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/libskutils/src/unddos.cpp b/libskutils/src/unddos.cpp
index 1e72bd2..f359ffe 100644
--- a/libskutils/src/unddos.cpp
+++ b/libskutils/src/unddos.cpp
@@ -732,14 +732,14 @@ bool algorithm::is_ban_ws_conn_for_origin( const char* origin ) const {
     if ( origin == nullptr || origin[0] == '\0' )
         return true;
     lock_type lock( mtx_ );
-    if ( ws_conn_count_global_ > settings_.global_limit_.max_ws_conn_ )
+    if ( ws_conn_count_global_ >= settings_.global_limit_.max_ws_conn_ )
         return true;
     map_ws_conn_counts_t::const_iterator itFind = map_ws_conn_counts_.find( origin ),
                                          itEnd = map_ws_conn_counts_.end();
     if ( itFind == itEnd )
         return false;
     const origin_entry_setting& oe = settings_.find_origin_entry_setting( origin );
-    if ( itFind->second > oe.max_ws_conn_ )
+    if ( itFind->second >= oe.max_ws_conn_ )
         return true;
     return false;
 }
@@ -750,19 +750,16 @@ e_high_load_detection_result_t algorithm::register_ws_conn_for_origin( const cha
     if ( origin == nullptr || origin[0] == '\0' )
         return e_high_load_detection_result_t::ehldr_bad_origin;
     lock_type lock( mtx_ );
-    ++ws_conn_count_global_;
-    if ( ws_conn_count_global_ > settings_.global_limit_.max_ws_conn_ )
+    if ( ws_conn_count_global_ >= settings_.global_limit_.max_ws_conn_ )
         return e_high_load_detection_result_t::ehldr_peak;
     map_ws_conn_counts_t::iterator itFind = map_ws_conn_counts_.find( origin ),
                                    itEnd = map_ws_conn_counts_.end();
-    if ( itFind == itEnd ) {
-        map_ws_conn_counts_[origin] = 1;
-        itFind = map_ws_conn_counts_.find( origin );
-    } else
-        ++itFind->second;
+    const size_t cntOrigin = ( itFind == itEnd ) ? 0 : itFind->second;
     const origin_entry_setting& oe = settings_.find_origin_entry_setting( origin );
-    if ( itFind->second > oe.max_ws_conn_ )
+    if ( cntOrigin >= oe.max_ws_conn_ )
         return e_high_load_detection_result_t::ehldr_peak;
+    ++ws_conn_count_global_;
+    map_ws_conn_counts_[origin] = cntOrigin + 1;
     return e_high_load_detection_result_t::ehldr_no_error;
 }
 
-- 
2.43.0


From 0485074c4b762900d3ff44c6853d744e80ebff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 16/38] fix: unddos unregistering an unknown origin lowered the
 global connection count

The call reports that nothing was registered, but another connection was then
admitted above the whole-server limit.
---
 libskutils/src/unddos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libskutils/src/unddos.cpp b/libskutils/src/unddos.cpp
index f359ffe..bae1bed 100644
--- a/libskutils/src/unddos.cpp
+++ b/libskutils/src/unddos.cpp
@@ -770,8 +770,6 @@ bool algorithm::unregister_ws_conn_for_origin( const char* origin ) {
         return false;
     }
     lock_type lock( mtx_ );
-    if ( ws_conn_count_global_ > 0 )
-        --ws_conn_count_global_;
     map_ws_conn_counts_t::iterator itFind = map_ws_conn_counts_.find( origin ),
                                    itEnd = map_ws_conn_counts_.end();
     if ( itFind == itEnd ) {
@@ -779,6 +777,8 @@ bool algorithm::unregister_ws_conn_for_origin( const char* origin ) {
             return true;
         return false;
     }
+    if ( ws_conn_count_global_ > 0 )
+        --ws_conn_count_global_;
     if ( itFind->second >= 1 )
         --itFind->second;
     if ( itFind->second == 0 )
-- 
2.43.0


From 1b420e2fbd9b936c647507897d678ea6ac8e423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:33 +0000
Subject: [PATCH 17/38] fix: prefix iteration of a split database uses the
 prefix byte, not its decimal text

---
 libdevcore/SplitDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdevcore/SplitDB.cpp b/libdevcore/SplitDB.cpp
index 8965628..b44380c 100644
--- a/libdevcore/SplitDB.cpp
+++ b/libdevcore/SplitDB.cpp
@@ -104,7 +104,7 @@ void SplitDB::PrefixedDB::forEach( std::function< bool( Slice, Slice ) > f ) con
 void SplitDB::PrefixedDB::forEachWithPrefix(
     std::string& _prefix, std::function< bool( Slice, Slice ) > f ) const {
     std::unique_lock< std::shared_mutex > lock( this->backend_mutex );
-    auto prefixedString = std::to_string( this->prefix ) + _prefix;
+    auto prefixedString = std::string( 1, this->prefix ) + _prefix;
     backend->forEachWithPrefix( prefixedString, [&]( Slice _key, Slice _val ) -> bool {
         if ( _key[0] != this->prefix )
             return true;
-- 
2.43.0


From 046a3c7a3df416daa7fc835bfdfe6b7739e42e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:33 +0000
Subject: [PATCH 18/38] fix: prefix iteration of a db_splitter interface looks
 inside its own key space

---
 libbatched-io/batched_db.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libbatched-io/batched_db.cpp b/libbatched-io/batched_db.cpp
index 4168ca4..cf62498 100644
--- a/libbatched-io/batched_db.cpp
+++ b/libbatched-io/batched_db.cpp
@@ -61,7 +61,8 @@ void db_splitter::prefixed_db::forEach(
 
 void db_splitter::prefixed_db::forEachWithPrefix(
     std::string& _prefix, std::function< bool( dev::db::Slice, dev::db::Slice ) > f ) const {
-    backend->forEachWithPrefix( _prefix, [&]( dev::db::Slice _key, dev::db::Slice _val ) -> bool {
+    std::string prefix2 = std::string( 1, this->prefix ) + _prefix;
+    backend->forEachWithPrefix( prefix2, [&]( dev::db::Slice _key, dev::db::Slice _val ) -> bool {
         if ( _key[0] != this->prefix )
             return true;
         dev::db::Slice key_short = dev::db::Slice( _key.data() + 1, _key.size() - 1 );
-- 
2.43.0


From d259eca29c159c27981d0609da93e3d5c50015fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:58 +0000
Subject: [PATCH 19/38] fix: a rotating database looked through a newer empty
 value to an older one

---
 libdevcore/ManuallyRotatingLevelDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdevcore/ManuallyRotatingLevelDB.cpp b/libdevcore/ManuallyRotatingLevelDB.cpp
index 4f36242..25e5aeb 100644
--- a/libdevcore/ManuallyRotatingLevelDB.cpp
+++ b/libdevcore/ManuallyRotatingLevelDB.cpp
@@ -21,7 +21,7 @@ std::string ManuallyRotatingLevelDB::lookup( Slice _key ) const {
 
     for ( const auto& p : *io_backend ) {
         const std::string& v = p->lookup( _key );
-        if ( !v.empty() )
+        if ( !v.empty() || p->exists( _key ) )
             return v;
     }
     return std::string();
-- 
2.43.0


From 75ccfe4ef232043efef498b0df9432f3746b1c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:58 +0000
Subject: [PATCH 20/38] fix: iterating over a rotating database did not stop
 when the callback asked to

---
 libdevcore/ManuallyRotatingLevelDB.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libdevcore/ManuallyRotatingLevelDB.cpp b/libdevcore/ManuallyRotatingLevelDB.cpp
index 25e5aeb..3a50831 100644
--- a/libdevcore/ManuallyRotatingLevelDB.cpp
+++ b/libdevcore/ManuallyRotatingLevelDB.cpp
@@ -62,16 +62,26 @@ void ManuallyRotatingLevelDB::commit( std::unique_ptr< WriteBatchFace > _batch )
 
 void ManuallyRotatingLevelDB::forEach( std::function< bool( Slice, Slice ) > f ) const {
     std::shared_lock< std::shared_mutex > lock( m_mutex );
+    bool keepIterating = true;
     for ( const auto& p : *io_backend ) {
-        p->forEach( f );
+        p->forEach( [&]( Slice _key, Slice _value ) -> bool {
+            return keepIterating = f( _key, _value );
+        } );
+        if ( !keepIterating )
+            break;
     }
 }
 
 void ManuallyRotatingLevelDB::forEachWithPrefix(
     std::string& _prefix, std::function< bool( Slice, Slice ) > f ) const {
     std::shared_lock< std::shared_mutex > lock( m_mutex );
+    bool keepIterating = true;
     for ( const auto& p : *io_backend ) {
-        p->forEachWithPrefix( _prefix, f );
+        p->forEachWithPrefix( _prefix, [&]( Slice _key, Slice _value ) -> bool {
+            return keepIterating = f( _key, _value );
+        } );
+        if ( !keepIterating )
+            break;
     }
 }
 
-- 
2.43.0


From eeb0db2d8bf595d85fa720394cd24466a78486b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:58 +0000
Subject: [PATCH 21/38] fix: a rotating database in archive mode answered from
 the oldest archive first

---
 libbatched-io/batched_rotating_db_io.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libbatched-io/batched_rotating_db_io.cpp b/libbatched-io/batched_rotating_db_io.cpp
index 35b1606..5d36b0a 100644
--- a/libbatched-io/batched_rotating_db_io.cpp
+++ b/libbatched-io/batched_rotating_db_io.cpp
@@ -60,8 +60,9 @@ rotating_db_io::rotating_db_io(
             if ( !boost::filesystem::exists( path ) )
                 break;
 
+            // the newest archive goes first, right after the rotating pieces
             DatabaseFace* db = new LevelDB( path );
-            pieces.emplace_back( db );
+            pieces.emplace( pieces.begin() + n_pieces, db );
         }  // for
     }      // archive_mode
 }
@@ -85,7 +86,7 @@ void rotating_db_io::rotate() {
         boost::filesystem::rename( oldest_path, new_archive_path );
         test_crash_before_commit( "after_rename_oldest" );
         DatabaseFace* new_archive_db = new LevelDB( new_archive_path );
-        pieces.emplace_back( new_archive_db );
+        pieces.emplace( pieces.begin() + n_pieces - 1, new_archive_db );
     } else {
         boost::filesystem::remove_all( oldest_path );  // delete oldest
         test_crash_before_commit( "after_remove_oldest" );
-- 
2.43.0


From 75a8873c711dc7c346a9ac0303df882b4d4af64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:25 +0000
Subject: [PATCH 22/38] fix: LevelDB::kill uses the database handle without the
 reopen guard

---
 libdevcore/LevelDB.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libdevcore/LevelDB.cpp b/libdevcore/LevelDB.cpp
index ba019a4..2195b0a 100644
--- a/libdevcore/LevelDB.cpp
+++ b/libdevcore/LevelDB.cpp
@@ -202,7 +202,11 @@ void LevelDB::insert( Slice _key, Slice _value ) {
 
 void LevelDB::kill( Slice _key ) {
     leveldb::Slice const key( _key.data(), _key.size() );
-    auto const status = m_db->Delete( m_writeOptions, key );
+    leveldb::Status status;
+    {
+        SharedDBGuard lock( *this );
+        status = m_db->Delete( m_writeOptions, key );
+    }
     // At this point the key is not actually deleted. It will be deleted when the batch
     // is committed
     g_keysToBeDeletedStats++;
-- 
2.43.0


From 1aaca2cc74a47f9eb20340c7fa130907b21a782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:08 +0000
Subject: [PATCH 23/38] fix: toSlice of empty bytes indexed an empty vector

---
 libskale/OverlayDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libskale/OverlayDB.cpp b/libskale/OverlayDB.cpp
index 113cb99..5a4a897 100644
--- a/libskale/OverlayDB.cpp
+++ b/libskale/OverlayDB.cpp
@@ -58,7 +58,7 @@ dev::db::Slice toSlice( dev::h256 const& _h ) {
 }
 
 dev::db::Slice toSlice( dev::bytes const& _b ) {
-    return dev::db::Slice( reinterpret_cast< char const* >( &_b[0] ), _b.size() );
+    return dev::db::Slice( reinterpret_cast< char const* >( _b.data() ), _b.size() );
 }
 
 dev::db::Slice toSlice( dev::h160 const& _h ) {
-- 
2.43.0


From 904cca14cb4cac2eb0e343bec035608f9c6dfdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:48 +0000
Subject: [PATCH 24/38] fix: deletions in the state overlay were not visible
 before the commit, survived a rollback, and were lost when the key was cached

---
 libskale/OverlayDB.cpp | 78 ++++++++++++++----------------------------
 1 file changed, 25 insertions(+), 53 deletions(-)

diff --git a/libskale/OverlayDB.cpp b/libskale/OverlayDB.cpp
index 5a4a897..be0d5de 100644
--- a/libskale/OverlayDB.cpp
+++ b/libskale/OverlayDB.cpp
@@ -179,8 +179,11 @@ void OverlayDB::commit( const std::string& _debugCommitId ) {
                 for ( auto const& addressValuePair : m_cache ) {
                     h160 const& address = addressValuePair.first;
                     bytes const& value = addressValuePair.second;
-                    m_db_face->insert(
-                        skale::slicing::toSlice( address ), skale::slicing::toSlice( value ) );
+                    if ( !value.empty() )
+                        m_db_face->insert(
+                            skale::slicing::toSlice( address ), skale::slicing::toSlice( value ) );
+                    else if ( m_db_face->exists( skale::slicing::toSlice( address ) ) )
+                        m_db_face->kill( skale::slicing::toSlice( address ) );
                 }
                 for ( auto const& addressSpacePair : m_auxiliaryCache ) {
                     h160 const& address = addressSpacePair.first;
@@ -189,9 +192,12 @@ void OverlayDB::commit( const std::string& _debugCommitId ) {
                         _byte_ space = spaceValuePair.first;
                         bytes const& value = spaceValuePair.second;
 
-                        m_db_face->insert(
-                            skale::slicing::toSlice( getAuxiliaryKey( address, space ) ),
-                            skale::slicing::toSlice( value ) );
+                        bytes const key = getAuxiliaryKey( address, space );
+                        if ( !value.empty() )
+                            m_db_face->insert(
+                                skale::slicing::toSlice( key ), skale::slicing::toSlice( value ) );
+                        else if ( m_db_face->exists( skale::slicing::toSlice( key ) ) )
+                            m_db_face->kill( skale::slicing::toSlice( key ) );
                     }
                 }
 
@@ -248,16 +254,15 @@ void OverlayDB::commit( const std::string& _debugCommitId ) {
 }
 
 string OverlayDB::lookupAuxiliary( h160 const& _address, _byte_ _space ) const {
-    string value;
     auto addressSpacePairPtr = m_auxiliaryCache.find( _address );
     if ( addressSpacePairPtr != m_auxiliaryCache.end() ) {
         auto spaceValuePtr = addressSpacePairPtr->second.find( _space );
         if ( spaceValuePtr != addressSpacePairPtr->second.end() ) {
-            value = string( spaceValuePtr->second.begin(), spaceValuePtr->second.end() );
+            return string( spaceValuePtr->second.begin(), spaceValuePtr->second.end() );
         }
     }
-    if ( !value.empty() || !m_db_face )
-        return value;
+    if ( !m_db_face )
+        return string();
 
     std::string const loadedValue =
         m_db_face->lookup( skale::slicing::toSlice( getAuxiliaryKey( _address, _space ) ) );
@@ -268,29 +273,8 @@ string OverlayDB::lookupAuxiliary( h160 const& _address, _byte_ _space ) const {
 }
 
 void OverlayDB::killAuxiliary( const dev::h160& _address, _byte_ _space ) {
-    bool cache_hit = false;
-    auto spaces_ptr = m_auxiliaryCache.find( _address );
-    if ( spaces_ptr != m_auxiliaryCache.end() ) {
-        auto value_ptr = spaces_ptr->second.find( _space );
-        if ( value_ptr != spaces_ptr->second.end() ) {
-            cache_hit = true;
-            spaces_ptr->second.erase( value_ptr );
-            if ( spaces_ptr->second.empty() ) {
-                m_auxiliaryCache.erase( spaces_ptr );
-            }
-        }
-    }
-    if ( !cache_hit ) {
-        if ( m_db_face ) {
-            bytes key = getAuxiliaryKey( _address, _space );
-            if ( m_db_face->exists( skale::slicing::toSlice( key ) ) ) {
-                // NB! This is not committed! So, this can be reverted
-                m_db_face->kill( skale::slicing::toSlice( key ) );
-            } else {
-                ctrace << "Try to delete non existing key " << _address << "(" << _space << ")";
-            }
-        }
-    }
+    // an empty value marks the key as deleted until it is committed or rolled back
+    m_auxiliaryCache[_address][_space].clear();
 }
 
 void OverlayDB::insertAuxiliary(
@@ -448,37 +432,25 @@ dev::bytes OverlayDB::getStorageKey(
 }
 
 string OverlayDB::lookup( h160 const& _h ) const {
-    string ret;
     auto p = m_cache.find( _h );
-    if ( p != m_cache.end() ) {
-        ret = string( p->second.begin(), p->second.end() );
-    }
-    if ( !ret.empty() || !m_db_face )
-        return ret;
+    if ( p != m_cache.end() )
+        return string( p->second.begin(), p->second.end() );
+    if ( !m_db_face )
+        return string();
 
     return m_db_face->lookup( skale::slicing::toSlice( _h ) );
 }
 
 bool OverlayDB::exists( h160 const& _h ) const {
-    if ( m_cache.find( _h ) != m_cache.end() )
-        return true;
+    auto p = m_cache.find( _h );
+    if ( p != m_cache.end() )
+        return !p->second.empty();
     return m_db_face && m_db_face->exists( skale::slicing::toSlice( _h ) );
 }
 
 void OverlayDB::kill( h160 const& _h ) {
-    auto p = m_cache.find( _h );
-    if ( p != m_cache.end() ) {
-        m_cache.erase( p );
-    } else {
-        if ( m_db_face ) {
-            if ( m_db_face->exists( skale::slicing::toSlice( _h ) ) ) {
-                // NB! This is not committed! So, this can be reverted
-                m_db_face->kill( skale::slicing::toSlice( _h ) );
-            } else {
-                ctrace << "Try to delete non existing key " << _h;
-            }
-        }
-    }
+    // an empty value marks the key as deleted until it is committed or rolled back
+    m_cache[_h].clear();
 }
 
 void OverlayDB::insert( const dev::h160& _address, dev::bytesConstRef _value ) {
-- 
2.43.0


From 561c8112f7406d2edaf358395d8c54b0b3b7168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:09 +0000
Subject: [PATCH 25/38] fix: rollback of the state overlay kept the transaction
 hash, the receipts and the storage counter

---
 libskale/OverlayDB.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libskale/OverlayDB.cpp b/libskale/OverlayDB.cpp
index be0d5de..19fd885 100644
--- a/libskale/OverlayDB.cpp
+++ b/libskale/OverlayDB.cpp
@@ -384,6 +384,9 @@ void OverlayDB::rollback() {
     m_cache.clear();
     m_auxiliaryCache.clear();
     m_storageCache.clear();
+    lastExecutedTransactionHash.reset();
+    lastExecutedTransactionReceipts.reset();
+    storageUsed_ = storageUsed();
 }
 
 void OverlayDB::clearDB() {
-- 
2.43.0


From 1f90b86072f469cfd3958ec3b5911607dd59253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:09 +0000
Subject: [PATCH 26/38] fix: clearDB of the state overlay kept slices of keys
 beyond the iteration

---
 libskale/OverlayDB.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libskale/OverlayDB.cpp b/libskale/OverlayDB.cpp
index 19fd885..37e2a34 100644
--- a/libskale/OverlayDB.cpp
+++ b/libskale/OverlayDB.cpp
@@ -391,13 +391,13 @@ void OverlayDB::rollback() {
 
 void OverlayDB::clearDB() {
     if ( m_db_face ) {
-        vector< Slice > keys;
+        vector< string > keys;  // a slice is valid only during its callback
         m_db_face->forEach( [&keys]( Slice key, Slice ) {
-            keys.push_back( key );
+            keys.emplace_back( key.begin(), key.end() );
             return true;
         } );
         for ( const auto& key : keys ) {
-            m_db_face->kill( key );
+            m_db_face->kill( skale::slicing::toSlice( key ) );
         }
         m_db_face->commit( "clearDB" );
     }
-- 
2.43.0


From 99718f59207769c53139af0f54c6db5341241723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:37 +0000
Subject: [PATCH 27/38] fix: revert the first touch of an empty account by
 nonce and storage changes

addBalance logs the first touch of an empty clean account so that a rollback
leaves the account untouched; incNonce, setNonce, setStorage and
clearStorageValue changed the account without logging the touch, so after a
rollback it stayed touched and was written (or removed) at the commit.
---
 libskale/State.cpp | 17 +++++++++++++++--
 libskale/State.h   |  3 +++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/libskale/State.cpp b/libskale/State.cpp
index 3fdfb4e..35f82b2 100644
--- a/libskale/State.cpp
+++ b/libskale/State.cpp
@@ -586,6 +586,7 @@ u256 State::balance( Address const& _id ) const {
 void State::incNonce( Address const& _addr ) {
     if ( eth::Account* a = account( _addr ) ) {
         auto oldNonce = a->nonce();
+        logFirstTouch( _addr, *a );
         a->incNonce();
         m_changeLog.emplace_back( _addr, oldNonce );
     } else
@@ -596,6 +597,7 @@ void State::incNonce( Address const& _addr ) {
 void State::setNonce( Address const& _addr, u256 const& _newNonce ) {
     if ( eth::Account* a = account( _addr ) ) {
         auto oldNonce = a->nonce();
+        logFirstTouch( _addr, *a );
         a->setNonce( _newNonce );
         m_changeLog.emplace_back( _addr, oldNonce );
     } else
@@ -603,6 +605,13 @@ void State::setNonce( Address const& _addr, u256 const& _newNonce ) {
         createAccount( _addr, eth::Account( _newNonce, m_initial_funds ) );
 }
 
+void State::logFirstTouch( Address const& _address, eth::Account const& _account ) {
+    // Empty touched accounts are cleared after the transaction, so the first touch of an empty
+    // account must be reverted together with the change that touched it.
+    if ( !_account.isDirty() && _account.isEmpty() )
+        m_changeLog.emplace_back( Change::Touch, _address );
+}
+
 void State::addBalance( Address const& _id, u256 const& _amount ) {
     if ( eth::Account* a = account( _id ) ) {
         // Log empty account being touched. Empty touched accounts are cleared
@@ -731,8 +740,10 @@ u256 State::storage( Address const& _id, u256 const& _key ) const {
 void State::setStorage( Address const& _contract, u256 const& _key, u256 const& _value ) {
     dev::u256 _currentValue = storage( _contract, _key );
 
+    eth::Account& account = m_cache[_contract];
+    logFirstTouch( _contract, account );
     m_changeLog.emplace_back( _contract, _key, _currentValue );
-    m_cache[_contract].setStorage( _key, _value );
+    account.setStorage( _key, _value );
 
     int count = 0;
 
@@ -752,8 +763,10 @@ void State::setStorage( Address const& _contract, u256 const& _key, u256 const&
 
 void State::clearStorageValue(
     Address const& _contract, u256 const& _key, u256 const& _currentValue ) {
+    eth::Account& account = m_cache[_contract];
+    logFirstTouch( _contract, account );
     m_changeLog.emplace_back( _contract, _key, _currentValue );
-    m_cache[_contract].setStorage( _key, 0 );
+    account.setStorage( _key, 0 );
 
     int count;
 
diff --git a/libskale/State.h b/libskale/State.h
index 4e8d7b4..ec2d445 100644
--- a/libskale/State.h
+++ b/libskale/State.h
@@ -431,6 +431,9 @@ private:
 
     void createAccount( dev::Address const& _address, dev::eth::Account const&& _account );
 
+    /// Logs the first touch of an empty account; to be called before the change is made.
+    void logFirstTouch( dev::Address const& _address, dev::eth::Account const& _account );
+
     /// @returns true when normally halted; false when exceptionally halted; throws when internal VM
     /// exception occurred.
     bool executeTransaction(
-- 
2.43.0


From b1fc73920df0dc437b1ed9b76e8d8718c90b41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:37 +0000
Subject: [PATCH 28/38] fix: setBalance on an absent account took the initial
 funds for zero

addBalance creates an absent account with the initial funds plus the amount,
so setBalance left initial funds + value instead of value.
---
 libskale/State.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libskale/State.cpp b/libskale/State.cpp
index 35f82b2..c098de8 100644
--- a/libskale/State.cpp
+++ b/libskale/State.cpp
@@ -649,7 +649,7 @@ void State::subBalance( Address const& _addr, u256 const& _value ) {
 
 void State::setBalance( Address const& _addr, u256 const& _value ) {
     eth::Account* a = account( _addr );
-    u256 original = a ? a->balance() : 0;
+    u256 original = a ? a->balance() : m_initial_funds;
 
     // Fall back to addBalance().
     addBalance( _addr, _value - original );
-- 
2.43.0


From efb27f86656e27357c1624009848d620377e4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:13 +0000
Subject: [PATCH 29/38] fix: refuse typed transactions whose chain id does not
 fit 64 bits

The chain id was read as a 256-bit number and truncated to 64 bits, so
transactions of another chain whose id is congruent modulo 2^64 were taken
for transactions of this chain.
---
 libethcore/TransactionBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libethcore/TransactionBase.cpp b/libethcore/TransactionBase.cpp
index 55dbeb1..58b84bc 100644
--- a/libethcore/TransactionBase.cpp
+++ b/libethcore/TransactionBase.cpp
@@ -184,7 +184,7 @@ void TransactionBase::fillFromBytesType1(
             BOOST_THROW_EXCEPTION(
                 InvalidTransactionFormat() << errinfo_comment( "transaction RLP must be a list" ) );
 
-        m_chainId = rlp[0].toInt< u256 >();
+        m_chainId = rlp[0].toInt< uint64_t >();
         m_nonce = rlp[1].toInt< u256 >();
         m_gasPrice = rlp[2].toInt< u256 >();
         m_gas = rlp[3].toInt< u256 >();
@@ -245,7 +245,7 @@ void TransactionBase::fillFromBytesType2(
             BOOST_THROW_EXCEPTION(
                 InvalidTransactionFormat() << errinfo_comment( "transaction RLP must be a list" ) );
 
-        m_chainId = rlp[0].toInt< u256 >();
+        m_chainId = rlp[0].toInt< uint64_t >();
         m_nonce = rlp[1].toInt< u256 >();
         m_maxPriorityFeePerGas = rlp[2].toInt< u256 >();
         m_maxFeePerGas = rlp[3].toInt< u256 >();
-- 
2.43.0


From 9ffcc5a4af5c3c40e6718c4d332c4a4214f34402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:59 +0000
Subject: [PATCH 30/38] fix: the cost of a transaction's gas wrapped at 256
 bits when checked against the balance

---
 libethereum/Executive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libethereum/Executive.cpp b/libethereum/Executive.cpp
index 4de4951..e208f8c 100644
--- a/libethereum/Executive.cpp
+++ b/libethereum/Executive.cpp
@@ -225,7 +225,7 @@ void Executive::verifyTransaction( Transaction const& _transaction, time_t _comm
         }
 
         // Avoid unaffordable transactions.
-        bigint gasCost = static_cast< bigint >( _transaction.gas() * _transaction.gasPrice() );
+        bigint gasCost = static_cast< bigint >( _transaction.gas() ) * _transaction.gasPrice();
         if ( _transaction.hasExternalGas() ) {
             gasCost = 0;
         }
-- 
2.43.0


From 52ee76a9804cd7d54e4340574beb641503c7b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:03 +0000
Subject: [PATCH 31/38] fix: refuse type 2 transactions whose priority fee
 exceeds their maximal fee

---
 libethcore/TransactionBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libethcore/TransactionBase.cpp b/libethcore/TransactionBase.cpp
index 58b84bc..71943cd 100644
--- a/libethcore/TransactionBase.cpp
+++ b/libethcore/TransactionBase.cpp
@@ -249,7 +249,7 @@ void TransactionBase::fillFromBytesType2(
         m_nonce = rlp[1].toInt< u256 >();
         m_maxPriorityFeePerGas = rlp[2].toInt< u256 >();
         m_maxFeePerGas = rlp[3].toInt< u256 >();
-        if ( m_maxPriorityFeePerGas > m_maxPriorityFeePerGas )
+        if ( m_maxPriorityFeePerGas > m_maxFeePerGas )
             BOOST_THROW_EXCEPTION( InvalidTransactionFormat() << errinfo_comment(
                                        "maxFeePerGas cannot be less than maxPriorityFeePerGas (The "
                                        "total must be the larger of the two)" ) );
-- 
2.43.0


From 1f463561f28b46564b399a37cc011b2079a51869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:03 +0000
Subject: [PATCH 32/38] fix: signature parity of typed transactions above 1 was
 taken for 1

---
 libethcore/TransactionBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libethcore/TransactionBase.cpp b/libethcore/TransactionBase.cpp
index 71943cd..5b4a4f7 100644
--- a/libethcore/TransactionBase.cpp
+++ b/libethcore/TransactionBase.cpp
@@ -205,7 +205,7 @@ void TransactionBase::fillFromBytesType1(
 
         m_accessList = validateAccessListRLP( rlp[7] );
 
-        bool const yParity = rlp[8].toInt< uint8_t >();
+        _byte_ const yParity = rlp[8].toInt< uint8_t >();
         h256 const r = rlp[9].toInt< u256 >();
         h256 const s = rlp[10].toInt< u256 >();
 
@@ -273,7 +273,7 @@ void TransactionBase::fillFromBytesType2(
 
         m_accessList = validateAccessListRLP( rlp[8] );
 
-        bool const yParity = rlp[9].toInt< uint8_t >();
+        _byte_ const yParity = rlp[9].toInt< uint8_t >();
         h256 const r = rlp[10].toInt< u256 >();
         h256 const s = rlp[11].toInt< u256 >();
 
-- 
2.43.0


From 4d23bcc1271b9a93c597917a6cb449d4bbeaff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:30 +0000
Subject: [PATCH 33/38] fix: the chain id of an unsigned legacy transaction was
 cut to 64 bits

---
 libethcore/TransactionBase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libethcore/TransactionBase.cpp b/libethcore/TransactionBase.cpp
index 5b4a4f7..5bb97c8 100644
--- a/libethcore/TransactionBase.cpp
+++ b/libethcore/TransactionBase.cpp
@@ -131,6 +131,8 @@ void TransactionBase::fillFromBytesLegacy(
         h256 const s = rlp[8].toInt< u256 >();
 
         if ( isZeroSignature( r, s ) ) {
+            if ( v > std::numeric_limits< uint64_t >::max() )
+                BOOST_THROW_EXCEPTION( InvalidSignature() );
             m_chainId = static_cast< uint64_t >( v );
             m_vrs = SignatureStruct{ r, s, 0 };
         } else {
-- 
2.43.0


From a44c93a7a77de377192ff33becd1b55bb190d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:43 +0000
Subject: [PATCH 34/38] fix: re-encoding a legacy transaction with a large
 chain id wrapped its v

---
 libethcore/TransactionBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libethcore/TransactionBase.cpp b/libethcore/TransactionBase.cpp
index 5bb97c8..96b3cef 100644
--- a/libethcore/TransactionBase.cpp
+++ b/libethcore/TransactionBase.cpp
@@ -414,7 +414,7 @@ void TransactionBase::streamLegacyTransaction(
         if ( hasZeroSignature() )
             _s << ( m_chainId.has_value() ? *m_chainId : 0 );
         else {
-            uint64_t const vOffset = m_chainId.has_value() ? *m_chainId * 2 + 35 : 27;
+            u256 const vOffset = m_chainId.has_value() ? u256{ *m_chainId } * 2 + 35 : u256{ 27 };
             _s << ( m_vrs->v + vOffset );
         }
         _s << ( u256 ) m_vrs->r << ( u256 ) m_vrs->s;
-- 
2.43.0


From fb520d35b64ed491f7d9760d4d7d7887c474c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:13 +0000
Subject: [PATCH 35/38] fix: a revert reason was read from outside the returned
 data

---
 libskutils/src/eth_utils.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/libskutils/src/eth_utils.cpp b/libskutils/src/eth_utils.cpp
index 62cecb0..265cf56 100644
--- a/libskutils/src/eth_utils.cpp
+++ b/libskutils/src/eth_utils.cpp
@@ -2,8 +2,6 @@
 #include <skutils/eth_utils.h>
 #include <algorithm>
 
-#include <arpa/inet.h>
-
 namespace skutils {
 
 namespace eth {
@@ -15,12 +13,17 @@ std::string call_error_message_2_str( const vec_bytes& b ) {
     // see https://solidity.readthedocs.io/en/v0.5.6/control-structures.html?highlight=require
     if ( b.size() <= 4 + 32 + 32 || b[0] != 0x08 || b[1] != 0xc3 || b[2] != 0x79 || b[3] != 0xa0 )
         return std::string( "" );
-    int offset = 4 + 32 + ntohl( *( ( int* ) ( b.data() + 32 ) ) );
-    int length = ntohl( *( ( int* ) ( b.data() + 64 ) ) );
-    char buf[length + 1];
-    buf[length] = 0;
-    std::copy( b.begin() + offset, b.begin() + offset + length, buf );
-    return std::string( buf );
+    auto const readUint32 = [&b]( size_t pos ) -> size_t {
+        return ( size_t( b[pos] ) << 24 ) | ( size_t( b[pos + 1] ) << 16 ) |
+               ( size_t( b[pos + 2] ) << 8 ) | size_t( b[pos + 3] );
+    };
+    // the data comes from a contract: offset and length can be anything
+    size_t const offset = 4 + 32 + readUint32( 32 );
+    size_t const length = readUint32( 64 );
+    if ( offset > b.size() || length > b.size() - offset )
+        return std::string( "" );
+    auto const first = b.begin() + offset;
+    return std::string( first, std::find( first, first + length, 0 ) );
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 896f7e15465d7464012225607fa557192269d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:13 +0000
Subject: [PATCH 36/38] fix: memory accesses beyond 4 GiB wrapped to the start
 of the memory

---
 libevm/LegacyVM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libevm/LegacyVM.cpp b/libevm/LegacyVM.cpp
index a6d6425..f5af790 100644
--- a/libevm/LegacyVM.cpp
+++ b/libevm/LegacyVM.cpp
@@ -348,7 +348,7 @@ void LegacyVM::interpretCases() {
             ON_OP();
             updateIOGas();
 
-            m_SPP[0] = ( u256 ) * ( h256 const* ) ( m_mem.data() + ( unsigned ) m_SP[0] );
+            m_SPP[0] = ( u256 ) * ( h256 const* ) ( m_mem.data() + ( size_t ) m_SP[0] );
         }
         NEXT
 
@@ -357,7 +357,7 @@ void LegacyVM::interpretCases() {
             ON_OP();
             updateIOGas();
 
-            *( h256* ) &m_mem[( unsigned ) m_SP[0]] = ( h256 ) m_SP[1];
+            *( h256* ) &m_mem[( size_t ) m_SP[0]] = ( h256 ) m_SP[1];
         }
         NEXT
 
@@ -366,7 +366,7 @@ void LegacyVM::interpretCases() {
             ON_OP();
             updateIOGas();
 
-            m_mem[( unsigned ) m_SP[0]] = ( _byte_ )( m_SP[1] & 0xff );
+            m_mem[( size_t ) m_SP[0]] = ( _byte_ )( m_SP[1] & 0xff );
         }
         NEXT
 
-- 
2.43.0


From 037cb7b11477bb1464ef93b3830fe15d02cea3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:22 +0000
Subject: [PATCH 37/38] fix: TransactionQueue hands out transactions twice when
 several are taken at once

topTransactions extracted a node and then stepped from it; the extracted node has
no successor any more. Step forward before extracting.
---
 libethereum/TransactionQueue.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libethereum/TransactionQueue.cpp b/libethereum/TransactionQueue.cpp
index 16e726e..28d1e94 100644
--- a/libethereum/TransactionQueue.cpp
+++ b/libethereum/TransactionQueue.cpp
@@ -192,11 +192,12 @@ Transactions TransactionQueue::topTransactions_WITH_LOCK(
     PriorityQueue::iterator my_begin = m_current.lower_bound( dummy );
 
     for ( PriorityQueue::iterator transaction_ptr = my_begin;
-          top_transactions.size() < _limit && transaction_ptr != m_current.end();
-          ++transaction_ptr ) {
+          top_transactions.size() < _limit && transaction_ptr != m_current.end(); ) {
         top_transactions.push_back( transaction_ptr->transaction );
+        // step forward first: an extracted node has no successor
+        PriorityQueue::iterator taken_ptr = transaction_ptr++;
         if ( _setCategory >= 0 ) {
-            found.push_back( m_current.extract( transaction_ptr ) );
+            found.push_back( m_current.extract( taken_ptr ) );
         }
     }
 
-- 
2.43.0


From 5db3b9731705c178f739e15f739ee975a7171e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:22 +0000
Subject: [PATCH 38/38] fix: TransactionQueue kept transactions out of order
 when a sender's lowest nonce changed

The comparator of the priority queue depends on the lowest ready nonce of the sender.
When a transaction with a lower nonce came in, or the lowest one left, the other
transactions of the sender stayed where they were, so that a later transaction could be
handed out before an earlier one of the same sender. Place them anew.
---
 libethereum/TransactionQueue.cpp | 23 ++++++++++++++++++++++-
 libethereum/TransactionQueue.h   |  4 +++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/libethereum/TransactionQueue.cpp b/libethereum/TransactionQueue.cpp
index 28d1e94..5b9e0e5 100644
--- a/libethereum/TransactionQueue.cpp
+++ b/libethereum/TransactionQueue.cpp
@@ -312,6 +312,20 @@ u256 TransactionQueue::maxCurrentNonce_WITH_LOCK( Address const& _a ) const {
     return ret;
 }
 
+void TransactionQueue::reorder_WITH_LOCK( Address const& _a ) {
+    // The comparator depends on the lowest nonce of the sender, so that all its transactions have
+    // to be placed anew when that nonce changes.
+    auto cs = m_currentByAddressAndNonce.find( _a );
+    if ( cs == m_currentByAddressAndNonce.end() )
+        return;
+
+    std::vector< PriorityQueue::node_type > nodes;
+    for ( auto const& nonceAndHandle : cs->second )
+        nodes.push_back( m_current.extract( nonceAndHandle.second ) );
+    for ( PriorityQueue::node_type& node : nodes )
+        m_current.insert( std::move( node ) );
+}
+
 void TransactionQueue::insertCurrent_WITH_LOCK( std::pair< h256, Transaction > const& _p ) {
     if ( m_currentByHash.count( _p.first ) ) {
         cwarn << "Transaction hash" << _p.first << "already in current?!";
@@ -328,6 +342,8 @@ void TransactionQueue::insertCurrent_WITH_LOCK( std::pair< h256, Transaction > c
     inserted.first->second = handle;
     m_currentByHash[_p.first] = handle;
 #pragma GCC diagnostic pop
+    if ( inserted.first == m_currentByAddressAndNonce[t.from()].begin() )
+        reorder_WITH_LOCK( t.from() );
     m_currentSizeBytes += t.toBytes().size();
 
     // Move following transactions from future to current
@@ -345,12 +361,15 @@ bool TransactionQueue::remove_WITH_LOCK( h256 const& _txHash ) {
     Address from = ( *t->second ).transaction.from();
     auto it = m_currentByAddressAndNonce.find( from );
     assert( it != m_currentByAddressAndNonce.end() );
+    bool const wasLowest = it->second.begin()->second == t->second;
     it->second.erase( ( *t->second ).transaction.nonce() );
     m_currentSizeBytes -= ( *t->second ).transaction.toBytes().size();
     m_current.erase( t->second );
     m_currentByHash.erase( t );
     if ( it->second.empty() )
         m_currentByAddressAndNonce.erase( it );
+    else if ( wasLowest )
+        reorder_WITH_LOCK( from );
     m_known.erase( _txHash );
     return true;
 }
@@ -444,8 +463,10 @@ void TransactionQueue::makeCurrent_WITH_LOCK( Transaction const& _t ) {
         }
     }
 
-    if ( newCurrent )
+    if ( newCurrent ) {
+        reorder_WITH_LOCK( _t.from() );
         m_onReady();
+    }
 }
 
 void TransactionQueue::drop( h256 const& _txHash ) {
diff --git a/libethereum/TransactionQueue.h b/libethereum/TransactionQueue.h
index d089c40..1a067fc 100644
--- a/libethereum/TransactionQueue.h
+++ b/libethereum/TransactionQueue.h
@@ -283,7 +283,8 @@ public:
 
 private:
     // Use a set with dynamic comparator for minmax priority queue. The comparator takes into
-    // account min account nonce. Updating it does not affect the order.
+    // account min account nonce. When that changes, reorder_WITH_LOCK places the transactions of
+    // the account anew.
     using PriorityQueue = boost::container::multiset< VerifiedTransaction, PriorityCompare >;
 
     ImportResult import(
@@ -301,6 +302,7 @@ private:
     void insertCurrent_WITH_LOCK( std::pair< h256, Transaction > const& _p );
     void makeCurrent_WITH_LOCK( Transaction const& _t );
     bool remove_WITH_LOCK( h256 const& _txHash );
+    void reorder_WITH_LOCK( Address const& _a );
     u256 maxNonce_WITH_LOCK( Address const& _a ) const;
     u256 maxCurrentNonce_WITH_LOCK( Address const& _a ) const;
     void setFuture_WITH_LOCK( h256 const& _t );
-- 
2.43.0

