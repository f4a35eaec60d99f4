From ce9e6de6e19d1ee91d6123689b79af1ab1eaeec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 01/93] fix: assertion recursion flag is per thread, concurrent
 failures are not recursion

---
 src/AssertBoost.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/AssertBoost.cpp b/src/AssertBoost.cpp
index 0c361a7..42526b3 100644
--- a/src/AssertBoost.cpp
+++ b/src/AssertBoost.cpp
@@ -75,7 +75,16 @@ void AssertBoostClearFns() {
     post_msg_fns.clear();
 }
 
+// The recursion flag has to be per-thread; otherwise two threads that fail an
+// assertion at the same time look like a recursive failure, and a failure that
+// a hook would have turned into an exception kills the program instead.
+#if defined(_MSC_VER)
+static __declspec(thread) bool assert_boost_fail_recurse;
+#elif defined(__GNUC__)
+static __thread bool assert_boost_fail_recurse;
+#else
 static bool assert_boost_fail_recurse;
+#endif
 
 static void AssertBoostFailOutput(const char *expression, const char *file, 
 				  int line, const string &msg) {
-- 
2.43.0


From 8e7bceb07aa535b7dc315bd56219c1acd6a5a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 02/93] fix: failed lock in an ordered scoped lock restores the
 ordering level

---
 include/Lintel/PThread.hpp.in | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/PThread.hpp.in b/include/Lintel/PThread.hpp.in
index 84bc0bc..a9bdb64 100644
--- a/include/Lintel/PThread.hpp.in
+++ b/include/Lintel/PThread.hpp.in
@@ -235,7 +235,12 @@ public:
 	: mutex(_mutex), ordering_group(NULL), mutex_level(_mutex_level)
     {
 	old_level = group.scopeDown(mutex_level);
-	mutex.lock();
+	try {
+	    mutex.lock();
+	} catch (...) { // assertion mapped to an exception; we hold nothing.
+	    group.scopeUp(mutex_level, old_level);
+	    throw;
+	}
 	// Only set this up if we are sure we could scope down; otherwise
 	// if the assertion is mapped to an exception in scopeDown, we 
 	// blow up in the destructor.
-- 
2.43.0


From b7e6643443c4b9489caabf5f1e8cdfb319448c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 03/93] fix: failed start of a signal-blocking thread restores
 the caller's signal mask

---
 src/PThread.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PThread.cpp b/src/PThread.cpp
index bd0e094..0fef389 100644
--- a/src/PThread.cpp
+++ b/src/PThread.cpp
@@ -290,7 +290,13 @@ pthread_t PThreadNoSignals::start() {
     // n.b. we're expecting this to be called from a master thread,
     // so no contention for the sigmask should occur
     pthread_sigmask(SIG_BLOCK, &newset, &oldset);
-    pthread_t tid = PThread::start();
+    pthread_t tid;
+    try {
+	tid = PThread::start();
+    } catch (...) { // assertion mapped to an exception; keep the caller's mask
+	pthread_sigmask(SIG_SETMASK, &oldset, 0);
+	throw;
+    }
     pthread_sigmask(SIG_SETMASK, &oldset, 0);
     return tid;
 }
-- 
2.43.0


From 63c1963bbd4422114485b141a0c5f20264c4317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 04/93] fix: counting processors ends with an error, not an
 endless loop, when /proc/cpuinfo cannot be read

---
 src/PThread.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PThread.cpp b/src/PThread.cpp
index 0fef389..0055a0b 100644
--- a/src/PThread.cpp
+++ b/src/PThread.cpp
@@ -81,12 +81,14 @@ int PThreadMisc::getNCpus(bool unknown_ok) {
 
 	    string line;
 	    string processor("processor\t: ");
-	    while(!infile.eof()) {
-		getline(infile, line);
+	    unsigned ncpus = 0;
+	    while(getline(infile, line)) {
 		if (prefixequal(line,processor)) {
-		    ++cache_ncpus;
+		    ++ncpus;
 		}
 	    }
+	    INVARIANT(!infile.bad(), "error reading /proc/cpuinfo");
+	    cache_ncpus = ncpus;
 	    INVARIANT(cache_ncpus > 0, "no processors found in /proc/cpuinfo");
 #endif
 #if defined(SYSCTL_NCPUS)
-- 
2.43.0


From 09923b1e1d0a235d0a96168f6b6d3085f34e5120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 05/93] fix: LintelLog releases its mutex when an appender or a
 check throws

---
 src/LintelLog.cpp | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index 0d2b061..cf97a72 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -35,10 +35,9 @@ bool LintelLog::wouldDebug(const string &category, unsigned level) {
 
 void LintelLog::reserveCategories(unsigned max_categories) {
     maybeInitInstance();
-    instance->mutex.lock();
+    SimpleScopedLock lock(instance->mutex);
     SINVARIANT(max_categories >= instance->debug_levels.size());
     instance->debug_levels.reserve(max_categories);
-    instance->mutex.unlock();
 }
 
 void LintelLog::parseEnv() {
@@ -82,11 +81,11 @@ void LintelLog::setDebugLevel(const string &category, uint8_t level) {
     // Assuming that readers will either see the old or the new value, and
     // hence we won't have to lock the read path.  This is why the strings are
     // stored in a pointer.
-    instance->mutex.lock();
 
     // TODO: add support for starting with ( and ending with ) to be a regex match if we 
     // have the pcre library.
     if (!category.empty() && category[category.size() - 1] == '*') {
+	SimpleScopedLock lock(instance->mutex);
 	SINVARIANT(instance->complex_matches.size() < instance->complex_matches.capacity());
 
 	instance_data::complex_match *tmp 
@@ -103,12 +102,14 @@ void LintelLog::setDebugLevel(const string &category, uint8_t level) {
                 instance->debug_levels[i->second] = level;
             }
 	}
-	instance->mutex.unlock();
     } else {
-	uint32_t id = lockedCategoryToId(category);
-	SINVARIANT(id < instance->debug_levels.size());
-	instance->debug_levels[id] = level;
-	instance->mutex.unlock();
+	uint32_t id;
+	{
+	    SimpleScopedLock lock(instance->mutex);
+	    id = lockedCategoryToId(category);
+	    SINVARIANT(id < instance->debug_levels.size());
+	    instance->debug_levels[id] = level;
+	}
 	maybeCategoryLimitWarning(id);
     }
 }
@@ -118,12 +119,13 @@ void LintelLog::debugMessagesInitial() {
     if (wouldDebug(help)) {
 	vector<string> debug_names;
 
-	instance->mutex.lock();
-	for(HashMap<string, uint32_t>::iterator i = instance->category2id.begin(); 
-	    i != instance->category2id.end(); ++i) {
-	    debug_names.push_back(i->first);
+	{
+	    SimpleScopedLock lock(instance->mutex);
+	    for(HashMap<string, uint32_t>::iterator i = instance->category2id.begin(); 
+		i != instance->category2id.end(); ++i) {
+		debug_names.push_back(i->first);
+	    }
 	}
-	instance->mutex.unlock();
 	sort(debug_names.begin(), debug_names.end());
 
 	LintelLogDebugLevelVariable(help, 1, format("known debugging options: %s")
@@ -138,9 +140,8 @@ void LintelLog::debugMessagesFinal() {
 
 void LintelLog::addAppender(appender_fn fn) {
     maybeInitInstance();
-    instance->mutex.lock();
+    SimpleScopedLock lock(instance->mutex);
     instance->appenders.push_back(fn);
-    instance->mutex.unlock();
 }
 
 static string str_empty("");
@@ -207,7 +208,8 @@ void LintelLog::log(const string &msg, const LogType log_type) {
     // timedLock, but that doesn't work becuase the instance mutex is a 
     // simple mutex so that it works without being linked with libpthread.
     // Not clear what the right solution is.
-    instance->mutex.lock();
+    // scoped so that an appender that throws doesn't leave logging locked
+    SimpleScopedLock lock(instance->mutex);
     if (instance->appenders.empty()) {
 	consoleAppender(msg, log_type);
     } else {
@@ -216,14 +218,15 @@ void LintelLog::log(const string &msg, const LogType log_type) {
 	    (*i)(msg, log_type);
 	}
     }
-    instance->mutex.unlock();
 }
 
 uint32_t LintelLog::categoryToId(const string &category) {
     maybeInitInstance();
-    instance->mutex.lock();
-    uint32_t ret = lockedCategoryToId(category);
-    instance->mutex.unlock();
+    uint32_t ret;
+    {
+	SimpleScopedLock lock(instance->mutex);
+	ret = lockedCategoryToId(category);
+    }
 
     maybeCategoryLimitWarning(ret);
     return ret;
@@ -271,14 +274,13 @@ void LintelLog::maybeInitInstance() {
     // is this actually safe?  Really don't want to have to take the
     // lock when we almost never need to.
     if (instance == NULL) {
-	init_mutex.lock();
+	SimpleScopedLock lock(init_mutex);
 	if (instance == NULL) {
 	    instance_data *tmp = new instance_data();
 	    tmp->mutex.lock(); // try to force the above to be 
 	    tmp->mutex.unlock();
 	    instance = tmp;
 	}
-	init_mutex.unlock();
     }
 }
 
-- 
2.43.0


From 32e16ada4428907debbd81b8157c48aea7bdb757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 06/93] fix: the level set last applies to categories
 registered later too

---
 src/LintelLog.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index cf97a72..be8ee39 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -257,11 +257,12 @@ uint32_t LintelLog::lockedCategoryToId(const string &category) {
 	instance->category2id[category] = ret;
 	instance->debug_levels.resize(ret+1);
 	SINVARIANT(instance->debug_levels[ret] == 0);
-	for(vector<instance_data::complex_match *>::iterator i = instance->complex_matches.begin(); 
-	    i != instance->complex_matches.end(); ++i) {
+	// the level set last wins, as it does for categories that already exist
+	for(vector<instance_data::complex_match *>::reverse_iterator i = instance->complex_matches.rbegin(); 
+	    i != instance->complex_matches.rend(); ++i) {
 	    if (prefixequal(category, (**i).first)) {
 		instance->debug_levels[ret] = (**i).second;
-		break; // first match
+		break;
 	    }
 	}
     }
-- 
2.43.0


From 902eddd72a2b24108616b5dc5603e07a20165c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 07/93] fix: concurrent registrations warn about running out of
 categories once

---
 src/LintelLog.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index be8ee39..3e8f64c 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -235,8 +235,13 @@ uint32_t LintelLog::categoryToId(const string &category) {
 void LintelLog::maybeCategoryLimitWarning(uint32_t id) {
     if (((id * 5) / 4) >= instance->debug_levels.capacity()) {
 	static bool generated_warning = false;
-	if (!generated_warning) {
+	bool generate_warning;
+	{
+	    SimpleScopedLock lock(instance->mutex);
+	    generate_warning = !generated_warning;
 	    generated_warning = true;
+	}
+	if (generate_warning) {
 	    warn(format("close to running out of reserved categories %d/%d used; recommend calling LintelLog::reserveCategories(%d) or greater") 
 		 % id % instance->debug_levels.capacity()
 		 % (1.5 * instance->debug_levels.capacity()));
-- 
2.43.0


From 0765593718e8fe5144394d435db1182be6084e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 08/93] fix: assertion hooks may add or clear hooks

---
 src/AssertBoost.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/AssertBoost.cpp b/src/AssertBoost.cpp
index 42526b3..6a0e945 100644
--- a/src/AssertBoost.cpp
+++ b/src/AssertBoost.cpp
@@ -164,19 +164,21 @@ void AssertBoostFail(const char *expression, const char *file, int line,
 		"**** so that the application will sleep for an hour on this error\n";
 	}
     } else {
-	for(vector<assert_hook_fn>::iterator i = pre_msg_fns.begin();
-	    i != pre_msg_fns.end(); ++i) {
+	// hooks may add or clear hooks, so no iterators and a copy of the hook
+	for(size_t i = 0; i < pre_msg_fns.size(); ++i) {
 	    AssertBoostCleanupRecurse cleanup;
-	    (*i)(expression, file, line, msg);
+	    assert_hook_fn fn(pre_msg_fns[i]);
+	    fn(expression, file, line, msg);
 	}
     }	
 
     AssertBoostFailOutput(expression, file, line, msg);
     if (!assert_boost_fail_recurse) {
-	for(vector<assert_hook_fn>::iterator i = post_msg_fns.begin();
-	    i != post_msg_fns.end(); ++i) {
+	// hooks may add or clear hooks, so no iterators and a copy of the hook
+	for(size_t i = 0; i < post_msg_fns.size(); ++i) {
 	    AssertBoostCleanupRecurse cleanup;
-	    (*i)(expression, file, line, msg);
+	    assert_hook_fn fn(post_msg_fns[i]);
+	    fn(expression, file, line, msg);
 	}
     }
 
-- 
2.43.0


From 45eaac1e169cf44cfe6b274346909885b401fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 09/93] fix: Deque destroys the elements it still holds

---
 include/Lintel/Deque.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index ba7e61f..e9c7111 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -47,6 +47,7 @@ public:
     }
 
     ~Deque() {
+	clear();
 	allocator.deallocate(deque, q_size);
     }
     typedef Deque<T> mytype;
-- 
2.43.0


From 36b5b29ab59f31ebc49c3198fe0b5a7af45650f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 10/93] fix: growing a Deque survives a failed copy and pushing
 one of its own elements

---
 include/Lintel/Deque.hpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index e9c7111..794be93 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -269,31 +269,27 @@ private:
     void push_expand(const T &val) {
 	T *new_deque = allocator.allocate(q_size * 2);
 	size_t i = 0;
-	// copy back to 0 offset
-	if (q_front == 0) {
-	    // special case if it's already 0 offset
-	    for(;i<q_back;i++) {
-		allocator.construct(new_deque + i, deque[i]);
-		allocator.destroy(deque + i);
-	    }
-	} else {
-	    for(size_t j=q_front; j<q_size;++j) {
+	// copy back to 0 offset; the old elements stay until nothing can
+	// fail any more, and because val may be one of them
+	try {
+	    for(size_t j = q_front; j != q_back; j = (j + 1) % q_size) {
 		allocator.construct(new_deque + i, deque[j]);
-		allocator.destroy(deque + j);
 		++i;
 	    }
-	    for(size_t j=0;j<q_back;++j) {
-		allocator.construct(new_deque + i, deque[j]);
-		allocator.destroy(deque + j);
-		++i;
+	    INVARIANT(i == q_size-1, boost::format("internal %u %u %u %u")
+		      % i % q_size % q_front % q_back);
+	    allocator.construct(new_deque + i, val);
+	} catch (...) {
+	    while (i > 0) {
+		--i;
+		allocator.destroy(new_deque + i);
 	    }
+	    allocator.deallocate(new_deque, q_size * 2);
+	    throw;
 	}
-	INVARIANT(i == q_size-1, boost::format("internal %u %u %u %u")
-                  % i % q_size % q_front % q_back);
-	q_front = 0;
-	allocator.construct(new_deque + i, val);
-	q_back = i + 1;
+	clear();
 	allocator.deallocate(deque, q_size);
+	q_back = i + 1;
 	q_size = q_size * 2;
 	deque = new_deque;
     }
-- 
2.43.0


From a2858993e5598cd930b42d0fe50abc24e7c3a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 11/93] fix: Deque::reserve keeps the old space when the new
 one can't be had

---
 include/Lintel/Deque.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index 794be93..df671a4 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -96,10 +96,11 @@ public:
 	INVARIANT(new_size > 0 && new_size < std::numeric_limits<size_t>::max(), 
                   "Must have size at least 1, and at most size_t::max() - 1");
 	new_size += 1; // for the empty entry that always exists
+	T *new_deque = allocator.allocate(new_size);
 	q_front = q_back = 0;
 	allocator.deallocate(deque, q_size);
 	q_size = new_size;
-	deque = allocator.allocate(q_size);
+	deque = new_deque;
     }
 
     size_t capacity() const { return q_size - 1; }
-- 
2.43.0


From 0bfe3f4be9faaec9ad62b05935ed0cafff133f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 12/93] fix: moving a Deque iterator by a negative distance
 across the wrap

---
 include/Lintel/Deque.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index df671a4..a5f23f6 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -164,7 +164,8 @@ public:
         /// adds diff and returns the iterator
         iterator operator+(ptrdiff_t diff) {
             DEBUG_SINVARIANT(inRangePlus(diff));
-            return iterator(mydeque, static_cast<size_t>(cur_pos + diff) % mydeque->q_size);
+            return iterator(mydeque, static_cast<size_t>(cur_pos + mydeque->q_size
+                                                         + diff) % mydeque->q_size);
         }
         /// subtracts diff and returns the iterator
         iterator operator-(ptrdiff_t diff) {
@@ -195,7 +196,7 @@ public:
         /// adds diff to the iterator and returns the reference
         iterator &operator+=(ptrdiff_t diff) {
             DEBUG_SINVARIANT(inRangePlus(diff));
-            cur_pos = static_cast<size_t>(cur_pos + diff) % mydeque->q_size;
+            cur_pos = static_cast<size_t>(cur_pos + mydeque->q_size + diff) % mydeque->q_size;
             return *this;
         }
         /// subtracts diff to the iterator and returns the reference
-- 
2.43.0


From 22bacd49d5b67adf8a92f1b33ecb4a313995966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 13/93] fix: HashTable::addOrReplace replaces the existing data

---
 include/Lintel/HashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/HashTable.hpp b/include/Lintel/HashTable.hpp
index 54e5590..f9b09b6 100644
--- a/include/Lintel/HashTable.hpp
+++ b/include/Lintel/HashTable.hpp
@@ -124,6 +124,7 @@ public:
 	uint32_t hashof = doHash(data);
 	hte *chain = internal_lookup(data, hashof);
 	if (chain != NULL) {
+	    chain->data = data;
 	    replaced = true;
 	    return &(chain->data);
 	} else {
-- 
2.43.0


From 5f22a251e3467f67a80bd96af29d42fbd568d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 14/93] fix: a failed HashTable add leaves the table as it was

---
 include/Lintel/HashTable.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/HashTable.hpp b/include/Lintel/HashTable.hpp
index f9b09b6..e4327e6 100644
--- a/include/Lintel/HashTable.hpp
+++ b/include/Lintel/HashTable.hpp
@@ -574,16 +574,18 @@ private:
 	    DEBUG_SINVARIANT(free_list_size == 0);
 	    hte v(data, entry_points[hash]);
 	    DEBUG_SINVARIANT(hash < entry_points.size());
-	    entry_points[hash] = static_cast<int>(chains.size());
+	    // push_back may fail, so link the entry only once it is there
 	    chains.push_back(v);
+	    entry_points[hash] = static_cast<int>(chains.size() - 1);
 	    return &(chains.back().data);
 	} else {
 	    int32_t loc = free_list;
 	    
-	    free_list = chains[free_list].next;
+	    // the copy may fail, so take the entry off the free list after it
+	    chains[loc].data = data;
+	    free_list = chains[loc].next;
 	    DEBUG_SINVARIANT(free_list_size > 0);
 	    --free_list_size;
-	    chains[loc].data = data;
 	    chains[loc].next = entry_points[hash];
 	    entry_points[hash] = loc;
 	    return &chains[loc].data;
-- 
2.43.0


From a0652bace7dfec75c08fa55321d9bf8f588bbadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 15/93] fix: a failed HashTable assignment leaves the table as
 it was

---
 include/Lintel/HashTable.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/HashTable.hpp b/include/Lintel/HashTable.hpp
index e4327e6..130768d 100644
--- a/include/Lintel/HashTable.hpp
+++ b/include/Lintel/HashTable.hpp
@@ -631,10 +631,13 @@ private:
     }	
 
     HashTable &assign(const HashTable &__in) {
+	// the copies may fail, so change nothing until they are made
+	hte_vectorT new_chains(__in.chains);
+	hash_tableT new_entry_points(__in.entry_points);
+	chains.swap(new_chains);
+	entry_points.swap(new_entry_points);
 	free_list = __in.free_list;
 	free_list_size = __in.free_list_size;
-	chains = __in.chains;
-	entry_points = __in.entry_points;
 	target_chain_length = __in.target_chain_length;
 	hashfn = __in.hashfn;
 	equal = __in.equal;
-- 
2.43.0


From a61debb3ac64d29aef40abe50909bc15d74ebe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 16/93] fix: a failed HashTable remove or erase does not leave
 a half-cleared entry behind

---
 include/Lintel/HashTable.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/Lintel/HashTable.hpp b/include/Lintel/HashTable.hpp
index 130768d..74b2374 100644
--- a/include/Lintel/HashTable.hpp
+++ b/include/Lintel/HashTable.hpp
@@ -214,11 +214,11 @@ public:
 
 	bool ret = true;
 	if (equal(key,chains[loc].data)) {
-	    chains[loc].data = D();
 	    entry_points[hash] = chains[loc].next;
 	    chains[loc].next = free_list;
 	    ++free_list_size;
 	    free_list = loc;
+	    chains[loc].data = D(); // last, it may fail
 	} else {
 	    int32_t prev = loc;
 	    while(true) {
@@ -231,11 +231,11 @@ public:
 		    break;
 		}
 		if (equal(key,chains[loc].data)) {
-		    chains[loc].data = D();
 		    chains[prev].next = chains[loc].next;
 		    chains[loc].next = free_list;
 		    ++free_list_size;
 		    free_list = loc;
+		    chains[loc].data = D(); // last, it may fail
 		    break;
 		}
 	    }
@@ -419,8 +419,6 @@ public:
     // pass, and erase doesn't have to re-do the hash and compare operations.
     void erase(iterator it) {
        	DEBUG_SINVARIANT(it.mytable == this);
-	chains[it.chain_loc].data = D();
-
 	int32_t prev = -1, cur = entry_points[it.cur_chain];
 	while (cur != it.chain_loc) {
 	    prev = cur;
@@ -435,6 +433,7 @@ public:
 	chains[cur].next = free_list;
 	++free_list_size;
 	free_list = cur;
+	chains[cur].data = D(); // last, it may fail
     }
 
     /// \brief Hash Table constant iterator
-- 
2.43.0


From b2ca5818a84a72c58ee8c11cef470210e69e81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 17/93] fix: a failed RotatingHashMap promotion leaves the
 entry in one generation

---
 include/Lintel/RotatingHashMap.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/RotatingHashMap.hpp b/include/Lintel/RotatingHashMap.hpp
index 9af1378..55fab87 100644
--- a/include/Lintel/RotatingHashMap.hpp
+++ b/include/Lintel/RotatingHashMap.hpp
@@ -66,9 +66,10 @@ public:
 	if (ret == NULL) {
 	    ret = table_old->lookup(k);
 	    if (ret != NULL) {
-		V &tmp = (*table_recent)[k] = *ret;
-		table_old->remove(k);
-		ret = &tmp;
+		hm_iterator old = table_old->find(k);
+		// all or nothing: if the copy fails, the entry stays old
+		ret = &table_recent->getHashTable().add(*old)->second;
+		table_old->erase(old);
 	    }
 	} else {
 	    DEBUG_SINVARIANT(table_old->lookup(k) == NULL);
-- 
2.43.0


From 030819f666f965e8bee31c35cd07966c7a0f5554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 18/93] fix: RotatingHashMap construction and rotation survive
 running out of memory

---
 include/Lintel/RotatingHashMap.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/Lintel/RotatingHashMap.hpp b/include/Lintel/RotatingHashMap.hpp
index 55fab87..b307752 100644
--- a/include/Lintel/RotatingHashMap.hpp
+++ b/include/Lintel/RotatingHashMap.hpp
@@ -12,6 +12,8 @@
 #ifndef LINTEL_ROTATING_HASHMAP_HPP
 #define LINTEL_ROTATING_HASHMAP_HPP
 
+#include <memory>
+
 #include <boost/function.hpp>
 #include <boost/bind.hpp>
 
@@ -51,9 +53,10 @@ public:
     typedef boost::function<void (const K &, V &)> RotateFn;
     typedef HashMap<K,V,KHash,KEqual> HashMapT;
 
-    RotatingHashMap() {
-	table_recent = new HashMapT; // HashMap<K,V>;
+    RotatingHashMap() : table_recent(NULL), table_old(NULL) {
+	std::unique_ptr<HashMapT> recent(new HashMapT); // HashMap<K,V>;
 	table_old = new HashMapT; // HashMap<K,V>;
+	table_recent = recent.release();
     }
 
     ~RotatingHashMap() {
@@ -116,9 +119,9 @@ public:
     }
 
     void rotate() {
-	delete table_old;
-	table_old = table_recent;
-	table_recent = new HashMapT; // HashMap<K,V>();
+	// may fail, so before anything is changed
+	HashMapT *table_new = new HashMapT; // HashMap<K,V>();
+	rotateIn(table_new);
     }
 
     /** use like rotate(boost::bind(test_fn, _1, _2)); with test_fn
@@ -128,11 +131,13 @@ public:
 	rotated in the bound function.
      */
     void rotate(const RotateFn fn) {
+	// may fail, so before any entry is handed out
+	std::unique_ptr<HashMapT> table_new(new HashMapT);
 	for(hm_iterator i = table_old->begin();
 	    i != table_old->end(); ++i) {
 		fn(i->first, i->second);
 	    }
-	rotate();
+	rotateIn(table_new.release());
     }
     
     /*** rotate enough times so that the hash map is empty */
@@ -187,6 +192,13 @@ public:
     }
 private:
     typedef typename HashMapT::iterator hm_iterator;
+
+    void rotateIn(HashMapT *table_new) {
+	delete table_old;
+	table_old = table_recent;
+	table_recent = table_new;
+    }
+
     // HashMap<K,V> *table_recent, *table_old;
     HashMapT *table_recent, *table_old;
 };
-- 
2.43.0


From 3a429244f16106b3707bcd9b527c61f26b25bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 19/93] fix: PriorityQueue::push survives a failed copy,
 pushing its own element and starting at size 0

---
 include/Lintel/PriorityQueue.hpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index 06da055..18f91cc 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -14,6 +14,10 @@
 
 #include <stdint.h>
 
+#include <algorithm>
+#include <memory>
+#include <utility>
+
 #include <boost/utility.hpp>
 
 #include <Lintel/AssertBoost.hpp>
@@ -138,20 +142,23 @@ public:
 
     void push(const T &val) {
 	if (pq_size == size_available) {
-	    double_size();
+	    double_size(val);
+	} else {
+	    pq[pq_size] = val;
 	}
+	// val is stored; from here on elements only change places
+	using std::swap;
 	int end_pos = pq_size;
+	++pq_size;
 	while(end_pos > 0) {
 	    int up_pos = (end_pos - 1)/2;
-	    if (!lessimportant(val,pq[up_pos])) {
-		pq[end_pos] = pq[up_pos];
+	    if (!lessimportant(pq[end_pos],pq[up_pos])) {
+		swap(pq[end_pos], pq[up_pos]);
 		end_pos = up_pos;
 	    } else {
 		break;
 	    }
 	}
-	pq[end_pos] = val;
-	++pq_size;
     }
 
     /// equivalent to this->pop(), this->push(val), but roughly 2x as
@@ -218,14 +225,18 @@ public:
     T *PQ_End() { return pq + pq_size; }
 private:
     LessImportant lessimportant;
-    void double_size() {
-	T *pq_new = new T[size_available * 2];
+    // makes space and stores val, which may be one of the present elements,
+    // behind them
+    void double_size(const T &val) {
+	uint32_t size_new = size_available > 0 ? size_available * 2 : 1;
+	std::unique_ptr<T[]> pq_new(new T[size_new]);
 	for(unsigned i=0;i<size_available;i++) {
 	    pq_new[i] = pq[i];
 	}
+	pq_new[size_available] = val;
 	delete [] pq;
-	pq = pq_new;
-	size_available = size_available * 2;
+	pq = pq_new.release();
+	size_available = size_new;
     }
     uint32_t size_available;
     uint32_t pq_size;
-- 
2.43.0


From c3fbfa22a476e89d84cdaaff45b2c4ec635bce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 20/93] fix: PriorityQueue pop and replaceTop lose no element
 when a copy fails

---
 include/Lintel/PriorityQueue.hpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index 18f91cc..b8b675d 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -78,7 +78,9 @@ public:
 	DEBUG_SINVARIANT(pq_size > 0);
 	--pq_size;
 	if (pq_size > 0) {
+	    using std::swap; // changing places loses no element
 	    uint32_t cur_pos = 0;
+	    swap(pq[0], pq[pq_size]);
 	    while(1) {
 		uint32_t down_left = 2*cur_pos + 1;
 		if (down_left >= pq_size)
@@ -90,13 +92,12 @@ public:
 		    !lessimportant(pq[down_right],pq[down_left])) {
 		    smaller_down = down_right;
 		}
-		if (!lessimportant(pq[pq_size],pq[smaller_down])) {
+		if (!lessimportant(pq[cur_pos],pq[smaller_down])) {
 		    break; // done, down moving value less than both children
 		}
-		pq[cur_pos] = pq[smaller_down];
+		swap(pq[cur_pos], pq[smaller_down]);
 		cur_pos = smaller_down;
 	    }
-	    pq[cur_pos] = pq[pq_size];
 	}
     }
 
@@ -110,6 +111,7 @@ public:
     // down.
     void pop_bottom_up_heuristic() {
 	DEBUG_SINVARIANT(pq_size > 0);
+	using std::swap; // changing places loses no element
 	uint32_t hole = 0;
 	uint32_t down = 1;
 
@@ -119,24 +121,26 @@ public:
 	    } else { // rhs bubbles up
 		++down;
 	    } 
-	    pq[hole] = pq[down];
+	    swap(pq[hole], pq[down]);
 	    hole = down; 
 	    down = 2*down + 1;
 	}
 
 	T &back(pq[pq_size - 1]);
-	if (hole > 0) {
+	if (hole > 0 && hole != pq_size - 1) {
 	    SINVARIANT(lessimportant(back, back)); // make sure loop below will terminate
 
 	    uint32_t up = (hole - 1) / 2;
 	    while (!lessimportant(back, pq[up])) { // back more important, move hole up
-		pq[hole] = pq[up];
+		swap(pq[hole], pq[up]);
 		hole = up;
 		up = (hole - 1) / 2;
 	    }
 	}
 
-	pq[hole] = back;
+	if (hole != pq_size - 1) {
+	    swap(pq[hole], back);
+	}
 	--pq_size;
     }
 
@@ -164,7 +168,10 @@ public:
     /// equivalent to this->pop(), this->push(val), but roughly 2x as
     /// efficient
     void replaceTop(const T &val) {
+	DEBUG_SINVARIANT(pq_size > 0);
+	using std::swap; // changing places loses no element
 	uint32_t cur_pos = 0;
+	pq[0] = val;
 	while(1) {
 	    uint32_t down_left = 2*cur_pos + 1;
 	    if (down_left >= pq_size)
@@ -176,15 +183,13 @@ public:
 	    if (down_right < pq_size && lessimportant(pq[down_left], pq[down_right])) {
 		more_important_down = down_right;
 	    }
-	    if (lessimportant(val, pq[more_important_down])) {
-		pq[cur_pos] = pq[more_important_down];
+	    if (lessimportant(pq[cur_pos], pq[more_important_down])) {
+		swap(pq[cur_pos], pq[more_important_down]);
 		cur_pos = more_important_down;
 	    } else {
 		break; // at final position
 	    }
 	}
-	DEBUG_SINVARIANT(cur_pos < pq_size);
-	pq[cur_pos] = val;
     }
 	
     uint32_t size() const {
-- 
2.43.0


From d85e1d1fab99745075af2841e40808a9bea41ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 21/93] fix: PriorityQueue::reserve keeps the old space when
 the new one can't be had

---
 include/Lintel/PriorityQueue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index b8b675d..106192e 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -208,8 +208,9 @@ public:
 	INVARIANT(empty(), "Lame implementation only able to reserve empty priority queue");
 		  
 	if (amt > pq_size) {
+	    T *pq_new = new T[amt]; // may fail
 	    delete [] pq;
-	    pq = new T[amt];
+	    pq = pq_new;
 	    size_available = amt;
 	}
     }
-- 
2.43.0


From aa5345f5dc4c0cfdcfd70364efdb9049ae7f490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 22/93] fix: a ByteBuffer copied on write keeps its writeable
 space, and a failed copy leaks nothing

---
 include/Lintel/ByteBuffer.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index 0cd3075..ccac237 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -530,11 +530,12 @@ namespace lintel {
 	/// underlying buffer.
 	void forceUnique() {
 	    if (!rep.unique()) {
-		NoCopyByteBuffer *new_buf = new NoCopyByteBuffer();
-		new_buf->resizeBuffer(rep->readAvailable());
+		boost::shared_ptr<NoCopyByteBuffer> new_buf(new NoCopyByteBuffer());
+		// keep the space that callers know to be writeable
+		new_buf->resizeBuffer(rep->readAvailable() + rep->writeAvailable());
 		memcpy(new_buf->writeStart(rep->readAvailable()), 
 		       rep->readStart(), rep->readAvailable());
-		rep.reset(new_buf);
+		rep.swap(new_buf);
 	    }
 	}	    
 
-- 
2.43.0


From 316b8a5c182ee6879622c9a682b3442699f38678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 23/93] fix: refusing to resize a ByteBuffer does not leak the
 new space

---
 include/Lintel/ByteBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index ccac237..50021f2 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -113,11 +113,11 @@ namespace lintel {
 	    } else {
                 LintelLogDebug("ByteBuffer", boost::format("resizing bytebuffer %p from %d to %d") 
                                % static_cast<void *>(this) % data_size % new_size);
+		SINVARIANT(readAvailable() <= new_size);
 		uint8_t *new_data = new uint8_t[new_size];
 		
 		if (!empty()) {
 		    size_t old_available = readAvailable();
-		    SINVARIANT(old_available <= new_size);
 		    memcpy(new_data, readStart(), old_available);
 		    back = old_available;
 		} else {
-- 
2.43.0


From d7a70b186717a282da9025f72f654fdd70b8546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 24/93] fix: a ByteBuffer may be appended to itself

---
 include/Lintel/ByteBuffer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index 50021f2..78e29ef 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -21,6 +21,7 @@
 #include <iostream>
 #include <sys/types.h>
 
+#include <functional>
 #include <string>
 
 #include <boost/format.hpp>
@@ -360,7 +361,16 @@ namespace lintel {
 	    uniqueify();
 	    if (writeAvailable() < size) {
 	        size_t needed = size - writeAvailable();
+		// buf may be part of what we already have, which is about to move
+		const uint8_t *from = static_cast<const uint8_t *>(buf);
+		std::less<const uint8_t *> before;
+		bool own = size > 0 && !before(from, readStart())
+		    && before(from, readStart() + readAvailable());
+		size_t offset = own ? from - readStart() : 0;
 		resizeBuffer(bufferSize() + needed);
+		if (own) {
+		    buf = readStart() + offset;
+		}
 	    }
 	    memcpy(writeStart(size), buf, size);
 	}
-- 
2.43.0


From b2ba0f8d9e3c67b6402da132496ae213185d6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 25/93] fix: a failed ByteBuffer assign keeps the contents,
 assigning from itself does not lose them

---
 include/Lintel/ByteBuffer.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index 78e29ef..b5dea4d 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -495,22 +495,28 @@ namespace lintel {
 	/// Copy the value in @param src into this ByteBuffer,
 	/// overwriting any prior contents.
 	void assign(const ByteBuffer &src) {
-	    reset();
-	    append(src.readStart(), src.readAvailable());
+	    assign(src.readStart(), src.readAvailable());
 	}
 	
 	/// Copy the value in @param src into this ByteBuffer,
 	/// overwriting any prior contents.
 	void assign(const std::string &src) {
-	    reset();
-	    append(src);
+	    assign(src.data(), src.size());
 	}
 
 	/// Copy the value in @param src for @param len bytes into
 	/// this ByteBuffer, overwriting any prior contents.
 	void assign(const void *src, size_t len) {
-	    reset();
-	    append(src, len);
+	    uniqueify();
+	    if (len <= bufferSize()) {
+		reset();
+		memmove(writeStart(len), src, len); // src may be our own data
+	    } else { // the contents stay until the larger space is there
+		boost::shared_ptr<NoCopyByteBuffer> new_buf(new NoCopyByteBuffer());
+		new_buf->resizeBuffer(len);
+		memcpy(new_buf->writeStart(len), src, len);
+		rep.swap(new_buf);
+	    }
 	}
 
 	/// Return the available part of the read buffer as a string
-- 
2.43.0


From 7568c6e595bc33c036004be8ff9707233e643464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 26/93] fix: ByteBuffer keeps the bytes read from a stream that
 throws

---
 include/Lintel/ByteBuffer.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index b5dea4d..da33b64 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -395,9 +395,7 @@ namespace lintel {
 	    
 	    while(!(sin.eof() || sin.fail() || sin.bad())) {
 		if (writeAvailable() > 0) {
-		    sin.read(writeStartAs<char>(0), writeAvailable());
-		    bytes_read += sin.gcount();
-		    extend(sin.gcount());
+		    bytes_read += readFromStream(sin, writeAvailable());
 		} else if (bufferSize() < max_size) {
 		    resizeBuffer(std::min(bufferSize()*2, max_size));
 		} else {
@@ -431,9 +429,7 @@ namespace lintel {
 	    
 	    while((!(sin.eof() || sin.fail() || sin.bad())) &&
 		  (bytes_read < amount)) {
-		sin.read(writeStartAs<char>(0), amount - bytes_read);
-		bytes_read += sin.gcount();
-		extend(sin.gcount());
+		bytes_read += readFromStream(sin, amount - bytes_read);
 	    }
 	    
 	    if (sin.bad()) {
@@ -558,6 +554,20 @@ namespace lintel {
     private:
         static const size_t max_size_cow_always_allowed = 0;
 
+	// Reads at most amount <= writeAvailable() bytes; what was read is kept
+	// even if the stream reports its state by an exception.
+	size_t readFromStream(std::istream &sin, size_t amount) {
+	    char *to = writeStartAs<char>(0);
+	    try {
+		sin.read(to, amount);
+	    } catch (...) {
+		extend(sin.gcount());
+		throw;
+	    }
+	    extend(sin.gcount());
+	    return sin.gcount();
+	}
+
 	void uniqueify() {
 	    if (!rep.unique()) {
                 // check 'allow_copy_on_write' if size above threshold
-- 
2.43.0


From e75a3093f57ba6460e423bccbc633b1c62ac449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 27/93] fix: posix::readN never reads beyond the requested
 bytes

---
 include/Lintel/Posix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Posix.hpp b/include/Lintel/Posix.hpp
index e198beb..6d43e59 100644
--- a/include/Lintel/Posix.hpp
+++ b/include/Lintel/Posix.hpp
@@ -71,7 +71,7 @@ namespace posix {
 	uint8_t *buf2 = (uint8_t *)buf;
 	ssize_t left = nbyte;
 	do {
-	    ssize_t nb = ::read(fd, buf2, nbyte);
+	    ssize_t nb = ::read(fd, buf2, left);
 	    INVARIANT(nb != -1, boost::format("readN(%d): %s") 
 		      % fd % strerror(errno));
 	    if (nb == 0) {
-- 
2.43.0


From af0c4726b34c12f01f61cda1b1fbd4ffc5368508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 28/93] fix: posix::read0 reports its failure

---
 include/Lintel/Posix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Posix.hpp b/include/Lintel/Posix.hpp
index 6d43e59..b8e8819 100644
--- a/include/Lintel/Posix.hpp
+++ b/include/Lintel/Posix.hpp
@@ -64,7 +64,7 @@ namespace posix {
 	ssize_t amt = ::read(fd, buf, nbyte);
 	INVARIANT(amt == static_cast<ssize_t>(nbyte), 
 		  boost::format("Read0(%d, %p, %d): only got %d bytes: %s")
-		  % fd % buf % nbyte % strerror(errno));
+		  % fd % buf % nbyte % amt % strerror(errno));
     };
 
     inline ssize_t readN(int fd, void *buf, size_t nbyte) {
-- 
2.43.0


From 1f0b2f33a80a48dc3dbfb842a50b217f6ce1519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 29/93] fix: ConstantString stays usable after running out of
 memory

---
 src/ConstantString.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ConstantString.cpp b/src/ConstantString.cpp
index dfc7fc3..2082689 100644
--- a/src/ConstantString.cpp
+++ b/src/ConstantString.cpp
@@ -18,6 +18,7 @@
 #include <iostream>
 #include <cstring>
 #include <cstdlib>
+#include <memory>
 #include <Lintel/AssertBoost.hpp>
 #include <Lintel/ConstantString.hpp>
 
@@ -39,6 +40,8 @@ ConstantString::init(const void *s, uint32_t slen)
 {
     if (buffers == NULL) {
 	buffers = new bufvect;
+    }
+    if (hashtable == NULL) {
 	hashtable = new CS_hashtable;
     }
     if (slen == 0 && empty_string_myptr != NULL) {
@@ -53,8 +56,9 @@ ConstantString::init(const void *s, uint32_t slen)
 	// lookup based on that without having to convert to a string
 	// first.
 	if (init_buffer_len < 5 + slen) {
+	    char *larger = new char[5 + slen];
 	    delete [] init_buffer;
-	    init_buffer = new char[5 + slen];
+	    init_buffer = larger;
 	    init_buffer_len = 5 + slen;
 	}
 	*reinterpret_cast<uint32_t *>(init_buffer) = slen;
@@ -98,11 +102,13 @@ ConstantString::init(const void *s, uint32_t slen)
     INVARIANT(space_used < buffer_size / 64,
 	      "Reduce possible badness by limiting max string size");
 
+    std::unique_ptr<char[]> new_data(new char[buffer_size]);
     buffer new_buffer;
-    new_buffer.data = reinterpret_cast<ConstantStringValue *>(new char[buffer_size]);
+    new_buffer.data = reinterpret_cast<ConstantStringValue *>(new_data.get());
     new_buffer.size = buffer_size;
     new_buffer.amt_used = 0;
     buffers->push_back(new_buffer);
+    new_data.release();
     init(s,slen); // simpler than re-writing the alloc stuff
 }
 
-- 
2.43.0


From 0bd6a008cfdf65cb05d76bc502ed0297336daee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 30/93] fix: ConstantString refuses over-long strings before
 their length can overflow

---
 include/Lintel/ConstantString.hpp | 4 ++--
 src/ConstantString.cpp            | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/ConstantString.hpp b/include/Lintel/ConstantString.hpp
index a4e10d0..576bff8 100644
--- a/include/Lintel/ConstantString.hpp
+++ b/include/Lintel/ConstantString.hpp
@@ -64,7 +64,7 @@ public:
     ConstantString(const char *s) {
 	init(s, strlen(s));
     }
-    ConstantString(const void *s, uint32_t slen) {
+    ConstantString(const void *s, size_t slen) {
 	init(static_cast<const char *>(s), slen);
     }
     ConstantString() { 
@@ -74,7 +74,7 @@ public:
 	    init("", 0); 
 	}
     }
-    void init(const void *s, uint32_t slen);
+    void init(const void *s, size_t slen);
 
     const char *c_str() const { return ConstantString_c_str(myptr); }
     const char *data() const { return ConstantString_c_str(myptr); }
diff --git a/src/ConstantString.cpp b/src/ConstantString.cpp
index 2082689..cd10b6a 100644
--- a/src/ConstantString.cpp
+++ b/src/ConstantString.cpp
@@ -36,8 +36,10 @@ static uint32_t init_buffer_len;
 static const bool enable_constant_folding = true;
 
 void
-ConstantString::init(const void *s, uint32_t slen)
+ConstantString::init(const void *s, size_t slen)
 {
+    INVARIANT(slen < static_cast<size_t>(buffer_size) - 2 * sizeof(uint32_t),
+	      "string is longer than any constant string can be");
     if (buffers == NULL) {
 	buffers = new bufvect;
     }
-- 
2.43.0


From bbb09359435072ae1a9829acf40bc22db1d795f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 31/93] fix: a failed ProcessStatistics constructor closes its
 file

---
 src/unstable/ProcessStatistics.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/unstable/ProcessStatistics.cpp b/src/unstable/ProcessStatistics.cpp
index adeb1b8..7a7f380 100644
--- a/src/unstable/ProcessStatistics.cpp
+++ b/src/unstable/ProcessStatistics.cpp
@@ -19,9 +19,14 @@ ProcessStatistics::ProcessStatistics(pid_t p) : pid(p) {
     file_name = (format("/proc/%d/statm") % pid).str();
     CHECKED((fp = fopen(file_name.c_str(), "r"))!=0, format("Can't open %s: %s")
 	    % file_name % strerror(errno));
-    CHECKED(setvbuf(fp, 0, _IONBF, 0)==0, format("Can't set %s unbuffered: %s") 
-	    % file_name % strerror(errno));
-    invalidate();
+    try {
+	CHECKED(setvbuf(fp, 0, _IONBF, 0)==0, format("Can't set %s unbuffered: %s") 
+		% file_name % strerror(errno));
+	invalidate();
+    } catch (...) { // the destructor won't run
+	fclose(fp);
+	throw;
+    }
 }
 
 ProcessStatistics::~ProcessStatistics() {
-- 
2.43.0


From e327bad17ae04e8834a939a1eff8c762c48ed4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 32/93] fix: a failed refresh of ProcessStatistics does not mix
 old and new values

---
 src/unstable/ProcessStatistics.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/unstable/ProcessStatistics.cpp b/src/unstable/ProcessStatistics.cpp
index 7a7f380..86dbd29 100644
--- a/src/unstable/ProcessStatistics.cpp
+++ b/src/unstable/ProcessStatistics.cpp
@@ -60,11 +60,13 @@ bool ProcessStatistics::supported(StatType which) {
 }
 
 void ProcessStatistics::invalidate() {
-    res.page_size = getpagesize();  // or sysconf(_SC_PAGESIZE);
+    ProcessStatisticsRes now; // reading may fail part-way
+    now.page_size = getpagesize();  // or sysconf(_SC_PAGESIZE);
     CHECKED(fseek(fp, 0, SEEK_SET)==0, format("Can't seek %s: %s") % file_name % strerror(errno));
     // format is size resident share text lib data dt
     // lib and dt are not filled in in modern kernels; data is data + stack
-    CHECKED(fscanf(fp, "%zu %zu %zu %zu %zu %zu %zu", &res.size, &res.resident,
-		   &res.share, &res.text, &res.lib, &res.data, &res.dt) == 7,
+    CHECKED(fscanf(fp, "%zu %zu %zu %zu %zu %zu %zu", &now.size, &now.resident,
+		   &now.share, &now.text, &now.lib, &now.data, &now.dt) == 7,
 	    format("fscanf on %s: %s") % file_name % strerror(errno));
+    res = now;
 }
-- 
2.43.0


From 9a757caa4b7239ae9b72d2079b87340e61dde46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 33/93] fix: Clock left /sys/devices/system/cpu open when
 frequency scaling is possible

---
 src/Clock.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Clock.cpp b/src/Clock.cpp
index 01577f4..dbfb87a 100644
--- a/src/Clock.cpp
+++ b/src/Clock.cpp
@@ -75,16 +75,16 @@ namespace {
 #ifdef __linux__
     bool doCFPFS() {
 	const string cpu_dir("/sys/devices/system/cpu");
-	DIR *dir = opendir(cpu_dir.c_str());
-        if (dir == NULL) {
+	DIR *dir_handle = opendir(cpu_dir.c_str());
+        if (dir_handle == NULL) {
             return true;
         }
-	INVARIANT(dir != NULL, 
+	INVARIANT(dir_handle != NULL, 
 		  format("can't opendir %s(%s), so can't check for frequency scaling")
 		  % cpu_dir % strerror(errno));
 	unsigned cpu_count = 0;
 	struct dirent *ent;
-	while((ent = readdir(dir)) != NULL) {
+	while((ent = readdir(dir_handle)) != NULL) {
 	    if (strncmp(ent->d_name, "cpu", 3) == 0 
 		&& isdigit(ent->d_name[3])) {
 		++cpu_count;
@@ -96,11 +96,12 @@ namespace {
 		    || (!min_freq.empty() && min_freq == max_freq)) {
 		    // ok
 		} else {
+		    INVARIANT(closedir(dir_handle) == 0, "closedir failed");
                     return true;
 		}
 	    }
 	}
-	INVARIANT(closedir(dir) == 0, "closedir failed");
+	INVARIANT(closedir(dir_handle) == 0, "closedir failed");
 	INVARIANT(cpu_count > 0, "can't check frequency scaling, no cpus found?");
 
         return false;
-- 
2.43.0


From 68a3c051fa9ebb40ef37d9bb18439be80fc99ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 34/93] fix: Clock took a cycle counter still below one
 interval for a recent calibration

---
 src/Clock.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Clock.cpp b/src/Clock.cpp
index dbfb87a..3597f0b 100644
--- a/src/Clock.cpp
+++ b/src/Clock.cpp
@@ -397,7 +397,7 @@ bool Clock::isCalibrated() {
 Clock::Clock(bool allow_calibration)
     : nrecalibrate(0), bad_get_tod_cycle_gap(NULL), 
       last_calibrate_tod_tfrac(0),
-      last_cc(0), last_recalibrate_cc(0), recalibrate_interval_cycles(0)
+      last_cc(numeric_limits<uint64_t>::max()), last_recalibrate_cc(0), recalibrate_interval_cycles(0)
 {
     if (!isCalibrated()) {
 	INVARIANT(allow_calibration, "you failed to call Clock::calibrateClock()!");
@@ -475,9 +475,10 @@ Clock::Tfrac Clock::todccTfrac_recalibrate() {
 	    bad_get_tod_cycle_gap = new Stats;
 	}
 	bad_get_tod_cycle_gap->add(end_cycle - start_cycle);
-	// next line guarantees recalibration next time assuming the
-	// cycle counter isn't reset and booting takes a little time
+	// next lines guarantee recalibration next time, whatever the
+	// cycle counter says then
 	last_recalibrate_cc = 0; 
+	last_cc = numeric_limits<uint64_t>::max();
     } else {
 	uint64_t mid_cycle = (start_cycle + end_cycle)/2;
 	last_calibrate_tod_tfrac = cur_time;
@@ -491,7 +492,9 @@ Clock::Tfrac Clock::todccTfrac_recalibrate() {
 }
 
 void Clock::setRecalibrateIntervalSeconds(double interval) {
+    // recalibrate next time, whatever the cycle counter says then
     last_recalibrate_cc = 0;
+    last_cc = numeric_limits<uint64_t>::max();
     double tmp_recalibrate_cycles = interval * 1.0e6 * clock_rate;
     double extra_multiplier = inverse_clock_rate_tfrac < 1 ? 1 : inverse_clock_rate_tfrac;
     // Make sure both the # cycles in a recalibrate interval fits in a
-- 
2.43.0


From d4ea9fea88f628bdedef6011ad5d8099298b77d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 35/93] fix: Clock::initialMeasurements took the truncated mean
 of unsorted values

---
 src/Clock.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Clock.cpp b/src/Clock.cpp
index 3597f0b..e5e081f 100644
--- a/src/Clock.cpp
+++ b/src/Clock.cpp
@@ -234,6 +234,7 @@ void Clock::initialMeasurements() {
 		// We definately switched cores, so this measurement is bogus.
 	    }
 	}
+	sort(cycles.begin(), cycles.end());
 	Stats truncated_mean;
 	for(uint32_t i = static_cast<uint32_t>(nmeasurements * 0.25); 
 	    i < static_cast<uint32_t>(nmeasurements * 0.75);
-- 
2.43.0


From 4fb82be0205e862c58ed8c53544f1bcc184867c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 36/93] fix: Clock::secondsToTfrac lost a second when the
 fraction rounds up to one

---
 include/Lintel/Clock.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/Clock.hpp b/include/Lintel/Clock.hpp
index 3482364..8ebcf2e 100644
--- a/include/Lintel/Clock.hpp
+++ b/include/Lintel/Clock.hpp
@@ -203,7 +203,8 @@ public:
 	//             = round(lower * 2^32)
 	//             = round((now - secs) * 2^32) = tmp
 	double tmp = round((seconds - sec_only) * DBL_TFRAC_PER_SECOND);
-	uint32_t tfrac_lower = static_cast<uint32_t>(tmp);
+	// rounding can give a whole second, which does not fit in 32 bits
+	uint64_t tfrac_lower = static_cast<uint64_t>(tmp);
 	return (static_cast<uint64_t>(sec_only) << 32) + tfrac_lower;	
     }
 
-- 
2.43.0


From 6d7ec60c30daa5ab1a8b4fe70ba3544df1671a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 37/93] fix: Clock::calibrateClock went on measuring after the
 maximum number of samples

---
 src/Clock.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Clock.cpp b/src/Clock.cpp
index e5e081f..e0a9330 100644
--- a/src/Clock.cpp
+++ b/src/Clock.cpp
@@ -361,6 +361,7 @@ void Clock::calibrateClock(bool print_calibration_information,
 	    }
 	    if (measurements.size() >= max_samples) {
 		errors.append("too many measurements taken, trying again\n");
+		break;
 	    }
 	}
 
-- 
2.43.0


From 8015fb090f70bb4e5155bb65f55c7a4bfd0686ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 38/93] fix: getLock with a wait time took every flock error
 for a held lock

---
 src/Lintel/File/Lock.pm | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Lintel/File/Lock.pm b/src/Lintel/File/Lock.pm
index c0c4605..4553581 100755
--- a/src/Lintel/File/Lock.pm
+++ b/src/Lintel/File/Lock.pm
@@ -81,10 +81,9 @@ sub getLock {
 	die "??" if $waittime < 0;
 	my $start = time;
 	while(1) {
-	    my $ret = flock($fh, LOCK_EX|LOCK_NB);
-	    if ($ret) {
+	    if (flock($fh, LOCK_EX|LOCK_NB)) {
 		return $fh;
-	    } elsif (! defined $ret) {
+	    } elsif (! ($!{EWOULDBLOCK} || $!{EINTR})) {
 	        die "flock($filename, LOCK_EX|LOCK_NB) failed: $!";
 	    }
 
-- 
2.43.0


From 40f959c632842951dba422a88028ab5531738a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 39/93] fix: getLock counted whole clock seconds and could give
 up almost a second early

---
 src/Lintel/File/Lock.pm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Lintel/File/Lock.pm b/src/Lintel/File/Lock.pm
index 4553581..65931d1 100755
--- a/src/Lintel/File/Lock.pm
+++ b/src/Lintel/File/Lock.pm
@@ -3,6 +3,7 @@ use strict;
 use warnings;
 use Fcntl qw/:flock :DEFAULT/;
 use FileHandle;
+use Time::HiRes 'time';
 
 =pod
 
@@ -87,7 +88,7 @@ sub getLock {
 	        die "flock($filename, LOCK_EX|LOCK_NB) failed: $!";
 	    }
 
-	    my $remain = $waittime - (time - $start);
+	    my $remain = sprintf("%.0f", $waittime - (time - $start));
 	    print STDERR "delayed waiting for lock, $remain seconds remain...\n"
 		if $verbose;
 	    return undef
-- 
2.43.0


From 9ebea110293597227ef6258512326d351a1c8588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 40/93] fix: getLock without a wait time failed when a signal
 handler ran while it waited

---
 src/Lintel/File/Lock.pm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Lintel/File/Lock.pm b/src/Lintel/File/Lock.pm
index 65931d1..7cc4f31 100755
--- a/src/Lintel/File/Lock.pm
+++ b/src/Lintel/File/Lock.pm
@@ -96,8 +96,8 @@ sub getLock {
 	    sleep(1);
 	}
     } else {
-	unless(flock($fh,LOCK_EX)) {
-	    die "flock($filename, LOCK_EX) failed: $!";
+	until (flock($fh,LOCK_EX)) {
+	    die "flock($filename, LOCK_EX) failed: $!" unless $!{EINTR};
 	}
 	return $fh;
     }
-- 
2.43.0


From 7b33f7290a39158f0287a0f9fd9cfb00ef37dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 41/93] fix: ProcessManager::fork failed after 30 s when output
 went to /dev/null or another special file

---
 src/Lintel/ProcessManager.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lintel/ProcessManager.pm b/src/Lintel/ProcessManager.pm
index 21cf30e..0c55b07 100644
--- a/src/Lintel/ProcessManager.pm
+++ b/src/Lintel/ProcessManager.pm
@@ -112,7 +112,7 @@ sub waitForFile {
     return unless defined $path;
     die "internal" unless defined $pid;
     print "Lintel::ProcessManager($$): Wait for file $path to be created\n" if $this->{debug};
-    for(my $start = time; ! -f $path; ) {
+    for(my $start = time; ! -e $path; ) {
 	my $delay = time - $start;
 	if ($delay >= 3) {
 	    warn "Waited too long ($delay seconds) for fork to make $path";
-- 
2.43.0


From 6d847d8b6e3a17e490eabaad654d563c9c766a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:14 +0000
Subject: [PATCH 42/93] fix: ProcessManager forgot a child that ended before it
 made its output files

---
 src/Lintel/ProcessManager.pm | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Lintel/ProcessManager.pm b/src/Lintel/ProcessManager.pm
index 0c55b07..3b16840 100644
--- a/src/Lintel/ProcessManager.pm
+++ b/src/Lintel/ProcessManager.pm
@@ -249,16 +249,18 @@ sub fork {
 	confess "exec($cmd) failed: $!";
     }
 
-    print "Lintel::ProcessManager($$): Parent ($pid)\n" if $this->{debug};
-    $this->waitForFile($opts{stdout}, $pid);
-    $this->waitForFile($opts{stderr}, $pid)
-	unless defined $opts{stderr} && $opts{stderr} eq 'STDOUT';
-
+    # Remember the child before waiting for its files: if it ends without
+    # making them, waitForFile dies, and the child still has to be waited for.
     $this->{children}->{$pid} =	{
 				 exitfn => $opts{exitfn},
 				 cmd => $opts{cmd}
 				};
 
+    print "Lintel::ProcessManager($$): Parent ($pid)\n" if $this->{debug};
+    $this->waitForFile($opts{stdout}, $pid);
+    $this->waitForFile($opts{stderr}, $pid)
+	unless defined $opts{stderr} && $opts{stderr} eq 'STDOUT';
+
     return $pid;
 }
 
-- 
2.43.0


From 187f662c83a205486b34e7c85e8b1e6da3429d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:53 +0000
Subject: [PATCH 43/93] fix: compress removed a source of which it could only
 read a part

---
 src/BatchParallel/compress.pm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BatchParallel/compress.pm b/src/BatchParallel/compress.pm
index a3991b8..94740a7 100644
--- a/src/BatchParallel/compress.pm
+++ b/src/BatchParallel/compress.pm
@@ -156,6 +156,8 @@ sub rebuild {
 	    fail($destpath,"read data different") unless $f1 eq $f2;
 	    $total_bytes += $amt1;
 	}
+	close(F1) || fail($destpath,"$unpack_orig_cmd failed");
+	close(F2) || fail($destpath,"$unpack_cmd failed");
 	die "weird no bytes compressed, unknown error in unpacking??"
 	    if $total_bytes == 0;
     }
-- 
2.43.0


From 05d502924cc2ad05170ab373af8dbc5e8830992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 44/93] fix: compress took the leftover of a killed run as a
 source and removed originals too early

---
 src/BatchParallel/compress.pm | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/BatchParallel/compress.pm b/src/BatchParallel/compress.pm
index 94740a7..c4ec7d0 100644
--- a/src/BatchParallel/compress.pm
+++ b/src/BatchParallel/compress.pm
@@ -61,6 +61,8 @@ sub file_is_source {
 
     return 0 unless -f $filename;
     return 0 if $filename =~ /\.$this->{type}$/o;
+    # partial output of a run which did not finish; the original is still there
+    return 0 if $filename =~ /\.((gz)|(bz2)|(7z))-new$/o;
     return 1;
 }
 
@@ -161,10 +163,18 @@ sub rebuild {
 	die "weird no bytes compressed, unknown error in unpacking??"
 	    if $total_bytes == 0;
     }
+    return 1;
+}
+
+# the original may only go away once the new file has its final name.
+sub rebuild_thing_success {
+    my($this,$thing_info) = @_;
+
+    $this->SUPER::rebuild_thing_success($thing_info);
+    my($prefix,$fullpath,$destfile) = @$thing_info;
     if ($this->{clean}) {
-	unlink($origpath);
+	unlink($fullpath);
     }
-    return 1;
 }
 	    
 1;
-- 
2.43.0


From 571cee7a29c5b147b79f8af6f0b1b8e8a863403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:30 +0000
Subject: [PATCH 45/93] fix: checksum recorded the sum of a part when unpacking
 or writing failed

---
 src/BatchParallel/checksum.pm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BatchParallel/checksum.pm b/src/BatchParallel/checksum.pm
index 34388bb..c245d43 100644
--- a/src/BatchParallel/checksum.pm
+++ b/src/BatchParallel/checksum.pm
@@ -103,6 +103,7 @@ sub checksum {
 	my $fh = new FileHandle($source)
 	    or die "Can't open $source for read: $!";
 	$digest->addfile($fh);
+	close($fh) or die "reading $source failed: $! (status $?)";
 	my $checksum = $digest->hexdigest();
 
 	print $output "$digest_type $checksum $filename\n";
@@ -128,7 +129,7 @@ sub rebuild {
 	$this->checksum("$uncompress < $fullpath |", $output, $basename);
     }
 
-    close($output);
+    close($output) or die "writing $destpath failed: $!";
     return 1;
 }
 
-- 
2.43.0


From 529b8dd861bfb81252534b23d8fc5c91b71a9ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:06 +0000
Subject: [PATCH 46/93] fix: batch-parallel make -n showed the first file's
 commands for every file

---
 src/BatchParallel/make.pm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BatchParallel/make.pm b/src/BatchParallel/make.pm
index 8169d75..465e8e9 100644
--- a/src/BatchParallel/make.pm
+++ b/src/BatchParallel/make.pm
@@ -116,7 +116,8 @@ sub do_rebuild {
     my($this, $src_path, $dest_path, $tmpdir, $mock) = @_;
 
     die "??" unless $tmpdir =~ m!^/!o;
-    foreach my $cmd (@{$this->{commands}}) {
+    foreach my $command (@{$this->{commands}}) {
+	my $cmd = $command; # leave the template alone, the next file needs it
 	$cmd =~ s/\$</$src_path/g;
 	$cmd =~ s/\$@/$dest_path/g;
 	$cmd =~ s/\$TMP/$tmpdir/g;
-- 
2.43.0


From 4b5d25ad61d141b6f6bd547e5f08dc24e1d5bf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 47/93] fix: a child of the process manager whose command
 failed went on with its parent's code

---
 src/Lintel/ProcessManager.pm | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Lintel/ProcessManager.pm b/src/Lintel/ProcessManager.pm
index 3b16840..da451d5 100644
--- a/src/Lintel/ProcessManager.pm
+++ b/src/Lintel/ProcessManager.pm
@@ -204,7 +204,9 @@ sub fork {
     confess "fork failed: $!" unless defined $pid && $pid >= 0;
     print "Lintel::ProcessManager($$): post-fork $pid\n" if $this->{debug};
 
-    if ($pid == 0) { 
+    # the child must not unwind into our caller's code: an eval there would
+    # let it go on as a second copy of the parent.
+    if ($pid == 0) { eval {
 	print "Lintel::ProcessManager($$): Child -- $cmd\n" if $this->{debug};
 	$this->{children} = {};
 	if ($opts{setpgid}) {
@@ -247,6 +249,9 @@ sub fork {
 	}
 
 	confess "exec($cmd) failed: $!";
+    };
+	print STDERR $@;
+	exit(255);
     }
 
     # Remember the child before waiting for its files: if it ends without
-- 
2.43.0


From 10107a9043d756e6897b492d75b16e161817a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 48/93] fix: a failing or eval-using rollback replaced the
 error that aborted the transaction

---
 src/Lintel/DBI.pm | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/Lintel/DBI.pm b/src/Lintel/DBI.pm
index b5533f7..24b56ed 100644
--- a/src/Lintel/DBI.pm
+++ b/src/Lintel/DBI.pm
@@ -290,16 +290,21 @@ Example:
 sub transaction {
     my ($self, $function) = @_;
     $self->beginTxn();
-    eval {
+    my $ok = eval {
         &$function();
         $self->commitTxn();
+	1;
     };
-    if ($@) {
-        $self->rollbackTxn();
+    unless ($ok) {
+	# the rollback may fail (e.g. the connection is gone) or use eval
+	# itself, neither may replace the error.
+	my $error = $@;
+        eval { $self->rollbackTxn(); };
+	warn "Rollback failed: $@" if $@;
 	if ($self->{trace_errors}) {
-	    confess("Transaction aborted.  Error: $@");
+	    confess("Transaction aborted.  Error: $error");
 	} else {
-	    die $@;
+	    die $error;
 	}
     }
 }
-- 
2.43.0


From 9d407027064cb932a999296bd7469c4c468e79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 49/93] fix: splitSQL never returned for a document that ends
 in a comment or string

---
 src/Lintel/DBI.pm | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Lintel/DBI.pm b/src/Lintel/DBI.pm
index 24b56ed..1f6b992 100644
--- a/src/Lintel/DBI.pm
+++ b/src/Lintel/DBI.pm
@@ -425,6 +425,8 @@ sub nextStatement {
 	# may hide a ';'.  State transitions below keep track of comments
 	# and string delimiters that could hide a ';'.
 	my ($brk) = ($continue =~ /("|'|;|--|\n)/);
+	# unfinished statement, string or comment at EOF, return nothing
+	return (undef, length($sql)) unless defined $brk;
 	$cursor += index($continue, $brk)+length($brk);
 #	print "'$brk' at $cursor\n";
 	if ($state eq 'ready') {
@@ -437,10 +439,6 @@ sub nextStatement {
 		# state until a newline is found
 		$state = 'comment';
 	    }
-	    if ($brk eq '') {
-		# EOF, return nothing
-		return (undef, $cursor);
-	    }
 	    if ($brk eq "\"" || $brk eq "'") {
 		# if inside a quoted string then ';' doesn't count. 
 		# Change state until a matching quote is found. SQL
-- 
2.43.0


From bb10ff3d1dffa6f69c80f36a56895ff80bfaa274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 50/93] fix: getConfig took every database error for a missing
 value, and never found one on drivers that check statements when preparing

---
 src/Lintel/DBI.pm | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/Lintel/DBI.pm b/src/Lintel/DBI.pm
index 1f6b992..c1cb02c 100644
--- a/src/Lintel/DBI.pm
+++ b/src/Lintel/DBI.pm
@@ -517,17 +517,23 @@ Returns the value of the config key specified, or undef if none is defined.
 
 sub getConfig {
     my ($self, $name) = @_;
+    die "Can't get configuration for long (> 254 byte) names ($name)"
+	if length $name > 254;
     if (! defined($self->{sth}->{__definitions}->{lintelDbiGetConfig})) {
-	$self->{dbh}->{PrintError} = 0;
-	$self->{dbh}->{RaiseError} = 0;
+	# no table, no configuration; any other failure must not be taken
+	# for a missing value.
+	return undef unless $self->haveDbiConfigTable();
         $self->load_sths(lintelDbiGetConfig => 
 			 "select value from lintel_dbi_config where name = ?");
-	$self->{dbh}->{PrintError} = 1;
-	$self->{dbh}->{RaiseError} = 1;
     }
-    die "Can't get configuration for long (> 254 byte) names ($name)"
-	if length $name > 254;
-    return eval { $self->{sth}->lintelDbiGetConfig($name)->value(); };
+    return $self->{sth}->lintelDbiGetConfig($name)->value();
+}
+
+sub haveDbiConfigTable {
+    my ($self) = @_;
+    my $tables = $self->{dbh}->table_info(undef, undef, 'lintel_dbi_config', 'TABLE');
+    # a driver that can't tell may have it
+    return ! defined $tables || defined $tables->fetchrow_arrayref();
 }
 
 sub loadDbiConfigSchema {
-- 
2.43.0


From ac9c56a3cb76229b8dd0b4c0e6a518af6f99fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 51/93] fix: getInstalledSchemaVersion reported no version when
 the database failed, so setupSchema installed again

---
 src/Lintel/DBI.pm | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/Lintel/DBI.pm b/src/Lintel/DBI.pm
index c1cb02c..06f03ad 100644
--- a/src/Lintel/DBI.pm
+++ b/src/Lintel/DBI.pm
@@ -607,15 +607,7 @@ the database, or undef if no version is installed.
 
 sub getInstalledSchemaVersion { 
     my ($self) = @_;
-    my $version;
-
-    eval {
-	$version = $self->getConfig($self->schema());
-    };
-
-    warn "getSchema failed: $@"
-	if $@;
-    return $version;
+    return $self->getConfig($self->schema());
 }
 
 
-- 
2.43.0


From c53bb27a481d498e8be356603c4dd30d98d97ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 52/93] fix: setupSchema died after it had installed the schema

---
 src/Lintel/DBI.pm | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Lintel/DBI.pm b/src/Lintel/DBI.pm
index 06f03ad..9dce628 100644
--- a/src/Lintel/DBI.pm
+++ b/src/Lintel/DBI.pm
@@ -673,10 +673,13 @@ you can eliminate this warning by making your sql an array reference."
 		$sql = [$sql];
 	    }
 	    $self->loadSchema($migrate->{init}->{to_version}, $sql);
+	    $db_version = $self->getInstalledSchemaVersion();
 	} else {
 	    die "There is no schema installed for $self->{application}";
 	}
-    } elsif ($db_version < $target_version) {
+    }
+
+    if (defined $db_version && $db_version < $target_version) {
 	$db_version = $self->migrateSchema($target_version, $migrate, $db_version);
     }
 
-- 
2.43.0


From ae7be7b0fb3f3d744029d420f3d3791d96f4c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 53/93] fix: a migration from a version given by the caller
 failed for want of the configuration table

---
 src/Lintel/DBI.pm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Lintel/DBI.pm b/src/Lintel/DBI.pm
index 9dce628..40c3fdf 100644
--- a/src/Lintel/DBI.pm
+++ b/src/Lintel/DBI.pm
@@ -575,6 +575,8 @@ sub loadSchema {
 sub migrateSchema {
     my ($self, $schema_version, $migration, $db_version) = @_;
 
+    # it may not be there yet if the caller knew the version
+    $self->loadDbiConfigSchema();
     while ($db_version < $schema_version) {
         if (defined $migration->{$db_version}) {
            $self->transaction(sub {
-- 
2.43.0


From fc3fc95309653b3914395a316ec23f11e8e7955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:07 +0000
Subject: [PATCH 54/93] fix: a refused clock calibration left the clock
 calibrated at the refused rate

setClockRate set the rate before checking it; if the failure is mapped to
an exception the clock counted as calibrated, at a rate that had just been
refused, and the mutex stayed locked.
---
 src/Clock.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Clock.cpp b/src/Clock.cpp
index e0a9330..d71216c 100644
--- a/src/Clock.cpp
+++ b/src/Clock.cpp
@@ -250,27 +250,32 @@ namespace {
 }
 
 void Clock::setClockRate(double estimated_mhz) {
-    clockRateMutex().lock();
+    SimpleScopedLock lock(clockRateMutex());
     INVARIANT(clock_rate == -Double::Inf,
 	      format("whoa, two threads calibrating at the same time?! %g != %g")
 	      % clock_rate % (-Double::Inf));
-    clock_rate = estimated_mhz;
+    // check before setting anything; the failure may be mapped to an
+    // exception, and then the clock must not count as calibrated.
+    INVARIANT(estimated_mhz > 200,
+	      format("Unable to calibrate clock rate, implausible estimate %.8g MHz")
+	      % estimated_mhz);
 
     double inverse_clock_rate = 1.0 / estimated_mhz;
 
     // cycle_counter * icr = time in us * 1/1e6 = time
     // in seconds * 2**32 = time in Tfrac
-    inverse_clock_rate_tfrac = inverse_clock_rate * (4294967296.0/1000000.0);
+    double tmp_inverse_clock_rate_tfrac = inverse_clock_rate * (4294967296.0/1000000.0);
     // increased the bound to 30us
     // (30*tmp_clock_rate); under load, this invariant
     // could fire; might want to warn, on a really
     // slow recalibrate, we could introduce a lot of
     // error.
     // 2009-10-27: updated bound to 100us so we can run strace on this.
-    INVARIANT(max_recalibrate_measure_time < 100 * clock_rate,
+    INVARIANT(max_recalibrate_measure_time < 100 * estimated_mhz,
 	      format("Internal sanity check failed, tod() takes too long, %d > %.2f\n")
-	      % max_recalibrate_measure_time % (100 * clock_rate));
-    clockRateMutex().unlock();
+	      % max_recalibrate_measure_time % (100 * estimated_mhz));
+    inverse_clock_rate_tfrac = tmp_inverse_clock_rate_tfrac;
+    clock_rate = estimated_mhz;
 }
 
 void Clock::calibrateClock(bool print_calibration_information, 
-- 
2.43.0


From a4a6a38ed07e020d88917a8a2a7bf2977c49b56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:35 +0000
Subject: [PATCH 55/93] fix: Clock::perThreadInit returned without calibration
 after a first call that failed

---
 src/ClockPThread.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ClockPThread.cpp b/src/ClockPThread.cpp
index 167aa11..2d1f41a 100644
--- a/src/ClockPThread.cpp
+++ b/src/ClockPThread.cpp
@@ -21,9 +21,10 @@ void Clock::perThreadInit() {
 
     //INVARIANT(!did_per_thread_init, "already did Clock::perThreadInit");
 
-    did_per_thread_init = true;
-    INVARIANT(pthread_key_create(&per_thread_clock, NULL) == 0, "bad");
+    // first, so that it is done again next time if it fails
     Clock::calibrateClock();
+    INVARIANT(pthread_key_create(&per_thread_clock, NULL) == 0, "bad");
+    did_per_thread_init = true;
 }
 
 Clock &Clock::perThread() {
-- 
2.43.0


From e2413878bd67f43430be4bd95707f51272ddb742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:52 +0000
Subject: [PATCH 56/93] fix: HashTable iterator reset() on a table that has
 become empty did not give end()

---
 include/Lintel/HashTable.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Lintel/HashTable.hpp b/include/Lintel/HashTable.hpp
index 74b2374..886e644 100644
--- a/include/Lintel/HashTable.hpp
+++ b/include/Lintel/HashTable.hpp
@@ -351,6 +351,8 @@ private:
 		  }
 	    if (cur_chain < static_cast<int>(mytable->entry_points.size())) {
 		chain_loc = mytable->entry_points[cur_chain];
+	    } else {
+		chain_loc = -1; // as end() has it
 	    }
 	}
 	void increment() {
-- 
2.43.0


From 56724c8c15c4e95df248682fa6975c4f67a59405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:40 +0000
Subject: [PATCH 57/93] fix: constant strings that contain null bytes were
 compared and printed only up to the null

---
 include/Lintel/ConstantString.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/Lintel/ConstantString.hpp b/include/Lintel/ConstantString.hpp
index 576bff8..1abc5be 100644
--- a/include/Lintel/ConstantString.hpp
+++ b/include/Lintel/ConstantString.hpp
@@ -100,14 +100,10 @@ public:
 	} 
     }
     int compare(const ConstantString &rhs) const {
-	int cmplen = size() < rhs.size() ? size() : rhs.size();
-	cmplen += 1; // include null byte of shorter string
-	return memcmp(c_str(),rhs.c_str(),cmplen);
+	return compareBytes(rhs.data(), rhs.size());
     }
     int compare(const std::string &rhs) const {
-	int cmplen = size() < rhs.size() ? size() : rhs.size();
-	cmplen += 1; // include null byte of shorter string
-	return memcmp(c_str(),rhs.c_str(),cmplen);
+	return compareBytes(rhs.data(), rhs.size());
     }
 
     char operator[](size_t pos) const {
@@ -153,6 +149,16 @@ public:
 	return myptr == to.myptr ? true : false;
     }
 private:
+    // null bytes may be part of the string, so one that continues with
+    // a null after the end of the other is the larger of the two.
+    int compareBytes(const char *rhs, size_t rhs_size) const {
+	int ret = memcmp(data(), rhs, size() < rhs_size ? size() : rhs_size);
+	if (ret != 0 || size() == rhs_size) {
+	    return ret;
+	}
+	return size() < rhs_size ? -1 : 1;
+    }
+
     ConstantStringValue *myptr;
 
     static int nstrings;
@@ -202,13 +208,12 @@ operator!=(const ConstantString &lhs, const std::string &rhs) {
 
 inline bool
 operator!=(const ConstantString &lhs, const char *rhs) {
-    return strcmp(lhs.c_str(),rhs) != 0;
+    return lhs.size() != strlen(rhs) || memcmp(lhs.data(),rhs,lhs.size()) != 0;
 }
 
 inline std::ostream &
 operator<< (std::ostream&o, const ConstantString&s) {
-    o << s.c_str();
-    return o;
+    return o << s.str();
 }
 
 /// \cond SEMI_INTERNAL_CLASSES
-- 
2.43.0


From 4c8b89745441afceecdf1f61573b093bcd7c158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:49 +0000
Subject: [PATCH 58/93] fix: ByteBuffer::replace accepted offsets near the end
 of the address range

---
 include/Lintel/ByteBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index da33b64..bdbe6b5 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -447,7 +447,7 @@ namespace lintel {
 	/// @param src source data for replacing
 	/// @param length length of data for replacing
         void replace(size_t offset, const void *src, size_t length) {
-	    SINVARIANT(offset + length <= readAvailable());
+	    SINVARIANT(offset <= readAvailable() && length <= readAvailable() - offset);
 	    memcpy(writeableReadStart() + offset, src, length);
 	}
 
-- 
2.43.0


From 6aa75a9cb0a301684aa17390b47e36a7740d248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:11 +0000
Subject: [PATCH 59/93] fix: merging an empty StatsQuantile into one with data
 read outside its buffers

---
 src/StatsQuantile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 6d155a4..174b70a 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -244,6 +244,10 @@ void StatsQuantile::add(const Stats &_stat) {
     const StatsQuantile *stat = dynamic_cast<const StatsQuantile *>(&_stat);
     INVARIANT(stat != NULL, "need another StatsQuantile for add(Stats) to work");
 
+    if (stat->countll() == 0) {
+	return; // nothing to merge; a lazy one doesn't even have a current buffer
+    }
+
     Stats::add(_stat); 
 
     if ((cur_buffer == -1 || 
-- 
2.43.0


From 3eeeef3c833f4c4077343d49fd3df623b6195c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:26 +0000
Subject: [PATCH 60/93] fix: a failed allocation while adding a value left a
 StatsQuantile unusable

---
 src/StatsQuantile.cpp | 49 +++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 174b70a..506c1f9 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -207,23 +207,25 @@ void StatsQuantile::reset() {
 
 void StatsQuantile::addQuantile(const double value) {
     if (cur_buffer_pos >= buffer_size) {
-	cur_buffer += 1;
-	cur_buffer_pos = 0;
-	if (cur_buffer == nbuffers) {
-	    collapse();
-	} else if (cur_buffer>0) {
-#if 1
-	    // do the sort here to amortize the work
-	    sort(all_buffers[cur_buffer - 1],
-		      all_buffers[cur_buffer - 1]+buffer_size,
-		      doubleOrder());
-	    buffer_sorted[cur_buffer-1] = true;
-#endif
+	// Any allocation happens before the state changes, so that if
+	// it fails the value has just not been added.
+	if (cur_buffer + 1 == nbuffers) {
+	    collapse(); // also sets cur_buffer
+	} else {
+	    if (lazy && all_buffers[cur_buffer + 1] == NULL) {
+		all_buffers[cur_buffer + 1] = new double[buffer_size];
+	    }
+	    cur_buffer += 1;
+	    if (cur_buffer > 0) {
+		// do the sort here to amortize the work
+		sort(all_buffers[cur_buffer - 1],
+		     all_buffers[cur_buffer - 1]+buffer_size,
+		     doubleOrder());
+		buffer_sorted[cur_buffer-1] = true;
+	    }
 	}
+	cur_buffer_pos = 0;
         SINVARIANT(cur_buffer < nbuffers);
-	if (lazy && all_buffers[cur_buffer] == NULL) {
-	    all_buffers[cur_buffer] = new double[buffer_size];
-	}
 	buffer_weight[cur_buffer] = 1;
 	buffer_level[cur_buffer] = 0;
 	if (cur_buffer == nbuffers - 1) {
@@ -236,8 +238,8 @@ void StatsQuantile::addQuantile(const double value) {
 }
 
 void StatsQuantile::add(const double value) {
+    addQuantile(value); // may fail, so count the value afterwards
     Stats::add(value);
-    addQuantile(value);
 }
 
 void StatsQuantile::add(const Stats &_stat) {
@@ -593,6 +595,14 @@ void StatsQuantile::collapse() {
     // two walks over the larger data, and so may very well be slower
     // it's also a lot more complex
 
+    if (tmp_buffer == NULL) {
+	tmp_buffer = new double[buffer_size];
+    }
+    // Because a double and int are small, it's faster to store the
+    // pair rather than do the double dereference each time to
+    // translate a buffer number into its value.
+    PriorityQueue<pair<double, int>, pairCmp> pq(nbuffers);
+
     int first_buffer = collapseFindFirstBuffer();
 
     // first, sort each of the unsorted input buffers 
@@ -609,16 +619,9 @@ void StatsQuantile::collapse() {
     int64_t next_output_pos = 0;
     IF_LINTEL_DEBUG(double prev_val = -Double::Inf;)
 
-    // Because a double and int are small, it's faster to store the
-    // pair rather than do the double dereference each time to
-    // translate a buffer number into its value.
-    PriorityQueue<pair<double, int>, pairCmp> pq(nbuffers);
     for(int i=first_buffer; i < nbuffers; ++i) {
 	pq.push(make_pair(collapseVal(i), i));
     }
-    if (tmp_buffer == NULL) {
-	tmp_buffer = new double[buffer_size];
-    }
     while(next_output_pos < buffer_size) {
 	int min_buffer = pq.top().second;
 	double min_val = pq.top().first;
-- 
2.43.0


From ae8aa76d04d19fd610ecd98ca41807baad66dbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:55 +0000
Subject: [PATCH 61/93] fix: a failed allocation while merging left a
 StatsQuantile with a part of the values

---
 include/Lintel/StatsQuantile.hpp |  8 ++++++
 src/StatsQuantile.cpp            | 44 ++++++++++++++++++++++----------
 2 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/include/Lintel/StatsQuantile.hpp b/include/Lintel/StatsQuantile.hpp
index f8cb338..c36a124 100644
--- a/include/Lintel/StatsQuantile.hpp
+++ b/include/Lintel/StatsQuantile.hpp
@@ -145,6 +145,10 @@ private:
 
     void collapse();
 
+    // allocate the first count buffers, and if that's all of them, also
+    // what collapse() needs.
+    void allocateBuffers(int count);
+
     double getQuantileByIndex(uint64_t target_index) const;
     double getQuantileByBinSearchIndex(uint64_t target_index) const;
 
@@ -190,6 +194,10 @@ private:
 	    return a.first >= b.first;
 	}
     };
+    // Because a double and int are small, it's faster to store the
+    // pair rather than do the double dereference each time to
+    // translate a buffer number into its value; used by collapse()
+    PriorityQueue<std::pair<double, int>, pairCmp> *collapse_queue;
 };
 
 #endif
diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 506c1f9..666e973 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -155,6 +155,7 @@ void StatsQuantile::init(int _nbuffers, int _buffer_size) {
     } else {
 	tmp_buffer = NULL;
     }
+    collapse_queue = NULL;
     collapse_pos = new int[buffer_size];
     init_buffers();
 }
@@ -197,6 +198,7 @@ StatsQuantile::~StatsQuantile() {
     delete[] buffer_level;
     delete[] buffer_sorted;
     delete[] tmp_buffer;
+    delete collapse_queue;
     delete[] collapse_pos;
 }
 
@@ -205,6 +207,22 @@ void StatsQuantile::reset() {
     init_buffers();
 }
 
+void StatsQuantile::allocateBuffers(int count) {
+    for(int i = 0; i < count; ++i) {
+	if (all_buffers[i] == NULL) {
+	    all_buffers[i] = new double[buffer_size];
+	}
+    }
+    if (count == nbuffers) { // may have to collapse
+	if (tmp_buffer == NULL) {
+	    tmp_buffer = new double[buffer_size];
+	}
+	if (collapse_queue == NULL) {
+	    collapse_queue = new PriorityQueue<pair<double, int>, pairCmp>(nbuffers);
+	}
+    }
+}
+
 void StatsQuantile::addQuantile(const double value) {
     if (cur_buffer_pos >= buffer_size) {
 	// Any allocation happens before the state changes, so that if
@@ -250,19 +268,16 @@ void StatsQuantile::add(const Stats &_stat) {
 	return; // nothing to merge; a lazy one doesn't even have a current buffer
     }
 
-    Stats::add(_stat); 
-
     if ((cur_buffer == -1 || 
 	 (cur_buffer == 0 && cur_buffer_pos == 0)) && // we are empty
 	buffer_size == stat->buffer_size && // we are compatible
 	nbuffers == stat->nbuffers) {
-	INVARIANT(countll() == _stat.countll(), "??");
 	INVARIANT(stat->cur_buffer < nbuffers, "??");
+	allocateBuffers(stat->cur_buffer + 1);
+	Stats::add(_stat); 
+	INVARIANT(countll() == _stat.countll(), "??");
 	for(int i=0; i <= stat->cur_buffer; ++i) {
 	    // Will copy some useless stuff in last buffer.
-	    if (all_buffers[i] == NULL) {
-		all_buffers[i] = new double[buffer_size];
-	    }
 	    memcpy(all_buffers[i], stat->all_buffers[i],
 		   sizeof(double) * buffer_size);
 	    buffer_weight[i] = stat->buffer_weight[i];
@@ -277,6 +292,13 @@ void StatsQuantile::add(const Stats &_stat) {
 	return;
     }
 
+    // Get all the memory that adding the values below could need, so
+    // that a failed allocation can't leave us with a part of them.
+    allocateBuffers(static_cast<int>
+		    (std::min(static_cast<double>(nbuffers), 
+			      cur_buffer + 2 + static_cast<double>(stat->countll()) / buffer_size)));
+    Stats::add(_stat); 
+
     // There should be a faster way to do this, but this should work
     // correctly.  The faster way should be possible if for no other
     // reason we are inserting the values in order.  In essence we
@@ -595,13 +617,9 @@ void StatsQuantile::collapse() {
     // two walks over the larger data, and so may very well be slower
     // it's also a lot more complex
 
-    if (tmp_buffer == NULL) {
-	tmp_buffer = new double[buffer_size];
-    }
-    // Because a double and int are small, it's faster to store the
-    // pair rather than do the double dereference each time to
-    // translate a buffer number into its value.
-    PriorityQueue<pair<double, int>, pairCmp> pq(nbuffers);
+    allocateBuffers(nbuffers);
+    PriorityQueue<pair<double, int>, pairCmp> &pq = *collapse_queue;
+    pq.clear();
 
     int first_buffer = collapseFindFirstBuffer();
 
-- 
2.43.0


From fd076bd658cd287bf3bb7d7d1b6f296f03c4f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:55 +0000
Subject: [PATCH 62/93] fix: a StatsQuantile constructor that ran out of memory
 leaked its buffers

---
 include/Lintel/StatsQuantile.hpp |  3 ++
 src/StatsQuantile.cpp            | 47 +++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/include/Lintel/StatsQuantile.hpp b/include/Lintel/StatsQuantile.hpp
index c36a124..2b0bf45 100644
--- a/include/Lintel/StatsQuantile.hpp
+++ b/include/Lintel/StatsQuantile.hpp
@@ -163,6 +163,9 @@ private:
     /// Zero-clear all the buffer contents for quantile computation.
     void init_buffers(); 
 
+    /// Free everything init() allocated and lazy allocation added.
+    void free_buffers();
+
     // TODO: replace these with vectors, make structure with all buffer
     // related thing, e.g. weight, level, sorted(probably)
 
diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 666e973..60fc123 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -143,21 +143,30 @@ void StatsQuantile::init(int _nbuffers, int _buffer_size) {
 	      "need at least two buffers for code to work correctly");
     INVARIANT(buffer_size >= 10,
 	      "buffers smaller than 10 don't make sense.");
-    all_buffers = new one_buffer[nbuffers];
-    for(int i = 0; i < nbuffers; ++i) {
-	all_buffers[i] = NULL;
-    }
-    buffer_weight = new int64_t[nbuffers];
-    buffer_level = new int[nbuffers];
-    buffer_sorted = new bool[nbuffers];
-    if (!lazy) {
-	tmp_buffer = new double[buffer_size];
-    } else {
-	tmp_buffer = NULL;
-    }
+    all_buffers = NULL;
+    buffer_weight = NULL;
+    buffer_level = NULL;
+    buffer_sorted = NULL;
+    tmp_buffer = NULL;
     collapse_queue = NULL;
-    collapse_pos = new int[buffer_size];
-    init_buffers();
+    collapse_pos = NULL;
+    try {
+	all_buffers = new one_buffer[nbuffers];
+	for(int i = 0; i < nbuffers; ++i) {
+	    all_buffers[i] = NULL;
+	}
+	buffer_weight = new int64_t[nbuffers];
+	buffer_level = new int[nbuffers];
+	buffer_sorted = new bool[nbuffers];
+	if (!lazy) {
+	    tmp_buffer = new double[buffer_size];
+	}
+	collapse_pos = new int[buffer_size];
+	init_buffers();
+    } catch (...) {
+	free_buffers(); // the destructor won't run
+	throw;
+    }
 }
 
 void StatsQuantile::init_buffers() {
@@ -190,8 +199,14 @@ void StatsQuantile::init_buffers() {
 }
 
 StatsQuantile::~StatsQuantile() {
-    for(int i=0;i<nbuffers;i++) {
-	delete[] all_buffers[i];
+    free_buffers();
+}
+
+void StatsQuantile::free_buffers() {
+    if (all_buffers != NULL) {
+	for(int i=0;i<nbuffers;i++) {
+	    delete[] all_buffers[i];
+	}
     }
     delete[] all_buffers;
     delete[] buffer_weight;
-- 
2.43.0


From 5cb8e1f981797e5d8dc07ab553a70a7fced607b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 63/93] fix: a StatsQuantile with more buffers than entries in
 a buffer wrote after its position table

---
 src/StatsQuantile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 60fc123..1e33e04 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -161,7 +161,7 @@ void StatsQuantile::init(int _nbuffers, int _buffer_size) {
 	if (!lazy) {
 	    tmp_buffer = new double[buffer_size];
 	}
-	collapse_pos = new int[buffer_size];
+	collapse_pos = new int[nbuffers];
 	init_buffers();
     } catch (...) {
 	free_buffers(); // the destructor won't run
@@ -302,7 +302,7 @@ void StatsQuantile::add(const Stats &_stat) {
 	cur_buffer = stat->cur_buffer;
 	cur_buffer_pos = stat->cur_buffer_pos;
 	// TODO: determine if we really have to copy collapse_pos
-	memcpy(collapse_pos, stat->collapse_pos, sizeof(int) * buffer_size);
+	memcpy(collapse_pos, stat->collapse_pos, sizeof(int) * nbuffers);
 	collapse_even_low = stat->collapse_even_low;
 	return;
     }
-- 
2.43.0


From 5a77af089e93a0d831a6f8e65c0dcc5fc9300594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:24 +0000
Subject: [PATCH 64/93] fix: a failure while adding an entry left a table or
 cube of statistics with a NULL one

---
 include/Lintel/HashTupleStats.hpp | 17 +++++++++++++----
 include/Lintel/StatsCube.hpp      | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/Lintel/HashTupleStats.hpp b/include/Lintel/HashTupleStats.hpp
index 3fc329c..b6ba92b 100644
--- a/include/Lintel/HashTupleStats.hpp
+++ b/include/Lintel/HashTupleStats.hpp
@@ -206,11 +206,20 @@ namespace lintel {
 	/// Get the hash entry for a particular key, create it if it
 	/// doesn't already exist.
 	StatsT &getHashEntry(const Tuple &key) {
-	    StatsT * &v = data[key];
+	    StatsT **found = data.lookup(key);
 
-	    if (v == NULL) {
-		v = stats_factory_fn();
-		SINVARIANT(v != NULL);
+	    if (found != NULL) {
+		return **found;
+	    }
+	    // Only add the key once there is a value for it, so that if
+	    // this fails, no entry without one stays behind.
+	    StatsT *v = stats_factory_fn();
+	    SINVARIANT(v != NULL);
+	    try {
+		data[key] = v;
+	    } catch (...) {
+		delete v;
+		throw;
 	    }
 	    return *v;
 	}
diff --git a/include/Lintel/StatsCube.hpp b/include/Lintel/StatsCube.hpp
index b691f34..ff974da 100644
--- a/include/Lintel/StatsCube.hpp
+++ b/include/Lintel/StatsCube.hpp
@@ -201,10 +201,20 @@ namespace lintel {
 	/// Get a particular cube entry as specifies by key; create it
 	/// if it does not exist.
 	Stats &getCubeEntry(const MyAny &key) {
-	    Stats * &v = cube_data[key];
+	    StatsT **found = cube_data.lookup(key);
 
-	    if (v == NULL) {
-		v = stats_factory_fn();
+	    if (found != NULL) {
+		return **found;
+	    }
+	    // Only add the key once there is a value for it, so that if
+	    // this fails, no entry without one stays behind.
+	    StatsT *v = stats_factory_fn();
+	    SINVARIANT(v != NULL);
+	    try {
+		cube_data[key] = v;
+	    } catch (...) {
+		delete v;
+		throw;
 	    }
 	    return *v;
 	}
-- 
2.43.0


From cc8f6092782dca928b9c98366c116d0fbaa8c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:24 +0000
Subject: [PATCH 65/93] fix: a failing function during walkZeros leaked the
 zero statistic

---
 include/Lintel/HashTupleStats.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/HashTupleStats.hpp b/include/Lintel/HashTupleStats.hpp
index b6ba92b..873ca9a 100644
--- a/include/Lintel/HashTupleStats.hpp
+++ b/include/Lintel/HashTupleStats.hpp
@@ -13,6 +13,7 @@
 #include <bitset>
 
 #include <boost/bind.hpp>
+#include <boost/scoped_ptr.hpp>
 
 #include <Lintel/HashTable.hpp>
 #include <Lintel/HashUnique.hpp>
@@ -191,7 +192,7 @@ namespace lintel {
 	/// of the hash unique tuple and therefore avoid walking over
 	/// some of the entries.
 	void walkZeros(const WalkFn &walk_fn, const HashUniqueTuple &hut, bool count_zeros) const {
-	    StatsT *zero = stats_factory_fn();
+	    boost::scoped_ptr<StatsT> zero(stats_factory_fn()); // walk_fn may throw
 
 	    if (count_zeros) {
 		zero->add(0);
@@ -199,8 +200,6 @@ namespace lintel {
 
 	    Tuple tmp_key;
 	    detail::zeroWalk(hut, tmp_key, tmp_key, data, *zero, walk_fn);
-	
-	    delete zero;
 	}
 
 	/// Get the hash entry for a particular key, create it if it
-- 
2.43.0


From a01ec4fd4cc9854a62cd7b7a3f04e297757c8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:57 +0000
Subject: [PATCH 66/93] fix: a failed allocation while pruning left an entry
 with a deleted statistic

---
 include/Lintel/HashTupleStats.hpp | 5 +++--
 include/Lintel/StatsCube.hpp      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/Lintel/HashTupleStats.hpp b/include/Lintel/HashTupleStats.hpp
index 873ca9a..eca07f6 100644
--- a/include/Lintel/HashTupleStats.hpp
+++ b/include/Lintel/HashTupleStats.hpp
@@ -239,8 +239,9 @@ namespace lintel {
 	void prune(PruneFn fn) {
 	    for(HTSiterator i = data.begin(); i != data.end(); ) {
 		if (fn(i->first)) {
-		    delete i->second;
-		    data.remove(i->first);
+		    StatsT *pruned = i->second;
+		    data.remove(i->first); // may fail, entry is still usable then
+		    delete pruned;
 		    i.partialReset();
 		} else {
 		    ++i;
diff --git a/include/Lintel/StatsCube.hpp b/include/Lintel/StatsCube.hpp
index ff974da..8a93012 100644
--- a/include/Lintel/StatsCube.hpp
+++ b/include/Lintel/StatsCube.hpp
@@ -231,8 +231,9 @@ namespace lintel {
 	void prune(PruneFn fn) {
 	    for(PTCMIterator i = cube_data.begin(); i != cube_data.end(); ) {
 		if (fn(i->first)) {
-		    delete i->second;
-		    cube_data.remove(i->first);
+		    StatsT *pruned = i->second;
+		    cube_data.remove(i->first); // may fail, entry is still usable then
+		    delete pruned;
 		    i.partialReset();
 		} else {
 		    ++i;
-- 
2.43.0


From 83d9d70041ceecfb54b19da9d5af1e4a2914d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:02 +0000
Subject: [PATCH 67/93] fix: threads decoding with ASCIIbeticalB64 for the
 first time could use an unfilled table

---
 include/Lintel/Base64.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/Lintel/Base64.hpp b/include/Lintel/Base64.hpp
index b3a178d..73d277f 100644
--- a/include/Lintel/Base64.hpp
+++ b/include/Lintel/Base64.hpp
@@ -28,16 +28,9 @@ namespace lintel {
 	}
 
 	static const char * detranslate() {
-	    static char * inverse = 0;
-	    if (inverse) {
-		return inverse;
-	    }
-	    inverse = new char[256];
-	    for (int8_t i=0; i<64; ++i) {
-		inverse[static_cast<int32_t>(translate()[i])] = 
-		    static_cast<char>(i);
-	    }
-	    return inverse;
+	    // constructed once, even if multiple threads get here together
+	    static const Detranslate inverse;
+	    return inverse.table;
 	}
 	
 	static std::string decode(std::string &data) {
@@ -197,6 +190,16 @@ namespace lintel {
 			   char * ret) {
 	    encode(data.data(), data.size(), digits, ret);
 	}
+    private:
+	struct Detranslate {
+	    Detranslate() : table() {
+		for (int8_t i=0; i<64; ++i) {
+		    table[static_cast<int32_t>(translate()[i])] =
+			static_cast<char>(i);
+		}
+	    }
+	    char table[256];
+	};
     };
 }
 
-- 
2.43.0


From 5a05f7a303eb6c5347eda5bd9cb847f62a654e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 68/93] fix: threads making StatsQuantiles at the same time
 shared the size cache without a lock

---
 src/StatsQuantile.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 1e33e04..ce07f1d 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -18,6 +18,7 @@
 #include <Lintel/Double.hpp>
 #include <Lintel/HashMap.hpp>
 #include <Lintel/LintelLog.hpp>
+#include <Lintel/SimpleMutex.hpp>
 #include <Lintel/StatsQuantile.hpp>
 
 using namespace std;
@@ -48,6 +49,8 @@ namespace {
 	BK(uint32_t in_b, uint32_t in_k) : b(in_b), k(in_k) { }
     };
 
+    // Shared by all the StatsQuantiles, so also between threads.
+    SIMPLE_MUTEX_SINGLETON(bkCacheMutex)
     HashMap<ErrorNbound, BK> bk_cache;
 
     double fact(double a) {
@@ -85,12 +88,16 @@ StatsQuantile::StatsQuantile(double _quantile_error, int64_t in_nbound, int _pri
 
     // If we are making lots of smallish StatsQuantiles, we can spend
     // too much of our time doing this, so cache the sizes.
-    BK *cache = bk_cache.lookup(ErrorNbound(quantile_error, Nbound));
+    {
+	SimpleScopedLock lock(bkCacheMutex());
+	BK *cache = bk_cache.lookup(ErrorNbound(quantile_error, Nbound));
 
-    if (cache != NULL) {
-	best_b = cache->b;
-	best_k = cache->k;
-    } else {
+	if (cache != NULL) {
+	    best_b = cache->b;
+	    best_k = cache->k;
+	}
+    }
+    if (best_b < 0) {
 	// The hunt for b = nbuffers, and k = buffer_size is on, following 
 	// section 4.5 in the paper
 
@@ -113,6 +120,7 @@ StatsQuantile::StatsQuantile(double _quantile_error, int64_t in_nbound, int _pri
 		} 
 	    }
 	}
+	SimpleScopedLock lock(bkCacheMutex());
 	if (bk_cache.size() > 1000) { // keep the cache small
 	    bk_cache.clear();
 	}
-- 
2.43.0


From 2fced3a3518b8b3dd4fc0278f86992f634673148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:59 +0000
Subject: [PATCH 69/93] fix: StatsSequence lost its place when an allocation
 failed, and MergeMax lost negative values

---
 src/StatsSequence.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/StatsSequence.cpp b/src/StatsSequence.cpp
index d624015..01181e8 100644
--- a/src/StatsSequence.cpp
+++ b/src/StatsSequence.cpp
@@ -41,6 +41,12 @@ StatsSequence::reset()
 void
 StatsSequence::add(const double value)
 {
+    if (values.size() < max_retain) {
+	// make room first, so that a failed allocation leaves us as we were
+	if (values.size() == values.capacity()) {
+	    values.reserve(values.empty() ? 1 : 2 * values.size());
+	}
+    }
     Stats::add(value);
     if (values.size() == max_retain) {
 	SINVARIANT(points_remain_new_bucket == points_per_bucket 
@@ -64,7 +70,9 @@ StatsSequence::add(const double value)
 	points_remain_new_bucket = points_per_bucket;
     }
     if (merge_mode == MergeMax) { 
-	new_value = (new_value > value) ? new_value : value; 
+	if (points_remain_new_bucket == points_per_bucket || value > new_value) {
+	    new_value = value;
+	}
     } else { 
 	new_value += value; 
     }
-- 
2.43.0


From 926fb5948f2c3a9acda2578f18614507f53557e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:59 +0000
Subject: [PATCH 70/93] fix: histograms allowed reading one past the last bin

---
 src/StatsHistogram.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 0a848a6..217029c 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -83,7 +83,7 @@ void StatsHistogramUniform::reset() {
 
 unsigned long StatsHistogramUniform::operator[](unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return bins[index];
 }
 
@@ -395,7 +395,7 @@ void StatsHistogramLog::reset() {
 
 unsigned long StatsHistogramLog::operator[](unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return bins[index];
 }
 
@@ -642,7 +642,7 @@ void StatsHistogramUniformAccum::add(const double value) {
 
 double StatsHistogramUniformAccum::value(unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return val_bins[index];
 }
 
@@ -755,7 +755,7 @@ void StatsHistogramLogAccum::add(const double index_value, const double data_val
 
 double StatsHistogramLogAccum::value(unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return val_bins[index];
 }
 
-- 
2.43.0


From 7d6a75684517b6be761014fa8baff249e90f0774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:00 +0000
Subject: [PATCH 71/93] fix: StatsHistogramLogAccum freed its counts in place
 of its values

---
 src/StatsHistogram.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 217029c..a3ee5df 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -726,8 +726,8 @@ StatsHistogramLogAccum::StatsHistogramLogAccum(const unsigned bins_in,
 }
 
 StatsHistogramLogAccum::~StatsHistogramLogAccum() {
-    delete[] bins;
-    bins = NULL;
+    delete[] val_bins;
+    val_bins = NULL;
 }
 
 void StatsHistogramLogAccum::reset() {
-- 
2.43.0


From 60816c97ce7ae6d11e6cc5527ebe490d08af4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:00 +0000
Subject: [PATCH 72/93] fix: StatsHistogramUniformAccum with an odd number of
 bins wrote past its values

---
 src/StatsHistogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index a3ee5df..02323cf 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -574,7 +574,7 @@ StatsHistogramUniformAccum::StatsHistogramUniformAccum(const unsigned bins_in,
 			      scalable_in, growable_in),
 	val_bins(NULL)
 {
-  val_bins = new double[bins_in];
+  val_bins = new double[num_bins];
   SINVARIANT(val_bins != NULL);
   reset();
 }
-- 
2.43.0


From 2875009534fedf1015c1af1ab1d2c4f4804fd7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:15 +0000
Subject: [PATCH 73/93] fix: a StatsHistogramUniform that could not grow
 counted the value anyway, and never freed its old bins

---
 include/Lintel/StatsHistogram.hpp |   2 +
 src/StatsHistogram.cpp            | 118 +++++++++++++++++++-----------
 2 files changed, 78 insertions(+), 42 deletions(-)

diff --git a/include/Lintel/StatsHistogram.hpp b/include/Lintel/StatsHistogram.hpp
index 49e743d..ab4862b 100644
--- a/include/Lintel/StatsHistogram.hpp
+++ b/include/Lintel/StatsHistogram.hpp
@@ -116,6 +116,8 @@ protected:
     unsigned       num_grows;	// number of times rescaled
 
     unsigned sampleBin(const double x) const;
+    void growBins(const double value, double **val_bins);
+    void checkScale(const double value) const;
 
 public:
     StatsHistogramUniform(const unsigned bins_in,
diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 02323cf..ac86022 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -99,53 +99,80 @@ unsigned StatsHistogramUniform::sampleBin(const double value) const {
     return bin;
 }
 
-void StatsHistogramUniform::add(const double value) {
-    Stats::add(value);	// Keep track of means, etc
+// Grow the number of bins until value is inside them; val_bins, if there
+// are any, grow along.  Nothing has changed if this fails.
+
+void StatsHistogramUniform::growBins(const double value, double **val_bins) {
+    if (value >= bin_high) {
+	INVARIANT(value < std::numeric_limits<double>::max()/2, 
+		  boost::format("StatsHistogramUniform: unreasonably"
+				"large upper value: %g") % value);
+    } else {
+	INVARIANT(-value < std::numeric_limits<double>::max()/2,
+		  boost::format("unreasonably large lower value: %lg")
+		  % value);
+    }
+    double distance = value >= bin_high ? value - bin_low : bin_high - value;
+    INVARIANT(distance / bin_width < std::numeric_limits<int>::max(),
+	      boost::format("StatsHistogramUniform: too many bins of width %g"
+			    " to reach %g") % bin_width % value);
+    unsigned new_num_bins = 2 * (((unsigned)floor(distance / bin_width) + 2)/2);
+    if (new_num_bins < num_bins * 2)
+	new_num_bins = num_bins * 2; // at least double the bin count
+    unsigned offset = value >= bin_high ? 0 : new_num_bins - num_bins;
+
+    double *new_val_bins = NULL;
+    if (val_bins != NULL) {
+	new_val_bins = new double[new_num_bins];
+    }
+    unsigned long *new_bins;
+    try {
+	new_bins = new unsigned long[new_num_bins];
+    } catch (...) {
+	delete[] new_val_bins;
+	throw;
+    }
+
+    // zero the new bins, and then copy the old values over
+    memset(new_bins, 0, new_num_bins*sizeof(unsigned long));
+    memcpy(&new_bins[offset], bins, num_bins*sizeof(unsigned long));
+    delete[] bins;
+    bins = new_bins;
+    if (val_bins != NULL) {
+	for (unsigned i = 0; i < new_num_bins; ++i) {
+	    new_val_bins[i] = 0;
+	}
+	memcpy(&new_val_bins[offset], *val_bins, num_bins*sizeof(double));
+	delete[] *val_bins;
+	*val_bins = new_val_bins;
+    }
+    num_bins = new_num_bins;
+    if (value >= bin_high) {
+	bin_high = bin_low + new_num_bins * bin_width;
+    } else {
+	bin_low = bin_high - new_num_bins * bin_width;
+    }
+    num_rescales++;
+}
+
+void StatsHistogramUniform::checkScale(const double value) const {
+    INVARIANT(bin_high > bin_low 
+	      && fabs(value) < std::numeric_limits<double>::max()/4,
+	      boost::format("StatsHistogramUniform: can't rescale [%g, %g) to"
+			    " include %g") % bin_low % bin_high % value);
+}
 
+void StatsHistogramUniform::add(const double value) {
     // Grow the number of bins?
     if (is_growable  &&  (value < bin_low || value >= bin_high)) {
-	num_rescales++;		// About to do a reset, so count it
-	
-	if (value >= bin_high) { 
-	    INVARIANT(value < std::numeric_limits<double>::max()/2, 
-		      boost::format("StatsHistogramUniform: unreasonably"
-				    "large upper value: %g") % value);
-	    unsigned new_num_bins // round to an even number
-		= 2 * ((unsigned)floor((value - bin_low) / bin_width) + 1)/2;
-	    if (new_num_bins < num_bins * 2)
-		new_num_bins = num_bins * 2; // at least double the bin count
-	    unsigned long *new_bins = new unsigned long[new_num_bins];
-	    unsigned long *old_bins = bins;
-
-	    // zero the new bins, and then copy the old values over
-	    memset(&new_bins[0], 0,        new_num_bins*sizeof(unsigned long));
-	    memcpy(&new_bins[0], &old_bins[0], num_bins*sizeof(unsigned long));
-	    //	    delete old_bins; // suppressed for now ...
-	    bins = new_bins;
-	    num_bins = new_num_bins;
-	    bin_high = bin_low + new_num_bins * bin_width;
-	} else {
-	    INVARIANT(-value < std::numeric_limits<double>::max()/2,
-		      boost::format("unreasonably large lower value: %lg")
-		      % value);
-	    unsigned new_num_bins // round to an even number
-		= 2 * ((unsigned)floor((bin_high - value) / bin_width) + 1)/2;
-	    if (new_num_bins < num_bins * 2)
-		new_num_bins = num_bins * 2; // at least double the bin count
-	    unsigned long *new_bins = new unsigned long[new_num_bins];
-	    unsigned long *old_bins = bins;
-
-	    // zero the new bins, and then copy the old values over
-	    memset(new_bins, 0, sizeof(long) * new_num_bins);
-	    memcpy(&new_bins[new_num_bins - num_bins],
-		   &old_bins[0], num_bins*sizeof(unsigned long));
-	    // delete old_bins;
-	    bins = new_bins;
-	    num_bins = new_num_bins;
-	    bin_low = bin_high - new_num_bins * bin_width;
-	}
+	growBins(value, NULL);
+    }
+    if (is_scalable  &&  (value < bin_low || value >= bin_high)) {
+	checkScale(value);
     }
 
+    Stats::add(value);	// Keep track of means, etc
+
     if (is_scalable  &&  (value < bin_low || value >= bin_high)) {
 	num_rescales++;		// About to do a reset, so count it
 
@@ -592,6 +619,13 @@ void StatsHistogramUniformAccum::reset() {
 
 void StatsHistogramUniformAccum::add(const double index_value, 
                                      const double data_value) {
+    if (is_growable  &&  (index_value < bin_low || index_value >= bin_high)) {
+	growBins(index_value, &val_bins);
+    }
+    if (is_scalable  &&  (index_value < bin_low || index_value >= bin_high)) {
+	checkScale(index_value);
+    }
+
     Stats::add(data_value);		// Keep track of means, etc
 
     if (is_scalable  &&  (index_value < bin_low || index_value >= bin_high)) {
-- 
2.43.0


From 0a0e0c47d48336b4b6cb16e8582c749e7934d457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:15 +0000
Subject: [PATCH 74/93] fix: StatsHistogramUniform wrote past its bins for a
 value just below the high bound

---
 src/StatsHistogram.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index ac86022..9aed569 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -96,6 +96,8 @@ unsigned StatsHistogramUniform::sampleBin(const double value) const {
     else
 	bin = (unsigned)(floor((value-bin_low)/bin_width));
 
+    if (bin >= num_bins) // just below bin_high, and rounded up to it
+	bin = num_bins - 1;
     return bin;
 }
 
-- 
2.43.0


From 72db1610429347a2448073f12598a098db1bca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:15 +0000
Subject: [PATCH 75/93] fix: StatsHistogramLog put far outliers in the first
 bin, never ended rescaling to infinity, and denied rescaling

---
 include/Lintel/StatsHistogram.hpp | 4 ++--
 src/StatsHistogram.cpp            | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/Lintel/StatsHistogram.hpp b/include/Lintel/StatsHistogram.hpp
index ab4862b..4d4068f 100644
--- a/include/Lintel/StatsHistogram.hpp
+++ b/include/Lintel/StatsHistogram.hpp
@@ -200,8 +200,8 @@ public:
     double high() const { return bin_high; };
     double binhigh(unsigned index) const { return binOffset(index+1); };
     unsigned  numBins() const { return num_bins; }
-    unsigned  numRescales()  const { return 0; }
-    bool     isScalable()   const { return false; }
+    unsigned  numRescales()  const { return num_rescales; }
+    bool     isScalable()   const { return is_scalable; }
     unsigned  numGrows()  const { return 0; }
     bool     isGrowable()   const { return false; }
     double   mode() const;
diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 9aed569..3b82aa3 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -433,11 +433,10 @@ unsigned StatsHistogramLog::sampleBin(double x) const {
     if (x <= smallest_bin)
 	return 0;
     double d_bin = bin_scaling * log(x / smallest_bin);
-    unsigned bin = (unsigned)floor(d_bin);
-    if (bin >= num_bins)
+    if (d_bin >= num_bins)
 	return num_bins - 1;
     else
-	return bin;
+	return (unsigned)floor(d_bin);
 };
 
 // Given a fractional bin-index, return the value that would be "stored" there.
@@ -452,6 +451,10 @@ double StatsHistogramLog::binOffset(double index) const {
 void StatsHistogramLog::add(const double value) {
     INVARIANT(value > 0.0, 
 	      "values must be greater than 0 for log histogram");
+    INVARIANT(!is_scalable || (bin_high > smallest_bin 
+			       && value < std::numeric_limits<double>::max()/2),
+	      boost::format("StatsHistogramLog: can't rescale [%g, %g) to"
+			    " include %g") % smallest_bin % bin_high % value);
     Stats::add(value);		// Keep track of means, etc
 
     if (is_scalable && (value < smallest_bin || value >= bin_high)) {
-- 
2.43.0


From 4a6441dae0822179b78e2f6771f1d1e90ab0c1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:39 +0000
Subject: [PATCH 76/93] fix: StatsHistogramGroup kept its first histograms if a
 later one failed, and counted values they refused

---
 include/Lintel/StatsHistogram.hpp |  1 +
 src/StatsHistogram.cpp            | 27 +++++++++++++++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/Lintel/StatsHistogram.hpp b/include/Lintel/StatsHistogram.hpp
index 4d4068f..44b8490 100644
--- a/include/Lintel/StatsHistogram.hpp
+++ b/include/Lintel/StatsHistogram.hpp
@@ -339,6 +339,7 @@ public:
     virtual void printRome(int depth, std::ostream &out) const;
   
 private:
+    void deleteHistograms();
     std::vector<StatsHistogram *> histograms;
     const std::vector<StatsHistogram::HistMode> modes;
     const std::vector<double> ranges;
diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 3b82aa3..696fb37 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -854,7 +854,8 @@ StatsHistogramGroup::StatsHistogramGroup(const StatsHistogram::HistMode mode,
 {
     INVARIANT(ranges.size() >= 2, "StatsHistogramGroup: must have at"
 	      "least two values in ranges vector.");
-    histograms.resize(ranges.size()-1);
+    histograms.resize(ranges.size()-1, NULL);
+    try {
     for(unsigned int i=0;i<histograms.size();i++) {
 	switch(mode) 
 	    {
@@ -874,6 +875,10 @@ StatsHistogramGroup::StatsHistogramGroup(const StatsHistogram::HistMode mode,
 		FATAL_ERROR("I didn't get here.");
 	    }
     }
+    } catch (...) {
+	deleteHistograms();
+	throw;
+    }
 }
 
 StatsHistogramGroup::StatsHistogramGroup(const std::vector<StatsHistogram::HistMode> &_modes, 
@@ -888,7 +893,8 @@ StatsHistogramGroup::StatsHistogramGroup(const std::vector<StatsHistogram::HistM
 		 
     INVARIANT(buckets.size() == (ranges.size() - 1), "StatsHistogramGroup: "
 	      "must supply one bucket value per range in buckets vector.");
-    histograms.resize(ranges.size()-1);
+    histograms.resize(ranges.size()-1, NULL);
+    try {
     for(unsigned int i=0;i<histograms.size();i++) {
 	switch(modes[i]) 
 	    {
@@ -908,9 +914,17 @@ StatsHistogramGroup::StatsHistogramGroup(const std::vector<StatsHistogram::HistM
 		FATAL_ERROR("I didn't get here.");
 	    }
     }
+    } catch (...) {
+	deleteHistograms();
+	throw;
+    }
 }
 
 StatsHistogramGroup::~StatsHistogramGroup() {
+  deleteHistograms();
+}
+
+void StatsHistogramGroup::deleteHistograms() {
   for(unsigned int i=0;i<histograms.size();i++) {
     delete histograms[i];
     histograms[i] = NULL;
@@ -927,34 +941,39 @@ void StatsHistogramGroup::reset() {
 }
 
 void StatsHistogramGroup::add(const double value) {
-  Stats::add(value);
+  // the overall stats only count what the subrange accepted
   if (value < ranges[0]) {
     low.add(value);
+    Stats::add(value);
     return;
   }
   for(unsigned int i=1;i<ranges.size();i++) {
     if (value < ranges[i]) {
       histograms[i-1]->add(value);
+      Stats::add(value);
       return;
     }
   }
   high.add(value);
+  Stats::add(value);
   return;
 }
 
 void StatsHistogramGroup::add(const double index_value, const double data_value) {
-  Stats::add(data_value);
   if (index_value < ranges[0]) {
     low.add(data_value);
+    Stats::add(data_value);
     return;
   }
   for(unsigned int i=1;i<ranges.size();i++) {
     if (index_value < ranges[i]) {
       histograms[i-1]->add(index_value, data_value);
+      Stats::add(data_value);
       return;
     }
   }
   high.add(data_value);
+  Stats::add(data_value);
   return;
 }
 
-- 
2.43.0


From 4fc2efd6546bf1e1f7eb9490681d6e6e587088f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:39 +0000
Subject: [PATCH 77/93] fix: StatsSeries deleted its arrays as if they were
 single values, and kept them if its constructor failed

---
 include/Lintel/StatsSeries.hpp |  8 +++++---
 src/StatsSeries.cpp            | 19 ++++---------------
 2 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/include/Lintel/StatsSeries.hpp b/include/Lintel/StatsSeries.hpp
index 5c66c37..b73883a 100644
--- a/include/Lintel/StatsSeries.hpp
+++ b/include/Lintel/StatsSeries.hpp
@@ -12,6 +12,8 @@
 #ifndef LINTEL_STATSSERIES_HPP
 #define LINTEL_STATSSERIES_HPP
 
+#include <vector>
+
 #include <Lintel/Stats.hpp>
 
 
@@ -23,9 +25,9 @@
 class StatsSeries : public Stats {
 protected:
     unsigned max_lag;
-    double *samples;
-    double *product;
-    double *firstsamples;
+    std::vector<double> samples;
+    std::vector<double> product;
+    std::vector<double> firstsamples;
     unsigned sampleno;
   
 public:
diff --git a/src/StatsSeries.cpp b/src/StatsSeries.cpp
index 803963a..3d33eda 100644
--- a/src/StatsSeries.cpp
+++ b/src/StatsSeries.cpp
@@ -48,28 +48,17 @@
 
 StatsSeries::StatsSeries(unsigned maxlag_in)
 : Stats(),
-  max_lag(maxlag_in),
-  samples(NULL),
-  product(NULL)
+  max_lag(maxlag_in)
 {
   SINVARIANT(max_lag > 0);
-  samples = new double[max_lag+1];
-  SINVARIANT(samples != NULL);
-  product = new double[max_lag+1];
-  SINVARIANT(product != NULL);
-  firstsamples = new double[max_lag+1];
-  SINVARIANT(firstsamples != NULL);
+  samples.resize(max_lag+1);
+  product.resize(max_lag+1);
+  firstsamples.resize(max_lag+1);
   reset();
 }
 
 StatsSeries::~StatsSeries()
 {
-  delete samples;
-  samples = NULL;
-  delete product;
-  product = NULL;
-  delete firstsamples;
-  firstsamples = NULL;
   max_lag = 0;
 }
 
-- 
2.43.0


From 6dfcbbb6f8cc450c8edea7cb0499d05b8b8d870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:39 +0000
Subject: [PATCH 78/93] fix: StatsSeries autocovariance of as many lags as
 samples was off by four thousand million squared means

---
 src/StatsSeries.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StatsSeries.cpp b/src/StatsSeries.cpp
index 3d33eda..207caad 100644
--- a/src/StatsSeries.cpp
+++ b/src/StatsSeries.cpp
@@ -115,6 +115,9 @@ double
 StatsSeries::autocovariance(unsigned lag) const
 {
   SINVARIANT(lag<=max_lag);
+  if (lag >= sampleno) {
+    return 0.0; // no two samples are that far apart
+  }
   
   double lastsamples;
   lastsamples = 0.0;
-- 
2.43.0


From 7d8feff7d9c0d1a4265f1b3cc4024843094d4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:12 +0000
Subject: [PATCH 79/93] fix: StatsSeriesGroup never freed its stats, crashed
 after a failed allocation and for empty intervals, and kept its totals on
 reset

---
 include/Lintel/StatsSeriesGroup.hpp | 12 +++++++---
 src/StatsSeriesGroup.cpp            | 36 +++++++++++++++++++++--------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/include/Lintel/StatsSeriesGroup.hpp b/include/Lintel/StatsSeriesGroup.hpp
index 22a624e..fcc9223 100644
--- a/include/Lintel/StatsSeriesGroup.hpp
+++ b/include/Lintel/StatsSeriesGroup.hpp
@@ -10,6 +10,7 @@
 */
 
 #ifndef LINTEL_STATSSERIESGROUP_HPP
+#define LINTEL_STATSSERIESGROUP_HPP
 
 #include <vector>
 
@@ -23,6 +24,7 @@
 class StatsSeriesGroup : public Stats {
 public:
     StatsSeriesGroup(const std::string &_myname, double interval);
+    virtual ~StatsSeriesGroup();
     virtual void add(const double value); // asserts out, shouldn't be called
     virtual void add(const Stats &stat); // attempt to merge two stats
     virtual void addTimeSeq(const double value, const double timeSeq);
@@ -33,15 +35,19 @@ public:
     const Stats &getSeriesStat(const int statnum) {
 	INVARIANT(statnum >= 0 && static_cast<size_t>(statnum) < stats.size(),
 		  boost::format("statnum %d is out of bounds") % statnum);
-	return *(stats[statnum]);
+	return stats[statnum] == NULL ? no_values : *(stats[statnum]);
     }
 
     virtual void printRome(int depth, std::ostream &out) const;
     virtual void printTabular(int depth, std::ostream &out) const; 
     void setSeriesStart(const double timeSeq);
 private:
-    void addStat();
-    std::vector<Stats *> stats;
+    StatsSeriesGroup(const StatsSeriesGroup &); // not copyable, we own our stats
+    StatsSeriesGroup &operator=(const StatsSeriesGroup &);
+
+    void addStat(size_t skip); // skip intervals without values, then one with
+    std::vector<Stats *> stats; // NULL for intervals without values
+    const Stats no_values;
     double interval;
     double cur_interval_start, last_time, first_time;
     const std::string myname;
diff --git a/src/StatsSeriesGroup.cpp b/src/StatsSeriesGroup.cpp
index fa1b48a..a51bc27 100644
--- a/src/StatsSeriesGroup.cpp
+++ b/src/StatsSeriesGroup.cpp
@@ -21,6 +21,14 @@ StatsSeriesGroup::StatsSeriesGroup(const std::string &_myname, double _interval)
     myname(_myname + "-")
 {
     INVARIANT(last_time != last_time, "IEEE violation??");
+    INVARIANT(interval > 0, boost::format("invalid interval %.8g") % interval);
+}
+
+StatsSeriesGroup::~StatsSeriesGroup()
+{
+    for(unsigned int i=0;i<stats.size();i++) {
+	delete stats[i];
+    }
 }
 
 void
@@ -39,10 +47,11 @@ void
 StatsSeriesGroup::setSeriesStart(const double timeSeq)
 {
     INVARIANT(last_time != last_time, "Duplicate setSeriesStart?!");
+    INVARIANT(timeSeq == timeSeq, "series can't start at NaN");
+    addStat(0);
     last_time = timeSeq;
     cur_interval_start = timeSeq;
     first_time = timeSeq;
-    addStat();
 }
 
 void
@@ -54,24 +63,28 @@ StatsSeriesGroup::addTimeSeq(const double value, const double timeSeq)
     INVARIANT(timeSeq >= last_time,
 	      boost::format("Time series expects data in increasing order, %.8g < %.8g")
 	      % timeSeq % last_time);
-    last_time = timeSeq;
 
     // >= makes them half open intervals
     if ((timeSeq - cur_interval_start)>=interval) {
-	for(cur_interval_start += interval;
-	    (timeSeq - cur_interval_start) >= interval;
-	    cur_interval_start += interval) {
-	    stats.push_back(NULL);
+	size_t skip = 0;
+	double new_start;
+	for(new_start = cur_interval_start + interval;
+	    (timeSeq - new_start) >= interval;
+	    new_start += interval) {
+	    ++skip;
 	}
-	addStat();
+	addStat(skip);
+	cur_interval_start = new_start;
     }
     stats[stats.size()-1]->addTimeSeq(value, timeSeq);
+    last_time = timeSeq;
     Stats::add(value);
 }
 
 void
 StatsSeriesGroup::reset()
 {
+    Stats::reset();
     for(unsigned int i=0;i<stats.size();i++) {
 	delete stats[i];
     }
@@ -80,15 +93,20 @@ StatsSeriesGroup::reset()
 }
 
 void
-StatsSeriesGroup::addStat()
+StatsSeriesGroup::addStat(size_t skip)
 {
+    // everything that can fail comes first
+    if (stats.capacity() < stats.size() + skip + 1) {
+	stats.reserve(2 * (stats.size() + skip + 1));
+    }
     std::string sname = myname;
 
     char buf[20];
-    snprintf(buf,20,"%d",(int)stats.size());
+    snprintf(buf,20,"%d",(int)(stats.size() + skip));
 
     sname += buf;
     Stats *newstat = StatsMaker::make(sname);
+    stats.resize(stats.size() + skip, NULL);
     stats.push_back(newstat);
 }
 
-- 
2.43.0


From 2f8492dc3f2d8e4cb61a309c273e4bfa601c5459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:13 +0000
Subject: [PATCH 80/93] fix: StatsRW kept its first stats if making a later one
 failed

---
 src/StatsRW.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/StatsRW.cpp b/src/StatsRW.cpp
index 8f71f2e..8a2e1d0 100644
--- a/src/StatsRW.cpp
+++ b/src/StatsRW.cpp
@@ -16,12 +16,19 @@ StatsRW::StatsRW(const std::string &name)
 {
     std::string tmp_name;
 
-    tmp_name = name + "-read";
-    read = StatsMaker::make(tmp_name);
-    tmp_name = name + "-write";
-    write = StatsMaker::make(tmp_name);
-    tmp_name = name + "-all";
-    all = StatsMaker::make(tmp_name);
+    read = write = all = NULL;
+    try {
+	tmp_name = name + "-read";
+	read = StatsMaker::make(tmp_name);
+	tmp_name = name + "-write";
+	write = StatsMaker::make(tmp_name);
+	tmp_name = name + "-all";
+	all = StatsMaker::make(tmp_name);
+    } catch (...) {
+	delete read;
+	delete write;
+	throw;
+    }
     finish_init();
 }
 
-- 
2.43.0


From 80239c18f0956caaa2ff83ed786fbb311454b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:13 +0000
Subject: [PATCH 81/93] fix: StatsMaker mixed the old and new mode if setting a
 histogram group failed

---
 src/StatsMaker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StatsMaker.cpp b/src/StatsMaker.cpp
index 34206f4..4f908b4 100644
--- a/src/StatsMaker.cpp
+++ b/src/StatsMaker.cpp
@@ -82,10 +82,11 @@ StatsMaker::setModeHistogramGroup(const std::string &statname,
 				  const int _bins,
 				  std::vector<double> &_ranges)
 {
+  std::vector<double> ranges(_ranges); // first, as it can fail
   statDefT &ref = getCreateStatDef(statname);
+  ref.ranges.swap(ranges);
   ref.histmode = _histmode;
   ref.bins = _bins;
-  ref.ranges = _ranges;
   ref.makeStatsFn = makeHistogramGroup;
 }
 
-- 
2.43.0


From 31f974001d89354a570a60b12c59c7b505f23aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:37 +0000
Subject: [PATCH 82/93] fix: StatsRW of series groups stopped at the second
 value for all, and after a failed start

---
 src/StatsRW.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/StatsRW.cpp b/src/StatsRW.cpp
index 8a2e1d0..6fa07ee 100644
--- a/src/StatsRW.cpp
+++ b/src/StatsRW.cpp
@@ -60,13 +60,22 @@ StatsRW::finish_init()
     autoAll = true;
 }
 
+static void
+startSeries(Stats *stat, const double timeSeq)
+{
+    StatsSeriesGroup *group = dynamic_cast<StatsSeriesGroup *>(stat);
+    if (group->getSeriesLength() == 0) { // not started already
+	group->setSeriesStart(timeSeq);
+    }
+}
+
 void
 StatsRW::add(const double value, modeT mode, const double timeSeq)
 {
     if(allStatsSeriesGroup && read->count() == 0 && write->count() == 0) {
-	dynamic_cast<StatsSeriesGroup *>(read)->setSeriesStart(timeSeq);
-	dynamic_cast<StatsSeriesGroup *>(write)->setSeriesStart(timeSeq);
-	dynamic_cast<StatsSeriesGroup *>(all)->setSeriesStart(timeSeq);
+	startSeries(read, timeSeq);
+	startSeries(write, timeSeq);
+	startSeries(all, timeSeq);
     }
 
     switch(mode) 
-- 
2.43.0


From bd47aa2dcaca348fe6552f547f81b3c842790d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:41 +0000
Subject: [PATCH 83/93] fix: StatsRW couldn't print when it was made without
 one of its stats

---
 src/StatsRW.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/StatsRW.cpp b/src/StatsRW.cpp
index 6fa07ee..d1900fd 100644
--- a/src/StatsRW.cpp
+++ b/src/StatsRW.cpp
@@ -125,6 +125,12 @@ StatsRW::setSequenceInfo(double interval_width, StatsSequence::mode mode)
     }
 }
 
+static bool
+noValues(const Stats *stat)
+{
+    return stat == NULL || stat->count() == 0;
+}
+
 void
 StatsRW::printRome(int depth, std::ostream &out) const
 {
@@ -133,25 +139,25 @@ StatsRW::printRome(int depth, std::ostream &out) const
     spaces += " ";
   }
 
-  if (read->count() == 0 && write->count() == 0 &&
-      all->count() > 0) { 
+  if (noValues(read) && noValues(write) &&
+      !noValues(all)) { 
       // Behave as if we were just the underlying all stats object.
       all->printRome(depth,out);
   } else {
       out << spaces << "{\n";
-      if (read->count() != 0) {
+      if (!noValues(read)) {
 	  out << spaces << "  { read {\n";
 	  read->printRome(depth+4,out);
 	  out << spaces << "  }}\n";
       }
 
-      if (write->count() != 0) {
+      if (!noValues(write)) {
 	  out << spaces << "  { write {\n";
 	  write->printRome(depth+4,out);
 	  out << spaces << "  }}\n";
       }
 
-      if (all->count() != 0) {
+      if (!noValues(all)) {
 	  out << spaces << "  { all {\n";
 	  all->printRome(depth+4,out);
 	  out << spaces << "  }}\n";
@@ -174,25 +180,25 @@ void StatsRW::printTabular(int depth, std::ostream& out) const
   }
   */
 
-  if (read->count() == 0 && write->count() == 0 &&
-      all->count() > 0) { 
+  if (noValues(read) && noValues(write) &&
+      !noValues(all)) { 
       // Behave as if we were just the underlying all stats object.
       all->printTabular(depth,out);
   } else {
       out << spaces << "StatsRW begin\n";
-      if (read->count() != 0) {
+      if (!noValues(read)) {
 	  out << spaces << "read begin\n";
 	  read->printTabular(depth+4,out);
 	  out << spaces << "read end\n";
       }
 
-      if (write->count() != 0) {
+      if (!noValues(write)) {
 	  out << spaces << "write begin\n";
 	  write->printTabular(depth+4,out);
 	  out << spaces << "write end\n";
       }
 
-      if (all->count() != 0) {
+      if (!noValues(all)) {
 	  out << spaces << "all begin\n";
 	  all->printTabular(depth+4,out);
 	  out << spaces << "all end\n";
-- 
2.43.0


From 7a037ea0bb65834cce61baad9c1ff5b72977260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:16 +0000
Subject: [PATCH 84/93] fix: after a failing option definition do not define
 the ones before it again

---
 src/ProgramOptions.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ProgramOptions.cpp b/src/ProgramOptions.cpp
index 6872917..a94cd81 100644
--- a/src/ProgramOptions.cpp
+++ b/src/ProgramOptions.cpp
@@ -98,10 +98,12 @@ namespace lintel {
 
         void runProgramOptionInitFns() {
             InitFns &init_fns(getInitFns());
-            for (InitFns::iterator i = init_fns.begin(); i != init_fns.end(); ++i) {
-                (*i)();
+            // Remove each function as it is run; if one fails, running the ones before it again
+            // would define their options twice.
+            while (!init_fns.empty()) {
+                init_fns.front()();
+                init_fns.erase(init_fns.begin());
             }
-            init_fns.clear();
         }
 
         uint32_t getHelpWidth() {
-- 
2.43.0


From 85a0dd596f8e166b2d6d8ac3f50ba32efcdbffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:16 +0000
Subject: [PATCH 85/93] fix: parseConfigFile fails if the configuration can not
 be read to its end

---
 include/Lintel/ProgramOptions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Lintel/ProgramOptions.hpp b/include/Lintel/ProgramOptions.hpp
index bcc7b0c..5e2c233 100644
--- a/include/Lintel/ProgramOptions.hpp
+++ b/include/Lintel/ProgramOptions.hpp
@@ -343,6 +343,8 @@ namespace lintel {
         boost::program_options::variables_map var_map;
         boost::program_options::store(boost::program_options::parse_config_file
                                       (t, detail::programOptionsDesc()), var_map);
+        // A failed read looks like the end of the file to the parser.
+        INVARIANT(!t.bad(), "error while reading the program options configuration");
         boost::program_options::notify(var_map);
         processOptions(detail::programOptionsActions(), var_map);
     }
-- 
2.43.0


From 13faf6088b59e48a910df38a4aa0d3136666480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:42 +0000
Subject: [PATCH 86/93] fix: getDeptoolInfo closes its pipe, copes with long
 lines, and a missing deptool as documented

---
 src/TestUtil.cpp | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/TestUtil.cpp b/src/TestUtil.cpp
index 3a6cfaf..28bb506 100644
--- a/src/TestUtil.cpp
+++ b/src/TestUtil.cpp
@@ -24,6 +24,38 @@ namespace {
         }
     }
     
+    // closes the pipe if reading from it throws an exception
+    struct PipeReader {
+        FILE *pipe;
+        PipeReader(FILE *pipe) : pipe(pipe) { }
+        ~PipeReader() {
+            close();
+        }
+        int close() {
+            int ret = 0;
+            if (pipe != NULL) {
+                ret = pclose(pipe);
+                pipe = NULL;
+            }
+            return ret;
+        }
+        // Appends to line until it has a complete one; returns false if there are no more.
+        bool getLine(string &line) {
+            const size_t buf_size = 200;
+            char buf[buf_size];
+            line.clear();
+            while (fgets(buf, buf_size, pipe) != NULL) {
+                line.append(buf);
+                if (line[line.size()-1] == '\n') {
+                    return true;
+                }
+            }
+            INVARIANT(!ferror(pipe), boost::format("error reading from deptool: %s")
+                      % strerror(errno));
+            return !line.empty();
+        }
+    };
+
     string extractEnv(const string from) {
         size_t first_quote = from.find('"');
         SINVARIANT(first_quote != string::npos);
@@ -56,10 +88,11 @@ DeptoolInfo getDeptoolInfo() {
         }
         CHECKED(deptool_pipe != NULL, boost::format("Unable to run '%s': %s")
                 % deptool % strerror(errno));
-        const size_t buf_size = 200;
-        char buf[buf_size];
-        while (!feof(deptool_pipe) && fgets(buf, buf_size, deptool_pipe) != NULL) {
-            string str_buf(buf);
+        PipeReader reader(deptool_pipe);
+        string str_buf;
+        bool any_output = false;
+        while (reader.getLine(str_buf)) {
+            any_output = true;
             SINVARIANT(!str_buf.empty() && str_buf[str_buf.size()-1] == '\n');
             if (prefixequal(str_buf, "export BUILD_OS=\"")) {
                 build_os = extractEnv(str_buf);
@@ -67,6 +100,10 @@ DeptoolInfo getDeptoolInfo() {
                 arch = extractEnv(str_buf);
             } // else ignore, lots of bits we don't care about.
         }
+        int status = reader.close();
+        if (!any_output && status != 0) {
+            return DeptoolInfo(); // the shell could not run deptool
+        }
         SINVARIANT(!build_os.empty() && !arch.empty());
     }
 
-- 
2.43.0


From ea34413a8f9f566000296c2f486b72a132fb416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:46 +0000
Subject: [PATCH 87/93] fix: getHostFQDN frees the lookup's result if copying
 the name fails

---
 src/StringUtil.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/StringUtil.cpp b/src/StringUtil.cpp
index 15c69b8..12ba80a 100644
--- a/src/StringUtil.cpp
+++ b/src/StringUtil.cpp
@@ -33,6 +33,7 @@
 #include <boost/static_assert.hpp>
 #include <boost/integer_traits.hpp>
 #include <boost/format.hpp>
+#include <boost/shared_ptr.hpp>
 
 #include <Lintel/StringUtil.hpp>
 #include <Lintel/AssertBoost.hpp>
@@ -387,6 +388,8 @@ string getHostFQDN() {
     hints.ai_flags = AI_CANONNAME;
     struct addrinfo *res = 0;
     int error = getaddrinfo(buf, NULL, &hints, &res);
+    boost::shared_ptr<struct addrinfo> free_res; // even if copying the name fails
+    if (res) free_res.reset(res, freeaddrinfo);
     if (error == 0) {
 	for (struct addrinfo *cur = res; cur != NULL; cur = cur->ai_next) {
 	    if (cur->ai_canonname) {
@@ -396,8 +399,6 @@ string getHostFQDN() {
 	}
     }
     
-    if (res) freeaddrinfo(res);
-
     return hostname;
 }
 
-- 
2.43.0


From c857ea77d538258916819c43ead0904038a964e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:24 +0000
Subject: [PATCH 88/93] fix: a StatsQuantile can be added to itself

---
 src/StatsQuantile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index ce07f1d..00af943 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -290,6 +290,12 @@ void StatsQuantile::add(const Stats &_stat) {
     if (stat->countll() == 0) {
 	return; // nothing to merge; a lazy one doesn't even have a current buffer
     }
+    if (stat == this) { // adding to the buffers we are going through would not end well
+	StatsQuantile copy("", nbuffers, buffer_size);
+	copy.add(*this);
+	add(copy);
+	return;
+    }
 
     if ((cur_buffer == -1 || 
 	 (cur_buffer == 0 && cur_buffer_pos == 0)) && // we are empty
-- 
2.43.0


From cb96817dad9164b59f1d1d017ff4dbfcb343fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:01 +0000
Subject: [PATCH 89/93] fix: the console log appender with times prints the
 microseconds with all six digits

---
 src/LintelLog.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index 3e8f64c..8d2c5c3 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -187,12 +187,12 @@ void LintelLog::consoleTimeAppender(const std::string &msg, LogType logtype) {
 	{
 	case Report: cout << msg << "\n"; break;
 	case Debug: case Info:
-	    cout << format("%s @%d.%d: %s\n") % logTypeToString(logtype) 
+	    cout << format("%s @%d.%06d: %s\n") % logTypeToString(logtype) 
 		% t.tv_sec % t.tv_usec % msg;
 	    break;
 	case Warn: case Error:
 	    cout.flush();
-	    cerr << format("%s @%d.%d: %s") % logTypeToString(logtype) 
+	    cerr << format("%s @%d.%06d: %s") % logTypeToString(logtype) 
 		% t.tv_sec % t.tv_usec % msg << endl;
 	    break;
 	default: FATAL_ERROR("unknown log type");
-- 
2.43.0


From 70999833c6c6b9bec3d384fca94906c51f8993cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:46 +0000
Subject: [PATCH 90/93] fix: a Marsaglia random generator starts at a defined
 place in its state, so that its seed repeats it

---
 include/Lintel/MarsagliaRandom.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/MarsagliaRandom.hpp b/include/Lintel/MarsagliaRandom.hpp
index c60a73f..9a66ff8 100644
--- a/include/Lintel/MarsagliaRandom.hpp
+++ b/include/Lintel/MarsagliaRandom.hpp
@@ -104,6 +104,7 @@ namespace lintel {
                 x[i] = r.randInt();
             }
             c = r.randIntUnbiased(A);
+            i = 0;
         }
         
         inline uint32_t randInt() {
-- 
2.43.0


From 83edcdc35a0c0b75a63c0cacb3fc59c036c01bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:46 +0000
Subject: [PATCH 91/93] fix: the Big, Medium and Small Marsaglia random
 generators can be seeded, and so compiled

---
 include/Lintel/MarsagliaRandom.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/Lintel/MarsagliaRandom.hpp b/include/Lintel/MarsagliaRandom.hpp
index 9a66ff8..f379c8f 100644
--- a/include/Lintel/MarsagliaRandom.hpp
+++ b/include/Lintel/MarsagliaRandom.hpp
@@ -142,35 +142,51 @@ namespace lintel {
     
     template <>
     class Marsaglia<2048> : public MarsagliaInner<2048, 1047570LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<2048, 1047570LL>(seed) { }
     };
     
     
     template <>
     class Marsaglia<1024> : public MarsagliaInner<1024, 123471786LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<1024, 123471786LL>(seed) { }
     };
     
     template <>
     class Marsaglia<512> : public MarsagliaInner<512,123554632LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<512, 123554632LL>(seed) { }
     };
     
     template <>
     class Marsaglia<256> : public MarsagliaInner<256,8001634LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<256, 8001634LL>(seed) { }
     };
     
     template <>
     class Marsaglia<128> : public MarsagliaInner<128,8007626LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<128, 8007626LL>(seed) { }
     };
     
     template <>
     class Marsaglia<64> : public MarsagliaInner<64,647535442LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<64, 647535442LL>(seed) { }
     };
     
     template <>
     class Marsaglia<32> : public MarsagliaInner<32,547416522LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<32, 547416522LL>(seed) { }
     };
     
     template <>
     class Marsaglia<16> : public MarsagliaInner<16,487198574LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<16, 487198574LL>(seed) { }
     };
     
     template <>
-- 
2.43.0


From f9b664071e818f6cbb8c9ce09a52cdb5a60cc18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:58 +0000
Subject: [PATCH 92/93] fix: seeding a random generator again also discards the
 bits left for randBoolFast

---
 include/Lintel/RandomBase.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Lintel/RandomBase.hpp b/include/Lintel/RandomBase.hpp
index 855385c..6ce09c7 100644
--- a/include/Lintel/RandomBase.hpp
+++ b/include/Lintel/RandomBase.hpp
@@ -24,10 +24,12 @@ namespace lintel {
 
         inline void init(uint32_t seed) {
             R::init(seed);
+            boolShift = 0; // forget what is left for randBoolFast
         }
 
         inline void initArray(std::vector<uint32_t> seed_array) {
             R::initArray(seed_array);
+            boolShift = 0;
         }       
 
         inline uint32_t randInt() {
-- 
2.43.0


From a54f2881e37d726784f11861138cbfd3f9a80151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:51 +0000
Subject: [PATCH 93/93] fix: refuse a debug level above 255 in a debug string
 instead of wrapping it

---
 src/LintelLog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index 8d2c5c3..c5cdf76 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -59,7 +59,9 @@ void LintelLog::parseDebugString(const string &debug_options) {
 	if (subparts.size() == 1) {
 	    setDebugLevel(*i, 1);
 	} else {
-	    setDebugLevel(subparts[0], stringToInteger<uint32_t>(subparts[1]));
+	    uint32_t level = stringToInteger<uint32_t>(subparts[1]);
+	    INVARIANT(level <= 255, format("debug level %d for '%s' is more than 255") % level % subparts[0]);
+	    setDebugLevel(subparts[0], level);
 	}
     }
 }
-- 
2.43.0

