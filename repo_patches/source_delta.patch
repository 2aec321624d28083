From 6e1a862a46ef2878f3e75c4dd6639a64e04f5715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 01/58] fix: StringBuffer::length, getValue and ensureCapacity
 take the buffer's lock

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index db6cdf7..eefe1d2 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -121,7 +121,7 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
         throw IndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    this->ensureCapacity(this->currentLength + len);
     string appendPosition = this->original + this->currentLength;
     string startIndex = stringToAppend.toCharPointer() + offset;
     int memorySizeToMove = len * sizeof(char);
@@ -133,12 +133,12 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
 StringBufferUnSafe &
 StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
                            int len) {
-    if (index < 0 || index > length() || offset < 0
+    if (index < 0 || index > this->currentLength || offset < 0
         || len < 0 || (offset + len) > stringToInsert.length()) {
         throw StringIndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    this->ensureCapacity(this->currentLength + len);
     string insertPosition = this->original + index;
     string newTailStart = this->original + index + len;
     int memorySizeToMove = (this->currentLength - index) * sizeof(char);
@@ -478,7 +478,7 @@ StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex, int fromIndex) c
     String reversedString = StringBuilder(stringToGetIndex).reverse();
     String reversedOriginalString = StringBuilder(this->original).reverse();
 
-    int substringIndex = this->length() - fromIndex - stringToGetIndex.length();
+    int substringIndex = this->currentLength - fromIndex - stringToGetIndex.length();
     reversedOriginalString = reversedOriginalString.getStringFromIndex(substringIndex);
     int result = reversedOriginalString.indexOf(reversedString);
 
@@ -799,10 +799,12 @@ StringBuffer &StringBuffer::deletes(int start, int end) {
 }
 
 void StringBuffer::ensureCapacity(int minimumCapacity) {
+    std::lock_guard<std::mutex> guard(this->mutex);
     StringBufferUnSafe::ensureCapacity(minimumCapacity);
 }
 
 String StringBuffer::getValue() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::getValue();
 }
 
@@ -819,6 +821,7 @@ StringBuffer &StringBuffer::deleteCharAt(int index) {
 }
 
 int StringBuffer::length() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::length();
 }
 
-- 
2.43.0


From a901b8ffa0c9885d4980fe4373c8e2fc8544d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 02/58] fix: StringBuffer operations on a second sequence lock
 it, without nesting the two locks

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 33 +++++++++++++++----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index eefe1d2..64ef41c 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -648,6 +648,9 @@ void StringBufferUnSafe::trimToSize() {
 
 StringBufferUnSafe &
 StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
+    if (this == &other) {
+        return *this;
+    }
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity,
                                      sizeof(char));
@@ -677,7 +680,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 }
 
 StringBuffer::StringBuffer(const StringBuffer &other) {
-    std::lock_guard<std::mutex> guard(this->mutex);
+    std::lock_guard<std::mutex> guard(other.mutex);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity,
                                      sizeof(char));
@@ -714,8 +717,9 @@ StringBuffer &StringBuffer::append(boolean boolValue) {
 }
 
 StringBuffer &StringBuffer::append(const CharSequence &sequence) {
+    String text = (&sequence == nullptr) ? String("null") : sequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(sequence);
+    StringBufferUnSafe::append(text);
     return *this;
 }
 
@@ -750,8 +754,12 @@ StringBuffer &StringBuffer::append(string stringToAppend, int offset, int len) {
 }
 
 StringBuffer &StringBuffer::append(const CharSequence &sequence, int start, int end) {
+    if (&sequence == nullptr) {
+        return this->append((string) "null", 0, 4);
+    }
+    String text = sequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(sequence, start, end);
+    StringBufferUnSafe::append((const CharSequence &) text, start, end);
     return *this;
 }
 
@@ -762,8 +770,9 @@ StringBuffer &StringBuffer::appendCodePoint(int codePoint) {
 }
 
 StringBuffer &StringBuffer::append(const StringBuffer &stringBuffer) {
+    String text = stringBuffer.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(stringBuffer);
+    StringBufferUnSafe::append(text);
     return *this;
 }
 
@@ -881,8 +890,12 @@ StringBuffer &StringBuffer::insert(int offset, double doubleValue) {
 StringBuffer &
 StringBuffer::insert(int destinationOffset, const CharSequence &sequence, int start,
                      int end) {
+    if (&sequence == nullptr) {
+        return this->insert(destinationOffset, (string) "null", 0, 4);
+    }
+    String text = sequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::insert(destinationOffset, sequence, start, end);
+    StringBufferUnSafe::insert(destinationOffset, (const CharSequence &) text, start, end);
     return *this;
 }
 
@@ -899,8 +912,9 @@ StringBuffer &StringBuffer::insert(int offset, int intValue) {
 }
 
 StringBuffer &StringBuffer::insert(int offset, const CharSequence &charSequence) {
+    String text = (&charSequence == nullptr) ? String("null") : charSequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::insert(offset, &charSequence);
+    StringBufferUnSafe::insert(offset, text);
     return *this;
 }
 
@@ -974,7 +988,12 @@ void StringBuffer::trimToSize() {
 }
 
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
-    std::lock_guard<std::mutex> guard(this->mutex);
+    if (this == &other) {
+        return *this;
+    }
+    std::lock(this->mutex, other.mutex);
+    std::lock_guard<std::mutex> guard(this->mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> otherGuard(other.mutex, std::adopt_lock);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity,
                                      sizeof(char));
-- 
2.43.0


From b2031483c121dfa65d934a17ee254e0f745bc01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 03/58] fix: StringBuffer keeps its text NUL-terminated inside
 its allocation, deletes/replace move only its own characters

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 46 +++++++++----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 64ef41c..e074f89 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -39,13 +39,13 @@ StringBufferUnSafe::StringBufferUnSafe(int capacity) {
     }
 
     this->currentCapacity = capacity;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const String &originalString) {
     this->currentCapacity = originalString.length() + DEFAULT_CAPACITY;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(originalString);
 }
@@ -57,7 +57,7 @@ StringBufferUnSafe::StringBufferUnSafe(const CharSequence &sequence) {
         this->currentCapacity = sequence.length() + DEFAULT_CAPACITY;
     }
 
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(sequence);
 }
@@ -103,7 +103,7 @@ void StringBufferUnSafe::ensureCapacity(int minimumCapacity) {
         this->currentCapacity = newCapacity;
     } while (newCapacity < minimumCapacity);
 
-    int newSize = newCapacity * sizeof(char);
+    int newSize = (newCapacity + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
 }
 
@@ -127,6 +127,7 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
     int memorySizeToMove = len * sizeof(char);
     memmove(appendPosition, startIndex, (size_t) memorySizeToMove);
     this->currentLength += len;
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
@@ -147,11 +148,12 @@ StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
     int memorySizeToInsert = len * sizeof(char);
     memmove(insertPosition, startIndex, (size_t) memorySizeToInsert);
     this->currentLength += len;
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const StringBufferUnSafe &other) {
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -316,21 +318,16 @@ StringBufferUnSafe &StringBufferUnSafe::deletes(int start, int end) {
         return *this;
     }
 
-    string fromPosition;
-    int memorySizeToMove;
-
     if (end > this->currentLength) {
-        fromPosition = this->original + this->currentLength;
-        memorySizeToMove = this->currentLength * sizeof(char);
-        this->currentLength = start;
-    } else {
-        fromPosition = this->original + end;
-        memorySizeToMove = (this->currentLength - start) * sizeof(char);
-        this->currentLength -= (end - start);
+        end = this->currentLength;
     }
 
+    string fromPosition = this->original + end;
+    int memorySizeToMove = (this->currentLength - end) * sizeof(char);
     string toPosition = this->original + start;
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
+    this->currentLength -= (end - start);
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
@@ -346,9 +343,10 @@ StringBufferUnSafe &StringBufferUnSafe::deleteCharAt(int index) {
     // move block of memory from index + 1 to index
     string fromPosition = this->original + index + 1;
     string toPosition = this->original + index;
-    int memorySizeToMove = (this->currentLength - index) * sizeof(char);
+    int memorySizeToMove = (this->currentLength - index - 1) * sizeof(char);
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
     this->currentLength--;
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
@@ -515,16 +513,18 @@ StringBufferUnSafe &StringBufferUnSafe::replace(int start, int end, const String
     int newLength =
             this->currentLength + stringToReplace.length() - end + start;
     this->ensureCapacity(newLength);
-    this->currentLength = newLength;
 
     string fromPosition = this->original + end;
     string toPosition = this->original + start + stringToReplace.length();
-    int memorySizeToMove = stringToReplace.length() * sizeof(char);
+    int memorySizeToMove = (this->currentLength - end) * sizeof(char);
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
 
     string insertPosition = this->original + start;
+    int memorySizeToInsert = stringToReplace.length() * sizeof(char);
     memcpy(insertPosition, stringToReplace.toCharPointer(),
-           (size_t) memorySizeToMove);
+           (size_t) memorySizeToInsert);
+    this->currentLength = newLength;
+    this->original[this->currentLength] = '\0';
 
     return *this;
 }
@@ -641,7 +641,7 @@ void StringBufferUnSafe::trimToSize() {
     if (this->currentCapacity <= this->currentLength) {
         return;
     }
-    int newSize = this->currentLength * sizeof(char);
+    int newSize = (this->currentLength + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
     this->currentCapacity = this->currentLength;
 }
@@ -652,7 +652,7 @@ StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
         return *this;
     }
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -682,7 +682,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 StringBuffer::StringBuffer(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(other.mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -995,7 +995,7 @@ StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex, std::adopt_lock);
     std::lock_guard<std::mutex> otherGuard(other.mutex, std::adopt_lock);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
-- 
2.43.0


From 52e22aefda6cc50c75cc80b44b4171cb3af7986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 04/58] fix: Semaphore tests and waits for its permits
 atomically and wakes every waiter that may proceed

---
 .../Util/Concurrent/Semaphore/Semaphore.cpp   | 60 +++++++------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
index f124ded..9405313 100644
--- a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
+++ b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
@@ -70,11 +70,15 @@ void Concurrent::Semaphore::release() {
 }
 
 void Concurrent::Semaphore::release(int permits) {
+    if (permits < 0) {
+        throw IllegalArgumentException("permits is negative");
+    }
+
     std::unique_lock<std::mutex> locker(conditionMutexObject);
     permitMutexObject.lock();
     permitCounter += permits;
     permitMutexObject.unlock();
-    conditionObject.notify_one();
+    conditionObject.notify_all();
 }
 
 boolean Concurrent::Semaphore::tryAcquire() {
@@ -86,24 +90,15 @@ boolean Concurrent::Semaphore::tryAcquire(int permits) {
 }
 
 boolean Concurrent::Semaphore::tryAcquire(int permits, long timeout) {
-    int currentPermits = 0;
-    if (timeout < 0) {
-        for (int i = 0; i < permits; ++i) {
-            permitMutexObject.lock();
-            currentPermits = permitCounter;
-            permitMutexObject.unlock();
-
-            if (currentPermits == 0) {
-                std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-                conditionObject.wait(conditionLocker);
-            }
+    if (permits < 0) {
+        throw IllegalArgumentException("permits is negative");
+    }
 
-            permitMutexObject.lock();
-            --permitCounter;
-            permitMutexObject.unlock();
-        }
-        return true;
-    } else {
+    // The permits are tested and the wait begins under the condition lock, so a release in between is not missed.
+    std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
+    const steady_clock::time_point deadline = steady_clock::now() + milliseconds(timeout);
+    boolean expired = false;
+    while (true) {
         {
             std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
             if (permits <= permitCounter) {
@@ -112,29 +107,14 @@ boolean Concurrent::Semaphore::tryAcquire(int permits, long timeout) {
             }
         }
 
-        long waitTime = timeout;
-        while (true) {
-            std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-            const long startTime = duration_cast<milliseconds>(
-                    steady_clock::now().time_since_epoch()).count();
-            std::cv_status waitStatus = conditionObject.wait_for(
-                    conditionLocker, std::chrono::milliseconds(waitTime));
-            if (waitStatus == std::cv_status::timeout) {
-                return false;
-            }
-
-            const long elapsedTime = duration_cast<milliseconds>(
-                    steady_clock::now().time_since_epoch()).count() - startTime;
-            waitTime -= elapsedTime;
+        if (expired) {
+            return false;
+        }
 
-            {
-                std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
-                if (permits <= permitCounter) {
-                    permitCounter -= permits;
-                    return true;
-                }
-            }
+        if (timeout < 0) {
+            conditionObject.wait(conditionLocker);
+        } else {
+            expired = conditionObject.wait_until(conditionLocker, deadline) == std::cv_status::timeout;
         }
     }
 }
-
-- 
2.43.0


From 82c11c67126ed7736e96ef7cf5d3552d73b6af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 05/58] fix: Thread is no longer alive once join returns, and
 joining twice does not hang

---
 library/Java/Lang/Thread/Thread.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index a79a1e5..536ea47 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -70,11 +70,12 @@ void Thread::run() {
     if (this->func) {
         this->func();
     }
-    semaphoreObject.release(1);
 
     mutexObject.lock();
     alive = false;
     mutexObject.unlock();
+
+    semaphoreObject.release(1);
 }
 
 void Thread::setName(String name) {
@@ -112,10 +113,13 @@ void Thread::join() {
 
 void Thread::join(long millis) {
     if (millis > 0) {
-        semaphoreObject.tryAcquire(1, millis);
+        if (!semaphoreObject.tryAcquire(1, millis)) {
+            return;
+        }
     } else {
         semaphoreObject.acquire();
     }
+    semaphoreObject.release(1);
 }
 
 void Thread::detach() {
-- 
2.43.0


From 57bd8c5dbabca2c730baf8d3e6849c05ac7b7461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 06/58] fix: Thread::start decides and marks the thread alive
 in one critical section

---
 library/Java/Lang/Thread/Thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index 536ea47..b715211 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -102,8 +102,10 @@ unsigned long Thread::getId() {
 }
 
 void Thread::start() {
-    if (this->func && !isAlive()) {
+    std::unique_lock<std::mutex> locker(mutexObject);
+    if (this->func && !alive) {
         threadObject = std::move(std::thread(&Thread::run, this));
+        alive = true;
     }
 }
 
-- 
2.43.0


From e2d9419cd07a4355313343cf9fdc378ddb9a0e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 07/58] fix: copying or assigning a LinkedList copies its nodes
 instead of sharing them

---
 library/Java/Util/LinkedList/LinkedList.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index b1c6490..8de1d31 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -80,6 +80,22 @@ namespace Java {
                         }
                     }
 
+                    LinkedList(const LinkedList<E> &target) {
+                        for (Node<E> *node : target.original) {
+                            this->add(node->element);
+                        }
+                    }
+
+                    LinkedList<E> &operator=(const LinkedList<E> &target) {
+                        if (this != &target) {
+                            this->clear();
+                            for (Node<E> *node : target.original) {
+                                this->add(node->element);
+                            }
+                        }
+                        return *this;
+                    }
+
                     ~LinkedList() {
                         this->clear();
                     }
-- 
2.43.0


From c45f003e6d3e9f62739289d47ddcb0b06a2f2ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 08/58] fix: LinkedList begin() const, offer, element and set
 can be called

---
 library/Java/Util/LinkedList/LinkedList.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 8de1d31..afba4b1 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -105,7 +105,7 @@ namespace Java {
                         return this->original.begin();
                     }
 
-                    IteratorType begin() const {
+                    ConstIteratorType begin() const {
                         return this->original.begin();
                     }
 
@@ -181,7 +181,7 @@ namespace Java {
                      * @return E
                      */
                     E element() {
-                        this->original.front()->element;
+                        return getFirst();
                     }
 
                     /**
@@ -224,7 +224,7 @@ namespace Java {
                      * @return boolean
                      */
                     boolean offer(const E &element) {
-                        this->original.push_back();
+                        this->original.push_back(new Node<E>(element));
                         return true;
                     }
 
@@ -392,8 +392,8 @@ namespace Java {
                      * @return E
                      */
                     E set(int index, E &element) {
-                        var value = get(index);
-                        *value = element;
+                        get(index);
+                        (*std::next(this->original.begin(), index))->element = element;
                         return element;
                     }
 
-- 
2.43.0


From fc9ba8b75d18d32e1c4077409768d6dbd69846ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 09/58] fix: LinkedList rejects access to an empty list

---
 library/Java/Util/LinkedList/LinkedList.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index afba4b1..ff30c94 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -65,6 +65,12 @@ namespace Java {
                     std::list<Node<E>*> original;
                     typedef typename std::list<Node<E>*>::iterator IteratorType;
                     typedef typename std::list<Node<E>*>::const_iterator ConstIteratorType;
+
+                    void checkNotEmpty() const {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
+                    }
                 public:
 
                     LinkedList() = default;
@@ -191,7 +197,7 @@ namespace Java {
                      * @return E
                      */
                     E get(int index) {
-                        if (index < 0 || index > this->original.size() - 1) {
+                        if (index < 0 || index >= this->size()) {
                             throw IndexOutOfBoundsException("Index is out of bounds!");
                         }
                         typename std::list<Node<E>*>::iterator it =  std::next(this->original.begin(), index);
@@ -204,6 +210,7 @@ namespace Java {
                      * @return E
                      */
                     E getFirst() {
+                        checkNotEmpty();
                         return original.front()->element;
                     }
 
@@ -213,6 +220,7 @@ namespace Java {
                      * @return E
                      */
                     E getLast() {
+                        checkNotEmpty();
                         var node = this->original.back();
                         return node->element;
                     }
@@ -256,7 +264,7 @@ namespace Java {
                      * @return E
                      */
                     E peek() {
-                        return getFirst();
+                        return peekFirst();
                     }
 
                     /**
@@ -264,7 +272,7 @@ namespace Java {
                      * @return E
                      */
                     E peekFirst() {
-                        return getFirst();
+                        return this->original.empty() ? E() : getFirst();
                     }
 
                     /**
@@ -273,7 +281,7 @@ namespace Java {
                      * @return E
                      */
                     E peekLast() {
-                        return getLast();
+                        return this->original.empty() ? E() : getLast();
                     }
 
                     /**
@@ -291,6 +299,7 @@ namespace Java {
                      * @return E
                      */
                     E pollFirst() {
+                        checkNotEmpty();
                         var  node = this->original.front();
                         this->original.pop_front();
                         var element = node->element;
@@ -304,6 +313,7 @@ namespace Java {
                      * @return E
                      */
                     E pollLast() {
+                        checkNotEmpty();
                         var node = this->original.back();
                         this->original.pop_back();
                         var element = node->element;
@@ -377,6 +387,7 @@ namespace Java {
                     }
 
                     E removeLast() {
+                        checkNotEmpty();
                         var node = this->original.back();
                          this->original.pop_back();
                          var element = node->element;
-- 
2.43.0


From 6871064e64c29daa40d3e634154c8407f6488a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 10/58] fix: ConcurrentHashMap equals, clone, putIfAbsent,
 remove and replace can be called and change one key atomically

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 96 ++++++++-----------
 1 file changed, 42 insertions(+), 54 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index c6d99ec..72edac0 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -93,13 +93,15 @@ namespace Java {
                     if (original.size() != anotherHashMap.size()) {
                         return false;
                     }
-                    for (var const &thisElement : this) {
-                        V anotherValue = anotherHashMap.get(thisElement.first);
-                        if (thisElement.second != anotherValue) {
-                            return false;
-                        }
-                    }
-                    return true;
+                    boolean same = true;
+                    ConcurrentHashMap<K, V> snapshot(*this);
+                    snapshot.forEach([&anotherHashMap, &same](K key, V value) {
+                        V anotherValue = V();
+                        same = anotherHashMap.original.find(key, anotherValue)
+                               && value == anotherValue;
+                        return same;
+                    });
+                    return same;
                 }
 
                 /**
@@ -131,11 +133,7 @@ namespace Java {
                  * @return ConcurrentHashMap<K, V>
                  */
                 ConcurrentHashMap <K, V> clone() const {
-                    ConcurrentHashMap < K, V > result;
-                    for (auto const &element : this) {
-                        result.put(element.first, element.second);
-                    }
-                    return result;
+                    return ConcurrentHashMap<K, V>(*this);
                 }
 
                 /**
@@ -340,8 +338,7 @@ namespace Java {
                         var value = original.find(key);
                         return value;
                     } catch (std::out_of_range &exception) {
-                        V v;
-                        return v;
+                        return V();
                     }
                 }
 
@@ -401,12 +398,11 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V putIfAbsent(const K &key, const V &value) {
-                    try {
-                        value = original.find(key);
-                    } catch (std::out_of_range &e) {
-                        this->put(key, value);
-                    }
-                    return value;
+                    V previous = V();
+                    original.upsert(key, [&previous](V &current) {
+                        previous = current;
+                    }, value);
+                    return previous;
                 }
 
                 /**
@@ -420,14 +416,12 @@ namespace Java {
                  * 					previously associated null with key.)
                  */
                 V remove(const K &key) {
-                    V v;
-                    try {
-                        v = original.find(key);
-                        original.erase(key);
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
-                    return v;
+                    V previous = V();
+                    original.erase_fn(key, [&previous](V &current) {
+                        previous = current;
+                        return true;
+                    });
+                    return previous;
                 }
 
                 /**
@@ -441,16 +435,12 @@ namespace Java {
                  * 			false 		if otherwise
                  */
                 boolean remove(const K &key, const V &value) {
-                    try {
-                        var v = original.find(key);
-                        if (v == value) {
-                            original.erase(key);
-                            return true;
-                        }
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
-                    return false;
+                    boolean removed = false;
+                    original.erase_fn(key, [&value, &removed](V &current) {
+                        removed = (current == value);
+                        return removed;
+                    });
+                    return removed;
                 }
 
                 /**
@@ -467,14 +457,12 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V replace(const K &key, const V &value) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()) {
-                        return result;
-                    }
-                    result = iteratorToString->second;
-                    this->put(key, value);
-                    return result;
+                    V previous = V();
+                    original.update_fn(key, [&previous, &value](V &current) {
+                        previous = current;
+                        current = value;
+                    });
+                    return previous;
                 }
 
                 /**
@@ -492,14 +480,14 @@ namespace Java {
                 boolean replace(const K &key,
                                 const V &oldValue,
                                 const V &newValue) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()
-                        || iteratorToString->second != oldValue) {
-                        return false;
-                    }
-                    this->put(key, newValue);
-                    return true;
+                    boolean replaced = false;
+                    original.update_fn(key, [&oldValue, &newValue, &replaced](V &current) {
+                        if (current == oldValue) {
+                            current = newValue;
+                            replaced = true;
+                        }
+                    });
+                    return replaced;
                 }
 
                 /**
-- 
2.43.0


From e4a9dc9288299da464b362727c82c9df5ff3fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 11/58] fix: ConcurrentLinkedQueue::offer and clear act on the
 queue, unimplemented queries say so

---
 .../ConcurrentLinkedQueue.hpp                  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index b2103dc..d8fc8d4 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -47,9 +47,7 @@ namespace Java {
             public:
                 ConcurrentLinkedQueue() = default;
 
-                ConcurrentLinkedQueue(const ConcurrentLinkedQueue <E> &target) {
-                    original = target.original;
-                }
+                ConcurrentLinkedQueue(const ConcurrentLinkedQueue <E> &target) = delete;
 
                 boolean add(const E &e) {
                     original.enqueue(e);
@@ -61,6 +59,7 @@ namespace Java {
                 }
 
                 boolean offer(const E &e) {
+                    original.enqueue(e);
                     return true;
                 }
 
@@ -69,7 +68,7 @@ namespace Java {
                 }
 
                 E poll() {
-                    E e;
+                    E e = E();
                     original.try_dequeue(e);
                     return e;
                 }
@@ -79,14 +78,17 @@ namespace Java {
                 }
 
                 void clear() {
+                    E e = E();
+                    while (original.try_dequeue(e)) {
+                    }
                 }
 
                 boolean contains(const E &e) {
-                    return true;
+                    throw UnsupportedOperationException();
                 }
 
                 boolean equals(const E &e) {
-                    return true;
+                    throw UnsupportedOperationException();
                 }
 
                 int hashCode() {
@@ -98,11 +100,11 @@ namespace Java {
                 }
 
                 boolean remove(Object &e) {
-                    return false;
+                    throw UnsupportedOperationException();
                 }
 
                 boolean removeAll(Collection<Object> &collection) {
-                    return false;
+                    throw UnsupportedOperationException();
                 }
 
                 int size() {
-- 
2.43.0


From 35e1e47e312823ad6b991f677d99e8c96483bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 12/58] fix: every Vector member and ArrayList::ensureCapacity
 can be called

---
 library/Java/Util/ArrayList/ArrayList.hpp |  2 +-
 library/Java/Util/Vector/Vector.hpp       | 32 ++++++++++++++---------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 7d582cc..3813b69 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -236,7 +236,7 @@ namespace Java {
 			 *
 			 * @param minCapacity
 			 */
-			void ensureCapacity(int minCapacity) const {
+			void ensureCapacity(int minCapacity) {
 				this->original.reserve(minCapacity);
 			}
 
diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index eac0eaf..20158a1 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -474,7 +474,7 @@ namespace Java {
              * @return ListIterator<E>
              */
             ListIterator<E> listIterator() const {
-                // TODO
+                throw UnsupportedOperationException();
             }
 
             /**
@@ -485,7 +485,7 @@ namespace Java {
              * @return ListIterator<E>
              */
             ListIterator<E> listIterator(int index) {
-                // TODO
+                throw UnsupportedOperationException();
             }
 
             /**
@@ -715,7 +715,7 @@ namespace Java {
              * @param comparator
              */
             void sort(Comparator<E> comparator) {
-                // TODO
+                throw UnsupportedOperationException();
             }
 
             /**
@@ -724,7 +724,7 @@ namespace Java {
              * @return Spliterator<E>
              */
             Spliterator<E> spliterator() const {
-
+                throw UnsupportedOperationException();
             }
 
             /**
@@ -734,8 +734,16 @@ namespace Java {
              * @param toIndex
              * @return List<E>
              */
-            List<E> subList(int fromIndex, int toIndex) const {
-                // TODO
+            Vector<E> subList(int fromIndex, int toIndex) const {
+                if (fromIndex < 0 || toIndex > this->size() || fromIndex > toIndex) {
+                    throw IllegalArgumentException("index is out of range");
+                }
+                Vector<E> result;
+                int index;
+                for (index = fromIndex; index < toIndex; index++) {
+                    result.add(this->original[index]);
+                }
+                return result;
             }
 
             /**
@@ -767,19 +775,17 @@ namespace Java {
                     return toArray();
                 }
 
-                typename std::vector<E>::iterator vectorIterator;
-                int arrayIndex = 0;
-                for (vectorIterator = this->original.begin();
-                     vectorIterator != this->original; vectorIterator++) {
-                    anArray[arrayIndex] = *vectorIterator;
-                    arrayIndex++;
+                Array<E> result(anArray);
+                int index;
+                for (index = 0; index < vectorLength; index++) {
+                    result[index] = this->original[index];
                 }
 
                 if (arrayLength > vectorLength) {
                     // anArray[vectorLength] = nullptr; // FIXME: Can't assign null value.
                 }
 
-                return anArray;
+                return result;
             }
 
             /**
-- 
2.43.0


From 851054bb9622c261f02e58eea72de61ea2df16cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 13/58] fix: PriorityQueue keeps its heap order after remove
 and survives poll on an empty queue

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index 1a5757b..78f5d8d 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -196,7 +196,7 @@ namespace Java {
 						 * @return E
 						 */
 						E peek() const {
-							E defaultOfE;
+							E defaultOfE = E();
 							if (this->original.empty()) {
 								return defaultOfE;
 							}
@@ -210,6 +210,9 @@ namespace Java {
 						 */
 						E poll() {
 							E result = this->peek();
+							if (this->original.empty()) {
+							    return result;
+							}
 							std::pop_heap(this->original.begin(), this->original.end());
 							this->original.pop_back();
 							return result;
@@ -226,6 +229,7 @@ namespace Java {
 							targetIterator = std::find(this->original.begin(), this->original.end(), target);
 							if (targetIterator != this->original.end()) {
 								this->original.erase(targetIterator);
+								std::make_heap(this->original.begin(), this->original.end());
 								return true;
 							}
 							return false;
@@ -284,7 +288,7 @@ namespace Java {
 							}
 							// Add "null" terminator (but must use default value).
 							if (anArray.length > originalSize) {
-								E defaultOfE;
+								E defaultOfE = E();
 								anArray[ indexOfArray ] = defaultOfE;
 							}
 							return anArray;
-- 
2.43.0


From d3c7e7f2cd392f4966473a361ae62baa57eab3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 14/58] fix: HashMap::put replaces the mapping of an existing
 key, equals distinguishes a missing key

---
 library/Java/Util/HashMap/HashMap.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 16e5450..aba7c24 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -123,8 +123,8 @@ namespace Java {
 				}
 
 				for (var const &thisElement : this->original) {
-					V anotherValue = anotherHashMap.get(thisElement.first);
-					if (thisElement.second != anotherValue) {
+					auto const another = anotherHashMap.original.find(thisElement.first);
+					if (another == anotherHashMap.original.end() || thisElement.second != another->second) {
 						return false;
 					}
 				}
@@ -351,7 +351,7 @@ namespace Java {
 				if (iteratorToString == this->original.end()) {
 					// Default value if could not found
 					// Prevent null pointer reference
-					V value;
+					V value = V();
 				    return value;
 				}
 				return iteratorToString->second;
@@ -370,7 +370,7 @@ namespace Java {
 			 * 							for the key
 			 */
 			V getOrDefault(const K &key, const V &defaultValue) const {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -400,7 +400,7 @@ namespace Java {
 			 * @param value
 			 */
 			void put(const K &key, const V &value) {
-				this->original.insert(std::pair<K, V>(key, value));
+				this->original[key] = value;
 			}
 
 			/**
@@ -429,7 +429,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V putIfAbsent(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorFind = this->original.find(key);
 
 				if (iteratorFind == this->original.end()) {
@@ -453,7 +453,7 @@ namespace Java {
 			 * 					previously associated null with key.)
 			 */
 			V remove(const K &key) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -503,7 +503,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V replace(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -531,7 +531,7 @@ namespace Java {
 			boolean replace(const K &key,
 			                const V &oldValue,
 			                const V &newValue) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()
-- 
2.43.0


From 5798723a81b03078dd4ba57fd4d50da215ef041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 15/58] fix: Vector copies keep their capacity increment,
 self-assignment keeps the elements, bad arguments throw the library's
 exceptions

---
 library/Java/Util/Vector/Vector.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 20158a1..a873870 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -77,7 +77,7 @@ namespace Java {
              */
             Vector(int initialCapacity, int capacityIncrement) {
                 if (initialCapacity < 0) {
-                    throw std::invalid_argument("initial capacity is negative");
+                    throw IllegalArgumentException("initial capacity is negative");
                 }
                 this->original.reserve(initialCapacity);
                 this->capacityIncrement = capacityIncrement;
@@ -89,7 +89,7 @@ namespace Java {
              *
              * @param list
              */
-            Vector(const std::initializer_list<E> &list) {
+            Vector(const std::initializer_list<E> &list) : capacityIncrement(0) {
                 this->original.reserve(list.size());
                 typename std::initializer_list<E>::iterator listIterator;
                 for (listIterator = list.begin();
@@ -104,7 +104,7 @@ namespace Java {
              *
              * @param target
              */
-            Vector(const Vector<E> &target) {
+            Vector(const Vector<E> &target) : capacityIncrement(target.capacityIncrement) {
                 const E *targetData = target.original.data();
                 int index;
                 for (index = 0; index < target.original.size(); index++) {
@@ -511,6 +511,9 @@ namespace Java {
              */
             boolean remove(const Object &element) {
                 const E *referenceToElement = dynamic_cast<const E *>(&element);
+                if (referenceToElement == nullptr) {
+                    return false;
+                }
                 int index;
                 for (index = 0; index < this->original.size(); index++) {
                     if ((*referenceToElement) == this->original[index]) {
@@ -879,7 +882,7 @@ namespace Java {
 
             const E &operator[](const int index) const {
                 if (index < 0 || index >= this->original.size()) {
-                    throw std::invalid_argument("index is out of range");
+                    throw IllegalArgumentException("index is out of range");
                 }
                 const E *vectorData = this->original.data();
                 return *(vectorData + index);
@@ -893,6 +896,9 @@ namespace Java {
              * @return Vector<E>
              */
             Vector<E> &operator=(const Vector<E> &target) {
+                if (this == &target) {
+                    return *this;
+                }
                 this->clear();
                 this->ensureCapacity(target.size());
                 const E *targetData = target.original.data();
-- 
2.43.0


From 90bda2bec4794ed74777e08fb470497b329e1d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 16/58] fix: ArrayList checks every index against its size

---
 library/Java/Util/ArrayList/ArrayList.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 3813b69..19815a4 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -69,19 +69,19 @@ namespace Java {
 
 		public:
 			_iterator begin() {
-				return &this->original[0];
+				return this->original.data();
 			}
 
 			_const_iterator begin() const {
-				return &this->original[0];
+				return this->original.data();
 			}
 
 			_iterator end() {
-				return &this->original[this->original.size()];
+				return this->original.data() + this->original.size();
 			}
 
 			_const_iterator end() const {
-				return &this->original[this->original.size()];
+				return this->original.data() + this->original.size();
 			}
 
 			/**
@@ -154,7 +154,7 @@ namespace Java {
 			 * @param element
 			 */
 			void add(int index, const E element) {
-				if (index < 0 || index > this->original.size() - 1) {
+				if (index < 0 || index > this->size()) {
 					return;
 				}
 				this->original.insert(this->original.begin() + index, element);
@@ -595,6 +595,11 @@ namespace Java {
 			 * @return E
 			 */
 			E &operator[](int index) {
+				if (index < 0 || index >= this->size()) {
+					String message = "Index out of range: ";
+					message += Integer(index).stringValue();
+					throw IndexOutOfBoundsException(message);
+				}
 				return this->original[index];
 			}
 
@@ -608,6 +613,9 @@ namespace Java {
 			 * @param toIndex
 			 */
 			void removeRange(int fromIndex, int toIndex) {
+				if (fromIndex < 0 || fromIndex > toIndex || toIndex > this->size()) {
+					throw IndexOutOfBoundsException("Range out of range");
+				}
 				this->original.erase(this->original.begin() + fromIndex,
 				                     this->original.begin() + toIndex);
 			}
-- 
2.43.0


From 16523a25308980602de90d741726a8948bcdd2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 17/58] fix: every Date keeps its own broken-down time instead
 of the C library's shared buffer

---
 library/Java/Util/Date/Date.cpp | 67 ++++++++++++++++++---------------
 library/Java/Util/Date/Date.hpp |  4 +-
 2 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 93b28b2..9dfca69 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -67,27 +67,27 @@ Date::~Date() {
 }
 
 void Date::setDate(int date) {
-    this->localTimer->tm_mday = date;
+    this->localTimer.tm_mday = date;
     this->updateDateStatus();
 }
 
 void Date::setHours(int hours) {
-    this->localTimer->tm_hour = hours;
+    this->localTimer.tm_hour = hours;
     this->updateDateStatus();
 }
 
 void Date::setMinutes(int minutes) {
-    this->localTimer->tm_min = minutes;
+    this->localTimer.tm_min = minutes;
     this->updateDateStatus();
 }
 
 void Date::setMonth(int month) {
-    this->localTimer->tm_mon = month;
+    this->localTimer.tm_mon = month;
     this->updateDateStatus();
 }
 
 void Date::setSeconds(int seconds) {
-    this->localTimer->tm_sec = seconds;
+    this->localTimer.tm_sec = seconds;
     this->updateDateStatus();
 }
 
@@ -97,36 +97,36 @@ void Date::setTime(long time) {
 
 void Date::setYear(int year) {
     // LocalTimer just keep year since 1900
-    this->localTimer->tm_year = year;
+    this->localTimer.tm_year = year;
     this->updateDateStatus();
 }
 
 int Date::getDate() const {
-    return this->localTimer->tm_mday;
+    return this->localTimer.tm_mday;
 }
 
 int Date::getDay() const {
-    return this->localTimer->tm_wday;
+    return this->localTimer.tm_wday;
 }
 
 int Date::getHours() const {
-    return this->localTimer->tm_hour;
+    return this->localTimer.tm_hour;
 }
 
 int Date::getMinutes() const {
-    return this->localTimer->tm_min;
+    return this->localTimer.tm_min;
 }
 
 int Date::getMonth() const {
-    return this->localTimer->tm_mon;
+    return this->localTimer.tm_mon;
 }
 
 int Date::getSeconds() const {
-    return this->localTimer->tm_sec;
+    return this->localTimer.tm_sec;
 }
 
 int Date::getYear() const {
-    return this->localTimer->tm_year;
+    return this->localTimer.tm_year;
 }
 
 long Date::getTime() const {
@@ -134,7 +134,7 @@ long Date::getTime() const {
 }
 
 int Date::getTimezoneOffset() const {
-    return (int) - (this->localTimer->tm_gmtoff / 60);
+    return (int) - (this->localTimer.tm_gmtoff / 60);
 }
 
 boolean Date::after(Date specifiedDate) const {
@@ -175,16 +175,18 @@ Date Date::clone() {
 
 String Date::toLocaleString() const {
     string pattern = (string) "%b %d, %Y %I:%M:%S %p";
-    return this->timeToString(pattern, this->localTimer);
+    return this->timeToString(pattern, &this->localTimer);
 }
 
 String Date::toGMTString() const {
     string pattern = (string) "%d %b %Y %T GMT";
 
     long utcTime = getUTCTime(this->timer);
-    tm *utcTimer = localtime(&utcTime);
+    tm utcTimer = { 0 };
+    tzset();
+    localtime_r(&utcTime, &utcTimer);
 
-    return this->timeToString(pattern, utcTimer);
+    return this->timeToString(pattern, &utcTimer);
 }
 
 int Date::hashCode() const {
@@ -379,10 +381,12 @@ long Date::parse(String inputString) {
     if (year < 100) {
         auto now = std::chrono::system_clock::now();
         std::time_t now_c = std::chrono::system_clock::to_time_t(now);
-        struct tm *currentTime = std::localtime(&now_c);
+        struct tm currentTime = { 0 };
+        tzset();
+        localtime_r(&now_c, &currentTime);
 
-        currentTime->tm_year += 1900;
-        int defaultCenturyStart = currentTime->tm_year - 80;
+        currentTime.tm_year += 1900;
+        int defaultCenturyStart = currentTime.tm_year - 80;
         year += (defaultCenturyStart / 100) * 100;
 
         if (year < defaultCenturyStart) {
@@ -427,12 +431,13 @@ long Date::parse(String inputString) {
 
 long Date::getOffsetFromUTC() {
     long currentTime;
-    struct tm * timeInfo;
+    struct tm timeInfo = { 0 };
     time(&currentTime);
-    timeInfo = gmtime (&currentTime);
-    time_t utc = mktime(timeInfo);
-    timeInfo = localtime(&currentTime);
-    time_t local = mktime(timeInfo);
+    gmtime_r(&currentTime, &timeInfo);
+    time_t utc = mktime(&timeInfo);
+    tzset();
+    localtime_r(&currentTime, &timeInfo);
+    time_t local = mktime(&timeInfo);
 
     // Get offset in hours from UTC
     double offsetFromUTC = difftime(utc, local); // HOUR_IN_SECOND;
@@ -487,7 +492,7 @@ String Date::getSequenceChar(const String &inputString, int &index) {
 
 void Date::updateDateStatus() {
     // Update changes
-    this->timer = mktime(this->localTimer);
+    this->timer = mktime(&this->localTimer);
 
     String pattern;
 
@@ -508,7 +513,7 @@ void Date::updateDateStatus() {
 #endif
 
     pattern = (string) "%a %b %d %T %Z %Y";
-    String convertResult = this->timeToString(pattern.toString(), this->localTimer);
+    String convertResult = this->timeToString(pattern.toString(), &this->localTimer);
     this->backUp = strdup(convertResult.toCharPointer());
 }
 
@@ -524,17 +529,19 @@ void Date::initializeDate(int year, int month, int date,
     localTimer.tm_sec = second;
 
     this->timer = mktime(&localTimer);
-    this->localTimer = localtime(&this->timer);
+    tzset();
+    localtime_r(&this->timer, &this->localTimer);
     this->updateDateStatus();
 }
 
 void Date::initializeDate(long timestamp) {
     time_t ts = timestamp;
-    this->localTimer = localtime(&ts);
+    tzset();
+    localtime_r(&ts, &this->localTimer);
     this->updateDateStatus();
 }
 
-String Date::timeToString(String pattern, tm *timeManagement) const {
+String Date::timeToString(String pattern, const tm *timeManagement) const {
     size_t size = 100;
 
     string holdResult = static_cast<string> (calloc(size, sizeof(char)));
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index d79abbe..7ef8e3d 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -41,7 +41,7 @@ namespace Java {
 				{
 				private:
 						long timer;
-						struct tm *localTimer;
+						struct tm localTimer;
 						string backUp = nullptr;
 				private:
 						/**
@@ -81,7 +81,7 @@ namespace Java {
 						 * @param timeManagement
 						 * @return String
 						 */
-						String timeToString(String pattern, tm *timeManagement) const;
+						String timeToString(String pattern, const tm *timeManagement) const;
 						
 						/**
 						 * Get the UTC time
-- 
2.43.0


From 3674e0a47732dfebf22fde33cf0be118b5e70599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 18/58] fix: Long::toString, Bytes::valueOf and
 TimeZone::getTimeZone no longer share static results

---
 library/Java/Lang/Bytes/Bytes.cpp       | 5 +----
 library/Java/Lang/Bytes/Bytes.hpp       | 7 ++-----
 library/Java/Lang/Long/Long.cpp         | 2 +-
 library/Java/Util/TimeZone/TimeZone.cpp | 4 ++--
 library/Java/Util/TimeZone/TimeZone.hpp | 2 +-
 5 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/library/Java/Lang/Bytes/Bytes.cpp b/library/Java/Lang/Bytes/Bytes.cpp
index 719a98b..5835741 100755
--- a/library/Java/Lang/Bytes/Bytes.cpp
+++ b/library/Java/Lang/Bytes/Bytes.cpp
@@ -30,8 +30,6 @@
 
 using namespace Java::Lang;
 
-ByteCache *ByteCache::instance = nullptr;
-
 Bytes::Bytes(byte byteValue) {
     this->original = byteValue;
     asprintf(&this->originalString, "%d", this->original);
@@ -145,8 +143,7 @@ long Bytes::toUnsignedLong(byte byteValue) {
 
 Bytes Bytes::valueOf(byte byteValue) {
     auto byteInstance = ByteCache::getInstance();
-    auto value = byteInstance->getByteAtIndex((int) byteValue);
-    delete byteInstance;
+    auto value = byteInstance->getByteAtIndex((unsigned char) byteValue);
     return value;
 }
 
diff --git a/library/Java/Lang/Bytes/Bytes.hpp b/library/Java/Lang/Bytes/Bytes.hpp
index d913df0..18a5a9e 100755
--- a/library/Java/Lang/Bytes/Bytes.hpp
+++ b/library/Java/Lang/Bytes/Bytes.hpp
@@ -426,7 +426,6 @@ namespace Java {
          */
         class ByteCache {
         private:
-            static ByteCache *instance;
 
             ByteCache() {
                 cache = this->cacheInit();
@@ -446,10 +445,8 @@ namespace Java {
 
         public:
             static ByteCache *getInstance() {
-                if (instance == nullptr) {
-                    instance = new ByteCache();
-                }
-                return instance;
+                static ByteCache instance;
+                    return &instance;
             }
 
             Bytes getByteAtIndex(int index) {
diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 5c328ee..c8c2bca 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -539,7 +539,7 @@ String Long::toString() const {
  * @return String
  */
 String Long::toString(long i) {
-	static Long result = i;
+	Long result = i;
 	return result.toString();
 }
 
diff --git a/library/Java/Util/TimeZone/TimeZone.cpp b/library/Java/Util/TimeZone/TimeZone.cpp
index 6f1ce11..cf4395c 100755
--- a/library/Java/Util/TimeZone/TimeZone.cpp
+++ b/library/Java/Util/TimeZone/TimeZone.cpp
@@ -36,8 +36,8 @@ String TimeZone::getID() {
     return this->id;
 }
 
-TimeZone &TimeZone::getTimeZone(String id) {
-    static TimeZone timeZone;
+TimeZone TimeZone::getTimeZone(String id) {
+    TimeZone timeZone;
     timeZone.setID(id);
     return timeZone;
 }
\ No newline at end of file
diff --git a/library/Java/Util/TimeZone/TimeZone.hpp b/library/Java/Util/TimeZone/TimeZone.hpp
index c919b37..3fd3baa 100755
--- a/library/Java/Util/TimeZone/TimeZone.hpp
+++ b/library/Java/Util/TimeZone/TimeZone.hpp
@@ -41,7 +41,7 @@ namespace Java {
         public:
             void setID(String ID);
             String getID();
-            static TimeZone &getTimeZone(String id);
+            static TimeZone getTimeZone(String id);
         };
     }
 }
-- 
2.43.0


From 2c4059824e957be2f198759a5d71da05a424a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 19/58] fix: changing the case of a String leaves the process
 locale alone, time-based UUID state is per thread

---
 library/Java/Lang/String/String.cpp       | 17 +++++++++++++----
 library/Java/Util/UUID/libuuid/gen_uuid.c |  6 +++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index b6379f4..1a16a27 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -33,7 +33,6 @@
 using namespace Java::Lang;
 
 std::wstring multiByteStringToWideString(const std::string &input) {
-    setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
         return convertToWstring.from_bytes(input.c_str());
@@ -44,7 +43,6 @@ std::wstring multiByteStringToWideString(const std::string &input) {
 }
 
 std::string wideStringToMultiByteString(const std::wstring &input) {
-    setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
         return convertToString.to_bytes(input.c_str());
@@ -54,15 +52,26 @@ std::string wideStringToMultiByteString(const std::wstring &input) {
     }
 }
 
+// Letter case follows the user's LC_CTYPE without switching the locale of the whole process.
+static locale_t caseLocale() {
+    static const locale_t userLocale = newlocale(LC_CTYPE_MASK, "", (locale_t) 0);
+    static const locale_t plainLocale = newlocale(LC_CTYPE_MASK, "C", (locale_t) 0);
+    return userLocale != (locale_t) 0 ? userLocale : plainLocale;
+}
+
 std::string toUpper(const std::string &input) {
 	std::wstring wideString = multiByteStringToWideString(input);
-    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towupper);
+    std::transform(wideString.begin(), wideString.end(), wideString.begin(), [](wchar_t letter) {
+        return (wchar_t) towupper_l(letter, caseLocale());
+    });
 	return wideStringToMultiByteString(wideString);
 }
 
 std::string toLower(const std::string &input) {
     std::wstring wideString = multiByteStringToWideString(input);
-    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towlower);
+    std::transform(wideString.begin(), wideString.end(), wideString.begin(), [](wchar_t letter) {
+        return (wchar_t) towlower_l(letter, caseLocale());
+    });
     return wideStringToMultiByteString(wideString);
 }
 
diff --git a/library/Java/Util/UUID/libuuid/gen_uuid.c b/library/Java/Util/UUID/libuuid/gen_uuid.c
index 3c519f2..a14bebe 100755
--- a/library/Java/Util/UUID/libuuid/gen_uuid.c
+++ b/library/Java/Util/UUID/libuuid/gen_uuid.c
@@ -93,7 +93,7 @@
 #include "uuidd.h"
 #include "randutils.h"
 
-#ifdef HAVE_TLS
+#if defined(HAVE_TLS) || defined(__GNUC__)
 #define THREAD_LOCAL static __thread
 #else
 #define THREAD_LOCAL static
@@ -443,8 +443,8 @@ static int get_uuid_via_daemon(int op, uuid_t out, int *num)
 
 int __uuid_generate_time(uuid_t out, int *num)
 {
-	static unsigned char node_id[6];
-	static int has_init = 0;
+	THREAD_LOCAL unsigned char node_id[6];
+	THREAD_LOCAL int has_init = 0;
 	struct uuid uu;
 	uint32_t	clock_mid;
 	int ret;
-- 
2.43.0


From 9ddb490e914da76efb8c8253516410597d934f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 20/58] fix: SimpleDateFormat::format no longer works in the C
 library's shared date buffer

---
 .../Java/Text/SimpleDateFormat/SimpleDateFormat.cpp   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
index 5cd8a26..7f16439 100644
--- a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
+++ b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
@@ -43,14 +43,13 @@ void SimpleDateFormat::setTimeZone(const TimeZone &timeZone) {
 String SimpleDateFormat::format(const Date &date) {
     String tz = String("TZ=") + this->timeZone.getID();
     putenv(tz.toCharPointer());
-    std::time_t current_time;
-    std::time(&current_time);
-    struct std::tm *timeinfo = std::gmtime(&current_time);
-    long offset = timeinfo->tm_gmtoff;
     size_t bufferLength = 80;
     string buffer = (string) calloc(bufferLength, sizeof(char));
-    time_t timestamp = (time_t) ((date.getTime() / 1000) + offset);
-    std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp));
+    time_t timestamp = (time_t) (date.getTime() / 1000);
+    struct tm brokenDown = { 0 };
+    tzset();
+    localtime_r(&timestamp, &brokenDown);
+    std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), &brokenDown);
     unsetenv("TZ");
     String formattedDate = buffer;
     free(buffer);
-- 
2.43.0


From 6c47cd9fc4a3bd4386f65c88a4615f4b33db3a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 21/58] fix: BitSet::intersects stays inside the words both
 sets use

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index d144681..22e6d5c 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -437,7 +437,7 @@ int BitSet::hashCode() const {
 boolean BitSet::intersects(const BitSet &set) {
     int endWordIndex = Math::min(this->wordsInUse, set.wordsInUse);
     int index;
-    for (index = 0; index <= endWordIndex; ++index) {
+    for (index = 0; index < endWordIndex; ++index) {
         if ((this->words[index] & set.words[index]) != 0) {
             return true;
         }
-- 
2.43.0


From 244deff80bbbf2d9cbd4d04360a658c75461f295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 22/58] fix: an exception made without a cause has none

---
 library/Java/Lang/Throwable/Throwable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/Java/Lang/Throwable/Throwable.cpp b/library/Java/Lang/Throwable/Throwable.cpp
index 93b5263..10af6bc 100644
--- a/library/Java/Lang/Throwable/Throwable.cpp
+++ b/library/Java/Lang/Throwable/Throwable.cpp
@@ -31,10 +31,12 @@ using namespace Java::Lang;
 
 Throwable::Throwable() {
 	this->message = "";
+	this->cause = nullptr;
 }
 
 Throwable::Throwable(String message) {
 	this->message = message;
+	this->cause = nullptr;
 }
 
 Throwable::Throwable(String message, Throwable *cause) {
-- 
2.43.0


From 6c63cda59dd499549a518087cb7b4a11e63fa5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 23/58] fix: Float/Double bit conversion looped forever or lost
 bits outside the int range

---
 library/Java/Lang/Double/Double.cpp | 230 ++--------------------------
 library/Java/Lang/Float/Float.cpp   | 221 ++------------------------
 2 files changed, 28 insertions(+), 423 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 37740cf..df67908 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -373,226 +373,24 @@ double Double::min(double doubleA, double doubleB) {
 //}
 
 String Double::doubleToBinary64StringType(double doubleInput) {
-    auto integerPartNormalizeForm = (string) allocateMemory(2048 * sizeof(char));
-    auto fractionPartNormalizeForm = (string) allocateMemory(54 * sizeof(char));
-    auto doubleInputNormalizeForm = (string) allocateMemory(2102 * sizeof(char));
-    auto resultDoubleToBinary64StringType = (string) allocateMemory(65 * sizeof(char));
+	if (doubleInput == 0) {
+		return "0000000000000000000000000000000000000000000000000000000000000000";
+	}
 
-    int powerExponentBase2 = 0;
-    int integerPartDoubleInput;
+	if (isNaN(doubleInput)) {
+		return "0111111111111111111111111111111111111111111111111111111111111111";
+	}
 
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfDoubleInputNormalizeForm;
+	unsigned long bits;
+	memcpy(&bits, &doubleInput, sizeof(bits));
 
-    int sizeOfExponentPartBinary64 = 11;
+	char resultDoubleToBinary64StringType[65];
+	for (int index = 0; index < 64; index++) {
+		resultDoubleToBinary64StringType[index] = (bits >> (63 - index)) & 1ul ? '1' : '0';
+	}
+	resultDoubleToBinary64StringType[64] = '\0';
 
-    int i;
-    int index;
-    int indexOfDotDoubleInputNormalizeForm;
-    int indexFirstBit1DoubleInputNormalizeForm;
-    int indexBeginFractionPartResultDoubleToBinary64StringType = 0;
-
-    int exponentBiasBinary64 = 1023;
-    int exponentDoubleInput;
-
-    double fractionPartDoubleInput;
-
-    for (i = 0; i <= 63; i++) {
-        doubleInputNormalizeForm[i] = '0';
-        resultDoubleToBinary64StringType[i] = '0';
-    }
-
-    for (i = 0; i <= 52; i++) {
-        integerPartNormalizeForm[i] = '0';
-        fractionPartNormalizeForm[i] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[2047] = '\0';
-    fractionPartNormalizeForm[53] = '\0';
-    doubleInputNormalizeForm[2101] = '\0';
-    resultDoubleToBinary64StringType[64] = '\0';
-
-    if (doubleInput >= 0) {
-        resultDoubleToBinary64StringType[0] = '0';
-    }
-
-    if (doubleInput < 0) {
-        resultDoubleToBinary64StringType[0] = '1';
-    }
-
-    if (doubleInput == 0) {
-        goto outPut;
-    }
-
-    if (doubleInput == POSITIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
-
-    if (doubleInput == NEGATIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "1111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
-
-    if (isNaN(doubleInput)) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111111111111111111111111111111111111111111111111111111111");
-
-        goto outPut;
-    }
-
-    /** Get |doubleInput| */
-    doubleInput = fabs(doubleInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartDoubleInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
-    }
-
-    if (integerPartDoubleInput != 0) {
-        while (integerPartDoubleInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartDoubleInput = integerPartDoubleInput >> 1;
-        }
-    }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    index = sizeOfIntegerPartNormalizeForm - 1;
-
-    while (integerPartDoubleInput != 0) {
-
-        if ((integerPartDoubleInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartDoubleInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartDoubleInput = integerPartDoubleInput >> 1;
-    }
-
-    fractionPartDoubleInput = doubleInput - integerPartDoubleInput;
-    index = 0;
-
-    while ((fractionPartDoubleInput != 0) && (index < 53)) {
-        fractionPartDoubleInput = fractionPartDoubleInput * 2;
-
-        int integerPart = static_cast<int> (floor(fractionPartDoubleInput));
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartDoubleInput = fractionPartDoubleInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to doubleInputNormalizeForm */
-    for (i = 0; i < sizeOfIntegerPartNormalizeForm; i++) {
-        doubleInputNormalizeForm[i] = integerPartNormalizeForm[i];
-    }
-
-    indexOfDotDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    doubleInputNormalizeForm[indexOfDotDoubleInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to doubleInputNormalizeForm
-     */
-    index = indexOfDotDoubleInputNormalizeForm + 1;
-    for (i = 0; i <= sizeOfFractionPartNormalizeForm; i++, index++) {
-        doubleInputNormalizeForm[index]
-                = fractionPartNormalizeForm[i];
-    }
-
-    sizeOfDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                     + sizeOfFractionPartNormalizeForm;
-
-    /** Assign value to indexFirstBit1DoubleInputNormalizeForm */
-    indexFirstBit1DoubleInputNormalizeForm = 1;
-    for (i = 0; i <= sizeOfDoubleInputNormalizeForm; i++) {
-        if (doubleInputNormalizeForm[i] == '1') {
-            indexFirstBit1DoubleInputNormalizeForm = i;
-            break;
-        }
-    }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    if (integerPartDoubleInput != 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm - 1;
-    }
-
-    if (integerPartDoubleInput == 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm;
-    }
-
-    exponentDoubleInput = powerExponentBase2 + exponentBiasBinary64;
-
-    index = sizeOfExponentPartBinary64;
-
-    while (exponentDoubleInput != 0) {
-
-        if ((exponentDoubleInput & 1) == 1) {
-            resultDoubleToBinary64StringType[index] = '1';
-        }
-
-        if ((exponentDoubleInput & 1) == 0) {
-            resultDoubleToBinary64StringType[index] = '0';
-        }
-
-        index--;
-        exponentDoubleInput = exponentDoubleInput >> 1;
-    }
-
-    indexBeginFractionPartResultDoubleToBinary64StringType
-            = sizeOfExponentPartBinary64 + 1;
-
-    index = indexBeginFractionPartResultDoubleToBinary64StringType;
-    i = indexFirstBit1DoubleInputNormalizeForm + 1;
-
-    for (index; index <= 63; index++) {
-        if (i == sizeOfDoubleInputNormalizeForm) {
-            break;
-        }
-
-        if (i == indexOfDotDoubleInputNormalizeForm) {
-            i++;
-        }
-
-        resultDoubleToBinary64StringType[index]
-                = doubleInputNormalizeForm[i];
-        i++;
-    }
-
-    outPut:
-    /** Return resultDoubleToBinary64StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(doubleInputNormalizeForm);
-
-    String result = resultDoubleToBinary64StringType;
-    free(resultDoubleToBinary64StringType);
-
-    return result;
+	return resultDoubleToBinary64StringType;
 }
 
 double Double::binary64StringTypeToDouble(String binary64StringTypeInput) {
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 3ee56b9..fe10788 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -197,217 +197,24 @@ Float Float::valueOf(float inputFloat) {
 }
 
 String Float::floatToBinary32StringType(float floatInput) {
-    string integerPartNormalizeForm = (string) calloc (280, sizeof(char));
-    string fractionPartNormalizeForm = (string) calloc (25, sizeof(char));
-    string floatInputNormalizeForm = (string) calloc (280, sizeof(char));
-    string resultFloatToBinary32StringType
-            = (string) calloc (33, sizeof(char));
+	if (floatInput == 0) {
+		return "00000000000000000000000000000000";
+	}
 
-    int powerExponentBase2 = 0;
-    int integerPartFloatInput;
+	if (isNaN(floatInput)) {
+		return "01111111111111111111111111111111";
+	}
 
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfFloatInputNormalizeForm;
+	unsigned int bits;
+	memcpy(&bits, &floatInput, sizeof(bits));
 
-    int sizeOfExponentPartBinary32 = 8;
+	char resultFloatToBinary32StringType[33];
+	for (int index = 0; index < 32; index++) {
+		resultFloatToBinary32StringType[index] = (bits >> (31 - index)) & 1u ? '1' : '0';
+	}
+	resultFloatToBinary32StringType[32] = '\0';
 
-    int indexOfFor;
-    int index;
-    int indexOfDotFloatInputNormalizeForm;
-    int indexFirstBit1FloatInputNormalizeForm;
-    int indexBeginFractionPartResultFloatToBinary32StringType = 0;
-
-    int exponentBiasBinary32 = 127;
-    int exponentFloatInput;
-
-    float fractionPartFloatInput;
-
-    for (indexOfFor = 0 ; indexOfFor <= 31; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = '0';
-        resultFloatToBinary32StringType[indexOfFor] = '0';
-    }
-
-    for (indexOfFor = 0 ; indexOfFor <= 23; indexOfFor++) {
-        integerPartNormalizeForm[indexOfFor] = '0';
-        fractionPartNormalizeForm[indexOfFor] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[279] = '\0';
-    fractionPartNormalizeForm[24] = '\0';
-    floatInputNormalizeForm[279] = '\0';
-    resultFloatToBinary32StringType[32] = '\0';
-
-    if (floatInput >= 0) {
-        resultFloatToBinary32StringType[0] = '0';
-    }
-
-    if (floatInput < 0) {
-        resultFloatToBinary32StringType[0] = '1';
-    }
-
-    if (floatInput == 0) {
-        goto outPut;
-    }
-
-    if (floatInput == Float::POSITIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "01111111100000000000000000000000");
-        goto outPut;
-    }
-
-    if (floatInput == Float::NEGATIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "11111111100000000000000000000000");
-        goto outPut;
-    }
-
-    if (isNaN(floatInput)) {
-        strcpy(resultFloatToBinary32StringType, "01111111111111111111111111111111");
-
-        goto outPut;
-    }
-
-    /** Get |floatInput| */
-    floatInput = fabs(floatInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartFloatInput = (int) floor(floatInput);
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartFloatInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
-    }
-
-    if (integerPartFloatInput != 0) {
-        while (integerPartFloatInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartFloatInput = integerPartFloatInput >> 1;
-        }
-    }
-
-    integerPartFloatInput = (int) floor(floatInput);
-    index = sizeOfIntegerPartNormalizeForm -1;
-    while (integerPartFloatInput != 0) {
-        if ((integerPartFloatInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartFloatInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartFloatInput = integerPartFloatInput >> 1;
-    }
-
-    fractionPartFloatInput = floatInput - integerPartFloatInput;
-    index = 0;
-
-    while ((fractionPartFloatInput != 0) && (index < 24)) {
-        fractionPartFloatInput = fractionPartFloatInput * 2;
-
-        int integerPart = (int) floor(fractionPartFloatInput);
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartFloatInput = fractionPartFloatInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to floatInputNormalizeForm */
-    for (indexOfFor = 0; indexOfFor < sizeOfIntegerPartNormalizeForm; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = integerPartNormalizeForm[indexOfFor];
-    }
-
-    indexOfDotFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    floatInputNormalizeForm[indexOfDotFloatInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to floatInputNormalizeForm
-     */
-    index = indexOfDotFloatInputNormalizeForm +1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFractionPartNormalizeForm; indexOfFor++, index++) {
-        floatInputNormalizeForm[index]
-                = fractionPartNormalizeForm[indexOfFor];
-    }
-
-    sizeOfFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                    + sizeOfFractionPartNormalizeForm;
-
-    indexFirstBit1FloatInputNormalizeForm = 1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFloatInputNormalizeForm; indexOfFor++) {
-        if (floatInputNormalizeForm[indexOfFor] == '1') {
-            indexFirstBit1FloatInputNormalizeForm = indexOfFor;
-            break;
-        }
-    }
-
-    integerPartFloatInput = (int) floor(floatInput);
-    if (integerPartFloatInput != 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm -1;
-    }
-
-    if (integerPartFloatInput == 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm;
-    }
-
-    exponentFloatInput = powerExponentBase2 + exponentBiasBinary32;
-
-    index = sizeOfExponentPartBinary32;
-
-    while (exponentFloatInput != 0) {
-        if ((exponentFloatInput & 1) == 1) {
-            resultFloatToBinary32StringType[index] = '1';
-        }
-
-        if ((exponentFloatInput & 1) == 0) {
-            resultFloatToBinary32StringType[index] = '0';
-        }
-
-        index--;
-        exponentFloatInput = exponentFloatInput >> 1;
-    }
-
-    indexBeginFractionPartResultFloatToBinary32StringType
-            = sizeOfExponentPartBinary32 + 1;
-
-    index = indexBeginFractionPartResultFloatToBinary32StringType;
-    indexOfFor = indexFirstBit1FloatInputNormalizeForm + 1;
-
-    for (index ; index <= 31; index++) {
-        if (indexOfFor == sizeOfFloatInputNormalizeForm) {
-            break;
-        }
-
-        if (indexOfFor == indexOfDotFloatInputNormalizeForm) {
-            indexOfFor++;
-        }
-
-        resultFloatToBinary32StringType[index]
-                = floatInputNormalizeForm[indexOfFor];
-        indexOfFor++;
-    }
-
-    outPut:
-    /** Return resultFloatToBinary32StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(floatInputNormalizeForm);
-    String result = resultFloatToBinary32StringType;
-    free(resultFloatToBinary32StringType);
-
-    return  result;
+	return resultFloatToBinary32StringType;
 }
 
 float Float::binary32StringTypeToFloat(String binary32StringTypeInput) {
-- 
2.43.0


From ed46e22af5e76815d8c0ebeca539fc2b8b20ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 24/58] fix: binary text of Integer/Long MIN_VALUE bits looped
 forever and wrote before the buffer

---
 library/Java/Lang/Double/Double.cpp | 10 +++++-----
 library/Java/Lang/Float/Float.cpp   | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index df67908..ffea6bb 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -471,21 +471,21 @@ String Double::longBitsToBinary64StringType(long longBitsInput) {
 
     if (longBitsInput < 0) {
         resultLongBitsToBinary64StringType[0] = '1';
-        longBitsInput = -longBitsInput;
     }
+    unsigned long magnitude = longBitsInput < 0 ? -(unsigned long) longBitsInput : (unsigned long) longBitsInput;
 
     index = 63;
-    while ((longBitsInput != 0) || (index > 1)) {
-        if ((longBitsInput & 1) == 1) {
+    while ((magnitude != 0) || (index > 1)) {
+        if ((magnitude & 1) == 1) {
             resultLongBitsToBinary64StringType[index] = '1';
         }
 
-        if ((longBitsInput & 1) == 0) {
+        if ((magnitude & 1) == 0) {
             resultLongBitsToBinary64StringType[index] = '0';
         }
 
         index--;
-        longBitsInput = longBitsInput >> 1;
+        magnitude = magnitude >> 1;
     }
 
     String result = resultLongBitsToBinary64StringType;
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index fe10788..e891b0a 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -338,22 +338,22 @@ String Float::intBitsToBinary32StringType(int intBitsInput) {
 
     if (intBitsInput < 0) {
         resultIntBitsToBinary32StringType[0] = '1';
-        intBitsInput = -intBitsInput;
     }
+    unsigned int magnitude = intBitsInput < 0 ? -(unsigned int) intBitsInput : (unsigned int) intBitsInput;
 
     index = 31;
-    while ((intBitsInput != 0) || (index > 1)) {
+    while ((magnitude != 0) || (index > 1)) {
 
-        if ( (intBitsInput & 1) ==1 ) {
+        if ( (magnitude & 1) ==1 ) {
             resultIntBitsToBinary32StringType[index] = '1';
         }
 
-        if ( (intBitsInput & 1) == 0 ) {
+        if ( (magnitude & 1) == 0 ) {
             resultIntBitsToBinary32StringType[index] = '0';
         }
 
         index--;
-        intBitsInput = intBitsInput >> 1;
+        magnitude = magnitude >> 1;
     }
 
     String result = resultIntBitsToBinary32StringType;
-- 
2.43.0


From f3a046baa79d0a980eb2873844d37f8674836a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 25/58] fix: Short and Long division by zero killed the
 program; Long compound assignment left toString stale

---
 library/Java/Lang/Long/Long.cpp   | 23 ++++++++++++++++++-----
 library/Java/Lang/Short/Short.cpp |  7 +++++++
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index c8c2bca..e35518c 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -26,6 +26,7 @@
 
 #include "Long.hpp"
 #include "../Math/Math.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
 
 using namespace Java::Lang;
 
@@ -680,6 +681,12 @@ Long Long::operator-(const Long &target) const {
  * @return
  */
 Long Long::operator/(const Long &target) const {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) {
+		return (long) (0 - (unsigned long) this->original);
+	}
 	Long result = this->original / target.original;
 	return result;
 }
@@ -691,6 +698,12 @@ Long Long::operator/(const Long &target) const {
  * @return
  */
 Long Long::operator%(const Long &target) const {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) {
+		return 0L;
+	}
 	Long result = this->original % target.original;
 	return result;
 }
@@ -794,7 +807,7 @@ boolean Long::operator>=(const Long &target) const {
  * @param target
  */
 void Long::operator-=(const Long &target) {
-	this->original -= target.original;
+	*this = *this - target;
 }
 
 /**
@@ -803,7 +816,7 @@ void Long::operator-=(const Long &target) {
  * @param target
  */
 void Long::operator+=(const Long &target) {
-	this->original += target.original;
+	*this = *this + target;
 }
 
 /**
@@ -812,7 +825,7 @@ void Long::operator+=(const Long &target) {
  * @param target
  */
 void Long::operator*=(const Long &target) {
-	this->original *= target.original;
+	*this = *this * target;
 }
 
 /**
@@ -821,7 +834,7 @@ void Long::operator*=(const Long &target) {
  * @param target
  */
 void Long::operator/=(const Long &target) {
-	this->original /= target.original;
+	*this = *this / target;
 }
 
 /**
@@ -830,5 +843,5 @@ void Long::operator/=(const Long &target) {
  * @param target
  */
 void Long::operator%=(const Long &target) {
-	this->original %= target.original;
+	*this = *this % target;
 }
\ No newline at end of file
diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 5f330a3..4a1b90e 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Short.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
 
 using namespace Java::Lang;
 
@@ -194,6 +195,9 @@ Short Short::operator*(const Short &target) {
  * @return Short
  */
 Short Short::operator/(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	return (this->original / target.original);
 }
 
@@ -203,6 +207,9 @@ Short Short::operator/(const Short &target) {
  * @return Short
  */
 Short Short::operator%(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	return (this->original % target.original);
 }
 
-- 
2.43.0


From f8e57c610bc4e3c3cfe2100b48cd60f811318b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 26/58] fix: Integer MIN_VALUE divided by -1 killed the program

---
 library/Java/Lang/Integer/Integer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 7d0f482..2e0e9c0 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -140,7 +140,7 @@ Integer Integer::operator/(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	return this->original / target.original;
+	return (int) ((long) this->original / target.original);
 }
 
 Integer Integer::operator*(const Integer &target) {
@@ -151,7 +151,7 @@ Integer Integer::operator%(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	return this->original % target.original;
+	return (int) ((long) this->original % target.original);
 }
 
 Integer &Integer::operator+=(const Integer &target) {
@@ -172,7 +172,7 @@ Integer &Integer::operator/=(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original /= target.original;
+	this->original = (int) ((long) this->original / target.original);
 	free(this->originalString);
 	asprintf(&this->originalString, "%d", this->original);
 	return *this;
@@ -189,7 +189,7 @@ Integer &Integer::operator%=(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original %= target.original;
+	this->original = (int) ((long) this->original % target.original);
 	free(this->originalString);
 	asprintf(&this->originalString, "%d", this->original);
 	return *this;
-- 
2.43.0


From 668fde4aad3022421fcdb8769a7b1d0238952759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 27/58] fix: Math::floorDiv of MIN_VALUE by -1 killed the
 program

---
 library/Java/Lang/Math/Math.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 3d488fd..849b9a3 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -142,7 +142,7 @@ int Math::floorDiv(int dividend, int divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
-	int result = dividend / divisor;
+	int result = (int) ((long) dividend / divisor);
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
 		result--;
@@ -154,6 +154,9 @@ long Math::floorDiv(long dividend, long divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
+	if (divisor == -1) {
+		return (long) (0 - (unsigned long) dividend);
+	}
 	long result = dividend / divisor;
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
-- 
2.43.0


From 77f60627411bf57c424f3e69960ddb4f02d7f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 28/58] fix: assigned Float printed differently from a
 constructed one; parsing text that is no number returned an indeterminate
 value

---
 library/Java/Lang/Double/Double.cpp | 2 +-
 library/Java/Lang/Float/Float.cpp   | 4 ++--
 library/Java/Lang/Short/Short.cpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index ffea6bb..e9b3718 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -63,7 +63,7 @@ Double::~Double() {
 }
 
 Double Double::parseDouble(String target) {
-    double result;
+    double result = 0;
     sscanf(target.toCharPointer(), "%lg", &result);
     return result;
 }
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index e891b0a..30d2c71 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -112,7 +112,7 @@ boolean Float::operator||(const Float &target) const {
 Float& Float::operator=(const Float &target) {
     this->original = target.original;
     free(this->originalString);
-    asprintf(&this->originalString, "%f", this->original);
+    asprintf(&this->originalString, "%g", this->original);
     return *this;
 }
 
@@ -161,7 +161,7 @@ String Float::toString() const {
 }
 
 Float Float::parseFloat(String inputString) {
-    float result;
+    float result = 0;
     sscanf(inputString.toCharPointer(), "%g", &result);
     return (Float)result;
 }
diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 4a1b90e..2f95367 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -72,7 +72,7 @@ Short::~Short() {
  * @return short
  */
 Short Short::parseShort(String target) {
-    short result;
+    short result = 0;
     sscanf(target.toCharPointer(), "%hi", &result);
 	return (Short) result;
 }
-- 
2.43.0


From e551d2d112b15213d1d3c51e07466c14db3b3a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 29/58] fix: Long::parseLong with radix 0 killed the program

---
 library/Java/Lang/Long/Long.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index e35518c..3eba2c7 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -371,6 +371,10 @@ long Long::parseLong(String s, int radix) {
 	long multmin;
 	int digit;
 	
+	if (radix < 2 || radix > 36) {
+		return -1;
+	}
+
 	if (length > 0) {
 		char firstChar = s.charAt(0);
 		if (firstChar < '0') { // Possible leading "+" or "-"
-- 
2.43.0


From cc2a91bdf55c356e123063d74fb8616ed9a34e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 30/58] fix: Long bit operations (reverse, reverseBytes,
 rotate, signum, highestOneBit, octal text) were wrong or unimplemented

---
 library/Java/Lang/Long/Long.cpp | 44 +++++++++++++++------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 3eba2c7..9e101e7 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -259,13 +259,14 @@ int Long::hashCode() {
  * @return long
  */
 long Long::highestOneBit(long i) {
-	i |= ( i >> 1 );
-	i |= ( i >> 2 );
-	i |= ( i >> 4 );
-	i |= ( i >> 8 );
-	i |= ( i >> 16 );
-	i |= ( i >> 32 );
-	return ( i - ( i >> 1 ));
+	unsigned long bits = (unsigned long) i;
+	bits |= ( bits >> 1 );
+	bits |= ( bits >> 2 );
+	bits |= ( bits >> 4 );
+	bits |= ( bits >> 8 );
+	bits |= ( bits >> 16 );
+	bits |= ( bits >> 32 );
+	return (long) ( bits - ( bits >> 1 ));
 }
 
 /**
@@ -427,16 +428,11 @@ long Long::parseLong(String s, int radix) {
  * @return long
  */
 long Long::reverse(long i) {
-	return i;
-	/*
-	i = ( i & 0x5555555555555555L ) << 1 | ( i >> 1 ) & 0x5555555555555555L;
-	i = ( i & 0x3333333333333333L ) << 2 | ( i >> 2 ) & 0x3333333333333333L;
-	i = ( i & 0x0f0f0f0f0f0f0f0fL ) << 4 | ( i >> 4 ) & 0x0f0f0f0f0f0f0f0fL;
-	i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	i = ( i << 48 ) | (( i & 0xffff0000L ) << 16 ) |
-	    (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 );
-	return i;
-	 */
+	unsigned long bits = (unsigned long) i;
+	bits = ( bits & 0x5555555555555555UL ) << 1 | (( bits >> 1 ) & 0x5555555555555555UL );
+	bits = ( bits & 0x3333333333333333UL ) << 2 | (( bits >> 2 ) & 0x3333333333333333UL );
+	bits = ( bits & 0x0f0f0f0f0f0f0f0fUL ) << 4 | (( bits >> 4 ) & 0x0f0f0f0f0f0f0f0fUL );
+	return reverseBytes((long) bits);
 }
 
 /**
@@ -447,9 +443,9 @@ long Long::reverse(long i) {
  * @return long
  */
 long Long::reverseBytes(long i) {
-	return i;
-	//i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	//return (( i << 48 ) | (( i & 0xffff0000L ) << 16 ) | (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 ));
+	unsigned long bits = (unsigned long) i;
+	bits = ( bits & 0x00ff00ff00ff00ffUL ) << 8 | (( bits >> 8 ) & 0x00ff00ff00ff00ffUL );
+	return (long) (( bits << 48 ) | (( bits & 0xffff0000UL ) << 16 ) | (( bits >> 16 ) & 0xffff0000UL ) | ( bits >> 48 ));
 }
 
 /**
@@ -461,7 +457,7 @@ long Long::reverseBytes(long i) {
  * @return long
  */
 long Long::rotateLeft(long i, int distance) {
-	return (( i << distance ) | ( i >> -distance ));
+	return (long) (((unsigned long) i << ( distance & 63 )) | ((unsigned long) i >> ( -distance & 63 )));
 }
 
 /**
@@ -473,7 +469,7 @@ long Long::rotateLeft(long i, int distance) {
  * @return long
  */
 long Long::rotateRight(long i, int distance) {
-	return (( i >> distance ) | ( i << -distance ));
+	return (long) (((unsigned long) i >> ( distance & 63 )) | ((unsigned long) i << ( -distance & 63 )));
 }
 
 /**
@@ -492,7 +488,7 @@ short Long::shortValue() const {
  * @return int
  */
 int Long::signum(long i) {
-	return (int) (( i >> 63 ) | ( -i >> 63 ));
+	return (int) (( i >> 63 ) | (long) (( 0 - (unsigned long) i ) >> 63 ));
 }
 
 /**
@@ -610,7 +606,7 @@ int Long::formatUnsignedLong(long val, int shift, Array<char> &buf, int offset,
 	
 	do {
 		buf[ offset + --charPos ] = digits[ ((int) val ) & mask ];
-		val >>= shift;
+		val = (long) ((unsigned long) val >> shift );
 	} while (val != 0 && charPos > 0);
 	
 	return charPos;
-- 
2.43.0


From 68238dce4090656564a2d503cffbcf5eea8f55a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 31/58] fix: Integer rotations shifted by out-of-range
 distances

---
 library/Java/Lang/Integer/Integer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 2e0e9c0..9f9517a 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -483,12 +483,12 @@ int Integer::reverseBytes(int inputInt) {
 }
 
 int Integer::rotateLeft(int inputInt, int distance) {
-	inputInt = ( inputInt << distance ) | ((unsigned int) inputInt >> -distance );
+	inputInt = ((unsigned int) inputInt << ( distance & 31 )) | ((unsigned int) inputInt >> ( -distance & 31 ));
 	return inputInt;
 }
 
 int Integer::rotateRight(int inputInt, int distance) {
-	return ((unsigned int) inputInt >> distance ) | ( inputInt << -distance );
+	return ((unsigned int) inputInt >> ( distance & 31 )) | ((unsigned int) inputInt << ( -distance & 31 ));
 }
 
 String Integer::toString() const {
-- 
2.43.0


From b12efc7bf52ba24dcf8be610d41b054f0039e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 32/58] fix: Math::multiplyExact and toIntExact returned
 wrapped values for negative or large products

---
 library/Java/Lang/Math/Math.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 849b9a3..0448de8 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -293,26 +293,16 @@ double Math::min(double valueA, double valueB) {
 
 int Math::multiplyExact(int valueA, int valueB) {
 	long result = (long) valueA * (long) valueB;
-	if (result -  (int) result > 0) {
+	if (result != (int) result) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) result;
 }
 
 long Math::multiplyExact(long valueA, long valueB) {
-	if (valueA == Long::MIN_VALUE && valueB == -1) {
+	long result;
+	if (__builtin_mul_overflow(valueA, valueB, &result)) {
 		throw ArithmeticException("long overflow");
-		
-	}
-	
-	long result = valueA * valueB;
-	unsigned long absA = (unsigned) abs(valueA);
-	unsigned long absB = (unsigned) abs(valueB);
-	
-	if (((absA | absB) >> 31) != 0) {
-		if ((valueB != 0) && (result / valueB != valueA)) {
-			throw ArithmeticException("long overflow");
-		}
 	}
 	return result;
 }
@@ -487,7 +477,7 @@ double Math::toDegrees(double angleRadian) {
 }
 
 int Math::toIntExact(long value) {
-	if (value - (int) value > 0) {
+	if (value != (int) value) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) value;
-- 
2.43.0


From 5a572c0980c3f03eb52d431267e25cc57ea91e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 33/58] fix: assigning a StringBuilder shared its buffer and
 freed it twice

---
 .../Java/Lang/StringBuilder/StringBuilder.cpp    | 16 ++++++++++++++++
 .../Java/Lang/StringBuilder/StringBuilder.hpp    |  8 ++++++++
 2 files changed, 24 insertions(+)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 3f793ab..7c1e953 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -77,6 +77,22 @@ StringBuilder::~StringBuilder() {
 	free(original);
 }
 
+StringBuilder &StringBuilder::operator=(const StringBuilder &target) {
+	if (this == &target) {
+		return *this;
+	}
+	string copyOfOriginal = (string) calloc((size_t) target.currentCapacity, sizeof(char));
+	int index;
+	for (index = 0; index < target.currentLength; index++) {
+		copyOfOriginal[ index ] = target.original[ index ];
+	}
+	free(this->original);
+	this->original = copyOfOriginal;
+	this->currentLength = target.currentLength;
+	this->currentCapacity = target.currentCapacity;
+	return *this;
+}
+
 StringBuilder &StringBuilder::append(Boolean target) {
 	return this->append(target.toString());
 }
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 3c6185d..e110b82 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -102,6 +102,14 @@ namespace Java {
 						 * StringBuilder Destructor
 						 */
                         virtual ~StringBuilder();
+
+                        /**
+						 * Assign the characters of another string builder to this string builder.
+						 *
+						 * @param target
+						 * @return StringBuilder
+						 */
+                        StringBuilder &operator=(const StringBuilder &target);
                 
                 public:
                         /**
-- 
2.43.0


From 706b8a0c484320774717e4ec2942ff0d5c572d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 34/58] fix: copying a MessageDigest shared its engine and
 deleted it twice

---
 .../MessageDigest/MD5MessageDigest.cpp        |  4 ++++
 .../MessageDigest/MD5MessageDigest.hpp        |  2 ++
 .../Security/MessageDigest/MessageDigest.cpp  | 23 +++++++++++++++++++
 .../Security/MessageDigest/MessageDigest.hpp  |  6 +++++
 .../MessageDigest/MessageDigestSpi.hpp        |  2 ++
 .../MessageDigest/SHA1MessageDigest.cpp       |  4 ++++
 .../MessageDigest/SHA1MessageDigest.hpp       |  2 ++
 7 files changed, 43 insertions(+)

diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
index 0ed6720..f7a0271 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
@@ -36,6 +36,10 @@ MD5MessageDigest::~MD5MessageDigest() {
 
 }
 
+MessageDigestSpi *MD5MessageDigest::engineClone() const {
+    return new MD5MessageDigest(*this);
+}
+
 int MD5MessageDigest::engineDigest(byte *buffer, int len) {
     if (len < engineGetDigestLength()) {
         return 0;
diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.hpp b/library/Java/Security/MessageDigest/MD5MessageDigest.hpp
index 18ab9e7..3d1d374 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.hpp
@@ -38,6 +38,8 @@ namespace Java {
 
             ~MD5MessageDigest();
 
+            MessageDigestSpi *engineClone() const override;
+
             int engineDigest(byte *buffer, int len) override;
 
             int engineGetDigestLength() override;
diff --git a/library/Java/Security/MessageDigest/MessageDigest.cpp b/library/Java/Security/MessageDigest/MessageDigest.cpp
index ef3f712..b964f7d 100644
--- a/library/Java/Security/MessageDigest/MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MessageDigest.cpp
@@ -44,12 +44,28 @@ MessageDigest MessageDigest::getInstance(const String &algorithm) {
     throw NoSuchAlgorithmException(algorithm + (string) " not found");
 }
 
+MessageDigest::MessageDigest(const MessageDigest &target) {
+    this->spi = target.engineClone();
+    this->algorithm = target.algorithm;
+}
+
 MessageDigest::~MessageDigest() {
     if (spi) {
         delete spi;
     }
 }
 
+MessageDigest &MessageDigest::operator=(const MessageDigest &target) {
+    if (this == &target) {
+        return *this;
+    }
+    MessageDigestSpi *copyOfSpi = target.engineClone();
+    delete this->spi;
+    this->spi = copyOfSpi;
+    this->algorithm = target.algorithm;
+    return *this;
+}
+
 String MessageDigest::getAlgorithm() {
     return algorithm;
 }
@@ -84,6 +100,13 @@ MessageDigest::MessageDigest(MessageDigestSpi *spi, const String &algorithm) {
     this->algorithm = algorithm;
 }
 
+MessageDigestSpi *MessageDigest::engineClone() const {
+    if (spi) {
+        return spi->engineClone();
+    }
+    return nullptr;
+}
+
 int MessageDigest::engineDigest(byte buffer[], int len) {
     if (spi) {
         return spi->engineDigest(buffer, len);
diff --git a/library/Java/Security/MessageDigest/MessageDigest.hpp b/library/Java/Security/MessageDigest/MessageDigest.hpp
index 6d27ca5..e20be74 100644
--- a/library/Java/Security/MessageDigest/MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/MessageDigest.hpp
@@ -38,8 +38,12 @@ namespace Java {
         public:
             static MessageDigest getInstance(const String &algorithm);
 
+            MessageDigest(const MessageDigest &target);
+
             ~MessageDigest();
 
+            MessageDigest &operator=(const MessageDigest &target);
+
             String getAlgorithm();
 
             int getDigestLength();
@@ -56,6 +60,8 @@ namespace Java {
 
             MessageDigest(MessageDigestSpi* spi, const String &algorithm);
 
+            MessageDigestSpi *engineClone() const override;
+
             int engineDigest(byte buffer[], int len) override;
 
             int engineGetDigestLength() override;
diff --git a/library/Java/Security/MessageDigest/MessageDigestSpi.hpp b/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
index 635345f..935a189 100644
--- a/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
+++ b/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
@@ -33,6 +33,8 @@ namespace Java {
     namespace Security {
         class MessageDigestSpi : public Object {
         public:
+            virtual ~MessageDigestSpi() {}
+            virtual MessageDigestSpi *engineClone() const = 0;
             virtual int engineDigest(byte buffer[], int len) = 0;
             virtual int engineGetDigestLength() = 0;
             virtual void engineReset() = 0;
diff --git a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
index 1c2f41c..69c74c1 100644
--- a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
@@ -14,6 +14,10 @@ SHA1MessageDigest::~SHA1MessageDigest() {
 
 }
 
+MessageDigestSpi *SHA1MessageDigest::engineClone() const {
+    return new SHA1MessageDigest(*this);
+}
+
 int SHA1MessageDigest::engineDigest(byte *buffer, int len) {
     if (len < engineGetDigestLength()) {
         return 0;
diff --git a/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp b/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp
index df94783..1d23f81 100644
--- a/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp
@@ -37,6 +37,8 @@ namespace Java {
 
             ~SHA1MessageDigest();
 
+            MessageDigestSpi *engineClone() const override;
+
             int engineDigest(byte *buffer, int len) override;
 
             int engineGetDigestLength() override;
-- 
2.43.0


From 8d5e3104cdfd4b05679ddb515b6fcc3df8ab50c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 35/58] fix: assigning a BitSet whose text had been asked for
 freed that text twice

---
 library/Java/Util/BitSet/BitSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index 22e6d5c..6d22019 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -114,6 +114,7 @@ void BitSet::trimToSize() {
 void BitSet::cleanUp() {
     if (this->backupForToString != nullptr) {
         free(this->backupForToString);
+        this->backupForToString = nullptr;
     }
 }
 
-- 
2.43.0


From 6a13d5907ae2bdb2f4581f353165e919e4edd832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 36/58] fix: URL::toString leaked a copy of its result

---
 library/Java/Net/URL/URL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Net/URL/URL.cpp b/library/Java/Net/URL/URL.cpp
index d51ffaf..3c2d8b7 100755
--- a/library/Java/Net/URL/URL.cpp
+++ b/library/Java/Net/URL/URL.cpp
@@ -113,6 +113,6 @@ String URL::toString() const {
 	
 	url += query;
 
-	return stringCopy(url.toCharPointer());
+	return url;
 }
 
-- 
2.43.0


From 3016c53d2fea095823b502ca7d4e5a87eab39bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 37/58] fix: a copied Random forgot the pending gaussian number
 and continued differently

---
 library/Java/Util/Random/Random.cpp | 2 ++
 library/Java/Util/Random/Random.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index f92defb..1b967d4 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -115,6 +115,8 @@ void Random::resetSeed(long seedVal) {
  */
 Random::Random(const Random &other) {
 	this->seed.store(other.seed.load());
+	this->haveNextGaussianNumber = other.haveNextGaussianNumber;
+	this->nextGaussianNumber = other.nextGaussianNumber;
 }
 
 /**
diff --git a/library/Java/Util/Random/Random.hpp b/library/Java/Util/Random/Random.hpp
index 6a954d2..f38554e 100755
--- a/library/Java/Util/Random/Random.hpp
+++ b/library/Java/Util/Random/Random.hpp
@@ -44,7 +44,7 @@ namespace Java {
 						static const long MASK = (1L << 48 ) - 1;
 						static constexpr double DOUBLE_UNIT = 1.0 / ( 1L << 53 );
 						boolean haveNextGaussianNumber = false;
-						double nextGaussianNumber;
+						double nextGaussianNumber = 0;
 						//static long seedOffset;
 				
 				public:
-- 
2.43.0


From 3a4ebfe1526fa8dbd0647b6f4f77cab44df2e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 38/58] fix: assigning a Vector did not carry over its capacity
 increment

---
 library/Java/Util/Vector/Vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index a873870..f8f3171 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -900,6 +900,7 @@ namespace Java {
                     return *this;
                 }
                 this->clear();
+                this->capacityIncrement = target.capacityIncrement;
                 this->ensureCapacity(target.size());
                 const E *targetData = target.original.data();
                 int index;
-- 
2.43.0


From 3538e4567689e4b55498b4104c88395ad19ecdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 39/58] fix: UUID::variant shifted by more than the width and
 returned garbage

---
 library/Java/Util/UUID/UUID.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index d904e20..a8326a4 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -215,7 +215,11 @@ String UUID::toString() const {
  * @return int
  */
 int UUID::variant() const {
-	return (int) (( this->leastSigBits >> ( 64 - ( this->leastSigBits >> 62 ))) & ( this->leastSigBits >> 63 ));
+	unsigned long bits = (unsigned long) this->leastSigBits;
+	if (( bits >> 63 ) == 0 ) {
+		return 0;
+	}
+	return (int) ( bits >> ( 64 - ( bits >> 62 )));
 }
 
 /**
-- 
2.43.0


From d1bcab4deb7dd73dfa4b3b32c3eb73b63cf82d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 40/58] fix: the hash code of a String that was modified stayed
 that of its old text

---
 library/Java/Lang/String/String.cpp | 9 +++------
 library/Java/Lang/String/String.hpp | 1 -
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 1a16a27..a5d5cae 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -594,12 +594,9 @@ boolean String::equalsIgnoreCase(const String &anotherString) const {
 }
 
 long String::hashCode() const {
-	int hashCode = this->hash;
-	if (hashCode == 0 && this->original.size() > 0) {
-		for (int i = 0; i < this->original.size(); i++) {
-			hashCode = 31 * hashCode + this->original[i];
-		}
-		this->hash = hashCode;
+	int hashCode = 0;
+	for (int i = 0; i < this->original.size(); i++) {
+		hashCode = 31 * hashCode + this->original[i];
 	}
 	return hashCode;
 }
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 2cae6e0..91da0b6 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -96,7 +96,6 @@ namespace Java {
 
         private:
             std::string original;
-            mutable int hash = 0;
 
         public:
             /**
-- 
2.43.0


From f0e46aaab72ec1e7502f271e483d043c33f5cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 41/58] fix: a Double made without a value printed differently
 from one assigned 0

---
 library/Java/Lang/Double/Double.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index e9b3718..231f674 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -28,9 +28,7 @@
 
 using namespace Java::Lang;
 
-Double::Double() {
-    this->original = 0;
-    asprintf(&this->originalString, "%lg", this->original);
+Double::Double() : Double(0.0) {
 }
 
 Double::Double(double original) {
-- 
2.43.0


From 4b2873d0dc3051233f515625d8c75f86c0d4e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 42/58] fix: String::replaceFirst threw when the match ended
 the text, and cut the text when nothing matched

---
 library/Java/Lang/String/String.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index a5d5cae..065ef2e 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -672,11 +672,11 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 
 String String::replaceFirst(const String &regex, const String &replacement) const {
 	// TODO (anhnt) fix this later, temporary, need Pattern
-	int stringWithFirstRegexLength = this->indexOf(regex) + regex.length();
-	String stringWithFirstRegex = this->subString(0, stringWithFirstRegexLength);
-	String remainString = this->getStringFromIndex(stringWithFirstRegexLength);
-	stringWithFirstRegex = stringWithFirstRegex.replace(regex, replacement);
-	return stringWithFirstRegex + remainString;
+	int indexOfRegex = this->indexOf(regex);
+	if (indexOfRegex < 0) {
+		return *this;
+	}
+	return this->subString(0, indexOfRegex) + replacement + this->subString(indexOfRegex + regex.length());
 }
 
 Array<String> String::split(const String &regex, int limit) const {
-- 
2.43.0


From 116fd63672cf24bd5659e5c45af5803d5a3e199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 43/58] fix: String::charAt and getStringFromIndex accepted any
 position of an empty text

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 065ef2e..1ec68af 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -164,7 +164,7 @@ String String::clone() {
 }
 
 char String::charAt(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= this->length()) {
 		throw StringIndexOutOfBoundsException("String index out of range");
 	}
 	return (this->original[index]);
@@ -210,7 +210,7 @@ Array<byte> String::getBytes() const {
 }
 
 String String::getStringFromIndex(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= this->length()) {
 		throw StringIndexOutOfBoundsException(index);
 	}
 	return this->original.substr(index);
-- 
2.43.0


From 63ad8d666a34e8cdbbbe2787e2b2a2596a970655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 44/58] fix: String::operator[] read and wrote outside the text

---
 library/Java/Lang/String/String.cpp | 14 ++++++++++++++
 library/Java/Lang/String/String.hpp |  8 ++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 1ec68af..03a437e 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -163,6 +163,20 @@ String String::clone() {
 	return this->original;
 }
 
+char &String::operator[](const int index) {
+	if (index < 0 || index > this->length()) {
+		throw StringIndexOutOfBoundsException(index);
+	}
+	return this->original[index];
+}
+
+const char &String::operator[](const int index) const {
+	if (index < 0 || index > this->length()) {
+		throw StringIndexOutOfBoundsException(index);
+	}
+	return this->original[index];
+}
+
 char String::charAt(int index) const {
 	if (index < 0 || index >= this->length()) {
 		throw StringIndexOutOfBoundsException("String index out of range");
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 91da0b6..626e804 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -299,9 +299,7 @@ namespace Java {
             * @param index
             * @return char
             */
-            inline char &operator[](const int index) {
-                return this->original[index];
-            }
+            char &operator[](const int index);
 
             /**
              * Return size of String
@@ -1133,9 +1131,7 @@ namespace Java {
              * @param index
              * @return char
              */
-            const char &operator[](const int index) const {
-                return this->original[index];
-            }
+            const char &operator[](const int index) const;
         
             inline size_t operator()(const String &target) const {
                 return std::hash<std::string>{}(target.toCharPointer());
-- 
2.43.0


From a4401299197eb9476d64506423a559b76da311c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:52 +0000
Subject: [PATCH 45/58] fix: StringBuffer::subString refused the empty rest at
 the end of the text

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index e074f89..4672fb0 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -618,8 +618,7 @@ String StringBufferUnSafe::subString(int start, int end) const {
         throw StringIndexOutOfBoundsException("start and end must be positive");
     }
 
-    if (start >= this->currentLength || end > this->currentLength ||
-        start > end) {
+    if (end > this->currentLength || start > end) {
         throw StringIndexOutOfBoundsException();
     }
 
-- 
2.43.0


From 36dc95a41e262827fb1601b1be36de1356637990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 46/58] fix: ArrayList::add dropped an element given with a
 position outside

---
 library/Java/Util/ArrayList/ArrayList.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 19815a4..0b8fa2c 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -155,7 +155,9 @@ namespace Java {
 			 */
 			void add(int index, const E element) {
 				if (index < 0 || index > this->size()) {
-					return;
+					String message = "Index out of range: ";
+					message += Integer(index).stringValue();
+					throw IndexOutOfBoundsException(message);
 				}
 				this->original.insert(this->original.begin() + index, element);
 			}
-- 
2.43.0


From cbc27e98bc0b24af747930e0f30a26052203aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:12 +0000
Subject: [PATCH 47/58] fix: LinkedList::remove reported a removal for a
 position outside

---
 library/Java/Util/LinkedList/LinkedList.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index ff30c94..a378e44 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -355,6 +355,9 @@ namespace Java {
                      * @return boolean
                      */
                     boolean remove(int index) {
+                        if (index < 0 || index >= this->size()) {
+                            throw IndexOutOfBoundsException("Index is out of bounds!");
+                        }
                         int pos = 0;
                         for (typename std::list<Node<E>*>::iterator it = this->original.begin(); it != this->original.end(); ++it) {
                             if (pos == index) {
-- 
2.43.0


From 0db99319e6614246b21cac202d93716e4e245a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 48/58] fix: Random::nextString wrote past its buffer

---
 library/Java/Util/Random/Random.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index 1b967d4..8ae1489 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -267,14 +267,12 @@ void Random::setSeed(long seed) {
  * @return
  */
 String Random::nextString(int length) {
-	char charArray[length];
+	std::string result;
 	int charListLength = 62;
 	int index;
 	for (index = 0; index < length; ++index) {
-		charArray[ index ] = CHAR_LIST[ nextInt(charListLength) ];
+		result += CHAR_LIST[ nextInt(charListLength) ];
 	}
-	charArray[ length ] = 0;
-	String result = &charArray[ 0 ];
 	return result;
 }
 
-- 
2.43.0


From d6cedad2fffc42faec308d489659ee8a416c4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 49/58] fix: an ArrayList of negative size threw no exception
 of the library

---
 library/Java/Util/ArrayList/ArrayList.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 0b8fa2c..bda352d 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -41,6 +41,7 @@
 #include "../function/UnaryOperator/UnaryOperator.hpp"
 #include "../../Lang/String/String.hpp"
 #include "../../Lang/IndexOutOfBoundsException/IndexOutOfBoundsException.hpp"
+#include "../../Lang/IllegalArgumentException/IllegalArgumentException.hpp"
 #include <initializer_list>
 #include <iostream>
 
@@ -124,6 +125,9 @@ namespace Java {
 			 * @param initialCapacity
 			 */
 			ArrayList(int initialCapacity) {
+				if (initialCapacity < 0) {
+					throw IllegalArgumentException("Illegal capacity");
+				}
 				this->original.resize(initialCapacity);
 			}
 
-- 
2.43.0


From 41941d09201dd8b26b7dcdcd19e2d30cc1334662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:33 +0000
Subject: [PATCH 50/58] fix: give every member of URL, URLConnection and UUID a
 value from the start

---
 .../Java/Net/HttpURLConnection/HttpURLConnection.hpp |  2 +-
 library/Java/Net/URL/URL.hpp                         | 12 ++++++------
 library/Java/Util/UUID/UUID.hpp                      |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp b/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp
index eeaf7dc..c032788 100755
--- a/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp
+++ b/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp
@@ -214,7 +214,7 @@ namespace Java {
 						static const int HTTP_VERSION = 505;
 				protected:
 					String method = "GET";
-					int responseCode;
+					int responseCode = -1;
 					String responseMessage;
 
 					HttpURLConnection(URL url);
diff --git a/library/Java/Net/URL/URL.hpp b/library/Java/Net/URL/URL.hpp
index 8021364..9877a71 100755
--- a/library/Java/Net/URL/URL.hpp
+++ b/library/Java/Net/URL/URL.hpp
@@ -45,7 +45,7 @@ namespace Java {
 				private:
 						String protocol;
 						String host;
-						int port;
+						int port = -1;
 						String path;
 						String query;
 				public:
@@ -66,16 +66,16 @@ namespace Java {
 				
 				class URLConnection : public Object {
 				private:
-						int connectTimeout;
-						int readTimeout;
+						int connectTimeout = 0;
+						int readTimeout = 0;
 				protected:
 						URL url;
 						boolean doInput = true;
 						boolean doOutput = false;
 						boolean connected = false;
-						long ifModifiedSince;
-						boolean allowUserInteraction;
-						boolean useCaches;
+						long ifModifiedSince = 0;
+						boolean allowUserInteraction = false;
+						boolean useCaches = true;
 				public:
 						URLConnection();
 						URLConnection(URL url);
diff --git a/library/Java/Util/UUID/UUID.hpp b/library/Java/Util/UUID/UUID.hpp
index 6894931..b7e80cc 100755
--- a/library/Java/Util/UUID/UUID.hpp
+++ b/library/Java/Util/UUID/UUID.hpp
@@ -44,7 +44,7 @@ namespace Java {
 				private:
 						long mostSigBits;
 						long leastSigBits;
-						long timestamp;
+						long timestamp = 0;
 				
 				private:
 						/**
-- 
2.43.0


From c80228d38386f7d4b287e02b9f7f9bced665868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:51 +0000
Subject: [PATCH 51/58] fix: Random::nextBytes appended to the array instead of
 filling it

---
 library/Java/Util/Random/Random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index 8ae1489..2a09af8 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -193,7 +193,7 @@ void Random::nextBytes(Array<byte> *bytes) {
 		int randomNumber = nextInt();
 		//TODO change to BYTE::SIZE
 		randomNumber >>= 8;
-		bytes->push((byte) randomNumber);
+		( *bytes )[ index ] = (byte) randomNumber;
 	}
 }
 
-- 
2.43.0


From fdf5918df75cd10b404c09d4cd0a16c5b57579eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:51 +0000
Subject: [PATCH 52/58] fix: the MediaType::..._TYPE constants were declared
 but other objects of these names were defined

---
 library/Javax/Ws/Rs/Core/MediaType.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/library/Javax/Ws/Rs/Core/MediaType.cpp b/library/Javax/Ws/Rs/Core/MediaType.cpp
index 43748a5..a8ea03a 100644
--- a/library/Javax/Ws/Rs/Core/MediaType.cpp
+++ b/library/Javax/Ws/Rs/Core/MediaType.cpp
@@ -46,18 +46,18 @@ const String MediaType::TEXT_PLAIN                    = "text/plain";
 const String MediaType::TEXT_XML                      = "text/xml";
 const String MediaType::WILDCARD                      = "*/*";
 
-const MediaType APPLICATION_ATOM_XML_TYPE             = MediaType("application","atom+xml");
-const MediaType APPLICATION_FORM_URLENCODED_TYPE      = MediaType("application","x-www-form-urlencoded");
-const MediaType APPLICATION_JSON_TYPE                 = MediaType("application","json");
-const MediaType APPLICATION_OCTET_STREAM_TYPE         = MediaType("application","octet-stream");
-const MediaType APPLICATION_SVG_XML_TYPE              = MediaType("application","svg+xml");
-const MediaType APPLICATION_XHTML_XML_TYPE            = MediaType("application","xhtml+xml");
-const MediaType APPLICATION_XML_TYPE                  = MediaType("application","xml");
-const MediaType MULTIPART_FORM_DATA_TYPE              = MediaType("multipart","form-data");
-const MediaType TEXT_HTML_TYPE                        = MediaType("text","html");
-const MediaType TEXT_PLAIN_TYPE                       = MediaType("text","plain");
-const MediaType TEXT_XML_TYPE                         = MediaType("text","xml");
-const MediaType WILDCARD_TYPE                         = MediaType();
+const MediaType MediaType::APPLICATION_ATOM_XML_TYPE             = MediaType("application","atom+xml");
+const MediaType MediaType::APPLICATION_FORM_URLENCODED_TYPE      = MediaType("application","x-www-form-urlencoded");
+const MediaType MediaType::APPLICATION_JSON_TYPE                 = MediaType("application","json");
+const MediaType MediaType::APPLICATION_OCTET_STREAM_TYPE         = MediaType("application","octet-stream");
+const MediaType MediaType::APPLICATION_SVG_XML_TYPE              = MediaType("application","svg+xml");
+const MediaType MediaType::APPLICATION_XHTML_XML_TYPE            = MediaType("application","xhtml+xml");
+const MediaType MediaType::APPLICATION_XML_TYPE                  = MediaType("application","xml");
+const MediaType MediaType::MULTIPART_FORM_DATA_TYPE              = MediaType("multipart","form-data");
+const MediaType MediaType::TEXT_HTML_TYPE                        = MediaType("text","html");
+const MediaType MediaType::TEXT_PLAIN_TYPE                       = MediaType("text","plain");
+const MediaType MediaType::TEXT_XML_TYPE                         = MediaType("text","xml");
+const MediaType MediaType::WILDCARD_TYPE                         = MediaType();
 
 MediaType::MediaType() {
     this->type = MEDIA_TYPE_WILDCARD;
-- 
2.43.0


From 4c9879c63401a54f954aab7585923462fe8dbb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:11 +0000
Subject: [PATCH 53/58] fix: define the constructors of Spliterator and
 AbstractCollection that were only declared

---
 library/Java/Util/AbstractCollection/AbstractCollection.hpp | 4 ++--
 library/Java/Util/Spliterator/Spliterator.hpp               | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/AbstractCollection/AbstractCollection.hpp b/library/Java/Util/AbstractCollection/AbstractCollection.hpp
index 28c6257..a21cb3e 100755
--- a/library/Java/Util/AbstractCollection/AbstractCollection.hpp
+++ b/library/Java/Util/AbstractCollection/AbstractCollection.hpp
@@ -39,8 +39,8 @@ namespace Java {
 							public virtual Object,
 							public virtual Collection<E> {
 				public:
-						AbstractCollection();
-						virtual ~AbstractCollection();
+						AbstractCollection() = default;
+						virtual ~AbstractCollection() = default;
 				};
 		}
 }
diff --git a/library/Java/Util/Spliterator/Spliterator.hpp b/library/Java/Util/Spliterator/Spliterator.hpp
index be90a05..c509f7c 100644
--- a/library/Java/Util/Spliterator/Spliterator.hpp
+++ b/library/Java/Util/Spliterator/Spliterator.hpp
@@ -32,7 +32,7 @@ namespace Java {
 				template <typename E>
 				class Spliterator {
 				public:
-						Spliterator();
+						Spliterator() = default;
 				};
 		}
 }
-- 
2.43.0


From 2b8ae5a94a352d46eac7df8cc8a165ffc5c635aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:14 +0000
Subject: [PATCH 54/58] fix: define the destructor of HttpURLConnection,
 without which no subclass links

---
 library/Java/Net/HttpURLConnection/HttpURLConnection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp b/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp
index c032788..cab157b 100755
--- a/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp
+++ b/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp
@@ -218,7 +218,7 @@ namespace Java {
 					String responseMessage;
 
 					HttpURLConnection(URL url);
-						~HttpURLConnection();
+						~HttpURLConnection() = default;
 				
 				public:
 						virtual void disconnect() = 0;
-- 
2.43.0


From e490df521f6975354cbf6f47005997fd21659647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 55/58] fix: define the compound assignments of Short that were
 only declared

---
 library/Java/Lang/Short/Short.cpp | 45 +++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 2f95367..7e616b7 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -213,6 +213,51 @@ Short Short::operator%(const Short &target) {
 	return (this->original % target.original);
 }
 
+/**
+ * Add target, in place
+ *
+ * @param target
+ */
+void Short::operator+=(const Short &target) {
+	*this = *this + target;
+}
+
+/**
+ * Subtract target, in place
+ *
+ * @param target
+ */
+void Short::operator-=(const Short &target) {
+	*this = *this - target;
+}
+
+/**
+ * Multiply by target, in place
+ *
+ * @param target
+ */
+void Short::operator*=(const Short &target) {
+	*this = *this * target;
+}
+
+/**
+ * Divide by target, in place
+ *
+ * @param target
+ */
+void Short::operator/=(const Short &target) {
+	*this = *this / target;
+}
+
+/**
+ * Keep the remainder of a division by target, in place
+ *
+ * @param target
+ */
+void Short::operator%=(const Short &target) {
+	*this = *this % target;
+}
+
 /**
  * Compare this Long is equal target
  *
-- 
2.43.0


From 3750c250b75e830b20612c08b3ab4dcb16c4b76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:23 +0000
Subject: [PATCH 56/58] fix: define Throwable::toString,
 Double::toString(double), Object::getClass and finalize, which were only
 declared

---
 library/Java/Lang/Double/Double.cpp       |  7 +++----
 library/Java/Lang/Object/Object.hpp       | 10 ++++++----
 library/Java/Lang/Throwable/Throwable.cpp | 14 ++++++++++++++
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 231f674..15a7071 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -70,10 +70,9 @@ String Double::toString() const {
     return this->originalString;
 }
 
-// TODO(thoangminh): waiting for FloatingDecimal.toJavaFormatString()
-// String Double::toString(double d) {
-//    return FloatingDecimal.toJavaFormatString(d);
-//}
+String Double::toString(double d) {
+    return Double(d).toString();
+}
 
 char Double::charValue() const {
     int precision = 15;
diff --git a/library/Java/Lang/Object/Object.hpp b/library/Java/Lang/Object/Object.hpp
index b000b8c..2e9047a 100755
--- a/library/Java/Lang/Object/Object.hpp
+++ b/library/Java/Lang/Object/Object.hpp
@@ -49,8 +49,8 @@ namespace Java {
 				template <typename E>
 				class Class {
 				public:
-						Class();
-						~Class();
+						Class() = default;
+						~Class() = default;
 				};
 				
 				class Object {
@@ -78,7 +78,9 @@ namespace Java {
 						*         <cite>The Java&trade; Language Specification</cite>.
 						*/
 						template <class T>
-						Class<T> getClass();
+						Class<T> getClass() {
+							return Class<T>();
+						}
 						
 						/**
 					     * Returns a hash code value for the object. This method is
@@ -284,7 +286,7 @@ namespace Java {
 					     *
 					     * @throws Throwable the {@code Exception} raised by this method
 					     */
-						void finalize();
+						void finalize() {}
 				
 				public:
 						
diff --git a/library/Java/Lang/Throwable/Throwable.cpp b/library/Java/Lang/Throwable/Throwable.cpp
index 10af6bc..dc71fac 100644
--- a/library/Java/Lang/Throwable/Throwable.cpp
+++ b/library/Java/Lang/Throwable/Throwable.cpp
@@ -26,6 +26,8 @@
 
 #include "Throwable.hpp"
 #include "../../Lang.hpp"
+#include <cxxabi.h>
+#include <typeinfo>
 
 using namespace Java::Lang;
 
@@ -53,6 +55,18 @@ String Throwable::getMessage() {
 	return this->message;
 }
 
+String Throwable::toString() {
+	int status = 0;
+	char *const readable = abi::__cxa_demangle(typeid(*this).name(), nullptr, nullptr, &status);
+	String description = readable != nullptr ? readable : typeid(*this).name();
+	free(readable);
+	if (!this->message.isEmpty()) {
+		description += ": ";
+		description += this->message;
+	}
+	return description;
+}
+
 Throwable* Throwable::getCause() {
     return this->cause;
 }
\ No newline at end of file
-- 
2.43.0


From ed03be7f46b7ea6e258153cb8e87f24f4efe5387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:43 +0000
Subject: [PATCH 57/58] fix: copying a ConcurrentHashMap read its elements
 without a lock, a data race with any concurrent change

---
 .../Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 72edac0..b5d9c13 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -64,7 +64,10 @@ namespace Java {
                  * 					are to be placed in this map
                  */
                 ConcurrentHashMap(const ConcurrentHashMap <K, V> &target) {
-                    original = target.original;
+                    auto table = const_cast<libcuckoo::cuckoohash_map<K, V> &>(target.original).lock_table();
+                    for (auto entry = table.begin(); entry != table.end(); ++entry) {
+                        original.insert((*entry).first, (*entry).second);
+                    }
                 }
 
                 /**
-- 
2.43.0


From 2355119c79eee104173d15c95b8484329902a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 58/58] fix: String::split and String::replace looped forever
 on an empty target

---
 library/Java/Lang/String/String.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 03a437e..76e26ad 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -409,6 +409,16 @@ Array<String> String::split(const String &regex) const {
 	size_t pre = 0;
 	std::string targetString = regex.original;
 	std::string result;
+	if (targetString.empty()) {
+		// nothing separates the characters: each is a piece of its own
+		for (size_t index = 0; index < this->original.size(); index++) {
+			strings.push(String(std::string(1, this->original[index])));
+		}
+		if (this->original.empty()) {
+			strings.push(result);
+		}
+		return strings;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 
 		for (; pre < pos; pre++) {
@@ -670,6 +680,14 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 	std::string targetString = target.toString().original;
 	std::string replaceString = replacement.toString().original;
 	std::string result;
+	if (targetString.empty()) {
+		// the empty text is found before every character and at the end
+		for (size_t index = 0; index < this->original.size(); index++) {
+			result += replaceString;
+			result += this->original[index];
+		}
+		return result + replaceString;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 		for (; pre < pos; pre++) {
 			result += this->original[pre];
-- 
2.43.0

