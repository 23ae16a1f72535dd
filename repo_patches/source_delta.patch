From 788ce9b9981cbf93baf6f3db5dcb6ca0b76da407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 01/26] fix: linear and stack allocators refuse sizes whose
 padding would wrap around

---
 include/ktl/allocators/linear_allocator.h | 4 ++++
 include/ktl/allocators/stack_allocator.h  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 7d3508f..28bb411 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -74,6 +74,10 @@ namespace ktl
 		*/
 		void* allocate(size_t n) noexcept
 		{
+			// Anything larger can never fit, and would wrap around when padded
+			if (n > Size)
+				return nullptr;
+
 			size_t totalSize = n + detail::align_to_architecture(n);
 
 			if ((size_t(m_Free - m_Data) + totalSize) > Size)
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index 324b489..2fe18d3 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -62,6 +62,10 @@ namespace ktl
 #pragma region Allocation
 		void* allocate(size_t n) noexcept
 		{
+			// Anything larger can never fit, and would wrap around when padded
+			if (n > Size)
+				return nullptr;
+
 			size_t totalSize = n + detail::align_to_architecture(n);
 
 			if ((size_t(m_Block->Free - m_Block->Data) + totalSize) > Size)
-- 
2.43.0


From 3d9f42d2cb7c2056f8bbda116b9b9523d1e2e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 02/26] fix: pass alignment and size to posix_memalign in the
 right order

---
 include/ktl/utility/aligned_malloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 694f1df..37e0bcf 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -53,7 +53,7 @@ namespace ktl::detail
         return _mm_malloc(size, alignment);
 #elif KTL_HAS_POSIX_MEMALIGN
         void* res;
-        const int failed = posix_memalign(&res, size, alignment);
+        const int failed = posix_memalign(&res, alignment, size);
         if (failed) res = nullptr;
         return res;
 #elif defined(_MSC_VER)
-- 
2.43.0


From f2a493a1f8f9133323f8ee61f5440802cc110b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 03/26] fix: the portable aligned_malloc refuses sizes whose
 padding would wrap around

---
 include/ktl/utility/aligned_malloc.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 37e0bcf..b09ff96 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -60,6 +60,11 @@ namespace ktl::detail
         return _aligned_malloc(size, alignment);
 #else
         void* res = nullptr;
+
+        // The padding must not wrap the size around
+        if (size + alignment < size)
+            return res;
+
         void* ptr = malloc(size + alignment);
         if (ptr != nullptr)
         {
-- 
2.43.0


From b5649f9a98b56a6f497f93fb26d65356a1dce955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:00 +0000
Subject: [PATCH 04/26] fix: trivial_buffer iterators, data() and const access
 use the element type

---
 include/ktl/containers/trivial_buffer.h | 32 +++++++++++++++----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/ktl/containers/trivial_buffer.h b/include/ktl/containers/trivial_buffer.h
index 33ea2b9..3d074ba 100644
--- a/include/ktl/containers/trivial_buffer.h
+++ b/include/ktl/containers/trivial_buffer.h
@@ -89,24 +89,24 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		const T& operator[](size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		const T& operator[](size_t index) const noexcept { return reinterpret_cast<const T*>(m_Data)[index % Size]; }
 
 
-		iterator begin() noexcept { return m_Data; }
+		iterator begin() noexcept { return data(); }
 
-		const_iterator begin() const noexcept { return m_Data; }
+		const_iterator begin() const noexcept { return data(); }
 
-		iterator end() noexcept { return m_Data + Size; }
+		iterator end() noexcept { return data() + Size; }
 
-		const_iterator end() const noexcept { return m_Data + Size; }
+		const_iterator end() const noexcept { return data() + Size; }
 
-		std::reverse_iterator<T*> rbegin() noexcept { return std::reverse_iterator(m_Data + Size); }
+		std::reverse_iterator<T*> rbegin() noexcept { return std::reverse_iterator(data() + Size); }
 
-		std::reverse_iterator<const T*> rbegin() const noexcept { return std::reverse_iterator(m_Data + Size); }
+		std::reverse_iterator<const T*> rbegin() const noexcept { return std::reverse_iterator(data() + Size); }
 
-		std::reverse_iterator<T*> rend() noexcept { return std::reverse_iterator(m_Data); }
+		std::reverse_iterator<T*> rend() noexcept { return std::reverse_iterator(data()); }
 
-		std::reverse_iterator<const T*> rend() const noexcept { return std::reverse_iterator(m_Data); }
+		std::reverse_iterator<const T*> rend() const noexcept { return std::reverse_iterator(data()); }
 
 
 		/**
@@ -119,13 +119,13 @@ namespace ktl
 		 * @brief Returns an iterator to the start of the buffer.
 		 * @return An iterator to the start of the buffer.
 		*/
-		iterator data() noexcept { return m_Data; }
+		iterator data() noexcept { return reinterpret_cast<T*>(m_Data); }
 
 		/**
 		 * @brief Returns a const iterator to the start of the buffer.
 		 * @return A const iterator to the start of the buffer.
 		*/
-		const_iterator data() const noexcept { return m_Data; }
+		const_iterator data() const noexcept { return reinterpret_cast<const T*>(m_Data); }
 
 		/**
 		 * @brief Returns a reference to the element at @p index, rolling.
@@ -133,7 +133,15 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		T& at(size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		T& at(size_t index) noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+
+		/**
+		 * @brief Returns a const reference to the element at @p index, rolling.
+		 * @note An index higher than size() will roll back to the start of the buffer.
+		 * @param index The index of the element in the buffer.
+		 * @return A reference to the element at @p index.
+		*/
+		const T& at(size_t index) const noexcept { return reinterpret_cast<const T*>(m_Data)[index % Size]; }
 
 
 		/**
-- 
2.43.0


From d5f52eb28cb93b8742a3aaa7d82384425641560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 05/26] fix: trivial_buffer storage is aligned for its element
 type

---
 include/ktl/containers/trivial_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/containers/trivial_buffer.h b/include/ktl/containers/trivial_buffer.h
index 3d074ba..1031376 100644
--- a/include/ktl/containers/trivial_buffer.h
+++ b/include/ktl/containers/trivial_buffer.h
@@ -157,6 +157,6 @@ namespace ktl
 		}
 
 	private:
-		uint8_t m_Data[Size * sizeof(T)];
+		alignas(T) uint8_t m_Data[Size * sizeof(T)];
 	};
 }
\ No newline at end of file
-- 
2.43.0


From e982a02978150e1aacffcfc96d22e20b5e538144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:07 +0000
Subject: [PATCH 06/26] fix: cascading keeps no instance for a request that
 even an empty instance refuses

---
 include/ktl/allocators/cascading.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index d32a927..a987a9b 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -110,12 +110,19 @@ namespace ktl
 			// If the allocator was unable to allocate it, create a new one
 			if (p == nullptr)
 			{
-				node* next = m_Node;
+				node* next = detail::aligned_new<node>(detail::ALIGNMENT);
 
-				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
-				m_Node->Next = next;
+				p = next->Allocator.allocate(n);
+
+				// Not even an empty instance can serve this request
+				if (p == nullptr)
+				{
+					detail::aligned_delete(next);
+					return nullptr;
+				}
 
-				p = m_Node->Allocator.allocate(n);
+				next->Next = m_Node;
+				m_Node = next;
 			}
 
 			if (p)
-- 
2.43.0


From 0ad1d7cfc916a42e3867c760a1608c652dde1342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:43 +0000
Subject: [PATCH 07/26] fix: overflow counts only the bytes that were actually
 allocated

---
 include/ktl/allocators/overflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 96ab73d..f4c687d 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -104,14 +104,14 @@ namespace ktl
 		void* allocate(size_type n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
-			m_Allocs += n;
-
 			size_type size = n + OVERFLOW_SIZE * 2;
 			char* ptr = reinterpret_cast<char*>(m_Alloc.allocate(size));
 
 			if (!ptr)
 				return nullptr;
 
+			m_Allocs += n;
+
 			std::memset(ptr, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 			std::memset(ptr + OVERFLOW_SIZE + n, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 
-- 
2.43.0


From 0db04ef126cad3c43ba9e8a71c0d79d81620b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:43 +0000
Subject: [PATCH 08/26] fix: overflow refuses sizes whose guard bytes would
 wrap around

---
 include/ktl/allocators/overflow.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index f4c687d..f5f2b81 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -105,6 +105,10 @@ namespace ktl
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
 			size_type size = n + OVERFLOW_SIZE * 2;
+
+			// The padding must not wrap the size around
+			if (size < n)
+				return nullptr;
 			char* ptr = reinterpret_cast<char*>(m_Alloc.allocate(size));
 
 			if (!ptr)
-- 
2.43.0


From edb88013667c541daca2d818c586ed176b71213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:09 +0000
Subject: [PATCH 09/26] fix: assigning a shared allocator to itself keeps it
 alive

---
 include/ktl/allocators/shared.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 6f28ae1..91e6ffb 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -95,6 +95,9 @@ namespace ktl
 		shared& operator=(const shared& rhs)
 			noexcept(noexcept(decrement()))
 		{
+			if (this == &rhs)
+				return *this;
+
 			decrement();
 
 			m_Block = rhs.m_Block;
@@ -107,6 +110,9 @@ namespace ktl
 		shared& operator=(shared&& rhs)
 			noexcept(noexcept(decrement()))
 		{
+			if (this == &rhs)
+				return *this;
+
 			decrement();
 
 			m_Block = rhs.m_Block;
-- 
2.43.0


From 5c69a6716660991b2ec32dd7acfc4d2384bc3a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 10/26] fix: global allocators of one type are never unequal

---
 include/ktl/allocators/global.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/global.h b/include/ktl/allocators/global.h
index 214c209..da374f5 100644
--- a/include/ktl/allocators/global.h
+++ b/include/ktl/allocators/global.h
@@ -46,7 +46,7 @@ namespace ktl
 
 		bool operator!=(const global& rhs) const
 		{
-			return true;
+			return false;
 		}
 
 #pragma region Allocation
-- 
2.43.0


From 76cd091e3c721491fde316be1ffe6b38efe68acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 11/26] fix: type_allocator refuses counts whose size in bytes
 would wrap around

---
 include/ktl/allocators/type_allocator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index fc14566..09689ae 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -98,6 +98,10 @@ namespace ktl
 		value_type* allocate(size_t n)
 			noexcept(noexcept(m_Alloc.allocate(n)))
 		{
+			// The size in bytes must not wrap around
+			if (n > size_t(-1) / sizeof(value_type))
+				return nullptr;
+
 			return reinterpret_cast<value_type*>(m_Alloc.allocate(sizeof(value_type) * n));
 		}
 
-- 
2.43.0


From 2b9cb153d62704acc6b2576a49d7da0720841107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 12/26] fix: full linear and stack allocators refuse requests
 of no bytes, which they would not own

---
 include/ktl/allocators/linear_allocator.h | 5 ++++-
 include/ktl/allocators/stack_allocator.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 28bb411..1d71011 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -80,7 +80,10 @@ namespace ktl
 
 			size_t totalSize = n + detail::align_to_architecture(n);
 
-			if ((size_t(m_Free - m_Data) + totalSize) > Size)
+			size_t used = size_t(m_Free - m_Data);
+
+			// A block of no bytes may not start outside of the allocator either
+			if (used == Size || used + totalSize > Size)
 				return nullptr;
 
 			char* current = m_Free;
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index 2fe18d3..bd7a3b3 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -68,7 +68,10 @@ namespace ktl
 
 			size_t totalSize = n + detail::align_to_architecture(n);
 
-			if ((size_t(m_Block->Free - m_Block->Data) + totalSize) > Size)
+			size_t used = size_t(m_Block->Free - m_Block->Data);
+
+			// A block of no bytes may not start outside of the stack either
+			if (used == Size || used + totalSize > Size)
 				return nullptr;
 
 			char* current = m_Block->Free;
-- 
2.43.0


From 66f783eb71835eacd724547089b9b99a800a8add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 13/26] fix: cascading::max_size works before the first
 allocation

---
 include/ktl/allocators/cascading.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index a987a9b..5400a7f 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -243,6 +243,10 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<A>)
 		{
+			// There is no instance to ask before the first allocation
+			if (!m_Node)
+				return Alloc().max_size();
+
 			return m_Node->Allocator.max_size();
 		}
 
-- 
2.43.0


From adb7c396a841c321d9484e38b84f121196ae3928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 14/26] fix: cascading returns nullptr when there is no memory
 for another instance

---
 include/ktl/allocators/cascading.h   | 7 +++++++
 include/ktl/utility/aligned_malloc.h | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 5400a7f..30daec5 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -99,6 +99,10 @@ namespace ktl
 			if (!m_Node)
 				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
 
+			// There is no memory left for another allocator
+			if (!m_Node)
+				return nullptr;
+
 			if constexpr (detail::has_max_size_v<Alloc>)
 			{
 				if (n > m_Node->Allocator.max_size())
@@ -112,6 +116,9 @@ namespace ktl
 			{
 				node* next = detail::aligned_new<node>(detail::ALIGNMENT);
 
+				if (!next)
+					return nullptr;
+
 				p = next->Allocator.allocate(n);
 
 				// Not even an empty instance can serve this request
diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index b09ff96..cb48852 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -96,7 +96,8 @@ namespace ktl::detail
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
         T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
-        ::new(p) T(std::forward<Args>(args)...);
+        if (p != nullptr)
+            ::new(p) T(std::forward<Args>(args)...);
         return p;
     }
 
-- 
2.43.0


From 3ff1445b89031b26a0232aa04d072de031c84152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 15/26] fix: a shared allocator without memory for its block
 serves nothing

---
 include/ktl/allocators/shared.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 91e6ffb..7beb3a7 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -125,19 +125,23 @@ namespace ktl
 		bool operator==(const shared& rhs) const
 			noexcept(detail::has_nothrow_equal_v<Alloc>)
 		{
-			return m_Block == rhs.m_Block && m_Block->Allocator == rhs.m_Block->Allocator;
+			return m_Block == rhs.m_Block && (!m_Block || m_Block->Allocator == rhs.m_Block->Allocator);
 		}
 
 		bool operator!=(const shared& rhs) const
 			noexcept(detail::has_nothrow_not_equal_v<Alloc>)
 		{
-			return m_Block != rhs.m_Block || m_Block->Allocator != rhs.m_Block->Allocator;
+			return m_Block != rhs.m_Block || (m_Block && m_Block->Allocator != rhs.m_Block->Allocator);
 		}
 
 #pragma region Allocation
 		void* allocate(size_t n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
+			// The block is missing if there was no memory for it
+			if (!m_Block)
+				return nullptr;
+
 			return m_Block->Allocator.allocate(n);
 		}
 
@@ -172,7 +176,7 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<A>)
 		{
-			return m_Block->Allocator.max_size();
+			return m_Block ? m_Block->Allocator.max_size() : 0;
 		}
 
 		template<typename A = Alloc>
@@ -180,7 +184,7 @@ namespace ktl
 		owns(void* p) const
 			noexcept(detail::has_nothrow_owns_v<A>)
 		{
-			return m_Block->Allocator.owns(p);
+			return m_Block && m_Block->Allocator.owns(p);
 		}
 #pragma endregion
 
-- 
2.43.0


From 27e04869382e5a2e0e3e36f948090341402a1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 16/26] fix: moving a vector or array to another allocator
 returns the old block with its own count

---
 include/ktl/containers/trivial_array.h  | 2 +-
 include/ktl/containers/trivial_vector.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 45140d3..4b43488 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -144,7 +144,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size());
             }
             
 			other.m_Begin = nullptr;
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 68d2986..29177e3 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -155,7 +155,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity());
             }
             
 			other.m_Begin = nullptr;
-- 
2.43.0


From ebccf0ff94e811c4adc7671d629699b9c8aad365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 17/26] fix: moving a binary_heap to another allocator moves
 and destroys the old elements and returns the block with its own count

---
 include/ktl/containers/binary_heap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index b243ddd..bff81b9 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -160,10 +160,13 @@ namespace ktl
         {
             // Moving using a different allocator means we can't just move, we have to reallocate
             for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            {
+                Traits::construct(m_Alloc, m_Begin + i, std::move(other.m_Begin[i]));
+                Traits::destroy(other.m_Alloc, other.m_Begin + i);
+            }
 
             if (other.m_Begin != nullptr)
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
 
             other.m_Capacity = 0;
             other.m_Size = 0;
-- 
2.43.0


From 938ccac5dc59e8bc94bb25e280eef7c27ae913cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 18/26] fix: assigning a container to itself keeps its elements

---
 include/ktl/containers/binary_heap.h    | 6 ++++++
 include/ktl/containers/trivial_array.h  | 6 ++++++
 include/ktl/containers/trivial_vector.h | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index bff81b9..87a62e7 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -187,6 +187,9 @@ namespace ktl
 
         binary_heap& operator=(const binary_heap& other) noexcept(std::is_nothrow_copy_assignable_v<T>)
         {
+            if (this == &other)
+                return *this;
+
             if (m_Begin)
             {
                 for (size_t i = 0; i < m_Size; i++)
@@ -210,6 +213,9 @@ namespace ktl
 
         binary_heap& operator=(binary_heap&& other) noexcept(std::is_nothrow_move_assignable_v<T>)
         {
+            if (this == &other)
+                return *this;
+
             // Deconstruct elements
             if (m_Begin)
             {
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 4b43488..e369074 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -159,6 +159,9 @@ namespace ktl
 
 		trivial_array& operator=(const trivial_array& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, size());
 
@@ -177,6 +180,9 @@ namespace ktl
 
 		trivial_array& operator=(trivial_array&& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, size());
 
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 29177e3..297ccd7 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -171,6 +171,9 @@ namespace ktl
 
 		trivial_vector& operator=(const trivial_vector& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 
@@ -190,6 +193,9 @@ namespace ktl
 
 		trivial_vector& operator=(trivial_vector&& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 
-- 
2.43.0


From 869d1653aaccef59d494f8adf9d1234bc9223747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 19/26] fix: trivial_vector::pop_back returns the last element

---
 include/ktl/containers/trivial_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 297ccd7..52c2feb 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -430,7 +430,7 @@ namespace ktl
 		 * @brief Removes the last element from the vector and returns it.
 		 * @return The last element in the vector.
 		*/
-		T pop_back() noexcept { return m_Begin[--m_End]; }
+		T pop_back() noexcept { return *--m_End; }
 
 		/**
 		 * @brief Clears all elements in the vector.
-- 
2.43.0


From 86b2bc449ff1a8dfd2b1264da321b82936bcf03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 20/26] fix: trivial_vector can add one of its own elements
 while it grows

---
 include/ktl/containers/trivial_vector.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 52c2feb..c8f9f96 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -314,8 +314,14 @@ namespace ktl
 		iterator push_back(const T& element) noexcept
 		{
 			if (m_End == m_EndMax)
+			{
+				// The element may be one of our own, which expanding would free
+				T copy(element);
 				expand(1);
-			*m_End = element;
+				*m_End = copy;
+			}
+			else
+				*m_End = element;
 
 			return m_End++;
 		}
@@ -328,8 +334,14 @@ namespace ktl
 		iterator push_back(T&& element) noexcept
 		{
 			if (m_End == m_EndMax)
+			{
+				// The element may be one of our own, which expanding would free
+				T copy(std::move(element));
 				expand(1);
-			*m_End = std::move(element);
+				*m_End = std::move(copy);
+			}
+			else
+				*m_End = std::move(element);
 
 			return m_End++;
 		}
@@ -364,9 +376,12 @@ namespace ktl
 		template<typename... Args>
 		iterator emplace_back(Args&&... args) noexcept
 		{
+			// The arguments may refer to our own elements, which expanding would free
+			T element(std::forward<Args>(args)...);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = T(std::forward<Args>(args)...);
+			*m_End = std::move(element);
 
 			return m_End++;
 		}
-- 
2.43.0


From 2341eda6d53da375714947f4907a06662f7ab4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 21/26] fix: trivial_vector::emplace inserts at the given
 position, also when it grows, and returns an iterator

---
 include/ktl/containers/trivial_vector.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index c8f9f96..73449bc 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -394,17 +394,26 @@ namespace ktl
 		 * @return An iterator to the element that was added.
 		*/
 		template<typename... Args>
-		void emplace(const_iterator iter, Args&&... args) noexcept
+		iterator emplace(const_iterator iter, Args&&... args) noexcept
 		{
             KTL_ASSERT(iter >= m_Begin && iter <= m_End);
-            
+
+			// The arguments may refer to our own elements, which are about to move
+			T element(std::forward<Args>(args)...);
+
+			const size_t index = iter - m_Begin;
+
 			if (m_End == m_EndMax)
 				expand(1);
-            
-            std::memmove(const_cast<iterator>(iter + 1), iter, (m_End - iter) * sizeof(T));
-            
-			*iter = T(std::forward<Args>(args)...);
+
+			iterator dest = m_Begin + index;
+
+            std::memmove(dest + 1, dest, (m_End - dest) * sizeof(T));
+
+			*dest = std::move(element);
 			m_End++;
+
+			return dest;
 		}
         
         /**
-- 
2.43.0


From 349e2cee3f4fdecb1466ca0588a386a9311ac836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 22/26] fix: binary_heap can insert one of its own elements
 while it grows

---
 include/ktl/containers/binary_heap.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 87a62e7..870ee4c 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -307,9 +307,14 @@ namespace ktl
         iterator insert(V&& value) noexcept
         {
             if (m_Size == m_Capacity)
+            {
+                // The value may be one of our own elements, which expanding would destroy
+                T element(std::forward<V>(value));
                 expand(1);
-
-            Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::move(element));
+            }
+            else
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
 
             size_t index = percolateUp(m_Size++);
 
-- 
2.43.0


From 9aab6b8f2f6b365f24a16ffe25f2824c4f5f2b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 23/26] fix: popping the last element of a binary_heap does not
 use it after it was destroyed

---
 include/ktl/containers/binary_heap.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 870ee4c..96a8469 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -342,7 +342,14 @@ namespace ktl
 
             T root = m_Begin[0];
 
-            m_Begin[0] = std::move(m_Begin[--m_Size]);
+            // The last element has nothing to be replaced by
+            if (--m_Size == 0)
+            {
+                Traits::destroy(m_Alloc, m_Begin);
+                return root;
+            }
+
+            m_Begin[0] = std::move(m_Begin[m_Size]);
             Traits::destroy(m_Alloc, m_Begin + m_Size);
             percolateDown(0);
 
-- 
2.43.0


From 378b4804a2b4a64ca9fcc17373a46228a48394b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 24/26] fix: binary_heap moves its elements instead of copying
 them, as move-only types need

---
 include/ktl/containers/binary_heap.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 96a8469..53272ee 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -340,7 +340,7 @@ namespace ktl
         {
             KTL_ASSERT(m_Size > 0);
 
-            T root = m_Begin[0];
+            T root = std::move(m_Begin[0]);
 
             // The last element has nothing to be replaced by
             if (--m_Size == 0)
@@ -434,7 +434,7 @@ namespace ktl
 
         size_t percolateUp(size_t index)
         {
-            const T value = m_Begin[index];
+            T value = std::move(m_Begin[index]);
 
             while (index != 0 && m_Comp(value, m_Begin[parent(index)]))
             {
@@ -451,8 +451,6 @@ namespace ktl
         {
             size_t parent = index;
 
-            const T value = m_Begin[index];
-
             while (parent < m_Size)
             {
                 size_t l = left(parent);
@@ -469,14 +467,12 @@ namespace ktl
                 if (child == parent)
                     break;
 
-                const T temp(std::move(m_Begin[child]));
+                T temp(std::move(m_Begin[child]));
                 m_Begin[child] = std::move(m_Begin[parent]);
                 m_Begin[parent] = std::move(temp);
 
                 parent = child;
             }
-
-            m_Begin[parent] = std::move(value);
         }
 
     private:
-- 
2.43.0


From 78f11ace74c127a6e6da9ae5de42873953ad4cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:14 +0000
Subject: [PATCH 25/26] fix: threaded locks its queries and comparisons as well

---
 include/ktl/allocators/threaded.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/ktl/allocators/threaded.h b/include/ktl/allocators/threaded.h
index bc7aa10..abb07c5 100644
--- a/include/ktl/allocators/threaded.h
+++ b/include/ktl/allocators/threaded.h
@@ -45,15 +45,23 @@ namespace ktl
 		threaded& operator=(const threaded&) = delete;
 		threaded& operator=(threaded&&) = delete;
 
-		bool operator==(const threaded& rhs) const
-			noexcept(detail::has_nothrow_equal_v<Alloc>)
+		bool operator==(const threaded& rhs) const // Lock cannot be noexcept
 		{
+			if (this == &rhs)
+				return true;
+
+			std::scoped_lock lock(m_Lock, rhs.m_Lock);
+
 			return m_Alloc == rhs.m_Alloc;
 		}
 
-		bool operator!=(const threaded& rhs) const
-			noexcept(detail::has_nothrow_not_equal_v<Alloc>)
+		bool operator!=(const threaded& rhs) const // Lock cannot be noexcept
 		{
+			if (this == &rhs)
+				return false;
+
+			std::scoped_lock lock(m_Lock, rhs.m_Lock);
+
 			return m_Alloc != rhs.m_Alloc;
 		}
 
@@ -98,17 +106,19 @@ namespace ktl
 #pragma region Utility
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_max_size_v<A>, size_type>::type
-		max_size() const
-			noexcept(detail::has_nothrow_max_size_v<A>)
+		max_size() const // Lock cannot be noexcept
 		{
+			std::lock_guard<std::mutex> lock(m_Lock);
+
 			return m_Alloc.max_size();
 		}
 
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_owns_v<A>, bool>::type
-		owns(void* p) const
-			noexcept(detail::has_nothrow_owns_v<A>)
+		owns(void* p) const // Lock cannot be noexcept
 		{
+			std::lock_guard<std::mutex> lock(m_Lock);
+
 			return m_Alloc.owns(p);
 		}
 #pragma endregion
@@ -125,6 +135,6 @@ namespace ktl
 
 	private:
 		KTL_EMPTY_BASE Alloc m_Alloc;
-		std::mutex m_Lock;
+		mutable std::mutex m_Lock;
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 51983f38c8cf9abc789373e3b14d6d78c4540b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 26/26] fix: cascading: delete an empty main allocator that is
 replaced

---
 include/ktl/allocators/cascading.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 30daec5..07c0846 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -129,6 +129,15 @@ namespace ktl
 				}
 
 				next->Next = m_Node;
+
+				// Nothing would ever delete an empty allocator that isn't the main one anymore
+				if (m_Node->Allocations == 0)
+				{
+					next->Next = m_Node->Next;
+
+					detail::aligned_delete(m_Node);
+				}
+
 				m_Node = next;
 			}
 
-- 
2.43.0

