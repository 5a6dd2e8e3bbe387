From 89e79fb669ccd40acd989e1beff463d1210146eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 01/61] fix: buffer::pop_back passed the wrong arguments to
 destroy and did not compile

---
 include/sparrow/buffer/buffer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index a91b47b..764810a 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -910,8 +910,7 @@ namespace sparrow
     constexpr void buffer<T>::pop_back()
     {
         SPARROW_ASSERT_FALSE(empty());
-        destroy(get_allocator(), get_data().p_end - 1);
-        --get_data().p_end;
+        erase_at_end(get_data().p_end - 1);
     }
 
     template <class T>
-- 
2.43.0


From b3b7e74e69c35063f4c33610d9bad27be0ec9695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 02/61] fix: allocator-extended move constructor of buffer did
 not compile

---
 include/sparrow/buffer/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 764810a..ea08399 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -495,7 +495,7 @@ namespace sparrow
     {
         if (rhs.get_allocator() == get_allocator())
         {
-            get_data() = std::move(rhs.m_data);
+            get_data() = std::move(rhs.get_data());
         }
         else if (!rhs.empty())
         {
-- 
2.43.0


From b9b048104b216b5a5df396c8f381d98c91f311c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 03/61] fix: inserting one of a buffer's own elements read
 freed or overwritten memory

---
 include/sparrow/buffer/buffer.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index ea08399..0bc2b43 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -785,10 +785,12 @@ namespace sparrow
         const difference_type offset = std::distance(cbegin(), pos);
         if (count != 0)
         {
+            // value may refer to an element of this buffer
+            const value_type tmp(value);
             reserve_with_growth_factor( size() + count);
             const iterator it = std::next(begin(), offset);
             std::move_backward(it, end(), std::next(end(), static_cast<difference_type>(count)));
-            std::fill_n(it, count, value);
+            std::fill_n(it, count, tmp);
             get_data().p_end += count;
         }
         return std::next(begin(), offset);
@@ -857,17 +859,19 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type offset = std::distance(cbegin(), pos);
+        // args may refer to an element of this buffer
+        value_type tmp(std::forward<Args>(args)...);
         reserve_with_growth_factor(size() + 1);
         pointer p = get_data().p_begin + offset;
         if (p != get_data().p_end)
         {
             alloc_traits::construct(get_allocator(), get_data().p_end, std::move(*(get_data().p_end - 1)));
             std::move_backward(p, get_data().p_end - 1, get_data().p_end);
-            alloc_traits::construct(get_allocator(), p, std::forward<Args>(args)...);
+            alloc_traits::construct(get_allocator(), p, std::move(tmp));
         }
         else
         {
-            alloc_traits::construct(get_allocator(), get_data().p_end, std::forward<Args>(args)...);
+            alloc_traits::construct(get_allocator(), get_data().p_end, std::move(tmp));
         }
         ++get_data().p_end;
         return iterator(p);
@@ -928,11 +932,13 @@ namespace sparrow
     template <class T>
     constexpr void buffer<T>::resize(size_type new_size, const value_type& value)
     {
+        // value may refer to an element of this buffer
+        const value_type tmp(value);
         resize_impl(
             new_size,
-            [this, &value](size_type nb_init)
+            [this, &tmp](size_type nb_init)
             {
-                get_data().p_end = fill_initialize(get_data().p_end, nb_init, value, get_allocator());
+                get_data().p_end = fill_initialize(get_data().p_end, nb_init, tmp, get_allocator());
             }
         );
     }
-- 
2.43.0


From 13d1fe2fad676db6ca1720406751a55baa77186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 04/61] fix: end() of a bitset whose size is a multiple of the
 block size designated the wrong bit

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 074b537..71a67fe 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -276,8 +276,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::end() -> iterator
     {
-        block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return iterator(this, block, size() % s_bits_per_block);
+        return iterator(this, data() + block_index(size()), bit_index(size()));
     }
 
     template <typename B>
@@ -305,8 +304,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::cend() const -> const_iterator
     {
-        const block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return const_iterator(this, block, size() % s_bits_per_block);
+        return const_iterator(this, data() + block_index(size()), bit_index(size()));
     }
 
     template <typename B>
-- 
2.43.0


From 2d4663afe26820a8ec1c5c5a9e0d62efbd2e2de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 05/61] fix: decrementing a bitset iterator across a block
 boundary skipped bits for 8-bit blocks

---
 include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
index 0547083..65f6d28 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
@@ -126,7 +126,7 @@ namespace sparrow
         if (is_first_bit_of_block(m_index))
         {
             --p_block;
-            m_index = sizeof(block_type);
+            m_index = bitset_type::s_bits_per_block - 1;
         }
         else
         {
-- 
2.43.0


From cae885e9d3509b2105088c930660e8205566e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 06/61] fix: inserting an empty range at the front of a bitset
 wrapped the loop counter

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 71a67fe..1a484a1 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -557,9 +557,9 @@ namespace sparrow
 
         resize(new_size);
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = old_size; i > index; --i)
         {
-            set(i, test(i - count));
+            set(i - 1 + count, test(i - 1));
         }
 
         for (size_type i = 0; i < count; ++i)
@@ -589,9 +589,9 @@ namespace sparrow
 
         // TODO: The current implementation is not efficient. It can be improved.
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = old_size; i > index; --i)
         {
-            set(i, test(i - count));
+            set(i - 1 + count, test(i - 1));
         }
 
         for (size_type i = 0; i < count; ++i)
-- 
2.43.0


From 67ef750abe584ec572837e6566e9cafc89920ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:21 +0000
Subject: [PATCH 07/61] fix: buffer_view::subrange(first, last) did not compile
 for views on mutable data

---
 include/sparrow/buffer/buffer_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/buffer_view.hpp b/include/sparrow/buffer/buffer_view.hpp
index 69535b5..e9a790d 100644
--- a/include/sparrow/buffer/buffer_view.hpp
+++ b/include/sparrow/buffer/buffer_view.hpp
@@ -333,7 +333,7 @@ namespace sparrow
     buffer_view<T> buffer_view<T>::subrange(const_iterator first, const_iterator last) const
     {
         SPARROW_ASSERT_TRUE(first >= begin() && last <= end());
-        return buffer_view<T>(first, last);
+        return subrange(static_cast<size_type>(first - begin()), static_cast<size_type>(last - first));
     }
 
     template <class T>
-- 
2.43.0


From a5d4b68c09e6a16a81c1cd662cbc63a49324043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 08/61] fix: erasing an empty range from a buffer, adaptor or
 array failed an assertion

---
 include/sparrow/buffer/buffer.hpp             | 6 +++++-
 include/sparrow/buffer/buffer_adaptor.hpp     | 2 +-
 include/sparrow/layout/mutable_array_base.hpp | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 0bc2b43..bede7fa 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -888,12 +888,16 @@ namespace sparrow
     template <class T>
     constexpr auto buffer<T>::erase(const_iterator first, const_iterator last) -> iterator
     {
-        SPARROW_ASSERT_TRUE(first < last);
+        SPARROW_ASSERT_TRUE(first <= last);
         SPARROW_ASSERT_TRUE(cbegin() <= first);
         SPARROW_ASSERT_TRUE(last <= cend());
         const difference_type offset = std::distance(cbegin(), first);
         const difference_type len = std::distance(first, last);
         pointer p = get_data().p_begin + offset;
+        if (len == 0)
+        {
+            return iterator(p);
+        }
         erase_at_end(std::move(p + len, get_data().p_end, p));
         return iterator(p);
     }
diff --git a/include/sparrow/buffer/buffer_adaptor.hpp b/include/sparrow/buffer/buffer_adaptor.hpp
index d4d46a8..1c2038b 100644
--- a/include/sparrow/buffer/buffer_adaptor.hpp
+++ b/include/sparrow/buffer/buffer_adaptor.hpp
@@ -564,7 +564,7 @@ namespace sparrow
         const difference_type index_first = std::distance(cbegin(), first);
         const difference_type index_last = std::distance(cbegin(), last);
         const auto idx_for_buffer_first = index_for_buffer(static_cast<size_type>(index_first));
-        SPARROW_ASSERT_TRUE(idx_for_buffer_first < m_buffer.size());
+        SPARROW_ASSERT_TRUE(idx_for_buffer_first <= m_buffer.size());
         const auto idx_for_buffer_last = index_for_buffer(static_cast<size_type>(index_last));
         SPARROW_ASSERT_TRUE(idx_for_buffer_last <= m_buffer.size());
         m_buffer.erase(
diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index d6359fa..f8faa53 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -333,7 +333,7 @@ namespace sparrow
     template <class D>
     auto mutable_array_base<D>::erase(const_iterator first, const_iterator last) -> iterator
     {
-        SPARROW_ASSERT_TRUE(first < last);
+        SPARROW_ASSERT_TRUE(first <= last);
         SPARROW_ASSERT_TRUE(this->cbegin() <= first)
         SPARROW_ASSERT_TRUE(last <= this->cend());
         const difference_type first_index = std::distance(this->cbegin(), first);
-- 
2.43.0


From f0ee5fdf17a754ec253bc6b35abfd9822d0f3683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 09/61] fix: inserting or resizing with an element of the same
 buffer_adaptor read freed memory

---
 include/sparrow/buffer/buffer_adaptor.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/buffer_adaptor.hpp b/include/sparrow/buffer/buffer_adaptor.hpp
index 1c2038b..a895ad8 100644
--- a/include/sparrow/buffer/buffer_adaptor.hpp
+++ b/include/sparrow/buffer/buffer_adaptor.hpp
@@ -458,10 +458,11 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
+        const value_type value_copy = value;  // value may designate an element of this buffer
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
         m_buffer.insert(buffer_pos, m_to_from_size_ratio, 0);
-        operator[](static_cast<size_type>(index)) = value;
+        operator[](static_cast<size_type>(index)) = value_copy;
         return std::next(begin(), index);
     }
 
@@ -473,12 +474,13 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
+        const value_type value_copy = value;  // value may designate an element of this buffer
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
         m_buffer.insert(buffer_pos, count * m_to_from_size_ratio, 0);
         for (size_type i = 0; i < count; ++i)
         {
-            data()[static_cast<size_t>(index) + i] = value;
+            data()[static_cast<size_t>(index) + i] = value_copy;
         }
         return std::next(begin(), index);
     }
@@ -521,8 +523,9 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        const value_type value(std::forward<Args>(args)...);  // the arguments may designate an element of this buffer
         m_buffer.insert(buffer_pos, m_to_from_size_ratio, 0);
-        data()[index] = value_type(std::forward<Args>(args)...);
+        data()[index] = value;
         return std::next(begin(), index);
     }
 
@@ -606,6 +609,7 @@ namespace sparrow
     constexpr void buffer_adaptor<To, FromBufferRef>::resize(size_type new_size, const value_type& value)
         requires(not is_const)
     {
+        const value_type value_copy = value;  // value may designate an element of this buffer
         const size_type original_size = size();
         const auto new_size_for_buffer = static_cast<size_type>(
             static_cast<double>(new_size) / m_from_to_size_ratio
@@ -613,7 +617,7 @@ namespace sparrow
         m_buffer.resize(new_size_for_buffer, 0);
         for (size_type i = original_size; i < new_size; ++i)
         {
-            operator[](i) = value;
+            operator[](i) = value_copy;
         }
     }
 
-- 
2.43.0


From 00f39469e4c4d3ab31d21b487e6fba0ca8b5a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 10/61] fix: creating a view on a bitset cleared bits of the
 viewed memory past its end

---
 .../buffer/dynamic_bitset/dynamic_bitset_base.hpp     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 1a484a1..3a5e06e 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -19,9 +19,11 @@
 #include <string>
 #include <type_traits>
 
+#include "sparrow/buffer/buffer_view.hpp"
 #include "sparrow/buffer/dynamic_bitset/bitset_iterator.hpp"
 #include "sparrow/buffer/dynamic_bitset/bitset_reference.hpp"
 #include "sparrow/utils/contracts.hpp"
+#include "sparrow/utils/mp_utils.hpp"
 
 namespace sparrow
 {
@@ -147,6 +149,8 @@ namespace sparrow
 
     private:
 
+        // A view must not write to the bits following the ones it designates, they belong to somebody else.
+        static constexpr bool is_view = mpl::is_type_instance_of_v<storage_type, buffer_view>;
         static constexpr std::size_t s_bits_per_block = sizeof(block_type) * CHAR_BIT;
         static constexpr size_type block_index(size_type pos) noexcept;
         static constexpr size_type bit_index(size_type pos) noexcept;
@@ -382,7 +386,7 @@ namespace sparrow
         , m_size(size)
         , m_null_count(m_size - count_non_null())
     {
-        if constexpr (!std::is_const_v<block_type>)
+        if constexpr (!is_view)
         {
             zero_unused_bits();
         }
@@ -395,9 +399,12 @@ namespace sparrow
         , m_size(size)
         , m_null_count(null_count)
     {
-        if constexpr (!std::is_const_v<block_type>)
+        if constexpr (!is_view)
         {
             zero_unused_bits();
+        }
+        if constexpr (!std::is_const_v<block_type>)
+        {
             SPARROW_ASSERT_TRUE(m_null_count == m_size - count_non_null());
         }
     }
-- 
2.43.0


From bf273612de73470fd2d56b38d4000aaa42ed3c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 11/61] fix: resizing an array ignored the validity of the
 value it is filled with

---
 include/sparrow/layout/array_bitmap_base.hpp  | 6 +++---
 include/sparrow/layout/mutable_array_base.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/layout/array_bitmap_base.hpp b/include/sparrow/layout/array_bitmap_base.hpp
index 3865477..b3ec2ed 100644
--- a/include/sparrow/layout/array_bitmap_base.hpp
+++ b/include/sparrow/layout/array_bitmap_base.hpp
@@ -63,7 +63,7 @@ namespace sparrow
             requires is_mutable;
         const bitmap_type& get_bitmap() const;
 
-        void resize_bitmap(size_type new_length)
+        void resize_bitmap(size_type new_length, bool value)
             requires is_mutable;
 
         bitmap_iterator insert_bitmap(const_bitmap_iterator pos, bool value, size_type count)
@@ -161,12 +161,12 @@ namespace sparrow
     }
 
     template <class D, bool is_mutable>
-    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length)
+    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length, bool value)
         requires is_mutable
     {
         arrow_proxy& arrow_proxy = this->get_arrow_proxy();
         const size_t new_size = new_length + arrow_proxy.offset();
-        arrow_proxy.resize_bitmap(new_size);
+        arrow_proxy.resize_bitmap(new_size, value);
     }
 
     template <class D, bool is_mutable>
diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index f8faa53..254e702 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -254,7 +254,7 @@ namespace sparrow
     void mutable_array_base<D>::resize(size_type new_length, const value_type& value)
     {
         auto& derived = this->derived_cast();
-        derived.resize_bitmap(new_length);
+        derived.resize_bitmap(new_length, value.has_value());
         derived.resize_values(new_length, value.get());
         this->get_arrow_proxy().set_length(new_length);  // Must be done after resizing the bitmap and values
         derived.update();
-- 
2.43.0


From 993eb514964b3ea111a7bc36fe37beab99634788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 12/61] fix: inserting in or erasing from a default constructed
 bitset failed an assertion

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 3a5e06e..e4203ed 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -553,7 +553,7 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::insert(const_iterator pos, size_type count, value_type value)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
+        SPARROW_ASSERT_TRUE(data() != nullptr || empty());
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
@@ -584,7 +584,7 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::insert(const_iterator pos, InputIt first, InputIt last)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
+        SPARROW_ASSERT_TRUE(data() != nullptr || empty());
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
@@ -633,7 +633,7 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::erase(const_iterator first, const_iterator last)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
+        SPARROW_ASSERT_TRUE(data() != nullptr || empty());
         SPARROW_ASSERT_TRUE(cbegin() <= first);
         SPARROW_ASSERT_TRUE(first <= last);
         SPARROW_ASSERT_TRUE(last <= cend());
-- 
2.43.0


From 6e7d2edb20bbf9168456d8c8f5818cc79921c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:52 +0000
Subject: [PATCH 13/61] fix: mutating a sliced array ignored its offset or its
 trailing elements

---
 include/sparrow/arrow_array_schema_proxy.hpp |  5 +++--
 include/sparrow/layout/primitive_array.hpp   |  7 +++++--
 src/arrow_array_schema_proxy.cpp             | 16 ++++++++++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 948293f..d2c3613 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -477,8 +477,9 @@ namespace sparrow
         }
         SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
         auto bitmap = get_non_owning_dynamic_bitset();
-        const auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), range.begin(), range.end());
-        return static_cast<size_t>(std::distance(bitmap.begin(), it));
+        const auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index + offset()), range.begin(), range.end());
+        update_buffers();
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
 }
diff --git a/include/sparrow/layout/primitive_array.hpp b/include/sparrow/layout/primitive_array.hpp
index 331546e..bbf0416 100644
--- a/include/sparrow/layout/primitive_array.hpp
+++ b/include/sparrow/layout/primitive_array.hpp
@@ -416,8 +416,11 @@ namespace sparrow
     template <class T>
     void primitive_array<T>::resize_values(size_type new_length, inner_value_type value)
     {
-        const size_t new_size = new_length + static_cast<size_t>(this->get_arrow_proxy().offset());
-        get_data_buffer().resize(new_size, value);
+        const size_t offset = static_cast<size_t>(this->get_arrow_proxy().offset());
+        auto data_buffer = get_data_buffer();
+        // The buffer of a slice extends past its last element
+        data_buffer.resize(this->size() + offset);
+        data_buffer.resize(new_length + offset, value);
     }
 
     template <class T>
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 3760662..5adc874 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -681,8 +681,10 @@ namespace sparrow
         if(has_bitmap(data_type()))
         {
             const auto& validity_buffer = buffers().front();
+            // The elements before the offset are not part of the array
             const dynamic_bitset_view<const std::uint8_t> bitmap(validity_buffer.data(), length() + offset());
-            const auto null_count = bitmap.null_count();
+            const dynamic_bitset_view<const std::uint8_t> skipped(validity_buffer.data(), offset());
+            const auto null_count = bitmap.null_count() - skipped.null_count();
             set_null_count(static_cast<int64_t>(null_count));
         }
         
@@ -730,6 +732,12 @@ namespace sparrow
         auto private_data = static_cast<arrow_array_private_data*>(array().private_data);
         auto& bitmap_buffer = private_data->buffers()[bitmap_buffer_index];
         const size_t current_size = length() + offset();
+        // The buffer of a slice extends past its last element, that of an array without null can be omitted
+        const size_t block_count = non_owning_dynamic_bitset<uint8_t>::compute_block_count(current_size);
+        if (bitmap_buffer.size() != block_count)
+        {
+            bitmap_buffer.resize(block_count, static_cast<uint8_t>(0xff));
+        }
         non_owning_dynamic_bitset<uint8_t> bitmap{&bitmap_buffer, current_size};
         return bitmap;
     }
@@ -762,9 +770,9 @@ namespace sparrow
             return index;
         }
         auto bitmap = get_non_owning_dynamic_bitset();
-        auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), count, value);
+        auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index + offset()), count, value);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     size_t arrow_proxy::erase_bitmap(size_t index, size_t count)
@@ -782,7 +790,7 @@ namespace sparrow
         const auto it_last = sparrow::next(it_first, count);
         const auto it = bitmap.erase(it_first, it_last);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     void arrow_proxy::push_back_bitmap(bool value)
-- 
2.43.0


From da84d9f1d677f59c0bcb6065a854660b695f27a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:34 +0000
Subject: [PATCH 14/61] fix: editing a string or binary array off by one
 offset, lost data when shrinking an element

Inserting in or erasing from a variable size binary array used indices that
were only right for an array offset of 1: values were lost or read out of
bounds, or an assertion failed, for any other array. Assigning a shorter value
truncated the data before moving it, and assigning from an element of the same
array read moved data.
---
 .../variable_size_binary_array.hpp            | 60 ++++++++++++-------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index 2e18f15..b3300c9 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -416,21 +416,34 @@ namespace sparrow
         const auto offset_beg = *offset(index);
         const auto offset_end = *offset(index + 1);
         const auto initial_value_length = offset_end - offset_beg;
-        const auto new_value_length = static_cast<OT>(std::ranges::size(rhs));
+        // rhs may refer to the data of this array, which is about to be moved
+        const std::vector<data_value_type> new_value(std::ranges::begin(rhs), std::ranges::end(rhs));
+        const auto new_value_length = static_cast<OT>(new_value.size());
         const OT shift_byte_count = new_value_length - initial_value_length;
         auto& data_buffer = this->get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
         if (shift_byte_count != 0)
         {
             const auto shift_val_abs = static_cast<size_type>(std::abs(shift_byte_count));
-            const auto new_data_buffer_size = shift_byte_count < 0 ? data_buffer.size() - shift_val_abs
-                                                                   : data_buffer.size() + shift_val_abs;
-            data_buffer.resize(new_data_buffer_size);
-            // Move elements to make space for the new value
-            std::move_backward(
-                data_buffer.begin() + offset_end,
-                data_buffer.end() - shift_byte_count,
-                data_buffer.end()
-            );
+            if (shift_byte_count < 0)
+            {
+                // Close the gap left by the shorter value before dropping the end of the buffer
+                std::move(
+                    data_buffer.begin() + offset_end,
+                    data_buffer.end(),
+                    data_buffer.begin() + offset_end + shift_byte_count
+                );
+                data_buffer.resize(data_buffer.size() - shift_val_abs);
+            }
+            else
+            {
+                data_buffer.resize(data_buffer.size() + shift_val_abs);
+                // Move elements to make space for the new value
+                std::move_backward(
+                    data_buffer.begin() + offset_end,
+                    data_buffer.end() - shift_byte_count,
+                    data_buffer.end()
+                );
+            }
             // Adjust offsets for subsequent elements
             std::for_each(
                 offset(index + 1),
@@ -442,13 +455,13 @@ namespace sparrow
             );
         }
         // Copy the new value into the buffer
-        std::copy(std::ranges::begin(rhs), std::ranges::end(rhs), data_buffer.begin() + offset_beg);
+        std::copy(new_value.begin(), new_value.end(), data_buffer.begin() + offset_beg);
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     auto variable_size_binary_array_impl<T, CR, OT>::offset(size_type i) -> offset_iterator
     {
-        SPARROW_ASSERT_TRUE(i <= size() + this->get_arrow_proxy().offset());
+        SPARROW_ASSERT_TRUE(i <= size() + 1);
         return get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].template data<OT>()
                + static_cast<size_type>(this->get_arrow_proxy().offset()) + i;
     }
@@ -456,7 +469,7 @@ namespace sparrow
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     auto variable_size_binary_array_impl<T, CR, OT>::offset(size_type i) const -> const_offset_iterator
     {
-        SPARROW_ASSERT_TRUE(i <= this->size() + this->get_arrow_proxy().offset());
+        SPARROW_ASSERT_TRUE(i <= this->size() + 1);
         return this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].template data<OT>()
                + static_cast<size_type>(this->get_arrow_proxy().offset()) + i;
     }
@@ -566,7 +579,7 @@ namespace sparrow
         auto& data_buffer = this->get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
         const auto pos_to_insert = sparrow::next(data_buffer.cbegin(), offset_begin);
         data_buffer.insert(pos_to_insert, joined_repeated_value_range.begin(), joined_repeated_value_range.end());
-        insert_offset(offsets_cbegin() + idx + 1, static_cast<offset_type>(value.size()), count);
+        insert_offset(offsets_cbegin() + idx, static_cast<offset_type>(value.size()), count);
         return sparrow::next(value_begin(), idx);
     }
 
@@ -578,7 +591,8 @@ namespace sparrow
     ) -> offset_iterator
     {
         auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
-        const auto idx = static_cast<size_t>(std::distance(offsets_cbegin(), pos));
+        const auto idx = static_cast<size_t>(std::distance(offsets_cbegin(), pos))
+                         + static_cast<size_t>(get_arrow_proxy().offset());
         auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
         const offset_type cumulative_size = value_size * static_cast<offset_type>(count);
         // Adjust offsets for subsequent elements
@@ -596,7 +610,7 @@ namespace sparrow
         {
             offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + value_size;
         }
-        return offsets_begin() + idx;
+        return offset(idx - static_cast<size_t>(get_arrow_proxy().offset()));
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
@@ -642,7 +656,7 @@ namespace sparrow
                 return static_cast<offset_type>(value.size());
             }
         );
-        insert_offsets(offset(idx + 1), sizes_of_each_value.begin(), sizes_of_each_value.end());
+        insert_offsets(offset(idx), sizes_of_each_value.begin(), sizes_of_each_value.end());
         return sparrow::next(value_begin(), idx);
     }
 
@@ -659,7 +673,8 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(first_sizes <= last_sizes);
         auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
         auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
-        const auto idx = std::distance(offsets_cbegin(), pos);
+        const auto idx = std::distance(offsets_cbegin(), pos)
+                         + static_cast<std::ptrdiff_t>(get_arrow_proxy().offset());
         const OT cumulative_sizes = std::reduce(first_sizes, last_sizes, OT(0));
         const auto sizes_count = std::distance(first_sizes, last_sizes);
         offset_buffer_adaptor.resize(offset_buffer_adaptor.size() + static_cast<size_t>(sizes_count));
@@ -685,7 +700,7 @@ namespace sparrow
             offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + *it;
             ++it;
         }
-        return offset(static_cast<size_t>(idx));
+        return offset(static_cast<size_t>(idx) - static_cast<size_t>(get_arrow_proxy().offset()));
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
@@ -727,16 +742,17 @@ namespace sparrow
         const OT offset_start_value = *offset(index);
         const OT offset_end_value = *offset(index + count);
         const OT difference = offset_end_value - offset_start_value;
+        const size_t buffer_index = index + static_cast<size_t>(get_arrow_proxy().offset());
         // move the offsets after the erased ones
         std::move(
-            sparrow::next(offset_buffer_adaptor.begin(), index + count + 1),
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_index + count + 1),
             offset_buffer_adaptor.end(),
-            sparrow::next(offset_buffer_adaptor.begin(), index + 1)
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_index + 1)
         );
         offset_buffer_adaptor.resize(offset_buffer_adaptor.size() - count);
         // adjust the offsets for the subsequent elements
         std::for_each(
-            sparrow::next(offset_buffer_adaptor.begin(), index + 1),
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_index + 1),
             offset_buffer_adaptor.end(),
             [difference](OT& offset)
             {
-- 
2.43.0


From c52fa3d363cdc86e54b020e16bcdeb28dbc2ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 15/61] fix: iterating over a view array did not compile or
 dereferenced a null pointer

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index a39c201..726a15b 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -165,6 +165,9 @@ namespace sparrow
 
         friend base_type;
         friend base_type::base_type;
+        friend base_type::base_type::base_type;
+        friend class detail::layout_value_functor<self_type, inner_value_type>;
+        friend class detail::layout_value_functor<const self_type, inner_value_type>;
 
     };
 
@@ -338,7 +341,7 @@ namespace sparrow
     template <class T>
     auto variable_size_binary_view_array_impl<T>::value_begin() -> value_iterator
     {
-        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(), 0);
+        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(this), 0);
     }
 
     template <class T>
-- 
2.43.0


From 0d10bbdad324f3d2954393bbbce7e0fd33fa74d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 16/61] fix: copying a view array read past or truncated its
 buffer of data buffer sizes

---
 src/arrow_interface/arrow_array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index fa9e6b9..8c2bb06 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -187,7 +187,7 @@ namespace sparrow
                 {
                     buffers[i + 2] = make_buffer(i + 2, var_buffer_sizes[i]);
                 }
-                buffers.back() = make_buffer(buffer_count -1 , size * 4);
+                buffers.back() = make_buffer(buffer_count - 1, num_extra_data_buffers * sizeof(int64_t));
                 return buffers;
         }
         // To avoid stupid warning "control reaches end of non-void function"
-- 
2.43.0


From 6f84ccff533091138a83ca9f386276dde803aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 17/61] fix: view arrays counted data buffer indices from the
 validity buffer

The Arrow columnar format numbers the variadic data buffers from 0: exported
view arrays could not be read by other implementations, and imported ones
were read from the wrong buffer.
---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index 726a15b..1ec227f 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -222,8 +222,8 @@ namespace sparrow
                 auto prefix_sub_range = val_casted | std::ranges::views::take(PREFIX_SIZE);
                 std::ranges::copy(prefix_sub_range, length_ptr + PREFIX_OFFSET);
 
-                // write the buffer index
-                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = static_cast<std::int32_t>(FIRST_VAR_DATA_BUFFER_INDEX);
+                // write the buffer index, relative to the first variadic data buffer
+                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = 0;
 
                 // write the buffer offset
                 *reinterpret_cast<std::int32_t*>(length_ptr + BUFFER_OFFSET_OFFSET) = static_cast<std::int32_t>(long_string_storage_size);
@@ -329,7 +329,7 @@ namespace sparrow
             constexpr std::ptrdiff_t buffer_offset_offset = 12;
             auto buffer_index = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_index_offset));
             auto buffer_offset = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_offset_offset));
-            auto buffer = this->get_arrow_proxy().buffers()[buffer_index].template data<const char_or_byte>();
+            auto buffer = this->get_arrow_proxy().buffers()[FIRST_VAR_DATA_BUFFER_INDEX + buffer_index].template data<const char_or_byte>();
             return inner_const_reference(buffer + buffer_offset,  length);
         }
 
-- 
2.43.0


From 26f5dec21f81395898b45155cf15f586de43728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 18/61] fix: elements of a view array ignored the offset of the
 array

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index 1ec227f..b09f0e3 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -311,7 +311,8 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(i < this->size());
 
         constexpr std::size_t element_size = 16;
-        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>() + (i * element_size);
+        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>()
+                        + ((i + static_cast<std::size_t>(this->get_arrow_proxy().offset())) * element_size);
 
         auto length = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr));
         using char_or_byte = typename inner_const_reference::value_type;
-- 
2.43.0


From c1936cf8b554e6b4385c1e9336ac501e52586fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:50 +0000
Subject: [PATCH 19/61] fix: list arrays with an offset read the offsets and
 sizes of the wrong elements

---
 include/sparrow/layout/list_layout/list_array.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index d1fda9f..00809c8 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -563,8 +563,8 @@ namespace sparrow
     auto list_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
         return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data()
+        ) + this->get_arrow_proxy().offset();
     }
 
     /***************************************
@@ -657,16 +657,16 @@ namespace sparrow
     auto list_view_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
         return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data()
+        ) + this->get_arrow_proxy().offset();
     }
 
     template <bool BIG>
     auto list_view_array_impl<BIG>::make_list_sizes() -> offset_type*
     {
         return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+              this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data()
+        ) + this->get_arrow_proxy().offset();
     }
 
 #ifdef __GNUC__
@@ -693,7 +693,7 @@ namespace sparrow
 
     inline auto fixed_sized_list_array::offset_range(size_type i) const -> std::pair<offset_type, offset_type>
     {
-        const auto offset = i * m_list_size;
+        const auto offset = (i + static_cast<size_type>(this->get_arrow_proxy().offset())) * m_list_size;
         return std::make_pair(offset, offset + m_list_size);
     }
 
-- 
2.43.0


From 086e70313999cabd8464207f05414f0c2bfdf351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:39 +0000
Subject: [PATCH 20/61] fix: elements of a struct array ignored the offset of
 the array

---
 include/sparrow/layout/struct_layout/struct_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index 97067e5..8c5be28 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -228,12 +228,12 @@ namespace sparrow
 
     inline auto struct_array::value(size_type i) -> inner_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + static_cast<size_type>(this->get_arrow_proxy().offset())};
     }
 
     inline auto struct_array::value(size_type i) const -> inner_const_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + static_cast<size_type>(this->get_arrow_proxy().offset())};
     }
 
     inline auto struct_array::make_children() -> children_type
-- 
2.43.0


From 62db431f7228f72ba84b7e964e42ea323fee6bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:39 +0000
Subject: [PATCH 21/61] fix: union arrays with an offset read the type ids and
 offsets of the wrong elements

---
 include/sparrow/layout/union_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index 0bd32b9..acf0a1c 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -325,7 +325,7 @@ namespace sparrow
     template <class DERIVED>
     auto union_array_crtp_base<DERIVED>::operator[](std::size_t i) const -> value_type
     {   
-        const auto type_id = static_cast<std::size_t>(p_type_ids[i]);
+        const auto type_id = static_cast<std::size_t>(p_type_ids[i + m_proxy.offset()]);
         const auto child_index = m_type_id_map[type_id];
         const auto offset = this->derived_cast().element_offset(i);
         return array_element(*m_children[child_index], static_cast<std::size_t>(offset));
@@ -502,7 +502,7 @@ namespace sparrow
 
     inline std::size_t dense_union_array::element_offset(std::size_t i) const
     {
-        return static_cast<std::size_t>(p_offsets[i]) + m_proxy.offset();
+        return static_cast<std::size_t>(p_offsets[i + m_proxy.offset()]);
     }
 
     /*************************************
-- 
2.43.0


From 6afdad36f92be71faa12e41831c9ac3bd25fcc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:31 +0000
Subject: [PATCH 22/61] fix: constructing a union array from an invalid type
 mapping leaked its children

---
 include/sparrow/layout/union_array.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index acf0a1c..c147a2b 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -437,6 +437,8 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
+        // throws on an invalid mapping, before the ownership of the children is taken
+        std::string format = make_format_string(true /*dense union*/, n_children, child_index_to_type_id);
         ArrowSchema** child_schemas = new ArrowSchema*[n_children];
         ArrowArray** child_arrays = new ArrowArray*[n_children];
         const auto size = element_type.size();
@@ -467,7 +469,6 @@ namespace sparrow
             child_schemas[i] = new ArrowSchema(std::move(flat_schema));
         }
 
-        std::string format = make_format_string(true /*dense union*/, n_children, std::forward<TYPE_MAPPING>(child_index_to_type_id));
         
         ArrowSchema schema = make_arrow_schema(
             format,
@@ -525,6 +526,8 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
+        // throws on an invalid mapping, before the ownership of the children is taken
+        std::string format = make_format_string(false /*is dense union*/, n_children, child_index_to_type_id);
         ArrowSchema** child_schemas = new ArrowSchema*[n_children];
         ArrowArray** child_arrays = new ArrowArray*[n_children];
         const auto size = element_type.size();
@@ -554,7 +557,6 @@ namespace sparrow
             child_schemas[i] = new ArrowSchema(std::move(flat_schema));
         }
 
-        std::string format = make_format_string(false /*is dense union*/, n_children, std::forward<TYPE_MAPPING>(child_index_to_type_id));
 
         ArrowSchema schema = make_arrow_schema(
             format,
-- 
2.43.0


From 401da3171ba5c3894de5a46f8e46f3a8a8669df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 23/61] fix: the structures of dictionaries and of moved out
 children were never freed

---
 .../arrow_array_schema_utils.hpp              | 36 +++++++++++++++----
 src/arrow_array_schema_proxy.cpp              | 26 ++++++++++----
 2 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
index dd095af..3ceaa1f 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
@@ -28,7 +28,7 @@
 namespace sparrow
 {
     /*
-     * Class for tracking ownership of children of an `ArrowArray` or
+     * Class for tracking ownership of children and dictionary of an `ArrowArray` or
      * an `ArrowSchema` allocated by sparrow.
      */
     class children_ownership
@@ -41,6 +41,9 @@ namespace sparrow
 
         constexpr void resize_children(std::size_t size);
 
+        constexpr void set_dictionary_ownership(bool ownership) noexcept;
+        [[nodiscard]] constexpr bool has_dictionary_ownership() const noexcept;
+
     protected:
 
         constexpr explicit children_ownership(std::size_t size = 0);
@@ -49,6 +52,8 @@ namespace sparrow
 
         using children_owner_list = std::vector<bool>;
         children_owner_list m_children = {};
+        // Whether the structure of the dictionary was allocated with new and must be deleted
+        bool m_dictionary = true;
     };
 
     /**
@@ -173,6 +178,16 @@ namespace sparrow
         m_children.resize(size);
     }
 
+    constexpr void children_ownership::set_dictionary_ownership(bool ownership) noexcept
+    {
+        m_dictionary = ownership;
+    }
+
+    [[nodiscard]] constexpr bool children_ownership::has_dictionary_ownership() const noexcept
+    {
+        return m_dictionary;
+    }
+
     template <class T>
     requires std::same_as<T, ArrowArray> || std::same_as<T, ArrowSchema>
     void release_common_arrow(T& t)
@@ -188,6 +203,12 @@ namespace sparrow
             {
                 t.dictionary->release(t.dictionary);
             }
+            SPARROW_ASSERT_TRUE(t.private_data != nullptr);
+            if (static_cast<children_ownership*>(t.private_data)->has_dictionary_ownership())
+            {
+                delete t.dictionary;
+            }
+            t.dictionary = nullptr;
         }
 
         if (t.children)
@@ -197,16 +218,17 @@ namespace sparrow
                 T* child = t.children[i];
                 if (child)
                 {
-                    if (child->release)
+                    SPARROW_ASSERT_TRUE(t.private_data != nullptr);
+                    children_ownership* own = static_cast<children_ownership*>(t.private_data);
+                    if (own->has_child_ownership(static_cast<std::size_t>(i)))
                     {
-                        SPARROW_ASSERT_TRUE(t.private_data != nullptr);
-                        children_ownership* own = static_cast<children_ownership*>(t.private_data);
-                        if (own->has_child_ownership(static_cast<std::size_t>(i)))
+                        // The content of a child can have been moved out of it, its structure remains
+                        if (child->release)
                         {
                             child->release(child);
-                            delete child;
-                            child = nullptr;
                         }
+                        delete child;
+                        child = nullptr;
                     }
                 }
             }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 5adc874..249f13f 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -590,17 +590,29 @@ namespace sparrow
             );
         }
 
-        if (array().dictionary != nullptr)
+        const auto release_dictionary = [](auto* dictionary, const children_ownership& owner)
         {
-            array().dictionary->release(array().dictionary);
-        }
-        if (schema().dictionary != nullptr)
-        {
-            schema().dictionary->release(schema().dictionary);
-        }
+            if (dictionary == nullptr)
+            {
+                return;
+            }
+            if (dictionary->release != nullptr)
+            {
+                dictionary->release(dictionary);
+            }
+            if (owner.has_dictionary_ownership())
+            {
+                delete dictionary;
+            }
+        };
+        release_dictionary(array().dictionary, *get_array_private_data());
+        release_dictionary(schema().dictionary, *get_schema_private_data());
 
         array().dictionary = array_dictionary;
         schema().dictionary = schema_dictionary;
+        // The memory of the structures passed by pointer belongs to the caller, only their content is owned
+        get_array_private_data()->set_dictionary_ownership(false);
+        get_schema_private_data()->set_dictionary_ownership(false);
         update_dictionary();
     }
 
-- 
2.43.0


From 18a0fcb5b4dccf4b1a6fb767a376815dfc5bc75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:09 +0000
Subject: [PATCH 24/61] fix: replacing or popping an owned child leaked its
 structures

---
 include/sparrow/arrow_array_schema_proxy.hpp |  1 +
 src/arrow_array_schema_proxy.cpp             | 29 ++++++++++++++------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index d2c3613..da2b707 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -398,6 +398,7 @@ namespace sparrow
 
         [[nodiscard]] bool empty() const;
         SPARROW_API void resize_children(size_t children_count);
+        void release_child(size_t index);
 
         [[nodiscard]] SPARROW_API non_owning_dynamic_bitset<uint8_t> get_non_owning_dynamic_bitset();
 
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 249f13f..5d6e770 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -421,6 +421,24 @@ namespace sparrow
         resize_children(n_children() - n);
     }
 
+    void arrow_proxy::release_child(size_t index)
+    {
+        const auto release = [index](auto* child, const children_ownership& owner)
+        {
+            if (child == nullptr || !owner.has_child_ownership(index))
+            {
+                return;
+            }
+            if (child->release != nullptr)
+            {
+                child->release(child);
+            }
+            delete child;
+        };
+        release(array().children[index], *get_array_private_data());
+        release(schema().children[index], *get_schema_private_data());
+    }
+
     void arrow_proxy::resize_children(size_t children_count)
     {
         SPARROW_ASSERT_TRUE(std::cmp_less(children_count, std::numeric_limits<int64_t>::max()));
@@ -430,14 +448,7 @@ namespace sparrow
         // Release the remaining children if the new size is smaller than the current size
         for (size_t i = children_count; i < static_cast<size_t>(array().n_children); ++i)
         {
-            if (schema_private_data->has_child_ownership(i))
-            {
-                schema().children[i]->release(schema().children[i]);
-            }
-            if (array_private_data->has_child_ownership(i))
-            {
-                array().children[i]->release(array().children[i]);
-            }
+            release_child(i);
         }
 
         auto new_array_children = std::make_unique<ArrowArray*[]>(children_count);
@@ -537,6 +548,7 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
+        release_child(index);
         array().children[index] = child_array;
         schema().children[index] = child_schema;
         m_children[index] = arrow_proxy(child_array, child_schema);
@@ -553,6 +565,7 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
+        release_child(index);
         array().children[index] = new ArrowArray(std::move(child_array));
         schema().children[index] = new ArrowSchema(std::move(child_schema));
         m_children[index] = arrow_proxy(array().children[index], schema().children[index]);
-- 
2.43.0


From f84952a54e2b85644a3ebc2b2858aed2a23a80b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:42 +0000
Subject: [PATCH 25/61] fix: null elements of dictionary arrays had the type of
 the values of another dictionary array

---
 .../layout/dictionary_encoded_array.hpp       | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/include/sparrow/layout/dictionary_encoded_array.hpp b/include/sparrow/layout/dictionary_encoded_array.hpp
index e14fd46..9fa6ecc 100644
--- a/include/sparrow/layout/dictionary_encoded_array.hpp
+++ b/include/sparrow/layout/dictionary_encoded_array.hpp
@@ -152,7 +152,6 @@ namespace sparrow
         using keys_layout = primitive_array<IT>;
         using values_layout = cloning_ptr<array_wrapper>;
 
-        const inner_value_type& dummy_inner_value() const;
         //inner_const_reference dummy_inner_const_reference() const;
         const_reference dummy_const_reference() const;
 
@@ -325,13 +324,6 @@ namespace sparrow
         return const_iterator(const_functor_type(this), size());
     }
 
-    template <std::integral IT>
-    auto dictionary_encoded_array<IT>::dummy_inner_value() const -> const inner_value_type&
-    {
-        static const inner_value_type instance = array_default_element_value(*p_values_layout);
-        return instance;
-    }
-
     /*template <std::integral IT>
     auto dictionary_encoded_array<IT>::dummy_inner_const_reference() const -> inner_const_reference
     {
@@ -343,13 +335,14 @@ namespace sparrow
     template <std::integral IT>
     auto dictionary_encoded_array<IT>::dummy_const_reference() const -> const_reference
     {
-        static const const_reference instance =
-            std::visit([](const auto& val) -> const_reference {
-                using inner_ref = typename arrow_traits<std::decay_t<decltype(val)>>::const_reference;
-                return nullable<inner_ref>(inner_ref(val), false);
+        // the default value is shared by the arrays whose values have the same type only
+        return std::visit([](const auto& val) -> const_reference {
+                using inner_value = std::decay_t<decltype(val)>;
+                using inner_ref = typename arrow_traits<inner_value>::const_reference;
+                static const inner_value instance = val;
+                return nullable<inner_ref>(inner_ref(instance), false);
             },
-            dummy_inner_value());
-        return instance;
+            array_default_element_value(*p_values_layout));
     }
 
     template <std::integral IT>
-- 
2.43.0


From 35d0261a33936736844248f1d8a15e239fb79376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 26/61] fix: the end iterator of run end encoded arrays read
 past the run ends

---
 .../layout/run_end_encoded_layout/run_end_encoded_iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
index 8faafb8..155b3bc 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
@@ -66,7 +66,8 @@ namespace sparrow
         p_encoded_values_array(array_ptr->p_encoded_values_array.get()),
         m_index(index), 
         m_run_end_index(run_end_index),
-        m_runs_left(array_ptr->get_run_length(index))
+        // there is no run at the end of the array
+        m_runs_left(index < array_ptr->size() ? array_ptr->get_run_length(run_end_index) : 0)
     {
     }
 
-- 
2.43.0


From c84848305cf01dbbaf8395abeea3944041e3e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:19 +0000
Subject: [PATCH 27/61] fix: run end encoded arrays ignored their offset

---
 .../run_end_encoded_array.hpp                 | 30 +++++++++++--------
 src/run_encoded_array.cpp                     | 13 ++++----
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
index 4f52832..aab2977 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
@@ -14,6 +14,8 @@
 
 #pragma once
 
+#include <algorithm>
+
 #include "sparrow/config/config.hpp"
 #include "sparrow/layout/array_wrapper.hpp"
 #include "sparrow/array_factory.hpp"
@@ -98,6 +100,8 @@ namespace sparrow
         SPARROW_API static std::pair<std::int64_t, std::int64_t> extract_length_and_null_count( const array&, const array&);
         SPARROW_API static acc_length_ptr_variant_type get_acc_lengths_ptr(const array_wrapper& ar);
         SPARROW_API std::uint64_t get_run_length(std::uint64_t run_index) const;
+        SPARROW_API std::uint64_t get_run_index(std::uint64_t index) const;
+        SPARROW_API std::uint64_t get_first_run_index() const;
 
         [[nodiscard]] arrow_proxy& get_arrow_proxy();
         [[nodiscard]] const arrow_proxy& get_arrow_proxy() const;
@@ -157,23 +161,25 @@ namespace sparrow
     inline auto run_end_encoded_array::get_run_length(std::uint64_t run_index) const -> std::uint64_t
     {
 
+        // Only the part of the first run following the offset belongs to the array
+        const auto offset = static_cast<std::uint64_t>(m_proxy.offset());
         auto ret =  std::visit(
-            [run_index](auto&& acc_lengths_ptr) -> std::uint64_t
+            [run_index, offset](auto&& acc_lengths_ptr) -> std::uint64_t
             {
-                if(run_index == 0)
-                {   
-                    return static_cast<std::uint64_t>(acc_lengths_ptr[run_index]);
-                }
-                else
-                {
-                    return static_cast<std::uint64_t>(acc_lengths_ptr[run_index] - acc_lengths_ptr[run_index - 1]);
-                }
+                const auto run_end = static_cast<std::uint64_t>(acc_lengths_ptr[run_index]);
+                const auto run_begin = run_index == 0 ? std::uint64_t(0) : static_cast<std::uint64_t>(acc_lengths_ptr[run_index - 1]);
+                return run_end - std::max(run_begin, offset);
             },
             m_acc_lengths
         );
         return ret;
     }
-    
+
+    inline auto run_end_encoded_array::get_first_run_index() const -> std::uint64_t
+    {
+        return size() == 0 ? 0 : get_run_index(0);
+    }
+
     inline arrow_proxy& run_end_encoded_array::get_arrow_proxy()
     {
         return m_proxy;
@@ -191,7 +197,7 @@ namespace sparrow
 
     inline auto run_end_encoded_array::begin() -> iterator
     {
-        return iterator(this, 0, 0);
+        return iterator(this, 0, get_first_run_index());
     }
 
     inline auto run_end_encoded_array::end() -> iterator
@@ -211,7 +217,7 @@ namespace sparrow
 
     inline auto run_end_encoded_array::cbegin() const -> const_iterator
     {
-        return const_iterator(this, 0, 0);
+        return const_iterator(this, 0, get_first_run_index());
     }
 
     inline auto run_end_encoded_array::cend() const -> const_iterator
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index a5d5608..dc2023d 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -33,24 +33,27 @@ namespace sparrow
         );
     }
 
-    auto run_end_encoded_array::operator[](std::uint64_t i) const -> array_traits::const_reference
+    auto run_end_encoded_array::get_run_index(std::uint64_t index) const -> std::uint64_t
     {
         return visit(
-            [i, this](const auto& acc_lengths_ptr) -> array_traits::const_reference
+            [i = index + m_proxy.offset(), this](const auto& acc_lengths_ptr) -> std::uint64_t
             {
                 const auto it = std::upper_bound(
                     acc_lengths_ptr,
                     acc_lengths_ptr + this->m_encoded_length,
                     i
                 );
-                // std::lower_bound returns an iterator, so we need to convert it to an index
-                const auto index = static_cast<std::size_t>(std::distance(acc_lengths_ptr, it));
-                return array_element(*p_encoded_values_array, static_cast<std::size_t>(index));
+                return static_cast<std::uint64_t>(std::distance(acc_lengths_ptr, it));
             },
             m_acc_lengths
         );
     }
 
+    auto run_end_encoded_array::operator[](std::uint64_t i) const -> array_traits::const_reference
+    {
+        return array_element(*p_encoded_values_array, static_cast<std::size_t>(get_run_index(i)));
+    }
+
     std::pair<std::int64_t, std::int64_t> run_end_encoded_array::extract_length_and_null_count(
         const array& acc_lengths_arr, 
         const array& encoded_values_arr
-- 
2.43.0


From f01aa724093a7020e1464a990e93296852f2f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:19 +0000
Subject: [PATCH 28/61] fix: building an empty run end encoded array read the
 end of its last run

---
 src/run_encoded_array.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index dc2023d..6755e3f 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -71,6 +71,9 @@ namespace sparrow
             {
                 if constexpr(usable_array<std::decay_t<decltype(acc_lengths_array)>>)
                 {   
+                    if(raw_size == 0){
+                        return;
+                    }
                     auto acc_length_data = acc_lengths_array.data();
                     // get the length of the array (ie last element in the acc_lengths array)
                     length = acc_length_data[raw_size - 1];
-- 
2.43.0


From b9af5ef3185ed03e8dc892142bfddc7d5ff84a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 29/61] fix: slices of slices ignored the offset of the slice
 they were taken from

---
 src/arrow_array_schema_proxy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 5d6e770..8934bb4 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -848,7 +848,7 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(start <= end);
         arrow_proxy copy = *this;
-        copy.set_offset(start);
+        copy.set_offset(offset() + start);
         copy.set_length(end - start);
         return copy;
     }
@@ -859,7 +859,7 @@ namespace sparrow
         ArrowSchema as = schema();
         as.release = empty_release_arrow_schema;
         ArrowArray ar = array();
-        ar.offset = static_cast<int64_t>(start);
+        ar.offset = static_cast<int64_t>(offset() + start);
         ar.length = static_cast<int64_t>(end - start);
         ar.release = empty_release_arrow_array;
         return arrow_proxy{std::move(ar), std::move(as)};
-- 
2.43.0


From dcc712b28b1364110c84e3f937b6e6b5b276cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 30/61] fix: null count of slices was that of the whole array

---
 include/sparrow/arrow_array_schema_proxy.hpp |  1 +
 src/arrow_array_schema_proxy.cpp             | 31 ++++++++++++++------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index da2b707..584d0ca 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -405,6 +405,7 @@ namespace sparrow
         void update_children();
         void update_dictionary();
         void update_null_count();
+        [[nodiscard]] int64_t compute_null_count() const;
         void reset();
 
         [[nodiscard]] bool array_created_with_sparrow() const;
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 8934bb4..c429d38 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -701,18 +701,29 @@ namespace sparrow
         return res;
     }
 
+    int64_t arrow_proxy::compute_null_count() const
+    {
+        if (format() == "n")
+        {
+            return array().length;
+        }
+        if (!has_bitmap(data_type()))
+        {
+            return array().null_count;
+        }
+        const auto& validity_buffer = buffers().front();
+        // The elements before the offset are not part of the array
+        const dynamic_bitset_view<const std::uint8_t> bitmap(validity_buffer.data(), length() + offset());
+        const dynamic_bitset_view<const std::uint8_t> skipped(validity_buffer.data(), offset());
+        return static_cast<int64_t>(bitmap.null_count() - skipped.null_count());
+    }
+
     void arrow_proxy::update_null_count()
     {
-        if(has_bitmap(data_type()))
+        if (has_bitmap(data_type()) || format() == "n")
         {
-            const auto& validity_buffer = buffers().front();
-            // The elements before the offset are not part of the array
-            const dynamic_bitset_view<const std::uint8_t> bitmap(validity_buffer.data(), length() + offset());
-            const dynamic_bitset_view<const std::uint8_t> skipped(validity_buffer.data(), offset());
-            const auto null_count = bitmap.null_count() - skipped.null_count();
-            set_null_count(static_cast<int64_t>(null_count));
+            set_null_count(compute_null_count());
         }
-        
     }
 
     bool arrow_proxy::is_arrow_array_valid() const
@@ -862,6 +873,8 @@ namespace sparrow
         ar.offset = static_cast<int64_t>(offset() + start);
         ar.length = static_cast<int64_t>(end - start);
         ar.release = empty_release_arrow_array;
-        return arrow_proxy{std::move(ar), std::move(as)};
+        arrow_proxy view{std::move(ar), std::move(as)};
+        view.array().null_count = view.compute_null_count();
+        return view;
     }
 }
-- 
2.43.0


From c859d5c9b29a7557ae4fe1385e0790b238fb1514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 31/61] fix: replacing a buffer computed the null count from
 the replaced buffer

---
 src/arrow_array_schema_proxy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index c429d38..b776c3d 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -511,8 +511,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, buffer);
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     void arrow_proxy::set_buffer(size_t index, buffer<uint8_t>&& buffer)
@@ -523,8 +523,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, std::move(buffer));
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     [[nodiscard]] const std::vector<arrow_proxy>& arrow_proxy::children() const
-- 
2.43.0


From 2682d40d0322bc8c4452dfdf73c908c2c62472e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 32/61] fix: copying an array without validity buffer gave it
 an empty one that was then read

---
 src/arrow_interface/arrow_array.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 8c2bb06..1720c6c 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -232,7 +232,15 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(buffers.size() == static_cast<std::size_t>(source_array.n_buffers));
         for (const auto& buffer : buffers)
         {
-            buffers_copy.emplace_back(buffer);
+            if (buffer.data() == nullptr)
+            {
+                // An omitted buffer is omitted in the copy too
+                buffers_copy.emplace_back();
+            }
+            else
+            {
+                buffers_copy.emplace_back(buffer);
+            }
         }
         target.private_data = new arrow_array_private_data(
             std::move(buffers_copy),
-- 
2.43.0


From ceaed92a457fd0e0c5a19fb875ed7fe5df6177e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:24 +0000
Subject: [PATCH 33/61] fix: slices of union arrays claimed the null count of
 the whole array

---
 src/arrow_array_schema_proxy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index b776c3d..e5688e2 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -709,7 +709,8 @@ namespace sparrow
         }
         if (!has_bitmap(data_type()))
         {
-            return array().null_count;
+            // Not known without reading the children
+            return array().null_count == 0 ? 0 : -1;
         }
         const auto& validity_buffer = buffers().front();
         // The elements before the offset are not part of the array
@@ -861,6 +862,7 @@ namespace sparrow
         arrow_proxy copy = *this;
         copy.set_offset(offset() + start);
         copy.set_length(end - start);
+        copy.array().null_count = copy.compute_null_count();
         return copy;
     }
 
-- 
2.43.0


From cab3c957486c161f4ae59647d9d4d82ffcecfb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 34/61] fix: copies of bool and timestamp arrays lost most of
 their values

---
 src/arrow_interface/arrow_array.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 1720c6c..1c7b621 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -128,6 +128,17 @@ namespace sparrow
             return buffer_view_type(buffer_ptr, size);
         };
 
+        // The elements of the arrays of bool and timestamp built by sparrow do not have the size given by their format
+        auto make_values_buffer = [&](auto index, auto size)
+        {
+            if (array.release == std::addressof(release_arrow_array))
+            {
+                const auto private_data = static_cast<const arrow_array_private_data*>(array.private_data);
+                return make_buffer(index, private_data->buffers()[static_cast<size_t>(index)].size());
+            }
+            return make_buffer(index, size);
+        };
+
         switch(format_to_data_type(schema.format))
         {   
             case data_type::NA:
@@ -135,7 +146,7 @@ namespace sparrow
             case data_type::MAP:
                 return {};
             case data_type::BOOL:   
-                return {make_valid_buffer(), make_buffer(1, (size + 7) / 8)};
+                return {make_valid_buffer(), make_values_buffer(1, (size + 7) / 8)};
             case data_type::UINT8:
             case data_type::INT8:
                 return {make_valid_buffer(), make_buffer(1, size)};
@@ -170,7 +181,7 @@ namespace sparrow
             case data_type::DENSE_UNION:
                 return {make_buffer(0, size), make_buffer(1, size*4)};
             case data_type::TIMESTAMP:
-                return {make_valid_buffer(), make_buffer(1, size * 8)};
+                return {make_valid_buffer(), make_values_buffer(1, size * 8)};
             case data_type::DECIMAL:
                 return {make_valid_buffer(), make_buffer(1, size * 16)}; 
             case data_type::FIXED_WIDTH_BINARY:
-- 
2.43.0


From 01241a048847aac1bb6800453a731ea881473564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:52 +0000
Subject: [PATCH 35/61] fix: run end encoded arrays rejected the run end types
 of the specification

---
 .../run_end_encoded_layout/run_end_encoded_array.hpp      | 4 +++-
 src/run_encoded_array.cpp                                 | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
index aab2977..d210269 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
@@ -95,7 +95,9 @@ namespace sparrow
             array && encoded_values
         ) -> arrow_proxy;
 
-        using acc_length_ptr_variant_type = std::variant< const std::uint16_t*, const std::uint32_t*,const std::uint64_t*> ;
+        using acc_length_ptr_variant_type = std::variant<
+            const std::uint16_t*, const std::uint32_t*, const std::uint64_t*,
+            const std::int16_t*, const std::int32_t*, const std::int64_t*>;
 
         SPARROW_API static std::pair<std::int64_t, std::int64_t> extract_length_and_null_count( const array&, const array&);
         SPARROW_API static acc_length_ptr_variant_type get_acc_lengths_ptr(const array_wrapper& ar);
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index 6755e3f..9dad340 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -11,7 +11,10 @@ namespace sparrow
              mpl::is_type_instance_of_v<T, primitive_array> && (
              std::same_as<typename T::inner_value_type, std::uint16_t> ||
              std::same_as<typename T::inner_value_type, std::uint32_t> ||
-             std::same_as<typename T::inner_value_type, std::uint64_t>);
+             std::same_as<typename T::inner_value_type, std::uint64_t> ||
+             std::same_as<typename T::inner_value_type, std::int16_t> ||
+             std::same_as<typename T::inner_value_type, std::int32_t> ||
+             std::same_as<typename T::inner_value_type, std::int64_t>);
     
     auto run_end_encoded_array::get_acc_lengths_ptr(const array_wrapper& ar) -> acc_length_ptr_variant_type
     {
@@ -41,7 +44,8 @@ namespace sparrow
                 const auto it = std::upper_bound(
                     acc_lengths_ptr,
                     acc_lengths_ptr + this->m_encoded_length,
-                    i
+                    i,
+                    [](std::uint64_t lhs, auto run_end) { return lhs < static_cast<std::uint64_t>(run_end); }
                 );
                 return static_cast<std::uint64_t>(std::distance(acc_lengths_ptr, it));
             },
-- 
2.43.0


From 9367cf160851689eb7496b4527570a41e6ea538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 36/61] fix: unknown formats were read as null arrays and large
 strings as strings

---
 src/array_factory.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/array_factory.cpp b/src/array_factory.cpp
index 4e4302c..2724a83 100644
--- a/src/array_factory.cpp
+++ b/src/array_factory.cpp
@@ -69,6 +69,11 @@ namespace sparrow
             switch(dt)
             {
             case data_type::NA:
+                // Also the data type of unknown formats
+                if (proxy.format() != "n")
+                {
+                    throw std::runtime_error("not supported data type");
+                }
                 return detail::make_wrapper_ptr<null_array>(std::move(proxy));
             case data_type::BOOL:
                 return detail::make_wrapper_ptr<primitive_array<bool>>(std::move(proxy));
@@ -109,6 +114,11 @@ namespace sparrow
             case data_type::STRUCT:
                 return detail::make_wrapper_ptr<struct_array>(std::move(proxy));
             case data_type::STRING:
+                // The data type does not distinguish 64-bit offsets
+                if (proxy.format() != "u")
+                {
+                    throw std::runtime_error("not yet supported data type");
+                }
                 return detail::make_wrapper_ptr<string_array>(std::move(proxy)); 
             case data_type::RUN_ENCODED:
                 return detail::make_wrapper_ptr<run_end_encoded_array>(std::move(proxy));
-- 
2.43.0


From eaf7fa8d4518b75675ffd5456f0cd687fb92b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 37/61] fix: adding a child replaced the proxies of the other
 children by copies

---
 include/sparrow/arrow_array_schema_proxy.hpp | 4 ++--
 src/arrow_array_schema_proxy.cpp             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 584d0ca..3f29b67 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -81,8 +81,8 @@ namespace sparrow
         SPARROW_API arrow_proxy& operator=(const arrow_proxy&);
 
         // Move constructors
-        SPARROW_API arrow_proxy(arrow_proxy&&);
-        SPARROW_API arrow_proxy& operator=(arrow_proxy&&);
+        SPARROW_API arrow_proxy(arrow_proxy&&) noexcept;
+        SPARROW_API arrow_proxy& operator=(arrow_proxy&&) noexcept;
 
         SPARROW_API ~arrow_proxy();
 
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index e5688e2..5f9e41f 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -173,7 +173,7 @@ namespace sparrow
         return *this;
     }
 
-    arrow_proxy::arrow_proxy(arrow_proxy&& other)
+    arrow_proxy::arrow_proxy(arrow_proxy&& other) noexcept
         : m_array(std::move(other.m_array))
         , m_schema(std::move(other.m_schema))
         , m_buffers(std::move(other.m_buffers))
@@ -185,7 +185,7 @@ namespace sparrow
         other.reset();
     }
 
-    arrow_proxy& arrow_proxy::operator=(arrow_proxy&& rhs)
+    arrow_proxy& arrow_proxy::operator=(arrow_proxy&& rhs) noexcept
     {
         swap(rhs);
         return *this;
-- 
2.43.0


From 72a426aa2750d29c528492b3bde99e28820d5784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 38/61] fix: setters on a sparrow array with a schema of
 another producer left it inconsistent

---
 src/arrow_array_schema_proxy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 5f9e41f..244fd78 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -37,7 +37,7 @@ namespace sparrow
 
     void arrow_proxy::update_buffers()
     {
-        if (is_created_with_sparrow())
+        if (array_created_with_sparrow())
         {
             get_array_private_data()->update_buffers_ptrs();
             array().buffers = get_array_private_data()->buffers_ptrs<void>();
@@ -361,7 +361,7 @@ namespace sparrow
 
     void arrow_proxy::set_null_count(int64_t null_count)
     {
-        if (!is_created_with_sparrow())
+        if (!array_created_with_sparrow())
         {
             throw arrow_proxy_exception("Cannot set null_count on non-sparrow created ArrowArray");
         }
-- 
2.43.0


From dced425df53563ee6db0a6f7d0d78ff0d3fb9922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 39/61] fix: buffer sizes of large string and binary arrays

---
 src/arrow_interface/arrow_array.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 1c7b621..b40119b 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -164,6 +164,10 @@ namespace sparrow
                 return {make_valid_buffer(), make_buffer(1, size * 8)};
             case data_type::STRING:
             case data_type::BINARY:
+                if (schema.format[0] == 'U' || schema.format[0] == 'Z')  // large string and binary
+                {
+                    return {make_valid_buffer(), make_buffer(1, (size + 1) * 8), make_buffer(2, static_const_ptr_cast<int64_t>(array.buffers[1])[size])};
+                }
                 return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, static_const_ptr_cast<int32_t>(array.buffers[1])[size])};
             case data_type::LIST:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 4)};
-- 
2.43.0


From 84be03dde8126065f70920beecc3110474f885d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 40/61] fix: buffer size of decimal arrays with a bit width

---
 src/arrow_interface/arrow_array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index b40119b..84179c3 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -94,7 +94,7 @@ namespace sparrow
         else
         {
             // get the position of second comma
-            const auto second_comma_ptr = std::strchr(format, ',');
+            const auto second_comma_ptr = std::strchr(std::strchr(format, ',') + 1, ',');
             if(!all_digits(std::string_view(second_comma_ptr + 1)))
             {
                 throw std::runtime_error("Invalid format for decimal");
@@ -187,7 +187,7 @@ namespace sparrow
             case data_type::TIMESTAMP:
                 return {make_valid_buffer(), make_values_buffer(1, size * 8)};
             case data_type::DECIMAL:
-                return {make_valid_buffer(), make_buffer(1, size * 16)}; 
+                return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_decimal(schema.format))}; 
             case data_type::FIXED_WIDTH_BINARY:
                 return {make_valid_buffer(), make_buffer(1, size *  num_bytes_for_fixed_sized_binary(schema.format))};
             case data_type::STRING_VIEW:
-- 
2.43.0


From c170160c863490aabce52953b0c9c19024d31d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 41/61] fix: map arrays have a validity and an offsets buffer

---
 .../sparrow/arrow_interface/arrow_array_schema_info_utils.hpp   | 2 +-
 src/arrow_interface/arrow_array.cpp                             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp
index b4e1398..498f341 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp
@@ -62,8 +62,8 @@ namespace sparrow
             case data_type::FIXED_SIZED_LIST:
             case data_type::STRING_VIEW:
             case data_type::BINARY_VIEW:
-                return true;
             case data_type::MAP:
+                return true;
             case data_type::NA:
             case data_type::SPARSE_UNION:
             case data_type::DENSE_UNION:
diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 84179c3..4f7978f 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -143,7 +143,6 @@ namespace sparrow
         {   
             case data_type::NA:
             case data_type::RUN_ENCODED:
-            case data_type::MAP:
                 return {};
             case data_type::BOOL:   
                 return {make_valid_buffer(), make_values_buffer(1, (size + 7) / 8)};
@@ -170,6 +169,7 @@ namespace sparrow
                 }
                 return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, static_const_ptr_cast<int32_t>(array.buffers[1])[size])};
             case data_type::LIST:
+            case data_type::MAP:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 4)};
             case data_type::LARGE_LIST:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 8)};
-- 
2.43.0


From ebc15a1b789a444897eeadf957d540b027d72280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 42/61] fix: ordering of nullable and nullval was not defined

---
 include/sparrow/utils/nullable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/utils/nullable.hpp b/include/sparrow/utils/nullable.hpp
index 2d90860..d69c5db 100644
--- a/include/sparrow/utils/nullable.hpp
+++ b/include/sparrow/utils/nullable.hpp
@@ -732,10 +732,10 @@ namespace sparrow
         return !lhs;
     }
 
-    template <class T, class B>
+    template <class T, mpl::boolean_like B>
     constexpr std::strong_ordering operator<=>(const nullable<T, B>& lhs, nullval_t) noexcept
     {
-        return lhs <=> false;
+        return bool(lhs) <=> false;
     }
     
     template <class T, class B, class U>
-- 
2.43.0


From c393cb5b024a9cdc550542638386c8af22e7cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 43/61] fix: converting a nullable of bool to another took its
 flag for its value

---
 include/sparrow/utils/nullable.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sparrow/utils/nullable.hpp b/include/sparrow/utils/nullable.hpp
index d69c5db..dc5ade1 100644
--- a/include/sparrow/utils/nullable.hpp
+++ b/include/sparrow/utils/nullable.hpp
@@ -305,6 +305,8 @@ namespace sparrow
         template <class U>
         requires (
             not std::same_as<self_type, std::decay_t<U>> and
+            // The conversion of a nullable to bool gives its flag, not its value
+            not (std::same_as<std::decay_t<T>, bool> and impl::is_nullable_v<std::decay_t<U>>) and
             std::constructible_from<T, U&&>
         )
         explicit (not std::convertible_to<U&&, T>)
@@ -328,11 +330,11 @@ namespace sparrow
         {
         }
 
-#ifdef __clang__
         template <class TO, mpl::boolean_like BO>
         requires (
             impl::both_constructible_from_cref<T, TO, B, BO> and
-            std::same_as<std::decay_t<T>, bool>
+            std::same_as<std::decay_t<T>, bool> and
+            impl::initializable_from_refs<T, nullable<TO, BO>>
         )
         explicit(not impl::both_convertible_from_cref<T, TO, B, BO>)
         SPARROW_CONSTEXPR nullable(const nullable<TO, BO>& rhs)
@@ -340,7 +342,6 @@ namespace sparrow
             , m_null_flag(rhs.null_flag())
         {
         }
-#endif
 
         constexpr nullable(self_type&&) noexcept = default;
 
@@ -356,11 +357,11 @@ namespace sparrow
         {
         }
 
-#ifdef __clang__
         template <class TO, mpl::boolean_like BO>
         requires (
             impl::both_constructible_from_cond_ref<T, TO, B, BO> and
-            std::same_as<std::decay_t<T>, bool>
+            std::same_as<std::decay_t<T>, bool> and
+            impl::initializable_from_refs<T, nullable<TO, BO>>
         )
         explicit(not impl::both_convertible_from_cond_ref<T, TO, B, BO>)
         SPARROW_CONSTEXPR nullable(nullable<TO, BO>&& rhs)
@@ -368,7 +369,6 @@ namespace sparrow
             , m_null_flag(std::move(rhs).null_flag())
         {
         }
-#endif
   
         constexpr nullable(value_type&& value, flag_type&& null_flag)
             : m_value(std::move(value))
-- 
2.43.0


From 123351dabc3825076e794e43d5c807a42a78910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 44/61] fix: build misplaced the elements after a null list or
 string with contents

---
 include/sparrow/builder/builder_utils.hpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/sparrow/builder/builder_utils.hpp b/include/sparrow/builder/builder_utils.hpp
index 0fd7c58..5600877 100644
--- a/include/sparrow/builder/builder_utils.hpp
+++ b/include/sparrow/builder/builder_utils.hpp
@@ -271,18 +271,9 @@ namespace detail
     std::size_t get_size_save(T&& t)
     {
         using decayed = std::decay_t<T>;
-        if constexpr(is_nullable_like<decayed>)
-        {
-            if (t.has_value())
-            {
-                return get_size_save(t.get());
-            }
-            else
-            {
-                return 0;
-            }
-        }
-        else if constexpr(is_express_layout_desire<decayed>)
+        // a null may hold a value which is not empty, and
+        // ensure_value_range does not skip that value
+        if constexpr(is_nullable_like<decayed> || is_express_layout_desire<decayed>)
         {
             return get_size_save(t.get());
         }
-- 
2.43.0


From 79a905851f31607fbd4705ce9d41ca4d8c3c191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 45/61] fix: dictionary encoding replaced NaN by another value

---
 include/sparrow/builder/nested_less.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/sparrow/builder/nested_less.hpp b/include/sparrow/builder/nested_less.hpp
index b3116ce..076fcf6 100644
--- a/include/sparrow/builder/nested_less.hpp
+++ b/include/sparrow/builder/nested_less.hpp
@@ -15,6 +15,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <vector>
 
 #include <sparrow/builder/builder_utils.hpp>
@@ -37,6 +38,14 @@ namespace sparrow
         {
             bool operator()(const T& a, const T& b) const
             {
+                if constexpr (std::is_floating_point_v<T>)
+                {
+                    // NaN comes first, so that this is a strict weak ordering
+                    if (std::isnan(a) || std::isnan(b))
+                    {
+                        return std::isnan(a) && !std::isnan(b);
+                    }
+                }
                 return a < b;
             }
         };  
-- 
2.43.0


From e9302d9029a84576d4d3d72fb91d61f067305d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 46/61] fix: run-end encoding of an empty range made a run
 without a value

---
 include/sparrow/builder/builder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/builder/builder.hpp b/include/sparrow/builder/builder.hpp
index ff306fa..e05b5b0 100644
--- a/include/sparrow/builder/builder.hpp
+++ b/include/sparrow/builder/builder.hpp
@@ -407,7 +407,10 @@ struct builder<T, enforce_run_end_encoded_layout, OPTION_FLAGS>
             }
             ++i;
         }
-        acc_run_lengths.push_back(i);
+        if(i != 0)
+        {
+            acc_run_lengths.push_back(i);
+        }
     
         auto run_length_typed_array = primitive_array<std::size_t>(acc_run_lengths);
 
-- 
2.43.0


From 5c2f5686905c9dfd8e43eaca51bc6457b7932241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 47/61] fix: record_batch emptied the names and columns it was
 constructed from

---
 include/sparrow/record_batch.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/record_batch.hpp b/include/sparrow/record_batch.hpp
index c6f3e75..8e1c459 100644
--- a/include/sparrow/record_batch.hpp
+++ b/include/sparrow/record_batch.hpp
@@ -157,8 +157,8 @@ namespace sparrow
         requires(std::convertible_to<std::ranges::range_value_t<NR>, std::string>
                  and std::same_as<std::ranges::range_value_t<CR>, array>)
     record_batch::record_batch(NR&& names, CR&& columns)
-        : m_name_list(to_vector<name_type>(std::move(names)))
-        , m_array_list(to_vector<array>(std::move(columns)))
+        : m_name_list(to_vector<name_type>(std::forward<NR>(names)))
+        , m_array_list(to_vector<array>(std::forward<CR>(columns)))
     {
         init_array_map();
         SPARROW_ASSERT_TRUE(check_consistency());
@@ -172,7 +172,15 @@ namespace sparrow
         {
             v.reserve(std::ranges::size(range));
         }
-        std::ranges::move(range, std::back_inserter(v));
+        if constexpr (std::is_lvalue_reference_v<R> || std::ranges::view<R>)
+        {
+            // The elements belong to the caller.
+            std::ranges::copy(range, std::back_inserter(v));
+        }
+        else
+        {
+            std::ranges::move(range, std::back_inserter(v));
+        }
         return v;
     }
 }
-- 
2.43.0


From 9759bbfd178851f9d088b8c1f20b49ca8eac4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 48/61] fix: the size of a default-constructed array
 dereferenced null

---
 src/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index 2b08f14..bb9120d 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -54,7 +54,7 @@ namespace sparrow
 
     array::size_type array::size() const
     {
-        return array_size(*p_array);
+        return p_array ? array_size(*p_array) : size_type(0);
     }
 
     array::const_reference array::at(size_type index) const
-- 
2.43.0


From c9b6afafe5478b36c3df5d554d5ac9c790adfd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 49/61] fix: any_allocator constructed from an lvalue standard
 allocator did not equal one constructed from an rvalue

---
 include/sparrow/buffer/allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/allocator.hpp b/include/sparrow/buffer/allocator.hpp
index a0dc13a..7e3497d 100644
--- a/include/sparrow/buffer/allocator.hpp
+++ b/include/sparrow/buffer/allocator.hpp
@@ -145,7 +145,7 @@ namespace sparrow
         }
 
         template <class A>
-            requires can_any_allocator_sbo<A, T>
+            requires can_any_allocator_sbo<std::remove_cvref_t<A>, T>
         A&& make_storage(A&& alloc) const
         {
             return std::forward<A>(alloc);
-- 
2.43.0


From b18911cc3bcae8d297c4d2b933270efd87b8dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 50/61] fix: moved-from buffers with a custom allocator could
 not be used again

---
 include/sparrow/buffer/allocator.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/allocator.hpp b/include/sparrow/buffer/allocator.hpp
index 7e3497d..d47c406 100644
--- a/include/sparrow/buffer/allocator.hpp
+++ b/include/sparrow/buffer/allocator.hpp
@@ -70,7 +70,7 @@ namespace sparrow
 
         any_allocator();
         any_allocator(const any_allocator& rhs);
-        any_allocator(any_allocator&&) = default;
+        any_allocator(any_allocator&& rhs) noexcept;
 
         any_allocator& operator=(const any_allocator& rhs) = delete;
         any_allocator& operator=(any_allocator&& rhs) = delete;
@@ -207,6 +207,17 @@ namespace sparrow
     {
     }
 
+    template <class T>
+    any_allocator<T>::any_allocator(any_allocator&& rhs) noexcept
+        : m_storage(std::move(rhs.m_storage))
+    {
+        // A moved-from allocator can still be used
+        if (std::holds_alternative<std::unique_ptr<interface>>(rhs.m_storage))
+        {
+            rhs.m_storage.template emplace<std::allocator<T>>();
+        }
+    }
+
     template <class T>
     [[nodiscard]] T* any_allocator<T>::allocate(std::size_t n)
     {
-- 
2.43.0


From 4ac75508e24d5302622785fe6bd803cd235cb666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 51/61] fix: floats of magnitude between 65536 and 131071
 became NaN halves

---
 include/sparrow/details/3rdparty/float16_t.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/details/3rdparty/float16_t.hpp b/include/sparrow/details/3rdparty/float16_t.hpp
index 4743e81..0a516af 100644
--- a/include/sparrow/details/3rdparty/float16_t.hpp
+++ b/include/sparrow/details/3rdparty/float16_t.hpp
@@ -194,7 +194,7 @@ namespace half
         const std::uint32_t is_h_nan_eqz_msb = ( m_nan - 1 );
         const std::uint32_t is_f_inf_msb = ( is_f_e_flagged_msb & is_f_m_eqz_msb );
         const std::uint32_t is_f_nan_underflow_msb = ( is_f_e_flagged_msb & is_h_nan_eqz_msb );
-        const std::uint32_t is_e_overflow_msb = ( h_e_mask_value - f_e_half_bias );
+        const std::uint32_t is_e_overflow_msb = ( h_e_mask_value - one - f_e_half_bias );
         const std::uint32_t is_h_inf_msb = ( is_e_overflow_msb | is_f_inf_msb );
         const std::uint32_t is_f_nsnan_msb = ( f_snan - f_snan_mask );
         const std::uint32_t is_m_norm_overflow_msb = ( -f_m_rounded_overflow );
-- 
2.43.0


From 94d409fdab6fd7cb00eb704ba986704ef9b605c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 52/61] fix: signalling NaNs became infinite halves

---
 include/sparrow/details/3rdparty/float16_t.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/details/3rdparty/float16_t.hpp b/include/sparrow/details/3rdparty/float16_t.hpp
index 0a516af..395eb1e 100644
--- a/include/sparrow/details/3rdparty/float16_t.hpp
+++ b/include/sparrow/details/3rdparty/float16_t.hpp
@@ -154,7 +154,6 @@ namespace half
         const std::uint32_t f_m_mask = ( 0x007fffff );
         const std::uint32_t f_m_hidden_bit = ( 0x00800000 );
         const std::uint32_t f_m_round_bit = ( 0x00001000 );
-        const std::uint32_t f_snan_mask = ( 0x7fc00000 );
         const std::uint32_t f_e_pos = ( 0x00000017 );
         const std::uint32_t h_e_pos = ( 0x0000000a );
         const std::uint32_t h_e_mask = ( 0x00007c00 );
@@ -171,7 +170,7 @@ namespace half
         const std::uint32_t f_m = ( f & f_m_mask );
         const std::uint16_t f_e_amount = ( f_e >> f_e_pos );
         const std::uint32_t f_e_half_bias = ( f_e_amount - f_h_bias_offset );
-        const std::uint32_t f_snan = ( f & f_snan_mask );
+        const std::uint32_t f_em = ( f_e | f_m );
         const std::uint32_t f_m_round_mask = ( f_m & f_m_round_bit );
         const std::uint32_t f_m_round_offset = ( f_m_round_mask << one );
         const std::uint32_t f_m_rounded = ( f_m + f_m_round_offset );
@@ -196,9 +195,8 @@ namespace half
         const std::uint32_t is_f_nan_underflow_msb = ( is_f_e_flagged_msb & is_h_nan_eqz_msb );
         const std::uint32_t is_e_overflow_msb = ( h_e_mask_value - one - f_e_half_bias );
         const std::uint32_t is_h_inf_msb = ( is_e_overflow_msb | is_f_inf_msb );
-        const std::uint32_t is_f_nsnan_msb = ( f_snan - f_snan_mask );
         const std::uint32_t is_m_norm_overflow_msb = ( -f_m_rounded_overflow );
-        const std::uint32_t is_f_snan_msb = ( ~is_f_nsnan_msb );
+        const std::uint32_t is_f_snan_msb = ( f_e_mask - f_em );
         const std::uint32_t h_em_overflow_result = half_private::_uint32_sels( is_m_norm_overflow_msb, h_e_norm_overflow, h_em_norm );
         const std::uint32_t h_em_nan_result = half_private::_uint32_sels( is_f_e_flagged_msb, h_em_nan, h_em_overflow_result );
         const std::uint32_t h_em_nan_underflow_result = half_private::_uint32_sels( is_f_nan_underflow_msb, h_nan_min, h_em_nan_result );
-- 
2.43.0


From 2b170e29c07a20193270c4e5681e35d46fd4137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 53/61] fix: subnormal halves were truncated and lost rounding
 carries

---
 include/sparrow/details/3rdparty/float16_t.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/details/3rdparty/float16_t.hpp b/include/sparrow/details/3rdparty/float16_t.hpp
index 395eb1e..73c7f3a 100644
--- a/include/sparrow/details/3rdparty/float16_t.hpp
+++ b/include/sparrow/details/3rdparty/float16_t.hpp
@@ -175,9 +175,9 @@ namespace half
         const std::uint32_t f_m_round_offset = ( f_m_round_mask << one );
         const std::uint32_t f_m_rounded = ( f_m + f_m_round_offset );
         const std::uint32_t f_m_denorm_sa = ( one - f_e_half_bias );
-        const std::uint32_t f_m_with_hidden = ( f_m_rounded | f_m_hidden_bit );
+        const std::uint32_t f_m_with_hidden = ( f_m | f_m_hidden_bit );
         const std::uint32_t f_m_denorm = f_m_denorm_sa < 32 ? ( f_m_with_hidden >> f_m_denorm_sa ) : 0;
-        const std::uint32_t h_m_denorm = ( f_m_denorm >> f_h_m_pos_offset );
+        const std::uint32_t h_m_denorm = ( ( f_m_denorm + f_m_round_bit ) >> f_h_m_pos_offset );
         const std::uint32_t f_m_rounded_overflow = ( f_m_rounded & f_m_hidden_bit );
         const std::uint32_t m_nan = ( f_m >> f_h_m_pos_offset );
         const std::uint32_t h_em_nan = ( h_e_mask | m_nan );
-- 
2.43.0


From 33c2ddcefd06e15dbfcb9eb6eab63be6f3861c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 54/61] fix: float16 classification used the masks of bfloat16

---
 include/sparrow/details/3rdparty/float16_t.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/details/3rdparty/float16_t.hpp b/include/sparrow/details/3rdparty/float16_t.hpp
index 73c7f3a..3edb268 100644
--- a/include/sparrow/details/3rdparty/float16_t.hpp
+++ b/include/sparrow/details/3rdparty/float16_t.hpp
@@ -927,23 +927,23 @@ namespace numeric
 
     constexpr inline bool is_nan( float16_t f16 ) noexcept
     {
-        return (std::uint16_t(f16) & 0x7fff) > 0x7f80;
+        return (std::uint16_t(f16) & 0x7fff) > 0x7c00;
     }
 
     constexpr inline bool is_inf( float16_t f16 ) noexcept
     {
-        return (std::uint16_t(f16) & 0x7fff) == 0x7f80;
+        return (std::uint16_t(f16) & 0x7fff) == 0x7c00;
     }
 
     constexpr inline bool is_finite( float16_t f16 ) noexcept
     {
-        return (std::uint16_t(f16) & 0x7f80) != 0x7f80;
+        return (std::uint16_t(f16) & 0x7c00) != 0x7c00;
     }
 
     constexpr inline bool is_normal( float16_t f16 ) noexcept
     {
-        auto const exponent = std::uint16_t(f16) & 0x7f80;
-        return (exponent != 0x7f80) && (exponent != 0);
+        auto const exponent = std::uint16_t(f16) & 0x7c00;
+        return (exponent != 0x7c00) && (exponent != 0);
     }
 
     constexpr inline bool is_positive( float16_t f16 ) noexcept
-- 
2.43.0


From 938be6d5d8134dd087498ef4743ccdd217fbd4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 55/61] fix: wrong negative constants and numeric limits of
 float16

---
 include/sparrow/details/3rdparty/float16_t.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/details/3rdparty/float16_t.hpp b/include/sparrow/details/3rdparty/float16_t.hpp
index 3edb268..8cc814b 100644
--- a/include/sparrow/details/3rdparty/float16_t.hpp
+++ b/include/sparrow/details/3rdparty/float16_t.hpp
@@ -705,11 +705,11 @@ namespace numeric
     constexpr inline float16_t         fp16_epsilon{ static_cast<std::uint16_t>(0x1400) };
 
     constexpr inline float16_t         fp16_one{ static_cast<std::uint16_t>(0x3c00) };
-    constexpr inline float16_t         fp16_one_negative{ static_cast<std::uint16_t>(0x4000) };
+    constexpr inline float16_t         fp16_one_negative{ static_cast<std::uint16_t>(0xbc00) };
     constexpr inline float16_t         fp16_two{ static_cast<std::uint16_t>(0x4000) };
     constexpr inline float16_t         fp16_two_negative{ static_cast<std::uint16_t>(0xc000) };
     constexpr inline float16_t         fp16_half{ static_cast<std::uint16_t>(0x3800) };
-    constexpr inline float16_t         fp16_half_negative{ static_cast<std::uint16_t>(0x3b00) };
+    constexpr inline float16_t         fp16_half_negative{ static_cast<std::uint16_t>(0xb800) };
     constexpr inline float16_t         fp16_zero{ static_cast<std::uint16_t>(0x0) };
     constexpr inline float16_t         fp16_zero_negative{ static_cast<std::uint16_t>(0x8000) };
     constexpr inline float16_t         fp16_e{ static_cast<std::uint16_t>(0x4170) };
@@ -991,7 +991,7 @@ namespace std
         static constexpr numeric::float16_t lowest() noexcept { return numeric::fp16_min; }
         static constexpr int digits = 11;
         static constexpr int digits10 = 3;
-        static constexpr int max_digits10 = 4;
+        static constexpr int max_digits10 = 5;
         static constexpr bool is_signed = true;
         static constexpr bool is_integer = false;
         static constexpr bool is_exact = false;
@@ -1000,7 +1000,7 @@ namespace std
         static constexpr numeric::float16_t round_error() noexcept { return numeric::fp16_half; }
         static constexpr int min_exponent = -13;
         static constexpr int min_exponent10 = -4;
-        static constexpr int max_exponent = 14;
+        static constexpr int max_exponent = 16;
         static constexpr int max_exponent10 = 4;
         static constexpr bool has_infinity = true;
         static constexpr bool has_quiet_NaN = true;
-- 
2.43.0


From 28105e12c3fc81847e8ec970ff08456f9ed261d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 56/61] fix: comparison of halves ignored NaN and the equality
 of zeros

---
 .../sparrow/details/3rdparty/float16_t.hpp    | 24 ++++---------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/include/sparrow/details/3rdparty/float16_t.hpp b/include/sparrow/details/3rdparty/float16_t.hpp
index 8cc814b..2d25a6b 100644
--- a/include/sparrow/details/3rdparty/float16_t.hpp
+++ b/include/sparrow/details/3rdparty/float16_t.hpp
@@ -743,28 +743,12 @@ namespace numeric
 
     constexpr inline bool operator < ( float16_t lhs, float16_t rhs ) noexcept
     {
-        auto const& l_ieee = lhs.data_.ieee_;
-        auto const& r_ieee = rhs.data_.ieee_;
-
-        if ( l_ieee.sign_ == 1 )
-        {
-            if ( r_ieee.sign_ == 0 ) return true;
-            if ( l_ieee.exp_ > r_ieee.exp_ ) return true;
-            if ( l_ieee.exp_ < r_ieee.exp_ ) return false;
-            if ( l_ieee.frac_ > r_ieee.frac_ ) return true;
-            return false;
-        }
-
-        if ( r_ieee.sign_ == 1 ) return false;
-        if ( l_ieee.exp_ > r_ieee.exp_ ) return false;
-        if ( l_ieee.exp_ < r_ieee.exp_ ) return true;
-        if ( l_ieee.frac_ >= r_ieee.frac_ ) return false;
-        return true;
+        return float(lhs) < float(rhs);
     }
 
     constexpr inline bool operator == ( float16_t lhs, float16_t rhs ) noexcept
     {
-        return lhs.data_.bits_ == rhs.data_.bits_;
+        return float(lhs) == float(rhs);
     }
 
     constexpr inline bool operator <= ( float16_t lhs, float16_t rhs ) noexcept
@@ -774,12 +758,12 @@ namespace numeric
 
     constexpr inline bool operator > ( float16_t lhs, float16_t rhs ) noexcept
     {
-        return !( lhs <= rhs );
+        return rhs < lhs;
     }
 
     constexpr inline bool operator >= ( float16_t lhs, float16_t rhs ) noexcept
     {
-        return !( lhs < rhs );
+        return rhs <= lhs;
     }
 
     constexpr inline bool operator != ( float16_t lhs, float16_t rhs ) noexcept
-- 
2.43.0


From b795f936316078301201e2b216c72ea2910412e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 57/61] fix: the end of a list view overflowed the type of its
 offsets

---
 include/sparrow/layout/list_layout/list_array.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index 00809c8..6f7d13d 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -330,7 +330,7 @@ namespace sparrow
 
         static constexpr std::size_t OFFSET_BUFFER_INDEX = 1;
         static constexpr std::size_t SIZES_BUFFER_INDEX = 2;
-        std::pair<offset_type, offset_type> offset_range(size_type i) const;
+        std::pair<size_type, size_type> offset_range(size_type i) const;
 
         offset_type* make_list_offsets();
         offset_type* make_list_sizes();
@@ -647,10 +647,11 @@ namespace sparrow
 
     template <bool BIG>
     inline auto
-    list_view_array_impl<BIG>::offset_range(size_type i) const -> std::pair<offset_type, offset_type>
+    list_view_array_impl<BIG>::offset_range(size_type i) const -> std::pair<size_type, size_type>
     {
-        const auto offset = p_list_offsets[i];
-        return std::make_pair(offset, offset + p_list_sizes[i]);
+        // The end of a list view may not be representable in the type of the offsets
+        const auto offset = static_cast<size_type>(p_list_offsets[i]);
+        return std::make_pair(offset, offset + static_cast<size_type>(p_list_sizes[i]));
     }
 
     template <bool BIG>
-- 
2.43.0


From 7d9b92cf514c21b2cbbf3ffa5db474b47fb89ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:23 +0000
Subject: [PATCH 58/61] fix: inserting in a buffer assigned to raw memory and
 constructed over live elements

---
 include/sparrow/buffer/buffer.hpp | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index bede7fa..a94dae5 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -787,28 +787,16 @@ namespace sparrow
         {
             // value may refer to an element of this buffer
             const value_type tmp(value);
+            const size_type old_size = size();
             reserve_with_growth_factor( size() + count);
+            resize(old_size + count, tmp);
             const iterator it = std::next(begin(), offset);
-            std::move_backward(it, end(), std::next(end(), static_cast<difference_type>(count)));
+            std::move_backward(it, std::next(begin(), static_cast<difference_type>(old_size)), end());
             std::fill_n(it, count, tmp);
-            get_data().p_end += count;
         }
         return std::next(begin(), offset);
     }
 
-    template <typename T>
-    struct is_move_iterator : std::false_type
-    {
-    };
-
-    template <typename Iterator>
-    struct is_move_iterator<std::move_iterator<Iterator>> : std::true_type
-    {
-    };
-
-    template <typename T>
-    constexpr bool is_move_iterator_v = is_move_iterator<T>::value;
-
     template <class T>
     template <mpl::iterator_of_type<T> InputIt>
     constexpr auto buffer<T>::insert(const_iterator pos, InputIt first, InputIt last) -> iterator
@@ -823,14 +811,8 @@ namespace sparrow
         const iterator new_pos = std::next(begin(), offset);
         const iterator end_it = std::next(begin(), static_cast<difference_type>(old_size));
         std::move_backward(new_pos, end_it, end());
-        if constexpr (is_move_iterator_v<InputIt>)
-        {
-            std::uninitialized_move(first, last, new_pos);
-        }
-        else
-        {
-            std::uninitialized_copy(first, last, new_pos);
-        }
+        // The elements from new_pos are alive
+        std::copy(first, last, new_pos);
         return new_pos;
     }
 
@@ -867,7 +849,7 @@ namespace sparrow
         {
             alloc_traits::construct(get_allocator(), get_data().p_end, std::move(*(get_data().p_end - 1)));
             std::move_backward(p, get_data().p_end - 1, get_data().p_end);
-            alloc_traits::construct(get_allocator(), p, std::move(tmp));
+            *p = std::move(tmp);
         }
         else
         {
-- 
2.43.0


From a937a9a93d25e0640d1cbbc06739e34186912d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 59/61] fix: resizing a bitset over a larger borrowed buffer
 kept stale bits and sizes

---
 .../buffer/dynamic_bitset/dynamic_bitset_base.hpp        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index e4203ed..dcdcb97 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -486,7 +486,7 @@ namespace sparrow
         const size_type extra_bits = count_extra_bits();
         if (extra_bits != 0)
         {
-            buffer().back() &= block_type(~(~block_type(0) << extra_bits));
+            buffer().data()[block_index(size())] &= block_type(~(~block_type(0) << extra_bits));
         }
     }
 
@@ -508,10 +508,15 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr void dynamic_bitset_base<B>::resize(size_type n, value_type b)
     {
-        const size_type old_block_count = buffer().size();
+        const size_type old_block_count = compute_block_count(m_size);
         const size_type new_block_count = compute_block_count(n);
         const block_type value = b ? block_type(~block_type(0)) : block_type(0);
 
+        // The buffer can have more blocks than the bits require, their content is not part of the bitset
+        if (buffer().size() > old_block_count)
+        {
+            buffer().resize(old_block_count);
+        }
         if (new_block_count != old_block_count)
         {
             buffer().resize(new_block_count, value);
-- 
2.43.0


From 5ab92390ac0d56ac47c5a74bd767e5bfccf79c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 60/61] fix: assigning a value to an element of an array
 without validity buffer dereferenced a null pointer

---
 include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
index ef7585a..06e4330 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
@@ -163,6 +163,10 @@ namespace sparrow
     template <class B>
     constexpr void bitset_reference<B>::set() noexcept
     {
+        if (m_bitset.data() == nullptr)
+        {
+            return;  // every bit of a bitset without buffer is set
+        }
         bool old_value = m_block & m_mask;
         m_block |= m_mask;
         m_bitset.update_null_count(old_value, m_block & m_mask);
-- 
2.43.0


From 10c15a68309e009561d6316a6e313271cfaebc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 61/61] fix: structure factories counted the nulls before the
 offset

---
 .../arrow_array_schema_factory.hpp              | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_factory.hpp b/include/sparrow/arrow_interface/arrow_array_schema_factory.hpp
index b4822ec..95d21fe 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_factory.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_factory.hpp
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 
 #include "sparrow/arrow_interface/arrow_array.hpp"
@@ -75,7 +76,13 @@ namespace sparrow
     constexpr ArrowArray make_variable_size_binary_arrow_array(Values&& range, Nulls&& nulls, int64_t offset)
     {
         const auto length = static_cast<int64_t>(std::ranges::size(range)) - offset;
-        const auto null_count = static_cast<int64_t>(std::ranges::size(nulls));
+        const auto null_count = static_cast<int64_t>(std::ranges::count_if(
+            nulls,
+            [offset](const auto i)
+            {
+                return static_cast<int64_t>(i) >= offset;
+            }
+        ));
         std::vector<buffer<uint8_t>> value_buffers{
             make_bitmap_buffer(std::ranges::size(range), std::move(nulls)),
             range_to_buffer(make_offset_buffer<offset_type>(range)),
@@ -90,7 +97,13 @@ namespace sparrow
     constexpr ArrowArray make_primitive_arrow_array(Values&& range, Nulls&& nulls, int64_t offset)
     {
         const int64_t length = static_cast<int64_t>(std::ranges::size(range)) - offset;
-        const auto null_count = static_cast<int64_t>(std::ranges::size(nulls));
+        const auto null_count = static_cast<int64_t>(std::ranges::count_if(
+            nulls,
+            [offset](const auto i)
+            {
+                return static_cast<int64_t>(i) >= offset;
+            }
+        ));
         std::vector<buffer<uint8_t>> value_buffers{
             make_bitmap_buffer(std::ranges::size(range), std::move(nulls)),
             range_to_buffer(std::move(range))
-- 
2.43.0

