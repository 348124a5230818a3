From ad80028f34563d579bb6fa20f325a133a5ed611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:39 +0000
Subject: [PATCH 01/31] fix: reject IPv6 text with an embedded NUL character
 instead of ignoring the rest of the group

---
 include/ipaddress/base-v6.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 2f155cb..ee4434b 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -362,6 +362,10 @@ private:
                 parts_count = error_symbol;
                 return empty_parts;
             }
+            if (c == '\0') {
+                error = error_code::part_has_invalid_symbol;
+                return empty_parts;
+            }
             if (!has_double_colon && c == ':' && prev_c == ':') {
                 has_double_colon = true;
             }
-- 
2.43.0


From 0184313fb796e816b4d4781ac3eca4406b3448ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:39 +0000
Subject: [PATCH 02/31] fix: reject a scope id with an embedded NUL character
 instead of truncating it

---
 include/ipaddress/base-v6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index ee4434b..9a6f76e 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -20,7 +20,7 @@ namespace IPADDRESS_NAMESPACE {
 namespace internal {
 
 IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_invalid_scope_id_symbol(char c) IPADDRESS_NOEXCEPT {
-    return c == '%' || c == '/' 
+    return c == '\0' || c == '%' || c == '/' 
 #ifndef IPADDRESS_SCOPE_ID_SUPPORT_SPACES
     || c == ' ' || (c >= '\t' && c <= '\r')
 #endif // IPADDRESS_SCOPE_ID_SUPPORT_SPACES
-- 
2.43.0


From 4bf960f1b122bfc895f019a0023f75b9492c80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:14 +0000
Subject: [PATCH 03/31] fix: accept an IPv6 address whose leading '::' stands
 for one group before an IPv4 suffix

---
 include/ipaddress/base-v6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 9a6f76e..a02efea 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -421,7 +421,7 @@ private:
         }
 
         if (has_ipv4) {
-            if (parts_count + 1 >= _max_parts) {
+            if (parts_count + (has_double_colon ? 1 : 2) > _max_parts) {
                 error = error_code::most_8_colons_permitted;
                 return empty_parts;
             }
-- 
2.43.0


From 52267f59e55efc77501f7d2dcb65bf4419e0ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:04 +0000
Subject: [PATCH 04/31] fix: name the existing constant in the default prefix
 length of from_address, which did not compile when used

---
 include/ipaddress/ip-network-base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 04a8136..e036247 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -424,7 +424,7 @@ public:
      */
     IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         auto code = error_code::no_error;
@@ -452,7 +452,7 @@ public:
     static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
         error_code& code, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT {
         code = error_code::no_error;
-- 
2.43.0


From 0b7f669683f73b81fcbac60d4bd521c0d4691ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:04 +0000
Subject: [PATCH 05/31] fix: reject a prefix length longer than the address in
 from_address instead of writing out of bounds

---
 include/ipaddress/ip-network-base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index e036247..6144d3b 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -457,6 +457,11 @@ public:
     ) IPADDRESS_NOEXCEPT {
         code = error_code::no_error;
 
+        if (prefixlen > ip_address_type::base_max_prefixlen) {
+            code = error_code::invalid_netmask;
+            return ip_network_base();
+        }
+
         const auto netmask = ip_address_type::ip_from_prefix(prefixlen); 
 
         ip_network_base result;
-- 
2.43.0


From aacc299ff3f0de8612af5eefa8acff3f39b2ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:04 +0000
Subject: [PATCH 06/31] fix: compute the supernet of a full-length prefix down
 to /0 without an out-of-range shift

---
 include/ipaddress/ip-network-base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 6144d3b..5b1dc5c 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1132,7 +1132,7 @@ public:
         }
 
         const auto new_prefix = prefixlen() - prefixlen_diff;
-        const auto address = ip_address_type::from_uint(network_address().to_uint() & (netmask().to_uint() << prefixlen_diff));
+        const auto address = ip_address_type::from_uint(network_address().to_uint() & ip_address_type::ip_from_prefix(new_prefix).to_uint());
         return ip_network_base<Base>::from_address(address, new_prefix);
     }
 
-- 
2.43.0


From 16c490bd57175292c4dffc864ced35b224a0e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:13 +0000
Subject: [PATCH 07/31] fix: include <limits>, without which the headers did
 not compile in C++11 and C++14

---
 include/ipaddress/config.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ipaddress/config.hpp b/include/ipaddress/config.hpp
index f0e52a7..3a8e20b 100644
--- a/include/ipaddress/config.hpp
+++ b/include/ipaddress/config.hpp
@@ -23,6 +23,7 @@
 #  include <array>
 #  include <tuple>
 #  include <cmath>
+#  include <limits>
 #  include <cassert>
 #  include <sstream>
 #  include <iomanip>
-- 
2.43.0


From 764397839f96b34a54b052c922ea3afe3b645514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:36 +0000
Subject: [PATCH 08/31] fix: keep the order, signed offsets and differences of
 address and network iterators exact

---
 include/ipaddress/ip-address-iterator.hpp | 17 +++++++-----
 include/ipaddress/ip-network-iterator.hpp | 34 +++++++++++++++--------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index dcbfc15..d4fedd6 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -555,7 +555,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        n < 0 ? sub(uint_type(-(n + 1)) + 1) : add(uint_type(n));
         return *this;
     }
 
@@ -581,7 +581,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        n < 0 ? add(uint_type(-(n + 1)) + 1) : sub(uint_type(n));
         return *this;
     }
 
@@ -689,7 +689,10 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_address_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_offset - other._offset);
+        // the carry counts whole address spaces, which only fit in the difference type when the address is shorter than it
+        const auto spaces = _carry - other._carry - (_offset < other._offset ? 1 : 0);
+        const auto space_size = difference_type(~uint_type(0)) + 1;
+        return difference_type(_offset - other._offset) + spaces * space_size;
     }
 
     /**
@@ -792,7 +795,7 @@ private:
         const auto old = result._offset;
         ++result._offset;
         if (result._offset < old) {
-            result._carry = 1 - result._carry;
+            result._carry = result._carry + 1;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -803,7 +806,7 @@ private:
         const auto old = result._offset;
         --result._offset;
         if (result._offset > old) {
-            result._carry = 1 - result._carry;
+            result._carry = result._carry - 1;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -814,7 +817,7 @@ private:
             const auto old = _offset;
             _offset += n;
             if (_offset < old) {
-                _carry = 1 - _carry;
+                _carry = _carry + 1;
             }
             _current = value_type::from_uint(_offset);
         }
@@ -825,7 +828,7 @@ private:
             const auto old = _offset;
             _offset -= n;
             if (_offset > old) {
-                _carry = 1 - _carry;
+                _carry = _carry - 1;
             }
             _current = value_type::from_uint(_offset);
         }
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index a40e03c..3b4818f 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -67,7 +67,11 @@ public:
      *         which can correctly represent all addresses using the integer number uint128_t
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint_type uint_diff(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _it.uint_diff(other._it) / _step;
+        if (*this == other) {
+            return 0;
+        }
+        // a step of zero stands for the whole address space
+        return _step == 0 ? uint_type(1) : uint_type((_it.uint_diff(other._it) - _step) / _step + 1);
     }
 
     /**
@@ -169,7 +173,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        n < 0 ? sub(uint_type(-(n + 1)) + 1) : add(uint_type(n));
         return *this;
     }
 
@@ -195,7 +199,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        n < 0 ? add(uint_type(-(n + 1)) + 1) : sub(uint_type(n));
         return *this;
     }
 
@@ -303,7 +307,7 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_it - other._it);
+        return *this < other ? -difference_type(other.uint_diff(*this) - 1) - 1 : difference_type(uint_diff(other));
     }
 
     /**
@@ -405,8 +409,8 @@ private:
         auto result = *this;
         const auto old = result._it._offset;
         result._it._offset += _step;
-        if (result._it._offset < old) {
-            result._it._carry = 1 - result._it._carry;
+        if (result._it._offset <= old) {
+            result._it._carry = result._it._carry + 1;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
         result._current = value_type::from_address(*result._it, result._prefixlen);
@@ -417,8 +421,8 @@ private:
         auto result = *this;
         const auto old = result._it._offset;
         result._it._offset -= _step;
-        if (result._it._offset > old) {
-        result._it._carry = 1 - result._it._carry;
+        if (result._it._offset >= old) {
+            result._it._carry = result._it._carry - 1;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
         result._current = value_type::from_address(*result._it, result._prefixlen);
@@ -426,13 +430,19 @@ private:
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n) IPADDRESS_NOEXCEPT {
-        _it += _step * n;
-        _current = value_type::from_address(*_it, _prefixlen);
+        if (n != 0) {
+            // the last step on its own, as all of them together may be the whole address space
+            _it += _step * (n - 1);
+            *this = base();
+        }
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n) IPADDRESS_NOEXCEPT {
-        _it -= _step * n;
-        _current = value_type::from_address(*_it, _prefixlen);
+        if (n != 0) {
+            // the last step on its own, as all of them together may be the whole address space
+            _it -= _step * (n - 1);
+            *this = reverse();
+        }
     }
 
     template <typename>
-- 
2.43.0


From 986f7a707f0f6cff886f29151516ba11eb74cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:36 +0000
Subject: [PATCH 09/31] fix: let hosts() reach the top of the address space

---
 include/ipaddress/ip-address-iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index d4fedd6..1618131 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -894,7 +894,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(broadcast_address.to_uint() + 1);
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         } else if (prefixlen == max_prefixlen) {
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(network_address.to_uint() + 1);
@@ -904,7 +904,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint() + 1);
             const auto end = value_type::from_uint(broadcast_address.to_uint() + (std::is_same<value_type, ipv6_address>::value ? 1 : 0));
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         }
     }
 
-- 
2.43.0


From 7cc83d289b5f8c6a105b29facdb2072ac61a4659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:13 +0000
Subject: [PATCH 10/31] fix: split the whole address space into subnets, and up
 to its top, without a division by zero or an endless range

---
 include/ipaddress/ip-network-iterator.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 3b4818f..e9c556c 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -744,10 +744,11 @@ public:
         const auto end_uint = broadcast_address.to_uint();
         const auto begin = ip_address_type::from_uint(begin_uint);
         const auto end = ip_address_type::from_uint(end_uint + 1);
-        const auto step = (hostmask.to_uint() >> prefixlen_diff) + 1;
+        // zero when the step is the whole address space
+        const auto step = (prefixlen_diff < ip_address_type::base_max_prefixlen ? hostmask.to_uint() >> prefixlen_diff : difference_type(0)) + 1;
         _begin = const_iterator(begin, step, new_prefixlen);
-        _end = const_iterator(end, step, new_prefixlen, begin == end ? 1 : 0);
-        _size = (end_uint - begin_uint) / step + 1;
+        _end = const_iterator(end, step, new_prefixlen, end <= begin ? 1 : 0);
+        _size = step == 0 ? difference_type(1) : difference_type((end_uint - begin_uint) / step + 1);
     }
 
     /**
-- 
2.43.0


From fdcca42829fd94029d2e1edcf69e55a6ac922b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:45 +0000
Subject: [PATCH 11/31] fix: do not take a remaining network at the bottom of
 the address space for the end of address_exclude()

---
 include/ipaddress/ip-network-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index e9c556c..1f14b76 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -585,7 +585,7 @@ public:
      * @return `true` if the iterators are equal, `false` otherwise.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator==(const ip_exclude_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _current == other._current;
+        return _current == other._current && _s1 == other._s1 && _s2 == other._s2;
     }
 
     /**
-- 
2.43.0


From 181a236f1a3e17d4ded3505f33dc90511b766156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 12/31] fix: reject a prefix length difference so large that
 adding it wraps around in subnets()

---
 include/ipaddress/ip-network-base.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 5b1dc5c..0ae4e50 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1043,13 +1043,13 @@ public:
             prefixlen_diff = new_prefixlen.value() - prefixlen();
         }
 
-        auto new_prefix = prefixlen() + prefixlen_diff;
-
-        if (new_prefix > ip_address_type::base_max_prefixlen) {
+        if (prefixlen_diff > ip_address_type::base_max_prefixlen - prefixlen()) {
             code = error_code::invalid_prefixlen_diff;
             return subnets_sequence<ip_network_base<Base>>();
         }
 
+        const auto new_prefix = prefixlen() + prefixlen_diff;
+
         return subnets_sequence<ip_network_base<Base>>(address, broadcast_address(), hostmask(), prefixlen_diff, new_prefix);
     }
 
-- 
2.43.0


From dfc205fee451d7e7bfbd578eb9e6864a3027eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:00 +0000
Subject: [PATCH 13/31] fix: clear a stale error code in subnets() and
 address_exclude()

---
 include/ipaddress/ip-network-base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 0ae4e50..be4f772 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -943,6 +943,7 @@ public:
      * @remark `exclude_network_sequence` uses lazy evaluation to iterate networks.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE exclude_network_sequence<ip_network_base<Base>> address_exclude(const ip_network_base& other, error_code& code) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         auto lhs = Base::remove_scope_id(*this);
         auto rhs = Base::remove_scope_id(other);
 
@@ -1025,6 +1026,7 @@ public:
      * @remark `subnets_sequence` uses lazy evaluation to iterate over the subnets.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE subnets_sequence<ip_network_base<Base>> subnets(error_code& code, size_t prefixlen_diff = 1, optional<size_t> new_prefixlen = nullptr) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         auto address = Base::remove_scope_id(network_address());
 
         if (prefixlen() == ip_address_type::base_max_prefixlen) {
-- 
2.43.0


From 56fecf65c016ec0ea70d9a698856d9c99b54a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:12 +0000
Subject: [PATCH 14/31] fix: parse the whole address part of a network instead
 of a truncated copy of it

---
 include/ipaddress/ip-network-base.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index be4f772..4fff641 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1266,10 +1266,10 @@ private:
         auto it = str.data();
         auto end = str.data() + str.size();
         auto has_slash = false;
+        auto address_end = end;
         auto netmask = end;
-        auto symbol = 0;
-        char address[ip_address_type::base_max_string_len + 1] = {};
         while (it < end) {
+            const auto symbol = it;
             const auto c = internal::next_char_or_error(it, end, code, code_value);
             if (code != error_code::no_error) {
                 return ip_network_base<Base>();
@@ -1283,15 +1283,10 @@ private:
                     code = error_code::empty_netmask;
                     return ip_network_base<Base>();
                 }
+                address_end = symbol;
                 netmask = it;
                 has_slash = true;
             }
-            if (!has_slash) {
-                address[symbol++] = c;
-            }
-            if (symbol > ip_address_type::base_max_string_len) {
-                break;
-            }
         }
 
         auto netmask_result = ip_address_type::parse_netmask(netmask, end, code, code_value);
@@ -1301,7 +1296,8 @@ private:
         }
 
         ip_network_base<Base> result;
-        result._network_address = ip_address_type::parse(address, code);
+        uint32_t address_value = 0;
+        result._network_address = ip_address_type::ip_from_string(str.data(), address_end, code, address_value);
         result._netmask = std::get<0>(netmask_result);
         result._prefixlen = std::get<1>(netmask_result);
 
-- 
2.43.0


From 0cbb94f080bcc88e46e5eeb558a3ac90c06f3bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:45 +0000
Subject: [PATCH 15/31] fix: take the netmask 0.0.0.0 for the prefix length 0
 instead of shifting out of range

---
 include/ipaddress/base-v4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 3a225ee..2244fc4 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -243,7 +243,7 @@ private:
         auto trailing_zeroes = count_righthand_zero_bits(ip, base_max_prefixlen);
         auto prefixlen = base_max_prefixlen - trailing_zeroes;
         auto leading_ones = trailing_zeroes != 32 ? (ip >> trailing_zeroes) : 0;
-        auto all_ones = (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1); // NOLINT
+        auto all_ones = prefixlen != 0 ? (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1) : 0; // NOLINT
         if (leading_ones != all_ones) {
             code = error_code::netmask_pattern_mixes_zeroes_and_ones;
             return 0;
-- 
2.43.0


From 0ce446461b6285bc5fdd48a636031e852093c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:18 +0000
Subject: [PATCH 16/31] fix: reject a prefix length so long that its value
 wraps around

---
 include/ipaddress/base-v4.hpp | 2 +-
 include/ipaddress/base-v6.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 2244fc4..043f393 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -191,7 +191,7 @@ protected:
                 return std::make_tuple(ip_address_base<Ext>(), 0);
             }
             if (c >= '0' && c <= '9') {
-                prefixlen = prefixlen * 10 + (c - '0');
+                prefixlen = prefixlen > base_max_prefixlen ? prefixlen : prefixlen * 10 + (c - '0');
             } else {
                 is_value = false;
                 break;
diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index a02efea..6534a78 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -253,7 +253,7 @@ protected:
                 return std::make_tuple(ip_address_base<Ext>(), 0);
             }
             if (c >= '0' && c <= '9') {
-                prefixlen = prefixlen * 10 + (c - '0');
+                prefixlen = prefixlen > base_max_prefixlen ? prefixlen : prefixlen * 10 + (c - '0');
             } else {
                 code = error_code::invalid_netmask;
                 return std::make_tuple(ip_address_base<Ext>(), 0);
-- 
2.43.0


From bcfa079ca984e01f3290bf241e32822e767b22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:09 +0000
Subject: [PATCH 17/31] fix: keep a malformed UTF-8 or UTF-16 sequence
 malformed and do not read past its end

---
 include/ipaddress/unicode.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/unicode.hpp b/include/ipaddress/unicode.hpp
index 2caa68e..d17ae1a 100644
--- a/include/ipaddress/unicode.hpp
+++ b/include/ipaddress/unicode.hpp
@@ -109,12 +109,12 @@ struct utf8_reader {
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint32_t trailing_utf8_code_point(const T*& it, const T* end, bool& correct) IPADDRESS_NOEXCEPT {
-        if (++it >= end) {
+        if (!correct || it + 1 >= end) {
             correct = false;
             return 0;
         } 
+        ++it;
         if ((uint8_t(*it) & 0b11000000) == 0b10000000) {
-            correct = true;
             return uint8_t(*it) & 0b00111111;
         } 
         correct = false;
@@ -135,10 +135,11 @@ struct utf16_reader {
                 break;
             
             case 2:
-                if (++it >= end) {
+                if (it + 1 >= end) {
                     correct = false;
                     break;
                 } 
+                ++it;
                 if ((*it & 0b1111110000000000) == 0b1101110000000000) {
                     symbol.value = ((symbol.value << 10) | (uint16_t(*it) & 0b0000001111111111)) + 0x10000;
                 } else {
-- 
2.43.0


From 1a1f4ba618830869b04658abf9acf497a0f7fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:38 +0000
Subject: [PATCH 18/31] fix: reject overlong UTF-8 sequences

---
 include/ipaddress/unicode.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ipaddress/unicode.hpp b/include/ipaddress/unicode.hpp
index d17ae1a..87b3316 100644
--- a/include/ipaddress/unicode.hpp
+++ b/include/ipaddress/unicode.hpp
@@ -79,6 +79,11 @@ struct utf8_reader {
                     break;
             }
         }
+        if ((symbol.length == 2 && symbol.value < 0x80) ||
+            (symbol.length == 3 && symbol.value < 0x800) ||
+            (symbol.length == 4 && symbol.value < 0x10000)) {
+            correct = false;
+        }
         ++it;
         if (!correct) {
             error = error_code::wrong_encoding_sequence;
-- 
2.43.0


From baee6252a8c608e42d0ff1c8f91fe859e869aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:05 +0000
Subject: [PATCH 19/31] fix: compare the scope ids of IPv6 addresses only when
 the addresses are equal

---
 include/ipaddress/ipv6-address.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index ed081ff..6e9414c 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -811,7 +811,7 @@ protected:
         return lhs._data.bytes < rhs._data.bytes 
         
         #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
-            ? true : lhs._data.scope_id.compare(rhs._data.scope_id) < 0;
+            || (lhs._data.bytes == rhs._data.bytes && lhs._data.scope_id.compare(rhs._data.scope_id) < 0)
         #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
             ;
     }
-- 
2.43.0


From 830b571077ada8c74e457bd4e10149ead0ad3706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:42 +0000
Subject: [PATCH 20/31] fix: take only ::ffff:0:0/96 for IPv4-mapped addresses

---
 include/ipaddress/ipv6-address.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index 6e9414c..bd218de 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -721,6 +721,11 @@ public:
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE optional<ipv4_address> ipv4_mapped() const IPADDRESS_NOEXCEPT {
         const auto& b = bytes();
+        for (size_t i = 0; i < 10; ++i) {
+            if (b[i] != 0) {
+                return nullptr;
+            }
+        }
         if (b[10] != 0xFF || b[11] != 0xFF) {
             return nullptr;
         } 
-- 
2.43.0


From ed24a17e9a85ff4607fbda4aca34154ad2bcae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:10 +0000
Subject: [PATCH 21/31] fix: shift a 128-bit integer by 128 bits without an
 out-of-range shift

---
 include/ipaddress/uint128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index e4dfa96..71b0462 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -950,7 +950,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { _lower << (shift - 64), 0 };
         }
         if (shift < 64 && shift > 0) {
@@ -973,7 +973,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { 0, _upper >> (shift - 64) };
         }
         if (shift < 64 && shift > 0) {
-- 
2.43.0


From 508abafae4b4ddb0b557e57eaa4d8e0406b7acda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:47 +0000
Subject: [PATCH 22/31] fix: do not parse text that is empty, does not fit or
 goes on after a NUL as a 128-bit integer

---
 include/ipaddress/uint128.hpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index 71b0462..b20dc65 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -494,7 +494,11 @@ public:
      */
     template <typename T, size_t N>
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE optional<uint128_t> from_string(const T(&str)[N], format fmt = format::decimal) IPADDRESS_NOEXCEPT {
-        return str_to_uint128(str, str + N, fmt);
+        const T* end = str;
+        while (end < str + N && *end != T(0)) {
+            ++end;
+        }
+        return str_to_uint128(str, end, fmt);
     }
 
     /**
@@ -1573,6 +1577,9 @@ private:
 #endif
     template <typename T>
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE optional<uint128_t> str_to_uint128(const T* begin, const T* end, format fmt) IPADDRESS_NOEXCEPT {
+        if (begin == end) {
+            return nullptr;
+        }
         switch (fmt) {
             case format::octal:
                 return oct_str_to_uint128(begin, end);
@@ -1591,17 +1598,19 @@ private:
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE optional<uint128_t> dec_str_to_uint128(const T* begin, const T* end) IPADDRESS_NOEXCEPT {
         error_code code = error_code::no_error;
         uint32_t error_symbol = 0;
+        const uint128_t max_value(0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF);
         uint128_t result = 0;
         const T* it = begin;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, code, error_symbol);
             if (code != error_code::no_error) { // NOLINT(bugprone-branch-clone)
                 return nullptr;
-            } else if (c == '\0') {
-                break;
             } else if (c < '0' || c > '9') {
                 return nullptr;
             }
+            if (result > max_value / 10 || (result == max_value / 10 && c > '5')) {
+                return nullptr;
+            }
             result = result * 10 + (c - '0');
         }
         return result;
@@ -1611,17 +1620,19 @@ private:
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE optional<uint128_t> oct_str_to_uint128(const T* begin, const T* end) IPADDRESS_NOEXCEPT {
         error_code code = error_code::no_error;
         uint32_t error_symbol = 0;
+        const uint128_t max_value(0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF);
         uint128_t result = 0;
         const T* it = begin;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, code, error_symbol);
             if (code != error_code::no_error) { // NOLINT(bugprone-branch-clone)
                 return nullptr;
-            } else if (c == '\0') {
-                break;
             } else if (c < '0' || c > '7') {
                 return nullptr;
             }
+            if (result > max_value / 8) {
+                return nullptr;
+            }
             result = result * 8 + (c - '0');
         }
         return result;
@@ -1631,6 +1642,7 @@ private:
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE optional<uint128_t> hex_str_to_uint128(const T* begin, const T* end) IPADDRESS_NOEXCEPT {
         error_code code = error_code::no_error;
         uint32_t error_symbol = 0;
+        const uint128_t max_value(0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF);
         uint128_t result = 0;
         int digit = 0;
         const T* it = begin;
@@ -1638,8 +1650,6 @@ private:
             const auto c = internal::next_char_or_error(it, end, code, error_symbol);
             if (code != error_code::no_error) { // NOLINT(bugprone-branch-clone)
                 return nullptr;
-            } else if (c == '\0') {
-                break;
             } else if (c >= '0' && c <= '9') {
                 digit = c - '0';
             } else if (c >= 'A' && c <= 'F') {
@@ -1649,6 +1659,9 @@ private:
             } else {
                 return nullptr;
             }
+            if (result > max_value / 16) {
+                return nullptr;
+            }
             result = result * 16 + digit;
         }
         return result;
-- 
2.43.0


From 8c15532d3c405ad5d33f912d25c566dcfeb33a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:42 +0000
Subject: [PATCH 23/31] fix: round a large 128-bit integer correctly when it is
 converted to floating point

---
 include/ipaddress/uint128.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index b20dc65..a44a3d5 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -1471,7 +1471,7 @@ private:
             return double(lower + upper);
         }
 
-        double lower = uint64_bits_to_double(two_pow_76_bits | ((uint64_t)(value >> 12) >> 12) | (value._lower & 0xFFFFFF)) - two_pow_76;
+        double lower = uint64_bits_to_double(two_pow_76_bits | ((uint64_t)(value >> 12) >> 12) | ((value._lower & 0xFFFFFF) != 0 ? 1 : 0)) - two_pow_76;
         double upper = uint64_bits_to_double(two_pow_128_bits | (uint64_t)(value >> 76)) - two_pow_128;
         return double(lower + upper);
     }
-- 
2.43.0


From 90a24db6836bf18c6e559eac859e698656794c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:03 +0000
Subject: [PATCH 24/31] fix: report out-of-range access in byte_array and
 fixed_string as documented

---
 include/ipaddress/byte-array.hpp   | 40 ++++++++++++++++++++++++------
 include/ipaddress/fixed-string.hpp | 18 +++++++++++---
 2 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/include/ipaddress/byte-array.hpp b/include/ipaddress/byte-array.hpp
index 2156e3b..27fea8f 100644
--- a/include/ipaddress/byte-array.hpp
+++ b/include/ipaddress/byte-array.hpp
@@ -153,7 +153,7 @@ struct byte_array {
      * @return A reference to the element at the specified index.
      * @throw std::out_of_range When going beyond the bounds of the array.
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference operator[](size_t n) IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference operator[](size_t n) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
@@ -164,7 +164,7 @@ struct byte_array {
      * @return A const reference to the element at the specified index.
      * @throw std::out_of_range When going beyond the bounds of the array.
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
@@ -175,7 +175,12 @@ struct byte_array {
      * @return A reference to the element at the specified index.
      * @throw std::out_of_range When going beyond the bounds of the array.
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference at(size_t n) IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference at(size_t n) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= N) {
+            throw std::out_of_range("index out of range");
+        }
+    #endif
         return _data[n];
     }
 
@@ -186,7 +191,12 @@ struct byte_array {
      * @return A const reference to the element at the specified index.
      * @throw std::out_of_range When going beyond the bounds of the array.
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= N) {
+            throw std::out_of_range("index out of range");
+        }
+    #endif
         return _data[n];
     }
 
@@ -319,19 +329,33 @@ public:
         return 0;
     }
 
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference operator[](size_t n) IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference operator[](size_t n) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference at(size_t /*n*/) IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference at(size_t n) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= size()) {
+            throw std::out_of_range("index out of range");
+        }
+    #else
+        (void) n;
+    #endif
         return *data();
     }
 
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t /*n*/) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= size()) {
+            throw std::out_of_range("index out of range");
+        }
+    #else
+        (void) n;
+    #endif
         return *data();
     }
 
diff --git a/include/ipaddress/fixed-string.hpp b/include/ipaddress/fixed-string.hpp
index 21d2020..69c6c88 100644
--- a/include/ipaddress/fixed-string.hpp
+++ b/include/ipaddress/fixed-string.hpp
@@ -243,7 +243,7 @@ struct fixed_string {
      * @throw std::out_of_range When going beyond the bounds of the character array.
      * @sa at(size_t) const
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
@@ -258,7 +258,12 @@ struct fixed_string {
      * @throw std::out_of_range When going beyond the bounds of the character array.
      * @sa operator[](size_t) const
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= length) {
+            throw std::out_of_range("index out of range");
+        }
+    #endif
         return _data[n];
     }
 
@@ -475,7 +480,14 @@ struct fixed_string<0> {
         return at(n);
     }
 
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t /*n*/) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= size()) {
+            throw std::out_of_range("index out of range");
+        }
+    #else
+        (void) n;
+    #endif
         return front();
     }
 
-- 
2.43.0


From 3c43c1f1829d6e105091de1c709a5d8d54ffebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:03 +0000
Subject: [PATCH 25/31] fix: fixed_string::back() returns the last character of
 the string

---
 include/ipaddress/fixed-string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/fixed-string.hpp b/include/ipaddress/fixed-string.hpp
index 69c6c88..b2d9462 100644
--- a/include/ipaddress/fixed-string.hpp
+++ b/include/ipaddress/fixed-string.hpp
@@ -290,7 +290,7 @@ struct fixed_string {
      * @sa     front()
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference back() const IPADDRESS_NOEXCEPT {
-        return _data[N - 1];
+        return _data[length - 1];
     }
 
     /**
-- 
2.43.0


From 7f6359cf46e6479ee4912cdb132cadf8326e8a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:00 +0000
Subject: [PATCH 26/31] fix: a scope id that does not fit in 32 bits is not a
 number

---
 include/ipaddress/ipv6-address.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index bd218de..5dc979f 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -246,7 +246,7 @@ private:
             const auto scope_id_size = _scope_id.size();
             for (size_t i = 0; i < scope_id_size; ++i) {
                 const auto c = _scope_id[i];
-                if (c >= '0' && c <= '9') {
+                if (c >= '0' && c <= '9' && value <= (0xFFFFFFFF - uint32_t(c - '0')) / 10) {
                     value = value * 10 + (c - '0');
                 } else {
                     _has_value = false;
-- 
2.43.0


From 9e40637a83870a740645b68540e7f5a6e2a5c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:00 +0000
Subject: [PATCH 27/31] fix: allow for the longest IPv6 text (dotted suffix and
 scope) in base_max_string_len

---
 include/ipaddress/base-v6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 6534a78..e657ae9 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -46,7 +46,7 @@ public:
 
     static constexpr ip_version base_version = ip_version::V6;
     static constexpr size_t base_size = 16;
-    static constexpr size_t base_max_string_len = 41 + IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
+    static constexpr size_t base_max_string_len = 46 + IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
     static constexpr size_t base_max_prefixlen = base_size * 8;
 
     /**
-- 
2.43.0


From e8829fe00c316a530342e305b354e6271da21aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:43 +0000
Subject: [PATCH 28/31] fix: a literal that is too long is not cut off and
 parsed when exceptions are disabled

---
 include/ipaddress/ip-address-base.hpp | 1 +
 include/ipaddress/ip-any-address.hpp  | 4 ++++
 include/ipaddress/ip-any-network.hpp  | 4 ++++
 include/ipaddress/ip-network-base.hpp | 1 +
 4 files changed, 10 insertions(+)

diff --git a/include/ipaddress/ip-address-base.hpp b/include/ipaddress/ip-address-base.hpp
index cc2af04..0d32997 100644
--- a/include/ipaddress/ip-address-base.hpp
+++ b/include/ipaddress/ip-address-base.hpp
@@ -786,6 +786,7 @@ template <typename Base, typename TChar, size_t MaxLen>
 IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_base<Base> parse_ip_from_literal(const TChar* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
     if (size > MaxLen) {
         raise_error(error_code::string_is_too_long, 0, address, size);
+        return ip_address_base<Base>();
     }
     TChar str[MaxLen + 1] = {};
     for (size_t i = 0; i < size && i < MaxLen; ++i) {
diff --git a/include/ipaddress/ip-any-address.hpp b/include/ipaddress/ip-any-address.hpp
index 32179d6..8b8a967 100644
--- a/include/ipaddress/ip-any-address.hpp
+++ b/include/ipaddress/ip-any-address.hpp
@@ -1387,6 +1387,7 @@ private:
     IPADDRESS_EXPORT IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address operator""_ip(const char* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         if (size > ipv6_address::base_max_string_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return ip_address();
         }
         char str[ipv6_address::base_max_string_len + 1] = {};
         for (size_t i = 0; i < size && i < ipv6_address::base_max_string_len; ++i) {
@@ -1405,6 +1406,7 @@ private:
     IPADDRESS_EXPORT IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address operator""_ip(const wchar_t* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         if (size > ipv6_address::base_max_string_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return ip_address();
         }
         wchar_t str[ipv6_address::base_max_string_len + 1] = {};
         for (size_t i = 0; i < size && i < ipv6_address::base_max_string_len; ++i) {
@@ -1423,6 +1425,7 @@ private:
     IPADDRESS_EXPORT IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address operator""_ip(const char16_t* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         if (size > ipv6_address::base_max_string_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return ip_address();
         }
         char16_t str[ipv6_address::base_max_string_len + 1] = {};
         for (size_t i = 0; i < size && i < ipv6_address::base_max_string_len; ++i) {
@@ -1441,6 +1444,7 @@ private:
     IPADDRESS_EXPORT IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address operator""_ip(const char32_t* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         if (size > ipv6_address::base_max_string_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return ip_address();
         }
         char32_t str[ipv6_address::base_max_string_len + 1] = {};
         for (size_t i = 0; i < size && i < ipv6_address::base_max_string_len; ++i) {
diff --git a/include/ipaddress/ip-any-network.hpp b/include/ipaddress/ip-any-network.hpp
index a28289c..4cef721 100644
--- a/include/ipaddress/ip-any-network.hpp
+++ b/include/ipaddress/ip-any-network.hpp
@@ -1362,6 +1362,7 @@ private:
         const auto max_len = ipv6_address::base_max_string_len * 2 + 1;
         if (size > max_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return ip_network();
         }
         char str[max_len + 1] = {};
         for (size_t i = 0; i < size && i < max_len; ++i) {
@@ -1384,6 +1385,7 @@ private:
         const auto max_len = ipv6_address::base_max_string_len * 2 + 1;
         if (size > max_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return ip_network();
         }
         wchar_t str[max_len + 1] = {};
         for (size_t i = 0; i < size && i < max_len; ++i) {
@@ -1406,6 +1408,7 @@ private:
         const auto max_len = ipv6_address::base_max_string_len * 2 + 1;
         if (size > max_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return ip_network();
         }
         char16_t str[max_len + 1] = {};
         for (size_t i = 0; i < size && i < max_len; ++i) {
@@ -1428,6 +1431,7 @@ private:
         const auto max_len = ipv6_address::base_max_string_len * 2 + 1;
         if (size > max_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return ip_network();
         }
         char32_t str[max_len + 1] = {};
         for (size_t i = 0; i < size && i < max_len; ++i) {
diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 4fff641..bfec6df 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1331,6 +1331,7 @@ template <typename Base, typename TChar, size_t MaxLen>
 IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base<Base> parse_net_from_literal(const TChar* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
     if (size > MaxLen) {
         raise_error(error_code::string_is_too_long, 0, address, size);
+        return ip_network_base<Base>();
     }
     TChar str[MaxLen + 1] = {};
     for (size_t i = 0; i < size && i < MaxLen; ++i) {
-- 
2.43.0


From 9c4955d4a07b72f6ad758908fe39f96c8a230a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:19 +0000
Subject: [PATCH 29/31] fix: integer conversion of addresses does not depend on
 the byte order of the machine

---
 include/ipaddress/base-v4.hpp      |  4 ++--
 include/ipaddress/ipv6-address.hpp | 16 ++--------------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 043f393..3628972 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -131,7 +131,7 @@ protected:
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_base<Ext> ip_from_uint32(uint_type ip) IPADDRESS_NOEXCEPT {
-        ip = is_little_endian() ? swap_bytes(ip) : ip;
+        ip = swap_bytes(ip);
         return ip_address_base<Ext>({
             uint8_t(ip & 0xFF),
             uint8_t((ip >> 8) & 0xFF),
@@ -151,7 +151,7 @@ protected:
             (uint32_t(bytes[2]) << 16) | 
             (uint32_t(bytes[1]) << 8) | 
             (uint32_t(bytes[0]));
-        return is_little_endian() ? swap_bytes(ip) : ip;
+        return swap_bytes(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE size_t ip_to_chars(const base_type& bytes, format /*fmt*/, char (&result)[base_max_string_len + 1]) IPADDRESS_NOEXCEPT {
diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index 5dc979f..8eccd73 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -667,13 +667,7 @@ public:
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_base<ipv6_address_base> from_uint(uint_type ip) IPADDRESS_NOEXCEPT {
         ip_address_base<ipv6_address_base> result;
         auto& bytes = result._data.bytes;
-        int shift = 0;
-        int inc = 8;
-        if (is_little_endian()) {
-            shift = 56;
-            inc = -8;
-        }
-        for (int i = 0, s = shift; i < 8; ++i, s += inc) {
+        for (int i = 0, s = 56; i < 8; ++i, s -= 8) {
             bytes[i] = uint8_t(ip.upper() >> s);
             bytes[i + 8] = uint8_t(ip.lower() >> s);
         }
@@ -690,13 +684,7 @@ public:
         const auto& bytes = _data.bytes;
         uint64_t upper = 0;
         uint64_t lower = 0;
-        int shift = 0;
-        int inc = 8;
-        if (is_little_endian()) {
-            shift = 56;
-            inc = -8;
-        }
-        for (int i = 0, s = shift; i < 8; ++i, s += inc) {
+        for (int i = 0, s = 56; i < 8; ++i, s -= 8) {
             upper |= uint64_t(bytes[i]) << s;
             lower |= uint64_t(bytes[i + 8]) << s;
         }
-- 
2.43.0


From a0f2291f1d4bdc9010dd5137ef57b197807f4e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:15 +0000
Subject: [PATCH 30/31] fix: set_scope_id of an IPv4 address reports no_error
 instead of leaving a stale code

---
 include/ipaddress/ip-any-address.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ipaddress/ip-any-address.hpp b/include/ipaddress/ip-any-address.hpp
index 8b8a967..9bd08af 100644
--- a/include/ipaddress/ip-any-address.hpp
+++ b/include/ipaddress/ip-any-address.hpp
@@ -854,6 +854,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -875,6 +876,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::wstring_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -893,6 +895,7 @@ public:
      * @remark If scope is disabled in settings (`IPADDRESS_IPV6_SCOPE_MAX_LENGTH == 0`) then this call will have no effect.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u8string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -916,6 +919,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u16string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -937,6 +941,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u32string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1087,6 +1092,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1099,6 +1105,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::wstring& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1111,6 +1118,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u16string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1123,6 +1131,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u32string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
-- 
2.43.0


From c2f52d515b5069f39af6e6f4cfbbbb1dc03ebbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:08 +0000
Subject: [PATCH 31/31] fix: zero-length byte arrays can be ordered before
 C++20

---
 include/ipaddress/byte-array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/byte-array.hpp b/include/ipaddress/byte-array.hpp
index 27fea8f..26ade7a 100644
--- a/include/ipaddress/byte-array.hpp
+++ b/include/ipaddress/byte-array.hpp
@@ -470,9 +470,9 @@ IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator!=(c
     IPADDRESS_EXPORT template <size_t N>
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator<(const byte_array<N>& lhs, const byte_array<N>& rhs) IPADDRESS_NOEXCEPT {
         for (size_t i = 0; i < N; ++i) {
-            if (lhs._data[i] < rhs._data[i]) {
+            if (lhs.data()[i] < rhs.data()[i]) {
                 return true;
-            } else if (lhs._data[i] != rhs._data[i]) {
+            } else if (lhs.data()[i] != rhs.data()[i]) {
                 break;
             }
         }
-- 
2.43.0

