From 7ae1cc26088bcc9cc42b9f92c4f586cec6b41d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:35 +0000
Subject: [PATCH 001/289] fix: string_view::find(CharT, pos) returned positions
 relative to pos and misread 16 bit characters

---
 include/daw/daw_string_view.h | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 36be0f1..027b97b 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1994,9 +1994,12 @@ namespace daw {
 			                                        size_type pos = 0 ) const {
 
 				assert( pos <= size( ) );
-				auto first = data( ) + pos;
-				auto const sz = static_cast<std::size_t>( data_end( ) - first );
+				if( pos >= size( ) ) {
+					return npos;
+				}
 #if defined( DAW_HAS_IF_CONSTEVAL_COMPAT )
+				auto const first = data( ) + pos;
+				auto const sz = size( ) - pos;
 				DAW_IF_NOT_CONSTEVAL {
 					if constexpr( sizeof( CharT ) == 1 ) {
 						void const *r = std::memchr(
@@ -2005,21 +2008,16 @@ namespace daw {
 							return npos;
 						}
 						return static_cast<std::size_t>( static_cast<CharT const *>( r ) -
-						                                 first );
-					} else if constexpr( sizeof( CharT ) == 2 ) {
-						wchar_t const *r =
-						  ::wmemchr( const_cast<wchar_t *>(
-						               reinterpret_cast<wchar_t const *>( first ) ),
-						             static_cast<wchar_t>( c ),
-						             sz );
+						                                 data( ) );
+					} else if constexpr( std::is_same_v<CharT, wchar_t> ) {
+						wchar_t const *r = ::wmemchr( first, c, sz );
 						if( r == nullptr ) {
 							return npos;
 						}
-						return static_cast<std::size_t>(
-						  reinterpret_cast<CharT const *>( r ) - first );
+						return static_cast<std::size_t>( r - data( ) );
 					} else {
-						for( std::size_t n = pos; n < sz; ++n ) {
-							if( first[n] == c ) {
+						for( std::size_t n = pos; n < size( ); ++n ) {
+							if( m_first[n] == c ) {
 								return n;
 							}
 						}
@@ -2028,8 +2026,8 @@ namespace daw {
 				}
 				else {
 #endif
-					for( std::size_t n = pos; n < sz; ++n ) {
-						if( first[n] == c ) {
+					for( std::size_t n = pos; n < size( ); ++n ) {
+						if( m_first[n] == c ) {
 							return n;
 						}
 					}
-- 
2.43.0


From 68778889cd108e5e52adc0048ac59f0de5a65fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:59 +0000
Subject: [PATCH 002/289] fix: string_view substring find past the end and
 contains(s, pos, count) result

---
 include/daw/daw_string_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 027b97b..1411bf3 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2051,7 +2051,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type find( basic_string_view v,
 			                                        size_type pos = 0 ) const {
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
@@ -2082,7 +2082,7 @@ namespace daw {
 			/// @brief Test if the string_view contains the supplied pattern
 			[[nodiscard]] constexpr bool contains( const_pointer s, size_type pos,
 			                                       size_type count ) const {
-				return find( basic_string_view<CharT>( s, count ), pos );
+				return find( basic_string_view<CharT>( s, count ), pos ) != npos;
 			}
 
 			/// @brief Test if the string_view contains the supplied pattern
@@ -2098,7 +2098,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type
 			find_first_match( basic_string_view v, size_type pos ) const {
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From 347c908b2525464bb32c66938ab9a2931f156866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:00 +0000
Subject: [PATCH 003/289] fix: string_view::find_first_match tried later
 needles from the wrong position

---
 include/daw/daw_string_view.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 1411bf3..1d8a534 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -362,20 +362,15 @@ namespace daw {
 			        std::initializer_list<basic_string_view<CharT>> needles ) {
 				auto const last = daw::data_end( haystack );
 				for( ; not haystack.empty( ); haystack.remove_prefix( ) ) {
-					auto it = haystack.data( );
-
 					for( auto needle : needles ) {
-						if( needle.size( ) > haystack.size( ) ) {}
+						auto it = haystack.data( );
 						auto s_first = std::data( needle );
 						auto const s_last = daw::data_end( needle );
 						for( auto s_it = s_first;; ++it, ++s_it ) {
 							if( s_it == s_last ) {
 								return haystack.data( );
 							}
-							if( it == last ) {
-								return last;
-							}
-							if( not( *it == *s_it ) ) {
+							if( it == last or not( *it == *s_it ) ) {
 								break;
 							}
 						}
-- 
2.43.0


From e40ea4cf6ca23208b62f224c3339bbe6e37c6189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:00 +0000
Subject: [PATCH 004/289] fix: string_view::search missed matches at the end
 and search_last did not find the last match

---
 include/daw/daw_string_view.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 1d8a534..bc99196 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2203,7 +2203,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search( basic_string_view v,
 			                                          size_type pos = 0 ) const {
-				if( ( pos + v.size( ) ) >= size( ) or v.empty( ) ) {
+				if( pos > size( ) or v.size( ) > size( ) - pos or v.empty( ) ) {
 					return npos;
 				}
 				auto const iter = sv2_details::search(
@@ -2224,17 +2224,11 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search_last( basic_string_view v,
 			                                               size_type pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
-					return npos;
-				}
-				auto last_pos = pos;
+				auto last_pos = npos;
 				auto fpos = search( v, pos );
 				while( fpos != npos ) {
 					last_pos = fpos;
-					fpos = search( v, fpos );
-					if( fpos == last_pos ) {
-						break;
-					}
+					fpos = search( v, fpos + 1 );
 				}
 				return last_pos;
 			}
-- 
2.43.0


From d071a0d26d2a269fca879958f6020b8127435f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:00 +0000
Subject: [PATCH 005/289] fix: string_view::find_last_not_of(_if) read one past
 the end when pos == size()

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index bc99196..dae2e94 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2444,7 +2444,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				for( auto n = static_cast<difference_type>( pos ); n >= 0; --n ) {
@@ -2468,7 +2468,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From e81ed33826594f3a5622eb2a0ad2acc29a9e5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:00 +0000
Subject: [PATCH 006/289] fix: string_view::pop_front_unsafe(count) returned
 the whole view

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index dae2e94..44ba38c 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1157,7 +1157,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  size( ) >= count,
 				  "Attempt to pop front too many elements basic_string_view" );
-				basic_string_view result = substr_unsafe( 0 );
+				basic_string_view result = substr_unsafe( 0, count );
 				remove_prefix_unsafe( count );
 				return result;
 			}
-- 
2.43.0


From 8f41d5b097328f5a8727b62588c2d0586b4046cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:00 +0000
Subject: [PATCH 007/289] fix: string_view::substr() claimed zero termination
 of views that are not zero terminated

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 44ba38c..74f2612 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1835,7 +1835,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  pos + count <= size( ),
 				  "Attempt to access basic_string_view past end" );
-				if( pos + count == size( ) ) {
+				if( pos + count == size( ) and is_zero_terminated( ) ) {
 					return basic_string_view(
 					  m_first + pos, m_first + pos + count, zero_terminated );
 				} else {
-- 
2.43.0


From 4cb082546c8aa37d6cc5e40ff9776c19690306d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:24 +0000
Subject: [PATCH 008/289] fix: string_view::(try_)pop_back_until kept or
 dropped the delimiter inconsistently

---
 include/daw/daw_string_view.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 74f2612..3659136 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1360,7 +1360,7 @@ namespace daw {
 					return result;
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( size( ) - ( pos + where.size( ) ) );
 				return result;
 			}
 
@@ -1376,7 +1376,7 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
-				auto result = substr( pos + where.size( ) );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
@@ -1461,8 +1461,9 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
-				auto result = substr( pos );
-				remove_suffix( size( ) - pos );
+				auto const delim_size = sv2_details::find_predicate_result_size( pred );
+				auto result = substr( pos + delim_size );
+				remove_suffix( size( ) - ( pos + delim_size ) );
 				return result;
 			}
 
@@ -1609,7 +1610,7 @@ namespace daw {
 					return basic_string_view<CharT>( );
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( size( ) - ( pos + where.size( ) ) );
 				return result;
 			}
 
@@ -1624,7 +1625,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
@@ -1640,7 +1641,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
@@ -1663,7 +1664,8 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result =
+				  substr( pos + sv2_details::find_predicate_result_size( pred ) );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
@@ -1686,8 +1688,9 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
-				remove_suffix( ( size( ) - pos - 1 ) );
+				auto const delim_size = sv2_details::find_predicate_result_size( pred );
+				auto result = substr( pos + delim_size );
+				remove_suffix( size( ) - ( pos + delim_size ) );
 				return result;
 			}
 
-- 
2.43.0


From 257c1eb0dc0be479bb591d8a82250efe7521daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:24 +0000
Subject: [PATCH 009/289] fix: string_view::try_pop_front_until(pred) removed a
 character when nothing matched

---
 include/daw/daw_string_view.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 3659136..cc76255 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1575,7 +1575,11 @@ namespace daw {
 			DAW_REQ_UNARY_PRED_REQ( UnaryPredicate, CharT )
 			[[nodiscard]] constexpr basic_string_view
 			  try_pop_front_until( UnaryPredicate pred ) DAW_LIFETIME_BOUND {
-				auto result = try_pop_front_until( pred, nodiscard );
+				auto pos = find_first_of_if( pred );
+				if( pos == npos ) {
+					return basic_string_view<CharT>( );
+				}
+				auto result = pop_front( pos );
 				remove_prefix( sv2_details::find_predicate_result_size( pred ) );
 				return result;
 			}
-- 
2.43.0


From dbcba9e8e879bc4d67fa9a6a41e0d02446fbb6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:24 +0000
Subject: [PATCH 010/289] fix: string_view::trim_suffix_copy and
 remove_prefix_until(pred, nodiscard) did not compile

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index cc76255..39aa144 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1773,7 +1773,7 @@ namespace daw {
 			DAW_ATTRIB_INLINE
 			  constexpr basic_string_view &remove_prefix_until( UnaryPredicate pred,
 			                                                    nodiscard_t ) {
-				auto pos = find_if( pred );
+				auto pos = find_first_of_if( pred );
 				dec_front( (std::min)( { size( ), pos } ) );
 				return *this;
 			}
@@ -2764,7 +2764,7 @@ namespace daw {
 			[[nodiscard]] constexpr basic_string_view
 			trim_suffix_copy( ) const noexcept DAW_LIFETIME_BOUND {
 				auto result = *this;
-				result = remove_suffix_while( is_space{ } );
+				result.remove_suffix_while( is_space{ } );
 				return result;
 			}
 
-- 
2.43.0


From 6c3a1a26d300e6795f4ee254972e59b1f5e3f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:26 +0000
Subject: [PATCH 011/289] fix: vector insert/emplace/swap did not compile,
 split_buffer::reserve condition inverted

---
 include/daw/split_buffer.h | 24 +++++++++++------------
 include/daw/vector.h       | 40 +++++++++++++++++++++++++++++++++-----
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index bde5282..313901b 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -158,7 +158,7 @@ namespace daw {
 			end_ = c.end_;
 			end_cap( ) = c.end_cap( );
 			move_assign_alloc(
-			  c, bool_constant<
+			  c, std::bool_constant<
 			       alloc_traits::propagate_on_container_move_assignment::value>{ } );
 			c.first_ = nullptr;
 			c.begin_ = nullptr;
@@ -224,10 +224,10 @@ namespace daw {
 		}
 
 		constexpr void reserve( size_type n ) {
-			if( n < capacity( ) ) {
+			if( n > capacity( ) ) {
 				auto t = split_buffer<value_type, alloc_rr &>( n, 0, alloc( ) );
-				t.construct_at_end( move_iterator<pointer>( begin_ ),
-				                    move_iterator<pointer>( end_ ) );
+				t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+				                    std::move_iterator<pointer>( end_ ) );
 				std::swap( first_, t.first_ );
 				std::swap( begin_, t.begin_ );
 				std::swap( end_, t.end_ );
@@ -263,7 +263,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -287,7 +287,7 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
 					                    std::move_iterator<pointer>( end_ ) );
@@ -310,7 +310,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -335,10 +335,10 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
@@ -362,8 +362,8 @@ namespace daw {
 					size_type c = std::max<size_type>(
 					  2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
diff --git a/include/daw/vector.h b/include/daw/vector.h
index 3b44ae6..e77f213 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -91,6 +91,38 @@ namespace daw::impl {
 } // namespace daw::impl
 
 namespace daw {
+	namespace impl {
+		/// A value constructed and destroyed through the allocator, used when the
+		/// arguments to emplace may alias elements that are about to move
+		template<typename T, typename Allocator>
+		struct vector_temp_value {
+			using alloc_traits = std::allocator_traits<Allocator>;
+
+			Allocator &m_alloc;
+			union {
+				T m_value;
+			};
+
+			template<typename... Args>
+			explicit constexpr vector_temp_value( Allocator &a, Args &&...args )
+			  : m_alloc( a ) {
+				alloc_traits::construct( m_alloc, std::addressof( m_value ),
+				                         DAW_FWD( args )... );
+			}
+
+			constexpr ~vector_temp_value( ) {
+				alloc_traits::destroy( m_alloc, std::addressof( m_value ) );
+			}
+
+			vector_temp_value( vector_temp_value const & ) = delete;
+			vector_temp_value &operator=( vector_temp_value const & ) = delete;
+
+			[[nodiscard]] constexpr T &get( ) noexcept {
+				return m_value;
+			}
+		};
+	} // namespace impl
+
 	struct do_resize_and_overwrite_t {};
 	inline constexpr auto do_resize_and_overwrite = do_resize_and_overwrite_t{ };
 
@@ -664,8 +696,8 @@ namespace daw {
 				if( p == m_end ) {
 					construct_one_at_end( DAW_FWD( args )... );
 				} else {
-					auto tmp =
-					  temp_value<value_type, Allocator>( alloc( ), DAW_FWD( args )... );
+					auto tmp = impl::vector_temp_value<value_type, Allocator>(
+					  alloc( ), DAW_FWD( args )... );
 					move_range( p, m_end, p + 1 );
 					*p = std::move( tmp.get( ) );
 				}
@@ -927,9 +959,7 @@ namespace daw {
 			std::swap( m_begin, other.m_begin );
 			std::swap( m_end, other.m_end );
 			std::swap( endcap( ), other.endcap( ) );
-			swap_allocator( alloc( ), other.alloc( ),
-			                std::bool_constant<
-			                  alloc_traits::propagate_on_container_swap::value>{ } );
+			si_impl::swap_allocator( alloc( ), other.alloc( ) );
 		}
 
 	private:
-- 
2.43.0


From 6826255378698ca890cac35391c1a033a8ba6090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:43 +0000
Subject: [PATCH 012/289] fix: vector::resize_and_overwrite destroyed positions
 beyond the old end and leaked dropped elements

---
 include/daw/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index e77f213..616f128 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -874,7 +874,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_end < m_end ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
@@ -901,7 +901,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_end < m_end ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
-- 
2.43.0


From 0a8e4c9b3a4c61d296c242b870bb89c144291f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:01 +0000
Subject: [PATCH 013/289] fix: block_append_from never stored an element nor
 terminated

---
 include/daw/vector.h | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 616f128..a2a002d 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1342,20 +1342,12 @@ namespace daw {
 	constexpr void block_append_from( vector<T, Allocator> &v,
 	                                  InputIterator first, InputIterator last,
 	                                  std::size_t block_size = 512 ) {
-		auto cur_size = v.size( );
 		DAW_UNSAFE_BUFFER_FUNC_START
 		while( first != last ) {
-			v.resize_and_overwrite( cur_size + block_size,
-			                        [&]( T *ptr, std::size_t sz ) {
-				                        ptr += cur_size;
-				                        cur_size += block_size;
-				                        while( cur_size < sz and first != last ) {
-					                        *ptr = *first;
-					                        ++ptr;
-					                        ++first;
-				                        }
-				                        return cur_size;
-			                        } );
+			v.reserve( v.size( ) + block_size );
+			for( std::size_t n = 0; n < block_size and first != last; ++n, ++first ) {
+				v.emplace_back( *first );
+			}
 		}
 		DAW_UNSAFE_BUFFER_FUNC_STOP
 	}
-- 
2.43.0


From be96eacece16cdcc99c952cd62ba3b86363353a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:06 +0000
Subject: [PATCH 014/289] fix: vector constructors leaked storage and elements
 when an element constructor throws

---
 include/daw/vector.h | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index a2a002d..492c0c6 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -174,7 +174,8 @@ namespace daw {
 		  noexcept( std::is_nothrow_copy_constructible<allocator_type>::value )
 		  : m_endcap_( nullptr, a ) {}
 
-		explicit constexpr vector( size_type n ) {
+		explicit constexpr vector( size_type n )
+		  : vector( ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -183,14 +184,15 @@ namespace daw {
 		}
 
 		explicit constexpr vector( size_type n, allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			if( n > 0 ) {
 				vallocate( n );
 				construct_at_end( n );
 			}
 		}
 
-		explicit constexpr vector( size_type n, value_type const &x ) {
+		explicit constexpr vector( size_type n, value_type const &x )
+		  : vector( ) {
 
 			if( n > 0 ) {
 				vallocate( n );
@@ -200,7 +202,7 @@ namespace daw {
 
 		explicit constexpr vector( size_type n, value_type const &x,
 		                           allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( n > 0 ) {
 				vallocate( n );
@@ -209,7 +211,8 @@ namespace daw {
 		}
 
 		explicit constexpr vector( do_resize_and_overwrite_t, size_type n,
-		                           auto operation ) {
+		                           auto operation )
+		  : vector( ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -218,7 +221,7 @@ namespace daw {
 
 		explicit constexpr vector( do_resize_and_overwrite_t, size_type n,
 		                           auto operation, allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -228,7 +231,8 @@ namespace daw {
 		template<input_iterator InputIterator>
 		requires( constructible_from<value_type,
 		                             iter_reference_type<InputIterator>> ) //
-		  explicit constexpr vector( InputIterator first, InputIterator last ) {
+		  explicit constexpr vector( InputIterator first, InputIterator last )
+		    : vector( ) {
 
 			DAW_UNSAFE_BUFFER_FUNC_START
 			for( ; first != last; ++first ) {
@@ -242,7 +246,7 @@ namespace daw {
 		                             iter_reference_type<InputIterator>> ) //
 		  explicit constexpr vector( InputIterator first, InputIterator last,
 		                             allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			DAW_UNSAFE_BUFFER_FUNC_START
 			for( ; first != last; ++first ) {
@@ -255,7 +259,8 @@ namespace daw {
 		requires( not has_slow_distance_v<ForwardIterator> and
 		          constructible_from<value_type,
 		                             iter_reference_type<ForwardIterator>> ) //
-		  explicit constexpr vector( ForwardIterator first, ForwardIterator last ) {
+		  explicit constexpr vector( ForwardIterator first, ForwardIterator last )
+		    : vector( ) {
 
 			auto const n = static_cast<size_type>( std::distance( first, last ) );
 			if( n > 0 ) {
@@ -270,7 +275,7 @@ namespace daw {
 		                             iter_reference_type<ForwardIterator>> ) //
 		  explicit constexpr vector( ForwardIterator first, ForwardIterator last,
 		                             allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			auto const n = static_cast<size_type>( std::distance( first, last ) );
 			if( n > 0 ) {
 				vallocate( n );
@@ -286,8 +291,8 @@ namespace daw {
 		}
 
 		constexpr vector( vector const &x )
-		  : m_endcap_( nullptr, alloc_traits::select_on_container_copy_construction(
-		                          x.alloc( ) ) ) {
+		  : vector( alloc_traits::select_on_container_copy_construction(
+		        x.alloc( ) ) ) {
 
 			size_type const n = x.size( );
 			if( n > 0 ) {
@@ -298,7 +303,7 @@ namespace daw {
 
 		explicit constexpr vector( vector const &x,
 		                           std::type_identity_t<allocator_type> const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			size_type const n = x.size( );
 			if( n > 0 ) {
@@ -317,7 +322,7 @@ namespace daw {
 
 		explicit constexpr vector( std::initializer_list<value_type> il,
 		                           allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( il.size( ) > 0 ) {
 				vallocate( il.size( ) );
@@ -337,7 +342,7 @@ namespace daw {
 
 		explicit constexpr vector( vector &&x,
 		                           std::type_identity_t<allocator_type> const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( a == x.alloc( ) ) {
 				m_begin = x.m_begin;
-- 
2.43.0


From 4ebc396fca3519fd7c32763a716b839f66856bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:06 +0000
Subject: [PATCH 015/289] fix: vector copy assignment deallocated a null block
 when allocators differ

---
 include/daw/vector.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 492c0c6..c1a47b3 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1259,9 +1259,7 @@ namespace daw {
 
 		constexpr void copy_assign_alloc( vector const &c, std::true_type ) {
 			if( alloc( ) != c.alloc( ) ) {
-				clear( );
-				alloc_traits::deallocate( alloc( ), m_begin, capacity( ) );
-				m_begin = m_end = endcap( ) = nullptr;
+				vdeallocate( );
 			}
 			alloc( ) = c.alloc( );
 		}
-- 
2.43.0


From 4558c02c8196ad7820ae6a64e7f921a41eee9058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:07 +0000
Subject: [PATCH 016/289] fix: moving or swapping a unique_ptr lost the state
 of its deleter

---
 include/daw/daw_unique_ptr.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 8cef944..6beab78 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -130,7 +130,8 @@ namespace daw {
 		constexpr unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr unique_ptr( unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) ) {}
+		  : Deleter( static_cast<Deleter &&>( other ) )
+		  , m_ptr( other.release( ) ) {}
 
 		template<
 		  typename U, typename D,
@@ -146,6 +147,7 @@ namespace daw {
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
 				reset( );
+				static_cast<Deleter &>( *this ) = static_cast<Deleter &&>( rhs );
 				m_ptr = rhs.release( );
 			}
 			return *this;
@@ -226,6 +228,7 @@ namespace daw {
 
 		constexpr void swap( unique_ptr &other ) noexcept {
 			using std::swap;
+			swap( static_cast<Deleter &>( *this ), static_cast<Deleter &>( other ) );
 			swap( m_ptr, other.m_ptr );
 		}
 
@@ -287,7 +290,8 @@ namespace daw {
 		constexpr unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr unique_ptr( unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) ) {}
+		  : Deleter( static_cast<Deleter &&>( other ) )
+		  , m_ptr( other.release( ) ) {}
 
 		template<typename U, std::enable_if_t<not std::is_same_v<T, U>,
 		                                      std::nullptr_t> = nullptr>
@@ -301,6 +305,7 @@ namespace daw {
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
 				reset( );
+				static_cast<Deleter &>( *this ) = static_cast<Deleter &&>( rhs );
 				m_ptr = rhs.release( );
 			}
 			return *this;
@@ -364,6 +369,7 @@ namespace daw {
 
 		constexpr void swap( unique_ptr &other ) noexcept {
 			using std::swap;
+			swap( static_cast<Deleter &>( *this ), static_cast<Deleter &>( other ) );
 			swap( m_ptr, other.m_ptr );
 		}
 
-- 
2.43.0


From 944ac5a497e6c7c95ee042038b625b970081722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:07 +0000
Subject: [PATCH 017/289] fix: unique_ptr and maybe_unique_ptr operator<=
 compared with >=

---
 include/daw/daw_maybe_unique_ptr.h | 2 +-
 include/daw/daw_unique_ptr.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a42ff11..a209b47 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -295,7 +295,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( maybe_unique_ptr<T, D0> const &lhs,
 	                           maybe_unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 6beab78..4efbd31 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -466,7 +466,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( unique_ptr<T, D0> const &lhs,
 	                           unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
-- 
2.43.0


From b97a20d84a6058ea4969ea0146c2e80dc20c21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:07 +0000
Subject: [PATCH 018/289] fix: moving a maybe_unique_ptr turned a borrowed
 pointer into an owned one

---
 include/daw/daw_maybe_unique_ptr.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a209b47..b81a15c 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -72,14 +72,13 @@ namespace daw {
 		constexpr maybe_unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr maybe_unique_ptr( maybe_unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) )
+		  : m_ptr( std::move( other.m_ptr ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {}
 
 		template<typename U, typename D>
 		requires( not std::is_same_v<T, U> ) //
 		  constexpr maybe_unique_ptr( maybe_unique_ptr<U, D> &&other ) noexcept
-		  : Deleter( static_cast<D &&>( other ) )
-		  , m_ptr( other.release( ) )
+		  : m_ptr( std::move( other.m_ptr ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
@@ -99,7 +98,7 @@ namespace daw {
 		constexpr maybe_unique_ptr &operator=( maybe_unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
 				reset( );
-				m_ptr = rhs.release( );
+				m_ptr = std::move( rhs.m_ptr );
 				m_owned = std::exchange( rhs.m_owned, true );
 			}
 			return *this;
@@ -112,6 +111,7 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			reset( );
 			m_ptr = std::move( rhs.m_ptr );
 			m_owned = std::exchange( rhs.m_owned, true );
 			return *this;
@@ -123,8 +123,9 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			reset( );
 			m_ptr = std::move( rhs );
-			m_owned = std::exchange( rhs.m_owned, true );
+			m_owned = true;
 			return *this;
 		}
 
-- 
2.43.0


From 0ec0bc983441bcf198317838e107a755002dbea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:08 +0000
Subject: [PATCH 019/289] fix: maybe_unique_ptr::reset(p) deleted the new
 pointer

---
 include/daw/daw_maybe_unique_ptr.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index b81a15c..e11fc44 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -167,11 +167,7 @@ namespace daw {
 		}
 
 		constexpr void reset( pointer p, bool owned = true ) noexcept {
-			if( m_owned ) {
-				m_ptr.reset( std::move( p ) );
-			} else {
-				(void)m_ptr.release( );
-			}
+			reset( );
 			m_ptr.reset( std::move( p ) );
 			m_owned = owned;
 		}
-- 
2.43.0


From e14b7f1cb89efca9a3831976d8f539d2ef0d6c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:08 +0000
Subject: [PATCH 020/289] fix: unique_array_t::at threw for positions inside
 and accepted positions outside

---
 include/daw/daw_unique_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 0da7402..7a7ee99 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -114,13 +114,13 @@ namespace daw {
 
 		reference at( size_type pos ) {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
 		const_reference at( size_type pos ) const {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
-- 
2.43.0


From 08fd3dd1f93d2057cd359957655c0fbe44250e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:26 +0000
Subject: [PATCH 021/289] fix: unique_array_t(size, value...) did not compile
 and zero sized arrays were not empty

---
 include/daw/daw_unique_array.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 7a7ee99..1d83217 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -82,10 +82,8 @@ namespace daw {
 		template<typename... Args>
 		unique_array_t( size_type sz, Args &&...args ) noexcept(
 		  std::is_nothrow_constructible_v<value_type, Args...> )
-		  : m_data( create_values( sz ) )
-		  , m_size( sz ) {
-
-			std::fill_n( m_data, m_size, { args... } );
+		  : unique_array_t( sz ) {
+			std::fill_n( m_data, m_size, value_type{ DAW_FWD( args )... } );
 		}
 
 		~unique_array_t( ) noexcept( noexcept( delete[] m_data ) ) {
@@ -93,7 +91,7 @@ namespace daw {
 		}
 
 		constexpr bool empty( ) const noexcept {
-			return m_data == nullptr;
+			return m_size == 0;
 		}
 
 		constexpr size_type size( ) const noexcept {
-- 
2.43.0


From b45b40badf816f3431ae5df2ebb82971b50e320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:26 +0000
Subject: [PATCH 022/289] fix: unique_resource disposed twice after reset and
 moved from empty resources

---
 include/daw/daw_unique_resource.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 8ff60a0..4b9145e 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -27,7 +27,10 @@ namespace daw {
 
 		unique_resource &operator=( unique_resource &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<T> ) {
-			reset( rhs.release( ) );
+			if( this != &rhs ) {
+				reset( );
+				value = daw::exchange( rhs.value, std::nullopt );
+			}
 			return *this;
 		}
 
@@ -52,6 +55,7 @@ namespace daw {
 		constexpr void reset( ) noexcept( std::is_nothrow_destructible_v<T> ) {
 			if( value ) {
 				Deleter{ }( *value );
+				value = std::nullopt;
 			}
 		}
 
-- 
2.43.0


From c4d3dbd101008b5264b45736b9f137345cdb5154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:02 +0000
Subject: [PATCH 023/289] fix: unique_ptr<T[]>::reset(p) was missing,
 maybe_unique_ptr<T[]>::reset(p) did not compile

---
 include/daw/daw_unique_ptr.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 4efbd31..00bfac5 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -351,6 +351,11 @@ namespace daw {
 			}
 		}
 
+		constexpr void reset( pointer p ) noexcept {
+			reset( );
+			m_ptr = std::move( p );
+		}
+
 		constexpr pointer get( ) const {
 			return m_ptr;
 		}
-- 
2.43.0


From 82857f2eb60405be0dd7c6dc77afd3e43f94c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:52 +0000
Subject: [PATCH 024/289] fix: maybe_unique_ptr<T[]> dereference and custom
 deleters did not compile

---
 include/daw/daw_maybe_unique_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index e11fc44..dfaa4f9 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -15,7 +15,7 @@
 namespace daw {
 	template<typename T, typename Deleter = daw::default_deleter<T>>
 	struct maybe_unique_ptr : private Deleter {
-		using value_type = T;
+		using value_type = std::remove_extent_t<T>;
 		using pointer = unique_ptr_del::pointer_type_t<value_type, Deleter>;
 		using reference = std::add_lvalue_reference_t<value_type>;
 		using deleter_t = Deleter;
-- 
2.43.0


From 05c01b2d9432cff496430e4153424922f85d89f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:52 +0000
Subject: [PATCH 025/289] fix: daw_unique_resource.h used assert without
 including it

---
 include/daw/daw_unique_resource.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 4b9145e..c6d40b0 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -11,6 +11,7 @@
 #include "daw_exchange.h"
 #include "daw_move.h"
 
+#include <cassert>
 #include <optional>
 #include <type_traits>
 
-- 
2.43.0


From 61e9047b80a1d0994dca51328e77715448aa4057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:03 +0000
Subject: [PATCH 026/289] fix: rc_ptr::reset kept the pointer and count of a
 still shared object

---
 include/daw/daw_ref_counted_pointer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index e9dd2bc..c868351 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -136,9 +136,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto old_ptr = daw::exchange( m_pointer, nullptr );
-				auto old_ref = daw::exchange( m_ref_count, nullptr );
+			auto old_ptr = daw::exchange( m_pointer, nullptr );
+			auto old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --*old_ref == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
@@ -309,9 +309,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto *old_ptr = daw::exchange( m_pointer, nullptr );
-				auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			auto *old_ptr = daw::exchange( m_pointer, nullptr );
+			auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --*old_ref == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
-- 
2.43.0


From 78d646c628924c8d729963b305103afdd527d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:04 +0000
Subject: [PATCH 027/289] fix: assigning an rc_ptr from a handle inside its own
 object used freed memory

---
 include/daw/daw_ref_counted_pointer.h | 32 ++++++++++-----------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index c868351..293044d 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -87,13 +87,9 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr const &rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
-				if( rhs ) {
-					m_pointer = rhs.m_pointer;
-					m_ref_count = rhs.m_ref_count;
-					assert( m_ref_count );
-					++ref_count( );
-				}
+				// rhs may be owned by the object this refers to
+				auto tmp = rc_ptr( rhs );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -105,9 +101,9 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr &&rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
-				m_pointer = daw::exchange( rhs.m_pointer, nullptr );
-				m_ref_count = daw::exchange( rhs.m_ref_count, nullptr );
+				// rhs may be owned by the object this refers to
+				auto tmp = rc_ptr( std::move( rhs ) );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -259,13 +255,9 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr const &rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
-				m_pointer = rhs.m_pointer;
-				m_ref_count = rhs.m_ref_count;
-				if( m_pointer ) {
-					assert( m_ref_count );
-					++ref_count( );
-				}
+				// rhs may be owned by the object this refers to
+				auto tmp = rc_ptr( rhs );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -277,9 +269,9 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr &&rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
-				m_pointer = daw::exchange( rhs.m_pointer, nullptr );
-				m_ref_count = daw::exchange( rhs.m_ref_count, nullptr );
+				// rhs may be owned by the object this refers to
+				auto tmp = rc_ptr( std::move( rhs ) );
+				swap( tmp );
 			}
 			return *this;
 		}
-- 
2.43.0


From f6e8df0cfc5379438ae777449dc41610c1b8d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:19 +0000
Subject: [PATCH 028/289] fix: move assigning an owning pointer from a handle
 inside its own object used freed memory

---
 include/daw/daw_maybe_unique_ptr.h | 16 +++++++---------
 include/daw/daw_unique_array.h     | 10 +++++-----
 include/daw/daw_unique_ptr.h       | 12 ++++++------
 3 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index dfaa4f9..a0d67fc 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -97,9 +97,9 @@ namespace daw {
 
 		constexpr maybe_unique_ptr &operator=( maybe_unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
-				reset( );
-				m_ptr = std::move( rhs.m_ptr );
-				m_owned = std::exchange( rhs.m_owned, true );
+				// rhs may be owned by the object this refers to
+				auto tmp = maybe_unique_ptr( std::move( rhs ) );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -111,9 +111,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			reset( );
-			m_ptr = std::move( rhs.m_ptr );
-			m_owned = std::exchange( rhs.m_owned, true );
+			auto tmp = maybe_unique_ptr( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
@@ -123,9 +122,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			reset( );
-			m_ptr = std::move( rhs );
-			m_owned = true;
+			auto tmp = maybe_unique_ptr( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 1d83217..e136f6d 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -66,12 +66,12 @@ namespace daw {
 			if( this == &rhs ) {
 				return *this;
 			}
+			// rhs may be part of the elements that are about to be destroyed
+			auto new_data = daw::exchange( rhs.m_data, nullptr );
+			auto new_size = daw::exchange( rhs.m_size, 0U );
 			clear( );
-			if( !rhs.m_data ) {
-				return *this;
-			}
-			m_data = daw::exchange( rhs.m_data, nullptr );
-			m_size = daw::exchange( rhs.m_size, 0U );
+			m_data = new_data;
+			m_size = new_size;
 			return *this;
 		}
 
diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 00bfac5..b7310f1 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -146,9 +146,9 @@ namespace daw {
 
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
-				reset( );
-				static_cast<Deleter &>( *this ) = static_cast<Deleter &&>( rhs );
-				m_ptr = rhs.release( );
+				// rhs may be owned by the object this refers to
+				auto tmp = unique_ptr( std::move( rhs ) );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -304,9 +304,9 @@ namespace daw {
 
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
-				reset( );
-				static_cast<Deleter &>( *this ) = static_cast<Deleter &&>( rhs );
-				m_ptr = rhs.release( );
+				// rhs may be owned by the object this refers to
+				auto tmp = unique_ptr( std::move( rhs ) );
+				swap( tmp );
 			}
 			return *this;
 		}
-- 
2.43.0


From d094ca71823d3bf5fcbaa683e1959b609cf87de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:26 +0000
Subject: [PATCH 029/289] fix: poly_value<Base> could not be constructed from a
 poly_value<Child>

---
 include/daw/daw_poly_value.h | 43 ++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_poly_value.h b/include/daw/daw_poly_value.h
index dc472a5..09d3355 100644
--- a/include/daw/daw_poly_value.h
+++ b/include/daw/daw_poly_value.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "ciso646.h"
+#include "daw_attributes.h"
 #include "daw_enable_if.h"
 #include "daw_traits.h"
 
@@ -73,6 +74,37 @@ namespace daw {
 			}
 		};
 
+		// A value held through its Child type that is presented as a Base
+		template<typename Base, typename Child>
+		class poly_value_child_storage : public poly_value_storage_base<Base> {
+			std::unique_ptr<poly_value_storage_base<Child>> m_child;
+
+		public:
+			explicit constexpr poly_value_child_storage(
+			  std::unique_ptr<poly_value_storage_base<Child>> child )
+			  : m_child( std::move( child ) ) {}
+
+			constexpr std::unique_ptr<poly_value_storage_base<Base>>
+			copy( ) const override {
+				return std::unique_ptr<poly_value_storage_base<Base>>(
+				  new poly_value_child_storage( m_child->copy( ) ) );
+			}
+
+			constexpr std::unique_ptr<poly_value_storage_base<Base>>
+			move( ) noexcept override {
+				return std::unique_ptr<poly_value_storage_base<Base>>(
+				  new poly_value_child_storage( m_child->move( ) ) );
+			}
+
+			constexpr Base const *get( ) const override {
+				return std::as_const( *m_child ).get( );
+			}
+
+			constexpr Base *get( ) override {
+				return m_child->get( );
+			}
+		};
+
 		template<typename Base, typename T = Base, typename... Args>
 		requires std::is_base_of_v<Base, T> //
 		  constexpr std::unique_ptr<poly_value_storage_base<Base>>
@@ -93,6 +125,9 @@ namespace daw {
 		std::unique_ptr<poly_value_impl::poly_value_storage_base<Base>>
 		  m_storage{ };
 
+		template<typename>
+		friend class poly_value;
+
 	public:
 		constexpr poly_value( ) requires( std::is_default_constructible_v<Base> )
 		  : m_storage( poly_value_impl::create<Base>( ) ) {}
@@ -135,13 +170,17 @@ namespace daw {
 		requires( std::is_base_of_v<Base, Child> and
 		          not std::is_same_v<Base, Child> ) //
 		  poly_value( poly_value<Child> const &other )
-		  : m_storage( other.m_storage->copy( ) ) {}
+		  : m_storage(
+		      new poly_value_impl::poly_value_child_storage<Base, Child>(
+		        other.m_storage->copy( ) ) ) {}
 
 		template<typename Child>
 		requires( std::is_base_of_v<Base, Child> and
 		          not std::is_same_v<Base, Child> ) //
 		  poly_value( poly_value<Child> &&other )
-		  : m_storage( other.m_storage->move( ) ) {}
+		  : m_storage(
+		      new poly_value_impl::poly_value_child_storage<Base, Child>(
+		        other.m_storage->move( ) ) ) {}
 
 		Base const *get( ) const {
 			return m_storage->get( );
-- 
2.43.0


From 64d999df5222a6f17789694178bd2da95a30460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:17 +0000
Subject: [PATCH 030/289] fix: value_ptr copies and assignments with an empty
 side dereferenced null, copy assign and release did not compile

---
 include/daw/daw_value_ptr.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 5dde242..800e15b 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -78,7 +78,8 @@ namespace daw {
 		  : enable_default_constructor<T>( other )
 		  , enable_copy_constructor<T>( other )
 		  , enable_copy_assignment<T>( other )
-		  , m_value( std::make_unique<value_type>( *other.m_value ) ) {}
+		  , m_value( other.m_value ? std::make_unique<value_type>( *other.m_value )
+		                           : nullptr ) {}
 
 		constexpr value_ptr( value_ptr &&other ) noexcept
 		  : enable_default_constructor<T>( std::move( other ) )
@@ -87,8 +88,9 @@ namespace daw {
 		  , m_value( std::move( other.m_value ) ) {}
 
 		constexpr value_ptr &operator=( value_ptr const &rhs ) noexcept(
-		  std::is_nothrow_copy_constructible_v<value_type> ) {
-			if( this != rhs ) {
+		  all_true_v<std::is_nothrow_copy_constructible_v<value_type>,
+		             std::is_nothrow_copy_assignable_v<value_type>> ) {
+			if( this != &rhs ) {
 				if( !m_value and !rhs.m_value ) {
 					return *this;
 				}
@@ -111,7 +113,8 @@ namespace daw {
 		}
 
 		value_ptr &operator=( value_type const &rhs ) noexcept(
-		  std::is_nothrow_copy_assignable_v<value_type> ) {
+		  all_true_v<std::is_nothrow_copy_constructible_v<value_type>,
+		             std::is_nothrow_copy_assignable_v<value_type>> ) {
 			if( !m_value ) {
 				m_value = std::make_unique<value_type>( rhs );
 			} else {
@@ -121,8 +124,13 @@ namespace daw {
 		}
 
 		value_ptr &operator=( value_type &&rhs ) noexcept(
-		  std::is_nothrow_move_assignable_v<value_type> ) {
-			*m_value = std::move( rhs );
+		  all_true_v<std::is_nothrow_move_constructible_v<value_type>,
+		             std::is_nothrow_move_assignable_v<value_type>> ) {
+			if( !m_value ) {
+				m_value = std::make_unique<value_type>( std::move( rhs ) );
+			} else {
+				*m_value = std::move( rhs );
+			}
 			return *this;
 		}
 
@@ -144,7 +152,7 @@ namespace daw {
 		  default;
 
 		constexpr pointer release( ) noexcept {
-			return daw::exchange( m_value, nullptr );
+			return m_value.release( );
 		}
 
 		constexpr void swap( value_ptr &rhs ) noexcept {
@@ -183,7 +191,7 @@ namespace daw {
 			return *m_value;
 		}
 
-		constexpr explicit operator bool( ) noexcept {
+		constexpr explicit operator bool( ) const noexcept {
 			return static_cast<bool>( m_value );
 		}
 
-- 
2.43.0


From 6ed80ca07c06d424738c7232d74dc92d8eeaf2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:42 +0000
Subject: [PATCH 031/289] fix: aligned_storage_t ignored alignments above
 max_align_t

---
 include/daw/daw_aligned_storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_aligned_storage.h b/include/daw/daw_aligned_storage.h
index ed1cb8a..587010a 100644
--- a/include/daw/daw_aligned_storage.h
+++ b/include/daw/daw_aligned_storage.h
@@ -17,7 +17,7 @@ namespace daw {
 		struct aligned_storage {
 			union type {
 				std::max_align_t align;
-				unsigned char data[( Len + Align - 1 ) / Align * Align];
+				alignas( Align ) unsigned char data[( Len + Align - 1 ) / Align * Align];
 			};
 		};
 	} // namespace impl
-- 
2.43.0


From e9382d677d2c3c4673f6b35ba736062a3a18386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:42 +0000
Subject: [PATCH 032/289] fix: sbo_storage const access, lvalue values, over
 aligned values and throwing constructors

---
 include/daw/daw_sbo.h | 45 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 6c343de..746d05b 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -10,6 +10,7 @@
 #include "ciso646.h"
 #include "daw_aligned_storage.h"
 #include "daw_move.h"
+#include "daw_remove_cvref.h"
 
 #include <cassert>
 #include <cstddef>
@@ -25,7 +26,15 @@ namespace daw {
 		static constexpr std::size_t storage_size =
 		  Size >= sizeof( void * ) ? Size : sizeof( void * );
 
-		daw::aligned_storage_t<storage_size, Align> data{ };
+		static constexpr std::size_t storage_align =
+		  Align >= alignof( void * ) ? Align : alignof( void * );
+
+		/// Values that fit are stored in data, otherwise data stores a pointer
+		template<typename T>
+		static constexpr bool is_local_v =
+		  sizeof( T ) <= storage_size and alignof( T ) <= storage_align;
+
+		daw::aligned_storage_t<storage_size, storage_align> data{ };
 
 		enum class engaged_types : std::uint8_t { none, local, allocated };
 
@@ -33,7 +42,7 @@ namespace daw {
 
 		template<typename T>
 		[[nodiscard]] T *get( ) {
-			if constexpr( sizeof( T ) <= storage_size ) {
+			if constexpr( is_local_v<T> ) {
 				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T *>( &data );
 			} else {
@@ -45,8 +54,8 @@ namespace daw {
 
 		template<typename T, typename AllocatedType = T>
 		[[nodiscard]] T const *get( ) const {
-			if constexpr( sizeof( AllocatedType ) <= storage_size ) {
-				assert( engaged == engaged_types::allocated );
+			if constexpr( is_local_v<AllocatedType> ) {
+				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T const *>( &data );
 			} else {
 				assert( engaged == engaged_types::allocated );
@@ -58,7 +67,7 @@ namespace daw {
 		         typename Allocator = std::allocator<std::remove_cv_t<T>>>
 		void deallocate( Allocator const &alloc = Allocator{ } ) {
 			static_assert( not std::is_array_v<T>, "Arrays unsupported" );
-			if constexpr( sizeof( T ) <= storage_size ) {
+			if constexpr( is_local_v<T> ) {
 				assert( engaged == engaged_types::local );
 				get<T>( )->~T( );
 			} else {
@@ -71,14 +80,14 @@ namespace daw {
 			engaged = engaged_types::none;
 		}
 
-		template<typename T, typename Allocator = std::allocator<
-		                       std::remove_cv_t<std::remove_cv_t<T>>>>
-		std::remove_cv_t<T> *allocate( T &&value,
-		                               Allocator const &alloc = Allocator{ } ) {
-			using base_type = std::remove_cv_t<T>;
+		template<typename T,
+		         typename Allocator = std::allocator<daw::remove_cvref_t<T>>>
+		daw::remove_cvref_t<T> *allocate( T &&value,
+		                                  Allocator const &alloc = Allocator{ } ) {
+			using base_type = daw::remove_cvref_t<T>;
 			static_assert( not std::is_array_v<base_type>, "Arrays unsupported" );
 			assert( engaged == engaged_types::none );
-			if constexpr( sizeof( base_type ) <= storage_size ) {
+			if constexpr( is_local_v<base_type> ) {
 				if constexpr( std::is_aggregate_v<base_type> ) {
 					auto *result = new( &data ) base_type{ DAW_FWD( value ) };
 					engaged = engaged_types::local;
@@ -96,9 +105,23 @@ namespace daw {
 				  std::allocator_traits<Allocator>::allocate( allocator, 1 );
 				// Store pointer from allocator in buffer
 				new( &data ) base_type_ptr{ ptr };
+				// Give the memory back when the value's constructor throws
+				struct dealloc_guard {
+					Allocator &guard_alloc;
+					base_type_ptr guard_ptr;
+
+					~dealloc_guard( ) {
+						if( guard_ptr ) {
+							std::allocator_traits<Allocator>::deallocate( guard_alloc,
+							                                              guard_ptr, 1 );
+						}
+					}
+				};
+				auto guard = dealloc_guard{ allocator, ptr };
 				// Construct new value from passed value at location from allocator
 				std::allocator_traits<Allocator>::construct( allocator, ptr,
 				                                             DAW_FWD( value ) );
+				guard.guard_ptr = nullptr;
 				engaged = engaged_types::allocated;
 				return ptr;
 			}
-- 
2.43.0


From 837bd461792fa92c40ce33d2671b44b90dc22425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:42 +0000
Subject: [PATCH 033/289] fix: heap_value could not be copied from a non-const
 value and called operator[] when invoked

---
 include/daw/deprecated/daw_heap_value.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_value.h b/include/daw/deprecated/daw_heap_value.h
index 1044e4f..1900a29 100644
--- a/include/daw/deprecated/daw_heap_value.h
+++ b/include/daw/deprecated/daw_heap_value.h
@@ -49,14 +49,14 @@ namespace daw {
 		// Make this less perfect so that we can still do copy/move construction
 		template<
 		  typename Arg,
-		  typename = std::enable_if_t<daw::traits::not_self<Arg, value_t>( )>>
+		  typename = std::enable_if_t<daw::traits::not_self<Arg, heap_value>( )>>
 		heap_value( Arg &&arg )
 		  : m_value{ std::make_unique<value_t>( DAW_FWD( arg ) ) } {}
 
-		template<typename Arg, typename... Args>
-		heap_value( Arg &&arg, Args &&...args )
-		  : m_value{
-		      std::make_unique<value_t>( DAW_FWD( arg ), DAW_FWD( args )... ) } {}
+		template<typename Arg0, typename Arg1, typename... Args>
+		heap_value( Arg0 &&arg0, Arg1 &&arg1, Args &&...args )
+		  : m_value{ std::make_unique<value_t>(
+		      DAW_FWD( arg0 ), DAW_FWD( arg1 ), DAW_FWD( args )... ) } {}
 
 		void swap( heap_value &rhs ) noexcept {
 			daw::cswap( m_value, rhs.m_value );
@@ -106,12 +106,12 @@ namespace daw {
 
 		template<typename... Args>
 		auto operator( )( Args &&...args ) {
-			return m_value->operator[]( DAW_FWD( args )... );
+			return m_value->operator( )( DAW_FWD( args )... );
 		}
 
 		template<typename... Args>
 		auto operator( )( Args &&...args ) const {
-			return m_value->operator[]( DAW_FWD( args )... );
+			return std::as_const( *m_value ).operator( )( DAW_FWD( args )... );
 		}
 	};
 
-- 
2.43.0


From 8450bb59111bad3c12db58a68f06e52d5464672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:42 +0000
Subject: [PATCH 034/289] fix: poly_var dereference returned a reference to a
 sliced temporary

---
 include/daw/daw_poly_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_poly_var.h b/include/daw/daw_poly_var.h
index aa909d5..d4b90f5 100644
--- a/include/daw/daw_poly_var.h
+++ b/include/daw/daw_poly_var.h
@@ -37,13 +37,13 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr Base const &operator*( ) const {
-			return daw::visit_nt( m_value, []( auto const &value ) {
+			return daw::visit_nt( m_value, []( auto const &value ) -> Base const & {
 				return *static_cast<Base const *>( &value );
 			} );
 		}
 
 		[[nodiscard]] constexpr Base &operator*( ) {
-			return daw::visit_nt( m_value, []( auto &value ) {
+			return daw::visit_nt( m_value, []( auto &value ) -> Base & {
 				return *static_cast<Base *>( &value );
 			} );
 		}
-- 
2.43.0


From 540a07341a9949b6a9ce60646a08c8974b2635e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:06 +0000
Subject: [PATCH 035/289] fix: heap_value dereferenced null when a moved from
 value was copied or assigned

---
 include/daw/deprecated/daw_heap_value.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_value.h b/include/daw/deprecated/daw_heap_value.h
index 1900a29..a716796 100644
--- a/include/daw/deprecated/daw_heap_value.h
+++ b/include/daw/deprecated/daw_heap_value.h
@@ -37,11 +37,16 @@ namespace daw {
 		heap_value &operator=( heap_value && ) = default;
 
 		heap_value( heap_value const &other )
-		  : m_value{ std::make_unique<value_t>( *other.m_value ) } {}
+		  : m_value{ other.m_value ? std::make_unique<value_t>( *other.m_value )
+		                           : nullptr } {}
 
 		heap_value &operator=( heap_value const &rhs ) {
 			if( this != &rhs ) {
-				*m_value = *rhs.m_value;
+				if( m_value and rhs.m_value ) {
+					*m_value = *rhs.m_value;
+				} else {
+					*this = heap_value( rhs );
+				}
 			}
 			return *this;
 		}
-- 
2.43.0


From d79f6d70f8e8658371e750c424c30ae128ca40f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:35 +0000
Subject: [PATCH 036/289] fix: sbo_storage const access to allocated values did
 not compile

---
 include/daw/daw_sbo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 746d05b..4319e5a 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -56,10 +56,10 @@ namespace daw {
 		[[nodiscard]] T const *get( ) const {
 			if constexpr( is_local_v<AllocatedType> ) {
 				assert( engaged == engaged_types::local );
-				return reinterpret_cast<T const *>( &data );
+				return reinterpret_cast<AllocatedType const *>( &data );
 			} else {
 				assert( engaged == engaged_types::allocated );
-				return *reinterpret_cast<T const **>( &data );
+				return *reinterpret_cast<AllocatedType *const *>( &data );
 			}
 		}
 
-- 
2.43.0


From a94c5f1dd10638f4f8801d9d6c3813b6b1aaeeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:34 +0000
Subject: [PATCH 037/289] fix: optional operator-> did not compile and >= with
 a value or nullopt on the left was wrong

---
 include/daw/daw_optional.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 5e2c5a5..1526d89 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -59,11 +59,11 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		[[nodiscard]] constexpr const_pointer operator->( ) const noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		void swap( optional &other ) noexcept(
@@ -375,7 +375,7 @@ namespace daw {
 
 	template<typename T>
 	constexpr bool operator>=( std::nullopt_t, optional<T> const &opt ) noexcept {
-		return static_cast<bool>( opt );
+		return not opt;
 	}
 
 	template<typename T, typename U>
@@ -469,7 +469,7 @@ namespace daw {
 	template<typename T, typename U>
 	constexpr bool operator>=( const T &value, const optional<U> &opt ) {
 		if( opt ) {
-			return *opt > value;
+			return value >= *opt;
 		}
 		return true;
 	}
-- 
2.43.0


From 1b9f94a3d821af2641908f626c14f790a7eb1c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:15 +0000
Subject: [PATCH 038/289] fix: expected_from_code<Result> ran the function and
 dropped its result

---
 include/daw/daw_expected.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index af3262f..db82984 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -408,9 +408,8 @@ namespace daw {
 		  daw::traits::is_callable_convertible_v<Result, Function, Args...>,
 		  "Must be able to convert result of func to expected result type" );
 
-		auto result = expected_t<Result>( );
-		result.from_code( DAW_FWD( func ), DAW_FWD( args )... );
-		return result;
+		return expected_t<Result>::from_code( DAW_FWD( func ),
+		                                      DAW_FWD( args )... );
 	}
 
 	template<typename Function, typename... Args>
-- 
2.43.0


From 3eea7978570da8cbbc4e286f4e4dd1e2514f462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:38 +0000
Subject: [PATCH 039/289] fix: expected_t could not be made from code whose
 result converts by a narrowing conversion

---
 include/daw/daw_expected.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index db82984..98b6352 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -119,10 +119,12 @@ namespace daw {
 		variant_from_code( Function &&func, Args &&...args ) {
 #if defined( DAW_USE_EXCEPTIONS )
 			try {
-				return DAW_FWD( func )( DAW_FWD( args )... );
+				return variant_type( std::in_place_type<value_type>,
+				                     DAW_FWD( func )( DAW_FWD( args )... ) );
 			} catch( ... ) { return std::current_exception( ); }
 #else
-			return DAW_FWD( func )( DAW_FWD( args )... );
+			return variant_type( std::in_place_type<value_type>,
+			                     DAW_FWD( func )( DAW_FWD( args )... ) );
 #endif
 		}
 
-- 
2.43.0


From 97d4b6ed8951a6c7e8cc94f26becf4e316a4d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:38 +0000
Subject: [PATCH 040/289] fix: expected_t left without a value by a throwing
 assignment claimed not to be empty

---
 include/daw/daw_expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index 98b6352..c327116 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -168,8 +168,8 @@ namespace daw {
 		}
 
 		[[nodiscard]] bool empty( ) const noexcept {
-			return std::holds_alternative<
-			  expected_details::ExpectedTag<expected_details::Empty>>( m_value );
+			// Nothing is left when storing a value failed by exception
+			return not has_value( ) and not has_exception( );
 		}
 
 		explicit operator bool( ) const noexcept {
-- 
2.43.0


From bd0c84a0bcb5e41bb6adc59485d94202f36588c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:38 +0000
Subject: [PATCH 041/289] fix: union_pair_t assigned to alternatives that were
 never constructed

---
 include/daw/daw_union_pair.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_union_pair.h b/include/daw/daw_union_pair.h
index bab5c85..943e2de 100644
--- a/include/daw/daw_union_pair.h
+++ b/include/daw/daw_union_pair.h
@@ -17,6 +17,9 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <memory>
+#include <new>
+#include <type_traits>
 #include <utility>
 
 namespace daw {
@@ -76,16 +79,26 @@ namespace daw {
 			}
 		}
 
+		template<typename T, typename U>
+		static constexpr void construct( T *location, U &&value ) {
+#if defined( __cpp_lib_constexpr_dynamic_alloc )
+			std::construct_at( location, DAW_FWD( value ) );
+#else
+			::new( static_cast<void *>( location ) ) T( DAW_FWD( value ) );
+#endif
+		}
+
 		template<typename T>
 		constexpr void store_type0( T &&value ) {
 			static_assert( std::is_convertible_v<T, Type0>,
 			               "Incompatible type T cannot convert to Type0" );
 
-			if( type != data_types::type_0 ) {
-				clear( );
+			if( type == data_types::type_0 ) {
+				value0 = DAW_FWD( value );
+				return;
 			}
-			type = data_types::type_nothing;
-			value0 = DAW_FWD( value );
+			clear( );
+			construct( std::addressof( value0 ), DAW_FWD( value ) );
 			type = data_types::type_0;
 		}
 
@@ -94,11 +107,12 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type1>,
 			               "Incompatible type T cannot convert to Type1" );
 
-			if( type != data_types::type_1 ) {
-				clear( );
+			if( type == data_types::type_1 ) {
+				value1 = DAW_FWD( value );
+				return;
 			}
-			type = data_types::type_nothing;
-			value1 = DAW_FWD( value );
+			clear( );
+			construct( std::addressof( value1 ), DAW_FWD( value ) );
 			type = data_types::type_1;
 		}
 
-- 
2.43.0


From 45cae5bb9e6513cb300c38b38d32552df631290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:45 +0000
Subject: [PATCH 042/289] fix: expected_t captured no exceptions unless another
 header had defined DAW_USE_EXCEPTIONS

---
 include/daw/daw_expected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index c327116..7185179 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -11,6 +11,7 @@
 #include "ciso646.h"
 #include "daw_assume.h"
 #include "daw_attributes.h"
+#include "daw_check_exceptions.h"
 #include "daw_move.h"
 #include "impl/daw_traits_impl.h"
 #include "traits/daw_traits_concepts.h"
-- 
2.43.0


From dea9f24fe0f89df404891485826c1e3152e9a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:30 +0000
Subject: [PATCH 043/289] fix: two empty expected_t compared unequal after a
 throwing assignment

---
 include/daw/daw_expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index 7185179..768bac6 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -60,11 +60,11 @@ namespace daw {
 
 		/// Summary: No value, aka null
 		bool operator==( expected_t const &rhs ) const noexcept {
-			return m_value == rhs.m_value;
+			return ( empty( ) and rhs.empty( ) ) or m_value == rhs.m_value;
 		}
 
 		bool operator!=( expected_t const &rhs ) const noexcept {
-			return m_value != rhs.m_value;
+			return not( *this == rhs );
 		}
 
 		/// Summary: With value
-- 
2.43.0


From c8b768607f51710c066a353d29f5bc4fb4d68579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:05 +0000
Subject: [PATCH 044/289] fix: copy and move the target of daw::function with
 its own copy and move constructors

---
 include/daw/daw_stack_function.h | 39 ++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index b8b025c..3c24d14 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -46,15 +46,22 @@ namespace daw {
 				clean( );
 			}
 
-			function_storage( function_storage const & ) = default;
-			function_storage( function_storage && ) = default;
+			function_storage( function_storage const &other ) {
+				other.ptr( )->copy_to( &m_data );
+			}
+
+			function_storage( function_storage &&other ) noexcept {
+				other.ptr( )->move_to( &m_data );
+			}
 
 			function_storage &operator=( function_storage const &rhs ) {
 				if( this == &rhs ) {
 					return *this;
 				}
+				// copy first so that a throwing copy leaves this object unchanged
+				auto tmp = function_storage( rhs );
 				clean( );
-				m_data = rhs.m_data;
+				tmp.ptr( )->move_to( &m_data );
 				return *this;
 			}
 
@@ -63,7 +70,7 @@ namespace daw {
 					return *this;
 				}
 				clean( );
-				m_data = std::move( rhs.m_data );
+				rhs.ptr( )->move_to( &m_data );
 				return *this;
 			}
 
@@ -121,6 +128,9 @@ namespace daw {
 			virtual Result operator( )( FuncArgs... ) const = 0;
 			virtual Result operator( )( FuncArgs... ) = 0;
 			[[nodiscard]] virtual bool empty( ) const = 0;
+			// Copy/Move construct this target into the storage at dest
+			virtual void copy_to( void *dest ) const = 0;
+			virtual void move_to( void *dest ) = 0;
 		};
 
 		template<typename Result, typename... FuncArgs>
@@ -136,6 +146,14 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return true;
 			}
+
+			void copy_to( void *dest ) const override {
+				new( dest ) empty_child( *this );
+			}
+
+			void move_to( void *dest ) override {
+				new( dest ) empty_child( *this );
+			}
 		};
 
 		template<typename...>
@@ -197,6 +215,19 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return empty_impl( m_func );
 			}
+
+			void copy_to( void *dest ) const override {
+				if constexpr( std::is_copy_constructible_v<Func> ) {
+					new( dest ) function_child( m_func );
+				} else {
+					(void)dest;
+					daw::exception::daw_throw<std::bad_function_call>( );
+				}
+			}
+
+			void move_to( void *dest ) override {
+				new( dest ) function_child( std::move( m_func ) );
+			}
 		};
 
 		template<size_t MaxSize, typename function_base, typename function_child,
-- 
2.43.0


From b45004a7e4949a1e5d79f914eca2068500e4edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:06 +0000
Subject: [PATCH 045/289] fix: daw::function owns a copy of an lvalue target
 instead of a reference

---
 include/daw/daw_stack_function.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index 3c24d14..01ea85e 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -272,7 +272,8 @@ namespace daw {
 		using empty_child = func_impl::empty_child<Result, FuncArgs...>;
 
 		template<typename Func>
-		using function_child = func_impl::function_child<Func, Result, FuncArgs...>;
+		using function_child =
+		  func_impl::function_child<std::decay_t<Func>, Result, FuncArgs...>;
 
 		func_impl::function_storage<MaxSize, function_base> m_storage =
 		  empty_child{ };
-- 
2.43.0


From 53e7ab2868cb7f0131e8005691515d65ea9f1e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:06 +0000
Subject: [PATCH 046/289] fix: daw::function forwards its arguments to the
 target

---
 include/daw/daw_stack_function.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index 01ea85e..93a4a8d 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -179,11 +179,11 @@ namespace daw {
 				daw::exception::precondition_check<std::bad_function_call>( !empty( ) );
 				if constexpr( std::is_same_v<std::decay_t<Result>, void> ) {
 					// daw::invoke( m_func, std::move( args )... );
-					m_func( args... );
+					m_func( std::forward<FuncArgs>( args )... );
 					return;
 				} else {
 					// return daw::invoke( m_func, std::move( args )... );
-					return m_func( args... );
+					return m_func( std::forward<FuncArgs>( args )... );
 				}
 			}
 
@@ -191,11 +191,11 @@ namespace daw {
 				daw::exception::precondition_check<std::bad_function_call>( !empty( ) );
 				if constexpr( std::is_same_v<std::decay_t<Result>, void> ) {
 					// daw::invoke( m_func, std::move( args )... );
-					m_func( args... );
+					m_func( std::forward<FuncArgs>( args )... );
 					return;
 				} else {
 					// return daw::invoke( m_func, std::move( args )... );
-					return m_func( args... );
+					return m_func( std::forward<FuncArgs>( args )... );
 				}
 			}
 
-- 
2.43.0


From a2773eaddad72967724bb971aa9701836775ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:16 +0000
Subject: [PATCH 047/289] fix: daw::function converts from a smaller
 daw::function

---
 include/daw/daw_stack_function.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index 93a4a8d..e91f78a 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -54,6 +54,12 @@ namespace daw {
 				other.ptr( )->move_to( &m_data );
 			}
 
+			template<size_t OtherSize, std::enable_if_t<( OtherSize < StorageSize ),
+			                                            std::nullptr_t> = nullptr>
+			function_storage( function_storage<OtherSize, Base> const &other ) {
+				other.ptr( )->copy_to( &m_data );
+			}
+
 			function_storage &operator=( function_storage const &rhs ) {
 				if( this == &rhs ) {
 					return *this;
@@ -268,6 +274,8 @@ namespace daw {
 
 	template<size_t MaxSize, typename Result, typename... FuncArgs>
 	class function<MaxSize, Result( FuncArgs... )> {
+		template<size_t, typename>
+		friend class function;
 		using function_base = func_impl::function_base<Result, FuncArgs...>;
 		using empty_child = func_impl::empty_child<Result, FuncArgs...>;
 
@@ -275,8 +283,8 @@ namespace daw {
 		using function_child =
 		  func_impl::function_child<std::decay_t<Func>, Result, FuncArgs...>;
 
-		func_impl::function_storage<MaxSize, function_base> m_storage =
-		  empty_child{ };
+		using storage_t = func_impl::function_storage<MaxSize, function_base>;
+		storage_t m_storage = empty_child{ };
 
 		template<typename Func>
 		decltype( auto ) store_if_not_empty( Func &&f ) {
@@ -294,7 +302,7 @@ namespace daw {
 		template<size_t N,
 		         std::enable_if_t<( N <= MaxSize ), std::nullptr_t> = nullptr>
 		function( function<N, Result( FuncArgs... )> const &other )
-		  : m_storage( *other.m_storage ) {}
+		  : m_storage( other.m_storage ) {}
 
 		template<size_t N,
 		         std::enable_if_t<( N > MaxSize ), std::nullptr_t> = nullptr>
@@ -303,7 +311,7 @@ namespace daw {
 		template<size_t N,
 		         std::enable_if_t<( N <= MaxSize ), std::nullptr_t> = nullptr>
 		function &operator=( function<N, Result( FuncArgs... )> const &other ) {
-			m_storage = *other.m_storage;
+			m_storage = storage_t( other.m_storage );
 			return *this;
 		}
 
-- 
2.43.0


From a98fdca386e52e078d91d0277f89cd36da564b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:42 +0000
Subject: [PATCH 048/289] fix: function_ref forwards its arguments to the
 target

---
 include/daw/daw_function_ref.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_function_ref.h b/include/daw/daw_function_ref.h
index 7169c3f..c1e1e57 100644
--- a/include/daw/daw_function_ref.h
+++ b/include/daw/daw_function_ref.h
@@ -56,11 +56,11 @@ namespace daw {
 		static DAW_CPP26_CONSTEXPR Result obj_thunk( data_t const &d,
 		                                             Params... params ) {
 			auto const &obj = *static_cast<Func const *>( d.obj_ptr );
-			return obj( params... );
+			return obj( std::forward<Params>( params )... );
 		}
 
 		static constexpr Result fp_thunk( data_t const &d, Params... params ) {
-			return d.func_ptr( params... );
+			return d.func_ptr( std::forward<Params>( params )... );
 		}
 
 	public:
@@ -123,11 +123,11 @@ namespace daw {
 		static DAW_CPP26_CONSTEXPR void obj_thunk( data_t const &d,
 		                                           Params... params ) {
 			auto const &obj = *static_cast<Func const *>( d.obj_ptr );
-			(void)obj( params... );
+			(void)obj( std::forward<Params>( params )... );
 		}
 
 		static constexpr void fp_thunk( data_t const &d, Params... params ) {
-			d.func_ptr( params... );
+			d.func_ptr( std::forward<Params>( params )... );
 		}
 
 		template<
@@ -162,7 +162,7 @@ namespace daw {
 		}
 
 		constexpr void operator( )( Params... params ) const {
-			m_thunk( m_data, params... );
+			m_thunk( m_data, std::forward<Params>( params )... );
 		}
 	};
 } // namespace daw
-- 
2.43.0


From 45be2785896bd22dfcd15f8ef254906232ad508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:42 +0000
Subject: [PATCH 049/289] fix: function_view forwards arguments with the value
 category of its signature

---
 include/daw/daw_function_view.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_function_view.h b/include/daw/daw_function_view.h
index fcd85d6..8f4bfdd 100644
--- a/include/daw/daw_function_view.h
+++ b/include/daw/daw_function_view.h
@@ -41,19 +41,19 @@ namespace daw {
 			using fn_t = std::remove_reference_t<Func>;
 			if constexpr( std::is_pointer_v<fn_t> ) {
 				return { data_t{ f }, []( data_t const &d, Args... args ) -> Result {
-					        return ( d.fp_storage )( std::move( args )... );
+					        return ( d.fp_storage )( std::forward<Args>( args )... );
 				        } };
 			} else if constexpr( std::is_empty_v<fn_t> and
 			                     std::is_default_constructible_v<fn_t> ) {
 				return { data_t{ nullptr },
 				         []( data_t const &, Args... args ) -> Result {
-					         return fn_t{ }( std::move( args )... );
+					         return fn_t{ }( std::forward<Args>( args )... );
 				         } };
 			} else {
 				return { data_t{ DAW_BIT_CAST( ref_buffer_t, std::addressof( f ) ) },
 				         +[]( data_t const &d, Args... args ) -> Result {
 					         return ( *DAW_BIT_CAST( fn_t const *, d.ref_storage ) )(
-					           std::move( args )... );
+					           std::forward<Args>( args )... );
 				         } };
 			}
 		}
@@ -80,18 +80,18 @@ namespace daw {
 			using fn_t = std::remove_reference_t<Func>;
 			if constexpr( std::is_pointer_v<fn_t> ) {
 				return { data_t{ f }, []( data_t const &d, Args... args ) -> void {
-					        ( d.fp_storage )( std::move( args )... );
+					        ( d.fp_storage )( std::forward<Args>( args )... );
 				        } };
 			} else if constexpr( std::is_empty_v<fn_t> and
 			                     std::is_default_constructible_v<fn_t> ) {
 				return { data_t{ nullptr }, []( data_t const &, Args... args ) -> void {
-					        fn_t{ }( std::move( args )... );
+					        fn_t{ }( std::forward<Args>( args )... );
 				        } };
 			} else {
 				return { data_t{ DAW_BIT_CAST( ref_buffer_t, std::addressof( f ) ) },
 				         +[]( data_t const &d, Args... args ) -> void {
 					         ( *DAW_BIT_CAST( fn_t const *, d.ref_storage ) )(
-					           std::move( args )... );
+					           std::forward<Args>( args )... );
 				         } };
 			}
 		}
@@ -111,7 +111,7 @@ namespace daw {
 
 		constexpr Result operator( )( Args... args ) const {
 			return function_view_table.call_ptr( function_view_table.data,
-			                                     std::move( args )... );
+			                                     std::forward<Args>( args )... );
 		}
 	};
 	template<typename... Args>
@@ -125,7 +125,7 @@ namespace daw {
 
 		constexpr void operator( )( Args... args ) const {
 			function_view_table.call_ptr( function_view_table.data,
-			                              std::move( args )... );
+			                              std::forward<Args>( args )... );
 		}
 	};
 } // namespace daw
-- 
2.43.0


From f9b4dea6dcd31c2619cc743a6c14a2256311b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:42 +0000
Subject: [PATCH 050/289] fix: copying a non-const function_view does not view
 the source object

---
 include/daw/daw_function_view.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_function_view.h b/include/daw/daw_function_view.h
index 8f4bfdd..92d0758 100644
--- a/include/daw/daw_function_view.h
+++ b/include/daw/daw_function_view.h
@@ -11,12 +11,14 @@
 #include "daw_bit_cast.h"
 
 #include <daw/daw_move.h>
+#include <daw/daw_remove_cvref.h>
 
 #include <array>
 #include <cstddef>
 #include <cstdio>
 #include <cstring>
 #include <functional>
+#include <type_traits>
 #include <utility>
 
 namespace daw {
@@ -104,7 +106,11 @@ namespace daw {
 	struct function_view<Result( Args... )> {
 		function_view_table_storage<Result, Args...> function_view_table;
 
-		template<typename Func>
+		// A function_view is copied, not viewed, even when it isn't const
+		template<typename Func,
+		         std::enable_if_t<
+		           not std::is_same_v<daw::remove_cvref_t<Func>, function_view>,
+		           std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<Result, Args...>::make( f ) ) {}
@@ -118,7 +124,11 @@ namespace daw {
 	struct function_view<void( Args... )> {
 		function_view_table_storage<void, Args...> function_view_table;
 
-		template<typename Func>
+		// A function_view is copied, not viewed, even when it isn't const
+		template<typename Func,
+		         std::enable_if_t<
+		           not std::is_same_v<daw::remove_cvref_t<Func>, function_view>,
+		           std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<void, Args...>::make( DAW_FWD( f ) ) ) {}
-- 
2.43.0


From f1ffad1d8c5d1bd1259ae6441b19ca1f3c18cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:57 +0000
Subject: [PATCH 051/289] fix: function_table call operator honours allow_empty

---
 include/daw/daw_function_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_function_table.h b/include/daw/daw_function_table.h
index ab42e89..35c3099 100644
--- a/include/daw/daw_function_table.h
+++ b/include/daw/daw_function_table.h
@@ -129,7 +129,7 @@ namespace daw {
 
 		template<bool allow_empty = false, typename... Args>
 		constexpr R operator( )( size_t idx, Args &&...args ) const {
-			return call( idx, DAW_FWD( args )... );
+			return call<allow_empty>( idx, DAW_FWD( args )... );
 		}
 
 		template<typename Value>
-- 
2.43.0


From 9b96da44b82222f0b8c199994698a4370e8d5a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:35 +0000
Subject: [PATCH 052/289] fix: daw_bind_front.h includes the header of DAW_FWD

---
 include/daw/daw_bind_front.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_bind_front.h b/include/daw/daw_bind_front.h
index 979dba6..facf2a8 100644
--- a/include/daw/daw_bind_front.h
+++ b/include/daw/daw_bind_front.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include "daw_move.h"
+
 #include <tuple>
 #include <type_traits>
 
-- 
2.43.0


From ba8e0ff0298c7fd17333840792952d430319931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:56 +0000
Subject: [PATCH 053/289] fix: daw_shared_function.h includes the header of
 daw_ensure

---
 include/daw/daw_shared_function.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_shared_function.h b/include/daw/daw_shared_function.h
index f0c9550..d81b79d 100644
--- a/include/daw/daw_shared_function.h
+++ b/include/daw/daw_shared_function.h
@@ -10,6 +10,7 @@
 
 #include "daw/daw_cpp_feature_check.h"
 #include "daw/daw_cx_atomic.h"
+#include "daw/daw_ensure.h"
 #include "daw/daw_move.h"
 #include "daw/daw_utility.h"
 #include "daw/traits/daw_copy_cvref_t.h"
-- 
2.43.0


From 58b091eeb850af6c939c7cb9225201865a6af775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:57 +0000
Subject: [PATCH 054/289] fix: shared_function moves its target into the
 storage

---
 include/daw/daw_shared_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_shared_function.h b/include/daw/daw_shared_function.h
index d81b79d..be5dac5 100644
--- a/include/daw/daw_shared_function.h
+++ b/include/daw/daw_shared_function.h
@@ -111,7 +111,7 @@ public:                                                                 \
                                                                               \
 	public:                                                                     \
 		explicit constexpr shared_function_storage( Fn fn )                       \
-		  : m_func{ DAW_FWD( fn ) } {}                                            \
+		  : m_func{ std::move( fn ) } {}                                          \
                                                                               \
 		constexpr R call( Params... params ) CallQuals                            \
 		  noexcept( IsNoExcept ) override {                                       \
-- 
2.43.0


From 53610d9f5ae3b1bb890f20b551011ba12534a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 055/289] fix: bounded_vector has_room was inverted

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index fbaf505..9969c93 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -77,8 +77,8 @@ namespace daw {
 			return N;
 		}
 
-		[[nodiscard]] constexpr bool has_room( size_type count ) noexcept {
-			return count + size( ) >= N;
+		[[nodiscard]] constexpr bool has_room( size_type count ) const noexcept {
+			return count <= available( );
 		}
 
 		[[nodiscard]] constexpr size_type available( ) const noexcept {
-- 
2.43.0


From b4d1fd66a98985d41de8e17e22c39e7d3e6c4c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 056/289] fix: bounded_vector pop_front removes elements from
 the front

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 9969c93..5d527f0 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -271,9 +271,9 @@ namespace daw {
 
 		constexpr void pop_front( size_type const count ) {
 			daw::exception::precondition_check<std::out_of_range>(
-			  m_index <= m_index - count, "Attempt to pop_front past end of stack" );
+			  count <= size( ), "Attempt to pop_front past end of stack" );
 
-			m_index += count;
+			m_first += count;
 		}
 
 		///	take care calling as it is slow
-- 
2.43.0


From c40907a6e37ecf4885976523b5be24dbc9d090c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 057/289] fix: bounded_vector resize after elements were
 removed from the front

---
 include/daw/daw_bounded_vector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 5d527f0..95a6aff 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -289,14 +289,14 @@ namespace daw {
 			  count <= capacity( ), "Attempt to resize past capacity of fix_stack" );
 
 			if( count > size( ) ) {
-				if( can_move_front( count ) ) {
+				if( can_move_front( count - size( ) ) ) {
 					do_move_to_front( );
 				}
 				for( size_type n = size( ); n < count; ++n ) {
-					m_stack[n] = value_type{ };
+					m_stack[m_first + n] = value_type{ };
 				}
 			}
-			m_index = count;
+			m_index = m_first + count;
 		}
 
 		constexpr iterator erase( const_iterator pos ) {
-- 
2.43.0


From 2e7992a7c357f278adc02cb2a23ecadac0da1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 058/289] fix: bounded_vector swap exchanges all elements of
 vectors of different sizes

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 95a6aff..fbcd70d 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -344,8 +344,8 @@ namespace daw {
 		constexpr void swap( bounded_vector_t &rhs ) {
 			daw::cswap( m_index, rhs.m_index );
 			daw::cswap( m_first, rhs.m_first );
-			for( std::size_t n = 0; n < size( ); ++n ) {
-				daw::cswap( operator[]( n ), rhs[n] );
+			for( std::size_t n = 0; n < N; ++n ) {
+				daw::cswap( m_stack[n], rhs.m_stack[n] );
 			}
 		}
 	};
-- 
2.43.0


From c12ab78c4b3718d6009867badcfc92b97b1d264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 059/289] fix: bounded_vector erase returns the element
 following the removed ones

---
 include/daw/daw_bounded_vector.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index fbcd70d..83c46fc 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -308,10 +308,7 @@ namespace daw {
 				std::advance( last, 1 );
 			}
 			resize( size( ) - 1 );
-			if( pos == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), pos ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), pos ) );
 		}
 
 		constexpr iterator erase( const_iterator first, const_iterator last ) {
@@ -329,10 +326,7 @@ namespace daw {
 			  "Attempt to resize past capacity of fix_stack" );
 
 			resize( size( ) - static_cast<size_type>( dist ) );
-			if( last == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), last ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), first ) );
 		}
 
 		constexpr void zero( ) noexcept {
-- 
2.43.0


From afb03f08b35994d27a6e12a9ef75350242c4e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 060/289] fix: bounded_vector erase of all elements is allowed

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 83c46fc..48add24 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -322,7 +322,7 @@ namespace daw {
 			auto const dist = std::distance( first, last );
 
 			daw::exception::dbg_precondition_check<std::out_of_range>(
-			  static_cast<difference_type>( size( ) ) > dist and dist >= 0,
+			  static_cast<difference_type>( size( ) ) >= dist and dist >= 0,
 			  "Attempt to resize past capacity of fix_stack" );
 
 			resize( size( ) - static_cast<size_type>( dist ) );
-- 
2.43.0


From 8e1bb44299864fbef414aaabb1ad2eee27a21767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 061/289] fix: bounded_vector end does not index past the
 storage of a full vector

---
 include/daw/daw_bounded_vector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 48add24..94465a8 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -160,15 +160,15 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr iterator end( ) noexcept {
-			return &m_stack[m_index];
+			return m_stack.begin( ) + m_index;
 		}
 
 		[[nodiscard]] constexpr const_iterator end( ) const noexcept {
-			return &m_stack[m_index];
+			return m_stack.begin( ) + m_index;
 		}
 
 		[[nodiscard]] constexpr const_iterator cend( ) const noexcept {
-			return &m_stack[m_index];
+			return m_stack.begin( ) + m_index;
 		}
 
 		[[nodiscard]] constexpr reverse_iterator rend( ) noexcept {
-- 
2.43.0


From f01eb493312d17c6092b3ca8e1050761315edd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 062/289] fix: bounded_vector push_back of an own element while
 making room

---
 include/daw/daw_bounded_vector.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 94465a8..679f4b7 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -199,7 +199,12 @@ namespace daw {
 	public:
 		constexpr void push_back( const_reference value ) noexcept {
 			if( can_move_front( 1 ) ) {
+				// value may be an element of this vector
+				auto tmp = value;
 				do_move_to_front( );
+				m_stack[m_index] = std::move( tmp );
+				++m_index;
+				return;
 			}
 			m_stack[m_index] = value;
 			++m_index;
@@ -258,10 +263,11 @@ namespace daw {
 
 		template<typename... Args>
 		constexpr void emplace_back( Args &&...args ) noexcept {
-			if( can_move_front( sizeof...( Args ) ) ) {
+			auto value = daw::construct_a<value_type>( DAW_FWD( args )... );
+			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
-			m_stack[m_index] = daw::construct_a<value_type>( DAW_FWD( args )... );
+			m_stack[m_index] = std::move( value );
 			++m_index;
 		}
 
-- 
2.43.0


From 232e2c8a18da29445882ada583954752fa54f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 063/289] fix: simple_array iteration of a const array

---
 include/daw/daw_simple_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_simple_array.h b/include/daw/daw_simple_array.h
index ca7a874..fe5136a 100644
--- a/include/daw/daw_simple_array.h
+++ b/include/daw/daw_simple_array.h
@@ -20,7 +20,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
@@ -86,7 +86,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
-- 
2.43.0


From 9c4176f8a8eda775510ad755cd8cf9c8e50cbe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 064/289] fix: bounded_hash_map erase loses keys that probed
 past the erased slot

---
 include/daw/deprecated/daw_bounded_hash_map.h | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index c7adc75..d36c120 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -534,9 +534,25 @@ namespace daw {
 
 		constexpr void erase( Key const &key ) {
 			auto idx = find_index( key );
-			if( idx ) {
-				m_data[*idx] = bounded_hash_map_item_t<Key, Value>( );
+			if( not idx or not m_data[*idx] ) {
+				return;
+			}
+			// Close the gap so that the items of the following cluster, that probed
+			// past the erased position, can still be found
+			size_type hole = *idx;
+			for( size_type n = ( hole + 1 ) % capacity( );
+			     n != *idx and m_data[n];
+			     n = ( n + 1 ) % capacity( ) ) {
+				size_type const home =
+				  scale_hash( Hash{ }( m_data[n].kv.key ), capacity( ) );
+				bool const is_reachable = hole < n ? ( hole < home and home <= n )
+				                                   : ( hole < home or home <= n );
+				if( not is_reachable ) {
+					m_data[hole] = std::move( m_data[n] );
+					hole = n;
+				}
 			}
+			m_data[hole] = bounded_hash_map_item_t<Key, Value>( );
 		}
 	};
 	template<typename Key, typename Value, typename Hash = std::hash<Key>,
-- 
2.43.0


From 73821bc10f4636e5442d0ee4cc5481b2d5188e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 065/289] fix: bounded_hash_map find of an absent key returns
 end

---
 include/daw/deprecated/daw_bounded_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index d36c120..70d2dae 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -516,7 +516,7 @@ namespace daw {
 
 		constexpr iterator find( Key const &key ) {
 			auto idx = find_index( key );
-			if( not idx ) {
+			if( not idx or not m_data[*idx] ) {
 				return end( );
 			}
 			return { std::data( m_data ), std::data( m_data ) + capacity( ),
@@ -525,7 +525,7 @@ namespace daw {
 
 		constexpr const_iterator find( Key const &key ) const {
 			auto idx = find_index( key );
-			if( not idx ) {
+			if( not idx or not m_data[*idx] ) {
 				return end( );
 			}
 			return { std::data( m_data ), std::data( m_data ) + capacity( ),
-- 
2.43.0


From a11461e86ad01a4b96af819f7c8446e32d8c4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 066/289] fix: bounded_hash_map refuses an insert into a full
 table instead of using an empty optional

---
 include/daw/deprecated/daw_bounded_hash_map.h | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 70d2dae..80e5cab 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -17,6 +17,7 @@
 #include "daw/daw_traits.h"
 
 #include <cstdint>
+#include <cstdlib>
 #include <memory>
 #include <numeric>
 #include <utility>
@@ -345,9 +346,18 @@ namespace daw {
 			return { };
 		}
 
+		constexpr size_type find_slot( Key const &key ) const {
+			auto const index = find_index( key );
+			if( not index ) {
+				// No room left for key
+				std::abort( );
+			}
+			return *index;
+		}
+
 		constexpr void insert( value_type &&item ) {
-			auto const index = find_index( item.key );
-			m_data[*index] =
+			auto const index = find_slot( item.key );
+			m_data[index] =
 			  daw::bounded_hash_map_item_t<Key, Value>( std::move( item ) );
 		}
 
@@ -380,14 +390,14 @@ namespace daw {
 		                           std::is_same_v<Value, daw::remove_cvref_t<V>>>,
 		           std::nullptr_t> = nullptr>
 		constexpr void insert( K &&key, V &&value ) {
-			auto const index = find_index( key );
-			m_data[*index] =
-			  bounded_hash_map_item_t( DAW_FWD( key ), DAW_FWD( value ) );
+			auto const index = find_slot( key );
+			m_data[index] = bounded_hash_map_item_t( DAW_FWD( key ), DAW_FWD( value ) );
 		}
 
 		constexpr void insert( std::pair<Key const, Value> const &item ) {
-			auto const index = find_index( item.first );
-			m_data[*index] = bounded_hash_map_item_t( item.first, item.second );
+			auto const index = find_slot( item.first );
+			m_data[index] =
+			  bounded_hash_map_item_t( item.first, item.second );
 		}
 
 		constexpr bool exists( Key const &key ) const {
@@ -400,7 +410,7 @@ namespace daw {
 		}
 
 		constexpr mapped_type &operator[]( Key const &key ) {
-			auto &item = m_data[*find_index( key )];
+			auto &item = m_data[find_slot( key )];
 			if( not item ) {
 				item.has_value = true;
 				item.kv.key = key;
@@ -410,7 +420,7 @@ namespace daw {
 		}
 
 		constexpr mapped_type &operator[]( Key &&key ) {
-			auto &item = m_data[*find_index( key )];
+			auto &item = m_data[find_slot( key )];
 			if( not item ) {
 				item.has_value = true;
 				item.kv.key = std::move( key );
@@ -420,7 +430,7 @@ namespace daw {
 		}
 
 		constexpr mapped_type const &operator[]( Key const &key ) const {
-			auto const &item = m_data[*find_index( key )];
+			auto const &item = m_data[find_slot( key )];
 			if( not item ) {
 				std::abort( );
 			}
-- 
2.43.0


From 9b378dafd9384a8c2cde2cae84895b9ac0e03d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 067/289] fix: bounded hash map and set iterators are
 assignable

---
 include/daw/deprecated/daw_bounded_hash_map.h | 8 ++++----
 include/daw/deprecated/daw_bounded_hash_set.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 80e5cab..134c278 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -77,8 +77,8 @@ namespace daw {
 		using iterator_category = std::bidirectional_iterator_tag;
 
 	private:
-		bounded_hash_map_item_t<Key, Value> const *const m_first;
-		bounded_hash_map_item_t<Key, Value> const *const m_last;
+		bounded_hash_map_item_t<Key, Value> const *m_first;
+		bounded_hash_map_item_t<Key, Value> const *m_last;
 		bounded_hash_map_item_t<Key, Value> const *m_position;
 
 	public:
@@ -160,8 +160,8 @@ namespace daw {
 		using iterator_category = std::bidirectional_iterator_tag;
 
 	private:
-		bounded_hash_map_item_t<Key, Value> const *const m_first;
-		bounded_hash_map_item_t<Key, Value> const *const m_last;
+		bounded_hash_map_item_t<Key, Value> const *m_first;
+		bounded_hash_map_item_t<Key, Value> const *m_last;
 		bounded_hash_map_item_t<Key, Value> *m_position;
 
 	public:
diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 5427c4b..17c562f 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -53,8 +53,8 @@ namespace daw {
 		using iterator_category = std::bidirectional_iterator_tag;
 
 	private:
-		set_node_t<Key> const *const m_first;
-		set_node_t<Key> const *const m_last;
+		set_node_t<Key> const *m_first;
+		set_node_t<Key> const *m_last;
 		set_node_t<Key> const *m_position;
 
 	public:
@@ -137,8 +137,8 @@ namespace daw {
 		using iterator_category = std::bidirectional_iterator_tag;
 
 	private:
-		set_node_t<Key> const *const m_first;
-		set_node_t<Key> const *const m_last;
+		set_node_t<Key> const *m_first;
+		set_node_t<Key> const *m_last;
 		set_node_t<Key> *m_position;
 
 	public:
-- 
2.43.0


From efca5b81cccc7836b25da9a56969c391bf380b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 068/289] fix: bounded_hash_set iteration reads past the table

---
 include/daw/deprecated/daw_bounded_hash_set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 17c562f..dece92e 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -76,7 +76,7 @@ namespace daw {
 
 		constexpr const_bounded_hash_set_iterator &operator++( ) noexcept {
 			++m_position;
-			while( !m_position->has_value and m_position < m_last ) {
+			while( m_position < m_last and not m_position->has_value ) {
 				++m_position;
 			}
 			return *this;
@@ -167,7 +167,7 @@ namespace daw {
 
 		constexpr bounded_hash_set_iterator &operator++( ) noexcept {
 			++m_position;
-			while( !m_position->has_value and m_position <= m_last ) {
+			while( m_position < m_last and not m_position->has_value ) {
 				++m_position;
 			}
 			return *this;
@@ -181,7 +181,7 @@ namespace daw {
 
 		constexpr bounded_hash_set_iterator &operator--( ) noexcept {
 			--m_position;
-			while( !m_position->has_value and m_position >= m_first ) {
+			while( not m_position->has_value and m_position > m_first ) {
 				--m_position;
 			}
 			return *this;
-- 
2.43.0


From 67e3bb86e153073653f4805554073585c617cb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 069/289] fix: bounded_hash_set find of an absent key returns
 end

---
 include/daw/deprecated/daw_bounded_hash_set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index dece92e..5a2326d 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -450,15 +450,15 @@ namespace daw {
 
 		constexpr iterator find( Key const &key ) noexcept {
 			auto idx = find_index( hasher{ }( key ), key );
-			if( !idx ) {
+			if( !idx or not m_data[*idx].has_value ) {
 				return end( );
 			}
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
 		}
 
 		constexpr const_iterator find( Key const &key ) const noexcept {
-			auto idx = find_index( key );
-			if( !idx ) {
+			auto idx = find_index( hasher{ }( key ), key );
+			if( !idx or not m_data[*idx].has_value ) {
 				return end( );
 			}
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
-- 
2.43.0


From 0584b871654d515eaf0fb03352068cba16d5415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 070/289] fix: bounded_hash_set size does not compile

---
 include/daw/deprecated/daw_bounded_hash_set.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 5a2326d..19e7b97 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -390,8 +390,9 @@ namespace daw {
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
 			return daw::algorithm::accumulate(
-			  std::begin( m_data ), std::end( m_data ), 0ULL, []( auto const &opt ) {
-				  return opt.has_value ? 1ULL : 0ULL;
+			  std::begin( m_data ), std::end( m_data ), size_type{ },
+			  []( size_type count, auto const &node ) {
+				  return count + ( node.has_value ? size_type{ 1 } : size_type{ } );
 			  } );
 		}
 
-- 
2.43.0


From 416ffdfb1f29dfb14dab7532c56bca9a6de22d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 071/289] fix: hash_set erase does not compile and would break
 probe chains

---
 include/daw/daw_hash_set.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 9aa39cf..46a1dc5 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -72,10 +72,26 @@ namespace daw {
 		std::optional<std::size_t> erase( Key const &key ) {
 			std::uint64_t const hash = Hash{ }( key );
 			auto const index = find_index( hash, key );
-			if( not index ) {
+			if( not index or not m_indices[*index] ) {
 				return { };
 			}
-			m_indices[index] = std::nullopt;
+			// Close the gap so that the keys of the following cluster, that probed
+			// past the erased position, can still be found
+			std::size_t const range_size = m_indices.size( );
+			std::size_t hole = *index;
+			for( std::size_t n = ( hole + 1 ) % range_size;
+			     n != *index and m_indices[n];
+			     n = ( n + 1 ) % range_size ) {
+				std::size_t const home =
+				  scale_hash( Hash{ }( *m_indices[n] ), range_size );
+				bool const is_reachable = hole < n ? ( hole < home and home <= n )
+				                                   : ( hole < home or home <= n );
+				if( not is_reachable ) {
+					m_indices[hole] = std::move( m_indices[n] );
+					hole = n;
+				}
+			}
+			m_indices[hole] = std::nullopt;
 			return index;
 		}
 
-- 
2.43.0


From 6d7705b05133ade31c0c920f7c8578fe99ba60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:10 +0000
Subject: [PATCH 072/289] fix: hash_set size does not compile

---
 include/daw/daw_hash_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 46a1dc5..3374b4f 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -115,8 +115,8 @@ namespace daw {
 		[[nodiscard]] std::size_t size( ) const noexcept {
 			return daw::algorithm::accumulate( std::begin( m_indices ),
 			                                   std::end( m_indices ), std::size_t{ },
-			                                   []( auto const &opt ) {
-				                                   return opt.has_value( ) ? 1U : 0U;
+			                                   []( std::size_t count, auto const &opt ) {
+				                                   return opt ? count + 1U : count;
 			                                   } );
 		}
 	};
-- 
2.43.0


From b3ff28e2f9ca8c6c2ef7851ebdffc40bf4cab647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:10 +0000
Subject: [PATCH 073/289] fix: hash_set without capacity divides by zero

---
 include/daw/daw_hash_set.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 3374b4f..dad32b1 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -34,6 +34,9 @@ namespace daw {
 
 		[[nodiscard]] std::optional<std::size_t>
 		find_index( std::uint64_t hash, Key const &key ) const {
+			if( m_indices.empty( ) ) {
+				return { };
+			}
 			std::size_t const scaled_hash = scale_hash( hash, m_indices.size( ) );
 
 			for( std::size_t n = scaled_hash; n < m_indices.size( ); ++n ) {
-- 
2.43.0


From 25b1534703f893788e76163b4f62e199deef20ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 074/289] fix: bounded_hash_set erase loses keys that probed
 past the erased slot

---
 include/daw/deprecated/daw_bounded_hash_set.h | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 19e7b97..dbf6e9f 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -366,11 +366,25 @@ namespace daw {
 		constexpr std::optional<size_type> erase( Key const &key ) noexcept {
 			auto const hash = hasher{ }( key );
 			auto const index = find_index( hash, key );
-			if( !index ) {
+			if( !index or not m_data[*index].has_value ) {
 				return { };
 			}
-			// m_data[*index].key = Key{};
-			m_data[*index].has_value = false;
+			// Close the gap so that the keys of the following cluster, that probed
+			// past the erased position, can still be found
+			size_type hole = *index;
+			for( size_type n = ( hole + 1 ) % m_data.size( );
+			     n != *index and m_data[n].has_value;
+			     n = ( n + 1 ) % m_data.size( ) ) {
+				size_type const home =
+				  scale_hash( hasher{ }( m_data[n].key ), m_data.size( ) );
+				bool const is_reachable = hole < n ? ( hole < home and home <= n )
+				                                   : ( hole < home or home <= n );
+				if( not is_reachable ) {
+					m_data[hole].key = std::move( m_data[n].key );
+					hole = n;
+				}
+			}
+			m_data[hole].has_value = false;
 			return *index;
 		}
 
-- 
2.43.0


From ca7e0a416533f1955d72f784cbfa78ae1d74d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 075/289] fix: bounded_hash_map empty does not compile

---
 include/daw/deprecated/daw_bounded_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 134c278..59db76e 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -478,7 +478,7 @@ namespace daw {
 			return daw::algorithm::find_if( std::cbegin( m_data ),
 			                                std::cend( m_data ),
 			                                []( auto const &value ) {
-				                                return value;
+				                                return value.has_value;
 			                                } ) == std::cend( m_data );
 		}
 
-- 
2.43.0


From 0a99a5f2790884692ee067352e7356a984afc83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 076/289] fix: bounded_hash_map try_get does not compile

---
 include/daw/deprecated/daw_bounded_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 59db76e..6f34d66 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -447,7 +447,7 @@ namespace daw {
 			if( not item ) {
 				return { };
 			}
-			return item.kv.value;
+			return daw::optional<mapped_type const &>( item.kv.value );
 		}
 
 		constexpr size_type count( Key const &key ) const {
-- 
2.43.0


From b7946429954048fd488d4a29377a82c41b079014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 077/289] fix: fnv1a_hash of a string view has an ambiguous
 call

---
 include/daw/daw_fnv1a_hash.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index 4622500..d974eea 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -185,8 +185,7 @@ namespace daw {
 	         std::enable_if_t<traits_is_sv::is_string_view_like_v<StringViewLike>,
 	                          std::nullptr_t> = nullptr>
 	[[nodiscard]] fnv1a_uint_t fnv1a_hash( StringViewLike &&sv ) {
-		using namespace std;
-		return fnv1a_hash( data( sv ), size( sv ) );
+		return fnv1a_hash( std::data( sv ), std::size( sv ) );
 	}
 
 	template<fnv1a_uint_t N>
-- 
2.43.0


From 354f2b305eb14e5d9cfb48e6da7ac9e3e9113dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 078/289] fix: static_hash_t default construction and const
 indexing do not compile

---
 include/daw/static_hash_table.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index 5b95b77..0e92e08 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -108,9 +108,7 @@ namespace daw {
 
 	public:
 		constexpr static_hash_t( )
-		  : m_values{ } {
-			daw::algorithm::fill_n( m_values.begin( ), Capacity, hash_item{ } );
-		}
+		  : m_values{ } {}
 
 		constexpr static_hash_t(
 		  std::initializer_list<std::pair<char const *const, value_type>> items ) {
@@ -158,7 +156,6 @@ namespace daw {
 		[[nodiscard]] constexpr const_reference operator[]( K const &key ) const {
 			auto const hash = hash_fn( key );
 			auto const pos = find_impl( hash );
-			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
 
-- 
2.43.0


From b1ab49d5fc1353dd3fd94b31eb569f5284c3817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 079/289] fix: ordered_map construction from values does not
 compile

---
 include/daw/deprecated/daw_ordered_map.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/daw/deprecated/daw_ordered_map.h b/include/daw/deprecated/daw_ordered_map.h
index 41071a1..0bc9488 100644
--- a/include/daw/deprecated/daw_ordered_map.h
+++ b/include/daw/deprecated/daw_ordered_map.h
@@ -239,7 +239,7 @@ namespace daw {
 		  , m_values( alloc ) {
 
 			while( first != last ) {
-				if( auto pos = find( *first ); pos == end( ) ) {
+				if( auto pos = find( first->first ); pos == end( ) ) {
 					m_values.insert( pos, *first );
 				}
 				++first;
@@ -248,12 +248,11 @@ namespace daw {
 
 		template<typename InputIterator>
 		constexpr ordered_map( InputIterator first,
-		                       InputIterator last,
-		                       allocator_type const &alloc = allocator_type{ } )
+		                       InputIterator last, allocator_type const &alloc )
 		  : m_values( alloc ) {
 
 			while( first != last ) {
-				if( auto pos = find( *first ); pos == end( ) ) {
+				if( auto pos = find( first->first ); pos == end( ) ) {
 					m_values.insert( pos, *first );
 				}
 				++first;
@@ -267,7 +266,7 @@ namespace daw {
 		  , m_compare( comp ) {
 
 			for( auto const &value : init ) {
-				if( auto pos = find( value ); pos == end( ) ) {
+				if( auto pos = find( value.first ); pos == end( ) ) {
 					m_values.insert( pos, value );
 				}
 			}
@@ -278,7 +277,7 @@ namespace daw {
 		  : m_values( alloc ) {
 
 			for( auto const &value : init ) {
-				if( auto pos = find( value ); pos == end( ) ) {
+				if( auto pos = find( value.first ); pos == end( ) ) {
 					m_values.insert( pos, value );
 				}
 			}
-- 
2.43.0


From d6cddc6de3b4a359e4b89a6fb0d28d0bfc4d2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 080/289] fix: ordered_map reverse iteration does not compile

---
 include/daw/deprecated/daw_ordered_map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/deprecated/daw_ordered_map.h b/include/daw/deprecated/daw_ordered_map.h
index 0bc9488..7c6ea58 100644
--- a/include/daw/deprecated/daw_ordered_map.h
+++ b/include/daw/deprecated/daw_ordered_map.h
@@ -126,17 +126,17 @@ namespace daw {
 			return cbeginer( m_values );
 		}
 
-		constexpr iterator rbegin( ) noexcept {
+		constexpr reverse_iterator rbegin( ) noexcept {
 			using namespace daw::ordered_map_impl;
 			return rbeginer( m_values );
 		}
 
-		constexpr const_iterator rbegin( ) const noexcept {
+		constexpr const_reverse_iterator rbegin( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return rbeginer( m_values );
 		}
 
-		constexpr const_iterator crbegin( ) const noexcept {
+		constexpr const_reverse_iterator crbegin( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return crbeginer( m_values );
 		}
@@ -156,17 +156,17 @@ namespace daw {
 			return cender( m_values );
 		}
 
-		constexpr iterator rend( ) noexcept {
+		constexpr reverse_iterator rend( ) noexcept {
 			using namespace daw::ordered_map_impl;
 			return render( m_values );
 		}
 
-		constexpr const_iterator rend( ) const noexcept {
+		constexpr const_reverse_iterator rend( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return render( m_values );
 		}
 
-		constexpr const_iterator crend( ) const noexcept {
+		constexpr const_reverse_iterator crend( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return crender( m_values );
 		}
-- 
2.43.0


From 2011e92e0141543ff723e2abcdfe685c9369c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 081/289] fix: static_hash_t refuses a new key in a full table
 instead of writing past it

---
 include/daw/static_hash_table.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index 0e92e08..4797615 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -11,10 +11,12 @@
 #include "daw/ciso646.h"
 #include "daw/daw_algorithm.h"
 #include "daw/daw_arith_traits.h"
+#include "daw/daw_check_exceptions.h"
 #include "daw/daw_fnv1a_hash.h"
 #include "daw/daw_remove_cvref.h"
 
 #include <limits>
+#include <stdexcept>
 
 namespace daw {
 	template<typename T, std::size_t Capacity>
@@ -89,6 +91,14 @@ namespace daw {
 			return Capacity;
 		}
 
+		[[nodiscard]] constexpr std::size_t find_slot( std::uint64_t hash ) const {
+			auto const pos = find_impl( hash );
+			if( pos >= Capacity ) {
+				DAW_THROW_OR_TERMINATE( std::out_of_range, "Hash table is full" );
+			}
+			return pos;
+		}
+
 		[[nodiscard]] constexpr std::size_t
 		find_next_empty( std::size_t const pos ) const {
 			for( std::size_t n = pos; n < Capacity; ++n ) {
@@ -114,7 +124,7 @@ namespace daw {
 		  std::initializer_list<std::pair<char const *const, value_type>> items ) {
 			for( auto const &item : items ) {
 				auto const hash = hash_fn( item.first );
-				auto const pos = find_impl( hash );
+				auto const pos = find_slot( hash );
 				m_values[pos].hash_value = hash;
 				m_values[pos].value = item.second;
 			}
@@ -125,7 +135,7 @@ namespace daw {
 		  std::initializer_list<std::pair<K, value_type>> items ) {
 			for( auto const &item : items ) {
 				auto const hash = hash_fn( item.first );
-				auto const pos = find_impl( hash );
+				auto const pos = find_slot( hash );
 				m_values[pos].hash_value = hash;
 				m_values[pos].value = std::move( item.second );
 			}
@@ -140,14 +150,14 @@ namespace daw {
 		template<typename K>
 		[[nodiscard]] constexpr reference operator[]( K const &key ) {
 			auto const hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_slot( hash );
 			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
 
 		[[nodiscard]] constexpr reference operator[]( char const *const key ) {
 			auto const hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_slot( hash );
 			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
@@ -155,14 +165,14 @@ namespace daw {
 		template<typename K>
 		[[nodiscard]] constexpr const_reference operator[]( K const &key ) const {
 			auto const hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_slot( hash );
 			return m_values[pos].value;
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( char const *const key ) const {
 			auto hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_slot( hash );
 			return m_values[pos].value;
 		}
 	}; // static_hash_t
-- 
2.43.0


From 899a62d0f3212a850b74e07d8e7c0440049f1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 082/289] fix: fixed_lookup with a 4 byte hash does not compile

---
 include/daw/deprecated/daw_fixed_lookup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_fixed_lookup.h b/include/daw/deprecated/daw_fixed_lookup.h
index 88e1838..8130259 100644
--- a/include/daw/deprecated/daw_fixed_lookup.h
+++ b/include/daw/deprecated/daw_fixed_lookup.h
@@ -134,7 +134,7 @@ namespace daw {
 					return lookup_result_t{ n, false };
 				}
 			}
-			return lookup_result_t{ m_hashes.size( ), false };
+			return lookup_result_t{ capacity( ), false };
 		}
 
 	public:
-- 
2.43.0


From c0dbc530f87328b9a7dbc2595c8a9a8fda8e91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 083/289] fix: perfect_hash_table single item buckets claim a
 second slot

---
 include/daw/daw_min_perfect_hash.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index e5a9d0e..c095999 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -278,6 +278,7 @@ namespace daw {
 				m_salts[bucket.bucket_index] = -( static_cast<salt_type>( pos ) + 1 );
 				m_keys[pos] = bucket.items[0]->first;
 				m_values[pos] = bucket.items[0]->second;
+				return;
 			}
 
 			for( salt_type salt = 1;; ++salt ) {
-- 
2.43.0


From 973a694ebafda8e57bb2099f6beef1d3dcd3d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 084/289] fix: perfect_hash_table finds a default constructed
 key that is absent

---
 include/daw/daw_min_perfect_hash.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index c095999..2a5f0b6 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -173,14 +173,14 @@ namespace daw {
 				           return lhs.items.size( ) > rhs.items.size( );
 			           } );
 
-			daw::array<bool, m_data_size> slots_claimed{ };
+			
 
 			daw::algorithm::find_if( buckets.cbegin( ), buckets.cend( ),
 			                         [&]( auto const &bucket ) {
 				                         if( bucket.items.empty( ) ) {
 					                         return true;
 				                         }
-				                         find_salt_for_bucket( bucket, slots_claimed );
+				                         find_salt_for_bucket( bucket );
 				                         return false;
 			                         } );
 		}
@@ -192,7 +192,7 @@ namespace daw {
 		[[nodiscard]] constexpr const_mapped_type_pointer
 		find( Key const &key ) const {
 			size_type const pos = find_data_index( key );
-			if( key_equal{ }( key, m_keys[pos] ) ) {
+			if( m_claimed[pos] and key_equal{ }( key, m_keys[pos] ) ) {
 				return &m_values[pos];
 			}
 			return nullptr;
@@ -204,12 +204,12 @@ namespace daw {
 
 		[[nodiscard]] constexpr bool contains( Key const &key ) const noexcept {
 			size_type const pos = find_data_index( key );
-			return key_equal{ }( key, m_keys[pos] );
+			return m_claimed[pos] and key_equal{ }( key, m_keys[pos] );
 		}
 
 		[[nodiscard]] constexpr mapped_type_pointer find( Key const &key ) {
 			size_type const pos = find_data_index( key );
-			if( key_equal{ }( key, m_keys[pos] ) ) {
+			if( m_claimed[pos] and key_equal{ }( key, m_keys[pos] ) ) {
 				return &m_values[pos];
 			}
 			return nullptr;
@@ -244,6 +244,7 @@ namespace daw {
 		daw::array<salt_type, m_num_buckets> m_salts{ };
 		daw::array<mapped_type, m_data_size> m_values{ };
 		daw::array<key_type, m_data_size> m_keys{ };
+		daw::array<bool, m_data_size> m_claimed{ };
 		//***************
 
 		template<size_type Space = m_data_size>
@@ -264,17 +265,16 @@ namespace daw {
 
 		template<typename ForwardIterator>
 		constexpr void
-		find_salt_for_bucket( bucket_t<ForwardIterator> const &bucket,
-		                      daw::array<bool, m_data_size> &slots_claimed ) {
+		find_salt_for_bucket( bucket_t<ForwardIterator> const &bucket ) {
 			if( bucket.items.size( ) == 1 ) {
 				auto const pos = daw::algorithm::find_index_of(
-				  slots_claimed.cbegin( ), slots_claimed.cend( ), false );
-				if( pos == slots_claimed.size( ) ) {
+				  m_claimed.cbegin( ), m_claimed.cend( ), false );
+				if( pos == m_claimed.size( ) ) {
 					// Should never happen, there should always be at least one unclaimed
 					// slot
 					std::abort( );
 				}
-				slots_claimed[pos] = true;
+				m_claimed[pos] = true;
 				m_salts[bucket.bucket_index] = -( static_cast<salt_type>( pos ) + 1 );
 				m_keys[pos] = bucket.items[0]->first;
 				m_values[pos] = bucket.items[0]->second;
@@ -289,7 +289,7 @@ namespace daw {
 				  [&]( auto const *const item ) -> bool {
 					  hash_result const slot_wanted =
 					    scale_hash( call_hash( item->first, salt ) );
-					  if( slots_claimed[slot_wanted] or
+					  if( m_claimed[slot_wanted] or
 					      ( daw::algorithm::find(
 					          slots_this_bucket.begin( ), slots_this_bucket.end( ),
 					          slot_wanted ) != slots_this_bucket.end( ) ) ) {
@@ -305,7 +305,7 @@ namespace daw {
 						auto const pos = static_cast<size_t>( slots_this_bucket[i] );
 						m_keys[pos] = bucket.items[i]->first;
 						m_values[pos] = bucket.items[i]->second;
-						slots_claimed[pos] = true;
+						m_claimed[pos] = true;
 					}
 					return;
 				}
-- 
2.43.0


From 687ca5b31b72879a157eab5e58998a13040baf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:48 +0000
Subject: [PATCH 085/289] fix: generic_hash of an lvalue string does not
 compile

---
 include/daw/daw_generic_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_generic_hash.h b/include/daw/daw_generic_hash.h
index 8971618..3bfd8bf 100644
--- a/include/daw/daw_generic_hash.h
+++ b/include/daw/daw_generic_hash.h
@@ -224,7 +224,7 @@ namespace daw {
 	template<size_t HashBytes = sizeof( genhash_uint_t ), typename StringViewLike,
 	         std::enable_if_t<traits_is_sv::is_string_view_like_v<StringViewLike>,
 	                          std::nullptr_t> = nullptr>
-	auto generic_hash( StringViewLike const &&sv ) noexcept {
+	auto generic_hash( StringViewLike const &sv ) noexcept {
 		return generic_hash<HashBytes>( sv.data( ), sv.size( ) );
 	}
 
-- 
2.43.0


From 22c619e35f357f2fa87a5713a91088fcb5d8017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 086/289] fix: perfect_hash_table construction never ends when
 hashes agree modulo the table size

---
 include/daw/daw_min_perfect_hash.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index 2a5f0b6..796188a 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -108,8 +108,16 @@ namespace daw {
 
 			uintmax_t const s = seed + 1;
 			uintmax_t const h = hash;
-			return static_cast<hash_result>(
-			  s ^ ( h + 0x9e3779b9ULL + ( s << 6ULL ) + ( s >> 2ULL ) ) );
+			uintmax_t result =
+			  s ^ ( h + 0x9e3779b9ULL + ( s << 6ULL ) + ( s >> 2ULL ) );
+			// Only the low bits select a slot.  Without mixing in the high bits, no
+			// salt can separate keys with hashes that agree in the low bits
+			result ^= result >> 33ULL;
+			result *= 0xff51afd7ed558ccdULL;
+			result ^= result >> 33ULL;
+			result *= 0xc4ceb9fe1a85ec53ULL;
+			result ^= result >> 33ULL;
+			return static_cast<hash_result>( result );
 		}
 	} // namespace mph_impl
 
-- 
2.43.0


From ab0c2ba3d8c1f8cca715f0c9d7553ccee0b5791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 087/289] fix: distinct nodes of one graph compare equal

---
 include/daw/daw_graph.h                    | 16 ++++++++--------
 include/daw/deprecated/daw_bounded_graph.h | 10 +++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/daw/daw_graph.h b/include/daw/daw_graph.h
index 49bd0ae..77df31c 100644
--- a/include/daw/daw_graph.h
+++ b/include/daw/daw_graph.h
@@ -209,15 +209,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -225,7 +225,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
@@ -308,15 +308,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -324,7 +324,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
diff --git a/include/daw/deprecated/daw_bounded_graph.h b/include/daw/deprecated/daw_bounded_graph.h
index 0add992..6ad0cb7 100644
--- a/include/daw/deprecated/daw_bounded_graph.h
+++ b/include/daw/deprecated/daw_bounded_graph.h
@@ -235,15 +235,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -251,7 +251,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
@@ -342,7 +342,7 @@ namespace daw {
 		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
-- 
2.43.0


From b5212a5be235bcdb5c6b803e4c4632f6e81112d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 088/289] fix: graph walks sort with an invalid ordering when
 values are equal

---
 include/daw/daw_graph_algorithm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 07f5d56..ffc7a61 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -97,8 +97,8 @@ namespace daw {
 					auto child_nodes = graph_alg_impl::get_child_nodes( graph, node );
 					if constexpr( perform_sort_v ) {
 						std::sort( std::begin( child_nodes ), std::end( child_nodes ),
-						           [&]( auto &&...args ) {
-							           return not comp( DAW_FWD( args )... );
+						           [&]( auto const &lhs, auto const &rhs ) {
+							           return comp( rhs, lhs );
 						           } );
 					}
 					for( auto child : child_nodes ) {
@@ -182,8 +182,8 @@ namespace daw {
 
 					std::sort( children.begin( ), children.end( ),
 					           [&]( daw::node_id_t left_id, daw::node_id_t right_id ) {
-						           return not ord( graph.get_node( left_id ).value( ),
-						                           graph.get_node( right_id ).value( ) );
+						           return ord( graph.get_node( right_id ).value( ),
+						                graph.get_node( left_id ).value( ) );
 					           } );
 					path.reserve( path.size( ) + children.size( ) );
 					std::copy( children.begin( ), children.end( ),
-- 
2.43.0


From 9877577518c2e241052af372b1ebf9c9d29b5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 089/289] fix: dfs_walk visits a node once per path

---
 include/daw/daw_graph_algorithm.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index ffc7a61..563a423 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -163,8 +163,11 @@ namespace daw {
 			while( not path.empty( ) ) {
 				auto current_node = graph.get_node( path.back( ) );
 				path.pop_back( );
+				if( not visited.insert( current_node.id( ) ).second ) {
+					// A node can be pushed once per incoming edge
+					continue;
+				}
 				func( current_node );
-				visited.insert( current_node.id( ) );
 				if constexpr( std::is_same_v<ChildOrder, UnorderedWalk> ) {
 					std::copy_if( std::begin( current_node.outgoing_edges( ) ),
 					              std::end( current_node.outgoing_edges( ) ),
-- 
2.43.0


From 268437337057a2e519100f8da6d4fc1db8a46d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:41 +0000
Subject: [PATCH 090/289] fix: reverse iteration of topologically sorted ranges

---
 include/daw/daw_graph_algorithm.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 563a423..f18292d 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -308,7 +308,7 @@ namespace daw {
 
 		[[nodiscard]] topological_sorted_iterator end( ) const {
 			auto result = *this;
-			result.m_iterator = result.end( );
+			result.m_iterator = m_nodes->end( );
 			return result;
 		}
 
@@ -428,7 +428,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> rbegin( ) const {
-				return std::reverse_iterator<iterator_t>( first );
+				return std::reverse_iterator<iterator_t>( last );
 			}
 
 			[[nodiscard]] iterator_t end( ) const {
@@ -436,7 +436,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> rend( ) const {
-				return std::reverse_iterator<iterator_t>( last );
+				return std::reverse_iterator<iterator_t>( first );
 			}
 
 			[[nodiscard]] size_t size( ) const noexcept {
@@ -468,7 +468,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> begin( ) const {
-				return std::reverse_iterator<iterator_t>( first );
+				return std::reverse_iterator<iterator_t>( last );
 			}
 
 			[[nodiscard]] iterator_t rend( ) const {
@@ -476,7 +476,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> end( ) const {
-				return std::reverse_iterator<iterator_t>( last );
+				return std::reverse_iterator<iterator_t>( first );
 			}
 
 			[[nodiscard]] size_t size( ) const noexcept {
-- 
2.43.0


From b48c989ce7cc593c7eb8539e26107cc8343014ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 091/289] fix: uint8_t times or divided by a UInt64 was
 truncated to 8 bits

The 8 bit overloads took a UInt64, which also made 1 / UInt64{1<<32} divide by zero
---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 6b17df0..62e7fee 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -2561,7 +2561,7 @@ namespace daw {
 		return lhs;
 	}
 
-	constexpr UInt8 operator*( std::uint8_t lhs, UInt64 rhs ) noexcept {
+	constexpr UInt8 operator*( std::uint8_t lhs, UInt8 rhs ) noexcept {
 		lhs = static_cast<std::uint8_t>( lhs * static_cast<std::uint32_t>( rhs ) );
 		return static_cast<UInt8>( lhs );
 	}
@@ -2594,7 +2594,7 @@ namespace daw {
 		return lhs;
 	}
 
-	constexpr UInt8 operator/( std::uint8_t lhs, UInt64 rhs ) noexcept {
+	constexpr UInt8 operator/( std::uint8_t lhs, UInt8 rhs ) noexcept {
 		lhs = static_cast<std::uint8_t>( static_cast<std::uint32_t>( lhs ) /
 		                                 static_cast<std::uint32_t>( rhs ) );
 		return static_cast<UInt8>( lhs );
-- 
2.43.0


From f10789731cc42f3cf7b825c4ac7c985620b50a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 092/289] fix: negating UInt64/UInt32 with only the top bit set
 overflowed

---
 include/daw/daw_uint_types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 62e7fee..98b0bdb 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -1744,8 +1744,8 @@ namespace daw {
 	}
 
 	constexpr UInt64 operator-( UInt64 value ) {
-		return static_cast<UInt64>(
-		  static_cast<std::uint64_t>( -static_cast<std::int64_t>( value ) ) );
+		return static_cast<UInt64>( std::uint64_t{ 0 } -
+		                            static_cast<std::uint64_t>( value ) );
 	}
 
 	constexpr UInt64 &operator++( UInt64 &value ) {
@@ -2128,8 +2128,8 @@ namespace daw {
 	}
 
 	constexpr UInt32 operator-( UInt32 value ) {
-		return static_cast<UInt32>(
-		  static_cast<std::uint32_t>( -static_cast<std::int32_t>( value ) ) );
+		return static_cast<UInt32>( std::uint32_t{ 0 } -
+		                            static_cast<std::uint32_t>( value ) );
 	}
 
 	constexpr UInt32 &operator++( UInt32 &value ) {
-- 
2.43.0


From 43e9884cc8670f48b2d63d9d1eb390bd4842d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 093/289] fix: 65535_u16 and 255_u8 were rejected

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 98b0bdb..a20078d 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -3325,13 +3325,13 @@ namespace daw {
 
 	constexpr UInt16 operator""_u16( unsigned long long value ) {
 		assert(
-		  ( value < static_cast<unsigned long long>( max_value<std::uint16_t> ) ) );
+		  ( value <= static_cast<unsigned long long>( max_value<std::uint16_t> ) ) );
 		return static_cast<UInt16>( value );
 	}
 
 	constexpr UInt8 operator""_u8( unsigned long long value ) {
 		assert(
-		  ( value < static_cast<unsigned long long>( max_value<std::uint8_t> ) ) );
+		  ( value <= static_cast<unsigned long long>( max_value<std::uint8_t> ) ) );
 		return static_cast<UInt8>( value );
 	}
 } // namespace daw
-- 
2.43.0


From aded28fb8d2cb083c17036977c2c6a687ebfb794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 094/289] fix: rotating by zero or the full width shifted by
 the full width

---
 include/daw/daw_uint_types.h | 48 ++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index a20078d..7550e26 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -667,21 +667,25 @@ namespace daw {
 	template<unsigned bits>
 	constexpr UInt64 rotate_left( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return ( value << ( bits % 64U ) ) |
+		       ( value >> ( ( 64U - bits % 64U ) % 64U ) );
 	}
 
 	constexpr UInt64 rotate_left( UInt64 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return ( value << ( bits % 64U ) ) |
+		       ( value >> ( ( 64U - bits % 64U ) % 64U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt64 rotate_right( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return ( value >> ( bits % 64U ) ) |
+		       ( value << ( ( 64U - bits % 64U ) % 64U ) );
 	}
 
 	constexpr UInt64 rotate_right( UInt64 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return ( value >> ( bits % 64U ) ) |
+		       ( value << ( ( 64U - bits % 64U ) % 64U ) );
 	}
 
 	constexpr UInt32 &operator<<=( UInt32 &b, std::uint32_t shift ) noexcept {
@@ -1075,21 +1079,25 @@ namespace daw {
 	template<unsigned bits>
 	constexpr UInt32 rotate_left( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return ( value << ( bits % 32U ) ) |
+		       ( value >> ( ( 32U - bits % 32U ) % 32U ) );
 	}
 
 	constexpr UInt32 rotate_left( UInt32 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return ( value << ( bits % 32U ) ) |
+		       ( value >> ( ( 32U - bits % 32U ) % 32U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt32 rotate_right( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return ( value >> ( bits % 32U ) ) |
+		       ( value << ( ( 32U - bits % 32U ) % 32U ) );
 	}
 
 	constexpr UInt32 rotate_right( UInt32 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return ( value >> ( bits % 32U ) ) |
+		       ( value << ( ( 32U - bits % 32U ) % 32U ) );
 	}
 
 	constexpr UInt16 &operator<<=( UInt16 &b, std::uint16_t shift ) noexcept {
@@ -2446,23 +2454,27 @@ namespace daw {
 	constexpr UInt16 rotate_left( UInt16 value ) {
 		static_assert( bits <= 16 );
 		auto tmp = static_cast<unsigned>( value );
-		return to_uint16( ( tmp << bits ) | ( tmp >> ( 16U - bits ) ) );
+		return to_uint16( ( tmp << ( bits % 16U ) ) |
+		       ( tmp >> ( ( 16U - bits % 16U ) % 16U ) ) );
 	}
 
 	constexpr UInt16 rotate_left( UInt16 value, unsigned bits ) {
 		auto tmp = static_cast<unsigned>( value );
-		return to_uint16( ( tmp << bits ) | ( tmp >> ( 16U - bits ) ) );
+		return to_uint16( ( tmp << ( bits % 16U ) ) |
+		       ( tmp >> ( ( 16U - bits % 16U ) % 16U ) ) );
 	}
 	template<unsigned bits>
 	constexpr UInt16 rotate_right( UInt16 value ) {
 		static_assert( bits <= 16 );
 		auto tmp = static_cast<unsigned>( value );
-		return static_cast<UInt16>( ( tmp >> bits ) | ( tmp << ( 16U - bits ) ) );
+		return static_cast<UInt16>( ( tmp >> ( bits % 16U ) ) |
+		       ( tmp << ( ( 16U - bits % 16U ) % 16U ) ) );
 	}
 
 	constexpr UInt16 rotate_right( UInt16 value, unsigned bits ) {
 		auto tmp = static_cast<unsigned>( value );
-		return static_cast<UInt16>( ( tmp >> bits ) | ( tmp << ( 16U - bits ) ) );
+		return static_cast<UInt16>( ( tmp >> ( bits % 16U ) ) |
+		       ( tmp << ( ( 16U - bits % 16U ) % 16U ) ) );
 	}
 
 	constexpr UInt8 &operator+=( UInt8 &lhs, UInt8 rhs ) noexcept {
@@ -2931,24 +2943,28 @@ namespace daw {
 	constexpr UInt8 rotate_left( UInt8 value ) {
 		static_assert( bits <= 8 );
 		auto tmp = static_cast<unsigned>( value );
-		return static_cast<UInt8>( ( tmp << bits ) | ( tmp >> ( 8U - bits ) ) );
+		return static_cast<UInt8>( ( tmp << ( bits % 8U ) ) |
+		       ( tmp >> ( ( 8U - bits % 8U ) % 8U ) ) );
 	}
 
 	constexpr UInt8 rotate_left( UInt8 value, unsigned bits ) {
 		auto tmp = static_cast<unsigned>( value );
-		return static_cast<UInt8>( ( tmp << bits ) | ( tmp >> ( 8U - bits ) ) );
+		return static_cast<UInt8>( ( tmp << ( bits % 8U ) ) |
+		       ( tmp >> ( ( 8U - bits % 8U ) % 8U ) ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt8 rotate_right( UInt8 value ) {
 		static_assert( bits <= 8 );
 		auto tmp = static_cast<unsigned>( value );
-		return static_cast<UInt8>( ( tmp >> bits ) | ( tmp << ( 8U - bits ) ) );
+		return static_cast<UInt8>( ( tmp >> ( bits % 8U ) ) |
+		       ( tmp << ( ( 8U - bits % 8U ) % 8U ) ) );
 	}
 
 	constexpr UInt8 rotate_right( UInt8 value, unsigned bits ) {
 		auto tmp = static_cast<unsigned>( value );
-		return static_cast<UInt8>( ( tmp >> bits ) | ( tmp << ( 8U - bits ) ) );
+		return static_cast<UInt8>( ( tmp >> ( bits % 8U ) ) |
+		       ( tmp << ( ( 8U - bits % 8U ) % 8U ) ) );
 	}
 
 	template<unsigned N>
-- 
2.43.0


From 521b2bd41e01b63322011e93816427b153d5fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 095/289] fix: set_bit on a UInt64 cleared the upper 32 bits

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 7550e26..10e5102 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -2891,8 +2891,8 @@ namespace daw {
 	template<unsigned N>
 	inline constexpr void set_bit( UInt64 &value, bool state ) {
 		static_assert( N <= 64 );
-		value =
-		  ( value & ( ~( 1U << N ) ) ) | ( static_cast<UInt64>( state ) << N );
+		value = ( value & ( ~( UInt64{ 1 } << N ) ) ) |
+		        ( static_cast<UInt64>( state ) << N );
 	}
 
 	template<unsigned N>
-- 
2.43.0


From efac394aeb321b8e73d0b352c086ccc3310acfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 096/289] fix: to_native_endian and network_to_host_endian
 never swapped on little endian hosts

---
 include/daw/daw_endian.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_endian.h b/include/daw/daw_endian.h
index fa60fb6..03e5f93 100644
--- a/include/daw/daw_endian.h
+++ b/include/daw/daw_endian.h
@@ -135,7 +135,7 @@ namespace daw {
 		if constexpr( endian::native == endian::big ) {
 			return value;
 		} else {
-			return to_little_endian( value );
+			return endian_details::swap_bytes( value, daw::constant<sizeof( T )>{ } );
 		}
 	}
 
@@ -144,10 +144,8 @@ namespace daw {
 	constexpr T to_native_endian( T value ) noexcept {
 		if constexpr( SourceEndian == endian::native ) {
 			return value;
-		} else if constexpr( endian::native == endian::little ) {
-			return to_little_endian( value );
 		} else {
-			return to_big_endian( value );
+			return endian_details::swap_bytes( value, daw::constant<sizeof( T )>{ } );
 		}
 	}
 } // namespace daw
-- 
2.43.0


From fb3bf322d8936d3eb983bec32a2ab605c192c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 097/289] fix: bitset::unset also cleared one of the lowest
 bits of the limb

---
 include/daw/daw_bitset.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/daw/daw_bitset.h b/include/daw/daw_bitset.h
index 194bb8c..f75fffd 100644
--- a/include/daw/daw_bitset.h
+++ b/include/daw/daw_bitset.h
@@ -44,7 +44,6 @@ namespace daw {
 
 		DAW_ATTRIB_INLINE constexpr void unset( std::size_t index ) {
 			assert( index < size( ) );
-			m_bits[get_limb( index )] &= ~( 1u << index % 4 );
 			auto const limb = get_limb( index );
 			auto const mask = get_mask( index );
 			m_bits[limb] &= ~mask;
-- 
2.43.0


From c1ae43d04b6e3ea65c143eae39027136b41e071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 098/289] fix: basic_nibble_queue::full could not be called at
 run time

---
 include/daw/daw_bit_queues.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 5a8fa6e..3f7756a 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -146,7 +146,7 @@ namespace daw {
 		  : m_queue{ std::move( v ) } {}
 
 		[[nodiscard]] constexpr size_t capacity( ) const noexcept {
-			return m_queue.capacity( ) / 4;
+			return basic_bit_queue<queue_type, value_type>::capacity( ) / 4;
 		}
 
 		[[nodiscard]] constexpr size_t size( ) const noexcept {
-- 
2.43.0


From 3d968bc7bc6c32f0c62047f585d77a3a087dd237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 099/289] fix: bit_queue lost bits when popping from the back
 and shifted by its full width

pop_back truncated to value_type before shifting the bits down and built its
mask with a 32 bit signed shift.  Pushing or popping as many bits as the queue
holds shifted by the full width.
---
 include/daw/daw_bit_queues.h | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 3f7756a..1025f49 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -85,11 +85,14 @@ namespace daw {
 			  ( capacity( ) - m_size ) >= bits,
 			  "Not enough bits to hold value pushed" );
 
-			value &= mask_msb<value_type>(
-			  bit_count_v<value_type> -
-			  bits ); // get_left_mask<value_type>( bit_count_v<value_type> - bits );
-			m_queue <<= bits;
-			m_queue |= source_to_native_endian( value, BitQueueLSB{ } );
+			value = source_to_native_endian( value, BitQueueLSB{ } );
+			value &= mask_msb<value_type>( bit_count_v<value_type> - bits );
+			if( bits < capacity( ) ) {
+				m_queue <<= bits;
+			} else {
+				m_queue = 0;
+			}
+			m_queue |= value;
 			m_size += bits;
 		}
 
@@ -99,7 +102,11 @@ namespace daw {
 			auto const mask = mask_msb<queue_type>( capacity( ) - bits );
 			auto result =
 			  static_cast<value_type>( static_cast<value_type>( m_queue & mask ) );
-			m_queue >>= bits;
+			if( bits < capacity( ) ) {
+				m_queue >>= bits;
+			} else {
+				m_queue = 0;
+			}
 			m_size -= bits;
 			return result;
 		}
@@ -107,11 +114,12 @@ namespace daw {
 		[[nodiscard]] constexpr value_type pop_back( size_t const bits ) {
 			daw::exception::dbg_throw_on_false( m_size >= bits,
 			                                    "Not enough bits to pop request" );
-			auto mask = queue_type( ( 1 << bits ) - 1 );
-			mask <<= size( ) - bits;
-			auto result = static_cast<value_type>( m_queue & mask );
-			result >>= size( ) - bits;
-			m_queue = m_queue & ~mask;
+			if( bits == 0 ) {
+				return 0;
+			}
+			auto const remaining = size( ) - bits;
+			auto const result = static_cast<value_type>( m_queue >> remaining );
+			m_queue &= mask_msb<queue_type>( capacity( ) - remaining );
 			m_size -= bits;
 			return result;
 		}
-- 
2.43.0


From ae9e7eb0f5f3b3f12a4a9543cfe26ea334aa7bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 100/289] fix: parse_to returned wrapped integers for out of
 range text

The bound was the number of binary digits of the result, so a too large value
overflowed instead of raising numeric_overflow_exception; parsing the minimum
of a signed type overflowed too and a lone '-' was accepted as zero
---
 include/daw/daw_parse_to.h | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index 4e5cf14..6c59ee4 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -42,30 +42,39 @@ namespace daw {
 			namespace helpers {
 				template<typename Result>
 				constexpr Result parse_int( daw::string_view &str ) {
-					intmax_t count = std::numeric_limits<Result>::digits;
-					Result result = 0;
+					using wide_t = std::conditional_t<std::is_signed_v<Result>, std::intmax_t,
+					                                  std::uintmax_t>;
+					constexpr auto max_v =
+					  static_cast<wide_t>( std::numeric_limits<Result>::max( ) );
+					constexpr auto min_v =
+					  static_cast<wide_t>( std::numeric_limits<Result>::min( ) );
+					wide_t result = 0;
 					bool is_neg = false;
 					if( '-' == str.front( ) ) {
-
 						daw::exception::precondition_check<invalid_input_exception>(
 						  std::numeric_limits<Result>::is_signed );
-
 						is_neg = true;
 						str.remove_prefix( );
 					}
-					while( count > 0 and !str.empty( ) and is_number( str.front( ) ) ) {
-						result *= static_cast<Result>( 10 );
-						result += static_cast<Result>( str.front( ) - '0' );
-						--count;
+					daw::exception::precondition_check<invalid_input_exception>(
+					  not str.empty( ) );
+					while( not str.empty( ) and is_number( str.front( ) ) ) {
+						auto const digit = static_cast<wide_t>( str.front( ) - '0' );
+						// negative values are built downwards so that min is reachable
+						daw::exception::precondition_check<numeric_overflow_exception>(
+						  is_neg ? result >= ( min_v + digit ) / 10
+						         : digit <= max_v and result <= ( max_v - digit ) / 10 );
+						result *= 10;
+						if( is_neg ) {
+							result -= digit;
+						} else {
+							result += digit;
+						}
 						str.remove_prefix( );
 					}
-
 					daw::exception::precondition_check<numeric_overflow_exception>(
 					  str.empty( ) );
-					if( is_neg ) {
-						result *= static_cast<Result>( -1 );
-					}
-					return result;
+					return static_cast<Result>( result );
 				}
 
 				template<typename Result>
-- 
2.43.0


From fd734d439d27fe03134e209c88555c96885dd35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 101/289] fix: parse_to of a quoted string without closing
 quote read past the end

---
 include/daw/daw_parse_to.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index 6c59ee4..6ef43ce 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -146,7 +146,7 @@ namespace daw {
 					last_char = str.pop_front( );
 				}
 				daw::exception::precondition_check<missing_expected_quotes_exception>(
-				  str.data( ) != nullptr and str.front( ) == '"' );
+				  not str.empty( ) and str.front( ) == '"' );
 
 				return daw::string_view( first, str.data( ) );
 			}
-- 
2.43.0


From a1b283e0bfd5ef19c60ddbaff093dc5bd04ce89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 102/289] fix: parser::value_in, one_of, in and until_values
 matched what is not in the set

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 812b880..a38743d 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -200,14 +200,14 @@ namespace daw::parser {
 		return std::find_if( std::begin( container ), std::end( container ),
 		                     [&]( auto const &v ) {
 			                     return is_a( value, v );
-		                     } ) == std::end( container );
+		                     } ) != std::end( container );
 	}
 
 	template<typename T, typename U, size_t N>
 	[[nodiscard]] constexpr bool value_in( T &&value, U ( &container )[N] ) {
 		return std::find_if( container, container + N, [&]( auto const &v ) {
 			       return is_a( value, v );
-		       } ) == std::end( container );
+		       } ) != std::end( container );
 	}
 
 	class in_t {
-- 
2.43.0


From e2142c62310e935c49354e47f81fd0ccf35ec4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 103/289] fix: parser::assert_equal and assert_not_equal were
 swapped

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index a38743d..29f0d69 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -316,14 +316,14 @@ namespace daw::parser {
 		static_assert( traits::is_comparable_v<T, U>,
 		               "lhs is not comparable to rhs" );
 
-		daw::exception::precondition_check<ParserException>( lhs == rhs );
+		daw::exception::precondition_check<ParserException>( lhs != rhs );
 	}
 
 	template<typename T, typename U>
 	constexpr void assert_equal( T &&lhs, U &&rhs ) {
 		static_assert( traits::is_comparable_v<T, U>,
 		               "lhs is not comparable to rhs" );
-		daw::exception::precondition_check<ParserException>( lhs != rhs );
+		daw::exception::precondition_check<ParserException>( lhs == rhs );
 	}
 
 	template<typename Iterator>
-- 
2.43.0


From fdf910bfa1f4585dd7e1b5c9b4754b5b69a9af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 104/289] fix: parser::is_true with several predicates swapped
 its arguments

---
 include/daw/daw_parser_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 29f0d69..6c20bbe 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -253,7 +253,7 @@ namespace daw::parser {
 	template<typename T, typename Predicate, typename... Predicates>
 	[[nodiscard]] constexpr bool is_true( T &&value, Predicate &&predicate,
 	                                      Predicates &&...predicates ) {
-		return is_true( DAW_FWD( predicate ), DAW_FWD( value ) ) or
+		return is_true( value, predicate ) or
 		       is_true( DAW_FWD( value ), DAW_FWD( predicates )... );
 	}
 
-- 
2.43.0


From 8b91c808871e4b62ef38926de34543a23a7f5989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 105/289] fix: parser::split_on and split_if never got past the
 first divider

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 6c20bbe..875bbdf 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -389,7 +389,7 @@ namespace daw::parser {
 		  until_value( first, last, DAW_FWD( divider ), DAW_FWD( dividers )... );
 		while( result ) {
 			endings.push_back( result.last );
-			result = until_value( result.last, last, DAW_FWD( divider ),
+			result = until_value( std::next( result.last ), last, DAW_FWD( divider ),
 			                      DAW_FWD( dividers )... );
 		}
 		if( result.first != result.last ) {
@@ -408,7 +408,7 @@ namespace daw::parser {
 		auto result = until( first, last, is_divider );
 		while( result ) {
 			endings.push_back( result.last );
-			result = until( result.last, last, is_divider );
+			result = until( std::next( result.last ), last, is_divider );
 		}
 		if( result.first != result.last ) {
 			endings.push_back( result.last );
-- 
2.43.0


From b15cc2a11d778da1c0c48b7c6742438c8314b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 106/289] fix: parser::is_crlf only matched at the start of the
 input

---
 include/daw/daw_parser_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 875bbdf..55ffd26 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -563,7 +563,7 @@ namespace daw::parser {
 
 		[[nodiscard]] inline bool operator( )( value_type const &v ) {
 			m_last_values.push_back( std::move( v ) );
-			while( m_last_values.size( ) > 4 ) {
+			while( m_last_values.size( ) > 2 * m_count ) {
 				m_last_values.pop_front( );
 			}
 			return match( );
-- 
2.43.0


From 5332ae6a598fd85a963c32e3ad933dd4054bc76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 107/289] fix: find_result_t::empty( false ) was always false

---
 include/daw/daw_parser_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 55ffd26..83c80cf 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -51,7 +51,7 @@ namespace daw::parser {
 		[[nodiscard]] constexpr bool empty( bool throw_on_empty ) {
 			daw::exception::precondition_check<ParserEmptyException>(
 			  not( throw_on_empty and empty( ) ) );
-			return false;
+			return empty( );
 		}
 
 		template<typename Container>
-- 
2.43.0


From d1022b34c037fa806d745b98614105116e6d833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 108/289] fix: parser::trim_right cut the text at its first
 inner whitespace

---
 include/daw/daw_parser_helper.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 83c80cf..2971207 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -508,12 +508,18 @@ namespace daw::parser {
 		// left to right.  So that sucks for perf, try not to just right trim
 		//
 		using val_t = daw::traits::root_type_t<decltype( *first )>;
-		auto start = until( first, last, &not_unicode_whitespace<val_t> );
-		if( not start ) {
+		auto word = until( first, last, &not_unicode_whitespace<val_t> );
+		if( not word ) {
 			return make_find_result( first, last, false );
 		}
-		auto finish = until( start.last, last, &is_unicode_whitespace<val_t> );
-		return make_find_result( first, finish.last, true );
+		auto finish = last;
+		while( word ) {
+			auto const gap =
+			  until( word.last, last, &is_unicode_whitespace<val_t> );
+			finish = gap.last;
+			word = until( gap.last, last, &not_unicode_whitespace<val_t> );
+		}
+		return make_find_result( first, finish, true );
 	}
 
 	template<typename ForwardIterator>
-- 
2.43.0


From 92c8e88351a04f47ae5e4acf09ce08e95a57bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 109/289] fix: parser::trim of nothing but whitespace kept the
 whitespace

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 2971207..9dab251 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -496,7 +496,7 @@ namespace daw::parser {
 		using val_t = daw::traits::root_type_t<decltype( *first )>;
 		auto start = until( first, last, &not_unicode_whitespace<val_t> );
 		if( not start ) {
-			return make_find_result( first, last );
+			return make_find_result( last, last );
 		}
 		return make_find_result( start.last, last );
 	}
@@ -510,7 +510,7 @@ namespace daw::parser {
 		using val_t = daw::traits::root_type_t<decltype( *first )>;
 		auto word = until( first, last, &not_unicode_whitespace<val_t> );
 		if( not word ) {
-			return make_find_result( first, last, false );
+			return make_find_result( first, first, false );
 		}
 		auto finish = last;
 		while( word ) {
-- 
2.43.0


From 141abbc54de836bb1b15852bd88e7d35baa9622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 110/289] fix: find_number stopped at the first digit and could
 step past the end

---
 include/daw/daw_parser_addons.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 119e8f4..226e35a 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -24,18 +24,22 @@ namespace daw::parser {
 			return is_a( '-', v ) or is_number( v );
 		};
 
+		auto result = until( first, last, is_first );
+		daw::exception::precondition_check<ParserException>( result );
+		result.first = result.last;
+		++result.last;
 		bool has_decimal = false;
-		auto const is_last = [&has_decimal]( auto const &v ) {
-			if(is_a( '.', v )) {
-				if(has_decimal) {
-					return true;
+		while( result.last != last ) {
+			if( is_a( '.', *result.last ) ) {
+				if( has_decimal ) {
+					break;
 				}
 				has_decimal = true;
+			} else if( not is_number( *result.last ) ) {
+				break;
 			}
-			return is_number( v );
-		};
-		auto result = from_to_pred( first, last, is_first, is_last );
-		++result.last;
+			++result.last;
+		}
 		return result;
 	}
 
-- 
2.43.0


From ecffb3641230bab44f7a5ca0a50bc3c8ab652a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 111/289] fix: parse_string_literal rejected leading
 whitespace, accepted an unterminated literal and read an empty range

---
 include/daw/daw_parser_addons.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 226e35a..97a5b14 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -119,7 +119,9 @@ namespace daw::parser {
 	constexpr auto parse_string_literal( ForwardIterator first,
 	                                     ForwardIterator const last ) {
 		auto result = trim_left( first, last );
-		auto quote_char = *first;
+		daw::exception::precondition_check<ParserException>(
+			result.first != last );
+		auto quote_char = *result.first;
 
 		daw::exception::precondition_check<ParserException>(
 			is_quote( quote_char ) );
@@ -129,7 +131,8 @@ namespace daw::parser {
 		++it;
 		bool found = false;
 		while(it != last) {
-			if(( found = is_a( *it, quote_char ) ) and !is_escape( *last_it )) {
+			if(is_a( *it, quote_char ) and !is_escape( *last_it )) {
+				found = true;
 				break;
 			}
 			last_it = it;
-- 
2.43.0


From 2274a0e0ac4afe07643719c02ea6874eb463d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 112/289] fix: parser::parse_int and parse_unsigned_int
 dereferenced an empty range

---
 include/daw/daw_parser_addons.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 97a5b14..a14eb44 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -57,7 +57,7 @@ namespace daw::parser {
 		auto count = std::numeric_limits<Result>::digits10;
 
 		daw::exception::precondition_check<ParserOutOfRangeException>(
-			'-' != *first,
+			first == last or '-' != *first,
 			"Negative values are unsupported" );
 
 		for(; first != last and count > 0; ++first, --count) {
@@ -94,7 +94,7 @@ namespace daw::parser {
 	constexpr void parse_int( ForwardIterator first, ForwardIterator last,
 	                          Result &result ) {
 		bool is_neg = false;
-		if('-' == *first) {
+		if(first != last and '-' == *first) {
 			daw::exception::precondition_check<ParserOutOfRangeException>(
 				std::numeric_limits<Result>::is_signed,
 				"Negative values are unsupported with unsigned Result" );
-- 
2.43.0


From 97e357d75b7587059d5378a4e2cb0c3ec6a26d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 113/289] fix: parser::one_of did not compile for calls or for
 more than one value

---
 include/daw/daw_parser_helper.h | 39 +++++++++++++++++----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 9dab251..6a98414 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -159,25 +159,6 @@ namespace daw::parser {
 		return is_a( value, tst ) or is_a( value, tsts... );
 	}
 
-	template<typename Arg>
-	class one_of_t {
-		std::vector<Arg> m_args;
-
-	public:
-		one_of_t( std::initializer_list<Arg> args )
-		  : m_args{ args } {}
-
-		template<typename T>
-		[[nodiscard]] bool operator( )( T &&value ) const {
-			return value_in( DAW_FWD( value ), m_args );
-		}
-	}; // one_of
-
-	template<typename... Arg>
-	[[nodiscard]] auto one_of( Arg &&...args ) {
-		return one_of_t<Arg...>{ DAW_FWD( args )... };
-	}
-
 	template<typename ForwardIterator, typename Value, typename... Values>
 	[[nodiscard]] constexpr find_result_t<ForwardIterator>
 	until_value( ForwardIterator first, ForwardIterator last, Value &&value,
@@ -210,6 +191,26 @@ namespace daw::parser {
 		       } ) != std::end( container );
 	}
 
+	template<typename Arg>
+	class one_of_t {
+		std::vector<Arg> m_args;
+
+	public:
+		one_of_t( std::initializer_list<Arg> args )
+		  : m_args{ args } {}
+
+		template<typename T>
+		[[nodiscard]] bool operator( )( T &&value ) const {
+			return value_in( DAW_FWD( value ), m_args );
+		}
+	}; // one_of
+
+	template<typename... Arg>
+	[[nodiscard]] auto one_of( Arg &&...args ) {
+		using value_type = std::common_type_t<Arg...>;
+		return one_of_t<value_type>{ static_cast<value_type>( DAW_FWD( args ) )... };
+	}
+
 	class in_t {
 		daw::string_view container;
 
-- 
2.43.0


From 4a4bf19b195dcd3293ed49e931f41d9282d6e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 114/289] fix: parser::is_alpha and is_alphanumeric did not
 compile for lvalues

---
 include/daw/daw_parser_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 6a98414..9905dc9 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -278,7 +278,7 @@ namespace daw::parser {
 
 	template<typename T>
 	[[nodiscard]] constexpr bool is_alpha( T &&value ) noexcept {
-		using val_t = typename daw::traits::max_sizeof<T, decltype( 'a' )>::type;
+		using val_t = typename daw::traits::max_sizeof<daw::remove_cvref_t<T>, decltype( 'a' )>::type;
 		constexpr auto const a = static_cast<val_t>( 'a' );
 		constexpr auto const A = static_cast<val_t>( 'A' );
 		constexpr auto const z = static_cast<val_t>( 'z' );
-- 
2.43.0


From 991fd2ce182a7fa73b1bfdd2a8b155f015e1d450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 115/289] fix: safe_advance and begin_at did not compile for
 non-random access iterators

---
 include/daw/daw_algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 81526c5..d176a49 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -88,7 +88,7 @@ namespace daw {
 		template<typename Iterator, typename Iterator2, typename Iterator3,
 		         typename Distance,
 		         daw::enable_when_t<
-		           not traits::is_random_access_iterator<Iterator>> = nullptr>
+		           not traits::is_random_access_iterator_v<Iterator>> = nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
 		                                  Distance dist ) noexcept {
@@ -103,7 +103,7 @@ namespace daw {
 		template<
 		  typename Iterator, typename Iterator2, typename Iterator3,
 		  typename Distance,
-		  daw::enable_when_t<traits::is_random_access_iterator<Iterator>> = nullptr>
+		  daw::enable_when_t<traits::is_random_access_iterator_v<Iterator>> = nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
 		                                  Distance dist ) noexcept {
-- 
2.43.0


From 2a1ba63a6183062b7be61506de5cd0d6a69dba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 116/289] fix: begin_at of a position beyond PTRDIFF_MAX
 returned begin instead of end

---
 include/daw/daw_algorithm.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index d176a49..ba1de9e 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -32,6 +32,7 @@
 #include <algorithm>
 #include <array>
 #include <cstddef>
+#include <cstdint>
 #include <daw/stdinc/compare_fn.h>
 #include <daw/stdinc/data_access.h>
 #include <daw/stdinc/range_access.h>
@@ -221,7 +222,8 @@ namespace daw {
 
 		traits::is_container_like_test<Container>( );
 		auto result = std::begin( container );
-		safe_advance( container, result, static_cast<ptrdiff_t>( n ) );
+		safe_advance( container, result,
+		              (daw::min)( n, static_cast<size_t>( PTRDIFF_MAX ) ) );
 		return result;
 	}
 
@@ -240,7 +242,8 @@ namespace daw {
 		traits::is_container_like_test<Container>( );
 
 		auto result = std::cbegin( container );
-		safe_advance( container, result, static_cast<ptrdiff_t>( n ) );
+		safe_advance( container, result,
+		              (daw::min)( n, static_cast<size_t>( PTRDIFF_MAX ) ) );
 		return result;
 	}
 } // namespace daw
-- 
2.43.0


From 2082412fad3dd7bde2ca2117a4e1f726be278a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 117/289] fix: safe_prev could not be called with its default
 distance

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index ba1de9e..90faaf8 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -197,7 +197,7 @@ namespace daw {
 	/// @param first boundary for it
 	/// @param n number of steps to advance backwards
 	/// @return The resulting iterator advanced n steps
-	template<typename Iterator, typename Distance>
+	template<typename Iterator, typename Distance = size_t>
 	constexpr Iterator
 	safe_prev( Iterator it, Iterator first, Distance n = 1 ) noexcept(
 	  noexcept( daw::prev( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
-- 
2.43.0


From 5cda3d29a467b8e4701dbb864e734d239ec7bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 118/289] fix: are_equal compared the values only pairwise

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 90faaf8..97838d9 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -494,7 +494,7 @@ namespace daw::algorithm {
 
 	template<typename ValueType, typename... Values>
 	constexpr bool are_equal( ValueType v1, ValueType v2, Values... others ) {
-		return are_equal( v1, v2 ) and are_equal( others... );
+		return are_equal( v1, v2 ) and are_equal( v2, others... );
 	}
 
 	template<typename ForwardIterator, typename Predicate>
-- 
2.43.0


From c0fc459dc7b52977c4d3b78d71682bffa4e9e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 119/289] fix: gather did not compile

---
 include/daw/daw_algorithm.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 97838d9..22b7b31 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -511,8 +511,7 @@ namespace daw::algorithm {
 		  } );
 
 		auto finish = std::stable_partition( target, last, predicate );
-
-		return std::make_pair( start, finish );
+		return { start, finish };
 	}
 
 	template<typename T>
-- 
2.43.0


From 7e6802b8747734f1ac22368490dfd18d0374c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 120/289] fix: algorithm::split dropped the elements after the
 last divider

---
 include/daw/daw_algorithm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 22b7b31..660bb9c 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -592,6 +592,9 @@ namespace daw::algorithm {
 				temp.push_back( *it );
 			}
 		}
+		if( not temp.empty( ) ) {
+			result.push_back( std::move( temp ) );
+		}
 		return result;
 	}
 
-- 
2.43.0


From 2068bd1beef63fced040ee26961b598f000b6333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 121/289] fix: satisfies_one/all with captureless lambdas took
 the value for an iterator

---
 include/daw/daw_algorithm.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 660bb9c..ee951e7 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -637,6 +637,7 @@ namespace daw::algorithm {
 	template<typename Iterator, typename Iterator2, typename UnaryPredicate,
 	         typename... UnaryPredicates,
 	         daw::enable_when_t<std::conjunction_v<
+	           traits::is_dereferenceable<Iterator>,
 	           traits::is_dereferenceable<Iterator2>,
 	           traits::is_equality_comparable<daw::traits::deref_t<Iterator2>>>> =
 	           nullptr>
@@ -698,6 +699,7 @@ namespace daw::algorithm {
 	template<typename Iterator, typename Iterator2, typename UnaryPredicate,
 	         typename... UnaryPredicates,
 	         daw::enable_when_t<std::conjunction_v<
+	           traits::is_dereferenceable<Iterator>,
 	           traits::is_dereferenceable<Iterator2>,
 	           traits::is_equality_comparable<daw::traits::deref_t<Iterator2>>>> =
 	           nullptr>
-- 
2.43.0


From 45cac73f61926e2ed6df5bce83475631602a61ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 122/289] fix: in_range compared its moved-from arguments

---
 include/daw/daw_algorithm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index ee951e7..0f66ec8 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -732,7 +732,8 @@ namespace daw::algorithm {
 			  : m_lower( DAW_FWD( lower ) )
 			  , m_upper( DAW_FWD( upper ) ) {
 
-				daw::exception::precondition_check<std::out_of_range>( lower <= upper );
+				daw::exception::precondition_check<std::out_of_range>( m_lower <=
+				                                                       m_upper );
 			}
 
 			template<typename T>
-- 
2.43.0


From 30553c0bc9a6ca55a78030a8e96b83b840286995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 123/289] fix: transform_n did not compile for callables taking
 the index

---
 include/daw/daw_algorithm.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 0f66ec8..7688089 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1022,10 +1022,9 @@ namespace daw::algorithm {
 	/// @return last item in output range
 	template<typename InputIterator, typename OutputIterator,
 	         typename UnaryOperation>
-	constexpr auto transform_n(
-	  InputIterator first, OutputIterator first_out, size_t count,
-	  UnaryOperation unary_op ) noexcept( noexcept( *first_out =
-	                                                  unary_op( *first ) ) ) {
+	constexpr auto
+	transform_n( InputIterator first, OutputIterator first_out, size_t count,
+	             UnaryOperation unary_op ) {
 
 		traits::is_input_iterator_test<InputIterator>( );
 		static_assert(
@@ -1035,10 +1034,9 @@ namespace daw::algorithm {
 		  "dereferenced type of first or with an addditional argument of "
 		  "size_t" );
 
-		traits::is_output_iterator_test<OutputIterator,
-		                                decltype( unary_op( *first ) )>( );
-
 		if constexpr( std::is_invocable_v<UnaryOperation, decltype( *first )> ) {
+			traits::is_output_iterator_test<OutputIterator,
+			                                decltype( unary_op( *first ) )>( );
 			while( count-- > 0 ) {
 				*first_out = unary_op( *first );
 				++first;
@@ -1046,7 +1044,7 @@ namespace daw::algorithm {
 			}
 		} else {
 			for( size_t n = 0U; n < count; ++n, ++first, ++first_out ) {
-				*first_out = *unary_op( *first, n );
+				*first_out = unary_op( *first, n );
 			}
 		}
 		struct result_t {
-- 
2.43.0


From 4cf13d0d66cbb1e375f788bf82c8ef56c44deee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 124/289] fix: algorithm::not_equal was true only when every
 element differs

---
 include/daw/daw_algorithm.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 7688089..f9f59f4 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1275,12 +1275,14 @@ namespace daw::algorithm {
 		traits::is_compare_test<Compare, decltype( *first1 ),
 		                        decltype( *first2 )>( );
 
-		while( ( first1 != last1 ) and ( first2 != last2 ) and
-		       comp( *first1, *first2 ) ) {
+		while( ( first1 != last1 ) and ( first2 != last2 ) ) {
+			if( comp( *first1, *first2 ) ) {
+				return true;
+			}
 			++first1;
 			++first2;
 		}
-		return first1 == last1 and first2 == last2;
+		return first1 != last1 or first2 != last2;
 	}
 
 	/// @brief Determine if two ranges [first1, last1) and [first2, first2 +
@@ -1322,11 +1324,14 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<InputIterator1>( );
 		traits::is_input_iterator_test<InputIterator2>( );
 
-		while( first1 != last1 and std::not_equal_to<>{ }( *first1, *first2 ) ) {
+		while( first1 != last1 ) {
+			if( std::not_equal_to<>{ }( *first1, *first2 ) ) {
+				return true;
+			}
 			++first1;
 			++first2;
 		}
-		return not( first1 != last1 );
+		return false;
 	}
 
 	/// @brief Returns an iterator pointing to the first element in the range
-- 
2.43.0


From 1576904503046efb988d02f2d3b6dd94dabb4629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 125/289] fix: consume_if passed the kept elements to the
 function instead of the matching ones

---
 include/daw/daw_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index f9f59f4..6be5f73 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1797,9 +1797,11 @@ namespace daw::algorithm {
 	  Function &&func ) noexcept( noexcept( daw::invoke( pred, *first ) ) ) {
 		first = daw::algorithm::find_if( first, last, pred );
 		if( first != last ) {
+			(void)daw::invoke( func, *first );
 			for( ForwardIterator i = first; ++i != last; ) {
-				if( not daw::invoke( pred, *i ) ) {
+				if( daw::invoke( pred, *i ) ) {
 					(void)daw::invoke( func, *i );
+				} else {
 					*first = std::move( *i );
 					++first;
 				}
-- 
2.43.0


From 7a2843224a6c99a78f5a9ba9a351c16dfe982290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 126/289] fix: convert_copy could not be called and neither it
 nor convert_copy_n returned

---
 include/daw/daw_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 6be5f73..98f9634 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -2138,13 +2138,14 @@ namespace daw::algorithm {
 
 	template<typename T, typename Iterator, typename IteratorLast,
 	         typename OutputIterator>
-	constexpr OutputIterator convert_copy( Iterator first, Iterator last,
+	constexpr OutputIterator convert_copy( Iterator first, IteratorLast last,
 	                                       OutputIterator out_first ) {
 		while( first != last ) {
 			*out_first = static_cast<T>( *first );
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 
 	template<typename T, typename Iterator, typename OutputIterator>
@@ -2156,6 +2157,7 @@ namespace daw::algorithm {
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 } // namespace daw::algorithm
 
-- 
2.43.0


From 263e37798cf9790595c451153af8f827665abb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 127/289] fix: find_unsorted stepped outside an empty range

---
 include/daw/daw_algorithm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 98f9634..3316b88 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -2002,6 +2002,9 @@ namespace daw::algorithm {
 	template<typename RandomIterator, typename Compare = std::less<>>
 	RandomIterator find_unsorted( RandomIterator first, RandomIterator last,
 	                              Compare comp = Compare{ } ) {
+		if( first == last ) {
+			return last;
+		}
 		auto second = std::next( first );
 		auto second_last = std::prev( last );
 
-- 
2.43.0


From 93fbf2edccbcb496e9250070afe1e0f45333f028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 128/289] fix: algorithm::rotate read past the end for middle
 == last, and slide did not compile

---
 include/daw/daw_algorithm_cx.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index 54fcab9..03f01f1 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -22,25 +22,41 @@ namespace daw::algorithm {
 	/// @param first first item in range
 	/// @param middle middle of range, first item in new range
 	/// @param last last item in range
+	/// @return position of the element that was first
 	template<typename ForwardIterator, typename LastType>
-	constexpr void rotate(
-	  ForwardIterator first, ForwardIterator middle,
+	constexpr ForwardIterator
+	rotate( ForwardIterator first, ForwardIterator middle,
 	  LastType last ) noexcept( noexcept( daw::cswap( *first, *middle ) ) ) {
 
 		traits::is_forward_access_iterator_test<ForwardIterator>( );
 		traits::is_inout_iterator_test<ForwardIterator>( );
 
+		if( middle == last ) {
+			return first;
+		}
 		ForwardIterator tmp = middle;
+		ForwardIterator result = first;
+		bool has_result = false;
 		while( first != tmp ) {
 			daw::cswap( *first, *tmp );
 			++first;
 			++tmp;
 			if( tmp == last ) {
+				if( not has_result ) {
+					result = first;
+					has_result = true;
+				}
 				tmp = middle;
 			} else if( first == middle ) {
 				middle = tmp;
 			}
 		}
+		if( not has_result ) {
+			while( result != last ) {
+				++result;
+			}
+		}
+		return result;
 	}
 
 	template<typename ForwardIterator>
@@ -51,13 +67,11 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<ForwardIterator>( );
 
 		if( target < first ) {
-			return std::make_pair( target,
-			                       daw::algorithm::rotate( target, first, last ) );
+			return { target, daw::algorithm::rotate( target, first, last ) };
 		}
 
 		if( last < target ) {
-			return std::make_pair( daw::algorithm::rotate( first, last, target ),
-			                       target );
+			return { daw::algorithm::rotate( first, last, target ), target };
 		}
 
 		return std::make_pair( first, last );
-- 
2.43.0


From 35df75f1aec75c7b1eb9d580eebc1f399d756ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 129/289] fix: algorithm::nth_element left wrong elements at
 and before nth

---
 include/daw/daw_algorithm_cx.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index 03f01f1..7ad6954 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -89,19 +89,22 @@ namespace daw::algorithm {
 
 		traits::is_compare_test<Compare, decltype( *first ), decltype( *nth )>( );
 
-		if( not( first != last ) ) {
+		if( nth == last ) {
 			return;
 		}
-		while( first != nth ) {
+		while( true ) {
 			auto min_idx = first;
 			auto j = daw::next( first );
 			while( j != last ) {
 				if( daw::invoke( comp, *j, *min_idx ) ) {
 					min_idx = j;
-					daw::cswap( *first, *min_idx );
 				}
 				++j;
 			}
+			daw::cswap( *first, *min_idx );
+			if( first == nth ) {
+				return;
+			}
 			++first;
 		}
 	}
-- 
2.43.0


From 726c1bbb2f266e47740cdf6316c1542e9bc454c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 130/289] fix: algorithm::partition and none_of were ambiguous
 with the std functions

---
 include/daw/daw_algorithm.h    | 2 +-
 include/daw/daw_algorithm_cx.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 3316b88..6b5cbb3 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1945,7 +1945,7 @@ namespace daw::algorithm {
 	}
 	template<class InputIt, class UnaryPredicate>
 	constexpr bool none_of( InputIt first, InputIt last, UnaryPredicate &&p ) {
-		return find_if( first, last, DAW_FWD( p ) ) == last;
+		return daw::algorithm::find_if( first, last, DAW_FWD( p ) ) == last;
 	}
 
 	template<size_t MinSize = 1, typename BidirectionalIterator>
diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index 7ad6954..f3492bf 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -118,7 +118,7 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<ForwardIterator>( );
 		traits::is_unary_predicate_test<UnaryPredicate, decltype( *first )>( );
 
-		first = find_if_not( first, last, unary_predicate );
+		first = daw::algorithm::find_if_not( first, last, unary_predicate );
 		if( first == last ) {
 			return first;
 		}
-- 
2.43.0


From cf7a3f43f2e80c54bfcc9256946883fda812d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 131/289] fix: swap_ranges dereferenced its iterators twice

---
 include/daw/daw_swap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_swap.h b/include/daw/daw_swap.h
index 65f24fe..012f69d 100644
--- a/include/daw/daw_swap.h
+++ b/include/daw/daw_swap.h
@@ -80,7 +80,7 @@ namespace daw {
 	  ForwardIterator2 first2 ) noexcept( noexcept( daw::iter_swap( first1,
 	                                                                first2 ) ) ) {
 		while( first1 != last1 ) {
-			daw::iter_swap( *first1, *first2 );
+			daw::iter_swap( first1, first2 );
 			++first1;
 			++first2;
 		}
-- 
2.43.0


From 3f068cb2583804a2eb296c4e6cbe850c676cf948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 132/289] fix: extract_matching used the extracted node's
 iterator

---
 include/daw/daw_algorithm.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 6b5cbb3..316ff97 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1926,8 +1926,7 @@ namespace daw::algorithm {
 				// Iterator is invalidated inside extract_to,
 				// incrementing here ensures that we do not have an
 				// iterator to the current item
-				extract_to( from, to, it );
-				++it;
+				to.insert( from.extract( it++ ) );
 			} else {
 				++it;
 			}
-- 
2.43.0


From 348eca3e6b112020bd365b4895a3ef545ae0bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:10 +0000
Subject: [PATCH 133/289] fix: transform_if required the output to accept the
 predicate's result

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 316ff97..aee4b68 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -991,7 +991,7 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<ForwardIterator>( );
 		traits::is_unary_predicate_test<UnaryPredicate, decltype( *first )>( );
 		traits::is_output_iterator_test<OutputIterator,
-		                                decltype( pred( *first ) )>( );
+		                                decltype( trans( *first ) )>( );
 
 		static_assert( std::is_invocable_v<TransformFunction, decltype( *first )>,
 		               "TransformFunction does not accept a single argument of "
-- 
2.43.0


From ce450eb621f958a74bcc4f55a3ae21ff98ed0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:40 +0000
Subject: [PATCH 134/289] fix: sort_to on integers indexed out of bounds for
 negative values and when sorting descending

---
 include/daw/daw_sort_n.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_sort_n.h b/include/daw/daw_sort_n.h
index 9ef2158..6596541 100644
--- a/include/daw/daw_sort_n.h
+++ b/include/daw/daw_sort_n.h
@@ -754,10 +754,14 @@ namespace daw {
 			bool const is_ascend =
 			  comp( static_cast<value_t>( 0 ), static_cast<value_t>( 1 ) );
 
+			auto const digit_of = []( value_t const &v ) {
+				auto const r = v % 10;
+				return static_cast<std::size_t>( r < 0 ? r + 10 : r );
+			};
 			std::array<std::size_t, 10> counts{ };
 			size_t d = 0;
 			for( auto it = first_in; it != last_in; ++it ) {
-				++counts[static_cast<std::size_t>( ( *it ) % 10 )];
+				++counts[digit_of( *it )];
 				++d;
 			}
 			daw::algorithm::partial_sum( std::cbegin( counts ), std::cend( counts ),
@@ -765,19 +769,18 @@ namespace daw {
 
 			if( is_ascend ) {
 				while( first_in != last_in ) {
-					auto const pos = static_cast<std::size_t>( *first_in % 10 );
+					auto const pos = digit_of( *first_in );
 					first_out[counts[pos] - 1U] = *first_in;
 					--counts[pos];
 					++first_in;
 				}
 			} else {
 				auto rf = daw::make_reverse_iterator( first_out + d );
-				auto const rl = daw::make_reverse_iterator( first_out );
-				while( rf != rl ) {
-					auto const pos = static_cast<std::size_t>( *first_in % 10 );
+				while( first_in != last_in ) {
+					auto const pos = digit_of( *first_in );
 					rf[counts[pos] - 1U] = *first_in;
 					--counts[pos];
-					++rf;
+					++first_in;
 				}
 			}
 			return first_out + d;
-- 
2.43.0


From 3468e3b6f639a338e7ad97e050adad54fa2f6ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:39 +0000
Subject: [PATCH 135/289] fix: container::max_element could not be called
 without a comparison

---
 include/daw/daw_container_algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 4b91a88..5bc12af 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -328,7 +328,7 @@ namespace daw::container {
 		                unary_operator );
 	}
 
-	template<typename Container, typename UnaryOperator,
+	template<typename Container,
 	         std::enable_if_t<daw::traits::is_container_like_v<Container>,
 	                          std::nullptr_t> = nullptr>
 	constexpr decltype( auto ) max_element( Container &container ) noexcept(
@@ -339,7 +339,7 @@ namespace daw::container {
 		                                    std::cend( container ) );
 	}
 
-	template<typename Container, typename OutputIterator, typename UnaryOperator,
+	template<typename Container,
 	         std::enable_if_t<daw::traits::is_container_like_v<Container>,
 	                          std::nullptr_t> = nullptr>
 	constexpr decltype( auto ) max_element( Container const &container ) noexcept(
-- 
2.43.0


From 0f6bdb8c7e4bcae7fd4bd10c8285d6ec9f878de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:39 +0000
Subject: [PATCH 136/289] fix: container::transform to an output iterator
 rejected ordinary iterators and returned nothing for temporaries

---
 include/daw/daw_container_algorithm.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 5bc12af..cde4993 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -299,9 +299,9 @@ namespace daw::container {
 		  std::is_invocable_v<UnaryOperator, decltype( *std::cbegin( container ) )>,
 		  "UnaryOperator is not callable with the values stored in Container" );
 
-		static_assert( std::is_convertible_v<decltype( unary_operator(
-		                                       *std::cbegin( container ) ) ),
-		                                     decltype( *first_out )>,
+		static_assert( std::is_assignable_v<decltype( *first_out ),
+		                                    decltype( unary_operator(
+		                                      *std::cbegin( container ) ) )>,
 		               "Output of UnaryOperator cannot be assigned to *first_out" );
 
 		return std::transform( std::cbegin( container ), std::cend( container ),
@@ -324,8 +324,8 @@ namespace daw::container {
 		  std::is_invocable_v<UnaryOperator, decltype( *std::cbegin( container ) )>,
 		  "UnaryOperator is not callable with the values stored in Container" );
 
-		std::transform( std::cbegin( container ), std::cend( container ), first_out,
-		                unary_operator );
+		return std::transform( std::cbegin( container ), std::cend( container ), first_out,
+		                       unary_operator );
 	}
 
 	template<typename Container,
-- 
2.43.0


From fe1f18e5602744537b006d66b209d0ba880bb073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 137/289] fix: container::for_each_with_pos and for_each_subset
 rejected callables taking a reference

---
 include/daw/daw_container_algorithm.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index cde4993..07cb347 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -506,10 +506,8 @@ namespace daw::container {
 	  Function func ) noexcept( noexcept( func( *std::begin( container ),
 	                                            std::declval<size_t>( ) ) ) ) {
 
-		using value_t =
-		  std::decay_t<typename std::iterator_traits<decltype( std::begin(
-		    container ) )>::value_type>;
-		static_assert( std::is_invocable_v<Function, value_t, size_t>,
+		static_assert( std::is_invocable_v<
+		                 Function, decltype( *std::begin( container ) ), size_t>,
 		               "Supplied function does not satisfy requirements of "
 		               "taking arguments of type (value_t, size_t)" );
 
@@ -524,10 +522,8 @@ namespace daw::container {
 	constexpr void
 	for_each_with_pos( Container &container, Function func ) noexcept(
 	  noexcept( func( *std::begin( container ), std::declval<size_t>( ) ) ) ) {
-		using value_t =
-		  std::decay_t<typename std::iterator_traits<decltype( std::begin(
-		    container ) )>::value_type>;
-		static_assert( std::is_invocable_v<Function, value_t, size_t>,
+		static_assert( std::is_invocable_v<
+		                 Function, decltype( *std::begin( container ) ), size_t>,
 		               "Supplied function does not satisfy requirements of "
 		               "taking arguments of type (value_t, size_t)" );
 		for_each_with_pos( container, 0, container_size( container ), func );
@@ -545,13 +541,14 @@ namespace daw::container {
 	template<typename Container, typename Function>
 	constexpr void for_each_subset(
 	  Container &container, size_t first, size_t const last,
-	  Function func ) noexcept( traits::is_nothrow_callable_v<Function, Container,
-	                                                          size_t> ) {
+	  Function
+	    func ) noexcept( traits::is_nothrow_callable_v<Function, Container &,
+	                                                   size_t> ) {
 
 		static_assert( traits::has_integer_subscript_v<Container>,
 		               "Container is required to have a subscript operator that "
 		               "takes integral types" );
-		static_assert( std::is_invocable_v<Function, Container, size_t>,
+		static_assert( std::is_invocable_v<Function, Container &, size_t>,
 		               "Supplied function does not satisfy requirements of "
 		               "taking arguments of type (Container, size_t)" );
 
-- 
2.43.0


From c1a833249108d08d05f8ce8d4346892a4beeec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:29 +0000
Subject: [PATCH 138/289] fix: circular_iterator moving back by a multiple of
 the size landed on the end position

---
 include/daw/iterator/daw_circular_iterator.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index f4152e5..5eb2374 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -61,12 +61,9 @@ namespace daw {
 			auto const sz =
 			  static_cast<difference_type>( impl::container_size( *m_container ) );
 			n += m_position;
+			n %= sz;
 			if( n < 0 ) {
-				n *= -1;
-				n %= sz;
-				return sz - n;
-			} else if( n >= sz ) {
-				return n % sz;
+				n += sz;
 			}
 			return n;
 		}
-- 
2.43.0


From 6dfede83b4c611c219ac692ff05e6e4a4f9622aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:29 +0000
Subject: [PATCH 139/289] fix: circular_iterator could not be read or offset
 when const and operator-> did not reach members

---
 include/daw/iterator/daw_circular_iterator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index 5eb2374..0459adc 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -131,12 +131,12 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr decltype( auto ) operator*( ) {
+		constexpr decltype( auto ) operator*( ) const {
 			return *get_iterator( m_position );
 		}
 
-		constexpr decltype( auto ) operator->( ) noexcept {
-			return *get_iterator( m_position );
+		constexpr decltype( auto ) operator->( ) const noexcept {
+			return get_iterator( m_position );
 		}
 
 		constexpr circular_iterator &operator++( ) noexcept {
@@ -161,13 +161,13 @@ namespace daw {
 			return result;
 		}
 
-		constexpr circular_iterator operator+( difference_type n ) noexcept {
+		constexpr circular_iterator operator+( difference_type n ) const noexcept {
 			circular_iterator tmp{ *this };
 			tmp += n;
 			return tmp;
 		}
 
-		constexpr circular_iterator operator-( difference_type n ) noexcept {
+		constexpr circular_iterator operator-( difference_type n ) const noexcept {
 			circular_iterator tmp{ *this };
 			tmp -= n;
 			return tmp;
-- 
2.43.0


From 07af9e9d2924de501e1d653371c6890b4a56cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:29 +0000
Subject: [PATCH 140/289] fix: integer_range_iterator post increment did not
 compile

---
 include/daw/iterator/daw_integer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_integer_iterator.h b/include/daw/iterator/daw_integer_iterator.h
index 00877ce..251e1a6 100644
--- a/include/daw/iterator/daw_integer_iterator.h
+++ b/include/daw/iterator/daw_integer_iterator.h
@@ -39,7 +39,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr integer_range_iterator operator++( int ) const noexcept {
+		constexpr integer_range_iterator operator++( int ) noexcept {
 			integer_range_iterator tmp{ *this };
 			++current_value;
 			return tmp;
-- 
2.43.0


From 7ec1b8477cdc02f48535182f1bdda2f52ca3bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:29 +0000
Subject: [PATCH 141/289] fix: repeat_n_char_iterator offsets moved in the
 opposite direction of increments

---
 include/daw/iterator/daw_repeat_n_char_iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_repeat_n_char_iterator.h b/include/daw/iterator/daw_repeat_n_char_iterator.h
index 95db6fd..1e18cb8 100644
--- a/include/daw/iterator/daw_repeat_n_char_iterator.h
+++ b/include/daw/iterator/daw_repeat_n_char_iterator.h
@@ -72,12 +72,12 @@ namespace daw {
 		}
 
 		constexpr repeat_n_char_iterator const &operator+=( ptrdiff_t p ) noexcept {
-			m_position += p;
+			m_position -= p;
 			return *this;
 		}
 
 		constexpr repeat_n_char_iterator const &operator-=( ptrdiff_t p ) noexcept {
-			m_position -= p;
+			m_position += p;
 			return *this;
 		}
 
-- 
2.43.0


From 109d1606a42cf887d3c7cd8fc4a648308c8727be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:29 +0000
Subject: [PATCH 142/289] fix: pointer_iterator post increment returned a
 dangling reference, decrement a copy and offset back was missing

---
 include/daw/iterator/daw_pointer_iterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 6c175f3..8a56e08 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -67,13 +67,13 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr pointer_iterator &operator++( int ) {
+		constexpr pointer_iterator operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
 		}
 
-		constexpr pointer_iterator operator--( ) {
+		constexpr pointer_iterator &operator--( ) {
 			--m_ptr;
 			return *this;
 		}
@@ -100,7 +100,7 @@ namespace daw {
 			return result;
 		}
 
-		constexpr pointer_iterator operator-=( difference_type d ) const {
+		constexpr pointer_iterator operator-( difference_type d ) const {
 			auto result = *this;
 			result -= d;
 			return result;
-- 
2.43.0


From 0a6d6baa6ae344a93c2632b35b8094642e42a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:29 +0000
Subject: [PATCH 143/289] fix: chunk_iterator offset back moved forward,
 differences counted elements and operator-> did not compile

---
 include/daw/iterator/daw_chunk_iterator.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index c8e9624..5900cb1 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -45,11 +45,11 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr decltype( auto ) operator->( ) {
-			return m_iterator->operator->( );
+			return m_iterator;
 		}
 
 		[[nodiscard]] constexpr decltype( auto ) operator->( ) const {
-			return m_iterator->operator->( );
+			return m_iterator;
 		}
 
 		[[nodiscard]] constexpr decltype( auto ) operator[]( size_type idx ) {
@@ -88,7 +88,7 @@ namespace daw {
 		}
 
 		constexpr chunk_iterator &operator-=( difference_type n ) {
-			m_iterator += n * m_chunk_size;
+			m_iterator -= n * m_chunk_size;
 			return *this;
 		}
 
@@ -118,7 +118,10 @@ namespace daw {
 
 		[[nodiscard]] constexpr difference_type
 		operator-( chunk_iterator const &rhs ) const {
-			return m_iterator - rhs.m_iterator;
+			if( m_chunk_size == 0 ) {
+				return 0;
+			}
+			return ( m_iterator - rhs.m_iterator ) / m_chunk_size;
 		}
 
 		constexpr bool operator==( chunk_iterator const &rhs ) const {
-- 
2.43.0


From c647b3f0a63c43bb357c295cf8ef573755fd1d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 144/289] fix: indexed_iterator aborted when offset to the end
 or when a difference was negative

---
 include/daw/iterator/daw_indexed_iterator.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/daw/iterator/daw_indexed_iterator.h b/include/daw/iterator/daw_indexed_iterator.h
index 9d44e3c..6a376e1 100644
--- a/include/daw/iterator/daw_indexed_iterator.h
+++ b/include/daw/iterator/daw_indexed_iterator.h
@@ -125,7 +125,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -136,7 +136,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -146,7 +146,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			m_position = new_pos;
 			return *this;
 		}
@@ -155,7 +155,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
@@ -167,7 +167,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -197,8 +197,7 @@ namespace daw {
 			daw::exception::dbg_precondition_check( lhs.m_pointer == rhs.m_pointer );
 			daw::exception::dbg_precondition_check( lhs.m_position >= 0 );
 			daw::exception::dbg_precondition_check( rhs.m_position >= 0 );
-			daw::exception::dbg_precondition_check( lhs.m_position >=
-			                                        rhs.m_position );
+			
 
 			return lhs.m_position - rhs.m_position;
 		}
-- 
2.43.0


From 061e26ff2b046eaf8b47c9c78ced677a92c618d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 145/289] fix: checked_iterator_proxy_t only ever checked
 dereferences

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 0a38280..451523f 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -40,9 +40,9 @@ namespace daw {
 			auto result =
 			  static_cast<std::uint8_t>( CheckIncrement ? check_increment : 0 );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDecrement ) ? check_decrement : 0 );
+			  result | ( CheckDecrement ? check_decrement : 0 ) );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDereference ) ? check_dereference : 0 );
+			  result | ( CheckDereference ? check_dereference : 0 ) );
 
 			return result;
 		}
-- 
2.43.0


From 51ae21f26776eecaa029da01631bd653a92feb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:05 +0000
Subject: [PATCH 146/289] fix: checked_iterator_proxy_t post increments did not
 move, member access did not compile and two instantiations could not coexist

---
 .../daw/iterator/daw_checked_iterator_proxy.h | 49 +++++++------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 451523f..adbf8de 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -14,6 +14,7 @@
 #include "daw/daw_logic.h"
 
 #include <cstdint>
+#include <memory>
 #include <stdexcept>
 #include <type_traits>
 #include <utility>
@@ -76,9 +77,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator++( int ) const {
+		checked_iterator_proxy_t operator++( int ) {
 			checked_iterator_proxy_t result{ *this };
-			++result;
+			++( *this );
 			return result;
 		}
 
@@ -92,9 +93,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator--( int ) const {
+		checked_iterator_proxy_t operator--( int ) {
 			checked_iterator_proxy_t result{ *this };
-			--result;
+			--( *this );
 			return result;
 		}
 
@@ -116,55 +117,43 @@ namespace daw {
 			return *current;
 		}
 
-		auto &operator->( ) {
+		auto operator->( ) {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
 				  "Attempt to access members an iterator at end of range" );
 			}
-			return current.operator->( );
+			return std::addressof( *current );
 		}
 
-		auto const &operator->( ) const {
+		auto operator->( ) const {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
 				  "Attempt to access members an iterator at end of range" );
 			}
-			return current.operator->( );
+			return std::addressof( *current );
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorFirst_rhs,
-		         typename IteratorLast_lhs, typename IteratorLast_rhs>
-		friend bool operator==(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const
-		    &rhs ) {
+		friend bool operator==( checked_iterator_proxy_t const &lhs,
+		                        checked_iterator_proxy_t const &rhs ) {
 			return lhs.current == rhs.current;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorLast_lhs,
-		         typename Iterator_rhs>
-		friend bool operator==(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  Iterator_rhs const &rhs ) {
+		template<typename Iterator_rhs>
+		friend bool operator==( checked_iterator_proxy_t const &lhs,
+		                        Iterator_rhs const &rhs ) {
 			return lhs.current == rhs;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorFirst_rhs,
-		         typename IteratorLast_lhs, typename IteratorLast_rhs>
-		friend bool operator!=(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const
-		    &rhs ) {
+		friend bool operator!=( checked_iterator_proxy_t const &lhs,
+		                        checked_iterator_proxy_t const &rhs ) {
 			return lhs.current != rhs.current;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorLast_lhs,
-		         typename Iterator_rhs>
-		friend bool operator!=(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  Iterator_rhs const &rhs ) {
+		template<typename Iterator_rhs>
+		friend bool operator!=( checked_iterator_proxy_t const &lhs,
+		                        Iterator_rhs const &rhs ) {
 			return lhs.current != rhs;
 		}
 	}; // checked_iterator_proxy_t
-- 
2.43.0


From 3b722370a8bb6a1a46ba12ba79924e7b3a1608ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:05 +0000
Subject: [PATCH 147/289] fix: arg_iterator_t ordering compared argument counts
 instead of positions

---
 include/daw/iterator/daw_argument_iterator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index 11a6b94..8cc2560 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -126,28 +126,28 @@ namespace daw {
 
 		constexpr bool operator<( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc < rhs.m_argc;
+				return m_pos < rhs.m_pos;
 			}
 			return not at_end( ) and rhs.at_end( );
 		}
 
 		constexpr bool operator<=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos <= rhs.m_pos;
 			}
 			return rhs.at_end( );
 		}
 
 		constexpr bool operator>( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc > rhs.m_argc;
+				return m_pos > rhs.m_pos;
 			}
-			return at_end( );
+			return at_end( ) and not rhs.at_end( );
 		}
 
 		constexpr bool operator>=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos >= rhs.m_pos;
 			}
 			return at_end( );
 		}
-- 
2.43.0


From 3dc500bc7615294c4f27e7eff2ad42a86e6a3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:33 +0000
Subject: [PATCH 148/289] fix: find_iterator did not compile with function
 pointers

---
 include/daw/iterator/impl/daw_find_iterator_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/iterator/impl/daw_find_iterator_impl.h b/include/daw/iterator/impl/daw_find_iterator_impl.h
index f310527..dd06e41 100644
--- a/include/daw/iterator/impl/daw_find_iterator_impl.h
+++ b/include/daw/iterator/impl/daw_find_iterator_impl.h
@@ -38,6 +38,9 @@ namespace daw::find_iterator_impl {
 
 	template<typename Filter>
 	struct FilterProxy<Filter, false> {
+		explicit constexpr FilterProxy( Filter filt )
+		  : m_filter( filt ) {}
+
 	protected:
 		Filter m_filter;
 
-- 
2.43.0


From e7283966e2471a6c833020c30c77476609b732fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:33 +0000
Subject: [PATCH 149/289] fix: find_one_iterator did not move to its first
 match, report its index or deduce several filters

---
 include/daw/iterator/daw_find_one_iterator.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_find_one_iterator.h b/include/daw/iterator/daw_find_one_iterator.h
index 4bab784..fec204b 100644
--- a/include/daw/iterator/daw_find_one_iterator.h
+++ b/include/daw/iterator/daw_find_one_iterator.h
@@ -48,7 +48,7 @@ namespace daw {
 		    std::declval<typename std::iterator_traits<
 		      Iterator>::iterator_category>( ) ) )::type;
 		using reference = value_type;
-		using pointer = find_one_element<reference>;
+		using pointer = value_type;
 
 	private:
 		Iterator m_first = Iterator{ };
@@ -68,6 +68,8 @@ namespace daw {
 			  m_last,
 			  find_iterator_impl::FilterProxy<Filters, std::is_class_v<Filters>>::
 			    filter( )... );
+			m_first = tmp.position;
+			m_last_index = tmp.index;
 		}
 
 		constexpr value_type operator*( ) {
@@ -124,7 +126,7 @@ namespace daw {
 		}
 	};
 
-	template<typename Iterator, typename IteratorLast, typename Filter>
-	find_one_iterator( Iterator, IteratorLast, Filter )
-	  -> find_one_iterator<Iterator, IteratorLast, Filter>;
+	template<typename Iterator, typename IteratorLast, typename... Filters>
+	find_one_iterator( Iterator, IteratorLast, Filters... )
+	  -> find_one_iterator<Iterator, IteratorLast, Filters...>;
 } // namespace daw
-- 
2.43.0


From ad54f661ef8dbeb225cd5f8d9662b661e0220461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:01 +0000
Subject: [PATCH 150/289] fix: InputIterator assignment destroyed the old
 iterator as the wrong type or leaked it

---
 include/daw/iterator/InputIterator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/InputIterator.h b/include/daw/iterator/InputIterator.h
index fb67376..165b7f8 100644
--- a/include/daw/iterator/InputIterator.h
+++ b/include/daw/iterator/InputIterator.h
@@ -138,8 +138,8 @@ namespace daw {
 				// copy first so that if it throws we are cool
 				auto tmp = rhs.fn_op_clone( )( rhs.m_iterator );
 				std::swap( m_iterator, tmp );
-				m_vtable = rhs.m_vtable;
-				input_impl::get<input_impl::OpDel, value_type>( m_vtable )( tmp );
+				auto const *old_vtable = daw::exchange( m_vtable, rhs.m_vtable );
+				input_impl::get<input_impl::OpDel, value_type>( old_vtable )( tmp );
 			}
 			return *this;
 		}
@@ -150,6 +150,8 @@ namespace daw {
 
 		InputIterator &operator=( InputIterator &&rhs ) noexcept {
 			if( this != &rhs ) {
+				input_impl::get<input_impl::OpDel, value_type>( m_vtable )(
+				  m_iterator );
 				m_iterator = daw::exchange( rhs.m_iterator, nullptr );
 				m_vtable = rhs.m_vtable;
 			}
-- 
2.43.0


From c0e4e77cd33c488a8c9f3857a107af38531be6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:01 +0000
Subject: [PATCH 151/289] fix: RandomIterator offsets required a mutable
 iterator

---
 include/daw/iterator/daw_random_iterator.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/daw/iterator/daw_random_iterator.h b/include/daw/iterator/daw_random_iterator.h
index 088e587..5cd8bc4 100644
--- a/include/daw/iterator/daw_random_iterator.h
+++ b/include/daw/iterator/daw_random_iterator.h
@@ -84,20 +84,12 @@ namespace daw {
 			return result;
 		}
 
-		constexpr RandomIterator operator+( std::ptrdiff_t const &n ) noexcept {
-			auto old = this->m_pointer;
-			this->m_pointer += n;
-			auto temp{ *this };
-			this->m_pointer = old;
-			return temp;
-		}
-
-		constexpr RandomIterator operator-( std::ptrdiff_t const &n ) noexcept {
-			auto old = this->m_pointer;
-			this->m_pointer -= n;
-			auto temp{ *this };
-			this->m_pointer = old;
-			return temp;
+		constexpr RandomIterator operator+( std::ptrdiff_t const &n ) const noexcept {
+			return RandomIterator{ m_pointer + n };
+		}
+
+		constexpr RandomIterator operator-( std::ptrdiff_t const &n ) const noexcept {
+			return RandomIterator{ m_pointer - n };
 		}
 
 		constexpr friend bool operator==( RandomIterator const &lhs,
-- 
2.43.0


From dca378fc18d6ae716a514f9ece866a4d495ea996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 152/289] fix: iota_iterator comparisons and step were ignored
 and stepped iota_range could pass its end

---
 include/daw/iterator/daw_iota_iterator.h | 48 +++++++++++++++++-------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index 4580f83..abfc3ae 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -50,15 +50,11 @@ namespace daw {
 		  , m_step( step_distance ) {}
 
 		constexpr iota_iterator &operator+=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) + n );
-			return *this;
+			return *this = *this + n;
 		}
 
 		constexpr iota_iterator &operator-=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) - n );
-			return *this;
+			return *this = *this - n;
 		}
 
 		[[nodiscard]] constexpr reference operator*( ) const noexcept {
@@ -123,11 +119,10 @@ namespace daw {
 		template<typename U>
 		[[nodiscard]] constexpr difference_type
 		compare( iota_iterator<U> const &rhs ) const noexcept {
-			auto const diff = m_value - rhs.m_value;
-			if( std::less<value_type>{ }( diff, value_type{ 0 } ) ) {
+			if( std::less<value_type>{ }( m_value, *rhs ) ) {
 				return -1;
 			}
-			if( std::less<value_type>{ }( value_type{ 0 }, 0 ) ) {
+			if( std::less<value_type>{ }( *rhs, m_value ) ) {
 				return 1;
 			}
 			return 0;
@@ -160,7 +155,7 @@ namespace daw {
 
 		friend constexpr bool operator<=( iota_iterator const &lhs,
 		                                  iota_iterator const &rhs ) noexcept {
-			return lhs.compare( rhs ) < 0;
+			return lhs.compare( rhs ) <= 0;
 		}
 	}; // iota_iterator
 
@@ -181,22 +176,49 @@ namespace daw {
 		iterator m_first{ };
 		iterator m_last{ };
 
+		// The first position reached from first that is not before last
+		static constexpr iterator find_end( iterator first, value_type last,
+		                                    difference_type step ) noexcept {
+			if constexpr( std::is_integral_v<value_type> ) {
+				bool const is_fwd = step > 0;
+				if( is_fwd ? not( *first < last ) : not( last < *first ) ) {
+					return first;
+				}
+				auto const dist = static_cast<size_type>(
+				  is_fwd ? static_cast<size_type>( last ) -
+				             static_cast<size_type>( *first )
+				         : static_cast<size_type>( *first ) -
+				             static_cast<size_type>( last ) );
+				auto const width = static_cast<size_type>(
+				  is_fwd ? static_cast<size_type>( step )
+				         : size_type{ 0 } - static_cast<size_type>( step ) );
+				auto const count = static_cast<size_type>(
+				  dist / width + ( dist % width != 0 ? 1 : 0 ) );
+				return first + static_cast<difference_type>( count );
+			} else {
+				while( difference_type{ 0 } < step ? *first < last : last < *first ) {
+					++first;
+				}
+				return first;
+			}
+		}
+
 	public:
 		explicit iota_range( ) = default;
 		explicit constexpr iota_range( reference last_value ) noexcept
 		  : m_first( 0 )
-		  , m_last( last_value ) {}
+		  , m_last( find_end( m_first, last_value, difference_type{ 1 } ) ) {}
 
 		explicit constexpr iota_range( reference start_value,
 		                               reference last_value ) noexcept
 		  : m_first( start_value )
-		  , m_last( last_value ) {}
+		  , m_last( find_end( m_first, last_value, difference_type{ 1 } ) ) {}
 
 		explicit constexpr iota_range( reference start_value,
 		                               reference last_value,
 		                               difference_type step ) noexcept
 		  : m_first( start_value, step )
-		  , m_last( last_value ) {}
+		  , m_last( find_end( m_first, last_value, step ) ) {}
 
 		constexpr iterator begin( ) const noexcept {
 			return m_first;
-- 
2.43.0


From 42f69c275e89308769caba27ef13cc0cda747901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 153/289] fix: daw::advance/prev moved a bidirectional iterator
 back one step too few

---
 include/daw/cpp_17_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/cpp_17_iterator.h b/include/daw/cpp_17_iterator.h
index 822c211..51272eb 100644
--- a/include/daw/cpp_17_iterator.h
+++ b/include/daw/cpp_17_iterator.h
@@ -66,7 +66,7 @@ namespace daw {
 					++first;
 				}
 			} else {
-				while( ++n < 0 ) {
+				while( n++ < 0 ) {
 					--first;
 				}
 			}
-- 
2.43.0


From 4e6388e97a37b96e69b557b12dd5d83a089f60bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:35 +0000
Subject: [PATCH 154/289] fix: Map ignored its projection when iterating a
 range

---
 include/daw/pipelines/map.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index e46a600..f427969 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -72,23 +72,23 @@ namespace daw::pipelines {
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type
 		operator[]( size_type n ) const requires( RandomIterator<Iterator> ) {
-			return std::invoke( m_func, raw_get( n ) );
+			return std::invoke( m_func, std::invoke( m_projection, raw_get( n ) ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) const {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer( std::invoke( m_func, std::invoke( m_projection, *m_iter ) ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) const {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer( std::invoke( m_func, std::invoke( m_projection, *m_iter ) ) );
 		}
 
 		DAW_ATTRIB_INLINE constexpr map_iterator &operator++( ) {
-- 
2.43.0


From 8b5b3a759ff5d02ce275e649561138a21763cc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:58 +0000
Subject: [PATCH 155/289] fix: Map and Elements iterator offsets changed the
 iterator itself

---
 include/daw/pipelines/elements.h | 12 ++++++------
 include/daw/pipelines/map.h      |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 8ab4499..9adeae5 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -122,7 +122,7 @@ namespace daw::pipelines::pimpl {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			element_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -130,12 +130,12 @@ namespace daw::pipelines::pimpl {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			element_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( element_iterator const &rhs )
+		operator-( element_iterator const &rhs ) const
 		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
@@ -314,7 +314,7 @@ namespace daw::pipelines::pimpl {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			elements_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -322,12 +322,12 @@ namespace daw::pipelines::pimpl {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			elements_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( elements_iterator const &rhs )
+		operator-( elements_iterator const &rhs ) const
 		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index f427969..47953b8 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -131,7 +131,7 @@ namespace daw::pipelines {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -139,12 +139,12 @@ namespace daw::pipelines {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( map_iterator const &rhs ) requires( RandomIterator<Iterator> ) {
+		operator-( map_iterator const &rhs ) const requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
 
-- 
2.43.0


From 3b5fbef4aefa2ff4c318e9bde1df6214c51c43cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:30 +0000
Subject: [PATCH 156/289] fix: Element, Elements and Swizzle did not accept
 ranges of tuple lvalues

---
 include/daw/pipelines/elements.h | 12 ++++++------
 include/daw/pipelines/swizzle.h  |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 9adeae5..ed268b7 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -20,10 +20,10 @@ namespace daw::pipelines::pimpl {
 	struct element_iterator {
 		using iterator_category = daw::iter_category_t<Iterator>;
 		using value_type =
-		  std::tuple_element_t<Index, daw::iter_reference_t<Iterator>>;
+		  std::tuple_element_t<Index, daw::remove_cvref_t<daw::iter_reference_t<Iterator>>>;
 		using reference = value_type;
 		using const_reference =
-		  std::tuple_element_t<Index, daw::iter_const_reference_t<Iterator>>;
+		  std::tuple_element_t<Index, daw::remove_cvref_t<daw::iter_const_reference_t<Iterator>>>;
 		using pointer = arrow_proxy<reference>;
 		using const_pointer = arrow_proxy<const_reference>;
 		using difference_type = std::ptrdiff_t;
@@ -39,7 +39,7 @@ namespace daw::pipelines::pimpl {
 
 	private:
 		template<typename I>
-		[[nodiscard]] DAW_ATTRIB_INLINE static constexpr decltype( auto )
+		[[nodiscard]] DAW_ATTRIB_INLINE static constexpr value_type
 		raw_get( I &&iter ) {
 			return std::get<Index>( *DAW_FWD( iter ) );
 		}
@@ -210,10 +210,10 @@ namespace daw::pipelines::pimpl {
 	struct elements_iterator {
 		using iterator_category = daw::iter_category_t<Iterator>;
 		using value_type = std::tuple<
-		  std::tuple_element_t<Indices, daw::iter_reference_t<Iterator>>...>;
+		  std::tuple_element_t<Indices, daw::remove_cvref_t<daw::iter_reference_t<Iterator>>>...>;
 		using reference = value_type;
 		using const_reference = std::tuple<
-		  std::tuple_element_t<Indices, daw::iter_const_reference_t<Iterator>>...>;
+		  std::tuple_element_t<Indices, daw::remove_cvref_t<daw::iter_const_reference_t<Iterator>>>...>;
 		using pointer = arrow_proxy<reference>;
 		using const_pointer = arrow_proxy<const_reference>;
 		using difference_type = std::ptrdiff_t;
@@ -231,7 +231,7 @@ namespace daw::pipelines::pimpl {
 		template<typename I>
 		[[nodiscard]] DAW_ATTRIB_INLINE static constexpr auto raw_get( I &&iter ) {
 			using result_t =
-			  std::tuple<std::tuple_element_t<Indices, daw::iter_reference_t<I>>...>;
+			  std::tuple<std::tuple_element_t<Indices, daw::remove_cvref_t<daw::iter_reference_t<I>>>...>;
 			auto &&r = *DAW_FWD( iter );
 			return result_t{ std::get<Indices>( r )... };
 		}
diff --git a/include/daw/pipelines/swizzle.h b/include/daw/pipelines/swizzle.h
index 986d334..ae32b29 100644
--- a/include/daw/pipelines/swizzle.h
+++ b/include/daw/pipelines/swizzle.h
@@ -33,7 +33,7 @@ namespace daw::pipelines::pimpl {
 			} else if constexpr( is_tuple_like_v<range_value_t<R>> ) {
 				using std::get;
 				static_assert( std::max( { Indices... } ) <
-				                 std::tuple_size_v<range_reference_t<R>>,
+				                 std::tuple_size_v<range_value_t<R>>,
 				               "Swizzle - Index out of range of tuple type" );
 				return map_view{ DAW_FWD( r ), []( auto &&v ) {
 					                return daw::forward_nonrvalue_as_tuple(
-- 
2.43.0


From 1c4e1d0a31d55a76ca4629185d35438f2cee51c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:30 +0000
Subject: [PATCH 157/289] fix: the last chunk of Chunk and the first window of
 Slide could pass the end of the range

---
 include/daw/pipelines/chunk.h | 10 +++++++---
 include/daw/pipelines/slide.h | 14 ++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 246b438..1bec143 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -22,7 +22,7 @@ namespace daw::pipelines::pimpl {
 	struct chunk_view : range_base_t<chunk_view<R>> {
 		using iterator = daw::iterator_t<R>;
 		using const_iterator = daw::iterator_t<std::add_const_t<R>>;
-		using iterator_category = daw::range_category_t<R>;
+		using iterator_category = std::forward_iterator_tag;
 		using value_type = range_t<iterator>;
 		using reference = range_t<iterator>;
 		using const_reference = range_t<iterator>;
@@ -106,11 +106,15 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] constexpr reference operator*( ) noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			auto last = *this;
+			last.increment( );
+			return range_t<iterator>{ m_iter, last.m_iter };
 		}
 
 		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			auto last = *this;
+			last.increment( );
+			return range_t<iterator>{ m_iter, last.m_iter };
 		}
 
 		[[nodiscard]] constexpr bool
diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index c4bae70..ed9c015 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -22,7 +22,7 @@ namespace daw::pipelines::pimpl {
 	struct slide_view {
 		using iterator = daw::iterator_t<R>;
 		using const_iterator = daw::const_iterator_t<R>;
-		using iterator_category = daw::range_category_t<R>;
+		using iterator_category = std::forward_iterator_tag;
 		using value_type = range_t<iterator>;
 		using reference = range_t<iterator>;
 		using const_reference = range_t<const_iterator>;
@@ -64,7 +64,17 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr slide_view( Range auto &&r, std::size_t slide_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
-		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {}
+		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {
+			// No complete window when the range is shorter than the slide size
+			auto it = m_iter;
+			for( difference_type n = 0; n < m_slide_size; ++n ) {
+				if( it == ra_end( ) ) {
+					m_iter = it;
+					break;
+				}
+				++it;
+			}
+		}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
-- 
2.43.0


From 285e87615d251f8b562b22a47da7be18d3ced18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:31 +0000
Subject: [PATCH 158/289] fix: TakeWhile dropped the leading elements instead
 of keeping them

---
 include/daw/pipelines/take.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index 7ca3dfd..b3ce56d 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -52,13 +52,13 @@ namespace daw::pipelines::pimpl {
 
 		[[nodiscard]] constexpr auto operator( )( auto &&value ) const {
 			if( m_trigger ) {
-				return true;
+				return false;
 			}
 			if( not m_func( DAW_FWD( value ) ) ) {
 				m_trigger = true;
-				return true;
+				return false;
 			}
-			return false;
+			return true;
 		}
 	};
 	template<typename Fn>
-- 
2.43.0


From 582fdbea8235078aad08ee754ecfd99124752caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:01 +0000
Subject: [PATCH 159/289] fix: Take did not compile for input iterators

---
 include/daw/pipelines/sized_iterator.h | 3 ++-
 include/daw/pipelines/take.h           | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/sized_iterator.h b/include/daw/pipelines/sized_iterator.h
index 26fc392..508d8e1 100644
--- a/include/daw/pipelines/sized_iterator.h
+++ b/include/daw/pipelines/sized_iterator.h
@@ -207,7 +207,8 @@ namespace daw::pipelines {
 		                                   std::size_t how_many )
 		  : m_first( first )
 		  , m_last( last )
-		  , m_count( static_cast<difference_type>( how_many ) ) {}
+		  , m_count( first == last ? 0
+		                           : static_cast<difference_type>( how_many ) ) {}
 
 		[[nodiscard]] constexpr auto &base( ) {
 			return m_first;
diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index b3ce56d..28d038c 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -39,8 +39,8 @@ namespace daw::pipelines::pimpl {
 				                  first, static_cast<std::size_t>( take_size ) },
 				                sized_iterator<iter_t>{ last, 0 } };
 			} else {
-				return range_t{ sized_iterator<iter_t>{ first, how_many },
-				                sized_iterator<iter_t>{ last, 0 } };
+				return range_t{ sized_iterator<iter_t>{ first, last, how_many },
+				                sized_iterator<iter_t>{ last, last, 0 } };
 			}
 		}
 	};
-- 
2.43.0


From 9d0807399a6c997c537ebfbb2739737bb6a2752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:01 +0000
Subject: [PATCH 160/289] fix: Unique did not compile for lvalue ranges

---
 include/daw/pipelines/unique.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/unique.h b/include/daw/pipelines/unique.h
index 7483a04..9069bb0 100644
--- a/include/daw/pipelines/unique.h
+++ b/include/daw/pipelines/unique.h
@@ -150,7 +150,7 @@ namespace daw::pipelines {
 				if constexpr( std::is_rvalue_reference_v<decltype( r )> ) {
 					return unique_range{ DAW_FWD( r ) };
 				} else {
-					return unique_view{ DAW_FWD( r ) };
+					return unique_view{ std::begin( r ), std::end( r ) };
 				}
 			}
 		};
-- 
2.43.0


From d6dd2ffc591588a66715a31db8054da3f188a3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:01 +0000
Subject: [PATCH 161/289] fix: Filter of a single value returned the predicate
 result instead of the value

---
 include/daw/pipelines/filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/filter.h b/include/daw/pipelines/filter.h
index f8ead4c..656d5ea 100644
--- a/include/daw/pipelines/filter.h
+++ b/include/daw/pipelines/filter.h
@@ -159,9 +159,9 @@ namespace daw::pipelines {
 				static_assert(
 				  std::is_invocable_r_v<bool, Fn, projected_t>,
 				  "Filter requires an invokable function that returns a bool" );
-				using result_t = daw::remove_cvref_t<std::invoke_result_t<Fn, Value>>;
+				using result_t = daw::remove_cvref_t<Value>;
 				if( std::invoke( m_func, std::invoke( m_projection, v ) ) ) {
-					return std::optional<result_t>( std::invoke( m_func, DAW_FWD( v ) ) );
+					return std::optional<result_t>( DAW_FWD( v ) );
 				}
 				return std::optional<result_t>( );
 			}
-- 
2.43.0


From 68248b6b2957fe2fb6ef698be04f7124d8f86319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 162/289] fix: the distance of a zip iterator only used the
 first range

---
 include/daw/pipelines/enumerate.h | 22 ++++++++++++++++++----
 include/daw/pipelines/zip.h       | 16 +++++++++++++++-
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/enumerate.h b/include/daw/pipelines/enumerate.h
index 2279da1..a10bdbb 100644
--- a/include/daw/pipelines/enumerate.h
+++ b/include/daw/pipelines/enumerate.h
@@ -16,15 +16,29 @@
 
 #include <cstddef>
 #include <limits>
+#include <type_traits>
 
 namespace daw::pipelines::pimpl {
+	/// The largest index, limited so that the length of the index range can be
+	/// represented by a difference_type
+	template<typename EnumType>
+	[[nodiscard]] constexpr EnumType enumerate_last( ) {
+		if constexpr( std::is_integral_v<EnumType> and
+		              std::is_unsigned_v<EnumType> and
+		              sizeof( EnumType ) >= sizeof( std::ptrdiff_t ) ) {
+			return static_cast<EnumType>( max_value<std::ptrdiff_t> );
+		} else {
+			return max_value<EnumType>;
+		}
+	}
+
 	template<typename EnumType = std::size_t>
 	struct Enumerate_t {
 		template<Range R>
 		[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
 			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
-			  iota_view<EnumType>( 0, max_value<EnumType> ), DAW_FWD( r ) );
+			  iota_view<EnumType>( 0, enumerate_last<EnumType>( ) ), DAW_FWD( r ) );
 		}
 	};
 
@@ -34,7 +48,7 @@ namespace daw::pipelines::pimpl {
 		template<Range R>
 		[[nodiscard]] constexpr auto operator( )( R &&r ) const {
 			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
-			  iota_view<EnumType>( offset, max_value<EnumType> ), DAW_FWD( r ) );
+			  iota_view<EnumType>( offset, enumerate_last<EnumType>( ) ), DAW_FWD( r ) );
 		}
 	};
 
@@ -48,7 +62,7 @@ namespace daw::pipelines::pimpl {
 				  std::distance( std::begin( r ), std::end( r ) ) );
 				return ZipMore( iota_view<EnumType>( EnumType{ }, sz ), DAW_FWD( r ) );
 			} else {
-				return ZipMore( iota_view<EnumType>( EnumType{ }, max_value<EnumType> ),
+				return ZipMore( iota_view<EnumType>( EnumType{ }, enumerate_last<EnumType>( ) ),
 				                DAW_FWD( r ) );
 			}
 		}
@@ -65,7 +79,7 @@ namespace daw::pipelines::pimpl {
 				return ZipMore( iota_view<EnumType>( offset, offset + sz ),
 				                DAW_FWD( r ) );
 			} else {
-				return ZipMore( iota_view<EnumType>( offset, max_value<EnumType> ),
+				return ZipMore( iota_view<EnumType>( offset, enumerate_last<EnumType>( ) ),
 				                DAW_FWD( r ) );
 			}
 		}
diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index be2e09e..5352372 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -198,7 +198,21 @@ namespace daw::pipelines {
 
 		constexpr difference_type operator-( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return std::get<0>( m_iters ) - std::get<0>( rhs.m_iters );
+			// The ranges may have different lengths.  The shortest one bounds the
+			// distance
+			return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
+				auto result = static_cast<difference_type>(
+				  std::get<0>( m_iters ) - std::get<0>( rhs.m_iters ) );
+				(void)( ( [&] {
+					        auto const d = static_cast<difference_type>(
+					          std::get<Is>( m_iters ) - std::get<Is>( rhs.m_iters ) );
+					        if( ( d < 0 ? d > result : d < result ) ) {
+						        result = d;
+					        }
+				        }( ) ),
+				        ... );
+				return result;
+			}( zip_indices( ) );
 		}
 
 		[[nodiscard]] constexpr bool operator<( zip_iterator const &rhs )
-- 
2.43.0


From ece98660802290d84e7f0d9e5acdb1c3c9341644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 163/289] fix: Concat read past the end of empty ranges

---
 include/daw/pipelines/concat.h | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/daw/pipelines/concat.h b/include/daw/pipelines/concat.h
index 09c867e..3484f8e 100644
--- a/include/daw/pipelines/concat.h
+++ b/include/daw/pipelines/concat.h
@@ -17,6 +17,8 @@
 #include "daw/pipelines/range.h"
 
 #include <array>
+#include <cstddef>
+#include <iterator>
 #include <tuple>
 #include <type_traits>
 #include <utility>
@@ -27,8 +29,7 @@ namespace daw::pipelines {
 	struct concat_view : range_base_t<concat_view<Ranges...>> {
 		static_assert( sizeof...( Ranges ) > 0,
 		               "concat_view requires at least one iterator specified" );
-		using iterator_category =
-		  common_iterator_category_t<range_category_t<Ranges>...>;
+		using iterator_category = std::forward_iterator_tag;
 		using types_t = std::tuple<daw::remove_cvrvref_t<Ranges>...>;
 		using value_type = std::common_type_t<range_value_t<Ranges>...>;
 		using reference = std::common_reference_t<range_reference_t<Ranges>...>;
@@ -44,6 +45,16 @@ namespace daw::pipelines {
 		std::array<range_variant_t, sizeof...( Ranges )> m_ranges;
 		std::size_t m_index = 0;
 
+		/// Move to the next range that has elements
+		constexpr void skip_empty( ) {
+			while( m_index < m_ranges.size( ) and
+			       daw::visit_nt( m_ranges[m_index], []( auto &p ) -> bool {
+				       return p.first == p.second;
+			       } ) ) {
+				++m_index;
+			}
+		}
+
 		template<std::size_t... Is>
 		static constexpr std::array<range_variant_t, sizeof...( Ranges )>
 		get_iter_pair( std::index_sequence<Is...>,
@@ -60,13 +71,15 @@ namespace daw::pipelines {
 		explicit constexpr concat_view( Ranges... ranges )
 		  : m_ranges(
 		      get_iter_pair( std::make_index_sequence<sizeof...( Ranges )>{ },
-		                     std::tuple{ std::move( ranges )... } ) ) {}
+		                     std::tuple{ std::move( ranges )... } ) ) {
+			skip_empty( );
+		}
 
-		concat_view begin( ) const {
+		[[nodiscard]] constexpr concat_view begin( ) const {
 			return *this;
 		}
 
-		concat_view end( ) const {
+		[[nodiscard]] constexpr concat_view end( ) const {
 			auto result = *this;
 			result.m_index = m_ranges.size( ) - 1;
 			for( auto &r : result.m_ranges ) {
@@ -80,10 +93,8 @@ namespace daw::pipelines {
 		constexpr concat_view &operator++( ) {
 			daw::visit_nt( m_ranges[m_index], [&]( auto &p ) {
 				++p.first;
-				if( p.first == p.second ) {
-					++m_index;
-				}
 			} );
+			skip_empty( );
 			return *this;
 		}
 
@@ -146,7 +157,7 @@ namespace daw::pipelines {
 						  range_t{ std::begin( get<Is>( DAW_FWD( r ) ) ),
 						           std::end( get<Is>( DAW_FWD( r ) ) ) }... };
 					}( std::make_index_sequence<
-					         daw::remove_cvref_t<R>::types_size_v>{ } );
+					         std::tuple_size_v<daw::remove_cvref_t<R>>>{ } );
 				}
 			}
 		};
-- 
2.43.0


From 4cfc1e4ebc4803a2e91bab1287a7f72cbc7a584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 164/289] fix: Split by a range only removed the first element
 of the delimiter

---
 include/daw/pipelines/split.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 2a2fb56..fcd2d98 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -35,7 +35,7 @@ namespace daw::pipelines {
 			std::ptrdiff_t length;
 
 			constexpr std::ptrdiff_t size( ) {
-				return 1;
+				return length;
 			}
 
 			constexpr delimiter_length_t( Delimiter const &d )
@@ -119,8 +119,7 @@ namespace daw::pipelines {
 		}
 
 		constexpr bool operator==( split_view_iterator const &rhs ) const {
-			return m_first == rhs.m_first and m_last == rhs.m_last and
-			       m_next == rhs.m_next;
+			return m_first == rhs.m_first and m_last == rhs.m_last;
 		}
 		constexpr bool operator!=( split_view_iterator const &rhs ) const = default;
 	};
-- 
2.43.0


From c52a1f9cc7a107bf7f0a4dd0d8286992d35ab475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 165/289] fix: the difference of two range_t had the wrong sign

---
 include/daw/pipelines/range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/range.h b/include/daw/pipelines/range.h
index 7f7e20d..dddaa55 100644
--- a/include/daw/pipelines/range.h
+++ b/include/daw/pipelines/range.h
@@ -152,7 +152,7 @@ namespace daw::pipelines {
 
 		constexpr difference_type operator-( range_t const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return std::distance( first, rhs.first );
+			return std::distance( rhs.first, first );
 		}
 
 		constexpr bool operator==( range_t const &rhs ) const = default;
-- 
2.43.0


From 479e8da38662399c9c7bc3da3e6410ba5f5d3ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:15 +0000
Subject: [PATCH 166/289] fix: Flatten read past the end of empty sub ranges
 and rejected lvalues

---
 include/daw/pipelines/flatten.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/daw/pipelines/flatten.h b/include/daw/pipelines/flatten.h
index 8fab762..10adee5 100644
--- a/include/daw/pipelines/flatten.h
+++ b/include/daw/pipelines/flatten.h
@@ -38,7 +38,7 @@ namespace daw::pipelines::pimpl {
 	template<ForwardRange R>
 	struct flatten_view : range_base_t<flatten_view<R>, flatten_view_end_t<R>> {
 		using iterator_t = daw::iterator_t<R>;
-		using sub_iterator_t = daw::iterator_t<daw::iter_value_t<iterator_t>>;
+		using sub_iterator_t = daw::iterator_t<daw::iter_reference_t<iterator_t>>;
 		using iterator_category = std::forward_iterator_tag;
 		using value_type = daw::iter_value_t<sub_iterator_t>;
 		using reference = daw::iter_reference_t<sub_iterator_t>;
@@ -49,7 +49,10 @@ namespace daw::pipelines::pimpl {
 	private:
 		using end_t = flatten_view_end_t<R>;
 
-		using m_range_t = daw::remove_cvrvref_t<R>;
+		using m_range_t = std::conditional_t<
+		  std::is_lvalue_reference_v<R>,
+		  range_t<daw::iterator_t<R>, daw::iterator_end_t<R>>,
+		  daw::remove_cvrvref_t<R>>;
 		mutable m_range_t m_range;
 		iterator_t m_range_first{ };
 		sub_iterator_t m_cur_first{ };
@@ -73,12 +76,19 @@ namespace daw::pipelines::pimpl {
 		DAW_ATTRIB_INLINE constexpr void inc_range( ) {
 			assert( m_range_first != raend( ) );
 			++m_range_first;
-			if( m_range_first == raend( ) ) {
-				m_cur_first = sub_iterator_t{ };
-				assert( *this == end( ) );
-			} else {
+			find_sub_range( );
+		}
+
+		/// Position at the start of the first sub range that has elements
+		constexpr void find_sub_range( ) {
+			while( m_range_first != raend( ) ) {
 				m_cur_first = std::begin( *m_range_first );
+				if( m_cur_first != std::end( *m_range_first ) ) {
+					return;
+				}
+				++m_range_first;
 			}
+			m_cur_first = sub_iterator_t{ };
 		}
 
 		DAW_ATTRIB_INLINE constexpr void inc_sub_range( ) {
@@ -98,10 +108,9 @@ namespace daw::pipelines::pimpl {
 		                           flatten_view> ) //
 		  explicit constexpr flatten_view( U &&r )
 		  : m_range( DAW_FWD( r ) )
-		  , m_range_first( rabegin( ) )
-		  , m_cur_first( m_range_first == raend( )
-		                   ? sub_iterator_t{ }
-		                   : std::begin( *m_range_first ) ) {}
+		  , m_range_first( rabegin( ) ) {
+			find_sub_range( );
+		}
 
 		[[nodiscard]] constexpr flatten_view begin( ) const {
 			return *this;
-- 
2.43.0


From ca5995322b674ecc7691869b2e6dfb790c7d9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:15 +0000
Subject: [PATCH 167/289] fix: Sort, Max, Min and MinMax did not compile with a
 comparator or projection

---
 include/daw/pipelines/algorithm.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/algorithm.h b/include/daw/pipelines/algorithm.h
index 73a1e87..63b5451 100644
--- a/include/daw/pipelines/algorithm.h
+++ b/include/daw/pipelines/algorithm.h
@@ -32,7 +32,8 @@ namespace daw::pipelines {
 
 			[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
 			operator( )( auto &&compare ) DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Sort_t{ DAW_FWD( compare ) };
+				return Sort_t<daw::remove_cvref_t<decltype( compare )>>{
+				  DAW_FWD( compare ) };
 			}
 
 			[[nodiscard]] constexpr decltype( auto )
@@ -67,7 +68,8 @@ namespace daw::pipelines {
 			  constexpr auto operator( )( C &&compare,
 			                              P &&projection = Projection{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Max_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return Max_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
@@ -101,7 +103,8 @@ namespace daw::pipelines {
 			  constexpr auto operator( )( C &&compare,
 			                              P &&projection = Projection{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Min_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return Min_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
@@ -135,7 +138,8 @@ namespace daw::pipelines {
 			  constexpr auto operator( )( C &&compare,
 			                              P &&projection = Projection{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return MinMax_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return MinMax_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
-- 
2.43.0


From e197a986e91f7de704ddfdb829b8605a666807d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:15 +0000
Subject: [PATCH 168/289] fix: SumKahanBabushkaNeumaier invoked its projection
 with swapped arguments

---
 include/daw/pipelines/numeric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/numeric.h b/include/daw/pipelines/numeric.h
index 248fa92..b92e0ba 100644
--- a/include/daw/pipelines/numeric.h
+++ b/include/daw/pipelines/numeric.h
@@ -94,7 +94,7 @@ namespace daw::pipelines {
 						if constexpr( std::is_same_v<Projection, IdentityFn_t> ) {
 							return cur_v;
 						} else {
-							return std::invoke( cur_v, m_projection );
+							return std::invoke( m_projection, cur_v );
 						}
 					}( );
 					auto t = sum + input;
-- 
2.43.0


From 3bafdc5664d47e885f38398c5f00dd70b468cee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:15 +0000
Subject: [PATCH 169/289] fix: iota_iterator subscript dereferenced a value

---
 include/daw/pipelines/iota.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/iota.h b/include/daw/pipelines/iota.h
index 6183f0f..8b78c0f 100644
--- a/include/daw/pipelines/iota.h
+++ b/include/daw/pipelines/iota.h
@@ -103,12 +103,12 @@ namespace daw::pipelines {
 		}
 
 		[[nodiscard]] constexpr reference operator[]( size_type n ) noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return static_cast<value_type>( value + static_cast<value_type>( n ) );
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( size_type n ) const noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return static_cast<value_type>( value + static_cast<value_type>( n ) );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( iota_iterator const &lhs,
-- 
2.43.0


From f00c553d216eb8a4cfe5e8b8ae7ed1637dae5345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:15 +0000
Subject: [PATCH 170/289] fix: MapApply rejected ranges of tuple lvalues

---
 include/daw/pipelines/pipeline_traits.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/daw/pipelines/pipeline_traits.h b/include/daw/pipelines/pipeline_traits.h
index 22144a0..b0d4e3b 100644
--- a/include/daw/pipelines/pipeline_traits.h
+++ b/include/daw/pipelines/pipeline_traits.h
@@ -34,6 +34,11 @@ namespace daw::pipelines::traits {
 	inline constexpr bool is_applicable_v<Fn, std::pair<T0, T1>> =
 	  std::invocable<Fn, T0, T1>;
 
+	template<typename Fn, typename Arg>
+	requires( not std::same_as<Arg, daw::remove_cvref_t<Arg>> ) //
+	  inline constexpr bool is_applicable_v<Fn, Arg> =
+	    is_applicable_v<Fn, daw::remove_cvref_t<Arg>>;
+
 	template<std::size_t, typename T>
 	using ignore_num = T;
 
-- 
2.43.0


From c58ef51ef5b7fcdd33d1c21e681724f503d47685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:01 +0000
Subject: [PATCH 171/289] fix: Element and Elements rejected views produced by
 an earlier stage

---
 include/daw/pipelines/elements.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index ed268b7..72b27a9 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -182,8 +182,8 @@ namespace daw::pipelines::pimpl {
 
 		template<daw::Range U>
 		explicit constexpr element_view( U &&r )
-		  : m_first( std::begin( daw::forward_lvalue<U>( r ) ) )
-		  , m_last( std::end( daw::forward_lvalue<U>( r ) ) ) {}
+		  : m_first( std::begin( r ) )
+		  , m_last( std::end( r ) ) {}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_first_t begin( ) const {
 			return m_first;
@@ -202,7 +202,7 @@ namespace daw::pipelines::pimpl {
 		DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
 			return element_view<daw::remove_rvalue_ref_t<R>, Index>{
-			  daw::forward_lvalue<R>( r ) };
+			  r };
 		}
 	};
 
@@ -375,8 +375,8 @@ namespace daw::pipelines::pimpl {
 
 		template<daw::Range U>
 		explicit constexpr elements_view( U &&r )
-		  : m_first( std::begin( daw::forward_lvalue<U>( r ) ) )
-		  , m_last( std::end( daw::forward_lvalue<U>( r ) ) ) {}
+		  : m_first( std::begin( r ) )
+		  , m_last( std::end( r ) ) {}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_first_t begin( ) const {
 			return m_first;
@@ -395,7 +395,7 @@ namespace daw::pipelines::pimpl {
 		DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
 			return elements_view<daw::remove_rvalue_ref_t<R>, Indices...>{
-			  daw::forward_lvalue<R>( r ) };
+			  r };
 		}
 	};
 
-- 
2.43.0


From e39000482c90571167c880a0d9a91e66d83a5fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:41 +0000
Subject: [PATCH 172/289] fix: safe_next did not compile for forward iterators

---
 include/daw/daw_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index aee4b68..71cb32c 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -98,7 +98,9 @@ namespace daw {
 			for( ; it != last and dist > 0; --dist, ++it ) {}
 
 			// Move it backwards towards first
-			for( ; it != first and dist < 0; ++dist, --it ) {}
+			if constexpr( traits::is_bidirectional_access_iterator_v<Iterator> ) {
+				for( ; it != first and dist < 0; ++dist, --it ) {}
+			}
 		}
 
 		template<
-- 
2.43.0


From f3a6b8181fdc244f5f4d547612b690702a5bc3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:41 +0000
Subject: [PATCH 173/289] fix: CacheLast did not accept const ranges

---
 include/daw/pipelines/cache_last_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/cache_last_view.h b/include/daw/pipelines/cache_last_view.h
index 7250bc2..1295b43 100644
--- a/include/daw/pipelines/cache_last_view.h
+++ b/include/daw/pipelines/cache_last_view.h
@@ -131,7 +131,7 @@ namespace daw::pipelines {
 	};
 
 	template<Range R>
-	cache_last_view( R ) -> cache_last_view<R>;
+	cache_last_view( R && ) -> cache_last_view<R>;
 
 	namespace pimpl {
 		struct CacheLast_t {
-- 
2.43.0


From 0d5c73a8b76789fff75f3571e6c5d25b9846ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:41 +0000
Subject: [PATCH 174/289] fix: Enumerate did not accept const ranges

---
 include/daw/pipelines/enumerate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/enumerate.h b/include/daw/pipelines/enumerate.h
index a10bdbb..897b696 100644
--- a/include/daw/pipelines/enumerate.h
+++ b/include/daw/pipelines/enumerate.h
@@ -37,7 +37,7 @@ namespace daw::pipelines::pimpl {
 		template<Range R>
 		[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
-			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
+			return zip_view<iota_view<EnumType>, R>(
 			  iota_view<EnumType>( 0, enumerate_last<EnumType>( ) ), DAW_FWD( r ) );
 		}
 	};
@@ -47,7 +47,7 @@ namespace daw::pipelines::pimpl {
 		EnumType offset = EnumType{ };
 		template<Range R>
 		[[nodiscard]] constexpr auto operator( )( R &&r ) const {
-			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
+			return zip_view<iota_view<EnumType>, R>(
 			  iota_view<EnumType>( offset, enumerate_last<EnumType>( ) ), DAW_FWD( r ) );
 		}
 	};
-- 
2.43.0


From a995979c6a5c0d078f9d3e3b3308e3ee5a205996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:19 +0000
Subject: [PATCH 175/289] fix: moving backwards from the end of Take started at
 the end of the input

---
 include/daw/pipelines/take.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index 28d038c..5730678 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -37,7 +37,8 @@ namespace daw::pipelines::pimpl {
 				  std::min( { range_size, static_cast<std::ptrdiff_t>( how_many ) } );
 				return range_t{ sized_iterator<iter_t>{
 				                  first, static_cast<std::size_t>( take_size ) },
-				                sized_iterator<iter_t>{ last, 0 } };
+				                sized_iterator<iter_t>{
+				                  std::next( first, take_size ), 0 } };
 			} else {
 				return range_t{ sized_iterator<iter_t>{ first, last, how_many },
 				                sized_iterator<iter_t>{ last, last, 0 } };
-- 
2.43.0


From 99b0d9f874bd7c9d79be3a4bcd2287d92e52f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 176/289] fix: span<T const>::crend returned crbegin

---
 include/daw/daw_span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index da45637..0a40c94 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -111,7 +111,7 @@ namespace daw {
 		}
 
 		constexpr const_reverse_iterator crend( ) const noexcept {
-			return std::make_reverse_iterator( cend( ) );
+			return std::make_reverse_iterator( cbegin( ) );
 		}
 
 		constexpr const_reference operator[]( size_type pos ) const noexcept {
-- 
2.43.0


From 0d5f3e83be5d72ae5fe4ad1fef8db31f880f5fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 177/289] fix: span::subspan const and span<T const>::pop did
 not compile

---
 include/daw/daw_span.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index 0a40c94..2d5b3a1 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -193,7 +193,7 @@ namespace daw {
 		}
 
 		constexpr bool
-		pop( T &value ) noexcept( std::is_nothrow_copy_assignable_v<T> ) {
+		pop( value_type &value ) noexcept( std::is_nothrow_copy_assignable_v<T> ) {
 			if( empty( ) ) {
 				return false;
 			}
@@ -473,11 +473,11 @@ namespace daw {
 			return { data( ) + pos, count };
 		}
 
-		constexpr span subspan( size_type pos = 0,
+		constexpr span<T const> subspan( size_type pos = 0,
 		                        size_type count = max_value<size_type> ) const {
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  pos < size( ), "Attempt to access span past end" );
+			  pos <= size( ), "Attempt to access span past end" );
 
 			count = (daw::min)( count, size( ) - pos );
 			return { data( ) + pos, count };
-- 
2.43.0


From c98b4bae572a4f97466ecd2d549d47e89877aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 178/289] fix: contiguous_view and iter_view subspan ended at
 the wrong element

---
 include/daw/daw_contiguous_view.h | 11 ++++++-----
 include/daw/daw_iter_view.h       |  9 ++++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 24e3749..2769d27 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -89,9 +89,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto const sz =
-			  std::min( { count, size( ) - std::min( { size( ), offset } ) } );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			auto const pos = std::min( { size( ), offset } );
+			auto const sz = std::min( { count, size( ) - pos } );
+			return contiguous_view( m_first + pos, m_first + pos + sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
@@ -486,8 +486,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			auto const pos = std::min( { size( ), offset } );
+			auto const sz = std::min( { count, size( ) - pos } );
+			return contiguous_view( m_first + pos, m_first + pos + sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index c04105a..436a294 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -107,9 +107,12 @@ namespace daw {
 
 		constexpr iter_view
 		subspan( size_type offset, size_type count = max_value<size_type> ) const {
-			auto const sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return iter_view( std::next( begin( ), offset ),
-			                  std::next( begin( ), sz ) );
+			auto const pos = std::min( offset, size( ) );
+			auto const sz = std::min( count, size( ) - pos );
+			auto const first =
+			  std::next( begin( ), static_cast<difference_type>( pos ) );
+			return iter_view( first,
+			                  std::next( first, static_cast<difference_type>( sz ) ) );
 		}
 
 		constexpr size_type size( ) const {
-- 
2.43.0


From 51d236084bf2f256907e285cc022c5fb36ac548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 179/289] fix: iter_view::pop_front_until/while aborted when
 the whole view was consumed

---
 include/daw/daw_iter_view.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index 436a294..c35343b 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -210,7 +210,7 @@ namespace daw {
 		}
 
 		constexpr void remove_prefix( size_type count, dont_clip_to_bounds_t ) {
-			assert( count < size( ) );
+			assert( count <= size( ) );
 			std::advance( m_first, static_cast<difference_type>( count ) );
 			m_size -= count;
 		}
@@ -341,7 +341,9 @@ namespace daw {
 			auto const f = m_first;
 			remove_prefix_until( needle );
 			auto result = iter_view( f, m_first );
-			remove_prefix( );
+			if( not empty( ) ) {
+				remove_prefix( );
+			}
 			return result;
 		}
 
@@ -357,7 +359,9 @@ namespace daw {
 			auto const f = m_first;
 			remove_prefix_while( needle );
 			auto result = iter_view( f, m_first );
-			remove_prefix( );
+			if( not empty( ) ) {
+				remove_prefix( );
+			}
 			return result;
 		}
 
-- 
2.43.0


From a3de79016f9dc5ebb4188ba4da3b521e7b9da4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 180/289] fix: span_writer::subspan did not compile

---
 include/daw/daw_span_writer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span_writer.h b/include/daw/daw_span_writer.h
index 6a41afb..426e3ce 100644
--- a/include/daw/daw_span_writer.h
+++ b/include/daw/daw_span_writer.h
@@ -156,8 +156,9 @@ namespace daw {
 
 		constexpr span_writer subspan( std::size_t n ) const {
 			daw_ensure( n <= m_size );
-			return span_writer{ .m_first = m_first + static_cast<std::ptrdiff_t>( n ),
-			                    .m_size = m_size - n };
+			auto result = *this;
+			result.remove_prefix_unsafe( n );
+			return result;
 		}
 
 		constexpr span_writer &remove_prefix( std::size_t n ) {
-- 
2.43.0


From d5fce1dcb458b4df05a9ffe80c2063eb75057c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 181/289] fix: ring_adaptor::emplace_back wrote to the front
 and dropped an element

---
 include/daw/daw_ring_adaptor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_ring_adaptor.h b/include/daw/daw_ring_adaptor.h
index 8687bd1..633d0c8 100644
--- a/include/daw/daw_ring_adaptor.h
+++ b/include/daw/daw_ring_adaptor.h
@@ -96,9 +96,9 @@ namespace daw {
 		template<typename... Args>
 		reference emplace_back( Args &&...args ) {
 			assert( not is_full( ) );
-			auto const idx = get_idx( m_head );
-			++m_head;
+			auto const idx = get_idx( m_tail );
 			m_queue[idx] = construct_a<value_type>( DAW_FWD( args )... );
+			++m_tail;
 			return m_queue[idx];
 		}
 
-- 
2.43.0


From 77fd72b2ce449fac61483d63939be01a6f9dd464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:17 +0000
Subject: [PATCH 182/289] fix: contiguous_view<T>::pop_front_until/while with
 discard did not compile

---
 include/daw/daw_contiguous_view.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 2769d27..437caa6 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -374,9 +374,9 @@ namespace daw {
 		pop_front_until( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_until( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
@@ -390,9 +390,9 @@ namespace daw {
 		pop_front_while( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_while( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( contiguous_view const &x,
@@ -751,9 +751,9 @@ namespace daw {
 		pop_front_until( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_until( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
@@ -767,9 +767,9 @@ namespace daw {
 		pop_front_while( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_while( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( contiguous_view const &x,
-- 
2.43.0


From e931b7b6a980afb5c3c0653ee9e2ba3cf18aea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:14 +0000
Subject: [PATCH 183/289] fix: fnv1a_hash_t of a C string sign extended bytes
 above 0x7F

---
 include/daw/daw_fnv1a_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index d974eea..ba23f81 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -127,7 +127,7 @@ namespace daw {
 		operator( )( char const *ptr ) const noexcept {
 			auto hash = fnv1a_impl::fnv_offset;
 			while( *ptr != '\0' ) {
-				hash = hash ^ static_cast<fnv1a_uint_t>( *ptr );
+				hash = hash ^ static_cast<unsigned char>( *ptr );
 				hash *= fnv1a_impl::fnv_prime;
 				DAW_UNSAFE_BUFFER_FUNC_START
 				++ptr;
-- 
2.43.0


From 8909678e4bf6675f1eebab7fe9bf8bf39b36e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:14 +0000
Subject: [PATCH 184/289] fix: siphash24 sign extended message and key bytes
 above 0x7F

---
 include/daw/daw_sip_hash.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_sip_hash.h b/include/daw/daw_sip_hash.h
index 7f3f0d9..6257328 100644
--- a/include/daw/daw_sip_hash.h
+++ b/include/daw/daw_sip_hash.h
@@ -52,14 +52,14 @@ namespace daw {
 		template<typename Byte>
 		constexpr uint64_t to_u64( Byte const *const ptr ) noexcept {
 			static_assert( sizeof( Byte ) == 1U );
-			return static_cast<uint64_t>( ptr[0] ) |
-			       static_cast<uint64_t>( ptr[1] ) << 8U |
-			       static_cast<uint64_t>( ptr[2] ) << 16U |
-			       static_cast<uint64_t>( ptr[3] ) << 24U |
-			       static_cast<uint64_t>( ptr[4] ) << 32U |
-			       static_cast<uint64_t>( ptr[5] ) << 40U |
-			       static_cast<uint64_t>( ptr[6] ) << 48U |
-			       static_cast<uint64_t>( ptr[7] ) << 56U;
+			return static_cast<uint64_t>( static_cast<uint8_t>( ptr[0] ) ) |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[1] ) ) << 8U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[2] ) ) << 16U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[3] ) ) << 24U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[4] ) ) << 32U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[5] ) ) << 40U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[6] ) ) << 48U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[7] ) ) << 56U;
 		}
 
 		template<typename Byte>
-- 
2.43.0


From 0d9a1f7b30c07dad36f1aaa9221467c371a2ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:14 +0000
Subject: [PATCH 185/289] fix: metro::hash64 sign extended a trailing byte
 above 0x7F

---
 include/daw/daw_metro_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_metro_hash.h b/include/daw/daw_metro_hash.h
index 8c7df3b..a6d8b68 100644
--- a/include/daw/daw_metro_hash.h
+++ b/include/daw/daw_metro_hash.h
@@ -116,7 +116,7 @@ namespace daw::metro {
 		}
 
 		if(not buff.empty( )) {
-			hash += static_cast<uint64_t>(buff.front( )) * k3;
+			hash += metro_impl::as_le_uint<uint8_t>( buff.data( ) ) * k3;
 			hash ^= metro_impl::rotr<37U>( hash ) * k1;
 			buff.remove_prefix( );
 		}
-- 
2.43.0


From 6f7593812a2c92a7632e2847ffc6f4fec437a15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:24 +0000
Subject: [PATCH 186/289] fix: generic_hash_t<8> of a pointer ignored the
 object

---
 include/daw/daw_generic_hash.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_generic_hash.h b/include/daw/daw_generic_hash.h
index 3bfd8bf..968873d 100644
--- a/include/daw/daw_generic_hash.h
+++ b/include/daw/daw_generic_hash.h
@@ -183,9 +183,10 @@ namespace daw {
 		template<typename T>
 		constexpr hash_value_t operator( )( T const *const ptr ) const noexcept {
 			auto hash = hash_init;
-			auto bptr = static_cast<uint8_t const *const>( ptr );
+			auto bptr =
+			  static_cast<uint8_t const *>( static_cast<void const *>( ptr ) );
 			for( std::size_t n = 0; n < sizeof( T ); ++n ) {
-				append_hash( hash, bptr[n] );
+				hash = append_hash( hash, bptr[n] );
 			}
 			return hash;
 		}
-- 
2.43.0


From 4f67b0a8ca79163aa8488859fe44051396e34abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:17 +0000
Subject: [PATCH 187/289] fix: get of a daw::tuple rvalue returned an lvalue,
 so elements were copied and move only elements did not compile

---
 include/daw/daw_tuple.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_tuple.h b/include/daw/daw_tuple.h
index 896d748..3bef172 100644
--- a/include/daw/daw_tuple.h
+++ b/include/daw/daw_tuple.h
@@ -48,11 +48,11 @@ namespace daw::impl {
 			}
 
 			constexpr T &&get( daw::index_constant<N> ) && noexcept {
-				return std::move( m_value );
+				return static_cast<T &&>( m_value );
 			}
 
 			constexpr T const &&get( daw::index_constant<N> ) const && noexcept {
-				return std::move( m_value );
+				return static_cast<T const &&>( m_value );
 			}
 		};
 
@@ -166,12 +166,14 @@ namespace daw {
 
 		template<std::size_t N>
 		constexpr decltype( auto ) get( ) && {
-			return base_type::get( daw::index_constant_v<N> );
+			return static_cast<base_type &&>( *this ).get(
+			  daw::index_constant_v<N> );
 		}
 
 		template<std::size_t N>
 		constexpr decltype( auto ) get( ) const && {
-			return base_type::get( daw::index_constant_v<N> );
+			return static_cast<base_type const &&>( *this ).get(
+			  daw::index_constant_v<N> );
 		}
 
 		template<typename... Vs>
@@ -218,7 +220,7 @@ namespace daw {
 
 	template<std::size_t N, typename... Ts>
 	constexpr decltype( auto ) get( tuple<Ts...> &&tp ) {
-		return tp.template get<N>( );
+		return std::move( tp ).template get<N>( );
 	}
 
 	template<typename... Ts>
-- 
2.43.0


From 624290f26e8b34c71775a0d648a591076bbf793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:58 +0000
Subject: [PATCH 188/289] fix: get of a mutable class element or of an rvalue
 tuple2 did not compile

---
 include/daw/daw_tuple2.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index c468b70..2589a8e 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -116,7 +116,7 @@ namespace daw {
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &get( tuple2_impl::leaf<Index, Ts, true> &tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts &>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
@@ -126,22 +126,22 @@ namespace daw {
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts const &&get( tuple2_impl::leaf<Index, Ts, true> const &&tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts const &&>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts const &&get( tuple2_impl::leaf<Index, Ts, false> const &&tp ) {
-		return tp.value;
+		return static_cast<Ts const &&>( tp.value );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &&get( tuple2_impl::leaf<Index, Ts, true> &&tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts &&>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &&get( tuple2_impl::leaf<Index, Ts, false> &&tp ) {
-		return tp.value;
+		return static_cast<Ts &&>( tp.value );
 	}
 
 	template<std::size_t, typename>
-- 
2.43.0


From 6ea142058937aaea44d54ead8f404e85ab6dba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:58 +0000
Subject: [PATCH 189/289] fix: tuple2_cat of a single tuple did not compile

---
 include/daw/daw_tuple2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index 2589a8e..fb29819 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -210,8 +210,8 @@ namespace daw {
 	}
 
 	template<typename Tuple>
-	constexpr tuple2<> tuple2_cat( Tuple &&tp ) {
-		return { tp };
+	constexpr daw::remove_cvref_t<Tuple> tuple2_cat( Tuple &&tp ) {
+		return DAW_FWD( tp );
 	}
 
 	template<typename T0, typename T1, typename... Tps>
-- 
2.43.0


From 0718277fcae439ef1fb6a4148781af03d4f3b47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:58 +0000
Subject: [PATCH 190/289] fix: apply of an rvalue tuple2 passed lvalues and
 moved from the function

---
 include/daw/daw_tuple2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index fb29819..a40ea19 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -258,7 +258,7 @@ namespace daw {
 	template<typename Func, typename... Ts>
 	inline constexpr decltype( auto ) apply( tuple2<Ts...> &&tp, Func &&fn ) {
 		return tuple2_impl::apply_impl(
-		  tp, std::move( fn ),
+		  std::move( tp ), DAW_FWD( fn ),
 		  std::make_index_sequence<tuple2_size_v<tuple2<Ts...>>>{ } );
 	}
 } // namespace daw
-- 
2.43.0


From 58174c86ecf4bfea4cb044929119370dbf65c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 191/289] fix: daw::tuple of an empty final type did not
 compile

---
 include/daw/daw_tuple.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_tuple.h b/include/daw/daw_tuple.h
index 3bef172..f9d0cae 100644
--- a/include/daw/daw_tuple.h
+++ b/include/daw/daw_tuple.h
@@ -77,8 +77,8 @@ namespace daw::impl {
 		};
 
 		template<std::size_t N, typename T>
-		struct tuple_storage<N, T> : tuple_value<N, T, std::is_empty_v<T>> {
-			using base_value = tuple_value<N, T, std::is_empty_v<T>>;
+		struct tuple_storage<N, T> : tuple_value<N, T, ( std::is_empty_v<T> and not std::is_final_v<T> )> {
+			using base_value = tuple_value<N, T, ( std::is_empty_v<T> and not std::is_final_v<T> )>;
 			using base_value::get;
 
 			static constexpr tuple_tag<T> get_type( daw::index_constant<N> ) {
@@ -97,9 +97,9 @@ namespace daw::impl {
 
 		template<std::size_t N, typename T, typename T1, typename... Ts>
 		struct tuple_storage<N, T, T1, Ts...>
-		  : tuple_value<N, T, std::is_empty_v<T>>, tuple_storage<N + 1, T1, Ts...> {
+		  : tuple_value<N, T, ( std::is_empty_v<T> and not std::is_final_v<T> )>, tuple_storage<N + 1, T1, Ts...> {
 
-			using base_value = tuple_value<N, T, std::is_empty_v<T>>;
+			using base_value = tuple_value<N, T, ( std::is_empty_v<T> and not std::is_final_v<T> )>;
 			using base_storage = tuple_storage<N + 1, T1, Ts...>;
 			using base_storage::get;
 			using base_storage::get_type;
-- 
2.43.0


From 04b888e81651d299e47bd34d5e3880656e7ddc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 192/289] fix: get and tuple2_cat were ambiguous for tuple2
 elements of a tuple2

---
 include/daw/daw_tuple2.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index a40ea19..5c61b82 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -22,6 +22,15 @@
 #include <utility>
 
 namespace daw {
+	template<typename... Ts>
+	struct tuple2;
+
+	template<typename>
+	inline constexpr bool is_tuple2_v = false;
+
+	template<typename... Ts>
+	inline constexpr bool is_tuple2_v<tuple2<Ts...>> = true;
+
 	namespace tuple2_impl {
 		DAW_ATTRIB_INLINE constexpr std::size_t
 		encode_location( std::size_t outter, std::size_t inner ) {
@@ -74,7 +83,8 @@ namespace daw {
 		template<std::size_t... Index, typename... Ts>
 		struct tuple2_base<std::index_sequence<Index...>, Ts...>
 		  : leaf<Index, Ts,
-		         ( std::is_class_v<Ts> and not std::is_final_v<Ts> )>... {};
+		         ( std::is_class_v<Ts> and not std::is_final_v<Ts> and
+		           not is_tuple2_v<std::remove_cv_t<Ts>> )>... {};
 	} // namespace tuple2_impl
 
 	template<typename... Ts>
@@ -95,12 +105,6 @@ namespace daw {
 	template<typename... Ts>
 	tuple2( Ts... ) -> tuple2<Ts...>;
 
-	template<typename>
-	inline constexpr bool is_tuple2_v = false;
-
-	template<typename... Ts>
-	inline constexpr bool is_tuple2_v<tuple2<Ts...>> = true;
-
 	template<typename Tp>
 	struct is_tuple2 : std::bool_constant<is_tuple2_v<Tp>> {};
 
-- 
2.43.0


From 86c48eb132ffb20c1d2f55f7db5eceb35adb8595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 193/289] fix: get of a tuple element by run time index did not
 compile for tuples with equal types

---
 include/daw/daw_tuple_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_tuple_helper.h b/include/daw/daw_tuple_helper.h
index 31d8bf6..029724b 100644
--- a/include/daw/daw_tuple_helper.h
+++ b/include/daw/daw_tuple_helper.h
@@ -44,8 +44,8 @@ namespace daw {
 				if( index != Tpos ) {
 					return get_impl<Tpos + 1, Result>( DAW_FWD( tp ), index );
 				}
-				return daw::construct_a<Result>(
-				  std::ref( std::get<Tpos>( DAW_FWD( tp ) ) ) );
+				return Result( std::in_place_index<Tpos>,
+				               std::ref( std::get<Tpos>( DAW_FWD( tp ) ) ) );
 			}
 		} // namespace tuple_details
 	} // namespace tuple
-- 
2.43.0


From ae24cfa4625d6bb362e031d1c4fcddb8453ba913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 194/289] fix: apply_at of an rvalue tuple did not compile

---
 include/daw/daw_tuple_helper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_tuple_helper.h b/include/daw/daw_tuple_helper.h
index 029724b..859a34d 100644
--- a/include/daw/daw_tuple_helper.h
+++ b/include/daw/daw_tuple_helper.h
@@ -456,7 +456,8 @@ namespace daw {
 		constexpr void apply_at( std::tuple<Args...> &&tp, size_t index,
 		                         Funcs &&...funcs ) {
 			tuple_details::apply_at_impl( std::move( tp ), index,
-			                              daw::overload( DAW_FWD( funcs )... ) );
+			                              daw::overload( DAW_FWD( funcs )... ),
+			                              std::index_sequence_for<Args...>{ } );
 		}
 
 		namespace tuple_details {
-- 
2.43.0


From 488061e892cac2657fdd2f00a7a1f2a3d96177b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:23 +0000
Subject: [PATCH 195/289] fix: compressed_pair piecewise construction copied
 arguments that were to be moved

---
 include/daw/compressed_pair.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/compressed_pair.h b/include/daw/compressed_pair.h
index 9a79ed9..c1119e1 100644
--- a/include/daw/compressed_pair.h
+++ b/include/daw/compressed_pair.h
@@ -44,7 +44,7 @@ namespace daw {
 		explicit constexpr compressed_pair_elem( std::piecewise_construct_t,
 		                                         std::tuple<Args...> args,
 		                                         std::index_sequence<Indexes...> )
-		  : m_value( DAW_FWD( std::get<Indexes>( args ) )... ) {}
+		  : m_value( static_cast<Args &&>( std::get<Indexes>( args ) )... ) {}
 
 		constexpr reference get( ) noexcept {
 			return m_value;
@@ -76,7 +76,7 @@ namespace daw {
 		explicit constexpr compressed_pair_elem( std::piecewise_construct_t,
 		                                         std::tuple<Args...> args,
 		                                         std::index_sequence<Indexes...> )
-		  : value_type( DAW_FWD( std::get<Indexes>( args ) )... ) {}
+		  : value_type( static_cast<Args &&>( std::get<Indexes>( args ) )... ) {}
 
 		constexpr reference get( ) noexcept {
 			return *this;
-- 
2.43.0


From da234dd2e52fcc7ead3a4cb9c7d1bb7440506834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:23 +0000
Subject: [PATCH 196/289] fix: daw::apply did not compile for tuple lvalues

---
 include/daw/daw_apply.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_apply.h b/include/daw/daw_apply.h
index 7da9cf6..9a7f7d0 100644
--- a/include/daw/daw_apply.h
+++ b/include/daw/daw_apply.h
@@ -145,11 +145,11 @@ namespace daw {
 	template<bool use_invoke = true, typename F, typename Tuple>
 	[[nodiscard, maybe_unused]] inline constexpr decltype( auto )
 	apply( F &&f, Tuple &&t ) {
-		static_assert( is_tuple_v<Tuple>,
+		static_assert( is_tuple_v<daw::remove_cvref_t<Tuple>>,
 		               "Attempt to call apply with invalid arguments.  The "
 		               "arguments must be a std::tuple" );
 		if constexpr( use_invoke ) {
-			if constexpr( std::tuple_size_v<Tuple> == 0 ) {
+			if constexpr( std::tuple_size_v<daw::remove_cvref_t<Tuple>> == 0 ) {
 				return daw::invoke( DAW_FWD( f ) );
 			} else {
 				return cpp_17_details::apply_details(
@@ -157,7 +157,8 @@ namespace daw {
 				  std::make_index_sequence<std::tuple_size_v<std::decay_t<Tuple>>>{ } );
 			}
 		} else {
-			constexpr std::size_t tp_size = std::tuple_size_v<Tuple>;
+			constexpr std::size_t tp_size =
+			  std::tuple_size_v<daw::remove_cvref_t<Tuple>>;
 			if constexpr( tp_size == 0 ) {
 				return DAW_FWD( f )( );
 			} else {
-- 
2.43.0


From 7fbd5348e7920fb68217199dcf9954be3b22bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 197/289] fix: invoke of a member function on an object was not
 constexpr

---
 include/daw/daw_apply.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_apply.h b/include/daw/daw_apply.h
index 9a7f7d0..4307a72 100644
--- a/include/daw/daw_apply.h
+++ b/include/daw/daw_apply.h
@@ -16,7 +16,7 @@
 namespace daw {
 	namespace cpp_17_details {
 		template<typename Base, typename T, typename Derived, typename... Args>
-		[[nodiscard, maybe_unused]] auto
+		[[nodiscard, maybe_unused]] constexpr auto
 		INVOKE( T Base::*pmf, Derived &&ref, Args &&...args ) noexcept(
 		  noexcept( ( DAW_FWD( ref ).*pmf )( DAW_FWD( args )... ) ) )
 		  -> std::enable_if_t<
-- 
2.43.0


From 32693bc49123d54e26172db54beae1d033add48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 198/289] fix: ScopeGuard::dismiss did not compile

---
 include/daw/daw_scope_guard.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 1f69219..6367e3f 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -73,8 +73,8 @@ namespace daw {
 			}
 		}
 
-		DAW_ATTRIB_INLINE constexpr void dismiss( ) const noexcept {
-			m_function = std::optional<FunctionType>( );
+		DAW_ATTRIB_INLINE constexpr void dismiss( ) noexcept {
+			m_function = std::nullopt;
 		}
 
 		[[nodiscard]] constexpr bool
-- 
2.43.0


From 70d49129a92cc58f59e3b00354c6a78ed0ff218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 199/289] fix: a moved-from ScopeGuard still ran its function

---
 include/daw/daw_scope_guard.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 6367e3f..ae11931 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -40,8 +40,26 @@ namespace daw {
 	public:
 		ScopeGuard( const ScopeGuard & ) = delete;
 		ScopeGuard &operator=( const ScopeGuard & ) = delete;
-		ScopeGuard( ScopeGuard && ) = default;
-		ScopeGuard &operator=( ScopeGuard && ) = default;
+		constexpr ScopeGuard( ScopeGuard &&other ) noexcept(
+		  std::is_nothrow_move_constructible_v<FunctionType> )
+		  : m_function( std::move( other.m_function ) ) {
+			other.m_function = std::nullopt;
+		}
+
+		constexpr ScopeGuard &operator=( ScopeGuard &&rhs ) noexcept(
+		  std::is_nothrow_invocable_v<FunctionType> and
+		  std::is_nothrow_move_constructible_v<FunctionType> ) {
+			if( this != &rhs ) {
+				if( m_function ) {
+					run_now( );
+				}
+				if( rhs.m_function ) {
+					m_function.emplace( std::move( *rhs.m_function ) );
+					rhs.m_function = std::nullopt;
+				}
+			}
+			return *this;
+		}
 
 		DAW_ATTRIB_INLINE explicit constexpr ScopeGuard(
 		  FunctionType
-- 
2.43.0


From badb62b63ca429754d8a3ff728db42991e94bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 200/289] fix: ScopeGuard::run_now ran a throwing function a
 second time

---
 include/daw/daw_scope_guard.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index ae11931..687fcb9 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -79,8 +79,9 @@ namespace daw {
 		DAW_ATTRIB_INLINE constexpr void
 		run_now( ) noexcept( std::is_nothrow_invocable_v<FunctionType> ) {
 			assert( m_function );
-			(void)( *m_function )( );
+			auto func = std::move( m_function );
 			cancel( );
+			(void)( *func )( );
 		}
 
 		DAW_ATTRIB_INLINE DAW_SG_CXDTOR ~ScopeGuard( ) noexcept(
-- 
2.43.0


From 800c57050c066a6f91f2ec30aa1a5cff7f6efb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 201/289] fix: on_exit_success never ran while another
 exception was in flight

---
 include/daw/daw_scope_guard.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 687fcb9..3fdd66c 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -112,6 +112,18 @@ namespace daw {
 	template<typename Handler>
 	class on_exit_success {
 		Handler on_exit_handler;
+#if not defined( DAW_DONT_USE_EXCEPTIONS )
+		int exception_count = current_exceptions( );
+
+		static constexpr int current_exceptions( ) noexcept {
+#if defined( DAW_HAS_CONSTEXPR_SCOPE_GUARD )
+			if( DAW_IS_CONSTANT_EVALUATED( ) ) {
+				return 0;
+			}
+#endif
+			return std::uncaught_exceptions( );
+		}
+#endif
 
 	public:
 		DAW_ATTRIB_INLINE constexpr on_exit_success( Handler &&h ) noexcept(
@@ -130,7 +142,7 @@ namespace daw {
 			} else {
 #endif
 #if not defined( DAW_DONT_USE_EXCEPTIONS )
-				if( std::uncaught_exceptions( ) == 0 ) {
+				if( std::uncaught_exceptions( ) <= exception_count ) {
 #endif
 					on_exit_handler( );
 #if not defined( DAW_DONT_USE_EXCEPTIONS )
-- 
2.43.0


From 6e6f978111bb6ead1dd8989cd21dd55bf99ab22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 202/289] fix: countable_resource_t assignment counted a new
 resource and returned nothing

---
 include/daw/daw_countable_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_countable_resource.h b/include/daw/daw_countable_resource.h
index cb346ae..ad36b0a 100644
--- a/include/daw/daw_countable_resource.h
+++ b/include/daw/daw_countable_resource.h
@@ -27,7 +27,7 @@ namespace daw {
 		}
 
 		countable_resource_t &operator=( countable_resource_t const & ) noexcept {
-			++m_resource_count;
+			return *this;
 		}
 
 		~countable_resource_t( ) {
-- 
2.43.0


From 694bde4faa6b1c2a986bf055056b40174160e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:23 +0000
Subject: [PATCH 203/289] fix: daw_scope_guard.h used assert without including
 cassert

---
 include/daw/daw_scope_guard.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 3fdd66c..af027fa 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -13,6 +13,7 @@
 #include "daw_cpp_feature_check.h"
 #include "daw_is_constant_evaluated.h"
 
+#include <cassert>
 #include <cstddef>
 #include <daw/stdinc/move_fwd_exch.h>
 #include <exception>
-- 
2.43.0


From db9081ed2ae49d51bd94dd4d5a909987339ace7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 204/289] fix: read_file never closed the file

---
 include/daw/daw_read_file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_read_file.h b/include/daw/daw_read_file.h
index 2c3f73a..7d32d21 100644
--- a/include/daw/daw_read_file.h
+++ b/include/daw/daw_read_file.h
@@ -53,6 +53,7 @@ namespace daw {
 		}
 #endif
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
+		fclose( f );
 		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
 			return std::nullopt;
 		}
@@ -98,6 +99,7 @@ namespace daw {
 			return std::nullopt;
 		}
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
+		fclose( f );
 		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
 			return std::nullopt;
 		}
-- 
2.43.0


From eeb04dd7dac70b14ebf6e79929eb73741bc294c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 205/289] fix: read_file of a wide character type returned one
 character per byte

---
 include/daw/daw_read_file.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_read_file.h b/include/daw/daw_read_file.h
index 7d32d21..0e96b82 100644
--- a/include/daw/daw_read_file.h
+++ b/include/daw/daw_read_file.h
@@ -39,7 +39,8 @@ namespace daw {
 			return std::nullopt;
 		}
 		auto result =
-		  std::basic_string<CharT>( static_cast<std::size_t>( fsize ), CharT{ } );
+		  std::basic_string<CharT>(
+		  static_cast<std::size_t>( fsize / sizeof( CharT ) ), CharT{ } );
 #if defined( _MSC_VER )
 		FILE *f = nullptr;
 		auto err = fopen_s( &f, path.c_str( ), "rb" );
@@ -54,7 +55,7 @@ namespace daw {
 #endif
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
 		fclose( f );
-		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
+		if( num_read != result.size( ) ) {
 			return std::nullopt;
 		}
 		return result;
@@ -92,7 +93,8 @@ namespace daw {
 			return std::nullopt;
 		}
 		auto result =
-		  std::basic_string<CharT>( static_cast<std::size_t>( fsize ), CharT{ } );
+		  std::basic_string<CharT>(
+		  static_cast<std::size_t>( fsize / sizeof( CharT ) ), CharT{ } );
 		FILE *f = nullptr;
 		auto err = _wfopen_s( &f, path.c_str( ), L"rb" );
 		if( err ) {
@@ -100,7 +102,7 @@ namespace daw {
 		}
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
 		fclose( f );
-		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
+		if( num_read != result.size( ) ) {
 			return std::nullopt;
 		}
 		return result;
-- 
2.43.0


From e0de42317e4ccd9baaa6ee691cd16d5841e05a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 206/289] fix: a memory mapped file that is not open could not
 be queried

---
 include/daw/daw_memory_mapped_file.h | 27 ++++++++++++++++-----------
 include/daw/daw_unique_resource.h    |  4 ++++
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index cc6d53c..83d1e1d 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -67,6 +67,11 @@ namespace daw::filesystem {
 		};
 		daw::unique_resource<fdata_t, cleanup_t> m_fdata;
 
+		/// @brief The current state, that of a closed file when there is none
+		[[nodiscard]] constexpr fdata_t state( ) const noexcept {
+			return m_fdata.has_value( ) ? *m_fdata : fdata_t{ };
+		}
+
 	public:
 		explicit memory_mapped_file_t( ) = default;
 
@@ -119,47 +124,47 @@ namespace daw::filesystem {
 		}
 
 		[[nodiscard]] constexpr pointer data( ) noexcept {
-			return m_fdata->ptr;
+			return state( ).ptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer data( ) const noexcept {
-			return m_fdata->ptr;
+			return state( ).ptr;
 		}
 
 		[[nodiscard]] constexpr pointer begin( ) noexcept {
-			return m_fdata->ptr;
+			return state( ).ptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer begin( ) const noexcept {
-			return m_fdata->ptr;
+			return state( ).ptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer cbegin( ) const noexcept {
-			return m_fdata->ptr;
+			return state( ).ptr;
 		}
 
 		[[nodiscard]] constexpr pointer end( ) noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return state( ).ptr + static_cast<ptrdiff_t>( state( ).size );
 		}
 
 		[[nodiscard]] constexpr const_pointer end( ) const noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return state( ).ptr + static_cast<ptrdiff_t>( state( ).size );
 		}
 
 		[[nodiscard]] constexpr const_pointer cend( ) const noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return state( ).ptr + static_cast<ptrdiff_t>( state( ).size );
 		}
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
-			return m_fdata->size;
+			return state( ).size;
 		}
 
 		[[nodiscard]] constexpr bool empty( ) const noexcept {
-			return not( *this ) or m_fdata->size == 0;
+			return not( *this ) or state( ).size == 0;
 		}
 
 		constexpr explicit operator bool( ) const noexcept {
-			return m_fdata->file >= 0 and m_fdata->ptr != nullptr;
+			return state( ).file >= 0 and state( ).ptr != nullptr;
 		}
 
 		template<typename Traits>
diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index c6d40b0..7d76ac1 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -74,6 +74,10 @@ namespace daw {
 			return std::move( *result );
 		}
 
+		[[nodiscard]] constexpr bool has_value( ) const noexcept {
+			return value.has_value( );
+		}
+
 		constexpr T &get( ) noexcept {
 			assert( value );
 			return *value;
-- 
2.43.0


From 989689d74f09405f4fca6ccf04f0fb11207a11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 207/289] fix: the size of a memory mapped file of a wide
 element type was in bytes

---
 include/daw/daw_memory_mapped_file.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index 83d1e1d..aee9472 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -144,23 +144,23 @@ namespace daw::filesystem {
 		}
 
 		[[nodiscard]] constexpr pointer end( ) noexcept {
-			return state( ).ptr + static_cast<ptrdiff_t>( state( ).size );
+			return state( ).ptr + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr const_pointer end( ) const noexcept {
-			return state( ).ptr + static_cast<ptrdiff_t>( state( ).size );
+			return state( ).ptr + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr const_pointer cend( ) const noexcept {
-			return state( ).ptr + static_cast<ptrdiff_t>( state( ).size );
+			return state( ).ptr + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
-			return state( ).size;
+			return state( ).size / sizeof( T );
 		}
 
 		[[nodiscard]] constexpr bool empty( ) const noexcept {
-			return not( *this ) or state( ).size == 0;
+			return not( *this ) or size( ) == 0;
 		}
 
 		constexpr explicit operator bool( ) const noexcept {
-- 
2.43.0


From 210fbcfdf6be9be999740fcaac7e96ea8c460a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:57 +0000
Subject: [PATCH 208/289] fix: memory_mapped_file_t of a const element type did
 not compile

---
 include/daw/daw_memory_mapped_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index aee9472..5f01f54 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -57,7 +57,7 @@ namespace daw::filesystem {
 		struct cleanup_t {
 			constexpr void operator( )( fdata_t &d ) noexcept {
 				if( auto *p = daw::exchange( d.ptr, nullptr ); p ) {
-					munmap( p, d.size );
+					munmap( const_cast<std::remove_const_t<T> *>( p ), d.size );
 				}
 				d.size = 0;
 				if( auto fid = daw::exchange( d.file, -1 ); fid >= 0 ) {
-- 
2.43.0


From b967c5c432ad1f6a45948be705841dddc16dc1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 209/289] fix: hex of non-integral values left gaps and hex of
 a range encoded the output

---
 include/daw/daw_utility.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 4f1992f..15ea78b 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -523,7 +523,6 @@ namespace daw {
 		auto chr_ptr = reinterpret_cast<char const *>( &val );
 		for( std::size_t n = 0; n < sizeof( T ); ++n ) {
 			it_out = hex( *chr_ptr, it_out );
-			++it_out;
 			++chr_ptr;
 		}
 		return it_out;
@@ -569,7 +568,7 @@ namespace daw {
 	                                  ForwardIterator2 const last_in,
 	                                  OutputIterator first_out ) noexcept {
 		for( ; first_in != last_in; ++first_in ) {
-			first_out = hex( *first_out, first_out );
+			first_out = hex( *first_in, first_out );
 		}
 		return first_out;
 	}
-- 
2.43.0


From 9d7b70cbadbb3e4ccea365c35cde653f0e01e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 210/289] fix: bitcount did not count the set bits

---
 include/daw/daw_utility.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 15ea78b..84efc6a 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -408,9 +408,11 @@ namespace daw {
 	template<typename Value>
 	[[nodiscard]] constexpr std::size_t bitcount( Value value ) noexcept {
 		size_t result = 0;
-		while( value ) {
-			result += static_cast<size_t>( value & ~static_cast<Value>( 0b1 ) );
-			value >>= 1;
+		auto bits = static_cast<std::uintmax_t>(
+		  static_cast<std::make_unsigned_t<Value>>( value ) );
+		while( bits ) {
+			result += static_cast<size_t>( bits & 1U );
+			bits >>= 1;
 		}
 		return result;
 	}
-- 
2.43.0


From 31031d85d5cf247f35d554690731a2d8a1ecf593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 211/289] fix: find_all_where did not compile

---
 include/daw/daw_utility.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 84efc6a..11ca6e3 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -285,7 +285,11 @@ namespace daw {
 	[[nodiscard]] std::vector<Iterator1>
 	find_all_where( Iterator1 first, Iterator2 const last, Pred predicate ) {
 		std::vector<Iterator1> results{ };
-		std::copy_if( first, last, std::back_inserter( results ), predicate );
+		for( ; first != last; ++first ) {
+			if( predicate( *first ) ) {
+				results.push_back( first );
+			}
+		}
 		return results;
 	}
 
-- 
2.43.0


From 701cc3b4be34a001e5d8d677724d4912b659a41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 212/289] fix: to_array_of did not compile

---
 include/daw/daw_utility.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 11ca6e3..2a68287 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -793,7 +793,7 @@ namespace daw {
 	template<typename To, typename From>
 	[[nodiscard]] auto to_array_of( From &&from ) noexcept {
 		constexpr std::size_t const num_values = sizeof( From ) / sizeof( To );
-		static_assert( std::is_integral_v<std::decay<To>>,
+		static_assert( std::is_integral_v<std::decay_t<To>>,
 		               "To must be an integer like type" );
 		static_assert( sizeof( From ) == num_values * sizeof( To ),
 		               "Must have integral number of To's in From" );
@@ -803,8 +803,10 @@ namespace daw {
 
 		for( std::size_t entry = 0; entry < num_values; ++entry ) {
 			result[entry] =
-			  value_from_chars( std::next( as_chars.data( ), entry * sizeof( To ) ),
-			                    std::integral_constant<size_t, sizeof( To )>{ } );
+			  static_cast<To>( value_from_chars<To>(
+			    std::next( as_chars.data( ),
+			               static_cast<std::ptrdiff_t>( entry * sizeof( To ) ) ),
+			                    std::integral_constant<size_t, sizeof( To )>{ } ) );
 		}
 		return result;
 	}
-- 
2.43.0


From b10dd96c60e510405a0a2abc6367fbcda350d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 213/289] fix: value_is did not compile for const values

---
 include/daw/daw_utility.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 2a68287..d4e36cc 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -838,8 +838,7 @@ namespace daw {
 		class value_is_utility_details {
 			T *m_value;
 
-			constexpr value_is_utility_details( T const &v )
-			  : m_value( &v ) {}
+			
 			constexpr value_is_utility_details( T &v )
 			  : m_value( &v ) {}
 			constexpr value_is_utility_details( T &&v )
-- 
2.43.0


From 5f3340863b7ee24a54eb319491f0f7e10f896003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 214/289] fix: daw::string::split of a string_view did not
 compile

---
 include/daw/deprecated/daw_string.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_string.h b/include/daw/deprecated/daw_string.h
index e7ca742..82635ae 100644
--- a/include/daw/deprecated/daw_string.h
+++ b/include/daw/deprecated/daw_string.h
@@ -90,7 +90,7 @@ namespace daw::string {
 		auto pos = sv.begin( );
 		decltype( pos ) find_iter;
 		while( true ) {
-			find_iter = find_if( pos, sv.end( ), []( auto const &c ) {
+			find_iter = std::find_if( pos, sv.end( ), []( auto const &c ) {
 				return static_cast<bool>( isspace( c ) );
 			} );
 			result.emplace_back( pos, find_iter );
@@ -109,7 +109,7 @@ namespace daw::string {
 		auto pos = sv.begin( );
 		decltype( pos ) find_iter;
 		while( true ) {
-			find_iter = find( pos, sv.end( ), delimiter );
+			find_iter = std::find( pos, sv.end( ), delimiter );
 			result.emplace_back( pos, find_iter );
 			if( find_iter == sv.end( ) ) {
 				break;
@@ -126,7 +126,7 @@ namespace daw::string {
 		auto pos = sv.begin( );
 		decltype( pos ) find_iter;
 		while( true ) {
-			find_iter = find_if( pos, sv.end( ), [&delimiters]( auto const &c ) {
+			find_iter = std::find_if( pos, sv.end( ), [&delimiters]( auto const &c ) {
 				return std::find( std::begin( delimiters ),
 				                  std::end( delimiters ),
 				                  c ) != delimiters.end( );
@@ -147,7 +147,7 @@ namespace daw::string {
 		auto pos = sv.begin( );
 		decltype( pos ) find_iter;
 		while( true ) {
-			find_iter = find_if( pos, sv.end( ), [is_delim]( auto const &c ) {
+			find_iter = std::find_if( pos, sv.end( ), [is_delim]( auto const &c ) {
 				return static_cast<bool>( is_delim( c ) );
 			} );
 			result.emplace_back( pos, find_iter );
-- 
2.43.0


From 078d88ef1fbb3528638be56a08d60479ee12cef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 215/289] fix: daw::string::ends_with only compared the last
 character

---
 include/daw/deprecated/daw_string.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_string.h b/include/daw/deprecated/daw_string.h
index 82635ae..b79f8ea 100644
--- a/include/daw/deprecated/daw_string.h
+++ b/include/daw/deprecated/daw_string.h
@@ -217,8 +217,10 @@ namespace daw::string {
 
 		bool operator( )( StringType const &src,
 		                  StringType const &ending ) const noexcept {
-			auto pos = src.find_last_of( ending );
-			return string_details::string_t::npos != pos and pos == src.size( ) - 1;
+			return ending.size( ) <= src.size( ) and
+			       src.compare( src.size( ) - ending.size( ),
+			                    ending.size( ),
+			                    ending ) == 0;
 		}
 	};
 
-- 
2.43.0


From 3e796ed09f329b051eb6344bb9caa38c1d796792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 216/289] fix: trim_left threw for a string of only delimiters

---
 include/daw/deprecated/daw_string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_string.h b/include/daw/deprecated/daw_string.h
index b79f8ea..54eb87c 100644
--- a/include/daw/deprecated/daw_string.h
+++ b/include/daw/deprecated/daw_string.h
@@ -324,7 +324,7 @@ namespace daw::string {
 		if( str.empty( ) ) {
 			return str;
 		}
-		return str.substr( str.find_first_not_of( delimiters ) );
+		return str.substr( std::min( str.find_first_not_of( delimiters ), str.size( ) ) );
 	}
 
 	template<typename CharT = char,
@@ -337,7 +337,7 @@ namespace daw::string {
 		if( str.empty( ) ) {
 			return;
 		}
-		str = str.substr( str.find_first_not_of( delimiters ) );
+		str = str.substr( std::min( str.find_first_not_of( delimiters ), str.size( ) ) );
 	}
 
 	template<class StringElementType, class StringType>
-- 
2.43.0


From 127eb1a5800f61586beb3bcaa469b2de6337b9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 217/289] fix: daw::string::fmt read past the arguments for a
 placeholder without one

---
 include/daw/deprecated/daw_string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_string.h b/include/daw/deprecated/daw_string.h
index 54eb87c..1b62704 100644
--- a/include/daw/deprecated/daw_string.h
+++ b/include/daw/deprecated/daw_string.h
@@ -257,13 +257,13 @@ namespace daw::string {
 					ss2 << sm[1].str( );
 					size_t v;
 					ss2 >> v;
-					ss << arguments[v];
+					ss << arguments.at( v );
 				} else if( 2 == delims.size( ) ) {
 					// Assumes the argument at pos is a double.  If not, will crash
 					size_t pos = string_details::lexical_cast<size_t>( delims[0] );
 					int precision = string_details::lexical_cast<int>( delims[1] );
 					ss << std::fixed << std::setprecision( precision )
-					   << string_details::lexical_cast<double>( arguments[pos] );
+					   << string_details::lexical_cast<double>( arguments.at( pos ) );
 				} else {
 					daw::exception::daw_throw<std::out_of_range>(
 					  fmt( "Unknown string format.  Too many colons(",
-- 
2.43.0


From a87584f8cd4c7f78f5031bf48b2b7dc4d4fcd63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 218/289] fix: string_join did not compile for more than four
 arguments

---
 include/daw/deprecated/daw_string.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_string.h b/include/daw/deprecated/daw_string.h
index 1b62704..ac58841 100644
--- a/include/daw/deprecated/daw_string.h
+++ b/include/daw/deprecated/daw_string.h
@@ -188,9 +188,8 @@ namespace daw::string {
 	}
 
 	template<typename Arg1, typename Arg2, typename... Args>
-	auto string_join( Arg1 const &arg1, Arg2 const &arg2, Args const &...args )
-	  -> decltype( string_join( string_join( arg1, arg2 ),
-	                            string_join( args... ) ) ) {
+	string_details::string_t
+	string_join( Arg1 const &arg1, Arg2 const &arg2, Args const &...args ) {
 		return string_join( string_join( arg1, arg2 ), string_join( args... ) );
 	}
 
-- 
2.43.0


From 4238a960bcc1887010b256374ec202efb0cd2ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 219/289] fix: string_concat appended its arguments in an
 unspecified order and needed more than one

---
 include/daw/daw_string_concat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_concat.h b/include/daw/daw_string_concat.h
index 8a858cc..712d9e2 100644
--- a/include/daw/daw_string_concat.h
+++ b/include/daw/daw_string_concat.h
@@ -151,8 +151,8 @@ namespace daw {
 		auto const appender = []( std::string &lhs, auto &&rhs ) {
 			lhs.append( DAW_FWD( rhs ) );
 		};
-		arg.reserve( ( std::size( strings ) + ... ) );
-		(void)( ( appender( arg, DAW_FWD( strings ) ), 0 ) + ... );
+		arg.reserve( ( arg.size( ) + ... + std::size( strings ) ) );
+		(void)( appender( arg, DAW_FWD( strings ) ), ... );
 		return arg;
 	}
 } // namespace daw
-- 
2.43.0


From 3412b4afaecdebd281325b33ab990b4bb4b2ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:20 +0000
Subject: [PATCH 220/289] fix: dbg_throw_on_false without a message did not
 compile

---
 include/daw/daw_exception.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/daw/daw_exception.h b/include/daw/daw_exception.h
index 8e027b8..61235a0 100644
--- a/include/daw/daw_exception.h
+++ b/include/daw/daw_exception.h
@@ -187,12 +187,7 @@ namespace daw::exception {
 	template<typename ExceptionType = AssertException>
 	constexpr void dbg_throw_on_false( bool test ) {
 		if( not static_cast<bool>( test ) ) {
-#if defined( __cpp_exceptions ) or defined( __EXCEPTIONS ) or \
-  defined( _CPPUNWIND )
-			throw ExceptionType{ };
-#else
-			std::abort( );
-#endif
+			debug_throw<ExceptionType>( );
 		}
 	}
 #else
-- 
2.43.0


From 946a5c2137b9c4f205423cfd3b07b97abd3636fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:20 +0000
Subject: [PATCH 221/289] fix: throw_on_*_or_return took the message as the
 test or was ambiguous

---
 include/daw/daw_exception.h | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/include/daw/daw_exception.h b/include/daw/daw_exception.h
index 61235a0..78a6bcd 100644
--- a/include/daw/daw_exception.h
+++ b/include/daw/daw_exception.h
@@ -312,7 +312,10 @@ namespace daw::exception {
 	constexpr void dbg_postcondition_check( Bool &&, Args &&... ) {}
 #endif
 	template<typename ExceptionType = AssertException, typename ValueType,
-	         typename... Args, typename Bool>
+	         typename... Args, typename Bool,
+	         std::enable_if_t<( std::is_constructible_v<bool, Bool> and
+	                            not std::is_convertible_v<Bool, char const *> ),
+	                          std::nullptr_t> = nullptr>
 	constexpr ValueType daw_throw_on_false_or_return( ValueType &&value,
 	                                                  Bool &&test,
 	                                                  Args &&...args ) {
@@ -377,7 +380,10 @@ namespace daw::exception {
 	}
 
 	template<typename ExceptionType = AssertException, typename ValueType,
-	         typename... Args, typename Bool>
+	         typename... Args, typename Bool,
+	         std::enable_if_t<( std::is_constructible_v<bool, Bool> and
+	                            not std::is_convertible_v<Bool, char const *> ),
+	                          std::nullptr_t> = nullptr>
 	constexpr ValueType daw_throw_on_true_or_return( ValueType &&value,
 	                                                 Bool &&test,
 	                                                 Args &&...args ) {
@@ -387,17 +393,6 @@ namespace daw::exception {
 		return DAW_FWD( value );
 	}
 
-	template<typename ExceptionType = AssertException, typename ValueType,
-	         typename... Args, typename Bool>
-	constexpr ValueType &&daw_throw_on_true_or_return( ValueType &&value,
-	                                                   Bool &&test,
-	                                                   Args &&...args ) {
-		if( static_cast<bool>( test ) ) {
-			daw_throw<ExceptionType>( DAW_FWD( args )... );
-		}
-		return DAW_FWD( value );
-	}
-
 	template<typename ExceptionType = AssertException, typename ValueType,
 	         typename... Args>
 	constexpr ValueType daw_throw_on_true_or_return( ValueType &&value, bool test,
-- 
2.43.0


From 6e4c0379cb961a0b4392ae194e9afe923e64388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:53 +0000
Subject: [PATCH 222/289] fix: daw::visit of a valueless std::variant was
 undefined instead of throwing bad_variant_access

---
 include/daw/daw_visit.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 93b3aca..ffa4339 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -93,8 +93,8 @@ namespace daw {
 		}
 
     template<typename Variant, std::enable_if_t<not has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
-	  DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const & ) {
-      return false;
+	  DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const & v ) {
+      return static_cast<std::size_t>( v.index( ) ) == std::variant_npos;
 		}
 	  
 		template<typename>
@@ -401,7 +401,7 @@ namespace daw {
 	[[nodiscard]] constexpr Result visit( Variant &&var,
 	                                      Visitors &&...visitors ) {
 
-		if( DAW_UNLIKELY( var.index( ) < 0 ) ) {
+		if( DAW_UNLIKELY( visit_details::is_empty( var ) ) ) {
 			visit_details::visit_error( );
 		}
 		return daw::visit_details::visit_nt<0, Result>(
-- 
2.43.0


From 3f241150bfa08786c20f5192d07cf1d0e510243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:37 +0000
Subject: [PATCH 223/289] fix: variant_cast and can_extract of a valueless
 variant were undefined

---
 include/daw/daw_variant_cast.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_variant_cast.h b/include/daw/daw_variant_cast.h
index 6afe870..f0fb060 100644
--- a/include/daw/daw_variant_cast.h
+++ b/include/daw/daw_variant_cast.h
@@ -60,30 +60,36 @@ namespace daw {
 	constexpr T variant_cast( std::variant<Args...> &var ) {
 		static_assert( daw::traits::can_convert_from_v<T, Args...>,
 		               "T must be a convertible from type inside of variant" );
-		return daw::visit_nt( var, impl::variant_visitor_t<T>{ } );
+		return daw::visit( var, impl::variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr T variant_cast( std::variant<Args...> const &var ) {
 		static_assert( daw::traits::can_convert_from_v<T, Args...>,
 		               "T must be a convertible from type inside of variant" );
-		return daw::visit_nt( var, impl::variant_visitor_t<T>{ } );
+		return daw::visit( var, impl::variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr T variant_cast( std::variant<Args...> &&var ) {
 		static_assert( daw::traits::can_convert_from_v<T, Args...>,
 		               "T must be a convertible from type inside of variant" );
-		return daw::visit_nt( std::move( var ), impl::variant_visitor_t<T>{ } );
+		return daw::visit( std::move( var ), impl::variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr bool can_extract( std::variant<Args...> const &var ) noexcept {
+		if( var.valueless_by_exception( ) ) {
+			return false;
+		}
 		return daw::visit_nt( var, impl::can_variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr bool can_extract( std::variant<Args...> &&var ) noexcept {
+		if( var.valueless_by_exception( ) ) {
+			return false;
+		}
 		return daw::visit_nt( std::move( var ), impl::can_variant_visitor_t<T>{ } );
 	}
 } // namespace daw
-- 
2.43.0


From 70846c2974895526869816354942813bb384b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:15 +0000
Subject: [PATCH 224/289] fix: heap_array copies had no room for
 find_first_of's sentinel

---
 include/daw/deprecated/daw_heap_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index 245669f..e5b82a9 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -73,7 +73,7 @@ namespace daw {
 		}
 
 		heap_array( heap_array const &other )
-		  : m_begin( create_value( other.m_size ) )
+		  : m_begin( create_value( other.m_size + 1 ) )
 		  , m_end( m_begin + other.m_size )
 		  , m_size( other.m_size ) {
 
@@ -81,7 +81,7 @@ namespace daw {
 		}
 
 		heap_array &operator=( heap_array const &rhs ) {
-			T *tmp = create_value( rhs.m_size );
+			T *tmp = create_value( rhs.m_size + 1 );
 			T *tmp_end = std::copy_n( rhs.m_begin, rhs.m_size, tmp );
 			std::size_t tmp_sz = rhs.m_size;
 			clear( );
@@ -99,7 +99,7 @@ namespace daw {
 		}
 
 		heap_array( T *arry, size_t Size )
-		  : m_begin( create_value( Size ) )
+		  : m_begin( create_value( Size + 1 ) )
 		  , m_end( m_begin + Size )
 		  , m_size( Size ) {
 
-- 
2.43.0


From dafe38b235af39089fdd5be56e270d768b55fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:15 +0000
Subject: [PATCH 225/289] fix: heap_array's conversion to bool was inverted

---
 include/daw/deprecated/daw_heap_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index e5b82a9..0f964e3 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -124,7 +124,7 @@ namespace daw {
 		}
 
 		explicit constexpr operator bool( ) const noexcept {
-			return nullptr == m_begin;
+			return nullptr != m_begin;
 		}
 
 		constexpr size_t size( ) const noexcept {
-- 
2.43.0


From 42f9d6b9525e79dca5d6eabb75ea6c2ba97a72bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:15 +0000
Subject: [PATCH 226/289] fix: fixed_array::clear left the freed elements in
 place

---
 include/daw/deprecated/daw_fixed_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_fixed_array.h b/include/daw/deprecated/daw_fixed_array.h
index 0177587..dcedaf1 100644
--- a/include/daw/deprecated/daw_fixed_array.h
+++ b/include/daw/deprecated/daw_fixed_array.h
@@ -139,7 +139,7 @@ namespace daw {
 		}
 
 		void clear( ) {
-			delete[] m_data;
+			delete[] daw::exchange( m_data, nullptr );
 			m_size = 0;
 		}
 
-- 
2.43.0


From 4b1d568d3b9ef1be6a1264a423b12bfe5998a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:15 +0000
Subject: [PATCH 227/289] fix: carray's reverse iteration skipped the last
 element and ran off the front

---
 include/daw/deprecated/daw_carray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/deprecated/daw_carray.h b/include/daw/deprecated/daw_carray.h
index 9c5aa09..8446693 100644
--- a/include/daw/deprecated/daw_carray.h
+++ b/include/daw/deprecated/daw_carray.h
@@ -151,32 +151,32 @@ namespace daw {
 
 		[[nodiscard]] constexpr auto rbegin( ) noexcept {
 			static_assert( N > 0, "Cannot call rbegin on empty array" );
-			return make_reverse_iterator( &ptr( )[N - 1] );
+			return make_reverse_iterator( ptr( ) + N );
 		}
 
 		[[nodiscard]] constexpr auto rbegin( ) const noexcept {
 			static_assert( N > 0, "Cannot call rbegin on empty array" );
-			return make_reverse_iterator( &ptr( )[N - 1] );
+			return make_reverse_iterator( ptr( ) + N );
 		}
 
 		[[nodiscard]] constexpr auto crbegin( ) const noexcept {
 			static_assert( N > 0, "Cannot call crbegin on empty array" );
-			return make_reverse_iterator( &ptr( )[N - 1] );
+			return make_reverse_iterator( ptr( ) + N );
 		}
 
 		[[nodiscard]] constexpr auto rend( ) noexcept {
 			static_assert( N > 0, "Cannot call rend on empty array" );
-			return make_reverse_iterator( ptr( ) - 1 );
+			return make_reverse_iterator( ptr( ) );
 		}
 
 		[[nodiscard]] constexpr auto rend( ) const noexcept {
 			static_assert( N > 0, "Cannot call rend on empty array" );
-			return make_reverse_iterator( ptr( ) - 1 );
+			return make_reverse_iterator( ptr( ) );
 		}
 
 		[[nodiscard]] constexpr auto crend( ) const noexcept {
 			static_assert( N > 0, "Cannot call crend on empty array" );
-			return make_reverse_iterator( ptr( ) - 1 );
+			return make_reverse_iterator( ptr( ) );
 		}
 
 		[[nodiscard]] constexpr reference front( ) noexcept {
-- 
2.43.0


From ad6282c960134256f7888ea1a95d6b73782836db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:57 +0000
Subject: [PATCH 228/289] fix: moving a heap_array lost its end and leaked the
 assigned-to elements

---
 include/daw/deprecated/daw_heap_array.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index 0f964e3..fac2d4f 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -62,13 +62,12 @@ namespace daw {
 
 		constexpr heap_array( heap_array &&other ) noexcept
 		  : m_begin( daw::exchange( other.m_begin, nullptr ) )
-		  , m_end( daw::exchange( other.m_begin, nullptr ) )
+		  , m_end( daw::exchange( other.m_end, nullptr ) )
 		  , m_size( daw::exchange( other.m_size, 0ULL ) ) {}
 
 		constexpr heap_array &operator=( heap_array &&rhs ) noexcept {
-			m_begin = daw::exchange( rhs.m_begin, nullptr );
-			m_end = daw::exchange( rhs.m_end, nullptr );
-			m_size = daw::exchange( rhs.m_size, 0ULL );
+			heap_array tmp( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
-- 
2.43.0


From 01af3365207a4d4f7cec239e74cf02e57e6f394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:57 +0000
Subject: [PATCH 229/289] fix: carray's element constructor took over copies
 and accepted too many elements

---
 include/daw/deprecated/daw_carray.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_carray.h b/include/daw/deprecated/daw_carray.h
index 8446693..61cd7be 100644
--- a/include/daw/deprecated/daw_carray.h
+++ b/include/daw/deprecated/daw_carray.h
@@ -15,9 +15,11 @@
 
 #include <array>
 #include <cstdint>
+#include <cstddef>
 #include <cstdlib>
 #include <iterator>
 #include <stdexcept>
+#include <type_traits>
 
 namespace daw {
 	namespace details {
@@ -77,7 +79,11 @@ namespace daw {
 			return *this;
 		}
 
-		template<typename... Args>
+		template<
+		  typename... Args,
+		  std::enable_if_t<( sizeof...( Args ) > 0 and sizeof...( Args ) <= N and
+		                     ( std::is_convertible_v<Args, T> and ... ) ),
+		                   std::nullptr_t> = nullptr>
 		constexpr carray( Args &&...args ) noexcept( noexcept( details::assign_to(
 		  std::declval<carray>( ).ptr( ), std::declval<Args &&>( )... ) ) )
 		  : m_data{ } {
-- 
2.43.0


From 49e854f8b4092780822d9225f26e40d18fc5a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 230/289] fix: copiable_unique_ptr's ordering and nullptr
 comparisons did not compile

---
 .../daw/deprecated/daw_copiable_unique_ptr.h  | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/daw/deprecated/daw_copiable_unique_ptr.h b/include/daw/deprecated/daw_copiable_unique_ptr.h
index 6e410af..e23c122 100644
--- a/include/daw/deprecated/daw_copiable_unique_ptr.h
+++ b/include/daw/deprecated/daw_copiable_unique_ptr.h
@@ -144,13 +144,13 @@ namespace daw {
 		return lhs.get( ) == rhs.get( );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator==( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 		return !lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator==( std::nullptr_t,
 	                           copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 		return !rhs;
@@ -163,14 +163,14 @@ namespace daw {
 		return lhs.get( ) != rhs.get( );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator!=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return static_cast<bool>( lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator!=( std::nullptr_t,
 	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
@@ -181,24 +181,24 @@ namespace daw {
 	constexpr bool operator<( copiable_unique_ptr<T1, D1> const &lhs,
 	                          copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 		using CT =
-		  std::common_type_t<typename copiable_unique_ptr<T1, D1>::pointer,
-		                     typename copiable_unique_ptr<T2, D2>::pointer>;
-		return std::less<CT>( lhs.get( ), rhs.get( ) );
+		  std::common_type_t<typename copiable_unique_ptr<T1, D1>::const_pointer,
+		                     typename copiable_unique_ptr<T2, D2>::const_pointer>;
+		return std::less<CT>{ }( lhs.get( ), rhs.get( ) );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<( copiable_unique_ptr<T1, D1> const &lhs,
 	                          std::nullptr_t ) noexcept {
 
-		return std::less<typename copiable_unique_ptr<T1, D1>::pointer>( lhs.get( ),
-		                                                                 nullptr );
+		return std::less<typename copiable_unique_ptr<T1, D1>::const_pointer>{ }(
+		  lhs.get( ), nullptr );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<( std::nullptr_t,
 	                          copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 
-		return std::less<typename copiable_unique_ptr<T1, D1>::pointer>(
+		return std::less<typename copiable_unique_ptr<T1, D1>::const_pointer>{ }(
 		  nullptr, rhs.get( ) );
 	}
 
@@ -208,14 +208,14 @@ namespace daw {
 		return !( rhs < lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return !( nullptr < lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator<=( std::nullptr_t,
 	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
@@ -228,14 +228,14 @@ namespace daw {
 		return rhs < lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator>( copiable_unique_ptr<T1, D1> const &lhs,
 	                          std::nullptr_t ) noexcept {
 
 		return nullptr < lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator>( std::nullptr_t,
 	                          copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
@@ -248,14 +248,14 @@ namespace daw {
 		return !( lhs < rhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator>=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return !( lhs < nullptr );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator>=( std::nullptr_t,
 	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
-- 
2.43.0


From d24200e1e5c9fb671777a6d3ecf80a71f5aef90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 231/289] fix: moving an optional_poly of a derived type into
 one of its base did not compile

---
 include/daw/deprecated/daw_optional_poly.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index 0b3e997..bfff30c 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -106,7 +106,8 @@ namespace daw {
 		                            std::is_same<value_type, T>::value ),
 		                          std::nullptr_t> = nullptr>
 		optional_poly &operator=( optional_poly<T> &&rhs ) {
-			if( this != static_cast<optional_poly *>( &rhs ) ) {
+			if( static_cast<void const *>( this ) !=
+			    static_cast<void const *>( &rhs ) ) {
 				m_value.reset( rhs.m_value.release( ) );
 			}
 			return *this;
-- 
2.43.0


From 0bb36eb8645bceb956583d40d9b5c2d343990645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 232/289] fix: assigning a derived value to an optional_poly
 sliced it

---
 include/daw/deprecated/daw_optional_poly.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index bfff30c..a2231a2 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -118,7 +118,7 @@ namespace daw {
 		                            std::is_same<value_type, T>::value ),
 		                          std::nullptr_t> = nullptr>
 		optional_poly &operator=( T const &value ) {
-			m_value.reset( new value_type{ value } );
+			m_value.reset( new T{ value } );
 			return *this;
 		}
 
-- 
2.43.0


From 99ba1a2b05517284e283d6b0ad105ec21868f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 233/289] fix: two empty optional_poly compared as less and not
 as greater or equal

---
 include/daw/deprecated/daw_optional_poly.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index a2231a2..7b6c828 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -212,7 +212,7 @@ namespace daw {
 			}
 			return false;
 		}
-		return true;
+		return static_cast<bool>( rhs );
 	}
 
 	template<typename T>
@@ -248,7 +248,7 @@ namespace daw {
 			}
 			return true;
 		}
-		return false;
+		return !static_cast<bool>( rhs );
 	}
 
 } // namespace daw
-- 
2.43.0


From d0859f39f904bf09ac21db6b5b97d0ce31befa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:49 +0000
Subject: [PATCH 234/289] fix: heap_array leaked its elements when copying one
 of them threw

---
 include/daw/deprecated/daw_heap_array.h | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index fac2d4f..54ba24a 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -72,21 +72,14 @@ namespace daw {
 		}
 
 		heap_array( heap_array const &other )
-		  : m_begin( create_value( other.m_size + 1 ) )
-		  , m_end( m_begin + other.m_size )
-		  , m_size( other.m_size ) {
+		  : heap_array( other.m_size ) {
 
 			std::copy_n( other.m_begin, m_size, m_begin );
 		}
 
 		heap_array &operator=( heap_array const &rhs ) {
-			T *tmp = create_value( rhs.m_size + 1 );
-			T *tmp_end = std::copy_n( rhs.m_begin, rhs.m_size, tmp );
-			std::size_t tmp_sz = rhs.m_size;
-			clear( );
-			m_begin = tmp;
-			m_end = tmp_end;
-			m_size = tmp_sz;
+			heap_array tmp( rhs );
+			swap( tmp );
 			return *this;
 		}
 
@@ -98,9 +91,7 @@ namespace daw {
 		}
 
 		heap_array( T *arry, size_t Size )
-		  : m_begin( create_value( Size + 1 ) )
-		  , m_end( m_begin + Size )
-		  , m_size( Size ) {
+		  : heap_array( Size ) {
 
 			std::copy_n( arry, Size, m_begin );
 		}
-- 
2.43.0


From 610c0e46c72493107a03f2c19f8d40ab6810be8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:49 +0000
Subject: [PATCH 235/289] fix: fixed_array leaked its elements when copying one
 of them threw

---
 include/daw/deprecated/daw_fixed_array.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/daw/deprecated/daw_fixed_array.h b/include/daw/deprecated/daw_fixed_array.h
index dcedaf1..d12ad98 100644
--- a/include/daw/deprecated/daw_fixed_array.h
+++ b/include/daw/deprecated/daw_fixed_array.h
@@ -100,26 +100,19 @@ namespace daw {
 		}
 
 		fixed_array( fixed_array const &other )
-		  : m_data( new value_type[other.m_size] )
-		  , m_size( other.m_size ) {
+		  : fixed_array( construct_for_overwrite, other.m_size ) {
 
 			std::copy_n( other.m_data, m_size, m_data );
 		}
 
 		fixed_array &operator=( fixed_array const &rhs ) {
-			size_type tmp_size = rhs.m_size;
-			value_type *tmp = new value_type[tmp_size];
-			std::copy_n( rhs.m_data, tmp_size, tmp );
-			clear( );
-			m_data = tmp;
-			m_size = tmp_size;
-			return *this;
+			fixed_array tmp( rhs );
+			return *this = std::move( tmp );
 		}
 
 		template<typename Iterator>
 		fixed_array( Iterator first, size_type Size )
-		  : m_size( Size )
-		  , m_data( new value_type[m_size] ) {
+		  : fixed_array( construct_for_overwrite, Size ) {
 
 			std::copy_n( first, m_size, m_data );
 		}
@@ -132,8 +125,8 @@ namespace daw {
 		     daw::traits::is_iterator_v<IteratorF>),
 		    std::nullptr_t> = nullptr>
 		fixed_array( IteratorF first, IteratorL last )
-		  : m_size( static_cast<size_type>( last - first ) )
-		  , m_data( new value_type[m_size] ) {
+		  : fixed_array( construct_for_overwrite,
+		                 static_cast<size_type>( last - first ) ) {
 
 			std::copy_n( first, m_size, m_data );
 		}
-- 
2.43.0


From f57e33b6d9e50617833e95014ee503c8ca03479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:00 +0000
Subject: [PATCH 236/289] fix: std::hash<daw::not_null<T *>> did not compile

---
 include/daw/daw_not_null.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_not_null.h b/include/daw/daw_not_null.h
index db2540b..a0a0883 100644
--- a/include/daw/daw_not_null.h
+++ b/include/daw/daw_not_null.h
@@ -444,8 +444,7 @@ namespace daw {
 template<typename Pointer>
 struct std::hash<daw::not_null<Pointer>> {
 	[[nodiscard]] auto operator( )( daw::not_null<Pointer> value ) const
-	  -> decltype( std::hash<decltype( std::declval<Pointer>( ) )>{ }(
-	    value.get( ) ) ) {
-		return std::hash<decltype( std::declval<Pointer>( ) )>{ }( value.get( ) );
+	  -> decltype( std::hash<Pointer>{ }( value.get( ) ) ) {
+		return std::hash<Pointer>{ }( value.get( ) );
 	}
 };
-- 
2.43.0


From e15b157ba5fa26073e3cd2f6a972434d615cbb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:01 +0000
Subject: [PATCH 237/289] fix: converting an observer_ptr to one of a base type
 did not compile

---
 include/daw/daw_observer_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_observer_ptr.h b/include/daw/daw_observer_ptr.h
index 117b897..aaa68de 100644
--- a/include/daw/daw_observer_ptr.h
+++ b/include/daw/daw_observer_ptr.h
@@ -37,7 +37,7 @@ namespace daw {
 		requires( not std::same_as<T, U> and
 		          std::convertible_to<
 		            U *, T *> ) constexpr observer_ptr( observer_ptr<U> other )
-		  : m_ptr( other.m_ptr ) {}
+		  : m_ptr( other.get( ) ) {}
 
 		constexpr observer_ptr &operator=( pointer p ) {
 			m_ptr = p;
-- 
2.43.0


From 37d17fe31985630c9d7ccc10c64921da7cf1c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:01 +0000
Subject: [PATCH 238/289] fix: prop_const_ptr postfix increment/decrement and
 const operator+ did not compile

---
 include/daw/daw_prop_const_ptr.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_prop_const_ptr.h b/include/daw/daw_prop_const_ptr.h
index 46064b8..370c94f 100644
--- a/include/daw/daw_prop_const_ptr.h
+++ b/include/daw/daw_prop_const_ptr.h
@@ -79,7 +79,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr prop_const_ptr &operator++( int ) {
+		constexpr prop_const_ptr operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
@@ -90,7 +90,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr prop_const_ptr &operator--( int ) {
+		constexpr prop_const_ptr operator--( int ) {
 			auto result = *this;
 			--m_ptr;
 			return result;
@@ -112,7 +112,8 @@ namespace daw {
 			return result;
 		}
 
-		constexpr prop_const_ptr operator+( difference_type d ) const {
+		constexpr prop_const_ptr<std::add_const_t<value_type>>
+		operator+( difference_type d ) const {
 			auto result = prop_const_ptr<std::add_const_t<value_type>>( m_ptr );
 			result += d;
 			return result;
-- 
2.43.0


From 0a989bd793511bec4bdab62c9cd0cd5b8deccb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:18 +0000
Subject: [PATCH 239/289] fix: comparing a raw pointer or nullptr on the left
 with an observer_ptr was ambiguous

---
 include/daw/daw_observer_ptr.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/daw_observer_ptr.h b/include/daw/daw_observer_ptr.h
index aaa68de..63594d2 100644
--- a/include/daw/daw_observer_ptr.h
+++ b/include/daw/daw_observer_ptr.h
@@ -89,9 +89,7 @@ namespace daw {
 			return m_ptr == other;
 		}
 
-		constexpr bool operator!=( pointer other ) const noexcept {
-			return m_ptr != other;
-		}
+		
 
 		// clang-format off
 		constexpr std::strong_ordering operator<=>( pointer other ) const {
-- 
2.43.0


From a67dd26188f55dc308fb8e5fb24784ce49c899bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:07 +0000
Subject: [PATCH 240/289] fix: to_reference_vector never advanced and did not
 terminate on a non-empty range

---
 include/daw/daw_reference.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_reference.h b/include/daw/daw_reference.h
index 762ec0f..93a4f91 100644
--- a/include/daw/daw_reference.h
+++ b/include/daw/daw_reference.h
@@ -85,6 +85,7 @@ namespace daw {
 		values_type result{ };
 		while( first != last ) {
 			result.push_back( daw::ref<value_type>( *first ) );
+			++first;
 		}
 		return result;
 	}
-- 
2.43.0


From d4a1293a0b40923f71d3ea138daa9b336d82a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 241/289] fix: daw_safe_pointer.h and daw_tracked_allocator.h
 did not include what they use

---
 include/daw/daw_safe_pointer.h      | 2 ++
 include/daw/daw_tracked_allocator.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index 053f827..efae26f 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -12,7 +12,9 @@
 
 #include "daw_data_end.h"
 
+#include <cassert>
 #include <cstddef>
+#include <cstdint>
 #include <daw/stdinc/compare_fn.h>
 #include <daw/stdinc/iterator_traits.h>
 #include <daw/stdinc/remove_cvref.h>
diff --git a/include/daw/daw_tracked_allocator.h b/include/daw/daw_tracked_allocator.h
index bd2e04c..2062521 100644
--- a/include/daw/daw_tracked_allocator.h
+++ b/include/daw/daw_tracked_allocator.h
@@ -11,6 +11,7 @@
 #pragma once
 
 #include "daw_attributes.h"
+#include "daw_move.h"
 #include "daw_safe_pointer.h"
 #include "traits/daw_traits_conditional.h"
 
-- 
2.43.0


From ebcd86db4da818a9ad515b79c288ad119e600ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 242/289] fix: dereferencing a safe_pointer always gave the
 first element of its range

---
 include/daw/daw_safe_pointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index efae26f..f2a8af1 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -170,7 +170,7 @@ namespace daw::memory {
 
 		[[nodiscard]] constexpr reference operator*( ) const noexcept {
 			DAW_SAFE_POINTER_ENSURE( *this );
-			return m_range.front( );
+			return *m_pointer;
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) const noexcept {
-- 
2.43.0


From c61c6a189f66f2285f6df1bc10211b8d8db93f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 243/289] fix: subtracting a past the end safe_pointer failed
 its range check

---
 include/daw/daw_safe_pointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index f2a8af1..84e56c8 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -58,7 +58,7 @@ namespace daw::memory {
 		[[nodiscard]] constexpr bool pointer_in_range( pointer p ) const {
 			return ( not get_base( ) and not p ) or
 			       ( std::less_equal<>{ }( get_base( ), p ) and
-			         std::less<>{ }( p, daw::data_end( m_range ) ) );
+			         std::less_equal<>{ }( p, daw::data_end( m_range ) ) );
 		}
 
 		[[nodiscard]] constexpr bool same_range( safe_pointer const &rhs ) const {
-- 
2.43.0


From f655af09bfce66974ba303f7d8fabdaad64c7bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 244/289] fix: comparing a safe_pointer to nullptr with == did
 not compile

---
 include/daw/daw_safe_pointer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index 84e56c8..241b0c9 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -403,13 +403,13 @@ namespace daw::memory {
 		}
 	};
 
-	template<typename T, typename D>
+	template<typename T>
 	constexpr bool operator==( std::nullptr_t,
 	                           safe_pointer<T> const &rhs ) noexcept {
 		return not rhs.get( );
 	}
 
-	template<typename T, typename D>
+	template<typename T>
 	constexpr bool operator==( safe_pointer<T> const &lhs,
 	                           std::nullptr_t ) noexcept {
 		return not lhs.get( );
-- 
2.43.0


From 6923437d1c60df81fe1fe2d85379388575f61f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0000
Subject: [PATCH 245/289] fix: converting a safe_pointer to an integer did not
 compile

---
 include/daw/daw_safe_pointer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index 241b0c9..b006c7e 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -148,7 +148,7 @@ namespace daw::memory {
 		}
 
 		template<typename Integer,
-		         std::enable_if<( std::is_integral_v<Integer> and
+		         std::enable_if_t<( std::is_integral_v<Integer> and
 		                          sizeof( Integer ) == sizeof( std::uintptr_t ) ),
 		                        std::nullptr_t> = nullptr>
 		[[nodiscard]] inline explicit operator Integer( ) const {
@@ -352,7 +352,7 @@ namespace daw::memory {
 		}
 
 		template<typename Integer,
-		         std::enable_if<( std::is_integral_v<Integer> and
+		         std::enable_if_t<( std::is_integral_v<Integer> and
 		                          sizeof( Integer ) == sizeof( std::uintptr_t ) ),
 		                        std::nullptr_t> = nullptr>
 		[[nodiscard]] inline explicit operator Integer( ) const {
-- 
2.43.0


From e729fb88d407a5faab70c4961247e78de3fb0791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:11 +0000
Subject: [PATCH 246/289] fix: tracked_allocator could not be compared, as
 containers need when moving

---
 include/daw/daw_tracked_allocator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/daw/daw_tracked_allocator.h b/include/daw/daw_tracked_allocator.h
index 2062521..212b98c 100644
--- a/include/daw/daw_tracked_allocator.h
+++ b/include/daw/daw_tracked_allocator.h
@@ -55,6 +55,11 @@ namespace daw::memory {
 	public:
 		tracked_allocator( ) = default;
 
+		[[nodiscard]] friend constexpr bool
+		operator==( tracked_allocator const &lhs, tracked_allocator const &rhs ) {
+			return lhs.alloc == rhs.alloc;
+		}
+
 		constexpr pointer allocate( size_type n ) {
 			value_type *ptr = std::allocator_traits<Allocator>::allocate( alloc, n );
 			return pointer( ptr, n );
-- 
2.43.0


From f61d8b4cc245b7ee10957d825746efef3e2f4129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:58 +0000
Subject: [PATCH 247/289] fix: a safe_pointer did not convert to one of const,
 so containers using tracked_allocator had no const iterators

---
 include/daw/daw_safe_pointer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index b006c7e..c55c1ff 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -158,7 +158,8 @@ namespace daw::memory {
 
 		template<typename U, std::enable_if_t<std::is_constructible_v<U *, pointer>,
 		                                      std::nullptr_t> = nullptr>
-		inline explicit operator safe_pointer<U>( ) const {
+		inline explicit( not std::is_convertible_v<pointer, U *> )
+		operator safe_pointer<U>( ) const {
 			U *p = static_cast<U *>( m_pointer );
 			if constexpr( std::is_same_v<void, std::remove_const_t<U>> ) {
 				return safe_pointer<U>( p );
@@ -362,7 +363,8 @@ namespace daw::memory {
 
 		template<typename U, std::enable_if_t<std::is_constructible_v<U *, pointer>,
 		                                      std::nullptr_t> = nullptr>
-		inline explicit operator safe_pointer<U>( ) const {
+		inline explicit( not std::is_convertible_v<pointer, U *> )
+		operator safe_pointer<U>( ) const {
 			return safe_pointer<U>( static_cast<U *>( m_pointer ) );
 		}
 
-- 
2.43.0


From 38bf2980a504e83aef0a4a742318d1d83c02a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:58 +0000
Subject: [PATCH 248/289] fix: inserting one of its own values into a keep_n
 lost it

---
 include/daw/daw_keep_n.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_keep_n.h b/include/daw/daw_keep_n.h
index 818a6c6..0e34805 100644
--- a/include/daw/daw_keep_n.h
+++ b/include/daw/daw_keep_n.h
@@ -81,15 +81,8 @@ namespace daw {
 		}
 
 		constexpr void insert( value_type const &v ) {
-			for( size_t n = 0; n < MaxItems; ++n ) {
-				if( m_pred( v, m_values[n] ) ) {
-					for( size_t m = ( MaxItems - 1U ); m > n; --m ) {
-						m_values[m] = std::move( m_values[m - 1] );
-					}
-					m_values[n] = v;
-					break;
-				}
-			}
+			// v can refer to one of the values that has to make room
+			insert( value_type( v ) );
 		}
 
 		constexpr void insert( value_type &&v ) {
-- 
2.43.0


From 25bfd35a7748a975c5685b650511ff5748ea267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:32 +0000
Subject: [PATCH 249/289] fix: math::round, floor and ceil were wrong for
 negative and for whole values

---
 include/daw/daw_math.h | 43 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index b2ca9b4..202db02 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -43,12 +43,43 @@ namespace daw::math {
 	inline constexpr T const PI = T(
 	  3.14159265358979323846264338327950288419716939937510582097494459230781640628620899 );
 
+	namespace impl {
+		// The integer part, toward zero, of d and the fraction left over decide
+		// the rounding.  Adding to d would itself round.
+		template<typename Result, typename Float>
+		[[nodiscard]] constexpr Result round_half_away( Float d ) noexcept {
+			auto const whole = static_cast<Result>( d );
+			auto const fraction = d - static_cast<Float>( whole );
+			if( fraction >= static_cast<Float>( 0.5 ) ) {
+				return static_cast<Result>( whole + 1 );
+			}
+			if( fraction <= static_cast<Float>( -0.5 ) ) {
+				return static_cast<Result>( whole - 1 );
+			}
+			return whole;
+		}
+
+		template<typename Result, typename Float>
+		[[nodiscard]] constexpr Result floor_to( Float d ) noexcept {
+			auto const whole = static_cast<Result>( d );
+			return static_cast<Float>( whole ) > d ? static_cast<Result>( whole - 1 )
+			                                       : whole;
+		}
+
+		template<typename Result, typename Float>
+		[[nodiscard]] constexpr Result ceil_to( Float d ) noexcept {
+			auto const whole = static_cast<Result>( d );
+			return static_cast<Float>( whole ) < d ? static_cast<Result>( whole + 1 )
+			                                       : whole;
+		}
+	} // namespace impl
+
 	template<typename Result = int_for_float_t<float>>
 	[[nodiscard]] constexpr Result round( float d ) noexcept {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 0.5 );
+		return impl::round_half_away<Result>( d );
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -56,7 +87,7 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 0.5 );
+		return impl::round_half_away<Result>( d );
 	}
 
 	template<typename Result = int_for_float_t<float>>
@@ -64,7 +95,7 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d );
+		return impl::floor_to<Result>( d );
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -72,7 +103,7 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a doubleing point type" );
-		return static_cast<Result>( d );
+		return impl::floor_to<Result>( d );
 	}
 
 	template<typename Result = int_for_float_t<float>>
@@ -80,7 +111,7 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 1.0 );
+		return impl::ceil_to<Result>( d );
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -88,7 +119,7 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a doubleing point type" );
-		return static_cast<Result>( d + 1.0 );
+		return impl::ceil_to<Result>( d );
 	}
 
 	template<typename T>
-- 
2.43.0


From 958bc9a82f73c3e289917e2983a662e863bb8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 250/289] fix: math::pow squared its base exponent times

---
 include/daw/daw_math.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 202db02..ecfc540 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -203,10 +203,11 @@ namespace daw::math {
 	namespace impl {
 		template<typename T>
 		[[nodiscard]] constexpr T pow_impl( T base, size_t exponent ) noexcept {
-			for( size_t k = 0; k < exponent; ++k ) {
-				base *= base;
+			T result = base;
+			for( size_t k = 1; k < exponent; ++k ) {
+				result *= base;
 			}
-			return base;
+			return result;
 		}
 
 	} // namespace impl
-- 
2.43.0


From 5708ab1e5bf4d01176868679b9e10dda5e437202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 251/289] fix: math::abs of the lowest value of types narrower
 than intmax_t overflowed

---
 include/daw/daw_math.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index ecfc540..848662a 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -172,14 +172,9 @@ namespace daw::math {
 	                                     std::is_signed_v<SignedInteger>>,
 	                          std::nullptr_t> = nullptr>
 	[[nodiscard]] constexpr Result abs( SignedInteger v ) noexcept {
-		// This accounts for when negating the number is out of range
-		if( static_cast<intmax_t>( v ) == lowest_value<intmax_t> ) {
-			return pow2<Result>( bsizeof<intmax_t> - 1 );
-		}
-		if( v < 0 ) {
-			v = -v;
-		}
-		return static_cast<Result>( v );
+		// Negating as unsigned accounts for when negating the number is out of range
+		auto const u = static_cast<uintmax_t>( v );
+		return static_cast<Result>( v < 0 ? uintmax_t{ 0 } - u : u );
 	}
 
 	template<typename UnsignedInteger,
-- 
2.43.0


From c40224a82f21a7d041f11d3efc9d4ca46be20fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 252/289] fix: cxmath::is_even was true for odd numbers

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index b500135..a296fd6 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1022,7 +1022,7 @@ namespace daw::cxmath {
 	                                            std::nullptr_t> = nullptr>
 	[[nodiscard]] inline constexpr bool is_even( Integer i ) noexcept {
 		return ( std::make_unsigned_t<daw::remove_cvref_t<Integer>>( i ) & 1U ) ==
-		       1U;
+		       0U;
 	}
 
 	template<typename Real, std::enable_if_t<std::is_floating_point_v<Real>,
-- 
2.43.0


From 29a023866cd06057ec7bee9980ed4b349c2f937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 253/289] fix: set_exponent to 0 lost the sign and the
 significand

---
 include/daw/daw_cxmath.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index a296fd6..5f5998a 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -185,9 +185,6 @@ namespace daw::cxmath {
 		  std::enable_if_t<is_matching_v<Real, UInt>, std::nullptr_t> = nullptr>
 		[[nodiscard]] inline constexpr UInt set_exponent_impl( UInt dint,
 		                                                       std::int32_t exp ) {
-			if( exp == 0 ) {
-				return DAW_BIT_CAST( UInt, Real{ 1.0 } );
-			}
 			exp += exponent_bias_v<Real>;
 			UInt new_exp = static_cast<UInt>( exp ) << exponent_start_bit_v<Real>;
 			dint &= not_exponent_mask_v<Real>;
-- 
2.43.0


From c139dd45c0a0bb10f35b23ee45f3b985308d5932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 254/289] fix: adjust_exponent did not compile

---
 include/daw/daw_cxmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 5f5998a..7b013e3 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1049,7 +1049,7 @@ namespace daw::cxmath {
 		template<
 		  typename Real, typename UInt,
 		  std::enable_if_t<is_matching_v<Real, UInt>, std::nullptr_t> = nullptr>
-		constexpr Real adjust_exponent_impl( UInt u, std::int32_t exponent ) {
+		constexpr UInt adjust_exponent_impl( UInt u, std::int32_t exponent ) {
 			auto current_expoent = get_exponent_impl<Real>( u );
 			current_expoent += exponent;
 			return set_exponent_impl<Real>( u, current_expoent );
@@ -1058,7 +1058,7 @@ namespace daw::cxmath {
 	template<typename Real, std::enable_if_t<std::is_floating_point_v<Real>,
 	                                         std::nullptr_t> = nullptr>
 	constexpr Real adjust_exponent( Real r, std::int32_t exponent ) {
-		auto result = cxmath_impl::adjust_exponent_impl(
+		auto result = cxmath_impl::adjust_exponent_impl<Real>(
 		  DAW_BIT_CAST( cxmath_impl::unsigned_float_type_t<Real>, r ), exponent );
 		return DAW_BIT_CAST( Real, result );
 	}
-- 
2.43.0


From a800a731147ac117ae7c5fdf3d6f4cd726f6ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 255/289] fix: counting the leading zeroes of a 128 bit integer
 recursed forever

---
 include/daw/daw_cxmath.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 7b013e3..22e15de 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -542,14 +542,14 @@ namespace daw::cxmath {
 #endif
 #if defined( DAW_HAS_INT128 )
 	[[nodiscard]] DAW_ATTRIB_FLATTEN constexpr std::uint32_t
-	count_leading_zeros( daw::uint128_t v ) {
+	count_leading_zeroes( daw::uint128_t v ) {
 		if( v == 0 ) {
 			return 128U;
 		}
 		auto const h =
-		  count_leading_zeros( static_cast<std::uint64_t>( v >> 64ULL ) );
+		  count_leading_zeroes( static_cast<std::uint64_t>( v >> 64ULL ) );
 		if( h == 64U ) {
-			return count_leading_zeros( static_cast<std::uint64_t>( v ) );
+			return 64U + count_leading_zeroes( static_cast<std::uint64_t>( v ) );
 		}
 		return h;
 	}
-- 
2.43.0


From 03a60296e080699f2e33504fb9905e2e50164339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 256/289] fix: popcount of negative integers narrower than int
 counted the bits of an int

---
 include/daw/daw_cxmath.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 22e15de..770cb00 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1303,7 +1303,10 @@ namespace daw::cxmath {
 		static_assert( std::is_integral_v<Integer>,
 		               "Only integer types are allowed" );
 		if constexpr( sizeof( Integer ) <= sizeof( int ) ) {
-			return __builtin_popcount( static_cast<unsigned>( i ) );
+			// Without the bits that extending the sign adds
+			constexpr auto mask = static_cast<unsigned>( -1 ) >>
+			                      ( 8U * ( sizeof( int ) - sizeof( Integer ) ) );
+			return __builtin_popcount( static_cast<unsigned>( i ) & mask );
 		} else if constexpr( sizeof( Integer ) == sizeof( long ) ) {
 			return __builtin_popcountl( static_cast<unsigned long>( i ) );
 #if defined( DAW_HAS_INT128 )
@@ -1325,7 +1328,10 @@ namespace daw::cxmath {
 	DAW_ATTRIB_INLINE int constexpr popcount( Integer i ) {
 		auto ui = [i] {
 			if constexpr( sizeof( Integer ) <= sizeof( int ) ) {
-				return static_cast<unsigned>( i );
+				// Without the bits that extending the sign adds
+				constexpr auto mask = static_cast<unsigned>( -1 ) >>
+				                      ( 8U * ( sizeof( int ) - sizeof( Integer ) ) );
+				return static_cast<unsigned>( i ) & mask;
 			} else if constexpr( sizeof( Integer ) == sizeof( long ) ) {
 				return static_cast<unsigned long>( i );
 #if defined( DAW_HAS_INT128 )
-- 
2.43.0


From 13da0b34c860dfb2645d5275e6642de7a088652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:13 +0000
Subject: [PATCH 257/289] fix: subtracting a larger unsigned natural_t wrapped,
 instead of throwing invalid_natural_number

---
 include/daw/daw_natural.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 6d0a803..f96d685 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -69,7 +69,7 @@ namespace daw {
 		constexpr natural_t &operator-=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_subtraction_operator_v<T>,
 			               "Subtraction operator is not valid" );
-			m_value = validate( m_value - rhs.m_value );
+			*this = *this - rhs;
 			return *this;
 		}
 
@@ -144,6 +144,9 @@ namespace daw {
 			static_assert( daw::traits::has_subtraction_operator_v<T, U>,
 			               "Subtraction operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) - std::declval<U>( ) );
+			// Unsigned differences wrap, so the difference cannot be validated
+			daw::exception::precondition_check<invalid_natural_number>(
+			  daw::cxmath::cmp_greater( lhs.value( ), rhs.value( ) ) );
 			return natural_t<result_t>{ static_cast<T>( lhs ) -
 			                            static_cast<U>( rhs ) };
 		}
-- 
2.43.0


From 06bec2c33b64199477359b8ebe0e0636e4b7e787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:13 +0000
Subject: [PATCH 258/289] fix: a quotient or remainder of natural_t could be
 zero

---
 include/daw/daw_natural.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index f96d685..87ae205 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -82,18 +82,18 @@ namespace daw {
 		}
 
 		template<typename U>
-		constexpr natural_t &operator/=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator/=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T>,
 			               "Division operator is not valid" );
-			m_value /= rhs.m_value;
+			m_value = validate( m_value / rhs.m_value );
 			return *this;
 		}
 
 		template<typename U>
-		constexpr natural_t &operator%=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator%=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T>,
 			               "Modulus operator is not valid" );
-			m_value %= rhs.m_value;
+			m_value = validate( m_value % rhs.m_value );
 			return *this;
 		}
 
@@ -164,24 +164,22 @@ namespace daw {
 
 		template<typename U>
 		friend constexpr auto operator/( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T, U>,
 			               "Division operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) / std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) / static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) /
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
 		friend constexpr auto operator%( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T, U>,
 			               "Modulus operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) % std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) % static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) %
+			                            static_cast<U>( rhs ) };
 		}
 	};
 
-- 
2.43.0


From a4a111ef8754e8e20396ec1d85643d2e6cff0a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:36 +0000
Subject: [PATCH 259/289] fix: operators of natural_t with another type of
 natural_t did not compile

---
 include/daw/daw_natural.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 87ae205..f95be89 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -61,7 +61,7 @@ namespace daw {
 		constexpr natural_t &operator+=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_addition_operator_v<T>,
 			               "Addition operator is not valid" );
-			m_value += rhs.m_value;
+			m_value += rhs.value( );
 			return *this;
 		}
 
@@ -77,7 +77,7 @@ namespace daw {
 		constexpr natural_t &operator*=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_multiplication_operator_v<T>,
 			               "Multiplication operator is not valid" );
-			m_value *= rhs.m_value;
+			m_value *= rhs.value( );
 			return *this;
 		}
 
@@ -85,7 +85,7 @@ namespace daw {
 		constexpr natural_t &operator/=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T>,
 			               "Division operator is not valid" );
-			m_value = validate( m_value / rhs.m_value );
+			m_value = validate( m_value / rhs.value( ) );
 			return *this;
 		}
 
@@ -93,7 +93,7 @@ namespace daw {
 		constexpr natural_t &operator%=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T>,
 			               "Modulus operator is not valid" );
-			m_value = validate( m_value % rhs.m_value );
+			m_value = validate( m_value % rhs.value( ) );
 			return *this;
 		}
 
@@ -133,9 +133,8 @@ namespace daw {
 			static_assert( daw::traits::has_addition_operator_v<T, U>,
 			               "Addition operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) + std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) + static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) +
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
@@ -157,9 +156,8 @@ namespace daw {
 			static_assert( daw::traits::has_multiplication_operator_v<T, U>,
 			               "Multiplication operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) * std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) * static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) *
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
-- 
2.43.0


From a8d2f397e3ddf793c3f93587cea175e3704ff2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:36 +0000
Subject: [PATCH 260/289] fix: copy_sign of integers did not compile

---
 include/daw/daw_cxmath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 770cb00..5b901f1 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1139,7 +1139,8 @@ namespace daw::cxmath {
 	         std::enable_if_t<
 	           ( (daw::is_integral_v<Number> and daw::is_integral_v<Number2>) or
 	             not( std::is_floating_point_v<Number> and
-	                  std::is_floating_point_v<Number2> ) )> = nullptr
+	                  std::is_floating_point_v<Number2> ) ),
+	           std::nullptr_t> = nullptr
 #endif
 	         >
 	[[nodiscard]] constexpr Number copy_sign( Number x, Number2 s ) noexcept {
-- 
2.43.0


From 55aa3186a032279faad9bbc924a233dfd92c0240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:36 +0000
Subject: [PATCH 261/289] fix: cxmath::sqrt of negative numbers was not NaN

---
 include/daw/daw_cxmath.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 5b901f1..e22d890 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1112,12 +1112,15 @@ namespace daw::cxmath {
 		case fp_classes::nan:
 			return std::numeric_limits<Real>::quiet_NaN( );
 		case fp_classes::infinity:
-			return std::numeric_limits<Real>::infinity( );
+			return r > Real{ 0 } ? r : std::numeric_limits<Real>::quiet_NaN( );
 		case fp_classes::subnormal:
 		case fp_classes::normal:
 		default:
 			break;
 		}
+		if( r < Real{ 0 } ) {
+			return std::numeric_limits<Real>::quiet_NaN( );
+		}
 		return sqrt_fast( r );
 #else
 		if( DAW_UNLIKELY( r <= Real{ 0 } ) ) {
-- 
2.43.0


From 0438b2771199d511ed7d7e27be378dc9abb3ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:36 +0000
Subject: [PATCH 262/289] fix: cxmath::pow2 of the two smallest normal
 exponents was 0

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index e22d890..f5a4625 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -777,7 +777,7 @@ namespace daw::cxmath {
 #if defined( DAW_CX_BIT_CAST )
 		if( exp >= daw::numeric_limits<Real>::max_exponent ) {
 			return daw::numeric_limits<Real>::infinity( );
-		} else if( exp <= daw::numeric_limits<Real>::min_exponent ) {
+		} else if( exp < daw::numeric_limits<Real>::min_exponent - 1 ) {
 			return Real{ 0 };
 		}
 		auto result = cxmath_impl::set_exponent_impl<Real>(
-- 
2.43.0


From 3538776ee44b4fc3a0043399f64483b7c761d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:57 +0000
Subject: [PATCH 263/289] fix: cxmath::ldexp with exponents beyond those of
 normal doubles returned garbage

---
 include/daw/daw_cxmath.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index f5a4625..d60ff25 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -982,6 +982,22 @@ namespace daw::cxmath {
 #if defined( DAW_CX_BIT_CAST )
 	[[nodiscard]] constexpr double ldexp( double d,
 	                                      std::int32_t exponent ) noexcept {
+		// Only the exponents of normal doubles can be set
+		while( exponent > 1023 ) {
+			if( d == 0.0 or not( d - d == 0.0 ) ) {
+				return d;
+			}
+			d *= 0x1p1023;
+			exponent -= 1023;
+		}
+		while( exponent < -1022 ) {
+			if( d == 0.0 ) {
+				return d;
+			}
+			// Leave enough bits for only the last multiply to round
+			d *= 0x1p-969;
+			exponent += 969;
+		}
 		daw::UInt64 dint = DAW_BIT_CAST( daw::UInt64, 2.0 );
 		exponent += 1023;
 		daw::UInt64 new_exp = static_cast<daw::UInt64>( exponent );
-- 
2.43.0


From f9d1a791d5c7acf7e692c161754e8626c6e3baa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:25 +0000
Subject: [PATCH 264/289] fix: math::abs of an unsigned variable, and so
 factorial of unsigned, did not compile

---
 include/daw/daw_math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 848662a..4abb02f 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -181,8 +181,8 @@ namespace daw::math {
 	         std::enable_if_t<all_true_v<std::is_integral_v<UnsignedInteger>,
 	                                     not std::is_signed_v<UnsignedInteger>>,
 	                          std::nullptr_t> = nullptr>
-	[[nodiscard]] constexpr UnsignedInteger abs( UnsignedInteger &&v ) noexcept {
-		return DAW_FWD( v );
+	[[nodiscard]] constexpr UnsignedInteger abs( UnsignedInteger v ) noexcept {
+		return v;
 	}
 
 	template<typename T>
-- 
2.43.0


From ad494b6434e0dc541dd8b2b583986154a8055500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:25 +0000
Subject: [PATCH 265/289] fix: cxmath::sqrt of subnormal numbers was off by
 many orders of magnitude

---
 include/daw/daw_cxmath.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index d60ff25..493c0a2 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1130,6 +1130,11 @@ namespace daw::cxmath {
 		case fp_classes::infinity:
 			return r > Real{ 0 } ? r : std::numeric_limits<Real>::quiet_NaN( );
 		case fp_classes::subnormal:
+			if( r > Real{ 0 } ) {
+				// sqrt_fast needs the exponent of a normal number
+				return sqrt_fast( r * pow2<Real>( 64 ) ) * pow2<Real>( -32 );
+			}
+			break;
 		case fp_classes::normal:
 		default:
 			break;
-- 
2.43.0


From ca154d4634744b6eccf5aa908ed75c20c221994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:38 +0000
Subject: [PATCH 266/289] fix: atomic_wait_if did not synchronize with the
 store that satisfied its predicate

---
 include/daw/daw_atomic_wait.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_atomic_wait.h b/include/daw/daw_atomic_wait.h
index ef6387e..a6a077a 100644
--- a/include/daw/daw_atomic_wait.h
+++ b/include/daw/daw_atomic_wait.h
@@ -176,7 +176,7 @@ namespace daw {
 		auto const &const_current = current;
 		while( not predicate( const_current ) ) {
 			std::atomic_wait_explicit( object, current, order );
-			current = std::atomic_load_explicit( object, std::memory_order_relaxed );
+			current = std::atomic_load_explicit( object, order );
 		}
 	}
 
-- 
2.43.0


From bdd6d4fa925328a8930a1bf274c0b3bfcbd9b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:14 +0000
Subject: [PATCH 267/289] fix: vprintln did not compile and vprint refused
 temporaries

---
 include/daw/daw_print.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_print.h b/include/daw/daw_print.h
index 2830d10..dc2ffe9 100644
--- a/include/daw/daw_print.h
+++ b/include/daw/daw_print.h
@@ -28,7 +28,7 @@ namespace daw {
 	DAW_ATTRIB_NOINLINE void vprint( FILE *fout, std::string_view fmt,
 	                                 Args &&...args ) {
 		auto const r =
-		  std::vformat( fmt, std::make_format_args( DAW_FWD( args )... ) );
+		  std::vformat( fmt, std::make_format_args( args... ) );
 		(void)std::fwrite( std::data( r ), 1, r.size( ), fout );
 	}
 
@@ -54,7 +54,7 @@ namespace daw {
 	DAW_ATTRIB_NOINLINE void vprintln( FILE *f, std::string fmt,
 	                                   Args &&...args ) {
 		fmt += '\n';
-		daw::print( f, fmt, DAW_FWD( args )... );
+		daw::vprint( f, fmt, DAW_FWD( args )... );
 	}
 
 	template<typename... Args>
@@ -67,7 +67,7 @@ namespace daw {
 	template<typename... Args>
 	DAW_ATTRIB_NOINLINE void vprintln( std::string fmt, Args &&...args ) {
 		fmt += '\n';
-		daw::print( stdout, fmt, DAW_FWD( args )... );
+		daw::vprint( stdout, fmt, DAW_FWD( args )... );
 	}
 
 	DAW_ATTRIB_INLINE void println( ) {
-- 
2.43.0


From 58e8273f2bbc4a4a9397f19bfb93c07b433cb8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:14 +0000
Subject: [PATCH 268/289] fix: stream operators of the UInt types were defined
 once per translation unit

---
 include/daw/daw_uint_buffer_ios.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_uint_buffer_ios.h b/include/daw/daw_uint_buffer_ios.h
index 5d13122..847c015 100644
--- a/include/daw/daw_uint_buffer_ios.h
+++ b/include/daw/daw_uint_buffer_ios.h
@@ -14,22 +14,22 @@
 #include <iostream>
 
 namespace daw {
-	std::ostream &operator<<( std::ostream &os, UInt8 rhs ) {
+	inline std::ostream &operator<<( std::ostream &os, UInt8 rhs ) {
 		os << static_cast<std::uint32_t>( rhs );
 		return os;
 	}
 
-	std::ostream &operator<<( std::ostream &os, UInt16 rhs ) {
+	inline std::ostream &operator<<( std::ostream &os, UInt16 rhs ) {
 		os << static_cast<std::uint32_t>( rhs );
 		return os;
 	}
 
-	std::ostream &operator<<( std::ostream &os, UInt32 rhs ) {
+	inline std::ostream &operator<<( std::ostream &os, UInt32 rhs ) {
 		os << static_cast<std::uint32_t>( rhs );
 		return os;
 	}
 
-	std::ostream &operator<<( std::ostream &os, UInt64 rhs ) {
+	inline std::ostream &operator<<( std::ostream &os, UInt64 rhs ) {
 		os << static_cast<std::uint64_t>( rhs );
 		return os;
 	}
-- 
2.43.0


From 3eb01e0f45b191df5796ee119d32b39f549bb0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:43 +0000
Subject: [PATCH 269/289] fix: fmt_range and fmt_tuple aborted on a format spec
 with an argument index

---
 include/daw/daw_format_range.h | 14 ++++++++------
 include/daw/daw_format_tuple.h | 10 ++++++----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/daw/daw_format_range.h b/include/daw/daw_format_range.h
index ff5a6cf..992790b 100644
--- a/include/daw/daw_format_range.h
+++ b/include/daw/daw_format_range.h
@@ -17,6 +17,7 @@
 
 #include <cassert>
 #include <format>
+#include <string>
 #include <string_view>
 
 namespace daw {
@@ -59,6 +60,7 @@ namespace daw {
 namespace std {
 	template<daw::Range R, typename CharT>
 	struct formatter<daw::fmt_range<R, CharT>, CharT> {
+		// element format spec, without the leading "{:" but with the closing brace
 		daw::string_view flags = { };
 
 		formatter( ) = default;
@@ -70,7 +72,7 @@ namespace std {
 			auto const ctx_sz = static_cast<std::size_t>( std::distance( std::begin( ctx ), std::end( ctx ) ) );
 			auto f = daw::basic_string_view( ctx_b, ctx_sz );
 			if( ctx.begin( ) == ctx.end( ) or *ctx.begin( ) == '}' ) {
-				flags = "{}";
+				flags = "}";
 				return ctx.begin( );
 			}
 			int brace_count = 1;
@@ -104,8 +106,6 @@ namespace std {
 			}
 			auto const sz = std::distance( first, last );
 			flags = daw::string_view( first, static_cast<std::size_t>( sz ) );
-			flags.expand_prefix( 2 );
-			assert( flags.front( ) == '{' );
 			return std::next( ctx.begin( ), sz - 1 );
 			//			return ctx.end( ) - 1;
 		}
@@ -121,6 +121,8 @@ namespace std {
 				  std::begin( c.container ), std::end( c.container ), ctx.out( ) );
 				return out;
 			} else {
+				auto const element_fmt =
+				  std::string( "{:" ).append( flags.data( ), flags.size( ) );
 				auto out = ctx.out( );
 				out = std::copy( std::data( c.Left ), daw::data_end( c.Left ), out );
 				bool is_first = true;
@@ -134,14 +136,14 @@ namespace std {
 					if constexpr( daw::Range<daw::range_value_t<R>> ) {
 						auto t = daw::fmt_range( v );
 						out = std::vformat_to(
-						  out, std::string_view( flags ), std::make_format_args( t ) );
+						  out, element_fmt, std::make_format_args( t ) );
 					} else if constexpr( daw::is_tuple_like_v<daw::range_value_t<R>> ) {
 						auto t = daw::fmt_tuple( v );
 						out = std::vformat_to(
-						  out, std::string_view( flags ), std::make_format_args( t ) );
+						  out, element_fmt, std::make_format_args( t ) );
 					} else {
 						out = std::vformat_to(
-						  out, std::string_view( flags ), std::make_format_args( v ) );
+						  out, element_fmt, std::make_format_args( v ) );
 					}
 				}
 				out = std::copy( std::data( c.Right ), daw::data_end( c.Right ), out );
diff --git a/include/daw/daw_format_tuple.h b/include/daw/daw_format_tuple.h
index 7c8e2b2..5ffd80d 100644
--- a/include/daw/daw_format_tuple.h
+++ b/include/daw/daw_format_tuple.h
@@ -14,6 +14,7 @@
 
 #include <cassert>
 #include <format>
+#include <string>
 #include <string_view>
 
 namespace daw {
@@ -53,6 +54,7 @@ namespace daw {
 namespace std {
 	template<typename T, typename CharT>
 	struct formatter<daw::fmt_tuple<T, CharT>, CharT> {
+		// element format spec, without the leading "{:" but with the closing brace
 		daw::string_view flags = { };
 
 		formatter( ) = default;
@@ -63,7 +65,7 @@ namespace std {
 			auto const ctx_sz = static_cast<std::size_t>( std::distance( std::begin( ctx ), std::end( ctx ) ) );
 			auto f = daw::basic_string_view( ctx_b, ctx_sz );
 			if( ctx.begin( ) == ctx.end( ) or *ctx.begin( ) == '}' ) {
-				flags = "{}";
+				flags = "}";
 				return ctx.begin( );
 			}
 			int brace_count = 1;
@@ -97,8 +99,6 @@ namespace std {
 			}
 			flags =
 			  daw::string_view( first, last ); // static_cast<std::size_t>( sz ) );
-			flags.expand_prefix( 2 );
-			assert( flags.front( ) == '{' );
 			auto const sz = last - first;
 			return ctx.begin( ) + sz - 1;
 			//			return ctx.end( ) - 1;
@@ -106,6 +106,8 @@ namespace std {
 
 		template<typename Ctx>
 		Ctx::iterator format( daw::fmt_tuple<T, CharT> c, Ctx &ctx ) const {
+			auto const element_fmt =
+			  std::string( "{:" ).append( flags.data( ), flags.size( ) );
 			auto out = ctx.out( );
 			out = std::copy( std::data( c.Left ), daw::data_end( c.Left ), out );
 			bool is_first = true;
@@ -117,7 +119,7 @@ namespace std {
 					  out = std::copy( std::data( c.Separator ),
 					                   daw::data_end( c.Separator ), out );
 				  }
-				  out = std::vformat_to( out, std::string_view( flags ),
+				  out = std::vformat_to( out, element_fmt,
 				                         std::make_format_args( get<Idx>( c.value ) ) );
 			  };
 			[&]<std::size_t... Is>( std::index_sequence<Is...> ) {
-- 
2.43.0


From 49ec0d691dbfb6c97bfb86b6b2e78b35d4930e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:48 +0000
Subject: [PATCH 270/289] fix: fmt_range ignored the format spec for text
 elements

---
 include/daw/daw_format_range.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_format_range.h b/include/daw/daw_format_range.h
index 992790b..fb598ba 100644
--- a/include/daw/daw_format_range.h
+++ b/include/daw/daw_format_range.h
@@ -114,8 +114,19 @@ namespace std {
 		constexpr typename Ctx::iterator format( daw::fmt_range<R, CharT> c,
 		                                         Ctx &ctx ) const {
 			using value_t = daw::range_value_t<R>;
-			if constexpr( std::is_same_v<daw::formatter_impl::DefaultCharT,
-			                             value_t> ) {
+			if constexpr( requires {
+				              std::string_view( std::data( c.container ),
+				                                std::size( c.container ) );
+			              } ) {
+				// text is a single element, the format spec applies to all of it
+				auto const text =
+				  std::string_view( std::data( c.container ), std::size( c.container ) );
+				return std::vformat_to(
+				  ctx.out( ),
+				  std::string( "{:" ).append( flags.data( ), flags.size( ) ),
+				  std::make_format_args( text ) );
+			} else if constexpr( std::is_same_v<daw::formatter_impl::DefaultCharT,
+			                                    value_t> ) {
 				// format as string
 				auto out = std::copy(
 				  std::begin( c.container ), std::end( c.container ), ctx.out( ) );
-- 
2.43.0


From 62b258c5dc6ec4f6a0cd82a4e4a27b1ed28141c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:16 +0000
Subject: [PATCH 271/289] fix: fixed_cast of an object did not compile

---
 include/daw/daw_alias_cast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_alias_cast.h b/include/daw/daw_alias_cast.h
index 37421c8..50f16a9 100644
--- a/include/daw/daw_alias_cast.h
+++ b/include/daw/daw_alias_cast.h
@@ -30,7 +30,7 @@ namespace daw {
 			return reinterpret_cast<To *>( ptr );
 		}
 		template<typename To, typename From>
-		constexpr auto *operator( )( From &ptr ) const {
+		constexpr auto &operator( )( From &ptr ) const {
 			static_assert( only_check_to_type or
 			               ( std::is_same_v<From, AllowedTypes> or ... ) );
 			static_assert( ( std::is_same_v<To, AllowedTypes> or ... ) );
-- 
2.43.0


From eeb42954aff84758802289b965c5cc50fa1bf85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:16 +0000
Subject: [PATCH 272/289] fix: uninitialized_storage::raw_data did not compile

---
 include/daw/daw_uninitialized_storage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_uninitialized_storage.h b/include/daw/daw_uninitialized_storage.h
index 17363d8..c2662ea 100644
--- a/include/daw/daw_uninitialized_storage.h
+++ b/include/daw/daw_uninitialized_storage.h
@@ -90,7 +90,11 @@ namespace daw {
 			ptr( )->~T( );
 		}
 
-		constexpr std::byte *raw_data( ) const noexcept {
+		constexpr std::byte *raw_data( ) noexcept {
+			return m_data;
+		}
+
+		[[nodiscard]] constexpr std::byte const *raw_data( ) const noexcept {
 			return m_data;
 		}
 	};
-- 
2.43.0


From cf4dee9dc0d78ce956fb5af874ed92177ce9f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:17 +0000
Subject: [PATCH 273/289] fix: several headers did not compile unless others
 were included first

---
 include/daw/daw_forward_lvalue.h   | 1 +
 include/daw/pipelines/elements.h   | 2 ++
 include/daw/pipelines/filter.h     | 1 +
 include/daw/pipelines/foreach.h    | 1 +
 include/daw/pipelines/map.h        | 1 +
 include/daw/pipelines/numeric.h    | 1 +
 include/daw/pipelines/predicates.h | 1 +
 include/daw/pipelines/split.h      | 1 +
 include/daw/pipelines/swizzle.h    | 1 +
 include/daw/pipelines/to.h         | 2 ++
 include/daw/pipelines/unique.h     | 2 ++
 include/daw/pipelines/zip.h        | 1 +
 include/daw/split_buffer.h         | 1 +
 include/daw/traits/daw_formatter.h | 1 +
 include/daw/vector_algorithm.h     | 1 +
 15 files changed, 18 insertions(+)

diff --git a/include/daw/daw_forward_lvalue.h b/include/daw/daw_forward_lvalue.h
index 7f118b8..2396f0a 100644
--- a/include/daw/daw_forward_lvalue.h
+++ b/include/daw/daw_forward_lvalue.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_attributes.h"
 #include <utility>
 
 namespace daw {
diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 72b27a9..2d4fbfa 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include "daw/pipelines/range_base.h"
+#include "daw/daw_attributes.h"
 #include "daw/cpp_17.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_move.h"
diff --git a/include/daw/pipelines/filter.h b/include/daw/pipelines/filter.h
index 656d5ea..433c558 100644
--- a/include/daw/pipelines/filter.h
+++ b/include/daw/pipelines/filter.h
@@ -23,6 +23,7 @@
 #include <iterator>
 #include <optional>
 #include <utility>
+#include <functional>
 
 namespace daw::pipelines {
 	template<typename Iterator, typename Filter,
diff --git a/include/daw/pipelines/foreach.h b/include/daw/pipelines/foreach.h
index f119982..2bd50be 100644
--- a/include/daw/pipelines/foreach.h
+++ b/include/daw/pipelines/foreach.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_attributes.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_move.h"
 #include "daw/pipelines/pipeline_traits.h"
diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index 47953b8..17d9b61 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_attributes.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_move.h"
 #include "daw/daw_tuple_forward.h"
diff --git a/include/daw/pipelines/numeric.h b/include/daw/pipelines/numeric.h
index b92e0ba..97370e0 100644
--- a/include/daw/pipelines/numeric.h
+++ b/include/daw/pipelines/numeric.h
@@ -15,6 +15,7 @@
 
 #include <cstddef>
 #include <iterator>
+#include <functional>
 
 namespace daw::pipelines {
 	namespace pimpl {
diff --git a/include/daw/pipelines/predicates.h b/include/daw/pipelines/predicates.h
index bcb2f48..f72cb9a 100644
--- a/include/daw/pipelines/predicates.h
+++ b/include/daw/pipelines/predicates.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_attributes.h"
 #include "daw/daw_cpp_feature_check.h"
 #include "daw/daw_move.h"
 #include "daw/daw_remove_cvref.h"
diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index fcd2d98..4fbe0b7 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_string_view.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/pipelines/find.h"
 #include "daw/pipelines/range.h"
diff --git a/include/daw/pipelines/swizzle.h b/include/daw/pipelines/swizzle.h
index ae32b29..d946e80 100644
--- a/include/daw/pipelines/swizzle.h
+++ b/include/daw/pipelines/swizzle.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/pipelines/map.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_tuple_forward.h"
 #include "zip.h"
diff --git a/include/daw/pipelines/to.h b/include/daw/pipelines/to.h
index b42a4b2..63dc461 100644
--- a/include/daw/pipelines/to.h
+++ b/include/daw/pipelines/to.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include "daw/pipelines/maybe.h"
+#include "daw/daw_attributes.h"
 #include "daw/daw_move.h"
 #include "range.h"
 
diff --git a/include/daw/pipelines/unique.h b/include/daw/pipelines/unique.h
index 9069bb0..0b127e6 100644
--- a/include/daw/pipelines/unique.h
+++ b/include/daw/pipelines/unique.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include "daw/daw_traits.h"
+#include "daw/daw_move.h"
 #include "daw/daw_cpp_feature_check.h"
 #include "daw/daw_iterator_traits.h"
 #include "range.h"
diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index 5352372..3ee7b53 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_attributes.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_traits.h"
 #include "range.h"
diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index 313901b..d73eb5d 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include "daw/daw_compiler_fixups.h"
 #include "daw/compressed_pair.h"
 #include "daw/daw_check_exceptions.h"
 #include "daw/daw_concepts.h"
diff --git a/include/daw/traits/daw_formatter.h b/include/daw/traits/daw_formatter.h
index 80b36f9..130ab52 100644
--- a/include/daw/traits/daw_formatter.h
+++ b/include/daw/traits/daw_formatter.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_remove_cvref.h"
 #include <format>
 
 namespace daw {
diff --git a/include/daw/vector_algorithm.h b/include/daw/vector_algorithm.h
index 95a715f..af4db16 100644
--- a/include/daw/vector_algorithm.h
+++ b/include/daw/vector_algorithm.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_compiler_fixups.h"
 #include "daw_move.h"
 #include "daw_visit.h"
 
-- 
2.43.0


From d42392a3fce93a787615f584af59a9bb1ac083e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 274/289] fix: split_buffer leaked the zero sized block of a
 move to another allocator

---
 include/daw/split_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index d73eb5d..88f5741 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -139,7 +139,7 @@ namespace daw {
 				end_cap( ) = daw::exchange( c.end_cap( ), nullptr );
 			} else {
 				auto cap = c.size( );
-				first_ = alloc_traits::allocate( alloc( ), cap );
+				first_ = cap != 0 ? alloc_traits::allocate( alloc( ), cap ) : nullptr;
 				begin_ = end_ = first_;
 				end_cap( ) = first_ + cap;
 				using move_it_t = std::move_iterator<iterator>;
-- 
2.43.0


From ccf3898dbebfb0efd9d02ea5ca7edd2b5091ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 275/289] fix: split_buffer assigned to unconstructed elements
 when making room

---
 include/daw/split_buffer.h | 65 ++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index 88f5741..328d322 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -260,8 +260,7 @@ namespace daw {
 				if( end_ < end_cap( ) ) {
 					difference_type d = end_cap( ) - end_;
 					d = ( d + 1 ) / 2;
-					begin_ = std::move_backward( begin_, end_, end_ + d );
-					end_ += d;
+					slide_back( d );
 				} else {
 					size_type c =
 					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
@@ -284,8 +283,7 @@ namespace daw {
 				if( begin_ > first_ ) {
 					difference_type d = begin_ - first_;
 					d = ( d + 1 ) / 2;
-					end_ = std::move( begin_, end_, begin_ - d );
-					begin_ -= d;
+					slide_front( d );
 				} else {
 					size_type c =
 					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
@@ -307,8 +305,7 @@ namespace daw {
 				if( end_ < end_cap( ) ) {
 					difference_type d = end_cap( ) - end_;
 					d = ( d + 1 ) / 2;
-					begin_ = std::move_backward( begin_, end_, end_ + d );
-					end_ += d;
+					slide_back( d );
 				} else {
 					size_type c =
 					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
@@ -332,8 +329,7 @@ namespace daw {
 				if( begin_ > first_ ) {
 					difference_type d = begin_ - first_;
 					d = ( d + 1 ) / 2;
-					end_ = std::move( begin_, end_, begin_ - d );
-					begin_ -= d;
+					slide_front( d );
 				} else {
 					size_type c =
 					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
@@ -357,8 +353,7 @@ namespace daw {
 				if( begin_ > first_ ) {
 					difference_type d = begin_ - first_;
 					d = ( d + 1 ) / 2;
-					end_ = std::move( begin_, end_, begin_ - d );
-					begin_ -= d;
+					slide_front( d );
 				} else {
 					size_type c = std::max<size_type>(
 					  2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
@@ -502,6 +497,56 @@ namespace daw {
 		}
 
 	private:
+		// Move the elements d places into the spare capacity at the back. The
+		// places there hold no objects yet, so they are constructed, not assigned
+		constexpr void slide_back( difference_type d ) {
+			auto moved = moved_elements( end_ + d, end_ + d, alloc( ) );
+			while( begin_ != end_ ) {
+				alloc_traits::construct( alloc( ), std::to_address( moved.first - 1 ),
+				                         std::move( *( end_ - 1 ) ) );
+				--moved.first;
+				destruct_at_end( end_ - 1 );
+			}
+			begin_ = moved.first;
+			end_ = moved.last;
+			moved.first = moved.last;
+		}
+
+		// Move the elements d places into the spare capacity at the front
+		constexpr void slide_front( difference_type d ) {
+			auto moved = moved_elements( begin_ - d, begin_ - d, alloc( ) );
+			while( begin_ != end_ ) {
+				alloc_traits::construct( alloc( ), std::to_address( moved.last ),
+				                         std::move( *begin_ ) );
+				++moved.last;
+				destruct_at_begin( begin_ + 1 );
+			}
+			begin_ = moved.first;
+			end_ = moved.last;
+			moved.last = moved.first;
+		}
+
+		// Destroys the elements that have been moved when moving the next throws
+		struct moved_elements {
+			pointer first;
+			pointer last;
+			alloc_rr &a;
+
+			constexpr moved_elements( pointer f, pointer l, alloc_rr &al )
+			  : first( f )
+			  , last( l )
+			  , a( al ) {}
+
+			moved_elements( moved_elements const & ) = delete;
+			moved_elements &operator=( moved_elements const & ) = delete;
+
+			constexpr ~moved_elements( ) {
+				for( ; first != last; ++first ) {
+					alloc_traits::destroy( a, std::to_address( first ) );
+				}
+			}
+		};
+
 		constexpr void
 		move_assign_alloc( split_buffer &c, std::true_type ) noexcept(
 		  std::is_nothrow_move_assignable_v<allocator_type> ) {
-- 
2.43.0


From cfdd8aed163c2fd477d36f0df00f06f29f3e2bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:00 +0000
Subject: [PATCH 276/289] fix: comparing pipelines range_t did not compile

---
 include/daw/pipelines/range_base.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/daw/pipelines/range_base.h b/include/daw/pipelines/range_base.h
index eb10d9e..2b8902e 100644
--- a/include/daw/pipelines/range_base.h
+++ b/include/daw/pipelines/range_base.h
@@ -11,6 +11,7 @@
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_remove_cvref.h"
 
+#include <compare>
 #include <cstddef>
 #include <daw/stdinc/tuple_traits.h>
 
@@ -22,6 +23,10 @@ namespace daw::pipelines {
 		using iterator_last_t = Last;
 
 		range_base_t( ) = default;
+
+		// Without these the comparisons of derived ranges are deleted
+		constexpr bool operator==( range_base_t const & ) const = default;
+		constexpr auto operator<=>( range_base_t const & ) const = default;
 	};
 
 	template<typename R>
-- 
2.43.0


From 2341d9dc761dd612a11397c26b975eab9f21ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:14 +0000
Subject: [PATCH 277/289] fix: maybe_unique_ptr lost the state of the deleter
 of the unique_ptr it took over

---
 include/daw/daw_maybe_unique_ptr.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a0d67fc..8d1dff7 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -88,8 +88,7 @@ namespace daw {
 		template<typename U, typename D>
 		requires( not std::is_same_v<T, U> ) //
 		  constexpr maybe_unique_ptr( unique_ptr<U, D> &&other ) noexcept
-		  : Deleter( std::move( other ).get_deleter( ) )
-		  , m_ptr( other.release( ) ) {
+		  : m_ptr( std::move( other ) ) {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-- 
2.43.0


From 34dccee3bf61f399e1c70e3d0ba72fb4c3e55a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:52 +0000
Subject: [PATCH 278/289] fix: maybe_unique_ptr could not be constructed with a
 deleter

---
 include/daw/daw_maybe_unique_ptr.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index 8d1dff7..c52da5c 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -34,21 +34,26 @@ namespace daw {
 		  : m_ptr( ptr ) {}
 
 		template<typename B>
-		requires( not std::is_pointer_v<B> ) //
+		requires( not std::is_pointer_v<B> and std::is_convertible_v<B, bool> ) //
 		  explicit constexpr maybe_unique_ptr( pointer ptr, B owned ) noexcept
 		  : m_ptr( ptr )
 		  , m_owned( owned ) {}
 
 		template<explicitly_convertible_to<Deleter> D>
-		explicit constexpr maybe_unique_ptr( pointer ptr, D &&deleter ) noexcept
-		  : m_ptr( ptr, DAW_FWD( deleter ) ) {}
+		requires( not std::is_convertible_v<D, bool> ) //
+		  explicit constexpr maybe_unique_ptr( pointer ptr, D &&deleter ) noexcept
+		  : m_ptr( ptr ) {
+			m_ptr.get_deleter( ) = static_cast<Deleter>( DAW_FWD( deleter ) );
+		}
 
 		template<explicitly_convertible_to<Deleter> D, typename B>
 		requires( not std::is_pointer_v<B> ) //
 		  explicit constexpr maybe_unique_ptr( pointer ptr, D &&deleter,
 		                                       B owned ) noexcept
-		  : m_ptr( ptr, DAW_FWD( deleter ) )
-		  , m_owned( owned ) {}
+		  : m_ptr( ptr )
+		  , m_owned( owned ) {
+			m_ptr.get_deleter( ) = static_cast<Deleter>( DAW_FWD( deleter ) );
+		}
 
 		template<typename U>
 		requires( not std::is_same_v<T, U> ) //
-- 
2.43.0


From e5c7c35b22bad5f6561df77b96ba63399c5a1a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:52 +0000
Subject: [PATCH 279/289] fix: move assignment of a unique_ptr to a child with
 the same deleter type did not compile

---
 include/daw/daw_unique_ptr.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index b7310f1..42a37d8 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -159,10 +159,9 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
-			}
+			// rhs may be owned by the object this refers to
+			auto tmp = unique_ptr( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
-- 
2.43.0


From 7171e40e1aa3e7f77c21d02bc4122b55c6650d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:19 +0000
Subject: [PATCH 280/289] fix: the deduction guide of basic_string_view deduced
 a pointer type as the character type

---
 include/daw/daw_string_view.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 39aa144..cedb6c3 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2821,8 +2821,9 @@ namespace daw {
 		}; // basic_string_view
 
 		// CTAD
-		template<typename StringView, typename CharT = std::decay_t<DAW_TYPEOF(
-		                                std::data( std::declval<StringView>( ) ) )>>
+		template<typename StringView,
+		         typename CharT = std::remove_cv_t<std::remove_pointer_t<DAW_TYPEOF(
+		           std::data( std::declval<StringView &>( ) ) )>>>
 		basic_string_view( StringView && ) -> basic_string_view<CharT>;
 
 		template<typename CharT>
-- 
2.43.0


From 2ae1f926ab7161c797f79e2535c87ed1e6921663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:01 +0000
Subject: [PATCH 281/289] fix: the deduction guide of span made the elements of
 a mutable container const

---
 include/daw/daw_span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index 2d5b3a1..fc90325 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -510,7 +510,7 @@ namespace daw {
 
 	template<typename Container>
 	span( Container & ) -> span<std::remove_reference_t<
-	  decltype( *std::data( std::declval<Container>( ) ) )>>;
+	  decltype( *std::data( std::declval<Container &>( ) ) )>>;
 
 	template<typename Container>
 	span( Container const & )
-- 
2.43.0


From 2b3c4c874acc5374eac4967bef550e3a305ffd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:09 +0000
Subject: [PATCH 282/289] fix: contiguous_view of part of an array had
 ambiguous deduction guides

---
 include/daw/daw_contiguous_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 437caa6..ae23909 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -825,7 +825,7 @@ namespace daw {
 	template<typename T, std::size_t N>
 	contiguous_view( T ( & )[N] ) -> contiguous_view<T>;
 
-	template<typename T, std::size_t N>
-	contiguous_view( T ( & )[N], std::size_t ) -> contiguous_view<T>;
+	template<typename T, std::size_t N, IntegralStd SizeT>
+	contiguous_view( T ( & )[N], SizeT ) -> contiguous_view<T>;
 } // namespace daw
 DAW_UNSAFE_BUFFER_FUNC_STOP
-- 
2.43.0


From 0d0518ca013fd6f4cd95092b3cc3a0929c2b5c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:09 +0000
Subject: [PATCH 283/289] fix: the deduction guide of iter_view did not work
 for const containers

---
 include/daw/daw_iter_view.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index c35343b..dbdefb7 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -415,7 +415,8 @@ namespace daw {
 	iter_view( ForwardIterator, Last ) -> iter_view<ForwardIterator, Last>;
 
 	template<typename Container>
-	iter_view( Container ) -> iter_view<typename Container::iterator>;
+	iter_view( Container && )
+	  -> iter_view<decltype( std::begin( std::declval<Container &>( ) ) )>;
 
 	template<typename T, std::size_t N>
 	iter_view( T ( & )[N] ) -> iter_view<T *>;
-- 
2.43.0


From f9714bfb1309f7be7bad50cfdd7793ff1db5e3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:19 +0000
Subject: [PATCH 284/289] fix: visiting an rvalue variant passed lvalues to the
 visitor

---
 include/daw/daw_visit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index ffa4339..59ce3a0 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -57,7 +57,7 @@ namespace daw {
 			using get_nt_details::get_if;
 			auto *ptr = get_if<Idx>( std::addressof( var ) );
 			DAW_ASSUME( ptr != nullptr );
-			if constexpr( std::is_rvalue_reference_v<Variant> ) {
+			if constexpr( std::is_rvalue_reference_v<Variant &&> ) {
 				return std::move( *ptr );
 			} else {
 				return *ptr;
@@ -65,7 +65,7 @@ namespace daw {
 		} else if constexpr( get_nt_details::has_std_get_if_v<variant_t> ) {
 			auto *ptr = std::get_if<Idx>( std::addressof( var ) );
 			DAW_ASSUME( ptr != nullptr );
-			if constexpr( std::is_rvalue_reference_v<Variant> ) {
+			if constexpr( std::is_rvalue_reference_v<Variant &&> ) {
 				return std::move( *ptr );
 			} else {
 				return *ptr;
-- 
2.43.0


From 3bae5ffba0374a59b1cd456ca70c517772a32d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:41 +0000
Subject: [PATCH 285/289] fix: a Split iterator can be incremented twice
 without being dereferenced in between

---
 include/daw/pipelines/split.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 4fbe0b7..efaf1d5 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -98,6 +98,7 @@ namespace daw::pipelines {
 		}
 
 		constexpr split_view_iterator &operator++( ) {
+			increment_iterator( );
 			assert( m_next );
 			m_first = std::move( *m_next );
 			m_next.reset( );
-- 
2.43.0


From 66a64e4ff46d2e360d957e0244f8db7041dda117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:01 +0000
Subject: [PATCH 286/289] fix: bounded_vector_t::push_back of an rvalue that is
 one of its elements

---
 include/daw/daw_bounded_vector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 679f4b7..eeb841f 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -212,7 +212,12 @@ namespace daw {
 
 		constexpr void push_back( value_type &&value ) noexcept {
 			if( can_move_front( 1 ) ) {
+				// value may be an element of this vector
+				auto tmp = std::move( value );
 				do_move_to_front( );
+				m_stack[m_index] = std::move( tmp );
+				++m_index;
+				return;
 			}
 			m_stack[m_index] = std::move( value );
 			++m_index;
-- 
2.43.0


From 0592fe157fe44557c5482f0006000d611e7b2e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:29 +0000
Subject: [PATCH 287/289] fix: safe_next, safe_prev and safe_advance moved
 backwards for counts beyond PTRDIFF_MAX

---
 include/daw/daw_algorithm.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 71cb32c..530445d 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -86,6 +86,17 @@ namespace daw {
 
 	// Iterator movement functions
 	namespace algorithm_details {
+		/// Distances that ptrdiff_t cannot represent are as good as PTRDIFF_MAX
+		template<typename Distance>
+		constexpr ptrdiff_t clamp_distance( Distance n ) noexcept {
+			if constexpr( std::is_unsigned_v<Distance> and
+			              sizeof( Distance ) >= sizeof( ptrdiff_t ) ) {
+				return static_cast<ptrdiff_t>(
+				  (daw::min)( n, static_cast<Distance>( PTRDIFF_MAX ) ) );
+			} else {
+				return static_cast<ptrdiff_t>( n );
+			}
+		}
 		template<typename Iterator, typename Iterator2, typename Iterator3,
 		         typename Distance,
 		         daw::enable_when_t<
@@ -117,8 +128,7 @@ namespace daw {
 					it = first;
 					return;
 				}
-				dist = -dist;
-				it -= (daw::min)( static_cast<ptrdiff_t>( dist_to_first ),
+				it += (daw::max)( -static_cast<ptrdiff_t>( dist_to_first ),
 				                  static_cast<ptrdiff_t>( dist ) );
 				return;
 			}
@@ -148,7 +158,7 @@ namespace daw {
 
 		using std::begin;
 		using std::end;
-		auto const d = static_cast<ptrdiff_t>( distance );
+		auto const d = algorithm_details::clamp_distance( distance );
 		algorithm_details::safe_advance_impl( begin( container ), it,
 		                                      end( container ), d );
 	}
@@ -169,7 +179,7 @@ namespace daw {
 
 		using std::begin;
 		using std::end;
-		auto const d = static_cast<ptrdiff_t>( distance );
+		auto const d = algorithm_details::clamp_distance( distance );
 		algorithm_details::safe_advance_impl( begin( container ), it,
 		                                      end( container ), d );
 	}
@@ -187,7 +197,7 @@ namespace daw {
 	  noexcept( daw::next( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
 
 		traits::is_iterator_test<Iterator>( );
-		auto const d = static_cast<ptrdiff_t>( n );
+		auto const d = algorithm_details::clamp_distance( n );
 		algorithm_details::safe_advance_impl( it, it, last, d );
 		return it;
 	}
@@ -205,7 +215,7 @@ namespace daw {
 	  noexcept( daw::prev( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
 
 		traits::is_iterator_test<Iterator>( );
-		auto const d = static_cast<ptrdiff_t>( n );
+		auto const d = algorithm_details::clamp_distance( n );
 		algorithm_details::safe_advance_impl( first, it, it, -d );
 		return it;
 	}
-- 
2.43.0


From 1e00349705bfceb499a995a0b6197a9100b4e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:29 +0000
Subject: [PATCH 288/289] fix: Take and Skip of a count beyond PTRDIFF_MAX read
 outside the range

---
 include/daw/pipelines/skip.h | 6 ++++--
 include/daw/pipelines/take.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/skip.h b/include/daw/pipelines/skip.h
index d92bce6..1702089 100644
--- a/include/daw/pipelines/skip.h
+++ b/include/daw/pipelines/skip.h
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <iterator>
+#include <utility>
 
 namespace daw::pipelines::pimpl {
 	struct Skip_t {
@@ -28,8 +29,9 @@ namespace daw::pipelines::pimpl {
 
 			if constexpr( ForwardIterator<iter_t> ) {
 				auto const range_size = std::distance( first, last );
-				auto const skip =
-				  std::min( { static_cast<std::ptrdiff_t>( how_many ), range_size } );
+				auto const skip = std::cmp_less( how_many, range_size )
+				                    ? static_cast<std::ptrdiff_t>( how_many )
+				                    : range_size;
 				first = std::next( first, skip );
 			} else {
 				// Input
diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index 5730678..5d32995 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -20,6 +20,7 @@
 #include <cstddef>
 #include <iterator>
 #include <limits>
+#include <utility>
 
 namespace daw::pipelines::pimpl {
 	struct Take_t {
@@ -33,8 +34,9 @@ namespace daw::pipelines::pimpl {
 
 			if constexpr( ForwardIterator<iter_t> ) {
 				auto const range_size = std::distance( first, last );
-				auto take_size =
-				  std::min( { range_size, static_cast<std::ptrdiff_t>( how_many ) } );
+				auto take_size = std::cmp_less( how_many, range_size )
+				                   ? static_cast<std::ptrdiff_t>( how_many )
+				                   : range_size;
 				return range_t{ sized_iterator<iter_t>{
 				                  first, static_cast<std::size_t>( take_size ) },
 				                sized_iterator<iter_t>{
-- 
2.43.0


From 420571dc8c31a60c34afc68f2406f14275fe02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:30 +0000
Subject: [PATCH 289/289] fix: Chunk and Slide of a size beyond PTRDIFF_MAX
 read outside the range

---
 include/daw/pipelines/chunk.h | 5 ++++-
 include/daw/pipelines/slide.h | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 1bec143..6ab9f8a 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "daw/cpp_17.h"
+#include "daw/daw_algorithm.h"
 #include "daw/daw_attributes.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_move.h"
@@ -16,6 +17,7 @@
 #include "daw/pipelines/range.h"
 
 #include <cstddef>
+#include <cstdint>
 
 namespace daw::pipelines::pimpl {
 	template<ForwardRange R>
@@ -64,7 +66,8 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr chunk_view( Range auto &&r, std::size_t chunk_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
-		  , m_chunk_size{ static_cast<difference_type>( chunk_size ) } {}
+		  , m_chunk_size{ static_cast<difference_type>( (daw::min)(
+		      chunk_size, static_cast<std::size_t>( PTRDIFF_MAX ) ) ) } {}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index ed9c015..c69aa3c 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -16,6 +16,7 @@
 #include "range.h"
 
 #include <cstddef>
+#include <cstdint>
 
 namespace daw::pipelines::pimpl {
 	template<ForwardRange R>
@@ -64,7 +65,8 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr slide_view( Range auto &&r, std::size_t slide_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
-		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {
+		  , m_slide_size{ static_cast<difference_type>( (daw::min)(
+		      slide_size, static_cast<std::size_t>( PTRDIFF_MAX ) ) ) } {
 			// No complete window when the range is shorter than the slide size
 			auto it = m_iter;
 			for( difference_type n = 0; n < m_slide_size; ++n ) {
-- 
2.43.0

