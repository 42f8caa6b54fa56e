// C24: span, contiguous_view, view, iter_view, span_writer, ring_adaptor and
// zip_container are faithful, bounded windows.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <limits>
#include <memory>

#include <daw/daw_span.h>

#include <daw/daw_contiguous_view.h>
#include <daw/daw_iter_view.h>
#include <daw/daw_ring_adaptor.h>
#include <daw/daw_span_writer.h>
#include <daw/daw_view.h>
#include <daw/daw_zipcontainer.h>

#include "vf.h"
#include "vf_types.h"

#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <span>
#include <stdexcept>
#include <string>
#include <vector>

namespace {
	using V = std::vector<int>;

	V gen( vf::Case &c, std::size_t maxn = 12, unsigned lim = 4 ) {
		V v( c.rng.len( maxn - 1 ) );
		for( auto &x : v )
			x = static_cast<int>( c.rng.below( lim ) );
		return v;
	}

	template<typename W>
	V elems( W const &w ) {
		V r;
		for( auto it = w.begin( ); it != w.end( ); ++it ) {
			r.push_back( *it );
			if( r.size( ) > 3000 )
				break;
		}
		return r;
	}
	template<typename B, typename E>
	V elems( B b, E e ) {
		V r;
		for( ; b != e; ++b ) {
			r.push_back( *b );
			if( r.size( ) > 3000 )
				break;
		}
		return r;
	}
	V rev( V v ) {
		std::reverse( v.begin( ), v.end( ) );
		return v;
	}
	V sub( V const &v, std::size_t lo, std::size_t hi ) {
		return V( v.begin( ) + static_cast<std::ptrdiff_t>( lo ), v.begin( ) + static_cast<std::ptrdiff_t>( hi ) );
	}

	// every read-only observation of the window w against the expected content
	template<typename W>
	void look( vf::Case &c, W &w, V const &want, vf::Rng &rng ) {
		W const &cw = w;
		VF_EQ( c, "size", cw.size( ), want.size( ) );
		VF_EQ( c, "empty", cw.empty( ), want.empty( ) );
		VF_EQ( c, "begin..end", elems( w.begin( ), w.end( ) ), want );
		VF_EQ( c, "const begin..end", elems( cw.begin( ), cw.end( ) ), want );
		VF_EQ( c, "cbegin..cend", elems( cw.cbegin( ), cw.cend( ) ), want );
		VF_EQ( c, "rbegin..rend", elems( w.rbegin( ), w.rend( ) ), rev( want ) );
		VF_EQ( c, "const rbegin..rend", elems( cw.rbegin( ), cw.rend( ) ), rev( want ) );
		VF_EQ( c, "crbegin..crend", elems( cw.crbegin( ), cw.crend( ) ), rev( want ) );
		if( not want.empty( ) ) {
			std::size_t i = rng.below( static_cast<unsigned>( want.size( ) ) );
			VF_EQ( c, "[]", w[i], want[i] );
			VF_EQ( c, "const []", cw[i], want[i] );
			if constexpr( requires { w.front( ); } ) {
				VF_EQ( c, "front", w.front( ), want.front( ) );
				VF_EQ( c, "const front", cw.front( ), want.front( ) );
			}
			if constexpr( requires { w.back( ); } ) {
				VF_EQ( c, "back", w.back( ), want.back( ) );
				VF_EQ( c, "const back", cw.back( ), want.back( ) );
			}
			VF_TRUE( c, "[] and begin name the same object", &w[0] == &*w.begin( ) );
		}
		if constexpr( requires { w.at( std::size_t{ 0 } ); } ) {
			std::size_t i = rng.chance( 1, 8 ) ? std::numeric_limits<std::size_t>::max( ) - rng.below( 3 ) : rng.below( static_cast<unsigned>( want.size( ) + 3 ) );
			auto chk = [&]( auto &x, char const *what ) {
				try {
					auto r = x.at( i );
					VF_TRUE( c, vf::cat( what, " refuses" ).c_str( ), i < want.size( ) );
					if( i < want.size( ) )
						VF_EQ( c, what, r, want[i] );
				} catch( std::out_of_range const & ) {
					VF_TRUE( c, vf::cat( what, " accepts" ).c_str( ), i >= want.size( ) );
				}
			};
			chk( w, "at" );
			chk( cw, "const at" );
		}
		if constexpr( requires { w.size_bytes( ); } )
			VF_EQ( c, "size_bytes", cw.size_bytes( ), want.size( ) * sizeof( int ) );
		if constexpr( requires { cw.ssize( ); } )
			VF_EQ( c, "ssize", static_cast<std::size_t>( cw.ssize( ) ), want.size( ) );
		if constexpr( requires { cw.data_end( ); } )
			VF_EQ( c, "data..data_end", elems( cw.data( ), cw.data_end( ) ), want );
		if constexpr( requires { cw.data( ); } )
			if( not want.empty( ) )
				VF_EQ( c, "data", *cw.data( ), want.front( ) );
		if constexpr( requires { cw.find( 1 ); } ) {
			int x = static_cast<int>( rng.below( 5 ) );
			auto pos = static_cast<std::ptrdiff_t>( std::find( want.begin( ), want.end( ), x ) - want.begin( ) );
			VF_EQ( c, "find", static_cast<std::ptrdiff_t>( std::distance( w.begin( ), w.find( x ) ) ), pos );
			VF_EQ( c, "const find", static_cast<std::ptrdiff_t>( std::distance( cw.begin( ), cw.find( x ) ) ), pos );
			pos = static_cast<std::ptrdiff_t>( std::find_if( want.begin( ), want.end( ), [&]( int y ) { return y != x; } ) - want.begin( ) );
			VF_EQ( c, "find_first_not_of", static_cast<std::ptrdiff_t>( std::distance( w.begin( ), w.find_first_not_of( x ) ) ), pos );
			VF_EQ( c, "const find_first_not_of", static_cast<std::ptrdiff_t>( std::distance( cw.begin( ), cw.find_first_not_of( x ) ) ), pos );
		}
	}

	enum : unsigned {
		CLIP = 1,     // over-long remove/pop are clipped
		THROWSUB = 2, // subspan beyond the end throws
		POPBACK = 4,  // pop() takes the last element
		UNTIL = 8,
	};

	// random history of window operations; model: [lo,hi) of base
	template<unsigned F, typename W, typename Base>
	void history( vf::Case &c, W w, Base &base ) {
		V const all( base.begin( ), base.end( ) );
		std::size_t lo = 0, hi = all.size( );
		auto &rng = c.rng;
		look( c, w, all, rng );
		for( std::size_t step = 0; step < 10; ++step ) {
			std::size_t const n = hi - lo;
			std::size_t k = rng.below( static_cast<unsigned>( n + 1 ) );
			if( ( F & CLIP ) and rng.chance( 1, 6 ) )
				k = n + rng.below( 3 );
			std::size_t const kk = std::min( k, n );
			int const x = static_cast<int>( rng.below( 5 ) );
			auto at = [&]( bool want ) {
				std::size_t i = lo;
				while( i < hi and ( all[i] == x ) != want )
					++i;
				return i;
			};
			switch( rng.below( 16 ) ) {
			case 0:
				c.op( "remove_prefix(n)" );
				w.remove_prefix( k );
				lo += kk;
				break;
			case 1:
				if constexpr( requires { w.remove_suffix( k ); } ) {
					c.op( "remove_suffix(n)" );
					w.remove_suffix( k );
					hi -= kk;
				}
				break;
			case 2:
				if( n ) {
					c.op( "remove_prefix" );
					w.remove_prefix( );
					++lo;
				}
				break;
			case 3:
				if constexpr( requires { w.remove_suffix( ); } )
					if( n ) {
						c.op( "remove_suffix" );
						w.remove_suffix( );
						--hi;
					}
				break;
			case 4:
				if( n ) {
					c.op( "pop_front" );
					VF_EQ( c, "pop_front", w.pop_front( ), all[lo] );
					++lo;
				}
				break;
			case 5:
				if constexpr( requires { w.pop_back( ); } )
					if( n ) {
						c.op( "pop_back" );
						VF_EQ( c, "pop_back", w.pop_back( ), all[hi - 1] );
						--hi;
					}
				break;
			case 6:
				if constexpr( requires { w.pop_front( k ); } ) {
					c.op( "pop_front(n)" );
					auto r = w.pop_front( k );
					VF_EQ( c, "pop_front(n)", elems( r ), sub( all, lo, lo + kk ) );
					lo += kk;
				}
				break;
			case 7:
				if constexpr( requires { w.pop_back( k ); } ) {
					c.op( "pop_back(n)" );
					auto r = w.pop_back( k );
					VF_EQ( c, "pop_back(n)", elems( r ), sub( all, hi - kk, hi ) );
					hi -= kk;
				}
				break;
			case 8:
				if constexpr( requires( int &o ) { w.pop( o ); } ) {
					c.op( "pop" );
					int o = -5;
					bool got = w.pop( o );
					VF_EQ( c, "pop result", got, n != 0 );
					if( n ) {
						VF_EQ( c, "pop value", o, ( F & POPBACK ) ? all[hi - 1] : all[lo] );
						if( F & POPBACK )
							--hi;
						else
							++lo;
					} else {
						VF_EQ( c, "pop leaves the value", o, -5 );
					}
				}
				break;
			case 9:
			case 10:
				if constexpr( requires { w.subspan( k, k ); } ) {
					std::size_t pos = rng.below( static_cast<unsigned>( n + 3 ) );
					std::size_t cnt = rng.chance( 1, 4 ) ? std::numeric_limits<std::size_t>::max( ) - rng.below( 3 ) : rng.below( static_cast<unsigned>( n + 3 ) );
					bool const dflt = rng.chance( 1, 5 );
					if( dflt )
						cnt = std::numeric_limits<std::size_t>::max( );
					c.op( vf::cat( "subspan(", pos, ",", cnt, ")" ).c_str( ) );
					std::size_t const p = std::min( pos, n ), q = p + std::min( cnt, n - p );
					V const want = sub( all, lo + p, lo + q );
					auto go = [&]( auto &x2, char const *what ) {
						if( ( F & THROWSUB ) and pos > n ) {
							bool threw = false;
							try {
								(void)x2.subspan( pos, cnt );
							} catch( std::out_of_range const & ) {
								threw = true;
							}
							VF_TRUE( c, vf::cat( what, " refuses" ).c_str( ), threw );
							return;
						}
						auto r = dflt ? x2.subspan( pos ) : x2.subspan( pos, cnt );
						VF_EQ( c, vf::cat( what, " size" ).c_str( ), r.size( ), want.size( ) );
						VF_EQ( c, what, elems( r ), want );
					};
					go( w, "subspan" );
					go( std::as_const( w ), "const subspan" );
				}
				break;
			case 11:
				if constexpr( ( F & UNTIL ) != 0 ) {
					std::size_t p = at( true );
					if( rng.coin( ) ) {
						c.op( "remove_prefix_until" );
						W &r = w.remove_prefix_until( x );
						VF_TRUE( c, "remove_prefix_until returns itself", &r == &w );
						lo = p;
					} else {
						c.op( "remove_prefix_until discard" );
						w.remove_prefix_until( x, daw::discard_t{ } );
						lo = std::min( p + 1, hi );
					}
				}
				break;
			case 12:
				if constexpr( ( F & UNTIL ) != 0 ) {
					std::size_t p = at( false );
					if( rng.coin( ) ) {
						c.op( "remove_prefix_while" );
						w.remove_prefix_while( x );
						lo = p;
					} else {
						c.op( "remove_prefix_while discard" );
						w.remove_prefix_while( x, daw::discard_t{ } );
						lo = std::min( p + 1, hi );
					}
				}
				break;
			case 13:
				if constexpr( ( F & UNTIL ) != 0 ) {
					bool const until = rng.coin( );
					std::size_t p = at( until );
					if( rng.coin( ) ) {
						c.op( until ? "pop_front_until" : "pop_front_while" );
						auto r = until ? w.pop_front_until( x ) : w.pop_front_while( x );
						VF_EQ( c, "pop_front_until/while", elems( r ), sub( all, lo, p ) );
						VF_EQ( c, "pop_front_until/while size", r.size( ), p - lo );
						lo = p;
					} else {
						c.op( until ? "pop_front_until discard" : "pop_front_while discard" );
						auto r = until ? w.pop_front_until( x, daw::discard_t{ } ) : w.pop_front_while( x, daw::discard_t{ } );
						VF_EQ( c, "pop_front_until/while discard", elems( r ), sub( all, lo, p ) );
						lo = std::min( p + 1, hi );
					}
				}
				break;
			case 14:
				if constexpr( requires { w.add_prefix( k ); } ) {
					if( lo > 0 ) {
						c.op( "add_prefix" );
						if( rng.coin( ) ) {
							w.add_prefix( );
							--lo;
						} else {
							std::size_t m = rng.below( static_cast<unsigned>( lo + 1 ) );
							w.add_prefix( m );
							lo -= m;
						}
					}
				}
				break;
			default:
				if constexpr( requires { w.add_suffix( k ); } ) {
					if( hi < all.size( ) ) {
						c.op( "add_suffix" );
						if( rng.coin( ) ) {
							w.add_suffix( );
							++hi;
						} else {
							std::size_t m = rng.below( static_cast<unsigned>( all.size( ) - hi + 1 ) );
							w.add_suffix( m );
							hi += m;
						}
					}
				}
				break;
			}
			look( c, w, sub( all, lo, hi ), rng );
		}
		// it is a window, not a copy
		if( lo < hi )
			VF_TRUE( c, "window aliases the base", &*w.begin( ) == &*std::next( base.begin( ), static_cast<std::ptrdiff_t>( lo ) ) );
		VF_EQ( c, "base unchanged", V( base.begin( ), base.end( ) ), all );
		c.nontrivial( vf::mix( all.size( ), lo * 64 + hi ) );
	}

	template<typename W>
	void compare( vf::Case &c, W const &x, W const &y, V const &a, V const &b ) {
		VF_EQ( c, "==", x == y, a == b );
		VF_EQ( c, "!=", x != y, a != b );
		VF_EQ( c, "<", x < y, a < b );
		VF_EQ( c, ">", x > y, a > b );
		VF_EQ( c, "<=", x <= y, a <= b );
		VF_EQ( c, ">=", x >= y, a >= b );
	}

	VF_FAMILY( span_history, 3000, 60000 ) {
		V v = gen( c );
		vf::Exact<int> ex( v.begin( ), v.size( ) );
		if( c.idx % 2 )
			history<THROWSUB | POPBACK>( c, daw::span<int>( ex.data( ), ex.size( ) ), ex );
		else
			history<THROWSUB | POPBACK>( c, daw::span<int const>( ex.data( ), ex.size( ) ), ex );
		{
			daw::span<int> a( ex.data( ), ex.data( ) + ex.size( ) );
			daw::span<int const> b = a;
			daw::span<int> d = a.copy( );
			VF_EQ( c, "span to const", elems( b ), v );
			VF_EQ( c, "span copy", elems( d ), v );
			daw::span<int> e( v );
			VF_EQ( c, "span of container", elems( e ), v );
			V const &cv = v;
			auto f = daw::span( cv );
			VF_EQ( c, "span of const container", elems( f ), v );
			std::array<int, 3> arr{ 4, 5, 6 };
			auto g = daw::span( arr );
			VF_EQ( c, "span of array", elems( g ), ( V{ 4, 5, 6 } ) );
			int raw[4] = { 1, 2, 3, 4 };
			auto h = daw::span( raw );
			VF_EQ( c, "span of C array", elems( h ), ( V{ 1, 2, 3, 4 } ) );
			h[2] = 9;
			VF_EQ( c, "span writes through", raw[2], 9 );
			if( not v.empty( ) ) {
				std::size_t i = c.rng.below( static_cast<unsigned>( v.size( ) ) );
				e[i] = 77;
				VF_EQ( c, "span writes element", v[i], 77 );
				e.at( i ) = 78;
				*( e.begin( ) + static_cast<std::ptrdiff_t>( i ) ) += 1;
				VF_EQ( c, "span writes at/begin", v[i], 79 );
			}
			daw::span<int> nul( static_cast<int *>( nullptr ), 5 );
			VF_TRUE( c, "null span is empty", nul.empty( ) and nul.size( ) == 0 and elems( nul ).empty( ) );
			if( not v.empty( ) ) {
				daw::span<int const> back( v.data( ) + 1, v.data( ) );
				VF_TRUE( c, "reversed pointers are empty", back.empty( ) and back.size( ) == 0 );
			}
		}
	}

	VF_FAMILY( contiguous_view_history, 3000, 60000 ) {
		V v = gen( c );
		vf::Exact<int> ex( v.begin( ), v.size( ) );
		if( c.idx % 2 )
			history<CLIP | UNTIL>( c, daw::contiguous_view<int>( ex.data( ), ex.size( ) ), ex );
		else
			history<CLIP | UNTIL>( c, daw::contiguous_view<int const>( ex.data( ), ex.data( ) + ex.size( ) ), ex );
		V b = c.rng.coin( ) ? v : gen( c );
		if( c.rng.coin( ) and not b.empty( ) )
			b[c.rng.below( static_cast<unsigned>( b.size( ) ) )] ^= 1;
		if( c.rng.chance( 1, 3 ) and not b.empty( ) )
			b.pop_back( );
		vf::Exact<int> eb( b.begin( ), b.size( ) );
		compare( c, daw::contiguous_view<int const>( ex.data( ), ex.size( ) ), daw::contiguous_view<int const>( eb.data( ), eb.size( ) ), v, b );
		compare( c, daw::contiguous_view<int>( ex.data( ), ex.size( ) ), daw::contiguous_view<int>( eb.data( ), eb.size( ) ), v, b );
		{
			daw::contiguous_view<int> m( v );
			VF_EQ( c, "view of a container", elems( m ), v );
			daw::contiguous_view<int const> cm( m );
			VF_EQ( c, "const view of a view", elems( cm ), v );
			auto d = daw::contiguous_view( std::as_const( v ) );
			VF_EQ( c, "view of a const container", elems( d ), v );
			int raw[3] = { 7, 8, 9 };
			auto r = daw::contiguous_view( raw );
			VF_EQ( c, "view of a C array", elems( r ), ( V{ 7, 8, 9 } ) );
			if( not v.empty( ) ) {
				std::size_t i = c.rng.below( static_cast<unsigned>( v.size( ) ) );
				m[i] = 50;
				m.at( i ) += 1;
				m.begin( )[static_cast<std::ptrdiff_t>( i )] += 1;
				VF_EQ( c, "view writes through", v[i], 52 );
				daw::contiguous_view<int> part( v, i );
				VF_EQ( c, "view of the first n", elems( part ), sub( v, 0, i ) );
				// wrapped iterators behave as the pointers they wrap
				auto p = m.begin( ) + static_cast<std::ptrdiff_t>( i );
				VF_EQ( c, "iterator difference", p - m.begin( ), static_cast<std::ptrdiff_t>( i ) );
				VF_TRUE( c, "iterator -", p - static_cast<std::ptrdiff_t>( i ) == m.begin( ) );
				VF_TRUE( c, "n + iterator", static_cast<std::ptrdiff_t>( i ) + m.begin( ) == p );
				VF_EQ( c, "iterator <", m.begin( ) < p, i > 0 );
				auto q = p;
				auto o = q++;
				VF_TRUE( c, "iterator post ++", o == p and q == p + 1 );
				auto o2 = q--;
				VF_TRUE( c, "iterator post --", o2 == p + 1 and q == p );
				q += 1;
				q -= 1;
				VF_TRUE( c, "iterator += -=", q == p );
			}
			if( c.idx % 64 == 0 )
				VF_TRUE( c, "an over-long count is refused", vf::outcome( [&] { daw::contiguous_view<int> bad( v, v.size( ) + 1 ); (void)bad; } ) != vf::End::returned );
			auto const st = static_cast<std::span<int>>( std::span<int>( v ) );
			(void)st;
		}
	}

	VF_FAMILY( view_history, 2500, 50000 ) {
		V v = gen( c );
		vf::Exact<int> ex( v.begin( ), v.size( ) );
		std::list<int> li( v.begin( ), v.end( ) );
		if( c.idx % 2 )
			history<0>( c, daw::view<int *>( ex.data( ), ex.data( ) + ex.size( ) ), ex );
		else
			history<0>( c, daw::view<std::list<int>::iterator>( li.begin( ), li.end( ) ), li );
		{
			daw::view w( li.begin( ), li.end( ) );
			auto r = w.pop_front( v.size( ) + 2 );
			VF_EQ( c, "pop_front clips", elems( r ), v );
			VF_TRUE( c, "pop_front clips rest", w.empty( ) );
			daw::view w2( ex.data( ), ex.data( ) + ex.size( ) );
			auto r2 = w2.pop_back( v.size( ) + 2 );
			VF_EQ( c, "pop_back clips", elems( r2 ), v );
			VF_TRUE( c, "pop_back clips rest", w2.empty( ) );
		}
	}

	VF_FAMILY( iter_view_history, 3000, 60000 ) {
		V v = gen( c );
		std::list<int> li( v.begin( ), v.end( ) );
		vf::Exact<int> ex( v.begin( ), v.size( ) );
		if( c.idx % 2 )
			history<CLIP | UNTIL>( c, daw::iter_view<std::list<int>::iterator>( li.begin( ), li.end( ) ), li );
		else
			history<CLIP | UNTIL>( c, daw::iter_view<int *>( ex.data( ), ex.data( ) + ex.size( ) ), ex );
		V b = c.rng.coin( ) ? v : gen( c );
		if( c.rng.coin( ) and not b.empty( ) )
			b[c.rng.below( static_cast<unsigned>( b.size( ) ) )] ^= 1;
		if( c.rng.chance( 1, 3 ) and not b.empty( ) )
			b.pop_back( );
		std::list<int> lb( b.begin( ), b.end( ) );
		using L = daw::iter_view<std::list<int>::iterator>;
		compare( c, L( li.begin( ), li.end( ) ), L( lb.begin( ), lb.end( ) ), v, b );
		daw::iter_view w( v );
		VF_EQ( c, "iter_view of a container", elems( w ), v );
		if( not v.empty( ) ) {
			std::size_t i = c.rng.below( static_cast<unsigned>( v.size( ) ) );
			w[i] = 40;
			VF_EQ( c, "iter_view writes through", v[i], 40 );
			L first( li.begin( ), i );
			VF_EQ( c, "iter_view of the first n", elems( first ).size( ), i );
			L all( li.begin( ), li.end( ) );
			all.remove_prefix( i, daw::dont_clip_to_bounds );
			VF_EQ( c, "iter_view remove_prefix dont clip", all.size( ), v.size( ) - i );
		}
	}

	VF_FAMILY( writers, 2500, 40000 ) {
		std::size_t const n = c.rng.below( 14 );
		V zero( n, -1 );
		vf::Exact<int> ex( zero.begin( ), n );
		std::span<int> out( ex.data( ), n );
		V want( n, -1 );
		std::size_t at = 0;
		daw::span_writer<int> w( out );
		daw::span_writer<int> none;
		VF_TRUE( c, "a writer of nothing", none.size( ) == 0 and none.begin( ) == none.end( ) );
		bool const free_fn = c.rng.coin( );
		std::span<int> rest = out;
		for( int step = 0; step < 5; ++step ) {
			V src = gen( c, 6, 100 );
			std::size_t const left = n - at;
			auto put = [&]( auto... x ) {
				std::size_t const k = sizeof...( x );
				if( k > left ) {
					if( c.rng.chance( 1, 32 ) ) {
						if( free_fn )
							VF_TRUE( c, "an over-long write is refused", vf::outcome( [&] { (void)daw::write_to_span( rest, x... ); } ) == vf::End::aborted );
						else
							VF_TRUE( c, "an over-long write is refused", vf::outcome( [&] { w.write( x... ); } ) == vf::End::aborted );
					}
					return;
				}
				if( free_fn )
					rest = daw::write_to_span( rest, x... );
				else
					VF_TRUE( c, "write returns the writer", &w.write( x... ) == &w );
				(void)( ( want[at++] = static_cast<int>( x ) ), ... );
			};
			switch( c.rng.below( 6 ) ) {
			case 0: put( 5 ); break;
			case 1: put( short{ 3 }, 9L, 'c' ); break;
			case 2: put( 1, 2 ); break;
			case 3: {
				vf::Exact<int> es( src.begin( ), src.size( ) );
				std::span<int const> ss( es.data( ), es.size( ) );
				if( src.size( ) > left ) {
					if( c.rng.chance( 1, 32 ) )
						VF_TRUE( c, "an over-long range is refused", vf::outcome( [&] { if( free_fn ) (void)daw::write_to_span( rest, ss ); else w.write( ss ); } ) == vf::End::aborted );
					break;
				}
				if( free_fn )
					rest = daw::write_to_span( rest, ss );
				else
					w.write( ss );
				for( int x : src )
					want[at++] = x;
				break;
			}
			case 4: {
				if( left >= 3 ) {
					if( free_fn )
						rest = daw::write_to_span_ntz( rest, "xyz" );
					else
						w.write_ntz( "xyz" );
					want[at++] = 'x';
					want[at++] = 'y';
					want[at++] = 'z';
				} else if( c.rng.chance( 1, 32 ) ) {
					VF_TRUE( c, "an over-long literal is refused", vf::outcome( [&] { if( free_fn ) (void)daw::write_to_span_ntz( rest, "xyz" ); else w.write_ntz( "xyz" ); } ) == vf::End::aborted );
				}
				break;
			}
			default: {
				std::size_t k = c.rng.below( static_cast<unsigned>( left + 1 ) );
				if( not free_fn ) {
					if( c.rng.coin( ) )
						w.remove_prefix( k );
					else
						w = w.subspan( k );
					at += k;
				}
				break;
			}
			}
			std::size_t const size = free_fn ? rest.size( ) : w.size( );
			VF_EQ( c, "remaining size", size, n - at );
			VF_TRUE( c, "remaining start", ( free_fn ? rest.data( ) : w.data( ) ) == ex.data( ) + at );
			VF_EQ( c, "buffer content", V( ex.begin( ), ex.end( ) ), want );
			if( not free_fn ) {
				VF_EQ( c, "writer begin..end", static_cast<std::size_t>( w.end( ) - w.begin( ) ), n - at );
				if( at < n ) {
					std::size_t i = c.rng.below( static_cast<unsigned>( n - at ) );
					VF_TRUE( c, "writer []", &w[i] == ex.data( ) + at + i );
				}
				if( c.rng.chance( 1, 64 ) ) {
					VF_TRUE( c, "writer [] past the end is refused", vf::outcome( [&] { (void)w[n - at]; } ) == vf::End::aborted );
					VF_TRUE( c, "writer remove_prefix past the end is refused", vf::outcome( [&] { w.remove_prefix( n - at + 1 ); } ) == vf::End::aborted );
					VF_TRUE( c, "writer subspan past the end is refused", vf::outcome( [&] { (void)w.subspan( n - at + 1 ); } ) == vf::End::aborted );
				}
			}
		}
		{
			std::array<std::byte, 6> bytes{ };
			daw::span_writer<std::byte> bw( bytes );
			bw.write( 'a', 'b' ).write_ntz( "cd" );
			VF_EQ( c, "byte writer size", bw.size( ), std::size_t{ 2 } );
			VF_TRUE( c, "byte writer content", bytes[0] == std::byte{ 'a' } and bytes[3] == std::byte{ 'd' } and bytes[4] == std::byte{ } );
			daw::span_writer<std::byte> bounded( bytes, 3 );
			VF_EQ( c, "bounded writer size", bounded.size( ), std::size_t{ 3 } );
		}
		c.nontrivial( vf::mix( n, at ) );
	}

	// how views are made from, converted to and assigned from other things: the
	// view always covers exactly what it was made from, with the same constness
	VF_FAMILY( making_views, 1500, 30000 ) {
		auto &r = c.rng;
		V const model = gen( c ), other = gen( c );
		V v = model, o = other;
		V const cv = model;
		std::size_t const n = v.size( ), part = r.below( n + 1 );
		int arr[5], other_arr[3];
		for( auto &x : arr ) x = static_cast<int>( r.below( 9 ) );
		for( auto &x : other_arr ) x = static_cast<int>( r.below( 9 ) );
		int const carr[4] = { arr[0], arr[1], 7, 8 };
		V const am( std::begin( arr ), std::end( arr ) ), om( std::begin( other_arr ), std::end( other_arr ) ), cam( std::begin( carr ), std::end( carr ) );
		V const head( model.begin( ), model.begin( ) + static_cast<std::ptrdiff_t>( part ) );
		auto is = [&]( char const *what, auto const &view, V const &want, int const *where ) {
			VF_EQ( c, what, view.size( ), want.size( ) );
			VF_TRUE( c, what, elems( view ) == want );
			if( not want.empty( ) ) VF_TRUE( c, what, std::addressof( *view.begin( ) ) == where );
		};
		c.op( "span: made from" );
		{
			using S = daw::span<int>;
			using CS = daw::span<int const>;
			int *p = v.data( );
			int const *cp = p;
			daw::span a( v ), b( p, part ), d( p, p + part ), e( arr ), g( p, cp + part );
			daw::span ca( cv ), cb( cp, part ), cd( cp, cp + part ), ce( carr ), cg( cp, p + part );
			static_assert( std::is_same_v<decltype( a ), S> and std::is_same_v<decltype( b ), S> and std::is_same_v<decltype( d ), S> and std::is_same_v<decltype( e ), S> and std::is_same_v<decltype( g ), S> );
			static_assert( std::is_same_v<decltype( ca ), CS> and std::is_same_v<decltype( cb ), CS> and std::is_same_v<decltype( cd ), CS> and std::is_same_v<decltype( ce ), CS> and std::is_same_v<decltype( cg ), CS> );
			is( "span(container)", a, model, p );
			is( "span(pointer,size)", b, head, p );
			is( "span(pointers)", d, head, p );
			is( "span(array)", e, am, arr );
			is( "span(pointer,const pointer)", g, head, p );
			is( "span(const container)", ca, model, cv.data( ) );
			is( "span(const pointer,size)", cb, head, p );
			is( "span(const pointers)", cd, head, p );
			is( "span(const array)", ce, cam, carr );
			is( "span(const pointer,pointer)", cg, head, p );
			CS const from_mutable = a;
			is( "span to const", from_mutable, model, p );
			S const ka( v );
			auto cpy = ka.copy( );
			static_assert( std::is_same_v<decltype( cpy ), S> );
			is( "span.copy()", cpy, model, p );
			is( "const span.copy()", ca.copy( ), model, cv.data( ) );
			S w( o );
			VF_TRUE( c, "span assignment returns itself", &( w = a ) == &w );
			is( "span = span", w, model, p );
			is( "assigned from is unchanged", a, model, p );
			CS cw( other_arr );
			cw = ca;
			is( "const span = const span", cw, model, cv.data( ) );
			if( n ) { w[n - 1] = 77; VF_EQ( c, "span refers to its elements", v.back( ), 77 ); v.back( ) = model.back( ); }
		}
		c.op( "contiguous_view: made from" );
		{
			using W = daw::contiguous_view<int>;
			using CW = daw::contiguous_view<int const>;
			int *p = v.data( );
			int const *cp = p;
			daw::contiguous_view a( v ), b( p, part ), d( p, p + part ), e( arr ), f( v, part ), g( arr, std::size_t{ 2 } ), h( arr, 3 );
			daw::contiguous_view ca( cv ), cb( cp, part ), cd( cp, cp + part ), ce( carr ), cf( cv, part ), cg( carr, 2u );
			static_assert( std::is_same_v<decltype( a ), W> and std::is_same_v<decltype( b ), W> and std::is_same_v<decltype( d ), W> and std::is_same_v<decltype( e ), W> and std::is_same_v<decltype( f ), W> and std::is_same_v<decltype( g ), W> and std::is_same_v<decltype( h ), W> );
			static_assert( std::is_same_v<decltype( ca ), CW> and std::is_same_v<decltype( cb ), CW> and std::is_same_v<decltype( cd ), CW> and std::is_same_v<decltype( ce ), CW> and std::is_same_v<decltype( cf ), CW> and std::is_same_v<decltype( cg ), CW> );
			is( "contiguous_view(container)", a, model, p );
			is( "contiguous_view(pointer,size)", b, head, p );
			is( "contiguous_view(pointers)", d, head, p );
			is( "contiguous_view(array)", e, am, arr );
			is( "contiguous_view(container,count)", f, head, p );
			is( "contiguous_view(array,count)", g, V( arr, arr + 2 ), arr );
			is( "contiguous_view(array,count) ", h, V( arr, arr + 3 ), arr );
			is( "contiguous_view(const container)", ca, model, cv.data( ) );
			is( "contiguous_view(const pointer,size)", cb, head, p );
			is( "contiguous_view(const pointers)", cd, head, p );
			is( "contiguous_view(const array)", ce, cam, carr );
			is( "contiguous_view(const container,count)", cf, head, cv.data( ) );
			is( "contiguous_view(const array,count)", cg, V( carr, carr + 2 ), carr );
			W w( o );
			VF_TRUE( c, "contiguous_view assignment returns itself", &( w = a ) == &w );
			is( "contiguous_view = contiguous_view", w, model, p );
			CW cw( other_arr );
			cw = ca;
			is( "const contiguous_view = const contiguous_view", cw, model, cv.data( ) );
			auto const ss = static_cast<std::span<int const>>( a );
			is( "contiguous_view to std::span", ss, model, p );
			auto const css = static_cast<std::span<int const>>( ca );
			is( "contiguous_view to std::span<const>", css, model, cv.data( ) );
			if( r.chance( 1, 64 ) ) {
				VF_TRUE( c, "contiguous_view: a count past the end is refused", vf::outcome( [&] { daw::contiguous_view<int> x( v, n + 1 ); (void)x; } ) != vf::End::returned );
				VF_TRUE( c, "const contiguous_view: a count past the end is refused", vf::outcome( [&] { daw::contiguous_view<int const> x( cv, n + 1 ); (void)x; } ) != vf::End::returned );
			}
		}
		c.op( "iter_view: made from" );
		{
			std::list<int> l( model.begin( ), model.end( ) );
			std::list<int> const cl = l;
			std::deque<int> dq( other.begin( ), other.end( ) );
			daw::iter_view a( l ), b( l.begin( ), l.end( ) );
			daw::iter_view e( arr );
			daw::iter_view dv( dq );
			daw::iter_view ca( cl ), cb( cl.begin( ), cl.end( ) );
			daw::iter_view ce( carr );
			static_assert( std::is_same_v<decltype( a ), daw::iter_view<std::list<int>::iterator>> and std::is_same_v<decltype( a ), decltype( b )> and std::is_same_v<decltype( e ), daw::iter_view<int *>> );
			static_assert( std::is_same_v<decltype( ca ), daw::iter_view<std::list<int>::const_iterator>> and std::is_same_v<decltype( ca ), decltype( cb )> and std::is_same_v<decltype( ce ), daw::iter_view<int const *>> );
			int const *first = l.empty( ) ? nullptr : &l.front( ), *cfirst = cl.empty( ) ? nullptr : &cl.front( );
			is( "iter_view(list)", a, model, first );
			is( "iter_view(iterators)", b, model, first );
			is( "iter_view(array)", e, am, arr );
			is( "iter_view(deque)", dv, other, dq.empty( ) ? nullptr : &dq.front( ) );
			is( "iter_view(const list)", ca, model, cfirst );
			is( "iter_view(const iterators)", cb, model, cfirst );
			is( "iter_view(const array)", ce, cam, carr );
			daw::iter_view<std::list<int>::iterator> const counted( l.begin( ), part );
			is( "iter_view(iterator,size)", counted, head, first );
			daw::iter_view const copy_of( ca ), copy_const( copy_of );
			static_assert( std::is_same_v<decltype( copy_const ), decltype( ca ) const> );
			is( "iter_view copy", copy_const, model, cfirst );
			VF_EQ( c, "iter_view == iter_view", a == b, true );
			VF_EQ( c, "iter_view == part of it", a == counted, part == n );
			VF_EQ( c, "iter_view < ", counted < a, part < n );
		}
		c.op( "span_writer: const" );
		{
			daw::span_writer w( v );
			daw::span_writer<int> const k = w, kb( v, part ), none;
			static_assert( std::is_same_v<decltype( w ), daw::span_writer<int>> );
			VF_TRUE( c, "span_writer const access", k.data( ) == v.data( ) and k.begin( ) == v.data( ) and k.end( ) == v.data( ) + n and kb.end( ) - kb.begin( ) == static_cast<std::ptrdiff_t>( part ) and w.begin( ) == k.begin( ) and w.end( ) == k.end( ) );
			VF_TRUE( c, "empty span_writer", none.size( ) == 0 and none.begin( ) == none.end( ) );
			for( std::size_t i = 0; i < n; ++i )
				VF_TRUE( c, "span_writer const operator[]", &k[i] == &v[i] and &w[i] == &v[i] );
			VF_TRUE( c, "writing nothing", &w.write( ) == &w and w.size( ) == n and daw::write_to_span( std::span<int>( v ) ).size( ) == n );
			if( r.chance( 1, 64 ) ) VF_TRUE( c, "span_writer const operator[] past the end", vf::outcome( [&] { (void)k[n]; } ) == vf::End::aborted );
		}
		c.nontrivial( vf::mix( n, part ) );
	}

	VF_FAMILY( ring, 2500, 50000 ) {
		vf::LedgerScope led;
		std::size_t const cap = 1 + c.rng.below( 5 );
		auto run = [&]( auto &r, std::size_t capacity ) {
			std::deque<int> m;
			int next = 1;
			VF_EQ( c, "capacity", r.capacity( ), capacity );
			for( int step = 0; step < 24; ++step ) {
				switch( c.rng.below( 7 ) ) {
				case 0:
				case 1:
					if( m.size( ) < capacity ) {
						c.op( "push_back" );
						std::string const s = std::to_string( next );
						auto &ref = r.push_back( s );
						VF_EQ( c, "push_back returns the element", ref, s );
						m.push_back( next++ );
					}
					break;
				case 2:
					if( m.size( ) < capacity ) {
						c.op( "push_back move" );
						r.push_back( std::string( std::to_string( next ) ) );
						m.push_back( next++ );
					}
					break;
				case 3:
					if( m.size( ) < capacity ) {
						c.op( "emplace_back" );
						auto &ref = r.emplace_back( std::to_string( next ).c_str( ) );
						VF_EQ( c, "emplace_back returns the element", ref, std::to_string( next ) );
						m.push_back( next++ );
					}
					break;
				case 6:
					if( c.rng.chance( 1, 8 ) ) {
						c.op( "clear" );
						r.clear( );
						m.clear( );
					}
					break;
				default:
					if( not m.empty( ) ) {
						c.op( "pop_front" );
						VF_EQ( c, "pop_front", r.pop_front( ), std::to_string( m.front( ) ) );
						m.pop_front( );
					}
				}
				VF_EQ( c, "size", r.size( ), m.size( ) );
				VF_EQ( c, "is_empty", r.is_empty( ), m.empty( ) );
				VF_EQ( c, "is_full", r.is_full( ), m.size( ) == capacity );
				std::size_t i = 0;
				for( auto const &s : r ) {
					if( i < m.size( ) )
						VF_EQ( c, "iteration", s, std::to_string( m[i] ) );
					if( ++i > capacity )
						break;
				}
				VF_EQ( c, "iteration length", i, m.size( ) );
				i = 0;
				for( auto const &s : std::as_const( r ) ) {
					if( i < m.size( ) )
						VF_EQ( c, "const iteration", s, std::to_string( m[i] ) );
					if( ++i > capacity )
						break;
				}
				for( i = 0; i < m.size( ); ++i ) {
					VF_EQ( c, "[]", r[i], std::to_string( m[i] ) );
					VF_EQ( c, "const []", std::as_const( r )[i], std::to_string( m[i] ) );
				}
			}
			c.nontrivial( vf::mix( capacity, static_cast<std::uint64_t>( next ) ) );
		};
		if( c.rng.coin( ) ) {
			daw::ring_adaptor<std::vector<std::string>> r( cap );
			run( r, cap );
		} else {
			daw::ring_adaptor<std::array<std::string, 3>> r;
			run( r, 3 );
			auto r2 = r;
			VF_EQ( c, "copy size", r2.size( ), r.size( ) );
			for( std::size_t i = 0; i < r.size( ); ++i )
				VF_EQ( c, "copy element", r2[i], r[i] );
		}
	}

	VF_FAMILY( zip_containers, 1000, 15000 ) {
		V a = gen( c );
		std::list<long> b;
		for( std::size_t i = 0; i < a.size( ); ++i )
			b.push_back( static_cast<long>( c.rng.below( 50 ) ) );
		std::string s( a.size( ), 'q' );
		for( auto &ch : s )
			ch = static_cast<char>( 'a' + c.rng.below( 26 ) );
		auto z = daw::make_zipcontainer( a, b, s );
		std::size_t n = 0;
		auto lit = b.begin( );
		for( auto it = z.begin( ); it != z.end( ); ++it, ++lit ) {
			auto t = *it;
			VF_TRUE( c, "zip_container first", &std::get<0>( t ) == &a[n] );
			VF_TRUE( c, "zip_container second", &std::get<1>( t ) == &*lit );
			VF_TRUE( c, "zip_container third", &std::get<2>( t ) == &s[n] );
			if( ++n > a.size( ) )
				break;
		}
		VF_EQ( c, "zip_container length", n, a.size( ) );
		c.nontrivial( a.size( ) );
	}
} // namespace

VF_MAIN( )
