// C20: daw::container algorithms against the standard algorithms on begin/end.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include <daw/daw_container_algorithm.h>

#include "vf.h"

#include <algorithm>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <numeric>
#include <string>
#include <vector>

namespace {
	namespace dc = daw::container;

	// equal by key only, so the identity of "which one" is observable
	struct El {
		int k = 0;
		int id = -1;
		friend bool operator==( El const &a, El const &b ) {
			return a.k == b.k;
		}
		friend bool operator!=( El const &a, El const &b ) {
			return a.k != b.k;
		}
		friend bool operator<( El const &a, El const &b ) {
			return a.k < b.k;
		}
		friend bool operator>( El const &a, El const &b ) {
			return b.k < a.k;
		}
	};
	using Ids = std::vector<std::pair<int, int>>;
	template<typename C>
	Ids ids( C const &c ) {
		Ids r;
		for( El const &e : c ) {
			r.emplace_back( e.k, e.id );
		}
		return r;
	}
	std::string show( Ids const &v ) {
		std::string r;
		for( auto const &p : v ) {
			r += vf::cat( p.first, "#", p.second, " " );
		}
		return r;
	}
	template<typename C>
	C elements( vf::Case &c, std::size_t max ) {
		C r( c.rng.below( c.rng.chance( 1, 5 ) ? 60 : max + 1 ) );
		unsigned const distinct = static_cast<unsigned>( 1 + c.rng.below( 6 ) );
		int n = 0;
		for( auto &e : r ) {
			e.k = static_cast<int>( c.rng.below( distinct ) );
			e.id = n++;
		}
		return r;
	}
	void same( vf::Case &c, char const *what, Ids const &got, Ids const &want ) {
		if( got != want ) {
			c.fail( what, vf::cat( "got ", show( got ), " want ", show( want ) ) );
		}
	}

	// list-friendly variants: positions compared by distance within v itself
	template<typename C>
	void all_queries( vf::Case &c ) {
		C v = elements<C>( c, 12 );
		C const cv = v;
		Ids const before = ids( cv );
		c.ctx( show( before ) );
		c.nontrivial( vf::mix( before.size( ), c.rng.next( ) ) );
		El const key{ static_cast<int>( c.rng.below( 7 ) ), -5 };
		int const t = static_cast<int>( c.rng.below( 7 ) );
		auto const pred = [t]( El const &e ) {
			return e.k == t or e.k == t + 2;
		};
		auto const at_v = [&]( auto it ) {
			return std::distance( v.cbegin( ), typename C::const_iterator( it ) );
		};
		auto const at_c = [&]( auto it ) {
			return std::distance( cv.cbegin( ), typename C::const_iterator( it ) );
		};
		auto const want_find =
		  at_c( std::find( cv.begin( ), cv.end( ), key ) );
		auto const want_if =
		  at_c( std::find_if( cv.begin( ), cv.end( ), pred ) );
		c.op( "find" );
		VF_EQ( c, "find", at_v( dc::find( v, key ) ), want_find );
		VF_EQ( c, "find const", at_c( dc::find( cv, key ) ), want_find );
		static_assert( std::is_same_v<decltype( dc::find( v, key ) ),
		                              typename C::iterator> );
		c.op( "find_if" );
		VF_EQ( c, "find_if", at_v( dc::find_if( v, pred ) ), want_if );
		VF_EQ( c, "find_if const", at_c( dc::find_if( cv, pred ) ), want_if );
		c.op( "contains" );
		bool const has = std::find( cv.begin( ), cv.end( ), key ) != cv.end( );
		VF_EQ( c, "contains value", dc::contains( v, key ), has );
		VF_EQ( c, "contains value const", dc::contains( cv, El{ key } ), has );
		bool const any = std::any_of( cv.begin( ), cv.end( ), pred );
		VF_EQ( c, "contains predicate", dc::contains( cv, pred ), any );
		VF_EQ( c, "contains predicate", dc::contains( v, pred ), any );
		c.op( "max_element" );
		auto const want_max = at_c( std::max_element( cv.begin( ), cv.end( ) ) );
		auto const want_min =
		  at_c( std::max_element( cv.begin( ), cv.end( ), std::greater<>{ } ) );
		VF_EQ( c, "max_element", at_v( dc::max_element( v ) ), want_max );
		VF_EQ( c, "max_element const", at_c( dc::max_element( cv ) ), want_max );
		VF_EQ( c, "max_element compare",
		       at_v( dc::max_element( v, std::greater<El>{ } ) ), want_min );
		VF_EQ( c, "max_element compare const",
		       at_c( dc::max_element( cv, std::greater<El>{ } ) ), want_min );
		c.op( "container_size" );
		VF_EQ( c, "container_size", dc::container_size( cv ), before.size( ) );
		c.op( "accumulate" );
		// an order-revealing fold
		auto const step = []( std::string s, El const &e ) {
			return s + std::to_string( e.id ) + ",";
		};
		VF_EQ( c, "accumulate", dc::accumulate( cv, std::string( "<" ), step ),
		       std::accumulate( cv.begin( ), cv.end( ), std::string( "<" ), step ) );
		c.op( "for_each_with_pos" );
		{
			std::vector<std::pair<int, std::size_t>> got, want;
			dc::for_each_with_pos( cv, [&]( El const &e, std::size_t p ) {
				got.emplace_back( e.id, p );
			} );
			for( std::size_t i = 0; i < before.size( ); ++i ) {
				want.emplace_back( before[i].second, i );
			}
			VF_TRUE( c, "for_each_with_pos", got == want );
			std::size_t const a = c.rng.below( before.size( ) + 1 );
			std::size_t const b = a + c.rng.below( before.size( ) - a + 1 );
			got.clear( );
			dc::for_each_with_pos( v, a, b, [&]( El &e, std::size_t p ) {
				got.emplace_back( e.id, p );
			} );
			want.assign( want.begin( ) + static_cast<std::ptrdiff_t>( a ),
			             want.begin( ) + static_cast<std::ptrdiff_t>( b ) );
			VF_TRUE( c, "for_each_with_pos part", got == want );
		}
		c.op( "copy" );
		{
			Ids got;
			std::vector<El> out( before.size( ) + 1, El{ 99, 99 } );
			dc::copy( cv, out.begin( ) );
			VF_TRUE( c, "copy stays within the size", out.back( ).id == 99 );
			out.pop_back( );
			same( c, "copy", ids( out ), before );
			std::size_t const n = c.rng.below( before.size( ) + 3 );
			std::vector<El> out2;
			dc::copy_n( cv, n, std::back_inserter( out2 ) );
			same( c, "copy_n", ids( out2 ),
			      Ids( before.begin( ),
			           before.begin( ) + static_cast<std::ptrdiff_t>(
			                               std::min( n, before.size( ) ) ) ) );
			std::vector<El> out3( before.size( ), El{ 99, 99 } ), want3 = out3;
			auto e = dc::copy_if( cv, out3.begin( ), pred );
			auto we = std::copy_if( cv.begin( ), cv.end( ), want3.begin( ), pred );
			same( c, "copy_if", ids( out3 ), ids( want3 ) );
			VF_EQ( c, "copy_if end", e - out3.begin( ), we - want3.begin( ) );
		}
		c.op( "transform" );
		{
			auto const fn = []( El const &e ) {
				return El{ e.k * 10, e.id };
			};
			std::vector<El> want;
			std::transform( cv.begin( ), cv.end( ), std::back_inserter( want ), fn );
			std::vector<El> out( before.size( ), El{ 99, 99 } );
			auto first = out.begin( );
			auto e = dc::transform( cv, first, fn );
			same( c, "transform to iterator", ids( out ), ids( want ) );
			VF_TRUE( c, "transform end", e == out.end( ) );
			std::vector<El> out2;
			*dc::transform( cv, std::back_inserter( out2 ), fn ) = El{ 1, 77 };
			auto want2 = want;
			want2.push_back( El{ 1, 77 } );
			same( c, "transform to temporary iterator", ids( out2 ), ids( want2 ) );
		}
		same( c, "the source is unchanged by queries", ids( v ), before );
		same( c, "the const source is unchanged by queries", ids( cv ), before );
		c.count( "query rounds", 1 );
	}

	template<typename C>
	void mutations( vf::Case &c ) {
		C const orig = elements<C>( c, 14 );
		Ids const before = ids( orig );
		c.ctx( show( before ) );
		c.nontrivial( vf::mix( before.size( ), c.rng.next( ) ) );
		int const t = static_cast<int>( c.rng.below( 6 ) );
		auto const pred = [t]( El const &e ) {
			return e.k <= t;
		};
		{
			c.op( "erase_remove" );
			C v = orig, w = orig;
			auto it = dc::erase_remove( v, El{ t, -9 } );
			w.erase( std::remove( w.begin( ), w.end( ), El{ t, -9 } ), w.end( ) );
			same( c, "erase_remove", ids( v ), ids( w ) );
			VF_TRUE( c, "erase_remove result", it == v.end( ) );
			C x = orig, y = orig;
			auto it2 = dc::erase_remove_if( x, pred );
			y.erase( std::remove_if( y.begin( ), y.end( ), pred ), y.end( ) );
			same( c, "erase_remove_if", ids( x ), ids( y ) );
			VF_TRUE( c, "erase_remove_if result", it2 == x.end( ) );
		}
		{
			c.op( "partition" );
			C v = orig;
			auto it = dc::partition( v, pred );
			VF_TRUE( c, "partition front", std::all_of( v.begin( ), it, pred ) );
			VF_TRUE( c, "partition back", std::none_of( it, v.end( ), pred ) );
			auto a = ids( v ), b = before;
			std::sort( a.begin( ), a.end( ) );
			std::sort( b.begin( ), b.end( ) );
			same( c, "partition conserves", a, b );
			C x = orig, y = orig;
			auto sx = dc::stable_partition( x, pred );
			auto sy = std::stable_partition( y.begin( ), y.end( ), pred );
			same( c, "stable_partition", ids( x ), ids( y ) );
			VF_EQ( c, "stable_partition point", std::distance( x.begin( ), sx ),
			       std::distance( y.begin( ), sy ) );
		}
		{
			c.op( "transform" );
			C v = orig;
			auto e = dc::transform( v, []( El const &x ) {
				return El{ -x.k, x.id + 100 };
			} );
			Ids want = before;
			for( auto &p : want ) {
				p.first = -p.first;
				p.second += 100;
			}
			same( c, "transform in place", ids( v ), want );
			VF_TRUE( c, "transform in place end", e == v.end( ) );
		}
		{
			c.op( "append" );
			C v = elements<C>( c, 5 );
			Ids want = ids( v );
			std::list<El> src( orig.begin( ), orig.end( ) );
			dc::append( src, v );
			want.insert( want.end( ), before.begin( ), before.end( ) );
			same( c, "append", ids( v ), want );
			dc::append( orig, v );
			want.insert( want.end( ), before.begin( ), before.end( ) );
			same( c, "append same type", ids( v ), want );
			same( c, "append leaves its source", ids( src ), before );
		}
		if constexpr( not std::is_same_v<C, std::list<El>> ) {
			c.op( "sort" );
			C v = orig, w = orig;
			dc::sort( v );
			auto keys = [&]( C const &x ) {
				std::vector<int> r;
				for( El const &e : x ) {
					r.push_back( e.k );
				}
				return r;
			};
			auto conserve = [&]( char const *what, C const &x ) {
				auto a = ids( x ), b = before;
				std::sort( a.begin( ), a.end( ) );
				std::sort( b.begin( ), b.end( ) );
				same( c, what, a, b );
			};
			VF_TRUE( c, "sort", std::is_sorted( v.begin( ), v.end( ) ) );
			conserve( "sort conserves", v );
			v = orig;
			dc::sort( v, std::greater<El>{ } );
			VF_TRUE( c, "sort compare",
			         std::is_sorted( v.begin( ), v.end( ), std::greater<El>{ } ) );
			conserve( "sort compare conserves", v );
			c.op( "stable_sort" );
			v = orig;
			dc::stable_sort( v );
			std::stable_sort( w.begin( ), w.end( ) );
			same( c, "stable_sort", ids( v ), ids( w ) );
			v = orig;
			w = orig;
			dc::stable_sort( v, std::greater<El>{ } );
			std::stable_sort( w.begin( ), w.end( ), std::greater<El>{ } );
			same( c, "stable_sort compare", ids( v ), ids( w ) );
			c.op( "for_each_subset" );
			std::size_t const a = c.rng.below( before.size( ) + 1 );
			std::size_t const b = a + c.rng.below( before.size( ) - a + 1 );
			v = orig;
			Ids want = before;
			std::vector<std::size_t> seen;
			dc::for_each_subset( v, a, b, [&]( C &cc, std::size_t i ) {
				seen.push_back( i );
				cc[i].k = 1000 + static_cast<int>( i );
			} );
			std::vector<std::size_t> wseen;
			for( std::size_t i = a; i < b; ++i ) {
				wseen.push_back( i );
				want[i].first = 1000 + static_cast<int>( i );
			}
			VF_TRUE( c, "for_each_subset positions", seen == wseen );
			same( c, "for_each_subset", ids( v ), want );
			// an empty or backwards window does nothing
			seen.clear( );
			dc::for_each_subset( v, b, a, [&]( C const &, std::size_t i ) {
				seen.push_back( i );
			} );
			VF_TRUE( c, "for_each_subset backwards window", seen.empty( ) );
		}
		same( c, "the original is unchanged", ids( orig ), before );
		c.count( "mutation rounds", 1 );
	}

	VF_FAMILY( query_vector, 300, 20000 ) {
		for( int i = 0; i < 10; ++i ) {
			all_queries<std::vector<El>>( c );
		}
	}
	VF_FAMILY( query_list, 300, 20000 ) {
		for( int i = 0; i < 10; ++i ) {
			all_queries<std::list<El>>( c );
		}
	}
	VF_FAMILY( query_deque, 200, 10000 ) {
		for( int i = 0; i < 10; ++i ) {
			all_queries<std::deque<El>>( c );
		}
	}
	VF_FAMILY( mutate_vector, 300, 20000 ) {
		for( int i = 0; i < 10; ++i ) {
			mutations<std::vector<El>>( c );
		}
	}
	VF_FAMILY( mutate_list, 300, 20000 ) {
		for( int i = 0; i < 10; ++i ) {
			mutations<std::list<El>>( c );
		}
	}
	VF_FAMILY( mutate_deque, 200, 10000 ) {
		for( int i = 0; i < 10; ++i ) {
			mutations<std::deque<El>>( c );
		}
	}

	VF_FAMILY( others, 200, 5000 ) {
		for( int i = 0; i < 10; ++i ) {
			std::string s;
			for( std::size_t n = c.rng.below( 30 ); n > 0; --n ) {
				s.push_back( static_cast<char>( 'a' + c.rng.below( 4 ) ) );
			}
			c.ctx( s );
			c.nontrivial( std::hash<std::string>{ }( s ) );
			std::string const cs = s;
			c.op( "string" );
			VF_EQ( c, "contains char", dc::contains( cs, 'b' ),
			       cs.find( 'b' ) != std::string::npos );
			VF_EQ( c, "find char",
			       static_cast<std::size_t>( dc::find( cs, 'c' ) - cs.begin( ) ),
			       std::min( cs.find( 'c' ), cs.size( ) ) );
			auto want = cs;
			want.erase( std::remove( want.begin( ), want.end( ), 'a' ), want.end( ) );
			dc::erase_remove( s, 'a' );
			VF_EQ( c, "erase_remove char", s, want );
			dc::append( cs, s );
			VF_EQ( c, "append string", s, want + cs );
			std::map<int, int> m;
			for( std::size_t n = c.rng.below( 8 ); n > 0; --n ) {
				m[static_cast<int>( c.rng.below( 10 ) )] = static_cast<int>( n );
			}
			std::vector<std::pair<int, int>> vec{ { -1, -1 } };
			dc::append( m, vec );
			VF_EQ( c, "append map to vector", vec.size( ), m.size( ) + 1 );
			VF_TRUE( c, "append map to vector",
			         std::equal( m.begin( ), m.end( ), vec.begin( ) + 1,
			                     []( auto const &a, auto const &b ) {
				                     return a.first == b.first and
				                            a.second == b.second;
			                     } ) );
			int arr[5]{ 1, 2, 3, 4, 5 };
			VF_EQ( c, "container_size array", dc::container_size( arr ),
			       std::size_t{ 5 } );
			std::vector<int> nums( c.rng.len( 19 ) );
			for( auto &e : nums ) {
				e = static_cast<int>( c.rng.below( 1000 ) );
			}
			VF_EQ( c, "accumulate sum", dc::accumulate( nums, 10LL ),
			       std::accumulate( nums.begin( ), nums.end( ), 10LL ) );
		}
	}
} // namespace

VF_MAIN( )
