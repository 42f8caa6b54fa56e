// C21: the sorting networks and daw::sort/sort_to sort every input and only
// permute elements.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <daw/daw_sort_n.h>

#include "vf.h"

#include <algorithm>
#include <deque>
#include <forward_list>
#include <functional>
#include <limits>
#include <memory>
#include <list>
#include <string>
#include <vector>

namespace {
	struct El {
		int k = 0;
		int id = -1;
	};
	// an element that owns memory, a double move/lost move shows as a leak or a
	// wrong identity
	struct Owner {
		std::string k;
		std::unique_ptr<int> id;
	};
	// one comparator type for both directions: every instantiation of sort
	// contains all the networks
	template<typename T>
	struct Dir {
		bool desc = false;
		bool operator( )( T const &a, T const &b ) const {
			return desc ? b < a : a < b;
		}
	};
	template<>
	struct Dir<El> {
		bool desc = false;
		bool operator( )( El const &a, El const &b ) const {
			return desc ? b.k < a.k : a.k < b.k;
		}
	};
	struct ElLess : Dir<El> {};
	struct ElGreater : Dir<El> {
		ElGreater( )
		  : Dir<El>{ true } {}
	};

	template<std::size_t N, typename It, typename Cmp>
	void network( It f, Cmp &&cmp ) {
		if constexpr( N == 3 ) {
			daw::sort_3( f, cmp );
		} else if constexpr( N == 4 ) {
			daw::sort_4( f, cmp );
		} else if constexpr( N == 5 ) {
			daw::sort_5( f, cmp );
		} else if constexpr( N == 6 ) {
			daw::sort_6( f, cmp );
		} else if constexpr( N == 7 ) {
			daw::sort_7( f, cmp );
		} else if constexpr( N == 8 ) {
			daw::sort_8( f, cmp );
		} else if constexpr( N == 16 ) {
			daw::sort_16( f, cmp );
		} else {
			static_assert( N == 32 );
			daw::sort_32( f, cmp );
		}
	}

	// judge an array of keys+ids after sorting: sorted and a permutation
	template<typename Cmp>
	void judge( vf::Case &c, char const *what, std::vector<El> const &before,
	            El const *after, Cmp cmp ) {
		std::size_t const n = before.size( );
		std::vector<char> seen( n, 0 );
		bool ok = true;
		for( std::size_t i = 0; i < n; ++i ) {
			int const id = after[i].id;
			ok = ok and id >= 0 and static_cast<std::size_t>( id ) < n and
			     not seen[static_cast<std::size_t>( id )] and
			     before[static_cast<std::size_t>( id )].k == after[i].k;
			if( not ok ) {
				break;
			}
			seen[static_cast<std::size_t>( id )] = 1;
			if( i > 0 and cmp( after[i], after[i - 1] ) ) {
				ok = false;
				break;
			}
		}
		if( not ok ) {
			std::string in, out;
			for( std::size_t i = 0; i < n and i < 64; ++i ) {
				in += std::to_string( before[i].k ) + " ";
				out += std::to_string( after[i].k ) + "#" +
				       std::to_string( after[i].id ) + " ";
			}
			c.fail( what, vf::cat( "in: ", in, " out: ", out ) );
		}
	}

	template<std::size_t N>
	void one_network( vf::Case &c, std::vector<El> const &in ) {
		// guards on both sides
		std::array<El, N + 4> a{ };
		for( auto &e : a ) {
			e = El{ 5000, -7 };
		}
		auto run = [&]( Dir<El> cmp, char const *what ) {
			std::copy( in.begin( ), in.end( ), a.begin( ) + 2 );
			network<N>( a.begin( ) + 2, cmp );
			judge( c, what, in, a.data( ) + 2, cmp );
			for( std::size_t g : { std::size_t{ 0 }, std::size_t{ 1 }, N + 2, N + 3 } ) {
				if( a[g].k != 5000 or a[g].id != -7 ) {
					c.fail( "element next to the sorted range was touched", what );
				}
			}
		};
		static std::string const l = vf::cat( "sort_", N, " less" );
		static std::string const g = vf::cat( "sort_", N, " greater" );
		run( ElLess{ }, l.c_str( ) );
		run( ElGreater{ }, g.c_str( ) );
	}

	template<std::size_t N>
	void binary( vf::Case &c, std::uint64_t bits ) {
		std::vector<El> in( N );
		for( std::size_t i = 0; i < N; ++i ) {
			in[i] = El{ static_cast<int>( ( bits >> i ) & 1U ), static_cast<int>( i ) };
		}
		one_network<N>( c, in );
	}

	// every 0/1 input of the small networks
	VF_FAMILY( zero_one_small, 1, 1 ) {
		c.op( "all 0/1 inputs, n<=8" );
		std::size_t n = 0;
		auto all = [&]<std::size_t N>( std::integral_constant<std::size_t, N> ) {
			for( std::uint64_t b = 0; b < ( std::uint64_t{ 1 } << N ); ++b, ++n ) {
				binary<N>( c, b );
			}
		};
		all( std::integral_constant<std::size_t, 3>{ } );
		all( std::integral_constant<std::size_t, 4>{ } );
		all( std::integral_constant<std::size_t, 5>{ } );
		all( std::integral_constant<std::size_t, 6>{ } );
		all( std::integral_constant<std::size_t, 7>{ } );
		all( std::integral_constant<std::size_t, 8>{ } );
		c.count( "0/1 inputs, n<=8", n );
		c.nontrivial( n );
	}

	// the 2^16 inputs of sort_16, in slices
	VF_FAMILY( zero_one_16, 64, 64 ) {
		c.op( "0/1 inputs, n=16" );
		std::uint64_t const from = ( c.idx % 64U ) * 1024U;
		for( std::uint64_t b = from; b < from + 1024U; ++b ) {
			binary<16>( c, b );
		}
		c.count( "0/1 inputs, n=16", 1024 );
		c.nontrivial( from );
	}

	// sort_32: all thresholds of random permutations, sparse/dense inputs
	VF_FAMILY( zero_one_32, 60, 4000 ) {
		c.op( "0/1 inputs, n=32" );
		for( int r = 0; r < 100; ++r ) {
			std::uint64_t b = c.rng.next( );
			switch( c.rng.below( 5 ) ) {
			case 0:
				b &= c.rng.next( );
				break;
			case 1:
				b |= c.rng.next( );
				break;
			case 2:
				b = std::uint64_t{ 1 } << c.rng.below( 32 );
				break;
			case 3:
				b = ~( std::uint64_t{ 1 } << c.rng.below( 32 ) );
				break;
			default:
				break;
			}
			binary<32>( c, b & 0xFFFF'FFFFU );
			c.nontrivial( b & 0xFFFF'FFFFU );
		}
		// all inputs with at most two ones/zeros
		if( c.idx < 32 ) {
			for( std::uint64_t j = 0; j < 32; ++j ) {
				std::uint64_t const b =
				  ( std::uint64_t{ 1 } << c.idx ) | ( std::uint64_t{ 1 } << j );
				binary<32>( c, b );
				binary<32>( c, ~b & 0xFFFF'FFFFU );
			}
		}
		c.count( "0/1 inputs, n=32", 100 );
	}

	// every permutation and every weak order of the tiny ones
	VF_FAMILY( permutations, 6, 6 ) {
		c.op( "all permutations" );
		auto all = [&]<std::size_t N>( std::integral_constant<std::size_t, N> ) {
			std::vector<int> p( N );
			for( std::size_t i = 0; i < N; ++i ) {
				p[i] = static_cast<int>( i );
			}
			std::size_t n = 0;
			do {
				std::vector<El> in( N );
				for( std::size_t i = 0; i < N; ++i ) {
					in[i] = El{ p[i], static_cast<int>( i ) };
				}
				one_network<N>( c, in );
				// the general sort and sort_to on the same input
				Dir<El> const asc{ };
				if( n % 4U == c.rng.below( 4 ) or N <= 6 ) {
					std::vector<El> v = in;
					daw::sort( v.data( ), v.data( ) + N, std::as_const( asc ) );
					judge( c, "sort", in, v.data( ), ElLess{ } );
					auto ints = vf::Exact<int>( p.begin( ), N );
					std::vector<int> out( N );
					daw::sort_to( ints.data( ), ints.data( ) + N, out.data( ) );
					for( std::size_t i = 0; i < N; ++i ) {
						VF_EQ( c, "sort_to permutation", out[i], static_cast<int>( i ) );
					}
				}
				++n;
			} while( std::next_permutation( p.begin( ), p.end( ) ) );
			c.count( "permutations", n );
			c.nontrivial( N );
		};
		switch( c.idx % 6U ) {
		case 0:
			return all( std::integral_constant<std::size_t, 3>{ } );
		case 1:
			return all( std::integral_constant<std::size_t, 4>{ } );
		case 2:
			return all( std::integral_constant<std::size_t, 5>{ } );
		case 3:
			return all( std::integral_constant<std::size_t, 6>{ } );
		case 4:
			return all( std::integral_constant<std::size_t, 7>{ } );
		default:
			return all( std::integral_constant<std::size_t, 8>{ } );
		}
	}

	std::vector<El> shaped( vf::Case &c, std::size_t n ) {
		std::vector<El> v( n );
		unsigned const distinct =
		  c.rng.coin( ) ? static_cast<unsigned>( 1 + c.rng.below( 5 ) ) : 100000U;
		for( auto &e : v ) {
			e.k = static_cast<int>( c.rng.below( distinct ) ) -
			      static_cast<int>( distinct / 2U );
		}
		auto lt = []( El const &a, El const &b ) {
			return a.k < b.k;
		};
		switch( c.rng.below( 10 ) ) {
		case 0:
			std::sort( v.begin( ), v.end( ), lt );
			break;
		case 1:
			std::sort( v.rbegin( ), v.rend( ), lt );
			break;
		case 2: // organ pipe
			std::sort( v.begin( ), v.begin( ) + static_cast<std::ptrdiff_t>( n / 2 ), lt );
			std::sort( v.rbegin( ), v.rbegin( ) + static_cast<std::ptrdiff_t>( n - n / 2 ),
			           lt );
			break;
		case 3: { // nearly sorted
			std::sort( v.begin( ), v.end( ), lt );
			for( std::size_t i = 0, k = 1 + c.rng.below( 10 ); i < k and n > 1; ++i ) {
				std::swap( v[c.rng.below( n )], v[c.rng.below( n )] );
			}
			break;
		}
		case 4: // sawtooth
			for( std::size_t i = 0; i < n; ++i ) {
				v[i].k = static_cast<int>( i % 7U );
			}
			break;
		case 5: { // sorted with one block rotated
			std::sort( v.begin( ), v.end( ), lt );
			if( n > 2 ) {
				std::rotate( v.begin( ),
				             v.begin( ) + static_cast<std::ptrdiff_t>( c.rng.below( n ) ),
				             v.end( ) );
			}
			break;
		}
		case 6:
		case 7: { // sorted, with exchanges only inside the lower or the upper part:
			        // partitioning around the middle exchanges nothing
			std::sort( v.begin( ), v.end( ), lt );
			for( std::size_t k = 6 + c.rng.below( 12 ); k > 0 and n > 12; --k ) {
				bool const upper = c.rng.chance( 2, 3 );
				std::size_t const lo = upper ? n / 2 + 1 : 1;
				std::size_t const len = ( upper ? n - 1 : n / 2 ) - lo;
				std::swap( v[lo + c.rng.below( len )], v[lo + c.rng.below( len )] );
			}
			break;
		}
		default:
			break;
		}
		for( std::size_t i = 0; i < n; ++i ) {
			v[i].id = static_cast<int>( i );
		}
		return v;
	}

	std::size_t pick_size( vf::Case &c ) {
		switch( c.rng.below( 10 ) ) {
		case 0:
			return c.rng.below( 9 );
		case 1:
			return 16;
		case 2:
			return 32;
		case 3:
			return 28 + c.rng.below( 8 );
		case 4:
			return 995 + c.rng.below( 12 );
		case 5:
			return 1000 + c.rng.below( 1500 );
		default:
			return c.rng.below( 200 );
		}
	}

	VF_FAMILY( sort_any, 800, 30000 ) {
		for( int round = 0; round < 10; ++round ) {
			auto const in = shaped( c, pick_size( c ) );
			c.ctx( vf::cat( "n=", in.size( ) ) );
			c.nontrivial( vf::mix( in.size( ), c.rng.next( ) ) );
			std::size_t const n = in.size( );
			bool const desc = c.rng.chance( 1, 3 );
			c.op( desc ? "sort greater" : "sort less" );
			{ // trivially copyable elements, exact buffer
				auto v = vf::Exact<El>( in.begin( ), n );
				auto p = const_cast<El *>( v.data( ) );
				Dir<El> const cmp{ desc };
				daw::sort( p, p + n, cmp );
				judge( c, desc ? "sort greater" : "sort less", in, p, cmp );
			}
			{ // owning elements (the other insertion-sort limit), in a deque
				std::deque<Owner> d;
				for( auto const &e : in ) {
					d.push_back( Owner{ std::to_string( e.k + 5000000 ) + "-long-enough",
					                    std::make_unique<int>( e.id ) } );
				}
				auto const cmp = [desc]( Owner const &a, Owner const &b ) {
					return desc ? b.k < a.k : a.k < b.k;
				};
				daw::sort( d.begin( ), d.end( ), cmp );
				std::vector<El> out;
				for( auto const &o : d ) {
					if( not o.id ) {
						c.fail( "sort owning", "an element lost its value" );
						return;
					}
					int const id = *o.id;
					int const k = std::stoi( o.k.substr( 0, o.k.find( '-' ) ) ) - 5000000;
					out.push_back( El{ k, id } );
				}
				if( desc ) {
					judge( c, "sort owning greater", in, out.data( ), ElGreater{ } );
				} else {
					judge( c, "sort owning less", in, out.data( ), ElLess{ } );
				}
			}
			c.count( "general sorts", 2 );
		}
	}

	template<typename T>
	void ints( vf::Case &c ) {
		std::size_t const n = pick_size( c );
		std::vector<T> in( n );
		bool const small = c.rng.coin( );
		for( auto &e : in ) {
			e = small ? static_cast<T>( c.rng.below( 40 ) ) : c.rng.template edgy<T>( );
			if( small and std::is_signed_v<T> and c.rng.coin( ) ) {
				e = static_cast<T>( -e );
			}
		}
		bool const desc = c.rng.coin( );
		c.ctx( vf::cat( "n=", n, desc ? " desc" : " asc" ) );
		auto want = in;
		if( desc ) {
			std::sort( want.begin( ), want.end( ), std::greater<>{ } );
		} else {
			std::sort( want.begin( ), want.end( ) );
		}
		auto check = [&]( char const *what, std::vector<T> const &out, bool end_ok ) {
			VF_TRUE( c, what, end_ok );
			VF_TRUE( c, what, out == want );
		};
		auto src = vf::Exact<T>( in.begin( ), n );
		Dir<T> const cmp{ desc };
		{
			auto buf = vf::Exact<T>( std::vector<T>( n, T( 1 ) ).begin( ), n );
			auto p = const_cast<T *>( buf.data( ) );
			auto e = daw::sort_to( src.data( ), src.data( ) + n, p, cmp );
			check( "sort_to integers", std::vector<T>( p, p + n ), e == p + n );
			VF_TRUE( c, "sort_to leaves its source alone",
			         std::equal( in.begin( ), in.end( ), src.data( ) ) );
		}
		{
			std::forward_list<T> fl( in.begin( ), in.end( ) );
			std::vector<T> out( n );
			auto e = daw::sort_to( fl.begin( ), fl.end( ), out.data( ), cmp );
			check( "sort_to from forward iterators", out, e == out.data( ) + n );
		}
		{
			auto buf = vf::Exact<T>( in.begin( ), n );
			auto p = const_cast<T *>( buf.data( ) );
			daw::sort( p, p + n, cmp );
			check( "sort integers", std::vector<T>( p, p + n ), true );
		}
		if constexpr( std::is_same_v<T, int> ) {
			// the default comparison and the standard function object
			std::vector<int> out( n );
			auto e = desc ? daw::sort_to( src.data( ), src.data( ) + n, out.data( ),
			                              std::greater<>{ } )
			              : daw::sort_to( src.data( ), src.data( ) + n, out.data( ) );
			check( "sort_to integers with the default comparison", out,
			       e == out.data( ) + n );
		}
		c.nontrivial( vf::mix( n, c.rng.next( ) ) );
		c.count( "integer sorts", 3 );
	}

	VF_FAMILY( integers, 400, 20000 ) {
		c.op( "sort_to" );
		for( int r = 0; r < 6; ++r ) {
			switch( c.rng.below( 4 ) ) {
			case 0:
				ints<int>( c );
				break;
			case 1:
				ints<signed char>( c );
				break;
			default:
				ints<unsigned long>( c );
				break;
			}
		}
	}

	VF_FAMILY( sort_to_objects, 150, 5000 ) {
		c.op( "sort_to objects" );
		auto const in = shaped( c, c.rng.below( 300 ) );
		std::list<std::string> src;
		for( auto const &e : in ) {
			src.push_back( std::to_string( e.k ) );
		}
		auto const keep = src;
		std::vector<std::string> out( src.size( ) + 2, "guard" );
		std::vector<std::string> want( src.begin( ), src.end( ) );
		bool const desc = c.rng.coin( );
		Dir<std::string> const cmp{ desc };
		auto e = daw::sort_to( src.begin( ), src.end( ), out.begin( ), cmp );
		std::sort( want.begin( ), want.end( ), cmp );
		VF_EQ( c, "sort_to end", static_cast<std::size_t>( e - out.begin( ) ),
		       src.size( ) );
		VF_TRUE( c, "sort_to objects", std::equal( want.begin( ), want.end( ), out.begin( ) ) );
		VF_TRUE( c, "sort_to guard", out[src.size( )] == "guard" and out.back( ) == "guard" );
		VF_TRUE( c, "sort_to source", src == keep );
		c.nontrivial( vf::mix( in.size( ), c.rng.next( ) ) );
	}

	constexpr bool constant_sort( ) {
		int a[40]{ };
		for( int i = 0; i < 40; ++i ) {
			a[i] = ( i * 17 + 5 ) % 40;
		}
		daw::sort( a, a + 40 );
		for( int i = 0; i < 40; ++i ) {
			if( a[i] != i ) {
				return false;
			}
		}
		return true;
	}
	VF_FAMILY( constant, 1, 1 ) {
		c.op( "constant evaluation" );
		VF_TRUE( c, "sort at run time as in a constant expression", constant_sort( ) );
		c.nontrivial( 1 );
	}
} // namespace

VF_MAIN( )
