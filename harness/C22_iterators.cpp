// C22: iterator adaptors yield the sequence their name defines and their
// arithmetic, comparisons and dereference agree with a position in a sequence.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <daw/iterator/daw_reverse_iterator.h>

#include <daw/iterator/InputIterator.h>
#include <daw/iterator/daw_argument_iterator.h>
#include <daw/iterator/daw_back_inserter.h>
#include <daw/iterator/daw_checked_iterator_proxy.h>
#include <daw/iterator/daw_chunk_iterator.h>
#include <daw/iterator/daw_circular_iterator.h>
#include <daw/iterator/daw_counting_iterators.h>
#include <daw/iterator/daw_end_inserter.h>
#include <daw/iterator/daw_find_iterator.h>
#include <daw/iterator/daw_find_one_iterator.h>
#include <daw/iterator/daw_function_iterator.h>
#include <daw/iterator/daw_indexed_iterator.h>
#include <daw/iterator/daw_inserter.h>
#include <daw/iterator/daw_integer_iterator.h>
#include <daw/iterator/daw_iota_iterator.h>
#include <daw/iterator/daw_output_stream_iterator.h>
#include <daw/iterator/daw_pointer_iterator.h>
#include <daw/iterator/daw_random_iterator.h>
#include <daw/iterator/daw_repeat_n_char_iterator.h>
#include <daw/iterator/daw_sorted_insert_iterator.h>
#include <daw/iterator/daw_zipiter.h>

#include "vf.h"
#include "vf_types.h"

#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace {
	enum : unsigned {
		DEC = 1,    // --
		RA = 2,     // it += n, it -= n, it + n, it - n
		DIFF = 4,   // it - it
		CMP = 8,    // < <= > >=
		SUB = 16,   // it[n]
		ARROW = 32, // it->k
		NPLUS = 64, // n + it
		CMUT = 128, // the const * differs (ok to call)
		FULL = DEC | RA | DIFF | CMP | SUB
	};

	struct Cell {
		int k = 0;
		friend bool operator==( Cell const &, Cell const & ) = default;
		friend std::ostream &operator<<( std::ostream &os, Cell const &c ) {
			return os << c.k;
		}
	};
	std::vector<Cell> cells( vf::Case &c, std::size_t n, int lim ) {
		std::vector<Cell> v( n );
		for( auto &x : v ) {
			x.k = static_cast<int>( c.rng.below( static_cast<unsigned>( lim ) ) );
		}
		return v;
	}
	bool val_eq( Cell const &a, Cell const &b ) {
		return a == b;
	}
	template<typename A, typename B>
	bool val_eq( A const &a, B const &b ) {
		return a == b;
	}

	// Walk first..first+n at random, with a second iterator at another position
	template<unsigned Caps, typename It, typename Val>
	void walk( vf::Case &c, char const *what, It const first,
	           std::vector<Val> const &vals, std::size_t steps = 24 ) {
		using diff = std::ptrdiff_t;
		auto const n = static_cast<diff>( vals.size( ) );
		It it = first;
		It other = first;
		diff p = 0;
		diff q = 0;
		auto check = [&]( char const *op ) {
			auto const lbl = vf::cat( what, " ", op );
			char const *l = lbl.c_str( );
			if( p < n ) {
				if( not val_eq( *it, vals[static_cast<std::size_t>( p )] ) ) {
					c.fail( l, vf::cat( "wrong element at position ", p, " of ", n ) );
				}
				It const &cit = it;
				if( not val_eq( *cit, vals[static_cast<std::size_t>( p )] ) ) {
					c.fail( l, vf::cat( "wrong const element at ", p, " of ", n ) );
				}
				if constexpr( Caps & ARROW ) {
					if( it->k != vals[static_cast<std::size_t>( p )].k ) {
						c.fail( l, vf::cat( "wrong member at ", p, " of ", n ) );
					}
				}
			}
			It const &a = it;
			It const &b = other;
			VF_EQ( c, l, static_cast<bool>( a == b ), p == q );
			VF_EQ( c, l, static_cast<bool>( a != b ), p != q );
			if constexpr( Caps & CMP ) {
				VF_EQ( c, l, static_cast<bool>( a < b ), p < q );
				VF_EQ( c, l, static_cast<bool>( a <= b ), p <= q );
				VF_EQ( c, l, static_cast<bool>( a > b ), p > q );
				VF_EQ( c, l, static_cast<bool>( a >= b ), p >= q );
			}
			if constexpr( Caps & DIFF ) {
				VF_EQ( c, l, static_cast<diff>( a - b ), p - q );
				VF_EQ( c, l, static_cast<diff>( b - a ), q - p );
			}
			if constexpr( Caps & SUB ) {
				if( n > 0 ) {
					auto const j =
					  static_cast<diff>( c.rng.below( static_cast<std::size_t>( n ) ) );
					if( not val_eq( a[static_cast<diff>( j - p )],
					                vals[static_cast<std::size_t>( j )] ) ) {
						c.fail( l, vf::cat( "wrong subscript ", j - p, " at ", p ) );
					}
				}
			}
		};
		check( "start" );
		for( std::size_t s = 0; s < steps; ++s ) {
			auto const t = static_cast<diff>(
			  c.rng.below( static_cast<std::size_t>( n + 1 ) ) ); // target
			switch( c.rng.below( 11 ) ) {
			case 0:
			case 1:
				if( p < n ) {
					auto &&r = ++it;
					++p;
					VF_TRUE( c, what, r == it );
					check( "++it" );
				}
				break;
			case 2:
				if( p < n ) {
					auto old = it++;
					++p;
					if( not val_eq( *old, vals[static_cast<std::size_t>( p - 1 )] ) ) {
						c.fail( what, vf::cat( "it++ gave another position at ", p - 1 ) );
					}
					check( "it++" );
				}
				break;
			case 3:
				if constexpr( Caps & DEC ) {
					if( p > 0 ) {
						--it;
						--p;
						check( "--it" );
					}
				}
				break;
			case 4:
				if constexpr( Caps & DEC ) {
					if( p > 0 ) {
						auto old = it--;
						--p;
						VF_TRUE( c, what, old != it );
						auto again = it;
						++again;
						VF_TRUE( c, what, old == again );
						check( "it--" );
					}
				}
				break;
			case 5:
				if constexpr( Caps & RA ) {
					it += ( t - p );
					p = t;
					check( "it += n" );
				}
				break;
			case 6:
				if constexpr( Caps & RA ) {
					it -= ( p - t );
					p = t;
					check( "it -= n" );
				}
				break;
			case 7:
				if constexpr( Caps & RA ) {
					It const &cit = it;
					it = cit + ( t - p );
					p = t;
					check( "it + n" );
				}
				break;
			case 8:
				if constexpr( Caps & RA ) {
					It const &cit = it;
					it = cit - ( p - t );
					p = t;
					check( "it - n" );
				}
				break;
			case 9:
				if constexpr( Caps & NPLUS ) {
					it = ( t - p ) + it;
					p = t;
					check( "n + it" );
				}
				break;
			default:
				if( c.rng.coin( ) ) {
					other = it;
					q = p;
				} else {
					std::swap( it, other );
					std::swap( p, q );
				}
				check( "copy" );
			}
			c.nontrivial( vf::mix( static_cast<std::uint64_t>( n ),
			                       static_cast<std::uint64_t>( p * 131 + q ) ) );
		}
	}
	// Forward traversal to the end
	template<typename It, typename End, typename Val>
	void forward( vf::Case &c, char const *what, It f, End const l,
	              std::vector<Val> const &vals ) {
		std::size_t n = 0;
		for( ; f != l; ++f, ++n ) {
			if( n >= vals.size( ) ) {
				c.fail( what, vf::cat( "more than ", vals.size( ), " elements" ) );
				return;
			}
			if( not val_eq( *f, vals[n] ) ) {
				c.fail( what, vf::cat( "wrong element ", n ) );
				return;
			}
		}
		VF_EQ( c, what, n, vals.size( ) );
		c.nontrivial( vf::mix( n, vals.size( ) + 77 ) );
	}
} // namespace

VF_FAMILY( reverse, 1500, 20000 ) {
	auto const v = cells( c, c.rng.len( 8 ), 100 );
	auto rev = v;
	std::reverse( rev.begin( ), rev.end( ) );
	vf::Exact<Cell> ex( v.begin( ), v.size( ) );
	Cell *f = ex.data( );
	Cell *l = f + v.size( );
	c.op( "reverse(pointer)" );
	walk<FULL | ARROW | NPLUS>( c, "reverse(pointer)",
	                            daw::make_reverse_iterator( l ), rev );
	forward( c, "reverse range", daw::reverse_iterator<Cell *>( l ),
	         daw::reverse_iterator<Cell *>( f ), rev );
	VF_TRUE( c, "reverse base", daw::reverse_iterator<Cell *>( l ).base( ) == l );
	// mixed constness
	auto const i = static_cast<std::ptrdiff_t>( c.rng.below( v.size( ) + 1 ) );
	auto const j = static_cast<std::ptrdiff_t>( c.rng.below( v.size( ) + 1 ) );
	daw::reverse_iterator<Cell *> const a( l - i );
	daw::reverse_iterator<Cell const *> const b( l - j );
	VF_EQ( c, "reverse mixed ==", a == b, i == j );
	VF_EQ( c, "reverse mixed !=", a != b, i != j );
	VF_EQ( c, "reverse mixed <", a < b, i < j );
	VF_EQ( c, "reverse mixed <=", a <= b, i <= j );
	VF_EQ( c, "reverse mixed >", a > b, i > j );
	VF_EQ( c, "reverse mixed >=", a >= b, i >= j );
	VF_EQ( c, "reverse mixed -", a - b, i - j );
	c.op( "reverse(list)" );
	std::list<Cell> li( v.begin( ), v.end( ) );
	walk<DEC | ARROW>( c, "reverse(list)",
	                   daw::make_reverse_iterator( li.end( ) ), rev );
	c.op( "reverse(deque) write" );
	std::deque<Cell> dq( v.begin( ), v.end( ) );
	int k = 1000;
	for( auto it = daw::make_reverse_iterator( dq.end( ) );
	     it != daw::make_reverse_iterator( dq.begin( ) ); ++it ) {
		( *it ).k = k++;
	}
	for( std::size_t n = 0; n < dq.size( ); ++n ) {
		VF_EQ( c, "reverse write", dq[n].k,
		       1000 + static_cast<int>( dq.size( ) - 1 - n ) );
	}
}

VF_FAMILY( circular, 2000, 30000 ) {
	auto v = cells( c, 1 + c.rng.len( 6 ), 100 );
	auto const sz = static_cast<std::ptrdiff_t>( v.size( ) );
	using It = daw::circular_iterator<std::vector<Cell>>;
	std::ptrdiff_t p = static_cast<std::ptrdiff_t>( c.rng.below( v.size( ) ) );
	It it = c.rng.coin( )
	          ? daw::make_circular_iterator( v, v.begin( ) + p )
	          : ( c.rng.coin( ) ? It( &v, v.begin( ) + p )
	                            : daw::make_circular_iterator( v ) + p );
	std::ptrdiff_t q = 0;
	It other = c.rng.coin( ) ? It( v ) : It( &v );
	auto wrap = [&]( std::ptrdiff_t n ) {
		return ( ( n % sz ) + sz ) % sz;
	};
	for( int s = 0; s < 24; ++s ) {
		std::ptrdiff_t n = c.rng.range( -3 * sz - 1, 3 * sz + 1 );
		if( c.rng.chance( 1, 8 ) ) {
			n = c.rng.range( -1'000'000, 1'000'000 );
		}
		char const *op = "";
		It const &cit = it;
		switch( c.rng.below( 10 ) ) {
		case 0:
			op = "circular ++it";
			++it;
			p = wrap( p + 1 );
			break;
		case 1: {
			op = "circular it++";
			auto const old = it++;
			VF_TRUE( c, op, &*old == &v[static_cast<std::size_t>( p )] );
			p = wrap( p + 1 );
		} break;
		case 2:
			op = "circular --it";
			--it;
			p = wrap( p - 1 );
			break;
		case 3: {
			op = "circular it--";
			auto const old = it--;
			VF_TRUE( c, op, &*old == &v[static_cast<std::size_t>( p )] );
			p = wrap( p - 1 );
		} break;
		case 4:
			op = "circular +=";
			it += n;
			p = wrap( p + n );
			break;
		case 5:
			op = "circular -=";
			it -= n;
			p = wrap( p - n );
			break;
		case 6:
			op = "circular +";
			it = cit + n;
			p = wrap( p + n );
			break;
		case 7:
			op = "circular -";
			it = cit - n;
			p = wrap( p - n );
			break;
		case 8:
			op = "circular swap";
			std::swap( it, other );
			std::swap( p, q );
			break;
		default:
			op = "circular copy";
			other = it;
			q = p;
		}
		c.op( op );
		VF_TRUE( c, op, &*cit == &v[static_cast<std::size_t>( p )] );
		VF_TRUE( c, op, &*it == &v[static_cast<std::size_t>( p )] );
		VF_EQ( c, op, it->k, v[static_cast<std::size_t>( p )].k );
		VF_EQ( c, op, it == other, p == q );
		VF_EQ( c, op, it != other, p != q );
		VF_EQ( c, op, it < other, p < q );
		VF_EQ( c, op, it <= other, p <= q );
		VF_EQ( c, op, it > other, p > q );
		VF_EQ( c, op, it >= other, p >= q );
		VF_EQ( c, op, it - other, p - q );
		VF_TRUE( c, op, it != it.end( ) );
		VF_TRUE( c, op, it < it.end( ) );
		VF_EQ( c, op, it.end( ) - it, sz - p );
		c.nontrivial( vf::mix( static_cast<std::uint64_t>( sz * 64 + p ),
		                       static_cast<std::uint64_t>( n ) ) );
	}
	// same position, other container
	auto w = v;
	VF_TRUE( c, "circular containers", It( w ) != It( v ) );
	VF_TRUE( c, "circular containers", not( It( w ) == It( v ) ) );
	c.op( "circular assigned across containers" );
	w.resize( w.size( ) + 1 + c.rng.below( 3 ) );
	std::vector<Cell> *own[] = { &v, &w };
	std::size_t at[3] = { 0, 0, 1 };
	std::ptrdiff_t ps[3] = { 0, 0, 0 };
	It its[3] = { It( v ), It( v ), It( w ) };
	for( int s = 0; s < 20; ++s ) {
		auto const a = c.rng.below( 3 );
		auto const b = c.rng.below( 3 );
		switch( c.rng.below( 4 ) ) {
		case 0:
			its[a] = its[b];
			at[a] = at[b];
			ps[a] = ps[b];
			break;
		case 1: {
			It tmp( its[b] );
			its[a] = std::move( tmp );
			at[a] = at[b];
			ps[a] = ps[b];
		} break;
		case 2: {
			It tmp( its[a] );
			It moved( std::move( tmp ) );
			std::swap( its[b], moved );
			at[b] = at[a];
			ps[b] = ps[a];
		} break;
		default: {
			auto const len = static_cast<std::ptrdiff_t>( own[at[a]]->size( ) );
			its[a] -= 1;
			ps[a] = ( ps[a] + len - 1 ) % len;
		}
		}
		for( std::size_t k = 0; k < 3; ++k ) {
			VF_TRUE( c, "circular assigned",
			         &*its[k] ==
			           &( *own[at[k]] )[static_cast<std::size_t>( ps[k] )] );
			VF_EQ( c, "circular assigned ==", its[k] == its[0],
			       at[k] == at[0] and ps[k] == ps[0] );
		}
	}
	std::array<int, 3> ar{ { 1, 2, 3 } };
	daw::circular_iterator<std::array<int, 3>> ai( ar );
	--ai;
	VF_EQ( c, "circular array", *ai, 3 );
	*ai = 9;
	VF_EQ( c, "circular array write", ar[2], 9 );
}

VF_FAMILY( counting, 1000, 15000 ) {
	auto const v = cells( c, c.rng.len( 8 ), 100 );
	std::list<Cell> li( v.begin( ), v.end( ) );
	c.op( "forward_counting" );
	walk<ARROW>( c, "forward_counting",
	             daw::forward_counting_iterator( li.begin( ) ), v );
	c.op( "bidirectional_counting" );
	walk<DEC | ARROW>( c, "bidirectional_counting",
	                   daw::bidirectional_counting_iterator( li.begin( ) ), v );
	daw::forward_counting_iterator f( li.cbegin( ) );
	std::ptrdiff_t n = 0;
	for( ; f != li.cend( ); ++n ) {
		VF_EQ( c, "forward distance", f.distance( ), n );
		VF_TRUE( c, "forward == underlying", li.cend( ) != f );
		if( c.rng.coin( ) ) {
			++f;
		} else {
			VF_EQ( c, "forward post distance", f++.distance( ), n );
		}
	}
	VF_TRUE( c, "forward == underlying", li.cend( ) == f and f == li.cend( ) );
	VF_EQ( c, "forward distance end", f.distance( ),
	       static_cast<std::ptrdiff_t>( v.size( ) ) );
	std::ptrdiff_t const start =
	  static_cast<std::ptrdiff_t>( c.rng.below( v.size( ) + 1 ) );
	auto base = std::next( li.begin( ), start );
	daw::bidirectional_counting_iterator b( base );
	std::ptrdiff_t p = 0;
	for( int s = 0; s < 20; ++s ) {
		if( c.rng.coin( ) ) {
			if( start + p < static_cast<std::ptrdiff_t>( v.size( ) ) ) {
				if( c.rng.coin( ) ) {
					++b;
				} else {
					VF_EQ( c, "bidi post ++", b++.distance( ), p );
				}
				++p;
			}
		} else if( start + p > 0 ) {
			if( c.rng.coin( ) ) {
				--b;
			} else {
				VF_EQ( c, "bidi post --", b--.distance( ), p );
			}
			--p;
		}
		VF_EQ( c, "bidi distance", b.distance( ), p );
		VF_TRUE( c, "bidi underlying", b == std::next( li.begin( ), start + p ) );
		VF_TRUE( c, "bidi underlying", std::next( li.begin( ), start + p ) == b );
		VF_EQ( c, "bidi underlying !=", b != li.end( ),
		       start + p != static_cast<std::ptrdiff_t>( v.size( ) ) );
		VF_EQ( c, "bidi underlying !=", li.end( ) != b,
		       start + p != static_cast<std::ptrdiff_t>( v.size( ) ) );
		c.nontrivial( vf::mix( static_cast<std::uint64_t>( start ),
		                       static_cast<std::uint64_t>( p + 64 ) ) );
	}
}

namespace {
	template<typename T>
	void iota_case( vf::Case &c, char const *what ) {
		using S = std::make_signed_t<T>;
		constexpr long long lo = std::is_signed_v<T> ? -50 : 0;
		long long const start = c.rng.range( lo, 60 );
		long long step = c.rng.range( 1, 9 );
		if( std::is_signed_v<T> and c.rng.chance( 1, 3 ) ) {
			step = -step;
		}
		long long const last = c.rng.range( lo, 60 );
		c.ctx( vf::cat( what, " start=", start, " last=", last, " step=", step ) );
		std::vector<T> expect;
		for( long long x = start; step > 0 ? x < last : x > last; x += step ) {
			expect.push_back( static_cast<T>( x ) );
		}
		c.op( "iota_range step" );
		daw::iota_range<T> const r( static_cast<T>( start ),
		                            static_cast<T>( last ),
		                            static_cast<S>( step ) );
		forward( c, "iota_range(first,last,step)", r.begin( ), r.end( ), expect );
		forward( c, "iota_range c", r.cbegin( ), r.cend( ), expect );
		for( std::size_t n = 0; n < expect.size( ); ++n ) {
			VF_EQ( c, "iota_range[]", r[static_cast<S>( n )] + 0, expect[n] + 0 );
		}
		// comparisons order by value
		if( step > 0 ) {
			walk<FULL>( c, "iota walk", r.begin( ), expect, 12 );
		} else {
			walk<DEC | RA | DIFF | SUB>( c, "iota walk down", r.begin( ), expect, 12 );
		}
		c.op( "iota_range" );
		expect.clear( );
		for( long long x = start; x < last; ++x ) {
			expect.push_back( static_cast<T>( x ) );
		}
		daw::iota_range<T> const r2( static_cast<T>( start ),
		                             static_cast<T>( last ) );
		forward( c, "iota_range(first,last)", r2.begin( ), r2.end( ), expect );
		if( start <= last ) {
			VF_EQ( c, "iota_range size",
			       static_cast<long long>( r2.end( ) - r2.begin( ) ), last - start );
		}
		expect.clear( );
		for( long long x = 0; x < last; ++x ) {
			expect.push_back( static_cast<T>( x ) );
		}
		daw::iota_range<T> const r3( static_cast<T>( last ) );
		forward( c, "iota_range(last)", r3.begin( ), r3.end( ), expect );
		walk<FULL>( c, "iota_iterator",
		            daw::iota_iterator<T>( static_cast<T>( 0 ) ), expect, 12 );
	}
} // namespace

VF_FAMILY( iota, 1500, 20000 ) {
	switch( c.rng.below( 6 ) ) {
	case 0:
		iota_case<int>( c, "int" );
		break;
	case 1:
		iota_case<unsigned>( c, "unsigned" );
		break;
	case 2:
		iota_case<std::int8_t>( c, "int8" );
		break;
	case 3:
		iota_case<std::uint8_t>( c, "uint8" );
		break;
	case 4:
		iota_case<std::size_t>( c, "size_t" );
		break;
	default: {
		double const a = static_cast<double>( c.rng.range( -40, 40 ) ) / 8.0;
		double const b = static_cast<double>( c.rng.range( -40, 40 ) ) / 8.0;
		double st = static_cast<double>( c.rng.range( 1, 20 ) ) / 8.0;
		if( c.rng.chance( 1, 3 ) ) {
			st = -st;
		}
		c.ctx( vf::cat( "double start=", a, " last=", b, " step=", st ) );
		std::vector<double> expect;
		for( double x = a; st > 0 ? x < b : x > b; x += st ) {
			expect.push_back( x );
		}
		c.op( "iota_range double" );
		daw::iota_range<double> const r( a, b, st );
		forward( c, "iota_range double", r.begin( ), r.end( ), expect );
	}
	}
}

VF_FAMILY( integer_range, 500, 5000 ) {
	int const f = static_cast<int>( c.rng.range( -20, 20 ) );
	int const l = f + static_cast<int>( c.rng.below( 12 ) );
	std::vector<int> expect;
	for( int n = f; n < l; ++n ) {
		expect.push_back( n );
	}
	c.op( "integer_range" );
	daw::integer_range<int> r( f, l );
	forward( c, "integer_range", r.begin( ), r.end( ), expect );
	walk<0>( c, "integer_range", r.begin( ), expect );
	// the highest value is reachable as the end
	daw::integer_range<std::uint8_t> top( 250, 255 );
	forward( c, "integer_range top", top.begin( ), top.end( ),
	         std::vector<int>{ 250, 251, 252, 253, 254 } );
}

VF_FAMILY( chunk, 1500, 20000 ) {
	std::size_t const width = 1 + c.rng.below( 5 );
	std::size_t const chunks = c.rng.below( 6 );
	auto const v = cells( c, width * chunks, 100 );
	vf::Exact<Cell> ex( v.begin( ), v.size( ) );
	std::vector<Cell> heads;
	for( std::size_t n = 0; n < v.size( ); n += width ) {
		heads.push_back( v[n] );
	}
	c.op( "chunk_iterator" );
	c.ctx( vf::cat( "width=", width, " chunks=", chunks ) );
	daw::chunk_iterator<Cell *> const it( ex.data( ), width );
	walk<DEC | RA | DIFF | CMP | ARROW | NPLUS>( c, "chunk", it, heads );
	forward( c, "chunk range", it,
	         daw::chunk_iterator<Cell *>( ex.data( ) + v.size( ), width ), heads );
	// the subscript addresses inside the chunk
	for( std::size_t ch = 0; ch < chunks; ++ch ) {
		auto here = it + static_cast<std::ptrdiff_t>( ch );
		for( std::size_t n = 0; n < width; ++n ) {
			VF_EQ( c, "chunk[]", here[n].k, v[ch * width + n].k );
		}
	}
	auto const vi = std::vector<Cell>( v );
	walk<DEC | RA | DIFF | CMP | ARROW>(
	  c, "chunk(vector)",
	  daw::chunk_iterator<std::vector<Cell>::const_iterator>( vi.begin( ), width ),
	  heads );
}

namespace {
	bool is_even( Cell const &x ) {
		return x.k % 2 == 0;
	}
	struct DivBy {
		int d;
		bool operator( )( Cell const &x ) const {
			return x.k % d == 0;
		}
	};
	// needs ->value and ->index, which the proxy of find_one_iterator gives
	struct Hit {
		int k;
		std::size_t index;
	};
} // namespace

VF_FAMILY( find, 1500, 20000 ) {
	auto const v = cells( c, c.rng.len( 13 ), 12 );
	vf::Exact<Cell> ex( v.begin( ), v.size( ) );
	Cell const *f = ex.data( );
	Cell const *l = f + v.size( );
	int const d = 1 + static_cast<int>( c.rng.below( 6 ) );
	c.ctx( vf::cat( "n=", v.size( ), " d=", d ) );
	std::vector<Cell> ev;
	std::vector<Cell> dv;
	for( auto const &x : v ) {
		if( is_even( x ) ) {
			ev.push_back( x );
		}
		if( x.k % d == 0 ) {
			dv.push_back( x );
		}
	}
	c.op( "find_iterator" );
	daw::find_iterator const a( f, l, DivBy{ d } );
	forward( c, "find_iterator object", a.begin( ), a.end( ), dv );
	walk<ARROW>( c, "find_iterator object", a, dv );
	daw::find_iterator const b( f, l, &is_even );
	forward( c, "find_iterator pointer", b.begin( ), b.end( ), ev );
	VF_TRUE( c, "find raw_end", b.raw_end( ) == l );
	if( not dv.empty( ) ) {
		VF_TRUE( c, "find raw_begin",
		         a.raw_begin( ) >= f and a.raw_begin( ) < l and
		           *a.raw_begin( ) == dv.front( ) );
	} else {
		VF_TRUE( c, "find raw_begin", a.raw_begin( ) == l );
	}
	std::list<Cell> const li( v.begin( ), v.end( ) );
	daw::find_iterator const e( li.begin( ), li.end( ), DivBy{ d } );
	walk<ARROW>( c, "find_iterator(list)", e, dv );

	c.op( "find_one_iterator" );
	// first filter that matches decides the index
	int const d2 = 2 + static_cast<int>( c.rng.below( 5 ) );
	std::vector<Hit> hits;
	for( auto const &x : v ) {
		if( x.k % d == 0 and d > 1 ) {
			hits.push_back( { x.k, 0 } );
		} else if( x.k % d2 == 1 ) {
			hits.push_back( { x.k, 1 } );
		}
	}
	auto f0 = [d]( Cell const &x ) {
		return d > 1 and x.k % d == 0;
	};
	auto f1 = [d2]( Cell const &x ) {
		return x.k % d2 == 1;
	};
	daw::find_one_iterator it( f, l, f0, f1 );
	auto const end = it.end( );
	std::size_t n = 0;
	for( ; it != end and n < hits.size( ); ++n ) {
		VF_EQ( c, "find_one value", ( *it ).value.k, hits[n].k );
		VF_EQ( c, "find_one index", ( *it ).index, hits[n].index );
		VF_EQ( c, "find_one ->", it->value.k, hits[n].k );
		VF_EQ( c, "find_one ->index", it->index, hits[n].index );
		if( c.rng.coin( ) ) {
			++it;
		} else {
			auto old = it++;
			VF_EQ( c, "find_one post", ( *old ).value.k, hits[n].k );
			VF_EQ( c, "find_one post index", ( *old ).index, hits[n].index );
		}
	}
	VF_EQ( c, "find_one count", n, hits.size( ) );
	VF_TRUE( c, "find_one end", it == end );
	c.nontrivial( vf::mix( hits.size( ), v.size( ) ) );
}

VF_FAMILY( indexed, 1500, 20000 ) {
	auto v = cells( c, c.rng.len( 8 ), 100 );
	c.op( "indexed_iterator" );
	walk<DEC | RA | DIFF | CMP | ARROW>( c, "indexed", daw::ibegin( v ), v );
	walk<DEC | RA | DIFF | CMP | ARROW>( c, "indexed const", daw::cibegin( v ), v );
	forward( c, "indexed range", daw::ibegin( v ), daw::iend( v ), v );
	forward( c, "indexed crange", daw::cibegin( v ), daw::ciend( v ), v );
	auto const &cv = v;
	forward( c, "indexed const range", daw::ibegin( cv ), daw::iend( cv ), v );
	std::deque<Cell> dq( v.begin( ), v.end( ) );
	walk<DEC | RA | DIFF | CMP | ARROW>( c, "indexed deque", daw::ibegin( dq ),
	                                     v );
	auto const n = static_cast<std::ptrdiff_t>( v.size( ) );
	std::ptrdiff_t p = 0;
	auto it = daw::ibegin( v );
	for( int s = 0; s < 10; ++s ) {
		auto const t = static_cast<std::ptrdiff_t>( c.rng.below( v.size( ) + 1 ) );
		switch( c.rng.below( 3 ) ) {
		case 0:
			it = it.next( t - p );
			break;
		case 1:
			it = it.prev( p - t );
			break;
		default:
			it.advance( t - p );
		}
		p = t;
		VF_EQ( c, "indexed next/prev/advance", it - daw::ibegin( v ), p );
		VF_EQ( c, "indexed end - it", daw::iend( v ) - it, n - p );
		auto const other = daw::ibegin( v ) + n;
		VF_EQ( c, "indexed compare", it.compare( other ),
		       p < n ? std::ptrdiff_t{ -1 } : std::ptrdiff_t{ 0 } );
		VF_EQ( c, "indexed compare", other.compare( it ),
		       p < n ? std::ptrdiff_t{ 1 } : std::ptrdiff_t{ 0 } );
		if( p < n ) {
			it->k += 1;
			VF_TRUE( c, "indexed address",
			         &*it == &v[static_cast<std::size_t>( p )] );
		}
	}
	// the element is looked up when used: growing the container is fine
	if( not v.empty( ) ) {
		auto b = daw::ibegin( v ) + ( n - 1 );
		v.reserve( v.capacity( ) + 64 );
		VF_TRUE( c, "indexed survives growth", &*b == &v.back( ) );
	}
	int arr[4] = { 1, 2, 3, 4 };
	forward( c, "indexed array", daw::ibegin( arr ), daw::iend( arr ),
	         std::vector<int>{ 1, 2, 3, 4 } );
}

VF_FAMILY( zip, 1500, 20000 ) {
	std::size_t const n = c.rng.len( 8 );
	auto const v = cells( c, n, 100 );
	std::vector<int> w( n );
	std::list<std::string> s;
	std::vector<std::tuple<int, int, std::string>> expect;
	for( std::size_t i = 0; i < n; ++i ) {
		w[i] = static_cast<int>( c.rng.below( 1000 ) );
		s.push_back( vf::cat( "element number ", c.rng.below( 1000 ) ) );
		expect.emplace_back( v[i].k, w[i], s.back( ) );
	}
	vf::Exact<Cell> ex( v.begin( ), v.size( ) );
	c.op( "zip_iterator" );
	daw::zip_iterator it( ex.data( ), w.begin( ), s.begin( ) );
	daw::zip_iterator const first = it;
	std::size_t p = 0;
	for( int k = 0; k < 24; ++k ) {
		switch( c.rng.below( 6 ) ) {
		case 0:
		case 1:
			if( p < n ) {
				++it;
				++p;
			}
			break;
		case 2:
			if( p < n ) {
				auto const old = it++;
				VF_EQ( c, "zip post ++", std::get<1>( *old ), std::get<1>( expect[p] ) );
				++p;
			}
			break;
		case 3:
			if( p > 0 ) {
				--it;
				--p;
			}
			break;
		case 4:
			if( p > 0 ) {
				auto const old = it--;
				if( p < n ) {
					VF_EQ( c, "zip post --", std::get<2>( *old ),
					       std::get<2>( expect[p] ) );
				}
				--p;
			}
			break;
		default: {
			auto const t = c.rng.below( n + 1 );
			it.advance( static_cast<std::intmax_t>( t ) -
			            static_cast<std::intmax_t>( p ) );
			p = t;
		}
		}
		VF_EQ( c, "zip ==", it == first, p == 0 );
		VF_EQ( c, "zip !=", it != first, p != 0 );
		VF_TRUE( c, "zip get<0>", daw::get<0>( it ) == ex.data( ) + p );
		VF_TRUE( c, "zip get<1>",
		         it.template get<1>( ) ==
		           w.begin( ) + static_cast<std::ptrdiff_t>( p ) );
		VF_TRUE( c, "zip as_tuple",
		         std::get<2>( it.as_tuple( ) ) ==
		           std::next( s.begin( ), static_cast<std::ptrdiff_t>( p ) ) );
		if( p < n ) {
			auto const &cit = it;
			VF_EQ( c, "zip 0", std::get<0>( *it ).k, std::get<0>( expect[p] ) );
			VF_EQ( c, "zip 1", std::get<1>( *cit ), std::get<1>( expect[p] ) );
			VF_EQ( c, "zip 2", std::get<2>( *it ), std::get<2>( expect[p] ) );
			std::get<1>( *it ) += 1;
			std::get<1>( expect[p] ) += 1;
			VF_EQ( c, "zip writes through", w[p], std::get<1>( expect[p] ) );
		}
		c.nontrivial( vf::mix( n, p ) );
	}
	VF_EQ( c, "zip size", it.size( ), std::size_t{ 3 } );
}

VF_FAMILY( free_functions, 1000, 10000 ) {
	auto const v = cells( c, c.rng.len( 9 ), 100 );
	std::list<Cell> li( v.begin( ), v.end( ) );
	auto const a = static_cast<std::ptrdiff_t>( c.rng.below( v.size( ) + 1 ) );
	auto const b = static_cast<std::ptrdiff_t>( c.rng.below( v.size( ) + 1 ) );
	auto const n = b - a;
	c.ctx( vf::cat( "size=", v.size( ), " from ", a, " to ", b ) );
	auto check = [&]( char const *op, auto first, auto back ) {
		constexpr bool can_back = decltype( back )::value;
		c.op( op );
		auto const from = std::next( first, a );
		auto const to = std::next( first, b );
		if( n >= 0 or can_back ) {
			auto it = from;
			daw::advance( it, n );
			VF_TRUE( c, op, it == to );
			VF_TRUE( c, op, daw::next( from, n ) == to );
		}
		if constexpr( can_back ) {
			VF_TRUE( c, op, daw::prev( to, n ) == from );
			if( a > 0 ) {
				VF_TRUE( c, op, daw::prev( from ) == std::next( first, a - 1 ) );
			}
		}
		if( a < static_cast<std::ptrdiff_t>( v.size( ) ) ) {
			VF_TRUE( c, op, daw::next( from ) == std::next( first, a + 1 ) );
		}
		if( n >= 0 ) {
			VF_EQ( c, op, daw::distance( from, to ), n );
		}
	};
	check( "vector next/prev/advance/distance", v.begin( ), std::true_type{ } );
	check( "list next/prev/advance/distance", li.begin( ), std::true_type{ } );
	std::forward_list<Cell> const fl( v.begin( ), v.end( ) );
	check( "forward_list next/advance/distance", fl.begin( ), std::false_type{ } );
	VF_EQ( c, "vector negative distance",
	       daw::distance( v.begin( ) + a, v.begin( ) + b ), n );
	c.nontrivial( vf::mix( v.size( ), static_cast<std::uint64_t>( a * 16 + b ) ) );
}

namespace {
	struct ByKey {
		bool desc = false;
		bool operator( )( std::pair<int, int> const &a,
		                  std::pair<int, int> const &b ) const {
			return desc ? b.first < a.first : a.first < b.first;
		}
	};
	template<typename Container>
	void sorted_insert( vf::Case &c, char const *what ) {
		Container cont;
		ByKey const cmp{ c.rng.coin( ) };
		std::vector<std::pair<int, int>> model;
		auto it = daw::make_sorted_insert_iterator( cont, cmp );
		std::size_t const n = c.rng.below( 16 );
		for( std::size_t i = 0; i < n; ++i ) {
			std::pair<int, int> const x( static_cast<int>( c.rng.below( 5 ) ),
			                             static_cast<int>( i ) );
			*it++ = x;
			model.insert(
			  std::lower_bound( model.begin( ), model.end( ), x, cmp ), x );
			VF_TRUE( c, what,
			         std::equal( cont.begin( ), cont.end( ), model.begin( ),
			                     model.end( ) ) );
		}
		c.nontrivial( vf::mix( n, model.empty( ) ? 0 : model[0].second ) );
	}
} // namespace

VF_FAMILY( inserters, 1500, 15000 ) {
	c.op( "sorted_insert" );
	sorted_insert<std::vector<std::pair<int, int>>>( c, "sorted vector" );
	sorted_insert<std::deque<std::pair<int, int>>>( c, "sorted deque" );
	sorted_insert<std::list<std::pair<int, int>>>( c, "sorted list" );
	std::vector<std::unique_ptr<int>> owners;
	auto src = cells( c, c.rng.len( 7 ), 50 );
	c.op( "back_inserter" );
	{
		daw::back_inserter out( owners );
		for( auto const &x : src ) {
			*out++ = std::make_unique<int>( x.k );
		}
		VF_EQ( c, "back_inserter size", owners.size( ), src.size( ) );
		for( std::size_t n = 0; n < src.size( ); ++n ) {
			VF_TRUE( c, "back_inserter value",
			         owners[n] and *owners[n] == src[n].k );
		}
		std::list<Cell> li;
		std::copy( src.begin( ), src.end( ), daw::back_inserter( li ) );
		VF_TRUE( c, "back_inserter copies", std::equal( li.begin( ), li.end( ),
		                                                src.begin( ), src.end( ) ) );
	}
	c.op( "end_inserter" );
	{
		std::vector<Cell> out{ Cell{ -1 } };
		auto e = std::copy( src.begin( ), src.end( ), daw::end_inserter( out ) );
		*e = Cell{ -2 };
		auto expect = src;
		expect.insert( expect.begin( ), Cell{ -1 } );
		expect.push_back( Cell{ -2 } );
		VF_TRUE( c, "end_inserter", out == expect );
		std::multiset<int> ms;
		std::multiset<int> em;
		auto o = daw::end_inserter( ms );
		for( auto const &x : src ) {
			*o = x.k;
			++o;
			em.insert( x.k );
		}
		VF_TRUE( c, "end_inserter set", ms == em );
	}
	c.op( "inserter" );
	{
		std::set<int> out;
		std::set<int> expect;
		auto o = daw::inserter( out );
		for( auto const &x : src ) {
			*o++ = x.k;
			expect.insert( x.k );
		}
		VF_TRUE( c, "inserter", out == expect );
	}
	c.op( "function_iterator" );
	{
		std::vector<int> seen;
		auto fn = daw::make_function_iterator( [&seen]( int x ) {
			seen.push_back( x );
		} );
		std::vector<int> in;
		for( auto const &x : src ) {
			in.push_back( x.k );
		}
		std::copy( in.begin( ), in.end( ), fn );
		VF_TRUE( c, "function_iterator", seen == in );
		std::ostringstream ss;
		std::ostringstream es;
		auto o = daw::make_output_stream_iterator( ss );
		for( int x : in ) {
			*o++ = x;
			*o = ", ";
			es << x << ", ";
		}
		VF_EQ( c, "output_stream_iterator", ss.str( ), es.str( ) );
	}
	c.nontrivial( src.size( ) );
}

VF_FAMILY( repeat, 1000, 10000 ) {
	std::size_t const n = c.rng.below( 12 );
	char const ch = static_cast<char>( 'a' + c.rng.below( 26 ) );
	std::vector<char> const v( n, ch );
	c.op( "repeat_n_char" );
	daw::repeat_n_char_iterator<char> const it( n, ch );
	forward( c, "repeat_n_char", it, daw::repeat_n_char_end( ), v );
	walk<DEC | RA | DIFF | SUB>( c, "repeat_n_char", it, v );
	std::string s( it, daw::repeat_n_char_end<char>( ) );
	VF_EQ( c, "repeat_n_char string", s, std::string( n, ch ) );
}

VF_FAMILY( checked, 2000, 20000 ) {
	auto const v = cells( c, c.rng.len( 5 ), 100 );
	std::list<Cell> li( v.begin( ), v.end( ) );
	bool const inc = c.rng.chance( 3, 4 );
	bool const dec = c.rng.chance( 3, 4 );
	bool const der = c.rng.chance( 3, 4 );
	c.ctx( vf::cat( "n=", v.size( ), " flags=", inc, dec, der ) );
	auto it = inc and dec and der and c.rng.coin( )
	            ? daw::make_checked_iterator_proxy( li.begin( ), li.end( ) )
	            : daw::make_checked_iterator_proxy( li.begin( ), li.end( ), inc,
	                                                dec, der );
	auto const first = it;
	std::size_t p = 0;
	auto refused = [&]( char const *op, auto &&f ) {
		c.op( op );
		bool threw = false;
		{
			vf::Suspend s{ };
			try {
				f( );
			} catch( std::out_of_range const & ) { threw = true; }
		}
		VF_TRUE( c, op, threw );
		c.count( "refused", 1 );
	};
	for( int s = 0; s < 24; ++s ) {
		switch( c.rng.below( 6 ) ) {
		case 0:
		case 1:
			if( p < v.size( ) ) {
				c.op( "checked ++it" );
				++it;
				++p;
			} else if( inc ) {
				refused( "checked ++end", [&] {
					++it;
				} );
			}
			break;
		case 2:
			if( p < v.size( ) ) {
				c.op( "checked it++" );
				auto const old = it++;
				VF_TRUE( c, "checked post ++",
				         old == std::next( li.begin( ), static_cast<long>( p ) ) );
				++p;
			} else if( inc ) {
				refused( "checked end++", [&] {
					it++;
				} );
			}
			break;
		case 3:
			if( p > 0 ) {
				c.op( "checked --it" );
				--it;
				--p;
			} else if( dec ) {
				refused( "checked --begin", [&] {
					--it;
				} );
			}
			break;
		case 4:
			if( p > 0 ) {
				c.op( "checked it--" );
				auto const old = it--;
				VF_TRUE( c, "checked post --",
				         old == std::next( li.begin( ), static_cast<long>( p ) ) );
				--p;
			} else if( dec ) {
				refused( "checked begin--", [&] {
					it--;
				} );
			}
			break;
		default:
			if( p == v.size( ) and der ) {
				auto const &cit = it;
				refused( "checked *end", [&] {
					(void)( *it ).k;
				} );
				refused( "checked const *end", [&] {
					(void)( *cit ).k;
				} );
				refused( "checked end->", [&] {
					(void)it->k;
				} );
				refused( "checked const end->", [&] {
					(void)cit->k;
				} );
			}
		}
		auto const under = std::next( li.begin( ), static_cast<long>( p ) );
		VF_TRUE( c, "checked position", it == under );
		VF_TRUE( c, "checked position", not( it != under ) );
		VF_EQ( c, "checked ==", it == first, p == 0 );
		VF_EQ( c, "checked !=", it != first, p != 0 );
		if( p < v.size( ) ) {
			auto const &cit = it;
			VF_TRUE( c, "checked *", &*it == &*under );
			VF_EQ( c, "checked const *", ( *cit ).k, v[p].k );
			VF_EQ( c, "checked ->", it->k, v[p].k );
			VF_EQ( c, "checked const ->", cit->k, v[p].k );
		}
		c.nontrivial( vf::mix( v.size( ) * 8 + inc * 4 + dec * 2 + der, p ) );
	}
}

VF_FAMILY( pointers, 1500, 20000 ) {
	auto const v = cells( c, 1 + c.rng.len( 7 ), 100 );
	vf::Exact<Cell> ex( v.begin( ), v.size( ) );
	c.op( "pointer_iterator" );
	daw::pointer_iterator<Cell> const it( ex.data( ) );
	walk<FULL | ARROW>( c, "pointer_iterator", it, v );
	daw::pointer_iterator<Cell const> cit( it );
	walk<FULL | ARROW>( c, "pointer_iterator const", cit, v );
	forward( c, "pointer_iterator", it,
	         daw::pointer_iterator<Cell>( ex.data( ) + v.size( ) ), v );
	auto const t = static_cast<std::ptrdiff_t>( c.rng.below( v.size( ) ) );
	cit = it + t;
	VF_TRUE( c, "pointer get", cit.get( ) == ex.data( ) + t );
	VF_EQ( c, "pointer mixed -", cit - it, t );
	VF_EQ( c, "pointer mixed -", it - cit, -t );
	c.op( "RandomIterator" );
	walk<DEC | RA | DIFF | CMP | ARROW>(
	  c, "RandomIterator", daw::make_random_iterator( ex.data( ) ), v );
	walk<DEC | RA | DIFF | CMP | ARROW>(
	  c, "RandomIterator const", daw::make_const_random_iterator( ex.data( ) ),
	  v );
	daw::RandomIterator<Cell> r{ };
	VF_TRUE( c, "RandomIterator default", r.ptr( ) == nullptr );
	r = ex.data( ) + t;
	VF_TRUE( c, "RandomIterator assign", r.ptr( ) == ex.data( ) + t );
	( *r ).k = 1234;
	VF_EQ( c, "RandomIterator write", ex.data( )[t].k, 1234 );
}

VF_FAMILY( arguments, 1000, 10000 ) {
	std::vector<std::string> args;
	std::size_t const n = 1 + c.rng.below( 6 );
	for( std::size_t i = 0; i < n; ++i ) {
		args.push_back( std::string( c.rng.below( 5 ),
		                             static_cast<char>( 'a' + c.rng.below( 26 ) ) ) );
	}
	std::vector<char const *> argv;
	std::vector<std::string_view> views;
	for( auto const &a : args ) {
		argv.push_back( a.c_str( ) );
		views.push_back( a );
	}
	vf::Exact<char const *> ex( argv.begin( ), argv.size( ) );
	c.op( "arg_iterator" );
	daw::arg_iterator_t const it( static_cast<int>( n ), ex.data( ) );
	walk<FULL>( c, "arg_iterator", it, views );
	forward( c, "arg_iterator range", it.begin( ), it.end( ), views );
	VF_EQ( c, "arg size", it.size( ), n );
	auto const p = static_cast<std::ptrdiff_t>( c.rng.below( n + 1 ) );
	auto const here = it + p;
	bool const is_end = p == static_cast<std::ptrdiff_t>( n );
	VF_EQ( c, "arg position", here.position( ), p );
	VF_EQ( c, "arg at_end", here.at_end( ), is_end );
	VF_EQ( c, "arg bool", static_cast<bool>( here ), not is_end );
	VF_EQ( c, "arg == end", here == it.end( ), is_end );
	VF_EQ( c, "arg end ==", it.end( ) == here, is_end );
	VF_EQ( c, "arg != end", here != it.end( ), not is_end );
	VF_EQ( c, "arg < end", here < it.end( ), not is_end );
	VF_EQ( c, "arg >= end", here >= it.end( ), is_end );
	VF_EQ( c, "arg end >", it.end( ) > here, not is_end );
	VF_EQ( c, "arg end <=", it.end( ) <= here, is_end );
	for( std::ptrdiff_t at = -static_cast<std::ptrdiff_t>( n ) - 2;
	     at <= static_cast<std::ptrdiff_t>( n ) + 2; ++at ) {
		auto const pos = p + at;
		if( pos == 0 ) {
			continue; // the program name: unspecified
		}
		bool threw = false;
		std::string_view got;
		{
			vf::Suspend s{ };
			try {
				got = here.at( at );
			} catch( std::out_of_range const & ) { threw = true; }
		}
		bool const valid = pos > 0 and pos < static_cast<std::ptrdiff_t>( n );
		VF_EQ( c, "arg at refuses", threw, not valid );
		if( valid and not threw ) {
			VF_EQ( c, "arg at", got, views[static_cast<std::size_t>( pos )] );
		}
	}
	c.nontrivial( vf::mix( n, static_cast<std::uint64_t>( p ) ) );
}

namespace {
	// an iterator that owns memory and counts its live copies
	struct OwningIter {
		using value_type = int;
		using reference = int const &;
		using pointer = int const *;
		using difference_type = std::ptrdiff_t;
		using iterator_category = std::forward_iterator_tag;
		std::vector<int> const *src = nullptr;
		std::unique_ptr<std::size_t> pos;
		OwningIter( std::vector<int> const &s, std::size_t p )
		  : src( &s )
		  , pos( std::make_unique<std::size_t>( p ) ) {}
		OwningIter( OwningIter const &o )
		  : src( o.src )
		  , pos( std::make_unique<std::size_t>( *o.pos ) ) {}
		OwningIter &operator=( OwningIter const & ) = delete;
		reference operator*( ) const {
			return ( *src )[*pos];
		}
		pointer operator->( ) const {
			return &( *src )[*pos];
		}
		OwningIter &operator++( ) {
			++*pos;
			return *this;
		}
		friend bool operator==( OwningIter const &a, OwningIter const &b ) {
			return *a.pos == *b.pos;
		}
		friend bool operator!=( OwningIter const &a, OwningIter const &b ) {
			return *a.pos != *b.pos;
		}
	};
} // namespace

VF_FAMILY( erased, 1500, 15000 ) {
	std::vector<int> v( c.rng.below( 8 ) );
	for( auto &x : v ) {
		x = static_cast<int>( c.rng.below( 100 ) );
	}
	std::list<int> li( v.begin( ), v.end( ) );
	vf::Exact<int> ex( v.begin( ), v.size( ) );
	using I = daw::InputIterator<int>;
	c.op( "InputIterator" );
	// three underlying iterator types, all at index
	auto make = [&]( std::size_t kind, std::size_t p ) -> I {
		switch( kind ) {
		case 0:
			return I( static_cast<int const *>( ex.data( ) ) + p );
		case 1:
			return I( std::next( li.begin( ), static_cast<long>( p ) ) );
		default:
			return I( OwningIter( v, p ) );
		}
	};
	std::size_t const kind = c.rng.below( 3 );
	walk<0>( c, "InputIterator", make( kind, 0 ), v );
	forward( c, "InputIterator range", make( kind, 0 ),
	         make( kind, v.size( ) ), v );
	struct Slot {
		I it;
		std::size_t kind;
		std::size_t p;
	};
	std::vector<Slot> slots;
	for( int n = 0; n < 4; ++n ) {
		auto const k = c.rng.below( 3 );
		auto const p = c.rng.below( v.size( ) + 1 );
		slots.push_back( { make( k, p ), k, p } );
	}
	for( int s = 0; s < 30; ++s ) {
		auto &a = slots[c.rng.below( slots.size( ) )];
		auto &b = slots[c.rng.below( slots.size( ) )];
		switch( c.rng.below( 4 ) ) {
		case 0:
			c.op( "InputIterator copy assign" );
			a.it = b.it;
			a.kind = b.kind;
			a.p = b.p;
			break;
		case 1: {
			c.op( "InputIterator move assign" );
			I tmp( b.it );
			auto const k = b.kind;
			auto const p = b.p;
			a.it = std::move( tmp );
			a.kind = k;
			a.p = p;
		} break;
		case 2:
			if( a.p < v.size( ) ) {
				++a.it;
				++a.p;
			}
			break;
		default: {
			auto const k = c.rng.below( 3 );
			auto const p = c.rng.below( v.size( ) + 1 );
			a.it = make( k, p );
			a.kind = k;
			a.p = p;
		}
		}
		for( auto const &x : slots ) {
			if( x.p < v.size( ) ) {
				VF_EQ( c, "InputIterator value", *x.it, v[x.p] );
				VF_EQ( c, "InputIterator ->", *x.it.operator->( ), v[x.p] );
			}
			VF_EQ( c, "InputIterator base type",
			       x.it.are_same_base_iterator_type( slots[0].it ),
			       x.kind == slots[0].kind );
			if( x.kind == slots[0].kind ) {
				VF_EQ( c, "InputIterator ==", x.it == slots[0].it,
				       x.p == slots[0].p );
				VF_EQ( c, "InputIterator !=", x.it != slots[0].it,
				       x.p != slots[0].p );
			}
		}
		c.nontrivial( vf::mix( a.p * 3 + a.kind, b.p * 3 + b.kind ) );
	}
	c.op( "InputRange" );
	daw::InputRange<int> r( li );
	forward( c, "InputRange", r.begin( ), r.end( ), v );
	daw::InputRange<int> r2( ex.data( ), ex.data( ) + v.size( ) );
	forward( c, "InputRange(it,it)", r2.begin( ), r2.end( ), v );
	r2 = r;
	forward( c, "InputRange assigned", r2.cbegin( ), r2.cend( ), v );
	r = daw::InputRange<int>( v );
	forward( c, "InputRange move assigned", r.begin( ), r.end( ), v );
}

VF_MAIN( )
