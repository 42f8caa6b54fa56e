// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include <daw/daw_bounded_vector.h>
#include <daw/daw_bounded_array.h>
#include <daw/daw_simple_array.h>
#include <daw/daw_array.h>
#include "vf.h"
#include "vf_types.h"
#include <algorithm>
#include <array>
#include <stdexcept>

namespace {
	// trivially destructible element that is not trivially constructible
	struct El {
		int a = 0;
		int b = 0;
		constexpr El( ) = default;
		constexpr El( int x ) : a( x ), b( ~x ) {}
		constexpr El( int x, int y, int z ) : a( x + y * z ), b( ~( x + y * z ) ) {}
		bool ok( ) const { return b == ~a or ( a == 0 and b == 0 ); }
		friend constexpr bool operator==( El const &l, El const &r ) { return l.a == r.a; }
		friend std::ostream &operator<<( std::ostream &os, El const &e ) { return os << e.a; }
		constexpr El &operator=( int x ) { a = x; b = ~x; return *this; }
		constexpr El( El const & ) = default;
		constexpr El( El &&o ) noexcept : a( o.a ), b( o.b ) { o.a = -1; o.b = 0; }
		constexpr El &operator=( El const & ) = default;
		constexpr El &operator=( El &&o ) noexcept {
			a = o.a; b = o.b;
			if( this != &o ) { o.a = -1; o.b = 0; }
			return *this;
		}
	};
	template<typename T>
	T val( int x ) { return T( x ); }

	template<typename V, typename M>
	bool same( vf::Case &c, char const *n, V &v, M const &m, size_t cap ) {
		using T = typename M::value_type;
		V const &cv = v;
		VF_EQ( c, vf::cat( n, ":size" ).c_str( ), cv.size( ), m.size( ) );
		VF_EQ( c, "capacity", cv.capacity( ), cap );
		VF_EQ( c, "empty", cv.empty( ), m.empty( ) );
		VF_EQ( c, "full", cv.full( ), m.size( ) == cap );
		VF_EQ( c, "available", cv.available( ), cap - m.size( ) );
		for( size_t k : { size_t{ 0 }, size_t{ 1 }, cap - m.size( ), cap - m.size( ) + 1, cap, cap + 1 } )
			VF_EQ( c, "has_room", cv.has_room( k ), k <= cap - m.size( ) );
		if( cv.size( ) != m.size( ) )
			return false;
		std::vector<T> got( cv.begin( ), cv.end( ) );
		VF_TRUE( c, vf::cat( n, ":contents" ).c_str( ), got == std::vector<T>( m.begin( ), m.end( ) ) );
		if( got != std::vector<T>( m.begin( ), m.end( ) ) )
			return false;
		VF_TRUE( c, "mutable iteration", std::equal( v.begin( ), v.end( ), m.begin( ), m.end( ) ) );
		VF_TRUE( c, "cbegin/cend", std::equal( v.cbegin( ), v.cend( ), m.begin( ), m.end( ) ) );
		VF_TRUE( c, "reverse iteration", std::equal( cv.rbegin( ), cv.rend( ), m.rbegin( ), m.rend( ) ) );
		VF_TRUE( c, "mutable reverse iteration", std::equal( v.rbegin( ), v.rend( ), m.rbegin( ), m.rend( ) ) );
		VF_TRUE( c, "crbegin/crend", std::equal( v.crbegin( ), v.crend( ), m.rbegin( ), m.rend( ) ) );
		VF_TRUE( c, "data", cv.data( ) == &*cv.begin( ) or m.empty( ) );
		for( size_t i = 0; i < m.size( ); ++i ) {
			VF_EQ( c, "operator[]", cv[i], m[i] );
			VF_EQ( c, "at", v.at( i ), m[i] );
			VF_EQ( c, "const at", cv.at( i ), m[i] );
		}
		if( not m.empty( ) ) {
			VF_EQ( c, "front", cv.front( ), m.front( ) );
			VF_EQ( c, "back", cv.back( ), m.back( ) );
			VF_EQ( c, "front", v.front( ), m.front( ) );
			VF_EQ( c, "back", v.back( ), m.back( ) );
		}
		return true;
	}

	template<typename T, size_t N>
	void history( vf::Case &c ) {
		auto &r = c.rng;
		using V = daw::bounded_vector_t<T, N>;
		auto up = std::make_unique<V>( ); // on the heap: red zones around the whole object
		auto up2 = std::make_unique<V>( );
		V *v = up.get( ), *w = up2.get( );
		std::vector<T> m, mw;
		size_t steps = 5 + r.below( 50 );
		c.ctx( "bounded_vector N=", N, " steps=", steps );
		int next = 1;
		for( size_t k = 0; k < steps; ++k ) {
			char const *n = "?";
			size_t room = N - m.size( );
			switch( r.below( 20 ) ) {
			case 0: case 1:
				if( not room ) break;
				c.op( n = "bv:push_back lvalue" );
				{ T x = val<T>( next++ ); v->push_back( x ); m.push_back( x ); }
				break;
			case 2:
				if( not room ) break;
				c.op( n = "bv:push_back rvalue" );
				v->push_back( val<T>( next ) ); m.push_back( val<T>( next ) ); ++next;
				break;
			case 3:
				if( not room or m.empty( ) ) break;
				c.op( n = "bv:push_back own element" );
				{
					size_t i = r.below( m.size( ) );
					T x = m[i];
					if( r.coin( ) ) {
						v->push_back( std::as_const( *v )[i] );
					} else {
						// the element moved from is left in an unspecified state
						size_t const before = v->size( );
						v->push_back( std::move( ( *v )[i] ) );
						VF_EQ( c, "push_back of an element grows by one", v->size( ), before + 1 );
						( *v )[i] = x;
					}
					m.push_back( x );
				}
				break;
			case 4:
				if( not room ) break;
				c.op( n = "bv:emplace_back" );
				if constexpr( std::is_same_v<T, El> ) {
					if( r.coin( ) ) { v->emplace_back( next, 2, 3 ); m.emplace_back( next, 2, 3 ); }
					else { v->emplace_back( ); m.emplace_back( ); }
				} else { v->emplace_back( next ); m.push_back( val<T>( next ) ); }
				++next;
				break;
			case 5: {
				c.op( n = "bv:push_back range" );
				size_t cnt = r.below( room + 1 );
				std::vector<T> src;
				for( size_t i = 0; i < cnt; ++i ) src.push_back( val<T>( next++ ) );
				v->push_back( static_cast<T const *>( src.data( ) ), cnt );
				m.insert( m.end( ), src.begin( ), src.end( ) );
				break;
			}
			case 6: {
				if constexpr( std::is_same_v<T, int> ) {
					c.op( n = "bv:push_back converting range" );
					size_t cnt = r.below( room + 1 );
					std::vector<short> src;
					for( size_t i = 0; i < cnt; ++i ) src.push_back( static_cast<short>( next++ ) );
					v->push_back( static_cast<short const *>( src.data( ) ), cnt );
					m.insert( m.end( ), src.begin( ), src.end( ) );
				}
				break;
			}
			case 7: {
				if( not room ) break;
				c.op( n = "bv:push_back()" );
				size_t before = static_cast<size_t>( v->end( ) - v->begin( ) );
				(void)v->push_back( );
				VF_EQ( c, "push_back() grows by one", v->size( ), before + 1 );
				v->back( ) = val<T>( next );
				m.push_back( val<T>( next++ ) );
				break;
			}
			case 8:
				if( m.empty( ) ) break;
				c.op( n = "bv:pop_back" );
				VF_EQ( c, "pop_back result", v->pop_back( ), m.back( ) );
				m.pop_back( );
				break;
			case 9: case 10:
				if( m.empty( ) ) break;
				c.op( n = "bv:pop_front" );
				VF_EQ( c, "pop_front result", v->pop_front( ), m.front( ) );
				m.erase( m.begin( ) );
				break;
			case 11: {
				size_t cnt = r.below( m.size( ) + 3 );
				if( cnt <= m.size( ) ) {
					c.op( n = "bv:pop_front(n)" );
					v->pop_front( cnt );
					m.erase( m.begin( ), m.begin( ) + static_cast<long>( cnt ) );
				} else {
					c.op( n = "bv:pop_front too many" );
					bool t = false;
					try { v->pop_front( cnt ); } catch( std::out_of_range const & ) { t = true; }
					VF_TRUE( c, "pop_front past the contents throws out_of_range", t );
				}
				break;
			}
			case 12: {
				size_t cnt = r.below( N + 3 );
				if( cnt <= N ) {
					c.op( n = cnt > m.size( ) ? "bv:resize grow" : "bv:resize shrink" );
					v->resize( cnt );
					m.resize( cnt );
				} else {
					c.op( n = "bv:resize too big" );
					bool t = false;
					try { v->resize( cnt ); } catch( std::out_of_range const & ) { t = true; }
					VF_TRUE( c, "resize past the capacity throws out_of_range", t );
				}
				break;
			}
			case 13: case 14:
				if( m.empty( ) ) break;
				c.op( n = "bv:erase one" );
				{
					size_t i = r.below( m.size( ) );
					auto it = v->erase( v->cbegin( ) + static_cast<long>( i ) );
					m.erase( m.begin( ) + static_cast<long>( i ) );
					VF_EQ( c, "erase returns the following position", static_cast<size_t>( it - v->begin( ) ), i );
				}
				break;
			case 15: {
				c.op( n = "bv:erase range" );
				size_t i = r.below( m.size( ) + 1 ), j = i + r.below( m.size( ) - i + 1 );
				auto it = v->erase( v->cbegin( ) + static_cast<long>( i ), v->cbegin( ) + static_cast<long>( j ) );
				m.erase( m.begin( ) + static_cast<long>( i ), m.begin( ) + static_cast<long>( j ) );
				VF_EQ( c, "erase range returns the following position", static_cast<size_t>( it - v->begin( ) ), i );
				break;
			}
			case 16: {
				c.op( n = "bv:assign" );
				size_t cnt = r.below( N + 1 );
				T x = val<T>( next++ );
				v->assign( cnt, x );
				m.assign( cnt, x );
				break;
			}
			case 17:
				c.op( n = "bv:swap" );
				v->swap( *w );
				m.swap( mw );
				break;
			case 18:
				c.op( n = "bv:copy" );
				switch( r.below( 5 ) ) {
				case 0: *w = *v; mw = m; break;
				case 1: { V t( *v ); *w = t; mw = m; break; }
				case 2: { V t( std::as_const( *v ).data( ), m.size( ) ); *v = t; break; }
				case 3: { V t( m.begin( ), m.end( ) ); *v = t; break; }
				default: { // clamped construction from a longer buffer
					std::vector<T> src;
					for( size_t i = 0; i < N + 2; ++i ) src.push_back( val<T>( next++ ) );
					V t( src.data( ), src.size( ) );
					*v = t; m.assign( src.begin( ), src.begin( ) + static_cast<long>( N ) );
				}
				}
				break;
			default:
				if( r.chance( 1, 4 ) ) {
					c.op( n = "bv:clear" );
					v->clear( );
					m.clear( );
				} else if( std::is_arithmetic_v<T> and r.chance( 1, 4 ) ) {
					if constexpr( std::is_arithmetic_v<T> ) {
						c.op( n = "bv:zero" );
						v->zero( );
						m.assign( m.size( ), T{ 0 } );
					}
				} else if( not m.empty( ) ) {
					c.op( n = "bv:write element" );
					size_t i = r.below( m.size( ) );
					switch( r.below( 3 ) ) {
					case 0: ( *v )[i] = val<T>( next ); break;
					case 1: v->at( i ) = val<T>( next ); break;
					default: v->data( )[i] = val<T>( next );
					}
					m[i] = val<T>( next++ );
				}
			}
			if( not same( c, n, *v, m, N ) or not same( c, "other", *w, mw, N ) )
				return;
			if constexpr( std::is_same_v<T, El> )
				for( auto const &e : *v )
					VF_TRUE( c, "element invariant", e.ok( ) );
		}
		if( c.idx % 64 == 0 ) {
			VF_EQ( c, "at past the end aborts", vf::outcome( [&] { (void)v->at( m.size( ) ); } ), vf::End::aborted );
			VF_EQ( c, "const at past the end aborts", vf::outcome( [&] { (void)std::as_const( *v ).at( m.size( ) + 3 ); } ), vf::End::aborted );
		}
		c.nontrivial( vf::mix( c.idx, m.size( ) ) );
	}
} // namespace

VF_FAMILY( bounded_vector, 6000, 300000 ) {
	switch( c.idx % 5 ) {
	case 0: return history<int, 5>( c );
	case 1: return history<El, 8>( c );
	case 2: return history<int, 1>( c );
	case 3: return history<El, 3>( c );
	default: return history<int, 24>( c );
	}
}

namespace {
	template<typename A, typename M>
	void array_obs( vf::Case &c, A &a, M const &m ) {
		A const &ca = a;
		VF_EQ( c, "size", static_cast<size_t>( ca.end( ) - ca.begin( ) ), m.size( ) );
		VF_TRUE( c, "const iteration", std::equal( ca.begin( ), ca.end( ), m.begin( ), m.end( ) ) );
		VF_TRUE( c, "iteration", std::equal( a.begin( ), a.end( ), m.begin( ), m.end( ) ) );
		for( size_t i = 0; i < m.size( ); ++i ) {
			VF_EQ( c, "const operator[]", ca[i], m[i] );
			VF_EQ( c, "operator[]", a[i], m[i] );
			VF_TRUE( c, "data", ca.data( ) + i == &ca[i] and a.data( ) + i == &a[i] );
		}
	}
	template<typename T, size_t N>
	void arrays( vf::Case &c ) {
		auto &r = c.rng;
		c.ctx( "arrays N=", N );
		auto pa = std::make_unique<daw::array<T, N>>( ), pb = std::make_unique<daw::array<T, N>>( );
		auto ps = std::make_unique<daw::simple_array<T, N>>( );
		std::array<T, N> ma{ }, mb{ };
		for( size_t k = 0; k < 12; ++k ) {
			size_t i = r.below( N );
			T x = val<T>( static_cast<int>( r.below( 3 ) ) );
			switch( r.below( 6 ) ) {
			case 0: c.op( "array:fill" ); pa->fill( x ); ma.fill( x ); break;
			case 1: c.op( "array:[]=" ); ( *pa )[i] = x; ma[i] = x; break;
			case 2: c.op( "array:front/back" ); pa->front( ) = x; ma.front( ) = x; pa->back( ) = x; ma.back( ) = x; break;
			case 3: c.op( "array:copy" ); *pb = *pa; mb = ma; break;
			case 4: c.op( "array:swap" ); std::swap( *pa, *pb ); std::swap( ma, mb ); break;
			default: c.op( "array:iterate" ); for( auto &e : *pb ) e = x; mb.fill( x );
			}
			array_obs( c, *pa, ma );
			array_obs( c, *pb, mb );
			VF_EQ( c, "size()", pa->size( ), N );
			VF_EQ( c, "front", std::as_const( *pa ).front( ), ma.front( ) );
			VF_EQ( c, "back", std::as_const( *pa ).back( ), ma.back( ) );
			VF_EQ( c, "empty", pa->empty( ), false );
			VF_EQ( c, "array ==", *pa == *pb, ma == mb );
			VF_EQ( c, "array !=", *pa != *pb, ma != mb );
			( *ps )[i] = x;
			std::array<T, N> ms{ };
			for( size_t q = 0; q < N; ++q ) ms[q] = ( *ps )[q];
			array_obs( c, *ps, ms );
			VF_TRUE( c, "date_end", std::as_const( *ps ).date_end( ) == ps->data( ) + N );
		}
		c.nontrivial( c.idx );
	}
} // namespace

// no room at all
VF_FAMILY( bounded_vector_none, 100, 1000 ) {
	daw::bounded_vector_t<int, 0> v{ }, w{ };
	size_t const k = 1 + c.rng.below( 1000 );
	c.nontrivial( k );
	v.swap( w );
	v.clear( );
	VF_TRUE( c, "none: empty and full", v.empty( ) and v.full( ) and v.size( ) == 0 and v.capacity( ) == 0 and v.available( ) == 0 );
	VF_TRUE( c, "none: no room", not v.has_room( k ) );
	VF_TRUE( c, "none: iteration", v.begin( ) == v.end( ) and v.cbegin( ) == v.cend( ) and v.rbegin( ) == v.rend( ) and v.crbegin( ) == v.crend( ) );
	bool threw = false;
	try {
		v.resize( k );
	} catch( std::out_of_range const & ) { threw = true; }
	VF_TRUE( c, "none: resize past capacity", threw );
	v.resize( 0 );
	VF_EQ( c, "none: size", v.size( ), size_t{ 0 } );
}

VF_FAMILY( arrays_, 1500, 30000 ) {
	switch( c.idx % 3 ) {
	case 0: arrays<int, 1>( c ); break;
	case 1: arrays<El, 4>( c ); break;
	default: arrays<long, 17>( c );
	}
	int x = static_cast<int>( c.rng.range( -99, 99 ) );
	int raw[3] = { x, x + 1, x + 2 };
	auto ta = daw::to_array( raw );
	VF_TRUE( c, "to_array", ta == ( std::array<int, 3>{ x, x + 1, x + 2 } ) );
	std::string s( 30, 'q' );
	auto mk = daw::make_array( s, std::string( "b" ), std::string( "c" ) );
	VF_TRUE( c, "make_array", mk.size( ) == 3 and mk[0] == s and mk[1] == "b" and mk[2] == "c" and s.size( ) == 30 );
	auto mkt = daw::make_array<long>( x, x + 1 );
	VF_TRUE( c, "make_array<T>", ( mkt == std::array<long, 2>{ x, x + 1 } ) );
	auto sa = daw::make_string_array( "a", s, std::string( "zz" ) );
	VF_TRUE( c, "make_string_array", sa[0] == "a" and sa[1] == s and sa[2] == "zz" );
	static_assert( std::is_same_v<daw::md_stdarray_t<int, 2, 3>, std::array<std::array<int, 3>, 2>> );
}
VF_MAIN( )
