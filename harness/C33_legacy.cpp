// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// C33: the legacy holders against std::vector / std::optional style models, with a
// lifetime ledger on the elements and copies that throw.
#include <limits>
#include <memory>
#include <daw/deprecated/daw_carray.h>
#include <daw/deprecated/daw_copiable_unique_ptr.h>
#include <daw/deprecated/daw_fixed_array.h>
#include <daw/deprecated/daw_heap_array.h>
#include <daw/deprecated/daw_optional_poly.h>
#include "vf.h"
#include "vf_types.h"
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace {
	using vf::Tracked;
	using Model = std::vector<int>;
	int val( int x ) {
		return x;
	}
	int val( Tracked const &x ) {
		return x.get( );
	}
	template<typename A>
	void same( vf::Case &c, char const *l, A &a, Model const &m ) {
		A const &ca = a;
		VF_EQ( c, l, a.size( ), m.size( ) );
		c.count( "containers_compared", 1 );
		bool ok = true;
		for( std::size_t i = 0; i < m.size( ) and i < a.size( ); ++i )
			ok = ok and val( a[i] ) == m[i] and &ca[i] == &a[i] and a.data( ) + i == &a[i];
		VF_TRUE( c, l, ok );
		if( m.empty( ) )
			return;
		VF_TRUE( c, l, val( a.front( ) ) == m.front( ) and val( a.back( ) ) == m.back( ) and &ca.front( ) == &a.front( ) and
		                 &ca.back( ) == &a.back( ) );
		std::size_t n = 0;
		ok = true;
		for( auto &x : a ) {
			ok = ok and n < m.size( ) and &x == a.data( ) + n;
			++n;
			if( n > m.size( ) )
				break;
		}
		VF_TRUE( c, l, ok and n == m.size( ) );
		n = 0;
		for( auto it = ca.cbegin( ); it != ca.cend( ); ++it ) {
			ok = ok and n < m.size( ) and &*it == ca.data( ) + n;
			if( ++n > m.size( ) )
				break;
		}
		VF_TRUE( c, l, ok and n == m.size( ) );
	}
	Model some( vf::Case &c ) {
		Model m( c.rng.chance( 1, 8 ) ? 0 : 1 + c.rng.below( 9 ) );
		for( auto &x : m )
			x = (int)c.rng.below( 5 );
		return m;
	}

	template<typename T>
	void heap_array_history( vf::Case &c ) {
		using A = daw::heap_array<T>;
		constexpr bool tracked = std::is_same_v<T, Tracked>;
		std::vector<A> as( 3 );
		std::vector<Model> ms( 3 );
		std::vector<char> storage( 3, 0 ); // has elements or an (empty) block of its own
		auto steps = 4 + c.rng.below( 16 );
		std::uint64_t h = 0;
		for( std::size_t s = 0; s < steps; ++s ) {
			auto i = c.rng.below( 3 ), j = c.rng.below( 3 );
			auto op = c.rng.below( 13 );
			h = vf::mix( h, op * 16 + i * 4 + j );
			switch( op ) {
			case 0: {
				c.op( "sized" );
				auto n = c.rng.below( 8 );
				as[i] = A( n, T( 7 ) );
				ms[i].assign( n, 7 );
				storage[i] = 1;
			} break;
			case 1: {
				c.op( "from pointer" );
				auto m = some( c );
				std::vector<T> src( m.begin( ), m.end( ) );
				as[i] = A( src.data( ), src.size( ) );
				ms[i] = m;
				storage[i] = 1;
			} break;
			case 2:
				c.op( "initializer list" );
				as[i] = { T( 3 ), T( (int)s ), T( 5 ) };
				ms[i] = { 3, (int)s, 5 };
				storage[i] = 1;
				break;
			case 3: {
				c.op( "copy construct" );
				A t( as[j] );
				same( c, "copy constructed", t, ms[j] );
				if( not ms[j].empty( ) ) {
					t[0] = T( 99 );
					Model k = ms[j];
					k[0] = 99;
					same( c, "changed copy", t, k );
				}
			} break;
			case 4:
				c.op( "copy assign" );
				as[i] = as[j];
				ms[i] = ms[j];
				storage[i] = 1;
				break;
			case 5: {
				c.op( "move construct" );
				A t( std::move( as[j] ) );
				same( c, "move constructed", t, ms[j] );
				VF_TRUE( c, "moved from is empty", as[j].empty( ) and as[j].size( ) == 0 and not as[j] );
				as[i] = std::move( t );
				auto k = ms[j];
				auto st = storage[j];
				ms[j].clear( );
				storage[j] = 0;
				ms[i] = k;
				storage[i] = st;
			} break;
			case 6:
				c.op( "move assign" );
				if( i != j ) {
					as[i] = std::move( as[j] );
					ms[i] = ms[j];
					ms[j].clear( );
					storage[i] = storage[j];
					storage[j] = 0;
					VF_TRUE( c, "moved from is empty", as[j].empty( ) and as[j].size( ) == 0 );
				}
				break;
			case 7:
				c.op( "swap" );
				if( c.rng.coin( ) )
					as[i].swap( as[j] );
				else
					swap( as[i], as[j] );
				std::swap( ms[i], ms[j] );
				std::swap( storage[i], storage[j] );
				break;
			case 8:
				c.op( "clear" );
				as[i].clear( );
				ms[i].clear( );
				storage[i] = 0;
				break;
			case 9: {
				c.op( "at" );
				auto p = c.rng.below( 12 );
				bool threw = false;
				try {
					int v = c.rng.coin( ) ? val( as[i].at( p ) ) : val( std::as_const( as[i] ).at( p ) );
					VF_TRUE( c, "at", p < ms[i].size( ) and v == ms[i][p] );
				} catch( std::out_of_range const & ) { threw = true; }
				VF_EQ( c, "at refuses", threw, p >= ms[i].size( ) );
			} break;
			case 10:
				if( not ms[i].empty( ) ) {
					c.op( "write" );
					auto p = c.rng.below( ms[i].size( ) );
					as[i][p] = T( 4 );
					ms[i][p] = 4;
				}
				break;
			case 11:
				if constexpr( not tracked ) {
					if( storage[i] ) {
						c.op( "find_first_of" );
						int v = (int)c.rng.below( 6 );
						auto p = c.rng.below( ms[i].size( ) + 1 );
						auto at = p;
						while( at < ms[i].size( ) and ms[i][at] != v )
							++at;
						auto *r = as[i].find_first_of( v, as[i].cbegin( ) + p );
						VF_EQ( c, "found at", (std::size_t)( r - as[i].begin( ) ), at );
						if( p == 0 )
							VF_TRUE( c, "found from the front", as[i].find_first_of( v ) == r );
					}
				}
				break;
			default:
				if constexpr( tracked ) {
					c.op( "copy that throws" );
					auto n = ms[j].size( );
					if( n == 0 )
						break;
					bool threw = false;
					// past the n + 1 default constructions
					vf::g_led->throw_at = (long long)( n + 1 + c.rng.below( n ) );
					try {
						if( c.rng.coin( ) )
							as[i] = as[j];
						else {
							A t( as[j] );
						}
					} catch( vf::injected const & ) { threw = true; }
					VF_TRUE( c, "the copy's exception came through", threw and vf::g_led->throw_at == -1 );
					vf::g_led->throw_at = -1;
					c.count( "copies_that_threw", 1 );
				}
			}
			for( std::size_t k = 0; k < 3; ++k ) {
				same( c, "heap_array", as[k], ms[k] );
				VF_TRUE( c, "emptiness", as[k].empty( ) == ms[k].empty( ) and (bool)as[k] == (bool)storage[k] );
			}
		}
		c.nontrivial( h );
	}
	template<typename T>
	void fixed_array_history( vf::Case &c ) {
		using A = daw::fixed_array<T>;
		constexpr bool tracked = std::is_same_v<T, Tracked>;
		std::vector<A> as( 3 );
		std::vector<Model> ms( 3 );
		auto steps = 4 + c.rng.below( 16 );
		std::uint64_t h = 0;
		for( std::size_t s = 0; s < steps; ++s ) {
			auto i = c.rng.below( 3 ), j = c.rng.below( 3 );
			auto op = c.rng.below( 14 );
			h = vf::mix( h, op * 16 + i * 4 + j );
			switch( op ) {
			case 0: {
				c.op( "sized" );
				auto n = c.rng.below( 8 );
				as[i] = A( n );
				ms[i].assign( n, 0 );
			} break;
			case 1: {
				c.op( "sized with value" );
				auto n = c.rng.below( 8 );
				T v( 6 );
				as[i] = A( n, v );
				ms[i].assign( n, 6 );
			} break;
			case 2: {
				c.op( "in place" );
				if( c.rng.coin( ) )
					as[i] = A( std::in_place, T( 3 ), T( (int)s ), T( 5 ) );
				else
					as[i] = A( std::in_place_type<T>, T( 3 ), T( (int)s ), T( 5 ) );
				ms[i] = { 3, (int)s, 5 };
			} break;
			case 3: {
				c.op( "take ownership" );
				auto m = some( c );
				T *p = new T[m.size( )];
				for( std::size_t k = 0; k < m.size( ); ++k )
					p[k] = T( m[k] );
				as[i] = A( p, m.size( ) );
				VF_TRUE( c, "owns that block", as[i].data( ) == p );
				ms[i] = m;
			} break;
			case 4: {
				c.op( "from iterators" );
				auto m = some( c );
				std::vector<T> src( m.begin( ), m.end( ) );
				if( c.rng.coin( ) )
					as[i] = A( src.begin( ), src.end( ) );
				else
					as[i] = A( src.begin( ), src.size( ) );
				ms[i] = m;
			} break;
			case 5: {
				c.op( "copy construct" );
				A t( as[j] );
				same( c, "copy constructed", t, ms[j] );
				if( not ms[j].empty( ) ) {
					t[0] = T( 99 );
					Model k = ms[j];
					k[0] = 99;
					same( c, "changed copy", t, k );
				}
			} break;
			case 6:
				c.op( "copy assign" );
				as[i] = as[j];
				ms[i] = ms[j];
				break;
			case 7: {
				c.op( "move construct" );
				A t( std::move( as[j] ) );
				same( c, "move constructed", t, ms[j] );
				VF_EQ( c, "moved from is empty", as[j].size( ), 0U );
				as[i] = std::move( t );
				auto k = ms[j];
				ms[j].clear( );
				ms[i] = k;
			} break;
			case 8:
				c.op( "move assign" );
				if( i != j ) {
					as[i] = std::move( as[j] );
					ms[i] = ms[j];
					ms[j].clear( );
				} else {
					auto &self = as[j];
					as[i] = std::move( self );
				}
				break;
			case 9:
				c.op( "clear" );
				as[i].clear( );
				ms[i].clear( );
				if( c.rng.coin( ) )
					as[i].clear( );
				break;
			case 10: {
				c.op( "release" );
				auto *was = as[i].data( );
				auto p = as[i].release( );
				VF_TRUE( c, "released the block", p.get( ) == was and as[i].size( ) == 0 );
				bool ok = true;
				for( std::size_t k = 0; k < ms[i].size( ); ++k )
					ok = ok and val( p[k] ) == ms[i][k];
				VF_TRUE( c, "released elements", ok );
				ms[i].clear( );
			} break;
			case 11:
				if( not ms[i].empty( ) ) {
					c.op( "write" );
					auto p = c.rng.below( ms[i].size( ) );
					as[i][p] = T( 4 );
					ms[i][p] = 4;
				}
				break;
			case 12: {
				c.op( "std::swap" );
				std::swap( as[i], as[j] );
				std::swap( ms[i], ms[j] );
			} break;
			default:
				if constexpr( tracked ) {
					c.op( "copy that throws" );
					auto n = ms[j].size( );
					if( n == 0 )
						break;
					bool threw = false;
					vf::g_led->throw_at = (long long)c.rng.below( 2 * n );
					try {
						switch( c.rng.below( 3 ) ) {
						case 0: as[i] = as[j]; break;
						case 1: {
							A t( as[j] );
						} break;
						default: {
							A t( std::as_const( as[j] ).data( ), n );
						}
						}
					} catch( vf::injected const & ) { threw = true; }
					VF_TRUE( c, "the copy's exception came through", threw and vf::g_led->throw_at == -1 );
					vf::g_led->throw_at = -1;
					c.count( "copies_that_threw", 1 );
				}
			}
			for( std::size_t k = 0; k < 3; ++k )
				same( c, "fixed_array", as[k], ms[k] );
		}
		c.nontrivial( h );
	}

	template<std::size_t N>
	void carray_case( vf::Case &c ) {
		using A = daw::carray<int, N>;
		auto eq = [&]( char const *l, A &a, std::vector<int> const &m ) {
			A const &ca = a;
			bool ok = a.size( ) == N and a.max_size( ) == N and a.empty( ) == ( N == 0 );
			for( std::size_t i = 0; i < N; ++i )
				ok = ok and a[i] == m[i] and ca[i] == m[i] and a.at( i ) == m[i] and ca.at( i ) == m[i] and &a[i] == a.data( ) + i;
			ok = ok and std::vector<int>( a.begin( ), a.end( ) ) == m and std::vector<int>( ca.cbegin( ), ca.cend( ) ) == m and
			     std::vector<int>( ca.begin( ), ca.end( ) ) == m;
			std::vector<int> r( m.rbegin( ), m.rend( ) );
			ok = ok and std::vector<int>( a.rbegin( ), a.rend( ) ) == r and std::vector<int>( ca.rbegin( ), ca.rend( ) ) == r and
			     std::vector<int>( ca.crbegin( ), ca.crend( ) ) == r;
			ok = ok and a.front( ) == m.front( ) and a.back( ) == m.back( ) and ca.front( ) == m.front( ) and ca.back( ) == m.back( );
			VF_TRUE( c, l, ok );
			c.count( "containers_compared", 1 );
		};
		int raw[N];
		for( auto &x : raw )
			x = (int)c.rng.below( 100 );
		A zero;
		eq( "default", zero, std::vector<int>( N ) );
		A a( raw );
		std::vector<int> ma( raw, raw + N );
		eq( "from array", a, ma );
		A b( 5 );
		std::vector<int> mb( N );
		mb[0] = 5;
		eq( "from fewer elements", b, mb );
		if constexpr( N >= 3 ) {
			A t( 1, (char)2, 3L );
			std::vector<int> mt( N );
			mt[0] = 1, mt[1] = 2, mt[2] = 3;
			eq( "from elements", t, mt );
		}
		auto steps = 3 + c.rng.below( 8 );
		for( std::size_t s = 0; s < steps; ++s ) {
			switch( c.rng.below( 8 ) ) {
			case 0: c.op( "copy" ); { A t( a ); eq( "copy", t, ma ); A u( std::as_const( a ) ); eq( "copy of const", u, ma ); } break;
			case 1: c.op( "assign" ); b = a; mb = ma; break;
			case 2: c.op( "move" ); { A t( std::move( b ) ); eq( "moved", t, mb ); b = std::move( t ); } break;
			case 3: c.op( "swap" ); swap( a, b ); std::swap( ma, mb ); break;
			case 4: { c.op( "fill" ); int v = (int)c.rng.below( 9 ); a.fill( v ); ma.assign( N, v ); } break;
			case 5: { c.op( "write" ); auto p = c.rng.below( N ); a[p] = 77; ma[p] = 77; } break;
			case 6: { c.op( "array assign" ); for( auto &x : raw ) x = (int)c.rng.below( 100 ); b = raw; mb.assign( raw, raw + N ); } break;
			default: {
				c.op( "at" );
				auto p = N + c.rng.below( 3 );
				bool t1 = false, t2 = false;
				try { (void)a.at( p ); } catch( std::out_of_range const & ) { t1 = true; }
				try { (void)std::as_const( a ).at( p ); } catch( std::out_of_range const & ) { t2 = true; }
				VF_TRUE( c, "at refuses", t1 and t2 );
			}
			}
			eq( "a", a, ma );
			eq( "b", b, mb );
		}
		c.nontrivial( c.rng.next( ) );
	}

	struct Base {
		Tracked t;
		explicit Base( int x = 1 )
		  : t( x ) {}
		Base( Base const & ) = default;
		Base &operator=( Base const & ) = default;
		virtual ~Base( ) = default;
		virtual int kind( ) const {
			return 1;
		}
		friend bool operator==( Base const &a, Base const &b ) {
			return a.t.get( ) == b.t.get( );
		}
		friend bool operator!=( Base const &a, Base const &b ) {
			return a.t.get( ) != b.t.get( );
		}
		friend bool operator<( Base const &a, Base const &b ) {
			return a.t.get( ) < b.t.get( );
		}
		friend bool operator<=( Base const &a, Base const &b ) {
			return a.t.get( ) <= b.t.get( );
		}
		friend bool operator>( Base const &a, Base const &b ) {
			return a.t.get( ) > b.t.get( );
		}
		friend bool operator>=( Base const &a, Base const &b ) {
			return a.t.get( ) >= b.t.get( );
		}
	};
	struct Derived : Base {
		Tracked extra;
		explicit Derived( int x = 2 )
		  : Base( x )
		  , extra( x + 1 ) {}
		int kind( ) const override {
			return 2;
		}
	};
} // namespace

VF_FAMILY( heap_arrays, 4000, 60000 ) {
	vf::LedgerScope led;
	if( c.idx % 2 )
		heap_array_history<int>( c );
	else
		heap_array_history<Tracked>( c );
	led.check_empty( c, "heap_array elements" );
}
VF_FAMILY( fixed_arrays, 4000, 60000 ) {
	vf::LedgerScope led;
	if( c.idx % 2 )
		fixed_array_history<int>( c );
	else
		fixed_array_history<Tracked>( c );
	led.check_empty( c, "fixed_array elements" );
}
VF_FAMILY( carrays, 3000, 40000 ) {
	switch( c.idx % 4 ) {
	case 0: carray_case<1>( c ); break;
	case 1: carray_case<2>( c ); break;
	case 2: carray_case<3>( c ); break;
	default: carray_case<8>( c );
	}
}
VF_FAMILY( copiable_pointers, 4000, 60000 ) {
	vf::LedgerScope led;
	{
		using P = daw::copiable_unique_ptr<Tracked>;
		std::vector<P> ps( 3 );
		std::vector<std::optional<int>> ms( 3 );
		auto steps = 4 + c.rng.below( 16 );
		std::uint64_t h = 0;
		for( std::size_t s = 0; s < steps; ++s ) {
			auto i = c.rng.below( 3 ), j = c.rng.below( 3 );
			int x = (int)c.rng.below( 100 );
			auto op = c.rng.below( 10 );
			h = vf::mix( h, op * 16 + i * 4 + j );
			switch( op ) {
			case 0: c.op( "make" ); ps[i] = daw::make_copiable_unique_ptr<Tracked>( x ); ms[i] = x; break;
			case 1: c.op( "from pointer" ); ps[i] = P( new Tracked( x ) ); ms[i] = x; break;
			case 2: {
				c.op( "copy construct" );
				P t( ps[j] );
				VF_TRUE( c, "copy", (bool)t == ms[j].has_value( ) and ( not t or ( t->get( ) == *ms[j] and t.get( ) != ps[j].get( ) ) ) );
				if( t )
					*t = Tracked( 1000 );
			} break;
			case 3: c.op( "copy assign" ); ps[i] = ps[j]; ms[i] = ms[j]; break;
			case 4: {
				c.op( "move construct" );
				auto *was = ps[j].get( );
				P t( std::move( ps[j] ) );
				VF_TRUE( c, "moved", t.get( ) == was and not ps[j] );
				ps[j] = std::move( t );
			} break;
			case 5:
				c.op( "move assign" );
				if( i != j ) {
					auto *was = ps[j].get( );
					ps[i] = std::move( ps[j] );
					VF_TRUE( c, "target has the object", ps[i].get( ) == was );
					ms[i] = ms[j];
					// what is left behind is valid, drop it
					ps[j].reset( );
					ms[j].reset( );
				}
				break;
			case 6: c.op( "reset" ); ps[i].reset( ); ms[i].reset( ); break;
			case 7: {
				c.op( "release" );
				std::unique_ptr<Tracked> o( ps[i].release( ) );
				VF_TRUE( c, "released", (bool)o == ms[i].has_value( ) and ( not o or o->get( ) == *ms[i] ) );
				ms[i].reset( );
			} break;
			case 8:
				c.op( "swap" );
				if( c.rng.coin( ) )
					ps[i].swap( ps[j] );
				else
					swap( ps[i], ps[j] );
				std::swap( ms[i], ms[j] );
				break;
			default: {
				c.op( "throwing copy" );
				if( not ms[j] or i == j )
					break;
				vf::g_led->throw_at = 0;
				bool threw = false;
				try {
					if( c.rng.coin( ) )
						ps[i] = ps[j];
					else {
						P t( ps[j] );
					}
				} catch( vf::injected const & ) { threw = true; }
				vf::g_led->throw_at = -1;
				VF_TRUE( c, "the copy's exception came through", threw );
			}
			}
			for( std::size_t k = 0; k < 3; ++k ) {
				P const &cp = ps[k];
				VF_TRUE( c, "held value", (bool)cp == ms[k].has_value( ) and ( cp.get( ) != nullptr ) == ms[k].has_value( ) );
				if( ms[k] )
					VF_TRUE( c, "held value",
					         ps[k]->get( ) == *ms[k] and ( *ps[k] ).get( ) == *ms[k] and cp->get( ) == *ms[k] and
					           &*cp == cp.get( ) and &*ps[k] == cp.get( ) );
			}
			P const &a = ps[i], &b = ps[j];
			auto *ra = a.get( ), *rb = b.get( );
			std::less<Tracked const *> lt{ };
			VF_TRUE( c, "comparisons follow the pointers",
			         ( a == b ) == ( ra == rb ) and ( a != b ) == ( ra != rb ) and ( a < b ) == lt( ra, rb ) and
			           ( a > b ) == lt( rb, ra ) and ( a <= b ) == not lt( rb, ra ) and ( a >= b ) == not lt( ra, rb ) );
			VF_TRUE( c, "comparisons with nullptr",
			         ( a == nullptr ) == not ra and ( nullptr == a ) == not ra and ( a != nullptr ) == (bool)ra and
			           ( nullptr != a ) == (bool)ra and ( nullptr < a ) == (bool)ra and not( a < nullptr ) and
			           ( a <= nullptr ) == not ra and ( nullptr >= a ) == not ra and ( a > nullptr ) == (bool)ra and
			           nullptr <= a and a >= nullptr and not( nullptr > a ) );
			VF_EQ( c, "hash follows the pointer", std::hash<P>{ }( a ), std::hash<Tracked const *>{ }( ra ) );
			c.count( "pointer_steps", 1 );
		}
		c.nontrivial( h );
	}
	led.check_empty( c, "copiable_unique_ptr objects" );
}
VF_FAMILY( optional_polys, 4000, 60000 ) {
	vf::LedgerScope led;
	{
		using O = daw::optional_poly<Base>;
		using OD = daw::optional_poly<Derived>;
		struct M {
			int kind = 0; // 0 is empty
			int x = 0;
		};
		std::vector<O> os( 3 );
		std::vector<M> ms( 3 );
		OD od;
		std::optional<int> md;
		auto steps = 4 + c.rng.below( 16 );
		std::uint64_t h = 0;
		for( std::size_t s = 0; s < steps; ++s ) {
			auto i = c.rng.below( 3 ), j = c.rng.below( 3 );
			int x = (int)c.rng.below( 4 );
			auto op = c.rng.below( 15 );
			h = vf::mix( h, op * 16 + i * 4 + j );
			switch( op ) {
			case 0: c.op( "emplace" ); os[i].emplace( x ); ms[i] = { 1, x }; break;
			case 1: c.op( "construct from derived" ); os[i] = O( Derived( x ) ); ms[i] = { 2, x }; break;
			case 2: {
				c.op( "construct from const lvalue" );
				Derived const d( x );
				O t( d );
				VF_TRUE( c, "constructed", t and t->kind( ) == 2 and t->t.get( ) == x );
				os[i] = std::move( t );
				ms[i] = { 2, x };
			} break;
			case 3: {
				c.op( "assign derived value" );
				Derived const d( x );
				os[i] = d;
				ms[i] = { 2, x };
			} break;
			case 4: {
				c.op( "assign base value" );
				Base const b( x );
				os[i] = b;
				ms[i] = { 1, x };
			} break;
			case 5:
				// a copy through optional_poly<Base> copies the Base part
				c.op( "copy assign" );
				os[i] = os[j];
				ms[i] = ms[j];
				if( ms[i].kind )
					ms[i].kind = 1;
				if( i == j )
					ms[j] = ms[i];
				break;
			case 6: {
				c.op( "copy construct" );
				O t( os[j] );
				VF_TRUE( c, "copy", t.has_value( ) == ( ms[j].kind != 0 ) and
				                      ( not t or ( t->t.get( ) == ms[j].x and &*t != &*os[j] ) ) );
			} break;
			case 7: {
				c.op( "move" );
				O t( std::move( os[j] ) );
				VF_TRUE( c, "moved from is empty", os[j].empty( ) );
				os[i] = std::move( t );
				auto m = ms[j];
				ms[j] = { };
				ms[i] = m;
			} break;
			case 8: c.op( "reset" ); os[i].reset( ); ms[i] = { }; break;
			case 9:
				c.op( "swap" );
				if( c.rng.coin( ) )
					os[i].swap( os[j] );
				else
					swap( os[i], os[j] );
				std::swap( ms[i], ms[j] );
				break;
			case 10: c.op( "derived optional" ); od = OD( Derived( x ) ); md = x; break;
			case 11: {
				c.op( "from derived optional" );
				if( c.rng.coin( ) )
					os[i] = od;
				else
					os[i] = O( od );
				ms[i] = md ? M{ 2, *md } : M{ };
				VF_TRUE( c, "derived optional kept", od.has_value( ) == md.has_value( ) );
			} break;
			case 12: {
				c.op( "from moved derived optional" );
				if( c.rng.coin( ) )
					os[i] = std::move( od );
				else
					os[i] = O( std::move( od ) );
				ms[i] = md ? M{ 2, *md } : M{ };
				md.reset( );
				VF_TRUE( c, "derived optional empty", od.empty( ) );
			} break;
			case 13: c.op( "make_optional_poly" ); os[i] = daw::make_optional_poly<Base>( x ); ms[i] = { 1, x }; break;
			default:
				c.op( "write" );
				if( ms[i].kind ) {
					os[i].get( ).t = Tracked( x );
					ms[i].x = x;
				}
			}
			for( std::size_t k = 0; k < 3; ++k ) {
				O const &o = os[k];
				bool has = ms[k].kind != 0;
				VF_TRUE( c, "holds", o.has_value( ) == has and o.empty( ) == not has and (bool)o == has );
				if( has and o )
					VF_TRUE( c, "value", o->kind( ) == ms[k].kind and o.get( ).t.get( ) == ms[k].x and ( *o ).t.get( ) == ms[k].x and
					                       &*os[k] == &*o and os[k].operator->( ) == &o.get( ) );
			}
			auto mk = [&]( std::size_t k ) { return ms[k].kind ? std::optional<int>( ms[k].x ) : std::nullopt; };
			auto ma = mk( i ), mb = mk( j );
			VF_TRUE( c, "comparisons", ( os[i] == os[j] ) == ( ma == mb ) and ( os[i] != os[j] ) == ( ma != mb ) and
			                             ( os[i] < os[j] ) == ( ma < mb ) and ( os[i] <= os[j] ) == ( ma <= mb ) and
			                             ( os[i] > os[j] ) == ( ma > mb ) and ( os[i] >= os[j] ) == ( ma >= mb ) );
			c.count( "optional_steps", 1 );
		}
		c.nontrivial( h );
	}
	led.check_empty( c, "optional_poly objects" );
}
VF_MAIN( )
