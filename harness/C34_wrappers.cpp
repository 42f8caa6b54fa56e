// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <limits>
#include <memory>
#include <vector>
#include <string>
#include <daw/daw_not_null.h>
#include <daw/daw_observer_ptr.h>
#include <daw/daw_prop_const_ptr.h>
#include <daw/daw_rw_ref.h>
#include <daw/daw_read_only.h>
#include <daw/daw_reference.h>
#include "vf.h"
#include "vf_types.h"
#include <list>
#include <numeric>
#include <sstream>
#include <unordered_map>

template<typename P>
static void relations( vf::Case &c, char const *what, P const &a, P const &b, auto x, auto y ) {
	using R = decltype( x );
	std::less<R> lt;
	VF_EQ( c, what, ( a == b ), ( x == y ) );
	VF_EQ( c, what, ( a != b ), ( x != y ) );
	VF_EQ( c, what, ( a < b ), lt( x, y ) );
	VF_EQ( c, what, ( a > b ), lt( y, x ) );
	VF_EQ( c, what, ( a <= b ), not lt( y, x ) );
	VF_EQ( c, what, ( a >= b ), not lt( x, y ) );
}
template<typename P, typename R>
static void relations_raw( vf::Case &c, char const *what, P const &a, R y, R x ) {
	std::less<R> lt;
	VF_EQ( c, what, ( a == y ), ( x == y ) );
	VF_EQ( c, what, ( a != y ), ( x != y ) );
	VF_EQ( c, what, ( y == a ), ( x == y ) );
	VF_EQ( c, what, ( y != a ), ( x != y ) );
	VF_EQ( c, what, ( a < y ), lt( x, y ) );
	VF_EQ( c, what, ( y < a ), lt( y, x ) );
	VF_EQ( c, what, ( a > y ), lt( y, x ) );
	VF_EQ( c, what, ( y > a ), lt( x, y ) );
	VF_EQ( c, what, ( a <= y ), not lt( y, x ) );
	VF_EQ( c, what, ( y <= a ), not lt( x, y ) );
	VF_EQ( c, what, ( a >= y ), not lt( x, y ) );
	VF_EQ( c, what, ( y >= a ), not lt( y, x ) );
}

template<typename T>
static T mk( int i ) {
	if constexpr( std::is_same_v<T, std::string> ) {
		return "value number " + std::to_string( i );
	} else {
		return static_cast<T>( i );
	}
}

// ---------------------------------------------------------------- not_null
template<typename T>
static void not_null_history( vf::Case &c ) {
	using NN = daw::not_null<T *>;
	static_assert( not std::is_constructible_v<NN, std::nullptr_t> );
	static_assert( not std::is_assignable_v<NN &, std::nullptr_t> );
	static_assert( not std::is_default_constructible_v<NN> );
	static_assert( std::is_same_v<decltype( *std::declval<NN &>( ) ), T &> );
	static_assert( std::is_same_v<decltype( *std::declval<NN const &>( ) ), T const &> );
	auto &g = c.rng;
	auto n = static_cast<std::ptrdiff_t>( g.range( 1, 12 ) );
	std::vector<T> store;
	std::vector<T> model;
	for( int i = 0; i < n; ++i ) {
		store.push_back( mk<T>( i ) );
	}
	model = store;
	T *const base = store.data( );
	constexpr int V = 3;
	std::vector<NN> w;
	std::ptrdiff_t at[V];
	for( auto &a : at ) {
		a = static_cast<std::ptrdiff_t>( g.below( n ) );
		switch( g.below( 3 ) ) {
		case 0: w.push_back( NN( base + a ) ); break;
		case 1: w.push_back( NN( daw::never_null, base + a ) ); break;
		default: {
			daw::not_null d = base + a;
			static_assert( std::is_same_v<decltype( d ), NN> );
			w.push_back( d );
		}
		}
	}
	auto steps = g.range( 5, 60 );
	std::uint64_t h = 0;
	for( std::uint64_t s = 0; s < steps; ++s ) {
		auto i = g.below( V );
		auto j = g.below( V );
		// any element, with one past the end reachable only as a bound
		auto to = static_cast<std::ptrdiff_t>( g.below( n ) );
		auto op = g.below( 14 );
		h = vf::mix( h, op );
		c.op( "not_null" );
		switch( op ) {
		case 0: VF_TRUE( c, "assign returns itself", &( w[i] = base + to ) == &w[i] ); at[i] = to; break;
		case 1: w[i] = w[j]; at[i] = at[j]; break;
		case 2:
			if( at[i] + 1 < n ) {
				VF_TRUE( c, "++ returns itself", &++w[i] == &w[i] );
				++at[i];
			}
			break;
		case 3:
			if( at[i] > 0 ) {
				VF_TRUE( c, "-- returns itself", &--w[i] == &w[i] );
				--at[i];
			}
			break;
		case 4:
			if( at[i] + 1 < n ) {
				NN old = w[i]++;
				VF_EQ( c, "post ++ old", old.get( ), base + at[i] );
				++at[i];
			}
			break;
		case 5:
			if( at[i] > 0 ) {
				NN old = w[i]--;
				VF_EQ( c, "post -- old", old.get( ), base + at[i] );
				--at[i];
			}
			break;
		case 6: VF_TRUE( c, "+= returns itself", &( w[i] += ( to - at[i] ) ) == &w[i] ); at[i] = to; break;
		case 7: VF_TRUE( c, "-= returns itself", &( w[i] -= static_cast<int>( at[i] - to ) ) == &w[i] ); at[i] = to; break;
		case 8: {
			auto d = to - at[i];
			NN const p = w[i] + d;
			NN const q = d + w[i];
			NN const r = w[i] - ( -d );
			VF_EQ( c, "p + n", p.get( ), base + to );
			VF_EQ( c, "n + p", q.get( ), base + to );
			VF_EQ( c, "p - n", r.get( ), base + to );
			VF_EQ( c, "p - p", p - w[i], d );
			break;
		}
		case 9: std::swap( w[i], w[j] ); std::swap( at[i], at[j] ); break;
		case 10: {
			T v = mk<T>( static_cast<int>( 100 + g.below( 100 ) ) );
			*w[i] = v;
			model[static_cast<std::size_t>( at[i] )] = v;
			break;
		}
		case 11: {
			T v = mk<T>( static_cast<int>( 300 + g.below( 100 ) ) );
			w[i][to - at[i]] = v;
			model[static_cast<std::size_t>( to )] = v;
			break;
		}
		case 12: {
			T v = mk<T>( static_cast<int>( 500 + g.below( 100 ) ) );
			*( w[i].operator->( ) ) = v;
			model[static_cast<std::size_t>( at[i] )] = v;
			break;
		}
		default: {
			// as an iterator
			NN first( base );
			auto k = std::find( first, first + n, store[static_cast<std::size_t>( to )] );
			auto k2 = std::find( base, base + n, store[static_cast<std::size_t>( to )] );
			VF_EQ( c, "find through not_null", k.get( ), k2 );
			break;
		}
		}
		for( int k = 0; k < V; ++k ) {
			NN const &cw = w[static_cast<std::size_t>( k )];
			VF_EQ( c, "get", cw.get( ), base + at[k] );
			VF_EQ( c, "mutable get", w[static_cast<std::size_t>( k )].get( ), base + at[k] );
			VF_EQ( c, "const deref address", std::addressof( *cw ), static_cast<T const *>( base + at[k] ) );
			VF_EQ( c, "conversion", static_cast<T *>( cw ), base + at[k] );
			VF_EQ( c, "arrow", cw.operator->( ), base + at[k] );
			VF_EQ( c, "hash", std::hash<NN>{ }( cw ), std::hash<T *>{ }( base + at[k] ) );
			VF_TRUE( c, "never null", cw.get( ) != nullptr );
		}
		relations( c, "not_null/not_null", w[i], w[j], base + at[i], base + at[j] );
		relations_raw( c, "not_null/raw", w[i], base + to, base + at[i] );
		daw::not_null<T const *> cn( base + to );
		VF_EQ( c, "mixed ==", ( cn == w[i] ), ( to == at[i] ) );
		VF_EQ( c, "mixed <", ( cn < w[i] ), ( to < at[i] ) );
		VF_EQ( c, "mixed >=", ( w[i] >= cn ), ( at[i] >= to ) );
		VF_TRUE( c, "objects behind", store == model );
	}
	c.nontrivial( vf::mix( h, static_cast<std::uint64_t>( n ) ) );
	c.count( "not_null_steps", steps );
}
VF_FAMILY( not_null_history_any, 30000, 400000 ) {
	switch( c.idx % 3 ) {
	case 0: not_null_history<int>( c ); break;
	case 1: not_null_history<std::string>( c ); break;
	default: not_null_history<short>( c ); break;
	}
}

VF_FAMILY( not_null_refuses, 60, 600 ) {
	auto &g = c.rng;
	int x = 3;
	std::string s = "text";
	int *volatile pn = nullptr;
	int *volatile pv = &x;
	std::string *volatile sn = nullptr;
	auto how = g.below( 6 );
	c.op( "null refusal" );
	vf::End e;
	bool want_abort = true;
	switch( how ) {
	case 0: e = vf::outcome( [&] { int *p = pn; daw::not_null<int *> n( p ); (void)n; } ); break;
	case 1: e = vf::outcome( [&] { int *p = pv; daw::not_null<int *> n( p ); p = pn; n = p; (void)n; } ); break;
	case 2: e = vf::outcome( [&] { std::string *p = sn; daw::not_null n = p; (void)n; } ); break;
	case 3: e = vf::outcome( [&] { int *p = pn; std::vector<daw::not_null<int *>> v; v.emplace_back( p ); } ); break;
	case 4:
		want_abort = false;
		e = vf::outcome( [&] { int *p = pv; daw::not_null<int *> n( p ); n = p; *n = 5; } );
		break;
	default:
		want_abort = false;
		e = vf::outcome( [&] { std::string *p = &s; daw::not_null n = p; n->clear( ); } );
		break;
	}
	VF_TRUE( c, want_abort ? "a null pointer must not get into a not_null" : "a good pointer must be accepted",
	         e == ( want_abort ? vf::End::aborted : vf::End::returned ) );
	c.nontrivial( vf::mix( how, c.idx ) );
	c.count( "refusals", want_abort );
}

// ------------------------------------------------------------ observer_ptr
struct B1 {
	int a = 1;
	virtual ~B1( ) = default;
};
struct B2 {
	int b = 2;
	virtual ~B2( ) = default;
};
struct D : B1, B2 {
	int d = 3;
};
VF_FAMILY( observer_history, 40000, 500000 ) {
	auto &g = c.rng;
	constexpr int N = 4, V = 3;
	D objs[N];
	for( int i = 0; i < N; ++i ) {
		objs[i].a = 10 * i;
		objs[i].b = 10 * i + 1;
		objs[i].d = 10 * i + 2;
	}
	using O = daw::observer_ptr<D>;
	static_assert( std::is_same_v<decltype( *std::declval<O const &>( ) ), D &> );
	O w[V] = { O( ), O( nullptr ), O( objs ) };
	D *m[V] = { nullptr, nullptr, objs };
	auto steps = g.range( 4, 40 );
	std::uint64_t h = 0;
	for( std::uint64_t s = 0; s < steps; ++s ) {
		auto i = g.below( V );
		auto j = g.below( V );
		auto r = g.below( N + 1 );
		D *p = r == N ? nullptr : objs + r;
		auto op = g.below( 12 );
		h = vf::mix( h, op * 8 + ( p ? 1 : 0 ) );
		c.op( "observer_ptr" );
		switch( op ) {
		case 0: w[i] = p; m[i] = p; break;
		case 1: w[i] = w[j]; m[i] = m[j]; break;
		case 2: w[i].reset( p ); m[i] = p; break;
		case 3: w[i].reset( ); m[i] = nullptr; break;
		case 4: {
			D *old = w[i].release( );
			VF_EQ( c, "release returns the pointer", old, m[i] );
			m[i] = nullptr;
			break;
		}
		case 5: *w[i].get_out( ) = p; m[i] = p; break;
		case 6: {
			int calls = 0;
			auto rv = std::as_const( w[i] ).and_then( [&]( auto q ) {
				++calls;
				return q->d + 1000;
			} );
			VF_EQ( c, "and_then calls", calls, m[i] ? 1 : 0 );
			VF_EQ( c, "and_then result", rv, m[i] ? m[i]->d + 1000 : 0 );
			break;
		}
		case 7: {
			int calls = 0;
			O rv = w[i].or_else( [&] {
				++calls;
				return O( p );
			} );
			VF_EQ( c, "or_else calls", calls, m[i] ? 0 : 1 );
			VF_EQ( c, "or_else result", rv.get( ), m[i] ? m[i] : p );
			break;
		}
		case 8: {
			int calls = 0;
			auto f = [&]( auto q ) {
				++calls;
				return q.get( );
			};
			VF_EQ( c, "transform result", w[i].transform( f ), m[i] );
			VF_EQ( c, "const transform result", std::as_const( w[i] ).transform( f ), m[i] );
			VF_EQ( c, "transform calls", calls, 2 );
			break;
		}
		case 9: {
			daw::observer_ptr<B1> b1 = w[i];
			daw::observer_ptr<B2> b2 = w[i];
			daw::observer_ptr<D const> cd = w[i];
			VF_EQ( c, "as first base", b1.get( ), static_cast<B1 *>( m[i] ) );
			VF_EQ( c, "as second base", b2.get( ), static_cast<B2 *>( m[i] ) );
			VF_EQ( c, "as const", cd.get( ), static_cast<D const *>( m[i] ) );
			if( m[i] ) {
				VF_EQ( c, "second base value", b2->b, m[i]->b );
			}
			break;
		}
		case 10:
			if( m[i] ) {
				int v = static_cast<int>( g.below( 1000 ) );
				switch( g.below( 3 ) ) {
				case 0: w[i]->d = v; break;
				case 1: ( *w[i] ).d = v; break;
				default: w[i].value( ).d = v; break;
				}
				VF_EQ( c, "writes through", m[i]->d, v );
			}
			break;
		default: {
			daw::observer_ptr dd = p;
			static_assert( std::is_same_v<decltype( dd ), O> );
			w[i] = dd;
			m[i] = p;
			break;
		}
		}
		for( int k = 0; k < V; ++k ) {
			O const &cw = w[k];
			VF_EQ( c, "get", cw.get( ), m[k] );
			VF_EQ( c, "bool", static_cast<bool>( cw ), m[k] != nullptr );
			VF_EQ( c, "pointer conversion", static_cast<D *>( cw ), m[k] );
			VF_EQ( c, "== nullptr", ( cw == nullptr ), m[k] == nullptr );
			VF_EQ( c, "nullptr !=", ( nullptr != cw ), m[k] != nullptr );
			if( m[k] ) {
				VF_EQ( c, "deref", &*cw, m[k] );
				VF_EQ( c, "value", &cw.value( ), m[k] );
				VF_EQ( c, "arrow", cw.operator->( ), m[k] );
			}
		}
		relations( c, "observer/observer", w[i], w[j], m[i], m[j] );
		relations_raw( c, "observer/raw", w[i], p, m[i] );
		VF_TRUE( c, "<=> other", ( w[i] <=> w[j] ) == std::compare_three_way{ }( m[i], m[j] ) );
		VF_TRUE( c, "<=> raw", ( w[i] <=> p ) == std::compare_three_way{ }( m[i], p ) );
	}
	c.nontrivial( h );
	c.count( "observer_steps", steps );
#ifndef NDEBUG
	if( c.idx % 2000 == 0 ) {
		O nul;
		VF_TRUE( c, "null deref asserts", vf::outcome( [&] { (void)*nul; } ) == vf::End::aborted );
		VF_TRUE( c, "null value asserts", vf::outcome( [&] { (void)nul.value( ); } ) == vf::End::aborted );
		VF_TRUE( c, "null arrow asserts", vf::outcome( [&] { (void)nul.operator->( ); } ) == vf::End::aborted );
	}
#endif
}

// ---------------------------------------------------------- prop_const_ptr
VF_FAMILY( prop_const_history, 30000, 400000 ) {
	auto &g = c.rng;
	using P = daw::prop_const_ptr<int>;
	using PC = daw::prop_const_ptr<int const>;
	static_assert( std::is_same_v<decltype( *std::declval<P &>( ) ), int &> );
	static_assert( std::is_same_v<decltype( *std::declval<P const &>( ) ), int const &> );
	static_assert( std::is_same_v<decltype( std::declval<P const &>( )[0] ), int const &> );
	static_assert( std::is_same_v<decltype( std::declval<P const &>( ).get( ) ), int const *> );
	static_assert( std::is_same_v<decltype( std::declval<P const &>( ).operator->( ) ), int const *> );
	static_assert( std::is_same_v<decltype( *( std::declval<P const &>( ) + 1 ) ), int const &> );
	static_assert( std::is_same_v<decltype( *std::declval<PC &>( ) ), int const &> );
	static_assert( not std::is_constructible_v<P, PC> );
	static_assert( not std::is_assignable_v<P &, PC> );
	auto n = static_cast<std::ptrdiff_t>( g.range( 1, 10 ) );
	std::vector<int> store( static_cast<std::size_t>( n ) ), model;
	for( int i = 0; i < n; ++i ) {
		store[static_cast<std::size_t>( i )] = i * 7;
	}
	model = store;
	int *const base = store.data( );
	std::ptrdiff_t a = static_cast<std::ptrdiff_t>( g.below( n ) ), b = static_cast<std::ptrdiff_t>( g.below( n ) ), k = b;
	P p( base + a ), q( base + b );
	PC r = q;
	auto steps = g.range( 5, 50 );
	std::uint64_t h = 0;
	for( std::uint64_t s = 0; s < steps; ++s ) {
		auto to = static_cast<std::ptrdiff_t>( g.below( n ) );
		auto op = g.below( 14 );
		h = vf::mix( h, op );
		c.op( "prop_const_ptr" );
		switch( op ) {
		case 0: p = base + to; a = to; break;
		case 1: p = q; a = b; break;
		case 2: q = p; b = a; break;
		case 3: VF_TRUE( c, "converting assign returns itself", &( r = p ) == &r ); k = a; break;
		case 4:
			if( a + 1 < n ) {
				auto o = p++;
				VF_EQ( c, "post++", o.get( ), base + a );
				++a;
			}
			break;
		case 5:
			if( a > 0 ) {
				auto o = p--;
				VF_EQ( c, "post--", o.get( ), base + a );
				--a;
			}
			break;
		case 6:
			if( a + 1 < n ) {
				VF_TRUE( c, "++ itself", &++p == &p );
				++a;
			}
			break;
		case 7:
			if( a > 0 ) {
				VF_TRUE( c, "-- itself", &--p == &p );
				--a;
			}
			break;
		case 8: VF_TRUE( c, "+= itself", &( p += to - a ) == &p ); a = to; break;
		case 9: VF_TRUE( c, "-= itself", &( q -= b - to ) == &q ); b = to; break;
		case 10: {
			auto const cp = p;
			auto x = p + ( to - a );
			auto y = cp + ( to - a );
			VF_EQ( c, "p + n", x.get( ), base + to );
			VF_EQ( c, "const p + n", y.get( ), static_cast<int const *>( base + to ) );
			VF_EQ( c, "difference", x - cp, to - a );
			VF_EQ( c, "mixed difference", cp - r, a - k );
			break;
		}
		case 11: *p = static_cast<int>( 100 + s ); model[static_cast<std::size_t>( a )] = static_cast<int>( 100 + s ); break;
		case 12: q[to - b] = static_cast<int>( 200 + s ); model[static_cast<std::size_t>( to )] = static_cast<int>( 200 + s ); break;
		default: {
			auto const cq = q;
			PC t( cq );
			VF_EQ( c, "const conversion", t.get( ), static_cast<int const *>( base + b ) );
			r = t;
			k = b;
			break;
		}
		}
		auto const &cp = p;
		VF_EQ( c, "get", p.get( ), base + a );
		VF_EQ( c, "other get", q.get( ), base + b );
		VF_EQ( c, "const get", cp.get( ), static_cast<int const *>( base + a ) );
		VF_EQ( c, "const view get", r.get( ), static_cast<int const *>( base + k ) );
		VF_EQ( c, "deref", &*p, base + a );
		VF_EQ( c, "const deref", &*cp, static_cast<int const *>( base + a ) );
		VF_EQ( c, "const index", &cp[to - a], static_cast<int const *>( base + to ) );
		VF_EQ( c, "arrow", p.operator->( ), base + a );
		VF_EQ( c, "const arrow", cp.operator->( ), static_cast<int const *>( base + a ) );
		relations( c, "prop_const", p, q, base + a, base + b );
		VF_TRUE( c, "objects behind", store == model );
	}
	c.nontrivial( h );
	c.count( "prop_steps", steps );
}

// ------------------------------------------------------- rw_ref / Reference
VF_FAMILY( refs, 20000, 300000 ) {
	auto &g = c.rng;
	using R = daw::rw_ref<std::string>;
	static_assert( std::is_same_v<decltype( std::declval<R &>( ).get( ) ), std::string &> );
	static_assert( std::is_same_v<decltype( std::declval<R const &>( ).get( ) ), std::string const &> );
	static_assert( std::is_same_v<decltype( std::declval<R const &>( )( ) ), std::string const &> );
	std::string x[4] = { "one", "two", "three and rather long text", "" };
	std::string m[4] = { x[0], x[1], x[2], x[3] };
	std::size_t ia = g.below( 4 ), ib = g.below( 4 );
	R a( x[ia] ), b( x[ib] );
	auto steps = g.range( 3, 30 );
	std::uint64_t h = 0;
	for( std::uint64_t s = 0; s < steps; ++s ) {
		auto t = g.below( 4 );
		auto op = g.below( 7 );
		h = vf::mix( h, op );
		c.op( "rw_ref" );
		std::string v = "w" + std::to_string( s );
		switch( op ) {
		case 0: VF_TRUE( c, "rebind returns itself", &( a = x[t] ) == &a ); ia = t; break;
		case 1: a = b; ia = ib; break;
		case 2: b = a; ib = ia; break;
		case 3: a.get( ) = v; m[ia] = v; break;
		case 4: a( ) = v; m[ia] = v; break;
		case 5: static_cast<std::string &>( b ) = v; m[ib] = v; break;
		default: {
			daw::rw_ref d = x[t];
			static_assert( std::is_same_v<decltype( d ), R> );
			b = d;
			ib = t;
			break;
		}
		}
		R const &ca = a;
		VF_EQ( c, "get", &a.get( ), x + ia );
		VF_EQ( c, "const get", &ca.get( ), static_cast<std::string const *>( x + ia ) );
		VF_EQ( c, "call", &a( ), x + ia );
		VF_EQ( c, "const call", &ca( ), static_cast<std::string const *>( x + ia ) );
		VF_EQ( c, "convert", &static_cast<std::string const &>( ca ), static_cast<std::string const *>( x + ia ) );
		VF_EQ( c, "other", &b.get( ), x + ib );
		for( int k = 0; k < 4; ++k ) {
			VF_EQ( c, "objects behind", x[k], m[k] );
		}
	}
	c.count( "ref_steps", steps );
	// Reference: compares by value, refers by identity
	c.op( "Reference" );
	auto n = g.below( 12 );
	std::list<int> l;
	for( std::size_t i = 0; i < n; ++i ) {
		l.push_back( static_cast<int>( g.below( 6 ) ) );
	}
	auto v = daw::to_reference_vector( l.begin( ), l.end( ) );
	VF_REQ( c, "one reference per element", v.size( ), l.size( ) );
	std::vector<int const *> want;
	for( auto &e : l ) {
		want.push_back( &e );
	}
	for( std::size_t i = 0; i < v.size( ); ++i ) {
		VF_EQ( c, "refers to the element", &v[i].get( ), want[i] );
		VF_EQ( c, "deref", &*v[i], want[i] );
		auto j = g.below( v.size( ) );
		VF_EQ( c, "ref ==", ( v[i] == v[j] ), *want[i] == *want[j] );
		VF_EQ( c, "ref !=", ( v[i] != v[j] ), *want[i] != *want[j] );
		VF_EQ( c, "ref <", ( v[i] < v[j] ), *want[i] < *want[j] );
		VF_EQ( c, "ref <=", ( v[i] <= v[j] ), *want[i] <= *want[j] );
		VF_EQ( c, "ref >", ( v[i] > v[j] ), *want[i] > *want[j] );
		VF_EQ( c, "ref >=", ( v[i] >= v[j] ), *want[i] >= *want[j] );
		std::ostringstream o;
		o << v[i];
		VF_EQ( c, "printed", o.str( ), std::to_string( *want[i] ) );
	}
	std::stable_sort( v.begin( ), v.end( ) );
	std::stable_sort( want.begin( ), want.end( ), []( auto p, auto q ) { return *p < *q; } );
	for( std::size_t i = 0; i < v.size( ); ++i ) {
		VF_EQ( c, "sorted references", &*v[i], want[i] );
	}
	if( not l.empty( ) ) {
		int const *p = &l.front( );
		VF_EQ( c, "ref(pointer) refers to the pointee", &*daw::ref( p ), p );
		VF_EQ( c, "ref(value) refers to the value", &*daw::ref( l.back( ) ), static_cast<int const *>( &l.back( ) ) );
		auto r = daw::ref( l.front( ) );
		l.front( ) = 77;
		VF_EQ( c, "sees later changes", *r, 77 );
		r = daw::ref( l.back( ) );
		VF_EQ( c, "rebinds", &*r, static_cast<int const *>( &l.back( ) ) );
	}
	c.nontrivial( vf::mix( h, n ) );
}

// ---------------------------------------------------------------- read_only
struct Account {
	daw::read_only<vf::Tracked, Account> v{ vf::Tracked( 1 ) };
	daw::read_only<std::string, Account> s{ };
	void set( int x, std::string t ) {
		v = daw::read_only<vf::Tracked, Account>( vf::Tracked( x ) );
		s.value = std::move( t );
	}
};
VF_FAMILY( read_only_any, 20000, 300000 ) {
	auto &g = c.rng;
	using RO = daw::read_only<std::string>;
	static_assert( not std::is_assignable_v<RO &, std::string> );
	static_assert( not std::is_copy_assignable_v<RO> );
	static_assert( not std::is_move_assignable_v<RO> );
	static_assert( std::is_same_v<decltype( std::declval<RO &>( ).get( ) ), std::string const &> );
	static_assert( std::is_same_v<decltype( std::declval<RO>( ).get( ) ), std::string const &&> );
	static_assert( not std::is_convertible_v<RO &, std::string &> );
	vf::LedgerScope led;
	{
		c.op( "read_only" );
		int v0 = static_cast<int>( g.below( 1000 ) );
		vf::Tracked t( v0 );
		daw::read_only<vf::Tracked> a( t );
		VF_EQ( c, "copied in", a.get( ).get( ), v0 );
		VF_EQ( c, "source kept", t.get( ), v0 );
		daw::read_only<vf::Tracked> b( std::move( t ) );
		VF_EQ( c, "moved in", b.get( ).get( ), v0 );
		VF_EQ( c, "source moved from", t.get( ), -1 );
		daw::read_only<vf::Tracked> d( a );
		VF_EQ( c, "copy keeps the source", a.get( ).get( ), v0 );
		daw::read_only<vf::Tracked> e( std::move( d ) );
		VF_EQ( c, "moved along", e.get( ).get( ), v0 );
		// a const rvalue view of the value can only be copied from
		vf::Tracked x = std::move( b ).get( );
		VF_EQ( c, "read out of an rvalue", x.get( ), v0 );
		VF_EQ( c, "the value is read only also then", b.get( ).get( ), v0 );
		vf::Tracked y( static_cast<vf::Tracked const &&>( std::move( b ) ) );
		VF_EQ( c, "and through the conversion", b.get( ).get( ), v0 );
		VF_EQ( c, "converted value", y.get( ), v0 );
		vf::Tracked const &alias = a;
		VF_EQ( c, "conversion is the same object", &alias, &a.get( ) );
		Account acc;
		VF_EQ( c, "default owned", acc.v.get( ).get( ), 1 );
		VF_EQ( c, "value initialised", acc.s.get( ), std::string( ) );
		int v1 = static_cast<int>( g.below( 1000 ) );
		acc.set( v1, "text" );
		VF_EQ( c, "owner writes", acc.v.get( ).get( ), v1 );
		VF_EQ( c, "owner writes text", acc.s.get( ), std::string( "text" ) );
		Account acc2( acc );
		VF_EQ( c, "copied owner", acc2.v.get( ).get( ), v1 );
		// throwing copy
		led.l.throw_at = 0;
		bool threw = false;
		try {
			daw::read_only<vf::Tracked> z( x );
		} catch( vf::injected const & ) { threw = true; }
		led.l.throw_at = -1;
		VF_TRUE( c, "copy failure reaches the caller", threw );
		daw::read_only<int> zero;
		VF_EQ( c, "int value initialised", zero.get( ), 0 );
		daw::read_only<int> const seven( 7 );
		int k = seven;
		VF_EQ( c, "int conversion", k, 7 );
		c.nontrivial( vf::mix( static_cast<std::uint64_t>( v0 ), static_cast<std::uint64_t>( v1 ) ) );
	}
	led.check_empty( c, "read_only lifetimes" );
}

VF_MAIN( )
