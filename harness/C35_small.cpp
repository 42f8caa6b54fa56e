// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <limits>
#include <memory>
#include <vector>
#include <string>
#include <daw/daw_do_n.h>
#include <daw/daw_keep_n.h>
#include <daw/daw_take.h>
#include <daw/daw_piecewise_factory.h>
#include <daw/daw_ring_adaptor.h>
#include <daw/daw_allow_once.h>
#include <daw/daw_random.h>
#include <daw/daw_tracked_allocator.h>
#include <daw/daw_safe_pointer.h>
#include "vf.h"
#include "vf_types.h"
#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <numeric>
#include <thread>

// --------------------------------------------------------------------- do_n
struct Calls {
	std::vector<std::size_t> seen;
	long throw_in = -1;
	void operator( )( std::size_t n ) {
		if( throw_in >= 0 and throw_in-- == 0 ) {
			throw vf::injected{ };
		}
		seen.push_back( n );
	}
};
template<std::size_t N, std::size_t By>
static void fixed_n( vf::Case &c ) {
	c.op( "do_n<N>" );
	int plain = 0;
	int sum = 0;
	std::string text;
	daw::algorithm::do_n<N>( [&] { ++plain; } );
	daw::algorithm::do_n<N>(
	  [&]( int k, std::string const &s ) {
		  sum += k;
		  text += s;
	  },
	  3, std::string( "ab" ) );
	VF_EQ( c, "do_n<N> calls", plain, static_cast<int>( N ) );
	VF_EQ( c, "do_n<N> argument", sum, 3 * static_cast<int>( N ) );
	VF_EQ( c, "do_n<N> every call sees the argument", text.size( ), 2 * N );
	Calls f;
	daw::algorithm::do_n_arg<N>( f );
	std::vector<std::size_t> want( N );
	std::iota( want.begin( ), want.end( ), 0 );
	VF_TRUE( c, "do_n_arg<N> arguments", f.seen == want );
	Calls g;
	daw::algorithm::do_n_arg<N, By>( g );
	VF_REQ( c, "do_n_arg<N, By> calls", g.seen.size( ), N / By );
	for( std::size_t i = 0; i < g.seen.size( ); ++i ) {
		VF_EQ( c, "do_n_arg<N, By> arguments", g.seen[i], i * By );
	}
	Calls t;
	t.throw_in = static_cast<long>( c.rng.below( N + 2 ) );
	auto at = static_cast<std::size_t>( t.throw_in );
	bool threw = false;
	try {
		daw::algorithm::do_n_arg<N>( t );
	} catch( vf::injected const & ) { threw = true; }
	VF_EQ( c, "fixed exception reaches the caller", threw, at < N );
	VF_EQ( c, "fixed calls before it", t.seen.size( ), std::min( at, N ) );
}
VF_FAMILY( do_n_any, 20000, 200000 ) {
	auto &g = c.rng;
	auto n = g.below( 40 );
	c.op( "do_n" );
	int plain = 0;
	std::string arg = "argument that is long enough to own memory";
	bool same = true;
	daw::algorithm::do_n( n, [&] { ++plain; } );
	daw::algorithm::do_n(
	  n, [&]( std::string const &s, int k ) { same = same and s == arg and k == 5; }, std::string( arg ), 5 );
	VF_EQ( c, "do_n calls", static_cast<std::size_t>( plain ), n );
	VF_TRUE( c, "do_n passes the same arguments every time", same );
	Calls f;
	daw::algorithm::do_n_arg( n, f );
	VF_REQ( c, "do_n_arg calls", f.seen.size( ), n );
	for( std::size_t i = 0; i < n; ++i ) {
		VF_EQ( c, "do_n_arg argument", f.seen[i], i );
	}
	Calls t;
	auto at = g.below( n + 2 );
	t.throw_in = static_cast<long>( at );
	bool threw = false;
	try {
		daw::algorithm::do_n_arg( n, t );
	} catch( vf::injected const & ) { threw = true; }
	VF_EQ( c, "exception reaches the caller", threw, at < n );
	VF_EQ( c, "calls before it", t.seen.size( ), std::min( at, n ) );
	Calls u;
	u.throw_in = static_cast<long>( at );
	threw = false;
	try {
		daw::algorithm::do_n( n, u, 7U );
	} catch( vf::injected const & ) { threw = true; }
	VF_EQ( c, "do_n exception reaches the caller", threw, at < n );
	VF_EQ( c, "do_n calls before it", u.seen.size( ), std::min( at, n ) );
	switch( c.idx % 7 ) {
	case 0: fixed_n<0, 1>( c ); break;
	case 1: fixed_n<1, 2>( c ); break;
	case 2: fixed_n<10, 3>( c ); break;
	case 3: fixed_n<16, 4>( c ); break;
	case 4: fixed_n<33, 7>( c ); break;
	case 5: fixed_n<6, 6>( c ); break;
	default: fixed_n<5, 9>( c ); break;
	}
	c.nontrivial( vf::mix( n, vf::mix( at, c.idx % 7 ) ) );
	c.count( "do_n_calls", n );
}

// ------------------------------------------------------------------- keep_n
template<typename T, std::size_t N, daw::keep_n_order O>
static void keep_history( vf::Case &c, auto make, auto key ) {
	auto &g = c.rng;
	constexpr bool asc = O == daw::keep_n_order::ascending;
	vf::LedgerScope led;
	std::uint64_t h = N * 2 + asc;
	{
		c.op( "keep_n" );
		int worst = asc ? 1000 : -1000;
		if( g.chance( 1, 4 ) ) {
			worst = asc ? 20 : 10; // also something in the middle: it has to be beaten
		}
		daw::keep_n<T, N, O> k( make( worst ) );
		std::vector<int> model( N, worst );
		auto steps = g.below( 30 );
		for( std::size_t s = 0; s < steps; ++s ) {
			int v = static_cast<int>( g.below( 31 ) );
			auto how = g.below( 3 );
			if( how == 0 ) {
				T x = make( v );
				k.insert( x );
				VF_EQ( c, "inserting a copy keeps the source", key( x ), v );
			} else if( how == 1 ) {
				k.insert( make( v ) );
			} else if( N > 0 ) {
				auto i = g.below( N );
				v = key( k[i] );
				k.insert( k[i] ); // one of its own
			}
			if( how != 2 or N > 0 ) {
				model.push_back( v );
				std::sort( model.begin( ), model.end( ) );
				if( not asc ) {
					std::reverse( model.begin( ), model.end( ) );
				}
				model.resize( N );
			}
			h = vf::mix( h, static_cast<std::uint64_t>( v ) * 3 + how );
			for( std::size_t i = 0; i < N; ++i ) {
				VF_EQ( c, "kept", key( k[i] ), model[i] );
			}
		}
		VF_EQ( c, "size", k.size( ), N );
		VF_EQ( c, "capacity", k.capacity( ), N );
		std::vector<int> seen;
		for( auto const &e : k ) {
			seen.push_back( key( e ) );
		}
		VF_TRUE( c, "iteration", seen == model );
		VF_EQ( c, "c range", static_cast<std::size_t>( k.cend( ) - k.cbegin( ) ), N );
		if constexpr( N > 0 ) {
			VF_EQ( c, "front", key( k.front( ) ), model.front( ) );
			VF_EQ( c, "back", key( k.back( ) ), model.back( ) );
		}
		auto k2 = k;
		k2.insert( make( asc ? -5 : 500 ) );
		for( std::size_t i = 0; i < N; ++i ) {
			VF_EQ( c, "copies are independent", key( k[i] ), model[i] );
		}
	}
	led.check_empty( c, "keep_n lifetimes" );
	c.nontrivial( h );
}
struct TrackedLess {
	vf::Tracked v{ 0 };
	TrackedLess( ) = default;
	TrackedLess( int i ) : v( i ) {}
	bool operator<( TrackedLess const &r ) const {
		return v.get( ) < r.v.get( );
	}
};
VF_FAMILY( keep_n_any, 30000, 400000 ) {
	auto id = []( int i ) { return i; };
	auto txt = []( int i ) {
		char b[64];
		std::snprintf( b, sizeof b, "%06d and some more text to own memory", i + 2000 );
		return std::string( b );
	};
	auto num = []( std::string const &s ) { return s.empty( ) ? -77777 : std::stoi( s ) - 2000; };
	auto tr = []( int i ) { return TrackedLess( i ); };
	auto un = []( TrackedLess const &t ) { return t.v.get( ); };
	using enum daw::keep_n_order;
	switch( c.idx % 8 ) {
	case 0: keep_history<int, 3, ascending>( c, id, id ); break;
	case 1: keep_history<int, 5, descending>( c, id, id ); break;
	case 2: keep_history<std::string, 4, ascending>( c, txt, num ); break;
	case 3: keep_history<std::string, 4, descending>( c, txt, num ); break;
	case 4: keep_history<TrackedLess, 6, ascending>( c, tr, un ); break;
	case 5: keep_history<TrackedLess, 3, descending>( c, tr, un ); break;
	case 6: keep_history<int, 1, ascending>( c, id, id ); break;
	default: keep_history<std::string, 1, descending>( c, txt, num ); break;
	}
}

// --------------------------------------------------------------------- take
struct KeepOnTake {
	int v = 1;
};
template<>
inline constexpr bool daw::reset_on_take<KeepOnTake> = false;
VF_FAMILY( take_any, 30000, 300000 ) {
	auto &g = c.rng;
	vf::LedgerScope led;
	{
		c.op( "take" );
		int v = static_cast<int>( g.range( 1, 1000 ) );
		vf::Tracked t( v );
		auto const copies = led.l.copy;
		vf::Tracked const u = daw::take( t );
		VF_EQ( c, "handed over, not copied", led.l.copy, copies );
		VF_EQ( c, "taken", u.get( ), v );
		VF_EQ( c, "left default", t.get( ), vf::Tracked{ }.get( ) );
		int i = v;
		VF_EQ( c, "int taken", daw::take( i ), v );
		vf::MoveOnly mo( v );
		VF_EQ( c, "move only taken", daw::take( mo ).get( ), v );
		VF_EQ( c, "move only reset", mo.get( ), 0 );
		VF_EQ( c, "int reset", i, 0 );
		std::vector<int> vec( static_cast<std::size_t>( v % 9 ), v );
		auto vec2 = daw::take( vec );
		VF_EQ( c, "vector taken", vec2.size( ), static_cast<std::size_t>( v % 9 ) );
		VF_TRUE( c, "vector left empty", vec.empty( ) );
		KeepOnTake k{ v };
		VF_EQ( c, "no reset: taken", daw::take( k ).v, v );
		VF_EQ( c, "no reset: kept", k.v, v );

		c.op( "take_t" );
		constexpr int V = 3;
		using T = daw::take_t<std::string>;
		T a[V] = { T( "first value, too long for a small string" ), T( std::string( "x" ) ), T( ) };
		std::string m[V] = { "first value, too long for a small string", "x", "" };
		auto steps = g.range( 3, 25 );
		std::uint64_t h = 0;
		for( std::uint64_t s = 0; s < steps; ++s ) {
			auto p = g.below( V ), q = g.below( V );
			auto op = g.below( 11 );
			h = vf::mix( h, op * 9 + p * 3 + q );
			switch( op ) {
			case 0: a[p] = a[q]; m[p] = m[q]; break;
			case 1:
				a[p] = std::move( a[q] );
				if( p != q ) {
					m[p] = m[q];
					m[q].clear( );
				}
				break;
			case 2: {
				T n( std::move( a[q] ) );
				VF_EQ( c, "moved to", n.get( ), m[q] );
				m[q].clear( );
				break;
			}
			case 3: {
				T n( a[q] );
				VF_EQ( c, "copied to", *n, m[q] );
				break;
			}
			case 4: {
				auto w = std::move( a[p] ).get( );
				VF_EQ( c, "get of an rvalue", w, m[p] );
				m[p].clear( );
				break;
			}
			case 5: {
				auto w = *std::move( a[p] );
				VF_EQ( c, "deref of an rvalue", w, m[p] );
				m[p].clear( );
				break;
			}
			case 6: a[p].reset( ); m[p].clear( ); break;
			case 7: {
				std::string n = "text " + std::to_string( s ) + " with enough characters to allocate";
				*a[p] = n;
				m[p] = n;
				break;
			}
			case 8: a[p].get( ) = "g"; m[p] = "g"; break;
			case 9: a[p]->push_back( '!' ); m[p].push_back( '!' ); break;
			default: {
				std::swap( a[p], a[q] );
				std::swap( m[p], m[q] );
				break;
			}
			}
			for( int z = 0; z < V; ++z ) {
				T const &ca = a[z];
				VF_EQ( c, "get", a[z].get( ), m[z] );
				VF_EQ( c, "const get", ca.get( ), m[z] );
				VF_EQ( c, "const deref", *ca, m[z] );
				VF_EQ( c, "const rvalue get does not take", std::move( ca ).get( ), m[z] );
				VF_EQ( c, "arrow", ca->size( ), m[z].size( ) );
			}
			VF_EQ( c, "==", ( a[p] == a[q] ), m[p] == m[q] );
			VF_EQ( c, "<", ( a[p] < a[q] ), m[p] < m[q] );
			VF_EQ( c, ">=", ( a[p] >= a[q] ), m[p] >= m[q] );
		}
		c.nontrivial( vf::mix( h, static_cast<std::uint64_t>( v ) ) );
		c.count( "take_steps", steps );
	}
	led.check_empty( c, "take lifetimes" );
}

// ------------------------------------------------------------- ring_adaptor
template<typename Ring, typename Make, typename Key>
static void ring_history( vf::Case &c, Ring &r, std::size_t cap, Make make, Key key ) {
	auto &g = c.rng;
	std::deque<int> m;
	auto steps = g.range( 5, 80 );
	std::uint64_t h = cap;
	c.op( "ring_adaptor" );
	auto fill = g.below( 3 );
	for( std::uint64_t s = 0; s < steps; ++s ) {
		auto op = g.below( 12 );
		int v = static_cast<int>( s + 1 );
		bool push = fill == 0 ? op < 5 : fill == 1 ? op < 8 : op < 3;
		if( push and m.size( ) < cap ) {
			switch( op % 3 ) {
			case 0: {
				auto x = make( v );
				auto &ref = r.push_back( x );
				VF_EQ( c, "push_back result", key( ref ), v );
				VF_EQ( c, "push_back copies", key( x ), v );
				break;
			}
			case 1: VF_EQ( c, "move push_back result", key( r.push_back( make( v ) ) ), v ); break;
			default: VF_EQ( c, "emplace_back result", key( r.emplace_back( make( v ) ) ), v ); break;
			}
			m.push_back( v );
		} else if( op < 11 and not m.empty( ) ) {
			VF_EQ( c, "pop_front", key( r.pop_front( ) ), m.front( ) );
			m.pop_front( );
		} else if( op == 11 and g.chance( 1, 4 ) ) {
			r.clear( );
			m.clear( );
		} else if( not m.empty( ) ) {
			auto i = g.below( m.size( ) );
			r[i] = make( v );
			m[i] = v;
		}
		h = vf::mix( h, op );
		VF_EQ( c, "size", r.size( ), m.size( ) );
		VF_EQ( c, "is_empty", r.is_empty( ), m.empty( ) );
		VF_EQ( c, "is_full", r.is_full( ), m.size( ) == cap );
		VF_EQ( c, "capacity", r.capacity( ), cap );
		auto const &cr = r;
		std::vector<int> seen, cseen;
		for( auto &x : r ) {
			seen.push_back( key( x ) );
		}
		for( auto const &x : cr ) {
			cseen.push_back( key( x ) );
		}
		VF_TRUE( c, "iteration", std::equal( seen.begin( ), seen.end( ), m.begin( ), m.end( ) ) );
		VF_TRUE( c, "const iteration", cseen == seen );
		for( std::size_t i = 0; i < m.size( ); ++i ) {
			VF_EQ( c, "index", key( cr[i] ), m[i] );
			VF_EQ( c, "iterator plus", key( *( r.begin( ) + static_cast<std::ptrdiff_t>( i ) ) ), m[i] );
		}
		VF_EQ( c, "iterator distance", static_cast<std::size_t>( cr.end( ) - cr.begin( ) ), m.size( ) );
	}
	c.nontrivial( h );
	c.count( "ring_steps", steps );
}
VF_FAMILY( ring_adaptor_any, 20000, 250000 ) {
	auto id = []( int i ) { return i; };
	auto txt = []( int i ) { return "a text that owns some memory #" + std::to_string( i ); };
	auto num = []( std::string const &s ) { return std::stoi( s.substr( s.find( '#' ) + 1 ) ); };
	auto tr = []( int i ) { return vf::Tracked( i ); };
	auto un = []( vf::Tracked const &t ) { return t.get( ); };
	vf::LedgerScope led;
	switch( c.idx % 6 ) {
	case 0: {
		daw::ring_adaptor<std::array<int, 4>> r;
		ring_history( c, r, 4, id, id );
		break;
	}
	case 1: {
		daw::ring_adaptor<std::array<std::string, 3>> r;
		ring_history( c, r, 3, txt, num );
		break;
	}
	case 2: {
		auto n = c.rng.range( 1, 9 );
		daw::ring_adaptor<std::vector<vf::Tracked>> r( n );
		ring_history( c, r, n, tr, un );
		break;
	}
	case 3: {
		auto n = c.rng.range( 1, 6 );
		std::deque<std::string> d( n );
		daw::ring_adaptor r( d );
		ring_history( c, r, n, txt, num );
		VF_EQ( c, "the container it was made from", d.size( ), n );
		break;
	}
	case 4: {
		daw::ring_adaptor<int[5]> r;
		ring_history( c, r, 5, id, id );
		break;
	}
	default: {
		daw::ring_adaptor<std::array<vf::Tracked, 1>> r;
		ring_history( c, r, 1, tr, un );
		break;
	}
	}
	led.check_empty( c, "ring lifetimes" );
}

// --------------------------------------------------------------- allow_once
VF_FAMILY( allow_once_any, 300, 6000 ) {
	auto &g = c.rng;
	c.op( "allow_once" );
	daw::allow_once_t one;
	auto rounds = g.range( 1, 3 );
	auto threads = g.range( 1, 6 );
	auto tries = g.range( 1, 20 );
	for( std::uint64_t r = 0; r < rounds; ++r ) {
		std::atomic<int> first = 0, later = 0;
		std::atomic<bool> go = false;
		{
			vf::Suspend s{ };
			std::vector<std::thread> ts;
			for( std::uint64_t t = 0; t < threads; ++t ) {
				ts.emplace_back( [&, t] {
					while( not go.load( ) ) {}
					for( std::uint64_t k = 0; k < tries; ++k ) {
						bool called = t % 2 ? one.check( ) : static_cast<bool>( one );
						( called ? later : first ) += 1;
					}
				} );
			}
			go = true;
			for( auto &t : ts ) {
				t.join( );
			}
		}
		VF_EQ( c, "first callers", first.load( ), 1 );
		VF_EQ( c, "later callers", later.load( ), static_cast<int>( threads * tries ) - 1 );
		VF_TRUE( c, "stays used", one.check( ) );
		one.reset( );
	}
	VF_TRUE( c, "allowed again after reset", not one.check( ) );
	c.nontrivial( vf::mix( rounds, vf::mix( threads, tries ) ) );
	c.count( "threads", rounds * threads );
}

// -------------------------------------------------------- piecewise_factory
struct Built {
	int a;
	std::string b;
	vf::Tracked t;
};
VF_FAMILY( piecewise_any, 20000, 250000 ) {
	auto &g = c.rng;
	vf::LedgerScope led;
	std::uint64_t h = 0;
	{
		c.op( "piecewise_factory" );
		daw::piecewise_factory_t<Built, int, std::string, vf::Tracked> now;
		daw::piecewise_factory_late_t<Built, int, std::string, vf::Tracked> late;
		int a = 0;
		std::string b;
		int t = 0;
		int calls = 0;
		int late_calls = 0;
		bool lazy_a = false;
		auto set_one = [&]( std::size_t which, std::uint64_t how ) {
			int v = static_cast<int>( g.below( 1000 ) );
			h = vf::mix( h, which * 8 + how );
			switch( which ) {
			case 0:
				a = v;
				if( how % 2 ) {
					now.template set<0>( v );
				} else {
					now.set( 0, v );
				}
				if( how == 3 ) {
					late.template set<0>( [v, &calls] {
						++calls;
						return v;
					} );
					lazy_a = true;
				} else {
					late.template set<0>( v );
					lazy_a = false;
				}
				break;
			case 1: {
				b = "text long enough to be allocated " + std::to_string( v );
				std::string keep = b;
				if( how % 2 ) {
					now.template set<1>( keep );
					VF_EQ( c, "set copies", keep, b );
				} else {
					now.template set<1>( std::string( b ) );
				}
				if( how >= 2 ) {
					late.template set<1>( [keep] { return keep; } );
				} else {
					late.template set<1>( keep );
				}
				break;
			}
			default:
				t = v;
				now.template set<2>( vf::Tracked( v ) );
				if( how % 2 ) {
					late.template set<2>( vf::Tracked( v ) );
				} else {
					late.template set<2>( [v] { return vf::Tracked( v ); } );
				}
				break;
			}
		};
		std::size_t order[3] = { 0, 1, 2 };
		for( std::size_t i = 2; i > 0; --i ) {
			std::swap( order[i], order[g.below( i + 1 )] );
		}
		for( auto w : order ) {
			set_one( w, g.below( 4 ) );
		}
		auto more = g.below( 5 );
		for( std::size_t s = 0; s <= more; ++s ) {
			// any number of objects out of one factory
			Built x = now( );
			VF_EQ( c, "first", x.a, a );
			VF_EQ( c, "second", x.b, b );
			VF_EQ( c, "third", x.t.get( ), t );
			VF_EQ( c, "nothing is computed early", calls, late_calls );
			Built y = std::as_const( late )( );
			if( lazy_a ) {
				++late_calls;
			}
			VF_EQ( c, "late first", y.a, a );
			VF_EQ( c, "late second", y.b, b );
			VF_EQ( c, "late third", y.t.get( ), t );
			VF_EQ( c, "a late argument is computed once per object", calls, late_calls );
			set_one( g.below( 3 ), g.below( 4 ) );
		}
		bool threw = false;
		try {
			now.set( 3 + g.below( 3 ), 5 );
		} catch( std::out_of_range const & ) { threw = true; }
		VF_TRUE( c, "an index out of range is refused", threw );
		Built z = std::move( now )( );
		VF_EQ( c, "rvalue first", z.a, a );
		VF_EQ( c, "rvalue second", z.b, b );
		VF_EQ( c, "rvalue third", z.t.get( ), t );
		Built w = std::move( late )( );
		VF_EQ( c, "late rvalue second", w.b, b );
		VF_EQ( c, "late rvalue third", w.t.get( ), t );
		struct Mo {
			std::unique_ptr<int> p;
			int k;
		};
		daw::piecewise_factory_t<Mo, std::unique_ptr<int>, int> mo;
		mo.template set<0>( std::make_unique<int>( a ) );
		mo.template set<1>( 7 );
		Mo m = std::move( mo )( );
		VF_TRUE( c, "move only argument", m.p and *m.p == a and m.k == 7 );
	}
	led.check_empty( c, "piecewise lifetimes" );
	c.nontrivial( h );
}

// ------------------------------------------------------------------- random
template<typename I>
static void randint_in( vf::Case &c ) {
	auto &g = c.rng;
	I a = g.edgy<I>( ), b = g.edgy<I>( );
	if( b < a ) {
		std::swap( a, b );
	}
	c.op( "randint" );
	for( int i = 0; i < 8; ++i ) {
		I x = daw::randint<I>( a, b );
		VF_TRUE( c, "randint within its bounds", a <= x and x <= b );
	}
	VF_EQ( c, "a single value", daw::randint<I>( b, b ), b );
	(void)daw::randint<I>( );
	if( a != b ) {
		bool threw = false;
		try {
			(void)daw::randint<I>( b, a );
		} catch( std::runtime_error const & ) { threw = true; }
		VF_TRUE( c, "reversed bounds are refused", threw );
		if( c.idx % 97 == 0 ) VF_TRUE( c, "make_random_data refuses reversed bounds", vf::outcome( [&] { (void)daw::make_random_data<I>( 3, b, a ); } ) == vf::End::aborted );
	}
	std::vector<I> data( g.below( 20 ) );
	daw::random_fill<I>( data.begin( ), data.end( ), a, b );
	for( auto x : data ) {
		VF_TRUE( c, "random_fill within its bounds", a <= x and x <= b );
	}
	auto n = g.below( 20 );
	auto made = daw::make_random_data<I>( n, a, b );
	VF_EQ( c, "make_random_data count", made.size( ), n );
	for( auto x : made ) {
		VF_TRUE( c, "make_random_data within its bounds", a <= x and x <= b );
	}
}
VF_FAMILY( random_any, 8000, 120000 ) {
	auto &g = c.rng;
	switch( c.idx % 6 ) {
	case 0: randint_in<int>( c ); break;
	case 1: randint_in<std::uint64_t>( c ); break;
	case 2: randint_in<std::int64_t>( c ); break;
	case 3: randint_in<short>( c ); break;
	case 4: randint_in<unsigned>( c ); break;
	default: randint_in<std::uint16_t>( c ); break;
	}
	c.op( "shuffle" );
	auto n = g.below( 24 );
	std::vector<std::string> v;
	for( std::size_t i = 0; i < n; ++i ) {
		v.push_back( "element number " + std::to_string( g.below( 9 ) ) );
	}
	auto sorted = v;
	auto lo = n ? g.below( n ) : 0;
	auto outside = std::vector<std::string>( v.begin( ), v.begin( ) + static_cast<std::ptrdiff_t>( lo ) );
	daw::shuffle( v.begin( ) + static_cast<std::ptrdiff_t>( lo ), v.end( ) );
	VF_TRUE( c, "nothing outside of the range moves", std::equal( outside.begin( ), outside.end( ), v.begin( ) ) );
	auto again = v;
	std::sort( sorted.begin( ), sorted.end( ) );
	std::sort( again.begin( ), again.end( ) );
	VF_TRUE( c, "shuffle permutes", sorted == again );

	c.op( "seeds" );
	auto seed = static_cast<unsigned>( g.next( ) );
	daw::reseed( seed );
	auto r1 = daw::make_random_data<int>( 6 );
	daw::reseed( seed );
	auto r2 = daw::make_random_data<int>( 6 );
	VF_TRUE( c, "the same seed gives the same data", r1 == r2 );
	daw::RandomInteger<int> e1( seed ), e2( seed );
	daw::RandomFloat<double> d1( seed ), d2( seed );
	daw::static_random s1( seed ), s2( seed );
	for( int i = 0; i < 6; ++i ) {
		int a = g.edgy<int>( ), b = g.edgy<int>( );
		if( a == b ) {
			continue;
		}
		auto hi = std::max( a, b ), low = std::min( a, b );
		int x = e1( hi, low );
		VF_EQ( c, "RandomInteger repeats", x, e2( hi, low ) );
		VF_TRUE( c, "RandomInteger within its bounds", low <= x and x <= hi );
		bool threw = false;
		try {
			(void)e1( low, hi );
		} catch( std::runtime_error const & ) { threw = true; }
		VF_TRUE( c, "RandomInteger refuses reversed bounds", threw );
		double y = d1( hi, low );
		VF_EQ( c, "RandomFloat repeats", y, d2( hi, low ) );
		VF_TRUE( c, "RandomFloat within its bounds", low <= y and y <= hi );
		VF_EQ( c, "static_random repeats", s1( ), s2( ) );
	}
	// every value of a small range turns up, none is favoured beyond reason
	if( c.idx % 50 == 0 ) {
		int count[5] = { };
		for( int i = 0; i < 1000; ++i ) {
			count[daw::randint<int>( 0, 4 )]++;
		}
		for( int k : count ) {
			VF_TRUE( c, "every value turns up", k > 60 and k < 400 );
		}
		for( std::size_t len = 2; len <= 4; ++len ) {
			std::vector<std::vector<int>> arrangements;
			for( int i = 0; i < 700; ++i ) {
				std::vector<int> q( len );
				std::iota( q.begin( ), q.end( ), 0 );
				daw::shuffle( q.begin( ), q.end( ) );
				if( std::find( arrangements.begin( ), arrangements.end( ), q ) == arrangements.end( ) ) {
					arrangements.push_back( q );
				}
			}
			std::size_t all = len == 2 ? 2 : len == 3 ? 6 : 24;
			VF_EQ( c, "shuffle reaches every arrangement", arrangements.size( ), all );
		}
		int pos[4] = { };
		for( int i = 0; i < 800; ++i ) {
			int q[4] = { 0, 1, 2, 3 };
			daw::shuffle( q, q + 4 );
			for( int z = 0; z < 4; ++z ) {
				if( q[z] == 0 ) {
					pos[z]++;
				}
			}
		}
		for( int k : pos ) {
			VF_TRUE( c, "shuffle reaches every position", k > 60 and k < 500 );
		}
	}
	c.nontrivial( vf::mix( n, seed ) );
}

// -------------------------------------------- safe_pointer, tracked_allocator
VF_FAMILY( safe_pointer_history, 20000, 250000 ) {
	auto &g = c.rng;
	using P = daw::memory::safe_pointer<int>;
	int store[9];
	int model[9];
	auto n = g.range( 1, 9 );
	for( int i = 0; i < 9; ++i ) {
		store[i] = model[i] = i * 3;
	}
	P p( store, n ), q( store + 0, n );
	std::ptrdiff_t a = 0, b = 0;
	auto N = static_cast<std::ptrdiff_t>( n );
	auto steps = g.range( 5, 50 );
	std::uint64_t h = n;
	for( std::uint64_t s = 0; s < steps; ++s ) {
		auto to = static_cast<std::ptrdiff_t>( g.below( n + 1 ) );
		auto op = g.below( 12 );
		h = vf::mix( h, op );
		c.op( "safe_pointer" );
		switch( op ) {
		case 0: p = q; a = b; break;
		case 1: q = p; b = a; break;
		case 2:
			if( a < N ) {
				VF_TRUE( c, "++", &++p == &p );
				++a;
			}
			break;
		case 3:
			if( a > 0 ) {
				VF_TRUE( c, "--", &--p == &p );
				--a;
			}
			break;
		case 4:
			if( a < N ) {
				P o = p++;
				VF_EQ( c, "post ++", o.get( ), store + a );
				++a;
			}
			break;
		case 5:
			if( a > 0 ) {
				P o = p--;
				VF_EQ( c, "post --", o.get( ), store + a );
				--a;
			}
			break;
		case 6: p += to - a; a = to; break;
		case 7: q -= b - to; b = to; break;
		case 8: VF_EQ( c, "p + n", ( p + ( to - a ) ).get( ), store + to ); break;
		case 9: VF_EQ( c, "p - n", ( p - ( a - to ) ).get( ), store + to ); break;
		case 10:
			if( a < N ) {
				*p = model[a] = static_cast<int>( 100 + s );
			}
			break;
		default:
			if( to < N ) {
				q[to - b] = model[to] = static_cast<int>( 300 + s );
			}
			break;
		}
		VF_EQ( c, "get", p.get( ), store + a );
		VF_EQ( c, "other get", q.get( ), store + b );
		VF_EQ( c, "base", p.get_base( ), static_cast<int *>( store ) );
		VF_EQ( c, "base size", p.get_base_size( ), n );
		VF_EQ( c, "arrow", p.operator->( ), store + a );
		if( a < N ) {
			VF_EQ( c, "deref", &*p, store + a );
		}
		if( to < N ) {
			VF_EQ( c, "index", &p[to - a], store + to );
		}
		VF_EQ( c, "difference", p - q, a - b );
		VF_EQ( c, "difference to a pointer", p - ( store + to ), a - to );
		VF_EQ( c, "==", ( p == q ), a == b );
		VF_EQ( c, "!=", ( p != q ), a != b );
		VF_EQ( c, "<", ( p < q ), a < b );
		VF_EQ( c, "<=", ( p <= q ), a <= b );
		VF_EQ( c, ">", ( p > q ), a > b );
		VF_EQ( c, ">=", ( p >= q ), a >= b );
		VF_TRUE( c, "truth", static_cast<bool>( p ) and not ( p == nullptr ) and p != nullptr and nullptr != p );
		daw::memory::safe_pointer<int const> cp( p );
		VF_EQ( c, "const view", cp.get( ), static_cast<int const *>( store + a ) );
		VF_EQ( c, "const view base", cp.get_base( ), static_cast<int const *>( store ) );
		VF_EQ( c, "as integer", static_cast<std::uintptr_t>( p ), reinterpret_cast<std::uintptr_t>( store + a ) );
		VF_TRUE( c, "objects behind", std::equal( store, store + 9, model ) );
	}
	{
		c.op( "safe_pointer of void, of nothing, of an array" );
		namespace dm = daw::memory;
		auto at = static_cast<std::ptrdiff_t>( g.below( n ) ), to = static_cast<std::ptrdiff_t>( g.below( n ) );
		P const x = P( store, n ) + at, y = P( store, n ) + to;
		dm::safe_pointer<void> v( x ), w( y );
		dm::safe_pointer<void const> vc( x ), wc( static_cast<void const *>( store + to ) ), v1( store + at, 1 );
		auto cmp = [&]( auto const &l, auto const &r ) {
			VF_TRUE( c, "comparison of void", ( l == r ) == ( at == to ) and ( l != r ) == ( at != to ) and ( l < r ) == ( at < to ) and
			                                    ( l <= r ) == ( at <= to ) and ( l > r ) == ( at > to ) and ( l >= r ) == ( at >= to ) );
		};
		cmp( v, w );
		cmp( vc, wc );
		cmp( v, wc );
		cmp( x, w );
		cmp( v1, y );
		VF_TRUE( c, "void keeps the address", v.get( ) == store + at and vc.get( ) == store + at and v1.get( ) == store + at and wc.get( ) == store + to );
		VF_TRUE( c, "void truth", v and vc and v != nullptr and nullptr != v and not( v == nullptr ) );
		VF_EQ( c, "void as integer", static_cast<std::uintptr_t>( v ), reinterpret_cast<std::uintptr_t>( store + at ) );
		P none{ }, null( nullptr );
		VF_TRUE( c, "null", not none and none == nullptr and null == nullptr and nullptr == null and not( null != nullptr ) and none == null and
		                      none.get( ) == nullptr and none.get_base( ) == nullptr and none.get_base_size( ) == 0 );
		P arr( store );
		VF_TRUE( c, "array", arr.get( ) == store and arr.get_base( ) == store and arr.get_base_size( ) == 9 );
		P single( &store[at] );
		VF_TRUE( c, "plain pointer", single.get( ) == store + at and &*single == store + at and &single[0] == store + at );
		P owned = x;
		VF_TRUE( c, "destroy hands over the base", owned.destroy( ) == store and not owned and owned.get( ) == store + at );
		VF_TRUE( c, "the others are not affected", static_cast<bool>( x ) );
	}
#ifndef NDEBUG
	if( c.idx % 200 == 0 ) {
		c.op( "safe_pointer misuse" );
		auto how = g.below( 9 );
		auto at = static_cast<std::ptrdiff_t>( g.below( n + 1 ) );
		auto e = vf::outcome( [&] {
			P x( store, n );
			if( how > 4 ) x += at;
			switch( how ) {
			case 0: --x; break;
			case 1: x += N + 1; break;
			case 2: x += N; ++x; break;
			case 3: (void)( x - 1 ); break;
			case 5: x += N - at + 1; break;
			case 6: x -= at + 1; break;
			case 7: x += -at - 1; break;
			case 8: x -= at - N - 1; break;
			default: (void)x.destroy( ); (void)*x; break;
			}
		} );
		VF_TRUE( c, "leaving the range is caught", e == vf::End::aborted );
	}
#endif
	P d( store, n );
	VF_EQ( c, "destroy gives the base", ( d + 1 ).destroy( ), static_cast<int *>( store ) );
	VF_EQ( c, "destroy gives its base", d.destroy( ), static_cast<int *>( store ) );
	VF_TRUE( c, "destroyed is false", not d );
	c.nontrivial( h );
	c.count( "safe_steps", steps );
}
template<typename T>
static void tracked_vector( vf::Case &c, auto make, auto key ) {
	auto &g = c.rng;
	vf::LedgerScope led;
	std::uint64_t h = 0;
	{
		c.op( "tracked_allocator vector" );
		std::vector<T, daw::memory::tracked_allocator<T>> v;
		std::vector<int> m;
		auto steps = g.range( 3, 40 );
		for( std::uint64_t s = 0; s < steps; ++s ) {
			int x = static_cast<int>( s );
			auto at = m.empty( ) ? 0 : static_cast<std::ptrdiff_t>( g.below( m.size( ) ) );
			auto op = g.below( 9 );
			h = vf::mix( h, op );
			switch( op ) {
			case 0:
			case 1:
			case 2: v.push_back( make( x ) ); m.push_back( x ); break;
			case 3: v.insert( v.begin( ) + at, make( x ) ); m.insert( m.begin( ) + at, x ); break;
			case 4:
				if( not m.empty( ) ) {
					v.erase( v.begin( ) + at );
					m.erase( m.begin( ) + at );
				}
				break;
			case 5:
				if( not m.empty( ) ) {
					v.pop_back( );
					m.pop_back( );
				}
				break;
			case 6: v.reserve( g.below( 40 ) ); break;
			case 7: {
				auto n = g.below( 30 );
				v.resize( n, make( x ) );
				m.resize( n, x );
				break;
			}
			default:
				if( not m.empty( ) ) {
					v.shrink_to_fit( );
				}
				break;
			}
			VF_REQ( c, "size", v.size( ), m.size( ) );
			for( std::size_t i = 0; i < m.size( ); ++i ) {
				VF_EQ( c, "element", key( v[i] ), m[i] );
			}
		}
		if( not m.empty( ) ) {
			auto w = v;
			VF_EQ( c, "copy", w.size( ), m.size( ) );
			VF_EQ( c, "copied back", key( w.back( ) ), m.back( ) );
			auto z = std::move( w );
			VF_EQ( c, "moved", z.size( ), m.size( ) );
		}
		c.count( "allocator_steps", steps );
	}
	led.check_empty( c, "tracked allocator lifetimes" );
	c.nontrivial( h );
}
VF_FAMILY( tracked_allocator_any, 6000, 80000 ) {
	if( c.idx % 2 ) {
		tracked_vector<vf::Tracked>(
		  c, []( int i ) { return vf::Tracked( i ); }, []( vf::Tracked const &t ) { return t.get( ); } );
	} else {
		tracked_vector<std::string>(
		  c, []( int i ) { return "some text that is not small #" + std::to_string( i ); },
		  []( std::string const &s ) { return s.empty( ) ? -1 : std::stoi( s.substr( s.find( '#' ) + 1 ) ); } );
	}
	vf::LedgerScope led;
	{
		c.op( "tracked_allocator by hand" );
		daw::memory::tracked_allocator<vf::Tracked> al;
		auto n = c.rng.range( 1, 8 );
		auto p = al.allocate( n );
		VF_EQ( c, "range of the allocation", p.get_base_size( ), n );
		for( std::uint64_t i = 0; i < n; ++i ) {
			auto q = p + static_cast<std::ptrdiff_t>( i );
			al.construct( q, static_cast<int>( i ) );
			VF_EQ( c, "constructed", ( *q ).get( ), static_cast<int>( i ) );
		}
		for( std::uint64_t i = 0; i < n; ++i ) {
			auto q = p + static_cast<std::ptrdiff_t>( i );
			al.destroy( q );
		}
		al.deallocate( p, n );
		VF_TRUE( c, "deallocated pointer is dead", not p );
	}
	led.check_empty( c, "allocator by hand" );
}

VF_MAIN( )
