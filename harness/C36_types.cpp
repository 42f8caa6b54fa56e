// C36 (types): value types, guards, containers, owning pointers and pipelines,
// each driven by the compiler and again at run time.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -fconstexpr-steps=400000000
#include <limits>
#include <memory>
#include <random>
#include <daw/daw_cx_atomic.h>
#include <daw/daw_array.h>
#include <daw/daw_bounded_vector.h>
#include <daw/daw_contiguous_view.h>
#include <daw/daw_not_null.h>
#include <daw/daw_observer_ptr.h>
#include <daw/daw_ref_counted_pointer.h>
#include <daw/daw_scope_guard.h>
#include <daw/daw_shared_function.h>
#include <daw/daw_simple_array.h>
#include <daw/daw_span.h>
#include <daw/daw_tuple2.h>
#include <daw/daw_unique_ptr.h>
#include <daw/daw_visit.h>
#include <daw/pipelines/pipeline.h>
#include <daw/vector.h>
#include <daw/daw_pipelines.h>

#include "vf.h"
#include "cx.h"

#include <utility>
#include <variant>

namespace {
	// ---- daw::atomic ------------------------------------------------------
	template<typename T>
	constexpr void atomic_ops( cx::Out &o, cx::Rng &r ) {
		daw::atomic<T> a( r.edgy<T>( ) );
		for( int i = 0; i < 30; ++i ) {
			T const v = r.edgy<T>( );
			switch( r.below( 22 ) ) {
			case 0:
				a.store( v );
				break;
			case 1:
				o( 0, "exchange", a.exchange( v ) );
				break;
			case 2:
			case 3: {
				// the loop absorbs spurious failures of the weak form
				T e = r.coin( ) ? a.load( ) : v;
				T const want = e;
				bool done = a.compare_exchange_weak( e, static_cast<T>( v + 1 ) );
				while( not done and e == want ) {
					done = a.compare_exchange_weak( e, static_cast<T>( v + 1 ) );
				}
				o( 1, "compare_exchange_weak", done );
				o( 1, "compare_exchange_weak", e );
				break;
			}
			case 4:
			case 5: {
				T e = r.coin( ) ? a.load( ) : v;
				o( 2, "compare_exchange_strong", a.compare_exchange_strong( e, static_cast<T>( v + 2 ) ) );
				o( 2, "compare_exchange_strong", e );
				break;
			}
			case 6: {
				T e = r.coin( ) ? a.load( ) : v;
				o( 3, "compare_exchange_strong with two orders",
				   a.compare_exchange_strong( e, v, std::memory_order_acq_rel, std::memory_order_acquire ) );
				o( 3, "compare_exchange_strong with two orders", e );
				break;
			}
			case 7: {
				T e = r.coin( ) ? a.load( ) : v;
				T const want = e;
				bool done = false;
				do {
					done = a.compare_exchange_weak( e, static_cast<T>( v + 3 ), std::memory_order_acq_rel, std::memory_order_relaxed );
				} while( not done and e == want );
				o( 4, "compare_exchange_weak with two orders", done );
				o( 4, "compare_exchange_weak with two orders", e );
				break;
			}
			case 8:
				o( 5, "fetch_add", a.fetch_add( v ) );
				break;
			case 9:
				o( 6, "fetch_sub", a.fetch_sub( v ) );
				break;
			case 10:
				o( 7, "operator+=", a += v );
				break;
			case 11:
				o( 8, "operator-=", a -= v );
				break;
			case 12:
				o( 9, "++a", ++a );
				break;
			case 13:
				o( 10, "a++", a++ );
				break;
			case 14:
				o( 11, "--a", --a );
				break;
			case 15:
				o( 12, "a--", a-- );
				break;
			case 16:
				o( 13, "fetch_and", a.fetch_and( v ) );
				break;
			case 17:
				o( 14, "fetch_or", a.fetch_or( v ) );
				break;
			case 18:
				o( 15, "fetch_xor", a.fetch_xor( v ) );
				break;
			case 19:
				o( 16, "operator&=", a &= v );
				break;
			case 20:
				o( 17, "operator|=", a |= v );
				break;
			default:
				o( 18, "operator^=", a ^= v );
				break;
			}
			o( 19, "load", a.load( ) );
			o( 20, "conversion", static_cast<T>( a ) );
		}
		daw::atomic<T> b( a );
		b = r.edgy<T>( );
		o( 21, "assignment of a value", b.load( ) );
		b = a;
		o( 22, "copy assignment", b.load( ) );
		daw::atomic<T> m( std::move( a ) );
		o( 23, "move", m.load( ) );
	}
	constexpr cx::Out prog_atomic( std::uint64_t seed ) {
		cx::Out o{ };
		cx::Rng r{ seed * 17U };
		atomic_ops<unsigned>( o, r );
		atomic_ops<std::uint64_t>( o, r );
		daw::atomic<bool> f( r.coin( ) );
		o( 24, "bool exchange", f.exchange( r.coin( ) ) );
		bool e = r.coin( );
		o( 25, "bool compare_exchange_strong", f.compare_exchange_strong( e, r.coin( ) ) );
		o( 25, "bool compare_exchange_strong", e );
		f = r.coin( );
		o( 26, "bool load", f.load( ) );
		daw::atomic<double> d( 1.5 );
		d += static_cast<double>( r.range( -9, 9 ) );
		o( 27, "double +=", d.load( ) );
		o( 27, "double fetch_sub", d.fetch_sub( 0.25 ) );
		o( 27, "double", d.load( ) );
		return o;
	}

	// ---- guards -----------------------------------------------------------
	constexpr cx::Out prog_guards( std::uint64_t seed ) {
		cx::Out o{ };
		cx::Rng r{ seed * 43U };
		for( int i = 0; i < 6; ++i ) {
			std::uint64_t log = 1;
			auto const note = [&]( std::uint64_t k ) { log = log * 7U + k; };
			{
				auto g = daw::on_scope_exit( [&] { note( 1 ); } );
				auto h = daw::on_scope_exit( [&] { note( 2 ); } );
				if( r.coin( ) ) {
					g.dismiss( );
				}
				if( r.coin( ) ) {
					auto k = std::move( h );
					note( 3 );
					if( r.coin( ) ) {
						k.dismiss( );
					}
				}
				note( 4 );
			}
			o( 0, "on_scope_exit", log );
			log = 1;
			{
				auto g = daw::on_exit_success( [&] { note( 5 ); } );
				note( 6 );
				if( r.coin( ) ) {
					auto h = daw::on_exit_success( [&] { note( 7 ); } );
					note( 8 );
				}
			}
			o( 1, "on_exit_success", log );
		}
		return o;
	}

	// ---- containers -------------------------------------------------------
	template<typename Vec>
	constexpr void see( cx::Out &o, std::size_t lane, char const *what, Vec const &v ) {
		o( lane, what, v.size( ) );
		for( auto const &x : v ) {
			o( lane, what, static_cast<int>( x ) );
		}
	}

	/// owns memory, so an element lost or destroyed twice is an error for both evaluators
	struct Box {
		int *p;
		constexpr Box( int v = 0 )
		  : p( new int( v ) ) {}
		constexpr Box( Box const &b )
		  : p( new int( *b.p ) ) {}
		constexpr Box( Box &&b ) noexcept
		  : p( std::exchange( b.p, nullptr ) ) {}
		constexpr Box &operator=( Box const &b ) {
			if( this != &b ) {
				int *q = new int( *b.p );
				delete p;
				p = q;
			}
			return *this;
		}
		constexpr Box &operator=( Box &&b ) noexcept {
			std::swap( p, b.p );
			return *this;
		}
		constexpr ~Box( ) {
			delete p;
		}
		constexpr explicit operator int( ) const {
			return *p;
		}
	};

	template<typename T>
	constexpr void vector_ops( cx::Out &o, cx::Rng &r ) {
		daw::vector<T> v{ };
		for( int i = 0; i < 14; ++i ) {
			int const x = r.range( -99, 99 );
			auto const at = static_cast<std::ptrdiff_t>( r.below( v.size( ) + 1U ) );
			switch( r.below( 11 ) ) {
			case 0:
			case 1:
				v.push_back( T( x ) );
				break;
			case 2:
				v.emplace_back( x );
				break;
			case 3:
				o( 0, "insert", v.insert( v.begin( ) + at, T( x ) ) - v.begin( ) );
				break;
			case 4:
				o( 1, "emplace", v.emplace( v.begin( ) + at, x ) - v.begin( ) );
				break;
			case 5: {
				std::array<T, 3> const src{ T( x ), T( x + 1 ), T( x + 2 ) };
				o( 2, "insert range", v.insert( v.begin( ) + at, src.begin( ), src.end( ) ) - v.begin( ) );
				break;
			}
			case 6:
				if( not v.empty( ) ) {
					v.pop_back( );
				}
				break;
			case 7:
				if( not v.empty( ) ) {
					o( 3, "erase", v.erase( v.begin( ) + static_cast<std::ptrdiff_t>( r.below( v.size( ) ) ) ) - v.begin( ) );
				}
				break;
			case 8:
				v.resize( r.below( 9 ) );
				break;
			case 9:
				v.reserve( r.below( 12 ) );
				break;
			default: {
				daw::vector<T> w = v;
				w.push_back( T( 1 ) );
				v.swap( w );
				see( o, 4, "swap", w );
				if( r.coin( ) ) {
					v = std::move( w );
				} else {
					v = w;
				}
				break;
			}
			}
			see( o, 5, "vector", v );
		}
		if( v.size( ) > 1 ) {
			v.insert( v.begin( ), v.back( ) );
			see( o, 6, "insert of an own element", v );
		}
		v.clear( );
		o( 8, "clear", v.empty( ) );
	}
	constexpr cx::Out prog_vectors( std::uint64_t seed ) {
		cx::Out o{ };
		cx::Rng r{ seed * 59U };
		vector_ops<int>( o, r );
		vector_ops<Box>( o, r );
		return o;
	}

	constexpr cx::Out prog_bounded( std::uint64_t seed ) {
		cx::Out o{ };
		cx::Rng r{ seed * 61U };
		daw::bounded_vector_t<int, 10> v{ };
		for( int i = 0; i < 30; ++i ) {
			int const x = r.range( -99, 99 );
			switch( r.below( 8 ) ) {
			case 0:
			case 1:
				if( not v.full( ) ) {
					v.push_back( x );
				}
				break;
			case 2:
				if( not v.full( ) ) {
					v.emplace_back( x );
				}
				break;
			case 3:
				if( not v.empty( ) ) {
					o( 0, "pop_back", v.pop_back( ) );
				}
				break;
			case 4:
				if( not v.empty( ) ) {
					o( 1, "pop_front", v.pop_front( ) );
				}
				break;
			case 5:
				if( not v.empty( ) ) {
					auto const at = static_cast<std::ptrdiff_t>( r.below( v.size( ) ) );
					o( 2, "erase", v.erase( v.begin( ) + at ) - v.begin( ) );
				}
				break;
			case 6: {
				int const src[3]{ x, x + 1, x + 2 };
				if( v.has_room( 3 ) ) {
					v.push_back( src, 3 );
				}
				break;
			}
			default:
				v.resize( r.below( 11 ) );
				break;
			}
			see( o, 3, "bounded_vector", v );
			o( 4, "available", v.available( ) );
		}
		int raw[9]{ };
		for( auto &x : raw ) {
			x = r.range( 0, 9 );
		}
		daw::span<int> s( raw, 9 );
		daw::contiguous_view<int> cv( raw, 9 );
		for( int i = 0; i < 4 and s.size( ) > 3; ++i ) {
			if( r.coin( ) ) {
				s.remove_prefix( 1 );
				cv.remove_suffix( 1 );
			} else {
				s.remove_suffix( 1 );
				cv.remove_prefix( 2 );
			}
			see( o, 5, "span", s );
			if( cv.size( ) < 3 ) {
				break;
			}
			see( o, 6, "contiguous_view", cv );
		}
		o( 7, "span ends", s.front( ) * 10 + s.back( ) );
		daw::array<int, 5> a{ raw[0], raw[1], raw[2], raw[3], raw[4] };
		daw::array<int, 5> b{ raw[4], raw[1], raw[2], raw[3], raw[0] };
		o( 8, "array ==", a == b );
		daw::simple_array<int, 5> c{ raw[0], raw[1], raw[2], raw[3], raw[4] };
		o( 9, "simple_array", c[r.below( 5 )] );
		daw::tuple2<int, short, std::uint64_t> t{ raw[0], static_cast<short>( raw[1] ), r.next( ) };
		daw::get<0>( t ) += 5;
		o( 10, "tuple2", daw::get<2>( t ) + static_cast<std::uint64_t>( daw::get<1>( t ) ) * 3U + static_cast<std::uint64_t>( daw::get<0>( t ) ) );
		return o;
	}

	// ---- owners and callables ---------------------------------------------
	constexpr cx::Out prog_owners( std::uint64_t seed ) {
		cx::Out o{ };
		cx::Rng r{ seed * 67U };
		std::array<daw::unique_ptr<int>, 4> u{ };
		std::array<daw::rc_ptr<int>, 4> rc{ };
		for( int i = 0; i < 24; ++i ) {
			auto const a = r.below( 4 );
			auto const b = r.below( 4 );
			int const x = r.range( 0, 99 );
			switch( r.below( 8 ) ) {
			case 0:
				u[a] = daw::make_unique<int>( x );
				break;
			case 1:
				if( a != b ) {
					u[a] = std::move( u[b] );
				}
				break;
			case 2:
				u[a].reset( );
				break;
			case 3:
				if( a != b ) {
					auto t = std::move( u[a] );
					u[a] = std::move( u[b] );
					u[b] = std::move( t );
				}
				break;
			case 4:
				rc[a] = daw::make_rc_ptr<int>( x );
				break;
			case 5:
				rc[a] = rc[b];
				break;
			case 6:
				if( a != b ) {
					rc[a] = std::move( rc[b] );
				}
				break;
			default:
				if( rc[a] ) {
					*rc[a] += 100;
				}
				break;
			}
			for( auto const &p : u ) {
				o( 0, "unique_ptr", p ? *p : -1 );
			}
			for( auto const &p : rc ) {
				o( 1, "rc_ptr", p ? *p : -1 );
			}
			o( 2, "rc_ptr ==", rc[a] == rc[b] );
		}
		int hits = 0;
		{
			auto f = daw::shared_function<int( int )>( [&hits, k = r.range( 1, 9 )]( int y ) {
				++hits;
				return y * k;
			} );
			auto g = f;
			o( 3, "shared_function", g( r.range( 0, 9 ) ) );
			auto h = std::move( f );
			o( 3, "shared_function", h( r.range( 0, 9 ) ) );
			g = daw::shared_function<int( int )>( []( int y ) { return y; } );
			o( 3, "shared_function", g( r.range( 0, 9 ) ) );
		}
		o( 4, "shared_function calls", hits );
		using V = std::variant<int, long, char, short>;
		V v = r.range( 0, 9 );
		switch( r.below( 4 ) ) {
		case 0:
			v = 7L;
			break;
		case 1:
			v = 'c';
			break;
		case 2:
			v = static_cast<short>( 5 );
			break;
		default:
			break;
		}
		o( 5, "visit_nt", daw::visit_nt( v, []( auto x ) { return static_cast<std::size_t>( x ) * 10U + sizeof( x ); } ) );
		return o;
	}

	// ---- pipelines --------------------------------------------------------
	constexpr cx::Out prog_pipes( std::uint64_t seed ) {
		using namespace daw::pipelines;
		cx::Out o{ };
		cx::Rng r{ seed * 71U };
		std::array<int, 12> a{ };
		for( auto &x : a ) {
			x = r.range( -9, 9 );
		}
		int const k = r.range( -9, 9 );
		auto const n = r.below( 14 );
		auto const below_k = [=]( int x ) { return x < k; };
		auto const all = [&]( std::size_t lane, char const *what, auto &&rng ) {
			std::size_t count = 0;
			for( auto &&x : rng ) {
				o( lane, what, x );
				++count;
			}
			o( lane, what, count );
		};
		all( 0, "Filter", pipeline( Filter( below_k ) )( a ) );
		all( 1, "Map", pipeline( Map( []( int x ) { return x * 2; } ) )( a ) );
		all( 2, "Take", pipeline( Take( n ) )( a ) );
		all( 3, "Skip", pipeline( Skip( n ) )( a ) );
		all( 4, "TakeWhile", pipeline( TakeWhile( below_k ) )( a ) );
		all( 5, "DropWhile", pipeline( DropWhile( below_k ) )( a ) );
		all( 6, "Reverse", pipeline( Reverse )( a ) );
		all( 7, "Filter Map", pipeline( Filter( below_k ), Map( []( int x ) { return x + 1; } ) )( a ) );
		all( 8, "Map Filter", pipeline( Map( []( int x ) { return x + 1; } ), Filter( below_k ) )( a ) );
		o( 9, "Sum", pipeline( Sum )( a ) );
		o( 10, "Count", pipeline( Count )( a ) );
		o( 11, "Every Sum", pipeline( Every( 1 + r.below( 4 ) ), Sum )( a ) );
		o( 12, "FindIf", pipeline( FindIf( below_k ) )( a ) == a.end( ) );
		{
			std::size_t i = 0;
			for( auto &&e : pipeline( Enumerate )( a ) ) {
				o( 13, "Enumerate", std::get<0>( e ) == i );
				o( 13, "Enumerate", std::get<1>( e ) );
				++i;
			}
		}
		return o;
	}

	CX_RUN( atomic, 180, 1200 );
	CX_RUN( guards, 180, 1200 );
	CX_RUN( vectors, 180, 1000 );
	CX_RUN( bounded, 180, 1000 );
	CX_RUN( owners, 180, 1000 );
	CX_RUN( pipes, 180, 1000 );
} // namespace

VF_MAIN( )
