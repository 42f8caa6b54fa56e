// C26: std::tuple helpers, apply/invoke and bind_args_at.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <daw/daw_tuple_helper.h>
#include <daw/daw_apply.h>
#include <daw/daw_bind_args_at.h>

#include "vf.h"
#include "vf_types.h"

#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

namespace {
	using vf::MoveOnly;
	using vf::Tracked;

	std::string text( vf::Case &c ) {
		std::string s( c.rng.below( 20 ), 'a' );
		for( auto &ch : s ) {
			ch = static_cast<char>( 'a' + c.rng.below( 26 ) );
		}
		return s;
	}

	VF_FAMILY( runtime_index, 3000, 40000 ) {
		int const a = c.rng.range( -1000, 1000 );
		auto const s = text( c );
		std::tuple<int, std::string, int, double> t( a, s, a + 1, 2.5 );
		auto const idx = c.rng.below( 4 );
		c.ctx( "index ", idx );
		c.nontrivial( vf::mix( idx, static_cast<std::uint64_t>( a + 2000 ) ) );
		{
			auto v = daw::get( t, idx );
			VF_EQ( c, "get alternative", v.index( ), idx );
			std::visit( [&]( auto r ) {
				void const *const want[] = { &std::get<0>( t ), &std::get<1>( t ), &std::get<2>( t ), &std::get<3>( t ) };
				VF_TRUE( c, "get refers", static_cast<void const *>( &r.get( ) ) == want[idx] );
			},
			            v );
			auto const &ct = t;
			auto cv = daw::get( ct, idx );
			VF_EQ( c, "get const alternative", cv.index( ), idx );
			if( idx == 1 ) {
				std::get<1>( v ).get( ) = "w";
				VF_EQ( c, "get writes", std::get<1>( t ), std::string( "w" ) );
				std::get<1>( t ) = s;
			}
		}
		// apply_at calls the matching overload with exactly that element
		auto const at = c.rng.below( 6 );
		int ints = 0, strings = 0, doubles = 0;
		void const *seen = nullptr;
		daw::tuple::apply_at(
		  t, at, [&]( int &i ) { ++ints; seen = &i; }, [&]( std::string &x ) { ++strings; seen = &x; }, [&]( double &x ) { ++doubles; seen = &x; } );
		VF_EQ( c, "apply_at ints", ints, at == 0 or at == 2 ? 1 : 0 );
		VF_EQ( c, "apply_at strings", strings, at == 1 ? 1 : 0 );
		VF_EQ( c, "apply_at doubles", doubles, at == 3 ? 1 : 0 );
		void const *const want[] = { &std::get<0>( t ), &std::get<1>( t ), &std::get<2>( t ), &std::get<3>( t ), nullptr, nullptr };
		VF_TRUE( c, "apply_at element", seen == want[at] );
		// an element no function accepts is left alone
		int calls = 0;
		daw::tuple::apply_at( std::as_const( t ), at, [&]( std::string const & ) { ++calls; } );
		VF_EQ( c, "apply_at const", calls, at == 1 ? 1 : 0 );
		// rvalue tuples pass rvalues
		vf::LedgerScope led;
		{
			std::tuple<MoveOnly, std::string> mv( MoveOnly( 3 ), s );
			int got = 0;
			daw::tuple::apply_at(
			  std::move( mv ), 0, [&]( MoveOnly &&m ) { MoveOnly const o = std::move( m ); got = o.get( ); }, []( std::string && ) {} );
			VF_EQ( c, "apply_at rvalue", got, 3 );
			VF_EQ( c, "apply_at rvalue others", std::get<1>( mv ), s );
		}
		led.check_empty( c, "apply_at" );
		c.op( "runtime index" );
	}

	VF_FAMILY( elementwise, 3000, 40000 ) {
		using T = std::tuple<int, long long, double>;
		auto num = [&] {
			return c.rng.range( -1000, 1000 );
		};
		auto nz = [&] {
			auto const v = c.rng.range( 1, 1000 );
			return c.rng.coin( ) ? v : -v;
		};
		int const a0 = num( ), b0 = nz( );
		long long const a1 = num( ), b1 = nz( );
		double const a2 = num( ) / 8.0, b2 = nz( ) / 8.0;
		int const k = nz( );
		T const a( a0, a1, a2 ), b( b0, b1, b2 );
		c.ctx( "a ", a0, ",", a1, ",", a2, " b ", b0, ",", b1, ",", b2, " k ", k );
		c.nontrivial( vf::mix( static_cast<std::uint64_t>( a0 + 2000 ), static_cast<std::uint64_t>( b0 + 2000 ) ) );
		using namespace daw::tuple::operators;
		VF_TRUE( c, "+", ( a + b == T( a0 + b0, a1 + b1, a2 + b2 ) ) );
		VF_TRUE( c, "-", ( a - b == T( a0 - b0, a1 - b1, a2 - b2 ) ) );
		VF_TRUE( c, "*", ( a * b == T( a0 * b0, a1 * b1, a2 * b2 ) ) );
		VF_TRUE( c, "/", ( a / b == T( a0 / b0, a1 / b1, a2 / b2 ) ) );
		VF_TRUE( c, "+ value", ( a + k == T( a0 + k, a1 + k, a2 + k ) ) );
		VF_TRUE( c, "- value", ( a - k == T( a0 - k, a1 - k, a2 - k ) ) );
		VF_TRUE( c, "* value", ( a * k == T( a0 * k, a1 * k, a2 * k ) ) );
		VF_TRUE( c, "/ value", ( a / k == T( a0 / k, a1 / k, a2 / k ) ) );
		VF_TRUE( c, "value +", ( k + b == T( k + b0, k + b1, k + b2 ) ) );
		VF_TRUE( c, "value -", ( k - b == T( k - b0, k - b1, k - b2 ) ) );
		VF_TRUE( c, "value *", ( k * b == T( k * b0, k * b1, k * b2 ) ) );
		VF_TRUE( c, "value /", ( k / b == T( k / b0, k / b1, k / b2 ) ) );
		VF_TRUE( c, "min", ( daw::tuple::min( a, b ) == T( std::min( a0, b0 ), std::min( a1, b1 ), std::min( a2, b2 ) ) ) );
		VF_TRUE( c, "max", ( daw::tuple::max( a, b ) == T( std::max( a0, b0 ), std::max( a1, b1 ), std::max( a2, b2 ) ) ) );
		// for_each / apply visit every element once in order
		std::vector<double> seen;
		daw::tuple::for_each( a, [&]( auto const &v ) { seen.push_back( static_cast<double>( v ) ); } );
		VF_TRUE( c, "for_each", ( seen == std::vector<double>{ double( a0 ), double( a1 ), a2 } ) );
		T m = a;
		daw::tuple::apply( m, []( auto &v ) { v += 1; } );
		VF_TRUE( c, "tuple::apply", ( m == T( a0 + 1, a1 + 1, a2 + 1 ) ) );
		std::ostringstream os, ws;
		{
			using namespace daw::tuple;
			daw::tuple::operator<<( os, a );
		}
		ws << "{ " << a0 << ", " << a1 << ", " << a2 << " }";
		VF_EQ( c, "<<", os.str( ), ws.str( ) );
		c.op( "elementwise" );
	}

	struct Agg {
		int a;
		std::string b;
		std::unique_ptr<int> c;
	};
	struct Ctor {
		int a;
		std::string b;
		Ctor( std::string y, int x )
		  : a( x )
		  , b( std::move( y ) ) {}
	};
	struct Obj {
		int v;
		int add( int x ) const {
			return v + x;
		}
		int &mut( ) {
			return v;
		}
		virtual ~Obj( ) = default;
		Obj( int x )
		  : v( x ) {}
		virtual int virt( int x ) {
			return x - v;
		}
	};
	struct Der : Obj {
		using Obj::Obj;
		int virt( int x ) override {
			return x * v;
		}
	};

	VF_FAMILY( make_and_call, 3000, 40000 ) {
		int a = c.rng.range( -1000, 1000 );
		int const a0 = a;
		auto const s = text( c );
		c.nontrivial( vf::mix( static_cast<std::uint64_t>( a + 2000 ), s.size( ) ) );
		auto agg = daw::make_from_tuple2<Agg>( std::tuple<int, std::string, std::unique_ptr<int>>( a, s, std::make_unique<int>( 3 ) ) );
		VF_EQ( c, "make_from_tuple2 aggregate", agg.a, a );
		VF_EQ( c, "make_from_tuple2 aggregate", agg.b, s );
		VF_EQ( c, "make_from_tuple2 aggregate", *agg.c, 3 );
		std::tuple<std::string, int> const ct( s, a );
		auto const ob = daw::make_from_tuple2<Ctor>( ct );
		VF_EQ( c, "make_from_tuple2 ctor", ob.a, a );
		VF_EQ( c, "make_from_tuple2 ctor", ob.b, s );
		VF_EQ( c, "make_from_tuple2 keeps lvalue", std::get<0>( ct ), s );
		static_assert( daw::tuple_size_v<std::tuple<int, int>> == 2 and daw::is_empty_tuple_v<std::tuple<>> );
		auto fw = daw::forward_nontemp_as_tuple( a, std::string( s ) );
		std::get<0>( fw ) += 1;
		VF_EQ( c, "forward_nontemp lvalue", a, a0 + 1 );
		VF_EQ( c, "forward_nontemp rvalue", std::get<1>( fw ), s );
		a = a0;

		// daw::apply on std::tuple
		std::tuple<int, std::string> t( a, s );
		auto &&r = daw::apply( []( int &i, std::string & ) -> int & { return i; }, t );
		VF_TRUE( c, "apply reference", &r == &std::get<0>( t ) );
		VF_EQ( c, "apply const", daw::apply( []( int i, std::string const &x ) { return i + static_cast<int>( x.size( ) ); }, std::as_const( t ) ), a + static_cast<int>( s.size( ) ) );
		VF_EQ( c, "apply rvalue", daw::apply( []( int, std::string &&x ) { return std::move( x ); }, std::move( t ) ), s );
		std::tuple<int, int> const t2( a, 3 );
		VF_EQ( c, "apply<false>", daw::apply<false>( []( int x, int y ) { return x * y; }, t2 ), a * 3 );
		VF_EQ( c, "apply ()", daw::apply( [] { return 4; }, std::tuple<>{ } ), 4 );
		Obj o( a );
		VF_EQ( c, "apply member", daw::apply( &Obj::add, std::tuple<Obj *, int>( &o, 5 ) ), a + 5 );

		// invoke
		Der d( 3 );
		Obj &od = d;
		std::unique_ptr<Obj> up = std::make_unique<Der>( 4 );
		VF_EQ( c, "invoke mem fn", daw::invoke( &Obj::add, o, 2 ), a + 2 );
		VF_EQ( c, "invoke mem fn ptr", daw::invoke( &Obj::add, &o, 2 ), a + 2 );
		VF_EQ( c, "invoke mem fn smart", daw::invoke( &Obj::add, up, 2 ), 6 );
		VF_EQ( c, "invoke mem fn ref", daw::invoke( &Obj::add, std::ref( o ), 2 ), a + 2 );
		VF_EQ( c, "invoke virtual", daw::invoke( &Obj::virt, od, a ), a * 3 );
		VF_EQ( c, "invoke virtual ptr", daw::invoke( &Obj::virt, up, a ), a * 4 );
		VF_EQ( c, "invoke derived", daw::invoke( &Obj::virt, d, a ), a * 3 );
		VF_TRUE( c, "invoke member", &daw::invoke( &Obj::v, o ) == &o.v );
		VF_TRUE( c, "invoke member ptr", &daw::invoke( &Obj::v, &o ) == &o.v );
		VF_TRUE( c, "invoke member ref", &daw::invoke( &Obj::v, std::ref( o ) ) == &o.v );
		VF_TRUE( c, "invoke member smart", &daw::invoke( &Obj::v, up ) == &up->v );
		daw::invoke( &Obj::mut, o ) = 77;
		VF_EQ( c, "invoke reference", o.v, 77 );
		int x = 1, y = 2;
		VF_EQ( c, "invoke refs", daw::invoke( []( int &p, int &q ) { p = 5; q = 6; return p + q; }, std::ref( x ), std::ref( y ) ), 11 );
		VF_EQ( c, "invoke refs", x * 10 + y, 56 );
		VF_EQ( c, "invoke move only", daw::invoke( []( std::unique_ptr<int> p, int q ) { return *p + q; }, std::make_unique<int>( 3 ), 4 ), 7 );
		struct CE {
			int v;
			constexpr int g( int q ) const {
				return v * q;
			}
		};
		static constexpr CE ce{ 4 };
		static constexpr int cg = daw::invoke( &CE::g, ce, 5 ), cv = daw::invoke( &CE::v, ce );
		VF_EQ( c, "invoke constexpr", cg, 20 );
		VF_EQ( c, "invoke constexpr", cv, 4 );
		c.op( "make and call" );
	}

	template<std::size_t N>
	void bind_at( vf::Case &c ) {
		std::string const arg[4] = { text( c ), text( c ), text( c ), text( c ) };
		std::string const b1 = text( c ), b2 = text( c );
		auto join = []( auto const &...v ) {
			std::string r;
			( ( r += v, r += '|' ), ... );
			return r;
		};
		auto want = [&]( std::size_t n, std::vector<std::string> const &bound ) {
			std::string r;
			for( std::size_t i = 0; i <= n; ++i ) {
				if( i == N ) {
					for( auto const &b : bound ) {
						r += b + "|";
					}
				}
				if( i < n ) {
					r += arg[i] + "|";
				}
			}
			return r;
		};
		c.ctx( "bound at ", N );
		auto f = daw::bind_args_at<N>( join, b1, b2 );
		auto const g = daw::bind_args_at<N>( join, b1 );
		auto const h = daw::bind_args_at<N>( join );
		static_assert( std::is_invocable_v<decltype( f ), std::string, std::string, std::string> );
		VF_EQ( c, "bind two of 3", f( arg[0], arg[1], arg[2] ), want( 3, { b1, b2 } ) );
		VF_EQ( c, "bind two of 4", f( arg[0], arg[1], arg[2], arg[3] ), want( 4, { b1, b2 } ) );
		VF_EQ( c, "bind one", g( arg[0], arg[1], arg[2] ), want( 3, { b1 } ) );
		VF_EQ( c, "bind none", h( arg[0], arg[1], arg[2] ), want( 3, { } ) );
		VF_EQ( c, "bind repeat", f( arg[0], arg[1], arg[2] ), want( 3, { b1, b2 } ) );
		auto f2 = f;
		VF_EQ( c, "bind copy", f2( arg[0], arg[1], arg[2] ), want( 3, { b1, b2 } ) );
		if constexpr( N <= 1 ) {
			VF_EQ( c, "bind few", f( arg[0] ), want( 1, { b1, b2 } ) );
		}
		if constexpr( N == 0 ) {
			VF_EQ( c, "bind all", f( ), want( 0, { b1, b2 } ) );
		}
		// nested binding
		auto nest = daw::bind_args_at<0>( g, arg[0] );
		VF_EQ( c, "bind nested", nest( arg[1], arg[2] ), want( 3, { b1 } ) );
		c.nontrivial( vf::mix( N, b1.size( ) * 32 + b2.size( ) ) );
		c.op( "bind_args_at" );
	}
	VF_FAMILY( bind_args, 3000, 40000 ) {
		switch( c.rng.below( 4 ) ) {
		case 0:
			bind_at<0>( c );
			break;
		case 1:
			bind_at<1>( c );
			break;
		case 2:
			bind_at<2>( c );
			break;
		default:
			bind_at<3>( c );
		}
		int n = 1;
		auto rf = daw::bind_args_at<0>( []( int &x, int y ) { x += y; }, std::ref( n ) );
		rf( 4 );
		rf( 5 );
		VF_EQ( c, "bind std::ref", n, 10 );
		vf::LedgerScope led;
		{
			auto st = daw::bind_args_at<1>( [sum = 0]( MoveOnly m, Tracked const &t ) mutable { return sum += m.get( ) + t.get( ); }, Tracked( 10 ) );
			VF_EQ( c, "bind state", st( MoveOnly( 1 ) ), 11 );
			VF_EQ( c, "bind state", st( MoveOnly( 2 ) ), 23 );
			int lv = 5;
			Tracked t( 6 );
			auto cp = daw::bind_args_at<1>( []( Tracked x, int y ) { return x.get( ) + y; }, lv );
			lv = 0;
			VF_EQ( c, "bind copies", cp( t ), 11 );
			VF_EQ( c, "bind leaves lvalue", t.get( ), 6 );
		}
		led.check_empty( c, "bind" );
	}
} // namespace

VF_MAIN( )
