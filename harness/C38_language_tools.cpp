// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include <daw/daw_bind_front.h>
#include <daw/daw_mutable_capture.h>
#include <daw/daw_named_params.h>
#include <daw/daw_lift.h>
#include <daw/daw_logic.h>
#include <daw/daw_exchange.h>
#include <daw/daw_swap.h>
#include <daw/daw_operators.h>
#include <daw/daw_virtual_base.h>
#include <daw/daw_uninitialized_storage.h>
#include <daw/daw_construct_a.h>
#include <daw/daw_construct_at.h>
#include <daw/daw_move_only.h>
#include <daw/daw_move_only_base.h>
#include <daw/daw_forward_like.h>
#include <daw/daw_ordering_to_integer.h>
#include <daw/daw_cx_offset_of.h>
#include <daw/daw_alias_cast.h>
#include <daw/daw_bit_cast_util.h>
#include <daw/daw_constant.h>
#include <daw/daw_pack_element.h>
#include <daw/daw_monadic_pointer_ops.h>
#include <daw/daw_data_end.h>
#include <daw/daw_to_underlying_type.h>
#include "vf.h"
#include "vf_types.h"
#include <bit>
#include <compare>
#include <cstddef>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <sstream>
#include <tuple>

static std::string text( vf::Rng &g, int lo = 0, int hi = 40 ) {
	std::string s;
	auto n = g.range( lo, hi );
	for( int i = 0; i < n; ++i )
		s += static_cast<char>( 'a' + g.below( 26 ) );
	return s;
}

// ------------------------------------------------------------------- calls
struct Rec {
	std::vector<std::string> *log;
	int calls = 0;
	std::string operator( )( int a, std::string b, std::string const &c, int &out ) {
		++calls;
		out += a;
		auto r = std::to_string( calls ) + "|" + std::to_string( a ) + "|" + b + "|" + c;
		b += "changed";
		log->push_back( r );
		return r;
	}
	std::string operator( )( int a, std::string b, std::string const &c, int &out ) const {
		out -= a;
		auto r = "const|" + std::to_string( a ) + "|" + b + "|" + c;
		log->push_back( r );
		return r;
	}
};
struct Adder {
	int v = 0;
	int add( int x, int y ) const { return v + x * 7 + y; }
	int &slot( ) { return v; }
};
static std::string thief( std::string s, std::string t ) { return std::move( s ) + "/" + std::move( t ); }
static int kind( int & ) { return 1; }
static int kind( int const & ) { return 2; }
static int kind( int && ) { return 3; }
static int kind( int const && ) { return 4; }
static int &pass( int &x ) noexcept { return x; }
static int &pass2( int &x ) noexcept( false ) { return x; }

VF_FAMILY( calls, 700, 20000 ) {
	auto &g = c.rng;
	std::vector<std::string> log, model;
	int calls = 0;
	int out = 0, mout = 0;
	auto a = static_cast<int>( g.range( -1000, 1000 ) );
	auto b = text( g ), d = text( g );
	c.op( "bind_front" );
	auto bound = daw::bind_front( Rec{ &log }, a, b );
	auto const n = g.range( 1, 6 );
	for( int i = 0; i < n; ++i ) {
		auto e = text( g );
		if( g.coin( ) ) {
			auto r = bound( e, out );
			++calls;
			mout += a;
			auto w = std::to_string( calls ) + "|" + std::to_string( a ) + "|" + b + "|" + e;
			model.push_back( w );
			VF_EQ( c, "bind_front result", r, w );
		} else {
			auto r = std::as_const( bound )( e, out );
			mout -= a;
			auto w = "const|" + std::to_string( a ) + "|" + b + "|" + e;
			model.push_back( w );
			VF_EQ( c, "bind_front const result", r, w );
		}
		VF_EQ( c, "reference argument reaches the function", out, mout );
		if( g.chance( 1, 3 ) ) {
			auto cp = bound;
			auto r = cp( d, out );
			mout += a;
			model.push_back( r );
			VF_EQ( c, "copy of a binder", r, std::to_string( calls + 1 ) + "|" + std::to_string( a ) + "|" + b + "|" + d );
		}
	}
	VF_EQ( c, "bind_front calls", log == model, true );
	c.op( "bind_front functions and members" );
	auto f2 = daw::bind_front( &thief, b );
	for( int i = 0; i < 3; ++i )
		VF_EQ( c, "bind_front function", f2( d ), b + "/" + d );
	auto f0 = daw::bind_front( &thief );
	VF_EQ( c, "bind_front nothing bound", f0( b, d ), b + "/" + d );
	auto fall = daw::bind_front( &thief, b, d );
	VF_EQ( c, "bind_front everything bound", fall( ), b + "/" + d );
	VF_EQ( c, "bind_front everything bound again", fall( ), b + "/" + d );
	Adder ad{ a };
	auto fm = daw::bind_front( &Adder::add, ad, 3 );
	ad.v += 100;
	VF_EQ( c, "bind_front member by value", fm( 5 ), a + 21 + 5 );
	auto fp = daw::bind_front( &Adder::add, &ad, 3 );
	VF_EQ( c, "bind_front member by pointer", fp( 5 ), a + 100 + 21 + 5 );
	ad.v += 10;
	VF_EQ( c, "bind_front member by pointer sees changes", fp( 5 ), a + 110 + 21 + 5 );
	int target = 4;
	auto fr = daw::bind_front( []( int &r, int x ) -> int & { r += x; return r; }, std::ref( target ) );
	VF_EQ( c, "bind_front returned reference", &fr( a ), &target );
	VF_EQ( c, "bind_front std::ref", target, 4 + a );
	auto fu = daw::bind_front( []( int x, std::unique_ptr<int> p ) { return x + *p; }, a );
	VF_EQ( c, "bind_front move only call argument", fu( std::make_unique<int>( 5 ) ), a + 5 );

	c.op( "DAW_LIFT" );
	auto const lf = DAW_LIFT( kind );
	int x = 1;
	int const cx = 2;
	VF_EQ( c, "lift lvalue", lf( x ), 1 );
	VF_EQ( c, "lift const lvalue", lf( cx ), 2 );
	VF_EQ( c, "lift rvalue", lf( 5 ), 3 );
	VF_EQ( c, "lift const rvalue", lf( std::move( cx ) ), 4 );
	auto const lp = DAW_LIFT( pass );
	auto const lq = DAW_LIFT( pass2 );
	VF_EQ( c, "lift returns the reference", &lp( x ), &x );
	static_assert( noexcept( lp( x ) ) and not noexcept( lq( x ) ) );
	static_assert( std::is_same_v<decltype( lp( x ) ), int &> );
	static_assert( std::is_invocable_v<decltype( lf ), int> and not std::is_invocable_v<decltype( lp ), std::string> );
	auto const lt = DAW_LIFT( thief );
	auto moved = std::string( b );
	VF_EQ( c, "lift forwards", lt( std::move( moved ), d ), b + "/" + d );
	std::vector<int> v( g.below( 20 ) );
	for( auto &e : v )
		e = static_cast<int>( g.range( -9, 9 ) );
	std::vector<std::string> s1, s2;
	std::transform( v.begin( ), v.end( ), std::back_inserter( s1 ), DAW_LIFT( std::to_string ) );
	for( auto e : v )
		s2.push_back( std::to_string( e ) );
	VF_EQ( c, "lift overload set", s1 == s2, true );

	c.op( "logic" );
	auto m = g.below( 32 );
	int seen = 0;
	auto bit = [&]( int i ) {
		++seen;
		return ( m >> i & 1 ) != 0;
	};
	VF_EQ( c, "nsc_and", daw::nsc_and( bit( 0 ), bit( 1 ), bit( 2 ), bit( 3 ), bit( 4 ) ), m == 31 );
	VF_EQ( c, "nsc_or", daw::nsc_or( bit( 0 ), bit( 1 ), bit( 2 ), bit( 3 ), bit( 4 ) ), m != 0 );
	VF_EQ( c, "no short circuit", seen, 10 );
	VF_EQ( c, "nsc_and one", daw::nsc_and( bit( 0 ) ), ( m & 1 ) != 0 );
	VF_EQ( c, "nsc_or one", daw::nsc_or( bit( 1 ) ), ( m & 2 ) != 0 );
	auto i1 = g.edgy<int>( );
	auto i2 = g.edgy<int>( );
	VF_EQ( c, "nsc_and of integers", daw::nsc_and( i1, i2 ), i1 and i2 );
	VF_EQ( c, "nsc_or of integers", daw::nsc_or( i1, i2 ), i1 or i2 );
	VF_EQ( c, "nsc_and of mixed types", daw::nsc_and( i1, &x, 2.5 ), i1 != 0 );
	VF_EQ( c, "nsc_or of mixed types", daw::nsc_or( i1, static_cast<int *>( nullptr ), 0.0 ), i1 != 0 );

	c.op( "monadic_ptr" );
	int *p = g.coin( ) ? &x : nullptr;
	int hits = 0;
	auto r1 = daw::monadic_ptr::and_then( p, [&]( int *q ) { ++hits; return *q + 41; } );
	VF_EQ( c, "and_then", r1, p ? x + 41 : 0 );
	VF_EQ( c, "and_then calls", hits, p ? 1 : 0 );
	int fallback = 8;
	hits = 0;
	auto r2 = daw::monadic_ptr::or_else( p, [&] { ++hits; return &fallback; } );
	VF_EQ( c, "or_else", r2, p ? p : &fallback );
	VF_EQ( c, "or_else calls", hits, p ? 0 : 1 );
	VF_EQ( c, "transform", daw::monadic_ptr::transform( p, [&]( int *q ) { return q == p ? 5 : 6; } ), 5 );
	std::unique_ptr<int> up = g.coin( ) ? std::make_unique<int>( a ) : nullptr;
	auto const had = static_cast<bool>( up );
	auto up2 = daw::monadic_ptr::or_else( std::move( up ), [] { return std::make_unique<int>( 77 ); } );
	VF_EQ( c, "or_else of an owner", *up2, had ? a : 77 );
	auto up3 = daw::monadic_ptr::and_then( std::move( up2 ), []( std::unique_ptr<int> q ) { ++*q; return q; } );
	VF_EQ( c, "and_then of an owner", *up3, ( had ? a : 77 ) + 1 );
	c.nontrivial( vf::mix( static_cast<uint64_t>( m ), b.size( ) * 41 + d.size( ) ) );
	c.count( "calls", static_cast<uint64_t>( log.size( ) ) );
}

// ---------------------------------------------------------- holding a value
inline constexpr auto opt_width = DAW_MAKE_NAMED_OPTION( int, width, 5 );
inline constexpr auto opt_height = DAW_MAKE_NAMED_OPTION( int, height, 7 );
inline constexpr auto opt_scale = DAW_MAKE_NAMED_OPTION( double, scale, 1.5 );
inline auto const opt_name = DAW_MAKE_NAMED_OPTION( std::string, name, "the default name of this option" );
inline auto const opt_owner = DAW_MAKE_NAMED_UNIQUE_OPTION( std::unique_ptr<int>, owner, nullptr );

template<typename... O>
static std::string opts( O &&...o ) {
	// every option is asked of the same arguments
	std::ostringstream os;
	os << daw::nparam::get_opt( opt_width, o... ) << '|' << daw::nparam::get_opt( opt_height, o... ) << '|'
	   << daw::nparam::get_opt( opt_scale, o... ) << '|' << daw::nparam::get_opt( opt_name, o... );
	return os.str( );
}

struct Shape : daw::virtual_base<Shape> {
	int *cnt;
	explicit Shape( int *p ) : cnt( p ) {}
	virtual int area( ) const { return 1; }
};
struct Square : Shape {
	std::string pad = "long enough to be allocated on the heap";
	int side;
	Square( int *p, int s ) : Shape( p ), side( s ) {}
	~Square( ) override { ++*cnt; }
	int area( ) const override { return side * side; }
};
struct Unique : daw::move_only_base<Unique> {
	std::string s;
};

VF_FAMILY( holders, 700, 20000 ) {
	auto &g = c.rng;
	vf::LedgerScope led;
	{
		c.op( "mutable_capture" );
		auto s = text( g, 0, 60 );
		auto orig = s;
		auto model = s;
		daw::mutable_capture<std::string> m = g.coin( ) ? daw::mutable_capture<std::string>( std::as_const( s ) ) : daw::mutable_capture<std::string>( s );
		VF_EQ( c, "capturing an lvalue copies", s, orig );
		auto const fn = [m = std::move( m )]( int what, std::string const &x ) -> std::string {
			switch( what ) {
			case 0: m.get( ) += x; return m.get( );
			case 1: *m += x; return *m;
			case 2: m->append( x ); return *m.ptr( );
			case 3: { std::string &r = m; r += x; return r; }
			default: { auto r = m.move_out( ); m.get( ) = x; return r; }
			}
		};
		for( int i = 0, n = static_cast<int>( g.range( 1, 8 ) ); i < n; ++i ) {
			auto x = text( g );
			auto w = static_cast<int>( g.below( 5 ) );
			auto r = fn( w, x );
			if( w < 4 ) {
				model += x;
				VF_EQ( c, "captured value after a change", r, model );
			} else {
				VF_EQ( c, "value moved out", r, model );
				model = x;
			}
		}
		daw::mutable_capture mo( vf::MoveOnly( 5 ) );
		VF_EQ( c, "address", static_cast<void const *>( mo.ptr( ) ), static_cast<void const *>( &mo.get( ) ) );
		vf::MoveOnly out = *std::move( mo );
		VF_EQ( c, "rvalue dereference moves", out.get( ), 5 );
		VF_EQ( c, "rvalue dereference leaves", mo->get( ), -1 );
		mo.get( ) = vf::MoveOnly( 6 );
		vf::MoveOnly out2 = std::move( mo );
		VF_EQ( c, "rvalue conversion moves", out2.get( ), 6 );
		VF_EQ( c, "rvalue conversion leaves", mo->get( ), -1 );
		daw::mutable_capture tr( vf::Tracked( 4 ) );
		auto tr2 = tr;
		tr.get( ) = vf::Tracked( 9 );
		VF_EQ( c, "copies are independent", tr2.get( ).get( ), 4 );
	}
	{
		c.op( "move_only" );
		using M = daw::move_only<vf::Tracked>;
		static_assert( not std::is_copy_constructible_v<M> and not std::is_copy_assignable_v<M> );
		static_assert( std::is_nothrow_move_constructible_v<M> and std::is_nothrow_move_assignable_v<M> );
		static_assert( not std::is_copy_constructible_v<Unique> and not std::is_copy_assignable_v<Unique> );
		static_assert( std::is_move_constructible_v<Unique> and std::is_move_assignable_v<Unique> );
		static_assert( not std::is_copy_constructible_v<daw::move_only<void>> );
		auto a = static_cast<int>( g.range( 0, 3 ) ), b = static_cast<int>( g.range( 0, 3 ) );
		vf::Tracked src( a );
		M x( src );
		M y( vf::Tracked{ b } );
		VF_EQ( c, "source kept", src.get( ), a );
		VF_EQ( c, "move_only ==", x == y, a == b );
		VF_EQ( c, "move_only !=", x != y, a != b );
		VF_EQ( c, "move_only <", x < y, a < b );
		VF_EQ( c, "move_only >=", x >= y, a >= b );
		VF_EQ( c, "move_only <=>", ( x <=> y ) == ( a <=> b ), true );
		M z = std::move( x );
		VF_EQ( c, "moved value", z->get( ), a );
		VF_EQ( c, "moved-from", x.get( ).get( ), -1 );
		x = std::move( y );
		VF_EQ( c, "assigned value", std::as_const( x ).get( ).get( ), b );
		VF_EQ( c, "assigned from", std::as_const( y )->get( ), -1 );
		static_cast<vf::Tracked &>( x ) = vf::Tracked( 8 );
		VF_EQ( c, "conversion is the value", static_cast<vf::Tracked const &>( std::as_const( x ) ).get( ), 8 );
		VF_EQ( c, "address", &x.get( ) == &static_cast<vf::Tracked &>( x ) and x.operator->( ) == &x.get( ), true );
		Unique u{ { }, text( g, 20, 40 ) };
		auto us = u.s;
		Unique u2 = std::move( u );
		VF_EQ( c, "derived from move_only_base", u2.s, us );
		daw::move_only<double> nan( std::numeric_limits<double>::quiet_NaN( ) );
		VF_EQ( c, "partial order kept", ( nan <=> nan ) == std::partial_ordering::unordered, true );
	}
	{
		c.op( "virtual_base" );
		int dtor = 0;
		auto s = static_cast<int>( g.range( 1, 50 ) );
		std::unique_ptr<Shape> p = std::make_unique<Square>( &dtor, s );
		VF_EQ( c, "virtual call", p->area( ), s * s );
		auto cp = static_cast<Square &>( *p );
		auto mv = std::move( cp );
		cp = mv;
		VF_EQ( c, "copies and moves", cp.area( ) + mv.area( ), 2 * s * s );
		p.reset( );
		VF_EQ( c, "destroyed through the base", dtor, 1 );
	}
	{
		c.op( "named parameters" );
		auto w = static_cast<int>( g.range( -99, 99 ) ), h = static_cast<int>( g.range( -99, 99 ) );
		auto sc = static_cast<double>( g.range( -99, 99 ) ) / 4;
		auto nm = text( g, 0, 40 );
		auto want = [&]( bool pw, bool ph, bool ps, bool pn ) {
			std::ostringstream os;
			os << ( pw ? w : 5 ) << '|' << ( ph ? h : 7 ) << '|' << ( ps ? sc : 1.5 ) << '|'
			   << ( pn ? nm : std::string( "the default name of this option" ) );
			return os.str( );
		};
		auto const W = opt_width = w;
		auto const H = opt_height = h;
		auto const S = opt_scale = sc;
		auto const N = opt_name = nm;
		VF_EQ( c, "options {}", opts( ), want( 0, 0, 0, 0 ) );
		VF_EQ( c, "options {w}", opts( W ), want( 1, 0, 0, 0 ) );
		VF_EQ( c, "options {n}", opts( N ), want( 0, 0, 0, 1 ) );
		VF_EQ( c, "options {h,w}", opts( H, W ), want( 1, 1, 0, 0 ) );
		VF_EQ( c, "options {w,h}", opts( W, H ), want( 1, 1, 0, 0 ) );
		VF_EQ( c, "options {s,n}", opts( S, N ), want( 0, 0, 1, 1 ) );
		VF_EQ( c, "options {n,h,s}", opts( N, H, S ), want( 0, 1, 1, 1 ) );
		VF_EQ( c, "options {s,w,n}", opts( S, W, N ), want( 1, 0, 1, 1 ) );
		VF_EQ( c, "options {w,h,s,n}", opts( W, H, S, N ), want( 1, 1, 1, 1 ) );
		VF_EQ( c, "options {n,s,h,w}", opts( N, S, H, W ), want( 1, 1, 1, 1 ) );
		VF_EQ( c, "options {h,n,w,s}", opts( H, N, W, S ), want( 1, 1, 1, 1 ) );
		VF_EQ( c, "options {temporaries}", opts( opt_name = std::string( nm ), opt_width = w ), want( 1, 0, 0, 1 ) );
		VF_EQ( c, "arguments are not consumed", N.value, nm );
		VF_EQ( c, "defaults are not consumed", opt_name.value, std::string( "the default name of this option" ) );
		VF_EQ( c, "option order", ( opt_width = w ) < ( opt_width = h ), w < h );
		VF_EQ( c, "option equality", ( opt_width = w ) == ( opt_width = h ), w == h );
		using Owner = std::remove_cvref_t<decltype( opt_owner )>;
		auto own = daw::nparam::get_opt( Owner{ }, opt_height = h, opt_owner = std::make_unique<int>( w ) );
		VF_EQ( c, "unique option", own ? *own : -1000, w );
		auto own2 = daw::nparam::get_opt( Owner{ std::make_unique<int>( h ) }, opt_width = w );
		VF_EQ( c, "unique option default", own2 ? *own2 : -1000, h );
	}
	{
		c.op( "exchange" );
		auto s = text( g ), t = text( g );
		auto os = s;
		VF_EQ( c, "exchange returns the old value", daw::exchange( s, t ), os );
		VF_EQ( c, "exchange stores the new value", s, t );
		auto up = std::make_unique<int>( 4 );
		auto old = daw::exchange( up, nullptr );
		VF_EQ( c, "exchange of an owner", not up and *old == 4, true );
	}
	c.nontrivial( g.next( ) );
	led.check_empty( c, "object lifetimes" );
}

// -------------------------------------------------------------------- swaps
struct MemSwap {
	std::string v;
	int swaps = 0;
	MemSwap( std::string s ) : v( std::move( s ) ) {}
	void swap( MemSwap &o ) noexcept { v.swap( o.v ); }
};
struct AdlSwap {
	std::string v;
	AdlSwap( std::string s ) : v( std::move( s ) ) {}
	AdlSwap( AdlSwap const & ) = delete;
	AdlSwap &operator=( AdlSwap const & ) = delete;
	friend void swap( AdlSwap &a, AdlSwap &b ) { a.v.swap( b.v ); }
};
struct Pod {
	int a;
	char b[5];
	double d;
	friend bool operator==( Pod const &x, Pod const &y ) { return x.a == y.a and std::memcmp( x.b, y.b, 5 ) == 0 and x.d == y.d; }
};
template<typename T>
static void swap_pair( vf::Case &c, char const *what, T a, T b, auto val ) {
	auto va = val( a ), vb = val( b );
	daw::cswap( a, b );
	VF_TRUE( c, what, val( a ) == vb and val( b ) == va );
	daw::cswap( a, a );
	VF_TRUE( c, what, val( a ) == vb );
	daw::cswap( b, a );
	VF_TRUE( c, what, val( a ) == va and val( b ) == vb );
}

VF_FAMILY( swaps, 700, 20000 ) {
	auto &g = c.rng;
	vf::LedgerScope led;
	c.op( "cswap" );
	auto id = []( auto const &x ) { return x; };
	auto get = []( auto const &x ) { return x.get( ); };
	auto i = g.edgy<int>( ), j = g.edgy<int>( );
	auto s = text( g, 0, 60 ), t = text( g, 0, 60 );
	swap_pair( c, "cswap int", i, j, id );
	swap_pair( c, "cswap string", s, t, id );
	swap_pair( c, "cswap pointer", static_cast<int const *>( &i ), static_cast<int const *>( nullptr ), id );
	swap_pair( c, "cswap trivial struct", Pod{ i, { 'a', 'b' }, 1.5 }, Pod{ j, { 'c' }, -2.5 }, id );
	swap_pair( c, "cswap vector", std::vector<std::string>( g.below( 5 ), s ), std::vector<std::string>( g.below( 5 ), t ), id );
	swap_pair( c, "cswap tracked", vf::Tracked( i ), vf::Tracked( j ), get );
	swap_pair( c, "cswap throwing move", vf::ThrowMove( i ), vf::ThrowMove( j ), get );
	{
		vf::MoveOnly a( i ), b( j );
		daw::cswap( a, b );
		VF_EQ( c, "cswap move only", a.get( ) == j and b.get( ) == i, true );
	}
	{
		MemSwap a( s ), b( t );
		daw::cswap( a, b );
		VF_EQ( c, "cswap member", a.v == t and b.v == s, true );
		AdlSwap x( s ), y( t );
		daw::cswap( x, y );
		VF_EQ( c, "cswap adl", x.v == t and y.v == s, true );
		std::unique_ptr<int> p = std::make_unique<int>( i ), q;
		daw::cswap( p, q );
		VF_EQ( c, "cswap owner", not p and q and *q == i, true );
		daw::cswap( q, q );
		VF_EQ( c, "cswap owner with itself", q and *q == i, true );
		std::array<std::string, 3> aa{ s, t, "x" }, bb{ t, "y", s };
		daw::cswap( aa, bb );
		VF_EQ( c, "cswap array", ( aa == std::array<std::string, 3>{ t, "y", s } and bb == std::array<std::string, 3>{ s, t, "x" } ), true );
		std::array<vf::MoveOnly, 2> ma{ vf::MoveOnly( 1 ), vf::MoveOnly( 2 ) }, mb{ vf::MoveOnly( 3 ), vf::MoveOnly( 4 ) };
		daw::cswap( ma, mb );
		VF_EQ( c, "cswap array of move only", ma[0].get( ) * 1000 + ma[1].get( ) * 100 + mb[0].get( ) * 10 + mb[1].get( ), 3412 );
	}
	c.op( "swap_ranges" );
	auto n = g.below( 12 ), extra = g.below( 4 );
	std::vector<vf::Tracked> va;
	std::list<vf::Tracked> lb;
	std::vector<int> ma, mb;
	for( size_t k = 0; k < n; ++k ) {
		va.emplace_back( static_cast<int>( k ) );
		ma.push_back( static_cast<int>( k ) );
	}
	for( size_t k = 0; k < n + extra; ++k ) {
		lb.emplace_back( static_cast<int>( 100 + k ) );
		mb.push_back( static_cast<int>( 100 + k ) );
	}
	auto f = g.below( n + 1 );
	auto l = f + g.below( n - f + 1 );
	auto o = g.below( n + extra - ( l - f ) + 1 );
	auto it = daw::swap_ranges( va.begin( ) + static_cast<std::ptrdiff_t>( f ), va.begin( ) + static_cast<std::ptrdiff_t>( l ), std::next( lb.begin( ), static_cast<std::ptrdiff_t>( o ) ) );
	std::swap_ranges( ma.begin( ) + static_cast<std::ptrdiff_t>( f ), ma.begin( ) + static_cast<std::ptrdiff_t>( l ), mb.begin( ) + static_cast<std::ptrdiff_t>( o ) );
	VF_EQ( c, "swap_ranges result", static_cast<size_t>( std::distance( lb.begin( ), it ) ), o + l - f );
	auto same = [&]( auto const &x, auto const &y ) {
		return std::equal( x.begin( ), x.end( ), y.begin( ), y.end( ), []( auto const &p, int q ) { return p.get( ) == q; } );
	};
	VF_EQ( c, "swap_ranges first", same( va, ma ), true );
	VF_EQ( c, "swap_ranges second", same( lb, mb ), true );
	if( n > 0 ) {
		c.op( "iter_swap" );
		auto x = g.below( n ), y = g.below( n + extra ), z = g.below( n );
		daw::iter_swap( va.begin( ) + static_cast<std::ptrdiff_t>( x ), std::next( lb.begin( ), static_cast<std::ptrdiff_t>( y ) ) );
		std::swap( ma[x], mb[y] );
		if( x != z ) {
			daw::iter_swap( va.begin( ) + static_cast<std::ptrdiff_t>( x ), va.begin( ) + static_cast<std::ptrdiff_t>( z ) );
			std::swap( ma[x], ma[z] );
		}
		VF_EQ( c, "iter_swap first", same( va, ma ), true );
		VF_EQ( c, "iter_swap second", same( lb, mb ), true );
	}
	c.nontrivial( vf::mix( n * 64 + f, l * 64 + o ) );
	va.clear( );
	lb.clear( );
	led.check_empty( c, "object lifetimes" );
}

// ------------------------------------------------------------------ storage
struct Agg {
	int a;
	std::string b;
	vf::Tracked t;
};
struct alignas( 64 ) Big {
	char c[70];
};
struct NotAgg {
	std::string s;
	explicit NotAgg( std::string x, int n = 1 ) {
		for( int i = 0; i < n; ++i )
			s += x;
	}
};
struct Narrow {
	char c;
	short s;
	char d[3];
	int i;
	double e;
	char f;
	std::byte g[7];
};

VF_FAMILY( storage, 700, 20000 ) {
	auto &g = c.rng;
	vf::LedgerScope led;
	{
		c.op( "uninitialized_storage" );
		daw::uninitialized_storage<vf::Tracked> st;
		VF_EQ( c, "nothing constructed", led.l.ctor, decltype( led.l.ctor ){ 0 } );
		auto const &cst = st;
		for( int k = 0, n = static_cast<int>( g.range( 1, 4 ) ); k < n; ++k ) {
			auto v = static_cast<int>( g.range( 0, 1000 ) );
			st.construct( v );
			VF_EQ( c, "constructed value", st.ref( ).get( ), v );
			VF_EQ( c, "const access", cst.cref( ).get( ) + ( *cst ).get( ) + cst->get( ) + cst.ptr( )->get( ) + st.cptr( )->get( ), 5 * v );
			VF_EQ( c, "address", static_cast<void const *>( st.ptr( ) ) == static_cast<void const *>( st.raw_data( ) ) and static_cast<void const *>( cst.raw_data( ) ) == static_cast<void const *>( cst.ptr( ) ) and &*st == st.ptr( ) and &st.ref( ) == st.operator->( ), true );
			VF_EQ( c, "inside the object", static_cast<void const *>( st.ptr( ) ) >= &st and static_cast<void const *>( st.ptr( ) + 1 ) <= &st + 1, true );
			st.ref( ) = vf::Tracked( v + 1 );
			VF_EQ( c, "changed value", st->get( ), v + 1 );
			auto out = st.rref( );
			VF_EQ( c, "rref moves the value out", out.get( ), v + 1 );
			VF_EQ( c, "rref leaves a moved-from value", st->get( ), -1 );
			st.destruct( );
		}
		daw::uninitialized_storage<Agg> ag;
		auto s = text( g, 20, 50 );
		ag.construct( 4, s, vf::Tracked( 6 ) );
		VF_EQ( c, "aggregate", ag->a + ag->t.get( ), 10 );
		VF_EQ( c, "aggregate text", ag->b, s );
		ag.destruct( );
		daw::uninitialized_storage<std::vector<int>> sv;
		sv.construct( 3u, 9 );
		VF_EQ( c, "constructed with parentheses", *sv == std::vector<int>( 3, 9 ), true );
		sv.destruct( );
		static_assert( alignof( daw::uninitialized_storage<Big> ) >= 64 );
		auto big = std::make_unique<daw::uninitialized_storage<Big>[]>( 2 );
		VF_EQ( c, "alignment", reinterpret_cast<std::uintptr_t>( big[1].ptr( ) ) % 64, std::uintptr_t{ 0 } );
		static_assert( not std::is_copy_constructible_v<daw::uninitialized_storage<vf::MoveOnly>> );
	}
	{
		c.op( "construct_a" );
		auto s = text( g, 1, 40 );
		auto n = static_cast<int>( g.range( 0, 9 ) );
		VF_EQ( c, "construct_a vector", daw::construct_a<std::vector<int>>( static_cast<size_t>( n ), 7 ) == std::vector<int>( static_cast<size_t>( n ), 7 ), true );
		VF_EQ( c, "construct_a string", daw::construct_a<std::string>( static_cast<size_t>( n ), 'q' ), std::string( static_cast<size_t>( n ), 'q' ) );
		auto src = s;
		VF_EQ( c, "construct_a moves", daw::construct_a<std::string>( std::move( src ) ), s );
		VF_EQ( c, "construct_a explicit", daw::construct_a<NotAgg>( s, n ).s, NotAgg( s, n ).s );
		auto a = daw::construct_a<Agg>( n, s, vf::Tracked( 3 ) );
		VF_EQ( c, "construct_a aggregate", a.a == n and a.b == s and a.t.get( ) == 3, true );
		auto a2 = daw::construct_a<daw::use_aggregate_construction<std::vector<int>>>;
		(void)a2;
		VF_EQ( c, "construct_a value initializes", daw::construct_a<int>( ), 0 );
		VF_EQ( c, "construct_a owner", *daw::construct_a<std::unique_ptr<int>>( new int( n ) ), n );
		static_assert( daw::can_construct_a_v<NotAgg, std::string, int> and not daw::can_construct_a_v<NotAgg, int *> );
		static_assert( daw::can_construct_a_v<Agg, int, char const *, vf::Tracked> );
		static_assert( noexcept( daw::construct_a<int>( 5 ) ) and not noexcept( daw::construct_a<std::string>( "x" ) ) );
		c.op( "construct_at" );
		alignas( Agg ) std::byte buf[sizeof( Agg )];
		auto *p = daw::construct_at<Agg>( buf, n, s, vf::Tracked( 5 ) );
		VF_EQ( c, "construct_at place", static_cast<void *>( p ) == static_cast<void *>( buf ), true );
		VF_EQ( c, "construct_at value", p->a == n and p->b == s and p->t.get( ) == 5, true );
		std::destroy_at( p );
		alignas( vf::MoveOnly ) std::byte buf2[sizeof( vf::MoveOnly )];
		auto *q = daw::construct_at<vf::MoveOnly>( buf2, vf::MoveOnly( n ) );
		VF_EQ( c, "construct_at move", q->get( ), n );
		std::destroy_at( q );
	}
	{
		c.op( "offset_of" );
		VF_EQ( c, "offset_of c", daw::offset_of( &Narrow::c ), offsetof( Narrow, c ) );
		VF_EQ( c, "offset_of s", daw::offset_of( &Narrow::s ), offsetof( Narrow, s ) );
		VF_EQ( c, "offset_of d", daw::offset_of( &Narrow::d ), offsetof( Narrow, d ) );
		VF_EQ( c, "offset_of i", daw::offset_of( &Narrow::i ), offsetof( Narrow, i ) );
		VF_EQ( c, "offset_of e", daw::offset_of( &Narrow::e ), offsetof( Narrow, e ) );
		VF_EQ( c, "offset_of f", daw::offset_of( &Narrow::f ), offsetof( Narrow, f ) );
		VF_EQ( c, "offset_of g", daw::offset_of( &Narrow::g ), offsetof( Narrow, g ) );
		c.op( "fixed_cast" );
		daw::fixed_cast<unsigned char, int> fc;
		daw::fixed_cast<unsigned char, daw::OnlyCheckToType> fo;
		int v = g.edgy<int>( );
		auto *bp = fc.operator( )<unsigned char>( &v );
		auto &br = fc.operator( )<unsigned char>( v );
		VF_EQ( c, "fixed_cast address", static_cast<void *>( bp ) == &v and static_cast<void *>( &br ) == &v, true );
		double dd = 2.5;
		VF_EQ( c, "fixed_cast only to", static_cast<void *>( fo.operator( )<unsigned char>( &dd ) ) == &dd, true );
		VF_EQ( c, "fixed_cast bytes", std::memcmp( bp, &v, sizeof v ), 0 );
		c.op( "data_end" );
		std::vector<int> dv( g.below( 9 ) );
		std::string ds = text( g );
		VF_EQ( c, "data_end vector", daw::data_end( dv ) - dv.data( ), static_cast<std::ptrdiff_t>( dv.size( ) ) );
		VF_EQ( c, "data_end string", daw::data_end( std::as_const( ds ) ) - ds.data( ), static_cast<std::ptrdiff_t>( ds.size( ) ) );
	}
	{
		c.op( "forward_like" );
		std::string s = "a", d;
		std::string const cs = "c";
		static_assert( std::is_same_v<decltype( daw::forward_like<int &>( s ) ), std::string &> );
		static_assert( std::is_same_v<decltype( daw::forward_like<int const &>( s ) ), std::string const &> );
		static_assert( std::is_same_v<decltype( daw::forward_like<int>( s ) ), std::string &&> );
		static_assert( std::is_same_v<decltype( daw::forward_like<int const>( s ) ), std::string const &&> );
		static_assert( std::is_same_v<decltype( daw::forward_like<int &>( cs ) ), std::string const &> );
		static_assert( std::is_same_v<decltype( daw::forward_like<int>( cs ) ), std::string const &&> );
		static_assert( std::is_same_v<decltype( daw::forward_like<int &>( std::move( s ) ) ), std::string &> );
		static_assert( std::is_same_v<daw::forward_like_t<int, std::string>, std::string &&> );
		static_assert( std::is_same_v<daw::forward_like_t<int &, std::string>, std::string &> );
		static_assert( std::is_same_v<daw::forward_like_t<int const &, std::string>, std::string const &> );
		static_assert( std::is_same_v<daw::forward_like_t<int const, std::string &>, std::string const &&> );
		VF_EQ( c, "forward_like is the object", &daw::forward_like<int &>( s ) == &s and &daw::forward_like<int const &>( s ) == &s, true );
		d = daw::forward_like<int &>( s );
		VF_EQ( c, "forward_like lvalue copies", s, std::string( "a" ) );
		static_assert( daw::pack_size_v<std::tuple<int, char, int>> == 3 and daw::pack_size_v<std::tuple<>> == 0 );
		static_assert( std::is_same_v<daw::pack_element_t<2, std::tuple<int, char, double>>, double> );
		static_assert( std::is_same_v<daw::pack_element_t<0, std::pair<int, char>>, int> );
	}
	c.nontrivial( g.next( ) );
	led.check_empty( c, "object lifetimes" );
}

// ------------------------------------------------------- bits and orderings
struct Ver {
	int hi, lo;
	int compare( Ver const &o ) const {
		if( hi != o.hi )
			return hi < o.hi ? std::numeric_limits<int>::min( ) : std::numeric_limits<int>::max( );
		return lo < o.lo ? -1 : lo > o.lo ? 1 : 0;
	}
	create_friend_comparison_operators( Ver )
};
namespace free_ops {
	struct Name {
		std::string s;
		int compare( Name const &o ) const { return s.compare( o.s ); }
	};
	inline create_comparison_operators( Name )
} // namespace free_ops

template<typename V>
static void six( vf::Case &c, char const *what, V const &a, V const &b, int sign ) {
	VF_EQ( c, what, a == b, sign == 0 );
	VF_EQ( c, what, a != b, sign != 0 );
	VF_EQ( c, what, a < b, sign < 0 );
	VF_EQ( c, what, a > b, sign > 0 );
	VF_EQ( c, what, a <= b, sign <= 0 );
	VF_EQ( c, what, a >= b, sign >= 0 );
}

VF_FAMILY( values, 1200, 40000 ) {
	auto &g = c.rng;
	c.op( "comparison operators" );
	Ver a{ static_cast<int>( g.range( 0, 2 ) ), static_cast<int>( g.range( 0, 2 ) ) };
	Ver b{ static_cast<int>( g.range( 0, 2 ) ), static_cast<int>( g.range( 0, 2 ) ) };
	auto key = []( Ver v ) { return v.hi * 10 + v.lo; };
	six( c, "friend comparison operators", a, b, key( a ) < key( b ) ? -1 : key( a ) > key( b ) );
	free_ops::Name x{ text( g, 0, 2 ) }, y{ text( g, 0, 2 ) };
	six( c, "free comparison operators", x, y, x.s < y.s ? -1 : x.s > y.s );

	c.op( "orderings" );
	auto i = g.edgy<int>( ), j = g.coin( ) ? i : g.edgy<int>( );
	auto so = i <=> j;
	auto se = daw::order_to_enum( so );
	VF_EQ( c, "strong order", se == daw::strong_ordering::less, so < 0 );
	VF_EQ( c, "strong order", se == daw::strong_ordering::greater, so > 0 );
	VF_EQ( c, "strong order", se == daw::strong_ordering::equal, so == 0 );
	VF_EQ( c, "strong order", se == daw::strong_ordering::equivalent, so == 0 );
	VF_EQ( c, "strong order equal", daw::equal_or_equivalent( so ), i == j );
	VF_EQ( c, "strong enum equal", daw::equal_or_equivalent( se ), i == j );
	VF_EQ( c, "strong constant", so == daw::equal_or_equivalent_v<std::strong_ordering>, i == j );
	std::weak_ordering wo = so;
	auto we = daw::order_to_enum( wo );
	VF_EQ( c, "weak order", we == daw::weak_ordering::less, wo < 0 );
	VF_EQ( c, "weak order", we == daw::weak_ordering::greater, wo > 0 );
	VF_EQ( c, "weak order", we == daw::weak_ordering::equivalent, wo == 0 );
	VF_EQ( c, "weak order equal", daw::equal_or_equivalent( wo ) and daw::equal_or_equivalent( we ), i == j );
	auto dbl = [&] {
		static constexpr double some[] = { 0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1e308, std::numeric_limits<double>::infinity( ), -std::numeric_limits<double>::infinity( ), std::numeric_limits<double>::quiet_NaN( ) };
		return some[g.below( std::size( some ) )];
	};
	auto d = dbl( ), e = g.coin( ) ? d : dbl( );
	if( g.chance( 1, 4 ) )
		e = std::numeric_limits<double>::quiet_NaN( );
	auto po = d <=> e;
	auto pe = daw::order_to_enum( po );
	VF_EQ( c, "partial order", pe == daw::partial_ordering::less, d < e );
	VF_EQ( c, "partial order", pe == daw::partial_ordering::greater, d > e );
	VF_EQ( c, "partial order", pe == daw::partial_ordering::equivalent, d == e );
	VF_EQ( c, "partial order", pe == daw::partial_ordering::unordered, ( po == std::partial_ordering::unordered ) );
	VF_EQ( c, "partial order equal", daw::equal_or_equivalent( po ), d == e );
	VF_EQ( c, "partial enum equal", daw::equal_or_equivalent( pe ), d == e );
	VF_EQ( c, "partial constant", po == daw::equal_or_equivalent_v<std::partial_ordering>, d == e );

	c.op( "bit_cast over ranges" );
	auto n = g.below( 20 );
	std::vector<std::uint32_t> bits( n );
	for( auto &v : bits )
		v = g.chance( 1, 4 ) ? 0x7fc00000u | static_cast<std::uint32_t>( g.below( 1 << 20 ) ) | ( g.coin( ) ? 0x80000000u : 0u ) : static_cast<std::uint32_t>( g.next( ) );
	std::list<std::uint32_t> src( bits.begin( ), bits.end( ) );
	vf::Exact<float> dst( std::vector<float>( n ).begin( ), n );
	daw::bit_cast_copy( src.begin( ), src.end( ), dst.data( ) );
	VF_EQ( c, "bit_cast_copy", n == 0 ? 0 : std::memcmp( dst.data( ), bits.data( ), n * 4 ), 0 );
	std::vector<std::int32_t> back;
	daw::bit_cast_copy<std::int32_t>( dst.data( ), dst.data( ) + n, std::back_inserter( back ) );
	VF_EQ( c, "bit_cast_copy named type", back.size( ), n );
	VF_EQ( c, "bit_cast_copy values", n == 0 ? 0 : std::memcmp( back.data( ), bits.data( ), n * 4 ), 0 );
	std::vector<std::uint32_t> seen;
	daw::bit_cast_for_each<std::uint32_t>( dst.data( ), dst.data( ) + n, [&]( std::uint32_t u ) { seen.push_back( u ); } );
	VF_EQ( c, "bit_cast_for_each", seen == bits, true );
	std::vector<float> out( n + 1, 123.0f );
	daw::bit_cast_transform<std::uint32_t>( dst.data( ), dst.data( ) + n, out.begin( ), []( std::uint32_t u ) { return u ^ 0x80000001u; } );
	bool ok = out[n] == 123.0f;
	for( size_t k = 0; k < n; ++k )
		ok = ok and std::bit_cast<std::uint32_t>( out[k] ) == ( bits[k] ^ 0x80000001u );
	VF_EQ( c, "bit_cast_transform", ok, true );
	std::vector<double> wide;
	daw::bit_cast_transform<std::uint32_t, double>( dst.data( ), dst.data( ) + n, std::back_inserter( wide ), []( std::uint32_t u ) { return std::uint64_t{ u } << 32 | u; } );
	ok = wide.size( ) == n;
	for( size_t k = 0; ok and k < n; ++k )
		ok = std::bit_cast<std::uint64_t>( wide[k] ) == ( std::uint64_t{ bits[k] } << 32 | bits[k] );
	VF_EQ( c, "bit_cast_transform to a named type", ok, true );

	c.op( "constants" );
	using namespace daw::literals;
	VF_EQ( c, "literal", 0_c + 7_c + 1234567890123_c + 999999999999999999_c, 7 + 1234567890123ull + 999999999999999999ull );
	static_assert( std::is_same_v<std::remove_cvref_t<decltype( 42_c )>, daw::constant<42ull>> );
	VF_EQ( c, "constant", daw::constant<-5>{ }( ) + static_cast<int>( daw::constant_v<9> ), 4 );
	enum class E8 : signed char { lo = -128, mid = 3, hi = 127 };
	static_assert( std::is_same_v<decltype( daw::to_underlying( E8::lo ) ), signed char> );
	VF_EQ( c, "to_underlying", daw::to_underlying( E8::lo ) + daw::to_underlying( E8::hi ) * 2, 126 );
	c.nontrivial( vf::mix( static_cast<uint64_t>( key( a ) * 40 + key( b ) ), n ) );
}
VF_MAIN( )
