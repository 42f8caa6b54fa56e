// C26: daw::tuple, tuple2, compressed_pair, fwd_pack and pack element access.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <daw/daw_tuple.h>
#include <daw/daw_tuple2.h>
#include <daw/compressed_pair.h>
#include <daw/daw_fwd_pack_apply.h>
#include <daw/daw_nth_pack_element.h>
#include <daw/daw_tuple_forward.h>

#include "vf.h"
#include "vf_types.h"

#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <utility>

namespace {
	using vf::MoveOnly;
	using vf::Tracked;
	struct Empty {
		friend bool operator==( Empty, Empty ) {
			return true;
		}
		friend bool operator!=( Empty, Empty ) {
			return false;
		}
	};
	struct EmptyFinal final {};
	struct EmptyFn {
		int operator( )( int a ) const {
			return a * 3;
		}
	};

	std::string text( vf::Case &c ) {
		std::string s( c.rng.below( 40 ), 'a' );
		for( auto &ch : s ) {
			ch = static_cast<char>( 'a' + c.rng.below( 26 ) );
		}
		return s;
	}

	VF_FAMILY( tuple_values, 3000, 40000 ) {
		int const a = c.rng.edgy<int>( );
		auto const s = text( c );
		int const t = static_cast<int>( c.rng.below( 1000 ) );
		double const d = static_cast<double>( c.rng.range( -50, 50 ) ) / 4;
		c.ctx( "values ", a, " '", s, "' ", t, " ", d );
		c.nontrivial( vf::mix( static_cast<std::uint64_t>( a ), s.size( ) ) );
		vf::LedgerScope led;
		{
			using T = daw::tuple<int, std::string, Tracked, Empty, double>;
			T x( a, s, Tracked( t ), Empty{ }, d );
			T const &cx = x;
			auto all = [&]( char const *label, auto const &v, int wa, std::string const &ws, int wt, double wd ) {
				VF_EQ( c, label, daw::get<0>( v ), wa );
				VF_EQ( c, label, daw::get<1>( v ), ws );
				VF_EQ( c, label, daw::get<2>( v ).get( ), wt );
				VF_EQ( c, label, daw::get<4>( v ), wd );
				VF_EQ( c, label, v.template get<0>( ), wa );
				VF_EQ( c, label, &v.template get<1>( ), &daw::get<1>( v ) );
			};
			all( "construct", cx, a, s, t, d );
			auto const copies = led.l.copy;
			VF_TRUE( c, "get lvalue identity", &daw::get<2>( x ) == &daw::get<2>( cx ) );
			VF_EQ( c, "get copies nothing", led.l.copy, copies );
			// copies are independent, equality is element-wise
			T y = x;
			T z( cx );
			all( "copy", y, a, s, t, d );
			VF_TRUE( c, "==", x == y );
			VF_TRUE( c, "!=", not( x != y ) );
			auto const which = c.rng.below( 4 );
			if( which == 0 ) {
				daw::get<0>( y ) ^= 1;
			} else if( which == 1 ) {
				daw::get<1>( y ) += "!";
			} else if( which == 2 ) {
				daw::get<2>( y ) = Tracked( t + 1 );
			} else {
				daw::get<4>( y ) += 1;
			}
			VF_TRUE( c, "== differs", not( x == y ) );
			VF_TRUE( c, "!= differs", x != y );
			all( "original after change of copy", x, a, s, t, d );
			y = x;
			all( "copy assign", y, a, s, t, d );
			daw::tuple<long long, std::string, Tracked, Empty, float> other( a, s, Tracked( t ), Empty{ }, static_cast<float>( d ) );
			VF_TRUE( c, "== other types", x == other );
			VF_TRUE( c, "!= other types", not( x != other ) );
			daw::tuple<int, std::string> shorter( a, s );
			VF_TRUE( c, "== other size", not( x == shorter ) );
			VF_TRUE( c, "!= other size", x != shorter );
			// moves
			auto const c2 = led.l.copy;
			T m = std::move( y );
			all( "move", m, a, s, t, d );
			z = std::move( m );
			all( "move assign", z, a, s, t, d );
			std::string const ms = daw::get<1>( std::move( z ) );
			VF_EQ( c, "get rvalue", ms, s );
			Tracked const mt = daw::get<2>( std::move( z ) );
			VF_EQ( c, "get rvalue tracked", mt.get( ), t );
			VF_EQ( c, "moves copy nothing", led.l.copy, c2 );
			// structured bindings
			auto &[b0, b1, b2, b3, b4] = x;
			b0 = 7;
			b1 = "seven";
			(void)b3;
			VF_EQ( c, "bindings", daw::get<0>( x ), 7 );
			VF_EQ( c, "bindings", daw::get<1>( x ), std::string( "seven" ) );
			VF_EQ( c, "bindings", b2.get( ), t );
			VF_EQ( c, "bindings", b4, d );
			c.op( "tuple values" );
		}
		led.check_empty( c, "tuple values" );
	}

	VF_FAMILY( tuple_refs_apply, 3000, 40000 ) {
		int a = c.rng.range( -1000, 1000 );
		int const a0 = a;
		std::string s = text( c );
		auto const s0 = s;
		c.nontrivial( vf::mix( static_cast<std::uint64_t>( a + 2000 ), s.size( ) ) );
		vf::LedgerScope led;
		{
			auto t = daw::tie( a, s );
			VF_TRUE( c, "tie refers", &daw::get<0>( t ) == &a and &daw::get<1>( t ) == &s );
			daw::get<0>( t ) += 5;
			VF_EQ( c, "tie writes", a, a0 + 5 );
			auto const ct = t;
			VF_TRUE( c, "tie copy refers", &daw::get<1>( ct ) == &s );
			VF_TRUE( c, "tie rvalue refers", &daw::get<0>( std::move( t ) ) == &a );

			daw::tuple<int &, int> mixed( a, 4 );
			daw::get<0>( mixed ) = a0;
			VF_EQ( c, "reference element", a, a0 );

			auto f = daw::forward_as_tuple( a, std::move( s ), Tracked( 4 ) );
			VF_TRUE( c, "forward lvalue", &daw::get<0>( f ) == &a );
			VF_TRUE( c, "forward rvalue", &daw::get<1>( f ) == &s );
			static_assert( std::is_same_v<decltype( daw::get<1>( std::move( f ) ) ), std::string &&> );
			static_assert( std::is_same_v<decltype( daw::get<0>( std::move( f ) ) ), int &> );
			std::string taken = daw::get<1>( std::move( f ) );
			VF_EQ( c, "forwarded move", taken, s0 );

			int q = 3;
			auto mk = daw::make_tuple( std::ref( q ), std::cref( taken ), 4, "lit", a );
			static_assert( std::is_same_v<std::tuple_element_t<0, decltype( mk )>, int &> );
			static_assert( std::is_same_v<std::tuple_element_t<3, decltype( mk )>, char const *> );
			static_assert( std::is_same_v<std::tuple_element_t<4, decltype( mk )>, int> );
			static_assert( std::tuple_size_v<decltype( mk )> == 5 );
			daw::get<0>( mk ) = 12;
			daw::get<4>( mk ) = 13;
			VF_EQ( c, "make_tuple ref", q, 12 );
			VF_EQ( c, "make_tuple decays", a, a0 );
			VF_TRUE( c, "make_tuple cref", &daw::get<1>( mk ) == &taken );

			// apply passes every element once, in order, with the tuple's value category
			daw::tuple<int, std::string, MoveOnly> ap( a0, s0, MoveOnly( 9 ) );
			auto const ctors = led.l.ctor + led.l.copy + led.l.move;
			int calls = 0;
			auto &&r = daw::apply(
			  [&]( int &i, std::string &str, MoveOnly &m ) -> int & {
				  ++calls;
				  VF_EQ( c, "apply arg", i, a0 );
				  VF_EQ( c, "apply arg", str, s0 );
				  VF_EQ( c, "apply arg", m.get( ), 9 );
				  return i;
			  },
			  ap );
			VF_TRUE( c, "apply result reference", &r == &daw::get<0>( ap ) );
			auto const &cap = ap;
			auto const n = daw::apply( [&]( int i, std::string const &str, MoveOnly const &m ) { ++calls; return i + static_cast<int>( str.size( ) ) + m.get( ); }, cap );
			VF_EQ( c, "apply const", n, a0 + static_cast<int>( s0.size( ) ) + 9 );
			VF_EQ( c, "apply constructs nothing", led.l.ctor + led.l.copy + led.l.move, ctors );
			auto const moved = daw::apply( [&]( int, std::string str, MoveOnly m ) { ++calls; VF_EQ( c, "apply moved", m.get( ), 9 ); return str; }, std::move( ap ) );
			VF_EQ( c, "apply moved", moved, s0 );
			VF_EQ( c, "apply moves out", daw::get<2>( ap ).get( ), -1 );
			VF_EQ( c, "apply calls once", calls, 3 );
			VF_EQ( c, "apply ()", daw::apply( [] { return 4; }, daw::tuple<>{ } ), 4 );

			// element kinds: equal types, empties, finals, default construction
			daw::tuple<Empty, Empty, EmptyFinal, int> e( Empty{ }, Empty{ }, EmptyFinal{ }, a0 );
			VF_EQ( c, "after empties", daw::get<3>( e ), a0 );
			daw::tuple<int, std::string> def{ };
			VF_EQ( c, "default", daw::get<0>( def ), 0 );
			VF_EQ( c, "default", daw::get<1>( def ), std::string( ) );
			daw::tuple one( s0 );
			auto two = one;
			VF_EQ( c, "one element", daw::get<0>( two ), s0 );
			c.op( "tuple references" );
		}
		led.check_empty( c, "tuple refs" );
	}

	VF_FAMILY( tuple2_values, 3000, 40000 ) {
		int a = c.rng.range( -1000, 1000 );
		auto const s = text( c );
		int const t = static_cast<int>( c.rng.below( 1000 ) );
		c.nontrivial( vf::mix( static_cast<std::uint64_t>( a + 2000 ), s.size( ) ) );
		vf::LedgerScope led;
		{
			daw::tuple2<int, std::string, Tracked> x{ a, s, Tracked( t ) };
			auto const &cx = x;
			VF_EQ( c, "tuple2 get", daw::get<0>( cx ), a );
			VF_EQ( c, "tuple2 get", daw::get<1>( cx ), s );
			VF_EQ( c, "tuple2 get", daw::get<2>( x ).get( ), t );
			VF_EQ( c, "tuple2 size", x.size( ), 3U );
			daw::get<1>( x ) += "x";
			VF_EQ( c, "tuple2 write", daw::get<1>( cx ), s + "x" );
			daw::get<1>( x ) = s;
			daw::tuple2<double, char> y{ 2.5, 'c' };
			daw::tuple2<> none{ };
			daw::tuple2<int &> ref{ a };
			auto const cat4 = daw::tuple2_cat( x, none, y, ref );
			static_assert( std::is_same_v<std::remove_const_t<decltype( cat4 )>, daw::tuple2<int, std::string, Tracked, double, char, int &>> );
			VF_EQ( c, "cat", daw::get<0>( cat4 ), a );
			VF_EQ( c, "cat", daw::get<1>( cat4 ), s );
			VF_EQ( c, "cat", daw::get<2>( cat4 ).get( ), t );
			VF_EQ( c, "cat", daw::get<3>( cat4 ), 2.5 );
			VF_EQ( c, "cat", daw::get<4>( cat4 ), 'c' );
			VF_TRUE( c, "cat ref", &daw::get<5>( cat4 ) == &a );
			VF_EQ( c, "cat leaves operands", daw::get<1>( x ), s );
			VF_EQ( c, "cat leaves operands", daw::get<2>( x ).get( ), t );
			auto const back = daw::tuple2_cat( y, x );
			VF_EQ( c, "cat order", daw::get<0>( back ), 2.5 );
			VF_EQ( c, "cat order", daw::get<4>( back ).get( ), t );
			// rvalues are moved, each element once
			auto const copies = led.l.copy;
			auto m = daw::tuple2_cat( daw::tuple2<MoveOnly, std::string>{ MoveOnly( 5 ), s }, daw::tuple2<int, MoveOnly>{ a, MoveOnly( 6 ) } );
			VF_EQ( c, "cat moves", daw::get<0>( m ).get( ), 5 );
			VF_EQ( c, "cat moves", daw::get<1>( m ), s );
			VF_EQ( c, "cat moves", daw::get<2>( m ), a );
			VF_EQ( c, "cat moves", daw::get<3>( m ).get( ), 6 );
			auto const single = daw::tuple2_cat( std::move( m ) );
			VF_EQ( c, "cat single", daw::get<3>( single ).get( ), 6 );
			auto const tr = daw::tuple2_cat( std::move( x ), std::move( y ) );
			VF_EQ( c, "cat moved", daw::get<2>( tr ).get( ), t );
			VF_EQ( c, "cat moved", daw::get<1>( tr ), s );
			VF_EQ( c, "moves copy nothing", led.l.copy, copies );
			static_assert( daw::tuple2_size_v<std::remove_const_t<decltype( tr )>> == 5 );
			static_assert( std::is_same_v<daw::tuple2_element_t<3, std::remove_const_t<decltype( tr )>>, double> );
			// nesting
			daw::tuple2<daw::tuple2<int>, daw::tuple2<std::string>> nest{ daw::tuple2<int>{ 3 }, daw::tuple2<std::string>{ s } };
			VF_EQ( c, "nested", daw::get<0>( daw::get<0>( nest ) ), 3 );
			VF_EQ( c, "nested", daw::get<0>( daw::get<1>( nest ) ), s );
			// apply
			daw::tuple2<int, MoveOnly> ap{ a, MoveOnly( 8 ) };
			VF_EQ( c, "apply2", daw::apply( ap, []( int &i, MoveOnly &v ) { return i + v.get( ); } ), a + 8 );
			VF_EQ( c, "apply2 const", daw::apply( std::as_const( ap ), []( int const &i, MoveOnly const &v ) { return i - v.get( ); } ), a - 8 );
			VF_EQ( c, "apply2 move", daw::apply( std::move( ap ), []( int i, MoveOnly v ) { return i * v.get( ); } ), a * 8 );
			auto fw = daw::forward_as_tuple2( a, 5 );
			daw::get<0>( fw ) = 99;
			VF_EQ( c, "forward_as_tuple2", a, 99 );
			daw::tuple2<int, Empty> e{ t, Empty{ } };
			VF_EQ( c, "tuple2 empties", daw::get<0>( e ), t );
			c.op( "tuple2" );
		}
		led.check_empty( c, "tuple2" );
	}

	VF_FAMILY( compressed_pairs, 3000, 40000 ) {
		int const a = c.rng.range( -1000, 1000 ), b = c.rng.range( -1000, 1000 );
		auto const s = text( c ), z = text( c );
		c.nontrivial( vf::mix( static_cast<std::uint64_t>( a + 2000 ), s.size( ) ) );
		vf::LedgerScope led;
		{
			using P = daw::compressed_pair<Tracked, std::string>;
			P p( Tracked( a ), s ), q( Tracked( b ), z );
			VF_EQ( c, "first", p.first( ).get( ), a );
			VF_EQ( c, "second", std::as_const( p ).second( ), s );
			VF_TRUE( c, "bases", static_cast<void *>( P::get_first_base( &p ) ) == &p.first( ) );
			swap( p, q );
			VF_EQ( c, "swap", p.first( ).get( ), b );
			VF_EQ( c, "swap", p.second( ), z );
			VF_EQ( c, "swap", q.first( ).get( ), a );
			VF_EQ( c, "swap", q.second( ), s );
			p.swap( p );
			VF_EQ( c, "self swap", p.second( ), z );
			P r = p;
			r.second( ) += "r";
			r.first( ) = Tracked( 1 );
			VF_EQ( c, "copy independent", p.second( ), z );
			VF_EQ( c, "copy independent", p.first( ).get( ), b );
			p = r;
			VF_EQ( c, "assign", p.second( ), z + "r" );
			P m = std::move( r );
			VF_EQ( c, "move", m.first( ).get( ), 1 );
			VF_EQ( c, "move", m.second( ), z + "r" );
			auto const copies = led.l.copy;
			std::string src = s;
			daw::compressed_pair<std::string, MoveOnly> pc( std::piecewise_construct, std::forward_as_tuple( std::move( src ) ), std::forward_as_tuple( MoveOnly( b ) ) );
			VF_EQ( c, "piecewise", pc.first( ), s );
			VF_EQ( c, "piecewise", pc.second( ).get( ), b );
			daw::compressed_pair<std::string, Tracked> pl( std::piecewise_construct, std::forward_as_tuple( 3U, 'x' ), std::forward_as_tuple( ) );
			VF_EQ( c, "piecewise args", pl.first( ), std::string( "xxx" ) );
			VF_EQ( c, "piecewise no args", pl.second( ).get( ), 0 );
			std::string keep = s;
			daw::compressed_pair<std::string, int> pk( std::piecewise_construct, std::forward_as_tuple( keep ), std::forward_as_tuple( 4 ) );
			VF_EQ( c, "piecewise lvalue kept", keep, s );
			VF_EQ( c, "piecewise lvalue", pk.first( ), s );
			VF_EQ( c, "piecewise copies nothing tracked", led.l.copy, copies );
			daw::compressed_pair<int, EmptyFn> e( a, EmptyFn{ } );
			static_assert( sizeof( e ) == sizeof( int ) );
			VF_EQ( c, "empty member", e.second( )( 4 ), 12 );
			VF_EQ( c, "beside empty", e.first( ), a );
			auto e2 = e;
			e2.first( ) = 5;
			swap( e, e2 );
			VF_EQ( c, "beside empty", e.first( ), 5 );
			daw::compressed_pair<EmptyFinal, int> f( EmptyFinal{ }, b );
			VF_EQ( c, "beside final", f.second( ), b );
			daw::compressed_pair<int, double> def;
			VF_EQ( c, "value initialised", def.first( ), 0 );
			VF_EQ( c, "value initialised", def.second( ), 0.0 );
			c.op( "compressed_pair" );
		}
		led.check_empty( c, "compressed pair" );
	}

	VF_FAMILY( packs, 3000, 40000 ) {
		int a = c.rng.range( -1000, 1000 );
		int const a0 = a;
		std::string s = text( c );
		auto const s0 = s;
		c.nontrivial( vf::mix( static_cast<std::uint64_t>( a + 2000 ), s.size( ) ) );
		vf::LedgerScope led;
		{
			MoveOnly m( 4 );
			Tracked const k( 3 );
			auto const made = led.l.ctor + led.l.copy + led.l.move;
			{
				auto p = daw::fwd_pack( a, std::move( s ), k, std::move( m ) );
				static_assert( std::tuple_size_v<decltype( p )> == 4 );
				static_assert( std::is_same_v<decltype( daw::get<0>( p ) ), int &> );
				static_assert( std::is_same_v<decltype( daw::get<1>( p ) ), std::string &&> );
				static_assert( std::is_same_v<decltype( daw::get<2>( p ) ), Tracked const &> );
				VF_TRUE( c, "fwd_pack refers", &daw::get<0>( p ) == &a );
				auto &&second = daw::get<1>( p );
				VF_TRUE( c, "fwd_pack refers", &second == &s );
				VF_TRUE( c, "fwd_pack refers", &p.template get<2>( ) == &k );
				auto const cp = p;
				VF_TRUE( c, "fwd_pack copy refers", &daw::get<0>( cp ) == &a );
				VF_EQ( c, "fwd_pack makes nothing", led.l.ctor + led.l.copy + led.l.move, made );
				auto const r = daw::apply(
				  [&]( int &i, std::string &&str, Tracked const &kk, MoveOnly &&mm ) {
					  VF_TRUE( c, "fwd_pack apply", &i == &a and &str == &s and &kk == &k and &mm == &m );
					  i += 1;
					  std::string out = std::move( str );
					  MoveOnly const o = std::move( mm );
					  VF_EQ( c, "fwd_pack apply move", o.get( ), 4 );
					  return out;
				  },
				  std::move( p ) );
				VF_EQ( c, "fwd_pack apply", r, s0 );
				VF_EQ( c, "fwd_pack apply", a, a0 + 1 );
			}
			VF_EQ( c, "fwd_pack empty", daw::apply( [] { return 3; }, daw::fwd_pack<>{ } ), 3 );
			s = s0;
			VF_EQ( c, "nth", daw::nth_pack_element<0>( a, s0, 2.5 ), a );
			VF_EQ( c, "nth", daw::nth_pack_element<1>( a, s0, 2.5 ), s0 );
			VF_EQ( c, "nth", daw::nth_pack_element<2>( a, s0, 2.5 ), 2.5 );
			static_assert( not std::is_reference_v<decltype( daw::nth_pack_element<0>( a, s ) )> );
			VF_TRUE( c, "forward_nth", &daw::forward_nth_pack_element<1>( 5, s, 4 ) == &s );
			MoveOnly src( 6 );
			MoveOnly const got = daw::forward_nth_pack_element<2>( a, s, std::move( src ), 1 );
			VF_EQ( c, "forward_nth move", got.get( ), 6 );
			MoveOnly src2( 7 );
			MoveOnly const got2 = daw::nth_pack_element<0>( std::move( src2 ), a );
			VF_EQ( c, "nth move", got2.get( ), 7 );
			auto t = daw::forward_nonrvalue_as_tuple( a, std::string( s0 ), MoveOnly( 2 ) );
			std::get<0>( t ) = 42;
			VF_EQ( c, "forward_nonrvalue lvalue", a, 42 );
			VF_EQ( c, "forward_nonrvalue rvalue", std::get<1>( t ), s0 );
			VF_EQ( c, "forward_nonrvalue rvalue", std::get<2>( t ).get( ), 2 );
			c.op( "packs" );
		}
		led.check_empty( c, "packs" );
	}
} // namespace

VF_MAIN( )
