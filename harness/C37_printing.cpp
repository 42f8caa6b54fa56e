// C37: formatting of ranges, tuples and string_views, the print functions and
// the stream operators of the UInt types, against std::format of each element.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-EXTRA: C37_second_unit.cc
#include <limits>
#include <memory>
#include <random>
#include <daw/daw_format_range.h>
#include <daw/daw_format_tuple.h>
#include <daw/daw_formatters.h>
#include <daw/daw_format_string_view.h>
#include <daw/daw_print.h>
#include <daw/daw_print_ostream.h>
#include <daw/daw_uint_buffer_ios.h>
#include <daw/pipelines/pipeline.h>
#include <daw/pipelines/print.h>
#include <daw/daw_pipelines.h>

#include "vf.h"

#include <array>
#include <cstdio>
#include <deque>
#include <forward_list>
#include <iostream>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <tuple>
#include <unistd.h>
#include <sys/mman.h>
#include <vector>

std::string second_unit_format( std::vector<int> const &v, daw::UInt16 u );

namespace {
	// ---- the model: std::format of every leaf -------------------------------
	template<typename T>
	std::string leaf( std::string const &spec, T const &v ) {
		return std::vformat( spec.empty( ) ? std::string( "{}" ) : "{:" + spec + "}", std::make_format_args( v ) );
	}
	std::string model( std::string const &spec, int v ) {
		return leaf( spec, v );
	}
	std::string model( std::string const &spec, long v ) {
		return leaf( spec, v );
	}
	std::string model( std::string const &spec, bool v ) {
		return leaf( spec, v );
	}
	std::string model( std::string const &spec, double v ) {
		return leaf( spec, v );
	}
	std::string model( std::string const &spec, char v ) {
		return leaf( spec, v );
	}
	std::string model( std::string const &spec, std::string const &v ) {
		return leaf( spec, v );
	}
	std::string model( std::string const &spec, daw::string_view v ) {
		return leaf( spec, std::string_view( v.data( ), v.size( ) ) );
	}
	template<typename A, typename B>
	std::string model( std::string const &spec, std::pair<A, B> const &v ) {
		return "[" + model( spec, v.first ) + "," + model( spec, v.second ) + "]";
	}
	template<typename... Ts>
	std::string model( std::string const &spec, std::tuple<Ts...> const &v ) {
		std::string r = "[";
		bool first = true;
		std::apply(
		  [&]( auto const &...xs ) { ( ( r += first ? "" : ",", first = false, r += model( spec, xs ) ), ... ); },
		  v );
		return r + "]";
	}
	template<typename R>
	  requires requires( R const &r ) { r.begin( ); }
	std::string model( std::string const &spec, R const &v, char const *sep = ",", char const *l = "[", char const *rr = "]" ) {
		std::string r = l;
		bool first = true;
		for( auto const &x : v ) {
			if( not first ) {
				r += sep;
			}
			first = false;
			using X = typename R::value_type;
			r += model( spec, static_cast<X const &>( x ) );
		}
		return r + rr;
	}

	char const *const int_specs[] = { "", "03", ">5", "*^7", "+", "#x", "o", "08b", "<4", "-^6d", " d", "_>+9" };
	char const *const text_specs[] = { "", ">6", "*^7", ".2", "<3s", "_>5.3", "-<9", "^4" };
	char const *const real_specs[] = { "", ".2f", "e", "+.3g", "08.1f", ">12" };
	char const *const any_specs[] = { "", ">6", "*^7", "<3", "-^9" };

	std::string word( vf::Rng &r ) {
		std::string s;
		for( auto n = r.below( 6 ); n > 0; --n ) {
			s += "ab{}\",:]\\ \0z"[r.below( 12 )];
		}
		return s;
	}
	int number( vf::Rng &r ) {
		return r.edgy<int>( );
	}

	/// escape for use as literal text in a format string
	std::string literal( std::string const &s ) {
		std::string r;
		for( char c : s ) {
			r += c;
			if( c == '{' or c == '}' ) {
				r += c;
			}
		}
		return r;
	}

	/// one value through every way of formatting it
	template<typename F>
	void through( vf::Case &c, char const *what, F const &f, std::string const &spec, std::string const &want ) {
		auto &r = c.rng;
		c.op( what );
		c.ctx( "spec '", spec, "'" );
		std::string const pre = word( r ), post = word( r );
		int const other = static_cast<int>( r.below( 1000 ) );
		bool const indexed = r.coin( );
		std::string const field = spec.empty( ) and r.coin( ) ? "" : ":" + spec;
		std::string fmt, full;
		if( indexed ) {
			if( r.coin( ) ) {
				fmt = literal( pre ) + "{0" + field + "}" + literal( post ) + "{1:>5}";
				full = pre + want + post + std::format( "{:>5}", other );
			} else {
				fmt = literal( pre ) + "{1:<4}{0" + field + "}" + literal( post ) + "{0" + field + "}";
				full = pre + std::format( "{:<4}", other ) + want + post + want;
			}
		} else {
			fmt = literal( pre ) + "{" + field + "}" + literal( post ) + "{:>5}";
			full = pre + want + post + std::format( "{:>5}", other );
		}
		c.ctx( "format '", fmt, "'" );
		VF_EQ( c, what, std::vformat( fmt, std::make_format_args( f, other ) ), full );
		{
			std::deque<char> d;
			std::vformat_to( std::back_inserter( d ), fmt, std::make_format_args( f, other ) );
			VF_EQ( c, what, std::string( d.begin( ), d.end( ) ), full );
		}
		{
			vf::Exact<char> e( full.begin( ), full.size( ) );
			auto *const end = std::vformat_to( e.data( ), fmt, std::make_format_args( f, other ) );
			VF_EQ( c, what, std::string( e.data( ), end ), full );
		}
		c.nontrivial( vf::mix( std::hash<std::string>{ }( full ), std::hash<std::string>{ }( fmt ) ) );
	}

	template<typename R>
	void range_of( vf::Case &c, char const *what, R const &v, std::string const &spec ) {
		through( c, what, daw::fmt_range( v ), spec, model( spec, v ) );
		through( c, what, daw::fmt_any( v ), spec, model( spec, v ) );
		char const *const seps[] = { ", ", "", "|", " and ", "{", "}" };
		char const *const sep = c.rng.pick( seps );
		through( c, what, daw::fmt_range( v, sep ), spec, model( spec, v, sep ) );
		char const *const l = c.rng.pick( seps );
		char const *const rr = c.rng.pick( seps );
		through( c, what, daw::fmt_range( v, sep, l, rr ), spec, model( spec, v, sep, l, rr ) );
	}

	template<typename C>
	C ints( vf::Rng &r ) {
		C v;
		for( auto n = r.below( 6 ); n > 0; --n ) {
			v.insert( v.end( ), static_cast<typename C::value_type>( number( r ) ) );
		}
		return v;
	}

	VF_FAMILY( ranges, 500, 20000 ) {
		auto &r = c.rng;
		std::string const is = r.pick( int_specs );
		std::string const ts = r.pick( text_specs );
		std::string const rs = r.pick( real_specs );
		std::string const as = r.pick( any_specs );
		range_of( c, "vector<int>", ints<std::vector<int>>( r ), is );
		range_of( c, "list<long>", ints<std::list<long>>( r ), is );
		range_of( c, "set<int>", ints<std::set<int>>( r ), is );
		range_of( c, "deque<double>", ints<std::deque<double>>( r ), rs );
		range_of( c, "vector<bool>", std::vector<bool>( r.below( 5 ), r.coin( ) ), as );
		std::vector<std::string> w;
		std::vector<daw::string_view> wv;
		for( auto n = r.below( 5 ); n > 0; --n ) {
			w.push_back( word( r ) );
		}
		for( auto const &x : w ) {
			wv.emplace_back( x.data( ), x.size( ) );
		}
		range_of( c, "vector<string>", w, ts );
		range_of( c, "vector<daw::string_view>", wv, ts );
		std::map<int, std::string> m;
		for( auto const &x : w ) {
			m[number( r )] = x;
		}
		range_of( c, "map<int, string>", m, as );
		std::vector<std::vector<int>> vv;
		for( auto n = r.below( 4 ); n > 0; --n ) {
			vv.push_back( ints<std::vector<int>>( r ) );
		}
		range_of( c, "vector<vector<int>>", vv, is );
		std::vector<std::list<std::tuple<int, std::string, bool>>> deep;
		for( auto n = r.below( 3 ); n > 0; --n ) {
			deep.emplace_back( );
			for( auto k = r.below( 3 ); k > 0; --k ) {
				deep.back( ).emplace_back( number( r ), word( r ), r.coin( ) );
			}
		}
		range_of( c, "vector<list<tuple>>", deep, as );
		std::array<int, 3> const arr{ number( r ), number( r ), number( r ) };
		range_of( c, "array", arr, is );
		int const raw[3]{ arr[0], arr[1], arr[2] };
		through( c, "C array", daw::fmt_range( raw ), is, model( is, arr ) );
		std::span<int const> const sp( raw, r.below( 4 ) );
		through( c, "span", daw::fmt_range( sp ), is, model( is, std::vector<int>( sp.begin( ), sp.end( ) ) ) );
		std::forward_list<int> const fl( arr.begin( ), arr.end( ) );
		through( c, "forward_list", daw::fmt_range( fl ), is, model( is, arr ) );
		// text
		std::string const s = word( r );
		through( c, "string", daw::fmt_any( s ), ts, leaf( ts, s ) );
		std::vector<char> const chars( s.begin( ), s.end( ) );
		through( c, "vector<char>", daw::fmt_range( chars ), ts, leaf( ts, s ) );
		char const unterminated[3]{ 'a', '}', 'b' };
		through( c, "char array", daw::fmt_range( unterminated ), ts, leaf( ts, std::string( "a}b" ) ) );
		std::list<char> const lc( s.begin( ), s.end( ) );
		through( c, "list<char>", daw::fmt_range( lc ), "", s );
		// not a range
		int const n = number( r );
		through( c, "fmt_any of int", daw::fmt_any( n ), is, leaf( is, n ) );
	}

	VF_FAMILY( tuples, 600, 20000 ) {
		auto &r = c.rng;
		std::string const is = r.pick( int_specs );
		std::string const as = r.pick( any_specs );
		char const *const seps[] = { ", ", "", "|", " and ", "{", "}" };
		char const *const sep = r.pick( seps ), *const l = r.pick( seps ), *const rr = r.pick( seps );
		std::tuple<int, long, int> const t( number( r ), number( r ), number( r ) );
		through( c, "tuple", daw::fmt_tuple( t ), is, model( is, t ) );
		through( c, "tuple", daw::fmt_any( t ), is, model( is, t ) );
		std::string const m[3]{ leaf( is, std::get<0>( t ) ), leaf( is, std::get<1>( t ) ), leaf( is, std::get<2>( t ) ) };
		through( c, "tuple separator", daw::fmt_tuple( t, sep ), is, "[" + m[0] + sep + m[1] + sep + m[2] + "]" );
		through( c, "tuple brackets", daw::fmt_tuple( t, sep, l, rr ), is, l + m[0] + sep + m[1] + sep + m[2] + rr );
		std::tuple<std::string, double, bool, char> const mixed( word( r ), number( r ) / 4.0, r.coin( ), 'q' );
		through( c, "mixed tuple", daw::fmt_tuple( mixed ), as, model( as, mixed ) );
		std::pair<std::string, int> const p( word( r ), number( r ) );
		through( c, "pair", daw::fmt_any( p ), as, model( as, p ) );
		std::tuple<int> const one( number( r ) );
		through( c, "tuple of one", daw::fmt_any( one ), is, model( is, one ) );
		std::tuple<> const none;
		through( c, "empty tuple", daw::fmt_tuple( none, sep, l, rr ), "", std::string( l ) + rr );
		through( c, "empty tuple", daw::fmt_tuple( none ), "", "[]" );
	}

	VF_FAMILY( string_views, 600, 20000 ) {
		auto &r = c.rng;
		std::string const s = word( r );
		vf::Exact<char> e( s );
		daw::string_view const v( e.data( ), s.size( ) );
		std::string const ts = r.pick( text_specs );
		through( c, "daw::string_view", v, ts, leaf( ts, s ) );
		int const w = static_cast<int>( r.below( 12 ) );
		VF_EQ( c, "width from an argument", std::vformat( "{:>{}}", std::make_format_args( v, w ) ), std::vformat( "{:>{}}", std::make_format_args( s, w ) ) );
		std::wstring const ws( s.begin( ), s.end( ) );
		daw::basic_string_view<wchar_t> const wv( ws.data( ), ws.size( ) );
		VF_TRUE( c, "wide string_view", std::format( L"<{:>7}>", wv ) == std::format( L"<{:>7}>", ws ) );
	}

	/// truncated and refused output
	VF_FAMILY( bounds, 400, 10000 ) {
		auto &r = c.rng;
		auto const v = ints<std::vector<int>>( r );
		std::string const want = model( "03", v );
		auto const n = r.below( want.size( ) + 3 );
		vf::Exact<char> e( std::string( n, '#' ) );
		auto const res = std::format_to_n( e.data( ), static_cast<std::ptrdiff_t>( n ), "{:03}", daw::fmt_range( v ) );
		VF_EQ( c, "format_to_n size", static_cast<std::size_t>( res.size ), want.size( ) );
		VF_EQ( c, "format_to_n text", std::string( e.data( ), res.out ), want.substr( 0, n ) );
		VF_EQ( c, "formatted_size", std::formatted_size( "{:03}", daw::fmt_range( v ) ), want.size( ) );
		// a spec the element does not have
		std::string bad = "{:";
		bad += "qyz!"[r.below( 4 )];
		bad += '}';
		auto const f = daw::fmt_range( v );
		bool threw = false;
		try {
			(void)std::vformat( bad, std::make_format_args( f ) );
		} catch( std::format_error const & ) { threw = true; }
		VF_EQ( c, "unknown element spec", threw, not v.empty( ) );
		std::tuple<int, int> const t( 1, 2 );
		auto const ft = daw::fmt_tuple( t );
		threw = false;
		try {
			(void)std::vformat( bad, std::make_format_args( ft ) );
		} catch( std::format_error const & ) { threw = true; }
		VF_TRUE( c, "unknown element spec of a tuple", threw );
		c.nontrivial( vf::mix( std::hash<std::string>{ }( want ), n ) );
	}

	// ---- print --------------------------------------------------------------
	/// what a call writes to a file descriptor
	template<typename F>
	std::string captured( FILE *which, F &&f ) {
		std::fflush( which );
		int const fd = fileno( which );
		int const keep = dup( fd );
		int const mem = memfd_create( "capture", 0 );
		dup2( mem, fd );
		f( );
		std::fflush( which );
		dup2( keep, fd );
		close( keep );
		off_t const n = lseek( mem, 0, SEEK_END );
		std::string s( static_cast<std::size_t>( n ), '\0' );
		if( pread( mem, s.data( ), s.size( ), 0 ) != n ) {
			s = "<pread failed>";
		}
		close( mem );
		return s;
	}
	/// what a call writes to a FILE
	template<typename F>
	std::string written( F &&f ) {
		char *p = nullptr;
		std::size_t n = 0;
		{
			vf::Suspend suspend{ };
			FILE *file = open_memstream( &p, &n );
			f( file );
			std::fclose( file );
		}
		std::string s( p, n );
		{
			vf::Suspend suspend{ };
			std::free( p );
		}
		return s;
	}

	VF_FAMILY( print, 300, 6000 ) {
		auto &r = c.rng;
		int const i = number( r );
		std::string s = word( r );
		if( r.chance( 1, 10 ) ) {
			s.assign( 3000 + r.below( 9000 ), 'x' );
		}
		std::string const body = std::format( "{:>7}|{}|{:x}", i, s, static_cast<unsigned>( i ) );
		unsigned const u = static_cast<unsigned>( i );
		VF_EQ( c, "print(FILE)", written( [&]( FILE *f ) { daw::print( f, "{:>7}|{}|{:x}", i, s, u ); } ), body );
		VF_EQ( c, "println(FILE)", written( [&]( FILE *f ) { daw::println( f, "{:>7}|{}|{:x}", i, s, u ); } ), body + "\n" );
		VF_EQ( c, "vprint(FILE)", written( [&]( FILE *f ) { daw::vprint( f, "{:>7}|{}|{:x}", i, s, u ); } ), body );
		VF_EQ( c, "vprintln(FILE)", written( [&]( FILE *f ) { daw::vprintln( f, "{:>7}|{}|{:x}", i, s, u ); } ), body + "\n" );
		VF_EQ( c, "print two calls", written( [&]( FILE *f ) {
			       daw::print( f, "{}", s );
			       daw::println( f, "{}{{}}", s );
		       } ),
		       s + s + "{}\n" );
		std::ostringstream os;
		std::ostream &ret = daw::print( os, "{:>7}|{}|{:x}", i, s, u );
		VF_TRUE( c, "print(ostream) returns the stream", &ret == &os );
		VF_EQ( c, "print(ostream)", os.str( ), body );
		std::ostream &ret2 = daw::println( os, "{}", s );
		VF_TRUE( c, "println(ostream) returns the stream", &ret2 == &os );
		VF_EQ( c, "println(ostream)", os.str( ), body + s + "\n" );
		{
			std::ostringstream log;
			auto *const old = std::clog.rdbuf( log.rdbuf( ) );
			std::ostream &ret3 = daw::print_log( "{}-{}", i, s );
			std::clog.rdbuf( old );
			VF_TRUE( c, "print_log returns the stream", &ret3 == &std::clog );
			VF_EQ( c, "print_log", log.str( ), std::format( "{}-{}\n", i, s ) );
		}
		{
			std::ostringstream closed;
			closed.setstate( std::ios::failbit );
			daw::print( closed, "{}", i );
			VF_TRUE( c, "print to a failed stream", closed.str( ).empty( ) and closed.fail( ) );
		}
		c.nontrivial( std::hash<std::string>{ }( body ) );
	}

	VF_FAMILY( standard_output, 60, 1000 ) {
		auto &r = c.rng;
		int const i = number( r );
		std::string const s = word( r );
		auto const v = ints<std::vector<int>>( r );
		VF_EQ( c, "print", captured( stdout, [&] { daw::print( "{:05}{}", i, s ); } ), std::format( "{:05}{}", i, s ) );
		VF_EQ( c, "println", captured( stdout, [&] { daw::println( "{:05}{}", i, s ); } ), std::format( "{:05}{}\n", i, s ) );
		VF_EQ( c, "println()", captured( stdout, [&] { daw::println( ); } ), std::string( "\n" ) );
		VF_EQ( c, "vprint", captured( stdout, [&] { daw::vprint( "{:05}{}", i, s ); } ), std::format( "{:05}{}", i, s ) );
		VF_EQ( c, "vprintln", captured( stdout, [&] { daw::vprintln( "{:05}{}", i, std::string( s ) ); } ), std::format( "{:05}{}\n", i, s ) );
		VF_EQ( c, "dump", captured( stdout, [&] { daw::dump( i, s, 'c' ); } ), std::format( "{} {} {} \n", i, s, 'c' ) );
		VF_EQ( c, "dump of one", captured( stdout, [&] { daw::dump( s ); } ), s + " \n" );
		VF_EQ( c, "dump of nothing", captured( stdout, [&] { daw::dump( ); } ), std::string( "\n" ) );
		{
			using namespace daw::pipelines;
			std::vector<int> const *same = nullptr;
			std::string const got = captured( stdout, [&] {
				auto const &back = Print( v );
				same = &back;
			} );
			VF_EQ( c, "Print", got, model( "", v ) + "\n" );
			VF_TRUE( c, "Print passes its argument on", same == &v );
			long total = -1, want = 0;
			std::vector<int> small;
			for( int x : v ) {
				small.push_back( x % 1000 );
				want += 2 * ( x % 1000 );
			}
			std::string const mid = captured( stdout, [&] {
				total = pipeline( Map( []( int x ) { return static_cast<long>( x ) * 2; } ), Print, Sum )( small );
			} );
			std::vector<long> dbl;
			for( int x : small ) {
				dbl.push_back( x * 2L );
			}
			VF_EQ( c, "Print inside a pipeline", mid, model( "", dbl ) + "\n" );
			VF_EQ( c, "Print inside a pipeline passes the values on", total, want );
			std::tuple<int, std::string> const t( i, s );
			VF_EQ( c, "Print of a tuple", captured( stdout, [&] { (void)Print( t ); } ), model( "", t ) + "\n" );
			VF_EQ( c, "Print of a value", captured( stdout, [&] { (void)Print( i ); } ), std::format( "{}\n", i ) );
		}
		c.nontrivial( vf::mix( std::hash<std::string>{ }( s ), static_cast<std::uint64_t>( i ) ) );
	}

	// ---- stream operators ---------------------------------------------------
	VF_FAMILY( uint_streams, 300, 20000 ) {
		auto &r = c.rng;
		auto const a = r.edgy<std::uint8_t>( );
		auto const b = r.edgy<std::uint16_t>( );
		auto const d = r.edgy<std::uint32_t>( );
		auto const e = r.edgy<std::uint64_t>( );
		std::ostringstream x, y;
		auto const style = [base = r.below( 3 ), show = r.coin( ), fill = r.coin( ), w = static_cast<int>( r.below( 24 ) )]( std::ostream &o ) {
			if( base == 1 ) {
				o << std::hex;
			} else if( base == 2 ) {
				o << std::oct;
			}
			if( show ) {
				o << std::showbase;
			}
			if( fill ) {
				o.fill( '*' );
			}
			o.width( w );
		};
		style( x );
		style( y );
		std::ostream &same = x << daw::UInt8( a );
		y << static_cast<unsigned>( a );
		VF_TRUE( c, "stream operator returns the stream", &same == &x );
		VF_EQ( c, "UInt8", x.str( ), y.str( ) );
		style( x );
		style( y );
		x << daw::UInt16( b ) << ' ';
		y << b << ' ';
		VF_EQ( c, "UInt16", x.str( ), y.str( ) );
		style( x );
		style( y );
		x << daw::UInt32( d ) << ' ';
		y << d << ' ';
		VF_EQ( c, "UInt32", x.str( ), y.str( ) );
		style( x );
		style( y );
		x << daw::UInt64( e );
		y << e;
		VF_EQ( c, "UInt64", x.str( ), y.str( ) );
		c.nontrivial( std::hash<std::string>{ }( x.str( ) ) );
	}

	/// the same headers in a second translation unit of this program
	VF_FAMILY( two_units, 100, 1000 ) {
		auto const v = ints<std::vector<int>>( c.rng );
		auto const u = c.rng.edgy<std::uint16_t>( );
		VF_EQ( c, "another translation unit", second_unit_format( v, daw::UInt16( u ) ), model( "+", v ) + std::to_string( u ) );
	}
} // namespace

VF_MAIN( )
