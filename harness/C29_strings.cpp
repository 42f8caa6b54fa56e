// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <limits>
#include <memory>
#include <daw/daw_string_concat.h>
#include <daw/daw_ascii.h>
#include <daw/daw_utility.h>
#include <daw/deprecated/daw_string.h>
#include "vf.h"
#include <bit>
#include <cctype>
#include <clocale>
#include <cstring>
#include <list>

static std::string text( vf::Rng &r, std::size_t max, char const *alpha = nullptr ) {
	std::string s;
	std::size_t n = r.len( max );
	for( std::size_t i = 0; i < n; ++i )
		s += alpha ? alpha[r.below( std::strlen( alpha ) )] : (char)r.below( 256 );
	return s;
}

// --------------------------------------------------------------------- ascii
template<typename I>
static void ascii_value( vf::Case &c, I v ) {
	long long w = (long long)v;
	bool in = w >= 0 and w < 128;
	int k = in ? (int)w : 0;
	VF_EQ( c, "digit", daw::is_ascii_digit( v ), in and std::isdigit( k ) != 0 );
	VF_EQ( c, "alpha", daw::is_ascii_alpha( v ), in and std::isalpha( k ) != 0 );
	VF_EQ( c, "alphanum", daw::is_ascii_alphanum( v ), in and std::isalnum( k ) != 0 );
	VF_EQ( c, "printable", daw::is_ascii_printable( v ), in and std::isprint( k ) != 0 );
	VF_EQ( c, "upper", (long long)daw::to_upper_ascii( v ), in ? (long long)std::toupper( k ) : w );
	VF_EQ( c, "lower", (long long)daw::to_lower_ascii( v ), in ? (long long)std::tolower( k ) : w );
	static_assert( std::is_same_v<decltype( daw::to_upper_ascii( v ) ), I> );
	static_assert( std::is_same_v<decltype( daw::to_lower_ascii( v ) ), I> );
}
template<typename I>
static void ascii_small( vf::Case &c ) {
	for( int i = 0; i < 256; ++i )
		ascii_value<I>( c, (I)i );
	c.count( "ascii_values", 256 );
}
VF_FAMILY( ascii_exhaustive, 4, 8 ) {
	ascii_small<char>( c );
	ascii_small<signed char>( c );
	ascii_small<unsigned char>( c );
	ascii_small<char8_t>( c );
	for( int i = 0; i < 70000; ++i ) {
		ascii_value<char16_t>( c, (char16_t)i );
		ascii_value<short>( c, (short)i );
		if( c.idx == 0 )
			ascii_value<int>( c, i - 100 );
		if( i > 1000 and i % 64 < 60 )
			i += 1;
	}
	for( int i = 0; i < 256; ++i ) {
		char ch = (char)i;
		VF_EQ( c, "AsciiUpper", (int)(unsigned char)daw::AsciiUpper( ch ), i < 128 ? std::toupper( i ) : i );
		VF_EQ( c, "AsciiLower", (int)(unsigned char)daw::AsciiLower( ch ), i < 128 ? std::tolower( i ) : i );
		VF_EQ( c, "is_space", daw::is_space( ch ), i == ' ' );
	}
	c.nontrivial( c.idx );
}
VF_FAMILY( ascii_wide, 2000, 40000 ) {
	auto one = [&]<typename I>( I ) {
		I v = c.rng.edgy<I>( );
		if( c.rng.coin( ) ) // same low byte as an ascii character
			v = (I)( ( v & ~(I)0xff ) | (I)c.rng.below( 128 ) );
		ascii_value<I>( c, v );
		ascii_value<I>( c, (I)c.rng.below( 300 ) );
	};
	one( int{ } );
	one( unsigned{ } );
	one( long{ } );
	one( (unsigned long long)0 );
	one( (unsigned short)0 );
	ascii_value<char32_t>( c, (char32_t)c.rng.below( 0x110000 ) );
	ascii_value<wchar_t>( c, (wchar_t)c.rng.below( 0x110000 ) );
	c.nontrivial( c.idx );
}
VF_FAMILY( ascii_strings, 1000, 20000 ) {
	auto s = text( c.rng, 60 );
	auto u = s, l = s;
	for( auto &ch : u )
		ch = (unsigned char)ch < 128 ? (char)std::toupper( ch ) : ch;
	for( auto &ch : l )
		ch = (unsigned char)ch < 128 ? (char)std::tolower( ch ) : ch;
	c.op( "AsciiUpper/Lower" );
	VF_EQ( c, "AsciiUpper", daw::AsciiUpper( s ), u );
	VF_EQ( c, "AsciiLower", daw::AsciiLower( s ), l );
	c.nontrivial( vf::mix( s.size( ), c.idx ) );
}

// -------------------------------------------------------------------- concat
VF_FAMILY( concat, 4000, 80000 ) {
	std::string p[6];
	for( auto &s : p )
		s = c.rng.chance( 1, 20 ) ? text( c.rng, 3000 ) : text( c.rng, 30 );
	vf::Exact<char> e( p[1] );
	std::string_view v1( e.data( ), e.size( ) );
	c.op( "string_concat" );
	VF_EQ( c, "one", daw::string_concat( p[0] ), p[0] );
	VF_EQ( c, "two", daw::string_concat( p[0], p[1] ), p[0] + p[1] );
	VF_EQ( c, "mixed", daw::string_concat( p[0], v1, "lit", p[2], std::string( p[3] ) ),
	       p[0] + p[1] + "lit" + p[2] + p[3] );
	VF_EQ( c, "six", daw::string_concat( p[0], p[1], p[2], p[3], p[4], p[5] ),
	       p[0] + p[1] + p[2] + p[3] + p[4] + p[5] );
	VF_EQ( c, "itself", daw::string_concat( p[0], p[0], p[0] ), p[0] + p[0] + p[0] );
	auto q = p[4];
	VF_EQ( c, "moved first", daw::string_concat( std::move( q ), p[5], "" ), p[4] + p[5] );
	q = p[2];
	q = daw::string_concat( q, v1, q );
	VF_EQ( c, "assigned back", q, p[2] + p[1] + p[2] );
	std::string txt[4];
	for( auto &s : txt )
		s = text( c.rng, 12, "abc {}:,09" );
	int i = c.rng.edgy<int>( );
	long l = c.rng.edgy<long>( );
	double d = (double)(int)c.rng.below( 100000 ) / 64;
	c.op( "string_join" );
	using daw::string::string_join;
	VF_EQ( c, "join 1", string_join( txt[0] ), txt[0] );
	VF_EQ( c, "join 1 literal", string_join( "xyz" ), std::string( "xyz" ) );
	VF_EQ( c, "join 2", string_join( txt[0], i ), txt[0] + std::to_string( i ) );
	VF_EQ( c, "join 3", string_join( txt[0], txt[1].c_str( ), l ), txt[0] + txt[1] + std::to_string( l ) );
	VF_EQ( c, "join 4", string_join( d, txt[1], "-", l ), std::to_string( d ) + txt[1] + "-" + std::to_string( l ) );
	VF_EQ( c, "join 5", string_join( i, txt[1], "-", l, txt[2] ),
	       std::to_string( i ) + txt[1] + "-" + std::to_string( l ) + txt[2] );
	VF_EQ( c, "join 7", string_join( i, txt[1], "-", l, txt[2], txt[3], "" ),
	       std::to_string( i ) + txt[1] + "-" + std::to_string( l ) + txt[2] + txt[3] );
	VF_EQ( c, "to_string", daw::string::to_string( i ), std::to_string( i ) );
	c.nontrivial( vf::mix( p[0].size( ), p[1].size( ) ) );
}

// ----------------------------------------------------------------------- fmt
struct FmtModel {
	std::string out;
	bool refused = false;
};
static FmtModel fmt_model( std::string const &f, std::vector<std::string> const &args ) {
	FmtModel m;
	std::size_t last = 0; // end of the previous placeholder
	std::size_t i = 0;
	auto digit = [&]( std::size_t k ) { return k < f.size( ) and f[k] >= '0' and f[k] <= '9'; };
	while( i < f.size( ) ) {
		if( f[i] == '{' and digit( i + 1 ) ) {
			std::size_t k = i + 1;
			std::string num;
			while( digit( k ) )
				num += f[k++];
			std::vector<int> prec;
			while( k < f.size( ) and f[k] == ':' and digit( k + 1 ) ) {
				prec.push_back( f[k + 1] - '0' );
				k += 2;
			}
			if( k < f.size( ) and f[k] == '}' ) {
				bool escaped = i > last and f[i - 1] == '{';
				if( escaped )
					m.out += f.substr( i, k + 1 - i );
				else {
					if( prec.size( ) > 1 ) {
						m.refused = true;
						return m;
					}
					// positions are small in what is generated, or overflow
					std::size_t pos = num.size( ) > 9 ? args.size( ) : (std::size_t)std::stoul( num );
					if( pos >= args.size( ) ) {
						m.refused = true;
						return m;
					}
					if( prec.empty( ) )
						m.out += args[pos];
					else {
						char b[512];
						std::snprintf( b, sizeof b, "%.*f", prec[0], std::strtod( args[pos].c_str( ), nullptr ) );
						m.out += b;
					}
				}
				i = last = k + 1;
				continue;
			}
		}
		m.out += f[i++];
	}
	return m;
}
template<typename... A>
static void fmt_case( vf::Case &c, std::string const &f, std::vector<std::string> const &args, A const &...a ) {
	auto m = fmt_model( f, args );
	std::string got;
	bool refused = false;
	c.ctx( f );
	try {
		got = daw::string::fmt( f, a... );
	} catch( std::out_of_range const & ) { refused = true; }
	VF_EQ( c, "refused", refused, m.refused );
	if( not refused )
		VF_EQ( c, "formatted", got, m.out );
	c.count( refused ? "formats_refused" : "formats", 1 );
	c.nontrivial( vf::mix( f.size( ), m.out.size( ) ) );
}
VF_FAMILY( fmt, 2500, 40000 ) {
	std::string f;
	int n = (int)c.rng.below( 8 );
	bool tame = c.rng.chance( 2, 3 );
	for( int i = 0; i < n; ++i ) {
		switch( c.rng.below( tame ? 6 : 10 ) ) {
		case 0: f += text( c.rng, 6, "ab ,:" ); break;
		case 1:
		case 2: f += vf::cat( "{", c.rng.below( 3 ), "}" ); break;
		case 3: f += vf::cat( "{", c.rng.below( 2 ), ":", c.rng.below( 10 ), "}" ); break;
		case 4: f += vf::cat( "{{", c.rng.below( 3 ), "}" ); break;
		case 5: f += "}"; break;
		case 6: f += text( c.rng, 6, "{}:0123" ); break;
		case 7: f += vf::cat( "{", c.rng.below( 6 ), "}" ); break;
		case 8: f += "{99999999999999999999999}"; break;
		case 9: f += vf::cat( "{0:", c.rng.below( 10 ), ":", c.rng.below( 10 ), "}" ); break;
		}
	}
	int i = c.rng.edgy<int>( );
	double d = (double)(int)( c.rng.below( 2000000 ) - 1000000 ) / 1024;
	auto s = text( c.rng, 10, "xyz {}{0}1" );
	c.op( "fmt" );
	fmt_case( c, f, { std::to_string( i ), std::to_string( d ), s }, i, d, s );
	fmt_case( c, f, { std::to_string( d ) }, d );
	fmt_case( c, f, { "5", "-7", s, "q" }, 5ull, -7L, s.c_str( ), "q" );
	VF_EQ( c, "no arguments", std::string( daw::string::fmt( f ) ), f );
}

// -------------------------------------------------------- deprecated/daw_string
static std::vector<std::string> split_model( std::string const &s, auto is ) {
	std::vector<std::string> r( 1 );
	for( char ch : s )
		if( is( ch ) )
			r.emplace_back( );
		else
			r.back( ) += ch;
	return r;
}
VF_FAMILY( splitting, 2000, 40000 ) {
	auto s = text( c.rng, 20, "ab,; \t" );
	vf::Exact<char> e( s );
	std::string_view v( e.data( ), e.size( ) );
	auto as = []( auto const &x ) { return std::vector<std::string>( x.begin( ), x.end( ) ); };
	c.op( "split" );
	auto ws = split_model( s, []( char ch ) { return std::isspace( ch ); } );
	auto cm = split_model( s, []( char ch ) { return ch == ','; } );
	auto any = split_model( s, []( char ch ) { return ch == ',' or ch == ';'; } );
	VF_EQ( c, "spaces", daw::string::split( s ), ws );
	VF_EQ( c, "char", daw::string::split( s, ',' ), cm );
	VF_EQ( c, "any of", daw::string::split( s, std::string( ",;" ) ), any );
	VF_EQ( c, "predicate", daw::string::split_if( s, []( char ch ) { return ch == ';' or ch == ','; } ), any );
	VF_EQ( c, "view spaces", as( daw::string::split( v ) ), ws );
	VF_EQ( c, "view char", as( daw::string::split( v, ',' ) ), cm );
	VF_EQ( c, "view any of", as( daw::string::split( v, std::string( ",;" ) ) ), any );
	VF_EQ( c, "combine inverts split", daw::string::combine( cm, ',' ), s );
	c.nontrivial( vf::mix( s.size( ), any.size( ) ) );
}
template<typename S>
static void trims( vf::Case &c, S const &s, S const &del, bool std_del ) {
	auto b = s.find_first_not_of( del ), e = s.find_last_not_of( del );
	S l = b == S::npos ? S{ } : s.substr( b ), r = b == S::npos ? S{ } : s.substr( 0, e + 1 ),
	  lr = b == S::npos ? S{ } : s.substr( b, e + 1 - b );
	S x = s, y = s, z = s;
	auto eq = [&]( char const *n, S const &a, S const &w ) { VF_TRUE( c, n, a == w ); };
	if( std_del ) {
		daw::string::trim( x );
		daw::string::trim_left( y );
		daw::string::trim_right( z );
		eq( "trim_copy", daw::string::trim_copy( s ), lr );
		eq( "trim_left_copy", daw::string::trim_left_copy( s ), l );
		eq( "trim_right_copy", daw::string::trim_right_copy( s ), r );
	} else {
		daw::string::trim( x, del );
		daw::string::trim_left( y, del );
		daw::string::trim_right( z, del );
		eq( "trim_copy", daw::string::trim_copy( s, del ), lr );
		eq( "trim_left_copy", daw::string::trim_left_copy( s, del ), l );
		eq( "trim_right_copy", daw::string::trim_right_copy( s, del ), r );
	}
	eq( "trim", x, lr );
	eq( "trim_left", y, l );
	eq( "trim_right", z, r );
}
VF_FAMILY( trimming, 2000, 40000 ) {
	auto s = text( c.rng, 5, " \t\n" ) + text( c.rng, 6, "ab \r-" ) + text( c.rng, 5, " \v\f-" );
	c.op( "trim" );
	trims<std::string>( c, s, " \f\n\r\t\v", true );
	trims<std::string>( c, s, "- ", false );
	trims<std::wstring>( c, std::wstring( s.begin( ), s.end( ) ), L" \f\n\r\t\v", true );
	daw::String d( s );
	auto w = daw::string::trim_copy( s );
	VF_EQ( c, "String::trim", d.trim( ).to_string( ), w );
	VF_EQ( c, "String::trim_left", daw::String( s ).trim_left( ).to_string( ), daw::string::trim_left_copy( s ) );
	VF_EQ( c, "String::trim_right", daw::String( s ).trim_right( ).to_string( ), daw::string::trim_right_copy( s ) );
	std::ostringstream os;
	os << d;
	VF_EQ( c, "String streams", os.str( ), w );
	c.nontrivial( vf::mix( s.size( ), w.size( ) ) );
}
VF_FAMILY( searching, 3000, 60000 ) {
	auto s = text( c.rng, 20, "ab" );
	auto t = text( c.rng, 4, "ab" );
	auto r = text( c.rng, 4, "abc" );
	c.op( "search" );
	bool has = false;
	for( std::size_t i = 0; i + t.size( ) <= s.size( ); ++i )
		has = has or s.substr( i, t.size( ) ) == t;
	VF_EQ( c, "contains", daw::string::contains( s, t ), has );
	VF_EQ( c, "in", daw::string::in( t, s ), has );
	bool ew = t.size( ) <= s.size( ) and s.substr( s.size( ) - t.size( ) ) == t;
	VF_EQ( c, "ends_with", daw::string::ends_with( s, t ), ew );
	VF_EQ( c, "ends_with char", daw::string::ends_with( s, 'a' ), not s.empty( ) and s.back( ) == 'a' );
	if( not t.empty( ) ) {
		std::string w;
		for( std::size_t i = 0; i < s.size( ); )
			if( s.compare( i, t.size( ), t ) == 0 ) {
				w += r;
				i += t.size( );
			} else
				w += s[i++];
		auto x = s;
		c.op( "search_replace" );
		daw::string::search_replace( x, t.c_str( ), r.c_str( ) );
		VF_EQ( c, "search_replace", x, w );
		VF_EQ( c, "search_replace_copy", daw::string::search_replace_copy( s, t.c_str( ), r.c_str( ) ), w );
		VF_EQ( c, "String::search_replace", daw::String( s ).search_replace( t.c_str( ), r.c_str( ) ).to_string( ), w );
		std::wstring wx( s.begin( ), s.end( ) ), wt( t.begin( ), t.end( ) ), wr( r.begin( ), r.end( ) );
		daw::string::search_replace( wx, wt.c_str( ), wr.c_str( ) );
		VF_TRUE( c, "wide search_replace", wx == std::wstring( w.begin( ), w.end( ) ) );
	}
	std::stringstream ss;
	ss << s;
	std::string junk;
	while( ss >> junk ) {}
	clear( ss );
	VF_TRUE( c, "clear empties the stream", ss.good( ) and ss.str( ).empty( ) );
	ss << r;
	VF_EQ( c, "stream usable after clear", ss.str( ), r );
	c.nontrivial( vf::mix( s.size( ), t.size( ) * 8 + r.size( ) ) );
}

// -------------------------------------------------------------- daw_utility.h
static std::string hex_model( std::uint64_t v, std::size_t bytes ) {
	std::string r;
	for( std::size_t i = bytes * 2; i-- > 0; )
		r += "0123456789ABCDEF"[( v >> ( 4 * i ) ) & 15];
	return r;
}
template<typename I>
static void hex_int( vf::Case &c ) {
	std::vector<I> v( c.rng.below( 6 ) );
	std::string want;
	for( auto &x : v ) {
		x = c.rng.edgy<I>( );
		want += hex_model( (std::uint64_t)x, sizeof( I ) );
	}
	I one = c.rng.edgy<I>( );
	auto w1 = hex_model( (std::uint64_t)one, sizeof( I ) );
	// exactly sized output
	std::vector<char> b( 2 * sizeof( I ) );
	char *e = daw::hex( one, b.data( ) );
	VF_EQ( c, "hex", std::string( b.data( ), e ), w1 );
	std::string o;
	(void)daw::hex( v.begin( ), v.end( ), std::back_inserter( o ) );
	VF_EQ( c, "hex range", o, want );
}
VF_FAMILY( hexadecimal, 2000, 30000 ) {
	c.op( "hex" );
	hex_int<char>( c );
	hex_int<unsigned char>( c );
	hex_int<short>( c );
	hex_int<unsigned short>( c );
	hex_int<int>( c );
	hex_int<unsigned>( c );
	hex_int<long>( c );
	hex_int<unsigned long long>( c );
	auto s = text( c.rng, 20 );
	std::string w, lw;
	for( unsigned char ch : s )
		w += hex_model( ch, 1 );
	lw = w;
	for( auto &ch : lw )
		ch = (char)std::tolower( ch );
	vf::Exact<char> e( s );
	std::string o, lo;
	(void)daw::hex( (char const *)e.data( ), e.size( ), std::back_inserter( o ) );
	VF_EQ( c, "hex of characters", o, w );
	for( char ch : s )
		(void)daw::hex_lc( ch, std::back_inserter( lo ) );
	VF_EQ( c, "hex_lc", lo, lw );
	o.clear( );
	(void)daw::hex( "az09", std::back_inserter( o ) );
	VF_EQ( c, "hex of a literal", o, std::string( "617A3039" ) );
	struct B {
		unsigned char a, b, d;
	} bv[2] = { { 1, 0xab, 3 }, { 0xff, 0, 0x7e } };
	char out[12];
	char *q = daw::hex( bv[0], (char *)out );
	VF_EQ( c, "hex of bytes", std::string( out, q ), std::string( "01AB03" ) );
	q = daw::hex( std::begin( bv ), std::end( bv ), (char *)out );
	VF_EQ( c, "hex of a range of bytes", std::string( out, q ), std::string( "01AB03FF007E" ) );
	c.nontrivial( vf::mix( s.size( ), c.idx ) );
}
template<typename To, typename From>
static void fits( vf::Case &c ) {
	From v = c.rng.coin( ) ? c.rng.edgy<From>( ) : (From)c.rng.edgy<To>( );
	using W = __int128;
	bool f = (W)v >= (W)std::numeric_limits<To>::lowest( ) and (W)v <= (W)std::numeric_limits<To>::max( );
	VF_EQ( c, "can_fit", daw::can_fit<To>( v ), f );
	bool thr = false;
	To r{ };
	try {
		r = daw::narrow_cast<To>( v );
	} catch( std::out_of_range const & ) { thr = true; }
	VF_EQ( c, "narrow_cast refuses", thr, not f );
	if( f )
		VF_TRUE( c, "narrow_cast value", (W)r == (W)v );
}
template<typename To>
static void fits_from( vf::Case &c ) {
	fits<To, signed char>( c );
	fits<To, unsigned char>( c );
	fits<To, short>( c );
	fits<To, unsigned short>( c );
	fits<To, int>( c );
	fits<To, unsigned>( c );
	fits<To, long>( c );
	fits<To, unsigned long>( c );
}
VF_FAMILY( narrowing, 3000, 60000 ) {
	c.op( "can_fit/narrow_cast" );
	fits_from<signed char>( c );
	fits_from<unsigned char>( c );
	fits_from<short>( c );
	fits_from<unsigned short>( c );
	fits_from<int>( c );
	fits_from<unsigned>( c );
	fits_from<long>( c );
	fits_from<unsigned long>( c );
	auto bits = [&]<typename T>( T ) {
		T v = c.rng.edgy<T>( );
		VF_EQ( c, "bitcount", daw::bitcount( v ), (std::size_t)std::popcount( (std::make_unsigned_t<T>)v ) );
		return (std::size_t)std::popcount( (std::make_unsigned_t<T>)v ) + ( daw::bitcount( v, (short)7 ) == daw::bitcount( v ) + 3 ? 0 : 1000 );
	};
	c.op( "bitcount" );
	VF_TRUE( c, "bitcount sums", bits( int{ } ) + bits( (unsigned char)0 ) + bits( long{ } ) + bits( 0ull ) + bits( (signed char)0 ) < 1000 );
	int v = c.rng.edgy<int>( ), lo = c.rng.edgy<int>( ), hi = c.rng.edgy<int>( );
	VF_EQ( c, "in_range", daw::in_range( v, lo, hi ), lo <= v and v < hi );
	VF_EQ( c, "one_of", daw::value_is( v ).one_of( lo, hi, 3 ), v == lo or v == hi or v == 3 );
	int const cv = v;
	VF_EQ( c, "none_of", daw::value_is( cv ).none_of( lo, hi, 3 ), v != lo and v != hi and v != 3 );
	VF_EQ( c, "or_all", daw::or_all( v, lo, hi ), v | lo | hi );
	VF_EQ( c, "or_all 1", daw::or_all( v ), v );
	VF_EQ( c, "or_all 0", daw::or_all( ), false );
	VF_EQ( c, "cast", daw::cast<long>( v ), (long)v );
	VF_EQ( c, "equal_to", daw::equal_to( v )( lo ), v == lo );
	VF_EQ( c, "Not", daw::Not( daw::equal_to( v ) )( hi ), v != hi );
	auto chars = daw::as_char_array( v );
	int back;
	std::memcpy( &back, chars.data( ), sizeof back );
	VF_EQ( c, "as_char_array", back, v );
	{
		// the bytes as they lie in memory, most significant first in each value
		std::array<unsigned char, 16> bytes;
		for( auto &x : bytes )
			x = (unsigned char)c.rng.below( 256 );
		auto check = [&]<typename To>( To ) {
			auto r = daw::to_array_of<To>( bytes );
			static_assert( std::is_same_v<decltype( r ), std::array<To, 16 / sizeof( To )>> );
			for( std::size_t i = 0; i < r.size( ); ++i ) {
				std::uint64_t want = 0;
				for( std::size_t k = 0; k < sizeof( To ); ++k )
					want = ( want << 8 ) | bytes[i * sizeof( To ) + k];
				VF_EQ( c, "to_array_of", r[i], (To)want );
			}
		};
		check( std::uint8_t{ } );
		check( std::int8_t{ } );
		check( std::uint16_t{ } );
		check( std::int16_t{ } );
		check( std::uint32_t{ } );
		check( std::int32_t{ } );
		check( std::uint64_t{ } );
		check( std::int64_t{ } );
		// one value as parts: the order of the parts is that of memory
		auto parts = daw::to_array_of<std::uint8_t>( v );
		VF_TRUE( c, "to_array_of a value", std::memcmp( parts.data( ), &v, sizeof v ) == 0 );
	}
	c.nontrivial( c.idx );
}
VF_FAMILY( ranges, 2000, 40000 ) {
	std::vector<int> v( c.rng.below( 12 ) );
	for( auto &x : v )
		x = (int)c.rng.below( 5 );
	std::list<int> l( v.begin( ), v.end( ) );
	int k = (int)c.rng.below( 6 );
	c.op( "find_all_where" );
	auto pr = [k]( int x ) { return x == k; };
	auto a = daw::find_all_where( v, pr );
	auto b = daw::find_all_where( l.begin( ), l.end( ), pr );
	std::vector<std::size_t> wi, ai, bi;
	for( std::size_t i = 0; i < v.size( ); ++i )
		if( v[i] == k )
			wi.push_back( i );
	for( auto it : a )
		ai.push_back( (std::size_t)( it - v.cbegin( ) ) );
	for( auto it : b )
		bi.push_back( (std::size_t)std::distance( l.begin( ), it ) );
	VF_EQ( c, "find_all_where", ai, wi );
	VF_EQ( c, "find_all_where list", bi, wi );
	VF_EQ( c, "contains", daw::contains( v, k ), not wi.empty( ) );
	VF_EQ( c, "index_of", (std::size_t)daw::index_of( v, k ), wi.empty( ) ? v.size( ) : wi[0] );
	std::size_t n = c.rng.below( v.size( ) + 3 );
	c.op( "copy_vector" );
	try {
		auto r = daw::copy_vector( v, n );
		VF_TRUE( c, "copy_vector accepts", n <= v.size( ) );
		VF_EQ( c, "copy_vector", r, std::vector<int>( v.begin( ), v.begin( ) + (long)n ) );
	} catch( std::exception const & ) { VF_TRUE( c, "copy_vector refuses", n > v.size( ) ); }
	c.op( "append" );
	auto w = v;
	auto it = daw::append( w, k, k + 1, 9 );
	auto wv = v;
	wv.insert( wv.end( ), { k, k + 1, 9 } );
	VF_EQ( c, "append", w, wv );
	VF_EQ( c, "append result", (std::size_t)( it - w.begin( ) ), v.size( ) );
	c.op( "make_range" );
	auto rg = daw::make_range( l.begin( ), l.end( ) );
	std::size_t p = c.rng.below( v.size( ) + 1 ), q = c.rng.below( v.size( ) - p + 1 );
	rg.remove_prefix( p );
	rg.remove_suffix( q );
	VF_EQ( c, "make_range", std::vector<int>( rg.begin( ), rg.end( ) ),
	       std::vector<int>( v.begin( ) + (long)p, v.end( ) - (long)q ) );
	{
		auto one = daw::make_range( v.begin( ), v.end( ) );
		auto const keep = one;
		auto front = v.begin( ), back = v.end( );
		while( front != back ) {
			if( c.rng.coin( ) ) {
				one.remove_prefix( );
				++front;
			} else {
				one.remove_suffix( );
				--back;
			}
			VF_TRUE( c, "make_range one by one", one.begin( ) == front and one.end( ) == back );
		}
		VF_TRUE( c, "make_range copy", keep.begin( ) == v.begin( ) and keep.end( ) == v.end( ) );
	}
	std::vector<int> o( v.size( ) );
	c.op( "cxpr_copy" );
	VF_TRUE( c, "cxpr_copy end", daw::cxpr_copy( l.begin( ), l.end( ), o.begin( ) ) == o.end( ) );
	VF_EQ( c, "cxpr_copy", o, v );
	std::vector<std::unique_ptr<int>> mv( 3 ), mw( 3 );
	for( auto &x : mv )
		x = std::make_unique<int>( k );
	(void)daw::cxpr_move( mv.begin( ), mv.end( ), mw.begin( ) );
	VF_TRUE( c, "cxpr_move", *mw[2] == k and not mv[2] );
	daw::equal_to_last<int> el;
	std::vector<int> same, wsame;
	for( std::size_t i = 0; i < v.size( ); ++i ) {
		same.push_back( el( v[i] ) );
		wsame.push_back( i > 0 and v[i] == v[i - 1] );
	}
	VF_EQ( c, "equal_to_last", same, wsame );
	c.nontrivial( vf::mix( v.size( ), wi.size( ) ) );
}
struct Made {
	int a;
	std::string b;
	std::unique_ptr<int> c;
	Made( int x, std::string y ) : a( x ), b( std::move( y ) ) {}
	Made( int x, std::string y, std::unique_ptr<int> z ) : a( x ), b( std::move( y ) ), c( std::move( z ) ) {}
};
VF_FAMILY( packs, 500, 5000 ) {
	int i = c.rng.edgy<int>( );
	auto s = text( c.rng, 40 );
	c.op( "construct_from" );
	std::tuple<int, std::string> const t( i, s );
	auto m = daw::construct_from<Made>( t );
	VF_TRUE( c, "construct_from", m.a == i and m.b == s and std::get<1>( t ) == s );
	auto m2 = daw::construct_from<Made>( std::tuple<int, std::string, std::unique_ptr<int>>( i, s, new int( i ) ) );
	VF_TRUE( c, "construct_from moves", m2.a == i and m2.b == s and *m2.c == i );
	c.op( "pack_get" );
	VF_TRUE( c, "pack_get refers", &daw::pack_get<1>( 3, s, 'x' ) == &s );
	VF_EQ( c, "pack_get", daw::pack_get<0>( i, s ), i );
	std::size_t at = c.rng.below( 5 );
	int got = -1;
	struct F {
		int *g;
		void operator( )( int ) const { *g = 0; }
		void operator( )( std::string const & ) const { *g = 1; }
		void operator( )( std::unique_ptr<int> const & ) const { *g = 2; }
	};
	daw::pack_apply( at, F{ &got }, i, s, std::make_unique<int>( 3 ) );
	VF_EQ( c, "pack_apply", got, at < 3 ? (int)at : -1 );
	auto sp = std::make_shared<std::string>( s );
	auto rv = daw::RunIfValid( std::weak_ptr<std::string>( sp ) );
	std::string seen = "-";
	bool dead = c.rng.coin( );
	if( dead )
		sp.reset( );
	VF_EQ( c, "RunIfValid", rv( [&]( auto p ) { seen = *p; } ), not dead );
	VF_EQ( c, "RunIfValid saw", seen, dead ? std::string( "-" ) : s );
	std::string const *ps = &s;
	std::unique_ptr<std::string> cp( daw::copy_ptr_value( ps ) );
	VF_TRUE( c, "copy_ptr_value", *cp == s and cp.get( ) != ps );
	VF_EQ( c, "make_function", ( daw::make_function<int, int>( [i]( int x ) { return x ^ i; } )( 5 ) ), 5 ^ i );
	std::size_t n = 1 + c.rng.below( 40 );
	auto *buf = daw::get_buffer<std::uint64_t, 64>( 8 * n );
	VF_EQ( c, "get_buffer aligned", reinterpret_cast<std::uintptr_t>( buf ) % 64, (std::uintptr_t)0 );
	for( std::size_t k = 0; k < 8 * n; ++k )
		buf[k] = k;
	daw::return_buffer( buf );
	c.nontrivial( c.idx );
}
static_assert( daw::pack_index_of_v<int, char, int, long> == 1 );
static_assert( daw::pack_index_of_v<int, char, long> == 2 );
static_assert( daw::param_pack_index_of_v<std::tuple<char, int>, int> == 1 );
static_assert( std::is_same_v<daw::pack_type_at<1, char, int, long>, int> );
static_assert( daw::bitcount( 0xF0u, 1 ) == 5 );
VF_MAIN( )
