// C16: parsing of numbers, strings, fields and arguments; parser helpers.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include <daw/daw_parse_to.h>
#include <daw/daw_from_string.h>
#include <daw/daw_parse_args.h>
#include <daw/daw_parser_addons.h>
#include <daw/daw_parser_helper.h>
#include <daw/daw_parser_helper_sv.h>

#include "vf.h"

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <limits>
#include <optional>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

namespace {
	namespace dp = daw::parser;
	using i128 = __int128;

	std::string text_of( i128 v ) {
		if( v == 0 ) {
			return "0";
		}
		bool const neg = v < 0;
		std::string r;
		for( ; v != 0; v /= 10 ) {
			int d = static_cast<int>( v % 10 );
			r.insert( r.begin( ), static_cast<char>( '0' + ( d < 0 ? -d : d ) ) );
		}
		return neg ? "-" + r : r;
	}

	enum class How { value, empty, overflow, invalid, out_of_range, parser_empty, parser, something };
	char const *name_of( How h ) {
		static char const *const n[] = { "value", "empty", "overflow", "invalid", "out_of_range", "parser_empty", "parser", "something" };
		return n[static_cast<int>( h )];
	}
	template<typename F>
	How how( F &&f ) {
		try {
			f( );
			return How::value;
		} catch( dp::empty_input_exception const & ) {
			return How::empty;
		} catch( dp::numeric_overflow_exception const & ) {
			return How::overflow;
		} catch( dp::invalid_input_exception const & ) {
			return How::invalid;
		} catch( std::out_of_range const & ) {
			return How::out_of_range;
		} catch( dp::ParserEmptyException const & ) {
			return How::parser_empty;
		} catch( dp::ParserException const & ) {
			return How::parser;
		} catch( ... ) {
			return How::something;
		}
	}

	// what an integer text denotes
	struct Den {
		bool well_formed = false;
		bool negative = false;
		bool overflow_128 = false;
		i128 value = 0;
	};
	Den denoted( std::string const &s ) {
		Den r;
		std::size_t i = 0;
		if( i < s.size( ) and s[i] == '-' ) {
			r.negative = true;
			++i;
		}
		if( i == s.size( ) ) {
			return r;
		}
		for( ; i < s.size( ); ++i ) {
			if( s[i] < '0' or s[i] > '9' ) {
				return r;
			}
			if( r.value > ( static_cast<i128>( 1 ) << 100 ) ) {
				r.overflow_128 = true;
			} else {
				r.value = r.value * 10 + ( s[i] - '0' );
			}
		}
		if( r.negative ) {
			r.value = -r.value;
		}
		r.well_formed = true;
		return r;
	}

	template<typename T>
	std::string int_text( vf::Case &c ) {
		i128 const lo = std::numeric_limits<T>::min( );
		i128 const hi = std::numeric_limits<T>::max( );
		std::string s;
		switch( c.rng.below( 9 ) ) {
		case 0: // near a limit
			s = text_of( hi + static_cast<i128>( c.rng.range( -12, 12 ) ) );
			break;
		case 1:
			s = text_of( lo + static_cast<i128>( c.rng.range( -12, 12 ) ) );
			break;
		case 2: // ten times a limit and around
			s = text_of( hi * static_cast<i128>( c.rng.range( 1, 20 ) ) + static_cast<i128>( c.rng.range( -3, 3 ) ) );
			break;
		case 3: { // any number of digits
			std::size_t const n = c.rng.below( 26 );
			if( c.rng.chance( 1, 3 ) ) {
				s = "-";
			}
			for( std::size_t i = 0; i < n; ++i ) {
				s += static_cast<char>( '0' + c.rng.below( 10 ) );
			}
			break;
		}
		case 4: { // leading zeros
			s = text_of( static_cast<i128>( c.rng.edgy<std::conditional_t<std::is_same_v<T, bool>, unsigned char, T>>( ) ) );
			s.insert( s[0] == '-' ? 1 : 0, std::string( c.rng.below( 30 ), '0' ) );
			break;
		}
		default:
			s = text_of( static_cast<i128>( c.rng.edgy<std::conditional_t<std::is_same_v<T, bool>, unsigned char, T>>( ) ) );
		}
		if( c.rng.chance( 1, 5 ) ) { // damage
			static constexpr char bad[] = "-+ .,xeE0/:9\x80\xb0";
			char const ch = bad[c.rng.below( sizeof( bad ) - 1 )];
			std::size_t const at = c.rng.below( s.size( ) + 1 );
			if( c.rng.coin( ) or at == s.size( ) ) {
				s.insert( at, 1, ch );
			} else {
				s[at] = ch;
			}
		}
		return s;
	}

	template<typename T>
	void check_int( vf::Case &c, std::string const &s ) {
		Den const d = denoted( s );
		vf::Exact<char> ex( s.data( ), s.size( ) );
		daw::string_view sv( ex.data( ), s.size( ) );
		c.ctx( "bytes ", sizeof( T ), std::is_signed_v<T> ? " signed" : " unsigned", " text '", s, "'" );
		i128 const lo = std::numeric_limits<T>::min( );
		i128 const hi = std::numeric_limits<T>::max( );
		{ // parse_to: the whole text or an error
			T got{ };
			How const h = how( [&] { got = std::get<0>( dp::parse_to<T>( sv, "," ) ); } );
			auto const field = s.substr( 0, s.find( ',' ) );
			Den const fd = denoted( field );
			bool const in = fd.well_formed and not fd.overflow_128 and fd.value >= lo and fd.value <= hi and
			                not( std::is_unsigned_v<T> and fd.negative );
			if( field.empty( ) ) {
				VF_EQ( c, "parse_to of an empty field", name_of( h ), name_of( How::empty ) );
			} else if( in ) {
				VF_EQ( c, "parse_to accepts", name_of( h ), name_of( How::value ) );
				VF_EQ( c, "parse_to value", static_cast<i128>( got ) == fd.value, true );
				c.count( "parsed", 1 );
			} else {
				VF_TRUE( c, "parse_to rejects", h == How::overflow or h == How::invalid );
				if( fd.well_formed and not( std::is_unsigned_v<T> and fd.negative ) ) {
					VF_EQ( c, "parse_to out of range", name_of( h ), name_of( How::overflow ) );
				}
				c.count( "rejected", 1 );
			}
		}
		if constexpr( not std::is_same_v<T, bool> ) { // from_string: longest numeric prefix
			std::size_t n = 0;
			if( std::is_signed_v<T> and n < s.size( ) and s[n] == '-' ) {
				++n;
			}
			std::size_t const digits = n;
			while( n < s.size( ) and s[n] >= '0' and s[n] <= '9' ) {
				++n;
			}
			auto const r = daw::from_string( daw::tag<T>, sv );
			Den const pd = denoted( s.substr( 0, n ) );
			bool const in = n != digits and pd.well_formed and not pd.overflow_128 and pd.value >= lo and pd.value <= hi;
			VF_EQ( c, "from_string engaged", r.has_value( ), in );
			if( in ) {
				VF_TRUE( c, "from_string value", static_cast<i128>( *r ) == pd.value );
			}
		}
		if constexpr( not std::is_same_v<T, bool> ) { // parser addons: bounded number of digits
			bool const all_digits = d.well_formed;
			if( all_digits ) {
				std::size_t const digits = s.size( ) - ( d.negative ? 1U : 0U );
				bool const fits = digits <= static_cast<std::size_t>( std::numeric_limits<T>::digits10 );
				T got{ };
				How h = how( [&] { got = dp::parse_int<T>( sv.begin( ), sv.end( ) ); } );
				bool const ok = fits and not( d.negative and std::is_unsigned_v<T> );
				VF_EQ( c, "parse_int outcome", name_of( h ), name_of( ok ? How::value : How::out_of_range ) );
				if( ok ) {
					VF_TRUE( c, "parse_int value", static_cast<i128>( got ) == d.value );
				}
				h = how( [&] { 
					if( c.idx % 2 ) {
						got = static_cast<T>( 3 );
						dp::parse_unsigned_int( sv.begin( ), sv.end( ), got );
					} else {
						got = dp::parse_unsigned_int<T>( sv.begin( ), sv.end( ) );
					}
				} );
				bool const uok = fits and not d.negative;
				VF_EQ( c, "parse_unsigned_int outcome", name_of( h ), name_of( uok ? How::value : How::out_of_range ) );
				if( uok ) {
					VF_TRUE( c, "parse_unsigned_int value", static_cast<i128>( got ) == d.value );
				}
				if( ok ) {
					VF_TRUE( c, "parse_int of a view", static_cast<i128>( dp::parse_int<T>( sv ) ) == d.value );
				}
				if( uok ) {
					VF_TRUE( c, "parse_unsigned_int of a view", static_cast<i128>( dp::parse_unsigned_int<T>( sv ) ) == d.value );
				}
			}
		}
		c.nontrivial( vf::mix( sizeof( T ) * 2 + std::is_signed_v<T>, std::hash<std::string>{ }( s ) ) );
		c.op( "integer text" );
	}

	template<typename T>
	void ints( vf::Case &c ) {
		for( int k = 0; k < 10; ++k ) {
			check_int<T>( c, int_text<T>( c ) );
		}
	}

	// every value of the narrow types, with a margin on both sides
	template<typename T>
	void all_values( vf::Case &c ) {
		for( int v = static_cast<int>( std::numeric_limits<T>::min( ) ) - 300; v <= static_cast<int>( std::numeric_limits<T>::max( ) ) + 300; ++v ) {
			check_int<T>( c, text_of( v ) );
		}
	}

	bool ws( char ch ) {
		return ( ch >= 9 and ch <= 13 ) or ch == ' ';
	}

	std::string small_text( vf::Case &c, std::size_t max, char const *alphabet ) {
		std::string const a = alphabet;
		std::size_t const n = c.rng.below( max + 1 );
		std::string s;
		for( std::size_t i = 0; i < n; ++i ) {
			s += a[c.rng.below( a.size( ) )];
		}
		return s;
	}

	// reference splitting of a text into n fields by a literal delimiter
	std::vector<std::string> fields_of( std::string s, std::string const &delim, std::size_t n ) {
		std::vector<std::string> r;
		for( std::size_t i = 0; i < n; ++i ) {
			auto const p = s.find( delim );
			r.push_back( s.substr( 0, p ) );
			s = p == std::string::npos ? std::string( ) : s.substr( p + delim.size( ) );
		}
		return r;
	}
	std::vector<std::string> ws_fields_of( std::string s, bool multiple, std::size_t n ) {
		std::vector<std::string> r;
		for( std::size_t i = 0; i < n; ++i ) {
			std::size_t p = 0;
			while( p < s.size( ) and not ws( s[p] ) ) {
				++p;
			}
			r.push_back( s.substr( 0, p ) );
			std::size_t q = p;
			if( q < s.size( ) ) {
				++q;
				while( multiple and q < s.size( ) and ws( s[q] ) ) {
					++q;
				}
			}
			s = s.substr( q );
		}
		return r;
	}

	struct Dest {
		std::string a;
		long long b;
		std::string d;
	};

	using US = dp::converters::unquoted_string;
	using USV = dp::converters::unquoted_string_view;

	// expected outcome for fields (string, int, string)
	How expect_fields( std::vector<std::string> const &f ) {
		if( f[0].empty( ) or f[1].empty( ) or f[2].empty( ) ) {
			return How::empty;
		}
		return How::value;
	}

	template<typename Parse>
	void check_fields( vf::Case &c, char const *label, std::vector<std::string> const &f, Parse parse ) {
		std::string g[3];
		long long gi = 0;
		How const h = how( [&] { parse( g[0], gi, g[2] ); } );
		Den const d = denoted( f[1] );
		bool const good = not f[0].empty( ) and not f[2].empty( ) and d.well_formed and not d.overflow_128 and
		                  d.value >= std::numeric_limits<long long>::min( ) and d.value <= std::numeric_limits<long long>::max( );
		c.ctx( label, ": fields '", f[0], "' '", f[1], "' '", f[2], "'" );
		VF_EQ( c, vf::cat( label, " accepted" ).c_str( ), h == How::value, good );
		if( good ) {
			VF_EQ( c, vf::cat( label, " first" ).c_str( ), g[0], f[0] );
			VF_TRUE( c, vf::cat( label, " number" ).c_str( ), static_cast<i128>( gi ) == d.value );
			VF_EQ( c, vf::cat( label, " last" ).c_str( ), g[2], f[2] );
			c.count( "field rows parsed", 1 );
		} else {
			VF_TRUE( c, vf::cat( label, " error kind" ).c_str( ), h == How::empty or h == How::overflow or h == How::invalid );
			if( d.well_formed and expect_fields( f ) == How::empty ) {
				VF_EQ( c, vf::cat( label, " missing field" ).c_str( ), name_of( h ), name_of( How::empty ) );
			}
		}
		c.op( "fields" );
	}
} // namespace

VF_FAMILY( narrow_exhaustive, 4, 8 ) {
	switch( c.idx % 4 ) {
	case 0: all_values<signed char>( c ); break;
	case 1: all_values<unsigned char>( c ); break;
	case 2: all_values<short>( c ); break;
	default: all_values<unsigned short>( c ); break;
	}
}

VF_FAMILY( integer_text, 2000, 120000 ) {
	ints<signed char>( c );
	ints<unsigned char>( c );
	ints<short>( c );
	ints<unsigned short>( c );
	ints<int>( c );
	ints<unsigned>( c );
	ints<long>( c );
	ints<unsigned long>( c );
	ints<long long>( c );
	ints<unsigned long long>( c );
	ints<bool>( c );
}

VF_FAMILY( field_rows, 10000, 500000 ) {
	static char const *const delims[] = { ",", ";", "::", "ab", "-", " ", "aba" };
	std::string const delim = delims[c.rng.below( 7 )];
	std::string s;
	std::size_t const n = c.rng.below( 5 );
	for( std::size_t i = 0; i < n; ++i ) {
		if( c.rng.chance( 3, 5 ) and i % 3 == 1 ) {
			s += text_of( static_cast<i128>( c.rng.edgy<long long>( ) ) );
		} else {
			s += small_text( c, 5, "ab,;: 12-\t\n" );
		}
		if( i + 1 < n or c.rng.chance( 1, 4 ) ) {
			s += delim;
		}
	}
	c.ctx( "text '", s, "' delimiter '", delim, "'" );
	vf::Exact<char> ex( s.data( ), s.size( ) );
	vf::Exact<char> exd( delim.data( ), delim.size( ) );
	daw::string_view const sv( ex.data( ), s.size( ) );
	daw::string_view const dv( exd.data( ), delim.size( ) );
	auto const f = fields_of( s, delim, 3 );
	check_fields( c, "parse_to", f, [&]( std::string &a, long long &b, std::string &d ) {
		auto t = dp::parse_to<US, long long, USV>( sv, dv );
		a = std::get<0>( t );
		b = std::get<1>( t );
		auto const v = std::get<2>( t );
		VF_TRUE( c, "string_view inside the text", v.data( ) >= sv.data( ) and v.data( ) + v.size( ) <= sv.data( ) + sv.size( ) );
		d = std::string( v.data( ), v.size( ) );
	} );
	check_fields( c, "construct_from", f, [&]( std::string &a, long long &b, std::string &d ) {
		auto t = daw::construct_from<Dest, US, long long, US>( sv, dv );
		a = t.a;
		b = t.b;
		d = t.d;
	} );
	check_fields( c, "apply_string", f, [&]( std::string &a, long long &b, std::string &d ) {
		int calls = 0;
		long long r = daw::apply_string<US, long long, US>(
		  [&]( std::string x, long long y, std::string z ) {
			  ++calls;
			  a = x;
			  b = y;
			  d = z;
			  return y;
		  },
		  sv, dv );
		VF_EQ( c, "apply_string calls once", calls, 1 );
		VF_EQ( c, "apply_string result", r, b );
	} );
	check_fields( c, "values_from_stream (str)", f, [&]( std::string &a, long long &b, std::string &d ) {
		std::stringstream ss( s );
		std::tie( a, b, d ) = daw::values_from_stream<US, long long, US>( ss, dv );
	} );
	check_fields( c, "values_from_stream (buffer)", f, [&]( std::string &a, long long &b, std::string &d ) {
		std::stringstream ss( s );
		std::istream is( ss.rdbuf( ) );
		std::tie( a, b, d ) = daw::values_from_stream<US, long long, US>( is, dv );
	} );
	check_fields( c, "whitespace", ws_fields_of( s, true, 3 ), [&]( std::string &a, long long &b, std::string &d ) {
		std::tie( a, b, d ) = dp::parse_to<US, long long, US>( sv, dp::whitespace_splitter{ } );
	} );
	check_fields( c, "single whitespace", ws_fields_of( s, false, 3 ), [&]( std::string &a, long long &b, std::string &d ) {
		std::tie( a, b, d ) = dp::parse_to<US, long long, US>( sv, dp::single_whitespace_splitter{ } );
	} );
	{ // integer rows through the argument types of a callable
		std::string row;
		std::vector<int> want;
		for( int i = 0; i < 3; ++i ) {
			want.push_back( c.rng.edgy<int>( ) );
			row += text_of( want.back( ) );
			if( i < 2 ) {
				row += delim == "-" ? "," : delim;
			}
		}
		std::string const dl = delim == "-" ? "," : delim;
		vf::Exact<char> exr( row.data( ), row.size( ) );
		std::vector<int> got = daw::apply_string2( []( int a, int b, int d ) { return std::vector<int>{ a, b, d }; },
		                                           daw::string_view( exr.data( ), row.size( ) ), daw::string_view( dl.data( ), dl.size( ) ) );
		VF_TRUE( c, "apply_string2", got == want );
	}
	c.nontrivial( std::hash<std::string>{ }( s + "|" + delim ) );
}

VF_FAMILY( strings, 30000, 600000 ) {
	// a quoted string as the only field
	std::string s = c.rng.chance( 3, 4 ) ? "\"" : "";
	s += small_text( c, 8, "ab\\\"c " );
	if( c.rng.chance( 2, 3 ) ) {
		s += '"';
	}
	c.ctx( "text <", s, ">" );
	vf::Exact<char> ex( s.data( ), s.size( ) );
	daw::string_view const sv( ex.data( ), s.size( ) );
	// model
	std::optional<std::string> want;
	if( s.size( ) > 2 and s[0] == '"' ) {
		for( std::size_t i = 2; i < s.size( ); ++i ) {
			if( s[i] == '"' and s[i - 1] != '\\' ) {
				want = s.substr( 1, i - 1 );
				break;
			}
		}
	}
	std::string got;
	How h = how( [&] { got = std::get<0>( dp::parse_to<std::string>( sv, "," ) ); } );
	VF_EQ( c, "quoted string accepted", h == How::value, want.has_value( ) );
	if( want ) {
		VF_EQ( c, "quoted string", got, *want );
	}
	if( s.empty( ) ) {
		VF_EQ( c, "empty text", name_of( h ), name_of( How::empty ) );
	}
	h = how( [&] {
		auto v = std::get<0>( dp::parse_to<daw::string_view>( sv, "," ) );
		got = std::string( v.data( ), v.size( ) );
	} );
	VF_EQ( c, "quoted view accepted", h == How::value, want.has_value( ) );
	if( want ) {
		VF_EQ( c, "quoted view", got, *want );
	}
	char ch = 0;
	h = how( [&] { ch = std::get<0>( dp::parse_to<char>( sv, "," ) ); } );
	VF_EQ( c, "char outcome", name_of( h ), name_of( s.empty( ) ? How::empty : How::value ) );
	if( not s.empty( ) ) {
		VF_EQ( c, "char value", ch, s[0] );
	}
	auto const str = daw::from_string( daw::tag<std::string>, sv );
	VF_TRUE( c, "from_string<string>", str.has_value( ) and *str == s );

	// a string literal after optional blanks
	std::string lit = small_text( c, 2, " \t" ) + s;
	std::size_t p = 0;
	while( p < lit.size( ) and ws( lit[p] ) ) {
		++p;
	}
	std::optional<std::pair<std::size_t, std::size_t>> lw;
	if( p < lit.size( ) and lit[p] == '"' ) {
		for( std::size_t i = p + 1; i < lit.size( ); ++i ) {
			if( lit[i] == '"' and lit[i - 1] != '\\' ) {
				lw = std::pair( p + 1, i );
				break;
			}
		}
	}
	vf::Exact<char> exl( lit.data( ), lit.size( ) );
	char const *const b = exl.data( );
	std::pair<std::size_t, std::size_t> lg{ };
	h = how( [&] {
		auto r = dp::parse_string_literal( b, b + lit.size( ) );
		lg = { static_cast<std::size_t>( r.first - b ), static_cast<std::size_t>( r.last - b ) };
	} );
	VF_EQ( c, "string literal accepted", h == How::value, lw.has_value( ) );
	if( lw ) {
		VF_TRUE( c, "string literal bounds", lg == *lw );
	} else {
		VF_EQ( c, "string literal error", name_of( h ), name_of( How::parser ) );
	}
	c.nontrivial( std::hash<std::string>{ }( lit ) );
	c.op( "string" );
}

VF_FAMILY( floats, 20000, 400000 ) {
	double v = 0;
	switch( c.rng.below( 4 ) ) {
	case 0: v = static_cast<double>( c.rng.range( -100000, 100000 ) ) / 64.0; break;
	case 1: {
		std::uint64_t bits = c.rng.next( );
		std::memcpy( &v, &bits, sizeof v );
		break;
	}
	case 2: v = std::ldexp( 1.0, static_cast<int>( c.rng.range( -1074, 1023 ) ) ); break;
	default: v = static_cast<double>( c.rng.edgy<long long>( ) );
	}
	if( not std::isfinite( v ) ) {
		v = 1.5;
	}
	char buf[80];
	int n = std::snprintf( buf, sizeof buf, "%.17g", v );
	std::string tail = c.rng.coin( ) ? "" : ",7";
	std::string s( buf, static_cast<std::size_t>( n ) );
	s += tail;
	vf::Exact<char> ex( s.data( ), s.size( ) );
	daw::string_view sv( ex.data( ), s.size( ) );
	c.ctx( "text ", s );
	VF_TRUE( c, "double", std::get<0>( dp::parse_to<double>( sv, "," ) ) == v );
	VF_TRUE( c, "long double", std::get<0>( dp::parse_to<long double>( sv, "," ) ) == std::strtold( buf, nullptr ) );
	VF_TRUE( c, "float", std::get<0>( dp::parse_to<float>( sv, "," ) ) == std::strtof( buf, nullptr ) );
	auto const r = daw::from_string( daw::tag<double>, sv );
	VF_TRUE( c, "from_string<double>", r and *r == v );
	c.nontrivial( std::hash<double>{ }( v ) );
	c.op( "float" );
}

VF_FAMILY( helpers, 12000, 500000 ) {
	std::string const s = small_text( c, 14, c.rng.coin( ) ? "ab c" : "aZ09f\r\n \tg-.x" );
	vf::Exact<char> ex( s.data( ), s.size( ) );
	char const *const b = ex.data( );
	char const *const e = b + s.size( );
	daw::string_view const sv( b, s.size( ) );
	auto const off = [&]( char const *p ) {
		VF_TRUE( c, "position inside the text", p >= b and p <= e );
		return static_cast<std::size_t>( p - b );
	};
	c.ctx( "text <", s, ">" );
	auto const want = [&]( char const *label, auto r, bool found, std::size_t f, std::size_t l ) {
		VF_EQ( c, vf::cat( label, " found" ).c_str( ), static_cast<bool>( r ), found );
		VF_EQ( c, vf::cat( label, " first" ).c_str( ), off( r.first ), f );
		VF_EQ( c, vf::cat( label, " last" ).c_str( ), off( r.last ), l );
		VF_EQ( c, vf::cat( label, " empty" ).c_str( ), r.empty( ), f == l );
		VF_EQ( c, vf::cat( label, " to_string_view" ).c_str( ), static_cast<std::string>( r.to_string_view( ) ), s.substr( f, l - f ) );
		if( f != l ) {
			VF_EQ( c, vf::cat( label, " to_string" ).c_str( ), r.to_string( ), s.substr( f, l - f ) );
		}
		VF_EQ( c, vf::cat( label, " as" ).c_str( ), r.template as<std::string>( ), s.substr( f, l - f ) );
		How const h = how( [&] { (void)r.empty( true ); } );
		VF_EQ( c, vf::cat( label, " empty(true)" ).c_str( ), name_of( h ), name_of( f == l ? How::parser_empty : How::value ) );
		VF_EQ( c, vf::cat( label, " empty(false)" ).c_str( ), r.empty( false ), f == l );
	};
	auto const pos_or_end = [&]( std::size_t p ) {
		return p == std::string::npos ? s.size( ) : p;
	};
	char const x = "abc z09"[c.rng.below( 7 )];
	char const y = "abc z09"[c.rng.below( 7 )];
	std::string const xy{ x, y };
	std::size_t const px = s.find( x );
	std::size_t const pxy = s.find_first_of( xy );
	want( "until", dp::until( b, e, [&]( char q ) { return q == x; } ), px != std::string::npos, 0, pos_or_end( px ) );
	{
		auto const is_x = [&]( char q ) { return q == x; };
		want( "until may reach the end", dp::until( b, e, is_x, false ), px != std::string::npos, 0, pos_or_end( px ) );
		auto r = dp::until( b, e, is_x, false );
		How const h = how( [&] { r = dp::until( b, e, is_x, true ); } );
		VF_EQ( c, "until refuses to reach the end", name_of( h ), name_of( px == std::string::npos ? How::parser : How::value ) );
		want( "until before the end", r, px != std::string::npos, 0, pos_or_end( px ) );
	}
	want( "until_value", dp::until_value( b, e, x ), px != std::string::npos, 0, pos_or_end( px ) );
	want( "until_value 2", dp::until_value( b, e, x, y ), pxy != std::string::npos, 0, pos_or_end( pxy ) );
	want( "until_values", dp::until_values( b, e, xy ), pxy != std::string::npos, 0, pos_or_end( pxy ) );
	std::size_t const pn = s.find_first_not_of( x );
	want( "until_false", dp::until_false( b, e, [&]( char q ) { return q == x; } ), pn != std::string::npos, 0, pos_or_end( pn ) );
	want( "until negate", dp::until( b, e, dp::negate( [&]( char q ) { return q == x; } ) ), pn != std::string::npos, 0, pos_or_end( pn ) );
	{
		char const arr[3] = { x, y, x };
		std::vector<char> const con( s.begin( ), s.end( ) );
		for( char q : { x, y, 'a', 'z', '0' } ) {
			VF_EQ( c, "value_in array", dp::value_in( q, arr ), q == x or q == y );
			VF_EQ( c, "value_in container", dp::value_in( q, con ), s.find( q ) != std::string::npos );
		}
	}
	want( "until one_of", dp::until( b, e, dp::one_of( x, y ) ), pxy != std::string::npos, 0, pos_or_end( pxy ) );
	want( "until in", dp::until( b, e, dp::in( daw::string_view( xy.data( ), 2 ) ) ), pxy != std::string::npos, 0, pos_or_end( pxy ) );
	std::size_t const lx = s.rfind( x );
	want( "until_last_of", dp::until_last_of( b, e, x ), lx != std::string::npos, 0, pos_or_end( lx ) );
	How h = how( [&] { (void)dp::until( b, e, [&]( char q ) { return q == x; }, true ); } );
	VF_EQ( c, "until throwing", name_of( h ), name_of( px == std::string::npos ? How::parser : How::value ) );
	h = how( [&] { (void)dp::until( b, e, [&]( char q ) { return q == x; }, false ); } );
	VF_EQ( c, "until not throwing", name_of( h ), name_of( How::value ) );

	{ // from_to
		bool const strict = c.rng.coin( );
		std::size_t const f = px;
		std::size_t const t = f == std::string::npos ? f : s.find( y, f );
		bool const fails = f == std::string::npos or ( strict and t == std::string::npos );
		std::optional<dp::find_result_t<char const *>> r;
		h = how( [&] { r = dp::from_to( b, e, x, y, strict ); } );
		VF_EQ( c, "from_to outcome", name_of( h ), name_of( fails ? How::parser : How::value ) );
		if( r ) {
			want( "from_to", *r, f != pos_or_end( t ), f, pos_or_end( t ) );
		}
		r.reset( );
		h = how( [&] {
			r = dp::from_to_pred( b, e, [&]( char q ) { return q == x; }, [&]( char q ) { return q == y; }, strict );
		} );
		VF_EQ( c, "from_to_pred outcome", name_of( h ), name_of( fails ? How::parser : How::value ) );
		if( r ) {
			want( "from_to_pred", *r, f != pos_or_end( t ), f, pos_or_end( t ) );
		}
	}
	{ // splitting
		std::vector<std::size_t> w;
		std::size_t start = 0;
		for( std::size_t i = 0; i < s.size( ); ++i ) {
			if( xy.find( s[i] ) != std::string::npos ) {
				w.push_back( i );
				start = i + 1;
			}
		}
		if( start != s.size( ) ) {
			w.push_back( s.size( ) );
		}
		std::vector<std::size_t> g;
		for( auto p : dp::split_on( b, e, x, y ) ) {
			g.push_back( off( p ) );
		}
		VF_TRUE( c, "split_on", g == w );
		g.clear( );
		for( auto p : dp::split_if( b, e, [&]( char q ) { return q == x or q == y; } ) ) {
			g.push_back( off( p ) );
		}
		VF_TRUE( c, "split_if", g == w );
	}
	{ // blanks
		std::size_t l = 0;
		while( l < s.size( ) and ws( s[l] ) ) {
			++l;
		}
		std::size_t r = s.size( );
		while( r > 0 and ws( s[r - 1] ) ) {
			--r;
		}
		auto sk = dp::skip_ws( b, e );
		VF_EQ( c, "skip_ws", off( sk.first ), l );
		VF_EQ( c, "skip_ws last", off( sk.last ), s.size( ) );
		auto tl = dp::trim_left( b, e );
		VF_EQ( c, "trim_left", tl.to_string_view( ).size( ) == 0 ? std::string( ) : tl.to_string( ), s.substr( l ) );
		auto tr = dp::trim_right( b, e );
		VF_EQ( c, "trim_right", static_cast<std::string>( tr.to_string_view( ) ), s.substr( 0, r ) );
		auto tb = dp::trim( b, e );
		VF_EQ( c, "trim", static_cast<std::string>( tb.to_string_view( ) ), l < r ? s.substr( l, r - l ) : std::string( ) );
		VF_EQ( c, "trim_left sv", static_cast<std::string>( dp::trim_left( sv ) ), s.substr( l ) );
		VF_EQ( c, "trim_right sv", static_cast<std::string>( dp::trim_right( sv ) ), s.substr( 0, r ) );
		VF_EQ( c, "trim sv", static_cast<std::string>( dp::trim( sv ) ), l < r ? s.substr( l, r - l ) : std::string( ) );
		VF_EQ( c, "find_first_of sv", static_cast<std::size_t>( dp::find_first_of( sv, x ) - sv.begin( ) ), pos_or_end( px ) );
		VF_EQ( c, "find_first_of_when sv", static_cast<std::size_t>( dp::find_first_of_when( sv, dp::char_in_t<'a', ' '>{ } ) - sv.begin( ) ),
		       pos_or_end( s.find_first_of( "a " ) ) );
	}
	{ // substring and prefix
		std::string const pat = 1 + small_text( c, 2, "ab c" ).size( ) ? small_text( c, 2, "ab c" ) + x : s;
		std::size_t const pp = s.find( pat );
		want( "matcher", dp::matcher( pat )( b, e ), pp != std::string::npos, 0, pos_or_end( pp ) );
		char const arr[2] = { x, y };
		std::size_t const pa = s.find( xy );
		want( "matcher of an array", dp::matcher( arr )( b, e ), pa != std::string::npos, 0, pos_or_end( pa ) );
		std::string const pre = c.rng.coin( ) ? s.substr( 0, c.rng.below( s.size( ) + 1 ) ) : pat;
		VF_EQ( c, "starts_with", dp::starts_with( b, e, pre.begin( ), pre.end( ), []( char p, char q ) { return p == q; } ), s.compare( 0, pre.size( ), pre ) == 0 and s.size( ) >= pre.size( ) );
	}
	{ // numbers inside text
		std::size_t const st = s.find_first_of( "-0123456789" );
		std::optional<dp::find_result_t<char const *>> r;
		h = how( [&] { r = dp::find_number( b, e ); } );
		VF_EQ( c, "find_number outcome", name_of( h ), name_of( st == std::string::npos ? How::parser : How::value ) );
		if( r ) {
			std::size_t q = st + 1;
			bool dot = false;
			while( q < s.size( ) and ( ( s[q] >= '0' and s[q] <= '9' ) or ( s[q] == '.' and not dot ) ) ) {
				dot = dot or s[q] == '.';
				++q;
			}
			VF_EQ( c, "find_number first", off( r->first ), st );
			VF_EQ( c, "find_number last", off( r->last ), q );
		}
	}
	{ // line ends
		std::size_t const cnt = c.rng.below( 2 ) + 1;
		dp::is_crlf<char> m( cnt );
		for( std::size_t i = 0; i < s.size( ); ++i ) {
			bool w = i + 1 >= 2 * cnt;
			for( std::size_t k = 0; w and k < 2 * cnt; ++k ) {
				w = s[i - k] == ( k % 2 == 0 ? '\n' : '\r' );
			}
			VF_EQ( c, "is_crlf", m( s[i] ), w );
		}
	}
	{ // expectations
		VF_EQ( c, "expect", name_of( how( [&] { dp::expect( x, y ); } ) ), name_of( x == y ? How::value : How::parser ) );
		VF_EQ( c, "expect 2", name_of( how( [&] { dp::expect( x, y, 'a' ); } ) ), name_of( x == y or x == 'a' ? How::value : How::parser ) );
		auto const is = []( char k ) {
			return [k]( char q ) { return q == k; };
		};
		VF_EQ( c, "expect_true", name_of( how( [&] { dp::expect_true( x, is( y ), is( 'b' ) ); } ) ), name_of( x == y or x == 'b' ? How::value : How::parser ) );
		VF_EQ( c, "is_true", dp::is_true( x, is( y ), is( 'b' ), is( ' ' ) ), x == y or x == 'b' or x == ' ' );
		VF_EQ( c, "assert_equal", name_of( how( [&] { dp::assert_equal( x, y ); } ) ), name_of( x == y ? How::value : How::parser ) );
		VF_EQ( c, "assert_not_equal", name_of( how( [&] { dp::assert_not_equal( x, y ); } ) ), name_of( x != y ? How::value : How::parser ) );
		VF_EQ( c, "assert_empty", name_of( how( [&] { dp::assert_empty( b, e ); } ) ), name_of( s.empty( ) ? How::value : How::parser ) );
		VF_EQ( c, "assert_not_empty", name_of( how( [&] { dp::assert_not_empty( b, e ); } ) ), name_of( not s.empty( ) ? How::value : How::parser_empty ) );
	}
	c.nontrivial( std::hash<std::string>{ }( s + xy ) );
	c.op( "parser helpers" );
}

VF_FAMILY( classes, 256, 256 ) {
	auto const u = static_cast<unsigned char>( c.idx );
	char const ch = static_cast<char>( u );
	c.ctx( "character ", static_cast<int>( u ) );
	bool const lower = u >= 'a' and u <= 'z';
	bool const upper = u >= 'A' and u <= 'Z';
	bool const digit = u >= '0' and u <= '9';
	VF_EQ( c, "is_alpha", dp::is_alpha( ch ), lower or upper );
	VF_EQ( c, "is_number", dp::is_number( ch ), digit );
	VF_EQ( c, "is_alphanumeric", dp::is_alphanumeric( ch ), lower or upper or digit );
	VF_EQ( c, "is_hex", dp::is_hex( ch ), digit or ( u >= 'a' and u <= 'f' ) or ( u >= 'A' and u <= 'F' ) );
	VF_EQ( c, "is_alpha char32", dp::is_alpha( static_cast<char32_t>( u ) ), lower or upper );
	VF_EQ( c, "is_space", dp::is_space( ch ), ch == ' ' );
	VF_EQ( c, "not_space", dp::not_space( ch ), ch != ' ' );
	VF_EQ( c, "is_cr", dp::is_cr( ch ), ch == '\n' );
	VF_EQ( c, "is_escape", dp::is_escape( ch ), ch == '\\' );
	VF_EQ( c, "is_quote", dp::is_quote( ch ), ch == '"' );
	VF_EQ( c, "whitespace", dp::is_unicode_whitespace( ch ), ws( ch ) );
	VF_EQ( c, "not whitespace", dp::not_unicode_whitespace( ch ), not ws( ch ) );
	VF_EQ( c, "whitespace u", dp::is_unicode_whitespace( static_cast<char32_t>( u ) ), ws( ch ) or u == 0x85 or u == 0xA0 );
	VF_TRUE( c, "pred_true", dp::pred_true( ch ) and not dp::pred_false( ch ) );
	for( int k = 0; k < 256; ++k ) {
		auto const d = static_cast<char>( k );
		VF_EQ( c, "is_a", dp::is_a( ch, d ), ch == d );
		VF_EQ( c, "is_a 3", dp::is_a( ch, d, 'q', '7' ), ch == d or ch == 'q' or ch == '7' );
		VF_EQ( c, "in_range", dp::in_range( ch, d, 'z' ), d <= ch and ch <= 'z' );
		VF_EQ( c, "char_in_t", ( dp::char_in_t<'a', '\x80', ' '>{ }( d ) ), d == 'a' or d == '\x80' or d == ' ' );
	}
	c.nontrivial( u );
	c.op( "character class" );
}

VF_FAMILY( whole_unicode, 64, 256 ) {
	std::uint32_t const lo = static_cast<std::uint32_t>( c.idx % 64 ) * ( 0x110000U / 64U );
	for( std::uint32_t u = lo; u < lo + 0x110000U / 64U; ++u ) {
		bool const w = ( u >= 9 and u <= 13 ) or u == 0x20 or u == 0x85 or u == 0xA0 or u == 0x1680 or ( u >= 0x2000 and u <= 0x200A ) or
		               u == 0x2028 or u == 0x2029 or u == 0x202F or u == 0x205F or u == 0x3000;
		if( dp::is_unicode_whitespace( static_cast<char32_t>( u ) ) != w ) {
			c.ctx( "code point ", u );
			c.fail( "unicode whitespace", "differs from the White_Space property" );
		}
	}
	c.nontrivial( lo );
	c.op( "code point block" );
}

VF_FAMILY( arguments, 15000, 300000 ) {
	struct Want {
		std::string name, value;
	};
	std::vector<std::string> text{ "prog" };
	std::vector<Want> want;
	std::size_t const n = c.rng.below( 6 );
	for( std::size_t i = 0; i < n; ++i ) {
		Want w;
		std::string t;
		static char const *const names[] = { "a", "b", "verbose", "a-b", "", "x y" };
		w.value = small_text( c, 4, "ab=- 1" );
		if( c.rng.chance( 2, 3 ) ) {
			w.name = names[c.rng.below( 6 )];
			t = "--" + w.name;
			if( c.rng.chance( 3, 4 ) ) {
				t += '=';
				t += c.rng.coin( ) ? "\"" + w.value + "\"" : w.value;
			} else {
				w.value.clear( );
			}
		} else {
			if( w.value.compare( 0, 2, "--" ) == 0 ) {
				w.value[0] = 'q';
			}
			t = c.rng.coin( ) ? "\"" + w.value + "\"" : w.value;
		}
		text.push_back( t );
		want.push_back( w );
	}
	std::vector<std::unique_ptr<char[]>> bufs;
	std::vector<char *> argv;
	for( auto const &t : text ) {
		bufs.push_back( std::make_unique<char[]>( t.size( ) + 1 ) );
		std::memcpy( bufs.back( ).get( ), t.c_str( ), t.size( ) + 1 );
		argv.push_back( bufs.back( ).get( ) );
	}
	c.ctx( "arguments ", n );
	daw::Arguments const args( static_cast<int>( argv.size( ) ), argv.data( ) );
	VF_EQ( c, "program_name", static_cast<std::string>( args.program_name( ) ), std::string( "prog" ) );
	VF_EQ( c, "size", args.size( ), want.size( ) );
	VF_EQ( c, "empty", args.empty( ), want.empty( ) );
	std::size_t i = 0;
	for( auto const &a : args ) {
		c.ctx( "argument ", i, " <", text[i + 1], ">" );
		VF_EQ( c, "name", static_cast<std::string>( a.name ), want[i].name );
		VF_EQ( c, "value", static_cast<std::string>( a.value ), want[i].value );
		VF_EQ( c, "indexed", static_cast<std::string>( args[i].value ), want[i].value );
		++i;
	}
	VF_EQ( c, "visited", i, want.size( ) );
	for( char const *nm : { "a", "b", "verbose", "a-b", "x y", "zz" } ) {
		std::optional<std::size_t> p;
		for( std::size_t k = 0; k < want.size( ) and not p; ++k ) {
			if( want[k].name == nm ) {
				p = k;
			}
		}
		VF_TRUE( c, "find_argument_position", args.find_argument_position( nm ) == p );
		auto const v = args[daw::string_view( nm )];
		VF_EQ( c, "lookup", v.has_value( ), p.has_value( ) );
		if( p ) {
			VF_EQ( c, "looked up value", static_cast<std::string>( *v ), want[*p].value );
		}
	}
	std::optional<std::size_t> fn;
	for( std::size_t k = 0; k < want.size( ) and not fn; ++k ) {
		if( not want[k].name.empty( ) ) {
			fn = k;
		}
	}
	VF_TRUE( c, "first_named_argument", args.first_named_argument( ) == fn );
	VF_EQ( c, "has_named_argument", args.has_named_argument( ), fn.has_value( ) );
	std::uint64_t hash = n;
	for( auto const &t : text ) {
		hash = vf::mix( hash, std::hash<std::string>{ }( t ) );
	}
	c.nontrivial( hash );
	c.op( "argument list" );
}

VF_MAIN( )
