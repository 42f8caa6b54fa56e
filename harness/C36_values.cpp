// C36 (values): text, hashes, bits, integers, floating point, parsing and
// algorithms, each evaluated by the compiler and again at run time.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -fconstexpr-steps=400000000
#include <limits>
#include <memory>
#include <daw/daw_string_view.h>
#include <daw/algorithms/daw_algorithm_accumulate.h>
#include <daw/daw_algorithm.h>
#include <daw/daw_bit.h>
#include <daw/daw_bit_count.h>
#include <daw/daw_bitset.h>
#include <daw/daw_bit_queues.h>
#include <daw/daw_container_algorithm.h>
#include <daw/daw_cxmath.h>
#include <daw/daw_endian.h>
#include <daw/daw_fnv1a_hash.h>
#include <daw/daw_generic_hash.h>
#include <daw/daw_int_cmp.h>
#include <daw/daw_integer_reverse.h>
#include <daw/daw_math.h>
#include <daw/daw_metro_hash.h>
#include <daw/daw_natural.h>
#include <daw/daw_parse_to.h>
#include <daw/daw_parser_helper_sv.h>
#include <daw/daw_random.h>
#include <daw/daw_sip_hash.h>
#include <daw/daw_sort_n.h>
#include <daw/daw_string_view2.h>
#include <daw/daw_uint_buffer.h>
#include <daw/daw_uint_types.h>

#include "vf.h"
#include "cx.h"

namespace {
	// ---- text -------------------------------------------------------------
	template<typename CharT>
	constexpr CharT letter( cx::Rng &r ) {
		// a high letter shows sign extension in a narrowing comparison
		switch( r.below( 6 ) ) {
		case 0:
			return static_cast<CharT>( 0xE9 );
		case 1:
			return static_cast<CharT>( sizeof( CharT ) == 1 ? 'b' : 0x161 ); // low byte 'a'
		case 2:
			return static_cast<CharT>( 0 );
		case 3:
			return static_cast<CharT>( 'b' );
		default:
			return static_cast<CharT>( 'a' );
		}
	}

	template<typename CharT, typename SV = daw::basic_string_view<CharT>>
	constexpr cx::Out text( std::uint64_t seed ) {
		cx::Out o{ };
		cx::Rng r{ seed * 77U };
		std::array<CharT, 24> a{ };
		std::array<CharT, 4> b{ };
		for( auto &x : a ) {
			x = letter<CharT>( r );
		}
		for( int round = 0; round < 6; ++round ) {
			auto const n = r.below( a.size( ) + 1U );
			auto const m = r.below( b.size( ) + 1U );
			if( n >= m and r.coin( ) ) {
				auto const at = r.below( n - m + 1U );
				for( std::size_t i = 0; i < m; ++i ) {
					b[i] = a[at + i];
				}
			} else {
				for( auto &x : b ) {
					x = letter<CharT>( r );
				}
			}
			SV const h( a.data( ), n );
			SV const w( b.data( ), m );
			auto const pos = r.below( n + 1U );
			auto const anypos = r.below( n + 4U );
			CharT const ch = letter<CharT>( r );
			o( 0, "find(char)", h.find( ch ) );
			o( 0, "find(char)", h.find( ch, pos ) );
			o( 1, "find(view)", h.find( w, pos ) );
			o( 2, "rfind", h.rfind( w, anypos ) );
			o( 2, "rfind", h.rfind( ch, anypos ) );
			o( 3, "find_first_of", h.find_first_of( w, anypos ) );
			o( 4, "find_first_not_of", h.find_first_not_of( w, anypos ) );
			o( 5, "find_last_of", h.find_last_of( w ) );
			o( 6, "find_last_not_of", h.find_last_not_of( w ) );
			o( 7, "search", h.search( w ) );
			o( 8, "compare", static_cast<int>( h.compare( w ) ) );
			o( 8, "compare", h == w );
			o( 8, "compare", h < w );
			o( 9, "starts_with", h.starts_with( w ) );
			o( 9, "starts_with", h.starts_with( ch ) );
			o( 10, "ends_with", h.ends_with( w ) );
			o( 10, "ends_with", h.ends_with( ch ) );
			o( 11, "contains", h.contains( w ) );
			o( 12, "substr", h.substr( pos, anypos ).size( ) );
			{
				SV v = h;
				SV const p = v.pop_front_until( ch );
				o( 13, "pop_front_until(char)", p.size( ) );
				o( 13, "pop_front_until(char)", v.size( ) );
			}
			{
				SV v = h;
				SV const p = v.pop_back_until( ch );
				o( 14, "pop_back_until(char)", p.size( ) );
				o( 14, "pop_back_until(char)", v.size( ) );
			}
			if( m != 0 ) {
				SV v = h;
				SV const p = v.pop_front_until( w );
				o( 15, "pop_front_until(view)", p.size( ) );
				o( 15, "pop_front_until(view)", v.size( ) );
				v = h;
				SV const q = v.pop_back_until( w );
				o( 16, "pop_back_until(view)", q.size( ) );
				o( 16, "pop_back_until(view)", v.size( ) );
				v = h;
				SV const t = v.try_pop_front_until( w );
				o( 17, "try_pop_front_until(view)", t.size( ) );
				o( 17, "try_pop_front_until(view)", v.size( ) );
				v = h;
				SV const u = v.try_pop_back_until( w );
				o( 18, "try_pop_back_until(view)", u.size( ) );
				o( 18, "try_pop_back_until(view)", v.size( ) );
			}
			{
				SV v = h;
				v.trim( );
				o( 19, "trim", v.size( ) );
				v = h;
				auto const k = r.below( n + 1U );
				o( 20, "pop_front(n)", v.pop_front( k ).size( ) );
				v.remove_suffix( r.below( v.size( ) + 1U ) );
				o( 21, "remove_suffix", v.size( ) );
				v.remove_prefix( r.below( v.size( ) + 1U ) );
				o( 22, "remove_prefix", v.size( ) );
			}
			o( 23, "find_first_of_if", h.find_first_of_if( [&]( CharT x ) { return x == ch; } ) );
			o( 24, "find_last_not_of_if", h.find_last_not_of_if( [&]( CharT x ) { return x == ch; } ) );
			o( 25, "find_first_match", h.find_first_match( { w, SV( &ch, 1 ) } ) );
		}
		return o;
	}
	constexpr cx::Out prog_text_char( std::uint64_t s ) {
		return text<char>( s );
	}
	constexpr cx::Out prog_text_wchar( std::uint64_t s ) {
		return text<wchar_t>( s );
	}
	constexpr cx::Out prog_text_char16( std::uint64_t s ) {
		return text<char16_t>( s );
	}
	constexpr cx::Out prog_text_uchar( std::uint64_t s ) {
		return text<char8_t>( s );
	}

	// ---- hashes -----------------------------------------------------------
	constexpr cx::Out prog_hashes( std::uint64_t seed ) {
		cx::Out o{ };
		cx::Rng r{ seed * 31U };
		std::array<char, 80> t{ };
		for( auto &x : t ) {
			x = static_cast<char>( r.next( ) );
		}
		std::array<char, 16> key{ };
		for( auto &x : key ) {
			x = static_cast<char>( r.next( ) );
		}
		auto const n = seed < 74 ? seed : r.below( 80 );
		daw::string_view const sv( t.data( ), n );
		o( 0, "metro::hash64", daw::metro::hash64( sv, r.next( ) ) );
		o( 1, "siphash24", daw::siphash24( t.data( ), n, key.data( ) ) );
		o( 2, "fnv1a_hash(ptr,len)", daw::fnv1a_hash( t.data( ), n ) );
		o( 3, "fnv1a_hash_t(view)", daw::fnv1a_hash_t{ }( sv ) );
		o( 4, "fnv1a_hash_t(iterators)", daw::fnv1a_hash_t{ }( t.begin( ), t.begin( ) + static_cast<std::ptrdiff_t>( n ) ) );
		o( 5, "fnv1a_hash(int)", daw::fnv1a_hash( r.edgy<int>( ) ) );
		o( 5, "fnv1a_hash(int)", daw::fnv1a_hash( r.edgy<std::uint64_t>( ) ) );
		o( 5, "fnv1a_hash(int)", daw::fnv1a_hash( r.edgy<short>( ) ) );
		o( 6, "generic_hash<8>(int)", daw::generic_hash<8>( r.edgy<std::int64_t>( ) ) );
		o( 7, "generic_hash<4>(int)", daw::generic_hash<4>( r.edgy<int>( ) ) );
		daw::static_random sr( r.next( ) );
		o( 8, "static_random", sr( ) );
		o( 8, "static_random", sr( ) );
		return o;
	}

	// ---- bits and integers ------------------------------------------------
	template<typename T>
	constexpr void bits( cx::Out &o, cx::Rng &r ) {
		constexpr unsigned w = sizeof( T ) * 8U;
		T const v = r.edgy<T>( );
		unsigned const a = static_cast<unsigned>( r.below( w ) );
		unsigned const b = static_cast<unsigned>( r.below( w ) );
		o( 0, "to_big_endian", daw::to_big_endian( v ) );
		o( 1, "to_little_endian", daw::to_little_endian( v ) );
		o( 2, "network_to_host_endian", daw::network_to_host_endian( v ) );
		o( 3, "to_native_endian", daw::to_native_endian<daw::endian::big>( v ) );
		o( 4, "reverse_bits", daw::integers::reverse_bits( v ) );
		o( 5, "set_bits", daw::set_bits( v, a, b ) );
		o( 6, "unset_bits", daw::unset_bits( v, a, b ) );
		o( 7, "get_bits", daw::get_bits( v, a, b ) );
		o( 8, "mask_msb", daw::mask_msb<T>( a ) );
		o( 9, "mask_lsb", daw::mask_lsb<T>( a ) );
		o( 10, "get_left_mask", daw::get_left_mask<T>( a ) );
		o( 11, "get_right_mask", daw::get_right_mask<T>( b ) );
		o( 12, "are_set", daw::are_set( v, static_cast<T>( T{ 1 } << a ) ) );
		o( 13, "popcount", daw::cxmath::popcount( v ) );
		o( 14, "is_odd", daw::cxmath::is_odd( v ) );
	}
	template<typename T>
	constexpr void zeros( cx::Out &o, cx::Rng &r ) {
		T const v = r.edgy<T>( );
		o( 15, "count_leading_zeroes", daw::cxmath::count_leading_zeroes( v ) );
		if( v != 0 ) {
			o( 16, "count_trailing_zeros", daw::cxmath::count_trailing_zeros( v ) );
		}
	}
	constexpr cx::Out prog_bits( std::uint64_t seed ) {
		cx::Out o{ };
		cx::Rng r{ seed * 131U };
		for( int i = 0; i < 4; ++i ) {
			bits<std::uint8_t>( o, r );
			bits<std::uint16_t>( o, r );
			bits<std::uint32_t>( o, r );
			bits<std::uint64_t>( o, r );
			zeros<std::uint32_t>( o, r );
			zeros<std::uint64_t>( o, r );
			o( 18, "count_digits", daw::cxmath::count_digits( r.edgy<std::int64_t>( ) >> 1 ) );
			o( 18, "count_digits", daw::cxmath::count_digits( r.edgy<std::uint32_t>( ) ) );
		}
		daw::bitset<70> bs{ };
		for( int i = 0; i < 40; ++i ) {
			auto const at = r.below( 70 );
			if( r.coin( ) ) {
				bs.set( at );
			} else {
				bs.set( at, r.coin( ) );
			}
			o( 19, "bitset", bs.test( r.below( 70 ) ) );
		}
		daw::basic_bit_queue<std::uint32_t> q{ };
		for( int i = 0; i < 24; ++i ) {
			auto const k = r.below( 9 );
			switch( r.below( 4 ) ) {
			case 0:
				if( q.size( ) + k <= 32U and k > 0 ) {
					q.push_back( static_cast<std::uint32_t>( r.next( ) ), k );
				}
				break;
			case 1:
				if( q.can_pop( k ) and k > 0 ) {
					auto q2 = q;
					o( 24, "bit queue copy", q2.pop_front( k ) );
				}
				break;
			case 2:
				if( q.can_pop( k ) and k > 0 ) {
					o( 20, "bit queue pop_front", q.pop_front( k ) );
				}
				break;
			default:
				if( q.can_pop( k ) and k > 0 ) {
					o( 21, "bit queue pop_back", q.pop_back( k ) );
				}
				break;
			}
			o( 22, "bit queue size", q.size( ) );
			o( 23, "bit queue value", q.value( ) );
		}
		return o;
	}

	template<typename A, typename B>
	constexpr void comparisons( cx::Out &o, cx::Rng &r ) {
		A const a = r.edgy<A>( );
		B const b = r.coin( ) ? static_cast<B>( a ) : r.edgy<B>( );
		o( 0, "cmp_equal", daw::cmp_equal( a, b ) );
		o( 1, "cmp_less", daw::cmp_less( a, b ) );
		o( 2, "cmp_greater", daw::cmp_greater( a, b ) );
		o( 3, "cmp_less_equal", daw::cmp_less_equal( a, b ) );
		o( 4, "in_range", daw::in_range<A>( b ) );
		o( 5, "cxmath::cmp_less", daw::cxmath::cmp_less( a, b ) );
		o( 6, "cxmath::cmp_equal", daw::cxmath::cmp_equal( a, b ) );
		o( 7, "signbit", daw::signbit( a ) );
	}
	template<typename U, typename N>
	constexpr void uint_ops( cx::Out &o, cx::Rng &r ) {
		N const a = r.edgy<N>( );
		N const b = r.edgy<N>( );
		U x = static_cast<U>( a );
		U const y = static_cast<U>( b );
		auto const raw = []( auto v ) { return static_cast<std::uint64_t>( v ); };
		o( 8, "UInt +", raw( x + y ) );
		o( 9, "UInt -", raw( x - y ) );
		o( 10, "UInt *", raw( x * y ) );
		if( b != 0 ) {
			o( 11, "UInt /", raw( x / y ) );
		}
		o( 12, "UInt &", raw( x & y ) );
		o( 12, "UInt |", raw( x | y ) );
		o( 12, "UInt ^", raw( x ^ y ) );
		o( 13, "UInt ~", raw( ~x ) );
		int const s = static_cast<int>( r.below( sizeof( N ) * 8U ) );
		o( 14, "UInt <<", raw( x << s ) );
		o( 15, "UInt >>", raw( x >> s ) );
		x += y;
		o( 16, "UInt +=", raw( x ) );
		x *= y;
		x -= y;
		o( 17, "UInt -=", raw( x ) );
		++x;
		x ^= y;
		o( 18, "UInt ^=", raw( x ) );
		o( 19, "UInt ==", x == y );
		o( 20, "UInt <", x < y );
	}
	constexpr cx::Out prog_integers( std::uint64_t seed ) {
		cx::Out o{ };
		cx::Rng r{ seed * 1009U };
		for( int i = 0; i < 3; ++i ) {
			comparisons<int, unsigned>( o, r );
			comparisons<signed char, std::uint64_t>( o, r );
			comparisons<std::uint64_t, std::int64_t>( o, r );
			comparisons<short, int>( o, r );
			uint_ops<daw::UInt8, std::uint8_t>( o, r );
			uint_ops<daw::UInt16, std::uint16_t>( o, r );
			uint_ops<daw::UInt32, std::uint32_t>( o, r );
			uint_ops<daw::UInt64, std::uint64_t>( o, r );
		}
		return o;
	}

	// ---- floating point ---------------------------------------------------
	template<typename Real>
	constexpr Real real( cx::Rng &r ) {
		Real v = static_cast<Real>( static_cast<std::int64_t>( r.edgy<std::int32_t>( ) ) );
		if( r.coin( ) ) {
			v /= static_cast<Real>( 1 + r.below( 1000 ) );
		}
		return v;
	}
	template<typename Real>
	constexpr void floats( cx::Out &o, cx::Rng &r ) {
		namespace m = daw::cxmath;
		Real const v = real<Real>( r );
		Real const s = real<Real>( r );
		o( 0, "fp_classify", static_cast<int>( m::fp_classify( v ) ) );
		o( 1, "cxmath::abs", m::abs( v ) );
		o( 2, "math::abs", daw::math::abs( v ) );
		o( 3, "float_abs", daw::float_abs( v ) );
		o( 4, "copy_sign", m::copy_sign( v, s ) );
		o( 5, "signbit", v == 0 ? false : m::signbit( v ) );
		o( 6, "get_significand", m::get_significand( v ) );
		if( v != 0 ) {
			o( 7, "get_exponent", m::get_exponent( v ) );
			o( 8, "set_exponent", m::set_exponent( v, r.range( -20, 20 ) ) );
			o( 9, "adjust_exponent", m::adjust_exponent( v, r.range( -20, 20 ) ) );
			o( 10, "intxp", *m::intxp( v ) );
			o( 11, "ldexp", m::ldexp( v, r.range( -30, 30 ) ) );
		}
		if( v > 0 ) {
			o( 12, "sqrt", m::sqrt( v ) );
		}
		o( 13, "pow2", m::pow2<Real>( r.range( -100, 100 ) ) );
		o( 14, "is_nan", m::is_nan( v ) );
		o( 14, "is_inf", m::is_inf( v ) );
		o( 14, "is_finite", m::is_finite( v ) );
		o( 15, "nearly_equal", daw::math::nearly_equal( v, r.coin( ) ? v * ( 1 + std::numeric_limits<Real>::epsilon( ) ) : s ) );
	}
	constexpr cx::Out prog_floats( std::uint64_t seed ) {
		namespace m = daw::cxmath;
		cx::Out o{ };
		cx::Rng r{ seed * 271U };
		for( int i = 0; i < 3; ++i ) {
			floats<double>( o, r );
			floats<float>( o, r );
			double const d = real<double>( r );
			o( 16, "dpow2", m::dpow2( r.range( -300, 300 ) ) );
			o( 17, "dpow10", m::dpow10( r.range( -300, 300 ) ) );
			o( 18, "fpow10", m::fpow10( r.range( -35, 35 ) ) );
			o( 19, "pow10", m::pow10( r.range( 0, 18 ) ) );
			o( 20, "adj_ulp", m::adj_ulp( 1.0 + d * d, r.range( -9, 9 ) ) );
			o( 21, "round", daw::math::round( d ) );
			o( 22, "floor", daw::math::floor( d ) );
			o( 23, "ceil", daw::math::ceil( d ) );
			int const by = r.range( 1, 20 );
			o( 24, "floor_by", daw::math::floor_by( d, by ) );
			o( 24, "round_by", daw::math::round_by( d, by ) );
			double const x = d - 40.0 * daw::math::floor( d / 40.0 );
			o( 25, "sin", daw::math::sin( x ) );
			o( 26, "cos", daw::math::cos( x ) );
			std::int64_t const base = r.range( -9, 9 );
			o( 27, "cxmath::pow", m::pow( base, static_cast<std::int32_t>( r.range( 1, 18 ) ) ) );
			o( 28, "pow_n", m::pow_n( 1.5, static_cast<unsigned>( r.below( 30 ) ) ) );
			o( 29, "factorial", daw::math::factorial( r.range( 0, 20 ) ) );
			o( 30, "max", ( daw::max )( r.range( 0, 9 ), r.range( 0, 9 ), r.range( 0, 9 ) ) );
			o( 30, "min", ( daw::min )( r.range( 0, 9 ), r.range( 0, 9 ), r.range( 0, 9 ) ) );
			daw::natural_t<int> n1( r.range( 1, 50 ) );
			daw::natural_t<int> const n2( r.range( 1, 50 ) );
			n1 *= n2;
			n1 += n2;
			o( 31, "natural", n1.value( ) );
			++n1;
			o( 31, "natural", ( n1 * n2 ).value( ) );
		}
		return o;
	}

	// ---- parsing ----------------------------------------------------------
	template<typename T>
	constexpr void parse( cx::Out &o, cx::Rng &r ) {
		std::array<char, 24> buf{ };
		std::size_t n = 0;
		auto v = static_cast<std::uint64_t>( r.edgy<T>( ) );
		if constexpr( std::is_signed_v<T> ) {
			if( static_cast<std::int64_t>( v ) < 0 ) {
				buf[n++] = '-';
				v = 0U - v;
			}
		}
		std::size_t digits = 1;
		for( std::uint64_t k = v; k > 9U; k /= 10U ) {
			++digits;
		}
		for( std::size_t i = digits; i > 0; --i, v /= 10U ) {
			buf[n + i - 1] = static_cast<char>( '0' + v % 10U );
		}
		n += digits;
		daw::string_view const sv( buf.data( ), n );
		o( 0, "parse_to_value", daw::parser::converters::parse_to_value( sv, daw::tag<T> ) );
		if( digits > static_cast<std::size_t>( std::numeric_limits<T>::digits10 ) ) {
			return;
		}
		if constexpr( std::is_signed_v<T> ) {
			o( 1, "parse_int", daw::parser::parse_int<T>( sv ) );
		} else {
			o( 2, "parse_unsigned_int", daw::parser::parse_unsigned_int<T>( sv ) );
		}
	}
	constexpr cx::Out prog_parsing( std::uint64_t seed ) {
		namespace dp = daw::parser;
		cx::Out o{ };
		cx::Rng r{ seed * 613U };
		parse<int>( o, r );
		parse<unsigned>( o, r );
		parse<std::int64_t>( o, r );
		parse<std::uint64_t>( o, r );
		parse<short>( o, r );
		parse<std::uint8_t>( o, r );
		std::array<char, 12> t{ };
		char const alphabet[] = " ab\t0,\"\\Z\n9f";
		for( auto &x : t ) {
			x = alphabet[r.below( 12 )];
		}
		daw::string_view const sv( t.data( ), r.below( t.size( ) + 1U ) );
		char const ch = alphabet[r.below( 12 )];
		o( 3, "trim_left", dp::trim_left( sv ).size( ) );
		o( 4, "trim_right", dp::trim_right( sv ).size( ) );
		o( 5, "trim", dp::trim( sv ).size( ) );
		o( 6, "find_first_of", dp::find_first_of( sv, ch ) - sv.begin( ) );
		auto const u = dp::until( sv.begin( ), sv.end( ), [=]( char c ) { return c == ch; }, false );
		o( 7, "until", u.first - sv.begin( ) );
		o( 7, "until", u.last - sv.begin( ) );
		for( char const c : t ) {
			o( 8, "is_alpha", dp::is_alpha( c ) );
			o( 9, "is_number", dp::is_number( c ) );
			o( 10, "is_hex", dp::is_hex( c ) );
			o( 11, "is_unicode_whitespace", dp::is_unicode_whitespace( c ) );
		}
		return o;
	}

	// ---- algorithms -------------------------------------------------------
	constexpr cx::Out prog_algorithms( std::uint64_t seed ) {
		namespace da = daw::algorithm;
		cx::Out o{ };
		cx::Rng r{ seed * 811U };
		std::array<int, 14> a{ };
		for( auto &x : a ) {
			x = r.range( -5, 5 );
		}
		auto const fold = [&]( std::size_t lane, char const *what, auto const &rng ) {
			for( auto const &x : rng ) {
				o( lane, what, x );
			}
		};
		int const k = r.range( -5, 5 );
		auto const less = [=]( int x ) { return x < k; };
		auto const off = [&]( auto it ) { return it - a.begin( ); };
		o( 0, "find_if_not", off( da::find_if_not( a.begin( ), a.end( ), less ) ) );
		o( 1, "find", off( da::find( a.begin( ), a.end( ), k ) ) );
		o( 2, "all_of", da::all_of( a.begin( ), a.end( ), less ) );
		o( 2, "any_of", da::any_of( a.begin( ), a.end( ), less ) );
		o( 2, "none_of", da::none_of( a.begin( ), a.end( ), less ) );
		o( 3, "count_if", da::count_if( a.begin( ), a.end( ), less ) );
		o( 4, "max_element", off( da::max_element( a.begin( ), a.end( ) ) ) );
		auto const mm = da::minmax_element( a.begin( ), a.end( ) );
		o( 3, "minmax_element", off( mm.min_element ) );
		o( 3, "minmax_element", off( mm.max_element ) );
		o( 5, "accumulate", da::accumulate( a.begin( ), a.end( ), 0 ) );
		o( 5, "reduce", da::reduce( a.begin( ), a.end( ), 1, []( int x, int y ) { return x * 2 + y; } ) );
		o( 5, "contains", da::contains( a.begin( ), a.end( ), k ) );
		o( 5, "find_index_of", da::find_index_of( a.begin( ), a.end( ), k ) );
		{
			std::array<int, 16> b{ };
			for( std::size_t i = 0; i < b.size( ); ++i ) {
				b[i] = a[i % a.size( )];
			}
			daw::sort_16( b.begin( ) );
			fold( 6, "sort_16", b );
			o( 7, "lower_bound", da::lower_bound( b.begin( ), b.end( ), k, std::less<>{ } ) - b.begin( ) );
			o( 7, "upper_bound", da::upper_bound( b.begin( ), b.end( ), k ) - b.begin( ) );
			o( 18, "is_sorted", da::is_sorted( b.begin( ), b.end( ) ) );
			std::array<int, 16> d{ };
			auto const e = da::set_intersection( b.begin( ), b.begin( ) + 8, b.begin( ) + 4, b.end( ), d.begin( ) );
			o( 19, "set_intersection", e - d.begin( ) );
			fold( 19, "set_intersection", d );
		}
		{
			auto b = a;
			daw::sort( b.data( ), b.data( ) + r.below( 15 ) );
			fold( 8, "sort", b );
			da::reverse( b.begin( ), b.end( ) );
			fold( 10, "reverse", b );
			auto const e = da::remove_if( b.begin( ), b.end( ), less );
			o( 9, "remove_if", e - b.begin( ) );
			da::iota( b.begin( ), b.end( ), k );
			fold( 9, "iota", b );
		}
		{
			std::array<int, 14> b{ };
			da::copy( a.begin( ), a.end( ), b.begin( ) );
			fold( 11, "copy", b );
			da::transform( a.begin( ), a.end( ), b.begin( ), []( int x ) { return x * 3; } );
			fold( 12, "transform", b );
			da::fill( b.begin( ), b.begin( ) + 5, k );
			fold( 13, "fill", b );
			auto const e = da::copy_if( a.begin( ), a.end( ), b.begin( ), less );
			o( 14, "copy_if", e - b.begin( ) );
			fold( 14, "copy_if", b );
			da::copy_n( a.begin( ), b.begin( ), r.below( 15 ) );
			fold( 15, "copy_n", b );
			o( 16, "equal", da::equal( a.begin( ), a.end( ), b.begin( ), b.end( ) ) );
			o( 17, "lexicographical_compare", da::lexicographical_compare( a.begin( ), a.end( ), b.begin( ), b.end( ) ) );
		}
		return o;
	}

	CX_RUN( text_char, 120, 800 );
	CX_RUN( text_wchar, 75, 400 );
	CX_RUN( text_char16, 30, 200 );
	CX_RUN( text_uchar, 45, 200 );
	CX_RUN( hashes, 270, 800 );
	CX_RUN( bits, 180, 1200 );
	CX_RUN( integers, 180, 1200 );
	CX_RUN( floats, 180, 1200 );
	CX_RUN( parsing, 180, 1200 );
	CX_RUN( algorithms, 180, 1200 );
} // namespace

VF_MAIN( )
