// C18: the math helpers against libm, exact integer arithmetic and the
// definitions of the operations.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include <limits>
#include <memory>

#include <daw/daw_arith_traits.h>
#include <daw/daw_cxmath.h>
#include <daw/daw_int_cmp.h>
#include <daw/daw_math.h>
#include <daw/daw_natural.h>

#include "vf.h"

#include <bit>
#include <cmath>
#include <cstring>
#include <type_traits>

namespace {
	namespace cx = daw::cxmath;
	using i128 = __int128;
	using u128 = unsigned __int128;

	template<typename T>
	T edgy( vf::Case &c ) {
		return c.rng.edgy<T>( );
	}

	template<typename A, typename B>
	void pair_one( vf::Case &c ) {
		A const a = edgy<A>( c );
		B b = edgy<B>( c );
		switch( c.rng.below( 4 ) ) {
		case 0:
			b = static_cast<B>( a );
			break;
		case 1:
			b = static_cast<B>( static_cast<std::uint64_t>( a ) + c.rng.below( 3 ) - 1U );
			break;
		default:
			break;
		}
		auto const x = static_cast<i128>( a );
		auto const y = static_cast<i128>( b );
		VF_EQ( c, "cmp_equal", daw::cmp_equal( a, b ), x == y );
		VF_EQ( c, "cmp_not_equal", daw::cmp_not_equal( a, b ), x != y );
		VF_EQ( c, "cmp_less", daw::cmp_less( a, b ), x < y );
		VF_EQ( c, "cmp_greater", daw::cmp_greater( a, b ), x > y );
		VF_EQ( c, "cmp_less_equal", daw::cmp_less_equal( a, b ), x <= y );
		VF_EQ( c, "cmp_greater_equal", daw::cmp_greater_equal( a, b ), x >= y );
		VF_EQ( c, "cxmath::cmp_equal", cx::cmp_equal( a, b ), x == y );
		VF_EQ( c, "cxmath::cmp_not_equal", cx::cmp_not_equal( a, b ), x != y );
		VF_EQ( c, "cxmath::cmp_less", cx::cmp_less( a, b ), x < y );
		VF_EQ( c, "cxmath::cmp_greater", cx::cmp_greater( a, b ), x > y );
		VF_EQ( c, "cxmath::cmp_less_equal", cx::cmp_less_equal( a, b ), x <= y );
		VF_EQ( c, "cxmath::cmp_greater_equal", cx::cmp_greater_equal( a, b ), x >= y );
		bool const fits = y >= static_cast<i128>( std::numeric_limits<A>::min( ) ) and
		                  y <= static_cast<i128>( std::numeric_limits<A>::max( ) );
		VF_EQ( c, "in_range", daw::in_range<A>( b ), fits );
		VF_EQ( c, "signbit", daw::signbit( a ), x < 0 );
		if( x != y and ( x < 0 ) != ( y < 0 ) ) {
			c.nontrivial( vf::mix( vf::mix( sizeof( A ), sizeof( B ) ), vf::mix( static_cast<std::uint64_t>( a ), static_cast<std::uint64_t>( b ) ) ) );
		}
	}

	template<typename A, typename... Bs>
	void pair_row( vf::Case &c ) {
		( pair_one<A, Bs>( c ), ... );
	}
	template<typename... As>
	void pair_all( vf::Case &c ) {
		( pair_row<As, As...>( c ), ... );
	}

	template<typename T>
	void one_int( vf::Case &c ) {
		T const v = edgy<T>( c );
		using U = std::make_unsigned_t<T>;
		auto const u = static_cast<U>( v );
		VF_EQ( c, "popcount", static_cast<int>( cx::popcount( v ) ), std::popcount( u ) );
		VF_EQ( c, "is_odd", cx::is_odd( v ), v % 2 != 0 );
		VF_EQ( c, "is_even", cx::is_even( v ), v % 2 == 0 );
		VF_TRUE( c, "to_unsigned type", ( std::is_same_v<decltype( cx::to_unsigned( v ) ), U> ) );
		VF_TRUE( c, "to_signed type", ( std::is_same_v<decltype( cx::to_signed( v ) ), std::make_signed_t<T>> ) );
		VF_EQ( c, "to_unsigned", cx::to_unsigned( v ), u );
		VF_EQ( c, "to_signed", cx::to_signed( v ), static_cast<std::make_signed_t<T>>( v ) );
		auto const wide = static_cast<i128>( v );
		VF_EQ( c, "math::abs", static_cast<std::uint64_t>( daw::math::abs( v ) ), static_cast<std::uint64_t>( wide < 0 ? -wide : wide ) );
		VF_EQ( c, "cxmath::signbit", cx::signbit( v ), v < 0 );
		if constexpr( std::is_signed_v<T> ) {
			if( v != std::numeric_limits<T>::min( ) ) {
				auto const s = edgy<std::int32_t>( c );
				i128 const mag = wide < 0 ? -wide : wide;
				VF_EQ( c, "copy_sign of an integer", static_cast<std::int64_t>( cx::copy_sign( v, s ) ), static_cast<std::int64_t>( s < 0 ? -mag : mag ) );
			}
		}
		c.nontrivial( vf::mix( sizeof( T ), static_cast<std::uint64_t>( u ) ) );
	}

	template<typename U>
	void one_unsigned( vf::Case &c ) {
		U const v = static_cast<U>( edgy<U>( c ) >> c.rng.below( sizeof( U ) * 8U ) );
		VF_EQ( c, "count_leading_zeroes", static_cast<int>( cx::count_leading_zeroes( v ) ), std::countl_zero( v ) );
		if constexpr( sizeof( U ) == 4 or std::is_same_v<U, std::uint64_t> ) {
			U const w = static_cast<U>( edgy<U>( c ) << c.rng.below( sizeof( U ) * 8U ) );
			VF_EQ( c, "count_trailing_zeros", static_cast<int>( cx::count_trailing_zeros( w ) ), std::countr_zero( w ) );
		}
		if( v <= U{ 1 } << ( sizeof( U ) * 8U - 1U ) ) {
			VF_EQ( c, "round_up_pow2", cx::round_up_pow2( v ), v == 0 ? U{ 0 } : std::bit_ceil( v ) );
		}
	}

	VF_FAMILY( integer_comparisons, 4000, 40000 ) {
		c.op( "all pairs of integer types" );
		pair_all<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long>( c );
	}

	VF_FAMILY( integer_bits, 30000, 300000 ) {
		c.op( "integers" );
		one_int<signed char>( c );
		one_int<unsigned char>( c );
		one_int<short>( c );
		one_int<unsigned short>( c );
		one_int<int>( c );
		one_int<unsigned>( c );
		one_int<long>( c );
		one_int<unsigned long>( c );
		one_int<long long>( c );
		one_int<unsigned long long>( c );
		VF_EQ( c, "popcount of bool", static_cast<int>( cx::popcount( true ) ) + static_cast<int>( cx::popcount( false ) ), 1 );
		c.op( "bit counts" );
		one_unsigned<unsigned>( c );
		one_unsigned<unsigned long>( c );
		one_unsigned<unsigned long long>( c );
		auto const hi = edgy<std::uint64_t>( c ) >> c.rng.below( 64 );
		auto const lo = edgy<std::uint64_t>( c ) >> c.rng.below( 64 );
		bool const top = c.rng.coin( );
		auto const w = ( static_cast<u128>( top ? hi : 0 ) << 64U ) | lo;
		int const lz = top and hi != 0 ? std::countl_zero( hi ) : 64 + std::countl_zero( lo );
		VF_EQ( c, "count_leading_zeroes of 128 bits", static_cast<int>( cx::count_leading_zeroes( static_cast<daw::uint128_t>( w ) ) ), lz );
		auto const u32 = static_cast<std::uint32_t>( hi );
		VF_EQ( c, "count_leading_zeroes of UInt32", static_cast<int>( cx::count_leading_zeroes( static_cast<daw::UInt32>( u32 ) ) ), std::countl_zero( u32 ) );
		VF_EQ( c, "count_leading_zeroes of UInt64", static_cast<int>( cx::count_leading_zeroes( static_cast<daw::UInt64>( lo ) ) ), std::countl_zero( lo ) );
		c.op( "count_digits" );
		auto p = std::uint64_t{ 1 };
		for( auto k = c.rng.below( 20 ); k > 0; --k ) {
			p *= 10U;
		}
		for( auto v : { p - 1U, p, p + 1U, lo, hi } ) {
			VF_EQ( c, "count_digits", cx::count_digits( v ), static_cast<int>( std::to_string( v ).size( ) ) );
		}
	}

	// ---- floating point ----
	template<typename Real>
	using bits_t = std::conditional_t<sizeof( Real ) == 8, std::uint64_t, std::uint32_t>;

	template<typename Real>
	bits_t<Real> bits_of( Real r ) {
		return std::bit_cast<bits_t<Real>>( r );
	}

	/// Any class of value: normal of any exponent, subnormal, zero, infinity, NaN,
	/// neighbours of powers of two, short significands
	template<typename Real>
	Real any_real( vf::Case &c, bool finite_only = false ) {
		using L = std::numeric_limits<Real>;
		auto const sign = c.rng.coin( ) ? Real( -1 ) : Real( 1 );
		switch( c.rng.below( finite_only ? 7U : 10U ) ) {
		case 0:
			return sign * static_cast<Real>( c.rng.range( 0, 300 ) ) / Real( 4 );
		case 1:
			return sign * std::ldexp( Real( 1 ), static_cast<int>( c.rng.range( L::min_exponent - L::digits, L::max_exponent - 1 ) ) );
		case 2: {
			auto const p = std::ldexp( Real( 1 ), static_cast<int>( c.rng.range( L::min_exponent, L::max_exponent - 1 ) ) );
			return sign * std::nextafter( p, c.rng.coin( ) ? Real( 0 ) : L::max( ) );
		}
		case 3: { // subnormal
			auto const b = static_cast<bits_t<Real>>( c.rng.next( ) ) & ( ( bits_t<Real>{ 1 } << ( L::digits - 1 ) ) - 1U );
			return sign * std::bit_cast<Real>( static_cast<bits_t<Real>>( b >> c.rng.below( L::digits - 1 ) ) );
		}
		case 4: {
			Real const picks[] = { L::max( ), L::min( ), L::denorm_min( ), Real( 0 ), L::epsilon( ), Real( 1 ), std::nextafter( L::min( ), Real( 0 ) ) };
			return sign * picks[c.rng.below( 7 )];
		}
		case 7:
			return sign * L::infinity( );
		case 8:
			return L::quiet_NaN( );
		default: {
			for( ;; ) {
				auto const r = std::bit_cast<Real>( static_cast<bits_t<Real>>( c.rng.next( ) ) );
				if( not finite_only or std::isfinite( r ) ) {
					return r;
				}
			}
		}
		}
	}

	cx::fp_classes std_class( auto r ) {
		switch( std::fpclassify( r ) ) {
		case FP_NAN:
			return cx::fp_classes::nan;
		case FP_INFINITE:
			return cx::fp_classes::infinity;
		case FP_ZERO:
			return cx::fp_classes::zero;
		case FP_SUBNORMAL:
			return cx::fp_classes::subnormal;
		default:
			return cx::fp_classes::normal;
		}
	}

	template<typename Real>
	void parts( vf::Case &c ) {
		using L = std::numeric_limits<Real>;
		Real const r = any_real<Real>( c );
		c.op( "classification" );
		c.ctx( "r=", static_cast<double>( r ), " bits=", bits_of( r ) );
		VF_TRUE( c, "fp_classify", cx::fp_classify( r ) == std_class( r ) );
		VF_EQ( c, "is_nan", cx::is_nan( r ), std::isnan( r ) );
		VF_EQ( c, "is_inf", cx::is_inf( r ), std::isinf( r ) );
		VF_EQ( c, "is_finite", cx::is_finite( r ), std::isfinite( r ) );
		if( r != 0 and not std::isnan( r ) ) {
			VF_EQ( c, "signbit", cx::signbit( r ), std::signbit( r ) );
		}
		c.op( "sign" );
		Real const s = any_real<Real>( c );
		VF_EQ( c, "abs", bits_of( cx::abs( r ) ), bits_of( std::fabs( r ) ) );
		VF_EQ( c, "copy_sign", bits_of( cx::copy_sign( r, s ) ), bits_of( std::copysign( r, s ) ) );
		if( not std::isnan( r ) and r != 0 ) {
			int const is = edgy<int>( c );
			VF_EQ( c, "copy_sign of an integer's sign", bits_of( cx::copy_sign( r, is ) ), bits_of( is < 0 ? -std::fabs( r ) : std::fabs( r ) ) );
			VF_EQ( c, "math::abs", bits_of( daw::math::abs( r ) ), bits_of( std::fabs( r ) ) );
			VF_EQ( c, "float_abs", bits_of( daw::float_abs( r ) ), bits_of( std::fabs( r ) ) );
		}
		constexpr int sig_bits = L::digits - 1;
		auto const mask = static_cast<bits_t<Real>>( ( bits_t<Real>{ 1 } << sig_bits ) - 1U );
		VF_EQ( c, "get_significand", static_cast<bits_t<Real>>( cx::get_significand( r ) ), static_cast<bits_t<Real>>( bits_of( r ) & mask ) );
		if( std::isnormal( r ) ) {
			c.op( "exponent" );
			auto const e = std::ilogb( r );
			VF_EQ( c, "intxp", *cx::intxp( r ), e );
			VF_EQ( c, "get_exponent", cx::get_exponent( r ), e );
			auto const want_e = static_cast<int>( c.rng.chance( 1, 4 ) ? c.rng.range( -2, 2 ) : c.rng.range( L::min_exponent - 1, L::max_exponent - 1 ) );
			c.ctx( "r=", static_cast<double>( r ), " new exponent ", want_e );
			auto const want = std::ldexp( r, want_e - e );
			VF_EQ( c, "set_exponent", bits_of( cx::set_exponent( r, want_e ) ), bits_of( want ) );
			VF_EQ( c, "adjust_exponent", bits_of( cx::adjust_exponent( r, want_e - e ) ), bits_of( want ) );
			c.nontrivial( vf::mix( bits_of( r ), static_cast<std::uint64_t>( want_e + 5000 ) ) );
		}
		c.op( "pow2" );
		auto const pe = static_cast<int>( c.rng.range( L::min_exponent - 30, L::max_exponent + 30 ) );
		if( pe >= L::min_exponent - 1 or pe < L::min_exponent - L::digits - 2 ) {
			VF_EQ( c, "pow2", bits_of( cx::pow2<Real>( pe ) ), bits_of( std::ldexp( Real( 1 ), pe ) ) );
		}
		c.op( "sqrt" );
		auto const got = cx::sqrt( r );
		auto const ref = std::sqrt( r );
		c.ctx( "sqrt of ", static_cast<double>( r ), " bits=", bits_of( r ), " got ", static_cast<double>( got ), " want ", static_cast<double>( ref ) );
		if( std::isnan( ref ) ) {
			VF_TRUE( c, "sqrt is NaN", std::isnan( got ) );
		} else if( ref == 0 or std::isinf( ref ) ) {
			VF_TRUE( c, "sqrt of zero or infinity", got == ref );
		} else {
			VF_TRUE( c, "sqrt within two steps", std::fabs( got - ref ) <= Real( 2 ) * L::epsilon( ) * ref );
		}
	}

	VF_FAMILY( float_parts, 40000, 400000 ) {
		if( c.rng.coin( ) ) {
			parts<double>( c );
		} else {
			parts<float>( c );
		}
	}

	VF_FAMILY( float_scaling, 40000, 400000 ) {
		c.op( "ldexp" );
		auto const d = any_real<double>( c );
		auto const e = static_cast<int>( c.rng.chance( 1, 2 ) ? c.rng.range( -2400, 2400 ) : c.rng.chance( 1, 20 ) ? edgy<std::int32_t>( c ) : c.rng.range( -60, 60 ) );
		c.ctx( "d=", d, " bits=", bits_of( d ), " e=", e );
		auto const want = std::ldexp( d, e );
		auto const got = cx::ldexp( d, e );
		if( std::isnan( want ) ) {
			VF_TRUE( c, "ldexp of NaN", std::isnan( got ) );
		} else {
			VF_EQ( c, "ldexp", bits_of( got ), bits_of( want ) );
		}
		c.nontrivial( vf::mix( bits_of( d ), static_cast<std::uint64_t>( e ) ) );

		c.op( "adj_ulp" );
		auto const m = std::fabs( any_real<double>( c, true ) );
		auto const raw = bits_of( m );
		int const adj = static_cast<int>( c.rng.range( -50, 50 ) );
		if( raw > 100U and raw < 0x7FEFFFFFFFFFFF00ULL ) {
			auto w = m;
			for( int n = 0; n < ( adj < 0 ? -adj : adj ); ++n ) {
				w = std::nextafter( w, adj < 0 ? 0.0 : std::numeric_limits<double>::max( ) );
			}
			VF_EQ( c, "adj_ulp", bits_of( cx::adj_ulp( m, adj ) ), bits_of( w ) );
		}
		VF_EQ( c, "get_exponent_raw", cx::get_exponent_raw( d ), ( bits_of( d ) >> 52U ) & 0x7FFU );

		c.op( "tables" );
		auto const t = static_cast<int>( c.rng.range( -307, 307 ) );
		VF_EQ( c, "dpow2", bits_of( cx::dpow2( t ) ), bits_of( std::ldexp( 1.0, t ) ) );
		auto const p10 = std::pow( 10.0L, static_cast<long double>( t ) );
		VF_TRUE( c, "dpow10", std::fabs( static_cast<long double>( cx::dpow10( t ) ) - p10 ) <= p10 * 1e-15L );
		auto const f = static_cast<int>( c.rng.range( -37, 38 ) );
		auto const pf = static_cast<double>( std::pow( 10.0L, static_cast<long double>( f ) ) );
		VF_TRUE( c, "fpow10", std::fabs( static_cast<double>( cx::fpow10( f ) ) - pf ) <= pf * 1.2e-7 );
		auto const n = c.rng.below( 19 );
		std::uint64_t whole = 1;
		for( auto k = n; k > 0; --k ) {
			whole *= 10U;
		}
		VF_EQ( c, "pow10", cx::pow10( n ), whole );
		if( n < 20 ) {
			VF_EQ( c, "powers_of_ten", cx::powers_of_ten[n], whole * 10U );
		}
		static_assert( cx::dpow2_v<-5> == 0.03125 and cx::fpow2_v<7> == 128.0F and cx::dpow10_v<3> == 1000.0 and cx::fpow10_v<2> == 100.0F and cx::pow10_v<6> == 1000000U );
	}

	VF_FAMILY( integer_powers, 30000, 300000 ) {
		c.op( "pow" );
		auto const base = static_cast<std::int64_t>( c.rng.range( -12, 12 ) );
		unsigned n = static_cast<unsigned>( c.rng.below( 64 ) );
		i128 want = 1;
		unsigned used = 0;
		while( used < n ) {
			auto const next = want * base;
			if( next > std::numeric_limits<std::int64_t>::max( ) or next < std::numeric_limits<std::int64_t>::min( ) ) {
				break;
			}
			want = next;
			++used;
		}
		n = used;
		auto const w = static_cast<std::int64_t>( want );
		c.ctx( base, "^", n );
		VF_EQ( c, "cxmath::pow", cx::pow( base, static_cast<std::int32_t>( n ) ), w );
		if( base != 0 or n != 0 ) {
			VF_EQ( c, "math::pow", daw::math::pow( base, n ), w );
		}
		// pow_n may square its base once more than the result needs, never overflowing
		// for unsigned arithmetic
		VF_EQ( c, "pow_n", cx::pow_n( static_cast<std::uint64_t>( base ), n ), static_cast<std::uint64_t>( w ) );
		VF_EQ( c, "pow_n with a wide exponent", cx::pow_n( static_cast<std::uint64_t>( base ), static_cast<std::uint64_t>( n ) ), static_cast<std::uint64_t>( w ) );
		if( w > -( 1LL << 53 ) and w < ( 1LL << 53 ) ) {
			auto const d = static_cast<double>( base );
			VF_EQ( c, "cxmath::pow of double", cx::pow( d, static_cast<std::int32_t>( n ) ), static_cast<double>( w ) );
			VF_EQ( c, "pow_n of double", cx::pow_n( d, n ), static_cast<double>( w ) );
			if( w != 0 ) {
				auto const neg = cx::pow( d, -static_cast<std::int32_t>( n ) );
				VF_TRUE( c, "cxmath::pow with a negative exponent", std::fabs( neg * static_cast<double>( w ) - 1.0 ) < 1e-13 );
			}
		}
		// wrapping arithmetic: any base, any exponent
		auto const ub = edgy<std::uint32_t>( c );
		auto const ue = static_cast<std::uint32_t>( c.rng.below( 70 ) );
		std::uint32_t uw = 1;
		for( unsigned k = 0; k < ue; ++k ) {
			uw *= ub;
		}
		VF_EQ( c, "pow_n modulo 2^32", cx::pow_n( ub, ue ), uw );
		VF_EQ( c, "math::pow2", daw::math::pow2( static_cast<std::uintmax_t>( n ) ), std::uintmax_t{ 1 } << n );
		auto const fn = c.rng.range( 0, 20 );
		std::uint64_t fact = 1;
		for( std::int64_t k = 2; k <= fn; ++k ) {
			fact *= static_cast<std::uint64_t>( k );
		}
		VF_EQ( c, "factorial", daw::math::factorial( static_cast<int>( fn ) ), fact );
		VF_EQ( c, "factorial of unsigned", daw::math::factorial( static_cast<unsigned>( fn ) ), fact );
		VF_EQ( c, "sqr", daw::math::sqr( base ), base * base );
		c.nontrivial( vf::mix( static_cast<std::uint64_t>( base ), n ) );
	}

	template<typename Real>
	void rounding( vf::Case &c, Real limit ) {
		Real d{ };
		switch( c.rng.below( 4 ) ) {
		case 0:
			d = static_cast<Real>( c.rng.range( -4000, 4000 ) ) / Real( 4 );
			break;
		case 1: {
			auto const k = static_cast<Real>( c.rng.range( -2000, 2000 ) ) / Real( 2 );
			d = std::nextafter( k, c.rng.coin( ) ? limit : -limit );
			break;
		}
		default:
			do {
				d = any_real<Real>( c, true );
			} while( not( std::fabs( d ) < limit ) );
		}
		c.ctx( "d=", static_cast<double>( d ), " bits=", bits_of( d ) );
		VF_EQ( c, "round", static_cast<std::int64_t>( daw::math::round( d ) ), static_cast<std::int64_t>( std::round( d ) ) );
		VF_EQ( c, "floor", static_cast<std::int64_t>( daw::math::floor( d ) ), static_cast<std::int64_t>( std::floor( d ) ) );
		VF_EQ( c, "ceil", static_cast<std::int64_t>( daw::math::ceil( d ) ), static_cast<std::int64_t>( std::ceil( d ) ) );
		if( std::fabs( d ) < Real( 30000 ) ) {
			VF_EQ( c, "round to short", daw::math::round<short>( d ), static_cast<short>( std::round( d ) ) );
			VF_EQ( c, "floor to short", daw::math::floor<short>( d ), static_cast<short>( std::floor( d ) ) );
			VF_EQ( c, "ceil to short", daw::math::ceil<short>( d ), static_cast<short>( std::ceil( d ) ) );
		}
		c.nontrivial( bits_of( d ) );
	}

	VF_FAMILY( rounding_helpers, 30000, 300000 ) {
		c.op( "rounding" );
		rounding<double>( c, 0x1p62 );
		rounding<float>( c, 0x1p30F );
		c.op( "rounding to multiples" );
		auto const by = static_cast<double>( c.rng.range( 1, 80 ) ) / ( c.rng.coin( ) ? 4.0 : 1.0 );
		auto const v = static_cast<double>( c.rng.range( -20000, 20000 ) ) / 8.0;
		auto const iv = static_cast<int>( v );
		VF_EQ( c, "round_by", daw::math::round_by( v, by ), std::round( v / by ) * by );
		VF_EQ( c, "floor_by", daw::math::floor_by( v, by ), std::floor( v / by ) * by );
		VF_EQ( c, "ceil_by", daw::math::ceil_by( v, by ), std::ceil( v / by ) * by );
		VF_EQ( c, "round_by of int", daw::math::round_by( iv, by ), static_cast<int>( std::round( iv / by ) * by ) );
		VF_EQ( c, "floor_by of int", daw::math::floor_by( iv, by ), static_cast<int>( std::floor( iv / by ) * by ) );
		VF_EQ( c, "ceil_by of int", daw::math::ceil_by( iv, by ), static_cast<int>( std::ceil( iv / by ) * by ) );
		c.op( "trigonometry" );
		if( c.idx % 16 == 0 ) {
			auto const x = static_cast<double>( c.rng.range( -4000000, 4000000 ) ) / 100000.0;
			c.ctx( "x=", x );
			VF_TRUE( c, "sin", std::fabs( daw::math::sin( x ) - std::sin( x ) ) < 1e-5 );
			VF_TRUE( c, "cos", std::fabs( daw::math::cos( x ) - std::cos( x ) ) < 1e-5 );
			VF_TRUE( c, "cos of 0", daw::math::cos( 0.0 ) == 1.0 );
		}
	}

	VF_FAMILY( nearly_equal, 30000, 300000 ) {
		using daw::math::nearly_equal;
		constexpr double eps = std::numeric_limits<double>::epsilon( );
		auto const a = any_real<double>( c );
		auto const b = any_real<double>( c );
		c.op( "nearly_equal" );
		c.ctx( "a=", a, " b=", b );
		VF_TRUE( c, "reflexive", nearly_equal( a, a ) );
		VF_EQ( c, "symmetric", nearly_equal( a, b ), nearly_equal( b, a ) );
		if( std::isnan( a ) != std::isnan( b ) or std::isinf( a ) != std::isinf( b ) ) {
			VF_TRUE( c, "different classes", not nearly_equal( a, b ) );
		}
		if( std::isfinite( a ) and std::fabs( a ) > 1e-280 and std::fabs( a ) < 1e280 ) {
			auto const away = static_cast<double>( c.rng.range( 4, 1000 ) );
			VF_TRUE( c, "neighbours", nearly_equal( a, std::nextafter( a, 0.0 ) ) and nearly_equal( a, std::nextafter( a, a * 2 ) ) );
			VF_TRUE( c, "apart", not nearly_equal( a, a * ( 1.0 + eps * away ) ) );
			VF_TRUE( c, "opposite", not nearly_equal( a, -a ) );
			auto const tol = 1e-3;
			VF_TRUE( c, "within the tolerance", nearly_equal( a, a * 1.0005, tol ) );
			VF_TRUE( c, "outside the tolerance", not nearly_equal( a, a * 1.01, tol ) );
			VF_TRUE( c, "zero", not nearly_equal( a, 0.0 ) );
		}
		auto const i = edgy<int>( c );
		auto const j = c.rng.coin( ) ? i : edgy<int>( c );
		VF_EQ( c, "integers", nearly_equal( i, j ), i == j );
		c.op( "min and max" );
		int v[6];
		for( auto &e : v ) {
			e = c.rng.coin( ) ? static_cast<int>( c.rng.range( -3, 3 ) ) : edgy<int>( c );
		}
		int hi = v[0], lo = v[0];
		for( int e : v ) {
			hi = e > hi ? e : hi;
			lo = e < lo ? e : lo;
		}
		VF_EQ( c, "max of six", ( daw::max )( v[0], v[1], v[2], v[3], v[4], v[5] ), hi );
		VF_EQ( c, "min of six", ( daw::min )( v[0], v[1], v[2], v[3], v[4], v[5] ), lo );
		VF_EQ( c, "max of two", ( daw::max )( v[0], v[1] ), v[0] > v[1] ? v[0] : v[1] );
		VF_EQ( c, "min of two", ( daw::min )( v[0], v[1] ), v[0] < v[1] ? v[0] : v[1] );
		VF_EQ( c, "max of one", ( daw::max )( v[0] ), v[0] );
		VF_EQ( c, "max of int and double", ( daw::max )( v[0], static_cast<double>( v[1] ) + 0.5 ), v[0] > v[1] + 0.5 ? static_cast<double>( v[0] ) : v[1] + 0.5 );
		VF_EQ( c, "min of int and long", ( daw::min )( v[0], static_cast<long>( v[1] ) * 3, v[2] ), std::min( { static_cast<long>( v[0] ), static_cast<long>( v[1] ) * 3, static_cast<long>( v[2] ) } ) );
		auto &big = daw::max_comp( v[2], v[3] );
		auto &small = daw::min_comp( v[2], v[3] );
		VF_TRUE( c, "max_comp", ( &big == &v[2] or &big == &v[3] ) and big == ( v[2] > v[3] ? v[2] : v[3] ) );
		VF_TRUE( c, "min_comp", ( &small == &v[2] or &small == &v[3] ) and small == ( v[2] < v[3] ? v[2] : v[3] ) );
		auto &rev = daw::max_comp( v[4], v[5], std::greater<>{ } );
		VF_TRUE( c, "max_comp with a comparison", ( &rev == &v[4] or &rev == &v[5] ) and rev == ( v[4] < v[5] ? v[4] : v[5] ) );
		VF_EQ( c, "value_or_min", daw::math::value_or_min( v[0], v[1] ), v[0] < v[1] ? v[1] : v[0] );
		c.nontrivial( vf::mix( bits_of( a ), bits_of( b ) ) );
	}

	// ---- natural_t ----
	template<typename T>
	T nat_value( vf::Case &c ) {
		auto const cap = static_cast<std::uint64_t>( std::min<std::uint64_t>( static_cast<std::uint64_t>( std::numeric_limits<T>::max( ) ), 1000000U ) );
		switch( c.rng.below( 3 ) ) {
		case 0:
			return static_cast<T>( 1 + c.rng.below( 3 ) );
		case 1:
			return static_cast<T>( 1 + c.rng.below( cap ) );
		default:
			return static_cast<T>( 1 + c.rng.below( 60 ) );
		}
	}

	/// Runs an operation and holds it against the exact result: a result below 1
	/// is refused with invalid_natural_number and nothing changes
	template<typename F>
	void held( vf::Case &c, char const *label, std::int64_t exact, F f ) {
		bool threw = false;
		std::int64_t got = 0;
		try {
			got = static_cast<std::int64_t>( f( ) );
		} catch( daw::invalid_natural_number const & ) {
			threw = true;
		}
		if( exact < 1 ) {
			VF_TRUE( c, label, threw );
			c.count( "refused", 1 );
		} else {
			VF_TRUE( c, label, not threw );
			VF_EQ( c, label, got, exact );
		}
	}

	template<typename T, typename U>
	void nat_pair( vf::Case &c ) {
		using N = daw::natural_t<T>;
		using M = daw::natural_t<U>;
		auto const x = nat_value<T>( c );
		auto const y = c.rng.chance( 1, 5 ) ? static_cast<U>( x <= static_cast<T>( 100 ) ? x : 1 ) : nat_value<U>( c );
		N const a{ x };
		M const b{ y };
		auto const ix = static_cast<std::int64_t>( x );
		auto const iy = static_cast<std::int64_t>( y );
		c.ctx( "a=", ix, " b=", iy, " sizes ", sizeof( T ), " ", sizeof( U ) );
		held( c, "a + b", ix + iy, [&] { return ( a + b ).value( ); } );
		held( c, "a - b", ix - iy, [&] { return ( a - b ).value( ); } );
		if( ix * iy < ( 1LL << 31 ) ) {
			held( c, "a * b", ix * iy, [&] { return ( a * b ).value( ); } );
		}
		held( c, "a / b", ix / iy, [&] { return ( a / b ).value( ); } );
		held( c, "a % b", ix % iy, [&] { return ( a % b ).value( ); } );
		VF_EQ( c, "==", a == b, ix == iy );
		VF_EQ( c, "!=", a != b, ix != iy );
		VF_EQ( c, "<", a < b, ix < iy );
		VF_EQ( c, "<=", a <= b, ix <= iy );
		VF_EQ( c, ">", a > b, ix > iy );
		VF_EQ( c, ">=", a >= b, ix >= iy );
		constexpr auto cap = static_cast<std::int64_t>( std::min<std::uint64_t>( static_cast<std::uint64_t>( std::numeric_limits<T>::max( ) ), 1U << 30U ) );
		N m = a;
		auto step = [&]( char const *label, std::int64_t exact, auto f ) {
			m = a;
			held( c, label, exact, [&] {
				auto &r = f( );
				VF_TRUE( c, "the operation returns its left side", &r == &m );
				return m.value( );
			} );
			VF_EQ( c, "value afterwards", static_cast<std::int64_t>( m.value( ) ), exact < 1 ? ix : exact );
		};
		if( ix + iy <= cap ) {
			step( "a += b", ix + iy, [&]( ) -> N & { return m += b; } );
		}
		if( ix * iy <= cap ) {
			step( "a *= b", ix * iy, [&]( ) -> N & { return m *= b; } );
		}
		step( "a -= b", ix - iy, [&]( ) -> N & { return m -= b; } );
		step( "a /= b", ix / iy, [&]( ) -> N & { return m /= b; } );
		step( "a %= b", ix % iy, [&]( ) -> N & { return m %= b; } );
		step( "--a", ix - 1, [&]( ) -> N & { return --m; } );
		if( ix < cap ) {
			step( "++a", ix + 1, [&]( ) -> N & { return ++m; } );
			m = a;
			VF_EQ( c, "a++", static_cast<std::int64_t>( ( m++ ).value( ) ), ix );
			VF_EQ( c, "after a++", static_cast<std::int64_t>( m.value( ) ), ix + 1 );
		}
		m = a;
		held( c, "a--", ix - 1, [&] {
			auto const old = m--;
			VF_EQ( c, "a-- returns the old value", static_cast<std::int64_t>( old.value( ) ), ix );
			return m.value( );
		} );
		auto const bad = static_cast<int>( c.rng.range( -3, 2 ) );
		held( c, "from an integer", bad, [&] { return N( bad ).value( ); } );
		m = a;
		held( c, "assign an integer", bad, [&] {
			m = bad;
			return m.value( );
		} );
		VF_EQ( c, "value after assigning", static_cast<std::int64_t>( m.value( ) ), bad < 1 ? ix : bad );
		VF_EQ( c, "conversion", static_cast<std::int64_t>( static_cast<T>( a ) ), ix );
		VF_EQ( c, "default", static_cast<std::int64_t>( N{ }.value( ) ), 1 );
		c.nontrivial( vf::mix( vf::mix( sizeof( T ), sizeof( U ) ), vf::mix( static_cast<std::uint64_t>( x ), static_cast<std::uint64_t>( y ) ) ) );
	}

	VF_FAMILY( natural_numbers, 6000, 60000 ) {
		c.op( "natural_t" );
		nat_pair<int, int>( c );
		nat_pair<unsigned, unsigned>( c );
		nat_pair<unsigned, int>( c );
		nat_pair<int, unsigned>( c );
		nat_pair<unsigned char, unsigned char>( c );
		nat_pair<unsigned char, long>( c );
		nat_pair<unsigned long long, unsigned long long>( c );
		nat_pair<long, short>( c );
	}
} // namespace

VF_MAIN( )
