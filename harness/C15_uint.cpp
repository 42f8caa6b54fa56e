// C15: UInt8/16/32/64 against exact integer arithmetic reduced modulo 2^N.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include <daw/daw_uint_buffer.h>
#include <daw/daw_uint_types.h>

#include "vf.h"

#include <array>
#include <limits>
#include <type_traits>
#include <utility>
#include <vector>

namespace {
	using daw::UInt16;
	using daw::UInt32;
	using daw::UInt64;
	using daw::UInt8;
	using u128 = unsigned __int128;

	template<typename T>
	inline constexpr unsigned width = sizeof( T ) * 8U;

	template<typename T>
	std::uint64_t raw( T v ) {
		return static_cast<std::uint64_t>( v );
	}
	std::uint64_t low( std::uint64_t v, unsigned w ) {
		return w >= 64 ? v : v & ( ( std::uint64_t{ 1 } << w ) - 1U );
	}
	template<typename T>
	constexpr char const *tn( ) {
		if constexpr( std::is_enum_v<T> ) {
			return sizeof( T ) == 1   ? "U8"
			       : sizeof( T ) == 2 ? "U16"
			       : sizeof( T ) == 4 ? "U32"
			                          : "U64";
		} else {
			return sizeof( T ) == 1 ? "n8" : sizeof( T ) == 2 ? "n16" : sizeof( T ) == 4 ? "n32" : "n64";
		}
	}

	/// A native operand wider than the wrapper would be narrowed by the language
	/// before the operator sees it, unless there is an overload for exactly these types
	template<typename L, typename R>
	inline constexpr bool in_domain = ( std::is_enum_v<L> or std::is_enum_v<R> ) and
	                                  ( std::is_enum_v<L> or width<L> <= width<R> ) and
	                                  ( std::is_enum_v<R> or width<R> <= width<L> );

	struct Label {
		char txt[32]{ };
	};
	consteval Label lab( char const *a, char const *op, char const *b ) {
		Label l{ };
		unsigned n = 0;
		for( char const *p : { a, op, b } ) {
			for( ; *p; ++p ) {
				l.txt[n++] = *p;
			}
		}
		return l;
	}

	/// boundary-biased value of the width of T
	template<typename T>
	std::uint64_t draw( vf::Rng &r ) {
		unsigned const w = width<T>;
		std::uint64_t v = 0;
		switch( r.below( 8 ) ) {
		case 0:
			v = r.below( 4 );
			break;
		case 1:
			v = ~std::uint64_t{ 0 } - r.below( 4 );
			break;
		case 2:
			v = std::uint64_t{ 1 } << r.below( w );
			break;
		case 3:
			v = ( std::uint64_t{ 1 } << r.below( w ) ) - 1U;
			break;
		case 4:
			v = ~( std::uint64_t{ 1 } << r.below( w ) );
			break;
		case 5:
			v = ( std::uint64_t{ 1 } << ( w - 1 ) ) + r.below( 5 ) - 2U;
			break;
		default:
			v = r.next( );
			break;
		}
		return low( v, w );
	}

	// each operator: does the expression exist, and which value/width it must have
#define VF_BIN( NAME, OP, EXACT )                                                                       \
	template<typename L, typename R>                                                                      \
	void bin_##NAME( vf::Case &c, std::uint64_t a, std::uint64_t b ) {                                    \
		if constexpr( ( in_domain<L, R> and requires( L l, R r ) { l OP r; } ) or requires( L l, R r ) { static_cast<decltype( l OP r ) ( * )( L, R )>( &daw::operator OP ); } ) {                                                  \
			auto const res = static_cast<L>( a ) OP static_cast<R>( b );                                      \
			using Res = std::remove_cv_t<decltype( res )>;                                                    \
			std::uint64_t const want = EXACT;                                                                 \
			static constexpr auto label = lab( tn<L>( ), " " #OP " ", tn<R>( ) );                                    \
			if( in_domain<L, R> and width<Res> != ( width<L> > width<R> ? width<L> : width<R> ) ) {                               \
				c.fail( label.txt, vf::cat( width<Res> ) );                                    \
			}                                                                                                 \
			VF_EQ( c, label.txt, raw( res ), low( want, width<Res> ) );                                           \
			c.op( label.txt );                                                                                    \
		}                                                                                                   \
	}
	VF_BIN( add, +, a + b )
	VF_BIN( sub, -, a - b )
	VF_BIN( mul, *, a *b )
	VF_BIN( band, &, ( a & b ) )
	VF_BIN( bor, |, ( a | b ) )
	VF_BIN( bxor, ^, ( a ^ b ) )
	VF_BIN( div, /, a / b )
#undef VF_BIN

#define VF_SH( NAME, OP, OPEQ )                                                                           \
	template<typename L, typename R>                                                                        \
	void sh_##NAME( vf::Case &c, std::uint64_t a, std::uint64_t b ) {                                       \
		if constexpr( ( in_domain<L, R> and requires( L l, R r ) { l OP r; } ) or requires( L l, R r ) { static_cast<decltype( l OP r ) ( * )( L, R )>( &daw::operator OP ); } ) {                                                    \
			auto const res = static_cast<L>( a ) OP static_cast<R>( b );                                        \
			using Res = std::remove_cv_t<decltype( res )>;                                                      \
			static constexpr auto label = lab( tn<L>( ), " " #OP " ", tn<R>( ) );                                      \
			if( std::is_enum_v<L> and width<Res> != width<L> ) {                                                                      \
				c.fail( label.txt, vf::cat( width<Res> ) );                                      \
			}                                                                                                   \
			VF_EQ( c, label.txt, raw( res ), low( a OP b, width<Res> ) );                                           \
			c.op( label.txt );                                                                                      \
		}                                                                                                     \
		asg_##NAME<L, R>( c, a, b, low( a OP b, width<L> ) );                                                 \
	}
#define VF_ASG( NAME, OPEQ )                                                                              \
	template<typename L, typename R>                                                                        \
	void asg_##NAME( vf::Case &c, std::uint64_t a, std::uint64_t b, std::uint64_t want ) {                  \
		if constexpr( ( in_domain<L, R> and requires( L & l, R r ) { l OPEQ r; } ) or requires( L & l, R r ) { static_cast<L &( * )( L &, R )>( &daw::operator OPEQ ); } ) {                                                \
			auto l = static_cast<L>( a );                                                                       \
			auto &ref = ( l OPEQ static_cast<R>( b ) );                                                         \
			static constexpr auto label = lab( tn<L>( ), " " #OPEQ " ", tn<R>( ) );                                    \
			VF_EQ( c, label.txt, raw( l ), want );                                                                  \
			VF_TRUE( c, label.txt, (void const *)&ref == (void const *)&l );             \
			c.op( label.txt );                                                                                      \
		}                                                                                                     \
	}
	VF_ASG( shl, <<= )
	VF_ASG( shr, >>= )
	VF_ASG( add, += )
	VF_ASG( sub, -= )
	VF_ASG( mul, *= )
	VF_ASG( div, /= )
	VF_ASG( band, &= )
	VF_ASG( bor, |= )
	VF_ASG( bxor, ^= )
	VF_SH( shl, <<, <<= )
	VF_SH( shr, >>, >>= )

#define VF_CMP( NAME, OP )                                                                      \
	template<typename L, typename R>                                                              \
	void cmp_##NAME( vf::Case &c, std::uint64_t a, std::uint64_t b ) {                            \
		if constexpr( ( in_domain<L, R> and requires( L l, R r ) { l OP r; } ) or requires( L l, R r ) { static_cast<decltype( l OP r ) ( * )( L, R )>( &daw::operator OP ); } ) {                                          \
			bool const res = static_cast<L>( a ) OP static_cast<R>( b );                              \
			static constexpr auto label = lab( tn<L>( ), " " #OP " ", tn<R>( ) );                            \
			VF_EQ( c, label.txt, res, ( a OP b ) );                                                       \
			c.op( label.txt );                                                                            \
		}                                                                                           \
	}
	VF_CMP( eq, == )
	VF_CMP( ne, != )
	VF_CMP( lt, < )
	VF_CMP( le, <= )
	VF_CMP( gt, > )
	VF_CMP( ge, >= )

	template<typename L, typename R>
	void all_ops( vf::Case &c, std::uint64_t a, std::uint64_t b ) {
		c.ctx( tn<L>( ), " ", a, " , ", tn<R>( ), " ", b );
		bin_add<L, R>( c, a, b );
		bin_sub<L, R>( c, a, b );
		bin_mul<L, R>( c, a, b );
		bin_band<L, R>( c, a, b );
		bin_bor<L, R>( c, a, b );
		bin_bxor<L, R>( c, a, b );
		asg_add<L, R>( c, a, b, low( a + b, width<L> ) );
		asg_sub<L, R>( c, a, b, low( a - b, width<L> ) );
		asg_mul<L, R>( c, a, b, low( a * b, width<L> ) );
		asg_band<L, R>( c, a, b, low( a & b, width<L> ) );
		asg_bor<L, R>( c, a, b, low( a | b, width<L> ) );
		asg_bxor<L, R>( c, a, b, low( a ^ b, width<L> ) );
		if( b != 0 ) {
			bin_div<L, R>( c, a, b );
			asg_div<L, R>( c, a, b, low( a / b, width<L> ) );
		}
		auto const sh = low( b % width<L>, width<R> );
		sh_shl<L, R>( c, a, sh );
		sh_shr<L, R>( c, a, sh );
		cmp_eq<L, R>( c, a, b );
		cmp_ne<L, R>( c, a, b );
		cmp_lt<L, R>( c, a, b );
		cmp_le<L, R>( c, a, b );
		cmp_gt<L, R>( c, a, b );
		cmp_ge<L, R>( c, a, b );
		c.nontrivial( vf::mix( vf::mix( a, b ), width<L> * 131U + width<R> ) );
	}

	template<typename L, typename R>
	void random_pair( vf::Case &c ) {
		all_ops<L, R>( c, draw<L>( c.rng ), draw<R>( c.rng ) );
	}

	template<typename U>
	void pairs_for( vf::Case &c ) {
		random_pair<U, UInt8>( c );
		random_pair<U, UInt16>( c );
		random_pair<U, UInt32>( c );
		random_pair<U, UInt64>( c );
		random_pair<U, std::uint8_t>( c );
		random_pair<U, std::uint16_t>( c );
		random_pair<U, std::uint32_t>( c );
		random_pair<U, std::uint64_t>( c );
		random_pair<std::uint8_t, U>( c );
		random_pair<std::uint16_t, U>( c );
		random_pair<std::uint32_t, U>( c );
		random_pair<std::uint64_t, U>( c );
	}

	template<typename U, unsigned N>
	void bit_at( vf::Case &c, std::uint64_t a ) {
		unsigned const w = width<U>;
		auto const u = static_cast<U>( a );
		std::uint64_t const rl = N == 0 ? a : low( ( a << N ) | ( a >> ( w - N ) ), w );
		std::uint64_t const rr = N == 0 ? a : low( ( a >> N ) | ( a << ( w - N ) ), w );
		VF_EQ( c, "rotate_left<N>", raw( daw::rotate_left<N>( u ) ), rl );
		VF_EQ( c, "rotate_right<N>", raw( daw::rotate_right<N>( u ) ), rr );
		VF_EQ( c, "rotate_left", raw( daw::rotate_left( u, N ) ), rl );
		VF_EQ( c, "rotate_right", raw( daw::rotate_right( u, N ) ), rr );
		VF_EQ( c, "get_bit", raw( daw::get_bit<N>( u ) ), ( a >> N ) & 1U );
		for( bool state : { false, true } ) {
			auto v = u;
			daw::set_bit<N>( v, state );
			VF_EQ( c, "set_bit", raw( v ), state ? ( a | ( std::uint64_t{ 1 } << N ) ) : ( a & ~( std::uint64_t{ 1 } << N ) ) );
		}
		std::uint64_t const mask = ( std::uint64_t{ 1 } << N ) - 1U;
		std::uint64_t got = 0;
		if constexpr( width<U> == 8 ) {
			got = raw( daw::mask_from_lsb8<N> );
		} else if constexpr( width<U> == 16 ) {
			got = raw( daw::mask_from_lsb16<N> );
		} else if constexpr( width<U> == 32 ) {
			got = raw( daw::mask_from_lsb32<N> );
		} else {
			got = raw( daw::mask_from_lsb64<N> );
		}
		VF_EQ( c, "mask_from_lsb", got, mask );
	}

	template<typename U, typename Native>
	void unary( vf::Case &c, std::uint64_t a ) {
		c.ctx( tn<U>( ), " ", a );
		unsigned const w = width<U>;
		auto const u = static_cast<U>( a );
		VF_EQ( c, "~", raw( ~u ), low( ~a, w ) );
		VF_EQ( c, "unary -", raw( -u ), low( 0U - a, w ) );
		VF_EQ( c, "unary +", raw( +u ), a );
		VF_EQ( c, "!", static_cast<bool>( !u ), a == 0 );
		{
			auto v = u;
			auto &r = ++v;
			VF_EQ( c, "++v", raw( v ), low( a + 1, w ) );
			VF_EQ( c, "++v result", raw( r ), low( a + 1, w ) );
		}
		{
			auto v = u;
			VF_EQ( c, "v++ result", raw( v++ ), a );
			VF_EQ( c, "v++", raw( v ), low( a + 1, w ) );
		}
		{
			auto v = u;
			auto &r = --v;
			VF_EQ( c, "--v", raw( v ), low( a - 1, w ) );
			VF_EQ( c, "--v result", raw( r ), low( a - 1, w ) );
		}
		{
			auto v = u;
			VF_EQ( c, "v-- result", raw( v-- ), a );
			VF_EQ( c, "v--", raw( v ), low( a - 1, w ) );
		}
		VF_EQ( c, "to_uint8", raw( daw::to_uint8( static_cast<Native>( a ) ) ), low( a, 8 ) );
		VF_EQ( c, "to_uint16", raw( daw::to_uint16( static_cast<Native>( a ) ) ), low( a, 16 ) );
		VF_EQ( c, "to_uint32", raw( daw::to_uint32( static_cast<Native>( a ) ) ), low( a, 32 ) );
		VF_EQ( c, "to_uint64", raw( daw::to_uint64( static_cast<Native>( a ) ) ), a );
		using S = std::make_signed_t<Native>;
		auto const s = static_cast<S>( static_cast<Native>( a ) );
		auto const sx = static_cast<std::uint64_t>( static_cast<std::int64_t>( s ) );
		VF_EQ( c, "to_uint8 signed", raw( daw::to_uint8( s ) ), low( sx, 8 ) );
		VF_EQ( c, "to_uint16 signed", raw( daw::to_uint16( s ) ), low( sx, 16 ) );
		VF_EQ( c, "to_uint32 signed", raw( daw::to_uint32( s ) ), low( sx, 32 ) );
		VF_EQ( c, "to_uint64 signed", raw( daw::to_uint64( s ) ), sx );
		[&]<std::size_t... Ns>( std::index_sequence<Ns...> ) {
			( bit_at<U, static_cast<unsigned>( Ns )>( c, a ), ... );
		}( std::make_index_sequence<width<U>>{ } );
		// a full turn is the identity
		VF_EQ( c, "rotate_left<W>", raw( daw::rotate_left<width<U>>( u ) ), a );
		VF_EQ( c, "rotate_right<W>", raw( daw::rotate_right<width<U>>( u ) ), a );
		VF_EQ( c, "rotate_left W", raw( daw::rotate_left( u, width<U> ) ), a );
		VF_EQ( c, "rotate_right W", raw( daw::rotate_right( u, width<U> ) ), a );
		c.op( tn<U>( ) );
		c.nontrivial( vf::mix( a, w ) );
	}

	template<typename U, typename N>
	void limits( vf::Case &c ) {
		using L = std::numeric_limits<U>;
		using S = std::numeric_limits<N>;
		VF_EQ( c, "limits min", raw( ( L::min )( ) ), std::uint64_t{ 0 } );
		VF_EQ( c, "limits lowest", raw( L::lowest( ) ), std::uint64_t{ 0 } );
		VF_EQ( c, "limits max", raw( ( L::max )( ) ), static_cast<std::uint64_t>( ( S::max )( ) ) );
		VF_EQ( c, "limits digits", L::digits, S::digits );
		VF_EQ( c, "limits digits10", L::digits10, S::digits10 );
		VF_EQ( c, "limits radix", L::radix, 2 );
		VF_TRUE( c, "limits flags", L::is_specialized and not L::is_signed and L::is_integer and L::is_exact and L::is_bounded and L::is_modulo );
	}
} // namespace

VF_FAMILY( uint_pairs, 24000, 400000 ) {
	switch( c.idx % 4 ) {
	case 0:
		return pairs_for<UInt8>( c );
	case 1:
		return pairs_for<UInt16>( c );
	case 2:
		return pairs_for<UInt32>( c );
	default:
		return pairs_for<UInt64>( c );
	}
}

/// every pair of 8 bit operands (one left operand per case)
VF_FAMILY( uint8_all_pairs, 256, 256 ) {
	auto const a = static_cast<std::uint64_t>( c.idx % 256 );
	for( std::uint64_t b = 0; b < 256; ++b ) {
		all_ops<UInt8, UInt8>( c, a, b );
		all_ops<UInt8, std::uint8_t>( c, a, b );
		all_ops<std::uint8_t, UInt8>( c, a, b );
	}
}

VF_FAMILY( uint_unary, 2048, 40000 ) {
	switch( c.idx % 4 ) {
	case 0:
		return unary<UInt8, std::uint8_t>( c, ( c.idx / 4 ) % 256 );
	case 1:
		return unary<UInt16, std::uint16_t>( c, draw<UInt16>( c.rng ) );
	case 2:
		return unary<UInt32, std::uint32_t>( c, draw<UInt32>( c.rng ) );
	default:
		return unary<UInt64, std::uint64_t>( c, draw<UInt64>( c.rng ) );
	}
}

VF_FAMILY( uint_limits_literals, 600, 2000 ) {
	limits<UInt8, std::uint8_t>( c );
	limits<UInt16, std::uint16_t>( c );
	limits<UInt32, std::uint32_t>( c );
	limits<UInt64, std::uint64_t>( c );
	auto const lit = [&]( auto f, unsigned w, char const *name ) {
		std::uint64_t const v = c.idx < 256 ? c.idx : low( c.rng.coin( ) ? ~std::uint64_t{ 0 } - c.rng.below( 3 ) : c.rng.next( ), w );
		VF_EQ( c, name, raw( f( low( v, w ) ) ), low( v, w ) );
		c.nontrivial( v );
	};
	lit( []( auto v ) { return daw::operator""_u8( v ); }, 8, "_u8" );
	lit( []( auto v ) { return daw::operator""_u16( v ); }, 16, "_u16" );
	lit( []( auto v ) { return daw::operator""_u32( v ); }, 32, "_u32" );
	lit( []( auto v ) { return daw::operator""_u64( v ); }, 64, "_u64" );
	static_assert( std::is_same_v<daw::UInt<8>, UInt8> and std::is_same_v<daw::UInt<16>, UInt16> and
	               std::is_same_v<daw::UInt<32>, UInt32> and std::is_same_v<daw::UInt<64>, UInt64> );
}

VF_FAMILY( uint_buffers, 3000, 60000 ) {
	auto const run = [&]<typename Ch>( Ch ) {
		auto const one = [&]( unsigned n, auto f, char const *name ) {
			// exactly n readable bytes at an arbitrary alignment
			auto const off = static_cast<std::size_t>( c.rng.below( 9 ) );
			std::vector<Ch> buf( off + n );
			buf.shrink_to_fit( );
			std::uint64_t want = 0;
			for( std::size_t i = 0; i < off + n; ++i ) {
				auto const byte = static_cast<unsigned char>( c.rng.edgy<unsigned char>( ) );
				buf[i] = static_cast<Ch>( byte );
				if( i >= off ) {
					want |= static_cast<std::uint64_t>( byte ) << ( 8U * ( i - off ) );
				}
			}
			VF_EQ( c, name, raw( f( static_cast<Ch const *>( buf.data( ) + off ) ) ), want );
			c.nontrivial( want );
		};
		one( 8, []( Ch const *p ) { return daw::to_uint64_buffer( p ); }, "to_uint64_buffer" );
		one( 4, []( Ch const *p ) { return daw::to_uint32_buffer( p ); }, "to_uint32_buffer" );
		one( 2, []( Ch const *p ) { return daw::to_uint16_buffer( p ); }, "to_uint16_buffer" );
	};
	switch( c.idx % 4 ) {
	case 0:
		return run( char{ } );
	case 1:
		return run( static_cast<unsigned char>( 0 ) );
	case 2:
		return run( static_cast<signed char>( 0 ) );
	default:
		return run( std::byte{ } );
	}
}

VF_MAIN( )
