// C17: bit masks, bit sets, byte order, bit reversal and bit queues.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include <daw/daw_bit.h>
#include <daw/daw_bit_cast.h>
#include <daw/daw_bit_count.h>
#include <daw/daw_bit_queues.h>
#include <daw/daw_bitset.h>
#include <daw/daw_bitset_helper.h>
#include <daw/daw_endian.h>
#include <daw/daw_integer_reverse.h>

#include "vf.h"

#include <algorithm>
#include <array>
#include <bitset>
#include <cstdint>
#include <cstring>
#include <deque>
#include <list>
#include <set>
#include <vector>

namespace {
	enum class Pos : unsigned char {};

	template<typename T>
	inline constexpr unsigned width = sizeof( T ) * 8U;
	template<typename T>
	using U = std::make_unsigned_t<T>;

	template<typename T>
	std::vector<unsigned char> bytes_of( T v ) {
		std::vector<unsigned char> r( sizeof( T ) );
		std::memcpy( r.data( ), &v, sizeof( T ) );
		return r;
	}

	// a value whose big endian memory image is the reverse of v's
	template<typename T>
	T reversed_bytes( T v ) {
		auto b = bytes_of( v );
		std::reverse( b.begin( ), b.end( ) );
		T r;
		std::memcpy( &r, b.data( ), sizeof( T ) );
		return r;
	}

	template<typename T>
	void endian_of( vf::Case &c, T v ) {
		bool const le = std::endian::native == std::endian::little;
		c.ctx( "width ", width<T>, " value ", +v );
		VF_EQ( c, "to_little_endian", daw::to_little_endian( v ), le ? v : reversed_bytes( v ) );
		VF_EQ( c, "to_big_endian", daw::to_big_endian( v ), le ? reversed_bytes( v ) : v );
		VF_EQ( c, "network_to_host_endian", daw::network_to_host_endian( v ), le ? reversed_bytes( v ) : v );
		VF_EQ( c, "to_native_endian<little>", daw::to_native_endian<daw::endian::little>( v ), le ? v : reversed_bytes( v ) );
		VF_EQ( c, "to_native_endian<big>", daw::to_native_endian<daw::endian::big>( v ), le ? reversed_bytes( v ) : v );
		VF_EQ( c, "to_native_endian<native>", daw::to_native_endian<daw::endian::native>( v ), v );
		VF_EQ( c, "big twice", daw::to_big_endian( daw::to_big_endian( v ) ), v );
		VF_EQ( c, "little twice", daw::to_little_endian( daw::to_little_endian( v ) ), v );
		VF_EQ( c, "host of big", daw::network_to_host_endian( daw::to_big_endian( v ) ), v );
		c.nontrivial( vf::mix( width<T>, static_cast<std::uint64_t>( v ) ) );
		c.op( "endian" );
	}

	template<typename T>
	void reverse_of( vf::Case &c, T v ) {
		T want = 0;
		for( unsigned i = 0; i < width<T>; ++i ) {
			if( ( v >> i ) & 1U ) {
				want = static_cast<T>( want | ( T{ 1 } << ( width<T> - 1 - i ) ) );
			}
		}
		c.ctx( "width ", width<T>, " value ", +v );
		VF_EQ( c, "reverse_bits", daw::integers::reverse_bits( v ), want );
		VF_EQ( c, "reverse_bits twice", daw::integers::reverse_bits( daw::integers::reverse_bits( v ) ), v );
		c.op( "reverse" );
	}

	template<typename T>
	void masks_of( vf::Case &c, T v ) {
		unsigned const w = width<T>;
		auto const bit = []( unsigned i ) { return static_cast<T>( U<T>{ 1 } << i ); };
		unsigned const a = static_cast<unsigned>( c.rng.below( w ) );
		unsigned const b = static_cast<unsigned>( c.rng.below( w ) );
		unsigned const d = static_cast<unsigned>( c.rng.below( w ) );
		c.ctx( "width ", w, std::is_signed_v<T> ? "s" : "u", " value ", +v, " bits ", a, ",", b, ",", d );
		VF_EQ( c, "set_bits/1", daw::set_bits( v, a ), static_cast<T>( v | bit( a ) ) );
		VF_EQ( c, "set_bits/3", daw::set_bits( v, a, b, static_cast<unsigned char>( d ) ), static_cast<T>( v | bit( a ) | bit( b ) | bit( d ) ) );
		VF_EQ( c, "unset_bits/1", daw::unset_bits( v, a ), static_cast<T>( v & ~bit( a ) ) );
		VF_EQ( c, "unset_bits/3", daw::unset_bits( v, a, b, d ), static_cast<T>( v & ~bit( a ) & ~bit( b ) & ~bit( d ) ) );
		VF_EQ( c, "get_bits/1", daw::get_bits( v, a ), static_cast<T>( v & bit( a ) ) );
		VF_EQ( c, "get_bits/3", daw::get_bits( v, a, b, d ), static_cast<T>( v & ( bit( a ) | bit( b ) | bit( d ) ) ) );
		VF_EQ( c, "make_mask", daw::make_mask( bit( a ), bit( b ), bit( d ) ), static_cast<T>( bit( a ) | bit( b ) | bit( d ) ) );
		VF_EQ( c, "make_mask/1", daw::make_mask( v ), v );
		bool const any = ( v & ( bit( a ) | bit( b ) | bit( d ) ) ) != 0;
		VF_EQ( c, "are_set/3", daw::are_set( v, bit( a ), bit( b ), bit( d ) ), any );
		VF_EQ( c, "are_set/1", daw::are_set( v, bit( a ) ), ( v & bit( a ) ) != 0 );
		// the test happens in the common type of all operands, wherever the widest is
		auto const mixed = [&]( auto... ms ) {
			using C = std::common_type_t<T, decltype( ms )...>;
			VF_EQ( c, "are_set/common", daw::are_set( v, ms... ), ( static_cast<C>( v ) & ( static_cast<C>( ms ) | ... ) ) != 0 );
		};
		auto const s8 = static_cast<signed char>( c.rng.below( 3 ) );
		auto const i32 = static_cast<int>( c.rng.below( 3 ) ? 0 : c.rng.edgy<int>( ) );
		auto const u64 = std::uint64_t{ 1 } << c.rng.below( 64 );
		mixed( s8, i32, u64 );
		mixed( i32, u64 );
		mixed( u64, s8 );
		mixed( s8, u64, s8 );
		mixed( s8, i32 );
		mixed( s8, s8, i32, static_cast<std::uint16_t>( u64 ) );
		if constexpr( std::is_unsigned_v<T> ) {
			// the wider operand decides the width
			std::uint64_t const wide = std::uint64_t{ 1 } << c.rng.below( 64 );
			VF_EQ( c, "are_set/mixed", daw::are_set( v, wide ), ( static_cast<std::uint64_t>( v ) & wide ) != 0 );
			unsigned const n = static_cast<unsigned>( c.rng.below( w + 3 ) );
			auto const full = static_cast<T>( ~T{ 0 } );
			VF_EQ( c, "mask_msb", daw::mask_msb<T>( n ), n >= w ? T{ 0 } : static_cast<T>( full >> n ) );
			VF_EQ( c, "mask_lsb", daw::mask_lsb<T>( n ), n >= w ? T{ 0 } : static_cast<T>( full << n ) );
			if( n < w ) {
				VF_EQ( c, "get_left_mask", daw::get_left_mask<T>( n ), static_cast<T>( full >> n ) );
				VF_EQ( c, "get_right_mask", daw::get_right_mask<T>( n ), static_cast<T>( full << n ) );
			}
		}
		static_assert( daw::bit_count_v<T> == width<T> );
		c.nontrivial( vf::mix( vf::mix( a, b ), static_cast<std::uint64_t>( v ) ) );
		c.op( "masks" );
	}

	template<typename T>
	void value_ops( vf::Case &c, T v ) {
		endian_of<T>( c, v );
		if constexpr( std::is_unsigned_v<T> and not std::is_same_v<T, unsigned long long> ) {
			reverse_of<T>( c, v );
		}
		masks_of<T>( c, v );
	}

	// ---- bit queues ---------------------------------------------------------
	// model: front of the deque is the most recently pushed low bit
	template<typename Q, typename V, typename Order>
	void bit_queue_history( vf::Case &c ) {
		using Queue = daw::basic_bit_queue<Q, V, Order>;
		constexpr unsigned cap = width<Q>;
		Queue q{ };
		std::deque<bool> m; // back() is the oldest bit
		if( c.rng.chance( 1, 4 ) ) {
			auto const v = c.rng.edgy<Q>( );
			q = Queue( v );
			for( unsigned i = 0; i < cap; ++i ) {
				m.push_back( ( v >> i ) & 1U );
			}
		}
		auto const take = [&]( std::deque<bool>::const_iterator f, unsigned n ) {
			std::uint64_t r = 0;
			for( unsigned i = 0; i < n; ++i, ++f ) {
				r |= std::uint64_t{ *f } << i;
			}
			return r;
		};
		for( unsigned step = 0; step < 30; ++step ) {
			VF_EQ( c, "queue size", q.size( ), m.size( ) );
			VF_EQ( c, "queue empty", q.empty( ), m.empty( ) );
			VF_EQ( c, "queue full", q.full( ), m.size( ) == cap );
			VF_EQ( c, "queue capacity", Queue::capacity( ), std::size_t{ cap } );
			VF_EQ( c, "queue value", static_cast<std::uint64_t>( q.value( ) ), take( m.begin( ), static_cast<unsigned>( m.size( ) ) ) );
			auto const probe = c.rng.below( cap + 4 );
			VF_EQ( c, "queue can_pop", q.can_pop( probe ), probe <= m.size( ) );
			unsigned const vw = width<V>;
			switch( c.rng.below( 12 ) ) {
			case 0:
			case 1:
			case 2:
			case 3:
			case 4: {
				auto const room = static_cast<unsigned>( cap - m.size( ) );
				unsigned n = static_cast<unsigned>( c.rng.below( std::min( room, vw ) + 1U ) );
				if( c.rng.coin( ) ) {
					n = std::min( room, vw );
				}
				auto const v = c.rng.edgy<V>( );
				c.ctx( "push ", +v, " bits ", n, " at size ", m.size( ) );
				if( n == vw and c.rng.coin( ) ) {
					q.push_back( v );
				} else {
					q.push_back( v, n );
				}
				auto src = v;
				if constexpr( std::is_same_v<Order, daw::bit_queue_source_big_endian> ) {
					src = std::endian::native == std::endian::little ? reversed_bytes( v ) : v;
				}
				for( unsigned i = n; i > 0; --i ) {
					m.push_front( ( src >> ( i - 1 ) ) & 1U );
				}
				c.op( "push_back" );
				break;
			}
			case 5:
			case 6:
			case 7: {
				auto const n = static_cast<unsigned>( c.rng.below( std::min<std::size_t>( m.size( ), vw ) + 1U ) );
				c.ctx( "pop_front ", n, " at size ", m.size( ) );
				auto const want = take( m.begin( ), n );
				VF_EQ( c, "pop_front", static_cast<std::uint64_t>( q.pop_front( n ) ), want );
				m.erase( m.begin( ), m.begin( ) + n );
				c.op( "pop_front" );
				break;
			}
			case 8:
			case 9:
			case 10: {
				auto const n = static_cast<unsigned>( c.rng.below( std::min<std::size_t>( m.size( ), vw ) + 1U ) );
				c.ctx( "pop_back ", n, " at size ", m.size( ) );
				auto const want = take( m.end( ) - n, n );
				VF_EQ( c, "pop_back", static_cast<std::uint64_t>( q.pop_back( n ) ), want );
				m.erase( m.end( ) - n, m.end( ) );
				c.op( "pop_back" );
				break;
			}
			default:
				if( c.rng.coin( ) ) {
					q.clear( );
					c.op( "clear" );
				} else {
					auto const want = take( m.begin( ), static_cast<unsigned>( std::min<std::size_t>( m.size( ), vw ) ) );
					VF_EQ( c, "pop_all", static_cast<std::uint64_t>( q.pop_all( ) ), want );
					c.op( "pop_all" );
				}
				m.clear( );
			}
			c.nontrivial( vf::mix( m.size( ), static_cast<std::uint64_t>( q.value( ) ) ) );
		}
	}

	template<typename Q, typename V>
	void nibble_queue_history( vf::Case &c ) {
		using Queue = daw::basic_nibble_queue<Q, V>;
		constexpr unsigned cap = width<Q> / 4;
		Queue q{ };
		std::deque<unsigned> m; // front(): most recent nibble
		if( c.rng.coin( ) ) {
			auto const v = c.rng.edgy<Q>( );
			q = Queue( v );
			for( unsigned i = 0; i < cap; ++i ) {
				m.push_back( ( v >> ( 4U * i ) ) & 15U );
			}
		}
		auto const take = [&]( unsigned n ) {
			std::uint64_t r = 0;
			for( unsigned i = 0; i < n; ++i ) {
				r |= std::uint64_t{ m[i] } << ( 4U * i );
			}
			return r;
		};
		unsigned const vn = sizeof( V ) * 2;
		for( unsigned step = 0; step < 24; ++step ) {
			VF_EQ( c, "nibble size", q.size( ), m.size( ) );
			VF_EQ( c, "nibble empty", q.empty( ), m.empty( ) );
			VF_EQ( c, "nibble full", q.full( ), m.size( ) == cap );
			VF_EQ( c, "nibble capacity", q.capacity( ), std::size_t{ cap } );
			VF_EQ( c, "nibble value", static_cast<std::uint64_t>( q.value( ) ), take( static_cast<unsigned>( m.size( ) ) ) );
			auto const probe = c.rng.below( cap + 3 );
			VF_EQ( c, "nibble can_pop", q.can_pop( probe ), probe <= m.size( ) );
			VF_EQ( c, "nibble can_pop default", q.can_pop( ), vn <= m.size( ) );
			switch( c.rng.below( 8 ) ) {
			case 0:
			case 1:
			case 2:
			case 3: {
				auto const room = static_cast<unsigned>( cap - m.size( ) );
				auto const n = static_cast<unsigned>( c.rng.below( std::min( room, vn ) + 1U ) );
				auto const v = c.rng.edgy<V>( );
				c.ctx( "push ", +v, " nibbles ", n );
				if( n == 1 and c.rng.coin( ) ) {
					q.push_back( v );
				} else {
					q.push_back( v, n );
				}
				for( unsigned i = n; i > 0; --i ) {
					m.push_front( ( v >> ( 4U * ( i - 1 ) ) ) & 15U );
				}
				break;
			}
			case 4:
			case 5:
			case 6: {
				auto const n = static_cast<unsigned>( c.rng.below( std::min<std::size_t>( m.size( ), vn ) + 1U ) );
				c.ctx( "pop ", n );
				auto const want = take( n );
				VF_EQ( c, "nibble pop_front", static_cast<std::uint64_t>( q.pop_front( n ) ), want );
				m.erase( m.begin( ), m.begin( ) + n );
				break;
			}
			default: {
				auto const want = take( static_cast<unsigned>( std::min<std::size_t>( m.size( ), vn ) ) );
				if( c.rng.coin( ) ) {
					VF_EQ( c, "nibble pop_all", static_cast<std::uint64_t>( q.pop_all( ) ), want );
				} else {
					q.clear( );
				}
				m.clear( );
			}
			}
			c.op( "nibble" );
			c.nontrivial( vf::mix( m.size( ), static_cast<std::uint64_t>( q.value( ) ) ) );
		}
	}

	template<std::size_t N>
	void bitset_history( vf::Case &c ) {
		daw::bitset<N> b{ };
		std::bitset<N> m{ };
		static_assert( daw::bitset<N>::size( ) == N );
		for( unsigned step = 0; step < 24; ++step ) {
			auto const i = c.rng.chance( 1, 3 ) ? ( N - 1 - c.rng.below( 3 ) ) : static_cast<std::size_t>( c.rng.below( N ) );
			c.ctx( "N ", N, " step ", step, " index ", i );
			switch( c.rng.below( 6 ) ) {
			case 0:
			case 1:
				b.set( i );
				m.set( i );
				break;
			case 2:
				b.unset( i );
				m.reset( i );
				break;
			case 3: {
				bool const v = c.rng.coin( );
				b.set( i, v );
				m.set( i, v );
				break;
			}
			case 4: // fill, so that unset has something to damage
				for( std::size_t k = 0; k < N; ++k ) {
					b.set( k );
				}
				m.set( );
				break;
			default: {
				auto const copy = b;
				b.unset( i );
				VF_EQ( c, "bitset copy", copy.test( i ), m.test( i ) );
				m.reset( i );
			}
			}
			bool same = true;
			for( std::size_t k = 0; k < N; ++k ) {
				same = same and b.test( k ) == m.test( k );
			}
			VF_TRUE( c, "bitset contents", same );
			c.op( "bitset" );
			c.nontrivial( vf::mix( m.count( ), vf::mix( N, i ) ) );
		}
	}

	template<std::size_t N>
	void bitset_positions( vf::Case &c ) {
		std::vector<int> v;
		std::bitset<N> want{ };
		for( auto n = c.rng.below( 10 ); n > 0; --n ) {
			auto const p = c.rng.chance( 1, 3 ) ? N - 1 - c.rng.below( 2 ) : c.rng.below( N );
			v.push_back( static_cast<int>( p ) );
			want.set( p );
		}
		VF_TRUE( c, "positions vector", daw::create_bitset_from_set_positions<N>( v ) == want );
		std::list<unsigned long> l( v.begin( ), v.end( ) );
		VF_TRUE( c, "positions list", daw::create_bitset_from_set_positions<N>( l ) == want );
		std::vector<Pos> e;
		std::bitset<N> want_e{ };
		for( auto p : v ) {
			if( p < 256 ) {
				e.push_back( static_cast<Pos>( p ) );
				want_e.set( static_cast<std::size_t>( p ) );
			}
		}
		VF_TRUE( c, "positions enum", daw::create_bitset_from_set_positions<N>( e ) == want_e );
		if( v.size( ) >= 3 ) {
			std::bitset<N> w3{ };
			w3.set( static_cast<std::size_t>( v[0] ) );
			w3.set( static_cast<std::size_t>( v[1] ) );
			w3.set( static_cast<std::size_t>( v[2] ) );
			VF_TRUE( c, "positions args", daw::create_bitset_from_set_positions<N>( v[0], static_cast<unsigned>( v[1] ), static_cast<long long>( v[2] ) ) == w3 );
			VF_TRUE( c, "positions init list", daw::create_bitset_from_set_positions<N>( { v[0], v[1], v[2] } ) == w3 );
		}
		c.op( "positions" );
		c.nontrivial( vf::mix( want.count( ), v.empty( ) ? 0U : static_cast<unsigned>( v[0] ) ) );
	}

	template<typename To, typename From>
	void cast_of( vf::Case &c, From const &f ) {
		To const t = daw::bit_cast<To>( f );
		VF_TRUE( c, "bit_cast", std::memcmp( &t, &f, sizeof( To ) ) == 0 );
		auto const back = daw::bit_cast<From>( t );
		VF_TRUE( c, "bit_cast back", std::memcmp( &back, &f, sizeof( To ) ) == 0 );
		To const t2 = DAW_BIT_CAST( To, f );
		VF_TRUE( c, "DAW_BIT_CAST", std::memcmp( &t2, &f, sizeof( To ) ) == 0 );
		c.op( "bit_cast" );
	}
} // namespace

VF_FAMILY( bits_values, 40000, 800000 ) {
	value_ops( c, c.idx < 1024 ? static_cast<std::uint8_t>( c.idx ) : c.rng.edgy<std::uint8_t>( ) );
	value_ops( c, c.rng.edgy<std::uint16_t>( ) );
	value_ops( c, c.rng.edgy<std::uint32_t>( ) );
	value_ops( c, c.rng.edgy<std::uint64_t>( ) );
	value_ops( c, c.rng.edgy<unsigned long long>( ) );
	value_ops( c, c.rng.edgy<std::int8_t>( ) );
	value_ops( c, c.rng.edgy<std::int16_t>( ) );
	value_ops( c, c.rng.edgy<std::int32_t>( ) );
	value_ops( c, c.rng.edgy<std::int64_t>( ) );
	value_ops( c, c.rng.edgy<char>( ) );
}

VF_FAMILY( bits_16_exhaustive, 256, 256 ) {
	for( unsigned b = 0; b < 256; ++b ) {
		auto const v = static_cast<std::uint16_t>( ( c.idx << 8U ) | b );
		endian_of( c, v );
		reverse_of( c, v );
	}
}

VF_FAMILY( bit_queues, 12000, 200000 ) {
	using Le = daw::bit_queue_source_little_endian;
	using Be = daw::bit_queue_source_big_endian;
	switch( c.idx % 10 ) {
	case 0:
		return bit_queue_history<std::uint8_t, std::uint8_t, Le>( c );
	case 1:
		return bit_queue_history<std::uint16_t, std::uint8_t, Le>( c );
	case 2:
		return bit_queue_history<std::uint16_t, std::uint16_t, Le>( c );
	case 3:
		return bit_queue_history<std::uint32_t, std::uint8_t, Be>( c );
	case 4:
		return bit_queue_history<std::uint32_t, std::uint32_t, Le>( c );
	case 5:
		return bit_queue_history<std::uint64_t, std::uint8_t, Le>( c );
	case 6:
		return bit_queue_history<std::uint64_t, std::uint16_t, Be>( c );
	case 7:
		return bit_queue_history<std::uint64_t, std::uint64_t, Le>( c );
	case 8:
		return bit_queue_history<std::uint64_t, std::uint32_t, Be>( c );
	default:
		return bit_queue_history<std::uint64_t, std::uint64_t, Be>( c );
	}
}

VF_FAMILY( nibble_queues, 6000, 100000 ) {
	switch( c.idx % 4 ) {
	case 0:
		return nibble_queue_history<std::uint8_t, std::uint8_t>( c );
	case 1:
		return nibble_queue_history<std::uint32_t, std::uint8_t>( c );
	case 2:
		return nibble_queue_history<std::uint64_t, std::uint8_t>( c );
	default:
		return nibble_queue_history<std::uint64_t, std::uint32_t>( c );
	}
}

VF_FAMILY( bitset, 6000, 100000 ) {
	switch( c.idx % 9 ) {
	case 0:
		return bitset_history<3>( c );
	case 1:
		return bitset_history<31>( c );
	case 2:
		return bitset_history<32>( c );
	case 3:
		return bitset_history<33>( c );
	case 4:
		return bitset_history<64>( c );
	case 5:
		return bitset_history<65>( c );
	case 6:
		return bitset_history<130>( c );
	case 7:
		return bitset_positions<70>( c );
	default:
		return bitset_positions<256>( c );
	}
}

VF_FAMILY( bit_cast, 4000, 40000 ) {
	cast_of<std::uint32_t>( c, c.rng.edgy<std::int32_t>( ) );
	cast_of<std::array<unsigned char, 8>>( c, c.rng.edgy<std::uint64_t>( ) );
	cast_of<std::uint64_t>( c, std::array<std::uint16_t, 4>{ c.rng.edgy<std::uint16_t>( ), c.rng.edgy<std::uint16_t>( ), 3, 4 } );
	cast_of<std::uint64_t>( c, static_cast<double>( c.rng.edgy<std::int64_t>( ) ) );
	cast_of<float>( c, static_cast<std::uint32_t>( c.rng.below( 0x7f800000U ) ) );
}

VF_MAIN( )
