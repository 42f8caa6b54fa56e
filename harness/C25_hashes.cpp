// C25: the hash functions against independent implementations of the published algorithms.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <daw/daw_fnv1a_hash.h>
#include <daw/daw_sip_hash.h>
#include <daw/daw_metro_hash.h>
#include <daw/daw_generic_hash.h>
#include <daw/daw_string_view.h>

#include "vf.h"

#include <array>
#include <cstdint>
#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include <string>
#include <string_view>
#include <vector>

namespace {
	using u8 = unsigned char;
	using u64 = std::uint64_t;
	using u32 = std::uint32_t;
	using Bytes = std::vector<u8>;

	// ---- independent references, over plain byte vectors ----
	u64 ref_fnv64( Bytes const &b ) {
		u64 h = 0xcbf29ce484222325ULL;
		for( u8 c : b ) {
			h = ( h ^ c ) * 0x100000001b3ULL;
		}
		return h;
	}
	u32 ref_fnv32( Bytes const &b ) {
		u32 h = 0x811c9dc5U;
		for( u8 c : b ) {
			h = ( h ^ c ) * 0x01000193U;
		}
		return h;
	}

	u64 rol( u64 v, unsigned n ) {
		return ( v << n ) | ( v >> ( 64 - n ) );
	}
	u64 ror( u64 v, unsigned n ) {
		return ( v >> n ) | ( v << ( 64 - n ) );
	}
	u64 rd( Bytes const &b, std::size_t at, unsigned n ) {
		u64 r = 0;
		for( unsigned i = n; i-- > 0; ) {
			r = ( r << 8 ) | b[at + i];
		}
		return r;
	}

	u64 ref_sip24( Bytes const &m, Bytes const &key ) {
		u64 const k0 = rd( key, 0, 8 ), k1 = rd( key, 8, 8 );
		u64 v[4] = { k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL,
		             k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL };
		auto round = [&] {
			v[0] += v[1];
			v[1] = rol( v[1], 13 );
			v[1] ^= v[0];
			v[0] = rol( v[0], 32 );
			v[2] += v[3];
			v[3] = rol( v[3], 16 );
			v[3] ^= v[2];
			v[0] += v[3];
			v[3] = rol( v[3], 21 );
			v[3] ^= v[0];
			v[2] += v[1];
			v[1] = rol( v[1], 17 );
			v[1] ^= v[2];
			v[2] = rol( v[2], 32 );
		};
		std::size_t at = 0;
		for( ; at + 8 <= m.size( ); at += 8 ) {
			u64 const w = rd( m, at, 8 );
			v[3] ^= w;
			round( );
			round( );
			v[0] ^= w;
		}
		u64 const last = ( static_cast<u64>( m.size( ) & 0xFFU ) << 56 ) |
		                 rd( m, at, static_cast<unsigned>( m.size( ) - at ) );
		v[3] ^= last;
		round( );
		round( );
		v[0] ^= last;
		v[2] ^= 0xFF;
		for( int i = 0; i < 4; ++i ) {
			round( );
		}
		return v[0] ^ v[1] ^ v[2] ^ v[3];
	}

	u64 ref_metro64( Bytes const &m, u64 seed ) {
		constexpr u64 K[4] = { 0xD6D018F5, 0xA2AA033B, 0x62992FC1, 0x30BC5B29 };
		u64 h = ( seed + K[2] ) * K[0];
		std::size_t at = 0;
		auto left = [&] {
			return m.size( ) - at;
		};
		auto take = [&]( unsigned n ) {
			u64 const r = rd( m, at, n );
			at += n;
			return r;
		};
		if( left( ) >= 32 ) {
			u64 v[4] = { h, h, h, h };
			while( left( ) >= 32 ) {
				for( int i = 0; i < 4; ++i ) {
					v[i] += take( 8 ) * K[i];
					v[i] = ror( v[i], 29 ) + v[( i + 2 ) % 4];
				}
			}
			v[2] ^= ror( ( v[0] + v[3] ) * K[0] + v[1], 37 ) * K[1];
			v[3] ^= ror( ( v[1] + v[2] ) * K[1] + v[0], 37 ) * K[0];
			v[0] ^= ror( ( v[0] + v[2] ) * K[0] + v[3], 37 ) * K[1];
			v[1] ^= ror( ( v[1] + v[3] ) * K[1] + v[2], 37 ) * K[0];
			h += v[0] ^ v[1];
		}
		if( left( ) >= 16 ) {
			u64 a = ror( h + take( 8 ) * K[2], 29 ) * K[3];
			u64 b = ror( h + take( 8 ) * K[2], 29 ) * K[3];
			a ^= ror( a * K[0], 21 ) + b;
			b ^= ror( b * K[3], 21 ) + a;
			h += b;
		}
		constexpr unsigned tail[4][2] = { { 8, 55 }, { 4, 26 }, { 2, 48 }, { 1, 37 } };
		for( auto const &t : tail ) {
			if( left( ) >= t[0] ) {
				h += take( t[0] ) * K[3];
				h ^= ror( h, t[1] ) * K[1];
			}
		}
		h ^= ror( h, 28 );
		h *= K[0];
		return h ^ ror( h, 29 );
	}

	Bytes gen( vf::Case &c, std::size_t max ) {
		std::size_t n;
		switch( c.rng.below( 4 ) ) {
		case 0:
			n = c.rng.below( 20 );
			break;
		case 1: {
			std::size_t const b[] = { 8, 16, 32, 64, 128, 256 };
			n = b[c.rng.below( 6 )];
			n = n + c.rng.below( 3 ) - 1;
			break;
		}
		default:
			n = c.rng.below( max );
		}
		Bytes r( n );
		auto const mode = c.rng.below( 4 );
		for( auto &b : r ) {
			b = static_cast<u8>( mode == 0   ? c.rng.below( 128 )
			                     : mode == 1 ? 128 + c.rng.below( 128 )
			                     : mode == 2 ? ( c.rng.coin( ) ? 0xFF : 0 )
			                                 : c.rng.below( 256 ) );
		}
		return r;
	}
	std::string str( Bytes const &b ) {
		return { b.begin( ), b.end( ) };
	}
	// the native memory image of the values of a sequence
	template<typename C>
	Bytes image( C const &vals ) {
		Bytes r;
		for( auto const &v : vals ) {
			u8 t[sizeof( v )];
			std::memcpy( t, &v, sizeof( v ) );
			r.insert( r.end( ), t, t + sizeof( v ) );
		}
		return r;
	}

	VF_FAMILY( published_vectors, 1, 1 ) {
		// the references themselves, against vectors from the algorithms' publications
		Bytes key, msg;
		for( int i = 0; i < 16; ++i ) {
			key.push_back( static_cast<u8>( i ) );
		}
		VF_EQ( c, "reference siphash ()", ref_sip24( msg, key ), 0x726fdb47dd0e0e31ULL );
		for( int i = 0; i < 15; ++i ) {
			msg.push_back( static_cast<u8>( i ) );
		}
		VF_EQ( c, "reference siphash 15", ref_sip24( msg, key ), 0xa129ca6149be45e5ULL );
		std::string const digits = "012345678901234567890123456789012345678901234567890123456789012";
		Bytes const d( digits.begin( ), digits.end( ) );
		VF_EQ( c, "reference metro seed 0", ref_metro64( d, 0 ), 0xad4b7006ae3d756bULL );
		VF_EQ( c, "reference metro seed 1", ref_metro64( d, 1 ), 0xdfb8b9f41c480d3bULL );
		Bytes const fb{ 'f', 'o', 'o', 'b', 'a', 'r' };
		VF_EQ( c, "reference fnv64", ref_fnv64( fb ), 0x85944171f73967e8ULL );
		VF_EQ( c, "reference fnv32", ref_fnv32( fb ), 0xbf9cf968U );
		VF_EQ( c, "fnv1a_hash", daw::fnv1a_hash( "foobar" ), 0x85944171f73967e8ULL );
		VF_EQ( c, "metro::hash64", daw::metro::hash64( daw::string_view( digits ), 0 ), 0xad4b7006ae3d756bULL );
		c.nontrivial( 1 );
		c.op( "vectors" );
	}

	VF_FAMILY( fnv1a_bytes, 30000, 80000 ) {
		Bytes const b = gen( c, 300 );
		u64 const want = ref_fnv64( b );
		auto const s = str( b );
		c.ctx( "bytes ", b.size( ) );
		c.nontrivial( vf::mix( want, b.size( ) ) );
		vf::Exact<char> e( std::string_view{ s } );
		vf::Exact<u8> eu( b.begin( ), b.size( ) );
		daw::fnv1a_hash_t const h{ };
		VF_EQ( c, "fnv1a_hash(ptr,len)", daw::fnv1a_hash( static_cast<char const *>( e.data( ) ), b.size( ) ), want );
		VF_EQ( c, "fnv1a_hash(uptr,len)", daw::fnv1a_hash( static_cast<u8 const *>( eu.data( ) ), b.size( ) ), want );
		VF_EQ( c, "fnv1a_hash(string)", daw::fnv1a_hash( s ), want );
		VF_EQ( c, "fnv1a_hash(std sv)", daw::fnv1a_hash( std::string_view( e.data( ), b.size( ) ) ), want );
		VF_EQ( c, "fnv1a_hash(daw sv)", daw::fnv1a_hash( daw::string_view( e.data( ), b.size( ) ) ), want );
		VF_EQ( c, "fnv1a_hash_t(string)", h( s ), want );
		VF_EQ( c, "fnv1a_hash_t(std sv)", h( std::string_view( e.data( ), b.size( ) ) ), want );
		VF_EQ( c, "fnv1a_hash_t(daw sv)", h( daw::string_view( e.data( ), b.size( ) ) ), want );
		VF_EQ( c, "fnv1a_hash_t(iter)", h( e.begin( ), e.end( ) ), want );
		VF_EQ( c, "fnv1a_hash_t(uiter)", h( eu.begin( ), eu.end( ) ), want );
		std::list<signed char> const l( b.begin( ), b.end( ) );
		VF_EQ( c, "fnv1a_hash_t(list)", h( l.begin( ), l.end( ) ), want );
		std::deque<char> const dq( b.begin( ), b.end( ) );
		VF_EQ( c, "fnv1a_hash_t(deque)", h( dq.begin( ), dq.end( ) ), want );
		// C strings stop at the terminator
		Bytes z;
		for( u8 x : b ) {
			if( x == 0 ) {
				break;
			}
			z.push_back( x );
		}
		Bytes zt = z;
		zt.push_back( 0 );
		vf::Exact<char> cz( zt.begin( ), zt.size( ) );
		VF_EQ( c, "fnv1a_hash(cstr)", daw::fnv1a_hash( static_cast<char const *>( cz.data( ) ) ), ref_fnv64( z ) );
		VF_EQ( c, "fnv1a_hash_t(cstr)", h( static_cast<char const *>( cz.data( ) ) ), ref_fnv64( z ) );
		// incremental use
		u64 inc = daw::fnv1a_impl::fnv_offset;
		for( u8 x : b ) {
			inc = h.append_hash( inc, x );
		}
		VF_EQ( c, "append_hash chain", inc, want );
		c.op( "fnv1a bytes" );
	}

	template<typename T>
	void int_hashes( vf::Case &c ) {
		T const v = c.rng.edgy<T>( );
		std::array<T, 1> const one{ v };
		Bytes const im = image( one );
		c.ctx( "integer of ", sizeof( T ), " bytes ", +v );
		c.nontrivial( vf::mix( sizeof( T ), static_cast<u64>( v ) ) );
		VF_EQ( c, "fnv1a_hash(int)", daw::fnv1a_hash( v ), ref_fnv64( im ) );
		VF_EQ( c, "fnv1a_hash_t(int)", daw::fnv1a_hash_t{ }( v ), ref_fnv64( im ) );
		VF_EQ( c, "generic_hash<8>(int)", daw::generic_hash<8>( v ), ref_fnv64( im ) );
		VF_EQ( c, "generic_hash<4>(int)", daw::generic_hash<4>( v ), ref_fnv32( im ) );
		VF_EQ( c, "generic_hash(int)", daw::generic_hash( v ), ref_fnv64( im ) );
		// sequences of integers are the concatenated images
		std::vector<T> seq( c.rng.below( 9 ) );
		for( auto &x : seq ) {
			x = c.rng.edgy<T>( );
		}
		Bytes const sim = image( seq );
		vf::Exact<T> es( seq.begin( ), seq.size( ) );
		VF_EQ( c, "fnv1a_hash_t(ints)", daw::fnv1a_hash_t{ }( es.begin( ), es.end( ) ), ref_fnv64( sim ) );
		VF_EQ( c, "fnv1a_hash(ints,len)", daw::fnv1a_hash( static_cast<T const *>( es.data( ) ), es.size( ) ), ref_fnv64( sim ) );
		VF_EQ( c, "generic_hash<8>(ints)", daw::generic_hash<8>( es.begin( ), es.end( ) ), ref_fnv64( sim ) );
		VF_EQ( c, "generic_hash<4>(ints)", daw::generic_hash<4>( es.begin( ), es.end( ) ), ref_fnv32( sim ) );
		VF_EQ( c, "generic_hash_t<8>(ints)", daw::generic_hash_t<8>{ }( es.begin( ), es.end( ) ), ref_fnv64( sim ) );
		VF_EQ( c, "generic_hash_t<4>(ints)", daw::generic_hash_t<4>{ }( es.begin( ), es.end( ) ), ref_fnv32( sim ) );
		VF_EQ( c, "generic_hash<8>(ints,len)", daw::generic_hash<8>( es.begin( ), std::size_t{ es.size( ) } ), ref_fnv64( sim ) );
		VF_EQ( c, "generic_hash<4>(ints,len)", daw::generic_hash<4>( es.begin( ), std::size_t{ es.size( ) } ), ref_fnv32( sim ) );
		// arrays hash every element
		T arr[5];
		for( auto &x : arr ) {
			x = c.rng.edgy<T>( );
		}
		Bytes const aim = image( arr );
		if constexpr( not std::is_same_v<T, char> ) {
			VF_EQ( c, "fnv1a_hash_t(array)", daw::fnv1a_hash_t{ }( arr ), ref_fnv64( aim ) );
			VF_EQ( c, "generic_hash_t<8>(array)", daw::generic_hash_t<8>{ }( arr ), ref_fnv64( aim ) );
			VF_EQ( c, "generic_hash_t<4>(array)", daw::generic_hash_t<4>{ }( arr ), ref_fnv32( aim ) );
			// a pointer hashes the object it points to
			vf::Exact<T> eo( &v, 1 );
			VF_EQ( c, "fnv1a_hash_t(ptr)", daw::fnv1a_hash_t{ }( static_cast<T const *>( eo.data( ) ) ), ref_fnv64( im ) );
			VF_EQ( c, "generic_hash_t<8>(ptr)", daw::generic_hash_t<8>{ }( static_cast<T const *>( eo.data( ) ) ), ref_fnv64( im ) );
		}
		c.op( "hash of integers" );
	}

	VF_FAMILY( integer_hashes, 20000, 40000 ) {
		switch( c.idx % 10 ) {
		case 0:
			return int_hashes<char>( c );
		case 1:
			return int_hashes<signed char>( c );
		case 2:
			return int_hashes<u8>( c );
		case 3:
			return int_hashes<short>( c );
		case 4:
			return int_hashes<unsigned short>( c );
		case 5:
			return int_hashes<int>( c );
		case 6:
			return int_hashes<unsigned>( c );
		case 7:
			return int_hashes<long long>( c );
		case 8:
			return int_hashes<unsigned long long>( c );
		default:
			return int_hashes<char32_t>( c );
		}
	}

	VF_FAMILY( generic_bytes, 30000, 80000 ) {
		Bytes const b = gen( c, 300 );
		auto const s = str( b );
		c.ctx( "bytes ", b.size( ) );
		u64 const w8 = ref_fnv64( b );
		u32 const w4 = ref_fnv32( b );
		c.nontrivial( vf::mix( w8, b.size( ) ) );
		vf::Exact<char> e( std::string_view{ s } );
		std::string_view const sv( e.data( ), b.size( ) );
		daw::string_view const dsv( e.data( ), b.size( ) );
		VF_EQ( c, "generic_hash(sv)", daw::generic_hash( sv ), w8 );
		VF_EQ( c, "generic_hash<8>(daw sv)", daw::generic_hash<8>( dsv ), w8 );
		VF_EQ( c, "generic_hash<4>(sv)", daw::generic_hash<4>( sv ), w4 );
		VF_EQ( c, "generic_hash<4>(daw sv)", daw::generic_hash<4>( dsv ), w4 );
		VF_EQ( c, "generic_hash<8>(string)", daw::generic_hash<8>( s ), w8 );
		VF_EQ( c, "generic_hash<4>(string)", daw::generic_hash<4>( s ), w4 );
		std::forward_list<char> const fl( b.begin( ), b.end( ) );
		VF_EQ( c, "generic_hash<8>(iter)", daw::generic_hash<8>( fl.begin( ), fl.end( ) ), w8 );
		VF_EQ( c, "generic_hash<4>(iter)", daw::generic_hash<4>( fl.begin( ), fl.end( ) ), w4 );
		VF_EQ( c, "generic_hash<8>(iter,len)", daw::generic_hash<8>( fl.begin( ), b.size( ) ), w8 );
		VF_EQ( c, "generic_hash<4>(iter,len)", daw::generic_hash<4>( fl.begin( ), b.size( ) ), w4 );
		// a character array is hashed with all of its elements
		char arr[6];
		for( std::size_t i = 0; i < 6; ++i ) {
			arr[i] = i < b.size( ) ? static_cast<char>( b[i] ) : '\0';
		}
		char const( &ca )[6] = arr;
		VF_EQ( c, "generic_hash<8>(array)", daw::generic_hash<8>( ca ), ref_fnv64( image( arr ) ) );
		VF_EQ( c, "generic_hash<4>(array)", daw::generic_hash<4>( ca ), ref_fnv32( image( arr ) ) );
		c.op( "generic bytes" );
	}

	VF_FAMILY( siphash, 30000, 120000 ) {
		Bytes const b = gen( c, 600 );
		Bytes key( 16 );
		bool const plain = c.rng.chance( 1, 4 );
		for( auto &k : key ) {
			k = static_cast<u8>( c.rng.below( plain ? 128 : 256 ) );
		}
		c.ctx( "bytes ", b.size( ) );
		u64 const want = ref_sip24( b, key );
		c.nontrivial( vf::mix( want, b.size( ) ) );
		vf::Exact<char> e( b.begin( ), b.size( ) ), k( key.begin( ), 16 );
		VF_EQ( c, "siphash24", daw::siphash24( static_cast<char const *>( e.data( ) ), b.size( ), static_cast<char const *>( k.data( ) ) ), want );
		// every start offset of a larger buffer reads only its own window
		if( b.size( ) > 3 ) {
			auto const off = 1 + c.rng.below( b.size( ) - 1 );
			Bytes const w( b.begin( ) + static_cast<std::ptrdiff_t>( off ), b.end( ) );
			VF_EQ( c, "siphash24 window", daw::siphash24( static_cast<char const *>( e.data( ) + off ), w.size( ), static_cast<char const *>( k.data( ) ) ), ref_sip24( w, key ) );
		}
		c.op( "siphash24" );
	}

	VF_FAMILY( metrohash, 30000, 120000 ) {
		Bytes const b = gen( c, 600 );
		u64 const seed = c.rng.edgy<u64>( );
		c.ctx( "bytes ", b.size( ), " seed ", seed );
		u64 const want = ref_metro64( b, seed );
		c.nontrivial( vf::mix( want, b.size( ) ) );
		vf::Exact<char> e( b.begin( ), b.size( ) );
		VF_EQ( c, "metro::hash64", daw::metro::hash64( daw::string_view( e.data( ), b.size( ) ), seed ), want );
		c.op( "metro hash64" );
	}

	// values the compiler computed
	constexpr char const ct_text[] = "The quick \x80\xff\xfe brown fox jumps over the lazy dog, \xc3\xa9 0123456789 0123456789";
	template<std::size_t N>
	struct ct {
		static constexpr std::string_view sv{ ct_text, N };
		static constexpr char const key[16] = { 1, 2, 3, -4, 5, 6, -7, 8, 9, 10, -11, 12, 13, 14, 15, -16 };
		static constexpr u64 fnv = daw::fnv1a_hash( ct_text, N );
		static constexpr u64 fnv_it = daw::fnv1a_hash_t{ }( sv.begin( ), sv.end( ) );
		static constexpr u64 fnv_sv = daw::fnv1a_hash_t{ }( sv );
		static constexpr u64 gen8 = daw::generic_hash<8>( sv.begin( ), sv.end( ) );
		static constexpr u32 gen4 = daw::generic_hash<4>( sv.begin( ), N );
		static constexpr u64 sip = daw::siphash24( static_cast<char const *>( ct_text ), N, key );
		static constexpr u64 metro = daw::metro::hash64( daw::string_view( ct_text, N ), N * 77 );
	};

	template<std::size_t N>
	void ct_check( vf::Case &c ) {
		using t = ct<N>;
		Bytes const b( ct_text, ct_text + N );
		Bytes const key( t::key, t::key + 16 );
		c.ctx( "first ", N, " bytes at compile time" );
		VF_EQ( c, "constexpr fnv1a_hash", t::fnv, ref_fnv64( b ) );
		VF_EQ( c, "constexpr fnv1a_hash_t(iter)", t::fnv_it, ref_fnv64( b ) );
		VF_EQ( c, "constexpr fnv1a_hash_t(sv)", t::fnv_sv, ref_fnv64( b ) );
		VF_EQ( c, "constexpr generic_hash<8>", t::gen8, ref_fnv64( b ) );
		VF_EQ( c, "constexpr generic_hash<4>", t::gen4, ref_fnv32( b ) );
		VF_EQ( c, "constexpr siphash24", t::sip, ref_sip24( b, key ) );
		VF_EQ( c, "constexpr metro", t::metro, ref_metro64( b, N * 77 ) );
		c.op( "compile time" );
	}
	VF_FAMILY( compile_time, 1, 1 ) {
		[&]<std::size_t... Is>( std::index_sequence<Is...> ) {
			( ct_check<Is>( c ), ... );
		}( std::make_index_sequence<72>{ } );
		// literals and C strings
		static constexpr u64 lit = daw::fnv1a_hash( "caf\xc3\xa9" );
		static constexpr u64 lit2 = daw::fnv1a_hash_t{ }( "caf\xc3\xa9" );
		Bytes const b{ 'c', 'a', 'f', 0xc3, 0xa9 };
		VF_EQ( c, "fnv1a_hash literal", lit, ref_fnv64( b ) );
		VF_EQ( c, "fnv1a_hash_t literal", lit2, ref_fnv64( b ) );
		c.nontrivial( 2 );
	}
} // namespace

VF_MAIN( )
