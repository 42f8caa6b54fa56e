// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include <daw/static_hash_table.h>
#include <daw/daw_min_perfect_hash.h>
#include <daw/deprecated/daw_ordered_map.h>
#include <daw/deprecated/daw_fixed_lookup.h>
#include "vf.h"
#include "vf_types.h"
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace {
	template<typename K> K key( int i );
	template<> int key<int>( int i ) { return i * 7 - 3; }
	template<> std::string key<std::string>( int i ) { return i % 5 == 0 ? std::string( static_cast<size_t>( i / 5 ), 'z' ) : "k" + std::to_string( i ) + std::string( i % 3 ? 0 : 30, 'x' ); }

	template<size_t N>
	void sht( vf::Case &c ) {
		auto &r = c.rng;
		using M = daw::static_hash_t<int, N>;
		auto up = std::make_unique<M>( );
		M &m = *up;
		M const &cm = m;
		std::map<std::string, int> ref;
		std::map<int, int> iref;
		bool const ints = r.coin( );
		int const range = static_cast<int>( N + 1 + r.below( N + 2 ) );
		c.ctx( "static_hash_t N=", N, " ints=", ints );
		if( not ints ) {
			M built{ { "one", 11 }, { "two", 22 }, { "one", 33 } };
			VF_EQ( c, "sht:ctor last value wins", std::as_const( built )["one"], 33 );
			VF_EQ( c, "sht:ctor", std::as_const( built )["two"], 22 );
		} else if( N >= 2 ) {
			M built( std::initializer_list<std::pair<int, int>>{ { 7, 1 }, { 9, 2 }, { 7, 5 } } );
			VF_EQ( c, "sht:int ctor last value wins", std::as_const( built )[7], 5 );
			VF_EQ( c, "sht:int ctor", std::as_const( built )[9], 2 );
		}
		for( size_t s = 0, steps = 3 + r.below( 40 ); s < steps; ++s ) {
			int i = static_cast<int>( r.below( static_cast<size_t>( range ) ) );
			std::string k = key<std::string>( i );
			size_t cnt = ints ? iref.size( ) : ref.size( );
			bool has = ints ? iref.count( i ) : ref.count( k );
			bool full = cnt == N, threw = false;
			int v = static_cast<int>( r.below( 1000 ) );
			c.op( has ? "sht:overwrite" : full ? "sht:insert full" : "sht:insert" );
			try {
				if( ints ) m[i] = v;
				else if( r.coin( ) ) m[k.c_str( )] = v;
				else m[static_cast<char const *>( k.c_str( ) )] = v;
			} catch( std::out_of_range const & ) { threw = true; }
			VF_EQ( c, "sht:insert refused iff full", threw, not has and full );
			if( not threw ) { if( ints ) iref[i] = v; else ref[k] = v; }
			cnt = ints ? iref.size( ) : ref.size( );
			for( int q = 0; q < range; ++q ) {
				std::string qs = key<std::string>( q );
				bool h = ints ? iref.count( q ) : ref.count( qs );
				if( h ) {
					int want = ints ? iref[q] : ref[qs];
					int got = ints ? cm[q] : cm[qs.c_str( )];
					VF_EQ( c, "sht:const operator[]", got, want );
					int got2 = ints ? m[q] : m[qs.c_str( )];
					VF_EQ( c, "sht:operator[]", got2, want );
				} else if( cnt == N ) {
					size_t p = ints ? cm.find( q ) : cm.find( qs.c_str( ) );
					VF_EQ( c, "sht:find absent in a full table", p, N );
					bool t2 = false;
					try { (void)( ints ? cm[q] : cm[qs.c_str( )] ); } catch( std::out_of_range const & ) { t2 = true; }
					VF_TRUE( c, "sht:const operator[] absent in a full table refused", t2 );
				} else {
					int got = ints ? cm[q] : cm[qs.c_str( )];
					VF_EQ( c, "sht:const operator[] absent reads a default value", got, 0 );
				}
			}
			std::set<size_t> pos;
			if( ints ) for( auto &p : iref ) pos.insert( cm.find( p.first ) );
			else for( auto &p : ref ) pos.insert( cm.find( p.first.c_str( ) ) );
			VF_TRUE( c, "sht:find positions are distinct slots", pos.size( ) == cnt and ( pos.empty( ) or *pos.rbegin( ) < N ) );
			c.nontrivial( vf::mix( cnt, N ) );
		}
	}
	VF_FAMILY( static_hash_table, 4000, 100000 ) {
		switch( c.idx % 4 ) {
		case 0: sht<2>( c ); break;
		case 1: sht<7>( c ); break;
		case 2: sht<16>( c ); break;
		default: sht<33>( c ); break;
		}
	}

	template<size_t N, size_t HS>
	void fl( vf::Case &c ) {
		auto &r = c.rng;
		using M = daw::fixed_lookup<std::string, N, HS>;
		std::unique_ptr<M> up( new M{ } );
		M &m = *up;
		M const &cm = m;
		std::map<std::string, std::string> ref;
		int const range = static_cast<int>( N + 1 + r.below( N + 2 ) );
		c.ctx( "fixed_lookup N=", N, " hash bytes=", HS );
		for( size_t s = 0, steps = 3 + r.below( 40 ); s < steps; ++s ) {
			std::string k = key<std::string>( static_cast<int>( r.below( static_cast<size_t>( range ) ) ) );
			bool has = ref.count( k ), full = ref.size( ) == N, threw = false;
			std::string v = "v" + std::to_string( s );
			bool ins = r.coin( );
			c.op( ins ? "fl:insert" : "fl:operator[]" );
			try {
				if( ins ) { auto p = m.insert( k, v ); VF_EQ( c, "fl:insert position", cm.get_existing( p ), v ); }
				else m[k] = v;
			} catch( std::exception const & ) { threw = true; }
			VF_EQ( c, "fl:insert refused iff full", threw, not has and full );
			if( not threw ) ref[k] = v;
			VF_EQ( c, "fl:size", static_cast<size_t>( cm.size( ) ), ref.size( ) );
			VF_EQ( c, "fl:capacity", static_cast<size_t>( cm.capacity( ) ), N );
			for( int q = 0; q < range; ++q ) {
				std::string qs = key<std::string>( q );
				bool h = ref.count( qs );
				VF_EQ( c, "fl:exists", cm.exists( qs ), h );
				bool t2 = false;
				try {
					auto p = cm.find_existing( qs );
					VF_TRUE( c, "fl:find_existing", h and cm.get_existing( p ) == ref[qs] and m.get_existing( p ) == ref[qs] );
				} catch( std::exception const & ) { t2 = true; }
				VF_EQ( c, "fl:find_existing refuses absent", t2, not h );
				if( h ) VF_EQ( c, "fl:const operator[]", cm[qs], ref[qs] );
			}
			c.nontrivial( vf::mix( ref.size( ), N ) );
		}
	}
	VF_FAMILY( fixed_lookup, 2000, 80000 ) {
		switch( c.idx % 4 ) {
		case 0: fl<1, 8>( c ); break;
		case 1: fl<7, 8>( c ); break;
		case 2: fl<16, 8>( c ); break;
		default: fl<5, 4>( c ); break;
		}
	}

	// ordered_map keeps first-insertion order
	template<typename K>
	void om( vf::Case &c ) {
		auto &r = c.rng;
		using M = daw::ordered_map<K, std::string>;
		M m;
		std::vector<std::pair<K, std::string>> ref;
		auto find = [&]( K const &k ) { for( size_t i = 0; i < ref.size( ); ++i ) if( ref[i].first == k ) return i; return ref.size( ); };
		if( r.coin( ) ) {
			std::vector<std::pair<K, std::string>> src;
			for( size_t n = r.below( 8 ), i = 0; i < n; ++i ) {
				src.emplace_back( key<K>( static_cast<int>( r.below( 6 ) ) ), std::to_string( i ) );
				if( find( src.back( ).first ) == ref.size( ) ) ref.push_back( src.back( ) );
			}
			c.op( "om:from iterators" );
			if( r.coin( ) ) m = M( src.begin( ), src.end( ) ); else m = M( src.begin( ), src.end( ), typename M::allocator_type{ } );
		}
		for( size_t s = 0, steps = 3 + r.below( 40 ); s < steps; ++s ) {
			K k = key<K>( static_cast<int>( r.below( 14 ) ) );
			std::string v = "v" + std::to_string( s );
			size_t p = find( k );
			bool has = p < ref.size( );
			switch( r.below( 6 ) ) {
			case 0: case 1: {
				c.op( "om:insert" );
				std::pair<typename M::iterator, bool> res;
				switch( r.below( 3 ) ) {
				case 0: res = m.insert( std::pair<K const, std::string>( k, v ) ); break;
				case 1: res = m.insert( std::pair<K, std::string>( k, v ) ); break;
				default: { std::pair<K const, std::string> const x( k, v ); res = m.insert( x ); } break;
				}
				VF_EQ( c, "om:insert tells whether it inserted", res.second, not has );
				if( not has ) ref.emplace_back( k, v );
				VF_TRUE( c, "om:insert position", res.first->first == k and res.first->second == ref[p].second );
				break;
			}
			case 2: c.op( "om:operator[] assign" ); m[k] = v; if( has ) ref[p].second = v; else ref.emplace_back( k, v ); break;
			case 3: c.op( "om:operator[] read" ); if( not has ) ref.emplace_back( k, "" ); VF_EQ( c, "om:operator[]", m[k], ref[p].second ); break;
			case 4: if( r.chance( 1, 8 ) ) { c.op( "om:clear" ); m.clear( ); ref.clear( ); } break;
			default: if( has ) { c.op( "om:at assign" ); m.at( k ) = v; ref[p].second = v; } break;
			}
			M const &cm = m;
			VF_EQ( c, "om:size", cm.size( ), ref.size( ) );
			VF_EQ( c, "om:empty", cm.empty( ), ref.empty( ) );
			VF_TRUE( c, "om:iteration in insertion order", std::equal( cm.begin( ), cm.end( ), ref.begin( ), ref.end( ) ) );
			VF_TRUE( c, "om:reverse iteration", std::equal( cm.rbegin( ), cm.rend( ), ref.rbegin( ), ref.rend( ) ) and std::equal( m.rbegin( ), m.rend( ), m.crbegin( ), m.crend( ) ) );
			if( not ref.empty( ) and not m.empty( ) ) VF_TRUE( c, "om:front/back", cm.front( ) == ref.front( ) and cm.back( ) == ref.back( ) and &m.front( ) == &cm.front( ) and &m.back( ) == &cm.back( ) );
			VF_TRUE( c, "om:cbegin/cend", cm.cbegin( ) == cm.begin( ) and cm.cend( ) == cm.end( ) and m.cbegin( ) == m.begin( ) and m.cend( ) == m.end( ) );
			VF_TRUE( c, "om:max_size", cm.max_size( ) >= cm.size( ) );
			for( int i = 0; i < 14; ++i ) {
				K q = key<K>( i );
				size_t qp = find( q );
				bool h = qp < ref.size( ), threw = false;
				VF_EQ( c, "om:find", cm.find( q ) != cm.end( ), h );
				VF_EQ( c, "om:find position", static_cast<size_t>( m.find( q ) - m.begin( ) ), qp );
				try { VF_TRUE( c, "om:at", cm.at( q ) == ( h ? ref[qp].second : std::string( "?" ) ) ); } catch( std::out_of_range const & ) { threw = true; }
				VF_EQ( c, "om:at refuses absent", threw, not h );
				threw = false;
				try { VF_TRUE( c, "om:at mutable", m.at( q ) == ( h ? ref[qp].second : std::string( "?" ) ) ); } catch( std::out_of_range const & ) { threw = true; }
				VF_EQ( c, "om:mutable at refuses absent", threw, not h );
			}
			c.nontrivial( ref.size( ) );
		}
	}
	VF_FAMILY( ordered_map_build, 300, 8000 ) {
		auto &r = c.rng;
		struct By { int m = 1; bool operator( )( int a, int b ) const { return a % m < b % m; } };
		using M = daw::ordered_map<int, int, By>;
		By const by{ 1 + static_cast<int>( r.below( 6 ) ) };
		int k[4];
		for( auto &x : k ) x = static_cast<int>( r.below( 9 ) );
		std::initializer_list<typename M::value_type> const il = { { k[0], 1 }, { k[1], 2 }, { k[2], 3 }, { k[3], 4 } };
		auto want = [&]( int mod ) {
			std::vector<std::pair<int, int>> w;
			for( int i = 0; i < 4; ++i ) {
				bool dup = false;
				for( auto &p : w ) dup = dup or p.first % mod == k[i] % mod;
				if( not dup ) w.emplace_back( k[i], i + 1 );
			}
			return w;
		};
		auto same = [&]( M const &m, std::vector<std::pair<int, int>> const &w ) { return std::equal( m.begin( ), m.end( ), w.begin( ), w.end( ) ); };
		typename M::allocator_type al;
		c.op( "om:build" );
		M m1( il, by, al );
		VF_TRUE( c, "om:from initializer list, comparator", same( m1, want( by.m ) ) );
		M m2( il, al );
		VF_TRUE( c, "om:from initializer list", same( m2, want( 1 ) ) );
		M m3( by, al );
		for( auto const &v : il ) m3.insert( v );
		VF_TRUE( c, "om:comparator kept", same( m3, want( by.m ) ) );
		M m4( il.begin( ), il.end( ), by );
		VF_TRUE( c, "om:from iterators, comparator", same( m4, want( by.m ) ) );
		c.nontrivial( vf::mix( static_cast<uint64_t>( k[0] * 9 + k[1] ), static_cast<uint64_t>( by.m * 81 + k[2] * 9 + k[3] ) ) );
	}
	VF_FAMILY( ordered_map, 2000, 80000 ) {
		if( c.idx % 2 ) om<int>( c ); else om<std::string>( c );
	}

	struct Spread { constexpr size_t operator( )( int i ) const { return static_cast<size_t>( static_cast<unsigned>( i ) ) * 0x9E3779B97F4A7C15ull; } };
	struct Ident { constexpr size_t operator( )( int i ) const { return static_cast<size_t>( static_cast<unsigned>( i ) ); } };
	template<size_t N, typename Hash>
	void mph( vf::Case &c ) {
		auto &r = c.rng;
		std::pair<int, int> data[N];
		std::map<int, int> ref;
		// keys in a small or a large window: includes 0, the default key value
		int window = r.coin( ) ? static_cast<int>( N + 3 ) : 2000000000;
		while( ref.size( ) < N ) {
			int k = static_cast<int>( r.below( static_cast<size_t>( window ) ) );
			if( ref.count( k ) ) continue;
			int v = static_cast<int>( r.below( 100000 ) ) + 1;
			data[ref.size( )] = { k, v };
			ref[k] = v;
		}
		c.ctx( "perfect_hash_table N=", N, " window=", window );
		c.op( "mph:build" );
		using M = daw::perfect_hash_table<N, int, int, Hash>;
		auto up = r.coin( ) ? std::make_unique<M>( data ) : std::make_unique<M>( data, data + N );
		M &m = *up;
		M const &cm = m;
		VF_EQ( c, "mph:size", cm.size( ), N );
		std::set<int const *> addr;
		for( auto &p : ref ) {
			VF_TRUE( c, "mph:contains", cm.contains( p.first ) );
			auto f = m.find( p.first );
			auto cf = cm.find( p.first );
			VF_TRUE( c, "mph:find", f and cf == f );
			if( f ) VF_EQ( c, "mph:find value", *f, p.second );
			VF_EQ( c, "mph:operator[]", m[p.first], p.second );
			VF_EQ( c, "mph:const operator[]", cm[p.first], p.second );
			addr.insert( cf );
		}
		VF_EQ( c, "mph:distinct slots", addr.size( ), N );
		for( int i = 0; i < 40; ++i ) {
			int q = i < static_cast<int>( N ) + 5 ? i : static_cast<int>( r.below( static_cast<size_t>( window ) + 10 ) );
			if( ref.count( q ) ) continue;
			VF_TRUE( c, "mph:absent not contained", not cm.contains( q ) );
			VF_TRUE( c, "mph:absent not found", not cm.find( q ) and not m.find( q ) );
		}
		auto const m2 = daw::make_perfect_hash_table<Hash>( data );
		for( auto &p : ref ) VF_TRUE( c, "mph:make_perfect_hash_table", m2.contains( p.first ) and m2[p.first] == p.second );
		int k0 = ref.begin( )->first;
		m[k0] = -5;
		VF_EQ( c, "mph:write", *cm.find( k0 ), -5 );
		c.nontrivial( vf::mix( static_cast<uint64_t>( ref.begin( )->first ), N ) );
	}
	VF_FAMILY( perfect_hash, 6000, 40000 ) {
		switch( c.idx % 8 ) {
		case 0: mph<1, Spread>( c ); break;
		case 1: mph<2, Spread>( c ); break;
		case 2: mph<3, Spread>( c ); break;
		case 3: mph<7, Spread>( c ); break;
		case 4: mph<8, Ident>( c ); break;
		case 5: mph<16, Spread>( c ); break;
		case 6: mph<31, Spread>( c ); break;
		default: mph<5, Ident>( c ); break;
		}
	}
}
VF_MAIN( )
