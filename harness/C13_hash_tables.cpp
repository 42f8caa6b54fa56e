// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include <daw/deprecated/daw_bounded_hash_map.h>
#include <daw/deprecated/daw_bounded_hash_set.h>
#include <daw/daw_hash_set.h>
#include "vf.h"
#include "vf_types.h"
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace {
	template<typename K> K key( int i );
	template<> int key<int>( int i ) { return i * 7 - 3; }
	template<> std::string key<std::string>( int i ) { return i % 5 == 0 ? std::string( static_cast<size_t>( i / 5 ), 'z' ) : "k" + std::to_string( i ) + std::string( i % 3 ? 0 : 30, 'x' ); }

	// MODE 0: everything collides; 1: few buckets; 2: identity like; 3: std
	template<typename K, int MODE>
	struct H {
		size_t operator( )( K const &k ) const noexcept {
			size_t h = std::hash<K>{ }( k );
			if constexpr( MODE == 0 ) return 0 * h;
			else if constexpr( MODE == 1 ) return h % 3;
			else if constexpr( MODE == 2 ) return h & 0xFFu;
			else return h;
		}
	};

	// every way to move, read and compare the iterators of a table: the walk is a
	// sequence of distinct positions, the same whichever operators make it
	template<typename M, typename Arrow, typename Star>
	void iterators( vf::Case &c, M &m, size_t n, Arrow arrow, Star star ) {
		using It = typename M::iterator;
		using CIt = typename M::const_iterator;
		std::vector<It> at;
		std::vector<CIt> cat;
		for( It i = m.begin( ); i != m.end( ) and at.size( ) <= n; i++ ) at.push_back( i );
		for( CIt i = m.cbegin( ); i != m.cend( ) and cat.size( ) <= n; ++i ) cat.push_back( i );
		VF_EQ( c, "table:iterator walk", at.size( ), n );
		VF_EQ( c, "table:const iterator walk", cat.size( ), n );
		if( at.size( ) != n or cat.size( ) != n ) return;
		at.push_back( m.end( ) );
		cat.push_back( m.cend( ) );
		It b = m.end( );
		CIt cb = m.cend( );
		for( size_t i = n; i > 0; --i ) {
			It was = b--;
			CIt cwas = cb--;
			VF_TRUE( c, "table:post-decrement gives the old position", was == at[i] and cwas == cat[i] );
			VF_TRUE( c, "table:post-decrement moves back", b == at[i - 1] and cb == cat[i - 1] );
			It f = b;
			CIt cf = cb;
			It fw = f++;
			CIt cfw = cf++;
			VF_TRUE( c, "table:post-increment", fw == b and cfw == cb and f == at[i] and cf == cat[i] );
			VF_TRUE( c, "table:pre-increment and pre-decrement", ++b == at[i] and ++cb == cat[i] and --b == at[i - 1] and --cb == cat[i - 1] );
			It const k = b;
			CIt const ck = cb;
			VF_TRUE( c, "table:iterator reads", arrow( b ) == star( b ) and &arrow( k ) == &star( k ) and &arrow( ck ) == &star( ck ) and &arrow( b ) == &arrow( ck ) and &star( b ) == &star( k ) );
		}
		for( size_t i = 0; i <= n; ++i ) {
			CIt const conv = at[i];
			VF_TRUE( c, "table:iterator converts to const", conv == cat[i] and conv == at[i] );
			for( size_t j = 0; j <= n; ++j ) {
				int const want = i < j ? -1 : i > j ? 1 : 0;
				VF_TRUE( c, "table:iterator compare", at[i].compare( at[j] ) == want and cat[i].compare( cat[j] ) == want and at[i].compare( cat[j] ) == want and cat[i].compare( at[j] ) == want );
				VF_TRUE( c, "table:iterator equality", ( at[i] == at[j] ) == ( i == j ) and ( cat[i] == cat[j] ) == ( i == j ) and ( at[i] == cat[j] ) == ( i == j ) and ( cat[i] == at[j] ) == ( i == j ) );
				VF_TRUE( c, "table:iterator inequality", ( at[i] != at[j] ) == ( i != j ) and ( cat[i] != cat[j] ) == ( i != j ) and ( at[i] != cat[j] ) == ( i != j ) and ( cat[i] != at[j] ) == ( i != j ) );
			}
		}
	}

	template<typename M, typename R>
	void same_map( vf::Case &c, M &m, R const &ref, size_t N, int range ) {
		using K = typename R::key_type;
		M const &cm = m;
		VF_EQ( c, "bhm:size", cm.size( ), ref.size( ) );
		VF_EQ( c, "bhm:empty", static_cast<bool>( cm.empty( ) ), ref.empty( ) );
		VF_EQ( c, "bhm:capacity", cm.capacity( ), N );
		for( int i = 0; i < range; ++i ) {
			K k = key<K>( i );
			auto it = ref.find( k );
			bool has = it != ref.end( );
			VF_EQ( c, "bhm:exists", cm.exists( k ), has );
			VF_EQ( c, "bhm:count", cm.count( k ), has ? 1u : 0u );
			auto f = m.find( k );
			auto cf = cm.find( k );
			VF_EQ( c, "bhm:find == end iff absent", f == m.end( ), not has );
			VF_EQ( c, "bhm:const find == end iff absent", cf == cm.end( ), not has );
			VF_TRUE( c, "bhm:mixed iterator compare", ( f == cf ) and not( cf != f ) );
			auto t = cm.try_get( k );
			VF_EQ( c, "bhm:try_get engaged", static_cast<bool>( t ), has );
			if( has ) {
				if( f != m.end( ) ) { VF_EQ( c, "bhm:find key", f->key, k ); VF_EQ( c, "bhm:find value", f->value, it->second ); }
				if( cf != cm.end( ) ) { VF_EQ( c, "bhm:const find key", ( *cf ).key, k ); VF_EQ( c, "bhm:const find value", cf->value, it->second ); }
				if( t ) VF_EQ( c, "bhm:try_get", *t, it->second );
				VF_EQ( c, "bhm:operator[]", m[k], it->second );
				VF_EQ( c, "bhm:const operator[]", cm[k], it->second );
			}
		}
		std::map<K, typename R::mapped_type> seen, cseen, rseen;
		size_t n = 0;
		for( auto &kv : m ) { seen.emplace( kv.key, kv.value ); if( ++n > N ) break; }
		VF_EQ( c, "bhm:iteration visits each once", n, ref.size( ) );
		VF_TRUE( c, "bhm:iteration contents", seen == ref );
		n = 0;
		for( auto it = cm.cbegin( ); it != cm.cend( ) and n <= N; it++ ) { cseen.emplace( it->key, it->value ); ++n; }
		VF_EQ( c, "bhm:const iteration visits each once", n, ref.size( ) );
		VF_TRUE( c, "bhm:const iteration contents", cseen == ref );
		n = 0;
		auto it = m.end( );
		for( ; n < ref.size( ); ++n ) { --it; rseen.emplace( it->key, it->value ); }
		VF_TRUE( c, "bhm:backward iteration contents", rseen == ref );
		VF_TRUE( c, "bhm:backward iteration ends at begin", it == m.begin( ) );
		iterators( c, m, n, []( auto const &i ) -> K const & { return i->key; }, []( auto const &i ) -> K const & { return ( *i ).key; } );
	}

	template<typename K, size_t N, int MODE>
	void bhm( vf::Case &c ) {
		using V = std::string;
		using M = daw::bounded_hash_map<K, V, N, H<K, MODE>>;
		auto &r = c.rng;
		auto up = std::make_unique<M>( );
		std::map<K, V> ref;
		int const range = static_cast<int>( N + 1 + r.below( N + 2 ) );
		size_t steps = 5 + r.below( 60 );
		c.ctx( "bounded_hash_map N=", N, " mode=", MODE, " steps=", steps );
		int vn = 0;
		for( size_t s = 0; s < steps; ++s ) {
			M &m = *up;
			K k = key<K>( static_cast<int>( r.below( static_cast<size_t>( range ) ) ) );
			bool has = ref.count( k ), fits = has or ref.size( ) < N;
			V v = "v" + std::to_string( ++vn );
			switch( r.below( 10 ) ) {
			case 0: case 1: if( not fits ) break; c.op( "bhm:insert(k,v)" ); { K kk = k; V vv = v; if( r.coin( ) ) m.insert( kk, vv ); else m.insert( std::move( kk ), std::move( vv ) ); } ref[k] = v; break;
			case 2: if( not fits ) break; c.op( "bhm:insert(pair)" ); m.insert( std::pair<K const, V>( k, v ) ); ref[k] = v; break;
			case 3: if( not fits ) break; c.op( "bhm:operator[] assign" ); if( r.coin( ) ) m[k] = v; else { K kk = k; m[std::move( kk )] = v; } ref[k] = v; break;
			case 4: if( not fits ) break; c.op( "bhm:operator[] default" ); VF_EQ( c, "bhm:operator[] default", m[k], ref[k] ); break;
			case 5: case 6: case 7: c.op( has ? "bhm:erase present" : "bhm:erase absent" ); m.erase( k ); ref.erase( k ); break;
			case 8: { auto f = m.find( k ); if( f != m.end( ) ) { c.op( "bhm:write through find" ); f->value = v; ref[k] = v; } break; }
			default: c.op( "bhm:copy" ); { auto n = std::make_unique<M>( *up ); up = std::move( n ); } break;
			}
			if( s % 4 == 0 or s + 1 == steps ) same_map( c, *up, ref, N, range );
			c.nontrivial( vf::mix( ref.size( ), N * 8 + MODE ) );
		}
		if( ref.size( ) == N and r.chance( 1, 4 ) ) {
			c.op( "bhm:full insert refused" );
			K k = key<K>( range + 1 );
			M &m = *up;
			VF_TRUE( c, "bhm:full insert refused", vf::outcome( [&] { m.insert( std::pair<K const, V>( k, "x" ) ); } ) != vf::End::returned );
			VF_TRUE( c, "bhm:full operator[] refused", vf::outcome( [&] { m[k] = "x"; } ) != vf::End::returned );
			VF_TRUE( c, "bhm:const operator[] absent refused", vf::outcome( [&] { (void)std::as_const( m )[k]; } ) != vf::End::returned );
		}
	}
	VF_FAMILY( bounded_hash_map, 9000, 250000 ) {
		switch( c.idx % 7 ) {
		case 0: bhm<int, 5, 0>( c ); break;
		case 1: bhm<int, 8, 1>( c ); break;
		case 2: bhm<int, 16, 2>( c ); break;
		case 3: bhm<std::string, 7, 1>( c ); break;
		case 4: bhm<std::string, 11, 3>( c ); break;
		case 5: bhm<int, 1, 3>( c ); break;
		default: bhm<int, 3, 2>( c ); break;
		}
	}

	VF_FAMILY( bounded_hash_map_build, 300, 6000 ) {
		auto &r = c.rng;
		c.op( "bhm:from iterators / array" );
		std::vector<std::pair<std::string, int>> src;
		std::map<std::string, int> ref;
		for( size_t n = r.below( 12 ), i = 0; i < n; ++i ) { src.emplace_back( key<std::string>( static_cast<int>( r.below( 9 ) ) ), static_cast<int>( i ) ); ref[src.back( ).first] = src.back( ).second; }
		daw::bounded_hash_map<std::string, int, 10> m( src.begin( ), src.end( ) );
		same_map( c, m, ref, 10, 12 );
		std::pair<int, int> const arr[4] = { { 1, 2 }, { static_cast<int>( r.below( 3 ) ), 5 }, { 4, 4 }, { 1, static_cast<int>( r.below( 9 ) ) } };
		std::map<int, int> ref2;
		for( auto &p : arr ) ref2[p.first] = p.second;
		daw::bounded_hash_map<int, int, 6> m2( arr );
		same_map( c, m2, ref2, 6, 4 );
		int const sarr[5] = { static_cast<int>( r.below( 3 ) ), 1, 5, static_cast<int>( r.below( 9 ) ), 1 };
		auto const hset = daw::make_bounded_hash_set<int>( sarr );
		std::set<int> const sref( std::begin( sarr ), std::end( sarr ) );
		std::set<int> const sgot( hset.begin( ), hset.end( ) );
		VF_TRUE( c, "bhs:make_bounded_hash_set", sgot == sref and hset.size( ) == sref.size( ) );
		struct HI { constexpr size_t operator( )( int i ) const { return static_cast<size_t>( i ); } };
		static constexpr std::pair<int, int> carr[4] = { { 1, 2 }, { 3, 4 }, { 1, 7 }, { 12, 9 } };
		constexpr auto cmap = daw::make_bounded_hash_map<int, int, HI>( carr );
		static_assert( cmap.size( ) == 3 and cmap[1] == 7 and cmap[3] == 4 and cmap[12] == 9 and not cmap.exists( 2 ) );
		c.nontrivial( vf::mix( ref.size( ), ref2.size( ) ) );
	}

	template<typename K, size_t N, int MODE>
	void bhs( vf::Case &c ) {
		using M = daw::bounded_hash_set_t<K, N, H<K, MODE>>;
		auto &r = c.rng;
		auto up = std::make_unique<M>( );
		std::set<K> ref;
		int const range = static_cast<int>( N + 1 + r.below( N + 2 ) );
		size_t steps = 5 + r.below( 60 );
		c.ctx( "bounded_hash_set N=", N, " mode=", MODE, " steps=", steps );
		for( size_t s = 0; s < steps; ++s ) {
			M &m = *up;
			K k = key<K>( static_cast<int>( r.below( static_cast<size_t>( range ) ) ) );
			bool has = ref.count( k );
			if( r.chance( 6, 10 ) ) {
				if( has or ref.size( ) < N ) {
					c.op( has ? "bhs:insert again" : "bhs:insert" );
					auto it = r.coin( ) ? m.insert( k ) : m.insert( K( k ) );
					ref.insert( k );
					VF_EQ( c, "bhs:insert returns the key's position", *it, k );
				}
			} else {
				c.op( has ? "bhs:erase present" : "bhs:erase absent" );
				auto e = m.erase( k );
				VF_EQ( c, "bhs:erase tells whether the key was there", e.has_value( ), has );
				ref.erase( k );
			}
			if( s % 3 == 0 or s + 1 == steps ) {
				M const &cm = m;
				VF_EQ( c, "bhs:size", cm.size( ), ref.size( ) );
				VF_EQ( c, "bhs:empty", static_cast<bool>( cm.empty( ) ), ref.empty( ) );
				for( int i = 0; i < range; ++i ) {
					K q = key<K>( i );
					bool h = ref.count( q );
					VF_EQ( c, "bhs:exists", cm.exists( q ), h );
					VF_EQ( c, "bhs:count", cm.count( q ), h );
					auto f = m.find( q );
					auto cf = cm.find( q );
					VF_EQ( c, "bhs:find", f != m.end( ), h );
					VF_EQ( c, "bhs:const find", cf != cm.end( ), h );
					if( h and f != m.end( ) ) VF_EQ( c, "bhs:find key", *f, q );
					if( h and cf != cm.end( ) ) VF_EQ( c, "bhs:const find key", *cf, q );
				}
				std::multiset<K> seen, cseen, back;
				for( auto it = m.begin( ); it != m.end( ) and seen.size( ) <= N; ++it ) seen.insert( *it );
				for( auto it = cm.cbegin( ); it != cm.cend( ) and cseen.size( ) <= N; ++it ) cseen.insert( *it );
				auto it = m.end( );
				for( size_t i = 0; i < ref.size( ); ++i ) back.insert( *--it );
				std::multiset<K> want( ref.begin( ), ref.end( ) );
				VF_TRUE( c, "bhs:iteration", seen == want );
				VF_TRUE( c, "bhs:const iteration", cseen == want );
				VF_TRUE( c, "bhs:backward iteration", back == want );
				VF_EQ( c, "bhs:capacity", cm.capacity( ), N );
				if( seen == want ) iterators( c, m, ref.size( ), []( auto const &i ) -> K const & { return *i.operator->( ); }, []( auto const &i ) -> K const & { return *i; } );
			}
			c.nontrivial( vf::mix( ref.size( ), N * 8 + MODE ) );
		}
		if( ref.size( ) == N and r.chance( 1, 4 ) ) {
			c.op( "bhs:full insert refused" );
			VF_TRUE( c, "bhs:full insert refused", vf::outcome( [&] { up->insert( key<K>( range + 1 ) ); } ) != vf::End::returned );
		}
	}
	VF_FAMILY( bounded_hash_set, 8000, 250000 ) {
		switch( c.idx % 6 ) {
		case 0: bhs<int, 5, 0>( c ); break;
		case 1: bhs<int, 9, 1>( c ); break;
		case 2: bhs<int, 16, 2>( c ); break;
		case 3: bhs<std::string, 7, 1>( c ); break;
		case 4: bhs<std::string, 10, 3>( c ); break;
		default: bhs<int, 1, 3>( c ); break;
		}
	}

	template<typename K, int MODE>
	void hs( vf::Case &c ) {
		auto &r = c.rng;
		size_t N = r.below( 20 );
		daw::hash_set_t<K, H<K, MODE>> m( N );
		std::set<K> ref;
		int const range = static_cast<int>( N + 1 + r.below( N + 2 ) );
		size_t steps = 5 + r.below( 60 );
		c.ctx( "hash_set_t N=", N, " mode=", MODE, " steps=", steps );
		for( size_t s = 0; s < steps; ++s ) {
			K k = key<K>( static_cast<int>( r.below( static_cast<size_t>( range ) ) ) );
			bool has = ref.count( k );
			if( r.chance( 6, 10 ) ) {
				bool threw = false;
				c.op( has ? "hs:insert again" : ref.size( ) == N ? "hs:insert full" : "hs:insert" );
				try { m.insert( k ); } catch( std::out_of_range const & ) { threw = true; }
				VF_EQ( c, "hs:insert refused iff full", threw, not has and ref.size( ) == N );
				if( not threw ) ref.insert( k );
			} else {
				c.op( has ? "hs:erase present" : "hs:erase absent" );
				VF_EQ( c, "hs:erase tells whether the key was there", m.erase( k ).has_value( ), has );
				ref.erase( k );
			}
			VF_EQ( c, "hs:size", m.size( ), ref.size( ) );
			VF_EQ( c, "hs:capacity", m.capacity( ), N );
			for( int i = 0; i < range; ++i ) {
				VF_EQ( c, "hs:exists", m.exists( key<K>( i ) ), ref.count( key<K>( i ) ) == 1 );
				VF_EQ( c, "hs:count", m.count( key<K>( i ) ), ref.count( key<K>( i ) ) );
			}
			c.nontrivial( vf::mix( ref.size( ), N * 8 + MODE ) );
		}
	}
	VF_FAMILY( hash_set, 6000, 150000 ) {
		switch( c.idx % 5 ) {
		case 0: hs<int, 0>( c ); break;
		case 1: hs<int, 1>( c ); break;
		case 2: hs<int, 2>( c ); break;
		case 3: hs<std::string, 1>( c ); break;
		default: hs<std::string, 3>( c ); break;
		}
	}

}
VF_MAIN( )
