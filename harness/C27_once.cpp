// VF-QUICK: tsan
// VF-THOROUGH: tsan
// VF-FLAGS: -gline-tables-only
#include <daw/daw_allow_once.h>
#include <daw/daw_countable_resource.h>
#include "vf.h"
#include <barrier>
#include <list>
#include <thread>

VF_FAMILY( once_sequential, 500, 5000 ) {
	daw::allow_once_t o{ };
	bool called = false;
	for( int i = 0, n = 3 + (int)c.rng.below( 12 ); i < n; ++i ) {
		switch( c.rng.below( 3 ) ) {
		case 0:
			c.op( "check" );
			VF_EQ( c, "check", o.check( ), called );
			called = true;
			break;
		case 1:
			c.op( "bool" );
			VF_EQ( c, "bool", static_cast<bool>( o ), called );
			called = true;
			break;
		case 2:
			c.op( "reset" );
			o.reset( );
			called = false;
			break;
		}
	}
	c.nontrivial( c.idx );
}

// exactly one of the racing threads is let through in every round
VF_FAMILY( once_race, 30, 600 ) {
	int const nt = 2 + (int)c.rng.below( 5 );
	int const rounds = 40;
	daw::allow_once_t o{ };
	std::vector<std::vector<int>> won( nt, std::vector<int>( rounds ) );
	std::barrier start( nt );
	std::vector<std::thread> ts;
	c.op( "race" );
	for( int t = 0; t < nt; ++t )
		ts.emplace_back( [&, t] {
			for( int r = 0; r < rounds; ++r ) {
				start.arrive_and_wait( );
				if( t == 0 )
					o.reset( );
				start.arrive_and_wait( );
				for( volatile int d = ( t * 7 + r * 3 ) % 11; d > 0; d = d - 1 ) {}
				won[t][r] += not( ( t + r ) % 2 ? o.check( ) : static_cast<bool>( o ) );
				won[t][r] += not o.check( );
			}
		} );
	for( auto &t : ts )
		t.join( );
	std::uint64_t h = 0;
	for( int r = 0; r < rounds; ++r ) {
		int n = 0;
		for( int t = 0; t < nt; ++t ) {
			n += won[t][r];
			if( won[t][r] )
				h = vf::mix( h, (unsigned)t );
		}
		VF_EQ( c, "threads let through", n, 1 );
	}
	c.count( "once_rounds", rounds );
	c.nontrivial( h );
}
// what the first caller did before its check is visible to a later caller
VF_FAMILY( once_publish, 60, 1500 ) {
	c.op( "publish" );
	int seen = 0;
	for( int r = 0; r < 20; ++r ) {
		daw::allow_once_t o{ };
		int data = 0, got = -1;
		std::thread a( [&] {
			data = 42;
			(void)o.check( );
		} );
		std::thread b( [&] {
			for( volatile int d = ( r * 37 ) % 600; d > 0; d = d - 1 ) {}
			if( o.check( ) )
				got = data;
		} );
		a.join( );
		b.join( );
		VF_TRUE( c, "published value", got == -1 or got == 42 );
		seen += got == 42;
	}
	c.count( "publications_observed", seen );
	if( seen )
		c.nontrivial( vf::mix( c.idx, (unsigned)seen ) );
}
// the live count is exact after concurrent construction and destruction
VF_FAMILY( count_race, 30, 400 ) {
	using R = daw::countable_resource_t<int>;
	int const nt = 2 + (int)c.rng.below( 5 );
	std::vector<std::thread> ts;
	std::vector<std::list<R>> kept( nt );
	c.op( "race" );
	for( int t = 0; t < nt; ++t )
		ts.emplace_back( [&, t, seed = c.rng.next( )] {
			vf::Rng r( seed );
			for( int i = 0; i < 300; ++i ) {
				if( kept[t].empty( ) or r.below( 3 ) )
					kept[t].emplace_back( );
				else if( r.coin( ) )
					kept[t].pop_front( );
				else {
					R a = kept[t].front( );
					kept[t].back( ) = a;
				}
			}
		} );
	for( auto &t : ts )
		t.join( );
	std::size_t live = 0;
	for( auto &k : kept )
		live += k.size( );
	VF_EQ( c, "live count", R::value( ), (int)live );
	kept.clear( );
	VF_EQ( c, "zero", R::value( ), 0 );
	c.nontrivial( live );
}
VF_MAIN( )
