// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include "vf.h"
#include "vf_types.h"
#include <daw/daw_bind_args_at.h>
#include <daw/daw_bind_front.h>
#include <daw/daw_function.h>
#include <daw/daw_function_ref.h>
#include <daw/daw_function_table.h>
#include <daw/daw_function_view.h>
#include <daw/daw_mutable_capture.h>
#include <daw/daw_shared_function.h>
#include <daw/daw_stack_function.h>
#include <map>
#include <memory>
#include <optional>

namespace {
	struct Call {
		int id;
		int value;
		int unique;
		void const *ref;
		void const *cref;
		bool operator==( Call const & ) const = default;
	};
	std::vector<Call> *g_calls = nullptr;
	int g_throw_id = -1;
	struct boom {
		int id;
	};
	struct Arg : vf::Tracked {
		using vf::Tracked::Tracked;
	};
	using U = std::unique_ptr<int>;

	long body( int id, Arg a, int &lref, Arg const &cref, U u ) {
		{
			vf::Suspend s{ };
			g_calls->push_back( { id, a.get( ), u ? *u : -1, &lref, &cref } );
		}
		if( g_throw_id == id )
			throw boom{ id };
		lref += id;
		return id * 1000L + a.get( ) + cref.get( );
	}
	// targets of different sizes; the payload has a monitored lifetime
	template<typename P, size_t Pad>
	struct Target {
		P p;
		std::array<unsigned char, Pad> pad{ };
		explicit Target( int id ) : p( id ) { pad.fill( static_cast<unsigned char>( id ) ); }
		int id( ) const {
			for( auto x : pad )
				if( x != static_cast<unsigned char>( p.get( ) ) )
					return -777;
			return p.get( );
		}
		long operator( )( Arg a, int &l, Arg const &cr, U u ) const {
			return body( id( ), std::move( a ), l, cr, std::move( u ) );
		}
	};
	// no state at all
	struct Empty {
		long operator( )( Arg a, int &l, Arg const &cr, U u ) const {
			return body( 7, std::move( a ), l, cr, std::move( u ) );
		}
	};
	long free_fn( Arg a, int &l, Arg const &cr, U u ) {
		return body( 8, std::move( a ), l, cr, std::move( u ) );
	}
	long free_fn2( Arg a, int &l, Arg const &cr, U u ) {
		return body( 9, std::move( a ), l, cr, std::move( u ) );
	}
	using Sig = long( Arg, int &, Arg const &, U );

	// calls f and checks that exactly target id was called with these arguments
	template<typename F>
	void check_call( vf::Case &c, char const *label, F &&f, int id ) {
		std::vector<Call> calls;
		g_calls = &calls;
		int l = 5, av = 10 + static_cast<int>( c.rng.below( 50 ) ), cv = 100 + static_cast<int>( c.rng.below( 50 ) ),
		    uv = static_cast<int>( c.rng.below( 9 ) );
		Arg cr( cv );
		bool thr = c.rng.chance( 1, 5 );
		g_throw_id = thr ? id : -1;
		bool caught = false;
		long res = -1;
		try {
			if( c.rng.coin( ) ) {
				Arg a( av );
				res = f( a, l, cr, std::make_unique<int>( uv ) );
				VF_EQ( c, "lvalue argument is not moved from", a.get( ), av );
			} else {
				res = f( Arg( av ), l, cr, std::make_unique<int>( uv ) );
			}
		} catch( boom const &b ) {
			caught = true;
			VF_EQ( c, "the target's exception arrives", b.id, id );
		}
		g_throw_id = -1;
		VF_EQ( c, "exception propagates iff thrown", caught, thr );
		if( not thr ) {
			VF_EQ( c, vf::cat( label, ":result" ).c_str( ), res, id * 1000L + av + cv );
			VF_EQ( c, "reference argument is passed through", l, 5 + id );
		}
		VF_EQ( c, "const reference argument is unchanged", cr.get( ), cv );
		VF_EQ( c, vf::cat( label, ":number of target calls" ).c_str( ), calls.size( ), size_t{ 1 } );
		if( calls.size( ) == 1 ) {
			VF_EQ( c, vf::cat( label, ":called target" ).c_str( ), calls[0].id, id );
			VF_EQ( c, "by value argument", calls[0].value, av );
			VF_EQ( c, "move only argument", calls[0].unique, uv );
			VF_TRUE( c, "lvalue reference identity", calls[0].ref == &l );
			VF_TRUE( c, "const reference identity", calls[0].cref == &cr );
		}
		c.count( "calls observed", calls.size( ) );
		vf::Suspend s{ };
		std::vector<Call>( ).swap( calls );
	}
} // namespace

template<size_t N>
using Fn = daw::function<N, Sig>;

VF_FAMILY( stack_function, 6000, 200000 ) {
	auto &r = c.rng;
	vf::LedgerScope led;
	constexpr size_t N = 5;
	size_t steps = 5 + r.below( 40 );
	c.ctx( "stack_function steps=", steps );
	c.nontrivial( c.idx );
	{
		// id, -1 empty, -2 moved from
		std::array<int, N> m;
		m.fill( -1 );
		std::array<Fn<120>, N> hs{ Fn<120>{ }, Fn<120>{ nullptr }, Fn<120>{ }, Fn<120>{ }, Fn<120>{ } };
		int mb = -1;
		Fn<300> big{ };
		std::array<bool, N> monly{ };
		bool bigmonly = false;
		int next_id = 10;
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( N ), j = r.below( N );
			char const *n = "?";
			bool const inject = r.chance( 1, 6 );
			switch( r.below( 14 ) ) {
			case 0: {
				c.op( n = "function:assign small rvalue" );
				int id = next_id++ % 200;
				hs[i] = Target<vf::Tracked, 1>( id );
				m[i] = id;
				monly[i] = false;
				break;
			}
			case 1: {
				c.op( n = "function:assign large lvalue" );
				int id = next_id++ % 200;
				{
					Target<vf::Tracked, 60> t( id );
					if( inject )
						led.l.throw_at = 0;
					try {
						hs[i] = t;
						m[i] = id;
						monly[i] = false;
					} catch( vf::injected const & ) {
						c.count( "injected throws" );
					}
					led.l.throw_at = -1;
				}
				break;
			}
			case 2: {
				c.op( n = "function:assign move only" );
				int id = next_id++ % 200;
				hs[i] = Target<vf::MoveOnly, 9>( id );
				m[i] = id;
				monly[i] = true;
				break;
			}
			case 3:
				c.op( n = "function:assign function pointer" );
				if( r.coin( ) ) {
					hs[i] = &free_fn;
					m[i] = 8;
				} else {
					hs[i] = Empty{ };
					m[i] = 7;
				}
				monly[i] = false;
				break;
			case 4:
				c.op( n = "function:assign empty" );
				switch( r.below( 3 ) ) {
				case 0: hs[i] = Fn<120>{ }; break;
				case 1: hs[i] = Fn<120>( nullptr ); break;
				default: hs[i] = static_cast<Sig *>( nullptr ); break;
				}
				m[i] = -1;
				monly[i] = false;
				break;
			case 5: case 6:
				if( m[j] == -2 )
					break;
				c.op( n = i == j ? "function:self copy-assign" : "function:copy-assign" );
				if( inject )
					led.l.throw_at = 0;
				try {
					hs[i] = static_cast<Fn<120> const &>( hs[j] );
					if( m[j] >= 0 and monly[j] and i != j )
						c.fail( "copying a move only target must fail", "no exception" );
					m[i] = m[j];
					monly[i] = monly[j];
				} catch( vf::injected const & ) {
					c.count( "injected throws" );
				} catch( std::bad_function_call const & ) {
					VF_TRUE( c, "only a move only target cannot be copied", m[j] >= 0 and monly[j] );
				}
				led.l.throw_at = -1;
				break;
			case 7: {
				c.op( n = i == j ? "function:self move-assign" : "function:move-assign" );
				auto &src = hs[j];
				hs[i] = std::move( src );
				if( i != j ) {
					m[i] = m[j];
					monly[i] = monly[j];
					if( m[j] >= 10 )
						m[j] = -2;
				}
				break;
			}
			case 8: {
				c.op( n = "function:swap" );
				std::swap( hs[i], hs[j] );
				std::swap( m[i], m[j] );
				std::swap( monly[i], monly[j] );
				break;
			}
			case 9: {
				if( m[j] == -2 )
					break;
				c.op( n = "function:copy-construct" );
				try {
					Fn<120> const cp( static_cast<Fn<120> const &>( hs[j] ) );
					VF_EQ( c, "copy emptiness", cp.empty( ), m[j] < 0 );
					if( m[j] >= 0 )
						check_call( c, "call copy", [&]( auto &&...a ) { return cp( std::forward<decltype( a )>( a )... ); }, m[j] );
				} catch( std::bad_function_call const & ) {
					VF_TRUE( c, "only a move only target cannot be copied", m[j] >= 0 and monly[j] );
				}
				break;
			}
			case 10: {
				if( m[j] == -2 )
					break;
				c.op( n = "function:convert from smaller" );
				try {
					if( r.coin( ) ) {
						big = static_cast<Fn<120> const &>( hs[j] );
					} else {
						Fn<300> t( static_cast<Fn<120> const &>( hs[j] ) );
						big = std::move( t );
					}
					mb = m[j];
					bigmonly = monly[j];
				} catch( std::bad_function_call const & ) {
					VF_TRUE( c, "only a move only target cannot be copied", m[j] >= 0 and monly[j] );
				}
				break;
			}
			case 11: {
				c.op( n = "function:move-construct" );
				Fn<120> t( std::move( hs[i] ) );
				if( m[i] >= 0 )
					check_call( c, "call moved", [&]( auto &&...a ) { return t( std::forward<decltype( a )>( a )... ); }, m[i] );
				hs[i] = std::move( t );
				break;
			}
			default:
				c.op( n = "function:call" );
				if( m[i] >= 0 ) {
					if( r.coin( ) )
						check_call( c, "call", [&]( auto &&...a ) { return hs[i]( std::forward<decltype( a )>( a )... ); }, m[i] );
					else
						check_call( c, "const call", [&]( auto &&...a ) { return std::as_const( hs[i] )( std::forward<decltype( a )>( a )... ); }, m[i] );
				} else if( m[i] == -1 ) {
					bool thrown = false;
					int l = 0;
					Arg cr( 1 );
					try {
						(void)hs[i]( Arg( 1 ), l, cr, U{ } );
					} catch( std::bad_function_call const & ) { thrown = true; }
					VF_TRUE( c, "calling an empty function throws bad_function_call", thrown );
				}
			}
			for( size_t q = 0; q < N; ++q ) {
				if( m[q] == -2 )
					continue;
				VF_EQ( c, "empty()", hs[q].empty( ), m[q] == -1 );
				VF_EQ( c, "operator bool", static_cast<bool>( hs[q] ), m[q] != -1 );
			}
			if( mb >= 0 and r.chance( 1, 3 ) )
				check_call( c, "call big", [&]( auto &&...a ) { return big( std::forward<decltype( a )>( a )... ); }, mb );
			// live targets: one for every non-empty (or moved from) handle with a tracked payload
			size_t expect = 0;
			for( auto x : m )
				expect += x >= 10 or x == -2;
			expect += mb >= 10;
			VF_EQ( c, "live target objects", led.l.live.size( ), expect );
			if( not led.ok( c, n ) )
				return;
		}
		for( size_t q = 0; q < N; ++q )
			if( m[q] >= 0 )
				check_call( c, "final call", [&]( auto &&...a ) { return hs[q]( std::forward<decltype( a )>( a )... ); }, m[q] );
		(void)bigmonly;
	}
	led.check_empty( c, "stack_function" );
}

// other signatures of daw::function
VF_FAMILY( stack_function_sigs, 1500, 20000 ) {
	auto &r = c.rng;
	c.ctx( "stack_function_sigs" );
	c.nontrivial( c.idx );
	int x = static_cast<int>( r.range( -1000, 1000 ) );
	std::string s( r.below( 40 ), 'x' );
	daw::function<100, std::string( )> fs = [s] { return s; };
	auto fs2 = fs;
	fs = [] { return std::string( "other" ); };
	VF_EQ( c, "string result of the copy", fs2( ), s );
	VF_EQ( c, "string result", fs( ), std::string( "other" ) );
	int calls = 0;
	daw::function<64, void( int )> fv = [&calls]( int q ) { calls += q; };
	auto fv2 = std::move( fv );
	fv2( x );
	std::as_const( fv2 )( 2 );
	VF_EQ( c, "void calls", calls, x + 2 );
	daw::function<64, int &( )> fr = [&calls]( ) -> int & { return calls; };
	VF_TRUE( c, "reference result identity", &fr( ) == &calls );
	daw::function<64, U( U )> fu = []( U u ) { ++*u; return u; };
	VF_EQ( c, "move only in and out", *fu( std::make_unique<int>( x ) ), x + 1 );
	// lvalue target is copied, not referenced
	std::optional<std::string> o = s;
	{
		auto lam = [s]( int k ) { return static_cast<int>( s.size( ) ) + k; };
		daw::function<100, int( int )> *fp = new daw::function<100, int( int )>( lam );
		daw::function<100, int( int )> c2 = *fp;
		delete fp;
		VF_EQ( c, "copy outlives the source", c2( x ), static_cast<int>( s.size( ) ) + x );
	}
	std::function<int( int )> sf;
	daw::function<100, int( int )> fe = sf;
	VF_TRUE( c, "an empty std::function makes an empty function", fe.empty( ) );
	sf = [x]( int k ) { return x * k; };
	fe = sf;
	sf = nullptr;
	VF_EQ( c, "std::function target", fe( 3 ), x * 3 );
	daw::function<300, int( int )> nest = fe; // from a smaller one
	fe = daw::function<100, int( int )>{ };
	VF_EQ( c, "conversion copies", nest( 4 ), x * 4 );
}

VF_FAMILY( function_ref_view, 4000, 100000 ) {
	auto &r = c.rng;
	vf::LedgerScope led;
	c.ctx( "function_ref_view" );
	c.nontrivial( c.idx );
	{
		Target<vf::Tracked, 3> t0( 20 ), t1( 21 );
		Target<vf::MoveOnly, 33> t2( 22 );
		Empty e{ };
		auto lam = [k = 23]( Arg a, int &l, Arg const &cr, U u ) {
			return body( k, std::move( a ), l, cr, std::move( u ) );
		};
		auto mk_ref = [&]( int w, int &id ) -> daw::function_ref<Sig> {
			switch( w ) {
			case 0: id = 20; return t0;
			case 1: id = 21; return t1;
			case 2: id = 22; return t2;
			case 3: id = 7; return e;
			case 4: id = 8; return free_fn;
			case 5: id = 9; return &free_fn2;
			default: id = 23; return lam;
			}
		};
		auto mk_view = [&]( int w, int &id ) -> daw::function_view<Sig> {
			switch( w ) {
			case 0: id = 20; return daw::function_view<Sig>( t0 );
			case 1: id = 21; return daw::function_view<Sig>( t1 );
			case 2: id = 22; return daw::function_view<Sig>( t2 );
			case 3: id = 7; return daw::function_view<Sig>( e );
			case 4: id = 8; return daw::function_view<Sig>( free_fn );
			case 5: id = 9; return daw::function_view<Sig>( &free_fn2 );
			default: id = 23; return daw::function_view<Sig>( lam );
			}
		};
		constexpr size_t N = 4;
		std::vector<daw::function_ref<Sig>> rs;
		std::vector<daw::function_view<Sig>> vs;
		std::vector<int> mr( N ), mv( N );
		for( size_t i = 0; i < N; ++i ) {
			rs.push_back( mk_ref( static_cast<int>( r.below( 7 ) ), mr[i] ) );
			vs.push_back( mk_view( static_cast<int>( r.below( 7 ) ), mv[i] ) );
		}
		size_t live = led.l.live.size( );
		for( size_t k = 0, steps = 3 + r.below( 25 ); k < steps; ++k ) {
			size_t i = r.below( N ), j = r.below( N );
			switch( r.below( 7 ) ) {
			case 0:
				c.op( "function_ref:copy-assign" );
				rs[i] = rs[j];
				mr[i] = mr[j];
				break;
			case 1:
				c.op( "function_ref:rebind object" );
				switch( r.below( 3 ) ) {
				case 0: rs[i] = t1; mr[i] = 21; break;
				case 1: rs[i] = lam; mr[i] = 23; break;
				default: rs[i] = t2; mr[i] = 22; break;
				}
				break;
			case 2:
				c.op( "function_ref:rebind function" );
				rs[i] = r.coin( ) ? &free_fn : &free_fn2;
				mr[i] = rs[i].m_data.func_ptr == &free_fn ? 8 : 9;
				break;
			case 3: {
				c.op( "function_view:copy of a non-const view" );
				daw::function_view<Sig> *tmp = new daw::function_view<Sig>( vs[j] );
				auto cp = *tmp;
				delete tmp;
				vs[i] = cp;
				mv[i] = mv[j];
				break;
			}
			case 4:
				c.op( "function_view:rebind" );
				vs[i] = mk_view( static_cast<int>( r.below( 7 ) ), mv[i] );
				break;
			case 5:
				check_call( c, "function_ref", [&]( auto &&...a ) { return rs[i]( std::forward<decltype( a )>( a )... ); }, mr[i] );
				break;
			default:
				check_call( c, "function_view", [&]( auto &&...a ) { return vs[i]( std::forward<decltype( a )>( a )... ); }, mv[i] );
			}
			VF_EQ( c, "views never copy their targets", led.l.live.size( ), live );
		}
		for( size_t i = 0; i < N; ++i ) {
			check_call( c, "function_ref", [&]( auto &&...a ) { return rs[i]( std::forward<decltype( a )>( a )... ); }, mr[i] );
			check_call( c, "function_view", [&]( auto &&...a ) { return vs[i]( std::forward<decltype( a )>( a )... ); }, mv[i] );
		}
		// void signatures
		using VSig = void( Arg, int &, Arg const &, U );
		daw::function_ref<VSig> vr0 = t0, vr1 = lam;
		daw::function_view<VSig> vv0( t1 ), vv1( e );
		check_call( c, "function_ref<void>", [&]( Arg a, int &l, Arg const &cr, U u ) {
			long x = 20 * 1000L + a.get( ) + cr.get( );
			vr0( std::move( a ), l, cr, std::move( u ) );
			return x;
		}, 20 );
		check_call( c, "function_ref<void>", [&]( Arg a, int &l, Arg const &cr, U u ) {
			long x = 23 * 1000L + a.get( ) + cr.get( );
			vr1( std::move( a ), l, cr, std::move( u ) );
			return x;
		}, 23 );
		check_call( c, "function_view<void>", [&]( Arg a, int &l, Arg const &cr, U u ) {
			long x = 21 * 1000L + a.get( ) + cr.get( );
			vv0( std::move( a ), l, cr, std::move( u ) );
			return x;
		}, 21 );
		check_call( c, "function_view<void>", [&]( Arg a, int &l, Arg const &cr, U u ) {
			long x = 7 * 1000L + a.get( ) + cr.get( );
			vv1( std::move( a ), l, cr, std::move( u ) );
			return x;
		}, 7 );
		// std::bind style helpers
		daw::bind_front bf( [&]( vf::Tracked const &x, int y, int z ) { return x.get( ) * 100 + y * 10 + z; }, vf::Tracked( 4 ), 5 );
		VF_EQ( c, "bind_front", bf( 6 ), 456 );
		VF_EQ( c, "bind_front const", std::as_const( bf )( 7 ), 457 );
		auto bf2 = bf;
		VF_EQ( c, "bind_front copy", bf2( 1 ), 451 );
		auto mc = [q = daw::mutable_capture( vf::Tracked( 3 ) )]( ) { *q = vf::Tracked( q->get( ) + 1 ); return q.get( ).get( ); };
		auto const mc2 = mc;
		VF_EQ( c, "mutable_capture", mc( ) * 10 + mc( ), 45 );
		VF_EQ( c, "mutable_capture copy is independent", mc2( ), 4 );
		auto callable = daw::make_callable( free_fn );
		check_call( c, "make_callable", [&]( auto &&...a ) { return callable( std::forward<decltype( a )>( a )... ); }, 8 );
		static int noted;
		noted = 0;
		daw::make_callable( +[]( int q ) { noted += q; } )( 5 );
		VF_EQ( c, "make_callable of a function without result", noted, 5 );
		check_call( c, "make_callable object", [&]( auto &&...a ) { return daw::make_callable( t1 )( std::forward<decltype( a )>( a )... ); }, 21 );
		if( not led.ok( c, "function_ref_view" ) )
			return;
	}
	led.check_empty( c, "function_ref_view" );
}

// functions without a result, through every way to bind and to rebind
namespace {
	int g_void_sum = 0;
	void void_add( int x ) {
		g_void_sum += x;
	}
	void void_twice( int x ) {
		g_void_sum += 2 * x;
	}
	struct VoidEmpty {
		int operator( )( int x ) const {
			g_void_sum += 3 * x;
			return x;
		}
	};
} // namespace
VF_FAMILY( void_signatures, 2000, 20000 ) {
	auto &r = c.rng;
	vf::LedgerScope led;
	c.nontrivial( r.next( ) );
	{
		vf::Tracked weight( 4 );
		auto heavy = [&weight]( int x ) { g_void_sum += weight.get( ) * x; };
		auto owning = [t = vf::Tracked( 5 )]( int x ) { g_void_sum += t.get( ) * x; return t.get( ); };
		VoidEmpty const empty{ };
		void ( *ptr )( int ) = r.coin( ) ? void_add : void_twice;
		int const ptr_w = ptr == &void_add ? 1 : 2;
		std::size_t const live = led.l.live.size( );
		auto make = [&]<typename F>( F *, int w ) -> F {
			switch( w ) {
			case 0: return F( void_add );
			case 1: return F( &void_twice );
			case 2: return F( empty );
			case 3: return F( heavy );
			case 4: return F( owning );
			default: return F( ptr );
			}
		};
		int const weights[] = { 1, 2, 3, 4, 5, ptr_w };
		auto run = [&]<typename F>( char const *name, F *tag, bool views ) {
			c.op( name );
			std::vector<F> fs;
			std::vector<int> m;
			for( int i = 0; i < 3; ++i ) {
				m.push_back( static_cast<int>( r.below( 6 ) ) );
				fs.push_back( make( tag, m.back( ) ) );
			}
			for( std::size_t k = 0, n = 4 + r.below( 12 ); k < n; ++k ) {
				auto i = r.below( 3 ), j = r.below( 3 );
				switch( r.below( 4 ) ) {
				case 0:
					fs[i] = static_cast<F const &>( fs[j] );
					m[i] = m[j];
					break;
				case 1: {
					F copy( static_cast<F const &>( fs[j] ) );
					fs[i] = std::move( copy );
					m[i] = m[j];
					break;
				}
				case 2:
					// directly from the target
					m[i] = static_cast<int>( r.below( 6 ) );
					switch( m[i] ) {
					case 0: fs[i] = void_add; break;
					case 1: fs[i] = &void_twice; break;
					case 2: fs[i] = empty; break;
					case 3: fs[i] = heavy; break;
					case 4: fs[i] = owning; break;
					default: fs[i] = ptr;
					}
					break;
				default: break;
				}
				for( std::size_t q = 0; q < 3; ++q ) {
					int const x = static_cast<int>( r.below( 1000 ) );
					g_void_sum = 0;
					static_assert( std::is_void_v<decltype( std::as_const( fs[q] )( x ) )> );
					if( r.coin( ) )
						fs[q]( x );
					else
						std::as_const( fs[q] )( x );
					VF_EQ( c, vf::cat( name, ": called once with its argument" ).c_str( ), g_void_sum, weights[m[q]] * x );
				}
				if( views )
					VF_EQ( c, "views never copy their targets", led.l.live.size( ), live );
			}
		};
		run( "function_ref<void>", static_cast<daw::function_ref<void( int )> *>( nullptr ), true );
		run( "function_view<void>", static_cast<daw::function_view<void( int )> *>( nullptr ), true );
		run( "function<void>", static_cast<daw::function<120, void( int )> *>( nullptr ), false );
	}
	led.check_empty( c, "void signatures" );
}

// the bound arguments go in at their place; the others keep their order, and each is moved at most once
VF_FAMILY( bind_args, 3000, 30000 ) {
	auto &r = c.rng;
	vf::LedgerScope led;
	c.nontrivial( r.next( ) );
	{
		int const a = static_cast<int>( r.below( 10 ) ), b = static_cast<int>( r.below( 10 ) ), x = static_cast<int>( r.below( 10 ) ),
		          y = static_cast<int>( r.below( 10 ) );
		int calls = 0;
		auto digits = [&calls]( auto const &...v ) {
			++calls;
			int res = 0;
			( (void)( res = res * 10 + static_cast<int>( v ) ), ... );
			return res;
		};
		auto num = [&]( std::initializer_list<int> v ) {
			int res = 0;
			for( int q : v )
				res = res * 10 + q;
			return res;
		};
		auto b0 = daw::bind_args_at<0>( digits, a, b );
		auto const b1 = daw::bind_args_at<1>( digits, a, b );
		auto b2 = daw::bind_args_at<2>( digits, a );
		auto bn = daw::bind_args_at<1>( digits );
		VF_EQ( c, "bind_args_at<0>", b0( x, y ), num( { a, b, x, y } ) );
		VF_EQ( c, "bind_args_at<0> alone", std::as_const( b0 )( ), num( { a, b } ) );
		VF_EQ( c, "bind_args_at<1>", b1( x, y ), num( { x, a, b, y } ) );
		VF_EQ( c, "bind_args_at<1>, three", b1( x, y, a ), num( { x, a, b, y, a } ) );
		VF_EQ( c, "bind_args_at<2>", b2( x, y ), num( { x, y, a } ) );
		VF_EQ( c, "bind_args_at of nothing", bn( x, y ), num( { x, y } ) );
		VF_EQ( c, "each called once", calls, 6 );
		static_assert( std::is_invocable_v<decltype( b0 ) &, int> );
		// values with an identity
		vf::Tracked t( 7 );
		auto owned = daw::bind_args_at<1>(
		  []( vf::Tracked p, vf::Tracked const &q, std::unique_ptr<int> u ) { return p.get( ) * 100 + q.get( ) * 10 + *u; }, t );
		t = vf::Tracked( 1 );
		vf::Tracked first( x );
		VF_EQ( c, "the bound value is a copy", owned( first, std::make_unique<int>( y ) ), x * 100 + 70 + y );
		VF_EQ( c, "an lvalue argument is not moved from", first.get( ), x );
		VF_EQ( c, "called again", owned( vf::Tracked( y ), std::make_unique<int>( x ) ), y * 100 + 70 + x );
		auto copy = owned;
		VF_EQ( c, "copied", std::as_const( copy )( first, std::make_unique<int>( 1 ) ), x * 100 + 71 );
		int target = x;
		daw::bind_args_at<0>( []( int q, int &to ) { to += q; }, a )( std::ref( target ) );
		VF_EQ( c, "reference wrapper", target, x + a );
		daw::bind_args_at<1>( []( int &to, int q ) { to -= q; }, a )( std::ref( target ) );
		VF_EQ( c, "reference wrapper first", target, x );
		bool threw = false;
		try {
			daw::bind_args_at<1>( []( int p, int q ) -> int { throw boom{ p * 10 + q }; }, b )( a );
		} catch( boom const &e ) { threw = e.id == a * 10 + b; }
		VF_TRUE( c, "exceptions pass through", threw );
	}
	led.check_empty( c, "bind_args" );
}

namespace {
	template<typename S>
	struct SF {
		using type = daw::shared_function<S>;
		using weak = daw::weak_shared_function<S>;
	};
	template<typename S, typename Caller>
	void shared_history( vf::Case &c, char const *name, Caller call ) {
		auto &r = c.rng;
		using H = daw::shared_function<S>;
		using W = daw::weak_shared_function<S>;
		vf::LedgerScope led;
		constexpr size_t N = 5;
		size_t steps = 5 + r.below( 40 );
		c.ctx( "shared_function ", name, " steps=", steps );
		{
			std::vector<H> hs( N );
			std::vector<std::optional<W>> ws( N );
			std::vector<int> m( N, -1 ), mw( N, -1 );
			int next_id = 10;
			auto owners = [&]( int id ) { return std::count( m.begin( ), m.end( ), id ); };
			for( size_t k = 0; k < steps; ++k ) {
				size_t i = r.below( N ), j = r.below( N );
				char const *n = "?";
				switch( r.below( 12 ) ) {
				case 0: {
					c.op( n = "shared:bind rvalue" );
					int id = next_id++;
					if( r.coin( ) )
						hs[i] = H( Target<vf::Tracked, 2>( id ) );
					else
						hs[i] = H( Target<vf::Tracked, 40>( id ) );
					m[i] = id;
					break;
				}
				case 1: {
					c.op( n = "shared:bind lvalue" );
					int id = next_id++;
					Target<vf::Tracked, 2> t( id );
					bool inj = r.chance( 1, 4 );
					if( inj )
						led.l.throw_at = 0;
					try {
						hs[i] = H( t );
						m[i] = id;
					} catch( vf::injected const & ) { c.count( "injected throws" ); }
					led.l.throw_at = -1;
					break;
				}
				case 2: {
					c.op( n = "shared:bind move only / pointer" );
					if( r.coin( ) ) {
						int id = next_id++;
						hs[i] = H( Target<vf::MoveOnly, 2>( id ) );
						m[i] = id;
					} else {
						hs[i] = H( &free_fn );
						m[i] = 8;
					}
					break;
				}
				case 3: case 4:
					c.op( n = i == j ? "shared:self copy-assign" : "shared:copy-assign" );
					hs[i] = static_cast<H const &>( hs[j] );
					m[i] = m[j];
					break;
				case 5: {
					c.op( n = i == j ? "shared:self move-assign" : "shared:move-assign" );
					auto &src = hs[j];
					hs[i] = std::move( src );
					if( i != j ) {
						m[i] = m[j];
						m[j] = -1;
					}
					break;
				}
				case 6:
					c.op( n = "shared:clear" );
					if( r.coin( ) )
						hs[i] = H( nullptr );
					else
						hs[i] = H{ };
					m[i] = -1;
					break;
				case 7:
					c.op( n = "shared:get_weak" );
					if( m[i] == 8 )
						break;
					ws[j].emplace( hs[i].get_weak( ) );
					mw[j] = m[i];
					break;
				case 8: {
					c.op( n = "shared:lock" );
					if( not ws[j] )
						break;
					H l = ws[j]->lock( );
					bool alive = mw[j] >= 0 and owners( mw[j] ) > 0;
					VF_EQ( c, "lock succeeds iff an owner is alive", static_cast<bool>( l ), alive );
					if( alive ) {
						hs[i] = std::move( l );
						m[i] = mw[j];
					}
					break;
				}
				case 9:
					c.op( n = "shared:weak copy/move/reset" );
					switch( r.below( 3 ) ) {
					case 0:
						if( ws[j] ) {
							if( ws[i] ) *ws[i] = *ws[j]; else ws[i] = ws[j];
							mw[i] = mw[j];
						}
						break;
					case 1:
						if( ws[j] and i != j ) {
							ws[i] = std::move( ws[j] );
							mw[i] = mw[j];
							ws[j].reset( );
							mw[j] = -1;
						}
						break;
					default:
						ws[i].reset( );
						mw[i] = -1;
					}
					break;
				default:
					c.op( n = "shared:call" );
					if( m[i] >= 0 )
						check_call( c, "shared_function", [&]( auto &&...a ) { return call( hs[i], std::forward<decltype( a )>( a )... ); }, m[i] );
				}
				size_t distinct = 0;
				for( size_t q = 0; q < N; ++q ) {
					VF_EQ( c, "operator bool", static_cast<bool>( hs[q] ), m[q] >= 0 );
					if( m[q] >= 10 and std::find( m.begin( ), m.begin( ) + static_cast<long>( q ), m[q] ) == m.begin( ) + static_cast<long>( q ) )
						++distinct;
				}
				VF_EQ( c, "live targets are exactly those with an owner", led.l.live.size( ), distinct );
				if( not led.ok( c, n ) )
					return;
			}
			// destroy in random order, weak handles may outlive the owners
			std::vector<size_t> ord{ 0, 1, 2, 3, 4 };
			r.shuffle( ord );
			for( auto q : ord ) {
				if( r.coin( ) )
					ws[q].reset( );
				hs[q] = H{ };
			}
			VF_EQ( c, "no target outlives the last owner", led.l.live.size( ), size_t{ 0 } );
			for( auto &w : ws )
				if( w )
					VF_EQ( c, "lock after the last owner", static_cast<bool>( w->lock( ) ), false );
		}
		led.check_empty( c, "shared_function" );
	}
} // namespace

VF_FAMILY( shared_function, 5000, 150000 ) {
	c.nontrivial( c.idx );
	switch( c.idx % 5 ) {
	case 0:
		return shared_history<Sig>( c, "plain", []( auto &h, auto &&...a ) { return h( std::forward<decltype( a )>( a )... ); } );
	case 1:
		return shared_history<long( Arg, int &, Arg const &, U ) const>( c, "const", []( auto &h, auto &&...a ) { return std::as_const( h )( std::forward<decltype( a )>( a )... ); } );
	case 2:
		return shared_history<long( Arg, int &, Arg const &, U ) &>( c, "lref", []( auto &h, auto &&...a ) { return h( std::forward<decltype( a )>( a )... ); } );
	case 3:
		return shared_history<long( Arg, int &, Arg const &, U ) const &>( c, "const lref", []( auto &h, auto &&...a ) { return std::as_const( h )( std::forward<decltype( a )>( a )... ); } );
	default:
		return shared_history<long( Arg, int &, Arg const &, U ) &&>( c, "rref", []( auto &h, auto &&...a ) { return std::move( h )( std::forward<decltype( a )>( a )... ); } );
	}
}

// every qualified signature: calls, copies, weak handles and lifetimes
namespace {
	template<typename S, typename As>
	void shared_signature( vf::Case &c, As as ) {
		vf::LedgerScope led;
		int const x = static_cast<int>( c.rng.below( 1000 ) );
		int const k = static_cast<int>( c.rng.below( 1000 ) );
		{
			using H = daw::shared_function<S>;
			vf::Tracked t( x );
			auto fn = [t]( int q ) noexcept { return t.get( ) + q; };
			std::optional<H> a( std::in_place, std::move( fn ) );
			VF_EQ( c, "signature: call", as( *a )( k ), x + k );
			auto w = a->get_weak( );
			H b = *a;
			auto w2 = b.get_weak( );
			a.reset( );
			VF_EQ( c, "signature: call of the copy", as( b )( k ), x + k );
			{
				H l = w.lock( );
				VF_REQ( c, "signature: lock", static_cast<bool>( l ), true );
				VF_EQ( c, "signature: call of the locked", as( l )( k + 1 ), x + k + 1 );
				b = H{ };
				VF_REQ( c, "signature: lock while one owner is left", static_cast<bool>( w2.lock( ) ), true );
			}
			VF_TRUE( c, "signature: lock after the last owner", not w.lock( ) and not w2.lock( ) );
			VF_EQ( c, "signature: weak handle of an empty function", static_cast<bool>( b.get_weak( ).lock( ) ), false );
		}
		led.check_empty( c, "shared_function signature" );
	}
} // namespace
VF_FAMILY( shared_signatures, 1200, 12000 ) {
	c.nontrivial( c.idx );
	c.op( "shared_function signatures" );
	auto id = []( auto &h ) -> auto & { return h; };
	auto cid = []( auto const &h ) -> auto const & { return h; };
	auto mv = []( auto &h ) -> auto && { return std::move( h ); };
	auto cmv = []( auto const &h ) -> auto const && { return std::move( h ); };
	switch( c.idx % 12 ) {
	case 0: return shared_signature<int( int )>( c, id );
	case 1: return shared_signature<int( int ) const>( c, cid );
	case 2: return shared_signature<int( int ) &>( c, id );
	case 3: return shared_signature<int( int ) const &>( c, cid );
	case 4: return shared_signature<int( int ) &&>( c, mv );
	case 5: return shared_signature<int( int ) const &&>( c, cmv );
	case 6: return shared_signature<int( int ) noexcept>( c, id );
	case 7: return shared_signature<int( int ) const noexcept>( c, cid );
	case 8: return shared_signature<int( int ) & noexcept>( c, id );
	case 9: return shared_signature<int( int ) const & noexcept>( c, cid );
	case 10: return shared_signature<int( int ) && noexcept>( c, mv );
	default: return shared_signature<int( int ) const && noexcept>( c, cmv );
	}
}

VF_FAMILY( function_table, 3000, 60000 ) {
	auto &r = c.rng;
	vf::LedgerScope led;
	c.ctx( "function_table" );
	c.nontrivial( c.idx );
	{
		// same type: array table
		using P = Sig *;
		std::array<P, 2> ps{ &free_fn, &free_fn2 };
		std::array<int, 4> m{ };
		auto pick = [&]( int &id ) {
			size_t w = r.below( 2 );
			id = w ? 9 : 8;
			return ps[w];
		};
		auto p0 = pick( m[0] ), p1 = pick( m[1] ), p2 = pick( m[2] ), p3 = pick( m[3] );
		auto t = daw::make_function_table<long>( p0, p1, p2, p3 );
		VF_EQ( c, "size", t.size( ), size_t{ 4 } );
		for( size_t k = 0; k < 8; ++k ) {
			size_t i = r.below( 4 );
			if( r.chance( 1, 3 ) ) {
				c.op( "table:set (array)" );
				t.set( i, pick( m[i] ) );
			}
			c.op( "table:call (array)" );
			check_call( c, "array table", [&]( auto &&...a ) { return t( i, std::forward<decltype( a )>( a )... ); }, m[i] );
		}
		// different types: tuple table
		Target<vf::Tracked, 2> a0( 30 ), a1( 31 );
		Target<vf::Tracked, 9> b0( 32 );
		auto noarg = [] { return 77L; };
		auto onearg = []( int x ) { return 1000L + x; };
		auto t2 = daw::make_function_table<long>( a0, noarg, b0, &free_fn, onearg, a1 );
		std::array<int, 6> m2{ 30, -1, 32, 8, -1, 31 };
		VF_EQ( c, "tuple size", t2.size( ), size_t{ 6 } );
		for( size_t k = 0; k < 10; ++k ) {
			size_t i = r.below( 6 );
			if( m2[i] < 0 ) {
				if( i == 1 ) {
					VF_EQ( c, "no argument entry", t2( 1 ), 77L );
					VF_EQ( c, "allow_empty call()", t2.template call<true>( 1, 5 ), 77L );
					VF_EQ( c, "allow_empty operator()", t2.template operator( )<true>( 1, 5 ), 77L );
				} else {
					VF_EQ( c, "one argument entry", t2( 4, 5 ), 1005L );
					VF_EQ( c, "allow_empty prefers the argument", t2.template operator( )<true>( 4, 5 ), 1005L );
				}
			} else {
				c.op( "table:call (tuple)" );
				check_call( c, "tuple table", [&]( auto &&...a ) { return t2( i, std::forward<decltype( a )>( a )... ); }, m2[i] );
			}
			if( r.chance( 1, 3 ) ) {
				c.op( "table:set (tuple)" );
				int id = 40 + static_cast<int>( r.below( 20 ) );
				switch( r.below( 4 ) ) {
				case 0: t2.set( 0, Target<vf::Tracked, 2>( id ) ); m2[0] = id; break;
				case 1: t2.set( 2, Target<vf::Tracked, 9>( id ) ); m2[2] = id; break;
				case 2: t2.set( 3, &free_fn2 ); m2[3] = 9; break;
				default: t2.set( 5, Target<vf::Tracked, 2>( id ) ); m2[5] = id; break;
				}
			}
			if( not led.ok( c, "function_table" ) )
				return;
		}
		auto cp = t2;
		for( size_t i : { 0, 2, 3, 5 } )
			check_call( c, "copied table", [&]( auto &&...a ) { return cp( i, std::forward<decltype( a )>( a )... ); }, m2[i] );
	}
	led.check_empty( c, "function_table" );
}

VF_MAIN( )
