// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <daw/daw_scope_guard.h>
#include <daw/daw_unique_resource.h>
#include <daw/daw_countable_resource.h>
#include "vf.h"
#include "vf_types.h"
#include <list>
#include <map>
#include <set>
#include <memory>

static std::vector<int> *g_log = nullptr;

// ---------------------------------------------------------------- histories
// the action owns memory and cannot be assigned, like a lambda
struct Act {
	int id;
	bool thr;
	std::unique_ptr<int> owned;
	Act( int i, bool t ) : id( i ), thr( t ), owned( new int( i ) ) {}
	Act( Act &&o ) noexcept = default;
	Act &operator=( Act && ) = delete;
	void operator( )( ) const {
		g_log->push_back( owned ? *owned : -id );
		if( thr )
			throw vf::injected{ };
	}
};
struct ActCopy {
	int id;
	bool thr;
	std::vector<int> owned;
	ActCopy( int i, bool t ) : id( i ), thr( t ), owned( 3, i ) {}
	ActCopy( ActCopy const & ) = default;
	ActCopy &operator=( ActCopy const & ) = delete;
	int operator( )( ) {
		g_log->push_back( owned.size( ) == 3 ? owned[1] : -id );
		if( thr )
			throw vf::injected{ };
		return 5;
	}
};

template<typename A>
static void guard_history( vf::Case &c ) {
	using G = daw::ScopeGuard<A>;
	std::vector<int> log, want;
	g_log = &log;
	constexpr int N = 4;
	std::unique_ptr<G> slot[N];
	int pending[N] = { 0, 0, 0, 0 }; // id or 0
	int next = 1;
	int moves = 0;
	auto arm = [&]( int i, bool thr ) {
		int id = next++;
		if constexpr( std::is_same_v<A, ActCopy> ) {
			if( c.rng.coin( ) ) {
				ActCopy a( id, thr );
				slot[i] = std::make_unique<G>( a );
			} else
				slot[i] = std::unique_ptr<G>( new G( daw::on_scope_exit( ActCopy( id, thr ) ) ) );
		} else
			slot[i] = std::unique_ptr<G>( new G( daw::on_scope_exit( Act( id, thr ) ) ) );
		pending[i] = id;
	};
	int steps = 4 + (int)c.rng.below( 20 );
	for( int s = 0; s < steps; ++s ) {
		int i = (int)c.rng.below( N );
		switch( c.rng.below( 7 ) ) {
		case 0:
		case 1:
			if( not slot[i] ) {
				c.op( "create" );
				arm( i, false );
			}
			break;
		case 2:
			if( slot[i] ) {
				c.op( "destroy" );
				slot[i].reset( );
				if( pending[i] )
					want.push_back( pending[i] );
				pending[i] = 0;
			}
			break;
		case 3:
			if( slot[i] ) {
				if( c.rng.coin( ) ) {
					c.op( "cancel" );
					slot[i]->cancel( );
				} else {
					c.op( "dismiss" );
					slot[i]->dismiss( );
				}
				pending[i] = 0;
			}
			break;
		case 4:
			if( slot[i] and pending[i] ) {
				c.op( "run_now" );
				slot[i]->run_now( );
				want.push_back( pending[i] );
				pending[i] = 0;
			}
			break;
		case 5: {
			int j = (int)c.rng.below( N );
			if( slot[i] and not slot[j] ) {
				c.op( "move construct" );
				slot[j] = std::make_unique<G>( std::move( *slot[i] ) );
				pending[j] = pending[i];
				pending[i] = 0;
				++moves;
			}
			break;
		}
		case 6: // a throwing action given to run_now runs once, and not again later
			if( not slot[i] ) {
				c.op( "run_now throws" );
				arm( i, true );
				bool threw = false;
				try {
					slot[i]->run_now( );
				} catch( vf::injected const & ) { threw = true; }
				VF_TRUE( c, "run_now lets the exception out", threw );
				want.push_back( pending[i] );
				pending[i] = 0;
			}
			break;
		}
		VF_EQ( c, "actions run so far", log, want );
	}
	for( int i = 0; i < N; ++i ) {
		slot[i].reset( );
		if( pending[i] )
			want.push_back( pending[i] );
	}
	VF_EQ( c, "actions run", log, want );
	c.count( "guards", next - 1 );
	c.count( "guard_moves", moves );
	c.nontrivial( vf::mix( (unsigned)want.size( ), (unsigned)steps ) );
}
VF_FAMILY( guard_move_only, 3000, 100000 ) {
	guard_history<Act>( c );
}
VF_FAMILY( guard_copyable, 3000, 100000 ) {
	guard_history<ActCopy>( c );
}

// move assignment: whatever happens to the replaced action, the moved one runs
// exactly once and the source never runs it
VF_FAMILY( guard_move_assign, 1000, 20000 ) {
	using F = std::shared_ptr<int>;
	struct Fn {
		F f;
		void operator( )( ) const {
			++*f;
		}
	};
	auto na = std::make_shared<int>( 0 ), nb = std::make_shared<int>( 0 );
	bool a_armed = c.rng.coin( ), b_armed = c.rng.coin( ), self = c.rng.chance( 1, 4 );
	{
		daw::ScopeGuard<Fn> a( Fn{ na } );
		{
			daw::ScopeGuard<Fn> b( Fn{ nb } );
			if( not a_armed )
				a.cancel( );
			if( not b_armed )
				b.dismiss( );
			c.op( "move assign" );
			if( self ) {
				auto &r = a;
				a = std::move( r );
				VF_EQ( c, "self move assign runs nothing", *na, 0 );
			} else
				a = std::move( b );
			VF_EQ( c, "source action not run by the move", *nb, 0 );
		}
		VF_EQ( c, "moved-from guard", *nb, self and b_armed ? 1 : 0 );
	}
	VF_EQ( c, "moved action runs once", *nb, b_armed ? 1 : 0 );
	if( self or not a_armed ) {
		VF_EQ( c, "untouched/cancelled target", *na, a_armed ? 1 : 0 );
	} else
		VF_TRUE( c, "replaced action at most once", *na <= 1 );
	VF_EQ( c, "actions destroyed", na.use_count( ) + nb.use_count( ), 2L );
	c.nontrivial( (unsigned)a_armed * 4 + b_armed * 2 + self );
}

// --------------------------------------------------------------- exit paths
// a random program of nested scopes holding guards of both kinds, calls that
// may throw, catches, and destructors that run a sub-program (so that guards
// live and die while another exception is in flight); a separate interpreter
// predicts the log
enum Kind { K_exit, K_success, K_call, K_try, K_dtor, K_mark, K_throw, K_cancel, K_moved };
struct Prog;
struct Stmt {
	Kind k;
	int id;
	Prog *p;
};
struct Prog {
	std::vector<Stmt> st;
};
struct Arena {
	std::list<Prog> progs;
	int next = 1;
	bool nested_dtor = false;
};
static Prog *gen( vf::Rng &r, Arena &a, int depth ) {
	a.progs.emplace_back( );
	Prog *p = &a.progs.back( );
	int n = 1 + (int)r.below( 5 );
	for( int i = 0; i < n; ++i ) {
		Kind k = (Kind)r.below( 9 );
		if( k == K_throw and r.coin( ) )
			k = K_mark;
		if( depth == 0 and ( k == K_call or k == K_try or k == K_dtor ) )
			k = r.coin( ) ? K_exit : K_success;
		Prog *sub = nullptr;
		int id = a.next++;
		if( k == K_call or k == K_try or k == K_dtor )
			sub = gen( r, a, depth - 1 );
		p->st.push_back( { k, id, sub } );
	}
	return p;
}
static int g_inflight_max = 0;
static void exec( Prog const &p, std::size_t i ) {
	if( i == p.st.size( ) )
		return;
	Stmt const &s = p.st[i];
	int const id = s.id;
	auto log = [id] { g_log->push_back( id ); };
	switch( s.k ) {
	case K_exit: {
		auto g = daw::on_scope_exit( log );
		exec( p, i + 1 );
		break;
	}
	case K_success: {
		if( id % 2 ) {
			daw::on_exit_success g( log );
			exec( p, i + 1 );
		} else {
			daw::on_exit_success g( [id] { g_log->push_back( id ); } );
			exec( p, i + 1 );
		}
		break;
	}
	case K_cancel: {
		auto g = daw::on_scope_exit( log );
		exec( p, i + 1 );
		g.cancel( ); // only cancelled when the rest returned
		break;
	}
	case K_moved: {
		auto g = daw::on_scope_exit( log );
		auto h = std::move( g );
		exec( p, i + 1 );
		break;
	}
	case K_call:
		exec( *s.p, 0 );
		exec( p, i + 1 );
		break;
	case K_try:
		try {
			exec( *s.p, 0 );
		} catch( vf::injected const & ) { g_log->push_back( 1000000 + id ); }
		exec( p, i + 1 );
		break;
	case K_dtor: {
		struct D {
			Prog const &q;
			int id;
			~D( ) {
				if( std::uncaught_exceptions( ) > g_inflight_max )
					g_inflight_max = std::uncaught_exceptions( );
				try {
					exec( q, 0 );
				} catch( vf::injected const & ) { g_log->push_back( 2000000 + id ); }
			}
		} d{ *s.p, id };
		exec( p, i + 1 );
		break;
	}
	case K_mark:
		g_log->push_back( id );
		exec( p, i + 1 );
		break;
	case K_throw:
		throw vf::injected{ };
	}
}
// returns true when the program leaves by exception
static bool model( Prog const &p, std::size_t i, std::vector<int> &out ) {
	if( i == p.st.size( ) )
		return false;
	Stmt const &s = p.st[i];
	switch( s.k ) {
	case K_exit:
	case K_moved: {
		bool t = model( p, i + 1, out );
		out.push_back( s.id );
		return t;
	}
	case K_success: {
		bool t = model( p, i + 1, out );
		if( not t )
			out.push_back( s.id );
		return t;
	}
	case K_cancel: {
		bool t = model( p, i + 1, out );
		if( t )
			out.push_back( s.id );
		return t;
	}
	case K_call:
		if( model( *s.p, 0, out ) )
			return true;
		return model( p, i + 1, out );
	case K_try:
		if( model( *s.p, 0, out ) )
			out.push_back( 1000000 + s.id );
		return model( p, i + 1, out );
	case K_dtor: {
		bool t = model( p, i + 1, out );
		if( model( *s.p, 0, out ) )
			out.push_back( 2000000 + s.id );
		return t;
	}
	case K_mark:
		out.push_back( s.id );
		return model( p, i + 1, out );
	case K_throw:
		return true;
	}
	return false;
}
VF_FAMILY( exit_paths, 8000, 300000 ) {
	Arena a;
	Prog *p = gen( c.rng, a, 1 + (int)c.rng.below( 4 ) );
	std::vector<int> log, want;
	bool want_throw = model( *p, 0, want );
	g_log = &log;
	g_inflight_max = 0;
	bool threw = false;
	c.op( "run program" );
	try {
		exec( *p, 0 );
	} catch( vf::injected const & ) { threw = true; }
	VF_EQ( c, "leaves by exception", threw, want_throw );
	VF_EQ( c, "guard log", log, want );
	c.count( "guard_actions", (long)want.size( ) );
	if( want_throw )
		c.count( "exits_by_exception", 1 );
	if( g_inflight_max )
		c.count( "programs_run_while_unwinding", 1 );
	std::uint64_t h = 0;
	for( int x : want )
		h = vf::mix( h, (unsigned)x );
	c.nontrivial( h );
}
// other ways out of a scope
VF_FAMILY( jumps, 500, 5000 ) {
	std::vector<int> log, want;
	g_log = &log;
	int n = 1 + (int)c.rng.below( 6 ), stop = (int)c.rng.below( 8 ), how = (int)c.rng.below( 4 );
	auto f = [&]( ) -> int {
		for( int i = 0; i < n; ++i ) {
			auto g = daw::on_scope_exit( [i] { g_log->push_back( i ); } );
			daw::on_exit_success h( [i] { g_log->push_back( 100 + i ); } );
			if( i == stop ) {
				if( how == 0 )
					break;
				if( how == 1 )
					continue;
				if( how == 2 )
					return (int)g_log->size( );
				if( how == 3 )
					goto out;
			}
			g_log->push_back( 200 + i );
		}
		return -1;
	out:
		return -2;
	};
	c.op( "loop" );
	int r = f( ), wr = -1;
	for( int i = 0; i < n; ++i ) {
		if( i == stop ) {
			if( how == 2 )
				wr = (int)want.size( );
			if( how == 3 )
				wr = -2;
		} else
			want.push_back( 200 + i );
		want.push_back( 100 + i );
		want.push_back( i );
		if( i == stop and how != 1 )
			break;
	}
	VF_EQ( c, "result", r, wr );
	VF_EQ( c, "log", log, want );
	c.nontrivial( (unsigned)( n * 100 + stop * 4 + how ) );
}
constexpr int cx_guards( ) {
	int n = 0;
	{
		auto g = daw::on_scope_exit( [&] { n = n * 10 + 1; } );
		auto h = std::move( g );
		daw::on_exit_success k( [&] { n = n * 10 + 2; } );
		auto x = daw::on_scope_exit( [&] { n = n * 10 + 3; } );
		x.cancel( );
		n = 5;
	}
	return n;
}
#if defined( DAW_HAS_CONSTEXPR_SCOPE_GUARD )
static_assert( cx_guards( ) == 521 );
#endif

// ---------------------------------------------------------- unique_resource
struct Ledger {
	std::map<int, int> deleted; // id -> times
	std::vector<int> order;
};
static Ledger *g_led = nullptr;
struct Handle {
	int id = 0;
	std::unique_ptr<int> own;
	Handle( int i, bool thr = false ) : id( i ), own( new int( i ) ) {
		if( thr )
			throw vf::injected{ };
	}
	Handle( Handle && ) noexcept = default;
	Handle &operator=( Handle && ) noexcept = default;
};
struct DelHandle {
	void operator( )( Handle &h ) const {
		++g_led->deleted[h.own ? h.id : -1];
		g_led->order.push_back( h.id );
	}
};
struct DelInt {
	void operator( )( int &i ) const {
		++g_led->deleted[i];
		g_led->order.push_back( i );
		i = -7;
	}
};
static int hid( int const &i ) {
	return i;
}
static int hid( Handle const &h ) {
	return h.own ? *h.own : -1;
}
template<typename T, typename D>
static void resource_history( vf::Case &c ) {
	using U = daw::unique_resource<T, D>;
	Ledger led;
	g_led = &led;
	std::vector<int> want;
	constexpr int N = 3;
	std::unique_ptr<U> s[N];
	int held[N] = { 0, 0, 0 };
	int next = 1;
	auto drop = [&]( int i ) {
		if( held[i] )
			want.push_back( held[i] );
		held[i] = 0;
	};
	for( auto &p : s )
		p = std::make_unique<U>( );
	int steps = 5 + (int)c.rng.below( 25 );
	for( int k = 0; k < steps; ++k ) {
		int i = (int)c.rng.below( N ), j = (int)c.rng.below( N );
		switch( c.rng.below( 8 ) ) {
		case 0: {
			c.op( "reset(value)" );
			int id = next++;
			s[i]->reset( T( id ) );
			drop( i );
			held[i] = id;
			break;
		}
		case 1: {
			c.op( "emplace" );
			int id = next++;
			T &r = s[i]->emplace( id );
			VF_EQ( c, "emplace result", hid( r ), id );
			drop( i );
			held[i] = id;
			break;
		}
		case 2:
			c.op( "reset" );
			s[i]->reset( );
			drop( i );
			break;
		case 3:
			if( held[i] ) {
				c.op( "release" );
				T v = s[i]->release( );
				VF_EQ( c, "released value", hid( v ), held[i] );
				held[i] = 0;
			}
			break;
		case 4:
			c.op( "move assign" );
			{
				auto &src = *s[j];
				*s[i] = std::move( src );
			}
			if( i != j ) {
				drop( i );
				held[i] = held[j];
				held[j] = 0;
			}
			break;
		case 5:
			if( i != j ) {
				c.op( "move construct" );
				auto n = std::make_unique<U>( std::move( *s[j] ) );
				s[i] = std::move( n ); // destroys what was there
				drop( i );
				held[i] = held[j];
				held[j] = 0;
			}
			break;
		case 6: {
			c.op( "construct" );
			int id = next++;
			s[i] = std::make_unique<U>( T( id ) );
			drop( i );
			held[i] = id;
			break;
		}
		case 7:
			if constexpr( std::is_same_v<T, Handle> ) {
				c.op( "emplace throws" );
				bool threw = false;
				try {
					s[i]->emplace( next++, true );
				} catch( vf::injected const & ) { threw = true; }
				VF_TRUE( c, "exception passes", threw );
			}
			break;
		}
		VF_EQ( c, "deleter calls", led.order, want );
		for( int q = 0; q < N; ++q )
			if( held[q] ) {
				U const &cu = *s[q];
				VF_EQ( c, "get", hid( s[q]->get( ) ), held[q] );
				VF_EQ( c, "deref", hid( **s[q] ), held[q] );
				VF_EQ( c, "const deref", hid( *cu ), held[q] );
				VF_TRUE( c, "arrow", cu.operator->( ) == &cu.get( ) and s[q]->operator->( ) == &cu.get( ) );
			}
	}
	for( int i = 0; i < N; ++i ) {
		s[i].reset( );
		drop( i );
	}
	VF_EQ( c, "deleter calls at the end", led.order, want );
	for( auto &[id, n] : led.deleted )
		VF_EQ( c, "deleted once", n, 1 );
	c.count( "resources", next - 1 );
	c.nontrivial( vf::mix( (unsigned)want.size( ), (unsigned)next ) );
}
VF_FAMILY( unique_resource_int, 3000, 60000 ) {
	resource_history<int, DelInt>( c );
}
VF_FAMILY( unique_resource_move_only, 3000, 60000 ) {
	resource_history<Handle, DelHandle>( c );
}

// ------------------------------------------------------- countable_resource
template<typename Int>
struct Counted {
	daw::countable_resource_t<Int> r;
	int v = 0;
};
template<typename Int>
static void countable( vf::Case &c ) {
	using C = Counted<Int>;
	auto val = [] { return (long)daw::countable_resource_t<Int>::value( ); };
	VF_EQ( c, "starts at zero", val( ), 0L );
	{
		std::vector<C> v;
		std::list<C> l;
		int steps = 3 + (int)c.rng.below( 20 );
		for( int k = 0; k < steps; ++k ) {
			switch( c.rng.below( 7 ) ) {
			case 0: c.op( "push" ); v.push_back( C{ } ); break;
			case 1: c.op( "push list" ); l.emplace_back( ); break;
			case 2:
				if( not v.empty( ) ) {
					c.op( "assign" );
					C x;
					x = v.back( );
					v.front( ) = x;
					v.back( ) = std::move( x );
				}
				break;
			case 3:
				if( not v.empty( ) ) {
					c.op( "erase" );
					v.erase( v.begin( ) + (long)c.rng.below( v.size( ) ) );
				}
				break;
			case 4: c.op( "copy" ); l.assign( v.begin( ), v.end( ) ); break;
			case 5:
				if( not v.empty( ) and not l.empty( ) ) {
					c.op( "swap" );
					std::swap( v.back( ), l.front( ) );
				}
				break;
			case 6: c.op( "resize" ); v.resize( c.rng.below( 6 ) ); break;
			}
			VF_EQ( c, "live objects", val( ), (long)( v.size( ) + l.size( ) ) );
		}
		c.nontrivial( (unsigned)( v.size( ) * 64 + l.size( ) ) );
	}
	VF_EQ( c, "back to zero", val( ), 0L );
}
VF_FAMILY( countable_int, 2000, 20000 ) {
	countable<int>( c );
}
VF_FAMILY( countable_size, 500, 5000 ) {
	countable<std::size_t>( c );
}
VF_MAIN( )
