// C12: daw::atomic, the atomic_wait functions and shared_function handles under
// concurrent use.  ThreadSanitizer watches the plain data they are supposed to
// order; logs of what each thread did are checked afterwards for conservation
// (every update exactly once) and for lifetimes.
// VF-QUICK: tsan
// VF-THOROUGH: tsan tsan-O2
// VF-FLAGS: -gline-tables-only
#include <limits>
#include <memory>

#include <daw/daw_atomic_wait.h>
#include <daw/daw_cx_atomic.h>
#include <daw/daw_shared_function.h>

#include "vf.h"

#include <algorithm>
#include <atomic>
#include <barrier>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>

namespace {
	using namespace std::chrono_literals;

	void spin( unsigned n ) {
		for( volatile unsigned d = n; d > 0; d = d - 1 ) {}
	}
	/// A short delay of a random length, now and then long enough to lose the core
	void jitter( vf::Rng &r ) {
		switch( r.below( 8 ) ) {
		case 0:
			std::this_thread::yield( );
			break;
		case 1:
			spin( static_cast<unsigned>( r.below( 400 ) ) );
			break;
		case 2:
			spin( static_cast<unsigned>( r.below( 30 ) ) );
			break;
		default:
			break;
		}
	}

	/// Runs f(thread number, generator) on n threads that start together
	template<typename F>
	void race( vf::Case &c, unsigned n, F f ) {
		std::barrier start( static_cast<std::ptrdiff_t>( n ) );
		std::vector<std::thread> ts;
		for( unsigned t = 0; t < n; ++t ) {
			ts.emplace_back( [&, t, seed = c.rng.next( )] {
				vf::Rng r( seed );
				start.arrive_and_wait( );
				f( t, r );
			} );
		}
		for( auto &t : ts ) {
			t.join( );
		}
	}

	// ---- daw::atomic ----
	enum class Op { fetch_add, fetch_sub, add, sub, pre_inc, post_inc, pre_dec, post_dec, weak1, weak2, strong1, strong2, count };

	/// Adds or subtracts with every operation that does so.  Every reply of an
	/// operation is consistent with its own effect, so that the multiset of values
	/// replaced plus the final value equals the multiset of values written plus the
	/// initial value: no update is lost or applied twice.
	template<typename T>
	void conservation( vf::Case &c ) {
		unsigned const nt = 2 + static_cast<unsigned>( c.rng.below( 5 ) );
		unsigned const rounds = 60 + static_cast<unsigned>( c.rng.below( 200 ) );
		T const init = static_cast<T>( c.rng.below( 50 ) );
		daw::atomic<T> a( init );
		std::vector<std::vector<T>> before( nt ), after( nt );
		std::vector<std::uint64_t> switches( nt );
		std::atomic<unsigned> last{ 0 };
		race( c, nt, [&]( unsigned t, vf::Rng &r ) {
			for( unsigned i = 0; i < rounds; ++i ) {
				auto const by = static_cast<T>( r.below( 7 ) );
				auto const up = [&]( T v ) {
					return static_cast<T>( v + by );
				};
				T old{ };
				T now{ };
				auto kind = static_cast<Op>( r.below( static_cast<unsigned>( Op::count ) ) );
				if constexpr( not std::is_integral_v<T> ) {
					if( kind >= Op::pre_inc and kind <= Op::post_dec ) {
						kind = Op::fetch_add;
					}
				}
				switch( kind ) {
				case Op::fetch_add:
					old = r.coin( ) ? a.fetch_add( by ) : a.fetch_add( by, std::memory_order_relaxed );
					now = up( old );
					break;
				case Op::fetch_sub:
					old = r.coin( ) ? a.fetch_sub( by ) : a.fetch_sub( by, std::memory_order_acq_rel );
					now = static_cast<T>( old - by );
					break;
				case Op::add:
					now = a += by;
					old = static_cast<T>( now - by );
					break;
				case Op::sub:
					now = a -= by;
					old = up( now );
					break;
				case Op::weak1:
				case Op::weak2:
				case Op::strong1:
				case Op::strong2:
					old = r.coin( ) ? a.load( ) : static_cast<T>( a );
					for( ;; ) {
						now = static_cast<T>( old + by + 1 );
						T seen = old;
						bool done = false;
						if( kind == Op::weak1 ) {
							done = a.compare_exchange_weak( seen, now );
						} else if( kind == Op::weak2 ) {
							done = a.compare_exchange_weak( seen, now, std::memory_order_acq_rel, std::memory_order_relaxed );
						} else if( kind == Op::strong1 ) {
							done = a.compare_exchange_strong( seen, now );
						} else {
							done = a.compare_exchange_strong( seen, now, std::memory_order_release, std::memory_order_acquire );
						}
						if( done ) {
							break;
						}
						old = seen;
						jitter( r );
					}
					break;
				default:
					if constexpr( std::is_integral_v<T> ) {
						if( kind == Op::pre_inc ) {
							now = ++a;
							old = static_cast<T>( now - 1 );
						} else if( kind == Op::post_inc ) {
							old = a++;
							now = static_cast<T>( old + 1 );
						} else if( kind == Op::pre_dec ) {
							now = --a;
							old = static_cast<T>( now + 1 );
						} else {
							old = a--;
							now = static_cast<T>( old - 1 );
						}
					}
				}
				before[t].push_back( old );
				after[t].push_back( now );
				switches[t] += last.exchange( t, std::memory_order_relaxed ) != t;
				jitter( r );
			}
		} );
		std::vector<T> took, left;
		std::uint64_t inter = 0;
		for( unsigned t = 0; t < nt; ++t ) {
			took.insert( took.end( ), before[t].begin( ), before[t].end( ) );
			left.insert( left.end( ), after[t].begin( ), after[t].end( ) );
			inter += switches[t];
		}
		took.push_back( a.load( ) );
		left.push_back( init );
		std::sort( took.begin( ), took.end( ) );
		std::sort( left.begin( ), left.end( ) );
		VF_TRUE( c, "every update exactly once", took == left );
		c.count( "atomic_updates", static_cast<std::uint64_t>( nt ) * rounds );
		c.count( "thread_switches", inter );
		if( inter > nt ) {
			c.nontrivial( vf::mix( inter, static_cast<std::uint64_t>( a.load( ) ) ) );
		}
	}

	VF_FAMILY( atomic_conservation, 2500, 30000 ) {
		c.op( "updates" );
		switch( c.rng.below( 6 ) ) {
		case 0:
			conservation<int>( c );
			break;
		case 1:
			conservation<unsigned char>( c );
			break;
		case 2:
			conservation<short>( c );
			break;
		case 3:
			conservation<std::uint64_t>( c );
			break;
		case 4:
			conservation<long>( c );
			break;
		default:
			conservation<double>( c );
			break;
		}
	}

	/// Each thread owns some bits, and no other operation touches them
	VF_FAMILY( atomic_bits, 1500, 20000 ) {
		using T = std::uint32_t;
		unsigned const nt = 2 + static_cast<unsigned>( c.rng.below( 6 ) );
		daw::atomic<T> a;
		VF_EQ( c, "initially zero", a.load( ), 0U );
		std::vector<std::string> bad( nt );
		std::vector<T> want( nt );
		c.op( "bits" );
		race( c, nt, [&]( unsigned t, vf::Rng &r ) {
			T const mask = T{ 0xFU } << ( t * 4U );
			T mine = 0;
			for( int i = 0; i < 150; ++i ) {
				T const bit = T{ 1 } << ( t * 4U + r.below( 4 ) );
				T next = mine;
				T old = mine;
				T now{ };
				bool has_old = true;
				auto const kind = r.below( 6 );
				switch( kind ) {
				case 0:
					old = a.fetch_or( bit );
					next |= bit;
					break;
				case 1:
					old = a.fetch_and( static_cast<T>( ~bit ) );
					next &= ~bit;
					break;
				case 2:
					old = a.fetch_xor( bit );
					next ^= bit;
					break;
				case 3:
					now = a |= bit;
					next |= bit;
					has_old = false;
					break;
				case 4:
					now = a &= static_cast<T>( ~bit );
					next &= ~bit;
					has_old = false;
					break;
				default:
					now = a ^= bit;
					next ^= bit;
					has_old = false;
					break;
				}
				if( has_old ? ( old & mask ) != mine : ( now & mask ) != next ) {
					bad[t] = vf::cat( "kind ", kind, " reply ", has_old ? old : now, " mine ", mine, " next ", next );
				}
				mine = next;
				jitter( r );
			}
			want[t] = mine;
		} );
		T all = 0;
		for( unsigned t = 0; t < nt; ++t ) {
			VF_EQ( c, "reply", bad[t], std::string{ } );
			all |= want[t];
		}
		VF_EQ( c, "final bits", a.load( ), all );
		c.count( "atomic_updates", nt * 150U );
		c.nontrivial( all );
	}

	/// Unique tokens are only ever swapped: none is lost and none is duplicated
	VF_FAMILY( atomic_exchange, 1500, 20000 ) {
		unsigned const nt = 2 + static_cast<unsigned>( c.rng.below( 6 ) );
		daw::atomic<int> slots[3] = { daw::atomic<int>( 1000000 ), daw::atomic<int>( 1000001 ), daw::atomic<int>( 1000002 ) };
		std::vector<int> hand( nt );
		c.op( "exchange" );
		race( c, nt, [&]( unsigned t, vf::Rng &r ) {
			int mine = static_cast<int>( t );
			for( int i = 0; i < 200; ++i ) {
				auto &s = slots[r.below( 3 )];
				mine = r.coin( ) ? s.exchange( mine ) : s.exchange( mine, std::memory_order_acq_rel );
				jitter( r );
			}
			hand[t] = mine;
		} );
		std::uint64_t moved = 0;
		for( unsigned t = 0; t < nt; ++t ) {
			moved += hand[t] != static_cast<int>( t );
		}
		for( auto &s : slots ) {
			hand.push_back( s.load( ) );
		}
		std::sort( hand.begin( ), hand.end( ) );
		std::vector<int> want;
		for( unsigned t = 0; t < nt; ++t ) {
			want.push_back( static_cast<int>( t ) );
		}
		want.insert( want.end( ), { 1000000, 1000001, 1000002 } );
		VF_TRUE( c, "tokens conserved", hand == want );
		c.count( "exchanges", nt * 200U );
		c.nontrivial( moved );
	}

	/// Locks built from the operations order plain data
	VF_FAMILY( atomic_ordering, 1500, 20000 ) {
		unsigned const nt = 2 + static_cast<unsigned>( c.rng.below( 4 ) );
		unsigned const kind = static_cast<unsigned>( c.rng.below( 6 ) );
		daw::atomic<int> lock( 0 );
		daw::atomic<bool> flag( false );
		daw::atomic<unsigned> ticket( 0 ), serving( 0 );
		long plain = 0;
		std::vector<int> trace;
		c.op( "lock" );
		c.ctx( "lock kind ", kind );
		race( c, nt, [&]( unsigned t, vf::Rng &r ) {
			for( int i = 0; i < 60; ++i ) {
				unsigned my = 0;
				for( ;; ) {
					int zero = 0;
					bool no = false;
					bool got = false;
					switch( kind ) {
					case 0:
						got = lock.compare_exchange_weak( zero, 1, std::memory_order_acquire, std::memory_order_relaxed );
						break;
					case 1:
						got = lock.compare_exchange_strong( zero, 1 );
						break;
					case 2:
						got = lock.exchange( 1, std::memory_order_acquire ) == 0;
						break;
					case 3:
						got = not flag.exchange( true );
						break;
					case 4:
						got = flag.compare_exchange_strong( no, true, std::memory_order_acq_rel );
						break;
					default:
						my = ticket.fetch_add( 1, std::memory_order_relaxed );
						while( serving.load( std::memory_order_acquire ) != my ) {
							std::this_thread::yield( );
						}
						got = true;
						break;
					}
					if( got ) {
						break;
					}
					std::this_thread::yield( );
				}
				++plain;
				trace.push_back( static_cast<int>( t ) );
				spin( static_cast<unsigned>( r.below( 20 ) ) );
				switch( kind ) {
				case 0:
					lock.store( 0, std::memory_order_release );
					break;
				case 1:
					lock = 0;
					break;
				case 2:
					lock.fetch_sub( 1, std::memory_order_release );
					break;
				case 3:
					flag.store( false );
					break;
				case 4:
					flag = daw::atomic<bool>( false );
					break;
				default:
					serving.store( my + 1, std::memory_order_release );
					break;
				}
				jitter( r );
			}
		} );
		VF_EQ( c, "increments under the lock", plain, static_cast<long>( nt ) * 60 );
		std::uint64_t h = 0;
		std::uint64_t sw = 0;
		for( std::size_t i = 0; i < trace.size( ); ++i ) {
			h = vf::mix( h, static_cast<std::uint64_t>( trace[i] ) );
			sw += i > 0 and trace[i] != trace[i - 1];
		}
		c.count( "lock_handovers", sw );
		if( sw > nt ) {
			c.nontrivial( h );
		}
	}

	VF_FAMILY( atomic_sequential, 400, 5000 ) {
		using T = int;
		daw::atomic<T> a( 5 );
		T m = 5;
		c.op( "sequential" );
		for( int i = 0, n = static_cast<int>( c.rng.range( 1, 30 ) ); i < n; ++i ) {
			auto const v = static_cast<T>( c.rng.range( -1000, 1000 ) );
			switch( c.rng.below( 8 ) ) {
			case 0:
				a.store( v );
				m = v;
				break;
			case 1:
				a = v;
				m = v;
				break;
			case 2: {
				auto const old = m;
				VF_EQ( c, "exchange", a.exchange( v ), old );
				m = v;
				break;
			}
			case 3: {
				T e = c.rng.coin( ) ? m : v;
				bool const same = e == m;
				bool const ok = c.rng.coin( ) ? a.compare_exchange_strong( e, v ) : a.compare_exchange_strong( e, v, std::memory_order_seq_cst, std::memory_order_relaxed );
				VF_EQ( c, "compare_exchange_strong", ok, same );
				VF_EQ( c, "expected afterwards", e, m );
				if( ok ) {
					m = v;
				}
				break;
			}
			case 4: {
				T e = v;
				if( v != m ) {
					VF_TRUE( c, "compare_exchange_weak of another value", not a.compare_exchange_weak( e, 0 ) and e == m );
				}
				break;
			}
			case 5: {
				daw::atomic<T> b( a );
				VF_EQ( c, "copy", b.load( ), m );
				b = v;
				VF_EQ( c, "the copy is separate", a.load( ), m );
				a = std::as_const( b );
				m = v;
				break;
			}
			case 6: {
				daw::atomic<T> b( std::move( a ) );
				VF_EQ( c, "move", b.load( ), m );
				a = std::move( b );
				auto &self = a;
				a = self;
				break;
			}
			default:
				VF_EQ( c, "fetch_xor", a.fetch_xor( v ), m );
				m ^= v;
				break;
			}
			VF_EQ( c, "load", a.load( ), m );
			VF_EQ( c, "conversion", static_cast<T>( std::as_const( a ) ), m );
		}
		static_assert( daw::atomic<T>::is_always_lock_free );
		c.nontrivial( static_cast<std::uint64_t>( m + 5000 ) );
	}

	// ---- waiting ----

	/// Fails the case, and releases the waiters, when they do not finish in time
	struct Watch {
		std::mutex mx;
		std::condition_variable cv;
		unsigned left;
		bool late = false;

		explicit Watch( unsigned n )
		  : left( n ) {}
		void done( ) {
			std::lock_guard lk( mx );
			--left;
			cv.notify_all( );
		}
		template<typename F>
		void wait( F release ) {
			std::unique_lock lk( mx );
			for( int i = 0; i < 400 and left > 0; ++i ) {
				cv.wait_for( lk, 100ms );
			}
			if( left > 0 ) {
				late = true;
				lk.unlock( );
				release( );
			}
		}
	};

	enum class Wait { if_, equal, for_, until, if_for, if_until, equal_for, equal_until, count };

	/// Publishers move the value through 1, 2, ... last, each step published by a
	/// different thread with plain data, and the waiters wait for a step: when a
	/// waiter returns, the data of the step it waited for is visible
	VF_FAMILY( wait_publish, 1500, 20000 ) {
		unsigned const waiters = 1 + static_cast<unsigned>( c.rng.below( 4 ) );
		unsigned const steps = 1 + static_cast<unsigned>( c.rng.below( 4 ) );
		std::atomic<int> value{ 0 };
		std::vector<long> data( steps + 1, 0 );
		Watch watch( waiters );
		std::vector<long> got( waiters, -1 );
		std::vector<int> target( waiters ), status( waiters, -1 );
		std::vector<Wait> kinds( waiters );
		std::vector<std::thread> ts;
		c.op( "wait" );
		for( unsigned w = 0; w < waiters; ++w ) {
			kinds[w] = static_cast<Wait>( c.rng.below( static_cast<unsigned>( Wait::count ) ) );
			target[w] = 1 + static_cast<int>( c.rng.below( steps ) );
			ts.emplace_back( [&, w, seed = c.rng.next( )] {
				vf::Rng r( seed );
				jitter( r );
				int want = target[w];
				auto const reached = [want]( int v ) {
					return v >= want;
				};
				auto const deadline = 100s;
				auto st = daw::wait_status::found;
				switch( kinds[w] ) {
				case Wait::if_:
					daw::atomic_wait_if( &value, reached );
					break;
				case Wait::equal:
					want = static_cast<int>( steps );
					daw::atomic_wait_value_equal( &value, want );
					break;
				case Wait::for_:
					want = 1;
					st = daw::atomic_wait_for( &value, 0, deadline );
					break;
				case Wait::until:
					want = 1;
					st = daw::atomic_wait_until( &value, 0, std::chrono::steady_clock::now( ) + deadline );
					break;
				case Wait::if_for:
					st = daw::atomic_wait_if_for( &value, reached, deadline );
					break;
				case Wait::if_until:
					st = daw::atomic_wait_if_until( &value, reached, std::chrono::system_clock::now( ) + deadline );
					break;
				case Wait::equal_for:
					want = static_cast<int>( steps );
					st = daw::atomic_wait_value_equal_for( &value, want, deadline );
					break;
				default:
					want = static_cast<int>( steps );
					st = daw::atomic_wait_value_equal_until( &value, want, std::chrono::steady_clock::now( ) + deadline );
					break;
				}
				// Published before the value reached want, without any other ordering
				got[w] = data[static_cast<std::size_t>( want )];
				target[w] = want;
				status[w] = st == daw::wait_status::found;
				watch.done( );
			} );
		}
		for( unsigned s = 1; s <= steps; ++s ) {
			ts.emplace_back( [&, s, seed = c.rng.next( )] {
				vf::Rng r( seed );
				while( value.load( std::memory_order_acquire ) != static_cast<int>( s ) - 1 ) {
					std::this_thread::yield( );
				}
				if( r.chance( 1, 3 ) ) {
					std::this_thread::sleep_for( std::chrono::microseconds( r.below( 300 ) ) );
				}
				jitter( r );
				data[s] = 100 + static_cast<long>( s );
				value.store( static_cast<int>( s ), std::memory_order_release );
				value.notify_all( );
			} );
		}
		watch.wait( [&] {
			value.store( static_cast<int>( steps ) );
			value.notify_all( );
		} );
		for( auto &t : ts ) {
			t.join( );
		}
		VF_TRUE( c, "every waiter returned in time", not watch.late );
		std::uint64_t h = steps;
		for( unsigned w = 0; w < waiters; ++w ) {
			c.ctx( "waiter kind ", static_cast<int>( kinds[w] ), " for step ", target[w] );
			VF_EQ( c, "status found", status[w], 1 );
			VF_EQ( c, "data of the step", got[w], 100 + static_cast<long>( target[w] ) );
			h = vf::mix( h, vf::mix( static_cast<std::uint64_t>( kinds[w] ), static_cast<std::uint64_t>( target[w] ) ) );
		}
		c.count( "waits_published", waiters );
		c.nontrivial( h );
	}

	/// Ping-pong: every hand-over is a wake-up, and none may be lost
	VF_FAMILY( wait_ping_pong, 400, 6000 ) {
		unsigned const nt = 2 + static_cast<unsigned>( c.rng.below( 3 ) );
		int const rounds = 20;
		std::atomic<int> turn{ 0 };
		long plain = 0;
		Watch watch( nt );
		std::vector<std::thread> ts;
		c.op( "ping pong" );
		for( unsigned t = 0; t < nt; ++t ) {
			ts.emplace_back( [&, t, seed = c.rng.next( )] {
				vf::Rng r( seed );
				for( int i = 0; i < rounds; ++i ) {
					auto const mine = static_cast<int>( i * static_cast<int>( nt ) + static_cast<int>( t ) );
					switch( r.below( 3 ) ) {
					case 0:
						daw::atomic_wait_value_equal( &turn, mine );
						break;
					case 1:
						daw::atomic_wait_if( &turn, [mine]( int v ) {
							return v == mine;
						} );
						break;
					default:
						(void)daw::atomic_wait_value_equal_for( &turn, mine, 100s );
						break;
					}
					++plain;
					jitter( r );
					turn.store( mine + 1, std::memory_order_release );
					turn.notify_all( );
				}
				watch.done( );
			} );
		}
		watch.wait( [&] {
			vf::Suspend s{ };
			std::fputs( "a wake-up was lost\n", stderr );
			std::abort( );
		} );
		for( auto &t : ts ) {
			t.join( );
		}
		VF_EQ( c, "hand-overs", plain, static_cast<long>( nt ) * rounds );
		c.count( "handovers", static_cast<std::uint64_t>( plain ) );
		c.nontrivial( c.idx );
	}

	/// A timed wait whose condition never comes true reports a timeout, not before
	/// its time is over; one whose condition holds reports found, even without time
	VF_FAMILY( wait_timeout, 600, 6000 ) {
		std::atomic<int> value{ static_cast<int>( c.rng.below( 5 ) ) };
		int const now = value.load( );
		bool const holds = c.rng.chance( 1, 3 );
		auto const time = std::chrono::microseconds( c.rng.chance( 1, 5 ) ? c.rng.range( -5000, 0 ) : c.rng.range( 1, 6000 ) );
		auto const is = [&]( int w ) {
			return [w]( int v ) {
				return v == w;
			};
		};
		int const want = holds ? now : now + 1;
		int const old = holds ? now + 1 : now;
		auto const kind = c.rng.below( 7 );
		c.op( "timed wait" );
		c.ctx( "kind ", kind, " holds ", holds, " us ", time.count( ) );
		auto const from = std::chrono::high_resolution_clock::now( );
		auto st = daw::wait_status::found;
		switch( kind ) {
		case 0:
			st = daw::atomic_wait_for( &value, old, time );
			break;
		case 1:
			st = daw::atomic_wait_until( &value, old, std::chrono::high_resolution_clock::now( ) + time );
			break;
		case 2:
			st = daw::atomic_wait_if_for( &value, is( want ), time );
			break;
		case 3:
			st = daw::atomic_wait_if_until( &value, is( want ), std::chrono::high_resolution_clock::now( ) + time );
			break;
		case 4:
			st = daw::atomic_wait_value_equal_for( &value, want, time );
			break;
		case 5:
			st = daw::atomic_wait_value_equal_until( &value, want, std::chrono::high_resolution_clock::now( ) + time );
			break;
		default:
			st = daw::atomic_wait_for( &value, old, std::chrono::duration_cast<std::chrono::milliseconds>( time ), std::memory_order_seq_cst );
			break;
		}
		auto const took = std::chrono::high_resolution_clock::now( ) - from;
		VF_EQ( c, "found", st == daw::wait_status::found, holds );
		if( not holds ) {
			auto const least = kind == 6 ? std::chrono::duration_cast<std::chrono::nanoseconds>( std::chrono::duration_cast<std::chrono::milliseconds>( time ) ) : std::chrono::duration_cast<std::chrono::nanoseconds>( time );
			VF_TRUE( c, "not before its time", took >= least );
		}
		VF_EQ( c, "the value is only read", value.load( ), now );
		c.nontrivial( vf::mix( kind, static_cast<std::uint64_t>( time.count( ) + 10000 ) ) );
	}

	// ---- shared_function ----
	struct Stats {
		std::atomic<int> made{ 0 }, gone{ 0 };
	};
	/// What the handles share: destroying it writes what calling it reads, so that a
	/// call that is not ordered before the destruction is a race
	struct Target {
		Stats *stats;
		long *cell;
		explicit Target( Stats &s )
		  : stats( &s )
		  , cell( new long( 7 ) ) {
			++stats->made;
		}
		Target( Target &&o ) noexcept
		  : stats( o.stats )
		  , cell( std::exchange( o.cell, nullptr ) ) {}
		Target( Target const & ) = delete;
		Target &operator=( Target const & ) = delete;
		~Target( ) {
			if( cell ) {
				*cell = -1;
				delete cell;
				++stats->gone;
			}
		}
		long operator( )( long v ) const {
			return *cell + v;
		}
	};

	template<typename F>
	void handles( vf::Case &c ) {
		unsigned const nt = 2 + static_cast<unsigned>( c.rng.below( 6 ) );
		Stats stats;
		std::vector<std::uint64_t> locked( nt ), empty( nt ), calls( nt ), bad( nt );
		int const targets = 1 + static_cast<int>( c.rng.below( 3 ) );
		{
			std::vector<std::vector<F>> strong( nt );
			using W = decltype( std::declval<F &>( ).get_weak( ) );
			std::vector<std::vector<W>> weak( nt );
			for( int k = 0; k < targets; ++k ) {
				auto f = F( Target( stats ) );
				auto w = f.get_weak( );
				for( unsigned t = 0; t < nt; ++t ) {
					if( c.rng.chance( 2, 3 ) ) {
						strong[t].push_back( f );
					}
					weak[t].push_back( w );
				}
			}
			race( c, nt, [&]( unsigned t, vf::Rng &r ) {
				auto &s = strong[t];
				auto &w = weak[t];
				auto const call = [&]( F &f ) {
					auto const v = static_cast<long>( r.below( 100 ) );
					bad[t] += f( v ) != v + 7;
					++calls[t];
				};
				// Mostly shedding owners, so that the last owner goes away during the race
				for( int i = 0, n = 10 + static_cast<int>( r.below( 30 ) ); i < n; ++i ) {
					auto const wi = w.empty( ) ? 0 : r.below( w.size( ) );
					auto const si = s.empty( ) ? 0 : r.below( s.size( ) );
					switch( r.below( 9 ) ) {
					case 0:
						if( not s.empty( ) ) {
							call( s[si] );
						}
						break;
					case 1:
						if( not s.empty( ) ) {
							F copy( s[si] );
							jitter( r );
							call( copy );
						}
						break;
					case 2:
						if( not s.empty( ) ) {
							F last( std::move( s[si] ) );
							s.erase( s.begin( ) + static_cast<std::ptrdiff_t>( si ) );
							call( last );
						}
						break;
					case 3:
					case 4:
					case 5:
						if( not w.empty( ) ) {
							if( auto f = w[wi].lock( ) ) {
								++locked[t];
								jitter( r );
								call( f );
								if( r.chance( 1, 5 ) ) {
									s.push_back( std::move( f ) );
								}
							} else {
								++empty[t];
							}
						}
						break;
					case 6:
						if( not w.empty( ) ) {
							W copy( w[wi] );
							w[r.below( w.size( ) )] = copy;
							if( r.chance( 1, 6 ) ) {
								w.erase( w.begin( ) + static_cast<std::ptrdiff_t>( r.below( w.size( ) ) ) );
							}
						}
						break;
					case 7:
						if( s.size( ) > 1 ) {
							s[si] = s[r.below( s.size( ) )];
						} else if( not s.empty( ) ) {
							s[0] = F( );
							s.clear( );
						}
						break;
					default:
						if( not s.empty( ) ) {
							W again = s[si].get_weak( );
							w.push_back( std::move( again ) );
							s.pop_back( );
						}
						break;
					}
					jitter( r );
				}
				if( r.coin( ) ) {
					s.clear( );
				}
				if( r.coin( ) ) {
					w.clear( );
				}
			} );
			// With the owners gone, so are the targets, and nothing can be locked
			for( auto &s : strong ) {
				s.clear( );
			}
			VF_EQ( c, "destroyed with the last owner", stats.gone.load( ), targets );
			for( auto &ws : weak ) {
				for( auto &w : ws ) {
					VF_TRUE( c, "a weak handle of a destroyed target", not static_cast<bool>( w.lock( ) ) );
				}
			}
		}
		VF_EQ( c, "made", stats.made.load( ), targets );
		VF_EQ( c, "destroyed exactly once", stats.gone.load( ), targets );
		std::uint64_t l = 0, e = 0, n = 0;
		for( unsigned t = 0; t < nt; ++t ) {
			VF_EQ( c, "wrong answers", bad[t], 0U );
			l += locked[t];
			e += empty[t];
			n += calls[t];
		}
		c.count( "locks_taken", l );
		c.count( "locks_refused", e );
		c.count( "calls", n );
		if( l > 0 and e > 0 ) {
			c.nontrivial( vf::mix( vf::mix( l, e ), n ) );
		}
	}

	VF_FAMILY( shared_handles, 6000, 80000 ) {
		c.op( "handles" );
		if( c.rng.coin( ) ) {
			handles<daw::shared_function<long( long ) const>>( c );
		} else {
			handles<daw::shared_function<long( long )>>( c );
		}
	}
} // namespace

VF_MAIN( )
