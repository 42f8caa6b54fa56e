// Runtime-monitoring harness runtime.  Every harness translation unit defines
// "families" of generated cases; the driver (tools/run_check.py) runs ranges
// of case indices of each family in sanitizer-instrumented child processes.
//
//   VF_FAMILY( name, quick_cases, thorough_cases ) { ... uses c.rng ... }
//
// The case body drives the code under test and reports to oracles through
//   VF_EQ( c, "label", got, want )     compare, record on mismatch
//   VF_TRUE( c, "label", cond )
//   c.op( "label" )                     names the operation in flight (crash/hang key)
//   c.nontrivial( hash )                marks the case as non-trivial (distinct by hash)
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

#if defined( __has_feature )
#if __has_feature( address_sanitizer )
#define VF_ASAN 1
#endif
#if __has_feature( thread_sanitizer )
#define VF_TSAN 1
#endif
#endif
#if defined( __SANITIZE_ADDRESS__ )
#define VF_ASAN 1
#endif
#if defined( __SANITIZE_THREAD__ )
#define VF_TSAN 1
#endif

#if defined( VF_ASAN )
extern "C" int __sanitizer_install_malloc_and_free_hooks(
  void ( *m )( const volatile void *, size_t ),
  void ( *f )( const volatile void * ) );
#endif

namespace vf {
	struct Rng {
		uint64_t s;
		explicit Rng( uint64_t seed = 1 ) : s( seed ) {}
		uint64_t next( ) {
			uint64_t z = ( s += 0x9E3779B97F4A7C15ULL );
			z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ULL;
			z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBULL;
			return z ^ ( z >> 31 );
		}
		// [0,n)
		size_t below( size_t n ) {
			return n == 0 ? 0 : static_cast<size_t>( next( ) % n );
		}
		// [lo,hi]
		long long range( long long lo, long long hi ) {
			return lo + static_cast<long long>(
			              next( ) % ( static_cast<unsigned long long>( hi - lo ) + 1ULL ) );
		}
		bool chance( unsigned num, unsigned den ) {
			return below( den ) < num;
		}
		// a length: mostly up to max, now and then much longer
		size_t len( size_t max ) {
			size_t const k = below( 600 );
			if( k == 0 )
				return below( 1200 );
			return below( k < 15 ? max * 12 + 1 : max + 1 );
		}
		bool coin( ) {
			return ( next( ) & 1U ) != 0;
		}
		// an integer biased to boundary values
		template<typename T>
		T edgy( ) {
			using U = std::make_unsigned_t<T>;
			switch( below( 8 ) ) {
			case 0: return static_cast<T>( 0 );
			case 1: return static_cast<T>( std::numeric_limits<T>::max( ) - static_cast<T>( below( 3 ) ) );
			case 2: return static_cast<T>( std::numeric_limits<T>::min( ) + static_cast<T>( below( 3 ) ) );
			case 3: return static_cast<T>( below( 20 ) );
			case 4: {
				auto sh = below( sizeof( T ) * 8 );
				return static_cast<T>( static_cast<U>( static_cast<U>( 1 ) << sh ) - static_cast<U>( below( 3 ) ) + 1U );
			}
			case 5: return static_cast<T>( static_cast<U>( 0 ) - static_cast<U>( below( 20 ) ) );
			default: {
				auto v = next( );
				return static_cast<T>( v >> below( 64 ) );
			}
			}
		}
		template<typename C>
		auto &pick( C &c ) {
			return c[below( std::size( c ) )];
		}
		template<typename T>
		T pick( std::initializer_list<T> il ) {
			return il.begin( )[below( il.size( ) )];
		}
		template<typename C>
		void shuffle( C &c ) {
			for( size_t n = std::size( c ); n > 1; --n ) {
				using std::swap;
				auto k = below( n );
				if( k != n - 1 )
					swap( c[n - 1], c[k] );
			}
		}
	};

	inline uint64_t mix( uint64_t a, uint64_t b ) {
		Rng r( a * 0x9E3779B97F4A7C15ULL + b );
		return r.next( ) ^ ( b << 1 );
	}
	inline uint64_t hash_str( std::string_view s ) {
		uint64_t h = 1469598103934665603ULL;
		for( unsigned char ch : s ) {
			h ^= ch;
			h *= 1099511628211ULL;
		}
		return h;
	}

	// --- allocation accounting -------------------------------------------
	inline thread_local int g_suspend = 0;
	inline thread_local long long g_live = 0;
	inline thread_local unsigned long long g_allocs = 0;
	struct Suspend {
		Suspend( ) { ++g_suspend; }
		~Suspend( ) { --g_suspend; }
	};
#if defined( VF_ASAN )
	inline void on_malloc( const volatile void *p, size_t ) {
		if( p and g_suspend == 0 ) {
			++g_live;
			++g_allocs;
		}
	}
	inline void on_free( const volatile void *p ) {
		if( p and g_suspend == 0 ) {
			--g_live;
		}
	}
#endif

	// --- printing ----------------------------------------------------------
	template<typename T>
	concept Streamable = requires( std::ostream &os, T const &v ) { os << v; };

	inline void put_char( std::ostream &os, unsigned long u ) {
		if( u >= 0x20 and u < 0x7f )
			os << static_cast<char>( u );
		else
			os << "\\x" << std::hex << u << std::dec << ";";
	}

	template<typename T>
	void show( std::ostream &os, T const &v ) {
		if constexpr( std::is_same_v<T, bool> ) {
			os << ( v ? "true" : "false" );
		} else if constexpr( std::is_same_v<T, char> ) {
			os << '\'';
			put_char( os, static_cast<unsigned char>( v ) );
			os << '\'';
		} else if constexpr( std::is_integral_v<T> ) {
			if constexpr( sizeof( T ) > 8 ) {
				os << "0x" << std::hex << static_cast<uint64_t>( v >> 64 ) << ":"
				   << static_cast<uint64_t>( v ) << std::dec;
			} else if constexpr( std::is_signed_v<T> )
				os << static_cast<long long>( v );
			else
				os << static_cast<unsigned long long>( v );
		} else if constexpr( std::is_enum_v<T> ) {
			os << static_cast<long long>( v );
		} else if constexpr( std::is_pointer_v<T> ) {
			os << static_cast<void const *>( v );
		} else if constexpr( std::is_convertible_v<T const &, std::string_view> ) {
			os << '"';
			for( char ch : std::string_view( v ) )
				put_char( os, static_cast<unsigned char>( ch ) );
			os << '"';
		} else if constexpr( requires { v.begin( ); v.end( ); } ) {
			os << '[';
			size_t n = 0;
			for( auto const &x : v ) {
				if( n++ )
					os << ',';
				if( n > 60 ) {
					os << "...";
					break;
				}
				show( os, x );
			}
			os << ']';
		} else if constexpr( requires { v.first; v.second; } ) {
			os << '(';
			show( os, v.first );
			os << ':';
			show( os, v.second );
			os << ')';
		} else if constexpr( requires { v.has_value( ); *v; } ) {
			if( v.has_value( ) )
				show( os, *v );
			else
				os << "nullopt";
		} else if constexpr( Streamable<T> ) {
			os << v;
		} else {
			os << "<?>";
		}
	}
	template<typename T>
	std::string str( T const &v ) {
		std::ostringstream os;
		show( os, v );
		return os.str( );
	}
	template<typename... Ts>
	std::string cat( Ts const &...vs ) {
		std::ostringstream os;
		auto one = [&]( auto const &v ) {
			if constexpr( std::is_convertible_v<decltype( v ), char const *> )
				os << static_cast<char const *>( v );
			else
				show( os, v );
		};
		( one( vs ), ... );
		return os.str( );
	}

	struct abort_case {};

	struct Failure {
		std::string key;
		std::string detail;
		uint64_t idx = 0;
		uint64_t count = 0;
	};

	struct Shared {
		volatile uint64_t idx;
		volatile uint64_t beats;
		char op[256];
		char ctx[3000];
	};

	struct Run {
		std::string family;
		std::map<std::string, Failure> failures;
		std::unordered_set<uint64_t> distinct;
		std::unordered_set<uint64_t> ops_seen_hash;
		std::map<std::string, uint64_t> counters;
		std::vector<std::string> samples;
		uint64_t cases = 0;
		uint64_t checks = 0;
		Shared *sh = nullptr;
	};

	struct Case {
		Run &run;
		Rng rng;
		uint64_t idx;
		bool failed = false;
		bool thorough = false;
		std::string ctx_str;

		// name the operation about to be executed (static-lifetime string)
		void op( char const *label ) {
			std::strncpy( run.sh->op, label, sizeof( run.sh->op ) - 1 );
			run.sh->beats = run.sh->beats + 1;
		}
		// describe the inputs of the case, for the replay record
		template<typename... Ts>
		void ctx( Ts const &...vs ) {
			Suspend _s{ };
			ctx_str = cat( vs... );
			std::strncpy( run.sh->ctx, ctx_str.c_str( ), sizeof( run.sh->ctx ) - 1 );
			if( run.samples.size( ) < 3 )
				run.samples.push_back( run.family + ": " + ctx_str.substr( 0, 300 ) );
		}
		void nontrivial( uint64_t h ) {
			Suspend _s{ };
			run.distinct.insert( mix( h, hash_str( run.family ) ) );
		}
		void count( char const *what, uint64_t n = 1 ) {
			Suspend _s{ };
			run.counters[what] += n;
		}
		void fail( std::string_view label, std::string const &detail ) {
			Suspend _s{ };
			failed = true;
			std::string key = run.family + "/" + std::string( label );
			auto &f = run.failures[key];
			if( f.count++ == 0 ) {
				f.key = key;
				f.detail = detail + ( ctx_str.empty( ) ? std::string( ) : ( "  [ctx: " + ctx_str + "]" ) );
				f.idx = idx;
			}
		}
		template<typename A, typename B>
		bool eq( char const *label, A const &got, B const &want ) {
			++run.checks;
			if( static_cast<bool>( got == want ) )
				return true;
			Suspend _s{ };
			fail( label, "got " + str( got ) + " want " + str( want ) );
			return false;
		}
		bool truth( char const *label, bool v ) {
			++run.checks;
			if( v )
				return true;
			Suspend _s{ };
			fail( label, "expected true" );
			return false;
		}
		template<typename A, typename B>
		void require_eq( char const *label, A const &got, B const &want ) {
			if( not eq( label, got, want ) )
				throw abort_case{ };
		}
		void require( char const *label, bool v ) {
			if( not truth( label, v ) )
				throw abort_case{ };
		}
	};

	using case_fn = void ( * )( Case & );
	struct Family {
		char const *name;
		uint64_t quick;
		uint64_t thorough;
		case_fn fn;
		bool leakcheck;
	};
	inline std::vector<Family> &families( ) {
		static std::vector<Family> f;
		return f;
	}
	struct Reg {
		Reg( char const *n, uint64_t q, uint64_t t, case_fn f, bool leak ) {
			families( ).push_back( Family{ n, q, t, f, leak } );
		}
	};

	// How f ends when run in a child process of its own; used where the documented
	// refusal is std::abort/std::terminate.
	enum class End { returned, threw, aborted, other };
	inline std::ostream &operator<<( std::ostream &os, End e ) {
		static char const *const n[] = { "returned", "threw", "aborted", "crashed" };
		return os << n[static_cast<int>( e )];
	}
	template<typename F>
	End outcome( F &&f ) {
		fflush( nullptr );
		pid_t p = fork( );
		if( p == 0 ) {
			int nul = open( "/dev/null", O_WRONLY );
			dup2( nul, 1 );
			dup2( nul, 2 );
			signal( SIGABRT, SIG_DFL );
			signal( SIGALRM, SIG_DFL );
			alarm( 20 );
			std::set_terminate( nullptr );
			int rc = 40;
			try {
				f( );
			} catch( ... ) { rc = 41; }
			_exit( rc );
		}
		int st = 0;
		if( p < 0 or waitpid( p, &st, 0 ) != p )
			return End::other;
		if( WIFSIGNALED( st ) )
			return WTERMSIG( st ) == SIGABRT ? End::aborted : End::other;
		switch( WEXITSTATUS( st ) ) {
		case 40:
			return End::returned;
		case 41:
			return End::threw;
		default:
			return End::other;
		}
	}

#define VF_FAMILY_( nm, q, t, leak )                          \
	static void vf_fam_##nm( vf::Case & );                      \
	static vf::Reg vf_reg_##nm( #nm, q, t, &vf_fam_##nm, leak ); \
	static void vf_fam_##nm( [[maybe_unused]] vf::Case &c )
#define VF_FAMILY( nm, q, t ) VF_FAMILY_( nm, q, t, true )
#define VF_FAMILY_NOLEAK( nm, q, t ) VF_FAMILY_( nm, q, t, false )
#define VF_EQ( c, label, ... ) ( (c).eq( label, __VA_ARGS__ ) )
#define VF_REQ( c, label, ... ) ( (c).require_eq( label, __VA_ARGS__ ) )
#define VF_TRUE( c, label, ... ) ( (c).truth( label, static_cast<bool>( __VA_ARGS__ ) ) )

	inline std::string json_str( std::string_view s ) {
		std::string o = "\"";
		for( unsigned char ch : s ) {
			if( ch == '"' or ch == '\\' ) {
				o += '\\';
				o += static_cast<char>( ch );
			} else if( ch < 0x20 or ch >= 0x7f ) {
				char b[8];
				std::snprintf( b, sizeof b, "\\u%04x", ch );
				o += b;
			} else
				o += static_cast<char>( ch );
		}
		return o + "\"";
	}

	// exact-size heap buffer: ASan catches any read/write past either end
	template<typename T>
	struct Exact {
		T *p;
		size_t n;
		explicit Exact( std::basic_string_view<T> s ) : p( new T[s.size( )] ), n( s.size( ) ) {
			for( size_t i = 0; i < n; ++i )
				p[i] = s[i];
		}
		template<typename It>
		Exact( It f, size_t cnt ) : p( new T[cnt] ), n( cnt ) {
			for( size_t i = 0; i < n; ++i )
				p[i] = *f++;
		}
		Exact( Exact const & ) = delete;
		Exact &operator=( Exact const & ) = delete;
		~Exact( ) { delete[] p; }
		T *data( ) { return p; }
		T *begin( ) { return p; }
		T *end( ) { return p + n; }
		size_t size( ) const { return n; }
	};

	inline int harness_main( int argc, char **argv ) {
		if( argc >= 2 and std::strcmp( argv[1], "list" ) == 0 ) {
			for( auto const &f : families( ) )
				std::printf( "%s %llu %llu\n", f.name, (unsigned long long)f.quick,
				             (unsigned long long)f.thorough );
			return 0;
		}
		// run <family> <from> <to> <seed> <progress-file> <out.json> [thorough]
		if( argc < 8 ) {
			std::fprintf( stderr, "usage\n" );
			return 3;
		}
		Family const *fam = nullptr;
		for( auto const &f : families( ) )
			if( std::strcmp( f.name, argv[2] ) == 0 )
				fam = &f;
		if( not fam ) {
			std::fprintf( stderr, "no such family\n" );
			return 3;
		}
		uint64_t from = std::strtoull( argv[3], nullptr, 10 );
		uint64_t to = std::strtoull( argv[4], nullptr, 10 );
		uint64_t seed = std::strtoull( argv[5], nullptr, 10 );
		int fd = ::open( argv[6], O_RDWR | O_CREAT, 0644 );
		if( fd < 0 or ::ftruncate( fd, sizeof( Shared ) ) != 0 )
			return 3;
		Run run;
		run.family = fam->name;
		run.sh = static_cast<Shared *>( ::mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE,
		                                        MAP_SHARED, fd, 0 ) );
		if( run.sh == MAP_FAILED )
			return 3;
		std::memset( (void *)run.sh, 0, sizeof( Shared ) );
#if defined( VF_ASAN )
		__sanitizer_install_malloc_and_free_hooks( &on_malloc, &on_free );
#endif
		bool thorough = argc > 8 and std::strcmp( argv[8], "thorough" ) == 0;
		uint64_t fam_h = hash_str( run.family );
		for( uint64_t i = from; i < to; ++i ) {
			bool suspect = false;
			for( int rep = 0; rep < 2; ++rep ) {
				run.sh->idx = i;
				run.sh->beats = run.sh->beats + 1;
				run.sh->op[0] = 0;
				run.sh->ctx[0] = 0;
				Case c{ run, Rng( mix( mix( seed, fam_h ), i ) ), i };
				c.thorough = thorough;
				long long live0 = g_live;
				try {
					fam->fn( c );
				} catch( abort_case const & ) {
				} catch( std::exception const &e ) {
					Suspend s{ };
					c.fail( std::string( "uncaught-exception:" ) + run.sh->op, std::string( "exception escaped: " ) + e.what( ) );
				} catch( ... ) {
					Suspend s{ };
					c.fail( std::string( "uncaught-exception:" ) + run.sh->op, "unknown exception escaped" );
				}
				{
					Suspend s{ };
					std::string( ).swap( c.ctx_str );
				}
				long long d = g_live - live0;
				if( not fam->leakcheck or d == 0 or c.failed )
					break;
				if( rep == 0 ) {
					suspect = true;
					continue;
				}
				if( suspect )
					c.fail( d > 0 ? "heap-leak" : "heap-overfree", vf::cat( "live heap blocks changed by ", d, " across the case" ) );
			}
			++run.cases;
		}
		Suspend s{ };
		std::FILE *o = std::fopen( argv[7], "w" );
		if( not o )
			return 3;
		std::fprintf( o, "{\"family\":%s,\"cases\":%llu,\"checks\":%llu,", json_str( run.family ).c_str( ),
		              (unsigned long long)run.cases, (unsigned long long)run.checks );
		std::fprintf( o, "\"distinct\":[" );
		bool first = true;
		for( auto h : run.distinct ) {
			std::fprintf( o, "%s%llu", first ? "" : ",", (unsigned long long)( h >> 8 ) );
			first = false;
		}
		std::fprintf( o, "],\"counters\":{" );
		first = true;
		for( auto const &[k, v] : run.counters ) {
			std::fprintf( o, "%s%s:%llu", first ? "" : ",", json_str( k ).c_str( ), (unsigned long long)v );
			first = false;
		}
		std::fprintf( o, "},\"samples\":[" );
		first = true;
		for( auto const &v : run.samples ) {
			std::fprintf( o, "%s%s", first ? "" : ",", json_str( v ).c_str( ) );
			first = false;
		}
		std::fprintf( o, "],\"failures\":[" );
		first = true;
		for( auto const &[k, f] : run.failures ) {
			std::fprintf( o, "%s{\"key\":%s,\"detail\":%s,\"idx\":%llu,\"count\":%llu}", first ? "" : ",",
			              json_str( f.key ).c_str( ), json_str( f.detail.substr( 0, 3000 ) ).c_str( ),
			              (unsigned long long)f.idx, (unsigned long long)f.count );
			first = false;
		}
		std::fprintf( o, "]}\n" );
		std::fclose( o );
		return 0;
	}
} // namespace vf

#define VF_MAIN( )                    \
	int main( int argc, char **argv ) { \
		int rc = vf::harness_main( argc, argv ); \
		std::fflush( nullptr ); \
		_exit( rc ); \
	}
