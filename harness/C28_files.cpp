// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only -Wl,--wrap=mmap,--wrap=munmap,--wrap=close,--wrap=open,--wrap=lseek,--wrap=fopen,--wrap=fclose,--wrap=fread
#include <daw/daw_memory_mapped_file.h>
#include <daw/daw_read_file.h>
#include "vf.h"
#include <cstdarg>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <memory>
#include <set>
#include <sys/stat.h>

// The calls the headers make are wrapped: failures are injected here and every
// release is checked against what is open.  What is open at the end is judged
// from /proc/self, whatever calls were used.
struct Monitor {
	std::set<int> fds;
	std::map<void *, std::size_t> maps;
	std::set<FILE *> files;
	long opens = 0, mmaps = 0;
	int bad_release = 0;
	int fail_mmap = 0, fail_lseek = 0, short_read = 0;
};
static Monitor *g_mon = nullptr;
extern "C" {
void *__real_mmap( void *, size_t, int, int, int, off_t );
int __real_munmap( void *, size_t );
int __real_close( int );
int __real_open( char const *, int, ... );
off_t __real_lseek( int, off_t, int );
FILE *__real_fopen( char const *, char const * );
int __real_fclose( FILE * );
size_t __real_fread( void *, size_t, size_t, FILE * );
void *__wrap_mmap( void *a, size_t n, int p, int f, int fd, off_t o ) {
	if( g_mon and g_mon->fail_mmap ) {
		--g_mon->fail_mmap;
		errno = ENOMEM;
		return MAP_FAILED;
	}
	void *r = __real_mmap( a, n, p, f, fd, o );
	if( g_mon and r != MAP_FAILED ) {
		g_mon->maps[r] = n;
		++g_mon->mmaps;
	}
	return r;
}
int __wrap_munmap( void *p, size_t n ) {
	if( g_mon and p != MAP_FAILED ) {
		auto it = g_mon->maps.find( p );
		if( it == g_mon->maps.end( ) or it->second != n )
			++g_mon->bad_release;
		else
			g_mon->maps.erase( it );
	}
	return __real_munmap( p, n );
}
int __wrap_close( int fd ) {
	if( g_mon and g_mon->fds.erase( fd ) == 0 )
		++g_mon->bad_release;
	return __real_close( fd );
}
int __wrap_open( char const *p, int fl, ... ) {
	int mode = 0;
	if( fl & O_CREAT ) {
		va_list ap;
		va_start( ap, fl );
		mode = va_arg( ap, int );
		va_end( ap );
	}
	int r = __real_open( p, fl, mode );
	if( g_mon and r >= 0 ) {
		g_mon->fds.insert( r );
		++g_mon->opens;
	}
	return r;
}
off_t __wrap_lseek( int fd, off_t o, int w ) {
	if( g_mon and g_mon->fail_lseek ) {
		--g_mon->fail_lseek;
		errno = ESPIPE;
		return -1;
	}
	return __real_lseek( fd, o, w );
}
FILE *__wrap_fopen( char const *p, char const *m ) {
	FILE *r = __real_fopen( p, m );
	if( g_mon and r ) {
		g_mon->files.insert( r );
		++g_mon->opens;
	}
	return r;
}
int __wrap_fclose( FILE *f ) {
	if( g_mon and g_mon->files.erase( f ) == 0 )
		++g_mon->bad_release;
	return __real_fclose( f );
}
size_t __wrap_fread( void *p, size_t s, size_t n, FILE *f ) {
	if( g_mon and g_mon->short_read and n > 0 ) {
		--g_mon->short_read;
		return __real_fread( p, s, n - 1, f );
	}
	return __real_fread( p, s, n, f );
}
}

// scratch directory, removed at exit
struct Scratch {
	std::string dir;
	std::set<std::string> names;
	Scratch( ) {
		// beside the executable, whose directory the runner removes
		char b[1024];
		ssize_t k = readlink( "/proc/self/exe", b, sizeof b );
		std::string t( b, k > 0 ? (std::size_t)k : 0 );
		t = t.substr( 0, t.rfind( '/' ) ) + "/c28_XXXXXX";
		dir = mkdtemp( t.data( ) ) ? t : "";
		if( dir.empty( ) )
			abort( );
	}
	~Scratch( ) {
		for( auto &n : names )
			unlink( n.c_str( ) );
		rmdir( dir.c_str( ) );
	}
	std::string path( char const *n ) {
		return dir + "/" + n;
	}
	std::string put( char const *n, std::string const &bytes ) {
		auto p = path( n );
		names.insert( p );
		// a new inode each time: earlier mappings of the name keep their bytes
		unlink( p.c_str( ) );
		int fd = __real_open( p.c_str( ), O_CREAT | O_WRONLY | O_TRUNC, 0600 );
		std::size_t at = 0;
		while( at < bytes.size( ) ) {
			ssize_t w = write( fd, bytes.data( ) + at, bytes.size( ) - at );
			if( w <= 0 )
				abort( );
			at += (std::size_t)w;
		}
		__real_close( fd );
		return p;
	}
	std::string get( char const *n ) {
		auto p = path( n );
		std::string r;
		int fd = __real_open( p.c_str( ), O_RDONLY );
		char b[4096];
		ssize_t k;
		while( ( k = read( fd, b, sizeof b ) ) > 0 )
			r.append( b, (std::size_t)k );
		__real_close( fd );
		return r;
	}
	// descriptors and mappings of this process that refer to the directory
	std::pair<int, int> open_now( ) {
		int nf = 0, nm = 0;
		DIR *d = opendir( "/proc/self/fd" );
		while( dirent *e = readdir( d ) ) {
			char b[512];
			ssize_t k = readlinkat( dirfd( d ), e->d_name, b, sizeof b );
			if( k > 0 and std::string( b, (std::size_t)k ).compare( 0, dir.size( ), dir ) == 0 )
				++nf;
		}
		closedir( d );
		int fd = __real_open( "/proc/self/maps", O_RDONLY );
		std::string all;
		char b[8192];
		ssize_t k;
		while( ( k = read( fd, b, sizeof b ) ) > 0 )
			all.append( b, (std::size_t)k );
		__real_close( fd );
		for( std::size_t at = 0; ( at = all.find( dir, at ) ) != std::string::npos; ++at )
			++nm;
		return { nf, nm };
	}
};
static Scratch g_dir;

static std::string bytes_of( vf::Rng &r, std::size_t n ) {
	std::string s( n, '\0' );
	std::uint64_t x = r.next( );
	for( auto &ch : s ) {
		x = x * 6364136223846793005ull + 1442695040888963407ull;
		ch = (char)( x >> 56 );
	}
	return s;
}
static std::size_t pick_size( vf::Rng &r ) {
	switch( r.below( 6 ) ) {
	case 0: return r.below( 4 );
	case 1: return r.below( 300 );
	case 2: return 4096 * r.below( 5 ) + r.below( 3 );
	case 3: return 4096 * ( 1 + r.below( 4 ) ) - r.below( 3 );
	case 4: return 65536 + r.below( 3 ) - 1;
	default: return r.below( 20000 );
	}
}

// ------------------------------------------------------------------ read_file
template<typename C>
static void reading( vf::Case &c ) {
	Monitor m;
	auto n = pick_size( c.rng );
	auto bytes = bytes_of( c.rng, n );
	auto p = g_dir.put( "r", bytes );
	g_mon = &m;
	c.op( "read_file" );
	c.ctx( vf::cat( "size ", n ) );
	if( n and c.rng.chance( 1, 6 ) ) {
		m.short_read = 1;
		bool few = n < sizeof( C );
		auto r = daw::read_file<C>( p );
		if( not few and m.short_read == 0 )
			VF_TRUE( c, "a file that shrinks while read is refused", not r.has_value( ) );
		c.count( "injected_short_reads", 1 );
	} else {
		auto r = daw::read_file<C>( p );
		VF_REQ( c, "read", r.has_value( ), true );
		VF_EQ( c, "characters", r->size( ), n / sizeof( C ) );
		VF_TRUE( c, "content",
		         std::memcmp( r->data( ), bytes.data( ), n / sizeof( C ) * sizeof( C ) ) == 0 );
		if constexpr( std::is_same_v<C, char> ) {
			VF_TRUE( c, "default type", daw::read_file( p ) == bytes );
			VF_TRUE( c, "terminating form", daw::read_file( p, daw::terminate_on_read_file_error ) == bytes );
		}
	}
	g_mon = nullptr;
	VF_EQ( c, "left open", g_dir.open_now( ), ( std::pair<int, int>{ 0, 0 } ) );
	VF_EQ( c, "bad releases", m.bad_release, 0 );
	c.count( "files_read", 1 );
	c.count( "bytes_read", (long)n );
	c.nontrivial( vf::mix( n, 0 ) );
}
VF_FAMILY( read_char, 800, 20000 ) {
	reading<char>( c );
}
VF_FAMILY( read_wchar, 300, 6000 ) {
	reading<wchar_t>( c );
}
VF_FAMILY( read_char16, 300, 6000 ) {
	reading<char16_t>( c );
}
VF_FAMILY( read_failures, 60, 600 ) {
	Monitor m;
	g_mon = &m;
	std::string p;
	switch( c.rng.below( 4 ) ) {
	case 0: p = g_dir.path( "missing" ); break;
	case 1: p = g_dir.dir; break;
	case 2: p = ""; break;
	case 3: p = g_dir.path( "r/child" ); break;
	}
	c.op( "read_file" );
	VF_TRUE( c, "refused", not daw::read_file( p ).has_value( ) );
	VF_TRUE( c, "refused", not daw::read_file<char32_t>( p ).has_value( ) );
	if( c.idx < 20 ) {
		c.op( "terminating read_file" );
		auto e = vf::outcome( [&] {
			(void)freopen( "/dev/null", "w", stderr );
			(void)daw::read_file( p, daw::terminate_on_read_file_error );
		} );
		VF_TRUE( c, "terminates", e == vf::End::aborted );
	}
	g_mon = nullptr;
	VF_EQ( c, "left open", g_dir.open_now( ), ( std::pair<int, int>{ 0, 0 } ) );
	c.nontrivial( c.idx % 16 );
}

// --------------------------------------------------------- memory mapped file
template<typename T>
using MM = daw::filesystem::memory_mapped_file_t<T>;
using daw::filesystem::open_mode;

template<typename T>
static void same( vf::Case &c, MM<T> &f, std::string const &bytes ) {
	auto const &cf = f;
	std::size_t n = bytes.size( ) / sizeof( T );
	VF_REQ( c, "size", f.size( ), n );
	VF_TRUE( c, "bool", (bool)cf );
	VF_EQ( c, "empty", f.empty( ), n == 0 );
	VF_TRUE( c, "bytes", std::memcmp( cf.data( ), bytes.data( ), n * sizeof( T ) ) == 0 );
	VF_TRUE( c, "data", f.data( ) == cf.data( ) and f.begin( ) == f.data( ) and cf.begin( ) == cf.data( ) and
	                      cf.cbegin( ) == cf.data( ) );
	VF_EQ( c, "end", f.end( ) - f.begin( ), (std::ptrdiff_t)n );
	VF_EQ( c, "const end", cf.end( ) - cf.begin( ), (std::ptrdiff_t)n );
	VF_EQ( c, "cend", cf.cend( ) - cf.cbegin( ), (std::ptrdiff_t)n );
	for( int k = 0; k < 4 and n; ++k ) {
		std::size_t i = k == 0 ? n - 1 : c.rng.below( n );
		std::remove_const_t<T> want;
		std::memcpy( &want, bytes.data( ) + i * sizeof( T ), sizeof( T ) );
		VF_EQ( c, "element", (long)f[i], (long)want );
		VF_EQ( c, "const element", (long)cf[i], (long)want );
	}
	if constexpr( std::is_same_v<T, char> or std::is_same_v<T, char16_t> ) {
		std::basic_string_view<T> sv = cf;
		VF_TRUE( c, "view", sv.data( ) == cf.data( ) and sv.size( ) == n );
	}
}
template<typename T>
static void closed( vf::Case &c, MM<T> &f ) {
	auto const &cf = f;
	VF_TRUE( c, "closed: bool", not (bool)cf );
	VF_EQ( c, "closed: size", cf.size( ), (std::size_t)0 );
	VF_TRUE( c, "closed: empty", cf.empty( ) );
	VF_TRUE( c, "closed: range", f.begin( ) == f.end( ) and cf.begin( ) == cf.end( ) and cf.cbegin( ) == cf.cend( ) );
}

template<typename T>
static void mapping_history( vf::Case &c ) {
	Monitor m;
	g_mon = &m;
	constexpr int N = 3;
	std::unique_ptr<MM<T>> s[N];
	int held[N] = { -1, -1, -1 }; // index of the content or -1
	bool rw[N] = { };
	constexpr int F = 4;
	static char const *const fn[F] = { "a", "b", "c", "d" };
	std::string content[F];
	for( int i = 0; i < F; ++i ) {
		content[i] = bytes_of( c.rng, i == 0 ? 0 : pick_size( c.rng ) );
		g_dir.put( fn[i], content[i] );
	}
	for( auto &p : s )
		p = std::make_unique<MM<T>>( );
	int steps = 4 + (int)c.rng.below( 14 );
	for( int k = 0; k < steps; ++k ) {
		int i = (int)c.rng.below( N ), j = (int)c.rng.below( N ), f = (int)c.rng.below( F );
		auto mode = c.rng.coin( ) ? open_mode::read : open_mode::read_write;
		auto path = g_dir.path( fn[f] );
		bool can = not content[f].empty( );
		switch( c.rng.below( 9 ) ) {
		case 0:
		case 1: {
			c.op( "open" );
			bool r = s[i]->open( path, mode );
			VF_EQ( c, "open result", r, can );
			held[i] = can ? f : -1;
			rw[i] = mode == open_mode::read_write;
			break;
		}
		case 2: {
			c.op( "construct" );
			s[i] = mode == open_mode::read and c.rng.coin( ) ? std::make_unique<MM<T>>( path )
			                                                 : std::make_unique<MM<T>>( path, mode );
			held[i] = can ? f : -1;
			rw[i] = mode == open_mode::read_write;
			break;
		}
		case 3: {
			c.op( "open a missing file" );
			VF_TRUE( c, "refused", not s[i]->open( g_dir.path( "none" ), mode ) );
			held[i] = -1;
			break;
		}
		case 4: {
			c.op( "open with failing system call" );
			( c.rng.coin( ) ? m.fail_mmap : m.fail_lseek ) = 1;
			bool r = s[i]->open( path, mode );
			bool hit = m.fail_mmap + m.fail_lseek == 0;
			if( hit ) {
				VF_TRUE( c, "refused when the system refuses", not r );
				c.count( "injected_failures", 1 );
				held[i] = -1;
			} else {
				VF_EQ( c, "open result", r, can );
				held[i] = can ? f : -1;
				rw[i] = mode == open_mode::read_write;
			}
			m.fail_mmap = m.fail_lseek = 0;
			break;
		}
		case 5: {
			c.op( "move assign" );
			auto &src = *s[j];
			*s[i] = std::move( src );
			if( i != j ) {
				held[i] = held[j];
				rw[i] = rw[j];
				held[j] = -1;
			}
			break;
		}
		case 6:
			if( i != j ) {
				c.op( "move construct" );
				s[i] = std::make_unique<MM<T>>( std::move( *s[j] ) );
				held[i] = held[j];
				rw[i] = rw[j];
				held[j] = -1;
			}
			break;
		case 7:
			c.op( "swap" );
			if( i != j ) {
				std::swap( *s[i], *s[j] );
				std::swap( held[i], held[j] );
				std::swap( rw[i], rw[j] );
			}
			break;
		case 8:
			if constexpr( not std::is_const_v<T> ) {
				if( held[i] >= 0 and rw[i] and s[i]->size( ) ) {
					c.op( "write" );
					std::size_t at = c.rng.chance( 1, 3 ) ? s[i]->size( ) - 1 : c.rng.below( s[i]->size( ) );
					T v = (T)c.rng.next( );
					if( c.rng.coin( ) )
						( *s[i] )[at] = v;
					else
						*( s[i]->begin( ) + at ) = v;
					std::memcpy( content[held[i]].data( ) + at * sizeof( T ), &v, sizeof( T ) );
					VF_TRUE( c, "file has the written bytes", g_dir.get( fn[held[i]] ) == content[held[i]] );
					c.count( "writes", 1 );
				}
			}
			break;
		}
		int live = 0;
		for( int q = 0; q < N; ++q ) {
			if( held[q] >= 0 ) {
				++live;
				same<T>( c, *s[q], content[held[q]] );
			} else
				closed<T>( c, *s[q] );
		}
		VF_EQ( c, "open descriptors and mappings", g_dir.open_now( ), ( std::pair<int, int>{ live, live } ) );
		VF_EQ( c, "bad releases", m.bad_release, 0 );
	}
	for( auto &p : s )
		p.reset( );
	g_mon = nullptr;
	VF_EQ( c, "left open", g_dir.open_now( ), ( std::pair<int, int>{ 0, 0 } ) );
	VF_EQ( c, "bad releases", m.bad_release, 0 );
	for( int i = 0; i < F; ++i )
		VF_TRUE( c, "files unchanged but for the writes", g_dir.get( fn[i] ) == content[i] );
	c.count( "mappings", m.mmaps );
	c.nontrivial( vf::mix( (unsigned)m.mmaps, (unsigned)steps ) );
}
VF_FAMILY( map_char, 250, 6000 ) {
	mapping_history<char>( c );
}
VF_FAMILY( map_byte, 120, 2000 ) {
	mapping_history<unsigned char>( c );
}
VF_FAMILY( map_const, 120, 2000 ) {
	mapping_history<char const>( c );
}
VF_FAMILY( map_wide, 120, 2000 ) {
	mapping_history<std::uint32_t>( c );
}
VF_FAMILY( map_char16, 120, 2000 ) {
	mapping_history<char16_t>( c );
}
// a read-only mapping refuses writes, a directory is not a file
VF_FAMILY( map_protection, 6, 20 ) {
	auto p = g_dir.put( "p", "hello" );
	c.op( "write to a read mapping" );
	auto e = vf::outcome( [&] {
		signal( SIGSEGV, SIG_DFL );
		signal( SIGBUS, SIG_DFL );
		MM<char> f( p );
		f[1] = 'X';
	} );
	VF_TRUE( c, "not writable", e != vf::End::returned );
	VF_TRUE( c, "file untouched", g_dir.get( "p" ) == "hello" );
	MM<char> d( g_dir.dir );
	closed<char>( c, d );
	c.nontrivial( 1 );
}
VF_MAIN( )
