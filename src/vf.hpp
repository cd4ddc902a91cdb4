// Harness framework: case runner with shards, deterministic PRNG, counters, replay files, watchdog.
#pragma once
#include <stdint.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <functional>
namespace vf {

struct Rng
{
	uint64_t s;
	explicit Rng( uint64_t seed=1) :s(seed) {}
	uint64_t u64() { uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}
	uint64_t below( uint64_t n) { return n?u64()%n:0;}
	int64_t range( int64_t a, int64_t b) { return a+(int64_t)below( b-a+1);}	// inclusive
	bool chance( unsigned p, unsigned q) { return below(q)<p;}
	template <class T> const T& pick( const std::vector<T>& v) { return v[ below( v.size())];}
	template <class C> char32_t pickc( const C& v) { return v[ below( v.size())];}
};
inline uint64_t mix( uint64_t a, uint64_t b) { Rng r(a*0x9E3779B97F4A7C15ull ^ b); r.u64(); return r.u64();}

inline uint64_t hash( const void* p, size_t n, uint64_t h=1469598103934665603ull)
{
	const unsigned char* c=(const unsigned char*)p; for (size_t i=0;i<n;++i) {h^=c[i]; h*=1099511628211ull;} return h;
}
inline uint64_t hash( const std::string& s) {return hash( s.data(), s.size());}

// ---- reporting (implemented in vf.cpp)
void count( const char* name, uint64_t n=1);			// observation counter
void maxv( const char* name, uint64_t n);			// maximum observed
void distinct( uint64_t h);					// distinct non trivial case (by the rule of the check)
void distinctN( uint64_t n);					// n cases known to be distinct from all others
void seen( const char* set, uint64_t h);			// named set of distinct observations
void sample( const std::string& s);				// an actual case, written out (the first few are kept)
void note( const std::string& s);				// description of the current case (used if it crashes)
[[noreturn]] void fail( const std::string& what);		// the property is violated by the current case
void known( const char* key, const std::string& what);		// report a violation listed in the known findings file, else fail
bool verbose();
bool thorough();
uint64_t seed();

std::string show( const std::string& s, size_t max=600);	// printable with escapes
std::string num( uint64_t n);
inline std::string operator+( const std::string& a, uint64_t n) {return a+num(n);}

// Defined by the check:
struct Check
{
	const char* id;
	uint64_t quickCases, thoroughCases;
	const char* rule;
	unsigned shards;			// 0 = default
	unsigned cpuLimit;			// seconds of CPU time for one case, then it counts as not terminating
};
extern const Check check;
void init();					// called once in the parent before forking (single probes)
void run( uint64_t idx, Rng& rng);		// one case

// allocation balance (address sanitizer hooks); -1 if not available
int64_t liveAllocs();
}
using vf::operator+;
