// C19: copies and assigned objects are independent and behave the same, every resource is released exactly once
#include "objs.hpp"
#include "textwolf/exception.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/istreamiterator.hpp"
#include <new>
// ---- failing allocations: the n-th allocation from now fails (once)
static long g_failIn=-1; static unsigned long g_allocs=0; static bool g_failed=false;
static bool failNow() {++g_allocs; if (g_failIn>0 && --g_failIn==0) {g_failIn=-1; g_failed=true; return true;} return false;}
extern "C" {
void* __real_malloc( size_t); void* __real_calloc( size_t, size_t); void* __real_realloc( void*, size_t);
void* __wrap_malloc( size_t n) {return failNow()?0:__real_malloc( n);}
void* __wrap_calloc( size_t k, size_t n) {return failNow()?0:__real_calloc( k, n);}
void* __wrap_realloc( void* p, size_t n) {return failNow()?0:__real_realloc( p, n);}
}
void* operator new( size_t n) {if (failNow()) throw std::bad_alloc(); void* p=__real_malloc( n?n:1); if (!p) throw std::bad_alloc(); return p;}
void* operator new[]( size_t n) {return operator new( n);}
void operator delete( void* p) noexcept {free( p);}
void operator delete[]( void* p) noexcept {free( p);}
void operator delete( void* p, size_t) noexcept {free( p);}
void operator delete[]( void* p, size_t) noexcept {free( p);}
namespace vf {
const Check check={"C19",80000,1500000,"distinct (kind of object, sequences of operations, point and way of copying) triples",0,60};
using textwolf::throws_exception;
void init() {}
// reading from a stream fails at some point: what was allocated is released, also by a constructor that is left with the exception
struct FailStream :textwolf::IStream
{
	const Str& d; size_t pos, at, block; bool fail; FailStream( const Str& d_, size_t at_, size_t b) :d(d_),pos(0),at(at_),block(b),fail(false) {}
	size_t read( void* p, size_t n) {n=std::min( std::min( n, block), std::min( d.size(), at)-pos); memcpy( p, d.data()+pos, n); pos+=n; if (pos>=at) fail=true; return n;}
	int errorcode() const {return fail?5:0;}
};
static void failingStream( Rng& r)
{
	using namespace textwolf; typedef XMLScanner<IStreamIterator,charset::UTF8,charset::UTF8,Str> S;
	Str d="<a b='c'>"; for (size_t n=r.below(40);n;--n) d+="text <b/> "; d+="</a>"; const size_t bs=1+r.below( r.chance(1,2)?8:400), block=1+r.below( 60), at=r.chance(1,4)?0:r.below( d.size()); const unsigned copies=r.below(4); int64_t live=0; unsigned thrown=0;
	note( "stream failing after "+num(at)+" of "+num( d.size())+" bytes, buffer size "+num( bs)+" block size "+num( block)+" copies "+num( copies));
	for (unsigned pass=0;pass<3;++pass)
	{
		const int64_t before=liveAllocs(); thrown=0;
		{
			FailStream st( d, at, block);
			try
			{
				IStreamIterator it( &st, bs); S sc( it); IStreamIterator c; if (copies&1) c=it;
				for (unsigned k=0;k<200;++k) {if (copies&2 && k%16==3) {S s2( sc); IStreamIterator i2( sc.getIterator()); c=i2; s2.nextItem();} int t=sc.nextItem(); if (t==S::Exit||t==S::ErrorOccurred) break;}
			}
			catch (const textwolf::exception& e) {if (e.cause!=throws_exception::FileReadError) fail( Str("read error reported as ")+e.what()); ++thrown;}
		}
		live=liveAllocs()-before; if (pass && live) fail( num( live)+" allocations not released after a read error");
	}
	if (!thrown && !(copies&2)) fail( "read error not reported");	// (copies read from the same stream)
	count( "failing streams"); if (at==0) count( "constructors left with an exception");
}
static std::vector<Str> refrun( World* w, const Script& s) {std::vector<Str> o; Obj* x=w->fresh(); for (auto& p:s) o.push_back( x->step( p)); delete x; return o;}
struct Actor
{
	Obj* o; const Script* s; const std::vector<Str>* ref; size_t pos; const char* what;
	bool done() const {return !o || pos>=s->size();}
	void step()
	{
		Str g=o->step( (*s)[pos]);
		if (g!=(*ref)[pos]) vf::fail( Str(what)+": operation "+num(pos)+" yields '"+show( g, 300)+"', expected '"+show( (*ref)[pos], 300)+"'");
		++pos;
	}
};
void run( uint64_t idx, Rng& r)
{
	if (idx%40==11) {failingStream( r); return;}
	const unsigned k=r.below( makers().size()); World* w=makers()[k]( r); Script s1, s2, s3; size_t n=1+r.below( w->length());
	for (size_t i=0;i<n;++i) s1.push_back( w->op( r));
	size_t p=r.below( n+1); for (size_t i=0;i<p;++i) s2.push_back( s1[i]); for (size_t i=r.below( w->length());i>0;--i) s2.push_back( w->op( r)); for (size_t i=r.below( 6);i>0;--i) s3.push_back( w->op( r));
	if (r.chance(1,3)) s2=s1;
	std::vector<Str> r1=refrun( w, s1), r2=refrun( w, s2);
	unsigned mode=r.below(6); static const char* modes[]={"copy","assignment to a fresh object","assignment to a used object","assignment to itself","copy of a copy","several copies"};
	note( Str(w->name())+" ("+num(k)+"), "+modes[mode]+" after "+num(p)+" of "+num(n)+" operations"); if (idx<100&&idx%23==0) sample( Str(w->name())+", "+modes[mode]+" after "+num(p)+" of "+num(n)+" operations");
	count( modes[mode]); count( w->name()); count( "operations compared", s1.size()+s2.size());
	if (s3.size()) {Obj* x=w->other(); for (auto& o:s3) x->step( o); delete x;} // (warm up: nothing of the library is initialised later)
	Actor a[4]; Rng rr( r.u64()); Str none;
	int64_t live=liveAllocs(); size_t extra=0; (void)extra;
	{
		unsigned na=1; a[0].o=w->fresh(); a[0].s=&s1; a[0].ref=&r1; a[0].pos=0; a[0].what="original";
		for (size_t i=0;i<p;++i) a[0].step();
		auto add=[&]( Obj* o) {a[na].o=o; a[na].s=&s2; a[na].ref=&r2; a[na].pos=p; a[na].what="copy"; ++na;};
		switch (mode)
		{
			case 0: add( a[0].o->copy()); break;
			case 1: {Obj* x=w->fresh(); x->assign( a[0].o); add( x); break;}
			case 2: {Obj* x=w->other(); for (auto& o:s3) x->step( o); x->assign( a[0].o); add( x); break;}
			case 3: a[0].o->assign( a[0].o); break;
			case 4: {Obj* x=a[0].o->copy(); Obj* y=x->copy(); if (rr.chance(1,2)) x->step( s1[0]); delete x; add( y); break;}
			default: add( a[0].o->copy()); {Obj* x=w->other(); x->assign( a[1].o); add( x);} add( a[2].o->copy()); a[3].s=&s1; a[3].ref=&r1; break;
		}
		if (rr.chance(1,2)) {std::swap( a[0].s, a[na-1].s); std::swap( a[0].ref, a[na-1].ref);}
		unsigned left=na;
		while (left)
		{
			unsigned i=rr.below( na); if (!a[i].o) continue;
			if (a[i].done() || rr.chance(1,60)) {delete a[i].o; a[i].o=0; --left; continue;}
			unsigned m=rr.chance(1,3)?1+rr.below(10):1; while (m-- && !a[i].done()) a[i].step();
		}
	}
	delete w; 
	(void)live;
	// balance of allocations, failing allocations
	uint64_t ws=r.u64(); 
	{
		int64_t before=liveAllocs(); {Rng q( ws); World* v=makers()[k]( q); Obj* x=v->fresh(); Rng q2( ws+1); for (size_t i=0;i<n;++i) {Op o=v->op( q2); x->step( o);} Obj* y=x->copy(); y->assign( x); delete x; delete y; delete v;} int64_t between=liveAllocs();
		{Rng q( ws); World* v=makers()[k]( q); Obj* x=v->fresh(); Rng q2( ws+1); for (size_t i=0;i<n;++i) {Op o=v->op( q2); x->step( o);} Obj* y=x->copy(); y->assign( x); delete y; delete x; delete v;} int64_t after=liveAllocs(); (void)before;
		if (after!=between) fail( Str("")+num( after-between)+" allocations not released (copy and assignment)");
	}
	if (r.chance(1,2))
	{
		// one of the allocations fails; everything has to be released nevertheless
		static unsigned long total; total=0; unsigned result=0;
		for (unsigned pass=0;pass<4;++pass)	// pass 0: number of allocations, everything initialised once; pass 1: balance without failure
		{
			unsigned long at=pass>1?1+rr.below( total?total:1):0; const int64_t before=liveAllocs(); unsigned usedAfter=0;
			{
				Rng q( ws); World* v=makers()[k]( q); Script sc; {Rng q2( ws+1); for (size_t i=0;i<n;++i) sc.push_back( v->op( q2));}
				Obj *x=0, *y=0, *z=v->other(); bool assigning=false; g_failed=false; result=0;
				unsigned long c0=g_allocs; g_failIn=pass>1?(long)at:-1;
				try
				{
					x=v->fresh(); for (size_t i=0;i<n/2;++i) x->step( sc[i]); y=x->copy(); assigning=true; z->assign( x); assigning=false; for (size_t i=n/2;i<n;++i) {x->step( sc[i]); y->step( sc[i]);}
				}
				catch (const std::bad_alloc&) {result=1;}
				catch (const textwolf::exception& e) {result=e.cause==throws_exception::OutOfMem?2:3;}
				g_failIn=-1; if (!pass) total=g_allocs-c0;
				// the objects may not have the expected contents anymore, but using them is memory safe (except the target of an assignment that failed)
				if (g_failed && rr.chance(1,2))
				{
					afterFailure()=true;
					for (Obj* o:{x,y,assigning?(Obj*)0:z}) if (o) for (size_t i=0;i<n;++i) {try {o->step( sc[ rr.below( n)]);} catch (const std::exception&) {++usedAfter;}}
					++usedAfter; afterFailure()=false;
				}
				delete x; delete y; delete z; delete v;
			}
			const int64_t after=liveAllocs(); if (usedAfter) count( "objects used after a failed allocation");
			if (pass>1) {count( "failing allocations"); if (g_failed) count( result==0?"failing allocation without exception":result==1?"std::bad_alloc":result==2?"exception OutOfMem":"other exception");}
			if (g_failed && result==3) fail( "exception of another cause than OutOfMem after a failing allocation");
			if (pass && after!=before) fail( num( after-before)+" allocations not released"+(pass>1?" after allocation "+num(at)+" of "+num(total)+" failed":Str()));
		}
	}
	distinct( mix( mix( k*8+mode, hash( r1.empty()?Str():r1.back())), mix( n*1000+p, r2.size())));
	seen( "kinds and ways of copying", k*8+mode);
}
}
