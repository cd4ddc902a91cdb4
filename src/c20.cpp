// C20: objects used in different threads or interleaved in one thread do not affect each other (also as first users in the process)
// This program is compiled with the thread sanitizer; every case runs in new processes in which nothing of the library was used before
#include "objs.hpp"
#include "pathmodel.hpp"
#include "gendoc.hpp"
#include <atomic>
#include <thread>
#include <unistd.h>
#include <sys/wait.h>
#include <sched.h>
namespace vf {
const Check check={"C20",1600,60000,"distinct (objects, scripts, schedule observed) triples",0,120};
typedef std::string Str;
typedef std::vector<Str> Log;
void init() {}
struct Task
{
	unsigned kind; uint64_t seed; int shared; 	// shared: index of the shared world or -1
	size_t len; World* w; Obj* o; Script script; Log log; size_t pos; bool own;
	Task() :kind(0),seed(0),shared(-1),len(0),w(0),o(0),pos(0),own(false) {}
	void open( World* sw) {if (sw) {w=sw; own=false;} else {Rng q( seed); w=makers()[kind]( q); own=true;} Rng q( seed+1); for (size_t i=0;i<len;++i) script.push_back( w->op( q)); }
	void start() {o=w->fresh();}
	bool step() {if (pos>=script.size()) return false; log.push_back( o->step( script[pos])); ++pos; return pos<script.size();}
	void close() {delete o; o=0; if (own) delete w; w=0;}
};
static void put( int fd, const Str& s) {size_t p=0; while (p<s.size()) {ssize_t n=write( fd, s.data()+p, s.size()-p); if (n<=0) _exit( 3); p+=n;}}
static Str getAll( int fd) {Str r; char b[65536]; ssize_t n; while ((n=read( fd, b, sizeof(b)))>0) r.append( b, n); return r;}
static Str pack( const Log& l) {Str r; for (auto& x:l) {uint32_t n=x.size(); r.append( (const char*)&n, 4); r+=x;} return r;}
static Log unpack( const Str& s) {Log l; size_t p=0; while (p+4<=s.size()) {uint32_t n; memcpy( &n, s.data()+p, 4); p+=4; l.push_back( s.substr( p, n)); p+=n;} return l;}
// run f in a new process, what it writes is returned
template <class F> static Str child( F f, int& status)
{
	int fd[2]; if (pipe( fd)) {fprintf( stderr, "pipe failed\n"); _exit( 3);}
	pid_t p=fork(); if (p<0) {fprintf( stderr, "fork failed\n"); _exit( 3);}
	if (!p) {::close( fd[0]); f( fd[1]); _exit( 0);}
	::close( fd[1]); Str r=getAll( fd[0]); ::close( fd[0]); waitpid( p, &status, 0); return r;
}
static Str compare( const Task& t, const Log& ref)
{
	for (size_t i=0;i<ref.size()||i<t.log.size();++i)
	{
		if (i>=ref.size()||i>=t.log.size()) return "number of results differs";
		if (ref[i]!=t.log[i]) return "operation "+num(i)+" yields '"+show( t.log[i], 300)+"', alone '"+show( ref[i], 300)+"'";
	}
	return Str();
}
static std::atomic<unsigned> g_tick, g_ready; static std::atomic<bool> g_go; enum {MaxTick=20000}; static std::atomic<unsigned char> g_sched[ MaxTick];
static void tick( unsigned thread) {unsigned t=g_tick.fetch_add( 1, std::memory_order_relaxed); if (t<MaxTick) g_sched[t].store( thread, std::memory_order_relaxed);}
void run( uint64_t idx, Rng& r)
{
	static const Script warm; (void)warm; gd::ents(); pm::vocab();	// (initialised here: no synchronisation of the threads by the harness)
	const unsigned nk=makers().size(), mode=r.below(4);	// 0: interleaved in one thread; 1..3: threads
	unsigned nt=mode?2+r.below(7):1, ntasks=mode?nt+r.below( nt+1):2+r.below(6);
	bool same=r.chance(1,3); unsigned k0=r.below( nk); unsigned focus=r.below(3);
	std::vector<Task> tasks( ntasks); std::vector<std::pair<unsigned,uint64_t> > sharedWorlds; Str what;
	for (unsigned i=0;i<ntasks;++i)
	{
		Task& t=tasks[i]; t.kind=same?(i&&focus==2?(k0+i)%nk:k0):r.below( nk); t.seed=(i && r.chance(1,6))?tasks[i-1].seed:r.u64(); t.len=1+r.below( r.chance(1,4)?100:20);
		Rng q( t.seed); 
		// share the read only part (automaton, entity map, source) with a task before
		for (unsigned j=0;j<i && t.shared<0;++j) if (tasks[j].kind==t.kind && tasks[j].shared>=0 && r.chance(2,3)) {t.shared=tasks[j].shared; t.seed=tasks[j].seed+(r.chance(1,3)?0:1+r.below(1000)); }
		if (t.shared<0 && r.chance(1,2)) {t.shared=sharedWorlds.size(); sharedWorlds.push_back( std::make_pair( t.kind, t.seed));}
		what+=num( t.kind)+(t.shared>=0?"s":"")+" ";
	}
	note( Str(mode?"threads ":"interleaved ")+num(nt)+" kinds of objects: "+what); if (idx<200&&idx%53==0) sample( Str(mode?"threads ":"interleaved ")+num(nt)+" kinds of objects: "+what);
	count( mode?"multi threaded cases":"interleaved cases"); count( "threads", mode?nt:0); count( "objects", ntasks);
	auto world=[&]( const Task& t) {const std::pair<unsigned,uint64_t>& s=sharedWorlds[ t.shared]; Rng q( s.second); World* w=makers()[ s.first]( q); if (!w->shareable()) {delete w; return (World*)0;} return w;};
	// reference: each one alone in its own process
	std::vector<Log> ref( ntasks); int st;
	for (unsigned i=0;i<ntasks;++i)
	{
		Str o=child( [&]( int fd) {Task& t=tasks[i]; World* sw=t.shared>=0?world( t):0; t.open( sw); t.start(); while (t.step()); put( fd, pack( t.log)); delete t.o;}, st);
		if (st) fail( "object used alone: process died with status "+num(st)); ref[i]=unpack( o); count( "operations", ref[i].size());
	}
	uint64_t ss=r.u64(); bool openInThread=r.chance(2,3); unsigned yields=r.below(4);
	Str o=child( [&]( int fd)
	{
		std::vector<World*> sw; for (auto& s:sharedWorlds) {Rng q( s.second); World* w=makers()[ s.first]( q); if (!w->shareable()) {delete w; w=0;} sw.push_back( w);}
		auto open=[&]( Task& t) {t.open( t.shared>=0?sw[ t.shared]:0);};
		uint64_t sched=1; unsigned switches=0; Str info;
		if (!mode)
		{
			Rng q( ss); unsigned left=0; for (auto& t:tasks) {open( t); ++left;}
			std::vector<int> state( ntasks, 0); int last=-1;
			while (left)
			{
				unsigned i=q.below( ntasks); if (state[i]==2) continue; if (last!=(int)i) {++switches; last=i;} sched=mix( sched, i);
				if (!state[i]) {tasks[i].start(); state[i]=1; continue;}
				unsigned m=q.chance(1,4)?1+q.below(8):1; bool more=true; while (m-- && more) more=tasks[i].step();
				if (!more) {state[i]=2; --left; tasks[i].close();}
			}
		}
		else
		{
			if (!openInThread) for (auto& t:tasks) open( t);
			std::vector<std::thread> th; g_ready=0; g_go=false; g_tick=0;
			for (unsigned k=0;k<nt;++k) th.emplace_back( [&,k]
			{
				Rng q( ss+k); g_ready.fetch_add( 1, std::memory_order_relaxed); while (!g_go.load( std::memory_order_acquire));
				// the tasks of this thread, some after another, some interleaved
				std::vector<Task*> my; for (unsigned i=k;i<ntasks;i+=nt) my.push_back( &tasks[i]);
				if (yields==3) for (unsigned n=q.below( 3000);n>0;--n) g_ready.load( std::memory_order_relaxed);
				for (auto* t:my) {if (openInThread) open( *t); tick( k); t->start();}
				size_t left=my.size(); 
				while (left)
				{
					Task* t=my[ q.below( my.size())]; if (!t->o) continue; tick( k);
					if (yields==1 && q.chance(1,8)) sched_yield(); if (yields==2 && q.chance(1,4)) for (unsigned n=q.below( 500);n>0;--n) g_ready.load( std::memory_order_relaxed);
					if (!t->step()) {t->close(); --left;}
				}
			});
			while (g_ready.load( std::memory_order_relaxed)<nt) sched_yield();
			g_go.store( true, std::memory_order_release);
			for (auto& t:th) t.join();
			unsigned n=std::min( g_tick.load(), (unsigned)MaxTick); int last=-1; for (unsigned i=0;i<n;++i) {int k=g_sched[i].load(); sched=mix( sched, k); if (k!=last) {++switches; last=k;}}
		}
		for (unsigned i=0;i<ntasks;++i) {Str e=compare( tasks[i], ref[i]); if (!e.empty()) {put( fd, "E object "+num(i)+" (kind "+num( tasks[i].kind)+"): "+e); _exit( 77);}}
		for (auto* w:sw) delete w;
		put( fd, "K"+num( sched)+" "+num( switches));
	}, st);
	if (st) fail( (o.empty()?"process died with status "+num(st)+" (data race or crash, see the log)":o));
	char* e; uint64_t sched=strtoull( o.c_str()+1, &e, 10); uint64_t sw=strtoull( e, 0, 10);
	seen( mode?"schedules of threads":"schedules of one thread", mix( sched, ss*(mode==0))); count( mode?"switches between threads (by operation)":"switches between objects", sw); seen( "kinds of objects used", k0); for (auto& t:tasks) seen( "kinds of objects used", t.kind);
	distinct( mix( sched, hash( what)+ss));
}
}
