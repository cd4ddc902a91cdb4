#include "vf.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <exception>
#include <typeinfo>
#include <fstream>
#include <algorithm>
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" void __sanitizer_set_death_callback( void (*)(void));
#define HAVE_DEATH_CB 1
#endif
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks( void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" const char* __asan_default_options() {return "detect_leaks=0:hard_rss_limit_mb=3500:max_allocation_size_mb=2500:exitcode=99:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=8:quarantine_size_mb=32";}
extern "C" const char* __ubsan_default_options() {return "print_stacktrace=1:exitcode=99:halt_on_error=1";}
#endif
#if defined(__SANITIZE_THREAD__)
extern "C" const char* __tsan_default_options() {return "exitcode=99:halt_on_error=1:second_deadlock_stack=1";}
#endif
namespace vf {
struct Shared { volatile uint64_t cur, done; };
static Shared* g_shared = 0;
static unsigned g_shard = 0;
static uint64_t g_seed = 1, g_case = 0;
static bool g_thorough=false, g_verbose=false;
static std::string g_dir = ".", g_note;
static std::map<std::string,uint64_t> g_count, g_max;
static std::map<std::string,std::unordered_set<uint64_t> > g_sets;
static std::unordered_set<uint64_t> g_distinct;
static std::vector<std::string> g_samples;
static std::set<std::string> g_knownkeys;
static std::map<std::string,std::string> g_known;
static bool g_inparent = true;
// Statistics are collected by the main thread only: a lock would order the accesses of the threads and hide data races from the race detector
static thread_local bool g_mainthread = false;

void count( const char* n, uint64_t k) {if (g_mainthread) g_count[n]+=k;}
void maxv( const char* n, uint64_t k) {if (!g_mainthread) return; uint64_t& v=g_max[n]; if (k>v) v=k;}
static uint64_t g_distinctN = 0;
void distinctN( uint64_t n) {if (g_mainthread) g_distinctN+=n;}
void distinct( uint64_t h) {if (g_mainthread) g_distinct.insert(h);}
void seen( const char* s, uint64_t h) {if (g_mainthread) g_sets[s].insert(h);}
void sample( const std::string& s) {if (g_mainthread && g_samples.size()<2) g_samples.push_back( s.substr(0,1500));}
void note( const std::string& s) {if (g_mainthread) g_note = s;}
bool verbose() {return g_verbose;}
bool thorough() {return g_thorough;}
uint64_t seed() {return g_seed;}
std::string num( uint64_t n) {std::ostringstream o; o<<n; return o.str();}
std::string show( const std::string& s, size_t max)
{
	std::string r; static const char* hx="0123456789abcdef";
	for (size_t i=0;i<s.size();++i)
	{
		if (i>=max) {r+="...("+num(s.size())+" bytes)"; break;}
		unsigned char c=s[i];
		if (c=='\\') r+="\\\\"; else if (c=='\n') r+="\\n"; else if (c=='\r') r+="\\r"; else if (c=='\t') r+="\\t";
		else if (c<32||c>126) {r+="\\x"; r+=hx[c>>4]; r+=hx[c&15];} else r+=c;
	}
	return r;
}
static std::string replayName() {return g_dir + "/" + check.id + "-s" + num(g_seed) + (g_thorough?"-t":"-q") + "-" + num(g_case) + ".replay";}
static void writeReplay( const std::string& what)
{
	std::ofstream f( replayName().c_str());
	f << "check " << check.id << "\nseed " << g_seed << "\ntier " << (g_thorough?"thorough":"quick") << "\ncase " << g_case << "\n\n" << what << "\n";
	if (!g_note.empty()) f << "\ncase description:\n" << g_note << "\n";
}
void fail( const std::string& what)
{
	writeReplay( what);
	fprintf( stderr, "FAIL %s case %llu: %s\n%s\n", check.id, (unsigned long long)g_case, what.substr(0,3000).c_str(), g_note.substr(0,3000).c_str());
	fflush( stderr);
	_exit( 77);
}
void known( const char* key, const std::string& what)
{
	if (!g_knownkeys.count( key)) fail( std::string("not listed as known finding (") + key + "): " + what);
	g_known[ key] = what;
}
static void onDeath()
{
	writeReplay( "sanitizer report or crash, see the .log file beside this file");
}
static void onTime( int)
{
	writeReplay( "the case did not terminate within " + num( check.cpuLimit) + " s of CPU time");
	_exit( 78);
}
static int64_t g_live = 0; static bool g_hooks=false;
static void onMalloc( const volatile void*, size_t) {++g_live;}
static void onFree( const volatile void* p) {if (p) --g_live;}
int64_t liveAllocs() {return g_hooks?g_live:-1;}

static void runCase( uint64_t idx)
{
	g_case = idx; g_note.clear();
	if (check.cpuLimit)
	{
		struct itimerval it; memset( &it, 0, sizeof(it)); it.it_value.tv_sec = check.cpuLimit;
		setitimer( ITIMER_PROF, &it, 0);
	}
	Rng rng( mix( mix( g_seed, hash( check.id, strlen(check.id))), idx));
	try { run( idx, rng); }
	catch (const std::exception& e) {fail( std::string("unexpected exception: ")+typeid(e).name()+": "+(e.what()?e.what():"(null)"));}
	catch (...) {fail( "unexpected exception of unknown type");}
}
static void setup()
{
#ifdef HAVE_DEATH_CB
	__sanitizer_set_death_callback( onDeath);
#endif
	struct sigaction sa; memset( &sa, 0, sizeof(sa)); sa.sa_handler = onTime; sigaction( SIGPROF, &sa, 0);
}
static void dump( const std::string& fn)
{
	std::ofstream f( fn.c_str());
	for (auto& x:g_count) f << "C " << x.second << " " << x.first << "\n";
	for (auto& x:g_max) f << "M " << x.second << " " << x.first << "\n";
	f << "N " << g_distinctN << "\n";
	for (auto& x:g_distinct) f << "D " << x << "\n";
	for (auto& s:g_sets) for (auto& x:s.second) f << "S " << x << " " << s.first << "\n";
	for (auto& x:g_samples) f << "E " << show( x, 1500) << "\n";
	for (auto& x:g_known) f << "K " << x.first << " " << show( x.second, 800) << "\n";
}
static pid_t spawn( unsigned shard, unsigned nshards, uint64_t ncases, int64_t single, const std::string& log, const std::string& out)
{
	fflush( stdout); fflush( stderr);
	pid_t p = fork();
	if (p) return p;
	g_inparent = false; g_shard = shard; g_count.clear(); g_max.clear(); g_sets.clear(); g_distinct.clear(); g_samples.clear(); g_known.clear(); g_distinctN=0;
	int fd = open( log.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0644); if (fd>=0) {dup2( fd, 2); close(fd);}
	setup();
	time_t t0 = time(0); unsigned cap = g_thorough?780:240;
	uint64_t did=0, lim=ncases;
	if (single>=0) {runCase( single);}
	else for (uint64_t i=shard; i<lim; i+=nshards)
	{
		g_shared[shard].cur = i;
		runCase( i);
		g_shared[shard].done = ++did;
		if (time(0)-t0 > (time_t)cap) {count( "stopped early by wall clock cap"); break;}
	}
	struct itimerval it; memset( &it, 0, sizeof(it)); setitimer( ITIMER_PROF, &it, 0);
	dump( out);
	_exit( 0);
}
}
using namespace vf;
int main( int argc, char** argv)
{
	g_mainthread = true;
	std::string out = "out.txt", known;
	int64_t single=-1; uint64_t ncases=0; unsigned shards=0;
	for (int i=1;i<argc;++i)
	{
		std::string a=argv[i];
		if (a=="--seed") g_seed=strtoull(argv[++i],0,10);
		else if (a=="--thorough") g_thorough=true;
		else if (a=="--dir") g_dir=argv[++i];
		else if (a=="--out") out=argv[++i];
		else if (a=="--known") known=argv[++i];
		else if (a=="--case") single=strtoll(argv[++i],0,10);
		else if (a=="--cases") ncases=strtoull(argv[++i],0,10);
		else if (a=="--shards") shards=atoi(argv[++i]);
		else if (a=="-v") g_verbose=true;
		else {fprintf(stderr,"unknown option %s\n",a.c_str()); return 2;}
	}
	{ std::istringstream is( known); std::string k; while (std::getline( is, k, ',')) if (!k.empty()) g_knownkeys.insert(k); }
	if (!ncases) ncases = g_thorough?check.thoroughCases:check.quickCases;
	if (!shards) shards = check.shards?check.shards:8;
	if (shards > 64) shards = 64;
#if defined(__SANITIZE_ADDRESS__)
	g_hooks = __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree) > 0;
#endif
	g_shared = (Shared*)mmap( 0, sizeof(Shared)*64, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	g_case = (uint64_t)-1;
	if (single>=0)
	{
		setup(); vf::init(); runCase( single);
		printf( "case %lld passed\n", (long long)single);
		return 0;
	}
	// init in a child first? probes are part of the check: run them in the parent process of the shards
	{
		setup();
		g_case = 999999999;
		struct itimerval it; memset( &it, 0, sizeof(it)); it.it_value.tv_sec = 60; setitimer( ITIMER_PROF, &it, 0);
		try { vf::init(); }
		catch (const std::exception& e) {fail( std::string("unexpected exception in probe: ")+typeid(e).name());}
	}
	std::map<pid_t,unsigned> run_;
	for (unsigned s=0; s<shards; ++s) run_[ spawn( s, shards, ncases, -1, out+"."+num(s)+".log", out+"."+num(s))] = s;
	bool bad=false; std::string badreplay, badlog;
	while (!run_.empty())
	{
		int st; pid_t p = waitpid( -1, &st, 0);
		if (p < 0) break;
		std::map<pid_t,unsigned>::iterator it=run_.find(p); if (it==run_.end()) continue;
		unsigned s=it->second; run_.erase(it);
		if (WIFEXITED(st) && WEXITSTATUS(st)==0) continue;
		g_case = g_shared[s].cur;
		std::string log = out+"."+num(s)+".log";
		bool isbad = true;
		std::string rn = replayName();
		if (WIFEXITED(st) && WEXITSTATUS(st)==78)
		{
			// confirm in a fresh process
			pid_t q = spawn( s, shards, ncases, (int64_t)g_case, log+".confirm", out+".confirm");
			int st2; waitpid( q, &st2, 0);
			if (WIFEXITED(st2) && WEXITSTATUS(st2)==0) {isbad=false; fprintf( stderr, "time out of case %llu not confirmed\n", (unsigned long long)g_case);}
		}
		else if (WIFSIGNALED(st) && WTERMSIG(st)==SIGKILL)
		{
			// ended from outside (memory guard): not a verdict about the code
			fprintf( stderr, "shard %u was killed\n", s); 
			for (auto& x:run_) kill( x.first, SIGKILL);
			return 3;
		}
		else if (!(WIFEXITED(st) && WEXITSTATUS(st)==77))
		{
			g_note.clear();
			if (access( rn.c_str(), R_OK)!=0) writeReplay( "the process died with status "+num(st));
		}
		if (isbad)
		{
			std::string cmd = "cp '"+log+"' '"+rn+".log' 2>/dev/null"; if (system( cmd.c_str())) {}
			if (!bad) {bad=true; badreplay=rn; badlog=log;}
			for (auto& x:run_) kill( x.first, SIGTERM);
		}
	}
	if (bad)
	{
		std::ifstream f( badlog.c_str()); std::string l; int n=0; while (n++<40 && std::getline( f, l)) fprintf( stderr, "%s\n", l.substr(0,2000).c_str());
		printf( "VIOLATION property=%s replay=%s\n", check.id, badreplay.c_str());
	}
	// merge
	uint64_t distn=0, done=0; for (unsigned s=0;s<shards;++s) done += g_shared[s].done;
	std::map<std::string,std::unordered_set<uint64_t> > sets; std::map<std::string,uint64_t> maxs=g_max, counts=g_count; std::unordered_set<uint64_t> dist=g_distinct;
	std::vector<std::string> samples; for (auto& x:g_samples) samples.push_back( show( x, 1500)); std::map<std::string,std::string> kn; for (auto& x:g_known) kn[x.first]=show(x.second,800);
	for (unsigned s=0;s<shards;++s)
	{
		std::ifstream f( (out+"."+num(s)).c_str()); std::string l;
		while (std::getline( f, l))
		{
			std::istringstream is( l.substr(2)); uint64_t v; std::string n;
			switch (l[0])
			{
				case 'C': is>>v; is.get(); std::getline( is, n); counts[n]+=v; break;
				case 'M': is>>v; is.get(); std::getline( is, n); maxs[n]=std::max( maxs[n], v); break;
				case 'N': is>>v; distn+=v; break;
				case 'D': is>>v; dist.insert(v); break;
				case 'S': is>>v; is.get(); std::getline( is, n); sets[n].insert(v); break;
				case 'E': if (samples.size()<4) samples.push_back( l.substr(2)); break;
				case 'K': is>>n; kn[n]=l.substr( 3+n.size()); break;
			}
		}
	}
	auto js=[]( const std::string& s) {std::string r="\""; for (char c:s) {if (c=='"'||c=='\\') r+='\\'; r+=c;} return r+"\"";};
	std::ofstream o( out.c_str());
	o << "{\"evaluations\":"<<done<<",\"distinct_nontrivial\":"<<dist.size()+distn<<",\"planned\":"<<ncases<<",\"rule\":"<<js(check.rule)<<",\"samples\":[";
	for (size_t i=0;i<samples.size();++i) o<<(i?",":"")<<js(samples[i]);
	o<<"],\"observed\":{"; bool first=true;
	for (auto& x:counts) {o<<(first?"":",")<<js(x.first)<<":"<<x.second; first=false;}
	for (auto& x:maxs) {o<<(first?"":",")<<js("max "+x.first)<<":"<<x.second; first=false;}
	for (auto& x:sets) {o<<(first?"":",")<<js("distinct "+x.first)<<":"<<x.second.size(); first=false;}
	o<<"},\"known\":{"; first=true;
	for (auto& x:kn) {o<<(first?"":",")<<js(x.first)<<":"<<js(x.second); first=false;}
	o<<"},\"violations\":"<<(bad?1:0)<<"}\n";
	return bad?1:0;
}
