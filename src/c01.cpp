// C01: character sets encode and decode exactly as their standards say (exhaustive over the scalar values of every character set)
#include "cs.hpp"
#include "textwolf/ostreamoutput.hpp"
#include <algorithm>
#include <sstream>
using namespace cs;
namespace vf {
enum {B=2048};
// blocks: per character set the scalar values, then samples of the values beyond Unicode
struct Job {int id,page; uint32_t from,to; bool beyond;};
static std::vector<Job> jobs;
static void build()
{
	for (int id=0;id<enc::ISO;++id)
	{
		uint32_t max=(id==enc::UCS2LE||id==enc::UCS2BE)?0x10000:0x110000;
		for (uint32_t f=0;f<max;f+=B) jobs.push_back( Job{id,1,f,f+B,false});
		if (id==enc::UTF8||id==enc::UCS4LE||id==enc::UCS4BE) for (int k=0;k<24;++k) jobs.push_back( Job{id,1,0,0,true});
	}
	for (int p=1;p<=9;++p) for (int k=0;k<4;++k) jobs.push_back( Job{enc::ISO,p,0,0,false});
}
extern const Check check;
const Check check={"C01",2892,2892*40,"distinct (character set, code page, character) triples printed and read",0,60};
void init() { build();}
struct Run
{
	const Job& j; Rng& r; uint64_t idx;
	template <class It, class CS> void readAll( It it, CS c, const enc::U& u, const std::string& bytes, const std::vector<size_t>& offs, const char* what, size_t* maxread=0, bool copies=true)
	{
		typedef TextScanner<It,CS> TS;
		TS ts( c, it); CS same( c);
		for (size_t k=0;k<u.size();++k)
		{
			if (ts.getPosition()!=offs[k]) fail( std::string(what)+": position "+num(ts.getPosition())+" before character "+num(k)+" at "+num(offs[k]));
			std::string cb=bytes.substr( offs[k], offs[k+1]-offs[k]);
			views( ts, same, r, u[k], cb);
			if (ts.getPosition()!=offs[k]) fail( std::string(what)+": reading a character changed its position");
			if (maxread && *maxread>offs[k+1]) fail( std::string(what)+": read beyond the end of the character "+num(u[k]));
			if (copies && r.chance(1,64)) {TS cp( ts); if (cp.chr()!=u[k]) fail( std::string(what)+": copy of the text scanner has another character"); ++cp; if (cp.getPosition()!=offs[k+1]) fail( "copy is at another position");}
			if (r.chance(1,4)) {TS old=ts++; if (copies && r.chance(1,8) && old.chr()!=u[k]) fail( "post increment returns another character");} else if (r.chance(1,2)) ts.skip(); else ++ts;
			if (maxread && *maxread>offs[k+1]) fail( std::string(what)+": read beyond the end of the character "+num(u[k]));
		}
		if (ts.chr()!=0 || ts.control()!=EndOfText || ts.ascii()!=0) fail( std::string(what)+": no null character at the end");
		count( "characters read", u.size());
	}
	template <class CS> void go()
	{
		CS c=Info<CS>::make( j.page);
		enc::U u;
		if (j.beyond) for (int k=0;k<B/2;++k) {uint32_t x; switch (r.below(4)) {case 0: x=(1u<<(r.below(31)))-(unsigned)r.below(3)+1; break; case 1: x=r.u64(); break; case 2: x=0x110000+r.below(0x200000); break; default: x=1u<<(21+r.below(10));} if (j.id==enc::UTF8) x&=0x7FFFFFFF; if (x==0x7FFFFFFF&&j.id==enc::UTF8) x=5; if (x>=0xD800&&x<=0xDFFF) x=1; u+=(char32_t)x;}
		else if (j.id==enc::ISO) {for (int b=0;b<256;++b) {uint32_t x=b<128?b:enc::isoTable[j.page-1][b-128]; if (x||!b) u+=(char32_t)x;}}
		else for (uint32_t x=j.from;x<j.to;++x) {if (x>=0xD800&&x<=0xDFFF) continue; u+=(char32_t)x;}
		if (idx<jobs.size() && !j.beyond && j.id!=enc::ISO) {distinctN( u.size()); count( "distinct scalar values", u.size());} // blocks do not overlap
		if (idx<jobs.size() && j.id==enc::ISO && jobs[idx-1].page!=j.page) distinctN( u.size());
		// shuffle, every character gets random neighbours
		for (size_t k=u.size();k>1;--k) std::swap( u[k-1], u[r.below(k)]);
		// some repeated neighbours of all lengths
		if (j.id!=enc::ISO) {enc::U v; for (char32_t x:u) {v+=x; if (r.chance(1,6)) {static const char32_t sp[]={'a','<','\n','&',0xE9,0x3B1,0x20AC}; v+=sp[r.below(7)];}} u.swap(v);}
		else for (int k=0;k<300;++k) u+=u[r.below(u.size())];
		std::string bytes=enc::enc( u, j.id, j.page);
		note( std::string(enc::name(j.id))+" page "+num(j.page)+" characters from "+num(j.from)+" (shuffled), "+num(u.size())+" characters");
		// print
		std::string out; std::vector<char> vout; std::string one;
		for (char32_t x:u)
		{
			one.clear(); c.print( x, one); std::string e; enc::put( e, j.id, x, j.page);
			if (one!=e) fail( "character "+num(x)+" printed as '"+show(one)+"' instead of '"+show(e)+"'");
			c.print( x, out); c.print( x, vout);
		}
		if (out!=bytes || std::string( vout.begin(), vout.end())!=bytes) fail( "text printed differs from the standard encoding");
		StaticBuffer sb( bytes.size()); for (char32_t x:u) c.print( x, sb);
		if (sb.size()!=bytes.size() || sb.overflow() || memcmp( sb.ptr(), bytes.data(), bytes.size())) fail( "text printed to a static buffer differs");
		if (idx%4==0)
		{
			std::ostringstream os; OstreamOutput oo( &os), o2( oo); for (size_t k=0;k<u.size();++k) c.print( u[k], (k&1)?oo:o2);
			if (os.str()!=bytes) fail( "text printed to a stream differs");
			std::ostringstream osa; OstreamOutput oa( &osa); for (size_t k=0,n;k<bytes.size();k+=n) {n=std::min( (size_t)r.below(40), bytes.size()-k); oa.append( bytes.data()+k, n);}
			if (osa.str()!=bytes) fail( "text appended to a stream differs");
			count( "characters printed to a stream", u.size());
		}
		count( "characters printed", u.size()*4);
		// read
		std::vector<size_t> offs=enc::offsets( u, j.id, j.page);
		size_t mr=0;
		char* heap=(char*)malloc( bytes.size()); memcpy( heap, bytes.data(), bytes.size());
		readAll( CIt( heap, bytes.size(), &mr), c, u, bytes, offs, "user iterator", &mr);
		switch (idx%3)
		{
			case 0: readAll( SrcIterator( heap, bytes.size()), c, u, bytes, offs, "SrcIterator"); break;
			case 1: readAll( CStringIterator( heap, bytes.size()), c, u, bytes, offs, "CStringIterator"); break;
			default: {std::istringstream ss( bytes); StdInputStream is( ss); readAll( IStreamIterator( &is, 1+r.below(r.chance(1,2)?9:9000)), c, u, bytes, offs, "IStreamIterator", 0, false);} // (copies of a stream iterator read from the same stream)
		}
		free( heap);
		{std::string p=bytes; p.append( 16, '\0'); readAll( &p[0], c, u, bytes, offs, "char*");}
		count( (std::string("blocks ")+enc::name(j.id)).c_str());
		if (idx<3) sample( std::string(enc::name(j.id))+": "+show( bytes, 60));
	}
};
void run( uint64_t idx, Rng& r)
{
	const Job& j=jobs[ idx % jobs.size()];
	Run x={j,r,idx}; cs::visit( j.id, x);
}
}
