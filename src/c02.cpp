// C02: characters a character set cannot represent are written as references on every output path
#include "cs.hpp"
#include "printer.hpp"
#include "adapter.hpp"
using namespace cs;
namespace vf {
extern const Check check;
enum {B=4096};
struct Job {int id,page; uint32_t from,to;};
static std::vector<Job> jobs;
static bool low( uint32_t x) {return x>=0xDC00&&x<=0xDFFF;}	// single low surrogates are excluded
static bool unrep( int id, uint32_t x, int page)
{
	if (id==enc::UTF16LE||id==enc::UTF16BE) return x>0x10FFFF || (x>=0xD800&&x<=0xDBFF);
	return !enc::rep( id, x, page);
}
void init()
{
	for (int id=0;id<enc::ISO;++id)
	{
		if (id==enc::UCS4LE||id==enc::UCS4BE) continue;
		if (id==enc::UCS2LE||id==enc::UCS2BE) for (uint32_t f=0x10000;f<0x110000;f+=B) jobs.push_back( Job{id,1,f,f+B});
		if (id==enc::UTF16LE||id==enc::UTF16BE) jobs.push_back( Job{id,1,0xD800,0xDC00});
		uint32_t top=id==enc::UTF8?0x80000000u:0x110000u;
		jobs.push_back( Job{id,1,top,top+B}); jobs.push_back( Job{id,1,0xFFFFFFFFu-B,0xFFFFFFFFu});
		for (int k=0;k<6;++k) jobs.push_back( Job{id,1,top,0}); // random
	}
	for (int p=1;p<=9;++p) for (uint32_t f=0;f<0x110000;f+=0x4000) jobs.push_back( Job{enc::ISO,p,f,f+0x4000});
	for (int p=1;p<=9;++p) {jobs.push_back( Job{enc::ISO,p,0x110000,0}); jobs.push_back( Job{enc::ISO,p,0xFFFFFFFFu-B,0xFFFFFFFFu});}
}
const Check check={"C02",1600+120000,1600+1500000,"distinct (output path, character set, unrepresentable character) tuples",0,60};
struct Direct
{
	const Job& j; Rng& r;
	template <class CS> void go()
	{
		CS c=Info<CS>::make( j.page); std::string all,expall; std::vector<char> vec; uint64_t n=0;
		auto one=[&]( uint32_t x)
		{
			if (!unrep( j.id, x, j.page)) return;
			std::string o; c.print( x, o); std::string e,ref=enc::ref(x); for (char k:ref) enc::put( e, j.id, (unsigned char)k, j.page);
			if (o!=e) fail( std::string("character ")+num(x)+" printed in "+enc::name(j.id)+" page "+num(j.page)+" as '"+show(o)+"' instead of '"+show(e)+"'");
			++n;
			if (n%16==0) {StaticBuffer sb( e.size()); c.print( x, sb); if (sb.overflow()||sb.size()!=e.size()||memcmp( sb.ptr(), e.data(), e.size())) fail( "printed to a static buffer differs for "+num(x)); c.print( x, vec); expall+=e;}
		};
		if (j.to) for (uint32_t x=j.from;x<j.to;++x) one( x);
		else for (int k=0;k<2000;++k) one( r.chance(1,2)?(uint32_t)r.u64():(uint32_t)(j.from+r.below( r.chance(1,2)?0x1000:0x10000000)));
		if (std::string( vec.begin(), vec.end())!=expall) fail( "printed to a vector differs");
		distinctN( j.to?n:n/2); count( "characters printed directly", n);
	}
};
void run( uint64_t idx, Rng& r)
{
	if (idx<jobs.size())
	{
		const Job& j=jobs[idx]; note( std::string("direct print ")+enc::name(j.id)+" page "+num(j.page)+" from "+num(j.from)); Direct d={j,r}; cs::visit( j.id, d); return;
	}
	// a text with characters outside of the repertoire of the target
	static const int targets[]={enc::ISO,enc::ISO,enc::ISO,enc::UCS2LE,enc::UCS2BE,enc::UTF16LE,enc::UTF16BE,enc::UTF8}; int out=targets[ r.below(8)];
	bool printer=r.chance(1,2); int page=printer&&out==enc::ISO?1+(int)r.below(9):1;
	enc::U u; unsigned n=1+r.below(20), nun=0;
	static const int wide[]={enc::UTF8,enc::UCS4LE,enc::UCS4BE,enc::UTF16LE,enc::UTF16BE}; static const int wide4[]={enc::UCS4LE,enc::UCS4BE};
	bool huge=(out==enc::UTF8||out==enc::UTF16LE||out==enc::UTF16BE);
	int in=huge?(out==enc::UTF8?wide4[r.below(2)]:wide[r.below(3)]):wide[r.below(5)];
	for (unsigned k=0;k<n;++k)
	{
		uint32_t x;
		switch (r.below(6))
		{
			case 0: x='a'+r.below(26); break;
			case 1: x=0xA0+r.below(0x60); break;
			case 2: x=0x100+r.below(0x300); break;
			case 3: x=0x10000+r.below(0x100000); break;
			case 4: x=huge?(out==enc::UTF8?0x80000000u+r.below(0x7FFFFFFFu):r.chance(1,3)&&in!=enc::UTF8?0xD800+(uint32_t)r.below(0x400):0x110000+(uint32_t)r.below(0x7FE00000)):0x800+r.below(0xD000); break;
			default: {static const uint32_t s[]={0x100,0x101,0x1FF,0x20AC,0xFFFD,0xFFFF,0x10000,0x10FFFF,0x100AC,0x10041,0x100FF,0x13C,0x1E02,0xFFFE}; x=s[r.below(14)];}
		}
		if (x>=0xD800&&x<=0xDFFF&&!(in==enc::UCS4LE||in==enc::UCS4BE)) x='s';
		if (low(x) || !(enc::rep( in, x) || in==enc::UCS4LE || in==enc::UCS4BE)) x='t';
		if (in==enc::UTF8&&x==0x7FFFFFFF) x='u';
		u+=(char32_t)x; if (unrep( out, x, page)) ++nun;
	}
	std::string exp; for (char32_t x:u) {if (unrep( out, x, page)) {std::string ref=enc::ref(x); for (char k:ref) enc::put( exp, out, (unsigned char)k, page);} else enc::put( exp, out, x, page);}
	note( std::string(printer?"printer ":"scanner ")+enc::name(in)+" to "+enc::name(out)+" page "+num(page)+" text "+show( enc::u8(u)));
	if (printer)
	{
		// open tag, attribute name and value, content, close tag
		prn::P* p=prn::make( out, page, in, true, r.chance(1,6)?(int)prn::MULTI:(int)r.below(2)); std::string t=enc::enc( u, in), nm=enc::enc( U"e"+u, in); bool ok=true;
		ok&=p->open( nm); ok&=p->attr( nm); ok&=p->value( t); ok&=p->value( t); ok&=p->close();
		if (!ok) fail( "printing failed");
		auto a=[&]( const char* s) {std::string o; for (;*s;++s) enc::put( o, out, (unsigned char)*s, page); return o;};
		std::string e=a("<e")+exp+a(" e")+exp+a("=\"")+exp+a("\">")+exp+a("</e")+exp+a(">\n");
		std::string g=p->out(); delete p;
		if (g!=e) fail( "printed '"+show(g)+"' instead of '"+show(e)+"'");
		count( "printer texts"); count( "unrepresentable characters in printed documents", nun*5);
	}
	else
	{
		// characters written as such and as references, in content, attribute values and names
		enc::U d=U"<e"; d+=u; d+=U" e"; d+=u; d+=U"=\""; enc::U refs; for (char32_t x:u) {if (r.chance(1,2)) refs+=x; else {char b[40]; snprintf( b, sizeof(b), r.chance(1,2)?"&#%u;":"&#x%x;", (unsigned)x); refs+=enc::asc(b);}} d+=refs; d+=U"\">"; d+=refs; d+=U"</e"; d+=u; d+=U">";
		scan::Req q( in, out); scan::Res x=scan::run( q, enc::enc( d, in));
		std::string e; for (char k:std::string("e")) enc::put( e, out, k); 
		static const int ty[]={doc::OpenTag,doc::TagAttribName,doc::TagAttribValue,doc::Content,doc::CloseTag,doc::Exit};
		const std::string tx[]={e+exp,e+exp,exp,exp,e+exp,""};
		if (x.ev.size()!=6) fail( "wrong number of elements "+scan::show(x));
		for (int k=0;k<6;++k) if (x.ev[k].type!=ty[k]||x.ev[k].val!=tx[k]) fail( "element "+num(k)+" is '"+show(x.ev[k].val)+"' instead of '"+show(tx[k])+"'");
		count( "scanned texts"); count( "unrepresentable characters in scanned documents", nun*5);
	}
	if (nun) distinct( hash( u.data(), u.size()*4)+out*31+page+(printer?7777:0));
	if (nun && idx%997==0) sample( std::string(printer?"printer ":"scanner ")+enc::name(in)+" to "+enc::name(out)+": "+show( exp, 200));
}
}
